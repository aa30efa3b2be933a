// Deterministic simulator for fullock: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <map>
#include <set>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;

//---------------------------------------------------------------- rng
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(u64 num, u64 den) { return below(den) < num; }
	u64 geo(u64 mean) { // geometric-ish, >=1
		u64 n = 1; if(mean <= 1) return 1;
		double u = (double)((next() >> 11) + 1) / 9007199254740993.0;
		double v = -__builtin_log(u) * (double)mean; if(v > 1e9) v = 1e9; n += (u64)v; return n;
	}
};
inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

//---------------------------------------------------------------- limits / layout
enum { MAXIMG = 12, MAXPROC = 40, MAXFIB = 96, MAXFD = 48, NKEYS = 16, MAXSPACE = 16, NSLOT = 24 };
static const u64 SLOTSZ  = 4u << 20;
static const u64 SHBASE  = 0x200000000000ull;
static const u64 SHSIZE  = SLOTSZ * NSLOT * MAXSPACE;
static const u64 ARBASE  = 0x210000000000ull;
static const u64 ARSZ    = 16u << 20;
static const u64 STBASE  = 0x220000000000ull;
static const u64 STSZ    = 192u << 10;
static const u64 STEP_NS = 20;

//---------------------------------------------------------------- program text
enum OpKind {
	OP_NOP, OP_INIT, OP_MLOCK, OP_MTRY, OP_MTIMED, OP_MUNLOCK,
	OP_RD, OP_RDTRY, OP_RDTIMED, OP_WR, OP_WRTRY, OP_WRTIMED, OP_RWUNLOCK, OP_ISLOCKED,
	OP_OPEN, OP_CLOSE, OP_CWAIT, OP_CTIMED, OP_CSIG, OP_CBC,
	OP_CS, OP_SLEEP, OP_TEXIT, OP_PEXIT, OP_SPAWN, OP_FORK, OP_REINIT, OP_SETMODE,
	OP_RCSVNEW, OP_RCSVLOCK, OP_RCSVUNLOCK, OP_RCSVDEL,
	OP_BARRIER, OP_SETFLAG, OP_WAITFLAG, OP_WAITALL, OP_WAITGONE, OP_JOINALL, OP_QUIESCE, OP_FLUSH, OP_KILLP, OP_STARTP, OP_CHECKEND, OP_RELALL, OP_DUP, OP_CHDIR, OP_BADCALL,
	OP_MAX
};
extern const char* opnames[OP_MAX];
struct Op { int k; int v[6]; };
struct ThreadProg { std::vector<Op> ops; };
struct ProcProg {
	int uid = 0;          // user id (0 root)
	int space = 0;        // lock space (directory/file) index
	int robust = 2;       // 0 no 1 low 2 high, -1: leave environment unset
	int nomap = 1;        // 0 allow_noretry 1 deny_noretry 2 allow_retry 3 deny_retry
	int freeu = 1;        // 0 no 1 fd 2 offset
	int chkcnt = 50;
	int caps = 0;         // capacity profile
	int start = 0;        // 0 at once, 1 by fork, 2 by STARTP
	int delay = 0;        // steps before start
	int autoinit = 1;
	int dirmode = 0;      // 0: FLCKDIRPATH set, 1: defaults, 1000 + code: see PF_PATHS
	int env = 0;          // how the modes reach the library: bits 0-1 robust, 2-3 nomap, 4-5 freeu (0 canonical, 1 other case, 2 alias or unknown word where the default is meant, 3 not in the environment, the setter function is called first), 6-7 autoinit word, 8 check count by its setter
	int mask = 0;         // PF_PATHS: 8 * (choice of FLCKUMASK) + choice of the process's own umask
	std::vector<ThreadProg> thr;
};
enum FaultKind { F_KILL, F_STALL, F_SYSERR, F_KILLW, F_KILLINIT, F_EINTR, F_SLOW }; // F_EINTR: the step'th, 2 step'th … call of `op` is interrupted by a signal (b times at most); F_SLOW: call number step .. step+b-1 of `op` lasts a us longer
struct Fault { int kind, proc, thr, op, step, a, b, c; };
struct Program {
	std::string prop; int scen = 0;
	u64 kseed = 1, sseed = 1;
	u64 yq = 2000;       // ns a sched_yield lasts
	u64 t0 = 0;          // monotonic start (ns)
	u64 s1 = 60000;      // steps of adversarial phase
	u64 s2 = 4000000;    // extra steps of the drain phase
	int pol = 0, quantum = 30;
	int nfiles = 2;
	int prior = 0;       // content of the lock space file before the run
	int flags = 0;
	std::vector<ProcProg> procs;
	std::vector<Fault> faults;
	std::vector<std::pair<int,int>> segs;  // recorded schedule (fiber index, steps)
	bool has_segs = false;
	u64 expect_hash = 0; std::string expect_class;
};
std::string prog_print(const Program&);
bool prog_parse(const std::string&, Program&);
// Programs with this flag name the lock space in several ways (code = 100 * directory + 10 * file name + spelling); its number is that of the path.
enum { PF_PATHS = 256 };
int space_id(const std::string& path);                 // number of the lock space with this path (PF_PATHS), assigned at first use
std::string dir_spelling(int code); std::string file_spelling(int code);
std::string expected_path(struct Proc* p, int code);   // of the file used after start-up (code < 0) or re-initialisation
int env_umask(int choice);

//---------------------------------------------------------------- capacity profiles
struct Caps { int file, off, locker, nmtx, ncond, waiter; };
Caps caps_of(int profile);
std::string name_of(int idx);          // mutex / cond names

//---------------------------------------------------------------- runtime
struct Proc; struct Fiber;
struct Api {
	bool (*set_robust[3])(void); bool (*set_nomap[4])(void); bool (*set_free[3])(void); bool (*set_chk)(int);
	bool (*reinit)(const char*, const char*); bool (*reinit_ex)(const char*, const char*, size_t, size_t, size_t, size_t, size_t, size_t);
	int (*mlock)(const char*); int (*mtry)(const char*); int (*mtimed)(const char*, time_t); int (*munlock)(const char*);
	int (*rw[3])(int, off_t, size_t);       // unused, rd, wr
	int (*rwtry[3])(int, off_t, size_t);
	int (*rwtimed[3])(int, off_t, size_t, time_t);
	int (*rwunlock)(int, off_t, size_t); bool (*islocked)(int, off_t, size_t);
	int (*cwait)(const char*, const char*); int (*ctimed)(const char*, const char*, time_t); int (*csig)(const char*); int (*cbc)(const char*);
	void* (*rcsv_new)(int, off_t, size_t); void* (*rcsv_newl)(int, off_t, size_t, int); int (*rcsv_lock)(void*, int); int (*rcsv_relock)(void*, int, off_t, size_t, int); int (*rcsv_unlock)(void*); void (*rcsv_del)(void*);
	void (*run_init)(void); void (*run_fini)(void);
};
struct Image {
	void* dl; char* base; char* rw; size_t rwlen; std::vector<char> pristine; Api api; Proc* resident; int users;
	char* arena; char* tlsinit; size_t tlsfile, tlsmem; size_t textlen;
};
enum FSt { FS_FREE, FS_RUN, FS_SLEEP, FS_BLOCK, FS_DONE };
struct Fiber {
	int idx; int st; Proc* proc; int tid; int appthr;   // appthr>=0: application thread index
	void* sp; char* stk;
	int err; void* eh[2]; void* keys[NKEYS]; char* tls;
	u64 wake; bool (*pred)(Fiber*); u64 pv[4];
	bool inlib; int kern; bool cancelled, cdis, exiting; bool detached, joined; void* ret;
	void* (*start)(void*); void* arg; ThreadProg* tp; int pc; bool opactive;
	u64 steps, opstep; u64 kill_at, stall_at; u64 stall_len, stalled_until; int kill_reap;
	void* lastpc; u64 owntime; bool timedout;
	u64 prio;
	// recent shared-memory writes (for precise descriptions of crash points)
	int lw_kind; u64 lw_addr; u64 wseq; u64 opwseq; u64 wr_hist[4];
	u64 uid;            // unique application thread id in the run
	void* mod;          // harness private
	bool dead;          // killed with its process
	u64 dl, dl_own;     // deadline of the pending timed call, own time used when it passed
};
enum PSt { PS_NONE, PS_RUN, PS_ZOMBIE, PS_GONE };
struct LockR { int type; off_t s, e; };
struct Proc {
	int idx; int pid; int st; Image* img; ProcProg* pp; int uid; int ppid;
	int fd[MAXFD]; std::vector<std::pair<void(*)(void*), void*>> atexit_; std::vector<void(*)(void)> atfork_child, atfork_parent, atfork_prepare; size_t forkrun = 0; /* handlers which run in a child: those set before fork was called */
	std::map<std::string, std::string> env; mode_t umask; std::vector<char> saved_rw, saved_ar; bool has_saved;
	u64 steps; u64 reap_step, reap_time, gone_time; int reap; bool keyused[NKEYS]; void (*keydtor[NKEYS])(void*);
	std::map<int,int> syscount; bool exited_normally; bool killed; int nexit_fds, nexit_maps; u64 died_ev; bool exiting;
	bool wkill; u64 wkill_at; int wkill_reap; bool syserr_fired; u32 syserr_mask = 0; int nthreads_created; bool initkill; u64 initkill_at; bool forked; int parent_idx;
	int curspace; std::string cwd; mode_t umask0; std::vector<int> fds_harness; bool polled; int forkslack;
};
struct RunStats {
	u64 steps, segs, simtime; u64 faults_kill, faults_stall, faults_sys, faults_eintr, faults_slow, clockjumps, forks, threads, procs, yields, syscalls, reinit, execs, exits;
	u64 ops; u64 opc[OP_MAX]; u64 reap_delay; u64 probes[64];
};
struct Outcome {
	bool violated; std::string cls, msg; u64 hash; RunStats st; bool inconclusive; std::string known;
};
extern Fiber* cur; extern RunStats rs; extern u64 g_totsteps;
extern std::vector<u8> g_pairmap; // distinct (from pc,to pc) pairs
extern std::vector<std::pair<int,int>> g_last_segs;
Fiber* k_spawn_thread(Proc* p, int appthr);
void k_arm(Fiber* f, int what);
u64 now_ns();
void step_yield();                  // one scheduling step
void block_until(bool (*pred)(Fiber*));  // block current fiber until pred true
void sleep_ns(u64 ns);
Fiber* fiber_new(Proc* p, void* (*fn)(void*), void* arg);
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3))); // ends the run (noreturn when in a fiber)
void note_known(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace; extern bool g_drain; extern Program* P; extern Rng krng;
extern Proc procs[MAXPROC]; extern int nprocs; extern Fiber fibs[MAXFIB]; extern int nfibs; extern Image imgs[MAXIMG]; extern int nimgs;
void core_init(const char* sodir);
Outcome run_program(Program& p, bool record, bool trace);
// kernel
void kernel_reset();
Proc* proc_start(int idx, Proc* parent);
void proc_kill(Proc* p, int reap);
void proc_reap_tick();
void proc_exit_normal();            // current fiber's process (never returns)
[[noreturn]] void thread_exit(void* ret);
bool proc_has_mapping(Proc* p, int space, u64 minlen);
int proc_space_mapped(Proc* p);
u64 space_gen(int space);
int k_open(Proc* p, const char* path, int flags, int mode);
int k_close(Proc* p, int fd);
const char* path_of_file(int f, char* buf);
void fd_ident(Proc* p, int fd, u64* dev, u64* ino);
int k_dup(Proc* p, int fd);
void img_switch(Proc* p);
// harness
void harness_reset();
void harness_reinit(int space);
void* app_thread_main(void*);
void harness_thread_gone(Fiber* f);
void harness_proc_dead(Proc* p, bool killed);
void harness_end();                 // end-of-run checks
void harness_begin_process(Proc* p);
bool harness_all_done();
std::string harness_hang_desc();
void harness_hang();
bool harness_known(const char* cls, const char** id);
void harness_wild(const char* what, u64 addr);
// gen
Program gen_program(const std::string& prop, u64 seed, int tier);
std::vector<Program> fixed_programs(const std::string& prop);
