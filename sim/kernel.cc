// Simulated kernel and C library surface of one machine.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/syscall.h>
#include <poll.h>

struct Inode { int id; u64 dev, ino; int type; u64 size; int space; std::vector<LockR> dummy; std::vector<std::pair<int, LockR>> locks; std::vector<std::pair<int,int>> watches; int mode; int uid; int creator; };
enum { IT_DIR = 1, IT_FILE, IT_SPACE };
enum { OK_FILE = 1, OK_INOTIFY, OK_EPOLL };
struct IEvent { int wd; u32 mask; };
struct EpItem { int fd; int ofd; epoll_event ev; bool armed; };
struct Ofd { int refs; int kind; int inode; int flags; off_t pos; std::vector<IEvent> q; int nextwd; std::vector<EpItem> items; };
static std::vector<Inode> inodes; static std::vector<Ofd> ofds; static std::map<std::string, int> paths;
static int nextpid; static u64 g_gen[MAXSPACE]; static std::vector<int> allpids;
struct Slot { bool used; u64 len; u64 mask; u64 fsize_limit; int ofd; };
extern Slot slots[MAXSPACE][NSLOT]; extern u64 space_size[MAXSPACE], space_hw[MAXSPACE];
extern void clock_add(u64); [[noreturn]] extern void fiber_gone(); extern void quantum_end_hint(); extern bool block_until_timeout(bool (*)(Fiber*), u64); extern void img_fork(Proc*, Proc*); extern Image* img_get(); extern void hash_event(u64);
static inline char* space_mem(int s) { return (char*)(SHBASE + (u64)s * NSLOT * SLOTSZ); }
u64 space_gen(int s) { return g_gen[s]; }

struct K { Fiber* f; int o; K() : f(cur), o(cur ? cur->kern : 0) { if(f) f->kern = 1; } ~K() { if(f) f->kern = o; } };
// A system call: one scheduling point before it takes effect, some time, maybe an injected failure.
static bool sys_enter(const char* name, int* err)
{
	step_yield(); clock_add(300 + krng.below(1500)); rs.syscalls++;
	Proc* p = cur->proc;
	bool hit = false;
	static const char* const names[] = {"open","fcntl","ftruncate","pwrite","mmap","pthread_create","epoll_create1","inotify_init1","inotify_add_watch","epoll_ctl","mkdir","stat","fstat","read","close","munmap","pread","clock_gettime","nanosleep","epoll_pwait","sysconf","umask","getcwd"};
	int id = -1; for(int i = 0; i < (int)(sizeof names / sizeof *names); i++) if(!strcmp(names[i], name)) id = i;
	int n = ++p->syscount[id];
	if(!g_drain || true) for(auto& f : P->faults) if(f.kind == F_SYSERR && f.proc == p->idx && f.op == id && n >= f.step && n < f.step + f.b && (!f.c || (f.c == 2) == (proc_space_mapped(p) >= 0))) { *err = f.a; hit = true; }
	for(auto& f : P->faults) if(f.kind == F_SLOW && f.proc == p->idx && f.op == id && n >= f.step && n < f.step + f.b) { rs.faults_slow++; tracef("fault: slow %s (%d us)", name, f.a); block_until_timeout([](Fiber* x) { return x->cancelled && !x->cdis && !x->exiting; }, (u64)f.a * 1000); }
	if(hit) { rs.faults_sys++; p->syserr_fired = true; p->syserr_mask |= 1u << id; tracef("fault: %s fails with %s", name, strerror(*err)); }
	return hit;
}
#define SYS(name) K k_; int fe_ = 0; bool fault_ = sys_enter(name, &fe_); (void)fault_
#define RET_ERR(e) do { cur->err = (e); return -1; } while(0)
// A signal handler of the application (installed without SA_RESTART) ran in the calling thread: the call is interrupted.
static bool interrupted(int id) { int n = cur->proc->syscount[id]; for(auto& f : P->faults) if(f.kind == F_EINTR && f.proc == cur->proc->idx && f.op == id && n % f.step == 0 && n / f.step <= f.b) { rs.faults_eintr++; tracef("fault: interrupted by a signal"); return true; } return false; }
static void testcancel() { Fiber* f = cur; if(f->cancelled && !f->cdis && !f->exiting) { f->exiting = true; thread_exit(PTHREAD_CANCELED); } }

//---------------------------------------------------------------- file system
static int mk_inode(int type, int space = -1) { Inode n; n.id = (int)inodes.size(); n.dev = 2049; n.ino = 100 + inodes.size(); n.type = type; n.size = 0; n.space = space; n.mode = type == IT_DIR ? 0777 : 0666; n.uid = 0; n.creator = -1; inodes.push_back(n); return n.id; }
static std::string norm(const char* p)
{
	std::string s = p, e; if(s.empty()) return s; std::vector<std::string> v; if(s[0] != '/') s = (cur && cur->proc ? cur->proc->cwd : std::string("/")) + "/" + s;
	for(size_t i = 0; i <= s.size(); i++) if(i == s.size() || s[i] == '/') { if(e == "..") { if(!v.empty()) v.pop_back(); } else if(!e.empty() && e != ".") v.push_back(e); e.clear(); } else e += s[i];
	std::string r; for(auto& x : v) r += "/" + x; return r.empty() ? "/" : r;
}
static bool may(Proc* p, int ino, int bits) { Inode& n = inodes[ino]; if(!p->uid) return true; int m = p->uid == n.uid ? n.mode >> 6 : n.mode; return (m & bits) == bits; }
static std::vector<std::string> path_ids;
int space_id(const std::string& path) { for(size_t i = 0; i < path_ids.size(); i++) if(path_ids[i] == path) return (int)i; path_ids.push_back(path); return (int)path_ids.size() - 1; }
std::string path_of_space(int s) { return s >= 0 && s < (int)path_ids.size() ? path_ids[s] : std::string("?"); }
std::string dir_spelling(int code)
{
	int d = code / 100 % 10; std::string n = d == 1 ? "s0" : d == 2 ? "s1" : "new/s2";
	switch(code % 10) { case 0: return "/tmp/fl/" + n; case 1: return "/tmp/fl/./" + n; case 2: return "/tmp/fl/x/../" + n; case 3: return "fl/" + n; case 4: return "/tmp//fl///" + n + "/"; case 5: return "../tmp/fl/" + n; case 6: return "./fl/" + n + "/."; default: return "../../../tmp/fl/" + n; } // (7: above the root, so not valid)
}
std::string file_spelling(int code) { switch(code / 10 % 10) { case 1: return "fl.shm"; case 2: return "o.shm"; default: return " fl.shm\t"; } }
int env_umask(int c) { static const int m[] = {0, 0, 022, 077, 0277}; return m[c % 5]; }
std::string expected_path(Proc* p, int code)
{
	int d = code >= 0 && code / 100 % 10 ? code : p->pp->dirmode >= 1000 && p->pp->dirmode / 100 % 10 && p->pp->dirmode % 10 != 7 ? p->pp->dirmode : -1, f = code >= 0 && code / 10 % 10 ? code : p->pp->dirmode >= 1000 && p->pp->dirmode / 10 % 10 ? p->pp->dirmode : -1;
	std::string dir; if(d < 0) dir = P->flags & 2 ? "/var/lib/antpickax/.fullock" : "/tmp/.fullock";
	else { static const char* const n[] = {"", "s0", "s1", "new/s2"}; std::string base = d % 10 == 3 || d % 10 == 6 ? p->cwd : "/tmp"; dir = base + "/fl/" + n[d / 100 % 10]; }
	return dir + "/" + (f < 0 ? "fullock.shm" : f / 10 % 10 == 2 ? "o.shm" : "fl.shm");
}
void space_file(int s, int* mode, int* creator) { *mode = -1; *creator = -1; for(auto& n : inodes) if(n.type == IT_SPACE && n.space == s) { *mode = n.mode; *creator = n.creator; } }
int odd_directory(std::string& name) { for(auto& x : paths) if(inodes[x.second].type == IT_DIR && inodes[x.second].creator >= 0 && inodes[x.second].mode != 0777) { name = x.first; return inodes[x.second].mode; } return -1; }
static bool parent_ok(const std::string& s) { size_t i = s.rfind('/'); if(i == std::string::npos) return false; std::string d = i ? s.substr(0, i) : "/"; auto it = paths.find(d); return it != paths.end() && inodes[it->second].type == IT_DIR; }
static unsigned spaces_used; // bit set
// Number of a new shared file: that of the lock space its directory belongs to, so that the harness and the kernel agree on it.
static int new_space(const std::string& path)
{
	if(P->flags & PF_PATHS) return space_id(path);
	int w = path.compare(0, 9, "/tmp/fl/s") == 0 && path.size() > 9 ? path[9] - '0' : -1;
	if(w < 0 || w >= MAXSPACE || (spaces_used >> w & 1)) for(w = 0; w < MAXSPACE && (spaces_used >> w & 1); w++);
	if(w < MAXSPACE) spaces_used |= 1u << w;
	return w;
}
const char* path_of_file(int f, char* b) { sprintf(b, "/data/f%d", f); return b; }
void kernel_reset()
{
	inodes.clear(); ofds.clear(); paths.clear(); nextpid = 1000; spaces_used = 0; path_ids.clear(); allpids.clear(); memset(g_gen, 0, sizeof g_gen);
	paths["/"] = mk_inode(IT_DIR); paths["/tmp"] = mk_inode(IT_DIR); paths["/data"] = mk_inode(IT_DIR); paths["/var"] = mk_inode(IT_DIR); paths["/var/lib"] = mk_inode(IT_DIR);
	if(P->flags & 2) paths["/var/lib/antpickax"] = mk_inode(IT_DIR);
	for(int i = 0; i < P->nfiles; i++) { char b[64]; paths[path_of_file(i, b)] = mk_inode(IT_FILE); }
	if(P->flags & 4) { inodes[paths["/data/f1"]].dev = 2050; inodes[paths["/data/f1"]].ino = inodes[paths["/data/f0"]].ino; } // same inode number, other device
	if(P->prior) {   // a file at the lock space path left by somebody else
		for(const char* d : {"/tmp/fl", "/tmp/fl/s0"}) if(!paths.count(d)) paths[d] = mk_inode(IT_DIR);
		int s = new_space("/tmp/fl/s0/fl.shm"); int ino = mk_inode(IT_SPACE, s); paths["/tmp/fl/s0/fl.shm"] = ino;
		char* m = space_mem(s); u64 sz = 0;
		switch(P->prior) {
		case 1: sz = 0; break;                                  // empty file
		case 2: sz = 100; memset(m, 0, sz); break;              // short zeros
		case 3: sz = 4096; memset(m, 0, sz); break;             // page of zeros (creator died before the header)
		case 4: sz = 8192; for(u64 i = 0; i < sz; i++) m[i] = (char)krng.next(); break; // garbage
		case 5: sz = 4096; memset(m, 0, sz); *(u64*)m = 1; break; // version set, nothing else
		case 6: sz = 16; memset(m, 'x', sz); break;
		}
		inodes[ino].size = sz; space_size[s] = sz; space_hw[s] = 65536;
	}
}
static int new_ofd(int kind, int inode, int flags) { for(size_t i = 0; i < ofds.size(); i++) if(ofds[i].refs == 0) { ofds[i] = Ofd(); ofds[i].refs = 1; ofds[i].kind = kind; ofds[i].inode = inode; ofds[i].flags = flags; return (int)i; } Ofd o = Ofd(); o.refs = 1; o.kind = kind; o.inode = inode; o.flags = flags; ofds.push_back(o); return (int)ofds.size() - 1; }
static int new_fd(Proc* p, int o, int from = 3) { for(int i = from; i < MAXFD; i++) if(p->fd[i] < 0) { p->fd[i] = o; return i; } return -1; }
static void notify(int ino, u32 mask)
{
	for(size_t oi = 0; oi < ofds.size(); oi++) { Ofd& o = ofds[oi]; if(o.refs <= 0 || o.kind != OK_INOTIFY) continue;
		for(auto& w : inodes[ino].watches) if(w.first == (int)oi) {
			u32 wm = 0; for(auto& e : inodes[ino].dummy) if(e.type == (int)oi && (int)e.s == w.second) wm = (u32)e.e;
			if(!(wm & mask)) continue;
			IEvent ev{w.second, mask};
			if(!o.q.empty() && o.q.back().wd == ev.wd && o.q.back().mask == ev.mask) { /* coalesced, still a wake-up */ } else o.q.push_back(ev);
			for(auto& ep : ofds) if(ep.refs > 0 && ep.kind == OK_EPOLL) for(auto& it : ep.items) if(it.ofd == (int)oi) it.armed = true;
		}
	}
}
static void put_ofd(int oi)
{
	Ofd& o = ofds[oi];
	if(--o.refs > 0) return;
	if(o.kind == OK_FILE && o.inode >= 0) notify(o.inode, (o.flags & O_ACCMODE) == O_RDONLY ? IN_CLOSE_NOWRITE : IN_CLOSE_WRITE);
	if(o.kind == OK_INOTIFY) for(auto& n : inodes) { for(size_t i = 0; i < n.watches.size();) if(n.watches[i].first == oi) n.watches.erase(n.watches.begin() + i); else i++; for(size_t i = 0; i < n.dummy.size();) if(n.dummy[i].type == oi) n.dummy.erase(n.dummy.begin() + i); else i++; }
	if(o.kind == OK_INOTIFY) for(auto& ep : ofds) if(ep.kind == OK_EPOLL) for(size_t i = 0; i < ep.items.size();) if(ep.items[i].ofd == oi) ep.items.erase(ep.items.begin() + i); else i++;
	o.q.clear(); o.items.clear();
}
static void drop_locks(Proc* p, int ino) { auto& l = inodes[ino].locks; for(size_t i = 0; i < l.size();) if(l[i].first == p->idx) l.erase(l.begin() + i); else i++; }
static void close_fd(Proc* p, int fd)
{
	int oi = p->fd[fd]; p->fd[fd] = -1;
	if(ofds[oi].kind == OK_FILE) drop_locks(p, ofds[oi].inode);   // POSIX: any close drops the process's locks on the file
	put_ofd(oi);
}
int k_open(Proc* p, const char* path, int flags, int mode)
{
	std::string s = norm(path);
	auto it = paths.find(s); int ino;
	if(it == paths.end()) {
		if(!(flags & O_CREAT)) return -ENOENT;
		if(!parent_ok(s)) return -ENOENT;
		if(*path && path[strlen(path) - 1] == '/') return -EISDIR;
		if(!may(p, paths[s.substr(0, s.rfind('/') ? s.rfind('/') : 1)], 3)) { p->syserr_fired = true; return -EACCES; }
		int sp = new_space(s); if(sp >= MAXSPACE) return -ENOSPC;
		ino = mk_inode(IT_SPACE, sp); paths[s] = ino; inodes[ino].mode = mode & ~p->umask & 0777; inodes[ino].uid = p->uid; inodes[ino].creator = p->idx;
	} else {
		if((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		ino = it->second; if(inodes[ino].type == IT_DIR) return -EISDIR;
		int need = (flags & O_ACCMODE) == O_RDONLY ? 4 : (flags & O_ACCMODE) == O_WRONLY ? 2 : 6; if(inodes[ino].type == IT_SPACE && !may(p, ino, need)) { p->syserr_fired = true; return -EACCES; }
		if(flags & O_TRUNC) { Inode& n = inodes[ino]; n.size = 0; if(n.type == IT_SPACE) { memset(space_mem(n.space), 0, space_hw[n.space]); space_size[n.space] = 0; } }
	}
	int o = new_ofd(OK_FILE, ino, flags); int fd = new_fd(p, o); if(fd < 0) { ofds[o].refs = 0; return -EMFILE; }
	return fd;
}
void k_chdir(Proc* p, const char* d) { p->cwd = d; }
int k_close(Proc* p, int fd) { if(fd < 0 || fd >= MAXFD || p->fd[fd] < 0) return -EBADF; close_fd(p, fd); return 0; }
int k_dup(Proc* p, int fd) { if(fd < 0 || fd >= MAXFD || p->fd[fd] < 0) return -EBADF; int o = p->fd[fd]; int n = new_fd(p, o); if(n >= 0) ofds[o].refs++; return n; }
void fd_ident(Proc* p, int fd, u64* dev, u64* ino) { *dev = *ino = 0; if(fd >= 0 && fd < MAXFD && p->fd[fd] >= 0 && ofds[p->fd[fd]].kind == OK_FILE) { *dev = inodes[ofds[p->fd[fd]].inode].dev; *ino = inodes[ofds[p->fd[fd]].inode].ino; } }
bool proc_has_mapping(Proc* p, int space, u64 minlen) { for(int k = 0; k < NSLOT; k++) { Slot& s = slots[space][k]; if(s.used && (s.mask >> p->idx & 1) && s.len >= minlen) return true; } return false; }
int proc_space_mapped(Proc* p) { for(int s = 0; s < MAXSPACE; s++) if(proc_has_mapping(p, s, 512)) return s; return -1; }
static int maps_of(Proc* p) { int n = 0; for(auto& sp : slots) for(auto& s : sp) if(s.used && (s.mask >> p->idx & 1)) n++; return n; }
static int fds_of(Proc* p) { int n = 0; for(int i = 0; i < MAXFD; i++) if(p->fd[i] >= 0) n++; return n; }

//---------------------------------------------------------------- processes and threads
static bool tid_alive(Proc* p, int tid)
{
	if(p->st == PS_ZOMBIE) return tid == p->pid;
	if(p->st != PS_RUN) return false;
	if(tid == p->pid) return true;   // the leader stays visible (as a zombie) while the process lives
	for(int i = 0; i < nfibs; i++) if(fibs[i].proc == p && fibs[i].tid == tid && fibs[i].st != FS_DONE && fibs[i].st != FS_FREE) return true;
	return false;
}
static Proc* by_pid(int pid) { for(int i = 0; i < nprocs; i++) if(procs[i].pid == pid && procs[i].st != PS_NONE && procs[i].st != PS_GONE) return &procs[i]; return nullptr; }
static void set_thread(Fiber* f, int appthr, ThreadProg* tp)
{
	f->appthr = appthr; f->tp = tp;
	for(auto& x : P->faults) if(x.kind == F_KILLINIT && x.proc == f->proc->idx && appthr == 0) { f->kill_at = (u64)x.step; f->kill_reap = x.a; }
}
static void* proc_main(void*)
{
	Fiber* f = cur; f->inlib = true; f->proc->img->api.run_init(); f->inlib = false;
	return app_thread_main(nullptr);
}
Proc* proc_start(int idx, Proc* parent)
{
	Proc* p = &procs[idx]; p->idx = idx; p->pp = &P->procs[idx]; p->pid = nextpid++; if(krng.chance(1, 3)) nextpid += (int)krng.below(5);
	p->uid = p->pp->uid; p->st = PS_RUN; p->umask = 022; p->cwd = "/tmp"; if(P->flags & PF_PATHS) { static const mode_t um[] = {022, 0, 077, 0177}; p->umask = um[p->pp->mask & 3]; } p->umask0 = p->umask;
	for(int i = 0; i < MAXFD; i++) p->fd[i] = -1;
	if(parent) {
		Fiber* pf = cur;
		img_fork(parent, p); p->ppid = parent->pid; p->forked = true; p->parent_idx = parent->idx; p->uid = parent->uid;
		for(int i = 0; i < MAXFD; i++) if(parent->fd[i] >= 0) { p->fd[i] = parent->fd[i]; ofds[p->fd[i]].refs++; }
		for(auto& sp : slots) for(auto& s : sp) if(s.used && (s.mask >> parent->idx & 1)) { s.mask |= 1ull << p->idx; ofds[s.ofd].refs++; }
		p->atexit_ = parent->atexit_; p->atfork_child = parent->atfork_child; p->forkrun = parent->forkrun; p->atfork_parent = parent->atfork_parent; p->atfork_prepare = parent->atfork_prepare; p->env = parent->env; p->umask = parent->umask; p->umask0 = parent->umask0; p->cwd = parent->cwd;
		memcpy(p->keyused, parent->keyused, sizeof p->keyused); memcpy(p->keydtor, parent->keydtor, sizeof p->keydtor);
		p->curspace = parent->curspace; if(!parent->polled) p->forkslack = 2; // a descriptor the worker of the parent is just opening is inherited but not known
		Fiber* f = fiber_new(p, app_thread_main, nullptr); if(!f) return nullptr;
		f->tid = p->pid; memcpy(f->keys, pf->keys, sizeof f->keys); f->err = pf->err; f->tls = pf->tls;
		set_thread(f, 0, &p->pp->thr[0]); rs.forks++;
	} else {
		p->img = img_get(); if(!p->img) return nullptr; p->img->resident = p; p->ppid = 1; p->parent_idx = -1;
		static const char* rb[] = {"NO", "LOW", "HIGH"}; static const char* nm[] = {"ALLOW_NORETRY", "DENY_NORETRY", "ALLOW_RETRY", "DENY_RETRY"}; static const char* fu[] = {"NO", "FD", "OFFSET"};
		Caps c = caps_of(p->pp->caps); char b[64]; auto num = [&](int v) { sprintf(b, "%d", v); return std::string(b); };
		int ev = p->pp->env; auto odd = [&](const char* s) { std::string r = s; for(size_t i = 0; i < r.size(); i++) if((i + p->pid) % 3 && r[i] >= 'A' && r[i] <= 'Z') r[i] += 32; return r; };
		if(p->pp->robust >= 0 && (ev & 3) != 3) { int r = p->pp->robust, k = ev & 3; p->env["FLCKROBUSTMODE"] = k == 0 ? rb[r] : k == 1 ? odd(rb[r]) : r == 2 ? "MIDDLE" : rb[r]; }
		if((ev >> 2 & 3) != 3) { int r = p->pp->nomap, k = ev >> 2 & 3; p->env["FLCKNOMAPMODE"] = k == 0 ? nm[r] : k == 1 ? odd(nm[r]) : r == 0 ? (p->pid & 1 ? "ALLOW" : "PERHAPS") : r == 1 ? "deny" : nm[r]; }
		if((ev >> 4 & 3) != 3) { int r = p->pp->freeu, k = ev >> 4 & 3; p->env["FLCKFREEUNITMODE"] = k == 0 ? fu[r] : k == 1 ? odd(fu[r]) : r == 1 ? (p->pid & 1 ? "Always" : "SOMETIMES") : fu[r]; }
		if(!(ev >> 8 & 1)) p->env["FLCKROBUSTCHKCNT"] = num(p->pp->chkcnt);
		if(!p->pp->dirmode) { sprintf(b, "/tmp/fl/s%d", p->pp->space); p->env["FLCKDIRPATH"] = b; p->env["FLCKFILENAME"] = "fl.shm"; }
		else if(p->pp->dirmode >= 1000) { if(p->pp->dirmode / 100 % 10) p->env["FLCKDIRPATH"] = dir_spelling(p->pp->dirmode); if(p->pp->dirmode / 10 % 10) p->env["FLCKFILENAME"] = file_spelling(p->pp->dirmode); if(p->pp->mask / 8) { sprintf(b, "0%o", (unsigned)env_umask(p->pp->mask / 8)); p->env["FLCKUMASK"] = b; } }
		{ static const char* no[] = {"NO", "no", "No", "NO"}; static const char* yes[] = {nullptr, "YES", "yes", "perhaps"}; const char* w = p->pp->autoinit ? yes[ev >> 6 & 3] : no[ev >> 6 & 3]; if(w) p->env["FLCKAUTOINIT"] = w; }
		if(p->pp->caps != 9) { p->env["FLCKFILECNT"] = num(c.file); p->env["FLCKOFFETCNT"] = num(c.off); p->env["FLCKLOCKERCNT"] = num(c.locker); p->env["FLCKNMTXCNT"] = num(c.nmtx); p->env["FLCKNCONDCNT"] = num(c.ncond); p->env["FLCKWAITERCNT"] = num(c.waiter); }
		p->curspace = P->flags & PF_PATHS ? space_id(expected_path(p, -1)) : p->pp->space;
		Fiber* f = fiber_new(p, proc_main, nullptr); if(!f) return nullptr;
		f->tid = p->pid; set_thread(f, 0, &p->pp->thr[0]); rs.execs++;
	}
	harness_begin_process(p);
	tracef("-- process p%d pid %d starts%s", idx, p->pid, parent ? " (fork)" : "");
	return p;
}
static void release_resources(Proc* p)
{
	for(auto& sp : slots) for(auto& s : sp) if(s.used && (s.mask >> p->idx & 1)) { s.mask &= ~(1ull << p->idx); if(!s.mask) s.used = false; put_ofd(s.ofd); }
	for(int i = 0; i < MAXFD; i++) if(p->fd[i] >= 0) close_fd(p, i);
	for(auto& n : inodes) for(size_t i = 0; i < n.locks.size();) if(n.locks[i].first == p->idx) n.locks.erase(n.locks.begin() + i); else i++;
}
static void to_zombie(Proc* p, int reap)
{
	for(int i = 0; i < nfibs; i++) if(fibs[i].proc == p && fibs[i].st != FS_DONE) { fibs[i].st = FS_DONE; fibs[i].dead = true; harness_thread_gone(&fibs[i]); }
	release_resources(p);
	p->st = PS_ZOMBIE; p->img->users--; if(p->img->resident == p) p->img->resident = nullptr;
	// reap: 0 at once, otherwise after that many steps (or 100 us per step of simulated time at the latest)
	p->reap = reap; p->reap_step = g_totsteps + reap; p->reap_time = now_ns() + (u64)reap * 100000; if(reap > 0) rs.reap_delay++;
	if(reap <= 0) { p->st = PS_GONE; p->gone_time = now_ns(); tracef("-- p%d gone", p->idx); }
}
void proc_kill(Proc* p, int reap)
{
	if(p->st != PS_RUN) return;
	p->killed = true; harness_proc_dead(p, true); to_zombie(p, reap); hash_event(0x1111 + p->idx);
}
void kernel_tick()
{
	for(int i = 0; i < nprocs; i++) { Proc* p = &procs[i]; if(p->st == PS_ZOMBIE && (g_totsteps >= p->reap_step || now_ns() >= p->reap_time)) { p->st = PS_GONE; p->gone_time = now_ns(); tracef("-- p%d gone (reaped)", p->idx); } }
}
void proc_exit_normal()
{
	Fiber* f = cur; Proc* p = f->proc;
	if(p->exiting) { f->pv[0] = 0; block_until([](Fiber*) { return false; }); }
	p->exiting = true; tracef("exit()");
	while(!p->atexit_.empty()) { auto h = p->atexit_.back(); p->atexit_.pop_back(); f->inlib = true; h.first(h.second); f->inlib = false; }
	f->inlib = true; p->img->api.run_fini(); f->inlib = false;
	int th = 0; for(int i = 0; i < nfibs; i++) if(fibs[i].proc == p && fibs[i].st != FS_DONE && fibs[i].appthr < 0) th++;
	p->exited_normally = true; p->nexit_maps = maps_of(p); p->nexit_fds = fds_of(p);
	tracef("exit: fds %d maps %d workers %d", p->nexit_fds, p->nexit_maps, th);
	harness_proc_dead(p, false); rs.exits++;
	p->nthreads_created = th;
	to_zombie(p, (int)(krng.chance(1, 3) ? krng.below(400) : 0));
	hash_event(0x2222 + p->idx);
	fiber_gone();
}
static void proc_exit_fast()
{
	Proc* p = cur->proc; p->exiting = true; tracef("_exit()"); harness_proc_dead(p, false); rs.exits++; to_zombie(p, 0); fiber_gone();
}
Fiber* k_spawn_thread(Proc* p, int appthr)
{
	Fiber* f = fiber_new(p, app_thread_main, nullptr); if(!f) return nullptr;
	f->tid = nextpid++; set_thread(f, appthr, &p->pp->thr[appthr]); return f;
}
void thread_finished(Fiber* f)
{
	// TSD destructors
	for(int r = 0; r < 2; r++) for(int i = 0; i < NKEYS; i++) if(f->keys[i] && f->proc->keydtor[i]) { void* v = f->keys[i]; f->keys[i] = nullptr; f->inlib = true; f->proc->keydtor[i](v); f->inlib = false; }
	if(f->appthr == 0) { proc_exit_normal(); }
	harness_thread_gone(f);
}

//---------------------------------------------------------------- sim_* entry points
extern "C" {
int* sim___errno_location(void) { return &cur->err; }
int sim___cxa_atexit(void (*f)(void*), void* a, void*) { K k; cur->proc->atexit_.push_back({f, a}); return 0; }
int sim_atexit(void (*f)(void)) { K k; cur->proc->atexit_.push_back({(void (*)(void*))f, nullptr}); return 0; }
int sim___cxa_guard_acquire(u64* g)
{
	K k; step_yield();
	for(;;) { u8* b = (u8*)g; if(b[0]) return 0; if(!b[1]) { b[1] = 1; return 1; }
		cur->pv[0] = (u64)g; block_until([](Fiber* f) { if(f->proc->img->resident != f->proc) img_switch(f->proc); u8* b = (u8*)f->pv[0]; return b[0] || !b[1]; }); }
}
void sim___cxa_guard_release(u64* g) { K k; step_yield(); ((u8*)g)[0] = 1; ((u8*)g)[1] = 0; }
void sim___cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; }
int sim___cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int sim_clock_gettime(clockid_t c, struct timespec* ts)
{
	K k; step_yield(); clock_add(30 + krng.below(40)); int id = 17; int n = ++cur->proc->syscount[id];
	for(auto& f : P->faults) if(f.kind == F_SYSERR && f.proc == cur->proc->idx && f.op == id && n >= f.step && n < f.step + f.b && (!f.c || (f.c == 2) == (proc_space_mapped(cur->proc) >= 0))) { rs.faults_sys++; RET_ERR(f.a); }
	u64 t = now_ns(); if(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) t += 1700000000ull * 1000000000ull + (g_totsteps / 5000 % 3) * 7000000000ull; // the wall clock jumps about
	ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); return 0;
}
time_t sim_time(time_t* t) { timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); if(t) *t = ts.tv_sec; return ts.tv_sec; }
int sim_gettimeofday(struct timeval* tv, void*) { timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
i64 sim_chrono_steady(void) { timespec ts; sim_clock_gettime(CLOCK_MONOTONIC, &ts); return (i64)ts.tv_sec * 1000000000ll + ts.tv_nsec; }
i64 sim_chrono_system(void) { timespec ts; sim_clock_gettime(CLOCK_REALTIME, &ts); return (i64)ts.tv_sec * 1000000000ll + ts.tv_nsec; }
int sim_sched_yield(void) { K k; step_yield(); clock_add(P->yq); rs.yields++; quantum_end_hint(); return 0; }
int sim_pthread_yield(void) { return sim_sched_yield(); }
static int do_sleep(u64 ns)
{
	testcancel(); Fiber* f = cur; f->wake = now_ns() + ns + krng.below(60000); f->pred = nullptr;
	f->timedout = false;
	block_until_timeout([](Fiber* x) { return x->cancelled && !x->cdis && !x->exiting; }, ns + krng.below(60000));
	testcancel(); return 0;
}
int sim_nanosleep(const struct timespec* rq, struct timespec* rm) { SYS("nanosleep"); if(rm) rm->tv_sec = rm->tv_nsec = 0; if(fault_) RET_ERR(fe_); u64 t = (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec; if(interrupted(18)) { u64 d = t ? krng.below(t) : 0; do_sleep(d); if(rm) { rm->tv_sec = (time_t)((t - d) / 1000000000ull); rm->tv_nsec = (long)((t - d) % 1000000000ull); } RET_ERR(EINTR); } return do_sleep(t); }
int sim_clock_nanosleep(clockid_t, int fl, const struct timespec* rq, struct timespec*) { SYS("nanosleep"); u64 t = (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec; if(fl & TIMER_ABSTIME) t = t > now_ns() ? t - now_ns() : 0; return do_sleep(t); }
int sim_usleep(useconds_t u) { SYS("nanosleep"); return do_sleep((u64)u * 1000); }
unsigned sim_sleep(unsigned s) { SYS("nanosleep"); do_sleep((u64)s * 1000000000ull); return 0; }
int sim_open(const char* path, int flags, ...)
{
	va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
	SYS("open"); testcancel(); if(fault_) RET_ERR(fe_);
	int r = k_open(cur->proc, path, flags, mode); tracef("open(%s,%x) = %d", path, flags, r); if(r < 0) RET_ERR(-r); return r;
}
int sim_close(int fd) { SYS("close"); testcancel(); tracef("close(%d)", fd); int r = k_close(cur->proc, fd); if(fault_) RET_ERR(fe_); if(r < 0) RET_ERR(-r); return 0; }
static Ofd* gfd(int fd) { if(fd < 0 || fd >= MAXFD || cur->proc->fd[fd] < 0) return nullptr; return &ofds[cur->proc->fd[fd]]; }
ssize_t sim_read(int fd, void* buf, size_t n)
{
	SYS("read"); testcancel(); Ofd* o = gfd(fd); if(!o) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	if(o->kind == OK_INOTIFY) {
		if(o->q.empty()) RET_ERR(EAGAIN);
		if(n < sizeof(inotify_event)) RET_ERR(EINVAL);
		size_t c = 0; while(!o->q.empty() && (c + 1) * sizeof(inotify_event) <= n) { inotify_event e; memset(&e, 0, sizeof e); e.wd = o->q[0].wd; e.mask = o->q[0].mask; memcpy((char*)buf + c * sizeof e, &e, sizeof e); o->q.erase(o->q.begin()); c++; }
		return (ssize_t)(c * sizeof(inotify_event));
	}
	if(o->kind != OK_FILE) RET_ERR(EINVAL);
	Inode& in = inodes[o->inode]; if((u64)o->pos >= in.size) return 0; if(o->pos + n > in.size) n = in.size - o->pos;
	if(in.type == IT_SPACE) memcpy(buf, space_mem(in.space) + o->pos, n); else memset(buf, 0, n); o->pos += n; return (ssize_t)n;
}
static void grow(Inode& in, u64 sz) { if(sz > in.size) { in.size = sz; if(in.type == IT_SPACE) { space_size[in.space] = sz; if(sz > space_hw[in.space]) space_hw[in.space] = sz; } } }
ssize_t sim_pwrite(int fd, const void* buf, size_t n, off_t off)
{
	SYS("pwrite"); testcancel(); Ofd* o = gfd(fd); if(!o || o->kind != OK_FILE) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	Inode& in = inodes[o->inode]; if(off < 0 || off + n > SLOTSZ) RET_ERR(EFBIG);
	if(n > 1 && krng.chance(1, 40)) { n = 1 + krng.below(n - 1); }   // short write
	grow(in, off + n); if(in.type == IT_SPACE) memcpy(space_mem(in.space) + off, buf, n);
	return (ssize_t)n;
}
ssize_t sim_write(int fd, const void* buf, size_t n) { Ofd* o = gfd(fd); if(!o) { if(fd == 1 || fd == 2) return (ssize_t)n; RET_ERR(EBADF); } ssize_t r = sim_pwrite(fd, buf, n, o->pos); if(r > 0) o->pos += r; return r; }
ssize_t sim_pread(int fd, void* buf, size_t n, off_t off)
{
	SYS("pread"); testcancel(); Ofd* o = gfd(fd); if(!o || o->kind != OK_FILE) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	Inode& in = inodes[o->inode]; if((u64)off >= in.size) return 0; if(off + n > in.size) n = in.size - off;
	if(in.type == IT_SPACE) memcpy(buf, space_mem(in.space) + off, n); else memset(buf, 0, n); return (ssize_t)n;
}
off_t sim_lseek(int fd, off_t off, int w) { SYS("lseek"); Ofd* o = gfd(fd); if(!o || o->kind != OK_FILE) RET_ERR(EBADF); o->pos = w == SEEK_SET ? off : w == SEEK_CUR ? o->pos + off : (off_t)inodes[o->inode].size + off; return o->pos; }
int sim_ftruncate(int fd, off_t len)
{
	SYS("ftruncate"); Ofd* o = gfd(fd); if(!o || o->kind != OK_FILE) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	Inode& in = inodes[o->inode]; tracef("ftruncate(%d,%lld)", fd, (long long)len); if(len < 0 || (u64)len > SLOTSZ) RET_ERR(EFBIG);
	if(in.type == IT_SPACE) { char* m = space_mem(in.space); u64 hw = space_hw[in.space]; if((u64)len < hw) memset(m + len, 0, hw - len); space_size[in.space] = len; if(len == 0) { g_gen[in.space]++; harness_reinit(in.space); } if((u64)len > hw) space_hw[in.space] = len; }
	in.size = len; return 0;
}
int sim_fsync(int) { SYS("fsync"); return 0; }
static void fill_stat(struct stat* st, int ino) { Inode& n = inodes[ino]; memset(st, 0, sizeof *st); st->st_dev = n.dev; st->st_ino = n.ino; st->st_size = (off_t)n.size; st->st_mode = n.type == IT_DIR ? (S_IFDIR | n.mode) : (S_IFREG | n.mode); st->st_nlink = 1; }
int sim_fstat(int fd, struct stat* st) { SYS("fstat"); Ofd* o = gfd(fd); if(!o) RET_ERR(EBADF); if(fault_) RET_ERR(fe_); if(o->kind == OK_FILE) fill_stat(st, o->inode); else memset(st, 0, sizeof *st); return 0; }
static int proc_stat(const char* path, struct stat* st)
{
	int pid, x, n = 0; std::string s = norm(path);
	if(!strncmp(s.c_str(), "/proc/self", 10)) { char b[32]; sprintf(b, "/proc/%d", cur->proc->pid); s = b + s.substr(10); }
	memset(st, 0, sizeof *st); st->st_dev = 5; st->st_ino = 12345; st->st_mode = S_IFDIR | 0555;
	if(sscanf(s.c_str(), "/proc/%d%n", &pid, &n) < 1) return ENOENT;
	Proc* p = by_pid(pid); const char* rest = s.c_str() + n;
	if(!p) { // a bare thread id is visible too
		if(!*rest) for(int i = 0; i < nprocs; i++) if((procs[i].st == PS_RUN || procs[i].st == PS_ZOMBIE) && tid_alive(&procs[i], pid)) return 0;
		return ENOENT;
	}
	if(!*rest) return 0;
	if(sscanf(rest, "/task/%d%n", &x, &n) == 1 && !rest[n]) return tid_alive(p, x) ? 0 : ENOENT;
	if(!strcmp(rest, "/task") || !strcmp(rest, "/fd")) return 0;
	int fd; n = 0;
	if(sscanf(rest, "/task/%d/fd/%d%n", &x, &fd, &n) == 2 && n && !rest[n]) { if(!tid_alive(p, x)) return ENOENT; }
	else if(sscanf(rest, "/fd/%d%n", &fd, &n) == 1 && !rest[n]) {}
	else if(!strcmp(rest, "/stat") || !strcmp(rest, "/status")) { st->st_mode = S_IFREG | 0444; return 0; }
	else return ENOENT;
	if(cur->proc->uid != 0 && cur->proc->uid != p->uid) return EACCES;
	if(p->st != PS_RUN) return ENOENT;
	if(fd < 0 || fd >= MAXFD || p->fd[fd] < 0) return ENOENT;
	Ofd& o = ofds[p->fd[fd]]; if(o.kind == OK_FILE) fill_stat(st, o.inode); return 0;
}
static int stat_common(const char* path, struct stat* st)
{
	if(!strncmp(path, "/proc/", 6)) { int e = proc_stat(path, st); if(e) RET_ERR(e); return 0; }
	auto it = paths.find(norm(path)); if(it == paths.end()) RET_ERR(ENOENT); fill_stat(st, it->second); return 0;
}
int sim_stat(const char* path, struct stat* st) { SYS("stat"); if(fault_) RET_ERR(fe_); return stat_common(path, st); }
int sim_lstat(const char* path, struct stat* st) { SYS("stat"); if(fault_) RET_ERR(fe_); return stat_common(path, st); }
int sim_access(const char* path, int) { SYS("stat"); if(fault_) RET_ERR(fe_); struct stat st; return stat_common(path, &st); }
int sim_mkdir(const char* path, mode_t mode)
{
	SYS("mkdir"); if(fault_) RET_ERR(fe_); std::string s = norm(path); if(paths.count(s)) RET_ERR(EEXIST); if(!parent_ok(s)) RET_ERR(ENOENT);
	if(!may(cur->proc, paths[s.substr(0, s.rfind('/') ? s.rfind('/') : 1)], 3)) { cur->proc->syserr_fired = true; RET_ERR(EACCES); }
	int i = mk_inode(IT_DIR); paths[s] = i; inodes[i].mode = mode & ~cur->proc->umask & 0777; inodes[i].uid = cur->proc->uid; inodes[i].creator = cur->proc->idx; tracef("mkdir(%s)", path); return 0;
}
int sim_unlink(const char* path) { SYS("unlink"); std::string s = norm(path); if(!paths.count(s)) RET_ERR(ENOENT); paths.erase(s); return 0; }
mode_t sim_umask(mode_t m) { K k; mode_t o = cur->proc->umask; cur->proc->umask = m; return o; }
char* sim_getenv(const char* n) { K k; auto& e = cur->proc->env; auto it = e.find(n); return it == e.end() ? nullptr : (char*)it->second.c_str(); }
char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
extern char* sim_strdup(const char*); extern void* sim_malloc(size_t); extern void sim_free(void*);
char* sim_get_current_dir_name(void) { { SYS("getcwd"); if(fault_) { cur->err = fe_; return nullptr; } } return sim_strdup(cur->proc->cwd.c_str()); }
char* sim_getcwd(char* b, size_t n) { { SYS("getcwd"); if(fault_) { cur->err = fe_; return nullptr; } } if(!b) return sim_strdup(cur->proc->cwd.c_str()); if(cur->proc->cwd.size() >= n) { cur->err = ERANGE; return nullptr; } snprintf(b, n, "%s", cur->proc->cwd.c_str()); return b; }
char* sim_realpath(const char* p, char* out) { std::string s; { K k; s = norm(p); if(!paths.count(s)) { cur->err = ENOENT; return nullptr; } } if(!out) return sim_strdup(s.c_str()); strcpy(out, s.c_str()); return out; }
pid_t sim_getpid(void) { return cur->proc->pid; }
pid_t sim_getppid(void) { return cur->proc->ppid; }
uid_t sim_getuid(void) { return cur->proc->uid; }
uid_t sim_geteuid(void) { return cur->proc->uid; }
pid_t sim_gettid(void) { return cur->tid; }
int sim_kill(pid_t pid, int sig)
{
	SYS("kill"); Proc* p = by_pid(pid); if(!p) RET_ERR(ESRCH); if(cur->proc->uid && cur->proc->uid != p->uid) RET_ERR(EPERM); if(sig == SIGKILL) { proc_kill(p, 0); } return 0;
}
static int do_tgkill(int pid, int tid) { Proc* p = by_pid(pid); if(!p || !tid_alive(p, tid)) RET_ERR(ESRCH); if(cur->proc->uid && cur->proc->uid != p->uid) RET_ERR(EPERM); return 0; }
long sim_syscall(long n, ...)
{
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long); va_end(ap); K k;
	if(n == SYS_gettid) return cur->tid; if(n == SYS_getpid) return cur->proc->pid;
	if(n == SYS_tgkill) { step_yield(); return do_tgkill((int)a, (int)b); }
	if(n == SYS_sched_yield) return sim_sched_yield();
	cur->err = ENOSYS; return -1;
}
long sim_sysconf(int n) { return sysconf(n) > 0 && (n == _SC_PAGE_SIZE) ? 4096 : sysconf(n); }
int sim_getpagesize(void) { return 4096; }
static bool lock_conflict(Inode& in, int pi, int type, off_t s, off_t e) { for(auto& l : in.locks) if(l.first != pi && l.second.s < e && s < l.second.e && (type == F_WRLCK || l.second.type == F_WRLCK)) return true; return false; }
int sim_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
	SYS("fcntl"); Ofd* o = gfd(fd); if(!o) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	if(cmd == F_SETLKW) testcancel();
	if(cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK) {
		struct flock* fl = (struct flock*)arg; off_t s = fl->l_start, e = fl->l_len ? s + fl->l_len : (off_t)1 << 40; int pi = cur->proc->idx; int ino = o->inode;
		if(o->kind != OK_FILE) RET_ERR(EINVAL);
		if(fl->l_type != F_UNLCK) {
			while(lock_conflict(inodes[ino], pi, fl->l_type, s, e)) {
				if(cmd == F_GETLK) { for(auto& l : inodes[ino].locks) if(l.first != pi && l.second.s < e && s < l.second.e && (fl->l_type == F_WRLCK || l.second.type == F_WRLCK)) { fl->l_type = (short)l.second.type; fl->l_pid = procs[l.first].pid; return 0; } }
				if(cmd == F_SETLK) { tracef("fcntl(%d,%d) EAGAIN", fd, fl->l_type); RET_ERR(EAGAIN); }
				cur->pv[0] = ino; cur->pv[1] = fl->l_type; cur->pv[2] = s; cur->pv[3] = e;
				block_until([](Fiber* f) { return !lock_conflict(inodes[f->pv[0]], f->proc->idx, (int)f->pv[1], (off_t)f->pv[2], (off_t)f->pv[3]); });
			}
			if(cmd == F_GETLK) { fl->l_type = F_UNLCK; return 0; }
		}
		auto& L = inodes[ino].locks; std::vector<std::pair<int, LockR>> add;
		for(size_t i = 0; i < L.size();) { if(L[i].first == pi && L[i].second.s < e && s < L[i].second.e) { auto l = L[i]; L.erase(L.begin() + i); if(l.second.s < s) { auto x = l; x.second.e = s; add.push_back(x); } if(l.second.e > e) { auto x = l; x.second.s = e; add.push_back(x); } } else i++; }
		for(auto& a : add) L.push_back(a);
		if(fl->l_type != F_UNLCK) L.push_back({pi, LockR{fl->l_type, s, e}});
		tracef("fcntl(%d,lock %d) ok", fd, fl->l_type); return 0;
	}
	if(cmd == F_GETFD || cmd == F_GETFL) return 0;
	return 0;
}
int sim_flock(int, int) { SYS("flock"); return 0; }
void* sim_mmap(void*, size_t len, int, int, int fd, off_t off)
{
	SYS("mmap"); Ofd* o = gfd(fd); auto bad = [&](int e) { cur->err = e; return MAP_FAILED; };
	if(fault_) return bad(fe_); if(!o || o->kind != OK_FILE) return bad(EBADF); if(!len) return bad(EINVAL);
	Inode& in = inodes[o->inode]; if(in.type != IT_SPACE || off) return bad(EINVAL); if(len > SLOTSZ) return bad(ENOMEM);
	int start = (int)krng.below(NSLOT);
	for(int i = 0; i < NSLOT; i++) { int k = (start + i) % NSLOT; Slot& s = slots[in.space][k]; if(s.used) continue;
		s.used = true; s.len = len; s.mask = 1ull << cur->proc->idx; s.ofd = cur->proc->fd[fd]; ofds[s.ofd].refs++;
		tracef("mmap(fd %d, %zu) -> slot %d", fd, len, k); return (void*)(SHBASE + ((u64)in.space * NSLOT + k) * SLOTSZ); }
	return bad(ENOMEM);
}
int sim_munmap(void* a, size_t len)
{
	SYS("munmap"); u64 x = (u64)a - SHBASE; if(x >= SHSIZE || x % SLOTSZ) RET_ERR(EINVAL); (void)len;
	if(fault_) RET_ERR(fe_);
	Slot& s = slots[x / SLOTSZ / NSLOT][x / SLOTSZ % NSLOT]; if(!s.used || !(s.mask >> cur->proc->idx & 1)) return 0;
	if(((len + 4095) & ~4095ull) < ((s.len + 4095) & ~4095ull)) { return 0; } // partial unmap: the rest stays mapped (a leak)
	s.mask &= ~(1ull << cur->proc->idx); int o = s.ofd; if(!s.mask) s.used = false; put_ofd(o); tracef("munmap"); return 0;
}
int sim_msync(void*, size_t, int) { SYS("msync"); return 0; }
int sim_epoll_create1(int) { SYS("epoll_create1"); if(fault_) RET_ERR(fe_); int o = new_ofd(OK_EPOLL, -1, 0); int fd = new_fd(cur->proc, o); if(fd < 0) { ofds[o].refs = 0; RET_ERR(EMFILE); } return fd; }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_inotify_init1(int) { SYS("inotify_init1"); if(fault_) RET_ERR(fe_); int o = new_ofd(OK_INOTIFY, -1, 0); int fd = new_fd(cur->proc, o); if(fd < 0) { ofds[o].refs = 0; RET_ERR(EMFILE); } return fd; }
int sim_inotify_init(void) { return sim_inotify_init1(0); }
int sim_inotify_add_watch(int fd, const char* path, u32 mask)
{
	SYS("inotify_add_watch"); Ofd* o = gfd(fd); if(!o || o->kind != OK_INOTIFY) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	auto it = paths.find(norm(path)); if(it == paths.end()) RET_ERR(ENOENT); int oi = cur->proc->fd[fd]; int wd = ++o->nextwd;
	inodes[it->second].watches.push_back({oi, wd}); inodes[it->second].dummy.push_back(LockR{oi, wd, (off_t)mask}); return wd;
}
int sim_inotify_rm_watch(int fd, int wd)
{
	SYS("inotify_rm_watch"); Ofd* o = gfd(fd); if(!o || o->kind != OK_INOTIFY) RET_ERR(EBADF); int oi = cur->proc->fd[fd]; bool f = false;
	for(auto& n : inodes) { for(size_t i = 0; i < n.watches.size();) if(n.watches[i].first == oi && n.watches[i].second == wd) { n.watches.erase(n.watches.begin() + i); f = true; } else i++; for(size_t i = 0; i < n.dummy.size();) if(n.dummy[i].type == oi && n.dummy[i].s == wd) n.dummy.erase(n.dummy.begin() + i); else i++; }
	if(!f) RET_ERR(EINVAL); o->q.push_back({wd, IN_IGNORED}); return 0;
}
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
	SYS("epoll_ctl"); Ofd* e = gfd(ep); Ofd* o = gfd(fd); if(!e || e->kind != OK_EPOLL || !o) RET_ERR(EBADF); if(fault_) RET_ERR(fe_); int oi = cur->proc->fd[fd];
	for(size_t i = 0; i < e->items.size(); i++) if(e->items[i].ofd == oi && e->items[i].fd == fd) { if(op == EPOLL_CTL_ADD) RET_ERR(EEXIST); if(op == EPOLL_CTL_DEL) { e->items.erase(e->items.begin() + i); return 0; } e->items[i].ev = *ev; e->items[i].armed = !o->q.empty(); return 0; }
	if(op != EPOLL_CTL_ADD) RET_ERR(ENOENT); e->items.push_back(EpItem{fd, oi, *ev, !o->q.empty()}); return 0;
}
static bool ep_ready(int oi) { for(auto& it : ofds[oi].items) { bool has = ofds[it.ofd].refs > 0 && !ofds[it.ofd].q.empty(); if((it.ev.events & EPOLLET) ? it.armed && has : has) return true; } return false; }
int sim_epoll_pwait(int ep, struct epoll_event* evs, int max, int timeout, const sigset_t*)
{
	SYS("epoll_pwait"); testcancel(); if(cur->proc) cur->proc->polled = true; Ofd* e = gfd(ep); if(!e || e->kind != OK_EPOLL) RET_ERR(EBADF); if(fault_) RET_ERR(fe_);
	cur->pv[0] = cur->proc->fd[ep];
	auto pr = [](Fiber* f) { return ep_ready((int)f->pv[0]) || (f->cancelled && !f->cdis && !f->exiting); };
	if(interrupted(19)) { if(timeout) block_until_timeout(pr, krng.below(timeout < 0 ? 100000000ull : (u64)timeout * 1000000ull + 1)); testcancel(); RET_ERR(EINTR); }
	if(timeout) { if(timeout < 0) block_until(pr); else block_until_timeout(pr, (u64)timeout * 1000000ull + krng.below(100000)); }
	testcancel(); e = gfd(ep); if(!e || e->kind != OK_EPOLL) return 0;
	int n = 0; for(auto& it : e->items) { bool has = ofds[it.ofd].refs > 0 && !ofds[it.ofd].q.empty(); bool rdy = (it.ev.events & EPOLLET) ? it.armed && has : has; if(rdy && n < max) { it.armed = false; evs[n] = it.ev; evs[n].events = EPOLLIN; n++; } }
	return n;
}
int sim_epoll_wait(int ep, struct epoll_event* evs, int max, int timeout) { return sim_epoll_pwait(ep, evs, max, timeout, nullptr); }
int sim_poll(struct pollfd* fds, nfds_t n, int timeout)
{
	SYS("epoll_pwait"); testcancel(); if(n < 1) return do_sleep((u64)timeout * 1000000ull); int fd = fds[0].fd; if(!gfd(fd)) { fds[0].revents = POLLNVAL; return 1; }
	cur->pv[0] = cur->proc->fd[fd]; auto pr = [](Fiber* f) { return !ofds[f->pv[0]].q.empty() || (f->cancelled && !f->cdis && !f->exiting); };
	if(timeout < 0) block_until(pr); else block_until_timeout(pr, (u64)timeout * 1000000ull);
	testcancel(); fds[0].revents = gfd(fd) && !gfd(fd)->q.empty() ? POLLIN : 0; return fds[0].revents ? 1 : 0;
}
// stdio: output of the library goes nowhere
FILE* sim_fopen(const char*, const char*) { return (FILE*)sim_malloc(64); }
int sim_fclose(FILE* f) { if(f) sim_free(f); return 0; }
int sim_fprintf(FILE*, const char*, ...) { return 0; }
int sim_vfprintf(FILE*, const char*, va_list) { return 0; }
int sim_printf(const char*, ...) { return 0; }
int sim_fflush(FILE*) { return 0; }
int sim_fputs(const char*, FILE*) { return 0; }
int sim_fputc(int c, FILE*) { return c; }
size_t sim_fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int sim_puts(const char*) { return 0; }
void sim__Exit(int) { proc_exit_fast(); for(;;); }
void sim__exit(int) { proc_exit_fast(); for(;;); }
void sim_exit(int) { proc_exit_normal(); for(;;); }
void sim_abort(void) { fail("abort", "the library aborted process %d", cur->proc->idx); for(;;); }
void sim___assert_fail(const char* e, const char*, unsigned, const char*) { fail("abort", "assertion %s failed in process %d", e, cur->proc->idx); for(;;); }

//---------------------------------------------------------------- pthreads
struct LibThr { void* (*fn)(void*); void* arg; };
static void* lib_thread_main(void* a) { Fiber* f = cur; (void)a; f->inlib = true; void* r = ((void* (*)(void*))f->pv[2])((void*)f->pv[3]); return r; }
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
	SYS("pthread_create"); if(fault_) return fe_; cur->proc->polled = false;
	Fiber* f = fiber_new(cur->proc, lib_thread_main, nullptr); if(!f) return EAGAIN;
	f->pv[2] = (u64)fn; f->pv[3] = (u64)arg; f->tid = nextpid++; f->cdis = false; *t = (pthread_t)(f->idx + 1);
	for(auto& x : P->faults) if(x.kind == F_KILLW && x.proc == cur->proc->idx) { f->kill_at = x.step; f->kill_reap = x.a; }
	for(auto& x : P->faults) if(x.kind == F_STALL && x.thr < 0 && x.proc == cur->proc->idx) { f->stall_at = x.step; f->stall_len = x.a; }
	// the started function's stack frame argument registers live in pv until it starts
	return 0;
}
static Fiber* thr(pthread_t t) { u64 i = (u64)t; if(i < 1 || i > (u64)nfibs) return nullptr; Fiber* f = &fibs[i - 1]; return f->proc == cur->proc ? f : nullptr; }
pthread_t sim_pthread_self(void) { return (pthread_t)(cur->idx + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_detach(pthread_t t) { K k; Fiber* f = thr(t); if(!f) return ESRCH; f->detached = true; return 0; }
int sim_pthread_cancel(pthread_t t) { K k; step_yield(); Fiber* f = thr(t); if(!f) return ESRCH; if(f->st == FS_DONE) return f->joined ? ESRCH : 0; f->cancelled = true; tracef("pthread_cancel"); return 0; }
int sim_pthread_kill(pthread_t t, int) { K k; Fiber* f = thr(t); return !f || f->st == FS_DONE ? ESRCH : 0; }
int sim_pthread_tryjoin_np(pthread_t t, void** r) { K k; step_yield(); clock_add(200); Fiber* f = thr(t); if(!f || f->joined) return ESRCH; if(f->st != FS_DONE) return EBUSY; f->joined = true; if(r) *r = f->ret; return 0; }
int sim_pthread_join(pthread_t t, void** r) { K k; step_yield(); testcancel(); Fiber* f = thr(t); if(!f || f->joined) return ESRCH; if(f == cur) return EDEADLK; cur->pv[0] = f->idx; block_until([](Fiber* x) { return fibs[x->pv[0]].st == FS_DONE; }); f->joined = true; if(r) *r = f->ret; return 0; }
int sim_pthread_timedjoin_np(pthread_t t, void** r, const struct timespec*) { return sim_pthread_tryjoin_np(t, r) == EBUSY ? ETIMEDOUT : 0; }
void sim_pthread_exit(void* r) { thread_exit(r); }
int sim_pthread_setcancelstate(int s, int* o) { if(o) *o = cur->cdis ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; cur->cdis = s == PTHREAD_CANCEL_DISABLE; return 0; }
int sim_pthread_setcanceltype(int, int* o) { if(o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
void sim_pthread_testcancel(void) { step_yield(); testcancel(); }
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { Proc* p = cur->proc; step_yield(); for(int i = 0; i < NKEYS; i++) if(!p->keyused[i]) { p->keyused[i] = true; p->keydtor[i] = d; for(int j = 0; j < nfibs; j++) if(fibs[j].proc == p) fibs[j].keys[i] = nullptr; *k = i; return 0; } return EAGAIN; }
int sim_pthread_key_delete(pthread_key_t k) { if(k >= NKEYS) return EINVAL; cur->proc->keyused[k] = false; cur->proc->keydtor[k] = nullptr; return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { return k < NKEYS ? cur->keys[k] : nullptr; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { if(k >= NKEYS) return EINVAL; cur->keys[k] = (void*)v; return 0; }
int sim_pthread_once(pthread_once_t* o, void (*f)(void)) { if(!*o) { *o = 1; f(); } return 0; }
int sim_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { K k; Proc* p = cur->proc; if(a) p->atfork_prepare.push_back(a); if(b) p->atfork_parent.push_back(b); if(c) p->atfork_child.push_back(c); return 0; }
int sim___register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void*) { return sim_pthread_atfork(a, b, c); }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m)
{
	K k; step_yield(); int* w = (int*)m;
	while(*w) { cur->pv[0] = (u64)w; block_until([](Fiber* f) { if(f->proc->img->resident != f->proc) img_switch(f->proc); return *(int*)f->pv[0] == 0; }); }
	*w = 1; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { K k; step_yield(); int* w = (int*)m; if(*w) return EBUSY; *w = 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { K k; step_yield(); *(int*)m = 0; return 0; }
}
int k_maps(Proc* p) { return maps_of(p); }
