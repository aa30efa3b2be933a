// Executes program operations against the library under test and judges every result (oracles at the API boundary).
#include "sim.h"
#include <functional>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>

const char* opnames[OP_MAX] = {
	"NOP", "INIT", "MLOCK", "MTRY", "MTIMED", "MUNLOCK",
	"RD", "RDTRY", "RDTIMED", "WR", "WRTRY", "WRTIMED", "RWUNLOCK", "ISLOCKED",
	"OPEN", "CLOSE", "CWAIT", "CTIMED", "CSIG", "CBC",
	"CS", "SLEEP", "TEXIT", "PEXIT", "SPAWN", "FORK", "REINIT", "SETMODE",
	"RCSVNEW", "RCSVLOCK", "RCSVUNLOCK", "RCSVDEL",
	"BARRIER", "SETFLAG", "WAITFLAG", "WAITALL", "WAITGONE", "JOINALL", "QUIESCE", "FLUSH", "KILLP", "STARTP", "CHECKEND", "RELALL", "DUP", "CHDIR", "BADCALL"
};
Caps caps_of(int p)
{
	if(p >= 10000) { Caps e = caps_of(p / 10000 - 1), g = caps_of(p % 10000 - 100 & 15); int m = (p % 10000 - 100) / 16; return Caps{m & 1 ? g.file : e.file, m & 2 ? g.off : e.off, m & 4 ? g.locker : e.locker, m & 8 ? g.nmtx : e.nmtx, m & 16 ? g.ncond : e.ncond, m & 32 ? g.waiter : e.waiter}; }
	switch(p) {
	default: case 0: return Caps{8, 16, 32, 16, 8, 16};
	case 1: return Caps{2, 4, 4, 2, 2, 4};
	case 2: return Caps{1, 4, 8, 3, 1, 4};
	case 3: return Caps{3, 6, 5, 1, 2, 5};
	case 4: return Caps{16, 64, 64, 32, 16, 32};
	case 5: return Caps{4, 5, 4, 4, 3, 4};
	case 9: return Caps{128, 8192, 8192, 256, 256, 8192}; // no environment variable at all
	}
}
// Counts given to a re-initialisation: -1 none, 0..5 all of a profile, 100 + mask * 16 + profile only some; the others come from the environment.
static int capcode(int env, int cp) { return cp < 0 ? env : cp < 100 ? cp : 10000 * (env + 1) + cp; }
std::string name_of(int i)
{
	// names that share long prefixes, have the maximum length, or differ only in length
	switch(i) {
	case 0: return "m";
	case 1: return std::string(62, 'a') + "x";
	case 2: return std::string(62, 'a') + "y";
	case 3: return std::string(62, 'a');
	case 4: return "mm";
	case 5: return "lock-\xc3\xa4\xff\x01";
	default: { char b[32]; snprintf(b, sizeof b, "name%d", i); return b; }
	}
}

//---------------------------------------------------------------- model state
struct RKey { int space; int nofd; u64 dev, ino; };          // nofd: ino = number
struct Range { i64 off; u64 len; };
// an empty range is its first byte, one that goes past every offset ends there
typedef __int128 i128;
static i128 range_end(const Range& a) { return (i128)a.off + (a.len ? a.len : 1); }
static bool range_ov(const Range& a, const Range& b) { return a.off < range_end(b) && b.off < range_end(a); }
// where the ranges of the program lie in the file (bits 9-11 of flags): moved or stretched as a whole, which keeps what overlaps what
static i64 geo_off(int o) { static const i64 add[] = {0, (1ll << 31) - 50, (1ll << 32) - 150, 0, 1ll << 62, 0x7fffffffffffffffll - (1 << 22), 0, 0}; int g = (P->flags >> 9) & 7; return g == 3 ? (i64)o << 33 : g == 6 ? (i64)o << 40 : (i64)o + add[g]; }
static u64 geo_len(int l) { int g = (P->flags >> 9) & 7; return l < 0 ? (l == -1 ? ~0ull : l == -2 ? 0x7fffffffffffffffull : 0x8000000000000000ull) : g == 3 ? (u64)l << 33 : g == 6 ? (u64)l << 40 : (u64)l; }
static bool key_def(const RKey& a, const RKey& b) { return a.space == b.space && a.nofd == b.nofd && a.dev == b.dev && a.ino == b.ino; }
static bool key_may(const RKey& a, const RKey& b) { return a.space == b.space && a.nofd == b.nofd && (a.nofd || (a.dev == b.dev && a.ino == b.ino)); }
struct Hold { u64 id; int uid, proc, fd; RKey key; Range r; bool wr; u64 acq_ev; int act; bool suspended; bool derived;  bool stk = false; };
struct Act { int uid, proc, fd; RKey key; Range r; bool wr; u64 s, e; bool dead; bool used; };
struct MAct { bool active = false, dead = false; u64 s = 0, e = 0; };
struct MM { int owner = -1; int cnt = 0; u64 owner_ev = 0; bool known = false; std::map<int, MAct> acts; };
struct Waiter { int uid, proc; int space, c, m; u64 inv, cert, ret; bool live, success, dead; u64 dead_ev, gone_ev; u64 deadline; bool timed; u64 t0; u64 must_ev; bool freed = false, clean = false, bad = false; };
struct Sig { int space, c; bool bc; u64 inv, ret; u64 tinv, tret; int uid; };
struct Rcsv { void* p; int fdref; int fd; RKey key; Range r; bool locked; bool wr; bool maybe; int last = -1; };
struct TS {
	bool inop; int kind; u64 inv, t0, own0, own_free; int wtype; std::string mkey; int mspace, mname; RKey key; Range r; bool wr; int act; int waiter; bool att0; int stage;
	Rcsv ob[8]; bool unsure; u64 wait_steps; bool inwaitall;
};
static struct {
	u64 ev; std::map<std::pair<int,int>, MM> mtx; std::vector<Hold> holds; std::vector<Act> acts; std::vector<Waiter> waits; std::vector<Sig> sigs; std::map<std::pair<int,int>, bool> condknown;
	u64 holdid; TS ts[MAXFIB];
	std::map<int, std::set<int>> mnames, cnames; std::map<int, std::set<std::pair<u64,u64>>> files; std::map<int, std::set<std::vector<u64>>> offs;
	int flags[64]; int bar[64]; int bardead; int slotfd[MAXPROC][16]; int slotfile[MAXPROC][16]; int mode_rb[MAXPROC], mode_nm[MAXPROC], mode_fu[MAXPROC];
	bool freeno[MAXSPACE * 4], filecum[MAXSPACE * 4]; u64 gone_ev[MAXPROC]; bool gone_seen[MAXPROC]; u64 dead_ev[MAXPROC];
	int nkilled; u64 lastkill_ev; int lock_results; bool anykill; int win1, win2; int inited[MAXPROC]; u64 libfds[MAXPROC];
	std::vector<Act> deadacts; std::map<int, int> capprof; int retries[MAXPROC]; u64 reinit_own[MAXPROC];
} H;
#define PF_TIMING 8
#define PF_NOFDLEAK 16

static void reset_H()
{
	H.ev = 0; H.mtx.clear(); H.holds.clear(); H.acts.clear(); H.deadacts.clear(); H.waits.clear(); H.sigs.clear(); H.condknown.clear(); H.holdid = 0; H.mnames.clear(); H.cnames.clear(); H.files.clear(); H.offs.clear();
	for(auto& t : H.ts) t = TS(); memset(H.flags, 0, sizeof H.flags); memset(H.bar, 0, sizeof H.bar); H.bardead = 0;
	for(auto& r : H.slotfd) for(int& x : r) x = -1; memset(H.slotfile, 0, sizeof H.slotfile); memset(H.freeno, 0, sizeof H.freeno); memset(H.filecum, 0, sizeof H.filecum);
	memset(H.gone_ev, 0, sizeof H.gone_ev); memset(H.gone_seen, 0, sizeof H.gone_seen); memset(H.dead_ev, 0, sizeof H.dead_ev); H.nkilled = 0; H.lastkill_ev = 0; H.anykill = false; H.win1 = H.win2 = 0; memset(H.inited, 0, sizeof H.inited); H.capprof.clear(); memset(H.libfds, 0, sizeof H.libfds); memset(H.retries, 0, sizeof H.retries);
}
void harness_reset() { reset_H(); }
static u64 slack() { return 20000000ull + 80 * P->yq; }
static TS& T() { return H.ts[cur->idx]; }
static bool attached(Proc* p) { return proc_space_mapped(p) >= 0; }
static int fuid() { return cur->idx; }
static void poll_gone() { for(int i = 0; i < nprocs; i++) if(procs[i].st == PS_GONE && !H.gone_seen[i]) { H.gone_seen[i] = true; H.gone_ev[i] = ++H.ev; } }
static bool proc_live(int i) { return procs[i].st == PS_RUN; }

//---------------------------------------------------------------- known findings: crash windows etc. are matched by class
static std::string opdesc(Fiber* f)
{
	char b[160]; TS& t = H.ts[f->idx];
	if(!f->tp || f->pc >= (int)f->tp->ops.size()) return "end";
	Op& o = f->tp->ops[f->pc]; snprintf(b, sizeof b, "p%d.t%d op%d %s(%d,%d,%d,%d)%s", f->proc->idx, f->appthr, f->pc, opnames[o.k], o.v[0], o.v[1], o.v[2], o.v[3], t.inop ? " in call" : ""); return b;
}

//---------------------------------------------------------------- activity bookkeeping
static void free_note(bool mutex, int space, int name, const RKey* k, const Range* r, bool wr, int byuid)
{
	for(int i = 0; i < nfibs; i++) { TS& t = H.ts[i]; if(!t.inop || i == byuid) continue;
		if(mutex) { if(t.wtype == 1 && t.mspace == space && t.mname == name) t.own_free = fibs[i].owntime; }
		else if(t.wtype == 2 && key_may(t.key, *k) && range_ov(t.r, *r) && (t.wr || wr)) t.own_free = fibs[i].owntime;
	}
}
static void mact_begin(MM& m) { MAct& a = m.acts[fuid()]; if(!a.active) { a.active = true; a.dead = false; a.s = H.ev; } }
static void mact_end(MM& m, int space, int name, int uid) { MAct& a = m.acts[uid]; if(a.active) { a.active = false; a.e = H.ev; free_note(true, space, name, nullptr, nullptr, true, uid); } }
static bool waiter_due(MM& m, int uid);
static bool mact_overlap(MM& m, u64 inv, int uid) { if(waiter_due(m, uid)) return true; for(auto& x : m.acts) if(x.first != uid && (x.second.active || x.second.e >= inv)) return true; return false; }
static bool mact_now(MM& m, int uid) { if(waiter_due(m, uid)) return true; for(auto& x : m.acts) if(x.first != uid && x.second.active) return true; return false; }
static void mact_clear_dead(MM& m) { for(auto& x : m.acts) if(x.second.active && x.second.dead) { x.second.active = false; x.second.e = H.ev; } }
// A waiter of a condition whose time is up may be taking its mutex back at any moment.
static bool waiter_due(MM& m, int uid) { for(auto& w : H.waits) if(w.live && w.uid != uid && w.timed && now_ns() >= w.deadline && &H.mtx[{w.space, w.m}] == &m) return true; return false; }
// Another thread got the mutex: every waiter that released it is certainly waiting (and not using the mutex) now.
static void certify(MM& m, int sp, int name, int uid) { for(auto& w : H.waits) if(w.live && !w.bad && !w.cert && w.space == sp && w.m == name && w.uid != uid) { w.cert = H.ev; bool sg = false; for(auto& x : H.sigs) if(x.space == sp && x.c == w.c && x.ret >= w.inv) sg = true; MAct& a = m.acts[w.uid]; if(a.active && !sg) { a.active = false; a.e = H.ev; } } }
static int act_begin(int uid, int proc, int fd, const RKey& k, const Range& r, bool wr)
{
	u64 lo = H.ev; for(int i = 0; i < nfibs; i++) if(H.ts[i].inop && H.ts[i].inv < lo) lo = H.ts[i].inv;
	for(size_t i = 0; i < H.acts.size(); i++) { Act& a = H.acts[i]; if(!a.used || (a.e != ~0ull && a.e < lo)) { a = Act{uid, proc, fd, k, r, wr, H.ev, ~0ull, false, true}; return (int)i; } }
	H.acts.push_back(Act{uid, proc, fd, k, r, wr, H.ev, ~0ull, false, true}); return (int)H.acts.size() - 1;
}
static void act_end(int i) { Act& a = H.acts[i]; if(a.e == ~0ull) { a.e = H.ev; free_note(false, 0, 0, &a.key, &a.r, a.wr, a.uid); } }
static bool act_overlap(const RKey& k, const Range& r, bool wr, u64 inv, int uid) { for(auto& a : H.acts) if(a.used && a.uid != uid && a.e >= inv && (wr || a.wr) && key_may(a.key, k) && range_ov(a.r, r)) return true; return false; }
static bool act_now(const RKey& k, const Range& r, bool wr, int uid) { for(auto& a : H.acts) if(a.used && a.uid != uid && a.e == ~0ull && (wr || a.wr) && key_may(a.key, k) && range_ov(a.r, r)) return true; return false; }
// Somebody acquired: whatever dead threads left behind on conflicting ranges has been cleaned up.
static void act_clear_dead(const RKey& k, const Range& r, bool wr) { for(auto& a : H.acts) if(a.used && a.dead && a.e == ~0ull && (wr || a.wr) && key_def(a.key, k) && range_ov(a.r, r)) a.e = H.ev; }

void harness_thread_gone(Fiber* f)
{
	int uid = f->idx; TS& t = H.ts[uid]; ++H.ev;
	for(auto& x : H.mtx) { MM& m = x.second; if(m.owner == uid) { m.owner = -1; m.cnt = 0; } auto it = m.acts.find(uid); if(it != m.acts.end() && it->second.active) it->second.dead = true; }
	for(size_t i = 0; i < H.holds.size();) if(H.holds[i].uid == uid) H.holds.erase(H.holds.begin() + i); else i++;
	for(auto& a : H.acts) if(a.used && a.uid == uid && a.e == ~0ull) { a.dead = true; H.deadacts.push_back(a); }
	for(auto& w : H.waits) if(w.uid == uid && w.live) { w.live = false; w.dead = true; w.dead_ev = H.ev; MM& m = H.mtx[{w.space, w.m}]; w.clean = w.cert && m.owner >= 0 && m.owner != uid; }
	if(t.inop && t.wtype == 1) H.mnames[t.mspace].insert(t.mname);
	t.inop = false; t.inwaitall = false;
	H.bardead++;
}
// The shared file is initialised anew: nothing of what was known about its contents is true any more.
void harness_reinit(int sp)
{
	++H.ev;
	for(auto it = H.condknown.begin(); it != H.condknown.end();) if(it->first.first == sp) it = H.condknown.erase(it); else ++it;
	H.mnames[sp].clear(); H.cnames[sp].clear(); H.files[sp].clear(); H.offs[sp].clear();
	for(int i = 0; i < nfibs; i++) { // calls in progress will use the new file
		TS& t = H.ts[i]; if(!t.inop || fibs[i].st == FS_DONE || fibs[i].proc->curspace != sp) continue;
		if(t.wtype == 2) { H.files[sp].insert({t.key.dev + t.key.nofd * 1000003, t.key.ino}); H.offs[sp].insert({t.key.dev + t.key.nofd * 1000003, t.key.ino, (u64)t.r.off, t.r.len}); }
		if(fibs[i].tp && fibs[i].pc < (int)fibs[i].tp->ops.size()) { Op& o = fibs[i].tp->ops[fibs[i].pc]; if(o.k == OP_CWAIT || o.k == OP_CTIMED) H.cnames[sp].insert(o.v[0]); }
	}
	// a process in exit() that has already left the lock space holds nothing any more
	for(auto& x : H.mtx) { int o = x.second.owner; if(x.first.first == sp && o >= 0 && fibs[o].proc->exiting && proc_space_mapped(fibs[o].proc) < 0) { x.second.owner = -1; x.second.cnt = 0; } }
	for(size_t i = 0; i < H.holds.size();) { Proc* q = fibs[H.holds[i].uid].proc; if(H.holds[i].key.space == sp && q->exiting && proc_space_mapped(q) < 0) H.holds.erase(H.holds.begin() + i); else i++; }
	for(auto& x : H.mtx) if(x.first.first == sp) { x.second.known = false; mact_clear_dead(x.second); }
	for(auto& a : H.acts) if(a.used && a.dead && a.e == ~0ull && a.key.space == sp) a.e = H.ev;
	for(size_t i = 0; i < H.deadacts.size();) if(H.deadacts[i].key.space == sp) H.deadacts.erase(H.deadacts.begin() + i); else i++;
}
// A process killed between changing a lock word (the only 4-byte atomics in a range lock call) and recording that in its own entry:
// known finding KF1, see KNOWN_FINDINGS. Failures of such runs that the finding explains are reported under it.
static void crash_site(Proc* p)
{
	for(int i = 0; i < nfibs; i++) {
		Fiber* f = &fibs[i]; if(f->proc != p || f->st == FS_DONE || !f->inlib) continue;
		bool rwop = false; if(f->appthr >= 0 && H.ts[i].inop && f->tp && f->pc < (int)f->tp->ops.size()) { int k = f->tp->ops[f->pc].k; rwop = (k >= OP_RD && k <= OP_RWUNLOCK) || (k >= OP_RCSVNEW && k <= OP_RCSVDEL) || k == OP_REINIT || k == OP_RELALL; }
		if(rwop && f->opwseq > 0 && f->lw_kind == 104) H.win1++;
		if(f->appthr < 0 && f->opwseq > 0) H.win2++;
	}
}
static bool explained(const char* cls) { return H.win1 && (!strncmp(cls, "hang-", 5) || !strncmp(cls, "rw-exclusion", 12) || !strncmp(cls, "rcsv-", 5)); }
static bool explained2(const char* cls) { return H.win2 && (!strncmp(cls, "hang-", 5) || !strncmp(cls, "rw-exclusion", 12) || !strncmp(cls, "rcsv-", 5)); }
bool harness_known(const char* cls, const char** id) { if(explained(cls)) { *id = "KF1"; return true; } if(explained2(cls)) { *id = "KF1w"; return true; } return false; }
void harness_proc_dead(Proc* p, bool killed) { if(killed) crash_site(p); ++H.ev; H.dead_ev[p->idx] = H.ev; if(killed) { H.nkilled++; H.anykill = true; H.lastkill_ev = H.ev; rs.probes[killed ? 40 : 41]++; } }
void harness_begin_process(Proc* p)
{
	H.mode_rb[p->idx] = p->pp->robust < 0 ? 2 : p->pp->robust; H.mode_nm[p->idx] = p->pp->nomap; H.mode_fu[p->idx] = p->pp->freeu;
	int sp = p->curspace;
	if(p->pp->freeu == 0) H.freeno[sp] = true; if(p->pp->freeu != 1) H.filecum[sp] = true;
	if(!H.capprof.count(sp)) H.capprof[sp] = p->pp->caps;
	if(p->forked) { Proc* q = &procs[p->parent_idx]; H.mode_rb[p->idx] = H.mode_rb[q->idx]; H.mode_nm[p->idx] = H.mode_nm[q->idx]; H.mode_fu[p->idx] = H.mode_fu[q->idx]; for(int i = 0; i < 16; i++) { H.slotfd[p->idx][i] = H.slotfd[q->idx][i]; H.slotfile[p->idx][i] = H.slotfile[q->idx][i]; } p->fds_harness = q->fds_harness; }
}
bool harness_all_done() { for(int i = 0; i < nprocs; i++) if(procs[i].st == PS_RUN) return false; return true; }
std::string harness_hang_desc()
{
	std::string s; for(int i = 0; i < nfibs; i++) if(fibs[i].appthr >= 0 && fibs[i].st != FS_DONE) { s += opdesc(&fibs[i]); s += "; "; }
	return s;
}
static void check_lost_signals();
// A process whose application threads are all finished but which is not gone is stuck in its exit handlers.
static bool proc_hang_worker() { for(int i = 0; i < nprocs; i++) { if(procs[i].st != PS_RUN) continue; bool app = false; for(int j = 0; j < nfibs; j++) if(fibs[j].proc == &procs[i] && fibs[j].appthr >= 0 && fibs[j].st != FS_DONE && (H.ts[j].inop || !fibs[j].inlib)) app = true; if(!app) return true; } return false; }
// True if the thread waits for something the application itself withholds (a lock of a live thread, a signal, another thread).
static bool justified_wait(Fiber* f)
{
	TS& t = H.ts[f->idx]; if(f->appthr < 0) return true;
	if(!t.inop) return !f->inlib;
	Op& o = f->tp->ops[f->pc];
	auto mheld = [&](int sp, int name) { auto it = H.mtx.find({sp, name}); return it != H.mtx.end() && it->second.owner >= 0 && fibs[it->second.owner].st != FS_DONE; };
	auto rheld = [&]() { for(auto& h : H.holds) if(!h.suspended && key_may(h.key, t.key) && range_ov(h.r, t.r) && (h.wr || t.wr) && !(h.derived && h.uid == f->idx) && fibs[h.uid].st != FS_DONE) return true; return false; };
	switch(o.k) {
	case OP_MLOCK: return mheld(t.mspace, t.mname);
	case OP_CWAIT: return !(t.waiter >= 0 && H.waits[t.waiter].bad);
	case OP_CTIMED: return mheld(t.mspace, t.mname);
	case OP_RD: case OP_WR: return rheld();
	case OP_RCSVNEW: case OP_RCSVLOCK: return t.wtype == 2 && rheld();
	default: return false;
	}
}
void harness_hang()
{
	// the class names the first kind of call that is stuck inside the library without an application level reason
	const char* k = nullptr; for(int i = 0; i < nfibs && !k; i++) if(fibs[i].appthr >= 0 && fibs[i].st != FS_DONE && !justified_wait(&fibs[i])) k = H.ts[i].inop ? opnames[fibs[i].tp->ops[fibs[i].pc].k] : "internal";
	if(!k) { check_lost_signals(); if(!proc_hang_worker()) { fail("app-deadlock", "the program itself deadlocks: %s", harness_hang_desc().c_str()); return; } k = "internal"; }
	char c[64]; snprintf(c, sizeof c, "hang-%s", k);
	fail(c, "no progress: %s", harness_hang_desc().c_str());
}
void harness_wild(const char* what, u64 addr)
{
	Fiber* f = cur; f->kern = 1; u64 o = addr - SHBASE;
	if(f->inlib) {
		char b[64]; snprintf(b, sizeof b, o < SHSIZE ? "shared+0x%llx" : "0x%llx", (unsigned long long)(o < SHSIZE ? o % SLOTSZ : addr));
		fail("crash", "%s at %s in p%d.%s, during %s", what, b, f->proc->idx, f->appthr < 0 ? "worker" : "thread", f->appthr >= 0 && f->tp ? opdesc(f).c_str() : "start-up or worker");
	}
	fprintf(stderr, "simulator bug: %s at %llx outside the library (%s)\n", what, (unsigned long long)addr, opdesc(f).c_str()); _exit(2);
}

//---------------------------------------------------------------- api calls
static void arm_faults(Fiber* f)
{
	for(auto& x : P->faults) {
		if(x.proc != f->proc->idx || x.thr != f->appthr || x.op != f->pc) continue;
		if(x.kind == F_KILL) { f->kill_at = f->steps + x.step; f->kill_reap = x.a; }
		if(x.kind == F_STALL) { f->stall_at = f->steps + x.step; f->stall_len = x.a; }
	}
}
// PF_PATHS: the process uses the file it was told to use, with the permission it was told, and kept its own umask
extern std::string path_of_space(int s); extern void space_file(int s, int* mode, int* creator); extern int odd_directory(std::string& name);
static void check_paths(Proc* p)
{
	if(!(P->flags & PF_PATHS)) return;
	int s = proc_space_mapped(p);
	if(s >= 0 && s != p->curspace && (p->syserr_mask & (1u << 10 | 1u << 11 | 1u << 22))) { // the given directory was not usable: then the default one is used
		std::string b = path_of_space(p->curspace), n = b.substr(b.rfind('/') + 1), u = path_of_space(s); if(((P->flags & 2) && u == "/var/lib/antpickax/.fullock/" + n) || ((!(P->flags & 2) || (p->syserr_mask & 1u << 11)) && u == "/tmp/.fullock/" + n)) { p->curspace = s; if(!H.capprof.count(s)) H.capprof[s] = p->pp->caps; }
	}
	if(s >= 0 && s != p->curspace) fail("wrong-file", "p%d uses %s, but its settings say %s", p->idx, path_of_space(s).c_str(), path_of_space(p->curspace).c_str());
	if(s >= 0) { int m, c; space_file(s, &m, &c); if(c >= 0) { int want = 0666 & ~env_umask(procs[c].pp->mask / 8); if(m != want) fail("file-mode", "%s was created with mode %03o by p%d, but its settings say %03o", path_of_space(s).c_str(), m, c, want); } }
	std::string n; int m = odd_directory(n); if(m >= 0) fail("directory-mode", "the directory %s was created with mode %03o", n.c_str(), m);
	for(int i = 0; i < nfibs; i++) if(fibs[i].proc == p && fibs[i].st != FS_DONE && H.ts[i].inop && &fibs[i] != cur) return;
	if(p->umask != p->umask0) fail("umask", "the umask of p%d became %03o, it was %03o", p->idx, (int)p->umask, (int)p->umask0);
}
static void call_begin(int wtype)
{
	if(P->flags & PF_PATHS) { step_yield(); check_paths(cur->proc); }
	step_yield(); poll_gone(); Fiber* f = cur; TS& t = T();
	t.inop = true; t.inv = ++H.ev; t.t0 = now_ns(); t.own0 = f->owntime; t.own_free = f->owntime; t.wtype = wtype; t.act = -1; t.waiter = -1; t.att0 = attached(f->proc);
	f->opwseq = 0; f->opstep = f->steps; f->dl = 0; f->dl_own = ~0ull; rs.ops++; rs.opc[f->tp->ops[f->pc].k]++;
}
static void lib_in() { cur->inlib = true; }
static void lib_out() { cur->inlib = false; }
static void call_end() { poll_gone(); check_paths(cur->proc); TS& t = T(); t.inop = false; t.wtype = 0; ++H.ev; cur->dl = 0; }
#define LIB(expr) ([&]() { lib_in(); auto r_ = (expr); lib_out(); return r_; }())

static const char* ename(int e) { switch(e) { case 0: return "0"; case EBUSY: return "EBUSY"; case ETIMEDOUT: return "ETIMEDOUT"; case ENOLCK: return "ENOLCK"; case EINVAL: return "EINVAL"; case EPERM: return "EPERM"; case EDEADLK: return "EDEADLK"; default: return "other"; } }
// True if the call was answered by the "not attached" rules; checks them.
static bool nomap_case(int r)
{
	Proc* p = cur->proc; TS& t = T(); bool a1 = attached(p);
	if(t.att0 && a1) return false;
	int nm = H.mode_nm[p->idx]; bool allow = nm == 0 || nm == 2;
	if(!a1 && !p->syserr_fired && p->pp->autoinit && !(P->flags & 32)) fail("attach-fail", "p%d is not attached although no system call failed for it (%s)", p->idx, opdesc(cur).c_str());
	if(!t.att0 && !a1) {
		if(allow && r != 0) fail("nomap-result", "unattached in allow mode: %s returned %s", opdesc(cur).c_str(), ename(r));
		if(!allow && r != ENOLCK) fail("nomap-result", "unattached in deny mode: %s returned %s", opdesc(cur).c_str(), ename(r));
		u64 own = cur->owntime - t.own0; if((nm < 2) && own > 100000000ull) fail("nomap-slow", "unattached %s took %llu us of its own time", opdesc(cur).c_str(), (unsigned long long)own / 1000);
		rs.probes[1]++; return true;
	}
	if(t.att0 && !a1) fail("detached", "p%d lost its mapping during %s", p->idx, opdesc(cur).c_str());
	return false; // attached during the call: normal rules
}
static void check_timeout_time(u64 usec)
{
	TS& t = T(); u64 el = now_ns() - t.t0;
	if(el < usec * 1000) fail("early-timeout", "%s reported a timeout after %llu us instead of %llu us", opdesc(cur).c_str(), (unsigned long long)el / 1000, (unsigned long long)usec);
	rs.probes[2]++;
}
static void check_late(const char* what)
{
	Fiber* f = cur; if(!(P->flags & PF_TIMING)) return;
	if(f->dl && f->dl_own != ~0ull && f->owntime - f->dl_own > slack()) fail("late-timeout", "%s: %s %llu us of its own running time after the deadline", opdesc(f).c_str(), what, (unsigned long long)(f->owntime - f->dl_own) / 1000);
}

// ---- named mutex
static void op_mutex(int kind, int name, i64 usec)
{
	Fiber* f = cur; Proc* p = f->proc; int sp = p->curspace; MM& m = H.mtx[{sp, name}]; std::string nm = name_of(name);
	call_begin(1); TS& t = T(); t.mspace = sp; t.mname = name; bool mine = m.owner == fuid(); bool knownb = m.known; u64 gen0 = space_gen(sp);
	mact_begin(m);
	if(kind == OP_MTIMED) f->dl = t.t0 + (u64)usec * 1000;
	const char* ns = nm.c_str(); Api& a = p->img->api;
	int r = kind == OP_MLOCK ? LIB(a.mlock(ns)) : kind == OP_MTRY ? LIB(a.mtry(ns)) : LIB(a.mtimed(ns, (time_t)usec));
	++H.ev; tracef("%s = %s", opdesc(f).c_str(), ename(r));
	if(nomap_case(r)) { if(!mine) mact_end(m, sp, name, fuid()); call_end(); return; }
	if(space_gen(sp) != gen0) knownb = false;
	if(r != ENOLCK) H.mnames[sp].insert(name);
	if(r == 0) {
		if(mine) { if(m.owner != fuid()) fail("sim", "owner changed"); m.cnt++; rs.probes[3]++; }
		else {
			if(m.owner >= 0) fail("mutex-exclusion", "%s succeeded while p%d.t%d owns the mutex (since event %llu)", opdesc(f).c_str(), fibs[m.owner].proc->idx, fibs[m.owner].appthr, (unsigned long long)m.owner_ev);
			if(!mact_now(m, fuid()) && (P->flags & PF_TIMING) && f->owntime - t.own_free > slack()) fail("slow-success", "%s got a mutex %llu us of its own running time after it had become free", opdesc(f).c_str(), (unsigned long long)(f->owntime - t.own_free) / 1000);
			m.owner = fuid(); m.cnt = 1; m.owner_ev = H.ev; mact_clear_dead(m);
			certify(m, sp, name, fuid());
			int n = 0; for(auto& x : H.mtx) if(x.first.first == sp && x.second.owner >= 0) n++; if(H.capprof.count(sp) && n > caps_of(H.capprof[sp]).nmtx) fail("over-capacity", "%s succeeded: %d names are locked at once but the capacity is %d", opdesc(f).c_str(), n, caps_of(H.capprof[sp]).nmtx);
		}
		m.known = true; call_end(); return;
	}
	if(mine) fail("recursion", "%s by the owner (depth %d) returned %s", opdesc(f).c_str(), m.cnt, ename(r));
	if(r == EBUSY && (kind == OP_MTRY || (kind == OP_MTIMED && usec == 0))) { /* no time at all is the same as trying */ if(!mact_overlap(m, t.inv, fuid())) fail("spurious-busy", "%s returned EBUSY although nobody held or was taking the mutex", opdesc(f).c_str()); m.known = true; rs.probes[4]++; }
	else if(r == ETIMEDOUT && kind == OP_MTIMED) {
		check_timeout_time((u64)usec); check_late("timeout reported");
		if(!mact_overlap(m, t.inv, fuid())) fail("spurious-timeout", "%s timed out although nobody held or was taking the mutex", opdesc(f).c_str());
		if((P->flags & PF_TIMING) && !mact_now(m, fuid())) { u64 lim = f->dl_own != ~0ull ? f->dl_own : f->owntime; if(lim > t.own_free && lim - t.own_free > slack()) fail("missed-success", "%s timed out although the mutex was free for %llu us of its running time", opdesc(f).c_str(), (unsigned long long)(lim - t.own_free) / 1000); }
		m.known = true;
	}
	else if(r == ENOLCK) {
		// names that have an entry for certain or are just being given one by somebody else
		std::set<int> u = H.mnames[sp]; for(int i = 0; i < nfibs; i++) if(i != fuid() && H.ts[i].inop && H.ts[i].wtype == 1 && H.ts[i].mspace == sp) u.insert(H.ts[i].mname); u.erase(name);
		if(knownb || (int)u.size() < caps_of(H.capprof[sp]).nmtx) fail("spurious-enolck", "%s returned ENOLCK with %d of %d names used by others", opdesc(f).c_str(), (int)u.size(), caps_of(H.capprof[sp]).nmtx); rs.probes[5]++;
		mact_end(m, sp, name, fuid()); call_end(); return;
	}
	else fail("mutex-result", "%s returned %d (%s)", opdesc(f).c_str(), r, ename(r));
	mact_end(m, sp, name, fuid()); call_end();
}
static void op_munlock(int name, int force)
{
	Fiber* f = cur; Proc* p = f->proc; int sp = p->curspace; MM& m = H.mtx[{sp, name}]; std::string nm = name_of(name);
	bool mine = m.owner == fuid(); if(mine ? force == 2 : !force) return;
	call_begin(0); TS& t = T(); u64 oev = m.owner_ev; int oo = m.owner; mine = m.owner == fuid();
	bool last = false;
	if(mine) { if(--m.cnt == 0) { last = true; m.owner = -1; } }
	const char* ns = nm.c_str(); int r = LIB(p->img->api.munlock(ns)); ++H.ev; tracef("%s = %s", opdesc(f).c_str(), ename(r));
	if(nomap_case(r)) { call_end(); return; }
	if(mine) { if(r != 0) fail("unlock-failed", "%s by the owner returned %s", opdesc(f).c_str(), ename(r)); if(last) mact_end(m, sp, name, fuid()); }
	else if(oo >= 0 && m.owner == oo && m.owner_ev == oev && r == 0) fail("foreign-unlock", "%s returned success although p%d.t%d owns the mutex", opdesc(f).c_str(), fibs[oo].proc->idx, fibs[oo].appthr);
	else if(oo >= 0) rs.probes[6]++;
	(void)t; call_end();
}

// ---- range locks
static int fd_of(int ref, RKey& k, Proc* p)
{
	k = RKey{p->curspace, 0, 0, 0};
	if(ref >= 100) { k.nofd = 1; k.ino = (u64)(ref - 100); return (int)((u32)(ref - 100) | 0x80000000u); }
	int fd = H.slotfd[p->idx][ref]; fd_ident(p, fd, &k.dev, &k.ino); return fd;
}
static bool enolck_ok(const RKey& k, const Range& r, u64 inv, int self, std::string& why)
{
	int sp = k.space; Caps c = caps_of(H.capprof[sp]); std::set<std::pair<u64,u64>> fi; std::set<std::vector<u64>> of; int lk = 0;
	for(size_t i = 0; i < H.acts.size(); i++) { Act& a = H.acts[i]; if(!a.used || (int)i == self || a.e < inv || a.key.space != sp) continue; lk++; fi.insert({a.key.dev + a.key.nofd * 1000003, a.key.ino}); of.insert({a.key.dev + a.key.nofd * 1000003, a.key.ino, (u64)a.r.off, a.r.len}); }
	std::pair<u64,u64> fk{k.dev + k.nofd * 1000003, k.ino}; std::vector<u64> ok{k.dev + k.nofd * 1000003, k.ino, (u64)r.off, r.len};
	bool res = false;
	// somebody else's use of the same entry may begin or end during the call, so our own entry is counted as a new one
	std::set<std::pair<u64,u64>> fi2 = fi; fi2.erase(fk); auto of2 = of; of2.erase(ok);
	if((int)fi2.size() >= c.file || (int)of2.size() >= c.off || lk >= c.locker) res = true;
	if(H.filecum[sp] && (int)H.files[sp].size() > c.file) res = true;
	if(H.freeno[sp] && (int)H.offs[sp].size() > c.off) res = true;
	char b[160]; snprintf(b, sizeof b, "%d/%d files, %d/%d ranges, %d/%d lockers in use by others", (int)fi2.size(), c.file, (int)of2.size(), c.off, lk, c.locker); why = b;
	return res;
}
// No more locks than the capacity of the space allows can be held at once. Ranges which overlap may share an entry.
static void check_overcommit(int sp)
{
	if(!H.capprof.count(sp)) return; Caps c = caps_of(H.capprof[sp]); int n = 0; std::set<std::pair<u64,u64>> fi; std::vector<Hold*> of;
	for(auto& h : H.holds) { if(h.suspended || h.derived || h.key.space != sp) continue; n++; fi.insert({h.key.nofd ? ~0ull : h.key.dev, h.key.nofd ? 0 : h.key.ino}); bool sep = true; for(auto x : of) if(key_may(x->key, h.key) && range_ov(x->r, h.r)) sep = false; if(sep) of.push_back(&h); }
	if(n > c.locker || (int)fi.size() > c.file || (int)of.size() > c.off) fail("over-capacity", "%s succeeded: %d locks of %d ranges of %d files are held at once but the capacity is %d locks, %d ranges, %d files", opdesc(cur).c_str(), n, (int)of.size(), (int)fi.size(), c.locker, c.off, c.file);
}
static void op_rw(int kind, int ref, i64 off, u64 len, i64 usec)
{
	Fiber* f = cur; Proc* p = f->proc; RKey k; Range r{off, len}; bool wr = kind == OP_WR || kind == OP_WRTRY || kind == OP_WRTIMED; bool tr = kind == OP_RDTRY || kind == OP_WRTRY, tm = kind == OP_RDTIMED || kind == OP_WRTIMED;
	if(ref < 100 && H.slotfd[p->idx][ref] < 0) return;
	call_begin(2); TS& t = T(); int fd = fd_of(ref, k, p); t.key = k; t.r = r; t.wr = wr;
	int act = t.act = act_begin(fuid(), p->idx, fd, k, r, wr);
	H.files[k.space].insert({k.dev + k.nofd * 1000003, k.ino}); H.offs[k.space].insert({k.dev + k.nofd * 1000003, k.ino, (u64)off, len});
	if(tm) f->dl = t.t0 + (u64)usec * 1000;
	Api& a = p->img->api; int w = wr ? 2 : 1;
	int res = tr ? LIB(a.rwtry[w](fd, off, len)) : tm ? LIB(a.rwtimed[w](fd, off, len, (time_t)usec)) : LIB(a.rw[w](fd, off, len));
	++H.ev; tracef("%s fd %d = %s", opdesc(f).c_str(), fd, ename(res));
	if(nomap_case(res)) { act_end(act); call_end(); return; }
	if(res == 0) {
		for(auto& h : H.holds) if(h.uid != fuid() && !h.suspended && key_def(h.key, k) && range_ov(h.r, r) && (wr || h.wr))
			fail("rw-exclusion", "%s [%lld,+%llu) succeeded while p%d.t%d holds a %s lock on [%lld,+%llu)", opdesc(f).c_str(), (long long)off, (unsigned long long)len, h.proc, fibs[h.uid].appthr, h.wr ? "write" : "read", (long long)h.r.off, (unsigned long long)h.r.len);
		if(!act_now(k, r, wr, fuid()) && (P->flags & PF_TIMING) && f->owntime - t.own_free > slack()) fail("slow-success", "%s got a lock %llu us of its own running time after it had become free", opdesc(f).c_str(), (unsigned long long)(f->owntime - t.own_free) / 1000);
		act_clear_dead(k, r, wr);
		H.holds.push_back(Hold{++H.holdid, fuid(), p->idx, fd, k, r, wr, H.ev, act, false, false}); int n = 0; for(auto& h : H.holds) if(key_def(h.key, k) && range_ov(h.r, r)) n++; if(n > 1) rs.probes[7]++;
		check_overcommit(k.space);
		call_end(); return;
	}
	if(res == EBUSY && (tr || (tm && usec == 0))) { if(!act_overlap(k, r, wr, t.inv, fuid())) fail("spurious-busy", "%s returned EBUSY although no conflicting lock was held or being taken", opdesc(f).c_str()); rs.probes[8]++; }
	else if(res == ETIMEDOUT && tm) {
		check_timeout_time((u64)usec); check_late("timeout reported");
		if(!act_overlap(k, r, wr, t.inv, fuid())) fail("spurious-timeout", "%s timed out although no conflicting lock was held or being taken", opdesc(f).c_str());
		if((P->flags & PF_TIMING) && !act_now(k, r, wr, fuid())) { u64 lim = f->dl_own != ~0ull ? f->dl_own : f->owntime; if(lim > t.own_free && lim - t.own_free > slack()) fail("missed-success", "%s timed out although the lock was free for %llu us of its running time", opdesc(f).c_str(), (unsigned long long)(lim - t.own_free) / 1000); }
	}
	else if(res == ENOLCK) { std::string why; if(!enolck_ok(k, r, t.inv, act, why)) fail("spurious-enolck", "%s returned ENOLCK with only %s", opdesc(f).c_str(), why.c_str()); rs.probes[5]++; }
	else fail("rw-result", "%s returned %d (%s)", opdesc(f).c_str(), res, ename(res));
	act_end(act); call_end();
}
static void op_rwunlock(int ref, i64 off, u64 len, int force)
{
	Fiber* f = cur; Proc* p = f->proc; RKey k; if(ref < 100 && H.slotfd[p->idx][ref] < 0) return;
	int fd = fd_of(ref, k, p); int hi = -1;
	auto look = [&]() { hi = -1; for(size_t i = 0; i < H.holds.size(); i++) { Hold& h = H.holds[i]; if(h.uid == fuid() && h.fd == fd && key_def(h.key, k) && h.r.off == off && h.r.len == len && !h.derived && (hi < 0 || h.wr)) hi = (int)i; } };
	look(); if(hi < 0 ? !force : force == 2) return;
	// the library takes ranges of one descriptor which overlap for one lock
	if(force == 2) for(auto& h : H.holds) if(h.uid == fuid() && h.fd == fd && range_ov(h.r, Range{off, len})) return;
	call_begin(0); look(); int act = -1; bool mine = hi >= 0;
	if(mine) { act = H.holds[hi].act; H.holds.erase(H.holds.begin() + hi); }
	int r = LIB(p->img->api.rwunlock(fd, off, len)); ++H.ev; tracef("%s fd %d = %s", opdesc(f).c_str(), fd, ename(r));
	if(nomap_case(r)) { call_end(); return; }
	if(mine) { if(r != 0) fail("unlock-failed", "%s by the holder returned %s", opdesc(f).c_str(), ename(r)); act_end(act); }
	else if(r == 0 && !(P->flags & 64)) fail("foreign-unlock", "%s returned success although this thread holds no such lock", opdesc(f).c_str());
	call_end();
}
static void op_islocked(int ref, i64 off, u64 len)
{
	Fiber* f = cur; Proc* p = f->proc; RKey k; Range r{off, len}; if(ref < 100 && H.slotfd[p->idx][ref] < 0) return;
	call_begin(0); TS& t = T(); int fd = fd_of(ref, k, p);
	u64 hid = 0; for(auto& h : H.holds) if(!h.suspended && key_def(h.key, k) && range_ov(h.r, r)) hid = h.id;
	std::vector<u64> ids; for(auto& h : H.holds) if(!h.suspended && key_def(h.key, k) && range_ov(h.r, r)) ids.push_back(h.id); (void)hid;
	bool b = LIB(p->img->api.islocked(fd, off, len)); ++H.ev; tracef("%s fd %d = %d", opdesc(f).c_str(), fd, b);
	bool a1 = attached(p);
	if(!a1 || (!t.att0 && p->syserr_fired)) { if(!t.att0 && !a1) { int nm = H.mode_nm[p->idx]; bool allow = nm == 0 || nm == 2; if(!p->syserr_fired && p->pp->autoinit && !(P->flags & 32)) fail("attach-fail", "p%d is not attached although no system call failed for it", p->idx); if(allow && b) fail("nomap-result", "unattached islocked returned true in allow mode"); if(!allow && !b) fail("nomap-result", "unattached islocked returned false in deny mode"); } call_end(); return; }
	bool still = false; for(auto& h : H.holds) for(u64 id : ids) if(h.id == id && !h.suspended) still = true;
	if(!b && still) fail("islocked-false", "%s said unlocked although a lock overlapping the range was held during the whole call", opdesc(f).c_str());
	// the entry of a thread that died in or with a lock may stay in the lists until somebody recovers it
	bool dead = false; for(auto& a : H.deadacts) if(key_may(a.key, k) && range_ov(a.r, r)) dead = true;
	if(b && !dead && !act_overlap(k, r, true, t.inv, -1)) fail("islocked-true", "%s said locked although nobody held or was taking or releasing a lock overlapping the range", opdesc(f).c_str());
	rs.probes[b ? 9 : 10]++; call_end();
}

// ---- named condition
static void op_cwait(int c, int mn, i64 usec, bool timed, bool bad = false)
{
	Fiber* f = cur; Proc* p = f->proc; int sp = p->curspace; MM& m = H.mtx[{sp, mn}]; std::string cs = name_of(20 + c), ms = name_of(mn);
	if(bad) { if(m.owner == fuid()) return; }
	else if(m.owner != fuid() || m.cnt != 1) { if(attached(p)) return; }
	call_begin(1); TS& t = T(); t.mspace = sp; t.mname = mn; H.cnames[sp].insert(c);
	bool own = m.owner == fuid();
	if(own) { m.owner = -1; m.cnt = 0; }
	u64 oev = m.owner_ev; (void)oev; u64 acqs = 0;
	int wi = (int)H.waits.size(); int wbad = bad; H.waits.push_back(Waiter{fuid(), p->idx, sp, c, mn, t.inv, 0, 0, true, false, false, 0, 0, timed ? t.t0 + (u64)usec * 1000 : ~0ull, timed, t.t0, 0}); H.waits[wi].bad = wbad; t.waiter = wi;
	if(timed) f->dl = t.t0 + (u64)usec * 1000;
	const char *c1 = cs.c_str(), *m1 = ms.c_str(); Api& a = p->img->api;
	int r = timed ? LIB(a.ctimed(c1, m1, (time_t)usec)) : LIB(a.cwait(c1, m1)); ++H.ev; tracef("%s = %s", opdesc(f).c_str(), ename(r)); (void)acqs;
	Waiter& w = H.waits[wi]; w.live = false; w.ret = H.ev;
	if(nomap_case(r)) { call_end(); return; }
	if(bad && (r == 0 || r == ETIMEDOUT)) fail("misuse-accepted", "%s returned %s although the thread does not own the mutex", opdesc(f).c_str(), ename(r));
	if(r == 0 || r == ETIMEDOUT) {
		if(m.owner >= 0) fail("cond-mutex", "%s returned %s while p%d.t%d owns the mutex", opdesc(f).c_str(), ename(r), fibs[m.owner].proc->idx, fibs[m.owner].appthr);
		m.owner = fuid(); m.cnt = 1; m.owner_ev = H.ev; mact_clear_dead(m); mact_begin(m);
		certify(m, sp, mn, fuid());
		H.condknown[{sp, c}] = true;
	}
	if(r == 0) {
		w.success = true; bool any = false; for(auto& s : H.sigs) if(s.space == sp && s.c == c && s.ret >= w.inv) any = true;
		if(!any) fail("cond-spurious", "%s returned success without a signal or broadcast sent after it began to wait", opdesc(f).c_str());
		rs.probes[11]++;
	} else if(r == ETIMEDOUT) {
		if(!timed) fail("cond-result", "%s (no timeout) returned ETIMEDOUT", opdesc(f).c_str());
		check_timeout_time((u64)usec);
		if(w.cert) for(auto& s : H.sigs) if(s.bc && s.ret != ~0ull && s.space == sp && s.c == c && s.inv > w.cert && s.tret < w.deadline) fail("broadcast-lost", "%s timed out although a broadcast had been sent while it was waiting, %llu us before its deadline", opdesc(f).c_str(), (unsigned long long)(w.deadline - s.tret) / 1000);
		rs.probes[12]++;
		if((P->flags & PF_TIMING) && f->dl_own != ~0ull && !mact_now(m, fuid())) { u64 from = f->dl_own > t.own_free ? f->dl_own : t.own_free; if(f->owntime - from > slack()) fail("late-timeout", "%s reported the timeout %llu us of its running time too late", opdesc(f).c_str(), (unsigned long long)(f->owntime - from) / 1000); }
	} else if(r == ENOLCK) {
		int nw = 0; for(auto& x : H.waits) if(&x != &w && x.space == sp && (x.live || x.ret >= t.inv || (x.dead && !x.freed))) nw++;
		if(nw < caps_of(H.capprof[sp]).waiter && (H.condknown[{sp, c}] || (int)H.cnames[sp].size() <= caps_of(H.capprof[sp]).ncond)) fail("spurious-enolck", "%s returned ENOLCK with only %d of %d waiters and %d of %d conditions in use", opdesc(f).c_str(), nw, caps_of(H.capprof[sp]).waiter, (int)H.cnames[sp].size(), caps_of(H.capprof[sp]).ncond);
		if(own && m.owner >= 0) fail("cond-mutex", "%s failed with ENOLCK but released the mutex", opdesc(f).c_str());
		if(own) { m.owner = fuid(); m.cnt = 1; } w.dead_ev = 0; w.cert = 0; rs.probes[5]++;
	} else if(!own) { // a wait without the mutex is refused
	} else fail("cond-result", "%s returned %d (%s)", opdesc(f).c_str(), r, ename(r));
	call_end();
}
static void op_csig(int c, bool bc)
{
	Fiber* f = cur; Proc* p = f->proc; int sp = p->curspace; std::string cs = name_of(20 + c);
	call_begin(0); TS& t = T(); int si = (int)H.sigs.size(); bool known = H.condknown[{sp, c}]; bool cert = false; u64 gen0 = space_gen(sp); for(auto& w : H.waits) if(w.live && w.cert && w.space == sp && w.c == c) cert = true;
	for(auto& w : H.waits) if(w.live && w.cert && w.space == sp && w.c == c) { MAct& a = H.mtx[{sp, w.m}].acts[w.uid]; if(!a.active) { a.active = true; a.s = H.ev; } }
	H.sigs.push_back(Sig{sp, c, bc, t.inv, ~0ull, now_ns(), ~0ull, fuid()}); const char* c1 = cs.c_str();
	int r = bc ? LIB(p->img->api.cbc(c1)) : LIB(p->img->api.csig(c1)); ++H.ev; tracef("%s = %s", opdesc(f).c_str(), ename(r));
	H.sigs[si].ret = H.ev; H.sigs[si].tret = now_ns();
	if(nomap_case(r)) { H.sigs[si].space = -1; call_end(); return; }
	if(space_gen(sp) != gen0) known = cert = false;
	if(r != 0 && (known || cert || r != EINVAL)) fail("cond-result", "%s returned %d (%s)", opdesc(f).c_str(), r, ename(r));
	if(cert) rs.probes[13]++;
	call_end();
}
// Calls with arguments which cannot be right: refused at once. A descriptor which is not open gives whatever the mode says for a lock that cannot be made.
static void op_badcall(int kind, int arg)
{
	Fiber* f = cur; Proc* p = f->proc; Api& a = p->img->api; int r = 0; bool any = false; std::string s = name_of(arg); const char* n = s.c_str(); int nofd = 900;
	call_begin(0);
	switch(kind) {
	case 0: r = LIB(a.mlock(nullptr)); break; case 1: r = LIB(a.mtry(nullptr)); break; case 2: r = LIB(a.mtimed(nullptr, 100)); break; case 3: r = LIB(a.munlock(nullptr)); break;
	case 4: r = LIB(a.csig(nullptr)); break; case 5: r = LIB(a.cbc(nullptr)); break; case 6: r = LIB(a.cwait(nullptr, n)); break; case 7: r = LIB(a.ctimed(nullptr, n, 100)); break;
	case 8: r = LIB(a.rw[2](nofd, 0, 100)); any = true; break; case 9: r = LIB(a.rwtry[1](nofd, 0, 100)); any = true; break; case 10: r = LIB(a.rwunlock(nofd, 0, 100)); any = true; break; case 11: (void)LIB(a.islocked(nofd, 0, 100)); any = true; break;
	case 12: r = LIB(a.munlock("nobody has ever locked this")); break;
	case 14: r = LIB(a.cwait("nobody has ever waited for this", "nobody has ever locked this")); break; case 15: r = LIB(a.ctimed("nobody has ever waited for this", "nobody has ever locked this", 100)); break;
	case 16: r = LIB(a.cwait(name_of(0).c_str(), "nobody has ever locked this")); break; case 17: r = LIB(a.ctimed(name_of(0).c_str(), "nobody has ever locked this", 100)); break;
	default: r = LIB(a.csig("nobody has ever waited for this")); break;
	}
	++H.ev; tracef("%s = %s", opdesc(f).c_str(), ename(r));
	if(!any && kind <= 7) { if(r != EINVAL) fail("misuse-accepted", "%s returned %s", opdesc(f).c_str(), ename(r)); }
	else if(any) { int nm = H.mode_nm[p->idx]; bool allow = nm == 0 || nm == 2; (void)allow; if(r != 0 && r != ENOLCK && r != EINVAL && r != EBADF) fail("misuse-accepted", "%s returned %s", opdesc(f).c_str(), ename(r)); }
	else if(!nomap_case(r)) { if(kind == 12 || kind >= 14 ? r == 0 : (r != 0 && r != EINVAL)) fail("misuse-accepted", "%s returned %s", opdesc(f).c_str(), ename(r)); }
	call_end();
}
static bool cond_op(Fiber* f) { if(!f->tp || f->pc >= (int)f->tp->ops.size()) return false; int k = f->tp->ops[f->pc].k; return H.ts[f->idx].inop && (k == OP_CWAIT || k == OP_CTIMED) && !f->tp->ops[f->pc].v[3]; }
// All other live threads are finished, waiting for everybody, or inside a condition wait.
static bool quiet_pred(Fiber* me)
{
	for(int i = 0; i < nprocs; i++) { if(procs[i].st == PS_ZOMBIE) return false; if(procs[i].st == PS_NONE && procs[i].pp->start == 0) return false; }
	for(int i = 0; i < nfibs; i++) { Fiber* f = &fibs[i]; if(f == me || f->appthr < 0 || f->st == FS_DONE || H.ts[i].inwaitall) continue; if(!cond_op(f)) { if(f->tp && f->pc < (int)f->tp->ops.size() && (f->tp->ops[f->pc].k == OP_JOINALL || (f->tp->ops[f->pc].k == OP_WAITFLAG && f->st == FS_BLOCK))) continue; return false; } }
	return true;
}
static void check_lost_signals()
{
	for(auto& w : H.waits) {
		if(!w.live || !w.cert) continue;
		if(H.ts[w.uid].waiter < 0 || !H.ts[w.uid].inop) continue;
		u64 first = ~0ull; int nsig = 0, nbc = 0;
		for(auto& s : H.sigs) if(s.space == w.space && s.c == w.c && s.inv > w.cert && s.ret != ~0ull) { if(s.bc) nbc++; else nsig++; if(s.inv < first) first = s.inv; }
		if(nbc) fail("broadcast-lost", "p%d.t%d still waits on condition %d although a broadcast was sent after it began to wait", w.proc, fibs[w.uid].appthr, w.c);
		if(!nsig) continue;
		int succ = 0, deadn = 0;
		for(auto& x : H.waits) if(x.live && x.space == w.space && x.c == w.c) { MM& m = H.mtx[{x.space, x.m}]; bool kept = m.owner >= 0; for(auto& y : m.acts) if(y.second.active && y.second.dead) kept = true; if(kept) succ++; } // it may have its signal and wait for its mutex, which somebody keeps
		for(auto& x : H.waits) { if(&x == &w || x.space != w.space || x.c != w.c) continue; if(x.success && x.ret > first) succ++; if(x.dead && (!H.gone_seen[x.proc] || H.gone_ev[x.proc] > first || (procs[x.proc].st == PS_RUN))) deadn++; }
		if(nsig > succ + deadn) fail("signal-lost", "p%d.t%d still waits on condition %d: %d signals were sent while it was waiting, but only %d waits returned success", w.proc, fibs[w.uid].appthr, w.c, nsig, succ);
	}
}
static void op_quiesce()
{
	T().inwaitall = true;
	for(;;) {
		block_until(quiet_pred);
		u64 n0 = 0; for(int i = 0; i < nfibs; i++) if(fibs[i].appthr >= 0 && &fibs[i] != cur && fibs[i].st != FS_DONE && cond_op(&fibs[i])) H.ts[i].wait_steps = fibs[i].steps;
		u64 ev0 = H.ev; bool ok = true; (void)n0;
		for(;;) {
			sleep_ns(200000); if(H.ev != ev0 || !quiet_pred(cur)) { ok = false; break; }
			bool all = true; for(int i = 0; i < nfibs; i++) if(fibs[i].appthr >= 0 && &fibs[i] != cur && fibs[i].st != FS_DONE && cond_op(&fibs[i]) && fibs[i].steps < H.ts[i].wait_steps + 3000) all = false;
			if(all) break;
		}
		if(!ok) continue;
		bool timed = false; for(auto& w : H.waits) if(w.live && w.timed && !H.ts[w.uid].inwaitall) timed = true;
		for(int i = 0; i < nprocs; i++) if(procs[i].killed && procs[i].st == PS_GONE && now_ns() < procs[i].gone_time + 16000000ull + 40 * P->yq) timed = true; // the workers look again every 10 ms
		if(timed) { sleep_ns(1000000); continue; }
		break;
	}
	T().inwaitall = false; check_lost_signals();
	// the workers have looked at the waiters of processes which have disappeared (clean: killed inside the wait, not while their unit was between two lists)
	if(cur->proc->pp->robust > 0 && attached(cur->proc)) for(auto& w : H.waits) if(w.dead && w.clean && w.space == cur->proc->curspace && procs[w.proc].st == PS_GONE) w.freed = true;
}
static bool waits_ahead(Fiber* f) { if(!f->tp || f->pc < 0) return false; for(size_t i = (size_t)f->pc; i < f->tp->ops.size(); i++) if(f->tp->ops[i].k == OP_CWAIT) return true; return false; }
static void op_flush()
{
	for(int g = 0; g < 1000; g++) {
		std::set<int> cs; for(auto& w : H.waits) if(w.live && w.space == cur->proc->curspace) cs.insert(w.c);
		if(cs.empty()) { bool any = false; for(int i = 0; i < nfibs; i++) if(fibs[i].appthr >= 0 && &fibs[i] != cur && fibs[i].st != FS_DONE && (cond_op(&fibs[i]) || waits_ahead(&fibs[i]))) any = true; if(!any) return; }
		for(int c : cs) op_csig(c, true);
		sleep_ns(3000000);
	}
}

// ---- recursive lock objects
static void rcsv_derive(int fdref_unused, const RKey& k, const Range& r)
{
	(void)fdref_unused; TS& t = T(); bool any = false, w = false; int fd = -1;
	for(auto& o : t.ob) if(o.p && o.locked && key_def(o.key, k) && range_ov(o.r, r)) { any = true; fd = o.fd; if(o.wr) w = true; }
	int hi = -1; for(size_t i = 0; i < H.holds.size(); i++) if(H.holds[i].derived && H.holds[i].uid == fuid() && key_def(H.holds[i].key, k) && range_ov(H.holds[i].r, r)) hi = (int)i;
	if(!any) { if(hi >= 0) H.holds.erase(H.holds.begin() + hi); return; }
	if(hi < 0) { H.holds.push_back(Hold{++H.holdid, fuid(), cur->proc->idx, fd, k, r, w, H.ev, -1, false, true}); H.holds.back().stk = w; return; }
	H.holds[hi].wr = w; if(w) H.holds[hi].stk = true;
}
static int rcsv_act(const RKey& k, const Range& r) { for(size_t i = 0; i < H.acts.size(); i++) { Act& a = H.acts[i]; if(a.used && a.uid == fuid() && a.e == ~0ull && !a.dead && a.fd == -77 && key_def(a.key, k) && range_ov(a.r, r)) return (int)i; } return -1; }
static void rcsv_check(const RKey& k, const Range& r, bool wr)
{
	for(auto& h : H.holds) if(h.uid != fuid() && !h.suspended && key_def(h.key, k) && range_ov(h.r, r) && (wr || h.wr))
		fail("rcsv-exclusion", "%s: locked while p%d.t%d holds a %s lock on the range", opdesc(cur).c_str(), h.proc, fibs[h.uid].appthr, h.wr ? "write" : "read");
}
static void op_rcsv(int kind, Op& o)
{
	Fiber* f = cur; Proc* p = f->proc; TS& t = T(); int s = o.v[0] & 7; Rcsv& ob = t.ob[s]; Api& a = p->img->api;
	if(kind == OP_RCSVNEW) {
		if(ob.p) return; if(o.v[1] < 100 && H.slotfd[p->idx][o.v[1]] < 0) return;
		RKey k; int fd = fd_of(o.v[1], k, p); Range r{geo_off(o.v[2]), geo_len(o.v[3])}; int mode = o.v[4];
		call_begin(0); ob.key = k; ob.r = r; ob.fd = fd; ob.fdref = o.v[1]; ob.locked = false; ob.wr = false; ob.maybe = false; ob.last = mode < 0 ? -1 : mode == 0;
		if(mode < 0) { lib_in(); void* q = a.rcsv_new(fd, r.off, (size_t)r.len); lib_out(); ob.p = q; ++H.ev; call_end(); return; }
		bool wr = mode == 0; t.key = k; t.r = r; t.wr = wr; t.wtype = 2;
		H.files[k.space].insert({k.dev + k.nofd * 1000003, k.ino}); H.offs[k.space].insert({k.dev + k.nofd * 1000003, k.ino, (u64)r.off, r.len});
		int act = rcsv_act(k, r); if(act < 0) act = act_begin(fuid(), p->idx, -77, k, r, wr); else if(wr) H.acts[act].wr = true;
		bool had = false, hadw = false; for(auto& x : t.ob) if(x.p && x.locked && key_def(x.key, k) && range_ov(x.r, r)) { had = true; if(x.wr) hadw = true; }
		if(had && !hadw && wr) for(auto& h : H.holds) if(h.derived && h.uid == fuid() && key_def(h.key, k) && range_ov(h.r, r)) h.suspended = true;
		lib_in(); void* q = a.rcsv_newl(fd, r.off, (size_t)r.len, mode); lib_out(); ob.p = q; ++H.ev; tracef("%s", opdesc(f).c_str());
		for(auto& h : H.holds) if(h.derived && h.uid == fuid()) h.suspended = false;
		if(!t.att0 && !attached(p)) { call_end(); return; }
		{ // the constructor cannot say that its lock failed: where it may have failed, what the thread's objects hold is open
			std::string why; if((!had || (wr && !hadw)) && enolck_ok(k, r, t.inv, act, why)) { for(auto& x : t.ob) if(x.p && (x.locked || &x == &ob) && key_def(x.key, k) && range_ov(x.r, r)) { x.locked = x.wr = false; x.maybe = t.unsure = true; } rcsv_derive(0, k, r); call_end(); return; } }
		ob.last = wr; ob.locked = true; ob.wr = wr; ob.maybe = false; rcsv_check(k, r, wr || hadw); act_clear_dead(k, r, wr); rcsv_derive(0, k, r); call_end(); return;
	}
	if(!ob.p) return;
	RKey k = ob.key; Range r = ob.r;
	if(kind == OP_RCSVLOCK) {
		int mode = o.v[1]; bool lastm = mode == 4, move = mode == 7 || mode == 8, again = mode >= 5; int oldact = -1; RKey k0 = k; Range r0 = r;
		if(lastm && ob.last < 0) return; // it was never given a type
		bool wr = mode == 0 || mode == 2 || mode == 6 || mode == 8; if(lastm) wr = ob.last == 1 && !t.unsure;
		if(move) { // Lock(fd, ...) with another range or descriptor: the object leaves its old range first
			if(o.v[2] < 100 && H.slotfd[p->idx][o.v[2]] < 0) return;
			RKey nk; int nfd = fd_of(o.v[2], nk, p); Range nr{geo_off(o.v[3]), geo_len(o.v[4])}; if(key_def(nk, k) && (range_ov(nr, r) || nr.off == r.off)) return;
			bool was = ob.locked; ob.locked = ob.wr = ob.maybe = false; if(was) rcsv_derive(0, k0, r0); oldact = rcsv_act(k0, r0);
			ob.key = k = nk; ob.r = r = nr; ob.fd = nfd; ob.fdref = o.v[2];
		}
		call_begin(0); t.key = k; t.r = r; t.wr = wr || lastm; t.wtype = 2;
		H.files[k.space].insert({k.dev + k.nofd * 1000003, k.ino}); H.offs[k.space].insert({k.dev + k.nofd * 1000003, k.ino, (u64)r.off, r.len});
		bool otherw = false, other = false; for(auto& x : t.ob) if(&x != &ob && x.p && x.locked && key_def(x.key, k) && range_ov(x.r, r)) { other = true; if(x.wr) otherw = true; }
		bool selfw = ob.locked && ob.wr, self = ob.locked;
		int act = rcsv_act(k, r); if(act < 0) act = act_begin(fuid(), p->idx, -77, k, r, wr || lastm); else if(wr || lastm) H.acts[act].wr = true;
		// raising from read to write gives the range up inside the call; lowering from write to read too
		bool raising = wr && (self || other) && !selfw && !otherw; bool lowering = !wr && selfw && !other; if(again && self && (!other || (wr && !otherw))) raising = true; if(lastm) raising = true; // Lock(fd, ...) unlocks the object first
		// a range that was locked for writing by any of the thread's objects stays so until the last one lets go or is switched to reading
		for(auto& h : H.holds) if(h.derived && h.uid == fuid() && key_def(h.key, k) && range_ov(h.r, r) && h.stk && !wr && self && !other) lowering = true;
		if(t.unsure) { if(wr) raising = true; else lowering = true; } // it may be write-locked although the last call told us nothing of it
		if(raising || lowering) for(auto& h : H.holds) if(h.derived && h.uid == fuid() && key_def(h.key, k) && range_ov(h.r, r)) h.suspended = true;
		int mm = mode; void* q = ob.p; int fdd = ob.fd; int res = LIB(mm == 5 || mm == 7 ? a.rcsv_relock(q, fdd, r.off, r.len, 1) : mm == 6 || mm == 8 ? a.rcsv_relock(q, fdd, r.off, r.len, 0) : a.rcsv_lock(q, mm)); ++H.ev; tracef("%s = %d", opdesc(f).c_str(), res);
		for(auto& h : H.holds) if(h.derived && h.uid == fuid()) h.suspended = false;
		if(!lastm) ob.last = wr;
		if(oldact >= 0) { bool anyo = false; for(auto& x : t.ob) if(x.p && (x.locked || x.maybe) && key_def(x.key, k0) && range_ov(x.r, r0)) anyo = true; if(!anyo) act_end(oldact); }
		if(!t.att0 && !attached(p)) { call_end(); return; }
		if(res && lowering && !lastm) for(auto& h : H.holds) if(h.derived && h.uid == fuid() && key_def(h.key, k) && range_ov(h.r, r)) h.stk = false;
		if(res) { ob.locked = true; ob.wr = wr; ob.maybe = false; if(raising || lowering || (!self && !other)) rcsv_check(k, r, wr); act_clear_dead(k, r, wr); rcsv_derive(0, k, r); rs.probes[14]++;
			if(lastm) for(auto& h : H.holds) if(h.derived && h.uid == fuid() && key_def(h.key, k) && range_ov(h.r, r)) h.stk = true; } // an object which took over a write lock once keeps that type for Lock()
		else {
			std::string why; bool okn = enolck_ok(k, r, t.inv, act, why);
			if(!okn) fail("rcsv-result", "%s failed although nothing was exhausted (%s)", opdesc(f).c_str(), why.c_str());
			// what the objects of the thread still hold after a failure is decided by the library: they may or may not be locked from here on
			for(auto& x : t.ob) if(x.p && (x.locked || &x == &ob) && key_def(x.key, k) && range_ov(x.r, r)) { x.locked = x.wr = false; x.maybe = t.unsure = true; } rcsv_derive(0, k, r); rs.probes[15]++;
		}
		call_end(); return;
	}
	// unlock / delete
	if(kind == OP_RCSVUNLOCK && !ob.locked && !ob.maybe) return;
	call_begin(0); bool was = ob.locked, maybe = ob.maybe; ob.locked = false; ob.wr = false; ob.maybe = false; if(was) rcsv_derive(0, k, r);
	int act = rcsv_act(k, r); void* q = ob.p; int res = 1;
	if(kind == OP_RCSVUNLOCK) res = LIB(a.rcsv_unlock(q)); else { lib_in(); a.rcsv_del(q); lib_out(); ob.p = nullptr; }
	++H.ev; tracef("%s = %d", opdesc(f).c_str(), res);
	if(!t.att0 && !attached(p)) { call_end(); return; }
	if(!res && !maybe) fail("unlock-failed", "%s failed", opdesc(f).c_str());
	bool any = false; for(auto& x : t.ob) if(x.p && (x.locked || x.maybe) && key_def(x.key, k) && range_ov(x.r, r)) any = true;
	if(!any && act >= 0) act_end(act);
	{ bool none = true; for(auto& x : t.ob) if(x.p && (x.locked || x.maybe)) none = false; if(none) t.unsure = false; }
	call_end();
}

// ---- processes, files, control
static void drop_fd_holds(Proc* p, int fd)
{
	++H.ev; for(size_t i = 0; i < H.holds.size();) if(H.holds[i].proc == p->idx && H.holds[i].fd == fd && !H.holds[i].key.nofd) { if(H.holds[i].act >= 0) H.acts[H.holds[i].act].dead = true; H.holds.erase(H.holds.begin() + i); rs.probes[16]++; } else i++;
}
static int lib_threads(Proc* p) { int n = 0; for(int i = 0; i < nfibs; i++) if(fibs[i].proc == p && fibs[i].appthr < 0 && fibs[i].st != FS_DONE) n++; return n; }
static int open_fds(Proc* p) { int n = 0; for(int i = 0; i < MAXFD; i++) if(p->fd[i] >= 0) n++; return n; }
static int maps_count(Proc* p);
static void release_all()
{
	Fiber* f = cur; TS& t = T();
	for(int i = 0; i < 8; i++) if(t.ob[i].p) { Op o{OP_RCSVDEL, {i}}; op_rcsv(OP_RCSVDEL, o); }
	for(bool again = true; again;) { again = false; for(auto& x : H.mtx) if(x.second.owner == fuid() && x.first.first == f->proc->curspace) { op_munlock(x.first.second, 0); again = true; break; } }
	for(bool again = true; again;) { again = false; for(auto& h : H.holds) if(h.uid == fuid() && h.key.space == f->proc->curspace) {
		Hold hh = h; call_begin(0); int act = hh.act; bool fnd = false; for(size_t i = 0; i < H.holds.size(); i++) if(H.holds[i].id == hh.id) { H.holds.erase(H.holds.begin() + i); fnd = true; break; }
		if(!fnd) { call_end(); again = true; break; }
		int r = LIB(f->proc->img->api.rwunlock(hh.fd, hh.r.off, hh.r.len)); ++H.ev; if(r) fail("unlock-failed", "release of p%d.t%d fd %d [%lld,+%llu) returned %s", f->proc->idx, f->appthr, hh.fd, (long long)hh.r.off, (unsigned long long)hh.r.len, ename(r)); act_end(act); call_end(); again = true; break; } }
}
static bool waitall_pred(Fiber* me)
{
	for(int i = 0; i < nprocs; i++) { if(procs[i].st == PS_ZOMBIE) return false; if(procs[i].st == PS_NONE && procs[i].pp->start == 0) return false; }
	for(int i = 0; i < nfibs; i++) { Fiber* f = &fibs[i]; if(f == me || f->appthr < 0 || f->st == FS_DONE || H.ts[i].inwaitall) continue; return false; }
	return true;
}
// A program that leaves main() while its threads are still inside the library has undefined behaviour, so main always joins.
static void join_all() { block_until([](Fiber* x) { for(int i = 0; i < nfibs; i++) if(fibs[i].proc == x->proc && &fibs[i] != x && fibs[i].appthr >= 0 && fibs[i].st != FS_DONE) return false; return true; }); }
// Calls of a process whose threads use the library while one of them attaches: whether a call was made before or after the attaching is not visible from
// outside, so only its result is judged. Such a process uses resources of its own.
static bool op_loose(Op& o)
{
	Fiber* f = cur; Proc* p = f->proc; Api& a = p->img->api; int r = 0; std::string n1 = name_of(o.v[0]), c1 = name_of(20 + o.v[0]), m1 = name_of(o.v[1]);
	RKey k; int fd = -1; if(o.k >= OP_RD && o.k <= OP_WRTIMED) { if(o.v[0] < 100 && H.slotfd[p->idx][o.v[0]] < 0) return true; fd = fd_of(o.v[0], k, p); } if(o.k == OP_RWUNLOCK || o.k == OP_ISLOCKED) { if(o.v[0] < 100 && H.slotfd[p->idx][o.v[0]] < 0) return true; fd = fd_of(o.v[0], k, p); }
	call_begin(0); bool wr = o.k == OP_WR || o.k == OP_WRTRY || o.k == OP_WRTIMED; int w = wr ? 2 : 1; const char *n = n1.c_str(), *c = c1.c_str(), *m = m1.c_str();
	switch(o.k) {
	case OP_MLOCK: r = LIB(a.mlock(n)); break; case OP_MTRY: r = LIB(a.mtry(n)); break; case OP_MTIMED: r = LIB(a.mtimed(n, (time_t)o.v[1])); break; case OP_MUNLOCK: r = LIB(a.munlock(n)); break;
	case OP_RD: case OP_WR: r = LIB(a.rw[w](fd, geo_off(o.v[1]), (size_t)geo_len(o.v[2]))); break; case OP_RDTRY: case OP_WRTRY: r = LIB(a.rwtry[w](fd, geo_off(o.v[1]), (size_t)geo_len(o.v[2]))); break; case OP_RDTIMED: case OP_WRTIMED: r = LIB(a.rwtimed[w](fd, geo_off(o.v[1]), (size_t)geo_len(o.v[2]), (time_t)o.v[3])); break;
	case OP_RWUNLOCK: r = LIB(a.rwunlock(fd, geo_off(o.v[1]), (size_t)geo_len(o.v[2]))); break; case OP_ISLOCKED: (void)LIB(a.islocked(fd, geo_off(o.v[1]), (size_t)geo_len(o.v[2]))); break;
	case OP_CTIMED: r = LIB(a.ctimed(c, m, (time_t)o.v[2])); break; case OP_CSIG: r = LIB(a.csig(c)); break; case OP_CBC: r = LIB(a.cbc(c)); break;
	default: call_end(); return false;
	}
	++H.ev; tracef("%s = %s (loose)", opdesc(f).c_str(), ename(r));
	if(r != 0 && r != ENOLCK && r != EBUSY && r != ETIMEDOUT && r != EINVAL && r != EPERM) fail("nomap-result", "%s returned %s", opdesc(f).c_str(), ename(r));
	call_end(); return true;
}
static void exec_op(Op& o)
{
	Fiber* f = cur; Proc* p = f->proc; TS& t = T();
	if((P->flags >> (16 + p->idx)) & 1) { if(op_loose(o)) return; }
	switch(o.k) {
	case OP_NOP: break;
	case OP_INIT: { call_begin(0); const char* nm = "keeper"; if(o.v[0]) { Api& a = p->img->api; lib_in(); a.islocked(-1, 0, 1); lib_out(); (void)nm; } else { lib_in(); p->img->api.islocked((int)(0x80000000u | 99), 1 << 20, 1); lib_out(); } ++H.ev; call_end();
		if(!attached(p) && !p->syserr_fired && p->pp->autoinit && !(P->flags & 32)) fail("attach-fail", "p%d is not attached although no system call failed for it", p->idx); break; }
	case OP_MLOCK: case OP_MTRY: op_mutex(o.k, o.v[0], 0); break;
	case OP_MTIMED: op_mutex(o.k, o.v[0], o.v[1]); break;
	case OP_MUNLOCK: op_munlock(o.v[0], o.v[1]); break;
	case OP_RD: case OP_RDTRY: case OP_RDTIMED: case OP_WR: case OP_WRTRY: case OP_WRTIMED: op_rw(o.k, o.v[0], geo_off(o.v[1]), geo_len(o.v[2]), o.v[3]); break;
	case OP_RWUNLOCK: op_rwunlock(o.v[0], geo_off(o.v[1]), geo_len(o.v[2]), o.v[3]); break;
	case OP_ISLOCKED: op_islocked(o.v[0], geo_off(o.v[1]), geo_len(o.v[2])); break;
	case OP_OPEN: {
		step_yield(); if(H.slotfd[p->idx][o.v[0]] >= 0) break; char b[64]; int fd = k_open(p, path_of_file(o.v[1], b), o.v[2] ? O_RDONLY : O_RDWR, 0); if(fd < 0) { fail("sim", "cannot open"); }
		H.slotfd[p->idx][o.v[0]] = fd; H.slotfile[p->idx][o.v[0]] = o.v[1]; p->fds_harness.push_back(fd); tracef("open slot %d file %d = fd %d", o.v[0], o.v[1], fd); break; }
	case OP_CHDIR: { extern void k_chdir(Proc*, const char*); step_yield(); k_chdir(p, o.v[0] ? "/data" : "/tmp"); break; }
	case OP_DUP: { step_yield(); if(H.slotfd[p->idx][o.v[1]] >= 0 || H.slotfd[p->idx][o.v[0]] < 0) break; int fd = k_dup(p, H.slotfd[p->idx][o.v[0]]); H.slotfd[p->idx][o.v[1]] = fd; H.slotfile[p->idx][o.v[1]] = H.slotfile[p->idx][o.v[0]]; p->fds_harness.push_back(fd); break; }
	case OP_CLOSE: { step_yield(); int fd = H.slotfd[p->idx][o.v[0]]; if(fd < 0) break; tracef("close slot %d fd %d", o.v[0], fd); drop_fd_holds(p, fd); H.slotfd[p->idx][o.v[0]] = -1; k_close(p, fd); for(size_t i = 0; i < p->fds_harness.size(); i++) if(p->fds_harness[i] == fd) { p->fds_harness.erase(p->fds_harness.begin() + i); break; } break; }
	case OP_BADCALL: op_badcall(o.v[0], o.v[1]); break;
	case OP_CWAIT: op_cwait(o.v[0], o.v[1], 0, false, o.v[3]); break;
	case OP_CTIMED: op_cwait(o.v[0], o.v[1], o.v[2], true, o.v[3]); break;
	case OP_CSIG: op_csig(o.v[0], false); break;
	case OP_CBC: op_csig(o.v[0], true); break;
	case OP_CS: for(int i = 0; i < o.v[0]; i++) step_yield(); break;
	case OP_SLEEP: step_yield(); sleep_ns((u64)o.v[0] * 1000); break;
	case OP_TEXIT: step_yield(); tracef("thread exits"); thread_exit(nullptr);
	case OP_PEXIT: step_yield(); join_all(); proc_exit_normal(); break;
	case OP_SPAWN: step_yield(); k_spawn_thread(p, o.v[0]); break;
	case OP_FORK: {
		step_yield(); if(procs[o.v[0]].st != PS_NONE) break;
		size_t nc = p->atfork_child.size(), np = p->atfork_parent.size(); // like glibc: handlers set from here on do not run for this fork
		for(size_t i = p->atfork_prepare.size(); i-- > 0;) { lib_in(); p->atfork_prepare[i](); lib_out(); }
		p->forkrun = nc; if(!proc_start(o.v[0], p)) fail("sim", "fork failed");
		for(size_t i = 0; i < np; i++) { lib_in(); p->atfork_parent[i](); lib_out(); }
		break; }
	case OP_STARTP: step_yield(); if(procs[o.v[0]].st == PS_NONE) proc_start(o.v[0], nullptr); break;
	case OP_KILLP: { step_yield(); Proc* q = &procs[o.v[0]]; if(q != p && q->st == PS_RUN) { rs.faults_kill++; proc_kill(q, o.v[1]); } break; }
	case OP_REINIT: if(o.v[2]) { // parameters which are to be refused: nothing changes then, not even the locks held
		call_begin(0); char d[64]; snprintf(d, sizeof d, "/tmp/fl/s%d", o.v[0]); size_t c[6] = {0, 0, 0, 0, 0, 0}; int k = o.v[2]; if(k >= 2) c[(k - 2) % 6] = k >= 8 ? (size_t)1 << 40 : 3; bool was = attached(p); int s0 = proc_space_mapped(p), m0 = maps_count(p);
		bool r = k == 1 ? LIB(p->img->api.reinit(d, "x/fl.shm")) : LIB(p->img->api.reinit_ex(d, "fl.shm", c[0], c[1], c[2], c[3], c[4], c[5]));
		++H.ev; tracef("%s = %d", opdesc(f).c_str(), r); if(r) fail("reinit-accepted", "%s accepted wrong parameters", opdesc(f).c_str());
		if(attached(p) != was || proc_space_mapped(p) != s0 || maps_count(p) != m0) fail("reinit-refused", "%s was refused but changed what p%d is attached to", opdesc(f).c_str(), p->idx);
		call_end(); break;
		} else if(P->flags & PF_PATHS) {
		int code = o.v[0]; release_all(); call_begin(0); std::string d = dir_spelling(code), ff = file_spelling(code); int want = space_id(expected_path(p, code)); bool bad = code / 100 % 10 && code % 10 == 7; bool was = attached(p); int old = p->curspace;
		p->syserr_fired = false; p->curspace = want; if(!H.capprof.count(want)) H.capprof[want] = p->pp->caps; if(H.mode_fu[p->idx] == 0) H.freeno[want] = true; if(H.mode_fu[p->idx] != 1) H.filecum[want] = true;
		bool r = LIB(p->img->api.reinit(code / 100 % 10 ? d.c_str() : nullptr, code / 10 % 10 ? ff.c_str() : nullptr));
		++H.ev; tracef("%s = %d", opdesc(f).c_str(), r); rs.reinit++;
		if(bad && r) fail("wrong-file", "%s accepted a directory above the root", opdesc(f).c_str());
		if(!bad && !r && !p->syserr_fired) fail("reinit-fail", "%s failed although no system call failed", opdesc(f).c_str());
		if(r && !attached(p)) fail("reinit-fail", "%s returned true but there is no mapping", opdesc(f).c_str());
		if(!r && attached(p)) { if(!was) fail("leak", "after a failed re-initialisation p%d has a mapping", p->idx); p->curspace = old; }
		if(r && maps_count(p) != 1) fail("leak", "after re-initialisation p%d has %d mappings", p->idx, maps_count(p));
		if(bad) p->syserr_fired = true;
		call_end(); break;
		} else {
		release_all(); call_begin(0); char d[64]; snprintf(d, sizeof d, "/tmp/fl/s%d", o.v[0]); int cp = o.v[1]; Caps c = caps_of(capcode(p->pp->caps, cp)); if(cp >= 100) { int m = (cp - 100) / 16; if(!(m & 1)) c.file = 0; if(!(m & 2)) c.off = 0; if(!(m & 4)) c.locker = 0; if(!(m & 8)) c.nmtx = 0; if(!(m & 16)) c.ncond = 0; if(!(m & 32)) c.waiter = 0; } const char* dd = d; const char* ff = "fl.shm"; bool r;
		int lt = lib_threads(p); int lf = open_fds(p) - (int)p->fds_harness.size(); (void)lt;
		p->curspace = o.v[0]; if(!H.capprof.count(o.v[0])) H.capprof[o.v[0]] = capcode(p->pp->caps, cp);
		if(H.mode_fu[p->idx] == 0) H.freeno[o.v[0]] = true; if(H.mode_fu[p->idx] != 1) H.filecum[o.v[0]] = true;
		if(cp < 0) r = LIB(p->img->api.reinit(dd, ff)); else r = LIB(p->img->api.reinit_ex(dd, ff, c.file, c.off, c.locker, c.nmtx, c.ncond, c.waiter));
		++H.ev; tracef("%s = %d", opdesc(f).c_str(), r); rs.reinit++;
		if(!r && !p->syserr_fired) fail("reinit-fail", "%s failed although no system call failed", opdesc(f).c_str());
		int m = maps_count(p); if(r && m != 1) fail("leak", "after re-initialisation p%d has %d mappings", p->idx, m); if(!r && m) fail("leak", "after a failed re-initialisation p%d has %d mappings", p->idx, m);
		if(lib_threads(p) > 1) fail("leak", "after re-initialisation p%d runs %d workers", p->idx, lib_threads(p));
		int nf = open_fds(p) - (int)p->fds_harness.size(); if(r && lf > 0 && nf > (lf > 3 ? lf : 3)) fail("leak", "re-initialisation of p%d leaks descriptors: %d before, %d after", p->idx, lf, nf); if(!r && nf > 0 && !p->syserr_fired) fail("leak", "after a failed re-initialisation p%d has %d descriptors open", p->idx, nf);
		if(r) p->syserr_fired = false;
		call_end(); break; }
	case OP_SETMODE: { step_yield(); Api& a = p->img->api; int v = o.v[1]; lib_in(); if(o.v[0] == 0) a.set_robust[v](); else if(o.v[0] == 1) a.set_nomap[v](); else if(o.v[0] == 2) a.set_free[v](); else a.set_chk(v); lib_out();
		if(o.v[0] == 0) H.mode_rb[p->idx] = v; if(o.v[0] == 1) H.mode_nm[p->idx] = v; if(o.v[0] == 2) { H.mode_fu[p->idx] = v; if(v == 0) H.freeno[p->curspace] = true; if(v != 1) H.filecum[p->curspace] = true; } break; }
	case OP_RCSVNEW: case OP_RCSVLOCK: case OP_RCSVUNLOCK: case OP_RCSVDEL: op_rcsv(o.k, o); break;
	case OP_BARRIER: { step_yield(); int b = o.v[0] & 63; H.bar[b]++; f->pv[0] = (u64)b; f->pv[1] = (u64)o.v[1]; block_until([](Fiber* x) { return H.bar[x->pv[0]] + H.bardead >= (int)x->pv[1]; }); break; }
	case OP_SETFLAG: step_yield(); H.flags[o.v[0] & 63]++; break;
	case OP_WAITFLAG: { step_yield(); f->pv[0] = (u64)(o.v[0] & 63); f->pv[1] = (u64)(o.v[2] ? o.v[2] : 1); f->pv[2] = (u64)(i64)o.v[1]; block_until([](Fiber* x) { if(H.flags[x->pv[0]] >= (int)x->pv[1]) return true; int pr = (int)(i64)x->pv[2]; return pr >= 0 && pr < nprocs && procs[pr].st != PS_RUN && procs[pr].pid != 0; }); break; }
	case OP_WAITALL: t.inwaitall = true; block_until(waitall_pred); t.inwaitall = false; poll_gone(); break;
	case OP_WAITGONE: f->pv[0] = (u64)o.v[0]; block_until([](Fiber* x) { return procs[x->pv[0]].st == PS_GONE; }); poll_gone(); break;
	case OP_JOINALL: join_all(); break;
	case OP_QUIESCE: op_quiesce(); break;
	case OP_FLUSH: op_flush(); break;
	case OP_RELALL: release_all(); break;
	case OP_CHECKEND: {
		step_yield(); poll_gone();
		if((o.v[0] & 1) && !attached(p)) fail("attach-fail", "p%d is not attached", p->idx);
		if((o.v[0] & 2) && attached(p)) fail("nomap-attached", "p%d is attached although its start-up failed", p->idx);
		if((o.v[0] & 4) || ((o.v[0] & 8) && !attached(p))) { int n = open_fds(p) - (int)p->fds_harness.size(); if(maps_count(p) && !(p->syserr_mask & (1u << 15))) fail("leak", "p%d keeps a mapping after a failed start-up", p->idx); if(n > 0) fail("leak", "p%d keeps %d descriptors open after a failed start-up", p->idx, n); if(lib_threads(p)) fail("leak", "p%d runs a worker after a failed start-up", p->idx); }
		break; }
	default: break;
	}
}
static int maps_count(Proc* p) { extern int k_maps(Proc*); return k_maps(p); }
// The modes a process is meant to run with may come from the setter functions (called first) instead of the environment.
static void use_setters(Proc* p)
{
	int ev = p->pp->env; Api& a = p->img->api; if(!ev) return;
	auto call = [&](const char* what, bool want, std::function<bool()> fn) { lib_in(); bool r = fn(); lib_out(); if(r != want) fail("mode-setter", "p%d: the setter of the %s returned %s", p->idx, what, r ? "true" : "false"); };
	if((ev & 3) == 3 && p->pp->robust >= 0) call("robust mode", true, [&] { return a.set_robust[p->pp->robust](); });
	if((ev >> 2 & 3) == 3) call("nomap mode", true, [&] { return a.set_nomap[p->pp->nomap](); });
	if((ev >> 4 & 3) == 3) call("free mode", true, [&] { return a.set_free[p->pp->freeu](); });
	if(ev >> 8 & 1) { bool high = (ev & 3) != 3 || p->pp->robust < 0 || p->pp->robust == 2; call("check count", high && p->pp->chkcnt >= 50, [&] { return a.set_chk(p->pp->chkcnt); }); }
}
void* app_thread_main(void*)
{
	Fiber* f = cur; Proc* p = f->proc; TS& t = T();
	if(p->forked && f->appthr == 0) { auto h = p->atfork_child; for(size_t i = 0; i < h.size() && i < p->forkrun; i++) { f->inlib = true; h[i](); f->inlib = false; } }
	if(f->appthr == 0 && !p->forked) use_setters(p);
	if(f->appthr == 0) {
		std::set<int> man; for(auto& th : p->pp->thr) for(auto& o : th.ops) if(o.k == OP_SPAWN) man.insert(o.v[0]);
		for(int i = 1; i < (int)p->pp->thr.size(); i++) if(!man.count(i)) { step_yield(); if(!k_spawn_thread(p, i)) fail("sim", "too many threads"); }
	}
	for(f->pc = 0; f->pc < (int)f->tp->ops.size(); f->pc++) { f->opactive = true; arm_faults(f); exec_op(f->tp->ops[f->pc]); f->opactive = false; if(f->kill_at != ~0ull && !f->proc->killed) { bool mine = false; for(auto& x : P->faults) if(x.kind == F_KILL && x.proc == p->idx && x.thr == f->appthr && x.op == f->pc) mine = true; (void)mine; } }
	if(f->appthr == 0) join_all();
	(void)t; return nullptr;
}
void harness_end()
{
	for(int i = 0; i < nprocs; i++) { Proc* p = &procs[i]; if(!p->pid || !p->exited_normally) continue;
		if(p->nexit_maps && !(p->syserr_mask & (1u << 15))) { fail("leak", "p%d had %d mappings left when it exited", i, p->nexit_maps); return; }
		if(p->nexit_fds > (int)p->fds_harness.size() + p->forkslack) { fail("leak", "p%d had %d library descriptors left when it exited", i, p->nexit_fds - (int)p->fds_harness.size()); return; }
		if(p->nthreads_created) { fail("leak", "p%d had %d library threads running when it exited", i, p->nthreads_created); return; }
	}
}
