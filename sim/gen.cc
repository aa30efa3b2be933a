// Seeded generators: one family of programs (and fault plans) per property.
#include "sim.h"
#include <string.h>
#include <errno.h>
#include <algorithm>

static Op O(int k, int a = 0, int b = 0, int c = 0, int d = 0, int e = 0, int f = 0) { Op o; o.k = k; o.v[0] = a; o.v[1] = b; o.v[2] = c; o.v[3] = d; o.v[4] = e; o.v[5] = f; return o; }
enum { S_OPEN, S_FCNTL, S_FTRUNC, S_PWRITE, S_MMAP, S_PTCREATE, S_EPCREATE, S_INOTIFY, S_ADDWATCH, S_EPCTL, S_MKDIR, S_STAT, S_FSTAT, S_READ, S_CLOSE, S_MUNMAP, S_PREAD, S_CLOCK, S_NANOSLEEP, S_EPWAIT };
typedef std::vector<Op> Ops;
// A lockable thing. Resources of one group may conflict with each other; groups are acquired in ascending order.
struct Res { bool mtx; int name; int ref, off, len; int group; };
struct Gen {
	Rng r; Program p; int tier;
	Gen(const std::string& prop, u64 seed, int t) : r(seed * 0x9E3779B1u + 77), tier(t)
	{
		p.prop = prop; p.kseed = r.next() % 1000000007; p.sseed = r.next() % 1000000007;
		p.t0 = (1000 + r.below(100000)) * 1000000000ull + (r.chance(1, 3) ? 999000000ull + r.below(1000000) : r.below(1000000000));
		static const int yq[] = {200, 1000, 2000, 10000}; p.yq = yq[r.below(4)];
		p.pol = (int)r.below(4); p.quantum = 3 + (int)r.below(r.chance(1, 2) ? 20 : 100); p.s1 = 40000 + r.below(60000);
	}
	int pick(std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
	int rnd(int a, int b) { return (int)r.range(a, b); }
	bool ch(int n, int d) { return r.chance(n, d); }
	ProcProg& proc(int robust = 2, int freeu = 1) { ProcProg q; q.robust = robust; q.freeu = freeu; q.chkcnt = pick({50, 50, 64, 300, 5}); p.procs.push_back(q); return p.procs.back(); }
	int steps() { int s = 1; int bits = rnd(0, 10); for(int i = 0; i < bits; i++) s *= 2; return rnd(0, s); }   // log-uniform 0..1024
	int delay() { return ch(1, 2) ? 0 : rnd(0, 3000); }
	void fault(int kind, int proc, int thr, int op, int step, int a = 0, int b = 0) { Fault f; memset(&f, 0, sizeof f); f.kind = kind; f.proc = proc; f.thr = thr; f.op = op; f.step = step; f.a = a; f.b = b; p.faults.push_back(f); }
	int reap() { return ch(1, 2) ? 0 : rnd(1, 800); }
	// kill one of the processes [lo, hi) at a random point, mostly inside a lock call
	void kill_some(int lo, int hi, int n = 1)
	{
		for(int i = 0; i < n; i++) {
			int pi = rnd(lo, hi - 1); ProcProg& q = p.procs[pi]; if(q.thr.empty()) continue; int t = rnd(0, (int)q.thr.size() - 1); Ops& o = q.thr[t].ops; if(o.empty()) continue;
			std::vector<int> c; for(size_t k = 0; k < o.size(); k++) if(o[k].k >= OP_MLOCK && o[k].k <= OP_RWUNLOCK) c.push_back((int)k); else if(o[k].k >= OP_CWAIT && o[k].k <= OP_CS) c.push_back((int)k); else if(o[k].k >= OP_RCSVNEW && o[k].k <= OP_RCSVDEL) c.push_back((int)k);
			if(c.empty()) continue; fault(F_KILL, pi, t, c[r.below(c.size())], steps(), reap());
		}
	}
	void stall_some(int lo, int hi, int n) { for(int i = 0; i < n; i++) { int pi = rnd(lo, hi - 1); ProcProg& q = p.procs[pi]; if(q.thr.empty()) continue; int t = rnd(0, (int)q.thr.size() - 1); int no = (int)q.thr[t].ops.size(); if(no) fault(F_STALL, pi, t, rnd(0, no - 1), steps(), rnd(200, 8000)); } }
	// --- lock / unlock of one resource
	int usec() { return ch(1, 16) ? 0 : pick({1, 5, 20, 50, 200, 1000}); }
	Op acq(const Res& x, bool wr, int variant, int us = -1)
	{
		if(us < 0) us = usec();
		if(x.mtx) return variant == 0 ? O(OP_MLOCK, x.name) : variant == 1 ? O(OP_MTRY, x.name) : O(OP_MTIMED, x.name, us);
		int k = (wr ? OP_WR : OP_RD) + variant; return O(k, x.ref, x.off, x.len, variant == 2 ? us : 0);
	}
	Op rel(const Res& x) { return x.mtx ? O(OP_MUNLOCK, x.name) : O(OP_RWUNLOCK, x.ref, x.off, x.len); }
	int variant() { return ch(1, 2) ? 0 : rnd(1, 2); }
	// one critical section over 1..maxn groups, in order
	void section(Ops& o, const std::vector<Res>& rs, int maxn, int maxcs, bool recur)
	{
		std::vector<int> gs; for(auto& x : rs) if(std::find(gs.begin(), gs.end(), x.group) == gs.end()) gs.push_back(x.group);
		int n = rnd(1, std::min(maxn, (int)gs.size())); std::vector<int> use; while((int)use.size() < n) { int g = gs[r.below(gs.size())]; if(std::find(use.begin(), use.end(), g) == use.end()) use.push_back(g); } std::sort(use.begin(), use.end());
		Ops un; for(int g : use) {
			std::vector<Res> c; for(auto& x : rs) if(x.group == g) c.push_back(x); Res x = c[r.below(c.size())]; bool wr = ch(1, 2); int times = 1; if(x.mtx && recur && ch(1, 3)) times = rnd(2, 4); else if(!x.mtx && recur && !wr && ch(1, 6)) times = 2;
			for(int i = 0; i < times; i++) { o.push_back(acq(x, wr, variant())); un.push_back(rel(x)); if(ch(1, 4)) o.push_back(O(OP_CS, rnd(0, maxcs))); }
		}
		o.push_back(O(OP_CS, rnd(0, maxcs)));
		if(ch(2, 3)) std::reverse(un.begin(), un.end()); else for(size_t i = un.size(); i-- > 1;) std::swap(un[i], un[r.below(i + 1)]);
		for(auto& u : un) { o.push_back(u); if(ch(1, 8)) o.push_back(O(OP_CS, rnd(0, maxcs))); }
	}
	void end0(Ops& o) { o.push_back(O(OP_JOINALL)); }
	// opens of the descriptors the resources use
	void opens(Ops& o, const std::vector<Res>& rs, const std::map<int,int>& slotfile) { std::set<int> s; for(auto& x : rs) if(!x.mtx && x.ref < 100) s.insert(x.ref); for(int k : s) { auto it = slotfile.find(k); o.push_back(O(OP_OPEN, k, it == slotfile.end() ? 0 : it->second, ch(1, 4))); } }
	void audit(Ops& o, const std::vector<Res>& rs, bool isl = true)
	{
		for(auto& x : rs) { if(x.mtx) { o.push_back(acq(x, true, ch(1, 4) ? 1 : ch(1, 3) ? 2 : 0, 5000000)); o.push_back(rel(x)); } else { o.push_back(acq(x, true, ch(1, 3) ? 2 : 0, 5000000)); o.push_back(rel(x)); if(isl) o.push_back(O(OP_ISLOCKED, x.ref, x.off, x.len)); } }
	}
	void audit_block(Ops& o, const std::vector<Res>& rs) { for(auto& x : rs) { o.push_back(acq(x, true, 0)); o.push_back(rel(x)); if(!x.mtx) o.push_back(O(OP_ISLOCKED, x.ref, x.off, x.len)); } }
};
typedef std::vector<Res> RV; typedef std::map<int,int> SF;
static Res M(int name, int g) { return Res{true, name, 0, 0, 0, g}; }
static Res R(int ref, int off, int len, int g) { return Res{false, 0, ref, off, len, g}; }

// mutexes over several processes and threads, with crashes, exits and late starts
static void gen_mutex(Gen& g, bool crash, bool recur, bool foreign)
{
	Rng& r = g.r; int rb = crash ? g.rnd(1, 2) : g.rnd(0, 2); RV rs; int nn = g.rnd(1, 3); std::vector<int> nms = {0, 1, 2, 3, 4, 5}; for(int i = 0; i < nn; i++) { int k = (int)r.below(nms.size()); rs.push_back(M(nms[k], i)); nms.erase(nms.begin() + k); }
	int np = g.rnd(2, 4);
	{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); if(!crash) for(int i = g.rnd(0, 3); i > 0; i--) g.section(t.ops, rs, 2, 40, recur); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); g.end0(t.ops); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(crash ? (g.ch(3, 4) ? rb : g.rnd(1, 2)) : g.ch(3, 4) ? rb : g.rnd(0, 2)); q.delay = g.delay(); int nt = g.rnd(1, 3);
		for(int t = 0; t < nt; t++) { ThreadProg tp; int n = g.rnd(1, g.tier ? 8 : 5); for(int k = 0; k < n; k++) { g.section(tp.ops, rs, 2, 60, recur); if(foreign && g.ch(1, 2)) tp.ops.push_back(O(OP_MUNLOCK, rs[r.below(rs.size())].name, 1)); } if(t == 0) { if(g.ch(2, 3)) g.end0(tp.ops); } q.thr.push_back(tp); }
		if(q.thr[0].ops.empty() || q.thr[0].ops.back().k != OP_JOINALL) { bool safe = q.robust > 0 && (rb > 0); if(!safe) q.thr[0].ops.push_back(O(OP_JOINALL)); }
	}
	if(crash) g.kill_some(1, 1 + np, g.rnd(1, 2));
	g.stall_some(1, 1 + np, g.rnd(0, 2));
}
static void gen_C01(Gen& g) { g.p.scen = (int)g.r.below(2); gen_mutex(g, g.p.scen == 1, g.ch(1, 2), false); }
static void gen_C02(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(2);
	if(g.p.scen == 0) { gen_mutex(g, false, true, true); return; }
	// deep recursion by one thread against probes and foreign unlocks of others
	int nm = (int)r.below(6); int rb = g.rnd(0, 2); int depth = g.rnd(2, 12); bool samep = g.ch(1, 2);
	ThreadProg own; for(int rep = g.rnd(1, 2); rep > 0; rep--) { for(int i = 0; i < depth; i++) { own.ops.push_back(g.acq(M(nm, 0), true, i && g.ch(1, 2) ? g.rnd(1, 2) : 0)); if(g.ch(1, 3)) own.ops.push_back(O(OP_CS, g.rnd(0, 80))); if(i > 1 && g.ch(1, 6)) { own.ops.push_back(O(OP_MUNLOCK, nm)); own.ops.push_back(O(OP_MTRY, nm)); } } for(int i = 0; i < depth; i++) { own.ops.push_back(O(OP_MUNLOCK, nm)); if(g.ch(1, 3)) own.ops.push_back(O(OP_CS, g.rnd(0, 80))); } }
	own.ops.push_back(O(OP_MUNLOCK, nm, 1));
	ThreadProg pr; for(int i = g.rnd(3, 10); i > 0; i--) { switch(r.below(4)) { case 0: pr.ops.push_back(O(OP_MUNLOCK, nm, 1)); break; case 1: pr.ops.push_back(O(OP_MTRY, nm)); pr.ops.push_back(O(OP_CS, g.rnd(0, 30))); pr.ops.push_back(O(OP_MUNLOCK, nm)); break; case 2: pr.ops.push_back(O(OP_MTIMED, nm, g.usec())); pr.ops.push_back(O(OP_MUNLOCK, nm)); break; default: pr.ops.push_back(O(OP_CS, g.rnd(0, 100))); } }
	ProcProg& a = g.proc(rb); { ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, RV{M(nm, 0)}); a.thr.push_back(t); }
	ProcProg& b = g.proc(rb); { ThreadProg t = own; if(samep) { t.ops.push_back(O(OP_JOINALL)); b.thr.push_back(t); b.thr.push_back(pr); b.thr.push_back(pr); } else b.thr.push_back(t); }
	ProcProg& c = g.proc(rb); { ThreadProg t = pr; t.ops.push_back(O(OP_JOINALL)); c.thr.push_back(t); if(g.ch(1, 2)) c.thr.push_back(own); }
}
// ranges: groups of at most two distinct overlapping ranges
static void ranges(Gen& g, RV& rs, SF& sf, int n, bool overlap, bool nofd = true)
{
	int grp = 10;
	for(int i = 0; i < n; i++) {
		int kind = g.rnd(0, 3); int base = g.pick({0, 100, 1 << 20}) + i * 1000; int file = g.rnd(0, 1);
		if(kind == 0 && nofd && i == 0) { rs.push_back(R(100, g.pick({0, 7}), g.pick({1, 10}), grp)); grp++; continue; }
		int slot = file * 2 + g.rnd(0, 1); sf[file * 2] = file; sf[file * 2 + 1] = file; rs.push_back(R(slot, base, 100, grp)); if(g.ch(1, 2)) rs.push_back(R(slot ^ 1, base, 100, grp));
		if(overlap && n == 1 && g.ch(1, 4)) rs.push_back(R(slot ^ g.rnd(0, 1), base + g.rnd(0, 60), g.pick({-1, -1, -2, -3}), grp)); // to the end of the file
		else if(overlap) { switch(g.rnd(0, 3)) { case 0: rs.push_back(R(slot, base + 50, 100, grp)); break; case 1: rs.push_back(R(slot ^ 1, base + 99, 2, grp)); break; case 2: rs.push_back(R(slot, base + 20, 10, grp)); break; default: break; } if(g.ch(1, 2)) { grp++; rs.push_back(R(slot, base + 200, 50, grp)); } }
		else if(n == 1 && g.ch(1, 8)) { for(auto& x : rs) if(x.ref < 100) x.len = g.ch(1, 2) ? 0 : -1; }
		grp++;
	}
}
static void gen_rw(Gen& g, bool crash, bool overlap, int fu = -1)
{
	int rb = crash ? g.rnd(1, 2) : g.rnd(0, 2); if(fu < 0) fu = g.ch(1, 2) ? 1 : g.rnd(0, 2); RV rs; SF sf; ranges(g, rs, sf, g.rnd(1, 2), overlap); int np = g.rnd(1, 3);
	if(g.ch(1, 4)) g.p.flags |= 4;
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); if(!crash) for(int i = g.rnd(0, 3); i > 0; i--) g.section(t.ops, rs, 2, 40, true); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); g.end0(t.ops); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); int nt = g.rnd(1, 3);
		for(int t = 0; t < nt; t++) { ThreadProg tp; if(t == 0) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt)); int n = g.rnd(1, g.tier ? 7 : 4); for(int k = 0; k < n; k++) g.section(tp.ops, rs, 2, 60, true); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); }
	}
	if(crash) g.kill_some(1, 1 + np, g.rnd(1, 2));
	g.stall_some(1, 1 + np, g.rnd(0, 2));
}
static void gen_C03(Gen& g) { g.p.scen = (int)g.r.below(2); gen_rw(g, g.p.scen == 1, false); }
static void gen_C04(Gen& g)
{
	g.p.scen = (int)g.r.below(3); if(g.p.scen < 2) { gen_rw(g, false, true); return; }
	// holders keep their range until others have locked disjoint ranges or other files: a false conflict never ends
	int rb = g.rnd(0, 2), fu = g.rnd(0, 2); int np = g.rnd(2, 4); if(g.ch(1, 3)) g.p.flags |= 4; int base = g.pick({0, 1000}); int w = g.pick({1, 2, 100});
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); ThreadProg t; t.ops.push_back(O(OP_OPEN, 0, 0)); t.ops.push_back(O(OP_OPEN, 1, 1)); for(int rep = 0; rep < g.rnd(1, 2); rep++) {
			Res x = g.ch(2, 3) ? R(0, base + (2 * i + (rep & 1)) * w, w, 0) : R(1, base + 2 * i * w, g.ch(1, 2) ? w : 2 * w, 0); if(g.ch(1, 8) && i == 0) x = R(100 + i, 0, 1000, 0);
			t.ops.push_back(g.acq(x, g.ch(2, 3), g.ch(3, 4) ? 0 : g.rnd(1, 2))); t.ops.push_back(O(OP_BARRIER, rep, np)); t.ops.push_back(O(OP_CS, g.rnd(0, 40))); t.ops.push_back(g.rel(x)); t.ops.push_back(O(OP_BARRIER, 10 + rep, np)); }
		q.thr.push_back(t);
	}
	// the number of repetitions must agree
	size_t m = ~0ull; for(auto& q : g.p.procs) { size_t n = 0; for(auto& o : q.thr[0].ops) if(o.k == OP_BARRIER && o.v[0] >= 10) n++; m = std::min(m, n); }
	for(auto& q : g.p.procs) { size_t n = 0; Ops o; for(auto& x : q.thr[0].ops) { o.push_back(x); if(x.k == OP_BARRIER && x.v[0] >= 10 && ++n == m) break; } q.thr[0].ops = o; }
}
static void gen_C05(Gen& g)
{
	int rb = g.rnd(1, 2); g.p.scen = rb; RV rs; int nn = g.rnd(1, 2); for(int i = 0; i < nn; i++) rs.push_back(M(i, i)); int nv = g.rnd(1, 2);
	{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); if(g.ch(1, 2)) { t.ops.push_back(O(OP_CS, g.rnd(0, 2000))); for(int i = g.rnd(1, 3); i > 0; i--) g.section(t.ops, rs, 1, 50, true); } t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < nv; i++) { ProcProg& q = g.proc(rb); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) { ThreadProg tp; for(int k = g.rnd(1, 4); k > 0; k--) g.section(tp.ops, rs, 2, 100, true); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
	for(int i = g.rnd(1, 2); i > 0; i--) { ProcProg& q = g.proc(rb); q.delay = g.delay(); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) { ThreadProg tp; for(int k = g.rnd(1, 4); k > 0; k--) g.section(tp.ops, rs, 2, 60, true); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
	g.kill_some(1, 1 + nv, g.rnd(1, nv + 1)); if(g.ch(1, 3)) g.fault(F_KILLINIT, 1, 0, 0, g.steps() * 4, g.reap());
}
static void gen_C06(Gen& g)
{
	int rb = g.rnd(1, 2); g.p.scen = rb; int fu = g.ch(1, 2) ? 1 : g.rnd(0, 2); RV rs; SF sf; ranges(g, rs, sf, g.rnd(1, 2), g.ch(1, 3)); int nv = g.rnd(1, 2);
	auto work = [&](int n, int cs, bool first, int nt, int bar) { ThreadProg tp; if(first) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, bar, nt)); for(; n > 0; n--) g.section(tp.ops, rs, 2, cs, true); if(first) g.end0(tp.ops); return tp; };
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); if(g.ch(1, 2)) { t.ops.push_back(O(OP_CS, g.rnd(0, 2000))); for(int i = g.rnd(1, 3); i > 0; i--) g.section(t.ops, rs, 1, 50, true); } t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < nv; i++) { ProcProg& q = g.proc(rb, fu); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) q.thr.push_back(work(g.rnd(1, 4), 100, t == 0, nt, 1 + i)); }
	for(int i = g.rnd(1, 2); i > 0; i--) { ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) q.thr.push_back(work(g.rnd(1, 4), 60, t == 0, nt, 10 + i)); }
	g.kill_some(1, 1 + nv, g.rnd(1, nv + 1));
}
// threads that end while holding
static void gen_C07(Gen& g)
{
	int fu = g.ch(1, 2) ? 1 : g.rnd(0, 2); RV rs; SF sf; g.p.scen = (int)g.r.below(3); if(g.p.scen != 1) rs.push_back(M(0, 0)); if(g.p.scen != 0) { if(g.ch(1, 2)) rs.push_back(R(100, 0, 10, 10)); if(rs.empty() || g.ch(1, 2)) { sf[0] = 0; rs.push_back(R(0, 0, 100, 11)); } }
	int np = g.rnd(1, 2);
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(2, fu); q.delay = i ? g.delay() : 0; int nt = g.rnd(1, 2);
		{ ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); t.ops.push_back(O(OP_BARRIER, 1 + i, nt + 1)); for(int k = g.rnd(0, 2); k > 0; k--) g.section(t.ops, rs, 1, 40, true); t.ops.push_back(O(i ? OP_JOINALL : OP_WAITALL)); if(!i) g.audit_block(t.ops, rs); else for(int k = g.rnd(0, 2); k > 0; k--) g.section(t.ops, rs, 1, 40, true); q.thr.push_back(t); }
		for(int k = 0; k < nt; k++) {
			ThreadProg t; t.ops.push_back(O(OP_BARRIER, 1 + i, nt + 1)); for(int m = g.rnd(0, 2); m > 0; m--) g.section(t.ops, rs, 2, 40, true);
			Ops o; g.section(o, rs, 2, 40, true); bool leave = g.ch(3, 4); for(auto& x : o) { if(leave && (x.k == OP_MUNLOCK || x.k == OP_RWUNLOCK) && g.ch(2, 3)) continue; t.ops.push_back(x); if(leave && g.ch(1, 12)) break; }
			t.ops.push_back(O(OP_TEXIT)); q.thr.push_back(t);
		}
	}
	{ ProcProg& q = g.proc(2, fu); q.delay = g.delay(); ThreadProg t; g.opens(t.ops, rs, sf); for(int k = g.rnd(1, 4); k > 0; k--) g.section(t.ops, rs, 2, 40, true); q.thr.push_back(t); }
}
// descriptors closed while holding
static void gen_C08(Gen& g)
{
	int fu = g.ch(1, 2) ? 1 : g.rnd(0, 2); g.p.scen = (int)g.r.below(3); int np = g.rnd(1, 2); bool multi = g.ch(1, 2);
	RV rs; rs.push_back(R(0, 0, 100, 10)); if(multi) rs.push_back(R(2, 500, 100, 11)); SF sf; sf[0] = 0; sf[2] = 1; sf[1] = 0;
	{ ProcProg& q = g.proc(2, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); for(int i = g.rnd(0, 3); i > 0; i--) g.section(t.ops, rs, 2, 60, false); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) {
		// A number that was closed while a lock was held through it is never reopened on the same file: the library cannot tell that apart.
		ProcProg& q = g.proc(2, fu); q.delay = g.delay(); ThreadProg t; bool second = g.ch(1, 3);
		t.ops.push_back(O(OP_OPEN, 0, 0)); if(multi) t.ops.push_back(O(OP_OPEN, 2, 1)); bool dup = g.ch(1, 2), other = g.ch(1, 2);
		if(other) { if(dup) t.ops.push_back(O(OP_DUP, 0, 1)); else t.ops.push_back(O(OP_OPEN, 1, 0)); }
		if(second) { t.ops.push_back(O(OP_OPEN, 4, 0)); t.ops.push_back(O(OP_OPEN, 6, 1)); t.ops.push_back(O(OP_BARRIER, 1 + i, 2)); }
		for(int rep = g.rnd(0, 2); rep > 0; rep--) g.section(t.ops, rs, 2, 40, false);
		bool wr = g.ch(1, 2); t.ops.push_back(g.acq(rs[0], wr, g.variant(), 200)); if(multi && g.ch(2, 3)) t.ops.push_back(g.acq(rs[1], g.ch(1, 2), g.variant(), 200));
		if(other && !wr && g.ch(1, 2)) t.ops.push_back(O(OP_RDTRY, 1, 0, 100)); // a second read lock through another descriptor of the file
		if(other && g.ch(1, 3)) t.ops.push_back(O(OP_WRTRY, 1, 1000, 100));
		t.ops.push_back(O(OP_CS, g.rnd(0, 100))); t.ops.push_back(O(OP_CLOSE, 0)); bool reo = g.ch(1, 2); if(reo) t.ops.push_back(O(OP_OPEN, 0, 1)); t.ops.push_back(O(OP_CS, g.rnd(0, 200)));
		if(other) { t.ops.push_back(O(OP_RWUNLOCK, 1, 0, 100)); t.ops.push_back(O(OP_RWUNLOCK, 1, 1000, 100)); if(g.ch(1, 2)) t.ops.push_back(O(OP_WRTIMED, 1, 2000, 10, 50)), t.ops.push_back(O(OP_RWUNLOCK, 1, 2000, 10)); t.ops.push_back(O(OP_CLOSE, 1)); }
		if(multi) { if(g.ch(2, 3)) t.ops.push_back(O(OP_RWUNLOCK, 2, 500, 100)); t.ops.push_back(O(OP_CLOSE, 2)); }
		if(reo && g.ch(1, 2)) { if(g.ch(1, 2)) { t.ops.push_back(O(g.ch(1, 2) ? OP_RD : OP_WR, 0, 500, 100)); t.ops.push_back(O(OP_CS, g.rnd(0, 60))); } t.ops.push_back(O(OP_CLOSE, 0)); }
		if(g.ch(1, 2)) t.ops.push_back(O(OP_CS, g.rnd(0, 300)));
		g.end0(t.ops); q.thr.push_back(t);
		if(second) { ThreadProg u; u.ops.push_back(O(OP_BARRIER, 1 + i, 2)); RV r2 = rs; for(auto& x : r2) x.ref = x.ref == 0 ? 4 : 6; for(int k = g.rnd(1, 4); k > 0; k--) g.section(u.ops, r2, 2, 60, false); q.thr.push_back(u); }
	}
	{ ProcProg& q = g.proc(2, fu); q.delay = g.delay(); ThreadProg t; g.opens(t.ops, rs, sf); for(int k = g.rnd(1, 4); k > 0; k--) g.section(t.ops, rs, 2, 60, false); q.thr.push_back(t); }
}
// time limits
static void gen_C09(Gen& g)
{
	Rng& r = g.r; g.p.flags |= 8; g.p.pol = 0; g.p.quantum = 10 + (int)r.below(40); g.p.yq = (u64)g.pick({1000, 2000}); g.p.s1 = 400000; g.p.scen = (int)r.below(4); int rb = g.rnd(0, 2); int fu = g.rnd(0, 2);
	int maxw = g.pick({100, 3000, 200000, 1000001, 2500000}); auto us = [&]() { for(;;) { int x = g.pick({0, 1, 100, 3000, 30000, 200000, 600000, 999999, 1000000, 1000001, 1500000, 2500000}); if(x <= maxw) return x; } };
	if(g.ch(1, 2)) g.p.t0 = (1000 + r.below(1000)) * 1000000000ull + (g.ch(1, 2) ? 999999999ull - r.below(400000000) : r.below(1000000));
	int holdus = g.pick({50, 5000, 50000, 400000, 1200000, 3000000}); if(holdus > maxw * 2 && g.ch(3, 4)) holdus = maxw * 2; g.p.yq = std::max(g.p.yq, (u64)std::max(maxw, holdus) * 1000 / 1000);
	RV rs; SF sf; if(g.p.scen == 0) rs.push_back(M(0, 0)); else if(g.p.scen == 1) { sf[0] = 0; rs.push_back(R(g.ch(1, 2) ? 0 : 100, 0, 100, 10)); }
	if(g.p.scen <= 1) {
		int np = g.rnd(2, 3); for(int i = 0; i < np; i++) {
			ProcProg& q = g.proc(rb, fu); ThreadProg t; g.opens(t.ops, rs, sf); int nt = 1; Res x = rs[0];
			for(int k = g.rnd(1, 3); k > 0; k--) { bool wr = g.ch(1, 2); int v = i == 0 ? 0 : g.ch(1, 4) ? 1 : g.ch(3, 4) ? 2 : 0; t.ops.push_back(g.acq(x, wr, v, us())); if(i == 0 || g.ch(1, 3)) t.ops.push_back(O(OP_SLEEP, holdus)); t.ops.push_back(g.rel(x)); if(g.ch(1, 2)) t.ops.push_back(O(OP_SLEEP, g.pick({10, 1000, 20000}))); }
			g.end0(t.ops); q.thr.push_back(t); (void)nt;
		}
	} else if(g.p.scen == 2) {
		// condition waits that time out, are signalled in time, or find the mutex busy afterwards
		int np = g.rnd(1, 2); for(int i = 0; i < np; i++) { ProcProg& q = g.proc(rb); ThreadProg t; for(int k = g.rnd(1, 2); k > 0; k--) { t.ops.push_back(O(OP_MLOCK, 0)); t.ops.push_back(O(OP_CTIMED, 0, 0, us())); t.ops.push_back(O(OP_MUNLOCK, 0)); } q.thr.push_back(t); }
		if(g.ch(1, 2)) { ProcProg& q = g.proc(rb); ThreadProg t; for(int k = g.rnd(1, 3); k > 0; k--) { t.ops.push_back(O(OP_SLEEP, g.pick({100, 5000, 100000, 700000}))); if(g.ch(1, 2)) t.ops.push_back(O(OP_MLOCK, 0)); t.ops.push_back(O(g.ch(1, 2) ? OP_CSIG : OP_CBC, 0)); if(g.ch(1, 2)) t.ops.push_back(O(OP_SLEEP, g.pick({100, 20000, 500000}))); t.ops.push_back(O(OP_MUNLOCK, 0)); } q.thr.push_back(t); }
	} else {
		// try calls against unrelated and compatible users: no spurious busy
		RV a; a.push_back(M(0, 0)); a.push_back(M(1, 1)); sf[0] = 0; sf[1] = 0; a.push_back(R(0, 0, 100, 10)); a.push_back(R(1, 100, 100, 11)); int np = g.rnd(2, 4); bool rdonly = g.ch(1, 2);
		for(int i = 0; i < np; i++) { ProcProg& q = g.proc(rb, fu); ThreadProg t; g.opens(t.ops, a, sf); int own = g.rnd(0, 3); for(int k = g.rnd(3, 8); k > 0; k--) { Res x = g.ch(1, 2) ? a[own] : a[r.below(4)]; t.ops.push_back(g.acq(x, !rdonly, g.ch(3, 4) ? 1 : 2, us())); t.ops.push_back(O(OP_CS, g.rnd(0, 60))); t.ops.push_back(g.rel(x)); } g.end0(t.ops); q.thr.push_back(t); }
	}
}
// conditions
static void cond_prog(Gen& g, int mode, bool crash)
{
	Rng& r = g.r; int rb = crash ? g.rnd(1, 2) : g.rnd(0, 2); int nc = g.rnd(1, 2), nm = g.rnd(1, 2); int np = g.rnd(2, 3); bool held = g.ch(1, 2); bool mixed = g.ch(1, 3); if(mixed) nm = 2; // mixed: waits on one condition with different mutexes
	{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_QUIESCE)); if(crash) { for(int c = 0; c < nc; c++) for(int k = g.rnd(1, 2); k > 0; k--) { t.ops.push_back(O(OP_CSIG, c)); } t.ops.push_back(O(OP_QUIESCE)); } t.ops.push_back(O(OP_FLUSH)); t.ops.push_back(O(OP_WAITALL)); RV rs; for(int i = 0; i < nm; i++) rs.push_back(M(i, i)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb); q.delay = g.delay(); int nt = g.rnd(1, 3);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; int n = g.rnd(1, 4); bool waiter = g.ch(3, 5);
			for(int k = 0; k < n; k++) {
				int c = (int)r.below(nc), m = mixed ? (int)r.below(nm) : nm == nc ? c : 0;
				if(waiter) { tp.ops.push_back(O(OP_MLOCK, m)); if(g.ch(1, 3)) tp.ops.push_back(O(OP_CS, g.rnd(0, 30))); if(mode == 1 ? g.ch(1, 3) : g.ch(1, 2)) tp.ops.push_back(O(OP_CTIMED, c, m, g.pick({0, 1, 10, 50, 200, 1000, 3000}))); else tp.ops.push_back(O(OP_CWAIT, c, m)); if(g.ch(1, 2)) tp.ops.push_back(O(OP_CS, g.rnd(0, 60))); tp.ops.push_back(O(OP_MUNLOCK, m)); }
				else { bool h = held ? true : g.ch(1, 2); if(h) tp.ops.push_back(O(OP_MLOCK, m)); if(g.ch(1, 3)) tp.ops.push_back(O(OP_CS, g.rnd(0, 60))); tp.ops.push_back(O(g.ch(1, 3) ? OP_CBC : OP_CSIG, c)); if(h) tp.ops.push_back(O(OP_MUNLOCK, m)); if(g.ch(1, 2)) tp.ops.push_back(O(OP_SLEEP, g.pick({1, 10, 60, 300}))); }
				if(mode == 1 && g.ch(1, 2)) { Res x = M(m, 0); tp.ops.push_back(g.acq(x, true, g.variant())); tp.ops.push_back(O(OP_CS, g.rnd(0, 40))); tp.ops.push_back(g.rel(x)); }
			}
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
	if(crash) g.kill_some(1, 1 + np, g.rnd(1, 2));
	g.stall_some(1, 1 + np, g.rnd(0, 1));
}
static void gen_C10(Gen& g)
{
	g.p.scen = (int)g.r.below(5) / 2; if(g.p.scen == 0) { cond_prog(g, 0, false); return; }
	if(g.p.scen == 2) {
		// one certain waiter, while other threads begin to wait on the same condition with another mutex, and exactly as many signals as certain waiters
		Rng& r = g.r; int rb = g.rnd(0, 2); int nw = g.rnd(1, 2), ne = g.rnd(1, 2);
		{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_FLUSH)); t.ops.push_back(O(OP_WAITALL)); q.thr.push_back(t); }
		{ ProcProg& q = g.proc(rb); for(int i = 0; i < nw; i++) { ThreadProg t; t.ops.push_back(O(OP_MLOCK, 1)); t.ops.push_back(O(OP_SETFLAG, 1)); t.ops.push_back(O(OP_CWAIT, 0, 1)); t.ops.push_back(O(OP_MUNLOCK, 1)); if(!i) g.end0(t.ops); q.thr.push_back(t); } }
		{ ProcProg& q = g.proc(rb); for(int i = 0; i < ne; i++) { ThreadProg t; if(g.ch(1, 4)) t.ops.push_back(O(OP_WAITFLAG, 1, -1, nw)); for(int k = g.rnd(1, 2); k > 0; k--) { t.ops.push_back(O(OP_MLOCK, 0)); if(g.ch(1, 2)) t.ops.push_back(O(OP_CWAIT, 0, 0)); else t.ops.push_back(O(OP_CTIMED, 0, 0, g.pick({0, 10, 200, 1500}))); t.ops.push_back(O(OP_MUNLOCK, 0)); } if(!i) g.end0(t.ops); q.thr.push_back(t); } }
		{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_WAITFLAG, 1, -1, nw)); t.ops.push_back(O(OP_MLOCK, 1)); t.ops.push_back(O(OP_MUNLOCK, 1)); if(g.ch(1, 2)) t.ops.push_back(O(OP_SLEEP, g.rnd(0, 3))); for(int k = g.rnd(1, nw); k > 0; k--) { bool b = g.ch(1, 8); t.ops.push_back(O(b ? OP_CBC : OP_CSIG, 0)); } g.end0(t.ops); q.thr.push_back(t); }
		(void)r; if(g.ch(3, 4)) { ThreadProg& t = g.p.procs[2].thr[0]; for(size_t i = 0; i < t.ops.size(); i++) if(t.ops[i].k == OP_CWAIT || t.ops[i].k == OP_CTIMED) { g.fault(F_STALL, 2, 0, (int)i, g.rnd(1, 120), g.rnd(200, 6000)); break; } } return;
	}
	// certain waiters: everybody waits before the signals start (the signaller takes the mutex once to know)
	Rng& r = g.r; int rb = g.rnd(0, 2); int nw = g.rnd(1, 4), ns = g.rnd(1, 2); bool mixed = g.ch(1, 3);
	{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_FLUSH)); t.ops.push_back(O(OP_WAITALL)); q.thr.push_back(t); }
	for(int i = 0; i < nw; i++) { ProcProg& q = g.proc(rb); ThreadProg t; int m = mixed ? g.rnd(0, 1) : 0; for(int k = g.rnd(1, 2); k > 0; k--) { t.ops.push_back(O(OP_MLOCK, m)); t.ops.push_back(O(OP_SETFLAG, 1)); if(g.ch(1, 2)) t.ops.push_back(O(OP_CWAIT, 0, m)); else t.ops.push_back(O(OP_CTIMED, 0, m, g.pick({20, 100, 400, 1500, 5000}))); t.ops.push_back(O(OP_MUNLOCK, m)); } q.thr.push_back(t); if(g.p.procs.size() > 4) break; }
	nw = (int)g.p.procs.size() - 1;
	{ ProcProg& q = g.proc(rb); for(int i = 0; i < ns; i++) { ThreadProg t; t.ops.push_back(O(OP_WAITFLAG, 1, -1, g.rnd(1, nw))); for(int k = g.rnd(1, 4); k > 0; k--) { t.ops.push_back(O(OP_MLOCK, 0)); if(mixed) t.ops.push_back(O(OP_MLOCK, 1)); bool in = g.ch(1, 2); if(mixed && (!in || g.ch(1, 2))) t.ops.push_back(O(OP_MUNLOCK, 1)); else if(mixed) in = true; if(!in) t.ops.push_back(O(OP_MUNLOCK, 0)); t.ops.push_back(O(g.ch(1, 4) ? OP_CBC : OP_CSIG, 0)); if(in && t.ops[t.ops.size() - 2].k != OP_MUNLOCK && mixed) t.ops.push_back(O(OP_MUNLOCK, 1)); if(in) t.ops.push_back(O(OP_MUNLOCK, 0)); if(g.ch(1, 2)) t.ops.push_back(O(OP_SLEEP, g.pick({1, 20, 100, 400}))); } if(!i) g.end0(t.ops); q.thr.push_back(t); } }
	(void)r;
}
static void gen_C11(Gen& g)
{
	g.p.scen = (int)g.r.below(2); if(g.p.scen == 0) { cond_prog(g, 1, false); return; }
	// hand-over: the signaller sets the flag only under the mutex; a missed signal hangs the waiter
	int rb = g.rnd(0, 2); int rounds = g.rnd(1, 4);
	{ ProcProg& q = g.proc(rb); ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, RV{M(0, 0)}); q.thr.push_back(t); }
	int hold = g.ch(1, 3) ? g.pick({5000, 60000, 300000, 1500000}) : 0; if(hold) g.p.yq = std::max(g.p.yq, (u64)hold); // others which keep the mutex for long while the waiter wants it back
	{ ProcProg& q = g.proc(rb); ThreadProg t; for(int k = 0; k < rounds; k++) { t.ops.push_back(O(OP_MLOCK, 0)); t.ops.push_back(O(OP_SETFLAG, 1)); t.ops.push_back(hold && g.ch(1, 2) ? O(OP_CTIMED, 0, 0, g.pick({10, 1000, 50000})) : O(OP_CWAIT, 0, 0)); t.ops.push_back(O(OP_CS, g.rnd(0, 50))); t.ops.push_back(O(OP_MUNLOCK, 0)); } q.thr.push_back(t); }
	{ ProcProg& q = g.proc(rb); ThreadProg t; for(int k = 0; k < rounds; k++) { t.ops.push_back(O(OP_WAITFLAG, 1, -1, k + 1)); t.ops.push_back(O(OP_MLOCK, 0)); bool in = g.ch(1, 2); if(!in) t.ops.push_back(O(OP_MUNLOCK, 0)); t.ops.push_back(O(g.ch(1, 2) ? OP_CBC : OP_CSIG, 0)); if(in) t.ops.push_back(O(OP_MUNLOCK, 0)); } q.thr.push_back(t); }
	{ ProcProg& q = g.proc(rb); q.delay = g.delay(); for(int i = g.rnd(1, 2); i > 0; i--) { ThreadProg t; for(int k = g.rnd(1, 5); k > 0; k--) { t.ops.push_back(g.acq(M(0, 0), true, g.variant())); t.ops.push_back(hold && g.ch(1, 2) ? O(OP_SLEEP, hold) : O(OP_CS, g.rnd(0, 60))); t.ops.push_back(O(OP_MUNLOCK, 0)); } if(q.thr.empty()) g.end0(t.ops); q.thr.push_back(t); } }
}
static void gen_C12(Gen& g)
{
	if(g.p.yq < 2000) g.p.yq = 2000;
	g.p.scen = (int)g.r.below(5) / 2; if(g.p.scen == 0) { cond_prog(g, 0, true); return; }
	if(g.p.scen == 2) {
		// victims die after they were signalled, before they have their mutex again; then all slots are used at once
		int rb = g.rnd(1, 2), nv = g.rnd(1, 3), nn = g.rnd(1, 2), left = 4; std::vector<int> vt;
		for(int i = 0; i < nv; i++) { int k = g.rnd(1, std::min(2, left - (nv - 1 - i))); vt.push_back(k); left -= k; }
		{ ProcProg& q = g.proc(rb); q.caps = 1; ThreadProg t; t.ops.push_back(O(OP_INIT)); t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_MLOCK, 0)); int sg = g.rnd(0, 4); for(int i = 0; i < sg; i++) t.ops.push_back(O(OP_CSIG, g.rnd(0, nn - 1))); if(sg == 0) for(int i = 0; i < nn; i++) t.ops.push_back(O(OP_CBC, i)); t.ops.push_back(O(OP_CS, g.rnd(0, 300))); bool hold = g.ch(3, 4); if(!hold) t.ops.push_back(O(OP_MUNLOCK, 0)); /* one after another: nobody is killed while its worker recovers the waiters of another one */ for(int i = 0; i < nv; i++) { t.ops.push_back(O(OP_KILLP, 1 + i, g.reap())); if(i + 1 < nv) { t.ops.push_back(O(OP_WAITGONE, 1 + i)); t.ops.push_back(O(OP_SLEEP, 40000)); } } if(hold) t.ops.push_back(O(OP_MUNLOCK, 0)); for(int i = 0; i < nv; i++) t.ops.push_back(O(OP_WAITGONE, 1 + i)); t.ops.push_back(O(OP_SLEEP, g.pick({20000, 100000}))); t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_SETFLAG, 5)); t.ops.push_back(O(OP_WAITALL)); q.thr.push_back(t); }
		for(int i = 0; i < nv; i++) { ProcProg& q = g.proc(rb); q.caps = 1; for(int t = 0; t < vt[i]; t++) { ThreadProg tp; tp.ops.push_back(O(OP_MLOCK, 0)); tp.ops.push_back(O(OP_CWAIT, g.rnd(0, nn - 1), 0)); tp.ops.push_back(O(OP_MUNLOCK, 0)); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
		for(int i = 0; i < 2; i++) { ProcProg& q = g.proc(rb); q.caps = 1; q.delay = g.delay(); for(int t = 0; t < 2; t++) { ThreadProg tp; tp.ops.push_back(O(OP_WAITFLAG, 5, -1, 1)); for(int k = g.rnd(1, 2); k > 0; k--) { tp.ops.push_back(O(OP_MLOCK, 0)); tp.ops.push_back(O(OP_CTIMED, g.rnd(0, nn - 1), 0, g.pick({3000, 20000, 50000}))); tp.ops.push_back(O(OP_MUNLOCK, 0)); } if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
		return;
	}
	// victims die while waiting; after they are gone signals and slots belong to the survivors
	int rb = g.rnd(1, 2); int nv = g.rnd(1, 2), ns = g.rnd(1, 2); int caps = g.pick({0, 1, 5}); int nproc = 1 + nv + ns; (void)nproc;
	{ ProcProg& q = g.proc(rb); q.caps = caps; ThreadProg t; t.ops.push_back(O(OP_INIT)); if(g.ch(1, 3)) t.ops.push_back(O(OP_SLEEP, g.pick({100, 300, 1000, 3000}))); else t.ops.push_back(O(OP_QUIESCE)); for(int i = 0; i < nv; i++) t.ops.push_back(O(OP_KILLP, 1 + i, g.reap())); for(int i = 0; i < nv; i++) t.ops.push_back(O(OP_WAITGONE, 1 + i)); t.ops.push_back(O(OP_SETFLAG, 5)); t.ops.push_back(O(OP_QUIESCE)); for(int k = 0; k < ns; k++) t.ops.push_back(O(OP_CSIG, 0)); t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_FLUSH)); t.ops.push_back(O(OP_WAITALL)); q.thr.push_back(t); }
	for(int i = 0; i < nv; i++) { ProcProg& q = g.proc(rb); q.caps = caps; int nt = g.rnd(1, caps == 1 ? 1 : 2); for(int t = 0; t < nt; t++) { ThreadProg tp; tp.ops.push_back(O(OP_MLOCK, 0)); if(g.ch(1, 3)) tp.ops.push_back(O(OP_CTIMED, 0, 0, g.pick({500, 3000, 20000}))); else tp.ops.push_back(O(OP_CWAIT, 0, 0)); tp.ops.push_back(O(OP_MUNLOCK, 0)); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
	for(int i = 0; i < ns; i++) { ProcProg& q = g.proc(rb); q.caps = caps; q.delay = g.delay(); ThreadProg t; if(g.ch(1, 3)) t.ops.push_back(O(OP_WAITFLAG, 5, -1, 1)); t.ops.push_back(O(OP_MLOCK, 0)); t.ops.push_back(O(OP_CWAIT, 0, 0)); t.ops.push_back(O(OP_MUNLOCK, 0)); q.thr.push_back(t); }
}
// capacity
// all ranges are used up on some files while others ask for ranges of further files in vain; afterwards as many other files as there can be are used
static void exhaust_files(Gen& g)
{
	int caps = g.pick({1, 3}); Caps c = caps_of(caps); int rb = g.rnd(0, 2); g.p.nfiles = 6; g.p.scen = 9; int nfail = 6 - 1 - c.file; RV aud; SF sa;
	{ ProcProg& q = g.proc(rb, 1); q.caps = caps; ThreadProg t; t.ops.push_back(O(OP_INIT)); for(int i = 0; i < c.file; i++) { sa[i] = 1 + nfail + i; aud.push_back(R(i, g.rnd(0, 1) * 20, 10, 10 + i)); } for(auto& s : sa) t.ops.push_back(O(OP_OPEN, s.first, s.second)); t.ops.push_back(O(OP_WAITALL)); Ops un; for(auto& x : aud) { t.ops.push_back(g.acq(x, g.ch(1, 2), g.rnd(0, 2), 5000000)); un.push_back(g.rel(x)); } for(auto& u : un) t.ops.push_back(u); q.thr.push_back(t); }
	{ ProcProg& q = g.proc(rb, 1); q.caps = caps; ThreadProg t; t.ops.push_back(O(OP_OPEN, 0, 0)); for(int k = g.rnd(1, 2); k > 0; k--) { int n = c.off - (g.ch(1, 5) ? 1 : 0); Ops un; for(int i = 0; i < n; i++) { Res x = R(0, i * 10, 10, 0); t.ops.push_back(g.acq(x, g.ch(1, 2), 0)); un.push_back(g.rel(x)); } t.ops.push_back(O(OP_SETFLAG, 1)); t.ops.push_back(O(OP_CS, g.rnd(50, 400))); if(g.ch(1, 2)) std::reverse(un.begin(), un.end()); for(auto& u : un) t.ops.push_back(u); } q.thr.push_back(t); }
	for(int i = g.rnd(1, 2); i > 0; i--) { ProcProg& q = g.proc(rb, 1); q.caps = caps; ThreadProg t; for(int f = 0; f < nfail; f++) t.ops.push_back(O(OP_OPEN, f, 1 + f)); t.ops.push_back(O(OP_WAITFLAG, 1, -1, 1)); for(int k = g.rnd(1, 3); k > 0; k--) { Res x = R(g.rnd(0, nfail - 1), g.rnd(0, 2) * 10, 10, 0); t.ops.push_back(g.acq(x, g.ch(1, 2), g.rnd(0, 2))); t.ops.push_back(g.rel(x)); if(g.ch(1, 3)) t.ops.push_back(O(OP_ISLOCKED, x.ref, x.off, x.len)); if(g.ch(1, 3)) t.ops.push_back(O(OP_CS, g.rnd(0, 100))); } q.thr.push_back(t); }
}
static void gen_C13(Gen& g)
{
	if(g.ch(1, 6)) { exhaust_files(g); return; }
	Rng& r = g.r; g.p.scen = (int)r.below(5); int caps = g.pick({1, 2, 3, 5}); Caps c = caps_of(caps); int rb = g.rnd(0, 2); int fu = g.p.scen == 4 ? 0 : g.pick({1, 1, 2}); int np = g.rnd(2, 3); g.p.nfiles = 6;
	ThreadProg au; au.ops.push_back(O(OP_INIT)); RV rs; SF sf;
	if(g.p.scen == 0) { for(int i = 0; i < c.nmtx + 2; i++) rs.push_back(M(6 + i, i)); }
	else if(g.p.scen == 1) { for(int i = 0; i < c.file + 2 && i < 5; i++) { sf[i] = i; rs.push_back(R(i, 0, 10, 10 + i)); } }
	else if(g.p.scen == 2 || g.p.scen == 4) { sf[0] = 0; for(int i = 0; i < c.off + 2; i++) rs.push_back(R(0, i * 10, 10, 10 + i)); }
	else { sf[0] = 0; sf[1] = 0; rs.push_back(R(0, 0, 10, 10)); rs.push_back(R(1, 0, 10, 10)); rs.push_back(R(0, 20, 10, 11)); }
	bool cond = g.p.scen == 0 && g.ch(1, 2);
	g.opens(au.ops, rs, sf); 
	if(cond) { au.ops.push_back(O(OP_QUIESCE)); au.ops.push_back(O(OP_FLUSH)); }
	au.ops.push_back(O(OP_WAITALL));
	if(g.p.scen == 0) { for(auto& x : rs) { au.ops.push_back(O(OP_MTRY, x.name)); au.ops.push_back(O(OP_MUNLOCK, x.name)); } }
	else { for(int i = 0; i < (int)rs.size(); i++) { au.ops.push_back(g.acq(rs[i], true, g.rnd(0, 2))); au.ops.push_back(g.rel(rs[i])); au.ops.push_back(O(OP_ISLOCKED, rs[i].ref, rs[i].off, rs[i].len)); } }
	{ ProcProg& q = g.proc(rb, fu); q.caps = caps; q.thr.push_back(au); }
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.caps = caps; q.delay = g.delay(); int nt = g.p.scen == 3 ? g.rnd(2, 3) : g.rnd(1, 2);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			if(cond && g.ch(1, 2)) { for(int k = g.rnd(1, 2); k > 0; k--) { int m = rs[0].name; tp.ops.push_back(O(OP_MLOCK, m)); int cc = g.rnd(0, c.ncond); if(g.ch(1, 2)) tp.ops.push_back(O(OP_CTIMED, cc, m, g.pick({10, 200, 1000}))); else tp.ops.push_back(O(OP_CWAIT, cc, m)); tp.ops.push_back(O(OP_MUNLOCK, m)); } }
			else for(int k = g.rnd(1, 3); k > 0; k--) { // hold many at once, in order
				std::vector<Op> un; int last = -1; bool allrd = g.p.scen == 3 && g.ch(1, 2); for(auto& x : rs) { if(x.group == last && !allrd) continue; if(g.ch(1, 3)) continue; last = x.group; bool wr = allrd ? false : g.ch(1, 2); int times = (!wr && g.p.scen == 3) ? g.rnd(1, 3) : 1; for(int z = 0; z < times; z++) { tp.ops.push_back(g.acq(x, wr, g.variant())); un.push_back(g.rel(x)); } if(g.ch(1, 3)) tp.ops.push_back(O(OP_ISLOCKED, x.mtx ? 0 : x.ref, x.off, x.mtx ? 1 : x.len)); if(x.mtx) tp.ops.back().k = tp.ops.back().k == OP_ISLOCKED ? OP_NOP : tp.ops.back().k; }
				tp.ops.push_back(O(OP_CS, g.rnd(0, 60))); if(g.ch(1, 2)) std::reverse(un.begin(), un.end()); for(auto& u : un) tp.ops.push_back(u);
			}
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
}
static void gen_C14(Gen& g)
{
	if(g.ch(1, 6)) { exhaust_files(g); return; }
	Rng& r = g.r; int caps = g.pick({1, 2, 3, 5}); Caps c = caps_of(caps); int fu = g.pick({0, 1, 1, 2}); int rb = g.rnd(0, 2); g.p.scen = fu; g.p.nfiles = 6; RV rs; SF sf; int nf = fu == 1 ? std::min(5, c.file + 2) : std::min(5, c.file);
	for(int i = 0; i < nf; i++) { sf[i] = i; if(fu == 0) { if(i < c.off) rs.push_back(R(i, 0, 10, 10 + i)); } else { rs.push_back(R(i, 0, 10, 10 + 3 * i)); if(g.ch(1, 2)) rs.push_back(R(i, 50, 10, 11 + 3 * i)); if(g.ch(1, 3)) rs.push_back(R(i, 5, 10, 10 + 3 * i)); } }
	bool cond = g.ch(1, 2); int np = g.rnd(1, 3);
	// auditor: after everything was released, use the whole capacity at once
	{ ProcProg& q = g.proc(rb, fu); q.caps = caps; ThreadProg t; t.ops.push_back(O(OP_INIT)); for(auto& s : sf) t.ops.push_back(O(OP_OPEN, s.first, s.second)); if(cond) { t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_FLUSH)); }
		t.ops.push_back(O(OP_WAITALL)); Ops un; std::vector<Res> pr; int n = std::min(c.off, c.locker);
		if(fu == 0) { for(int i = 0; i < n; i++) if(i < (int)rs.size()) pr.push_back(rs[i]); }
		else if(fu == 1) { int f0 = g.rnd(0, nf - 1); for(int i = 0; i < n; i++) pr.push_back(R((f0 + (c.file > 1 ? i % std::min(c.file, nf) : 0)) % nf, 1000 + i * 10, 10, i)); }
		else { for(int i = 0; i < n; i++) pr.push_back(R(i % nf, 1000 + i * 10, 10, i)); }
		for(auto& x : pr) { t.ops.push_back(g.acq(x, g.ch(1, 2), g.rnd(0, 2), 5000000)); un.push_back(g.rel(x)); } for(auto& u : un) t.ops.push_back(u);
		// all lockers on one range
		if(!rs.empty()) { Res x = rs[0]; for(int i = 0; i < c.locker; i++) t.ops.push_back(g.acq(x, false, 0)); for(int i = 0; i < c.locker; i++) t.ops.push_back(g.rel(x)); t.ops.push_back(O(OP_ISLOCKED, x.ref, x.off, x.len)); }
		// waiters: as many as there are slots, all at once
		if(cond) for(int i = 0; i < c.waiter; i++) t.ops.push_back(O(OP_SPAWN, 1 + i));
		t.ops.push_back(O(OP_JOINALL)); q.thr.push_back(t);
		if(cond) for(int i = 0; i < c.waiter; i++) { ThreadProg w; w.ops.push_back(O(OP_MLOCK, 6)); w.ops.push_back(O(OP_CTIMED, g.rnd(0, std::min(1, c.ncond - 1)), 6, 6000)); w.ops.push_back(O(OP_MUNLOCK, 6)); q.thr.push_back(w); }
	}
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.caps = caps; q.delay = g.delay(); int nt = g.rnd(1, 3);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) for(auto& s : sf) tp.ops.push_back(O(OP_OPEN, s.first, s.second)); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			for(int k = g.rnd(1, g.tier ? 8 : 5); k > 0; k--) {
				if(cond && g.ch(1, 4)) { tp.ops.push_back(O(OP_MLOCK, 6)); tp.ops.push_back(O(OP_CTIMED, g.rnd(0, 1), 6, g.pick({1, 30, 200}))); tp.ops.push_back(O(OP_MUNLOCK, 6)); if(g.ch(1, 2)) tp.ops.push_back(O(g.ch(1, 2) ? OP_CSIG : OP_CBC, g.rnd(0, 1))); }
				else g.section(tp.ops, rs, 3, 40, true);
			}
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
	(void)r;
}
// start-up
static void gen_C15(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(4); int rb = g.rnd(0, 2); bool crash = g.p.scen >= 2; if(crash) rb = g.rnd(1, 2); g.p.prior = g.p.scen & 1 ? g.rnd(1, 6) : 0; int np = g.rnd(2, 7); RV rs; rs.push_back(M(0, 0)); rs.push_back(R(100, 0, 10, 10)); if(crash && g.ch(2, 3)) rs.pop_back();
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb); q.delay = g.ch(2, 3) ? g.rnd(0, 400) : g.rnd(0, 6000); int nt = g.ch(1, 4) ? 2 : 1;
		for(int t = 0; t < nt; t++) { ThreadProg tp; for(int k = g.rnd(1, 4); k > 0; k--) g.section(tp.ops, rs, 1, 100, false); if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); }
	}
	if(crash) { for(int k = g.rnd(1, 2); k > 0; k--) g.fault(F_KILLINIT, g.rnd(0, np - 1), 0, 0, g.rnd(0, 3000), g.reap()); }
	if(g.ch(1, 3)) { int k = g.rnd(0, np - 1); g.fault(F_STALL, k, 0, 0, g.rnd(0, 100), g.rnd(500, 8000)); }
}
// a thread forks while other threads of its process are inside the library: attaching for the first time (or again after failing), in a lock call, or working with lock objects
static void fork_prog(Gen& g)
{
	Rng& r = g.r; g.p.scen = 3; int rb = g.rnd(0, 2), fu = 1; bool fails = g.ch(1, 2), first = fails || g.ch(1, 2); RV rs, ro; SF sf, so; rs.push_back(M(0, 0)); rs.push_back(R(100, 0, 10, 10)); sf[0] = 0; rs.push_back(R(0, 0, 100, 11));
	ro.push_back(M(3, 3)); ro.push_back(R(103, 5000, 10, 12)); so[1] = 1; ro.push_back(R(1, 0, 100, 13)); int nm = fails ? g.rnd(2, 3) : g.pick({1, 1, 2, 3}), nch = g.rnd(1, 2);
	auto objs = [&](Ops& o, int ref, int off) { for(int k = g.rnd(1, 3); k > 0; k--) { int n = g.rnd(1, 2); for(int i = 0; i < n; i++) o.push_back(O(OP_RCSVNEW, i, ref, off, 10, g.rnd(0, 1))); if(g.ch(1, 2)) o.push_back(O(OP_CS, g.rnd(0, 40))); for(int i = 0; i < n; i++) o.push_back(O(OP_RCSVDEL, i)); } };
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); for(int k = g.rnd(0, 3); k > 0; k--) g.section(t.ops, rs, 1, 40, true); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	{ ProcProg& q = g.proc(rb, fu); q.nomap = nm; q.delay = g.ch(1, 2) ? 0 : g.rnd(0, 800); RV& rw = fails ? ro : rs; int nt = g.rnd(2, 3); bool lobj = !fails && g.ch(1, 2);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) g.opens(tp.ops, rw, fails ? so : sf); if(!first && t == 0) tp.ops.push_back(O(OP_INIT)); tp.ops.push_back(O(OP_BARRIER, 1, nt));
			auto work = [&](int n) { for(int k = n; k > 0; k--) { if(lobj && g.ch(1, 2)) objs(tp.ops, 0, 0); else { Ops o; g.section(o, rw, 1, 30, !fails); for(auto& x : o) { if(fails && x.k == OP_MUNLOCK) x.v[1] = 1; if(fails && x.k == OP_RWUNLOCK) x.v[3] = 1; tp.ops.push_back(x); } } } };
			if(t == 0) { tp.ops.push_back(O(OP_CS, g.steps() / 2)); for(int k = 0; k < nch; k++) { tp.ops.push_back(O(OP_FORK, 2 + k)); if(g.ch(1, 2)) tp.ops.push_back(O(OP_CS, g.rnd(0, 300))); work(g.rnd(0, 2)); } g.end0(tp.ops); }
			else { tp.ops.push_back(O(OP_CS, g.rnd(0, 60))); work(fails ? 14 : g.rnd(2, 6)); }
			q.thr.push_back(tp);
		}
		for(int k = 0; k < nch; k++) { ProcProg& c = g.proc(rb, fu); c.start = 1; c.nomap = nm; int n2 = g.rnd(1, 2); for(int t = 0; t < n2; t++) { ThreadProg tp; RV& cw = fails ? ro : rs; for(int z = g.rnd(1, 4); z > 0; z--) if(lobj && g.ch(1, 2)) objs(tp.ops, 0, 0); else { Ops o; g.section(o, cw, 1, 60, !fails); for(auto& x : o) { if(fails && x.k == OP_MUNLOCK) x.v[1] = 1; if(fails && x.k == OP_RWUNLOCK) x.v[3] = 1; tp.ops.push_back(x); } } if(t == 0) g.end0(tp.ops); c.thr.push_back(tp); } }
	}
	if(fails) {
		g.p.flags |= 64; for(int k = 0; k <= nch; k++) g.p.flags |= 1 << (17 + k);
		static const int sys[] = {S_OPEN, S_FCNTL, S_FTRUNC, S_PWRITE, S_MMAP, S_PTCREATE, S_EPCREATE, S_INOTIFY, S_ADDWATCH, S_EPCTL, S_FSTAT};
		int s = sys[r.below(sizeof sys / sizeof *sys)]; g.fault(F_SYSERR, 1, 0, s, 1, s == S_FCNTL ? ENOLCK : s == S_PTCREATE ? EAGAIN : g.pick({EMFILE, ENOMEM, EACCES, EIO}), g.rnd(1, 3)); g.p.faults.back().c = s == S_FSTAT;
	}
}
// forked children
static void gen_C16(Gen& g)
{
	if(g.ch(1, 4)) { fork_prog(g); return; }
	Rng& r = g.r; g.p.scen = (int)r.below(3); int rb = g.rnd(1, 2); int fu = 1; RV rs; SF sf; rs.push_back(M(0, 0)); if(g.ch(1, 2)) rs.push_back(M(1, 1)); if(g.ch(1, 2)) rs.push_back(R(100, 0, 10, 10)); if(g.ch(1, 2)) { sf[0] = 0; rs.push_back(R(0, 0, 100, 11)); } bool crash = g.p.scen == 1;
	int nch = g.rnd(1, 2);
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; g.opens(t.ops, rs, sf); if(g.ch(3, 4)) g.section(t.ops, rs, 1, 20, false); for(int k = 0; k < nch; k++) { bool hold = g.ch(1, 2); Res x = rs[r.below(rs.size())]; if(hold) t.ops.push_back(g.acq(x, g.ch(2, 3), 0)); t.ops.push_back(O(OP_FORK, 2 + k)); if(g.ch(1, 2)) t.ops.push_back(O(OP_CS, g.rnd(0, 300))); if(hold) t.ops.push_back(g.rel(x)); for(int z = g.rnd(0, 2); z > 0; z--) g.section(t.ops, rs, 2, 60, true); } if(g.ch(1, 2)) t.ops.push_back(O(OP_PEXIT)); q.thr.push_back(t); }
	for(int k = 0; k < nch; k++) { ProcProg& q = g.proc(rb, fu); q.start = 1; int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) { ThreadProg tp; for(int z = g.rnd(1, 4); z > 0; z--) { g.section(tp.ops, rs, 2, 100, true); if(g.ch(1, 4)) tp.ops.push_back(O(OP_MUNLOCK, 0, 1)); } if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
	{ ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); ThreadProg t; g.opens(t.ops, rs, sf); for(int z = g.rnd(1, 4); z > 0; z--) g.section(t.ops, rs, 2, 60, true); q.thr.push_back(t); }
	if(crash) g.kill_some(1, 2 + nch, 1);
	if(g.p.scen == 2) { // the whole first generation leaves, the child stays alone, then somebody new arrives
		g.p.procs[0].thr[0].ops.clear(); g.p.procs[0].thr[0].ops.push_back(O(OP_CS, 5)); g.p.procs.back().delay = g.rnd(3000, 20000); for(int k = 0; k < nch; k++) { Ops& o = g.p.procs[2 + k].thr[0].ops; Res x = rs[r.below(rs.size())]; Ops n; n.push_back(g.acq(x, true, 0)); n.push_back(O(OP_SLEEP, g.rnd(10, 600))); n.push_back(O(OP_CS, g.rnd(0, 4000))); n.push_back(g.rel(x)); n.insert(n.end(), o.begin(), o.end()); o = n; } }
}
// failing start-up
static void gen_C17(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(4); int nm = g.p.scen; int rb = g.rnd(0, 2); int fu = 1; bool retry = nm >= 2; RV rs, ro; SF sf, so; rs.push_back(M(0, 0)); rs.push_back(R(100, 0, 10, 10)); sf[0] = 0; rs.push_back(R(0, 0, 100, 11));
	ro.push_back(M(3, 3)); ro.push_back(R(103, 5000, 10, 12)); so[1] = 1; ro.push_back(R(1, 0, 100, 13));
	int who = g.rnd(0, 1); int np = 2; bool mk = g.ch(1, 5); bool loose = mk || g.ch(1, 2); // a process which cannot make the given directory uses the default one: it then has locks of its own
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.delay = i == who ? g.rnd(0, 1500) : 0; q.nomap = i == who ? nm : 1; ThreadProg t;
		if(i != who) { g.opens(t.ops, rs, sf); for(int k = g.rnd(2, 5); k > 0; k--) g.section(t.ops, rs, 2, 60, true); g.end0(t.ops); q.thr.push_back(t); continue; }
		RV& rw = loose ? ro : rs; g.opens(t.ops, rw, loose ? so : sf); int mx = loose ? 3 : 0;
		auto round = [&](Ops& o, bool force) {
			Res x = rw[r.below(rw.size())];
			if(g.ch(1, 6)) { o.push_back(O(OP_MLOCK, mx)); o.push_back(O(OP_CTIMED, mx, mx, 30)); o.push_back(O(OP_MUNLOCK, mx, force)); return; }
			if(g.ch(1, 6)) { o.push_back(O(g.ch(1, 2) ? OP_CSIG : OP_CBC, mx)); return; } if(g.ch(1, 6)) { o.push_back(O(OP_ISLOCKED, loose ? 103 : 100, loose ? 5000 : 0, 10)); return; }
			o.push_back(g.acq(x, g.ch(1, 2), g.rnd(0, 2))); if(g.ch(1, 2)) o.push_back(O(OP_CS, g.rnd(0, 60))); Op u = g.rel(x); if(x.mtx) u.v[1] = force; else u.v[3] = force; o.push_back(u); };
		int n = retry ? 14 : g.rnd(2, 6); int nt = loose ? g.rnd(2, 3) : 1; std::vector<ThreadProg> more; for(int k = 1; k < nt; k++) { ThreadProg t2; for(int z = g.rnd(1, 6); z > 0; z--) round(t2.ops, true); more.push_back(t2); }
		for(int k = 0; k < n; k++) round(t.ops, true);
		if(nt > 1) t.ops.push_back(O(OP_JOINALL)); if(retry) t.ops.push_back(O(OP_CHECKEND, 1)); t.ops.push_back(O(OP_CHECKEND, 8));
		q.thr.push_back(t); for(auto& x : more) q.thr.push_back(x);
	}
	g.p.flags |= 64; if(loose) g.p.flags |= 1 << (16 + who);
	static const int sys[] = {S_OPEN, S_FCNTL, S_FTRUNC, S_PWRITE, S_MMAP, S_PTCREATE, S_EPCREATE, S_INOTIFY, S_ADDWATCH, S_EPCTL, S_FSTAT};
	static const int errs[] = {EMFILE, ENOMEM, EACCES, ENOSPC, EIO, EAGAIN};
	for(int k = g.ch(1, 4) ? 2 : 1; k > 0; k--) { int s = mk && k == 1 ? S_MKDIR : sys[r.below(sizeof sys / sizeof *sys)]; int e = errs[r.below(6)]; if(s == S_FCNTL) e = g.pick({ENOLCK, EIO}); if(s == S_PTCREATE) e = EAGAIN; int nth = g.rnd(1, s == S_FCNTL ? 8 : s == S_MKDIR ? 4 : 2); g.fault(F_SYSERR, who, 0, s, nth, e, retry ? g.rnd(1, 3) : g.pick({1, 2, 1000})); g.p.faults.back().c = s == S_FSTAT || s == S_STAT; }
	if(g.ch(1, 6)) g.p.prior = g.rnd(1, 6);
}
// recursive lock objects
static void gen_C18(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(2); int rb = g.rnd(0, 2), fu = g.rnd(0, 2); int np = g.rnd(1, 2); bool nofd = g.ch(1, 4); int ref = nofd ? 100 : 0; bool two = g.ch(1, 4); int rl = two || g.ch(3, 4) ? 100 : g.pick({0, 1, -1, -1, -2, -3}); int ro = g.ch(1, 2) ? 0 : 5; bool of = two && !nofd && g.ch(1, 2); int sref = of ? 1 : ref, so = of ? ro : 1000; int sl = g.pick({100, 40, 10}); int part = rl == 100 && g.ch(1, 3) ? g.rnd(1, 2) : 0; /* one part only: two disjoint parts and the whole are a known finding of C04 */ // the other range is one of another file, or of the same
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.delay = i ? g.delay() : 0; int nt = g.rnd(1, 3); if(np == 1 && nt == 1) nt = 2;
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0 && !nofd) tp.ops.push_back(O(OP_OPEN, 0, 0)); if(t == 0 && of && !nofd) tp.ops.push_back(O(OP_OPEN, 1, 1)); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			bool inuse[4] = {false, false, false, false}; int where[4] = {0, 0, 0, 0};
			for(int k = g.rnd(3, g.tier ? 20 : 12); k > 0; k--) {
				int s = g.rnd(0, g.p.scen ? 3 : 1);
				if(!inuse[s]) { bool sec = two && g.ch(1, 3); bool held0 = false, held1 = false; for(int z = 0; z < 4; z++) if(inuse[z]) { if(where[z]) held1 = true; else held0 = true; } if((sec && held0) || (!sec && held1)) { continue; } where[s] = sec; tp.ops.push_back(O(OP_RCSVNEW, s, sec ? sref : ref, sec ? so : ro, sec ? sl : rl, g.rnd(-1, 1))); inuse[s] = true; }
				else switch(r.below(5)) { case 0: tp.ops.push_back(O(OP_RCSVDEL, s)); inuse[s] = false; break; case 1: tp.ops.push_back(O(OP_RCSVUNLOCK, s)); break; case 2: tp.ops.push_back(O(OP_CS, g.rnd(0, 60))); break; default: {
					int m = g.pick({0, 1, 2, 3, 4, 5, 6, 7, 8}); bool alone = true; for(int z = 0; z < 4; z++) if(z != s && inuse[z]) alone = false; if(m >= 7 && !(two && alone)) m -= 2;
					if(m >= 7) { where[s] = !where[s]; tp.ops.push_back(O(OP_RCSVLOCK, s, m, where[s] ? sref : ref, where[s] ? so : ro, where[s] ? sl : rl)); } else tp.ops.push_back(O(OP_RCSVLOCK, s, m)); } }
				if(g.ch(1, 3)) tp.ops.push_back(O(OP_CS, g.rnd(0, 40)));
			}
			for(int s = 3; s >= 0; s--) if(inuse[s]) { if(g.ch(1, 2)) tp.ops.push_back(O(OP_RCSVUNLOCK, s)); tp.ops.push_back(O(OP_RCSVDEL, s)); }
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); if(!nofd) t.ops.push_back(O(OP_OPEN, 0, 0)); if(of && !nofd) t.ops.push_back(O(OP_OPEN, 1, 1)); for(int k = g.rnd(0, 4); k > 0; k--) { Res x = two && g.ch(1, 3) ? R(sref, so, sl, 0) : R(ref, ro, rl, 0); if(part && g.ch(1, 2)) { int z = std::max(1, x.len / 4); x.off += part == 1 ? x.len - z : z; x.len = z; } t.ops.push_back(g.acq(x, g.ch(1, 2), g.variant())); t.ops.push_back(O(OP_CS, g.rnd(0, 60))); t.ops.push_back(g.rel(x)); } t.ops.push_back(O(OP_WAITALL)); RV rs; rs.push_back(R(ref, ro, rl, 0)); if(two) rs.push_back(R(sref, so, sl, 0)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	// failing locks: small tables which other threads use up
	if(rl >= 0 && g.ch(1, 4)) {
		g.p.scen = 2; int caps = g.pick({1, 2, 3}); for(auto& q : g.p.procs) q.caps = caps;
		for(int e = g.rnd(1, 2); e > 0; e--) { ProcProg& q = g.proc(rb, fu); q.caps = caps; q.delay = g.delay(); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) { ThreadProg tp; if(t == 0) tp.ops.push_back(O(OP_OPEN, 0, 0)); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 30 + e, nt)); for(int k = g.rnd(1, 5); k > 0; k--) { int rr = g.ch(1, 2) ? 0 : 101; int off = 2000 + 100 * g.rnd(0, 3); bool rd = g.ch(1, 2); tp.ops.push_back(O(rd ? OP_RD : OP_WR, rr, off, 50)); tp.ops.push_back(O(OP_CS, g.rnd(0, 100))); tp.ops.push_back(O(OP_RWUNLOCK, rr, off, 50)); } if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
	}
}
// exit and re-initialisation
static Op bad_reinit(Gen& g) { static const int k[] = {1, 3, 4, 7, 8, 9, 10, 11, 12, 13}; return O(OP_REINIT, g.rnd(0, 2), 0, k[g.r.below(10)]); }
static void gen_C19(Gen& g)
{
	if(g.ch(1, 4)) {
		// one process moves from space to space, settings given and not given in turn, and uses as much as possible of each with several threads at once
		g.p.scen = 3; g.p.nfiles = 6; int env = g.ch(1, 2) ? 9 : g.rnd(0, 5), rb = g.rnd(0, 2); ProcProg& q = g.proc(rb, 1); q.caps = env; std::vector<ThreadProg> all; ThreadProg tm; for(int i = 0; i < 6; i++) tm.ops.push_back(O(OP_OPEN, i, i));
		if(g.ch(1, 3)) { tm.ops.push_back(O(OP_MLOCK, 0)); tm.ops.push_back(O(OP_MUNLOCK, 0)); }
		int nr = g.rnd(1, 2); for(int k = 0; k <= nr; k++) {
			bool last = k == nr; tm.ops.push_back(O(OP_REINIT, last ? 0 : 1 + k, last ? -1 : g.ch(1, 3) ? -1 : 100 + 16 * (g.ch(1, 2) ? 63 : g.rnd(1, 63)) + g.rnd(0, 5))); if(last) tm.ops.back().v[0] = nr == 1 ? 2 : 0; else if(!last && g.ch(1, 2)) { tm.ops.push_back(O(OP_MLOCK, 1)); tm.ops.push_back(O(OP_MUNLOCK, 1)); continue; }
			int nt = g.rnd(2, 6), kind = g.rnd(0, 2); for(int t = 0; t < nt; t++) {
				ThreadProg tp; if(kind == 0) { tp.ops.push_back(O(OP_MLOCK, 0)); tp.ops.push_back(O(OP_CTIMED, g.rnd(0, 3), 0, g.pick({2000, 5000}))); tp.ops.push_back(O(OP_MUNLOCK, 0)); }
				else if(kind == 1) { int m = g.rnd(1, 3); for(int i = 0; i < m; i++) tp.ops.push_back(O(OP_MTRY, 6 + (t * 3 + i) % 18)); tp.ops.push_back(O(OP_SLEEP, 3000)); for(int i = 0; i < m; i++) tp.ops.push_back(O(OP_MUNLOCK, 6 + (t * 3 + i) % 18)); }
				else { int m = g.rnd(1, 3), own = g.rnd(0, 1), ref = g.ch(1, 3) ? 100 : g.rnd(0, 5); for(int i = 0; i < m; i++) tp.ops.push_back(O(own ? OP_WRTRY : OP_RDTRY, ref, own ? t * 1000 + i * 100 : 0, 10)); tp.ops.push_back(O(OP_SLEEP, 3000)); for(int i = 0; i < m; i++) tp.ops.push_back(O(OP_RWUNLOCK, ref, own ? t * 1000 + i * 100 : 0, 10)); }
				all.push_back(tp); tm.ops.push_back(O(OP_SPAWN, (int)all.size()));
			}
			tm.ops.push_back(O(OP_JOINALL));
		}
		q.thr.push_back(tm); for(auto& t : all) q.thr.push_back(t);
		if(g.ch(1, 3)) { ProcProg& c = g.proc(rb, 1); c.caps = env; c.delay = g.delay(); ThreadProg t; for(int k = g.rnd(1, 3); k > 0; k--) { t.ops.push_back(O(OP_MLOCK, 0)); t.ops.push_back(O(OP_CS, g.rnd(0, 60))); t.ops.push_back(O(OP_MUNLOCK, 0)); } c.thr.push_back(t); }
		return;
	}
	Rng& r = g.r; g.p.scen = (int)r.below(3); int rb = g.p.scen == 0 ? g.rnd(1, 2) : g.rnd(0, 2); int fu = 1; RV rs; SF sf; rs.push_back(M(0, 0)); sf[0] = 0; rs.push_back(R(0, 0, 100, 10)); if(g.ch(1, 2)) rs.push_back(R(100, 0, 10, 11)); int np = g.rnd(2, 3);
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); for(int k = g.rnd(0, 3); k > 0; k--) g.section(t.ops, rs, 2, 60, true); t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	int env = g.p.scen && g.ch(1, 4) ? 9 : 0; g.p.procs[0].caps = env; int spcaps[3] = {-1, 0, 0}; for(int i = 1; i < 3; i++) spcaps[i] = g.ch(1, 3) ? 100 + 16 * g.rnd(1, 63) + g.rnd(0, 5) : g.ch(1, 5) ? -1 : g.rnd(0, 5); // how each space is configured
	// uses as much as possible at once
	auto burst = [&](Ops& o) {
		int n = g.rnd(1, 6), m = g.rnd(0, 6), c = g.rnd(0, 4); for(int i = 0; i < n; i++) o.push_back(O(OP_MTRY, i)); for(int i = 0; i < c; i++) o.push_back(O(OP_CTIMED, i, 0, 5));
		for(int i = 0; i < m; i++) o.push_back(O(g.ch(1, 2) ? OP_WRTRY : OP_RDTRY, 100, 1000 * i, 10)); o.push_back(O(OP_CS, 5)); for(int i = 0; i < m; i++) o.push_back(O(OP_RWUNLOCK, 100, 1000 * i, 10)); for(int i = 0; i < n; i++) o.push_back(O(OP_MUNLOCK, i)); };
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.caps = env; q.delay = g.delay(); int nt = g.p.scen == 0 ? g.rnd(1, 2) : 1; 
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			if(g.p.scen == 0) { for(int k = g.rnd(0, 2); k > 0; k--) g.section(tp.ops, rs, 2, 60, true); Ops o; g.section(o, rs, 2, 40, true); bool leave = g.ch(1, 2); for(auto& x : o) { if(leave && (x.k == OP_MUNLOCK || x.k == OP_RWUNLOCK)) continue; tp.ops.push_back(x); } if(t == 0) { if(!leave || nt > 1) g.end0(tp.ops); if(g.ch(1, 2)) tp.ops.push_back(O(OP_PEXIT)); } }
			else for(int k = g.rnd(1, 3); k > 0; k--) { for(int z = g.rnd(0, 2); z > 0; z--) g.section(tp.ops, rs, 2, 60, true); Ops un; if(g.ch(1, 4)) { Res x = rs[r.below(rs.size())]; tp.ops.push_back(g.acq(x, true, 0)); if(g.ch(1, 2)) un.push_back(g.rel(x)); } if(g.ch(1, 5)) { tp.ops.push_back(bad_reinit(g)); if(g.ch(1, 2)) tp.ops.push_back(O(OP_CS, g.rnd(0, 300))); for(auto& u : un) tp.ops.push_back(u); } int sp = g.rnd(0, 2); tp.ops.push_back(O(OP_REINIT, sp, spcaps[sp])); for(int z = g.rnd(0, 2); z > 0; z--) { if(g.ch(1, 2)) burst(tp.ops); else g.section(tp.ops, rs, 2, 60, true); } }
			if(g.p.scen == 0 && nt > 1) for(auto& x : tp.ops) { if(x.k == OP_MLOCK) x.k = OP_MTRY; if(x.k == OP_RD) x.k = OP_RDTRY; if(x.k == OP_WR) x.k = OP_WRTRY; } // a lock left behind must not block the thread its owner joins
			q.thr.push_back(tp);
		}
	}
}
static void gen_C20(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(3); bool crash = g.p.scen == 1; int rb = crash ? g.rnd(1, 2) : g.rnd(0, 2); int fu = g.pick({0, 1, 1, 2}); RV rs; SF sf; rs.push_back(M(0, 0)); rs.push_back(M(1, 1)); ranges(g, rs, sf, g.rnd(1, 2), g.ch(1, 2)); int np = g.rnd(2, 4); bool cond = g.p.scen == 2;
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); g.opens(t.ops, rs, sf); if(cond) { t.ops.push_back(O(OP_QUIESCE)); t.ops.push_back(O(OP_FLUSH)); } t.ops.push_back(O(OP_WAITALL)); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); int nt = g.rnd(1, 3);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			for(int k = g.rnd(1, g.tier ? 8 : 5); k > 0; k--) {
				int w = g.rnd(0, 5);
				if(cond && w == 0) { tp.ops.push_back(O(OP_MLOCK, 0)); if(g.ch(1, 2)) tp.ops.push_back(O(OP_CWAIT, 0, 0)); else tp.ops.push_back(O(OP_CTIMED, 0, 0, g.pick({5, 100, 2000}))); tp.ops.push_back(O(OP_MUNLOCK, 0)); }
				else if(cond && w == 1) tp.ops.push_back(O(g.ch(1, 2) ? OP_CSIG : OP_CBC, 0));
				else if(w == 2 && !rs.back().mtx) tp.ops.push_back(O(OP_ISLOCKED, rs.back().ref, rs.back().off, rs.back().len));
				else g.section(tp.ops, rs, 3, 60, true);
			}
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
	if(crash) { for(auto& x : rs) (void)x; g.kill_some(1, 1 + np, 1); }
	g.stall_some(1, 1 + np, g.rnd(0, 2));
}
static void gen_C21(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(2); int rb = g.rnd(0, 2), fu = g.rnd(0, 2); RV rs; SF sf; sf[0] = 0; sf[1] = 0; sf[2] = 1; rs.push_back(R(0, 0, 100, 10)); bool ov = g.ch(1, 3); if(g.p.scen) { rs.push_back(ov ? R(1, g.pick({50, 20, 0}), g.pick({100, 10, 30}), 10) : R(1, 0, 100, 10)); rs.push_back(R(0, 200, 50, 11)); rs.push_back(R(2, 0, 100, 12)); } ov = ov && g.p.scen; /* two different overlapping ranges share one entry (known finding KF2): then only these ranges are asked for */ if(g.ch(1, 3)) g.p.flags |= 4; int np = g.rnd(1, 3);
	auto query = [&](Ops& o) { if(ov || g.ch(1, 2)) { Res x = rs[r.below(rs.size())]; o.push_back(O(OP_ISLOCKED, x.ref, x.off, x.len)); } else o.push_back(O(OP_ISLOCKED, g.rnd(0, 2), g.pick({0, 10, 50, 99, 100, 149, 150, 199, 200, 249, 250, 1000}), g.pick({1, 10, 50, 500, -1}))); };
	{ ProcProg& q = g.proc(rb, fu); ThreadProg t; t.ops.push_back(O(OP_INIT)); for(auto& s : sf) t.ops.push_back(O(OP_OPEN, s.first, s.second)); for(int k = g.rnd(3, 10); k > 0; k--) { query(t.ops); if(g.ch(1, 2)) t.ops.push_back(O(OP_CS, g.rnd(0, 80))); } t.ops.push_back(O(OP_WAITALL)); for(int k = 0; k < 4; k++) query(t.ops); g.audit_block(t.ops, rs); q.thr.push_back(t); }
	for(int i = 0; i < np; i++) { ProcProg& q = g.proc(rb, fu); q.delay = g.delay(); int nt = g.rnd(1, 2); for(int t = 0; t < nt; t++) { ThreadProg tp; if(t == 0) for(auto& s : sf) tp.ops.push_back(O(OP_OPEN, s.first, s.second)); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt)); for(int k = g.rnd(1, 5); k > 0; k--) { Ops o; g.section(o, rs, 2, 120, true); for(auto& x : o) { tp.ops.push_back(x); if(g.ch(1, 5)) query(tp.ops); } } if(t == 0) g.end0(tp.ops); q.thr.push_back(tp); } }
}
static void gen_C22(Gen& g)
{
	Rng& r = g.r; g.p.scen = (int)r.below(4); int rb = g.rnd(1, 2), fu = g.pick({0, 1, 1, 2});
	if(g.p.scen == 3) {
		// threads of one process which end with their mutexes locked beside threads which keep theirs
		std::vector<int> nms = {0, 1, 2, 3, 4, 5}; int nt = g.rnd(3, 5); ProcProg& q = g.proc(rb, fu); q.chkcnt = g.pick({50, 50, 90});
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; int k = (int)r.below(nms.size()), nm = nms[k]; nms.erase(nms.begin() + k); bool dies = t && g.ch(1, 2); tp.ops.push_back(O(OP_CS, g.rnd(0, 300)));
			for(int i = g.ch(1, 3) ? 2 : 1; i > 0; i--) tp.ops.push_back(O(OP_MLOCK, nm));
			tp.ops.push_back(g.ch(1, 2) ? O(OP_CS, g.rnd(0, 500)) : O(OP_SLEEP, g.pick({50, 500, 3000})));
			if(dies) tp.ops.push_back(O(OP_TEXIT));
			else { for(int i = g.rnd(1, 4); i > 0; i--) tp.ops.push_back(g.ch(1, 2) ? O(OP_CS, g.rnd(100, 2000)) : O(OP_SLEEP, g.pick({500, 3000, 20000}))); tp.ops.push_back(O(OP_RELALL)); }
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
		for(int i = g.rnd(1, 2); i > 0; i--) { ProcProg& c = g.proc(rb, fu); c.chkcnt = g.pick({50, 50, 90}); c.delay = g.delay(); ThreadProg tp; for(int k = g.rnd(2, 6); k > 0; k--) { RV one; one.push_back(M((int)r.below(6), 0)); g.section(tp.ops, one, 1, 60, false); if(g.ch(1, 3)) tp.ops.push_back(O(OP_SLEEP, g.pick({50, 500, 3000}))); } c.thr.push_back(tp); }
		return;
	}
	RV rs; SF sf; rs.push_back(M(0, 0)); if(g.ch(1, 2)) rs.push_back(R(100, 0, 10, 10)); sf[0] = 0; rs.push_back(R(0, 0, 100, 11)); int np = g.rnd(2, 3);
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb, fu); q.chkcnt = g.pick({50, 50, 90}); q.uid = g.p.scen == 0 ? 0 : g.pick({0, 1000, 1001}); q.delay = g.delay(); int nt = g.rnd(1, 2);
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(t == 0) g.opens(tp.ops, rs, sf); if(nt > 1) tp.ops.push_back(O(OP_BARRIER, 1 + i, nt));
			for(int k = g.rnd(1, 4); k > 0; k--) { Ops o; g.section(o, rs, 2, 50, true); for(auto& x : o) { tp.ops.push_back(x); if(x.k == OP_CS && g.ch(1, 2)) { if(g.ch(1, 2)) tp.ops.push_back(O(OP_SLEEP, g.pick({50, 500, 3000, 20000}))); else tp.ops.push_back(O(OP_CS, g.rnd(100, 4000))); } } }
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
	}
	if(g.p.scen == 2) for(int k = g.rnd(1, 3); k > 0; k--) { int who = g.rnd(0, np - 1); int s = S_STAT; g.fault(F_SYSERR, who, 0, s, g.rnd(6, 30), g.pick({EMFILE, ENOMEM, EACCES, EIO, EINTR}), g.pick({1, 3, 20})); g.p.faults.back().c = 2 /* once attached */; }
	// an unrelated process that comes and dies makes the workers scan
	if(g.ch(1, 2)) { ProcProg& q = g.proc(rb, fu); q.delay = g.rnd(500, 4000); ThreadProg t; t.ops.push_back(O(OP_MTRY, 9)); t.ops.push_back(O(OP_CS, g.rnd(0, 200))); t.ops.push_back(O(OP_MUNLOCK, 9)); q.thr.push_back(t); if(g.ch(1, 2)) g.fault(F_KILL, np, 0, 1, g.rnd(0, 200), g.reap()); }
}

// where the lock space is: settings, spellings, permissions
static void gen_C23(Gen& g)
{
	Rng& r = g.r; g.p.flags |= PF_PATHS; g.p.scen = (int)r.below(3); if(g.ch(1, 2)) g.p.flags |= 2; int rb = g.rnd(0, 2); int np = g.rnd(2, 5); RV rs; rs.push_back(M(0, 0)); rs.push_back(R(100, 0, 10, 10));
	int dirs = g.rnd(1, 2), third = g.ch(1, 2) ? 3 : 2, files = g.rnd(1, 2); bool users = g.p.scen != 1 && g.ch(1, 2);
	auto code = [&]() { return 100 * (g.ch(1, 6) ? 0 : g.ch(dirs - 1, 2) ? third : 1) + 10 * (g.ch(1, 5) ? 0 : g.ch(1, 5) ? 3 : g.rnd(1, files)) + (g.ch(1, 12) ? 7 : g.rnd(0, 6)); };
	for(int i = 0; i < np; i++) {
		ProcProg& q = g.proc(rb); q.delay = g.ch(1, 2) ? g.rnd(0, 400) : g.rnd(0, 6000); q.dirmode = 1000 + code(); q.mask = 8 * (g.ch(1, 2) ? 0 : users ? g.rnd(1, 4) : g.rnd(1, 3)) + g.rnd(0, 3); if(users) q.uid = g.pick({0, 1000, 1001}); q.nomap = g.p.scen == 2 || users ? 1 : g.pick({1, 3});
		int nt = g.p.scen != 2 && g.ch(1, 4) ? 2 : 1;
		for(int t = 0; t < nt; t++) {
			ThreadProg tp; if(g.p.scen == 2 || (nt == 1 && g.ch(1, 3))) tp.ops.push_back(O(OP_INIT)); if(!tp.ops.empty() && g.ch(1, 2)) tp.ops.push_back(O(OP_CHDIR, 1));
			for(int k = g.rnd(1, 3); k > 0; k--) g.section(tp.ops, rs, 1, 60, false);
			if(nt == 1) for(int k = g.rnd(0, g.p.scen == 2 ? 2 : 3); k > 0; k--) { if(g.ch(1, 3)) tp.ops.push_back(O(OP_CHDIR, g.rnd(0, 1))); if(g.ch(1, 8)) tp.ops.push_back(bad_reinit(g)); tp.ops.push_back(O(OP_REINIT, code())); for(int z = g.rnd(0, 2); z > 0; z--) g.section(tp.ops, rs, 1, 60, false); }
			if(t == 0) g.end0(tp.ops); q.thr.push_back(tp);
		}
		if(g.p.scen == 2 && g.ch(2, 3)) { static const int sys[] = {S_OPEN, S_MKDIR, S_STAT, S_FCNTL, S_FTRUNC, S_PWRITE, S_MMAP, 22}; int s = sys[r.below(8)]; g.fault(F_SYSERR, i, 0, s, g.rnd(1, (s == S_MKDIR || s == S_STAT ? 5 : s == 22 ? 1 : 3) * (g.ch(1, 2) ? 4 : 1)), s == 22 ? ENOENT : g.pick({EACCES, ENOSPC, EIO}), g.pick({1, 2, 1000})); g.p.faults.back().c = s == S_STAT; }
	}
}

// misuse beside correct use: the programs of other properties with calls that have to be refused put in between
static void gen_C24(Gen& g)
{
	Rng& r = g.r; int base = g.pick({0, 0, 1, 2, 3, 3, 4, 5}); 
	switch(base) { case 0: gen_C14(g); break; case 1: gen_C02(g); break; case 2: gen_rw(g, false, false); break; case 3: gen_C10(g); break; case 4: gen_C11(g); break; default: gen_C04(g); break; }
	g.p.scen = base; Program& p = g.p; std::vector<Op> rw, mx, cn;
	for(auto& q : p.procs) for(auto& t : q.thr) for(auto& o : t.ops) {
		if(o.k >= OP_RD && o.k <= OP_WRTIMED) rw.push_back(o); if(o.k >= OP_MLOCK && o.k <= OP_MTIMED) mx.push_back(o); if(o.k == OP_CWAIT || o.k == OP_CTIMED) cn.push_back(o);
	}
	for(size_t i = base == 0 || base == 3 ? 1 : 0; i < p.procs.size(); i++) for(auto& t : p.procs[i].thr) {
		if(g.ch(1, 3)) continue; size_t first = 0; for(size_t k = 0; k < t.ops.size(); k++) if(t.ops[k].k == OP_OPEN || t.ops[k].k == OP_BARRIER) first = k + 1;
		for(int n = g.rnd(1, 4); n > 0; n--) {
			Op o = O(OP_BADCALL, g.rnd(0, 17), mx.empty() ? 0 : mx[r.below(mx.size())].v[0]); int w = g.rnd(0, 9);
			if(w < 3 && !rw.empty()) { o = rw[r.below(rw.size())]; o = O(OP_RWUNLOCK, g.ch(1, 4) ? o.v[0] ^ 1 : o.v[0], o.v[1], o.v[2], 2); }
			else if(w < 5 && !mx.empty()) o = O(OP_MUNLOCK, mx[r.below(mx.size())].v[0], 2);
			size_t at = first + r.below(t.ops.size() - first + 1); if(at > t.ops.size()) at = t.ops.size(); while(at > first && at <= t.ops.size() && at > 0 && (t.ops[at - 1].k == OP_JOINALL || t.ops[at - 1].k == OP_TEXIT || t.ops[at - 1].k == OP_PEXIT || t.ops[at - 1].k == OP_WAITALL)) at--;
			t.ops.insert(t.ops.begin() + at, o);
		}
	}
	// waits on a condition with a mutex somebody else owns all the time
	if(base >= 3 && !cn.empty() && g.ch(2, 3)) {
		ProcProg& q = g.proc(p.procs[0].robust); q.delay = g.delay(); int n = g.rnd(1, 2);
		ThreadProg h; h.ops.push_back(O(OP_MLOCK, 5)); h.ops.push_back(O(OP_SETFLAG, 9)); h.ops.push_back(O(OP_WAITFLAG, 10, -1, n)); h.ops.push_back(O(OP_MUNLOCK, 5)); g.end0(h.ops); q.thr.push_back(h);
		for(int i = 0; i < n; i++) { ThreadProg t; t.ops.push_back(O(OP_WAITFLAG, 9, -1, 1)); for(int k = g.rnd(2, 12); k > 0; k--) { Op o = cn[r.below(cn.size())]; t.ops.push_back(g.ch(1, 2) ? O(OP_CWAIT, o.v[0], 5, 0, 1) : O(OP_CTIMED, o.v[0], 5, g.pick({1, 100, 3000}), 1)); if(g.ch(1, 3)) t.ops.push_back(O(OP_CS, g.rnd(0, 40))); } t.ops.push_back(O(OP_SETFLAG, 10)); q.thr.push_back(t); }
	}
}

Program gen_program(const std::string& prop, u64 seed, int tier)
{
	Gen g(prop, seed, tier); int n = prop.size() == 3 ? (prop[1] - '0') * 10 + prop[2] - '0' : 0;
	static void (*const fn[])(Gen&) = {nullptr, gen_C01, gen_C02, gen_C03, gen_C04, gen_C05, gen_C06, gen_C07, gen_C08, gen_C09, gen_C10, gen_C11, gen_C12, gen_C13, gen_C14, gen_C15, gen_C16, gen_C17, gen_C18, gen_C19, gen_C20, gen_C21, gen_C22, gen_C23, gen_C24};
	if(n >= 1 && n <= 24) fn[n](g);
	if(g.ch(1, 5)) g.p.flags |= g.rnd(1, 6) << 9; // the ranges lie elsewhere in the file
	Rng ir(seed ^ 0x519a1); // signals, slow calls
	if(ir.chance(1, 4)) for(size_t i = 0; i < g.p.procs.size(); i++) if(ir.chance(2, 3)) g.fault(F_EINTR, (int)i, 0, ir.chance(3, 4) ? S_EPWAIT : S_NANOSLEEP, 1 + (int)ir.below(4), 0, 1 + (int)ir.below(20));
	if(n == 15 && ir.chance(1, 5)) { static const int sys[] = {S_OPEN, S_FCNTL, S_FTRUNC, S_PWRITE, S_MMAP, S_FSTAT, S_PTCREATE}; g.fault(F_SLOW, (int)ir.below(g.p.procs.size()), 0, sys[ir.below(7)], 1 + (int)ir.below(3), 100000 + (int)ir.below(600000), 1); }
	else if((n == 5 || n == 6 || n == 12 || n == 20 || n == 22) && ir.chance(1, 8)) { static const int sys[] = {S_OPEN, S_FCNTL, S_STAT, S_FSTAT, S_READ, S_EPWAIT, S_MMAP}; g.fault(F_SLOW, (int)ir.below(g.p.procs.size()), 0, sys[ir.below(7)], 1 + (int)ir.below(20), 100 + (int)ir.below(20000), 1 + (int)ir.below(3)); }
	Rng er(seed ^ 0x5e77e5); // the spelling of the modes in the environment, or the setter functions instead
	if(er.chance(1, 3)) for(auto& q : g.p.procs) { bool re = false; for(auto& t : q.thr) for(auto& o : t.ops) if(o.k == OP_REINIT || o.k == OP_INIT) re = true; int e = 0; for(int b = 0; b < 8; b += 2) { int k = (int)er.below(4); if(b < 6 && k == 3 && (re || !q.autoinit)) k = 1; e |= k << b; } if(!re && q.autoinit && er.chance(1, 2)) e |= 256; q.env = e; }
	return g.p;
}
std::vector<Program> fixed_programs(const std::string&) { return {}; }
