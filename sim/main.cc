// Search, minimise, replay.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/personality.h>
#include <sstream>
#include <fstream>
#include <algorithm>

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
std::string prog_print(const Program& p)
{
	std::ostringstream o; char b[512];
	snprintf(b, sizeof b, "prog prop=%s scen=%d kseed=%llu sseed=%llu yq=%llu t0=%llu s1=%llu s2=%llu pol=%d q=%d nfiles=%d prior=%d flags=%d\n", p.prop.c_str(), p.scen, (unsigned long long)p.kseed, (unsigned long long)p.sseed, (unsigned long long)p.yq, (unsigned long long)p.t0, (unsigned long long)p.s1, (unsigned long long)p.s2, p.pol, p.quantum, p.nfiles, p.prior, p.flags); o << b;
	for(auto& q : p.procs) {
		snprintf(b, sizeof b, "proc uid=%d space=%d robust=%d nomap=%d freeu=%d chkcnt=%d caps=%d start=%d delay=%d autoinit=%d dirmode=%d mask=%d env=%d\n", q.uid, q.space, q.robust, q.nomap, q.freeu, q.chkcnt, q.caps, q.start, q.delay, q.autoinit, q.dirmode, q.mask, q.env); o << b;
		for(auto& t : q.thr) { o << "thr\n"; for(auto& x : t.ops) { o << "op " << opnames[x.k]; int n = 6; while(n && !x.v[n - 1]) n--; for(int i = 0; i < n; i++) o << " " << x.v[i]; o << "\n"; } }
	}
	static const char* fk[] = {"kill", "stall", "syserr", "killworker", "killinit", "eintr", "slow"};
	for(auto& f : p.faults) { snprintf(b, sizeof b, "fault %s proc=%d thr=%d op=%d step=%d a=%d b=%d c=%d\n", fk[f.kind], f.proc, f.thr, f.op, f.step, f.a, f.b, f.c); o << b; }
	if(p.has_segs) { o << "segs"; int n = 0; for(auto& s : p.segs) { if(n++ % 24 == 0 && n > 1) o << "\nsegs"; o << " " << s.first << ":" << s.second; } o << "\n"; }
	if(!p.expect_class.empty()) { snprintf(b, sizeof b, "expect hash=%016llx class=%s\n", (unsigned long long)p.expect_hash, p.expect_class.c_str()); o << b; }
	return o.str();
}
bool prog_parse(const std::string& s, Program& p)
{
	std::istringstream in(s); std::string line; p = Program();
	while(std::getline(in, line)) {
		std::istringstream l(line); std::string w; l >> w; if(w.empty() || w[0] == '#') continue;
		std::map<std::string, std::string> kv; std::vector<std::string> rest; std::string x;
		while(l >> x) { size_t e = x.find('='); if(e != std::string::npos) kv[x.substr(0, e)] = x.substr(e + 1); else rest.push_back(x); }
		auto num = [&](const char* k, u64 d = 0) { auto it = kv.find(k); return it == kv.end() ? d : strtoull(it->second.c_str(), nullptr, 10); };
		auto inum = [&](const char* k) { auto it = kv.find(k); return it == kv.end() ? 0 : atoi(it->second.c_str()); };
		if(w == "prog") { p.prop = kv["prop"]; p.scen = inum("scen"); p.kseed = num("kseed"); p.sseed = num("sseed"); p.yq = num("yq"); p.t0 = num("t0"); p.s1 = num("s1"); p.s2 = num("s2"); p.pol = inum("pol"); p.quantum = inum("q"); p.nfiles = inum("nfiles"); p.prior = inum("prior"); p.flags = inum("flags"); }
		else if(w == "proc") { ProcProg q; q.uid = inum("uid"); q.space = inum("space"); q.robust = inum("robust"); q.nomap = inum("nomap"); q.freeu = inum("freeu"); q.chkcnt = inum("chkcnt"); q.caps = inum("caps"); q.start = inum("start"); q.delay = inum("delay"); q.autoinit = inum("autoinit"); q.dirmode = inum("dirmode"); q.mask = inum("mask"); q.env = inum("env"); p.procs.push_back(q); }
		else if(w == "thr") p.procs.back().thr.push_back(ThreadProg());
		else if(w == "op") { Op o; memset(&o, 0, sizeof o); for(int i = 0; i < OP_MAX; i++) if(rest[0] == opnames[i]) o.k = i; for(size_t i = 1; i < rest.size() && i < 7; i++) o.v[i - 1] = atoi(rest[i].c_str()); p.procs.back().thr.back().ops.push_back(o); }
		else if(w == "fault") { Fault f; static const char* fk[] = {"kill", "stall", "syserr", "killworker", "killinit", "eintr", "slow"}; for(int i = 0; i < 7; i++) if(rest[0] == fk[i]) f.kind = i; f.proc = inum("proc"); f.thr = inum("thr"); f.op = inum("op"); f.step = inum("step"); f.a = inum("a"); f.b = inum("b"); f.c = inum("c"); p.faults.push_back(f); }
		else if(w == "segs") { p.has_segs = true; for(auto& r : rest) { int a, b; if(sscanf(r.c_str(), "%d:%d", &a, &b) == 2) p.segs.push_back({a, b}); } }
		else if(w == "expect") { p.expect_hash = strtoull(kv["hash"].c_str(), nullptr, 16); p.expect_class = kv["class"]; }
	}
	return !p.procs.empty();
}
static u64 g_runs;
static Outcome runp(Program& p, bool record, bool trace = false) { g_runs++; return run_program(p, record, trace); }

//---------------------------------------------------------------- minimisation
static size_t weight(const Program& p) { size_t n = p.faults.size() * 3; for(auto& q : p.procs) for(auto& t : q.thr) for(auto& o : t.ops) if(o.k != OP_NOP) n++; return n; }
static bool structural(int k) { return k == OP_BARRIER || k == OP_SPAWN; }
static bool same(const Outcome& o, const std::string& cls) { return o.violated && o.cls == cls; }
// Tries the candidate with its schedule, then with fresh seeds.
static bool attempt(Program& c, const std::string& cls, double until, int fresh, Rng& r)
{
	if(c.has_segs) { Program d = c; Outcome o = runp(d, false); if(same(o, cls)) { d.segs = g_last_segs; c = d; return true; } }
	for(int i = 0; i < fresh && wall() < until; i++) { Program d = c; d.has_segs = false; d.segs.clear(); d.sseed = r.next() % 1000000007; if(i & 1) d.kseed = r.next() % 1000000007; Outcome o = runp(d, true); if(same(o, cls)) { c = d; return true; } }
	return false;
}
static Program minimise(Program p, const std::string& cls, double secs)
{
	double until = wall() + secs; Rng r(p.sseed + 17); Program best = p; bool progress = true; int round = 0;
	while(progress && wall() < until && round++ < 4) {
		progress = false;
		for(size_t i = best.faults.size(); i-- > 0 && wall() < until;) { Program c = best; c.faults.erase(c.faults.begin() + i); if(attempt(c, cls, until, 2, r)) { best = c; progress = true; } }
		// whole threads, then chunks of operations
		for(size_t pi = 0; pi < best.procs.size() && wall() < until; pi++) for(size_t ti = 0; ti < best.procs[pi].thr.size() && wall() < until; ti++) {
			size_t n = best.procs[pi].thr[ti].ops.size();
			for(size_t ch = n; ch >= 1 && wall() < until; ch = ch / 2) for(size_t s = 0; s < n && wall() < until; s += ch) {
				Program c = best; bool any = false; auto& ops = c.procs[pi].thr[ti].ops;
				for(size_t k = s; k < s + ch && k < n; k++) if(ops[k].k != OP_NOP && !structural(ops[k].k)) { ops[k].k = OP_NOP; memset(ops[k].v, 0, sizeof ops[k].v); any = true; }
				if(any && attempt(c, cls, until, ch > 2 ? 4 : 2, r)) { best = c; progress = true; }
			}
		}
	}
	// schedule: cut the tail, then merge neighbouring segments of one thread away
	for(size_t cut = best.segs.size() / 2; cut >= 1 && wall() < until; cut /= 2) { bool ok = true; while(ok && best.segs.size() > cut && wall() < until) { Program c = best; c.segs.resize(c.segs.size() - cut); Outcome o = runp(c, false); if((ok = same(o, cls))) { c.segs = g_last_segs; if(c.segs.size() >= best.segs.size()) ok = false; else best = c; } } }
	for(size_t ch = best.segs.size() / 2; ch >= 1 && wall() < until; ch /= 2) for(size_t s = 0; s + ch <= best.segs.size() && wall() < until;) { Program c = best; c.segs.erase(c.segs.begin() + s, c.segs.begin() + s + ch); Outcome o = runp(c, false); if(same(o, cls)) { c.segs = g_last_segs; if(c.segs.size() < best.segs.size()) best = c; else s += ch; } else s += ch; }
	// drop what has become empty at the end of threads
	{ Program c = best; for(auto& q : c.procs) for(auto& t : q.thr) while(!t.ops.empty() && t.ops.back().k == OP_NOP) t.ops.pop_back(); Outcome o = runp(c, false); if(same(o, cls)) { c.segs = g_last_segs; best = c; } }
	Program fin = best; Outcome o = runp(fin, false); if(!same(o, cls)) { fin = p; o = runp(fin, false); }
	fin.segs = g_last_segs; o = runp(fin, false); fin.expect_hash = o.hash; fin.expect_class = o.cls; return fin;
}
static std::string jesc(const std::string& s) { std::string r; for(char c : s) { if(c == '"' || c == '\\') r += '\\'; if(c == '\n') { r += "\\n"; continue; } if((unsigned char)c < 32) continue; r += c; } return r; }

int main(int argc, char** argv)
{
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if(personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("FLSIM_NOREEXEC")) { setenv("FLSIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
	std::map<std::string, std::string> opt; std::vector<std::string> pos, progs;
	for(int i = 1; i < argc; i++) { if(!strncmp(argv[i], "--", 2)) { std::string k = argv[i] + 2; if(k == "prog" && i + 1 < argc) { progs.push_back(argv[++i]); continue; } opt[k] = i + 1 < argc && strncmp(argv[i + 1], "--", 2) ? argv[++i] : "1"; } else pos.push_back(argv[i]); }
	if(pos.empty()) { fprintf(stderr, "usage: flsim search|replay|one|gen ...\n"); return 2; }
	std::string dir = opt.count("so") ? opt["so"] : "."; if(dir == ".") { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; dir = b; dir = dir.substr(0, dir.rfind('/')); }
	auto onum = [&](const char* k, u64 d) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 10) : d; };
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if(pos[0] == "gen") { Program p = gen_program(pos[1], strtoull(pos[2].c_str(), nullptr, 10), (int)onum("tier", 0)); fputs(prog_print(p).c_str(), stdout); return 0; }
	core_init(dir.c_str());
	if(pos[0] == "replay") {
		std::ifstream f(pos[1]); std::stringstream ss; ss << f.rdbuf(); Program p; if(!prog_parse(ss.str(), p)) { fprintf(stderr, "cannot read %s\n", pos[1].c_str()); return 2; }
		Outcome o = runp(p, !p.has_segs, opt.count("trace")); bool exact = p.expect_class.empty() || (o.hash == p.expect_hash && (o.violated ? o.cls : std::string("none")) == p.expect_class);
		printf("replay: %s%s%s hash=%016llx exact=%d steps=%llu\n", o.violated ? "VIOLATED " : o.known.empty() ? "held" : "KNOWN ", o.violated ? (o.cls + ": " + o.msg).c_str() : o.known.c_str(), "", (unsigned long long)o.hash, exact, (unsigned long long)o.st.steps);
		return o.violated ? (exact ? 1 : 3) : 0;
	}
	if(pos[0] == "one") {
		u64 seed = strtoull(pos[2].c_str(), nullptr, 10); Program p = gen_program(pos[1], seed, (int)onum("tier", 0)); Outcome o = runp(p, true, opt.count("trace"));
		printf("%s %s hash=%016llx steps=%llu segs=%llu simtime=%llu us\n", o.violated ? ("VIOLATED " + o.cls + ": " + o.msg).c_str() : "held", o.known.c_str(), (unsigned long long)o.hash, (unsigned long long)o.st.steps, (unsigned long long)o.st.segs, (unsigned long long)o.st.simtime / 1000);
		if(opt.count("save")) { std::ofstream f(opt["save"]); p.expect_hash = o.hash; p.expect_class = o.violated ? o.cls : "none"; f << prog_print(p); }
		Program q = p; Outcome o2 = runp(q, false); printf("replay %s hash=%016llx\n", o2.violated ? o2.cls.c_str() : "held", (unsigned long long)o2.hash);
		return o.violated;
	}
	if(pos[0] == "search") {
		std::string prop = opt["prop"]; u64 base = onum("seed", 1), w = onum("worker", 0), nw = onum("nw", 1), maxruns = onum("runs", ~0ull); double secs = atof(opt.count("secs") ? opt["secs"].c_str() : "10"); int tier = (int)onum("tier", 0); std::string out = opt["out"];
		double t0 = wall(), tend = t0 + secs; u64 runs = 0, nontriv = 0, segs = 0, det = 0, detbad = 0, inconcl = 0; RunStats tot; memset(&tot, 0, sizeof tot); std::map<std::string, u64> known; std::map<std::string, std::string> knownmsg; std::map<int, u64> scens;
		bool viol = false; Program bad; Outcome bo; u64 badseed = 0; std::set<u64> hashes; std::string firstknown;
		std::map<std::string, std::pair<u64, std::string>> classes; bool all = opt.count("all");
		std::vector<Program> corpus; for(auto& fn : progs) { std::ifstream f(fn); std::stringstream ss; ss << f.rdbuf(); Program q; if(!prog_parse(ss.str(), q)) { fprintf(stderr, "cannot read %s\n", fn.c_str()); return 2; } q.prop = prop; corpus.push_back(q); }
		bool progonly = opt.count("progonly"); u64 corpus_runs = 0, expected_seen = 0; std::string expect = opt.count("expect") ? opt["expect"] : "", sample;
		for(u64 i = w; runs < maxruns && wall() < tend; i += nw) {
			u64 seed = base * 1000003ull + i; bool fromc = !corpus.empty() && (progonly || (i / nw) % 5 == 4); Program p;
			if(fromc) { Rng cr(seed * 31 + 5); p = corpus[progonly ? i % corpus.size() : (i / nw / 5) % corpus.size()]; p.has_segs = false; p.segs.clear(); p.kseed = cr.next() % 1000000007; p.sseed = cr.next() % 1000000007; p.pol = (int)cr.below(4); p.quantum = 3 + (int)cr.below(cr.chance(1, 2) ? 20 : 100); p.expect_class = ""; for(auto& x : p.faults) if(x.kind == F_KILL && x.b) x.step = std::max(0, x.step - x.b / 2 + (int)cr.below(x.b)); corpus_runs++; }
			else p = gen_program(prop, seed, tier);
			Outcome o = runp(p, true); runs++; scens[fromc ? 100 : p.scen]++;
			if(sample.empty() && o.st.ops > 2) { Program q = p; q.has_segs = false; sample = prog_print(q) + "result: " + (o.violated ? o.cls : std::string("held")) + ", " + std::to_string(o.st.steps) + " steps, " + std::to_string(o.st.segs) + " context switches"; }
			if(!expect.empty() && ((o.violated && o.cls == expect) || (!o.known.empty() && o.known.substr(0, o.known.find(' ')) == expect))) { expected_seen++; hashes.insert(o.hash); const RunStats& s = o.st; u64* a = (u64*)&tot; const u64* b = (const u64*)&s; for(size_t k = 0; k < sizeof(RunStats) / 8; k++) a[k] += b[k]; if(expected_seen >= 3) break; continue; }
			bool viol0 = o.violated;
			if(o.violated && o.cls == "app-deadlock" && !all) { inconcl++; if(opt.count("appdl")) printf("app-deadlock seed %llu: %s\n", (unsigned long long)seed, o.msg.c_str()); o.violated = false; }
			const RunStats& s = o.st; u64* a = (u64*)&tot; const u64* b = (const u64*)&s; for(size_t k = 0; k < sizeof(RunStats) / 8; k++) a[k] += b[k];
			if(s.ops > 2) { nontriv++; hashes.insert(o.hash); }
			if(!o.known.empty()) { std::string k = o.known.substr(0, o.known.find(' ')); if(!known[k]++) knownmsg[k] = o.known; if(opt.count("saveknown") && known[k] == 1) { std::ofstream f(opt["saveknown"] + "." + k + "." + std::to_string(w)); p.expect_hash = o.hash; p.expect_class = "none"; f << prog_print(p); } }
			if(runs % 64 == 1) { Program q = p; Outcome o2 = runp(q, false); det++; if(o2.hash != o.hash || o2.violated != viol0 || o2.cls != o.cls) { detbad++; fprintf(stderr, "DIVERGED prop %s seed %llu: %016llx %016llx %s %s\n", prop.c_str(), (unsigned long long)seed, (unsigned long long)o.hash, (unsigned long long)o2.hash, o.cls.c_str(), o2.cls.c_str()); } }
			if(o.violated) {
				if(all) { auto& c = classes[o.cls]; if(!c.first++) { c.second = o.msg + " seed=" + std::to_string(seed); } continue; }
				viol = true; bad = p; bo = o; badseed = seed; break;
			}
		}
		double twall = wall() - t0;
		if(all) { for(auto& c : classes) printf("%6llu %-18s %s\n", (unsigned long long)c.second.first, c.first.c_str(), c.second.second.c_str()); for(auto& k : known) printf("%6llu known %s\n", (unsigned long long)k.second, knownmsg[k.first].c_str()); printf("runs %llu, %.0f/s, steps %llu, detbad %llu/%llu\n", (unsigned long long)runs, runs / twall, (unsigned long long)tot.steps, (unsigned long long)detbad, (unsigned long long)det); }
		std::string rep;
		if(viol) {
			bad.expect_hash = bo.hash; bad.expect_class = bo.cls; Program m = minimise(bad, bo.cls, opt.count("minsecs") ? atof(opt["minsecs"].c_str()) : 25);
			Program m2 = m; Outcome o = runp(m2, false); rep = out + ".replay"; std::ofstream f(rep); f << "# property " << prop << ", seed " << badseed << ", class " << bo.cls << "\n# " << o.msg << "\n" << prog_print(m); bo.msg = o.msg;
		}
		std::ofstream f(out); f << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"wall\":" << twall << ",\"distinct_hashes\":" << hashes.size() << ",\"det_checked\":" << det << ",\"det_bad\":" << detbad << ",\"inconclusive\":" << inconcl;
		f << ",\"corpus_runs\":" << corpus_runs << ",\"expected_seen\":" << expected_seen << ",\"sample\":\"" << jesc(sample) << "\"" << ",\"steps\":" << tot.steps << ",\"segs\":" << tot.segs << ",\"simtime_ns\":" << tot.simtime << ",\"faults_kill\":" << tot.faults_kill << ",\"faults_stall\":" << tot.faults_stall << ",\"faults_sys\":" << tot.faults_sys << ",\"faults_eintr\":" << tot.faults_eintr << ",\"faults_slow\":" << tot.faults_slow << ",\"clockjumps\":" << tot.clockjumps << ",\"forks\":" << tot.forks << ",\"threads\":" << tot.threads << ",\"procs\":" << tot.procs << ",\"yields\":" << tot.yields << ",\"syscalls\":" << tot.syscalls << ",\"reinit\":" << tot.reinit << ",\"exits\":" << tot.exits << ",\"reap_delay\":" << tot.reap_delay << ",\"ops\":" << tot.ops;
		f << ",\"opc\":{"; bool c = false; for(int i = 0; i < OP_MAX; i++) if(tot.opc[i]) { f << (c ? "," : "") << "\"" << opnames[i] << "\":" << tot.opc[i]; c = true; } f << "},\"probes\":["; for(int i = 0; i < 64; i++) f << (i ? "," : "") << tot.probes[i]; f << "],\"scens\":{"; c = false; for(auto& s : scens) { f << (c ? "," : "") << "\"" << s.first << "\":" << s.second; c = true; } f << "}";
		f << ",\"known\":{"; c = false; for(auto& k : known) { f << (c ? "," : "") << "\"" << jesc(k.first) << "\":[" << k.second << ",\"" << jesc(knownmsg[k.first]) << "\"]"; c = true; } f << "}";
		if(viol) f << ",\"violation\":{\"class\":\"" << bo.cls << "\",\"msg\":\"" << jesc(bo.msg) << "\",\"seed\":" << badseed << ",\"replay\":\"" << rep << "\"}";
		f << "}\n"; f.close();
		if(opt.count("pairs")) { std::vector<u8> bits(g_pairmap.size() / 8); for(size_t i = 0; i < g_pairmap.size(); i++) if(g_pairmap[i]) bits[i / 8] |= 1 << (i & 7); FILE* fp = fopen(opt["pairs"].c_str(), "wb"); fwrite(bits.data(), 1, bits.size(), fp); fclose(fp); }
		if(viol && !opt.count("quiet")) { printf("VIOLATED %s: %s (seed %llu) after %llu runs\n", bo.cls.c_str(), bo.msg.c_str(), (unsigned long long)badseed, (unsigned long long)runs); }
		return viol ? 1 : 0;
	}
	return 2;
}
