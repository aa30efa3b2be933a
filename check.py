#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by seeded simulation of the current /repo tree.

exit 0: held on everything explored (known findings are printed); exit 1: VIOLATION line with the replay file;
exit 2: the machinery itself could not do its work."""
import os, sys, json, time, subprocess, glob, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B

def say(*a):
    print(*a, flush=True)

PROBE = {1: "answered by the unattached rules", 2: "timeouts reported", 3: "recursive acquisitions", 4: "mutex busy answers", 5: "ENOLCK answers", 6: "unlocks tried on a mutex somebody else owned",
         7: "lock acquired while others hold the range too (shared)", 8: "rwlock busy answers", 9: "islocked yes", 10: "islocked no", 11: "condition waits returning success", 12: "condition waits timed out",
         13: "signals sent while a thread was certainly waiting", 14: "lock object acquisitions", 15: "lock object failures", 16: "holds dropped by closing a descriptor", 17: "misuse refused", 40: "processes killed", 41: "processes exited"}

def known_file():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) id=(\S+) program=(\S+) class=(\S+) (.*)", line)
        if m:
            out.append(dict(property=m[1], id=m[2], program=m[3], cls=m[4], what=m[5].strip()))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("FLSIM_SECS", 40 if tier == "quick" else 700))
    nw = int(os.environ.get("FLSIM_WORKERS", min(8, os.cpu_count() or 1)))
    t0 = time.time()
    # a build directory of its own per run, so that concurrent checks do not disturb each other
    bd = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    os.environ["FLSIM_BUILD"] = bd
    B.BUILD = bd
    try:
        B.build()
        return run(prop, tier, seed, secs, nw, bd, t0)
    finally:
        shutil.rmtree(bd, ignore_errors=True)

def confirm(exe, src, prop, tag):
    """Copies a replay file to /verif/replays and replays it in a fresh process: it must fail in exactly the same way."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dst = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, tag))
    shutil.copy(src, dst)
    r = subprocess.run([exe, "replay", dst], capture_output=True, text=True, timeout=300)
    say(r.stdout.strip())
    return dst, r.returncode

def run(prop, tier, seed, secs, nw, bd, t0):
    exe = os.path.join(bd, "flsim")
    work = os.path.join(bd, "work"); os.makedirs(work, exist_ok=True)
    corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.prog")))
    known = [k for k in known_file() if k["property"] == prop]
    procs = []
    for w in range(nw):
        out = os.path.join(work, "w%d" % w)
        cmd = [exe, "search", "--prop", prop, "--seed", str(seed), "--worker", str(w), "--nw", str(nw), "--secs", str(secs), "--tier", "1" if tier == "thorough" else "0", "--out", out, "--pairs", out + ".pairs", "--quiet"]
        for c in corpus:
            cmd += ["--prog", c]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), out))
    bad = None; res = []; left = list(procs); err = None
    while left and not err:
        time.sleep(0.05)
        for p, out in list(left):
            rc = p.poll()
            if rc is None:
                continue
            left.remove((p, out)); so, se = p.communicate()
            if rc not in (0, 1) or not os.path.exists(out):
                err = "worker ended with %s: %s" % (rc, (se or so)[-1500:]); break
            d = json.load(open(out)); d["pairs"] = out + ".pairs"; d["stderr"] = se; res.append(d)
            if "violation" in d and bad is None:
                bad = d["violation"]
                for q, o2 in left:
                    q.kill(); q.wait()
                left = []
                break
    if err:
        for q, o2 in procs:
            if q.poll() is None:
                q.kill()
        say("ERROR " + err); return 2
    viol = []
    if bad:
        dst, rc = confirm(exe, bad["replay"], prop, bad["class"])
        if rc == 0:
            say("ERROR the recorded execution of seed %s did not fail again" % bad["seed"]); return 2
        viol.append((bad, dst))
    # known findings: each is one committed program; the listed class of failure is expected, any other is a violation
    kn = []
    for k in known:
        if viol:
            break
        out = os.path.join(work, "k" + k["id"])
        r = subprocess.run([exe, "search", "--prop", prop, "--seed", str(seed), "--secs", "8", "--progonly", "--prog", os.path.join(HERE, k["program"]), "--out", out, "--minsecs", "0", "--expect", k["cls"], "--quiet"], capture_output=True, text=True, timeout=200)
        if r.returncode not in (0, 1):
            say("ERROR known finding run: " + r.stderr[-800:]); return 2
        d = json.load(open(out)); kn.append(dict(id=k["id"], runs=d["runs"], reproduced=d.get("expected_seen", 0)))
        if d.get("expected_seen", 0):
            say("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        if "violation" in d:
            dst, rc = confirm(exe, d["violation"]["replay"], prop, d["violation"]["class"])
            if rc == 0:
                say("ERROR known finding program: the recorded execution did not fail again"); return 2
            viol.append((d["violation"], dst))
    evidence(prop, tier, seed, nw, res, kn, viol, corpus, t0)
    for v, dst in viol:
        say("%s: %s" % (v["class"], v["msg"]))
        say("VIOLATION property=%s replay=%s" % (prop, dst))
    if viol:
        return 1
    badrep = [d for d in res if d["det_bad"]]
    if badrep:
        say("ERROR %d executions did not repeat exactly: %s" % (sum(d["det_bad"] for d in badrep), badrep[0]["stderr"][:600])); return 2
    n = sum(d["runs"] for d in res)
    if n < 50:
        say("ERROR only %d runs were made" % n); return 2
    say("held: %s %s, seed %d: %d simulated runs in %.0f s" % (prop, tier, seed, n, time.time() - t0))
    return 0

def evidence(prop, tier, seed, nw, res, kn, viol, corpus, t0):
    tot = lambda k: sum(d.get(k, 0) for d in res)
    opc = {}; scen = {}; probes = [0] * 64
    for d in res:
        for k, v in d["opc"].items(): opc[k] = opc.get(k, 0) + v
        for k, v in d["scens"].items(): scen[k] = scen.get(k, 0) + v
        for i, v in enumerate(d["probes"]): probes[i] += v
    kmap = {}
    for d in res:
        for k, v in d.get("known", {}).items(): kmap[k] = kmap.get(k, 0) + v[0]
    bits = 0
    for d in res:
        try: bits |= int.from_bytes(open(d["pairs"], "rb").read(), "little")
        except OSError: pass
    wall = max([d["wall"] for d in res] or [0.001])
    samples = []
    for d in res[:3]:
        if d.get("sample"): samples.append(d["sample"])
    runs = tot("runs")
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(
            evaluations=runs, distinct_nontrivial=tot("distinct_hashes"),
            rule="One case is one simulated execution of a generated program (processes, threads, library calls, fault plan) under a seeded schedule; counted are executions in which at least three library calls were made and whose complete event hash (every scheduling decision, memory access order, call result and fault) differs from all others of the same worker (seeds of different workers are disjoint).",
            samples=samples,
            runs_per_hour=int(runs / wall * 3600), seeds_per_hour=int(runs / wall * 3600), simulated_time_s=round(tot("simtime_ns") / 1e9, 3), scheduling_steps=tot("steps"), context_switches=tot("segs"),
            distinct_interleaving_pairs=bin(bits).count("1"), interleaving_measure="distinct (code address left, code address entered) pairs at context switches, hashed into a 2^20 bitmap",
            faults=dict(process_kills=tot("faults_kill"), thread_stalls=tot("faults_stall"), failed_system_calls=tot("faults_sys"), interrupted_system_calls=tot("faults_eintr"), slow_system_calls=tot("faults_slow"), clock_jumps=tot("clockjumps"), delayed_reaping=tot("reap_delay")),
            forks=tot("forks"), processes=tot("procs"), threads=tot("threads"), exits=tot("exits"), reinits=tot("reinit"), system_calls=tot("syscalls"), sched_yields=tot("yields"), api_calls=tot("ops"), api_calls_by_kind=opc, scenarios=scen,
            corpus_programs=len(corpus), corpus_runs=tot("corpus_runs"),
            probes={PROBE.get(i, "probe%d" % i): v for i, v in enumerate(probes) if v}, replays_checked_for_identity=tot("det_checked"), replays_differing=tot("det_bad"), known_findings=kn, executions_attributed_to_known_findings=kmap,
            real_code="all of /repo/lib (*.cc, *.h, *.tcc) of the current tree, one private image per simulated process, compiled with memory-access instrumentation",
            stubs="kernel and C library below it: files, mmap, fcntl locks, /proc, inotify, epoll, clocks, sleeps, pthread create/join/TSD/atfork, fork, kill, exit, environment, malloc, stdio"),
        assumptions=["sequentially consistent memory (no weak-memory reordering)", "a crash is the death of a whole process; shared memory survives it", "the simulated kernel behaves like Linux in the calls fullock makes"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    sys.exit(main())
