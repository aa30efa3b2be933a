#!/usr/bin/env python3
"""Builds the simulator and the instrumented library images from /repo's working tree into BUILD."""
import os, sys, glob, hashlib, subprocess, re, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLSIM_REPO", "/repo")
BUILD = os.environ.get("FLSIM_BUILD", os.path.join(HERE, "build"))
NIMG = 12
SIMSRC = ["core.cc", "kernel.cc", "harness.cc", "gen.cc", "main.cc"]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)
    return r.stdout

def sim_symbols():
    names = {}
    for f in ("core.cc", "kernel.cc"):
        for m in re.finditer(r"\bsim_(\w+)\s*\(", open(os.path.join(HERE, "sim", f)).read()):
            names[m.group(1)] = "sim_" + m.group(1)
    for x in ("syscall_dispatch",):
        names.pop(x, None)
    names.pop("chrono_steady", None); names.pop("chrono_system", None)
    names["_ZNSt6chrono3_V212steady_clock3nowEv"] = "sim_chrono_steady"
    names["_ZNSt6chrono3_V212system_clock3nowEv"] = "sim_chrono_system"
    return names

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, "obj"); shutil.rmtree(obj, ignore_errors=True); os.makedirs(obj)
    libsrc = sorted(glob.glob(os.path.join(REPO, "lib", "*.cc")))
    libsrc = [s for s in libsrc if os.path.basename(s) != "fullockversion.cc"]
    ver = "0"
    try: ver = open(os.path.join(REPO, "RELEASE_VERSION")).read().strip() or "0"
    except OSError: pass
    open(os.path.join(obj, "config.h"), "w").write('#define VERSION "%s"\n#define PACKAGE_VERSION "%s"\n#define HAVE_FCNTL_H 1\n' % (ver, ver))
    syms = sim_symbols()
    open(os.path.join(obj, "syms"), "w").write("".join("%s %s\n" % kv for kv in sorted(syms.items()) if kv[0] != "gettid"))
    common = ["g++", "-O1", "-g1", "-fPIC", "-w", "-fno-builtin", "-fno-gnu-unique", "-ftls-model=global-dynamic", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
              "-fno-stack-protector", "-fcf-protection=none", "-DHAVE_CONFIG_H", "-I", obj, "-I", os.path.join(REPO, "lib"), "-c"]
    def lib(s):
        o = os.path.join(obj, os.path.basename(s) + ".o")
        run(common + ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", s, "-o", o])
        secs = run(["objdump", "-h", o])
        ren = []
        for m in re.finditer(r"\s(\.(?:init|fini)_array\S*)", secs):
            n = m.group(1)
            if n == ".init_array.00099": ren += ["--remove-section", n, "--remove-section", ".rela" + n]
            else:
                new = "flck_initarr" if n.startswith(".init") else "flck_finiarr"
                ren += ["--rename-section", n + "=" + new + ",alloc,load,data,contents", "--rename-section", ".rela" + n + "=.rela" + new]
        run(["objcopy", "--redefine-syms", os.path.join(obj, "syms")] + ren + [o])
        return o
    def shim(_):
        o = os.path.join(obj, "shim.o")
        run(common + [os.path.join(HERE, "sim", "shim.cc"), "-o", o])
        run(["objcopy", "--redefine-syms", os.path.join(obj, "syms"), o])
        return o
    hsh = hashlib.sha1(); 
    for f in SIMSRC + ["sim.h"]: hsh.update(open(os.path.join(HERE, "sim", f), "rb").read())
    stamp = os.path.join(BUILD, "sim.stamp"); exe = os.path.join(BUILD, "flsim")
    fresh = os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == hsh.hexdigest()
    def simc(f):
        o = os.path.join(BUILD, f + ".o"); key = hashlib.sha1(open(os.path.join(HERE, "sim", f), "rb").read() + open(os.path.join(HERE, "sim", "sim.h"), "rb").read()).hexdigest()
        st = o + ".stamp"
        if not (os.path.exists(o) and os.path.exists(st) and open(st).read() == key):
            opt = "-O2" if f in ("core.cc", "kernel.cc", "harness.cc") else "-O1"
            run(["g++", "-std=c++17", opt, "-g1", "-w", "-fno-strict-aliasing", "-fcf-protection=none", "-c", os.path.join(HERE, "sim", f), "-o", o]); open(st, "w").write(key)
        return o
    with ThreadPoolExecutor(8) as ex:
        simo = [ex.submit(simc, f) for f in SIMSRC] if not fresh else []
        fl = [ex.submit(lib, s) for s in libsrc] + [ex.submit(shim, 0)]
        simo = [f.result() for f in simo]; objs = [f.result() for f in fl]
    if not fresh:
        run(["g++", "-rdynamic", "-no-pie", "-o", exe] + simo + ["-ldl", "-lpthread"]); open(stamp, "w").write(hsh.hexdigest())
    so = os.path.join(BUILD, "fl00.so")
    for i in range(NIMG):
        p = os.path.join(BUILD, "fl%02d.so" % i)
        if os.path.exists(p): os.unlink(p)
    run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,norelro", "-Wl,-z,now", "-o", so] + objs)
    for i in range(1, NIMG): shutil.copy(so, os.path.join(BUILD, "fl%02d.so" % i))
    und = set(l.split()[-1].split("@")[0] for l in run(["nm", "-D", "--undefined-only", so]).splitlines())
    return sorted(u for u in und if not u.startswith(("sim_", "__tsan", "_Z", "_Unwind", "__cxa", "__gxx", "_ITM", "__gmon")))

if __name__ == "__main__":
    for u in build(): print(u)
