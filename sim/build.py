#!/usr/bin/env python3
# Builds the simulators from /repo's working tree into /verif/build.
import glob, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo"); OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WRAP = "malloc calloc realloc free exit gettimeofday clock_gettime time rand random lrand48 mrand48 drand48 rand_r getrandom getentropy getpid getppid clock srand fopen".split()
LIB = sorted(f for d in ("arith", "ecc", "misc") for f in glob.glob(f"{REPO}/{d}/*.c") if ".win32." not in f and not f.endswith("/tinyfp.c"))
FLAV = {  # name: (compile flags, link flags)
  "plain": (["-O2"], []),
  "trace": (["-O2"], []),  # library also instrumented so that the scheduler can switch at every basic block
  "safe": (["-O2", "-DSAFE_CLEAN"], []),
  "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize=shift,alignment,signed-integer-overflow,pointer-overflow,vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
}
LIBX = {"trace": ["-fsanitize-coverage=trace-pc"]}
GEN = [f"{REPO}/gen/{n}.c" for n in "genaparam gena1param gendparam geneparam genfparam gengparam hilbertpoly".split()]
def run(cmd):
    if cmd[0] == "sh":
        for c in cmd[1:]: run(c)
        return
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: print("build failed:", " ".join(cmd)); print(p.stdout[-4000:]); sys.exit(2)
def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()
def build(flavs):
    hdr = glob.glob(f"{REPO}/include/*.h") + glob.glob(f"{REPO}/*/*.h")
    sims = sorted(glob.glob(f"{HERE}/*.c")); simh = glob.glob(f"{HERE}/*.h") + glob.glob(f"{HERE}/*.inc") + glob.glob(f"{HERE}/*.py") + glob.glob(f"{HERE}/params/*")
    pbcsrc = sorted(glob.glob(f"{REPO}/pbc/*"))
    pbcsrc = [f for f in pbcsrc if f.endswith((".c", ".y", ".lex", ".h"))]
    jobs = []
    for fl in flavs:
        cf, lf = FLAV[fl]; d = f"{OUT}/{fl}"; os.makedirs(d, exist_ok=True)
        dg = digest(LIB + hdr + sims + simh + pbcsrc + GEN, (cf, lf)); stamp = f"{d}/stamp"
        if os.path.exists(stamp) and open(stamp).read() == dg and os.path.exists(f"{d}/sim"): continue
        if os.path.exists(stamp): os.unlink(stamp)
        run([sys.executable, f"{HERE}/mkparams.py", f"{d}/params_gen.h"])
        base = ["gcc", "-g", "-std=gnu99", "-w", f"-I{REPO}/include", f"-I{REPO}", f"-I{d}", f"-I{HERE}", "-fno-pie"] + cf
        objs = []; cmds = []
        for s in LIB:
            o = f"{d}/lib_{os.path.basename(os.path.dirname(s))}_{os.path.basename(s)[:-2]}.o"; objs.append(o); cmds.append(base + LIBX.get(fl, []) + ["-c", s, "-o", o])
        # the calculator: generated parser and scanner, main() renamed
        run(["bison", "-Wnone", "-d", "-b", f"{d}/parser", f"{REPO}/pbc/parser.y"])
        run(["flex", "-o", f"{d}/lex.yy.c", f"--header-file={d}/lex.yy.h", f"{REPO}/pbc/parser.lex"])
        for s in (f"{REPO}/pbc/pbc.c", f"{REPO}/pbc/pbc_getline.c", f"{d}/parser.tab.c", f"{d}/lex.yy.c"):
            o = f"{d}/calc_{os.path.basename(s)[:-2]}.o"; objs.append(o); cmds.append(base + [f"-I{REPO}/pbc", "-Dmain=pbc_main", "-c", s, "-o", o])
        # the generator programs: main() renamed, everything else local to its object
        for s in GEN:
            n = os.path.basename(s)[:-2]; o = f"{d}/gen_{n}.o"; objs.append(o); cmds.append(("sh", base + [f"-Dmain={n}_main", "-c", s, "-o", o], ["objcopy", f"--keep-global-symbol={n}_main", o]))
        for s in sims:
            o = f"{d}/sim_{os.path.basename(s)[:-2]}.o"; objs.append(o); cmds.append(base + ["-c", s, "-o", o])
        jobs.append((d, fl, cmds, ["gcc", "-no-pie", "-g", "-o", f"{d}/sim"] + objs + [f"-Wl,--wrap={w}" for w in WRAP] + lf + ["-lgmp", "-lm"], stamp, dg))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, [c for j in jobs for c in j[2]]))
    for d, fl, _, link, stamp, dg in jobs:
        run(link); open(stamp, "w").write(dg)
if __name__ == "__main__": build(sys.argv[1:] or list(FLAV))
