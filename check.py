#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   run the seeded simulations of one property
   check.py --replay FILE              re-run one recorded schedule exactly
Exit 0: held on everything explored. Exit 1: violation (a VIOLATION line names the replay file)."""
import json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as B
from plan import PLAN, ASSUME
KNOWN = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(VERIF, "replays")

def sim(fl, *a, **kw):
    env = dict(os.environ); env.pop("SIM_NOASLR", None); env.update(kw)
    p = subprocess.run([f"{B.OUT}/{fl}/sim"] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    return p.returncode, p.stdout

def replay(path):
    t = open(path).read()
    fl = re.search(r"^flavour (\S+)", t, re.M); fl = fl.group(1) if fl else "plain"
    if "," in fl:  # two builds compared
        fls = fl.split(","); B.build(fls); hs = []
        for f in fls:
            rc, out = sim(f, "--replay", path, SIM_CPU="120"); print(f, out, end=""); hs.append(re.search(r"hash=(\S+)", out).group(1))
        return 1 if len(set(hs)) > 1 else 0
    B.build([fl])
    rc, out = sim(fl, "--replay", path, "-v", SIM_CPU="120")
    print(out, end="")
    return rc

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def add_header(path, fl):
    t = open(path).read()
    open(path, "w").write(t.replace("\nseed ", f"\nflavour {fl}\nseed ", 1))

def main():
    if sys.argv[1:2] == ["--replay"]: sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    P = PLAN[prop]; t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    B.build(sorted({fl for fl, *_ in P["legs"]}))
    tb = time.time() - t0
    viol = []; legs = []; samples = []
    for cls, what in known(prop): print(f"KNOWN-FINDING: property={prop} {cls} {what}")
    hashes = {}
    for leg in P["legs"]:
        fl, q, th = leg[:3]
        runs = q if tier == "quick" else th
        tmp = f"{B.OUT}/{prop}-{fl}-{os.getpid()}.json"
        args = ["--prop", prop, "--seed", seed, "--runs", runs, "--out", tmp, "--replays", REPLAYS, "--known", KNOWN, "--time", 200 if tier == "quick" else 1500]
        if P.get("compare"): args += ["--hashlog", f"{tmp}.h"]
        rc, out = sim(fl, *args)
        print(f"[{fl}] {out}", end="")
        if not os.path.exists(tmp): print("simulator did not finish"); sys.exit(2)
        s = json.load(open(tmp)); os.unlink(tmp); s["flavour"] = fl; legs.append(s)
        if P.get("compare"): hashes[fl] = dict(l.split() for l in open(f"{tmp}.h")); os.unlink(f"{tmp}.h")
        if s["replay"]:
            add_header(s["replay"], fl)
            ok = 0
            for _ in range(3):   # a fresh process must show the same failure
                rrc, rout = sim(fl, "--replay", s["replay"], SIM_CPU="120")
                if rrc == 1: ok += 1
                if ok and s["exact"]: break
            if ok: viol.append((s["class"], s["message"], s["replay"]))
            else: print(f"not reproduced in a fresh process, not reported: {s['class']}: {s['message']}")
        if s["determinism_mismatches"] and not s["replay"]:
            print(f"note: {s['determinism_mismatches']} of {s['determinism_rechecks']} repeated runs differed")
        if len(samples) < 3:
            _, d = sim(fl, "--prop", prop, "--seed", seed, "--one", len(samples), "--dump")
            ls = [l for l in d.splitlines() if l and not l.startswith("#")]
            ev = [l.split("#", 1)[1].strip() + " by %s" % l.split()[2] for l in ls if l.startswith("ev ")]
            samples.append({"flavour": fl, "run": len(samples), "seed": next((l.split()[1] for l in ls if l.startswith("seed ")), ""), "config": next((l for l in ls if l.startswith("cfg ")), ""), "schedule": ev[:60], "outcome": ls[-1] if ls else ""})
    if P.get("compare") and not viol:
        a, b = list(hashes)[:2]
        for k in sorted(set(hashes[a]) & set(hashes[b]), key=int):
            if hashes[a][k] != hashes[b][k]:
                rc, out = sim(a, "--prop", prop, "--seed", seed, "--one", k, "--dump")
                path = f"{REPLAYS}/{prop}-{a}-{b}-{k}.replay"
                open(path, "w").write(out[:out.index("\nend") + 5] if "\nend" in out else out); add_header(path, f"{a},{b}")
                viol.append(("flavours-differ", f"the {a} and {b} builds compute different results in run {k}", path)); break
    cnt = {}
    for s in legs:
        for k, v in s["counts"].items(): cnt[k] = cnt.get(k, 0) + v
    runs = sum(s["runs"] for s in legs); wall = time.time() - t0; simw = sum(s["wall"] for s in legs)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"], "wall_s": round(wall, 2), "violations": len(viol),
      "assumptions": ASSUME + P.get("assume", []),
      "coverage": {"evaluations": runs, "distinct_nontrivial": sum(s["distinct_executions"] for s in legs),
        "rule": "one evaluation is one simulated run: a seed gives configuration, operation schedule and fault sequence; distinct counts different execution hashes (hash of every observed value and decision)",
        "samples": samples, "runs_per_hour": int(runs / simw * 3600) if simw else 0, "seeds": f"mix({seed}, 0..{runs - 1})",
        "simulated_time_ticks": sum(s["ticks"] for s in legs), "tick": "one scheduled event (operation, delivery, fault or yield)", "events": sum(s["events"] for s in legs),
        "faults_injected": {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith("fault.") and v},
        "probes": {k: v for k, v in sorted(cnt.items()) if not k.startswith("fault.") and v},
        "never_fired": sorted(k for k, v in cnt.items() if not v),
        "distinct_states": sum(s["distinct_states"] for s in legs), "state_measure": legs[0]["measure"],
        "real_components": legs[0]["real"], "stub_components": legs[0]["stub"],
        "legs": [{k: s[k] for k in ("flavour", "runs", "distinct_executions", "distinct_states", "determinism_rechecks", "determinism_mismatches", "known", "wall")} for s in legs],
        "build_s": round(tb, 2)}}
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for cls, msg, path in viol: print(f"  {cls}: {msg}"); print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1 if viol else 0)
main()
