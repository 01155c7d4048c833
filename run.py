#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--unit U] [--entry RE] [--config C] [--update-baseline]

Decides one property of /repo's current sources.  Exit 0: nothing unlisted was refuted.  Exit 1: VIOLATION printed."""
import argparse
import fcntl
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "engine"))
import specs  # noqa: E402
import absint  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
INC = REPO + "/include"
CXX = "clang++-18"
EVID = os.path.join(HERE, "evidence")
SAFETY = ("lifetime", "leak", "release", "bounds", "null", "dangling", "uninit", "type", "terminate-lib",
          "debug-assert", "abort", "align", "race")


# --------------------------------------------------------------------------------------------------------------- tools
def irdump():
    """Builds the bitcode reader when its source is newer than the binary."""
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, "engine", "irdump.cpp")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(d, "irdump-" + tag)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            fl = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
            fl = [x for x in fl if not x.startswith("-std=") and x != "-fno-exceptions"]
            subprocess.check_call([CXX, "-O1", "-std=c++17"] + fl + [src, "-o", out + ".tmp", "-L/usr/lib/llvm-18/lib",
                                                                  "-lLLVM-18"])
            os.rename(out + ".tmp", out)
    return out


def compile_unit(job):
    """-> (unit, config, path of the IR dump or None, log)"""
    tool, tmp, unit, conf = job
    u, c = specs.UNITS[unit], specs.CONFIGS[conf]
    base = os.path.join(tmp, "%s-%s" % (unit, conf))
    cmd = [CXX] + c["flags"] + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w",
                                "-I" + os.path.join(HERE, "harness"), "-I" + INC] + u.get("flags", []) + \
        ["-emit-llvm", "-c", os.path.join(HERE, "harness", u["src"]), "-o", base + ".bc"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return unit, conf, None, p.stderr
    p = subprocess.run([tool, base + ".bc", base + ".json"], capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("irdump: " + p.stderr[-400:])
    os.unlink(base + ".bc")
    return unit, conf, base + ".json", ""


MODS = {}
DEADLINE = [0.0]


def analyse(job):
    unit, conf, entry, prop = job
    t = time.time()
    o = dict(specs.UNITS[unit].get("opts", {}))
    o["no_exceptions"] = specs.CONFIGS[conf].get("noexc", False)
    o["deadline"] = DEADLINE[0]
    o["prop"] = prop if prop != "baseline" else None
    r = {"unit": unit, "config": conf, "entry": entry}
    if t > DEADLINE[0]:
        r["skipped"] = True
        return r
    try:
        it = absint.Interp(MODS[(unit, conf)], INC, o).run(entry)
    except Exception as e:  # an engine failure is "not analysed", never a verdict
        r["error"] = "%s: %s" % (type(e).__name__, e)
        return r
    r.update(oblig=it.oblig, covered=sorted(it.covered), giveup=it.giveup, unmodelled=it.unmodelled, notes=it.notes,
             budget=it.budget_hit, loops=[it.loops_ok, it.loops_bad], steps=it.steps, s=time.time() - t,
             fns=sorted(f for f in it.fn_seen), sites=sorted(map(str, it.call_sites)),
             paths=len(it.exits), unconfirmed=len(it.unconfirmed),
             reports=[{"rule": x.rule, "msg": x.msg, "tag": x.tag, "where": x.where, "stack": x.stack, "trail": x.trail}
                      for x in it.reports.values()])
    return r


# ------------------------------------------------------------------------------------------------------------ judgement
def tags_of(msg):
    m = re.match(r"^([A-Z]\d{2}(?:,[A-Z]\d{2})*): ", msg or "")
    return m.group(1).split(",") if m else []


def counts(prop, rep):
    """Does this refuted obligation bear on the property?"""
    if rep["rule"] == "assert":
        return prop in tags_of(rep["msg"])
    want = specs.PROPS[prop].get("rules")
    return rep["rule"] in (want if want is not None else SAFETY + ("terminate",))


def known_findings():
    out = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                out.append((dict(x.split("=", 1) for x in head.split()), text.strip()))
    return out


def is_known(kf, prop, res, rep):
    for k, text in kf:
        if k["property"] == prop and k["unit"] == res["unit"] and re.fullmatch(k["entry"], res["entry"]) and \
                k["rule"] == rep["rule"] and k["function"] in rep["where"][2] and \
                (k.get("msg", "").replace("_", " ") in rep["msg"]):
            return k, text
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--entry")
    ap.add_argument("--config")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--update-baseline", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        print(irdump())
        return
    t0 = time.time()
    if a.property == "baseline":
        # records which points of the client programs are reached; for maintenance only
        specs.PROPS["baseline"] = {"units": [(u, "h_.*") for u in specs.UNITS], "coverage": "", "rule": ""}
        a.update_baseline = True
    prop, tier = a.property, a.tier
    spec = specs.PROPS[prop]
    DEADLINE[0] = t0 + (600 if tier == "quick" else 9000)
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="cetlcheck-")
    try:
        code = decide(a, prop, tier, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if code:
        sys.exit(code)


def decide(a, prop, tier, spec, tmp, t0):
    replay = os.path.join(EVID, "%s.replay.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    bad, known, log = [], [], []
    uses = [u for u in spec.get("units", []) if not a.unit or u[0] == a.unit]
    pairs = {}
    for unit, rx in uses:
        for conf in specs.configs(unit, tier, spec):
            if a.config and conf != a.config:
                continue
            pairs.setdefault((unit, conf), []).append(rx)
    results = []
    failed_units = []
    if pairs:
        tool = irdump()
        with multiprocessing.Pool(a.jobs) as pool:
            built = pool.map(compile_unit, [(tool, tmp, u, c) for u, c in pairs], 1)
        jobs = []
        for unit, conf, path, err in built:
            if path is None:
                failed_units.append((unit, conf, err))
                continue
            MODS[(unit, conf)] = m = absint.Module(path)
            os.unlink(path)
            names = [n for n in m.fns if n.startswith("h_") and m.fns[n].blocks]
            sel = [n for n in names if any(re.fullmatch(r, n) for r in pairs[(unit, conf)])]
            if a.entry:
                sel = [n for n in sel if re.search(a.entry, n)]
            jobs += [(unit, conf, n, prop) for n in sel]
        heavy = specs.cost()
        jobs.sort(key=lambda j: -heavy.get("%s/%s" % (j[0], j[2]), 0.1))
        with multiprocessing.Pool(a.jobs) as pool:
            results = pool.map(analyse, jobs, 1)
    for unit, conf, err in failed_units:
        first = next((x for x in err.splitlines() if "error" in x), err[:200])
        bad.append({"unit": unit, "config": conf, "entry": "-", "rule": "compiles", "msg":
                    "client program of the public interface no longer compiles: " + first, "where": (first, 0, ""),
                    "stack": [], "trail": err.splitlines()[:40]})
    kf = known_findings()
    # ---- refuted obligations
    for r in results:
        for rep in r.get("reports", []):
            if not counts(prop, rep):
                continue
            k = is_known(kf, prop, r, rep)
            if k:
                known.append(k)
            else:
                bad.append(dict(rep, unit=r["unit"], config=r["config"], entry=r["entry"]))
    # ---- points of the client programs that can no longer be reached
    base = specs.baseline()
    if a.update_baseline:
        specs.update_baseline(results)
        base = specs.baseline()
    for r in results:
        if "covered" not in r or r["giveup"] or r["budget"] or r["unmodelled"]:
            continue
        want = base.get("%s/%s" % (r["unit"], r["config"]), {}).get(r["entry"], [])
        lost = [m for m in want if m not in r["covered"] and (prop in tags_of(m) or not tags_of(m))]
        if lost and not any(x["entry"] == r["entry"] for x in bad):
            # a refuted obligation ends a path: only complain when nothing else explains it
            if not r["reports"]:
                bad.append({"unit": r["unit"], "config": r["config"], "entry": r["entry"], "rule": "reachable",
                            "msg": "no path of the client program reaches: " + "; ".join(lost),
                            "where": ("harness/" + specs.UNITS[r["unit"]]["src"], 0, r["entry"]), "stack": [],
                            "trail": []})
    # ---- type-level witnesses and effect rules
    extra = {}
    for fn in spec.get("extra", []):
        b, ev = fn(prop, tier, tmp, a)
        for x in b:
            x = dict({"unit": "-", "config": "-", "entry": "-", "stack": [], "trail": []}, **x)
            k = is_known(kf, prop, x, x)
            if k:
                known.append(k)
            else:
                bad.append(x)
        for k2, v in ev.items():
            extra[k2] = extra.get(k2, 0) + v if isinstance(v, int) else v
    # ---- evidence
    done = [r for r in results if "oblig" in r]
    ob = {}
    for r in done:
        for rule, (d, x, u) in r["oblig"].items():
            if rule == "assert" or True:
                k = ob.setdefault(rule, [0, 0, 0])
                k[0] += d
                k[1] += x
                k[2] += u
    cov = {
        "explanation": spec["coverage"],
        "rule": spec["rule"],
        "client_programs": len(done),
        "configurations": sorted(set(r["config"] for r in results)),
        "library_functions": len(set(f for r in done for f in r["fns"])),
        "call_sites": len(set(s for r in done for s in r["sites"])),
        "paths": sum(r["paths"] for r in done),
        "obligations": sum(sum(v) for v in ob.values()),
        "discharged": sum(v[0] for v in ob.values()),
        "refuted": sum(v[1] for v in ob.values()),
        "undecided": sum(v[2] for v in ob.values()),
        "obligations_by_rule": {k: {"discharged": v[0], "refuted": v[1], "undecided": v[2]} for k, v in sorted(ob.items())},
        "loops_generalised": sum(r["loops"][0] for r in done),
        "loops_not_generalised": sum(r["loops"][1] for r in done),
        "alarms_not_confirmed": sum(r["unconfirmed"] for r in done),
        "not_analysed": sorted("%s/%s/%s%s" % (r["unit"], r["config"], r["entry"], ": " + r["error"] if "error" in r else "")
                               for r in results if "oblig" not in r),
        "given_up": sorted("%s/%s/%s" % (r["unit"], r["config"], r["entry"]) for r in done
                           if r["giveup"] or r["budget"] or r["unmodelled"]),
        "known_findings": len(known),
    }
    cov.update(extra)
    if done:
        cov["samples"] = ["%s %s: %d paths, obligations %s" % (r["config"], r["entry"], r["paths"], {k: v[0] for k, v in r["oblig"].items()})
                          for r in done[:3]]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov,
          "assumptions": specs.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(bad)}
    with open(os.path.join(EVID if prop != "baseline" else tmp, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    # ---- verdict
    seen = set()
    for k, text in known:
        if text not in seen:
            seen.add(text)
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s: %d client programs, %d obligations, %d discharged, %d undecided, %d refuted; %s %.1f s" %
          (prop, tier, len(done), cov["obligations"], cov["discharged"], cov["undecided"], cov["refuted"],
           "; ".join("%s %s" % (k, v) for k, v in extra.items() if isinstance(v, int)), time.time() - t0))
    if cov["not_analysed"] or cov["given_up"]:
        print("not decided: %d client programs not analysed, %d given up in part" % (len(cov["not_analysed"]), len(cov["given_up"])))
    if not bad:
        return 0
    uniq = {}
    for b in bad:
        uniq.setdefault((b["rule"], b["where"][0], b["where"][2], b["msg"]), b)
    with open(replay, "w") as f:
        for b in uniq.values():
            f.write("rule %s: %s\n  at %s:%s in %s\n  client program %s/%s [%s]\n" %
                    (b["rule"], b["msg"], b["where"][0], b["where"][1], b["where"][2], b["unit"], b["entry"], b["config"]))
            for fn, loc in b["stack"]:
                f.write("    in %s at %s\n" % (fn, loc))
            for s in b["trail"]:
                f.write("    path: %s\n" % (s,))
            f.write("\n")
    for b in list(uniq.values())[:12]:
        print("  %s: %s at %s:%s in %s [%s/%s %s]" % (b["rule"], b["msg"], b["where"][0], b["where"][1],
                                                     str(b["where"][2])[:120], b["unit"], b["entry"], b["config"]))
    print("VIOLATION property=%s replay=%s" % (prop, replay))
    return 1


if __name__ == "__main__":
    main()
