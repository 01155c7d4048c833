"""Decisions that need no paths: call-graph effects of the compiled client programs and stand-alone use of the headers."""
import json
import multiprocessing
import os
import re
import subprocess

import specs

HEAP = re.compile(r"^(_Zn[wa]\w*|malloc|calloc|realloc|reallocarray|aligned_alloc|posix_memalign|memalign|valloc|strdup)$")


def _refs(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("f", "g") and isinstance(x[1], str):
            out.add(x[1])
        else:
            for y in x:
                _refs(y, out)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k != "loc":
                _refs(y, out)


def _reach(path):
    """-> functions reachable from the client programs, {function: (from, location)}, {name: record}"""
    with open(path) as f:
        d = json.load(f)
    fns = {x["name"]: x for x in d["functions"]}
    glb = {x["name"]: x for x in d["globals"]}
    ali = {x["name"]: x for x in d["aliases"]} if d["aliases"] and isinstance(d["aliases"][0], dict) else {}
    seen, todo = {}, []
    for n in fns:
        if n.startswith("h_"):
            seen[n] = (None, None)
            todo.append(n)
    while todo:
        n = todo.pop()
        rec = fns.get(n) or glb.get(n) or ali.get(n)
        if rec is None:
            continue
        if n in fns:
            for b in rec.get("blocks") or []:
                for i in b:
                    out = set()
                    _refs(i, out)
                    for m in out:
                        if m not in seen:
                            seen[m] = (n, i.get("loc"))
                            todo.append(m)
        else:
            out = set()
            _refs(rec.get("init"), out)
            _refs(rec.get("target"), out)
            for m in out:
                if m not in seen:
                    seen[m] = (n, None)
                    todo.append(m)
    return seen, fns


def no_hidden_heap(units):
    """No allocation function of the language or C library is reachable from the client programs of these units, which
    use none themselves: all memory comes from the allocators and resources they supply."""
    def run(prop, tier, tmp, a):
        import run as R
        tool = R.irdump()
        jobs = [(tool, tmp, u, c) for u in units for c in specs.configs(u, tier)
                if (not a.config or c == a.config) and (not a.unit or u == a.unit)]
        bad, nfn, nedge = [], 0, 0
        with multiprocessing.Pool(a.jobs) as pool:
            built = pool.map(R.compile_unit, jobs, 1)
        for unit, conf, path, err in built:
            if path is None:
                first = next((x for x in err.splitlines() if "error" in x), err[:200])
                bad.append({"unit": unit, "config": conf, "rule": "compiles", "where": (first, 0, ""), "msg":
                            "client program of the public interface no longer compiles: " + first})
                continue
            seen, fns = _reach(path)
            os.unlink(path)
            nfn += sum(1 for n in seen if n in fns)
            for n in sorted(seen):
                if not HEAP.match(n):
                    continue
                chain, m = [], n
                while m is not None:
                    src, loc = seen[m]
                    l = loc[0] if loc else ("?", 0)
                    chain.append((fns.get(src, {}).get("dem") or src or "-", l))
                    m = src
                where = next((c for c in chain if str(c[1][0]).startswith(R.INC)), chain[0])
                bad.append({"unit": unit, "config": conf, "rule": "heap", "msg":
                            "%s is reachable without going through a supplied allocator or resource" % n,
                            "where": (str(where[1][0]).replace(R.INC, "include"), where[1][1], where[0]),
                            "trail": ["%s at %s:%s" % (c[0], c[1][0], c[1][1]) for c in chain]})
        return bad, {"call_graphs": len(built), "functions_reached": nfn}
    return run


# ---------------------------------------------------------------------------------------------------------------------
# documented to need a memory resource definition first
PRELUDE = {"cetl/pmr/o1heap_memory_resource_delegate.hpp": '#include "cetl/pf17/cetlpf.hpp"\n'}


def _alone(job):
    cxx, flags, inc, stub, header, tmp = job
    src = PRELUDE.get(header, "") + '#include "%s"\n#include "%s"\n' % (header, header)
    p = subprocess.run([cxx] + flags + ["-w", "-I" + inc, "-I" + stub, "-x", "c++", "-S", "-emit-llvm", "-o", "-", "-"],
                       input=src, capture_output=True, text=True)
    if p.returncode:
        first = next((x for x in p.stderr.splitlines() if "error" in x), p.stderr[:200])
        return header, flags, first, []
    strong = [m.group(1) for m in re.finditer(
        r"^define (?!internal|linkonce|available_externally|weak|private)(?:dso_local )?.*@\"?([^\"(\s]+)\"?\(", p.stdout, re.M)]
    strong += [m.group(1) for m in re.finditer(
        r"^@\"?([^\"\s]+)\"? = (?!internal|linkonce|available_externally|weak|private|external|appending)", p.stdout, re.M)]
    return header, flags, None, [s for s in strong if not s.startswith("llvm.")]


def headers_alone(prop, tier, tmp, a):
    """Every header compiles on its own, also twice, in every configuration, and defines nothing that two translation
    units including it would both define."""
    import run as R
    inc = os.path.join(R.INC)
    hs = []
    for root, _, files in os.walk(os.path.join(inc, "cetl")):
        hs += [os.path.relpath(os.path.join(root, f), inc) for f in files if f.endswith((".hpp", ".h"))]
    stub = os.path.join(specs.HERE, "harness", "stub")
    jobs = [(R.CXX, specs.CONFIGS[c]["flags"], inc, stub, h, tmp) for h in sorted(hs) for c in specs.THOROUGH
            if not a.config or a.config == c]
    with multiprocessing.Pool(a.jobs) as pool:
        res = pool.map(_alone, jobs, 4)
    bad = []
    for h, fl, err, strong in res:
        if err:
            bad.append({"rule": "compiles", "config": " ".join(fl), "where": ("include/" + h, 0, ""),
                        "msg": "the header does not compile on its own: " + err})
        elif strong:
            bad.append({"rule": "odr", "config": " ".join(fl), "where": ("include/" + h, 0, ", ".join(strong[:3])),
                        "msg": "the header defines %s, which a second translation unit would define again" % ", ".join(strong[:3])})
    return bad, {"headers": len(hs), "header_compilations": len(res)}
