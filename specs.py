"""What is checked: analysed client programs (units), compiler configurations, and the properties they decide.

properties.jsonl and MANIFEST.json are generated from here by gen.py."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

CONFIGS = {
    "c14": {"flags": ["-std=c++14"]},
    "c17": {"flags": ["-std=c++17"]},
    "c20": {"flags": ["-std=c++20"]},
    "c14d": {"flags": ["-std=c++14", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "c17d": {"flags": ["-std=c++17", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "c20d": {"flags": ["-std=c++20", "-DCETL_ENABLE_DEBUG_ASSERT=1"]},
    "c14n": {"flags": ["-std=c++14", "-fno-exceptions", "-fno-rtti"], "noexc": True},
    "c17n": {"flags": ["-std=c++17", "-fno-exceptions", "-fno-rtti"], "noexc": True},
    "c20n": {"flags": ["-std=c++20", "-fno-exceptions", "-fno-rtti"], "noexc": True},
    "c17nd": {"flags": ["-std=c++17", "-fno-exceptions", "-fno-rtti", "-DCETL_ENABLE_DEBUG_ASSERT=1"], "noexc": True},
}
QUICK = ["c14", "c20d", "c17n"]
THOROUGH = ["c14", "c17", "c20", "c14d", "c17d", "c20d", "c14n", "c17n", "c20n", "c17nd"]

UNITS = {
    "vla": {"src": "vla.cpp"},
    "vlabool": {"src": "vlabool.cpp"},
    "optional": {"src": "optional.cpp", "quick": THOROUGH},
    "variant": {"src": "variant.cpp", "quick": THOROUGH},
    "unbounded": {"src": "unbounded.cpp"},
    "function": {"src": "function.cpp"},
    "span": {"src": "span.cpp", "quick": THOROUGH},
    "strview": {"src": "strview.cpp", "quick": THOROUGH},
    "rtti": {"src": "rtti.cpp", "quick": THOROUGH},
    "memory": {"src": "memory.cpp"},
    "sys": {"src": "sys.cpp", "quick": THOROUGH},
    "pmr": {"src": "pmr.cpp", "quick": THOROUGH},
    "types": {"src": "types.cpp", "quick": THOROUGH},
    "policy": {"src": "policy.cpp", "quick": THOROUGH},
    "constant": {"src": "constant.cpp", "quick": THOROUGH},
    "traits": {"src": "traits.cpp", "quick": THOROUGH},
    "alias": {"src": "alias.cpp", "quick": THOROUGH},
    "o1h": {"src": "o1h.cpp", "quick": THOROUGH, "flags": ["-I" + os.path.join(HERE, "harness", "stub")]},
    "misuse": {"src": "misuse.cpp", "quick": THOROUGH},
}


def configs(unit, tier, spec=None):
    u = UNITS[unit]
    r = u.get(tier, THOROUGH if tier == "thorough" else QUICK)
    keep = (spec or {}).get("only")
    return [c for c in r if re.search(keep, c)] if keep else r


ASSUMPTIONS = [
    "clang 18 lowers the sources faithfully for x86-64 Linux; the header files are those of libstdc++ 13",
    "element, allocator and resource types keep the contracts the standard asks of them (a moved-from object can be "
    "destroyed, equal allocators can release each other's storage, a destructor does not throw)",
    "symbolic sizes are at most 2^40 unless an entry says otherwise, so byte counts do not wrap",
]

TECH = ("abstract interpretation of the compiled client programs: path-sensitive typestate and linear-interval "
        "dataflow over LLVM IR, loops covered by verified inductive generalisation")
LEVEL = ("Static: every path of the client programs is followed with symbolic sizes, values, allocator identities and "
         "throw/fail outcomes; an obligation is discharged by linear entailment, refuted with a path, or left undecided "
         "(counted in the evidence, never an alarm). Trusts the clang front end, the IR reader and the abstract "
         "semantics in engine/. Client programs exercise each public operation from an arbitrary reachable state, not "
         "every conceivable sequence of them.")

PROPS = {}


def prop(pid, **kw):
    kw.setdefault("technique", TECH)
    kw.setdefault("level_note", LEVEL)
    kw.setdefault("coverage", "Paths of the client programs listed under `units` in specs.py for this property, "
                              "analysed from the compiled IR of /repo/include; counts are of this run.")
    kw.setdefault("rule", "every storage access lies inside a live block and touches an object in the right state, "
                          "every object and block is released exactly once on every exit, and every vp_assert of the "
                          "client programs tagged with this property is entailed on every path")
    PROPS[pid] = kw


from props import define  # noqa: E402

define(prop)


def baseline():
    p = os.path.join(HERE, "baseline", "covered.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)


def update_baseline(results):
    b = baseline()
    for k in set("%s/%s" % (r["unit"], r["config"]) for r in results):
        b[k] = {}
    for r in results:
        if "covered" in r:
            b.setdefault("%s/%s" % (r["unit"], r["config"]), {})[r["entry"]] = sorted(r["covered"])
    with open(os.path.join(HERE, "baseline", "covered.json"), "w") as f:
        json.dump(b, f, indent=0, sort_keys=True)
        f.write("\n")
    c = cost()
    for r in results:
        if "s" in r:
            k = "%s/%s" % (r["unit"], r["entry"])
            c[k] = round(max(c.get(k, 0), r["s"]), 1)
    with open(os.path.join(HERE, "baseline", "cost.json"), "w") as f:
        json.dump({k: v for k, v in c.items() if v >= 1}, f, indent=0, sort_keys=True)
        f.write("\n")


def cost():
    p = os.path.join(HERE, "baseline", "cost.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)
