"""Forward abstract interpreter over the resolved IR of irdump.

Domain: memory blocks with linear-form contents, an array-segmentation domain for object lifetimes (which byte ranges of
a block currently hold live objects, of which type and carrying which source value), and a conjunction of linear facts.
Branches refine the facts; loops are replaced by an inductively verified generalisation of their head state; calls to
functions whose body is in the module are descended into; everything else is an opaque operation with a model.
Nothing is executed and no path is handed to a solver.
"""
import json
import time
import re
import sys

from lin import (Lin, Table, Facts, ZERO, ONE, const, atom, TRUE, FALSE, UNDEFB, b_ge, b_eq, b_not, b_and, b_or,
                 b_atoms, b_show, U64, tighten, fm_inconsistent)

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Fill:
    """A zero-filled byte range."""

    def __repr__(self):
        return "zeros"


FILL0 = Fill()


class PBits:
    """An integer some of whose bits are indeterminate: d = mask of the known bits, v = their values."""
    __slots__ = ("d", "v")

    def __init__(self, d, v):
        self.d, self.v = d, v & d

    def __eq__(self, o):
        return isinstance(o, PBits) and (self.d, self.v) == (o.d, o.v)

    def __hash__(self):
        return hash((self.d, self.v))

    def __repr__(self):
        return "bits(%x/%x)" % (self.v, self.d)


class Fn:
    __slots__ = ("name", "dem", "nounwind", "noreturn", "args", "blocks", "loops", "loop_of", "rt", "file", "line")

    def __init__(self, j):
        self.name, self.dem = j["name"], j["dem"]
        self.nounwind, self.noreturn = j["nounwind"], j["noreturn"]
        self.args = j["args"]
        self.rt = j["rt"]
        self.file, self.line = j.get("file"), j.get("line")
        self.blocks = j.get("blocks")
        self.loops = {}
        for h, bl in j.get("loops", []):
            self.loops[h] = set(bl)


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.fns = {f["name"]: Fn(f) for f in j["functions"]}
        self.globals = {g["name"]: g for g in j["globals"]}
        for name, tgt in j["aliases"]:
            if tgt[0] == "f" and tgt[1] in self.fns:
                self.fns[name] = self.fns[tgt[1]]

    def sizeof(self, prefix="vp_sizeof_"):
        out = {}
        for n, g in self.globals.items():
            if n.startswith(prefix) and g.get("init"):
                out[n[len(prefix):]] = g["init"][0][2][1]
        return out


class Seg:
    __slots__ = ("lo", "hi", "ty", "sz", "content")

    def __init__(self, lo, hi, ty, sz, content):
        self.lo, self.hi, self.ty, self.sz, self.content = lo, hi, ty, sz, content


class Region:
    __slots__ = ("rid", "kind", "size", "cells", "segs", "status", "info", "havoc", "name", "lazy")

    def __init__(self, rid, kind, size, name, info=None):
        self.rid, self.kind, self.size, self.name = rid, kind, size, name
        self.cells, self.segs = {}, []
        self.status = "live"
        self.info = info or {}
        self.havoc = False
        self.lazy = kind in ("ext", "globvar")

    def copy(self):
        r = Region.__new__(Region)
        r.rid, r.kind, r.size, r.name = self.rid, self.kind, self.size, self.name
        r.cells, r.segs = dict(self.cells), list(self.segs)
        r.status, r.info, r.havoc, r.lazy = self.status, self.info, self.havoc, self.lazy
        return r


class State:
    __slots__ = ("regions", "own", "facts", "exc", "trail", "taint", "ghost", "caught", "order")

    def __init__(self, facts):
        self.regions = {}
        self.own = set()
        self.facts = facts
        self.exc = None
        self.caught = ()
        self.trail = None
        self.taint = False
        self.ghost = {}
        self.order = 0

    def fork(self, facts=None):
        s = State.__new__(State)
        s.regions = dict(self.regions)
        s.own = set()
        self.own = set()
        s.facts = facts if facts is not None else self.facts
        s.exc, s.caught, s.trail, s.taint = self.exc, self.caught, self.trail, self.taint
        s.ghost = dict(self.ghost)
        s.order = self.order
        return s

    def wr(self, rid):
        r = self.regions[rid]
        if rid not in self.own:
            r = r.copy()
            self.regions[rid] = r
            self.own.add(rid)
        return r


class Budget(Exception):
    pass


class Report:
    __slots__ = ("rule", "msg", "where", "stack", "tag", "trail", "widened")

    def __init__(self, rule, msg, where, stack, tag, trail):
        self.rule, self.msg, self.where, self.stack, self.tag, self.trail = rule, msg, where, stack, tag, trail

    def key(self):
        return (self.rule, self.msg, tuple(self.where or ()), self.tag)


LINEAR = ("v", "udiv", "udivs", "mul", "op", "wrap", "seqval", "b2i", "val", "call", "region", "mod", "modw")

EXC_BASES = {
    "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc", "_ZTISt9exception"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"],
}

STD_THROW = {
    "std::__throw_length_error(char const*)": "_ZTISt12length_error",
    "std::__throw_out_of_range(char const*)": "_ZTISt12out_of_range",
    "std::__throw_out_of_range_fmt(char const*, ...)": "_ZTISt12out_of_range",
    "std::__throw_logic_error(char const*)": "_ZTISt11logic_error",
    "std::__throw_invalid_argument(char const*)": "_ZTISt16invalid_argument",
    "std::__throw_bad_alloc()": "_ZTISt9bad_alloc",
    "std::__throw_bad_array_new_length()": "_ZTISt20bad_array_new_length",
    "std::__throw_bad_function_call()": "_ZTISt17bad_function_call",
}


class Interp:
    def __init__(self, mod, repo_prefix, opts=None):
        self.mod = mod
        self.repo = repo_prefix
        self.opts = opts or {}
        self.sizes = mod.sizeof()
        self.aligns = mod.sizeof("vp_alignof_")
        self.max_steps = self.opts.get("max_steps", 3000000)
        self.deadline = self.opts.get("deadline", 0)
        self.max_depth = 120
        self.noexc = self.opts.get("no_exceptions", False)

    # =================================================================================================================
    # entry
    def run(self, fname):
        """Analyse one client function.  A refutation that rests on a generalised loop state is kept only when it is
        also found with the loops followed iteration by iteration.  Where a loop could not be generalised, its first
        iterations are followed that way as well."""
        self.unroll = 0
        self.run_once(fname)
        doubt = [r for r in self.reports.values() if r.widened]
        self.unconfirmed = []
        if doubt or self.loops_bad:
            other = Interp(self.mod, self.repo, self.opts)
            other.unroll = self.opts.get("unroll", 4)
            other.max_steps = self.opts.get("confirm_steps", 400000)
            other.run_once(fname)
            sure = set((r.rule, r.where[0], r.where[2], r.tag) for r in other.reports.values())
            for r in doubt:
                if (r.rule, r.where[0], r.where[2], r.tag) not in sure:
                    del self.reports[r.key()]
                    self.unconfirmed.append(r)
            if self.loops_bad:
                for k, r in other.reports.items():
                    self.reports.setdefault(k, r)
        return self

    def run_once(self, fname):
        self.tab = Table()
        self.reports = {}
        self.oblig = {}
        self.covered = set()
        self.cover_points = set()
        self.unmodelled = {}
        self.fn_seen = set()
        self.call_sites = set()
        self.notes = {}
        self.steps = 0
        self.n_states = 0
        self.loops_ok = 0
        self.loops_bad = 0
        self.silent = 0
        self.stack = []
        self.depth = 0
        self.calls = []
        self.giveup = {}
        self.typeids = {}
        self.regid_global = {}
        self.cond_log = None
        self.exit_log = None
        fn = self.mod.fns[fname]
        st = State(Facts(self.tab))
        exits = []
        self.budget_hit = False
        try:
            for kind, s, v in self.exec_function(fn, [], st, None):
                exits.append(kind)
                if kind in ("ret", "unw"):
                    self.at_exit(s, kind)
        except Budget:
            self.budget_hit = True
        self.exits = exits
        return self

    def at_exit(self, st, kind):
        for r in st.regions.values():
            if r.kind == "heap":
                if r.status == "live":
                    self.check(st, FALSE, "leak", "block obtained at %s is never released" %
                               self.site_str(r.info.get("stack")), stack=r.info.get("stack"))
                    for s in r.segs:
                        if s.ty != "raw":
                            self.check(st, b_ge(s.lo.sub(s.hi)), "lifetime",
                                       "live %s objects are never destroyed" % s.ty, stack=r.info.get("stack"))
                else:
                    self.check(st, TRUE, "leak", "")

    # =================================================================================================================
    # reporting
    def site(self, stack=None):
        """innermost location inside the repository for a stack [(fn, loc)...]"""
        stack = stack if stack is not None else self.cur_stack()
        for dem, loc in reversed(stack):
            if loc and loc[0].startswith(self.repo):
                return (loc[0][len(self.repo):].lstrip("/"), loc[1], dem)
        for dem, loc in reversed(stack):
            if loc:
                return (loc[0], loc[1], dem)
        return ("?", 0, "?")

    def in_repo(self, stack=None):
        stack = stack if stack is not None else self.cur_stack()
        return any(loc and loc[0].startswith(self.repo) for _, loc in stack)

    def site_str(self, stack=None):
        s = self.site(stack)
        return "%s:%d" % (s[0], s[1])

    def cur_stack(self):
        return list(self.stack) + [(self.cur_fn.dem, self.cur_loc)]

    def check(self, st, goal, rule, msg, stack=None, tag=None):
        """One proof obligation.  True when discharged."""
        k = self.oblig.setdefault(rule, [0, 0, 0])
        f = st.facts
        ok = f.entails(goal)
        ce = None
        if not ok:
            neg = [x for x in f.assume(b_not(goal)) if x.consistent()]
            ok = not neg
            ce = neg
        if ok:
            if not self.silent:
                k[0] += 1
            return True
        if rule != "assert" and st.ghost.get("misuse"):
            return False  # undefined behaviour the client program asked for
        tainted = st.taint
        widened = False
        if not tainted and goal == UNDEFB:
            tainted = not f.satisfiable(())
        elif not tainted:
            for x in ce:
                acc = set()
                for a in b_atoms(goal):
                    acc.add(a)
                    if self.tab.atoms[a].kind in LINEAR:
                        for y, _ in x.norm(Lin(0, ((a, 1),))).t:
                            acc.add(y)
                if any(self.tab.atoms[a].taint for a in acc):
                    tainted = True
                    break
                cons, seen = x._relevant(acc)
                if fm_inconsistent(cons) is None:
                    tainted = True
                    break
                if any(self.tab.atoms[a].pay == "iter" for a in seen) or \
                        any(self.tab.atoms[a].pay == "iter" and any(y in seen for y, _ in e.t)
                            for a, e in x.sub.items()):
                    widened = True
            if not tainted and not any(x.satisfiable(b_atoms(goal)) for x in ce):
                tainted = True
        if not self.silent:
            if tainted:
                k[2] += 1
            elif st.ghost.get("suspect") and rule != "assert" and not self.in_repo(stack):
                k[2] += 1
            else:
                k[1] += 1
                w = self.site(stack)
                r = Report(rule, msg, w, stack or self.cur_stack(), tag, self.trail_list(st))
                r.widened = widened
                o = self.reports.get(r.key())
                if o is None or (o.widened and not widened):
                    self.reports[r.key()] = r
        return False

    def trail_list(self, st):
        out = []
        t = st.trail
        while t is not None and len(out) < 60:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def note(self, what):
        if not self.silent:
            self.notes[what] = self.notes.get(what, 0) + 1

    def give_up(self, st, why):
        """Precision is lost from here on: nothing on this path may raise an alarm any more."""
        st.taint = True
        if not self.silent:
            w = why + " at " + self.site_str()
            self.giveup[w] = self.giveup.get(w, 0) + 1

    # =================================================================================================================
    # atoms and regions
    def fresh(self, name, lo=None, hi=None, taint=False):
        return atom(self.tab.new("v", None, lo, hi, taint, None if name is None else name))

    def new_region(self, st, kind, size, name, info=None):
        a = self.tab.new("region", None, 4096, None, False, "&" + name)
        r = Region(a.i, kind, size, name, info)
        st.regions[a.i] = r
        st.own.add(a.i)
        return atom(a)

    def global_ptr(self, st, name):
        rid = self.regid_global.get(name)
        if rid is None:
            a = self.tab.new("region", ("g", name), 4096, None, False, "@" + name)
            rid = self.regid_global[name] = a.i
        if rid not in st.regions:
            g = self.mod.globals.get(name)
            init = g.get("init") if g else None
            kind = "const" if (g and g["const"] and init is not None) else "globvar"
            r = Region(rid, kind, const(g["size"]) if g and g["size"] else None, name)
            if init is not None:
                r.lazy = False
                for off, sz, v in init:
                    if v[0] == "z":
                        r.cells[const(off)] = (sz, FILL0)
                    else:
                        r.cells[const(off)] = (sz, self.const_val(st, v))
            st.regions[rid] = r
            st.own.add(rid)
        return Lin(0, ((rid, 1),))

    def func_ptr(self, name):
        return atom(self.tab.intern("func", name, 4096, None, False, "fn:" + name))

    def const_val(self, st, o):
        k = o[0]
        if k == "i":
            if o[2] == 1:
                return TRUE if o[1] else FALSE
            return const(o[1])
        if k == "g":
            return self.global_ptr(st, o[1]).addc(o[2])
        if k == "f":
            return self.func_ptr(o[1])
        if k == "z":
            return FILL0
        if k == "a":
            return tuple(self.const_val(st, x) for x in o[1])
        return UNDEF

    def val(self, st, env, o):
        k = o[0]
        if k == "r":
            return env.get(o[1], UNDEF)
        return self.const_val(st, o)

    def split_ptr(self, st, p):
        """Lin -> (region id | None, offset)"""
        if not isinstance(p, Lin):
            return None, None
        p = st.facts.norm(p)
        rid = None
        for a, q in p.t:
            at = self.tab.atoms[a]
            if at.kind == "region":
                if rid is not None or q != 1:
                    return None, None
                rid = a
        if rid is None:
            return None, p
        return rid, Lin(p.c, tuple(x for x in p.t if x[0] != rid))

    def region_for(self, st, p, what, need=None):
        """Resolve a pointer for an access; reports accesses through null, dangling or released storage.
        Returns (region, offset) or (None, None)."""
        rid, off = self.split_ptr(st, p)
        if rid is not None:
            r = st.regions.get(rid)
            if r is None:
                if self.tab.atoms[rid].pay and self.tab.atoms[rid].pay[0] == "g":
                    self.global_ptr(st, self.tab.atoms[rid].pay[1])
                    return st.regions[rid], off
                self.check(st, FALSE, "dangling", "%s through a pointer to an object whose lifetime has ended" % what)
                return None, None
            if r.status != "live":
                self.check(st, FALSE, "dangling", "%s in storage that was already released" % what)
                return None, None
            return r, off
        if p is UNDEF:
            self.check(st, UNDEFB, "uninit", "%s through an indeterminate pointer" % what)
            st.taint = True
            return None, None
        if off is not None:
            if off.is_const():
                self.check(st, FALSE, "null", "%s through a null pointer" % what)
                return None, None
            # an unknown pointer: treated as its own external block when it is a single atom plus constant
            ats = [a for a, q in off.t if q == 1 and self.tab.atoms[a].kind == "v" and not self.tab.atoms[a].taint]
            if len(off.t) == 1 and len(ats) == 1:
                a = self.tab.atoms[ats[0]]
                if a.pay == "ptr":
                    b = atom(a)
                    # may be null?
                    if not self.check(st, ("ne", b), "null", "%s through a pointer that may be null" % what):
                        st.taint = True
                        return None, None
                    base = self.ext_region(st, a)
                    return st.regions[base], off.sub(b)
        self.give_up(st, "unresolved pointer in " + what)
        return None, None

    def ext_region(self, st, a):
        key = ("ext", a.i)
        rid = self.regid_global.get(key)
        if rid is None:
            x = self.tab.new("region", key, 4096, None, False, "*" + a.name)
            rid = self.regid_global[key] = x.i
        if rid not in st.regions:
            st.regions[rid] = Region(rid, "ext", None, a.name)
            st.own.add(rid)
        return rid

    def bounds(self, st, r, off, n, what):
        if r.size is None:
            return True
        n = n if isinstance(n, Lin) else const(n)
        return self.check(st, b_and([b_ge(off), b_ge(r.size.sub(off).sub(n))]), "bounds",
                          "%s outside its storage (%s)" % (what, r.kind))

    # -----------------------------------------------------------------------------------------------------------------
    # raw memory
    def disjoint(self, f, o1, n1, o2, n2):
        n1 = n1 if isinstance(n1, Lin) else const(n1)
        n2 = n2 if isinstance(n2, Lin) else const(n2)
        d = o2.sub(o1)
        if d.is_const() and n1.is_const() and n2.is_const():
            return d.c >= n1.c or -d.c >= n2.c
        return f.entails_ge(d.sub(n1)) or f.entails_ge(d.neg().sub(n2))

    def cell_key(self, st, off):
        return st.facts.norm(off)

    def load(self, st, p, n, ty, what="load"):
        r, off = self.region_for(st, p, what)
        if r is None:
            return self.unknown(ty, True)
        if not self.bounds(st, r, off, n, what):
            return self.unknown(ty, True)
        off = st.facts.norm(off)
        c = r.cells.get(off)
        if c is not None and c[0] == n and c[1] is not FILL0:
            return self.retype(c[1], ty)
        f = st.facts
        for k, (sz, v) in r.cells.items():
            kk = f.norm(k)
            d = off.sub(kk)
            if d.is_const() and 0 <= d.c and d.c + n <= sz:
                if v is FILL0:
                    return FALSE if ty == ["i", 1] else ZERO
                if d.c == 0 and sz == n:
                    return self.retype(v, ty)
                if isinstance(v, Lin) and v.is_const():
                    x = (v.c >> (8 * d.c)) & ((1 << (8 * n)) - 1)
                    return self.retype(const(x), ty)
                if isinstance(v, Lin) and d.c == 0:
                    iv = f.interval(f.norm(v))
                    if iv[0] is not None and iv[1] is not None and iv[0] >= 0 and iv[1] < (1 << (8 * n)):
                        return self.retype(v, ty)
                return self.unknown(ty, True)
            if not self.disjoint(f, off, n, kk, sz):
                x = self.load_bytes(st, r, off, n)
                return self.unknown(ty, True) if x is None else self.retype(const(x), ty)
        if r.segs:
            v = self.load_raw(st, r, off, n, ty)
            if v is not None:
                return v
        if r.havoc:
            return self.unknown(ty, True)
        if r.lazy:
            v = self.lazy_value(r, off, ty)
            st.wr(r.rid).cells[off] = (n, v)
            return v
        return UNDEF

    def load_bytes(self, st, r, off, n):
        """A read put together from several constant cells."""
        f = st.facts
        have = {}
        for k, (sz, v) in r.cells.items():
            d = f.norm(k).sub(off)
            if not d.is_const() or d.c >= n or d.c + sz <= 0:
                continue
            if v is FILL0:
                v = 0
            elif isinstance(v, Lin) and v.is_const():
                v = v.c
            else:
                return None
            for i in range(max(0, -d.c), min(sz, n - d.c)):
                have[d.c + i] = (v >> (8 * i)) & 255
        if len(have) < n:
            return None
        return sum(b << (8 * i) for i, b in have.items())

    def load_raw(self, st, r, off, n, ty):
        """Scalar read from a tracked range of trivially copyable elements; None when no such range is concerned."""
        f = st.facts
        for s in r.segs:
            if s.ty != "raw":
                continue
            if f.entails_ge(off.sub(s.lo)) and f.entails_ge(s.hi.sub(off).addc(-n)):
                v = self.value_at(st, s, off)
                if v[0] == "v":
                    if s.sz == n:
                        return self.retype(v[1], ty)
                    if s.sz == 1 and isinstance(v[1], Lin) and v[1].is_const():
                        x = 0
                        for i in range(n):
                            x |= (v[1].c & 255) << (8 * i)
                        return self.retype(const(x), ty)
                    return self.unknown(ty, True)
                if v[0] == "seq" and (s.sz == n or s.sz == 0):
                    return self.seq_value(v, n, ty)
                return self.unknown(ty, True)
            if not self.disjoint(f, off, n, s.lo, s.hi.sub(s.lo)):
                return self.unknown(ty, True)
        return None

    def seq_value(self, v, n, ty):
        if ty[0] == "i" and ty[1] == 1:
            return ("b", self.tab.intern("seqb", v).i, True)
        if ty[0] == "p":
            a = self.tab.intern("seqp", v, 0, U64 - 1)
            a.kind, a.pay = "v", "ptr"
            return atom(a)
        return atom(self.tab.intern("seqval", (v, n), 0, (1 << (8 * n)) - 1))

    def raw_content(self, v, off, n):
        """content of one stored scalar"""
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            a = self.tab.atoms[v.t[0][0]]
            if a.kind == "seqval" and a.pay[1] == n:
                return self.content_of(a.pay[0], off)
        return ("tok", ("v", v))

    def raw_kill(self, st, r, off, n):
        """bytes [off, off+n) get a new meaning: cut them out of the tracked ranges"""
        if not r.segs:
            return
        f = st.facts
        n = n if isinstance(n, Lin) else const(n)
        out = []
        for s in r.segs:
            if s.ty != "raw" or self.disjoint(f, off, n, s.lo, s.hi.sub(s.lo)):
                out.append(s)
                continue
            end = off.add(n)
            if f.entails_ge(off.sub(s.lo)):
                if not f.entails_ge(s.lo.sub(off)):
                    out.append(Seg(s.lo, off, s.ty, s.sz, s.content))
            elif not f.entails_ge(s.lo.sub(off)):
                r.havoc = True
                continue
            if f.entails_ge(s.hi.sub(end)):
                if not f.entails_ge(end.sub(s.hi)):
                    out.append(Seg(end, s.hi, s.ty, s.sz, s.content))
            elif not f.entails_ge(end.sub(s.hi)):
                r.havoc = True
        r.segs = out

    def overwrite(self, st, r, off, n, what):
        """raw bytes are written over [off, off+n): no object may be alive there"""
        n = n if isinstance(n, Lin) else const(n)
        for s in r.segs:
            if s.ty != "raw" and not self.disjoint(st.facts, off, n, s.lo, s.hi.sub(s.lo)):
                goal = b_or([b_ge(s.lo.sub(off).sub(n)), b_ge(off.sub(s.hi)), b_ge(s.lo.sub(s.hi))])
                if not self.check(st, goal, "lifetime", "%s overwrites a live %s" % (what, s.ty)):
                    st.taint = True

    def lazy_value(self, r, off, ty):
        nm = "%s[%s]" % (r.name, off.show(self.tab))
        if ty[0] == "i":
            if ty[1] == 1:
                return ("b", self.tab.intern("lazyb", (r.rid, off), name=nm).i, True)
            return atom(self.tab.intern("v", ("lazy", r.rid, off, ty[1]), 0, (1 << ty[1]) - 1, False, nm))
        if ty[0] == "p":
            a = self.tab.intern("lz", (r.rid, off, "p"), 0, U64 - 1, False, nm)
            a.kind = "v"
            a.pay = "ptr"
            return atom(a)
        return UNDEF

    def unknown(self, ty, taint):
        if ty[0] == "i":
            if ty[1] == 1:
                return ("b", self.tab.new("ub", taint=taint).i, True)
            return self.fresh(None, 0, (1 << ty[1]) - 1, taint)
        if ty[0] == "p":
            a = self.tab.new("v", "ptr", 0, U64 - 1, taint)
            return atom(a)
        if ty[0] == "s":
            return tuple(self.unknown(t, taint) for _, t in ty[1])
        if ty[0] == "f":
            return self.fresh(None, taint=taint)
        return UNDEF

    def retype(self, v, ty):
        if ty[0] == "i" and ty[1] == 1 and isinstance(v, Lin):
            return self.to_bool(None, v)
        if isinstance(v, tuple) and v and v[0] in ("c", "ge", "eq", "ne", "b", "and", "or", "u") and \
                not (ty[0] == "i" and ty[1] == 1):
            return self.b2i(v)
        return v

    def store(self, st, p, n, v, what="store"):
        r, off = self.region_for(st, p, what)
        if r is None:
            return
        if r.kind == "const":
            self.check(st, FALSE, "bounds", "store into a constant")
            return
        if not self.bounds(st, r, off, n, what):
            st.taint = True
            return
        off = st.facts.norm(off)
        r = st.wr(r.rid)
        self.overwrite(st, r, off, n, what)
        self.kill(st, r, off, n)
        self.raw_kill(st, r, off, n)
        if r.size is not None and not r.size.is_const() and r.kind in ("heap", "ext") and v is not UNDEF:
            self.seg_add(st, r, Seg(off, off.addc(n), "raw", n, self.raw_content(v, off, n)))
            return
        r.cells[off] = (n, v)

    def kill(self, st, r, off, n):
        f = st.facts
        old = r.cells.get(off)
        if old is not None and old[0] == n:
            # same cell overwritten: symbolic aliases still have to go
            sym = [k for k in r.cells if k != off and not k.sub(off).is_const()]
            for k in sym:
                if not self.disjoint(f, off, n, f.norm(k), r.cells[k][0]):
                    del r.cells[k]
                    r.havoc = True
            return
        for k in list(r.cells):
            sz, v = r.cells[k]
            kk = f.norm(k)
            if self.disjoint(f, off, n, kk, sz):
                continue
            d = off.sub(kk)
            del r.cells[k]
            if d.is_const() and isinstance(n, int):
                # keep the untouched parts of a zero fill
                if v is FILL0:
                    if d.c > 0:
                        r.cells[kk] = (d.c, FILL0)
                    if d.c + n < sz:
                        r.cells[kk.addc(d.c + n)] = (sz - d.c - n, FILL0)
                elif not (d.c <= 0 and d.c + n >= sz):
                    r.havoc = True
            elif not isinstance(n, int) or not d.is_const():
                r.havoc = True

    def memcpy(self, st, dst, src, n, what="memcpy"):
        n = st.facts.norm(n) if isinstance(n, Lin) else n
        if n is UNDEF or not isinstance(n, Lin):
            self.give_up(st, "memcpy of indeterminate length")
            return
        if n.is_const() and n.c == 0:
            return
        if not n.is_const() and st.facts.entails(b_eq(n)):
            return
        rs, os_ = self.region_for(st, src, what + " (source)")
        rd, od = self.region_for(st, dst, what + " (target)")
        if rs is None or rd is None:
            return
        if not self.bounds(st, rs, os_, n, what + " reads"):
            st.taint = True
            return
        if not self.bounds(st, rd, od, n, what + " writes"):
            st.taint = True
            return
        f = st.facts
        os_, od = f.norm(os_), f.norm(od)
        segs = []
        items = []
        dropped = False
        for sg in rs.segs:
            if self.disjoint(f, os_, n, sg.lo, sg.hi.sub(sg.lo)):
                continue
            if sg.ty != "raw":
                goal = b_or([b_ge(sg.lo.sub(os_).sub(n)), b_ge(os_.sub(sg.hi)), b_ge(sg.lo.sub(sg.hi))])
                self.check(st, goal, "lifetime", "copies the bytes of a live object that is not trivially copyable")
                continue
            lo, hi, end = sg.lo, sg.hi, os_.add(n)
            if f.entails_ge(os_.sub(lo)):
                lo = os_
            elif not f.entails_ge(lo.sub(os_)):
                dropped = True
                continue
            if f.entails_ge(hi.sub(end)):
                hi = end
            elif not f.entails_ge(end.sub(hi)):
                dropped = True
                continue
            sh = od.sub(os_)
            c = sg.content
            if c[0] == "map":
                c = ("map", c[1], c[2].sub(sh))
            segs.append(Seg(lo.add(sh), hi.add(sh), "raw", sg.sz, c))
        for k, (sz, v) in rs.cells.items():
            kk = f.norm(k)
            d = kk.sub(os_)
            if d.is_const() and n.is_const() and d.c >= 0 and d.c + sz <= n.c:
                items.append((d, sz, v))
            elif d.is_const() and n.is_const() and v is FILL0:
                a, b = max(d.c, 0), min(d.c + sz, n.c)
                if a < b:
                    items.append((const(a), b - a, FILL0))
            elif self.disjoint(f, os_, n, kk, sz):
                pass
            elif f.entails_ge(d) and f.entails_ge(n.sub(d).addc(-sz)):
                items.append((d, sz, v))
            else:
                dropped = True
        lazy = rs.lazy
        w = st.wr(rd.rid)
        self.overwrite(st, w, od, n, what)
        self.kill(st, w, od, n.c if n.is_const() else n)
        self.raw_kill(st, w, od, n)
        for d, sz, v in items:
            w.cells[od.add(d)] = (sz, v)
        for sg in segs:
            self.seg_add(st, w, sg)
        if dropped or rs.havoc or lazy:
            if lazy and n.is_const() and n.c <= 64:
                # materialise eight-byte cells of the unknown source so that copies stay related
                done = [(d.c, sz) for d, sz, _ in items if d.is_const()]
                for d in range(0, n.c, 8):
                    sz = min(8, n.c - d)
                    if any(x < d + sz and d < x + y for x, y in done):
                        continue
                    ty = ["p"] if sz == 8 else ["i", 8 * sz]
                    v = self.lazy_value(rs, os_.addc(d), ty)
                    st.wr(rs.rid).cells[os_.addc(d)] = (sz, v)
                    w.cells[od.addc(d)] = (sz, v)
                if dropped or rs.havoc:
                    w.havoc = True
            else:
                w.havoc = True

    def memset(self, st, dst, v, n):
        n = st.facts.norm(n)
        if n.is_const() and n.c == 0:
            return
        if not n.is_const() and st.facts.entails(b_eq(n)):
            return
        r, off = self.region_for(st, dst, "memset")
        if r is None:
            return
        if not self.bounds(st, r, off, n, "memset writes"):
            st.taint = True
            return
        off = st.facts.norm(off)
        w = st.wr(r.rid)
        self.overwrite(st, w, off, n, "memset")
        self.kill(st, w, off, n.c if n.is_const() else n)
        self.raw_kill(st, w, off, n)
        if not n.is_const() and isinstance(v, Lin):
            self.seg_add(st, w, Seg(off, off.add(n), "raw", 1, ("tok", ("v", v))))
        elif n.is_const() and isinstance(v, Lin) and v.is_const() and (v.c & 255) == 0:
            w.cells[off] = (n.c, FILL0)
        elif n.is_const() and isinstance(v, Lin) and v.is_const() and n.c <= 64:
            for i in range(n.c):
                w.cells[off.addc(i)] = (1, const(v.c & 255))
        else:
            w.havoc = True

    # -----------------------------------------------------------------------------------------------------------------
    # object lifetimes
    def seg_drop_empty(self, st, r):
        f = st.facts
        r.segs = [s for s in r.segs if not f.entails_ge(s.lo.sub(s.hi))]

    def locate(self, st, r, off, sz):
        f = st.facts
        for i, s in enumerate(r.segs):
            if f.entails_ge(off.sub(s.lo)) and f.entails_ge(s.hi.sub(off).addc(-sz)):
                return i
        return None

    def obj_in_goal(self, r, off, sz):
        return b_or([b_and([b_ge(off.sub(s.lo)), b_ge(s.hi.sub(off).addc(-sz))]) for s in r.segs if s.ty != "raw"])

    def seg_add(self, st, r, seg):
        f = st.facts
        seg.lo, seg.hi = f.norm(seg.lo), f.norm(seg.hi)
        seg.content = self.norm_content(f, seg.content)
        out = []
        v = self.single(f, seg)
        for s in r.segs:
            if s.ty == seg.ty and v is not None and s.content != seg.content and s.sz == seg.sz and \
                    (s.content == ("tok", v) or (self.single(f, s) == v)):
                # neighbours that carry the same value
                t = ("tok", v)
                if f.entails(b_eq(f.norm(s.hi).sub(seg.lo))):
                    seg = Seg(s.lo, seg.hi, seg.ty, seg.sz, t)
                    v = None
                    continue
                if f.entails(b_eq(f.norm(s.lo).sub(seg.hi))):
                    seg = Seg(seg.lo, s.hi, seg.ty, seg.sz, t)
                    v = None
                    continue
            if s.ty == seg.ty and self.norm_content(f, s.content) == seg.content:
                if f.entails(b_eq(f.norm(s.hi).sub(seg.lo))):
                    seg = Seg(s.lo, seg.hi, seg.ty, seg.sz, seg.content)
                    continue
                if f.entails(b_eq(f.norm(s.lo).sub(seg.hi))):
                    seg = Seg(seg.lo, s.hi, seg.ty, seg.sz, seg.content)
                    continue
            out.append(s)
        out.append(seg)
        r.segs = out

    def single(self, f, seg):
        """value of a segment that is exactly one element of a mapped source"""
        if seg.content[0] == "map" and seg.hi.sub(seg.lo) == const(seg.sz):
            return ("seq", seg.content[1], f.norm(seg.lo.add(seg.content[2])))
        return None

    def norm_content(self, f, c):
        if c[0] == "map":
            return ("map", c[1], f.norm(c[2]))
        return c

    def value_at(self, st, seg, off):
        c = seg.content
        if c[0] == "map":
            return ("seq", c[1], st.facts.norm(off.add(c[2])))
        return c[1]

    def content_of(self, v, off):
        if v[0] == "seq":
            return ("map", v[1], v[2].sub(off))
        return ("tok", v)

    def construct(self, st, p, ty, value):
        sz = self.sizes[ty]
        r, off = self.region_for(st, p, "construction of %s" % ty)
        if r is None:
            return False
        if not self.bounds(st, r, off, sz, "construction of %s" % ty):
            st.taint = True
            return False
        self.aligned(st, p, self.aligns.get(ty, 1), "construction of %s" % ty)
        off = st.facts.norm(off)
        goal = b_and([b_or([b_ge(s.lo.sub(off).addc(-sz)), b_ge(off.sub(s.hi))]) for s in r.segs if s.ty != "raw"])
        if not self.check(st, goal, "lifetime", "constructs a %s over an object that is still alive" % ty):
            st.taint = True
            return False
        w = st.wr(r.rid)
        self.kill(st, w, off, sz)
        self.raw_kill(st, w, off, sz)
        self.seg_drop_empty(st, w)
        self.seg_add(st, w, Seg(off, off.addc(sz), ty, sz, self.content_of(value, off)))
        return True

    def object(self, st, p, ty, what):
        """value identity of the live object at p, or None"""
        sz = self.sizes[ty]
        r, off = self.region_for(st, p, what)
        if r is None:
            return None
        off = st.facts.norm(off)
        i = self.locate(st, r, off, sz)
        if i is None or r.segs[i].ty == "raw":
            if r.havoc and not r.segs:
                self.give_up(st, "object in unknown storage")
                return None
            self.bounds(st, r, off, sz, what)
            if not self.check(st, self.obj_in_goal(r, off, sz), "lifetime", "%s, which is not alive" % what):
                st.taint = True
                return None
            return ("unk", self.tab.new("t", taint=True).i)
        if r.segs[i].ty != ty:
            self.check(st, FALSE, "type", "%s but the storage holds a %s" % (what, r.segs[i].ty))
            st.taint = True
            return None
        return self.value_at(st, r.segs[i], off)

    def cases(self, st, p, sz):
        """Partition a state so that the object at p lies in one known segment of its block."""
        rid, off = self.split_ptr(st, p)
        r = st.regions.get(rid)
        if r is None or r.status != "live" or len(r.segs) < 2:
            return [st]
        off = st.facts.norm(off)
        if self.locate(st, r, off, sz) is not None:
            return [st]
        w = st.wr(rid)
        self.coalesce(st, w)
        if self.locate(st, w, off, sz) is not None:
            return [st]
        out = []
        rest = [st.facts]
        for sg in [x for x in w.segs if x.ty != "raw"]:
            inside = b_and([b_ge(off.sub(sg.lo)), b_ge(sg.hi.sub(off).addc(-sz))])
            nxt = []
            for f in rest:
                for g in f.assume(inside):
                    if g.consistent():
                        out.append(st.fork(g))
                nxt.extend(g for g in f.assume(b_not(inside)) if g.consistent())
            rest = nxt
            if len(out) + len(rest) > 12:
                return [st]
        out.extend(st.fork(g) for g in rest)
        return out or [st]

    def coalesce(self, st, r):
        segs, r.segs = r.segs, []
        for x in segs:
            if not st.facts.entails_ge(x.lo.sub(x.hi)):
                self.seg_add(st, r, Seg(x.lo, x.hi, x.ty, x.sz, x.content))

    def by_cases(self, idx, m):
        """Wrap an object operation: the objects named by these argument positions are resolved case by case."""
        def op(args, ins, st):
            cur = [st]
            for i, sz in idx:
                if i < len(args) and isinstance(args[i], Lin):
                    cur = [y for x in cur for y in self.cases(x, args[i], sz)]
            if len(cur) == 1:
                return m(args, ins, cur[0])
            return [r for x in cur for r in m(args, ins, x)]
        return op

    def split_seg(self, st, r, i, off, sz):
        s = r.segs.pop(i)
        f = st.facts
        a = Seg(s.lo, off, s.ty, s.sz, s.content)
        b = Seg(off.addc(sz), s.hi, s.ty, s.sz, s.content)
        for x in (a, b):
            if not f.entails_ge(x.lo.sub(x.hi)):
                r.segs.append(x)
        return s

    def destroy(self, st, p, ty):
        if self.object(st, p, ty, "destroys a %s" % ty) is None:
            return False
        r, off = self.region_for(st, p, "destroys")
        off = st.facts.norm(off)
        i = self.locate(st, r, off, self.sizes[ty])
        if i is None:
            self.give_up(st, "destroy in unclear segment")
            return False
        w = st.wr(r.rid)
        self.split_seg(st, w, i, off, self.sizes[ty])
        return True

    def reassign(self, st, p, ty, value, what):
        if self.object(st, p, ty, what) is None:
            return False
        r, off = self.region_for(st, p, what)
        off = st.facts.norm(off)
        i = self.locate(st, r, off, self.sizes[ty])
        if i is None:
            self.give_up(st, "assignment in unclear segment")
            return False
        w = st.wr(r.rid)
        self.split_seg(st, w, i, off, self.sizes[ty])
        self.seg_add(st, w, Seg(off, off.addc(self.sizes[ty]), ty, self.sizes[ty], self.content_of(value, off)))
        return True

    def scope_end(self, st, rid, what="goes out of scope"):
        r = st.regions.get(rid)
        if r is None:
            return
        w = st.wr(rid)
        self.seg_drop_empty(st, w)
        for s in [x for x in w.segs if x.ty != "raw"]:
            # a range that may be empty is a leak only when it is not
            self.check(st, b_ge(s.lo.sub(s.hi)), "lifetime",
                       "a live %s in local storage is never destroyed" % s.ty)

    def release(self, st, p, goal_fn, what):
        """Common part of every deallocation: returns the region when it may be released."""
        rid, off = self.split_ptr(st, p)
        if rid is None:
            if isinstance(p, Lin) and st.facts.entails(b_eq(p)):
                return None
            if p is UNDEF:
                self.check(st, UNDEFB, "uninit", "%s of an indeterminate pointer" % what)
                st.taint = True
                return None
            at = [a for a, _ in off.t] if off is not None else []
            if off is not None and len(off.t) == 1 and self.tab.atoms[at[0]].pay == "ptr" and not self.tab.atoms[at[0]].taint:
                if not self.check(st, FALSE, "release", "%s of a pointer that was not obtained from this resource" % what):
                    st.taint = True
                return None
            self.give_up(st, "release of unresolved pointer")
            return None
        r = st.regions.get(rid)
        if r is None:
            self.check(st, FALSE, "release", "%s of storage that no longer exists" % what)
            st.taint = True
            return None
        if r.kind != "heap":
            self.check(st, FALSE, "release", "%s of storage that was not obtained from an allocator (%s)" % (what, r.kind))
            st.taint = True
            return None
        if r.status != "live":
            self.check(st, FALSE, "release", "%s of a block that was already released" % what)
            st.taint = True
            return None
        if not self.check(st, b_eq(off), "release", "%s of a pointer into the middle of a block" % what):
            st.taint = True
            return None
        self.check(st, goal_fn(r), "release", "%s with a size, alignment or resource that differs from the allocation" % what)
        w = st.wr(rid)
        self.seg_drop_empty(st, w)
        for s in [x for x in w.segs if x.ty != "raw"]:
            self.check(st, b_ge(s.lo.sub(s.hi)), "lifetime", "storage is released while it still holds live %s objects" % s.ty)
        w.status = "freed"
        w.segs = []
        w.cells = {}
        return w

    # =================================================================================================================
    # boolean helpers
    def b2i(self, b):
        if b == TRUE:
            return ONE
        if b == FALSE:
            return ZERO
        if b[0] == "u":
            return UNDEF
        return atom(self.tab.intern("b2i", b, 0, 1, any(self.tab.atoms[a].taint for a in b_atoms(b))))

    def as_bool_atom(self, e):
        """Lin that is exactly a b2i atom -> its boolean form"""
        if len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1:
            a = self.tab.atoms[e.t[0][0]]
            if a.kind == "b2i":
                return a.pay
        return None

    def to_bool(self, st, e):
        if not isinstance(e, Lin):
            return e if isinstance(e, tuple) else UNDEFB
        if e.is_const():
            return TRUE if e.c & 1 else FALSE
        b = self.as_bool_atom(e)
        if b is not None:
            return b
        if len(e.t) == 1 and e.c == 1 and e.t[0][1] == -1:
            b = self.as_bool_atom(Lin(0, ((e.t[0][0], 1),)))
            if b is not None:
                return b_not(b)
        lo, hi = Facts(self.tab).interval(e)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return ("eq", e.addc(-1)) if b_eq(e.addc(-1)) not in (TRUE, FALSE) else b_eq(e.addc(-1))
        if len(e.t) == 1 and e.c == 0:
            # a stored bool read back from unknown memory
            return b_not(b_eq(self.urem(e, 2)))
        return b_not(b_eq(self.urem(e, 2)))

    def cmp(self, st, pred, a, b, ptr):
        if isinstance(a, PBits) or isinstance(b, PBits):
            x, y = self.pbits(a, 64), self.pbits(b, 64)
            if x is not None and y is not None and (x.v ^ y.v) & x.d & y.d and pred in ("eq", "ne"):
                return FALSE if pred == "eq" else TRUE
            return UNDEFB
        if a is UNDEF or b is UNDEF:
            return UNDEFB
        if isinstance(a, tuple) and a and isinstance(a[0], str):
            if pred in ("eq", "ne"):
                x, y = a, b
                if y == TRUE:
                    r = x
                elif y == FALSE:
                    r = b_not(x)
                elif x == TRUE:
                    r = y
                elif x == FALSE:
                    r = b_not(y)
                else:
                    r = b_or([b_and([x, y]), b_and([b_not(x), b_not(y)])])
                return r if pred == "eq" else b_not(r)
            a, b = self.b2i(a), self.b2i(b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return UNDEFB
        f = st.facts
        a, b = f.norm(a), f.norm(b)
        ra, oa = self.split_ptr(st, a)
        rb, ob = self.split_ptr(st, b)
        if (ra is not None and rb is None) or (rb is not None and ra is None):
            o = ob if ra is not None else oa
            if o is None:
                return ("b", self.tab.new("ub", taint=True).i, True)
            if o.is_const():
                if pred == "eq":
                    return FALSE
                if pred == "ne":
                    return TRUE
            fa = [self.tab.atoms[x].kind == "func" for x, _ in o.t]
            if any(fa) and pred in ("eq", "ne"):
                return FALSE if pred == "eq" else TRUE
            # address of a block against an unknown pointer: they may be anything to each other
            return ("b", self.tab.intern("pc", (pred, a, b), taint=True).i, True)
        if ra is not None and rb is not None and ra != rb:
            if pred == "eq":
                return FALSE
            if pred == "ne":
                return TRUE
            ka, kb = sorted((ra, rb))
            lt = ("b", self.tab.intern("plt", (ka, kb), taint=True).i, True)
            if pred in ("ult", "ule", "slt", "sle"):
                return lt if (ra, rb) == (ka, kb) else b_not(lt)
            return lt if (rb, ra) == (ka, kb) else b_not(lt)
        funcs = [self.tab.atoms[x].kind == "func" for e in (a, b) for x, _ in e.t]
        if any(funcs) and pred in ("eq", "ne"):
            d = a.sub(b)
            if d.is_const() and d.c == 0:
                return TRUE if pred == "eq" else FALSE
            if all(self.tab.atoms[x].kind == "func" for x, _ in d.t) and (len(d.t) == 2 or d.c == 0):
                return FALSE if pred == "eq" else TRUE
        d = a.sub(b)
        if pred in ("eq", "ne"):
            if not d.is_const():
                # modular equality of a possibly negative form with a large constant
                if len(d.t) == 1 and d.t[0][1] == -1:
                    d = d.neg()
                if len(d.t) == 2 and d.c == 0 and d.t[0][1] == -d.t[1][1] and abs(d.t[0][1]) == 1:
                    x, y = (self.as_bool_atom(Lin(0, ((z, 1),))) for z, _ in d.t)
                    if x is not None and y is not None:
                        r = b_or([b_and([x, y]), b_and([b_not(x), b_not(y)])])
                        return r if pred == "eq" else b_not(r)
                x = self.as_bool_atom(Lin(0, d.t)) if len(d.t) == 1 and d.t[0][1] == 1 else None
                if x is not None:
                    r = b_not(x) if d.c == 0 else (x if d.c == -1 else FALSE)
                    return r if pred == "eq" else b_not(r)
                if len(d.t) == 1 and d.t[0][1] == 1 and d.c > 0:
                    at = self.tab.atoms[d.t[0][0]]
                    if at.lo is not None and at.lo >= 0 and d.c <= (1 << 20):
                        d = d.addc(-U64)
            r = b_eq(d)
            return r if pred == "eq" else b_not(r)
        if pred[0] == "u":
            a = self.unsigned(st, a)
            b = self.unsigned(st, b)
        else:
            a = self.signed_const(a)
            b = self.signed_const(b)
        d = a.sub(b)
        if pred in ("ugt", "sgt"):
            return b_ge(d.addc(-1))
        if pred in ("uge", "sge"):
            return b_ge(d)
        if pred in ("ult", "slt"):
            return b_ge(d.neg().addc(-1))
        return b_ge(d.neg())

    def unsigned(self, st, e):
        if e.is_const():
            return const(e.c % U64)
        return e

    def signed_const(self, e):
        if e.is_const() and e.c >= (1 << 63):
            return const(e.c - U64)
        return e

    # arithmetic ------------------------------------------------------------------------------------------------------
    def udiv(self, e, c):
        if e.is_const():
            return const((e.c % U64) // c)
        if all(q % c == 0 for _, q in e.t):
            return Lin(e.c // c, tuple((a, q // c) for a, q in e.t))
        # pull out the divisible part
        whole = tuple((a, q // c) for a, q in e.t if q % c == 0)
        rest = Lin(e.c % c, tuple((a, q) for a, q in e.t if q % c))
        wc = e.c // c
        at = self.tab.intern("udiv", (rest, c), None, None, any(self.tab.atoms[a].taint for a, _ in rest.t))
        if not at.axioms:
            q = atom(at)
            at.axioms = (rest.sub(q.scale(c)), q.scale(c).addc(c - 1).sub(rest))
            lo, hi = Facts(self.tab).interval(rest)
            at.lo = None if lo is None else lo // c
            at.hi = None if hi is None else hi // c
        return Lin(wc, ()).add(Lin(0, whole)).add(atom(at))

    def urem(self, e, c):
        if e.is_const():
            return const((e.c % U64) % c)
        lo, hi = Facts(self.tab).interval(e)
        if lo is not None and hi is not None and lo >= 0 and hi < c:
            return e
        return e.sub(self.udiv(e, c).scale(c))

    def region_align(self, st, rid):
        """alignment the start of a block is known to have"""
        r = st.regions.get(rid)
        if r is None:
            return 1
        al = r.info.get("align") if r.info else None
        if isinstance(al, Lin):
            al = al.c if al.is_const() else 1
        if al is not None:
            return al
        return 16 if r.kind == "heap" else 4096

    def pmod(self, st, e, c):
        """address e modulo the power of two c: a constant, or an interned remainder in [0, c)"""
        e = st.facts.norm(e)
        while True:
            m = [(a, q) for a, q in e.t if self.tab.atoms[a].kind == "mod" and self.tab.atoms[a].pay[1] % c == 0]
            if not m:
                break
            a, q = m[0]
            e = e.sub(Lin(0, ((a, q),))).add(self.tab.atoms[a].pay[0].scale(q))
        t = []
        for a, q in e.t:
            at = self.tab.atoms[a]
            if at.kind == "region" and self.region_align(st, a) % c == 0:
                continue
            if q % c:
                t.append((a, q % c))
        e = Lin(e.c % c, tuple(t))
        if e.is_const():
            return e
        free = all(self.tab.atoms[a].kind == "region" and q == 1 for a, q in e.t)
        if free and e.c and len(e.t) == 1:
            # (B + k) mod c for the remainder B of the block's address: B + k, less c when that is too much
            base = atom(self.tab.intern("mod", (e.addc(-e.c), c), 0, c - 1, False, "rest"))
            w = self.tab.intern("modw", (e, c), 0, 1, False, "over")
            r = base.addc(e.c).sub(atom(w).scale(c))
            if not w.axioms:
                w.axioms = (r, const(c - 1).sub(r))
            return r
        return atom(self.tab.intern("mod", (e, c), 0, c - 1, not free, "rest"))

    def has_region(self, e):
        return any(self.tab.atoms[a].kind in ("region", "mod", "modw") for a, _ in e.t)

    def aligned(self, st, p, al, what):
        """access through p needs alignment al"""
        if al <= 1 or not isinstance(p, Lin):
            return
        rid, off = self.split_ptr(st, p)
        if rid is None or rid not in st.regions:
            return
        m = self.pmod(st, p, al)
        if m.is_const():
            self.check(st, TRUE if m.c == 0 else FALSE, "align", "%s at an address that is not aligned to %d" % (what, al))
        else:
            self.check(st, b_eq(m), "align", "%s at an address that need not be aligned to %d" % (what, al))

    def opaque_op(self, op, a, b, bits):
        t = False
        for e in (a, b):
            if isinstance(e, Lin):
                t = t or any(self.tab.atoms[x].taint for x, _ in e.t)
        t = True  # the relation of the result to its operands is not represented
        at = self.tab.intern("op", (op, a, b, bits), 0, (1 << bits) - 1, t, None)
        return atom(at)

    def fit(self, st, e, bits, signed_ok=True):
        """value reduced to `bits`: returns list of (state, Lin)"""
        if e.is_const():
            m = 1 << bits
            c = e.c % m
            return [(st, const(c if c < m // 2 or not signed_ok else c - m))]
        return [(st, e)]

    def binop(self, st, op, a, b, bits, ins):
        if isinstance(a, tuple) and a and isinstance(a[0], str) and bits == 1:
            if op == "and":
                return b_and([a, b])
            if op == "or":
                return b_or([a, b])
            if op == "xor":
                if b == TRUE:
                    return b_not(a)
                if b == FALSE:
                    return a
                if a == TRUE:
                    return b_not(b)
                return b_or([b_and([a, b_not(b)]), b_and([b_not(a), b])])
        if a is UNDEF or b is UNDEF or not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ("and", "or", "xor", "shl", "lshr") and bits != 1:
                return self.bit_op(op, a, b, bits)
            return UNDEF if bits != 1 else UNDEFB
        f = st.facts
        a, b = f.norm(a), f.norm(b)
        if op == "add":
            r = a.add(b)
            if r.is_const():
                return const(self.wrapc(r.c, bits))
            return r
        if op == "sub":
            r = a.sub(b)
            if r.is_const():
                return const(self.wrapc(r.c, bits))
            return r
        if op == "mul":
            if a.is_const():
                a, b = b, a
            if b.is_const():
                r = a.scale(b.c)
                if r.is_const():
                    return const(self.wrapc(r.c, bits))
                return r
            at = self.tab.intern("mul", (a, b) if a.h < b.h else (b, a), 0, None, True)
            return atom(at)
        if op == "shl" and b.is_const():
            return self.binop(st, "mul", a, const(1 << b.c), bits, ins)
        if op == "shl" and a.is_const():
            # 1 << x with small x: one opaque power-of-two
            iv = f.interval(b)
            return self.opaque_op("shl", a, b, bits)
        if op in ("udiv", "lshr", "sdiv", "ashr") and b.is_const() and b.c > 0:
            c = b.c if op in ("udiv", "sdiv") else (1 << b.c)
            if op in ("sdiv", "ashr"):
                if all(q % c == 0 for _, q in a.t) and a.c % c == 0:
                    return Lin(a.c // c, tuple((x, q // c) for x, q in a.t))
                if not f.entails_ge(a) and op == "sdiv":
                    return self.opaque_op(op, a, b, bits)
                return self.udiv(a, c)
            if not f.entails_ge(a) and not a.is_const():
                return self.opaque_op(op, a, b, bits)
            return self.udiv(a, c)
        if op == "udiv" and not b.is_const() and f.entails_ge(b.addc(-1)) and f.entails_ge(a):
            at = self.tab.intern("udivs", (a, b), 0, None, True)
            if not at.axioms:
                q = atom(at)
                at.axioms = (a.sub(q),)
            return atom(at)
        if op in ("urem", "srem") and b.is_const() and b.c > 0:
            if b.c & (b.c - 1) == 0 and self.has_region(a):
                return self.pmod(st, a, b.c)
            if f.entails_ge(a):
                return self.urem(a, b.c)
            return self.opaque_op(op, a, b, bits)
        if op == "and":
            if a.is_const():
                a, b = b, a
            if b.is_const():
                if a.is_const():
                    return const(a.c & b.c)
                m = b.c & ((1 << bits) - 1)
                iv = f.interval(a)
                neg = ((1 << bits) - 1) ^ m
                if neg == 0:
                    return a
                if m & (m + 1) == 0 and self.has_region(a):
                    return self.pmod(st, a, m + 1)
                if neg & (neg + 1) == 0 and self.has_region(a):
                    return a.sub(self.pmod(st, a, neg + 1))
                if m & (m + 1) == 0 and f.entails_ge(a):
                    return self.urem(a, m + 1)
                inv = ((1 << bits) - 1) ^ m
                if inv & (inv + 1) == 0 and f.entails_ge(a):
                    return a.sub(self.urem(a, inv + 1))
                if iv[0] is not None and iv[1] is not None and iv[0] >= 0 and iv[1] <= 1:
                    return a if m & 1 else ZERO
            x, y = self.as_bool_atom(a), self.as_bool_atom(b)
            if x is not None and y is not None:
                return self.b2i(b_and([x, y]))
            return self.opaque_op("and", *sorted((a, b), key=lambda e: e.h), bits)
        if op == "or":
            if a.is_const():
                a, b = b, a
            if a.is_const() and b.is_const():
                return const(a.c | b.c)
            if b.is_const() and b.c == 0:
                return a
            x, y = self.as_bool_atom(a), self.as_bool_atom(b)
            if x is not None and y is not None:
                return self.b2i(b_or([x, y]))
            return self.opaque_op("or", *sorted((a, b), key=lambda e: e.h), bits)
        if op == "xor":
            if a.is_const():
                a, b = b, a
            if a.is_const() and b.is_const():
                return const(a.c ^ b.c)
            if b.is_const() and b.c == -1:
                return a.neg().addc(-1)
            if b.is_const() and b.c == 1:
                iv = f.interval(a)
                if iv[0] is not None and iv[1] is not None and iv[0] >= 0 and iv[1] <= 1:
                    x = self.as_bool_atom(a)
                    if x is not None:
                        return self.b2i(b_not(x))
                    return a.neg().addc(1)
            return self.opaque_op("xor", *sorted((a, b), key=lambda e: e.h), bits)
        return self.opaque_op(op, a, b, bits)

    def pbits(self, x, bits):
        full = (1 << bits) - 1
        if isinstance(x, PBits):
            return x
        if x is UNDEF:
            return PBits(0, 0)
        if isinstance(x, Lin) and x.is_const():
            return PBits(full, x.c & full)
        return None

    def from_pbits(self, x, bits):
        full = (1 << bits) - 1
        if x.d & full == full:
            return const(self.wrapc(x.v & full, bits))
        return PBits(x.d & full, x.v) if x.d & full else UNDEF

    def bit_op(self, op, a, b, bits):
        full = (1 << bits) - 1
        x, y = self.pbits(a, bits), self.pbits(b, bits)
        if x is None or y is None:
            return UNDEF
        if op == "and":
            r = PBits((x.d & y.d) | (x.d & ~x.v) | (y.d & ~y.v), x.v & y.v)
        elif op == "or":
            r = PBits((x.d & y.d) | (x.d & x.v) | (y.d & y.v), x.v | y.v)
        elif op == "xor":
            r = PBits(x.d & y.d, x.v ^ y.v)
        elif y.d & full != full:
            return UNDEF
        elif op == "shl":
            r = PBits(((x.d << y.v) | ((1 << y.v) - 1)) & full, (x.v << y.v) & full)
        else:
            r = PBits((x.d >> y.v) | (full & ~(full >> y.v)), x.v >> y.v)
        return self.from_pbits(r, bits)

    def wrapc(self, c, bits):
        m = 1 << bits
        c %= m
        return c - m if c >= m // 2 else c

    # =================================================================================================================
    # functions, blocks, loops
    def exec_function(self, fn, args, st, loc):
        """-> list of (kind, state, value); kinds: ret, unw"""
        if self.depth > self.max_depth:
            same = [a for f, a in self.calls if f is fn and a == args]
            if len(same) >= 20:
                self.check(st, FALSE, "abort", "this calls itself endlessly with the same arguments")
                return []
            self.give_up(st, "call depth")
            return [("ret", st, self.unknown(fn.rt, True))]
        if fn.file and fn.file.startswith(self.repo) and not self.silent:
            self.fn_seen.add(fn.dem)
        env = {}
        for a, v in zip(fn.args, args):
            env[a["id"]] = v
        env["allocas"] = ()
        save = getattr(self, "cur_fn", None), getattr(self, "cur_loc", None)
        if save[0] is not None:
            self.stack.append((save[0].dem, loc))
        self.depth += 1
        self.calls.append((fn, args))
        self.cur_fn, self.cur_loc = fn, None
        res = self.exec_blocks(fn, [(0, None, st, env)], None)
        out = []
        for r in res:
            kind = r[0]
            if kind in ("ret", "unw"):
                _, s, v, e = r
                self.cur_loc = e.get("loc")
                for rid in e["allocas"]:
                    self.scope_end(s, rid)
                    s.regions.pop(rid, None)
                out.append((kind, s, v))
        self.depth -= 1
        self.calls.pop()
        if save[0] is not None:
            self.stack.pop()
        self.cur_fn, self.cur_loc = save
        return out

    def exec_blocks(self, fn, items, loop):
        """Explore from items until control leaves the function or the loop.
        Results: ('ret'|'unw', state, value, env), ('back', prev, state, env), ('exit', block, prev, state, env)."""
        results = []
        work = [(b, p, s, e, True) for b, p, s, e in items]
        while work:
            b, prev, st, env, first = work.pop()
            if loop is not None and not first:
                if b == loop[0]:
                    results.append(("back", prev, st, env))
                    continue
                if b not in loop[1]:
                    results.append(("exit", b, prev, st, env))
                    continue
            if b in fn.loops and not (loop is not None and b == loop[0] and first):
                for r in self.exec_loop(fn, b, prev, st, env):
                    if r[0] == "exit":
                        work.append((r[1], r[2], r[3], r[4], False))
                    else:
                        results.append(r)
                continue
            for r in self.exec_block(fn, b, prev, st, env):
                if r[0] == "go":
                    work.append((r[1], b, r[2], r[3], False))
                else:
                    results.append(r)
            if len(work) + len(results) > self.opts.get("max_fanout", 4000):
                raise Budget()
        return results

    def phis(self, fn, b, prev, st, env):
        blk = fn.blocks[b]
        new = {}
        for ins in blk:
            if ins["op"] != "phi":
                break
            v = UNDEF
            for pb, o in ins["ops"]:
                if pb == prev:
                    v = self.val(st, env, o)
                    break
            new[ins["id"]] = v
        if new:
            env = dict(env)
            env.update(new)
        return env

    def exec_block(self, fn, b, prev, st, env):
        """-> list of ('go', succ, st, env) | ('ret',..) | ('unw',..)"""
        if prev is not None:
            env = self.phis(fn, b, prev, st, env)
        blk = fn.blocks[b]
        out = []
        work = [(0, st, env)]
        while work:
            i, st, env = work.pop()
            while True:
                ins = blk[i]
                op = ins["op"]
                if op == "phi":
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.max_steps or (not self.steps & 1023 and self.deadline and time.time() > self.deadline):
                    raise Budget()
                self.cur_fn = fn
                l = ins.get("loc")
                if l:
                    self.cur_loc = l[0]
                h = getattr(self, "i_" + op.replace(".", "_"), None)
                if op in ("br", "switch", "ret", "resume", "unreachable", "invoke"):
                    out.extend(self.terminator(fn, b, ins, st, env))
                    break
                if op == "call":
                    res = self.do_call(ins, st, env)
                elif h is not None:
                    res = h(ins, st, env)
                else:
                    self.note("instruction " + op)
                    res = [(st, self.unknown(ins["t"], True) if "t" in ins else None)]
                if res is None:
                    i += 1
                    continue
                nxt = []
                for r in res:
                    if len(r) == 3:  # ('unw', st, v)
                        e2 = dict(env)
                        e2["loc"] = self.cur_loc
                        out.append(("unw", r[1], r[2], e2))
                    else:
                        nxt.append(r)
                if not nxt:
                    break
                if len(nxt) == 1:
                    st, v = nxt[0]
                    if "id" in ins:
                        env[ins["id"]] = v
                    i += 1
                    continue
                for s2, v in nxt[1:]:
                    e2 = dict(env)
                    if "id" in ins:
                        e2[ins["id"]] = v
                    work.append((i + 1, s2, e2))
                st, v = nxt[0]
                env = dict(env)
                if "id" in ins:
                    env[ins["id"]] = v
                i += 1
        return out

    def branch(self, st, cond):
        """-> list of (state, taken bool)"""
        if cond == TRUE:
            return [(st, True)]
        if cond == FALSE:
            return [(st, False)]
        if cond == UNDEFB or cond is UNDEF or not isinstance(cond, tuple):
            if cond == UNDEFB or cond is UNDEF:
                self.check(st, UNDEFB, "uninit", "control flow depends on an indeterminate value")
            a, b = st, st.fork()
            a.taint = b.taint = True
            return [(a, True), (b, False)]
        f = st.facts
        if self.cond_log is not None:
            self.cond_log.add(cond)
        if f.entails(cond):
            return [(st, True)]
        neg = b_not(cond)
        if f.entails(neg):
            return [(st, False)]
        yes = f.assume(cond)
        no = f.assume(neg)
        out = []
        ct = any(self.tab.atoms[a].taint for a in b_atoms(cond))
        for g, t in [(g, True) for g in yes] + [(g, False) for g in no]:
            s = st.fork(g)
            s.trail = ((self.site_str() + (" [T]" if t else " [F]")), s.trail)
            if ct:
                s.taint = True  # the branch may be infeasible
            out.append((s, t))
        self.n_states += 1
        return out

    def terminator(self, fn, b, ins, st, env):
        op = ins["op"]
        if op == "br":
            if "cond" not in ins:
                return [("go", ins["succ"][0], st, env)]
            c = self.val(st, env, ins["cond"])
            out = []
            if self.exit_log is not None and c not in (TRUE, FALSE):
                for hd, body in fn.loops.items():
                    if b in body and any(x not in body for x in ins["succ"]):
                        self.exit_log.add((fn.name, hd))
            for s, t in self.branch(st, c):
                out.append(("go", ins["succ"][0 if t else 1], s, env if s is st else dict(env)))
            return out
        if op == "switch":
            v = self.val(st, env, ins["cond"])
            out = []
            if v is UNDEF or not isinstance(v, Lin):
                self.check(st, UNDEFB, "uninit", "switch on an indeterminate value")
                return out
            cur = [st]
            for c, tgt in ins["cases"]:
                nxt = []
                for s in cur:
                    e = v.addc(-c)
                    for s2, t in self.branch(s, b_eq(s.facts.norm(e))):
                        if t:
                            out.append(("go", tgt, s2, dict(env)))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                out.append(("go", ins["def"], s, dict(env)))
            return out
        if op == "ret":
            v = self.val(st, env, ins["ops"][0]) if ins.get("ops") else None
            e2 = dict(env)
            e2["loc"] = self.cur_loc
            return [("ret", st, v, e2)]
        if op == "resume":
            e2 = dict(env)
            e2["loc"] = self.cur_loc
            return [("unw", st, None, e2)]
        if op == "unreachable":
            return []
        if op == "invoke":
            out = []
            for r in self.do_call(ins, st, env):
                if len(r) == 3:
                    if r[0] == "unw":
                        out.append(("go", ins["unwind"], r[1], dict(env)))
                    continue
                s, v = r
                e2 = dict(env)
                if "id" in ins:
                    e2[ins["id"]] = v
                out.append(("go", ins["normal"], s, e2))
            return out
        return []

    # -- loops --------------------------------------------------------------------------------------------------------
    def exec_loop(self, fn, h, prev, st, env):
        loop = (h, fn.loops[h])
        if prev is not None:
            env = self.phis(fn, h, prev, st, env)
        phi_ids = [i["id"] for i in fn.blocks[h] if i["op"] == "phi"]
        results = []
        cur = [(st, env)]
        if self.unroll:
            cur = [(st, env, 0)]
            for _ in range(self.opts.get("max_trips", 70)):
                nxt = []
                for s, e, u in cur:
                    res = self.exec_blocks(fn, [(h, None, s, e)], loop)
                    backs = [r for r in res if r[0] == "back"]
                    if len(backs) != len(res):
                        u += 1
                    results.extend(r for r in res if r[0] != "back")
                    if u <= self.unroll:
                        nxt.extend((r[2], self.phis(fn, h, r[1], r[2], r[3]), u) for r in backs)
                cur = nxt
                if not cur:
                    break
            return results
        # phase 1: follow iterations whose number does not depend on any unknown
        for peel in range(self.opts.get("max_peel", 70)):
            nxt = []
            undecided = []
            for s, e in cur:
                if peel < s.ghost.get("bounded", 0):
                    for r in self.exec_blocks(fn, [(h, None, s, e)], loop):
                        if r[0] == "back":
                            nxt.append((r[2], self.phis(fn, h, r[1], r[2], r[3])))
                        else:
                            results.append(r)
                    continue
                snap = s.fork()
                saved, self.exit_log = self.exit_log, set()
                self.silent += 1
                try:
                    res = self.exec_blocks(fn, [(h, None, s.fork(), dict(e))], loop)
                finally:
                    self.silent -= 1
                    log, self.exit_log = self.exit_log, saved
                backs = [r for r in res if r[0] == "back"]
                if not backs or (fn.name, h) not in log:
                    res = self.exec_blocks(fn, [(h, None, snap, dict(e))], loop)
                    for r in res:
                        if r[0] == "back":
                            nxt.append((r[2], self.phis(fn, h, r[1], r[2], r[3])))
                        else:
                            results.append(r)
                else:
                    undecided.append((snap, e))
            for s, e in undecided:
                results.extend(self.generalise(fn, loop, phi_ids, s, e))
            cur = nxt
            if not cur:
                return results
        for s, e in cur:
            self.give_up(s, "loop not bounded by peeling")
            results.extend(self.abandon_loop(fn, loop, s, e, phi_ids))
        return results

    def generalise(self, fn, loop, phi_ids, S, E):
        """The states after any number of iterations: as they are, with the values of adjacent ranges forgotten, or with
        the first iteration taken apart."""
        r = self.generalise_once(fn, loop, phi_ids, S, E)
        if r is not None:
            return r
        M = self.merged(S)
        if M is not None:
            r = self.generalise_once(fn, loop, phi_ids, M, E)
            if r is not None:
                return r
        backs, _ = self.iterate(fn, loop, S, E)
        rs = []
        for s, e in backs:
            r = self.generalise_once(fn, loop, phi_ids, s, e)
            if r is None:
                m = self.merged(s)
                r = m and self.generalise_once(fn, loop, phi_ids, m, e)
            if r is None:
                return self.abandon_loop(fn, loop, S, E, phi_ids)
            rs.extend(r)
        _, others = self.iterate(fn, loop, S, E, silent=False)
        return others + rs

    def merged(self, S):
        """S with adjacent ranges of live objects of one type taken as one range of unknown values; None if there are none."""
        M = None
        f = S.facts
        for rid, r in S.regions.items():
            segs = [x for x in r.segs if not f.entails_ge(x.lo.sub(x.hi))]
            ch = len(segs) > 1
            hit = False
            while ch:
                ch = False
                for a in segs:
                    for b in segs:
                        if a is not b and a.ty == b.ty and a.ty != "raw" and f.entails(b_eq(a.hi.sub(b.lo))):
                            segs = [x for x in segs if x is not a and x is not b]
                            segs.append(Seg(a.lo, b.hi, a.ty, a.sz, ("tok", ("unk", self.tab.new("t", taint=True).i))))
                            ch = hit = True
                            break
                    if ch:
                        break
            if hit:
                if M is None:
                    M = S.fork()
                M.wr(rid).segs = segs
        return M

    def iterate(self, fn, loop, st, env, silent=True):
        h = loop[0]
        if silent:
            self.silent += 1
        try:
            res = self.exec_blocks(fn, [(h, None, st.fork(), dict(env))], loop)
        finally:
            if silent:
                self.silent -= 1
        backs, others = [], []
        for r in res:
            if r[0] == "back":
                backs.append((r[2], self.phis(fn, h, r[1], r[2], r[3])))
            else:
                others.append(r)
        return backs, others

    def generalise_once(self, fn, loop, phi_ids, S, E):
        h = loop[0]
        b1, _ = self.iterate(fn, loop, S, E)
        if not b1:
            _, others = self.iterate(fn, loop, S, E, silent=False)
            return others
        # second iteration of a back path that has the same shape
        first = b1[0]
        b2 = []
        for cand in b1:
            x, _ = self.iterate(fn, loop, cand[0], cand[1])
            if x:
                first, b2 = cand, x
                break
        if not b2:
            # the loop runs at most once more than peeled: treat the second visit of the head explicitly
            _, others = self.iterate(fn, loop, S, E, silent=False)
            out = list(others)
            for s, e in b1:
                _, o2 = self.iterate(fn, loop, s, e, silent=False)
                out.extend(o2)
            return out
        second = b2[0]
        n = self.tab.new("v", "iter", 0, None, False, "n%d" % len(self.tab.atoms))
        nl = atom(n)
        G, GE, ok = self.extrapolate(S, E, first, second, nl, phi_ids)
        if G is None:
            return None
        saved, self.cond_log = self.cond_log, set()
        try:
            self.iterate(fn, loop, G, GE)
        finally:
            log, self.cond_log = self.cond_log, saved
        self.add_invariants(S, G, GE, log, n.i, nl)
        for attempt in range(40):
            self.silent += 1
            try:
                backs, _ = self.iterate(fn, loop, G, GE)
            finally:
                self.silent -= 1
            bad = None
            for s, e in backs:
                bad = self.covers(G, GE, s, e, n.i, nl, phi_ids)
                if bad:
                    break
            if not bad:
                if not self.silent:
                    self.loops_ok += 1
                _, others = self.iterate(fn, loop, G, GE, silent=False)
                return others
            if not self.weaken(G, GE, bad):
                break
        return None

    def add_invariants(self, S, G, GE, conds, nid, nl):
        """Candidates: a condition tested in iteration n held (or did not hold) one iteration earlier."""
        prev = {nid: nl.addc(-1)}
        zero = {nid: ZERO}
        todo = list(conds)
        cands = []
        while todo:
            c = todo.pop()
            if c[0] in ("and", "or"):
                todo.extend(c[1])
            elif c[0] == "ge" and c[1].coef(nid):
                cands += [c[1].subst(prev), c[1].neg().addc(-1).subst(prev)]
            elif c[0] in ("eq", "ne") and c[1].coef(nid):
                cands += [c[1].addc(-1).subst(prev), c[1].neg().addc(-1).subst(prev)]
        for c in cands:
            if len(GE.get("inv", ())) > 24:
                break
            if c not in GE.get("inv", ()) and not GE["basefacts"].entails_ge(c) and \
                    S.facts.entails_ge(c.subst(zero)):
                r = G.facts.assume(b_ge(c))
                if r:
                    G.facts = r[0]
                    GE["inv"] = list(GE.get("inv", ())) + [c]

    def abandon_loop(self, fn, loop, S, E, phi_ids):
        """No inductive generalisation was found: continue with everything the loop may touch unknown and muted."""
        if not self.silent:
            self.loops_bad += 1
        s = S.fork()
        e = dict(E)
        self.give_up(s, "loop without an inductive generalisation")
        for i in phi_ids:
            v = e.get(i)
            if isinstance(v, Lin):
                rid, _ = self.split_ptr(s, v)
                e[i] = self.unknown(["p"] if rid is not None else ["i", 64], True)
            elif isinstance(v, tuple):
                e[i] = ("b", self.tab.new("ub", taint=True).i, True)
        for rid in list(s.regions):
            r = s.regions[rid]
            if r.kind in ("const",):
                continue
            w = s.wr(rid)
            w.havoc = True
        _, others = self.iterate(fn, loop, s, e, silent=False)
        return others

    def extrapolate(self, S, E, first, second, nl, phi_ids):
        """Linear extrapolation of the head state over the number n of completed iterations."""
        B1, E1 = first
        B2, E2 = second
        G = S.fork()
        GE = dict(E)
        f2 = B2.facts

        def ex(v0, v1, v2):
            """value after n iterations or None"""
            if v0 is v1 and v1 is v2:
                return v0
            if isinstance(v0, Lin) and isinstance(v1, Lin) and isinstance(v2, Lin):
                d1 = f2.norm(v1.sub(v0))
                d2 = f2.norm(v2.sub(v1))
                if d1.is_const() and d2.is_const() and d1.c == d2.c:
                    return v0.add(nl, d1.c) if d1.c else v0
                return None
            if v0 == v1 == v2:
                return v0
            return None

        for i in phi_ids:
            v = ex(E.get(i), E1.get(i), E2.get(i))
            if v is None:
                v0 = E.get(i)
                if isinstance(v0, Lin):
                    rid, _ = self.split_ptr(S, v0)
                    v = self.unknown(["p"] if rid is not None else ["i", 64], True)
                elif isinstance(v0, tuple):
                    v = ("b", self.tab.new("ub", taint=True).i, True)
                else:
                    v = UNDEF
            GE[i] = v
        if set(B1.regions) - set(S.regions) or set(S.regions) - set(B1.regions):
            new = [B1.regions[x] for x in set(B1.regions) - set(S.regions)]
            if any(r.kind in ("heap", "alloca") for r in new) or set(S.regions) - set(B1.regions):
                return None, None, False
        for rid in set(B1.regions) - set(S.regions):
            # a block that is only looked at for the first time inside the loop
            r = B1.regions[rid]
            S.regions[rid] = G.regions[rid] = Region(rid, r.kind, r.size, r.name, r.info)
            if r.kind in ("const", "globvar") and not r.lazy:
                S.regions[rid] = G.regions[rid] = r
        for rid in S.regions:
            r0, r1, r2 = S.regions[rid], B1.regions.get(rid), B2.regions.get(rid)
            if r1 is None or r2 is None:
                return None, None, False
            if r0 is r1 and r1 is r2:
                continue
            if r0.status != r1.status or r1.status != r2.status:
                return None, None, False
            w = G.wr(rid)
            w.havoc = r0.havoc or r1.havoc or r2.havoc
            cells = {}
            for k in set(r0.cells) | set(r1.cells) | set(r2.cells):
                c0, c1, c2 = r0.cells.get(k), r1.cells.get(k), r2.cells.get(k)
                if c0 is None and (r0.lazy or r0.kind == "const") and c1 is not None and c1 == c2 and self.is_lazy(c1[1]):
                    cells[k] = c1
                    continue
                if c0 is None or c1 is None or c2 is None or c0[0] != c1[0] or c1[0] != c2[0]:
                    w.havoc = True
                    continue
                v = ex(c0[1], c1[1], c2[1])
                if v is None:
                    if isinstance(c0[1], Lin):
                        rr, _ = self.split_ptr(S, c0[1])
                        v = self.unknown(["p"] if rr is not None else ["i", 64], True)
                    elif isinstance(c0[1], tuple) and c0[1] and c0[1][0] in ("c", "b", "ge", "eq", "ne", "and", "or"):
                        v = ("b", self.tab.new("ub", taint=True).i, True)
                    else:
                        w.havoc = True
                        continue
                cells[k] = (c0[0], v)
            w.cells = cells
            if [(s.lo, s.hi, s.ty, s.content) for s in r0.segs] == [(s.lo, s.hi, s.ty, s.content) for s in r1.segs] \
                    == [(s.lo, s.hi, s.ty, s.content) for s in r2.segs]:
                w.segs = list(r0.segs)
            else:
                sg = self.extrapolate_segs(S.facts, f2, r0.segs, r1.segs, r2.segs, nl)
                if sg is None:
                    return None, None, False
                w.segs = sg
        # facts that the iterations added, extrapolated
        f1set = set(B1.facts.ge)
        f2new = [g for g in B2.facts.ge if g not in f1set]
        G.facts = S.facts.assume(b_ge(nl))[0]
        cands = []
        for x in B1.facts.ge:
            for y in f2new:
                if x.t == y.t:
                    d = y.c - x.c
                    # x + d*(n-1) >= 0
                    cands.append(x.add(nl.scale(d)).addc(-d))
        gf = G.facts
        n0 = nl.t[0][0]
        for c in cands:
            if S.facts.entails_ge(c.subst({n0: ZERO})):
                r = gf.assume(b_ge(c))
                if r:
                    gf = r[0]
                    GE.setdefault("inv", [])
                    GE["inv"] = list(GE["inv"]) + [c]
        base = G.facts
        G.facts = gf
        GE["basefacts"] = base
        return G, GE, True

    def is_lazy(self, v):
        if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
            a = self.tab.atoms[v.t[0][0]]
            return a.pay == "ptr" or (isinstance(a.pay, tuple) and a.pay and a.pay[0] == "lazy")
        return False

    def extrapolate_segs(self, f0, f2, s0, s1, s2, nl):
        """Segments after n iterations; every moving bound moves by a constant per iteration."""
        # pair segments of iteration 1 and 2 by type and best matching content
        used = set()
        out = []
        for a in s1:
            best = None
            for j, b in enumerate(s2):
                if j in used or a.ty != b.ty:
                    continue
                if not self.content_step(f2, a, b):
                    continue
                dl, dh = f2.norm(b.lo.sub(a.lo)), f2.norm(b.hi.sub(a.hi))
                if dl.is_const() and dh.is_const():
                    rank = (dl.c != 0) + (dh.c != 0)
                    if best is None or rank < best[0]:
                        best = (rank, j, dl.c, dh.c, b)
            if best is None:
                return None
            used.add(best[1])
            _, _, dl, dh, b = best
            # extrapolate back to n = 0: bound(n) = bound1 + d*(n-1)
            lo = a.lo.add(nl, dl).addc(-dl)
            hi = a.hi.add(nl, dh).addc(-dh)
            cont = self.content_extrap(f2, a, b, nl)
            if cont is None:
                return None
            out.append(Seg(lo, hi, a.ty, a.sz, cont))
        # segments that vanish at once are not supported; check n = 0 against s0
        n0 = nl.t[0][0]
        z = []
        for s in out:
            lo, hi = s.lo.subst({n0: ZERO}), s.hi.subst({n0: ZERO})
            if not f0.entails_ge(lo.sub(hi)):
                z.append(Seg(lo, hi, s.ty, s.sz, self.content_subst(s.content, {n0: ZERO})))
        if not self.same_segs(f0, z, s0):
            return None
        return out

    def content_step(self, f, a, b):
        if a.content == b.content:
            return True
        if b.content[0] == "tok" and self.single(f, a) == b.content[1]:
            return True
        return a.content[0] == b.content[0] == "map" and a.content[1] == b.content[1] and \
            f.norm(b.content[2].sub(a.content[2])).is_const()

    def content_extrap(self, f, a, b, nl):
        if a.content == b.content:
            return a.content
        if b.content[0] == "tok":
            return b.content
        d = f.norm(b.content[2].sub(a.content[2]))
        if d.c == 0:
            return a.content
        return ("map", a.content[1], a.content[2].add(nl, d.c).addc(-d.c))

    def content_subst(self, c, m):
        if c[0] == "map":
            return ("map", c[1], c[2].subst(m))
        return c

    def same_segs(self, f, xs, ys):
        """Equality of two segment lists modulo coalescing of adjacent equal segments and empty ones."""
        def canon(l):
            l = [s for s in l if not f.entails_ge(s.lo.sub(s.hi))]
            ch = True
            while ch:
                ch = False
                for i in range(len(l)):
                    for j in range(len(l)):
                        if i != j and l[i].ty == l[j].ty and \
                                self.norm_content(f, l[i].content) == self.norm_content(f, l[j].content) and \
                                f.entails(b_eq(l[i].hi.sub(l[j].lo))):
                            m = Seg(l[i].lo, l[j].hi, l[i].ty, l[i].sz, l[i].content)
                            l = [x for k, x in enumerate(l) if k not in (i, j)] + [m]
                            ch = True
                            break
                    if ch:
                        break
            return l
        xs, ys = canon(xs), canon(ys)
        if len(xs) != len(ys):
            return False
        ys = list(ys)
        for x in xs:
            for i, y in enumerate(ys):
                if x.ty == y.ty and f.entails(b_eq(x.lo.sub(y.lo))) and f.entails(b_eq(x.hi.sub(y.hi))) and \
                        self.norm_content(f, x.content) == self.norm_content(f, y.content):
                    del ys[i]
                    break
            else:
                return False
        return True

    def covers(self, G, GE, s, e, nid, nl, phi_ids):
        """Is the back-edge state s an instance of G at n+1?  Returns None when it is, else what differs."""
        m = {nid: nl.addc(1)}
        f = s.facts

        def same(a, b):
            if a is b:
                return True
            if isinstance(a, Lin) and isinstance(b, Lin):
                if any(self.tab.atoms[x].taint for x, _ in a.t) and len(a.t) == 1 and a.c == 0:
                    return True  # an unknown covers everything
                return f.entails(b_eq(f.norm(a.subst(m)).sub(f.norm(b))))
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) == 3 and a[0] == "b" and self.tab.atoms[a[1]].taint:
                    return True
                return a == b
            return a is UNDEF and b is UNDEF

        for i in phi_ids:
            if not same(GE.get(i), e.get(i)):
                return ("phi", i)
        for rid, r in G.regions.items():
            q = s.regions.get(rid)
            if q is None:
                return ("fatal", "region")
            if q is r:
                # untouched, but it must not mention n
                if any(x == nid for c in r.cells.values() if isinstance(c[1], Lin) for x, _ in c[1].t):
                    return ("fatal", "stuck")
                if any(x == nid for sg in r.segs for l in (sg.lo, sg.hi) for x, _ in l.t):
                    return ("fatal", "stuck")
                continue
            if q.status != r.status:
                return ("fatal", "status")
            if q.havoc and not r.havoc:
                return ("havoc", rid)
            for k, (sz, v) in r.cells.items():
                c = q.cells.get(k)
                if c is None or c[0] != sz or not same(v, c[1]):
                    return ("cell", rid, k)
            for k in q.cells:
                if k not in r.cells and not r.havoc:
                    if r.lazy and self.is_lazy(q.cells[k][1]):
                        continue
                    return ("havoc", rid)
            want = [Seg(x.lo.subst(m), x.hi.subst(m), x.ty, x.sz, self.content_subst(x.content, m)) for x in r.segs]
            if not self.same_segs(f, want, q.segs):
                return ("fatal", "segments")
        for rid in s.regions:
            if rid not in G.regions and s.regions[rid].kind in ("heap",) and s.regions[rid].status == "live":
                return ("fatal", "allocation in loop")
        for c in GE.get("inv", []):
            if not f.entails_ge(c.subst(m)):
                return ("inv", c)
        return None

    def weaken(self, G, GE, bad):
        k = bad[0]
        if k == "phi":
            v = GE.get(bad[1])
            if isinstance(v, Lin):
                rid, _ = self.split_ptr(G, v)
                GE[bad[1]] = self.unknown(["p"] if rid is not None else ["i", 64], True)
                return True
            if isinstance(v, tuple):
                GE[bad[1]] = ("b", self.tab.new("ub", taint=True).i, True)
                return True
            return False
        if k == "havoc":
            w = G.wr(bad[1])
            w.havoc = True
            return True
        if k == "cell":
            w = G.wr(bad[1])
            v = w.cells[bad[2]][1]
            sz = w.cells[bad[2]][0]
            if isinstance(v, Lin):
                rid, _ = self.split_ptr(G, v)
                w.cells[bad[2]] = (sz, self.unknown(["p"] if rid is not None else ["i", 64], True))
                return True
            if isinstance(v, tuple) and v and v[0] in ("c", "b", "ge", "eq", "ne", "and", "or"):
                w.cells[bad[2]] = (sz, ("b", self.tab.new("ub", taint=True).i, True))
                return True
            del w.cells[bad[2]]
            w.havoc = True
            return True
        if k == "inv":
            inv = [c for c in GE["inv"] if c != bad[1]]
            GE["inv"] = inv
            f = GE["basefacts"]
            for c in inv:
                r = f.assume(b_ge(c))
                if r:
                    f = r[0]
            G.facts = f
            return True
        return False

    # =================================================================================================================
    # instructions
    def i_alloca(self, ins, st, env):
        n = self.val(st, env, ins["n"])
        size = const(ins["sz"]) if not (isinstance(n, Lin) and n.is_const() and n.c != 1) else const(ins["sz"] * n.c)
        p = self.new_region(st, "alloca", size, ins["nm"] or "local", {"align": ins["al"]})
        env["allocas"] = env["allocas"] + (p.t[0][0],)
        return [(st, p)]

    def i_load(self, ins, st, env):
        p = self.val(st, env, ins["ops"][0])
        t = ins["t"]
        self.aligned(st, p, ins["al"], "load")
        self.shared_access(st, p, ins.get("atomic"), False)
        if t[0] == "s":
            vals = []
            for off, ty in t[1]:
                sz = ty[1] // 8 if ty[0] == "i" else 8
                vals.append(self.load(st, p.addc(off) if isinstance(p, Lin) else p, max(sz, 1), ty))
            return [(st, tuple(vals))]
        v = self.load(st, p, ins["sz"], t)
        if isinstance(v, Lin) and t == ["p"]:
            # case split over a constant table that was indexed symbolically happens in indexed_load
            pass
        if self.is_table_read(st, p, v):
            return self.indexed_load(st, p, ins["sz"], t)
        return [(st, v)]

    def is_table_read(self, st, p, v):
        rid, off = self.split_ptr(st, p)
        if rid is None or off is None or st.facts.norm(off).is_const():
            return False
        r = st.regions.get(rid)
        return r is not None and r.kind in ("const", "alloca") and not r.havoc and r.size is not None and \
            r.size.is_const() and r.size.c <= 256

    def indexed_load(self, st, p, n, t):
        """Read of a small table at a symbolic index: one case per entry that is not excluded."""
        rid, off = self.split_ptr(st, p)
        r = st.regions[rid]
        out = []
        for k in sorted(r.cells, key=lambda l: l.c):
            if not k.is_const():
                continue
            if r.cells[k][0] != n:
                continue
            for g in st.facts.assume(b_eq(off.sub(k))):
                s = st.fork(g)
                out.append((s, self.retype(r.cells[k][1], t)))
        if not out:
            return [(st, self.unknown(t, True))]
        return out

    def i_store(self, ins, st, env):
        v = self.val(st, env, ins["ops"][0])
        p = self.val(st, env, ins["ops"][1])
        self.aligned(st, p, ins["al"], "store")
        self.shared_access(st, p, ins.get("atomic"), True)
        if isinstance(v, tuple) and ins["vt"][0] == "s":
            for (off, ty), x in zip(ins["vt"][1], v):
                sz = ty[1] // 8 if ty[0] == "i" else 8
                self.store(st, p.addc(off) if isinstance(p, Lin) else p, max(sz, 1), x)
            return None
        if v is FILL0 and ins["vt"][0] == "s":
            self.memset(st, p, ZERO, const(ins["vt"][2]))
            return None
        if ins.get("atomic"):
            self.shared_write(st, p, self.load(st, p, ins["sz"], ins["vt"]), v)
        self.store(st, p, ins["sz"], v)
        return None

    def i_getelementptr(self, ins, st, env):
        b = self.val(st, env, ins["base"])
        if not isinstance(b, Lin):
            return [(st, UNDEF)]
        r = b.addc(ins["c"])
        for o, k, w in ins["vars"]:
            v = self.val(st, env, o)
            if not isinstance(v, Lin):
                if isinstance(v, tuple) and w == 1:
                    v = self.b2i(v)
                else:
                    return [(st, UNDEF)]
            r = r.add(self.signed_const(v), k)
        return [(st, r)]

    def i_icmp(self, ins, st, env):
        a, b = (self.val(st, env, o) for o in ins["ops"])
        f = st.facts
        if ins["pred"][0] == "u" and isinstance(a, Lin) and isinstance(b, Lin):
            # an unsigned comparison of a difference that may have wrapped is decided per case
            out = [(st, a, b)]
            for idx in (0, 1):
                nxt = []
                for s, x, y in out:
                    e = s.facts.norm((x, y)[idx])
                    rid, _ = self.split_ptr(s, e)
                    if rid is not None or e.is_const() or s.facts.entails_ge(e) or \
                            any(self.tab.atoms[q].kind == "region" for q, _ in e.t):
                        nxt.append((s, x, y))
                        continue
                    for g in s.facts.assume(b_ge(e)):
                        nxt.append((s.fork(g), x, y))
                    for g in s.facts.assume(b_ge(e.neg().addc(-1))):
                        z = e.addc(U64)
                        nxt.append((s.fork(g),) + ((z, y) if idx == 0 else (x, z)))
                out = nxt
            return [(s, self.cmp(s, ins["pred"], x, y, False)) for s, x, y in out]
        return [(st, self.cmp(st, ins["pred"], a, b, ins["st"] == ["p"]))]

    def i_fcmp(self, ins, st, env):
        a, b = (self.val(st, env, o) for o in ins["ops"])
        if isinstance(a, Lin) and isinstance(b, Lin):
            return [(st, ("b", self.tab.intern("fcmp", (ins["pred"], a, b)).i, True))]
        return [(st, ("b", self.tab.new("ub", taint=True).i, True))]

    def truth_cases(self, st, a, b):
        """Truth values that enter arithmetic: one case for each"""
        todo, out = [(st, a, b)], []
        while todo:
            s, x, y = todo.pop()
            q = next((i for e in (x, y) if isinstance(e, Lin) for i, _ in s.facts.norm(e).t
                      if self.tab.atoms[i].kind == "b2i" and not self.tab.atoms[i].taint), None)
            if q is None:
                out.append((s, x, y))
                continue
            for c, n in ((self.tab.atoms[q].pay, 1), (b_not(self.tab.atoms[q].pay), 0)):
                for g in s.facts.assume(c):
                    for h in g.assume(b_eq(Lin(-n, ((q, 1),)))):
                        if h.consistent():
                            todo.append((s.fork(h),) + tuple(h.norm(e) if isinstance(e, Lin) else e for e in (x, y)))
        return out

    def arith(self, ins, st, env):
        a, b = (self.val(st, env, o) for o in ins["ops"])
        if ins["op"] in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv") and ins["t"][1] > 1:
            out = []
            for s, x, y in self.truth_cases(st, a, b):
                out.extend(self.arith_case(ins, s, x, y))
            return out
        return self.arith_case(ins, st, a, b)

    def arith_case(self, ins, st, a, b):
        bits = ins["t"][1] if ins["t"][0] == "i" else 64
        op = ins["op"]
        r = self.binop(st, op, a, b, bits, ins)
        if op in ("add", "mul", "shl") and isinstance(r, Lin) and not r.is_const() and bits == 64 and not ins.get("nuw"):
            f = st.facts
            r = f.norm(r)
            if self.split_ptr(st, r)[0] is None:
                lo, hi = f.interval(r)
                if hi is None or hi >= U64:
                    if any(self.tab.atoms[x].hi is not None and self.tab.atoms[x].hi >= (1 << 62) for x, _ in r.t) and \
                            not any(self.tab.atoms[x].pay == "ptr" for x, _ in r.t):
                        lim = const(U64 - 1).sub(r)
                        if not f.entails_ge(lim) and f.entails_ge(r):
                            out = []
                            for g in f.assume(b_ge(lim)):
                                out.append((st.fork(g), r))
                            for g in f.assume(b_ge(lim.neg().addc(-1))):
                                s = st.fork(g)
                                s.trail = (self.site_str() + " [arithmetic wraps]", s.trail)
                                if op == "add":
                                    out.append((s, r.addc(-U64)))
                                else:
                                    at = self.tab.intern("wrap", (r,), 0, U64 - 1, False, "wrapped")
                                    out.append((s, atom(at)))
                            return out
        return [(st, r)]

    i_add = i_sub = i_mul = i_shl = i_udiv = i_sdiv = i_urem = i_srem = i_lshr = i_ashr = i_and = i_or = i_xor = arith

    def i_zext(self, ins, st, env):
        v = self.val(st, env, ins["ops"][0])
        if isinstance(v, PBits) or (v is UNDEF and ins["st"] == ["i", 8]):
            x = self.pbits(v, 8)
            low = (1 << ins["st"][1]) - 1
            return [(st, PBits(x.d | (((1 << ins["t"][1]) - 1) & ~low), x.v))]
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            return [(st, self.b2i(v))]
        if isinstance(v, Lin):
            bits = ins["st"][1]
            if v.is_const():
                return [(st, const(v.c % (1 << bits)))]
            if not st.facts.entails_ge(v):
                # wrapped in the narrow type
                out = []
                for g in st.facts.assume(b_ge(v)):
                    out.append((st.fork(g), v))
                for g in st.facts.assume(b_ge(v.neg().addc(-1))):
                    out.append((st.fork(g), v.addc(1 << bits)))
                return out
        return [(st, v)]

    def i_sext(self, ins, st, env):
        v = self.val(st, env, ins["ops"][0])
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            x = self.b2i(v)
            return [(st, x.neg() if isinstance(x, Lin) else x)]
        if isinstance(v, Lin) and v.is_const():
            return [(st, const(self.wrapc(v.c, ins["st"][1])))]
        return [(st, v)]

    def i_trunc(self, ins, st, env):
        v = self.val(st, env, ins["ops"][0])
        bits = ins["t"][1]
        if isinstance(v, PBits):
            if bits == 1:
                return [(st, (TRUE if v.v & 1 else FALSE) if v.d & 1 else UNDEFB)]
            return [(st, self.from_pbits(v, bits))]
        if not isinstance(v, Lin):
            return [(st, v if bits != 1 else UNDEFB)]
        v = st.facts.norm(v)
        if bits == 1:
            return [(st, self.to_bool(st, v))]
        if v.is_const():
            return [(st, const(self.wrapc(v.c, bits)))]
        f = st.facts
        if f.entails_ge(v) and f.entails_ge(const((1 << bits) - 1).sub(v)):
            return [(st, v)]
        if f.entails_ge(v):
            return [(st, self.urem(v, 1 << bits))]
        if f.entails_ge(v.addc(1 << (bits - 1))) and f.entails_ge(const((1 << bits) - 1).sub(v)):
            return [(st, v)]
        return [(st, self.opaque_op("trunc", v, ZERO, bits))]

    def i_ptrtoint(self, ins, st, env):
        return [(st, self.val(st, env, ins["ops"][0]))]

    i_inttoptr = i_bitcast = i_addrspacecast = i_ptrtoint

    def i_freeze(self, ins, st, env):
        return [(st, self.val(st, env, ins["ops"][0]))]

    def i_select(self, ins, st, env):
        c, a, b = (self.val(st, env, o) for o in ins["ops"])
        return [(s, a if t else b) for s, t in self.branch(st, c)]

    def i_extractvalue(self, ins, st, env):
        v = self.val(st, env, ins["ops"][0])
        for i in ins["ix"]:
            if not isinstance(v, tuple) or i >= len(v):
                return [(st, UNDEF)]
            v = v[i]
        return [(st, v)]

    def i_insertvalue(self, ins, st, env):
        a = self.val(st, env, ins["ops"][0])
        v = self.val(st, env, ins["ops"][1])
        n = len(ins["at"][1])
        if not isinstance(a, tuple):
            a = tuple(UNDEF for _ in range(n))
        if len(ins["ix"]) == 1:
            l = list(a)
            l[ins["ix"][0]] = v
            return [(st, tuple(l))]

        def put(agg, ix, ty):
            l = list(agg) if isinstance(agg, tuple) else [UNDEF] * len(ty[1])
            if len(ix) == 1:
                l[ix[0]] = v
            else:
                l[ix[0]] = put(l[ix[0]], ix[1:], ty[1][ix[0]][1])
            return tuple(l)
        return [(st, put(a, ins["ix"], ins["at"]))]

    def i_landingpad(self, ins, st, env):
        exc = st.exc
        sel = None
        out = []
        for kind, o in ins["clauses"]:
            if kind == "catch" and o[0] == "g" and o[1] != "_ZTISt9bad_alloc" and exc is not None and exc[0] == "user" and \
                    self.cur_loc and self.cur_loc[0].startswith(self.repo):
                # what user code throws may be of any class (but shortage of memory is reported in its own way)
                known = dict(exc[3]) if len(exc) > 3 else {}
                if o[1] not in known:
                    s = st.fork()
                    s.exc = tuple(exc[:3]) + (tuple(known.items()) + ((o[1], True),),)
                    s.trail = (self.site_str() + " [caught as %s]" % o[1], s.trail)
                    out.append((s, (self.fresh("exc", 4096, None), const(self.typeid(o[1])))))
                    exc = st.exc = tuple(exc[:3]) + (tuple(known.items()) + ((o[1], False),),)
                elif known[o[1]]:
                    sel = self.typeid(o[1])
                    break
            if kind == "filter":
                sel = -1
                break
            if o[0] == "i":
                sel = 1000
                break
            if o[0] == "g" and exc is not None and exc[0] == "lib" and \
                    (exc[1] == o[1] or o[1] in EXC_BASES.get(exc[1], ())):
                sel = self.typeid(o[1])
                break
        if sel is None:
            if not ins["cleanup"]:
                return out + [("unw", st, None)]
            sel = 0
        p = self.fresh("exc", 4096, None)
        return out + [(st, (p, const(sel)))]

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    # threads: once vp_concurrent() was called, other threads may do whatever the library lets them do between any two
    # steps.  What they can change are the global variables of the library, and they change them atomically.
    def shared_region(self, st, p):
        if not st.ghost.get("threads"):
            return None
        rid, off = self.split_ptr(st, p)
        r = st.regions.get(rid) if rid is not None else None
        if r is None or r.kind != "globvar" or r.name.startswith("_ZGV") or off is None or \
                not self.in_repo(self.cur_stack()):
            return None
        return rid, st.facts.norm(off)

    def shared_access(self, st, p, atomic, write):
        k = self.shared_region(st, p)
        if k is None or st.ghost.get("guard"):
            return
        if not atomic:
            bad = write or k in st.ghost.get("shared", ())
            self.check(st, FALSE if bad else TRUE, "race",
                       "%s of a global variable that other threads change at the same time" % ("store" if write else "load"))
            return
        self.check(st, FALSE if atomic in ("monotonic", "unordered") else TRUE, "race",
                   "relaxed %s of a global variable through which other threads publish objects" % ("store" if write else "load"))
        st.ghost["shared"] = st.ghost.get("shared", frozenset()) | {k}
        rid, off = k
        c = st.regions[rid].cells.get(off)
        if c is not None and c[0] == 8:
            a = self.tab.new("t", None, 4096, None, False, "stored by another thread")
            st.wr(rid).cells[off] = (8, atom(a))

    def shared_write(self, st, p, old, v):
        if self.shared_region(st, p) is None or st.ghost.get("guard"):
            return
        st.ghost["writes"] = st.ghost.get("writes", 0) + 1
        st.ghost["replaced"], st.ghost["written"] = old, v

    def i_atomicrmw(self, ins, st, env):
        p = self.val(st, env, ins["ops"][0])
        v = self.val(st, env, ins["ops"][1])
        self.shared_access(st, p, ins["atomic"], True)
        old = self.load(st, p, ins["sz"], ins["t"])
        if ins["rmw"] == "xchg":
            new = v
        elif ins["rmw"] in ("add", "sub") and isinstance(old, Lin) and isinstance(v, Lin):
            new = old.add(v, 1 if ins["rmw"] == "add" else -1)
        else:
            new = self.unknown(ins["t"], True)
        self.shared_write(st, p, old, new)
        self.store(st, p, ins["sz"], new)
        return [(st, old)]

    def i_cmpxchg(self, ins, st, env):
        p = self.val(st, env, ins["ops"][0])
        e = self.val(st, env, ins["ops"][1])
        v = self.val(st, env, ins["ops"][2])
        self.shared_access(st, p, ins["atomic"], True)
        old = self.load(st, p, ins["sz"], ins["vt"])
        goal = self.cmp(st, "eq", old, e, ins["vt"] == ["p"])
        out = []
        for g in st.facts.assume(goal):
            s = st.fork(g)
            self.shared_write(s, p, old, v)
            self.store(s, p, ins["sz"], v)
            out.append((s, (old, TRUE)))
        for g in st.facts.assume(b_not(goal)):
            out.append((st.fork(g), (old, FALSE)))
        return out

    def i_fence(self, ins, st, env):
        return None

    # =================================================================================================================
    # calls: list of (state, value) or ('unw', state, None)
    def do_call(self, ins, st, env):
        args = [self.val(st, env, o) for o in ins["args"]]
        c = ins["callee"]
        if c[0] == "f":
            name = c[1]
        else:
            v = self.val(st, env, c)
            name = None
            if isinstance(v, Lin):
                v = st.facts.norm(v)
                if len(v.t) == 1 and v.c == 0 and self.tab.atoms[v.t[0][0]].kind == "func":
                    name = self.tab.atoms[v.t[0][0]].pay
                elif v.is_const():
                    self.check(st, FALSE, "null", "call through a null function pointer")
                    return []
            if name is None:
                if v is UNDEF:
                    self.check(st, UNDEFB, "uninit", "call through an indeterminate function pointer")
                self.give_up(st, "unresolved indirect call")
                return [(st, self.unknown(ins["t"], True))]
        return self.call(name, args, ins, st, env)

    def call(self, name, args, ins, st, env):
        if name.startswith("llvm."):
            return self.intrinsic(name, args, ins, st, env)
        fn = self.mod.fns.get(name)
        m = self.model(name, fn)
        if m is not None:
            if not self.silent:
                self.call_sites.add((self.cur_fn.name, tuple(self.cur_loc or ()), fn.dem if fn else name))
            return m(args, ins, st)
        if fn is not None and fn.blocks is not None:
            loc = self.cur_loc
            if "byval" in ins:
                args = list(args)
                for i, sz in ins["byval"]:
                    q = self.new_region(st, "alloca", const(sz), "byval")
                    env["allocas"] = env["allocas"] + (q.t[0][0],)
                    self.memcpy(st, q, args[i], const(sz))
                    args[i] = q
            out = []
            # may-throw callee inside a nounwind caller without a landing pad would terminate
            for kind, s, v in self.exec_function(fn, args, st, loc):
                if kind == "ret":
                    out.append((s, v))
                else:
                    out.append(("unw", s, None))
            return out
        # unknown external
        if not self.silent:
            self.unmodelled[fn.dem if fn else name] = self.unmodelled.get(fn.dem if fn else name, 0) + 1
        if ins.get("noreturn"):
            return []
        return [(st, self.unknown(ins["t"], True) if ins["t"][0] != "v" else None)]

    def throw(self, st, exc):
        s = st.fork()
        s.exc = exc
        s.trail = (self.site_str() + " [throws %s]" % (exc[1],), s.trail)
        return ("unw", s, None)

    def intrinsic(self, name, args, ins, st, env):
        base = name.split(".")
        k = base[1]
        if k in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2], k)
            return [(st, None)]
        if k == "memset":
            self.memset(st, args[0], args[1], args[2])
            return [(st, None)]
        if k == "lifetime":
            if isinstance(args[1], Lin):
                rid, off = self.split_ptr(st, args[1])
                if rid in st.regions and st.regions[rid].kind == "alloca":
                    w = st.wr(rid)
                    if base[2] == "end":
                        self.scope_end(st, rid)
                        w = st.wr(rid)
                        w.segs = []
                        w.status = "ended"
                        w.cells = {}
                        w.havoc = False
                    else:
                        w.status = "live"
                        w.cells = {}
                        w.segs = []
                        w.havoc = False
            return [(st, None)]
        if k == "umin" or k == "umax" or k == "smin" or k == "smax":
            a, b = args[0], args[1]
            if isinstance(a, Lin) and isinstance(b, Lin):
                out = []
                for s, t in self.branch(st, self.cmp(st, "ult" if k[0] == "u" else "slt", a, b, False)):
                    out.append((s, a if t == (k.endswith("min")) else b))
                return out
            return [(st, UNDEF)]
        if k == "eh":
            g = ins["args"][0]
            return [(st, const(self.typeid(g[1] if g[0] == "g" else "?")))]
        if k == "expect":
            return [(st, args[0])]
        if k in ("assume", "dbg", "invariant", "experimental", "donothing", "stacksave", "stackrestore", "prefetch"):
            return [(st, self.unknown(ins["t"], True) if ins["t"][0] != "v" else None)]
        if k == "trap" or k == "debugtrap":
            return []
        if k in ("uadd", "umul", "usub", "sadd", "smul", "ssub") and base[2] == "with":
            a, b = args
            if isinstance(a, Lin) and isinstance(b, Lin):
                op = {"add": "add", "mul": "mul", "sub": "sub"}[k[1:]]
                r = self.binop(st, op, a, b, 64, ins)
                bad = b_or([b_ge(r.addc(-U64)), b_ge(r.neg().addc(-1))])
                out = []
                for s, t in self.branch(st, bad):
                    out.append((s, (self.unknown(["i", 64], False) if t else r, TRUE if t else FALSE)))
                return out
            return [(st, (UNDEF, UNDEFB))]
        if k == "is" and base[2:] and base[2] == "constant":
            return [(st, FALSE)]
        if k == "objectsize":
            return [(st, const(-1))]
        self.note("intrinsic " + name)
        return [(st, self.unknown(ins["t"], True) if ins["t"][0] != "v" else None)]

    # -- models of opaque operations ------------------------------------------------------------------------------------
    RE_VP = re.compile(r"^vp::(\w+)::(~?\w+|operator[^\s(]+|operator\(\))\((.*)\)((?: const)?(?: ?&&?)?)$")

    def model(self, name, fn):
        c = getattr(self, "_mcache", None)
        if c is None:
            c = self._mcache = {}
        if name in c:
            return c[name]
        m = self.find_model(name, fn)
        c[name] = m
        return m

    def find_model(self, name, fn):
        h = getattr(self, "x_" + name, None)
        if h is not None:
            return h
        if fn is None:
            return None
        dem = fn.dem
        if dem in STD_THROW:
            ty = STD_THROW[dem]
            return lambda args, ins, st: [self.throw(st, ("lib", ty))]
        if name in ("__clang_call_terminate", "_ZSt9terminatev"):
            return self.m_terminate
        if fn.blocks is None or dem.startswith("vp::"):
            m = self.RE_VP.match(dem)
            if m and fn.blocks is None:
                op = self.vp_member(m.group(1), m.group(2), m.group(3), fn)
                if op is None:
                    return None
                sz = self.sizes[m.group(1)]
                return self.by_cases([(0, sz), (1, sz)], op)
            if re.match(r"vp::operator(==|!=|<=|>=|<|>)\(", dem):
                if fn.blocks is None:
                    op = self.vp_compare(dem, fn)
                    mm = re.search(r"vp::(\w+) const&", dem)
                    return op and self.by_cases([(0, self.sizes[mm.group(1)]), (1, self.sizes[mm.group(1)])], op)
        if fn.blocks is None and (dem.startswith("std::") and ("error::" in dem or "exception::" in dem or
                                                              "bad_alloc::" in dem or "out_of_range::" in dem)):
            return lambda args, ins, st: [(st, None)]
        return None

    def m_terminate(self, args, ins, st):
        o = st.exc
        what = "exception"
        if o is not None:
            what = "%s" % (o[1],)
            if o[0] == "user":
                self.check(st, FALSE, "terminate", "an exception thrown by %s cannot leave a noexcept function" % what,
                           stack=o[2] if len(o) > 2 else None)
            else:
                self.check(st, FALSE, "terminate-lib", "%s thrown here cannot leave a noexcept function" % what,
                           stack=o[2] if len(o) > 2 else None)
        return []

    def user_throw(self, st, what):
        return self.throw(st, ("user", what, self.cur_stack()))

    def vp_sources(self, st, params, args):
        """Parameters that are objects of known types: (type, is rvalue, value) per argument, else None."""
        out = []
        for p in params.split(", ") if params else []:
            if p.startswith("std::initializer_list<"):
                out += [None, None]
                continue
            i = len(out)
            m = re.match(r"^(\w+)( const)?(&&?)$", p)
            if i >= len(args):
                break
            if m and m.group(1) in self.sizes:
                v = self.object(st, args[i], m.group(1), "converts from a %s" % m.group(1))
                if v is None:
                    st.taint = True
                    v = ("unk", self.tab.new("t", taint=True).i)
                out.append((m.group(1), m.group(3) == "&&", v))
            else:
                out.append(None)
        return out + [None] * (len(args) - len(out))

    def vp_move_sources(self, st, srcs, args, done):
        for s, a in zip(srcs, args):
            if s and s[1]:
                self.reassign(st, a, s[0], ("moved",) if done else ("unk", self.tab.new("t").i), "moves")

    def vp_key(self, st, ty, srcs, args):
        return ("val", ty, tuple(("o", s[2]) if s else st.facts.norm(a) if isinstance(a, Lin) else repr(a)
                                 for s, a in zip(srcs, args)))

    def vp_member(self, cls, meth, params, fn):
        if cls not in self.sizes:
            return None
        ty = cls
        nothrow = fn.nounwind or self.noexc
        ps = params.replace("vp::", "")

        def done(st, ret=None):
            return [(st, ret)]

        if meth == "~" + cls:
            def dtor(args, ins, st):
                if not self.destroy(st, args[0], ty):
                    st.taint = True
                return done(st)
            return dtor
        if meth == cls:
            if ps in ("", "void"):
                def dflt(args, ins, st):
                    out = []
                    if not nothrow:
                        out.append(self.user_throw(st, "%s()" % ty))
                    self.construct(st, args[0], ty, ("default", ty))
                    return done(st) + out
                return dflt
            if ps in ("%s const&" % cls, "%s&&" % cls):
                mv = ps.endswith("&&")

                def cctor(args, ins, st):
                    out = []
                    v = self.object(st, args[1], ty, "%s from a %s" % ("moves" if mv else "copies", ty))
                    if not nothrow:
                        t = self.user_throw(st, "%s(%s)" % (ty, ps))
                        if mv and v is not None:
                            self.reassign(t[1], args[1], ty, ("unk", self.tab.new("t").i), "moves")
                        out.append(t)
                    if v is None:
                        st.taint = True
                        return done(st) + out
                    self.construct(st, args[0], ty, v)
                    if mv:
                        self.reassign(st, args[1], ty, ("moved",), "moves")
                    return done(st) + out
                return cctor

            def vctor(args, ins, st):
                out = []
                srcs = self.vp_sources(st, ps, args[1:])
                if not nothrow:
                    t = self.user_throw(st, "%s(%s)" % (ty, ps))
                    self.vp_move_sources(t[1], srcs, args[1:], False)
                    out.append(t)
                self.construct(st, args[0], ty, self.vp_key(st, ty, srcs, args[1:]))
                self.vp_move_sources(st, srcs, args[1:], True)
                return done(st) + out
            return vctor
        if meth == "operator=":
            mv = ps.endswith("&&")
            if ps in ("%s const&" % cls, "%s&&" % cls):
                def asg(args, ins, st):
                    out = []
                    v = self.object(st, args[1], ty, "assigns from a %s" % ty)
                    if not nothrow:
                        t = self.user_throw(st, "%s::operator=(%s)" % (ty, ps))
                        self.reassign(t[1], args[0], ty, ("unk", self.tab.new("t").i), "assigns to a %s" % ty)
                        if mv and v is not None:
                            self.reassign(t[1], args[1], ty, ("unk", self.tab.new("t").i), "moves")
                        out.append(t)
                    same = isinstance(args[0], Lin) and isinstance(args[1], Lin) and \
                        st.facts.entails(b_eq(args[0].sub(args[1])))
                    if v is not None:
                        if same:
                            self.object(st, args[0], ty, "assigns to a %s" % ty)
                            if mv:
                                self.reassign(st, args[0], ty, ("unk", self.tab.new("t").i), "assigns to a %s" % ty)
                        else:
                            if not self.reassign(st, args[0], ty, v, "assigns to a %s" % ty):
                                st.taint = True
                            if mv:
                                self.reassign(st, args[1], ty, ("moved",), "moves")
                    else:
                        st.taint = True
                    return done(st, args[0]) + out
                return asg

            def vasg(args, ins, st):
                out = []
                srcs = self.vp_sources(st, ps, args[1:])
                if not nothrow:
                    t = self.user_throw(st, "%s::operator=(%s)" % (ty, ps))
                    self.reassign(t[1], args[0], ty, ("unk", self.tab.new("t").i), "assigns to a %s" % ty)
                    self.vp_move_sources(t[1], srcs, args[1:], False)
                    out.append(t)
                if not self.reassign(st, args[0], ty, self.vp_key(st, ty, srcs, args[1:]), "assigns to a %s" % ty):
                    st.taint = True
                self.vp_move_sources(st, srcs, args[1:], True)
                return done(st, args[0]) + out
            return vasg

        # any other member: an opaque use of a live object
        sret = bool(fn.args) and "sret" in fn.args[0]

        def use(args, ins, st):
            out = []
            v = self.object(st, args[1 if sret else 0], ty, "calls %s on a %s" % (meth, ty))
            if not nothrow:
                out.append(self.user_throw(st, "%s::%s" % (ty, meth)))
            if v is None:
                st.taint = True
            if ins["t"][0] == "v":
                return done(st) + out
            return done(st, self.opaque_result(ins["t"], (fn.name, v, tuple(
                st.facts.norm(a) if isinstance(a, Lin) else repr(a) for a in args[1:])))) + out
        return use

    def opaque_result(self, ty, key):
        """Same opaque operation on the same inputs gives the same result."""
        if ty[0] == "i" and ty[1] == 1:
            return ("b", self.tab.intern("call", key).i, True)
        if ty[0] == "i":
            return atom(self.tab.intern("call", (key, ty[1]), 0, (1 << ty[1]) - 1))
        if ty[0] == "p":
            a = self.tab.intern("callp", key, 0, U64 - 1)
            a.kind = "v"
            a.pay = "ptr"
            return atom(a)
        return self.unknown(ty, False)

    def vp_compare(self, dem, fn):
        mm = re.match(r"^vp::operator(==|!=|<=|>=|<|>)\(vp::(\w+) const&, vp::(\w+) const&\)$", dem)
        if not mm:
            return None
        op, ta, tb = mm.groups()
        if ta not in self.sizes or tb not in self.sizes:
            return None
        nothrow = fn.nounwind or self.noexc

        def compare(args, ins, st):
            va = self.object(st, args[0], ta, "compares a %s" % ta)
            vb = self.object(st, args[1], tb, "compares a %s" % tb)
            out = []
            if not nothrow:
                out.append(self.user_throw(st, "operator%s" % op))
            if va is None or vb is None:
                st.taint = True
                return [(st, ("b", self.tab.new("ub", taint=True).i, True))] + out
            # the operators agree the way those of a partial order do: != negates ==, > and >= are < and <= reversed
            o, x, y = {">": ("<", vb, va), ">=": ("<=", vb, va), "!=": ("==", va, vb)}.get(op, (op, va, vb))
            if o == "==" and ta == tb:
                x, y = sorted((x, y), key=repr)
            b = ("b", self.tab.intern("cmp", (o, x, y), name="(%s)" % o).i, op != "!=")
            if o != "==":
                return [(st, b)] + out
            ra, oa = self.split_ptr(st, args[0])
            rb, ob = self.split_ptr(st, args[1])
            res = []
            for s, t in self.branch(st, b):
                eq = t != (op == "!=")
                if eq and ra is not None and rb is not None:
                    self.ghost_pair(s, ra, rb, s.facts.norm(oa), s.facts.norm(ob.sub(oa)), self.sizes[ta])
                if not eq:
                    s.ghost["differs"] = True
                res.append((s, TRUE if t else FALSE))
            return res + out
        return compare

    def ghost_pair(self, st, ra, rb, oa, delta, sz):
        """Ghost record: element at oa of block ra was found equal to the element at oa+delta of block rb."""
        if delta.is_const():
            key = ("ghost", ra, rb, delta.c)
            gid = self.regid_global.get(key)
            if gid is None:
                gid = self.regid_global[key] = self.tab.new("region", key, 4096, None, False, "cmp").i
            if gid not in st.regions:
                st.regions[gid] = Region(gid, "ghost", None, "cmp")
                st.own.add(gid)
            w = st.wr(gid)
            self.seg_drop_empty(st, w)
            sz = sz if isinstance(sz, Lin) else const(sz)
            if not any(st.facts.entails_ge(oa.sub(s.lo)) and st.facts.entails_ge(s.hi.sub(oa).sub(sz)) for s in w.segs):
                self.seg_add(st, w, Seg(oa, oa.add(sz), "cmp", 1, ("tok", ("eq",))))

    # -- C and C++ runtime ------------------------------------------------------------------------------------------------
    def x___cxa_allocate_exception(self, args, ins, st):
        return [(st, self.new_region(st, "exc", args[0], "exception"))]

    def x___cxa_free_exception(self, args, ins, st):
        return [(st, None)]

    def x___cxa_throw(self, args, ins, st):
        rid, _ = self.split_ptr(st, args[1])
        nm = st.regions[rid].name if rid in st.regions else "?"
        if rid is not None and self.tab.atoms[rid].pay:
            nm = self.tab.atoms[rid].pay[1]
        return [self.throw(st, ("lib", nm, self.cur_stack()))]

    def x___cxa_begin_catch(self, args, ins, st):
        st.caught = st.caught + (st.exc,)
        return [(st, args[0])]

    def x___cxa_end_catch(self, args, ins, st):
        e = st.caught[-1] if st.caught else None
        if e is not None and e[0] == "user" and self.cur_loc and self.cur_loc[0].startswith(self.repo):
            self.check(st, FALSE, "swallow", "an exception thrown by %s does not reach the caller" % e[1])
        st.caught = st.caught[:-1]
        return [(st, None)]

    def x___cxa_rethrow(self, args, ins, st):
        e = st.caught[-1] if st.caught else ("user", "rethrow")
        if e is not None and e[0] == "rethrown":
            e = e[1:]
        s = st.fork()
        s.exc = e
        if s.caught and e is not None:
            s.caught = s.caught[:-1] + (("rethrown",) + tuple(e),)
        return [("unw", s, None)]

    def x___cxa_guard_acquire(self, args, ins, st):
        st.ghost["guard"] = st.ghost.get("guard", 0) + 1
        return [(st, ONE)]

    def x___cxa_guard_release(self, args, ins, st):
        st.ghost["guard"] = st.ghost.get("guard", 1) - 1
        self.store(st, args[0], 1, ONE)
        return [(st, None)]

    def x___cxa_guard_abort(self, args, ins, st):
        st.ghost["guard"] = st.ghost.get("guard", 1) - 1
        return [(st, None)]

    def x___cxa_atexit(self, args, ins, st):
        return [(st, ZERO)]

    def x___cxa_pure_virtual(self, args, ins, st):
        self.check(st, FALSE, "null", "call of a pure virtual function")
        return []

    def caught_misuse(self, st):
        if st.ghost.get("misuse") and st.facts.consistent() and not self.silent:
            self.covered.add(st.ghost["misuse"] + " (caught)")

    def x___assert_fail(self, args, ins, st):
        self.caught_misuse(st)
        self.check(st, FALSE, "debug-assert", "a debug assertion of the library fails here")
        return []

    def x_abort(self, args, ins, st):
        self.caught_misuse(st)
        self.check(st, FALSE, "abort", "the process is aborted here")
        return []

    def x__ZSt9terminatev(self, args, ins, st):
        if st.exc is not None and st.caught:
            return self.m_terminate(args, ins, st)
        self.caught_misuse(st)
        self.check(st, FALSE, "abort", "the process is terminated here")
        return []

    def x___clang_call_terminate(self, args, ins, st):
        return self.m_terminate(args, ins, st)

    # heap of the C library -----------------------------------------------------------------------------------------------
    def heap_alloc(self, st, size, info, name):
        p = self.new_region(st, "heap", size, name, dict(info, stack=self.cur_stack()))
        return p

    def x_malloc(self, args, ins, st):
        s0 = st.fork()
        p = self.heap_alloc(st, args[0], {"mr": "malloc", "size": args[0]}, "malloc")
        return [(st, p), (s0, ZERO)]

    def x_calloc(self, args, ins, st):
        n = self.binop(st, "mul", args[0], args[1], 64, ins)
        s0 = st.fork()
        p = self.heap_alloc(st, n, {"mr": "malloc", "size": n}, "malloc")
        self.memset(st, p, ZERO, n)
        return [(st, p), (s0, ZERO)]

    def x_aligned_alloc(self, args, ins, st):
        return self.x_malloc(args[1:], ins, st)

    def x_free(self, args, ins, st):
        self.release(st, args[0], lambda r: TRUE if r.info.get("mr") == "malloc" else FALSE, "free")
        return [(st, None)]

    def x_realloc(self, args, ins, st):
        s0 = st.fork()
        s0.trail = (self.site_str() + " [realloc fails]", s0.trail)
        p, n = args
        rid, off = self.split_ptr(st, p)
        out = [(s0, ZERO)]
        if isinstance(p, Lin) and st.facts.entails(b_eq(p)):
            return [(st, self.heap_alloc(st, n, {"mr": "malloc", "size": n}, "malloc"))] + out
        if rid is None or rid not in st.regions:
            self.give_up(st, "realloc of unresolved pointer")
            return [(st, self.unknown(["p"], True))] + out
        r = st.regions[rid]
        for sg in [x for x in r.segs if x.ty != "raw"]:
            self.check(st, b_ge(sg.lo.sub(sg.hi)), "lifetime",
                       "relocates live %s objects by copying their bytes" % sg.ty)
            st.taint = True
        q = self.heap_alloc(st, n, {"mr": "malloc", "size": n}, "malloc")
        self.relocate(st, rid, q.t[0][0], n)
        old = self.release(st, p, lambda r: TRUE if r.info.get("mr") == "malloc" else FALSE, "realloc")
        return [(st, q)] + out

    def relocate(self, st, old, new, n):
        """the bytes both blocks have room for move along with a reallocation"""
        o, w = st.regions[old], st.wr(new)
        if o.havoc or o.size is None:
            w.havoc = True
        for s in o.segs:
            if s.ty == "raw":
                f = st.facts
                if f.entails_ge(n.sub(s.hi)):
                    w.segs.append(s)
                elif f.entails_ge(s.hi.sub(n)) and f.entails_ge(n.sub(s.lo)):
                    w.segs.append(Seg(s.lo, n, s.ty, s.sz, s.content))
                else:
                    w.havoc = True
        for k, (sz, v) in o.cells.items():
            if st.facts.entails_ge(n.sub(k).addc(-sz)):
                w.cells[k] = (sz, v)
            else:
                w.havoc = True

    def x__Znwm(self, args, ins, st):
        t = self.throw(st, ("lib", "_ZTISt9bad_alloc", self.cur_stack()))
        return [(st, self.heap_alloc(st, args[0], {"mr": "new", "size": args[0]}, "new")), t]

    x__Znam = x__Znwm

    def x__ZdlPv(self, args, ins, st):
        self.release(st, args[0], lambda r: TRUE if r.info.get("mr") == "new" else FALSE, "operator delete")
        return [(st, None)]

    x__ZdlPvm = x__ZdaPv = x__ZdlPv

    def x_memcpy(self, args, ins, st):
        self.memcpy(st, args[0], args[1], args[2])
        return [(st, args[0])]

    x_memmove = x_memcpy

    def x_memcmp(self, args, ins, st):
        """Byte comparison: equal (recorded as such), or different with an unknown sign."""
        a, b, n = args
        if not (isinstance(a, Lin) and isinstance(b, Lin) and isinstance(n, Lin)):
            self.check(st, UNDEFB, "uninit", "compares indeterminate storage")
            st.taint = True
            return [(st, self.unknown(ins["t"], True))]
        n = st.facts.norm(n)
        if st.facts.entails(b_eq(n)):
            return [(st, ZERO)]
        out = []
        cur = []
        for s, t in self.branch(st, b_eq(n)):
            if t:
                out.append((s, ZERO))
            else:
                cur.append(s)
        for s in cur:
            ra, oa = self.region_for(s, a, "memory comparison")
            rb, ob = self.region_for(s, b, "memory comparison")
            if ra is None or rb is None or not self.bounds(s, ra, oa, n, "memory comparison") or \
                    not self.bounds(s, rb, ob, n, "memory comparison"):
                s.taint = True
                out.append((s, self.unknown(ins["t"], True)))
                continue
            f = s.facts
            oa, ob = f.norm(oa), f.norm(ob)
            if ra.rid == rb.rid and f.entails(b_eq(oa.sub(ob))):
                out.append((s, ZERO))
                continue
            if n.is_const() and n.c <= 64:
                xs = [self.load(s, a.addc(i), 1, ["i", 8]) for i in range(n.c)]
                ys = [self.load(s, b.addc(i), 1, ["i", 8]) for i in range(n.c)]
                if all(isinstance(x, Lin) and x.is_const() for x in xs + ys):
                    l, r = [x.c & 255 for x in xs], [y.c & 255 for y in ys]
                    out.append((s, const((l > r) - (l < r))))
                    continue
                if any(x is UNDEF or isinstance(x, PBits) for x in xs + ys):
                    self.check(s, UNDEFB, "uninit", "compares indeterminate bytes")
                    s.taint = True
            same = self.same_bytes(s, ra, oa, rb, ob, n)
            if same != "no":
                e = s.fork()
                e.trail = (self.site_str() + " [equal bytes]", e.trail)
                self.ghost_pair(e, ra.rid, rb.rid, oa, f.norm(ob.sub(oa)), n)
                out.append((e, ZERO))
            if same != "yes":
                d = s.fork()
                d.trail = (self.site_str() + " [bytes differ]", d.trail)
                d.ghost["differs"] = True
                v = self.fresh(None, -255, 255)
                for g in d.facts.assume(("ne", v)):
                    out.append((d.fork(g), v))
        return out

    x_bcmp = x_memcmp

    def same_bytes(self, st, ra, oa, rb, ob, n):
        """Do the tracked contents decide the comparison?"""
        f = st.facts
        sa = [x for x in ra.segs if f.entails_ge(oa.sub(x.lo)) and f.entails_ge(x.hi.sub(oa).sub(n))]
        sb = [x for x in rb.segs if f.entails_ge(ob.sub(x.lo)) and f.entails_ge(x.hi.sub(ob).sub(n))]
        if sa and sb:
            ca, cb = sa[0].content, sb[0].content
            if ca[0] == cb[0] == "map" and ca[1] == cb[1] and f.entails(b_eq(oa.add(ca[2]).sub(ob).sub(cb[2]))):
                return "yes"
            if ca[0] == cb[0] == "tok" and ca == cb and ca[1][0] == "v":
                return "yes"
        return "maybe"

    def x_memset(self, args, ins, st):
        self.memset(st, args[0], args[1], args[2])
        return [(st, args[0])]

    # -- harness vocabulary -----------------------------------------------------------------------------------------------
    def cstr(self, st, p):
        rid, off = self.split_ptr(st, p)
        r = st.regions.get(rid)
        if r is None:
            return "?"
        out = []
        i = off.c
        while True:
            c = r.cells.get(const(i))
            if c is None or not isinstance(c[1], Lin) or c[1].c == 0 or len(out) > 200:
                break
            out.append(chr(c[1].c & 255))
            i += 1
        return "".join(out)

    def x_vp_size(self, args, ins, st):
        return [(st, self.fresh("size%d" % len(self.tab.atoms), 0, 1 << 40))]

    def x_vp_size_any(self, args, ins, st):
        return [(st, self.fresh("anysize%d" % len(self.tab.atoms), 0, U64 - 1))]

    def x_vp_int(self, args, ins, st):
        return [(st, self.fresh("int%d" % len(self.tab.atoms), 0, (1 << 31) - 1))]

    def x_vp_bool(self, args, ins, st):
        return [(st, ("b", self.tab.new("nondet").i, True))]

    def x_vp_opaque_ptr(self, args, ins, st):
        a = self.tab.new("v", "ptr", 4096, U64 - 1, False)
        return [(st, atom(a))]

    def x_vp_opaque_ptr_or_null(self, args, ins, st):
        a = self.tab.new("v", "ptr", 0, U64 - 1, False)
        return [(st, atom(a))]

    def x_vp_assume(self, args, ins, st):
        return [(s, None) for s, t in self.branch(st, args[0]) if t]

    def x_vp_assert(self, args, ins, st):
        msg = self.cstr(st, args[1])
        cond = args[0]
        if not isinstance(cond, tuple):
            cond = UNDEFB
        before = self.oblig.get("assert", (0, 0, 0))[1]
        self.check(st, cond, "assert", msg, tag=msg)
        self.cover_points.add(msg)
        if not self.silent:
            self.covered.add(msg)
        prop = self.opts.get("prop")
        if prop and self.oblig["assert"][1] > before and prop not in msg.partition(": ")[0].split(","):
            # another property's business: what follows is still judged, except for the client's own use of the result
            st.ghost["suspect"] = True
            return [(st, None)]
        return [(s, None) for s, t in (self.branch(st, cond) if cond != UNDEFB else [(st, True)]) if t]

    def x_vp_bounded(self, args, ins, st):
        """loops entered from here on are followed iteration by iteration that far before they are generalised"""
        st.ghost["bounded"] = args[0].c
        return [(st, None)]

    def x_vp_cover(self, args, ins, st):
        if not self.silent and st.facts.consistent():
            self.covered.add(self.cstr(st, args[0]))
        return [(st, None)]

    def x_vp_misuse(self, args, ins, st):
        """what follows breaks a precondition that the library checks in debug builds"""
        st.ghost["misuse"] = self.cstr(st, args[0])
        return [(st, None)]

    def x_vp_misused(self, args, ins, st):
        m = st.ghost.pop("misuse", "?")
        self.check(st, FALSE, "assert", m)
        return []

    def x_vp_stop(self, args, ins, st):
        return []

    def x_vp_throw(self, args, ins, st):
        return [self.user_throw(st, "user code")]

    def x_vp_may_throw(self, args, ins, st):
        if self.noexc:
            return [(st, None)]
        return [(st, None), self.user_throw(st, "user code")]

    def x_vp_untracked(self, args, ins, st):
        """storage block of the given size that the harness owns (never leaked)"""
        return [(st, self.new_region(st, "ext", args[0], "buffer"))]

    def x_vp_buffer(self, args, ins, st):
        """like vp_untracked, at any address"""
        return [(st, self.new_region(st, "ext", args[0], "buffer", {"align": 1}))]

    def x_vp_disjoint(self, args, ins, st):
        """vp_disjoint(p, n, q, m): the ranges have no byte in common"""
        p, n, q, m = args
        rp, op = self.split_ptr(st, p)
        rq, oq = self.split_ptr(st, q)
        if rp is None or rq is None:
            return [(st, ("b", self.tab.new("ub", taint=True).i, True))]
        if rp != rq:
            return [(st, TRUE)]
        return [(st, b_or([b_ge(oq.sub(op).sub(n)), b_ge(op.sub(oq).sub(m)), b_eq(n), b_eq(m)]))]

    def x_vp_alloc(self, args, ins, st):
        """vp_alloc(resource, bytes, align, mode): mode bit0 may throw, bit1 may return null"""
        mr, n, al, mode = args
        mode = mode.c
        out = []
        if mode & 1:
            out.append(self.throw(st, ("lib", "_ZTISt9bad_alloc", self.cur_stack())))
        if mode & 2:
            s0 = st.fork()
            s0.trail = (self.site_str() + " [allocation fails]", s0.trail)
            out.append((s0, ZERO))
        p = self.heap_alloc(st, n, {"mr": st.facts.norm(mr) if isinstance(mr, Lin) else mr, "size": n, "align": al}, "block")
        return [(st, p)] + out

    def x_vp_dealloc(self, args, ins, st):
        mr, p, n, al = args

        def goal(r):
            i = r.info
            if not isinstance(i.get("mr"), Lin) or not isinstance(mr, Lin):
                return FALSE
            if not (isinstance(n, Lin) and isinstance(al, Lin)):
                return UNDEFB
            return b_and([self.cmp(st, "eq", i["mr"], mr, True), b_eq(st.facts.norm(i["size"].sub(n))),
                          b_eq(i["align"].sub(al))])
        self.release(st, p, goal, "deallocation")
        return [(st, None)]

    def x_vp_array(self, args, ins, st):
        """vp_array(type name, count): read-only source array of live objects with distinct identities"""
        ty = self.cstr(st, args[0])
        n = args[1]
        sz = self.sizes[ty]
        p = self.new_region(st, "ext", n.scale(sz), "src")
        w = st.wr(p.t[0][0])
        w.lazy = False
        w.segs = [Seg(ZERO, n.scale(sz), ty, sz, ("map", "src%d" % p.t[0][0], ZERO))]
        return [(st, p)]

    def x_vp_bytes(self, args, ins, st):
        """vp_bytes(element size, count): read-only source array of scalars"""
        sz, n = args[0].c, args[1]
        p = self.new_region(st, "ext", n.scale(sz), "src")
        w = st.wr(p.t[0][0])
        w.lazy = False
        w.segs = [Seg(ZERO, n.scale(sz), "raw", sz, ("map", "src%d" % p.t[0][0], ZERO))]
        return [(st, p)]

    def x_vp_realloc(self, args, ins, st):
        """vp_realloc(resource, p, old bytes, new bytes, align): null and nothing happened, or a moved block"""
        mr, p, old, n, al = args
        s0 = st.fork()
        s0.trail = (self.site_str() + " [reallocation fails]", s0.trail)
        out = [(s0, ZERO)]
        rid, off = self.split_ptr(st, p)
        if isinstance(p, Lin) and st.facts.entails(b_eq(p)):
            return out
        if rid is None or rid not in st.regions:
            self.give_up(st, "reallocation of unresolved pointer")
            return [(st, self.unknown(["p"], True))] + out
        r = st.regions[rid]
        bad = False
        for sg in [x for x in r.segs if x.ty != "raw"]:
            if not self.check(st, b_ge(sg.lo.sub(sg.hi)), "lifetime",
                              "relocates live %s objects by copying their bytes" % sg.ty):
                bad = True
        q = self.heap_alloc(st, n, {"mr": st.facts.norm(mr), "size": n, "align": al}, "block")
        self.relocate(st, rid, q.t[0][0], n)
        if bad:
            st.taint = True
            st.wr(rid).segs = []
        self.x_vp_dealloc([mr, p, old, al], ins, st)
        return [(st, q)] + out

    def x_vp_resize(self, args, ins, st):
        """vp_resize(resource, p, old bytes, new bytes, align): null and nothing happened, or p itself with the new size"""
        mr, p, old, n, al = args
        s0 = st.fork()
        s0.trail = (self.site_str() + " [resizing fails]", s0.trail)
        rid, off = self.split_ptr(st, p)
        if isinstance(p, Lin) and st.facts.entails(b_eq(p)):
            return [(s0, ZERO)]
        if rid is None or rid not in st.regions:
            self.give_up(st, "resizing of unresolved pointer")
            return [(st, self.unknown(["p"], True)), (s0, ZERO)]
        i = st.regions[rid].info
        if isinstance(i.get("mr"), Lin) and isinstance(mr, Lin) and isinstance(old, Lin):
            self.check(st, b_and([self.cmp(st, "eq", i["mr"], mr, True), b_eq(st.facts.norm(i["size"].sub(old))),
                                  b_eq(i["align"].sub(al))]), "release",
                       "resizing of a block with another resource, size or alignment than it was obtained with")
        w = st.wr(rid)
        w.size = n
        w.info = dict(i, size=n)
        return [(st, p), (s0, ZERO)]

    def x_vp_concurrent(self, args, ins, st):
        st.ghost["threads"] = True
        return [(st, None)]

    def x_vp_writes(self, args, ins, st):
        return [(st, const(st.ghost.get("writes", 0)))]

    def x_vp_replaced(self, args, ins, st):
        return [(st, st.ghost.get("replaced", ZERO))]

    def x_vp_written(self, args, ins, st):
        return [(st, st.ghost.get("written", ZERO))]

    def x_vp_object(self, args, ins, st):
        ty = self.cstr(st, args[0])
        sz = self.sizes[ty]
        p = self.new_region(st, "ext", const(sz), ty)
        w = st.wr(p.t[0][0])
        w.lazy = False
        w.segs = [Seg(ZERO, const(sz), ty, sz, ("tok", ("obj", p.t[0][0])))]
        return [(st, p)]

    def x_vp_val(self, args, ins, st):
        return self.by_cases([(1, self.sizes[self.cstr(st, args[0])])], self.val_of)(args, ins, st)

    def val_of(self, args, ins, st):
        """vp_val(type name, ptr): identity of the value the object carries"""
        ty = self.cstr(st, args[0])
        v = self.object(st, args[1], ty, "inspects a %s" % ty)
        if v is None:
            st.taint = True
            return [(st, self.fresh(None, 0, None, True))]
        return [(st, atom(self.tab.intern("val", v, 0, None, v[0] == "unk" and self.tab.atoms[v[1]].taint)))]

    def x_vp_alive(self, args, ins, st):
        """vp_alive(type name, ptr): is there a live object"""
        ty = self.cstr(st, args[0])
        rid, off = self.split_ptr(st, args[1])
        if rid is None or rid not in st.regions or st.regions[rid].status != "live":
            return [(st, FALSE)]
        r = st.regions[rid]
        i = self.locate(st, r, st.facts.norm(off), self.sizes[ty])
        return [(st, TRUE if i is not None and r.segs[i].ty == ty else FALSE)]

    def x_vp_moved(self, args, ins, st):
        """vp_moved(type name, ptr): the live object has been moved from"""
        ty = self.cstr(st, args[0])
        v = self.object(st, args[1], ty, "inspects a %s" % ty)
        return [(st, TRUE if v == ("moved",) else FALSE if v is not None and v[0] != "unk" else UNDEFB)]

    def x_vp_compared(self, args, ins, st):
        """vp_compared(a, b, bytes): the ranges were found equal element by element"""
        ra, oa = self.split_ptr(st, args[0])
        rb, ob = self.split_ptr(st, args[1])
        n = args[2]
        f = st.facts
        if f.entails(b_eq(n)):
            return [(st, TRUE)]
        if ra is None or rb is None:
            return [(st, FALSE)]
        goals = []
        for (x, ox, y, oy) in ((ra, oa, rb, ob), (rb, ob, ra, oa)):
            d = f.norm(oy.sub(ox))
            if d.is_const():
                gid = self.regid_global.get(("ghost", x, y, d.c))
                if gid in st.regions:
                    for s in st.regions[gid].segs:
                        goals.append(b_and([b_ge(ox.sub(s.lo)), b_ge(s.hi.sub(ox.add(n)))]))
        g = b_or(goals + [b_eq(f.norm(n))])
        return [(st, g)]

    def x_vp_differs(self, args, ins, st):
        return [(st, TRUE if st.ghost.get("differs") else FALSE)]

    def x_vp_block_size(self, args, ins, st):
        """size in bytes of the block a pointer is the start of"""
        rid, off = self.split_ptr(st, args[0])
        if rid is None or rid not in st.regions or st.regions[rid].size is None:
            return [(st, ZERO)]
        return [(st, st.regions[rid].size.sub(off))]

    def x_vp_same_object(self, args, ins, st):
        return [(st, self.cmp(st, "eq", args[0], args[1], True))]
