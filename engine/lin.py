"""Value domain of the analyses: integer linear forms over interned atoms, boolean forms over them, and the
conjunctive fact domain with its entailment test (Fourier-Motzkin elimination with integer tightening).

An atom names one unknown quantity (a parameter, a length, the address of a memory block, the result of an opaque
call).  Atoms never change their meaning, hence facts about them never have to be retracted.
"""
from math import gcd

U64 = 1 << 64


class Atom:
    __slots__ = ("i", "kind", "pay", "lo", "hi", "taint", "axioms", "name")

    def __init__(self, i, kind, pay, lo, hi, taint, name):
        self.i, self.kind, self.pay, self.lo, self.hi, self.taint, self.name = i, kind, pay, lo, hi, taint, name
        self.axioms = ()


class Table:
    """Interning table.  One per analysed harness function."""

    def __init__(self):
        self.atoms = []
        self.index = {}

    def new(self, kind, pay=None, lo=None, hi=None, taint=False, name=None):
        a = Atom(len(self.atoms), kind, pay, lo, hi, taint, name or "%s%d" % (kind, len(self.atoms)))
        self.atoms.append(a)
        return a

    def intern(self, kind, pay, lo=None, hi=None, taint=False, name=None):
        k = (kind, pay)
        a = self.index.get(k)
        if a is None:
            a = self.new(kind, pay, lo, hi, taint, name)
            self.index[k] = a
        return a


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (atom id, coefficient), sorted by atom id
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def is_const(self):
        return not self.t

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        if k == 0:
            return self
        d = dict(self.t)
        for a, q in o.t:
            v = d.get(a, 0) + k * q
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def sub(self, o):
        return self.add(o, -1)

    def addc(self, c):
        return self if c == 0 else Lin(self.c + c, self.t)

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, q * k) for a, q in self.t))

    def neg(self):
        return self.scale(-1)

    def coef(self, a):
        for x, q in self.t:
            if x == a:
                return q
        return 0

    def subst(self, m):
        """m: dict atom id -> Lin"""
        hit = False
        for a, _ in self.t:
            if a in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, ())
        rest = []
        for a, q in self.t:
            if a in m:
                r = r.add(m[a], q)
            else:
                rest.append((a, q))
        return r.add(Lin(0, tuple(rest)))

    def show(self, tab):
        out = []
        for a, q in self.t:
            n = tab.atoms[a].name
            out.append(n if q == 1 else "%d*%s" % (q, n))
        if self.c or not out:
            out.append(str(self.c))
        return " + ".join(out)


ZERO = Lin(0, ())
ONE = Lin(1, ())


def const(c):
    return Lin(c, ())


def atom(a):
    return Lin(0, ((a.i, 1),))


# ---------------------------------------------------------------------------------------------------------------------
# Boolean forms: ('c',0/1) ('ge',Lin) ('eq',Lin) ('ne',Lin) ('b',atom id,polarity) ('and',(..)) ('or',(..)) ('u',)
TRUE = ("c", 1)
FALSE = ("c", 0)
UNDEFB = ("u",)


def b_ge(e):
    if e.is_const():
        return TRUE if e.c >= 0 else FALSE
    return ("ge", tighten(e))


def b_eq(e):
    if e.is_const():
        return TRUE if e.c == 0 else FALSE
    g = 0
    for _, q in e.t:
        g = gcd(g, q)
    if e.c % g:
        return FALSE
    if g > 1:
        e = Lin(e.c // g, tuple((a, q // g) for a, q in e.t))
    if e.t[0][1] < 0:
        e = e.neg()
    return ("eq", e)


def b_not(b):
    k = b[0]
    if k == "c":
        return FALSE if b[1] else TRUE
    if k == "ge":
        return b_ge(b[1].neg().addc(-1))
    if k == "eq":
        return ("ne", b[1])
    if k == "ne":
        return ("eq", b[1])
    if k == "b":
        return ("b", b[1], not b[2])
    if k == "and":
        return b_or([b_not(x) for x in b[1]])
    if k == "or":
        return b_and([b_not(x) for x in b[1]])
    return b


def b_and(xs):
    out = []
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == "and":
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def b_or(xs):
    out = []
    for x in xs:
        if x == FALSE:
            continue
        if x == TRUE:
            return TRUE
        if x[0] == "or":
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def b_atoms(b, acc=None):
    acc = set() if acc is None else acc
    k = b[0]
    if k in ("ge", "eq", "ne"):
        for a, _ in b[1].t:
            acc.add(a)
    elif k == "b":
        acc.add(b[1])
    elif k in ("and", "or"):
        for x in b[1]:
            b_atoms(x, acc)
    return acc


def b_show(b, tab):
    k = b[0]
    if k == "c":
        return "true" if b[1] else "false"
    if k in ("ge", "eq", "ne"):
        return "%s %s 0" % (b[1].show(tab), {"ge": ">=", "eq": "==", "ne": "!="}[k])
    if k == "b":
        return ("" if b[2] else "!") + tab.atoms[b[1]].name
    if k in ("and", "or"):
        return "(" + (" & " if k == "and" else " | ").join(b_show(x, tab) for x in b[1]) + ")"
    return "undef"


def tighten(e):
    g = 0
    for _, q in e.t:
        g = gcd(g, q)
    if g > 1:
        return Lin(e.c // g, tuple((a, q // g) for a, q in e.t))
    return e


LIMIT = 400


def fm_inconsistent(cons):
    """True when the conjunction of (Lin >= 0) has no integer solution that this test can see; None when too large."""
    cur = set()
    for e in cons:
        if e.is_const():
            if e.c < 0:
                return True
            continue
        cur.add(tighten(e))
    while True:
        # keep only the strongest constant for equal left-hand sides
        best = {}
        for e in cur:
            o = best.get(e.t)
            if o is None or e.c < o:
                best[e.t] = e.c
        for t, c in best.items():
            nt = tuple((a, -q) for a, q in t)
            o = best.get(nt)
            if o is not None and c + o < 0:
                return True
        cur = set(Lin(c, t) for t, c in best.items())
        if not cur:
            return False
        pos, neg = {}, {}
        for e in cur:
            for a, q in e.t:
                (pos if q > 0 else neg).setdefault(a, []).append(e)
        # one-sided atoms can be dropped
        drop = None
        bestv, bestcost = None, None
        for a in set(pos) | set(neg):
            p, n = len(pos.get(a, ())), len(neg.get(a, ()))
            if p == 0 or n == 0:
                drop = a
                break
            cost = p * n - p - n
            if bestcost is None or cost < bestcost:
                bestv, bestcost = a, cost
        if drop is not None:
            cur = set(e for e in cur if e.coef(drop) == 0)
            continue
        a = bestv
        new = set(e for e in cur if e.coef(a) == 0)
        for p in pos[a]:
            cp = p.coef(a)
            for n in neg[a]:
                cn = -n.coef(a)
                g = gcd(cp, cn)
                e = p.scale(cn // g).add(n.scale(cp // g))
                if e.is_const():
                    if e.c < 0:
                        return True
                    continue
                new.add(tighten(e))
        if len(new) > LIMIT:
            return None
        cur = new


def integer_point(cons, ne, defined, budget=4000):
    """An assignment of integers that satisfies (Lin >= 0) for all of cons and (Lin != 0) for all of ne: found by
    elimination and substitution back.  None when there is none within the budget, "large" when elimination blows up."""
    cur = set()
    for e in cons:
        if e.is_const():
            if e.c < 0:
                return None
        else:
            cur.add(tighten(e))
    steps = []
    while cur:
        best = {}
        for e in cur:
            o = best.get(e.t)
            if o is None or e.c < o:
                best[e.t] = e.c
        cur = set(Lin(c, t) for t, c in best.items())
        pos, neg = {}, {}
        for e in cur:
            for a, q in e.t:
                (pos if q > 0 else neg).setdefault(a, []).append(e)
        # quantities defined by others come last in the assignment, hence are eliminated first
        a = min(set(pos) | set(neg), key=lambda a: (a not in defined, len(pos.get(a, ())) * len(neg.get(a, ())) -
                                                    len(pos.get(a, ())) - len(neg.get(a, ())), -a))
        steps.append((a, pos.get(a, ()), neg.get(a, ())))
        new = set(e for e in cur if e.coef(a) == 0)
        for p in pos.get(a, ()):
            cp = p.coef(a)
            for n in neg.get(a, ()):
                cn = -n.coef(a)
                g = gcd(cp, cn)
                e = p.scale(cn // g).add(n.scale(cp // g))
                if e.is_const():
                    if e.c < 0:
                        return None
                    continue
                new.add(tighten(e))
        if len(new) > 4 * LIMIT:
            return "large"
        cur = new
    val = {}
    left = [budget]

    def at(e, skip):
        return e.c + sum(q * val.get(x, 0) for x, q in e.t if x != skip)

    def place(i):
        if i < 0:
            return all(e.c + sum(q * val.get(x, 0) for x, q in e.t) != 0 for e in ne)
        a, pos, neg = steps[i]
        lo = hi = None
        for e in pos:  # q a + r >= 0
            b = -(at(e, a) // e.coef(a))
            lo = b if lo is None or b > lo else lo
        for e in neg:
            b = at(e, a) // -e.coef(a)
            hi = b if hi is None or b < hi else hi
        if lo is None and hi is None:
            tries = range(0, 9)
        elif lo is None:
            tries = range(hi, hi - 9, -1)
        elif hi is None:
            tries = range(lo, lo + 9)
        elif hi - lo <= 17:
            tries = range(lo, hi + 1)
        else:
            tries = list(range(lo, lo + 9)) + [(lo + hi) // 2] + list(range(hi, hi - 8, -1))
        for v in tries:
            left[0] -= 1
            if left[0] < 0:
                return False
            val[a] = v
            if place(i - 1):
                return True
        val.pop(a, None)
        return False

    return dict(val) if place(len(steps) - 1) else None


class Facts:
    """Conjunction of linear facts.  Persistent: assume() returns a new object (or None when contradictory)."""
    __slots__ = ("tab", "ge", "ne", "sub", "bools", "cache")

    def __init__(self, tab, ge=(), ne=(), sub=None, bools=None):
        self.tab = tab
        self.ge = ge
        self.ne = ne
        self.sub = sub or {}
        self.bools = bools or {}
        self.cache = {}

    def norm(self, e):
        s = self.sub
        if not s:
            return e
        for _ in range(50):
            r = e.subst(s)
            if r is e or r == e:
                return r
            e = r
        return e

    # -- bounds -------------------------------------------------------------------------------------------------------
    def interval(self, e):
        lo = hi = e.c
        for a, q in e.t:
            at = self.tab.atoms[a]
            l, h = at.lo, at.hi
            if q < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + q * l
            hi = None if (hi is None or h is None) else hi + q * h
        return lo, hi

    def _relevant(self, atoms):
        tab = self.tab
        todo = list(atoms)
        seen = set(todo)
        cons = []
        used = [False] * len(self.ge)
        while todo:
            a = todo.pop()
            at = tab.atoms[a]
            one = Lin(0, ((a, 1),))
            if at.lo is not None:
                cons.append(one.addc(-at.lo))
            if at.hi is not None:
                cons.append(one.neg().addc(at.hi))
            for ax in at.axioms:
                ax = self.norm(ax)
                cons.append(ax)
                for x, _ in ax.t:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            for i, f in enumerate(self.ge):
                if not used[i] and f.coef(a):
                    used[i] = True
                    cons.append(f)
                    for x, _ in f.t:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
        return cons, seen

    def entails_ge(self, e):
        e = tighten(self.norm(e))
        if e.is_const():
            return e.c >= 0
        lo, _ = self.interval(e)
        if lo is not None and lo >= 0:
            return True
        k = ("ge", e)
        r = self.cache.get(k)
        if r is None:
            cons, seen = self._relevant([a for a, _ in e.t])
            cons.append(e.neg().addc(-1))
            r = fm_inconsistent(cons) is True
            self.cache[k] = r
        return r

    def entails(self, b):
        k = b[0]
        if k == "c":
            return bool(b[1])
        if k == "ge":
            if self.entails_ge(b[1]):
                return True
            return False
        if k == "eq":
            e = self.norm(b[1])
            if e.is_const():
                return e.c == 0
            return self.entails_ge(e) and self.entails_ge(e.neg())
        if k == "ne":
            e = self.norm(b[1])
            n = b_eq(e)
            if n == FALSE:
                return True
            if n == TRUE:
                return False
            for f in self.ne:
                if b_eq(self.norm(f)) == n:
                    return True
            if self.entails_ge(e.addc(-1)):
                return True
            if self.entails_ge(e.neg().addc(-1)):
                return True
            return False
        if k == "b":
            v = self.bools.get(b[1])
            return v is not None and v == b[2]
        if k == "and":
            return all(self.entails(x) for x in b[1])
        if k == "or":
            return any(self.entails(x) for x in b[1])
        return False

    # -- refinement ---------------------------------------------------------------------------------------------------
    def copy(self):
        return Facts(self.tab, self.ge, self.ne, dict(self.sub), dict(self.bools))

    def assume(self, b):
        """Returns a list of refined Facts (disjunctions split), empty when contradictory."""
        k = b[0]
        if k == "c":
            return [self] if b[1] else []
        if k == "and":
            cur = [self]
            for x in b[1]:
                cur = [y for f in cur for y in f.assume(x)]
            return cur
        if k == "or":
            out = []
            f = self
            for x in b[1]:
                out.extend(f.assume(x))
                g = f.assume(b_not(x))
                if not g:
                    break
                if len(g) > 1:
                    # keep it simple: overlapping cases are allowed
                    continue
                f = g[0]
            return out
        if k == "b":
            v = self.bools.get(b[1])
            if v is not None:
                return [self] if v == b[2] else []
            f = self.copy()
            f.bools[b[1]] = b[2]
            return [f]
        if k == "ge":
            if self.entails(b):
                return [self]
            if self.entails(b_not(b)):
                return []
            e = tighten(self.norm(b[1]))
            # e >= 0 together with a known -e >= 0 is an equality
            if self.entails_ge(e.neg()):
                return self.assume(b_eq(e))
            f = self.copy()
            f.ge = self.ge + (e,)
            for d in f.ne:
                d = f.norm(d)
                n1 = b_eq(d)
                if n1 == b_eq(e) and n1[0] == "eq":
                    f.ge = self.ge + (e.addc(-1),)
                    if f.entails_ge(e.neg()):
                        return []
            return [f]
        if k == "ne":
            e = self.norm(b[1])
            n = b_eq(e)
            if n == FALSE:
                return [self]
            if n == TRUE:
                return []
            if self.entails(("ne", n[1])):
                return [self]
            if self.entails(n):
                return []
            if self.entails_ge(e):
                return self.assume(b_ge(e.addc(-1)))
            if self.entails_ge(e.neg()):
                return self.assume(b_ge(e.neg().addc(-1)))
            f = self.copy()
            f.ne = self.ne + (n[1],)
            return [f]
        if k == "eq":
            e = self.norm(b[1])
            n = b_eq(e)
            if n == TRUE:
                return [self]
            if n == FALSE:
                return []
            e = n[1]
            if not self.entails_ge(e) and self.entails_ge(e.neg().addc(-1)):
                return []
            if self.entails_ge(e.addc(-1)):
                return []
            if self.entails(("ne", e)):
                return []
            # pivot: unit coefficient, youngest atom first
            piv = None
            for a, q in reversed(e.t):
                if q in (1, -1) and self.tab.atoms[a].kind != "region":
                    piv = (a, q)
                    break
            f = self.copy()
            if piv is None:
                f.ge = self.ge + (e, e.neg())
                return [f]
            a, q = piv
            rest = Lin(e.c, tuple(x for x in e.t if x[0] != a)).scale(-q)
            at = self.tab.atoms[a]
            f.sub = {x: y.subst({a: rest}) for x, y in self.sub.items()}
            f.sub[a] = rest
            ge = []
            extra = []
            if at.lo is not None:
                extra.append(rest.addc(-at.lo))
            if at.hi is not None:
                extra.append(rest.neg().addc(at.hi))
            for ax in at.axioms:
                extra.append(f.norm(ax))
            for g in list(self.ge) + extra:
                g = tighten(f.norm(g))
                if g.is_const():
                    if g.c < 0:
                        return []
                    continue
                lo, _ = f.interval(g)
                if lo is not None and lo >= 0:
                    continue
                if g not in ge:
                    ge.append(g)
            f.ge = tuple(ge)
            f.ne = tuple(f.norm(x) for x in self.ne)
            for d in f.ne:
                if d.is_const() and d.c == 0:
                    return []
            return [f]
        # undef
        return [self]

    def consistent(self):
        """False only when the facts are definitely contradictory."""
        cons, _ = self._relevant(set(a for g in self.ge for a, _ in g.t))
        return fm_inconsistent(cons) is not True

    def satisfiable(self, atoms):
        """Is there a point in integers?  Rational reasoning is exact as long as all coefficients are units; elsewhere a
        point is looked for, and when none turns up the facts may describe nothing at all."""
        todo = set(atoms) | set(a for g in self.ge for a, _ in g.t)
        while todo:
            cons, seen = self._relevant([todo.pop()])
            todo -= seen
            if all(q in (1, -1) for e in cons for _, q in tighten(e).t):
                continue
            ne = [self.norm(d) for d in self.ne]
            ne = [d for d in ne if any(a in seen for a, _ in d.t)]
            if integer_point(cons, ne, set(a for a in seen if self.tab.atoms[a].axioms)) is None:
                return False
        return True
