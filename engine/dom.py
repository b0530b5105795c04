"""Numeric abstract domain: conjunctions of polynomial constraints (p >= 0, p == 0) over integer symbols,
with exact linear entailment on monomials plus product lemmas.  No solver is involved."""
from math import gcd
import buildlp
buildlp.ensure()
import domc


# ---------------------------------------------------------------- symbols
class SymTab:
    def __init__(s):
        s.key2id = {}
        s.info = []      # (kind, name, args)
        s.fresh = 0

    def get(s, kind, name, args=()):
        k = (kind, name, args)
        i = s.key2id.get(k)
        if i is None:
            i = len(s.info)
            s.info.append(k)
            s.key2id[k] = i
        return i

    def new(s, name, kind="v"):
        s.fresh += 1
        return s.get(kind, "%s#%d" % (name, s.fresh))


T = SymTab()


def symname(i):
    k, n, a = T.info[i]
    return n if not a else "%s(%s)" % (n, ",".join(map(str, a)))


class Poly:
    __slots__ = ("t", "_h", "_s", "_k", "_i")

    def __init__(s, t):
        s.t = t          # dict: tuple(sorted syms) -> int
        s._h = None
        s._s = None
        s._k = None
        s._i = None

    def key(s):
        if s._k is None:
            s._k = frozenset(s.t.items())
        return s._k

    def __hash__(s):
        if s._h is None:
            s._h = hash(s.key())
        return s._h

    def __eq__(s, o):
        return isinstance(o, Poly) and s.t == o.t

    def __ne__(s, o):
        return not s == o

    def __add__(s, o):
        if isinstance(o, int):
            o = C(o)
        if not o.t:
            return s
        if not s.t:
            return o
        r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(s):
        return Poly({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        if isinstance(o, int):
            o = C(o)
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if isinstance(o, int):
            if o == 0:
                return ZERO
            if o == 1:
                return s
            return Poly({m: c * o for m, c in s.t.items()})
        r = {}
        for m1, c1 in s.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def const(s):
        """int if constant else None"""
        if not s.t:
            return 0
        if len(s.t) == 1 and () in s.t:
            return s.t[()]
        return None

    def c0(s):
        return s.t.get((), 0)

    def syms(s):
        if s._s is None:
            x = set()
            for m in s.t:
                x.update(m)
            s._s = frozenset(x)
        return s._s

    def divexact(s, n):
        if n == 1:
            return s
        for c in s.t.values():
            if c % n:
                return None
        return Poly({m: c // n for m, c in s.t.items()})

    def coef1(s, v):
        """(coefficient poly of v, rest) if v occurs only linearly, else None"""
        a, r = {}, {}
        for m, c in s.t.items():
            k = m.count(v)
            if k == 0:
                r[m] = c
            elif k == 1:
                mm = list(m)
                mm.remove(v)
                a[tuple(mm)] = c
            else:
                return None
        return Poly(a), Poly(r)

    def __str__(s):
        if not s.t:
            return "0"
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]), x[0])):
            n = "*".join(symname(i) for i in m)
            if not m:
                out.append("%+d" % c)
            elif c == 1:
                out.append("+" + n)
            elif c == -1:
                out.append("-" + n)
            else:
                out.append("%+d*%s" % (c, n))
        r = "".join(out)
        return r[1:] if r[0] == "+" else r

    __repr__ = __str__


def C(n):
    return Poly({(): n}) if n else ZERO


ZERO = Poly({})
ONE = C(1)


def S(i):
    return Poly({(i,): 1})


def fresh(name, kind="v"):
    return S(T.new(name, kind))


# ---------------------------------------------------------------- terms (uninterpreted values)
class Term:
    __slots__ = ("op", "a", "_h")

    def __init__(s, op, *a):
        s.op, s.a, s._h = op, a, None

    def __hash__(s):
        if s._h is None:
            s._h = hash((s.op, s.a))
        return s._h

    def __eq__(s, o):
        return isinstance(o, Term) and s.op == o.op and s.a == o.a

    def __ne__(s, o):
        return not s == o

    def __repr__(s):
        return "%s(%s)" % (s.op, ",".join(map(str, s.a))) if s.a else s.op


class Ptr:
    __slots__ = ("o", "off")

    def __init__(s, o, off):
        s.o, s.off = o, off

    def __hash__(s):
        return hash((s.o, s.off))

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.o == o.o and s.off == o.off

    def __ne__(s, o):
        return not s == o

    def __repr__(s):
        return "&%s+%s" % (s.o, s.off) if s.o is not None else "null+%s" % s.off


class B:
    """boolean formula"""
    __slots__ = ("op", "a")

    def __init__(s, op, *a):
        s.op, s.a = op, a

    def __hash__(s):
        return hash((s.op, s.a))

    def __eq__(s, o):
        return isinstance(o, B) and s.op == o.op and s.a == o.a

    def __repr__(s):
        return "%s(%s)" % (s.op, ",".join(map(str, s.a)))


class Agg:
    __slots__ = ("v",)

    def __init__(s, v):
        s.v = tuple(v)

    def __hash__(s):
        return hash(s.v)

    def __eq__(s, o):
        return isinstance(o, Agg) and s.v == o.v

    def __repr__(s):
        return "{%s}" % ",".join(map(str, s.v))


# ---------------------------------------------------------------- substitution (deep)
def vsyms(v, acc=None):
    """all symbols occurring in a value, including inside structured symbols"""
    if acc is None:
        acc = set()
    if isinstance(v, Poly):
        for i in v.syms():
            if i not in acc:
                acc.add(i)
                for x in T.info[i][2]:
                    vsyms(x, acc)
    elif isinstance(v, (Term, B)):
        for x in v.a:
            vsyms(x, acc)
    elif isinstance(v, Ptr):
        vsyms(v.off, acc)
    elif isinstance(v, Agg):
        for x in v.v:
            vsyms(x, acc)
    elif isinstance(v, tuple):
        for x in v:
            vsyms(x, acc)
    return acc


def subst(v, m):
    """m: {sym: Poly}"""
    if isinstance(v, Poly):
        if not v.t:
            return v
        hit = False
        mm = m
        for i in v.syms():
            if i in m:
                hit = True
            elif T.info[i][2]:
                k, n, a = T.info[i]
                a2 = tuple(subst(x, m) for x in a)
                if a2 != a:
                    if mm is m:
                        mm = dict(m)
                    mm[i] = S(T.get(k, n, a2))
                    hit = True
        if not hit:
            return v
        r = {}
        out = ZERO
        for mo, c in v.t.items():
            if not any(i in mm for i in mo):
                x = r.get(mo, 0) + c
                if x:
                    r[mo] = x
                else:
                    r.pop(mo, None)
            else:
                t = C(c)
                for i in mo:
                    t = t * (mm[i] if i in mm else S(i))
                out = out + t
        return Poly(r) + out
    if isinstance(v, Term):
        if not v.a:
            return v
        a = tuple(subst(x, m) for x in v.a)
        return v if a == v.a else Term(v.op, *a)
    if isinstance(v, Ptr):
        o = subst(v.off, m)
        return v if o is v.off else Ptr(v.o, o)
    if isinstance(v, B):
        a = tuple(subst(x, m) for x in v.a)
        return v if a == v.a else B(v.op, *a)
    if isinstance(v, Agg):
        return Agg(subst(x, m) for x in v.v)
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    return v


# ---------------------------------------------------------------- constraints
# constraint = (Poly, iseq)   meaning  p >= 0  or p == 0
def norm(p, eq):
    """normalise; returns True / False / (p, eq)"""
    c = p.const()
    if c is not None:
        return (c == 0) if eq else (c >= 0)
    g = 0
    for m, k in p.t.items():
        if m:
            g = gcd(g, abs(k))
            if g == 1:
                break
    if g > 1:
        c0 = p.t.get((), 0)
        if eq:
            if c0 % g:
                return False
            p = Poly({m: k // g for m, k in p.t.items()})
        else:
            r = {m: k // g for m, k in p.t.items() if m}
            f = c0 // g
            if f:
                r[()] = f
            p = Poly(r)
    if eq:
        # canonical sign
        m = min(x for x in p.t if x)
        if p.t[m] < 0:
            p = -p
    return (p, eq)


def nonneg_syms(cons):
    """symbols proved >= 0 by chains of constraints  c*x - (non-negative terms) - k >= 0"""
    nn = set()
    left = []
    for p, eq in cons:
        for q in ((p, -p) if eq else (p,)):
            pos = None
            others = ()
            ok = q.t.get((), 0) <= 0
            if ok:
                for m, c in q.t.items():
                    if not m:
                        continue
                    if c > 0:
                        if pos is not None or len(m) != 1:
                            ok = False
                            break
                        pos = m[0]
                    else:
                        others += m
            if ok and pos is not None:
                if others:
                    left.append((pos, others))
                else:
                    nn.add(pos)
    changed = bool(left)
    while changed:
        changed = False
        for pos, others in left:
            if pos not in nn and all(i in nn for i in others):
                nn.add(pos)
                changed = True
    return nn


def feasible(cons, goalsyms=None):
    """rational feasibility of a conjunction of constraints, with product lemmas (engine/domc.cpp)"""
    if not domc.feasible(cons if type(cons) is list else list(cons), goalsyms):
        return False
    # rows with huge constants overflow the exact solver: bound propagation
    for p, eq in cons:
        c0 = p.t.get((), 0)
        if c0 >= (1 << 62) or c0 <= -(1 << 62):
            if _interval(cons, -p - 1) is True or (eq and _interval(cons, p - 1) is True):
                return False
    return True


def entails(cons, p, eq=False):
    """cons |= p >= 0 (or == 0)"""
    r = norm(p, eq)
    if r is True:
        return True
    if eq:
        if r is not False and r in cons:
            return True
        if r is False:
            return not feasible(cons)
        return entails(cons, p) and entails(cons, -p)
    if r is False:
        return not feasible(cons)
    if r in cons:
        return True
    if abs(r[0].c0()) >= (1 << 40):
        q = _interval(cons, r[0])
        if q is not None:
            return q
    return not feasible(list(cons) + [(-r[0] - 1, False)], r[0].syms())


def _interval(cons, p):
    """p >= 0 by the bounds of single symbols; None if they do not settle it (huge constants overflow the exact solver)"""
    b = {}
    for q, eq in cons:
        if len(q.t) <= 2:
            ms = [m for m in q.t if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                a, c0 = q.t[ms[0]], q.t.get((), 0)
                lo, hi = b.get(ms[0], (None, None))
                if a > 0 or eq:
                    v = -(c0 // a) if a > 0 else None
                    if v is not None:
                        lo = v if lo is None else max(lo, v)
                if a < 0 or eq:
                    v = c0 // -a if a < 0 else (-c0) // a
                    hi = v if hi is None else min(hi, v)
                b[ms[0]] = (lo, hi)
    # bound propagation over the linear rows, for the symbols the goal reaches
    rows = []
    for q, eq in cons:
        rows.append(q)
        if eq:
            rows.append(-q)
    for _ in range(4):
        ch = False
        for q in rows:
            for m, a in q.t.items():
                if not m:
                    continue
                # a*m >= -(rest); upper bound of the rest
                r = q.t.get((), 0)
                for m2, a2 in q.t.items():
                    if not m2 or m2 == m:
                        continue
                    lo, hi = b.get(m2, (None, None))
                    x = hi if a2 > 0 else lo
                    if x is None:
                        break
                    r += a2 * x
                else:
                    lo, hi = b.get(m, (None, None))
                    if a > 0:
                        v = -(r // a)
                        if lo is None or v > lo:
                            b[m] = (v, hi)
                            ch = True
                    else:
                        v = r // -a
                        if hi is None or v < hi:
                            b[m] = (lo, v)
                            ch = True
        if not ch:
            break
    mn = mx = 0
    for m, c in p.t.items():
        if not m:
            mn, mx = mn + c if mn is not None else None, mx + c if mx is not None else None
            continue
        lo, hi = b.get(m, (None, None))
        l, h = (lo, hi) if c > 0 else (hi, lo)
        mn = None if mn is None or l is None else mn + c * l
        mx = None if mx is None or h is None else mx + c * h
    if mn is not None and mn >= 0:
        return True
    if mx is not None and mx < 0:
        return False
    return None


# ---------------------------------------------------------------- concretisation: an integer point of the abstract element
def witness(cons, maxv=7, budget=60000):
    """find an integer assignment satisfying all constraints (small values first); None if not found"""
    cs = []
    for p, eq in cons:
        r = norm(p, eq)
        if r is False:
            return None
        if r is True:
            continue
        cs.append(r)
    cs = list(dict.fromkeys(cs))
    syms = sorted(set(i for p, _ in cs for i in p.syms()))
    if not syms:
        return {}
    occ = {}
    for ci, (p, _) in enumerate(cs):
        for i in p.syms():
            occ.setdefault(i, []).append(ci)
    steps = [0]
    work = [0]

    def mono_bounds(m, dom):
        lo, hi = 1, 1
        for i in m:
            a, b = dom[i]
            xs = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(xs), max(xs)
        return lo, hi

    def propagate(dom, todo):
        todo = list(todo)
        inq = set(todo)
        n = 0
        while todo:
            n += 1
            work[0] += 1
            if n > 4000:
                return True
            ci = todo.pop()
            inq.discard(ci)
            p, eq = cs[ci]
            # interval of each term
            tl, th = 0, 0
            bs = []
            for m, c in p.t.items():
                if not m:
                    tl += c
                    th += c
                    continue
                l, h = mono_bounds(m, dom)
                if c < 0:
                    l, h = c * h, c * l
                else:
                    l, h = c * l, c * h
                bs.append((m, c, l, h))
                tl += l
                th += h
            if th < 0 or (eq and tl > 0):
                return False
            for m, c, l, h in bs:
                if len(m) != 1:
                    # x*y with y fixed
                    free = [i for i in m if dom[i][0] != dom[i][1]]
                    if len(free) != 1:
                        continue
                    k = c
                    for i in m:
                        if i != free[0]:
                            k *= dom[i][0]
                    if k == 0:
                        continue
                    v = free[0]
                else:
                    v, k = m[0], c
                a, b = dom[v]
                # k*v + rest >= 0, rest <= th-h   => k*v >= -(th-h)
                need = -(th - h)
                na, nb = a, b
                if k > 0:
                    x = -((-need) // k)
                    na = max(na, x)
                else:
                    x = need // k if need % k == 0 else (need // k)
                    # k<0: v <= need/k ; floor
                    nb = min(nb, (-need) // (-k))
                if eq:
                    need2 = -(tl - l)      # k*v <= need2
                    if k > 0:
                        nb = min(nb, need2 // k)
                    else:
                        na = max(na, -(need2 // (-k)))
                if na > nb:
                    return False
                if (na, nb) != (a, b):
                    dom[v] = (na, nb)
                    for cj in occ[v]:
                        if cj not in inq:
                            inq.add(cj)
                            todo.append(cj)
                    # recompute totals lazily: restart this constraint
                    if ci not in inq:
                        inq.add(ci)
                        todo.append(ci)
                    break
        return True

    def dfs(dom):
        steps[0] += 1
        if steps[0] > budget or work[0] > 250000:
            return None
        best = None
        for i in syms:
            a, b = dom[i]
            if a != b and (best is None or b - a < best[1] - best[0] or (b - a == best[1] - best[0] and len(occ[i]) > len(occ[best[2]]))):
                best = (a, b, i)
        if best is None:
            for p, eq in cs:
                v = 0
                for m, c in p.t.items():
                    for i in m:
                        c *= dom[i][0]
                    v += c
                if v < 0 or (eq and v):
                    return None
            return {i: dom[i][0] for i in syms}
        a, b, i = best
        vals = sorted(range(a, b + 1), key=lambda x: (abs(x - 3), x)) if b - a < 400 else list(range(a, a + 40)) + list(range(b - 20, b))
        for x in vals:
            d2 = dict(dom)
            d2[i] = (x, x)
            if propagate(d2, occ[i]):
                r = dfs(d2)
                if r is not None:
                    return r
            if steps[0] > budget or work[0] > 250000:
                return None
        return None

    for mv in (maxv, 40):
        base = {}
        for i in syms:
            w = T.info[i][0]
            base[i] = (256, 256 + 7) if w == "addr" else ((-(1 << 13), 1 << 13) if w in ("div", "rem") and any(T.info[k][0] == "addr" for k in syms) else (-mv, mv))
        # widen by constants that occur
        big = [abs(c) for p, _ in cs for m, c in p.t.items() if not m and abs(c) > mv]
        if big:
            bm = min(max(big) + 8, 1 << 40)
            for p, _ in cs:
                c0 = abs(p.t.get((), 0))
                if c0 > mv:
                    for i in p.syms():
                        base[i] = (min(base[i][0], -min(c0 + 8, 1 << 40)), max(base[i][1], min(c0 + 8, 1 << 40)))
        if not propagate(base, range(len(cs))):
            continue
        r = dfs(base)
        if r is not None:
            return r
    return None
