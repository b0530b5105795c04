"""Floating-point code judged as arithmetic over the real numbers: leaves are unknown reals, the comparisons decided on a path are
linear constraints between them.  The constraints are homogeneous, so they have a real solution exactly when they have an integer one."""
from fractions import Fraction
from ilstr2 import *
from blasmodel import ring, ring_eq
import struct


def number(text):
    """value of an IR floating-point constant"""
    t = str(text)
    if t.startswith("0x") and len(t) == 18:
        return Fraction(struct.unpack(">d", bytes.fromhex(t[2:]))[0])
    return Fraction(t)


class Undetermined(Exception):
    pass


def poly(v):
    """polynomial of the leaves of a floating-point expression"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, Term):
        if v.op == "fop":
            o = v.a[0]
            if o == "fadd":
                return poly(v.a[1]) + poly(v.a[2])
            if o == "fsub":
                return poly(v.a[1]) - poly(v.a[2])
            if o == "fmul":
                return poly(v.a[1]) * poly(v.a[2])
            if o == "fneg":
                return -poly(v.a[1])
            if o == "fmuladd":
                return poly(v.a[1]) * poly(v.a[2]) + poly(v.a[3])
            if o == "fdiv":
                d = poly(v.a[2]).const()
                n = poly(v.a[1])
                if d == 1:
                    return n
                return S(T.get("real", "quot", (n, poly(v.a[2]))))
        if v.op in ("fpext", "fptrunc"):
            return poly(v.a[0])
        if v.op in ("sitofp", "uitofp") and isinstance(v.a[0], Poly):
            return v.a[0]
        if v.op == "const":
            try:
                c = number(v.a[0])
            except ValueError:
                raise Undetermined(str(v))
            if c.denominator == 1:
                return C(int(c))
            return S(T.get("real", "const", (str(c),)))
        if v.op in ("unk", "undef"):
            raise Undetermined(str(v))
        return S(T.get("real", "r", (v,)))
    raise Undetermined(str(v))


def quot(n, d):
    c = d.const() if isinstance(d, Poly) else d
    return n if c == 1 else S(T.get("real", "quot", (n, d if isinstance(d, Poly) else C(d))))


REL = {"gt": (1, -1, 1), "ge": (1, -1, 0), "lt": (-1, 1, 1), "le": (-1, 1, 0)}


def decided(st):
    """comparisons of reals decided on the path: [(relation, a, b, truth)]"""
    out = []
    ids = sorted(set(i for p, _ in st.cons for i in p.syms()))
    for i in ids:
        if T.info[i][0] != "pred" or not T.info[i][1].startswith("fcmp_"):
            continue
        if st.ent(S(i) - 1):
            t = True
        elif st.ent(-S(i)):
            t = False
        else:
            continue
        out.append((T.info[i][1][5:], T.info[i][2][0], T.info[i][2][1], t))
    return out


def world(st):
    """the same path with its comparisons of reals as constraints; None when no numbers take it"""
    w = st.fork()
    alt = [w]
    for rel, a, b, t in decided(st):
        if rel == "uno":
            if t:
                return []
            continue
        if rel == "ord":
            if not t:
                return []
            continue
        try:
            d = poly(a) - poly(b)
        except Undetermined:
            continue
        r = rel[1:]
        if not t:
            r = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt", "eq": "ne", "ne": "eq"}[r]
        nxt = []
        for x in alt:
            for q, eq in ([(d - 1, False)] if r == "gt" else [(d, False)] if r == "ge" else [(-d - 1, False)] if r == "lt" else [(-d, False)] if r == "le"
                          else [(d, True)] if r == "eq" else [(d - 1, False), (-d - 1, False)]):
                y = x.fork()
                if y.assume(q, eq) and feasible(y.cons):
                    nxt.append(y)
        alt = nxt
    return alt


def r_max(ask, xs):
    m = xs[0]
    for x in xs[1:]:
        if not ask.ge(m - x):
            m = x
    return m


def r_min(ask, xs):
    m = xs[0]
    for x in xs[1:]:
        if not ask.ge(x - m):
            m = x
    return m


def r_abs(ask, x):
    return x if ask.ge(x) else -x


def undecided(cx, msg):
    cx.E.obl += 1
    cx.E.reports.append(Report("post", "undecided", ("case", 0), msg, None, cx.case.name))


def check(cx, st, v, spec, what):
    """v equals spec(ask) for all reals"""
    if v is None:
        return
    try:
        p = poly(v)
    except Undetermined as e:
        undecided(cx, "%s: value not determined (%s)" % (what, e))
        return
    for w in world(st):
        for x, e in outcomes(w, spec):
            cx.expect(x, p - e, "post", what, True)
