"""Exact analysis of loop-free integer code: every path of the IR is followed with polynomials over the arguments, machine arithmetic is
exact (values are the signed reading of the bits, in range by construction; a wrap or an overflow is a separate branch), and infeasibility
of a branch or of the negation of an obligation is decided by Farkas certificates over the monomials (exact rational simplex), with
products of constraints by divisor signs. A refuted obligation is reported only with argument values that satisfy the path."""
import itertools
import re
from fractions import Fraction as F
from harness import *


class Unsup(Exception):
    pass


# ---------------------------------------------------------------- polynomials: {monomial (sorted tuple of names): int}
def pc(n):
    return {(): n} if n else {}


def pv(v):
    return {(v,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def pconst(a):
    if not a:
        return 0
    return a[()] if len(a) == 1 and () in a else None


def peval(a, env):
    t = 0
    for m, c in a.items():
        for v in m:
            c *= env[v]
        t += c
    return t


def key(p):
    return tuple(sorted(p.items()))


def pstr(p):
    return " + ".join("%d*%s" % (c, "*".join(m)) if m else str(c) for m, c in sorted(p.items())) or "0"


# ---------------------------------------------------------------- Farkas certificates
def infeasible_lp(cons):
    """exists l >= 0 with sum l_i cons_i = -1 as polynomials?"""
    mons = sorted({m for c in cons for m in c if m != ()})
    rows = [[F(c.get(m, 0)) for c in cons] for m in mons]
    rhs = [F(0)] * len(rows)
    rows.append([F(c.get((), 0)) for c in cons])
    rhs.append(F(-1))
    for c in cons:
        if len(c) == 1 and () in c and c[()] < 0:
            return True
    n = len(cons)
    m = len(rows)
    # scale the rows (the numbers are large)
    for i in range(m):
        if rhs[i] < 0:
            rows[i] = [-x for x in rows[i]]
            rhs[i] = -rhs[i]
    T = [r[:] + [F(1) if j == i else F(0) for j in range(m)] + [rhs[i]] for i, r in enumerate(rows)]
    z = [sum(T[i][j] for i in range(m)) for j in range(n)] + [F(0)] * m + [sum(rhs, F(0))]
    basis = [n + i for i in range(m)]
    it = 0
    while True:
        it += 1
        if it > 400:
            return False
        if z[-1] == 0:
            return True
        e = None
        for j in range(n):
            if z[j] > 0:
                e = j
                break
        if e is None:
            return z[-1] == 0
        r, best = None, None
        for i in range(m):
            if T[i][e] > 0:
                q = T[i][-1] / T[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[r]):
                    r, best = i, q
        if r is None:
            return False
        pvt = T[r][e]
        T[r] = [x / pvt if x else x for x in T[r]]
        tr = T[r]
        nz = [j for j, x in enumerate(tr) if x]
        for i in range(m):
            if i != r and T[i][e]:
                f = T[i][e]
                ti = T[i]
                for j in nz:
                    ti[j] -= f * tr[j]
        f = z[e]
        if f:
            for j in nz:
                z[j] -= f * tr[j]
        basis[r] = e


class PState:
    def __init__(s):
        s.cons, s.mem, s.defs, s.signs, s.n = [], {}, [], [], [0]

    def fork(s):
        t = PState()
        t.cons, t.mem, t.defs, t.signs, t.n = list(s.cons), dict(s.mem), list(s.defs), list(s.signs), s.n
        return t

    def fresh(s, nm):
        s.n[0] += 1
        return "%s%d" % (nm, s.n[0])

    def infeasible(s, extra=()):
        cons = [c for c in s.cons + list(extra)]
        # variables fixed to a constant
        for _ in range(4):
            lo, hi = {}, {}
            for c in cons:
                v = [m for m in c if m]
                if len(v) == 1 and len(v[0]) == 1:
                    a, b = c[v[0]], c.get((), 0)
                    x = v[0][0]
                    if a > 0:
                        lo[x] = max(lo.get(x, -(-b // a) if False else -(b // a)), -(b // a))
                    else:
                        hi[x] = min(hi.get(x, b // -a), b // -a)
                elif not v and c.get((), 0) < 0:
                    return True
            if any(x in hi and lo[x] > hi[x] for x in lo):
                return True
            fx = {x: lo[x] for x in lo if x in hi and lo[x] == hi[x]}
            if not fx:
                break

            def sub(p):
                r = {}
                for m, c in p.items():
                    k = tuple(v for v in m if v not in fx)
                    for v in m:
                        if v in fx:
                            c *= fx[v]
                    r[k] = r.get(k, 0) + c
                    if not r[k]:
                        del r[k]
                return r
            cons = [q for q in map(sub, cons) if q]
        seen, cs = set(), []
        for c in cons:
            k = key(c)
            if k not in seen:
                seen.add(k)
                cs.append(c)
        if infeasible_lp(cs):
            return True
        # products: constraints mentioning a quotient times the sign of its divisor; equalities times monomials of interest
        more = []
        ks = {key(c): c for c in cs}
        for q, sg in s.signs:
            for c in cs:
                if any(q in m for m in c) or any(set(m) & set(sum(sg, ())) and False for m in c):
                    more.append(pmul(c, sg))
        want = {m for c in cs + more for m in c if len(m) >= 2}
        for c in cs:
            if key(pneg(c)) in ks and c:
                for g in want:
                    for m in c:
                        if m:
                            r = list(g)
                            try:
                                for v in m:
                                    r.remove(v)
                            except ValueError:
                                continue
                            if r:
                                more.append(pmul(c, {tuple(r): 1}))
        if not more:
            return False
        return infeasible_lp(cs + more)

    def assume(s, p):
        """p >= 0"""
        k = pconst(p)
        if k is not None:
            return k >= 0
        s.cons.append(p)
        return not s.infeasible()

    def rng(s, p):
        """syntactic bounds of a polynomial from the constraints"""
        return None


def lim(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


class Exec:
    def __init__(s, mod, args):
        s.mod, s.reports, s.obl, s.ok, s.und, s.fns, s.args = mod, [], 0, 0, [], set(), args
        s.grid = None
        s.where = ("?", 0)
        s.paths = 0

    # ---- obligations
    def refuted(s, st, neg, kind, msg):
        """neg: list of alternatives (each a list of constraints) under which the obligation fails"""
        s.obl += 1
        alive = [n for n in neg if not st.infeasible(n)]
        if not alive:
            s.ok += 1
            return False
        w = s.witness(st, alive)
        if w is not None:
            s.reports.append((kind, msg, w, s.where))
        else:
            s.und.append("%s: %s" % (kind, msg))
        return True

    def witness(s, st, alts):
        names = list(s.args)
        for vals in s.candidates(names):
            env = dict(zip(names, vals))
            try:
                for d in st.defs:
                    env[d[0]] = s.evaldef(d, env)
            except ZeroDivisionError:
                continue
            if all(peval(c, env) >= 0 for c in st.cons) and any(all(peval(c, env) >= 0 for c in a) for a in alts):
                return {n: env[n] for n in names}
        return None

    def candidates(s, names):
        doms = []
        few = len(names) >= 3
        for n in names:
            lo, hi = s.args[n]
            h = hi.bit_length()
            v = [0, 1, 2, -1, -2, 3, -3, hi, lo, hi - 1, lo + 1, hi // 2, lo // 2, hi // 2 + 1, 7, 1 << (h // 2), -(1 << (h // 2))]
            if not few:
                v += [lo // 2 - 1, hi // 2 + 2, hi - 2, 5, 10, -5, -7, 1 << (h - 1), -(1 << (h - 1)), (1 << (h // 2)) - 1, (1 << (h // 2)) + 1, -(1 << (h // 2)) - 1, 1 << (h // 2 + 1), hi // 3, hi // 3 + 1, lo // 3, lo // 3 - 1, 1 << (h // 2 - 1), 1000003]
                v += [1 << k for k in range(2, h, 3)] + [-(1 << k) for k in range(2, h, 3)]
            doms.append([x for x in dict.fromkeys(v) if lo <= x <= hi])
        return itertools.product(*doms)

    @staticmethod
    def evaldef(d, env):
        _, k, x, y = d
        x = peval(x, env)
        if k == "wrap":
            return (x + (1 << (y - 1))) % (1 << y) - (1 << (y - 1))
        if k == "mono":
            return x
        y = peval(y, env)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return q

    # ---- machine arithmetic
    def wrap(s, st, p, w):
        lo, hi = lim(w)
        k = pconst(p)
        if k is not None:
            return [(st, pc((k - lo) % (1 << w) + lo), False)]
        out = []
        a = st.fork()
        if a.assume(padd(p, pc(-lo))) and a.assume(padd(pc(hi), p, -1)):
            out.append((a, p, False))
        for sg in (1, -1):
            b = st.fork()
            if not b.assume(padd(p, pc(-hi - 1)) if sg > 0 else padd(pc(lo - 1), p, -1)):
                continue
            c = b.fork()
            far = c.assume(padd(p, pc(-hi - 1 - (1 << w))) if sg > 0 else padd(pc(lo - 1 - (1 << w)), p, -1))
            if not far:
                out.append((b, padd(p, pc(-sg << w)), True))
            else:
                v = b.fresh("w")
                b.defs.append((v, "wrap", p, w))
                b.cons += [padd(pv(v), pc(-lo)), padd(pc(hi), pv(v), -1)]
                out.append((b, pv(v), True))
        return out

    def uns(s, st, p, w):
        """the unsigned reading of a signed value"""
        k = pconst(p)
        if k is not None:
            return [(st, pc(k % (1 << w)))]
        out = []
        a = st.fork()
        if a.assume(p):
            out.append((a, p))
        b = st.fork()
        if b.assume(padd(pc(-1), p, -1)):
            out.append((b, padd(p, pc(1 << w))))
        return out

    def sgn(s, st, p, w):
        return [(x, v) for x, v, _ in s.wrap(st, p, w)]

    def divide(s, st, a, b, want):
        """truncating division of mathematical integers, b != 0"""
        out = []
        ca, cb = pconst(a), pconst(b)
        if ca is not None and cb is not None:
            q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
            return [(st, pc(q if want == "q" else ca - q * cb))]
        for sb in (1, -1):
            x = st.fork()
            if not x.assume(padd({m: sb * c for m, c in b.items()}, pc(-1))):
                continue
            for sa in (1, -1):
                y = x.fork()
                if not y.assume(padd({m: sa * c for m, c in a.items()}, pc(0 if sa > 0 else -1))):
                    continue
                q = None
                for d in y.defs:
                    if d[1] == "div" and key(d[2]) == key(a) and key(d[3]) == key(b):
                        q = d[0]
                if q is None:
                    q = y.fresh("q")
                    y.defs.append((q, "div", a, b))
                    y.signs.append((q, padd({m: sb * c for m, c in b.items()}, pc(-1))))
                    r = padd(a, pmul(pv(q), b), -1)
                    ab = {m: sb * c for m, c in b.items()}
                    # remainder has the sign of a, |r| < |b|
                    y.cons.append({m: sa * c for m, c in r.items()})
                    y.cons.append(padd(padd(ab, pc(-1)), {m: sa * c for m, c in r.items()}, -1))
                    y.cons.append({(q,): sa * sb})
                r = padd(a, pmul(pv(q), b), -1)
                out.append((y, pv(q) if want == "q" else r))
        return out

    # ---- execution
    def val(s, st, env, v, ty):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if k == "i":
            if ty.k == "int" and ty.w == 1:
                return v[1] & 1
            lo, hi = lim(ty.w)
            return pc((v[1] - lo) % (1 << ty.w) + lo)
        if k == "null":
            return ("p", None, 0)
        if k in ("undef", "zero"):
            if ty.k == "int":
                return 0 if ty.w == 1 else pc(0)
            if ty.k == "struct":
                return [None] * len(ty.el)
        if k == "g":
            return ("p", v[1], 0)
        raise Unsup("operand %s" % (v,))

    def call(s, st, name, args, depth=0):
        """-> [(state, return value)]; aborting paths are recorded"""
        if depth > 12:
            raise Unsup("call depth")
        fn = s.mod.fn(name)
        s.fns.add(name)
        env = {}
        for (t, n, _), a in zip(fn.params, args):
            env[n] = a
        return s.block(fn, fn.order[0], None, env, st, depth, 0)

    def block(s, fn, bn, prev, env, st, depth, steps):
        if steps > 60:
            raise Unsup("loop")
        b = fn.blocks[bn]
        new = {}
        for ph in b.phis:
            for v, p in ph.x:
                if p == prev:
                    new[ph.res] = s.val(st, env, v, ph.ty)
        env = dict(env)
        env.update(new)
        return s.run(fn, b, 0, env, st, depth, steps)

    def run(s, fn, b, i, env, st, depth, steps):
        ins = b.ins
        while True:
            I = ins[i]
            i += 1
            op = I.op
            if I.dbg:
                s.where = s.mod.loc(I.dbg) or s.where
            if op == "ret":
                return [(st, s.val(st, env, I.a[0], I.ty) if I.a else None)]
            if op == "unreachable":
                return []
            if op == "br":
                if not I.a:
                    return s.block(fn, I.x[0], b.name, env, st, depth, steps + 1)
                c = s.val(st, env, I.a[0], IR.INT(1))
                return s.block(fn, I.x[0] if c else I.x[1], b.name, env, st, depth, steps + 1)
            if op == "phi":
                continue
            rs = s.step(I, env, st, depth)
            if len(rs) == 1:
                st = rs[0][0]
                if I.res:
                    env[I.res] = rs[0][1]
                continue
            out = []
            for x, v in rs:
                e = dict(env)
                if I.res:
                    e[I.res] = v
                w = s.where
                out += s.run(fn, b, i, e, x, depth, steps)
                s.where = w
            return out

    def step(s, I, env, st, depth):
        op = I.op
        if op == "alloca":
            n = st.fresh("al")
            return [(st, ("p", n, 0))]
        if op == "load":
            p = s.val(st, env, I.a[0], IR.PTR)
            v = st.mem.get((p[1], p[2]))
            if v is None:
                raise Unsup("load of an unset cell")
            if v == "init":
                raise Unsup("load of the initial flag")
            return [(st, v)]
        if op == "store":
            v = s.val(st, env, I.a[0], I.ty)
            p = s.val(st, env, I.a[1], IR.PTR)
            if p[0] != "p":
                raise Unsup("store")
            st = st.fork()
            st.mem[(p[1], p[2])] = v
            return [(st, None)]
        if op in ("add", "sub", "mul"):
            a, c = s.val(st, env, I.a[0], I.ty), s.val(st, env, I.a[1], I.ty)
            w = I.ty.w
            if w == 1:
                raise Unsup("i1 arithmetic")
            r = padd(a, c) if op == "add" else padd(a, c, -1) if op == "sub" else pmul(a, c)
            if op == "mul":
                st = s.mccormick(st, a, c)
            lo, hi = lim(w)
            if "nsw" in I.x:
                s.refuted(st, [[padd(r, pc(-hi - 1))], [padd(pc(lo - 1), r, -1)]], "ub", "signed overflow of %s" % op)
                x = st.fork()
                if not (x.assume(padd(r, pc(-lo))) and x.assume(padd(pc(hi), r, -1))):
                    return []
                return [(x, r)]
            if op != "mul":
                return s.sgn(st, r, w)
            out = []
            for x, ua in s.uns(st, a, w):
                for y, uc in s.uns(x, c, w):
                    r = pmul(ua, uc)
                    y = s.mccormick(y, ua, uc)
                    z = y.fork()
                    if z.assume(padd(pc((1 << w) - 1), r, -1)):       # fits as an unsigned number
                        out += s.sgn(z, r, w)
                    z = y.fork()
                    if z.assume(padd(r, pc(-(1 << w)))):
                        out += s.sgn(z, r, w)
            return out
        if op in ("sdiv", "srem", "udiv", "urem"):
            a, c = s.val(st, env, I.a[0], I.ty), s.val(st, env, I.a[1], I.ty)
            w = I.ty.w
            lo, hi = lim(w)
            out = []
            if op[0] == "u":
                pairs = [(y, ua, uc) for x, ua in s.uns(st, a, w) for y, uc in s.uns(x, c, w)]
            else:
                pairs = [(st, a, c)]
                s.refuted(st, [[padd(pc(lo), a, -1), padd(c, pc(1)), padd(pc(-1), c, -1)]], "ub", "the smallest integer divided by -1")
            for x, ua, uc in pairs:
                s.refuted(x, [[uc, pneg(uc)]], "ub", "division by zero")
                for y, r in s.divide(x, ua, uc, "q" if op.endswith("div") else "r"):
                    out += s.sgn(y, r, w)
            return out
        if op in ("zext", "sext", "trunc"):
            v = s.val(st, env, I.a[0], I.x)
            if I.x.w == 1:
                return [(st, pc(v if op == "zext" else -v))]
            if op == "sext":
                return [(st, v)]
            if op == "zext":
                return s.uns(st, v, I.x.w)
            if I.ty.w == 1:
                k = pconst(v)
                if k is not None:
                    return [(st, k & 1)]
                raise Unsup("trunc to i1")
            return s.sgn(st, v, I.ty.w)
        if op == "icmp":
            a, c = s.val(st, env, I.a[0], I.ty), s.val(st, env, I.a[1], I.ty)
            pr = I.x
            if not isinstance(a, dict) or not isinstance(c, dict):
                if isinstance(a, int) and isinstance(c, int):
                    return [(st, int({"eq": a == c, "ne": a != c}[pr]))]
                raise Unsup("pointer comparison")
            w = I.ty.w
            if pr[0] == "u":
                pairs = [(y, ua, uc) for x, ua in s.uns(st, a, w) for y, uc in s.uns(x, c, w)]
                pr = "s" + pr[1:]
            else:
                pairs = [(st, a, c)]
            out = []
            for x, l, r in pairs:
                d = padd(l, r, -1)
                alts = {"sgt": [(padd(d, pc(-1)), 1), (pneg(d), 0)], "sge": [(d, 1), (padd(pc(-1), d, -1), 0)],
                        "slt": [(padd(pc(-1), d, -1), 1), (d, 0)], "sle": [(pneg(d), 1), (padd(d, pc(-1)), 0)]}.get(pr)
                if alts is None:
                    t = 1 if pr == "eq" else 0
                    y = x.fork()
                    if y.assume(d) and y.assume(pneg(d)):
                        out.append((y, t))
                    for q in (padd(d, pc(-1)), padd(pc(-1), d, -1)):
                        y = x.fork()
                        if y.assume(q):
                            out.append((y, 1 - t))
                    continue
                for q, t in alts:
                    y = x.fork()
                    if y.assume(q):
                        out.append((y, t))
            return out
        if op == "select":
            c = s.val(st, env, I.a[0], IR.INT(1))
            return [(st, s.val(st, env, I.a[1 if c else 2], I.ty))]
        if op in ("and", "or", "xor"):
            a, c = s.val(st, env, I.a[0], I.ty), s.val(st, env, I.a[1], I.ty)
            if I.ty.w == 1:
                return [(st, {"and": a & c, "or": a | c, "xor": a ^ c}[op])]
            ka, kc = pconst(a), pconst(c)
            if ka is not None and kc is not None:
                return [(st, pc({"and": ka & kc, "or": ka | kc, "xor": ka ^ kc}[op]))]
            if op == "xor" and kc == -1:
                return [(st, padd(pc(-1), a, -1))]
            if op == "and" and kc is not None and kc > 0 and kc & (kc + 1) == 0:
                out = []
                for x, u in s.uns(st, a, I.ty.w):
                    out += s.divide(x, u, pc(kc + 1), "r")
                return out
            raise Unsup(op)
        if op in ("shl", "lshr", "ashr"):
            a, c = s.val(st, env, I.a[0], I.ty), s.val(st, env, I.a[1], I.ty)
            k = pconst(c)
            if k is None or not 0 <= k < I.ty.w:
                raise Unsup("shift")
            if op == "shl":
                return s.sgn(st, {m: x << k for m, x in a.items()}, I.ty.w)
            out = []
            for x, u in (s.uns(st, a, I.ty.w) if op == "lshr" else [(st, a)]):
                if op == "ashr":
                    y = x.fork()
                    if y.assume(padd(pc(-1), u, -1)):
                        for z, q in s.divide(y, padd(u, pc(1)), pc(1 << k), "q"):
                            out.append((z, padd(q, pc(-1))))
                    y = x.fork()
                    if not y.assume(u):
                        continue
                    x = y
                out += s.divide(x, u, pc(1 << k), "q")
            return out
        if op == "extractvalue":
            v = s.val(st, env, I.a[0], I.ty)
            return [(st, v[I.x[0]])]
        if op == "insertvalue":
            v = s.val(st, env, I.a[0], I.ty)
            v = list(v)
            v[I.x[0]] = env[I.a[1][1]] if I.a[1][0] == "r" else None
            return [(st, v)]
        if op == "freeze":
            return [(st, s.val(st, env, I.a[0], I.ty))]
        if op == "getelementptr":
            p = s.val(st, env, I.a[0][1], IR.PTR)
            if all(x[1] == ("i", 0) for x in I.a[1:]):
                return [(st, p)]
            raise Unsup("gep")
        if op == "call":
            nm = I.x
            if nm.startswith("@llvm.dbg") or nm.startswith("@llvm.lifetime"):
                return [(st, None)]
            args = [s.val(st, env, a[1], a[0]) if a[0].k != "metadata" else None for a in I.a]
            m = re.match(r"@llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)", nm)
            if m:
                w = int(m.group(3))
                out = []
                if m.group(1) == "s":
                    pairs = [(st, args[0], args[1])]
                else:
                    pairs = [(y, ua, uc) for x, ua in s.uns(st, args[0], w) for y, uc in s.uns(x, args[1], w)]
                for x, a, c in pairs:
                    r = padd(a, c) if m.group(2) == "add" else padd(a, c, -1) if m.group(2) == "sub" else pmul(a, c)
                    if m.group(2) == "mul":
                        x = s.mccormick(x, a, c)
                    lo, hi = lim(w) if m.group(1) == "s" else (0, (1 << w) - 1)
                    y = x.fork()
                    if y.assume(padd(r, pc(-lo))) and y.assume(padd(pc(hi), r, -1)):
                        out += [(z, [v, 0]) for z, v in s.sgn(y, r, w)]
                    for q in (padd(r, pc(-hi - 1)), padd(pc(lo - 1), r, -1)):
                        y = x.fork()
                        if y.assume(q):
                            out += [(z, [v, 1]) for z, v in s.sgn(y, r, w)]
                return out
            if nm in ("@abort", "@_ZSt9terminatev", "@llvm.trap") or "terminate" in nm:
                s.aborts.append((st, s.where))
                return []
            m = re.match(r"@llvm\.(smax|smin|umax|umin)\.i(\d+)", nm)
            if m:
                a, c = args
                out = []
                w = int(m.group(2))
                pairs = [(st, a, c)] if m.group(1)[0] == "s" else [(y, ua, uc) for x, ua in s.uns(st, a, w) for y, uc in s.uns(x, c, w)]
                for x, l, r in pairs:
                    y = x.fork()
                    if y.assume(padd(l, r, -1)):
                        out.append((y, a if m.group(1).endswith("max") else c))
                    y = x.fork()
                    if y.assume(padd(padd(r, l, -1), pc(-1))):
                        out.append((y, c if m.group(1).endswith("max") else a))
                return out
            if s.mod.has(nm):
                w = s.where
                r = s.call(st, nm, args, depth + 1)
                s.where = w
                return [s.name(x, v, I.ty) for x, v in r]
            raise Unsup("call of " + nm)
        raise Unsup(op)

    def name(s, st, v, ty):
        """a product returned by a helper gets a name of its own (defined as a monomial), so that what follows is analysed as for any value"""
        if isinstance(v, dict) and ty.k == "int" and len(v) == 1:
            m, c = next(iter(v.items()))
            if c == 1 and len(m) >= 2:
                st = st.fork()
                for d in st.defs:
                    if d[1] == "mono" and d[2] == v:
                        return st, pv(d[0])
                n = st.fresh("m")
                lo, hi = lim(ty.w)
                # the value is in the range of its type by construction
                st.defs.append((n, "mono", v, None))
                if st.infeasible([padd(pc(-1), v, -1)]):
                    lo = 0
                st.cons += [padd(pv(n), pc(-lo)), padd(pc(hi), pv(n), -1)]
                return st, pv(n)
        return st, v

    @staticmethod
    def fold(st, p):
        """the polynomial with the named products of the state"""
        for d in st.defs:
            if d[1] == "mono":
                (dm, _), = d[2].items()
                r = {}
                for m, c in p.items():
                    l = list(m)
                    try:
                        for v in dm:
                            l.remove(v)
                        m = tuple(sorted(l + [d[0]]))
                    except ValueError:
                        pass
                    r[m] = r.get(m, 0) + c
                p = {m: c for m, c in r.items() if c}
        return p

    def mccormick(s, st, a, c):
        """bounds of the operands multiplied out"""
        if pconst(a) is not None or pconst(c) is not None:
            return st
        sa, sc = set(a) - {()}, set(c) - {()}
        x = st.fork()
        have = {key(q) for q in x.cons}
        fa = [q for q in st.cons if set(q) - {()} <= sa]
        fc = [q for q in st.cons if set(q) - {()} <= sc]
        for p in fa:
            for q in fc:
                r = pmul(p, q)
                if key(r) not in have:
                    have.add(key(r))
                    x.cons.append(r)
        return x
