"""Abstract interpreter for LLVM IR: polyhedral numeric domain, disjunctive (trace partitioned) states,
loop acceleration (one generic iteration, effects quantified over all earlier iterations) and
array-segment heap regions described by a log of quantified effects."""
import math
import sys
from dom import *
import ir as IR

sys.setrecursionlimit(20000)


class Stop(Exception):
    pass


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ("prev", "ev", "n")

    def __init__(s, prev, ev):
        s.prev, s.ev, s.n = prev, ev, (prev.n + 1 if prev else 1)


class Ev:
    __slots__ = ("kind", "off", "size", "val", "q", "g", "loc", "fuzzy")

    def __init__(s, kind, off, size, val, q=(), g=(), loc=None, fuzzy=False):
        s.kind, s.off, s.size, s.val, s.q, s.g, s.loc, s.fuzzy = kind, off, size, val, tuple(q), tuple(g), loc, fuzzy

    def subst(s, m):
        if s.kind == "cells":
            return Ev("cells", None, 0, {o: (n, k, subst(v, m)) for o, (n, k, v) in s.val.items()}, s.q, s.g, s.loc, s.fuzzy)
        g = []
        for p, e in s.g:
            r = norm(subst(p, m), e)
            if r is True:
                continue
            if r is False:
                return None
            g.append(r)
        if s.kind == "copy":
            return Ev(s.kind, subst(s.off, m), s.size, (snap_subst(s.val[0], m), subst(s.val[1], m)), s.q, g, s.loc, s.fuzzy)
        return Ev(s.kind, subst(s.off, m), s.size, subst(s.val, m), s.q, g, s.loc, s.fuzzy)

    def __repr__(s):
        return "%s[%s:%s]=%s q=%s g=%s%s" % (s.kind, s.off, s.size, s.val, [symname(x) for x in s.q], s.g, " FUZZY" if s.fuzzy else "")


class Snap:
    """snapshot of an object's contents (source of a copy event)"""
    __slots__ = ("oid", "log", "cells")

    def __init__(s, oid, log, cells):
        s.oid, s.log, s.cells = oid, log, cells

    def __repr__(s):
        return "snap(%s)" % s.oid

    def __hash__(s):
        return id(s)


def snap_syms(snap, acc=None):
    """symbols the contents of a snapshot depend on"""
    acc = set() if acc is None else acc
    for (_, _, v) in snap.cells.values():
        vsyms(v, acc)
    node = snap.log
    while node is not None:
        e = node.ev
        if e.kind == "cells":
            for (_, _, v) in e.val.values():
                vsyms(v, acc)
        elif e.kind == "copy":
            vsyms((e.off, tuple(e.g), e.val[1]), acc)
            snap_syms(e.val[0], acc)
        elif e.kind != "havoc":
            vsyms((e.off, tuple(e.g), e.val), acc)
        node = node.prev
    return acc


def snap_subst(snap, m):
    """the snapshot with symbols replaced in everything it holds (a counter of a loop made definite, or bound by a quantifier)"""
    if not (snap_syms(snap) & set(m)):
        return snap
    chain = []
    node = snap.log
    last = 0
    ks = set(m)
    while node is not None:
        chain.append(node)
        if snap_syms(Snap(snap.oid, Node(None, node.ev), {})) & ks:
            last = len(chain)
        node = node.prev
    log = snap.log
    if last:
        log = chain[last - 1].prev
        for n_ in reversed(chain[:last]):
            e = n_.ev if n_.ev.kind == "havoc" else n_.ev.subst(m)
            if e is not None:
                log = Node(log, e)
    return Snap(snap.oid, log, {o: (n, k, subst(v, m)) for o, (n, k, v) in snap.cells.items()})


class Obj:
    __slots__ = ("id", "kind", "size", "alive", "log", "cells", "probe", "name", "ro")

    def __init__(s, id, kind, size, name, probe=False):
        s.id, s.kind, s.size, s.name, s.probe = id, kind, size, name, probe
        s.alive, s.log, s.cells, s.ro = True, None, {}, False

    def copy(s):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.alive, o.log, o.cells, o.probe, o.name, o.ro = s.id, s.kind, s.size, s.alive, s.log, dict(s.cells), s.probe, s.name, s.ro
        return o


class St:
    __slots__ = ("cons", "objs", "approx", "nheap", "trace", "cset", "gh")

    def __init__(s):
        s.cons = []
        s.cset = set()
        s.objs = {}
        s.approx = None
        s.nheap = 0
        s.trace = ()
        s.gh = None        # specification state of a spec module (immutable, or copied by copy())

    def fork(s):
        t = St.__new__(St)
        t.cons = list(s.cons)
        t.cset = set(s.cset)
        t.objs = dict(s.objs)
        t.approx, t.nheap, t.trace = s.approx, s.nheap, s.trace
        t.gh = s.gh.copy() if s.gh is not None else None
        return t

    # ---- constraints
    def add(s, p, eq=False):
        """returns False if trivially contradictory"""
        r = norm(p, eq)
        if r is True:
            return True
        if r is False:
            return False
        if r not in s.cset:
            s.cset.add(r)
            s.cons.append(r)
        return True

    def assume(s, p, eq=False):
        """add and check feasibility"""
        r = norm(p, eq)
        if r is True:
            return True
        if r is False:
            return False
        if r in s.cset:
            return True
        if not feasible(s.cons + [r], r[0].syms()):
            return False
        s.cset.add(r)
        s.cons.append(r)
        return True

    def ent(s, p, eq=False):
        r = norm(p, eq)
        if r is True:
            return True
        if r is not False and r in s.cset:
            return True
        return entails(s.cons, p, eq)

    def wobj(s, oid):
        o = s.objs[oid].copy()
        s.objs[oid] = o
        return o


def neg(p):
    return -p - 1


GE = lambda p: B("ge", p)
EQ = lambda p: B("eq", p)


def bnot(b):
    if b is True or b is False:
        return not b
    if b.op == "ge":
        return B("ge", neg(b.a[0]))
    if b.op == "eq":
        return B("ne", b.a[0])
    if b.op == "ne":
        return B("eq", b.a[0])
    if b.op == "not":
        return b.a[0]
    if b.op == "and":
        return B("or", *[bnot(x) for x in b.a])
    if b.op == "or":
        return B("and", *[bnot(x) for x in b.a])
    raise Unsupported("not " + b.op)


def simplify(b):
    if isinstance(b, B):
        if b.op in ("ge", "eq", "ne"):
            c = b.a[0].const()
            if c is not None:
                return c >= 0 if b.op == "ge" else c == 0 if b.op == "eq" else c != 0
    return b


class Report:
    def __init__(s, kind, verdict, loc, msg, wit=None, fn=None, stack=()):
        s.kind, s.verdict, s.loc, s.msg, s.wit, s.fn, s.stack = kind, verdict, loc, msg, wit, fn, stack

    def key(s):
        return (s.kind, s.loc, s.fn)


IMPRECISE = ("unk", "undefunk", "byte", "bitor")


class Engine:
    def __init__(s, mod, models=None, max_states=4000, max_steps=400000):
        s.mod = mod
        s.models = dict(MODELS)
        if models:
            s.models.update(models)
        s.reports = []           # violations / undecided
        s.proved = 0
        s.obl = 0
        s.sites = set()
        s.aborts = []
        s.quiet = 0              # >0: obligations not recorded
        s.nobj = 0
        s.gone = {}              # stack objects whose function has returned
        s.steps = 0
        s.max_steps = max_steps
        s.max_rec = 2
        s.stack = []
        s.fninfo = {}
        s.unsupported = {}
        s.fnseen = set()
        s.loopstat = [0, 0]
        s.curins = None
        s.qfail = 0
        s.opaque_ok = True

    # ------------------------------------------------ objects
    def new_obj(s, st, kind, size, name, probe=False):
        s.nobj += 1
        oid = "%s~%d" % (name, s.nobj)
        o = Obj(oid, kind, size, name, probe)
        st.objs[oid] = o
        return oid

    def where(s):
        if s.curins is None:
            return ("?", 0)
        return s.mod.loc(s.curins.dbg)

    def fresh_unk(s, st, why=""):
        return Term("unk", T.new("unk", "unk"))

    # ------------------------------------------------ obligations
    def oblige(s, st, p, kind, msg, eq=False):
        """p >= 0 (or == 0) must hold in st. Returns True if execution may go on (the condition is then assumed)."""
        if s.quiet:
            if s.quiet_probe is not None and not st.ent(p, eq):
                s.quiet_probe.append(kind)
            return st.assume(p, eq)
        s.obl += 1
        loc = s.where()
        s.sites.add((loc, kind))
        if st.ent(p, eq):
            s.proved += 1
            return True
        negs = [neg(p)] if not eq else [neg(p), p - 1]
        done = False
        for q in negs:
            cs = st.cons + [r for r in [norm(q, False)] if r not in (True, False)]
            if norm(q, False) is False or not feasible(cs):
                continue
            s.record(st, cs, kind, "%s [%s violates %s %s 0]" % (msg, "", p, "==" if eq else ">="))
            done = True
            break
        if not done:
            s.proved += 1
        return st.assume(p, eq)

    def violate(s, st, kind, msg):
        """the path reached a state that is wrong in itself"""
        if s.quiet:
            if s.quiet_probe is not None:
                s.quiet_probe.append(kind)
            return
        s.obl += 1
        s.sites.add((s.where(), kind))
        if not feasible(st.cons):
            s.proved += 1
            return
        s.record(st, st.cons, kind, msg)

    quiet_probe = None

    def record(s, st, cons, kind, msg):
        imp = None
        if st.approx:
            imp = st.approx
        else:
            for p, e in cons:
                for i in vsyms(p):
                    if T.info[i][0] in IMPRECISE:
                        imp = "depends on unknown value " + symname(i)
                        break
                if imp:
                    break
        w = None
        if imp is None:
            w = witness(cons)
            if w is None:
                imp = "no small concretisation found"
        loc = s.where()
        fn = s.stack[-1] if s.stack else "?"
        if imp:
            s.reports.append(Report(kind, "undecided", loc, msg + " (" + imp + ")", None, fn, tuple(s.stack)))
        else:
            ws = ", ".join("%s=%d" % (symname(i), v) for i, v in sorted(w.items()) if T.info[i][0] not in ("addr",))
            s.reports.append(Report(kind, "violation", loc, msg, ws, fn, tuple(s.stack)))

    # ------------------------------------------------ case splitting
    def split(s, st, b):
        """-> list of (state, truth) ; each feasible"""
        b = simplify(b)
        if b is True or b is False:
            return [(st, b)]
        out = []
        for t in (True, False):
            for x in s.refine(st, b if t else bnot(b)):
                out.append((x, t))
        return out

    def refine(s, st, b):
        """states of st where b holds (disjoint cases)"""
        b = simplify(b)
        if b is True:
            return [st.fork()]
        if b is False:
            return []
        if b.op == "ge":
            x = st.fork()
            return [x] if x.assume(b.a[0]) else []
        if b.op == "eq":
            x = st.fork()
            return [x] if x.assume(b.a[0], True) else []
        if b.op == "ne":
            out = []
            p = b.a[0]
            for q in (p - 1, -p - 1):
                x = st.fork()
                if x.assume(q):
                    out.append(x)
            return out
        if b.op == "and":
            cur = [st]
            for c in b.a:
                cur = [y for x in cur for y in s.refine(x, c)]
            return cur
        if b.op == "or":
            out, cur = [], [st]
            for c in b.a:
                nxt = []
                for x in cur:
                    out += s.refine(x, c)
                    nxt += s.refine(x, bnot(c))
                cur = nxt
            return out
        if b.op == "not":
            return s.refine(st, bnot(b.a[0]))
        raise Unsupported("refine " + b.op)

    # ------------------------------------------------ memory: queries
    def _guards(s, st, conds):
        """-> (match_state or None, [nomatch states])"""
        cur = st
        no = []
        for p, eq in conds:
            r = norm(p, eq)
            if r is True or (r is not False and r in cur.cset):
                continue
            if r is False:
                if cur is st:
                    return None, [st]
                no.append(cur)
                return None, no
            if cur.ent(p, eq):
                continue
            for q in ([neg(p)] if not eq else [neg(p), p - 1]):
                x = cur.fork()
                if x.assume(q):
                    no.append(x)
            y = cur.fork()
            if not y.assume(p, eq):
                return None, no
            cur = y
        return (cur if cur is not st else st.fork()), no

    def _polydiv(s, num, d):
        """multivariate division by d w.r.t. its leading monomial; (quotient, remainder)"""
        lead = max((m for m in d.t), key=lambda m: (len(m), m))
        lc = d.t[lead]
        q, r = ZERO, num
        for _ in range(64):
            hit = None
            for m, c in r.t.items():
                if len(m) >= len(lead) and c % lc == 0:
                    mm = list(m)
                    ok = True
                    for i in lead:
                        if i in mm:
                            mm.remove(i)
                        else:
                            ok = False
                            break
                    if ok:
                        hit = Poly({tuple(mm): c // lc})
                        break
            if hit is None:
                break
            q = q + hit
            r = r - hit * d
        return q, r

    def _ground(s, st, guards):
        x = st.fork()
        for p, e in guards:
            x.add(p, e)
        return x

    def match(s, st, ev, off, size):
        """-> (matches [(st, subst)], nomatch [st], maybe [st])"""
        if not ev.q:
            d = off - ev.off
            dd = d.const()
            if dd is not None and ev.size is not None:
                if dd == 0:
                    if ev.size == size:
                        m, no = s._guards(st, ev.g)
                        return ([(m, {})] if m else []), no, []
                    m, no = s._guards(st, ev.g)
                    return [], no, ([m] if m else [])
                if dd >= ev.size or -dd >= size:
                    return [], [st], []
                m, no = s._guards(st, ev.g)
                return [], no, ([m] if m else [])
            if ev.size == size and d.divexact(size) is not None:
                m, no = s._guards(st, [(d, True)] + list(ev.g))
                return ([(m, {})] if m else []), no, []
            # sizes differ or unaligned: disjoint / equal / overlap
            outm, outno, outmaybe = [], [], []
            for p in (d - ev.size, -d - size):
                x = st.fork()
                if x.assume(p):
                    outno.append(x)
            x = st.fork()
            if x.assume(ev.size - 1 - d) and x.assume(size - 1 + d):
                m, no = s._guards(x, ev.g)
                outno += no
                if m:
                    if ev.size == size and m.ent(d, True):
                        outm.append((m, {}))
                    elif ev.size == size:
                        y = m.fork()
                        if y.assume(d, True):
                            outm.append((y, {}))
                        for q in (d - 1, -d - 1):
                            y = m.fork()
                            if y.assume(q):
                                outmaybe.append(y)
                    else:
                        outmaybe.append(m)
            return outm, outno, outmaybe
        # quantified event
        coefs = []
        a0 = ev.off
        for k in ev.q:
            r = a0.coef1(k)
            if r is None:
                return s._maybe(st, ev)
            a, a0 = r
            coefs.append((k, a))
        zero = [k for k, a in coefs if not a.t]
        coefs = [(k, a) for k, a in coefs if a.t]
        for k, a in coefs:
            if any(z in a.syms() for z in ev.q):
                return s._maybe(st, ev)
        if zero:
            if any(z in vsyms(ev.val) for z in zero):
                return s._maybe(st, ev, off, size)
            # value independent of k: match iff some k in range; guards on zero vars must be pure range [0,hi)
            ev2, ok = s._drop_zero(st, ev, zero)
            if not ok:
                return s._maybe(st, ev, off, size)
            return s.match(st, ev2, off, size)
        coefs.sort(key=lambda x: (-max(len(m) for m in x[1].t), -max(abs(c) for c in x[1].t.values())))
        num = off - a0
        sol = {}
        if len(coefs) == 1 and coefs[0][1].const() is not None:
            k, a = coefs[0]
            c = a.const()
            x = num.divexact(c)
            if x is None:
                rest = Poly({m: v for m, v in num.t.items() if m})
                r = num.c0() % abs(c)
                if rest.divexact(c) is not None and ev.size <= r and size <= abs(c) - r:
                    return [], [st], []
                return s._maybe(st, ev, off, size)
            sol[k] = x
            if abs(c) < ev.size or ev.size != size:
                if abs(c) < ev.size:
                    return s._maybe(st, ev, off, size)
                # element written is larger/smaller than the read
                m, no = s._guards(st, [(subst(p, sol), e) for p, e in ev.g])
                return [], no, ([m] if m else [])
            m, no = s._guards(st, [(subst(p, sol), e) for p, e in ev.g])
            return ([(m, sol)] if m else []), no, []
        # delinearise: largest stride first
        if ev.size != size:
            return s._maybe(st, ev, off, size)
        gst = None
        for i, (k, a) in enumerate(coefs):
            if i == len(coefs) - 1:
                c = a.const()
                if c is not None:
                    x = num.divexact(c)
                    if x is None:
                        return s._maybe(st, ev, off, size)
                    sol[k] = x
                    num = ZERO
                    break
            if gst is None:
                gst = s._ground(st, ev.g)
                if not feasible(gst.cons):
                    return [], [st], []
            evrest = ZERO
            for k2, a2 in coefs[i + 1:]:
                evrest = evrest + S(k2) * a2
            flip = not gst.ent(a - 1) and gst.ent(-a - 1)
            if flip:
                a = -a
            q, r = s._polydiv(num, a)
            row = False
            deltas = [ZERO]
            dl = s._polydiv(a0, a)[1]
            if dl.t:
                deltas.append(dl)
            dl = Poly({m: c for m, c in a0.t.items() if off.t.get(m) != c})
            if dl.t and dl not in deltas:
                deltas.append(dl)
            for dl in deltas:
                if gst.ent(evrest + dl) and gst.ent(a - evrest - dl - 1) and st.ent(r + dl) and st.ent(a - r - dl - 1):
                    row = True
                    break
            if not row:
                return s._maybe(st, ev, off, size)
            sol[k] = -q if flip else q
            num = r
        conds = []
        if num.t:
            conds.append((num, True))
        conds += [(subst(p, sol), e) for p, e in ev.g]
        m, no = s._guards(st, conds)
        return ([(m, sol)] if m else []), no, []

    def _drop_zero(s, st, ev, zero):
        g = list(ev.g)
        for z in zero:
            mine = [(p, e) for p, e in g if z in vsyms(p)]
            rest = [c for c in g if c not in mine]
            los, his = [], []
            for p, e in mine:
                r = p.coef1(z)
                if e or r is None or z in vsyms(r[1]):
                    return None, False
                a = r[0].const()
                if a == 1:
                    los.append(-r[1])
                elif a == -1:
                    his.append(r[1])
                else:
                    return None, False
            for lo in los:
                for hi in his:
                    rest.append((hi - lo, False))
            g = rest
        return Ev(ev.kind, ev.off, ev.size, ev.val, [k for k in ev.q if k not in zero], g, ev.loc, ev.fuzzy), True

    def _enumerated(s, st, ev, oc, size):
        """all sizes are definite: go through the instances of the event one by one"""
        if not (vsyms(ev.off) | vsyms(ev.g)) <= set(ev.q):
            return None
        lo, hi = {}, {}
        for p, eq in ev.g:
            y = list(p.syms())
            if len(y) != 1 or eq:
                continue
            r = p.coef1(y[0])
            if r is None or r[0].const() is None or r[1].const() is None:
                continue
            a, b = r[0].const(), r[1].const()
            if a > 0:
                lo[y[0]] = max(lo.get(y[0], -(1 << 60)), -(b // a))
            else:
                hi[y[0]] = min(hi.get(y[0], 1 << 60), b // -a)
        n = 1
        for z in ev.q:
            if z not in lo or z not in hi:
                return None
            n *= max(0, hi[z] - lo[z] + 1)
        if n > 4096:
            return None
        hit = []
        cur = [{}]
        for z in ev.q:
            cur = [dict(c, **{}) | {z: C(v)} for c in cur for v in range(lo[z], hi[z] + 1)]
        for m in cur:
            o = subst(ev.off, m).const()
            if o is None:
                return None
            if o >= oc + size or oc >= o + ev.size:
                continue
            ok = True
            for p, eq in ev.g:
                c = subst(p, m).const()
                if c is None:
                    return None
                if c < 0 or (eq and c):
                    ok = False
                    break
            if ok:
                hit.append((o, m))
        if not hit:
            return [], [st], []
        if len(hit) == 1 and hit[0][0] == oc and ev.size == size:
            return [(st.fork(), hit[0][1])], [], []
        return None

    def _maybe(s, st, ev, off=None, size=None):
        x = s._ground(st, ev.g)
        if not feasible(x.cons):
            return [], [st], []
        if off is not None and ev.q and ev.size is not None and off.const() is not None:
            r = s._enumerated(st, ev, off.const(), size)
            if r is not None:
                return r
        if off is not None:
            # can any instance overlap at all?
            d = off - ev.off
            x.add(ev.size - 1 - d)
            x.add(size - 1 + d)
            if not feasible(x.cons):
                return [], [st], []
        if s.debug:
            print("   MAYBE", ev, "at", off)
        return [], [], [st]

    debug = False

    def query(s, st, snap, off, size, probe=False, depth=0):
        """-> list of (st, status, val); status: 'raw' | 'live'"""
        out = []
        work = [(st, snap.cells, snap.log, off)]
        res = []
        while work:
            st, cells, node, off = work.pop()
            # cells first
            oc = off.const()
            if cells:
                r = s._query_cells(st, cells, off, size)
                if r is not None:
                    hits, misses = r
                    out += hits
                    for x in misses:
                        work.append((x, None, node, off))
                    continue
            if node is None:
                out.append((st, "raw", Term("undef")))
                continue
            ev = node.ev
            if ev.kind == "cells":
                work.append((st, ev.val, node.prev, off))
                continue
            if ev.kind == "havoc":
                out.append((st, "unk", s.fresh_unk(st)))
                continue
            ms, nos, mbs = s.match(st, ev, off, size)
            for x in nos:
                work.append((x, None, node.prev, off))
            for x in mbs:
                if ev.kind == "copy":
                    r = s._copy_partial(x, ev, off, size, probe, depth)
                    if r is not None:
                        out += r
                        continue
                if s.debug:
                    print("   maybe->unk", ev, "read", off, size)
                out.append((x, "unk", s.fresh_unk(x)))
            for x, sol in ms:
                if ev.fuzzy:
                    if s.debug:
                        print('   fuzzy->unk', ev, 'read', off)
                    out.append((x, "unk", s.fresh_unk(x)))
                    continue
                if ev.kind == "copy":
                    sn, soff = ev.val
                    out += s.query(x, snap_subst(sn, sol), subst(soff, sol), size, probe, depth + 1)
                elif ev.kind == "dtor":
                    out.append((x, "raw", Term("destroyed")))
                else:
                    out.append((x, "live", subst(ev.val, sol)))
        return out

    def _copy_partial(s, st, ev, off, size, probe, depth):
        """read of `size` bytes inside a block copy whose granule differs"""
        if len(ev.q) != 1:
            return None
        j = ev.q[0]
        r = ev.off.coef1(j)
        if r is None:
            return None
        a, base = r
        c = a.const()
        if c is None or c != ev.size:
            return None
        sn, soff = ev.val
        r2 = soff.coef1(j)
        if j in snap_syms(sn):
            return None
        if r2 is None or r2[0].const() != c:
            return None
        # length: guards must be 0<=j, j<=hi
        hi = None
        for p, e in ev.g:
            rr = p.coef1(j)
            if rr is None:
                return None
            if rr[0].const() == -1 and not e:
                hi = rr[1] if hi is None else hi
                h = rr[1]
        if hi is None:
            return None
        d = off - base
        tot = (hi + 1) * c
        x = st.fork()
        if x.ent(d) and x.ent(tot - d - size):
            return s.query(x, sn, r2[1] + d, size, probe, depth + 1)
        return None

    def _query_cells(s, st, cells, off, size):
        oc = off.const()
        if oc is not None:
            c = cells.get(oc)
            if c is not None and c[0] == size:
                return [(st, "live" if c[1] != "dtor" else "raw", c[2])], []
            ov = [(o, c) for o, c in cells.items() if o < oc + size and oc < o + c[0]]
            if not ov:
                return [], [st]
            v = s.compose(st, ov, oc, size)
            return [(st, "live", v)], []
        hits = []
        cur = [st]
        for o, c in cells.items():
            nxt = []
            for x in cur:
                d = off - o
                if d.divexact(size) is not None and c[0] == size or (c[0] == size and size == 1):
                    if x.ent(d - 1) or x.ent(-d - 1):
                        nxt.append(x)
                        continue
                    y = x.fork()
                    if y.assume(d, True):
                        hits.append((y, "live" if c[1] != "dtor" else "raw", c[2]))
                    for q in (d - 1, -d - 1):
                        y = x.fork()
                        if y.assume(q):
                            nxt.append(y)
                else:
                    # overlap possible?
                    if x.ent(d - c[0]) or x.ent(-d - size):
                        nxt.append(x)
                        continue
                    for q in (d - c[0], -d - size):
                        y = x.fork()
                        if y.assume(q):
                            nxt.append(y)
                    y = x.fork()
                    if y.assume(c[0] - 1 - d) and y.assume(size - 1 + d):
                        # split the byte out of a constant/word cell per offset
                        done = False
                        if size == 1 and c[0] <= 8:
                            for b in range(c[0]):
                                z = y.fork()
                                if z.assume(d - b, True):
                                    hits.append((z, "live", s.compose(z, [(o, c)], o + b, 1)))
                            done = True
                        if not done:
                            hits.append((y, "unk", s.fresh_unk(y)))
            cur = nxt
        return hits, cur

    def compose(s, st, ov, oc, size):
        """little-endian composition of a read from overlapping constant-offset cells"""
        # single larger cell: extract
        if len(ov) == 1:
            o, (n, k, v) = ov[0]
            if o <= oc and oc + size <= o + n and isinstance(v, Poly):
                sh = (oc - o) * 8
                hiw = size * 8
                r = s.bits(st, v, sh, hiw, n * 8)
                if r is not None:
                    return r
            if o <= oc and oc + size <= o + n and isinstance(v, Term) and v.op in ("undef",):
                return v
            if size == 1 and isinstance(v, (Poly, Term)) and not (isinstance(v, Term) and v.op == "unk") and n in (2, 4, 8):
                return S(T.get("byte", "byte", (v, oc - o, n)))
            return s.fresh_unk(st)
        ov = sorted(ov)
        whole = s._bytes_of(ov, oc, size)
        if whole is not None:
            return whole
        pos = oc
        tot = ZERO
        for o, (n, k, v) in ov:
            if o != pos or not isinstance(v, Poly):
                return s.fresh_unk(st)
            u = s.unsigned(st, v, n * 8)
            if u is None:
                return s.fresh_unk(st)
            tot = tot + u * (1 << (8 * (o - oc)))
            pos = o + n
        if pos != oc + size:
            return s.fresh_unk(st)
        return s.resign(st, tot, size * 8)

    def _bytes_of(s, ov, oc, size):
        """the value whose bytes, in order, these cells are"""
        if len(ov) != size or ov[0][0] != oc:
            return None
        w = None
        for k, (o, (n, kind, v)) in enumerate(ov):
            if o != oc + k or n != 1 or not isinstance(v, Poly) or len(v.t) != 1:
                return None
            (m, c), = v.t.items()
            if c != 1 or len(m) != 1:
                return None
            i = T.info[m[0]]
            if i[0] != "byte" or i[2][1] != k or i[2][2] != size:
                return None
            if w is None:
                w = i[2][0]
            elif w != i[2][0]:
                return None
        return w

    def unsigned(s, st, v, w):
        """unsigned reading of a (signed canonical) integer value"""
        c = v.const()
        if c is not None:
            return C(c % (1 << w))
        if st.ent(v):
            return v
        if st.ent(-v - 1):
            return v + (1 << w)
        return None

    def resign(s, st, v, w):
        c = v.const()
        if c is not None:
            c %= (1 << w)
            return C(c - (1 << w) if c >= (1 << (w - 1)) else c)
        if st.ent((1 << (w - 1)) - 1 - v) and st.ent(v + (1 << (w - 1))):
            return v
        if st.ent(v - (1 << (w - 1))) and st.ent((1 << w) - 1 - v):
            return v - (1 << w)
        return v

    def bits(s, st, v, sh, w, total):
        """bits [sh, sh+w) of v, signed canonical"""
        u = s.unsigned(st, v, total)
        if u is None:
            return None
        c = u.const()
        if c is not None:
            return s.resign(st, C((c >> sh) & ((1 << w) - 1)), w)
        q = s.udivmod(st, u, 1 << sh)
        if q is None:
            return None
        q = q[0]
        if sh + w < total:
            q2 = s.udivmod(st, q, 1 << w)
            if q2 is None:
                return None
            q = q2[1]
        return s.resign(st, q, w)

    def udivmod(s, st, u, n):
        """u = q*n + r with 0<=r<n; syntactic split of u into multiples of n"""
        if n == 1:
            return u, ZERO
        hi = Poly({m: c for m, c in u.t.items() if c % n == 0})
        lo = u - hi
        if st.ent(lo) and st.ent(n - 1 - lo):
            return hi.divexact(n), lo
        c0 = u.c0()
        # move a multiple of n from the constant
        k = c0 // n
        lo2 = u - hi + 0
        for adj in (k, k + 1, k - 1):
            h = Poly({m: c for m, c in u.t.items() if c % n == 0 and m}) + adj * n
            l = u - h
            if st.ent(l) and st.ent(n - 1 - l):
                return h.divexact(n), l
        return None

    # ------------------------------------------------ memory: access
    def check_access(s, st, p, size, what):
        """bounds/null/liveness obligations; returns Obj or None (path ends)"""
        if not isinstance(p, Ptr):
            if isinstance(p, Term) and p.op == "undef":
                s.violate(st, "uninit", "%s through an uninitialised pointer" % what)
                return None
            if isinstance(p, Poly) and p.const() is not None:
                s.violate(st, "null", "%s through an invalid pointer" % what)
                return None
            return "unk"
        if p.o is None:
            s.violate(st, "null", "%s through a null pointer" % what)
            return None
        o = st.objs.get(p.o)
        if o is None:
            if p.o in s.gone:
                s.violate(st, "uaf", "%s of a local variable of a function that has returned" % what)
                return None
            return "unk"
        if o.kind == "opaque":
            return "unk"
        if not o.alive:
            s.violate(st, "uaf", "%s of released storage (%s)" % (what, o.name))
            return None
        if isinstance(size, int):
            size = C(size)
        if o.size is not None:
            if not s.oblige(st, p.off, "bounds", "%s before the start of %s (size %s)" % (what, o.name, o.size)):
                return None
            if not s.oblige(st, o.size - p.off - size, "bounds", "%s at offset %s past the end of %s (size %s)" % (what, p.off, o.name, o.size)):
                return None
        return o

    def load(s, st, p, size, ty, what="read"):
        """-> list of (st, val)"""
        o = s.check_access(st, p, size, what)
        if o is None:
            return []
        if o == "unk":
            return [(st, s.unk_of(st, ty))]
        out = []
        if s.quiet_discover and o.log is not None and p.off.const() is None:
            return [(st, s.unk_of(st, ty))]
        if ty.k == "int" and size in (4, 8) and o.cells and o.log is None and not o.probe:
            r = s.partial_word(o, p.off.const(), size)
            if r is not None:
                return [(st, r)]
        if ty.k == "vector" and size == 8 and not o.probe and ty.el is not None and ty.el.k == "float" and ty.n == 2:
            for x, lo in s.load(st, p, 4, ty.el, what):
                for y, hi in s.load(x, Ptr(p.o, p.off + 4), 4, ty.el, what):
                    out.append((y, Term("pair", lo, hi)))
            return out
        for x, status, v in s.query(st, Snap(o.id, o.log, o.cells), p.off, size, o.probe):
            if o.probe and status == "raw":
                # reading the bytes of an element that is not alive
                if v.op == "destroyed":
                    s.violate(x, "life", "%s of a destroyed object in %s" % (what, o.name))
                    continue
            out.append((x, s.conv(x, v, ty)))
        return out

    quiet_discover = False

    def partial_word(s, o, oc, size):
        """a word of which only some bytes were written, or which holds narrower numbers: it can only be copied as a whole"""
        if oc is None:
            return None
        ov = sorted((k, c) for k, c in o.cells.items() if k < oc + size and oc < k + c[0])
        if not ov or ov[0][0] < oc or ov[-1][0] + ov[-1][1][0] > oc + size or ov[0][1][0] == size:
            return None
        pieces = [(k - oc, c[0], c[2]) for k, c in ov if not (isinstance(c[2], Term) and c[2].op == "undef")]
        missing = sum(n for _, n, _ in pieces) < size
        if not pieces or not (missing or any(not isinstance(v, Poly) for _, _, v in pieces)):
            return None
        return S(T.get("undef" if missing else "unk", "raw%d" % size, (Term("raw", *[x for q in pieces for x in q]),)))

    def unk_of(s, st, ty):
        k = ty.k
        if k == "int":
            if ty.w == 1:
                return B("eq", S(T.new("unk", "unk")))
            return S(T.new("unk", "unk"))
        if k == "ptr":
            oid = "unkobj%d" % (len(st.objs))
            s.nobj += 1
            oid = "unkobj%d" % s.nobj
            o = Obj(oid, "opaque", None, "unk")
            st.objs[oid] = o
            return Ptr(oid, ZERO)
        if k in ("struct", "array", "vector"):
            if k == "struct":
                return Agg([s.unk_of(st, e) for e in (ty.el or [])])
            return Term("unk", T.new("unk", "unk"))
        return Term("unk", T.new("unk", "unk"))

    def conv(s, st, v, ty):
        """coerce a memory value to the IR type"""
        k = ty.k
        if k == "int":
            if isinstance(v, (Poly, B)) or v is True or v is False:
                if ty.w == 1 and isinstance(v, Poly):
                    return s.tobool(v)
                return v
            if isinstance(v, Term):
                if v.op == "unk":
                    r = S(T.get("unk", "unkval", (v,)))
                elif v.op == "undef":
                    r = S(T.new("undef", "undef"))
                else:
                    r = S(T.get("val", "val%d" % ty.w, (v,)))
                    if ty.w == 8:
                        st.add(r + 128)
                        st.add(127 - r)
                return s.tobool(r) if ty.w == 1 else r
            if isinstance(v, Ptr):
                return s.p2i(st, v)
            return s.unk_of(st, ty)
        if k == "ptr":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Poly) and v.const() == 0:
                return Ptr(None, ZERO)
            if isinstance(v, Poly):
                return s.i2p(st, v)
            if isinstance(v, Term) and v.op in ("undef", "fnptr"):
                return v
            return s.unk_of(st, ty)
        if k in ("double", "float"):
            if isinstance(v, Poly):
                c = v.const()
                if c == 0:
                    return Term("const", "0")
                if len(v.t) == 1:
                    (m, co), = v.t.items()
                    if co == 1 and len(m) == 1 and T.info[m[0]][:2] == ("val", "val64" if k == "double" else "val32"):
                        return T.info[m[0]][2][0]
                return Term("bitsf", v)
            return v
        return v

    def p2i(s, st, p):
        if p.o is None:
            return p.off
        a = T.get("addr", "addr_" + p.o)
        st.add(S(a) - 256)
        return S(a) * 16 + p.off

    def i2p(s, st, v):
        ad = [i for i in v.syms() if T.info[i][0] == "addr"]
        for i in ad:
            r = v.coef1(i)
            if r and r[0].const() == 16 and not any(T.info[j][0] == "addr" for j in r[1].syms()):
                return Ptr(T.info[i][1][5:], r[1])
        if v.const() == 0:
            return Ptr(None, ZERO)
        return s.unk_of(st, IR.PTR)

    def tobool(s, v):
        if isinstance(v, B) or v is True or v is False:
            return v
        c = v.const()
        if c is not None:
            return bool(c & 1)
        return B("ne", v)

    def store(s, st, p, size, v, what="write"):
        o = s.check_access(st, p, size, what)
        if o is None:
            return None
        if o == "unk":
            return st
        if o.ro:
            s.violate(st, "const", "write to %s through a read-only operation" % o.name)
        if isinstance(v, Term) and v.op == "pair" and size == 8:
            s.put(st, o.id, p.off, 4, v.a[0])
            s.put(st, o.id, p.off + 4, 4, v.a[1])
            return st
        if isinstance(v, Poly) and size in (4, 8) and len(v.t) == 1 and p.off.const() is not None:
            (m, co), = v.t.items()
            if co == 1 and len(m) == 1 and T.info[m[0]][1] == "raw%d" % size:
                a = T.info[m[0]][2][0].a
                s.put(st, o.id, p.off, size, Term("undef"))
                for i in range(0, len(a), 3):
                    s.put(st, o.id, p.off + a[i], a[i + 1], a[i + 2])
                return st
        s.put(st, o.id, p.off, size, v)
        return st

    def put(s, st, oid, off, size, v, kind="w"):
        o = st.wobj(oid)
        oc = off.const()
        if oc is not None:
            for k in [k for k, c in o.cells.items() if k < oc + size and oc < k + c[0] and not (k == oc and c[0] == size)]:
                n, kk, vv = o.cells[k]
                del o.cells[k]
                # keep the surviving bytes of a split cell
                if k < oc:
                    o.cells[k] = (oc - k, kk, s.bits(st, vv, 0, (oc - k) * 8, n * 8) or s.fresh_unk(st)) if isinstance(vv, Poly) else (oc - k, kk, s.fresh_unk(st) if not (isinstance(vv, Term) and vv.op == "undef") else vv)
                if k + n > oc + size:
                    sh = (oc + size - k)
                    o.cells[oc + size] = (n - sh, kk, s.bits(st, vv, sh * 8, (n - sh) * 8, n * 8) or s.fresh_unk(st)) if isinstance(vv, Poly) else (n - sh, kk, s.fresh_unk(st) if not (isinstance(vv, Term) and vv.op == "undef") else vv)
            o.cells[oc] = (size, kind, v)
        else:
            s.flush(o)
            o.log = Node(o.log, Ev(kind, off, size, v, loc=s.where()))

    def flush(s, o):
        if o.cells:
            o.log = Node(o.log, Ev("cells", None, 0, o.cells))
            o.cells = {}

    def memcpy(s, st, d, src, n, what="memcpy"):
        """n: Poly bytes; -> list of st"""
        c = n.const()
        if c == 0:
            return [st]
        out = []
        if c is None:
            x = st.fork()
            if x.assume(-n):      # n <= 0
                if not s.oblige(x, n, "bounds", "%s with a negative length" % what):
                    pass
                else:
                    out.append(x)
            st = st.fork()
            if not st.assume(n - 1):
                return out
        so = s.check_access(st, src, n, what + " source")
        if so is None:
            return out
        do = s.check_access(st, d, n, what + " destination")
        if do is None:
            return out
        if do == "unk":
            return out + [st]
        if do.ro:
            s.violate(st, "const", "write to %s through a read-only operation" % do.name)
        if do.probe:
            s.violate(st, "life", "%s over a region of class-type objects" % what)
        if so == "unk":
            o = st.wobj(do.id)
            s.flush(o)
            o.log = Node(o.log, Ev("havoc", None, 0, None, loc=s.where()))
            return out + [st]
        sc, dc = src.off.const(), d.off.const()
        if c is not None and sc is not None and dc is not None and so.log is None and c <= 4096:
            cells = dict(so.cells)
            for o_, (sz, k, v) in cells.items():
                if o_ >= sc and o_ + sz <= sc + c:
                    s.put(st, do.id, C(dc + o_ - sc), sz, v)
                elif o_ < sc + c and sc < o_ + sz:
                    s.put(st, do.id, C(dc + max(o_, sc) - sc), min(o_ + sz, sc + c) - max(o_, sc), s.compose(st, [(o_, (sz, k, v))], max(o_, sc), min(o_ + sz, sc + c) - max(o_, sc)))
            # bytes of the source that were never written
            covered = sorted((o_, o_ + sz) for o_, (sz, k, v) in cells.items())
            pos = sc
            for a, b in covered:
                if b <= pos:
                    continue
                if a > pos and a <= sc + c:
                    s.put(st, do.id, C(dc + pos - sc), min(a, sc + c) - pos, Term("undef"))
                pos = max(pos, b)
            if pos < sc + c:
                s.put(st, do.id, C(dc + pos - sc), sc + c - pos, Term("undef"))
            return out + [st]
        g = 8
        while g > 1 and (n.divexact(g) is None or (src.off.divexact(g) is None and d.off.divexact(g) is None)):
            g //= 2
        if g in (2,):
            g = 1
        cnt = n.divexact(g)
        if cnt is None:
            g, cnt = 1, n
        j = T.new("j", "q")
        J = S(j)
        so = st.objs[so.id]
        snap = Snap(so.id, so.log, dict(so.cells))
        o = st.wobj(do.id)
        s.flush(o)
        o.log = Node(o.log, Ev("copy", d.off + J * g, g, (snap, src.off + J * g), [j], [(J, False), (cnt - 1 - J, False)], loc=s.where()))
        return out + [st]

    def memset(s, st, d, v, n):
        c = n.const()
        if c == 0:
            return [st]
        out = []
        if c is None:
            x = st.fork()
            if x.assume(-n):
                if s.oblige(x, n, "bounds", "memset with a negative length"):
                    out.append(x)
            st = st.fork()
            if not st.assume(n - 1):
                return out
        do = s.check_access(st, d, n, "memset")
        if do is None:
            return out
        if do == "unk":
            return out + [st]
        if do.ro:
            s.violate(st, "const", "write to %s through a read-only operation" % do.name)
        if do.probe:
            s.violate(st, "life", "memset over a region of class-type objects")
        dc = d.off.const()
        vc = v.const() if isinstance(v, Poly) else None
        if c is not None and dc is not None and vc is not None and c <= 512 and (do.size is None or do.size.const() is not None):
            pos = dc
            while pos < dc + c:
                n2 = 8 if pos % 8 == 0 and dc + c - pos >= 8 else 1
                w = int.from_bytes(bytes([vc & 255]) * n2, "little", signed=True)
                s.put(st, do.id, C(pos), n2, C(w))
                pos += n2
            return out + [st]
        g = 8 if (vc == 0 and n.divexact(8) is not None and d.off.divexact(8) is not None) else 1
        j = T.new("j", "q")
        J = S(j)
        o = st.wobj(do.id)
        s.flush(o)
        o.log = Node(o.log, Ev("w", d.off + J * g, g, v if isinstance(v, (Poly, Term)) else s.fresh_unk(st), [j], [(J, False), (n.divexact(g) - 1 - J, False)], loc=s.where()))
        return out + [st]

    # ------------------------------------------------ probe (class-type element) operations
    def probe_at(s, st, p, want, what, size=8):
        """-> list of (st, val) where the element has the wanted status"""
        o = s.check_access(st, p, size, what)
        if o is None:
            return []
        if o == "unk":
            return [(st, Term("unk", T.new("unk", "unk")))]
        if s.quiet_discover and o.log is not None:
            return [(st, Term("unk", T.new("unk", "unk")))]
        out = []
        for x, status, v in s.query(st, Snap(o.id, o.log, o.cells), p.off, size, True):
            if status == "unk":
                if want == "live":
                    out.append((x, v))
                else:
                    out.append((x, v))
                continue
            if status != want:
                if want == "live":
                    s.violate(x, "life", "%s an element of %s that %s" % (what, o.name, "was already destroyed" if isinstance(v, Term) and v.op == "destroyed" else "was never constructed"))
                else:
                    s.violate(x, "life", "%s over an element of %s that is still alive (its destructor never runs)" % (what, o.name))
                    if x is not None:
                        out.append((x, v))
                continue
            out.append((x, v))
        return out

    # ------------------------------------------------ expression evaluation
    def val(s, st, env, ty, v):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if k == "i":
            if ty.k == "int" and ty.w == 1:
                return bool(v[1])
            return C(v[1])
        if k == "f":
            return fconst(v[1], ty)
        if k == "null":
            return Ptr(None, ZERO)
        if k == "undef":
            if ty.k in ("struct",):
                return Agg([Term("undef") for _ in ty.el])
            return Term("undef")
        if k == "zero":
            if ty.k == "struct":
                return Agg([s.val(st, env, e, v) for e in ty.el])
            if ty.k == "array":
                return Agg([s.val(st, env, ty.el, v)] * ty.n)
            if ty.k == "ptr":
                return Ptr(None, ZERO)
            if ty.k == "int":
                return ZERO
            return Term("const", "0")
        if k == "g":
            return s.glob(st, v[1])
        if k == "agg":
            return Agg([s.val(st, env, t, x) for t, x in v[1]])
        if k == "ce" and v[1] == "gep":
            bt, ops = v[2], v[3]
            base = s.val(st, env, ops[0][0], ops[0][1])
            return s.gep(st, bt, base, [s.val(st, env, t, x) for t, x in ops[1:]])
        return s.unk_of(st, ty)

    def glob(s, st, name):
        oid = "glob_" + name
        if oid not in st.objs:
            d = s.mod.globals.get(name)
            if d is None:
                if name in s.mod.decls or s.mod.has(name):
                    return Term("fnptr", name)
                o = Obj(oid, "opaque", None, name)
                st.objs[oid] = o
                return Ptr(oid, ZERO)
            o = Obj(oid, "opaque", None, name)
            m = re.match(r'.*?\bconstant (\[(\d+) x i8\]) (c"(?:[^"\\]|\\.)*"|zeroinitializer)', d)
            if m:
                o = Obj(oid, "global", C(int(m.group(2))), "literal")
                data = cstr_bytes(m.group(3), int(m.group(2)))
                o.cells = {i: (1, "w", C(b - 256 if b > 127 else b)) for i, b in enumerate(data)}
                o.ro = True
            else:
                m = re.match(r'.*?\b(constant|global) (i\d+|double|float) ([-\w.+]+)', d)
                if m and m.group(1) == "constant":
                    tk = m.group(2)
                    if tk[0] == "i":
                        w = int(tk[1:])
                        vv = {"true": 1, "false": 0}.get(m.group(3))
                        vv = int(m.group(3)) if vv is None else vv
                        o = Obj(oid, "global", C(max(1, w // 8)), name)
                        o.cells = {0: (max(1, w // 8), "w", C(vv))}
                    else:
                        o = Obj(oid, "global", C(8 if tk == "double" else 4), name)
                        o.cells = {0: (8 if tk == "double" else 4, "w", fconst(m.group(3), None))}
                    o.ro = "_ZN3ilv" not in name
                else:
                    s.const_agg(o, d)
            st.objs[oid] = o
        return Ptr(oid, ZERO)

    def const_agg(s, o, d):
        own = "_ZN3ilv" in o.name      # state of the stand-ins of a driver
        m = re.match(r'.*?\b%s (.*?)(?:, (?:comdat|align|section|!).*)?$' % ("global" if own else "constant"), d)
        if not m:
            return
        try:
            p = IR.P(s.mod, IR.tokenize(m.group(1)))
            ty = p.type()
            v = p.val(ty)
            cells = {}

            def put(off, t, v):
                if t.k in ("array", "struct"):
                    n = t.n if t.k == "array" else len(t.el)
                    for i in range(n):
                        e = t.el if t.k == "array" else t.el[i]
                        oo = off + (i * s.mod.size(e) if t.k == "array" else s.mod.field_off(t, i))
                        put(oo, e, ("zero",) if v[0] == "zero" else v[1][i][1] if v[0] == "agg" else (("i", cstr_bytes(v[1], t.n)[i]) if v[0] == "cstr" else ("undef",)))
                    return
                sz = s.mod.size(t)
                if v[0] == "i":
                    cells[off] = (sz, "w", C(v[1]))
                elif v[0] == "f":
                    cells[off] = (sz, "w", fconst(v[1], t))
                elif v[0] in ("zero", "null"):
                    cells[off] = (sz, "w", ZERO if t.k == "int" else Ptr(None, ZERO) if t.k == "ptr" else Term("const", "0"))
                elif v[0] == "g" and t.k == "ptr" and "_ZTV" in o.name:     # a table of virtual functions
                    if v[1] not in s.mod.globals and (v[1] in s.mod.decls or s.mod.has(v[1])):
                        cells[off] = (sz, "w", Term("fnptr", v[1]))
                else:
                    raise Unsupported("global init")
            if s.mod.size(ty) > 4096:
                return
            put(0, ty, v)
            o.kind, o.size, o.cells, o.ro = "global", C(s.mod.size(ty)), cells, not own
        except (ValueError, Unsupported, IndexError):
            return

    def gep(s, st, bt, base, idx):
        if not isinstance(base, Ptr):
            return base
        off = base.off
        t = bt
        for n, i in enumerate(idx):
            if not isinstance(i, Poly):
                return s.unk_of(st, IR.PTR)
            if n == 0:
                off = off + i * s.mod.size(t)
            elif t.k == "struct":
                f = i.const()
                off = off + s.mod.field_off(t, f)
                t = t.el[f]
            else:
                t = t.el
                off = off + i * s.mod.size(t)
        return Ptr(base.o, off)

    # ------------------------------------------------ integer ops
    def binop(s, st, op, a, b, ty, fl):
        """-> list of (st, val)"""
        w = ty.w if ty.k == "int" else 0
        if ty.k in ("double", "float"):
            if op == "fadd" and isinstance(a, Term) and isinstance(b, Term):
                pass
            return [(st, Term("fop", op, a, b))]
        if ty.k == "vector":
            return [(st, Term("fop", op, a, b))]
        if w == 1:
            a, b = s.tobool(a) if not isinstance(a, (B, bool)) else a, s.tobool(b) if not isinstance(b, (B, bool)) else b
            if op == "and":
                if a is False or b is False:
                    return [(st, False)]
                if a is True:
                    return [(st, b)]
                if b is True:
                    return [(st, a)]
                return [(st, B("and", a, b))]
            if op == "or":
                if a is True or b is True:
                    return [(st, True)]
                if a is False:
                    return [(st, b)]
                if b is False:
                    return [(st, a)]
                return [(st, B("or", a, b))]
            if op == "xor":
                if b is True:
                    return [(st, bnot(a))]
                if b is False:
                    return [(st, a)]
                if a is True:
                    return [(st, bnot(b))]
                if a is False:
                    return [(st, b)]
                return [(st, B("or", B("and", a, bnot(b)), B("and", bnot(a), b)))]
            return [(st, s.unk_of(st, ty))]
        if isinstance(a, B) or isinstance(a, bool):
            return [y for x, v in s.b2i(st, a) for y in s.binop(x, op, v, b, ty, fl)]
        if isinstance(b, B) or isinstance(b, bool):
            return [y for x, v in s.b2i(st, b) for y in s.binop(x, op, a, v, ty, fl)]
        if isinstance(a, Term) and a.op == "undef":
            a = S(T.new("undef", "undef"))
        if isinstance(b, Term) and b.op == "undef":
            b = S(T.new("undef", "undef"))
        if isinstance(a, Ptr):
            a = s.p2i(st, a)
        if isinstance(b, Ptr):
            b = s.p2i(st, b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return [(st, s.unk_of(st, ty))]
        if op == "add":
            return [(st, s.wrapc(a + b, w))]
        if op == "sub":
            return [(st, s.wrapc(a - b, w))]
        if op == "mul":
            if "nsw" not in fl and w == 64 and any(x.const() is not None and abs(x.const()) >= 1 << 40 and y.const() is None for x, y in ((a, b), (b, a))):
                return [(st, s.unk_of(st, ty))]       # modular arithmetic
            return [(st, s.wrapc(a * b, w))]
        ca, cb = a.const(), b.const()
        if op in ("shl", "lshr", "ashr") and cb is not None and not 0 <= cb < w:
            s.violate(st, "ub", "shift of a %d-bit integer by %d" % (w, cb))
            return []
        if op == "shl":
            if cb is not None and 0 <= cb < w:
                return [(st, s.wrapc(a * (1 << cb), w))]
        if op in ("sdiv", "udiv", "srem", "urem"):
            if cb is not None and cb != 0:
                if ca is not None:
                    if op[0] == "u":
                        ua, ub = ca % (1 << w), cb % (1 << w)
                        return [(st, s.wrapc(C(ua // ub if op == "udiv" else ua % ub), w))]
                    q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                    return [(st, C(q if op == "sdiv" else ca - q * cb))]
                if "exact" in fl or op in ("sdiv", "srem"):
                    x = a.divexact(cb)
                    if x is not None:
                        return [(st, x if op == "sdiv" else ZERO)]
                if op[0] == "u" and cb > 0:
                    x = a.divexact(cb)
                    if x is not None and st.ent(a):
                        return [(st, x if op == "udiv" else ZERO)]
                if cb > 0:
                    out = []
                    p = st.fork()
                    if p.assume(a):
                        q = S(T.get("div", "div", (a, cb)))
                        p.add(a - q * cb)
                        p.add(q * cb + (cb - 1) - a)
                        p.add(q)
                        out.append((p, q if op[1:] == "div" else a - q * cb))
                    n = st.fork()
                    if n.assume(-a - 1):
                        if op[0] == "u":
                            out.append((n, s.unk_of(n, ty)))
                        else:
                            q = S(T.get("div", "divn", (a, cb)))
                            n.add(-a + q * cb)
                            n.add(-q * cb + (cb - 1) + a)
                            n.add(-q)
                            out.append((n, q if op == "sdiv" else a - q * cb))
                    return out
            if cb is None or cb == 0:
                # symbolic divisor
                out = []
                x = st.fork()
                if cb == 0 or x.assume(b, True):
                    s.violate(x, "div0", "division by zero")
                if cb == 0:
                    return []
                for sg in (1, -1):
                    y = st.fork()
                    if not y.assume(b * sg - 1):
                        continue
                    if sg > 0 and y.ent(a):
                        if op in ("sdiv", "udiv"):
                            x2 = s._polydiv(a, b)
                            if not x2[1].t:
                                out.append((y, x2[0]))
                                continue
                        q = S(T.get("div", "qdiv", (a, b)))
                        y.add(q)
                        y.add(a - q * b)
                        y.add(q * b + b - 1 - a)
                        out.append((y, q if op[1:] == "div" else a - q * b))
                    else:
                        out.append((y, s.unk_of(y, ty)))
                return out
        if op in ("lshr", "ashr") and cb is not None and 0 <= cb < w:
            if ca is not None:
                ua = ca % (1 << w)
                return [(st, s.wrapc(C((ua >> cb) if op == "lshr" else (ca >> cb)), w))]
            if cb == 0:
                return [(st, a)]
            if st.ent(a):
                r = s.udivmod(st, a, 1 << cb)
                if r is not None:
                    return [(st, r[0])]
                q = S(T.get("div", "div", (a, 1 << cb)))
                st = st.fork()
                if op == "lshr" and w - cb <= 40:
                    st.add(C((1 << (w - cb)) - 1) - q)
                st.add(a - q * (1 << cb))
                st.add(q * (1 << cb) + (1 << cb) - 1 - a)
                st.add(q)
                return [(st, q)]
            if op == "lshr":
                r = s.bits(st, a, cb, w - cb, w)
                if r is not None:
                    u = s.unsigned(st, r, w - cb)
                    if u is not None:
                        return [(st, u)]
                out = []
                p = st.fork()
                if p.assume(a):
                    out += s.binop(p, op, a, b, ty, fl)
                n = st.fork()
                if n.assume(-a - 1):
                    u = a + (1 << w)
                    r = s.udivmod(n, u, 1 << cb)
                    if r is not None:
                        out.append((n, r[0]))
                    else:
                        q = S(T.get("div", "div", (u, 1 << cb)))
                        if w - cb <= 40:
                            n.add(C((1 << (w - cb)) - 1) - q)
                        n.add(u - q * (1 << cb))
                        n.add(q * (1 << cb) + (1 << cb) - 1 - u)
                        n.add(q)
                        out.append((n, q))
                return out
        if op == "and":
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
            if ca is not None and cb is not None:
                return [(st, s.wrapc(C(ca & cb), w))]
            if cb is not None:
                ub = cb % (1 << w)
                if ub == (1 << w) - 1:
                    return [(st, a)]
                if ub == 0:
                    return [(st, ZERO)]
                # contiguous mask [lo,hi)
                lo = (ub & -ub).bit_length() - 1
                hi = ub.bit_length()
                if ub == ((1 << hi) - 1) ^ ((1 << lo) - 1):
                    u = s.unsigned(st, a, w)
                    if u is None:
                        out = []
                        p = st.fork()
                        if p.assume(a):
                            out += s.binop(p, op, a, b, ty, fl)
                        n = st.fork()
                        if n.assume(-a - 1):
                            out += s.binop(n, op, a, b, ty, fl)
                        return out
                    r = s.andmask(st, u, lo, hi, w)
                    if r is not None:
                        st, r = r
                        return [(st, s.resign(st, r, w))]
                u = s.unsigned(st, a, w)
                if u is not None and bin(ub).count("1") <= 64 and len([x for x in bin(ub)[2:].split("0") if x]) <= 4:
                    # several runs of bits
                    x, tot, pos = st, ZERO, 0
                    while x is not None and ub >> pos:
                        if not (ub >> pos) & 1:
                            pos += 1
                            continue
                        e_ = pos
                        while (ub >> e_) & 1:
                            e_ += 1
                        r = s.andmask(x, u, pos, e_, w)
                        if r is None:
                            x = None
                            break
                        x, v_ = r
                        tot, pos = tot + v_, e_
                    if x is not None:
                        return [(x, s.resign(x, tot, w))]
                st = st.fork()
                r = S(T.get("andm", "and", (a, cb)))
                if cb >= 0:
                    st.add(r)
                    st.add(C(cb) - r)
                    if st.ent(a):
                        st.add(a - r)
                    return [(st, r)]
        if op == "or":
            if ca is not None and cb is not None:
                return [(st, s.wrapc(C(ca | cb), w))]
            if ca == 0:
                return [(st, b)]
            if cb == 0:
                return [(st, a)]
            ua, ub = s.unsigned(st, a, w), s.unsigned(st, b, w)
            if ua is not None and ub is not None:
                for x, y in ((ua, ub), (ub, ua)):
                    # y < 2^k, x multiple of 2^k
                    g = 0
                    for c in x.t.values():
                        from math import gcd
                        g = gcd(g, c)
                    if g == 0:
                        continue
                    k = g & -g
                    if k > 1 and st.ent(C(k - 1) - y) and st.ent(y):
                        return [(st, s.resign(st, x + y, w))]
            if ua is not None and ub is not None:
                return s.known_bits_or(st, ua, ub, w)
        if op == "xor" and ca is not None and cb is not None:
            return [(st, s.wrapc(C(ca ^ cb), w))]
        if op == "xor" and cb == -1:
            return [(st, -a - 1)]
        s.qfail += 1
        return [(st, s.unk_of(st, ty) if not (a.syms() <= set()) else s.unk_of(st, ty))]

    def kbits(s, st, u, w, depth=0):
        """(bits known to be 0, bits known to be 1) of an unsigned value"""
        full = (1 << w) - 1
        c = u.const()
        if c is not None:
            return full & ~c, full & c
        k0 = k1 = 0
        if len(u.t) == 1 and depth < 12:
            (m, co), = u.t.items()
            if len(m) == 1 and co > 0 and co & (co - 1) == 0:
                kind, name, args = T.info[m[0]]
                sh = co.bit_length() - 1
                r = None
                if kind == "div" and name == "div" and isinstance(args[1], int) and args[1] > 0 and args[1] & (args[1] - 1) == 0:
                    z, o = s.kbits(st, args[0], w, depth + 1)
                    d = args[1].bit_length() - 1
                    r = (z >> d) | (full & ~(full >> d)), o >> d
                elif kind == "bitor":
                    (z, o), (y, p) = s.kbits(st, args[0], w, depth + 1), s.kbits(st, args[1], w, depth + 1)
                    r = z & y, o | p
                if r is not None:
                    k0, k1 = (((r[0] << sh) | ((1 << sh) - 1)) & full), (r[1] << sh) & full
        base, r = 0, w
        while r > 0:
            b = 1 << (r - 1)
            if st.ent(C(base + b - 1) - u):
                k0 |= b
            elif st.ent(u - (base + b)):
                k1 |= b
                base += b
            else:
                break
            r -= 1
        return k0, k1

    def known_bits_or(s, st, a, b, w):
        full = (1 << w) - 1
        (z, o), (y, p) = s.kbits(st, a, w), s.kbits(st, b, w)
        k0, k1 = z & y, o | p
        if k0 | k1 == full:
            return [(st, s.wrapc(C(k1), w))]
        r = S(T.get("bitor", "or", (a, b)))
        st = st.fork()
        if not (k0 | k1) >> (w - 1):
            st.add(r - a)
            st.add(r - b)
            st.add(a + b - r)
        st.add(r - k1)
        st.add(C(full & ~k0) - r)
        if k1 >> (w - 1):
            return [(st, r - (1 << w))]
        if k0 >> (w - 1):
            return [(st, r)]
        out = []
        for sg in (0, 1):
            x = st.fork()
            if x.assume(r - (1 << (w - 1)) if sg else C((1 << (w - 1)) - 1) - r):
                out.append((x, r - (1 << w) if sg else r))
        return out

    def andmask(s, st, u, lo, hi, w):
        """u & mask for contiguous bits [lo,hi) ; returns (st, value) where value includes the shift"""
        top = None
        v = u
        if hi < w:
            r = s.udivmod(st, v, 1 << hi)
            if r is None:
                q = S(T.get("div", "div", (v, 1 << hi)))
                st = st.fork()
                st.add(v - q * (1 << hi))
                st.add(q * (1 << hi) + (1 << hi) - 1 - v)
                st.add(q)
                v = v - q * (1 << hi)
            else:
                v = r[1]
        if lo:
            r = s.udivmod(st, v, 1 << lo)
            if r is None:
                q = S(T.get("div", "div", (v, 1 << lo)))
                st = st.fork()
                st.add(v - q * (1 << lo))
                st.add(q * (1 << lo) + (1 << lo) - 1 - v)
                st.add(q)
                v = q * (1 << lo)
            else:
                v = r[0] * (1 << lo)
        return st, v

    def wrapc(s, p, w):
        c = p.const()
        if c is not None:
            h = 1 << (w - 1)
            if not (-h <= c < h):
                c = (c + h) % (1 << w) - h
                return C(c)
            return p
        c0 = p.t.get((), 0)
        if w == 64 and (c0 >= (1 << 63) or c0 < -(1 << 63)):
            r = dict(p.t)
            c0 = (c0 + (1 << 63)) % (1 << 64) - (1 << 63)
            if c0:
                r[()] = c0
            else:
                r.pop((), None)
            return Poly(r)
        return p

    def b2i(s, st, b):
        if b is True:
            return [(st, ONE)]
        if b is False:
            return [(st, ZERO)]
        return [(x, ONE if t else ZERO) for x, t in s.split(st, b)]

    def ptrcmp(s, st, pr, a, b):
        """-> bool / B / list handled by caller"""
        if isinstance(a, Poly):
            a = s.i2p(st, a)
        if isinstance(b, Poly):
            b = s.i2p(st, b)
        if isinstance(a, Term) and a.op == "undef" or isinstance(b, Term) and b.op == "undef":
            s.violate(st, "uninit", "comparison of an uninitialised pointer")
            return None
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            return B("eq", S(T.new("unk", "unk")))
        if a.o == b.o:
            return s.cmp(st, pr, a.off, b.off)
        oa, ob = st.objs.get(a.o), st.objs.get(b.o)
        if (oa is not None and oa.kind == "opaque") or (ob is not None and ob.kind == "opaque"):
            return B("eq", S(T.new("unk", "unk")))
        if pr == "eq":
            return False
        if pr == "ne":
            return True
        if a.o is None or b.o is None:
            # null is below every object
            return {"ult": a.o is None, "ule": a.o is None, "ugt": b.o is None, "uge": b.o is None}.get(pr, B("eq", S(T.new("unk", "unk"))))
        if oa is None or ob is None or oa.size is None or ob.size is None or not oa.alive or not ob.alive:
            return B("eq", S(T.new("unk", "unk")))
        # distinct objects do not overlap: two placements
        out = []
        for first, sz, second in ((a, oa.size, b), (b, ob.size, a)):
            x = st.fork()
            fa, sa = s.p2i(x, Ptr(first.o, ZERO)), s.p2i(x, Ptr(second.o, ZERO))
            if x.assume(sa - fa - sz):
                out.append((x, s.cmp(x, pr, s.p2i(x, a), s.p2i(x, b))))
        return out

    def cmp(s, st, pr, a, b):
        d = a - b
        if pr == "eq":
            return simplify(B("eq", d))
        if pr == "ne":
            return simplify(B("ne", d))
        if pr[0] == "u":
            na, nb = st.ent(a), st.ent(b)
            ca, cb = a.const(), b.const()
            if ca is not None and ca < 0:
                a, na = C(ca + (1 << 64)), True
            if cb is not None and cb < 0:
                b, nb = C(cb + (1 << 64)), True
            d = a - b
            if not (na and nb):
                base = {"gt": B("ge", d - 1), "ge": B("ge", d), "lt": B("ge", -d - 1), "le": B("ge", -d)}[pr[1:]]
                if nb and not na:
                    # a < 0 as unsigned is huge
                    if pr in ("ugt", "uge"):
                        return B("or", B("ge", -a - 1), base)
                    return B("and", B("ge", a), base)
                if na and not nb:
                    if pr in ("ult", "ule"):
                        return B("or", B("ge", -b - 1), base)
                    return B("and", B("ge", b), base)
                same = B("or", B("and", B("ge", a), B("ge", b)), B("and", B("ge", -a - 1), B("ge", -b - 1)))
                if pr in ("ugt", "uge"):
                    return B("or", B("and", B("ge", -a - 1), B("ge", b)), B("and", same, base))
                return B("or", B("and", B("ge", a), B("ge", -b - 1)), B("and", same, base))
        x = pr[1:]
        r = {"gt": B("ge", d - 1), "ge": B("ge", d), "lt": B("ge", -d - 1), "le": B("ge", -d)}[x]
        return simplify(r)

    # ------------------------------------------------ functions and regions
    def info(s, fn):
        if fn.loops is None:
            fn.loops = find_loops(fn)
        return fn.loops

    def call(s, name, args, st):
        """-> list of (st, retval)"""
        m = s.models.get(name)
        if m is None:
            for pat, mm in s.model_pats:
                if pat.search(name):
                    m = mm
                    break
        if m is not None:
            return m(s, st, name, args)
        fn = s.mod.fn(name)
        if fn is None:
            return s.unknown_call(st, name, args)
        if len(s.stack) > 60 or s.stack.count(name) > s.max_rec:
            raise Unsupported("recursion " + name)
        s.fnseen.add(name)
        env = {}
        for (t, nm, at), a in zip(fn.params, args):
            if "byval" in at and isinstance(a, Ptr):
                pass
            env[nm] = a
        s.stack.append(name)
        sv = s.curins
        try:
            out = []
            for o in s.region(fn, fn.order[0], None, st, env, None, None):
                if o[0] != "ret":
                    raise Unsupported("bad outcome")
                x = o[1]
                # stack objects of this frame die
                for oid in o[3].get("#allocas", ()):
                    ob = x.objs.pop(oid, None)
                    if ob is not None:
                        s.gone[oid] = ob.name
                out.append((x, o[2]))
        finally:
            s.stack.pop()
            s.curins = sv
        return out

    model_pats = []

    def unknown_call(s, st, name, args):
        s.unsupported[name] = s.unsupported.get(name, 0) + 1
        # havoc what the callee can reach directly
        st = st.fork()
        for a in args:
            if isinstance(a, Ptr) and a.o in st.objs:
                o = st.wobj(a.o)
                if o.kind == "opaque":
                    continue
                s.flush(o)
                o.log = Node(o.log, Ev("havoc", None, 0, None))
        d = s.mod.decls.get(name, "")
        m = re.match(r"declare (.*?)@", d)
        ty = IR.VOID
        if m:
            toks = [t for t in m.group(1).split() if t not in IR.LINK and t not in IR.PARAM_ATTRS and not t.startswith("align") and not t.isdigit()]
            if toks:
                try:
                    ty = IR.P(s.mod, IR.tokenize(toks[-1])).type()
                except Exception:
                    ty = IR.VOID
        return [(st, s.unk_of(st, ty) if ty.k != "void" else None)]

    def region(s, fn, start, pred, st, env, within, header):
        """run from block `start`; -> outcomes ('ret',st,val,env) ('exit',st,env,to,frm) ('latch',st,env,frm)"""
        loops = s.info(fn)
        outs = []
        work = [(st, env, start, pred, 0)]
        while work:
            st, env, bn, pred, idx = work.pop()
            if idx == 0 and pred is not None and pred != "#hdr":
                # transition pred -> bn
                if within is not None:
                    if bn == header:
                        outs.append(("latch", st, env, pred))
                        continue
                    if bn not in within:
                        outs.append(("exit", st, env, bn, pred))
                        continue
                L = loops.get(bn)
                if L is not None and pred not in L.body:
                    for o in s.loop(fn, L, pred, st, env):
                        if o[0] == "ret":
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], o[3], o[4], 0))
                    continue
            blk = fn.blocks[bn]
            if idx == 0 and pred is not None and blk.phis and not (bn == header and pred == "#hdr"):
                vals = []
                for ph in blk.phis:
                    for v, b in ph.x:
                        if b == pred:
                            vals.append((ph.res, s.val(st, env, ph.ty, v)))
                            break
                    else:
                        raise Unsupported("phi")
                env = dict(env)
                for r, v in vals:
                    env[r] = v
            s.block(fn, blk, st, env, idx, work, outs)
        return outs

    def block(s, fn, blk, st, env, idx, work, outs):
        ins = blk.ins
        n = len(ins)
        i = idx
        own = False
        while i < n:
            I = ins[i]
            s.curins = I
            s.steps += 1
            if s.steps > s.max_steps:
                raise Stop("step budget")
            op = I.op
            if op == "br":
                if not I.a:
                    work.append((st, env, I.x[0], blk.name, 0))
                    return
                c = s.val(st, env, IR.INT(1), I.a[0])
                if isinstance(c, Term) or (isinstance(c, Poly)):
                    c = s.tobool(c) if isinstance(c, Poly) else c
                if isinstance(c, Term):
                    if c.op == "undef":
                        s.violate(st, "uninit", "branch on an uninitialised value")
                        return
                    c = B("ne", S(T.get("val", "b", (c,))))
                if isinstance(c, B) and any(T.info[k][0] == "undef" for k in vsyms(c)):
                    s.violate(st, "uninit", "branch on an uninitialised value")
                    c = B("eq", S(T.new("unk", "unk")))
                if c is True or c is False:
                    work.append((st, env, I.x[0 if c else 1], blk.name, 0))
                    return
                for x, t in s.split(st, c):
                    work.append((x, env, I.x[0 if t else 1], blk.name, 0))
                return
            if op == "switch":
                v = s.val(st, env, I.ty, I.a[0])
                if isinstance(v, (B, bool)):
                    for x, vv in s.b2i(st, v):
                        e2 = dict(env)
                        tgt = I.x[0]
                        for c, b in I.x[1]:
                            if vv.const() == c:
                                tgt = b
                        work.append((x, e2, tgt, blk.name, 0))
                    return
                if not isinstance(v, Poly):
                    v = S(T.new("unk", "unk"))
                if any(T.info[k][0] == "undef" for k in vsyms(v)):
                    s.violate(st, "uninit", "switch on an uninitialised value")
                    return
                cur = [st]
                for c, b in I.x[1]:
                    nxt = []
                    for x in cur:
                        for y, t in s.split(x, simplify(B("eq", v - c))):
                            if t:
                                work.append((y, env, b, blk.name, 0))
                            else:
                                nxt.append(y)
                    cur = nxt
                for x in cur:
                    work.append((x, env, I.x[0], blk.name, 0))
                return
            if op == "ret":
                v = s.val(st, env, I.ty, I.a[0]) if I.a else None
                outs.append(("ret", st, v, env))
                return
            if op == "unreachable":
                return
            rs = s.step(fn, I, st, env)
            if rs is None:           # simple single result already in env
                i += 1
                continue
            if not rs:
                return
            if len(rs) == 1:
                st, v = rs[0]
                if I.res is not None:
                    env = dict(env)
                    env[I.res] = v
                i += 1
                continue
            for x, v in rs:
                e2 = dict(env)
                if I.res is not None:
                    e2[I.res] = v
                work.append((x, e2, blk.name, None, i + 1))
            return
        raise Unsupported("fell off block")

    def _members(s, fn):
        """addresses formed by indexing an array member (directly or after decay): result -> (element count, index operands)"""
        d = getattr(fn, "_arrgep", None)
        if d is None:
            d, dec = {}, {}
            for b in fn.blocks.values():
                for I in b.ins:
                    if I.op != "getelementptr":
                        continue
                    if len(I.a) >= 3:
                        t = I.ty
                        for j, (ty, v) in enumerate(I.a[1:]):
                            if j == 0:
                                continue
                            if t.k == "struct" and v[0] == "i":
                                t = t.el[v[1]]
                            elif t.k == "array":
                                if j == len(I.a) - 2 and t.n > 0:
                                    if v[0] == "r":
                                        d[I.res] = (t.n, (ty, v))
                                    elif v == ("i", 0):
                                        dec[I.res] = (t.n, t.el)
                                t = t.el
                            else:
                                break
            for b in fn.blocks.values():
                for I in b.ins:
                    if I.op == "getelementptr" and len(I.a) == 2 and I.a[0][1][0] == "r" and I.a[0][1][1] in dec and I.a[1][1][0] == "r":
                        n, el = dec[I.a[0][1][1]]
                        if s.mod.size(el) == s.mod.size(I.ty):
                            d[I.res] = (n, I.a[1])
            fn._arrgep = d
        return d

    def member_bounds(s, fn, st, env, v):
        """an access through an index into an array member stays inside that array"""
        m = s._members(fn).get(v[1]) if v[0] == "r" else None
        if m is None:
            return
        i = s.val(st, env, m[1][0], m[1][1])
        if isinstance(i, Poly):
            s.oblige(st, i, "bounds", "index below the beginning of an array of %d elements" % m[0])
            s.oblige(st, C(m[0] - 1) - i, "bounds", "index past the end of an array of %d elements" % m[0])

    def step(s, fn, I, st, env):
        op = I.op
        V = lambda t, v: s.val(st, env, t, v)
        if op == "load":
            s.member_bounds(fn, st, env, I.a[0])
        elif op == "store":
            s.member_bounds(fn, st, env, I.a[1])
        elif op == "call" and "Probe" in I.x:
            for a in I.a:
                if a[0].k == "ptr":
                    s.member_bounds(fn, st, env, a[1])
        if op == "getelementptr":
            base = V(I.a[0][0], I.a[0][1])
            idx = []
            for t, v in I.a[1:]:
                x = V(t, v)
                if isinstance(x, Term) and x.op == "undef":
                    x = S(T.new("undef", "undef"))
                if isinstance(x, (B, bool)):
                    r = s.b2i(st, x)
                    if len(r) != 1:
                        x = s.unk_of(st, IR.INT(64))
                    else:
                        x = r[0][1]
                idx.append(x)
            return [(st, s.gep(st, I.ty, base, idx))]
        if op == "load":
            p = V(IR.PTR, I.a[0])
            if I.ty.k in ("struct", "array"):
                return s.load_agg(st, p, I.ty)
            return s.load(st.fork(), p, s.mod.size(I.ty), I.ty)
        if op == "store":
            p = V(IR.PTR, I.a[1])
            v = V(I.ty, I.a[0])
            x = st.fork()
            if isinstance(v, Agg) and I.ty.k in ("struct", "array"):
                for j, e in enumerate(v.v):
                    et = I.ty.el[j] if I.ty.k == "struct" else I.ty.el
                    oo = s.mod.field_off(I.ty, j) if I.ty.k == "struct" else j * s.mod.size(et)
                    if isinstance(p, Ptr):
                        if isinstance(e, Agg):
                            return [(s_, None) for s_ in [s.unk_store(x, p)]]
                        x = s.store(x, Ptr(p.o, p.off + oo), s.mod.size(et), e)
                        if x is None:
                            return []
                return [(x, None)]
            if isinstance(v, B) and I.ty.k == "int" and I.ty.w > 1:
                pass
            x = s.store(x, p, s.mod.size(I.ty), v)
            return [(x, None)] if x is not None else []
        if op == "alloca":
            x = st.fork()
            cnt = V(IR.INT(64), I.a[0])
            tn = I.ty.name or ""
            size = s.mod.size(I.ty)
            oid = s.new_obj(x, "stack", cnt * size if isinstance(cnt, Poly) else C(size), "local" + (I.res or ""), probe=s.is_probe_ty(I.ty))
            env["#allocas"] = env.get("#allocas", ()) + (oid,)
            return [(x, Ptr(oid, ZERO))]
        if op == "icmp":
            a, b = V(I.ty, I.a[0]), V(I.ty, I.a[1])
            if I.ty.k == "ptr":
                r = s.ptrcmp(st, I.x, a, b)
                return [] if r is None else r if isinstance(r, list) else [(st, r)]
            if isinstance(a, Ptr):
                a = s.p2i(st, a)
            if isinstance(b, Ptr):
                b = s.p2i(st, b)
            if isinstance(a, (B, bool)) or isinstance(b, (B, bool)):
                if isinstance(b, Poly) and b.const() in (0, 1) and I.x in ("eq", "ne"):
                    r = a if (b.const() == 1) == (I.x == "eq") else bnot(a)
                    return [(st, r)]
                if isinstance(b, bool) and I.x in ("eq", "ne"):
                    return [(st, a if b == (I.x == "eq") else bnot(a))]
                out = []
                for x, va in (s.b2i(st, a) if isinstance(a, (B, bool)) else [(st, a)]):
                    for y, vb in (s.b2i(x, b) if isinstance(b, (B, bool)) else [(x, b)]):
                        out.append((y, s.cmp(y, I.x, va, vb)))
                return out
            if isinstance(a, Term) or isinstance(b, Term):
                def ti(z):
                    if isinstance(z, Term):
                        if z.op == "undef":
                            return S(T.new("undef", "undef"))
                        return S(T.get("val", "val", (z,)))
                    return z
                a, b = ti(a), ti(b)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return [(st, B("eq", S(T.new("unk", "unk"))))]
            return [(st, s.cmp(st, I.x, a, b))]
        if op == "fcmp":
            a, b = V(I.ty, I.a[0]), V(I.ty, I.a[1])
            if s.fold_fp and I.ty.k == "double":
                r = fcmp_const(I.x, fval(a), fval(b))
                if r is not None:
                    return [(st, r)]
            return [(st, s.opaque_pred(st, "fcmp_" + I.x, a, b))]
        if op in ("sext", "zext", "trunc"):
            v = V(I.x, I.a[0])
            return s.castint(st, op, v, I.x, I.ty)
        if op in ("bitcast", "freeze", "addrspacecast"):
            return [(st, V(I.x if op == "bitcast" else I.ty, I.a[0]))]
        if op == "ptrtoint":
            v = V(IR.PTR, I.a[0])
            if isinstance(v, Ptr):
                x = st.fork()
                return [(x, s.p2i(x, v))]
            return [(st, v if isinstance(v, Term) else s.unk_of(st, I.ty))]
        if op == "inttoptr":
            v = V(I.x, I.a[0])
            x = st.fork()
            return [(x, s.i2p(x, v) if isinstance(v, Poly) else s.unk_of(x, I.ty))]
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            v = V(I.x, I.a[0])
            if op in ("fptosi", "fptoui"):
                if isinstance(v, Term) and v.op in ("sitofp", "uitofp"):
                    return [(st, v.a[0])]
                return [(st, S(T.get("val", op, (v,))))]
            if isinstance(v, (B, bool)):
                return [(x, Term(op, vv)) for x, vv in s.b2i(st, v)]
            return [(st, Term(op, v))]
        if op == "fneg":
            return [(st, Term("fop", "fneg", V(I.ty, I.a[0])))]
        if op == "select":
            c = V(IR.INT(1), I.a[0])
            a, b = V(I.ty, I.a[1]), V(I.ty, I.a[2])
            if isinstance(c, Poly):
                c = s.tobool(c)
            if c is True or c is False:
                return [(st, a if c else b)]
            if isinstance(c, Term):
                return [(st, s.unk_of(st, I.ty))]
            if I.ty.k == "int" and I.ty.w == 1:
                if b is False:
                    return [(st, a if c is True else False if a is False else c if a is True else B("and", c, a))]
                if a is True:
                    return [(st, c if b is False else True if b is True else B("or", c, b))]
            return [(x, a if t else b) for x, t in s.split(st, c)]
        if op == "extractvalue":
            v = V(I.ty, I.a[0])
            for k in I.x:
                if not isinstance(v, Agg):
                    return [(st, s.unk_of(st, IR.INT(64)))]
                v = v.v[k]
            return [(st, v)]
        if op == "insertvalue":
            v = V(I.ty, I.a[0])
            e = s.val(st, env, IR.PTR, I.a[1])
            if not isinstance(v, Agg):
                v = Agg([Term("undef")] * len(I.ty.el))
            if len(I.x) == 1:
                l = list(v.v)
                l[I.x[0]] = e
                return [(st, Agg(l))]
            return [(st, s.unk_of(st, I.ty))]
        if op == "call":
            args = [V(t, v) if t.k != "metadata" else None for t, v, at in I.a]
            args = s.byval(st, I, args)
            cal = I.x
            if cal.startswith("%") and isinstance(env.get(cal), Term) and env[cal].op == "fnptr":
                cal = env[cal].a[0]
            if cal.startswith("%"):
                return s.unknown_call(st, "indirect", args) if I.ty.k == "void" else [(st, s.unk_of(st, I.ty))]
            if cal.startswith("@llvm."):
                return s.intrinsic(st, cal, args, I)
            x = st.fork()
            r = s.call(cal, args, x)
            s.curins = I
            return r
        if op in ("extractelement", "insertelement", "asm"):
            return [(st, s.unk_of(st, I.ty.el if op == "extractelement" else I.ty))]
        if op in IRBIN:
            a, b = V(I.ty, I.a[0]), V(I.ty, I.a[1])
            # pointer arithmetic through integers
            return s.binop(st.fork(), op, a, b, I.ty, I.x)
        raise Unsupported("op " + op)

    def byval(s, st, I, args):
        out = list(args)
        for k, (t, v, at) in enumerate(I.a):
            if "byval" in at and isinstance(out[k], Ptr):
                sz = s.mod.size(at["byval"])
                oid = s.new_obj(st, "stack", C(sz), "byval")
                r = s.memcpy(st, Ptr(oid, ZERO), out[k], C(sz))
                out[k] = Ptr(oid, ZERO)
        return out

    def unk_store(s, st, p):
        if isinstance(p, Ptr) and p.o in st.objs:
            o = st.wobj(p.o)
            s.flush(o)
            o.log = Node(o.log, Ev("havoc", None, 0, None))
        return st

    def load_agg(s, st, p, ty):
        cur = [(st, [])]
        n = len(ty.el) if ty.k == "struct" else ty.n
        for j in range(n):
            et = ty.el[j] if ty.k == "struct" else ty.el
            oo = s.mod.field_off(ty, j) if ty.k == "struct" else j * s.mod.size(et)
            nxt = []
            for x, vs in cur:
                if not isinstance(p, Ptr):
                    nxt.append((x, vs + [s.unk_of(x, et)]))
                    continue
                if et.k in ("struct", "array"):
                    rr = s.load_agg(x, Ptr(p.o, p.off + oo), et)
                else:
                    rr = s.load(x, Ptr(p.o, p.off + oo), s.mod.size(et), et)
                for y, v in rr:
                    nxt.append((y, vs + [v]))
            cur = nxt
        return [(x, Agg(vs)) for x, vs in cur]

    no_nan = False
    fold_fp = False     # comparisons of doubles made of constants are decided

    def opaque_pred(s, st, name, a, b):
        if s.no_nan and name in ("fcmp_uno", "fcmp_ord"):
            return name == "fcmp_ord"
        for v in (a, b):
            if isinstance(v, Term) and v.op == "unk":
                return B("eq", S(T.new("unk", "unk")))
            if isinstance(v, Term) and v.op == "undef":
                s.violate(st, "uninit", "comparison of an uninitialised value")
        i = T.get("pred", name, (a, b))
        st.add(S(i))
        st.add(1 - S(i))
        return B("ge", S(i) - 1)

    def castint(s, st, op, v, fr, to):
        if fr.k == "vector":
            return [(st, s.unk_of(st, to))]
        if isinstance(v, Term):
            if v.op == "undef":
                v = S(T.new("undef", "undef"))
            else:
                v = S(T.get("val", "val", (v,)))
        if isinstance(v, Ptr):
            v = s.p2i(st, v)
        if op == "zext":
            if isinstance(v, (B, bool)):
                if to.w == 8 or True:
                    # keep as boolean value until used arithmetically
                    return [(st, v if not isinstance(v, bool) else C(int(v)))]
            u = s.unsigned(st, v, fr.w)
            if u is not None:
                return [(st, u)]
            out = []
            p = st.fork()
            if p.assume(v):
                out.append((p, v))
            n = st.fork()
            if n.assume(-v - 1):
                out.append((n, v + (1 << fr.w)))
            return out
        if op == "sext":
            if isinstance(v, (B, bool)):
                return [(x, -vv) for x, vv in s.b2i(st, v)]
            return [(st, v)]
        # trunc
        if isinstance(v, (B, bool)):
            return [(st, v)]
        if to.w == 1:
            c = v.const()
            if c is not None:
                return [(st, bool(c & 1))]
            if st.ent(v) and st.ent(1 - v):
                return [(st, B("ge", v - 1))]
            if any(T.info[k][0] == "undef" for k in vsyms(v)):
                return [(st, B("ne", v))]
            return [(st, B("ne", v)) if len(v.t) == 1 and T.info[list(v.syms())[0]][0] == "val" else (st, B("eq", S(T.new("unk", "unk"))))]
        c = v.const()
        if c is not None:
            return [(st, s.wrapc(v, to.w))]
        h = 1 << (to.w - 1)
        if st.ent(C(h - 1) - v) and st.ent(v + h):
            return [(st, v)]
        if st.ent(v) and st.ent(C(2 * h - 1) - v):
            out = []
            p = st.fork()
            if p.assume(C(h - 1) - v):
                out.append((p, v))
            n = st.fork()
            if n.assume(v - h):
                out.append((n, v - 2 * h))
            return out
        if to.w in (32, 16) and s.nowrap:
            return [(st, v)]
        u = s.unsigned(st, v, fr.w)
        if u is not None:
            r = s.udivmod(st, u, 1 << to.w)
            if r is not None:
                return [(st, s.resign(st, r[1], to.w))]
        # mod 2^w
        x = st.fork()
        q = S(T.new("wrap", "v"))
        r = v - q * (1 << to.w)
        x.add(r + h)
        x.add(C(h - 1) - r)
        return [(x, r)]

    nowrap = False     # True: a narrowing to 32 or 16 bits is taken to keep the value
    _nolatch = False

    def is_probe_ty(s, ty):
        while ty.k == "array":
            ty = ty.el
        return ty.k == "struct" and (ty.name or "") in s.probe_types

    probe_types = {'%struct.Probe', '%class.Probe'}

    # ------------------------------------------------ intrinsics
    def intrinsic(s, st, name, args, I):
        if name.startswith("@llvm.memcpy") or name.startswith("@llvm.memmove"):
            n = args[2]
            if not isinstance(n, Poly):
                return [(s.unk_store(st.fork(), args[0]), None)]
            return [(x, None) for x in s.memcpy(st.fork(), args[0], args[1], n, "memcpy" if "memcpy" in name else "memmove")]
        if name.startswith("@llvm.memset"):
            n = args[2]
            if not isinstance(n, Poly):
                return [(s.unk_store(st.fork(), args[0]), None)]
            return [(x, None) for x in s.memset(st.fork(), args[0], args[1], n)]
        if name.startswith("@llvm.lifetime") or name.startswith("@llvm.assume") or name.startswith("@llvm.dbg") or "stacksave" in name or "stackrestore" in name or "prefetch" in name or "noalias.scope" in name:
            return [(st, None if I.ty.k == "void" else s.unk_of(st, I.ty))]
        m = re.match(r"@llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            op = m.group(2)
            w = int(m.group(3))
            rs = s.binop(st, op, args[0], args[1], IR.INT(w + 64), [])
            out = []
            for x, v in rs:
                out.append((x, Agg([v, s.overflow(x, v, m.group(1), w)])))
            return out
        if name.startswith("@llvm.trap"):
            s.do_abort(st)
            return []
        m = re.match(r"@llvm\.(fabs|sqrt|fmuladd|floor|ceil|pow|exp|log|sin|cos|maxnum|minnum|copysign|trunc|round|rint)", name)
        if m:
            return [(st, Term("fop", m.group(1), *args))]
        m = re.match(r"@llvm\.(smax|smin|umax|umin|abs)\.", name)
        if m and isinstance(args[0], Poly):
            a = args[0]
            if m.group(1) == "abs":
                return [(x, a if t else -a) for x, t in s.split(st, simplify(B("ge", a)))]
            b = args[1]
            mx = m.group(1).endswith("max")
            return [(x, (a if t else b) if mx else (b if t else a)) for x, t in s.split(st, simplify(B("ge", a - b)))]
        if name.startswith("@llvm.is.constant"):
            return [(st, False)]
        if name.startswith("@llvm.expect"):
            return [(st, args[0])]
        s.unsupported[name] = s.unsupported.get(name, 0) + 1
        return [(st, s.unk_of(st, I.ty) if I.ty.k != "void" else None)]

    def overflow(s, st, v, sg, w):
        return False

    def do_abort(s, st):
        if s.quiet:
            return
        s.aborts.append((st, s.where(), tuple(s.stack)))

    # ------------------------------------------------ loops
    def loop(s, fn, L, pred, st, env):
        """-> outcomes ('ret',...) or ('exit', st, env, to, frm) of the whole loop"""
        s.loopstat[0] += 1
        L.tried = set()
        hdr = fn.blocks[L.header]
        inits = {}
        for ph in hdr.phis:
            for v, b in ph.x:
                if b == pred:
                    inits[ph.res] = s.val(st, env, ph.ty, v)
                    break
        tys = {ph.res: ph.ty for ph in hdr.phis}
        latchval = {ph.res: [(v, b) for v, b in ph.x if b in L.body] for ph in hdr.phis}
        r = s._unroll(fn, L, st, env, inits, tys, latchval)
        if r is not None:
            return r
        # ---- guess affine steps syntactically
        steps = {}
        for ph in hdr.phis:
            steps[ph.res] = s.guess_step(fn, L, ph, st, env)
        cellmods = {}      # (oid, off, size) -> ('aff', init, step) | ('unk',)
        base_cons = len(st.cons)
        for attempt in range(8):
            k = T.new("k", "k")
            K = S(k)
            ok, res = s._loop_pass(fn, L, st, env, inits, tys, steps, cellmods, k, None, quiet=True)
            if res is None:
                # unsupported in body
                raise Unsupported("loop body")
            latches = [o for o in res if o[0] == "latch"]
            changed = s._verify_steps(fn, L, st, inits, tys, latchval, steps, cellmods, latches, k)
            if not changed:
                break
        else:
            raise Unsupported("loop does not stabilise")
        s.loopstat[1] += 1
        # ---- per-iteration effects and completion conditions
        base = {oid: (o.log, o.cells) for oid, o in st.objs.items()}
        effects = s._collect(st, latches, k, base, cellmods)
        if effects is None:
            raise Unsupported("loop effects")
        common, exact, lits = s._common(st, latches, base_cons, k)
        if not exact and lits and s.loopsplit < 5:
            # completion depends on loop-invariant conditions: analyse the loop separately under each of them
            s.loopsplit += 1
            try:
                p, e = lits[0]
                outs = []
                for q, qe in [(p, e)] + ([(-p - 1, False), (p - 1, False)] if e else [(-p - 1, False)]):
                    x = st.fork()
                    if x.assume(q, qe):
                        outs += s.loop(fn, L, pred, x, env)
                return outs
            finally:
                s.loopsplit -= 1
        if not latches:
            effects["#nolatch"] = True
        # ---- generic iteration with the effects of all earlier iterations in place
        outs = []
        if s.quiet:
            outs += s._final_pass(fn, L, st, env, inits, tys, steps, cellmods, effects, common, exact, k, None)
        else:
            probe = []
            n0 = len(s.reports)
            a0 = len(s.aborts)
            sv = (s.obl, s.proved)
            r = s._final_pass(fn, L, st, env, inits, tys, steps, cellmods, effects, common, exact, k, None)
            if len(s.reports) > n0 or len(s.aborts) > a0:
                # retry with the trip count split (k = 0 / k >= 1)
                del s.reports[n0:]
                del s.aborts[a0:]
                s.obl, s.proved = sv
                r = []
                for part in (("zero", "more") if latches else ("zero",)):
                    r += s._final_pass(fn, L, st, env, inits, tys, steps, cellmods, effects, common, exact, k, part)
            outs += r
        return outs

    UNROLL = 70
    loopsplit = 0

    def _hdr_cond(s, fn, L, st, env):
        """value of the header's branch condition, evaluated without side effects; None if not simple"""
        hdr = fn.blocks[L.header]
        t = hdr.ins[-1]
        if t.op != "br" or not t.a:
            return None
        s.quiet += 1
        sv = s.curins
        try:
            env2, y = dict(env), st.fork()
            for I in hdr.ins[:-1]:
                if I.op in ("call", "store", "alloca"):
                    if I.op != "call" or I.x.startswith("@llvm.") or I.x not in s.small(fn):
                        return None
                rs = s.step(fn, I, y, env2)
                if rs is None or len(rs) != 1:
                    return None
                y, v = rs[0]
                if I.res:
                    env2[I.res] = v
            return s.val(y, env2, IR.INT(1), t.a[0])
        except (Unsupported, KeyError):
            return None
        finally:
            s.quiet -= 1
            s.curins = sv

    def small(s, fn):
        return s.mod._pend

    def _unroll(s, fn, L, st, env, inits, tys, latchval):
        """loops whose header condition is decided by constants are followed iteration by iteration"""
        if s.unroll_all:
            return s._follow(fn, L, st, env, inits, tys, latchval)
        if not any(isinstance(v, Poly) and v.const() is not None or isinstance(v, Ptr) and v.off.const() is not None for v in inits.values()):
            return None
        e0 = dict(env)
        e0.update(inits)
        c = s._hdr_cond(fn, L, st, e0)
        if c is not True and c is not False:
            return None
        # quick dry run: does the condition stay constant?
        outs = []
        work = [(st, e0, 0)]
        svrep, svab, svo = len(s.reports), len(s.aborts), (s.obl, s.proved)
        total = 0
        while work:
            x, e, n = work.pop()
            total += 1
            c = s._hdr_cond(fn, L, x, e)
            if n > s.UNROLL or total > 400 or (c is not True and c is not False):
                del s.reports[svrep:]
                del s.aborts[svab:]
                s.obl, s.proved = svo
                return None
            for o in s.region(fn, L.header, "#hdr", x, e, L.body, L.header):
                if o[0] == "latch":
                    e2 = dict(o[2])
                    for r in inits:
                        for v, b in latchval[r]:
                            if b == o[3]:
                                e2[r] = s.val(o[1], o[2], tys[r], v)
                    work.append((o[1], e2, n + 1))
                else:
                    outs.append(o)
        return outs

    unroll_all = 0

    def _follow(s, fn, L, st, env, inits, tys, latchval):
        """bounded mode: every loop is followed iteration by iteration, all abstract branches included"""
        e0 = dict(env)
        e0.update(inits)
        outs = []
        work = [(st, e0, 0)]
        while work:
            x, e, n = work.pop()
            if n > s.unroll_all:
                s.endless(x)
                continue
            for o in s.region(fn, L.header, "#hdr", x, e, L.body, L.header):
                if o[0] == "latch":
                    e2 = dict(o[2])
                    for r in inits:
                        for v, b in latchval[r]:
                            if b == o[3]:
                                e2[r] = s.val(o[1], o[2], tys[r], v)
                    work.append((o[1], e2, n + 1))
                else:
                    outs.append(o)
        return outs

    def endless(s, st):
        raise Unsupported("loop longer than the unrolling bound at %s" % (s.where(),))

    def guess_step(s, fn, L, ph, st, env):
        for v, b in ph.x:
            if b in L.body and v[0] == "r":
                for bn in L.body:
                    for I in fn.blocks[bn].ins:
                        if I.res == v[1]:
                            if I.op in ("add", "sub") and ph.ty.k == "int":
                                if I.a[0] == ("r", ph.res) and I.a[1][0] == "i":
                                    return C(I.a[1][1] if I.op == "add" else -I.a[1][1])
                            if I.op == "getelementptr" and I.a[0][1] == ("r", ph.res) and len(I.a) == 2 and I.a[1][1][0] == "i":
                                return C(I.a[1][1][1] * s.mod.size(I.ty))
            elif b in L.body and v == ("r", ph.res):
                return ZERO
        return "sym"

    def _iter_env(s, st, env, inits, tys, steps, K):
        e = dict(env)
        for r, v in inits.items():
            step = steps[r]
            if step == "sym" or step == "unk":
                if isinstance(v, Ptr) and step == "sym" and v.o is not None:
                    e[r] = Ptr(v.o, S(T.get("itersym", "it_" + r + str(id(inits)), (K,))))
                else:
                    e[r] = S(T.get("itersym", "it_" + r + str(id(inits)), (K,))) if step == "sym" and tys[r].k == "int" and tys[r].w > 1 else s.unk_of(st, tys[r])
            elif isinstance(v, Ptr):
                e[r] = Ptr(v.o, v.off + K * step)
            elif isinstance(v, Poly):
                e[r] = v + K * step
            else:
                e[r] = v       # invariant (step zero)
        return e

    def _loop_pass(s, fn, L, st, env, inits, tys, steps, cellmods, k, effects, quiet):
        K = S(k)
        x = st.fork()
        x.add(K)
        e = s._iter_env(x, env, inits, tys, steps, K)
        s._set_cells(x, cellmods, K)
        disc = any(v == "sym" for v in steps.values())
        if quiet:
            s.quiet += 1
            svp, s.quiet_probe = s.quiet_probe, None
        svd = s.quiet_discover
        if disc:
            s.quiet_discover = True
        s._ne_invariant(fn, L, x, e, k, inits)
        try:
            res = s.region(fn, L.header, "#hdr", x, e, L.body, L.header)
        finally:
            if quiet:
                s.quiet -= 1
                s.quiet_probe = svp
            s.quiet_discover = svd
        return True, res

    def _set_cells(s, x, cellmods, K):
        for (oid, off, size), d in cellmods.items():
            if oid not in x.objs:
                continue
            if d[0] == "aff":
                v = d[1]
                if isinstance(v, Ptr):
                    nv = Ptr(v.o, v.off + K * d[2])
                else:
                    nv = v + K * d[2]
            elif d[0] == "sym":
                v = d[1]
                sy = S(T.get("itersym", "cell_%s_%d" % (oid, off), (K,)))
                nv = Ptr(v.o, sy) if isinstance(v, Ptr) and v.o is not None else sy
                if isinstance(v, (Term,)) or v is None or (isinstance(v, Ptr) and v.o is None):
                    nv = Term("unk", T.new("unk", "unk"))
            else:
                nv = Term("unk", T.new("unk", "unk"))
            s.put(x, oid, C(off), size, nv)

    def _ne_invariant(s, fn, L, x, e, k, inits):
        """header exits on equality of an affine quantity: it approaches its target monotonically"""
        hdr = fn.blocks[L.header]
        t = hdr.ins[-1]
        if t.op != "br" or not t.a:
            return
        cond = None
        for I in hdr.ins:
            if I.res is not None and ("r", I.res) == t.a[0] and I.op == "icmp" and I.x in ("eq", "ne"):
                cond = I
        if cond is None:
            return
        # evaluate the header silently
        s.quiet += 1
        try:
            env2 = dict(e)
            y = x.fork()
            for I in hdr.ins:
                if I is cond:
                    break
                rs = s.step(fn, I, y, env2)
                if rs is None or len(rs) != 1:
                    return
                y, v = rs[0]
                if I.res:
                    env2[I.res] = v
            a, b = s.val(y, env2, cond.ty, cond.a[0]), s.val(y, env2, cond.ty, cond.a[1])
        except Exception:
            return
        finally:
            s.quiet -= 1
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            d = a.off - b.off
        elif isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
        else:
            return
        r = d.coef1(k)
        if r is None:
            return
        c = r[0].const()
        if not c:
            return
        d0 = r[1].divexact(c)
        if d0 is None or k in d0.syms():
            return
        # d = c*(k + d0): hits zero at k = -d0 if d0 <= 0
        if x.ent(-d0):
            x.add(-d0 - S(k))
        # otherwise the loop would not terminate at equality: no invariant

    def _verify_steps(s, fn, L, st, inits, tys, latchval, steps, cellmods, latches, k):
        changed = False
        K = S(k)
        for r in inits:
            st_ = steps[r]
            if st_ == "unk":
                continue
            init = inits[r]
            vals = []
            for o in latches:
                for v, b in latchval[r]:
                    if b == o[3]:
                        vals.append((o[1], s.val(o[1], o[2], tys[r], v)))
            if not vals:
                continue
            if st_ == "sym":
                deltas = set()
                for x, v in vals:
                    cur = s._iter_env(x, {}, {r: init}, tys, steps, K)[r] if False else None
                # symbolic current value
                sym = T.get("itersym", "it_" + r + str(id(inits)), (K,))
                for x, v in vals:
                    if isinstance(v, Ptr) and isinstance(init, Ptr) and v.o == init.o:
                        v = v.off
                    if isinstance(v, Poly):
                        d = v - S(sym)
                        deltas.add(d if not (set(vsyms(d)) & s._bodysyms(d, k)) else None)
                    else:
                        deltas.add(None)
                if len(deltas) == 1 and None not in deltas:
                    steps[r] = deltas.pop()
                else:
                    steps[r] = "unk"
                changed = True
            else:
                good = True
                for x, v in vals:
                    if isinstance(init, Ptr):
                        want = Ptr(init.o, init.off + (K + 1) * st_)
                    elif isinstance(init, Poly):
                        want = init + (K + 1) * st_
                    else:
                        want = init
                    if v != want:
                        if isinstance(v, Poly) and isinstance(want, Poly) and x.ent(v - want, True):
                            continue
                        good = False
                if not good:
                    steps[r] = "sym" if st_ != "sym" and (r not in L.tried) else "unk"
                    L.tried.add(r)
                    changed = True
        # memory cells
        for o in latches:
            x = o[1]
            for oid, ob in x.objs.items():
                b = st.objs.get(oid)
                if b is None:
                    continue
                if ob is b:
                    continue
                mods = {}
                # constant-offset writes since loop entry
                for off, (n, kd, v) in ob.cells.items():
                    bc = b.cells.get(off) if b.log is ob.log else None
                    if bc is None or bc != (n, kd, v):
                        mods[(oid, off, n)] = v
                node = ob.log
                while node is not None and node is not b.log:
                    if node.ev.kind == "cells":
                        for off, (n, kd, v) in node.ev.val.items():
                            bc = b.cells.get(off)
                            if bc != (n, kd, v) and (oid, off, n) not in mods:
                                mods[(oid, off, n)] = v
                    node = node.prev
                for key, v in mods.items():
                    _, off, n = key
                    iv = b.cells.get(off)
                    if key not in cellmods:
                        # initial value at loop entry
                        if iv is None or iv[0] != n:
                            rr = s.query(st, Snap(b.id, b.log, b.cells), C(off), n)
                            ivv = rr[0][2] if len(rr) == 1 else None
                        else:
                            ivv = iv[2]
                        if ivv is not None and ivv == v:
                            continue
                        if isinstance(ivv, (Poly, Ptr)):
                            cellmods[key] = ("sym", ivv)
                        else:
                            # scratch written before being read in each iteration: unknown at entry
                            cellmods[key] = ("unk", ivv)
                        changed = True
                    else:
                        d = cellmods[key]
                        if d[0] == "sym":
                            ivv = d[1]
                            sy = S(T.get("itersym", "cell_%s_%d" % (oid, off), (K,)))
                            vv = v.off if isinstance(v, Ptr) and isinstance(ivv, Ptr) and v.o == ivv.o else v
                            dl = None
                            if isinstance(vv, Poly):
                                dl = vv - sy
                                if set(vsyms(dl)) & s._bodysyms(dl, k):
                                    dl = None
                            prev = L.delta.get(key, "none")
                            if dl is None or (prev != "none" and prev != dl):
                                cellmods[key] = ("unk", ivv)
                            else:
                                L.delta[key] = dl
                                L.pending[key] = (ivv, dl)
                            changed = True
                        elif d[0] == "aff":
                            want = Ptr(d[1].o, d[1].off + (K + 1) * d[2]) if isinstance(d[1], Ptr) else d[1] + (K + 1) * d[2]
                            if v != want and not (isinstance(v, Poly) and isinstance(want, Poly) and x.ent(v - want, True)):
                                cellmods[key] = ("unk", d[1])
                                changed = True
        for key, (ivv, dl) in list(L.pending.items()):
            if cellmods.get(key, ("",))[0] == "sym":
                cellmods[key] = ("aff", ivv, dl)
        L.pending.clear()
        L.delta.clear()
        return changed

    def _bodysyms(s, v, k):
        """symbols of v that depend on the iteration"""
        out = set()
        for i in vsyms(v):
            if i == k or T.info[i][0] in ("itersym", "unk", "k"):
                out.add(i)
        return out

    def _born(s, st, v, k):
        """symbols in v that were created inside the iteration (not known before the loop)"""
        return [i for i in vsyms(v) if i != k and i not in s._known and not T.info[i][2] and T.info[i][0] not in ("q",)]

    def _common(s, st, latches, base_cons, k):
        """constraints that hold whenever an iteration completes, and whether dropping the others loses nothing"""
        sets = []
        mark = k
        exact = True
        for o in latches:
            cs = [c for c in o[1].cons[base_cons:] if c != (S(k), False)]
            keep = []
            for c in cs:
                if any(i > k and i != k and not T.info[i][2] and T.info[i][0] != "q" for i in vsyms(c[0])):
                    # speaks about a value created inside the iteration
                    if any(T.info[i][0] not in ("q",) for i in vsyms(c[0]) if i > k):
                        if not s._harmless(c, k):
                            exact = False
                    continue
                keep.append(c)
            sets.append(keep)
            if o[1].approx:
                exact = False
        if not sets:
            return [], True, []
        com = [c for c in sets[0] if all(c in x for x in sets[1:])]
        rest = [[c for c in x if c not in com and not entails(st.cons + com + [(S(k), False)], c[0], c[1])] for x in sets]
        if exact and not covers(list(st.cons) + com + [(S(k), False)], rest, [0]):
            exact = False
        lits = []
        if not exact:
            for x in rest:
                for p, e in x:
                    if (p, e) not in lits and all(i < k for i in vsyms(p)) and not any(T.info[i][0] in ("q", "itersym") for i in vsyms(p)):
                        lits.append((p, e))
            lits = [l for l in lits if not entails(st.cons, -l[0] - 1, False)] if not s.quiet else lits
        return com, exact, lits

    def _harmless(s, c, k):
        # definitional constraints of fresh symbols (allocation addresses, trip counts, quotients)
        for i in vsyms(c[0]):
            if i > k and T.info[i][0] in ("addr", "k", "v", "div"):
                return True
        return False

    def _collect(s, st, latches, k, base, cellmods):
        """effects of one completed iteration: [(oid, Ev)] in program order, per latch path"""
        eff = {}
        K = S(k)
        base_n = len(st.cons)
        multi = len(latches) > 1
        for o in latches:
            x = o[1]
            guards = [c for c in x.cons[base_n:] if c != (K, False)]
            g2 = []
            fz = bool(x.approx)
            for c in guards:
                born = [i for i in vsyms(c[0]) if i > k and T.info[i][0] != "q"]
                if born:
                    if any(T.info[i][0] in IMPRECISE for i in born):
                        fz = True
                    continue
                if any(T.info[i][0] in IMPRECISE for i in vsyms(c[0])):
                    fz = True
                g2.append(c)
            # drop guards entailed by entry state
            g3 = [c for c in g2 if not entails(st.cons + [(K, False)], c[0], c[1])]
            for oid, ob in x.objs.items():
                if oid not in base:
                    if ob.kind == "heap" and ob.alive:
                        return None     # allocation surviving an iteration
                    continue
                b = st.objs[oid]
                if ob is b:
                    continue
                if ob.alive != b.alive:
                    return None
                evs = []
                node = ob.log
                n = 0
                while node is not None and node is not b.log:
                    n += 1
                    e = node.ev
                    if e.kind == "cells":
                        pass
                    else:
                        evs.append(e)
                    node = node.prev
                if node is None and b.log is not None:
                    return None
                for e in reversed(evs):
                    if e.kind == "havoc":
                        eff.setdefault(oid, []).append(e)
                        continue
                    born = [i for i in (vsyms(e.off) | vsyms(e.g)) if i > k and T.info[i][0] != "q" and i not in e.q]
                    if e.kind == "copy":
                        born += [i for i in vsyms(e.val[1]) | snap_syms(e.val[0]) if i > k and not T.info[i][2] and T.info[i][0] not in ("q",)]
                    fuzzy = e.fuzzy or fz or bool([i for i in born])
                    v = e.val
                    if e.kind != "copy" and [i for i in vsyms(v) if i > k and T.info[i][0] not in ("q",) and i not in e.q and not T.info[i][2]]:
                        v = Term("unk", T.new("unk", "unk"))
                    eff.setdefault(oid, []).append(Ev(e.kind, e.off, e.size, v, e.q, tuple(e.g) + tuple(g3), e.loc, fuzzy))
        return eff

    def _apply_effects(s, x, effects, k, K2):
        """append the effects of iterations 0..K2-1"""
        for oid, evs in effects.items():
            if oid == "#nolatch" or oid not in x.objs:
                continue
            for e in evs:
                o = x.wobj(oid)
                s.flush(o)
                if e.kind == "havoc":
                    o.log = Node(o.log, e)
                    continue
                q = T.new("k", "q")
                Q = S(q)
                ren = {k: Q}
                # refresh the event's own bound variables
                for z in e.q:
                    ren[z] = S(T.new("j", "q"))
                newq = [q] + [list(ren[z].syms())[0] for z in e.q]
                g = [(subst(p, ren), eq) for p, eq in e.g]
                g += [(Q, False), (K2 - 1 - Q, False)]
                val = e.val
                if e.kind == "copy":
                    # the source contents may depend on the iteration
                    val = (snap_subst(e.val[0], ren), subst(e.val[1], ren))
                    fz = e.fuzzy
                else:
                    val = subst(val, ren)
                    fz = e.fuzzy
                o.log = Node(o.log, Ev(e.kind, subst(e.off, ren), e.size, val, newq, g, e.loc, fz))

    def _final_pass(s, fn, L, st, env, inits, tys, steps, cellmods, effects, common, exact, k, part):
        k2 = T.new("k", "k")
        K2 = S(k2)
        x = st.fork()
        if part == "zero":
            x.add(K2, True)
            K2v = ZERO
        else:
            x.add(K2 if part is None else K2 - 1)
            K2v = K2
            if part == "more":
                for sub in (ZERO, K2 - 1):
                    for p, e in common:
                        if not x.add(subst(p, {k: sub}), e):
                            return []
                if not feasible(x.cons):
                    return []
                if not exact:
                    x.approx = x.approx or "loop completion condition over-approximated"
            s._apply_effects(x, effects, k, K2v)
        e = s._iter_env(x, env, inits, tys, steps, K2v)
        s._set_cells(x, cellmods, K2v)
        s._ne_invariant(fn, L, x, e, k2, inits)
        res = s.region(fn, L.header, "#hdr", x, e, L.body, L.header)
        outs = []
        for o in res:
            if o[0] == "latch":
                continue
            y = o[1]
            if part is None and effects.get("#nolatch"):
                z = y.fork()
                if z.assume(K2, True):
                    outs.append(s._pin(z, o, k2))
                continue
            if part is None:
                # partition on the trip count
                z = y.fork()
                if z.assume(K2, True):
                    outs.append(s._pin(z, o, k2))
                z = y.fork()
                if z.assume(K2 - 1):
                    bad = False
                    for sub in (ZERO, K2 - 1):
                        for p, e_ in common:
                            if not z.add(subst(p, {k: sub}), e_):
                                bad = True
                    if not bad and feasible(z.cons):
                        if not exact:
                            z.approx = z.approx or "loop completion condition over-approximated"
                        outs.append(s._pin(z, o, k2))
            else:
                outs.append(s._pin(y, o, k2))
        return outs

    def val_eq(s, st, a, b):
        """-> True / False (definitely may differ) / None (unknown), with the polynomial that distinguishes them"""
        if a == b:
            return True, None
        for v in (a, b):
            if any(T.info[i][0] in IMPRECISE for i in vsyms(v)) or (isinstance(v, Term) and v.op in ("unk",)) or v is None:
                return None, None
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            ra = s.b2i(st, a) if isinstance(a, (B, bool)) else [(st, a)]
            diff = None
            for x, va in ra:
                for y, vb in (s.b2i(x, b) if isinstance(b, (B, bool)) else [(x, b)]):
                    if not isinstance(va, Poly) or not isinstance(vb, Poly):
                        return None, None
                    r = s.val_eq(y, va, vb)
                    if r[0] is not True:
                        return False, (y if r[1] is None else r[1])
            return True, None
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            if st.ent(d, True):
                return True, None
            return False, d
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o != b.o:
                return False, None
            return s.val_eq(st, a.off, b.off)
        ta, tb = valterm(a), valterm(b)
        if ta is not None and isinstance(b, Term):
            return s.val_eq(st, ta, b)
        if tb is not None and isinstance(a, Term):
            return s.val_eq(st, a, tb)
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.a) == len(b.a):
            d = None
            for x, y in zip(a.a, b.a):
                if x == y:
                    continue
                if isinstance(x, (Poly, Term, Ptr)) and isinstance(y, (Poly, Term, Ptr)):
                    r, dd = s.val_eq(st, x, y)
                    if r is True:
                        continue
                    return r, dd
                return False, None
            return True, None
        return False, None

    def _pin(s, z, o, k2):
        """if the trip count is determined, substitute it"""
        K = S(k2)
        sol = None
        if z.ent(K, True):
            sol = ZERO
        else:
            cands = []
            for p, e in z.cons:
                r = p.coef1(k2)
                if r is None:
                    continue
                c = r[0].const()
                if c in (1, -1) and k2 not in vsyms(r[1]):
                    cands.append(r[1] * (-c) if True else None)
            for c in cands:
                v = c
                if (K - v).const() is None and z.ent(K - v, True):
                    if sol is None or len(v.t) < len(sol.t):
                        sol = v
        if sol is not None:
            m = {k2: sol}
            cons = z.cons
            z.cons, z.cset = [], set()
            for p, e in cons:
                z.add(subst(p, m) if k2 in vsyms(p) else p, e)
            for oid in list(z.objs):
                ob = z.objs[oid]
                no = s._subst_obj(ob, m, k2)
                if no is not ob:
                    z.objs[oid] = no
            env = {}
            for r, v in o[2 if o[0] != "ret" else 3].items():
                env[r] = subst(v, m) if isinstance(v, (Poly, Ptr, Term, B, Agg)) else v
            if o[0] == "ret":
                rv = o[2]
                return ("ret", z, subst(rv, m) if isinstance(rv, (Poly, Ptr, Term, B, Agg)) else rv, env)
            return (o[0], z, env) + tuple(o[3:])
        return (o[0], z) + tuple(o[2:])

    def _subst_obj(s, ob, m, k2):
        cells = None
        for off, (n, kd, v) in ob.cells.items():
            if k2 in vsyms(v):
                if cells is None:
                    cells = dict(ob.cells)
                cells[off] = (n, kd, subst(v, m))
        size = subst(ob.size, m) if ob.size is not None and k2 in vsyms(ob.size) else ob.size
        # log: substitute from the first node that mentions k2
        chain = []
        node = ob.log
        last = None
        while node is not None:
            chain.append(node)
            e = node.ev
            if e.kind == "cells":
                d = any(k2 in vsyms(v) for (_, _, v) in e.val.values())
            elif e.kind == "havoc":
                d = False
            else:
                d = k2 in vsyms(e.off) or k2 in vsyms(e.g) or k2 in vsyms(e.val if e.kind != "copy" else e.val[1]) or (e.kind == "copy" and k2 in snap_syms(e.val[0]))
            if d:
                last = len(chain)
            node = node.prev
        if cells is None and last is None and size is ob.size:
            return ob
        o = ob.copy()
        o.size = size
        if cells is not None:
            o.cells = cells
        if last is not None:
            nd = chain[last - 1].prev
            for n_ in reversed(chain[:last]):
                e2 = n_.ev
                if e2.kind != "havoc":
                    e2 = e2.subst(m)
                if e2 is None:
                    continue
                nd = Node(nd, e2)
            o.log = nd
        return o


import re
IRBIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}


def valterm(p):
    """the memory value whose integer reading p is"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and T.info[m[0]][1].startswith("val") and len(T.info[m[0]]) > 2:
            return T.info[m[0]][2][0]
    return None


def fval(v):
    """the double a term of constants is (IEEE operations on doubles are those of Python), or None"""
    if isinstance(v, Poly):
        c = v.const()
        return float(c) if c is not None and abs(c) < 1 << 53 else None
    if not isinstance(v, Term):
        return None
    if v.op == "const":
        try:
            return float(v.a[0])
        except ValueError:
            return None
    if v.op in ("sitofp", "uitofp"):
        return fval(v.a[0]) if isinstance(v.a[0], Poly) else None
    if v.op == "sqrt" or (v.op == "fop" and v.a[0] == "sqrt"):
        x = fval(v.a[-1])
        return None if x is None or not x >= 0 else math.sqrt(x)
    if v.op == "fop":
        k, xs = v.a[0], [fval(x) for x in v.a[1:]]
        if None in xs or any(x != x or abs(x) > 1e300 for x in xs):
            return None
        if k == "fneg":
            return -xs[0]
        if k == "fabs":
            return abs(xs[0])
        if k == "fmuladd" and len(xs) == 3:
            return xs[0] * xs[1] + xs[2]
        if len(xs) == 2:
            a, b = xs
            if k == "fadd":
                return a + b
            if k == "fsub":
                return a - b
            if k == "fmul":
                return a * b
            if k == "fdiv" and b != 0:
                return a / b
    return None


def fcmp_const(p, a, b):
    if a is None or b is None or a != a or b != b:
        return None
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(p[1:]) if p[0] in "ou" and len(p) == 3 and p not in ("ord", "uno") else {"ord": True, "uno": False, "true": True, "false": False}.get(p)


def fconst(txt, ty):
    import struct
    try:
        if txt.startswith("0x") and not txt.startswith(("0xK", "0xL", "0xM", "0xH", "0xR")):
            f = struct.unpack(">d", struct.pack(">Q", int(txt, 16)))[0]
        else:
            f = float(txt)
        if f == 0:
            return Term("const", "0")
        return Term("const", repr(f))
    except ValueError:
        return Term("const", txt)


def cstr_bytes(tok, n):
    if not tok.startswith('c"'):
        return bytes(n)
    out = bytearray()
    b = tok[2:-1]
    i = 0
    while i < len(b):
        if b[i] == "\\":
            if b[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out += b[i].encode()
            i += 1
    return bytes(out)


def covers(cons, sets, budget):
    """does every point of `cons` satisfy one of the conjunctions?"""
    budget[0] += 1
    if budget[0] > 60:
        return False
    live = []
    for x in sets:
        y = []
        dead = False
        for p, e in x:
            if (p, e) in cons:
                continue
            if entails(cons, p, e):
                continue
            y.append((p, e))
        if y and not feasible(cons + y):
            dead = True
        if dead:
            continue
        if not y:
            return True
        live.append(y)
    if not feasible(cons):
        return True
    if not live:
        return False
    p, e = live[0][0]
    alts = [(p, e)] + ([(-p - 1, False), (p - 1, False)] if e else [(-p - 1, False)])
    for q, qe in alts:
        r = norm(q, qe)
        if r is False:
            continue
        c2 = cons if r is True else cons + [r]
        if not feasible(c2):
            continue
        if not covers(c2, live, budget):
            return False
    return True


class Loop:
    def __init__(s, header):
        s.header = header
        s.body = set()
        s.tried = set()
        s.delta = {}
        s.pending = {}


def find_loops(fn):
    order = fn.order
    # dominators (iterative)
    idx = {}
    rpo = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(fn.blocks[b].succ))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    stack.append((t, iter(fn.blocks[t].succ)))
                    break
            else:
                rpo.append(n)
                stack.pop()
    dfs(order[0])
    rpo.reverse()
    for i, b in enumerate(rpo):
        idx[b] = i
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in fn.blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == order[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for t in fn.blocks[b].succ:
            if t in idom and dom(t, b):
                L = loops.setdefault(t, Loop(t))
                L.body.add(t)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.body:
                        L.body.add(x)
                        st += [p for p in fn.blocks[x].pred if p in idx]
    return loops


# ---------------------------------------------------------------- models of external functions
def m_malloc(E, st, name, args):
    n = args[0]
    if not isinstance(n, Poly):
        n = S(T.new("unk", "unk"))
    if not E.oblige(st, n, "alloc", "allocation with a negative size"):
        return []
    oid = E.new_obj(st, "heap", n, "block", probe=False)
    return [(st, Ptr(oid, ZERO))]


def m_free(E, st, name, args):
    p = args[0]
    if isinstance(p, Ptr):
        if p.o is None:
            if p.off.const() == 0:
                return [(st, None)]
            E.violate(st, "free", "release of an invalid pointer")
            return []
        o = st.objs.get(p.o)
        if o is None or o.kind == "opaque":
            return [(st, None)]
        if o.kind != "heap":
            E.violate(st, "free", "release of storage that was not allocated (%s)" % o.name)
            return []
        if not o.alive:
            E.violate(st, "free", "storage %s is released twice" % o.name)
            return []
        if not E.oblige(st, p.off, "free", "release of a pointer into the middle of a block", eq=True):
            return []
        E.on_free(st, o)
        w = st.wobj(p.o)
        w.alive = False
        return [(st, None)]
    if isinstance(p, Term) and p.op == "undef":
        E.violate(st, "uninit", "release of an uninitialised pointer")
        return []
    return [(st, None)]


def on_free(E, st, o):
    """releasing a block of class-type elements: every element must already be destroyed"""
    if not o.probe or E.quiet:
        return
    q = E.generic_offset(st, o)
    if q is None:
        return
    for x, off in q:
        for y, status, v in E.query(x, Snap(o.id, o.log, o.cells), off, 8, True):
            if status == "live":
                E.violate(y, "life", "storage %s is released while an element is still alive" % o.name)
            elif status == "raw":
                E.obl += 1
                E.proved += 1


Engine.on_free = on_free


def generic_offset(E, st, o):
    """a generic element offset of a block -> [(st, off)]"""
    x = st.fork()
    size = o.size
    n = size.divexact(8)
    if n is None:
        return None
    # multi-dimensional block: express the offset in the strides used by its events
    strides = E.block_strides(o)
    if not strides:
        e = fresh("e")
        x.add(e)
        if not x.assume(n - 1 - e):
            return []
        return [(x, e * 8)]
    off = ZERO
    # strides: list of Poly, largest first: off = sum e_i * stride_i + e0
    prev = None
    for sdx, sv in enumerate(strides):
        e = fresh("e")
        x.add(e)
        off = off + e * sv
        if sdx > 0:
            # e < strides[sdx-1]/sv
            q, r = E._polydiv(strides[sdx - 1], sv)
            if r.t:
                return None
            x.add(q - 1 - e)
    e0 = fresh("e")
    x.add(e0)
    x.add(strides[-1] - 1 - e0)
    off = off + e0
    if not x.assume(n - 1 - off):
        return []
    return [(x, off * 8)]


Engine.generic_offset = generic_offset


def block_strides(E, o):
    ss = {}
    node = o.log
    while node is not None:
        e = node.ev
        if e.off is not None:
            for k in e.q:
                r = e.off.coef1(k)
                if r is None:
                    continue
                c = r[0]
                if c.const() is None:
                    d = c.divexact(8)
                    if d is not None and len(d.t) == 1 and list(d.t.values())[0] in (1, -1):
                        ss[Poly({list(d.t)[0]: 1})] = 1
        node = node.prev
    out = sorted(ss, key=lambda p: -max(len(m) for m in p.t))
    # keep a chain where each divides the previous
    ch = []
    for p in out:
        if not ch:
            ch.append(p)
        else:
            q, r = E._polydiv(ch[-1], p)
            if not r.t and q != ONE:
                ch.append(p)
    return ch


Engine.block_strides = block_strides


def m_abort(E, st, name, args):
    E.do_abort(st)
    return []


def m_noret(E, st, name, args):
    return []


def m_probe_ctor(E, st, name, args):
    p = args[0]
    out = []
    for x, _ in E.probe_at(st, p, "raw", "construction"):
        E.probe_put(x, p, "ctor", Term("default"))
        out.append((x, None))
    return out


def m_probe_ctor_arg(E, st, name, args):
    p = args[0]
    out = []
    for x, _ in E.probe_at(st, p, "raw", "construction"):
        E.probe_put(x, p, "ctor", Term("made", *[a for a in args[1:]]))
        out.append((x, None))
    return out


def probe_put(E, st, p, kind, v):
    if not isinstance(p, Ptr) or p.o not in st.objs or st.objs[p.o].kind == "opaque":
        return
    E.put(st, p.o, p.off, 8, v, kind)
    o = st.objs[p.o]
    if not o.probe:
        o = st.wobj(p.o)
        o.probe = True


Engine.probe_put = probe_put


def m_probe_copy(E, st, name, args):
    out = []
    for x, v in E.probe_at(st, args[1], "live", "copying from"):
        for y, _ in E.probe_at(x, args[0], "raw", "construction"):
            E.probe_put(y, args[0], "ctor", v)
            out.append((y, None))
    return out


def m_probe_move(E, st, name, args):
    out = []
    for x, v in E.probe_at(st, args[1], "live", "moving from"):
        for y, _ in E.probe_at(x, args[0], "raw", "construction"):
            E.probe_put(y, args[1], "w", Term("movedfrom"))
            E.probe_put(y, args[0], "ctor", v)
            out.append((y, None))
    return out


def m_probe_assign(E, st, name, args):
    out = []
    for x, v in E.probe_at(st, args[1], "live", "assigning from"):
        for y, _ in E.probe_at(x, args[0], "live", "assigning to"):
            E.probe_put(y, args[0], "w", v)
            out.append((y, args[0]))
    return out


def m_probe_massign(E, st, name, args):
    out = []
    for x, v in E.probe_at(st, args[1], "live", "moving from"):
        for y, _ in E.probe_at(x, args[0], "live", "assigning to"):
            E.probe_put(y, args[1], "w", Term("movedfrom"))
            E.probe_put(y, args[0], "w", v)
            out.append((y, args[0]))
    return out


def m_probe_dtor(E, st, name, args):
    out = []
    for x, v in E.probe_at(st, args[0], "live", "destroying"):
        E.probe_put(x, args[0], "dtor", Term("destroyed"))
        out.append((x, None))
    return out


def m_probe_eq(E, st, name, args):
    out = []
    for x, a in E.probe_at(st, args[0], "live", "comparing"):
        for y, b in E.probe_at(x, args[1], "live", "comparing"):
            out.append((y, E.opaque_pred(y, "probe_eq", a, b)))
    return out


def m_memcmp(E, st, name, args):
    n = args[2]
    if isinstance(n, Poly):
        for a in args[:2]:
            if n.const() != 0 and not (st.ent(n, True)):
                x = st.fork()
                if x.assume(n - 1):
                    E.check_access(x, a, n, "memcmp")
    return [(st, S(T.new("memcmp", "v")))]


def m_strlen(E, st, name, args):
    p = args[0]
    n = None
    if isinstance(p, Ptr) and p.o in st.objs:
        o = st.objs[p.o]
        if o.kind == "global" and o.name == "literal" and p.off.const() is not None:
            k = p.off.const()
            while o.cells.get(k, (1, "w", ZERO))[2].const() != 0:
                k += 1
            return [(st, C(k - p.off.const()))]
        n = S(T.get("strlen", "strlen", (p,)))
        st.add(n)
        if o.size is not None:
            st.add(o.size - 1 - n - p.off)
        return [(st, n)]
    n = S(T.new("unk", "unk"))
    st.add(n)
    return [(st, n)]


def m_safe(op):
    """il::safeSum/safeProduct/safeDifference: exact result; overflow (an address-space-sized request) is out of the
    analysed range, its detection is decided by the arithmetic property itself."""
    def f(E, st, name, args):
        vals = args[:-1]
        err = args[-1]
        if not all(isinstance(v, Poly) for v in vals):
            return [(E.store(st, err, 1, ZERO) or st, S(T.new("unk", "unk")))]
        r = vals[0]
        for v in vals[1:]:
            r = r + v if op == "+" else r * v if op == "*" else r - v
        st = E.store(st, err, 1, ZERO)
        return [(st, r)] if st is not None else []
    return f


MODEL_PATS = [
    (re.compile(r"^@_ZN2il11safeProduct"), m_safe("*")),
    (re.compile(r"^@_ZN2il7safeSum"), m_safe("+")),
    (re.compile(r"^@_ZN2il14safeDifference"), m_safe("-")),
]
Engine.model_pats = MODEL_PATS

MODELS = {
    "@malloc": m_malloc, "@free": m_free, "@abort": m_abort, "@exit": m_noret, "@_Znwm": m_malloc, "@_Znam": m_malloc,
    "@_ZdlPv": m_free, "@_ZdaPv": m_free, "@_ZdlPvm": m_free, "@_ZdaPvm": m_free, "@_mm_malloc": m_malloc,
    "@_ZN5ProbeC1Ev": m_probe_ctor, "@_ZN5ProbeC2Ev": m_probe_ctor,
    "@_ZN5ProbeC1ERKS_": m_probe_copy, "@_ZN5ProbeC2ERKS_": m_probe_copy,
    "@_ZN5ProbeC1EOS_": m_probe_move, "@_ZN5ProbeC2EOS_": m_probe_move,
    "@_ZN5ProbeaSERKS_": m_probe_assign, "@_ZN5ProbeaSEOS_": m_probe_massign,
    "@_ZN5ProbeD1Ev": m_probe_dtor, "@_ZN5ProbeD2Ev": m_probe_dtor,
    "@_ZNK5ProbeeqERKS_": m_probe_eq, "@_ZN5ProbeC1Ell": m_probe_ctor_arg, "@_ZN5ProbeC1El": m_probe_ctor_arg,
    "@memcmp": m_memcmp, "@strlen": m_strlen,
    "@_ZSt9terminatev": m_noret, "@__assert_fail": m_abort, "@__clang_call_terminate": m_noret,
}
