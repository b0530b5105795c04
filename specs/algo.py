"""il/algorithm/algorithmArray.h, il/math.h, il/norm.h: every array of up to a few elements, whose elements are unknown numbers.
Every comparison of elements splits the abstract state, so each ordering of the elements is one path."""
import itertools
from reals import *

PRE_A = '''
#include <il/Array.h>
#include <il/StaticArray.h>
#include <il/math.h>
#include <il/algorithm/algorithmArray.h>
#include <new>
#include <utility>
template <typename T> static il::Array<T> mk(const T* p, il::int_t n) { il::Array<T> v{n}; if (n % 2 == 0) v.Reserve(n + 2); for (il::int_t i = 0; i < n; ++i) v[i] = p[i]; return v; }
template <typename T> static void out(const il::Array<T>& v, T* q) { for (il::int_t i = 0; i < v.size(); ++i) q[i] = v[i]; }
'''
BIG = 1 << 24


class Alg:
    def __init__(s, prop, T_):
        s.prop, s.T = prop, T_
        s.g = Group("alg_%s" % {"double": "d", "il::int_t": "l", "float": "f", "int": "i"}[T_], PRE_A)
        s.g.life = prop
        s.es = {"double": 8, "il::int_t": 8, "float": 4, "int": 4}[T_]
        s.real = T_ in ("double", "float")
        s.ty = {"double": IR.DOUBLE, "il::int_t": IR.INT(64), "float": IR.FLOAT if hasattr(IR, "FLOAT") else IR.DOUBLE, "int": IR.INT(32)}[T_]

    def values(s, cx, st, n, tag="x"):
        """n unknown elements -> pointer, list of Poly"""
        o = cx.obj(st, max(n, 1) * s.es, tag)
        vs = []
        for i in range(n):
            if s.real:
                t = Term("init", tag, C(i))
                cx.put(st, o, i * s.es, s.es, t)
                vs.append(poly(t))
            else:
                v = char(st, tag, -BIG, BIG)
                cx.put(st, o, i * s.es, s.es, v)
                vs.append(v)
        st.wobj(o).ro = True
        return Ptr(o, ZERO), vs

    def start(s, cx):
        cx.E.no_nan = True
        cx.E.unroll_all = 80
        cx.E.max_steps = 3000000
        cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")
        return cx.st()

    def result(s, cx, st, r, spec, what):
        check(cx, st, r, spec, what)

    def reduce(s, name, body, ns, spec, ret=None, range_=False, empty=True, cls="Array", pre=None):
        """r = body over v (and range b, e) equals spec(ask, xs) for every length in ns; refuses what is empty or out of range"""
        T_ = s.T
        ret = ret or T_

        def run(cx):
            for n in ns:
                rs = [(None, None)] if not range_ else [(b, e) for b in range(n) for e in range(b + 1, n + 1)]
                for b, e in rs:
                    st = s.start(cx)
                    p, xs = s.values(cx, st, n)
                    if pre is not None and not pre(st, xs):
                        continue
                    args = [p, C(n)] + ([C(b), C(e)] if range_ else [])
                    sub = xs[b:e] if range_ else xs
                    for x, r in cx.run(st, args):
                        cx.states += 1
                        s.result(cx, x, r, lambda ask: spec(ask, sub, b or 0), "%s of %d elements%s" % (name.split("_")[0], n, " in [%d, %d)" % (b, e) if range_ else ""))
                    cx.no_abort()
                    cx.E.aborts = []
            bad = ([(0, None, None)] if empty else []) if not range_ else [(3, 1, 1), (3, 2, 1), (3, 0, 4), (3, -1, 2), (0, 0, 0)]
            for n, b, e in bad:
                st = s.start(cx)
                p, xs = s.values(cx, st, n)
                args = [p, C(n)] + ([C(b), C(e)] if range_ else [])
                for x, r in cx.run(st, args):
                    cx.states += 1
                    if world(x):
                        cx.fail(x, "unchecked", "%s accepts %s" % (name.split("_")[0], "an empty array" if not range_ else "the range [%d, %d) of an array of %d elements" % (b, e, n)))
                cx.E.aborts = []
        s.g.case(s.prop, name, "(const %s* p, il::int_t n%s)" % (T_, ", il::int_t b, il::int_t e" if range_ else ""),
                 "il::Array<%s> v = mk<%s>(p, n); return %s;" % (T_, T_, body), run, ret)

    def both(s, name, ns, spec, ret=None):
        s.reduce(name, "il::%s(v)" % name, ns, spec, ret)
        s.reduce(name + "_range", "il::%s(v, il::Range{b, e})" % name, ns, spec, ret, True)


def first_best(ask, xs, better):
    k = 0
    for i in range(1, len(xs)):
        if better(ask, xs[i], xs[k]):
            k = i
    return k


def gt(ask, a, b):
    return not ask.ge(b - a)


def g_algorithms(T_):
    a = Alg("G01", T_)
    T_ = a.T
    ns = (1, 2, 3)
    a.both("min", ns, lambda ask, xs, b: r_min(ask, xs))
    a.both("max", ns, lambda ask, xs, b: r_max(ask, xs))
    a.both("maxAbs", ns, lambda ask, xs, b: r_max(ask, [r_abs(ask, x) for x in xs]))
    I = "il::int_t"
    a.both("indexMin", ns, lambda ask, xs, b: C(b + first_best(ask, xs, lambda q, x, y: gt(q, y, x))), I)
    a.both("indexMax", ns, lambda ask, xs, b: C(b + first_best(ask, xs, gt)), I)
    a.both("indexMaxAbs", ns, lambda ask, xs, b: C(b + first_best(ask, [r_abs(ask, x) for x in xs], gt)), I)
    for w, f in (("min", r_min), ("max", r_max)):
        a.reduce("minMax_" + w, "il::minMax(v).%s" % w, ns, lambda ask, xs, b, f=f: f(ask, xs))
        a.reduce("minMax_%s_range" % w, "il::minMax(v, il::Range{b, e}).%s" % w, ns, lambda ask, xs, b, f=f: f(ask, xs), None, True)
    if a.real:
        def mean(xs):
            t = ZERO
            for x in xs:
                t = t + x
            return quot(t, len(xs))

        def var(xs, k):
            m = mean(xs)
            t = ZERO
            for x in xs:
                t = t + (x - m) * (x - m)
            return quot(t, len(xs) - k)
        a.reduce("mean", "il::mean(v)", ns, lambda ask, xs, b: mean(xs))
        for k, nm in ((0, "Population"), (1, "Sample")):
            nn = [n for n in ns if n > k]
            a.reduce("variance_" + nm, "il::variance(v, il::VarianceKind::%s)" % nm, nn, lambda ask, xs, b, k=k: var(xs, k))
            a.reduce("meanVariance_v" + nm, "il::meanVariance(v, il::VarianceKind::%s).variance" % nm, nn, lambda ask, xs, b, k=k: var(xs, k))
            a.reduce("meanVariance_m" + nm, "il::meanVariance(v, il::VarianceKind::%s).mean" % nm, nn, lambda ask, xs, b, k=k: mean(xs))

    # sorting: the result is in order and holds the same elements
    def sorting(ns, known=None):
        def run(cx):
            for n in ns:
                st = a.start(cx)
                p, xs = a.values(cx, st, n)
                if known is not None:
                    # some elements have a definite value
                    for i, v in enumerate(known(n)):
                        if v is not None:
                            st.wobj(p.o).cells[i * a.es] = (a.es, "w", C(v))
                            xs[i] = C(v)
                q = cx.obj(st, max(n, 1) * a.es, "q")
                st.wobj(q)
                for x, r in cx.run(st, [p, C(n), Ptr(q, ZERO)]):
                    cx.states += 1
                    got = []
                    for i in range(n):
                        c = cx.E.load(x, Ptr(q, C(i * a.es)), a.es, a.ty, "result")
                        got.append(poly(c[0][1]) if c else None)
                    if None in got:
                        continue
                    for w in (world(x)):
                        left = list(xs)
                        for i, v in enumerate(got):
                            k = next((k for k, o in enumerate(left) if (v - o).const() == 0), None)
                            if k is None:
                                # equal to one of the remaining elements on this path?
                                k = next((k for k, o in enumerate(left) if w.ent(v - o) and w.ent(o - v)), None)
                            if k is None:
                                cx.fail(w, "post", "sort: element %d of the result is not one of the elements (%s)" % (i, v))
                                break
                            left.pop(k)
                        for i in range(1, n):
                            cx.expect(w, got[i] - got[i - 1], "post", "sort: elements %d and %d of the result are out of order" % (i - 1, i))
                cx.no_abort()
                cx.E.aborts = []
        return run
    mkv = "il::Array<%s> v = mk<%s>(p, n); " % (T_, T_)
    sig = "(const %s* p, il::int_t n, %s* q)" % (T_, T_)
    a.g.case("G01", "sort", sig, mkv + "il::sort(il::io, v); out(v, q);", sorting((0, 1, 2, 3, 4)))
    a.g.case("G01", "sort_copy", sig, mkv + "il::Array<%s> w = il::sort(v); out(w, q);" % T_, sorting((0, 1, 2, 3, 4)))
    a.g.case("G01", "sort_const", sig, mkv + "const il::Array<%s>& c = v; il::Array<%s> w = il::sort(c); out(w, q);" % (T_, T_), sorting((0, 1, 2, 3)))
    a.g.case("G01", "sort_static", sig, "il::StaticArray<%s, 3> v{}; for (il::int_t i = 0; i < 3; ++i) v[i] = p[i]; il::sort(il::io, v); for (il::int_t i = 0; i < 3; ++i) q[i] = v[i];" % T_, sorting((3,)))

    if not a.real:
        # arrays long enough to be partitioned around a pivot: all elements but some are known
        pats = [("up", lambda n, i: 10 * i), ("down", lambda n, i: 10 * (n - i)), ("zigzag", lambda n, i: 10 * (i * 7 % n)), ("equal", lambda n, i: 0), ("two", lambda n, i: 10 * (i % 2))]
        for nm, f in pats:
            for n, free in ((16, (0,)), (16, (15,)), (16, (8,)), (17, (3,)), (16, (0, 15)), (19, (8, 18))):
                c = a.g.case("G01", "sort_%s_%d_%s" % (nm, n, "_".join(map(str, free))), sig, mkv + "il::sort(il::io, v); out(v, q);",
                             sorting((n,), lambda n, f=f, free=free: [None if i in free else f(n, i) for i in range(n)]))
                if len(free) > 1:
                    c.tier = "thorough"

    # binary search in a sorted array
    def search(cx):
        for n in range(0, 6):
            st = a.start(cx)
            p, xs = a.values(cx, st, n)
            k, ks = a.values(cx, st, 1, "key")
            for x, r in cx.run(st, [p, C(n), k]):
                cx.states += 1
                if not isinstance(r, Poly):
                    undecided(cx, "binarySearch: result %s" % (r,))
                    continue
                for w in world(x):
                    w = w.fork()
                    if not all([w.assume(xs[i] - xs[i - 1]) for i in range(1, n)]):
                        continue
                    c = r.const()
                    if c is None:
                        undecided(cx, "binarySearch: result %s" % (r,))
                    elif c == -1:
                        for i in range(n):
                            for y, e in outcomes(w, lambda ask: ask(xs[i] - ks[0])):
                                if e:
                                    cx.fail(y, "post", "binarySearch does not find element %d of %d" % (i, n))
                        cx.E.obl += 1
                        cx.E.proved += 1
                    elif 0 <= c < n:
                        cx.expect(w, xs[c] - ks[0], "post", "binarySearch returns the position of another element", True)
                    else:
                        cx.fail(w, "post", "binarySearch returns position %d in an array of %d elements" % (c, n))
            cx.no_abort()
            cx.E.aborts = []
    a.g.case("G01", "binarySearch", "(const %s* p, il::int_t n, const %s* k)" % (T_, T_), mkv + "return il::binarySearch(v, *k);", search, "il::int_t")

    def none(cx):
        st = a.start(cx)
        k, ks = a.values(cx, st, 1, "k")
        for w, r in cx.run(st, [k]):
            cx.states += 1
            cx.expect(w, r + 1, "post", "binarySearch in an array without storage does not return -1", True)
        cx.no_abort()
        cx.E.aborts = []
    a.g.case("G01", "binarySearch_null", "(const %s* k)" % T_, "il::Array<%s> v; return il::binarySearch(v, *k);" % T_, none, "il::int_t")
    return a.g


def groups():
    return [g_algorithms("double"), g_algorithms("il::int_t")]
