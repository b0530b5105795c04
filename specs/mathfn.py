"""il/math.h: powers, powers of two, absolute values, conjugates and rounding to multiples"""
from smallalg import *

PRE_X = '''
#include <il/math.h>
#include <complex>
typedef il::int_t I;
typedef std::complex<double> Z;
'''
P = "N02"


def build_math():
    g = Group("math", PRE_X)
    g.life = P

    def real(name, sig, body, args, spec, ret="double", pre=None):
        def run(cx):
            st = start(cx)
            if pre:
                pre(cx, st)
            for x, r in cx.run(st, args):
                cx.states += 1
                check(cx, x, r, spec, name)
            cx.no_abort(guards=False)
        g.case(P, name, sig, body, run, ret)

    x, y = Term("init", "x"), Term("init", "y")
    px, py = poly(x), poly(y)

    def power(p, n):
        t = C(1)
        for _ in range(n):
            t = t * p
        return t
    for n in range(1, 21):
        real("ipow_const%d" % n, "(double x)", "return il::ipow<%d>(x);" % n, [x], lambda ask, n=n: power(px, n))
        real("ipow_run%d" % n, "(double x)", "return il::ipow(x, (I)%d);" % n, [x], lambda ask, n=n: power(px, n))
    real("ipow_const0", "(double x)", "return il::ipow<0>(x);", [x], lambda ask: C(1))
    real("ipow_run0", "(double x)", "return il::ipow(x, (I)0);", [x], lambda ask: C(1))
    real("ipow_float", "(float x)", "return il::ipow<3>(x) * il::ipow(x, (I)4);", [x], lambda ask: power(px, 7), "float")
    ab = lambda ask: r_abs(ask, px)
    real("abs_double", "(double x)", "return il::abs(x);", [x], ab)
    real("abs_float", "(float x)", "return il::abs(x);", [x], ab, "float")
    real("real_double", "(double x)", "return il::real(x);", [x], lambda ask: px)
    real("real_float", "(float x)", "return il::real(x);", [x], lambda ask: px, "float")
    real("real_complex", "(double x, double y)", "return il::real(Z{x, y});", [x, y], lambda ask: px)
    real("conj_double", "(double x)", "return il::conjugate(x);", [x], lambda ask: px)
    real("conj_re", "(double x, double y)", "return il::conjugate(Z{x, y}).real();", [x, y], lambda ask: px)
    real("conj_im", "(double x, double y)", "return il::conjugate(Z{x, y}).imag();", [x, y], lambda ask: -py)
    real("i_re", "()", "return il::ii.real();", [], lambda ask: ZERO)

    # integers
    def integer(name, sig, body, arg, want, ret="I", aborts=False):
        """arg(st) -> [(state, arguments, expected result)]"""
        def run(cx):
            for lab, mk in arg():
                st = start(cx)
                args, w = mk(st)
                n = 0
                for s_, r in cx.run(st, args):
                    n += 1
                    cx.states += 1
                    if not isinstance(r, Poly):
                        raise Unsupported("result not determined")
                    d = w(s_, r)
                    cx.expect(s_, d, "post", "%s: %s" % (name, lab), True)
                cx.no_abort(guards=False)
                cx.E.aborts = []
        g.case(P, name, sig, body, run, ret)

    def var(st, lo, hi):
        v = S(T.new("x", "v"))
        st.add(v - lo)
        st.add(C(hi) - v)
        return v

    for w, T_ in ((32, "unsigned int"), (64, "std::uint64_t")):
        sgn = lambda v, w=w: v - (1 << w) if v >= 1 << (w - 1) else v

        def pts(kind, w=w, sgn=sgn):
            out = []
            for k in range(w):
                lo, hi = 1 << k, (1 << (k + 1)) - 1
                if kind == "prev":
                    res, rng, pt = lo, (lo, hi), (lo, hi, lo + (hi - lo) // 3, lo + (hi - lo) // 2)
                else:
                    if k == w - 1:
                        continue
                    res, rng, pt = lo << 1, (lo + 1, hi + 1), (lo + 1, hi, hi + 1, lo + 1 + (hi - lo) // 2)
                    if k == 0:
                        out.append(("argument 1", lambda st: ([C(1)], lambda s_, r: r - 1)))
                for v in sorted(set(pt)):
                    if rng[0] <= v <= rng[1]:
                        out.append(("argument %d" % v, lambda st, v=v, res=res: ([C(sgn(v))], lambda s_, r: r - sgn(res))))
                if (sgn(rng[0]) < 0) == (sgn(rng[1]) < 0):
                    out.append(("argument in [%d, %d]" % rng, lambda st, rng=rng, res=res: ([var(st, sgn(rng[0]), sgn(rng[1]))], lambda s_, r: r - sgn(res))))
            return out
        integer("previous_power_of_2_%d" % w, "(%s x)" % T_, "return il::previous_power_of_2_%d(x);" % w, lambda pts=pts: pts("prev"), None, T_)
        integer("next_power_of_2_%d" % w, "(%s x)" % T_, "return il::next_power_of_2_%d(x);" % w, lambda pts=pts: pts("next"), None, T_)

        def logs(w=w, sgn=sgn):
            out = [("argument %d" % v, lambda st, v=v: ([C(v)], lambda s_, r: r)) for v in (0, 1)]
            for k in range(1, w):
                lo, hi = (1 << (k - 1)) + 1, 1 << k
                for v in sorted(set((lo, hi, (lo + hi) // 2))):
                    out.append(("argument %d" % v, lambda st, v=v, k=k: ([C(sgn(v))], lambda s_, r: r - k)))
                if lo < hi and k < 60:
                    hi2 = min(hi, (1 << (w - 1)) - 1)
                    out.append(("argument in [%d, %d]" % (lo, hi2), lambda st, lo=lo, hi=hi2, k=k: ([var(st, lo, hi)], lambda s_, r: r - k)))
            return out
        integer("next_log2_%d" % w, "(%s x)" % T_, "return il::%s(x);" % ("nextLog2" if w == 64 else "next_log2_32"), logs, None, "int")

    LIMI = (1 << 31) - 1
    for T_, lim in (("int", (1 << 31) - 1), ("I", (1 << 63) - 1)):
        integer("abs_%s" % T_, "(%s x)" % T_, "return il::abs(x);", lambda lim=lim: [("x >= 0", lambda st: (lambda v: ([v], lambda s_, r: r - v))(var(st, 0, lim))), ("x < 0", lambda st: (lambda v: ([v], lambda s_, r: r + v))(var(st, -lim, -1))),
                ("x = 0", lambda st: ([ZERO], lambda s_, r: r)), ("x = -5", lambda st: ([C(-5)], lambda s_, r: r - 5))], None, T_)
        for b in (1, 2, 3, 7, 16):
            def mults(b=b):
                def gen(st):
                    q, r0 = var(st, 0, 1 << 40), var(st, 0, b - 1)
                    return [q * b + r0], lambda s_, r: r - q * b
                return [("x = %d q + r" % b, gen)] + [("x = %d" % v, lambda st, v=v: ([C(v)], lambda s_, r: r - v // b * b)) for v in (0, 1, 5, 16, 17, 99, (1 << 31) - 1, (1 << 31) + 5, (1 << 32) - 1, (1 << 32) + 9, (1 << 53) + 11, (1 << 62) + 13)]
            integer("floor_%s_%d" % (T_, b), "(I x)", "return il::floor(x, (%s)%d);" % (T_, b), mults, None)
    for n in range(0, 12):
        def cubes(n=n):
            def gen(st):
                v = var(st, -3, 3)
                return [v], lambda s_, r: r - power(v, n)
            return [("x in [-3, 3]", gen)] + [("x = %d" % v, lambda st, v=v: ([C(v)], lambda s_, r: r - v ** n)) for v in (-3, -2, -1, 0, 1, 2, 3)]
        integer("ipow_int%d" % n, "(I x)", "return il::ipow(x, (I)%d);" % n, cubes, None)
    integer("ipow_two", "(I n)", "return il::ipow((I)2, n);", lambda: [("n = %d" % n, lambda st, n=n: ([C(n)], lambda s_, r: r - (1 << n))) for n in range(0, 62)], None)

    def refuse(cx):
        st = start(cx)
        v = var(st, -(1 << 40), -1)
        for s_, r in cx.run(st, [Term("init", "x"), v]):
            cx.fail(s_, "unchecked", "a negative exponent is accepted")
        cx.E.obl += 1
        cx.E.proved += 1
        cx.E.aborts = []
    g.case(P, "ipow_negative", "(double x, I n)", "return il::ipow(x, n);", refuse, "double")
    return g


def groups():
    return [build_math()]
