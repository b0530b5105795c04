"""il::blas / il::dot / il::solve / il::linearSolve / LU / decompositions: the operands handed to BLAS and LAPACK."""
from blasmodel import *

PRE_B = '''
#include <il/blas.h>
#include <new>
#include <utility>
'''
CT = {"s": "float", "d": "double", "c": "std::complex<float>", "z": "std::complex<double>"}
OPN = ["None", "Star", "Transpose"]
TR = {"None": 111, "Star": 113, "Transpose": 112}


def size(st, name, lo=0):
    v = fresh(name)
    st.add(v - lo)
    st.add(C(LIM) - v)
    return v


def real_bytes(cx, st, ty, name):
    """a scalar parameter passed by const reference"""
    es = ESZ[ty]
    o = cx.E.new_obj(st, "param", C(es), name)
    if ty in "cz":
        vals = (Term("init", name + "re"), Term("init", name + "im"))
        cx.E.put(st, o, ZERO, es // 2, vals[0], "w")
        cx.E.put(st, o, C(es // 2), es // 2, vals[1], "w")
    else:
        vals = (Term("init", name),)
        cx.E.put(st, o, ZERO, es, vals[0], "w")
    return Ptr(o, ZERO), vals


def vecobj(cx, st, ty, n, name, ro):
    b = cx.block(st, n, name, False, kind="param", name=name, esz=ESZ[ty])
    if ro:
        st.wobj(b).ro = True
    return Ptr(b, ZERO)


def matobj(cx, st, ty, lay, n0, n1, name, ro):
    inner, outer = (n0, n1) if lay == "D" else (n1, n0)
    s_ = size(st, "s" + name, 1)
    st.add(s_ - inner)
    b = cx.block(st, s_ * outer, name, False, kind="param", name=name, esz=ESZ[ty])
    if ro:
        st.wobj(b).ro = True
    p = Ptr(b, ZERO)
    return p, s_, (Mat(p, n0, n1, ONE, s_) if lay == "D" else Mat(p, n0, n1, s_, ONE))


def do(m, op, ty):
    return opd(None, m, TR[op], ty)


def positive(st, *vs):
    x = st.fork()
    return x if all([x.assume(v - 1) for v in vs]) else None


def mview(cls, ty, lay, rw, p, n0, n1, s_):
    V = "il::Array2%s%s<%s>" % (lay, "Edit" if rw else "View", CT[ty])
    return "%s{%s, %s, %s, %s%s}" % (V, p, n0, n1, s_, ", 0, 0" if rw and lay == "D" else "")


def vview(ty, rw, p, n):
    return "il::Array%s<%s>{%s, %s}" % ("Edit" if rw else "View", CT[ty], p, n)


def standard(cx, st, args, conds, exp, ext, what, ret=None):
    """run from any sizes: a normal return implies the conditions and exactly the expected operation; under the conditions nothing aborts"""
    install(cx)
    for x, r in cx.run(st, args):
        cx.states += 1
        for q, eq in conds:
            cx.expect(x, q, "unchecked", "%s accepts operands whose sizes do not agree" % what, eq)
        w = positive(x, *ext)
        if w is not None:
            expect_ops(cx, w, exp, what)
            if ret is not None:
                ret(w, r)
    cx.E.aborts = []
    inr = st.fork()
    if all([inr.assume(q, eq) for q, eq in conds]):
        cx.run(inr, args)
        cx.no_abort()
    cx.E.aborts = []


class Blas:
    def __init__(s, ty, lay):
        s.ty, s.lay = ty, lay
        s.g = Group("blas_%s%s" % (ty, lay), PRE_B)
        s.g.life = "B01"
        s.build()

    def build(s):
        ty, lay, g = s.ty, s.lay, s.g
        T_ = CT[ty]
        es = ESZ[ty]
        cr = "const %s&" % T_

        # ---- level 3
        def gemm(opa, opb):
            def run(cx):
                st = cx.st()
                d = [size(st, n) for n in ("a0", "a1", "b0", "b1", "c0", "c1")]
                pa, sa, A = matobj(cx, st, ty, lay, d[0], d[1], "A", True)
                pb, sb, B_ = matobj(cx, st, ty, lay, d[2], d[3], "B", True)
                pc, sc, C_ = matobj(cx, st, ty, lay, d[4], d[5], "C", False)
                al, av = real_bytes(cx, st, ty, "alpha")
                be, bv = real_bytes(cx, st, ty, "beta")
                oa, ob = do(A, opa or "None", ty), do(B_, opb or "None", ty)
                args = [al, pa, d[0], d[1], sa, pb, d[2], d[3], sb, be, pc, d[4], d[5], sc]
                conds = [(oa.n - ob.m, True), (C_.m - oa.m, True), (C_.n - ob.n, True)]
                standard(cx, st, args, conds, [("gemm", ty, av, oa, ob, bv, C_)], d, "the matrix product")
            return run

        def name(op):
            return {"None": "N", "Star": "C", "Transpose": "T", None: "x"}[op]
        sig = "(%s alpha, const %s* a, il::int_t a0, il::int_t a1, il::int_t sa, const %s* b, il::int_t b0, il::int_t b1, il::int_t sb, %s beta, %s* c, il::int_t c0, il::int_t c1, il::int_t sc)" % (cr, T_, T_, cr, T_)
        for opa in [None] + OPN:
            for opb in [None] + OPN:
                a = mview("", ty, lay, False, "a", "a0", "a1", "sa") + (", il::Dot::%s" % opa if opa else "")
                b = mview("", ty, lay, False, "b", "b0", "b1", "sb") + (", il::Dot::%s" % opb if opb else "")
                c = mview("", ty, lay, True, "c", "c0", "c1", "sc")
                g.case("B01", "gemm_%s%s" % (name(opa), name(opb)), sig, "il::blas(alpha, %s, %s, beta, il::io, %s);" % (a, b, c), gemm(opa, opb))

        # aliasing of the result with an operand is refused
        def alias(which):
            def run(cx):
                st = cx.st()
                install(cx)
                n = size(st, "n", 1)
                pa, sa, A = matobj(cx, st, ty, lay, n, n, "A", False)
                pc, sc, C_ = matobj(cx, st, ty, lay, n, n, "B", False)
                al, av = real_bytes(cx, st, ty, "alpha")
                if which == 0:
                    args = [al, pa, n, n, sa, pc, n, n, sc, al, pa, n, n, sa]
                else:
                    args = [al, pc, n, n, sc, pa, n, n, sa, al, pa, n, n, sa]
                for x, r in cx.run(st, args):
                    cx.states += 1
                    cx.fail(x, "unchecked", "the result of a product may overwrite one of its operands")
            return run
        for k in (0, 1):
            a = mview("", ty, lay, False, "a", "a0", "a1", "sa")
            b = mview("", ty, lay, False, "b", "b0", "b1", "sb")
            c = mview("", ty, lay, True, "c", "c0", "c1", "sc")
            g.case("B01", "gemm_alias%d" % k, sig, "il::blas(alpha, %s, %s, beta, il::io, %s);" % (a, b, c), alias(k))

        # ---- level 2
        def gemv(op):
            def run(cx):
                st = cx.st()
                d = [size(st, n) for n in ("a0", "a1", "nx", "ny")]
                pa, sa, A = matobj(cx, st, ty, lay, d[0], d[1], "A", True)
                px, py = vecobj(cx, st, ty, d[2], "x", True), vecobj(cx, st, ty, d[3], "y", False)
                al, av = real_bytes(cx, st, ty, "alpha")
                be, bv = real_bytes(cx, st, ty, "beta")
                oa = do(A, op or "None", ty)
                X, Y = Mat(px, d[2], ONE, ONE, ONE), Mat(py, d[3], ONE, ONE, ONE)
                args = [al, pa, d[0], d[1], sa, px, d[2], be, py, d[3]]
                standard(cx, st, args, [(oa.n - d[2], True), (oa.m - d[3], True)], [("gemm", ty, av, oa, X, bv, Y)], d, "the matrix-vector product")
            return run
        sig = "(%s alpha, const %s* a, il::int_t a0, il::int_t a1, il::int_t sa, const %s* x, il::int_t nx, %s beta, %s* y, il::int_t ny)" % (cr, T_, T_, cr, T_)
        for op in [None] + OPN:
            a = mview("", ty, lay, False, "a", "a0", "a1", "sa") + (", il::Dot::%s" % op if op else "")
            g.case("B01", "gemv_" + name(op), sig, "il::blas(alpha, %s, %s, beta, il::io, %s);" % (a, vview(ty, False, "x", "nx"), vview(ty, True, "y", "ny")), gemv(op))
        if lay != "D":
            return

        # ---- level 1
        def axpy(withb):
            def run(cx):
                st = cx.st()
                nx, ny = size(st, "nx"), size(st, "ny")
                px, py = vecobj(cx, st, ty, nx, "x", True), vecobj(cx, st, ty, ny, "y", False)
                al, av = real_bytes(cx, st, ty, "alpha")
                be, bv = real_bytes(cx, st, ty, "beta")
                X, Y = Mat(px, nx, ONE, ONE, ONE), Mat(py, ny, ONE, ONE, ONE)
                standard(cx, st, [al, px, nx] + ([be] if withb else []) + [py, ny], [(nx - ny, True)], [("axpy", ty, av, X, bv if withb else None, Y)], [nx, ny], "the vector update")
            return run
        g.case("B01", "axpy", "(%s alpha, const %s* x, il::int_t nx, %s* y, il::int_t ny)" % (cr, T_, T_), "il::blas(alpha, %s, il::io, %s);" % (vview(ty, False, "x", "nx"), vview(ty, True, "y", "ny")), axpy(False))
        g.case("B01", "axpby", "(%s alpha, const %s* x, il::int_t nx, %s beta, %s* y, il::int_t ny)" % (cr, T_, cr, T_), "il::blas(alpha, %s, beta, il::io, %s);" % (vview(ty, False, "x", "nx"), vview(ty, True, "y", "ny")), axpy(True))

        def dot(op, side):
            def run(cx):
                st = cx.st()
                nx, ny = size(st, "nx"), size(st, "ny")
                px, py = vecobj(cx, st, ty, nx, "x", True), vecobj(cx, st, ty, ny, "y", True)
                res = cx.E.new_obj(st, "param", C(es), "res")
                X, Y = Mat(px, nx, ONE, ONE, ONE), Mat(py, ny, ONE, ONE, ONE)
                conj = op == "Star"
                X.conj = conj

                def ret(w, r):
                    if ty in "sd":
                        got = cx.E.load(w, Ptr(res, ZERO), es, IR.VOID)
                        for y, v in got:
                            cx.expect_val(y, v, Term("dotv", 0), "post", "result of dot")
                        return
                    h = es // 2
                    for k, nm in ((0, "dotre"), (h, "dotim")):
                        for y, v in cx.E.load(w, Ptr(res, C(k)), h, IR.DOUBLE):
                            e = Term(nm, 0)
                            if k and side == 2 and conj:
                                e = Term("fop", "fneg", e)
                            if isinstance(v, Term) and v.op not in ("fop", "dotre", "dotim", "const"):
                                v = Term("unk", T.new("unk", "unk"))
                            q = ring_eq(cx.E, y, v, e)
                            if q is None:
                                cx.E.reports.append(Report("post", "undecided", ("case", 0), "result of dot not determined: %s" % v, None, cx.case.name))
                            elif not q:
                                cx.fail(y, "post", "the result of dot is %s, expected %s" % (v, e))
                            else:
                                cx.E.obl += 1
                                cx.E.proved += 1
                standard(cx, st, [Ptr(res, ZERO), px, nx, py, ny], [(nx - ny, True)], [("dot", ty, X, Y)], [nx, ny], "the scalar product", ret)
            return run
        sig = "(%s* r, const %s* x, il::int_t nx, const %s* y, il::int_t ny)" % (T_, T_, T_)
        xv, yv = vview(ty, False, "x", "nx"), vview(ty, False, "y", "ny")
        g.case("B01", "dot", sig, "*r = il::dot(%s, %s);" % (xv, yv), dot("None", 0))
        if ty in "cz":
            for op in ("None", "Star"):
                g.case("B01", "dot_l" + name(op), sig, "*r = il::dot(%s, il::Dot::%s, %s);" % (xv, op, yv), dot(op, 1))
                g.case("B01", "dot_r" + name(op), sig, "*r = il::dot(%s, %s, il::Dot::%s);" % (xv, yv, op), dot(op, 2))


def groups():
    out = []
    for ty in "sdcz":
        for lay in "DC":
            out.append(Blas(ty, lay).g)
    return out
