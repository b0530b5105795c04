"""il/blas_static.h, il/cross.h, il/norm.h, sums of matrices: small extents, unknown elements, judged as polynomials of the elements"""
import itertools
from reals import *

PRE_M = '''
#include <il/Array.h>
#include <il/Array2D.h>
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/linearAlgebra/dense/blas/blas.h>
#include <il/linearAlgebra/dense/blas/blas_static.h>
#include <il/linearAlgebra/dense/blas/cross.h>
#include <il/linearAlgebra/dense/norm.h>
#include <new>
#include <utility>
typedef il::int_t I;
template <typename T, I n> static void in(const T* p, il::StaticArray<T, n>& v) { for (I i = 0; i < n; ++i) v[i] = p[i]; }
template <typename T, I n, I m> static void in(const T* p, il::StaticArray2D<T, n, m>& v) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) v(i, j) = p[i * m + j]; }
template <typename T, I n, I m, I k> static void in(const T* p, il::StaticArray3D<T, n, m, k>& v) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) for (I l = 0; l < k; ++l) v(i, j, l) = p[(i * m + j) * k + l]; }
template <typename T, I n, I m, I k, I h> static void in(const T* p, il::StaticArray4D<T, n, m, k, h>& v) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) for (I l = 0; l < k; ++l) for (I o = 0; o < h; ++o) v(i, j, l, o) = p[((i * m + j) * k + l) * h + o]; }
template <typename T, I n> static void out(const il::StaticArray<T, n>& v, T* p) { for (I i = 0; i < n; ++i) p[i] = v[i]; }
template <typename T, I n, I m> static void out(const il::StaticArray2D<T, n, m>& v, T* p) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) p[i * m + j] = v(i, j); }
template <typename T, I n, I m, I k> static void out(const il::StaticArray3D<T, n, m, k>& v, T* p) { for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) for (I l = 0; l < k; ++l) p[(i * m + j) * k + l] = v(i, j, l); }
template <typename T> static il::Array<T> mk(const T* p, I n) { il::Array<T> v{n}; if (n % 2 == 0 && n > 0) v.Reserve(n + 2); for (I i = 0; i < n; ++i) v[i] = p[i]; return v; }
template <typename T> static il::Array2D<T> mk2(const T* p, I n, I m) { il::Array2D<T> v{n, m}; for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) v(i, j) = p[i * m + j]; return v; }
'''


class Nd:
    """row-major block of unknown numbers"""

    def __init__(s, tag, *d):
        s.tag, s.d = tag, d
        s.n = 1
        for k in d:
            s.n *= k

    def __call__(s, *i):
        k = 0
        for a, b in zip(i, s.d):
            k = k * b + a
        return poly(Term("init", s.tag, C(k)))

    def block(s, cx, st, es=8):
        o = cx.obj(st, max(s.n, 1) * es, s.tag)
        for i in range(s.n):
            cx.put(st, o, i * es, es, Term("init", s.tag, C(i)))
        st.wobj(o).ro = True
        return Ptr(o, ZERO)


def start(cx):
    cx.E.no_nan = True
    cx.E.unroll_all = 80
    cx.E.max_steps = 3000000
    cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")
    return cx.st()


def scalar(name):
    return poly(Term("init", name))


def stat(g, name, ins, outd, body, spec, T_="double", alpha=False):
    """body maps the static operands a, b, ... to c (written to q); spec(index...) is the expected polynomial of element index of c"""
    es = 8 if T_ == "double" else 4

    def run(cx):
        st = start(cx)
        args = [i.block(cx, st, es) for i in ins]
        n = 1
        for k in outd:
            n *= k
        q = cx.obj(st, n * es, "q")
        args.append(Ptr(q, ZERO))
        if alpha:
            args += [Term("init", "alpha"), Term("init", "beta")]
        for x, r in cx.run(st, args):
            cx.states += 1
            for k, idx in enumerate(itertools.product(*[range(v) for v in outd])):
                for y, v in cx.E.load(x, Ptr(q, C(k * es)), es, IR.DOUBLE, "result"):
                    check(cx, y, v, lambda ask: spec(*idx), "%s: element %s of the result" % (name, list(idx)))
        cx.no_abort()
    cls = {1: "il::StaticArray<%s, %s>", 2: "il::StaticArray2D<%s, %s>", 3: "il::StaticArray3D<%s, %s>", 4: "il::StaticArray4D<%s, %s>"}
    decl = "".join(cls[len(i.d)] % (T_, ", ".join(map(str, i.d))) + " %s{}; in(p%s, %s); " % (i.tag, i.tag, i.tag) for i in ins)
    sig = "(" + ", ".join("const %s* p%s" % (T_, i.tag) for i in ins) + ", %s* q%s)" % (T_, ", double alpha, double beta" if alpha else "")
    g.case("B03", name, sig, decl + body, run)


def total(f, n):
    t = ZERO
    for k in range(n):
        t = t + f(k)
    return t


def g_static():
    g = Group("small", PRE_M)
    g.life = "B03"
    al, be = scalar("alpha"), scalar("beta")
    V = lambda t, n: Nd(t, n)
    for n in (1, 2, 3):
        x, y = Nd("x", n), Nd("y", n)
        stat(g, "dot_vv%d" % n, [x, y], (1,), "q[0] = il::dot(x, y);", lambda i, x=x, y=y, n=n: total(lambda k: x(k) * y(k), n))
    x, y = Nd("x", 2), Nd("y", 2)
    stat(g, "cross2", [x], (2,), "out(il::cross(x), q);", lambda i: [-x(1), x(0)][i])
    x3, y3 = Nd("x", 3), Nd("y", 3)
    stat(g, "cross3", [x3, y3], (3,), "out(il::cross(x, y), q);", lambda i: x3((i + 1) % 3) * y3((i + 2) % 3) - x3((i + 2) % 3) * y3((i + 1) % 3))
    for n0, n in ((2, 3), (3, 2), (1, 2)):
        A, x, At, z = Nd("A", n0, n), Nd("x", n), Nd("A", n, n0), Nd("x", n0)
        s_ = "_%d%d" % (n0, n)
        stat(g, "dot_Av" + s_, [A, x], (n0,), "out(il::dot(A, x), q);", lambda i, A=A, x=x, n=n: total(lambda k: A(i, k) * x(k), n))
        stat(g, "dot_Atv" + s_, [At, x], (n0,), "out(il::dot(A, il::Dot::Transpose, x), q);", lambda i, A=At, x=x, n=n: total(lambda k: A(k, i) * x(k), n))
        stat(g, "dot_vA" + s_, [x, At], (n0,), "out(il::dot(x, A), q);", lambda i, A=At, x=x, n=n: total(lambda k: x(k) * A(k, i), n))
        C0 = Nd("y", n0)
        stat(g, "blas_Av" + s_, [A, x, C0], (n0,), "il::blas(alpha, A, x, beta, il::io, y); out(y, q);",
             lambda i, A=A, x=x, n=n, C0=C0: al * total(lambda k: A(i, k) * x(k), n) + be * C0(i), alpha=True)
        for n1 in (2, 3):
            B_, Bt = Nd("B", n, n1), Nd("B", n, n1)
            stat(g, "dot_AB%s%d" % (s_, n1), [A, B_], (n0, n1), "out(il::dot(A, B), q);", lambda i, j, A=A, B_=B_, n=n: total(lambda k: A(i, k) * B_(k, j), n))
            stat(g, "dot_AtB%s%d" % (s_, n1), [At, B_], (n0, n1), "out(il::dot(A, il::Dot::Transpose, B), q);", lambda i, j, A=At, B_=B_, n=n: total(lambda k: A(k, i) * B_(k, j), n))
    for n0, n1, n in ((2, 3, 2), (3, 1, 2), (1, 2, 3)):
        s_ = "_%d%d%d" % (n0, n1, n)
        A, x, Y = Nd("A", n0, n1, n), Nd("x", n), Nd("Y", n0, n1)
        stat(g, "dot_A3v" + s_, [A, x], (n0, n1), "out(il::dot(A, x), q);", lambda i, j, A=A, x=x, n=n: total(lambda k: A(i, j, k) * x(k), n))
        stat(g, "blas_A3v" + s_, [A, x, Y], (n0, n1), "il::blas(alpha, A, x, beta, il::io, Y); out(Y, q);",
             lambda i, j, A=A, x=x, n=n, Y=Y: al * total(lambda k: A(i, j, k) * x(k), n) + be * Y(i, j), alpha=True)
        X3, Y3 = Nd("X", n0, n1, n), Nd("Y", n0, n1, n)
        stat(g, "blas_A3" + s_, [X3, Y3], (n0, n1, n), "il::blas(alpha, X, beta, il::io, Y); out(Y, q);", lambda i, j, k, X3=X3, Y3=Y3: al * X3(i, j, k) + be * Y3(i, j, k), alpha=True)
        A4, x4, Y4 = Nd("A", n0, n1, n, 2), Nd("x", 2), Nd("Y", n0, n1, n)
        stat(g, "dot_A4v" + s_, [A4, x4], (n0, n1, n), "out(il::dot(A, x), q);", lambda i, j, l, A4=A4, x4=x4: total(lambda k: A4(i, j, l, k) * x4(k), 2))
        stat(g, "blas_A4v" + s_, [A4, x4, Y4], (n0, n1, n), "il::blas(alpha, A, x, beta, il::io, Y); out(Y, q);",
             lambda i, j, l, A4=A4, x4=x4, Y4=Y4: al * total(lambda k: A4(i, j, l, k) * x4(k), 2) + be * Y4(i, j, l), alpha=True)
        A2, B3 = Nd("A", n0, 2), Nd("B", 2, n1, n)
        stat(g, "dot_AB3" + s_, [A2, B3], (n0, n1, n), "out(il::dot(A, B), q);", lambda i, j, l, A2=A2, B3=B3: total(lambda k: A2(i, k) * B3(k, j, l), 2))
    return g


# ------------------------------------------------------------------ norms
def absx(ask, v):
    return r_abs(ask, v)


def g_norm():
    g = Group("norm", PRE_M + "#include <il/TriDiagonal.h>\n")
    g.life = "B03"

    def nv(kind, div):
        def f(ask, xs, ds):
            if kind == "L2":
                t = ZERO
                for x in xs:
                    t = t + x * x
                return t
            a = [r_abs(ask, x) for x in xs]
            if kind == "L1":
                return total(lambda k: a[k], len(a))
            return r_max(ask, a) if a else ZERO
        return f

    def val(cx, x, v, spec, kind, what):
        if kind == "L2":
            if not (isinstance(v, Term) and v.op == "sqrt"):
                try:
                    z = poly(v).const() == 0
                except Undetermined:
                    z = False
                if not z:
                    undecided(cx, "%s: %s is not the square root of a sum" % (what, v))
                    return
                v = ZERO
            else:
                v = v.a[0]
        check(cx, x, v, spec, what)

    def vec(kind, weighted, stat_):
        def run(cx):
            for n in ((0, 1, 2, 3) if not stat_ else (3,)):
                st = start(cx)
                sqrt(cx)
                X, W = Nd("x", n), Nd("w", n)
                args = [X.block(cx, st), W.block(cx, st), C(n), C(n)]
                if weighted:
                    xs = [S(T.get("real", "quot", (X(k), W(k)))) for k in range(n)]
                else:
                    xs = [X(k) for k in range(n)]
                for x, r in cx.run(st, args):
                    cx.states += 1
                    val(cx, x, r, lambda ask: nv(kind, weighted)(ask, xs, None), kind, "norm %s of %d elements" % (kind, n))
                cx.no_abort()
                cx.E.aborts = []
            if weighted:
                for n, m in ((2, 1), (1, 2)):
                    st = start(cx)
                    X, W = Nd("x", n), Nd("w", m)
                    for x, r in cx.run(st, [X.block(cx, st), W.block(cx, st), C(n), C(m)]):
                        cx.fail(x, "unchecked", "norm accepts %d weights for %d elements" % (m, n))
        return run

    def sqrt(cx):
        def m(E, st, name, args):
            return [(st, Term("sqrt", args[0]))]
        cx.E.model_pats = [(re.compile(r"^@(llvm\.sqrt\.f64|sqrt|sqrtf|_ZSt4sqrt[fd])$"), m)] + list(cx.E.model_pats)
    sig = "(const double* p, const double* w, I n, I m)"
    for k in ("L1", "L2", "Linf"):
        g.case("B03", "norm_vec_" + k, sig, "il::Array<double> v = mk(p, n); return il::norm(v, il::Norm::%s);" % k, vec(k, False, False), "double")
        g.case("B03", "norm_wvec_" + k, sig, "il::Array<double> v = mk(p, n); il::Array<double> a = mk(w, m); return il::norm(v, il::Norm::%s, a);" % k, vec(k, True, False), "double")
        g.case("B03", "norm_svec_" + k, sig, "il::StaticArray<double, 3> v{}; in(p, v); return il::norm(v, il::Norm::%s);" % k, vec(k, False, True), "double")

    def mat(kind):
        def run(cx):
            for n, m in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2)):
                st = start(cx)
                A = Nd("A", n, m)

                def spec(ask):
                    ab = [[r_abs(ask, A(i, j)) for j in range(m)] for i in range(n)]
                    if kind == "L1":
                        s_ = [total(lambda i: ab[i][j], n) for j in range(m)]
                    else:
                        s_ = [total(lambda j: ab[i][j], m) for i in range(n)]
                    return r_max(ask, s_) if s_ else ZERO
                for x, r in cx.run(st, [A.block(cx, st), C(n), C(m)]):
                    cx.states += 1
                    check(cx, x, r, spec, "norm %s of a %dx%d matrix" % (kind, n, m))
                cx.no_abort()
                cx.E.aborts = []
        return run
    for k in ("L1", "Linf"):
        g.case("B03", "norm_mat_" + k, "(const double* p, I n, I m)", "il::Array2D<double> A = mk2(p, n, m); return il::norm(A, il::Norm::%s);" % k, mat(k), "double")

    def tri(cx):
        for n in (0, 1, 2, 3):
            st = start(cx)
            A = Nd("A", n, 3)

            def spec(ask):
                s_ = [total(lambda k: r_abs(ask, A(i, k)) if 0 <= i + k - 1 < n else ZERO, 3) for i in range(n)]
                return r_max(ask, s_) if s_ else ZERO
            for x, r in cx.run(st, [A.block(cx, st), C(n)]):
                cx.states += 1
                check(cx, x, r, spec, "norm Linf of a tridiagonal matrix of order %d" % n)
            cx.no_abort()
            cx.E.aborts = []
    c = g.case("B03", "norm_tri", "(const double* p, I n)", "il::TriDiagonal<double> A{n}; for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) A(i, k) = p[3 * i + k + 1];"
               " return il::norm(A, il::Norm::Linf);", tri, "double")
    return g


# ------------------------------------------------------------------ BLAS on definite small operands: the documented result, element by element
def fadd(a, b):
    return Term("fop", "fadd", a, b)


def fmul(a, b):
    return Term("fop", "fmul", a, b)


def sem_install(cx):
    from blasmodel import PATS, install
    install(cx)
    base = [(r, f) for r, f in PATS if r.pattern.startswith("^@cblas_[sdcz]ge") or "dot" in r.pattern or "axp" in r.pattern]

    def at(E, st, m, i, j, es, ty):
        r = E.load(st, Ptr(m.p.o, m.p.off + (m.rs * i + m.cs * j) * es), es, ty, "operand")
        return r[0][1] if r else None

    def wrap(f):
        def g(E, st, name, args):
            es = 8 if name.startswith("@cblas_d") else 4
            ty = IR.DOUBLE
            out = []
            for y, r in f(E, st, name, args):
                if E.quiet or not y.trace:
                    out.append((y, r))
                    continue
                op = y.trace[-1]
                y = y.fork()
                if op[0] == "dot":
                    X, Y = op[2], op[3]
                    n = X.m.const()
                    if n is None:
                        raise Unsupported("extent")
                    t = Term("const", "0.0")
                    for k in range(n):
                        t = fadd(t, fmul(at(E, st, X, k, 0, es, ty), at(E, st, Y, k, 0, es, ty)))
                    out.append((y, t))
                    continue
                if op[0] == "axpy":
                    X, Y, al, be = op[3], op[5], op[2], op[4]
                    n = X.m.const()
                    if n is None:
                        raise Unsupported("extent")
                    for k in range(n):
                        v = at(E, st, Y, k, 0, es, ty)
                        v = fadd(fmul(al[0], at(E, st, X, k, 0, es, ty)), v if be is None else fmul(be[0], v))
                        E.put(y, Y.p.o, Y.p.off + Y.rs * k * es, es, v)
                    out.append((y, r))
                    continue
                _, _, al, A, B_, be, C_ = op
                d = [v.const() for v in (C_.m, C_.n, A.n)]
                if None in d:
                    raise Unsupported("extent")
                for i in range(d[0]):
                    for j in range(d[1]):
                        t = Term("const", "0.0")
                        for k in range(d[2]):
                            t = fadd(t, fmul(at(E, st, A, i, k, es, ty), at(E, st, B_, k, j, es, ty)))
                        t = fmul(al[0], t)
                        z = isinstance(be[0], Term) and be[0].op == "const" and number(be[0].a[0]) == 0
                        if not z:
                            t = fadd(t, fmul(be[0], at(E, st, C_, i, j, es, ty)))
                        E.put(y, C_.p.o, C_.p.off + (C_.rs * i + C_.cs * j) * es, es, t)
                out.append((y, r))
            return out
        return g
    cx.E.model_pats = [(r, wrap(f)) for r, f in base] + list(cx.E.model_pats)


def g_dot():
    g = Group("dotc", PRE_M + """
#include <il/Array2C.h>
#include <il/linearAlgebra/dense/blas/dot.h>
template <typename T> static il::Array2C<T> mkc(const T* p, I n, I m) { il::Array2C<T> v{n, m}; for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) v(i, j) = p[i * m + j]; return v; }
""")
    g.life = "B01"

    def refuse(cx, args, what):
        st, a = args
        for x, r in cx.run(st, a):
            cx.fail(x, "unchecked", what)
        cx.E.aborts = []

    def vv(T_, es):
        def run(cx):
            for n in (0, 1, 3):
                st = start(cx)
                sem_install(cx)
                x, y = Nd("x", n), Nd("y", n)
                for w, r in cx.run(st, [x.block(cx, st, es), y.block(cx, st, es), C(n), C(n)]):
                    cx.states += 1
                    check(cx, w, r, lambda ask: total(lambda k: x(k) * y(k), n), "dot of arrays of %d elements" % n)
                cx.no_abort()
                cx.E.aborts = []
            for n, m in ((2, 3), (3, 2), (0, 1)):
                st = start(cx)
                refuse(cx, (st, [Nd("x", n).block(cx, st, es), Nd("y", m).block(cx, st, es), C(n), C(m)]), "dot accepts arrays of %d and %d elements" % (n, m))
        return run
    for T_, es in (("double", 8), ("float", 4)):
        g.case("B01", "dot_arrays_" + T_[0], "(const %s* p, const %s* q, I n, I m)" % (T_, T_), "il::Array<%s> x = mk(p, n); il::Array<%s> y = mk(q, m); return il::dot(x, y);" % (T_, T_), vv(T_, es), T_)

    def av(cx):
        for n, m in ((0, 0), (1, 1), (2, 3), (3, 2), (1, 3), (0, 2), (2, 0)):
            st = start(cx)
            sem_install(cx)
            A, x = Nd("A", n, m), Nd("x", m)
            q, sz = cx.obj(st, max(n, 1) * 8, "q"), cx.obj(st, 8, "sz")
            for w, r in cx.run(st, [A.block(cx, st), x.block(cx, st), C(n), C(m), C(m), Ptr(q, ZERO)]):
                cx.states += 1
                cx.expect(w, r - n, "post", "dot of a %dx%d matrix and a vector: size" % (n, m), True)
                if m == 0:
                    continue
                for i in range(n):
                    for y, v in cx.E.load(w, Ptr(q, C(8 * i)), 8, IR.DOUBLE, "result"):
                        check(cx, y, v, lambda ask: total(lambda k: A(i, k) * x(k), m), "dot of a %dx%d matrix and a vector: element %d" % (n, m, i))
            cx.no_abort()
            cx.E.aborts = []
        for n, m, k in ((2, 3, 2), (2, 2, 3)):
            st = start(cx)
            q = cx.obj(st, 64, "q")
            refuse(cx, (st, [Nd("A", n, m).block(cx, st), Nd("x", k).block(cx, st), C(n), C(m), C(k), Ptr(q, ZERO)]), "dot accepts a %dx%d matrix and a vector of %d elements" % (n, m, k))
    for K, mkf in (("Array2D", "mk2"), ("Array2C", "mkc")):
        g.case("B01", "dot_%s_vector" % K, "(const double* p, const double* r, I n, I m, I k, double* q)",
               "il::%s<double> A = %s(p, n, m); il::Array<double> x = mk(r, k); il::Array<double> y = il::dot(A, x); for (I i = 0; i < y.size(); ++i) q[i] = y[i]; return y.size();" % (K, mkf), av, "I")

    def ab(es):
        def run(cx):
            for n, l, m in ((1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 2, 3), (2, 2, 2), (0, 0, 0), (2, 0, 2), (0, 1, 2), (1, 2, 0), (0, 0, 2)):
                st = start(cx)
                sem_install(cx)
                A, B_ = Nd("A", n, l), Nd("B", l, m)
                q = cx.obj(st, n * m * es, "q")
                for w, r in cx.run(st, [A.block(cx, st, es), B_.block(cx, st, es), C(n), C(l), C(l), C(m), Ptr(q, ZERO)]):
                    cx.states += 1
                    cx.expect(w, r - (n * 100 + m), "post", "dot of %dx%d and %dx%d matrices: extents" % (n, l, l, m), True)
                    for i in range(n):
                        for j in range(m):
                            for y, v in cx.E.load(w, Ptr(q, C(es * (i * m + j))), es, IR.DOUBLE, "result"):
                                check(cx, y, v, lambda ask: total(lambda k: A(i, k) * B_(k, j), l), "dot of %dx%d and %dx%d matrices: element (%d, %d)" % (n, l, l, m, i, j))
                cx.no_abort()
                cx.E.aborts = []
            st = start(cx)
            refuse(cx, (st, [Nd("A", 2, 3).block(cx, st, es), Nd("B", 2, 2).block(cx, st, es), C(2), C(3), C(2), C(2), Ptr(cx.obj(st, 64, "q"), ZERO)]), "dot accepts matrices of 2x3 and 2x2 elements")
        return run
    for K, mkf, T_, es in (("Array2D", "mk2", "double", 8), ("Array2C", "mkc", "double", 8), ("Array2D", "mk2", "float", 4)):
        g.case("B01", "dot_%s_%s" % (K, T_[0]), "(const %s* p, const %s* r, I n, I l0, I l1, I m, %s* q)" % (T_, T_, T_),
               "il::%s<%s> A = %s(p, n, l0); il::%s<%s> B = %s(r, l1, m); il::%s<%s> C = il::dot(A, B); for (I i = 0; i < C.size(0); ++i) for (I j = 0; j < C.size(1); ++j) q[i * C.size(1) + j] = C(i, j); return C.size(0) * 100 + C.size(1);"
               % (K, T_, mkf, K, T_, mkf, K, T_), ab(es), "I")

    # alpha X + beta Y, element by element
    def add(z):
        h = 8

        def run(cx):
            es = 16 if z else 8
            for n, m in ((0, 0), (1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (0, 2), (2, 0)):
                st = start(cx)
                X, Y = cx.obj(st, (n + 1) * max(m, 1) * es + es, "X"), cx.obj(st, (n + 2) * max(m, 1) * es + es, "Y")
                L = {}
                for o, s_, nm in ((X, n + 1, "X"), (Y, n + 2, "Y")):
                    for i in range(n):
                        for j in range(m):
                            for k in range(es // h):
                                t = Term("init", nm, C(i), C(j), C(k))
                                cx.put(st, o, (j * s_ + i) * es + k * h, h, t)
                                L[nm, i, j, k] = poly(t)
                st.wobj(X).ro = True
                sc, sv = [], {}
                for nm in ("alpha", "beta"):
                    if z:
                        o = cx.obj(st, 16, nm)
                        for k in (0, 1):
                            cx.put(st, o, 8 * k, 8, Term("init", nm, C(k)))
                        sc.append(Ptr(o, ZERO))
                    else:
                        sc.append(Term("init", nm, C(0)))
                    for k in (0, 1):
                        sv[nm, k] = poly(Term("init", nm, C(k))) if k == 0 or z else ZERO

                def cm(a, b):
                    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
                for w, r in cx.run(st, [sc[0], Ptr(X, ZERO), C(n), C(m), C(n + 1), sc[1], Ptr(Y, ZERO), C(n), C(m), C(n + 2)]):
                    cx.states += 1
                    for i in range(n):
                        for j in range(m):
                            g2 = lambda nm: (L[nm, i, j, 0], L[nm, i, j, 1] if z else ZERO)
                            p, q_ = cm((sv["alpha", 0], sv["alpha", 1]), g2("X")), cm((sv["beta", 0], sv["beta", 1]), g2("Y"))
                            for k in range(es // h):
                                for y, v in cx.E.load(w, Ptr(Y, C((j * (n + 2) + i) * es + k * h)), h, IR.DOUBLE, "result"):
                                    def spec(ask, k=k):
                                        # a zero beta leaves Y out of the result
                                        b0 = ask(sv["beta", 0]) and (not z or ask(sv["beta", 1]))
                                        return p[k] if b0 else p[k] + q_[k]
                                    check(cx, y, v, spec, "alpha X + beta Y: element (%d, %d) of a %dx%d matrix" % (i, j, n, m))
                cx.no_abort()
                cx.E.aborts = []
            for d in ((2, 2, 2, 1), (2, 2, 1, 2), (1, 2, 2, 2), (2, 1, 2, 2)):
                st = start(cx)
                X, Y = cx.block(st, C(64), "X", False, kind="param"), cx.block(st, C(64), "Y", False, kind="param")
                sc = [Term("init", "alpha"), Term("init", "beta")]
                if z:
                    sc = [Ptr(cx.block(st, C(2), nm, False, kind="param"), ZERO) for nm in ("al", "be")]
                refuse(cx, (st, [sc[0], Ptr(X, ZERO), C(d[0]), C(d[1]), C(3), sc[1], Ptr(Y, ZERO), C(d[2]), C(d[3]), C(3)]), "alpha X + beta Y accepts matrices of %dx%d and %dx%d elements" % d)
        return run
    for T_, z in (("double", False), ("std::complex<double>", True)):
        A = ("const %s&" if z else "%s") % T_
        g.case("B01", "matrix_sum_" + ("z" if z else "d"), "(%s alpha, const %s* x, I x0, I x1, I xs, %s beta, %s* y, I y0, I y1, I ys)" % (A, T_, A, T_),
               "il::blas(alpha, il::Array2DView<%s>{x, x0, x1, xs}, beta, il::io, il::Array2DEdit<%s>{y, y0, y1, ys, 0, 0});" % (T_, T_), add(z))
    return g


def groups():
    return [g_static(), g_norm(), g_dot()]
