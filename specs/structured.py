"""Triangular, band, tridiagonal and sparse matrices: every small order, element values unknown.

The triangular matrices manage their own storage, so whole histories (construction, copies, moves, assignments in every order of sizes) are
interpreted, for a trivial element type and for a class whose lifetime is tracked."""
import itertools
from hashmap import *
from reals import poly, check, quot, world, outcomes, r_max, r_abs
from blasmodel import ring_eq
import re

PRE_T = '''
#include <il/core.h>
#include <cstring>
#include <il/LowerArray2D.h>
#include <il/UpperArray2D.h>
#include <new>
#include <utility>
struct Val { Val(); Val(long); Val(const Val&); Val(Val&&); Val& operator=(const Val&); Val& operator=(Val&&); ~Val(); long v; };
typedef il::%(C)s<%(T)s> A;
typedef %(T)s T;
typedef il::int_t I;
static void fill(A& a, const T* x) { I k = 0; for (I i = 0; i < a.size(); ++i) for (I j = 0; j < a.size(); ++j) if (%(in)s) a(i, j) = x[k++]; }
static void look(A& a, const void** o) { I k = 0; for (I i = 0; i < a.size(); ++i) for (I j = 0; j < a.size(); ++j) if (%(in)s) o[k++] = &a(i, j); o[k] = nullptr; const A& c = a; k = 0; for (I i = 0; i < a.size(); ++i) for (I j = 0; j < a.size(); ++j) if (%(in)s) if (o[k++] != &c(i, j)) il::abort(); }
'''


def tri(n):
    return n * (n + 1) // 2


def start_t(cx, cls):
    st = install(cx)
    cx.E.model_pats = [(re.compile(r"^@_ZN3ValC[12]El$"), None)][:0] + cx.E.model_pats
    return st


def block(cx, st, tag, n, cls):
    """n unknown elements"""
    o = cx.obj(st, 8 * max(n, 1), tag)
    for i in range(n):
        if cls:
            st.gh.cell[(o, 8 * i)] = ("L", "%s%d" % (tag, i))
        else:
            cx.put(st, o, 8 * i, 8, Term("init", tag, C(i)))
    return Ptr(o, ZERO)


def elements(cx, st, o, want, cls, what):
    """the pointers at o lead to exactly the elements of `want`"""
    cells = st.objs[o.o].cells
    seen = set()
    for i in range(len(want) + 1):
        c = cells.get(8 * i)
        p = c[2] if c else None
        cx.E.obl += 1
        if not isinstance(p, Ptr):
            raise Unsupported("%s: unknown element pointer" % what)
        if (p.o is None) != (i == len(want)):
            cx.fail(st, "post", "%s: it has %s elements instead of %d" % (what, i if p.o is None else "more", len(want)))
            return
        if p.o is None:
            cx.E.proved += 1
            return
        key = (p.o, p.off.const())
        if key in seen:
            cx.fail(st, "post", "%s: two elements share their storage" % what)
            return
        seen.add(key)
        if want[i] is None:
            cx.E.proved += 1
            continue
        if cls:
            got = ident(cx, st, p, what)
            ok = got == want[i]
        else:
            r = cx.E.load(st, p, 8, IR.DOUBLE, what)
            if not r:
                return
            got = r[0][1]
            ok = got is want[i] or str(got) == str(want[i])
            if not ok and isinstance(got, Term) and got.op in ("unk", "undefunk"):
                raise Unsupported("%s: element not determined" % what)
        if not ok:
            cx.fail(st, "post", "%s: element %d is %s instead of %s" % (what, i, got, want[i]))
        else:
            cx.E.proved += 1


def build_tri(C_, cls):
    T_ = "Val" if cls else "double"
    g = Group("%s_%s" % (C_[:5].lower(), "c" if cls else "d"), PRE_T % dict(C=C_, T=T_, **{"in": "j <= i" if C_ == "LowerArray2D" else "j >= i"}))
    g.life = "S01"
    P = "S01"
    CLS = "il::%s<%s>" % (C_, T_)
    g.helper("dtor", "void", "(A* a)", "a->~A();")
    N = 4

    def vals(tag, n):
        return [("%s%d" % (tag, i) if cls else Term("init", tag, C(i))) for i in range(n)]

    def hist(name, body, runs, src="look"):
        """body works on the storage p and q with the blocks x and y; runs yields (nx, ny, sizes, want elements of p, of q or None)"""
        def run(cx):
            st0 = start_t(cx, cls)
            size = cx.lay.size(CLS)
            for args, wp, wq, wsz in runs():
                st = st0.fork()
                p, q = Ptr(cx.obj(st, size, "p"), ZERO), Ptr(cx.obj(st, size, "q"), ZERO)
                x, y, z = [block(cx, st, t, 16, cls) for t in "xyz"]
                o, o2 = Ptr(cx.obj(st, 8 * 24, "o"), ZERO), Ptr(cx.obj(st, 8 * 24, "o2"), ZERO)
                res = cx.run(st, [p, q, x, y, z, o, o2] + [C(v) for v in args])
                for s_, r in res:
                    cx.states += 1
                    what = "%s(%s)" % (name, ", ".join(map(str, args)))
                    if wp is not None:
                        elements(cx, s_, o, wp, cls, what)
                    if wq is not None:
                        elements(cx, s_, o2, wq, cls, what + ", the other matrix")
                    if wsz is not None:
                        cx.expect(s_, r - wsz, "post", "%s: size" % what, True)
                    cur = [s_]
                    for d in (p, q):
                        cur = [b for a in cur for b, _ in cx.call(a, "dtor", [d])]
                    for a in cur:
                        cx.leak_check(a)
                cx.no_abort()
                cx.E.aborts = []
        g.case(P, name, "(void* p, void* q, const T* x, const T* y, const T* z, const void** o, const void** o2, I n, I m, I k)", body, run, "I")

    R = range(N)
    V = lambda t, n: vals(t, tri(n))
    mkp = "A* a = new (p) A(n); fill(*a, x); "
    mkpq = mkp + "A* b = new (q) A(m); fill(*b, y); "
    hist("fill", mkp + "new (q) A(); look(*a, o); return a->size();", lambda: [((n, 0, 0), V("x", n), None, n) for n in range(N + 1)])
    hist("empty", "A* a = new (p) A(); new (q) A(); look(*a, o); return a->size() + a->capacity();", lambda: [((0, 0, 0), [], None, 0)])
    if cls:
        hist("defaults", "A* a = new (p) A(n); new (q) A(); look(*a, o); return a->size();", lambda: [((n, 0, 0), ["default"] * tri(n), None, n) for n in range(N + 1)])
    hist("copy", mkp + "A* b = new (q) A(*(const A*)a); look(*a, o); look(*b, o2); return b->size();", lambda: [((n, 0, 0), V("x", n), V("x", n), n) for n in R])
    hist("copy_independent", mkp + "A* b = new (q) A(*(const A*)a); fill(*b, y); look(*a, o); look(*b, o2); return b->size();", lambda: [((n, 0, 0), V("x", n), V("y", n), n) for n in R])
    hist("move", mkp + "A* b = new (q) A(std::move(*a)); look(*a, o); look(*b, o2); return b->size() + 10 * a->size();", lambda: [((n, 0, 0), [], V("x", n), n) for n in R])
    pairs = lambda: itertools.product(R, R)
    hist("assign", mkpq + "*a = *(const A*)b; look(*a, o); look(*b, o2); return a->size();", lambda: [((n, m, 0), V("y", m), V("y", m), m) for n, m in pairs()])
    hist("assign_independent", mkpq + "*a = *(const A*)b; fill(*b, z); look(*a, o); look(*b, o2); return a->size();", lambda: [((n, m, 0), V("y", m), V("z", m), m) for n, m in pairs()])
    hist("assign_to_new", "A* a = new (p) A(); A* b = new (q) A(m); fill(*b, y); *a = *(const A*)b; look(*a, o); look(*b, o2); return a->size();", lambda: [((0, m, 0), V("y", m), V("y", m), m) for m in R])
    # the capacity stays larger than the size after an assignment of a smaller matrix: growing again takes place inside it
    hist("assign_twice", mkpq + "*a = *(const A*)b; { A c(k); fill(c, z); *a = *(const A*)&c; } look(*a, o); look(*b, o2); return a->size();",
         lambda: [((n, m, k), V("z", k), V("y", m), k) for n, m, k in itertools.product(R, R, R)])
    hist("assign_copy", mkpq + "*a = *(const A*)b; b->~A(); b = new (q) A(*(const A*)a); look(*a, o); look(*b, o2); return b->size();", lambda: [((n, m, 0), V("y", m), V("y", m), m) for n, m in pairs()])
    hist("assign_move", mkpq + "*a = *(const A*)b; *b = std::move(*a); look(*a, o); look(*b, o2); return b->size();", lambda: [((n, m, 0), [], V("y", m), m) for n, m in pairs()])
    hist("assign_self", mkp + "new (q) A(); A& c = *a; *a = *(const A*)&c; look(*a, o); return a->size();", lambda: [((n, 0, 0), V("x", n), None, n) for n in R])
    hist("move_assign", mkpq + "*a = std::move(*b); look(*a, o); look(*b, o2); return a->size();", lambda: [((n, m, 0), V("y", m), [], m) for n, m in pairs()])
    hist("move_assign_self", mkp + "new (q) A(); A& c = *a; *a = std::move(c); look(*a, o); return a->size();", lambda: [((n, 0, 0), V("x", n), None, n) for n in R])
    hist("reuse", mkpq + "*a = std::move(*b); *b = *(const A*)a; fill(*b, z); look(*a, o); look(*b, o2); return a->size();", lambda: [((n, m, 0), V("y", m), V("z", m), m) for n, m in pairs()])

    def outside(cx):
        st0 = start_t(cx, cls)
        size = cx.lay.size(CLS)
        low = C_ == "LowerArray2D"
        for n in range(N):
            for k in range(5):
                st = st0.fork()
                p = Ptr(cx.obj(st, size, "p"), ZERO)
                i, j = S(T.new("i", "v")), S(T.new("j", "v"))
                lim = 1 << 40
                for v in (i, j):
                    st.add(v + lim)
                    st.add(C(lim) - v)
                st.add((-i - 1, i - n, -j - 1, j - n, (j - i if low else i - j) - 1)[k])
                for s_, r in cx.run(st, [p, C(n), i, j]):
                    if world(s_):
                        cx.fail(s_, "unchecked", "element (%s) of a matrix of order %d is accepted" % (("i < 0", "i >= n", "j < 0", "j >= n", "outside the triangle")[k], n))
                cx.E.obl += 1
                cx.E.proved += 1
                cx.E.aborts = []
    for nm, c in (("", ""), ("_const", "const ")):
        g.case(P, "outside" + nm, "(void* p, I n, I i, I j)", "A* a = new (p) A(n); %sA& c = *a; return &c(i, j);" % c, outside, "const void*")

    def neg(cx):
        st = start_t(cx, cls)
        p = Ptr(cx.obj(st, cx.lay.size(CLS), "p"), ZERO)
        n = S(T.new("n", "v"))
        st.add(-n - 1)
        for s_, r in cx.run(st, [p, n]):
            cx.fail(s_, "unchecked", "a negative order is accepted")
        cx.E.aborts = []
    g.case(P, "negative", "(void* p, I n)", "new (p) A(n);", neg)
    return g


PRE_B = '''
#include <il/BandArray2C.h>
#include <il/TriDiagonal.h>
#include <new>
typedef il::int_t I;
typedef il::BandArray2C<double> B;
typedef il::TriDiagonal<double> D;
'''


def build_band():
    g = Group("band", PRE_B)
    g.life = "S01"
    P = "S01"

    def ranges(n0, n1, l, r):
        return [(i, k) for i in range(n0) for k in range(-l, r + 1) if 0 <= i + k < n1]

    def band(cx):
        for n0, n1, l, r in [(n0, n1, l, r) for n0 in range(0, 4) for n1 in range(0, 4) for l in range(0, 3) for r in range(0, 3)]:
            pos = ranges(n0, n1, l, r)
            for wr in (True, False):
                st = start_t(cx, False)
                x = block(cx, st, "x", max(1, len(pos)), False)
                q = Ptr(cx.obj(st, 8 * max(1, len(pos)), "q"), ZERO)
                for s_, ret in cx.run(st, [x, q, C(n0), C(n1), C(l), C(r), C(1 if wr else 0)]):
                    cx.states += 1
                    for k, ik in enumerate(pos):
                        for y, v in cx.E.load(s_, Ptr(q.o, C(8 * k)), 8, IR.DOUBLE, "result"):
                            w = poly(Term("init", "x", C(k))) if wr else ZERO
                            check(cx, y, v, lambda ask: w, "band matrix %dx%d of widths %d and %d: element %s" % (n0, n1, l, r, ik))
                    cx.expect(s_, ret - len(pos), "post", "number of elements", True)
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    body = ("B b(%s); I c = 0; for (I i = 0; i < n0; ++i) for (I k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) { if (w) b(i, k) = x[c]; ++c; } const B& d = b; c = 0; "
            "for (I i = 0; i < n0; ++i) for (I k = -l; k <= r; ++k) if (i + k >= 0 && i + k < n1) { q[c] = d(i, k); if (&d(i, k) != &b(i, k)) il::abort(); ++c; } "
            "if (b.size(0) != n0 || b.size(1) != n1 || b.widthLeft() != l || b.widthRight() != r || b.capacityRight() < r + l) il::abort(); return c;")
    sg = "(const double* x, double* q, I n0, I n1, I l, I r, long w)"
    g.case(P, "band", sg, body % "n0, n1, l, r", band, "I")

    def square(cx):
        for n in range(0, 4):
            for w in range(0, 3):
                pos = ranges(n, n, w, w)
                st = start_t(cx, False)
                x = block(cx, st, "x", max(1, len(pos)), False)
                q = Ptr(cx.obj(st, 8 * max(1, len(pos)), "q"), ZERO)
                for s_, ret in cx.run(st, [x, q, C(n), C(n), C(w), C(w), C(1)]):
                    cx.states += 1
                    for k, ik in enumerate(pos):
                        for y, v in cx.E.load(s_, Ptr(q.o, C(8 * k)), 8, IR.DOUBLE, "result"):
                            check(cx, y, v, lambda ask: poly(Term("init", "x", C(k))), "band matrix of order %d and width %d: element %s" % (n, w, ik))
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    g.case(P, "band_square", sg, body % "n0, l", square, "I")

    def outside(cx):
        lim = 1 << 40
        for n0, n1, l, r in ((2, 3, 1, 1), (3, 2, 0, 2), (3, 3, 2, 0), (0, 2, 1, 1)):
            for k in range(6):
                st = start_t(cx, False)
                i, j = S(T.new("i", "v")), S(T.new("k", "v"))
                for v in (i, j):
                    st.add(v + lim)
                    st.add(C(lim) - v)
                st.add((-i - 1, i - n0, -j - l - 1, j - r - 1, -i - j - 1, i + j - n1)[k])
                for s_, ret in cx.run(st, [C(n0), C(n1), C(l), C(r), i, j]):
                    if world(s_):
                        cx.fail(s_, "unchecked", "an element outside the band (%s) is accepted" % ("i < 0", "i >= n0", "k < -widthLeft", "k > widthRight", "i + k < 0", "i + k >= n1")[k])
                cx.E.obl += 1
                cx.E.proved += 1
                cx.E.aborts = []
    for nm, c in (("", ""), ("_const", "const ")):
        g.case(P, "band_outside" + nm, "(I n0, I n1, I l, I r, I i, I k)", "B b(n0, n1, l, r); %sB& c = b; return c(i, k);" % c, outside, "double")

    def tridiag(cx):
        for n in range(0, 5):
            pos = [(i, k) for i in range(n) for k in (-1, 0, 1) if 0 <= i + k < n]
            st = start_t(cx, False)
            x = block(cx, st, "x", max(1, len(pos)), False)
            q = Ptr(cx.obj(st, 8 * max(1, 2 * len(pos)), "q"), ZERO)
            for s_, ret in cx.run(st, [x, q, C(n)]):
                cx.states += 1
                for h in (0, 1):
                    for k, ik in enumerate(pos):
                        for y, v in cx.E.load(s_, Ptr(q.o, C(8 * (k + h * len(pos)))), 8, IR.DOUBLE, "result"):
                            check(cx, y, v, lambda ask: poly(Term("init", "x", C(k))), "tridiagonal matrix of order %d: element %s%s" % (n, ik, " through the pointer to its diagonal" if h else ""))
                cx.expect(s_, ret - n, "post", "order", True)
                cx.leak_check(s_)
            cx.no_abort()
            cx.E.aborts = []
    g.case(P, "tridiagonal", "(const double* x, double* q, I n)", "D d(n); I c = 0; for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) d(i, k) = x[c++]; const D& e = d; I h = 0; "
           "for (I i = 0; i < n; ++i) for (I k = -1; k <= 1; ++k) if (i + k >= 0 && i + k < n) { q[h] = e(i, k); if (&e(i, k) != &d(i, k)) il::abort(); q[c + h] = k == -1 ? d.LowerData()[i - 1] : k == 0 ? d.DiagonalData()[i] : d.UpperData()[i]; ++h; } return d.size();", tridiag, "I")

    def tri_out(cx):
        lim = 1 << 40
        for n in (0, 1, 3):
            for k in range(4):
                st = start_t(cx, False)
                i, j = S(T.new("i", "v")), S(T.new("k", "v"))
                for v in (i, j):
                    st.add(v + lim)
                    st.add(C(lim) - v)
                st.add((-i - 1, i - n, -j - 2, j - 2)[k])
                for s_, ret in cx.run(st, [C(n), i, j]):
                    if world(s_):
                        cx.fail(s_, "unchecked", "an element that is not on the three diagonals is accepted (%s)" % ("i < 0", "i >= n", "k < -1", "k > 1")[k])
                cx.E.obl += 1
                cx.E.proved += 1
                cx.E.aborts = []
    for nm, c in (("", ""), ("_const", "const ")):
        g.case(P, "tridiagonal_outside" + nm, "(I n, I i, I k)", "D d(n); %sD& c = d; return c(i, k);" % c, tri_out, "double")
    return g


PRE_S = """
#include <il/SparseMatrixCSR.h>
#include <il/linearAlgebra/sparse/blas/sparseBlas.h>
#include <new>
typedef il::int_t I;
extern "C" X ilv_pick(X v);
typedef il::SparseMatrixCSR<X, double> S;
// the matrix with n rows and m columns whose row i holds the columns of the bit set r[i], in increasing order
static S mk(const double* x, I n, I m, const I* r) {
  I nnz = 0;
  for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) if ((r[i] >> j) & 1) ++nnz;
  il::Array<X> col(nnz); il::Array<X> row(n + 1); il::Array<double> el(nnz);
  I k = 0;
  row[0] = 0;
  for (I i = 0; i < n; ++i) { for (I j = 0; j < m; ++j) if ((r[i] >> j) & 1) { col[k] = (X)j; el[k] = x[k]; ++k; } row[i + 1] = (X)k; }
  return S(n, m, std::move(col), std::move(row), std::move(el));
}
static il::Array<double> vec(const double* x, I n) { il::Array<double> v(n); for (I i = 0; i < n; ++i) v[i] = x[i]; return v; }
"""


def patterns(n, m):
    return itertools.product(range(1 << m), repeat=n)


def m_pick(E, st, name, args):
    """an unknown index below E.pick_n: one path per value"""
    out = []
    for c in range(E.pick_n):
        x = st.fork()
        if x.assume(args[0] - c, True):
            out.append((x, C(c)))
    return out


def build_sparse(X):
    g = Group("sparse_%s" % ("i" if X == "int" else "l"), PRE_S.replace("X", X))
    g.life = "S02"
    P = "S02"
    xs = 4 if X == "int" else 8
    cell = lambda k: poly(Term("init", "x", C(k)))

    def setup(cx):
        st = start_t(cx, False)
        cx.E.no_nan = True
        return st

    def rows(cx, st, pat):
        o = cx.obj(st, 8 * max(1, len(pat)), "r")
        for i, b in enumerate(pat):
            cx.put(st, o, 8 * i, 8, C(b))
        return Ptr(o, ZERO)

    SHAPES = [(0, 0), (1, 1), (2, 2), (2, 3), (3, 2)]

    def access(cx):
        for n, m in SHAPES:
            for pat in patterns(n, m):
                st = setup(cx)
                cols = [[j for j in range(m) if b >> j & 1] for b in pat]
                nnz = sum(map(len, cols))
                q = Ptr(cx.obj(st, 8 * max(1, 4 * nnz), "q"), ZERO)
                for s_, r in cx.run(st, [block(cx, st, "x", 16, False), q, C(n), C(m), rows(cx, st, pat)]):
                    cx.states += 1
                    cx.expect(s_, r - nnz, "post", "number of elements of the sparse matrix", True)
                    for h in range(4):
                        for k in range(nnz):
                            for y, v in cx.E.load(s_, Ptr(q.o, C(8 * (h * nnz + k))), 8, IR.DOUBLE, "result"):
                                check(cx, y, v, lambda ask: cell(k), "sparse matrix %s: element %d" % (cols, k))
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    g.case(P, "access", "(const double* x, double* q, I n, I m, const I* r)", "S A = mk(x, n, m, r); const S& B = A; I z = 0; const I nnz = A.nbNonZeros(); if (A.size(0) != n || A.size(1) != m) il::abort(); "
           "for (I i = 0; i < n; ++i) { I k = 0; for (I j = 0; j < m; ++j) if ((r[i] >> j) & 1) { q[z] = B(i, k); q[nnz + z] = B[z]; q[2 * nnz + z] = A.element(z); q[3 * nnz + z] = B.elementData()[B.row(i) + k]; "
           "if (B.column(z) != j || B.columnData()[z] != j || &A(i, k) != &B(i, k) || &A[z] != &B[z]) il::abort(); ++k; ++z; } if (B.row(i + 1) - B.row(i) != k || B.rowData()[i + 1] != z) il::abort(); } return nnz;", access, "I")

    def bad(cx):
        lim = 1 << 40
        for pat in ((1, 3), (0, 2), (3, 0)):
            for k in range(3 if X != "int" else 2):
                st = setup(cx)
                i, j = S(T.new("i", "v")), S(T.new("k", "v"))
                for v in (i, j):
                    st.add(v + lim)
                    st.add(C(lim) - v)
                for row in (0, 1) if k == 2 else (0,):
                    s0 = st.fork()
                    if k == 2:
                        # a position past the end of the row
                        s0.add(j - bin(pat[row]).count("1"))
                        if row == 1:
                            s0.add(j - 4)
                        args = [C(row), j]
                    else:
                        s0.add((-i - 1, i - 2)[k])
                        args = [i, C(0)]
                    for s_, r in cx.run(s0, [block(cx, s0, "x", 16, False), C(2), C(2), rows(cx, s0, pat)] + args):
                        if world(s_):
                            cx.fail(s_, "unchecked", "sparse element access outside the matrix is accepted (%s)" % ("i < 0", "i >= size(0)", "past the end of the row")[k])
                cx.E.obl += 1
                cx.E.proved += 1
                cx.E.aborts = []
    g.case(P, "outside", "(const double* x, I n, I m, const I* r, I i, I k)", "S A = mk(x, n, m, r); const S& B = A; return B(i, k);", bad, "double")
    g.case(P, "outside_mutable", "(const double* x, I n, I m, const I* r, I i, I k)", "S A = mk(x, n, m, r); return A(i, k);", bad, "double")

    # the matrix built from a list of positions
    def positions(cx):
        for n, e, fix in ((0, 0, ()), (1, 0, ()), (2, 0, ()), (1, 2, ()), (2, 1, ()), (2, 2, ()), (2, 3, ()), (3, 2, ()), (3, 3, (1, 1, 1)), (3, 3, (0, 1, 0)), (3, 4, (1, 1, 1, 0)), (4, 3, (2, 2, 2))):
            st = setup(cx)
            cx.E.pick_n = max(n, 1)
            cx.E.model_pats = [(re.compile("^@ilv_pick$"), m_pick)] + cx.E.model_pats
            o = cx.obj(st, 8 * max(1, 2 * e), "p")
            syms = []
            for i in range(2 * e):
                v = S(T.new("p%d" % i, "v"))
                st.add(v)
                st.add(C(n - 1) - v)
                if i % 2 == 0 and fix:
                    v = C(fix[i // 2])
                syms.append(v)
                cx.put(st, o, 8 * i, 8, v)
            # results: n + 1 row starts, then columns, then positions of the entries
            q, z = Ptr(cx.obj(st, 8 * 32, "q"), ZERO), Ptr(cx.obj(st, 8 * 8, "z"), ZERO)
            for s_, r in cx.run(st, [Ptr(o, ZERO), C(n), C(e), q, z]):
                cx.states += 1
                vals = []
                for v in syms:
                    c = v.const() if v.const() is not None else next((c for c in range(n) if s_.ent(v - c) and s_.ent(C(c) - v)), None)
                    if c is None:
                        raise Unsupported("position not determined")
                    vals.append(c)
                pos = [(vals[2 * i], vals[2 * i + 1]) for i in range(e)]
                uniq = sorted(set(pos))
                want = [sum(1 for a in uniq if a[0] < i) for i in range(n + 1)] + [a[1] for a in uniq] + [uniq.index(a) for a in pos]
                cx.expect(s_, r - len(uniq), "post", "number of elements of the matrix with entries at %s" % pos, True)
                for k in range(len(uniq)):
                    for y, v in cx.E.load(s_, Ptr(z.o, C(8 * k)), 8, IR.DOUBLE, "result"):
                        check(cx, y, v, lambda ask: ZERO, "matrix with entries at %s: element %d before it is set" % (pos, k))
                for k, w in enumerate(want):
                    for y, v in cx.E.load(s_, Ptr(q.o, C(8 * k)), 8, IR.INT(64), "result"):
                        if not isinstance(v, Poly):
                            raise Unsupported("result not determined")
                        cx.expect(y, v - w, "post", "matrix with entries at %s: %s" % (pos, "start of row %d" % k if k <= n else "column of element %d" % (k - n - 1) if k <= n + len(uniq) else "position of entry %d" % (k - n - 1 - len(uniq))), True)
                cx.leak_check(s_)
            cx.no_abort()
            cx.E.aborts = []
    g.case(P, "positions", "(const I* p, I n, I e, I* q, double* z)", "il::Array<il::StaticArray<%s, 2>> pos(e); for (I i = 0; i < e; ++i) for (I d = 0; d < 2; ++d) pos[i][d] = ilv_pick((%s)p[2 * i + d]); il::Array<%s> index{}; S A(n, pos, il::io, index); "
           "I c = 0; for (I i = 0; i <= n; ++i) q[c++] = A.row(i); for (I k = 0; k < A.nbNonZeros(); ++k) { q[c++] = A.column(k); z[k] = A[k]; } if (index.size() != e || A.size(0) != n || A.size(1) != n) il::abort(); for (I i = 0; i < e; ++i) q[c++] = index[i]; return A.nbNonZeros();" % (X, X, X), positions, "I")

    def product(cx):
        for n, m in SHAPES:
            for pat in patterns(n, m):
                st = setup(cx)
                cols = [[j for j in range(m) if b >> j & 1] for b in pat]
                q = Ptr(cx.obj(st, 8 * max(1, n), "q"), ZERO)
                args = [block(cx, st, "x", 16, False), C(n), C(m), rows(cx, st, pat), block(cx, st, "v", 4, False), block(cx, st, "w", 4, False), q, Term("init", "alpha"), Term("init", "beta")]
                for s_, r in cx.run(st, args):
                    cx.states += 1
                    k = 0
                    for i in range(n):
                        t = ZERO
                        for j in cols[i]:
                            t = t + cell(k) * poly(Term("init", "v", C(j)))
                            k += 1
                        t = poly(Term("init", "alpha")) * t + poly(Term("init", "beta")) * poly(Term("init", "w", C(i)))
                        for y, v in cx.E.load(s_, Ptr(q.o, C(8 * i)), 8, IR.DOUBLE, "result"):
                            check(cx, y, v, lambda ask: t, "product with the sparse matrix %s: element %d" % (cols, i))
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    g.case(P, "product", "(const double* x, I n, I m, const I* r, const double* v, const double* w, double* q, double alpha, double beta)",
           "S A = mk(x, n, m, r); il::Array<double> a = vec(v, m), b = vec(w, n); il::blas(alpha, A, a, beta, il::io, b); for (I i = 0; i < n; ++i) q[i] = b[i];", product)

    def norm(cx):
        for n, m in SHAPES[1:]:
            for pat in patterns(n, m):
                if sum(bin(b).count("1") for b in pat) > 4:
                    continue
                st = setup(cx)
                cols = [[j for j in range(m) if b >> j & 1] for b in pat]
                args = [block(cx, st, "x", 16, False), C(n), C(m), rows(cx, st, pat), block(cx, st, "v", 4, False), block(cx, st, "w", 4, False)]

                def spec(ask):
                    best, k = ZERO, 0
                    for i in range(n):
                        t = ZERO
                        for j in cols[i]:
                            t = t + r_abs(ask, quot(cell(k) * poly(Term("init", "v", C(j))), poly(Term("init", "w", C(i)))))
                            k += 1
                        best = r_max(ask, [best, t])
                    return best
                for s_, r in cx.run(st, args):
                    cx.states += 1
                    check(cx, s_, r, spec, "norm of the sparse matrix %s" % cols)
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    g.case(P, "norm", "(const double* x, I n, I m, const I* r, const double* v, const double* w)",
           "S A = mk(x, n, m, r); il::Array<double> a = vec(v, m), b = vec(w, n); return il::norm(A, il::Norm::Linf, b, a);", norm, "double")

    def norm_size(cx):
        for n, m in SHAPES[1:]:
            for la in range(5):
                for lb in range(5):
                    if (la, lb) == (m, n):
                        continue
                    st = setup(cx)
                    for s_, r in cx.run(st, [block(cx, st, "x", 16, False), C(n), C(m), rows(cx, st, [1] * n), C(la), C(lb)]):
                        if world(s_):
                            cx.fail(s_, "unchecked", "norm of a %d x %d sparse matrix accepts scaling vectors of the sizes %d and %d" % (n, m, lb, la))
                    cx.E.obl += 1
                    cx.E.proved += 1
                    cx.E.aborts = []
    g.case(P, "norm_size", "(const double* x, I n, I m, const I* r, I la, I lb)",
           "S A = mk(x, n, m, r); il::Array<double> a(la), b(lb); return il::norm(A, il::Norm::Linf, b, a);", norm_size, "double")

    def rowsarr(cx):
        for n, m in SHAPES[1:]:
            for pat in patterns(n, m):
                st = setup(cx)
                cols = [[j for j in range(m) if b >> j & 1] for b in pat]
                nnz = sum(map(len, cols))
                q = Ptr(cx.obj(st, 8 * 32, "q"), ZERO)
                want = [sum(map(len, cols[:i])) for i in range(n + 1)] + sum(cols, [])
                for s_, r in cx.run(st, [C(n), C(m), rows(cx, st, pat), q]):
                    cx.states += 1
                    cx.expect(s_, r - nnz, "post", "number of elements", True)
                    for k, w in enumerate(want):
                        for y, v in cx.E.load(s_, Ptr(q.o, C(8 * k)), 8, IR.INT(64), "result"):
                            cx.expect(y, v - w, "post", "matrix with the rows %s" % cols, True)
                    cx.leak_check(s_)
                cx.no_abort()
                cx.E.aborts = []
    if X != "int":
        g.case(P, "from_rows", "(I n, I m, const I* r, I* q)", "il::Array<il::SmallArray<%s, 2>> rows(n); for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) if ((r[i] >> j) & 1) rows[i].Append((%s)j); S A(m, n, rows); I c = 0; for (I i = 0; i <= n; ++i) q[c++] = A.row(i); "
           "for (I k = 0; k < A.nbNonZeros(); ++k) q[c++] = A.column(k); if (A.size(0) != n || A.size(1) != m) il::abort(); return A.nbNonZeros();" % (X, X), rowsarr, "I")
    return g


def groups():
    return [build_tri(c, k) for c in ("LowerArray2D", "UpperArray2D") for k in (False, True)] + [build_band(), build_sparse("il::int_t"), build_sparse("int")]
