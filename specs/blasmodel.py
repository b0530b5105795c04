"""Effect summaries of the CBLAS / LAPACKE routines the library calls, and comparison of recorded calls with the operation the caller asked for.

A call is recorded in the trace of the abstract state in a layout-free form: every matrix operand is (pointer, row step, column step,
conjugated).  The summary also checks the documented argument rules (leading dimension, extents) and that every element the routine
may touch lies in live storage (writable for outputs)."""
from array1d import *

ESZ = {"s": 4, "d": 8, "c": 8, "z": 16}
LIM = 1 << 27


class Mat:
    __slots__ = ("p", "m", "n", "rs", "cs", "conj")

    def __init__(s, p, m, n, rs, cs, conj=False):
        s.p, s.m, s.n, s.rs, s.cs, s.conj = p, m, n, rs, cs, conj

    def t(s):
        return Mat(s.p, s.n, s.m, s.cs, s.rs, s.conj)

    def h(s):
        return Mat(s.p, s.n, s.m, s.cs, s.rs, not s.conj)

    def __repr__(s):
        return "[%s %sx%s steps %s,%s%s]" % (s.p, s.m, s.n, s.rs, s.cs, " conj" if s.conj else "")


def ic(v):
    return v.const() if isinstance(v, Poly) else None


def touch(E, st, mat, es, what, write):
    """every element of the matrix operand is inside live storage"""
    i, j = T.new("bi", "i"), T.new("bj", "j")
    w = st.fork()
    if not (w.assume(S(i)) and w.assume(mat.m - 1 - S(i)) and w.assume(S(j)) and w.assume(mat.n - 1 - S(j))):
        return st
    if not isinstance(mat.p, Ptr):
        o = E.check_access(w, mat.p, es, what)
        return st
    off = mat.p.off + (S(i) * mat.rs + S(j) * mat.cs) * es
    o = E.check_access(w, Ptr(mat.p.o, off), es, what)
    if write and o is not None and o != "unk" and o.ro:
        E.violate(w, "const", "%s writes to storage passed for reading (%s)" % (what, o.name))
    if write and mat.p.o in st.objs:
        st = E.unk_store(st.fork(), mat.p)
    return st


def legal(E, st, p, msg):
    return E.oblige(st, p, "blasarg", msg)


def operand(E, st, layout, p, rows, cols, ld, es, what, write=False):
    """matrix stored rows x cols with leading dimension ld in the given layout (101 row major, 102 column major)"""
    col = layout == 102
    legal(E, st, ld - (rows if col else cols), "leading dimension of %s is at least its %s" % (what, "number of rows" if col else "number of columns"))
    legal(E, st, ld - 1, "leading dimension of %s is at least 1" % what)
    return Mat(p, rows, cols, ONE if col else ld, ld if col else ONE)


def scal(E, st, v, ty):
    """scalar argument: by value (real) or by pointer (complex)"""
    if ty in "sd":
        return (v,)
    out = []
    h = ESZ[ty] // 2
    for k in (0, h):
        r = E.load(st, Ptr(v.o, v.off + k), h, IR.VOID, "scalar argument") if isinstance(v, Ptr) else []
        out.append(r[0][1] if r else Term("unk", T.new("unk", "unk")))
    return tuple(out)


def rec(E, st, op):
    if E.quiet:
        return st
    st = st.fork()
    st.trace = st.trace + (op,)
    return st


def opd(E, m, tr, ty):
    if tr == 111:
        return m
    if tr == 112:
        return m.t()
    if tr == 113:
        return m.h() if ty in "cz" else m.t()
    return None


class Bad(Exception):
    pass


def need(v, what):
    c = ic(v)
    if c is None:
        raise Unsupported("%s of a BLAS call is not a constant" % what)
    return c


def enum(E, st, v, allowed, what):
    c = need(v, what)
    E.obl += 1
    if c not in allowed:
        E.violate(st, "blasarg", "%s = %s is not a legal value" % (what, c))
        raise Bad()
    E.proved += 1
    return c


def guard(f):
    def g(E, st, name, args):
        try:
            return f(E, st, name, args)
        except Bad:
            return []
    return g


@guard
def gemm(E, st, name, a):
    ty = re.match(r"@cblas_([sdcz])gemm", name).group(1)
    es = ESZ[ty]
    lay, ta, tb, m, n, k, al, A, lda, B_, ldb, be, C_, ldc = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ta, tb = enum(E, st, ta, (111, 112, 113), "transA"), enum(E, st, tb, (111, 112, 113), "transB")
    for v in (m, n, k):
        legal(E, st, v, "extent is not negative")
    A = operand(E, st, lay, A, *((m, k) if ta == 111 else (k, m)), lda, es, "A")
    B_ = operand(E, st, lay, B_, *((k, n) if tb == 111 else (n, k)), ldb, es, "B")
    C_ = operand(E, st, lay, C_, m, n, ldc, es, "C")
    al, be = scal(E, st, al, ty), scal(E, st, be, ty)
    touch(E, st, A, es, "matrix A of %s" % name[1:], False)
    touch(E, st, B_, es, "matrix B of %s" % name[1:], False)
    st = touch(E, st, C_, es, "matrix C of %s" % name[1:], True)
    return [(rec(E, st, ("gemm", ty, al, opd(E, A, ta, ty), opd(E, B_, tb, ty), be, C_)), None)]


def vec(E, st, p, n, inc):
    c = need(inc, "increment")
    if c == 0:
        w = st.fork()
        E.obl += 1
        if w.assume(n - 2):
            E.violate(w, "blasarg", "a vector is passed with increment 0: every element is the first one")
            raise Bad()
        E.proved += 1
        c = 1
    if c < 0:
        raise Unsupported("increment %s" % c)
    return Mat(p, n, ONE, C(c), ONE)


@guard
def gemv(E, st, name, a):
    ty = re.match(r"@cblas_([sdcz])gemv", name).group(1)
    es = ESZ[ty]
    lay, ta, m, n, al, A, lda, x, incx, be, y, incy = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ta = enum(E, st, ta, (111, 112, 113), "transA")
    for v in (m, n):
        legal(E, st, v, "extent is not negative")
    A = operand(E, st, lay, A, m, n, lda, es, "A")
    X, Y = vec(E, st, x, n if ta == 111 else m, incx), vec(E, st, y, m if ta == 111 else n, incy)
    al, be = scal(E, st, al, ty), scal(E, st, be, ty)
    touch(E, st, A, es, "matrix A of %s" % name[1:], False)
    touch(E, st, X, es, "vector x of %s" % name[1:], False)
    st = touch(E, st, Y, es, "vector y of %s" % name[1:], True)
    return [(rec(E, st, ("gemm", ty, al, opd(E, A, ta, ty), X, be, Y)), None)]


@guard
def axpy(E, st, name, a):
    ty = re.match(r"@cblas_([sdcz])axp", name).group(1)
    es = ESZ[ty]
    if "axpby" in name:
        n, al, x, incx, be, y, incy = a
        be = scal(E, st, be, ty)
    else:
        n, al, x, incx, y, incy = a
        be = None
    legal(E, st, n, "extent is not negative")
    X, Y = vec(E, st, x, n, incx), vec(E, st, y, n, incy)
    al = scal(E, st, al, ty)
    touch(E, st, X, es, "vector x of %s" % name[1:], False)
    st = touch(E, st, Y, es, "vector y of %s" % name[1:], True)
    return [(rec(E, st, ("axpy", ty, al, X, be, Y)), None)]


@guard
def cdot(E, st, name, a):
    ty = re.match(r"@cblas_([sdcz])dot", name).group(1)
    es = ESZ[ty]
    n, x, incx, y, incy = a[:5]
    legal(E, st, n, "extent is not negative")
    X, Y = vec(E, st, x, n, incx), vec(E, st, y, n, incy)
    touch(E, st, X, es, "vector x of %s" % name[1:], False)
    touch(E, st, Y, es, "vector y of %s" % name[1:], False)
    conj = "dotc" in name
    k = len(st.trace)
    st = rec(E, st, ("dot", ty, Mat(X.p, X.m, X.n, X.rs, X.cs, conj), Y))
    if ty in "sd":
        return [(st, Term("dotv", k))]
    if ty == "z":
        for d, nm in ((0, "dotre"), (8, "dotim")):
            st = E.store(st, Ptr(a[5].o, a[5].off + d), 8, Term(nm, k), "result of dot")
            if st is None:
                return []
    else:
        for d, nm in ((0, "dotre"), (4, "dotim")):
            st = E.store(st, Ptr(a[5].o, a[5].off + d), 4, Term(nm, k), "result of dot")
            if st is None:
                return []
    return [(st, None)]


@guard
def trsm(E, st, name, a):
    ty = re.match(r"@cblas_([sdcz])trsm", name).group(1)
    es = ESZ[ty]
    lay, side, uplo, ta, diag, m, n, al, A, lda, B_, ldb = a
    lay = enum(E, st, lay, (101, 102), "layout")
    side, uplo = enum(E, st, side, (141, 142), "side"), enum(E, st, uplo, (121, 122), "uplo")
    ta, diag = enum(E, st, ta, (111, 112, 113), "transA"), enum(E, st, diag, (131, 132), "diag")
    for v in (m, n):
        legal(E, st, v, "extent is not negative")
    k = m if side == 141 else n
    A = operand(E, st, lay, A, k, k, lda, es, "A")
    B_ = operand(E, st, lay, B_, m, n, ldb, es, "B")
    al = scal(E, st, al, ty)
    touch(E, st, A, es, "matrix A of %s" % name[1:], False)
    st = touch(E, st, B_, es, "matrix B of %s" % name[1:], True)
    return [(rec(E, st, ("trsm", ty, side, uplo, ta, diag, al, A, B_)), None)]


# ------------------------------------------------------------------ LAPACKE
def ret_info(E, st, kind):
    """info: 0, or positive when the factorisation/iteration fails"""
    if kind == 0:
        return [(st, ZERO)]
    i = S(T.new("info", "info"))
    st.add(i)
    st.add(C(LIM) - i)
    return [(st, i)]


def lap(letter_args, info):
    """summary driven by a small table: returns model"""
    def f(E, st, name, args):
        ty = re.match(r"@LAPACKE_([sdcz])", name).group(1)
        st = st.fork()
        try:
            op, mats = letter_args(E, st, ty, args)
        except Bad:
            return []
        for m, es, what, wr in mats:
            st = touch(E, st, m, es, "%s of %s" % (what, name[1:]), wr)
        st = rec(E, st, (name[1:], ty) + op)
        st = st.fork()
        return ret_info(E, st, info)
    return f


def char(E, st, v, allowed, what):
    return chr(enum(E, st, v, [ord(c) for c in allowed], what))


def vecn(p, n):
    return Mat(p, n, ONE, ONE, ONE)


def ge0(E, st, *vs):
    for v in vs:
        legal(E, st, v, "extent is not negative")


def minp(E, st, a, b):
    if st.ent(b - a):
        return a
    if st.ent(a - b):
        return b
    m = S(T.get("min", "min", (a, b)))
    st.add(a - m)
    st.add(b - m)
    # m is one of them
    return m


def l_getrf(E, st, ty, a):
    lay, m, n, A, lda, ip = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, m, n)
    es = ESZ[ty]
    A = operand(E, st, lay, A, m, n, lda, es, "A")
    i = T.new("pi", "i")
    # pivots: min(m, n) entries
    w = st.fork()
    if w.assume(S(i)) and w.assume(m - 1 - S(i)) and w.assume(n - 1 - S(i)) and isinstance(ip, Ptr):
        E.check_access(w, Ptr(ip.o, ip.off + S(i) * 4), 4, "pivots of getrf")
    return (A, vecn(ip, None)), [(A, es, "matrix A", True)]


def l_getrs(E, st, ty, a):
    lay, tr, n, nrhs, A, lda, ip, B_, ldb = a
    lay = enum(E, st, lay, (101, 102), "layout")
    tr = char(E, st, tr, "NTC", "trans")
    ge0(E, st, n, nrhs)
    es = ESZ[ty]
    A = operand(E, st, lay, A, n, n, lda, es, "A")
    B_ = operand(E, st, lay, B_, n, nrhs, ldb, es, "B")
    return (tr, A, vecn(ip, n), B_), [(A, es, "matrix A", False), (vecn(ip, n), 4, "pivots", False), (B_, es, "matrix B", True)]


def l_getri(E, st, ty, a):
    lay, n, A, lda, ip = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n)
    es = ESZ[ty]
    A = operand(E, st, lay, A, n, n, lda, es, "A")
    return (A, vecn(ip, n)), [(A, es, "matrix A", True), (vecn(ip, n), 4, "pivots", False)]


def l_gecon(E, st, ty, a):
    lay, nm, n, A, lda, anorm, rc = a
    lay = enum(E, st, lay, (101, 102), "layout")
    nm = char(E, st, nm, "1OI", "norm")
    ge0(E, st, n)
    es = ESZ[ty]
    A = operand(E, st, lay, A, n, n, lda, es, "A")
    return ("1" if nm == "O" else nm, A, anorm), [(A, es, "matrix A", False), (vecn(rc, ONE), 8, "rcond", True)]


def l_gesv(E, st, ty, a):
    lay, n, nrhs, A, lda, ip, B_, ldb = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n, nrhs)
    es = ESZ[ty]
    A = operand(E, st, lay, A, n, n, lda, es, "A")
    B_ = operand(E, st, lay, B_, n, nrhs, ldb, es, "B")
    return (A, B_), [(A, es, "matrix A", True), (vecn(ip, n), 4, "pivots", True), (B_, es, "matrix B", True)]


def l_gtsv(E, st, ty, a):
    lay, n, nrhs, dl, d, du, B_, ldb = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n, nrhs)
    es = ESZ[ty]
    B_ = operand(E, st, lay, B_, n, nrhs, ldb, es, "B")
    return (vecn(dl, n - 1), vecn(d, n), vecn(du, n - 1), B_), [(vecn(dl, n - 1), es, "sub-diagonal", True), (vecn(d, n), es, "diagonal", True),
                                                             (vecn(du, n - 1), es, "super-diagonal", True), (B_, es, "matrix B", True)]


def l_gbsv(E, st, ty, a):
    lay, n, kl, ku, nrhs, AB, ldab, ip, B_, ldb = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n, kl, ku, nrhs)
    es = ESZ[ty]
    AB = operand(E, st, lay, AB, kl * 2 + ku + 1, n, ldab, es, "AB")
    B_ = operand(E, st, lay, B_, n, nrhs, ldb, es, "B")
    return (kl, ku, AB, B_), [(AB, es, "band matrix", True), (vecn(ip, n), 4, "pivots", True), (B_, es, "matrix B", True)]


def l_laswp(E, st, ty, a):
    lay, n, A, lda, k1, k2, ip, inc = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n)
    if need(inc, "increment") != 1 or need(k1, "k1") != 1:
        raise Unsupported("laswp with an increment")
    es = ESZ[ty]
    A = operand(E, st, lay, A, k2, n, lda, es, "A")
    return (A, vecn(ip, k2)), [(A, es, "matrix A", True), (vecn(ip, k2), 4, "pivots", False)]


def l_geqrf(E, st, ty, a):
    lay, m, n, A, lda, tau = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, m, n)
    es = ESZ[ty]
    A = operand(E, st, lay, A, m, n, lda, es, "A")
    i = T.new("pi", "i")
    w = st.fork()
    if w.assume(S(i)) and w.assume(m - 1 - S(i)) and w.assume(n - 1 - S(i)) and isinstance(tau, Ptr):
        E.check_access(w, Ptr(tau.o, tau.off + S(i) * es), es, "tau of geqrf")
    return (A, vecn(tau, None)), [(A, es, "matrix A", True)]


def l_gehrd(E, st, ty, a):
    lay, n, ilo, ihi, A, lda, tau = a
    lay = enum(E, st, lay, (101, 102), "layout")
    ge0(E, st, n)
    es = ESZ[ty]
    A = operand(E, st, lay, A, n, n, lda, es, "A")
    return (ilo, ihi, A, vecn(tau, n - 1)), [(A, es, "matrix A", True), (vecn(tau, n - 1), es, "tau", True)]


def l_hseqr(E, st, ty, a):
    lay, job, compz, n, ilo, ihi, H, ldh, wr, wi, z, ldz = a
    lay = enum(E, st, lay, (101, 102), "layout")
    job, compz = char(E, st, job, "ES", "job"), char(E, st, compz, "NIV", "compz")
    ge0(E, st, n)
    es = ESZ[ty]
    H = operand(E, st, lay, H, n, n, ldh, es, "H")
    ms = [(H, es, "matrix H", True), (vecn(wr, n), es, "wr", True), (vecn(wi, n), es, "wi", True)]
    legal(E, st, ldz - 1, "leading dimension of Z is at least 1")
    if compz != "N":
        ms.append((operand(E, st, lay, z, n, n, ldz, es, "Z"), es, "matrix Z", True))
    return (job, compz, ilo, ihi, H, vecn(wr, n), vecn(wi, n)), ms


def l_gebrd(E, st, ty, a):
    lay, m, n, A, lda, d, e, tq, tp = a
    lay = enum(E, st, lay, (101, 102), "layout")
    if m != n:
        raise Unsupported("gebrd of a rectangular matrix")
    es = ESZ[ty]
    A = operand(E, st, lay, A, m, n, lda, es, "A")
    return (A, vecn(d, n), vecn(e, n - 1)), [(A, es, "matrix A", True), (vecn(d, n), 8, "d", True), (vecn(e, n - 1), 8, "e", True),
                                          (vecn(tq, n), es, "tauq", True), (vecn(tp, n), es, "taup", True)]


def l_bdsqr(E, st, ty, a):
    lay, uplo, n, ncvt, nru, ncc, d, e, vt, ldvt, u, ldu, c, ldc = a
    lay = enum(E, st, lay, (101, 102), "layout")
    uplo = char(E, st, uplo, "UL", "uplo")
    ge0(E, st, n, ncvt, nru, ncc)
    es = ESZ[ty]
    for ld in (ldvt, ldu, ldc):
        legal(E, st, ld - 1, "leading dimension is at least 1")
    ms = [(vecn(d, n), 8, "d", True), (vecn(e, n - 1), 8, "e", True)]
    col = lay == 102
    for p, r, cc, ld, what in ((vt, n, ncvt, ldvt, "VT"), (u, nru, n, ldu, "U"), (c, n, ncc, ldc, "C")):
        if r.const() == 0 or cc.const() == 0:
            continue
        ms.append((operand(E, st, lay, p, r, cc, ld, es, what), es, what, True))
    return (uplo, vecn(d, n), vecn(e, n - 1), ncvt, nru, ncc), ms


PATS = [
    (re.compile(r"^@cblas_[sdcz]gemm(3m)?$"), gemm), (re.compile(r"^@cblas_[sdcz]gemv$"), gemv), (re.compile(r"^@cblas_[sdcz]axpb?y$"), axpy),
    (re.compile(r"^@cblas_[sdcz]dot[uc]?(_sub)?$"), cdot), (re.compile(r"^@cblas_[sdcz]trsm$"), trsm),
    (re.compile(r"^@LAPACKE_.getrf$"), lap(l_getrf, 1)), (re.compile(r"^@LAPACKE_.getrs$"), lap(l_getrs, 0)), (re.compile(r"^@LAPACKE_.getri$"), lap(l_getri, 0)),
    (re.compile(r"^@LAPACKE_.gecon$"), lap(l_gecon, 0)), (re.compile(r"^@LAPACKE_.gesv$"), lap(l_gesv, 1)), (re.compile(r"^@LAPACKE_.gtsv$"), lap(l_gtsv, 1)),
    (re.compile(r"^@LAPACKE_.gbsv$"), lap(l_gbsv, 1)), (re.compile(r"^@LAPACKE_.laswp$"), lap(l_laswp, 0)), (re.compile(r"^@LAPACKE_.geqrf$"), lap(l_geqrf, 0)),
    (re.compile(r"^@LAPACKE_.gehrd$"), lap(l_gehrd, 0)), (re.compile(r"^@LAPACKE_.hseqr$"), lap(l_hseqr, 1)), (re.compile(r"^@LAPACKE_.gebrd$"), lap(l_gebrd, 0)),
    (re.compile(r"^@LAPACKE_.bdsqr$"), lap(l_bdsqr, 1)),
]


def install(cx):
    cx.E.model_pats = PATS + list(cx.E.model_pats)


# ------------------------------------------------------------------ comparison
def veq(E, st, a, b):
    """True / False / None and the distinguishing polynomial"""
    if a is None or b is None:
        return (True, None) if a is b else (False, None)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return None, None
        for x, y in zip(a, b):
            r, d = veq(E, st, x, y)
            if r is not True:
                return r, d
        return True, None
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.conj != b.conj:
            return False, None
        for f in ("m", "n"):
            x, y = getattr(a, f), getattr(b, f)
            if x is None or y is None:
                continue
            r, d = E.val_eq(st, x, y)
            if r is not True:
                return r, d
        r, d = E.val_eq(st, a.p, b.p)
        if r is not True:
            return r, d
        if a.m is not None and not st.ent(ONE - a.m):
            r, d = E.val_eq(st, a.rs, b.rs)
            if r is not True:
                return r, d
        if a.n is not None and not st.ent(ONE - a.n):
            r, d = E.val_eq(st, a.cs, b.cs)
            if r is not True:
                return r, d
        return True, None
    if isinstance(a, (str, int)) or isinstance(b, (str, int)):
        return (a == b), None
    return E.val_eq(st, a, b)


def forms(op):
    """equivalent ways to write an operation"""
    yield op
    if op[0] == "gemm":
        _, ty, al, A, B_, be, C_ = op
        yield ("gemm", ty, al, B_.t(), A.t(), be, C_.t())
    if op[0] == "dot" and not op[2].conj and not op[3].conj:
        yield ("dot", op[1], op[3], op[2])


def same(E, st, found, exp):
    res = (None, None)
    for k, f in enumerate(forms(found)):
        if len(f) != len(exp):
            return None, None
        st2 = st
        r = True
        for x, y in zip(f, exp):
            r, d = veq(E, st, x, y)
            if r is not True:
                break
        if r is True:
            return True, None
        if k == 0:
            res = (r, d)
    return res


def expect_ops(cx, st, exp, what, start=0):
    """the calls recorded in st are exactly the expected operations (compared only where every extent is positive)"""
    E = cx.E
    E.curins = None
    got = st.trace[start:]
    E.obl += 1
    E.sites.add((("case", cx.case.name), "ops" + what))
    if not feasible(st.cons):
        E.proved += 1
        return
    if len(got) != len(exp) or any(g[0].replace("LAPACKE_", "")[-5:] != e[0].replace("LAPACKE_", "")[-5:] for g, e in zip(got, exp)):
        E.reports.append(Report("post", "undecided", ("case", 0), "%s: carried out by %s instead of %s; equivalence not decided" % (what, [g[0] for g in got], [e[0] for e in exp]), None, cx.case.name))
        return
    for g, e in zip(got, exp):
        r, d = same(E, st, g, e)
        if r is True:
            continue
        msg = "%s: %s receives %s, expected %s" % (what, g[0], g[1:], e[1:])
        if r is None:
            E.reports.append(Report("post", "undecided", ("case", 0), msg, None, cx.case.name))
            return
        if isinstance(d, Poly):
            done = False
            for q in (d - 1, -d - 1):
                n = norm(q, False)
                if n is False:
                    continue
                cs = st.cons + ([] if n is True else [n])
                if feasible(cs):
                    E.record(st, cs, "post", msg)
                    done = True
                    break
            if not done:
                continue
        else:
            E.record(st, st.cons, "post", msg)
        return
    E.proved += 1


# ------------------------------------------------------------------ ring normal form of floating-point expressions
def ring(v, sub=None):
    """polynomial {multiset of leaves: coefficient} of a tree of + - * over floating-point leaves; None when another operation occurs at the root"""
    from fractions import Fraction
    if isinstance(v, Term) and v.op == "fop":
        op = v.a[0]
        if op in ("fadd", "fsub"):
            a, b = ring(v.a[1]), ring(v.a[2])
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if op == "fadd" else -c)
            return {m: c for m, c in r.items() if c}
        if op == "fneg":
            return {m: -c for m, c in ring(v.a[1]).items()}
        if op == "fmul":
            a, b = ring(v.a[1]), ring(v.a[2])
            r = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = tuple(sorted(m + n, key=repr))
                    r[k] = r.get(k, 0) + c * d
            return {m: c for m, c in r.items() if c}
        if op == "fmuladd":
            return ring(Term("fop", "fadd", Term("fop", "fmul", v.a[1], v.a[2]), v.a[3]))
        if op in ("fpext",):
            return ring(v.a[1])
    if isinstance(v, Term) and v.op == "const":
        from fractions import Fraction
        try:
            c = Fraction(v.a[0])
            return {(): c} if c else {}
        except Exception:
            pass
    return {(v,): 1}


def ring_eq(E, st, a, b):
    """are two float trees the same polynomial of the same leaves? -> True/False/None"""
    pa, pb = ring(a), ring(b)
    reps = []

    def canon(leaf):
        for k, r in enumerate(reps):
            if r == leaf:
                return k
            q, _ = E.val_eq(st, r, leaf)
            if q is None:
                raise KeyError
            if q is True:
                return k
        reps.append(leaf)
        return len(reps) - 1
    try:
        def can(p):
            r = {}
            for m, c in p.items():
                k = tuple(sorted(canon(l) for l in m))
                r[k] = r.get(k, 0) + c
            return {m: c for m, c in r.items() if c}
        ca, cb = can(pa), can(pb)
    except KeyError:
        return None
    return ca == cb
