"""il::solve / il::linearSolve / il::LU / decompositions: the systems handed to BLAS and LAPACK, and what becomes of the results."""
from arraynd import *
from blasmodel import *
from blas import size, matobj, vecobj, positive, CT, mview, vview

PRE_S = '''
#include <il/blas.h>
#include <il/linearAlgebra/dense/blas/solve.h>
#include <il/linearAlgebra/dense/factorization/linearSolve.h>
#include <il/linearAlgebra/dense/factorization/LU.h>
#include <il/linearAlgebra/dense/factorization/luDecomposition.h>
#include <il/linearAlgebra/dense/factorization/qrDecomposition.h>
#include <il/linearAlgebra/dense/factorization/Eigen.h>
#include <new>
#include <utility>
'''


def one(ty):
    return (Term("const", "1.0"), Term("const", "0"))[:2 if ty == "z" else 1]


I32 = IR.INT(32)


def noop(E, st, name, args):
    return [(st, None)]


_install = install
def install(cx):
    """effect summaries: BLAS/LAPACK, and the details attached to an error status"""
    _install(cx)
    cx.E.model_pats = [(re.compile(r"^@_ZN2il6Status(7SetInfo|9setSource)"), noop)] + list(cx.E.model_pats)


def standard(cx, st, args, conds, exp, ext, what, post=None, pre=()):
    """any sizes: a normal return implies the conditions and exactly the expected operations; valid non-empty operands never abort"""
    install(cx)
    for x, r in cx.run(st, args):
        cx.states += 1
        for q, eq in conds:
            cx.expect(x, q, "unchecked", "%s accepts operands whose sizes do not agree" % what, eq)
        w = positive(x, *ext)
        if w is not None:
            expect_ops(cx, w, exp, what)
            if post:
                post(w, r)
    cx.E.aborts = []
    inr = st.fork()
    if all([inr.assume(q, eq) for q, eq in conds]) and all([inr.assume(v - 1) for v in ext]):
        cx.run(inr, args)
        cx.no_abort()
    cx.E.aborts = []


def g_solve(ty):
    g = Group("solve_" + ty, PRE_S)
    g.life = "B02"
    T_ = CT[ty]
    es = ESZ[ty]
    A_ = mview("", ty, "D", False, "a", "a0", "a1", "sa")
    Y_ = mview("", ty, "D", True, "y", "y0", "y1", "sy")
    x_ = vview(ty, True, "x", "nx")
    sA = "const %s* a, il::int_t a0, il::int_t a1, il::int_t sa" % T_
    sY = "%s* y, il::int_t y0, il::int_t y1, il::int_t sy" % T_
    sx = "%s* x, il::int_t nx" % T_
    sP = "const int* p, il::int_t np"
    P_ = "il::ArrayView<int>{p, np}"

    def piv(cx, st):
        n = size(st, "np", 1)
        b = cx.block(st, n, "p", False, kind="param", name="p", esz=4)
        st.wobj(b).ro = True
        return Ptr(b, ZERO), n

    def ops(P=None, tri=None, side=141, tr=111):
        """list builder: (laswp?, trsm?)"""
        def mk(pp, np_, A, B):
            out = []
            if P:
                out.append(("LAPACKE_%slaswp" % ty, ty, B, vecn(pp, np_)))
            if tri:
                out.append(("trsm", ty, side, 122 if tri == "L" else 121, tr, 132 if tri == "L" else 131, one(ty), A, B))
            return out
        return mk

    def case(name, sig, body, parts, mk, right=False):
        def run(cx):
            st = cx.st()
            args, conds, ext = [], [], []
            pp = np_ = A = B = None
            if "P" in parts:
                pp, np_ = piv(cx, st)
                args += [pp, np_]
                ext.append(np_)
            if "A" in parts:
                a0, a1 = size(st, "a0", 1), size(st, "a1", 1)
                pa, sa, A = matobj(cx, st, ty, "D", a0, a1, "A", True)
                args += [pa, a0, a1, sa]
                ext += [a0, a1]
                conds.append((a0 - a1, True))
            if "Y" in parts:
                y0, y1 = size(st, "y0", 1), size(st, "y1", 1)
                py, sy, B = matobj(cx, st, ty, "D", y0, y1, "Y", False)
                args += [py, y0, y1, sy]
                ext += [y0, y1]
                k = y1 if right else y0
            else:
                nx = size(st, "nx", 1)
                px, k = vecobj(cx, st, ty, nx, "x", False), nx
                B = Mat(px[0] if isinstance(px, tuple) else px, nx, ONE, ONE, nx)
                args += [B.p, nx]
                ext.append(nx)
            if A is not None:
                conds.append((A.m - k, True))
            if np_ is not None:
                conds.append((np_ - k, True))
            standard(cx, st, args, conds, mk(pp, np_, A, B), ext, "il::" + ("solveRight" if right else "solve"))
        g.case("B02", name, "(%s)" % sig, body, run)
    for form, tri in (("LowerUnit", "L"), ("UpperNonUnit", "U")):
        case("tri_" + tri, ", ".join([sA, sY]), "il::solve(%s, il::MatrixType::%s, il::io, %s);" % (A_, form, Y_), "AY", ops(tri=tri))
    case("perm", ", ".join([sP, sY]), "il::solve(%s, il::io, %s);" % (P_, Y_), "PY", ops(P=True))
    case("perm_tri", ", ".join([sP, sA, sY]), "il::solve(%s, %s, il::MatrixType::LowerUnit, il::io, %s);" % (P_, A_, Y_), "PAY", ops(P=True, tri="L"))
    case("tri_v", ", ".join([sA, sx]), "il::solve(%s, il::MatrixType::UpperNonUnit, il::io, %s);" % (A_, x_), "Ax", ops(tri="U"))
    case("tri_T", ", ".join([sA, sY]), "il::solve(%s, il::MatrixType::UpperNonUnit, il::Dot::Transpose, il::io, %s);" % (A_, Y_), "AY", ops(tri="U", tr=112))
    case("perm_tri_v", ", ".join([sP, sA, sx]), "il::solve(%s, %s, il::MatrixType::LowerUnit, il::io, %s);" % (P_, A_, x_), "PAx", ops(P=True, tri="L"))
    case("right", ", ".join([sA, sY]), "il::solveRight(%s, il::MatrixType::UpperNonUnit, il::io, %s);" % (A_, Y_), "AY", ops(tri="U", side=142), True)

    # a kind of matrix the overload does not implement is refused
    def refuse(body, sig, parts):
        def run(cx):
            st = cx.st()
            install(cx)
            n = size(st, "n", 1)
            args = []
            if "P" in parts:
                b = cx.block(st, n, "p", False, kind="param", name="p", esz=4)
                args += [Ptr(b, ZERO), n]
            pa, sa, A = matobj(cx, st, ty, "D", n, n, "A", True)
            args += [pa, n, n, sa]
            if "Y" in parts:
                py, sy, B = matobj(cx, st, ty, "D", n, n, "Y", False)
                args += [py, n, n, sy]
            else:
                px, X = vecobj(cx, st, ty, n, "x", False), None
                args += [px[0] if isinstance(px, tuple) else px, n]
            for x, r in cx.run(st, args):
                cx.states += 1
                cx.fail(x, "unchecked", "a matrix type that is not implemented is accepted")
        return run
    for nm, mt, body, sig, parts in (
            ("no_tri_v", "LowerUnit", "il::solve(%s, il::MatrixType::LowerUnit, il::io, %s);" % (A_, x_), ", ".join([sA, sx]), "Ax"),
            ("no_perm_tri", "UpperNonUnit", "il::solve(%s, %s, il::MatrixType::UpperNonUnit, il::io, %s);" % (P_, A_, Y_), ", ".join([sP, sA, sY]), "PAY"),
            ("no_perm_tri_v", "UpperNonUnit", "il::solve(%s, %s, il::MatrixType::UpperNonUnit, il::io, %s);" % (P_, A_, x_), ", ".join([sP, sA, sx]), "PAx"),
            ("no_tri_N", "", "il::solve(%s, il::MatrixType::UpperNonUnit, il::Dot::None, il::io, %s);" % (A_, Y_), ", ".join([sA, sY]), "AY"),
            ("no_right", "", "il::solveRight(%s, il::MatrixType::LowerUnit, il::io, %s);" % (A_, Y_), ", ".join([sA, sY]), "AY")):
        g.case("B02", nm, "(%s)" % sig, body, refuse(body, sig, parts))

    # ---- decompositions on views
    def lu(cx):
        st = cx.st()
        np_, a0, a1 = size(st, "np", 1), size(st, "a0", 1), size(st, "a1", 1)
        b = cx.block(st, np_, "p", False, kind="param", name="p", esz=4)
        pa, sa, A = matobj(cx, st, ty, "D", a0, a1, "A", False)
        install(cx)
        args = [Ptr(b, ZERO), np_, pa, a0, a1, sa]
        for x, r in cx.run(st, args):
            cx.states += 1
            for q in (a0 - a1, np_ - a0):
                cx.expect(x, q, "unchecked", "il::luDecomposition accepts operands whose sizes do not agree", True)
            expect_ops(cx, x, [("LAPACKE_%sgetrf" % ty, ty, A, vecn(Ptr(b, ZERO), None))], "il::luDecomposition")
            for t in info_terms(x):
                cx.expect(x, S(t), "post", "il::luDecomposition returns normally although the matrix is singular", True)
        cx.E.aborts = []
        inr = st.fork()
        if inr.assume(a0 - a1, True) and inr.assume(np_ - a0, True):
            cx.run(inr, args)
            # a singular matrix is refused by an abort
            cx.no_abort(lambda s_: any(s_.ent(S(t) - 1) for t in info_terms(s_)))
        cx.E.aborts = []
    g.case("B02", "luDecomposition", "(int* p, il::int_t np, %s* a, il::int_t a0, il::int_t a1, il::int_t sa)" % T_,
           "il::luDecomposition(il::io, il::ArrayEdit<int>{p, np}, %s);" % mview("", ty, "D", True, "a", "a0", "a1", "sa"), lu)

    def qr(cx):
        st = cx.st()
        nt, a0, a1 = size(st, "nt", 1), size(st, "a0", 1), size(st, "a1", 1)
        pt, _ = (vecobj(cx, st, ty, nt, "tau", False), None)
        pt = pt[0] if isinstance(pt, tuple) else pt
        pa, sa, A = matobj(cx, st, ty, "D", a0, a1, "A", False)
        install(cx)
        args = [pt, nt, pa, a0, a1, sa]
        for x, r in cx.run(st, args):
            cx.states += 1
            cx.expect(x, a0 - nt, "unchecked", "il::qrDecomposition accepts operands whose sizes do not agree")
            cx.expect(x, a1 - nt, "unchecked", "il::qrDecomposition accepts operands whose sizes do not agree")
            expect_ops(cx, x, [("LAPACKE_%sgeqrf" % ty, ty, A, vecn(pt, None))], "il::qrDecomposition")
        cx.E.aborts = []
        for a, b_ in ((a0, a1), (a1, a0)):
            inr = st.fork()
            if inr.assume(nt - a, True) and inr.assume(b_ - a):
                cx.run(inr, args)
                cx.no_abort()
        cx.E.aborts = []
    g.case("B02", "qrDecomposition", "(%s* t, il::int_t nt, %s* a, il::int_t a0, il::int_t a1, il::int_t sa)" % (T_, T_),
           "il::qrDecomposition(il::io, %s, %s);" % (vview(ty, True, "t", "nt"), mview("", ty, "D", True, "a", "a0", "a1", "sa")), qr)
    return g


def info_terms(st):
    """info values returned by LAPACK summaries in this state"""
    out = []
    for p, eq in st.cons:
        for m in p.t:
            for t in m:
                if T.info[t][0] == "info" and t not in out:
                    out.append(t)
    return out



# ------------------------------------------------------------------ owning matrices
class Sh:
    """what NDArr needs to know about a matrix class"""
    def __init__(s, T_, order):
        s.cls = "il::Array2D" if order == "F" else "il::Array2C"
        s.T, s.d, s.order, s.probe = T_, 2, order, False
        s.full = s.C = "%s<%s>" % (s.cls, T_)

    def lin(s, i, c):
        return i[1] * c[0] + i[0] if s.order == "F" else i[0] * c[1] + i[1]


VARIANT = ["heap", False]


def both_storages(fn):
    """the case for matrices with and without alignment (padded leading dimension)"""
    def run(cx):
        VARIANT[:] = ["heap", False]
        fn(cx)
        if VARIANT[1]:
            cx.E.aborts = []
            VARIANT[0] = "aligned"
            try:
                fn(cx)
            finally:
                VARIANT[0] = "heap"
    return run


def omat(cx, st, order, tag, ro=False, square=False):
    """non-empty owned matrix of doubles: (address, extents, operand)"""
    a = NDArr(cx, Sh("double", order), tag)
    a.square = square
    p = a.make(st, VARIANT[0], ro)
    VARIANT[1] = True
    for k in range(2):
        st.add(a.n[k] - 1)
        st.add(C(LIM) - a.c[k])
    q = Ptr(a.data, ZERO)
    m = Mat(q, a.n[0], a.n[1], ONE, a.c[0]) if order == "F" else Mat(q, a.n[0], a.n[1], a.c[1], ONE)
    return p, a, m


def oarr(cx, st, tag, T_="double", n=None, ro=False):
    a = Arr(cx, "il::Array", T_, tag)
    if T_ == "int":
        d, sz, cp = cx.lay.get(a.full, "data_", "size_", "capacity_")
        al = cx.lay.get(a.full, "alignment_", "align_r_", "align_mod_", "shift_")
        a.obj = cx.obj(st, 32, tag)
        a.n = a.c = n
        a.data = cx.block(st, n, tag, False, esz=4, name="data_" + tag)
        for o, v in ((d, ZERO), (sz, n * 4), (cp, n * 4)):
            cx.put(st, a.obj, o, 8, Ptr(a.data, v))
        for o in al:
            cx.put(st, a.obj, o, 2, ZERO)
        p = Ptr(a.obj, ZERO)
    else:
        p = a.make(st, "heap", ro)
        st.add(C(LIM) - a.c)
        if n is not None:
            st.add(a.n - n, True)
    if ro:
        st.wobj(a.obj).ro = True
        st.wobj(a.data).ro = True
    return p, a



# ------------------------------------------------------------------ contents handed to the routines
def const_term(tag):
    return lambda i, j: Term("init", tag, i, j)


def vec_term(tag):
    return lambda i, j: Term("init", tag, i)


def written(E, st, m, tag, es):
    """the routine leaves tag(i, j) in the operand"""
    if not isinstance(m.p, Ptr) or m.p.o not in st.objs:
        return st
    st = st.fork()
    o = st.wobj(m.p.o)
    E.flush(o)
    if m.m.const() is not None and m.n.const() is not None and m.m.const() * m.n.const() <= 16:
        for i in range(m.m.const()):
            for j in range(m.n.const()):
                o.log = Node(o.log, Ev("w", m.p.off + (m.rs * i + m.cs * j) * es, es, Term("init", tag, C(i), C(j))))
        return st
    i, j = T.new("j", "q"), T.new("j", "q")
    o.log = Node(o.log, Ev("w", m.p.off + (S(i) * m.rs + S(j) * m.cs) * es, es, Term("init", tag, S(i), S(j)), [i, j],
                           [(S(i), False), (m.m - 1 - S(i), False), (S(j), False), (m.n - 1 - S(j), False)]))
    return st


def holds(cx, st, m, exp, es, what):
    """every element of the operand has the expected value"""
    if cx.E.quiet or exp is None or not isinstance(m.p, Ptr):
        return
    if m.m.const() is not None and m.n.const() is not None and m.m.const() * m.n.const() <= 16:
        keep = cx.E.curins
        for i in range(m.m.const()):
            for j in range(m.n.const()):
                cx.expect_elem(st.fork(), Ptr(m.p.o, m.p.off + (C(i) * m.rs + C(j) * m.cs) * es), False, exp(C(i), C(j)), "post", what, es)
        cx.E.curins = keep
        return
    w = st.fork()
    dims = []
    for d, nm in ((m.m, "ei"), (m.n, "ej")):
        if d.const() == 1:
            dims.append(ZERO)
            continue
        v = fresh(nm)
        if not (w.assume(v) and w.assume(d - 1 - v)):
            return
        dims.append(v)
    i, j = dims
    keep = cx.E.curins
    cx.expect_elem(w, Ptr(m.p.o, m.p.off + (i * m.rs + j * m.cs) * es), False, exp(i, j), "post", what, es)
    cx.E.curins = keep


def observe(cx, name, pre, post):
    """install a summary that first compares what the operands hold (pre: position in the recorded call -> contents) and then fills the results (post)"""
    base = next(f for r, f in PATS if r.match(name))

    def f(E, st, nm, args):
        out = []
        for x, r in base(E, st, nm, args):
            if not E.quiet and x.trace and x.trace[-1][0] == nm[1:]:
                call = x.trace[-1]
                for k, (exp, es, what) in pre.items():
                    m = call[k]
                    if m.m is None:
                        m = Mat(m.p, minp(E, x, args[1], args[2]), ONE, ONE, ONE)
                    holds(cx, st, m, exp, es, "%s handed to %s" % (what, nm[1:]))
                x = x.fork()
                for k, (tag, es) in post.items():
                    m = call[k]
                    if m.m is None:
                        m = Mat(m.p, minp(E, x, args[1], args[2]), ONE, ONE, ONE)
                    x = written(E, x, m, tag, es)
            out.append((x, r))
        return out
    cx.E.model_pats = [(re.compile("^%s$" % name), f)] + list(cx.E.model_pats)


def undecided(cx, msg):
    cx.E.obl += 1
    cx.E.reports.append(Report("post", "undecided", ("case", 0), msg, None, cx.case.name))


def status_ok(cx, x, r):
    """a failure of the routine is told from success; -> the states of success"""
    ts = info_terms(x)
    pos = x.fork()
    for t in ts:
        y = x.fork()
        if y.assume(S(t) - 1):
            cx.expect_val(y, r, ZERO, "post", "a failed factorisation is reported as success")
        if not pos.assume(S(t), True):
            return []
    cx.expect_val(pos, r, ONE, "post", "success is reported as an error")
    return [pos]


def calls(cx, w, names, what):
    got = [t[0] for t in w.trace]
    if got != names:
        undecided(cx, "%s: carried out by %s instead of %s; equivalence not decided" % (what, got, names))
        return False
    return True


def ext(cx, w, v, e, what):
    cx.expect_val(w, v, e, "post", what)


def result1(cx, w, res, n, exp, what):
    """the returned array (il::Array at res) has n elements exp(i)"""
    cx.E.curins = None
    d, sz = cx.lay.get("il::Array<double>", "data_", "size_")
    for y, p in cx.E.load(w, Ptr(res, C(d)), 8, IR.PTR, "result"):
        for z, q in cx.E.load(y, Ptr(res, C(sz)), 8, IR.PTR, "result"):
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o):
                undecided(cx, what + ": storage of the result")
                continue
            ext(cx, z, q.off - p.off, n * 8, what + ": size of the result (in bytes)")
            holds(cx, z, Mat(p, n, ONE, ONE, ONE), exp, 8, what + ": element of the result")


def result2(cx, w, res, n0, n1, exp, what):
    cx.E.curins = None
    L = "il::Array2D<double>"
    d, sz, cp = cx.lay.get(L, "data_", "size_", "capacity_")
    for y, p in cx.E.load(w, Ptr(res, C(d)), 8, IR.PTR, "result"):
        for y0, q0 in cx.E.load(y, Ptr(res, C(sz)), 8, IR.PTR, "result"):
            for y1, q1 in cx.E.load(y0, Ptr(res, C(sz + 8)), 8, IR.PTR, "result"):
                for z, c in cx.E.load(y1, Ptr(res, C(cp)), 8, IR.PTR, "result"):
                    if not all(isinstance(v, Ptr) and v.o == p.o for v in (p, q0, q1, c)):
                        undecided(cx, what + ": storage of the result")
                        continue
                    ext(cx, z, q0.off - p.off, n0 * 8, what + ": rows of the result (in bytes)")
                    ext(cx, z, q1.off - p.off, n1 * 8, what + ": columns of the result (in bytes)")
                    ld = c.off - p.off
                    i, j = fresh("ei"), fresh("ej")
                    w2 = z.fork()
                    if all([w2.assume(i), w2.assume(n0 - 1 - i), w2.assume(j), w2.assume(n1 - 1 - j)]):
                        cx.expect_elem(w2, Ptr(p.o, p.off + i * 8 + j * ld), False, exp(i, j), "post", what + ": element of the result")


def refused(cx, st, args, what, ok=None):
    """no normal return with success"""
    q = cx.E.reports
    cx.E.reports = []
    rs = cx.run(st, args)
    cx.E.reports = q
    cx.states += 1
    for x, r in rs:
        for w in (status_ok(cx, x, r) if ok else [x]):
            cx.fail(w, "unchecked", what)
    cx.E.aborts = []


RAW = ("il::Array2D<double>* p = nullptr; il::Array2C<double>* q = nullptr; il::Array<double>* r = nullptr; il::Array<std::complex<double>>* c = nullptr; (void)p; (void)q; (void)r; (void)c;"
       " static_assert(sizeof(il::Array2D<double>) + sizeof(il::Array2C<double>) + sizeof(il::Array<double>) + sizeof(il::Array<std::complex<double>>) > 0, \"\");")


def run_ok(cx, st, args, handle):
    for x, r in cx.run(st, args):
        cx.states += 1
        for w in status_ok(cx, x, r):
            handle(w)
    cx.no_abort()
    cx.E.aborts = []


def g_linear():
    g = Group("linsolve", PRE_S)
    g.life = "B02"
    g.helper("raw", "void", "()", RAW)

    def lin(order):
        def run(cx):
            install(cx)
            observe(cx, "@LAPACKE_dgesv", {2: (const_term("A"), 8, "element of the matrix"), 3: (vec_term("y"), 8, "element of the right-hand side")}, {3: ("X", 8)})
            for bad in (None, (0, 1), (1, 0), "y>", "y<"):
                st = cx.st()
                pa, a, A = omat(cx, st, order, "A", square=not isinstance(bad, tuple))
                py, y = oarr(cx, st, "y")
                st.add(y.n - 1)
                res = cx.obj(st, 32, "res")
                args = [Ptr(res, ZERO), pa, py]
                if isinstance(bad, tuple):
                    st.add(a.n[bad[0]] - a.n[bad[1]] - 1)
                    st.add(a.n[0] - y.n, True)
                    refused(cx, st, args, "il::linearSolve accepts a matrix that is not square", True)
                    continue
                if bad:
                    st.add((y.n - a.n[0] if bad == "y>" else a.n[0] - y.n) - 1)
                    refused(cx, st, args, "il::linearSolve accepts a right-hand side of another size", True)
                    continue
                st.assume(a.n[0] - y.n, True)

                def handle(w):
                    if not calls(cx, w, ["LAPACKE_dgesv"], "il::linearSolve"):
                        return
                    _, _, M, B = w.trace[0]
                    ext(cx, w, M.m, a.n[0], "order of the system")
                    ext(cx, w, B.n, ONE, "number of right-hand sides")
                    result1(cx, w, res, a.n[0], lambda i, j: Term("init", "X", i, ZERO), "il::linearSolve")
                run_ok(cx, st, args, handle)
        return run
    sig = "(il::Array<double>* res, %s* a, il::Array<double>* y)"
    body = "il::Status st{}; new (res) il::Array<double>(il::linearSolve(std::move(*a), std::move(*y), il::io, st)); return st.Ok() ? 1 : 0;"
    g.case("B02", "linearSolve_D", sig % "il::Array2D<double>", body, lin("F"), "long")
    g.case("B02", "linearSolve_C", sig % "il::Array2C<double>", body, lin("C"), "long")

    # tri-diagonal systems
    def tri(cx):
        install(cx)
        for n in (1, 2, 3, None):
            if n is not None:
                cx.E.unroll_all = 40
                cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")
            else:
                cx.E.unroll_all = 0
            st = cx.st()
            v = cx.block(st, C(64), "v", False, kind="param", name="v")
            py, y = oarr(cx, st, "y")
            st.add(y.n - 1)
            res = cx.obj(st, 32, "res")
            if n is None:
                m = size(st, "n", 1)
                for d in (1, -1):
                    z = st.fork()
                    z.add((m - y.n) * d - 1)
                    refused(cx, z, [Ptr(res, ZERO), m, Ptr(v, ZERO), py, ZERO], "il::linearSolve accepts a right-hand side of another size", True)
                continue
            st.assume(y.n - n, True)
            dia = lambda k, o: (lambda i, j: Term("init", "v", (i + o) * 3 + k))
            saved = cx.E.model_pats
            observe(cx, "@LAPACKE_dgtsv", {2: (dia(0, 1), 8, "sub-diagonal"), 3: (dia(1, 0), 8, "diagonal"), 4: (dia(2, 0), 8, "super-diagonal"), 5: (vec_term("y"), 8, "right-hand side")}, {5: ("X", 8)})

            def handle(w):
                if not calls(cx, w, ["LAPACKE_dgtsv"], "il::linearSolve"):
                    return
                ext(cx, w, w.trace[0][3].m, C(n), "order of the system")
                ext(cx, w, w.trace[0][5].n, ONE, "number of right-hand sides")
                result1(cx, w, res, C(n), lambda i, j: Term("init", "X", i, ZERO), "il::linearSolve")
            run_ok(cx, st, [Ptr(res, ZERO), C(n), Ptr(v, ZERO), py, ONE], handle)
            cx.E.model_pats = saved
    g.case("B02", "linearSolve_tri", "(il::Array<double>* res, il::int_t n, const double* v, il::Array<double>* y, bool fill)",
           "il::TriDiagonal<double> A{n}; if (fill) for (il::int_t i = 0; i < n; ++i) { if (i > 0) A(i, -1) = v[3 * i]; A(i, 0) = v[3 * i + 1]; if (i < n - 1) A(i, 1) = v[3 * i + 2]; }"
           " il::Status st{}; new (res) il::Array<double>(il::linearSolve(std::move(A), std::move(*y), il::io, st)); return st.Ok() ? 1 : 0;", tri, "long")

    # band systems
    def band(n, kl, ku):
        def run(cx):
            install(cx)
            cx.E.unroll_all = 60
            cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")
            st = cx.st()
            v = cx.block(st, C(64), "v", False, kind="param", name="v")
            py, y = oarr(cx, st, "y")
            st.add(y.n - 1)
            st.assume(y.n - n, True)
            res = cx.obj(st, 32, "res")
            base = next(f for r, f in PATS if r.match("@LAPACKE_dgbsv"))

            def gbsv(E, x, nm, args):
                out = []
                for z, r in base(E, x, nm, args):
                    if not E.quiet and z.trace and z.trace[-1][0] == "LAPACKE_dgbsv":
                        _, _, l_, u_, AB, B = z.trace[-1]
                        same_ = []
                        for got, e, what in ((AB.n, n, "order of the system"), (l_, kl, "number of sub-diagonals"), (u_, ku, "number of super-diagonals")):
                            ext(cx, z, got, C(e), what)
                            same_.append(isinstance(got, Poly) and got.const() == e)
                        if all(same_):
                            for i in range(n):
                                for j in range(max(0, i - kl), min(n, i + ku + 1)):
                                    row = kl + ku + i - j
                                    cx.expect_elem(x.fork(), Ptr(AB.p.o, AB.p.off + (AB.rs * row + AB.cs * j) * 8), False, Term("init", "v", C(8 * i + j)), "post",
                                                   "element (%d, %d) of the band matrix handed to gbsv" % (i, j))
                        holds(cx, x, B, vec_term("y"), 8, "right-hand side handed to gbsv")
                        z = written(E, z.fork(), B, "X", 8)
                    out.append((z, r))
                return out
            cx.E.model_pats = [(re.compile("^@LAPACKE_dgbsv$"), gbsv)] + list(cx.E.model_pats)

            def handle(w):
                if not calls(cx, w, ["LAPACKE_dgbsv"], "il::linearSolve"):
                    return
                ext(cx, w, w.trace[0][5].n, ONE, "number of right-hand sides")
                result1(cx, w, res, C(n), lambda i, j: Term("init", "X", i, ZERO), "il::linearSolve")
            run_ok(cx, st, [Ptr(res, ZERO), C(n), C(kl), C(ku), Ptr(v, ZERO), py], handle)
        return run
    for n, kl, ku in ((1, 0, 0), (2, 1, 1), (3, 1, 0), (3, 0, 1), (3, 1, 1), (3, 2, 1), (3, 1, 2), (4, 1, 2)):
        g.case("B02", "linearSolve_band_%d_%d_%d" % (n, kl, ku), "(il::Array<double>* res, il::int_t n, il::int_t l, il::int_t u, const double* v, il::Array<double>* y)",
               "il::BandArray2C<double> A{n, n, l, u}; for (il::int_t i = 0; i < n; ++i) for (il::int_t j = 0; j < n; ++j) if (j - i <= u && i - j <= l) A(i, j - i) = v[8 * i + j];"
               " il::Status st{}; new (res) il::Array<double>(il::linearSolve(std::move(A), std::move(*y), il::io, st)); return st.Ok() ? 1 : 0;", band(n, kl, ku), "long")

    # eigenvalues
    def eig(cx):
        install(cx)
        observe(cx, "@LAPACKE_dgehrd", {4: (const_term("A"), 8, "element of the matrix")}, {4: ("H", 8)})
        observe(cx, "@LAPACKE_dhseqr", {6: (const_term("H"), 8, "element of the Hessenberg form")}, {7: ("wr", 8), 8: ("wi", 8)})
        for bad in (None, (0, 1), (1, 0)):
            st = cx.st()
            pa, a, A = omat(cx, st, "F", "A", square=not bad)
            res = cx.obj(st, 32, "res")
            if bad:
                st.add(a.n[bad[0]] - a.n[bad[1]] - 1)
                refused(cx, st, [Ptr(res, ZERO), pa], "il::Eigen accepts a matrix that is not square", True)
                continue

            def handle(w):
                if not calls(cx, w, ["LAPACKE_dgehrd", "LAPACKE_dhseqr"], "il::Eigen"):
                    return
                _, _, ilo, ihi, M, tau = w.trace[0]
                for lo, hi in ((ilo, ihi), w.trace[1][4:6]):
                    ext(cx, w, lo, ONE, "first row of the active block")
                    ext(cx, w, hi, a.n[0], "last row of the active block")
                ext(cx, w, M.m, a.n[0], "order of the matrix")
                if w.trace[1][2] != "E":
                    undecided(cx, "hseqr computes the Schur form")
                cx.E.curins = None
                d, sz = cx.lay.get("il::Array<std::complex<double>>", "data_", "size_")
                for y, p in cx.E.load(w, Ptr(res, C(d)), 8, IR.PTR, "result"):
                    for z, q in cx.E.load(y, Ptr(res, C(sz)), 8, IR.PTR, "result"):
                        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o == q.o):
                            undecided(cx, "storage of the eigenvalues")
                            continue
                        ext(cx, z, q.off - p.off, a.n[0] * 16, "number of eigenvalues (in bytes)")
                        for k, tag in ((0, "wr"), (8, "wi")):
                            i = fresh("ei")
                            w2 = z.fork()
                            if w2.assume(i) and w2.assume(a.n[0] - 1 - i):
                                cx.expect_elem(w2, Ptr(p.o, p.off + i * 16 + k), False, Term("init", tag, i, ZERO), "post", "%s part of an eigenvalue" % ("imaginary" if k else "real"))
            run_ok(cx, st, [Ptr(res, ZERO), pa], handle)
    g.case("B02", "eigen", "(il::Array<std::complex<double>>* res, il::Array2D<double>* a)",
           "il::Status st{}; il::Eigen<il::Array2D<double>> e{std::move(*a), il::io, st}; if (!st.Ok()) return 0; new (res) il::Array<std::complex<double>>(e.eigenValue()); return 1;", eig, "long")
    return g


def g_lu():
    g = Group("lu", PRE_S)
    g.life = "B02"
    g.helper("raw", "void", "()", RAW)
    PA, PL, PP = (const_term("A"), 8, "element of the matrix"), (const_term("LU"), 8, "element of the factor"), (lambda i, j: Term("init", "piv", i, ZERO), 4, "pivot")
    LU = "il::Status st{}; il::LU<il::Array2D<double>> lu{std::move(*a), il::io, st}; if (!st.Ok()) return 0; "
    sig = "(il::Array2D<double>* a, void* res%s)"

    def inst(cx, order="F"):
        install(cx)
        observe(cx, "@LAPACKE_dgetrf", {2: PA}, {2: ("LU", 8), 3: ("piv", 4)})
        observe(cx, "@LAPACKE_dgetrs", {3: PL, 4: PP}, {5: ("X", 8)})
        observe(cx, "@LAPACKE_dgetri", {2: PL, 3: PP}, {2: ("X", 8)})
        observe(cx, "@LAPACKE_dgecon", {3: PL}, {})

    def run_lu(extra, rect=False):
        """extra(cx, st, a) -> (arguments, conditions, handler)"""
        def run(cx):
            for d in () if rect else (0, 1):
                inst(cx)
                st = cx.st()
                pa, a, A = omat(cx, st, "F", "A")
                st.add(a.n[d] - a.n[1 - d] - 1)
                res = cx.obj(st, 64, "res")
                args, conds, h = extra(cx, st, a)
                if all([st.assume(q, True) for q in conds]):
                    refused(cx, st, [pa, Ptr(res, ZERO)] + args, "a matrix that is not square is accepted", True)
            for bad in (1, -1, 0):
                inst(cx)
                st = cx.st()
                pa, a, A = omat(cx, st, "F", "A", square=not rect)
                res = cx.obj(st, 64, "res")
                args, conds, h = extra(cx, st, a)
                if bad:
                    for q in conds:
                        z = st.fork()
                        if z.assume(q * bad - 1):
                            refused(cx, z, [pa, Ptr(res, ZERO)] + args, "operands whose sizes do not agree are accepted", True)
                    continue
                if not all([st.assume(q, True) for q in conds]):
                    continue

                def handle(w):
                    if w.trace and w.trace[0][0] == "LAPACKE_dgetrf":
                        ext(cx, w, w.trace[0][2].m, a.n[0], "number of rows of the factorised matrix")
                        ext(cx, w, w.trace[0][2].n, a.n[1], "number of columns of the factorised matrix")
                    h(w, a, res)
                run_ok(cx, st, [pa, Ptr(res, ZERO)] + args, handle)
        return run

    def ctor(cx, st, a):
        return [], [], lambda w, a, res: calls(cx, w, ["LAPACKE_dgetrf"], "LU")
    g.case("B02", "lu_ctor", sig % "", LU + "(void)res; return 1;", run_lu(ctor, True), "long")

    def trs(cx, w, n, what):
        if not calls(cx, w, ["LAPACKE_dgetrf", "LAPACKE_dgetrs"], what):
            return None
        _, _, tr, A2, P2, B2 = w.trace[1]
        if tr != "N":
            cx.fail(w, "post", what + " solves the transposed system")
        ext(cx, w, A2.m, n, "order of the system")
        return B2

    def solve1(cx, st, a):
        py, y = oarr(cx, st, "y")
        st.add(y.n - 1)

        def h(w, a, res):
            B2 = trs(cx, w, a.n[0], "LU::solve")
            if B2 is not None:
                ext(cx, w, B2.n, ONE, "number of right-hand sides")
                result1(cx, w, res, a.n[0], lambda i, j: Term("init", "X", i, ZERO), "LU::solve")
        observe(cx, "@LAPACKE_dgetrs", {3: PL, 4: PP, 5: (vec_term("y"), 8, "right-hand side")}, {5: ("X", 8)})
        return [py], [a.n[0] - y.n], h
    g.case("B02", "lu_solve", sig % ", il::Array<double>* y", LU + "new (res) il::Array<double>(lu.solve(std::move(*y))); return 1;", run_lu(solve1), "long")

    def solve2(cx, st, a):
        py, y, Y = omat(cx, st, "F", "Y")

        def h(w, a, res):
            B2 = trs(cx, w, a.n[0], "LU::solve")
            if B2 is not None:
                ext(cx, w, B2.n, y.n[1], "number of right-hand sides")
                result2(cx, w, res, a.n[0], y.n[1], const_term("X"), "LU::solve")
        observe(cx, "@LAPACKE_dgetrs", {3: PL, 4: PP, 5: (const_term("Y"), 8, "right-hand side")}, {5: ("X", 8)})
        return [py], [a.n[0] - y.n[0]], h
    g.case("B02", "lu_solve2", sig % ", il::Array2D<double>* y", LU + "new (res) il::Array2D<double>(lu.solve(std::move(*y))); return 1;", run_lu(solve2), "long")

    def inv(cx, st, a):
        def h(w, a, res):
            if calls(cx, w, ["LAPACKE_dgetrf", "LAPACKE_dgetri"], "LU::inverse"):
                ext(cx, w, w.trace[1][2].m, a.n[0], "order of the matrix")
                result2(cx, w, res, a.n[0], a.n[0], const_term("X"), "LU::inverse")
        return [], [], h
    g.case("B02", "lu_inverse", sig % "", LU + "new (res) il::Array2D<double>(lu.inverse()); return 1;", run_lu(inv), "long")

    def cond(norm):
        def ex(cx, st, a):
            nrm = Term("init", "anorm")

            def h(w, a, res):
                if not calls(cx, w, ["LAPACKE_dgetrf", "LAPACKE_dgecon"], "LU::conditionNumber"):
                    return
                _, _, nm, A2, an = w.trace[1]
                if nm != norm:
                    cx.fail(w, "post", "LU::conditionNumber uses the norm %s, %s is asked for" % (nm, norm))
                ext(cx, w, A2.m, a.n[0], "order of the matrix")
                cx.expect_val(w, an, nrm, "post", "norm of the matrix")
                for y, v in cx.E.load(w, Ptr(res, ZERO), 8, IR.DOUBLE, "result"):
                    cx.expect_val(y, v, Term("fop", "fdiv", Term("const", "1.0"), Term("init", "rcond", ZERO, ZERO)), "post", "condition number")
            observe(cx, "@LAPACKE_dgecon", {3: PL}, {})
            base = cx.E.model_pats[0][1]

            def gecon(E, x, nm, ar):
                out = []
                for y, r in base(E, x, nm, ar):
                    out.append((written(E, y, vecn(ar[6], ONE), "rcond", 8), r))
                return out
            cx.E.model_pats = [(re.compile("^@LAPACKE_dgecon$"), gecon)] + list(cx.E.model_pats)
            return [nrm], [], h
        return ex
    for nm, c in (("L1", "1"), ("Linf", "I")):
        g.case("B02", "lu_cond_" + nm, sig % ", double norm", LU + "*static_cast<double*>(res) = lu.conditionNumber(il::Norm::%s, norm); return 1;" % nm, run_lu(cond(c)), "long")

    def l2(cx):
        inst(cx)
        st = cx.st()
        pa, a, A = omat(cx, st, "F", "A", square=True)
        res = cx.obj(st, 64, "res")
        refused(cx, st, [pa, Ptr(res, ZERO), Term("init", "anorm")], "LU::conditionNumber accepts a norm it does not implement", True)
    g.case("B02", "lu_cond_L2", sig % ", double norm", LU + "*static_cast<double*>(res) = lu.conditionNumber(il::Norm::L2, norm); return 1;", l2, "long")

    # determinant: product of the diagonal of the factor, one change of sign per row exchange
    def det(n):
        def run(cx):
            st = cx.st()
            inst(cx)
            cx.E.unroll_all = 40
            cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")
            pa, a, A = omat(cx, st, "F", "A", square=True)
            st.add(a.n[0] - n, True)
            res, mem = cx.obj(st, 64, "res"), cx.obj(st, 256, "mem")

            def handle(w):
                if not calls(cx, w, ["LAPACKE_dgetrf"], "LU::determinant"):
                    return
                f = w.trace[0]
                for y, v in cx.E.load(w, Ptr(res, ZERO), 8, IR.DOUBLE, "result"):
                    for z, exp in detspec(cx, y, f[2], f[3], n):
                        q = ring_eq(cx.E, z, v, exp)
                        if q is None:
                            undecided(cx, "value of the determinant: %s" % (v,))
                        elif not q:
                            cx.fail(z, "post", "the determinant of a %dx%d matrix is %s, expected %s" % (n, n, v, exp))
                        else:
                            cx.E.obl += 1
                            cx.E.proved += 1
            run_ok(cx, st, [pa, Ptr(res, ZERO), Ptr(mem, ZERO)], handle)
        return run

    def detspec(cx, st, A, P, n):
        prod = Term("const", "1.0")
        for k in range(n):
            prod = Term("fop", "fmul", prod, Term("init", "LU", C(k), C(k)))
        cur = [(st.fork(), 0)]
        for k in range(n):
            nxt = []
            for x, s_ in cur:
                for y, v in cx.E.load(x, Ptr(P.p.o, P.p.off + 4 * k), 4, I32, "pivot"):
                    if not isinstance(v, Poly):
                        undecided(cx, "pivot %s" % (v,))
                        continue
                    # pivot k is one of the rows k+1 .. n
                    y = y.fork()
                    if not (y.assume(v - (k + 1)) and y.assume(C(n) - v)):
                        continue
                    z = y.fork()
                    if z.assume(v - (k + 1), True):
                        nxt.append((z, s_))
                    z = y.fork()
                    if z.assume(v - (k + 2)):
                        nxt.append((z, s_ ^ 1))
            cur = nxt
        for x, s_ in cur:
            yield x, (Term("fop", "fneg", prod) if s_ else prod)
    for n in (1, 2, 3):
        g.case("B02", "lu_det%d" % n, sig % ", void* m", "il::Status st{}; auto lu = new (m) il::LU<il::Array2D<double>>{std::move(*a), il::io, st}; if (!st.Ok()) return 0;"
               " *static_cast<double*>(res) = lu->determinant(); return 1;", det(n), "long")

    # access to the factors
    def elem(which):
        def run(cx):
            st = cx.st()
            inst(cx)
            pa, a, A = omat(cx, st, "F", "A")
            res, mem = cx.obj(st, 64, "res"), cx.obj(st, 256, "mem")
            i, j = fresh("i"), fresh("j")

            def handle(w):
                for q, what in ((i, "negative row"), (a.n[0] - 1 - i, "row"), (j, "negative column"), (a.n[1] - 1 - j, "column"), (i - j - 1 if which == "L" else j - i, "element outside the triangle")):
                    cx.expect(w, q, "unchecked", "LU::%s accepts an index out of range (%s)" % (which, what))
                    w.add(q)
                for y, v in cx.E.load(w, Ptr(res, ZERO), 8, IR.DOUBLE, "result"):
                    cx.expect_val(y, v, Term("init", "LU", i, j), "post", "element of the factor")
            for x, r in cx.run(st, [pa, Ptr(res, ZERO), Ptr(mem, ZERO), i, j]):
                cx.states += 1
                for w in status_ok(cx, x, r):
                    handle(w)
            cx.E.aborts = []
            for q in (i, a.n[0] - 1 - i, j, a.n[1] - 1 - j, i - j - 1 if which == "L" else j - i):
                st.add(q)
            cx.run(st, [pa, Ptr(res, ZERO), Ptr(mem, ZERO), i, j])
            cx.no_abort()
            cx.E.aborts = []
        return run
    for w_ in "LU":
        g.case("B02", "lu_elem_" + w_, sig % ", void* m, il::int_t i, il::int_t j", "il::Status st{}; auto lu = new (m) il::LU<il::Array2D<double>>{std::move(*a), il::io, st}; if (!st.Ok()) return 0;"
               " *static_cast<double*>(res) = lu->%s(i, j); return 1;" % w_, elem(w_), "long")

    # matrices of fixed size
    def slu(cx):
        inst(cx)
        at = lambda tag: (lambda i, j: Term("init", tag, i + j * 3))
        observe(cx, "@LAPACKE_dgetrf", {2: (at("a"), 8, "element of the matrix")}, {2: ("LU", 8), 3: ("piv", 4)})
        st = cx.st()
        L = "il::StaticArray2D<double, 3, 3>"
        (d,) = cx.lay.get(L, "data_")
        a = cx.obj(st, cx.lay.size(L), "a")
        o = st.wobj(a)
        j = T.new("j", "q")
        o.log = Node(None, Ev("w", S(j) * 8 + d, 8, Term("init", "a", S(j)), [j], [(S(j), False), (C(8) - S(j), False)]))
        o.ro = True
        res = cx.obj(st, cx.lay.size(L), "res")

        def handle(w):
            if calls(cx, w, ["LAPACKE_dgetrf", "LAPACKE_dgetri"], "LU::inverse"):
                ext(cx, w, w.trace[0][2].m, C(3), "order of the matrix")
                ext(cx, w, w.trace[1][2].m, C(3), "order of the matrix")
                for j in range(3):
                    for i in range(3):
                        cx.expect_elem(w, Ptr(res, C(d + 8 * (i + 3 * j))), False, Term("init", "X", C(i), C(j)), "post", "element of the inverse")
        run_ok(cx, st, [Ptr(a, ZERO), Ptr(res, ZERO)], handle)
    g.case("B02", "lu_static", "(const il::StaticArray2D<double, 3, 3>* a, void* res)",
           "il::Status st{}; il::LU<il::StaticArray2D<double, 3, 3>> lu{*a, il::io, st}; if (!st.Ok()) return 0; new (res) il::StaticArray2D<double, 3, 3>(lu.inverse()); return 1;", slu, "long")
    return g


def groups():
    gs = [g_solve("d"), g_solve("z"), g_linear(), g_lu()]
    for g in gs:
        for c in g.cases:
            c.run = both_storages(c.run)
    return gs
