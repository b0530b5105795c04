"""Static arrays and stand-alone views (il::ArrayView/Edit, Array2DView/Edit, Array2CView/Edit, Array3DView/Edit)."""
import itertools
from array1d import *

PRE_F = '''
#include <il/StaticArray.h>
#include <il/StaticArray2D.h>
#include <il/StaticArray2C.h>
#include <il/StaticArray3D.h>
#include <il/StaticArray4D.h>
#include <il/Array2DView.h>
#include <il/Array2CView.h>
#include <il/container/3d/Array3DView.h>
#include <new>
#include <utility>
''' + PROBE


class StaticSuite:
    def __init__(s, gname, cls, T, ext, order, feats):
        s.T, s.ext, s.order, s.probe = T, ext, order, T == "Probe"
        s.d = D = len(ext)
        s.C = C_ = "%s<%s, %s>" % (cls, T, ", ".join(map(str, ext)))
        s.g = g = Group(gname, PRE_F, [])
        g.life = "L01" if D == 1 else "L02"
        s.feats = feats
        tot = 1
        for e in ext:
            tot *= e
        s.tot = tot
        s.isig = ", ".join("il::int_t i%d" % k for k in range(D))
        s.iarg = ", ".join("i%d" % k for k in range(D))
        s.br = ("[%s]" if D == 1 else "(%s)") % s.iarg
        g.helper("raw", "void", "()", "static_assert(sizeof(%s) > 0, \"\"); %s* p = nullptr; (void)p;" % (C_, C_))
        s.build()

    def lin(s, i):
        r = ZERO
        for k in (range(s.d - 1, -1, -1) if s.order == "F" else range(s.d)):
            r = r * s.ext[k] + i[k]
        return r

    def make(s, cx, st, tag, ro=False):
        sz = cx.lay.size(s.C)
        (dd,) = cx.lay.get(s.C, "data_")
        A = cx.obj(st, sz, tag, s.probe)
        o = st.wobj(A)
        if s.tot:
            j = T_new_j()
            o.log = Node(None, Ev("ctor" if s.probe else "w", S(j) * 8 + dd, 8, Term("init", tag, S(j)), [j], [(S(j), False), (C(s.tot - 1) - S(j), False)]))
        if s.d > 1:
            for k, off in enumerate(cx.lay.get(s.C, *["size_%d_" % k for k in range(s.d)])):
                cx.put(st, A, off, 8, C(s.ext[k]))
        if ro:
            o.ro = True
        return Ptr(A, ZERO), dd

    def content(s, cx, st, A, exp, what):
        """every element of the object at A is exp(linear index)"""
        (dd,) = cx.lay.get(s.C, "data_")
        cx.states += 1
        i = [fresh("e%d" % k) for k in range(s.d)]
        w = st.fork()
        if all([w.assume(i[k]) and w.assume(C(s.ext[k] - 1) - i[k]) for k in range(s.d)]):
            cx.expect_elem(w, Ptr(A.o, A.off + dd + s.lin(i) * 8), s.probe, exp(i) if exp else None, "post", what)

    def build(s):
        g, C_, T, D, pr, F = s.g, s.C, s.T, s.d, s.probe, s.feats
        case = g.case
        pctor, pacc, pview = ("A02", "A01", "V01") if D == 1 else ("A06", "M01", "V02")
        pcopy = "C01" if D == 1 else "C03"

        def ctor(withx, exp):
            def run(cx):
                st = cx.st()
                A = Ptr(cx.obj(st, cx.lay.size(C_), "a", pr), ZERO)
                if pr and not s.tot:
                    return
                args = [A] + ([cx.elem(st, "x", pr)] if withx else [])
                for x, _ in cx.run(st, args):
                    s.content(cx, x, A, exp, "element of the constructed array")
                cx.no_abort()
            return run
        case(pctor, "ctor_default", "(void* p)", "new (p) %s();" % C_, ctor(False, (lambda i: Term("default")) if pr else None))
        case(pctor, "ctor_x", "(void* p, const %s& x)" % T, "new (p) %s(x);" % C_, ctor(True, lambda i: Term("init", "x")))
        if D == 1 and s.tot:
            def ilist(n):
                def run(cx):
                    st = cx.st()
                    A = Ptr(cx.obj(st, cx.lay.size(C_), "a", pr), ZERO)
                    vs = [cx.elem(st, "xyzuvw"[k], pr) for k in range(n)]
                    for x, _ in cx.run(st, [A] + vs):
                        if n != s.tot:
                            cx.fail(x, "unchecked", "a list of the wrong length is accepted")
                            continue
                        for k in range(n):
                            (dd,) = cx.lay.get(s.C, "data_")
                            cx.expect_elem(x, Ptr(A.o, A.off + dd + 8 * k), pr, Term("init", "xyzuvw"[k]), "post", "element of the brace-initialised array")
                    if n == s.tot:
                        cx.no_abort()
                return run
            for n in (s.tot, s.tot - 1, s.tot + 1):
                case(pctor, "ctor_list%d" % n, "(void* p, %s)" % ", ".join("const %s& %s" % (T, "xyzuvw"[k]) for k in range(n)), "new (p) %s(il::value, {%s});" % (C_, ", ".join("xyzuvw"[:n])), ilist(n))
        if D >= 2 and s.tot and "list" in F:
            # nested list: innermost runs along the contiguous direction
            dims = list(range(D - 1, -1, -1)) if s.order == "F" else list(range(D))
            names = ["x%d" % k for k in range(s.tot)]

            def nest(level, ctr):
                if level == D:
                    return names[next(ctr)]
                return "{%s}" % ", ".join(nest(level + 1, ctr) for _ in range(s.ext[dims[level]]))

            def lrun(cx):
                st = cx.st()
                A = Ptr(cx.obj(st, cx.lay.size(C_), "a", pr), ZERO)
                vs = [cx.elem(st, nm, pr) for nm in names]
                (dd,) = cx.lay.get(s.C, "data_")
                for x, _ in cx.run(st, [A] + vs):
                    cx.states += 1
                    for k in range(s.tot):
                        cx.expect_elem(x, Ptr(A.o, A.off + dd + 8 * k), pr, Term("init", names[k]), "post", "element of the brace-initialised array")
                cx.no_abort()
            case(pctor, "ctor_list", "(void* p, %s)" % ", ".join("const %s& %s" % (T, nm) for nm in names), "new (p) %s(il::value, %s);" % (C_, nest(0, iter(range(s.tot)))), lrun)

        if s.tot and (D == 1 or not pr):
            def copy(cx):
                st = cx.st()
                A = Ptr(cx.obj(st, cx.lay.size(C_), "a", pr), ZERO)
                b, _ = s.make(cx, st, "b", ro=True)
                for x, _ in cx.run(st, [A, b]):
                    s.content(cx, x, A, lambda i: Term("init", "b", s.lin(i)), "element of the copy")
                cx.no_abort()

            def assign(cx):
                st = cx.st()
                a, _ = s.make(cx, st, "a")
                b, _ = s.make(cx, st, "b", ro=True)
                for x, _ in cx.run(st, [a, b]):
                    s.content(cx, x, a, lambda i: Term("init", "b", s.lin(i)), "element of the assigned array")
                cx.no_abort()
            case(pcopy, "copy_ctor", "(void* p, const %s& b)" % C_, "new (p) %s(b);" % C_, copy)
            case(pcopy, "copy_assign", "(%s& a, const %s& b)" % (C_, C_), "a = b;", assign)

        def access(ro):
            def run(cx):
                st = cx.st()
                A, dd = s.make(cx, st, "a", ro)
                i = [fresh("i%d" % k) for k in range(D)]
                for x, p in cx.run(st, [A] + i):
                    cx.states += 1
                    for k in range(D):
                        cx.expect(x, i[k], "unchecked", "an out-of-range index is accepted")
                        cx.expect(x, C(s.ext[k] - 1) - i[k], "unchecked", "an out-of-range index is accepted")
                    cx.expect_elem(x, p, pr, Term("init", "a", s.lin(i)), "post", "accessed element")
                cx.E.aborts = []
                inr = st.fork()
                if all([inr.assume(i[k]) and inr.assume(C(s.ext[k] - 1) - i[k]) for k in range(D)]):
                    cx.run(inr, [A] + i)
                    cx.no_abort()
                cx.E.aborts = []
            return run
        case(pacc, "index_const", "(const %s& a, %s)" % (C_, s.isig), "return &a%s;" % s.br, access(True), ret="const %s*" % T)
        case(pacc, "index", "(%s& a, %s)" % (C_, s.isig), "return &a%s;" % s.br, access(False), ret="%s*" % T)

        def ptr(cx):
            st = cx.st()
            A, dd = s.make(cx, st, "a", True)
            for x, p in cx.run(st, [A]):
                cx.states += 1
                cx.expect_val(x, p, Ptr(A.o, A.off + dd), "post", "data pointer")
            cx.no_abort()
        case(pacc, "data", "(const %s& a)" % C_, "return a.data();", ptr, ret="const %s*" % T)
        case(pacc, "Data", "(%s& a)" % C_, "return a.Data();", ptr, ret="const %s*" % T)
        if D == 1 and s.tot:
            def last(cx):
                st = cx.st()
                A, dd = s.make(cx, st, "a", True)
                for x, p in cx.run(st, [A]):
                    cx.states += 1
                    cx.expect_elem(x, p, pr, Term("init", "a", C(s.tot - 1)), "post", "last element")
                cx.no_abort()
            case(pacc, "back", "(const %s& a)" % C_, "return &a.back();", last, ret="const %s*" % T)
            case(pacc, "Back", "(%s& a)" % C_, "return &a.Back();", last, ret="const %s*" % T)

        def size(cx):
            st = cx.st()
            A, dd = s.make(cx, st, "a", True)
            if D == 1:
                for x, n in cx.run(st, [A]):
                    cx.states += 1
                    cx.expect_val(x, n, C(s.ext[0]), "post", "size")
                cx.no_abort()
                return
            for k in range(D):
                for x, n in cx.run(st.fork(), [A, C(k)]):
                    cx.states += 1
                    cx.expect_val(x, n, C(s.ext[k]), "post", "size(%d)" % k)
            cx.no_abort()
            cx.E.aborts = []
            d = fresh("d")
            for x, n in cx.run(st, [A, d]):
                cx.expect(x, d, "unchecked", "size() accepts a dimension outside the array")
                cx.expect(x, C(D - 1) - d, "unchecked", "size() accepts a dimension outside the array")
        case(pacc, "size", "(const %s& a%s)" % (C_, "" if D == 1 else ", il::int_t d"), "return a.size(%s);" % ("" if D == 1 else "d"), size, ret="il::int_t")

        def view(rng, ro):
            def run(cx):
                st = cx.st()
                A, dd = s.make(cx, st, "a", ro)
                i = [fresh("i%d" % k) for k in range(D)]
                args = [A]
                b, e = [ZERO] * D, [C(x) for x in s.ext]
                if rng:
                    b, e = [fresh("b%d" % k) for k in range(D)], [fresh("e%d" % k) for k in range(D)]
                    for k in range(D):
                        args += [b[k], e[k]]
                args += i
                conds = []
                for k in range(D):
                    conds += [b[k], C(s.ext[k]) - e[k], i[k], e[k] - b[k] - 1 - i[k]]
                for x, p in cx.run(st, args):
                    cx.states += 1
                    for q in conds:
                        cx.expect(x, q, "unchecked", "a range or an index outside the container is accepted")
                    cx.expect_elem(x, p, pr, Term("init", "a", s.lin([b[k] + i[k] for k in range(D)])), "post", "element of the view")
                cx.E.aborts = []
                inr = st.fork()
                if all([inr.assume(q) for q in conds]):
                    cx.run(inr, args)
                    cx.no_abort()
                cx.E.aborts = []
            return run
        rs = ", ".join("il::int_t b%d, il::int_t e%d" % (k, k) for k in range(D))
        ra = ", ".join("il::Range{b%d, e%d}" % (k, k) for k in range(D))
        if "view" in F:
            case(pview, "view", "(const %s& a, %s)" % (C_, s.isig), "return &a.view()%s;" % s.br, view(False, True), ret="const %s*" % T)
            case(pview, "edit", "(%s& a, %s)" % (C_, s.isig), "return &a.Edit()%s;" % s.br, view(False, False), ret="%s*" % T)
        if "range" in F:
            case(pview, "view_range", "(const %s& a, %s, %s)" % (C_, rs, s.isig), "return &a.view(%s)%s;" % (ra, s.br), view(True, True), ret="const %s*" % T)
            case(pview, "edit_range", "(%s& a, %s, %s)" % (C_, rs, s.isig), "return &a.Edit(%s)%s;" % (ra, s.br), view(True, False), ret="%s*" % T)


class ViewSuite:
    """stand-alone views over caller memory: element i is at the documented offset, everything else aborts"""

    def __init__(s, gname, view, edit, T, d, order, feats):
        s.T, s.d, s.order, s.feats, s.probe = T, d, order, feats, T == "Probe"
        s.V, s.E = "%s<%s>" % (view, T), "%s<%s>" % (edit, T)
        s.g = g = Group(gname, PRE_F, [])
        s.prop = "V01" if d == 1 else "V02"
        D = d
        s.isig = ", ".join("il::int_t i%d" % k for k in range(D))
        s.iarg = ", ".join("i%d" % k for k in range(D))
        s.br = ("[%s]" if D == 1 else "(%s)") % s.iarg
        s.ns = {1: 0, 2: 1, 3: 2}[D]
        s.nsig = ", ".join(["il::int_t n%d" % k for k in range(D)] + ["il::int_t s%d" % k for k in range(s.ns)])
        s.narg = ", ".join(["n%d" % k for k in range(D)] + ["s%d" % k for k in range(s.ns)])
        g.helper("raw", "void", "()", "static_assert(sizeof(%s) > 0, \"\"); %s* p = nullptr; (void)p;" % (s.V, s.V))
        s.build()

    def env(s, cx, ro):
        st = cx.st()
        D = s.d
        n = [fresh("n%d" % k) for k in range(D)]
        sd = [fresh("s%d" % k) for k in range(s.ns)]
        for x in n:
            st.add(x)
        if D == 1:
            tot = n[0]
        elif D == 2:
            inner, outer = (n[0], n[1]) if s.order == "F" else (n[1], n[0])
            st.add(sd[0] - inner)
            st.add(sd[0] - 1)
            tot = sd[0] * outer
        else:
            st.add(sd[0] - n[0])
            st.add(sd[1] - n[1])
            st.add(sd[0] - 1)
            st.add(sd[1] - 1)
            tot = sd[0] * sd[1] * n[2]
        b = cx.block(st, tot, "d", s.probe, kind="param", name="buf")
        if ro:
            st.wobj(b).ro = True
        return st, n, sd, Ptr(b, ZERO)

    def lin(s, i, sd):
        if s.d == 1:
            return i[0]
        if s.d == 2:
            return i[1] * sd[0] + i[0] if s.order == "F" else i[0] * sd[0] + i[1]
        return (i[2] * sd[1] + i[1]) * sd[0] + i[0]

    def build(s):
        g, T, D, pr, F = s.g, s.T, s.d, s.probe, s.feats
        case = g.case
        V, E = s.V, s.E

        def conds(rs, i, n):
            """conditions for the element: nested ranges then index; returns (conds, absolute index)"""
            c = []
            base = [ZERO] * D
            ext = list(n)
            for b, e in rs:
                for k in range(D):
                    c += [b[k], ext[k] - e[k]]
                    base[k] = base[k] + b[k]
                    ext[k] = e[k] - b[k]
            for k in range(D):
                c += [i[k], ext[k] - 1 - i[k]]
            return c, [base[k] + i[k] for k in range(D)]

        def acc(nr, ro, bad=()):
            def run(cx):
                st, n, sd, p0 = s.env(cx, ro)
                i = [fresh("i%d" % k) for k in range(D)]
                rs = []
                args = [p0] + n + sd
                for q in range(nr):
                    b, e = [fresh("b%d" % k) for k in range(D)], [fresh("e%d" % k) for k in range(D)]
                    rs.append((b, e))
                    for k in range(D):
                        args += [b[k], e[k]]
                args += i
                cs, ab = conds(rs, i, n)
                for x, p in cx.run(st, args):
                    cx.states += 1
                    for q in cs:
                        cx.expect(x, q, "unchecked", "a range or an index outside the view is accepted")
                    cx.expect_elem(x, p, pr, Term("init", "d", s.lin(ab, sd)), "post", "element of the view")
                cx.E.aborts = []
                inr = st.fork()
                if all([inr.assume(q) for q in cs]):
                    cx.run(inr, args)
                    cx.no_abort()
                cx.E.aborts = []
            return run

        def rsig(q):
            return ", ".join("il::int_t b%d%d, il::int_t e%d%d" % (q, k, q, k) for k in range(D))

        def rarg(q):
            return ", ".join("il::Range{b%d%d, e%d%d}" % (q, k, q, k) for k in range(D))
        al = ", 0, 0" if D == 2 else ""
        ctors = [("", "")]
        if D == 2:
            ctors = [("", ""), ("_al", ", 0, 0")]
        if D == 1:
            ctors = [("", ""), ("_al", ", 32, 0")] if not pr else [("", "")]
        for sx, extra in ctors:
            case(s.prop, "view%s" % sx, "(const %s* p, %s, %s)" % (T, s.nsig, s.isig), "%s v{p, %s%s}; return &v%s;" % (V, s.narg, extra, s.br), acc(0, True), ret="const %s*" % T)
            if sx or "edit4" in F or D != 2:
                case(s.prop, "edit%s" % sx, "(%s* p, %s, %s)" % (T, s.nsig, s.isig), "%s v{p, %s%s}; return &v%s;" % (E, s.narg, extra, s.br), acc(0, False), ret="%s*" % T)
        case(s.prop, "edit_const", "(%s* p, %s, %s)" % (T, s.nsig, s.isig), "%s w{p, %s%s}; const %s& v = w; return &v%s;" % (E, s.narg, al, V, s.br), acc(0, True), ret="const %s*" % T)
        if D == 1:
            case(s.prop, "view_view", "(const %s* p, %s, %s)" % (T, s.nsig, s.isig), "%s v{p, %s}; return &v.view()%s;" % (V, s.narg, s.br), acc(0, True), ret="const %s*" % T)
            case(s.prop, "edit_edit", "(%s* p, %s, %s)" % (T, s.nsig, s.isig), "%s v{p, %s}; return &v.Edit()%s;" % (E, s.narg, s.br), acc(0, False), ret="const %s*" % T)
            case(s.prop, "edit_view", "(%s* p, %s, %s)" % (T, s.nsig, s.isig), "%s v{p, %s}; return &v.view()%s;" % (E, s.narg, s.br), acc(0, True), ret="const %s*" % T)
            case(s.prop, "edit_view_range", "(%s* p, %s, %s, %s)" % (T, s.nsig, rsig(0), s.isig), "%s v{p, %s}; return &v.view(%s)%s;" % (E, s.narg, rarg(0), s.br), acc(1, True), ret="const %s*" % T)
        if "vrange" in F:
            case(s.prop, "view_range", "(const %s* p, %s, %s, %s)" % (T, s.nsig, rsig(0), s.isig), "%s v{p, %s}; return &v.view(%s)%s;" % (V, s.narg, rarg(0), s.br), acc(1, True), ret="const %s*" % T)
            case(s.prop, "view_range2", "(const %s* p, %s, %s, %s, %s)" % (T, s.nsig, rsig(0), rsig(1), s.isig), "%s v{p, %s}; return &v.view(%s).view(%s)%s;" % (V, s.narg, rarg(0), rarg(1), s.br), acc(2, True), ret="const %s*" % T).cost = 5
        if "erange" in F:
            case(s.prop, "edit_range", "(%s* p, %s, %s, %s)" % (T, s.nsig, rsig(0), s.isig), "%s v{p, %s%s}; return &v.Edit(%s)%s;" % (E, s.narg, al, rarg(0), s.br), acc(1, False), ret="%s*" % T)
            case(s.prop, "edit_range2", "(%s* p, %s, %s, %s, %s)" % (T, s.nsig, rsig(0), rsig(1), s.isig), "%s v{p, %s%s}; return &v.Edit(%s).Edit(%s)%s;" % (E, s.narg, al, rarg(0), rarg(1), s.br), acc(2, False), ret="%s*" % T).cost = 5

        def ends(ro):
            def run(cx):
                st, n, sd, p0 = s.env(cx, ro)
                for x, p in cx.run(st, [p0] + n + sd):
                    cx.states += 1
                    cx.expect(x, n[0] - 1, "unchecked", "the last element of an empty view is accepted")
                    cx.expect_elem(x, p, pr, Term("init", "d", n[0] - 1), "post", "last element of the view")
                cx.E.aborts = []
                inr = st.fork()
                if inr.assume(n[0] - 1):
                    cx.run(inr, [p0] + n + sd)
                    cx.no_abort()
                cx.E.aborts = []
            return run
        if D == 1:
            case(s.prop, "back", "(const %s* p, %s)" % (T, s.nsig), "%s v{p, %s}; return &v.back();" % (V, s.narg), ends(True), ret="const %s*" % T)
            case(s.prop, "Back", "(%s* p, %s)" % (T, s.nsig), "%s v{p, %s}; return &v.Back();" % (E, s.narg), ends(False), ret="const %s*" % T)

        def dims(fn, vals):
            def run(cx):
                st, n, sd, p0 = s.env(cx, True)
                vs = vals(n, sd)
                for k, v in enumerate(vs):
                    for x, r in cx.run(st.fork(), [p0] + n + sd + ([C(k)] if D > 1 else [])):
                        cx.states += 1
                        cx.expect_val(x, r, v, "post", "%s(%d) of the view" % (fn, k))
                cx.no_abort()
                cx.E.aborts = []
                if D > 1:
                    d = fresh("d")
                    for x, r in cx.run(st, [p0] + n + sd + [d]):
                        cx.expect(x, d, "unchecked", "%s() accepts a dimension outside the view" % fn)
                        cx.expect(x, C(len(vs) - 1) - d, "unchecked", "%s() accepts a dimension outside the view" % fn)
                    cx.E.aborts = []
            return run
        dsig = ", il::int_t d" if D > 1 else ""
        darg = "d" if D > 1 else ""
        case(s.prop, "size", "(const %s* p, %s%s)" % (T, s.nsig, dsig), "%s v{p, %s}; return v.size(%s);" % (V, s.narg, darg), dims("size", lambda n, sd: n), ret="il::int_t")
        if D == 2:
            case(s.prop, "stride", "(const %s* p, %s, il::int_t d)" % (T, s.nsig), "%s v{p, %s}; return v.stride(d);" % (V, s.narg), dims("stride", lambda n, sd: [ONE, sd[0]] if s.order == "F" else [sd[0], ONE]), ret="il::int_t")
        if D == 3:
            case(s.prop, "stride", "(const %s* p, %s, il::int_t d)" % (T, s.nsig), "%s v{p, %s}; return v.stride(d);" % (V, s.narg), dims("stride", lambda n, sd: sd), ret="il::int_t")

        # negative extents abort
        def neg(cx):
            st = cx.st()
            n = [fresh("n%d" % k) for k in range(D)]
            sd = [fresh("s%d" % k) for k in range(s.ns)]
            b = cx.obj(st, 64, "buf")
            for x, r in cx.run(st, [Ptr(b, ZERO)] + n + sd):
                cx.states += 1
                for q in n:
                    cx.expect(x, q, "unchecked", "a view of negative extent is accepted")
        case(s.prop, "negative", "(const %s* p, %s)" % (T, s.nsig), "%s v{p, %s}; (void)v;" % (V, s.narg), neg)

        def empty(cx):
            st = cx.st()
            for x, r in cx.run(st, [C(k) for k in ([0] if D > 1 else [])]):
                cx.expect_val(x, r, ZERO, "post", "size of a default-constructed view")
            cx.no_abort()
        case(s.prop, "empty", "(%s)" % ("il::int_t d" if D > 1 else ""), "%s v{}; return v.size(%s);" % (V, darg), empty, ret="il::int_t")

        if "copy" in F:
            def copy(cx):
                st = cx.st()
                n = [fresh("n%d" % k) for k in range(D)]
                s1, s2 = fresh("s"), fresh("t")
                inner, outer = n
                for x in n:
                    st.add(x)
                for q in (s1, s2):
                    st.add(q - inner)
                    st.add(q - 1)
                a = cx.block(st, s1 * outer, "d", pr, kind="param", name="src")
                b = cx.block(st, s2 * outer, "t", pr, kind="param", name="dst")
                st.wobj(a).ro = True
                for x, _ in cx.run(st, [Ptr(a, ZERO), s1, Ptr(b, ZERO), s2] + n):
                    cx.states += 1
                    i, j = fresh("i"), fresh("j")
                    w = x.fork()
                    w.add(i)
                    w.add(j)
                    if w.assume(n[0] - 1 - i) and w.assume(n[1] - 1 - j):
                        cx.expect_elem(w, Ptr(b, (j * s2 + i) * 8), pr, Term("init", "d", j * s1 + i), "post", "copied element")
                    # padding is untouched
                    w = x.fork()
                    w.add(i - n[0])
                    w.add(j)
                    if w.assume(s2 - 1 - i) and w.assume(n[1] - 1 - j):
                        cx.expect_elem(w, Ptr(b, (j * s2 + i) * 8), pr, Term("init", "t", j * s2 + i), "post", "element outside the destination view")
                cx.no_abort()
            case(s.prop, "copy", "(const %s* p, il::int_t s, %s* q, il::int_t t, il::int_t n0, il::int_t n1)" % (T, T), "il::copy(%s{p, n0, n1, s}, il::io, %s{q, n0, n1, t, 0, 0});" % (V, E), copy)


def groups():
    out = []
    for T in ("double", "Probe"):
        t = T[0].lower()
        out.append(StaticSuite("sta_" + t, "il::StaticArray", T, [3], "F", {"view", "range"}).g)
        if T == "double":
            out.append(StaticSuite("sta0_" + t, "il::StaticArray", T, [0], "F", {"view", "range"}).g)
        out.append(StaticSuite("sta2d_" + t, "il::StaticArray2D", T, [2, 3], "F", {"list", "view"}).g)
        out.append(StaticSuite("sta2c_" + t, "il::StaticArray2C", T, [2, 3], "C", {"list"}).g)
        out.append(StaticSuite("sta3d_" + t, "il::StaticArray3D", T, [2, 3, 2], "F", {"list"}).g)
        out.append(StaticSuite("sta4d_" + t, "il::StaticArray4D", T, [2, 3, 2, 2], "F", set()).g)
        out.append(ViewSuite("v1_" + t, "il::ArrayView", "il::ArrayEdit", T, 1, "F", {"vrange", "erange"}).g)
        out.append(ViewSuite("v2d_" + t, "il::Array2DView", "il::Array2DEdit", T, 2, "F", {"vrange", "erange", "copy"}).g)
        out.append(ViewSuite("v2c_" + t, "il::Array2CView", "il::Array2CEdit", T, 2, "C", {"erange", "edit4"}).g)
        out.append(ViewSuite("v3d_" + t, "il::Array3DView", "il::Array3DEdit", T, 3, "F", set()).g)
    return out
