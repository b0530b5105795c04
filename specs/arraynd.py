"""Multi-dimensional owning containers: il::Array2D/2C/3D/4D (and 3C/4C)."""
import itertools
from array1d import *

PRE_ND = '''
#include <il/Array2D.h>
#include <il/Array2C.h>
#include <il/Array3D.h>
#include <il/Array4D.h>
#include <il/Array3C.h>
#include <il/Array4C.h>
#include <new>
#include <utility>
''' + PROBE


class NDArr:
    """abstract container state: extents n_k <= capacities c_k, elements init(tag, i0, i1, ...)"""

    def __init__(s, cx, S_, tag):
        s.cx, s.S, s.tag = cx, S_, tag

    def make(s, st, variant, ro=False):
        cx, S_ = s.cx, s.S
        cx.al, cx.ar, cx.am = ALIGN.get(variant, (0, 0, 0))
        d, sz, cp, al, ar, am, sh = cx.lay.get(S_.full, "data_", "size_", "capacity_", "alignment_", "align_r_", "align_mod_", "shift_")
        s.obj = cx.obj(st, cx.lay.size(S_.full), s.tag)
        D = S_.d
        if variant == "null":
            s.n = [ZERO] * D
            s.c = [ZERO] * D
            s.data = None
            base = Ptr(None, ZERO)
            off = ZERO
        else:
            s.n = [fresh("n%d_%s" % (k, s.tag)) for k in range(D)]
            if getattr(s, "square", False):
                s.n = [s.n[0]] * D
            s.c = [fresh("c%d_%s" % (k, s.tag)) for k in range(D)]
            for k in range(D):
                st.add(s.n[k])
                st.add(s.c[k] - s.n[k])
            tot = ONE
            for k in range(D):
                tot = tot * s.c[k]
            js = [T_new_j() for _ in range(D)]
            off = ZERO
            if variant in ALIGN:
                s.data = cx.E.new_obj(st, "heap", tot * 8 + 31, "data_" + s.tag, False)
                sv = fresh("shift_" + s.tag)
                st.add(sv)
                st.add(3 - sv)
                a = S(T.get("addr", "addr_" + s.data))
                st.add(a - 256)
                e = a * 16 + sv * 8
                st.add(e - S(T.get("div", "div", (e, 32))) * 32 - cx.ar, True)
                off = sv * 8
                # the leading capacity is a multiple of the number of lanes when the array is not empty
            else:
                s.data = cx.E.new_obj(st, "heap", tot * 8, "data_" + s.tag, S_.probe)
            o = st.wobj(s.data)
            g = []
            for k in range(D):
                g += [(S(js[k]), False), (s.n[k] - 1 - S(js[k]), False)]
            o.log = Node(None, Ev("ctor" if S_.probe else "w", off + S_.lin([S(j) for j in js], s.c) * 8, 8, Term("init", s.tag, *[S(j) for j in js]), js, g))
        for k in range(D):
            b = Ptr(s.data, off)
            cx.put(st, s.obj, sz + 8 * k, 8, Ptr(b.o, b.off + s.n[k] * 8))
            cx.put(st, s.obj, cp + 8 * k, 8, Ptr(b.o, b.off + s.c[k] * 8))
        cx.put(st, s.obj, d, 8, Ptr(s.data, off))
        for o in (al, ar, am, sh):
            cx.put(st, s.obj, o, 2, ZERO)
        if variant in ALIGN:
            cx.put(st, s.obj, al, 2, C(cx.al))
            cx.put(st, s.obj, ar, 2, C(cx.ar))
            cx.put(st, s.obj, am, 2, C(cx.am))
            cx.put(st, s.obj, sh, 2, sv)
        if ro:
            st.wobj(s.obj).ro = True
            if s.data:
                st.wobj(s.data).ro = True
        return Ptr(s.obj, ZERO)

    def old(s, *e):
        return Term("init", s.tag, *e)


class NDSuite:
    def __init__(s, gname, cls, T, d, order, feats, pre=PRE_ND):
        s.cls, s.T, s.d, s.order, s.feats = cls, T, d, order, feats
        s.full = s.C = "%s<%s>" % (cls, T)
        s.probe = T == "Probe"
        s.g = g = Group(gname, pre, [])
        g.life = "L02"
        s.variants = ["null", "heap"] + ([] if s.probe or "align" not in feats else list(ALIGN))
        s.small_variants = s.variants
        D, C_ = d, s.C
        s.isig = ", ".join("il::int_t i%d" % k for k in range(D))
        s.iarg = ", ".join("i%d" % k for k in range(D))
        s.nsig = ", ".join("il::int_t n%d" % k for k in range(D))
        s.narg = ", ".join("n%d" % k for k in range(D))
        g.helper("size", "il::int_t", "(const %s& a, il::int_t d)" % C_, "return a.size(d);")
        g.helper("cap", "il::int_t", "(const %s& a, il::int_t d)" % C_, "return a.capacity(d);")
        g.helper("data", "const %s*" % T, "(const %s& a)" % C_, "return a.data();")
        g.helper("at", "const %s*" % T, "(const %s& a, %s)" % (C_, s.isig), "return &a(%s);" % s.iarg)
        g.helper("dtor", "void", "(%s& a)" % C_, "typedef %s C; a.~C();" % C_)
        if "align" in feats:
            g.helper("alignment", "il::int_t", "(const %s& a)" % C_, "return a.alignment();")
            g.helper("grow", "void", "(%s& a)" % C_, "a.Reserve(%s);" % ", ".join("a.capacity(%d) + 1" % k for k in range(D)))
            g.also = ("A05",)
        g.helper("raw", "void", "()", "%s* p = nullptr; (void)p; static_assert(sizeof(%s) > 0, \"\");" % (C_, C_))
        s.build()

    def lin(s, i, c):
        """linear position of index i with capacities c"""
        r = ZERO
        ks = range(s.d - 1, -1, -1) if s.order == "F" else range(s.d)
        for k in ks:
            r = r * c[k] + i[k]
        return r

    def new(s, cx, tag):
        return NDArr(cx, s, tag)

    def idx(s, name="e"):
        return [fresh("%s%d" % (name, k)) for k in range(s.d)]

    def pre_states(s, cx, tag="a", ro=False, variants=None):
        for v in (variants or s.variants):
            st = cx.st()
            a = s.new(cx, tag)
            p = a.make(st, v, ro)
            yield v, st, a, p

    def blank(s, cx, st):
        return Ptr(cx.obj(st, cx.lay.size(s.full), "a"), ZERO)

    def check(s, cx, st, A, size, content, what, cap_min=None, destroy=True, owned=()):
        cx.states += 1
        n_ab = len(cx.E.aborts)
        D = s.d
        cur = [(st.fork(), [])]
        for k in range(D):
            nxt = []
            for x, cc in cur:
                for y, n in cx.call(x, "size", [A, C(k)]):
                    cx.expect_val(y, n, size[k], "post", what + ": size(%d)" % k)
                    y.add(n - size[k], True)
                    for z, c in cx.call(y, "cap", [A, C(k)]):
                        cx.expect(z, c - n, "post", what + ": capacity(%d) below size" % k)
                        if cap_min is not None:
                            cx.expect(z, c - cap_min[k], "post", what + ": capacity(%d) below the reserved amount" % k)
                        nxt.append((z, cc + [c]))
            cur = nxt
        for y, c in cur:
            for z, dd in cx.call(y, "data", [A]):
                tot = ONE
                for k in range(D):
                    tot = tot * c[k]
                if isinstance(dd, Ptr) and dd.o is None:
                    for k in range(D):
                        cx.expect(z, -c[k], "post", what + ": null storage with a positive capacity")
                elif isinstance(dd, Ptr):
                    o = z.objs.get(dd.o)
                    if o is None or not o.alive:
                        cx.fail(z, "uaf", what + ": storage was released")
                        continue
                    if o.size is not None:
                        cx.expect(z, o.size - dd.off - tot * 8, "bounds", what + ": capacity exceeds the allocated storage")
                    cx.expect(z, dd.off, "bounds", what + ": storage starts before its block")
                    aligned(cx, z, A, dd, what)
                    if s.probe:
                        # slots outside the extents hold no object
                        e = s.idx()
                        for k in range(D):
                            w = z.fork()
                            ok = True
                            for m in range(D):
                                ok = ok and w.assume(e[m]) and w.assume(c[m] - 1 - e[m])
                            ok = ok and w.assume(e[k] - size[k])
                            if ok:
                                for v, status, val in cx.elem_at(w, Ptr(dd.o, dd.off + s.lin(e, c) * 8), True):
                                    if status == "live":
                                        cx.fail(v, "life", what + ": an element outside the extents is still alive")
                for guards, fn in content:
                    e = s.idx()
                    w = z.fork()
                    ok = True
                    for k in range(D):
                        w.add(e[k])
                        ok = ok and w.assume(size[k] - 1 - e[k])
                    for p, q in guards(*e) if guards else []:
                        ok = ok and w.assume(p, q)
                    if not ok:
                        continue
                    for v, p in cx.call(w, "at", [A] + e):
                        cx.expect_elem(v, p, s.probe, fn(*e) if fn else None, "post", what + ": element")
        if destroy:
            for x, _ in cx.call(st.fork(), "dtor", [A]):
                cx.leak_check(x, owned)
        cx.no_abort()
        del cx.E.aborts[n_ab:]

    independent = ArrSuite.independent
    both = ArrSuite.both

    def moved(s, cx, st, pb):
        s.check(cx, st, pb, [ZERO] * s.d, [], "moved-from container", destroy=False)

    def build(s):
        g, C_, T, D, pr = s.g, s.C, s.T, s.d, s.probe
        case = g.case
        F = s.feats
        default = Term("default") if pr else None
        X = Term("init", "x")

        def extents(cx, st, nm="m"):
            m = [fresh("%s%d" % (nm, k)) for k in range(D)]
            for k in m:
                st.add(k)
            return m

        # ---------------- construction
        def ctor(withx, content, al=0):
            def run(cx):
                st = cx.st()
                cx.al, cx.ar, cx.am = al if isinstance(al, tuple) else (al, 0, 0)
                A = s.blank(cx, st)
                m = extents(cx, st, "n")
                args = [A] + m + ([cx.elem(st, "x", pr)] if withx else [])
                for x, _ in cx.run(st, args):
                    s.check(cx, x, A, m, content, "constructed container")
                cx.no_abort()
            return run

        def ctor0(cx):
            st = cx.st()
            A = s.blank(cx, st)
            for x, _ in cx.run(st, [A]):
                s.check(cx, x, A, [ZERO] * D, [], "default-constructed container")
            cx.no_abort()
        case("A06", "ctor_default", "(void* p)", "new (p) %s();" % C_, ctor0)
        case("A06", "ctor_n", "(void* p, %s)" % s.nsig, "new (p) %s(%s);" % (C_, s.narg), ctor(False, [(None, lambda *e: default)]))
        if "x" in F:
            case("A06", "ctor_n_x", "(void* p, %s, const %s& x)" % (s.nsig, T), "new (p) %s(%s, x);" % (C_, s.narg), ctor(True, [(None, lambda *e: X)]))
        if "emplace" in F:
            case("A06", "ctor_n_emplace", "(void* p, %s, const %s& x)" % (s.nsig, T), "new (p) %s(%s, il::emplace, x);" % (C_, s.narg), ctor(True, [(None, lambda *e: X)]))
        if "align" in F and not pr:
            case("A06", "ctor_aligned", "(void* p, %s)" % s.nsig, "new (p) %s(%s, il::align, 32);" % (C_, s.narg), ctor(False, [(None, lambda *e: None)], 32))
            case("A06", "ctor_aligned_rem", "(void* p, %s)" % s.nsig, "new (p) %s(%s, il::align, 16, 16, 32);" % (C_, s.narg), ctor(False, [(None, lambda *e: None)], (16, 16, 32)))
            if "x" in F:
                case("A06", "ctor_aligned_x_rem", "(void* p, %s, const %s& x)" % (s.nsig, T), "new (p) %s(%s, x, il::align, 16, 16, 32);" % (C_, s.narg), ctor(True, [(None, lambda *e: X)], (16, 16, 32)))
                case("A06", "ctor_aligned_x", "(void* p, %s, const %s& x)" % (s.nsig, T), "new (p) %s(%s, x, il::align, 32);" % (C_, s.narg), ctor(True, [(None, lambda *e: X)], 32))
        if "list" in F and D == 2:
            def ilist(cx):
                st = cx.st()
                A = s.blank(cx, st)
                vs = [cx.elem(st, n, pr) for n in "xyzuvw"]
                ext = [C(2), C(3)] if s.order == "F" else [C(3), C(2)]
                pos = (lambda i0, i1: 2 * i1 + i0) if s.order == "F" else (lambda i0, i1: 2 * i0 + i1)
                content = []
                for i0 in range(ext[0].const()):
                    for i1 in range(ext[1].const()):
                        content.append(((lambda a, b: lambda e0, e1: [(e0 - a, True), (e1 - b, True)])(i0, i1), (lambda q: lambda e0, e1: Term("init", "xyzuvw"[q]))(pos(i0, i1))))
                for z, _ in cx.run(st, [A] + vs):
                    s.check(cx, z, A, ext, content, "brace-initialised container")
                cx.no_abort()
            case("A06", "ctor_list", "(void* p, %s)" % ", ".join("const %s& %s" % (T, n) for n in "xyzuvw"), "new (p) %s(il::value, {{x, y}, {z, u}, {v, w}});" % C_, ilist)

        # ---------------- copies, moves, destruction
        def copy_ctor(cx):
            for v, st, b, pb in s.pre_states(cx, "b", ro=True):
                A = s.blank(cx, st)
                for x, _ in cx.run(st, [A, pb]):
                    s.check(cx, x, A, b.n, [(None, b.old)], "copy", owned=(b.data,))
                    s.check(cx, x, pb, b.n, [(None, b.old)], "source of the copy", destroy=False)
                    s.independent(cx, x, A, pb)
                cx.no_abort()
                cx.E.aborts = []
        case("C03", "copy_ctor", "(void* p, const %s& b)" % C_, "new (p) %s(b);" % C_, copy_ctor)

        def copy_assign(v1s):
            def run(cx):
                for v1 in v1s:
                    for v2 in s.variants:
                        st = cx.st()
                        a, b = s.new(cx, "a"), s.new(cx, "b")
                        pa, pb = a.make(st, v1), b.make(st, v2, ro=True)
                        for x, r in cx.run(st, [pa, pb]):
                            s.check(cx, x, pa, b.n, [(None, b.old)], "assigned container", owned=(b.data,))
                            s.check(cx, x, pb, b.n, [(None, b.old)], "source of the assignment", destroy=False)
                            s.independent(cx, x, pa, pb)
                        cx.no_abort()
                        cx.E.aborts = []
            return run
        for v1 in s.variants:
            c = case("C03", "copy_assign_" + v1, "(%s& a, const %s& b)" % (C_, C_), "a = b;", copy_assign([v1]))
            c.cost = 10 * D

        def self_(cx):
            for v, st, a, pa in s.pre_states(cx):
                for x, r in cx.run(st, [pa, pa]):
                    s.check(cx, x, pa, a.n, [(None, a.old)], "self-assigned container")
                cx.no_abort()
                cx.E.aborts = []
        case("C03", "copy_assign_self", "(%s& a, const %s& b)" % (C_, C_), "a = b;", self_)
        case("C04", "move_assign_self", "(%s& a, %s& b)" % (C_, C_), "a = std::move(b);", self_)

        def move_ctor(cx):
            for v, st, b, pb in s.pre_states(cx, "b"):
                A = s.blank(cx, st)
                for x, _ in cx.run(st, [A, pb]):
                    s.check(cx, x, A, b.n, [(None, b.old)], "move-constructed container", destroy=False)
                    s.moved(cx, x, pb)
                    s.both(cx, x, [A, pb])
                cx.no_abort()
                cx.E.aborts = []
        case("C04", "move_ctor", "(void* p, %s& b)" % C_, "new (p) %s(std::move(b));" % C_, move_ctor)

        def move_assign(cx):
            for v1 in s.variants:
                for v2 in s.variants:
                    st = cx.st()
                    a, b = s.new(cx, "a"), s.new(cx, "b")
                    pa, pb = a.make(st, v1), b.make(st, v2)
                    for x, r in cx.run(st, [pa, pb]):
                        s.check(cx, x, pa, b.n, [(None, b.old)], "move-assigned container", destroy=False)
                        s.moved(cx, x, pb)
                        s.both(cx, x, [pa, pb])
                    cx.no_abort()
                    cx.E.aborts = []
        case("C04", "move_assign", "(%s& a, %s& b)" % (C_, C_), "a = std::move(b);", move_assign)

        def dtor(cx):
            for v, st, a, pa in s.pre_states(cx):
                for x, _ in cx.run(st, [pa]):
                    cx.states += 1
                    cx.leak_check(x)
                cx.no_abort()
                cx.E.aborts = []
        case("L02", "destroy", "(%s& a)" % C_, "typedef %s C; a.~C();" % C_, dtor)

        # ---------------- access and layout
        def access(ro):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, ro=ro):
                    i = s.idx("i")
                    for x, p in cx.run(st, [pa] + i):
                        cx.states += 1
                        for k in range(D):
                            cx.expect(x, i[k], "unchecked", "an out-of-range index is accepted")
                            cx.expect(x, a.n[k] - 1 - i[k], "unchecked", "an out-of-range index is accepted")
                        cx.expect_elem(x, p, pr, a.old(*i), "post", "accessed element")
                    inr = st.fork()
                    cx.E.aborts = []
                    ok = all([inr.assume(i[k]) and inr.assume(a.n[k] - 1 - i[k]) for k in range(D)])
                    if ok:
                        cx.run(inr, [pa] + i)
                        cx.no_abort()
                    cx.E.aborts = []
            return run
        case("M01", "index_const", "(const %s& a, %s)" % (C_, s.isig), "return &a(%s);" % s.iarg, access(True), ret="const %s*" % T)
        case("M01", "index", "(%s& a, %s)" % (C_, s.isig), "return &a(%s);" % s.iarg, access(False), ret="%s*" % T)

        def layout(expr_args):
            """documented layout: data() + sum i_k * stride_k is element i"""
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, ro=True):
                    i = s.idx("i")
                    if not all([st.assume(i[k]) and st.assume(a.n[k] - 1 - i[k]) for k in range(D)]):
                        continue
                    for x, p in cx.run(st, [pa] + i):
                        cx.states += 1
                        cx.expect_elem(x, p, pr, a.old(*i), "post", "element at its documented position")
                    cx.no_abort()
                    cx.E.aborts = []
            return run
        if "stride" in F:
            ex = " + ".join("i%d * a.stride(%d)" % (k, k) for k in range(D))
            case("M01", "layout", "(const %s& a, %s)" % (C_, s.isig), "return a.data() + %s;" % ex, layout(None), ret="const %s*" % T)
            case("M01", "layout_mut", "(%s& a, %s)" % (C_, s.isig), "return a.Data() + %s;" % ex, layout(None), ret="const %s*" % T)
        else:
            dims = list(range(D)) if s.order == "F" else list(range(D - 1, -1, -1))
            ex = []
            for q, k in enumerate(dims):
                ex.append("i%d" % k + "".join(" * a.capacity(%d)" % m for m in dims[:q]))
            for nm, dn in (("layout", "data"), ("layout_mut", "Data")):
                case("M01", nm, "(%s%s& a, %s)" % ("const " if dn == "data" else "", C_, s.isig), "return a.%s() + %s;" % (dn, " + ".join(ex)), layout(None), ret="const %s*" % T)
        if "datacol" in F:
            (j, i_) = (1, 0) if s.order == "F" else (0, 1)
            for nm, dn in (("data_line", "data"), ("data_line_mut", "Data")):
                case("M01", nm, "(%s%s& a, %s)" % ("const " if dn == "data" else "", C_, s.isig), "return a.%s(i%d) + i%d;" % (dn, j, i_), layout(None), ret="const %s*" % T)

        # ---------------- resize / reserve
        def resize(withx, alias=False, vs=None):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, variants=vs):
                    m = extents(cx, st)
                    args = [pa] + m
                    xv = X
                    if withx:
                        if alias:
                            i = s.idx("i")
                            if not all([st.assume(i[k]) and st.assume(a.n[k] - 1 - i[k]) and st.assume(m[k] - 1 - i[k]) for k in range(D)]):
                                continue
                            args += i
                            xv = a.old(*i)
                        else:
                            args.append(cx.elem(st, "x", pr))
                    content = [(lambda *e: [(a.n[k] - 1 - e[k], False) for k in range(D)], a.old)]
                    for k in range(D):
                        content.append(((lambda k: lambda *e: [(e[k] - a.n[k], False)])(k), lambda *e: xv if withx else default))
                    for x, _ in cx.run(st, args):
                        s.check(cx, x, pa, m, content, "resized container")
                    cx.no_abort()
                    cx.E.aborts = []
            return run
        for v in s.variants:
            case("A06", "resize_" + v, "(%s& a, %s)" % (C_, s.nsig), "a.Resize(%s);" % s.narg, resize(False, vs=[v])).cost = 20 * D
            if "resize_x" in F:
                case("A06", "resize_x_" + v, "(%s& a, %s, const %s& x)" % (C_, s.nsig, T), "a.Resize(%s, x);" % s.narg, resize(True, vs=[v])).cost = 20 * D
                case("A06", "resize_x_alias_" + v, "(%s& a, %s, %s)" % (C_, s.nsig, s.isig), "a.Resize(%s, a(%s));" % (s.narg, s.iarg), resize(True, True, vs=[v])).cost = 20 * D
            if "resize_emplace" in F:
                case("A06", "resize_emplace_" + v, "(%s& a, %s, const %s& x)" % (C_, s.nsig, T), "a.Resize(%s, il::emplace, x);" % s.narg, resize(True, vs=[v])).cost = 20 * D

        def reserve(cx):
            for v, st, a, pa in s.pre_states(cx):
                m = extents(cx, st)
                for x, _ in cx.run(st, [pa] + m):
                    s.check(cx, x, pa, a.n, [(None, a.old)], "container after reserving", cap_min=m)
                cx.no_abort()
                cx.E.aborts = []
        case("A06", "reserve", "(%s& a, %s)" % (C_, s.nsig), "a.Reserve(%s);" % s.narg, reserve).cost = 10 * D
        if "set" in F:
            def setall(cx):
                for v, st, a, pa in s.pre_states(cx):
                    xp = cx.elem(st, "x", pr)
                    for x, _ in cx.run(st, [pa, xp]):
                        s.check(cx, x, pa, a.n, [(None, lambda *e: X)], "container after Set")
                    cx.no_abort()
                    cx.E.aborts = []
            case("A06", "set", "(%s& a, const %s& x)" % (C_, T), "a.Set(x);", setall)
        s.views()

    # ---------------- views
    def view_case(s, name, sig, body, bounds_of, ro, extra=0, mk=None):
        """bounds_of(a, args) -> (range conditions [(poly>=0)], index conditions, element index list)"""
        D, pr = s.d, s.probe

        def run(cx):
            for v, st, a, pa in s.pre_states(cx, ro=ro):
                args, rng, ind, el = bounds_of(a)
                for x, p in cx.run(st, [pa] + args):
                    cx.states += 1
                    for q in ind:
                        cx.expect(x, q, "unchecked", "an out-of-range index is accepted by the view")
                    for q in rng:
                        cx.expect(x, q, "unchecked", "a range outside the container is accepted")
                    cx.expect_elem(x, p, pr, a.old(*el), "post", "element of the view")
                cx.E.aborts = []
                inr = st.fork()
                if all([inr.assume(q) for q in rng + ind]):
                    cx.run(inr, [pa] + args)
                    cx.no_abort()
                cx.E.aborts = []
        s.g.case("V02", name, sig, body, run, ret="const %s*" % s.T if ro else "%s*" % s.T)

    def views(s):
        D, C_, F = s.d, s.C, s.feats
        if "view" not in F:
            return

        def whole(a):
            i = s.idx("i")
            return i, [], [i[k] for k in range(D)] + [a.n[k] - 1 - i[k] for k in range(D)], i

        def ranges(a):
            i = s.idx("i")
            b, e = [fresh("b%d" % k) for k in range(D)], [fresh("e%d" % k) for k in range(D)]
            args = []
            rng = []
            for k in range(D):
                args += [b[k], e[k]]
                rng += [b[k], a.n[k] - e[k]]
            return args + i, rng, [i[k] for k in range(D)] + [e[k] - b[k] - 1 - i[k] for k in range(D)], [b[k] + i[k] for k in range(D)]

        def line(a):
            """one full index and a range in the contiguous direction"""
            i, q, b, e = fresh("i"), fresh("q"), fresh("b"), fresh("e")
            n, m = (a.n[0], a.n[1]) if s.order == "F" else (a.n[1], a.n[0])
            el = [b + i, q] if s.order == "F" else [q, b + i]
            return [b, e, q, i], [b, n - e, q, m - 1 - q], [i, e - b - 1 - i], el
        rs = ", ".join("il::int_t b%d, il::int_t e%d" % (k, k) for k in range(D))
        ra = ", ".join("il::Range{b%d, e%d}" % (k, k) for k in range(D))
        for nm, fn, ro in (("view", "view", True), ("edit", "Edit", False)):
            q = "const " if ro else ""
            if fn in F:
                s.view_case(nm, "(%s%s& a, %s)" % (q, C_, s.isig), "return &a.%s()(%s);" % (fn, s.iarg), whole, ro)
            if fn in F:
                def extents(cx, ro=ro):
                    for v, st, a, pa in s.pre_states(cx, ro=ro):
                        for k in range(D):
                            for x, r in cx.run(st.fork(), [pa, C(k)]):
                                cx.states += 1
                                cx.expect_val(x, r, a.n[k], "post", "extent %d of the view of the whole array" % k)
                            cx.no_abort()
                            cx.E.aborts = []
                s.g.case("V02", nm + "_extents", "(%s%s& a, il::int_t k)" % (q, C_), "return a.%s().size(k);" % fn, extents, ret="il::int_t")
            if fn + "_range" in F:
                s.view_case(nm + "_range", "(%s%s& a, %s, %s)" % (q, C_, rs, s.isig), "return &a.%s(%s)(%s);" % (fn, ra, s.iarg), ranges, ro)
            if fn + "_line" in F:
                call = "a.%s(il::Range{b, e}, q)" % fn if s.order == "F" else "a.%s(q, il::Range{b, e})" % fn
                s.view_case(nm + "_line", "(%s%s& a, il::int_t b, il::int_t e, il::int_t q, il::int_t i)" % (q, C_), "return &%s[i];" % call, line, ro)


def groups():
    out = []
    for T in ("double", "Probe"):
        t = T[0].lower()
        out.append(NDSuite("a2d_" + t, "il::Array2D", T, 2, "F", {"x", "emplace", "align", "list", "stride", "datacol", "resize_x", "resize_emplace", "view", "Edit", "view_range", "Edit_range", "view_line", "Edit_line"}).g)
        out.append(NDSuite("a2c_" + t, "il::Array2C", T, 2, "C", {"x", "align", "list", "stride", "datacol", "set", "view", "Edit", "view_range", "view_line"}).g)
        out.append(NDSuite("a3d_" + t, "il::Array3D", T, 3, "F", {"x", "align", "stride"}).g)
        out.append(NDSuite("a4d_" + t, "il::Array4D", T, 4, "F", set()).g)
        out.append(NDSuite("a3c_" + t, "il::Array3C", T, 3, "C", {"x", "align", "stride"}).g)
        out.append(NDSuite("a4c_" + t, "il::Array4C", T, 4, "C", set()).g)
    return out
