"""il::Array / il::SmallArray: one-dimensional owning containers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from harness import *

PRE = '''
#include <il/Array.h>
#include <il/SmallArray.h>
#include <il/StaticArray.h>
#include <new>
#include <utility>
''' + PROBE


# alignment, remainder and modulus of the aligned representation classes
ALIGN = {"aligned": (32, 0, 32), "residue": (16, 16, 32)}


class Arr:
    """abstract il::Array<T>: (n, c) with elements init(tag, 0..n-1); variants cover every representation class"""

    def __init__(s, cx, cls, T, tag):
        s.cx, s.cls, s.T, s.tag = cx, cls, T, tag
        s.probe = T == "Probe"
        s.full = "%s<%s>" % (cls, T)

    def make(s, st, variant, ro=False):
        cx = s.cx
        d, sz, cp, al, ar, am, sh = cx.lay.get(s.full, "data_", "size_", "capacity_", "alignment_", "align_r_", "align_mod_", "shift_")
        s.obj = cx.obj(st, cx.lay.size(s.full), s.tag)
        s.variant = variant
        cx.al, cx.ar, cx.am = ALIGN.get(variant, (0, 0, 0))
        if variant == "null":
            s.n, s.c = ZERO, ZERO
            for o in (d, sz, cp):
                cx.put(st, s.obj, o, 8, Ptr(None, ZERO))
            s.data = None
        else:
            s.n, s.c = fresh("n_" + s.tag), fresh("c_" + s.tag)
            st.add(s.n)
            st.add(s.c - s.n)
            st.add(s.c - 1)
            s.data = cx.block(st, s.c, s.tag, s.probe, s.n, name="data_" + s.tag)
            cx.put(st, s.obj, d, 8, Ptr(s.data, ZERO))
            cx.put(st, s.obj, sz, 8, Ptr(s.data, s.n * 8))
            cx.put(st, s.obj, cp, 8, Ptr(s.data, s.c * 8))
        for o in (al, ar, am, sh):
            cx.put(st, s.obj, o, 2, ZERO)
        if variant in ALIGN:
            # (alignment, remainder, modulus): block of c*8+31 bytes, data_ shifted by 0..31 bytes (multiple of 8)
            blk = cx.E.new_obj(st, "heap", s.c * 8 + 31, "data_" + s.tag, False)
            sv = fresh("shift_" + s.tag)
            st.add(sv)
            st.add(3 - sv)
            o = st.wobj(blk)
            j = T_new_j()
            o.log = Node(None, Ev("w", S(j) * 8 + sv * 8, 8, Term("init", s.tag, S(j)), [j], [(S(j), False), (s.n - 1 - S(j), False)]))
            st.objs.pop(s.data)
            s.data = blk
            a = S(T.get("addr", "addr_" + blk))
            st.add(a - 256)
            e = a * 16 + sv * 8
            st.add(e - S(T.get("div", "div", (e, 32))) * 32 - cx.ar, True)
            for off, v in ((d, sv * 8), (sz, sv * 8 + s.n * 8), (cp, sv * 8 + s.c * 8)):
                cx.put(st, s.obj, off, 8, Ptr(blk, v))
            cx.put(st, s.obj, al, 2, C(cx.al))
            cx.put(st, s.obj, ar, 2, C(cx.ar))
            cx.put(st, s.obj, am, 2, C(cx.am))
            cx.put(st, s.obj, sh, 2, sv)
        if ro:
            st.wobj(s.obj).ro = True
            if s.data:
                st.wobj(s.data).ro = True
        return Ptr(s.obj, ZERO)

    def old(s, e):
        return Term("init", s.tag, e)


def kept(cx, st, A, what):
    """storage allocated later on for the container has the alignment asked for too"""
    if not cx.has_align or not getattr(cx, "am", 0) or "moved-from" in what or not isinstance(A, Ptr) or st.objs[A.o].ro:
        return
    x = st.fork()
    n_ab = len(cx.E.aborts)
    for y, _ in cx.call(x, "grow", [A]):
        for z, d in cx.call(y, "data", [A]):
            if isinstance(d, Ptr) and d.o is not None:
                aligned(cx, z, A, d, what + ", grown", later=False)
    del cx.E.aborts[n_ab:]


def aligned(cx, st, A, d, what, later=True):
    """the storage at d is aligned as the container reports; the alignment asked for is kept"""
    if not cx.has_align or not isinstance(d, Ptr) or d.o is None or d.o not in st.objs:
        return
    if later:
        kept(cx, st, A, what)
    for x, al in cx.call(st.fork(), "alignment", [A]):
        if getattr(cx, "al", None) is not None and "moved-from" not in what:
            cx.expect_val(x, al, C(cx.al), "align", what + ": alignment")
        m = al.const() if isinstance(al, Poly) else None
        if m is None or m <= 0:
            continue
        cx.E.curins = None
        cx.E.obl += 1
        r = 0
        if getattr(cx, "al", None) == m and getattr(cx, "am", 0) and "moved-from" not in what:
            m, r = cx.am, cx.ar
        a = S(T.get("addr", "addr_" + d.o)) * 16 + d.off - r
        if a.divexact(m) is not None or any((a - p * k).divexact(m) is not None for p, eq in x.cons if eq for k in (1, -1, 2, -2, 4, -4, 8, -8)):
            cx.E.proved += 1
            continue
        off = [(a - c).divexact(m) is not None for c in range(8, m, 8)] + [(a - p * k - c).divexact(m) is not None for p, eq in x.cons if eq for k in (1, -1) for c in range(8, m, 8)]
        if any(off):
            cx.E.record(x, x.cons, "align", what + ": the storage is not aligned on %d bytes" % m + (" with remainder %d" % r if r else ""))
            continue
        z, w = fresh("z"), fresh("w")
        y = x.fork()
        if y.assume(a - z * m - w, True) and y.assume(w - 1) and y.assume(m - 1 - w) and feasible(y.cons):
            cx.E.record(y, y.cons, "align", what + ": the storage is not aligned on %d bytes" % m)
        else:
            cx.E.proved += 1


def T_new_j():
    return T.new("j", "q")


class SmallArr(Arr):
    def make(s, st, variant, ro=False):
        cx = s.cx
        d, sz, cp, sd = cx.lay.get(s.full, "data_", "size_", "capacity_", "small_data_")
        N = s.N
        total = cx.lay.size(s.full)
        s.obj = cx.obj(st, total, s.tag)
        s.variant = variant
        s.n = fresh("n_" + s.tag)
        st.add(s.n)
        if variant == "small":
            s.c = C(N)
            st.add(N - s.n)
            j = T_new_j()
            o = st.wobj(s.obj)
            o.probe = s.probe
            o.log = Node(None, Ev("ctor" if s.probe else "w", S(j) * 8 + sd, 8, Term("init", s.tag, S(j)), [j], [(S(j), False), (s.n - 1 - S(j), False)]))
            base = Ptr(s.obj, C(sd))
            s.data = None
        else:
            s.c = fresh("c_" + s.tag)
            st.add(s.c - s.n)
            st.add(s.c - (N + 1))
            s.data = cx.block(st, s.c, s.tag, s.probe, s.n, name="data_" + s.tag)
            base = Ptr(s.data, ZERO)
        cx.put(st, s.obj, d, 8, base)
        cx.put(st, s.obj, sz, 8, Ptr(base.o, base.off + s.n * 8))
        cx.put(st, s.obj, cp, 8, Ptr(base.o, base.off + s.c * 8))
        if ro:
            st.wobj(s.obj).ro = True
            if s.data:
                st.wobj(s.data).ro = True
        return Ptr(s.obj, ZERO)


class ArrSuite:
    def __init__(s, gname, cls, T, N=None):
        s.cls, s.T, s.N = cls, T, N
        s.C = "%s<%s%s>" % (cls, T, ", %d" % N if N else "")
        s.full = s.C
        s.probe = T == "Probe"
        s.g = Group(gname, PRE, [])
        s.g.life = "L01"
        s.variants = ["small", "heap"] if N else (["null", "heap"] + ([] if s.probe else list(ALIGN)))
        s.small = N is not None
        g = s.g
        C_ = s.C
        g.helper("size", "il::int_t", "(const %s& a)" % C_, "return a.size();")
        g.helper("cap", "il::int_t", "(const %s& a)" % C_, "return a.capacity();")
        g.helper("data", "const %s*" % T, "(const %s& a)" % C_, "return a.data();")
        g.helper("at", "const %s*" % T, "(const %s& a, il::int_t i)" % C_, "return &a[i];")
        g.helper("dtor", "void", "(%s& a)" % C_, "typedef %s C; a.~C();" % C_)
        if not s.small:
            g.helper("alignment", "il::int_t", "(const %s& a)" % C_, "return a.alignment();")
            g.helper("grow", "void", "(%s& a)" % C_, "a.Reserve(a.capacity() + 1);")
            g.also = ("A05",)
        g.helper("raw", "void", "()", "static_assert(sizeof(%s) > 0, \"\"); %s* p = nullptr; (void)p;" % (C_, C_))
        s.build()

    def new(s, cx, tag):
        a = (SmallArr if s.small else Arr)(cx, s.cls, s.T, tag)
        a.full = s.full
        a.N = s.N
        return a

    # ---- generic post-state check
    def sym1(s, cx, st, fn, args):
        rs = cx.call(st, fn, args)
        return rs

    def check(s, cx, st, A, size, content, what, cap_min=None, destroy=True, owned=()):
        """valid container at A with `size` elements; content: [(guards, fn(e)->Term or None)]"""
        cx.states += 1
        n_ab = len(cx.E.aborts)
        for x, n in cx.call(st.fork(), "size", [A]):
            cx.expect_val(x, n, size, "post", what + ": size")
            x.add(n - size, True)
            for y, c in cx.call(x, "cap", [A]):
                cx.expect(y, c - n, "post", what + ": capacity below size")
                if cap_min is not None:
                    cx.expect(y, c - cap_min, "post", what + ": capacity below the reserved amount")
                for z, d in cx.call(y, "data", [A]):
                    if isinstance(d, Ptr) and d.o is None:
                        cx.expect(z, -c, "post", what + ": null storage with a positive capacity")
                    elif isinstance(d, Ptr):
                        aligned(cx, z, A, d, what)
                        o = z.objs.get(d.o)
                        if o is None or not o.alive:
                            cx.fail(z, "uaf", what + ": storage was released")
                            continue
                        if o.size is not None:
                            lim = o.size
                            if o.id == getattr(A, "o", None) and s.small:
                                (sd,) = cx.lay.get(s.full, "small_data_")
                                lim = C(sd + 8 * s.N)
                            cx.expect(z, lim - d.off - c * 8, "bounds", what + ": capacity exceeds the allocated storage")
                            cx.expect(z, d.off, "bounds", what + ": storage starts before its block")
                        if s.probe:
                            # slots beyond size hold no object
                            w = z.fork()
                            e = fresh("e")
                            w.add(e - n)
                            if w.assume(c - 1 - e):
                                for v, status, val in cx.elem_at(w, Ptr(d.o, d.off + e * 8), True):
                                    if status == "live":
                                        cx.fail(v, "life", what + ": an element beyond size is still alive")
                    for guards, fn in content:
                        e = fresh("e")
                        w = z.fork()
                        w.add(e)
                        ok = w.assume(size - 1 - e)
                        for p, q in guards(e) if guards else []:
                            ok = ok and w.assume(p, q)
                        if not ok:
                            continue
                        for v, p in cx.call(w, "at", [A, e]):
                            cx.expect_elem(v, p, s.probe, fn(e) if fn else None, "post", what + ": element")
        if destroy:
            for x, _ in cx.call(st.fork(), "dtor", [A]):
                cx.leak_check(x, owned)
        cx.no_abort()
        del cx.E.aborts[n_ab:]

    @staticmethod
    def default_content(s_probe):
        return Term("default") if s_probe else None

    def pre_states(s, cx, tag="a", ro=False, variants=None):
        for v in (variants or s.variants):
            st = cx.st()
            a = s.new(cx, tag)
            p = a.make(st, v, ro)
            yield v, st, a, p

    def build(s):
        g, C_, T = s.g, s.C, s.T
        case = g.case
        pr = s.probe
        default = Term("default") if pr else None

        # ---------------- construction
        def ctor(args_of, size, content, al=0):
            def run(cx):
                st = cx.st()
                cx.al, cx.ar, cx.am = al if isinstance(al, tuple) else (al, 0, 0)
                A = cx.obj(st, cx.lay.size(s.full), "a", probe=False)
                args, n = args_of(cx, st)
                for x, _ in cx.run(st, [Ptr(A, ZERO)] + args):
                    ok = cx.E.aborts
                    s.check(cx, x, Ptr(A, ZERO), n, content(cx), "constructed container")
                cx.no_abort()
            return run

        def npos(cx, st):
            n = fresh("n")
            st.add(n)
            return n
        case("A02", "ctor_default", "(void* p)", "new (p) %s();" % C_, ctor(lambda cx, st: ([], ZERO), 0, lambda cx: []))
        case("A02", "ctor_n", "(void* p, il::int_t n)", "new (p) %s(n);" % C_, ctor(lambda cx, st: (lambda n: ([n], n))(npos(cx, st)), 0, lambda cx: [(None, lambda e: default)]))

        def ctor_nx(cx, st):
            n = npos(cx, st)
            return [n, cx.elem(st, "x", pr)], n
        case("A02", "ctor_n_x", "(void* p, il::int_t n, const %s& x)" % T, "new (p) %s(n, x);" % C_, ctor(ctor_nx, 0, lambda cx: [(None, lambda e: Term("init", "x"))]))
        if not s.small: case("A02", "ctor_n_emplace", "(void* p, il::int_t n, const %s& x)" % T, "new (p) %s(n, il::emplace, x);" % C_, ctor(ctor_nx, 0, lambda cx: [(None, lambda e: Term("init", "x"))]))
        if not s.small and not pr:
            for nm, extra in (("ctor_aligned", ""), ("ctor_aligned_x", ", x")):
                case("A02", nm, "(void* p, il::int_t n, const %s& x)" % T, "new (p) %s(n%s, il::align, 32);" % (C_, extra),
                     ctor(ctor_nx, 0, (lambda cx: [(None, lambda e: Term("init", "x"))]) if extra else (lambda cx: [(None, lambda e: None)]), 32))
                case("A02", nm + "_rem", "(void* p, il::int_t n, const %s& x)" % T, "new (p) %s(n%s, il::align, 16, 16, 32);" % (C_, extra),
                     ctor(ctor_nx, 0, (lambda cx: [(None, lambda e: Term("init", "x"))]) if extra else (lambda cx: [(None, lambda e: None)]), (16, 16, 32)))

        # initializer list of two
        def ilist(cx):
            st = cx.st()
            A = cx.obj(st, cx.lay.size(s.full), "a")
            x, y = cx.elem(st, "x", pr), cx.elem(st, "y", pr)
            for z, _ in cx.run(st, [Ptr(A, ZERO), x, y]):
                s.check(cx, z, Ptr(A, ZERO), C(2), [(lambda e: [(e, True)], lambda e: Term("init", "x")), (lambda e: [(e - 1, True)], lambda e: Term("init", "y"))], "brace-initialised container")
            cx.no_abort()
        case("A02", "ctor_list", "(void* p, const %s& x, const %s& y)" % (T, T), "new (p) %s(il::value, {x, y});" % C_, ilist)

        def ilist5(cx):
            st = cx.st()
            A = cx.obj(st, cx.lay.size(s.full), "a")
            vs = [cx.elem(st, n, pr) for n in "xyzuv"]
            for z, _ in cx.run(st, [Ptr(A, ZERO)] + vs):
                s.check(cx, z, Ptr(A, ZERO), C(5), [((lambda k: lambda e: [(e - k, True)])(k), (lambda n: lambda e: Term("init", n))(n)) for k, n in enumerate("xyzuv")], "brace-initialised container")
            cx.no_abort()
        case("A02", "ctor_list5", "(void* p, %s)" % ", ".join("const %s& %s" % (T, n) for n in "xyzuv"), "new (p) %s(il::value, {x, y, z, u, v});" % C_, ilist5)

        if not s.small:
            def from_view(cx):
                st = cx.st()
                A = cx.obj(st, cx.lay.size(s.full), "a")
                n = npos(cx, st)
                b = cx.block(st, n, "v", pr, n, name="viewed")
                st.wobj(b).ro = True
                cx.al, cx.ar, cx.am = 0, 0, 0
                for z, _ in cx.run(st, [Ptr(A, ZERO), Ptr(b, ZERO), n]):
                    s.check(cx, z, Ptr(A, ZERO), n, [(None, lambda e: Term("init", "v", e))], "container made from a view", owned=(b,))
                cx.no_abort()
            case("A02", "ctor_view", "(void* p, const %s* q, il::int_t n)" % T, "new (p) %s(il::ArrayView<%s>(q, n));" % (C_, T), from_view)

        # ---------------- copy
        def copy_ctor(cx):
            for v, st, b, pb in s.pre_states(cx, "b", ro=True):
                A = cx.obj(st, cx.lay.size(s.full), "a")
                for x, _ in cx.run(st, [Ptr(A, ZERO), pb]):
                    s.check(cx, x, Ptr(A, ZERO), b.n, [(None, b.old)], "copy", owned=(b.data,))
                    s.check(cx, x, pb, b.n, [(None, b.old)], "source of the copy", destroy=False)
                    s.independent(cx, x, Ptr(A, ZERO), pb)
                cx.no_abort()
        case("C01", "copy_ctor", "(void* p, const %s& b)" % C_, "new (p) %s(b);" % C_, copy_ctor)

        def copy_assign(cx):
            for v1 in s.variants:
                for v2 in s.variants:
                    st = cx.st()
                    a, b = s.new(cx, "a"), s.new(cx, "b")
                    pa, pb = a.make(st, v1), b.make(st, v2, ro=True)
                    for x, r in cx.run(st, [pa, pb]):
                        s.check(cx, x, pa, b.n, [(None, b.old)], "assigned container", owned=(b.data,))
                        s.check(cx, x, pb, b.n, [(None, b.old)], "source of the assignment", destroy=False)
                        s.independent(cx, x, pa, pb)
                    cx.no_abort()
                    cx.E.aborts = []
        case("C01", "copy_assign", "(%s& a, const %s& b)" % (C_, C_), "a = b;", copy_assign)

        def copy_self(cx):
            for v, st, a, pa in s.pre_states(cx):
                for x, r in cx.run(st, [pa, pa]):
                    s.check(cx, x, pa, a.n, [(None, a.old)], "self-assigned container")
                cx.no_abort()
                cx.E.aborts = []
        case("C01", "copy_assign_self", "(%s& a, const %s& b)" % (C_, C_), "a = b;", copy_self)
        case("C02", "move_assign_self", "(%s& a, %s& b)" % (C_, C_), "a = std::move(b);", copy_self)

        # ---------------- move
        def move_ctor(cx):
            for v, st, b, pb in s.pre_states(cx, "b"):
                A = cx.obj(st, cx.lay.size(s.full), "a")
                for x, _ in cx.run(st, [Ptr(A, ZERO), pb]):
                    s.check(cx, x, Ptr(A, ZERO), b.n, [(None, b.old)], "move-constructed container", destroy=False)
                    s.moved(cx, x, pb)
                    s.both(cx, x, [Ptr(A, ZERO), pb])
                cx.no_abort()
                cx.E.aborts = []
        case("C02", "move_ctor", "(void* p, %s& b)" % C_, "new (p) %s(std::move(b));" % C_, move_ctor)

        def move_assign(cx):
            for v1 in s.variants:
                for v2 in s.variants:
                    st = cx.st()
                    a, b = s.new(cx, "a"), s.new(cx, "b")
                    pa, pb = a.make(st, v1), b.make(st, v2)
                    for x, r in cx.run(st, [pa, pb]):
                        s.check(cx, x, pa, b.n, [(None, b.old)], "move-assigned container", destroy=False)
                        s.moved(cx, x, pb)
                        s.both(cx, x, [pa, pb])
                    cx.no_abort()
                    cx.E.aborts = []
        case("C02", "move_assign", "(%s& a, %s& b)" % (C_, C_), "a = std::move(b);", move_assign)

        # ---------------- destruction
        def dtor(cx):
            for v, st, a, pa in s.pre_states(cx):
                for x, _ in cx.run(st, [pa]):
                    cx.states += 1
                    cx.leak_check(x)
                    s.slots_dead(cx, x, a)
                cx.no_abort()
                cx.E.aborts = []
        case("L01", "destroy", "(%s& a)" % C_, "typedef %s C; a.~C();" % C_, dtor)

        # ---------------- checked access
        def access(ro):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, ro=ro):
                    i = fresh("i")
                    for x, p in cx.run(st, [pa, i]):
                        cx.states += 1
                        cx.expect(x, i, "unchecked", "an out-of-range index is accepted")
                        cx.expect(x, a.n - 1 - i, "unchecked", "an out-of-range index is accepted")
                        cx.expect_elem(x, p, pr, a.old(i), "post", "accessed element")
                    inr = st.fork()
                    cx.E.aborts = []
                    ok = inr.assume(i) and inr.assume(a.n - 1 - i)
                    if ok:
                        cx.run(inr, [pa, i])
                        cx.no_abort()
                    cx.E.aborts = []
            return run
        case("A01", "index_const", "(const %s& a, il::int_t i)" % C_, "return &a[i];", access(True), ret="const %s*" % T)
        case("A01", "index", "(%s& a, il::int_t i)" % C_, "return &a[i];", access(False), ret="%s*" % T)

        def last(ro):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, ro=ro):
                    for x, p in cx.run(st, [pa]):
                        cx.states += 1
                        cx.expect(x, a.n - 1, "unchecked", "the last element of an empty container is accepted")
                        cx.expect_elem(x, p, pr, a.old(a.n - 1), "post", "last element")
                    inr = st.fork()
                    cx.E.aborts = []
                    if inr.assume(a.n - 1):
                        cx.run(inr, [pa])
                        cx.no_abort()
                    cx.E.aborts = []
            return run
        case("A01", "back", "(const %s& a)" % C_, "return &a.back();", last(True), ret="const %s*" % T)
        case("A01", "Back", "(%s& a)" % C_, "return &a.Back();", last(False), ret="%s*" % T)

        def whole(off_end, ro):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx, ro=ro):
                    for x, p in cx.run(st, [pa]):
                        cx.states += 1
                        for y, d in cx.call(x, "data", [pa]):
                            if isinstance(d, Ptr) and isinstance(p, Ptr):
                                cx.expect_val(y, p, Ptr(d.o, d.off + (a.n * 8 if off_end else ZERO)), "post", "iterator")
                            if isinstance(d, Ptr) and d.o is not None and not off_end:
                                e = fresh("e")
                                w = y.fork()
                                w.add(e)
                                if w.assume(a.n - 1 - e):
                                    cx.expect_elem(w, Ptr(p.o, p.off + e * 8), pr, a.old(e), "post", "element through the data pointer")
                    cx.no_abort()
                    cx.E.aborts = []
            return run
        for nm, off, ro in (("data", 0, 1), ("Data", 0, 0)) if s.small else (("data", 0, 1), ("Data", 0, 0), ("begin", 0, 1), ("cbegin", 0, 1), ("end", 1, 1), ("cend", 1, 1)):
            case("A01", "it_" + nm, "(%s%s& a)" % ("const " if ro else "", C_), "return a.%s();" % nm, whole(off, bool(ro)), ret="const %s*" % T)
        if not s.small: case("A01", "it_mbegin", "(%s& a)" % C_, "return a.begin();", whole(0, False), ret="const %s*" % T)
        if not s.small: case("A01", "it_mend", "(%s& a)" % C_, "return a.end();", whole(1, False), ret="const %s*" % T)

        # ---------------- resize / reserve
        def resize(withx, alias=False):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx):
                    m = fresh("m")
                    st.add(m)
                    args = [pa, m]
                    xv = Term("init", "x")
                    if withx:
                        if alias:
                            i = fresh("i")
                            st.add(i)
                            if not st.assume(a.n - 1 - i):
                                continue
                            # the element passed is also kept by the resize
                            if not st.assume(m - 1 - i):
                                continue
                            args.append(i)
                            xv = a.old(i)
                        else:
                            args.append(cx.elem(st, "x", pr))
                    for x, _ in cx.run(st, args):
                        s.check(cx, x, pa, m, [(lambda e: [(a.n - 1 - e, False)], a.old), (lambda e: [(e - a.n, False)], lambda e: xv if withx else default)], "resized container")
                    cx.no_abort()
                    cx.E.aborts = []
            return run
        case("A02", "resize", "(%s& a, il::int_t n)" % C_, "a.Resize(n);", resize(False))
        if not s.small:
            case("A02", "resize_x", "(%s& a, il::int_t n, const %s& x)" % (C_, T), "a.Resize(n, x);", resize(True))
            case("A02", "resize_x_alias", "(%s& a, il::int_t n, il::int_t i)" % C_, "a.Resize(n, a[i]);", resize(True, True))
            case("A02", "resize_emplace", "(%s& a, il::int_t n, const %s& x)" % (C_, T), "a.Resize(n, il::emplace, x);", resize(True))

        def reserve(cx):
            for v, st, a, pa in s.pre_states(cx):
                m = fresh("m")
                st.add(m)
                for x, _ in cx.run(st, [pa, m]):
                    s.check(cx, x, pa, a.n, [(None, a.old)], "container after reserving", cap_min=m)
                cx.no_abort()
                cx.E.aborts = []
        case("A02", "reserve", "(%s& a, il::int_t r)" % C_, "a.Reserve(r);", reserve)

        # ---------------- append
        def append(alias, moved=False):
            def run(cx):
                for v, st, a, pa in s.pre_states(cx):
                    args = [pa]
                    xv = Term("init", "x")
                    i = None
                    if alias:
                        i = fresh("i")
                        st.add(i)
                        if not st.assume(a.n - 1 - i):
                            continue
                        args.append(i)
                        xv = a.old(i)
                    else:
                        args.append(cx.elem(st, "x", pr))
                    for x, _ in cx.run(st, args):
                        cont = [(lambda e: [(a.n - 1 - e, False)], a.old), (lambda e: [(e - a.n, True)], lambda e: xv)]
                        if alias and moved and pr:
                            cont = [(lambda e: [(a.n - 1 - e, False), (e - i - 1, False)], a.old), (lambda e: [(a.n - 1 - e, False), (i - e - 1, False)], a.old), (lambda e: [(e - a.n, True)], lambda e: xv)]
                        s.check(cx, x, pa, a.n + 1, cont, "container after appending")
                        if not alias and not moved:
                            cx.expect_elem(x, args[1], pr, xv, "post", "appended source")
                    cx.no_abort()
                    cx.E.aborts = []
            return run
        case("A03", "append", "(%s& a, const %s& x)" % (C_, T), "a.Append(x);", append(False))
        case("A03", "append_move", "(%s& a, %s& x)" % (C_, T), "a.Append(std::move(x));", append(False, True))
        if not s.small: case("A03", "append_emplace", "(%s& a, const %s& x)" % (C_, T), "a.Append(il::emplace, x);" if not s.small else "a.Append(il::emplace, x);", append(False))
        if s.small:
            case("A03", "append_args", "(%s& a, %s& x)" % (C_, T), "a.Append(x);", append(False))
            case("A03", "append_args_alias", "(%s& a, il::int_t i)" % C_, "a.Append(a[i]);", append(True))
        case("A03", "append_alias", "(%s& a, il::int_t i)" % C_, "a.Append(static_cast<const %s&>(a[i]));" % T, append(True))
        case("A03", "append_move_alias", "(%s& a, il::int_t i)" % C_, "a.Append(std::move(a[i]));", append(True, True))
        if not s.small: case("A03", "append_emplace_alias", "(%s& a, il::int_t i)" % C_, "a.Append(il::emplace, static_cast<const %s&>(a[i]));" % T, append(True))

        if True:
            def setall(cx):
                for v, st, a, pa in s.pre_states(cx):
                    xp = cx.elem(st, "x", pr)
                    for x, _ in cx.run(st, [pa, xp]):
                        s.check(cx, x, pa, a.n, [(None, lambda e: Term("init", "x"))], "container after Set")
                    cx.no_abort()
                    cx.E.aborts = []
            if not s.small: case("A02", "set", "(%s& a, const %s& x)" % (C_, T), "a.Set(x);", setall)

            # ---------------- views
            def view(rng, ro):
                def run(cx):
                    for v, st, a, pa in s.pre_states(cx, ro=ro):
                        i = fresh("i")
                        args = [pa]
                        b, e = ZERO, a.n
                        if rng:
                            b, e = fresh("b"), fresh("e")
                            args += [b, e]
                        args.append(i)
                        for x, p in cx.run(st, args):
                            cx.states += 1
                            cx.expect(x, i, "unchecked", "an out-of-range index is accepted by the view")
                            cx.expect(x, e - b - 1 - i, "unchecked", "an out-of-range index is accepted by the view")
                            cx.expect(x, b, "unchecked", "the view starts before the container")
                            cx.expect(x, a.n - e, "unchecked", "the view ends after the container")
                            cx.expect_elem(x, p, pr, a.old(b + i), "post", "element of the view")
                        cx.E.aborts = []
                        inr = st.fork()
                        if inr.assume(b) and inr.assume(a.n - e) and inr.assume(i) and inr.assume(e - b - 1 - i):
                            cx.run(inr, args)
                            cx.no_abort()
                        cx.E.aborts = []
                return run
            case("V01", "view", "(const %s& a, il::int_t i)" % C_, "return &a.view()[i];", view(False, True), ret="const %s*" % T)
            case("V01", "view_range", "(const %s& a, il::int_t b, il::int_t e, il::int_t i)" % C_, "return &a.view(il::Range{b, e})[i];", view(True, True), ret="const %s*" % T)
            case("V01", "edit", "(%s& a, il::int_t i)" % C_, "return &a.Edit()[i];", view(False, False), ret="%s*" % T)
            case("V01", "edit_range", "(%s& a, il::int_t b, il::int_t e, il::int_t i)" % C_, "return &a.Edit(il::Range{b, e})[i];", view(True, False), ret="%s*" % T)

    # ---- helpers
    def independent(s, cx, st, pa, pb):
        for x, d1 in cx.call(st.fork(), "data", [pa]):
            for y, d2 in cx.call(x, "data", [pb]):
                if isinstance(d1, Ptr) and isinstance(d2, Ptr) and d1.o is not None and d1.o == d2.o:
                    cx.fail(y, "post", "copy and source share storage")

    def moved(cx_self, cx, st, pb):
        """moved-from container: valid and empty"""
        cx_self.check(cx, st, pb, ZERO, [], "moved-from container", destroy=False)

    def both(s, cx, st, ps):
        n_ab = len(cx.E.aborts)
        cur = [st.fork()]
        for p in ps:
            cur = [y for x in cur for y, _ in cx.call(x, "dtor", [p])]
        for x in cur:
            cx.leak_check(x)
        cx.no_abort()
        del cx.E.aborts[n_ab:]

    def slots_dead(s, cx, st, a):
        pass


def groups():
    out = []
    for T in ("double", "Probe"):
        out.append(ArrSuite("arr_" + T[0].lower(), "il::Array", T).g)
        out.append(ArrSuite("sma_" + T[0].lower(), "il::SmallArray", T, 3).g)
        out.append(ArrSuite("sm1_" + T[0].lower(), "il::SmallArray", T, 1).g)
    return out
