"""il::Deque: every capacity up to 4 (thorough: 6), every position of the front and every size; element values are opaque."""
import itertools
from hashmap import *
import hashmap

PRE_D = '''
#include <il/Deque.h>
#include <new>
struct Val { Val(); Val(long); Val(const Val&); Val(Val&&); Val& operator=(const Val&); Val& operator=(Val&&); ~Val(); long v; };
typedef il::Deque<Val> D;
'''
DCLS, ACLS = "il::Deque<Val>", "il::Array<Val>"


def m_made(E, st, name, args):
    return construct(E, st, args[0], "made", "constructing")


def dinstall(cx):
    st = install(cx)
    cx.E.model_pats = [(re.compile(r"^@_ZN3ValC[12]El$"), m_made)] + cx.E.model_pats
    return st


def mkd(cx, st, cap, front, n, name="deque"):
    L = cx.lay
    o = cx.obj(st, L.size(DCLS), name)
    od, of, ob = L.get(DCLS, "data_", "front_", "back_")
    a = L.by[L.key(ACLS)]
    d = None
    if cap:
        d = cx.E.new_obj(st, "heap", C(8 * cap), "elements of " + name)
        for i in range(cap):
            st.gh.cell[(d, 8 * i)] = ("L", "g%d" % i)
        for i in range(n):
            st.gh.cell[(d, 8 * ((front + i) % cap))] = ("L", "e%d" % i)
        ptr = [Ptr(d, C(8 * v)) for v in (0, cap, cap)]
    else:
        ptr = [Ptr(None, ZERO)] * 3
    for n_, q in zip(("data_", "size_", "capacity_"), ptr):
        cx.put(st, o, od + a[n_], 8, q)
    for n_ in ("alignment_", "align_r_", "align_mod_", "shift_", "new_shift_"):
        if n_ in a:
            cx.put(st, o, od + a[n_], 2, C(0))
    for n_ in ("debug_size_", "debug_capacity_"):
        if n_ in a:
            cx.put(st, o, od + a[n_], 8, C(cap))
    cx.put(st, o, of, 8, C(front if n else -1))
    cx.put(st, o, ob, 8, C((front + n - 1) % cap if n else -1))
    return Ptr(o, ZERO)


def shapes(maxc):
    for c in range(maxc + 1):
        yield (c, 0, 0)
        for n in range(1, c + 1):
            for f in range(c):
                yield (c, f, n)


def contents(cx, st, d, want, what):
    """the elements from the front and from the back, by popping"""
    for fn, w in (("drainf", want), ("drainb", want[::-1])):
        o = out8(cx, st, len(want) + 3)
        for x, r in cx.call(st.fork(), "size", [d]):
            cx.expect(x, r - len(want), "post", "%s: wrong size" % what, True)
        for x, r in cx.call(st.fork(), fn, [d, o, C(len(want) + 2)]):
            cx.states += 1
            cx.E.obl += 1
            c = r.const() if isinstance(r, Poly) else None
            if c is None:
                raise Unsupported("number of elements")
            if c != len(want):
                cx.fail(x, "post", "%s: the deque gives %s elements instead of %d" % (what, c if c <= len(want) else "more", len(want)))
                continue
            got = [ident(cx, x, x.objs[o.o].cells[8 * i][2], what) for i in range(c)]
            if got != w:
                cx.fail(x, "post", "%s: the elements %s are %s instead of %s" % (what, "from the front" if fn == "drainf" else "from the back", got, w))
            else:
                cx.E.proved += 1


def ddestroy(cx, st, ds):
    cur = [st]
    for d in ds:
        cur = [y for x in cur for y, r in cx.call(x, "dtor", [d])]
    for x in cur:
        cx.leak_check(x)


def build_d():
    g = Group("deque", PRE_D)
    g.life = "L03"
    g.helper("size", "il::int_t", "(D* d)", "return d->size();")
    g.helper("drainf", "il::int_t", "(D* d, const void** o, long lim)", "long c = 0; while (d->size() > 0) { if (c == lim) return c; o[c] = &d->front(); ++c; d->PopFront(); } return c;")
    g.helper("drainb", "il::int_t", "(D* d, const void** o, long lim)", "long c = 0; while (d->size() > 0) { if (c == lim) return c; o[c] = &d->back(); ++c; d->PopBack(); } return c;")
    g.helper("dtor", "void", "(D* d)", "d->~D();")
    MAXC = 4

    def push(front, emplace, alias):
        def run(cx):
            st0 = dinstall(cx)
            for c, f, n in shapes(MAXC):
                for which in (["front", "back"] if alias and n else [None] if not alias else []):
                    st = st0.fork()
                    d = mkd(cx, st, c, f, n)
                    old = ["e%d" % i for i in range(n)]
                    if alias:
                        args = [d, C(1 if which == "front" else 0)]
                        new = old[0] if which == "front" else old[-1]
                    else:
                        x_ = keyp(cx, st, "x")
                        args = [d, x_] if emplace != 2 else [d]
                        new = "x" if emplace != 2 else "made"
                    res = cx.run(st, args)
                    if n == c:
                        for x, r in res:
                            cx.fail(x, "unchecked", "pushing on a full deque does not abort (capacity %d, %d elements, front at %d)" % (c, n, f))
                        cx.E.aborts = []
                        continue
                    cx.no_abort()
                    cx.E.aborts = []
                    for x, r in res:
                        want = [new] + old if front else old + [new]
                        contents(cx, x, d, want, "push")
                        for y, r in cx.call(x.fork(), "size", [d]):
                            pass
                        ddestroy(cx, x, [d])
                    cx.no_abort()
                    cx.E.aborts = []
        return run
    for fr, nm_ in ((True, "PushFront"), (False, "PushBack")):
        g.case("D01", nm_, "(D* d, Val* x)", "d->%s(*x);" % nm_, push(fr, 0, False))
        g.case("D01", nm_ + "_emplace", "(D* d, Val* x)", "d->%s(il::emplace, *x);" % nm_, push(fr, 1, False))
        g.case("D01", nm_ + "_emplace_made", "(D* d)", "d->%s(il::emplace, 3L);" % nm_, push(fr, 2, False))
        g.case("D01", nm_ + "_alias", "(D* d, long w)", "d->%s(w ? d->front() : d->back());" % nm_, push(fr, 0, True))

    def pop(front):
        def run(cx):
            st0 = dinstall(cx)
            for c, f, n in shapes(MAXC):
                st = st0.fork()
                d = mkd(cx, st, c, f, n)
                old = ["e%d" % i for i in range(n)]
                res = cx.run(st, [d])
                if n == 0:
                    for x, r in res:
                        cx.fail(x, "unchecked", "popping from an empty deque does not abort")
                    cx.E.aborts = []
                    continue
                for x, r in res:
                    contents(cx, x, d, old[1:] if front else old[:-1], "pop")
                    ddestroy(cx, x, [d])
                cx.no_abort()
                cx.E.aborts = []
        return run
    g.case("D01", "PopFront", "(D* d)", "d->PopFront();", pop(True))
    g.case("D01", "PopBack", "(D* d)", "d->PopBack();", pop(False))

    def end(front, body):
        def run(cx):
            st0 = dinstall(cx)
            for c, f, n in shapes(MAXC):
                st = st0.fork()
                d = mkd(cx, st, c, f, n)
                for x, r in cx.run(st, [d]):
                    cx.states += 1
                    if n == 0:
                        cx.fail(x, "unchecked", "access to the end of an empty deque does not abort")
                        continue
                    cx.E.obl += 1
                    got = ident(cx, x, r, "end of the deque")
                    want = "e0" if front else "e%d" % (n - 1)
                    if got != want:
                        cx.fail(x, "post", "the end of the deque is %s instead of %s" % (got, want))
                    else:
                        cx.E.proved += 1
                if n:
                    cx.no_abort()
                cx.E.aborts = []
        return run
    for nm_, fr in (("front", True), ("Front", True), ("back", False), ("Back", False)):
        g.case("D01", nm_, "(D* d)", "return &d->%s();" % nm_, end(fr, nm_), ret="const void*")

    def ctor(n, body):
        def run(cx):
            st = dinstall(cx)
            d = Ptr(cx.obj(st, cx.lay.size(DCLS), "deque"), ZERO)
            for x, r in cx.run(st, [d]):
                contents(cx, x, d, [], "constructor")
                for y, r in cx.call(x, "size", [d]):
                    ddestroy(cx, y, [d])
            cx.no_abort()
            cx.E.aborts = []
        return run
    g.case("D01", "ctor", "(D* d)", "new (d) D{};", ctor(0, ""))
    for n in (0, 1, 3):
        g.case("D01", "ctor_%d" % n, "(D* d)", "new (d) D(%d);" % n, ctor(n, ""))
        g.case("D01", "reserve_%d" % n, "(D* d)", "new (d) D{}; d->Reserve(%d); if (d->capacity() < %d) il::abort();" % (n, n), ctor(n, ""))

    def copy(move):
        def run(cx):
            st0 = dinstall(cx)
            for c, f, n in shapes(3):
                st = st0.fork()
                d = mkd(cx, st, c, f, n)
                t = Ptr(cx.obj(st, cx.lay.size(DCLS), "target"), ZERO)
                old = ["e%d" % i for i in range(n)]
                for x, r in cx.run(st, [t, d]):
                    contents(cx, x, t, old, "copy")
                    if not move:
                        contents(cx, x, d, old, "source of the copy")
                    ddestroy(cx, x, [t, d])
                cx.no_abort()
                cx.E.aborts = []
        return run
    def use(seq):
        """a deque just built, or emptied by taking its elements, is ready for use"""
        def run(cx):
            st0 = dinstall(cx)
            st = st0.fork()
            d = Ptr(cx.obj(st, cx.lay.size(DCLS), "deque"), ZERO)
            x_ = keyp(cx, st, "x")
            y_ = keyp(cx, st, "y")
            for x, r in cx.run(st, [d, x_, y_]):
                contents(cx, x, d, seq, "use of a new deque")
                ddestroy(cx, x, [d])
            cx.no_abort()
            cx.E.aborts = []
        return run
    for nm_, body in (("n", "new (d) D(3);"), ("reserve", "new (d) D{}; d->Reserve(3);")):
        g.case("D01", "use_%s_bb" % nm_, "(D* d, Val* x, Val* y)", body + " d->PushBack(*x); d->PushBack(*y);", use(["x", "y"]))
        g.case("D01", "use_%s_ff" % nm_, "(D* d, Val* x, Val* y)", body + " d->PushFront(*x); d->PushFront(*y);", use(["y", "x"]))
        g.case("D01", "use_%s_fb" % nm_, "(D* d, Val* x, Val* y)", body + " d->PushFront(*x); d->PushBack(*y);", use(["x", "y"]))
        g.case("D01", "use_%s_bf" % nm_, "(D* d, Val* x, Val* y)", body + " d->PushBack(*x); d->PushFront(*y);", use(["y", "x"]))

    def poppush(pf, qf):
        def run(cx):
            st0 = dinstall(cx)
            for c, f, n in shapes(MAXC):
                if not n:
                    continue
                st = st0.fork()
                d = mkd(cx, st, c, f, n)
                x_ = keyp(cx, st, "x")
                old = ["e%d" % i for i in range(n)]
                old = old[1:] if pf else old[:-1]
                for x, r in cx.run(st, [d, x_]):
                    contents(cx, x, d, ["x"] + old if qf else old + ["x"], "taking one element and pushing one")
                    ddestroy(cx, x, [d])
                cx.no_abort()
                cx.E.aborts = []
        return run
    for pf in (True, False):
        for qf in (True, False):
            g.case("D01", "pop%s_push%s" % ("f" if pf else "b", "f" if qf else "b"), "(D* d, Val* x)", "d->Pop%s(); d->Push%s(*x);" % ("Front" if pf else "Back", "Front" if qf else "Back"), poppush(pf, qf))

    def assign(move, self_):
        def run(cx):
            st0 = dinstall(cx)
            for (c, f, n), (c2, f2, n2) in itertools.product(shapes(3), [(0, 0, 0), (2, 0, 0), (2, 1, 2), (3, 2, 2)]):
                st = st0.fork()
                d = mkd(cx, st, c, f, n)
                old = ["e%d" % i for i in range(n)]
                if self_:
                    if (c2, f2) != (0, 0):
                        continue
                    args, t = [d], d
                else:
                    t = mkd(cx, st, c2, f2, n2, "target")
                    for o in st.objs:
                        if o.startswith("elements of target"):
                            for k in list(st.gh.cell):
                                if k[0] == o:
                                    st.gh.cell[k] = ("L", "t" + str(k[1] // 8))
                    args = [t, d]
                for x, r in cx.run(st, args):
                    contents(cx, x, t, old, "assignment")
                    if not move and not self_:
                        contents(cx, x, d, old, "source of the assignment")
                    ddestroy(cx, x, [t] if self_ else [t, d])
                cx.no_abort()
                cx.E.aborts = []
        return run
    g.case("D01", "copy_assign", "(D* t, D* s)", "*t = *(const D*)s;", assign(False, False))
    g.case("D01", "move_assign", "(D* t, D* s)", "*t = std::move(*s);", assign(True, False))
    g.case("D01", "self_assign", "(D* t)", "*t = *(const D*)t;", assign(False, True))
    g.case("D01", "copy", "(D* t, D* s)", "new (t) D(*(const D*)s);", copy(False))
    g.case("D01", "move", "(D* t, D* s)", "new (t) D(std::move(*s));", copy(True))
    return g


def groups():
    return [build_d()]
