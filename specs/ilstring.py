"""il::String, il::UTF16String: storage and contents of the editing operations, for every length and capacity.
The pre-state is any well-formed string: inline with any length up to the inline maximum, or on the heap with any capacity
that is a multiple of 8 (String) and any length up to it; the characters are opaque."""
from harness import *

PRE = '''
#include <il/String.h>
#include <il/UTF16String.h>
#include <new>
#include <utility>
'''
TYPES = {"ascii": 0, "utf8": 1, "wtf8": 2, "byte": 3}


class Kind:
    def __init__(s, cls, w, mx, ch):
        s.cls, s.w, s.mx, s.ch = cls, w, mx, ch
        s.u16 = w == 2

    def make(s, cx, st, tag, rep, t=0, ro=False, n=None):
        """-> (pointer, n, capacity, data Ptr)"""
        E = cx.E
        o = cx.obj(st, 24, tag)
        if n is None:
            n = fresh("n_" + tag)
            st.add(n)
        w = s.w
        j = T.new("j", "q")
        if rep == "small":
            st.add(s.mx - n)
            d, base, cap, holder = Ptr(o, ZERO), ZERO, C(s.mx), o
        else:
            cap = fresh("c_" + tag)
            if not s.u16:
                st.add(cap - 3)
                cap = cap * 8
            else:
                st.add(cap - 12)
            st.add(cap - n)
            st.add(C(1 << 24) - cap)
            holder = E.new_obj(st, "heap", (cap + 1) * w, "data of " + tag)
            d = Ptr(holder, ZERO)
        ob = st.wobj(holder)
        ob.log = Node(None, Ev("w", S(j) * w, w, Term("init", tag, S(j)), [j], [(S(j), False), (n - 1 - S(j), False)]))
        cx.put(st, holder, n * w, w, ZERO)
        if rep == "small":
            cx.put(st, o, s.mx * w + (w if not s.u16 else 0) + (0 if s.u16 else 0), w, (C(11) - n) if s.u16 else n + 32 * t)
        else:
            cx.put(st, o, 0, 8, d)
            cx.put(st, o, 8, 8, n)
            cx.put(st, o, 16, 8, cap + (-(1 << 63)) if s.u16 else cap.divexact(8) + (-(1 << 63) + t * (1 << 61)))
        if ro:
            st.wobj(o).ro = True
            st.wobj(holder).ro = True
        return Ptr(o, ZERO), n, cap, d


STR = Kind("il::String", 1, 22, "char")
U16 = Kind("il::UTF16String", 2, 11, "char16_t")


def old(tag):
    return lambda e: Term("init", tag, e)


class Suite:
    def __init__(s, k, gname, props):
        s.k = k
        s.g = g = Group(gname, PRE)
        g.life = "L04"
        s.X = props
        c = k.cls
        g.helper("size", "il::int_t", "(const %s& a)" % c, "return a.size();")
        g.helper("cap", "il::int_t", "(const %s& a)" % c, "return a.capacity();")
        g.helper("data", "const void*", "(const %s& a)" % c, "return a.data();")
        g.helper("small", "bool", "(const %s& a)" % c, "return a.isSmall();")
        if not k.u16:
            g.helper("type", "int", "(const %s& a)" % c, "return static_cast<int>(a.type());")
            g.helper("ctype", "il::StringType", "(int t)", "return static_cast<il::StringType>(t);")
        g.helper("dtor", "void", "(%s& a)" % c, "typedef %s C; a.~C();" % c)
        g.helper("raw", "void", "()", "%s* p = nullptr; (void)p; il::StringView* q = nullptr; (void)q;" % c)
        s.build()

    # content: [(guards(e)->[(poly, eq)], fn(e)->Term/Poly)]
    def check(s, cx, st, A, n, content, what, t=None, capmin=None, destroy=True, owned=()):
        cx.states += 1
        w = s.k.w
        n_ab = len(cx.E.aborts)
        cx.E.curins = None
        for x, v in cx.call(st.fork(), "size", [A]):
            if not cx.expect_val(x, v, n, "post", what + ": length"):
                continue
            x.add(v - n, True)
            if t is not None and not s.k.u16:
                for y, tv in cx.call(x.fork(), "type", [A]):
                    if callable(t):
                        for lo, tt in t(y):
                            z = y.fork()
                            if all(z.assume(*g_) for g_ in lo):
                                cx.expect_val(z, tv, C(32 * tt), "post", what + ": type of string")
                    else:
                        cx.expect_val(y, tv, C(32 * t), "post", what + ": type of string")
            for y, cp in cx.call(x, "cap", [A]):
                cx.expect(y, cp - n, "post", what + ": capacity below the length")
                if capmin is not None:
                    cx.expect(y, cp - capmin, "post", what + ": capacity below the reserved amount")
                for z, d in cx.call(y, "data", [A]):
                    if not isinstance(d, Ptr) or d.o is None:
                        cx.fail(z, "post", what + ": null data")
                        continue
                    o = z.objs.get(d.o)
                    if o is None or not o.alive:
                        cx.fail(z, "uaf", what + ": the storage was released")
                        continue
                    lim = o.size if d.o != A.o else C((s.k.mx + 1) * w)
                    if lim is not None:
                        cx.expect(z, lim - d.off - (cp + 1) * w, "bounds", what + ": capacity exceeds the storage")
                    for q, b in cx.call(z.fork(), "small", [A]):
                        bb = b if not isinstance(b, Poly) else b.const()
                        if bb in (True, False, 0, 1, -1):
                            if bool(bb) != (d.o == A.o):
                                cx.fail(q, "post", what + ": inline flag")
                    cx.expect_elem(z.fork(), Ptr(d.o, d.off + n * w), False, ZERO, "post", what + ": terminating null character", size=w)
                    for guards, fn in content:
                        e = fresh("e")
                        q = z.fork()
                        q.add(e)
                        ok = q.assume(n - 1 - e)
                        for p, eq in (guards(e) if guards else []):
                            ok = ok and q.assume(p, eq)
                        if ok:
                            cx.expect_elem(q, Ptr(d.o, d.off + e * w), False, fn(e) if fn else None, "post", what + ": character", size=w)
        if destroy:
            for x, _ in cx.call(st.fork(), "dtor", [A]):
                cx.leak_check(x, owned)
        cx.no_abort()
        del cx.E.aborts[n_ab:]

    def pre(s, cx, tag="a", ro=False, types=("ascii", "utf8"), reps=("small", "large")):
        for rep in reps:
            for t in ((0,) if s.k.u16 else [TYPES[x] for x in types]):
                st = cx.st()
                p, n, cap, d = s.k.make(cx, st, tag, rep, t, ro)
                yield st, p, n, cap, d, t

    def src(s, cx, st, n, tag="x", w=None, ro=True):
        """caller's characters: n of them"""
        w = w or s.k.w
        o = cx.obj(st, n * w, tag)
        j = T.new("j", "q")
        st.wobj(o).log = Node(None, Ev("w", S(j) * w, w, Term("init", tag, S(j)), [j], [(S(j), False), (n - 1 - S(j), False)]))
        st.wobj(o).ro = ro
        return Ptr(o, ZERO)

    def nab(s, cx):
        cx.no_abort()
        cx.E.aborts = []

    def two(s, n1, f1, n2, f2):
        """contents f1[0,n1) then f2[0,n2)"""
        return [(lambda e: [(n1 - 1 - e, False)], f1), (lambda e: [(e - n1, False)], lambda e: f2(e - n1))]

    def build(s):
        g, k = s.g, s.k
        cls, w = k.cls, k.w
        X = s.X
        case = g.case
        big = 1 << 20

        def nn(st, name="m"):
            v = fresh(name)
            st.add(v)
            st.add(C(big) - v)
            return v

        # ---- construction
        def c_default(cx):
            st = cx.st()
            A = Ptr(cx.obj(st, 24, "a"), ZERO)
            for x, _ in cx.run(st, [A]):
                s.check(cx, x, A, ZERO, [], "default string", t=0)
            s.nab(cx)
        case(X, "ctor_default", "(void* p)", "new (p) %s();" % cls, c_default)

        def c_copy(cx):
            for st, b, n, cap, d, t in s.pre(cx, "b", ro=True, types=TYPES):
                A = Ptr(cx.obj(st, 24, "a"), ZERO)
                for x, _ in cx.run(st, [A, b]):
                    s.check(cx, x, A, n, [(None, old("b"))], "copy", t=t, owned=(d.o,))
                    s.check(cx, x, b, n, [(None, old("b"))], "source of the copy", t=t, destroy=False)
                    s.separate(cx, x, A, b)
                s.nab(cx)
        case(X, "ctor_copy", "(void* p, const %s& b)" % cls, "new (p) %s(b);" % cls, c_copy)

        def c_move(cx):
            for st, b, n, cap, d, t in s.pre(cx, "b", types=TYPES):
                A = Ptr(cx.obj(st, 24, "a"), ZERO)
                for x, _ in cx.run(st, [A, b]):
                    s.check(cx, x, A, n, [(None, old("b"))], "moved string", t=t, destroy=False)
                    s.wellformed(cx, x, b, "source of the move")
                    s.both(cx, x, [A, b])
                s.nab(cx)
        case(X, "ctor_move", "(void* p, %s& b)" % cls, "new (p) %s(std::move(b));" % cls, c_move)

        def assign(move):
            def run(cx):
                for r1, t1 in (("small", 0), ("large", 0), ("small", 1), ("large", 1), ("small", 3), ("large", 3)):
                    if k.u16 and t1:
                        continue
                    for st, b, n, cap, d, t in s.pre(cx, "b", ro=not move, types=("ascii", "utf8")):
                        a, na, ca, da = k.make(cx, st, "a", r1, t1)
                        for x, _ in cx.run(st, [a, b]):
                            if move:
                                s.check(cx, x, a, n, [(None, old("b"))], "move-assigned string", t=t, destroy=False)
                                s.wellformed(cx, x, b, "source of the move")
                                s.both(cx, x, [a, b])
                            else:
                                s.check(cx, x, a, n, [(None, old("b"))], "assigned string", t=t, owned=(d.o,))
                                s.check(cx, x, b, n, [(None, old("b"))], "source of the assignment", t=t, destroy=False)
                                s.separate(cx, x, a, b)
                        s.nab(cx)
            return run
        case(X, "assign_copy", "(%s& a, const %s& b)" % (cls, cls), "a = b;", assign(False))
        case(X, "assign_move", "(%s& a, %s& b)" % (cls, cls), "a = std::move(b);", assign(True))

        def selfassign(cx):
            for st, a, n, cap, d, t in s.pre(cx):
                for x, _ in cx.run(st, [a, a]):
                    s.check(cx, x, a, n, [(None, old("a"))], "self-assigned string", t=t)
                s.nab(cx)
        case(X, "assign_self", "(%s& a, const %s& b)" % (cls, cls), "a = b;", selfassign)
        case(X, "assign_move_self", "(%s& a, %s& b)" % (cls, cls), "a = std::move(b);", selfassign)

        def destroy(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=TYPES):
                for x, _ in cx.run(st, [a]):
                    cx.leak_check(x)
                s.nab(cx)
        case(X, "destroy", "(%s& a)" % cls, "typedef %s C; a.~C();" % cls, destroy)

        def reserve(cx):
            for st, a, n, cap, d, t in s.pre(cx):
                m = nn(st)
                for x, _ in cx.run(st, [a, m]):
                    s.check(cx, x, a, n, [(None, old("a"))], "string", t=t, capmin=m)
                s.nab(cx)
        case(X, "reserve", "(%s& a, il::int_t n)" % cls, "a.Reserve(n);", reserve)

        def reserve_neg(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=("ascii",)):
                m = fresh("m")
                st.add(-m - 1)
                for x, _ in cx.run(st, [a, m]):
                    cx.fail(x, "unchecked", "a negative length is accepted")
                cx.E.aborts = []
        case(X, "reserve_negative", "(%s& a, il::int_t n)" % cls, "a.Reserve(n);", reserve_neg)

        # ---- appending one character
        def app_char(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=TYPES):
                c = fresh("ch")
                st.add(c)
                st.add(127 - c)
                for x, _ in cx.run(st, [a, c]):
                    s.check(cx, x, a, n + 1, s.two(n, old("a"), ONE, lambda e: c), "string after Append(char)", t=t)
                s.nab(cx)
        case(X, "append_char", "(%s& a, char c)" % cls, "a.Append(c);", app_char)

        def app_nchar(cx):
            for st, a, n, cap, d, t in s.pre(cx):
                c = fresh("ch")
                st.add(c)
                st.add(127 - c)
                m = nn(st)
                for x, _ in cx.run(st, [a, m, c]):
                    s.check(cx, x, a, n + m, s.two(n, old("a"), m, lambda e: c), "string after Append(n, char)", t=t)
                s.nab(cx)
        case(X, "append_nchar", "(%s& a, il::int_t n, char c)" % cls, "a.Append(n, c);", app_nchar)

        if k.u16:
            def app_str(self_):
                def run(cx):
                    for st, a, n, cap, d, t in s.pre(cx):
                        if self_:
                            for x, _ in cx.run(st, [a, a]):
                                s.check(cx, x, a, n * 2, s.two(n, old("a"), n, old("a")), "string appended to itself")
                        else:
                            for r in ("small", "large"):
                                st2 = st.fork()
                                b, nb, cb, db = k.make(cx, st2, "b", r, 0, True)
                                for x, _ in cx.run(st2, [a, b]):
                                    s.check(cx, x, a, n + nb, s.two(n, old("a"), nb, old("b")), "string after Append", owned=(db.o,))
                        s.nab(cx)
                return run
            case(X, "append_str", "(%s& a, const %s& b)" % (cls, cls), "a.Append(b);", app_str(False))
            case(X, "append_self", "(%s& a, const %s& b)" % (cls, cls), "a.Append(b);", app_str(True))
            return

        # ---- String only
        def c_tdn(cx):
            for t in TYPES.values():
                st = cx.st()
                m = nn(st)
                A = Ptr(cx.obj(st, 24, "a"), ZERO)
                p = s.src(cx, st, m)
                for x, _ in cx.run(st, [A, C(t * 32), p, m]):
                    s.check(cx, x, A, m, [(None, old("x"))], "constructed string", t=t)
                s.nab(cx)
        case(X, "ctor_data", "(void* p, int t, const char* s, il::int_t n)", "new (p) il::String(static_cast<il::StringType>(t), s, n);", c_tdn)

        def view_of(cx, st, n, t, p, name="v"):
            o = cx.obj(st, 24, name)
            d_, s_, t_ = cx.lay.get("il::StringView", "data_", "size_", "type_")
            cx.put(st, o, d_, 8, p)
            cx.put(st, o, s_, 8, Ptr(p.o, p.off + n) if p.o else p)
            cx.put(st, o, t_, 1, C(t * 32))
            st.wobj(o).ro = True
            return Ptr(o, ZERO)

        def c_view(cx):
            for t in (0, 1, 3):
                st = cx.st()
                m = nn(st)
                A = Ptr(cx.obj(st, 24, "a"), ZERO)
                v = view_of(cx, st, m, t, s.src(cx, st, m))
                for x, _ in cx.run(st, [A, v]):
                    s.check(cx, x, A, m, [(None, old("x"))], "string made from a view", t=t)
                s.nab(cx)
        case(X, "ctor_view", "(void* p, const il::StringView& v)", "new (p) il::String(v);", c_view)

        LITS = (1, 4, 23, 24, 33)
        for m in LITS:
            def lit(op, m=m):
                def run(cx):
                    if op == "ctor":
                        st = cx.st()
                        A = Ptr(cx.obj(st, 24, "a"), ZERO)
                        p = s.src(cx, st, C(m - 1), "x")
                        o = st.wobj(p.o)
                        o.size = C(m)
                        cx.put(st, p.o, m - 1, 1, ZERO)
                        for x, _ in cx.run(st, [A, p]):
                            s.check(cx, x, A, C(m - 1), [(None, old("x"))], "string made from a literal", t=1)
                        s.nab(cx)
                        return
                    for st, a, n, cap, d, t in s.pre(cx, types=TYPES if op == "append" else ("ascii", "wtf8")):
                        p = s.src(cx, st, C(m - 1), "x")
                        st.wobj(p.o).size = C(m)
                        cx.put(st, p.o, m - 1, 1, ZERO)
                        for x, _ in cx.run(st, [a, p]):
                            if op == "assign":
                                s.check(cx, x, a, C(m - 1), [(None, old("x"))], "string assigned from a literal", t=1)
                            elif op == "appendt":
                                s.check(cx, x, a, n + (m - 1), s.two(n, old("a"), C(m - 1), old("x")), "string after Append(literal)", t=max(t, 0))
                            else:
                                s.check(cx, x, a, n + (m - 1), s.two(n, old("a"), C(m - 1), old("x")), "string after Append(literal)", t=max(t, 1))
                        s.nab(cx)
                return run
            case(X, "ctor_lit%d" % m, "(void* p, const char (&x)[%d])" % m, "new (p) il::String(x);", lit("ctor"))
            case(X, "ctor_tlit%d" % m, "(void* p, const char (&x)[%d])" % m, "new (p) il::String(il::StringType::Utf8, x);", lit("ctor"))
            case(X, "assign_lit%d" % m, "(il::String& a, const char (&x)[%d])" % m, "a = x;", lit("assign"))
            case(X, "append_lit%d" % m, "(il::String& a, const char (&x)[%d])" % m, "a.Append(x);", lit("append"))
            case(X, "append_tlit%d" % m, "(il::String& a, const char (&x)[%d])" % m, "a.Append(il::StringType::Ascii, x);", lit("appendt"))

        def app_data(cx):
            for t2 in (0, 1, 2, 3):
                for st, a, n, cap, d, t in s.pre(cx, types=TYPES):
                    m = nn(st)
                    p = s.src(cx, st, m)
                    for x, _ in cx.run(st, [a, C(t2 * 32), p, m]):
                        s.check(cx, x, a, n + m, s.two(n, old("a"), m, old("x")), "string after Append(data)", t=max(t, t2))
                    s.nab(cx)
        case(X, "append_data", "(il::String& a, int t, const char* x, il::int_t n)", "a.Append(static_cast<il::StringType>(t), x, n);", app_data)

        def app_view(nv):
            def run(cx):
                for t2, at in [(0, 0)] + [(t2, at) for t2 in (1, 2, 3) for at in range(nv)]:
                    for st, a, n, cap, d, t in s.pre(cx, types=TYPES if nv == 1 else ("ascii", "utf8")):
                        args, ms = [a], []
                        for i in range(nv):
                            m = nn(st, "m%d" % i)
                            ms.append(m)
                            args.append(view_of(cx, st, m, t2 if i == at else 0, s.src(cx, st, m, "x%d" % i), "v%d" % i))
                        for x, _ in cx.run(st, args):
                            cont = [(lambda e: [(n - 1 - e, False)], old("a"))]
                            pos = n
                            for i in range(nv):
                                cont.append((lambda e, pos=pos, m=ms[i]: [(e - pos, False), (pos + m - 1 - e, False)], lambda e, pos=pos, i=i: Term("init", "x%d" % i, e - pos)))
                                pos = pos + ms[i]
                            s.check(cx, x, a, pos, cont, "string after Append(views)", t=max(t, t2))
                        s.nab(cx)
            return run
        for nv in (1, 2, 3):
            case(X, "append_view%d" % nv, "(il::String& a%s)" % "".join(", const il::StringView& v%d" % i for i in range(nv)), "a.Append(%s);" % ", ".join("v%d" % i for i in range(nv)), app_view(nv))

        def app_own(form):
            def run(cx):
                for st, a, n, cap, d, t in s.pre(cx, types=("utf8",)):
                    if form == "self":
                        for x, _ in cx.run(st, [a]):
                            s.check(cx, x, a, n * 2, s.two(n, old("a"), n, old("a")), "string appended to itself", t=t)
                    else:
                        i0, m = nn(st, "i"), nn(st)
                        if not st.assume(n - i0 - m):
                            continue
                        v = view_of(cx, st, m, t, Ptr(d.o, d.off + i0))
                        for x, _ in cx.run(st, [a, v]):
                            if form == "app":
                                s.check(cx, x, a, n + m, s.two(n, old("a"), m, lambda e: Term("init", "a", e + i0)), "string after appending a part of itself", t=t)
                            else:
                                s.check(cx, x, a, n + m * 2, [(lambda e: [(n - 1 - e, False)], old("a")), (lambda e: [(e - n, False), (n + m - 1 - e, False)], lambda e: Term("init", "a", e - n + i0)), (lambda e: [(e - n - m, False)], lambda e: Term("init", "a", e - n - m + i0))], "string after appending parts of itself", t=t)
                    s.nab(cx)
            return run
        case(X, "append_self", "(il::String& a)", "a.Append(a);", app_own("self"))
        case(X, "append_part", "(il::String& a, const il::StringView& v)", "a.Append(v);", app_own("app"))
        case(X, "append_part2", "(il::String& a, const il::StringView& v)", "a.Append(v, v);", app_own("app2"))

        # ---- insertion
        def ins(form, m=None):
            def run(cx):
                for st, a, n, cap, d, t in s.pre(cx, types=("ascii", "byte")):
                    i = nn(st, "i")
                    if not st.assume(n - i):
                        continue
                    t2 = t
                    if form == "char":
                        c = fresh("ch")
                        st.add(c)
                        st.add(127 - c)
                        args, mm, f = [a, i, c], ONE, lambda e: c
                    elif form == "nchar":
                        c = fresh("ch")
                        st.add(c)
                        st.add(127 - c)
                        mm = nn(st)
                        args, f = [a, i, mm, c], lambda e: c
                    elif form == "lit":
                        p = s.src(cx, st, C(m - 1), "x")
                        st.wobj(p.o).size = C(m)
                        cx.put(st, p.o, m - 1, 1, ZERO)
                        args, mm, f = [a, i, p], C(m - 1), old("x")
                        t2 = max(t, 1)
                    elif form == "data":
                        mm = nn(st)
                        args, f = [a, i, C(32), s.src(cx, st, mm), mm], old("x")
                        t2 = max(t, 1)
                    elif form == "view":
                        mm = nn(st)
                        args, f = [a, i, view_of(cx, st, mm, 1, s.src(cx, st, mm))], old("x")
                        t2 = max(t, 1)
                    else:
                        mm, i0 = nn(st), nn(st, "i0")
                        if not st.assume(n - i0 - mm):
                            continue
                        args, f = [a, i, view_of(cx, st, mm, t, Ptr(d.o, d.off + i0))], lambda e: Term("init", "a", e + i0)
                    for x, _ in cx.run(st, args):
                        s.check(cx, x, a, n + mm, [(lambda e: [(i - 1 - e, False)], old("a")), (lambda e: [(e - i, False), (i + mm - 1 - e, False)], lambda e: f(e - i)),
                                                    (lambda e: [(e - i - mm, False)], lambda e: Term("init", "a", e - mm))], "string after Insert", t=t2)
                    s.nab(cx)
            return run
        case(X, "insert_char", "(il::String& a, il::int_t i, char c)", "a.Insert(i, c);", ins("char"))
        case(X, "insert_nchar", "(il::String& a, il::int_t i, il::int_t n, char c)", "a.Insert(i, n, c);", ins("nchar"))
        for m in (1, 4, 33):
            case(X, "insert_lit%d" % m, "(il::String& a, il::int_t i, const char (&x)[%d])" % m, "a.Insert(i, x);", ins("lit", m))
        case(X, "insert_data", "(il::String& a, il::int_t i, int t, const char* x, il::int_t n)", "a.Insert(i, static_cast<il::StringType>(t), x, n);", ins("data"))
        case(X, "insert_view", "(il::String& a, il::int_t i, const il::StringView& v)", "a.Insert(i, v);", ins("view"))
        case(X, "insert_part", "(il::String& a, il::int_t i, const il::StringView& v)", "a.Insert(i, v);", ins("part"))

        def ins_bad(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=("ascii",)):
                i = fresh("i")
                for cons in (-i - 1, i - n - 1):
                    y = st.fork()
                    if not y.assume(cons):
                        continue
                    for x, _ in cx.run(y, [a, i, view_of(cx, y, C(2), 0, s.src(cx, y, C(2)))]):
                        cx.fail(x, "unchecked", "a position outside the string is accepted")
                    cx.E.aborts = []
        case(X, "insert_outside", "(il::String& a, il::int_t i, const il::StringView& v)", "a.Insert(i, v);", ins_bad)

        def clear(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=TYPES):
                for x, _ in cx.run(st, [a]):
                    s.check(cx, x, a, ZERO, [], "cleared string", t=0, capmin=cap)
                s.nab(cx)
        case(X, "clear", "(il::String& a)", "a.Clear();", clear)

        # ---- parts
        def part(what):
            def run(cx):
                for st, a, n, cap, d, t in s.pre(cx, types=("ascii", "byte"), ro=True):
                    R = Ptr(cx.obj(st, 24, "r"), ZERO)
                    i0, i1 = fresh("i"), fresh("i")
                    for x, _ in cx.run(st.fork(), [R, a, i0, i1]):
                        for p in (i0, i1 - i0, n - i1):
                            cx.expect(x, p, "unchecked", "a range outside the string is accepted")
                    cx.E.aborts = []
                    st.add(i0)
                    st.add(i1 - i0)
                    if not st.assume(n - i1):
                        continue
                    for x, _ in cx.run(st, [R, a, i0, i1]):
                        if what == "substring":
                            s.check(cx, x, R, i1 - i0, [(None, lambda e: Term("init", "a", e + i0))], "substring", t=t, owned=(d.o,))
                        else:
                            s.vcheck(cx, x, R, i1 - i0, Ptr(d.o, d.off + i0), t)
                    s.nab(cx)
            return run
        case(X, "substring", "(void* r, const il::String& a, il::int_t i, il::int_t j)", "new (r) il::String(a.substring(i, j));", part("substring"))
        case(X, "subview", "(void* r, const il::String& a, il::int_t i, il::int_t j)", "new (r) il::StringView(a.subview(i, j));", part("subview"))
        g.helper("vsize", "il::int_t", "(const il::StringView& a)", "return a.size();")
        g.helper("vdata", "const void*", "(const il::StringView& a)", "return a.data();")
        g.helper("vtype", "int", "(const il::StringView& a)", "return static_cast<int>(a.type());")

        def whole(cx):
            for st, a, n, cap, d, t in s.pre(cx, types=TYPES, ro=True):
                R = Ptr(cx.obj(st, 24, "r"), ZERO)
                for x, _ in cx.run(st, [R, a]):
                    s.vcheck(cx, x, R, n, d, t)
                s.nab(cx)
        case(X, "view", "(void* r, const il::String& a)", "new (r) il::StringView(a.view());", whole)
        case(X, "view_conv", "(void* r, const il::String& a)", "new (r) il::StringView(a);", whole)

        def vsub(cx):
            for t in (0, 3):
                st = cx.st()
                m = nn(st)
                p = s.src(cx, st, m)
                v = view_of(cx, st, m, t, p)
                R = Ptr(cx.obj(st, 24, "r"), ZERO)
                i0, i1 = fresh("i"), fresh("i")
                for x, _ in cx.run(st.fork(), [R, v, i0, i1]):
                    for q in (i0, i1 - i0, m - i1):
                        cx.expect(x, q, "unchecked", "a range outside the view is accepted")
                cx.E.aborts = []
                st.add(i0)
                st.add(i1 - i0)
                st.add(m - i1)
                for x, _ in cx.run(st, [R, v, i0, i1]):
                    s.vcheck(cx, x, R, i1 - i0, Ptr(p.o, p.off + i0), t)
                s.nab(cx)
        case(X, "view_subview", "(void* r, const il::StringView& a, il::int_t i, il::int_t j)", "new (r) il::StringView(a.subview(i, j));", vsub)

        def vrem(suffix):
            def run(cx):
                st = cx.st()
                m = nn(st)
                p = s.src(cx, st, m)
                v = view_of(cx, st, m, 0, p)
                st.wobj(v.o).ro = False
                i = fresh("i")
                for x, _ in cx.run(st.fork(), [v, i]):
                    for q in (i, m - i):
                        cx.expect(x, q, "unchecked", "a position outside the view is accepted")
                cx.E.aborts = []
                st.add(i)
                st.add(m - i)
                for x, _ in cx.run(st, [v, i]):
                    s.vcheck(cx, x, v, i if suffix else m - i, p if suffix else Ptr(p.o, p.off + i), 0)
                s.nab(cx)
            return run
        case(X, "remove_prefix", "(il::StringView& a, il::int_t i)", "a.removePrefix(i);", vrem(False))
        case(X, "remove_suffix", "(il::StringView& a, il::int_t i)", "a.removeSuffix(i);", vrem(True))

        def vindex(back):
            def run(cx):
                st = cx.st()
                m = nn(st)
                p = s.src(cx, st, m)
                v = view_of(cx, st, m, 0, p)
                i = fresh("i")
                for x, q in cx.run(st.fork(), [v, i]):
                    cx.expect(x, i, "unchecked", "an index outside the view is accepted")
                    cx.expect(x, m - 1 - i, "unchecked", "an index outside the view is accepted")
                cx.E.aborts = []
                st.add(i)
                if st.assume(m - 1 - i):
                    for x, q in cx.run(st, [v, i]):
                        cx.expect_val(x, q, Ptr(p.o, p.off + ((m - 1 - i) if back else i)), "post", "character of the view")
                s.nab(cx)
            return run
        case(X, "view_index", "(const il::StringView& a, il::int_t i)", "return &a[i];", vindex(False), ret="const char*")
        case(X, "view_back", "(const il::StringView& a, il::int_t i)", "return &a.back(i);", vindex(True), ret="const char*")

        # ---- joining
        for nv in range(2, 7):
            def join(cx, nv=nv):
                for tt, at in [(0, 0)] + [(tt, at) for at in range(nv) for tt in ((1, 2, 3) if at == nv // 2 else (1,))]:
                    st = cx.st()
                    R = Ptr(cx.obj(st, 24, "r"), ZERO)
                    args, ms = [R], []
                    for i in range(nv):
                        m = nn(st, "m%d" % i)
                        ms.append(m)
                        args.append(view_of(cx, st, m, tt if i == at else 0, s.src(cx, st, m, "x%d" % i), "v%d" % i))
                    for x, _ in cx.run(st, args):
                        pos, cont = ZERO, []
                        for i in range(nv):
                            cont.append((lambda e, pos=pos, m=ms[i]: [(e - pos, False), (pos + m - 1 - e, False)], lambda e, pos=pos, i=i: Term("init", "x%d" % i, e - pos)))
                            pos = pos + ms[i]
                        s.check(cx, x, R, pos, cont, "joined string", t=tt)
                    s.nab(cx)
            case(X, "join%d" % nv, "(void* r%s)" % "".join(", const il::StringView& v%d" % i for i in range(nv)), "new (r) il::String(il::join(%s));" % ", ".join("v%d" % i for i in range(nv)), join)
            if nv > 3:
                g.cases[-1].cost = 5

    def vcheck(s, cx, st, V, n, p, t):
        cx.states += 1
        for x, v in cx.call(st.fork(), "vsize", [V]):
            cx.expect_val(x, v, n, "post", "length of the view")
        for x, v in cx.call(st.fork(), "vdata", [V]):
            cx.expect_val(x, v, p, "post", "start of the view")
        for x, v in cx.call(st.fork(), "vtype", [V]):
            cx.expect_val(x, v, C(32 * t), "post", "type of the view")

    def wellformed(s, cx, st, A, what):
        for x, n in cx.call(st.fork(), "size", [A]):
            cx.expect(x, n, "post", what + ": negative length")
            s.check(cx, x, A, n, [], what, destroy=False)

    def both(s, cx, st, objs):
        todo = [st.fork()]
        for A in objs:
            todo = [y for x in todo for y, _ in cx.call(x, "dtor", [A])]
        for x in todo:
            cx.leak_check(x)

    def separate(s, cx, st, A, B_):
        for x, d in cx.call(st.fork(), "data", [A]):
            for y, e in cx.call(x, "data", [B_]):
                if isinstance(d, Ptr) and isinstance(e, Ptr) and d.o == e.o:
                    cx.fail(y, "post", "the two strings share their storage")


def groups():
    return [Suite(STR, "string", "X01").g, Suite(U16, "u16", "X03").g]
