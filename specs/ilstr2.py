"""il::String, il::StringView: searching, comparing and classifying characters. Lengths are enumerated up to a small bound, the
characters are unknown bytes; every loop is unrolled, every comparison of characters splits the abstract state."""
from harness import *
from ilstring import PRE, STR, U16, TYPES

PRE2 = PRE + '''
#include <il/container/string/algorithmString.h>
#include <il/container/string/unicode.h>
#include <cstring>
#include <cstdio>
'''


def outcomes(st, fn):
    """run the specification fn(ask) on every branch it distinguishes: ask(p) decides p == 0, ask.ge(p) decides p >= 0.
    yields (state, result)"""
    todo = [[]]
    while todo:
        dec = todo.pop()
        cur = [st.fork()]
        i = [0]

        def pick(opts):
            if not opts:
                return None
            if i[0] < len(dec):
                k = dec[i[0]]
            else:
                for k in range(1, len(opts)):
                    todo.append(dec[:i[0]] + [k])
                dec.append(0)
                k = 0
            i[0] += 1
            cur[0] = opts[k][0]
            return opts[k][1]

        class Dead(Exception):
            pass

        def ask(p):
            p = p if isinstance(p, Poly) else C(p)
            if p.const() is not None:
                return p.const() == 0
            o = []
            x = cur[0].fork()
            if x.assume(p, True):
                o.append((x, True))
            for q in (p - 1, -p - 1):
                x = cur[0].fork()
                if x.assume(q):
                    o.append((x, False))
            r = pick(o)
            if r is None:
                raise Dead()
            return r

        def ge(p):
            if p.const() is not None:
                return p.const() >= 0
            o = []
            x = cur[0].fork()
            if x.assume(p):
                o.append((x, True))
            x = cur[0].fork()
            if x.assume(-p - 1):
                o.append((x, False))
            r = pick(o)
            if r is None:
                raise Dead()
            return r
        ask.ge = ge
        try:
            r = fn(ask)
        except Dead:
            continue
        yield cur[0], r


def char(st, name="ch", lo=-128, hi=127):
    v = fresh(name)
    st.add(v - lo)
    st.add(C(hi) - v)
    return v


class Q:
    """concrete-length strings of unknown characters"""

    def __init__(s, cx):
        s.cx = cx
        cx.E.unroll_all = 60
        cx.E.max_steps = 3000000
        cx.E.endless = lambda st: cx.E.violate(st, "post", "the loop does not end")

    def chars(s, st, n, lo=-128, hi=127, name="ch"):
        return [char(st, name, lo, hi) for _ in range(n)]

    def buf(s, st, cs, name="x", term=False, w=1):
        o = s.cx.obj(st, (len(cs) + (1 if term else 0)) * w, name)
        for i, c in enumerate(cs):
            s.cx.put(st, o, i * w, w, c)
        if term:
            s.cx.put(st, o, len(cs) * w, w, ZERO)
        st.wobj(o).ro = True
        return Ptr(o, ZERO)

    def string(s, st, cs, t=3, rep="small", name="a", ro=True):
        cx = s.cx
        o = cx.obj(st, 24, name)
        n = len(cs)
        if rep == "small":
            h = o
        else:
            h = cx.E.new_obj(st, "heap", C(33), "data of " + name)
        for i, c in enumerate(cs):
            cx.put(st, h, i, 1, c)
        cx.put(st, h, n, 1, ZERO)
        if rep == "small":
            cx.put(st, o, 23, 1, C(n + 32 * t))
        else:
            cx.put(st, o, 0, 8, Ptr(h, ZERO))
            cx.put(st, o, 8, 8, C(n))
            cx.put(st, o, 16, 8, C(4 - (1 << 63) + t * (1 << 61)))
        if ro:
            st.wobj(o).ro = True
            st.wobj(h).ro = True
        return Ptr(o, ZERO)

    def view(s, st, cs, t=3, name="v", tail=(), ro=True):
        """a view of cs inside a longer piece of text"""
        cx = s.cx
        p = s.buf(st, list(cs) + list(tail), name + "_text")
        o = cx.obj(st, 24, name)
        d_, s_, t_ = cx.lay.get("il::StringView", "data_", "size_", "type_")
        cx.put(st, o, d_, 8, p)
        cx.put(st, o, s_, 8, Ptr(p.o, C(len(cs))))
        cx.put(st, o, t_, 1, C(t * 32))
        st.wobj(o).ro = ro
        return Ptr(o, ZERO)

    def cmp(s, st, v, fn, what, boolean=False):
        cx = s.cx
        cx.states += 1
        if boolean:
            vs = cx.E.split(st, cx.E.tobool(v))
        else:
            vs = [(st, v)]
        for x, b in vs:
            for y, r in outcomes(x, fn):
                if boolean:
                    cx.expect_val(y, C(1 if b else 0), C(1 if r else 0), "post", what)
                else:
                    cx.expect_val(y, b, r if isinstance(r, (Poly, Ptr)) else C(r), "post", what)

    def done(s):
        s.cx.no_abort()
        s.cx.E.aborts = []


def eqat(ask, a, b, k=0):
    return all(ask(a[k + i] - b[i]) for i in range(len(b)))


def find(ask, a, b):
    for k in range(len(a) - len(b) + 1):
        if eqat(ask, a, b, k):
            return k
    return -1


SPACE = (32, 12, 10, 13, 9, 11)


def isin(ask, c, vals):
    return any(ask(c - v) for v in vals)


def rng(ask, c, lo, hi):
    return ask.ge(c - lo) and ask.ge(C(hi) - c)


def digit(ask, c):
    return rng(ask, c, 48, 57)


def newline(ask, cs, i):
    if ask(cs[i] - 10):
        return True
    return i + 1 < len(cs) and ask(cs[i] - 13) and ask(cs[i + 1] - 10)


def queries():
    g = Group("strq", PRE2)
    g.life = "L04"
    X = "X02"
    N, M = 6, 3
    case = g.case
    reps = ("small", "large")

    # ---- String against a view / C string / string
    def search(form):
        def run(cx):
            q = Q(cx)
            for rep in reps:
                for n in range(N + 1):
                    for m in range(M + 1):
                        st = cx.st()
                        a = q.chars(st, n, name="a")
                        b = q.chars(st, m, name="b")
                        A = q.string(st, a, rep=rep)
                        if form == "member":
                            args = [A, q.view(st, b, tail=q.chars(st, 1))]
                        elif form == "views":
                            if rep == "large":
                                continue
                            args = [q.view(st, b, name="v", tail=q.chars(st, 1)), q.view(st, a, name="w", tail=q.chars(st, 1))]
                        elif form == "strings":
                            args = [q.string(st, b, name="b", rep=rep), A]
                        else:
                            if rep == "large":
                                continue
                            bb = q.chars(st, m, 1, 127, "b")
                            args = [q.buf(st, bb, term=True), q.view(st, a, name="w", tail=q.chars(st, 1))]
                            b = bb
                        for x, v in cx.run(st, args):
                            q.cmp(x, v, lambda ask: find(ask, a, b), "position of the text searched for")
                        q.done()
        return run
    case(X, "search_member", "(const il::String& a, const il::StringView& s)", "return a.search(s);", search("member"), ret="il::int_t")
    case(X, "search_views", "(const il::StringView& s, const il::StringView& a)", "return il::search(s, a);", search("views"), ret="il::int_t")
    case(X, "search_strings", "(const il::String& s, const il::String& a)", "return il::search(s, a);", search("strings"), ret="il::int_t")
    case(X, "search_cstring", "(const char* s, const il::StringView& a)", "return il::search(s, a);", search("cstring"), ret="il::int_t")

    def affix(start, kind):
        def run(cx):
            q = Q(cx)
            for rep in (reps if kind == "string" else ("view",)):
                for n in range(N + 1):
                    for m in range(M + 1):
                        st = cx.st()
                        a = q.chars(st, n, name="a")
                        if kind == "string":
                            b = q.chars(st, m, name="b")
                            args = [q.string(st, a, rep=rep), q.view(st, b, tail=q.chars(st, 1))]
                        else:
                            b = q.chars(st, m, 1, 127, "b")
                            args = [q.view(st, a, name="w", tail=q.chars(st, 1)), q.buf(st, b, term=True)]
                        for x, v in cx.run(st, args):
                            q.cmp(x, v, lambda ask: m <= n and eqat(ask, a, b, 0 if start else n - m), "%s with the text" % ("starts" if start else "ends"), True)
                        q.done()
        return run
    case(X, "startswith", "(const il::String& a, const il::StringView& s)", "return a.startsWith(s);", affix(True, "string"), ret="bool")
    case(X, "endswith", "(const il::String& a, const il::StringView& s)", "return a.endsWith(s);", affix(False, "string"), ret="bool")

    def endchar(cx):
        q = Q(cx)
        for rep in reps:
            for n in range(N + 1):
                st = cx.st()
                a = q.chars(st, n, name="a")
                c = char(st, "c")
                for x, v in cx.run(st, [q.string(st, a, rep=rep), c]):
                    q.cmp(x, v, lambda ask: n > 0 and ask(a[-1] - c), "ends with the character", True)
                q.done()
    case(X, "endswith_char", "(const il::String& a, char c)", "return a.endsWith(c);", endchar, ret="bool")

    def equal(form):
        def run(cx):
            q = Q(cx)
            for rep in reps:
                for n in range(N + 1):
                    for m in range(N + 1):
                        st = cx.st()
                        lo = 1 if form in ("cstr", "opeq_cl", "opeq_cr", "opne_cl", "opne_cr", "view") else -128
                        a = q.chars(st, n, -128 if form != "x" else 1, 127, name="a")
                        b = q.chars(st, m, lo, 127, "b")
                        if form == "view":
                            if rep == "large":
                                continue
                            A = q.view(st, a, name="w", tail=q.chars(st, 1))
                        else:
                            A = q.string(st, a, rep=rep)
                        if form == "opeq":
                            args = [A, q.string(st, b, name="b", rep=rep)]
                        elif form == "len":
                            args = [A, q.buf(st, b), C(m)]
                        else:
                            args = [A, q.buf(st, b, term=True)]
                        if form in ("opeq_cl", "opne_cl"):
                            args.reverse()
                        for x, v in cx.run(st, args):
                            q.cmp(x, v, lambda ask: (n == m and eqat(ask, a, b)) != form.startswith("opne"), "equality", True)
                        q.done()
        return run
    case(X, "equal_cstr", "(const il::String& a, const char* s)", "return a.isEqual(s);", equal("cstr"), ret="bool")
    case(X, "equal_len", "(const il::String& a, const char* s, il::int_t n)", "return a.isEqual(s, n);", equal("len"), ret="bool")
    case(X, "op_eq", "(const il::String& a, const il::String& b)", "return a == b;", equal("opeq"), ret="bool")
    case(X, "op_eq_cstr_left", "(const char* s, const il::String& b)", "return s == b;", equal("opeq_cl"), ret="bool")
    case(X, "op_eq_cstr_right", "(const il::String& a, const char* s)", "return a == s;", equal("opeq_cr"), ret="bool")
    case(X, "op_ne_cstr_left", "(const char* s, const il::String& b)", "return s != b;", equal("opne_cl"), ret="bool")
    case(X, "op_ne_cstr_right", "(const il::String& a, const char* s)", "return a != s;", equal("opne_cr"), ret="bool")
    case(X, "view_eq_cstr", "(const il::StringView& a, const char* s)", "return a == s;", equal("view"), ret="bool")

    def count(form):
        def run(cx):
            q = Q(cx)
            for rep in (reps if form == "member" else ("view",)):
                for n in range(N + 1):
                    st = cx.st()
                    a = q.chars(st, n, name="a")
                    c = char(st, "c", -128 if form == "member" else 0)
                    args = [q.string(st, a, rep=rep), c] if form == "member" else [c, q.view(st, a, name="w", tail=q.chars(st, 1))]
                    for x, v in cx.run(st, args):
                        q.cmp(x, v, lambda ask: sum(1 for d in a if ask(d - c)), "number of occurrences of the character")
                    q.done()
        return run
    case(X, "count", "(const il::String& a, char c)", "return a.count(c);", count("member"), ret="il::int_t")
    case(X, "count_view", "(char c, const il::StringView& a)", "return il::count(c, a);", count("view"), ret="il::int_t")

    def simple(fn, what, boolean=False, cstr=False):
        def run(cx):
            q = Q(cx)
            for rep in (("c",) if cstr else reps):
                for t in ((0,) if cstr else (0, 1, 3)):
                    for n in range(N + 1):
                        st = cx.st()
                        a = q.chars(st, n, 1 if cstr and cstr != "s" else -128, 127, name="a")
                        if cstr:
                            a = [a_ for a_ in a]
                        A = q.buf(st, a, term=True) if cstr else q.string(st, a, t=t, rep=rep)
                        for i in range(n):
                            if cstr:
                                for p in (a[i] - 1, -a[i] - 1):
                                    pass
                        for x, v in cx.run(st, [A]):
                            q.cmp(x, v, lambda ask: fn(ask, a, t), what, boolean)
                        q.done()
        return run
    case(X, "isempty", "(const il::String& a)", "return a.isEmpty();", simple(lambda ask, a, t: not a, "emptiness", True), ret="bool")
    case(X, "isascii_tag", "(const il::String& a)", "return a.isAscii();", simple(lambda ask, a, t: t == 0, "ASCII string", True), ret="bool")
    case(X, "isutf8_tag", "(const il::String& a)", "return a.isUtf8();", simple(lambda ask, a, t: t in (0, 1), "UTF-8 string", True), ret="bool")
    case(X, "size_cstr", "(const char* s)", "return il::size(s);", simple(lambda ask, a, t: len(a), "length of the C string", cstr=True), ret="il::int_t")
    case(X, "view_cstr", "(const char* s)", "return il::view(s).size();", simple(lambda ask, a, t: len(a), "length of the view", cstr=True), ret="il::int_t")

    def ascii_(cx):
        q = Q(cx)
        for n in range(N + 1):
            st = cx.st()
            a = q.chars(st, n, name="a")
            for x, v in cx.run(st, [q.buf(st, a), C(n)]):
                q.cmp(x, v, lambda ask: all(ask.ge(d) for d in a), "all the characters are ASCII", True)
            q.done()
    case(X, "isascii", "(const char* s, il::int_t n)", "return il::isAscii(s, n);", ascii_, ret="bool")

    def found(cx):
        q = Q(cx)
        st = cx.st()
        A = q.string(st, [])
        i = fresh("i")
        for x, v in cx.run(st, [A, i]):
            q.cmp(x, v, lambda ask: ask.ge(i), "a position is found when it is not negative", True)
        q.done()
    case(X, "found", "(const il::String& a, il::int_t i)", "return a.found(i);", found, ret="bool")

    # ---- characters of a view
    def at(fn, what):
        def run(cx):
            q = Q(cx)
            for n in range(N + 1):
                for i in range(n):
                    st = cx.st()
                    a = q.chars(st, n, name="a")
                    tail = q.chars(st, 2)
                    for x, v in cx.run(st, [q.view(st, a, tail=tail), C(i)]):
                        q.cmp(x, v, lambda ask: fn(ask, a, i), what, True)
                    q.done()
                # positions outside
                for i in (-1, n, n + 1):
                    st = cx.st()
                    a = q.chars(st, n, name="a")
                    for x, v in cx.run(st, [q.view(st, a, tail=q.chars(st, 3)), C(i)]):
                        cx.fail(x, "unchecked", "a position outside the view is accepted")
                    cx.E.aborts = []
        return run
    case(X, "has_space", "(const il::StringView& a, il::int_t i)", "return a.hasSpace(i);", at(lambda ask, a, i: isin(ask, a[i], SPACE), "white space"), ret="bool")
    case(X, "has_digit", "(const il::StringView& a, il::int_t i)", "return a.hasDigit(i);", at(lambda ask, a, i: digit(ask, a[i]), "digit"), ret="bool")
    case(X, "has_hexa", "(const il::StringView& a, il::int_t i)", "return a.hasHexaDecimal(i);", at(lambda ask, a, i: digit(ask, a[i]) or rng(ask, a[i], 97, 102) or rng(ask, a[i], 65, 70), "hexadecimal digit"), ret="bool")
    case(X, "has_newline", "(const il::StringView& a, il::int_t i)", "return a.hasNewLine(i);", at(lambda ask, a, i: newline(ask, a, i), "new line"), ret="bool")

    def nxt(fn, what, c=False):
        def run(cx):
            q = Q(cx)
            for n in range(N + 1):
                for i in range(n + 1):
                    st = cx.st()
                    a = q.chars(st, n, name="a")
                    args = [q.view(st, a, tail=q.chars(st, 2)), C(i)]
                    cc = char(st, "c")
                    if c:
                        args.append(cc)
                    for x, v in cx.run(st, args):
                        q.cmp(x, v, lambda ask: next((k for k in range(i, n) if fn(ask, a, k, cc)), -1), what)
                    q.done()
        return run
    case(X, "next_char", "(const il::StringView& a, il::int_t i, char c)", "return a.nextChar(i, c);", nxt(lambda ask, a, k, c: ask(a[k] - c), "next position of the character", True), ret="il::int_t")
    case(X, "next_digit", "(const il::StringView& a, il::int_t i)", "return a.nextDigit(i);", nxt(lambda ask, a, k, c: digit(ask, a[k]), "next digit"), ret="il::int_t")

    def starts(fn, what, minn):
        def run(cx):
            q = Q(cx)
            for n in range(minn, N + 1):
                st = cx.st()
                a = q.chars(st, n, name="a")
                for x, v in cx.run(st, [q.view(st, a, tail=q.chars(st, 2))]):
                    q.cmp(x, v, lambda ask: fn(ask, a), what, True)
                q.done()
        return run
    case(X, "starts_newline", "(const il::StringView& a)", "return a.startsWithNewLine();", starts(lambda ask, a: len(a) > 0 and newline(ask, a, 0), "starts with a new line", 0), ret="bool")
    case(X, "starts_digit", "(const il::StringView& a)", "return a.startsWithDigit();", starts(lambda ask, a: digit(ask, a[0]), "starts with a digit", 1), ret="bool")

    g.helper("vsize", "il::int_t", "(const il::StringView& a)", "return a.size();")
    g.helper("vdata", "const void*", "(const il::StringView& a)", "return a.data();")

    def trim(free):
        def run(cx):
            q = Q(cx)
            for n in range(N + 1):
                st = cx.st()
                a = q.chars(st, n, name="a")
                V = q.view(st, a, tail=q.chars(st, 2), ro=bool(free))
                p = st.objs[V.o].cells[0][2]
                R = V
                args = [V]
                if free:
                    R = Ptr(cx.obj(st, 24, "r"), ZERO)
                    args = [R, V]

                def spec(ask):
                    k = 0
                    while k < n and isin(ask, a[k], (32, 9)):
                        k += 1
                    return k
                for x, _ in cx.run(st, args):
                    for y, k in outcomes(x, spec):
                        for z, v in cx.call(y.fork(), "vsize", [R]):
                            cx.expect_val(z, v, C(n - k), "post", "length of the trimmed view")
                        for z, v in cx.call(y.fork(), "vdata", [R]):
                            cx.expect_val(z, v, Ptr(p.o, p.off + k), "post", "start of the trimmed view")
                q.done()
        return run
    case(X, "trim_prefix", "(il::StringView& a)", "a.trimPrefix();", trim(False))
    case(X, "remove_white_left", "(void* r, const il::StringView& a)", "new (r) il::StringView(il::removeWhitespaceLeft(a));", trim(True))
    return g


# ---------------------------------------------------------------------------------------------- UTF-8 / UTF-16
def utf8(r):
    """-> list of (guards on r, [bytes as functions of the digits])"""


class Rune:
    """an unknown code point of a given class, written in base 64"""

    def __init__(s, st, nb, sur=None):
        d = []
        if nb == 1:
            s.r = char(st, "r", 0, 127)
            s.b = [s.r]
        else:
            lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[nb]
            top = char(st, "d", 2 if nb == 2 else 0, {2: 31, 3: 15, 4: 4}[nb])
            lo = [char(st, "d", 0, 63) for _ in range(nb - 1)]
            r = top
            for x in lo:
                r = r * 64 + x
            s.r = r
            s.b = [top + (lead - 256)] + [x - 128 for x in lo]
            s.ok = st.assume(r - {2: 0x80, 3: 0x800, 4: 0x10000}[nb]) and st.assume(C(0x10FFFF) - r)
            if nb == 3:
                s.ok = s.ok and (st.assume(C(0xD7FF) - r) if sur == 0 else st.assume(r - 0xE000))


CLASSES = ((1, None), (2, None), (3, 0), (3, 1), (4, None))


def unicode():
    g = Group("unicode", PRE2)
    g.life = "L04"
    X = "X04"
    case = g.case
    g.helper("size", "il::int_t", "(const il::String& a)", "return a.size();")
    g.helper("data", "const void*", "(const il::String& a)", "return a.data();")
    g.helper("type", "int", "(const il::String& a)", "return static_cast<int>(a.type());")
    g.helper("dtor", "void", "(il::String& a)", "a.~String();")
    g.helper("wsize", "il::int_t", "(const il::UTF16String& a)", "return a.size();")
    g.helper("wdata", "const void*", "(const il::UTF16String& a)", "return a.data();")
    g.helper("wdtor", "void", "(il::UTF16String& a)", "a.~UTF16String();")

    def content(cx, st, A, exp, what, w=1, t=None, pre=""):
        cx.states += 1
        for x, n in cx.call(st.fork(), pre + "size", [A]):
            if not cx.expect_val(x, n, C(len(exp)), "post", what + ": length"):
                continue
            for y, d in cx.call(x, pre + "data", [A]):
                for i, e in enumerate(exp + [ZERO]):
                    cx.expect_elem(y.fork(), Ptr(d.o, d.off + i * w), False, e, "post", what + (": character" if i < len(exp) else ": terminating null character"), size=w)
        if t is not None:
            for x, v in cx.call(st.fork(), "type", [A]):
                cx.expect_val(x, v, C(32 * t), "post", what + ": type")
        for x, _ in cx.call(st.fork(), pre + "dtor", [A]):
            cx.leak_check(x)

    # ---- appending a rune
    def app(nrep):
        def run(cx):
            q = Q(cx)
            for n0, rep in ((0, "small"), (3, "small"), (20, "small"), (22, "small"), (3, "large"), (30, "large"), (32, "large")):
                for nb, sur in CLASSES:
                    for k in ((None,) if not nrep else (0, 1, 2)):
                        st = cx.st()
                        a = q.chars(st, n0, 0, 127, "a")
                        A = q.string(st, a, t=0, rep=rep, ro=False)
                        r = Rune(st, nb, sur)
                        kk = 1 if k is None else k
                        for x, _ in cx.run(st, [A] + ([C(k)] if nrep else []) + [r.r]):
                            content(cx, x, A, a + r.b * kk, "string after appending a rune", t=0 if nb == 1 else 1)
                        q.done()
        return run
    case(X, "append_rune", "(il::String& a, int r)", "a.Append(r);", app(False))
    case(X, "append_nrune", "(il::String& a, il::int_t n, int r)", "a.Append(n, r);", app(True))

    def notrune(cls16):
        def run(cx):
            q = Q(cx)
            for lo, hi in ((-(1 << 20), -1), (0xD800, 0xDFFF), (0x110000, 0x200000)):
                st = cx.st()
                if cls16:
                    A = wstring(q, st, [])
                else:
                    A = q.string(st, [], t=0, ro=False)
                r = char(st, "r", lo, hi)
                for x, _ in cx.run(st, [A, r]):
                    cx.fail(x, "unchecked", "a number that is not a Unicode scalar value is appended")
                cx.E.aborts = []
        return run
    case(X, "append_notrune", "(il::String& a, int r)", "a.Append(r);", notrune(False))

    def isrune(cx):
        q = Q(cx)
        st = cx.st()
        r = fresh("r")
        st.add(r + (1 << 27))
        st.add(C(1 << 27) - r)
        for x, v in cx.run(st, [r]):
            q.cmp(x, v, lambda ask: ask.ge(r) and ask.ge(C(0x10FFFF) - r) and not (ask.ge(r - 0xD800) and ask.ge(C(0xDFFF) - r)), "Unicode scalar value", True)
        q.done()
    case(X, "isrune", "(int r)", "return il::isRune(r);", isrune, ret="bool")

    # ---- decoding
    def decode(what):
        def run(cx):
            q = Q(cx)
            for pre_ in (0, 2):
                for nb, sur in CLASSES:
                    for after in (None, 0, 1, 2):
                        st = cx.st()
                        a = q.chars(st, pre_, 0, 127, "a")
                        r = Rune(st, nb, sur)
                        tail = [] if after is None else ([char(st, "a", 0, 127)] if after == 0 else (Rune(st, 2).b if after == 1 else Rune(st, 4).b))
                        V = q.view(st, a + r.b + tail, t=1)
                        for x, v in cx.run(st, [V, C(pre_)]):
                            cx.states += 1
                            if what == "rune":
                                cx.expect_val(x, v, r.r, "post", "rune at the position")
                            else:
                                cx.expect_val(x, v, C(pre_ + nb), "post", "position of the next rune")
                        q.done()
        return run
    case(X, "rune", "(const il::StringView& a, il::int_t i)", "return a.rune(i);", decode("rune"), ret="int")
    case(X, "next_rune", "(const il::StringView& a, il::int_t i)", "return a.nextRune(i);", decode("next"), ret="il::int_t")

    def boundary(cx):
        q = Q(cx)
        for nb, sur in CLASSES:
            for i in range(nb + 2):
                st = cx.st()
                r = Rune(st, nb, sur)
                A = q.string(st, r.b + [char(st, "a", 0, 127)], t=1)
                for x, v in cx.run(st, [A, C(i)]):
                    q.cmp(x, v, lambda ask: i == 0 or i >= nb, "boundary of a rune", True)
                q.done()
    case(X, "boundary", "(const il::String& a, il::int_t i)", "return a.isRuneBoundary(i);", boundary, ret="bool")

    # ---- UTF-16
    def wstring(q, st, cs, name="a", ro=False, rep="small"):
        cx = q.cx
        o = cx.obj(st, 24, name)
        h = o
        if rep == "large":
            h = cx.E.new_obj(st, "heap", C(2 * 25), "data of " + name)
        for i, c in enumerate(cs):
            cx.put(st, h, 2 * i, 2, c)
        cx.put(st, h, 2 * len(cs), 2, ZERO)
        if rep == "small":
            cx.put(st, o, 22, 2, C(11 - len(cs)))
        else:
            cx.put(st, o, 0, 8, Ptr(h, ZERO))
            cx.put(st, o, 8, 8, C(len(cs)))
            cx.put(st, o, 16, 8, C(24 - (1 << 63)))
        if ro:
            st.wobj(o).ro = True
            st.wobj(h).ro = True
        return Ptr(o, ZERO)

    def unit(v):
        """a 16-bit unit as the interpreter's signed value, for a polynomial known to be on one side"""
        return v

    class R16:
        def __init__(s, st, c):
            lo, hi = ((0, 0x7FFF), (0x8000, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF))[c]
            if c < 3:
                s.r = char(st, "r", lo, hi)
                s.u = [s.r if c == 0 else s.r - 65536]
            else:
                x, y = char(st, "h", 0, 1023), char(st, "l", 0, 1023)
                s.r = x * 1024 + y + 65536
                s.u = [x + (0xD800 - 65536), y + (0xDC00 - 65536)]

    def wapp(nrep):
        def run(cx):
            q = Q(cx)
            for n0, rep in ((0, "small"), (2, "small"), (10, "small"), (11, "small"), (2, "large"), (24, "large")):
                for c in range(4):
                    for k in ((None,) if not nrep else (0, 1, 2)):
                        st = cx.st()
                        a = q.chars(st, n0, 0, 127, "a")
                        A = wstring(q, st, a, rep=rep)
                        r = R16(st, c)
                        kk = 1 if k is None else k
                        for x, _ in cx.run(st, [A] + ([C(k)] if nrep else []) + [r.r]):
                            content(cx, x, A, a + r.u * kk, "string after appending a rune", w=2, pre="w")
                        q.done()
        return run
    case(X, "w_append_rune", "(il::UTF16String& a, int r)", "a.Append(r);", wapp(False))
    case(X, "w_append_nrune", "(il::UTF16String& a, il::int_t n, int r)", "a.Append(n, r);", wapp(True))
    case(X, "w_append_notrune", "(il::UTF16String& a, int r)", "a.Append(r);", notrune(True))

    def wdecode(what):
        def run(cx):
            q = Q(cx)
            for rep in ("small", "large"):
                for pre_ in (0, 2):
                    for c in range(4):
                        for after in range(-1, 4):
                            st = cx.st()
                            a = q.chars(st, pre_, 0, 127, "a")
                            r = R16(st, c)
                            tail = [] if after < 0 else R16(st, after).u
                            A = wstring(q, st, a + r.u + tail, rep=rep, ro=True)
                            for x, v in cx.run(st, [A, C(pre_)]):
                                cx.states += 1
                                cx.expect_val(x, v, r.r if what == "rune" else C(pre_ + len(r.u)), "post", "rune at the position" if what == "rune" else "position of the next rune")
                            q.done()
        return run
    case(X, "w_rune", "(const il::UTF16String& a, il::int_t i)", "return a.rune(i);", wdecode("rune"), ret="int")
    case(X, "w_next_rune", "(const il::UTF16String& a, il::int_t i)", "return a.nextRune(i);", wdecode("next"), ret="il::int_t")

    def wequal(cx):
        q = Q(cx)
        for rep in ("small", "large"):
            for n in range(4):
                for m in range(4):
                    st = cx.st()
                    a = q.chars(st, n, -32768, 32767, "a")
                    b = q.chars(st, m, -32768, 32767, "b")
                    A, B_ = wstring(q, st, a, ro=True, rep=rep), wstring(q, st, b, "b", ro=True)
                    for x, v in cx.run(st, [A, B_]):
                        q.cmp(x, v, lambda ask: n == m and eqat(ask, a, b), "equality", True)
                    q.done()
    case(X, "w_equal", "(const il::UTF16String& a, const il::UTF16String& b)", "return a == b;", wequal, ret="bool")

    def wctor(cx):
        q = Q(cx)
        for n in (0, 1, 3, 11, 12):
            st = cx.st()
            a = q.chars(st, n, 1, 32767, "a")
            A = Ptr(cx.obj(st, 24, "a"), ZERO)
            for x, _ in cx.run(st, [A, q.buf(st, a, term=True, w=2)]):
                content(cx, x, A, a, "string made from a null-terminated text", w=2, pre="w")
            q.done()
    case(X, "w_ctor", "(void* p, const char16_t* s)", "new (p) il::UTF16String(s);", wctor)

    # ---- conversions
    PAIRS = [[], [0], [1], [2], [3], [0, 2], [3, 1], [2, 2]]
    C8 = [(1, None), (2, None), (3, 0), (3, 1), (4, None)]

    def both(st, k):
        """a code point with its two encodings; classes 0: ascii, 1: two bytes, 2: three bytes below the surrogates and below 2^15, 3: four bytes"""
        if k < 3:
            r = Rune(st, (1, 2, 3)[k], 0 if k == 2 else None)
            if k == 2:
                st.assume(C(0x7FFF) - r.r)
            return r.r, r.b, [r.r]
        # four bytes: r - 0x10000 = h*1024 + l ; l = l1*64 + l0 ; h = 0..1023
        t, m_, l1, l0 = char(st, "d", 0, 4), char(st, "d", 0, 63), char(st, "d", 0, 15), char(st, "d", 0, 63)
        k1 = char(st, "d", 0, 3)
        # r = t*2^18 + m*2^12 + (k1*16+l1)*64 + l0
        r = t * (1 << 18) + m_ * (1 << 12) + (k1 * 16 + l1) * 64 + l0
        st.assume(r - 0x10000)
        st.assume(C(0x10FFFF) - r)
        return r, [t + (0xF0 - 256), m_ - 128, k1 * 16 + l1 - 128, l0 - 128], [t * 256 + m_ * 4 + k1 - 64 + (0xD800 - 65536), l1 * 64 + l0 + (0xDC00 - 65536)]

    def conv(to16):
        def run(cx):
            q = Q(cx)
            for ks in PAIRS:
                st = cx.st()
                b8, b16 = [], []
                for k in ks:
                    r, x8, x16 = both(st, k)
                    b8 += x8
                    b16 += x16
                R = Ptr(cx.obj(st, 24, "r"), ZERO)
                if to16:
                    for x, _ in cx.run(st, [R, q.string(st, b8, t=1)]):
                        content(cx, x, R, b16, "conversion to UTF-16", w=2, pre="w")
                else:
                    for x, _ in cx.run(st, [R, wstring(q, st, b16, ro=True)]):
                        content(cx, x, R, b8, "conversion to UTF-8")
                q.done()
        return run
    def snprintf(E, st, name, args):
        """effect summary of snprintf of one integer: m >= 1 characters, at most size - 1 of them are stored, then a null character"""
        dst, size, fmt = args[0], args[1].const(), args[2]
        txt = ""
        o = st.objs.get(fmt.o)
        k = fmt.off.const()
        while o is not None and k in o.cells and o.cells[k][2].const():
            txt += chr(o.cells[k][2].const())
            k += 1
        if txt not in ("%td", "%ld", "%lld", "%jd", "%zd", "%d", "%i") or size is None:
            raise Unsupported("snprintf format " + txt)
        op = "decimal" if len(txt) > 2 else "decimal of the low half"
        out = []
        for m in range(1, 21):
            x = st.fork()
            ml = fresh("digits")
            x.add(ml - m, True)
            w = min(m, size - 1)
            if size > 0:
                if E.check_access(x, dst, w + 1, "snprintf") is None:
                    continue
                for i in range(w):
                    E.put(x, dst.o, dst.off + i, 1, Term(op, args[3], C(i), C(m)))
                E.put(x, dst.o, dst.off + w, 1, ZERO)
            out.append((x, C(m)))
            E.lens = getattr(E, "lens", {})
        return out

    def tostr(cx):
        q = Q(cx)
        cx.E.models["@snprintf"] = snprintf
        st = cx.st()
        R = Ptr(cx.obj(st, 24, "r"), ZERO)
        k = fresh("n")
        for x, _ in cx.run(st, [R, k]):
            # the number of characters the conversion produced is the only "digits" symbol of the state
            m = next((-p.c0() if p.coef1(i)[0].const() == 1 else p.c0() for p, e in x.cons if e for i in p.syms() if symname(i).startswith("digits")), None)
            if m is None:
                continue
            content(cx, x, R, [Term("decimal", k, C(i), C(m)) for i in range(m)], "text of an integer", t=0)
        q.done()
    case(X, "tostring", "(void* r, il::int_t n)", "new (r) il::String(il::toString(n));", tostr)
    case(X, "to_utf16", "(void* r, const il::String& a)", "new (r) il::UTF16String(il::toUtf16(a));", conv(True))
    case(X, "to_utf8", "(void* r, const il::UTF16String& a)", "new (r) il::String(il::toUtf8(a));", conv(False))
    return g


def hashing():
    g = Group("hashfn", PRE2 + "#include <il/container/hash/HashFunction.h>\n")
    g.life = "L04"
    X = "H05"
    case = g.case
    SH = "il::HashFunction<il::String>"

    g.helper("s_empty", "bool", "(const il::String& s)", "return %s::isEmpty(s);" % SH)
    g.helper("s_tomb", "bool", "(const il::String& s)", "return %s::isTombstone(s);" % SH)
    g.helper("s_dtor", "void", "(il::String& s)", "s.~String();")
    for T, nm in (("int", "i"), ("long", "l")):
        g.helper(nm + "_empty", "bool", "(const %s& s)" % T, "return il::HashFunction<%s>::isEmpty(s);" % T)
        g.helper(nm + "_tomb", "bool", "(const %s& s)" % T, "return il::HashFunction<%s>::isTombstone(s);" % T)

    def flag(cx, st, fn, A, want, what):
        for x, v in cx.call(st.fork(), fn, [A]):
            for y, b in cx.E.split(x, cx.E.tobool(v)):
                cx.states += 1
                cx.expect_val(y, C(int(b)), C(int(want)), "post", what)

    def sentinel(nm, tomb):
        def run(cx):
            q = Q(cx)
            st = cx.st()
            A = Ptr(cx.obj(st, 24 if nm == "s" else (4 if nm == "i" else 8), "a"), ZERO)
            for x, _ in cx.run(st, [A]):
                flag(cx, x, nm + "_empty", A, not tomb, "the marker of %s bucket is recognised as empty" % ("a removed" if tomb else "an empty"))
                flag(cx, x, nm + "_tomb", A, tomb, "the marker of %s bucket is recognised as removed" % ("a removed" if tomb else "an empty"))
                if nm == "s":
                    for y, _ in cx.call(x.fork(), "s_dtor", [A]):
                        cx.leak_check(y)
            q.done()
        return run
    for T, nm in (("int", "i"), ("long", "l"), ("il::String", "s")):
        case(X, "empty_" + nm, "(%s* s)" % T, "il::HashFunction<%s>::constructEmpty(il::io, s);" % T, sentinel(nm, False))
        case(X, "tomb_" + nm, "(%s* s)" % T, "il::HashFunction<%s>::constructTombstone(il::io, s);" % T, sentinel(nm, True))

    def keynot(cx):
        q = Q(cx)
        for t in TYPES.values():
            for n in range(23):
                st = cx.st()
                A = q.string(st, q.chars(st, n), t=t)
                for x, v in cx.run(st, [A]):
                    q.cmp(x, v, lambda ask: False, "a string is taken for the marker of a bucket without element", True)
                q.done()
            st = cx.st()
            A, n, cap, d = STR.make(cx, st, "a", "large", t, True)
            for x, v in cx.run(st, [A]):
                q.cmp(x, v, lambda ask: False, "a string is taken for the marker of a bucket without element", True)
            q.done()
    case(X, "string_not_marker", "(const il::String& s)", "return %s::isEmpty(s) || %s::isTombstone(s);" % (SH, SH), keynot, ret="bool")

    def intnot(lo, hi, cst):
        def run(cx):
            q = Q(cx)
            st = cx.st()
            k = char(st, "k", lo, hi)
            for x, v in cx.run(st, [k]):
                q.cmp(x, v, lambda ask: False, "a key is taken for the marker of a bucket without element", True)
            q.done()
        return run
    case(X, "int_not_marker", "(int k)", "return il::HashFunction<int>::isEmpty(k) || il::HashFunction<int>::isTombstone(k);", intnot(-(1 << 31) + 2, (1 << 31) - 1, 0), ret="bool")
    case(X, "long_not_marker", "(long k)", "return il::HashFunction<long>::isEmpty(k) || il::HashFunction<long>::isTombstone(k);", intnot(-(1 << 26), 1 << 26, 0), ret="bool")

    def eqint(cx):
        q = Q(cx)
        st = cx.st()
        a, b = char(st, "k", -(1 << 26), 1 << 26), char(st, "k", -(1 << 26), 1 << 26)
        for x, v in cx.run(st, [a, b]):
            q.cmp(x, v, lambda ask: ask(a - b), "equality of keys", True)
        q.done()
    case(X, "int_equal", "(int a, int b)", "return il::HashFunction<int>::isEqual(a, b);", eqint, ret="bool")
    case(X, "long_equal", "(long a, long b)", "return il::HashFunction<long>::isEqual(a, b);", eqint, ret="bool")

    PS = (1, 2, 3, 7, 16, 30)

    def inthash(cx):
        q = Q(cx)
        for p in PS + (31, 40):
            for k in (ZERO, None):
                st = cx.st()
                k = char(st, "k", -(1 << 26), 1 << 26) if k is None else k
                for x, v in cx.run(st, [k, C(p)]):
                    cx.states += 1
                    if isinstance(v, Poly):
                        cx.expect(x, v, "post", "the hash is a bucket of the table")
                        cx.expect(x, C((1 << p) - 1) - v, "post", "the hash is a bucket of the table")
                    else:
                        cx.expect_val(x, v, ZERO, "post", "the hash is a bucket of the table")
                q.done()
    case(X, "int_hash", "(int k, int p)", "return il::HashFunction<int>::hash(k, p);", inthash, ret="std::size_t")
    case(X, "long_hash", "(long k, int p)", "return il::HashFunction<long>::hash(k, p);", inthash, ret="std::size_t")

    g.helper("h_c", "std::size_t", "(const char* s, il::int_t n, int p)", "return %s::hash(s, n, p);" % SH)
    for m in (1, 2, 4):
        g.helper("h_l%d" % m, "std::size_t", "(const char (&s)[%d], int p)" % m, "return %s::hash(s, p);" % SH)

    def strhash(cx):
        q = Q(cx)
        for p in PS:
            for n in range(6):
                st = cx.st()
                a = q.chars(st, n, name="a")
                A, L, Z = q.string(st, a), q.string(st, a, rep="large", name="b", t=1), q.buf(st, a, term=True)
                for x, v in cx.run(st, [A, C(p)]):
                    cx.states += 1
                    if not isinstance(v, Poly):
                        cx.expect_val(x, v, ZERO, "post", "hash")
                        continue
                    cx.expect(x, v, "post", "the hash is a bucket of the table")
                    cx.expect(x, C((1 << p) - 1) - v, "post", "the hash is a bucket of the table")
                    for y, w in cx.run(x.fork(), [L, C(p)]):
                        cx.expect_val(y, w, v, "post", "equal strings have the same hash")
                    for y, w in cx.call(x.fork(), "h_c", [Z, C(n), C(p)]):
                        cx.expect_val(y, w, v, "post", "the characters of a key have the hash of the key")
                    if n + 1 in (1, 2, 4):
                        for y, w in cx.call(x.fork(), "h_l%d" % (n + 1), [Z, C(p)]):
                            cx.expect_val(y, w, v, "post", "a string literal has the hash of the key it spells")
                q.done()
    case(X, "string_hash", "(const il::String& s, int p)", "return %s::hash(s, p);" % SH, strhash, ret="std::size_t")

    def streq(form, m=None):
        def run(cx):
            q = Q(cx)
            for rep in ("small", "large"):
                for n in range(5):
                    for k in range(5) if m is None else (m - 1,):
                        st = cx.st()
                        a, b = q.chars(st, n, name="a"), q.chars(st, k, name="b")
                        args = [q.string(st, a, rep=rep)]
                        if form == "str":
                            args.append(q.string(st, b, name="b", t=1))
                        elif form == "c":
                            args += [q.buf(st, b), C(k)]
                        else:
                            args.append(q.buf(st, b, term=True))
                        for x, v in cx.run(st, args):
                            q.cmp(x, v, lambda ask: n == k and eqat(ask, a, b), "equality of keys", True)
                        q.done()
        return run
    case(X, "string_equal", "(const il::String& a, const il::String& b)", "return %s::isEqual(a, b);" % SH, streq("str"), ret="bool")
    case(X, "string_equal_c", "(const il::String& a, const char* b, il::int_t n)", "return %s::isEqual(a, b, n);" % SH, streq("c"), ret="bool")
    for m in (1, 2, 4):
        case(X, "string_equal_lit%d" % m, "(const il::String& a, const char (&b)[%d])" % m, "return %s::isEqual(a, b);" % SH, streq("l", m), ret="bool")
    return g


def groups():
    return [queries(), unicode(), hashing()]
