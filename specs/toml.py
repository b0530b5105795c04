"""il::load of TOML files: a document gives the keys and values it spells, a wrong one is reported.

The stream functions are the stand-ins of pack.py; atof hands out one unknown number per call and records the decimal it was given, so that which
decimal is converted is decided here and the conversion is the C library's. `@k` in a document stands for an unknown character of a class."""
import re
from pack import *

PRE_TOML = PRE_PACK.replace("#include <il/io/filepack/filepack.h>", '''
namespace ilv { static const double* Z; static long long Mant[8], Exp[8]; static long long nz; }
extern "C" double strtod(const char* b, char** e) noexcept {
  bool m = *b == '-';
  if (m || *b == '+') ++b;
  long long r = 0, p = 0;
  while (*b >= '0' && *b <= '9') r = 10 * r + (*b++ - '0');
  if (*b == '.') { ++b; while (*b >= '0' && *b <= '9') { r = 10 * r + (*b++ - '0'); --p; } }
  if (*b == 'e' || *b == 'E') {
    ++b;
    bool n = *b == '-';
    if (n || *b == '+') ++b;
    long long x = 0;
    while (*b >= '0' && *b <= '9') x = 10 * x + (*b++ - '0');
    p += n ? -x : x;
  }
  if (e) *e = (char*)b;
  if (ilv::nz == 8) ilv::unknown();
  ilv::Mant[ilv::nz] = m ? -r : r;
  ilv::Exp[ilv::nz] = p;
  return ilv::Z[ilv::nz++];
}
extern "C" double atof(const char* b) noexcept { return strtod(b, nullptr); }
#include <il/io/toml/toml.h>
#include <il/io/toml/toml.cpp>''', 1) + '''
static const D* at(const D* d, const char* k) {
  if (d == nullptr || !d->is<LD>()) return nullptr;
  const LD& a = d->as<LD>();
  il::spot_t i = a.search(name(k));
  return a.found(i) ? &a.value(i) : nullptr;
}
static const D* at(const D* d, I i) { if (d == nullptr || !d->is<AD>()) return nullptr; const AD& a = d->as<AD>(); return i < a.size() ? &a[i] : nullptr; }
static I many(const D* d, I n) { if (d == nullptr) return 3; if (d->is<LD>()) return d->as<LD>().nbElements() == n ? 0 : 6; if (!d->is<AD>()) return 1; return d->as<AD>().size() == n ? 0 : 2; }
static I num(const D* d, I* q) { if (d == nullptr) return 3; if (!d->is<I>()) return 1; *q = d->to<I>(); return 0; }
static I is(const D* d, I v) { if (d == nullptr) return 3; if (!d->is<I>()) return 1; return d->to<I>() == v ? 0 : 7; }
static I boo(const D* d, bool v) { if (d == nullptr) return 3; if (!d->is<bool>()) return 1; return d->to<bool>() == v ? 0 : 7; }
static I flt(const D* d, double* w) { if (d == nullptr) return 3; if (!d->is<double>()) return 1; *w = d->to<double>(); return 0; }
static I txt(const D* d, const char* s, I n) { if (d == nullptr) return 3; if (!d->is<il::String>()) return 1; const il::String& t = d->as<il::String>(); if (t.size() != n) return 2; for (I i = 0; i < n; ++i) if (t.asCString()[i] != s[i]) return 4; return t.asCString()[n] == 0 ? 0 : 4; }
static I key(const D* d, I i, const char* s) { const LD& a = d->as<LD>(); return a.key(i) == name(s) ? 0 : 5; }
static D load(il::Status& st) { D r(il::load<LD>(il::String("f.toml"), il::io, st)); return r; }
'''
CLS = {"d": (48, 57), "n": (49, 57), "l": (97, 122), "L": (65, 90), "s": (35, 91), "t": (93, 126), "c": (128, 191), "a": (1, 127), "b": (32, 33), "k": (40, 91)}
BADT = dict(BADP)
BADT[4] = "a character of a text is wrong"
BADT[8] = "an error is reported"
BADT[9] = "no error is reported"
BADT[10] = "a stream stays open"
BADT[13] = "a double is printed with too few digits to be read back"
BADT[12] = "the line of the error is wrong"


def esc(c):
    return "\\%03o" % ord(c) if c in "\"\\?" or not 32 <= ord(c) < 127 else c


def build_toml():
    g = Group("toml", PRE_TOML)
    g.life = P = "P02"

    def lit(t):
        """text with @k -> (C literal, [(position, k)])"""
        out, at, i, n = "", [], 0, 0
        while i < len(t):
            if t[i] == "@":
                at.append((n, int(t[i + 1])))
                out += "?"
                i += 2
            else:
                out += esc(t[i])
                i += 1
            n += 1
        return out.replace("??", "?\\?"), at, n

    def case(name, text, cls, body, ints=(), nd=0, ok=True):
        """ints: expected values of q[i] as functions of the values of the unknown characters"""
        def run(cx):
            st = prep(cx)
            cx.E.unroll_all = 1200
            cx.E.max_steps = 20000000
            cx.E.max_rec = 8
            x, z, q, w = (cx.obj(st, 8 * n, t) for t, n in (("x", 64), ("z", 64), ("q", 192), ("w", 64)))
            xs = []
            for i in range(8):
                lo, hi = CLS[cls[i]] if i < len(cls) else (0, 0)
                v = S(T.new("x%d" % i, "v"))
                st.add(v - lo)
                st.add(C(hi) - v)
                xs.append(v)
                cx.put(st, x, 8 * i, 8, v)
                cx.put(st, z, 8 * i, 8, Term("init", "z", C(i)))
            what = "document %s" % name
            for s_, r in cx.run(st, [Ptr(x, ZERO), Ptr(z, ZERO), Ptr(q, ZERO), Ptr(w, ZERO)]):
                cx.states += 1
                c = r.const() if isinstance(r, Poly) else None
                if c is None or c == 99:
                    raise Unsupported("%s: result not determined" % what)
                cx.E.obl += 1
                if c:
                    cx.fail(s_, "post", "%s: %s" % (what, BADT.get(c % 16) or BADT.get(c // 16 % 16, "wrong")))
                    continue
                cx.E.proved += 1
                for i, f in enumerate(ints):
                    for y, v in cx.E.load(s_, Ptr(q, C(8 * i)), 8, IR.INT(64), what):
                        if not isinstance(v, Poly):
                            raise Unsupported("%s: value not determined" % what)
                        e = f(*[u - 48 for u in xs[:f.__code__.co_argcount]]) if callable(f) else C(f)
                        cx.expect(y, v - e, "post", "%s: number %d" % (what, i), True)
                for i in range(nd):
                    for y, v in cx.E.load(s_, Ptr(w, C(8 * i)), 8, IR.DOUBLE, what):
                        cx.E.obl += 1
                        try:
                            a, b = poly(v), poly(Term("init", "z", C(i)))
                        except Undetermined:
                            raise Unsupported("%s: number not determined" % what)
                        if (a - b).const() != 0:
                            cx.fail(y, "post", "%s: number %d is %s" % (what, i, v))
                        else:
                            cx.E.proved += 1
                cx.leak_check(s_)
            cx.no_abort(guards=False)
            cx.E.aborts = []
        out, at, n = lit(text)
        pre = 'char f[] = "%s"; ' % out + "".join("f[%d] = (char)x[%d]; " % a for a in at) + "store(f, sizeof(f)); ilv::G.end = sizeof(f) - 1; ilv::nz = 0; ilv::Z = z; il::Status st{}; D r = load(st); if (ilv::G.open != 0) return 10; "
        pre += "if (!st.Ok()) return 8; " if ok else "if (st.Ok()) return 9; " if ok is False else "(void)st.Ok(); "
        g.case(P, name, "(const I* x, const double* z, I* q, double* w)", pre + body, run, "I")

    def txt(path, t):
        """check of a text that may hold unknown characters"""
        out, at, n = lit(t)
        return "{ char e[] = \"%s\"; %s I c = txt(%s, e, %d); if (c) return c; } " % (out, "".join("e[%d] = (char)x[%d]; " % a for a in at), path, n)

    def chk(*cs):
        return "".join(c if c.startswith("{") else "{ I c = %s; if (c) return c; } " % c for c in cs) + "return 0;"

    def P_(*ks):
        p = "&r"
        for k in ks:
            p = "at(%s, %s)" % (p, '"%s"' % k if isinstance(k, str) else "(I)%d" % k)
        return p
    # integers
    for n, (t, c, f) in enumerate((("@0", "d", lambda a: a), ("@0@1", "nd", lambda a, b: 10 * a + b), ("+@0@1", "nd", lambda a, b: 10 * a + b), ("-@0@1@2", "ndd", lambda a, b, c: -100 * a - 10 * b - c), ("-@0", "d", lambda a: -a), ("@0_@1@2@3", "nddd", lambda a, b, c, d: 1000 * a + 100 * b + 10 * c + d),
                                   ("@0@1_@2@3", "nddd", lambda a, b, c, d: 1000 * a + 100 * b + 10 * c + d), ("@0_@1", "nd", lambda a, b: 10 * a + b), ("@0@1@2_@3", "nddd", lambda a, b, c, d: 1000 * a + 100 * b + 10 * c + d), ("@0_@1_@2", "ndd", lambda a, b, c: 100 * a + 10 * b + c), ("123456789012345678@0", "d", lambda a: 1234567890123456780 + a))):
        for m, end in enumerate(("\n", "", " # c\n", "\r\n", "\t\n", "# c")):
            if m and n not in (0, 1, 7):
                continue
            case("integer_%d_%d" % (n, m), "a = " + t + end, c, chk("num(%s, q)" % P_("a"), "many(&r, 1)"), [f])
    case("integer_zero", "a = 0\nb = -0 \nc = +0", "", chk("is(%s, 0)" % P_("a"), "is(%s, 0)" % P_("b"), "is(%s, 0)" % P_("c"), "many(&r, 3)"))
    case("integer_max", "a = 9223372036854775807\nb = -9223372036854775807\n", "", chk("is(%s, 9223372036854775807LL)" % P_("a"), "is(%s, -9223372036854775807LL)" % P_("b")))
    # floating point numbers: the decimal that is converted
    D_ = "if (ilv::nz == 0) return 99; for (I i = 0; i < ilv::nz; ++i) { q[2 * i] = ilv::Mant[i]; q[2 * i + 1] = ilv::Exp[i]; } "
    for n, (t, c, f, e) in enumerate((("@0.@1", "dd", lambda a, b: 10 * a + b, -1), ("-@0@1.@2@3", "nddd", lambda a, b, c, d: -1000 * a - 100 * b - 10 * c - d, -2), ("+0.@0", "d", lambda a: a, -1), ("@0e@1", "nd", lambda a: a, lambda a, b: b), ("@0E-@1@2", "ndd", lambda a: a, lambda a, b, c: -10 * b - c),
                                      ("@0.@1e@2", "ndd", lambda a, b: 10 * a + b, lambda a, b, c: c - 1), ("-@0.@1@2E+@3", "nddd", lambda a, b, c: -100 * a - 10 * b - c, lambda a, b, c, d: d - 2), ("@0.0e-@1", "nd", lambda a: 10 * a, lambda a, b: -b - 1), ("1_@0@1@2.5", "ddd", lambda a, b, c: 10005 + 1000 * a + 100 * b + 10 * c, -1))):
        for m, end in enumerate(("\n", "", " # c\n", "\r\n")):
            if m > 1 and n not in (0, 3):
                continue
            case("float_%d_%d" % (n, m), "a = " + t + end, c, D_ + chk("flt(%s, w)" % P_("a"), "many(&r, 1)"), [f, e], 1)
    # truth values
    for m, end in enumerate(("\n", "", " # c\n", "\r\n")):
        case("bool_%d" % m, "a = true%sb = false%s" % (end or "\n", end), "", chk("boo(%s, true)" % P_("a"), "boo(%s, false)" % P_("b"), "many(&r, 2)"))
    # texts
    for n, (t, c, e) in enumerate((("\"@0@1@2\"", "sts", "@0@1@2"), ("\"\"", "", ""), ("'@0@1'", "tk", "@0@1"), ("''", "", ""), ("\"\\b\\t\\n\\f\\r\\\"\\\\@0\"", "s", "\b\t\n\f\r\"\\@0"), ("'@0\\n\"'", "l", "@0\\n\""), ("\"it's @0\"", "d", "it's @0"), ("\"# no [@0] = , comment\"", "s", "# no [@0] = , comment"), ("\"\xc3@0\"", "c", "\xc3@0"), ("\"\xe2\x82\xac@0\"", "l", "\xe2\x82\xac@0"), ("\"\xf0\x9f\x98\x80@0\"", "l", "\xf0\x9f\x98\x80@0"),
                                   ("\"@0 and a text that is too long for a short one\"", "l", "@0 and a text that is too long for a short one"), ("\"@0@1@2@3@4@5@6@7\"", "LLLLLLLL", "@0@1@2@3@4@5@6@7"))):
        for m, end in enumerate(("\n", "", " # c\n", "\r\n")):
            if m > 1 and n not in (0, 2):
                continue
            case("text_%d_%d" % (n, m), "a = " + t + end, c, chk(txt(P_("a"), e), "many(&r, 1)"))
    # keys
    case("key_unknown", "@0@1 = 5\n", "ll", "char k[3] = {(char)x[0], (char)x[1], 0}; " + chk("is(at(&r, k), 5)", "key(&r, 0, k)", "many(&r, 1)"))
    case("key_order", "b = 1\na = 2\nd=3\nc  =4\n", "", chk("key(&r, 0, \"b\")", "key(&r, 1, \"a\")", "key(&r, 2, \"d\")", "key(&r, 3, \"c\")", "is(%s, 1)" % P_("b"), "is(%s, 2)" % P_("a"), "is(%s, 3)" % P_("d"), "is(%s, 4)" % P_("c"), "many(&r, 4)"))
    case("key_quoted", "\"a b\" = 1\n\"c\\\"'#=\" = @0\n", "d", chk("is(%s, 1)" % P_("a b"), "num(at(&r, \"c\\\"'#=\"), q)", "many(&r, 2)"), [lambda a: a])
    case("key_quoted_unknown", "\"@0@1\" = @2\n", "std", "char k[3] = {(char)x[0], (char)x[1], 0}; " + chk("num(at(&r, k), q)", "many(&r, 1)"), [lambda a, b, c: c])
    case("key_literal", "'ab' = 1\n'c d' = @0\n", "d", chk("is(%s, 1)" % P_("ab"), "num(%s, q)" % P_("c d"), "many(&r, 2)"), [lambda a: a])
    case("key_literal_equal", "'a=b' = @0\n", "d", chk("num(%s, q)" % P_("a=b"), "many(&r, 1)"), [lambda a: a])
    case("key_bare", "a-b_1 = 1\n  1234 = @0\n\tz\t=\t3\n", "d", chk("is(%s, 1)" % P_("a-b_1"), "num(%s, q)" % P_("1234"), "is(%s, 3)" % P_("z"), "many(&r, 3)"), [lambda a: a])
    # comments and blank lines
    case("nothing", "", "", chk("many(&r, 0)"))
    case("comments", "# a = 1\n\n   \n\t# b\na = @0 # c = 2\n\n#", "d", chk("num(%s, q)" % P_("a"), "many(&r, 1)"), [lambda a: a])
    case("comments_crlf", "# a = 1\r\n\r\na = @0\r\n\r\nb = 2\r\n", "d", chk("num(%s, q)" % P_("a"), "is(%s, 2)" % P_("b"), "many(&r, 2)"), [lambda a: a])
    # arrays
    A = P_("a")
    for m, end in enumerate(("\n", "", " # c\n", "\r\n")):
        case("array_integers_%d" % m, "a = [@0, -@1@2 ,3]" + end, "dnd", chk("num(%s, q)" % P_("a", 0), "num(%s, q + 1)" % P_("a", 1), "is(%s, 3)" % P_("a", 2), "many(%s, 3)" % A, "many(&r, 1)"), [lambda a: a, lambda a, b, c: -10 * b - c])
        case("array_empty_%d" % m, "a = []%sb = [ ]%s" % (end or "\n", end), "", chk("many(%s, 0)" % A, "many(%s, 0)" % P_("b"), "many(&r, 2)"))
    case("array_zeros", "a = [0, 0]\nb = [0]\n", "", chk("is(%s, 0)" % P_("a", 0), "is(%s, 0)" % P_("a", 1), "is(%s, 0)" % P_("b", 0), "many(%s, 2)" % A, "many(%s, 1)" % P_("b")))
    case("array_trailing", "a = [ @0, 2, ]\n", "d", chk("num(%s, q)" % P_("a", 0), "is(%s, 2)" % P_("a", 1), "many(%s, 2)" % A), [lambda a: a])
    case("array_floats", "a = [@0.5, -1.@1]\n", "dd", D_ + chk("flt(%s, w)" % P_("a", 0), "flt(%s, w + 1)" % P_("a", 1), "many(%s, 2)" % A), [lambda a: 10 * a + 5, -1, lambda a, b: -10 - b, -1], 2)
    case("array_exponents", "a = [@0e5, 1e@1]\n", "nd", D_ + chk("flt(%s, w)" % P_("a", 0), "flt(%s, w + 1)" % P_("a", 1), "many(%s, 2)" % A), [lambda a: a, 5, 1, lambda a, b: b], 2)
    case("array_bools", "a = [true, false,true]\n", "", chk("boo(%s, true)" % P_("a", 0), "boo(%s, false)" % P_("a", 1), "boo(%s, true)" % P_("a", 2), "many(%s, 3)" % A))
    case("array_texts", "a = [\"@0,\", ']', \"#@1\"]\n", "sl", chk(txt(P_("a", 0), "@0,"), txt(P_("a", 1), "]"), txt(P_("a", 2), "#@1"), "many(%s, 3)" % A))
    case("array_lines", "a = [\n  @0, # one\n\n  # none\n  2\n  ,\n  3\n]\nb = 7\n", "d", chk("num(%s, q)" % P_("a", 0), "is(%s, 2)" % P_("a", 1), "is(%s, 3)" % P_("a", 2), "many(%s, 3)" % A, "is(%s, 7)" % P_("b"), "many(&r, 2)"), [lambda a: a])
    case("array_nested", "a = [[@0, 2], [\"@1\"], []]\nb = 1\n", "dl", chk("num(%s, q)" % P_("a", 0, 0), "is(%s, 2)" % P_("a", 0, 1), txt(P_("a", 1, 0), "@1"), "many(%s, 0)" % P_("a", 2), "many(%s, 3)" % A, "is(%s, 1)" % P_("b")), [lambda a: a])
    case("array_nested_spaces", "a = [ [ @0 ] , [ 2 ] ] # c\n", "d", chk("num(%s, q)" % P_("a", 0, 0), "is(%s, 2)" % P_("a", 1, 0), "many(%s, 2)" % A), [lambda a: a])
    case("array_nested_lines", "a = [\n  [@0, 2], # first\n  [3,\n   4]\n]\n", "d", chk("num(%s, q)" % P_("a", 0, 0), "is(%s, 2)" % P_("a", 0, 1), "is(%s, 3)" % P_("a", 1, 0), "is(%s, 4)" % P_("a", 1, 1), "many(%s, 2)" % A), [lambda a: a])
    case("array_deep", "a = [[[@0], [2]], [[3]]]\n", "d", chk("num(%s, q)" % P_("a", 0, 0, 0), "is(%s, 2)" % P_("a", 0, 1, 0), "is(%s, 3)" % P_("a", 1, 0, 0), "many(%s, 2)" % A), [lambda a: a])
    # inline tables
    for m, end in enumerate(("\n", "", " # c\n", "\r\n")):
        case("inline_%d" % m, "a = { b = @0, c = \"@1\" }" + end, "dl", chk("num(%s, q)" % P_("a", "b"), txt(P_("a", "c"), "@1"), "many(%s, 2)" % A), [lambda a: a])
    case("inline_nested", "a = {b={c=@0},d=[1,2],e=true}\nf = 3\n", "d", chk("num(%s, q)" % P_("a", "b", "c"), "is(%s, 2)" % P_("a", "d", 1), "boo(%s, true)" % P_("a", "e"), "many(%s, 3)" % A, "is(%s, 3)" % P_("f"), "many(&r, 2)"), [lambda a: a])
    case("inline_float", "a = { b = @0.5, c = 0 }\n", "d", D_ + chk("flt(%s, w)" % P_("a", "b"), "is(%s, 0)" % P_("a", "c")), [lambda a: 10 * a + 5, -1], 1)
    case("inline_empty", "a = {}\nb = { } # c\nc = { d = {}, e = @0 }\n", "d", chk("many(%s, 0)" % A, "many(%s, 0)" % P_("b"), "many(%s, 0)" % P_("c", "d"), "num(%s, q)" % P_("c", "e"), "many(&r, 3)"), [lambda a: a])
    case("array_inline", "a = [{b = @0}, { b = 2, c = true } ]\nd = 4\n", "d", chk("num(%s, q)" % P_("a", 0, "b"), "is(%s, 2)" % P_("a", 1, "b"), "boo(%s, true)" % P_("a", 1, "c"), "many(%s, 1)" % P_("a", 0), "many(%s, 2)" % A, "is(%s, 4)" % P_("d"), "many(&r, 2)"), [lambda a: a])
    case("array_inline_lines", "a = [ # x\n  {b = @0},\n  {} ]\n", "d", chk("num(%s, q)" % P_("a", 0, "b"), "many(%s, 0)" % P_("a", 1), "many(%s, 2)" % A), [lambda a: a])
    case("inline_zero", "a = {b=0}\n", "", chk("is(%s, 0)" % P_("a", "b")))
    # tables
    for m, end in enumerate(("\n", " # c\n", "\r\n", "\t\n")):
        case("tables_%d" % m, "a = @0\n[t]%sa = @1\nb = 2\n[u]%sa = 3" % (end, end), "dd", chk("num(%s, q)" % A, "num(%s, q + 1)" % P_("t", "a"), "is(%s, 2)" % P_("t", "b"), "is(%s, 3)" % P_("u", "a"), "many(&r, 3)", "many(%s, 2)" % P_("t"), "many(%s, 1)" % P_("u"), "key(&r, 1, \"t\")"), [lambda a: a, lambda a, b: b])
    case("tables_dotted", "[a.b]\nc = @0\n[a.d]\nc = 2\n[a]\nc = 3\n[e.f.g]\nc = 4\n", "d", chk("num(%s, q)" % P_("a", "b", "c"), "is(%s, 2)" % P_("a", "d", "c"), "is(%s, 3)" % P_("a", "c"), "is(%s, 4)" % P_("e", "f", "g", "c"), "many(&r, 2)", "many(%s, 3)" % A), [lambda a: a])
    case("tables_unknown", "[@0@1]\nc = @2\n", "lld", "char k[3] = {(char)x[0], (char)x[1], 0}; " + chk("num(at(at(&r, k), \"c\"), q)", "many(&r, 1)"), [lambda a, b, c: c])
    case("tables_quoted", "[\"a.b\".c]\nd = @0\n", "d", chk("num(%s, q)" % P_("a.b", "c", "d"), "many(&r, 1)"), [lambda a: a])
    case("end_inline", "a = {b = @0}", "d", chk("num(%s, q)" % P_("a", "b"), "many(&r, 1)"), [lambda a: a])
    case("end_array", "a = [@0]", "d", chk("num(%s, q)" % P_("a", 0), "many(&r, 1)"), [lambda a: a])
    case("end_array_lines", "a = [\n@0\n]", "d", chk("num(%s, q)" % P_("a", 0), "many(&r, 1)"), [lambda a: a])
    case("end_tables", "[a]\nb = @0\n[c]", "d", chk("num(%s, q)" % P_("a", "b"), "many(%s, 0)" % P_("c"), "many(&r, 2)"), [lambda a: a])
    case("end_tables_dotted", "[a]\nb = @0\n[a.c]", "d", chk("num(%s, q)" % P_("a", "b"), "many(%s, 0)" % P_("a", "c"), "many(&r, 1)"), [lambda a: a])
    case("end_table_array", "[[a]]\nb = @0\n[[a]]", "d", chk("num(%s, q)" % P_("a", 0, "b"), "many(%s, 0)" % P_("a", 1), "many(%s, 2)" % P_("a"), "many(&r, 1)"), [lambda a: a])
    case("tables_spaces_2", "[ a ]\nb = @0\n[ c.d ] # x\ne = 2\n  [f]\n\tg = 3\n", "d", chk("num(%s, q)" % P_("a", "b"), "is(%s, 2)" % P_("c", "d", "e"), "is(%s, 3)" % P_("f", "g"), "many(&r, 3)"), [lambda a: a])
    case("tables_empty", "[a]\n[b]\n", "", chk("many(%s, 0)" % A, "many(%s, 0)" % P_("b"), "many(&r, 2)"))
    for m, end in enumerate(("\n", " # c\n", "\r\n")):
        case("table_array_%d" % m, "[[t]]%sa = @0\n[[t]]%sa = 2\nb = 5\n[u]\na = 3\n" % (end, end), "d", chk("num(%s, q)" % P_("t", 0, "a"), "is(%s, 2)" % P_("t", 1, "a"), "is(%s, 5)" % P_("t", 1, "b"), "is(%s, 3)" % P_("u", "a"), "many(%s, 2)" % P_("t"), "many(%s, 1)" % P_("t", 0), "many(&r, 2)"), [lambda a: a])
    case("table_array_sub", "[[t]]\na = 1\n[[t]]\na = 2\n[t.s]\nb = @0\n", "d", chk("num(%s, q)" % P_("t", 1, "s", "b"), "many(%s, 1)" % P_("t", 0), "many(%s, 2)" % P_("t", 1)), [lambda a: a])
    case("table_array_dotted", "[[a.b]]\nc = @0\n[[a.b]]\nc = 2\n[a]\nd = 3\n[[a.e]]\nc = 4\n", "d", chk("num(%s, q)" % P_("a", "b", 0, "c"), "is(%s, 2)" % P_("a", "b", 1, "c"), "is(%s, 3)" % P_("a", "d"), "is(%s, 4)" % P_("a", "e", 0, "c"), "many(%s, 3)" % A, "many(&r, 1)"), [lambda a: a])
    case("table_array_nested", "[[a]]\nc = @0\n[[a.b]]\nd = 2\n[[a.b]]\nd = 3\n[[a]]\n[[a.b]]\nd = 4\n", "d", chk("num(%s, q)" % P_("a", 0, "c"), "is(%s, 2)" % P_("a", 0, "b", 0, "d"), "is(%s, 3)" % P_("a", 0, "b", 1, "d"), "is(%s, 4)" % P_("a", 1, "b", 0, "d"), "many(%s, 2)" % A, "many(%s, 2)" % P_("a", 0, "b"), "many(&r, 1)"), [lambda a: a])
    case("tables_spaces", "[ a . b ]\nc = @0\n", "d", chk("num(%s, q)" % P_("a", "b", "c"), "many(&r, 1)"), [lambda a: a])
    case("tables_quoted_2", "[a.\"b c\"]\nd = @0\n[a.'e.f']\ng = 1\n", "d", chk("num(%s, q)" % P_("a", "b c", "d"), "is(%s, 1)" % P_("a", "e.f", "g"), "many(&r, 1)"), [lambda a: a])
    case("key_bytes", "\"\xc3\xa9@0\" = 1\n".replace("@0", ""), "", chk("is(%s, 1)" % P_("\\303\\251"), "many(&r, 1)"))
    # long lines
    for n in (198, 199, 200, 201, 399, 400, 401):
        case("long_comment_%d" % n, "#" + "c" * (n - 8) + " x = 1\na = @0\n", "d", chk("num(%s, q)" % P_("a"), "many(&r, 1)"), [lambda a: a])
        case("long_text_%d" % n, "b = \"" + "c" * (n - 7) + "@0\"\na = [\n" + " " * (n - 2) + "5,\n 6]", "l", "{ const D* b = at(&r, \"b\"); if (!b || !b->is<il::String>()) return 1; const il::String& t = b->as<il::String>(); if (t.size() != %d) return 2; if (t.asCString()[0] != 'c' || t.asCString()[%d] != 'c' || t.asCString()[%d] != (char)x[0]) return 4; } " % (n - 6, n - 8, n - 7) + chk("is(%s, 5)" % P_("a", 0), "is(%s, 6)" % P_("a", 1), "many(&r, 2)"))
        case("long_end_%d" % n, "a = " + " " * (n - 5) + "@0", "d", chk("num(%s, q)" % P_("a"), "many(&r, 1)"), [lambda a: a])
        case("wrong_long_%d" % n, "b = 1" + " " * (n - 6) + "\na = x\n", "", "return st.toInteger(\"line\") == 2 ? 0 : 12;", ok=False)
    # what is wrong is reported, and where
    for name, t, c, line in (("no_equal", "a 5\n", "", 1), ("line_after_array", "a = [\n 1,\n 2]\nb = @0 x\n", "d", 4), ("line_after_array_2", "a = [1, # x\n\n# y\n 2\n]\n\n[t]\nb = @0 x\n", "d", 8), ("line_in_array", "a = [\n 1,\n @0 x\n]\n", "d", 3), ("line_in_array_2", "a = [ [1],\n\n [2,\n 03], [4]\n]\n", "", 4), ("line_after_table", "a = 1\n\n# x\n[t]\nb = 2\n[t.u]\nb = @0 x\n", "d", 7), ("no_equal_2", "a\n", "", 1), ("no_value", "a =\n", "", 1), ("no_value_2", "b = 1\na = # c\n", "", 2), ("no_value_3", "a =", "", 1), ("no_key", "= 5\n", "", 1), ("no_key_2", "b = 2\n  = @0\n", "d", 2), ("two_words", "a b = @0\n", "d", 1), ("trailing", "a = @0 x\n", "d", 1), ("trailing_2", "c = 1\n\na = \"@0\" 5\n", "l", 3), ("trailing_3", "a = true false\n", "", 1), ("trailing_4", "a = [@0] ]\n", "d", 1),
                            ("duplicate", "a = 1\nb = 2\na = @0\n", "d", 3), ("duplicate_2", "[t]\na = 1\na = @0\n", "d", 3), ("duplicate_3", "t = @0\n[t]\na = 1\n", "d", 2), ("duplicate_4", "a = { b = 1, b = @0 }\n", "d", 1), ("text_open", "a = \"@0\n", "l", 1), ("text_open_2", "a = '@0", "l", 1), ("text_open_3", "a = '@0\"\n", "l", 1), ("escape", "a = \"\\@0\"\n", "L", 1), ("escape_2", "a = \"x\\", "", 1), ("leading_zero", "a = 0@0\n", "d", 1), ("leading_zero_2", "a = -0@0\n", "d", 1),
                            ("underscore", "a = 1__0\n", "", 1), ("underscore_2", "a = 1_\n", "", 1), ("underscore_3", "a = 1_", "", 1), ("underscore_4", "a = _1\n", "", 1), ("point", "a = @0.\n", "n", 1), ("point_2", "a = .@0\n", "d", 1), ("point_3", "a = @0.", "d", 1), ("point_4", "a = 1.@0.2\n", "d", 1), ("exponent", "a = @0e\n", "n", 1), ("exponent_2", "a = 1.@0e+\n", "d", 1), ("sign", "a = +\n", "", 1), ("sign_2", "a = -", "", 1), ("sign_3", "a = --@0\n", "d", 1), ("bool", "a = tru\n", "", 1), ("bool_2", "a = falsy\n", "", 1), ("bool_3", "a = t@0ue\n", "d", 1), ("bool_4", "a = tru", "", 1),
                            ("bool_5", "a = truee\n", "", 1), ("word", "a = @0\n", "L", 1), ("array_mixed", "a = [@0, \"b\"]\n", "d", 1), ("array_mixed_2", "a = [@0, 1.5]\n", "d", 1), ("array_mixed_3", "a = [[1], @0]\n", "d", 1), ("array_open", "a = [@0, 2\n", "d", None), ("array_open_2", "a = [@0, 2\nb = 3\n", "d", None), ("array_open_3", "a = [", "", None), ("array_open_4", "a = [[@0]\n", "d", None), ("array_comma", "a = [,]\n", "", 1), ("array_comma_2", "a = [1,,@0]\n", "d", 1), ("array_blank", "a = [@0 2]\n", "d", 1), ("array_close", "a = [@0}\n", "d", 1), ("array_close_2", "a = [@0, 2;\n", "d", 1), ("array_close_3", "a = [true)\n", "", 1), ("array_close_4", "a = [[1]}\n", "", 1), ("array_inline", "a = [{b = 1}, 2]\n", "", 1), ("array_inline_2", "a = [1, {b = 1}]\n", "", 1), ("array_inline_3", "a = [{b = 1]\n", "", 1), ("inline_comma_2", "a = {,}\n", "", 1), ("inline_close", "a = {]\n", "", 1), ("inline_open", "a = { b = @0\n", "d", 1), ("inline_open_2", "a = { b = @0", "d", 1), ("inline_open_3", "a = {", "", 1), ("inline_open_4", "a = {b", "", 1), ("inline_comma", "a = { b = @0 c = 2 }\n", "d", 1),
                            ("table_open", "[a\nb = @0\n", "d", 1), ("table_open_2", "[a", "", 1), ("table_open_3", "[", "", 1), ("table_open_4", "[a.b\n", "", 1), ("table_blank", "[]\n", "", 1), ("table_blank_2", "[[]]\n", "", 1), ("table_trailing", "[a] @0\n", "d", 1), ("table_trailing_2", "[[a]] @0\n", "d", 1), ("table_array_open", "[[a]\nb = @0\n", "d", 1), ("table_array_open_2", "[[a\n", "", 1), ("table_array_open_3", "[[a", "", 1), ("table_array_open_4", "[[a]", "", 1), ("table_array_table", "[a]\nb = 1\n[[a]]\n", "", 3), ("table_value", "a = [1, @0]\n[a.b]\n", "d", 2)):
        body = "return 0;" if line is None else "return st.toInteger(\"line\") == %d ? 0 : 12;" % line
        case("wrong_" + name, t, c, body, ok=False)
    for n, t in enumerate(("\xff@0", "@0\xc3", "\xed\xa0\x80", "\xf0", "\x80@0", "\xf8\x88\x80\x80\x80", "\xf4\xbf\xbf\xbf")):
        for m, e in enumerate(('a = "%s"\n', 'a = "%s', '"%s" = 1', "'%s' = 1\n", "a = '%s'")):
            case("bytes_%d_%d" % (n, m), e % t, "l" if "@" in t else "", "return 0;" if m > 2 else "return st.toInteger(\"line\") == 1 ? 0 : 12;", ok=None if m > 2 else False)
    case("missing", "", "", "ilv::G.data = nullptr; il::Status s2{}; D d = load(s2); return s2.Ok() ? 9 : 0;")
    return g


# saving prints with the C library: whole numbers are spelled out, the k-th finite double printed is the token k (or -k) with as many digits as the
# format asks for; 17 significant digits are those that name a double, a token read back with fewer is another number
PRINT = '''
#include <cstdio>
namespace ilv { static double Out[10]; static int nout; static int digits; static int kind; static int lossy;
static void put(FILE* f, char c) { fputc(c, f); }
static void num(FILE* f, long long v) {
  unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v;
  if (v < 0) put(f, '-');
  unsigned long long p = 1;
  while (u / p >= 10) p *= 10;
  for (; p > 0; p /= 10) put(f, (char)('0' + u / p % 10));
}
static void one(FILE* f, const char* s, const char* e, long long v) {
  if (e[-1] != 'd' && e[-1] != 'i') unknown();
  int h = 0, l = 0;
  for (const char* t = s + 1; t != e - 1; ++t) { if (*t == 'h') ++h; else if (*t == 'l' || *t == 't' || *t == 'z' || *t == 'j') ++l; else unknown(); }
  num(f, l > 0 ? v : h == 2 ? (long long)(signed char)v : h == 1 ? (long long)(short)v : (long long)(int)v);
}
static void one(FILE* f, const char* s, const char* e, const char* v) { if (e[-1] != 's' || e - s != 2) unknown(); for (; *v; ++v) put(f, *v); }
static void one(FILE* f, const char* s, const char* e, double v) {
  long long p = 6;
  for (const char* t = s + 1; t != e - 1; ++t) {
    if (*t != '.') continue;
    p = 0;
    for (++t; *t >= '0' && *t <= '9'; ++t) p = 10 * p + (*t - '0');
    --t;
  }
  if (e[-1] != 'e' && e[-1] != 'E') unknown();
  if (nout == 9) unknown();
  Out[++nout] = v;
  if (p < 16) lossy = 1;
  if (nout % 2 == 0) put(f, '-');
  put(f, (char)('0' + nout));
  if (p > 0) put(f, '.');
  for (; p > 0; --p) put(f, '0');
  put(f, e[-1]); put(f, nout % 3 == 0 ? '-' : '+'); put(f, '0'); put(f, '1');
}
static void one(FILE* f, const char* s, const char* e, int v) { one(f, s, e, (long long)v); }
static void one(FILE* f, const char* s, const char* e, long v) { one(f, s, e, (long long)v); }
static int print(FILE* f, const char* s) { for (; *s; ++s) { if (*s == '%') unknown(); put(f, *s); } return 1; }
template <typename T, typename... A> static int print(FILE* f, const char* s, T v, A... a) {
  while (*s != '%') { if (!*s) unknown(); put(f, *s++); }
  const char* e = s + 1;
  while (!(*e >= 'a' && *e <= 'z') && !(*e >= 'A' && *e <= 'Z')) ++e;
  while (*e == 'l' || *e == 't' || *e == 'z' || *e == 'j' || *e == 'h') ++e;
  one(f, s, e + 1, v);
  return print(f, e + 1, a...);
}
}
namespace std { template <typename... A> static int ilv_fprintf(FILE* f, const char* s, A... a) { return ilv::print(f, s, a...); } }
using std::ilv_fprintf;
#define fprintf ilv_fprintf
namespace ilv {
'''
PRE_SAVE = PRE_TOML.replace("namespace ilv { static const double* Z;", PRINT + "static const double* Z;", 1)
a = PRE_SAVE.index("  if (ilv::nz == 8)")
b = PRE_SAVE.index("extern \"C\" double atof")
PRE_SAVE = PRE_SAVE[:a] + '''  if (e) *e = (char*)b;
  while (r != 0 && r % 10 == 0) { r /= 10; ++p; }
  if (r < 1 || r > ilv::nout || m != (r % 2 == 0) || p != (r % 3 == 0 ? -1 : 1)) return ilv::Mant[0] = 1, -ilv::Out[1];
  return ilv::Out[r];
}
''' + PRE_SAVE[b:]


def build_save():
    g = Group("tomlsave", PRE_SAVE)
    g.life = P = "P03"

    def case(name, build, body, types, ni=0, nd=0, ok=True, ends=None):
        """build: statements filling `M m`; body: checks on r, storing whole numbers in q[0..ni) (expected x[i]) and doubles in w[0..nd) (expected z[i])"""
        for ty in types:
            def run(cx):
                st = prep(cx)
                cx.E.unroll_all = 1500
                cx.E.max_steps = 30000000
                cx.E.max_rec = 8
                x, z, q, w = (cx.obj(st, 8 * n, t) for t, n in (("x", 64), ("z", 64), ("q", 192), ("w", 64)))
                for i in range(8):
                    lo, hi = ends[i] if ends and i < len(ends) else (0, 9)
                    v = S(T.new("x%d" % i, "v"))
                    st.add(v - lo)
                    st.add(C(hi) - v)
                    cx.put(st, x, 8 * i, 8, v)
                    cx.put(st, z, 8 * i, 8, Term("init", "z", C(i)))
                for s_, r in cx.run(st, [Ptr(x, ZERO), Ptr(z, ZERO), Ptr(q, ZERO), Ptr(w, ZERO)]):
                    cx.states += 1
                    c = r.const() if isinstance(r, Poly) else None
                    if c is None or c == 99:
                        raise Unsupported("%s: result not determined" % name)
                    cx.E.obl += 1
                    if c:
                        cx.fail(s_, "post", "saved and loaded again: %s" % (BADT.get(c % 16) or BADT.get(c // 16 % 16, "wrong")))
                        continue
                    cx.E.proved += 1
                    for i in range(ni):
                        for y, v in cx.E.load(s_, Ptr(q, C(8 * i)), 8, IR.INT(64), name):
                            for y2, u in cx.E.load(y, Ptr(x, C(8 * i)), 8, IR.INT(64), name):
                                if not isinstance(v, Poly) or not isinstance(u, Poly):
                                    raise Unsupported("%s: value not determined" % name)
                                cx.expect(y2, v - u, "post", "saved and loaded again: number %d" % i, True)
                    for i in range(nd):
                        for y, v in cx.E.load(s_, Ptr(w, C(8 * i)), 8, IR.DOUBLE, name):
                            cx.E.obl += 1
                            try:
                                d = poly(v) - poly(Term("init", "z", C(i)))
                            except Undetermined:
                                raise Unsupported("%s: number not determined" % name)
                            if d.const() != 0:
                                cx.fail(y, "post", "saved and loaded again: double %d is %s" % (i, v))
                            else:
                                cx.E.proved += 1
                    cx.leak_check(s_)
                cx.no_abort(guards=False)
                cx.E.aborts = []
            pre = "typedef %s M; char f[2000]; store(f, 2000); ilv::nout = 0; ilv::lossy = 0; M m; %s { il::Status st{}; il::save(m, il::String(\"f.toml\"), il::io, st); if (!st.Ok()) return 8; } " % ({"l": "LD", "m": "il::Map<il::String, D>"}[ty], build)
            pre += "if (ilv::G.open != 0) return 10; ilv::G.pos = 0; ilv::G.eof = 0; il::Status st{}; D r = load(st); if (ilv::G.open != 0) return 10; if (!st.Ok()) return 8; if (ilv::lossy) return 13; "
            g.case(P, "%s_%s" % (name, ty), "(const I* x, const double* z, I* q, double* w)", pre + body, run, "I")

    def chk(*cs):
        return "".join(c if c.startswith("{") else "{ I c = %s; if (c) return c; } " % c for c in cs) + "return 0;"

    def P_(*ks):
        p = "&r"
        for k in ks:
            p = "at(%s, %s)" % (p, '"%s"' % k if isinstance(k, str) else "(I)%d" % k)
        return p
    B = "lm"
    case("nothing", "", chk("many(&r, 0)"), B)
    case("integer", "m.Set(\"a\", D((I)x[0]));", chk("num(%s, q)" % P_("a"), "many(&r, 1)"), B, 1, ends=[(-9, 9)])
    case("integers", 'm.Set("a", D((I)0)); m.Set("b", D((I)9223372036854775807LL)); m.Set("c", D((I)-9223372036854775807LL)); m.Set("d", D((I)-12)); m.Set("e", D((I)100)); m.Set("f", D((I)1234567));', chk("is(%s, 0)" % P_("a"), "is(%s, 9223372036854775807LL)" % P_("b"), "is(%s, -9223372036854775807LL)" % P_("c"), "is(%s, -12)" % P_("d"), "is(%s, 100)" % P_("e"), "is(%s, 1234567)" % P_("f"), "many(&r, 6)"), "l")
    case("integer_min", 'm.Set("a", D((I)(-9223372036854775807LL - 1)));', chk("is(%s, -9223372036854775807LL - 1)" % P_("a")), "l")
    case("bools", "m.Set(\"a\", D(true)); m.Set(\"b\", D(false));", chk("boo(%s, true)" % P_("a"), "boo(%s, false)" % P_("b"), "many(&r, 2)"), "l")
    case("doubles", "m.Set(\"a\", D(z[0])); m.Set(\"b\", D(z[1])); m.Set(\"c\", D(z[2]));", chk("flt(%s, w)" % P_("a"), "flt(%s, w + 1)" % P_("b"), "flt(%s, w + 2)" % P_("c"), "many(&r, 3)"), "l", 0, 3)
    for n, t in enumerate(("", "x", "\"", "\\\\", "#[]={},.'", "\b\t\n\f\r", "\\\"", "\303\251", "\\n", "a text that is too long for a short string \"", " x ")):
        c = "".join("\\%03o" % ord(ch) for ch in t.encode().decode("unicode_escape"))
        if t == "\303\251":
            c = "\\303\\251"
        L = c.count("\\")
        case("text_%d" % n, "m.Set(\"a\", D(il::String(il::StringType::Byte, \"%s\", %d)));" % (c, L), chk("txt(%s, \"%s\", %d)" % (P_("a"), c, L), "many(&r, 1)"), "l")
        if L:
            case("key_%d" % n, "m.Set(il::String(il::StringType::Byte, \"%s\", %d), D((I)x[0]));" % (c, L), chk("num(%s, q)" % P_(c), "many(&r, 1)"), "l", 1)
            if n in (1, 3, 4, 6, 10):
                case("table_key_%d" % n, "LD b; b.Set(\"u\", D((I)x[0])); LD a; a.Set(il::String(il::StringType::Byte, \"%s\", %d), D(b)); m.Set(\"t\", D(a));" % (c, L), chk("num(%s, q)" % P_("t", c, "u"), "many(&r, 1)"), "l", 1)
                case("table_key_in_%d" % n, "LD b; b.Set(\"u\", D((I)x[0])); LD a; a.Set(\"t\", D(b)); m.Set(il::String(il::StringType::Byte, \"%s\", %d), D(a));" % (c, L), chk("num(%s, q)" % P_(c, "t", "u"), "many(&r, 1)"), "l", 1)
    case("text_unknown", "char h[3] = {(char)x[0], (char)x[1], 0}; m.Set(\"a\", D(il::String(il::StringType::Byte, h, 2)));", "char k[3] = {(char)x[0], (char)x[1], 0}; " + chk("txt(%s, k, 2)" % P_("a"), "many(&r, 1)"), "l", ends=[(32, 126), (32, 126)])
    case("array_double", "il::Array<double> a(3); a[0] = z[0]; a[1] = z[1]; a[2] = z[2]; m.Set(\"a\", D(a)); m.Set(\"b\", D((I)x[0]));", chk("flt(%s, w)" % P_("a", 0), "flt(%s, w + 1)" % P_("a", 1), "flt(%s, w + 2)" % P_("a", 2), "many(%s, 3)" % P_("a"), "num(%s, q)" % P_("b"), "many(&r, 2)"), "l", 1, 3)
    case("array_empty", "il::Array<double> a; m.Set(\"a\", D(a)); AD b; m.Set(\"b\", D(b)); il::Array2D<double> c; m.Set(\"c\", D(c));", chk("many(%s, 0)" % P_("a"), "many(%s, 0)" % P_("b"), "many(%s, 0)" % P_("c"), "many(&r, 3)"), "l")
    case("array2d", "il::Array2D<double> a(2, 3); for (I i = 0; i < 2; ++i) for (I j = 0; j < 3; ++j) a(i, j) = z[3 * i + j]; m.Set(\"a\", D(std::move(a)));", chk(*["flt(%s, w + %d)" % (P_("a", i, j), 3 * i + j) for i in range(2) for j in range(3)], "many(%s, 2)" % P_("a"), "many(%s, 3)" % P_("a", 0), "many(%s, 3)" % P_("a", 1), "many(&r, 1)"), "l", 0, 6)
    for n0, n1 in ((1, 1), (1, 3), (3, 1), (3, 2), (4, 2), (2, 4)):
        case("array2d_%d_%d" % (n0, n1), "il::Array2D<double> a(%d, %d); for (I i = 0; i < %d; ++i) for (I j = 0; j < %d; ++j) a(i, j) = z[%d * i + j]; m.Set(\"a\", D(std::move(a)));" % (n0, n1, n0, n1, n1), chk(*["flt(%s, w + %d)" % (P_("a", i, j), n1 * i + j) for i in range(n0) for j in range(n1)], "many(%s, %d)" % (P_("a"), n0), "many(%s, %d)" % (P_("a", n0 - 1), n1), "many(&r, 1)"), "l", 0, n0 * n1)
    case("array2d_reserved", "il::Array2D<double> a(2, 2); for (I i = 0; i < 2; ++i) for (I j = 0; j < 2; ++j) a(i, j) = z[2 * i + j]; a.Reserve(5, 4); m.Set(\"a\", D(std::move(a)));", chk(*["flt(%s, w + %d)" % (P_("a", i, j), 2 * i + j) for i in range(2) for j in range(2)], "many(%s, 2)" % P_("a"), "many(&r, 1)"), "l", 0, 4)
    case("array_long", "AD b; for (I i = 0; i < 2; ++i) b.Append(D((I)1000000000000000000LL)); m.Set(\"a\", D(b)); char t[300]; for (I i = 0; i < 300; ++i) t[i] = 'c'; m.Set(\"b\", D(il::String(il::StringType::Byte, t, 300))); m.Set(\"c\", D((I)x[0]));", "{ const D* b = at(&r, \"b\"); if (!b || !b->is<il::String>()) return 1; if (b->as<il::String>().size() != 300) return 2; } " + chk("is(%s, 1000000000000000000LL)" % P_("a", 1), "many(%s, 2)" % P_("a"), "num(%s, q)" % P_("c"), "many(&r, 3)"), "l", 1)
    case("array_double_long", "il::Array<double> a(8); for (I i = 0; i < 8; ++i) a[i] = z[i]; m.Set(\"a\", D(a)); m.Set(\"c\", D((I)x[0]));", chk(*["flt(%s, w + %d)" % (P_("a", i), i) for i in range(8)], "many(%s, 8)" % P_("a"), "num(%s, q)" % P_("c"), "many(&r, 2)"), "l", 1, 8)
    case("array_integer", "AD a; a.Append(D((I)x[0])); a.Append(D((I)x[1])); m.Set(\"a\", D(a));", chk("num(%s, q)" % P_("a", 0), "num(%s, q + 1)" % P_("a", 1), "many(%s, 2)" % P_("a"), "many(&r, 1)"), "lm", 2, ends=[(-9, 9), (0, 9)])
    case("array_text", "AD a; a.Append(D(il::String(\"u\\\"\"))); a.Append(D(il::String(\"],#\"))); m.Set(\"a\", D(a));", chk("txt(%s, \"u\\\"\", 2)" % P_("a", 0), "txt(%s, \"],#\", 3)" % P_("a", 1), "many(%s, 2)" % P_("a")), "l")
    case("array_bool", "AD a; a.Append(D(true)); a.Append(D(false)); m.Set(\"a\", D(a));", chk("boo(%s, true)" % P_("a", 0), "boo(%s, false)" % P_("a", 1), "many(%s, 2)" % P_("a")), "l")
    case("array_dynamic_double", "AD a; a.Append(D(z[0])); a.Append(D(z[1])); m.Set(\"a\", D(a));", chk("flt(%s, w)" % P_("a", 0), "flt(%s, w + 1)" % P_("a", 1), "many(%s, 2)" % P_("a")), "l", 0, 2)
    case("array_nested", "AD a; a.Append(D((I)x[0])); AD b; b.Append(D(a)); b.Append(D(AD())); m.Set(\"a\", D(b));", chk("num(%s, q)" % P_("a", 0, 0), "many(%s, 0)" % P_("a", 1), "many(%s, 2)" % P_("a")), "l", 1)
    for ty, t in (("l", "LD"), ("m", "il::Map<il::String, D>")):
        mk = "typedef %s N; " % t
        case("table_%s" % ty, mk + "N b; b.Set(\"u\", D((I)x[0])); m.Set(\"t\", D(b));", chk("num(%s, q)" % P_("t", "u"), "many(%s, 1)" % P_("t"), "many(&r, 1)"), "lm", 1)
        case("table_before_%s" % ty, mk + "N b; b.Set(\"u\", D((I)x[0])); m.Set(\"t\", D(b)); m.Set(\"a\", D((I)x[1]));", chk("num(%s, q)" % P_("t", "u"), "num(%s, q + 1)" % P_("a"), "many(%s, 1)" % P_("t"), "many(&r, 2)"), "l", 2)
        case("table_two_%s" % ty, mk + "N b; b.Set(\"u\", D((I)x[0])); N c; c.Set(\"u\", D((I)x[1])); m.Set(\"t\", D(b)); m.Set(\"s\", D(c));", chk("num(%s, q)" % P_("t", "u"), "num(%s, q + 1)" % P_("s", "u"), "many(%s, 1)" % P_("t"), "many(&r, 2)"), "l", 2)
        case("table_deep_%s" % ty, mk + "N c; c.Set(\"v\", D((I)x[0])); N b; b.Set(\"u\", D(c)); b.Set(\"w\", D((I)x[1])); N a; a.Set(\"s\", D(b)); a.Set(\"y\", D((I)x[2])); m.Set(\"t\", D(a)); m.Set(\"e\", D(N()));", chk("num(%s, q)" % P_("t", "s", "u", "v"), "num(%s, q + 1)" % P_("t", "s", "w"), "num(%s, q + 2)" % P_("t", "y"), "many(%s, 0)" % P_("e"), "many(%s, 2)" % P_("t"), "many(%s, 2)" % P_("t", "s"), "many(&r, 2)"), "l", 3)
    return g


def groups():
    return [build_toml(), build_save()]
