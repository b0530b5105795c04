"""il::Info and il::Status: sequences of operations with fixed keys and arbitrary values.

Each driver is a short history written in C++; its values are unknown integers, unknown doubles and unknown texts of a
fixed length.  The history is interpreted abstractly, so the verdict covers every value."""
from harness import *

PRE = '''
#include <il/Info.h>
#include <il/Status.h>
#include <new>
static inline il::Info* mk(void* p) { return new (p) il::Info{}; }
'''
NMAX = 1 << 40


def sym(cx, st, name):
    a = S(T.new(name, "v"))
    st.add(a + NMAX)
    st.add(NMAX - a)
    return a


def prep(cx):
    cx.E.unroll_all = 300
    cx.E.max_steps = 3000000
    return cx.st()


def ints(n, want, doubles=0, aborts=False):
    """the driver takes n integers and `doubles` doubles and returns one of them (index, or a constant)"""
    def run(cx):
        st = prep(cx)
        a = [sym(cx, st, "v%d" % i) for i in range(n)]
        d = [Term("init", "d%d" % i) for i in range(doubles)]
        res = cx.run(st, a + d)
        if aborts:
            cx.E.obl += 1
            if res:
                for x, r in res:
                    cx.fail(x, "unchecked", "the operation does not abort")
            else:
                cx.E.proved += 1
            return
        cx.no_abort(guards=False)
        w = want if not isinstance(want, str) else {"a": a, "d": d}[want[0]][int(want[1:])]
        w = C(w) if isinstance(w, int) else w
        for x, r in res:
            cx.states += 1
            cx.expect_val(x, r, w, "post", "value read back")
            cx.leak_check(x)
    return run


def build_info():
    g = Group("info", PRE)
    I = "il::Info i{}; "
    P = "I01"

    def c(name, sig, body, run, ret="long"):
        g.case(P, name, sig, body, run, ret)
    # one field of every type, all that precedes and follows it untouched
    c("int64", "(long a)", I + 'i.Set("line", il::int_t{a}); return i.toInteger("line");', ints(1, "a0"))
    c("double", "(double d)", I + 'i.Set("pi", d); return i.toDouble("pi");', ints(0, "d0", 1), "double")
    c("int", "(int a)", I + 'i.Set("line", a); return i.toInteger("line");', ints32(1, "a0"))
    for k in range(3):
        keys = ("a", "line", "a_longer_key")
        c("three_ints_%d" % k, "(long a, long b, long c)", I + 'i.Set("a", il::int_t{a}); i.Set("line", il::int_t{b}); i.Set("a_longer_key", il::int_t{c}); return i.toInteger("%s");' % keys[k], ints(3, "a%d" % k))
        c("mixed_%d" % k, "(long a, long b, double d)", I + 'i.Set("n", il::int_t{a}); i.Set("file", "main.cpp"); i.Set("residual", d); i.Set("iterations", il::int_t{b}); ' + ('return i.toInteger("n");', 'return i.toInteger("iterations");', 'return i.toDouble("residual");')[k],
          ints(2, ("a0", "a1", "d0")[k], 1), ("long", "long", "double")[k])
    c("prefix_long_first", "(long a, long b)", I + 'i.Set("line_number", il::int_t{a}); i.Set("line", il::int_t{b}); return i.toInteger("line");', ints(2, "a1"))
    c("prefix_short_first", "(long a, long b)", I + 'i.Set("line", il::int_t{a}); i.Set("line_number", il::int_t{b}); return i.toInteger("line_number");', ints(2, "a1"))
    c("absent", "(long a)", I + 'i.Set("line", il::int_t{a}); return (i.found(i.search("lin")) ? 1 : 0) + (i.found(i.search("line2")) ? 2 : 0) + (i.found(i.search("")) ? 4 : 0) + (i.found(i.search("x")) ? 8 : 0);', ints(1, 0))
    c("absent_empty", "()", I + 'return i.found(i.search("line")) ? 1 : 0;', ints(0, 0))
    c("types", "(long a, double d)", I + 'i.Set("n", il::int_t{a}); i.Set("x", d); i.Set("s", "text"); il::int_t n = i.search("n"), x = i.search("x"), s = i.search("s"); '
      'return (i.isInteger(n) && !i.isDouble(n) && !i.isString(n) ? 1 : 0) + (!i.isInteger(x) && i.isDouble(x) && !i.isString(x) ? 2 : 0) + (!i.isInteger(s) && !i.isDouble(s) && i.isString(s) ? 4 : 0);', ints(1, 7, 1))
    for txt in ("", "ok", "a text that is longer than twenty three bytes"):
        c("text_%d" % len(txt), "()", I + 'i.Set("n", il::int_t{3}); i.Set("s", "%s"); i.Set("m", il::int_t{4}); const char* q = i.asCString("s"); const char* w = "%s"; for (long k = 0; k <= %d; ++k) if (q[k] != w[k]) return k + 1; return 0;' % (txt, txt, len(txt)), ints(0, 0))
    # copies are independent, whatever the representation
    K3, K4 = "k" * 9, "q" * 120
    SETS = {0: "", 1: 'x.Set("n", il::int_t{a});', 2: 'x.Set("n", il::int_t{a}); x.Set("a_key_of_thirty_characters____", il::int_t{b});', 3: 'x.Set("%s", il::int_t{a});' % K3,
            4: 'x.Set("n", il::int_t{a}); x.Set("m", il::int_t{a}); x.Set("%s", il::int_t{b});' % K4}
    READ = {0: 'return y.isEmpty() ? a : 0;', 1: 'return y.toInteger("n");', 2: 'return y.toInteger("n") == a ? y.toInteger("a_key_of_thirty_characters____") : 0;', 3: 'return y.toInteger("%s");' % K3,
            4: 'return y.toInteger("m") == a ? y.toInteger("%s") : 0;' % K4}
    for s in SETS:
        fill = SETS[s]
        read = READ[s]
        w = "a1" if s in (2, 4) else "a0"
        sg = "(long a, long b)"
        c("copy_%d" % s, sg, "il::Info x{}; %s il::Info y{x}; x.clear(); %s" % (fill, read), ints(2, w))
        c("move_%d" % s, sg, "il::Info x{}; %s il::Info y{std::move(x)}; %s" % (fill, read), ints(2, w))
        c("copied_from_%d" % s, sg, "il::Info y{}; %s il::Info x{y}; x.Set(\"n2\", il::int_t{5}); x.clear(); %s" % (fill.replace("x.", "y."), read), ints(2, w))
        for t in SETS:
            pre = SETS[t].replace("x.", "y.").replace("{a}", "{7}").replace("{b}", "{8}")
            c("assign_%d_%d" % (s, t), sg, "il::Info x{}; %s il::Info y{}; %s y = x; x.clear(); %s" % (fill, pre, read), ints(2, w))
            c("move_assign_%d_%d" % (s, t), sg, "il::Info x{}; %s il::Info y{}; %s y = std::move(x); %s" % (fill, pre, read), ints(2, w))
        c("assign_self_%d" % s, sg, "il::Info y{}; %s il::Info& z = y; y = z; %s" % (fill.replace("x.", "y."), read), ints(2, w))
        c("move_reuse_%d" % s, sg, "il::Info x{}; %s il::Info y{std::move(x)}; x.Set(\"q\", il::int_t{3}); x.clear(); %s" % (fill, read), ints(2, w))
        c("clear_%d" % s, sg, "il::Info y{}; %s y.clear(); if (!y.isEmpty() || y.found(y.search(\"n\"))) return 0; y.Set(\"n\", il::int_t{a}); return y.toInteger(\"n\");" % fill.replace("x.", "y."), ints(2, "a0"))
    return g


def ints32(n, want):
    def run(cx):
        st = prep(cx)
        a = []
        for i in range(n):
            v = S(T.new("v%d" % i, "v"))
            st.add(v + (1 << 31))
            st.add((1 << 31) - 1 - v)
            a.append(v)
        res = cx.run(st, a)
        cx.no_abort(guards=False)
        for x, r in res:
            cx.states += 1
            cx.expect_val(x, r, a[int(want[1:])], "post", "value read back")
            cx.leak_check(x)
    return run


def build_status():
    g = Group("status", PRE)
    P = "R03"
    ok, ko = "s.SetOk();", "s.SetError(il::Error::MatrixSingular);"

    def c(name, body, want, aborts=False, sig="(long a)", ret="long"):
        g.case(P, name, sig, body, ints(sig.count("long"), want, sig.count("double"), aborts), ret)
    D = "il::Status s{}; "
    c("ok", D + ok + "return s.Ok() ? 1 : 0;", 1)
    c("error", D + ko + "return s.Ok() ? 1 : 0;", 0)
    c("error_value", D + ko + "s.IgnoreError(); return s.error() == il::Error::MatrixSingular ? 1 : 0;", 1)
    c("error_after_ok", D + ok + "s.IgnoreError();" + ko + "if (s.Ok()) return 5; return s.error() == il::Error::MatrixSingular ? 1 : 0;", 1)
    c("ok_after_error", D + ko + "s.IgnoreError();" + ok + "return s.Ok() ? 1 : 0;", 1)
    c("other_error", D + ko + "s.IgnoreError(); s.SetError(il::Error::ParseKey); s.IgnoreError(); return s.error() == il::Error::ParseKey ? 1 : 0;", 1)
    c("rearm_ok", D + ok + "if (!s.Ok()) return 5; s.Rearm(); return s.Ok() ? 1 : 0;", 1)
    c("rearm_error", D + ko + "if (s.Ok()) return 5; s.Rearm(); return s.Ok() ? 1 : 0;", 0)
    c("abort_on_ok", D + ok + "s.AbortOnError(); return 1;", 1)
    c("domain", D + "return static_cast<long>(il::domain(il::Error::MatrixSingular)) * 1000 + static_cast<long>(il::domain(il::Error::ParseKey));", 5001)
    for r, set_ in ((1, ok), (0, ko)):
        w = "ok" if r else "error"
        c("move_%s" % w, D + set_ + "il::Status t{std::move(s)}; return t.Ok() ? 1 : 0;", r)
        c("move_assign_%s" % w, D + set_ + "il::Status t{}; t = std::move(s); return t.Ok() ? 1 : 0;", r)
        c("moved_from_%s" % w, D + set_ + "il::Status t{std::move(s)}; t.IgnoreError(); s.SetOk(); return s.Ok() ? 1 : 0;", 1)
        c("moved_assign_from_%s" % w, D + set_ + "il::Status t{}; t = std::move(s); t.IgnoreError(); s.SetOk(); return s.Ok() ? 1 : 0;", 1)
    c("move_error_value", D + ko + "il::Status t{std::move(s)}; t.IgnoreError(); return t.error() == il::Error::MatrixSingular ? 1 : 0;", 1)
    c("move_assign_error_value", D + ko + "il::Status t{}; t = std::move(s); t.IgnoreError(); return t.error() == il::Error::MatrixSingular ? 1 : 0;", 1)
    # information about the error
    c("info_int", D + ko + 's.SetInfo("rank", il::int_t{a}); s.IgnoreError(); return s.toInteger("rank");', "a0")
    c("info_double", D + ko + 's.SetInfo("r", d); s.IgnoreError(); return s.toDouble("r");', "d0", sig="(double d)", ret="double")
    c("info_source", D + ko + 's.setSource("file.cpp", a); s.IgnoreError(); if (s.asCString("source_file")[0] != \'f\') return 0; return s.toInteger("source_line");', "a0")
    c("info_source_more", D + ko + 's.setSource("file.cpp", 12); s.SetInfo("line", il::int_t{a}); s.IgnoreError(); return s.toInteger("line");', "a0")
    c("info_cleared", D + ko + 's.SetInfo("rank", il::int_t{3}); s.IgnoreError(); s.SetError(il::Error::ParseKey); s.SetInfo("line", il::int_t{a}); s.SetInfo("rank", il::int_t{4}); s.IgnoreError(); return s.toInteger("rank");', 4)
    c("info_move", D + ko + 's.SetInfo("rank", il::int_t{a}); il::Status t{std::move(s)}; t.IgnoreError(); return t.toInteger("rank");', "a0")
    c("info_move_assign", D + ko + 's.SetInfo("a_key_of_thirty_characters____", il::int_t{a}); il::Status t{}; t = std::move(s); t.IgnoreError(); return t.toInteger("a_key_of_thirty_characters____");', "a0")
    # a second error replaces the first one and everything that came with it, whatever the two have in common
    for e in ("il::Error::MatrixSingular", "il::Error::ParseKey"):
        for rd in ("if (s.Ok()) return 5;", "s.IgnoreError();"):
            for k1 in ("rank", "line"):
                w = "%s_%s_%s" % (e[-3:], rd[0], k1)
                c("info_second_" + w, D + ko + 's.SetInfo("%s", b); %s s.SetError(%s); s.SetInfo("rank", a); s.IgnoreError(); return s.toInteger("rank");' % (k1, rd, e), "a0", sig="(long a, long b)")
                c("info_after_ok_" + w, D + ko + 's.SetInfo("%s", b); %s s.SetOk(); s.IgnoreError(); s.SetError(%s); s.SetInfo("rank", a); s.IgnoreError(); return s.toInteger("rank");' % (k1, rd, e), "a0", sig="(long a, long b)")
        c("info_second_moved_" + e[-3:], D + ko + 's.SetInfo("rank", b); il::Status t{}; t = std::move(s); t.IgnoreError(); t.SetError(%s); t.SetInfo("rank", a); t.IgnoreError(); return t.toInteger("rank");' % e, "a0", sig="(long a, long b)")
        c("info_moved_over_" + e[-3:], D + ko + 's.SetInfo("rank", b); il::Status t{}; t.SetError(%s); t.SetInfo("rank", a); t.SetInfo("a_key_of_thirty_characters____", b); t.IgnoreError(); s.IgnoreError(); s.SetError(%s); s.SetInfo("rank", a); t = std::move(s); t.IgnoreError(); return t.toInteger("rank");' % (e, e), "a0", sig="(long a, long b)")
    # misuse is detected
    for name, body in (("ok_unset", "return s.Ok();"), ("dropped_ok", ok + "return 1;"), ("dropped_error", ko + "return 1;"), ("set_twice", ok + ok + "s.IgnoreError(); return 1;"), ("error_over_ok", ok + ko + "s.IgnoreError(); return 1;"),
                       ("ok_over_error", ko + ok + "s.IgnoreError(); return 1;"), ("ok_twice", ok + "s.IgnoreError(); return s.Ok();"), ("abort_on_error", ko + "s.AbortOnError(); return 1;"), ("abort_unset", "s.AbortOnError(); return 1;"),
                       ("ignore_unset", "s.IgnoreError(); return 1;"), ("error_unchecked", ko + "long e = static_cast<long>(s.error()); s.IgnoreError(); return e;"), ("info_unset", 's.SetInfo("a", 1.0); return 1;'),
                       ("info_ok", ok + 's.SetInfo("a", 1.0); s.IgnoreError(); return 1;'), ("source_unset", 's.setSource("a", 1); return 1;'), ("moved_dropped", ko + "{ il::Status t{std::move(s)}; } return 1;"),
                       ("moved_assign_dropped", ko + "{ il::Status t{}; t = std::move(s); } return 1;"), ("move_over", ko + "il::Status t{}; t.SetOk(); t = std::move(s); t.IgnoreError(); return 1;"), ("rearm_dropped", ko + "if (s.Ok()) return 5; s.Rearm(); return 1;")):
        c("misuse_" + name, D + body, 0, aborts=True)
    return g


def groups():
    return [build_info(), build_status()]
