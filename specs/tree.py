"""il::Tree: every tree of a few levels, in both orders of growth, values unknown"""
from structured import *

PRE_TR = '''
#include <il/Tree.h>
#include <new>
typedef il::int_t I;
typedef il::spot_t N;
// m: the children of the root, then the children of each of its children (w bits each)
template <I w> static bool bit(I m, I k) { return (m >> k) & 1; }
template <I w> static void build(il::Tree<double, w>& t, const double* x, I m, bool up, bool late) {
  N r = t.root();
  if (!late) t.Set(r, x[0]);
  for (I a = 0; a < w; ++a) { I i = up ? a : w - 1 - a; if (bit<w>(m, i)) t.AddChild(r, i); }
  for (I a = 0; a < w; ++a) {
    I i = up ? a : w - 1 - a;
    if (!bit<w>(m, i)) continue;
    N c = t.child(r, i);
    if (!late) t.Set(c, x[1 + i]);
    for (I b = 0; b < w; ++b) { I j = up ? b : w - 1 - b; if (bit<w>(m, w * (1 + i) + j)) t.AddChild(c, j); }
    for (I b = 0; b < w; ++b) { I j = up ? b : w - 1 - b; if (bit<w>(m, w * (1 + i) + j)) t.Set(t.child(c, j), x[1 + w + w * i + j]); }
    if (late) t.Set(c, x[1 + i]);
  }
  if (late) t.Set(r, x[0]);
}
template <I w> static I node(const il::Tree<double, w>& t, N s, I m, I sh) {
  // children of s against the bits of m from sh on
  I bad = 0;
  bool any = false;
  for (I i = 0; i < w; ++i) { any = any || bit<w>(m, sh + i); if (t.hasChild(s, i) != bit<w>(m, sh + i)) bad |= 1; }
  if (t.hasChild(s) != any) bad |= 2;
  const auto c = t.children(s);
  I k = 0;
  for (I i = 0; i < w; ++i) if (bit<w>(m, sh + i)) { if (k >= c.size()) return bad | 4; if (c[k] != i) bad |= 4; ++k; }
  if (k != c.size()) bad |= 4;
  return bad;
}
template <I w> static I look(const il::Tree<double, w>& t, double* q, I m) {
  N r = t.root();
  I bad = node<w>(t, r, m, 0), depth = 0;
  q[0] = t.value(r);
  if (t.isEmpty(r)) bad |= 8;
  for (I i = 0; i < w; ++i) if (bit<w>(m, i)) {
    N c = t.child(r, i);
    depth = depth > 1 ? depth : 1;
    if (t.parent(c).index != r.index) bad |= 16;
    if (t.isEmpty(c)) bad |= 8;
    bad |= node<w>(t, c, m, w * (1 + i));
    q[1 + i] = t.value(c);
    for (I j = 0; j < w; ++j) if (bit<w>(m, w * (1 + i) + j)) {
      N d = t.child(c, j);
      depth = 2;
      if (t.parent(d).index != c.index) bad |= 16;
      if (t.isEmpty(d)) bad |= 8;
      if (t.hasChild(d) || t.children(d).size() != 0) bad |= 32;
      q[1 + w + w * i + j] = t.value(d);
    }
  }
  if (t.depth() != depth) bad |= 64;
  return bad;
}
'''
WHAT = {1: "hasChild(s, i)", 2: "hasChild(s)", 4: "children(s)", 8: "isEmpty(s) of a node with a value", 16: "parent of a child", 32: "a leaf has children", 64: "depth()"}


def masks(w):
    if w == 2:
        return range(64)
    if w == 3:
        out = []
        for r in range(8):
            for i in range(3):
                if r >> i & 1:
                    out += [r | b << (3 * (1 + i)) for b in range(8)]
            out.append(r)
        return sorted(set(out))
    return [0, 1, 8, 15, 5, 10, 1 | 15 << 4, 8 | 15 << 16, 15 | 9 << 8, 12 | 6 << 12]


def build_tree():
    g = Group("tree", PRE_TR)
    g.life = "T01"
    P = "T01"
    for w in (2, 3, 4):
        for how, decl, post in (("new", "il::Tree<double, %d> t;" % w, ""), ("depth", "il::Tree<double, %d> t(2);" % w, ""), ("depth1", "il::Tree<double, %d> t(1);" % w, ""), ("copy", "il::Tree<double, %d> u;" % w, "il::Tree<double, %d> t(u);" % w)):
            def run(cx, w=w):
                for m in masks(w):
                    def ok(m=m):
                        return all(m >> i & 1 or not (m >> (w * (1 + i))) & ((1 << w) - 1) for i in range(w))
                    if not ok():
                        continue
                    for up in (0, 1):
                        for late in (0, 1):
                            st = start_t(cx, False)
                            n = 1 + w + w * w
                            q = Ptr(cx.obj(st, 8 * n, "q"), ZERO)
                            live = [0] + [1 + i for i in range(w) if m >> i & 1] + [1 + w + w * i + j for i in range(w) for j in range(w) if m >> (w * (1 + i) + j) & 1]
                            for s_, r in cx.run(st, [block(cx, st, "x", n, False), q, C(m), C(up), C(late)]):
                                cx.states += 1
                                c = r.const() if isinstance(r, Poly) else None
                                if c is None:
                                    raise Unsupported("result not determined")
                                cx.E.obl += 1
                                if c:
                                    cx.fail(s_, "post", "tree with the children %s: wrong %s" % (bin(m), ", ".join(v for k, v in WHAT.items() if c & k)))
                                    continue
                                cx.E.proved += 1
                                for k in live:
                                    for y, v in cx.E.load(s_, Ptr(q.o, C(8 * k)), 8, IR.DOUBLE, "value"):
                                        check(cx, y, v, lambda ask: poly(Term("init", "x", C(k))), "tree with the children %s: value of node %d" % (bin(m), k))
                                cx.leak_check(s_)
                            cx.no_abort()
                            cx.E.aborts = []
            g.case(P, "tree%d_%s" % (w, how), "(const double* x, double* q, I m, long up, long late)", "%s build<%d>(%s, x, m, up, late); %s return look<%d>(t, q, m);" % (decl, w, "u" if how == "copy" else "t", post, w), run, "I")

        # nodes without a value are empty, a node is not its own neighbour, misuse is refused
        def one(want, aborts=False, args=()):
            def run(cx):
                st = start_t(cx, False)
                a = []
                for lo, hi in args:
                    v = S(T.new("i", "v"))
                    if lo is not None:
                        st.add(v - lo)
                    if hi is not None:
                        st.add(C(hi) - v)
                    a.append(v)
                res = cx.run(st, a)
                if aborts:
                    for s_, r in res:
                        if world(s_):
                            cx.fail(s_, "unchecked", "the operation does not abort")
                    cx.E.obl += 1
                    cx.E.proved += 1
                    cx.E.aborts = []
                    return
                for s_, r in res:
                    cx.expect(s_, r - want, "post", "result", True)
                    cx.leak_check(s_)
                cx.no_abort()
            return run
        D = "il::Tree<double, %d> t; " % w
        g.case(P, "empty%d" % w, "()", D + "return (t.isEmpty(t.root()) ? 1 : 0) + (t.hasChild(t.root()) ? 2 : 0) + 4 * t.depth() + 1000 * t.root().index;", one(1), "I")
        g.case(P, "empty_child%d" % w, "()", D + "t.AddChild(t.root(), %d); N c = t.child(t.root(), %d); return (t.isEmpty(c) ? 1 : 0) + (t.hasChild(c) ? 2 : 0);" % (w - 1, w - 1), one(1), "I")
        g.case(P, "set_twice%d" % w, "()", D + "t.Set(t.root(), 1.0); t.Set(t.root(), 2.0); t.AddChild(t.root(), 0); t.Set(t.root(), 3.0); return (t.hasChild(t.root(), 0) ? 1 : 0) + (t.hasChild(t.root(), 1) ? 2 : 0) + 4 * t.children(t.root()).size();", one(5), "I")
        g.case(P, "add_low%d" % w, "(I i)", D + "t.AddChild(t.root(), i); return 0;", one(0, True, ((None, -1),)), "I")
        g.case(P, "add_high%d" % w, "(I i)", D + "t.AddChild(t.root(), i); return 0;", one(0, True, ((w, None),)), "I")
        g.case(P, "leaf_child%d" % w, "()", D + "return t.child(t.root(), 0).index;", one(0, True), "I")
        g.case(P, "root_parent%d" % w, "()", D + "return t.parent(t.root()).index;", one(0, True), "I")
    return g


def groups():
    return [build_tree()]
