"""il::Dynamic: every kind of content in every history of construction, copy, move, assignment and modification, values unknown"""
from info import *
from reals import poly, Undetermined

PRE_D = '''
#include <il/Dynamic.h>
#include <il/Array2D.h>
#include <il/String.h>
#include <il/Map.h>
#include <il/MapArray.h>
#include <new>
#include <utility>
typedef il::int_t I;
typedef il::Dynamic D;
typedef il::Array<D> AD;
typedef il::Map<il::String, D> MD;
typedef il::MapArray<il::String, D> LD;
static void put(D* p, D&& d) { new (p) D(std::move(d)); }
static il::String str(const I* x, I n) { char b[64]; for (I i = 0; i < n; ++i) b[i] = i < 3 ? (char)x[i] : 'a'; return il::String(il::StringType::Ascii, b, n); }
template <typename T> static void mkA(D* p, const I* x, I n, bool mv) { il::Array<T> a(n); for (I i = 0; i < n; ++i) a[i] = (T)x[i]; if (mv) new (p) D(std::move(a)); else new (p) D(a); }
template <typename T, typename U> static void mkV(D* p, const U& v, bool mv) { T a(v); if (mv) new (p) D(std::move(a)); else new (p) D(a); }
static void make(D* p, I k, const I* x, const double* z, bool mv) {
  switch (k) {
    case 0: new (p) D(); break;
    case 1: new (p) D(x[0] != 0); break;
    case 2: new (p) D((int)x[0]); break;
    case 3: new (p) D((I)x[0]); break;
    case 4: new (p) D((float)z[0]); break;
    case 5: new (p) D(z[0]); break;
    case 6: new (p) D((unsigned char)x[0]); break;
    case 7: new (p) D((signed char)x[0]); break;
    case 8: new (p) D((unsigned short)x[0]); break;
    case 9: new (p) D((short)x[0]); break;
    case 10: new (p) D("key"); break;
    case 11: mkV<il::String>(p, str(x, 3), mv); break;
    case 12: mkV<il::String>(p, str(x, 30), mv); break;
    case 13: { char b[3] = {(char)x[0], (char)x[1], (char)x[2]}; new (p) D(il::StringType::Ascii, b, 3); } break;
    case 14: { il::Array<double> a(2); a[0] = z[0]; a[1] = z[1]; if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 15: mkA<int>(p, x, 2, mv); break;
    case 16: mkA<unsigned int>(p, x, 2, mv); break;
    case 17: mkA<il::int_t>(p, x, 2, mv); break;
    case 18: mkA<il::uint_t>(p, x, 2, mv); break;
    case 19: mkA<unsigned char>(p, x, 3, mv); break;
    case 20: mkA<signed char>(p, x, 3, mv); break;
    case 21: mkA<unsigned short>(p, x, 3, mv); break;
    case 22: { il::Array<short> a(3); for (I i = 0; i < 3; ++i) a[i] = (short)x[i]; new (p) D(a); } break;
    case 23: { il::Array2D<double> a(2, 1); a(0, 0) = z[0]; a(1, 0) = z[1]; if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 24: { il::Array2D<unsigned char> a(1, 2); a(0, 0) = (unsigned char)x[0]; a(0, 1) = (unsigned char)x[1]; if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 25: { AD a; a.Append(D((I)x[0])); a.Append(D(str(x, 30))); a.Append(D(z[0])); if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 26: { MD a; a.Set("a", D((I)x[0])); a.Set("bcd", D(z[0])); if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 27: { LD a; AD n; n.Append(D((I)x[1])); a.Set("a", D((I)x[0])); a.Set("bcd", D(n)); a.Set("e", D(z[0])); if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 28: { il::Array<double> a; if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 29: { il::String a; if (mv) new (p) D(std::move(a)); else new (p) D(a); } break;
    case 30: new (p) D(il::Type::Double); break;
    default: il::abort();
  }
}
template <typename T> static I lookA(const D& d, il::Type t, I n, I* q) {
  if (d.type() != t || !d.is<il::Array<T>>()) return 1;
  const il::Array<T>& a = d.as<il::Array<T>>();
  if (a.size() != n) return 2;
  for (I i = 0; i < n; ++i) q[i] = (I)a[i];
  return 0;
}
static I lookS(const D& d, I n, I m, I* q) {
  if (d.type() != il::Type::UnicodeString || !d.is<il::String>()) return 1;
  const il::String& s = d.as<il::String>();
  if (s.size() != n) return 2;
  for (I i = 0; i < n; ++i) if (i < m) q[i] = s.data()[i]; else if (s.data()[i] != 'a') return 4;
  return s.data()[n] == 0 ? 0 : 4;
}
static I look(const D& d, I k, I* q, double* w) {
  switch (k) {
    case 0: return d.type() == il::Type::Void && !d.is<I>() && !d.is<il::String>() ? 0 : 1;
    case 1: if (d.type() != il::Type::Bool || !d.is<bool>()) return 1; q[0] = d.to<bool>() ? 1 : 0; return 0;
    case 2: case 3: if (d.type() != il::Type::Integer || !d.is<I>() || d.is<double>()) return 1; q[0] = d.to<I>(); return 0;
    case 4: if (d.type() != il::Type::Single || !d.is<float>()) return 1; w[0] = d.to<float>(); return 0;
    case 5: case 30: if (d.type() != il::Type::Double || !d.is<double>() || d.is<float>()) return 1; w[0] = d.to<double>(); return 0;
    case 6: return d.type() == il::Type::UInt8 ? 0 : 1;
    case 7: return d.type() == il::Type::Int8 ? 0 : 1;
    case 8: return d.type() == il::Type::UInt16 ? 0 : 1;
    case 9: return d.type() == il::Type::Int16 ? 0 : 1;
    case 10: { I r = lookS(d, 3, 3, q); if (r) return r; return q[0] == 'k' && q[1] == 'e' && q[2] == 'y' ? 0 : 4; }
    case 11: case 13: return lookS(d, 3, 3, q);
    case 12: return lookS(d, 30, 3, q);
    case 14: case 28: {
      if (d.type() != il::Type::ArrayOfDouble || !d.is<il::Array<double>>()) return 1;
      const il::Array<double>& a = d.as<il::Array<double>>();
      if (a.size() != (k == 14 ? 2 : 0)) return 2;
      for (I i = 0; i < a.size(); ++i) w[i] = a[i];
      return 0;
    }
    case 15: return lookA<int>(d, il::Type::ArrayOfInt32, 2, q);
    case 16: return lookA<unsigned int>(d, il::Type::ArrayOfUInt32, 2, q);
    case 17: return lookA<il::int_t>(d, il::Type::ArrayOfInt64, 2, q);
    case 18: return lookA<il::uint_t>(d, il::Type::ArrayOfUInt64, 2, q);
    case 19: return lookA<unsigned char>(d, il::Type::ArrayOfUInt8, 3, q);
    case 20: return lookA<signed char>(d, il::Type::ArrayOfInt8, 3, q);
    case 21: return lookA<unsigned short>(d, il::Type::ArrayOfUInt16, 3, q);
    case 22: return lookA<short>(d, il::Type::ArrayOfInt16, 3, q);
    case 23: {
      if (d.type() != il::Type::Array2DOfDouble || !d.is<il::Array2D<double>>()) return 1;
      const il::Array2D<double>& a = d.as<il::Array2D<double>>();
      if (a.size(0) != 2 || a.size(1) != 1) return 2;
      w[0] = a(0, 0); w[1] = a(1, 0);
      return 0;
    }
    case 24: {
      if (d.type() != il::Type::Array2DOfUInt8 || !d.is<il::Array2D<unsigned char>>()) return 1;
      const il::Array2D<unsigned char>& a = d.as<il::Array2D<unsigned char>>();
      if (a.size(0) != 1 || a.size(1) != 2) return 2;
      q[0] = a(0, 0); q[1] = a(0, 1);
      return 0;
    }
    case 25: {
      if (d.type() != il::Type::ArrayOfDynamic || !d.is<AD>()) return 1;
      const AD& a = d.as<AD>();
      if (a.size() != 3) return 2;
      if (!a[0].is<I>() || !a[2].is<double>()) return 1;
      if (I r = lookS(a[1], 30, 3, q)) return r;
      q[0] = a[0].to<I>(); w[0] = a[2].to<double>();
      return 0;
    }
    case 26: {
      if (d.type() != il::Type::MapStringToDynamic || !d.is<MD>()) return 1;
      const MD& a = d.as<MD>();
      il::spot_t i = a.search("a"), j = a.search("bcd");
      if (!a.found(i) || !a.found(j) || a.found(a.search("b"))) return 2;
      if (!a.value(i).is<I>() || !a.value(j).is<double>()) return 1;
      q[0] = a.value(i).to<I>(); w[0] = a.value(j).to<double>();
      return 0;
    }
    case 27: {
      if (d.type() != il::Type::MapArrayStringToDynamic || !d.is<LD>()) return 1;
      const LD& a = d.as<LD>();
      il::spot_t i = a.search("a"), j = a.search("bcd"), e = a.search("e");
      if (a.nbElements() != 3 || !a.found(i) || !a.found(j) || !a.found(e) || a.found(a.search("ab"))) return 2;
      if (!a.value(i).is<I>() || !a.value(e).is<double>() || !a.value(j).is<AD>() || a.value(j).as<AD>().size() != 1) return 1;
      q[0] = a.value(i).to<I>(); q[1] = a.value(j).as<AD>()[0].to<I>(); w[0] = a.value(e).to<double>();
      return 0;
    }
    case 29: return lookS(d, 0, 0, q);
  }
  return 8;
}
template <typename T> static void chA(D& d) { d.As<il::Array<T>>()[0] = (T)77; d.As<il::Array<T>>().Append((T)1); }
// other contents of the same kind
static void change(D& d, I k) {
  switch (k) {
    case 1: d.As<bool>() = false; break;
    case 2: case 3: d.As<I>() = -5; break;
    case 4: d.As<float>() = 0.5f; break;
    case 5: case 30: d.As<double>() = 0.25; break;
    case 10: case 11: case 12: case 13: case 29: d.As<il::String>().Append("_and_something_rather_longer_than_it_was"); break;
    case 14: case 28: d.As<il::Array<double>>().Append(3.0); d.As<il::Array<double>>()[0] = 4.0; break;
    case 15: chA<int>(d); break;
    case 16: chA<unsigned int>(d); break;
    case 17: chA<il::int_t>(d); break;
    case 18: chA<il::uint_t>(d); break;
    case 19: chA<unsigned char>(d); break;
    case 20: chA<signed char>(d); break;
    case 21: chA<unsigned short>(d); break;
    case 22: chA<short>(d); break;
    case 23: d.As<il::Array2D<double>>()(0, 0) = 9.0; d.As<il::Array2D<double>>()(1, 0) = 9.5; break;
    case 24: d.As<il::Array2D<unsigned char>>()(0, 0) = 9; d.As<il::Array2D<unsigned char>>()(0, 1) = 8; break;
    case 25: d.As<AD>()[0] = 3.5; d.As<AD>()[1].As<il::String>().Append('x'); d.As<AD>()[2] = D("gone"); break;
    case 26: { MD& a = d.As<MD>(); a.Set("a", D("other")); a.Set("bcd", D((I)1)); } break;
    case 27: { LD& a = d.As<LD>(); a.Set("a", D("other")); a.Value(a.search("bcd")).As<AD>()[0] = (I)4; a.Set("e", D((I)1)); } break;
  }
}
'''
# kind: (name, integer values (index range of x), doubles, bounds of the integers)
K = {0: ("void", 0, 0, None), 1: ("bool", 1, 0, (0, 1)), 2: ("int", 1, 0, (-(1 << 31), (1 << 31) - 1)), 3: ("integer", 1, 0, (-NMAX, NMAX)), 4: ("float", 0, 1, None), 5: ("double", 0, 1, None),
     6: ("unsigned char", 0, 0, (0, 255)), 7: ("signed char", 0, 0, (-128, 127)), 8: ("unsigned short", 0, 0, (0, 65535)), 9: ("short", 0, 0, (-32768, 32767)),
     10: ("literal", 0, 0, None), 11: ("string", 3, 0, (1, 127)), 12: ("long string", 3, 0, (1, 127)), 13: ("text", 3, 0, (1, 127)),
     14: ("Array<double>", 0, 2, None), 15: ("Array<int>", 2, 0, (-(1 << 31), (1 << 31) - 1)), 16: ("Array<unsigned int>", 2, 0, (0, (1 << 31) - 1)), 17: ("Array<int_t>", 2, 0, (-NMAX, NMAX)),
     18: ("Array<uint_t>", 2, 0, (0, NMAX)), 19: ("Array<unsigned char>", 3, 0, (0, 255)), 20: ("Array<signed char>", 3, 0, (-128, 127)), 21: ("Array<unsigned short>", 3, 0, (0, 65535)),
     22: ("Array<short>", 3, 0, (-32768, 32767)), 23: ("Array2D<double>", 0, 2, None), 24: ("Array2D<unsigned char>", 2, 0, (0, 255)), 25: ("Array<Dynamic>", 3, 1, (1, 127)),
     26: ("Map<String, Dynamic>", 1, 1, (-NMAX, NMAX)), 27: ("MapArray<String, Dynamic>", 2, 1, (-NMAX, NMAX)), 28: ("empty Array<double>", 0, 0, None), 29: ("empty string", 0, 0, None), 30: ("typed", 0, 0, None)}
BAD = {1: "its type is wrong", 2: "its size is wrong", 4: "a character is wrong"}
TYPES = {"bool": (1,), "int": (), "I": (2, 3), "float": (4,), "double": (5, 30), "il::String": (10, 11, 12, 13, 29), "il::Array<double>": (14, 28), "il::Array<int>": (15,), "il::Array<unsigned int>": (16,), "il::Array<il::int_t>": (17,),
         "il::Array<il::uint_t>": (18,), "il::Array<unsigned char>": (19,), "il::Array<signed char>": (20,), "il::Array<unsigned short>": (21,), "il::Array<short>": (22,), "il::Array2D<double>": (23,), "il::Array2D<unsigned char>": (24,),
         "AD": (25,), "MD": (26,), "LD": (27,)}


def build_dyn():
    g = Group("dyn", PRE_D)
    g.life = P = "D02"

    def values(cx, st, tag, k):
        name, n, d, rng = K[k]
        x, z = cx.obj(st, 32, "x" + tag), cx.obj(st, 32, "z" + tag)
        xs, zs = [], []
        for i in range(4):
            v = S(T.new(tag + str(i), "v"))
            lo, hi = rng or (0, 0)
            st.add(v - lo)
            st.add(C(hi) - v)
            xs.append(v)
            cx.put(st, x, 8 * i, 8, v)
            zs.append(Term("init", "z" + tag, C(i)))
            cx.put(st, z, 8 * i, 8, zs[-1])
        return Ptr(x, ZERO), Ptr(z, ZERO), xs, zs

    def read(cx, st, q, w, k, xs, zs, what):
        """the values written by look"""
        name, n, d, rng = K[k]
        for i in range(n):
            for y, v in cx.E.load(st, Ptr(q.o, C(8 * i)), 8, IR.INT(64), what):
                if not isinstance(v, Poly):
                    raise Unsupported("%s: value not determined" % what)
                cx.expect(y, v - xs[i], "post", "%s: value %d" % (what, i), True)
        for i in range(d) if k != 30 else (0,):
            for y, v in cx.E.load(st, Ptr(w.o, C(8 * i)), 8, IR.DOUBLE, what):
                cx.E.obl += 1
                try:
                    a, b = poly(v), poly(zs[i]) if k != 30 else ZERO
                except Undetermined:
                    raise Unsupported("%s: number not determined" % what)
                if (a - b).const() != 0:
                    cx.fail(y, "post", "%s: number %d is %s" % (what, i, v))
                else:
                    cx.E.proved += 1

    def hist(name, sig, body, combos, lookp, lookq, desc):
        """combos: (k, h); the body makes kind k from x, z and kind h from y, u and leaves in q, w what look finds in one and in q2, w2 in the other"""
        def run(cx):
            for k, h in combos:
                st = prep(cx)
                cx.E.unroll_all = 400
                cx.E.max_steps = 20000000
                cx.E.max_rec = 6
                x, z, xs, zs = values(cx, st, "x", k)
                y, u, ys, us = values(cx, st, "y", h)
                out = [Ptr(cx.obj(st, 32, t), ZERO) for t in ("q", "w", "q2", "w2")]
                for mv in (0, 1):
                    s0 = st.fork()
                    what = desc % {"k": K[k][0], "h": K[h][0], "m": ("copied", "moved")[mv]}
                    for s_, r in cx.run(s0, [x, z, y, u] + out + [C(k), C(h), C(mv)]):
                        cx.states += 1
                        c = r.const() if isinstance(r, Poly) else None
                        if c is None:
                            raise Unsupported("%s: result not determined" % what)
                        cx.E.obl += 1
                        if c:
                            cx.fail(s_, "post", "%s: %s" % (what, BAD.get(c % 16) or ("the other value: " + BAD.get(c // 16, "wrong"))))
                            continue
                        cx.E.proved += 1
                        S_ = {"x": (k, xs, zs), "y": (h, ys, us)}
                        if lookp:
                            kk, a, b = S_[lookp]
                            read(cx, s_, out[0], out[1], kk, a, b, what)
                        if lookq:
                            kk, a, b = S_[lookq]
                            read(cx, s_, out[2], out[3], kk, a, b, what + ", the other value")
                        cx.leak_check(s_)
                    cx.no_abort(guards=False)
                    cx.E.aborts = []
        g.case(P, name, "(const I* x, const double* z, const I* y, const double* u, I* q, double* w, I* q2, double* w2, I k, I h, I m)",
               "alignas(D) char A[sizeof(D)]; alignas(D) char B[sizeof(D)]; D* a = (D*)A; D* b = (D*)B; I r = 0; " + body, run, "I")

    one = [(k, 0) for k in K]
    mk = "make(a, k, x, z, m != 0); "
    mk2 = mk + "make(b, h, y, u, m != 0); "
    LA, LB = "look(*a, %s, q, w)", "16 * look(*b, %s, q2, w2)"
    end = " a->~D(); b->~D(); return r;"
    hist("make", "", mk + "r = " + LA % "k" + "; a->~D(); return r;", one, "x", None, "a Dynamic made from a %(k)s (%(m)s)")
    hist("copy", "", mk + "new (b) D(*(const D*)a); r = " + LA % "k" + " + " + LB % "k" + ";" + end, one, "x", None, "copy of a Dynamic holding a %(k)s")
    hist("copy_read", "", mk + "new (b) D(*(const D*)a); r = look(*b, k, q, w);" + end, one, "x", None, "copy of a Dynamic holding a %(k)s")
    hist("copy_changed", "", mk + "new (b) D(*(const D*)a); change(*a, k); r = look(*b, k, q, w);" + end, one, "x", None, "copy of a Dynamic holding a %(k)s after the original changed")
    hist("copy_changes", "", mk + "new (b) D(*(const D*)a); change(*b, k); r = look(*a, k, q, w);" + end, one, "x", None, "Dynamic holding a %(k)s after its copy changed")
    hist("copy_outlives", "", mk + "new (b) D(*(const D*)a); a->~D(); r = look(*b, k, q, w); b->~D(); return r;", one, "x", None, "copy of a Dynamic holding a %(k)s that is gone")
    hist("move", "", mk + "new (b) D(std::move(*a)); r = look(*b, k, q, w) + (a->type() == il::Type::Void ? 0 : 16);" + end, one, "x", None, "moved Dynamic holding a %(k)s")
    hist("assign_self", "", mk + "D& c = *a; *a = *(const D*)&c; r = look(*a, k, q, w); a->~D(); return r;", one, "x", None, "Dynamic holding a %(k)s assigned to itself")
    hist("move_self", "", mk + "D& c = *a; *a = std::move(c); r = look(*a, k, q, w); a->~D(); return r;", one, "x", None, "Dynamic holding a %(k)s moved to itself")
    hist("nested", "", mk + "{ AD v; v.Append(*a); v.Append(std::move(*a)); new (b) D(v); } r = look(b->as<AD>()[0], k, q, w) + 16 * look(b->as<AD>()[1], k, q2, w2);" + end, one, "x", "x", "%(k)s inside an Array<Dynamic>")
    hist("assign_content", "", "make(b, k, x, z, m != 0); { AD v; v.Append(*b); new (a) D(std::move(v)); } *a = (m ? a->As<AD>()[0] : a->as<AD>()[0]); r = look(*a, k, q, w);" + end, one, "x", None, "Array<Dynamic> replaced by its element, a %(k)s")
    hist("move_content", "", "make(b, k, x, z, m != 0); { AD v; v.Append(*b); new (a) D(std::move(v)); } *a = std::move(a->As<AD>()[0]); r = look(*a, k, q, w);" + end, one, "x", None, "Array<Dynamic> replaced by its element (moved), a %(k)s")
    hist("assign_map_content", "", "make(b, k, x, z, m != 0); { LD v; v.Set(\"key\", *b); new (a) D(std::move(v)); } { LD& v = a->As<LD>(); *a = v.Value(v.search(\"key\")); } r = look(*a, k, q, w);" + end, one, "x", None, "MapArray replaced by one of its values, a %(k)s")
    hist("own_string", "", mk + "if (m) *a = a->as<il::String>(); else *a = std::move(a->As<il::String>()); r = look(*a, k, q, w); a->~D(); return r;", [(k, 0) for k in (10, 11, 12, 13, 29)], "x", None, "Dynamic assigned its own %(k)s")
    heavy = [0, 1, 4, 5, 11, 12, 14, 16, 18, 19, 23, 24, 25, 26, 27]
    for t in heavy:
        pairs = [(k, t) for k in heavy]
        hist("assign_%d" % t, "", mk2 + "*a = *(const D*)b; r = " + LA % "h" + " + " + LB % "h" + ";" + end, pairs, "y", "y", "%(k)s replaced by a copy of a %(h)s")
        hist("assign_changed_%d" % t, "", mk2 + "*a = *(const D*)b; change(*b, h); r = " + LA % "h" + ";" + end, pairs, "y", None, "%(k)s replaced by a copy of a %(h)s that changed")
        hist("move_assign_%d" % t, "", mk2 + "*a = std::move(*b); r = " + LA % "h" + " + (b->type() == il::Type::Void ? 0 : 16);" + end, pairs, "y", None, "%(k)s replaced by a moved %(h)s")
    for nm, T_, h in (("bool", "y[0] != 0", 1), ("uchar", "(unsigned char)y[0]", 6), ("schar", "(signed char)y[0]", 7), ("ushort", "(unsigned short)y[0]", 8), ("short", "(short)y[0]", 9), ("int", "(int)y[0]", 2), ("integer", "(I)y[0]", 3),
                      ("float", "(float)u[0]", 4), ("double", "u[0]", 5), ("string", "str(y, 3)", 11), ("long_string", "str(y, 30)", 12)):
        body = "*a = %s;" % T_ if "str" not in T_ else "{ il::String s(%s); if (m) *a = std::move(s); else *a = s; }" % T_
        hist("set_" + nm, "", mk + body + " r = look(*a, h, q, w); a->~D(); return r;", [(k, h) for k in K], "y", None, "%(k)s replaced by the value of a %(h)s")

    def wrong(T_, kinds):
        def run(cx):
            for k in K:
                if k in kinds or (k in (11, 12, 13) and 29 in kinds):
                    continue
                st = prep(cx)
                x, z, xs, zs = values(cx, st, "x", k)
                for s_, r in cx.run(st, [x, z, C(k)]):
                    cx.fail(s_, "unchecked", "a Dynamic holding a %s is read as a %s" % (K[k][0], T_))
                cx.E.obl += 1
                cx.E.proved += 1
                cx.E.aborts = []
        return run
    for i, (T_, kinds) in enumerate(TYPES.items()):
        for how in ("As", "to" if i < 5 else "as"):
            g.case(P, "wrong_%s_%d" % (how, i), "(const I* x, const double* z, I k)", "D a[1]; a->~D(); make(a, k, x, z, false); (void)a->%s<%s>(); return 0;" % (how, T_), wrong(T_, kinds), "I")
    return g


def groups():
    return [build_dyn()]
