"""Files of il::save and il::load: what was saved is what is loaded, for unknown contents.

The stream functions of the C library are stood in for by a store in memory that has the behaviour the standard gives
them, so that saving and loading are interpreted one after the other in one history."""
from dyn import *

STREAM = '''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <iostream>
namespace ilv {
struct Store { char* data; size_t cap, end, pos; int eof, open; };
static Store G;
static Store H[3];
// what is not stood in for: the analysis gives no verdict
static void unknown(int n = 0) { unknown(n + 1); }
static inline Store* of(FILE* f) { return reinterpret_cast<Store*>(f); }
static inline void copy(void* a, const void* b, size_t n) { if (n > 0) __builtin_memcpy(a, b, n); }
// one file per ending of three letters
static inline Store* named(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  if (n < 4 || s[n - 1] == 'y' || s[n - 1] == 'a' || s[n - 1] == 'l') return &G;
  return s[n - 1] == 'w' ? &H[0] : s[n - 1] == 'n' ? &H[1] : &H[2];
}
}
extern "C" {
FILE* fopen(const char* name, const char* mode) { ilv::Store* s = ilv::named(name); if (s->data == nullptr) return nullptr; s->pos = 0; s->eof = 0; s->open += 1; if (mode[0] == 'w') s->end = 0; return reinterpret_cast<FILE*>(s); }
int fclose(FILE* f) { ilv::of(f)->open -= 1; return 0; }
int feof(FILE* f) noexcept { return ilv::of(f)->eof; }
int ferror(FILE*) noexcept { return 0; }
int fflush(FILE*) { return 0; }
size_t fread(void* p, size_t s, size_t n, FILE* f) {
  ilv::Store* t = ilv::of(f);
  size_t left = t->end - t->pos, want = s * n;
  if (want > left) { t->eof = 1; n = left / s; want = left; }
  ilv::copy(p, t->data + t->pos, want);
  t->pos += want;
  return n;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  ilv::Store* t = ilv::of(f);
  if (s * n > t->cap - t->pos) __builtin_abort();
  ilv::copy(t->data + t->pos, p, s * n);
  t->pos += s * n;
  if (t->pos > t->end) t->end = t->pos;
  return n;
}
int fgetc(FILE* f) { ilv::Store* t = ilv::of(f); if (t->pos == t->end) { t->eof = 1; return -1; } return (unsigned char)t->data[t->pos++]; }
int getc(FILE* f) { return fgetc(f); }
int fputc(int c, FILE* f) { char b = (char)c; fwrite(&b, 1, 1, f); return (unsigned char)b; }
int ungetc(int c, FILE* f) { if (c != -1) { ilv::of(f)->pos -= 1; ilv::of(f)->eof = 0; } return c; }
char* fgets(char* b, int n, FILE* f) {
  int i = 0;
  while (i < n - 1) { int c = fgetc(f); if (c == -1) break; b[i++] = (char)c; if (c == '\\n') break; }
  if (i == 0) return nullptr;
  b[i] = 0;
  return b;
}
int fputs(const char* b, FILE* f) { size_t n = 0; while (b[n]) ++n; fwrite(b, 1, n, f); return 1; }
long long atoll(const char* b) noexcept { while (*b == ' ') ++b; bool m = *b == '-'; if (m || *b == '+') ++b; long long r = 0; while (*b >= '0' && *b <= '9') r = 10 * r + (*b++ - '0'); return m ? -r : r; }
long atol(const char* b) noexcept { return atoll(b); }
int atoi(const char* b) noexcept { return (int)atoll(b); }
}
namespace std {
// formats that print one integer, whatever its length modifier
template <typename... A> static int ilv_snprintf(char* b, size_t m, const char* f, A... a) {
  long long v[sizeof...(A) + 1] = {(long long)a...};
  size_t n = 0, k = 0;
  for (; *f; ++f) {
    if (*f != '%') { if (n + 1 < m) b[n] = *f; ++n; continue; }
    ++f;
    while (*f == 'l' || *f == 't' || *f == 'z' || *f == 'j' || *f == 'h') ++f;
    if (*f != 'd' && *f != 'i' && *f != 'u') ilv::unknown();
    long long x = v[k++];
    if (x < 0) { if (n + 1 < m) b[n] = '-'; ++n; x = -x; }
    long long p = 1;
    while (x / p >= 10) p *= 10;
    for (; p > 0; p /= 10) { if (n + 1 < m) b[n] = (char)('0' + x / p % 10); ++n; }
  }
  if (m > 0) b[n < m ? n : m - 1] = 0;
  return (int)n;
}
template <typename... A> static int ilv_sprintf(char* b, const char* f, A... a) { return ilv_snprintf(b, (size_t)1 << 40, f, a...); }
}
using std::ilv_sprintf;
using std::ilv_snprintf;
#define sprintf ilv_sprintf
#define snprintf ilv_snprintf
'''
PRE_PACK = PRE_D.replace("\ntypedef il::int_t I;", STREAM + '''
#include <il/io/filepack/filepack.h>
typedef il::int_t I;''', 1) + '''
static void store(char* s, I n) { ilv::G.data = s; ilv::G.cap = n; ilv::G.end = 0; ilv::G.pos = 0; ilv::G.eof = 0; ilv::G.open = 0; }
// the kinds that can be saved
static D value(I k, const I* x, const double* z) {
  switch (k) {
    case 40: { LD a; a.Set("a", D((I)x[0])); a.Set("bcd", D(str(x + 1, 30))); a.Set("e", D(z[0])); return D(a); }
    case 41: { LD b; b.Set("u", D(z[1])); b.Set("v", D(str(x + 1, 3))); LD a; a.Set("a", D((I)x[0])); a.Set("inner", D(b)); a.Set("e", D(z[0])); return D(a); }
    case 42: { LD a; return D(a); }
    case 43: { il::Array2D<double> a(2, 2); a(0, 0) = z[0]; a(1, 0) = z[1]; a(0, 1) = z[2]; a(1, 1) = z[3]; a.Reserve(5, 4); return D(std::move(a)); }
    case 44: { il::Array2D<unsigned char> a(2, 2); a(0, 0) = (unsigned char)x[0]; a(1, 0) = (unsigned char)x[1]; a(0, 1) = (unsigned char)x[2]; a(1, 1) = (unsigned char)x[3]; a.Reserve(7, 3); return D(std::move(a)); }
    case 45: { il::Array2D<double> a; return D(a); }
    case 46: { il::Array<double> a(20); for (I i = 0; i < 20; ++i) a[i] = i < 4 ? z[i] : 1.0; return D(a); }
    case 47: { char b[300]; for (I i = 0; i < 300; ++i) b[i] = i < 3 ? (char)x[i] : 'a'; return D(il::String(il::StringType::Ascii, b, 300)); }
    case 48: { char b[3] = {(char)x[0], 0, (char)x[2]}; return D(il::String(il::StringType::Byte, b, 3)); }
    default: { alignas(D) char A[sizeof(D)]; D* a = (D*)A; make(a, k, x, z, false); D b(std::move(*a)); a->~D(); return b; }
  }
}
static il::String name(const char* s) { return il::String(il::StringType::Byte, s, il::size(s)); }
template <typename M> static I check(const M& a, const char* key, I k, I* q, double* w);
template <typename M> static I seen(const D& d, I k, I* q, double* w) {
  switch (k) {
    case 40: case 41: {
      if (!d.is<M>()) return 1;
      const M& a = d.as<M>();
      il::spot_t i = a.search("a"), j = a.search(name(k == 40 ? "bcd" : "inner")), e = a.search("e");
      if (!a.found(i) || !a.found(j) || !a.found(e)) return 2;
      if (!a.value(i).template is<I>() || !a.value(e).template is<double>()) return 1;
      q[0] = a.value(i).template to<I>(); w[0] = a.value(e).template to<double>();
      if (k == 40) return lookS(a.value(j), 30, 3, q + 1);
      if (!a.value(j).template is<M>()) return 1;
      const M& b = a.value(j).template as<M>();
      il::spot_t u = b.search("u"), v = b.search("v");
      if (!b.found(u) || !b.found(v)) return 2;
      w[1] = b.value(u).template to<double>();
      return lookS(b.value(v), 3, 3, q + 1);
    }
    case 42: return !d.is<M>() ? 1 : d.as<M>().nbElements() == 0 ? 0 : 2;
    case 43: { if (!d.is<il::Array2D<double>>()) return 1; const il::Array2D<double>& a = d.as<il::Array2D<double>>(); if (a.size(0) != 2 || a.size(1) != 2) return 2; w[0] = a(0, 0); w[1] = a(1, 0); w[2] = a(0, 1); w[3] = a(1, 1); return 0; }
    case 44: { if (!d.is<il::Array2D<unsigned char>>()) return 1; const il::Array2D<unsigned char>& a = d.as<il::Array2D<unsigned char>>(); if (a.size(0) != 2 || a.size(1) != 2) return 2; q[0] = a(0, 0); q[1] = a(1, 0); q[2] = a(0, 1); q[3] = a(1, 1); return 0; }
    case 45: { if (!d.is<il::Array2D<double>>()) return 1; const il::Array2D<double>& a = d.as<il::Array2D<double>>(); return a.size(0) == 0 && a.size(1) == 0 ? 0 : 2; }
    case 46: { if (!d.is<il::Array<double>>()) return 1; const il::Array<double>& a = d.as<il::Array<double>>(); if (a.size() != 20) return 2; for (I i = 0; i < 4; ++i) w[i] = a[i]; return 0; }
    case 47: return lookS(d, 300, 3, q);
    case 48: return lookS(d, 3, 3, q);
    default: return look(d, k, q, w);
  }
}
template <typename M> static I check(const M& a, const char* key, I k, I* q, double* w) {
  il::spot_t i = a.search(name(key));
  if (!a.found(i)) return 3;
  return seen<M>(a.value(i), k, q, w);
}
static void save(const LD& a) { il::Status st{}; il::save(a, il::String("f.data"), il::io, st); st.AbortOnError(); if (ilv::G.open != 0) __builtin_abort(); }
template <typename M> static M load() { il::Status st{}; M b = il::load<M>(il::String("f.data"), il::io, st); st.AbortOnError(); if (ilv::G.open != 0 || ilv::G.pos != ilv::G.end) __builtin_abort(); return b; }
'''
KP = {k: K[k] for k in (1, 2, 3, 4, 5, 10, 11, 12, 14, 23, 24, 28, 29)}
INT63 = (0, (1 << 40))
KP[2] = ("int", 1, 0, (0, (1 << 31) - 1))
KP[3] = ("integer", 1, 0, INT63)
KP[40] = ("MapArray", 4, 1, (1, 127))
KP[41] = ("nested MapArray", 4, 2, (1, 127))
KP[42] = ("empty MapArray", 0, 0, None)
KP[43] = ("Array2D<double> with spare capacity", 0, 4, None)
KP[44] = ("Array2D<unsigned char> with spare capacity", 4, 0, (0, 255))
KP[45] = ("empty Array2D<double>", 0, 0, None)
KP[46] = ("Array<double> of 20", 0, 4, None)
KP[47] = ("string of 300", 3, 0, (1, 127))
KP[48] = ("string with a zero", 3, 0, (0, 127))
BADP = dict(BAD)
BADP[3] = "its key is not found"
BADP[5] = "the order of the keys is not the one of insertion"
BADP[6] = "the number of entries is wrong"


def build_pack():
    g = Group("pack", PRE_PACK)
    g.life = P = "P01"

    def value(cx, st, tag, k):
        name, n, d, rng = KP[k]
        x, z = cx.obj(st, 32, "x" + tag), cx.obj(st, 32, "z" + tag)
        xs, zs = [], []
        for i in range(4):
            lo, hi = rng or (0, 0)
            if k == 48 and i == 1:
                v = ZERO
            else:
                v = S(T.new(tag + str(i), "v"))
                st.add(v - lo)
                st.add(C(hi) - v)
            xs.append(v)
            cx.put(st, x, 8 * i, 8, v)
            zs.append(Term("init", "z" + tag, C(i)))
            cx.put(st, z, 8 * i, 8, zs[-1])
        return Ptr(x, ZERO), Ptr(z, ZERO), xs, zs

    def read(cx, st, q, w, k, xs, zs, what):
        name, n, d, rng = KP[k]
        for i in range(n):
            for y, v in cx.E.load(st, Ptr(q.o, C(8 * i)), 8, IR.INT(64), what):
                if not isinstance(v, Poly):
                    raise Unsupported("%s: value not determined" % what)
                cx.expect(y, v - xs[i], "post", "%s: value %d" % (what, i), True)
        for i in range(d):
            for y, v in cx.E.load(st, Ptr(w.o, C(8 * i)), 8, IR.DOUBLE, what):
                cx.E.obl += 1
                try:
                    a, b = poly(v), poly(zs[i])
                except Undetermined:
                    raise Unsupported("%s: number not determined" % what)
                if (a - b).const() != 0:
                    cx.fail(y, "post", "%s: number %d is %s" % (what, i, v))
                else:
                    cx.E.proved += 1

    def hist(name, body, combos, desc, both=True, size=2048):
        def run(cx):
            for k, h in combos:
                st = prep(cx)
                cx.E.unroll_all = 1200
                cx.E.max_steps = 20000000
                cx.E.max_rec = 6
                x, z, xs, zs = value(cx, st, "x", k)
                y, u, ys, us = value(cx, st, "y", h)
                out = [Ptr(cx.obj(st, 32, t), ZERO) for t in ("q", "w", "q2", "w2")]
                mem = Ptr(cx.obj(st, size, "file"), ZERO)
                what = desc % {"k": KP[k][0], "h": KP[h][0]}
                for s_, r in cx.run(st, [x, z, y, u] + out + [mem, C(k), C(h)]):
                    cx.states += 1
                    c = r.const() if isinstance(r, Poly) else None
                    if c is None:
                        raise Unsupported("%s: result not determined" % what)
                    cx.E.obl += 1
                    if c:
                        cx.fail(s_, "post", "%s: %s" % (what, BADP.get(c % 16) or ("the other value: " + BADP.get(c // 16, "wrong"))))
                        continue
                    cx.E.proved += 1
                    read(cx, s_, out[0], out[1], k, xs, zs, what)
                    if both:
                        read(cx, s_, out[2], out[3], h, ys, us, what + ", the other value")
                    cx.leak_check(s_)
                cx.no_abort(guards=False)
                cx.E.aborts = []
        g.case(P, name, "(const I* x, const double* z, const I* y, const double* u, I* q, double* w, I* q2, double* w2, char* f, I k, I h)", "store(f, %d); " % size + body, run, "I")
    ks = [k for k in KP if k != 49]
    one = [(k, 1) for k in ks]
    pairs = [(k, h) for k in ks for h in (3, 5, 12, 24, 40) if k not in (2, 10)]
    hist("one", 'LD a; a.Set("key", value(k, x, z)); save(a); LD b = load<LD>(); if (b.nbElements() != 1) return 6; return check(b, "key", k, q, w);', one, "a %(k)s saved and loaded", False)
    hist("long_key", 'LD a; a.Set("%s", value(k, x, z)); save(a); LD b = load<LD>(); if (b.nbElements() != 1) return 6; return check(b, "%s", k, q, w);' % ("k" * 130, "k" * 130), [(k, 1) for k in (1, 5, 12)], "a %(k)s saved under a key of 130 characters", False)
    hist("unknown_key", 'char t[3] = {(char)y[0], (char)y[1], 0}; LD a; a.Set(il::String(il::StringType::Ascii, t, 2), value(k, x, z)); save(a); LD b = load<LD>(); if (b.nbElements() != 1) return 6; if (b.key(0).size() != 2 || !(b.key(0) == t)) return 3; return seen<LD>(b.value(0), k, q, w);', [(5, 11)], "a %(k)s saved under any key", False)
    for i in range(0, len(pairs), 10):
        two = pairs[i:i + 10]
        hist("two_%d" % (i // 10), 'LD a; a.Set("key", value(k, x, z)); a.Set("second", value(h, y, u)); save(a); LD b = load<LD>(); if (b.nbElements() != 2) return 6; if (!(b.key(0) == "key") || !(b.key(1) == "second")) return 5; return check(b, "key", k, q, w) + 16 * check(b, "second", h, q2, w2);', two, "a %(k)s saved together with a %(h)s and loaded")
        hist("map_%d" % (i // 10), 'LD a; a.Set("key", value(k, x, z)); a.Set("second", value(h, y, u)); save(a); MD b = load<MD>(); if (b.nbElements() != 2) return 6; return check(b, "key", k, q, w) + 16 * check(b, "second", h, q2, w2);', two, "a %(k)s saved together with a %(h)s and loaded as a Map")
    hist("again", 'LD a; a.Set("key", value(k, x, z)); a.Set("second", value(h, y, u)); save(a); save(a); LD b = load<LD>(); LD c = load<LD>(); if (b.nbElements() != 2 || c.nbElements() != 2) return 6; return check(c, "key", k, q, w) + 16 * check(b, "second", h, q2, w2);', [(5, 12), (40, 3)], "a %(k)s saved twice together with a %(h)s and loaded twice")
    hist("resaved", 'LD a; a.Set("key", value(k, x, z)); a.Set("second", value(h, y, u)); save(a); { LD b = load<LD>(); save(b); } LD c = load<LD>(); if (c.nbElements() != 2) return 6; return check(c, "key", k, q, w) + 16 * check(c, "second", h, q2, w2);', [(5, 12), (41, 3), (43, 24)], "a %(k)s saved, loaded, saved and loaded together with a %(h)s")
    hist("nothing", 'LD a; save(a); LD b = load<LD>(); return b.nbElements() == 0 ? 0 : 6;', [(42, 42)], "an empty MapArray saved and loaded", False)
    COL = 'LD c; { il::Array<double> v(3); v[0] = z[0]; v[1] = z[1]; v[2] = 0.0; c.Set("mass", D(v)); il::Array<int> n(3); n[0] = (int)x[0]; n[1] = (int)x[1]; n[2] = 7; c.Set("number", D(n)); } LD a; a.Set("before", value(h, y, u)); a.Set("particles", D(c)); a.Set("after", D((I)12)); il::Array<il::String> o(1); o[0] = "particles"; { il::Status st{}; il::save(a, o, il::String("f.data"), il::io, st); st.AbortOnError(); } if (ilv::G.open != 0) return 8; '
    for M in ("LD", "MD"):
        hist("columns_" + M, COL + ('@ b = load<@>(); if (b.nbElements() != 3) return 6; il::spot_t i = b.search("particles"), j = b.search("after"); if (!b.found(i) || !b.found(j)) return 3; if (!b.value(i).is<@>()) return 1; if (b.value(j).to<I>() != 12) return 7; '
             'const @& p = b.value(i).as<@>(); il::spot_t m = p.search("mass"), n = p.search("number"); if (!p.found(m) || !p.found(n) || p.nbElements() != 2) return 3; '
             'const il::Array<double>& v = p.value(m).as<il::Array<double>>(); const il::Array<int>& s = p.value(n).as<il::Array<int>>(); if (v.size() != 3 || s.size() != 3) return 2; '
             'w[0] = v[0]; w[1] = v[1]; q[0] = s[0]; q[1] = s[1]; if (s[2] != 7) return 7; return 16 * check(b, "before", h, q2, w2);').replace("@", M), [(49, h) for h in (3, 12, 14, 40)], "columns saved as an array of structures together with a %(h)s")
    for n, v in enumerate(("-1", "-128", "-9223372036854775807LL - 1", "9223372036854775807LL", "127", "128", "16383", "16384", "1LL << 56", "(1LL << 62) - 1", "0", "(1LL << 35) - 1")):
        hist("integer_%d" % n, 'LD a; a.Set("key", D((I)(%s))); a.Set("second", value(h, y, u)); save(a); LD b = load<LD>(); if (b.nbElements() != 2) return 6; il::spot_t i = b.search("key"); if (!b.found(i)) return 3; if (!b.value(i).is<I>()) return 1; if (b.value(i).to<I>() != (I)(%s)) return 7; return 16 * check(b, "second", h, q2, w2);' % (v, v), [(42, 5)], "the integer %s saved and loaded" % v)
    return g


KP[49] = ("columns", 2, 2, (0, 1 << 30))
BADP[7] = "its value is wrong"

PRE_NPY = STREAM + '''
#include <il/io/numpy/numpy.h>
#include <il/io/numpy/numpy.cpp>
typedef il::int_t I;
static void store(char* s, I n) { ilv::G.data = s; ilv::G.cap = n; ilv::G.end = 0; ilv::G.pos = 0; ilv::G.eof = 0; ilv::G.open = 0; }
template <typename T> static void save(const T& a, const char* n) { il::Status st{}; il::save(a, il::String(il::StringType::Byte, n, il::size(n)), il::io, st); st.AbortOnError(); if (ilv::G.open != 0) __builtin_abort(); }
template <typename T> static T load(const char* n) { il::Status st{}; T b = il::load<T>(il::String(il::StringType::Byte, n, il::size(n)), il::io, st); st.AbortOnError(); if (ilv::G.open != 0) __builtin_abort(); return b; }
// the header that the format prescribes: magic, version, length; a multiple of 64 in all, ended by a line feed
static I header(const char* f, I n, const char* text) {
  const char magic[9] = "\\x93NUMPY\\x01";
  for (I i = 0; i < 7; ++i) if (f[i] != magic[i]) return 20 + i;
  if (f[7] != 0) return 30;
  I len = (I)(unsigned char)f[8] + 256 * (I)(unsigned char)f[9];
  if ((10 + len) % 64 != 0 || (I)ilv::G.end != 10 + len + n) return 31;
  if (f[10 + len - 1] != '\\n') return 32;
  I i = 0;
  for (; text[i]; ++i) if (f[10 + i] != text[i]) return 33;
  for (; i < len - 1; ++i) if (f[10 + i] != ' ') return 34;
  return 0;
}
static void plain(const char* text, I pad) {
  const char magic[9] = "\\x93NUMPY\\x01";
  for (I i = 0; i < 8; ++i) ilv::G.data[i] = magic[i];
  I n = 0;
  for (; text[n]; ++n) ilv::G.data[10 + n] = text[n];
  for (I i = 0; i < pad; ++i) ilv::G.data[10 + n++] = ' ';
  ilv::G.data[10 + n++] = '\\n';
  ilv::G.data[8] = (char)(n % 256); ilv::G.data[9] = (char)(n / 256);
  ilv::G.end = 10 + n;
}
static void more(const void* p, I n) { __builtin_memcpy(ilv::G.data + ilv::G.end, p, n); ilv::G.end += n; }
'''


def build_npy():
    g = Group("npy", PRE_NPY)
    g.life = P = "P01"

    def hist(name, body, desc, nd=0, ni=0, want=None, size=1024, code=None, perm=None):
        """nd doubles (z) or ni ints (x); the body leaves them in w / q"""
        def run(cx):
            st = prep(cx)
            cx.E.unroll_all = 1200
            cx.E.max_steps = 20000000
            n = max(nd, ni, 48)
            x, z, q, w = (cx.obj(st, 8 * n, t) for t in ("x", "z", "q", "w"))
            xs, zs = [], []
            for i in range(n):
                v = S(T.new("x%d" % i, "v"))
                st.add(v + (1 << 31))
                st.add(C((1 << 31) - 1) - v)
                xs.append(v)
                cx.put(st, x, 8 * i, 8, v)
                zs.append(Term("init", "z", C(i)))
                cx.put(st, z, 8 * i, 8, zs[-1])
            mem = Ptr(cx.obj(st, size, "file"), ZERO)
            for s_, r in cx.run(st, [Ptr(x, ZERO), Ptr(z, ZERO), Ptr(q, ZERO), Ptr(w, ZERO), mem]):
                cx.states += 1
                c = r.const() if isinstance(r, Poly) else None
                if c is None:
                    raise Unsupported("%s: result not determined" % desc)
                cx.E.obl += 1
                if c:
                    cx.fail(s_, "post", "%s: %s" % (desc, {1: "the size is wrong", 2: "the error is not reported", 3: "an error is reported"}.get(c, "the file is not in the format of numpy (%d)" % c)))
                    continue
                cx.E.proved += 1
                for i in range(ni):
                    for y, v in cx.E.load(s_, Ptr(q, C(8 * i)), 8, IR.INT(64), desc):
                        if not isinstance(v, Poly):
                            raise Unsupported("%s: value not determined" % desc)
                        cx.expect(y, v - xs[i], "post", "%s: element %d" % (desc, i), True)
                for i in range(nd):
                    for y, v in cx.E.load(s_, Ptr(w, C(8 * i)), 8, IR.DOUBLE, desc):
                        cx.E.obl += 1
                        try:
                            a, b = poly(v), poly(zs[i])
                        except Undetermined:
                            raise Unsupported("%s: number not determined" % desc)
                        if (a - b).const() != 0:
                            cx.fail(y, "post", "%s: element %d is %s" % (desc, i, v))
                        else:
                            cx.E.proved += 1
                cx.leak_check(s_)
            cx.no_abort(guards=False)
            cx.E.aborts = []
        g.case(P, name, "(const I* x, const double* z, I* q, double* w, char* f)", "store(f, %d); " % size + body, run, "I")
    for n in (0, 1, 2, 3, 5, 12):
        for T_, src, dst, tn in (("double", "z", "w", "f8"), ("int", "(int)x", "q", "i4")):
            k = dict(nd=n) if T_ == "double" else dict(ni=n)
            fill = "il::Array<%s> a(%d); for (I i = 0; i < %d; ++i) a[i] = %s[i]; " % (T_, n, n, src)
            back = "if (b.size() != %d) return 1; for (I i = 0; i < %d; ++i) %s[i] = b[i]; " % (n, n, dst)
            hist("array_%s_%d" % (T_, n), fill + 'save(a, "f.npy"); il::Array<%s> b = load<il::Array<%s>>("f.npy"); ' % (T_, T_) + back + "return 0;", "Array<%s> of size %d saved and loaded" % (T_, n), **k)
            hist("array_reserved_%s_%d" % (T_, n), fill + 'a.Reserve(%d); save(a, "f.npy"); il::Array<%s> b = load<il::Array<%s>>("f.npy"); ' % (n + 5, T_, T_) + back + "return 0;", "Array<%s> of size %d with spare capacity saved and loaded" % (T_, n), **k)
            hist("header_%s_%d" % (T_, n), fill + "save(a, \"f.npy\"); return header(f, %d, \"{'descr': '<%s', 'fortran_order': True, 'shape': (%d,), }\");" % (n * (8 if T_ == "double" else 4), tn, n), "file of an Array<%s> of size %d" % (T_, n))
    for n0, n1 in ((0, 0), (0, 3), (3, 0), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 12), (12, 2)):
        for T_, src, dst, tn in (("double", "z", "w", "f8"), ("int", "(int)x", "q", "i4")):
            n = n0 * n1
            k = dict(nd=n) if T_ == "double" else dict(ni=n)
            def fill(decl):
                return "il::Array2D<%s> a%s; for (I j = 0; j < %d; ++j) for (I i = 0; i < %d; ++i) a(i, j) = %s[j * %d + i]; " % (T_, decl, n1, n0, src, n0)
            back = "if (b.size(0) != %d || b.size(1) != %d) return 1; for (I j = 0; j < %d; ++j) for (I i = 0; i < %d; ++i) %s[j * %d + i] = b(i, j); " % (n0, n1, n1, n0, dst, n0)
            for nm, decl, more_ in (("plain", "(%d, %d)" % (n0, n1), ""), ("reserved", "(%d, %d)" % (n0, n1), "a.Reserve(%d, %d); " % (n0 + 3, n1 + 2)), ("aligned", "(%d, %d, il::align, 64)" % (n0, n1), ""), ("shrunk", "", "")):
                if nm == "shrunk":
                    f_ = "il::Array2D<%s> a(%d, %d, (%s)0); a.Resize(%d, %d); for (I j = 0; j < %d; ++j) for (I i = 0; i < %d; ++i) a(i, j) = %s[j * %d + i]; " % (T_, n0 + 2, n1 + 1, T_, n0, n1, n1, n0, src, n0)
                else:
                    f_ = fill(decl) + more_
                hist("array2d_%s_%s_%d_%d" % (nm, T_, n0, n1), f_ + 'save(a, "f.npy"); il::Array2D<%s> b = load<il::Array2D<%s>>("f.npy"); ' % (T_, T_) + back + "return 0;", "Array2D<%s> of %d x %d (%s) saved and loaded" % (T_, n0, n1, nm), **k)
            hist("header2d_%s_%d_%d" % (T_, n0, n1), fill("(%d, %d)" % (n0, n1)) + "save(a, \"f.npy\"); return header(f, %d, \"{'descr': '<%s', 'fortran_order': True, 'shape': (%d, %d), }\");" % (n * (8 if T_ == "double" else 4), tn, n0, n1), "file of an Array2D<%s> of %d x %d" % (T_, n0, n1))
    # sizes of more digits, with a few unknown elements among equal ones
    for n in (9, 10, 99, 100, 105, 150, 256, 999, 1000):
        for T_, src, dst, tn in (("double", "z", "w", "f8"), ("int", "(int)x", "q", "i4")):
            k = dict(nd=3) if T_ == "double" else dict(ni=3)
            hist("long_%s_%d" % (T_, n), "il::Array<%s> a(%d, (%s)0); a[0] = %s[0]; a[%d] = %s[1]; a[%d] = %s[2]; save(a, \"f.npy\"); il::Array<%s> b = load<il::Array<%s>>(\"f.npy\"); if (b.size() != %d) return 1; %s[0] = b[0]; %s[1] = b[%d]; %s[2] = b[%d]; return 0;" % (T_, n, T_, src, n // 2, src, n - 1, src, T_, T_, n, dst, dst, n // 2, dst, n - 1), "Array<%s> of size %d saved and loaded" % (T_, n), size=8 * n + 512, **k)
    for n0, n1 in ((10, 100), (100, 10), (1, 1000), (1000, 1), (2, 105), (128, 9)):
        for T_, src, dst, tn in (("double", "z", "w", "f8"), ("int", "(int)x", "q", "i4")):
            k = dict(nd=3) if T_ == "double" else dict(ni=3)
            hist("long2d_%s_%d_%d" % (T_, n0, n1), "il::Array2D<%s> a(%d, %d, (%s)0); a(0, %d) = %s[0]; a(%d, 0) = %s[1]; a(%d, %d) = %s[2]; save(a, \"f.npy\"); il::Array2D<%s> b = load<il::Array2D<%s>>(\"f.npy\"); if (b.size(0) != %d || b.size(1) != %d) return 1; %s[0] = b(0, %d); %s[1] = b(%d, 0); %s[2] = b(%d, %d); return 0;" % (T_, n0, n1, T_, n1 // 2, src, n0 // 2, src, n0 - 1, n1 - 1, src, T_, T_, n0, n1, dst, n1 // 2, dst, n0 // 2, dst, n0 - 1, n1 - 1), "Array2D<%s> of %d x %d saved and loaded" % (T_, n0, n1), size=8 * n0 * n1 + 512, **k)
    # files made by numpy itself
    for pad in (0, 1, 20, 63):
        for T_, tn, src, dst in (("double", "f8", "z", "w"), ("int", "i4", "(int)x", "q")):
            k = dict(nd=4) if T_ == "double" else dict(ni=4)
            put_ = "%s v[4]; for (I i = 0; i < 4; ++i) v[i] = %s[i]; more(v, sizeof(v)); " % (T_, src)
            hist("numpy_1d_%s_%d" % (T_, pad), "plain(\"{'descr': '<%s', 'fortran_order': False, 'shape': (4,), }\", %d); " % (tn, pad) + put_ + 'il::Array<%s> b = load<il::Array<%s>>("f.npy"); if (b.size() != 4) return 1; for (I i = 0; i < 4; ++i) %s[i] = b[i]; return 0;' % (T_, T_, dst), "vector of numpy loaded as Array<%s>" % T_, **k)
            hist("numpy_2d_%s_%d" % (T_, pad), "plain(\"{'descr': '<%s', 'fortran_order': True, 'shape': (2, 2), }\", %d); " % (tn, pad) + put_ + 'il::Array2D<%s> b = load<il::Array2D<%s>>("f.npy"); if (b.size(0) != 2 || b.size(1) != 2) return 1; for (I i = 0; i < 4; ++i) %s[i] = b(i %% 2, i / 2); return 0;' % (T_, T_, dst), "matrix of numpy loaded as Array2D<%s>" % T_, **k)
    # a sparse matrix in its three files
    SP = ("struct { I r[4], c[4]; } b = {{0, 1, 3, 3}, {1, 0, 2, 0}}; il::Array<il::int_t> row(4), col(3); il::Array<double> el(3); for (I i = 0; i < 4; ++i) row[i] = b.r[i]; for (I i = 0; i < 3; ++i) { col[i] = b.c[i]; el[i] = z[i]; } char m[1536]; "
          "ilv::H[0].data = m; ilv::H[0].cap = 512; ilv::H[1].data = m + 512; ilv::H[1].cap = 512; ilv::H[2].data = m + 1024; ilv::H[2].cap = 512; ")
    SV = "{ il::Status st{}; il::SaveHelper<il::Array<il::int_t>>::save(row, il::String(\"f.npy.row\"), il::io, st); st.AbortOnError(); } { il::Status st{}; il::SaveHelper<il::Array<il::int_t>>::save(col, il::String(\"f.npy.column\"), il::io, st); st.AbortOnError(); } { il::Status st{}; il::SaveHelper<il::Array<double>>::save(el, il::String(\"f.npy.element\"), il::io, st); st.AbortOnError(); } "
    LS = "il::Status st{}; il::SparseMatrixCSR<I, double> A = il::load<il::SparseMatrixCSR<I, double>>(il::String(\"f.npy\"), il::io, st); for (I i = 0; i < 3; ++i) if (ilv::H[i].open != 0) return 4; "
    hist("sparse", SP + SV + LS + "if (!st.Ok()) return 3; if (A.size(0) != 3 || A.size(1) != 3 || A.nbNonZeros() != 3) return 1; for (I i = 0; i < 4; ++i) if (A.row(i) != b.r[i]) return 5; for (I i = 0; i < 3; ++i) { if (A.column(i) != b.c[i]) return 5; w[i] = A[i]; } return 0;", "sparse matrix loaded from its three files", nd=3)
    for i in range(3):
        hist("sparse_missing_%d" % i, SP + SV + "ilv::H[%d].data = nullptr; " % i + LS + "return st.Ok() ? 2 : 0;", "sparse matrix of which a file is missing")
        hist("sparse_short_%d" % i, SP + SV + "ilv::H[%d].end -= 1; " % i + LS + "return st.Ok() ? 2 : 0;", "sparse matrix of which a file is too short")
    hist("missing", "ilv::G.data = nullptr; il::Status st{}; il::Array<double> b = il::load<il::Array<double>>(il::String(\"f.npy\"), il::io, st); return st.Ok() ? 2 : 0;", "file that does not exist")
    hist("missing_save", "ilv::G.data = nullptr; il::Array<double> a(2, 1.0); il::Status st{}; il::save(a, il::String(\"f.npy\"), il::io, st); return st.Ok() ? 2 : 0;", "file that cannot be created")
    # what does not fit is reported
    V = "double v[4]; for (I i = 0; i < 4; ++i) v[i] = z[i]; "
    ok = "{'descr': '<f8', 'fortran_order': %s, 'shape': (%s), }"
    A1, A2, AI = "il::Array<double>", "il::Array2D<double>", "il::Array<int>"
    for name, text, size, T_ in (("type", ok % ("True", "4,"), 32, AI), ("type_from_int", "{'descr': '<i4', 'fortran_order': True, 'shape': (4,), }", 32, A1), ("rank_1", ok % ("True", "4,"), 32, A2), ("rank_2", ok % ("True", "2, 2"), 32, A1), ("order", ok % ("False", "2, 2"), 32, A2),
                                 ("endian", "{'descr': '>f8', 'fortran_order': True, 'shape': (4,), }", 32, A1), ("short", ok % ("True", "4,"), 31, A1), ("short_2d", ok % ("True", "2, 2"), 24, A2), ("empty", ok % ("True", "4,"), 0, A1), ("no_descr", "{'fortran_order': True, 'shape': (4,), }", 32, A1), ("no_order", "{'descr': '<f8', 'shape': (4,), }                      ", 32, A1),
                                 ("no_shape", "{'descr': '<f8', 'fortran_order': True, }", 32, A1)):
        hist("wrong_" + name, V + "plain(\"%s\", 10); more(v, %d); il::Status st{}; %s b = il::load<%s>(il::String(\"f.npy\"), il::io, st); if (ilv::G.open != 0) return 4; return st.Ok() ? 2 : 0;" % (text, size, T_, T_), "file that does not hold a %s (%s)" % (T_, name))
    for name, edit in (("magic", "f[1] = 'n';"), ("major", "f[6] = 2;"), ("minor", "f[7] = 1;"), ("line", "f[73] = ' ';"), ("cut_0", "ilv::G.end = 0;"), ("cut_5", "ilv::G.end = 5;"), ("cut_9", "ilv::G.end = 9;"), ("cut_10", "ilv::G.end = 10;")):
        hist("damaged_" + name, V + "plain(\"%s\", %d); more(v, 32); %s il::Status st{}; il::Array<double> b = il::load<il::Array<double>>(il::String(\"f.npy\"), il::io, st); if (ilv::G.open != 0) return 4; return st.Ok() ? 2 : 0;" % (ok % ("True", "4,"), 63 - len(ok % ("True", "4,")), edit), "damaged file (%s)" % name)
    return g


def groups():
    return [build_pack(), build_npy()]
