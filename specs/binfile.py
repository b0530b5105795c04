"""il::File and il::readPpm: the bytes of a file, in order, whatever the buffer is and whatever the sizes asked for are.

The stream functions are those of pack.py, with the two that move in a file and the one that reads numbers."""
from pack import *

SEEK = '''
extern "C" {
long ftell(FILE* f) { return (long)ilv::of(f)->pos; }
int fseek(FILE* f, long n, int from) {
  ilv::Store* t = ilv::of(f);
  long p = n + (from == SEEK_SET ? 0 : from == SEEK_CUR ? (long)t->pos : (long)t->end);
  if (p < 0) return -1;
  t->pos = (size_t)p; t->eof = 0;
  return 0;
}
void rewind(FILE* f) { ilv::of(f)->pos = 0; ilv::of(f)->eof = 0; }
}
namespace std {
static int ilv_number(FILE* f, int* p) {
  ilv::Store* t = ilv::of(f);
  size_t i = t->pos;
  while (i < t->end && (t->data[i] == ' ' || (t->data[i] >= 9 && t->data[i] <= 13))) ++i;
  t->pos = i;
  if (i >= t->end) { t->eof = 1; return -1; }
  bool m = t->data[i] == '-';
  if (m || t->data[i] == '+') ++i;
  size_t b = i;
  long long v = 0;
  while (i < t->end && t->data[i] >= '0' && t->data[i] <= '9') v = 10 * v + (t->data[i++] - '0');
  t->pos = i;
  if (i == b) return 0;
  *p = (int)(m ? -v : v);
  return 1;
}
static int ilv_numbers(FILE*, int k) { return k; }
template <typename... A> static int ilv_numbers(FILE* f, int k, int* p, A... a) { int r = ilv_number(f, p); return r == 1 ? ilv_numbers(f, k + 1, a...) : k > 0 ? k : r; }
// formats that are made of %d and of spaces
template <typename... A> static int ilv_fscanf(FILE* f, const char* s, A... a) {
  for (; *s; ++s) {
    if (*s == ' ') continue;
    if (s[0] != '%' || s[1] != 'd') ilv::unknown();
    ++s;
  }
  return ilv_numbers(f, 0, a...);
}
}
using std::ilv_fscanf;
#define fscanf ilv_fscanf
'''
STREAM_B = STREAM.replace("size_t left = t->end - t->pos,", "size_t left = t->pos < t->end ? t->end - t->pos : 0,").replace(
    "if (t->pos == t->end) { t->eof = 1; return -1; }", "if (t->pos >= t->end) { t->eof = 1; t->ends += 1; if (t->ends > 64) __builtin_abort(); return -1; }").replace(
    "n = left / s;", "n = s ? left / s : 0;").replace('extern "C" {', 'extern "C" {', 1).replace("int eof, open; }", "int eof, open, ends, no; }")
PRE_BIN = "#define _GLIBCXX_EXTERN_TEMPLATE 0\n" + PRE_D.replace("\ntypedef il::int_t I;", STREAM_B + SEEK + '''
#include <il/io/File.h>
#include <il/io/ppm/ppm.h>
typedef il::int_t I;''', 1) + '''
static void store(char* s, I n) { ilv::G.data = s; ilv::G.cap = n; ilv::G.end = 0; ilv::G.pos = 0; ilv::G.eof = 0; ilv::G.open = 0; ilv::G.ends = 0; }
// 0: bytes one by one, 1: objects, 2: object of a type, 3: skipped
struct Op { int kind, n; };
static const Op all[7] = {{0, 1}, {0, 3}, {1, 2}, {2, 4}, {3, 2}, {3, 5}, {0, 6}};
struct Four { unsigned char b[4]; };
static I one(il::File& file, Op o, I len, I& pos, unsigned char* p, bool& done) {
  il::Status st{};
  I n = o.kind == 1 ? 2 * o.n : o.n;
  switch (o.kind) {
    case 0: file.Read(o.n, 1, il::io, p, st); break;
    case 1: file.Read(2, (std::size_t)o.n, il::io, p, st); break;
    case 2: file.Read<1, Four>(il::io, (Four*)p, st); break;
    default: file.Skip((std::size_t)o.n, il::io, st);
  }
  if (o.kind == 3) { pos += n; const bool ok = st.Ok(); return pos <= len && !ok ? 3 : 0; }
  if (pos + n > len) { done = true; return st.Ok() ? 2 : 0; }
  if (!st.Ok()) return 3;
  pos += n;
  return 0;
}
// every history of three operations
static I every(I buffer, I len, char* f, I a0, I a1) {
  for (I a = a0; a < a1; ++a) for (I b = 0; b < 7; ++b) for (I c = 0; c < 7; ++c) {
    const Op o[3] = {all[a], all[b], all[c]};
    store(f, len); ilv::G.end = len;
    for (I i = 0; i < len; ++i) f[i] = (char)(11 * i + 130);
    il::Status st{};
    il::File file(il::String("f.data"), il::FileMode::Read, buffer, il::io, st);
    if (!st.Ok()) return 3;
    I pos = 0; bool done = false; I r = 0;
    for (I k = 0; k < 3 && !done && r == 0; ++k) {
      unsigned char p[12] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
      I before = pos;
      r = one(file, o[k], len, pos, p, done);
      if (r == 0 && !done && o[k].kind != 3) {
        for (I i = 0; i < pos - before; ++i) if (p[i] != (unsigned char)(11 * (before + i) + 130)) r = 5;
        for (I i = pos - before; i < 12; ++i) if (p[i] != 1) r = 6;
      }
    }
    file.Close(il::io, st);
    if (r) return r;
    if (!st.Ok() || ilv::G.open != 0) return 4;
  }
  return 0;
}
static void head(const char* s) { for (; *s; ++s) ilv::G.data[ilv::G.end++] = *s; }
static void text(const char* s, I n) { for (I i = 0; i < n; ++i) ilv::G.data[ilv::G.end++] = s[i]; }
'''


def build_bin():
    g = Group("binfile", PRE_BIN)
    g.life = P = "P04"

    def hist(name, body, desc, ni=0, ends=(0, 127), size=256):
        """ni unknown numbers (x); the body leaves them in q"""
        def run(cx):
            st = prep(cx)
            cx.E.unroll_all = 3000
            cx.E.max_steps = 20000000
            n = max(ni, 24)
            x, q = (cx.obj(st, 8 * n, t) for t in ("x", "q"))
            xs = []
            for i in range(n):
                v = S(T.new("x%d" % i, "v"))
                st.add(v - ends[0])
                st.add(C(ends[1]) - v)
                xs.append(v)
                cx.put(st, x, 8 * i, 8, v)
            mem = Ptr(cx.obj(st, size, "file"), ZERO)
            for s_, r in cx.run(st, [Ptr(x, ZERO), Ptr(q, ZERO), mem]):
                cx.states += 1
                c = r.const() if isinstance(r, Poly) else None
                if c is None:
                    raise Unsupported("%s: result not determined" % desc)
                cx.E.obl += 1
                if c:
                    cx.fail(s_, "post", "%s: %s" % (desc, {1: "the size is wrong", 2: "the error is not reported", 3: "an error is reported", 4: "the file is not closed once", 5: "the bytes are not those of the file", 6: "bytes that were not asked for are written"}.get(c, "wrong (%d)" % c)))
                    continue
                cx.E.proved += 1
                for i in range(ni):
                    for y, v in cx.E.load(s_, Ptr(q, C(8 * i)), 8, IR.INT(64), desc):
                        if not isinstance(v, Poly):
                            raise Unsupported("%s: value not determined" % desc)
                        cx.expect(y, v - xs[i], "post", "%s: byte %d" % (desc, i), True)
                cx.leak_check(s_)
            cx.no_abort(guards=False)
            cx.E.aborts = []
        g.case(P, name, "(const I* x, I* q, char* f)", body, run, "I")
    for b in (0, 1, 2, 3, 5, 7, 12):
        for n in (0, 4, 9, 12):
            for a in range(7):
                if n in (0, 4) and a not in (0, 6):
                    continue
                hist("every_%d_%d_%d" % (b, n, a), "return every(%d, %d, f, %d, %d);" % (b, n, a, a + 1), "File of %d bytes through a buffer of %d" % (n, b))
    # the bytes are unknown
    OPEN = "store(f, 12); ilv::G.end = 12; for (I i = 0; i < 12; ++i) f[i] = (char)x[i]; il::Status st{}; il::File file(il::String(\"f.data\"), il::FileMode::Read, %d, il::io, st); if (!st.Ok()) return 3; unsigned char p[12]; "
    CLOSE = "file.Close(il::io, st); if (!st.Ok() || ilv::G.open != 0) return 4; for (I i = 0; i < 12; ++i) q[i] = p[i]; return 0;"
    for b in (0, 1, 3, 5, 8, 12, 20):
        for cut in ((12,), (1, 11), (5, 7), (3, 3, 6), (1, 2, 3, 6), (4, 4, 4), (1,) * 12):
            t, s = 0, ""
            for k in cut:
                s += "file.Read(%d, 1, il::io, p + %d, st); if (!st.Ok()) return 3; " % (k, t)
                t += k
            hist("bytes_%d_%s" % (b, "_".join(map(str, cut))), OPEN % b + s + CLOSE, "File through a buffer of %d" % b, ni=12)
        hist("typed_%d" % b, OPEN % b + "file.Read<2, unsigned char>(il::io, p, st); if (!st.Ok()) return 3; file.Read<2, Four>(il::io, (Four*)(p + 2), st); if (!st.Ok()) return 3; file.Read<1, short>(il::io, (short*)(p + 10), st); if (!st.Ok()) return 3; " + CLOSE, "File of typed objects through a buffer of %d" % b, ni=12)
        hist("nothing_%d" % b, OPEN % b + "for (I i = 0; i < 12; ++i) { file.Read(0, 1, il::io, p, st); if (!st.Ok()) return 3; file.Skip(0, il::io, st); if (!st.Ok()) return 3; file.Read(1, 1, il::io, p + i, st); if (!st.Ok()) return 3; } " + CLOSE, "File with reads of nothing through a buffer of %d" % b, ni=12)
    # written, then read
    WR = "store(f, 12); unsigned char v[12]; for (I i = 0; i < 12; ++i) v[i] = (unsigned char)x[i]; il::Status st{}; { il::File out(il::String(\"f.data\"), il::FileMode::Write, il::io, st); if (!st.Ok()) return 3; "
    for cut in ((12,), (1, 11), (5, 7), (3, 3, 6), (4, 4, 4), (1,) * 12):
        t, s = 0, ""
        for i, k in enumerate(cut):
            s += "out.Write(v + %d, %s, il::io, st); if (!st.Ok()) return 3; " % (t, "%d, 1" % k if i % 2 or k % 2 else "%d, 2" % (k // 2))
            t += k
        hist("written_" + "_".join(map(str, cut)), WR + s + "out.Close(il::io, st); if (!st.Ok() || ilv::G.open != 0) return 4; } if (ilv::G.end != 12) return 1; for (I i = 0; i < 12; ++i) q[i] = (unsigned char)f[i]; return 0;", "File written", ni=12)
    for m in ("Read", "Write"):
        hist("missing_" + m, "store(nullptr, 0); il::Status st{}; il::File file(il::String(\"f.data\"), il::FileMode::%s, 4, il::io, st); return st.Ok() ? 2 : 0;" % m, "File that cannot be opened")
    hist("constructor", OPEN.replace("%d, il::io, st); if", "il::io, st); if") + "file.Read(12, 1, il::io, p, st); if (!st.Ok()) return 3; " + CLOSE, "File without a buffer", ni=12)

    # images
    LOAD = "ilv::G.pos = 0; il::Status st{}; il::Array2D<il::Pixel> m = il::readPpm(std::string(\"f.data\"), il::io, st); if (ilv::G.open != 0) return 4; "
    heads = (("plain", "P6\\n%d %d\\n255\\n"), ("comment", "P6\\n# a comment\\n%d %d\\n255\\n"), ("comments", "P6\\n#\\n# P6 3 3 255\\n# x\\n%d %d\\n255\\n"), ("lines", "P6\\n%d\\n%d\\n255\\n"), ("spaces", "P6\\n  %d   %d \\n 255\\n"), ("zeros", "P6\\n0%d 00%d\\n255\\n"))
    for w, h in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
        for nm, t in heads:
            if nm != "plain" and (w, h) not in ((2, 2), (1, 3)):
                continue
            n = 3 * w * h
            hist("ppm_%s_%d_%d" % (nm, w, h), "store(f, 256); head(\"%s\"); for (I i = 0; i < %d; ++i) ilv::G.data[ilv::G.end++] = (char)x[i]; " % (t % (w, h), n) + LOAD + "if (!st.Ok()) return 3; if (m.size(0) != %d || m.size(1) != %d) return 1; for (I j = 0; j < %d; ++j) for (I i = 0; i < %d; ++i) { I k = 3 * (j * %d + i); q[k] = m(i, j).red; q[k + 1] = m(i, j).green; q[k + 2] = m(i, j).blue; } return 0;" % (w, h, h, w, w), "image of %d x %d" % (w, h), ni=n)
    hist("ppm_missing", "store(nullptr, 0); " + LOAD + "return st.Ok() ? 2 : 0;", "image that does not exist")
    full = "P6\n# c\n2 2\n255\n" + "abcdefghijkl"
    for n in range(len(full)):
        c = "".join("\\%03o" % ord(ch) for ch in full[:n])
        hist("ppm_cut_%d" % n, "store(f, 256); text(\"%s\", %d); " % (c, n) + LOAD + "return st.Ok() ? 2 : 0;", "image of which the file ends after %d bytes" % n)
    for nm, t in (("magic", "P5\\n2 2\\n255\\n"), ("letter", "Q6\\n2 2\\n255\\n"), ("depth", "P6\\n2 2\\n65535\\n"), ("depth_small", "P6\\n2 2\\n254\\n"), ("depth_large", "P6\\n2 2\\n256\\n"), ("depth_0", "P6\\n2 2\\n0\\n"), ("no_size", "P6\\nx y\\n255\\n"), ("no_height", "P6\\n2 y\\n255\\n"), ("no_depth", "P6\\n2 2\\nx\\n"), ("width_less", "P6\\n-2 2\\n255\\n"), ("height_less", "P6\\n2 -2\\n255\\n"), ("both_less", "P6\\n-2 -2\\n255\\n"), ("more_rows", "P6\\n2 3\\n255\\n"), ("more_columns", "P6\\n3 2\\n255\\n")):
        hist("ppm_wrong_" + nm, "store(f, 256); head(\"%sabcdefghijkl\"); " % t + LOAD + "return st.Ok() ? 2 : 0;", "file that is not an image of 255 colours (%s)" % nm)
    return g


def groups():
    return [build_bin()]
