"""il::Cg and il::Gmres: how the requests of the iterative solvers of MKL are served.

The solvers of MKL are stood in for by a script that makes the requests its documentation allows, in any order, and looks at
what was answered at the next call. The operators are permutations, so that what they give can be recognised."""
import re
from pack import *

PRE_RCI = '''
#include <cstdio>
#include <cmath>
#include <il/Gmres.h>
#include <il/Cg.h>
#include <il/Status.h>
''' + '''
typedef il::int_t I;
namespace ilv {
static void unknown(int n = 0) { unknown(n + 1); }
struct Script {
  int req[16]; int nb;              // requests, in order
  double test[16];                  // dcg: square of the norm at every test; dfgmres: the iterate at every test
  double first;                     // dcg: square of the norm of the first residual
  int at, tests, pending, wrong, calls, from, to, room, precond, maxit, restart, done, has_max;
  const double* z; double* w; int nw; int nz;
  double keep[8];
};
static Script G;
}
using ilv::G;
static const int N = 3;
static void give(double* p) { for (int i = 0; i < N; ++i) { G.keep[i] = G.z[G.nz++]; p[i] = G.keep[i]; } }
// the answer and what was asked
static void take(const double* p, int kind) { for (int i = 0; i < N; ++i) { G.w[G.nw++] = p[i]; G.w[G.nw++] = kind == 1 ? G.keep[N - 1 - i] : G.keep[(i + 1) % N]; } }
extern "C" {
double dnrm2(const MKL_INT* n, const double* x, const MKL_INT* inc) NOTHROW { double r = 0.0; for (int i = 0; i < *n; ++i) r += x[i * *inc] * x[i * *inc]; return std::sqrt(r); }
void daxpy(const MKL_INT* n, const double* a, const double* x, const MKL_INT* ix, double* y, const MKL_INT* iy) NOTHROW { for (int i = 0; i < *n; ++i) y[i * *iy] += *a * x[i * *ix]; }
void dcg_init(const MKL_INT* n, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  for (int i = 0; i < 128; ++i) { ipar[i] = 0; dpar[i] = 0.0; }
  ipar[0] = *n; ipar[1] = 6; ipar[2] = 1; ipar[4] = 150; ipar[5] = 1; ipar[6] = 1; ipar[7] = 1; ipar[9] = 1; dpar[0] = 1.0e-6;
  for (int i = 0; i < 4 * N; ++i) tmp[i] = 0.0;
  *rci = 0; G.at = 0; G.tests = 0; G.pending = 0;
}
void dcg_check(const MKL_INT* n, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double*, double*) { if (*n != N || ipar[0] != N) G.wrong = 20; *rci = 0; }
void dcg(const MKL_INT* n, double* x, const double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  G.calls += 1;
  if (ipar[9] != 1) G.wrong = 21;
  if ((ipar[10] != 0) != (G.precond != 0)) G.wrong = 22;
  if (ipar[8] != 0 || ipar[7] != 0) G.wrong = 23;
  if (G.at == 0) for (int i = 0; i < N; ++i) { G.w[G.nw++] = x[i]; G.w[G.nw++] = 0.0; G.w[G.nw++] = b[i]; G.w[G.nw++] = G.z[i]; }
  if (G.pending == 1) take(tmp + N, 1);
  if (G.pending == 3) take(tmp + 3 * N, 3);
  if (G.at == G.nb) { G.wrong = 24; __builtin_abort(); }
  int r = G.req[G.at++];
  if (r == 1) give(tmp);
  if (r == 3) give(tmp + 2 * N);
  if (r == 2) { ipar[3] += 1; dpar[2] = G.first; dpar[5] = dpar[4]; dpar[4] = G.test[G.tests++]; for (int i = 0; i < N; ++i) x[i] = G.z[G.nz++]; }
  G.pending = r;
  *rci = r;
}
void dcg_get(const MKL_INT*, const double*, const double*, const MKL_INT*, const MKL_INT* ipar, const double*, const double*, MKL_INT* it) { *it = ipar[3]; }
void dfgmres_init(const MKL_INT* n, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double* dpar, double*) {
  for (int i = 0; i < 128; ++i) { ipar[i] = 0; dpar[i] = 0.0; }
  ipar[0] = *n; ipar[1] = 6; ipar[2] = 1; ipar[4] = 150; ipar[5] = 1; ipar[6] = 1; ipar[7] = 1; ipar[9] = 1; ipar[14] = 150; dpar[0] = 1.0e-6;
  *rci = 0; G.at = 0; G.tests = 0; G.pending = 0;
}
void dfgmres_check(const MKL_INT* n, const double*, const double*, MKL_INT* rci, MKL_INT* ipar, double*, double* tmp) {
  if (*n != N || ipar[0] != N) G.wrong = 20;
  int k = ipar[14];
  if (k != G.restart) G.wrong = 26;
  int m = (2 * k + 1) * N + k * (k + 9) / 2 + 1;
  for (int i = 0; i < m; ++i) tmp[i] = 0.0;
  *rci = 0;
}
void dfgmres(const MKL_INT* n, double* x, double* b, MKL_INT* rci, MKL_INT* ipar, double* dpar, double* tmp) {
  G.calls += 1;
  if (ipar[9] != 1) G.wrong = 21;
  if ((ipar[10] != 0) != (G.precond != 0)) G.wrong = 22;
  if (ipar[8] != 0) G.wrong = 23;
  if (ipar[7] != 0 && ipar[4] != G.maxit) G.wrong = 27;
  for (int i = 0; i < N; ++i) { G.w[G.nw++] = b[i]; G.w[G.nw++] = G.z[i]; }
  if (G.pending == 1 || G.pending == 3) take(tmp + G.to, G.pending);
  if (G.at == G.nb) { G.wrong = 24; __builtin_abort(); }
  int r = G.req[G.at];
  if (r == 1 || r == 3) {
    G.from = (G.at % 2) * N; G.to = (2 + G.at % 2) * N;
    if (G.at % 3 == 2) { int t = G.from; G.from = G.to; G.to = t; }
    ipar[21] = G.from + 1; ipar[22] = G.to + 1;
    give(tmp + G.from);
  }
  if (r == 4) dpar[6] = G.test[G.at];
  if (r == 2) { ipar[3] += 1; }
  G.at += 1;
  G.pending = r;
  *rci = r;
}
void dfgmres_get(const MKL_INT*, double* x, double* b, MKL_INT* rci, const MKL_INT* ipar, const double*, double*, MKL_INT* it) {
  double* p = ipar[12] == 0 ? x : b;
  if (ipar[12] >= 0) for (int i = 0; i < N; ++i) p[i] = G.pending == 2 || G.pending == 0 || G.pending == 4 || G.pending == -1 ? (i == 0 ? G.test[G.at - 1] : 0.0) : G.z[12 + i];
  *rci = 0;
  *it = ipar[3];
}
}
struct Rev : public il::FunctorArray<double> {
  I size(I) const override { return N; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override { for (I i = 0; i < N; ++i) y[i] = x[N - 1 - i]; }
};
struct Rot : public il::FunctorArray<double> {
  I size(I) const override { return N; }
  void operator()(il::ArrayView<double> x, il::io_t, il::ArrayEdit<double> y) const override { for (I i = 0; i < N; ++i) y[i] = x[(i + 1) % N]; }
};
static void play(const double* z, double* w, const int* req, int nb, const double* test, double first, int precond) {
  for (int i = 0; i < nb; ++i) { G.req[i] = req[i]; G.test[i] = test[i]; }
  G.nb = nb; G.first = first; G.at = 0; G.tests = 0; G.pending = 0; G.wrong = 0; G.calls = 0; G.precond = precond; G.maxit = 100; G.restart = 0;
  G.z = z; G.w = w; G.nw = 0; G.nz = N;
}
'''


def build():
    g = Group("rci", PRE_RCI)
    g.life = P = "K02"

    def case(name, body, desc, y=None):
        def run(cx):
            st = prep(cx)
            cx.E.unroll_all = 3000
            cx.E.max_steps = 5000000
            cx.E.fold_fp = True
            cx.E.model_pats = [(re.compile(r"^@(llvm\.sqrt\.f64|sqrt|_ZSt4sqrtd)$"), lambda E, st, name, args: [(st, Term("sqrt", args[0]))])] + list(cx.E.model_pats)
            z, w, n = cx.obj(st, 8 * 96, "z"), cx.obj(st, 8 * 512, "w"), cx.obj(st, 8, "n")
            for i in range(96):
                cx.put(st, z, 8 * i, 8, Term("const", y[i]) if y and i < 3 else Term("init", "z", C(i)))
            for s_, r in cx.run(st, [Ptr(z, ZERO), Ptr(w, ZERO), Ptr(n, ZERO)]):
                cx.states += 1
                c = r.const() if isinstance(r, Poly) else None
                if c is None:
                    raise Unsupported("%s: result not determined" % desc)
                cx.E.obl += 1
                if c:
                    cx.fail(s_, "post", "%s: %s" % (desc, {1: "success is not reported", 2: "an error is not reported", 3: "the number of requests made is wrong", 4: "the number of iterations is wrong", 5: "a parameter is wrong", 20: "the size of the problem is wrong", 21: "the test of the user is not enabled", 22: "the preconditioner is not declared", 23: "the tests of MKL are enabled", 24: "a request is made after the end", 26: "the number of iterations before a restart is wrong", 27: "the maximum number of iterations is wrong"}.get(c, "wrong (%d)" % c)))
                    continue
                cx.E.proved += 1
                m = None
                for x_, v in cx.E.load(s_, Ptr(n, ZERO), 8, IR.INT(64), desc):
                    m = v.const() if isinstance(v, Poly) else None
                if m is None:
                    raise Unsupported("%s: number of values not determined" % desc)
                for i in range(0, m, 2):
                    ab = []
                    for k in (i, i + 1):
                        for x_, v in cx.E.load(s_, Ptr(w, C(8 * k)), 8, IR.DOUBLE, desc):
                            ab.append(v)
                    cx.E.obl += 1
                    if len(ab) != 2 or any(isinstance(v, Term) and v.op in ("unk",) for v in ab):
                        raise Unsupported("%s: value not determined" % desc)
                    if ab[0] == ab[1] or fv(ab[0]) is not None and fv(ab[0]) == fv(ab[1]):
                        cx.E.proved += 1
                    elif all(simple(v) for v in ab):
                        cx.fail(s_, "post", "%s: value %d is %s instead of %s" % (desc, i // 2, ab[0], ab[1]))
                    else:
                        raise Unsupported("%s: value %d is %s" % (desc, i // 2, ab[0]))
                cx.leak_check(s_)
            cx.no_abort(guards=False)
            cx.E.aborts = []
        g.case(P, name, "(const double* z, double* w, I* n)", body, run, "I")

    def fv(v):
        from absint import fval
        return fval(v)

    def simple(v):
        return fv(v) is not None or isinstance(v, Term) and v.op in ("init", "undef")

    def same(a, b):
        return "w[G.nw++] = %s; w[G.nw++] = %s; " % (a, b)

    def arr(t, v):
        return "{%s}" % ", ".join(map(str, v))
    END = "*n = G.nw; if (G.wrong) return G.wrong; "
    import itertools
    import math
    # conjugate gradients
    parts = ([1, 2], [1, 3, 2], [1, 2, 3], [3, 1, 2], [1, 1, 2])
    for pre in (0, 1):
        for npart in (1, 2, 3):
            for k, seq in enumerate(itertools.product(parts, repeat=npart)):
                if not pre and any(3 in p for p in seq):
                    continue
                if npart == 3 and k % 7:
                    continue
                req = [r for p in seq for r in p]
                for tag, rel, ab, first, norms, mx in (("rel", 0.5, 0.0, 16.0, [9.0] * (npart - 1) + [4.0], 100), ("below", 0.5, 0.0, 16.0, [4.5] * (npart - 1) + [1.0], 100), ("abs", 0.0, 3.0, 16.0, [10.0] * (npart - 1) + [9.0], 100), ("both", 0.25, 1.0, 16.0, [5.0] * (npart - 1) + [4.0], 100), ("zero", 0.0, 0.0, 16.0, [1e-30] * (npart - 1) + [0.0], 100),
                                                       ("default", None, None, 16.0, [1e-8] * (npart - 1) + [9e-12], 100), ("max", 0.5, 0.0, 16.0, [9.0] * npart, npart), ("last", 0.5, 0.0, 16.0, [9.0] * (npart - 1) + [3.0], npart)):
                    if tag not in ("rel", "max") and (k % 5 or npart == 3):
                        continue
                    ok = tag != "max"
                    b = "const int req[] = %s; const double test[16] = %s; play(z, w, req, %d, test, %r, %d); Rev A; Rot B; %s" % (arr("int", req), arr("double", norms), len(req), first, pre, "il::Cg<double> s{A, B}; " if pre else "il::Cg<double> s{A}; ")
                    if rel is not None:
                        b += "s.SetRelativePrecision(%r); s.SetAbsolutionPrecision(%r); if (s.relativePrecision() != %r || s.absolutePrecision() != %r) return 5; " % (rel, ab, rel, ab)
                    b += "s.SetMaxNbIterations(%d); if (s.maxNbIterations() != %d) return 5; " % (mx, mx) if tag in ("max", "last") else "if (s.maxNbIterations() != 100) return 5; "
                    b += "il::Array<double> y(3); for (I i = 0; i < 3; ++i) y[i] = z[i]; il::Status st{}; il::Array<double> x = s.Solve(y, il::io, st); " + END + ("if (!st.Ok()) return 1; " if ok else "if (st.Ok()) return 2; ")
                    b += "if (G.calls != %d) return 3; if (s.nbIterations() != %d) return 4; if (x.size() != 3) return 5; " % (len(req), npart)
                    nz = 3 + 3 * len(req)
                    b += "for (I i = 0; i < 3; ++i) { %s} " % same("x[i]", "z[%d + i]" % (nz - 3 if req[-1] == 2 else 3 + 3 * (len(req) - 1 - req[::-1].index(2))))
                    if ok:
                        b += same("s.trueResidualNorm()", repr(math.sqrt(norms[-1])))
                    b += "*n = G.nw; return 0;"
                    if req[-1] != 2:
                        continue
                    case("cg_%d_%d_%d_%s" % (pre, npart, k, tag), b, "il::Cg::Solve, requests %s" % req)
                # one iteration at a time
                if npart == 3 or k % 2 or req[-1] != 2:
                    continue
                b = "const int req[] = %s; const double test[16] = %s; play(z, w, req, %d, test, 16.0, %d); Rev A; Rot B; %s" % (arr("int", req), arr("double", [9.0, 4.0, 1.0]), len(req), pre, "il::Cg<double> s{A, B}; " if pre else "il::Cg<double> s{A}; ")
                b += "il::Array<double> y(3); for (I i = 0; i < 3; ++i) y[i] = z[i]; s.SetToSolve(y.view()); if (s.nbIterations() != 0) return 4; il::Array<double> x(3); "
                for j in range(npart):
                    t = [i for i, r in enumerate(req) if r == 2][j] + 1
                    b += "s.Next(); if (G.wrong) return G.wrong; if (G.calls != %d) return 3; if (s.nbIterations() != %d) return 4; %s s.getSolution(il::io, x.Edit()); for (I i = 0; i < 3; ++i) { %s} " % (t, j + 1, same("s.trueResidualNorm()", [3.0, 2.0, 1.0][j]), same("x[i]", "z[%d + i]" % (3 * t)))
                b += END + "return 0;"
                case("cg_next_%d_%d_%d" % (pre, npart, k), b, "il::Cg::Next, requests %s" % req)
    # generalised minimal residuals: y = (0, 0, 4) and A reverses, so that the norm of the residual is |t - 4|
    Y = ["0.0", "0.0", "4.0"]
    parts = ([1, 4, 2], [3, 1, 4, 2], [1, 2, 4], [1, 2], [1, 3, 2])

    def start(req, test, pre, k, mx):
        return "const int req[] = %s; const double test[16] = %s; play(z, w, req, %d, test, 0.0, %d); G.restart = %d; G.maxit = %d; Rev A; Rot B; %s" % (arr("int", req), arr("double", [float(t) for t in test]), len(req), pre, k, mx, "il::Gmres<double> s{A, B, %d}; " % k if pre else "il::Gmres<double> s{A, %d}; " % k)
    for pre in (0, 1):
        for npart in (1, 2, 3):
            for k, seq in enumerate(itertools.product(parts, repeat=npart)):
                if not pre and any(3 in p for p in seq) or npart == 3 and k % 6:
                    continue
                rs = 1 + k % 4
                req0 = [r for p in seq for r in p]
                for tag, last in (("on", 2.0), ("over", 6.0), ("in", 3.0), ("zero", 5.0), ("max", 7.0), ("maxok", 5.0), ("brk", 9.0), ("stop", 7.0)):
                    if npart == 3 and tag not in ("on", "max", "over") or npart == 2 and tag in ("in", "zero") and k % 3:
                        continue
                    if tag == "zero" and not all(p[-1] == 2 for p in seq):
                        continue
                    req, test = list(req0), []
                    bad, vec = itertools.cycle((7.0, 1.0, -3.0, 9.0)), itertools.cycle((1e-18, 0.25, 2.0))
                    for r in req:
                        test.append(next(bad) if r == 2 else next(vec) if r == 4 else 0.0)
                    if tag in ("on", "over", "in", "zero"):
                        e = len(req) - 1 - req[::-1].index(2)
                        req, test = req[:e + 1], test[:e + 1]
                        test[e] = last
                        if tag == "zero":
                            test[e] = 4.0
                    elif tag in ("max", "maxok", "stop"):
                        req.append(-1 if tag == "stop" else 0)
                        test.append(last)
                    elif tag == "brk":
                        req.append(4)
                        test.append(0.0)
                    rel = "0.0" if tag == "zero" else "0.5"
                    ok = tag not in ("max", "stop")
                    mx = 5 + k % 3
                    x0 = test[-1]
                    b = start(req, test, pre, rs, mx)
                    b += "il::Array<double> y(3); for (I i = 0; i < 3; ++i) y[i] = z[i]; il::Array<double> x(3, 0.0); il::Status st{}; s.Solve(y.view(), %s, %d, il::io, x.Edit(), st); " % (rel, mx) + END + ("if (!st.Ok()) return 1; " if ok else "if (st.Ok()) return 2; ")
                    b += "if (G.calls != %d) return 3; if (s.nbIterations() != %d) return 4; if (x.size() != 3) return 5; for (I i = 0; i < 3; ++i) { %s} *n = G.nw; return 0;" % (len(req), req.count(2), same("x[i]", "(i == 0 ? %r : 0.0)" % x0))
                    case("gmres_%d_%d_%d_%s" % (pre, npart, k, tag), b, "il::Gmres::Solve, requests %s" % req, Y)
                if npart == 3:
                    continue
                e = len(req0) - 1 - req0[::-1].index(2)
                req, test = req0[:e + 1], []
                v = iter((7.0, 3.0, 4.0))
                for r in req:
                    test.append(next(v) if r == 2 else 1e-18 if r == 4 else 0.0)
                b = start(req, test, pre, rs, 100) + "il::Array<double> y(3); for (I i = 0; i < 3; ++i) y[i] = z[i]; s.SetToSolve(y%s); if (s.nbIterations() != 0) return 4; il::Array<double> x(3); %s" % (".view()" if k % 2 else "", same("s.normResidual()", "4.0"))
                for j in range(req.count(2)):
                    t = [i for i, r in enumerate(req) if r == 2][j] + 1
                    b += "s.Next(); if (G.wrong) return G.wrong; if (G.calls != %d) return 3; if (s.nbIterations() != %d) return 4; %s s.getSolution(il::io, x%s); for (I i = 0; i < 3; ++i) { %s} " % (t, j + 1, same("s.normResidual()", repr(abs(test[t - 1] - 4.0))), ".Edit()" if k % 2 else "", same("x[i]", "(i == 0 ? %r : 0.0)" % test[t - 1]))
                b += END + "return 0;"
                case("gmres_next_%d_%d_%d" % (pre, npart, k), b, "il::Gmres::Next, requests %s" % req, Y)
    return g


def groups():
    return [build()]
