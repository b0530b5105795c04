// Native part of the numeric domain: conjunctions of polynomial (in)equalities, decided by exact rational simplex over monomials
// with lazily added rows, product lemmas and pairwise products.  CPython extension "domc": feasible(cons, goalsyms|None) -> bool.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
typedef __int128 I;
typedef long long L;
using std::vector;
static const L LIM = 1LL << 62;
static const L HUGE_ = 1LL << 60;
struct VH { size_t operator()(const vector<int>& v) const { size_t h = v.size(); for (int x : v) h = h * 1000003u ^ (size_t)(unsigned)x * 0x9E3779B97F4A7C15ull; return h; } };
// ------------------------------------------------------------------ monomials
static vector<vector<int>> monos(1);
static std::unordered_map<vector<int>, int, VH> monoIds{{{}, 0}};
static std::unordered_map<uint64_t, int> monoMul;
static int monoId(const vector<int>& v) {
  auto it = monoIds.find(v);
  if (it != monoIds.end()) return it->second;
  int id = (int)monos.size();
  monos.push_back(v);
  monoIds.emplace(v, id);
  return id;
}
static int mulMono(int a, int b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (unsigned)b;
  auto it = monoMul.find(k);
  if (it != monoMul.end()) return it->second;
  vector<int> v(monos[a].size() + monos[b].size());
  std::merge(monos[a].begin(), monos[a].end(), monos[b].begin(), monos[b].end(), v.begin());
  int id = monoId(v);
  monoMul.emplace(k, id);
  return id;
}
// ------------------------------------------------------------------ polynomials (hash-consed)
typedef std::pair<int, L> Tm;
struct P {
  vector<Tm> t;           // sorted by monomial id
  vector<int> syms;
  int deg = 0;
  bool huge = false;
  int nge = -3, neq = -3, negm1 = -3, neg = -3;
};
static vector<P> polys;
struct TH { size_t operator()(const vector<Tm>& v) const { size_t h = v.size(); for (auto& x : v) h = (h * 1000003u ^ (size_t)(unsigned)x.first * 0x9E3779B97F4A7C15ull) * 31 ^ (size_t)x.second * 0xC2B2AE3D27D4EB4Full; return h; } };
static std::unordered_map<vector<Tm>, int, TH> polyIds;
static int polyId(vector<Tm>& t, bool huge) {
  if (huge) t.push_back(Tm(-1, 1));
  auto it = polyIds.find(t);
  if (it != polyIds.end()) return it->second;
  int id = (int)polys.size();
  polyIds.emplace(t, id);
  if (huge) t.pop_back();
  P p;
  p.huge = huge;
  for (auto& x : t) {
    p.deg = std::max(p.deg, (int)monos[x.first].size());
    for (int s : monos[x.first]) p.syms.push_back(s);
  }
  std::sort(p.syms.begin(), p.syms.end());
  p.syms.erase(std::unique(p.syms.begin(), p.syms.end()), p.syms.end());
  p.t = t;
  polys.push_back(std::move(p));
  return id;
}
static int polyNeg(int p, L add) {
  vector<Tm> t = polys[p].t;
  for (auto& x : t) x.second = -x.second;
  if (add) {
    if (!t.empty() && t[0].first == 0) { t[0].second += add; if (!t[0].second) t.erase(t.begin()); }
    else t.insert(t.begin(), Tm(0, add));
  }
  return polyId(t, polys[p].huge);
}
static L gcdL(L a, L b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { L t = a % b; a = b; b = t; } return a; }
static L floordiv(L a, L g) { L q = a / g; if (a % g && a < 0) q--; return q; }
// -1 false, -2 true, else poly id
static int norm(int p, bool eq) {
  int c = eq ? polys[p].neq : polys[p].nge;
  if (c != -3) return c;
  const P& q = polys[p];
  int r;
  if (q.t.empty() || (q.t.size() == 1 && q.t[0].first == 0)) {
    L k = q.t.empty() ? 0 : q.t[0].second;
    r = (eq ? k == 0 : k >= 0) ? -2 : -1;
  } else {
    L g = 0;
    for (auto& x : q.t) if (x.first) { g = gcdL(g, x.second); if (g == 1) break; }
    vector<Tm> t = q.t;
    bool huge = q.huge;
    r = -3;
    if (g > 1) {
      L c0 = t[0].first == 0 ? t[0].second : 0;
      if (eq && c0 % g) r = -1;
      else {
        for (auto& x : t) x.second = x.first ? x.second / g : (eq ? x.second / g : floordiv(x.second, g));
        if (t[0].first == 0 && t[0].second == 0) t.erase(t.begin());
      }
    }
    if (r == -3) {
      if (eq) {
        const Tm& f = t[0].first == 0 ? t[1] : t[0];
        if (f.second < 0) for (auto& x : t) x.second = -x.second;
      }
      r = polyId(t, huge);
    }
  }
  if (eq) polys[p].neq = r; else polys[p].nge = r;
  return r;
}
// product of two polynomials; -1 on overflow
static int polyMul(int a, int b) {
  const vector<Tm>&x = polys[a].t, &y = polys[b].t;
  vector<Tm> t;
  t.reserve(x.size() * y.size());
  for (auto& u : x) for (auto& v : y) {
    I c = (I)u.second * v.second;
    if (c > HUGE_ || c < -HUGE_) return -1;
    t.push_back(Tm(mulMono(u.first, v.first), (L)c));
  }
  std::sort(t.begin(), t.end(), [](const Tm& p, const Tm& q) { return p.first < q.first; });
  vector<Tm> o;
  for (auto& u : t) {
    if (!o.empty() && o.back().first == u.first) { o.back().second += u.second; if (o.back().second > HUGE_ || o.back().second < -HUGE_) return -1; if (!o.back().second) o.pop_back(); }
    else o.push_back(u);
  }
  return polyId(o, false);
}
// ------------------------------------------------------------------ rationals
struct Ovf {};
struct Q { L n, d; };
static inline Q mk(I n, I d) {
  if (n == 0) return Q{0, 1};
  if (d < 0) { n = -n; d = -d; }
  if (d == 1) { if (n > LIM || n < -LIM) throw Ovf(); return Q{(L)n, 1}; }
  I a = n < 0 ? -n : n, b = d;
  if (a <= LIM && b <= LIM) { L g = gcdL((L)a, (L)b); return Q{(L)(n / g), (L)(d / g)}; }
  while (b) { I t = a % b; a = b; b = t; }
  n /= a; d /= a;
  if (n > LIM || n < -LIM || d > LIM) throw Ovf();
  return Q{(L)n, (L)d};
}
static inline Q add(Q a, Q b) { if (!a.n) return b; if (!b.n) return a; if (a.d == 1 && b.d == 1) return mk((I)a.n + b.n, 1); if (a.d == b.d) return mk((I)a.n + b.n, a.d); I x = (I)a.n * b.d, y = (I)b.n * a.d; return mk(x + y, (I)a.d * b.d); }
static inline Q mul(Q a, Q b) { if (!a.n || !b.n) return Q{0, 1}; return mk((I)a.n * b.n, (I)a.d * b.d); }
static inline Q divq(Q a, Q b) { return mk((I)a.n * b.d, (I)a.d * b.n); }
static inline Q neg(Q a) { return Q{-a.n, a.d}; }
static inline int sgn(Q a) { return a.n > 0 ? 1 : a.n < 0 ? -1 : 0; }
// ------------------------------------------------------------------ simplex with lazily activated rows
struct Row { vector<std::pair<int, L>> a; L c; bool eq; bool act; };
static vector<int> colOf;    // monomial -> column (valid if stamp matches)
static vector<int> colStamp;
static int stampNo = 0;
struct LP {
  int ncol = 0;
  vector<int> colVar;        // column -> variable id
  vector<Row> rows;
  // variables
  struct Var { Q val; Q bound; bool slack, eq; int pos; bool basic; };
  vector<Var> vars;
  vector<int> nonb;          // position -> var
  vector<vector<Q>> T;
  vector<int> basic;         // row -> var
  long pivots = 0;
  LP() { stampNo++; }
  int col(int m) {
    if ((int)colOf.size() <= m) { colOf.resize(monos.size() + 64, 0); colStamp.resize(monos.size() + 64, 0); }
    if (colStamp[m] == stampNo) return colOf[m];
    colStamp[m] = stampNo;
    colOf[m] = ncol++;
    int v = (int)vars.size();
    vars.push_back(Var{Q{0, 1}, Q{0, 1}, false, false, (int)nonb.size(), false});
    colVar.push_back(v);
    nonb.push_back(v);
    for (auto& r : T) r.push_back(Q{0, 1});
    return ncol - 1;
  }
  void addRow(int p, bool eq) {
    if (polys[p].huge && eq) return;
    Row r;
    r.c = 0; r.eq = eq; r.act = false;
    for (auto& x : polys[p].t) if (x.first == 0) r.c = x.second; else r.a.push_back({col(x.first), x.second});
    rows.push_back(std::move(r));
  }
  void activate(Row& r) {
    r.act = true;
    vector<Q> row(nonb.size(), Q{0, 1});
    Q v{0, 1};
    for (auto& x : r.a) {
      int w = colVar[x.first];
      Q c{x.second, 1};
      v = add(v, mul(c, vars[w].val));
      if (!vars[w].basic) row[vars[w].pos] = add(row[vars[w].pos], c);
      else { const vector<Q>& b = T[vars[w].pos]; for (size_t k = 0; k < b.size(); k++) if (b[k].n) row[k] = add(row[k], mul(c, b[k])); }
    }
    int id = (int)vars.size();
    vars.push_back(Var{v, Q{-r.c, 1}, true, r.eq, (int)T.size(), true});
    T.push_back(std::move(row));
    basic.push_back(id);
  }
  int check() {
    for (;;) {
      if (++pivots > 4000) return 2;
      int r = -1; bool low = false;
      for (size_t i = 0; i < basic.size(); i++) {
        Var& v = vars[basic[i]];
        if (!v.slack) continue;
        int s = sgn(add(v.val, neg(v.bound)));
        if ((s < 0 || (s > 0 && v.eq)) && (r < 0 || basic[i] < basic[r])) { r = (int)i; low = s < 0; }
      }
      if (r < 0) return 1;
      int best = -1;
      for (size_t k = 0; k < nonb.size(); k++) {
        int s = sgn(T[r][k]);
        if (!s) continue;
        Var& v = vars[nonb[k]];
        bool inc = low ? s > 0 : s < 0;
        bool ok = true;
        if (v.slack) {
          int b = sgn(add(v.val, neg(v.bound)));
          ok = inc ? !(v.eq && b >= 0) : !(b <= 0);
        }
        if (ok && (best < 0 || nonb[k] < nonb[best])) best = (int)k;
      }
      if (best < 0) return 0;
      int vb = basic[r], vn = nonb[best];
      Q a = T[r][best];
      Q theta = divq(add(vars[vb].bound, neg(vars[vb].val)), a);
      vars[vb].val = vars[vb].bound;
      vars[vn].val = add(vars[vn].val, theta);
      for (size_t i = 0; i < basic.size(); i++) if ((int)i != r && T[i][best].n) vars[basic[i]].val = add(vars[basic[i]].val, mul(T[i][best], theta));
      Q inv = divq(Q{1, 1}, a);
      vector<Q>& R = T[r];
      static thread_local vector<int> nz;
      nz.clear();
      for (size_t k = 0; k < nonb.size(); k++) if ((int)k != best && R[k].n) { R[k] = neg(mul(R[k], inv)); nz.push_back((int)k); }
      R[best] = inv;
      for (size_t i = 0; i < basic.size(); i++) if ((int)i != r) {
        vector<Q>& X = T[i];
        Q f = X[best];
        if (!f.n) continue;
        X[best] = mul(f, inv);
        for (int k : nz) X[k] = add(X[k], mul(f, R[k]));
      }
      basic[r] = vn; nonb[best] = vb;
      vars[vn].basic = true; vars[vn].pos = r;
      vars[vb].basic = false; vars[vb].pos = best;
    }
  }
  // 1 feasible, 0 infeasible, 2 unknown
  int solve() {
    try {
      for (;;) {
        int added = 0;
        for (auto& r : rows) {
          if (r.act) continue;
          Q v{r.c, 1};
          for (auto& x : r.a) { const Q& y = vars[colVar[x.first]].val; if (y.n) v = add(v, mul(Q{x.second, 1}, y)); }
          if (v.n < 0 || (r.eq && v.n)) { activate(r); if (++added >= 8) break; }
        }
        if (!added) return 1;
        int c = check();
        if (c != 1) return c;
      }
    } catch (Ovf&) { return 2; }
  }
};
// ------------------------------------------------------------------ lemmas
typedef std::pair<int, bool> Cn;
static void nonneg(const vector<Cn>& cs, std::unordered_set<int>& nn) {
  vector<std::pair<int, vector<int>>> left;
  for (auto& c : cs) {
    for (int sg = 1; sg >= (c.second ? -1 : 1); sg -= 2) {
      int pos = -1;
      vector<int> oth;
      bool ok = true;
      for (auto& x : polys[c.first].t) {
        L k = sg * x.second;
        if (x.first == 0) { if (k > 0) { ok = false; break; } continue; }
        const vector<int>& m = monos[x.first];
        if (k > 0) { if (pos >= 0 || m.size() != 1) { ok = false; break; } pos = m[0]; }
        else oth.insert(oth.end(), m.begin(), m.end());
      }
      if (ok && pos >= 0) { if (oth.empty()) nn.insert(pos); else left.push_back({pos, oth}); }
    }
  }
  bool ch = !left.empty();
  while (ch) {
    ch = false;
    for (auto& l : left) if (!nn.count(l.first)) {
      bool all = true;
      for (int o : l.second) if (!nn.count(o)) { all = false; break; }
      if (all) { nn.insert(l.first); ch = true; }
    }
  }
}
static std::unordered_map<uint64_t, int> prodCache;
static int prodMono(int p, int m) {  // polynomial times monomial, -1 if too large
  uint64_t k = ((uint64_t)p << 32) | (unsigned)m;
  auto it = prodCache.find(k);
  if (it != prodCache.end()) return it->second;
  int r = -1;
  if (polys[p].deg + (int)monos[m].size() <= 4 && !polys[p].huge) {
    vector<Tm> t;
    for (auto& x : polys[p].t) t.push_back(Tm(mulMono(x.first, m), x.second));
    std::sort(t.begin(), t.end());
    r = polyId(t, false);
  }
  prodCache.emplace(k, r);
  return r;
}
static std::unordered_map<uint64_t, int> pairCache;
static bool hasSym(const P& p, int v) { return std::binary_search(p.syms.begin(), p.syms.end(), v); }
static bool hasLin(const P& p, int v) { for (auto& x : p.t) if (monos[x.first].size() == 1 && monos[x.first][0] == v) return true; return false; }
static void lemmas(const vector<Cn>& cs, vector<Cn>& out, size_t cap) {
  std::unordered_set<int> nn, seen, done;
  bool have = false;
  for (auto& c : cs) seen.insert(c.first);
  vector<Cn> cur = cs;
  for (int d = 0; d < 2; d++) {
    vector<int> ms;
    for (auto& c : cur) for (auto& x : polys[c.first].t) if (monos[x.first].size() >= 2) ms.push_back(x.first);
    std::sort(ms.begin(), ms.end());
    ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
    vector<Cn> nw;
    for (int m : ms) {
      if (!done.insert(m).second) continue;
      if (!have) { nonneg(cs, nn); have = true; }
      vector<int> mm = monos[m];
      bool all = true;
      for (int s : mm) if (!nn.count(s)) all = false;
      if (all) { vector<Tm> t{Tm(m, 1)}; int z = polyId(t, false); if (seen.insert(z).second) nw.push_back({z, false}); }
      for (size_t vi = 0; vi < mm.size(); vi++) {
        if (vi && mm[vi] == mm[vi - 1]) continue;
        int v = mm[vi];
        vector<int> rest = mm;
        rest.erase(rest.begin() + vi);
        bool okr = true;
        for (int s : rest) if (!nn.count(s)) okr = false;
        int rk = monoId(rest);
        for (auto& c : cs) {
          if (!(okr || c.second)) continue;
          if (!hasSym(polys[c.first], v)) continue;
          if (!c.second && !hasLin(polys[c.first], v)) continue;
          int q = prodMono(c.first, rk);
          if (q < 0) continue;
          if (seen.insert(q).second) {
            nw.push_back({q, c.second});
            if (out.size() + nw.size() >= cap) { out.insert(out.end(), nw.begin(), nw.end()); return; }
          }
        }
      }
    }
    if (nw.empty()) break;
    out.insert(out.end(), nw.begin(), nw.end());
    cur = nw;
  }
}
static void pairs(const vector<Cn>& cs, vector<Cn>& out, size_t cap) {
  std::unordered_set<int> ms, syms;
  for (auto& c : cs) for (auto& x : polys[c.first].t) if (monos[x.first].size() == 2) { ms.insert(x.first); for (int s : monos[x.first]) syms.insert(s); }
  if (ms.empty()) return;
  vector<int> lin;
  for (auto& c : cs) {
    const P& p = polys[c.first];
    if (c.second || p.deg > 1 || p.t.size() > 4 || p.huge) continue;
    bool any = false;
    for (int s : p.syms) if (syms.count(s)) any = true;
    if (any) lin.push_back(c.first);
  }
  for (size_t i = 0; i < lin.size(); i++) for (size_t j = i; j < lin.size(); j++) {
    int a = lin[i], b = lin[j];
    if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)a << 32) | (unsigned)b;
    auto it = pairCache.find(k);
    int q;
    if (it == pairCache.end()) { q = polyMul(a, b); pairCache.emplace(k, q); } else q = it->second;
    if (q < 0) continue;
    bool any = false, all = true;
    for (auto& x : polys[q].t) if (monos[x.first].size() >= 2) { any = true; if (!ms.count(x.first)) { all = false; break; } }
    if (any && all) { out.push_back({q, false}); if (out.size() > cap) return; }
  }
}
// ------------------------------------------------------------------ feasibility
static std::unordered_map<vector<int>, char, VH> cache;
static long nlp = 0, nhit = 0, ncall = 0;
static void dedupe(vector<Cn>& cs) {
  std::unordered_set<int> s;
  size_t w = 0;
  for (auto& c : cs) if (s.insert(c.first * 2 + c.second).second) cs[w++] = c;
  cs.resize(w);
}
static bool decide(vector<Cn>& cs) {
  std::unordered_set<int> ge;
  bool nonlin = false;
  for (auto& c : cs) { if (!c.second) ge.insert(c.first); if (polys[c.first].deg >= 2) nonlin = true; }
  for (int p : ge) {
    int n = polys[p].negm1;
    if (n == -3) { n = polyNeg(p, -1); polys[p].negm1 = n; }
    if (ge.count(n)) return false;
  }
  LP lp;
  for (auto& c : cs) lp.addRow(c.first, c.second);
  nlp++;
  int r = lp.solve();
  if (r == 0) return false;
  if (!nonlin) return true;
  vector<Cn> lem, add;
  lemmas(cs, lem, 260);
  for (auto& l : lem) {
    int q = norm(l.first, l.second);
    if (q == -1) return false;
    if (q >= 0) add.push_back({q, l.second});
  }
  if (add.empty()) return true;
  vector<Cn> cs2 = cs;
  cs2.insert(cs2.end(), add.begin(), add.end());
  dedupe(cs2);
  auto full = [&](const vector<Cn>& v) { LP l2; for (auto& c : v) l2.addRow(c.first, c.second); nlp++; return l2.solve(); };
  if (r == 2) { if (full(cs2) == 0) return false; }
  else {
    for (size_t i = cs.size(); i < cs2.size(); i++) lp.addRow(cs2[i].first, cs2[i].second);
    r = lp.solve();
    if (r == 0) return false;
  }
  vector<Cn> base(cs2.begin(), cs2.begin() + std::min<size_t>(120, cs2.size())), pr;
  pairs(base, pr, 400);
  if (pr.empty()) return true;
  vector<Cn> ex;
  for (auto& c : pr) { int q = norm(c.first, false); if (q >= 0) ex.push_back({q, false}); }
  if (r == 2) { cs2.insert(cs2.end(), ex.begin(), ex.end()); dedupe(cs2); return full(cs2) != 0; }
  for (auto& c : ex) lp.addRow(c.first, c.second);
  return lp.solve() != 0;
}
// ------------------------------------------------------------------ Python side
static PyObject *s_i, *s_t;
static int regPoly(PyObject* p) {
  PyObject* d = PyObject_GetAttr(p, s_t);
  if (!d) return -1;
  Py_ssize_t pos = 0;
  PyObject *k, *v;
  vector<Tm> t;
  bool huge = false;
  while (PyDict_Next(d, &pos, &k, &v)) {
    Py_ssize_t n = PyTuple_GET_SIZE(k);
    vector<int> m(n);
    for (Py_ssize_t i = 0; i < n; i++) m[i] = (int)PyLong_AsLong(PyTuple_GET_ITEM(k, i));
    int o = 0;
    L c = PyLong_AsLongLongAndOverflow(v, &o);
    if (o > 0 || c > HUGE_) { c = HUGE_; huge = true; }
    else if (o < 0 || c < -HUGE_) { c = -HUGE_; huge = true; }
    t.push_back(Tm(monoId(m), c));
  }
  Py_DECREF(d);
  std::sort(t.begin(), t.end());
  return polyId(t, huge);
}
static int getId(PyObject* p) {
  PyObject* a = PyObject_GetAttr(p, s_i);
  if (!a) return -1;
  if (a != Py_None) { int r = (int)PyLong_AsLong(a); Py_DECREF(a); return r; }
  Py_DECREF(a);
  int id = regPoly(p);
  if (id < 0) return -1;
  PyObject* o = PyLong_FromLong(id);
  PyObject_SetAttr(p, s_i, o);
  Py_DECREF(o);
  return id;
}
static PyObject* py_feasible(PyObject*, PyObject* const* args, Py_ssize_t n) {
  ncall++;
  PyObject* lst = args[0];
  if (!PyList_Check(lst)) { PyErr_SetString(PyExc_TypeError, "list expected"); return nullptr; }
  vector<Cn> cs;
  Py_ssize_t N = PyList_GET_SIZE(lst);
  cs.reserve(N);
  for (Py_ssize_t i = 0; i < N; i++) {
    PyObject* c = PyList_GET_ITEM(lst, i);
    if (!PyTuple_Check(c)) { PyErr_SetString(PyExc_TypeError, "constraint"); return nullptr; }
    int id = getId(PyTuple_GET_ITEM(c, 0));
    if (id < 0) return nullptr;
    bool eq = PyObject_IsTrue(PyTuple_GET_ITEM(c, 1)) == 1;
    int q = norm(id, eq);
    if (q == -1) Py_RETURN_FALSE;
    if (q == -2) continue;
    cs.push_back({q, eq});
  }
  if (n > 1 && args[1] != Py_None) {
    std::unordered_set<int> syms;
    PyObject* it = PyObject_GetIter(args[1]);
    if (!it) return nullptr;
    while (PyObject* x = PyIter_Next(it)) { syms.insert((int)PyLong_AsLong(x)); Py_DECREF(x); }
    Py_DECREF(it);
    vector<char> in(cs.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) if (!in[i]) {
        const P& p = polys[cs[i].first];
        bool hit = false;
        for (int s : p.syms) if (syms.count(s)) { hit = true; break; }
        if (!hit) continue;
        in[i] = 1;
        for (int s : p.syms) if (syms.insert(s).second) ch = true;
      }
    }
    size_t w = 0;
    for (size_t i = 0; i < cs.size(); i++) if (in[i]) cs[w++] = cs[i];
    cs.resize(w);
  }
  dedupe(cs);
  if (cs.empty()) Py_RETURN_TRUE;
  vector<int> key;
  for (auto& c : cs) key.push_back(c.first * 2 + c.second);
  std::sort(key.begin(), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { nhit++; if (it->second) Py_RETURN_TRUE; Py_RETURN_FALSE; }
  // rows with huge constants overflow the exact simplex; without them the conjunction is weaker, so infeasible stays infeasible
  bool r = true;
  {
    vector<Cn> small;
    for (auto& c : cs) {
      bool big = false;
      for (auto& t : polys[c.first].t) if (t.second > (1LL << 40) || t.second < -(1LL << 40)) big = true;
      if (!big) small.push_back(c);
    }
    if (small.size() == cs.size()) r = decide(cs);
    else {
      if (!small.empty()) r = decide(small);
      if (r) r = decide(cs);
    }
  }
  if (cache.size() > 1000000) cache.clear();
  if (prodCache.size() > 3000000) prodCache.clear();
  if (pairCache.size() > 3000000) pairCache.clear();
  cache.emplace(std::move(key), r);
  if (r) Py_RETURN_TRUE;
  Py_RETURN_FALSE;
}
static PyObject* py_stats(PyObject*, PyObject*) { return Py_BuildValue("(lllnn)", ncall, nhit, nlp, (Py_ssize_t)polys.size(), (Py_ssize_t)monos.size()); }
static PyMethodDef methods[] = {{"feasible", (PyCFunction)(void (*)(void))py_feasible, METH_FASTCALL, ""}, {"stats", py_stats, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "domc", "", -1, methods};
PyMODINIT_FUNC PyInit_domc(void) {
  s_i = PyUnicode_InternFromString("_i");
  s_t = PyUnicode_InternFromString("t");
  return PyModule_Create(&mod);
}
