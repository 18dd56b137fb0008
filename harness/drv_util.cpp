// P16 permutations and vectors, P17 coordinates to rows, P22 products, P27 partitions and
// prefix sums, P28 the 27-point stencil.
#include "drv.hpp"
#include <sys/mman.h>
#include <cstring>
#include "CSR.hpp"
#include "COO.hpp"
#include "Utils.hpp"
#include "cli_util.hpp"
using namespace SpMP;
static int reps(int q, int t) { return (int)((D.thorough ? t : q) * D.scale); }
static const int TS[] = {1, 2, 3, 4, 5, 6, 8, 13};
typedef std::vector<int> VI;
static double* dbl(const VI& v, double unit = XU) { double* p = MALLOC(double, v.size()); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i] * unit; return p; }
static int* ints(const VI& v) { int* p = MALLOC(int, v.size()); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return p; }
static std::string jd(const double* p, long n) { Obj o; o.arr("x", p, n, 1 / XU); std::string s = o.done(); return s.substr(5, s.size() - 6); }
static std::string ji(const int* p, long n) { Obj o; o.arr("x", p, n); std::string s = o.done(); return s.substr(5, s.size() - 6); }

struct List { std::string s; void put(const std::string& x) { s += (s.empty() ? "" : ",") + x; } void d(const double* p, long n) { sim::Quiet q; put(jd(p, n)); } void i(const int* p, long n) { sim::Quiet q; put(ji(p, n)); } std::string done() { return "[" + s + "]"; } };

// ---- P16 ----
static void addReorder(std::vector<Case>& C, const std::string& id, const VI& v, const VI& p, bool null, int T, int ns) {
  C.push_back({id, [=] { int n = (int)v.size(); Obj in; in.i("n", n).arr("v", v).arr("p", p).b("null", null);
    explore("reorder", in.done(), T, ns, [&] {
      int* P = null ? NULL : ints(p); double* V = dbl(v); int* W = ints(v); List fwd, bwd, rt, inv, src;
      VI z(n, -77); double *d = dbl(z), *t = dbl(z), *u; int* e = ints(z);
      reorderVectorOutOfPlace(d, V, P, n); fwd.d(d, n);
      reorderVectorOutOfPlace(e, W, P, n); fwd.i(e, n);
      u = getReorderVector(V, P, n); fwd.d(u, n); FREE(u);
      u = dbl(v); reorderVector(u, t, P, n); fwd.d(u, n); reorderVectorWithInversePerm(u, t, P, n); rt.d(u, n); FREE(u);
      u = dbl(v); reorderVector(u, P, n); fwd.d(u, n); reorderVectorWithInversePerm(u, P, n); rt.d(u, n); FREE(u);
      reorderVectorOutOfPlaceWithInversePerm(d, V, P, n); bwd.d(d, n);
      reorderVectorOutOfPlaceWithInversePerm(e, W, P, n); bwd.i(e, n);
      u = getReorderVectorWithInversePerm(V, P, n); bwd.d(u, n); FREE(u);
      u = dbl(v); reorderVectorWithInversePerm(u, t, P, n); bwd.d(u, n); reorderVector(u, t, P, n); rt.d(u, n); FREE(u);
      u = dbl(v); reorderVectorWithInversePerm(u, P, n); bwd.d(u, n); FREE(u);
      if (P) { getInversePerm(e, P, n); inv.i(e, n); src.i(P, n); }
      src.d(V, n); src.i(W, n);
      Obj j; { sim::Quiet q; j.raw("fwd", fwd.done()).raw("bwd", bwd.done()).raw("rt", rt.done()).raw("inv", inv.done()).raw("src", src.done()); }
      if (P) FREE(P); FREE(V); FREE(W); FREE(d); FREE(t); FREE(e); return j.done(); }, 0, (uint32_t)n * 61 + T); }});
}
static void addIsPerm(std::vector<Case>& C, const std::string& id, const VI& p, const VI& q) {
  C.push_back({id, [=] { Obj in; in.arr("p", p).arr("q", q);
    explore("isperm", in.done(), 1, 2, [&] { int *P = ints(p), *Q = ints(q), n = (int)p.size(); Obj j; bool a = isPerm(P, n), b = isInversePerm(P, Q, n); { sim::Quiet s; j.b("perm", a).b("inv", b); } FREE(P); FREE(Q); return j.done(); }); }});
}
static void genP16(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 16); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int i = 0; i < reps(300, 2000); ++i) { int n = i % 20 == 0 ? g.below(2) : i % 100 == 37 ? (i == 137 ? g.range(66000, 70000) : g.range(1500, 5000)) : i % 30 == 7 ? g.range(100, 400) : g.chance(0.2) ? g.range(13, 70) : g.range(2, 12); VI v(n); for (auto& x : v) x = g.range(-99, 99); int T = pickT(g); addReorder(C, nm("r"), v, randPerm(g, n), g.chance(0.1), T, D.thorough ? 16 : 4); }
  for (int i = 0; i < reps(600, 5000); ++i) { int n = i < 6 ? i / 2 : i % 150 == 18 ? (i / 150 % 2 ? 66000 : g.range(1500, 3000)) : i % 17 == 0 ? g.range(30, 90) : g.range(1, 7); VI p = randPerm(g, n), q = randPerm(g, n); for (int k = 0; k < n; ++k) q[p[k]] = k; 
    switch (i % 6) { case 0: break; case 1: q = randPerm(g, n); break; case 2: for (auto& x : p) x = g.range(-1, n); break; case 3: if (n) p[g.below(n)] = g.below(n); break; case 4: { int s = (const int[]){1, -1, n, 1000000}[g.below(4)]; for (auto& x : p) x += s; break; } case 5: if (n) p[g.below(n)] = (const int[]){-1, n, n + 1, 1 << 30}[g.below(4)]; break; }
    addIsPerm(C, nm("p"), p, q); }
}
static Reg r16("P16", genP16);

// ---- P17 ----
struct Ent { int r, c, v; };
static std::string jents(const std::vector<Ent>& e) { std::vector<VI> v; for (auto& x : e) v.push_back({x.r, x.c, x.v}); return jarr2(v); }
static void addCoo(std::vector<Case>& C, const std::string& id, int m, int n, const std::vector<Ent>& e, int mode, bool sortp, int base, bool sep, bool dp, bool dd, int T, int ns) {
  C.push_back({id, [=] { Obj in; in.i("m", m).i("n", n).raw("e", jents(e)).i("mode", mode).b("sort", mode ? true : sortp).i("base", base).b("sep", sep).b("dp", dp).b("dd", dd);
    explore("coo", in.done(), T, ns, [&] { int nnz = (int)e.size(); Obj j; VI r, c, v; for (auto& x : e) { r.push_back(x.r + 1); c.push_back(x.c + 1); v.push_back(x.v); }
      int *R = ints(r), *K = ints(c); double* V = dbl(v, VU); bool same = true;
      CSR* M = new CSR(m, n, nnz);
      { sim::Quiet q; for (int i = 0; i < m; ++i) M->diagptr[i] = -5; }
      if (!dp) { FREE(M->diagptr); M->diagptr = NULL; } if (!dd) { FREE(M->diag); FREE(M->idiag); M->diag = M->idiag = NULL; }
      if (mode) { COO* A = new COO; A->m = m; A->n = n; A->nnz = nnz; A->rowidx = R; A->colidx = K; A->values = V; dcoo2csr(M, A, base, sep); A->rowidx = A->colidx = NULL; A->values = NULL; delete A; }
      else dcoo2csr(m, nnz, M->rowptr, M->colidx, M->values, R, K, V, sortp, base);
      { sim::Quiet q; for (int i = 0; i < nnz; ++i) if (R[i] != r[i] || K[i] != c[i] || V[i] != v[i] * VU) same = false; j.raw("M", jcsr(*M)).b("same", same); }
      FREE(R); FREE(K); FREE(V); delete M; return j.done(); }, 0, (uint32_t)m * 67 + T); }});
}
static void genP17(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 17);
  for (int i = 0; i < reps(500, 4000); ++i) { bool big = i % 11 == 5; int m = i % 25 == 0 ? 0 : big ? g.range(25, 70) : g.range(1, g.chance(0.15) ? 20 : 8), n = big ? g.range(10, 70) : g.range(1, g.chance(0.15) ? 20 : 8); if (g.chance(0.5)) n = std::max(1, m); std::vector<Ent> e; int k = m == 0 ? 0 : g.chance(0.1) ? 0 : g.range(0, big ? 200 : g.chance(0.2) ? 60 : 18); int rr = std::max(1, g.range(1, std::max(1, m)));
    for (int q = 0; q < k; ++q) e.push_back({g.chance(0.5) ? g.below(m) : g.below(std::min(m, rr)), g.below(n), (g.chance(0.5) ? 1 : -1) * (1 << g.below(6))});
    if (i % 5 == 1) { std::sort(e.begin(), e.end(), [](const Ent& a, const Ent& b) { return a.r != b.r ? a.r < b.r : a.c < b.c; }); if (i % 2) std::reverse(e.begin(), e.end()); }
    if (i % 3 == 0) { std::vector<Ent> u; std::set<std::pair<int,int>> s; for (auto& x : e) if (s.insert({x.r, x.c}).second) u.push_back(x); e = u; }
    addCoo(C, "c" + std::to_string(i), m, n, e, i & 1, g.chance(0.7), g.below(2), g.chance(0.7), g.chance(0.8), g.chance(0.8), pickT(g), D.thorough ? 20 : 4); }
  for (int i = 0; i < reps(5, 24); ++i) { int m = i == 2 ? g.range(65600, 67000) : i == 3 ? g.range(2100, 4000) : g.range(150, 400), n = i % 3 ? m : g.range(100, 500); Mat A = bigMat(g, m, n, false, false); std::vector<Ent> e; for (int r = 0; r < m; ++r) for (auto& x : A.r[r]) { e.push_back({r, x.first, 1 << g.below(6)}); if (g.chance(0.02)) e.push_back({r, x.first, -3}); } g.shuffle(e); addCoo(C, "l" + std::to_string(i), m, n, e, i & 1, i % 4 != 2, i >> 1 & 1, true, true, i % 3 > 0, BIGT[i % 8], 3); }
  // few long rows, in orders that are hard on a sort: runs, mirrored, few distinct columns, one column most of the time
  for (int i = 0; i < reps(60, 400); ++i) { int m = g.range(1, 3), k = g.range(40, 260), kind = i % 7, n = kind == 3 || kind == 4 ? g.range(2, 6) : g.range(10, 400); std::vector<Ent> e;
    for (int r = 0; r < m; ++r) { int fav = g.below(n); for (int q = 0; q < k; ++q) { int c = kind == 0 ? q % n : kind == 1 ? (n - 1 - q % n) : kind == 2 ? std::min(q, k - 1 - q) % n : kind <= 4 ? g.below(n) : kind == 5 ? (g.chance(0.7) ? fav : g.below(n)) : (q * 7) % n / 2; e.push_back({r, c, 1 + (q * 37 + r) % 1000}); } }
    if (kind == 4) std::sort(e.begin(), e.end(), [](const Ent& a, const Ent& b) { return a.r != b.r ? a.r > b.r : a.c > b.c; });
    addCoo(C, "w" + std::to_string(i), m, n, e, i & 1, i % 4 != 3, i >> 1 & 1, true, true, i % 5 != 4, pickT(g), 3); }
}
static Reg r17("P17", genP17);

// ---- P22 ----
static void addMv(std::vector<Case>& C, const std::string& id, const Mat& A, int base, bool vals, int al, int be, int ga, const VI& x, const VI& y, int alias, bool simple, bool ynull, int T, int ns) {
  C.push_back({id, [=] { Obj in; in.raw("A", jmat(A, base)).b("vals", vals).i("al", al).i("be", be).i("ga", ga).arr("x", x).arr("y", y).i("alias", alias);
    double vu = VU; if (alias == 1 || !vals) VU = 1; double u = VU * XU; // the unit of products
    explore("mv", in.done(), T, ns, [&] { Obj j; CSR* M = makeCSR(A, base, vals, false, false); std::string before = jcsr(*M);
      int len = alias == 1 ? std::max(A.m, A.n) : A.m; VI w0(len, -55); if (alias == 1) { for (int i = 0; i < A.n; ++i) w0[i] = x[i]; } if (alias == 2) w0 = y;
      double *w = dbl(w0, u), *X = alias == 1 ? w : dbl(x), *Y = alias == 2 ? w : ynull ? NULL : dbl(y, u);
      if (simple) M->multiplyWithVector(w, X); else M->multiplyWithVector(w, al, X, be, Y, ga * u);
      { sim::Quiet q; bool same = before == jcsr(*M); if (alias != 1) for (int i = 0; i < A.n; ++i) if (X[i] != x[i] * XU) same = false; if (alias != 2 && Y) for (int i = 0; i < A.m; ++i) if (Y[i] != y[i] * u) same = false; j.arr("w", w, len, 1 / u).arr("w0", w0).b("same", same); }
      FREE(w); if (alias != 1) FREE(X); if (alias != 2 && Y) FREE(Y); delete M; return j.done(); }, 0, (uint32_t)A.m * 71 + T); VU = vu; }});
}
struct Lay { int rs, cs, len; };
static void addMdm(std::vector<Case>& C, const std::string& id, const Mat& A, int base, int k, int al, int be, int ga, Lay w, Lay xl, Lay yl, const VI& x, const VI& y, bool alias, bool simple, int T, int ns) {
  C.push_back({id, [=] { Obj in; in.raw("A", jmat(A, base)).i("k", k).i("al", al).i("be", be).i("ga", ga).arr("ws", {w.rs, w.cs}).arr("xs", {xl.rs, xl.cs}).arr("ys", {yl.rs, yl.cs}).arr("x", x).arr("y", y).b("alias", alias);
    explore("mdm", in.done(), T, ns, [&] { Obj j; CSR* M = makeCSR(A, base, true, false, false); std::string before = jcsr(*M);
      double u = VU * XU; VI w0(w.len, -55); if (alias) w0 = y; double *W = dbl(w0, u), *X = dbl(x), *Y = alias ? W : dbl(y, u);
      if (simple) M->multiplyWithDenseMatrix(W, k, X); else M->multiplyWithDenseMatrix(W, k, w.rs, w.cs, al, X, xl.rs, xl.cs, be, Y, yl.rs, yl.cs, ga * u);
      { sim::Quiet q; bool same = before == jcsr(*M); for (size_t i = 0; i < x.size(); ++i) if (X[i] != x[i] * XU) same = false; if (!alias) for (size_t i = 0; i < y.size(); ++i) if (Y[i] != y[i] * u) same = false; j.arr("w", W, w.len, 1 / u).arr("w0", w0).b("same", same); }
      FREE(W); FREE(X); if (!alias) FREE(Y); delete M; return j.done(); }, 0, (uint32_t)A.m * 73 + T); }});
}
static Lay layout(Rng& g, int rows, int k, int kind) { Lay l; rows = std::max(rows, 1); int kk = std::max(k, 1);
  if (kind == 0) { l.rs = 1; l.cs = rows + g.below(3); } else if (kind == 1) { l.cs = 1; l.rs = kk + g.below(3); } else if (kind == 2) { l.rs = 2; l.cs = 2 * rows + 1; } else { l.cs = 3; l.rs = 3 * kk + g.below(2); }
  l.len = (rows - 1) * l.rs + (kk - 1) * l.cs + 1; return l; }
static void genP22(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 22); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  static const int cf[] = {0, 1, -1, 2, -3}; auto vec = [&](int n) { VI v(n); for (auto& x : v) x = g.range(-9, 9); return v; };
  auto mat = [&] { bool big = g.chance(0.06); int m = big ? g.range(40, 130) : g.range(0, g.chance(0.15) ? 24 : 8), n = big ? g.range(20, 60) : g.range(1, g.chance(0.15) ? 24 : 8); if (big) return randMat(g, m, n, g.chance(0.3) ? 0.0 : 0.08, true, false); return randMat(g, m, n, (const double[]){0.1, 0.4, 0.8, 0.0}[g.below(4)], true, false); };
  for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 3; ++c) for (int v = 0; v < reps(4, 24); ++v) { Mat A = mat(); int al = cf[a], be = cf[b], ga = cf[c]; bool plain = al == 1 && be == 0 && ga == 0; addMv(C, nm("v"), A, v & 1, g.chance(0.75), al, be, ga, vec(A.n), vec(A.m), g.below(3), false, plain && g.chance(0.5), pickT(g), D.thorough ? 10 : 3); }
  for (int i = 0; i < reps(60, 400); ++i) { Mat A = mat(); addMv(C, nm("s"), A, i & 1, g.chance(0.7), 1, 0, 0, vec(A.n), vec(A.m), g.below(2), true, true, pickT(g), D.thorough ? 10 : 3); }
  for (int i = 0; i < reps(400, 3000); ++i) { Mat A = mat(); int k = g.range(0, 4); bool plain = i % 3 == 0, simple = i % 12 == 0; int al = plain ? 1 : cf[g.below(5)], be = plain ? 0 : cf[g.below(5)], ga = plain ? 0 : cf[g.below(3)];
    Lay w = layout(g, A.m, k, g.below(4)), x = layout(g, A.n, k, g.below(4)), y = layout(g, A.m, k, g.below(4)); if (plain && g.chance(0.5)) { if (g.chance(0.6)) w = layout(g, A.m, k, 0); if (g.chance(0.6)) x = layout(g, A.n, k, 0); if (g.chance(0.6)) y = layout(g, A.m, k, 0); } else if (plain && g.chance(0.6)) { w = layout(g, A.m, k, 0); x = layout(g, A.n, k, 0); y = layout(g, A.m, k, 0); }
    if (simple) { w = Lay{1, A.m, std::max(1, A.m * std::max(k, 1))}; x = Lay{1, A.n, A.n * std::max(k, 1)}; y = w; al = 1; be = ga = 0; }
    bool alias = !simple && g.chance(0.25); if (alias) y = w;
    addMdm(C, nm("d"), A, g.below(2), k, al, be, ga, w, x, y, vec(x.len), vec(y.len), alias, simple, pickT(g), D.thorough ? 10 : 3); }
  for (int i = 0; i < reps(8, 48); ++i) { int m = i == 1 ? g.range(65600, 67000) : i > 4 && i < 8 ? g.range(2100, 5000) : g.range(150, 400), n = i % 3 ? m : g.range(100, 500); Mat A = bigMat(g, m, n, true, false); bool plain = i % 2; int al = plain ? 1 : cf[g.below(5)], be = plain ? 0 : cf[g.below(5)], ga = plain ? 0 : cf[g.below(3)];
    if (i % 4 < 2) addMv(C, nm("L"), A, i >> 2 & 1, true, al, be, ga, vec(A.n), vec(A.m), plain ? 0 : g.below(3), false, plain, BIGT[i % 8], 2);
    else { int k = g.range(2, 9); Lay w = layout(g, A.m, k, plain ? 0 : g.below(4)), x = layout(g, A.n, k, plain ? 0 : g.below(4)), y = layout(g, A.m, k, plain ? 0 : g.below(4)); addMdm(C, nm("L"), A, i >> 2 & 1, k, al, be, ga, w, x, y, vec(x.len), vec(y.len), false, false, BIGT[i % 8], 2); } }
}
static Reg r22("P22", genP22);

// ---- P27 ----
static void genP27(std::vector<Case>& C) {
  Rng g(D.seed * 71 + 27); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int T : {1, 2, 3, 4, 5, 7, 8, 13, 16, 24, 40, 64}) for (int n : {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 64, 65, 100, 1000}) {
    C.push_back({nm("s"), [=] { Obj in; in.i("n", n).i("mode", 0).arr("w", VI{}); explore("part", in.done(), T, 1, [&] { std::vector<VI> rec(T, VI(2, -9)); cliPartition(n, NULL, 0, rec); sim::Quiet q; Obj j; j.raw("r", jarr2(rec)); return j.done(); }); }}); }
  for (int i = 0; i < reps(300, 2500); ++i) { int n = g.chance(0.05) ? 0 : g.range(1, g.chance(0.2) ? 60 : 12), T = (const int[]){1, 2, 3, 4, 6, 8, 13, 16, 24, 40, 64}[g.below(11)], base = g.below(2); if (i % 12 == 11) n = i % 48 == 47 ? g.range(2000, 9000) : g.range(80, 300); VI w(n + 1, base); for (int k = 0; k < n; ++k) w[k + 1] = w[k] + (i % 20 == 3 ? g.range(0, 90000) : i % 5 == 0 ? 0 : i % 5 == 1 ? g.below(2) : i % 5 == 2 ? (g.chance(0.1) ? g.range(50, 200) : 0) : g.range(0, 9));
    C.push_back({nm("b"), [=] { Obj in; in.i("n", n).i("mode", 1).arr("w", w); explore("part", in.done(), T, 1, [&] { int* W = ints(w); std::vector<VI> rec(T, VI(2, -9)); cliPartition(n, W, 1, rec); sim::Quiet q; Obj j; j.raw("r", jarr2(rec)); FREE(W); return j.done(); }); }}); }
  for (int i = 0; i < reps(120, 800); ++i) { int T = (const int[]){1, 2, 2, 3, 4, 5, 8, 12, 17, 33}[g.below(g.chance(0.3) ? 10 : 7)], rounds = g.range(1, 3), width = g.chance(0.5) ? 1 : g.chance(0.2) ? g.range(15, 40) : g.range(2, 4), same = g.below(2); VI x(T * rounds * width); for (auto& v : x) v = g.range(-5, 20);
    C.push_back({nm("p"), [=] { Obj in; in.i("rounds", rounds).i("width", width).arr("x", x).i("same", same); explore("prefix", in.done(), T, D.thorough ? 200 : 25, [&] { VI sums(x.size(), -9), res(x.size(), -9); cliPrefix(x.data(), rounds, width, sums.data(), res.data(), same); sim::Quiet q; Obj j; j.arr("res", res).arr("sum", sums); return j.done(); }, 0, (uint32_t)i); }}); }
  for (int i = 0; i < reps(240, 1500); ++i) { int op = g.below(4), nested = op < 2 ? g.chance(0.25) : 0, T = pickT(g); long n = g.chance(0.3) ? (long)g.range(0, 12) * 64 + g.range(-1, 1) : i % 8 == 3 ? (long)T * 64 * g.range(1, 3) + (const int[]){-1, 0, 1, 63, 64, 65, 17}[g.below(7)] : g.range(0, 700); if (n < 0) n = 0; if (op == 2) n = n / 4 * 4; if (op == 3) n = n / 8 * 8; int off = op < 2 ? g.below(9) : 0, c = g.range(0, 255); VI s(n); for (auto& v : s) v = g.range(0, 255);
    C.push_back({nm("m"), [=] { Obj in; in.i("op", op).i("c", c).i("off", off).arr("src", op == 0 ? VI{} : s).i("n", n); explore("mem", in.done(), T, D.thorough ? 10 : 3, [&] {
      unsigned char *d = MALLOC(unsigned char, off + n + 16), *src = MALLOC(unsigned char, n + off); for (long k = 0; k < off + n + 16; ++k) d[k] = 0x5a; for (long k = 0; k < n; ++k) src[off + k] = (unsigned char)s[k];
      cliMem(op, nested, d + off, src + off, c, n);
      Obj j; { sim::Quiet q; VI got(d, d + off + n + 16); j.arr("d", got); } FREE(d); FREE(src); return j.done(); }, 0, (uint32_t)n + T); }}); }
  // buffers of 2 GiB and more: the result is recorded as runs of equal bytes, lengths as (cache lines, rest)
  for (int op = 0; op < 2; ++op) for (int T : {1, 3, 8}) { if (T != (op ? 1 : 8) && !D.thorough) continue; long n = (1L << 31) + 64L * g.range(0, 40) + g.range(0, 63) + (T == 8 ? 400L << 20 : 0);
    C.push_back({nm("g"), [=] { Obj in; in.i("op", op).i("c", 7).i("lines", n / 64).i("rem", n % 64); explore("bigmem", in.done(), T, 1, [&] {
      unsigned char* all = (unsigned char*)mmap(NULL, n + (1L << 32) + 4096, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (all == MAP_FAILED) abort();
      unsigned char *d = all + (1L << 31), *src = NULL; mprotect(d, n + 4096, PROT_READ|PROT_WRITE); long marks[4] = {0, n / 3, (1L << 31) - 1, n - 1};
      if (op) { src = (unsigned char*)mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (src == MAP_FAILED) abort(); for (long k : marks) src[k] = 7; for (long k = 0; k < n + 1; k += 4096) d[k] = 9; d[n] = 9; }
      cliMem(op, 0, d, src, 7, n);
      Obj j; { sim::Quiet q; std::string o; int runs = 0; for (long k = 0; k < n + 1 && runs < 40; ++runs) { long e = k + 1; const unsigned long w8 = d[k] * 0x0101010101010101ul; while (e < n + 1 && (e & 7)) { if (d[e] != d[k]) break; ++e; } if (!(e & 7)) while (e + 8 <= n + 1 && *(unsigned long*)(d + e) == w8) e += 8; while (e < n + 1 && d[e] == d[k]) ++e; o += std::string(o.empty() ? "" : ",") + "[" + std::to_string(d[k]) + "," + std::to_string(k / 64) + "," + std::to_string(k % 64) + "]"; k = e; } std::string m; for (long k : marks) m += std::string(m.empty() ? "" : ",") + "[" + std::to_string(k / 64) + "," + std::to_string(k % 64) + "]"; j.raw("runs", "[" + o + "]").raw("marks", "[" + m + "]"); }
      munmap(all, n + (1L << 32) + 4096); if (src) munmap(src, n); return j.done(); }); }}); }
}
static Reg r27("P27", genP27);

// ---- P28 ----
static void genP28(std::vector<Case>& C) {
  int top = D.thorough ? 6 : 4; int id = 0;
  auto add = [&](int nx, int ny, int nz, int base, int T, int how) { C.push_back({"l" + std::to_string(id++), [=] { Obj in; in.i("nx", nx).i("ny", ny).i("nz", nz).i("base", base);
    explore("stencil", in.done(), T, 2, [&] { CSR* A = how == 1 ? new CSR(3, 3, 5) : new CSR; if (how == 2) generate3D27PtLaplacian(A, nx, base); else generate3D27PtLaplacian(A, nx, ny, nz, base); Obj j; { sim::Quiet q; j.raw("M", jcsr(*A)); } delete A; return j.done(); }); }}); };
  for (int x = 1; x <= top; ++x) for (int y = 1; y <= top; ++y) for (int z = 1; z <= top; ++z) for (int b = 0; b < 2; ++b) add(x, y, z, b, 1 + (x + y * 2 + z) % 5, (x + y + z + b) % 2);
  for (int x = 1; x <= 4; ++x) for (int b = 0; b < 2; ++b) add(x, x, x, b, 3, 2);
  Rng g(D.seed * 71 + 28); { int fx[][3] = {{9, 1, 1}, {1, 11, 1}, {1, 1, 13}, {4, 5, 6}, {6, 5, 4}, {5, 2, 7}}; for (auto& f : fx) for (int b = 0; b < 2; ++b) add(f[0], f[1], f[2], b, b ? 16 : 7, b); add(13, 12, 14, 1, 5, 0); add(33, 2, 40, 0, 8, 1); add(12, 12, 12, 0, 4, 2); }
  for (int i = 0; i < reps(14, 80); ++i) { int d[3] = {1 + g.below(2), 1 + g.below(3), g.range(5, 14)}; int s = g.below(3); add(d[s], d[(s + 1) % 3], d[(s + 2) % 3], g.below(2), pickT(g), 0); }
}
static Reg r28("P28", genP28);
