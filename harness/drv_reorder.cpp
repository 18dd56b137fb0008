// P10 connected components, P11 BFS, P12 reverse Cuthill-McKee, P13 bipartite BFS.
#include "drv.hpp"
#include <sys/mman.h>
#include "CSR.hpp"
#include "reordering/BitVector.hpp"
#include "reordering/BFSBipartite.hpp"
#include "synk/barrier.hpp"
using namespace SpMP;
namespace SpMP {
int PAR_THR = 65536;
void findConnectedComponents(const CSR*, int*, int**, int**, int**, int**);
void findConnectedComponentsWithBitVector(const CSR*, int*, int**, int**, int**, int**, const BitVector*);
}
static int reps(int q, int t) { return (int)((D.thorough ? t : q) * D.scale); }
static std::string jrows(const Mat& A) { std::vector<std::vector<int>> r(A.m); for (int i = 0; i < A.m; ++i) for (auto& e : A.r[i]) r[i].push_back(e.first); return jarr2(r); }
static Mat graph(Rng& g, int kind, int n, int diagMode, bool shuffle) { // diagMode 0 full, 1 none, 2 some
  auto e = graphFamily(g, kind, n); Mat A = symPattern(e, n);
  for (int i = 0; i < n; ++i) { auto& r = A.r[i]; if (diagMode == 1 || (diagMode == 2 && g.chance(0.5))) for (size_t k = 0; k < r.size(); ++k) if (r[k].first == i) { r.erase(r.begin() + k); break; } if (shuffle) g.shuffle(r); }
  return A;
}
// the same entry stored more than once, in both rows of a pair
static Mat repeated(Rng& g, Mat A, double p) {
  for (int i = 0; i < A.m; ++i) { std::set<int> cs; for (auto& e : A.r[i]) cs.insert(e.first);
    for (int j : cs) if (j >= i && g.chance(p)) for (int q = 1 + (g.below(4) == 0); q > 0; --q) { A.add(i, j, 1); if (j > i && j < A.m && A.has(j, i)) A.add(j, i, 1); } }
  if (g.chance(0.5)) A.sortRows();
  return A;
}
static const int TS[] = {1, 2, 3, 4, 5, 6, 8, 13};
static std::vector<int> component(const Mat& A, int s) { std::vector<int> st{s}, c; std::vector<char> v(A.m, 0); v[s] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); c.push_back(u); for (auto& e : A.r[u]) if (!v[e.first]) { v[e.first] = 1; st.push_back(e.first); } } return c; }

static void addComp(std::vector<Case>& C, const std::string& id, const Mat& A, const std::vector<int>& out, bool withBv, int base, int T, int ns) {
  C.push_back({id, [=] { Obj in; in.i("m", A.m).raw("rows", jrows(A)).arr("excl", out).b("bv", withBv).i("base", base);
    explore("comp", in.done(), T, ns, [&] {
      CSR* M = makeCSR(A, base, false, false, false); int n = -1, *root = NULL, *sz = NULL, *st = NULL, *nodes = NULL;
      if (withBv) { BitVector* bv = new BitVector(A.m); for (int x : out) bv->set(x); findConnectedComponentsWithBitVector(M, &n, &root, &sz, &st, &nodes, bv); delete bv; }
      else findConnectedComponents(M, &n, &root, &sz, &st, &nodes);
      Obj j; { sim::Quiet q; j.i("n", n).arr("root", root, n).arr("size", sz, n).arr("start", st, n).arr("nodes", nodes, A.m - (int)out.size()); }
      delete[] root; delete[] sz; delete[] st; delete[] nodes; delete M; return j.done(); }, 0, (uint32_t)A.m * 43 + T + (uint32_t)A.nnz()); }});
}
static void genP10(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 10); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int i = 0; i < reps(200, 1600); ++i) { int n = i % 31 == 0 ? g.below(2) : g.chance(0.2) ? g.range(14, 48) : g.range(1, 13); addComp(C, nm("c"), graph(g, i, n, i % 3, g.chance(0.5)), {}, false, g.below(2), pickT(g), D.thorough ? 60 : 15); }
  for (int i = 0; i < reps(80, 600); ++i) { int n = g.range(1, 20); Mat A = graph(g, (i % 3) ? 5 : 12, n, i % 3, g.chance(0.5)); std::set<int> ex; int k = g.below(3); for (int q = 0; q < k; ++q) for (int x : component(A, g.below(n))) ex.insert(x); addComp(C, nm("b"), A, {ex.begin(), ex.end()}, true, g.below(2), pickT(g), D.thorough ? 40 : 10); }
  // small, many schedules: contention on few trees
  for (int i = 0; i < reps(40, 120); ++i) { int n = g.range(3, 7); addComp(C, nm("x"), graph(g, (const int[]){1, 2, 3, 7, 6, 13, 11}[i % 7], n, i % 3, true), {}, false, 0, g.range(3, 6), D.thorough ? 6000 : 400); }
  for (int i = 0; i < reps(2, 10); ++i) { addComp(C, nm("l"), graph(g, i % 2 ? 7 : 12, g.range(150, 400), 0, false), {}, false, 0, 4, 4); }
  for (int i = 0; i < reps(16, 120); ++i) { int n = g.range(49, 120); addComp(C, nm("n"), graph(g, (const int[]){14, 5, 12, 14, 9, 15, 7, 4}[i % 8], n, i % 3, g.chance(0.5)), {}, false, i >> 1 & 1, (const int[]){16, 8, 32, 5}[i % 4], D.thorough ? 20 : 6); }
  for (int i = 0; i < reps(3, 6); ++i) addComp(C, nm("z"), graph(g, (const int[]){7, 14, 15}[i % 3], i == 1 ? g.range(65600, 67000) : g.range(2100, 5000), i % 3, i & 1), {}, false, i & 1, BIGT[i % 8], 1);
  for (int i = 0; i < reps(30, 200); ++i) addComp(C, nm("d"), repeated(g, graph(g, i, g.range(1, 12), i % 3, true), 0.4), {}, false, g.below(2), pickT(g), D.thorough ? 40 : 8);
}
static Reg r10("P10", genP10);

static void addPerm(std::vector<Case>& C, const std::string& id, const char* op, const Mat& A, int base, int thr, bool pd, int T, int ns, bool bfs) {
  std::string o = op;
  C.push_back({id, [=] { Obj in; in.i("m", A.m).raw("rows", jrows(A)).i("base", base).i("thr", thr).b("pd", pd);
    explore(o, in.done(), T, ns, [&] {
      PAR_THR = thr; CSR* M = makeCSR(A, base, true, false, false); int *p = MALLOC(int, A.m), *ip = MALLOC(int, A.m); std::string before = jcsr(*M);
      for (int i = 0; i < A.m; ++i) p[i] = ip[i] = -7;
      if (bfs) M->getBFSPermutation(p, ip); else M->getRCMPermutation(p, ip, pd);
      Obj j; { sim::Quiet q; j.arr("perm", p, A.m).arr("inv", ip, A.m).b("same", before == jcsr(*M)); }
      FREE(p); FREE(ip); delete M; synk::Barrier::deleteInstance(); return j.done(); }, 0, (uint32_t)A.m * 47 + T + (uint32_t)A.nnz()); }});
}
static void genOrder(std::vector<Case>& C, bool bfs) {
  const char* op = bfs ? "bfs" : "rcm"; Rng g(D.seed * 77 + (bfs ? 11 : 12)); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  static const int thrs[] = {1, 2, 3, 4, 6, 65536};
  for (int i = 0; i < reps(260, 2400); ++i) { int n = g.chance(0.2) ? g.range(14, 40) : g.range(1, 13); int thr = thrs[g.below(6)]; int T = thr == 65536 ? TS[g.below(5)] : pickT(g); addPerm(C, nm("a"), op, graph(g, i, n, g.chance(0.35) ? g.range(1, 2) : 0, g.chance(0.5)), g.below(2), thr, g.chance(0.6), T, D.thorough ? 50 : 10, bfs); }
  // forests of small trees with and without diagonals: singletons, twins and what nearly is one
  for (int i = 0; i < reps(90, 700); ++i) { int n = g.range(2, 14); std::vector<std::pair<int,int>> e; for (int v = 1; v < n; ++v) if (g.chance(0.7)) { int u = g.chance(0.7) ? v - 1 : g.below(v); e.push_back({u, v}); } if (i % 3 == 0) { auto q = randPerm(g, n); for (auto& x : e) { x.first = q[x.first]; x.second = q[x.second]; } } Mat A = symPattern(e, n); double pd = (const double[]){0.5, 0.8, 0.2, 0, 1}[i % 5]; for (int v = 0; v < n; ++v) if (!g.chance(pd)) { auto& r = A.r[v]; for (size_t k = 0; k < r.size(); ++k) if (r[k].first == v) { r.erase(r.begin() + k); break; } } if (i % 4 == 0) for (auto& r : A.r) g.shuffle(r); addPerm(C, nm("t"), op, A, g.below(2), thrs[g.below(6)], i & 1, (const int[]){1, 2, 4}[i % 3], D.thorough ? 20 : 4, bfs); }
  // one component, wide and deep shapes, handled in parallel
  for (int i = 0; i < reps(40, 200); ++i) { int n = g.range(4, 10); addPerm(C, nm("x"), op, graph(g, (const int[]){1, 0, 2, 3, 4, 7, 13, 8}[i % 8], n, 0, g.chance(0.5)), 0, 1, i & 1, g.range(2, 6), D.thorough ? 600 : 60, bfs); }
  // complete multipartite chains: many threads reach the same nodes of the next level together
  for (int i = 0; i < reps(24, 120); ++i) { std::vector<std::pair<int,int>> e; int n = 1, prev0 = 0, prev1 = 1, L = g.range(1, 3); for (int l = 0; l < L; ++l) { int w = g.range(2, 7); for (int a = prev0; a < prev1; ++a) for (int b = n; b < n + w; ++b) if (g.chance(0.9) || a == prev0) e.push_back({a, b}); prev0 = n; prev1 = n += w; } auto q = randPerm(g, n); for (auto& x : e) { x.first = q[x.first]; x.second = q[x.second]; } addPerm(C, nm("m"), op, symPattern(e, n), g.below(2), 1 + g.below(2), i & 1, g.range(2, 8), D.thorough ? 200 : 30, bfs); }
  // few sources over a complete bipartite last step, rows in the same order: threads in step reach the same nodes
  for (int i = 0; i < reps(10, 40) && !bfs; ++i) { int a = g.range(2, 5), b = g.range(6, 14), n = 1 + a + b; std::vector<std::pair<int,int>> e; for (int x = 1; x <= a; ++x) { e.push_back({0, x}); for (int y = 0; y < b; ++y) e.push_back({x, 1 + a + y}); } Mat A = symPattern(e, n); if (i & 1) for (auto& r : A.r) for (size_t k = 0; k < r.size(); ++k) if (&r == &A.r[r[k].first]) { r.erase(r.begin() + k); break; } addPerm(C, nm("k"), op, A, 0, 1, true, a + 1 - (i % 2), D.thorough ? 200 : 40, bfs); }
  // paths and caterpillars close to the threshold: as many levels as nodes
  for (int i = 0; i < reps(24, 80); ++i) { int thr = g.range(3, 12), k = g.range(1, 7), len = thr - 1 + (i % 3 == 2); std::vector<std::pair<int,int>> e; int n = 0; for (int c = 0; c < k; ++c) { for (int a = 0; a + 1 < len; ++a) e.push_back({n + a, n + a + 1}); n += len; } if (i & 1) { auto q = randPerm(g, n); for (auto& x : e) { x.first = q[x.first]; x.second = q[x.second]; } } addPerm(C, nm("p"), op, symPattern(e, n), g.below(2), thr, g.chance(0.5), TS[g.below(7)], D.thorough ? 40 : 8, bfs); }
  for (int i = 0; i < reps(24, 160); ++i) { int n = g.range(30, 80); addPerm(C, nm("n"), op, graph(g, (const int[]){14, 15, 6, 4, 7, 2, 11, 8}[i % 8], n, i % 3 == 2 ? 1 : 0, g.chance(0.5)), g.below(2), (const int[]){1, 5, 20, 65536}[i / 2 % 4], i & 1, (const int[]){3, 8, 16, 32, 6}[i % 5], D.thorough ? 24 : 6, bfs); }
  for (int i = 0; i < reps(2, 10); ++i) addPerm(C, nm("h"), op, graph(g, (const int[]){4, 14, 15}[i % 3], g.range(250, 380), 0, false), i & 1, i % 2 ? 65536 : 40, true, 8, 3, bfs);
  for (int i = 0; i < reps(3, 16); ++i) { int n = g.range(90, 200); addPerm(C, nm("l"), op, graph(g, (const int[]){4, 7, 6, 12}[i % 4], n, 0, false), i & 1, i % 2 ? 65536 : 8, true, TS[2 + g.below(5)], 4, bfs); }
  for (int i = 0; i < reps(3, 6); ++i) addPerm(C, nm("z"), op, graph(g, (const int[]){15, 4, 7}[i % 3], i == 2 ? g.range(65600, 67000) : g.range(2100, 3500), 0, false), i & 1, i % 2 ? 65536 : 1500, i < 2, i % 3 == 1 ? 40 : 4, 1, bfs);
  for (int i = 0; i < reps(80, 500); ++i) addPerm(C, nm("d"), op, repeated(g, graph(g, i % 2 ? 5 : i / 2, g.range(1, 12), i % 3, true), i % 4 ? 0.4 : 0.9), g.below(2), thrs[g.below(6)], i & 1, pickT(g), D.thorough ? 40 : 8, bfs);
}
static void genP11(std::vector<Case>& C) { genOrder(C, true); }
static void genP12(std::vector<Case>& C) { genOrder(C, false); }
static Reg r11("P11", genP11), r12("P12", genP12);

static void addBip(std::vector<Case>& C, const std::string& id, const Mat& A, int base, int T, int ns) {
  C.push_back({id, [=] { Obj in; in.i("m", A.m).i("n", A.n).raw("rows", jrows(A)).i("base", base);
    explore("bip", in.done(), T, ns, [&] {
      Mat B(A.n, A.m); for (int i = 0; i < A.m; ++i) for (auto& e : A.r[i]) B.add(e.first, i, e.second);
      CSR *M = makeCSR(A, base, true, false, false), *N = makeCSR(B, base, true, false, false); std::string before = jcsr(*M) + jcsr(*N);
      int *rp = MALLOC(int, A.m), *ri = MALLOC(int, A.m), *cp = MALLOC(int, A.n), *ci = MALLOC(int, A.n);
      for (int i = 0; i < A.m; ++i) rp[i] = ri[i] = -7; for (int i = 0; i < A.n; ++i) cp[i] = ci[i] = -7;
      bfsBipartite(*M, *N, rp, ri, cp, ci);
      Obj j; { sim::Quiet q; j.arr("rp", rp, A.m).arr("ri", ri, A.m).arr("cp", cp, A.n).arr("ci", ci, A.n).b("same", before == jcsr(*M) + jcsr(*N)); }
      FREE(rp); FREE(ri); FREE(cp); FREE(ci); delete M; delete N; synk::Barrier::deleteInstance(); return j.done(); }, 0, (uint32_t)A.m * 53 + T + (uint32_t)A.nnz()); }});
}
static void genP13(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 13); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int i = 0; i < reps(260, 2200); ++i) { int m = g.chance(0.15) ? g.range(12, 30) : g.range(0, 10), n = g.chance(0.15) ? g.range(12, 30) : g.range(0, 10); double p = (const double[]){0.05, 0.15, 0.4, 0.9}[g.below(4)]; if (g.chance(0.3)) p = 1.5 / std::max(1, std::max(m, n)); addBip(C, nm("b"), randMat(g, m, n, p, g.chance(0.5), false), g.below(2), pickT(g), D.thorough ? 50 : 12); }
  for (int i = 0; i < reps(20, 80); ++i) { Mat A = i % 2 ? Mat(1 + g.below(2), g.range(1, 9)) : Mat(g.range(1, 9), 1 + g.below(2)); for (int r = 0; r < A.m; ++r) for (int c = 0; c < A.n; ++c) A.add(r, c, 1); addBip(C, nm("f"), A, g.below(2), TS[g.below(6)], D.thorough ? 100 : 20); }
  for (int i = 0; i < reps(20, 100); ++i) { int m = g.range(4, 9), n = g.range(4, 9); addBip(C, nm("x"), randMat(g, m, n, i & 1 ? 0.3 : 0.7, true, false), 0, g.range(2, 6), D.thorough ? 500 : 60); }
  for (int i = 0; i < reps(16, 120); ++i) { int m = g.range(20, 60), n = g.range(20, 60); addBip(C, nm("n"), randMat(g, m, n, (const double[]){0.02, 0.06, 0.3, 0.9}[i % 4], g.chance(0.5), false), g.below(2), (const int[]){3, 8, 16, 32, 5}[i % 5], D.thorough ? 24 : 6); }
  for (int i = 0; i < reps(2, 10); ++i) addBip(C, nm("l"), randMat(g, g.range(60, 120), g.range(60, 120), 0.03, true, false), i & 1, 4, 4);
  for (int i = 0; i < reps(3, 16); ++i) addBip(C, nm("L"), bigMat(g, g.range(120, 260), g.range(120, 260), i & 1, false), i & 1, BIGT[i % 8], 3);
  for (int i = 0; i < reps(2, 4); ++i) addBip(C, nm("z"), i == 1 ? hugeMat(g, g.range(65600, 67000), g.range(40, 60), true, false, 1) : hugeMat(g, g.range(2100, 3000), g.range(2100, 3000), i & 1, false), i & 1, i & 1 ? 40 : 4, 1);
  for (int i = 0; i < reps(30, 200); ++i) { Mat A = randMat(g, g.range(1, 10), g.range(1, 10), 0.25, true, false); for (auto& r : A.r) { int k = (int)r.size(); for (int q = 0; q < k; ++q) if (g.chance(0.4)) r.push_back(r[q]); } addBip(C, nm("d"), A, g.below(2), pickT(g), D.thorough ? 40 : 8); }
}
static Reg r13("P13", genP13);
