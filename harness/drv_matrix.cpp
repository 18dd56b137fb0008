// P14 transpose, P15 permute, P21 index base, P23 splitLU, P24 symmetric pattern, P25 predicates, P29 copies.
#include "hist.hpp"
#include "COO.hpp"
#include "Utils.hpp"
#include "MemoryPool.hpp"
#include <climits>
using namespace SpMP;

// ---- one operation = one function; each logs exactly one step ----
static void opNew(Hist& H, const std::string& d, const Mat& A, int base, bool va = true, bool dp = true, bool dd = true, bool ext = false, int nExt = 0) {
  CSR* M; { M = makeCSR(A, base, va, dp, dd); if (ext) { M->extptr = MALLOC(int, A.m > 0 ? A.m : 1); for (int i = 0; i < A.m; ++i) { int p = M->rowptr[i]; for (auto& e : A.r[i]) if (e.first < A.m) ++p; M->extptr[i] = p; } } }
  if ((A.m * 7 + A.nnz() * 3 + base + (int)H.h.size()) % 4 == 1) { // the same matrix over arrays of the client
    CSR* V = new CSR(M->m, M->n, H.lend(M->rowptr, M->m + 1), H.lend(M->colidx, A.nnz()), H.lend(M->values, A.nnz())); V->extptr = H.lend(M->extptr, M->m);
    std::swap(V->diagptr, M->diagptr); std::swap(V->diag, M->diag); std::swap(V->idiag, M->idiag); delete M; M = V; }
  H.h[d] = M; (void)nExt;
  Obj a; a.str("dst", d); H.step("new", a.done());
}
// a matrix whose arrays lie in the shared memory pool
static void opNewPool(Hist& H, const std::string& d, const Mat& A, int base, bool ext) {
  MemoryPool* P = MemoryPool::getSingleton(); int nnz = A.nnz(); int* rp = P->allocate<int>(A.m + 1); int* ci = P->allocate<int>(nnz); double* va = P->allocate<double>(nnz); CSR* M = new CSR(A.m, A.n, rp, ci, va);
  M->diagptr = P->allocate<int>(A.m); M->idiag = P->allocate<double>(A.m); M->diag = P->allocate<double>(A.m); if (ext) M->extptr = P->allocate<int>(A.m);
  int p = 0; for (int i = 0; i < A.m; ++i) { rp[i] = p + base; M->diagptr[i] = 0; M->diag[i] = M->idiag[i] = 0; int lo = 0; for (auto& e : A.r[i]) { ci[p] = e.first + base; va[p] = e.second * VU; lo += e.first < A.m; if (e.first == i) { M->diagptr[i] = p + base; M->diag[i] = e.second * VU; M->idiag[i] = 1.0 / (e.second * VU); } ++p; } if (ext) M->extptr[i] = rp[i] + lo; } rp[A.m] = p + base;
  H.h[d] = M; Obj a; a.str("dst", d); H.step("new", a.done());
}
struct Pool { bool on; explicit Pool(bool on) : on(on) { if (on) MemoryPool::getSingleton()->initialize(1 << 18); } ~Pool() { if (on) MemoryPool::getSingleton()->finalize(); } };
static void opTranspose(Hist& H, const std::string& s, const std::string& d) { H.h[d] = H.h[s]->transpose(); Obj a; a.str("src", s).str("dst", d); H.step("transpose", a.done()); }
static void opBase(Hist& H, const std::string& s, int b) { if (b) H.h[s]->make1BasedIndexing(); else H.h[s]->make0BasedIndexing(); Obj a; a.str("src", s).i("base", b); H.step("base", a.done()); }
static void opPermute(Hist& H, const std::string& s, const std::string& d, const std::vector<int>& cp, const std::vector<int>& rip, bool haveRip, bool sort) {
  int* c = dupPerm(cp); int* r = dupPerm(rip);
  H.h[d] = H.h[s]->permute(c, haveRip ? r : NULL, sort);
  Obj a; a.str("src", s).str("dst", d).arr("cp", cp).arr("rip", haveRip ? rip : [&]{ std::vector<int> id(H.h[s]->m); for (int i = 0; i < (int)id.size(); ++i) id[i] = i; return id; }()).b("sort", sort);
  H.step("permute", a.done()); free(c); free(r);
}
static void opPermuteRows(Hist& H, const std::string& s, const std::string& d, const std::vector<int>& rip, bool haveRip) {
  int* r = dupPerm(rip); H.h[d] = H.h[s]->permuteRows(haveRip ? r : NULL);
  std::vector<int> id(H.h[s]->m); for (int i = 0; i < (int)id.size(); ++i) id[i] = i;
  Obj a; a.str("src", s).str("dst", d).arr("rip", haveRip ? rip : id); H.step("permuteRows", a.done()); free(r);
}
static void opPermuteRowptr(Hist& H, const std::string& s, const std::string& d, const std::vector<int>& rip, bool haveRip, bool thenRows) {
  int* r = dupPerm(rip); CSR* X = H.h[s]->permuteRowptr(haveRip ? r : NULL);
  std::vector<int> id(H.h[s]->m); for (int i = 0; i < (int)id.size(); ++i) id[i] = i;
  { sim::Quiet q; Obj a; a.str("src", s).arr("rip", haveRip ? rip : id).arr("rp", X->rowptr, X->m + 1).b("hasEp", X->extptr != NULL).arr("ep", X->extptr, X->m); H.step("permuteRowptr", a.done()); }
  if (thenRows) { H.h[s]->permuteRowsMain(X, haveRip ? r : NULL); H.h[d] = X; Obj a; a.str("src", s).str("dst", d).arr("rip", haveRip ? rip : id); H.step("permuteRows", a.done()); }
  else delete X;
  free(r);
}
static void opPermuteCols(Hist& H, const std::string& s, const std::vector<int>& p) { int* c = dupPerm(p); H.h[s]->permuteColsInPlace(c); Obj a; a.str("src", s).arr("cp", p); H.step("permuteCols", a.done()); free(c); }
static void opCopy(Hist& H, const std::string& s, const std::string& d) { H.h[d] = new CSR(*H.h[s]); Obj a; a.str("src", s).str("dst", d); H.step("copy", a.done()); }
static void opDelete(Hist& H, std::string s) { CSR* x = H.h[s]; H.h.erase(s); delete x; Obj a; a.str("src", s); H.step("delete", a.done()); }
static void opPoke(Hist& H, const std::string& s, int pos, int v) { CSR* x = H.h[s]; if (!x->values || pos >= x->getNnz()) return; x->values[pos] = v * VU; Obj a; a.str("src", s).i("pos", pos).i("v", v); H.step("poke", a.done()); }
static void opSplit(Hist& H, const std::string& s, const std::string& l, const std::string& u) { CSR* L = H.h.count(l) ? H.h[l] : new CSR(); CSR* U = H.h.count(u) ? H.h[u] : new CSR(); splitLU(*H.h[s], L, U); H.h[l] = L; H.h[u] = U; Obj a; a.str("src", s).str("l", l).str("u", u); H.step("split", a.done()); }
static void opSymPat(Hist& H, const std::string& s, const std::string& d) {
  CSR* A = H.h[s]; int *rp = NULL, *dp = NULL, *ep = NULL, *ci = NULL;
  bool r = getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci);
  sim::Quiet q; Obj a; a.str("src", s).b("ret", r).b("hasRp", rp != NULL).arr("rp", rp, A->m + 1); long nnz = 0; if (rp && sim::addressable(rp, (A->m + 1) * 4)) nnz = (long)rp[A->m] - rp[0];
  a.b("hasCi", ci != NULL).arr("ci", ci, nnz).b("hasDp", dp != NULL).arr("dp", dp, A->m).b("hasEp", ep != NULL).arr("ep", ep, A->m); (void)d;
  H.step("sympat", a.done());
  q.~Quiet(); { MemoryPool* P = MemoryPool::getSingleton(); for (int* x : {rp, dp, ep, ci}) if (x && !P->contains(x)) _mm_free(x); } new (&q) sim::Quiet;
}
static void opPred(Hist& H, const std::string& s) {
  CSR* A = H.h[s]; Obj a; a.str("src", s);
  bool sy0 = A->isSymmetric(false), sy1 = A->values ? A->isSymmetric(true) : sy0;
  bool sy0p = A->isSymmetric(false, true), sy1p = A->values ? A->isSymmetric(true, true) : sy0p;
  bool hz = A->values && A->m <= A->n ? A->hasZeroDiag() : false; bool hzv = A->values && A->m <= A->n;
  int bw = A->getBandwidth(); double aw = A->m ? A->getAverageWidth(false) : 0; bool sorted = true;
  { int b = A->rowptr[0]; for (int i = 0; i < A->m; ++i) for (int j = A->rowptr[i] + 1 - b; j < A->rowptr[i + 1] - b; ++j) if (A->colidx[j - 1] > A->colidx[j]) sorted = false; }
  double aws = sorted && A->m ? A->getAverageWidth(true) : aw; int md = A->getMaxDegree(); int nz = A->getNnz(); int b = A->getBase();
  double tw = aw * A->m, tws = aws * A->m; tw = std::fabs(tw - std::floor(tw + 0.5)) < 1e-6 ? std::floor(tw + 0.5) : 0.5; tws = std::fabs(tws - std::floor(tws + 0.5)) < 1e-6 ? std::floor(tws + 0.5) : 0.5;
  a.b("sy0", sy0).b("sy1", sy1).b("sy0p", sy0p).b("sy1p", sy1p).b("hz", hz).b("hzv", hzv).i("bw", bw == INT_MIN ? -1 : bw).i("tw", num(tw)).i("tws", num(tws)).i("md", md).i("nz", nz).i("b", b);
  H.step("pred", a.done());
}
static void opEquals(Hist& H, const std::string& s, const std::string& t) { bool r = H.h[s]->equals(*H.h[t]), r2 = H.h[t]->equals(*H.h[s]), r3 = H.h[s]->equals(*H.h[t], true); Obj a; a.str("src", s).str("dst", t).b("r", r).b("r2", r2).b("r3", r3); H.step("equals", a.done()); }
static void opDiagPtr(Hist& H, const std::string& s) { H.h[s]->constructDiagPtr(); Obj a; a.str("src", s); H.step("diagptr", a.done()); }
static void opInvDiag(Hist& H, const std::string& s) { H.h[s]->computeInverseDiag(); Obj a; a.str("src", s); H.step("invdiag", a.done()); }

// preconditions of the symmetrised pattern / diagonal construction: sorted local part, full diagonal
static bool sortedFull(const CSR* A) { sim::Quiet q; int b = A->rowptr[0]; for (int i = 0; i < A->m; ++i) { bool d = false; int e = A->extptr ? A->extptr[i] : A->rowptr[i + 1];
  for (int j = A->rowptr[i] - b; j < e - b; ++j) { if (A->colidx[j] - b == i) d = true; if (j > A->rowptr[i] - b && A->colidx[j - 1] >= A->colidx[j]) return false; } if (!d) return false; } return true; }
static std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
static const int TS[] = {1, 2, 3, 4, 5, 7, 8, 13};
static int reps(int quick, int thor) { return (int)((D.thorough ? thor : quick) * D.scale); }

// all 0/1 patterns of a given shape, values 1..: bits
static Mat patMat(int m, int n, unsigned bits, bool rev) { Mat A(m, n); int k = 0; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j, ++k) if (bits >> k & 1) A.add(i, j, i == j ? 2 : k + 1); if (rev) std::reverse(A.r[i].begin(), A.r[i].end()); } return A; }

// off-diagonal entries stored more than once
static void repeatSome(Rng& g, Mat& A) { for (int i = 0; i < A.m; ++i) { auto& r = A.r[i]; int k = (int)r.size(); for (int q = 0; q < k; ++q) if (r[q].first != i && g.chance(0.4)) { auto e = r[q]; e.second = g.range(1, 9); r.insert(r.begin() + q + g.below(2), e); ++q; ++k; } } }
static void genP14(std::vector<Case>& C) {
  int id = 0;
  auto add = [&](const Mat& A, int base, bool va, bool dp, int T, int ns) { C.push_back({nm("t", id++), [=] { explore("hist", "{\"A\":" + jmat(A, base) + "}", T, ns, [&] {
    Hist H; opNew(H, "A", A, base, va, dp, dp); opTranspose(H, "A", "B"); opTranspose(H, "B", "C"); return H.end(); }); }}); };
  // exhaustive small patterns
  for (int m = 1; m <= 3; ++m) for (int n = 1; n <= 3; ++n) { unsigned tot = 1u << (m * n); unsigned stp = tot > 64 ? (D.thorough ? 1 : 11) : 1;
    for (unsigned b = (m * n * 3) % stp; b < tot; b += stp) add(patMat(m, n, b, b & 1), (b >> 1) & 1, b % 3 != 0, b % 5 < 2, TS[b % 5], 4); }
  Rng g(D.seed * 77 + 14);
  for (int i = 0; i < reps(160, 1200); ++i) { int m = g.range(0, 10), n = g.range(i % 20 == 0 ? 0 : 1, 10); double p = (const double[]){0.0, 0.1, 0.3, 0.6, 1.0}[g.below(5)]; add(randMat(g, m, n, p, g.chance(0.5), g.chance(0.5) && m <= n), g.below(2), g.chance(0.8), g.chance(0.5), pickT(g), D.thorough ? 24 : 6); }
  for (int i = 0; i < reps(30, 250); ++i) { int m = g.range(1, 30), n = g.range(1, 30); Mat A = randMat(g, m, n, (const double[]){0.05, 0.2, 0.5}[i % 3], true, false); if (i % 2) for (int k = g.range(1, 6); k > 0; --k) { int r = g.below(m); if (A.r[r].size()) { auto e = A.r[r][g.below((int)A.r[r].size())]; e.second += g.range(0, 2); A.r[r].insert(A.r[r].begin() + g.below((int)A.r[r].size() + 1), e); } } add(A, g.below(2), g.chance(0.8), false, i % 3 ? pickT(g) : 16 * (1 + i / 3 % 4), D.thorough ? 16 : 4); }
  for (int i = 0; i < reps(3, 10); ++i) { int m = g.range(60, 140), n = g.range(60, 140); add(randMat(g, m, n, 0.05, true, false), g.below(2), true, false, TS[3 + g.below(5)], 3); }
  for (int i = 0; i < reps(4, 24); ++i) { int m = g.range(250, 600), n = g.range(250, 600); if (i % 2) n = m; add(bigMat(g, m, n, i & 1, m == n), i >> 1 & 1, g.chance(0.8), m == n, BIGT[i % 8], 3); }
  for (int i = 0; i < reps(2, 6); ++i) add(hugeMat(g, g.range(2100, 5000), g.range(2100, 5000), i & 1, false), i & 1, true, false, BIGT[i % 8], 1);
  for (int i = 0; i < reps(1, 2); ++i) add(hugeMat(g, i & 1 ? 3000 : g.range(66000, 70000), i & 1 ? g.range(66000, 70000) : 3000, i & 1, false), i & 1, true, false, 8, 1);
}
static Reg r14("P14", genP14);

static void genP15(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 15);
  for (int i = 0; i < reps(220, 1500); ++i) {
    bool square = g.chance(0.7), ext = square && g.chance(0.2); bool mid = i % 9 == 8; int m = mid ? g.range(10, 40) : g.range(1, 9), n = square ? m : mid ? g.range(10, 40) : g.range(1, 9); int nx = ext ? g.range(0, 4) : 0;
    bool fd = (square || m <= n) && g.chance(0.7), dp = fd && g.chance(0.6), va = !ext ? g.chance(0.9) : g.chance(0.9), dd = dp && g.chance(0.6);
    Mat A = randMat(g, m, n, mid ? (const double[]){0.05, 0.15, 0.3, 0.6}[g.below(4)] : (const double[]){0.0, 0.2, 0.4, 0.8}[g.below(4)], !ext && g.chance(0.6), fd);
    if (g.chance(0.15)) repeatSome(g, A);
    if (ext) { A.n = n; for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (g.chance(0.4)) r.push_back({n + k, g.range(1, 9)}); A.n = n + nx; }
    bool big = i % 44 == 21; if (big) { m = i == 109 ? g.range(65600, 67000) : i % 220 == 197 ? g.range(2100, 4000) : g.range(200, 450); if (square) n = m; else n = m + g.below(60); fd = true; A = bigMat(g, m, n, !ext && g.chance(0.5), true); if (ext) { for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (g.chance(0.4)) r.push_back({n + k, 3}); A.n = n + nx; } }
    int base = g.below(2), T = big ? BIGT[i / 44 % 8] : pickT(g); auto cp = randPerm(g, n), rp = randPerm(g, m); if (g.chance(0.4) && m == n) rp = cp; auto rip = invOf(rp); bool have = g.chance(0.85), sort = g.chance(0.5); int variant = big ? i / 44 % 5 : i / 2 % 5; bool pool = square && fd && dp && va && g.chance(0.15);
    C.push_back({nm("p", i), [=] { explore("hist", "{\"A\":" + jmat(A, base) + "}", T, D.thorough ? 16 : 4, [&] {
      Pool pl(pool); Hist H; if (pool) opNewPool(H, "A", A, base, ext); else opNew(H, "A", A, base, va, dp, dd, ext, nx);
      std::vector<int> cpi, rpi; { sim::Quiet q; cpi = invOf(cp); rpi = invOf(rip); }
      if (variant <= 1) { opPermute(H, "A", "B", cp, rip, have, sort); opPermute(H, "B", "C", cpi, rpi, have, sort); }
      else if (variant == 2) { opPermuteRows(H, "A", "B", rip, have); if (!ext) opPermuteRows(H, "B", "C", rpi, have); }
      else if (variant == 3) { opPermuteRowptr(H, "A", "B", rip, have, !ext); }
      else { if (m == n && !ext) { opPermuteCols(H, "A", cp); opPermuteCols(H, "A", cpi); } else opPermute(H, "A", "B", cp, rip, have, sort); }
      return H.end(); }); }});
  }
}
static Reg r15("P15", genP15);

static void genP21(std::vector<Case>& C) {
  // random histories of operations mixed with base switches, on one or two matrices
  Rng g(D.seed * 77 + 21);
  for (int i = 0; i < reps(240, 2000); ++i) {
    uint32_t sd = (uint32_t)g.next(); int T = pickT(g);
    C.push_back({nm("b", i), [=] {
      Rng q0(sd); bool big = i % 80 == 40; int m = i == 120 ? q0.range(2100, 2600) : big ? q0.range(100, 260) : q0.chance(0.12) ? q0.range(8, 20) : q0.range(1, 7); bool ext = q0.chance(0.3); Mat A = big ? bigMat(q0, m, m, false, true) : randMat(q0, m, m, (const double[]){0.1, 0.3, 0.6}[q0.below(3)], false, true); if (!big && q0.chance(0.4)) { Mat S(m, m); for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y) if (A.has(x, y) || A.has(y, x)) S.add(x, y, x == y ? 2 : 1 + x + y); A = S; }
      if (ext) { int nx = q0.range(1, 3); for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (q0.chance(0.4)) r.push_back({m + k, q0.range(1, 9)}); A.n += nx; }
      int base = q0.below(2); bool dp = q0.chance(0.8), dd = dp && q0.chance(0.7); uint32_t s2 = (uint32_t)q0.next();
      explore("hist", "{\"A\":" + jmat(A, base) + "}", T, D.thorough ? 8 : 3, [&] {
        Rng q(s2); Hist H; opNew(H, "A", A, base, true, dp, dd, ext); int steps = q.range(4, 8);
        for (int k = 0; k < steps; ++k) {
          std::string d = nm("M", k); std::vector<std::string> hs; for (auto& x : H.h) hs.push_back(x.first); std::string s = hs[q.below((int)hs.size())]; CSR* X = H.h[s]; bool xe = X->extptr != NULL || X->m != X->n;
          switch (q.below(9)) {
            case 0: case 1: case 2: opBase(H, s, 1 - X->getBase()); if (q.chance(0.3)) opBase(H, s, X->getBase()); break;
            case 3: if (!X->extptr) opTranspose(H, s, d); break;
            case 4: { auto p = randPerm(q, xe ? X->m : X->m); if (!xe || X->extptr) opPermute(H, s, d, p, invOf(p), true, false); break; }
            case 5: opPred(H, s); break;
            case 6: if (!xe && X->m == m && sortedFull(X)) opSymPat(H, s, d); break;
            case 7: { if (X->idiag) { std::string l = d + "l", u = d + "u"; if (q.chance(0.4) && hs.size() > 2) { l = hs[0] == s ? hs[1] : hs[0]; for (auto& x : hs) if (x != s && x != l) u = x; } opSplit(H, s, l, u); } break; }
            case 8: opCopy(H, s, d); break;
          }
          if (H.h.size() > 4) break;
        }
        return H.end(); });
    }});
  }
}
static Reg r21("P21", genP21);

static void genP23(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 23);
  for (int i = 0; i < reps(160, 1200); ++i) {
    bool big = i % 40 == 20; int m = i == 60 ? g.range(65600, 67000) : i == 100 || i == 140 ? g.range(2100, 4000) : big ? g.range(200, 500) : i % 8 == 7 ? g.range(20, 70) : g.range(1, 10); bool ext = g.chance(0.4); Mat A = big ? bigMat(g, m, m, g.chance(0.5), true) : randMat(g, m, m, (const double[]){0.0, 0.2, 0.5, 1.0}[g.below(4)], g.chance(0.4), true);
    if (g.chance(0.15)) repeatSome(g, A);
    if (ext) { int nx = g.range(1, 4); for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (g.chance(0.5)) r.push_back({m + k, g.range(1, 9)}); A.n += nx; for (auto& r : A.r) std::stable_sort(r.begin(), r.end(), [&](const std::pair<int,int>& a, const std::pair<int,int>& b) { return (a.first >= m) < (b.first >= m); }); }
    int base = g.below(2), T = big ? BIGT[i / 40 % 8] : pickT(g); bool dp = g.chance(0.7); int reuse = g.below(4); Mat A2 = randMat(g, g.range(1, 6), 6, 0.4, false, true);
    C.push_back({nm("s", i), [=] { explore("hist", "{\"A\":" + jmat(A, base) + "}", T, m > 60000 ? 1 : D.thorough ? 24 : 6, [&] { Hist H; opNew(H, "A", A, base, true, dp, true, ext); if (reuse == 1) { opNew(H, "L", A2, 1 - base); opNew(H, "U", A, base, true, true, true, ext); } if (reuse == 2) { opCopy(H, "A", "L"); opCopy(H, "A", "U"); } opSplit(H, "A", "L", "U"); if (reuse == 3) opSplit(H, "A", "U", "L"); return H.end(); }); }});
  }
}
static Reg r23("P23", genP23);

static void genP24(std::vector<Case>& C) {
  int id = 0; 
  auto add = [&](const Mat& A, int base, int T, int ns, bool ext, bool pool = false) { C.push_back({nm("y", id++), [=] { explore("hist", "{\"A\":" + jmat(A, base) + "}", T, ns, [&] { Pool pl(pool); Hist H; if (pool) opNewPool(H, "A", A, base, ext); else opNew(H, "A", A, base, true, true, true, ext); opSymPat(H, "A", "B"); if (pool) opSymPat(H, "A", "B"); return H.end(); }); }}); };
  for (unsigned b = 0; b < 64; ++b) { Mat A(3, 3); int k = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { if (i == j) A.add(i, j, 2); else { if (b >> k & 1) A.add(i, j, 1); ++k; } } add(A, b & 1, TS[b % 4], 6, false); add(A, 1 - (b & 1), TS[(b + 1) % 4], 3, false); }
  Rng g(D.seed * 77 + 24);
  for (int i = 0; i < reps(140, 1200); ++i) { int m = i % 8 == 7 ? g.range(20, 60) : g.range(1, 11); Mat A = randMat(g, m, m, (const double[]){0.05, 0.2, 0.4, 0.8}[g.below(4)], false, true); bool ext = g.chance(0.25);
    if (i % 6 == 0) { Mat S(m, m); for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y) if (A.has(x, y) || A.has(y, x)) S.add(x, y, x == y ? 2 : 1); A = S; }
    if (ext) { int nx = g.range(1, 3); for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (g.chance(0.4)) r.push_back({m + k, 1}); A.n += nx; }
    add(A, g.below(2), pickT(g), D.thorough ? 40 : m > 20 ? 4 : 10, ext, g.chance(0.2)); }
  for (int i = 0; i < reps(5, 24); ++i) { int m = i == 1 ? g.range(65600, 67000) : i == 4 ? g.range(2100, 3000) : g.range(150, 300); Mat A = i == 1 ? hugeMat(g, m, m, false, true, 0.01) : bigMat(g, m, m, false, true); if (i % 4 == 3) { Mat B(m, m); for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y) if (A.has(x, y) || A.has(y, x)) B.add(x, y, 1); A = B; } bool ext = i & 1; if (ext) { for (auto& r : A.r) for (int k = 0; k < 2; ++k) if (g.chance(0.4)) r.push_back({m + k, 1}); A.n += 2; } add(A, i >> 1 & 1, BIGT[i % 8], 3, ext); }
}
static Reg r24("P24", genP24);

static void genP25(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 25);
  for (int i = 0; i < reps(260, 2500); ++i) {
    bool big = i % 65 == 32; int m = i == 162 ? g.range(65600, 67000) : i == 97 || i == 227 ? g.range(2100, 3000) : big ? g.range(150, 300) : i % 9 == 8 ? g.range(12, 40) : g.range(1, 8), n = big || g.chance(0.8) ? m : g.range(1, 8); Mat A = big ? bigMat(g, m, m, g.chance(0.4), g.chance(0.6)) : randMat(g, m, n, (const double[]){0.0, 0.15, 0.4, 0.8}[g.below(4)], g.chance(0.4), g.chance(0.6) && m <= n);
    int kind = g.below(4);
    if (m == n && kind >= 1) { // symmetric, then perhaps one blemish
      Mat S(m, m); for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y) if (A.has(x, y) || A.has(y, x)) S.add(x, y, x == y ? 2 : 1 + x * y + x + y); A = S;
      if (kind == 2) { int x = g.below(m), y = g.below(m); for (auto& e : A.r[x]) if (e.first == y) e.second += 1; }
      if (kind == 3) { int x = g.chance(0.5) ? m - 1 : g.below(m); if (A.r[x].size()) A.r[x].erase(A.r[x].begin() + g.below((int)A.r[x].size())); } }
    if (g.chance(0.15) && m <= n) { int x = g.chance(0.4) ? m - 1 : g.below(m); for (auto& e : A.r[x]) if (e.first == x) e.second = 0; }
    bool fullDiag = m <= n; for (int x = 0; x < m && fullDiag; ++x) if (!A.has(x, x)) fullDiag = false;
    bool lowFirst = g.chance(0.8); if (lowFirst) A.sortRows();
    int base = g.below(2), T = big ? BIGT[i / 65 % 8] : pickT(g); int variant = g.below(4); bool va = g.chance(0.85); int px = g.below(m), dv = g.below(9);
    C.push_back({nm("q", i), [=] { explore("hist", "{\"A\":" + jmat(A, base) + "}", T, D.thorough ? 12 : 4, [&] {
      Hist H; bool zero = false; for (int x = 0; x < m; ++x) for (auto& e : A.r[x]) if (e.first == x && e.second == 0) zero = true;
      if (variant == 3) { // equality
        opNew(H, "A", A, base); Mat B; int b2 = base; { sim::Quiet q; B = A; if (dv == 1 && B.r[px].size()) B.r[px].back().second += 1; if (dv == 2 && B.r[px].size() && B.n > 1) B.r[px].back().first = (B.r[px].back().first + 1) % B.n; if (dv == 0 && (px & 1)) b2 = 1 - base;
        if (dv == 3 && m > 1) { B.r.pop_back(); B.m--; } if (dv == 4) B.n++; if (dv == 5 && m > 1) { auto& r = B.r[px]; if (r.size()) { B.r[(px + 1) % m].push_back(r.back()); r.pop_back(); } } if (dv == 6) B.r[m - 1].push_back({0, 1}); if (dv == 7 && B.r[m - 1].size()) B.r[m - 1].back().second = -B.r[m - 1].back().second; if (dv == 8) { B.r.push_back({}); B.m++; } }
        opNew(H, "B", B, b2); opEquals(H, "A", "B"); opEquals(H, "A", "A"); opBase(H, "B", base); opEquals(H, "A", "B"); return H.end(); }
      bool noDiag = fullDiag && !zero && variant == 2 && lowFirst;
      opNew(H, "A", A, base, noDiag || va, !noDiag, !noDiag);
      opPred(H, "A");
      if (noDiag) { if (dv == 0) opDiagPtr(H, "A"); opInvDiag(H, "A"); }
      return H.end(); }); }});
  }
}
static Reg r25("P25", genP25);

static void genP29(std::vector<Case>& C) {
  Rng g(D.seed * 77 + 29);
  for (int i = 0; i < reps(200, 1500); ++i) {
    uint32_t sd = (uint32_t)g.next(); int T = pickT(g);
    C.push_back({nm("c", i), [=] {
      Rng q0(sd); bool big = i % 70 == 35; int m = i == 105 ? q0.range(2100, 2600) : big ? q0.range(100, 260) : q0.chance(0.1) ? q0.range(10, 40) : q0.range(1, 7); bool ext = q0.chance(0.35); Mat A = big ? bigMat(q0, m, m, false, true) : randMat(q0, m, m, 0.35, q0.chance(0.3) && !ext, true); if (ext) { int nx = q0.range(1, 3); for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (q0.chance(0.5)) r.push_back({m + k, q0.range(1, 9)}); A.n += nx; }
      int base = q0.below(2); bool va = q0.chance(0.9), dp = q0.chance(0.7), dd = dp && q0.chance(0.6); bool borrow = q0.chance(0.3); uint32_t s2 = (uint32_t)q0.next();
      explore("hist", "{\"A\":" + jmat(A, base) + "}", T, D.thorough ? 8 : 3, [&] {
        Rng q(s2); Hist H; opNew(H, "A", A, base, va, dp, dd, ext);
        if (borrow) { // a matrix that borrows A's arrays must leave them alone when destroyed
          { CSR b(H.h["A"]->m, H.h["A"]->n, H.h["A"]->rowptr, H.h["A"]->colidx, H.h["A"]->values); Obj a; H.step("nop", a.done()); } { Obj a; H.step("nop", a.done()); } }
        opCopy(H, "A", "B"); int steps = q.range(2, 6);
        for (int k = 0; k < steps; ++k) { std::vector<std::string> hs; for (auto& x : H.h) hs.push_back(x.first); if (hs.empty()) break; std::string s = hs[q.below((int)hs.size())]; std::string d = nm("M", k);
          switch (q.below(9)) { case 6: if (H.h[s]->idiag && H.h[s]->values && hs.size() > 2) { std::string l, u; for (auto& x : hs) if (x != s) (l.empty() ? l : u) = x; if (u.size()) opSplit(H, s, l, u); } break; case 7: if (!H.h[s]->extptr && H.h.size() < 5) opTranspose(H, s, d); break; case 8: if (H.h.size() < 5) { auto p = randPerm(q, H.h[s]->m); if (H.h[s]->m == H.h[s]->n || H.h[s]->extptr) opPermute(H, s, d, p, invOf(p), true, q.chance(0.5)); } break; case 0: if (H.h.size() < 4) opCopy(H, s, d); break; case 1: if (H.h.size() > 1) opDelete(H, s); break; case 2: case 3: opPoke(H, s, q.below(std::max(1, H.h[s]->getNnz())), q.range(10, 99)); break; case 4: opBase(H, s, 1 - H.h[s]->getBase()); break; case 5: if (H.h.size() > 1) { auto t = hs[q.below((int)hs.size())]; if (H.h[s]->values && H.h[t]->values) opEquals(H, s, t); } break; } }
        while (!H.h.empty()) opDelete(H, H.h.begin()->first);
        return H.end(); });
    }});
  }
}
static Reg r29("P29", genP29);
