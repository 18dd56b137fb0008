// P04-P08 level schedules and their execution, P09 numerical sweeps over schedules.
#include "drv.hpp"
#include <sys/mman.h>
#include <climits>
#include "CSR.hpp"
#include "LevelSchedule.hpp"
#include "MemoryPool.hpp"
#include "synk/barrier.hpp"
#include "cli_sched.hpp"
using namespace SpMP;
namespace SpMP { int spmpVerifLevelThresh = 64; }
static std::vector<int>* sev;
void schedLog(int kind, int sweep, int task) { { sim::Quiet q; sev->push_back(kind); sev->push_back(sweep); sev->push_back(task); } sim::yieldPoint(); }
struct Opt { bool ub, tr, fu, ag, mp; int cost, api, thresh, base; bool ext, asym = false; };
static std::string jopt(const Opt& o) { Obj j; j.b("ub", o.ub).b("tr", o.tr).b("fu", o.fu).b("ag", o.ag).b("mp", o.mp).i("cost", o.cost).i("api", o.api).i("thr", o.thresh).i("base", o.base).b("ext", o.ext).b("asym", o.asym); return j.done(); }
struct RndCost : CostFunction { int getCostOf(int row) const { return 1 + (row * 7919 + 13) % 17; } };
struct BigCost : CostFunction { int getCostOf(int row) const { return row % 5 == 0 ? 1000 : 1; } };
// columns >= m are non-local
static std::string localRows(const Mat& A) { std::vector<std::vector<int>> r(A.m); for (int i = 0; i < A.m; ++i) for (auto& e : A.r[i]) if (e.first < A.m) r[i].push_back(e.first); return jarr2(r); }
static CSR* build(const Mat& A, const Opt& o) {
  CSR* M = makeCSR(A, o.base, true, true, true);
  if (o.ext) { M->extptr = MALLOC(int, A.m > 0 ? A.m : 1); for (int i = 0; i < A.m; ++i) { int p = M->rowptr[i]; for (auto& e : A.r[i]) if (e.first < A.m) ++p; M->extptr[i] = p; } }
  return M;
}
static void schedule(LevelSchedule& S, CSR* M, const Opt& o) {
  S.useBarrier = o.ub; S.transitiveReduction = o.tr; S.fuseSpMV = o.fu; S.aggregateForVectorization = o.ag; S.useMemoryPool = o.mp;
  CostFunction one; RndCost rnd; BigCost big; PrefixSumCostFunction nnz(M->rowptr);
  const CostFunction& c = o.cost == 0 ? (CostFunction&)nnz : o.cost == 1 ? one : o.cost == 2 ? (CostFunction&)rnd : (CostFunction&)big;
  if (o.asym) { // a structurally unsymmetric matrix is scheduled through its symmetrised pattern
    int *rp = NULL, *dp = NULL, *ep = NULL, *ci = NULL;
    if (getSymmetricNnzPattern(M, &rp, &dp, &ep, &ci)) S.constructTaskGraph(M->m, M->rowptr, M->diagptr, M->extptr, M->colidx, c);
    else { PrefixSumCostFunction sn(rp); S.constructTaskGraph(M->m, rp, dp, ep, ci, o.cost == 0 ? (CostFunction&)sn : c); FREE(rp); FREE(dp); if (ep) FREE(ep); FREE(ci); }
    return; }
  if (o.ext) { S.constructTaskGraph(M->m, M->rowptr, M->diagptr, M->extptr, M->colidx, c); return; }
  switch (o.api) { case 0: S.constructTaskGraph(*M); break; case 1: S.constructTaskGraph(*M, c); break; case 2: S.constructTaskGraph(M->m, M->rowptr, M->colidx, c); break;
    case 3: S.constructTaskGraph(M->m, M->rowptr, M->diagptr, M->colidx, c); break; default: S.constructTaskGraph(M->m, M->rowptr, M->diagptr, NULL, M->colidx, c); }
}
static std::string lists(int n, const short* np, int* const* p) {
  if (!np || !p || !sim::addressable(np, n * sizeof(short)) || !sim::addressable(p, n * sizeof(int*))) return n == 0 ? "[]" : "[[-1]]";
  std::string s = "["; for (int t = 0; t < n; ++t) { std::vector<int> v; if (np[t] < 0 || (np[t] > 0 && !sim::addressable(p[t], np[t] * sizeof(int)))) v.push_back(-1); else v.assign(p[t], p[t] + np[t]); s += (t ? "," : "") + jarr(v); } return s + "]";
}
static void dump(Obj& j, LevelSchedule& S, int m) {
  sim::Quiet q;
  j.i("ntasks", S.ntasks).arr("lev", S.levIndices).arr("o2t", S.origToThreadContPerm, m).arr("t2o", S.threadContToOrigPerm, m).arr("tb", S.taskBoundaries).arr("thb", S.threadBoundaries);
  j.raw("pf", lists(S.ntasks, S.nparentsForward, S.parentsForward)).raw("pb", lists(S.ntasks, S.nparentsBackward, S.parentsBackward));
  j.arr("fin", (const int*)S.taskFinished, S.ntasks);
  FusedGSAndSpMVSchedule* F = S.fusedSchedule; j.b("hasF", F != NULL);
  if (F) { j.raw("fu", lists(S.ntasks, F->nparents, F->parents)); std::vector<int> off; for (int t = 0; t < S.ntasks; ++t) off.push_back(F->parents && F->nparents ? (int)(F->parents[t] - F->parentsBuf) : -1); j.arr("fo", off); }
}
static void poolInit(const Opt& o) { if (o.mp) MemoryPool::getSingleton()->initialize(8 << 20); }
static void finish(const Opt& o) { if (o.mp) MemoryPool::getSingleton()->finalize(); synk::Barrier::deleteInstance(); }

static Mat schedMat(Rng& g, int kind, int n, bool ext, bool unsorted, bool once = false) {
  auto e = graphFamily(g, kind, n); Mat A = symPattern(e, n);
  if (!once && g.chance(0.15)) { // off-diagonal entries stored more than once, in both rows
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (A.has(i, j) && g.chance(0.4)) for (int q = 1 + g.below(2); q > 0; --q) { A.add(i, j, 1); A.add(j, i, 1); }
    A.sortRows(); }
  if (ext) { int nx = g.range(1, 4); for (auto& r : A.r) for (int k = 0; k < nx; ++k) if (g.chance(0.4)) r.push_back({n + k, 1}); A.n = n + nx; }
  if (unsorted) for (int i = 0; i < n; ++i) { auto& r = A.r[i]; std::vector<std::pair<int,int>> lo, hi, ex, d; for (auto& x : r) (x.first < i ? lo : x.first == i ? d : x.first < n ? hi : ex).push_back(x); g.shuffle(lo); g.shuffle(hi); r = lo; r.insert(r.end(), d.begin(), d.end()); r.insert(r.end(), hi.begin(), hi.end()); r.insert(r.end(), ex.begin(), ex.end()); }
  return A;
}
// a few rows with many neighbours among many with few
static Mat hubMat(Rng& g, int n, bool ext) { Mat B = bigMat(g, n, n, false, true); std::vector<std::pair<int,int>> e; for (int i = 0; i < n; ++i) for (auto& x : B.r[i]) e.push_back({i, x.first}); Mat A = symPattern(e, n); if (ext) { for (auto& r : A.r) if (g.chance(0.4)) r.push_back({n, 1}); A.n = n + 1; } return A; }
static Opt randOpt(Rng& g, int i) { Opt o; o.ub = g.chance(0.3); o.tr = g.chance(0.65); o.fu = g.chance(0.35); o.ag = g.chance(0.25); o.mp = g.chance(0.2); o.cost = g.below(4); o.api = g.below(5); o.thresh = (const int[]){1, 2, 4, 64}[g.below(4)]; o.base = g.below(2); o.ext = g.chance(0.15); if (o.ext) o.api = 4; return o; }
static int reps(int q, int t) { return (int)((D.thorough ? t : q) * D.scale); }
static const int TS[] = {1, 2, 3, 4, 5, 6, 8, 13};

static void addSched(std::vector<Case>& C, const std::string& id, const Mat& A, const Opt& o, int T, int ns, int builds) {
  C.push_back({id, [=] { Obj in; in.i("m", A.m).raw("rows", localRows(A)).raw("opt", jopt(o));
    explore("sched", in.done(), T, ns, [&] {
      spmpVerifLevelThresh = o.thresh; poolInit(o); Obj j;
      { CSR* M = build(A, o); std::vector<LevelSchedule*> other;
        for (int b = 1; b < builds; ++b) { LevelSchedule* X = new LevelSchedule; Opt p = o; p.tr = !o.tr; schedule(*X, M, p); if (b & 1) delete X; else other.push_back(X); }
        LevelSchedule* S = new LevelSchedule; schedule(*S, M, o); dump(j, *S, A.m); delete S; for (auto x : other) delete x; delete M; }
      finish(o); return j.done(); }, 0, (uint32_t)A.m * 31 + T); }});
}
static void addExec(std::vector<Case>& C, const std::string& id, const Mat& A, const Opt& o, int T, int ns, std::vector<int> sweeps) {
  C.push_back({id, [=] { Obj in; in.i("m", A.m).raw("rows", localRows(A)).raw("opt", jopt(o)).arr("sweeps", sweeps);
    explore("exec", in.done(), T, ns, [&] {
      spmpVerifLevelThresh = o.thresh; poolInit(o); Obj j; { sim::Quiet q; if (!sev) sev = new std::vector<int>(); sev->clear(); }
      { CSR* M = build(A, o); LevelSchedule* S = new LevelSchedule; schedule(*S, M, o); cliRunTasks(*S, sweeps.data(), (int)sweeps.size()); dump(j, *S, A.m); delete S; delete M; }
      { sim::Quiet q; j.arr("ev", *sev); } finish(o); return j.done(); }, 0, (uint32_t)A.m * 37 + T); }});
}
// A row of a task with tens of thousands of dependents: two ladders of single-row levels, each with a hub that every
// other row of the other ladder reads.  Only the order of sampled (row, row it needs) pairs is reported.
static void addHub(std::vector<Case>& C, const std::string& id, int L, int T, bool tr, int ns) {
  C.push_back({id, [=] { Mat A(2 * L, 2 * L); for (int i = 0; i < A.m; ++i) A.add(i, i, 1);
    auto edge = [&](int i, int j) { A.add(i, j, 1); A.add(j, i, 1); };
    for (int l = 1; l < L; ++l) { edge(2 * l, 2 * l - 2); edge(2 * l + 1, 2 * l - 1); if (l % 2 == 0 && l > 2) { edge(0, 2 * l + 1); edge(1, 2 * l); } }
    for (auto& r : A.r) std::sort(r.begin(), r.end());
    std::vector<int> row, dep; for (int l = 4; l < L; l += 2) if (l % 1021 < 2 || l > L - 4) { row.push_back(2 * l + 1); dep.push_back(0); row.push_back(2 * l); dep.push_back(1); row.push_back(2 * l); dep.push_back(2 * l - 2); }
    Opt o; o.ub = o.fu = o.ag = o.mp = o.ext = false; o.tr = tr; o.cost = o.api = o.base = 0; o.thresh = 64; std::vector<int> sweeps{0, 1};
    Obj in; in.i("m", A.m).raw("opt", jopt(o)).arr("sweeps", sweeps).arr("row", row).arr("dep", dep);
    sim::setBudget(4000000000ull, 60000000ull);
    explore("hub", in.done(), T, ns, [&] {
      spmpVerifLevelThresh = o.thresh; Obj j; { sim::Quiet q; if (!sev) sev = new std::vector<int>(); sev->clear(); }
      { CSR* M = build(A, o); LevelSchedule* S = new LevelSchedule; schedule(*S, M, o); cliRunTasks(*S, sweeps.data(), 2);
        { sim::Quiet q; int n = S->ntasks; std::vector<int> at[2][2], taskOf(A.m, -1), done(2, 0); for (auto& x : at) for (auto& y : x) y.assign(n, -1);
          for (size_t k = 0; k + 2 < sev->size(); k += 3) { at[(*sev)[k + 1]][(*sev)[k] - 1][(*sev)[k + 2]] = (int)(k / 3); if ((*sev)[k] == 2) ++done[(*sev)[k + 1]]; }
          for (int t = 0; t < n; ++t) for (int p = S->taskBoundaries[t]; p < S->taskBoundaries[t + 1]; ++p) taskOf[S->threadContToOrigPerm[p]] = t;
          std::vector<int> start, fin; for (int b = 0; b < 2; ++b) for (size_t k = 0; k < row.size(); ++k) { int u = taskOf[b ? dep[k] : row[k]], v = taskOf[b ? row[k] : dep[k]]; start.push_back(at[b][0][u]); fin.push_back(u == v ? -2 : at[b][1][v]); }
          j.i("ntasks", n).arr("done", done).arr("start", start).arr("fin", fin); }
        delete S; delete M; }
      synk::Barrier::deleteInstance(); return j.done(); }, 0, 1);
    sim::setBudget(50000000ull, 400000ull); }, 6});
}
static void genSched(std::vector<Case>& C) {
  Rng g(D.seed * 91 + 4);
  // every option combination on a few shapes
  int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int b = 0; b < 32; ++b) for (int v = 0; v < 2; ++v) { Opt o = randOpt(g, b); o.ub = b & 1; o.tr = b >> 1 & 1; o.fu = b >> 2 & 1; o.ag = b >> 3 & 1; o.mp = b >> 4 & 1; int n = g.range(6, 16); addSched(C, nm("o"), schedMat(g, v ? 6 : 4, n, o.ext, g.chance(0.3)), o, 2 + b % 4, D.thorough ? 20 : 3, 1 + (b + v) % 3); }
  for (int i = 0; i < reps(300, 4000); ++i) { Opt o = randOpt(g, i); int n = i % 29 == 0 ? 0 : g.chance(0.15) ? g.range(15, 36) : g.range(1, 14); addSched(C, nm("s"), schedMat(g, i, n, o.ext, g.chance(0.3)), o, pickT(g), D.thorough ? 16 : 4, i % 9 == 0 ? 3 : 1); }
  for (int i = 0; i < reps(30, 300); ++i) { Opt o = randOpt(g, i); o.thresh = (const int[]){1, 4, 64}[i % 3]; addSched(C, nm("b"), schedMat(g, i, g.range(40, 90), o.ext, g.chance(0.3)), o, pickT(g), D.thorough ? 8 : 3, i % 5 == 0 ? 2 : 1); }
  // wide levels: many rows hanging off few, and complete bipartite blocks whose rows one thread may release
  for (int i = 0; i < reps(10, 60); ++i) { Opt o = randOpt(g, i); o.thresh = (const int[]){1, 2, 64}[i % 3]; o.ext = false; int a = i % 3 == 2 ? g.range(64, 80) : g.range(4, 10), b = g.range(a, 2 * a + 20); Mat A; std::vector<std::pair<int,int>> e; for (int x = 0; x < a; ++x) for (int y = 0; y < b; ++y) if (a < 20 || g.chance(0.25)) e.push_back({x, a + y}); if (i & 1) for (int y = 0; y + 1 < b; y += 2) e.push_back({a + y, a + y + 1}); A = symPattern(e, a + b); addSched(C, nm("w"), A, o, TS[1 + g.below(6)], a < 20 ? (D.thorough ? 200 : 30) : (D.thorough ? 24 : 8), 1); }
  for (int i = 0; i < reps(2, 12); ++i) { Opt o = randOpt(g, i); o.thresh = 64; o.ext = false; int n = g.range(140, 300); addSched(C, nm("l"), schedMat(g, i % 2 ? 5 : 10, n, false, false), o, TS[2 + g.below(6)], 4, 1); }
  for (int i = 0; i < reps(2, 4); ++i) { Opt o = randOpt(g, i); o.thresh = 64; addSched(C, nm("Z"), hubMat(g, g.range(2100, 2600), o.ext), o, BIGT[i % 8], 1, 1); }
  for (int i = 0; i < reps(3, 16); ++i) { Opt o = randOpt(g, i); o.thresh = (const int[]){64, 4}[i & 1]; int n = g.range(100, 220); addSched(C, nm("L"), hubMat(g, n, o.ext), o, BIGT[i % 8], 3, 1); }
}
static Reg rS("SCHED", genSched);
static void genExec(std::vector<Case>& C) {
  Rng g(D.seed * 91 + 6); int id = 0; auto nm = [&](const char* p) { return std::string(p) + std::to_string(id++); };
  for (int i = 0; i < reps(120, 900); ++i) { Opt o = randOpt(g, i); int n = g.chance(0.15) ? g.range(13, 24) : g.range(1, 12); std::vector<int> sw; int k = g.range(1, 4); for (int q = 0; q < k; ++q) sw.push_back(g.below(2)); o.ub = g.chance(0.1); addExec(C, nm("e"), schedMat(g, i, n, o.ext, g.chance(0.3)), o, pickT(g), D.thorough ? 40 : 8, sw); }
  for (int i = 0; i < reps(12, 100); ++i) { Opt o = randOpt(g, i); o.ub = false; std::vector<int> sw{i & 1, g.below(2), g.below(2)}; addExec(C, nm("b"), schedMat(g, i, g.range(25, 60), o.ext, g.chance(0.3)), o, pickT(g), D.thorough ? 12 : 4, sw); }
  for (int i = 0; i < reps(2, 12); ++i) { Opt o = randOpt(g, i); o.ub = false; std::vector<int> sw{i & 1, 1}; addExec(C, nm("L"), hubMat(g, g.range(100, 180), o.ext), o, BIGT[i % 8], 3, sw); }
  if (D.scale > 0.6) for (int i = 0; i < (D.thorough ? 2 : 1); ++i) addHub(C, nm("H"), 65600, 2, i == 1, 1);
}
static Reg rE("EXEC", genExec);

// ---- P09 ----
static void addSolve(std::vector<Case>& C, const std::string& id, const Mat& A, const std::vector<int>& y0, const std::vector<int>& b0, const std::vector<int>& x0, const Opt& o, int T, int ns, const std::vector<int>& ops, int how, bool permuted, bool sortp) {
  C.push_back({id, [=] { Obj in; in.i("m", A.m).i("n", A.n).raw("A", jmat(A, 0)).arr("y", y0).arr("b", b0).arr("x", x0).arr("ops", ops).raw("opt", jopt(o)).i("how", how).b("perm", permuted).b("sort", sortp);
    explore("solve", in.done(), T, ns, [&] {
      spmpVerifLevelThresh = o.thresh; poolInit(o); Obj j; int m = A.m;
      { CSR* M = build(A, o); LevelSchedule* S = new LevelSchedule; schedule(*S, M, o);
        CSR *L = new CSR, *U = new CSR; splitLU(*M, L, U);
        const int *p = S->origToThreadContPerm, *ip = S->threadContToOrigPerm;
        CSR *MM = M, *LL = L, *UU = U; if (permuted) { MM = M->permute(p, ip, sortp); LL = L->permute(p, ip, sortp); UU = U->permute(p, ip, sortp); }
        int n = A.n; double *y = MALLOC(double, n), *b = MALLOC(double, m), *x = MALLOC(double, n);
        for (int i = 0; i < m; ++i) { int r = permuted ? ip[i] : i; y[i] = y0[r] * XU; b[i] = b0[r] * XU; x[i] = x0[r] * XU; } for (int i = m; i < n; ++i) { y[i] = y0[i] * XU; x[i] = x0[i] * XU; }
        for (int op : ops) cliSolve(op <= 1 ? *MM : op == 3 ? *UU : *LL, y, b, x, *S, op, how, permuted ? NULL : ip);
        { sim::Quiet q; std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = permuted && i < m ? p[i] : i; j.arr("o2t", v).arr("y", y, n, 1 / XU).arr("b", b, m, 1 / XU); }
        FREE(y); FREE(b); FREE(x); if (permuted) { delete MM; delete LL; delete UU; } delete L; delete U; delete S; delete M; }
      finish(o); return j.done(); }, 0, (uint32_t)A.m * 41 + T); }});
}
static bool refOk(const Mat& A, std::vector<double> y, std::vector<double> b, const std::vector<double>& x, const std::vector<int>& ops) { // keeps magnitudes small; not an oracle
  for (int op : ops) for (int q = 0; q < A.m; ++q) { int i = (op == 1 || op == 3) ? A.m - 1 - q : q; double s = b[i], s2 = 0, d = 1; for (auto& e : A.r[i]) { if (e.first == i) d = e.second; if (op <= 1 || (op == 3 ? e.first > i : e.first < i)) { s -= e.second * y[e.first]; s2 += e.second * x[e.first]; } if (std::fabs(s) > 3e7) return false; } y[i] = (op <= 1 ? y[i] : 0) + s * d; if (op == 4) b[i] = y[i] - s2; if (std::fabs(y[i]) > 3e7 || std::fabs(b[i]) > 3e7) return false; }
  return true;
}
static void oneSolve(std::vector<Case>& C, Rng& g, const std::string& id, int i, int n, int ns) {
    Opt o = randOpt(g, i); if (o.api == 4 && !o.ext) o.api = 0; o.ext = o.ext && i % 2; o.asym = g.chance(0.2);
    Mat A = schedMat(g, i, n, o.ext, !o.asym && g.chance(0.3), o.asym); int how = i % 4 == 3; o.ub = how ? true : g.chance(0.15); bool permuted = g.chance(0.7), sortp = g.chance(0.6); int w = A.n;
    if (o.asym) { double p = g.chance(0.5) ? 0.5 : 0.2; for (int r = 0; r < n; ++r) { std::vector<std::pair<int,int>> k; for (auto& e : A.r[r]) if (e.first == r || !g.chance(p)) k.push_back(e); A.r[r] = k; } }
    std::vector<int> ops; int k = g.range(1, 3); for (int q = 0; q < k; ++q) ops.push_back(g.below(5));
    std::vector<int> y(w), b(n), x(w); for (auto& v : y) v = g.range(-9, 9); for (auto& v : b) v = g.range(-9, 9); for (auto& v : x) v = g.range(-9, 9);
    double pz = 0.2; bool ok = false; for (int tries = 0; tries < 40 && !ok; ++tries, pz = std::min(0.95, pz + 0.04)) { for (int r = 0; r < n; ++r) for (auto& e : A.r[r]) e.second = e.first == r ? (g.chance(0.5) ? 1 : -1) : g.chance(pz) ? 0 : (g.chance(0.5) ? 1 : -1) * (g.chance(0.2) ? 2 : 1); ok = refOk(A, {y.begin(), y.end()}, {b.begin(), b.end()}, {x.begin(), x.end()}, ops); }
    if (ok) addSolve(C, id, A, y, b, x, o, pickT(g), ns, ops, how, permuted, sortp);
}
static void genP09(std::vector<Case>& C) {
  Rng g(D.seed * 91 + 9);
  for (int i = 0; i < reps(260, 2200); ++i) oneSolve(C, g, "g" + std::to_string(i), i, g.chance(0.2) ? g.range(15, 32) : g.range(1, 14), D.thorough ? 40 : 10);
  for (int i = 0; i < reps(24, 200); ++i) oneSolve(C, g, "b" + std::to_string(i), i, g.range(40, 150), D.thorough ? 12 : 4);
  for (int i = 0; i < reps(2, 6); ++i) oneSolve(C, g, "z" + std::to_string(i), (const int[]){15, 4, 7}[i % 3] + 16 * i, g.range(2100, 2600), 1);
}
static Reg r09("P09", genP09);
