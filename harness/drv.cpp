#include "drv.hpp"
#include <sys/mman.h>
#include "CSR.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <ctime>

Drv D; double VU = 1, XU = 1;
static void setUnits(const std::string& mode, const std::string& id) { static const std::set<std::string> mats{"P14", "P15", "P17", "P21", "P22", "P23", "P24", "P25", "P29"}, vecs{"P09", "P16", "P22"};
  unsigned h = 5; for (char c : id) h = h * 31 + (unsigned char)c; const double K = 1.0 + 1.0 / (1 << 25); h ^= h >> 4; VU = mats.count(mode) && h % 2 ? K : 1; XU = vecs.count(mode) && h % 2 == 0 && h / 2 % 2 ? K : 1; }
static std::map<std::string, std::vector<GenFn>>& regs() { static std::map<std::string, std::vector<GenFn>> r; return r; }
Reg::Reg(const char* mode, GenFn f) { regs()[mode].push_back(f); }

std::string jarr(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
std::string jarr2(const std::vector<std::vector<int>>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += jarr(v[i]); } return s + "]"; }
template <class T> static long cap(const T* p, long n) { if (!p || n < 0) return 0; if (n > 4000000) n = 4000000; while (n > 0 && !sim::addressable(p + n - 1, sizeof(T))) --n; return n; }
Obj& Obj::arr(const char* k, const std::vector<int>& v) { key(k); s += jarr(v); return *this; }
Obj& Obj::arr(const char* k, const int* p, long n) { key(k); n = cap(p, n); s += "["; for (long i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(p[i]); } s += "]"; return *this; }
// scale 1/VU: exact multiples of the unit; a negative scale: inverses of them, which are rounded twice
static int numIn(double v, double sc) {
  if (sc < 0) { double x = v * -sc * VU, r = std::floor(x + 0.5); return std::fabs(x - r) <= 4e-16 * std::fabs(r) ? num(r) : BADNUM; }
  if (sc == 1 / VU && VU != 1) { double r = std::floor(v / VU + 0.5); return r * VU == v ? num(r) : BADNUM; }
  if (sc == 1 / XU && XU != 1) { double r = std::floor(v / XU + 0.5); return r * XU == v ? num(r) : BADNUM; }
  return num(v * sc); }
Obj& Obj::arr(const char* k, const double* p, long n, double sc) { key(k); n = cap(p, n); s += "["; for (long i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(numIn(p[i], sc)); } s += "]"; return *this; }

// ---------------------------------------------------------------- events
struct Shared { int caseIdx; int k; long execs; long steps; long switches; int inCase; long maxMs; };
static int* lateCases = nullptr; static Shared* shm = nullptr; static int outFd = -1;
static std::string cOp, cIn = "{}", cCase; static int cT, cK;
const std::string& curCase() { return cCase; }
void countExec() { if (shm) { shm->execs++; shm->steps += sim::stats().steps; shm->switches += sim::stats().switches; } }
void setCurrent(const std::string& op, const std::string& in, int T, int k) { cOp = op; cIn = in; cT = T; cK = k; if (shm) shm->k = k; }
void emitRaw(const std::string& line) { std::string l = line + "\n"; size_t o = 0; while (o < l.size()) { ssize_t w = write(outFd, l.data() + o, l.size() - o); if (w <= 0) _exit(98); o += w; } }
static std::string head(const char* st) { Obj o; o.str("case", cCase).str("op", cOp).i("T", cT).i("k", cK).str("st", st).raw("in", cIn); return o.s; }
void emitOk(const std::string& out, long lk) { emitRaw(head("ok") + ",\"lk\":" + std::to_string(lk) + ",\"out\":" + out + "}"); }
static void emitBad(const char* st, const char* detail) { Obj d; d.str("detail", detail); emitRaw(head(st) + ",\"out\":" + d.done() + "}"); }
static void onFatal(sim::Status s, const char* d) { emitBad(s == sim::HANG ? "hang" : s == sim::BADACCESS ? "badaccess" : "badfree", d); _exit(77); }
static void onSig(int sig) { char b[64]; snprintf(b, sizeof b, "signal %d", sig); 
  // best effort: the emitted text was prepared in memory already
  if (sig == SIGPROF) __sync_fetch_and_add(lateCases, 1);
  emitBad(sig == SIGALRM || sig == SIGPROF ? "hang" : "crash", b); _exit(77); }

void explore(const std::string& op, const std::string& in, int T, int nsched, const std::function<std::string()>& body, uint64_t lenHint, uint32_t salt) {
  std::set<std::string> seen;
  uint64_t len = lenHint ? lenHint : 500;
  int k0 = 0, k1 = nsched;
  if (D.onlySched >= 0) { k0 = 0; k1 = D.onlySched + 1; } // a replay first runs schedule 0, silently, for the length hint
  static const uint8_t fills[4] = {0xA5, 0x00, 0xFF, 0x01};
  for (int k = k0; k < k1; ++k) {
    if (D.onlySched > 0 && k > 0 && k < D.onlySched) continue;
    if (k == k0 + 1 && T == 1 && D.onlySched < 0 && nsched > 2) k1 = std::min(k1, 3); // one thread: schedules do not matter, only fills
    size_t mark = sim::arenaMark();
    setCurrent(op, in, T, k);
    sim::setFill(fills[k & 3]);
    sim::Sched s = sim::schedule((uint32_t)k + (k > 1 ? salt * 6u : 0u), len);
    std::string out; long live0 = sim::liveBlocks();
    // replays must see the same length hint: it is derived from the first (serial) run only
    sim::run(s, T, [&] { std::string o = body(); sim::Quiet q; out = o; });
    if (k == 0) { len = std::max<uint64_t>(50, sim::stats().steps); }
    countExec();
    { sim::Quiet q; long lk = sim::liveBlocks() - live0; std::string key = out + std::to_string(lk); if (D.onlySched >= 0 ? k == D.onlySched : seen.insert(key).second) emitOk(out, lk); } // lk: blocks still held after the client gave everything back
    std::string().swap(out);
    sim::arenaReset(mark);
  }
}

// ---------------------------------------------------------------- matrices
std::string jmat(const Mat& A, int base) {
  std::vector<int> rp, ci, va; rp.push_back(base);
  for (auto& r : A.r) { for (auto& e : r) { ci.push_back(e.first + base); va.push_back(e.second); } rp.push_back((int)ci.size() + base); }
  Obj o; o.i("m", A.m).i("n", A.n).arr("rp", rp).arr("ci", ci).arr("va", va); return o.done();
}
SpMP::CSR* makeCSR(const Mat& A, int base, bool values, bool diagptr, bool diagdata) {
  sim::Quiet* q = nullptr; (void)q;
  int nnz = A.nnz();
  SpMP::CSR* M = new SpMP::CSR(A.m, A.n, nnz);
  int p = 0;
  for (int i = 0; i < A.m; ++i) {
    M->rowptr[i] = p + base; M->diagptr[i] = 0;
    if (M->diag) M->diag[i] = 0; if (M->idiag) M->idiag[i] = 0;
    for (auto& e : A.r[i]) { M->colidx[p] = e.first + base; M->values[p] = e.second * VU;
      if (e.first == i) { M->diagptr[i] = p + base; if (M->diag) M->diag[i] = e.second * VU; if (M->idiag) M->idiag[i] = e.second ? 1.0 / (e.second * VU) : 0; }
      ++p; }
  }
  M->rowptr[A.m] = p + base;
  if (!values) { FREE(M->values); M->values = NULL; }
  if (!diagptr) { FREE(M->diagptr); M->diagptr = NULL; }
  if (!diagdata) { FREE(M->diag); M->diag = NULL; FREE(M->idiag); M->idiag = NULL; }
  return M;
}
std::string jcsr(const SpMP::CSR& A) {
  sim::Quiet q;
  Obj o; o.i("m", A.m).i("n", A.n);
  long m = A.m; if (m < 0 || m > 1000000) m = 0;
  o.arr("rp", A.rowptr, m + 1);
  long nnz = 0; if (A.rowptr && sim::addressable(A.rowptr, (m + 1) * 4)) nnz = (long)A.rowptr[m] - A.rowptr[0];
  o.arr("ci", A.colidx, nnz); o.b("hasVa", A.values != NULL).arr("va", A.values, nnz, 1 / VU);
  o.b("hasDp", A.diagptr != NULL).arr("dp", A.diagptr, m).b("hasEp", A.extptr != NULL).arr("ep", A.extptr, m);
  o.b("hasDg", A.diag != NULL).arr("dg", A.diag, m, 1 / VU).b("hasId", A.idiag != NULL).arr("id", A.idiag, m, VU == 1 ? 1024.0 : -1024.0);
  return o.done();
}
static int someVal(Rng& g, int vmax) { int v = g.range(1, vmax); return g.chance(0.5) ? v : -v; }
Mat randMat(Rng& g, int m, int n, double p, bool shuf, bool fullDiag, int vmax) {
  Mat A(m, n);
  for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) if ((fullDiag && i == j) || g.chance(p)) A.add(i, j, i == j ? (1 << g.below(5)) * (g.chance(0.5) ? 1 : -1) : someVal(g, vmax)); if (shuf) g.shuffle(A.r[i]); }
  return A;
}
Mat bigMat(Rng& g, int m, int n, bool shuf, bool fullDiag) {
  if (m > 1500) return hugeMat(g, m, n, shuf, fullDiag);
  Mat A(m, n); std::vector<char> lr(m, 0), lc(n, 0); for (int k = 0; k < 2; ++k) { lr[g.below(m)] = 1; lc[g.below(n)] = 1; }
  for (int i = 0; i < m; ++i) { std::set<int> c; if (fullDiag) c.insert(i); int k = g.below(5); while (k-- > 0) c.insert(g.chance(0.5) ? g.below(n) : std::min(n - 1, std::max(0, (int)((long)i * n / m) + g.range(-6, 6))));
    for (int j = 0; j < n; ++j) if ((lr[i] || lc[j]) && g.chance(0.7)) c.insert(j);
    for (int j : c) A.add(i, j, fullDiag && i == j ? (1 << g.below(5)) * (g.chance(0.5) ? 1 : -1) : someVal(g, 9));
    if (shuf) g.shuffle(A.r[i]); }
  return A;
}
Mat hugeMat(Rng& g, int m, int n, bool shuf, bool fullDiag, double dense) {
  Mat A(m, n); int lr = g.below(m), lc = g.below(n);
  for (int i = 0; i < m; ++i) { std::set<int> c; if (fullDiag) c.insert(i); int k = g.below(4); while (k-- > 0) c.insert(g.chance(0.3) ? g.below(n) : std::min(n - 1, std::max(0, (int)((long)i * n / m) + g.range(-6, 6))));
    if (g.chance(dense)) c.insert(lc); if (i == lr) for (int j = 0; j < n; ++j) if (g.chance(dense)) c.insert(j);
    for (int j : c) A.add(i, j, fullDiag && i == j ? (1 << g.below(5)) * (g.chance(0.5) ? 1 : -1) : someVal(g, 9));
    if (shuf) g.shuffle(A.r[i]); }
  return A;
}
Mat symPattern(const std::vector<std::pair<int,int>>& edges, int n, Rng* vals) {
  Mat A(n, n); std::set<std::pair<int,int>> s;
  for (int i = 0; i < n; ++i) s.insert({i, i});
  for (auto& e : edges) if (e.first != e.second) { s.insert({e.first, e.second}); s.insert({e.second, e.first}); }
  for (auto& e : s) A.add(e.first, e.second, e.first == e.second ? 1 : (vals ? someVal(*vals, 1) : 1));
  return A;
}
std::vector<int> randPerm(Rng& g, int n) { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; g.shuffle(p); return p; }
std::vector<std::pair<int,int>> graphFamily(Rng& g, int kind, int& n) {
  std::vector<std::pair<int,int>> e; auto relabel = [&] { auto p = randPerm(g, n); for (auto& x : e) { x.first = p[x.first]; x.second = p[x.second]; } };
  switch (kind % NGRAPHKINDS) {
  case 0: for (int i = 0; i + 1 < n; ++i) e.push_back({i, i + 1}); break;                     // path in order
  case 1: for (int i = 0; i + 1 < n; ++i) e.push_back({i, i + 1}); relabel(); break;          // path, shuffled
  case 2: for (int i = 1; i < n; ++i) e.push_back({0, i}); relabel(); break;                  // star
  case 3: for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e.push_back({i, j}); break; // complete
  case 4: { int w = std::max(1, (int)std::sqrt((double)n)); for (int i = 0; i < n; ++i) { if ((i + 1) % w && i + 1 < n) e.push_back({i, i + 1}); if (i + w < n) e.push_back({i, i + w}); } break; } // grid
  case 5: { double p = 1.5 / std::max(1, n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g.chance(p)) e.push_back({i, j}); break; } // sparse random, many components
  case 6: { double p = 3.0 / std::max(1, n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g.chance(p)) e.push_back({i, j}); break; }
  case 7: for (int i = 1; i < n; ++i) e.push_back({g.below(i), i}); relabel(); break;         // random tree
  case 8: { int b = 1 + g.below(3); for (int i = 0; i < n; ++i) for (int j = i + 1; j <= i + b && j < n; ++j) if (g.chance(0.8)) e.push_back({i, j}); break; } // banded
  case 9: { int c = 2 + g.below(3); for (int i = 0; i + c < n; ++i) e.push_back({i, i + c}); break; } // interleaved paths
  case 10: break;                                                                             // isolated nodes only
  case 11: { int h = n / 2; for (int i = 0; i < h; ++i) for (int j = h; j < n; ++j) if (g.chance(0.5)) e.push_back({i, j}); break; } // bipartite (two levels)
  case 12: { int k = std::max(1, n / 3); for (int i = 0; i + 1 < n; ++i) if ((i + 1) % k) e.push_back({i, i + 1}); relabel(); break; } // three paths
  case 13: { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g.chance(0.4)) e.push_back({i, j}); break; } // dense random
  case 14: { int i = 0; while (i < n) { int s = g.chance(0.4) ? 1 : g.chance(0.5) ? 2 : g.range(3, 6); s = std::min(s, n - i); for (int a = i; a < i + s; ++a) for (int b = a + 1; b < i + s; ++b) if (b == a + 1 || g.chance(0.3)) e.push_back({a, b}); i += s; } relabel(); break; } // singletons, pairs and small components
  case 15: { int hub = std::min(n, 3); for (int i = hub; i < n; ++i) for (int h = 0; h < hub; ++h) if (h == i % hub || g.chance(0.3)) e.push_back({h, i}); for (int i = hub; i + 1 < n; i += 2) if (g.chance(0.4)) e.push_back({i, i + 1}); relabel(); break; } // few hubs, equal degrees
  }
  return e;
}

// ---------------------------------------------------------------- main
int main(int argc, char** argv) {
  std::string outDir = ".", mode; int jobs = 8;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
    if (a == "--out") outDir = val(); else if (a == "--mode") mode = val(); else if (a == "--tier") D.tier = val(); else if (a == "--seed") D.seed = (uint32_t)atol(val().c_str());
    else if (a == "--case") D.only = val(); else if (a == "--sched") D.onlySched = atoi(val().c_str()); else if (a == "--jobs") jobs = atoi(val().c_str()); else if (a == "--scale") D.scale = atof(val().c_str()); }
  D.mode = mode; D.thorough = D.tier == "thorough";
  if (!regs().count(mode)) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 2; }
  std::vector<Case> cases; for (auto f : regs()[mode]) f(cases);
  if (!D.only.empty()) { std::vector<Case> c; for (auto& x : cases) if (x.id == D.only) c.push_back(x); cases = c; jobs = 1; }
  int N = (int)cases.size(); jobs = std::max(1, std::min(jobs, N));
  Shared* all = (Shared*)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  int* nextCase = (int*)mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  lateCases = nextCase + 64; std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) {
    pid_t p = fork();
    if (p == 0) {
      shm = &all[w];
      std::string f = outDir + "/" + mode + "." + std::to_string(w) + ".ndjson";
      outFd = open(f.c_str(), O_WRONLY|O_CREAT|O_TRUNC|O_APPEND, 0644);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SIM_STDERR")) dup2(dn, 2);
      int lostInARow = 0;
      while (true) {
        pid_t c = fork();
        if (c == 0) {
          static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
          struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; 
          for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
          struct rlimit rl = {6ull << 30, 6ull << 30}; (void)rl;
          sim::setFatal(onFatal);
          while (true) {
            int i = __sync_fetch_and_add(nextCase, 1); if (i >= N) _exit(0);
            shm->caseIdx = i; shm->inCase = 1; cCase = cases[i].id; setUnits(D.mode, cCase); setCurrent("?", "{}", 0, 0);
            size_t mark = sim::arenaMark(); (void)mark;
            // limits on processor time, so that a loaded machine is no reason to give up on a case; once several
            // cases ran into it, later ones get less
            int secs = *lateCases > 4 ? 3 : (D.thorough ? 120 : 12) * cases[i].cpu;
            struct itimerval tv = {{0, 0}, {secs, 0}}, off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); alarm(800);
            struct timespec c0, c1; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c0);
            cases[i].run(); alarm(0); setitimer(ITIMER_PROF, &off, nullptr); shm->inCase = 0;
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &c1); long ms = (c1.tv_sec - c0.tv_sec) * 1000 + (c1.tv_nsec - c0.tv_nsec) / 1000000; if (ms > shm->maxMs) shm->maxMs = ms;
          }
        }
        int st = 0; waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { lostInARow = 0; continue; } // reported by the child
        Obj o; o.str("case", shm->inCase ? cases[shm->caseIdx].id : "?").str("op", "?").i("T", 0).i("k", shm->k).str("st", "crash").raw("in", "{}").raw("out", "{\"detail\":\"child died\"}");
        emitRaw(o.done());
        if (++lostInARow > 50) break;
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for (auto p : pids) { int st; waitpid(p, &st, 0); }
  long mx = 0; for (int w = 0; w < jobs; ++w) mx = std::max(mx, all[w].maxMs); long ex = 0, stp = 0, sw = 0; for (int w = 0; w < jobs; ++w) { ex += all[w].execs; stp += all[w].steps; sw += all[w].switches; }
  printf("{\"cases\":%d,\"execs\":%ld,\"steps\":%ld,\"switches\":%ld,\"max_ms\":%ld}\n", N, ex, stp, sw, mx);
  return 0;
}
