// P01/P02 barriers, P03 reducing barriers: event histories of waits.
#include "drv.hpp"
#include "cli_barrier.hpp"
#include <array>
typedef std::array<long, 3> Ev;
static std::vector<Ev>* evs; static std::vector<void*>* objs; static uint32_t valSeed; static int foldKind;
void evLog(int kind, int t, long v) { if (kind == 1) sim::yieldPoint(); { sim::Quiet q; evs->push_back({(long)kind, (long)t, v > 2147483647L || v < -2147483647L ? 2147483647L : v}); } if (kind == 2 || kind == 3) sim::yieldPoint(); }
int objId(void* p) { sim::Quiet q; if (!p) return 0; for (size_t i = 0; i < objs->size(); ++i) if ((*objs)[i] == p) return (int)i + 1; objs->push_back(p); return (int)objs->size(); }
static int valOf(int t, int k) { Rng g(valSeed + t * 1009 + k * 100003); return foldKind == 0 || foldKind == 3 || foldKind == 4 ? g.range(1, 1000000) : g.range(-500, 500) * 1000 + t; }
static std::string take(const char* fold) {
  // entering commutes with entering and leaving with leaving: normal form of the interleaving
  sim::Quiet q; auto& e = *evs; size_t i = 0;
  auto cls = [](long k) { return k == 1 ? 1 : (k == 2 || k == 3) ? 2 : k == 4 ? 3 : 0; };
  while (i < e.size()) { size_t j = i; while (j < e.size() && cls(e[j][0]) && cls(e[j][0]) == cls(e[i][0])) ++j; if (j > i) std::stable_sort(e.begin() + i, e.begin() + j, [](const Ev& a, const Ev& b) { return a[1] < b[1]; }); else ++j; i = j; }
  std::string s = "["; for (size_t k = 0; k < e.size(); ++k) s += (k ? ",[" : "[") + std::to_string(e[k][0]) + "," + std::to_string(e[k][1]) + "," + std::to_string(e[k][2]) + "]";
  Obj o; o.str("fold", fold).raw("ev", s + "]"); return o.done();
}
static void fresh() { sim::Quiet q; if (!evs) { evs = new std::vector<Ev>(); objs = new std::vector<void*>(); } evs->clear(); objs->clear(); }
struct Shape { int c, p; };
static const Shape SH[] = {{2,1},{3,1},{4,1},{5,1},{1,2},{1,3},{2,2},{3,2},{2,3},{6,1},{7,1},{1,1},{1,4},{2,4},{4,2},{3,3},{8,1},{9,1},{5,2},{6,2},{3,4},{13,1},{5,3}};
static const int NSH = sizeof SH / sizeof SH[0];
// shapes beyond what small schedules need: more rounds, wide cores
static const Shape BIGSH[] = {{16,1},{17,1},{1,9},{1,16},{32,1},{11,3},{33,1},{12,4},{64,1},{1,33},{9,7},{2,17},{65,1},{31,2},{129,1},{1,130}};
static const int NBIG = sizeof BIGSH / sizeof BIGSH[0];
static const Shape LONGSH[] = {{2,1},{3,1},{1,2},{2,2},{5,1},{1,3}};
static std::string in(int c, int p, int E, int x) { Obj o; o.i("c", c).i("p", p).i("E", E).i("x", x); return o.done(); }
static int sc(int q, int t) { return std::max(1, (int)((D.thorough ? t : q) * D.scale)); }

static void genP01(std::vector<Case>& C) {
  for (int i = 0; i < NSH; ++i) { Shape s = SH[i]; int small = s.c * s.p <= 4; bool big = s.c * s.p > 8;
    // episodes beyond four revisit every parity/sense combination
    for (int v = 0; v < 4; ++v) { int E = (const int[]){5, 9, 3, 2}[v], R = (const int[]){1, 1, 2, 3}[v]; int T = s.c * s.p + (v == 2);
      C.push_back({"x" + std::to_string(s.c) + "." + std::to_string(s.p) + "." + std::to_string(v), [=] { explore("wait", in(s.c, s.p, E, R), T, sc(small ? 110 : big ? 20 : 50, small ? 2500 : 1000), [=] { fresh(); cliExplicit(s.c, s.p, E, R); return take("none"); }, 0, i * 131 + v); }}); }
    int T = s.c * s.p;
    for (int how = 0; how < 4; ++how) C.push_back({"l" + std::to_string(s.c) + "." + std::to_string(s.p) + "." + std::to_string(how), [=] { explore("lazy", in(s.c, s.p, 2, how), T, sc(small ? 40 : big ? 8 : 20, 600), [=] { fresh(); cliLazy(how, s.c, s.p, 2, how == 0 ? 3 : 2); return take("none"); }, 0, i * 17 + how); }});
    for (int how = 0; how < 4; ++how) C.push_back({"i" + std::to_string(s.c) + "." + std::to_string(s.p) + "." + std::to_string(how), [=] { explore("imba", in(s.c, s.p, 3, how), T, sc(small ? 12 : 4, 150), [=] { fresh(); cliLoadImba(how, s.c, s.p, 3, 2); return take("none"); }, 0, i * 19 + how); }});
  }
  for (int i = 0; i < NBIG; ++i) { Shape s = BIGSH[i]; int T = s.c * s.p, E = T > 40 ? 3 : 5; C.push_back({"w" + std::to_string(s.c) + "." + std::to_string(s.p), [=] { explore("wait", in(s.c, s.p, E, 1), T, sc(8, 60), [=] { fresh(); cliExplicit(s.c, s.p, E, 1); return take("none"); }, 0, i * 37); }});
    if (T < 40) C.push_back({"v" + std::to_string(s.c) + "." + std::to_string(s.p), [=] { explore("lazy", in(s.c, s.p, 2, i % 4), T, sc(4, 40), [=] { fresh(); cliLazy(i % 4, s.c, s.p, 2, 2); return take("none"); }, 0, i * 41); }}); }
  // counters that wrap
  for (int i = 0; i < 6; ++i) { Shape s = LONGSH[i]; int T = s.c * s.p, E = i < 3 ? 530 : 270; C.push_back({"e" + std::to_string(s.c) + "." + std::to_string(s.p), [=] { explore("wait", in(s.c, s.p, E, 1), T, sc(3, 12), [=] { fresh(); cliExplicit(s.c, s.p, E, 1); return take("none"); }, 0, i * 43); }}); }
}
static Reg r01("P01", genP01);
static void genP03(std::vector<Case>& C) {
  static const char* FN[] = {"sum", "max", "min", "sum", "sum", "max"};
  for (int i = 0; i < NBIG; ++i) { Shape s = BIGSH[i]; int T = s.c * s.p, E = T > 40 ? 3 : 5, kind = i % 6; C.push_back({"w" + std::to_string(s.c) + "." + std::to_string(s.p), [=] { explore("reduce", in(s.c, s.p, E, kind), T, sc(8, 60), [=] { fresh(); foldKind = kind; valSeed = D.seed * 11 + i; cliReduce(kind, s.c, s.p, E, 1, valOf); return take(FN[kind]); }, 0, i * 37); }}); }
  for (int i = 0; i < 6; ++i) { Shape s = LONGSH[i]; int T = s.c * s.p, E = i < 3 ? 530 : 270, kind = i % 2; C.push_back({"e" + std::to_string(s.c) + "." + std::to_string(s.p), [=] { explore("reduce", in(s.c, s.p, E, kind), T, sc(3, 12), [=] { fresh(); foldKind = kind; valSeed = D.seed * 13 + i; cliReduce(kind, s.c, s.p, E, 1, valOf); return take(FN[kind]); }, 0, i * 43); }}); }
  for (int i = 0; i < NSH; ++i) { Shape s = SH[i]; int T = s.c * s.p; bool small = T <= 4, big = T > 8;
    for (int kind = 0; kind < 6; ++kind) for (int v = 0; v < 2; ++v) { if (kind > 1 && v) continue; int E = v ? 3 : 6, R = v ? 2 : 1;
      C.push_back({"r" + std::to_string(s.c) + "." + std::to_string(s.p) + "." + std::to_string(kind) + std::to_string(v), [=] { explore("reduce", in(s.c, s.p, E, kind), T, sc(small ? 80 : big ? 20 : 40, small ? 1500 : 600), [=] { fresh(); foldKind = kind; valSeed = D.seed * 7 + i; cliReduce(kind, s.c, s.p, E, R, valOf); return take(FN[kind]); }, 0, i * 131 + v); }}); } }
}
static Reg r03("P03", genP03);
