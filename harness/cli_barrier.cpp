// Client code of the barriers, compiled with the same instrumentation as the library.
#include <omp.h>
#include <vector>
#include "synk/barrier.hpp"
#include "synk/loadimba.hpp"
#include "synk/reduce.hpp"
#include "cli_barrier.hpp"
using namespace synk;

void cliWaits(Barrier* b, int n, int E, bool init) {
#pragma omp parallel
  { int t = omp_get_thread_num();
    if (t < n) { if (init) b->init(t); for (int k = 0; k < E; ++k) { evLog(1, t, 0); b->wait(t); evLog(2, t, 0); } } }
}
void cliExplicit(int c, int p, int E, int regions) {
  Barrier* b = new Barrier(c, p);
  for (int r = 0; r < regions; ++r) { evLog(0, 0, c * p); cliWaits(b, c * p, E, r == 0); }
  evLog(6, 0, 0); delete b;
}
void cliLazy(int how, int c, int p, int E, int rounds) {
  for (int r = 0; r < rounds; ++r) {
    int T = omp_get_max_threads();
    evLog(0, 0, T);
    if (how == 1) evLog(4, 0, objId(Barrier::getInstance()));
    if (how == 2) { Barrier::initializeInstance(c, p); evLog(4, 0, objId(Barrier::getInstance())); }
#pragma omp parallel
    { int t = omp_get_thread_num();
      if (how == 3) Barrier::initializeInstance(c, p);
      Barrier* b = Barrier::getInstance(); evLog(4, t, objId(b));
      for (int k = 0; k < E; ++k) { evLog(1, t, 0); (k & 1 ? Barrier::getInstance() : b)->wait(t); evLog(2, t, 0); }
      evLog(4, t, objId(Barrier::getInstance())); }
    evLog(6, 0, 0);
    if (r % 2 == 0 || r == rounds - 1) { Barrier::deleteInstance(); evLog(5, 0, 0); }
  }
}
static int addI(int a, int b) { return a + b; } static int maxI(int a, int b) { return a > b ? a : b; } static int minI(int a, int b) { return a < b ? a : b; }
static double addD(double a, double b) { return a + b; } static long maxL(long a, long b) { return a > b ? a : b; }
static unsigned long addU(unsigned long a, unsigned long b) { return a + b; }
template <class T> static void reduceRun(int c, int p, int E, int regions, T zero, T (*f)(T, T), int (*valOf)(int, int), T unit = 1) {
  ReduceBarrier<T>* b = new ReduceBarrier<T>(c, p);
  for (int r = 0; r < regions; ++r) {
    evLog(0, 0, c * p);
#pragma omp parallel
    { int t = omp_get_thread_num();
      if (t < c * p) { if (r == 0) b->init(t); for (int k = 0; k < E; ++k) { int v = valOf(t, r * E + k); evLog(1, t, v); T x = b->wait(t, zero, (T)v * unit, f); T q = x / unit; evLog(3, t, q * unit == x ? (long)q : 2147483646L); } } }
  }
  evLog(6, 0, 0); delete b;
}
void cliReduce(int kind, int c, int p, int E, int regions, int (*valOf)(int, int)) {
  if (kind == 0) reduceRun<int>(c, p, E, regions, 0, addI, valOf);
  else if (kind == 1) reduceRun<int>(c, p, E, regions, -2000000000, maxI, valOf);
  else if (kind == 2) reduceRun<int>(c, p, E, regions, 2000000000, minI, valOf);
  else if (kind == 3) reduceRun<unsigned long>(c, p, E, regions, 0, addU, valOf, (1ul << 33) + 12345);
  else if (kind == 4) reduceRun<double>(c, p, E, regions, 0, addD, valOf, 0.125);
  else reduceRun<long>(c, p, E, regions, -9000000000000000000l, maxL, valOf, (1l << 34) + 777);
}
// The load-imbalance barrier is a barrier too; it counts how often each thread waited.
static bool imbaClear(LoadImba* b, int t) { auto* r = b->limba[t]; return r->min[0] == ~0ull && !r->max[0] && !r->tot[0] && !r->cnt[0] && !r->bar[0]; }
void cliLoadImba(int how, int c, int p, int E, int rounds) {
  for (int r = 0; r < rounds; ++r) {
    int T = omp_get_max_threads();
    evLog(0, 0, T);
    if (how == 1) LoadImba::getInstance();
    if (how == 2) LoadImba::initializeInstance(c, p);
#pragma omp parallel
    { int t = omp_get_thread_num();
      if (how == 3) LoadImba::initializeInstance(c, p);
      LoadImba* b = LoadImba::getInstance(); evLog(4, t, objId(b)); evLog(7, t, imbaClear(b, t));
      for (int k = 0; k < E; ++k) { evLog(1, t, 0); b->wait(t); evLog(2, t, 0); } }
    evLog(6, 0, 0);
    LoadImba* b = LoadImba::getInstance(); for (int t = 0; t < T; ++t) evLog(7, t, (long)b->limba[t]->cnt[0] == E && b->limba[t]->min[0] <= b->limba[t]->max[0] && b->limba[t]->tot[0] >= b->limba[t]->max[0]);
    b->reset(); for (int t = 0; t < T; ++t) evLog(7, t, imbaClear(b, t));
    LoadImba::deleteInstance(); evLog(5, 0, 0);
  }
}
