// Client code of level schedules: the loops a user writes around a schedule.
#include <omp.h>
#include <xmmintrin.h>
#include <vector>
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
#include "cli_sched.hpp"
using namespace SpMP; using std::vector;
static void clearFlags(LevelSchedule& S, int tid, int nth) {
  int per = (S.ntasks + nth - 1) / nth, b = per * tid < S.ntasks ? per * tid : S.ntasks, e = b + per < S.ntasks ? b + per : S.ntasks;
  for (int i = b; i < e; ++i) S.taskFinished[i] = 0;
  synk::Barrier::getInstance()->wait(tid);
}
void cliRunTasks(LevelSchedule& S, const int* sweeps, int nsweeps) {
  for (int s = 0; s < nsweeps; ++s) {
#pragma omp parallel
    { int tid = omp_get_thread_num();
      clearFlags(S, tid, omp_get_num_threads());
      volatile int* taskFinished = S.taskFinished;
      const vector<int>& thb = S.threadBoundaries;
      const short* nparents = sweeps[s] ? S.nparentsBackward : S.nparentsForward;
      int** parents = sweeps[s] ? S.parentsBackward : S.parentsForward;
      int n = thb[tid + 1] - thb[tid];
      for (int k = 0; k < n; ++k) {
        int task = sweeps[s] ? thb[tid + 1] - 1 - k : thb[tid] + k;
        SPMP_LEVEL_SCHEDULE_WAIT;
        schedLog(1, s, task);
        schedLog(2, s, task);
        SPMP_LEVEL_SCHEDULE_NOTIFY;
      } }
  }
}
void cliSolve(CSR& A, double* y, double* b, const double* x, LevelSchedule& S, int op, int how, const int* perm) {
  bool back = op == 1 || op == 3; int base = A.getBase();
  const int *rowptr = A.rowptr - base, *colidx = A.colidx - base; const double *values = A.values - base, *idiag = A.idiag - base;
  y -= base; b -= base; if (x) x -= base;
#pragma omp parallel
  { int tid = omp_get_thread_num();
    volatile int* taskFinished = S.taskFinished;
    const vector<int>&thb = S.threadBoundaries, &tb = S.taskBoundaries;
    const short* nparents = back ? S.nparentsBackward : S.nparentsForward;
    int** parents = back ? S.parentsBackward : S.parentsForward;
    if (how == 0) clearFlags(S, tid, omp_get_num_threads());
    int n = thb[tid + 1] - thb[tid];
    for (int k = 0; k < n; ++k) {
      int task = back ? thb[tid + 1] - 1 - k : thb[tid] + k;
      if (how == 0) { SPMP_LEVEL_SCHEDULE_WAIT; }
      int cnt = tb[task + 1] - tb[task];
      for (int q = 0; q < cnt; ++q) {
        int i = back ? tb[task + 1] - 1 - q : tb[task] + q;
        int row = (perm ? perm[i] : i) + base;
        double sum = b[row], sum2 = 0;
        for (int j = rowptr[row]; j < rowptr[row + 1]; ++j) { sum -= values[j] * y[colidx[j]]; if (op == 4) sum2 += values[j] * x[colidx[j]]; }
        if (op <= 1) y[row] += sum * idiag[row]; else y[row] = sum * idiag[row];
        if (op == 4) b[row] = y[row] - sum2;
      }
      if (how == 0) { SPMP_LEVEL_SCHEDULE_NOTIFY; } else synk::Barrier::getInstance()->wait(tid);
    } }
}
