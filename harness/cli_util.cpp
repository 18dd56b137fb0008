#include <omp.h>
#include "Utils.hpp"
#include "cli_util.hpp"
using namespace SpMP;
void cliPartition(int n, const int* work, int mode, std::vector<std::vector<int>>& rec) {
#pragma omp parallel
  { int b = -7, e = -7, tid = omp_get_thread_num();
    if (mode == 0) getSimpleThreadPartition(&b, &e, n); else getLoadBalancedPartition(&b, &e, work, n);
    rec[tid][0] = b; rec[tid][1] = e; }
}
// input[round][tid][w]; results likewise; sums[round][tid][w] as each thread sees them afterwards
void cliPrefix(const int* input, int rounds, int width, int* sums, int* results, int sameSum) {
  int T = omp_get_max_threads();
  int* ws = new int[width * (T + 1)]; int* sum = new int[width * (sameSum ? 1 : rounds)];
#pragma omp parallel
  { int tid = omp_get_thread_num(); int* v = new int[width];
    for (int r = 0; r < rounds; ++r) {
      int at = (r * T + tid) * width; int* s = sameSum ? sum : sum + r * width;
      for (int i = 0; i < width; ++i) v[i] = input[at + i];
      if (width == 1) prefixSum(v, s, ws); else prefixSumMultiple(v, s, width, ws);
      for (int i = 0; i < width; ++i) results[at + i] = v[i];
      if (!sameSum || r == rounds - 1) for (int i = 0; i < width; ++i) sums[at + i] = s[i];
    }
    delete[] v; }
  delete[] ws; delete[] sum;
}
void cliMem(int op, int nested, void* dst, const void* src, int c, long n) {
  if (!nested) { if (op == 0) parMemset(dst, c, n); else if (op == 1) parMemcpy(dst, src, n); else if (op == 2) copyVector((int*)dst, (const int*)src, n / 4); else copyVector((double*)dst, (const double*)src, n / 8); return; }
#pragma omp parallel
  { if (op == 0) parMemset(dst, c, n); else parMemcpy(dst, src, n);
#pragma omp barrier
  }
}
