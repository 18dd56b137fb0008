#pragma once
#include <vector>
// Client code that calls the helpers from inside (and outside) parallel regions.
// rec[tid] receives what thread tid observed.
void cliPartition(int n, const int* work, int mode, std::vector<std::vector<int>>& rec);
void cliPrefix(const int* input, int rounds, int width, int* sums, int* results, int sameSum);
void cliMem(int op, int nested, void* dst, const void* src, int c, long n);
