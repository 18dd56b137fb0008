#pragma once
namespace SpMP { class CSR; class LevelSchedule; }
void schedLog(int kind, int sweep, int task);   // 1 start, 2 finish
// runs the schedule's tasks point to point, sweeps[s] != 0 meaning backward
void cliRunTasks(SpMP::LevelSchedule& S, const int* sweeps, int nsweeps);
// one numerical sweep.  op: 0 GS forward, 1 GS backward, 2 lower solve, 3 upper solve, 4 fused lower solve with product
// how: 0 point to point, 1 barrier;  perm: NULL for a matrix already permuted, else threadContToOrigPerm
void cliSolve(SpMP::CSR& A, double* y, double* b, const double* x, SpMP::LevelSchedule& S, int op, int how, const int* perm);
