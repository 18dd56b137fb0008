// Common driver infrastructure: case enumeration, isolation in child processes,
// JSON event emission, test matrices.
#pragma once
#include "sim.hpp"
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <set>
#include <cmath>
#include <algorithm>

struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { if (!s) s = 1; for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> void shuffle(std::vector<T>& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]); } };

// ---- JSON text helpers (integers, strings, arrays) ----
const int BADNUM = 2147483647;
// What 1 in the inputs stands for: values of matrices and of vectors are whole multiples of a number that needs more digits
// than a float has, so that a value that is not carried in full is seen.
extern double VU, XU;
inline int num(double v) { return (v == std::floor(v) && std::fabs(v) < 2e9) ? (int)v : BADNUM; }
struct Obj { std::string s = "{"; bool first = true;
  void key(const char* k) { if (!first) s += ","; first = false; s += "\""; s += k; s += "\":"; }
  Obj& i(const char* k, long v) { key(k); s += std::to_string(v); return *this; }
  Obj& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  Obj& str(const char* k, const std::string& v) { key(k); s += "\""; for (char c : v) { if (c == '"' || c == '\\') s += '\\'; if ((unsigned char)c < 32) { s += ' '; continue; } s += c; } s += "\""; return *this; }
  Obj& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  Obj& arr(const char* k, const std::vector<int>& v);
  Obj& arr(const char* k, const int* p, long n);          // capped by the block the pointer lies in
  Obj& arr(const char* k, const double* p, long n, double scale = 1.0);
  std::string done() { return s + "}"; } };
std::string jarr(const std::vector<int>& v);
std::string jarr2(const std::vector<std::vector<int>>& v);

struct Drv {
  std::string mode, tier; uint32_t seed = 1; bool thorough = false;
  std::string only;            // run only this case
  int onlySched = -1;
  double scale = 1.0;
};
extern Drv D;

struct Case { std::string id; std::function<void()> run; int cpu; Case(std::string i, std::function<void()> r, int c = 1) : id(i), run(r), cpu(c) {} };  // cpu: multiple of the usual limit
typedef void (*GenFn)(std::vector<Case>&);
struct Reg { Reg(const char* mode, GenFn f); };

// Event emission.  `in` is the JSON object text of the inputs, `out` the observed result.
void setCurrent(const std::string& op, const std::string& in, int T, int k);
void emitOk(const std::string& out);
void emitRaw(const std::string& line);
const std::string& curCase();
void countExec();

// Runs body under nsched schedules for team size T; body returns the observed output (JSON
// object text).  Every distinct output is emitted once, with the schedule that first produced it.
void explore(const std::string& op, const std::string& in, int T, int nsched,
             const std::function<std::string()>& body, uint64_t lenHint = 0, uint32_t schedSalt = 0);

// ---- matrices ----
namespace SpMP { class CSR; }
struct Mat { int m = 0, n = 0; std::vector<std::vector<std::pair<int,int>>> r; // 0-based columns, integer values
  Mat() {} Mat(int m, int n) : m(m), n(n), r(m) {}
  int nnz() const { int s = 0; for (auto& x : r) s += (int)x.size(); return s; }
  void sortRows() { for (auto& x : r) std::sort(x.begin(), x.end()); }
  bool has(int i, int j) const { for (auto& e : r[i]) if (e.first == j) return true; return false; }
  void add(int i, int j, int v) { r[i].push_back({j, v}); } };
std::string jmat(const Mat& A, int base);                 // same shape as jcsr
SpMP::CSR* makeCSR(const Mat& A, int base, bool values = true, bool diagptr = true, bool diagdata = true); // new CSR owning its arrays
std::string jcsr(const SpMP::CSR& A);                     // raw arrays of a library matrix

Mat randMat(Rng& g, int m, int n, double p, bool shuffleRows, bool fullDiag, int vmax = 9);
Mat symPattern(const std::vector<std::pair<int,int>>& edges, int n, Rng* vals = nullptr); // + full diagonal
std::vector<std::pair<int,int>> graphFamily(Rng& g, int kind, int& n); // named families of graphs
const int NGRAPHKINDS = 16;
// a few entries per row, some rows with many, some columns in many rows
Mat bigMat(Rng& g, int m, int n, bool shuffleRows, bool fullDiag);
// the same with thousands of rows
Mat hugeMat(Rng& g, int m, int n, bool shuffleRows, bool fullDiag, double dense = 0.6);
const int BIGT[] = {4, 16, 40, 64, 9, 2, 32, 6};
std::vector<int> randPerm(Rng& g, int n);
// team sizes: mostly small, now and then more threads than work
inline int pickT(Rng& g, int top = 8) { static const int small[] = {1, 2, 3, 4, 5, 6, 7, 8, 13}, big[] = {16, 17, 24, 31, 32}; return g.chance(0.12) ? big[g.below(5)] : small[g.below(top < 9 ? top + 1 : 9)]; }
