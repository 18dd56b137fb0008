// Histories of public matrix operations.  Each step records the operation, its arguments, and the
// raw arrays of every live matrix after it, so that the specification can check the operation's
// effect and that nothing else changed.
#pragma once
#include "drv.hpp"
#include "CSR.hpp"
#include <map>
#include <memory>
struct Hist {
  std::map<std::string, SpMP::CSR*> h;
  std::string steps = "["; bool first = true;
  void step(const std::string& op, const std::string& args) {
    sim::Quiet q;
    Obj o; o.str("op", op); o.raw("a", args);
    Obj obs; for (auto& x : h) obs.raw(x.first.c_str(), jcsr(*x.second));
    o.raw("obs", obs.done());
    if (!first) steps += ","; first = false; steps += o.done();
  }
  long live0; int T0 = 0;
  // arrays of the client that matrices are built over: never released by the library, given back here
  std::vector<void*> lent;
  template <class X> X* lend(const X* from, long n) { if (!from) return NULL; X* p = (X*)malloc(sizeof(X) * (n > 0 ? n : 1)); for (long i = 0; i < n; ++i) p[i] = from[i]; sim::Quiet q; lent.push_back(p); return p; }
  Hist() { sim::Quiet q; steps.reserve(1 << 20); live0 = sim::liveBlocks(); }
  // destroys every matrix left and records how many memory blocks remain
  std::string end() { while (!h.empty()) { SpMP::CSR* x = h.begin()->second; h.erase(h.begin()); delete x; } for (void* p : lent) free(p); { sim::Quiet q; lent.clear(); Obj a; a.i("leak", sim::liveBlocks() - live0); std::string s = a.done(); a.s.clear(); step("end", s); } return done(); }
  std::string done() { sim::Quiet q; Obj o; o.raw("steps", steps + "]"); return o.done(); }
};
inline int* dupPerm(const std::vector<int>& p) { int* r = (int*)malloc(sizeof(int) * (p.size() ? p.size() : 1)); for (size_t i = 0; i < p.size(); ++i) r[i] = p[i]; return r; }
inline std::vector<int> invOf(const std::vector<int>& p) { std::vector<int> q(p.size()); for (size_t i = 0; i < p.size(); ++i) q[p[i]] = (int)i; return q; }
