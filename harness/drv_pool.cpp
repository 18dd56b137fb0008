// P26: histories of the memory pool, generated by TLC from MemPoolGen, replayed on the real pool.
#include "drv.hpp"
#include <fstream>
#include <cstring>
#include <cstdlib>
#include <sys/mman.h>
#include "MemoryPool.hpp"
using namespace SpMP;
struct PoolOp { std::string name; int a, b; };
// parses [align,[["name",a,b],...]]
static bool parse(const std::string& s, int& align, std::vector<PoolOp>& ops) {
  const char* p = s.c_str(); if (*p != '[') return false; align = atoi(p + 1);
  while ((p = strchr(p, '"'))) { const char* e = strchr(p + 1, '"'); if (!e) return false; PoolOp o; o.name.assign(p + 1, e); char* q; o.a = (int)strtol(e + 2, &q, 10); o.b = (int)strtol(q + 1, &q, 10); ops.push_back(o); p = q; }
  return !ops.empty();
}
static void addPool(std::vector<Case>& C, const std::string& id, int align, const std::vector<PoolOp>& ops, int U, int shrink, int how) {
  C.push_back({id, [=] {
    std::string t; for (auto& o : ops) t += (t.empty() ? "" : ",") + std::string("[\"") + o.name + "\"," + std::to_string(o.a) + "," + std::to_string(o.b) + "]";
    Obj in; in.i("align", align).raw("ops", "[" + t + "]").i("U", U).i("shrink", shrink).i("how", how);
    explore("pool", in.done(), 1, 1, [&] {
      MemoryPool* P = how == 1 ? MemoryPool::getSingleton() : new MemoryPool; char* base = NULL; long size = 0;
      struct Blk { unsigned char* p; long n; int tag; }; std::vector<Blk> blocks; std::string st; bool fresh = true;
      for (auto& o : ops) {
        long r = -1; sim::Quiet q;
        if (o.name == "init") { if (!fresh) P->finalize(); size = o.a; if (how == 2 && fresh) { delete P; P = new MemoryPool((size_t)size * U); } else P->initialize((size_t)size * U); fresh = false; base = (char*)P->allocate((size_t)0); blocks.clear(); }
        else if (o.name == "clear") P->deallocateAll();
        else if (o.name == "head") P->setHead((size_t)o.a * U);
        else if (o.name == "tail") P->setTail((size_t)o.a * U);
        else { size_t n = (size_t)o.a * U; if (n > (size_t)shrink) n -= shrink;
          void* x; bool f = o.name == "front";
          if (align * U == 64 && o.a % 2 == 0) x = f ? P->allocateFront<char>(n) : P->allocate<char>(n); else x = f ? P->allocateFront(n, align * U) : P->allocate(n, align * U);
          long d = (char*)x - base; r = d % U ? -999 : d / U;
          Blk b{(unsigned char*)x, (long)n, (int)(blocks.size() * 37 + 11) & 255};
          if (d >= 0 && d + (long)n <= size * U) memset(b.p, b.tag, n); else b.n = 0;
          blocks.push_back(b); }
        std::vector<int> good, in; int id = 0;
        for (auto& b : blocks) { bool ok = true; for (long i = 0; i < b.n; ++i) if (b.p[i] != b.tag) ok = false; ++id; if (ok) good.push_back(id); }
        for (long i = -1; i <= size; ++i) { bool a = P->contains(base + i * U), z = P->contains(base + i * U + U - 1); if (a && z) in.push_back((int)i); else if (a || z) in.push_back(-999); }
        if (P->contains(NULL)) in.push_back(-998);
        Obj e; e.i("r", r).i("h", P->getHead() % U ? -999 : (long)(P->getHead() / U)).i("t", P->getTail() % U ? -999 : (long)(P->getTail() / U)).arr("ok", good).arr("in", in);
        st += (st.empty() ? "" : ",") + e.done(); }
      P->finalize(); bool gone = P->contains(base); if (how != 1) delete P;
      Obj j; { sim::Quiet q; j.raw("s", "[" + st + "]").b("gone", !gone); } return j.done(); }); }});
}
static void genP26(std::vector<Case>& C) {
  const char* f = getenv("SIM_GEN"); if (!f) return; std::ifstream is(f); std::string l; int n = 0; Rng g(D.seed * 71 + 26);
  while (std::getline(is, l)) { int align; std::vector<PoolOp> ops; if (!parse(l, align, ops)) continue;
    static const int US[] = {64, 1, 8, 4096, 64, 24}; int U = US[n % 6]; addPool(C, "h" + std::to_string(n), align, ops, U, n % 3 == 0 && U > 1 ? g.below(U) : 0, n % 5 == 1 ? 1 : n % 5 == 2 ? 2 : 0); ++n; }
}
static Reg r26("P26", genP26);
