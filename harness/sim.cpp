#include "sim.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <deque>
#include <algorithm>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>

// ------------------------------------------------------------------ arena
namespace {
const size_t ARENA = (size_t)3 << 30;
char* const ARENA_BASE = (char*)0x600000000000ull;
char* arena = nullptr; uint8_t* shadow = nullptr; // shadow: 0 unaddressable, 1 live, 3 freed
size_t bump = 0, hiwater = 0;
uint8_t fillByte = 0xA5;
struct Blk { size_t size; bool live, counted; };
std::map<size_t, Blk>* blocks = nullptr;   // user offset -> block (allocated with real malloc: see below)
long nlive = 0;
int quiet = 0;
bool useArena = false;   // on only between sim start-up and exit
int inRt = 0;            // runtime internals: allocate from libc

void arenaInit() {
  if (arena) return;
  arena = (char*)mmap(ARENA_BASE, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { perror("arena"); _exit(98); }
  shadow = (uint8_t*)mmap(nullptr, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) { perror("shadow"); _exit(98); }
}
inline bool inArena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA && arena; }
}

extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); void* __real_memmove(void*, const void*, size_t);
}

namespace sim { static Fatal fatalFn = nullptr; static Status fatalStatus; 
static void fatal(Status s, const char* d) { inRt++; if (fatalFn) fatalFn(s, d); fprintf(stderr, "sim: fatal %d %s\n", s, d); _exit(97); }
void setFatal(Fatal f) { fatalFn = f; } }

static void simFence();
static void* arenaAlloc(size_t n, size_t align) {
  inRt++;
  if (align < 16) align = 16;
  size_t off = bump + 64;                       // redzone before
  off = (off + align - 1) / align * align;
  if (off + n + 64 > ARENA) { inRt--; sim::fatal(sim::BADACCESS, "arena exhausted"); }
  bump = off + n + 32; if (bump > hiwater) hiwater = bump;
  __real_memset(shadow + off, 1, n);
  if (n <= (1u << 22)) __real_memset(arena + off, fillByte, n);
  bool cnt = !quiet; (*blocks)[off] = Blk{n, true, cnt}; nlive += cnt;
  inRt--;
  return arena + off;
}
static void arenaFree(void* p) {
  inRt++;
  auto it = blocks->find((char*)p - arena);
  if (it == blocks->end() || !it->second.live) { inRt--; char b[96]; snprintf(b, sizeof b, "%s", it == blocks->end() ? "free of a pointer that is not a block" : "double free"); sim::fatal(sim::BADFREE, b); }
  it->second.live = false; nlive -= it->second.counted;
  size_t n = it->second.size;
  __real_memset(shadow + it->first, 3, n);
  if (n <= (1u << 22)) __real_memset(p, 0xDD, n);
  inRt--;
}
static inline void checkRange(const void* a, size_t n, int w, void* pc) {
  if (!inArena(a) || n == 0) return;
  size_t o = (const char*)a - arena;
  for (size_t k = 0; k < n; k += (n > 64 ? n - 1 : 1)) {
    if (shadow[o + k] != 1) {
      char b[160]; snprintf(b, sizeof b, "%s of %zu bytes %s pc=%p", w ? "write" : "read", n, shadow[o+k] == 3 ? "in freed memory" : "outside any block", pc);
      sim::fatal(sim::BADACCESS, b);
    }
  }
}

extern "C" {
void* __wrap_malloc(size_t n) { return (useArena && !inRt) ? arenaAlloc(n, 16) : __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (!inRt) simFence(); if (inArena(p)) arenaFree(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (useArena && !inRt) { void* p = arenaAlloc(a*b, 16); __real_memset(p, 0, a*b); return p; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) {
  if (inArena(p)) { void* q = arenaAlloc(n, 16); size_t o = (*blocks)[(char*)p - arena].size; __real_memcpy(q, p, std::min(o, n)); arenaFree(p); return q; }
  if (!p) return __wrap_malloc(n);
  return __real_realloc(p, n);
}
int __wrap_posix_memalign(void** p, size_t al, size_t n) { if (useArena && !inRt) { *p = arenaAlloc(n, al); return 0; } return __real_posix_memalign(p, al, n); }
}
void* operator new(size_t n) { void* p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ------------------------------------------------------------------ coroutines
extern "C" void sim_switch(void** from_sp, void* to_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace {
enum TState { RUN, BLOCKED, DONE };
struct WS { long next, end, incr, chunk; bool up; bool inited; unsigned long long unext, uend, uincr, uchunk; int done; };
struct Thr {
  void* sp; char* stk; size_t stkSize; int tid; TState st; int nest;
  uint64_t prio; uint64_t recent[8]; int rpos; int rep; bool spinning; uint64_t burst;
  long wsIdx; long singleIdx; uint64_t sinceSwitch; void* waitLock;
  std::deque<struct Pend>* buf;   // store buffer: stores of this thread other threads don't see yet, oldest first
};
struct Pend { char* a; uint8_t n; char was[16], val[16]; };
struct Team {
  int n; void (*fn)(void*); void* data; std::vector<Thr> th; int alive; int atBarrier; uint64_t barGen;
  std::map<long, WS> ws; std::map<long, bool> single; void* copyPtr;
};
Team* team = nullptr; Thr* cur = nullptr; void* schedSp = nullptr;
bool active = false; int maxThreads = 1; int ompT = 1;
sim::Sched S; sim::Stats st; uint64_t rng; uint64_t lastProgress; 
uint64_t budgetTotal = 50000000ull, budgetStall = 400000ull;
std::vector<uint64_t> changePts; uint64_t lowPrio; uint64_t stepNo = 0;
int starveVictim = -1; uint64_t starveFrom = 0;
size_t nextForced = 0; int serialRot = 0;
const size_t STK = 512 * 1024;
std::vector<char*>* freeStacks = nullptr;

inline uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
inline double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

// x86 store buffers (total store order).  While a thread runs, memory holds its own view; when it is switched out
// its buffered stores are taken back, and drained later, in order, at moments the scheduler chooses.
inline void bufPush(Thr* t, void* a, size_t n) {
  inRt++; if (!t->buf) t->buf = new std::deque<Pend>(); if (t->buf->size() >= S.tso) t->buf->pop_front();
  Pend p; p.a = (char*)a; p.n = (uint8_t)n; __real_memcpy(p.was, a, n); t->buf->push_back(p); inRt--; st.buffered++;
}
inline void bufFlush(Thr* t) { if (t && t->buf && !t->buf->empty()) { inRt++; t->buf->clear(); inRt--; lastProgress = stepNo; } }
inline void bufOut(Thr* t) { if (t->buf) for (size_t i = t->buf->size(); i-- > 0;) { Pend& p = (*t->buf)[i]; __real_memcpy(p.val, p.a, p.n); __real_memcpy(p.a, p.was, p.n); } }
inline void bufIn(Thr* t) { if (t->buf) for (auto& p : *t->buf) { __real_memcpy(p.was, p.a, p.n); __real_memcpy(p.a, p.val, p.n); } }
bool bufDrain(Thr* t, size_t k) {
  if (!t->buf || t->buf->empty() || !k) return false;
  inRt++; for (; k && !t->buf->empty(); --k) { Pend& p = t->buf->front(); __real_memcpy(p.a, p.val, p.n); t->buf->pop_front(); } inRt--;
  lastProgress = stepNo; return true;
}
void toSched() { if (S.tso) bufOut(cur); sim_switch(&cur->sp, schedSp); if (S.tso) bufIn(cur); }
void wakeSpinners();

void coEntry() {
  Thr* me = cur;
  team->fn(team->data);
  bufFlush(me);
  me->st = DONE; team->alive--; lastProgress = stepNo;
  // a finished thread may release a barrier only in erroneous programs; ignore
  toSched();
  abort();
}

int pick() {
  Team& t = *team; int n = t.n;
  int ready[256]; int k = 0, nspin = 0;
  for (int i = 0; i < n; ++i) if (t.th[i].st == RUN) { ready[k++] = i; if (t.th[i].spinning) nspin++; }
  if (k == 0) return -1;
  // prefer non-spinning threads
  if (nspin < k) { int q = 0; for (int i = 0; i < k; ++i) if (!t.th[ready[i]].spinning) ready[q++] = ready[i]; k = q; }
  else { // everyone spins: clear flags so that they look again
    if (S.tso) { bool any = false; for (auto& x : t.th) any |= bufDrain(&x, 1000); if (any) lastProgress = stepNo; }
    for (int i = 0; i < k; ++i) { t.th[ready[i]].spinning = false; t.th[ready[i]].rep = 0; }
    return ready[rnd() % k];
  }
  switch (S.kind) {
  case sim::SERIAL: case sim::SYSTEMATIC: case sim::LOCKSTEP: {
    for (int d = 0; d < n; ++d) { int c = (serialRot + d) % n; for (int i = 0; i < k; ++i) if (ready[i] == c) return c; }
    return ready[0]; }
  case sim::PCT: {
    int b = ready[0]; for (int i = 1; i < k; ++i) if (t.th[ready[i]].prio > t.th[b].prio) b = ready[i]; return b; }
  case sim::STARVE: {
    if (k > 1 && stepNo >= starveFrom) { int q = 0; for (int i = 0; i < k; ++i) if (ready[i] != starveVictim % n) ready[q++] = ready[i]; if (q) k = q; }
    return ready[rnd() % k]; }
  default: return ready[rnd() % k];
  }
}

void schedule() {
  while (team->alive > 0) {
    int i = pick();
    if (S.tso) { bool all = i < 0 || team->th[i].spinning || rnd() % 64 == 0, any = false; for (auto& x : team->th) if (x.buf && !x.buf->empty()) { size_t k = all ? 1000 : rnd() % 3 ? 0 : 1 + rnd() % x.buf->size(); any |= bufDrain(&x, k); } if (any) wakeSpinners(); }
    if (i < 0) { sim::fatal(sim::HANG, "all threads blocked"); }
    Thr* t = &team->th[i];
    if (cur != t) st.switches++;
    cur = t; t->sinceSwitch = 0;
    if (S.kind == sim::BURST || S.kind == sim::STARVE) { t->burst = 1 + (uint64_t)(rnd() % (1ull << (1 + rnd() % 10))); }
    sim_switch(&schedSp, t->sp);
  }
}

void wakeSpinners() { for (auto& x : team->th) { x.spinning = false; x.rep = 0; } }
inline bool ownStack(const void* a) { return cur && (char*)a >= cur->stk && (char*)a < cur->stk + cur->stkSize; }

// called before every instrumented access by simulated code
inline void access(const void* a, size_t n, int w, void* pc) {
  if (!active || quiet) return;
  checkRange(a, n, w, pc);
  if (!cur) { if (++stepNo > budgetTotal) sim::fatal(sim::HANG, "step budget exhausted in serial code"); return; }
  if (ownStack(a)) return;
  stepNo++; st.steps++;
  Thr* t = cur;
  if (w == 1 || w == 2) {
    lastProgress = stepNo; t->rep = 0; t->spinning = false;
    for (int i = 0; i < team->n; ++i) if (team->th[i].spinning) { team->th[i].spinning = false; team->th[i].rep = 0; }
  } else {
    uint64_t h = (uint64_t)(uintptr_t)a * 0x9E3779B97F4A7C15ull ^ (uint64_t)(uintptr_t)pc;
    bool seen = false; for (int i = 0; i < 8; ++i) if (t->recent[i] == h) { seen = true; break; }
    t->recent[t->rpos++ & 7] = h;
    t->rep = seen ? t->rep + 1 : 0;
  }
  if (team->n > 1 && stepNo - lastProgress > budgetStall) sim::fatal(sim::HANG, "no write and no completion for too long: every thread waits");
  if (stepNo > budgetTotal) sim::fatal(sim::HANG, "step budget exhausted");
  if (team->n == 1) return;
  t->sinceSwitch++;
  bool sw = false;
  if (t->rep > 24) { t->spinning = true; t->rep = 0; sw = true; if (S.kind == sim::SERIAL || S.kind == sim::SYSTEMATIC) serialRot = (t->tid + 1) % team->n; if (S.kind == sim::PCT) t->prio = lowPrio--; }
  else if (t->sinceSwitch > 200000) { sw = true; if (S.kind == sim::PCT) t->prio = lowPrio--; serialRot = (t->tid + 1) % team->n; }
  else switch (S.kind) {
    case sim::RANDOM: sw = rnd01() < S.p; break;
    case sim::BURST: case sim::STARVE: sw = t->sinceSwitch >= t->burst; break;
    case sim::LOCKSTEP: sw = t->sinceSwitch >= (uint64_t)S.depth; if (sw) serialRot = (t->tid + 1) % team->n; break;
    case sim::PCT:
      for (auto& c : changePts) if (c == stepNo) { t->prio = lowPrio--; sw = true; }
      break;
    case sim::SYSTEMATIC:
      if (nextForced < S.forced.size() && S.forced[nextForced].first <= stepNo) { serialRot = S.forced[nextForced].second % team->n; nextForced++; sw = true; }
      break;
    default: break;
  }
  if (sw) toSched();
  if (S.tso && w == 1) { if (n <= 16) bufPush(t, (void*)a, n); else bufFlush(t); }
  else if (S.tso && w) bufFlush(t);
}

void runTeam(int n, void (*fn)(void*), void* data) {
  inRt++;
  Team t; t.n = n; t.fn = fn; t.data = data; t.alive = n; t.atBarrier = 0; t.barGen = 0; t.copyPtr = nullptr;
  t.th.resize(n);
  if (!freeStacks) freeStacks = new std::vector<char*>();
  for (int i = 0; i < n; ++i) {
    Thr& x = t.th[i]; memset((void*)&x, 0, sizeof x);
    if (freeStacks->empty()) {
      char* m = (char*)mmap(nullptr, STK + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
      if (m == MAP_FAILED) _exit(98);
      mprotect(m, 4096, PROT_NONE);
      freeStacks->push_back(m + 4096);
    }
    x.stk = freeStacks->back(); freeStacks->pop_back(); x.stkSize = STK;
    x.tid = i; x.st = RUN; x.prio = (1ull << 40) + (rnd() & 0xffffff);
    uintptr_t top = ((uintptr_t)x.stk + STK) & ~(uintptr_t)15;
    void** s = (void**)top; *--s = nullptr; *--s = (void*)coEntry;  // ret address; rsp%16==8 at entry
    for (int k = 0; k < 6; ++k) *--s = nullptr;
    x.sp = s;
  }
  st.regions++; if ((uint64_t)n > st.maxTeam) st.maxTeam = n;
  inRt--;
  Team* saved = team; Thr* savedCur = cur;
  team = &t; cur = nullptr; lastProgress = stepNo;
  if (n > 1 && S.kind != sim::SYSTEMATIC) serialRot = S.kind == sim::SERIAL ? S.seed % n : 0;
  ::schedule();
  team = saved; cur = savedCur;
  inRt++;
  for (auto& x : t.th) { freeStacks->push_back(x.stk); delete x.buf; }
  t.th.clear(); t.th.shrink_to_fit(); t.ws.clear(); t.single.clear();
  inRt--;
}
inline bool inTeam() { return active && team && cur && cur->nest == 0; }
}
static void simFence() { if (active && cur && S.tso) bufFlush(cur); }

namespace sim {
Sched schedule(uint32_t k, uint64_t len) {
  Sched s; s.seed = k * 2654435761u + 12345; s.len = len;
  if (k == 0) { s.kind = SERIAL; s.seed = 0; return s; }
  if (k == 1) { s.kind = SERIAL; s.seed = 1; return s; }
  switch (k % 6) {
    case 0: s.kind = RANDOM; s.p = 0.5; break;
    case 1: s.kind = RANDOM; s.p = 0.05; break;
    case 2: s.kind = PCT; s.depth = 2 + (k / 6) % 3; break;
    case 3: s.kind = BURST; break;
    case 4: s.kind = STARVE; break;
    case 5: s.kind = PCT; s.depth = 1; s.len = len / 4 + 1; break;
  }
  if (k % 29 == 7) { s.kind = SERIAL; }
  else if (k % 13 == 5) { s.kind = LOCKSTEP; s.depth = 1 + (k / 13) % 3; }
  static const int cap[] = {1, 2, 5, 40}; if (k % 5 == 3 || k % 5 == 1) s.tso = cap[k / 5 % 4];
  return s;
}
const Stats& stats() { return st; }
void setBudget(uint64_t a, uint64_t b) { budgetTotal = a; budgetStall = b; }
int tid() { return cur ? cur->tid : 0; }
uint64_t step() { return stepNo; }
void yieldPoint() { if (active && cur && team->n > 1 && !quiet) { stepNo++; if (rnd() & 1) toSched(); } }
Quiet::Quiet() { quiet++; inRt++; }
Quiet::~Quiet() { quiet--; inRt--; }

void run(const Sched& s, int T, const std::function<void()>& body) {
  arenaInit();
  inRt++;
  if (!blocks) blocks = new std::map<size_t, Blk>();
  S = s; rng = ((uint64_t)s.seed << 20) ^ 0x9E3779B97F4A7C15ull ^ ((uint64_t)s.kind << 50); if (!rng) rng = 1; for (int i = 0; i < 4; ++i) rnd();
  changePts.clear(); for (int i = 0; i < s.depth; ++i) changePts.push_back(1 + rnd() % (s.len ? s.len : 1));
  lowPrio = 1ull << 30; stepNo = 0; lastProgress = 0; nextForced = 0; serialRot = 0;
  starveVictim = rnd() % (T > 0 ? T : 1); starveFrom = rnd() % (s.len / 2 + 1);
  st = Stats(); maxThreads = T; ompT = T; team = nullptr; cur = nullptr; quiet = 0;
  inRt--;
  active = true; useArena = true;
  body();
  active = false; useArena = false;
}
size_t arenaMark() { arenaInit(); return bump; }
void arenaReset(size_t m) {
  if (!blocks) return;
  inRt++;
  if (bump > m) {
    for (auto it = blocks->lower_bound(m); it != blocks->end();) { if (it->second.live) nlive -= it->second.counted; it = blocks->erase(it); }
    if (bump - m > (64u << 20)) { size_t a = (m + 4095) / 4096 * 4096, b = bump / 4096 * 4096; __real_memset(shadow + m, 0, a - m); if (b > a) { madvise(shadow + a, b - a, MADV_DONTNEED); madvise(arena + a, b - a, MADV_DONTNEED);} __real_memset(shadow + b, 0, bump - b); }
    else __real_memset(shadow + m, 0, bump - m);
    bump = m;
  }
  inRt--;
}
void setFill(uint8_t b) { fillByte = b; }
size_t blockSize(const void* p) { if (!inArena(p)) return (size_t)-1; auto it = blocks->find((char*)p - arena); return it == blocks->end() || !it->second.live ? (size_t)-1 : it->second.size; }
long liveBlocks() { return nlive; }
bool addressable(const void* p, size_t n) { if (!inArena(p)) return true; size_t o = (char*)p - arena; for (size_t k = 0; k < n; ++k) if (shadow[o+k] != 1) return false; return true; }
}

// ------------------------------------------------------------------ tsan interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { access(a, 8, 1, PC); } void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
#define RW(n) void __tsan_read##n(void* a) { access(a, n, 0, PC); } void __tsan_write##n(void* a) { access(a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, 1, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, 0, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, 1, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, 0, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, 1, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, 0, PC); access(a, n, 1, PC); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, 0, PC); access(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, 0, PC); } void __tsan_write_range(void* a, size_t n) { access(a, n, 1, PC); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active && !quiet && !inRt) { access(s, n, 0, PC); access(d, n, 1, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active && !quiet && !inRt) { access(s, n, 0, PC); access(d, n, 1, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active && !quiet && !inRt) access(d, n, 1, PC); return __real_memset(d, c, n); }

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { access((void*)a, sizeof(T), 0, PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { access((void*)a, sizeof(T), 2, PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), *a == *c ? 2 : 3, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), *a == *c ? 2 : 3, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, sizeof(T), *a == c ? 2 : 3, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { simFence(); } void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ OpenMP runtime
int omp_get_max_threads() { return ompT; }
int omp_get_num_threads() { return inTeam() ? team->n : 1; }
int omp_get_thread_num() { return inTeam() ? cur->tid : 0; }
int omp_in_parallel() { return (active && team && team->n > 1) ? 1 : 0; }
void omp_set_num_threads(int n) { ompT = n; }
int omp_get_num_procs() { return maxThreads; }
int omp_get_level() { return (team ? 1 : 0) + (cur ? cur->nest : 0); }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {}
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_schedule(int, int) {} 
double omp_get_wtime() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
double omp_get_wtick() { return 1e-9; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  if (!active) { fn(data); return; }
  if (team) { cur->nest++; fn(data); cur->nest--; return; }
  int n = nt ? (int)nt : ompT; if (n < 1) n = 1; if (n > 250) n = 250;
  runTeam(n, fn, data);
}
void GOMP_barrier() {
  if (!inTeam() || team->n == 1) return;
  Team* t = team; Thr* me = cur;
  access((void*)&ompT, 4, 0, PC); simFence();
  t->atBarrier++; lastProgress = stepNo;
  for (auto& x : t->th) { x.spinning = false; x.rep = 0; }
  if (t->atBarrier == t->n) { t->atBarrier = 0; t->barGen++; for (auto& x : t->th) if (x.st == BLOCKED && !x.waitLock) x.st = RUN; }
  else { me->st = BLOCKED; toSched(); }
}
bool GOMP_single_start() {
  if (!inTeam()) return true;
  access((void*)&ompT, 4, 0, PC); simFence();
  long k = cur->singleIdx++; inRt++; bool first = !team->single[k]; team->single[k] = true; inRt--; return first;
}
void* GOMP_single_copy_start() {
  if (!inTeam()) return nullptr;
  if (GOMP_single_start()) return nullptr;
  GOMP_barrier(); return team->copyPtr;
}
void GOMP_single_copy_end(void* p) { if (!inTeam()) return; team->copyPtr = p; GOMP_barrier(); }

struct Lk { int held; };
static void lockIt(Lk* l) {
  if (!inTeam()) { l->held = 1; return; }
  access((void*)&ompT, 4, 0, PC); simFence();
  while (l->held) { cur->st = BLOCKED; cur->waitLock = l; toSched(); }
  l->held = 1; lastProgress = stepNo;
}
static void unlockIt(Lk* l) { simFence(); l->held = 0; if (!inTeam()) return; lastProgress = stepNo; for (auto& x : team->th) if (x.st == BLOCKED && x.waitLock == l) { x.st = RUN; x.waitLock = nullptr; } }
static Lk gCrit, gAtomic, gOrd; 
static std::map<void**, Lk>& named() { static std::map<void**, Lk> m; return m; }
void GOMP_critical_start() { lockIt(&gCrit); } void GOMP_critical_end() { unlockIt(&gCrit); }
void GOMP_critical_name_start(void** p) { inRt++; Lk* l = &named()[p]; inRt--; lockIt(l); } void GOMP_critical_name_end(void** p) { inRt++; Lk* l = &named()[p]; inRt--; unlockIt(l); }
void GOMP_atomic_start() { lockIt(&gAtomic); } void GOMP_atomic_end() { unlockIt(&gAtomic); }
void omp_init_lock(void* p) { ((Lk*)p)->held = 0; } void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { lockIt((Lk*)p); } void omp_unset_lock(void* p) { unlockIt((Lk*)p); }
int omp_test_lock(void* p) { if (((Lk*)p)->held) return 0; ((Lk*)p)->held = 1; return 1; }

// work sharing with dynamic assignment: chunks are handed out in scheduler order
static WS& ws() { inRt++; WS& w = team->ws[cur->wsIdx]; inRt--; return w; }
static bool wsNext(WS& w, long* a, long* b) {
  access((void*)&ompT, 4, 0, PC); access((void*)&ompT, 4, 0, PC); simFence();
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
  long c = w.chunk * w.incr; *a = w.next; *b = w.next + c;
  if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end;
  w.next = *b; lastProgress = stepNo; return true;
}
static bool loopStart(long s, long e, long inc, long chunk, long* a, long* b) {
  if (!inTeam()) { if (inc > 0 ? s >= e : s <= e) return false; *a = s; *b = e; return true; }
  WS& w = ws(); if (!w.inited) { w.inited = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk < 1 ? 1 : chunk; }
  return wsNext(w, a, b);
}
static bool loopNext(long* a, long* b) { if (!inTeam()) return false; return wsNext(ws(), a, b); }
#define LOOP(k) bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } bool GOMP_loop_##k##_next(long* a, long* b) { return loopNext(a, b); } \
  void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl);
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } bool GOMP_loop_runtime_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } bool GOMP_loop_nonmonotonic_runtime_next(long* a, long* b) { return loopNext(a, b); }
void GOMP_loop_end() { if (inTeam()) { cur->wsIdx++; GOMP_barrier(); } }
void GOMP_loop_end_nowait() { if (inTeam()) cur->wsIdx++; }
static void parLoop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl);
}
// combined parallel loops: pre-initialise the first work share of the team
namespace { struct PL { void (*fn)(void*); void* d; long s, e, i, c; }; void plEntry(void* p) { PL* x = (PL*)p; if (inTeam()) { WS& w = ws(); if (!w.inited) { w.inited = true; w.next = x->s; w.end = x->e; w.incr = x->i; w.chunk = x->c < 1 ? 1 : x->c; } } x->fn(x->d); } }
extern "C" {
static void parLoop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) {
  if (!active || team) { fprintf(stderr, "sim: nested combined loop unsupported\n"); _exit(98); }
  PL p{fn, d, s, e, i, c}; GOMP_parallel(plEntry, &p, nt, fl);
}
#define PLOOP(k) void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned fl) { parLoop(fn, d, nt, s, e, i, c, fl); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { parLoop(fn, d, nt, s, e, i, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned fl) { parLoop(fn, d, nt, s, e, i, 1, fl); }
// unsigned long long loops
static bool ullNext(WS& w, unsigned long long* a, unsigned long long* b) { access((void*)&ompT, 4, 0, PC); if (w.unext >= w.uend) return false; *a = w.unext; *b = std::min(w.uend, w.unext + w.uchunk * w.uincr); w.unext = *b; lastProgress = stepNo; return true; }
static bool ullStart(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) {
  if (!up) { fprintf(stderr, "sim: downward ull loop unsupported\n"); _exit(98); }
  if (!inTeam()) { if (s >= e) return false; *a = s; *b = e; return true; }
  WS& w = ws(); if (!w.inited) { w.inited = true; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c < 1 ? 1 : c; } return ullNext(w, a, b);
}
#define ULOOP(k) bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return ullStart(up, s, e, i, c, a, b); } bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { if (!inTeam()) return false; return ullNext(ws(), a, b); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
// sections
static unsigned secNext() { WS& w = ws(); access((void*)&ompT, 4, 0, PC); if (w.next > w.end) return 0; return (unsigned)w.next++; }
unsigned GOMP_sections_start(unsigned n) { if (!inTeam()) return n ? 1 : 0; WS& w = ws(); if (!w.inited) { w.inited = true; w.next = 1; w.end = n; } return secNext(); }
static long soloSec = 1;
unsigned GOMP_sections_next() { if (!inTeam()) { fprintf(stderr, "sim: serial sections unsupported\n"); _exit(98);} return secNext(); }
void GOMP_sections_end() { GOMP_loop_end(); } void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned fl) { parLoop(fn, d, nt, 1, (long)n, 1, 1, fl); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpyfn) { char* buf = (char*)alloca(sz + al); char* p = (char*)(((uintptr_t)buf + al - 1) / al * al); cpyfn(p, data); fn(p); } else fn(data);
}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; } bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
void GOMP_ordered_start() { fprintf(stderr, "sim: ordered unsupported\n"); _exit(98); } void GOMP_ordered_end() {}
int sched_yield(void) { if (active && cur && !quiet && team->n > 1) toSched(); return 0; }
}
