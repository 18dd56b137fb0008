// Deterministic simulation of OpenMP programs compiled with -fopenmp -fsanitize=thread.
// The instrumented code is linked against this runtime instead of libtsan and libgomp:
// threads are coroutines, every instrumented shared access is a possible switch point,
// and a seeded scheduler decides who runs.  Also an arena allocator with redzones.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <vector>
#include <utility>

namespace sim {

enum Kind { SERIAL = 0, RANDOM = 1, PCT = 2, BURST = 3, SYSTEMATIC = 4, STARVE = 5, LOCKSTEP = 6 };

struct Sched {
  int kind = SERIAL;
  uint32_t seed = 1;
  int depth = 2;            // PCT: number of priority change points
  uint64_t len = 2000;      // PCT: assumed number of steps
  double p = 0.1;           // RANDOM: switch probability per access
  unsigned tso = 0;         // stores a thread may hold back in its store buffer; 0: sequential consistency
  std::vector<std::pair<uint64_t,int>> forced; // SYSTEMATIC: (step, thread) preemptions
};

// k-th schedule of a fixed, diverse family.
Sched schedule(uint32_t k, uint64_t lenHint = 2000);

enum Status { OK = 0, HANG = 1, BADACCESS = 2, BADFREE = 3 };

struct Stats { uint64_t steps = 0, switches = 0, regions = 0, maxTeam = 0, buffered = 0; };

// Runs body() with the simulation active and omp_get_max_threads()==T.
// A hang or a memory fault calls the fatal handler (does not return).
void run(const Sched& s, int T, const std::function<void()>& body);
const Stats& stats();

// Called on hang / out-of-bounds access / double free. Default: print and _exit(97).
typedef void (*Fatal)(Status, const char* detail);
void setFatal(Fatal f);
void setBudget(uint64_t totalSteps, uint64_t stallSteps);

// Suspends switching and access checking while harness code logs.
struct Quiet { Quiet(); ~Quiet(); };

int tid();                  // id of the running simulated thread (0 outside regions)
uint64_t step();            // global step counter of this run
void yieldPoint();          // explicit switch point

// --- arena ---
size_t arenaMark();
void arenaReset(size_t mark);       // frees everything allocated after mark
void setFill(uint8_t b);            // fill byte of fresh memory
size_t blockSize(const void* p);    // size of the live block starting at p; (size_t)-1 if none
long liveBlocks();                  // number of live arena blocks allocated outside Quiet
bool addressable(const void* p, size_t n);
}
