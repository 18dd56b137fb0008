#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("P01", "No thread leaves a barrier episode before every thread has entered it",
  """For every team of threads that all use one barrier object repeatedly, no thread returns from its k-th wait
  before every thread of the team has called its k-th wait, for every k and every core/threads-per-core shape,
  including teams whose core count is not a power of two.""",
  ["schedules", "configurations"],
  "every interleaving of the threads' shared-memory steps, every team shape, any number of consecutive episodes",
  """Tests run the barrier under a handful of natural schedules with 1-4 threads; an early release shows only in a particular
  interleaving (usually of two consecutive episodes) and even then is invisible unless the data it protects is racing.""",
  ["synk/barrier.cpp", "synk/barrier.hpp", "synk/synk.hpp"],
  [("dissemination across cores, sense reversal inside a core, parity double buffering", "synk/barrier.cpp Barrier::wait")],
  ["call and return of Barrier::wait per thread"])

p("P02", "Every barrier wait returns once all have entered; the barrier is reusable",
  """If every thread of the team calls wait the same number of times, every call returns (no deadlock, no livelock under a fair
  scheduler) for any number of episodes. This also holds from the very first use of the shared default barrier: it may be created
  lazily by whichever threads ask first, inside or outside a parallel region, deleted, and created again, and all
  threads then get one same, fully initialised object.""",
  ["schedules", "configurations", "histories"],
  "every interleaving, team shape and history of create / initialise / wait / delete / re-create",
  """A lost wake-up needs one particular interleaving of set-up and first use or of two consecutive episodes; a test that passes a
  thousand times says nothing about it, and shapes with several threads per core are never run.""",
  ["synk/barrier.cpp", "synk/barrier.hpp", "synk/synk.cpp"],
  [("two-phase initialisation", "synk/barrier.cpp Barrier::init"), ("lazy singleton", "synk/barrier.cpp getInstance/initializeInstance/deleteInstance")],
  ["return of Barrier::wait, Barrier::init, Barrier::getInstance"])

p("P03", "A reduction barrier gives every thread the fold of that episode's inputs",
  """A reducing wait is a barrier, and in every episode each thread's call returns the reduction, by the supplied associative and commutative
  function, of exactly the values passed by the team in that episode: each contributed once, none missing, none taken from
  an earlier or later episode. This holds for every team shape and every number of consecutive episodes.""",
  ["schedules", "configurations"],
  "every interleaving, every core/threads-per-core shape, every sequence of contributed values",
  "No test runs the reducing barrier at all; mixing values of neighbouring episodes needs one thread to be fast in a particular window.",
  ["synk/reduce.hpp"],
  [("value exchange along the dissemination pattern", "synk/reduce.hpp ReduceBarrier::wait")],
  ["arguments and result of ReduceBarrier::wait per thread and episode"])

p("P04", "A level schedule assigns every row to exactly one task of one thread",
  """Building a task graph from a structurally symmetric matrix with full diagonal yields two row orders that are inverse permutations of
  each other and task boundaries that cut all rows into consecutive disjoint tasks covering every row exactly once, with every task owned by exactly one thread
  and each thread's tasks consecutive and in level order. This holds for every matrix, positive row cost, thread count and option combination.""",
  ["inputs", "configurations", "schedules"],
  "all structurally symmetric patterns, cost functions, thread counts, schedule options, and interleavings of the parallel construction",
  "Tests compare one numeric result for a few matrices with the default options; a dropped or duplicated row can leave a converged or idempotent result unchanged.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp"],
  [("level partition and permutation", "LevelSchedule.cpp constructTaskGraph, partitionLevels"),],
  ["origToThreadContPerm, threadContToOrigPerm, taskBoundaries, threadBoundaries, levIndices after constructTaskGraph"])

p("P05", "Levels are exactly the longest-path depths, under every interleaving",
  """The levels of a schedule are the longest-dependency-chain depths of the rows in the lower triangle: a row's level is one more than the deepest of the rows it depends on,
  so no two rows of a level depend on each other. In barrier mode every thread has the same number of tasks (one per level), so running level by level with a barrier
  between levels respects every dependency in both directions.""",
  ["inputs", "schedules", "configurations"],
  "all structurally symmetric patterns, thread counts, and interleavings of the parallel level search",
  "The parallel search only starts on wide levels and its errors depend on which thread performs the last decrement of a counter; tests only see one schedule and only the final numbers.",
  ["LevelSchedule.cpp"],
  [("parallel topological sweep with atomic in-degree decrements", "LevelSchedule.cpp findLevels_")],
  ["levIndices and permutations after constructTaskGraph"])

p("P06", "Point-to-point synchronisation enforces every dependency in every execution",
  """When each thread runs its own tasks in order (reverse order for the backward sweep), waiting for the listed predecessors of a task to be marked finished before
  starting it, then in every execution a row is processed only after all rows it depends on (lower-triangle neighbours forward, upper-triangle neighbours backward) have been processed.
  Removal of redundant edges (same-thread, duplicate, transitive) never removes an ordering, for any option combination, cost function and thread count.""",
  ["schedules", "inputs", "configurations"],
  "all executions of the produced task graph, all matrices, options, thread counts, and interleavings of its construction",
  "A missing edge usually does not show: the natural schedule happens to run the predecessor first, and the iterative results that tests compare tolerate it.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp"],
  [("edge generation, intra-thread and duplicate removal, transitive reduction", "LevelSchedule.cpp constructTaskGraph"), ("wait/notify protocol", "LevelSchedule.hpp SPMP_LEVEL_SCHEDULE_WAIT/NOTIFY")],
  ["nparents*/parents* arrays, taskBoundaries, threadBoundaries"])

p("P07", "Point-to-point execution never deadlocks",
  """Every execution of a produced task graph, forward or backward, in which threads run their tasks in order and wait only for listed predecessors, finishes all tasks: the waits and the per-thread orders never form a cycle,
  and every listed predecessor is an existing task. Repeated use (forward then backward, many sweeps, with flags cleared in between) works too, as does building and destroying several schedules, with or without the memory pool.""",
  ["schedules", "inputs", "configurations", "histories"],
  "all executions of all produced task graphs and sequences of sweeps",
  "A cyclic wait appears only for particular matrix shapes, thread counts and options, most of which no test uses.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp"],
  [("parent lists", "LevelSchedule.cpp constructTaskGraph"), ("task flags", "LevelSchedule.hpp taskFinished")],
  ["nparents*/parents* arrays"])

p("P08", "A fused GS+SpMV schedule orders every SpMV row after the GS rows it reads",
  """With fusing enabled, the SpMV part of a task, started once the Gauss-Seidel parts of the tasks listed for it are finished, only reads vector entries whose Gauss-Seidel update is complete, in every execution;
  the combined execution never deadlocks, and its predecessor lists are well-formed and separate per task.""",
  ["schedules", "inputs", "configurations"],
  "all executions of the fused schedule for all matrices, thread counts and options",
  "No test sets the fuse option.",
  ["LevelSchedule.cpp", "gs_spmv_fused.cpp"],
  [("fusedSchedule parents", "LevelSchedule.cpp constructTaskGraph, gs_spmv_fused.cpp")],
  ["fusedSchedule->nparents/parents"])

p("P09", "Scheduled triangular solves and sweeps equal the sequential ones bit for bit",
  """Running a forward or backward triangular solve or Gauss-Seidel sweep over the matrix permuted by a schedule, with the schedule's waits and notifies, gives exactly the result of the sequential sweep in
  original row order, under every interleaving of the threads, for every option combination and in barrier mode as well.""",
  ["schedules", "inputs", "configurations"],
  "all interleavings of the real sweep, matrices, options and thread counts",
  "The existing comparison runs one natural schedule per matrix, at most 4 threads, with two of the options only.",
  ["LevelSchedule.cpp", "LevelSchedule.hpp", "Permute.cpp", "synk/barrier.cpp"],
  [("schedule + permuted matrix + wait/notify macros", "LevelSchedule.hpp; test/gs_test.cpp shows the protocol")],
  ["solution vectors"])

p("P10", "Connected components are exactly the graph's, under every interleaving",
  """For a structurally symmetric matrix the component search reports exactly the connected components: two rows are in the same component iff a path connects them, the count is right, each component's size and its contiguous
  list of nodes are right, and its representative is one of its nodes. Restricting the search to rows outside a given set finds the components of the remaining subgraph.""",
  ["schedules", "inputs"],
  "all graphs, thread counts and interleavings of the concurrent union-find",
  "A lost union needs three threads to interleave on three trees in one window; tests never look at components directly, only at whether the final order is a permutation.",
  ["reordering/ConnectedComponents.cpp"],
  [("concurrent union-find (Rem's algorithm with compare-and-swap)", "reordering/ConnectedComponents.cpp findConnectedComponents_")],
  ["outputs of findConnectedComponents / findConnectedComponentsWithBitVector"],
  None)

p("P11", "The BFS reordering is a breadth-first order of every component",
  """For a structurally symmetric matrix the BFS reordering returns a permutation and its inverse in which each connected component occupies consecutive positions, starts with one node and lists the others in
  non-decreasing distance from that node. This holds under every interleaving and thread count, for isolated rows, and independently of the index base, and the call leaves the matrix unchanged.""",
  ["schedules", "inputs", "configurations"],
  "all graphs, thread counts, interleavings and index bases",
  "Tests only check that the result is a permutation (duplicates), on matrices with one component and natural schedules.",
  ["reordering/RCM.cpp", "reordering/ConnectedComponents.cpp"],
  [("parallel level-synchronous BFS", "reordering/RCM.cpp getBFSPermutation, bfs_")],
  ["perm/inversePerm"],
  "SPMP_VERIF_PAR_THR: lowers the size at which components are handled by the parallel algorithm")

p("P12", "The RCM reordering is a reverse Cuthill-McKee order of every component",
  """For a structurally symmetric matrix the RCM reordering returns a permutation and its inverse which, read backwards, is a Cuthill-McKee order of each component, each occupying consecutive positions: distance from the starting node is
  non-decreasing, the nodes of one distance are grouped in the order of their earliest-placed neighbour, and inside a group by non-decreasing degree. This holds with either source-selection option, every thread count and interleaving, and index base, and the call leaves the matrix unchanged.""",
  ["schedules", "inputs", "configurations"],
  "all graphs, thread counts, interleavings, options and index bases",
  """Tests only check for a permutation; the pipelined parallel placement of nodes runs only on components above 65536 nodes, and its ordering
  errors depend on how far one thread runs ahead of another.""",
  ["reordering/RCM.cpp"],
  [("parallel BFS, level counting, pipelined placement, per-parent degree sort", "reordering/RCM.cpp getRCMPermutation, rcm")],
  ["perm/inversePerm"],
  "SPMP_VERIF_PAR_THR: lowers the size at which components are handled by the parallel algorithm")

p("P13", "Bipartite BFS returns two consistent permutations in traversal order",
  """For any rectangular matrix and its transpose the bipartite reordering returns a row permutation and a column permutation with correct inverses, in which every connected component of the row/column graph occupies one consecutive
  range of rows and one consecutive range of columns, and within it rows and columns appear in non-decreasing distance from the component's starting row. Empty rows and columns are placed too, and the matrices are left unchanged.""",
  ["schedules", "inputs"],
  "all rectangular patterns, thread counts and interleavings",
  "The only test prints bandwidths for two matrices; it checks nothing but duplicates.",
  ["reordering/BFSBipartite.cpp"],
  [("alternating level-synchronous BFS", "reordering/BFSBipartite.cpp bfsBipartite")],
  ["the four output arrays"])

p("P14", "Transposition moves every entry (i,j,v) to (j,i,v), exactly once",
  """The transpose of any m-by-n matrix is the n-by-m matrix holding (j,i,v) exactly once for each stored (i,j,v) and nothing else, rows ascending within each transposed row whatever the thread count, with index base kept, diagonal positions right where the diagonal exists, and pattern-only
  matrices supported. The input is unchanged and transposing twice restores the matrix up to the order inside rows.""",
  ["inputs", "configurations", "schedules"],
  "all matrices (empty rows/columns, rectangular, no entries), bases, thread counts, interleavings",
  "Transposition is only used inside one test with square default matrices; a wrong merge of per-thread counts shows only for particular thread/row splits.",
  ["CSR.cpp"],
  [("parallel counting sort over a threads-by-columns table", "CSR.cpp CSR::transpose")],
  ["m, n, rowptr, colidx, values, diagptr of the result"])

p("P15", "Permuting a matrix relabels its entries and nothing else",
  """Permuting by a column permutation and an inverse row permutation yields exactly the entries (rowPerm(i), colPerm(j), v), with values, diagonal, inverse diagonal, and diagonal positions following their rows; row-only, row-pointer-only and in-place column permutation agree with it, sorted mode
  additionally sorts each row and every variant keeps the index base. Permuting by a permutation and then by its inverse restores the matrix.""",
  ["inputs", "configurations"],
  "all matrices, permutations, bases, variants and thread counts",
  "Tests use 0-based full permutation only and check a product's norm; row-only and in-place variants and 1-based inputs never run.",
  ["Permute.cpp"],
  [("rowptr permutation with parallel prefix sum, then row copies", "Permute.cpp permuteRowptr, permuteMain_, permuteRowsMain_, permuteColsInPlace_")],
  ["all arrays of the result"])

p("P16", "Vector reordering and permutation helpers obey permutation algebra",
  """Reordering a vector by p puts element i at position p(i); reordering by an inverse permutation fetches from it; in-place, out-of-place and allocating variants agree, and applying a permutation then its inverse restores the vector. The inverse helper returns the inverse; the permutation test accepts exactly the
  rearrangements of 0..n-1 and the inverse test exactly the mutually inverse pairs.""",
  ["inputs", "configurations"],
  "all lengths, permutations, arrays and thread counts",
  "Tests only ever feed valid permutations, so acceptance of invalid ones is never observed.",
  ["Utils.cpp", "Utils.hpp"],
  [("reorderVector*, getInversePerm, isPerm, isInversePerm", "Utils.cpp")],
  ["outputs"])

p("P17", "Coordinate-to-row conversion keeps every entry and sorts each row",
  """Converting coordinate entries to compressed rows keeps each (row, column, value) exactly once, including repeated coordinates, in its row, with each row sorted by column when sorting is requested, row offsets monotone and consistent, in either output index base, and with diagonal value, inverse and position
  recorded for rows that have a diagonal entry.""",
  ["inputs", "configurations", "schedules"],
  "all coordinate lists, orders, bases and thread counts",
  "Tests load a few well-ordered files without repeated coordinates or empty rows in base 0 mostly.",
  ["COO.cpp"],
  [("counting sort by row with per-row sort", "COO.cpp dcoo2csr")],
  ["rowptr, colidx, values, diagptr, diag, idiag"])

p("P18", "Loading a Matrix Market file yields exactly the matrix the file denotes",
  """Loading a well-formed coordinate Matrix Market file (real, integer or pattern; general or symmetric) yields exactly the denoted entries: symmetric files are mirrored without doubling the diagonal, pattern entries get value 1, forced symmetrisation mirrors entries of a lower- or upper-triangular general file without doubling one whose mirror is stored too,
  the transposed loader swaps rows and columns, zero-based files are recognised, and padding rounds dimensions up with unit diagonal entries. Loading a dense vector file yields its elements in order.""",
  ["inputs", "configurations"],
  "all well-formed files: formats, symmetry, entry orders, comments, dimensions, padding and options",
  "Tests feed a few generated symmetric real files; pattern, integer, zero-based, padded and transposed files never appear.",
  ["COO.cpp", "Vector.cpp", "mm_io.cpp"],
  [("loadMatrixMarket_, loadVectorMatrixMarket", "COO.cpp, Vector.cpp"), ("header parsing", "mm_io.cpp")],
  ["COO / CSR contents after loading"])

p("P19", "Malformed matrix files are rejected, not silently misread",
  """A matrix or vector loader, or a reader that hands out the plain arrays of a file, returns failure, without crashing, hanging or writing out of bounds, for a missing file, a wrong or unsupported banner or type, an unreadable size line, a file with fewer (for the loaders also: more) entries than announced, and, for the loaders, entries whose indices
  lie outside the announced dimensions; it never returns success with a matrix that differs from what the file says, and leaves no file open.""",
  ["inputs", "fault_sequences"],
  "all malformed variants of matrix and vector files (truncations, corruptions of each field)",
  "No test loads a malformed file.",
  ["COO.cpp", "Vector.cpp", "mm_io.cpp"],
  [("validation while loading", "COO.cpp loadMatrixMarket_, Vector.cpp, mm_io.cpp mm_read_*")],
  ["return value of the loaders"])

p("P20", "Storing and loading back a matrix restores it",
  """Storing a matrix with values as text or binary and loading it back gives an equal matrix (same dimensions, entries and values; text keeps 16 significant digits) whatever index base is used on either side, storing leaves the matrix unchanged (even when its file cannot be opened) and no file open, and coordinate storage and the text writer helpers report success and produce what the
  reader helpers accept.""",
  ["inputs", "configurations"],
  "all matrices (rectangular, empty rows), both formats, both bases on both sides",
  "Only one 0-based square binary round trip is tested.",
  ["CSR.cpp", "COO.cpp", "mm_io.cpp"],
  [("storeMatrixMarket, storeBin, loadBin", "CSR.cpp"), ("mm_write_*", "mm_io.cpp")],
  ["file contents, matrix after reload"])

p("P21", "Switching index base never changes the matrix and every operation honours it",
  """Converting between 0- and 1-based indexing shifts all stored indices consistently, is idempotent and reversible, and leaves the represented matrix, including diagonal and local/non-local boundary positions, unchanged. Every matrix operation gives the same represented result (in the base of its input) for the 0- and the 1-based form of the same matrix.""",
  ["inputs", "configurations", "histories"],
  "all matrices, operations and sequences of base switches",
  "Tests run almost everything 0-based; most 1-based paths are template instantiations no test enters.",
  ["CSR.cpp", "Permute.cpp", "SymGS.cpp", "SpMV.cpp", "reordering/RCM.cpp"],
  [("make0BasedIndexing/make1BasedIndexing", "CSR.cpp"), ("BASE template parameter", "Permute.cpp, SpMV.cpp, RCM.cpp")],
  ["all arrays before and after; results of each operation in both bases"])

p("P22", "Sparse products compute alpha*A*x + beta*y + gamma for all argument combinations",
  """The matrix-vector product equals alpha*A*x + beta*y + gamma exactly on integer-valued data for every alpha, beta, gamma (including the specially treated 0, 1 and -1, where unused operands may be absent), index base, shape, aliasing of the output with an operand and thread count; the dense-matrix product gives the same for each column with any row and column strides, writing nothing else.""",
  ["inputs", "configurations"],
  "all matrices, coefficients, strides, aliasing choices, bases and thread counts",
  "Tests use alpha=1, beta=gamma=0, one vector, and compare nothing but a residual.",
  ["SpMV.cpp"],
  [("SpMV_, SpMDM_ specialisations", "SpMV.cpp")],
  ["output arrays"])

p("P23", "Splitting into L and U partitions the entries at the diagonal",
  """Splitting a matrix with full diagonal gives a strictly lower part and a strictly upper part that together with the diagonal hold each entry exactly once in its row, with inverse diagonals in both, non-local columns kept in the upper part, and the original matrix unchanged including its index base.""",
  ["inputs", "configurations"],
  "all matrices with a diagonal, bases, thread counts, with and without non-local columns",
  "Only used inside performance comparisons on default matrices in base 0.",
  ["SymGS.cpp"],
  [("splitLU", "SymGS.cpp splitLU")],
  ["arrays of L, U and A"])

p("P24", "The symmetrised pattern is exactly the union of pattern and transposed pattern",
  """The symmetric-pattern helper returns, for any square matrix with a diagonal, row offsets and sorted columns of exactly A union A-transposed, with correct diagonal (and non-local) positions, in the index base of the input, leaving the input unchanged; it reports true iff the pattern was already symmetric.""",
  ["inputs", "configurations", "schedules"],
  "all square patterns with full diagonal, bases, thread counts",
  "Used by one test on one unsymmetric 0-based matrix; the pattern itself is never compared.",
  ["SymGS.cpp"],
  [("getSymmetricNnzPattern", "SymGS.cpp getSymmetricNnzPattern")],
  ["returned arrays and flag"])

p("P25", "Matrix predicates and metrics report the truth",
  """Symmetry (with and without values), zero-diagonal, bandwidth, average row width (sorted and unsorted mode), maximum degree, non-zero count and equality report exactly their definition for every matrix, index base and thread count, and diagonal positions and inverse diagonals computed on demand are right.""",
  ["inputs", "configurations", "schedules"],
  "all matrices, bases, thread counts",
  "Tests call them only to print; no value is ever compared.",
  ["CSR.cpp", "Utils.cpp"],
  [("isSymmetric, hasZeroDiag, getBandwidth, getAverageWidth, getMaxDegree, equals, constructDiagPtr, computeInverseDiag", "CSR.cpp, Permute.cpp")],
  ["return values"])

p("P26", "The memory pool never hands out overlapping or out-of-range live blocks",
  """Between releases, blocks obtained from a memory pool lie inside its buffer, are disjoint from every block not yet released, and keep their content; releasing (moving the head or the tail, or everything) frees exactly the blocks outside the remaining live range, wrap-around included, blocks are aligned as requested when every request uses the same alignment, and membership is answered exactly for the live range, provided each request fits in the free part and each release offset is one the pool reported.""",
  ["histories", "inputs"],
  "all sequences of front and back allocations, releases and re-initialisations, all pool sizes and request sizes",
  "No test uses the pool; overlap needs a wrap-around reached by a particular sequence of allocations and releases.",
  ["MemoryPool.cpp", "MemoryPool.hpp"],
  [("circular buffer with head and tail offsets", "MemoryPool.cpp allocate, allocateFront, setHead, setTail")],
  ["returned pointers, getHead/getTail, contains"])

p("P27", "Work partitions cover each index once; parallel helpers equal sequential ones",
  """Inside a parallel region the simple and the load-balanced partitions of 0..n give the threads consecutive, disjoint ranges that cover every index exactly once (the simple one as even as the block size allows), the prefix sums return exactly the sums of lower-numbered threads' inputs and the total to everybody and can be called repeatedly, and parallel fill, copy and vector copy of any length equal the sequential ones without touching anything else.""",
  ["inputs", "configurations", "schedules"],
  "all n, weights, thread counts (more threads than items too), sequences of calls and interleavings",
  "Helpers are only exercised indirectly, with few threads and large n.",
  ["Utils.cpp", "PrefixSum.cpp"],
  [("getSimpleThreadPartition, getLoadBalancedPartition, parMemset, parMemcpy", "Utils.cpp"), ("prefixSum, prefixSumMultiple", "PrefixSum.cpp")],
  ["per-thread outputs"])

p("P28", "The 27-point generator yields the documented stencil for every grid",
  """For every nx, ny, nz and base the generated matrix has one row per grid point, an entry for each of the up to 27 grid neighbours and no other, 26 on the diagonal and -1 elsewhere, rows sorted by column with diagonal positions right, and is symmetric.""",
  ["inputs", "configurations"],
  "all grid sizes (dimensions of 1, non-cubic), bases and thread counts",
  "Tests only use cubes with side of at least 2 and never compare entries.",
  ["Laplacian.cpp"],
  [("generate3D27PtLaplacian", "Laplacian.cpp")],
  ["all arrays of the generated matrix"])

p("P29", "A copied matrix is equal and independent",
  """A copy of a matrix equals the original in every stored array, including the local/non-local boundary, and shares no storage with it: changing or destroying either never affects the other. Freeing, refilling and reusing a matrix object, and matrices that only borrow arrays, never release or alter arrays they do not own; a matrix that owns its arrays, however it was made (copied, permuted, transposed, split, loaded, generated), gives all their memory back when it is destroyed.""",
  ["histories", "inputs"],
  "all matrices and histories of copy, change, destroy, reload",
  "Tests copy once and never modify or destroy one of the two while using the other.",
  ["CSR.cpp"],
  [("copy constructor, dealloc, ownership flag", "CSR.cpp")],
  ["all arrays of both objects"])

p("P30", "Every operation gives back the memory and files it takes",
  """Once the client has destroyed the objects it was handed, no memory and no open file is left from any operation: building, copying, transforming, reordering, loading, storing, scheduling, solving, synchronising. This holds for every input (rejected files and failed opens included),
  every combination of options, every number of threads and every schedule; and no block is given back twice. Blocks drawn from the memory pool belong to the pool.""",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every operation, input (valid or not), option, thread count and schedule",
  "Tests run each operation once and exit; nothing looks at what stays allocated, least of all on error paths or under options no test sets.",
  ["CSR.cpp", "COO.cpp", "mm_io.cpp", "LevelSchedule.cpp", "gs_spmv_fused.cpp", "reordering/RCM.cpp", "reordering/ConnectedComponents.cpp", "synk/barrier.cpp", "synk/reduce.hpp", "synk/loadimba.cpp"],
  [("FREE / delete in constructors' counterparts and at the end of each operation", "CSR.cpp, COO.cpp, LevelSchedule.cpp, reordering/*.cpp, synk/*"), ("error returns", "COO.cpp loadMatrixMarket_, mm_io.cpp mm_read_*")],
  ["blocks of memory and file descriptors held before and after a client session"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
