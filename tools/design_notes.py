"""Hand-written part of DESIGN.md, per property: oracle, why it reaches further than the tests, limits."""
N = {}
def n(i, oracle, reach, limits="none beyond the sizes named in the workload"): N[i] = (oracle, reach, limits)

n("W01", "Position arithmetic on the raw block: the i-th cell of a window is at an address computed from the window's definition alone; every iterator expression is compared with that address, under ASan so that a step outside the block is seen even if nothing is read.",
  "The tests walk a few layouts forwards. Bugs live in the interplay of embedding offsets, collapsed extents, jumps across rows/planes and reverse moves, which random routes over random views visit in combination.",
  "Iterators moved below begin and then jumped back are out of scope (the library documents no such position); up to ~12 cells per direction.")
n("W02", "Flat = x + nx(y + ny z) written out in the harness; for refine, a per-cell cover count over the parent window (exactly one piece each) and the extent spread.",
  "Unit tests check chosen splits; overlap or loss needs remainders of two or more in a particular direction.", "extents up to ~14, all admissible splits drawn at random")
n("W03", "Integer arithmetic on ghost counts (with an 'unlimited' element) and the documented extents N + extra + ghosts, collapsed directions to one; contents read back after each change of valid ghosts.",
  "16 staggered locations x 8 boundary-flag patterns x asymmetric ghosts is far beyond the tested handful.", "Negative ghost counts are rejected by assertion (debug) and not driven otherwise.")
n("W04", "Closed-form coordinate spacing*(index + 0 or 1/2) per staggered location, in long double; everything outside the visible window must be untouched.",
  "Defects need windows with offsets or reduced ghosts, and every one of 16 locations x 3 directions.", "Face fields normal to a collapsed direction use the documented formula like the others.")
n("W06", "The instantiated values read back at run time and compared with plain integer vectors; location traits derived from the names of the locations.",
  "Exhaustive over unit triplets, sampled beyond.", "The answer is computed by the compiler; the monitor only observes it through the built program.")
n("W05", "A shadow memory model: owner of every block, value of every cell, which handles see it; compared with the library after each step, with the pool's counters and ASan as second witnesses (double release, use after release).",
  "Histories of views outliving owners, or owners reassigned under a view, are not enumerated by tests.", "`reset_valid_ghosts` on views only changes what the view shows.")
n("N01", "Each generated program exists twice: as a library expression, and as plain C++ arithmetic applied to the scalars of one cell. Comparison is bit for bit where IEEE arithmetic fixes the result, a few ulps for libm functions under -O2.",
  "Every operator x every pair of operand kinds x special values is thousands of combinations; tests use a few with friendly values.", "Expression depth up to 5; -ffast-math builds are out of scope.")
n("N02", "The written region is computed from integer arithmetic on ghosts and stencil reach; operand memory outside the valid region is NaN, destination memory outside the region carries a pattern, and the whole block is compared.",
  "The property quantifies over ghost layouts of every operand at once; an over-wide read shows as NaN, an over-wide write as a changed pattern.", "22 programs; domains up to ~9 cells per direction.")
n("N03", "Bitwise equality with the one-partition result immediately after the statement, plus a scalar reference; ASan/TSan; delays injected at every lock operation (linker-wrapped pthread calls) so that late workers are really late.",
  "A statement returning before its last partition finishes, or a partition lost when limits change, needs a schedule that a test run practically never sees.", "Schedules are sampled, not enumerated; evidence counts injected delays and limit changes.")
n("N04", "A recording fold gives the multiset of values the library really visited; it must equal the region's cells exactly; results compared with the scalar fold.",
  "Tests reduce a few full fields; region errors need boundary cells, reduced ghosts and interior forms.", "Interior reductions exclude the boundary extra cells (documented interior); sum/norm within rounding of a reordered sum.")
n("N05", "First clause whose condition holds, evaluated per cell on scalars, including NaN comparisons; masks from point sets.",
  "One- and two-clause combinations are enumerated exhaustively by kind; longer sequences random.", "Up to six clauses.")
n("N06", "A std::set of points; queries, iteration and masked assignment compared with it; geometric adjacency for shifted masks.",
  "Bit-word boundaries (32 cells), embedded windows and jumps over words are not in the tests.", "Copies of masks are views (documented sharing); masks up to a few thousand cells.")
n("N07", "For each kind of invalid request: must be refused (exception or, where the library asserts, not driven), and afterwards every byte of every field involved, and the pool's counters, must be as before; then a valid use must work.",
  "Tests check that some errors throw, never what state they leave.", "Needs the debug checks the library compiles in without NDEBUG; particle operators may have deposited earlier particles before refusing a later one and are not claimed here.")
n("T01", "Each task counts its own starts and ends and writes a plain (non-atomic) payload the waiter reads, so TSan judges visibility and the counters judge exactly-once; `wait` must not return with earlier tasks unfinished; cleared tasks never start; shutdown per policy.",
  "Races between clear/wait/limits/shutdown are schedule-dependent; perturbed runs with spurious wake-ups reach them.", "Schedules sampled.")
n("T02", "With one active worker the pending set at each start is known exactly and the started task must be a maximal one; with W workers fewer than W better-ranked tasks may be unstarted (a sound bound, independent of timing).",
  "Order under resubmission from tasks and ties is never checked by tests.", "Ties may start in any order.")
n("T03", "High-water mark of concurrently running tasks against the largest limit since the last idle point; rendezvous: after settling, exactly min(limit, capacity, tasks) tasks must be able to meet at a gate (too few: time-out; too many: counted).",
  "Stranded tasks need a resize at the instant a worker ends; found in the original code this way.", "Settling has a 10 s time-out; a miss is re-run before it is believed.")
n("T04", "Permit conservation: waits completed never exceed initial + posts and, after each batch, reach exactly that number; payload hand-off under TSan; semaphores on the stack destroyed right after the last wait.",
  "Lost or stolen wake-ups need several waiters and a post between check and sleep; injected delays and spurious wake-ups produce those.", "Time-out 15 s for liveness.")
n("T05", "Each task counts starts and ends and writes a plain payload; whoever observes completion (any route, any copy, any thread) reads it under TSan and compares the value; tasks behind a gate are known to be pending, so cancellation verdicts are determined; racing cancellations are only judged on what is determined (at most one run; a refused cancellation means the value is there).",
  "Futures are not used by any test; flags read without the lock were found here.", "Waiting on a cancelled future is not specified (the sources mark it as unfinished) and is not driven; task functions that throw likewise.")
n("M01", "Shadow set of live blocks with sizes, non-overlap check, contents verified on return, counters recomputed after each step; balanced rounds must stop growing.",
  "Reuse across size classes only goes wrong for particular sequences.", "Sizes up to thousands of elements; destruction order at process exit not covered.")
n("M02", "operator new/new[] replaced: the k-th allocation of an acquisition fails, for every k until it succeeds; exception seen by the caller, counters, contents, kept blocks; and a forked twin without the failure must behave identically afterwards.",
  "Allocation failures never happen in tests.", "Failures injected at allocation only (no thread creation failures).")
n("M03", "Shadow owners: for each pointer the object it refers to; counts, contents, pool counters compared after every step.", "Self-assignment, empty pointers, adoption of plain fields in arbitrary orders.", "single-threaded histories (threads in M05)")
n("M04", "A field of the same domain built directly: windows, interior, ghosts and boundary data must be equal and the pair must be usable in statements.", "16 x 16 pairs of locations x boundary flags x views.", "Debug and release builds.")
n("M05", "ThreadSanitizer on the library and harness; each thread checks its own values; first use of singletons in fresh processes.", "Data races only show under concurrency; tests are single-threaded at the user level.", "Objects shared between threads are only read; a pointer object itself is never shared.")
n("U01", "The tolerance restated per cell in plain arithmetic (exact, relative, absolute, ulp by bit distance); every form and its negation.", "Position of the offending cell, special values, thresholds.", "Ulp forms exclude NaN/infinity (the underlying Boost function throws); norm overflow excluded.")
n("U02", "Long-double Lagrange reference and polynomial reproduction with a conditioning-aware bound; weights sum to 1 / 0; node set consecutive, in range, bracketing.", "Tests use one table.", "Subnormal weights excluded.")
n("U03", "Long-double overlap integrals per cell; conservation of totals; refusal outside under ASan.", "Tests use one mesh at the origin; two defects found here.", "A refused call may already have deposited earlier particles.")
n("U04", "Direct reads/writes of the block by index.", "Embedded windows and marks outside the view.", "Repeated indices allowed for extraction.")
n("U05", "The exported file parsed and compared entry by entry with memory.", "Extreme values, windows, overwriting an existing file.", "Files only in a scratch directory made by the check.")
n("U06", "The formula and its analytic derivatives in long double, with rounding bounds.", "Tests evaluate few parameter sets and no derivative.", "Patch-based constructors do not compile when instantiated in the pinned tree and are not covered; the Gaussian's documentation lacks the minus sign of the exponent, the standard form is used.")
n("O01", "Stencil coefficients and offsets derived from source/destination locations by geometry, applied in plain loops to the operand's block; NaN outside valid cells.", "131 operators x layouts x forms.", "Registered operators only plus filters and random two-point coefficients.")
n("O02", "Exactness on linear functions sampled from the mesh's own coordinates, telescoping sums, linearity, quadratic Laplacian and summation by parts.", "Independent of O01's reference: uses only calculus identities.", "Rounding bounds scale with the magnitudes involved.")
n("O03", "After the condition is applied, the operator itself is applied and must return the requested value at each point; whole block compared for untouched cells.", "All two-point operators, both sides, lists, masks, threads.", "Point sets in which one point's boundary cell is another's interior cell are excluded (no order is promised); NO_SIDE only in the single-point form; the overload for a vector of fields is declared but not defined.")
n("O05", "A plain loop over the points with the operand's block, the known region shrunk face by face; NaN everywhere the operand is not valid; folds by loops.",
  "Random shapes: one-sided, far, repeated, diagonal points, any pair of locations, ghosts exactly sufficient.", "Shapes are generated per seed (24 quick, 56 thorough) with up to 12 points and offsets up to 3.")
n("O04", "Shadow map id -> object; births and deaths counted per object.", "Histories with several types, related by inheritance, copies of databases.", "single-threaded")
INTRO = '''
## False alarms met while building, and what was done

* T01: the threshold wait compared with tasks submitted after the call began; now only tasks accepted before it.
* T01: the test of "drop pending tasks" released the running tasks after a delay; on a busy machine that could be
  before the shutdown began (seen once, in a vcheck on a loaded machine). Now they are released when the drop is
  observed (the functors of pending tasks are destroyed).
* T02: priorities were compared as signed; T03: high-water was taken over a period with a larger limit.
* N04: interior reductions do not include boundary extra cells; the reference did.
* M02: mask copies are views; block layouts in the twin comparison depended on addresses.
* M01: a clause about memory not from the pool was dropped (no such promise). M02 reworded; M05: "of their own".
* U05: "with the field's dimensions" dropped, the file carries none.
* U01/U02: see the limits above.

## What this family cannot decide here

* G01 (accelerator back end agrees with the host): no CUDA toolchain or device, so nothing can be executed. Listed
  under not_applicable.
* Universal claims ("for every schedule") are only sampled; the evidence files say how much.
'''
