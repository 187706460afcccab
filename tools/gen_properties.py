#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "spatialops/"; ST = S + "structured/"

# ------------------------------------------------------------------ Nebo
p("N01", "Field expressions evaluate cell by cell to the scalar formula",
  "Assigning an expression built from fields, scalars, single-value fields and the supported arithmetic, mathematical and min/max operators stores, in every assigned cell, exactly what the same scalar formula gives for the values the operand fields hold at that cell (up to rounding). "
  "This holds for every nesting, operand order and operand kind, for float and double fields, and including NaN, infinities and signed zeros. Operands that are only read are unchanged.",
  ["programs", "inputs"], "all expression trees over the operator set, all field contents and all memory layouts",
  "The tests evaluate a few dozen fixed expressions on one or two fixed grids; the property ranges over all trees, operand-kind combinations and layouts.",
  [S+"NeboOperators.h", S+"NeboRhs.h", S+"NeboAssignment.h", S+"NeboLhs.h"],
  [("operator overloads building expression trees", S+"NeboOperators.h"), ("sequential walk that advances every operand in lock step", S+"NeboLhs.h: assign loop; "+S+"NeboRhs.h: SeqWalk")],
  ["values in the destination field after <<="])

p("N02", "Assignment writes exactly its region and nothing else",
  "A full assignment writes exactly the cells that lie both in the destination (interior, physical-boundary extra cells and its ghost cells) and in the region where every operand, after the reach of its stencils, is valid; an interior assignment writes exactly the interior including physical-boundary extra cells. "
  "Every other cell of the destination, and memory around a destination that is a window into a larger block, keeps its bits. No cell outside an operand's valid region influences the result.",
  ["inputs", "configurations"], "all grid shapes (including extents of one), per-face ghost counts, boundary flags, valid-ghost resets, windows into larger memory, staggered field types and operand reaches",
  "Tests use symmetric ghosts and only inspect the cells they expect to change; an off-by-one on one face of one direction under an asymmetric layout goes unseen.",
  [S+"NeboBasic.h", S+"NeboAssignment.h", S+"NeboLhs.h", S+"NeboRhs.h", ST+"GhostData.h", ST+"SpatialField.h"],
  [("valid ghost computation", S+"NeboBasic.h: calculate_valid_ghost"), ("window reshaping", ST+"SpatialField.h: reshape / "+S+"NeboBasic.h: resize_ghost")],
  ["entire memory block of destination before/after"])

p("N03", "Threaded evaluation equals sequential evaluation for every partitioning",
  "With thread parallelism enabled, any assignment gives bit-identical destination memory whatever the number of partitions requested for the destination, the number of active worker threads and the pool capacity, including values larger than the grid extents and changes made between assignments. "
  "The assignment has taken full effect when the statement returns, and every cell is computed exactly once.",
  ["schedules", "configurations", "inputs"], "all thread schedules, partition counts, pool sizes, grid shapes and expression kinds (pointwise, conditional, masked, stencil)",
  "The test suite runs one partition count with four threads on fixed shapes and cannot enumerate schedules or partition/extent combinations.",
  [S+"NeboLhs.h", S+"NeboBasic.h", S+"ThreadPool.cpp", S+"Semaphore.h", ST+"MemoryWindow.cpp"],
  [("partition choice and walk", S+"NeboBasic.h: nebo_find_partition, nebo_next_partition"), ("scheduling and join", S+"NeboLhs.h: thread_parallel_assign"), ("window split", ST+"MemoryWindow.cpp: refine")],
  ["destination memory after the statement returns"])

p("N04", "Reductions fold exactly the documented cells",
  "The minimum, maximum, sum, norm, generic reduce and generic fold of a field or expression equal the scalar fold over exactly the documented cells: every cell where the whole expression is valid, or the interior cells, without ghosts and boundary extra cells, for the interior variants. "
  "Cells outside that region never influence the result, and the operands are unchanged.",
  ["inputs", "programs"], "all field contents (including all-negative, NaN-free extremes, ties), grid shapes, ghost layouts, boundary flags and expressions with stencils or single values",
  "The tests reduce one or two constant or ramp fields on fixed layouts, so a skipped row, a wrong seed value or an included ghost is invisible.",
  [S+"NeboReductions.h", S+"NeboRhs.h"],
  [("reduction walk with end detection", S+"NeboReductions.h: nebo_fold etc; "+S+"NeboRhs.h: Reduction mode")],
  ["return values of the reductions"])

p("N05", "Conditionals take the first clause that holds in each cell",
  "A conditional expression with any number of clauses yields in each cell the value of the first clause whose condition holds there and the final value otherwise, where conditions may be booleans, comparisons, logical combinations, masks or shifted masks and values may be scalars, fields, single-value fields or expressions. "
  "Clause order is significant and cells are independent of one another.",
  ["programs", "inputs"], "all clause sequences, condition kinds, value kinds and field contents",
  "Tests cover some two- and three-clause forms with fixed data; the space of clause kind sequences and truth patterns is unbounded.",
  [S+"NeboCond.h", S+"NeboOperators.h", S+"NeboMask.h"],
  [("clause builder reversing the clause list", S+"NeboCond.h: CondBuilder, NeboCond::eval")],
  ["values in the destination field"])

p("N06", "Masks are exactly their point sets under every use",
  "A mask built from a list of points is true at exactly those points of its window, however it is read (indexing, iteration in either direction or by jumps, conversion to another window, copies) and whatever the grid shape and ghost layout. "
  "A masked assignment changes exactly the masked cells of the destination and a mask shifted between staggered locations is true exactly at the cells whose corresponding face or cell is masked.",
  ["inputs", "configurations"], "all point sets (empty, full, ghosts, corners, duplicates), window shapes and ghost layouts, all staggered location pairs, all iterator walks",
  "The mask test checks small fixed point lists; bit packing errors depend on word boundaries, row lengths and jump distances.",
  [ST+"BitField.h", ST+"SpatialMask.h", S+"NeboMask.h", S+"NeboStencils.h", S+"NeboStencilBuilder.h"],
  [("bit packing and iterator stepping", ST+"BitField.h"), ("mask shift", S+"NeboStencilBuilder.h: NeboMaskShiftBuilder")],
  ["mask queries, iterator sequences, destination field"])

p("N07", "Invalid use is rejected and leaves the fields untouched",
  "In builds with run-time checks, assigning fields of different window sizes, comparing fields of different sizes, dereferencing an iterator outside its window, taking interior iterators of a view that cuts the interior, assigning when boundary extra cells would have no valid source, reading a stencil coefficient that does not exist, and asking for memory on a device the build does not support are each reported by an exception. "
  "When an operation is rejected this way, no field has been modified and every object stays usable.",
  ["inputs", "fault_sequences"], "all invalid combinations of windows, ghosts, boundary flags and iterator positions, followed by further valid use",
  "The tests exercise valid uses almost exclusively.",
  [S+"NeboBasic.h", ST+"SpatialField.h", ST+"MemoryWindow.h", ST+"FieldComparisons.h", ST+"BitField.h"],
  [("explicit checks that throw", S+"NeboBasic.h: calculate_valid_ghost; "+ST+"MemoryWindow.h: operator*; "+ST+"SpatialField.h: operator=, interior_begin")],
  ["exceptions thrown and memory contents afterwards"])

# ------------------------------------------------------------------ stencils / operators
p("O01", "Every stock operator computes its documented stencil",
  "For every interpolation, gradient, divergence, finite-difference and filter operator the library registers for a mesh, the value at each destination cell is the documented linear combination of the geometrically adjacent source cells: averages with equal weights for interpolation and filters, differences divided by the mesh spacing in the operator's direction for gradient and divergence. "
  "This holds for all mesh sizes and spacings, ghost layouts and boundary flags, and applying an operator to an expression equals applying it to a field holding that expression.",
  ["inputs", "configurations"], "all registered operator types, mesh dimensions and lengths, source values, ghost and boundary layouts, field and expression arguments",
  "Tests check a subset of operator types with fixed grids and smooth functions; swapped coefficients or a wrong neighbour in one operator type on a non-cubic mesh escape.",
  [ST+"stencil/FVStaggeredOperatorTypes.h", ST+"stencil/StencilBuilder.cpp", S+"NeboStencils.h", S+"NeboStencilBuilder.h", ST+"IndexTriplet.h", ST+"FVStaggeredLocationTypes.h"],
  [("operator registration with coefficients", ST+"stencil/StencilBuilder.cpp"), ("stencil points from staggering", S+"NeboStencilBuilder.h: Stencil2Collection, Stencil4Collection, FDStencilCollection")],
  ["destination field values for every operator"])

p("O02", "Discrete calculus identities hold on every mesh",
  "On every uniform mesh, with coordinates supplied by the mesh description, gradients of linear functions are exact at the destination's own location, interpolation reproduces linear functions there, divergences of constant fluxes vanish, and divergence of a flux summed over the cells telescopes to the boundary fluxes. "
  "Operators are linear in their argument.",
  ["inputs", "configurations"], "all mesh sizes and lengths, all operators, all linear functions and random fluxes",
  "Tests check convergence order on a few smooth functions; exact identities over all operators and shapes are not checked.",
  [ST+"stencil/StencilBuilder.cpp", ST+"Grid.cpp", ST+"FVStaggeredFieldTypes.h", S+"NeboStencilBuilder.h"],
  [("coefficient choice and stencil geometry", ST+"stencil/StencilBuilder.cpp"), ("coordinates per staggered location", ST+"Grid.cpp: set_coord")],
  ["operator outputs, coordinates"])

p("O03", "Boundary-condition operators impose the requested value and touch only ghosts",
  "After a boundary condition is applied through an operator at a set of points, applying that operator to the field gives the requested boundary value at each of those points, on either side, for Dirichlet and Neumann style operators, for constant, field or expression values. "
  "Only the cell on the boundary side of each given point changes.",
  ["inputs", "configurations"], "all operators with two points, point sets on either side, directions, mesh shapes, ghost layouts and previous field contents",
  "The BC tests check a few points on one mesh; the side, direction, offset and point-list handling interact.",
  [ST+"stencil/FVStaggeredBCOp.h", ST+"FVStaggeredBCTools.h", S+"NeboStencilBuilder.h", ST+"MemoryWindow.h"],
  [("inversion of the stencil for the ghost value", ST+"stencil/FVStaggeredBCOp.h: operator(); "+S+"NeboStencilBuilder.h: NeboBoundaryConditionBuilder")],
  ["source field before/after, operator applied afterwards"])

p("O04", "Operator database returns exactly what was registered",
  "An operator registered in a database is retrieved as the very same object under the identifier returned at registration, and without an identifier exactly when it is the only one of its type; every other request is rejected by an exception without disturbing the database. "
  "Operators stay valid until the database is emptied or destroyed, and each is destroyed exactly once.",
  ["histories"], "all sequences of registrations, retrievals (valid and invalid ids, several types), copies of the database, emptying and destruction",
  "The tests register once and retrieve; mixed histories and destruction counts are not observed.",
  [S+"OperatorDatabase.h"], [("type-indexed store list with id map and shared ownership", S+"OperatorDatabase.h")],
  ["returned pointers, exceptions, destructor counts"])

p("O05", "User-defined stencils compute their weighted sum at exactly the reachable cells",
  "A stencil built from any collection of points and coefficients (or as a plain sum or average of its points) between any two field locations yields, at each destination cell, the sum over its points of coefficient times the source value at that offset, each coefficient going with the point of the same rank. "
  "An assignment of it, alone or inside larger, nested or conditional expressions, writes exactly the destination cells for which every point is a valid source cell, and interior assignments and folds agree with the same sums.",
  ["programs", "inputs", "configurations"], "all point collections, coefficients, location pairs, ghost layouts, boundary flags and surrounding expressions",
  "Tests only use the stock symmetric operators with reach one; one-sided, wide, repeated or diagonal collections exercise other ghost arithmetic.",
  [S+"NeboStencils.h", S+"NeboStencilBuilder.h", ST+"GhostData.h", ST+"GhostData.cpp", ST+"IndexTriplet.h"],
  [("point collection recursion", S+"NeboStencils.h: NeboStencilPointCollection"), ("coefficient collection", S+"NeboStencils.h: NeboStencilCoefCollection"), ("builders", S+"NeboStencilBuilder.h"), ("reach from points", ST+"GhostData.cpp: point_to_ghost")],
  ["destination block before/after, operands' blocks, fold results"])

# ------------------------------------------------------------------ structure
p("W01", "Iterators traverse exactly the window, in order, by any route",
  "Iterating over a field, its interior or any window visits each cell of the window exactly once in x-fastest order and refers to that cell's memory; after any sequence of increments, decrements, jumps, sums and differences that stays within the window or its end, an iterator denotes the cell at the resulting position. "
  "Distances, ordering, offset access, equality and mutable-to-constant conversion agree with those positions.",
  ["inputs", "histories"], "all window shapes and offsets inside larger blocks and all sequences of iterator operations",
  "The iterator tests walk forward over whole fields; jump arithmetic near row and plane ends in sub-windows is not covered.",
  [ST+"MemoryWindow.h", ST+"SpatialField.h"],
  [("incremental strides and jump arithmetic", ST+"MemoryWindow.h: FieldIterator, ConstFieldIterator")],
  ["addresses and positions of dereferenced cells"])

p("W02", "Windows index and split memory exactly",
  "Conversions between flat and three-dimensional indices of a window are mutually inverse and place cells in x-fastest order, and refining a window by any admissible split yields pieces that are pairwise disjoint, together cover the window and nothing else, and differ in extent by at most one per direction. "
  "Equality of windows is equality of size, offset and extent.",
  ["inputs"], "all window sizes, offsets, extents, split patterns and locations",
  "The memory-window test checks a handful of splits of one window.",
  [ST+"MemoryWindow.cpp", ST+"MemoryWindow.h"], [("refine and index conversions", ST+"MemoryWindow.cpp: refine; "+ST+"MemoryWindow.h: flat_index, ijk_index_from_global")],
  ["window offsets/extents, indices"])

p("W03", "Ghost and boundary accounting sizes every field consistently",
  "The window built for a domain has, per direction, the domain's cells plus the ghost cells of both faces plus the physical-boundary extra cell exactly when that location carries one and the boundary is present, with no ghosts or extras in collapsed directions; a field's interior is that window without its ghosts. "
  "Adding, subtracting, taking minima of ghost counts and deriving them from stencil points follow per-face integer arithmetic, with unlimited counts absorbing in sums and neutral in minima, resetting a field's valid ghosts changes only the visible window, and comparisons are consistent with equality.",
  ["inputs", "configurations"], "all domain sizes, ghost counts per face, boundary flags, field types and sequences of valid-ghost resets",
  "Tests use uniform ghost counts and few boundary flags.",
  [ST+"FVTools.h", ST+"GhostData.h", ST+"GhostData.cpp", ST+"BoundaryCellInfo.h", ST+"SpatialField.h", ST+"IntVec.h", ST+"Numeric3Vec.h"],
  [("window construction", ST+"FVTools.h: get_window_with_ghost"), ("ghost algebra", ST+"GhostData.h, GhostData.cpp"), ("valid ghosts", ST+"SpatialField.h: reset_valid_ghosts")],
  ["window extents/offsets, ghost values"])

p("W04", "Mesh coordinates agree with cell positions for every staggered location",
  "The coordinates a mesh description writes into a field are, at every cell including ghosts, the position of that cell for that field's staggered location: centre of cell for volume locations and face position for locations staggered in that direction, in the interior-based index; spacing times the number of cells is the length. "
  "Each coordinate varies only along its own direction.",
  ["inputs", "configurations"], "all meshes, field types, directions, ghost layouts and boundary flags",
  "The grid test checks one small mesh and a few field types.",
  [ST+"Grid.h", ST+"Grid.cpp", ST+"FVStaggeredLocationTypes.h"], [("coordinate offset from staggering", ST+"Grid.cpp: set_coord")],
  ["coordinate fields"])

p("W05", "Copies, views and wrapped storage have the documented sharing",
  "A field that owns its storage starts as a copy of the given values or zero and shares memory with no other live owner; copy construction and windowed construction give views sharing the original memory; field-to-field assignment copies all cells and never aliases; a field wrapping caller storage reads and writes precisely that storage. "
  "Destroying any of them releases owned storage exactly once and never the caller's, and remaining views or owners are unaffected.",
  ["histories", "inputs"], "all sequences of construction, copying, viewing, assignment, writing and destruction of fields over shared memory",
  "Tests check individual copies, not long histories of interleaved lifetimes.",
  [ST+"SpatialField.h"], [("ownership flag and shallow copies", ST+"SpatialField.h: constructors, operator=, destructor")],
  ["cell values through every alias, storage addresses, sanitizer reports"])

p("W06", "Compile-time index arithmetic and location traits agree with the grid",
  "The compile-time index triplets and their operations (sum, difference, product, negation, absolute value, positive part, comparisons, extraction, unit vectors, direction recovery) equal the same componentwise integer arithmetic, and print and convert to run-time vectors as themselves. Run-time index and real vectors follow the same componentwise arithmetic and comparison, and positions in a box and flat numbers, counted x fastest, convert into each other. "
  "Every staggered location's offset, face direction and boundary-extra traits are those of its documented position (half a cell back in each direction it is staggered in, twice being none), and volume and face type relations are mutually inverse.",
  ["inputs"], "all component values and pairs of triplets, all 16 staggered locations",
  "Only the handful of combinations used by stock operators is instantiated by tests; user-defined stencils and locations use any.",
  [ST+"IndexTriplet.h", ST+"Numeric3Vec.h", ST+"IntVec.h", ST+"FVStaggeredLocationTypes.h", ST+"FVStaggeredFieldTypes.h", S+"SpatialOpsDefs.h"],
  [("triplet templates", ST+"IndexTriplet.h"), ("location traits", ST+"FVStaggeredLocationTypes.h"), ("face/volume relations", ST+"FVStaggeredFieldTypes.h")],
  ["component values of instantiated triplets and traits"])

# ------------------------------------------------------------------ memory
p("M01", "Pooled storage: live blocks never overlap and accounting is exact",
  "Every block handed out by the memory pool is at least as large as requested, overlaps no other live block and keeps its contents until returned; returned blocks may be reused, and the counts of active and total blocks equal the number outstanding and the number ever created. "
  "Returned blocks are reused: repeating the same balanced round of requests and returns does not go on creating blocks.",
  ["histories"], "all interleavings of requests and returns of all sizes and element types",
  "The tests request and return a few blocks in order.",
  [ST+"MemoryPool.h", ST+"MemoryPool.cpp"], [("size-classed free lists with high-water counter", ST+"MemoryPool.cpp: Pool::get, Pool::put")],
  ["block addresses, contents, counters"])

p("M02", "Allocation failure leaves the storage pool correct and usable",
  "When an allocation request cannot be satisfied, the failure is reported to the caller, the counts of active and total blocks are as before the request, no outstanding block is affected, and later requests behave as if the failed one had never been made. "
  "The same holds when the failure occurs while constructing a field, a mask or a stored temporary.",
  ["fault_sequences"], "all positions of allocation failures in all request histories",
  "No test injects allocation failures.",
  [ST+"MemoryPool.cpp", ST+"SpatialFieldStore.h", ST+"SpatialField.h", ST+"BitField.h"], [("exception handling around allocation", ST+"MemoryPool.cpp: Pool::get")],
  ["exceptions, counters, subsequent requests"], hook="none (operator new is replaced in the harness)")

p("M03", "Counted field pointers keep a temporary alive exactly as long as needed",
  "A temporary field obtained from the field store stays valid, with private memory, as long as at least one counted pointer refers to it, and its memory is returned exactly once when the last one is destroyed, reassigned or detached; the reported use count equals the number of live pointers to it. "
  "This holds for every sequence of copying, assignment (including to itself, from or to an empty pointer), detaching and destruction, including the destruction of static pointers, fields and masks at process exit.",
  ["histories"], "all sequences of pointer operations over several temporaries and types",
  "The store test performs a few copies in scope order.",
  [ST+"SpatialFieldStore.h"], [("reference count and release on zero", ST+"SpatialFieldStore.h: SpatFldPtr"), ("store returning memory to the pool", ST+"SpatialFieldStore.h: SpatialFieldStore::restore_field")],
  ["use counts, field contents, pool counters, sanitizer reports"])

p("M04", "Temporaries from the field store match their prototype",
  "A temporary obtained from the field store for a prototype field has the requested location's window for the same domain, with the prototype's ghosts and boundary flags (or those asked for), sized so that it can appear in expressions together with other fields of that domain. "
  "A temporary obtained for a window has exactly that window; temporaries of the same prototype are mutually assignable.",
  ["inputs", "configurations"], "all prototype types, requested types, domain shapes, ghosts and boundary flags",
  "Tests use one or two types on a single shape.",
  [ST+"SpatialFieldStore.h"], [("window translation between locations", ST+"SpatialFieldStore.h: SpatialFieldStore::get")],
  ["window, ghosts and boundary info of the temporary"])

p("M05", "Concurrent use from several threads is free of data races and corruption",
  "With thread parallelism enabled, threads may concurrently obtain, use, copy and release temporaries of their own, construct and destroy fields and masks, query and change thread counts, and evaluate assignments on distinct destination fields without data races, and each sees only its own values. "
  "No execution of the library's own threaded assignment has a data race.",
  ["schedules"], "all interleavings of threads doing these operations",
  "The tests run from one thread and cannot observe races.",
  [ST+"SpatialFieldStore.h", ST+"MemoryPool.cpp", S+"ThreadPool.cpp", S+"NeboLhs.h", S+"threadpool/threadpool/detail/pool_core.hpp"],
  [("store mutex", ST+"SpatialFieldStore.h"), ("pool monitor", S+"threadpool/threadpool/detail/pool_core.hpp"), ("resource manager mutex", S+"ThreadPool.cpp")],
  ["race reports, per-thread value checks"])

# ------------------------------------------------------------------ threads
p("T01", "Every scheduled task runs exactly once and waiting means done",
  "Every task accepted by a thread pool is executed exactly once, waiting on the pool returns when, and only when, no task is pending or running (or at most the given number are), clearing removes only tasks that have not started, and shutting a pool down first completes what its policy promises. "
  "The effects of finished tasks are visible to the thread that waited. A looped task is repeated, with at least the requested pause before each turn, until it declines.",
  ["schedules", "histories"], "all interleavings of producers, workers and waiters, including tasks that schedule tasks",
  "The thread-pool tests schedule independent tasks from one thread and sleep.",
  [S+"threadpool/threadpool/detail/pool_core.hpp", S+"threadpool/threadpool/pool.hpp", S+"ThreadPool.h"],
  [("task queue under one monitor", S+"threadpool/threadpool/detail/pool_core.hpp: schedule, execute_task, wait"), ("shutdown policies", S+"threadpool/threadpool/shutdown_policies.hpp")],
  ["per-task execution counts, state seen after wait"])

p("T02", "Tasks start in the order the pool's scheduling policy promises",
  "With one active worker, a first-in-first-out pool starts tasks in submission order, a last-in-first-out pool in reverse order of those pending, and a priority pool in order of decreasing priority among those pending. "
  "With several workers, a task never starts after a task the policy ranks behind it has been removed from the pending set while both were pending.",
  ["schedules", "histories"], "all submission histories and priorities (including ties)",
  "Only FIFO throughput is exercised by tests.",
  [S+"threadpool/threadpool/scheduling_policies.hpp", S+"threadpool/threadpool/task_adaptors.hpp"], [("scheduler containers", S+"threadpool/threadpool/scheduling_policies.hpp")],
  ["order in which tasks record their start"])

p("T03", "Pool resizing never strands tasks, and limits are respected",
  "After any sequence of changes of the pool capacity and of the active-thread limit, made while idle or while tasks are queued and running, all accepted tasks still complete, the number of worker threads settles at the requested capacity (at least one) and no more tasks run at once than the active limit and capacity allow once the change has settled. "
  "Queries report the values set, with requests below one treated as one and active limits above the capacity treated as the capacity.",
  ["schedules", "histories", "configurations"], "all sequences of capacity and limit changes interleaved with scheduling and running tasks",
  "The pool test changes sizes a few times while idle and times the result.",
  [S+"ThreadPool.cpp", S+"SpatialOpsTools.h", S+"threadpool/threadpool/detail/pool_core.hpp", S+"threadpool/threadpool/size_policies.hpp"],
  [("worker termination and activation conditions", S+"threadpool/threadpool/detail/pool_core.hpp: execute_task, resize, resize_active"), ("resource manager", S+"ThreadPool.cpp")],
  ["task completion, worker counts, concurrency high-water mark"])

p("T04", "Semaphores conserve permits and never lose a wake-up",
  "The number of completed waits on a semaphore never exceeds its initial count plus the number of posts, and whenever permits remain a waiting thread proceeds. "
  "Everything done before a post is visible after the wait it releases.",
  ["schedules"], "all interleavings of posting and waiting threads",
  "The semaphore is only exercised indirectly with the same count of posts and waits.",
  [S+"Semaphore.h"], [("mutex, condition variable and predicate loop", S+"Semaphore.h: post, wait")],
  ["history of posts and completed waits"])

p("T05", "Futures deliver exactly their task's result",
  "A value-returning task scheduled through a future runs exactly once, and getting, calling, waiting on, or successfully timed-waiting on any copy of that future, from any thread, returns only after the task has finished, with its value and its effects visible; a future is ready exactly from then on, also after the pool is gone. "
  "A cancellation requested while the task is pending is accepted and keeps it from running; one requested after it finished is refused and leaves the value. None of these operations races with another.",
  ["schedules", "histories"], "all interleavings of workers, observers and cancellers, all result types and pools",
  "No test uses futures; ordering and visibility depend on the schedule.",
  [S+"threadpool/threadpool/future.hpp", S+"threadpool/threadpool/detail/future.hpp", S+"threadpool/threadpool/pool_adaptors.hpp"],
  [("shared result with monitor and flags", S+"threadpool/threadpool/detail/future.hpp"), ("scheduling through a future", S+"threadpool/threadpool/future.hpp: schedule")],
  ["returned values, run counts, visibility, verdicts of cancel"])

# ------------------------------------------------------------------ others
p("U01", "Field comparison helpers decide exactly their stated tolerance",
  "The field comparison functions (exact, relative, absolute and units-in-last-place, field against field and scalar against field) return true exactly when every cell of the window satisfies the stated tolerance, and the negated forms return exactly the opposite. "
  "They are insensitive to where in the field a difference lies and do not modify their arguments.",
  ["inputs"], "all field contents, tolerances (zero, negative, huge), positions of differences and window layouts",
  "Tests compare mostly constant fields with differences everywhere.",
  [ST+"FieldComparisons.h"], [("per-cell comparison loops", ST+"FieldComparisons.h")], ["return values"])

p("U02", "Lagrange interpolation and derivatives are exact on polynomials",
  "For any strictly increasing set of points, any admissible order of at least one and any location inside or outside the range, the interpolant reproduces every polynomial up to that order and the derivative reproduces its derivative (up to rounding), using consecutive in-range points that bracket or are nearest to the location. "
  "The coefficient form gives the same value as direct evaluation, with interpolation weights summing to one and derivative weights to zero.",
  ["inputs"], "all point sets, orders, locations (nodes, end points, outside) and polynomials",
  "The test uses one function on one point set.",
  [ST+"onedim/LagrangePoly.cpp", ST+"onedim/LagrangePoly.h"], [("stencil selection and coefficients", ST+"onedim/LagrangePoly.cpp: get_bounds, get_interp_coefs_indices, get_derivative_coefs_indices")],
  ["interpolated values, coefficient vectors"])

p("U03", "Particle-mesh transfer is the overlap average and conserves totals",
  "For particles whose extent lies within the mesh, transferring a mesh field to particles gives the overlap-weighted average of the cells each particle covers, and transferring particle values to the mesh distributes each value among covered cells in proportion to overlap, conserving its total. "
  "This holds for any uniform one-dimensional mesh origin and spacing, particle positions and sizes, and particles outside the mesh are rejected rather than corrupting memory.",
  ["inputs"], "all uniform meshes, particle counts, positions and sizes, including edges aligned with cell faces",
  "The test places one particle on one mesh.",
  [S+"particles/ParticleOperators.h"], [("overlap walk over cells", S+"particles/ParticleOperators.h: apply_to_field")], ["particle and mesh values"])

p("U04", "Point extraction and insertion move exactly the selected values",
  "Extracting points from a field yields the field's values at the selected locations in order, inserting writes exactly those locations and nothing else, and extraction after insertion is the identity for distinct locations. "
  "Selection by index list and by non-zero marker field agree.",
  ["inputs"], "all point selections and fields",
  "The test uses one selection on one field.",
  [S+"pointfield/PointOperators.h"], [("index list", S+"pointfield/PointOperators.h")], ["field memory before/after"])

p("U05", "Exported field data reads back as the field",
  "The file written for a field lists every cell of the chosen region (interior or including ghosts) exactly once in storage order, such that reading it back reproduces each value to the printed precision. "
  "Nothing else of the field is written and the field is unchanged.",
  ["inputs"], "all field shapes, types and contents",
  "The exporter's output is never read back by a test.",
  [S+"WriteMatlab.h"], [("stream output", S+"WriteMatlab.h")], ["file contents"])

p("U06", "Analytic field functions match their formulas and derivatives",
  "Each analytic function object writes, in every cell, the documented function of the coordinate fields, and its first and second derivative forms write the mathematical derivatives of that function. "
  "Coordinate fields are unchanged.",
  ["inputs"], "all parameter values, coordinates and function kinds",
  "The functions' derivative forms are not tested.",
  [S+"FieldFunctions.h"], [("evaluate, dx, d2x", S+"FieldFunctions.h")], ["field values"])

p("G01", "Results on an accelerator equal results on the CPU",
  "Assignments, reductions and masks evaluated on an attached accelerator give the same values as on the CPU, and copies between devices preserve contents.",
  ["inputs", "configurations"], "all expressions and device placements",
  "Needs accelerator hardware and its compiler.",
  [S+"NeboLhs.h", ST+"ExternalAllocators.h", ST+"CudaMemoryAllocator.h"], [("device code paths", S+"NeboLhs.h, "+ST+"*.cu")], ["device field values"])

ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
