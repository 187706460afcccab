"""What each property's check builds and runs (see DESIGN.md)."""
PROPS = {}

def simple(src, variants_q, variants_t=None, shards=4, scale_t=8, seeds_t=3, **kw):
    """the same harness under several builds; thorough: more cases, seeds, builds"""
    name = src.split(".")[0]
    def jobs(tier, seed, gen):
        out = []
        for v in (variants_q if tier == "quick" else (variants_t or variants_q)):
            j = {"name": name, "srcs": [src], "variant": v, "shards": shards}
            j.update(kw)
            if tier == "thorough":
                j["scale"] = kw.get("scale", 1) * scale_t; j["seeds"] = seeds_t; j["timeout"] = 800
            out.append(j)
        return out
    return jobs

PROPS["W02"] = dict(
    jobs=simple("w02.cpp", ["sa"], ["sa", "sn", "sc"], scale=10),
    rule="random windows (offsets, embedding blocks, extents of one) with every cell checked against the x-fastest formula, and random admissible splits with per-cell cover counts; a case is distinct by its full geometry, and a split is non-trivial when it has more than one piece",
    min=10000, require={"cells": 50000, "pieces": 20000})
PROPS["W01"] = dict(
    jobs=simple("w01.cpp", ["sa", "sn"], ["sa", "sn", "sc"], scale=8),
    rule="random field layouts (ghosts, extra cells, embedding blocks, sub-window views) and, per layout, full forward and reverse traversals plus random routes of increments, jumps, sums, differences and subscripts checked against position arithmetic on the raw block; distinct by layout and view",
    min=2000, require={"moves": 100000, "cells": 100000})
PROPS["W03"] = dict(
    jobs=simple("w03.cpp", ["sa"], ["sa", "sn", "sc"], scale=10),
    rule="random ghost counts and unlimited counts through every ghost operation against integer arithmetic; for each of the 16 staggered locations random domains, ghosts and boundary flags against the documented extents, followed by sequences of valid-ghost resets with contents checked; distinct by operands or layout",
    min=5000, require={"windows": 1000, "resets": 4000, "ghost-ops": 50000})
PROPS["W04"] = dict(
    jobs=simple("w04.cpp", ["sa"], ["sa", "sn", "sc"], scale=10),
    rule="for each of the 16 staggered locations, random meshes, ghosts, boundary flags, embedded windows and reduced valid ghosts; every cell of the three coordinate fields compared with spacing*(index + 0 or 1/2) and everything outside the visible window required untouched; distinct by location, layout and lengths",
    min=900, require={"cells": 100000})
PROPS["W05"] = dict(
    jobs=simple("w05.cpp", ["sa", "ta"], ["sa", "ta", "sn", "sc"], scale=6),
    technique="runtime monitoring: random ownership histories under address/undefined-behaviour sanitizers with a shadow memory model checked after every step",
    rule="random histories of owning, wrapping, copy-viewing, window-viewing, assigning, writing and destroying fields; after every step every live handle is compared cell by cell with a shadow model, live blocks must not overlap and the pool's active count must equal the live owners; distinct by operation sequence and layouts",
    min=1500, require={"steps": 20000, "assigns": 1000, "destroyed": 3000, "huge-domains": 20})

def w06(tier, seed, gen):
    return [{"name": "w06_%d" % k, "srcs": ["w06.cpp"], "variant": v, "shards": 1, "flags": "-DSALT=%d" % (seed * 16 + k)}
            for k in range(1 if tier == "quick" else 6) for v in (["so"] if tier == "quick" else ["so", "sa"])]
PROPS["W06"] = dict(
    jobs=w06,
    technique="runtime monitoring: a generated population of compile-time computations read back at run time and compared with integer-vector arithmetic, under address/undefined-behaviour sanitizers",
    rule="all 729 pairs of triplets with components -1, 0, 1 and 400 pseudo-random pairs (components up to 100000) through every compile-time operation; the three directions; the offsets, face directions and boundary extras of the 16 staggered locations derived from their names; the volume/face relations; random run-time integer and real vectors through every operation against plain arrays, and random boxes with every cell numbered; a case is one pair, row, direction, location, pair of vectors or box",
    min=400, require={"triplets": 5000, "numbers": 5000, "vector-ops": 500000, "box-cells": 10000})

def generated(which, quick=("so", "to")):
    def jobs(tier, seed, gen):
        import sys, os
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
        import gen_exprs
        out = []
        for k, p in getattr(gen_exprs, which)(tier, seed, gen):
            for v in (quick if tier == "quick" else ["so", "to", "s2"]):
                out.append({"name": "%s_%d" % (which, k), "srcs": [p], "variant": v, "shards": 1, "scale": 1 if tier == "quick" else 6, "timeout": 150 if tier == "quick" else 800})
        return out
    return jobs

PROPS["N01"] = dict(
    jobs=generated("n01"),
    technique="runtime monitoring: generated expression programs run against a scalar reference evaluated on every cell, under address/undefined-behaviour sanitizers",
    rule="every operator and function crossed with every pair of operand kinds (scalar, field, expression, single-value field, single-value expression) plus random expression trees; each program runs on many random layouts, contents (including NaN, infinities, signed zeros, ties) and staggered types, and every cell is compared with the same formula evaluated on scalars; distinct by program and layout, non-trivial when more than one cell was compared",
    min=10000, require={"cells": 200000})
PROPS["N05"] = dict(
    jobs=generated("n05"),
    technique="runtime monitoring: generated conditional programs run against a first-match scalar reference on every cell, under address/undefined-behaviour sanitizers",
    rule="every one- and two-clause combination of condition kind (boolean, field comparison or logical combination, mask) and value kind (scalar, field, expression), every comparison with every operand kind, every logical combination, and random sequences of three to six clauses; each runs on random layouts and truth patterns and every cell is compared with the first clause that holds; distinct by program and layout",
    min=10000, require={"cells": 200000})
PROPS["N06"] = dict(
    jobs=simple("n06.cpp", ["so", "to"], ["so", "to", "sa", "sn", "tn"], shards=4),
    rule="random point sets (empty, full, corners, duplicates) over random layouts, embedded and reduced windows: every cell queried, forward, backward and jumping iteration against the point set, copies, sub-windows and reshapes; masked assignments compared with the whole destination block; shifted masks between cell and face locations against the geometric adjacency; distinct by layout and points",
    min=2500, require={"queries": 100000, "moves": 100000, "masked-cells": 10000, "shift-cells": 50000, "subwindows": 2000})
PROPS["N02"] = dict(
    jobs=simple("n02.cpp", ["so", "to"], ["so", "to", "s2", "tn"], shards=4),
    rule="22 programs (pointwise, conditional, masked, single and nested stencils over eight field types) on random domains, per-face ghosts, boundary flags, valid-ghost resets and embedded windows, as full and interior assignments; all operand memory outside the valid region holds NaN, the written region must equal the model's region exactly and all other bytes of the destination block must be unchanged; distinct by layout of all thirteen fields",
    min=3000, require={"cells": 200000, "run": 2000})
PROPS["N03"] = dict(
    jobs=simple("n03.cpp", ["to", "tq"], ["to", "tq", "tn", "ta"], shards=4, perturb=True, timeout=90),
    technique="runtime monitoring: threaded execution under address/undefined-behaviour and thread sanitizers with injected delays, compared bit by bit with one-partition execution and a scalar reference",
    rule="22 programs on random layouts, each assigned with one partition and then 3 to 6 times with partition counts from 2 to 1000 under changing active limits and capacities, behind sleeping tasks already queued, with random yields and sleeps at every lock, unlock and wake-up; destination memory is compared bit for bit immediately after each statement, the first also with the scalar reference; distinct by program, layout and partition count",
    min=1500, require={"assignments": 8000, "limit-changes": 1000, "capacity-changes": 1000, "injected-delays": 5000})
PROPS["N04"] = dict(
    jobs=lambda tier, seed, gen: simple("n04.cpp", ["so", "to"], ["so", "to", "s2", "tn"], shards=4, scale=2)(tier, seed, gen) + generated("n04", ["so"])(tier, seed, gen),
    rule="a generated population of expressions, conditionals (with every kind of condition and value, including clauses that hold no field) and random trees, and: minimum, maximum, sum, norm, generic reduce (value and reference forms) and a recording fold, full and interior, of 21 expressions and of plain fields of all 16 locations (and single-precision ones) on random layouts; everything outside the valid region holds NaN, the multiset of values folded must be exactly the region's cells and every result match the scalar fold; distinct by layout and program",
    min=3000, require={"extreme": 3000, "float-reductions": 10000, "folded": 200000, "reductions": 20000})
PROPS["T01"] = dict(
    jobs=simple("t01.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=90, nolib=True),
    technique="runtime monitoring: recorded task histories under the thread and address sanitizers with injected delays and spurious wake-ups, judged by an exactly-once and wait-means-done oracle",
    rule="random histories on first-in-first-out, last-in-first-out and priority pools: tasks (some scheduling further tasks) submitted by one or several threads interleaved with full, threshold and timed waits, limit changes, copies of the handle, threshold waits while the test ends the tasks one at a time, clears with all workers held, tens of thousands of tasks queued behind held workers, and shutdown under the three policies; each task counts its starts and ends and writes a plain value the waiter reads; distinct by pool kind, sizes and random choices",
    min=400, require={"tasks": 20000, "waits": 500, "held-waits": 300, "bulk": 200000, "clears": 200, "cleared": 500, "injected-delays": 2000, "spurious-wakeups": 500})
PROPS["T02"] = dict(
    jobs=simple("t02.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=90, scale=3),
    technique="runtime monitoring: recorded start orders under the thread and address sanitizers with injected delays, checked online against the policy's ranking of the pending set",
    rule="tasks with random priorities queued while the workers are held and from inside running tasks; with one active worker (own pools, pools limited to one, and the library's own pools) the pending set at every start is known and the started task must be one the policy ranks first; with several workers fewer than W better-ranked tasks may still be unstarted; distinct by pool, sizes and random choices",
    min=600, require={"ordered": 20000, "injected-delays": 1000})
PROPS["T03"] = dict(
    jobs=simple("t03.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=120, scale=2),
    technique="runtime monitoring: random resize and limit histories under the thread and address sanitizers with injected delays, with concurrency high-water, settling and rendezvous oracles",
    rule="histories of task batches, capacity changes (including values below one), limit changes (below one and above the capacity) and waits on own pools, the library's two pools and the thread-count functions; no more tasks may run at once than the largest limit since the last idle point, all tasks complete, the worker count settles at the capacity, and afterwards exactly min(limit, capacity) tasks must meet at a rendezvous; distinct by history",
    min=700, require={"tasks": 20000, "capacity-changes": 1000, "limit-changes": 1000, "rendezvous": 1500, "raises": 40})
PROPS["T04"] = dict(
    jobs=simple("t04.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=120, nolib=True, scale=4),
    technique="runtime monitoring: post/wait histories under the thread and address sanitizers with injected delays and spurious wake-ups, against permit-conservation and liveness oracles",
    rule="batches of posts from several threads against several waiting threads with initial counts from -2 to 4 (after each batch exactly the available permits must have been taken and no more), bounded hand-off of plain values through two semaphores, stack semaphores used as join counters, and tens of thousands of permits piled up (from the initial count and from posts) before the first wait; distinct by sizes and random choices",
    min=600, require={"posts": 20000, "waits": 10000, "handoffs": 10000, "piled": 500000, "spurious-wakeups": 500, "injected-delays": 2000})
PROPS["T05"] = dict(
    jobs=simple("t05.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=120, nolib=True, scale=6),
    technique="runtime monitoring: recorded futures histories under the thread and address sanitizers with injected delays and spurious wake-ups, judged on run counts, values, visibility and cancellation verdicts",
    rule="tasks returning integers, doubles, strings and vectors scheduled through futures on first-in-first-out and last-in-first-out pools, each future observed by several threads through copies, get, call, wait, timed waits and polling, during the pool's life and after it; cancellations of pending tasks held behind a gate, of finished tasks, and racing with running ones; distinct by the case's random state",
    min=600, require={"futures": 5000, "gets": 1000, "waits": 1000, "polls": 1000, "timed-true": 1000, "timed-false": 200, "calls": 1000, "cancelled": 1000, "late-cancels": 5000, "race-refused": 100, "race-running": 50, "race-pending": 300, "injected-delays": 2000, "spurious-wakeups": 500})

PROPS["M01"] = dict(
    jobs=simple("m01.cpp", ["sa", "ta"], ["sa", "ta", "sn"], shards=4, scale=16),
    technique="runtime monitoring: random request/return histories under the address sanitizer with a shadow model of live blocks, contents and counts",
    rule="random histories of requests (sizes from nothing to thousands, around powers of two, and hundreds of thousands) and returns on the three element types, with every live block checked for overlap, its contents on return and the two counters after every step; repeated balanced rounds that must stop creating blocks; and fields, masks, temporaries and raw requests sharing the pools; distinct by history",
    min=500, require={"steps": 20000, "elements": 1000000, "reused": 5000, "created": 500, "rounds": 500, "large-requests": 600, "user-steps": 2000})
PROPS["M02"] = dict(
    jobs=simple("m02.cpp", ["sa", "ta"], ["sa", "ta", "sn"], shards=4, scale=6),
    technique="runtime monitoring: fault injection at every allocation of every acquisition under the address sanitizer, judged on exceptions, counters, leaks, contents and a twin run without the failure",
    rule="random histories of raw requests, fields, masks, temporaries and copies; each acquisition is repeated with its first, second, ... allocation failing until it succeeds, after each failure the exception, the counters, the number of blocks kept and all outstanding contents are checked; oversized requests fail for good; and forked twin processes with and without a failed request must serve the following requests identically; distinct by history",
    min=300, require={"failures": 5000, "granted": 2000, "twins": 200, "failed:double-block": 100, "failed:double-field": 100, "failed:mask": 100, "failed:double-temporary": 100})
PROPS["M03"] = dict(
    jobs=simple("m03.cpp", ["sa", "ta"], ["sa", "ta", "sn"], shards=4, scale=12),
    technique="runtime monitoring: random histories of counted-pointer operations under the address sanitizer with a shadow model of owners, contents and pool counts",
    rule="random histories over up to fifteen pointers: new temporaries, adopted heap fields with own or caller storage, copies, assignments (including to itself, from and to empty pointers, from NULL), detaching, writing and destruction in random order, after each of which every pointer's count, target and contents and the pool's active count are checked; plus containers and calls by value, and processes that exit while static objects still hold pointers, fields and masks; distinct by history",
    min=1500, require={"steps": 100000, "temporaries": 20000, "assigns": 5000, "self-assigns": 1000, "detaches": 3000, "empty-assigns": 2000, "raw-assigns": 2000, "exits": 150})
PROPS["M04"] = dict(
    jobs=simple("m04.cpp", ["so", "to"], ["so", "to", "s2", "tn"], shards=4, scale=4),
    rule="temporaries of each of the 16 locations for prototypes of each of the 16 locations on random domains, ghosts, boundary flags, embedded windows and reduced valid ghosts, compared with a field of the same domain built directly (window, interior, ghosts, boundary information), then assigned to each other and used in statements; distinct by pair and layout",
    min=1200, require={"temporaries": 5000, "cells": 100000, "statements": 2000})
PROPS["M05"] = dict(
    jobs=simple("m05.cpp", ["tt", "ta"], ["tt", "ta", "tn"], shards=4, perturb=True, timeout=150),
    technique="runtime monitoring: multi-threaded stress under the thread and address sanitizers with injected delays, with per-thread value checks",
    rule="two to six threads doing random mixes of creating, checking and destroying fields, masks and temporaries, threaded assignments, conditionals and reductions on fields of their own and from a shared source and mask, thread-count queries and changes and raw pool requests, and several threads' assignments in flight at once with partitions of very different lengths, with random yields, sleeps and spurious wake-ups at every lock operation; plus fresh processes whose threads make the first use of the singletons at once; distinct by random choices",
    min=150, require={"first-uses": 90, "overlapping": 2000, "own-fields": 2000, "temporaries": 2000, "masks": 2000, "assignments": 500, "shared-source": 200, "shared-mask": 200, "count-queries": 200, "limit-changes": 200, "capacity-changes": 200, "raw-blocks": 200, "injected-delays": 2000})

PROPS["U01"] = dict(
    jobs=simple("u01.cpp", ["sa"], ["sa", "sn", "sc", "ta"], scale=6),
    rule="pairs of fields on random layouts, visible windows and value classes (zeros, subnormals, large, NaN, infinities), differing in no cell, one or two single cells anywhere or everywhere by amounts on either side of the tolerance; every comparison form is called with random tolerances (zero, negative, huge) and compared with the tolerance restated per cell; pairs with different windows must be refused; distinct by layout, tolerance and differences",
    min=3000, require={"decisions": 40000, "expected-true": 10000, "expected-false": 10000, "refusals": 5000})
PROPS["U02"] = dict(
    jobs=simple("u02.cpp", ["sa", "sc"], ["sa", "sn", "sc"], scale=6),
    rule="random strictly increasing point sets (uniform, graded, 2 to 400 points, scales 1e-18 to 1e15), orders and locations (nodes, one ulp beside nodes, ends, midpoints, outside), in sequences on the same objects; stencils, weights, sums, values and reproduction of polynomials compared with long-double references; distinct by points, order and location",
    min=20000, require={"locations": 100000, "polynomials": 40000, "bracketed": 50000, "odd-side": 5000, "at-node": 10000})
PROPS["U03"] = dict(
    jobs=simple("u03.cpp", ["sa", "sn"], ["sa", "sn", "sc", "ta"], scale=10),
    rule="random uniform one-dimensional meshes (any origin, spacing 1e-15 to 1e15, along x, y or z, ghosts, boundary flags) and particles (within one cell, edges on faces, against the ends, covering the mesh): averages, per-cell deposits and totals compared with long-double overlap integrals; particles off the mesh by any amount must be refused without touching memory; distinct by mesh and particles",
    min=5000, require={"scaled": 1000, "particles": 20000, "covered-cells": 50000, "refusals": 4000, "non-uniform": 800})
PROPS["U04"] = dict(
    jobs=simple("u04.cpp", ["sa"], ["sa", "sn", "sc", "ta"], scale=10),
    rule="random fields (embedded windows, reduced valid ghosts, marks outside the visible window) and selections by marker (random densities and marker values) and by index list (any order, repetitions): extracted values compared with memory, the whole destination block compared after insertion, round trips; distinct by layout and selection",
    min=4000, require={"points": 50000, "listed": 30000, "round-trips": 2000, "special": 20000})
PROPS["U05"] = dict(
    jobs=simple("u05.cpp", ["sa"], ["sa", "sn", "sc", "ta"], scale=8),
    rule="random fields (embedded windows, reduced valid ghosts, boundary flags, float and double, extreme values, NaN and infinities) exported with and without ghosts, over new and existing files, in a scratch directory; the file is parsed and each entry compared with memory in storage order; distinct by layout",
    min=2000, require={"values": 50000})
PROPS["U06"] = dict(
    jobs=simple("u06.cpp", ["sa"], ["sa", "sn", "sc", "ta"], scale=10),
    rule="every function object and form with random parameters and coordinates on random layouts, from fields or from a patch and identifiers, and user functions on the two- and three-dimensional bases, every cell compared with the formula or its analytic derivative in long double within a rounding bound; distinct by function, parameters and layout",
    min=4000, require={"cells": 100000, "from-patch": 5000, "bases": 3000, "linear:dx": 200, "linear:d2x": 200, "sine:dx": 200, "sine:d2x": 200, "gaussian:dx": 200, "gaussian:d2x": 200, "hyperbolic-tangent:evaluate": 500})
PROPS["O04"] = dict(
    jobs=simple("o04.cpp", ["sa"], ["sa", "sn", "sc", "ta"], scale=5),
    technique="runtime monitoring: random registration and retrieval histories under the address sanitizer with a shadow map of identifiers and a count of every operator's births and deaths",
    rule="random histories over five operator types (two of them derived from others) of registering objects and assemblers, retrieving with and without identifiers, unknown and foreign identifiers, emptying, copying, assigning and destroying databases; after every step every registration is retrieved again as the same intact object; distinct by history",
    min=3000, require={"registered": 20000, "retrieved": 200000, "refused": 5000, "single": 1000, "not-single": 1000, "emptied": 2000, "copies": 2000})

def parted(src, parts, variants_q, variants_t, **kw):
    """one harness compiled in several parts"""
    name = src.split(".")[0]
    def jobs(tier, seed, gen):
        out = []
        for v in (variants_q if tier == "quick" else variants_t):
            for p in range(parts):
                j = {"name": "%s_p%d" % (name, p), "srcs": [src], "variant": v, "shards": 1, "flags": "-DPART=%d" % p, "stencils": True}
                j.update(kw)
                if tier == "thorough":
                    j["scale"] = kw.get("scale", 1) * 8; j["seeds"] = 3; j["timeout"] = 800
                out.append(j)
        return out
    return jobs

PROPS["O01"] = dict(
    jobs=parted("o01.cpp", 4, ["so", "to"], ["so", "to", "s2"]),
    rule="each of the 131 registered operator types, retrieved from a database built for random mesh sizes and lengths (also the reduced-dimension box filters and two-point operators with random coefficients), applied in four forms (apply_to_field, call, inside a larger expression, to an expression) to random operands with random ghosts, boundary flags, embedded windows and reduced valid ghosts, everything outside the valid region NaN; every cell of the destination block compared with the combination of sources adjacent by geometry; distinct by operator, layouts and mesh lengths",
    min=1200, require={"cells": 200000, "applications": 4000, "pairs": 1000, "coefficients": 1000})
PROPS["O02"] = dict(
    jobs=parted("o02.cpp", 4, ["so", "to"], ["so", "to", "s2"]),
    rule="each of the 131 registered operators on random meshes (sizes, lengths over six decades, ghosts, boundary flags, embedded windows): applied to a random linear function sampled at the mesh's own coordinates, to a constant, and to random combinations (linearity), with every two-point difference summed along every line against the end values; and on each of the four volumes the Laplacian of a quadratic, the sum of the divergence of an inner flux and summation by parts; distinct by operator, layouts, lengths and function",
    min=1000, require={"cells": 200000, "linear": 1000, "linearity": 1000, "lines": 5000, "by-parts": 150})
def o03(tier, seed, gen):
    a = parted("o03.cpp", 4, ["so"], ["so", "to", "s2"])(tier, seed, gen)
    return a + simple("o03b.cpp", ["so"], ["so", "s2"], shards=2)(tier, seed, gen) + simple("o03b.cpp", ["to", "tq"], ["to", "tq", "tn"], shards=2, perturb=True)(tier, seed, gen)
PROPS["O03"] = dict(
    jobs=o03,
    technique="runtime monitoring: boundary conditions on random meshes under address/undefined-behaviour and thread sanitizers, judged by applying the operator afterwards and comparing the whole field block",
    rule="every two-point operator of the database with random meshes, sides, single points and lists of points (boundary planes and interior), values and previous contents; masked boundary statements for cell-to-face and cell-to-cell pairs in three directions, scalar, field and expression values, random partition counts; direct conditions at points and lists; the operator is applied afterwards and must give the value at every point, and all other bytes of the field's block must be unchanged; distinct by operator, layouts, points and value",
    min=3500, require={"conditions": 4000, "points": 10000, "checked": 1000, "lists": 800, "minus": 1000, "plus": 1000, "no-side": 600, "direct-points": 1500, "scalar": 200, "field": 200, "expression": 200})

def o05(tier, seed, gen):
    import sys, os
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
    import gen_stencils
    out = []
    for k, p in gen_stencils.o05(tier, seed, gen):
        for v in (["so", "to"] if tier == "quick" else ["so", "to", "s2"]):
            out.append({"name": "o05_%d" % k, "srcs": [p], "variant": v, "shards": 1, "scale": 4 if tier == "quick" else 20, "timeout": 150 if tier == "quick" else 800})
    return out
PROPS["O05"] = dict(
    jobs=o05,
    technique="runtime monitoring: generated user-defined stencils run against a per-cell weighted sum on poisoned operands, under address/undefined-behaviour sanitizers",
    rule="random stencil shapes (one to twelve points, offsets up to three cells, one-sided, repeated) with random coefficients, as coefficient, sum and average stencils between random pairs of the 16 locations; each on random domains, per-face ghosts just sufficient or larger, boundary flags, embedded windows and reduced valid ghosts, applied directly, to expressions, in sums, conditionals, nested, as interior assignments and inside folds; everything outside the operands' valid region is NaN; distinct by shape, layouts and coefficients",
    min=3000, require={"cells": 200000, "form:apply": 2000, "form:nested": 200, "form:interior": 2000, "form:conditional": 200, "folds": 4000})

PROPS["N07"] = dict(
    jobs=simple("n07.cpp", ["sa", "ta"], ["sa", "ta", "sc", "t0"], scale=3),
    technique="runtime monitoring: invalid requests injected into random field histories under address/undefined-behaviour sanitizers, with byte comparison of all memory involved and valid use afterwards",
    rule="random pairs of fields with different windows through assignment and every comparison; iterators (fields, interiors, masks; mutable and constant) jumped, stepped and subscripted to positions before, inside and after their window; random sub-window views; assignments whose boundary extra cells have or lack a valid source, directly and through stencils; unsupported memory types through every entry point; single-value shapes; coefficient indices. Each request must throw exactly when it is invalid, leave every byte and the pool counts as they were, and valid use must work afterwards; distinct by layouts and request, non-trivial when the request was invalid",
    min=2500, require={"rejections": 20000, "outside": 5000, "inside": 5000, "cutting-views": 300, "keeping-views": 200, "uncovered-extras": 400, "covered-extras": 200, "size-mismatches": 500, "memory-requests": 1500, "coefficients": 2000, "single-shapes": 60})
