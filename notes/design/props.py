T['C01']='''
`FTMachine.tla`: the tree as a state machine, one operator per public mutation (`Step`, and `Violates`
for what must be rejected).  Design: `MC_FTMachine` explores every history over 1 rank x 4 and 2 ranks x
2 coordinates and checks that all states are well-formed and that a rejected operation changes nothing.
Conformance: histories simulated by TLC (`FTGen`) and random ones (`harness/machine.py`: ~25 operations,
owned and free trees of 0-4 ranks, tuple coordinates, explicit defaults, default != 0, long fibers, both
formats; also trees that any constructor made and transforms changed before) applied to the library; each event has the tree before and after, and whether the call raised.
Clauses: sorted, paired, kinds, depth, rejectedChangesNothing, constructor, sourceWellFormed.  Unit tests
see single operations from clean trees; here operations are judged after arbitrary histories.'''
T['C02']='''
`Ranks.tla`: what the rank lists must say about the tree (each fiber once, owner, chain, root).  Design:
`MC_Ranks`, fibers attached to and removed from a tree with lists updated step by step always mirror it.
Conformance: the C01 histories on tensors, constructors, every transform, deep copies, `setRoot`, loops
whose bodies write into default sub-fibers; the book is projected with identities after each operation;
per-rank printing, footprint and statistics clearing are compared with the tree.'''
T['C03']='''
`PointMap.tla`: a tree accessed by paths is a map from points to values.  Design: `MC_PointMap` (tree
refines the map; search with any usable shortcut equals search without).  Conformance: histories of
reads (point, prefix, caller default), references, writes and in-place arithmetic through handles kept
for later, position lookups with shortcuts, interleaved with other mutations; the map is carried from
event to event, so a lost or leaked write shows at any later read.  A reference must stand at exactly one
point of the tree ("ref-shared").'''
T['C04']='''
`CoIter.tla`: what a fiber presents (by format and active range) and the truth tables of &, |, ^, -, n-ary
forms and leader-follower, with a *pattern* per delivered payload (own object / fresh default / tuple).
Design: `MC_CoIter`, the two-finger merge against the truth tables on all operand pairs.  Conformance:
all pairs of leaf fibers of 3 coordinates, interior ones of 2, random trees with tuple coordinates of
unequal arity (two or three operands, n-ary form), results of transforms, uncompressed ranks, runs of explicit defaults, skewed lengths, nested co-iteration of what
was delivered; payloads are identified by object, operands and ranks must be unchanged, lazy results
are iterated again, also after updates of what they were made from.'''
T['C05']='''
`Populate.tla`: a loop offers what the source presents; afterwards z is its previous content overridden by
what was written, declaratively, and clause by clause on observations.  Design: `MC_Populate` runs the
loop as executed (insert before the body, remove after it, level by level, rank lists included) for every
destination, source and body over 2x2 coordinates (271766 states).  Conformance: programs of nested
populate loops over all leaf pairs of 3 coordinates with all body assignments, small two-rank trees,
random programs of up to 3 ranks and on destinations and sources made by constructors and transforms; sources are fibers, co-iterations or other populates; each loop
is judged by itself (offered, shows-current, written, untouched, leftover, ranks, source-modified).'''
T['C06']='''
`Kernel.tla`: dense semantics of a sum of products and the loop nest over sparse operands.  Design:
`MC_Kernel`, an explicit loop nest with a populated output for every operand of five (thorough: seven)
einsums, every loop order, tiling and style, checked against the dense result.  Conformance: random
kernels of 1-3 operands and variables in the library's idiom, all loop orders of sampled expressions,
one- and two-level tiles (absolute and relative), operands with explicit zeros, empty sub-fibers, runs,
uncompressed ranks, and results of other kernels as operands; the content is compared with the dense
result computed by TLC.'''
T['C07']='''
`Traverse.tla`: what each mode yields, including project, prune, dense co-iteration and reference
variants.  Design: `MC_Traverse`, a cursor with saved positions refines the slice definition; projection
as executed refines its definition; termination under fairness.  Conformance: all leaf fibers of 4
coordinates x modes x ranges x legal start positions, random fibers up to 3 ranks, tuple coordinates,
lazy compositions, `getRange` by size and by end, chains of ranges each starting at the position the last one saved (with
lookups in between), `iterUncompressed`, and repeated traversal with perturbed saved positions.'''
T['C08']='''
`Split.tla`: starting boundaries and contents of partitions, halos, relative offsets, division operators.
Design: `MC_Split`, declarative partitions against a one-pass scan, losslessness, partitions of partitions
tile.  Conformance: leaf fibers of 4 coordinates exhaustively, random deeper fibers and tensors at every
depth, long fibers, values that are strings, tuples or floats, partitions of partitions, keyword
and positional calls; payload identity/content, active ranges of the lower
fibers, ranks above the split.'''
T['C09']='''
`Transform.tla`: each transform as a map on points, with reduction of collisions and the structure of
combined coordinates.  Design: `MC_Transform`, constructive tree transforms move every point to its
image and are inverted as documented, for every 2x2 tree.  Conformance: all small two-rank trees and
random tensors of up to 5 ranks, with explicit defaults and empty sub-fibers, split before flattening,
non-numeric values, several levels, all styles; round trips must restore an equal tensor.'''
T['C10']='''
`Alias.tla`: heaps, reachability, interference.  Design: `MC_Alias`, disjointness of reachable objects is
exactly what keeps any later history of mutations invisible on the other side.  Conformance: for every
value-returning operation the operands' complete projection before/after, the set of mutable objects
reachable from operand and result (fibers, boxes, rank objects, attributes; parts of composite values
too) which must be disjoint, and a later mutation of one side; about 60 observers and three image styles
must change nothing.'''
T['C11']='''
`Arith.tla`: rational arithmetic on values, elementwise maps on fibers.  Design: `MC_Arith`, the in-place
fiber algorithms as executed, element by element on boxes, also with both operands the same fiber.
Conformance: every operator x operand form x side over a grid of 15 values (exact), extremes at random;
fiber arithmetic on all leaf pairs over 3 coordinates and random trees; in-place == value-returning.'''
T['C12']='''
`Content.tla`: the set of (point, value) pairs, and equality by walking; `MC_Content` checks that they agree
and the laws of counting and pruning on all small trees.  Conformance: pairs of all small trees, random
trees against noisy variants (explicit defaults, empty fibers, other shapes, owners, formats) and nearly
equal ones; single objects for counting, emptiness, pruning, deep copies.'''
T['C13']='''
`Convert.tla`: nests, squeezing and expanding, a token stream with a stack, coin-flip construction.
Design: `MC_Convert`.  Conformance: all small nests, random ones of 1-4 ranks with extreme and non-numeric values
(strings, tuples, booleans), rank 0,
all-default nests, several defaults; YAML and dictionary round trips of trees and transformed tensors;
random construction over shapes, densities and seeds.'''
T['C14']='''
`Attrs.tla`: rank ids, shapes, defaults, formats, active ranges as functions of operand attributes and
transform.  Design: `MC_Attrs`, chains of transforms of attributes describe the points moved by the same
chain.  Conformance: every constructor, chains of transforms (also splits of splits), joins (co-iteration ids and ranges) and
lazy fibers (project, prune) with the attributes of every fiber of the result; transforms of free fibers
with shapes and active ranges of their own, and tensors made of them (`loose`: the result's shapes must cover what
it holds); coordinates by name, active iteration of results.  Known finding
project-rank-id.'''
T['C15']='''
`Metrics.tla` (the collector as a state machine), `MetricsApi.tla` (judge of call histories), `Kernel.tla`
(operations performed).  Design: `MC_Metrics` property Fresh: a session starts clean whatever ran before.
Conformance: kernels off / on / on again after other (aborted, unconsumed, suspended) sessions: same
results, same reports and traces, counts equal to operations observed in the bodies and to those the
model predicts; arithmetic judged operation by operation; random API histories; the same random
calls in a fresh collector and after other sessions give the same answers ("isolated").'''
T['C16']='''
`Access.tla`: which elements a pulled co-iteration touches, in order, with labels, projections and
destinations; `Metrics.tla` for buffering and consumption.  Design: `MC_Access` (unions touch everything,
intersections a prefix containing all matches), `MC_Metrics` (files and in-memory traces complete, ordered
and bounded for every flush threshold).  Conformance: loop nests of 1-3 ranks with every trace type the
kernel can emit, run again with other cache sizes and consumption patterns ("flush", "consumable");
`Fiber.trace`; nests in which every rank is traversed in its own mode, with start positions, reference
creation and fibers being looked at in the bodies ("trav"); API histories.'''
T['C17']='''
`Traffic.tla`: combination, filtering, buffet windows, furthest-next-use cache with bypass.  Design:
`MC_Traffic`, no policy does better than the cache rule, buffet machine = window rule, bounds, monotone
in capacity.  Conformance: random and kernel-recorded traces, 1-3 bindings, renamed ranks, staging area,
all layouts and capacities; fills, write-backs, temporary files, inputs untouched, row by row
for filterTrace and _combineTraces.  Known findings cache-tie, evict-own-rank.'''
T['C18']='''
`Footprint.tla`: bits of fibers, ranks, tensor and sub-trees from the raw tree.  Design: `MC_Footprint`
relates them on all small trees and formats.  Conformance: tensors from every constructor, transforms
and updates, with explicit empty fibers and absent children, random specifications with missing fields;
queries in random order, repeated, asked before the tree reaches its final state, and leaving the tree alone.'''
T['C19']='''
`Intersect.tla`: two-finger, skip-ahead, leader-follower, merging.  Design: `MC_Intersect` (all pairs of
lists, all batchings), `MC_Merge` (all sequences of lists).  Conformance: real consumable traces of
nests of 1-3 levels, also loops left early and done again, fed fiber by fiber, in one shot, in random groups; numSwaps over random trees,
depths, radices, latencies, and with the values replaced (they must not matter).'''
T['C20']='''
`Codec.tla`: the layout of each format and a decoder from the layout alone.  Design: `MC_Codec` (every
small tree under every descriptor, truncated arrays noticed), `MC_Scan` (the handle interface with its
binary search and count-left as a machine).  Conformance: random tensors under three of the 39
descriptors each; arrays decoded by TLC, fibers scanned through their handles (also interleaved), looked
up, sized.'''
