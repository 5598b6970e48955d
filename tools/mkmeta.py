#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, quant, tests, files, mechanism, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note))


API = "the vertex indices kept per line (constdp.ConstDP.SimpleSet after SimplifyInstances / SimplifyFeatureClass)"
GRID = ("Generated-input search: no violation among the cases of a run. Lines lie on an integer grid, scaled by powers of two and shifted, "
        "so the oracle's predicates are exact; ")

P("C01", "Result is an in-order subsequence of the input with both ends",
  "For every input line, threshold, simplification type (DP or SED), combination of options, constraints, and mode (independent lines or feature class), simplification terminates without failing and the result consists of vertices of the input line, in input order, including the first and the last. Coordinates, including any third component, are taken over unchanged.",
  ["inputs", "configurations"], "every line of two or more vertices (with repeated vertices, self-crossings, closed, collinear, 2-D or 3-D), every option combination and constraint set, one line or many",
  "The tests run a few dozen fixed lines and compare against stored results; degenerate shapes, option combinations and feature classes are sampled a handful of times.",
  ["constdp/simplify.go", "constdp/fc_simplify.go", "constdp/fc_group.go", "constdp/node_aggregates.go", "decompose/decompose.go", "split/split.go"],
  [("recursive decomposition into ranges", "decompose/decompose.go"), ("regrouping of hulls per line", "constdp/fc_group.go")], [API],
  "property-based testing: generated lines x options, subsequence invariant on the result",
  GRID + "termination is judged by a 60 s limit on one case that takes milliseconds otherwise.")

P("C02", "Unconstrained DP never exceeds the threshold",
  "Without constraint options, every vertex dropped by DP simplification lies within the threshold distance of the segment that replaces its stretch of the line. This holds for the plain and for the squared offset score.",
  ["inputs"], "every line and threshold, as single line or feature class",
  "Tests compare stored index lists for a handful of lines and thresholds; none measures the distance of dropped vertices.",
  ["constdp/decompose.go", "decompose/decompose.go", "offset/dp.go", "constdp/node_aggregates.go", "merge/merge.go"],
  [("split at the farthest vertex while above threshold", "decompose/decompose.go"), ("merging of fragments only within threshold", "merge/merge.go")], [API],
  "property-based testing: distance invariant over generated lines", GRID + "distances compared with relative slack 1e-9 plus 1e-7 grid units.")

P("C03", "Unconstrained SED never exceeds the threshold",
  "Without constraint options, every vertex dropped by SED simplification of a trajectory (x, y, strictly increasing time) lies within the threshold of the time-synchronised position on the segment that replaces it. This holds for the plain and for the squared score.",
  ["inputs"], "every trajectory with strictly increasing times and every threshold",
  "Two stored SED results exist in the test-suite; no test measures synchronised distances.",
  ["offset/sed.go", "constdp/decompose.go", "decompose/decompose.go", "merge/merge.go"],
  [("synchronised offset", "offset/sed.go"), ("split while above threshold", "decompose/decompose.go")], [API],
  "property-based testing: synchronised-distance invariant over generated trajectories", GRID + "the synchronised position is computed in float64 from exact inputs.")

P("C04", "Constraints never push the result beyond three thresholds",
  "Under any combination of constraint options and any constraints, every input vertex stays within three times the threshold of the simplified line (DP), respectively of its time-synchronised position on it (SED). Constraints refine the plain result; they never license a coarser one beyond that slack.",
  ["inputs", "configurations"], "every line, option combination and constraint set",
  "Tests of constrained runs compare stored results on a few shapes and never bound the error of the result.",
  ["constdp/simplify.go", "constdp/simple_1.go", "constdp/node_aggregates.go", "merge/merge.go", "constrain/toself.go"],
  [("deformation only splits hulls", "constdp/simple_1.go"), ("merging limited by the score relation", "merge/merge.go")], [API],
  "property-based testing: error bound over generated lines x options x constraints",
  GRID + "three thresholds is the bound that splitting a range at a vertex that is not its farthest one leaves (a split at a constraint or junction vertex moves a chord end by at most one threshold; merging adds one).")

P("C05", "Geometric relation: intersections with constraints are preserved",
  "With the geometric relation option on, every stretch of an input line that is replaced by a segment has the same intersects/disjoint relation with every point, line and polygon constraint as that segment. This holds whatever other options are on.",
  ["inputs", "configurations"], "every line and every set of point, line and polygon (with holes) constraints, single lines or feature class, DP or SED",
  "Tests check a few hand-drawn lines and constraints; degenerate contact (touching at vertices, collinear overlap, folded lines) is not sampled.",
  ["constdp/validate.go", "constdp/simple_0.go", "constrain/bygeom.go", "relate/geom.go", "knn/neighbours.go"],
  [("context validation of each hull", "constdp/validate.go"), ("intersects test per constraint", "relate/geom.go")], [API],
  "property-based testing: exact intersection predicates before/after on generated maps", GRID + "constraints are points, lines and polygons on the same grid.")

P("C06", "Minimum distance to constraints is preserved",
  "With the distance relation option on, a stretch of an input line that keeps at least the minimum distance to a constraint is never replaced by a segment that comes closer to that constraint than the minimum distance. This holds whatever other options are on.",
  ["inputs", "configurations"], "every line, constraint set and minimum distance",
  "Tests check a few hand-drawn pairs at one minimum distance.",
  ["constdp/validate.go", "constrain/bymindist.go", "relate/dist.go", "ctx/ctx.go", "knn/neighbours.go"],
  [("distance validation of each hull", "relate/dist.go"), ("neighbour search by minimum distance", "knn/neighbours.go")], [API],
  "property-based testing: exact-input distance oracle before/after on generated maps", GRID + "distances compared with relative slack 1e-9 plus 1e-7.")

P("C07", "Homotopy: a line never moves across a constraint",
  "With the homotopy relation option on, no stretch of an input line is replaced by a segment across a constraint: each has the same intersects/disjoint relation with every constraint as its segment, and where disjoint the stretch can be deformed into the segment with the constraints (taken as points) as obstacles. This holds whatever other options are on.",
  ["inputs", "configurations"], "every line (winding, self-crossing) and constraint set",
  "Tests check a few hand-drawn lines; winding around obstacles and self-crossing stretches are not sampled.",
  ["homotopy/homotopy.go", "homotopy/chain.go", "homotopy/deform.go", "relate/dir.go", "relate/sidedness.go", "constrain/byside.go", "constdp/validate.go"],
  [("deformation of the chain to the segment", "homotopy/chain.go"), ("side relation", "relate/sidedness.go")], [API],
  "property-based testing: reduced crossing words (free group) as homotopy oracle", GRID + "each disjoint constraint stands for one of its own points.")

P("C08", "Avoidance of new self-intersections on one line",
  "With avoidance of new self-intersections on, two segments of a simplified line meet (consecutive ones: other than at their common vertex) only where the stretches of the input line they replace met. Simplification of a simple line therefore gives a simple line.",
  ["inputs", "configurations"], "every line, simple or not, every threshold, any other options, single or in a feature class, DP or SED",
  "Tests compare stored results of a few lines; folding of consecutive segments, collinear backtracking, and merges after deformation are not sampled (three defects of this kind were found and repaired).",
  ["constdp/simple_0.go", "constdp/simple_1.go", "constdp/node_aggregates.go", "constrain/bycls.go", "deform/cls.go", "deform/ln.go", "deform/contig.go", "deform/noncontig.go", "node/collapse.go"],
  [("selection and splitting of hulls that collapse or collide", "deform/"), ("re-validation of merged fragments", "constdp/node_aggregates.go")], [API],
  "property-based testing: exact segment-pair oracle before/after on generated lines", GRID + "pairs of segments that are both unchanged edges are not judged.")

P("C09", "Planar self-intersection vertices and junctions are kept",
  "With the planar self-intersection option on, every vertex whose position occurs more than once on the line is kept in the result at each of its occurrences. Junction vertices passed along with a line are kept as well, with the planar or the non-planar option on.",
  ["inputs", "configurations"], "every line that revisits vertices, every threshold, any other options, any junction list",
  "Tests check a few figure-eight lines; repeats at the extreme coordinate, in runs, and with other options are not sampled (one defect was found and repaired).",
  ["lnr/self.go", "constrain/toself.go", "constrain/byself.go", "constrain/split.go", "constdp/simplify.go"],
  [("sorted sweep for equal vertices", "lnr/self.go"), ("split at intersections", "constrain/split.go")], [API],
  "property-based testing: repeated-vertex oracle on generated lines", GRID + "equality of positions is exact.")

P("C10", "Non-planar self-crossings keep the segments that cross",
  "With the non-planar self-intersection option on, both end vertices of every input segment that crosses or touches another segment of the same line away from a common vertex are kept. This holds with or without the planar option.",
  ["inputs", "configurations"], "every self-crossing line, every threshold, any other options",
  "Tests check a few crossing lines, always with both options on (the option alone did nothing: found and repaired).",
  ["lnr/self.go", "constrain/toself.go", "constrain/split.go", "constdp/simplify.go"],
  [("segment index query for crossings", "lnr/self.go"), ("split at crossing segments", "constrain/split.go")], [API],
  "property-based testing: all-pairs exact crossing oracle on generated lines", GRID + "crossings are found over all pairs of segments with exact arithmetic.")

P("C11", "Shared vertices of a feature class are kept",
  "With the planar self-intersection option on, feature class simplification keeps every vertex whose position occurs on two lines of the class, or twice on one, at each of its occurrences. The topology of a network or coverage at its shared vertices is thus preserved.",
  ["inputs", "configurations"], "every feature class of lines with shared vertices, any other options",
  "Tests simplify two or three stored contour/network sets and compare results on them.",
  ["lnr/fc.go", "lnr/common.go", "constdp/fc_simplify.go", "constrain/toself.go"],
  [("sorted sweep over all vertices of the class", "lnr/fc.go"), ("junction table handed to each line", "constdp/fc_simplify.go")], [API],
  "property-based testing: shared-vertex oracle on generated feature classes", GRID + "classes of 2 to 25 lines.")

P("C12", "Feature class: no new intersections between lines",
  "With avoidance of new intersections on, segments of two different simplified lines of a feature class meet only where the stretches of the input lines they replace met. Lines that were disjoint stay disjoint.",
  ["inputs", "configurations"], "every feature class (contours, networks, coverages, random), any other options",
  "Tests simplify two or three stored sets; index collisions between lines of equal ranges were not met (one defect was found and repaired).",
  ["constdp/fc_simplify.go", "constdp/simple_0.go", "deform/cls.go", "constrain/bycls.go", "constdp/fc_group.go", "hdb"],
  [("hulls of all lines in one index, deformed until none collides", "constdp/fc_simplify.go")], [API],
  "property-based testing: exact segment-pair oracle between lines of generated classes", GRID + "classes of 2 to 25 lines.")

P("C13", "Existing crossings are not lost or moved beyond the limit",
  "With avoidance of new intersections on, stretches (of one line or of two lines of a feature class) that met in the input still meet after they are replaced by segments. Their crossing is then not farther than the non-planar displacement limit from any crossing of the input stretches, unless the segments share an end vertex.",
  ["inputs", "configurations"], "every self-crossing line and feature class, every displacement limit, any other options",
  "No test measures the displacement of a crossing; loss of crossings is checked on a few stored lines.",
  ["deform/cls.go", "deform/ln.go", "deform/noncontig.go", "constdp/simple_0.go", "constrain/bycls.go"],
  [("comparison of crossings of stretches and segments", "deform/noncontig.go")], [API],
  "property-based testing: exact crossing oracle with displacement bound", GRID + "at least one of the two stretches must have lost a vertex to be judged; consecutive stretches are exempt.")

P("C14", "Results do not depend on schedules",
  "Simplifying the same lines with the same options gives the same result on every run, for every number of processors and every interleaving of the internal workers. This covers independent lines and feature classes.",
  ["schedules", "inputs"], "every schedule of the eight workers, GOMAXPROCS 1 to 8, every batch or class, any options",
  "Tests run each case once under one schedule.",
  ["constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/fc_group.go", "deform/cls.go"],
  [("results collected into sets, applied after the workers are done", "constdp/simple_0.go")], [API],
  "property-based testing: differential between runs under varied processor counts", GRID + "schedules are sampled by the Go scheduler at 1-8 processors, not enumerated.")

P("C15", "Independent lines do not influence each other",
  "A line simplified in a batch of independent lines gives the same result as simplified alone, whatever the other lines (their options, constraints and scores included) and the order of the batch. A feature class of lines that are far apart gives the same results too.",
  ["inputs", "histories"], "every batch, every permutation, any options and constraints",
  "Tests simplify lines one at a time or compare one fixed batch.",
  ["constdp/fc_simplify.go", "constdp/simplify.go", "constdp/constructor.go", "constdp/fc_group.go"],
  [("per-line hull index", "constdp/simplify.go"), ("grouping of hulls by their line", "constdp/fc_group.go")], [API],
  "property-based testing: metamorphic relation batch / alone / permuted", GRID + "batches of up to 25 lines.")

P("C16", "Options that cannot bear on a line change nothing",
  "Relations without constraints, or with constraints farther from the line's bounding box than the minimum distance, self-intersection options on a line that never meets itself, and avoidance on a line that runs monotonically in x or y, leave the result as without those options. A constraint option therefore costs detail only where it applies.",
  ["inputs", "configurations"], "every line and set of idle options",
  "No test compares runs with and without idle options.",
  ["constdp/validate.go", "knn/neighbours.go", "constrain/toself.go", "constdp/simple_0.go", "constdp/simplify.go"],
  [("neighbour search limits context to what is near", "knn/neighbours.go"), ("deformation only on invalid hulls", "constdp/simple_0.go")], [API],
  "property-based testing: metamorphic relation with idle options removed", GRID + "four kinds of idleness are generated.")

P("C17", "Results do not depend on the coordinate frame",
  "Scaling lines, constraints and distances by a power of two leaves the kept vertices as they were. For DP without avoidance, and where no two vertices tie and none lies at the threshold, so does shifting, mirroring and swapping the axes.",
  ["inputs"], "every case, scales 2^-5 to 2^6 (2^-30 to 2^30 without options), whole-number shifts to several million, all symmetries of the square",
  "Tests use the coordinates they were written with.",
  ["offset/dp.go", "offset/sed.go", "relate", "deform", "homotopy", "hdb", "lnr/self.go"],
  [("all predicates are relative", "offset/dp.go")], [API],
  "property-based testing: metamorphic relation between coordinate frames", GRID + "cases where rounding could decide are compared under scaling only.")

P("C18", "Constraint order, repetition and direction do not matter",
  "The result is the same when the constraints are given in another order, some of them twice, or their lines and rings digitised in the opposite direction. Constraints are a set.",
  ["inputs"], "every line, constraint set, permutation, repetition and reversal, any options",
  "Tests give constraints in one order.",
  ["constdp/constructor.go", "constdp/validate.go", "knn/neighbours.go", "relate", "homotopy"],
  [("constraints in a spatial index", "constdp/constructor.go")], [API],
  "property-based testing: metamorphic relation on constraint lists", GRID + "up to 45 constraints.")

P("C19", "Inputs are left alone, simplification can be repeated",
  "Simplification leaves the coordinates of its input lines, its constraints and its options as they were; simplifying the same objects again gives the same result, and, after a change of their options or constraints, what new objects give. The hulls it leaves on each line cover the line from end to end, each once, in order, and agree with the result.",
  ["inputs", "histories"], "every case, any options, single or feature class",
  "Tests simplify each object once and do not compare inputs afterwards.",
  ["constdp/simplify.go", "constdp/fc_group.go", "constdp/node_aggregates.go", "merge/merge.go", "constdp/fc_simplify.go"],
  [("coordinate views share the input's points, joined stretches are copies", "merge/merge.go"), ("state is reset before a run", "constdp/simplify.go")],
  [API, "constdp.ConstDP.Hulls"],
  "property-based testing: before/after comparison and repeated runs", GRID + "coordinates are compared bit by bit.")

P("C20", "Plain Douglas-Peucker equals its definition",
  "Plain (unconstrained) simplification keeps exactly what the recursive definition keeps: a range is split at a vertex of maximal offset precisely when that offset exceeds the threshold. Hence a larger threshold keeps a subset, simplifying the result again changes nothing, and the constrained simplifier without options keeps no vertex that the plain one drops.",
  ["inputs", "histories"], "every line, every pair of thresholds, DP and SED, plain and squared scores",
  "Tests compare stored results of a few lines with the same code's earlier output.",
  ["dp/dp.go", "decompose/decompose.go", "offset/dp.go", "offset/sed.go", "constdp/decompose.go", "constdp/node_aggregates.go"],
  [("recursion on score and relation", "decompose/decompose.go")], ["dp.DouglasPeucker.Simple()", API],
  "property-based testing: recursive reference definition, metamorphic nesting and idempotence", GRID + "vertices tied within 1e-7 may be chosen either way.")

P("C21", "Splitting and joining ranges and stretches is lossless",
  "Splitting a range or a stretch of a line at any positions (unsorted, repeated, outside) gives exactly the pieces between the distinct inner positions, each with exactly the vertices of its range; joining neighbouring pieces in either order gives back the stretch, and pieces that do not meet are refused. Neither changes the caller's positions, the pieces, or the line.",
  ["inputs", "histories"], "every range, cut list, stride and stretch, also of pieces that do not start at the first vertex",
  "Tests split a few fixed ranges.",
  ["rng/split.go", "rng/stride.go", "rng/rng.go", "rng/contig.go", "rng/array.go", "split/split.go", "merge/merge.go"],
  [("split of ranges", "rng/split.go"), ("coordinate slices of pieces", "split/split.go"), ("joining of coordinates", "merge/merge.go")],
  ["rng.Rng.Split/Stride", "split.AtIndex/AtScoreSelection", "merge.Range/ContiguousCoordinates"],
  "property-based testing: set-based reference and round trip split/join", GRID + "strides 1 to 5.")

P("C22", "Offset scores match their definition",
  "Each offset score of a stretch of a line is the largest perpendicular-to-segment (DP) or time-synchronised (SED) distance of its inner vertices from the segment between its ends, reported at an inner vertex that attains it; the squared scores are the squares. A stretch of a longer line scores as the same vertices on their own, and equal time stamps are handled without failing.",
  ["inputs"], "every stretch of every line, closed stretches and equal times included",
  "Tests score a few fixed lines; equal end times gave not-a-number (found and repaired).",
  ["offset/dp.go", "offset/sed.go"], [("maximum over inner vertices", "offset/dp.go")], ["the four score functions of package offset"],
  "property-based testing: brute-force reference on exact inputs", GRID + "squared and synchronised scores are compared within 1e-5.")

P("C23", "Self-intersection and junction detection is complete and exact",
  "Detection reports exactly the groups of equal vertices of a line, exactly the pairs of segments that meet away from a vertex of both, and, for a feature class, exactly the vertices that share their position with another vertex of the class. Either detection works without the other.",
  ["inputs", "configurations"], "every line and feature class",
  "Tests check a handful of lines.",
  ["lnr/self.go", "lnr/fc.go", "lnr/common.go", "lnr/vertices.go", "ctx/ctx.go", "ctx/ctxs.go"],
  [("sorted sweeps", "lnr/self.go"), ("segment index", "lnr/self.go")], ["lnr.SelfIntersection", "lnr.FCPlanarSelfIntersection"],
  "property-based testing: brute-force reference over all pairs", GRID + "brute force over all pairs of vertices and of segments.")

P("C24", "The spatial index holds exactly what was put in",
  "After any history of bulk loads, single loads, removals, re-insertions and clears, the index returns exactly the items present: as a whole, for every box query, and for every collision query. Removing an absent item changes nothing.",
  ["histories", "inputs"], "every operation history at every node capacity, with sorted, clustered, repeated, degenerate and huge batches",
  "Tests load one data set and remove from it in one order.",
  ["hdb/load.go", "hdb/build.go", "hdb/insert.go", "hdb/remove.go", "hdb/search.go", "hdb/collides.go", "hdb/select.go", "hdb/split.go", "hdb/clear.go"],
  [("OMT bulk loading", "hdb/build.go"), ("condensing on removal", "hdb/remove.go")], ["hdb.Hdb Load/Remove/Clear/All/Search/Collides/IsEmpty"],
  "stateful property-based testing: operation histories against a map model", "Generated-input search over histories; boxes have whole-number coordinates.")

P("C25", "Nearest-neighbour queries are exact and ordered",
  "At every point of an index history, a nearest-neighbour query returns items by non-decreasing distance, exactly as many as the limit and the predicate allow, and none that is farther while a nearer admissible one is left out. This holds with and without limit, selection and early stop.",
  ["histories", "inputs"], "every history, query box, limit, reach and selection",
  "Tests query one data set with a few limits.",
  ["hdb/knn.go", "hdb/kobj.go", "knn/knn.go"], [("priority queue over nodes and items", "hdb/knn.go")], ["hdb.Hdb.Knn"],
  "stateful property-based testing: sort-based reference for every query", "Generated-input search over histories; distances compared within 1e-9.")

P("C26", "Neighbour searches find everything near and nothing else",
  "Searching for constraints near a piece of a line finds exactly those within the given distance of its convex hull; searching for neighbouring pieces finds exactly those whose hulls touch it. The polygon of a bounding box has exactly the box's corners.",
  ["inputs"], "every line, cutting into pieces, constraint set and distance",
  "Tests check a handful of hulls and objects.",
  ["knn/neighbours.go", "knn/knn.go", "hdb/knn.go", "ctx/ctx.go", "box/box.go"],
  [("index search with distance predicate", "knn/neighbours.go")], ["knn.ContextNeighbours", "knn.NodeNeighbours", "box.MBRToPolygon"],
  "property-based testing: all-pairs distance reference", GRID + "the search distance is off the grid so that ties at the limit do not arise.")

P("C27", "Relation verdicts on a stretch and its segment are right",
  "The geometric verdict on a stretch and its segment is positive exactly when they have the same intersects relation with every constraint, and the minimum-distance verdict exactly when no constraint is brought closer than the minimum distance. The homotopy verdict is never positive when the segment crosses a constraint to the other side, and is positive when no constraint touches the hull of the stretch, or when the stretch can be pulled straight: its inner vertices dropped one after the other, each while the triangle with its neighbours is free of constraints.",
  ["inputs"], "every stretch of every line and every set of up to ten point, line or polygon constraints",
  "Tests check a few hand-drawn stretches.",
  ["relate/geom.go", "relate/dist.go", "relate/dir.go", "relate/sidedness.go", "homotopy/homotopy.go", "homotopy/chain.go", "homotopy/deform.go"],
  [("relation per constraint", "relate/geom.go"), ("chain deformation", "homotopy/chain.go")], ["relate.IsGeomRelateValid / IsDistRelateValid / Homotopy"],
  "property-based testing: exact predicates, crossing words and an exact chain deformation as reference", GRID + "homotopy verdicts in between may be conservative.")

P("C28", "Hulls, contiguity and merging of pieces are right",
  "The hull and box of every piece of a line are those of its vertices; previous and next pieces, touching and contiguity of pieces, and foldability against another piece that shares an end agree with exact geometry. Merging pieces of a given size with their neighbours leaves the line covered exactly once, never crosses a vertex that must stay, never exceeds the threshold, and passes over no pair that could be merged.",
  ["inputs"], "every line, cutting into pieces, set of fixed vertices and threshold",
  "Tests check a handful of hulls and one merge.",
  ["common/common.go", "node/node.go", "node/contig.go", "node/collapse.go", "merge/merge.go"],
  [("convex hull per range", "common/common.go"), ("merge of size-one fragments", "merge/merge.go")], ["common.CreateHulls", "node.Neighbours/IsContiguous/Collapsible", "merge.ContiguousFragmentsBySize"],
  "property-based testing: exact hull and intersection reference, partition invariant", GRID + "foldability is judged in the unambiguous cases (far end strictly inside or outside the hull, or on the segment).")

P("C29", "Node queues and lists lose, repeat and reorder nothing",
  "A node queue behaves as a double-ended list under any history of operations; with several producers and consumers at work nothing is lost or returned twice, and each producer's items keep their order. Node lists sort by position and give the sorted set of their end vertices.",
  ["histories", "schedules"], "every operation history and every interleaving of up to six producers/consumers",
  "Tests push and pop a handful of nodes from one goroutine.",
  ["node/queue.go", "node/nodes.go", "state/state.go"], [("locking around a deque", "node/queue.go")], ["node.Queue", "node.Nodes", "node.NodePtrs", "state.State"],
  "stateful property-based testing: list model, and multiset/order invariants under concurrency", "Generated-input search; schedules are sampled. Popping from an empty queue is outside the contract.")

P("C30", "The tool writes one feature per input line record, intact",
  "For every valid configuration the command line tool ends successfully and replaces the output file by one GeoJSON feature per linear input record, in input order, with the record's properties, its geometry type and part count, and per part an in-order subsequence of the input vertices with both ends (and third components). Other geometries and blank lines are skipped, and the input files are untouched.",
  ["inputs", "configurations"], "every input file of geometries and features (single and multi lines, nested properties, third components, blank lines, CRLF), every option set",
  "Only readers are unit-tested; no test runs the tool or reads its output.",
  ["main.go", "encode.go", "simplify.go", "cfg.go", "geometry/geojson.go", "geometry/geojson_geom.go", "geometry/pln.go"],
  [("grouping of parts by record", "encode.go"), ("properties carried as text", "geometry/geojson.go")], ["the output file and exit code of the built tool"],
  "property-based testing: end-to-end round trip through the built binary", "Generated-input search; files of 0 to 120 records, collections of several features as line input are outside the claim.")

P("C31", "The tool does what its options say",
  "The vertices written by the tool are those the library keeps for the same lines, constraints, threshold, distances, simplification type and options, each configuration key steering its own option. This holds however the configuration is passed (file or base64), the constraints are encoded and the paths are padded.",
  ["configurations", "inputs"], "every configuration, constraint encoding (geometry, feature, multi geometry, collection) and input",
  "No test runs the tool or maps its configuration.",
  ["main.go", "cfg.go", "simplify.go", "offset.go", "util.go", "geometry/geojson.go", "geometry/geojson_geom.go"],
  [("options from configuration", "cfg.go"), ("dispatch on the type", "offset.go")], ["the output file of the built tool"],
  "property-based testing: differential between the built binary and the library", "Generated-input search; the library side is judged by the other properties.")

P("C32", "Bad configurations and inputs are rejected loudly",
  "With missing or conflicting flags, an unreadable or malformed configuration, missing files or paths, an unknown simplification type, or a malformed line in the input or constraint file, the tool ends with a failure code and a message and leaves an existing output file as it was. It never reports success on such a job.",
  ["fault_sequences", "configurations"], "every kind of fault in flags, configuration, paths and file content, at any place of the file, with every option set",
  "No test runs the tool on bad input.",
  ["main.go", "cfg.go", "util.go", "geometry/geojson.go", "geometry/utils.go"], [("panic on errors before anything is written", "main.go")], ["exit code, messages and output file of the built tool"],
  "property-based testing: fault injection into generated jobs", "Generated-input search over 18 kinds of fault; write errors of the output device are not injected.")

P("C33", "Readers read what was written",
  "Reading a file of lines or of constraints gives the geometries written in it, in order, with their coordinates (third components included), properties, and distinct names for lines, whatever the encoding: bare geometries or features, single or multi geometries, feature collections (of one feature for lines), member order, number format, blank lines, CRLF or spacing. Constraints inside multi geometries and collections come out one by one.",
  ["inputs"], "every mix of encodings and geometries",
  "Tests read three small files.",
  ["geometry/geojson.go", "geometry/geojson_geom.go", "geometry/pln.go", "geometry/polygon.go", "geometry/pt.go", "geometry/jsonpoint.go", "geometry/jsontype.go"],
  [("type dispatch per line", "geometry/geojson.go")], ["geometry.ReadInputPolylines", "geometry.ReadInputConstraints"],
  "property-based testing: write/read round trip over encodings", "Generated-input search; collections of several features as line input are outside the claim.")

P("C34", "Simplification is free of data races and can run concurrently",
  "Batches and feature classes can be simplified at once, by any number of callers, sharing an id generator, constraints and an options object, with the same results as one after the other. No interleaving has a data race.",
  ["schedules", "inputs"], "every interleaving of one to five concurrent jobs and their workers",
  "Tests run without the race detector, one job at a time.",
  ["constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/simplify.go", "constdp/constructor.go", "hdb", "homotopy"],
  [("workers own their lines; the shared index is only read while workers run", "constdp/simple_0.go")], [API, "race detector reports"],
  "property-based testing under the race detector: concurrent jobs against sequential results", "Generated-input search; races are found on the schedules met, at 2-8 processors.")

P("C35", "Simplification follows its documented procedure",
  "The result is what the documented procedure gives step by step: recursive decomposition at the farthest vertex; cuts at protected vertices (self-intersections, junctions); rounds in which every stretch that breaks an enabled relation, or whose segment would meet another stretch anew (fold onto a neighbour, lose a crossing, move one beyond the displacement limit), is split at its farthest vertex, until none is; joining of single edges with a neighbouring stretch wherever threshold, protected vertices, relations and the other stretches allow; then, for a feature class, rounds over all its lines. Batching, concurrency, indexing and caching never show in the result.",
  ["inputs", "configurations"], "every line or feature class, score, constraint set and combination of options",
  "The tests compare stored results on a few shapes; nothing states which vertices constraints should add, so lost or superfluous splits and joins pass.",
  ["constdp/simplify.go", "constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/node_aggregates.go", "constdp/validate.go", "merge/merge.go", "constrain/toself.go", "constrain/bycls.go", "deform/cls.go", "deform/ln.go", "deform/contig.go", "deform/noncontig.go", "split/split.go", "knn/neighbours.go"],
  [("decomposition, then rounds of selection and splitting until none is left", "constdp/simplify.go"), ("joining of single edges", "constdp/node_aggregates.go")], [API],
  "property-based testing: differential against a sequential reference of the procedure", GRID + "the homotopy verdict on one stretch, the foldability of neighbouring stretches and the offset scores are the code's own (C27, C28, C22 judge them); relations are judged by exact predicates; cases where rounding decides a distance are left out.")

P("C36", "Value types answer for the data they stand for",
  "Parts, segments, boxes and ranges of a line, context objects with their tags, sets of context objects, printed options, and keys of pairs of stretches agree with the plain data they were made from, and an instance holds exactly the constraints it was given, each once. Asking changes nothing.",
  ["inputs", "histories"], "every line and stretch of it, pair of ranges, options object, sequence of tags and set of context geometries",
  "Tests construct a few values; tag histories, set constructors, printed options and pair keys are sampled once or not at all.",
  ["geometry/pln.go", "rng/rng.go", "opts/opts.go", "ctx/ctx.go", "ctx/ctxs.go", "constdp/common.go", "constdp/constructor.go", "common/common.go", "node/nodes.go", "node/node.go"],
  [("views on a shared coordinate array", "geometry/pln.go"), ("type tag of a context object", "ctx/ctx.go")], ["exported methods of geometry.Polyline, rng.Rng, opts.Opts, ctx.ContextGeometry, ctx.ContextGeometries, node.Node"],
  "property-based testing: model-based comparison with plain arrays", "Generated-input search.")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./build.sh race", "checks": [], "not_applicable": [],
         "notes": "All checks drive exported APIs and the built binary; no hooks in /repo are needed. known_findings.txt lists the repaired defects; ./replay.sh FILE decides the case of a replay file again."}
    for p in PROPS:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
