#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'A simplified line is a subsequence of its input with both ends kept',
  'For every valid line and every choice of options, simplification returns vertices of the input line in their original order, each with its original coordinates, and always including the first and the last vertex. '
  'The fragments reported for a line tile it: they are contiguous, do not overlap, start at the first vertex, end at the last one, and their end points are exactly the retained vertices. '
  'This holds for a line simplified alone, as one of many independent lines, and as part of a feature class.',
  ['inputs', 'configurations'], 'all valid lines (2 or more vertices, rings, repeated vertices, 2D/3D), all option combinations, DP and SED, plain and squared scores, single line / independent lines / feature class',
  'Tests compare the retained indices of a few fixed lines with constants; the claim is about every line and every option combination, after arbitrarily many splits and merges.',
  ['constdp/simplify.go', 'constdp/fc_group.go', 'dp/dp.go', 'split/split.go', 'merge/merge.go', 'rng/split.go'],
  [('split at an index keeps both halves', 'split/split.go'), ('merge of contiguous fragments', 'merge/merge.go:Range'), ('collection of range ends', 'constdp/simplify.go:Simplify')],
  ['ConstDP.Hulls ranges and ConstDP.SimpleSet after Simplify / SimplifyInstances / SimplifyFeatureClass', 'DouglasPeucker.Simple()'],
  [('partition', 'the sequence of index ranges a line is currently cut into', 'ConstDP.Hulls')])

p('C02', 'No simplified line deviates from its input by more than the threshold',
  'Every input vertex that a simplification drops lies within the threshold distance of the output segment that replaces it: Euclidean distance to the segment for DP, distance to the time-synchronised position on the segment for SED. '
  'The bound holds with any combination of topological constraints switched on, for plain and squared scores, alone or in a feature class.',
  ['inputs', 'configurations'], 'all lines, thresholds >= 0, all constraint combinations that force extra splits and merges, DP and SED (strictly increasing times), feature classes',
  'No test measures the deviation of an output; they pin retained indices of fixed lines. The bound must survive every sequence of constraint splits and merges.',
  ['offset/dp.go', 'offset/sed.go', 'decompose/decompose.go', 'constdp/threshold.go', 'merge/merge.go', 'constdp/node_aggregates.go'],
  [('decomposition against the threshold', 'decompose/decompose.go'), ('split parts re-checked', 'constdp/threshold.go'), ('merge only within the threshold', 'merge/merge.go:ContiguousFragmentsAtThreshold')],
  ['input coordinates and output fragments of each line'])

p('C03', 'Plain Douglas-Peucker and SED simplification are exact',
  'Without constraints, simplification keeps exactly the vertices that the Douglas-Peucker recursion keeps: a fragment is accepted when its largest offset is at most the threshold and is otherwise split at a vertex of largest offset. '
  'Squared scores give the same result as plain scores, and a threshold of zero keeps every vertex that is off its segment.',
  ['inputs', 'configurations'], 'all lines, thresholds >= 0, DP and SED scores, plain and squared (on ties of the largest offset any of the tied vertices may be chosen)',
  'Tests check three fixed lines against constants; exactness is a statement about every line and threshold, including closed, folded and repeated-vertex lines.',
  ['dp/dp.go', 'decompose/decompose.go', 'offset/dp.go', 'offset/sed.go'],
  [('stack based recursion', 'decompose/decompose.go:DouglasPeucker'), ('relations', 'dp/dp.go:ScoreRelation, SquareScoreRelation')],
  ['DouglasPeucker.Hulls ranges and Simple() after Simplify', 'ConstDP.Decompose'])

p('C04', 'Vertices where a line meets itself are kept (planar_self)',
  'With planar_self on, every vertex of a line that coincides with another vertex of the same line is kept by the simplification, at every index at which it occurs. '
  'This holds wherever the location lies in the plane and whatever the other options are.',
  ['inputs', 'configurations'], 'all lines with repeated vertex locations (loops, rings, figure eights, multiple visits), all other options, DP and SED',
  'Tests use a handful of drawn self-crossing lines; missed locations (first, last, extreme in sort order, visited more than twice) are not sampled.',
  ['lnr/self.go', 'constrain/toself.go', 'constrain/split.go', 'split/split.go', 'constdp/node_aggregates.go'],
  [('sort and run detection of equal vertices', 'lnr/self.go:planarIntersects'), ('split at the vertices', 'constrain/split.go'), ('vertices excluded from merging', 'constdp/node_aggregates.go')],
  ['retained indices of each line'])

p('C05', 'Segments that cross without a vertex are kept (non_planar_self)',
  'With non_planar_self on, whenever two segments of a line cross or touch at a point that is not a vertex of both, the end points of both segments are kept by the simplification. '
  'The option works on its own and together with planar_self, and the crossing itself is therefore preserved at its original position.',
  ['inputs', 'configurations'], 'all lines with proper crossings and T-contacts of their segments, with and without planar_self and every other option',
  'Existing tests check the detection on one or two drawn lines and never the end result for all crossings of arbitrary lines.',
  ['lnr/self.go', 'constrain/toself.go', 'constrain/split.go', 'constdp/node_aggregates.go'],
  [('pairwise segment intersection through an index', 'lnr/self.go:nonPlanarIntersection'), ('split at segment ends', 'constrain/split.go'), ('vertices excluded from merging', 'constdp/node_aggregates.go')],
  ['retained indices of each line'])

p('C06', 'Vertices shared between lines of a feature class are kept by every line',
  'When a feature class is simplified with planar_self on, each vertex location occurring in two or more places of the class (in different lines or in one) is kept by every line that has it, at every index. '
  'Junctions of the class are therefore still exactly shared vertices after simplification.',
  ['inputs', 'configurations'], 'all feature classes with shared vertices, any number of lines and any shared location, all other options',
  'Tests have one fixed network; which location is dropped depends on its place in sort order and on later merges.',
  ['lnr/fc.go', 'constdp/fc_simplify.go', 'constrain/toself.go', 'constdp/node_aggregates.go'],
  [('junction detection over all lines', 'lnr/fc.go:FCPlanarSelfIntersection'), ('junctions passed to each line', 'constdp/fc_simplify.go:SimplifyInstances')],
  ['retained indices of each line of the class'])

p('C07', 'Simplifying a line adds and removes no self-intersection (avoid_new)',
  'With avoid_new_self_intersects on, take any two output segments of one line that have no end point in common: they intersect if and only if the two stretches of the input line that they replace intersect. '
  'In particular a line without self-intersections stays without. '
  'Where both the stretches and the segments intersect, no point of one intersection lies farther than non_planar_displacement from the points of the other.',
  ['inputs', 'configurations'], 'all lines (general, touching themselves, with repeated vertices and collinear runs), all thresholds and displacements, combined with the other constraints',
  'Tests cover a few drawn lines; a new crossing appears only for particular orders of splits in which an accepted hull is crossed by a later part of a neighbour.',
  ['constdp/simple_0.go', 'constdp/simplify.go', 'deform/cls.go', 'deform/ln.go', 'deform/noncontig.go', 'node/contig.go', 'constdp/validate.go'],
  [('hulls selected for deformation', 'deform/noncontig.go'), ('deformation to a fixed point', 'constdp/simplify.go'), ('merge validation', 'constdp/validate.go:ValidateMerge')],
  ['input coordinates and output fragments'])

p('C08', 'A feature class gains and loses no intersection between its lines',
  'With avoid_new_self_intersects on, when a feature class is simplified, an output segment of one line intersects an output segment of another line if and only if the stretches of the input lines they replace intersect. '
  'Lines that are disjoint stay disjoint, lines that meet still meet, and crossings move by at most non_planar_displacement.',
  ['inputs', 'configurations'], 'all feature classes of two or more lines (general, touching, sharing vertices or stretches), including equal index ranges in different lines and chains of deformations across lines',
  'Two drawn feature classes are tested; lost selections between lines need particular index ranges and map orders.',
  ['constdp/fc_simplify.go', 'constdp/simple_0.go', 'deform/cls.go', 'deform/noncontig.go', 'constdp/simple_2.go', 'constdp/fc_group.go'],
  [('cross-feature selection', 'deform/cls.go:SelectFeatureClass'), ('fixed point over all lines', 'constdp/fc_simplify.go'), ('clean features checked only against others', 'deform/cls.go:optimizeNeighbours')],
  ['input coordinates and output fragments of all lines'])

p('C09', 'Simplification keeps the intersect/disjoint relation to every constraint',
  'With geometric_relation on, each output segment intersects a constraint geometry (point, line or polygon) if and only if the stretch of the input line that it replaces intersects it. '
  'Consequently a line never starts to touch a constraint it avoided and never loses contact with one that it met.',
  ['inputs', 'configurations'], 'all lines, any number of point/line/polygon constraints in any position, with any other options, single lines and feature classes',
  'Tests use a few fixed constraint polygons; the relation must hold for any constraint, in particular those found through the spatial index and those that matter only after a merge.',
  ['relate/geom.go', 'constrain/bygeom.go', 'constdp/validate.go', 'knn/knn.go', 'hdb/knn.go'],
  [('relation test', 'relate/geom.go'), ('context lookup', 'constdp/validate.go:ValidateContextRelation')],
  ['input line, constraints and output fragments'])

p('C10', 'Simplification keeps the minimum distance to every constraint',
  'With distance_relation on, when a stretch of the input line is at least minimum_distance away from a constraint geometry, the output segment that replaces it is so too. '
  'A line that respects the minimum distance before simplification respects it after.',
  ['inputs', 'configurations'], 'all lines, constraints of every type and minimum distances, combined with the other options (distances equal to the minimum up to rounding excepted)',
  'Tests evaluate the relation on three fixed hulls; the guarantee concerns the final line for every placement of constraints.',
  ['relate/dist.go', 'constrain/bymindist.go', 'constdp/validate.go', 'knn/knn.go'],
  [('relation test', 'relate/dist.go'), ('context lookup by distance', 'constdp/validate.go')],
  ['input line, constraints and output fragments'])

p('C11', 'Simplification never moves a line across a constraint (homotopy)',
  'With homotopy_relation on, each output segment can be continuously deformed, ends fixed, into the stretch of input line that it replaces without passing over any constraint geometry that is disjoint from both, and it meets exactly the constraints that the stretch meets. '
  'Sidedness and winding relative to any set of constraints are therefore unchanged by simplification.',
  ['inputs', 'configurations'], 'all lines (including spirals and folds), any number of point/line/polygon constraints, with any other options',
  'Tests evaluate a dozen drawn curves with one or two polygons; homotopy is about every arrangement, including several obstacles whose effects only matter jointly.',
  ['homotopy/homotopy.go', 'homotopy/deform.go', 'homotopy/chain.go', 'relate/sidedness.go', 'constrain/byside.go', 'constdp/validate.go'],
  [('chain deformation', 'homotopy/deform.go'), ('exclusion of touched constraints', 'homotopy/homotopy.go:filterContext')],
  ['input line, constraints and output fragments'])

p('C12', 'Constraints add detail only where they are at stake',
  'A fragment of the unconstrained simplification whose convex hull touches no other fragment (beyond the shared end point of neighbours) and violates no relation to a constraint is not subdivided: no vertex inside it is kept. '
  'Constraint geometries farther than minimum_distance from the convex hull of a line, lines of a feature class whose hulls are apart from it, and switched-off options leave its result unchanged.',
  ['inputs', 'configurations'], 'all lines, feature classes and constraint sets with some fragments at stake and some not',
  'No test checks that constraints do nothing where nothing is at stake; over-eager deformation satisfies every other guarantee.',
  ['constdp/simple_0.go', 'deform/cls.go', 'node/contig.go', 'constdp/validate.go', 'knn/knn.go'],
  [('neighbour search', 'knn/neighbours.go'), ('contiguity rules', 'node/contig.go'), ('short circuits', 'constdp/validate.go')],
  ['fragments before and after constraining'])

p('C13', 'Relation tests on a stretch of line give the geometrically exact answer',
  'For a stretch of line and a set of constraints, the geometric relation is reported valid exactly when segment and stretch intersect the same constraints; the distance relation exactly when no constraint is at least the minimum distance from the stretch yet nearer to the segment. '
  'The homotopy relation is never reported valid when it does not hold, and is always reported valid when segment and stretch meet the same constraints and no other constraint touches the hull of the stretch.',
  ['inputs'], 'all stretches and constraint sets (points, lines, polygons), including nested and multiple constraints',
  'Fixed drawings only; boundary situations and several simultaneous constraints are not sampled.',
  ['relate/geom.go', 'relate/dist.go', 'relate/dir.go', 'homotopy/homotopy.go', 'homotopy/deform.go', 'constrain/bygeom.go', 'constrain/bymindist.go', 'constrain/byside.go'],
  [('relation predicates', 'relate/'), ('chain deformation', 'homotopy/')],
  ['results of the relate functions'])

p('C14', 'Results do not depend on scheduling, processor count or map order',
  'Simplifying the same lines with the same options gives the same retained vertices on every run, for any number of processors and any interleaving of the worker goroutines, whether the lines are simplified together or as a feature class. '
  'No data race occurs, and every call returns.',
  ['schedules', 'inputs'], 'all interleavings of the worker pool and of the parallel hull checks, GOMAXPROCS 1..8, all map iteration orders, any number of lines including none',
  'Tests run once with the default schedule; nothing compares runs.',
  ['constdp/fc_simplify.go', 'constdp/simple_0.go', 'constdp/simple_1.go', 'constdp/fc_group.go', 'node/queue.go'],
  [('worker pool over lines', 'constdp/fc_simplify.go:SimplifyInstances'), ('parallel hull checks', 'constdp/simple_0.go:processConstSimplification'), ('serial deformation', 'constdp/simple_1.go')],
  ['retained vertices of repeated runs', 'race detector reports'])

p('C15', 'An instance can be reused: results depend only on its current inputs',
  'Simplifying the same instance again, after any history of simplify, decompose and option or score changes, gives the result that a fresh instance with the current line, constraints, options and score would give. '
  'A simplification does not alter the input coordinates, and constraint geometries stay in force on every later run.',
  ['histories'], 'all sequences of simplify / decompose / simple / change options / change score calls on one instance, alone or in a feature class',
  'Each test builds a new instance and simplifies it once.',
  ['constdp/simplify.go', 'dp/dp.go', 'constdp/fc_group.go', 'constdp/constructor.go', 'node/nodes.go'],
  [('state reset', 'constdp/simplify.go'), ('result set cleared', 'dp/dp.go:Simple'), ('hulls cleared', 'node/nodes.go:Clear')],
  ['Hulls and SimpleSet after each call'])

p('C16', 'Lines simplified together but not as a feature class are independent',
  'Simplifying many lines in one call without the feature class option gives each line exactly the result it gets when simplified alone, whatever the other lines are and in whatever order they are given. '
  'In a feature class, reordering the lines leaves the result of each line unchanged.',
  ['inputs', 'configurations'], 'all collections of lines (0 to many, more lines than workers), all options, all orders',
  'Tests simplify one line or one fixed collection.',
  ['constdp/fc_simplify.go', 'simplify.go', 'constdp/fc_group.go'],
  [('per-line instances', 'simplify.go:simplifyInstances'), ('stream of instances', 'constdp/fc_simplify.go:SimplifyInstances')],
  ['retained vertices per line'])

p('C17', 'The hull database holds exactly what was loaded and not removed',
  'After any history of bulk loads, removals and clears, listing the hull database returns every item that was loaded and not removed since, exactly once, and nothing else; removing an absent item changes nothing. '
  'Emptiness is reported exactly when nothing is held.',
  ['histories'], 'all sequences of load (any batch size, empty, single, large), remove (present or absent), clear; items with equal and degenerate boxes',
  'Tests use random boxes with fixed sequences; node splits, tree growth and condensation depend on the whole history.',
  ['hdb/load.go', 'hdb/insert.go', 'hdb/remove.go', 'hdb/split.go', 'hdb/build.go', 'hdb/select.go', 'hdb/clear.go'],
  [('bulk load', 'hdb/build.go'), ('insert and split', 'hdb/insert.go, hdb/split.go'), ('remove and condense', 'hdb/remove.go')],
  ['All, IsEmpty after each operation'])

p('C18', 'Hull database searches are exact',
  'At any point of any history, a box search returns exactly the held items whose boxes intersect the query box (touching counts), each once, and the collision test says whether there is one. '
  'A nearest-neighbour query returns items in non-decreasing distance and, with a limit of k, k items none of which is farther than an item left out.',
  ['histories', 'inputs'], 'all histories of load/remove/clear and all query boxes, including degenerate and touching ones, limits 1..n and unlimited',
  'Tests query fixed trees with fixed boxes.',
  ['hdb/search.go', 'hdb/collides.go', 'hdb/knn.go', 'hdb/mbr.go', 'hdb/nodepath.go', 'hdb/insert.go', 'hdb/remove.go'],
  [('descent by bounding boxes', 'hdb/search.go'), ('best-first queue', 'hdb/knn.go'), ('bounding boxes kept tight enough', 'hdb/insert.go, hdb/remove.go')],
  ['Search, Collides, Knn results after each operation'])

p('C19', 'Splitting and merging fragments are exact inverses on ranges',
  'Splitting a fragment at its largest offset or at a set of indices, at least one of them interior, yields fragments that tile the original range, cut exactly at the interior split indices and nowhere else, each with the coordinates of its own range and a hull containing all of them. '
  'Merging two contiguous fragments, in either order, yields the fragment of the union range and coordinates; merging at a threshold succeeds exactly when the union is within it.',
  ['inputs'], 'all lines, ranges and index sets (unsorted, repeated, outside the range, on its ends), both argument orders of merge, sub-fragments of sub-fragments',
  'Tests have one or two fixed lines and index sets.',
  ['split/split.go', 'rng/split.go', 'rng/rng.go', 'rng/contig.go', 'merge/merge.go', 'common/common.go', 'node/node.go'],
  [('index arithmetic on ranges', 'split/split.go, rng/split.go'), ('coordinate concatenation', 'merge/merge.go:ContiguousCoordinates')],
  ['ranges, coordinates and hull geometry of the results'])

p('C20', 'Merging by fragment size consumes each fragment once and respects vertices',
  'Merging the fragments of a line by fragment size returns fragments to add and fragments to remove such that replacing the latter by the former still tiles the line, each fragment is consumed at most once, and only contiguous pairs in which one has the given size are merged. '
  'A pair is merged only when the merged score is valid and its common vertex is not in the protected vertex set, and no two fragments that could be merged with each other are both left unmerged. '
  'A fragment of the given size that is left next to another fragment left is reported as unmerged, and nothing that was merged is.',
  ['inputs', 'configurations'], 'all tilings of lines, protected vertex sets, fragment sizes and score limits',
  'Tests check one line at two thresholds.',
  ['merge/merge.go', 'knn/neighbours.go', 'hdb/search.go'],
  [('merged dictionary', 'merge/merge.go:ContiguousFragmentsBySize')],
  ['the two returned lists and the map of unmerged fragments'])

p('C21', 'The hull queue is a linearizable double-ended queue',
  'Under concurrent use, every history of append, append-left, pop, pop-left, first, last, size and clear calls on the hull queue is equivalent to some order of those calls, consistent with real time, on a sequential double-ended queue. '
  'No element is lost, duplicated or invented, and no call races with another.',
  ['schedules', 'histories'], 'all interleavings of concurrent callers and all operation sequences',
  'The one test is sequential and short.',
  ['node/queue.go'],
  [('read-write lock', 'node/queue.go')],
  ['call and return of each queue operation'])

p('C22', 'The tool writes exactly one feature per linear input feature, in order',
  'A run of the command line tool writes one GeoJSON feature for each LineString or MultiLineString line of the input, in input order, skipping other lines (other geometries, collections of geometries, features without a geometry); the number and order of parts are kept (a line of several parts stays a MultiLineString, one of a single part is a LineString), properties are copied (an empty object when there are none), and the coordinates of each part are a subsequence of the input coordinates with equal values, elevations or times included. '
  'Blank lines and surrounding white space in the input have no effect.',
  ['inputs', 'configurations'], 'all input files mixing features and bare geometries, single and multi-part, 2D and 3D, with linear and non-linear lines, blank lines and any properties',
  'No test runs the tool end to end or inspects its output.',
  ['encode.go', 'main.go', 'simplify.go', 'geometry/geojson.go', 'geometry/geojson_geom.go'],
  [('identifier from line and part number', 'geometry/geojson.go:composeId'), ('grouping of parts', 'encode.go:groupPlnsAsGeoJSONS')],
  ['output file of the built tool'])

p('C23', 'Configuration options mean what they say, however they are passed',
  'The tool gives the same output for a configuration passed as a file and as a base64 string, for any letter case or padding of the simplification type, and its output is the simplification that the library computes for the given threshold, distances, flags and feature class setting. '
  'Without exactly one configuration, with a configuration that cannot be read, with an unknown simplification type, with missing input, output or constraint paths, or with an input or constraint line that is not well-formed JSON it exits with a non-zero status and leaves the output file as it was.',
  ['configurations', 'inputs'], 'all configurations: each flag on/off, DP/SED, thresholds and distances, paths with white space, -b/-f/both/none, missing or unknown values',
  'No test covers the command line or the mapping of option names.',
  ['main.go', 'cfg.go', 'util.go', 'offset.go', 'simplify.go'],
  [('option mapping', 'cfg.go:optsFromCfg'), ('score by type', 'offset.go'), ('argument checks', 'main.go')],
  ['exit status and output file of the built tool'])

p('C24', 'Every valid input is simplified: no crash and no endless loop',
  'For every valid line, set of constraints and option values (thresholds and distances not negative, increasing times for SED), simplification terminates normally, alone and in a feature class. '
  'This includes lines of two vertices, repeated and collinear vertices, closed and fully overlapping lines, identical features, an empty collection, and constraints that touch, cover or coincide with the line.',
  ['inputs', 'configurations', 'schedules'], 'all valid inputs including degenerate ones, all options',
  'Tests use well-shaped drawn lines; crashes and endless deformation need degenerate arrangements.',
  ['constdp/simplify.go', 'constdp/fc_simplify.go', 'constdp/simple_0.go', 'constdp/simple_1.go', 'node/collapse.go', 'constdp/node_aggregates.go', 'hdb/knn.go'],
  [('deformation halves hulls', 'constdp/simple_1.go'), ('segments are never selected', 'constdp/simple_0.go')],
  ['return of the simplification calls'])

p('C25', 'Self-intersection and junction detection is exact',
  'Planar self-intersection reports each location visited by two or more vertices of a line once, with exactly the indices of those vertices; junction detection reports, for each line of a class, exactly the indices of its vertices whose location is used more than once in the class. '
  'Non-planar self-intersection reports exactly the pairs of segments that meet in a point that is not a vertex of both.',
  ['inputs'], 'all lines and feature classes: repeated locations, rings, extreme locations, crossings, T-contacts',
  'Tests use a few drawn lines; the sorted-run scan and the index search have boundary cases at the ends.',
  ['lnr/self.go', 'lnr/fc.go', 'lnr/vertices.go', 'geometry/pln.go'],
  [('sorted runs', 'lnr/self.go, lnr/fc.go'), ('segment index', 'lnr/self.go:segmentDB')],
  ['returned contexts and junction map'])

p('C26', 'Neighbour queries find exactly the hulls in range',
  'The context neighbours of a geometry at a distance are exactly the database items whose geometry is within that distance of it, whatever the number of items and their arrangement. '
  'The hull neighbours of a hull are exactly the other hulls whose geometry touches it.',
  ['inputs', 'histories'], 'all databases (1 to hundreds of items, collinear arrangements, after removals) and all queries and distances',
  'One fixed database is tested.',
  ['knn/knn.go', 'knn/neighbours.go', 'box/box.go', 'hdb/knn.go', 'hdb/search.go'],
  [('box lower bound of the distance', 'knn/knn.go:ScoreFn'), ('cut-off predicate', 'knn/knn.go:PredicateFn')],
  ['returned nodes'])

p('C27', 'Offset scores report the largest offset and a vertex that attains it',
  'For any stretch of three or more vertices, the score is the largest distance of its inner vertices from the segment joining its ends (for SED: from their time-synchronised positions on it), and the index reported is that of an inner vertex at that distance; for one segment the score is zero. '
  'The squared scores report the square of the same value.',
  ['inputs'], 'all stretches, including zero-length and degenerate base segments, and index subsets',
  'Fixed lines only.',
  ['offset/dp.go', 'offset/sed.go'],
  [('scan for the maximum', 'offset/dp.go:maxOffset, offset/sed.go:maxSEDOffset')],
  ['returned index and value'])

p('C28', 'Readers turn each input geometry into the right objects, in order',
  'Reading a file of newline-delimited GeoJSON yields, in file order, one line per LineString and per part of a MultiLineString, and as constraints one object per point, line and polygon and per part of their multi versions, polygons with their holes; bare geometries, features and feature collections are treated alike; a feature without a geometry yields nothing. '
  'Coordinates are preserved and each line carries its line number, part number and properties.',
  ['inputs'], 'all mixtures of geometry types, features, collections, single and multi, 2D and 3D',
  'Tests only count the objects read from two files.',
  ['geometry/geojson.go', 'geometry/geojson_geom.go', 'geometry/jsontype.go', 'geometry/jsonpoint.go', 'geometry/polygon.go', 'geometry/pln.go'],
  [('dispatch on type', 'geometry/geojson.go'), ('part numbering', 'geometry/geojson_geom.go')],
  ['returned polylines and constraint geometries'])

p('C29', 'Single-segment fragments are merged wherever threshold and constraints allow',
  'After the fragments of a line are settled, one pass from its start to its end merges each one-segment fragment with the fragment after it, or else with the one before it, when the merged fragment is within the threshold, the common vertex is not a protected intersection vertex and the merged fragment violates no active constraint. '
  'When no constraint is at stake the simplified line is exactly the result of that pass over the Douglas-Peucker fragments.',
  ['inputs', 'configurations'], 'all lines and thresholds, DP and SED, plain and squared scores, with and without protected vertices',
  'Retained indices of a few lines are pinned; most outputs have no mergeable fragment.',
  ['constdp/node_aggregates.go', 'merge/merge.go', 'node/contig.go', 'constdp/validate.go'],
  [('aggregation pass', 'constdp/node_aggregates.go:AggregateSimpleSegments')],
  ['fragments before and after aggregation'])

p('C30', 'A simplified line never folds over its own continuation (avoid_new)',
  'With avoid_new_self_intersects on, where two consecutive output segments of a line meet, neither replaces a stretch of input whose convex hull has the far end of the other segment strictly inside it (segments that close a loop or have no extent excepted). '
  'Each of the two stretches can therefore be straightened without sweeping over the end of its neighbour, so consecutive segments keep their arrangement.',
  ['inputs', 'configurations'], 'all lines (spirals, hooks, folded and touching lines), thresholds and other options, alone and in feature classes',
  'Tests have a few drawn contiguous hulls; the arrangement must survive every split and every merge with a fragment on either side.',
  ['node/collapse.go', 'node/contig.go', 'deform/contig.go', 'constdp/simple_0.go', 'constdp/node_aggregates.go', 'constdp/validate.go'],
  [('collapsibility of consecutive hulls', 'node/collapse.go:Collapsible'), ('selection of consecutive hulls', 'deform/contig.go'), ('merge checked against the following hull', 'constdp/node_aggregates.go')],
  ['input coordinates and output fragments'])

p('C31', 'Constraints split only the fragments in conflict and merge all they can',
  'A constrained simplification is the outcome of one procedure. A line is decomposed at the threshold, cut at the vertices its intersection constraints protect, and subdivided until every fragment is within the threshold; then, in rounds, each new fragment is compared with the fragments of its line and with the constraints, exactly the fragments found in conflict are split at a vertex of largest offset (and again until within the threshold), until a round finds none; then the single-segment fragments are merged, first with the next and else with the previous fragment, where threshold, protected vertices and constraints allow. '
  'The lines of a feature class then go through rounds together: a fragment is compared with those of the other lines, and with those of its own line once that line was split again; the callback receives the number of fragments each round checks. '
  'A fragment is in conflict when its relation to a constraint is not kept; or, with avoid_new_self_intersects, when it and a fragment whose hull meets its own are consecutive and it has the far end of the other inside its hull, or are not consecutive and their stretches meet while their segments do not (both are in conflict), meet farther from there than the displacement (both), or do not meet while its segment meets the other stretch (it is). Nothing else is split or merged.',
  ['inputs', 'configurations', 'histories'], 'all lines and constraints, alone and in feature classes, all option combinations; where floating point rounding decides (equal offsets, distances equal to a bound) either decision is one of the procedure',
  'Tests pin the outcome of a few drawings; that every split was called for, every needed split made and every possible merge taken is a statement about the whole history of rounds on every input.',
  ['constdp/simplify.go', 'constdp/simple_0.go', 'constdp/simple_1.go', 'constdp/fc_simplify.go', 'constdp/node_aggregates.go', 'constdp/validate.go', 'deform/cls.go', 'deform/ln.go', 'deform/contig.go', 'deform/noncontig.go', 'constrain/bycls.go', 'constrain/byself.go', 'node/contig.go', 'node/collapse.go'],
  [('rounds of one line', 'constdp/simplify.go:Simplify'), ('rounds of a class', 'constdp/fc_simplify.go:SimplifyFeatureClass'), ('selection of fragments in conflict', 'constdp/simple_0.go:processConstSimplification, deform/cls.go'), ('split at the largest offset', 'constdp/simple_1.go:deformNodes'), ('merging pass', 'constdp/node_aggregates.go')],
  ['fragments after decomposition, after the lines were simplified on their own, and at the end; numbers passed to the callback of SimplifyFeatureClass'],
  [('partition', 'the fragments every line is cut into', 'ConstDP.Hulls, the fragment database'), ('fresh', 'fragments not yet compared with the others', 'deformables in Simplify and SimplifyFeatureClass'), ('dirty', 'lines split among the class', 'state.State of the instance')])

with open(OUT, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
