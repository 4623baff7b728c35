# Source of properties.jsonl and MANIFEST.json (see mkmeta.py)
H = "include/boost/polygon/"
D = H + "detail/"
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors=dict(files=[f if f.startswith("include") else H + f for f in files],
                             mechanism=[{"name": n, "where": w} for n, w in mech],
                             state=[{"name": n, "meaning": m, "where": w} for n, m, w in state],
                             observe_at=list(observe)))
IH = ["inputs", "histories"]
PROPS = [
P("C01", "Manhattan booleans compute the exact set-theoretic region",
  "For Manhattan (axis-parallel) geometry, union, intersection, xor and difference give exactly the point set that set algebra gives for the operands' regions. This holds for every kind of operand (rectangle, polygon, polygon with holes, containers of them, polygon sets of either scan orientation, nested boolean expressions), for the operator, assignment and self-assignment forms, and for all coordinates the type can represent whose signed areas fit the area type.",
  IH, "all finite families of Manhattan shapes, all operator nestings, all sequences of operations on the same sets, both scan orientations",
  "The tests compare a few dozen fixed shapes; the scan has to be right for every overlap, abutment, corner touch and nesting of operands.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp", "detail/boolean_op.hpp", "detail/polygon_90_set_view.hpp", "detail/iterator_geometry_to_set.hpp"],
  [("sweep with per-operand counts", D + "boolean_op.hpp: applyBooleanBinaryOp"), ("lazily evaluated views", D + "polygon_90_set_view.hpp"), ("geometry to edges", D + "iterator_geometry_to_set.hpp")],
  [("data_", "signed vertex/edge counts", H + "polygon_90_set_data.hpp")]),
P("C02", "Manhattan sets accumulate insertions, holes and overlap counts exactly",
  "After any sequence of insertions of Manhattan geometry, some of it inserted as holes, a polygon set denotes exactly the points covered more often by insertions than by hole insertions. Keeping only self-overlaps leaves exactly the points covered at least twice, and self-xor exactly those covered an odd number of times. Copying, assigning, clearing or querying a set never changes the region it denotes.",
  IH, "all interleavings of insertion, hole insertion, copying, clearing, scanning and self-overlap operations over all Manhattan shapes",
  "Tests insert a few shapes in one order; the count bookkeeping, laziness (sorting, scanning) and orientation handling must agree for every history.",
  ["polygon_90_set_data.hpp", "detail/boolean_op.hpp", "detail/iterator_geometry_to_set.hpp", "detail/iterator_compact_to_points.hpp"],
  [("lazy sort and scan flags", H + "polygon_90_set_data.hpp: sort, clean"), ("unary count predicates", D + "boolean_op.hpp")],
  [("dirty_, unsorted_", "pending scan / sort", H + "polygon_90_set_data.hpp")]),
P("C03", "Manhattan sets have one canonical form per region",
  "Two Manhattan polygon sets of the same scan orientation compare equal exactly when they denote the same region, and equivalence of any two Manhattan objects is equality of regions. Emptiness, bounding box, area and vertex count of a set are those of its region, however the region was built up.",
  IH, "all pairs of construction histories of Manhattan regions", "Equality of canonical forms can only fail for particular coincidences of edges and histories that fixed tests do not contain.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp", "polygon_set_concept.hpp", "detail/boolean_op.hpp"],
  [("scan to canonical vertex data", D + "boolean_op.hpp: applyBooleanOr"), ("equivalence", H + "polygon_90_set_concept.hpp")]),
P("C04", "Polygons extracted from a Manhattan set tile its region",
  "The polygons (with or without holes) extracted from a Manhattan polygon set cover exactly its region with disjoint interiors; outer boundaries are counterclockwise, holes clockwise, consecutive edges are perpendicular and no vertex is redundant. Without holes each connected region gives one polygon, holes being cut open; with holes each connected region gives one polygon with its holes.",
  IH, "all Manhattan regions including nested holes, islands in holes and corner touches, in both scan orientations", "Polygon formation has a dozen vertex cases whose combinations (hole joined to shell, corner touch, simultaneous events) are sampled by few tests.",
  ["detail/polygon_formation.hpp", "polygon_90_set_data.hpp"],
  [("active tails", D + "polygon_formation.hpp: processEdges"), ("hole stitching", D + "polygon_formation.hpp: addHole")]),
P("C05", "Rectangle decompositions of a Manhattan set are exact",
  "Slicing a Manhattan region into rectangles gives, for each slicing orientation, exactly the disjoint slabs obtained by cutting along that orientation from every boundary corner, each once. The maximal-rectangle query returns exactly all rectangles inside the region that cannot be grown, without duplicates.",
  IH, "all Manhattan regions in both scan and slicing orientations", "The slab scan and the maximal-cover search have many simultaneous-event cases; tests check a handful of regions.",
  ["detail/rectangle_formation.hpp", "detail/max_cover.hpp", "polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
  [("slab scan", D + "rectangle_formation.hpp"), ("visibility graph search", D + "max_cover.hpp")]),
P("C06", "Manhattan bloat, shrink and resize are exact box morphology",
  "Bloating a Manhattan set by per-side distances gives exactly the region swept by the corresponding box, shrinking gives exactly the complement of the bloated complement, and resizing with mixed signs composes the two per axis. Growing with an intersection test gives exactly the overlaps of the individually bloated regions.",
  IH, "all Manhattan regions and all non-negative per-side distances, all mixed-sign resize requests", "Tests resize single rectangles and a few shapes; vanishing parts, merging gaps and holes closing need combinations.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
  [("edge displacement then rescan", H + "polygon_90_set_data.hpp: bloat, shrink, resize"), ("grow_and", H + "polygon_90_set_concept.hpp")]),
P("C07", "Moves, axis transforms, scaling and filtering map the region exactly",
  "Moving, transforming by any of the eight axis symmetries (and their compositions and inverses) and scaling up or down a Manhattan set or any geometry object gives exactly the image of its region, and a transformation followed by its inverse restores it. Filtering regions by size limits keeps exactly the connected regions whose area lies within the closed area limits and whose bounding width and height exceed the lower and do not exceed the upper limits.",
  IH, "all regions, all axis transformations and compositions, all scale factors for which results are representable", "The transformation tables are tested on single points; canonical form after orientation swap, mirrored edges and coordinate merging is not.",
  ["transform.hpp", "isotropy.hpp", "polygon_90_set_data.hpp", "polygon_90_set_concept.hpp", "polygon_traits.hpp", "rectangle_concept.hpp", "point_concept.hpp"],
  [("direction and orientation tables", H + "transform.hpp"), ("set transform", H + "polygon_90_set_data.hpp: transform, move, scale_up, scale_down")]),
P("C08", "Manhattan connectivity and interaction reports exactly the touching pairs",
  "Connectivity extraction over Manhattan objects reports an edge between two objects exactly when their closed regions have a point in common (overlap, abutment or a single shared corner), symmetrically and never to itself, whatever the order, kind and scan orientation of the inserted objects. Interaction keeps exactly the connected regions of one set that touch or overlap another set, and leaves it a consistent set.",
  IH, "all families of Manhattan objects including containment, abutment, holes and corner-only contact", "Connectivity is decided by coincidences of edges; tests use about ten configurations.",
  ["detail/polygon_90_touch.hpp", "polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
  [("touch sweep", D + "polygon_90_touch.hpp"), ("interact", H + "polygon_90_set_data.hpp")]),
P("C09", "Manhattan property merge labels every region with exactly its covering set",
  "Merging Manhattan geometry tagged with properties yields, for every subset of properties, exactly the region covered by just those properties and no others, and every nonempty combination is present. Multiple insertions of the same property behave as their union minus what that property inserted as holes.",
  IH, "all families of tagged Manhattan shapes, any number of properties, all insertion orders and hole insertions", "The number of overlap patterns grows exponentially with properties; tests exercise two or three layers.",
  ["detail/property_merge.hpp", "polygon_90_set_concept.hpp"],
  [("property interval sweep", D + "property_merge.hpp")]),
P("C10", "45-degree booleans compute the exact set-theoretic region",
  "For geometry whose edges are axis-parallel or at 45 degrees, union, intersection, xor and difference give exactly the set-algebra result whenever the intersection points are integral, for every operand kind and both lazily scanned and already scanned operands. When two diagonals meet off the grid the result differs from the exact region by less than one unit around those points.",
  IH, "all finite families of 45-degree shapes and all sequences of operations on the same sets", "Fixed tests cover few crossings; the 45-degree sweep has many simultaneous-vertex cases.",
  ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp", "detail/boolean_op_45.hpp", "detail/polygon_45_set_view.hpp"],
  [("45-degree sweep", D + "boolean_op_45.hpp"), ("views", D + "polygon_45_set_view.hpp")],
  [("is_manhattan_, dirty_", "dispatch to the Manhattan engine and lazy scanning", H + "polygon_45_set_data.hpp")]),
P("C11", "Polygons and trapezoids extracted from 45-degree sets tile the region",
  "Polygons, polygons with holes and trapezoids extracted from a 45-degree set cover exactly its region with disjoint interiors; polygons have counterclockwise shells and clockwise holes and only 45-degree multiples as edges; trapezoids have at most four sides with two parallel to the slicing axis.",
  IH, "all 45-degree regions with integral vertices", "Formation must handle every vertex type in every combination; tests extract few shapes.",
  ["detail/polygon_45_formation.hpp", "polygon_45_set_data.hpp"], [("45-degree polygon and trapezoid formation", D + "polygon_45_formation.hpp")]),
P("C12", "45-degree set queries, transforms and resizing agree with the region",
  "Equality, emptiness, extents and area of a 45-degree set are those of its region, and a set reported Manhattan has no sloped edge; moves, axis transforms and integral scalings map the region exactly, and filtering by size keeps exactly the connected regions within the limits. Resizing moves every axis-parallel edge by the given distance and every sloped edge by that distance, rounded to the grid as requested (nearest, over, under, or by the distance in each coordinate), corners being extended to where the moved edges meet, squared off at sharp turns, or left open, as requested; for rectilinear regions this is what the Manhattan engine does. Growing with an intersection test keeps exactly the overlaps of the individually grown regions.",
  IH, "all 45-degree sets and transformation sequences", "Flags cached across operations make the answers history dependent, which fixed tests do not explore.",
  ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp", "transform.hpp"], [("cached flags", H + "polygon_45_set_data.hpp"), ("resize", H + "polygon_45_set_data.hpp: resize")]),
P("C13", "45-degree connectivity and property merge are exact",
  "Connectivity extraction over 45-degree objects reports an edge exactly when two objects' closed regions have a point in common (overlap, abutment or a shared corner), interaction keeps exactly the connected regions having a point in common with the other set, and 45-degree property merge yields for every subset of properties exactly the region covered by just that subset.",
  IH, "all families of tagged 45-degree shapes", "Only a handful of configurations is tested.",
  ["detail/polygon_45_touch.hpp", "detail/property_merge_45.hpp"], [("touch sweep", D + "polygon_45_touch.hpp"), ("property sweep", D + "property_merge_45.hpp")]),
P("C14", "Arbitrary-angle set operations and queries compute the set-theoretic region",
  "For polygons with edges at any angle, union, intersection, xor, difference, insertion (with and without the hole flag), copying and cleaning of polygon_set_data give exactly the set-algebra region whenever all edge crossings are integral and every vertex and crossing lies at least two units away from the edges not through it, for every operand kind and any chaining of operations; otherwise every point farther than a few units from all input edges is classified exactly. Equality, emptiness, extents, area, axis transforms, integral scaling, size filtering (keep) and interaction answers are those of the region. (Within a unit of a vertex or crossing edges may be snapped to it: that is by design.)",
  IH, "all finite families of integer polygons and all operation sequences", "Robustness of the arbitrary-angle scan depends on rare configurations (near-parallel edges, many edges through one point).",
  ["polygon_set_data.hpp", "polygon_set_concept.hpp", "detail/scan_arbitrary.hpp", "detail/polygon_set_view.hpp", "detail/polygon_sort_adaptor.hpp"],
  [("segment intersection and snapping", D + "scan_arbitrary.hpp"), ("count scan", D + "scan_arbitrary.hpp"), ("views", D + "polygon_set_view.hpp")]),
P("C15", "Polygons and trapezoids extracted from arbitrary-angle sets tile the region",
  "Polygons with holes extracted from an arbitrary-angle set tile its region exactly (same condition as C14): shells are counterclockwise and simple, holes clockwise and inside their shells, and no two boundaries run against each other along a common stretch; straight vertices may be kept. Polygons formed with holes cut open and trapezoids (three or four corners, parallel sides along the requested orientation) are disjoint and cover the region up to the rounding of the cuts.",
  IH, "all regions of integer polygons", "Hole association and simultaneous events depend on rare configurations.",
  ["detail/polygon_arbitrary_formation.hpp", "polygon_set_data.hpp"], [("formation sweep", D + "polygon_arbitrary_formation.hpp")]),
P("C16", "Arbitrary-angle connectivity, interaction and property merge are exact",
  "Connectivity extraction over polygons reports an edge exactly when the closed regions share any point, interact keeps exactly the polygons sharing a point with the other set, and property merge yields for every subset of properties exactly the region covered by just that subset (insertions counted with sign), whenever crossings are integral (same condition as C14); node ids count insertions and empty input is accepted.",
  IH, "all families of tagged integer polygons", "Only a few configurations are tested.",
  ["detail/scan_arbitrary.hpp", "detail/property_merge.hpp"], [("arbitrary connectivity", D + "scan_arbitrary.hpp"), ("property merge", D + "property_merge.hpp")]),
P("C17", "Segment intersection finds and splits at every crossing",
  "When crossings are integral (and no end or crossing lies within two units of a segment not through it), intersect_segments returns pieces that tile exactly the input segments, tagged with their source, split exactly at ends and crossings, such that no two pieces meet except at common ends or by being equal with different sources; splitting again changes nothing. When crossings are rounded, the pieces of each source form a path between its ends that stays within two units of it, and no two pieces cross or overlap. Zero-length segments yield no pieces, the untagged form yields the same pieces, and envelope_segments is the bounding box.",
  IH, "all families of integer segments", "Tests sample random segments against weak invariants.",
  ["segment_utils.hpp", "detail/scan_arbitrary.hpp", "segment_concept.hpp"], [("intersect_segments", H + "segment_utils.hpp"), ("line intersection", D + "scan_arbitrary.hpp")]),
P("C18", "The Manhattan, 45-degree and general engines agree",
  "A region is the same point set whichever engine (Manhattan, 45-degree or arbitrary-angle) holds it: assigning, inserting and converting it between their containers, directly or polygon by polygon, and boolean expressions, self-assignments, area, emptiness and equivalence over operands of mixed engines and of any polygon, rectangle or container type give the region and the answers the point sets define. The Minkowski sum of two regions (with axis-parallel and 45-degree edges and holes) is the set of all sums of their points.",
  IH, "all Manhattan and 45-degree shapes and mixed-type expressions", "Cross-engine agreement is hardly tested.",
  ["polygon_set_concept.hpp", "polygon_set_data.hpp", "polygon_45_set_data.hpp", "polygon_90_set_data.hpp", "detail/minkowski.hpp"], [("conversions", H + "polygon_set_data.hpp: insert"), ("minkowski", D + "minkowski.hpp")]),
P("C19", "Polygon measures, containment and images are exact",
  "Area, perimeter, winding, bounding box, center, 45-degree test and point-in-polygon answers (with and without the boundary) for Manhattan, 45-degree and general polygons with and without holes are those of the region they denote, for every starting vertex and winding order, for library and user-defined polygon types, and for views of and conversions between polygon types; moving, convolving, scaling by whole factors, transforming and assigning polygons give exactly the images of their vertices, and scaling an integer 45-degree polygon by any factor gives a 45-degree polygon with every vertex within four units of its exact image.",
  ["inputs", "histories"], "all simple Manhattan, 45-degree and arbitrary-angle polygons with holes, coordinates up to the full 32-bit range (areas up to a spread of 2^30), all query points", "Tests query a few polygons; boundary and vertex-aligned query points are the delicate cases.",
  ["polygon_traits.hpp", "polygon_90_data.hpp", "polygon_45_data.hpp", "polygon_data.hpp", "polygon_with_holes_data.hpp", "polygon_90_with_holes_data.hpp", "iterator_points_to_compact.hpp", "iterator_compact_to_points.hpp"], [("shoelace", H + "polygon_traits.hpp: point_sequence_area"), ("contains", H + "polygon_traits.hpp: contains, edge_utils"), ("images", H + "polygon_traits.hpp: convolve, transform, scale_up, scale_down")]),
P("C20", "Voronoi diagrams are structurally consistent",
  "Every Voronoi diagram built from points and segments meeting only at end points is a consistent planar half-edge structure: twins, next, previous and rotation links are mutually inverse, edges run around vertices and cells and meet the right vertices, the counts of cells, edges and vertices satisfy Euler's relation for a connected plane graph, every distinct point, end point and segment has exactly one cell with the right source index and category, and all classification flags of cells and edges (point or segment, primary or secondary, linear or curved, finite or infinite, degenerate) follow from the sites. Source indices count insertions since the last clear; rebuilding, clearing and reusing a builder or diagram, or using the convenience functions, gives the diagram of exactly those sites; colors are kept. Holds for all coordinates of the 32-bit range; sites whose separation is below about 2^-22 of the extent of a set with segments are excluded beyond the known findings.",
  IH, "all sets of points and segments meeting only at end points, all builder histories", "Random tests check some links on random sites; degenerate, extreme and reuse histories are not covered.",
  ["voronoi_builder.hpp", "voronoi_diagram.hpp", "voronoi.hpp", "detail/voronoi_structures.hpp", "detail/voronoi_predicates.hpp"], [("edge insertion", H + "voronoi_diagram.hpp"), ("sweep", H + "voronoi_builder.hpp"), ("builder histories", H + "voronoi_builder.hpp: insert_point, insert_segment, construct, clear")]),
P("C21", "Voronoi vertices and adjacency are the true nearest-site structure",
  "For point and segment sites, every Voronoi vertex is equidistant (up to the documented relative error) from the sites of all its incident cells, with no other site strictly closer; every edge lies on the bisector of its two sites, runs in the direction of the true edge, and infinite edges lead away from all other sites; vertices are distinct, and every true vertex and adjacency is present. So the diagram is the true nearest-site structure, with vertices united only when they are closer than the documented tolerance.",
  ["inputs"], "all small-integer point and segment configurations including cocircular and collinear ones, and large coordinates (with coordinates resolved to 2^-10 of the extent where segments are nearly degenerate)", "Cocircular and near-degenerate inputs are where predicates fail, and they are rarely sampled.",
  ["voronoi_builder.hpp", "detail/voronoi_predicates.hpp", "detail/voronoi_robust_fpt.hpp", "detail/voronoi_structures.hpp"], [("circle existence and creation", D + "voronoi_predicates.hpp"), ("event ordering", D + "voronoi_structures.hpp")]),
P("C22", "Voronoi predicates decide exactly",
  "Every decision taken while a Voronoi diagram is built agrees with exact arithmetic, for all 32-bit sites: orientation of three points and the sign (and value, within rounding) of cross products; the order of site events; whether a site event precedes a circle event; whether a new point lies above the meeting point of two neighbouring arcs (of points, of segments, of a segment and its own end point); and which triples of neighbouring arcs form a circle event. A circle event touches its three sites on the proper sides and in sweep order, lies ahead of the sweep line, and its centre and rightmost point are within the documented relative error; a proper circle is never refused. Only comparisons closer than 2^-44 relative may go either way.",
  ["inputs"], "all 32-bit integer inputs; every decision of complete sweeps over small and wide inputs", "Floating point filters only fail on inputs engineered to be nearly degenerate.",
  ["detail/voronoi_predicates.hpp", "detail/voronoi_robust_fpt.hpp", "voronoi_builder.hpp"], [("exact orientation and comparisons", D + "voronoi_predicates.hpp: orientation_test, event_comparison_predicate, distance_predicate"), ("circle existence and creation", D + "voronoi_predicates.hpp: circle_formation_predicate"), ("robust difference and square-root expressions", D + "voronoi_robust_fpt.hpp")]),
P("C23", "The number types of the Voronoi engine compute what they claim",
  "The fixed-width big integers add, subtract, multiply, negate, compare and convert exactly whenever the result fits, with no leading zero words, and convert to floating point within rounding. The wide-exponent floating type adds, subtracts, multiplies, divides, negates and takes square roots as the real operations up to rounding, across its whole exponent range. The ulp comparison treats two doubles as equal exactly when they are within the given number of representable values. A robust difference stands for exactly the integer its history of operations gives, with nonnegative parts; an error-tracked float's bound covers its distance to the exact value; and a sum of up to four square roots has the right sign and stays within its documented relative error.",
  IH, "all word patterns, sign combinations, exponents, and sequences of operations on a few numbers (robust differences and sums of roots within the range of their integer type)", "Carry, borrow, cancellation and exponent cases need specific patterns; the tests use a few dozen values.",
  ["detail/voronoi_ctypes.hpp", "detail/voronoi_robust_fpt.hpp"], [("limb arithmetic", D + "voronoi_ctypes.hpp: extended_int"), ("extended exponent", D + "voronoi_ctypes.hpp: extended_exponent_fpt"), ("error tracking and sums of roots", D + "voronoi_robust_fpt.hpp")]),
P("C24", "Interval, point and rectangle operations obey interval algebra",
  "Containment, intersection, touching, abutment, clipping, joining, hulls, halving, bloating, shrinking, scaling, convolution, distances, areas and orderings of intervals, points and rectangles, and the rotation and reversal of directions, are those of the closed coordinate sets they denote, with the documented treatment of boundary points. This holds for every coordinate of the type for which the result is representable, for the library's own types and for user types adapted through traits.",
  IH, "all intervals, points and rectangles over int, long long and (integral) double coordinates up to the type's extremes, all sequences of operations on them", "Each predicate has boundary cases and each operation an overflow edge; tests check a handful.",
  ["interval_concept.hpp", "interval_data.hpp", "point_concept.hpp", "point_data.hpp", "rectangle_concept.hpp", "rectangle_data.hpp", "isotropy.hpp"], [("interval algebra", H + "interval_concept.hpp"), ("rectangle algebra", H + "rectangle_concept.hpp"), ("direction algebra", H + "isotropy.hpp")]),
P("C25", "Segment predicates are exact",
  "Orientation of a point or a segment against a segment, containment, intersection (counting or ignoring contact of two end points), abutment, equality and ordering of segments agree with exact integer geometry over the whole coordinate range, for every segment including degenerate and collinear ones. Lengths and distances between segments and points are within rounding of the exact value, and moving, scaling and transforming a segment acts on its end points.",
  IH, "all segments and points with int coordinates over the full range (distances: coordinates up to 2^20), and long long and integral double coordinates within the exactness of their arithmetic", "Collinear, degenerate and end-point cases are sparse in the tests, and near-collinear large coordinates absent.",
  ["segment_concept.hpp", "segment_data.hpp", "point_concept.hpp"], [("segment predicates", H + "segment_concept.hpp")]),
P("C26", "Directions, orientations and transformations compose exactly as maps",
  "Directions and orientations obey the algebra of signed unit vectors: turning, reversing, converting and combining them gives the direction that vector arithmetic gives. Axis transformations are exactly the eight signed permutations, and composing, inverting and reading off directions is that of the maps they denote, however they were built. A transformation built from an axis transformation, displacements or reference points and composed any number of times maps every point as the composition of its parts, its inverse undoes it, and scale factors compose, invert and round to the nearest integer.",
  IH, "all directions, orientations and axis transformations, all sequences of compositions and inversions over small integer displacements and power-of-two scales", "A few compositions out of the 8 by 8 table are sampled; wrong pairs show only in sequences.",
  ["isotropy.hpp", "transform.hpp"], [("direction algebra", H + "isotropy.hpp"), ("axis transformations", H + "transform.hpp: combine, invert, transform, scale")]),
P("C27", "Resizing arbitrary-angle sets offsets the outline by the given distance",
  "Growing an arbitrary-angle polygon set with rounded corners gives every point closer to the region than the inner radius of the corner polygon and no point farther away than the distance, shrinking removes likewise from the outside in, for every shape with holes, number of corner segments, operand type and spelling (resize, bloat, shrink, operators with a number). Without rounding, growing a convex polygon, or shrinking it while no edge vanishes, gives the polygon whose edges are moved by the distance with corners kept. Outlines are accurate to four units.",
  ["inputs"], "all simple polygons with holes spanning up to 6000 units anywhere within +-2^21, distances up to half that span (at least 9 with rounded corners), up to 24 corner segments", "The result is rounded and has no closed form to compare with; tests resize one or two shapes.",
  ["polygon_set_data.hpp", "polygon_set_concept.hpp", "detail/minkowski.hpp"], [("offsets", H + "polygon_set_data.hpp: bloat, shrink, resize_poly_up, resize_poly_down, make_arc"), ("rounded corners", H + "detail/minkowski.hpp: resize, convolve_two_polygon_sets")]),
]
