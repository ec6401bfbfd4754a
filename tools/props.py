import json
P=[]
def add(id,title,statement,text,why,files,mech,over=("inputs",),hook=None,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
ENV="src/planar/primitives/envelope.rs"; POS="src/planar/primitives/position.rs"; SEG="src/planar/primitives/segment.rs"
FB="src/flatbush/mod.rs"; HB="src/flatbush/hilbert.rs"; LS="src/planar/types/line_string.rs"
add("C01","Combining bounding boxes gives the least box enclosing both",
 "Merging, expanding, constructing from two positions or folding any list of boxes or positions yields exactly the smallest box that encloses all of them: each bound is the minimum or maximum over the inputs, where a NaN bound gives way to the other operand. The empty box is the identity, and the result does not depend on operand order.",
 "all boxes and positions with any float bounds including NaN, infinities and signed zeros; all lists",
 "Every box has four independent bounds; tests try a dozen integer boxes and never a NaN bound inside a merge.",
 [ENV,POS,"src/coordinate.rs"],[("Envelope::{new,of,merge,expand,min,max,is_empty}",ENV),("Position::{min,max,min_max}",POS),("Coordinate::min_max","src/coordinate.rs")])
add("C02","Box containment and intersection are set containment and intersection",
 "A box contains another exactly when neither is empty and every bound of the second lies between the matching bounds of the first, edges included; two boxes intersect exactly when neither is empty and they share at least one point, edges and corners included. Intersection is symmetric, containment of a position is containment of its point box, and any comparison involving NaN counts as false.",
 "all pairs of boxes and positions over all floats",
 "Sixteen orderings per axis times NaN and empties; tests sample a few.",
 [ENV],[("Envelope::{contains,intersects}",ENV)])
add("C03","Every geometry and index reports its tight bounding box",
 "Every planar geometry, segment, position and spatial index reports as its bounding box the least box enclosing all its coordinates (a polygon's being that of its exterior), and the empty box exactly when it has no coordinates to enclose; emptiness queries agree. This holds for each way of constructing it.",
 "all geometries of every type, any nesting and any coordinates, every constructor",
 "Boxes are cached at construction in six types; tests check a few values per type.",
 ["src/planar/types/point.rs",LS,"src/planar/types/polygon.rs","src/planar/types/multi_point.rs","src/planar/types/multi_line_string.rs","src/planar/types/multi_polygon.rs",SEG,FB],
 [("cached _envelope fields and HasEnvelope impls","src/planar/types/*.rs"),("Flatbush::envelope / root_node",FB)])
add("C04","Range queries on the index are exact",
 "For any list of items, any supported degree and either way of building the index, a box query returns the position in the list of every item whose box intersects the query box, each exactly once, and nothing else.",
 "all item lists (any length, empty boxes, NaN, duplicates), all degrees that are powers of two from 2 up, all query boxes, both constructors",
 "Tree shape depends on the item count, degree, padding and sort order; tests use lists of at most a few dozen points.",
 [FB],[("find_intersection_candidates, _maybe_push_isxn, get_children, root_node, _new_unsorted",FB)],
 state=[("level_indices","start of each level in the flattened tree",FB),("tree","(index in level, box) per node, levels padded with empty boxes",FB)])
add("C05","The index self-join returns each intersecting pair once",
 "The self-join returns exactly the pairs (i, j) with i < j whose item boxes intersect, each pair exactly once.",
 "all item lists, all supported degrees, both constructors",
 "Deduplication depends on where the sort and padding place each item in the tree; tests use tiny trees.",
 [FB],[("find_self_intersection_candidates, _maybe_push_self_isxn",FB)])
add("C06","The cross-join of two indexes returns each intersecting pair once",
 "Joining two indexes returns exactly the pairs (i, j) such that item i of the first and item j of the second have intersecting boxes, each exactly once, for indexes of any two sizes and degrees.",
 "all pairs of item lists, degrees and constructors",
 "The traversal descends two trees of different heights; tests use equal or trivial heights.",
 [FB],[("find_other_rtree_intersection_candidates, _maybe_push_other_isxn",FB)])
add("C07","Distance candidates never miss an item within the distance",
 "For every position and non-negative distance, the within-distance query returns, exactly once each, all items whose box meets the axis-aligned square with that half-side centred on the position, hence every item within the distance, and no other item.",
 "all item lists, positions and distances >= 0 for which the square's corners are numbers",
 "The square must be built on both sides of both axes for every sign of the position; tests use one position.",
 [FB,ENV,POS],[("find_candidates_within",FB)])
add("C08","Any list of items can be indexed; unsupported degrees are refused",
 "Building an index of any list of items never fails when the degree is a power of two of at least 2: no item list (empty, all empty, aligned, NaN, infinite, huge) makes it panic or run out of the index, and the result answers queries. Every degree that is not a power of two is refused.",
 "all item lists and all degrees, both constructors",
 "Failures depend on degenerate extents, overflow and item counts at level boundaries.",
 [FB,HB],[("Flatbush::{new,new_unsorted,_new_unsorted,new_empty}, quick_log_ceil, div_ceil, next_multiple",FB),("Hilbert::{new,safe_hilbert,hilbert}",HB)])
add("C09","The spatial sort follows a space-filling curve over the 16-bit grid",
 "The sort key maps the 65536 x 65536 grid cells one to one onto 32-bit keys such that cells with consecutive keys share an edge; items whose centres fall in those cells are stored in key order.",
 "all 2^32 grid cells",
 "The bit-twiddled curve has 2^32 inputs; tests check a handful.",
 [HB,FB],[("Hilbert::hilbert_normalized",HB),("Flatbush::new sort",FB)])
add("C10","Segment intersection is geometrically exact",
 "Intersecting two closed segments reports nothing when they share no point, the single shared position when they share one, and the shared piece (its two ends) when they overlap with positive length; segments of zero length count as single positions. The answer does not depend on argument order or direction, and a shared position that is an end of either segment is reported as exactly that end.",
 "all pairs of segments whose coordinate differences and products are exactly representable (for example integers up to 2^24); shared ends for any finite coordinates of clearly non-parallel segments",
 "Dozens of relative placements (touching, collinear, contained, reversed); tests cover about ten.",
 [SEG],[("Segment::intersect_segment",SEG),("Position::{cross,dot} and operators",POS)])
add("C11","Orientation and on-segment tests are exact",
 "A position is reported left of, on or right of the directed line through a segment exactly according to the sign of the cross product, and a segment contains a position exactly when the position lies on the line and within the segment's extent, ends included.",
 "all segments and positions whose differences and products are exactly representable",
 "The tests try a few axis-aligned and diagonal segments.",
 [SEG,POS],[("Segment::{position_location,contains,envelope}",SEG)])
add("C12","A line string validates exactly when it is a simple chain",
 "A line string is accepted if and only if it is empty, or has at least two positions, all finite, no two consecutive ones equal, and no two of its segments share a point other than the common vertex of consecutive segments and, when the chain is closed, its start/end position. The simple and ring predicates agree with this.",
 "all position lists with exactly representable differences and products (non-finite ones included)",
 "Self-intersections may involve any pair of segments anywhere in the index; tests have four to six positions.",
 ["src/planar/validation/line_string.rs",LS,FB,SEG],[("LineString::{validate,_validate_with_rtree,is_simple,is_ring,is_closed,build_rtree}","src/planar/validation/line_string.rs")])
add("C13","A multi line string validates exactly when its members only touch at ends",
 "A collection of line strings is accepted if and only if each member is valid and any point shared by two members is an end point of both, where closed members have no end points.",
 "all collections of position lists with exactly representable differences and products",
 "Depends on any pair of segments of any pair of members; tests use two or three short members.",
 ["src/planar/validation/multi_line_string.rs",FB,SEG],[("MultiLineString::validate","src/planar/validation/multi_line_string.rs")])
add("C14","Elementary shapes and point sets validate exactly when well formed",
 "Positions, points and segments validate exactly when all coordinates are finite; a box exactly when it is empty or has finite, ordered bounds; a set of points exactly when every point is finite and no two are equal (negative zero equals zero). Converting a position to its hashable form fails exactly when a coordinate is NaN.",
 "all floats, all lists of points",
 "Tests try NaN in one or two places.",
 [POS,SEG,ENV,"src/planar/validation/multi_point.rs","src/planar/validation/point.rs"],[("validate / is_simple / to_hashable","src/planar/primitives, src/planar/validation")])
add("C15","Simplifying a point set keeps exactly the distinct finite points",
 "Making a point set simple returns the empty geometry when it has no finite point, and otherwise a point set holding each distinct finite position exactly once in ascending order, which itself validates.",
 "all lists of points over all floats",
 "Tests use lists of at most four points.",
 ["src/planar/types/multi_point.rs"],[("MultiPoint::make_simple","src/planar/types/multi_point.rs")])
add("C16","Boundaries follow the mod-2 rule",
 "The boundary of a line string is empty when it is closed or empty and its two end positions otherwise; the boundary of a multi line string is the set of positions that occur an odd number of times as an end of a member (a closed member has none), each once; the boundary of a polygon is its rings, exterior first, and of a multi polygon all rings of its polygons in order, polygons without any position left out; points have empty boundary.",
 "all geometries of every type with any coordinates",
 "Parity over any number of coinciding ends; tests use two or three lines.",
 [LS,"src/planar/types/multi_line_string.rs","src/planar/types/polygon.rs","src/planar/types/multi_polygon.rs"],[("boundary()","src/planar/types/*.rs")])
add("C17","A polygon validates exactly when its rings nest properly",
 "A polygon whose rings pairwise share at most one point is accepted if and only if it is empty, or every ring is a closed simple chain, every hole lies inside the exterior ring and no hole overlaps or contains another. Whatever the rings share, a polygon is never accepted when rings overlap along an edge or cross at a position that is no vertex of either, when a vertex of a hole lies outside the exterior ring, or when a vertex of any ring lies strictly inside a hole.",
 "all lists of rings with exactly representable differences and products",
 "Relations between rings of any shape and size; tests use a few squares and triangles.",
 ["src/planar/validation/polygon.rs","src/planar/algorithms/loop_relation.rs",SEG,FB],[("Polygon::validate","src/planar/validation/polygon.rs"),("find_loop_loop_relation","src/planar/algorithms/loop_relation.rs"),("Segment::find_winding_number",SEG)])
add("C18","A multi polygon validates exactly when its members do not overlap",
 "A collection of polygons whose rings pairwise share at most one point is accepted if and only if each polygon is valid and, for any two, their exteriors are apart or one exterior lies inside a hole of the other. Whatever the rings share, a collection is never accepted when exteriors overlap along an edge or cross at a position that is no vertex of either, or when a vertex of one member's exterior lies strictly inside another member.",
 "all collections of polygons with exactly representable differences and products",
 "Nesting of any depth among members and holes in any order; tests use two members.",
 ["src/planar/validation/multi_polygon.rs","src/planar/algorithms/loop_relation.rs"],[("MultiPolygon::validate","src/planar/validation/multi_polygon.rs")])
add("C19","The convex hull of a simple ring is its least enclosing convex ring",
 "For every simple ring the hull is a closed counter-clockwise ring of the ring's own vertices that turns once around, has every ring vertex on or inside it, and whose vertices are exactly the corners of the convex hull (it turns left at every one of them).",
 "all simple rings with exactly representable differences and products",
 "The on-line algorithm depends on the order of vertices; tests use a few convex and one concave ring.",
 ["src/planar/algorithms/convex_hull.rs","src/planar/algorithms/implementation.rs"],[("find_convex_hull_of_simple_loop","src/planar/algorithms/convex_hull.rs")])
add("C20","A generic geometry behaves as the geometry it wraps",
 "Wrapping any concrete geometry leaves its type name, dimension, bounding box, emptiness, simplicity and boundary unchanged; unwrapping to its own type returns it unchanged, unwrapping to any other type returns nothing, and unwrapping to the empty geometry succeeds exactly when it is empty.",
 "all geometries of all seven types",
 "Seven types by thirteen operations; tests touch a fraction.",
 ["src/planar/types/geometry.rs","src/planar/types/empty.rs"],[("Geometry From impls, as_*, delegate_accessor","src/planar/types/geometry.rs")])
add("C21","Reading WKT preserves structure and never fails abnormally",
 "Reading well-formed WKT of a supported type yields the geometry with the same type, nesting, order and coordinates, with empty points and polygons becoming empty or being left out of collections. Text whose first geometry is cut off, nested deeper than any supported type or of an unsupported type yields an error, and no text at all makes reading panic or exhaust the stack. Text after the first geometry is not read.",
 "all strings; all geometries writable as WKT",
 "Unbounded text; tests parse a dozen strings.",
 ["src/serde/wkt.rs"],[("parse_wkt, from_wkt_*","src/serde/wkt.rs")])
add("C22","Lengths, areas and products are the Euclidean ones",
 "Segment length is the Euclidean distance of its ends (its square is exact), line and multi line lengths are the sums over segments, the signed triangle area is half the cross product of its edges (positive for counter-clockwise) and the area its absolute value.",
 "all segments, lines and triangles with exactly representable differences and products, up to rounding of the square root and sums",
 "Tests use three or four examples.",
 [SEG,LS,"src/planar/primitives/triangle.rs","src/planar/types/multi_line_string.rs",POS],[("length, length_squared, determinant, signed_area, area, cross, dot","src/planar")])
add("C23","A line string exposes exactly its positions and consecutive segments",
 "A line string of n positions has exactly the n-1 segments joining consecutive positions, in order, by iteration, by index and in its segment index; point access returns each stored position and nothing beyond the end; first and last point are the first and last position, and it is closed exactly when it has at least four positions and they are equal.",
 "all position lists including empty and one-element lists",
 "Off-by-one behaviour at every length; tests use lengths two to five.",
 [LS],[("segments_iter, get_segment, get_point, start_point, end_point, is_closed, build_rtree",LS)])
add("C24","One-dimensional boxes and geometries obey the same box laws",
 "One-dimensional boxes merge, expand, contain and intersect as closed intervals with the empty interval as identity; one-dimensional positions add, subtract and scale as their coordinates do; points, lines and collections report the least interval enclosing them, return exactly the stored elements by index and nothing beyond the end, and a NaN point is empty.",
 "all floats, all lists",
 "Same unbounded value space as the planar boxes.",
 ["src/linear/primitives/envelope.rs","src/linear/primitives/position.rs","src/linear/primitives/segment.rs","src/linear/types/point.rs","src/linear/types/line.rs","src/linear/types/multiline.rs","src/linear/types/multipoint.rs"],
 [("linear Envelope, Position, Segment, Point, Line, MultiLine, MultiPoint","src/linear")])
add("C25","Walking the index reaches every item once under boxes that enclose it",
 "Descending from the root through non-empty nodes reaches every item with a non-empty box exactly once, as a leaf carrying that item's position in the list and its box; every node on the way has as many children as the degree, one level below it, and its box is the least box enclosing its children's.",
 "all item lists, all supported degrees, both constructors",
 "Depends on item count against powers of the degree; tests check two small trees.",
 [FB],[("_new_unsorted, root_node, get_children",FB)])
add("C26","Buffering and centring a box act on every side",
 "Buffering a non-empty box by a distance moves every side outward by exactly that distance, the centre of a finite non-empty box is its midpoint and lies in the box, and the empty box has no centre and stays empty when buffered.",
 "all boxes and distances",
 "Tests do not exercise them beyond one example.",
 [ENV,POS],[("Envelope::{buffer,center}",ENV)])
add("C27","Surface points, counts and point access report what is stored",
 "A point asked of a polygon's surface is one of the positions of its exterior ring, and none is given exactly when the polygon is empty; for a collection of polygons it is a position of the exterior of some member, and none is given exactly when all members are empty. A collection of line strings is closed exactly when every member is; a point reports the coordinates it was made of and a point set the number of its points.",
 "all polygons, collections of polygons and of line strings, point sets, with any number of empty members anywhere",
 "Depends on where empty members stand; no test asks for a surface point.",
 ["src/planar/types/polygon.rs","src/planar/types/multi_polygon.rs","src/planar/types/multi_line_string.rs","src/planar/types/point.rs","src/planar/types/multi_point.rs",LS],
 [("Polygon::point_on_surface","src/planar/types/polygon.rs"),("MultiPolygon::point_on_surface","src/planar/types/multi_polygon.rs"),("MultiLineString::is_closed","src/planar/types/multi_line_string.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
