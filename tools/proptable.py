prop('C01','Segment and line intersection queries classify and locate exactly',
 'For every pair of non-degenerate segments (in the plane or in space) the segment/segment query reports no intersection exactly when they share no point, a crossing exactly when their only common point is interior to both, an endpoint result when a single touching point of non-parallel segments is an end of one, and an overlap when collinear segments share more than one point; the infinite-line queries (line/line, line/segment) classify parallel, coincident, crossing and end-touching positions in the same exact way. Every reported point (and line parameter) lies on both figures, and the two points of an overlap bound the shared part. The answer does not depend on whether points or segment objects are passed, nor (in the plane) on whether an output buffer is supplied, and an absolute tolerance e never changes the answer for positions further than e from a boundary case.',
 'every real coordinate of the four points, every absolute tolerance in (0,0.3)','the tests sample a few dozen coordinate tuples; the classification has 13 relative positions times orientations and must hold for all reals',
 [A+'intersection/segment_segment_intersection.hpp',A+'line_intersection.hpp','geometrix/utility/utilities.hpp'],
 [('segment_segment_intersection (2D, 3D, parallel case)',A+'intersection/segment_segment_intersection.hpp'),('line_line_intersect / line_segment_intersect',A+'line_intersection.hpp')],
 note='Segments must be non-degenerate; in space an output buffer is required.')

prop('C02','Distances and closest points are the true Euclidean minima',
 'For every point, segment, line, axis-aligned box and oriented box, the point/point, point/segment, point/line, point/box, segment/segment, segment/oriented-box and box/box distance and closest-point queries return the exact Euclidean minimum over the two figures: no pair of points of the two figures is closer than the returned value, the returned closest points lie on their figures at their returned parameters and realise it, and zero-length segments behave as points. The squared forms are the exact squares of the plain forms, the point, segment and object overloads agree, a signed line distance is positive to the left, and an oriented box made from a rectangle has exactly its corners.',
 'every real coordinate, half width and direction; segment/segment distance in the plane','minimality is a statement about every pair of points of the two figures and every clamping case',
 [A+'distance/segment_segment_closest_point.hpp',A+'distance/segment_segment_distance.hpp',A+'distance/point_segment_distance.hpp',A+'distance/point_segment_closest_point.hpp',A+'distance/point_aabb_distance.hpp',A+'distance/aabb_aabb_distance.hpp',A+'distance/point_obb_distance.hpp',A+'distance/segment_obb_distance.hpp',A+'distance/point_line_distance.hpp'],
 [('segment_segment_closest_point',A+'distance/segment_segment_closest_point.hpp'),('point_segment_*',A+'distance/point_segment_distance.hpp'),('point/box and oriented box distance',A+'distance/point_obb_distance.hpp')],
 note='Segment/segment optimality is proved as the first-order conditions plus a proved lemma; segment_obb_distance is proved over the contract of segment_segment_distance_sqrd. eberly_segment_segment_distance_sqrd is excluded (unused).')
prop('C03','Orientation, collinearity and betweenness decisions match exact geometry',
 'For every three points (and two vectors) the orientation query answers left, right or collinear exactly according to the sign of the doubled signed area, consistently under rotation and reversal of its arguments, and under an absolute tolerance exactly according to the band around zero. A point is reported between two others exactly when it lies on their segment (ends counted as asked), a vector is reported between two others exactly when the counter-clockwise sweep from the first to the second passes it, and an oriented crossing is reported with the side it really crosses from. Slope, vertical/horizontal and coordinate-on-line queries satisfy the equation of the line.',
 'every real coordinate, every positive absolute tolerance','sampled points cannot show that a sign decision is right in each of the sign combinations for all reals',
 ['geometrix/utility/utilities.hpp',A+'orientation.hpp'],[('get_orientation, is_collinear, is_between, is_vector_between, oriented_intersection','geometrix/utility/utilities.hpp')])
prop('C04','Comparison policies are consistent tolerance bands',
 'For every pair of numbers and every tolerance, each comparison policy (direct, absolute, relative, fraction, mapped) reports equal exactly when the difference is inside its tolerance band and less or greater exactly when it is beyond it, so exactly one of equal, less and greater holds. Less-or-equal is exactly the negation of greater, equality is symmetric and reflexive, and less and greater mirror each other. The free functions and functors give the answer of their policy, and sequences are equal exactly when all their coordinates are.',
 'every pair of reals and every tolerance','trichotomy and symmetry are laws over all pairs and tolerances; every predicate of the library rests on them',
 ['geometrix/numeric/number_comparison_policy.hpp','geometrix/utility/floating_point_comparison.hpp','geometrix/utility/utilities.hpp'],[('comparison policies','geometrix/numeric/number_comparison_policy.hpp'),('numeric_sequence_equals','geometrix/utility/utilities.hpp')])
prop('C05','Geometric orderings are the stated total orders',
 'For every pair of points the lexicographic, reverse-lexicographic and per-dimension comparers decide exactly the lexicographic order of the coordinate tuple they name, with ties broken by the remaining coordinates, and satisfy the strict weak order laws that sorted containers rely on. Segment comparers order segments by lower end then upper end (or as disjoint intervals) whatever the direction the segments are stored in. Pair comparers, minimum, maximum, sign and clamp return the mathematically defined result.',
 'every triple of points / pair of segments with real coordinates','order laws quantify over all triples; a container corrupted by one bad triple is not found by sampling',
 ['geometrix/utility/utilities.hpp'],[('lexicographical_comparer, dimension_compare, lexicographical_segment_compare, segment_interval_compare','geometrix/utility/utilities.hpp')])
prop('C06','Point and vector expressions evaluate to their algebraic meaning',
 'For all points, vectors and scalars, expressions built from sums, differences, negation, scaling, division, reciprocals and inner and cross products evaluate component by component to the algebraic result, also when nested, and combine points and vectors as an affine space. Magnitudes are the non-negative roots of the sum of squares, normalising gives the unit vector of the same direction, projections land on the line projected to, signed areas and volumes are the determinants, left and right normals are the quarter turns they name, and null and antiparallel tests are exact. Bisecting two vectors gives the unit vector halfway along the counter-clockwise sweep from the first to the second whatever their lengths, and interpolating gives the normalised interpolation.',
 'every real component, scalar and direction, dimensions 2 to 6','algebraic identities hold over all components; sample values hide sign and index slips that cancel',
 ['geometrix/algebra/expression_generator.hpp','geometrix/algebra/functions/addition.hpp','geometrix/algebra/functions/subtraction.hpp','geometrix/algebra/functions/multiplication.hpp','geometrix/algebra/functions/cross_product.hpp','geometrix/algebra/exterior_product.hpp','geometrix/algebra/vector_projection.hpp','geometrix/arithmetic/vector/magnitude.hpp','geometrix/arithmetic/vector/normalize.hpp','geometrix/arithmetic/vector/bisect.hpp','geometrix/arithmetic/vector/perp.hpp'],
 [('expression operators','geometrix/algebra/functions/'),('magnitude, normalize, perp, bisect, lerp','geometrix/arithmetic/vector/')],note='exterior_product_area is claimed in the plane only.')
prop('C07','Matrix expressions, determinants, inverses and LUP solves are exact',
 'For all matrices, sums, differences, negation, scalar multiples, products, transposes and tensor products evaluate entry by entry to their definition, also when nested; determinants up to order four and traces are the defining sums; and inverting a non-singular matrix gives a two-sided inverse while a singular one is refused. The LUP factorisation multiplies back to the row-permuted matrix with a true permutation and multipliers of magnitude at most one, and the LUP solver (orders two to four) returns the vector that satisfies every equation.',
 'every real entry, orders 1 to 4','products, cofactors and pivoting have an entry-by-entry definition over all matrices that a few samples do not pin down',
 ['geometrix/arithmetic/matrix_arithmetic.hpp','geometrix/arithmetic/detail/determinant.hpp','geometrix/algebra/functions/matrix_product.hpp','geometrix/algebra/functions/transpose.hpp','geometrix/algebra/functions/inverse.hpp','geometrix/algebra/lup_decomposition.hpp','geometrix/arithmetic/matrix/trace.hpp'],
 [('determinant, adjugate, inverse','geometrix/arithmetic/matrix_arithmetic.hpp'),('lup_decomposition, lup_solve','geometrix/algebra/lup_decomposition.hpp')],note='The order-four factorisation is checked on Hessenberg matrices only (bounded); its solver and orders two and three are proved.')

prop('C08','Axis-aligned boxes are tight and their set operations are exact',
 'For every axis-aligned box (in the plane or in space) a point meets it exactly when each coordinate is within its bounds, two boxes meet exactly when they share a point, one contains another exactly when every point of it is inside, and a tolerance widens these by exactly the tolerance. Expanding a box by another gives the smallest box containing both, conversion to and from a bounds tuple is lossless, and corners run counter-clockwise from the lower bound. The box made from a segment is the smallest box holding both its ends.',
 'every real bound, point and tolerance','range tests must be right for each combination of sides and dimensions',
 ['geometrix/primitive/axis_aligned_bounding_box.hpp',A+'intersection/aabb_aabb_intersection.hpp'],[('axis_aligned_bounding_box, make_aabb','geometrix/primitive/axis_aligned_bounding_box.hpp')])
I=A+'intersection/'
prop('C09','Ray, segment, line and sphere queries against figures are exact',
 'For every ray, segment, line, circle and sphere, the queries against a sphere, circle, axis-aligned or oriented box, segment, line, plane and triangle report a hit exactly when the two figures share a point. Every reported parameter and point lies on both figures, and the reported entry is the first common point along the ray or segment, with both crossings reported where the query returns two. Parallel, touching, starting-inside and pointing-away cases are included, up to the tolerance given.',
 'every real position, direction, radius and half width','hit and first-hit claims compare against every other point of both figures, which no finite list of probes does',
 [I+'ray_sphere_intersection.hpp',I+'segment_sphere_intersection.hpp',I+'sphere_aabb_intersection.hpp',I+'sphere_obb_intersection.hpp',I+'ray_aabb_intersection.hpp',I+'segment_aabb_intersection.hpp',I+'obb_obb_intersection.hpp',I+'ray_segment_intersection.hpp',I+'ray_line_intersection.hpp',I+'segment_triangle_intersection.hpp',I+'segment_plane_intersection.hpp'],
 [('ray/segment against sphere and boxes',I),('ray_segment_intersection, ray_line_intersection',I),('obb_obb_intersection',I+'obb_obb_intersection.hpp')],
 note='Rays and lines in the plane; segment/box in the plane and (up to the slack of machine epsilon coded in it) in space.')
prop('C10','Moving spheres and boxes are hit at the first contact',
 'For every sphere and velocity, the swept queries against a line, a segment, another moving sphere and an axis-aligned or oriented box, and the query between two moving oriented boxes, report a hit exactly when the figures touch at some time from the start (up to the time limit where one is given). The reported time is the earliest such time, zero when they overlap at the start. For a later contact the reported point is the point where the sphere touches the figure.',
 'every real position, radius, half width and velocity, every time and every point of the figure','a first-contact claim compares against every earlier time and every point of the figure, in every region and starting position',
 [I+'moving_sphere_plane_intersection.hpp',I+'moving_sphere_segment_intersection.hpp',I+'moving_sphere_sphere_intersection.hpp',I+'moving_sphere_aabb_intersection.hpp',I+'moving_sphere_obb_intersection.hpp',I+'moving_obb_obb_intersection.hpp',I+'detail/separating_axis_common.hpp'],
 [('moving_sphere_*_intersection',I),('moving_obb_obb_intersection',I+'moving_obb_obb_intersection.hpp')],
 note='In the plane; nonzero velocity for segments and boxes, positive radius; a sphere just touching an end point or another sphere while moving away may be reported either way.')
prop('C11','Angles, angular orders and rotations agree with the geometry of directions',
 'For every pair of points and every vector the reported angle is that of the direction; normalising an angle keeps it modulo whole turns and lands in [0,2pi] (or [-pi,pi]), leaving angles already in range alone. The angular comparers and the pseudo angle order all nonzero directions counter-clockwise from their reference as a strict weak order. Rotation by a pair of unit directions turns points and vectors by exactly the angle from the first direction to the second, about the origin given.',
 'every real direction, angle, origin and reference','an order or a modular reduction is a law over all values, and each quadrant and axis is its own case',
 ['geometrix/utility/utilities.hpp','geometrix/utility/vector_angle_compare.hpp','geometrix/utility/point_angle_compare.hpp',A+'rotation.hpp'],
 [('normalize_angle_*, vector_angle, angle_from_a_to_b','geometrix/utility/utilities.hpp'),('vector_angle_compare, pseudo_angle','geometrix/utility/vector_angle_compare.hpp'),('rotate_point, rotate_vector, make_rotation_matrix',A+'rotation.hpp')],
 note='pi is the double nearest to it. Nonzero vectors; rotation of point sequences is checked for three points (bounded).')
D=A+'distance/'
prop('C12','Grid cells partition the grid and clipping keeps exactly what is inside',
 'For every grid given by bounds and a cell size, the column and row reported for a point are those of the one cell that covers it, indices of contained points are inside the grid, the grid is just wide and high enough for its bounds, and a point is contained exactly when it is inside the bounds. The corners, centroid, box and polygon of a cell are those of the square at its index. Clipping a segment to a window accepts every segment that has a point in the window, and leaves exactly the part of the segment inside it, with its direction kept.',
 'every real bound, cell size, index below 2^31 and segment','cell borders, window edges and corner regions are each their own case over all reals',
 [A+'grid_traits.hpp',A+'cohen_sutherland_line_clipping.hpp'],
 [('grid_traits',A+'grid_traits.hpp'),('cohen_sutherland_line_clip',A+'cohen_sutherland_line_clipping.hpp')],
 note='Segments that only touch the window from outside may be reported either way. Cell traversals are not claimed.')
prop('C13','Area, centroid, bounds and length of sequences are their defining sums',
 'For every polygon or polyline with any number of points the signed area is half the sum of the cross products of consecutive points including the closing edge, and the area is its magnitude. The centroid is the area-weighted centroid of the polygon for nonzero area. The bounds, in the plane and in space, of a whole sequence or of an index range, and the box made from a sequence, are the least box holding every point in question, and a length is the sum of the lengths of the consecutive edges (with the closing edge for a polygon).',
 'every number of points and every real coordinate','the loops must be right for every length; an off-by-one at the closing edge or a sign slip that cancels on symmetric shapes passes sampled polygons',
 ['geometrix/primitive/point_sequence_utilities.hpp',A+'point_sequence/length.hpp','geometrix/primitive/axis_aligned_bounding_box.hpp'],
 [('get_signed_area, get_area, get_centroid, get_bounds','geometrix/primitive/point_sequence_utilities.hpp'),('polyline_length, polygon_length',A+'point_sequence/length.hpp'),('make_aabb of a sequence','geometrix/primitive/axis_aligned_bounding_box.hpp')],
 note='Loop invariants over ghost folds, inferred and proved for any number of points.')
prop('C14','Distances and closest points of polygons and polylines are minima',
 'For a point, a segment, a polygon or a polyline against a polygon or polyline with any number of points, the reported squared distance is the least segment distance over all edges of the figure (including the closing edge of a polygon, excluding it for a polyline), or over exactly the edges of the index range asked for. The reported closest points, edge indices and parameters are those of an edge (or pair of edges) realising it. The plain distance is the square root, and the divide and conquer search for larger figures gives the same result as trying every pair.',
 'every number of points, real coordinates and index range',
 'minimality compares against every edge for every number of points; sampled shapes rarely have their closest edge at the seam, at a range end or just above the switch to divide and conquer',
 [D+'point_polygon_distance.hpp',D+'point_polyline_distance.hpp',D+'point_polygon_closest_point.hpp',D+'point_polyline_closest_point.hpp',D+'segment_polygon_distance.hpp',D+'segment_polyline_distance.hpp',D+'segment_polygon_closest_point.hpp',D+'segment_polyline_closest_point.hpp',D+'polygon_polygon_distance.hpp',D+'polyline_polyline_distance.hpp',D+'polygon_polygon_closest_point.hpp',D+'polyline_polyline_closest_point.hpp'],
 [('point/segment against polygon and polyline',D),('polygon_polygon_*, polyline_polyline_* (brute force and divide and conquer)',D)],
 note='Segment kernels enter by their contracts proved in C02; consecutive points distinct. The divide and conquer search is proved against a ghost priority queue (a specialisation of std::priority_queue for its work items that keeps the abstract state of the queue).')
prop('C15','Point location in polygons and triangles follows exact geometry',
 'For every point and every polygon with any number of points the point-in-polygon query answers by the even-odd rule: inside exactly when an odd number of edges crosses the ray to the right (half-open at edge ends), which for triangles and convex quadrilaterals is exactly strict containment away from the border. The border query reports a vertex, a border point (an odd number of edges passes through it), the interior or the exterior accordingly. The triangle (plane and space), convex quadrilateral and convex polygon queries report exactly the points on the inner side of every edge, border included, up to the tolerance given.',
 'every number of points, every real coordinate (convex polygon search: three to eight points)','the parity argument holds over all edges at once; rays through vertices, horizontal edges and the seam edge are each their own case',
 [A+'point_in_polygon.hpp'],[('point_in_polygon, point_polygon_containment_or_on_border, point_in_triangle, point_in_convex_quadrilateral, point_in_convex_polygon',A+'point_in_polygon.hpp')],
 note='Triangles, quadrilaterals and convex polygons counter-clockwise and strictly convex; in space the point is in the plane of the triangle. point_in_convex_polygon is bounded (three to eight points).')
prop('C16','Equality and congruence of point sequences are exact',
 'For every two point sequences of any length, sequences are reported equal exactly when they have as many points and every pair of points agrees within the tolerance, and polygons exactly when one is the other read from some starting point. The offset reported between two polygons is the first index at which the second holds the first point of the first, next and previous indices wrap round and undo each other, and a point is reported concave exactly when the polygon turns right there. Polylines and polygons are reported congruent only if their sides and corners agree in order, and every rotated and shifted copy of a figure is congruent to it.',
 'every number of points, every real coordinate, every tolerance','one wrong index or a missed closing edge only shows for particular offsets and lengths',
 ['geometrix/primitive/point_sequence_utilities.hpp',A+'point_sequence/is_congruent.hpp'],
 [('point_sequences_equal, polygons_equal, polygon_polygon_offset, get_next_index, get_prev_index, is_point_concave','geometrix/primitive/point_sequence_utilities.hpp'),('are_polylines_congruent, are_polygons_congruent',A+'point_sequence/is_congruent.hpp')],
 note='Distances and angles enter by their contracts (C02, C06).')
prop('C17','Positions, sides and curvature along polylines and borders are exact',
 'For every polyline with any number of points, the point at a position lies on the segment the position falls in, at exactly the remaining distance along it, a point on the polyline is given the first segment that holds it and its distances to both ends along the polyline, and the border edge of a polygon found for a point is the first that holds it, or else one nearest to it, closing edge included. The side of a polyline a point is on is that of its nearest segment, or, nearest to a bend, of the wedge between the two segments it is in. The curvature at a point is that of the circle through it and its neighbours (positive for left turns), and the total curvature is the length-weighted sum over the inner points.',
 'every number of points, position, point and real coordinate','accumulating loops and first/nearest choices must be right for every length; wedges at bends have a case for each turn and side',
 [A+'point_sequence/length.hpp',A+'point_sequence/polyline_split.hpp',A+'point_sequence/find_subsequence.hpp',A+'point_sequence/point_polyline_orientation.hpp',A+'point_sequence/curvature.hpp'],
 [('polyline_point_at_position',A+'point_sequence/polyline_split.hpp'),('point_on_polyline_length_characteristics',A+'point_sequence/length.hpp'),('find_*_polygon_border_segment',A+'point_sequence/find_subsequence.hpp'),('point_polyline_orientation',A+'point_sequence/point_polyline_orientation.hpp'),('polyline_signed_curvature_at_index, polyline_total_curvature, polyline_total_absolute_curvature',A+'point_sequence/curvature.hpp')],
 note='Consecutive points distinct. Kernels enter by their contracts proved in C02 and C03.')
Q=A+'point_sequence/'
prop('C18','Intersection queries of polylines and polygons find every meeting edge',
 'For a segment against a polyline or the border of a polygon, for two polylines, and for a polyline with itself, the query reports an intersection exactly when some edge (or pair of edges) in question meets, and its visitor is shown every meeting edge (or pair) exactly once, with the classification and points of that pair, until it asks to stop; neighbouring segments of one polyline count as meeting only when they overlap. A polygon is reported simple exactly when no two edges meet that are not neighbours. A polyline meets a box exactly when one of its segments does, a polygon exactly when one of its edges does or a corner of the box is inside it.',
 'every number of points, every real coordinate, every moment at which the visitor stops','every pair of edges counts for every number of points, seam edge included; an early exit or a skipped pair shows only when the one meeting pair is the skipped one',
 [I+'segment_polyline_intersection.hpp',I+'segment_polygon_intersection.hpp',I+'polyline_polyline_intersection.hpp',I+'polyline_aabb_intersection.hpp',I+'polygon_aabb_intersection.hpp',Q+'self_intersection.hpp',Q+'is_polygon_simple.hpp'],
 [('segment_polyline_intersect, segment_polygon_border_intersect, polyline_polyline_intersect',I),('polyline_self_intersection, is_polygon_simple',Q),('polyline_aabb_intersection, polygon_aabb_intersection',I)],
 note='Segment, segment-box and point-in-polygon kernels enter by their contracts proved in C01, C09 and C15. The vertices of a polygon asked to be simple are distinct.')
prop('C19','Cleaning an outline removes only points it does not need',
 'Removing collinear points from a polyline or polygon with any number of points keeps the first point (and the last of a polyline) and otherwise only points of the outline in their order; every removed point lies on the edge that replaces it, and no three consecutive points kept are collinear. Coalescing adjacent points keeps the first point and then exactly those farther than the tolerance from the last one kept. For polygons the last point is also judged against the first.',
 'every number of points, every real coordinate, every tolerance','the result is built point by point from its own last points, so a wrong replacement or a dropped corner shows only after particular runs of points',
 [Q+'remove_collinear_points.hpp'],[('remove_collinear_points_polyline/polygon, coalesce_adjacent_points_polyline/polygon',Q+'remove_collinear_points.hpp')],
 note='For the removal of collinear points, consecutive points are distinct and the outline does not turn straight back. The result is a ghost sequence (the functions are templates over the sequence type). The corner at the first point of a polygon is not promised to be removed.')
prop('C20','Splitting, clipping and halving polylines is exact',
 'For every polyline with any number of points and every position, splitting gives exactly the points up to the position, then exactly those after it, both parts meeting in the point at that length along the polyline (the end, if the position is beyond it). Clipping a distance off the front, the back or both ends keeps exactly the points beyond it, in their order, starting in the point at that distance, and nothing of a polyline that is not longer. The mid point is the point at half the length.',
 'every number of points, every real coordinate, every position or distance','the cut can fall in any segment or on any vertex, first and last included, and the pieces must fit together for every length',
 [Q+'polyline_split.hpp',Q+'clip_polyline_ends.hpp',Q+'polyline_mid_point.hpp'],[('polyline_split',Q+'polyline_split.hpp'),('clip_polyline_front/back/ends, polyline_segment_lengths',Q+'clip_polyline_ends.hpp'),('polyline_mid_point',Q+'polyline_mid_point.hpp')],
 note='Consecutive points distinct; distances are not negative. Results and the vector of lengths are ghost sequences, std::reverse enters by its contract.')
# ---- not claimed
prop('N01','Sweep line, arrangement and decomposition results are complete',
 'Bentley-Ottmann intersection, splitting of self intersections and trapezoidal decomposition report every intersection or cell exactly once.',
 'every set of segments','completeness is over all inputs',[A+'bentley_ottmann_segment_intersection.hpp',A+'trapezoidal_decomposition.hpp',A+'intersection/split_self_intersections.hpp'],[('sweep',A+'bentley_ottmann_segment_intersection.hpp')],
 claimed=False,reason='The state is red-black trees (std::set/map) ordered by comparers that depend on the moving sweep point; their node-based library code over symbolic keys is beyond the VC generator, and no contract for std::set whose order changes between operations is within reach.')
prop('N02','Convex hulls contain every point and use only input points',
 'The Graham and divide and conquer hulls return the convex polygon of the input points.','every point set','a hull claim quantifies over all inputs',[A+'convex_hull_graham.hpp',A+'convex_hull_divide_and_conquer.hpp'],[('hull',A+'convex_hull_graham.hpp')],
 claimed=False,reason='Both sort symbolic points (std::sort over a user comparer) and keep node-linked stacks; the permutation reasoning needed has no contract in reach, and bounded instances explode in the orders of the input.')
prop('N03','BSP trees, meshes and half edge structures classify points consistently',
 'Solid-leaf and node BSP trees, triangle meshes, the half edge list and mesh searches agree with the polygon they are built from.','every polygon','structural invariants hold over every construction',[A+'solid_leaf_bsp_tree.hpp',A+'node_bsp_tree_2d.hpp',A+'mesh_2d.hpp',A+'doubly_connected_edge_list.hpp'],[('trees and meshes',A+'solid_leaf_bsp_tree.hpp')],
 claimed=False,reason='Heap allocated recursive structures of input dependent shape (shared and intrusive pointers, boost containers, an external triangulator); the VC generator has no separation logic for recursive heap predicates.')
prop('N04','Iterative 3D distance code and plane construction',
 'Eberly segment/segment distance, plane objects and slerp return the exact results.','every input','sign cases over all reals',[A+'distance/eberly_segment_segment_distance.hpp','geometrix/primitive/plane.hpp'],[('unused or not compiling code','geometrix/primitive/plane.hpp')],
 claimed=False,reason='The code is unused and does not compile in C++14 (plane, slerp, predicates, circumcircle, Bresenham) or is wrong and unreachable (Eberly), so there is no running code to put under contract.')
