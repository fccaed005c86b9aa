"""Which contracts decide which property."""
HOLES = ([r'point_sequence_area', r'point_sequence_distance', r'point_sequence_is_45', r'8containsI.*(5HoleT|view_of)'],
         [(r'point_sequence_area', 'c_area'), (r'point_sequence_distance', 'c_len'), (r'point_sequence_is_45', 'c_oct'), (r'8containsI5HoleT', 'c_has_hole'), (r'8containsI.*view_of', 'c_has_outer')])
EDIT = [(r'polygon8convolveI3UPt', 'c_conv'), (r'polygon8scale_upI3UPt', 'c_up'), (r'polygon10scale_downI3UPt', 'c_down'), (r'polygon5scaleI3UPt', 'c_sc'), (r'polygon9transformI3UPt', 'c_tr'),
        (r'polygon8convolveI2HT', 'c_hconv'), (r'polygon8scale_upI2HT', 'c_hup'), (r'polygon10scale_downI2HT', 'c_hdown'), (r'polygon5scaleI2HT', 'c_hsc'), (r'polygon9transformI2HT', 'c_htr')]
REG = {
 'C01': dict(level='proof', contracts=['interval.cpp'], native_secs=0.7,
   note='Every obligation (postconditions and absence of undefined behaviour) of every interval operation is discharged for all int bounds; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C02': dict(level='proof', contracts=['interval.cpp'], native_secs=0.7,
   note='Every obligation of the interval arithmetic contracts is discharged for all int bounds with representable results; factor scaling is proved for the factors 0..64 and 1/2 only; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C03': dict(level='proof', contracts=['rectangle.cpp'], native_secs=0.7,
   note='Every obligation of every rectangle predicate and set operation is discharged for all int bounds and both touch flags; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C04': dict(level='proof', contracts=['rectangle.cpp'], native_secs=0.7,
   note='Every obligation of the rectangle measure and edit contracts is discharged for all int bounds with representable results; anisotropic scaling is proved for integral factors -8..8 only; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C05': dict(level='proof', contracts=['distance.cpp'], native_secs=1.0,
   note='Every obligation is discharged for all int coordinates whose squared distance fits the distance type (segments: |coordinate| < 2^30); Euclidean distances are pinned to 2^-50 relative error of the exact square over the reals with rounding; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C06': dict(level='proof', contracts=['transform.cpp'], native_secs=0.7,
   note='Every obligation is discharged for all eight axis transformations and all pairs, points and displacements with |coordinate| <= 2^28; scale factors are the eighths in [-8,8], inversion is proved for integral factors up to 8; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C07': dict(level='proof', contracts=[dict(file='segment.cpp', prefix='h_C07o_', tag='o', opts=dict(weight=9)),
     dict(file='segment.cpp', prefix='h_C07_', noinline=[r'_ZN5boost7polygon11orientationI.*segment_dataIiEES3_'], opts=dict(contracts=[(r'_ZN5boost7polygon11orientationI.*segment_dataIiEES3_', 'c_orientation_segments')])),
     dict(file='segment.cpp', prefix='h_C07i_', tag='i', noinline=[r'_ZN5boost7polygon11orientationI.*segment_dataIiEENS0_10point_dataIiE'], opts=dict(contracts=[(r'_ZN5boost7polygon11orientationI.*segment_dataIiEENS0_10point_dataIiE', 'c_orientation_point')]))], native_secs=1.0,
   bounded=[dict(file='segment.cpp', secs=6, jobs=2, bound='all segment pairs on the 4x4 grid; then random pairs up to the full int range, biased to near-collinear and shared ends')],
   note='Orientation is proved to be the sign of the exact cross product for all int coordinates; containment, intersection, abutment and the edits are proved against that contract for all int coordinates (edits: representable results, scale factors 1..64); a bounded enumeration of small grids ties the intersection criterion to the existence of a common point; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C08': dict(level='proof', contracts=[dict(file='sweep.cpp', prefix='h_C08_', tag='a'),
     dict(file='sweep.cpp', prefix='h_C08s_', tag='s', noinline=[r'scanline_baseIiE1[01](equal|less)_slopeERKi'], opts=dict(contracts=[(r'scanline_baseIiE11equal_slopeERKi', 'c_equal_slope_points'), (r'scanline_baseIiE10less_slopeERKi', 'c_less_slope_points')])),
     dict(file='sweep.cpp', prefix='h_C08e_', tag='e', noinline=[r'scanline_baseIiE17on_above_or_below', r'scanline_baseIiE10less_slopeIx'], opts=dict(contracts=[(r'scanline_baseIiE17on_above_or_below', 'c_on_above_or_below'), (r'scanline_baseIiE10less_slopeIx', 'c_less_slope_diffs')]))], native_secs=1.0,
   bounded=[dict(file='sweep.cpp', secs=6, jobs=2, bound='all edge pairs on the 4x4 grid; then random pairs up to |coordinate| 2^30, biased to near-collinear and shared ends')],
   note='Slope comparison, equality, point-side, point order, and the edge order at a sweep position (given the side contract) are proved exact for all int coordinates; the crossing test and the agreement of the edge order with exact heights are a bounded enumeration; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C09': dict(level='proof', contracts=[dict(file='polyloop.cpp', prefix='h_C09_', opts=dict(templates='poly')),
     dict(file='polyloop.cpp', prefix='h_C09l_', tag='l', noinline=[r'euclidean_distanceI.*point_dataIiEES.*y_pt_ed2'], opts=dict(templates='poly', contracts=[(r'euclidean_distanceI.*point_dataIiEES.*y_pt_ed2', 'c_ed')])),
     dict(file='polyholes.cpp', prefix='h_C09h_', tag='h', noinline=HOLES[0], opts=dict(templates='poly', contracts=HOLES[1]))], native_secs=1.0,
   bounded=[dict(file='poly.cpp', opt='-O1', secs=8, jobs=2, args=['C09'], bound='random simple rectilinear, octilinear and general polygons of up to about 40 vertices with up to three holes, coordinates up to 2^28, every library polygon type')],
   note='Area, winding, extents, octilinearity and edge-length sum are proved for polygons with any number of vertices (loop invariants found from templates and checked inductive), and for any number of holes against the single-boundary contracts; coordinates of rectilinear areas below 2^29; perimeters over opaque edge lengths; the library polygon types and floating-point accumulation are a bounded comparison with exact geometry; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C10': dict(level='proof', contracts=[dict(file='polyloop.cpp', prefix='h_C10_', opts=dict(templates='poly')),
     dict(file='polyloop.cpp', prefix='h_C10c_', tag='c', noinline=[r'edge_utilsIiE17on_above_or_below'], opts=dict(templates='poly', contracts=[(r'edge_utilsIiE17on_above_or_below', 'c_oab')])),
     dict(file='polyside.cpp', prefix='h_C10p_'),
     dict(file='polyside.cpp', prefix='h_C10s_', tag='s', noinline=[r'edge_utilsIiE1[01](equal|less)_slopeERKi'], opts=dict(contracts=[(r'edge_utilsIiE11equal_slopeERKi', 'c_equal_slope_points'), (r'edge_utilsIiE10less_slopeERKi', 'c_less_slope_points')])),
     dict(file='polyholes.cpp', prefix='h_C10h_', tag='h', noinline=HOLES[0], opts=dict(templates='poly', contracts=HOLES[1]))], native_secs=1.0,
   bounded=[dict(file='poly.cpp', opt='-O1', secs=8, jobs=2, args=['C10'], bound='random simple rectilinear, octilinear and general polygons of up to about 40 vertices with up to three holes, coordinates up to 2^31, every library polygon type')],
   note='Containment is proved for rectilinear and for general polygons with any number of vertices: on the boundary exactly as the caller asked, elsewhere by the parity of a ray count, and for any number of holes; the side predicates are proved for all int coordinates; the library polygon types are a bounded comparison with exact geometry; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C11': dict(level='proof', contracts=[dict(file='polyedit.cpp', prefix='h_C11', noinline=[k for k, _ in EDIT], opts=dict(templates='edit', contracts=EDIT))], native_secs=0.7,
   bounded=[dict(file='poly.cpp', opt='-O1', secs=8, jobs=2, args=['C11'], bound='octilinear outlines scaled down or by a fraction; random simple rectilinear, octilinear and general polygons of up to about 40 vertices with up to three holes, coordinates up to 2^20, every library polygon type')],
   note='Move, convolve, scale and transform of polygons with any number of vertices, of compact rectilinear polygons and of polygons with any number of holes are proved to store, once, the image of every element in order, against the point-level contracts of C04/C06; assignment likewise; the storage of the library polygon types (and the 45-degree scale_down, which snaps) is a bounded comparison; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C27': dict(level='proof', contracts=[dict(file='geoset.cpp', prefix='h_C27', opts=dict(templates='compact'))], native_secs=0.7,
   bounded=[dict(file='geoset.cpp', opt='-O1', secs=6, jobs=2, bound='random rectilinear polygons of up to about 40 vertices with up to three holes, both orientations, as polygons and as holes')],
   note='Compact expansion and compression (and both round trips) are proved for sequences of any length; rectangle edges for all int rectangles; polygon edges for rectilinear polygons of any length: order, coordinates and weight of every corner, and that the weights below and left of any point add up to the crossings of its leftward ray; iteration over holes is a bounded comparison; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C19': dict(level='proof', contracts=[dict(file='extint.cpp', prefix='h_C19_', opts=dict(query_ms=300))], native_secs=1.0,
   bounded=[dict(file='extint.cpp', cxx='clang++-18', secs=6, jobs=2, bound='random operand pairs of every size for the capacities 1..5, 8 and 64, biased to carries, cancellation and equal prefixes')],
   note='Construction, comparison, negation, sum, difference, product and conversion to double are proved for every value of capacity 2 and 4 (all chunk contents, all lengths and signs); capacity 64 (the one the Voronoi predicates use) is the same template and is covered by a bounded comparison with 4400-bit integers; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C20': dict(level='proof', contracts=[
     dict(file='vpred.cpp', prefix='h_C20x_', tag='x', opts=dict(weight=9)),
     dict(file='vpred.cpp', prefix='h_C20_', tag='a', noinline=[r'robust_cross_product'], opts=dict(contracts=[(r'robust_cross_product', 'c_cross')])),
     dict(file='vpred.cpp', prefix='h_C20u_', tag='u', noinline=[r'ulp_comparisonIdEclE'], opts=dict(contracts=[(r'ulp_comparisonIdEclE', 'c_ulp')])),
     dict(file='vpred.cpp', prefix='h_C20t_', tag='t', noinline=[r'orientation_test4evalINS1_8point_2dIiEEEE'], opts=dict(contracts=[(r'orientation_test4evalI.*point_2d', 'c_turn')])),
     dict(file='vpred.cpp', prefix='h_C20s_', tag='s', optargs=['-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false'], noinline=[r'robust_cross_product', r'get_sqrt'], opts=dict(contracts=[(r'robust_cross_product', 'c_cross_near'), (r'get_sqrt', 'c_len')], weight=8)),
     dict(file='vpred.cpp', prefix='h_C20l_', tag='l'), dict(file='vpred.cpp', prefix='h_C20c_', tag='c', opts=dict(weight=9)),
     dict(file='vpred.cpp', prefix='h_C20f_', tag='f', noinline=[r'orientation_test4evalINS1_8point_2dIiEEEE', r'find_distance_to_(point|segment)_arc'], opts=dict(contracts=[(r'orientation_test4evalI.*point_2d', 'c_turn'), (r'find_distance_to_point_arc', 'c_pa'), (r'find_distance_to_segment_arc', 'c_sa')])),
     dict(file='vpred.cpp', prefix='h_C20d_', tag='d', noinline=[r'orientation_test4evalINS1_8point_2dIiEEEE', r'find_distance_to_(point|segment)_arc', r'fast_ps'], opts=dict(contracts=[(r'orientation_test4evalI.*point_2d', 'c_turn'), (r'find_distance_to_point_arc', 'c_pa'), (r'find_distance_to_segment_arc', 'c_sa'), (r'fast_ps', 'c_fast')])),
     dict(file='vpred.cpp', prefix='h_C20p_', tag='p', noinline=[r'find_distance_to_point_arc'], opts=dict(contracts=[(r'find_distance_to_point_arc', 'c_point_arc')])),
     dict(file='vpred.cpp', prefix='h_C20n_', tag='n', noinline=[r'distance_predicateI.*clE'], opts=dict(contracts=[(r'distance_predicateI.*clE', 'c_dist')])),
     ], native_secs=1.0,
   bounded=[dict(file='vpred.cpp', secs=10, jobs=4, bound='every circle formation made while building random diagrams (<= 28 objects, coordinates up to the full int range, biased to collinear, cocircular and shared-end inputs), filtered and multi-precision alike, against 113-bit geometry; random arc comparisons away from ties')],
   note='Cross product, orientation, point order, site order (with its order laws), arc distances, all arc comparisons, node comparison and circle existence are proved for all 32-bit sites; arc comparisons are proved right whenever the distances differ by more than the rounding margin; the circle coordinates themselves are covered by a bounded comparison; trusts clang IR extraction, vcg, the SMT solvers and libm sqrt.'),
 'C21': dict(level='proof', contracts=[dict(file='efpt.cpp', prefix='h_C21_', noinline=[r'extended_exponent_fptIdNS1_.*EC2Edi'], opts=dict(contracts=[(r'extended_exponent_fptIdNS1_.*EC2Edi', 'c_construct')])), dict(file='efpt.cpp', prefix='h_C21c_', tag='c')], native_secs=1.0,
   bounded=[dict(file='efpt.cpp', secs=5, jobs=2, bound='random finite doubles stepped up to 12 neighbours apart; random mantissas with exponents in [-3000,3000] against 113-bit floats')],
   note='The ulp comparison is proved for every pair of finite bit patterns and every bound; sums, differences, products, quotients and roots of the extended-exponent float are proved within one rounding for every normal mantissa and all exponents up to 5e8, over the reals with round-to-nearest and the libm contracts of frexp, ldexp and sqrt (assumed); trusts clang IR extraction, vcg and the SMT solvers.'),
 'C22': dict(level='proof', contracts=[dict(file='robust.cpp', prefix='h_C22_', tag='a'),
     dict(file='robust.cpp', prefix='h_C22b_', tag='b', noinline=[r'robust_sqrt_expr.*E5eval1'], opts=dict(contracts=[(r'robust_sqrt_expr.*E5eval1', 'c_eval1')])),
     dict(file='robust.cpp', prefix='h_C22c_', tag='c', noinline=[r'robust_sqrt_expr.*E5eval[12]'], opts=dict(contracts=[(r'robust_sqrt_expr.*E5eval1', 'c_opaque1'), (r'robust_sqrt_expr.*E5eval2', 'c_opaque2')])),
     dict(file='robust.cpp', prefix='h_C22d_', tag='d', noinline=[r'robust_sqrt_expr.*E5eval[23]'], opts=dict(contracts=[(r'robust_sqrt_expr.*E5eval2', 'c_opaque2'), (r'robust_sqrt_expr.*E5eval3', 'c_opaque3')])),
     ], native_secs=1.0,
   bounded=[dict(file='robust.cpp', cxx='clang++-18', secs=6, jobs=2, bound='random sums of 1..4 terms with 64-bit A and B, biased to cancelling terms, against 700-bit fixed point')],
   note='The tracked relative error of every operation of the error-tracking float is proved an upper bound of the true error (operands with tracked error <= 2^20 units, magnitudes 1e-90..1e100), the split sums are proved exact on integers, and the sums of one to four root terms are proved within 4/7/16/25 units with the right sign for all integers up to 2^60 (exact integer type, double results, roundings over the reals without underflow; each sum against the contracts of the shorter sums); trusts clang IR extraction, vcg, the SMT solvers and libm sqrt.'),
 'C23': dict(level='proof', contracts=[dict(file='vdiag.cpp', prefix='h_C23_')], native_secs=1.0,
   bounded=[dict(file='voronoi.cpp', opt='-O2', secs=12, jobs=4, args=['topo'], bound='random admissible inputs (<= 28 objects, coordinates up to the full int range; points, segments, chains, stars, axis-parallel, lattice and collinear shapes)')],
   note='The edge kinds, cell and vertex records and the pointer updates of the two insertions and of the final pass (two sites, three sites around a vertex) are proved for all sites and coordinates; that the sweep as a whole produces a well-formed diagram is only checked, bounded, on random admissible inputs; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C24': dict(level='proof', contracts=[dict(file='vdiag.cpp', prefix='h_C24u_', tag='u', noinline=[r'ulp_comparisonIdEclE'], opts=dict(contracts=[(r'ulp_comparisonIdEclE', 'c_ulp128')])), dict(file='vdiag.cpp', prefix='h_C24_', tag='a')], native_secs=1.0,
   bounded=[dict(file='voronoi.cpp', opt='-O2', secs=14, jobs=4, args=['geom'], bound='random admissible inputs (<= 28 objects, coordinates up to the full int range), distances in 64-bit-mantissa floats')],
   note='That every vertex is the centre of its circle event and that coincident vertices are merged without breaking the cycles is proved for all coordinates (four sites, two events); the predicates behind the events are proved under C20; equidistance and emptiness of the whole diagram are only checked, bounded, on random admissible inputs; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C25': dict(level='proof', contracts=[dict(file='vdiag.cpp', prefix='h_C25_')], native_secs=1.0,
   bounded=[dict(file='voronoi.cpp', opt='-O2', secs=8, jobs=4, args=['reg'], bound='random input sequences (<= 28 objects) and random interleavings of queue pushes and pops')],
   note='Registration of points and segments, the accessors of sites, circle events and beach-line nodes, and the queue on three elements are proved for all coordinates and indices; the sorted, deduplicated site list and long queue histories are checked, bounded; trusts clang IR extraction, vcg, the SMT solvers and libstdc++ list hooks.'),
 'C12': dict(level='proof', contracts=['kernels.cpp', dict(file='boolop.cpp', prefix='h_C12b_', tag='b', opts=dict(templates='scan', weight=9, budget_s=400)), dict(file='boolloop.cpp', prefix='h_C12w_', tag='w', opts=dict(templates='walk', weight=8, budget_s=400))], native_secs=0.7,
   bounded=[dict(file='manhattan.cpp', opt='-O1', secs=14, jobs=3, args=['C12'], bound='random collections of up to about ten rectilinear pieces (rectangles, polygons, polygons with holes) on grids of up to 24 lines stretched up to the int range, any insertion order and scan orientation; every cell of the grid is compared')],
   note='Proved for scan maps and sorted edge streams of any size: processInterval adds the count over exactly the interval and emits exactly the change of every cell, both walks over the stored edges (one operand, two operands) output in order exactly the change of every cell, for any counting rule, and the counting rule of every operation; building the stored edges, sorting, and the operators and views on top are only checked, bounded, cell by cell; trusts clang IR extraction, vcg, the SMT solvers and the ghost std::map and std::vector.'),
 'C13': dict(level='other', contracts=[dict(file='set90.cpp', prefix='h_C13_', opts=dict(templates='inplace')), dict(file='rectform.cpp', prefix='h_C13r_', tag='r', opts=dict(weight=6, budget_s=400)), dict(file='rectloop.cpp', prefix='h_C13f_', tag='f', opts=dict(templates='handon'))], native_secs=0.7,
   bounded=[dict(file='manhattan.cpp', opt='-O1', secs=14, jobs=3, args=['C13'], bound='random rectilinear regions on grids of up to 24 lines, every output form and both orientations, compared cell by cell')],
   note='The extents of a set of any size are proved, and so is the step of rectangle extraction that takes in one edge of a scan position, for any number of open rectangles: exactly the cells of the edge toggle, what was open there is written out once up to the scan position, and the open rectangles stay apart; the loop over the stored edges hands on every edge of every scan position once and in order (streams of any length).  How the open rectangles carry over from one scan position to the next, and the extracted polygons and trapezoids, are only checked, bounded, cell by cell on random regions; trusts clang IR extraction, vcg, the SMT solvers and the ghost std::vector.'),
 'C14': dict(level='other', contracts=[dict(file='sizing.cpp', prefix='h_C14f_', tag='z', noinline=[r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$'], drop=[r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$'], opts=dict(contracts=[(r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_grow'), (r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_bloat'), (r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_shrink')])),
     dict(file='set90.cpp', prefix='h_C14_', opts=dict(templates='inplace'))], native_secs=0.7,
   bounded=[dict(file='manhattan.cpp', opt='-O1', secs=14, jobs=3, args=['C14'], bound='random rectilinear regions on grids of up to 24 lines, sizings that close and open gaps, compared with the Minkowski sum or erosion at every cell')],
   note='Moving, scaling and transforming a stored set of any size maps every stored edge as requested, and sizing one vertex moves its two edges outward, for all coordinates in range; the sized region as a whole is only checked, bounded; trusts clang IR extraction, vcg, the SMT solvers and the ghost std::vector.'),
 'C15': dict(level='other', contracts=['kernels.cpp'], native_secs=0.7,
   bounded=[dict(file='sets.cpp', defs=['-DOCT'], opt='-O1', secs=20, jobs=3, bound='random octilinear operands with crossings on the grid, all operations and output forms, compared at sample points of every cell of the arrangement')],
   note='Heights, crossings, vertex and edge orders of the 45-degree sweep and the counting rule of every operation are proved for all coordinates in range and all counts; whole operations are only checked, bounded; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C16': dict(level='other', contracts=['kernels.cpp'], native_secs=0.7,
   bounded=[dict(file='sets.cpp', opt='-O1', secs=20, jobs=3, bound='random general operands with crossings on the grid and coordinates up to 2^20, all operations and output forms, compared at sample points of every cell of the arrangement')],
   note='The counting rule of every operation is proved for all counts and the edge comparisons it relies on under C08; whole operations are only checked, bounded; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C18': dict(level='other', contracts=['kernels.cpp', dict(file='propmerge.cpp', prefix='h_C18p_', tag='p', opts=dict(templates='counts', weight=6, budget_s=400))], native_secs=0.7,
   bounded=[dict(file='manhattan.cpp', opt='-O1', secs=10, jobs=2, args=['C18'], bound='random collections of rectilinear nodes and layers on grids of up to 24 lines'),
     dict(file='layers.cpp', defs=['-DOCT'], opt='-O1', secs=14, jobs=2, bound='random octilinear nodes and layers with crossings on the grid'), dict(file='layers.cpp', opt='-O1', secs=14, jobs=2, bound='random general nodes and layers with crossings on the grid, coordinates up to 2^20')],
   note='The bookkeeping of links and of property counts at one edge or vertex is proved, and for property maps of any length that merging two adds the count of every property, keeps the map sorted and drops zeros (rectilinear, octilinear and general versions, adding and subtracting), and that the reported set holds exactly the properties of positive count; whole extractions and merges are only checked, bounded, on random geometry; trusts clang IR extraction, vcg and the SMT solvers.'),
 'C26': dict(level='other', contracts=[dict(file='sizing.cpp', prefix='h_C26f_', tag='z', noinline=[r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$'], drop=[r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$'], opts=dict(contracts=[(r'polygon8grow_andI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_grow'), (r'polygon5bloatI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_bloat'), (r'polygon6shrinkI.*area_typeE(S[0-9A-Z]*_){3}$', 'c_shrink')])),
     dict(file='set90.cpp', prefix='h_C26_', tag='k', defs=['-DKEEP'], drop=[r'polygon7extentsI14rectangle|polygon7extentsI.*polygon_90_data', r'polygon4areaI', r'polygon6assignI', r'polygon5clearI'],
     opts=dict(templates='inplace', contracts=[(r'polygon7extentsI.*rectangle_data.*polygon_90_data', 'c_extents'), (r'polygon4areaI.*polygon_90_data', 'c_area'), (r'polygon6assignINSt7__cxx114listI.*polygon_90_set_data', 'c_extract'), (r'polygon5clearI.*polygon_90_set_data', 'c_clear'), (r'polygon6assignINS0_19polygon_90_set_dataI.*4list', 'c_store')]))], native_secs=0.7,
   bounded=[dict(file='manhattan.cpp', opt='-O1', secs=14, jobs=3, args=['C26'], bound='random rectilinear regions on grids of up to 24 lines; maximal rectangles compared with exhaustive enumeration')],
   note='keep() retains exactly the pieces within the bounds, for any number of pieces of any size; interact, maximal rectangles and grow are only checked, bounded; trusts clang IR extraction, vcg, the SMT solvers and the ghost std::list.'),
 'C17': dict(level='other', contracts=[dict(file='segset.cpp', prefix='h_C17_', opts=dict(templates='poly')),
     dict(file='pixel.cpp', prefix='h_C17p_', tag='p', noinline=[r'scanline_baseIiE17on_above_or_below', r'scanline_baseIiE11equal_slopeERKi'], opts=dict(contracts=[(r'scanline_baseIiE17on_above_or_below', 'c_side'), (r'scanline_baseIiE11equal_slopeERKi', 'c_equal_slope')]))], native_secs=0.7,
   bounded=[dict(file='segs.cpp', opt='-O1', secs=16, jobs=4, bound='random segment sets of up to about twelve segments, coordinates up to 2^20; exact cuts required where the crossings are on the grid')],
   note='The envelope of any number of segments is proved (the comparisons behind crossings: C08); that an edge counts as meeting a pixel exactly when it meets its half-open square is proved for all coordinates below 2^30; the pieces of whole sets are only checked, bounded, on random sets; trusts clang IR extraction, vcg and the SMT solvers.'),
}
NA = {}
