claim('P01', 'Vector and matrix arithmetic obeys linear algebra',
      'Every public vector, matrix and scalar-math operation (arithmetic, dot and cross products, norms, transpose, inverse, determinant, component selection, '
      'clamping, interpolation) returns the value its mathematical definition prescribes, and equivalent forms of an operation agree. '
      'Degenerate operands such as zero-length vectors take the documented fallback instead of producing garbage.',
      'inputs', 'all finite operand values, for every overload and both operand orders',
      'The unit tests evaluate a handful of concrete operands of a few operations; an error in one component, one sign or one overload that they do not touch survives.',
      'include/edyn/math/vector3.hpp include/edyn/math/vector2.hpp include/edyn/math/matrix3x3.hpp include/edyn/math/vector2_3_util.hpp include/edyn/math/math.hpp include/edyn/math/scalar.hpp',
      [('component-wise operators and products', 'include/edyn/math/vector3.hpp'), ('matrix products, inverse, determinant', 'include/edyn/math/matrix3x3.hpp'),
       ('scalar helpers', 'include/edyn/math/math.hpp')], ALG, ALGNOTE)
claim('P02', 'Orientations represent rotations consistently in every form',
      'Quaternions, rotation matrices, axis-angle pairs and rigid transforms describe the same rotations: composing, inverting, converting and interpolating them agrees with applying them to vectors. '
      'Integrating an orientation over a time step keeps it a unit rotation about the angular velocity.',
      'inputs', 'all unit quaternions, rotation axes, angles, positions and time steps',
      'Conversions have several numerically selected branches (largest diagonal element, small angle, negative dot product) and tests hit one point of one branch.',
      'include/edyn/math/quaternion.hpp src/edyn/math/quaternion.cpp include/edyn/math/matrix3x3.hpp include/edyn/math/transform.hpp include/edyn/math/coordinate_axis.hpp',
      [('Hamilton product, rotate, slerp, integrate', 'include/edyn/math/quaternion.hpp, src/edyn/math/quaternion.cpp'), ('matrix conversion', 'include/edyn/math/matrix3x3.hpp'),
       ('to_world_space / to_object_space', 'include/edyn/math/transform.hpp')], ALG, ALGNOTE)
claim('P03', 'Closest-point and intersection queries return true geometric answers',
      'Each closest-point query returns points that lie on the two features, at the reported parameters and distance, and satisfying the first-order conditions of the minimum; '
      'each intersection query reports a hit exactly when the features meet and only points that lie on both. Degenerate configurations (parallel, concentric, tangent, zero length) are covered as well.',
      'inputs', 'all positions, orientations, sizes and parameters of lines, segments, discs, circles, boxes, cylinders, spheres, prisms and triangles',
      'Tests sample a few configurations per query; each query has several clamping and degenerate branches that depend on real-valued inputs.',
      'include/edyn/math/geom.hpp src/edyn/math/geom.cpp include/edyn/math/triangle.hpp src/edyn/math/triangle.cpp',
      [('closest_point_* and intersect_* functions', 'src/edyn/math/geom.cpp'), ('raycast and clipping helpers', 'include/edyn/math/geom.hpp')], ALG, ALGNOTE)
claim('P04', 'Support features and polygon queries of shapes describe the shape',
      'The support point of a box, cylinder, capsule, triangle or point cloud belongs to it, no other point projects further along the direction, and the world-space forms are the transformed object-space form. '
      'Faces, edges, vertices and feature indices form one consistent topology (each edge between its two faces, counter-clockwise faces, index lookups that invert each other), '
      'and polygon tests (inside, closest point, hull of few points, winding) agree with geometry on every edge, the closing one included.',
      'inputs', 'all directions, dimensions, placements and feature indices',
      'The collision tests exercise some shapes in some poses; a wrong entry of a feature table, a missed edge or a wrong tie-break only shows in a specific orientation.',
      'include/edyn/shapes/box_shape.hpp src/edyn/shapes/box_shape.cpp src/edyn/shapes/cylinder_shape.cpp include/edyn/shapes/capsule_shape.hpp src/edyn/util/shape_util.cpp include/edyn/util/shape_util.hpp src/edyn/math/triangle.cpp',
      [('box topology tables and support features', 'src/edyn/shapes/box_shape.cpp'), ('cylinder support feature', 'src/edyn/shapes/cylinder_shape.cpp'),
       ('support functions and polygon helpers', 'src/edyn/util/shape_util.cpp'), ('triangle support', 'src/edyn/math/triangle.cpp')], ALG, ALGNOTE)
claim('P05', 'Bounding boxes enclose their shapes tightly and overlap tests are exact',
      'The axis-aligned box computed for a shape, point cloud or union encloses every point of it and touches it on every side, in any position and orientation. '
      'Containment, overlap and segment-versus-box tests answer exactly according to the closed intervals, symmetrically.',
      'inputs', 'all positions, orientations, dimensions and pairs of boxes',
      'Broad phase and island AABBs rely on this for every pose; a loose or too small box in some orientation only loses a contact now and then.',
      'include/edyn/comp/aabb.hpp src/edyn/util/aabb_util.cpp include/edyn/util/aabb_util.hpp include/edyn/math/geom.hpp src/edyn/math/geom.cpp src/edyn/util/shape_util.cpp',
      [('AABB operations', 'include/edyn/comp/aabb.hpp'), ('shape_aabb overloads', 'src/edyn/util/aabb_util.cpp'), ('intersect_segment_aabb, intersect_aabb', 'src/edyn/math/geom.cpp')], ALG, ALGNOTE)
claim('P06', 'Mass properties equal the integrals over the shape',
      'Volume, centroid and moment of inertia of boxes, spheres, cylinders, capsules and polyhedra equal the integrals over the solid of uniform density, along any axis, '
      'and shifting an inertia follows the parallel axis theorem; a polyhedron with the form of a primitive has the properties of that primitive.',
      'inputs', 'all masses, dimensions, axes and vertex positions',
      'Tests compare a few numbers for symmetric shapes, where wrong signs of products of inertia and wrong axis choices cancel.',
      'include/edyn/dynamics/moment_of_inertia.hpp src/edyn/dynamics/moment_of_inertia.cpp src/edyn/math/shape_volume.cpp include/edyn/math/shape_volume.hpp src/edyn/util/shape_util.cpp',
      [('moment_of_inertia_* functions', 'src/edyn/dynamics/moment_of_inertia.cpp'), ('volumes', 'src/edyn/math/shape_volume.cpp'), ('mesh_centroid', 'src/edyn/util/shape_util.cpp')], ALG, ALGNOTE)
claim('P07', 'Constraint rows conserve momentum and respect their impulse limits',
      'Preparing a row computes the inverse effective mass and the target velocity; solving it keeps the accumulated impulse within its limits and returns exactly its change; applying an impulse changes the velocities of both bodies by M^-1 J^T times it. '
      'Friction impulses never exceed the coefficient times the normal impulse and keep their direction, material parameters mix symmetrically, and cached rows are handed back once, in order, to the constraint that added them.',
      'inputs', 'all Jacobians, masses, inertias, velocities, limits, impulses and material coefficients',
      'The solver converges to plausible motion even with a wrong sign or scale in one row type, so scenario tests do not settle it.',
      'src/edyn/constraints/constraint_row.cpp include/edyn/constraints/constraint_row.hpp include/edyn/constraints/constraint_row_friction.hpp src/edyn/constraints/constraint_row_friction.cpp src/edyn/constraints/constraint_row_spin_friction.cpp include/edyn/dynamics/row_cache.hpp include/edyn/dynamics/material_mixing.hpp include/edyn/util/constraint_util.hpp',
      [('solve / warm_start / apply_row_impulse', 'src/edyn/constraints/constraint_row.cpp'), ('friction rows', 'src/edyn/constraints/constraint_row_friction.cpp, src/edyn/constraints/constraint_row_spin_friction.cpp'),
       ('row caches', 'include/edyn/dynamics/row_cache.hpp'), ('mixing', 'include/edyn/dynamics/material_mixing.hpp')], ALG, ALGNOTE)
claim('P08', 'Triangle meshes have consistent topology, normals and per-vertex values',
      'After building a triangle mesh every edge is unique and knows its faces, every face its edges in order, every vertex its edges; an edge is a boundary exactly when one face has it; face normals are unit right-hand normals, '
      'adjacent normals and convexity of edges describe the neighboring face. Friction, restitution and materials at vertices, edges and faces interpolate the vertex values, and spatial queries visit exactly the triangles whose boxes touch.',
      'inputs', 'all vertex positions and values of meshes with the analysed connectivities (single triangle, pair, closed tetrahedron, open fan)',
      'Tests build a mesh and query a few points; adjacency and interpolation errors only matter for particular edges, windings and contact points.',
      'include/edyn/shapes/triangle_mesh.hpp src/edyn/shapes/triangle_mesh.cpp',
      [('init_edge_indices, calculate_adjacent_normals', 'src/edyn/shapes/triangle_mesh.cpp'), ('per-vertex value interpolation', 'src/edyn/shapes/triangle_mesh.cpp'), ('visit_triangles, raycast', 'include/edyn/shapes/triangle_mesh.hpp')], ALG, ALGNOTE)
claim('P09', 'Containers, mixing tables, action histories and trees keep their contents',
      'flat_nested_array, free_list, unordered_pair, the material mixing table, vector/array/tuple helpers, action_history and static_tree behave as the sequence, slot map, unordered pair, table, time-ordered log and bounding volume tree they model: '
      'values survive growth and removal, lookups are independent of order, slots are reused before growing, every box sits in exactly one leaf inside its ancestors, and queries and ray casts visit exactly the matching leaves.',
      'inputs history', 'all stored values, keys, times and boxes, for the analysed operation sequences and sizes',
      'Tests insert a few elements; reuse after removal, growth boundaries, ties, duplicates and degenerate boxes appear only in particular sequences.',
      'include/edyn/core/flat_nested_array.hpp include/edyn/core/free_list.hpp include/edyn/core/unordered_pair.hpp include/edyn/dynamics/material_mixing.hpp include/edyn/util/vector_util.hpp include/edyn/util/array_util.hpp include/edyn/util/tuple_util.hpp include/edyn/networking/comp/action_history.hpp include/edyn/collision/static_tree.hpp include/edyn/collision/query_tree.hpp',
      [('slot map', 'include/edyn/core/free_list.hpp'), ('pair order', 'include/edyn/core/unordered_pair.hpp'), ('merge of histories', 'include/edyn/networking/comp/action_history.hpp'), ('tree build and query', 'include/edyn/collision/static_tree.hpp, include/edyn/collision/query_tree.hpp')], ALG,
      ALGNOTE + ' Sizes and operation sequences are those of the laws in harness/laws_util.cpp; the stored values are arbitrary.')
claim('P10', 'Convex and generated meshes, hulls and contact point selection are sound',
      'Generated box and plane meshes and initialised convex meshes have outward unit normals, unique edges between their two faces, complete neighbor lists and lists of distinct face and edge directions, and rotating a mesh rotates all of it; recalculating changes nothing. '
      'Convex hulls and support polygons contain every point, and inserting a contact point keeps the set that spans the larger area: similar points merge, a fourth point inside the triangle is ignored, the middle of three collinear points is replaced.',
      'inputs history', 'all positions of contact points and box sizes; meshes, hull inputs and polygons of the analysed connectivities',
      'Contact manifolds degrade only for particular point configurations (collinear, coincident, just inside) that scenario tests do not reach.',
      'src/edyn/shapes/convex_mesh.cpp include/edyn/shapes/convex_mesh.hpp src/edyn/util/shape_util.cpp include/edyn/util/shape_util.hpp src/edyn/math/geom.cpp src/edyn/sys/update_rotated_meshes.cpp',
      [('mesh initialisation', 'src/edyn/shapes/convex_mesh.cpp'), ('hulls, support polygons, generated meshes', 'src/edyn/util/shape_util.cpp'), ('insertion_point_index', 'src/edyn/math/geom.cpp')], ALG,
      ALGNOTE + ' Mesh connectivities are those of the laws in harness/laws_mesh.cpp.')
claim('P11', 'What an archive writes is what an archive reads, and short data fails',
      'Writing any value of a serializable type (fundamental values, vectors, strings, bit vectors, arrays, pairs, optionals, variants, maps, math types, components, packets, shapes, meshes, action histories) and reading it back yields an equal value and consumes exactly the bytes written. '
      'An input archive never reads past its buffer and a fixed output archive never writes past its own: the first value that does not fit fails the archive for good, leaving the destination untouched, and the predicted serialized size is the real one.',
      'inputs history', 'all values of the fields, all buffer sizes of the analysed layouts, all interleavings of reads after a failure',
      'No test of the repository serializes anything in the buildable part; a dropped or swapped field or an off-by-one bound is silent until a peer disagrees.',
      'include/edyn/serialization/memory_archive.hpp include/edyn/serialization/std_s11n.hpp include/edyn/serialization/math_s11n.hpp include/edyn/serialization/s11n_util.hpp include/edyn/serialization/triangle_mesh_s11n.hpp include/edyn/comp/material.hpp include/edyn/networking/comp/action_history.hpp include/edyn/shapes/convex_mesh.hpp include/edyn/comp/action_list.hpp include/edyn/networking/packet/time_response.hpp',
      [('bounds and sticky failure', 'include/edyn/serialization/memory_archive.hpp'), ('container formats', 'include/edyn/serialization/std_s11n.hpp'), ('per-type serialize functions', 'include/edyn/comp, include/edyn/shapes, include/edyn/networking')], ALG,
      ALGNOTE + ' Container lengths are those of the laws in harness/laws_s11n.cpp; the contained values are arbitrary. Byte order and the wire format across platforms are outside.')
claim('P12', 'Every job runs once, in order, and no wake-up or stop request is lost',
      'A job pushed to a queue, a worker or the dispatcher is executed exactly once, in the order it was pushed to its worker, and goes to an idle worker while there is one. '
      'The queue and the counters are only touched under their mutex, every push and the last decrement wake a waiting thread, waits survive spurious wake-ups, and a stop request made at any time, before the worker starts included, ends the worker.',
      'schedules history', 'all job contents and the analysed interleavings of pushes, waits, spurious wake-ups and stop requests at every point where a thread waits',
      'A lost wake-up or a missing lock shows only under a specific interleaving that a test run almost never produces.',
      'include/edyn/parallel/job.hpp include/edyn/parallel/job_queue.hpp src/edyn/parallel/job_queue.cpp include/edyn/parallel/worker.hpp include/edyn/parallel/atomic_counter_sync.hpp include/edyn/parallel/job_dispatcher.hpp src/edyn/parallel/job_dispatcher.cpp',
      [('queue lock and condition', 'src/edyn/parallel/job_queue.cpp'), ('worker loop', 'include/edyn/parallel/worker.hpp'), ('dispatcher', 'src/edyn/parallel/job_dispatcher.cpp'), ('counter', 'include/edyn/parallel/atomic_counter_sync.hpp')], ALG,
      ALGNOTE + ' Mutexes, condition variables and threads are replaced by stand-ins with a ghost state (held, notified, guarded bytes); memory orderings of atomics are not modelled. Jobs still queued when a worker stops are dropped by design and not claimed.')

claim('P13', 'Joints and contacts restrict the motion they describe and keep their impulses',
      'The rows a point, distance, soft distance, gravity, hinge, cone, constant velocity or generic joint and a contact prepare measure, for bodies in any pose and with the center of mass away from the origin, the relative velocity of the pivots or axes the joint describes: '
      'free rows are unlimited, limits, bump stops, springs, dampers and friction only act in the direction and with the strength they are given, no feature loses or steals a row of another, and every row starts the next step with the impulse it ended with. '
      'Correcting positions moves both bodies by M^-1 J^T times the corrected error, keeps orientations unit and origin and inertia in step with them, brings pivots together and separated contacts nowhere.',
      'inputs history', 'all poses, velocities, masses, inertias, pivots, axes, limits, coefficients and impulses, for the analysed sets of enabled features',
      'A joint with a wrong lever arm, sign or limit still looks plausible in a scene; the repository has no unit tests of joints.',
      'src/edyn/constraints/point_constraint.cpp src/edyn/constraints/distance_constraint.cpp src/edyn/constraints/soft_distance_constraint.cpp src/edyn/constraints/gravity_constraint.cpp src/edyn/constraints/hinge_constraint.cpp src/edyn/constraints/cone_constraint.cpp src/edyn/constraints/cvjoint_constraint.cpp src/edyn/constraints/generic_constraint.cpp src/edyn/constraints/contact_constraint.cpp src/edyn/constraints/contact_extras_constraint.cpp include/edyn/dynamics/position_solver.hpp include/edyn/dynamics/row_cache.hpp src/edyn/util/constraint_util.cpp',
      [('prepare / store_applied_impulses / solve_position', 'src/edyn/constraints/*.cpp'), ('position_solver::solve', 'include/edyn/dynamics/position_solver.hpp'), ('row storage', 'include/edyn/dynamics/row_cache.hpp')], ALG, ALGNOTE)
claim('P14', 'Ray casts report the first surface point the ray meets, and its normal',
      'Casting a ray from outside a box, sphere, cylinder, capsule, polyhedron, plane or triangle mesh in any pose reports a hit exactly when the segment between its two ends meets the shape; '
      'the fraction is that of the first point in common, the normal is the outward unit normal of the surface there, and the feature info names the face, side, hemisphere or triangle that was hit.',
      'inputs', 'all ray positions and poses of the shapes, for the analysed ray directions and dimensions',
      'The only ray cast test hits one box twice; parallel, grazing, slanted and too short rays take other branches.',
      'src/edyn/collision/raycast.cpp include/edyn/collision/raycast.hpp src/edyn/math/geom.cpp include/edyn/shapes/triangle_mesh.hpp',
      [('shape_raycast overloads', 'src/edyn/collision/raycast.cpp'), ('intersect_ray_cylinder, intersect_ray_sphere, intersect_segment_triangle', 'src/edyn/math/geom.cpp')], ALG,
      ALGNOTE + ' Directions and dimensions are those of the laws in harness/laws_ray.cpp; what is reported for a ray that starts inside a shape is not claimed.')
claim('P15', 'Contact points lie on both shapes, the signed gap apart along a unit normal',
      'For two shapes in any place, contact generation reports a point exactly when their surfaces are within the given threshold: the normal is a unit vector from the second shape to the first, the distance is the signed gap along it, '
      'pivots are given in the space of their own body and are that gap apart along the normal, spheres, capsules and boxes touch at their closest points, a resting face touches with all corners of the common area, exchanging the shapes mirrors the points, and the normal stays attached to the shape whose face it is.',
      'inputs', 'all positions of the pair and, for spheres, capsules and planes, all orientations and distances; for the box, cylinder and polyhedron pairs the analysed relative poses and gaps',
      'No test of the repository calls a collide function; each pair has its own code with many feature combinations that a scene seldom reaches.',
      'include/edyn/collision/collide.hpp include/edyn/collision/collision_result.hpp src/edyn/collision/collision_result.cpp ' + ' '.join('src/edyn/collision/collide/collide_%s.cpp' % x for x in 'sphere_sphere sphere_plane sphere_box capsule_capsule capsule_sphere capsule_plane capsule_box cylinder_sphere cylinder_plane box_plane box_box cylinder_cylinder capsule_cylinder polyhedron_sphere polyhedron_plane polyhedron_box polyhedron_capsule polyhedron_polyhedron'.split()),
      [('collide overloads', 'src/edyn/collision/collide/*.cpp'), ('swap_collide', 'include/edyn/collision/collide.hpp'), ('collision_result', 'src/edyn/collision/collision_result.cpp')], ALG,
      ALGNOTE + ' Poses, sizes and gaps are those of the laws in harness/laws_col.cpp and laws_col2.cpp. Pairs with meshes and compounds, cylinder-box and polyhedron-cylinder are not claimed, nor is the depth of deep overlaps beyond the separating axis.')
claim('P16', 'The graph of bodies reports exactly the connections and groups that exist',
      'After any history of inserting and removing bodies and edges (several between the same pair included), changing whether a body connects, and clearing, the graph holds exactly the remaining bodies and edges: neighbours, edges of a body and edges between two bodies are visited once each from either end, '
      'and connected components, traversal and reach return exactly the groups joined through connecting bodies, where a non-connecting body belongs to each group that touches it and joins none.',
      'histories', 'histories of insertions, removals and changes, in the analysed lengths and orders (up to eight bodies and twelve edges)',
      'Islands, and with them what is simulated and what sleeps, are derived from this graph; linked lists of adjacencies and edges break only for particular orders of removal and reuse.',
      'include/edyn/core/entity_graph.hpp src/edyn/core/entity_graph.cpp include/edyn/core/free_list.hpp',
      [('insertion and removal', 'src/edyn/core/entity_graph.cpp'), ('visits, reach, traverse', 'include/edyn/core/entity_graph.hpp'), ('slot reuse', 'include/edyn/core/free_list.hpp')], ALG, ALGNOTE + ' Histories are those of the laws in harness/laws_graph.cpp, against a plain list of bodies and edges.')
claim('P17', 'The broad-phase tree finds every body whose box touches a query',
      'After any history of creating, moving, destroying leaves and clearing, every leaf keeps its entity and its box grown by the margin, a box or ray query visits exactly the leaves whose boxes it touches, once each, moving a leaf reports a change exactly when the new box leaves the stored one, '
      'every inner node encloses its two children tightly, parents and children agree, heights are those of the subtrees, and freed nodes are used again.',
      'histories', 'histories of creations, moves and removals in the analysed lengths and orders (up to twelve leaves), at any place; all boxes for one and two leaves',
      'A wrong link or stale box after one particular rotation or removal loses collisions of a few bodies only; no test of the repository builds this tree.',
      'include/edyn/collision/dynamic_tree.hpp src/edyn/collision/dynamic_tree.cpp include/edyn/collision/query_tree.hpp include/edyn/collision/tree_node.hpp',
      [('insertion, removal, balancing', 'src/edyn/collision/dynamic_tree.cpp'), ('queries', 'include/edyn/collision/query_tree.hpp')], ALG, ALGNOTE + ' Histories are those of the laws in harness/laws_dtree.cpp, against a plain list of boxes.')
claim('P18', 'A rigid body has what its definition says, and its derived values stay true',
      'Making a rigid body from a definition of any kind gives the entity exactly the components that kind needs, with the values asked for: mass and inverse mass, inertia and its inverses in both spaces, shape and AABB about the origin, gravity, material, filter, tags, graph node. '
      'Clearing it removes all of them. Changing the mass, inertia, shape, kind, gravity, friction, center of mass or origin of a body changes everything derived from it (position, linear velocity at the center of mass, origin, AABB, rolling direction, world-space inertia), and nothing else; '
      'impulses change velocity by M^-1 of them, and a kinematic body moved to a pose gets the velocity that takes it there.',
      'inputs history', 'all positions, orientations, velocities, masses, inertias and centers of mass, for the kinds, shapes and sequences of changes analysed',
      'The part of the repository its tests build does not contain this code; a stale derived value shows only after a particular change.',
      'src/edyn/util/rigidbody.cpp include/edyn/util/rigidbody.hpp src/edyn/util/gravity_util.cpp src/edyn/sys/update_inertias.cpp src/edyn/sys/update_origins.cpp',
      [('make_rigidbody, clear_rigidbody, set_*', 'src/edyn/util/rigidbody.cpp'), ('gravity', 'src/edyn/util/gravity_util.cpp'), ('per-step refresh', 'src/edyn/sys/update_inertias.cpp, src/edyn/sys/update_origins.cpp')], ALG,
      ALGNOTE + ' EnTT is replaced by a model of the registry (stubf/): access to a missing component and a second emplace count as undefined behaviour. The asynchronous stepper and waking of islands are outside.')
claim('P19', 'Contacts persist, mix materials, and end, as what the collisions found says',
      'A contact manifold joins two bodies in the graph; a new point takes pivots, normal and gap of what was found, with the mixed material of the bodies (or of the mixing table, in either order) and the constraint that material needs. The same spot found again keeps its contact, impulses and age, rolling bodies included; points that part are removed and leave the others intact; '
      'there are never more than four, a point far off replaces one of them; exchanging the bodies mirrors all points; excluded or filtered pairs do not collide, in either order, until that is undone.',
      'inputs history', 'all positions, orientations, pivots and gaps, for the sequences of collisions, removals and exclusions analysed',
      'Contact persistence depends on the history of earlier collisions; the part of the repository its tests build does not contain this code.',
      'src/edyn/util/collision_util.cpp include/edyn/util/collision_util.hpp src/edyn/util/constraint_util.cpp include/edyn/util/constraint_util.hpp src/edyn/util/contact_manifold_util.cpp include/edyn/util/contact_manifold_util.hpp src/edyn/util/exclude_collision.cpp src/edyn/collision/should_collide.cpp include/edyn/comp/collision_exclusion.hpp include/edyn/dynamics/material_mixing.hpp',
      [('process_collision', 'include/edyn/util/collision_util.hpp'), ('create, merge and destroy points', 'src/edyn/util/collision_util.cpp'), ('manifolds', 'src/edyn/util/constraint_util.cpp'), ('exclusion and filters', 'src/edyn/util/exclude_collision.cpp, src/edyn/collision/should_collide.cpp')], ALG,
      ALGNOTE + ' EnTT is replaced by a model of the registry (stubf/). Histories are those of the laws in harness/laws_touch.cpp; per-vertex friction of meshes and the parallel narrow phase are not claimed.')
