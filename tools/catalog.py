"""All properties with their documentation (source of properties.jsonl and MANIFEST)."""

TRUST = (
    "Random search with shrinking; no proof. Trusts numpy/networkx and the oracle in "
    "the check."
)
TRUST_SHIM = (
    TRUST
    + " The obstacle and dynamics base libraries (not installable here) are replaced "
    "by the stand-ins in shim/."
)

PROPERTIES = [
    dict(
        id="C01",
        title="Rotation defined by two directions is the plane rotation between them",
        statement=(
            "The rotation constructed from two nonzero directions maps "
            "the first onto the second, keeps all lengths and mutual angles, leaves the part "
            "orthogonal to their plane untouched and the zero vector zero, and applied with a "
            "factor turns by that fraction of the angle. For opposite directions it is a half turn in some plane, "
            "the same one in both ways. Its inverse undoes it, partial "
            "rotations add up, and rotating a rotation by another one moves its plane along; "
            "no operation modifies its inputs."
        ),
        over=["inputs"],
        for_all="all pairs of directions (2 to 5 dimensions), vectors and factors",
        why="The tests rotate a handful of axis-aligned vectors in 2-D and 3-D and never close-to-parallel pairs, factors or higher dimensions.",
        files=["nonlinear_avoidance/vector_rotation.py"],
        mechanism=[
            ("orthonormal base and angle from two directions", "vector_rotation.py: VectorRotationXd.from_directions"),
            ("rotation in the plane of the base", "vector_rotation.py: rotate_direction, rotate_array"),
        ],
        technique="property-based testing against an independent matrix-exponential model",
        note=TRUST,
    ),
    dict(
        id="C02",
        title="Directional blending weights the magnitude and the angle",
        statement=(
            "Blending two velocities with a weight in [0, 1] gives the weighted mean of their "
            "magnitudes, in the direction obtained by turning the first towards the second by "
            "the weighted angle; weight 0 gives the first, weight 1 the second, and swapping "
            "the vectors together with the complementary weight changes nothing. If one vector "
            "is zero the result is the other one scaled by its weight."
        ),
        over=["inputs"],
        for_all="all vector pairs (2 to 4 dimensions, including zero vectors, not anti-parallel) and weights in [0, 1]",
        why="The tests blend two fixed vectors; zero vectors, general weights and frames are not covered.",
        files=["nonlinear_avoidance/vector_rotation.py"],
        mechanism=[("blend", "vector_rotation.py: directional_vector_addition")],
        technique="property-based testing: reference model and metamorphic relations",
        note=TRUST,
    ),
    dict(
        id="C03",
        title="Rotation sequences are chains from their first to their last direction",
        statement=(
            "A sequence built from directions starts each rotation where the previous one ended, "
            "ends at the last direction, and rotating over its full length is the product of its "
            "rotations; zero or exactly anti-parallel successive directions are rejected. With weights, a partially "
            "applied rotation drags all later ones along, in agreement with the equivalent tree; "
            "full weight on one rotation reaches the direction it leads to. Growing it at either end keeps the chain, and "
            "rotating a sequence gives the sequence of the rotated directions and leaves the original unchanged."
        ),
        over=["inputs", "histories"],
        for_all="all lists of 2 to 5 directions (2 to 4 dimensions), weights which sum up to one, vectors, and orders of growing",
        why="The tests use one or two fixed sequences with at most two rotations; dragging only shows with three, and growing by directions is never called.",
        files=["nonlinear_avoidance/vector_rotation.py"],
        mechanism=[
            ("construction", "vector_rotation.py: VectorRotationSequence.create_from_vector_array"),
            ("weighted rotation", "vector_rotation.py: VectorRotationSequence.rotate_weighted"),
            ("rotated sequence", "vector_rotation.py: VectorRotationXd.rotate_sequence"),
        ],
        technique="property-based testing against a rotation-matrix reference model",
        note=TRUST,
    ),
    dict(
        id="C04",
        title="Weighted mean of a direction tree",
        statement=(
            "For normalised non-negative weights the mean of a tree of directions is a unit vector "
            "which equals the level-wise weighted mean of rotations: in the plane, the root direction "
            "turned by the weighted sum of the accumulated angles. Full weight on a node gives its "
            "direction; unweighted nodes, the order of nodes, earlier evaluations and the frame of "
            "reference have no influence. The mean can be read as a chain of rotations from the root "
            "direction to the mean, and as one rotation with its inverse."
        ),
        over=["inputs", "histories"],
        for_all="all trees of up to 7 directions in 2 to 4 dimensions (parent and child less than pi - 0.05 apart) and normalised weights",
        why="The tests evaluate a few small trees with hand-computed means, mostly planar; nested 3-D trees with mixed weights are only compared loosely.",
        files=["nonlinear_avoidance/vector_rotation.py"],
        mechanism=[
            ("partial rotations", "vector_rotation.py: VectorRotationTree.update_partial_rotations"),
            ("summing by level", "vector_rotation.py: VectorRotationTree.evaluate_graph_summing"),
        ],
        technique="property-based testing against a rotation-matrix reference model and metamorphic relations",
        note=TRUST,
    ),
    dict(
        id="C05",
        title="Direction trees stay consistent over any history of changes",
        statement=(
            "After any sequence of adding nodes, chains or orientations and changing directions, "
            "parents, children, descendants, level order and node directions of a direction tree "
            "agree with what was entered. Zero directions, repeated names, nodes without parent, "
            "misaligned chains, nodes below the maximum depth and differing numbers of nodes and "
            "weights are rejected with a value error and leave the tree unchanged."
        ),
        over=["histories", "inputs"],
        for_all="all histories of up to 15 operations, accepted and rejected ones mixed",
        why="The tests build a few fixed trees and never look at parents, rejected additions or changed directions.",
        files=["nonlinear_avoidance/vector_rotation.py"],
        mechanism=[
            ("adding", "vector_rotation.py: VectorRotationTree.add_node, add_sequence, add_node_orientation"),
            ("walking", "vector_rotation.py: get_nodes_ascending, get_all_childs_children, get_parent"),
        ],
        technique="stateful (model-based) property-based testing",
        note=TRUST,
    ),
    dict(
        id="C06",
        title="Parent-child hierarchies stay consistent over any history",
        statement=(
            "After any sequence of adding, moving and removing elements, every element of a hierarchy "
            "is listed exactly once among the children of its only parent and nowhere else; a removed element has no links left, its former "
            "children have no parent, and equal values do not confuse different elements. Roots are exactly the elements "
            "without parent and the descending order lists every node once, parents before children; unknown values raise a "
            "value error and leave the hierarchy unchanged."
        ),
        over=["histories"],
        for_all="all loop-free histories of up to 25 operations on linked elements and on both containers",
        why="The only runnable test links three elements once; containers, moving, removing and ordering are never executed.",
        files=["nonlinear_avoidance/graph_handler.py"],
        mechanism=[
            ("linked elements", "graph_handler.py: GraphElement"),
            ("containers", "graph_handler.py: BasicGraphHandler, GraphHandler"),
        ],
        technique="stateful (model-based) property-based testing",
        note=TRUST,
    ),
]

NOT_APPLICABLE = []

_AVOIDER = "avoidance/rotational_avoider.py"
_FILES_AVOIDER = [
    "nonlinear_avoidance/avoidance/rotational_avoider.py",
    "nonlinear_avoidance/rotation_container.py",
]

PROPERTIES += [
    dict(
        id="C07",
        title="Rotational avoidance never moves into an obstacle at its surface",
        statement=(
            "At any surface point of a static obstacle (or enclosing wall) the avoided velocity, evaluated from "
            "velocities, from rotation sequences or with locally averaged nonlinear dynamics, has no component into the "
            "obstacle and is never longer than the initial velocity. There its direction is the convergence direction if that one leaves the "
            "convergence circle around the inward normal, and lies on that circle otherwise, at full speed for a "
            "single obstacle; obstacles may have their own convergence radius. In front of a moving (or turning) obstacle this holds relative to its approach "
            "velocity; convergence velocities heading exactly for the reference point or along the outward normal are excepted."
        ),
        over=["inputs"],
        for_all="all star-shaped obstacles (2-D, 3-D, poses, reference points, walls), surface points, initial and convergence velocities, circle radii from pi/2",
        why="Tests evaluate a few hand-picked positions around circles; arbitrary shapes, frames, circle radii and mismatching convergence velocities are not sampled.",
        files=_FILES_AVOIDER + ["nonlinear_avoidance/nonlinear_rotation_avoider.py"],
        mechanism=[
            ("tangent on the convergence circle", _AVOIDER + ": get_pseudo_tangent, directional_convergence_summing"),
            ("weight with respect to the distance", _AVOIDER + ": get_smooth_continuation_weight"),
            ("averaged convergence", "nonlinear_rotation_avoider.py: evaluate_weighted_dynamics"),
        ],
        technique="property-based testing: geometric invariant and analytic direction at surface points",
        note=TRUST_SHIM,
    ),
    dict(
        id="C08",
        title="Obstacles only influence the rotational avoidance where they are close",
        statement=(
            "Without obstacles, or with all of them beyond the cut-off distance, the avoided velocity is the initial velocity, "
            "and an obstacle beyond the cut-off has the same effect as none. Around static obstacles it is never longer than the initial "
            "velocity: it is turned at most in proportion to the inverse of the smallest gamma, and slowed down by the largest share with which its direction heads into an obstacle over its gamma. If the initial dynamics "
            "are the convergence dynamics (circle radius pi/2, no tail), velocities which leave all obstacles are not changed."
        ),
        over=["inputs"],
        for_all="all scenes of one to three obstacles, positions at any distance, initial and convergence velocities and cut-offs",
        why="The tests only look at single positions close to circles, and never at the decay with the distance.",
        files=_FILES_AVOIDER,
        mechanism=[("relevant obstacles and weights", _AVOIDER + ": avoid")],
        technique="property-based testing: bounds and differential comparison with reduced scenes",
        note=TRUST_SHIM,
    ),
    dict(
        id="C09",
        title="Closed-loop rotational avoidance reaches the attractor without collision",
        statement=(
            "Following the avoided velocity of linear dynamics from any free start around disjoint static "
            "convex obstacles never enters an obstacle, never exceeds the speed of the dynamics, and ends at the attractor. The only exception are "
            "motions which end at the saddle point in front of an obstacle, i.e., on the axis through attractor and reference point."
        ),
        over=["histories", "inputs"],
        for_all="all starts, attractors and up to four disjoint ellipses or boxes in 2-D and 3-D, simulated with small steps",
        why="No test integrates a trajectory with random scenes; convergence is a property of the whole motion.",
        files=_FILES_AVOIDER,
        mechanism=[("modulated velocity", _AVOIDER + ": RotationalAvoider.avoid")],
        technique="property-based testing: closed-loop simulation of generated scenes",
        note=TRUST_SHIM,
    ),
    dict(
        id="C10",
        title="Rotational avoidance is independent of frame, units and obstacle order",
        statement=(
            "Moving the whole scene rigidly moves the avoided velocity along, scaling all velocities scales it, and the order of the "
            "obstacles, evaluating twice, or a tiny displacement away from the degenerate directions do not (visibly) change it. "
            "The evaluation modifies none of its inputs."
        ),
        over=["inputs"],
        for_all="all scenes of one to three obstacles, rigid motions, factors, permutations and small displacements",
        why="The tests use fixed axis-aligned scenes, so frame or order dependence stays invisible.",
        files=_FILES_AVOIDER,
        mechanism=[("modulated velocity", _AVOIDER + ": RotationalAvoider.avoid")],
        technique="property-based testing: metamorphic relations",
        note=TRUST_SHIM,
    ),
    dict(
        id="C11",
        title="Tangent projection, rotation weight and safe speed of the avoidance",
        statement=(
            "The projected tangent lies on the convergence circle around the inward normal, on the ray from the reference "
            "direction through the initial direction, and stays where it is when projected again. The rotation weight is 1 on the "
            "surface and otherwise at most the inverse of gamma, and falls with the distance and towards zero as the velocity gets closer to the "
            "reference direction. The safe speed scaling of unit velocities is in [0, 1]: 1 when leaving the obstacle, 0 when approaching on "
            "its surface, not smaller at larger distance, and the safe magnitude scales along the direction of the velocity by the same value."
        ),
        over=["inputs"],
        for_all="all unit normals, reference and velocity directions in 2 to 4 dimensions, circle radii and gamma values",
        why="The tests check single planar configurations of each function.",
        files=["nonlinear_avoidance/avoidance/rotational_avoider.py"],
        mechanism=[
            ("projection", _AVOIDER + ": get_projected_tangent_from_vectors"),
            ("weight", _AVOIDER + ": get_rotation_weight"),
            ("speed", _AVOIDER + ": compute_safe_scaling, compute_safe_magnitude"),
        ],
        technique="property-based testing against an independent direction-space model",
        note=TRUST_SHIM,
    ),
]

_MULTI = "nonlinear_avoidance/multi_obstacle_avoider.py"

PROPERTIES += [
    dict(
        id="C12",
        title="Avoidance of multi-body obstacles never leads into a body",
        statement=(
            "Around trees of overlapping bodies, with linear, wavy, circular or constant initial dynamics, the velocity just outside "
            "the surface of a body has no component into it and is never faster than the initial velocity; inside of a single body it "
            "never leads further in. Following the velocity with small steps, no body is entered, except in corners between two bodies."
        ),
        over=["inputs", "histories"],
        for_all="all scenes of one to three trees with up to four ellipses / boxes in the plane, attractor outside, positions not heading exactly for or away from a reference point nor at a corner",
        why="The tests check single positions of three or four fixed scenes.",
        files=[_MULTI, "nonlinear_avoidance/avoidance/rotational_avoider.py"],
        mechanism=[
            ("tangents of the components", _MULTI + ": MultiObstacleAvoider.evaluate_avoidance_from_sequence"),
            ("slowing down", _MULTI + ": MultiObstacleAvoider.evaluate_sequence"),
        ],
        technique="property-based testing: invariant on the surface and along trajectories",
        note=TRUST_SHIM,
    ),
    dict(
        id="C13",
        title="Multi-body avoidance: frame, speed, order, limits and moving bodies",
        statement=(
            "The velocity around multi-body obstacles moves along with a rigid motion of the world, scales with the initial speed, "
            "never exceeds it, and neither depends on the order of the obstacles nor on earlier evaluations. Without obstacle it is the "
            "initial velocity, at the attractor zero, and far away the obstacles have (almost) no influence; convergence radii outside "
            "[pi/2, pi] are rejected. Moving obstacles add their velocity, weighted by the inverse of their distance, with the "
            "rotational part fading out exponentially."
        ),
        over=["inputs", "histories"],
        for_all="all scenes as above with positions outside of all bodies, rigid motions, permutations, speed factors and planar twists",
        why="The tests check signs of the velocity at fixed positions; no test relates two evaluations or moves an obstacle.",
        files=[_MULTI, "nonlinear_avoidance/multi_obstacle.py", "nonlinear_avoidance/dynamics/sequenced_dynamics.py"],
        mechanism=[
            ("averaged convergence", _MULTI + ": MultiObstacleAvoider.compute_convergence_sequence"),
            ("relative velocity", _MULTI + ": compute_multiobstacle_relative_velocity"),
        ],
        technique="property-based testing: metamorphic relations and a reference model",
        note=TRUST_SHIM,
    ),
]

_DYN = "nonlinear_avoidance/dynamics/"

PROPERTIES += [
    dict(
        id="C14",
        title="Circular and spiraling dynamics turn at the set speed and reach their circle",
        statement=(
            "Circular dynamics turn (counterclockwise or in the chosen sense) about their pose at the set speed, tangentially on the "
            "circle and towards it elsewhere, also towards their plane in space; they stop at the center (the simple ones slow down "
            "linearly within a third of the radius), and every trajectory arrives at the circle and keeps turning. The field moves "
            "along with the pose, its shape does not depend on the radius, and dynamics on a moving base displace that base by its "
            "own velocity times the time step, fading out linearly with the distance. Spirals keep their speed, progress along "
            "their direction and turn around it."
        ),
        over=["inputs", "histories"],
        for_all="all poses, radii, speeds, approaching factors, positions, rigid motions and base updates generated",
        why="The tests check single points of the unit circle at the origin; a moved, fast or large circle and trajectories are not covered.",
        files=[_DYN + "circular_dynamics.py", _DYN + "spiral_dynamics.py"],
        mechanism=[
            ("simple circle", "circular_dynamics.py: SimpleCircularDynamics.evaluate"),
            ("rotation based circle", "circular_dynamics.py: CircularRotationDynamics"),
            ("moving base", "circular_dynamics.py: DynamicDynamics.update_base"),
            ("spiral", "spiral_dynamics.py: SpiralingDynamics3D"),
        ],
        technique="property-based testing: invariants on points and trajectories, metamorphic relations, reference model of the base",
        note=TRUST_SHIM,
    ),
    dict(
        id="C15",
        title="Path following, wavy dynamics and the rotation sequence of a velocity",
        statement=(
            "Following a path of segments, the velocity has speed one (less near the final attractor, zero at it), is parallel to a segment "
            "on it, heads straight for the attractor far away or ahead of it, moves along with the path, and leads from the path to "
            "the attractor; the weights of the segments are a partition of one which favours closer segments. The wavy dynamics keep "
            "the linear speed and turn it by the sine of the distance times the maximum deviation. The sequence of a dynamical system "
            "starts at its reference (default dynamics, else direction to the attractor, else itself), ends at its velocity, and "
            "is absent if one of both is zero."
        ),
        over=["inputs", "histories"],
        for_all="all paths of one to five segments, positions on, near and far from the path, wave parameters and dynamics generated",
        why="The test looks at four points of one rectangular path, one point of one wave and never at a system without attractor.",
        files=[
            _DYN + "segmented_dynamics.py",
            _DYN + "wavy_attractor_dynamics.py",
            _DYN + "sequenced_dynamics.py",
            _DYN + "constant_value.py",
        ],
        mechanism=[
            ("weights and tree of the segments", "segmented_dynamics.py: WavyPathFollowing"),
            ("wave", "wavy_attractor_dynamics.py: WavyLinearDynamics.evaluate"),
            ("sequence", "sequenced_dynamics.py: evaluate_dynamics_sequence"),
        ],
        technique="property-based testing: invariants, reference geometry, metamorphic relations, trajectories",
        note=TRUST_SHIM,
    ),
    dict(
        id="C16",
        title="Locally rotated dynamics and learned deviations stay within their bounds",
        statement=(
            "Dynamics rotated locally around an obstacle follow the reference velocity (turned along with the direction to the attractor) "
            "inside of the lower gamma limit, head straight for the attractor beyond the upper one, never deviate more in between, where the deviation vanishes towards the attractor and behind it, "
            "and their speed is the smaller of the distance and the reference speed; they are continuous and move along with the obstacle. "
            "A learned deviation of a constant flow or of a linear system reproduces the training directions (within "
            "the allowed angle of the flow, limited to it otherwise) at the speed of the underlying flow and stops at the attractor."
        ),
        over=["inputs"],
        for_all="all obstacles, attractors, reference velocities, gamma limits, training sets and positions generated",
        why="The tests look at five positions of one ellipse, and at one learned trajectory.",
        files=[_DYN + "locally_rotated_linear_dynamics.py", _DYN + "nonlinear_deviation.py"],
        mechanism=[
            ("weighted local rotation", "locally_rotated_linear_dynamics.py: LocallyRotatedFromObtacle.evaluate"),
            ("bounded deviation", "nonlinear_deviation.py: DeviationOfConstantFlow.evaluate_deviation"),
            ("weighted half axes", "nonlinear_deviation.py: PerpendicularDeviatoinOfLinearDS.evaluate"),
        ],
        technique="property-based testing: reference model, memorising regressor, metamorphic relations",
        note=TRUST_SHIM,
    ),
    dict(
        id="C17",
        title="Projection around an obstacle and the convergence which follows from it",
        statement=(
            "Deflating an obstacle moves outside positions inwards by its local radius (inside ones to its center), inflating moves "
            "them outwards by it, and undoes the deflation; folding the space around the attractor keeps the obstacle center and the order "
            "along the axis, and unfolding undoes it. The projected weight is in [0, 1], one in the obstacle, decreasing outside, vanishing at "
            "the attractor, opposite of the obstacle and far behind it, and unchanged by rigid motions of the scene. "
            "The convergence turns the initial velocity by the weighted angle towards the velocity at the obstacle at unchanged speed. "
            "No given position is modified."
        ),
        over=["inputs"],
        for_all="all ellipses and boxes in the plane and in space, attractors, positions and initial dynamics generated",
        why="The tests look at a few positions around two ellipses, and only at the mapping, not at the weights.",
        files=[_DYN + "projected_rotation_dynamics.py"],
        mechanism=[
            ("deflate and inflate", "projected_rotation_dynamics.py: _get_position_after_deflating_obstacle"),
            ("fold and unfold", "projected_rotation_dynamics.py: _get_folded_position_opposite_kernel_point"),
            ("weight", "projected_rotation_dynamics.py: evaluate_projected_weight"),
            ("convergence", "projected_rotation_dynamics.py: evaluate_convergence_around_obstacle"),
        ],
        technique="property-based testing: round trips, reference geometry, metamorphic relations, limits",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C18",
        title="Nonlinear avoidance converges along the dynamics at the close obstacles",
        statement=(
            "Obstacles in reach share the averaging by the inverse of their distance (equally if inside of them, none out of reach). "
            "The averaged convergence is the mean, by angle, of the convergence at each obstacle: the dynamics at its reference point if "
            "there is no attractor, its own only if it is alone, the initial velocity out of reach; evaluated from "
            "sequences, the initial dynamics fill up the projected weights. The resulting velocities are never faster than initially "
            "(as fast for sequences), do not lead into an obstacle at its surface, and do not depend on "
            "the order of obstacles, the frame, or on passing the initial velocity explicitly. No input is modified."
        ),
        over=["inputs"],
        for_all="all scenes of one to three ellipses or boxes (2-D, 3-D), linear, turned, wavy, circular and attractor-free dynamics, and positions generated",
        why="The tests look at signs of the velocity at single positions around circles and never at the weights or the average.",
        files=["nonlinear_avoidance/nonlinear_rotation_avoider.py"] + _FILES_AVOIDER[:1],
        mechanism=[
            ("weights", "nonlinear_rotation_avoider.py: compute_gamma_weights"),
            ("average", "nonlinear_rotation_avoider.py: evaluate_weighted_dynamics, evaluate_weighted_dynamics_sequence"),
            ("velocity", "nonlinear_rotation_avoider.py: evaluate, evaluate_sequence, avoid"),
        ],
        technique="property-based testing: reference model of weights and averages, metamorphic relations, surface invariant",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C19",
        title="Bodies of several parts stay consistent over any history of changes",
        statement=(
            "A tree of parts keeps, over any sequence of motions, deformations, velocity changes, accepted and rejected parts: the order and "
            "hierarchy of its parts, each part rigidly placed in the frame of the body (scaled by the deformation), and reference points "
            "moving along. Its Gamma is the smallest one of (non-excluded) parts, in the global and the local frame; collision "
            "and free-space queries of trees and of containers of trees agree with it. An arch is the union of one back wall and two "
            "arms of given size, wall width and margin. The root and parents of a multi-ellipse are set only once, "
            "with reference points shared with the parent, which it has to intersect."
        ),
        over=["histories", "inputs"],
        for_all="all trees of ellipses and boxes, arches, containers, and histories of changes generated",
        why="The tests build two or three fixed bodies, and rarely move them after creation.",
        files=[
            "nonlinear_avoidance/multi_obstacle.py",
            "nonlinear_avoidance/multi_obstacle_container.py",
            "nonlinear_avoidance/arch_obstacle.py",
            "nonlinear_avoidance/multi_ellipse_obstacle.py",
        ],
        mechanism=[
            ("tree of parts", "multi_obstacle.py: MultiObstacle"),
            ("container", "multi_obstacle_container.py: MultiObstacleContainer"),
            ("arch", "arch_obstacle.py: create_arch_obstacle, BlockArchObstacle"),
            ("root and parents", "multi_ellipse_obstacle.py: MultiEllipseObstacle"),
        ],
        technique="stateful model-based testing: generated histories against a rigid-body model; reference geometry",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C20",
        title="Geometry and weight helpers return what they promise",
        statement=(
            "The projection onto a ray is its nearest point; a spanning basis of two unit vectors is orthonormal, starts with the "
            "first and contains both, parallel and opposite ones included. The intersection point of two overlapping bodies lies in both, and "
            "there is none if they are apart; a line meets an ellipse in the near or far solution of its equation in either "
            "frame; the gradient descent on two spheres ends in their intersection. Distance weights are the normalised inverses "
            "(equal for those below the minimum), limited weights sum to at most one and keep their order; neither depends on "
            "the order of the input. No input is modified."
        ),
        over=["inputs"],
        for_all="all points, rays, vectors, pairs of ellipses and boxes with margin, lines, distances and weights generated",
        why="The only test which runs projects two points.",
        files=[
            "nonlinear_avoidance/utils.py",
            "nonlinear_avoidance/geometry.py",
            "nonlinear_avoidance/multi_ellipse_obstacle.py",
            "nonlinear_avoidance/multi_obstacle_avoider.py",
        ],
        mechanism=[
            ("rays, bases, gradient descent", "utils.py: project_point_onto_ray, get_orthonormal_spanning_basis, gamma_normal_gradient_descent"),
            ("shapes and intersections", "geometry.py: create_shapely_ellipse, get_intersection_of_obstacles"),
            ("line and ellipse", "multi_ellipse_obstacle.py: get_intersection_with_ellipse"),
            ("weights", "multi_obstacle_avoider.py: get_limited_weights_to_max_sum, compute_gamma_weights, compute_weights_from_distances"),
        ],
        technique="property-based testing: reference geometry and weights, optimality, metamorphic relations",
        note=TRUST_SHIM,
    ),
    dict(
        id="C21",
        title="Regions of a clustering are cells with consistent surface, Gamma and normal",
        statement=(
            "The region of a cluster is the ball around its center, cut by the planes half way to the neighbouring centers. The surface "
            "point lies on its surface in the direction of the position; Gamma is above one exactly inside, one on the surface, and "
            "averages the exceeded surfaces; the normal is a unit vector, the inwards normal of the (only) wall when close to it. "
            "A wall declared open (e.g. to the successor) is passed with unlimited Gamma, without influence on "
            "positions which are not close to it. All hold at, and next to, the center, in the local and global frame, "
            "and under rigid motions; no position is modified."
        ),
        over=["inputs"],
        for_all="all sets of one to seven centers in the plane and in space, radii and positions generated",
        why="The tests evaluate four clusters at a handful of positions.",
        files=["nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py"],
        mechanism=[
            ("surface", "kmeans_obstacle.py: get_point_on_surface, evaluate_surface_points"),
            ("gamma", "kmeans_obstacle.py: get_gamma, is_inside"),
            ("normal", "kmeans_obstacle.py: get_normal_direction"),
        ],
        technique="property-based testing: reference cell geometry, metamorphic relations",
        note=TRUST_SHIM,
    ),
    dict(
        id="C22",
        title="Learned motions: clusters, weights and velocity follow the demonstration",
        statement=(
            "After fitting, every sample belongs to its closest cluster and lies in its region; the clusters form one chain in the order "
            "of the demonstration, ending near the attractor, with touching regions and an open wall only to the successor. The weights "
            "of a position are non-negative, sum to one, and involve only its own cluster and, in the half towards it, the "
            "predecessor. The velocity is finite, does not leave a region through a closed wall, is linear towards the attractor "
            "far away, and leads from the demonstration to the attractor without leaving the regions. The demonstration is not modified."
        ),
        over=["inputs", "histories"],
        for_all="all demonstrations along smooth, curved paths with noise and outliers, numbers of clusters and positions generated",
        why="The tests fit two demonstrations and look at single positions.",
        files=["nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py"],
        mechanism=[
            ("clusters and hierarchy", "kmeans_motion_learner.py: fit, from_centers"),
            ("weights", "kmeans_motion_learner.py: _predict_sequence_weights, predict_averaged_lyapunov"),
            ("velocity", "kmeans_motion_learner.py: predict, _predict_outside_of_obstacle"),
        ],
        technique="property-based testing: reference clustering and chain, surface invariant, generated trajectories",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C23",
        title="Gaussian-mixture obstacles: ellipses, hierarchy, weights, mean directions",
        statement=(
            "Each component of an obstacle learned from samples is the ellipse of all positions at the variance factor times the "
            "standard deviation: (proportional) Gamma, its derivative, the unit normal, the surface projections and the analytic ellipses agree "
            "with it. The component closest to the mean of the centers is the root of a tree, whose touching neighbours share a point of both. "
            "The weights of a position are non-negative and sum to one: shared equally by the components around it, otherwise by the inverse "
            "of Gamma minus one, reduced where the parent hides a component. Mean reference and mean normal are the unit vectors weighted "
            "accordingly, a single active component's own ones."
        ),
        over=["inputs"],
        for_all="all mixtures of one to five separate groups in the plane and in space, variance factors and positions generated",
        why="The tests compare one or two axis-aligned ellipses whose precision is set by hand.",
        files=["nonlinear_avoidance/gmm_obstacle.py"],
        mechanism=[
            ("ellipse", "gmm_obstacle.py: get_gamma, get_normal_direction, project_point_on_surface, transform_to_analytic_ellipses"),
            ("tree", "gmm_obstacle.py: evaluate_hirarchy_and_reference_points"),
            ("weights", "gmm_obstacle.py: evaluate_gamma_weights, get_obstacle_occlusion_factor"),
        ],
        technique="property-based testing: analytic reference of known covariances",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C24",
        title="Multi-body avoidance: convergence direction, hidden parts, repulsion inside",
        statement=(
            "Around multi-body obstacles, the convergence direction is the initial direction turned, by the limited weights, by the angles which lead "
            "along the reference points of a part and its ancestors to the (default, else initial) dynamics at the root: these "
            "dynamics on a surface, the initial direction without influence. A tree counts fully if Gamma of the attractor is two or more, not at all if it is inside, linearly "
            "in between. Parts only lose weight where their parent covers them, down to none exactly behind it. Around one body, "
            "the velocity is the convergence direction turned by the rotation weight towards the tangent on the convergence circle, which opens from the "
            "given radius outside to pi at the repulsion limit inside, i.e., deep inside leads straight out."
        ),
        over=["inputs"],
        for_all="all scenes of up to three trees, dynamics, default dynamics, attractors, radii, repulsion limits and positions generated",
        why="The tests evaluate signs of single velocities in a few scenes.",
        files=[
            "nonlinear_avoidance/multi_obstacle_avoider.py",
            "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py",
            "nonlinear_avoidance/avoidance/rotational_avoider.py",
        ],
        mechanism=[
            ("convergence", "multi_obstacle_avoider.py: compute_convergence_sequence, compute_convergence_direction, compute_tree_weight"),
            ("hidden parts", "multi_obstacle_avoider.py: compute_parent_occlusion_weight"),
            ("repulsion", "multi_obstacle_avoider.py: compute_convergence_radiuses, evaluate_avoidance_from_sequence"),
        ],
        technique="property-based testing: reference model with signed angles in the plane, metamorphic relations in space",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C25",
        title="Avoidance is defined at every position of exactly aligned scenes",
        statement=(
            "At every position outside, inside and exactly on obstacles, including centers, reference points, the attractor and positions exactly in line "
            "with the attractor and an obstacle (in front, behind or opposite), every avoider returns a finite velocity, without error and without modifying the position. "
            "Around static obstacles it is not faster than the initial dynamics and, exactly on the surface of a single body with a "
            "unique normal and a free attractor, it does not lead into the body. Outside of obstacles, a position around which the moving velocity "
            "agrees has this velocity, too, unless it stops there. Only an obstacle with its reference point exactly on the attractor may be rejected."
        ),
        over=["inputs"],
        for_all="all lattice scenes of up to three ellipses and boxes (2D, 3D) or two trees of up to four parts and arches, attractors, dynamics and positions generated",
        why="Exact alignments have measure zero for random positions, and the tests only contain a few.",
        files=[
            "nonlinear_avoidance/avoidance/rotational_avoider.py",
            "nonlinear_avoidance/nonlinear_rotation_avoider.py",
            "nonlinear_avoidance/multi_obstacle_avoider.py",
            "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py",
            "nonlinear_avoidance/dynamics/sequenced_dynamics.py",
            "nonlinear_avoidance/vector_rotation.py",
        ],
        mechanism=[
            ("separate obstacles", "rotational_avoider.py: evaluate, obstacle_avoidance_rotational; nonlinear_rotation_avoider.py: evaluate, evaluate_sequence"),
            ("multi-body", "multi_obstacle_avoider.py: evaluate, compute_convergence_sequence"),
            ("degenerate rotations", "vector_rotation.py: from_directions, create_from_vector_array; projected_rotation_dynamics.py: evaluate_rotation_start_to_end"),
        ],
        technique="property-based testing: structured generation of degenerate (lattice) scenes, invariants and comparison with neighbouring positions",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C26",
        title="Directions learned from recorded motions and their mixture regression",
        statement=(
            "A recording of any number of demonstrations is imported completely and in order; its attractor is the mean of the end points unless given, and "
            "learned directions are the angles of the velocities relative to the straight way to the attractor. Gaussian densities, their derivative, "
            "and the conditional means and covariances are those of the normal distribution; mixing weights are proportional to prior times density and sum to at most one. "
            "A learned velocity is a unit vector turned from the straight way to the attractor by the regressed angle, zero at the attractor, and does not depend on "
            "other positions evaluated together. Runge-Kutta steps are of fourth order, and integrated trajectories start as given and stop at the attractor."
        ),
        over=["inputs"],
        for_all="all generated recordings, mixtures of up to four Gaussians in two and three dimensions, batches of positions and linear systems",
        why="No test loads a recording or evaluates a learner; errors only show for several demonstrations, samples or components.",
        files=[
            "nonlinear_avoidance/gmm_learner/learner/base.py",
            "nonlinear_avoidance/gmm_learner/learner/directional_gmm.py",
            "nonlinear_avoidance/gmm_learner/learner/gpr_directional.py",
            "nonlinear_avoidance/gmm_learner/learner/svr_directional.py",
            "nonlinear_avoidance/gmm_learner/direction_space.py",
            "nonlinear_avoidance/gmm_learner/math_tools.py",
            "nonlinear_avoidance/multivariant_gaussian.py",
        ],
        mechanism=[
            ("import", "learner/base.py, directional_gmm.py, gpr_directional.py, svr_directional.py: load_data_from_mat"),
            ("regression", "directional_gmm.py: get_mixing_weights, get_mean_yx, get_covariance_out, predict; direction_space.py"),
            ("density", "multivariant_gaussian.py: evaluate, evaluate_derivative"),
            ("integration", "math_tools.py: rk4, rk4_pos_vel; integrate_trajectory"),
        ],
        technique="property-based testing: differential against the normal distribution of scipy and closed-form models, metamorphic batches",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C27",
        title="Graphs of overlapping boundaries and of the Gaussians of a learned motion",
        statement=(
            "After any history of additions, connections and deletions, every boundary is the child of exactly its parent, roots and levels follow from it, and a position is free if it "
            "is inside of any boundary. The intersection of a boundary with its parent is within both, and its projections are on the surfaces in this direction; the radius of "
            "convergence is at most the one of a single boundary and zero towards an intersection. Over a learned mixture, the end point of a Gaussian is on its ellipse in the learned direction; "
            "the one with the end closest to the attractor is the root, and all others are attached exactly once, by the greatest weight at their end point. Learned boundaries have center, "
            "orientation and axes of the covariances."
        ),
        over=["inputs", "histories"],
        for_all="all generated histories of up to fourteen operations, trees of up to six overlapping ellipses and mixtures of up to seven Gaussians in the plane",
        why="The tests only build three boundaries without looking at the result.",
        files=[
            "nonlinear_avoidance/multiboundary_container.py",
            "nonlinear_avoidance/multihull_convergence.py",
            "nonlinear_avoidance/gmm_learner/graph.py",
        ],
        mechanism=[
            ("container", "multiboundary_container.py: append, __delitem__, extend_graph, get_root, get_level_numbers"),
            ("intersections", "multiboundary_container.py: update_intersection_graph, get_convergence_boundary_point; multihull_convergence.py: get_desired_radius"),
            ("learned graph", "graph.py: get_end_point, create_graph_from_gaussians, create_learned_boundary"),
        ],
        technique="stateful model-based testing of the container; property-based testing against a reference model of the graph",
        note=TRUST_SHIM,
    ),
    dict(
        id="C28",
        title="Simulation, recording and metrics of compared trajectories",
        statement=(
            "A simulated trajectory begins at its start and moves by steps of equal length along the velocity, up to a local minimum, a collision or the maximum number of steps; all "
            "grid positions outside of the obstacles are simulated and recorded, once. The metrics of a trajectory (mean error to the path, squared acceleration, alignment of successive steps, deviation and "
            "alignment with given dynamics at the start of every step) are as defined, also if it stands still at times. A folder is evaluated to mean and standard deviation over its recordings; "
            "tables of path following to those of the runs which converged for all methods."
        ),
        over=["inputs"],
        for_all="all generated motions, grids, trajectories of three or more positions, folders of up to five recordings and tables of up to twelve runs",
        why="Nothing tests the evaluation; errors change the published comparison silently.",
        files=[
            "nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py",
            "nonlinear_avoidance/comparison/evaluation_trajectories.py",
            "nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py",
            "nonlinear_avoidance/comparison/evaluation_path_following.py",
        ],
        mechanism=[
            ("simulation", "comparison_multiobstacle_vectorfield.py: integrate_trajectory, create_start_positions, evaluate_trajectories"),
            ("metrics", "evaluation_trajectories.py, evaluation_trajectories_with_std.py: mean_squared_*, dot_product_*"),
            ("evaluation", "TrajectoryEvaluator.run, get_converged"),
        ],
        technique="property-based testing: differential against definitions of the metrics, round-trip through recorded files",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C29",
        title="Bodies of connected parts: joints, tracking, distance and conversion",
        statement=(
            "After any history of movements, an update of a body of connected parts closes all joints, without turning any part or moving the root. If the parts are tracked, every measured "
            "part points (by the smallest rotation of its vertical axis) from its joint to the measured position in the frame of the robot, all other parts take the orientation of "
            "their parent, and a measured root stays upright at fixed height. The distance of the body is the smallest of its parts; the conversion to a multi-obstacle keeps "
            "parents, reference points and distances, at any base pose. The parts of the predefined humans overlap at the joints in any posture."
        ),
        over=["inputs", "histories"],
        for_all="all generated trees of up to six parts in two and three dimensions, histories of up to eight movements and up to three messages of the tracker",
        why="All tests of the human obstacles are deactivated.",
        files=["nonlinear_avoidance/multi_body_human.py", "nonlinear_avoidance/rigid_body.py"],
        mechanism=[
            ("joints", "multi_body_human.py: add_component, align_position_with_parent, align_obstacle_tree"),
            ("tracking", "multi_body_human.py: update_using_optitrack, update_orientation_based_on_position"),
            ("conversion", "transform_from_multibodyobstacle_to_multiobstacle, create_2d_human, create_3d_human"),
        ],
        technique="stateful property-based testing of histories of movements and measurements against forward kinematics",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C30",
        title="Obstacles which can be entered: free spaces, entrances, routes and motion",
        statement=(
            "In a body with free spaces inside, a position is weighted between the spaces (and the outside) it is in, in proportion to the distance value above the wall, and collides if it is "
            "in none. Spaces are connected, and have an entrance, only at points free in both; deeply overlapping spaces, and those centered outside the body, always. From any space, the motion leads on the shortest route through the connections to the attractor (the "
            "space closest to it, if it is in the wall), from outside through the entrance of the shortest way, after any history of attractors. It slides along the wall without entering it, slows down towards the (local) attractor, is limited in speed and independent "
            "of the pose of the body. A container averages over its bodies, also those added late."
        ),
        over=["inputs", "histories"],
        for_all="all generated bodies with up to five free spaces in two and three dimensions, at any pose, and histories of up to eight attractors and evaluations",
        why="The tests construct two bodies with fixed spaces, and only check the weights at three positions.",
        files=["nonlinear_avoidance/multi_hull_and_obstacle.py", "nonlinear_avoidance/utils.py"],
        mechanism=[
            ("weights and collisions", "multi_hull_and_obstacle.py: _evaluate_weights, is_inside, get_boundary_intersection_weight"),
            ("graph", "evaluate_hirarchy_and_reference_points, _update_intersections_with_outer_obstacle; utils.py: gamma_normal_gradient_descent"),
            ("routes", "set_attractor, update_shortest_attractor_path, update_shortest_attractor_path_starting_from_outside"),
            ("motion", "evaluate, _get_local_dynamics; MultiRotationalContainer"),
        ],
        technique="stateful model-based testing against complete enumeration of the routes and a reference of the motion",
        note=TRUST_SHIM,
    ),
]

PROPERTIES += [
    dict(
        id="C31",
        title="Avoidance in a changing scene is the one of the current scene",
        statement=(
            "Over any history of evaluations and changes of the scene (obstacles or trees of bodies moved, turned, added, removed or replaced; other velocities, reference points or "
            "convergence radii; the attractor moved), an avoider returns the same velocity (and convergence) as one which is newly created for the current scene, also at positions "
            "where it was evaluated before. Evaluations do not change the scene, and repeating them gives the same result. The local convergence dynamics of a container, updated for the scene, are those of a new container."
        ),
        over=["histories", "inputs"],
        for_all="all generated histories of up to twelve evaluations and changes, for rotational, nonlinear, projected, locally converging and multi-body avoidance (2-D, 3-D)",
        why="The tests evaluate static scenes; none of them moves or removes an obstacle between two evaluations.",
        files=[
            "nonlinear_avoidance/avoidance/rotational_avoider.py",
            "nonlinear_avoidance/nonlinear_rotation_avoider.py",
            "nonlinear_avoidance/multi_obstacle_avoider.py",
            "nonlinear_avoidance/rotation_container.py",
            "nonlinear_avoidance/multi_obstacle.py",
            "nonlinear_avoidance/dynamics/projected_rotation_dynamics.py",
            "nonlinear_avoidance/dynamics/wavy_attractor_dynamics.py",
        ],
        mechanism=[
            ("single bodies", "RotationalAvoider.avoid, avoid_sequence; NonlinearRotationalAvoider.evaluate, evaluate_sequence"),
            ("containers", "RotationContainer: append, __delitem__, __setitem__, set_convergence_directions"),
            ("trees", "MultiObstacleAvoider.evaluate, compute_convergence_direction; MultiObstacle.update_pose"),
        ],
        technique="stateful differential testing of a long-lived avoider against a new one for the modelled scene",
        note=TRUST_SHIM,
    ),
]
