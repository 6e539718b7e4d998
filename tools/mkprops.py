"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **(dict(observe_at=observe) if observe else {}), hook_needed=None)))

M='rainbow/math/'; G='rainbow/geometry/'; RB='rainbow/simulators/prox_rigid_bodies/'
SB='rainbow/simulators/prox_soft_bodies/'; PC='rainbow/simulators/proximal_contact/'; IK='rainbow/simulators/inverse_kinematics/'

prop('Q01','Quaternions and rotation matrices are one consistent rotation algebra',
 'For every unit quaternion, rotating a vector preserves lengths, angles and handedness and equals multiplying by the matrix obtained from that quaternion, which is orthonormal with determinant one; the product of two quaternions is the composition of their rotations, and the conjugate is the inverse. Converting a rotation matrix back to a quaternion, and building a rotation about a coordinate or arbitrary axis either as quaternion or as matrix, always describe the same rotation, and the angle and axis read back from a unit quaternion rebuild it. The array versions agree with the one-at-a-time versions, and interpolation between unit quaternions is unit length, hits both end points and never leaves the plane they span.',
 ['inputs'],'every unit quaternion, rotation angle, axis, vector and interpolation parameter, on every branch of the matrix-to-quaternion conversion',
 'The tests sample a few axis-aligned rotations; an algebraic identity over all orientations (including every branch taken only for near half turns about one axis) is not decided by samples.',
 [M+'quaternion.py',M+'matrix3.py'],
 [('Hamilton product and sandwich rotation','quaternion.prod, rotate, prod_array, rotate_array, conjugate'),('conversion','quaternion.to_matrix, from_matrix; matrix3.Ru/Rx/Ry/Rz/star'),('axis-angle and interpolation','quaternion.to_angle_axis, to_angle, lerp, slerp, hat, unit')])
prop('Q02','Rigid coordinate frames compose, invert and convert consistently',
 'Transforming a point through a concatenation of two frames equals transforming it through the first and then the second, transforming through a frame and then its inverse gives the point back, and the relative frame between two frames maps local coordinates of the first to local coordinates of the second. Vectors are only rotated, points are rotated and translated, so distances between points never change. The inputs are left unmodified and results never share storage with frames whose contents they would alter.',
 ['inputs'],'every pair of frames with unit orientation and every point',
 'Group laws quantify over all frames; the tests check a handful of fixed frames, mostly identity rotations.',
 [M+'coordsys.py'],[('frame algebra','coordsys.concat, inverse, make_coordsys_from_to, xform_point, xform_vector, xform_matrix')])
prop('Q03','Euler angles extracted from a rotation rebuild that rotation',
 'The three angles extracted from any rotation matrix or unit quaternion rebuild the same rotation as z-rotation times y-rotation times x-rotation, also in the two gimbal-lock configurations. Each angle lies in its principal range.',
 ['inputs'],'every rotation matrix, including both gimbal-lock cases',
 'Gimbal lock is a measure-zero set and sign errors in one quadrant are invisible at the sampled angles.',
 [M+'euler.py'],[('angle extraction','euler.make_euler_xyz_from_matrix, make_euler_xyz_from_quaternion')])
prop('Q04','Exponential-map rotations are exact and their derivatives are true',
 'The exponential map of a rotation vector is the unit quaternion turning by its length about its direction, folding long vectors back never changes the rotation, and the logarithm of a unit quaternion maps back to a vector with the same rotation, including the identity and half turns. The reported partial derivatives of quaternion and rotation matrix with respect to the vector components, and the reported rate of change of the vector for a given angular velocity, are the true derivatives.',
 ['inputs'],'every rotation vector outside the documented singular shells and every component',
 'Derivative correctness is a statement about all directions; the tests compare a few fixed vectors.',
 [M+'expmap.py'],[('exp/log','expmap.exp, log, reparameterization'),('derivatives','expmap.dQdv_i, dRdv_i, dvdt')])
prop('Q05','Vector and matrix helpers build true orthonormal frames and total orders',
 'For every non-zero direction the generated tangent, binormal and normal are mutually orthogonal, of unit length and right handed, and keep the given direction; orthonormalising a matrix yields a right-handed orthonormal basis spanning the same leading directions. The component-wise vector comparisons form a strict total order whose four operators agree with each other, the largest-magnitude component query returns an index of a maximal component, and the skew matrix reproduces the cross product. The polar decomposition of a deformation with positive determinant returns a rotation times a symmetric positive stretch that multiply back to the input, for one matrix and for stacks alike.',
 ['inputs'],'every non-zero vector, every triple of vectors, every matrix with positive determinant',
 'Order axioms and frame identities quantify over all inputs incl. ties; tests only sample points.',
 [M+'vector3.py',M+'matrix3.py'],[('frames','vector3.make_orthonormal_vectors, matrix3.ortonormalize, star'),('orders','vector3.less, greather, less_than_equal, greather_than_equal, max_abs_component'),('polar','matrix3.polar_decomposition, polar_decomposition_array')])
prop('Q06','Polynomials evaluate, differentiate, interpolate and print faithfully',
 'Evaluating a polynomial equals the sum of its coefficients times powers for any number of arguments supported, the derivative object is the exact derivative of the polynomial, and the interpolating polynomial passes through every sample it was fitted to. The textual form denotes the same polynomial, with every sign.',
 ['inputs'],'all coefficient values and sample values for the supported degrees and sizes within the stated bound',
 'Fixed coefficients in tests hide sign and index mistakes that only show for other coefficients.',
 [M+'polynomial.py'],[('polynomials','polynomial module')])
prop('Q07','Principal directions are the covariance eigenvectors they claim to be',
 'The reported mean is the mean of the points, the reported values and directions are eigenpairs of their covariance, and the direction of most variance is a unit direction along which the variance of the point set is at least that along any other direction.',
 ['inputs'],'every point set within the stated size',
 'Tests use axis-aligned point sets where rows and columns of the eigenvector matrix coincide.',
 [M+'functions.py'],[('PCA','functions.PCA, direction_of_most_variance')])
prop('G01','Regular grids locate, interpolate and differentiate consistently',
 'Node indices and linear storage positions correspond one to one, every node position and cell query agree with the grid spacing, and a query point inside the grid lies in the reported cell with interpolation weights between zero and one while points outside are clamped to the boundary cell. Interpolated values reproduce node values exactly, reproduce every linear field, never leave the range of the surrounding node values and are continuous across cells. A signed-distance grid built for a mesh spans the bounding box of the mesh enlarged by the requested margin on every side. The reported gradient is the spatial derivative of the interpolated value.',
 ['inputs'],'every grid size within bound, every spacing, origin, node value and query point',
 'The tests use unit-like grids with few points where wrong scale factors or swapped axes cancel.',
 [G+'grid3.py'],[('indexing','grid3 index/coordinate helpers'),('interpolation','grid3.get_value, get_gradient, get_enclosing_cell_idx, is_inside')])
prop('G02','Bounding volumes always enclose and overlap tests never miss',
 'A bounding box or k-direction polytope built from points contains all of them and, for boxes, is the tightest such box; the overlap test is symmetric and true exactly when the stored intervals intersect on every axis, so volumes sharing a point are never reported disjoint. Merging and enlarging only grows the volume and keeps containing both inputs.',
 ['inputs'],'every set of points (bounded count) and every enlargement margin, with touching and degenerate boxes included',
 'Boundary contact and degenerate extents are measure-zero for sampled tests.',
 [G+'aabb.py',G+'kdop.py'],[('boxes','aabb.AABB'),('k-dops','kdop functions')])
prop('G03','Bounding-volume hierarchies report every overlapping pair exactly once',
 'After building or refitting a hierarchy every node encloses everything below it and every primitive sits in exactly one leaf, and traversing two hierarchies reports each pair of primitives whose leaf volumes overlap exactly once and no pair whose volumes are disjoint. This holds for meshes that moved since the hierarchy was built once it is refitted.',
 ['inputs','histories'],'every placement of the primitives (bounded number) before and after refit',
 'No unit test runs the hierarchy at all; overlap patterns are combinatorial.',
 [G+'kdop_bvh.py',G+'kdop.py'],[('hierarchy','kdop_bvh make_tree/refit/traversal')])
prop('G04','Spatial hashing never loses a colliding pair and never resurrects the past',
 'Two objects whose boxes share a grid cell are always reported to each other when both are inserted in the same time step, whatever the insertion order and hash collisions. Objects inserted in earlier time steps are never reported as current neighbours, and an object never sees itself.',
 ['inputs','histories'],'every box placement and cell size within bound, every insertion history over several time steps',
 'Stale-bucket behaviour depends on histories across time steps that tests do not replay.',
 [G+'spatial_hashing.py',SB+'collision_detection.py'],[('lazy clearing hash','spatial_hashing'),('consumer','collision_detection._spatial_hashing_narrow_phase')])
prop('G05','Barycentric coordinates are exact and differentiate correctly',
 'Barycentric coordinates of a point with respect to a segment, triangle or tetrahedron sum to one, reproduce the point (its projection for lower-dimensional elements), are all non-negative exactly for points inside, and recover given weights. The reported gradients with respect to position are the true derivatives and sum to zero.',
 ['inputs'],'every non-degenerate element and query point',
 'Tests use unit right-angled elements where transposed or permuted terms coincide.',
 [G+'barycentric.py'],[('barycentrics','barycentric module')])
prop('G06','Tetrahedron measures and sample points are geometrically correct',
 'The signed volume of a tetrahedron changes sign under a vertex swap, is unchanged by rigid motion and scales cubically; the circumscribed sphere passes through all corners and the inscribed sphere touches all faces from inside. Generated sample points lie in the element, strictly inside for interior samples.',
 ['inputs'],'every non-degenerate tetrahedron',
 'There are no unit tests of this module; identities hold over a 12-dimensional input space.',
 [G+'tetrahedron.py'],[('measures','tetrahedron module')])
prop('G07','Generated surface meshes are closed, outward oriented and correctly sized',
 'Every procedural surface shape is a closed two-manifold with consistently outward-facing triangles, vertices on the requested shape and the requested dimensions, for every positive size. Translating, rotating and scaling a mesh moves every vertex by that transformation without changing connectivity, and the normalisation helpers centre, scale and align as documented.',
 ['inputs','configurations'],'every positive size parameter and every resolution within the stated bound',
 'Tests check one mesh per shape; orientation flips in a single face or for particular resolutions go unnoticed.',
 [G+'surface_mesh.py'],[('shape generators','surface_mesh.create_*'),('transforms','surface_mesh translate/rotate/scale/...')])
prop('G08','Generated volume meshes tile their domain with positive tetrahedra',
 'The beam generator fills exactly the requested box with positively oriented, conforming tetrahedra for every resolution, the extracted surface is closed and outward oriented, and neighbour information is symmetric and complete. Subdivision, scaling, translation and rotation keep the covered volume and orientation accordingly.',
 ['inputs','configurations'],'every positive size and every resolution within bound',
 'No test inspects mesh validity beyond one size.',
 [G+'volume_mesh.py'],[('generators','volume_mesh.create_*'),('topology','volume_mesh compute_neighbors, to_surface')])
prop('G09','Mean curvature of a sampled field is the true curvature',
 'At every interior node of a sampled scalar field whose gradient length is at least one half, the mean-curvature grid holds the divergence of the normalised gradient evaluated with central differences, which is exact for every quadratic field and every spacing, along every axis alike. The reported curvature is limited to what the grid can resolve, the input grid is left unmodified and the result lives on a grid of the same layout.',
 ['inputs'],'every quadratic field, every node spacing and the stated grid sizes',
 'The tests compare one sphere; swapped axes or wrong mixed-derivative signs cancel for symmetric shapes.',
 [G+'mean_curvature.py'],[('curvature','mean_curvature.create_from_sdf')])
prop('S01','Priority queue always hands out a smallest entry and honours updates',
 'After any history of insertions, updates and removals the queue returns live elements in non-decreasing priority order, each exactly once, with the priority most recently given to it; removed entries never reappear.',
 ['histories','inputs'],'every sequence of queue operations up to the stated length with arbitrary priorities',
 'The queue has no unit test; correctness is over histories.',
 ['rainbow/util/heap.py'],[('lazy-deletion heap','heap module')])
prop('S02','Textual vectors and rotations parse to the value they denote',
 'Every well-formed textual vector, quaternion, axis rotation (angle in degrees about x, y, z or a given axis), random range or keyword, in any capitalisation, is accepted and yields the value it denotes: numbers have an optional minus, no superfluous leading zeros, an optional fraction and an optional signed exponent, whose digits may start with zeros, and numbers in a list beyond those needed are ignored. Text that denotes no such value is rejected rather than silently misread.',
 ['inputs'],'every text within the stated length bound over the grammar alphabet',
 'Tests try a few literals; accepted number syntax is an infinite language.',
 ['rainbow/util/parse_string.py',M+'vector3.py',M+'quaternion.py'],[('grammars','parse_string'),('conversions','vector3.from_string, quaternion.from_string')])
prop('R01','Mass properties of solids are physically correct and frame consistent',
 'Mass, centre of mass and inertia computed for every closed triangle mesh equal the volume integrals of the uniform density over that solid and scale linearly with density. Translating, rotating and moving to the principal model frame follow the parallel-axis and rotation laws and are inverse to each other, so the world-frame inertia used in dynamics is symmetric positive definite with the same principal values.',
 ['inputs'],'every density, every rotation and translation, boxes and tetrahedra of the stated shapes at every size and position',
 'Tests compare a few boxes and spheres; an integral identity over arbitrary geometry cannot be sampled.',
 [RB+'mass.py'],[('mass module','mass functions'),('use','state_storage inverse mass and inertia')])
prop('R02','Rigid body time integration moves free bodies exactly and never fixed ones',
 'One step changes the velocity of every free body by the time step times external plus constraint acceleration and moves it by its new velocity; fixed bodies never change position, orientation or velocity and never accelerate, and orientations stay unit length. Each body is advanced from its own state only, independent of the number and order of bodies, and gravity, damping and gyroscopic forces act exactly as defined on the bodies that carry them.',
 ['inputs','configurations'],'every state of up to the stated number of bodies, any fixed/free pattern and any assignment of force fields',
 'Only one smoke test drives a simulation; per-body independence and momentum laws are universally quantified.',
 [RB+'steppers.py',RB+'state_storage.py',RB+'types.py'],[('semi-implicit step','steppers.SemiImplicitStepper.step'),('state scatter/gather','state_storage'),('forces','types.Gravity, Damping')])
prop('R03','Contact constraints measure true relative motion and conserve momentum',
 'For every contact the constraint rows give exactly the relative velocity of the two touching material points in the contact frame, with the first row along the normal and the spin row about it, for rigid and for deformable bodies. Applying contact impulses through the transposed rows changes total linear and angular momentum by nothing, and restitution, penetration and friction terms are assembled from the materials of the two bodies involved, in the right slots for every contact.',
 ['inputs','configurations'],'every contact geometry and state for the stated numbers of bodies and contacts, any choice of which bodies touch',
 'Momentum identities hold over all geometries; no test checks a constraint row.',
 [RB+'constraints/contacts.py',SB+'solver.py'],[('jacobians','Contacts.__get_jacobian_matrix; solver.compute_jacobian_matrix'),('right-hand sides','restitution, stabilisation, friction vectors')])
prop('R04','Hinge joints constrain exactly the motion they should and reduce drift',
 'The hinge rows vanish exactly for relative motions that keep the two joint points together and rotate about the common axis only, they are five independent rows and impulses through them conserve momentum. Stabilisation always pulls the joint points and axes back towards each other rather than apart.',
 ['inputs'],'every pose, velocity and hinge frame of two bodies',
 'No test uses a hinge.',
 [RB+'constraints/hinges.py'],[('hinge constraint','Hinges')])
prop('R05','Constraint solvers return feasible impulses and stop exactly at solutions',
 'Every sweep of the rigid-body solver uses the velocity response of the impulses as updated so far and leaves unilateral normal impulses non-negative and friction impulses inside the friction cone. A state is left unchanged exactly when the contact conditions hold: no normal impulse on separating contacts, and either no slip or friction at its limit opposing the slip; joint impulses are left unchanged exactly when the joint rows are satisfied. A sweep whose merit grew is rolled back completely with a smaller step factor, the last accepted iterate is the one returned, every problem sees the same number of sweeps, and iteration stops exactly at the tolerances or the iteration limit.',
 ['inputs','histories'],'every symmetric positive definite small system and every starting iterate within the stated sizes',
 'Convergence tests see one trajectory; fixed-point equivalence is universally quantified.',
 [RB+'gauss_seidel_solver.py',RB+'constraints/problem.py',RB+'prox_operators.py'],[('sweep and merit','gauss_seidel_solver'),('prox','prox_operators')])
prop('R06','Parallel and sequential contact solvers share the same solutions',
 'Every proximal contact scheme (sequential, coloured parallel, Jacobi and hybrid) keeps normal impulses non-negative and friction impulses within the friction bound of the normal impulse (for the plain Jacobi scheme: of the normal impulse before the sweep), and has exactly the solutions of the contact problem as fixed points. The sequential sweep uses the response to all impulses updated before, the coloured one that of all earlier colour groups whatever the order within a group, the Jacobi ones that of the impulses before the sweep. A rejected step is rolled back completely, the last accepted iterate is the one returned, step sizes stay positive, and the scheme name selects the solver.',
 ['inputs','histories','schedules'],'every small contact system, every starting iterate, every order of contacts and blocks',
 'Unit tests check only colouring of one graph.',
 [PC+'solver_interface.py',PC+'gauss_seidel_solver.py',PC+'jacobi_solver.py'],[('shared loop','SolverInterface.solve'),('sweeps','GaussSeidelSolver, ParallelGaussSeidelSolver, ParallelJacobiSolver, ParallelJacobiHybridSolver')])
prop('R07','Friction and normal projections are exact nearest-point projections',
 'The contact projections always return a point of the admissible set (non-negative normal impulse; tangential and torsional impulse within the friction limit of the given normal impulse), that point is the nearest one, so admissible points are left unchanged and two inputs never end up further apart.',
 ['inputs'],'every impulse vector and every non-negative friction limit',
 'Optimality quantifies over all competing points.',
 [RB+'prox_operators.py',PC+'proximal_operators.py'],[('projections','prox_operators, proximal_operators')])
prop('R08','Contact colouring never lets two contacts of one colour touch the same body',
 'The contact groups handed to the parallel solvers contain every contact exactly once, and no two contacts in one group share a body or node they move, whatever the contact pattern and whatever random choices the colouring makes.',
 ['inputs','schedules'],'every contact pattern up to the stated number of contacts and bodies and every random choice',
 'The test colours one random graph with one seed.',
 [PC+'blocking.py'],[('colouring','blocking module')])
prop('R09','A simulation advances exactly the requested time in bounded steps',
 'Simulating for a duration takes non-negative steps, none longer than the configured time step, whose lengths sum to exactly the requested duration, and always terminates, for the rigid and the deformable simulator.',
 ['inputs'],'every positive duration and time step with at most the stated number of steps',
 'Tests run one duration.',
 [RB+'api.py',SB+'api.py'],[('time loop','api.simulate')])
prop('R10','Scene set-up places bodies, hinges and materials as the user asked',
 'Setting a position or orientation in the model frame puts the body so that the user’s model coordinates appear at that placement, independent of the internal principal frame, and reading it back returns what was set. A hinge created from a world anchor and axis has both joint frames coincide there, material interactions are symmetric in the two materials and fall back to the default pair, handed-out values never alias engine state, and unknown or duplicate names are rejected.',
 ['inputs','histories'],'every placement, orientation and internal frame; every order of set-up calls within bound',
 'Tests only build a scene and look at counts.',
 [RB+'api.py',RB+'types.py'],[('model-frame placement','api.set_position, set_orientation, get_position, get_orientation'),('hinges','api.set_hinge'),('materials','types.SurfacesInteraction')])
prop('R11','Contact reduction keeps every touching pair represented',
 'Generated contacts have unit normals, positions on the touching geometry and gaps within the detection envelope, and reduction of duplicated contacts keeps at least one contact for every distinct position of every pair of bodies and never merges contacts of different pairs.',
 ['inputs'],'every set of candidate contacts within the stated size',
 'No test reaches contact generation.',
 [RB+'collision_detection.py'],[('contact generation and reduction','collision_detection')])
prop('K01','Inverse kinematics derivatives and poses are exact for every joint type',
 'Forward kinematics places every bone by composing parent and local transforms for each joint order, and the reported Jacobian, gradient and Hessian are the true derivatives of end-effector positions and of the goal error. Setting joint angles and reading them back is lossless, chains run from the root to the end effector, and derivative evaluations leave the skeleton unchanged.',
 ['inputs','configurations'],'every joint angle assignment, bone frame and goal for skeletons within the stated size and all joint orders',
 'Tests compare one chain with finite differences.',
 [IK+'api.py',IK+'types.py'],[('kinematics and derivatives','api.update_skeleton, compute_jacobian, compute_gradient, compute_hessian')])
prop('D01','Hyperelastic stress is the energy gradient and is frame invariant',
 'For every material model the stress is the derivative of the stored energy with respect to deformation, vanishes without deformation, and turns with the body under superposed rotations without changing the energy. Evaluating many elements at once agrees with evaluating each alone.',
 ['inputs'],'every invertible deformation (positive determinant) and every material constant',
 'Tests compare a few matrices; derivative identity over nine variables cannot be sampled.',
 [SB+'mechanics.py'],[('materials','mechanics SVK, COR, SNH')])
prop('D02','Finite-element forces come from the energy and conserve momentum',
 'Elastic nodal forces are minus the gradient of the total elastic energy and produce no net force or torque; masses sum to density times volume and their matrices are symmetric, gravity adds up to total weight, surface traction adds up to area times load and damping never adds energy. Assembled global quantities equal the sum of the element ones for every mesh connectivity.',
 ['inputs','configurations'],'every node placement and material constants for meshes within the stated number of elements',
 'Tests look at array shapes and one or two sampled values.',
 [SB+'solver.py'],[('element kernels and assembly','solver.Native')])
prop('D03','Deformable bodies step consistently and honour prescribed nodes',
 'One deformable step updates velocities and positions of free nodes by the time step times acceleration and new velocity, holds nodes with prescribed positions exactly at those positions with zero velocity, and never moves fixed bodies, also not when penetrations are corrected. Packing body states into the global vectors and back is lossless for any number of bodies and never mixes bodies.',
 ['inputs','configurations'],'every state of small meshes and every choice of prescribed nodes and number of bodies',
 'No test steps with boundary conditions and several bodies.',
 [SB+'solver.py',SB+'types.py'],[('stepper','solver.SemiImplicitStepper'),('state vectors','solver gather/scatter')])
prop('D04','Deformable scenes are assembled as the user asked',
 'A soft body created from a tetrahedral mesh carries exactly that mesh: rest nodes as given, a spatial state that starts at rest, degrees of freedom numbered consecutively across bodies and a surface made of the faces belonging to one tetrahedron. Prescribed nodes and loaded surface faces are exactly those the user selected, later changes to the caller\u2019s arrays do not reach engine state, material interactions are symmetric and fall back to the default pair, and illegal, unknown or duplicate entries are rejected.',
 ['inputs','histories'],'every node placement, selection predicate and order of set-up calls for small meshes',
 'Tests build one scene and look at counts.',
 [SB+'api.py',SB+'types.py'],[('scene set-up','api.create_soft_body, create_dirichlet_conditions, create_traction_conditions, create_surfaces_interaction')])
prop('D05','Contacts of deformable bodies lie on the touching geometry',
 'A contact between deformable bodies has a position on the triangle of the touching surface, barycentric weights that reproduce that position in the elements of both bodies, a gap equal to the interpolated distance value there and within the detection envelope, and a unit normal perpendicular to the deformed level set. Reduction keeps a contact for every distinct position and pair. Triangles of one body that share a vertex never collide, and two triangles of one body are reported exactly when they really meet.',
 ['inputs'],'every placement of two elements or two triangles and every distance-field value',
 'No test reaches deformable contact generation.',
 [SB+'collision_detection.py'],[('deformable contacts','collision_detection')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
print(len(P))
