MISSED = {"q01_from_matrix_y": "no: the change is an identity over the reals for every rotation matrix and only loses precision near half turns (floating point, outside the method)"}
T = {
"Q01": "Oracle: the textbook rotation matrix of a unit quaternion and Rodrigues' formula written in the harness. Unit quaternions are four variables with the rule s²=1-x²-y²-z²; angles are (cos,sin) pairs. Matrix to quaternion is decided on all four branches, for every rotation matrix. Tests sample a handful of rotations, mostly about coordinate axes, where several wrong formulas coincide.",
"Q02": "Frames are (translation, unit quaternion); all compositions compared with the homogeneous matrices; inputs compared with copies taken before the call.",
"Q03": "Every rotation matrix resp. unit quaternion is generated from three symbolic angles and, for the singular cases, from the gimbal-lock families; extracted angles are put back through the rotation of the convention. atan2/asin/acos results are represented by their (cos,sin) pair.",
"Q04": "Derivatives are compared with the exact derivative of the executed exponential (the engine differentiates its own terms), not with finite differences. Known finding: the logarithm of a half turn (pinned by an existing test).",
"Q05": "Every input vector/matrix. Polar decomposition: the eigen solver is its contract on F^T F, with independent stretches in a stack.",
"Q06": "Polynomials of one to three variables up to the listed order, symbolic coefficients and points; the text form is parsed back by the harness with symbolic coefficients (signs, zero, one and integrality forked).",
"Q07": "Point sets of the listed sizes, the eigen solver by contract (any order, sign and basis of repeated values it may return).",
"G01": "Grids of the listed node counts with arbitrary box, nodal values and query point; trilinear reference written in the harness; gradient compared with the derivative of the executed interpolation.",
"G02": "Arbitrary vertices and envelopes; exact iff with the interval definition.",
"G03": "Every element count/chunk size in the table; arbitrary interval positions per axis; the pair set reported equals the brute force pair set, no duplicates.",
"G04": "Insert histories with symbolic cells and time stamps, and the whole narrow phase of the deformable simulator on flat triangles at symbolic positions. Random table contents are arbitrary.",
"G05": "Arbitrary simplices, points and motions.",
"G06": "Arbitrary corners; sample points decided on the real sampling code for the listed orders.",
"G07": "Every size parameter symbolic, slice counts from a list; manifoldness and orientation decided combinatorially on the produced index arrays, volumes and normals over the symbolic coordinates.",
"G08": "Symbolic beam sizes and tetrahedron corners; volumes, orientation, surface/neighbour tables against a brute-force definition.",
"G09": "Arbitrary field values on the stencil, three different spacings; compared with the curvature of the quadratic Taylor polynomial.",
"S02": "Characters of bounded texts are forked by class, digits stay symbolic integers, so a number is a linear expression in its digits; the grammar objects of parse_string are executed with a stand-in for pyparsing (first match wins, white-space skipping). Accepted iff well formed, value against an independent reader in the harness, one arbitrary edit on every text. Tests sample a few literals.",
"S01": "All histories of the listed length with arbitrary real priorities (ties included).",
"R01": "Closed forms for the solids over symbolic dimensions; mesh integrals by the divergence theorem on symbolic tetrahedral meshes; body frame by the symmetric eigen contract.",
"R02": "Step of the real stepper for every fixed/free pattern; solver and collision detection are arbitrary in the constrained harnesses.",
"R03": "Rows multiplied with symbolic velocities and impulses: relative velocity, momentum balance, right-hand sides.",
"R04": "Rows against the kinematics of the joint; error vector against the geometric drift with the sign that reduces it.",
"R05": "Sweeps with arbitrary matrices; one-contact fixed points against the Coulomb conditions; iteration control against a re-statement of the accept/reject rule in the harness with every sweep result arbitrary. Known finding: one factor per friction row.",
"R06": "The four schemes on arbitrary matrices; both orders of the parallel loops; fixed points iff solution of the projection equations.",
"R07": "Arbitrary impulses and competing points; the quadratic nearest-point inequality goes to z3.",
"R08": "Body and node indices are symbolic integers; networkx's colouring runs on the graph decided by the path.",
"R09": "Duration and time step symbolic; the stepper only records.",
"R10": "Placement formulas against the rigid transformation of the user's coordinates.",
"R11": "Collision pipeline from the pair list on: fields with independent affine value and gradient make every branch of the search reachable; planar fields decide completeness.",
"K01": "Skeleton shapes from a list, all angles and vectors symbolic; Jacobian, gradient and Hessian against exact derivatives of the executed forward kinematics.",
"D01": "Derivative identities over the executed energies; corotational model through the polar decomposition with the eigen contract.",
"D02": "Element kernels for arbitrary tetrahedra, assembly for six connectivities, global vectors for two bodies in both orders.",
"D03": "One step of the real stepper with arbitrary forces, inverse mass, contact rows and impulses.",
"D04": "Set-up functions with symbolic values; implicit functions return an arbitrary number at each vertex.",
"D05": "As R11 through the material-space map of the deformable bodies; triangle pair test against the separating axes of the two triangles for every relative translation.",
}
