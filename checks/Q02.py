"""Rigid coordinate frames."""
from symx.harness import harness
from common import *
CM = "rainbow.math.coordsys"


@harness("Q02", "coordsys.make coordsys.xform_point coordsys.xform_vector coordsys.concat coordsys.inverse coordsys.make_coordsys_from_to quaternion.prod quaternion.unit quaternion.rotate", "every pair of frames with unit orientation, every point and vector")
def composition(c):
    C = c.mod(CM)
    qa, qb = c.quat("qa"), c.quat("qb")
    ra, rb, p = c.vec("ra"), c.vec("rb"), c.vec("p")
    A, B = C.make(ra, qa), C.make(rb, qb)
    keep = [copy_of(c, x) for x in (qa, qb, ra, rb, p)]
    RA, RB = R_of(c, qa), R_of(c, qb)
    pa = mv(c, RA, p) + ra
    pb = mv(c, RB, p) + rb
    c.eq("point", C.xform_point(A, p), pa)
    c.eq("vector", C.xform_vector(A, p), mv(c, RA, p))
    AB = C.concat(B, A)
    c.eq("concat", C.xform_point(AB, p), mv(c, RB, pa) + rb)
    c.eq("concat_unit", dot(AB.q, AB.q), 1)
    c.eq("concat_vector", C.xform_vector(AB, p), mv(c, RB, mv(c, RA, p)))
    inv = C.inverse(A)
    c.eq("inverse_point", C.xform_point(inv, pa), p)
    c.eq("inverse_other", C.xform_point(A, C.xform_point(inv, p)), p)
    c.eq("inverse_vector", C.xform_vector(inv, mv(c, RA, p)), p)
    AtoB = C.make_coordsys_from_to(A, B)
    c.eq("from_to", C.xform_point(B, C.xform_point(AtoB, p)), pa)
    c.eq("from_to_unit", dot(AtoB.q, AtoB.q), 1)
    for k, (x, y) in enumerate(zip(keep, (qa, qb, ra, rb, p))):
        c.eq("inputs_kept%d" % k, y, x)
    c.eq("frame_kept_q", A.q, keep[0])
    c.eq("frame_kept_r", A.r, keep[2])
    d = mv(c, RA, p) - mv(c, RA, rb)
    c.eq("distance", dot(C.xform_point(A, p) - C.xform_point(A, rb), C.xform_point(A, p) - C.xform_point(A, rb)), dot(p - rb, p - rb))


@harness("Q02", "coordsys.xform_matrix coordsys.CoordSys quaternion.to_matrix", "every frame with unit orientation, every 3x3 matrix")
def matrices(c):
    C = c.mod(CM)
    q, r = c.quat("q"), c.vec("r")
    M = c.mat("M")
    A = C.make(r, q)
    out = C.xform_matrix(A, M)
    c.eq("columns_rotated", out, mm(c, R_of(c, q), M))
    I = C.CoordSys()
    c.eq("default_is_identity", C.xform_point(I, r), r)
    J = C.CoordSys()
    I.r[0] = r[0]
    I.q[1] = r[1]
    c.eq("defaults_not_shared_r", J.r, c.array([0, 0, 0]))
    c.eq("defaults_not_shared_q", J.q, c.array([1, 0, 0, 0]))


@harness("Q02", "coordsys.concat coordsys.inverse coordsys.make_coordsys_from_to", "every pair of frames with unit orientation")
def results_do_not_alias(c):
    C = c.mod(CM)
    qa, qb = c.quat("qa"), c.quat("qb")
    ra, rb = c.vec("ra"), c.vec("rb")
    A, B = C.make(ra, qa), C.make(rb, qb)
    keep = [copy_of(c, x) for x in (qa, ra, qb, rb)]
    for X in (C.concat(B, A), C.inverse(A), C.make_coordsys_from_to(A, B)):
        X.q[0] = X.q[0] + 1
        X.r[2] = X.r[2] + 1
    for k, (x, y) in enumerate(zip(keep, (A.q, A.r, B.q, B.r))):
        c.eq("kept%d" % k, y, x)
