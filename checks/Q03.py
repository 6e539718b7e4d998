"""Euler angles."""
from symx.harness import harness
from common import *
EM = "rainbow.math.euler"


def rebuild(c, e):
    return mm(c, rz(c, e.gamma), mm(c, ry(c, e.beta), rx(c, e.alpha)))


def ranges(c, e):
    c.le("alpha_hi", e.alpha, c.pi)
    c.ge("alpha_lo", e.alpha, -c.pi)
    c.le("beta_hi", e.beta, c.pi / 2)
    c.ge("beta_lo", e.beta, -c.pi / 2)
    c.le("gamma_hi", e.gamma, c.pi)
    c.ge("gamma_lo", e.gamma, -c.pi)


@harness("Q03", "euler.make_euler_xyz_from_quaternion euler.make_euler_xyz_from_matrix quaternion.to_matrix", "every unit quaternion off gimbal lock (|sin beta| < 0.9999), both signs", time=300)
def from_quaternion(c):
    E = c.mod(EM)
    a, b, g = c.angle("a"), c.angle("b"), c.angle("g")
    c.assume(c.np.cos(b) > 0.01)
    sign = c.choose("sign", [1, -1])
    h = [(c.np.cos(t / 2), c.np.sin(t / 2)) for t in (a, b, g)]
    q = qmul(c, c.array([h[2][0], 0, 0, h[2][1]]), qmul(c, c.array([h[1][0], 0, h[1][1], 0]), c.array([h[0][0], h[0][1], 0, 0])))
    q = q * sign
    e = E.make_euler_xyz_from_quaternion(q)
    ranges(c, e)
    c.eq("rebuild", rebuild(c, e), R_of(c, q))


@harness("Q03", "euler.make_euler_xyz_from_matrix", "every rotation matrix in both gimbal-lock positions", time=300)
def gimbal_lock(c):
    E = c.mod(EM)
    t = c.angle("t")
    up = c.choose("up", [True, False])
    co, si = c.np.cos(t), c.np.sin(t)
    if up:
        R = c.array([[0, -si, -co], [0, co, -si], [1, 0, 0]])
    else:
        R = c.array([[0, -si, co], [0, co, si], [-1, 0, 0]])
    e = E.make_euler_xyz_from_matrix(R)
    ranges(c, e)
    c.eq("rebuild", rebuild(c, e), R)


@harness("Q03", "euler.make_euler_xyz_from_matrix", "every triple of angles in the principal ranges", time=300)
def angles_round_trip(c):
    """the same angles come back (sines and cosines of each agree)"""
    E = c.mod(EM)
    a, b, g = c.angle("a"), c.angle("b"), c.angle("g")
    cb = c.np.cos(b)
    c.assume(cb > 0.01)
    R = mm(c, rz(c, g), mm(c, ry(c, b), rx(c, a)))
    keep = copy_of(c, R)
    e = E.make_euler_xyz_from_matrix(R)
    for nm, x, y in (("alpha", e.alpha, a), ("beta", e.beta, b), ("gamma", e.gamma, g)):
        c.eq(nm + "_cos", c.np.cos(x), c.np.cos(y))
        c.eq(nm + "_sin", c.np.sin(x), c.np.sin(y))
    c.eq("input_kept", R, keep)
