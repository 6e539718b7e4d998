"""The time loop of both simulators."""
from symx.harness import harness
from common import *
RA = "rainbow.simulators.prox_rigid_bodies.api"
SA = "rainbow.simulators.prox_soft_bodies.api"
RT = "rainbow.simulators.prox_rigid_bodies.types"
STY = "rainbow.simulators.prox_soft_bodies.types"
NOTE = """Real arithmetic; durations of at most 6 (thorough 16) configured time steps; the stepper is a recorder (what one step does: R02, D03)."""


class Recorder:
    def __init__(self, c):
        self.c, self.dts, self.args = c, [], []
        self.log = []

    def step(self, dt, engine, flag=False):
        self.dts.append(dt)
        self.args.append((engine, flag))
        if len(self.dts) > 40:
            raise RuntimeError("runaway loop")


def engine(c, kind):
    if kind == "soft":
        # the hash grid draws 10^9 random cells (8 GB) and plays no part in the time loop
        c.patch(c.mod("rainbow.geometry.spatial_hashing"), "HashGird", lambda *a, **k: None)
    e = (c.mod(RT) if kind == "rigid" else c.mod(STY)).Engine()
    e.stepper = Recorder(c)
    return e


@harness("R09", "prox_rigid_bodies.api.simulate prox_soft_bodies.api.simulate", "every duration up to 6 (thorough 16) time steps, every time step, both simulators", thorough={"n": 16})
def exact_duration(c):
    kind = c.choose("simulator", ["rigid", "soft"])
    A = c.mod(RA if kind == "rigid" else SA)
    e = engine(c, kind)
    n = 16 if c.thorough else 6
    h, T = c.real("h", 0.001, 10), c.real("T", 0.0001, 60)
    c.assume(T <= n * h)
    e.params.time_step = h
    flag = c.choose("profiling", [False, True])
    A.simulate(e, T, flag)
    total = 0
    for k, dt in enumerate(e.stepper.dts):
        c.prove("positive%d" % k, dt > 0)
        c.le("bounded%d" % k, dt, h)
        total = total + dt
    c.eq("total", total, T)
    # no more steps than needed
    c.prove("no_more_than_needed", (len(e.stepper.dts) - 1) * h <= T + (0 if c.sym else 1e-9))
    c.prove("arguments", all(x is e and f == flag for x, f in e.stepper.args))
    c.eq("time_step_kept", e.params.time_step, h)


@harness("R09", "prox_rigid_bodies.api.simulate prox_soft_bodies.api.simulate", "every non-positive duration, missing stepper (rigid)")
def rejected(c):
    kind = c.choose("simulator", ["rigid", "soft"])
    A = c.mod(RA if kind == "rigid" else SA)
    e = engine(c, kind)
    T = c.real("T", -10, 0)
    rec = e.stepper
    why = c.choose("why", ["time", "stepper"])
    if why == "stepper":
        if kind == "soft":
            return
        T = c.real("P", 0.1, 1)
        e.stepper = None
    try:
        A.simulate(e, T)
    except ValueError:
        c.prove("nothing_moved", not rec.dts)
        return
    c.fail("rejected")


@harness("R09", "prox_rigid_bodies.api.simulate prox_soft_bodies.api.simulate", "two durations one after the other, up to 3 steps each")
def resumes(c):
    kind = c.choose("simulator", ["rigid", "soft"])
    A = c.mod(RA if kind == "rigid" else SA)
    e = engine(c, kind)
    h, T1, T2 = c.real("h", 0.001, 10), c.real("T1", 0.0001, 30), c.real("T2", 0.0001, 30)
    c.assume(T1 <= 3 * h)
    c.assume(T2 <= 3 * h)
    e.params.time_step = h
    rec = e.stepper
    A.simulate(e, T1)
    A.simulate(e, T2)
    c.prove("same_stepper", e.stepper is rec)
    total = 0
    for dt in rec.dts:
        total = total + dt
    c.eq("total", total, T1 + T2)
