"""Priority queue with updates."""
from symx.harness import harness
from common import *
HM = "rainbow.util.heap"


def smallest(c, live, idx):
    return c.all(*[live[idx] <= v for k, v in live.items() if k != idx])


def run(c, script, ids, drain=True):
    """script: list of operations; the model is a plain dictionary id -> most recent priority"""
    H = c.mod(HM).Heap()
    live = {}
    n = 0
    for op in script:
        if op == "pop":
            pop(c, H, live, n)
        else:
            v = c.real("v%d" % n)
            (H.update if op[0] == "u" else H.push)(int(op[1]), v)
            live[int(op[1])] = v
        c.prove("truth%d" % n, bool(H) == bool(live))
        n += 1
    while drain and n < 40:
        if not live:
            pop(c, H, live, n)
            break
        pop(c, H, live, n)
        n += 1


def pop(c, H, live, n):
    got = H.pop()
    if not live:
        c.prove("empty%d" % n, got is None)
        return
    c.prove("live%d" % n, got in live)
    c.prove("smallest%d" % n, smallest(c, live, got))
    del live[got]


OPS = ["p0", "p1", "p2", "pop"]


@harness("S01", "heap.Heap.push heap.Heap.pop heap.Heap.update", "every history of 4 operations (thorough 5) on 3 identifiers with arbitrary real priorities, ties included, then drained", max_paths=60000, time=600)
def histories(c):
    n = 5 if c.thorough else 4
    script = []
    fresh = 0
    for i in range(n):
        # identifiers are interchangeable apart from ties: the first use is always the next new one
        opts = ["p%d" % k for k in range(min(fresh + 1, 3))] + (["pop"] if i else [])
        op = c.choose("op%d" % i, opts)
        if op[0] == "p" and op[1:].isdigit():
            fresh = max(fresh, int(op[1]) + 1)
        script.append(op)
    run(c, script, 3)


@harness("S01", "heap.Heap.push heap.Heap.pop heap.Heap.update", "longer histories built around updates: raise, lower, re-insert after removal, repeated updates of one element; arbitrary real priorities", max_paths=60000, time=600)
def updates(c):
    s = c.choose("script", [
        ["p2", "p1", "u2", "u1", "pop"],
        ["p0", "u0", "u0", "u0", "pop", "p0"],
        ["p0", "pop", "p0", "u0"],
        ["p1", "p0", "pop", "p1", "pop"],
        ["p0", "p1", "u0", "pop", "u0", "pop"],
        ["pop", "p0", "pop", "pop"]])
    run(c, s, 3)


@harness("S01", "heap.Heap.push heap.Heap.pop heap.Heap.update", "two elements that are given the very same priority object, and an element set back to an earlier priority object")
def shared_priority(c):
    H = c.mod(HM).Heap()
    a, b = c.real("a"), c.real("b")
    how = c.choose("how", ["same_for_two", "set_back", "set_back_after_pop"])
    live = {}

    def put(i, v):
        H.push(i, v)
        live[i] = v
    if how == "same_for_two":
        put(0, a), put(1, a), put(0, b)
    elif how == "set_back":
        put(0, a), put(0, b), put(0, a), put(1, b)
    else:
        put(0, a), put(0, b)
        pop(c, H, live, 90)
        put(0, a)
        put(1, b)
    n = 0
    while live:
        pop(c, H, live, n)
        n += 1
    c.prove("empty_at_last", H.pop() is None and not H)
