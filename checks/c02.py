"""C02: rank lists mirror the tree after construction, transforms and every mutation step."""
import copy
from fibertree import Fiber, Tensor, Payload
from fibertree.model import Format
from lib import gen, mon, xform
from checks import c01

RULE = ("tensors from every constructor and transform, then random histories of public mutators; after every step the "
        "rank lists, owner pointers and chaining are compared by identity with a raw walk. Non-trivial: distinct "
        "(origin, raw tree, operation) states")
FLOORS = {"steps": 4000, "transforms": 800, "derived": 400, "op:append": 60, "op:populate": 80, "op:clear": 8,
          "op:assign": 20, "op:setitem": 60, "op:ref": 200, "multi_fiber_ranks": 500, "setRoot": 100}
ASSUMPTIONS = ["the lists returned by getFibers() are read, never written, by the harness"]


def verify(ctx, t, what):
    ctx.count("steps")
    errs = mon.rank_errors(t)
    if errs:
        ctx.fail("rank mirror after " + what.split("(")[0].split()[0], f"after {what}: {errs[:3]}\n {mon.show(t)}")
    if any(len(r.getFibers()) > 1 for r in t.ranks):
        ctx.count("multi_fiber_ranks")


def derived(ctx, t, default):
    """per-rank quantities derived from the lists"""
    if not t.ranks:
        return
    rng = ctx.rng
    lv = mon.levels(t.getRoot(), len(t.ranks))
    ints = all(isinstance(c, int) for fs in lv for f in fs for c in f.coords)
    for d, r in enumerate(t.ranks):
        want = sorted(repr(mon.raw(f)) for f in lv[d])
        got = sorted(repr(mon.raw(f)) for f in r.getFibers())
        ctx.check(want == got, "rank contents", lambda: f"{got} vs {want}")
        txt = repr(r)
        ctx.check(txt.count("Fiber(") >= len(lv[d]) and (len(lv[d]) or "Fiber(" not in txt), "rank printing", txt)
        ctx.check(sum(1 for _ in r.getFibers()) == len(lv[d]), "rank count")
        str(r)
    if ints and all(isinstance(i, str) for i in t.getRankIds()):
        spec = {i: {"format": "C", "cbits": 3, "pbits": 5, "fhbits": 7} for i in t.getRankIds()}
        fmt = Format(t, spec)
        for d, i in enumerate(t.getRankIds()):
            want = sum(7 + 8 * len(f.coords) for f in lv[d])
            got = fmt.getRank(i)
            ctx.check(got == want, "rank footprint", f"rank {i}: {got} expected {want}: {mon.show(t)}")
        ctx.count("derived")
    for fs in lv:
        for f in fs:
            if f.coords:
                f.getPayload(f.coords[-1], start_pos=0)
    t.clearStats()
    for fs in lv:
        for f in fs:
            ctx.check(f.getSavedPosStats(clear=False) == (0, 0), "clearStats missed a live fiber")


class Hist(c01.Hist):
    tensor_only = True

    def verify(self, what):
        super().verify(what)
        verify(self.ctx, self.tensor, what)
        self.ctx.key(self.route, mon.tree_snap(self.root), what.split()[0])


def history(ctx):
    h = Hist(ctx)
    for _ in range(ctx.rng.randint(2, 9)):
        h.step()
        if ctx.rng.random() < .1:
            v = "ids"
            t2 = copy.deepcopy(h.tensor)
            verify(ctx, t2, "deepcopy")
            verify(ctx, h.tensor, "deepcopy(operand)")
        if ctx.rng.random() < .1:
            # read-only operations must leave the lists alone
            o, _ = gen.rand_tensor(ctx.rng, h.depth, list(h.shape), h.default)
            a, b = h.root, o.getRoot()
            k = ctx.rng.choice(["|", "^", "&", "-", "==", "read", "union", "iter"])
            if k == "|":
                list(a | b)
            elif k == "^":
                list(a ^ b)
            elif k == "&":
                list(a & b)
            elif k == "-":
                list(a - b)
            elif k == "==":
                h.tensor == o
            elif k == "union":
                list(Fiber.union(a, b, a))
            elif k == "read":
                h.tensor.getPayload(*[ctx.rng.randrange(s) for s in h.shape])
            else:
                list(a.iterShape())
            verify(ctx, h.tensor, "read-only " + k)
            verify(ctx, o, "read-only " + k)
    derived(ctx, h.tensor, h.default)


def transform(ctx):
    rng = ctx.rng
    t, ti = gen.rand_tensor(rng, formats=.1)
    ctx.describe(f"{ti} {mon.show(t)}")
    verify(ctx, t, ti.route)
    depth = len(ti.rank_ids)
    for _ in range(2):
        name, fn = rng.choice(xform.choices(t, rng, depth))
        ctx.op(name)
        ctx.key(ti.rank_ids, mon.tree_snap(t.getRoot()), name)
        try:
            r = fn()
        except (AssertionError, IndexError, ValueError, TypeError, KeyError) as e:
            ctx.count("transform_rejected")
            verify(ctx, t, name + "(rejected, operand)")
            continue
        ctx.count("transforms")
        verify(ctx, r, name)
        verify(ctx, t, name + "(operand)")
        derived(ctx, r, ti.default)
        # mutate the result through references and re-check
        f = r.getRoot()
        for _ in range(rng.randint(0, 3)):
            lvls = mon.levels(r.getRoot(), len(r.ranks))
            g = rng.choice([f for fs in lvls for f in fs])
            if rng.random() < .3:
                g.clear()
            else:
                s = g.coords[0] if g.coords else 0
                g.getPayloadRef(s if rng.random() < .5 or not isinstance(s, int) else rng.randrange(9))
            verify(ctx, r, name + "+mutation")
        if all(isinstance(i, str) for i in r.getRankIds()) and len(r.ranks) == depth and name.split("(")[0] in (
                "swizzleRanks", "deepcopy", "updatePayloads"):
            t = r
    derived(ctx, t, ti.default)


def ctors(ctx):
    rng = ctx.rng
    depth = rng.randint(1, 3)
    ids = gen.RANKS[:depth]
    shape = gen.rand_shape(rng, depth)
    default = gen.rand_default(rng)
    k = rng.choice(["empty", "makePopulated", "fromRandom", "yaml", "setRoot", "setRoot-owned", "self-root", "rank0",
                    "copy"])
    ctx.describe(f"{k} {shape} default={default}")
    ctx.key(k, shape, default)
    if k == "empty":
        t = Tensor(rank_ids=ids, shape=shape if rng.random() < .5 else None, default=default)
    elif k == "makePopulated":
        t = Tensor.makePopulated(ids, shape, initial=3, default=default)
    elif k == "fromRandom":
        t = Tensor.fromRandom(ids, shape, [rng.choice([.3, .7, 1.0]) for _ in shape], 5, seed=ctx.i, default=default)
    elif k == "yaml":
        t0, _ = gen.rand_tensor(rng, depth, shape, 0)
        t0.dump("t.yaml")
        t = Tensor.fromYAMLfile("t.yaml") if rng.random() < .5 else Tensor("t.yaml")
    elif k == "rank0":
        t = Tensor(rank_ids=[])
        verify(ctx, t, k)
        return
    elif k == "copy":
        t0, _ = gen.rand_tensor(rng, depth, shape, default)
        f = t0.getRoot().copy(preserve_owner=False)
        verify(ctx, t0, "copy(preserve_owner=False) operand")
        t = Tensor.fromFiber(ids, f, default=default)
        verify(ctx, t0, "fromFiber(copy) source")
    else:
        t, ti = gen.rand_tensor(rng, depth, shape, default)
        ctx.count("setRoot")
        if k == "setRoot":
            t.setRoot(gen.build(gen.rand_rt(rng, shape, default), depth, default))
        elif k == "self-root":
            t.setRoot(t.getRoot())
        else:
            t2, _ = gen.rand_tensor(rng, depth, shape, default)
            t.setRoot(t2.getRoot())
            verify(ctx, t2, "setRoot source")
            u = Tensor.fromFiber(ids, t2.getRoot(), default=default)
            verify(ctx, u, "fromFiber(owned)")
            verify(ctx, t2, "fromFiber(owned) source")
    verify(ctx, t, k)
    for _ in range(3):
        pt = [rng.randrange(s) for s in shape]
        t.getPayloadRef(*pt[:rng.randint(1, depth)])
        verify(ctx, t, k + "+ref")
    derived(ctx, t, default)


GENERATORS = {"history": (history, 24000, 300000), "transform": (transform, 16000, 150000),
              "ctors": (ctors, 6000, 40000)}
