"""C18: format footprints add up from the tree exactly.

Monitor: every public query of a Format is compared, bit for bit, with sums recomputed from a raw walk of
`.coords/.payloads` and the specification as given (defaults applied by the monitor, not read back)."""
import copy
import random

from fibertree import Fiber, Metrics, Payload, Tensor
from fibertree.model.format import Format
from lib import gen, mon

RULE = "distinct (tensor content incl. explicit defaults and empty sub-fibers, specification)"
FLOORS = {"fibers": 55000, "subtrees": 55000, "subtrees with uncompressed ranks": 7000, "absent points": 70000,
          "ranks": 20000, "after mutation": 2500, "estimated": 500, "defaulted fields": 60000}
ASSUMPTIONS = ["occupancy of a fiber is its number of stored elements (len), explicit defaults included",
               "when no shape was given, a fiber's shape is the one it reports (fiber.getShape(all_ranks=False), C14) and an absent fiber's is its rank's",
               "a sub-tree named by a full point is the single coordinate/payload pair, as the code documents"]

F_INT = ("rhbits", "fhbits", "cbits", "pbits")


class Spec:
    """full specification as the property states it, plus the partial dictionary handed to Format"""

    def __init__(self, rng, ids, pu=.5, sparse=.35):
        self.given, self.full = {}, {}
        self.missing = 0
        root = {k: rng.choice([0, 1, 3, 64, 1000003]) for k in ("hbits", "pbits")}
        self.full["root"] = root
        g = {k: v for k, v in root.items() if rng.random() > sparse}
        if g or rng.random() < .5:
            self.given["root"] = g
        self.full["root"] = {k: g.get(k, 0) for k in root}
        for i, r in enumerate(ids):
            # widths whose sums identify the contributing terms
            d = {"rhbits": rng.choice([0, 5, 10 ** (3 * i + 12)]), "fhbits": rng.choice([0, 7, 10 ** (3 * i + 2)]),
                 "cbits": rng.choice([0, 1, 8, 31]), "pbits": rng.choice([0, 1, 16, 10 ** 6 + 3]),
                 "format": "U" if rng.random() < pu else "C", "layout": rng.choice(["contiguous", "interleaved"])}
            g = {k: v for k, v in d.items() if rng.random() > sparse}
            dflt = {"rhbits": 0, "fhbits": 0, "cbits": 0, "pbits": 0, "format": "C", "layout": "contiguous"}
            self.full[r] = {k: g.get(k, dflt[k]) for k in d}
            self.missing += 6 - len(g)
            if g or rng.random() < .5:
                self.given[r] = g

    def elem(self, r):
        return self.full[r]["cbits"] + self.full[r]["pbits"]


class Model:
    def __init__(self, t, spec, shape):
        self.t, self.s, self.shape = t, spec, shape
        self.ids = t.getRankIds()
        self.default = t.getDefault()
        self.uranks = 0

    def shape_of(self, d, f):
        if self.shape is not None:
            return self.shape[d]
        # no shape was given: what the fiber (an absent one: its rank) reports
        s = f.getShape(all_ranks=False) if f is not None else self.t.ranks[d].getShape(all_ranks=False)
        return s or 0

    def fiber(self, d, f):
        r = self.ids[d]
        sp = self.s.full[r]
        n = (len(f.coords) if f is not None else 0) if sp["format"] == "C" else self.shape_of(d, f)
        return sp["fhbits"] + n * self.s.elem(r)

    def sub(self, d, f):
        total = self.fiber(d, f)
        if d + 1 == len(self.ids):
            return total
        if self.s.full[self.ids[d]]["format"] == "U":
            self.uranks += 1
            at = {c: p for c, p in zip(f.coords, f.payloads)} if f is not None else {}
            for c in range(self.shape_of(d, f)):
                total += self.sub(d + 1, at.get(c))
        elif f is not None:
            for _, p in mon.present(f, self.default):
                total += self.sub(d + 1, p)
        return total

    def rank(self, d):
        tot = self.s.full[self.ids[d]]["rhbits"]
        for f in mon.levels(self.t.getRoot(), len(self.ids))[d]:
            tot += self.fiber(d, f)
        return tot

    def root(self):
        return sum(self.s.full["root"].values())


def snap(t):
    return (mon.raw(t.getRoot()), [[id(f) for f in r.getFibers()] for r in t.ranks], t.getShape(), t.getRankIds())


def descend(root, pt):
    f = root
    for c in pt:
        if f is None or c not in f.coords:
            return None
        f = f.payloads[f.coords.index(c)]
    return f


def audit(ctx, t, fmt, spec, shape, points, what=""):
    m = Model(t, spec, shape)
    ids = m.ids
    before = snap(t)
    for d, r in enumerate(ids):
        sp = spec.full[r]
        ctx.check((fmt.getRHBits(r), fmt.getFHBits(r), fmt.getCBits(r), fmt.getPBits(r), fmt.getFormat(r), fmt.getLayout(r)) ==
                  (sp["rhbits"], sp["fhbits"], sp["cbits"], sp["pbits"], sp["format"], sp["layout"]),
                  "specification field", lambda: f"{what}{r}: {spec.given} read back as {fmt.spec}")
        ctx.check((fmt.getElem(r, "coord"), fmt.getElem(r, "payload"), fmt.getElem(r, "elem")) == (sp["cbits"], sp["pbits"], spec.elem(r)),
                  "element footprint", lambda: f"{what}{r}")
        got, want = fmt.getRank(r), m.rank(d)
        ctx.check(got == want, "rank footprint", lambda: f"{what}{r}: {got} want {want}")
        ctx.count("ranks")
    ctx.check(fmt.getRoot() == m.root(), "root footprint", lambda: f"{what}{fmt.getRoot()} want {m.root()}")
    want = m.root() + sum(m.rank(d) for d in range(len(ids)))
    ctx.check(fmt.getTensor() == want, "tensor footprint", lambda: f"{what}{fmt.getTensor()} want {want}")
    for pt in points:
        f = descend(t.getRoot(), pt)
        if f is None:
            ctx.count("absent points")
        if len(pt) == len(ids):
            got, want = fmt.getSubTree(*pt), spec.elem(ids[-1])
            ctx.check(got == want, "element footprint", lambda: f"{what}{pt}: {got} want {want}")
            continue
        got, want = fmt.getFiber(*pt), m.fiber(len(pt), f)
        ctx.check(got == want, "fiber footprint", lambda: f"{what}fiber {pt}: {got} want {want}")
        ctx.count("fibers")
        m.uranks = 0
        want = m.sub(len(pt), f)
        got = fmt.getSubTree(*pt)
        ctx.check(got == want, "subtree footprint", lambda: f"{what}subtree {pt}: {got} want {want}")
        ctx.count("subtrees")
        if m.uranks:
            ctx.count("subtrees with uncompressed ranks")
        ctx.check(snap(t) == before, "a query changed the tensor", lambda: f"{what}after queries at {pt}: {mon.raw(t.getRoot())} was {before[0]}")
    ctx.check(snap(t) == before, "a query changed the tensor", lambda: f"{what}{mon.raw(t.getRoot())} was {before[0]}")
    ctx.count("defaulted fields", spec.missing)


def points(rng, shape, limit):
    import itertools
    out = [()]
    for d in range(1, len(shape) + 1):
        ps = list(itertools.product(*[range(s) for s in shape[:d]]))
        if len(ps) > limit:
            ps = rng.sample(ps, limit)
        out += ps
    return out


def random_(ctx):
    rng = ctx.rng
    t, info = gen.rand_tensor(rng, auth=True, density=rng.choice([None, 0, .3]), explicit=rng.choice([0, .3]), empties=rng.choice([0, .4]),
                              shape=gen.rand_shape(rng, rng.choice([1, 2, 2, 3, 3, 3, 4]), hi=4), formats=rng.choice([0, .5]))
    spec = Spec(rng, info.rank_ids, sparse=rng.choice([0, .35, 1]))
    ctx.describe(f"{info} {mon.raw(t.getRoot())} spec {spec.given}")
    given = copy.deepcopy(spec.given)
    fmt = Format(t, given)
    audit(ctx, t, fmt, spec, info.shape, points(rng, info.shape, 10))
    ctx.key("r", mon.raw(t.getRoot()), info.shape, spec.given)
    if rng.random() < .5:
        # queries follow the tensor, not a snapshot of it
        for _ in range(rng.randint(1, 3)):
            pt = tuple(rng.randrange(s) for s in info.shape[:rng.randint(1, len(info.shape))])
            how = rng.choice(["write", "default", "path", "append", "prune"])
            ctx.op(how, pt)
            if how == "write" and len(pt) == len(info.shape):
                ref = t.getPayloadRef(*pt)
                ref <<= 99
            elif how == "default" and len(pt) == len(info.shape):
                ref = t.getPayloadRef(*pt)
                ref <<= info.default
            elif how == "prune":
                root = t.getRoot()
                if len(root):
                    z, _ = gen.rand_tensor(rng, shape=info.shape, auth=True, default=info.default, rank_ids=info.rank_ids, route="fromFiber", density=.5)
                    t = z
                    fmt = Format(t, copy.deepcopy(spec.given))
            else:
                t.getPayloadRef(*pt)
        audit(ctx, t, fmt, spec, info.shape, points(rng, info.shape, 6), "after mutation: ")
        ctx.count("after mutation")


def small(ctx):
    """all 2-rank trees over 2x2 with each sub-fiber absent/empty/..., with all format assignments"""
    rng = ctx.rng
    i, k = divmod(ctx.i, 4)
    rt = []
    for c in range(2):
        i, s = divmod(i, 10)
        if s:
            rt.append((c, gen.enum_fiber(2, s - 1)))
    t = Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(rt, 2, 0), shape=[2, 2])
    spec = Spec(rng, ["M", "K"], sparse=0)
    for r, b in (("M", k & 1), ("K", k & 2)):
        spec.full[r]["format"] = spec.given[r]["format"] = "U" if b else "C"
    ctx.describe(f"{rt} {spec.given}")
    audit(ctx, t, Format(t, copy.deepcopy(spec.given)), spec, [2, 2], points(rng, [2, 2], 99))
    ctx.key("s", rt, k)


def derived(ctx):
    """results of transforms, and tensors without a given shape"""
    rng = ctx.rng
    t, info = gen.rand_tensor(rng, route=rng.choice(["fromFiber", "writes", "uncompressed"]), auth=rng.random() < .6, default=0,
                              shape=gen.rand_shape(rng, rng.choice([2, 2, 3]), hi=5), empties=0 if rng.random() < .5 else .3)
    ctx.describe(f"{info} {mon.raw(t.getRoot())}")
    how = rng.choice(["none", "split", "splitlow", "swizzle", "updated"])
    if how == "split":
        t = t.splitUniform(rng.randint(1, 3))
    elif how == "splitlow":
        t = t.splitEqual(rng.randint(1, 3), depth=1)
    elif how == "swizzle":
        ids = list(info.rank_ids)
        rng.shuffle(ids)
        t = t.swizzleRanks(ids)
    elif how == "updated":
        root = t.getRoot()
        for c, p in zip(list(root.coords), list(root.payloads)):
            for q in (p.payloads if info.shape and len(info.shape) == 2 else []):
                q += 3
    ids = t.getRankIds()
    shape = t.getShape()
    est = t.getShape(authoritative=True) is None
    if est:
        ctx.count("estimated")
    spec = Spec(rng, ids)
    audit(ctx, t, Format(t, copy.deepcopy(spec.given)), spec, None if est else shape, points(rng, shape, 6), f"{how}: ")
    ctx.key("d", how, mon.raw(t.getRoot()), spec.given)


def shared(ctx):
    """one specification dictionary describing several tensors"""
    rng = ctx.rng
    ids = ["M", "K", "N"]
    spec = Spec(rng, ids, sparse=.5)
    given = copy.deepcopy(spec.given)
    ts = []
    for ri in (["M", "K"], ["K", "N"], ["M", "K", "N"]):
        t, info = gen.rand_tensor(rng, rank_ids=ri, shape=gen.rand_shape(rng, len(ri), hi=3), auth=True)
        ts.append((t, info, Format(t, given)))
    ctx.describe(f"{spec.given} {[(i, mon.raw(t.getRoot())) for t, i, _ in ts]}")
    for t, info, fmt in ts:
        audit(ctx, t, fmt, spec, info.shape, points(rng, info.shape, 4))
    ctx.key("sh", spec.given, [mon.raw(t.getRoot()) for t, _, _ in ts])


GENERATORS = {
    "random": (random_, 20000, 400000),
    "small": (small, 400, 400),
    "derived": (derived, 8000, 150000),
    "shared": (shared, 1500, 30000),
}
