"""C19: intersection and merge cost models count what the hardware idiom would do.

Monitors: the models are fed the traces real kernels emit, batched in several ways at once; their totals are compared with
merges of the raw coordinate lists (two-finger steps, same-side runs, elements presented).  Swap counts are compared with an
independent simulation over the stored coordinates."""
import itertools

from fibertree import Fiber, Metrics, Payload, Tensor
from fibertree.model import (Compute, LeaderFollowerIntersector, SkipAheadIntersector, TwoFingerIntersector)
from lib import gen, mon

RULE = ("distinct sequences of coordinate-list pairs (kernels, >=1 comparison) and distinct (coordinate lists, radix, latency) with at "
        "least two lists to merge")
FLOORS = {"huge pairs": 20, "long nested": 130, "long pairs": 500, "long swaps": 250, "many fibers": 300, "totals": 500000, "joined batches": 36000, "comparisons": 180000, "leftovers": 18000, "one side empty": 13000, "nested": 6000, "swaps": 12000, "swap steps": 300000, "unbounded latency": 4500, "revalued": 25000}
ASSUMPTIONS = ["batches end at fiber boundaries (documented: 'must be called after two fibers are fully intersected'); the first "
               "batch holds the header or nothing", "a radix of 1 merges nothing and is not legal",
               "a stored sub-fiber without coordinates is not a list to merge; in an uncompressed rank every coordinate of the shape "
               "contributes a list"]


# ------------------------------------------------------------------ intersections

def merge(a, b):
    """(two-finger steps, runs + matches, elements a presented, elements b presented)"""
    i = j = steps = runs = 0
    side = None
    while i < len(a) and j < len(b):
        steps += 1
        s = "m" if a[i] == b[j] else "a" if a[i] < b[j] else "b"
        if s == "m" or s != side:
            runs += 1
        side = None if s == "m" else s
        i += s != "b"
        j += s != "a"
    # the element in hand when the other list runs out has been presented
    return steps, runs, min(i + 1, len(a)), min(j + 1, len(b))


class Watch:
    """collects one consumable pair of traces in chunks"""

    def __init__(self, rank, l0, l1):
        self.rank, self.types = rank, (f"intersect_{l0}", f"intersect_{l1}")
        self.chunks = []
        self.want = [0, 0, 0, 0]
        self.fibers = []

    def trace(self):
        for t in self.types:
            Metrics.trace(self.rank, t, consumable=True)

    def expect(self, a, b, full_leader=False):
        m = list(merge(a, b))
        if full_leader:
            m[2] = m[3] = len(a)
        self.want = [x + y for x, y in zip(self.want, m)]
        self.fibers.append((tuple(a), tuple(b)))

    def drain(self):
        self.chunks.append(tuple(Metrics.consumeTrace(self.rank, t) for t in self.types))


def groupings(rng, n):
    yield [1] * n
    yield [n]
    for _ in range(2):
        out, left = [], n
        while left:
            k = rng.randint(1, left)
            out.append(k)
            left -= k
        yield out


def judge(ctx, w, lf=False):
    rng = ctx.rng
    n = len(w.chunks)
    for g in groupings(rng, n):
        models = {"leader": (LeaderFollowerIntersector(), 2), "follower": (LeaderFollowerIntersector(), 3)}
        if not lf:
            models.update(two=(TwoFingerIntersector(), 0), skip=(SkipAheadIntersector(), 1))
        at = 0
        for k in g:
            b0 = [list(r) for c in w.chunks[at:at + k] for r in c[0]]
            b1 = [list(r) for c in w.chunks[at:at + k] for r in c[1]]
            at += k
            for name, (m, _) in models.items():
                if name == "leader":
                    m.addTraces(b0)
                elif name == "follower":
                    m.addTraces(b1)
                else:
                    m.addTraces(b0, b1)
        for name, (m, i) in models.items():
            ctx.check(m.getNumIntersects() == w.want[i], f"{name} count",
                      lambda: f"{w.rank}: {m.getNumIntersects()} want {w.want[i]} with batches {g} of {n} over {w.fibers}\n{w.chunks}")
            ctx.count("totals")
        if len(g) < n:
            ctx.count("joined batches")
    ctx.count("comparisons", w.want[0])
    ctx.count("fibers", len(w.fibers))
    if any(not a or not b for a, b in w.fibers):
        ctx.count("one side empty")
    ctx.count("leftovers", sum(1 for a, b in w.fibers if a and b and a[-1] != b[-1]))


def coords_of(f, fmt, default=0):
    if fmt == "U":
        return list(range(*f.getActive()))
    return [c for c, _ in mon.present(f, default)]


def session(fn):
    Metrics.beginCollect()
    try:
        fn()
    finally:
        Metrics.endCollect()


def run_pairs(ctx, pairs, size, fmts=("C", "C"), outer2=False, form="and", early=False, tuples=False):
    """one kernel: for m: [for j:] for k in a_k & b_k over the given raw fibers"""
    rng = ctx.rng
    n = len(pairs)
    up = (lambda c: (c // 3, c % 3)) if tuples else (lambda c: c)
    sh = (size, 3) if tuples else size
    fs = []
    for a, b in pairs:
        two = []
        for rt, fmt in zip((a, b), fmts):
            f = Fiber([up(c) for c, _ in rt], [v for _, v in rt], shape=sh)
            f.getRankAttrs().setId("K")
            f.getRankAttrs().setFormat(fmt)
            two.append(f)
        fs.append(two)
    w = Watch("K", 2, 3) if form == "pop" else Watch("K", 0, 1)
    c3 = Fiber([up(c) for c in range(size) if c % 3], [1 for c in range(size) if c % 3], shape=sh)
    c3.getRankAttrs().setId("K")

    def kernel():
        w.trace()
        if early:
            w.drain()

        def inner(a, b):
            z = Fiber([], [], shape=sh)
            z.getRankAttrs().setId("K")
            z.getRankAttrs().setDefault(0)
            if form == "and":
                for _ in a & b:
                    pass
            elif form == "inter":
                for _ in Fiber.intersection(a, b):
                    pass
            elif form == "proj":
                for _ in a.project(lambda c: c + 1, rank_id="K") & b:
                    pass
                w.expect([c + 1 for c in coords_of(a, fmts[0])], coords_of(b, fmts[1]))
                w.drain()
                return
            elif form == "three":
                # the outer intersection takes its left coordinates from the inner one
                for _ in (a & b) & c3:
                    pass
                both = set(coords_of(b, fmts[1]))
                w.expect([c for c in coords_of(a, fmts[0]) if c in both], coords_of(c3, "C"))
                w.drain()
                return
            elif form == "pop":
                for _, (r, (x, y)) in z << (a & b):
                    r += x * y
            else:
                for _ in Fiber.intersection(a, b, style="leader-follower"):
                    pass
            w.expect(coords_of(a, fmts[0]), coords_of(b, fmts[1]), form == "lf")
            w.drain()
        if n == 1 and rng.random() < .3:
            inner(*fs[0])
            return
        m = Fiber([c * 2 for c in range(n)], [1] * n)
        m.getRankAttrs().setId("M")
        if outer2:
            # consecutive fibers may share their last outer coordinate
            k = -(-n // 2)
            m = Fiber(list(range(k)), [Fiber([c + i // 2 % 2 for c in range(len(fs[i:i + 2]))], [1] * len(fs[i:i + 2])) for i in range(0, n, 2)])
            m.getRankAttrs().setId("M")
            i = 0
            for _, js in m:
                js.getRankAttrs().setId("J")
                for _ in js:
                    inner(*fs[i])
                    i += 1
        else:
            for i, _ in enumerate(m):
                inner(*fs[i])

    session(kernel)
    judge(ctx, w, form == "lf")


def rand_pair(rng, size, dens=None):
    out = []
    for _ in range(2):
        d = dens if dens is not None else rng.choice([0, .2, .5, .5, .8, 1])
        out.append([(c, 0 if rng.random() < .15 else 1) for c in range(size) if rng.random() < d])
    return out


def pairs(ctx):
    rng = ctx.rng
    size = rng.choice([3, 5, 5, 9, 14])
    n = rng.choice([1, 1, 2, 3, 4, 6])
    r = rng.random()
    if r < .03:     # long lists, many fibers
        size, n = rng.choice([40, 100, 270]), rng.choice([1, 2, 9])
        ctx.count("long pairs")
    elif r < .05:
        n = rng.choice([12, 30, 70])
        ctx.count("many fibers")
    ps = [rand_pair(rng, size) for _ in range(n)]
    if rng.random() < .2:
        # runs that end exactly at the border of a fiber
        i = rng.randrange(n)
        k = rng.randrange(size)
        ps[i] = [[(c, 1) for c in range(k)], [(c, 1) for c in range(k, size)]]
        if rng.random() < .5:
            ps[i].reverse()
    fmts = (rng.choice("CCCU"), rng.choice("CCCU"))
    form = rng.choice(["and", "and", "inter", "pop", "lf", "proj", "three"])
    tuples = form != "proj" and fmts == ("C", "C") and rng.random() < .2
    early = rng.random() < .3
    outer2 = rng.random() < .4
    ctx.describe(f"{form} {fmts} tuples={tuples} early={early} outer2={outer2} {ps}")
    run_pairs(ctx, ps, size, fmts, outer2, form, early, tuples)
    ctx.key("p", ps, fmts, form, tuples)


def huge(ctx):
    """more coordinates than any buffer holds by default"""
    rng = ctx.rng
    size = rng.randint(1100, 2500)
    ps = [rand_pair(rng, size) for _ in range(rng.choice([1, 2]))]
    fmts = (rng.choice("CCCU"), rng.choice("CCCU"))
    form = rng.choice(["and", "and", "inter", "pop", "lf", "proj", "three"])
    ctx.describe(f"huge {form} {fmts} {ps}")
    run_pairs(ctx, ps, size, fmts, False, form)
    ctx.count("huge pairs")
    ctx.key("h", form, fmts, size)


def enum_pairs(ctx):
    """two consecutive fibers over 3 coordinates: every combination of subsets"""
    bits = [(ctx.i >> (3 * k)) & 7 for k in range(4)]
    ls = [[(c, 1) for c in range(3) if b >> c & 1] for b in bits]
    ps = [ls[:2], ls[2:]]
    ctx.describe(f"{ps}")
    run_pairs(ctx, ps, 3, early=ctx.rng.random() < .3)
    ctx.key("e", ps)


def nested(ctx):
    """models on two nested intersected ranks at once, from whole tensors; batches at any outer iteration; a rank the kernel may
    never reach before the first batch"""
    rng = ctx.rng
    sizes = [rng.randint(1, 4) for _ in range(3)]
    if rng.random() < .02:
        sizes[rng.randrange(3)] = rng.randint(12, 60)
        ctx.count("long nested")
    ts = []
    for _ in range(2):
        rt = gen.rand_rt(rng, sizes, density=rng.choice([.3, .6, .9]))
        ts.append(Tensor.fromFiber(rank_ids=["M", "K", "N"], fiber=gen.build(rt, 3, 0), shape=sizes))
    a, b = ts
    ctx.describe(f"{mon.show(a)} {mon.show(b)}")
    ws = {r: Watch(r, 0, 1) for r in ("M", "K", "N")}
    batch = rng.choice(["M", "K", "end"])

    def kernel():
        for w in ws.values():
            w.trace()
        pres = lambda f: [c for c, _ in mon.present(f)]
        for _, (ak, bk) in a.getRoot() & b.getRoot():
            for _, (an, bn) in ak & bk:
                for _ in an & bn:
                    pass
                ws["N"].expect(pres(an), pres(bn))
                if batch == "K":
                    ws["N"].drain()
            ws["K"].expect(pres(ak), pres(bk))
            if batch != "end":
                ws["K"].drain()
                if batch == "M":
                    ws["N"].drain()
        ws["M"].expect(pres(a.getRoot()), pres(b.getRoot()))
        for w in ws.values():
            if not w.chunks or batch == "end" or w.rank == "M":
                w.drain()

    session(kernel)
    for w in ws.values():
        judge(ctx, w)
    ctx.count("nested")
    ctx.key("n", mon.show(a), mon.show(b), batch)


# ------------------------------------------------------------------ swaps

def sim_swaps(lists, radix, lat):
    total = 0
    lists = [sorted(x) for x in lists]
    while len(lists) > 1:
        nxt = []
        r = len(lists) if not isinstance(radix, int) else radix
        for i in range(0, len(lists), r):
            grp = lists[i:i + r]
            total += sim_merge(grp, lat)
            nxt.append(sorted(itertools.chain(*grp)))
        lists = nxt
    return total


def sim_merge(grp, lat):
    if isinstance(lat, int):
        return lat * (len(grp) + sum(map(len, grp)))
    # heads are kept in order; a new head is compared with the heads before it and the first one after it
    n = 0
    heads = set()
    nxt = [0] * len(grp)

    def push(i):
        if nxt[i] == len(grp[i]):
            return 0
        e = (grp[i][nxt[i]], -i)
        nxt[i] += 1
        k = 1 + sum(1 for h in heads if h < e)
        heads.add(e)
        return k
    for i in range(len(grp)):
        n += push(i)
    while heads:
        e = min(heads)
        heads.remove(e)
        n += push(-e[1])
    return n


def want_swaps(f, depth, radix, lat, fmt):
    if depth > 0:
        return sum(want_swaps(p, depth - 1, radix, lat, fmt) for p in f.payloads)
    lists = [list(p.coords) for p in f.payloads if p.coords]
    if fmt == "U":
        at = dict(zip(f.coords, f.payloads))
        lists = [list(at[c].coords) if c in at else [] for c in range(*f.getActive())]
    return sim_swaps(lists, radix, lat)


def swaps(ctx):
    rng = ctx.rng
    nd = rng.choice([2, 2, 3, 3, 4])
    shape = [rng.randint(1, 3 if nd == 4 else 5) for _ in range(nd)]
    if rng.random() < .3:
        shape[-2] = rng.randint(5, 12)
    if rng.random() < .02:      # many lists, or long ones
        shape = [rng.randint(1, 2) for _ in shape]
        shape[rng.choice([-2, -2, -1])] = rng.choice([20, 40, 70, 130])
        shape[-1] = max(shape[-1], rng.choice([2, 12]))
        ctx.count("long swaps")
    rt = gen.rand_rt(rng, shape, density=rng.choice([.3, .6, .9, 1]), explicit=rng.choice([0, .3]), empties=rng.choice([0, .2]),
                     vals=gen.Vals(rng, 0, "small"))
    t = Tensor.fromFiber(rank_ids=gen.RANKS[:nd], fiber=gen.build(rt, nd, 0), shape=shape)
    depth = rng.randrange(nd - 1)
    radix = rng.choice([2, 2, 3, 4, 5, 8, 100, float("inf"), "N"])
    lat = rng.choice([0, 1, 1, 2, 5, "N", "N", "N"])
    fmts = ["C"] * nd
    if rng.random() < .1:
        fmts[depth] = "U"
        t.setFormat(gen.RANKS[depth], "U")
    ctx.describe(f"swaps depth {depth} radix {radix} latency {lat} {fmts} {rt}")
    before = mon.raw(t.getRoot())
    got = Compute.numSwaps(t, depth, radix, lat)
    want = want_swaps(t.getRoot(), depth, radix, lat, fmts[depth])
    ctx.check(got == want, "swap count", lambda: f"{got} want {want}")
    ctx.check(mon.raw(t.getRoot()) == before, "tensor changed by the model", lambda: f"{mon.raw(t.getRoot())} was {before}")
    ctx.count("swaps")
    ctx.count("swap steps", want)
    if lat == "N":
        ctx.count("unbounded latency")
    # other payload values, same coordinates
    for kind in ("values", "defaults"):
        s = Tensor.fromFiber(rank_ids=gen.RANKS[:nd], fiber=gen.build(rt, nd, 0), shape=shape)
        if fmts[depth] == "U":
            s.setFormat(gen.RANKS[depth], "U")
        for _, p in mon.leaves(s.getRoot()):
            p <<= rng.randint(1, 1000) if kind == "values" or rng.random() < .5 else 0
        again = Compute.numSwaps(s, depth, radix, lat)
        ctx.check(again == got, "payload values change the swap count", lambda: f"{again}, was {got}: {mon.raw(s.getRoot())}")
        ctx.count("revalued")
    if want:
        ctx.key("s", [c for c, _ in mon.leaves(t.getRoot())], depth, radix, lat)


GENERATORS = {
    "pairs": (pairs, 30000, 500000),
    "huge": (huge, 30, 600),
    "enum_pairs": (enum_pairs, 4096, 4096),
    "nested": (nested, 12000, 200000),
    "swaps": (swaps, 25000, 400000),
}
