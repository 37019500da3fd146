"""C20: encoding a tensor in a compression format loses nothing.

Monitors: an independent decoder that knows only the documented layout reads the per-rank arrays back; every encoded fiber is
scanned through its own handle interface (and the whole tensor is walked fiber handle by fiber handle); lookups and sizes are
compared with the layout."""
import bisect
import itertools
import math

from fibertree import Codec, Tensor
from fibertree.codec import swoop
from lib import gen, mon

RULE = "distinct (tensor, descriptor, imposed shape) with at least one stored value"
FLOORS = {"all default": 3000, "desc:B": 1000, "desc:BC": 1700, "desc:BCU": 800, "desc:BU": 1700, "desc:C": 1200, "desc:CU": 1700,
          "desc:U": 1100, "enumerated": 1200, "estimated": 1300, "handles": 80000, "imposed shape": 3500, "interleaved": 5000,
          "lookups": 200000, "scanned": 250000, "scans": 90000, "sizes": 45000, "streams": 8000, "values": 80000, "wide": 700}
ASSUMPTIONS = ["occupancies are cumulative (every flag of cumulative_payloads set, as in the repository's programs)",
               "size counts, in interior fibers over an encoded rank, a payload entry next to each occupancy entry for C and B "
               "and none for U (whose positions are implicit): what their layouts store",
               "bounded slices (bound, max_num) and insertion into encoded fibers are not part of the property",
               "tensors, not bare fibers, are encoded",
               "a swoop Scan of encoded fibers is a scan through their handle interface"]
ENC = {"U": False, "C": True, "B": True}


class Cache(dict):
    """the stub cache an encoded fiber reports its accesses to; evicts when bounded"""

    def __init__(self, size=None):
        super().__init__()
        self.size, self.hit_count, self.miss_count = size, 0, 0

    def get(self, k, d=None):
        if k in self:
            self.hit_count += 1
        else:
            self.miss_count += 1
        return super().get(k, d)

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        while self.size is not None and len(self) > self.size:
            self.pop(next(iter(self)))


def encode(t, desc, shape=None):
    codec = Codec(tuple(desc), [True] * len(desc))
    out = codec.get_output_dict(t.getRankIds())
    fibers = [[] for _ in range(len(desc) + 1)]
    codec.encode(-1, t.getRoot(), t.getRankIds(), out, fibers, shape=shape)
    return codec, out, fibers


class Decoder:
    """reads the arrays by their layout; per rank a cursor into coordinates and payloads"""

    def __init__(self, ctx, ranks, desc, dims, out, what):
        self.ctx, self.desc, self.dims, self.out, self.what = ctx, desc, dims, out, what
        self.ck = [f"coords_{r.lower()}" for r in ranks]
        self.pk = [f"payloads_{r.lower()}" for r in ranks]
        self.ci, self.pi = [0] * len(ranks), [0] * len(ranks)
        self.n = len(ranks)
        self.words = [[] for _ in ranks]        # per fiber: (coords, elements [(coord, child or value)])

    def fail(self, msg):
        self.ctx.fail("undecodable layout", f"{self.what}: {msg}: {self.out}")

    def take(self, arr, cur, d, k, name):
        a = self.out[arr[d]]
        if cur[d] + k > len(a):
            self.fail(f"{name} of rank {d} end early")
        x = a[cur[d]:cur[d] + k]
        cur[d] += k
        return x

    def fiber(self, d, count):
        fmt, dim = self.desc[d], self.dims[d]
        me = len(self.words[d])
        self.words[d].append(None)
        if fmt == "U":
            coords = list(range(dim))
        elif fmt == "C":
            coords = self.take(self.ck, self.ci, d, count, "coordinates")
            if any(not isinstance(c, int) or not 0 <= c < dim for c in coords) or any(a >= b for a, b in zip(coords, coords[1:])):
                self.fail(f"coordinates {coords} of a fiber in rank {d}")
        else:
            mask = self.take(self.ck, self.ci, d, dim, "mask")
            if any(b not in (0, 1) for b in mask):
                self.fail(f"mask {mask}")
            coords = [c for c, b in enumerate(mask) if b]
            if len(coords) != count:
                self.fail(f"mask {mask} has {len(coords)} bits, occupancy {count}")
        elems, prev = [], 0
        for c in coords:
            if d + 1 == self.n:
                elems.append((c, self.take(self.pk, self.pi, d, 1, "payloads")[0]))
            else:
                k = None
                if ENC[self.desc[d + 1]]:
                    cum = self.take(self.pk, self.pi, d, 1, "occupancies")[0]
                    if not isinstance(cum, int) or cum < prev:
                        self.fail(f"segment end {cum} after {prev} in rank {d}")
                    k, prev = cum - prev, cum
                elems.append((c, len(self.words[d + 1])))
                self.fiber(d + 1, k)
        self.words[d][me] = elems

    def run(self):
        root = self.out["payloads_root"]
        if ENC[self.desc[0]]:
            if len(root) != 1:
                self.fail(f"root payloads {root}")
            self.fiber(0, root[0])
        else:
            if root:
                self.fail(f"root payloads {root}")
            self.fiber(0, None)
        for d in range(self.n):
            if self.ci[d] != len(self.out[self.ck[d]]) or self.pi[d] != len(self.out[self.pk[d]]):
                self.fail(f"words left over in rank {d}")

    def content(self, default, d=0, i=0, prefix=()):
        r = {}
        for c, x in self.words[d][i]:
            if d + 1 == self.n:
                if x != default:
                    r[prefix + (c,)] = x
            else:
                r.update(self.content(default, d + 1, x, prefix + (c,)))
        return r


def scan(f, base=None):
    """[(coord, payload)] through the fiber's own handle interface"""
    f.setupSlice() if base is None else f.setupSlice(base)
    out = []
    for _ in range(20000):
        h = f.nextInSlice()
        if h is None:
            return out
        out.append((f.handleToCoord(h), f.handleToPayload(h)))
    return out + ["..."]


def size_want(desc, d, n, dim, elems):
    leaf = d + 1 == n
    enc = not leaf and ENC[desc[d + 1]]
    k = len(elems)
    occ = k if enc else 0
    if desc[d] == "U":
        return k if leaf else occ
    pay = k if leaf or enc else 0
    coords = k if desc[d] == "C" else math.ceil(dim / 32)
    return coords + occ + pay


def audit(ctx, t, desc, shape):
    rng = ctx.rng
    n = len(desc)
    ranks = t.getRankIds()
    default = mon.unbox(t.getDefault())
    what = f"{''.join(desc)} shape {shape}"
    before = (mon.raw(t.getRoot()), [[id(f) for f in r.getFibers()] for r in t.ranks], t.getShape())
    dims = shape or t.getShape()
    codec, out, fibers = encode(t, desc, list(shape) if shape else None)
    ctx.check((mon.raw(t.getRoot()), [[id(f) for f in r.getFibers()] for r in t.ranks], t.getShape()) == before,
              "encoding changed the tensor", lambda: f"{what}: {mon.raw(t.getRoot())} was {before[0]}")
    dec = Decoder(ctx, ranks, desc, dims, out, what)
    dec.run()
    want = mon.content(t.getRoot(), default)
    got = dec.content(default)
    ctx.check(got == want, "decoded content", lambda: f"{what}: {got} want {want}: {out}")
    ctx.check(all(not got[k] or type(got[k]) is type(want[k]) for k in want), "decoded value type", lambda: f"{what}: {got} want {want}")
    ctx.count("decoded")
    ctx.count("values", len(want))
    cache = Cache(rng.choice([None, None, 1, 3, 32]))
    for r, fs in enumerate(fibers):
        for i, f in enumerate(fs):
            f.setName(f"{'Z' if i % 3 == 2 else 'A'}_{r}_{i}")
            f.cache = cache
    ctx.check([len(x) for x in fibers] == [1] + [len(w) for w in dec.words], "number of encoded fibers",
              lambda: f"{what}: {[len(x) for x in fibers]} want {[1] + [len(w) for w in dec.words]}")
    # the root holds the one segment end of the first rank, if it needs one
    root = fibers[0][0]
    sroot = scan(root)
    ctx.check(sroot == [(0, 0)] and root.getPayloads() == [fibers[1][0]], "scan of the root", lambda: f"{what}: {sroot} {root.getPayloads()}")
    ctx.check(root.getSize() == len(out["payloads_root"]), "size", lambda: f"{what}: root {root.getSize()} want {out['payloads_root']}")
    for d in range(n):
        for i, f in enumerate(fibers[d + 1]):
            elems = dec.words[d][i]
            for rnd in range(2):
                base = None if rnd == 0 or rng.random() < .5 else rng.randrange(dims[d]) if dims[d] else 0
                s = scan(f, base)
                w = [(c, x) for c, x in elems if base is None or c >= base]
                ctx.check([c for c, _ in s] == [c for c, _ in w], "scanned coordinates",
                          lambda: f"{what}: fiber {i} of rank {d} from {base}: {[c for c, _ in s]} want {[c for c, _ in w]}")
                for (c, p), (_, x) in zip(s, w):
                    if d + 1 == n:
                        v = f.payloadToValue(p)
                        ctx.check(v == x and type(v) is type(x), "scanned value", lambda: f"{what}: fiber {i} of rank {d} at {c}: {v!r} want {x!r}")
                    else:
                        fh = f.payloadToFiberHandle(p)
                        ctx.check(fh == x, "scanned fiber handle", lambda: f"{what}: fiber {i} of rank {d} at {c}: handle {fh} want {x}")
                        ctx.count("handles")
                ctx.count("scanned", len(s))
                ctx.count("scans")
            sz, wsz = f.getSize(), size_want(desc, d, n, dims[d], elems)
            ctx.check(sz == wsz, "size", lambda: f"{what}: fiber {i} of rank {d} {elems}: {sz} want {wsz}")
            st = {}
            f.dumpStats(st)
            ctx.check(st[f.name]["size"] == wsz, "size", lambda: f"{what}: dumped {st}")
            ctx.count("sizes")
            cs = [c for c, _ in elems]
            if desc[d] == "C":
                qs = list(range(-2, dims[d] + 3))
                rng.shuffle(qs)
                for q in qs:
                    h = f.coordToHandle(q)
                    k = bisect.bisect_left(cs, q)
                    ctx.check(h == (k if k < len(cs) else None), "coordinate lookup", lambda: f"{what}: {q} in {cs}: {h} want {k}")
                    ctx.count("lookups")
            elif desc[d] == "U":
                for q in (-1, 0, dims[d] - 1, dims[d]):
                    h = f.coordToHandle(q)
                    ctx.check(h == (q if 0 <= q < dims[d] else None), "coordinate lookup", lambda: f"{what}: {q} in U of {dims[d]}: {h}")
    # whole-tensor walk, one rank of fiber handles after the other
    ctx.check(walk(fibers, 0, 0, n, default) == want, "walk over fiber handles", lambda: f"{what}: {walk(fibers, 0, 0, n, default)} want {want}")
    # the streams a swoop program reads
    def nested(d, i, pick, r=0):
        es = dec.words[r][i]
        return [pick(c, x) for c, x in es] if r == d else [nested(d, x, pick, r + 1) for _, x in es]
    if sum(len(w) for ws in dec.words for w in ws) < 400:
        coords, values = swoop_walk(fibers, ranks)
        for d in range(n):
            w = nested(d, 0, lambda c, x: c)
            ctx.check(coords[d] == w, "streamed coordinates", lambda: f"{what}: rank {d}: {coords[d]} want {w}")
        w = nested(n - 1, 0, lambda c, x: x)
        ctx.check(values == w, "streamed values", lambda: f"{what}: {values} want {w}")
        ctx.count("streams")
    # interleaved scans of two fibers do not disturb each other
    leafs = fibers[n]
    if len(leafs) > 1:
        a, b = rng.sample(range(len(leafs)), 2)
        leafs[a].setupSlice()
        leafs[b].setupSlice()
        got = [[], []]
        for _ in range(dims[-1] + 1):
            for k, x in enumerate((a, b)):
                h = leafs[x].nextInSlice()
                if h is not None:
                    got[k].append(leafs[x].handleToCoord(h))
        ctx.check(got == [[c for c, _ in dec.words[n - 1][x]] for x in (a, b)], "interleaved scans", lambda: f"{what}: {got}")
        ctx.count("interleaved")
    if want:
        ctx.key(sorted(want.items()), desc, dims, mon.raw(t.getRoot()))
    return fibers, dec


def swoop_walk(fibers, ranks):
    """the rank-by-rank streams a swoop program reads from the encoded tensor: per rank (coordinates, payloads), a list per fiber,
    and the values"""
    t = swoop.SwoopTensor("T", list(ranks))
    for r, fs in zip(["root"] + list(ranks), fibers):
        t.setImplementations(r, fs)
    n = len(ranks)
    out = []

    def drain(node, depth):
        """a stream of the given depth as lists nested depth times"""
        node.initialize()
        done, stack = [], [[] for _ in range(depth)]
        for _ in range(200000):
            v = node.nextValue(None)
            if isinstance(v, swoop.Marker):
                # the lists below the one that ends have ended already
                for _ in range(v.level - 1):
                    if stack.pop():
                        return ["a list ends without a marker"]
                if v.level >= depth:
                    return stack[0]
                x = stack.pop()
                stack[-1].append(x)
                stack += [[] for _ in range(v.level)]
            else:
                stack[-1].append(v)
        return ["..."]

    def stream(d):
        """fiber handles of rank d"""
        if d == 0:
            return t.getStartHandle()
        up = stream(d - 1)
        return swoop.PayloadsToFiberHandles(up, swoop.HandlesToPayloads(up, swoop.Scan(up)))
    for d in range(n):
        fh = stream(d)
        out.append(drain(swoop.HandlesToCoords(fh, swoop.Scan(fh)), d + 1))
    fh = stream(n - 1)
    return out, drain(swoop.PayloadsToValues(fh, swoop.HandlesToPayloads(fh, swoop.Scan(fh))), n)


def walk(fibers, d, i, n, default, prefix=()):
    r = {}
    f = fibers[d + 1][i]
    for c, p in scan(f):
        if d + 1 == n:
            v = f.payloadToValue(p)
            if v != default:
                r[prefix + (c,)] = v
        else:
            r.update(walk(fibers, d + 1, f.payloadToFiberHandle(p), n, default, prefix + (c,)))
    return r


def random_(ctx):
    rng = ctx.rng
    nd = rng.choice([1, 2, 2, 3, 3])
    t, info = gen.rand_tensor(rng, shape=gen.rand_shape(rng, nd, hi=5 if nd > 2 else 8), auth=rng.random() < .75,
                              density=rng.choice([None, .3, .5, .7, .9, .9, 1, 1, .15, 0]), default=rng.choice([0, 0, 0, 7]), formats=rng.choice([0, 0, .4]))
    desc = [rng.choice("UCB") for _ in range(nd)]
    shape = None
    if rng.random() < .4:
        shape = [s + rng.choice([0, 0, 1, 3]) for s in t.getShape()]
        shape = [max(1, s) for s in shape]
    ctx.describe(f"{info} {mon.raw(t.getRoot())} {desc} shape {shape}")
    ctx.count("imposed shape", shape is not None)
    ctx.count("desc:" + "".join(sorted(set(desc))))
    if not mon.content(t.getRoot(), info.default):
        ctx.count("all default")
    if t.getShape(authoritative=True) is None:
        ctx.count("estimated")
    audit(ctx, t, desc, shape)


ALL = [d for n in (1, 2, 3) for d in itertools.product("UCB", repeat=n)]


def descriptors(ctx):
    """every descriptor on every small pattern"""
    rng = ctx.rng
    desc = list(ALL[ctx.i % len(ALL)])
    n = len(desc)
    k = ctx.i // len(ALL)
    dims = [2, 2, 2][:n] if n == 3 else [2, 3] if n == 2 else [4]
    bits = k if n < 3 else k * 7 + rng.randrange(7)
    cells = list(itertools.product(*map(range, dims)))
    cont = {p: 10 + i for i, p in enumerate(cells) if bits >> i & 1}
    t = Tensor.fromUncompressed(rank_ids=["M", "K", "N"][:n], root=gen.nest(cont, dims, 0), shape=dims)
    shape = [d + rng.choice([0, 1]) for d in dims] if rng.random() < .4 else None
    ctx.describe(f"{''.join(desc)} {cont} shape {shape}")
    audit(ctx, t, desc, shape)
    ctx.count("enumerated")


def wide(ctx):
    """long fibers: several mask words, deep binary searches"""
    rng = ctx.rng
    nd = rng.choice([1, 1, 2])
    dims = [rng.randint(20, 200) if d == nd - 1 else 2 for d in range(nd)]
    t = Tensor.fromFiber(rank_ids=gen.RANKS[:nd], fiber=gen.build(gen.rand_rt(rng, dims, density=rng.choice([.03, .3, .9]), explicit=.1), nd, 0), shape=dims)
    desc = [rng.choice("UCB") for _ in range(nd - 1)] + [rng.choice("CCB")]
    ctx.describe(f"{desc} {mon.raw(t.getRoot())} {dims}")
    audit(ctx, t, desc, None)
    ctx.count("wide")


GENERATORS = {
    "random": (random_, 20000, 200000),
    "descriptors": (descriptors, 39 * 64, 39 * 64),
    "wide": (wide, 1500, 12000),
}
