"""C06: a sum-of-products kernel's result is the dense mathematical result whatever the dataflow."""
import itertools
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

RULE = ("random einsums (1-4 factors, 1-4 indices, one or two accumulated terms) are executed as library-idiom kernels in "
        "random dataflows (loop order, tiling by tensor split or split inside the kernel, operand swizzles, intersection "
        "style, reduction statement) and the raw output tree is compared with a dense evaluation from the operands' raw "
        "content. Non-trivial: distinct (einsum, operand trees, dataflow) with at least one multiply")
FLOORS = {"kernels": 4000, "muls": 40000, "tiled_tensor": 1000, "tiled_inline": 500, "leader_follower": 1000,
          "multi_term": 500, "reduction": 2000, "scalar_output": 100, "three_factors": 300, "order_swapped": 1000,
          "fused_union": 500, "matmul_dataflows": 96, "cancelled": 100, "zero_products": 500}
ASSUMPTIONS = ["operands have default 0 and agree on the shape of a shared rank",
               "the kernel body is add-accumulate of the product of the delivered payloads"]


def evaluate(out, terms, size):
    """{out point: value} by summing over the full index space."""
    res = {}
    for factors in terms:
        idx = sorted({r for ranks, _ in factors for r in ranks})
        free = [r for r in out if r not in idx]
        assert not free
        for pt in itertools.product(*[range(size[r]) for r in idx]):
            e = dict(zip(idx, pt))
            p = 1
            for ranks, cont in factors:
                v = cont.get(tuple(e[r] for r in ranks), 0)
                if v == 0:
                    p = 0
                    break
                p = p * v
            if p:
                k = tuple(e[r] for r in out)
                res[k] = res.get(k, 0) + p
    return {k: v for k, v in res.items() if v != 0}


class Flow:
    """dataflow choices shared by the terms of one kernel"""

    def __init__(self, ctx, size, out):
        rng = ctx.rng
        self.ctx, self.size = ctx, size
        self.tile, self.inline = {}, {}
        for r in size:
            k = rng.random()
            if k < .3:
                n = rng.choice([1, 1, 2])
                self.tile[r] = sorted((rng.randint(1, 4) for _ in range(n)), reverse=True)
                ctx.count("tiled_tensor")
            elif k < .45:
                self.inline[r] = rng.randint(1, 4)
                ctx.count("tiled_inline")
        self.rel = {r: rng.random() < .3 for r in self.tile}
        self.style = rng.choice(["and", "two-finger", "leader-follower"])
        self.stmt = rng.randrange(4)
        self.out = out

    def levels(self, r):
        """loop ranks index r becomes"""
        if r not in self.tile:
            return [r]
        if len(self.tile[r]) == 1:
            return [r + ".1", r + ".0"]
        return [r + ".1", r + ".0.1", r + ".0.0"]

    def prepare(self, t, order):
        """split and swizzle an operand for the loop order"""
        rng = self.ctx.rng
        todo = [r for r in t.getRankIds() if r in self.tile]
        rng.shuffle(todo)
        if rng.random() < .3 and len(t.getRankIds()) > 1:
            ids = t.getRankIds()
            rng.shuffle(ids)
            t = t.swizzleRanks(ids)
        for r in todo:
            name = r
            for s in self.tile[r]:
                d = t.getRankIds().index(name)
                if rng.random() < .5:
                    t = t.splitUniform(s, depth=d, relativeCoords=self.rel[r])
                else:
                    t = t.splitUniform(s, rankid=name, relativeCoords=self.rel[r])
                name = name + ".0"
        want = [x for x in order if x in t.getRankIds()]
        assert sorted(want) == sorted(t.getRankIds()), (want, t.getRankIds())
        if want != t.getRankIds() or rng.random() < .3:
            t = t.swizzleRanks(want)
        return t

    def combine(self, fs):
        """(lazy fiber, unpack)"""
        n = len(fs)
        if n == 1:
            return fs[0], lambda p: [p]
        if self.style == "and":
            x = fs[0]
            for f in fs[1:]:
                x = x & f

            def unpack(p):
                out = []
                for _ in range(n - 1):
                    p, b = mon.unbox(p)
                    out.append(b)
                return [p] + out[::-1]
            return x, unpack
        if self.style == "leader-follower":
            self.ctx.count("leader_follower")
        return Fiber.intersection(*fs, style=self.style), lambda p: list(mon.unbox(p))

    def body(self, z, ps):
        ctx = self.ctx
        ctx.count("muls")
        if self.stmt == 0:
            x = ps[0]
            for p in ps[1:]:
                x = x * p
            z += x
        elif self.stmt == 1:
            x = ps[-1]
            for p in ps[-2::-1]:
                x = p * x
            if x != 0:
                z += x
            else:
                ctx.count("zero_products")
        elif self.stmt == 2:
            x = ps[0]
            for p in ps[1:]:
                x = x * p
            z <<= z + x
        else:
            x = Payload(1)
            for p in ps:
                x *= p
            z += x

    def nest(self, order, i, z, zr, ops):
        """ops: [(fiber or leaf payload, remaining ranks)]; zr: remaining output ranks"""
        if i == len(order):
            self.body(z, [f for f, _ in ops])
            return
        r = order[i]
        mine = [j for j, (_, rk) in enumerate(ops) if rk and rk[0] == r]
        base = r.split(".")[0]
        if base in self.inline:
            s = self.inline[base]
            outer, un = self.combine([ops[j][0].splitUniform(s) for j in mine])
            for _, p in outer:
                self.inner(order, i, z, zr, ops, mine, un(p))
        else:
            self.inner(order, i, z, zr, ops, mine, [ops[j][0] for j in mine])

    def inner(self, order, i, z, zr, ops, mine, fibers):
        r = order[i]
        f, un = self.combine(fibers)
        populate = bool(zr) and zr[0] == r
        for c, p in (z << f) if populate else f:
            nz = z
            if populate:
                nz, p = p
            new = list(ops)
            for j, q in zip(mine, un(p)):
                new[j] = (q, ops[j][1][1:])
            self.nest(order, i + 1, nz, zr[1:] if populate else zr, new)


def interleave(rng, a, b):
    out, a, b = [], list(a), list(b)
    while a or b:
        out.append((a if rng.random() * (len(a) + len(b)) < len(a) else b).pop(0))
    return out


def untile(flow, ids, pt):
    """loop-rank point -> {index: coordinate}"""
    e = {}
    for r, c in zip(ids, pt):
        base = r.split(".")[0]
        if r == base:
            e[base] = c
        elif flow.rel[base]:
            e[base] = e.get(base, 0) + c
        elif set(r.split(".")[1:]) == {"0"} and r == flow.levels(base)[-1]:
            e[base] = c
    return e


def execute(ctx, out, terms, size, tag):
    """terms: [[(ranks, tensor)]]"""
    rng = ctx.rng
    flow = Flow(ctx, size, out)
    zorder = [x for r in out for x in flow.levels(r)]
    rng.shuffle(zorder)
    zshape = []
    for x in zorder:
        zshape.append(size[x.split(".")[0]])
    z = Tensor(rank_ids=zorder, shape=zshape) if zorder or rng.random() < .5 else Tensor(rank_ids=[])
    z.setMutable(True)
    for t in terms:
        idx = sorted({r for ranks, _ in t for r in ranks})
        red = [x for r in idx if r not in out for x in flow.levels(r)]
        rng.shuffle(red)
        order = interleave(rng, zorder, red)
        if red:
            ctx.count("reduction")
        if order != sorted(order):
            ctx.count("order_swapped")
        ops = [(flow.prepare(x, order)) for _, x in t]
        if len(ops) > 2:
            ctx.count("three_factors")
        ctx.op("order", order, "tile", flow.tile, "inline", flow.inline, "rel", flow.rel, "style", flow.style, "stmt",
               flow.stmt)
        flow.nest(order, 0, z.getRoot(), zorder, [(x.getRoot(), x.getRankIds()) for x in ops])
    ctx.count("kernels")
    if not out:
        ctx.count("scalar_output")
    got = {}
    root = z.getRoot()
    if zorder:
        for pt, b in mon.leaves(root):
            if mon.unbox(b) == 0:
                ctx.fail("default stored in the output", f"{tag}: {pt}")
            e = untile(flow, zorder, pt)
            k = tuple(e[r] for r in out)
            ctx.check(k not in got, "two output elements for one point", lambda: f"{tag} {k}: {mon.show(root)}")
            got[k] = mon.unbox(b)
        errs = mon.wf_errors(root, len(zorder)) + mon.rank_errors(z)
        if errs:
            ctx.fail("malformed output", f"{tag}: {errs[:3]}")
    elif mon.unbox(root) != 0:
        got[()] = mon.unbox(root)
    return got, flow


def operand(ctx, ranks, size):
    rng = ctx.rng
    t, _ = gen.rand_tensor(rng, shape=[size[r] for r in ranks], default=0, rank_ids=list(ranks), auth=True,
                           route=rng.choice(["fromFiber", "writes", "uncompressed"]),
                           vals=gen.Vals(rng, 0, rng.choice(["small", "small", "float", "uniq"])),
                           formats=.04)
    return t


def einsum(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 3, 4])
    names = ["M", "N", "K", "J"][:n]
    size = {r: rng.randint(1, 6 if n < 4 else 4) for r in names}
    out = None
    terms = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        for _ in range(50):
            nf = rng.choice([1, 2, 2, 2, 3, 4])
            fs = []
            for _ in range(nf):
                k = rng.randint(1, min(3, n))
                fs.append(rng.sample(names, k))
            idx = sorted({r for f in fs for r in f})
            if out is None:
                out = rng.sample(idx, rng.randint(0, len(idx)))
            elif not set(out) <= set(idx):
                continue
            terms.append([(f, operand(ctx, f, size)) for f in fs])
            break
    tag = "Z[%s] = %s" % ("".join(out), " + ".join("*".join("".join(f) for f, _ in t) for t in terms))
    if len(terms) > 1:
        ctx.count("multi_term")
    ctx.describe(tag + " " + str(size) + " " + str([mon.show(x) for t in terms for _, x in t]))
    want = evaluate(out, [[(f, mon.content(x.getRoot())) for f, x in t] for t in terms], size)
    before = [mon.full_snap(x) for t in terms for _, x in t]
    for _ in range(2):
        got, flow = execute(ctx, out, terms, size, tag)
        if any(x == 0 for x in got.values()):
            ctx.count("cancelled")
        ctx.check(got == want, "kernel result differs from the dense result",
                  lambda: f"{tag} {size} got {got} want {want}")
        ctx.key(tag, tuple(size.values()), [mon.tree_snap(x.getRoot()) for t in terms for _, x in t], ctx.log[-2:])
    ctx.check(before == [mon.full_snap(x) for t in terms for _, x in t], "kernel changed its operands", tag)
    dense = len([1 for v in want.values()])
    full = 1
    for r in out:
        full *= size[r]
    if dense < full:
        ctx.count("cancelled")


def matmul(ctx):
    """one matrix multiply in all 6 loop orders x 4 tilings x styles, all results equal"""
    rng = ctx.rng
    size = {r: gen.size(rng, 2, 6, .03, 14) for r in "KMN"}
    A, B = operand(ctx, ["M", "K"], size), operand(ctx, ["K", "N"], size)
    ctx.describe(f"A {mon.show(A)} B {mon.show(B)} {size}")
    want = evaluate(["M", "N"], [[(["M", "K"], mon.content(A.getRoot())), (["K", "N"], mon.content(B.getRoot()))]], size)
    for zord in (["M", "N"], ["N", "M"]):
        for pos in range(3):
            order0 = zord[:pos] + ["K"] + zord[pos:]
            for tiled in itertools.product((0, 1), repeat=3):
                for style in ("and", "leader-follower"):
                    flow = Flow(ctx, {}, ["M", "N"])
                    flow.size = size
                    flow.tile = {r: [rng.randint(1, 3)] for r, t in zip(order0, tiled) if t}
                    flow.rel = {r: False for r in flow.tile}
                    flow.inline = {}
                    flow.style = style
                    order = [r + ".1" for r in order0 if r in flow.tile] + \
                            [r + ".0" if r in flow.tile else r for r in order0]
                    z = Tensor(rank_ids=[r for r in order if r[0] in "MN"],
                               shape=[size[r[0]] for r in order if r[0] in "MN"])
                    a, b = flow.prepare(A, order), flow.prepare(B, order)
                    ctx.op(order, flow.tile, style, flow.stmt)
                    flow.nest(order, 0, z.getRoot(), z.getRankIds(), [(a.getRoot(), a.getRankIds()),
                                                                     (b.getRoot(), b.getRankIds())])
                    got = {}
                    for pt, x in mon.leaves(z.getRoot()):
                        e = untile(flow, z.getRankIds(), pt)
                        got[(e["M"], e["N"])] = mon.unbox(x)
                    ctx.check(got == want, "matmul result depends on the dataflow",
                              lambda: f"{order} {flow.tile} {style} {flow.stmt}: {got} want {want}")
                    # untile through the library
                    y = z
                    for r in "MN":
                        if r in flow.tile:
                            ids = [x for x in y.getRankIds() if x[0] != r]
                            y = y.swizzleRanks([r + ".1", r + ".0"] + ids)
                            y = y.flattenRanks(depth=0, coord_style="absolute")
                            y = y.swizzleRanks(y.getRankIds())
                            y.setRankIds([r] + ids)
                    y = y.swizzleRanks(["M", "N"])
                    ctx.check(mon.content(y.getRoot()) == want, "untiled matmul result", lambda: f"{order} {mon.show(y)}")
                    ctx.count("matmul_dataflows")
                    ctx.count("muls", 0)
                    ctx.key("mm", mon.tree_snap(A.getRoot()), mon.tree_snap(B.getRoot()), order, style)


def fused(ctx):
    """Z = A*B + C*D (elementwise) fused with a union of intersections, and Z = A + B over several ranks"""
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3])
    names = gen.RANKS[:n]
    size = {r: gen.size(rng, 1, 6, .03, 16) for r in names}
    ts = [operand(ctx, names, size) for _ in range(4)]
    cont = [mon.content(t.getRoot()) for t in ts]
    z = Tensor(rank_ids=names, shape=[size[r] for r in names])
    prods = n == 1
    ctx.describe(f"fused {'A*B + C*D' if prods else 'A + B'} {[mon.show(t) for t in ts[:4 if prods else 2]]}")
    if prods:
        want = evaluate(names, [[(names, cont[0]), (names, cont[1])], [(names, cont[2]), (names, cont[3])]], size)
        a, b, c, d = [t.getRoot() for t in ts]
        for _, (zr, (mask, x, y)) in z.getRoot() << ((a & b) | (c & d)):
            if "A" in mask:
                p, q = mon.unbox(x)
                zr += p * q
            if "B" in mask:
                p, q = mon.unbox(y)
                zr += p * q
    else:
        want = evaluate(names, [[(names, cont[0])], [(names, cont[1])]], size)

        def rec(zf, a, b, lv):
            for _, (zr, (mask, x, y)) in zf << (a | b):
                if lv == n - 1:
                    zr += x + y
                else:
                    rec(zr, x, y, lv + 1)
        rec(z.getRoot(), ts[0].getRoot(), ts[1].getRoot(), 0)
    ctx.count("fused_union")
    got = {pt: mon.unbox(b) for pt, b in mon.leaves(z.getRoot())}
    ctx.check(got == want, "fused kernel result", lambda: f"got {got} want {want}")
    errs = mon.rank_errors(z)
    ctx.check(not errs, "output ranks", errs[:3])
    ctx.key("fused", [mon.tree_snap(t.getRoot()) for t in ts])


GENERATORS = {"einsum": (einsum, 4000, 60000), "matmul": (matmul, 24, 300), "fused": (fused, 1500, 15000)}
