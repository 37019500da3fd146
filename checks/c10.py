"""C10: value-returning operations leave operands alone and share nothing with them; observers observe."""
import copy
import io
import contextlib
import os
from fibertree import Fiber, Tensor, Payload, TensorImage, Metrics
from fibertree.model.format import Format
from lib import gen, mon, xform

gen.EXOTIC = True

RULE = ("for generated tensors and fibers (owned and unowned, explicit defaults, empty sub-fibers, tuple coordinates, "
        "uncompressed ranks): (a) every value-returning operation: structural + identity snapshot of every operand and of "
        "its rank lists before/after, disjointness of the mutable objects reachable from result and operands, then "
        "follow-up mutations of one side while the other is watched; (b) random sequences of read-only operations with the "
        "same snapshot after each; (c) double rendering. Non-trivial: distinct (operation, tree) with a non-empty tree")
FLOORS = {"value_ops": 6000, "fiber_value_ops": 4000, "arith_ops": 1500, "readonly_ops": 40000, "mutated_result": 5000,
          "mutated_operand": 3000, "renders": 150, "dumps": 300, "footprints": 800, "absent_defaults": 3000,
          "copy_no_owner": 500, "nested_arith": 300, "tuple_coords": 300, "coiter": 5000, "attr_defaults": 1000}
ASSUMPTIONS = ["co-iteration, slicing, prune/project/getRange results are lazy or sliced views and are only required not to "
               "change what they read", "the sharing rule covers fibers, coords/payloads lists, payload boxes, ranks and "
               "rank attributes reachable from result and operands",
               "the returned fiber of fiber.copy(preserve_owner=True) carries a copied owner"]


def snap_all(xs):
    return [mon.full_snap(x) for x in xs]


def diff(a, b):
    sa, sb = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
    return f"...{sa[max(0, i - 150):i + 120]}\n   became\n...{sb[max(0, i - 150):i + 120]}"


def all_fibers(x):
    root = x if mon.is_fiber(x) else mon.root_of(x)
    out, todo = [], [root]
    while todo:
        f = todo.pop()
        if mon.is_fiber(f):
            out.append(f)
            todo += [p for p in f.payloads if mon.is_fiber(p)]
    return out


def mutate(ctx, x, rng):
    """legal (public) mutations of every part of a fiber / tensor"""
    fs = all_fibers(x)
    if not mon.is_fiber(x):
        if not fs:
            if isinstance(mon.root_of(x), Payload):
                r = x.getRoot()
                r <<= 12345
        if rng.random() < .5:
            x.setName("mutated")
            x.setColor("pink")
            x.setMutable(not x.isMutable())
        for r in x.ranks:
            if rng.random() < .3:
                r.setFormat("U" if r.getFormat() == "C" else "C")
    for f in fs:
        for p in f.payloads:
            if isinstance(p, Payload):
                p <<= 9999
        if rng.random() < .5:
            f.setActive((3, 5))
        if rng.random() < .5:
            f.getRankAttrs().setShape(77)
            f.getRankAttrs().setEstimatedShape(False)
        if rng.random() < .3:
            f.getRankAttrs().setId("MUT")
        if rng.random() < .3 and f.payloads and isinstance(f.payloads[0], Payload):
            f.getRankAttrs().setDefault(4321)
        if rng.random() < .3 and f.payloads and isinstance(f.payloads[0], Payload) and isinstance(f.coords[-1], int):
            f.coords.append(f.coords[-1] + 1000)
            f.payloads.append(Payload(55))
    for f in fs[1:]:
        if rng.random() < .2:
            f.clear()
    if fs and rng.random() < .3:
        fs[0].clear()
    if not mon.is_fiber(x) and 0 < len(x.ranks) < 3 and rng.random() < .3 \
            and all(isinstance(r.getAttrs().getShape(), int) for r in x.ranks):
        x.setRoot(Fiber([1], [1]) if len(x.ranks) == 1 else Fiber([1], [Fiber([], [])]))


def value_op(ctx, what, operands, thunk, expect_raise=()):
    """run one value-returning operation and judge it; returns the result"""
    rng = ctx.rng
    before = snap_all(operands)
    ids0 = [mon.mutable_ids(x) for x in operands]
    ctx.op(what, "operands", [mon.show(x) for x in operands])
    res = thunk()
    after = snap_all(operands)
    for k, (a, b) in enumerate(zip(before, after)):
        ctx.check(a == b, "operand changed by value-returning operation",
                  lambda: f"{what}: operand {k} {diff(a, b)}")
    rid = mon.mutable_ids(res)
    for k, x in enumerate(operands):
        for ids in (ids0[k], mon.mutable_ids(x)):
            shared = [rid[i] for i in rid if i in ids]
            ctx.check(not shared, "result shares mutable objects with an operand",
                      lambda: f"{what}: result {mon.show(res)} shares {shared[:6]} with operand {k} {mon.show(x)}")
    ctx.count("value_ops")
    if any(s != ("fiber", ("F", (), ()), ()) for s in before):
        ctx.key(what, [mon.show(x) for x in operands])
    # later mutation of either side is invisible to the other
    if rng.random() < .6:
        mutate(ctx, res, rng)
        ctx.count("mutated_result")
        aft = snap_all(operands)
        for k, (a, b) in enumerate(zip(after, aft)):
            ctx.check(a == b, "mutating the result changed an operand", lambda: f"{what}: operand {k} {diff(a, b)}")
        return None
    r0 = mon.full_snap(res)
    for x in operands:
        mutate(ctx, x, rng)
    ctx.count("mutated_operand")
    r1 = mon.full_snap(res)
    ctx.check(r0 == r1, "mutating an operand changed the result", lambda: f"{what}: {diff(r0, r1)}")
    return None


def gen_tensor(ctx, depth=None, **kw):
    rng = ctx.rng
    return gen.rand_tensor(rng, depth=depth, name=rng.choice([None, "T"]), formats=rng.choice([0, 0, 0, .4]), **kw)


def tensor_ops(ctx):
    rng = ctx.rng
    t, ti = gen_tensor(ctx)
    depth = len(ti.shape)
    ctx.describe(f"{mon.show(t)} {ti}")
    ops = xform.choices(t, rng, depth)
    d = rng.randrange(depth)
    ops += [("updatePayloads(+1)", lambda: t.updatePayloads(lambda i, c, p: (p + 1 if gen.num(mon.unbox(p)) else 5), depth=depth - 1)),
            ("updatePayloads(in place fn)", lambda: t.updatePayloads(_bump, depth=depth - 1)),
            ("updateCoords(rankid)", lambda: t.updateCoords(lambda i, c, p: c + 100, rankid=ti.rank_ids[d])),
            ("updatePayloads(rankid)", lambda: t.updatePayloads(lambda i, c, p: p, rankid=ti.rank_ids[d])),
            ("copy.copy-free deepcopy", lambda: copy.deepcopy(t)),
            ("fromFiber(owned root)", lambda: Tensor.fromFiber(rank_ids=list(ti.rank_ids), fiber=t.getRoot(),
                                                               default=ti.default))]
    if depth > 1:
        # replacing sub-fibers by fresh ones
        ops.append(("updatePayloads(new fiber)",
                    lambda: t.updatePayloads(lambda i, c, p: p.copy(preserve_owner=False), depth=depth - 2)))
    name, th = ops[rng.randrange(len(ops))]
    if name.startswith("swizzle") or "flatten" in name or "merge" in name:
        ctx.count("transforms")
    value_op(ctx, name, [t], th)


def _bump(i, c, p):
    if gen.num(mon.unbox(p)):
        p += 1
    else:
        p <<= "bumped"
    return p


def second_step(ctx):
    """the operand itself is the result of a transform (tuple coordinates, split ranks, shared history)"""
    rng = ctx.rng
    t, ti = gen_tensor(ctx)
    depth = len(ti.shape)
    name, th = rng.choice(xform.choices(t, rng, depth))
    before = mon.full_snap(t)
    u = th()
    ctx.describe(f"{mon.show(t)} -> {name} -> {mon.show(u)}")
    n = len(u.getRankIds())
    ids = u.getRankIds()
    intc = all(isinstance(c, int) for f in all_fibers(u) for c in f.coords)
    if not intc:
        ctx.count("tuple_coords")
    ops = [("deepcopy", lambda: copy.deepcopy(u)),
           ("updatePayloads", lambda: u.updatePayloads(lambda i, c, p: p * 2 if gen.num(mon.unbox(p)) else 5, depth=n - 1))]
    perm = list(ids)
    rng.shuffle(perm)
    ops.append((f"swizzle{perm}", lambda: u.swizzleRanks(perm)))
    if intc:
        kw = {"depth": rng.randrange(n)}
        ops += [(f"splitEqual{kw}", lambda: u.splitEqual(2, **kw)), (f"splitUniform{kw}", lambda: u.splitUniform(2, **kw))]
    if n > 1:
        ops.append(("swapRanks", lambda: u.swapRanks()))
        if intc:
            ops.append(("flattenRanks", lambda: u.flattenRanks()))
            ops.append(("mergeRanks", lambda: u.mergeRanks(coord_style="absolute", **gen.merge_kw(u))))
    name2, th2 = rng.choice(ops)
    value_op(ctx, f"{name} ; {name2}", [u], th2)
    ctx.check(mon.full_snap(t) == before, "mutating the result changed an operand",
              lambda: f"{name} then {name2}/mutation disturbed the first tensor\n{diff(before, mon.full_snap(t))}")


def fiber_of(ctx, depth, shape, default, how, nonempty=False):
    """-> fiber (root of an owned tree, an inner fiber of a tensor, or unowned)"""
    rng = ctx.rng
    rt = gen.rand_rt(rng, shape, default)
    if nonempty and not gen.rt_content(rt, default):
        rt = [(0, gen.rand_rt(rng, shape[1:], default, density=1, explicit=0, empties=0) if depth > 1 else 5)]
    f = gen.build(rt, depth, default, shape if rng.random() < .5 else None)
    if how == "unowned":
        return f, None
    t = Tensor.fromFiber(rank_ids=gen.RANKS[:depth], fiber=f, shape=list(shape) if rng.random() < .7 else None,
                         default=default)
    if rng.random() < .15:
        t.setFormat(rng.choice(gen.RANKS[:depth]), "U")
    return t.getRoot(), t


def fiber_ops(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth)
    default = gen.rand_default(rng)
    f, t = fiber_of(ctx, depth, shape, default, rng.choice(["owned", "unowned"]))
    ctx.describe(f"{mon.show(f)} owned={t is not None} default={default}")
    d = rng.randrange(depth)
    step = gen.size(rng, 1, 4, .06, 12)
    kw = {"depth": d, "pre_halo": rng.choice([0, 0, 1]), "post_halo": rng.choice([0, 0, 1]),
          "relativeCoords": rng.random() < .3}
    splits = sorted(rng.sample(range(8), rng.randint(1, 3)))
    ops = [(f"splitUniform({step},{kw})", lambda: f.splitUniform(step, **kw)),
           (f"splitEqual({step},{kw})", lambda: f.splitEqual(step, **kw)),
           (f"splitNonUniform({splits},{kw})", lambda: f.splitNonUniform(list(splits), **kw)),
           (f"splitUnEqual({splits},{kw})", lambda: f.splitUnEqual([s + 1 for s in splits], **kw)),
           (f"/ {step}", lambda: f / step), (f"// {step}", lambda: f // step),
           ("copy(True)", lambda: f.copy(preserve_owner=True)), ("copy()", lambda: f.copy()),
           ("copy(False)", lambda: f.copy(preserve_owner=False)), ("copy(False)", lambda: f.copy(preserve_owner=False)),
           ("deepcopy", lambda: copy.deepcopy(f)), ("nonEmpty", lambda: f.nonEmpty())]
    if depth > 1:
        lv = rng.randint(1, depth - 1)
        if not f.isEmpty():
            ops.append(("swapRanks", lambda: f.swapRanks()))
            ops.append((f"flattenRanks({lv})", lambda: f.flattenRanks(levels=lv)))
            ops.append((f"flatten/unflatten({lv})", lambda: f.flattenRanks(levels=lv).unflattenRanks(levels=lv)))
            ops.append((f"mergeRanks({lv})", lambda: f.mergeRanks(levels=lv, style="absolute", **gen.merge_kw(f))))
    name, th = ops[rng.randrange(len(ops))]
    if name == "copy(False)":
        ctx.count("copy_no_owner")
    if t is not None and depth > 1 and rng.random() < .2 and name.startswith(("copy", "deepcopy")):
        inner = [g for g in all_fibers(f)]
        f = rng.choice(inner)
        name += " of an inner fiber"
    value_op(ctx, "fiber " + name, [f] + ([t] if t else []), th)
    ctx.count("fiber_value_ops")


def unflatten_ops(ctx):
    """operand of unflatten"""
    rng = ctx.rng
    depth = rng.choice([2, 3])
    shape = gen.rand_shape(rng, depth)
    f, t = fiber_of(ctx, depth, shape, 0, rng.choice(["owned", "unowned"]), nonempty=True)
    lv = rng.randint(1, depth - 1)
    if t is not None:
        u = t.flattenRanks(levels=lv)
        ctx.describe(f"unflatten {mon.show(u)}")
        value_op(ctx, f"tensor unflatten({lv})", [u], lambda: u.unflattenRanks(levels=lv))
    else:
        g = f.flattenRanks(levels=lv)
        ctx.describe(f"unflatten {mon.show(g)}")
        value_op(ctx, f"fiber unflatten({lv})", [g], lambda: g.unflattenRanks(levels=lv))
    ctx.count("tuple_coords")


def arith_ops(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 1, 2, 3])
    shape = gen.rand_shape(rng, depth)
    how = rng.choice(["owned", "unowned"])
    f, t = fiber_of(ctx, depth, shape, 0, how)
    s = rng.choice([0, 2, -1, 1.5])
    operands = [f] + ([t] if t else [])
    g = None
    if rng.random() < .6:
        g, t2 = fiber_of(ctx, depth, shape, 0, rng.choice(["owned", "unowned"]))
        operands += [g] + ([t2] if t2 else [])
    ctx.describe(f"{mon.show(f)} with {mon.show(g) if g is not None else s}")
    if depth > 1:
        ctx.count("nested_arith")
    if g is not None:
        if rng.random() < .15:
            g = f
        name, th = rng.choice([("f + g", lambda: f + g), ("f * g", lambda: f * g)])
    else:
        box = Payload(s)
        name, th = rng.choice([("f + s", lambda: f + s), ("s + f", lambda: s + f), ("f * s", lambda: f * s),
                               ("s * f", lambda: s * f), ("f + box", lambda: f + box), ("f * box", lambda: f * box)])
        if "box" in name:
            operands.append(box)
            res_ids = mon.mutable_ids(th())
            ctx.check(id(box) not in res_ids and box.value == s, "result shares mutable objects with an operand",
                      f"{name}: scalar box aliased or changed")
            operands.pop()
    value_op(ctx, f"{name} depth={depth}", operands, th)
    ctx.count("arith_ops")


# ---------------------------------------------------------------------------------------------------------- observers
def drain(it, limit=400):
    n = 0
    for x in it:
        n += 1
        if n > limit:
            break


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def observers(ctx, f, t, ti, g, intc, depth):
    """[(name, thunk)] legal read-only operations on the fiber f (in tensor t) and a partner fiber g"""
    rng = ctx.rng
    top = max([c for c in f.coords if isinstance(c, int)] + [3])
    lo, hi = sorted([rng.randint(0, top + 1), rng.randint(0, top + 1)])
    c = rng.choice(f.coords) if f.coords and rng.random() < .5 else (rng.randint(0, top + 2) if intc else None)
    ops = [("iterOccupancy", lambda: drain(f.iterOccupancy())), ("iter", lambda: drain(iter(f))),
           ("reversed", lambda: drain(reversed(f))), ("len", lambda: len(f)), ("isEmpty", lambda: f.isEmpty()),
           ("countValues", lambda: f.countValues()), ("getRankIds", lambda: f.getRankIds()),
           ("getDepth", lambda: f.getDepth()), ("getShape", lambda: f.getShape()),
           ("getShape(one)", lambda: f.getShape(all_ranks=False)),
           ("getShape(auth)", lambda: f.getShape(all_ranks=False, authoritative=True)),
           ("estimateShape", lambda: f.estimateShape()), ("estimateShape(one)", lambda: f.estimateShape(all_ranks=False)),
           ("minCoord", lambda: f.minCoord()), ("maxCoord", lambda: f.maxCoord()), ("getActive", lambda: f.getActive()),
           ("str", lambda: str(f)), ("format", lambda: f"{f:n*}"), ("format2", lambda: f"{f:(02,03)}"),
           ("repr", lambda: repr(f)), ("print", lambda: quiet(lambda: f.print("x"))),
           ("fiber2dict", lambda: f.fiber2dict()), ("eq", lambda: f == g), ("eq self", lambda: f == f),
           ("neq", lambda: f != g), ("getCoords", lambda: f.getCoords()), ("getPayloads", lambda: f.getPayloads()),
           ("nonEmpty", lambda: f.nonEmpty()), ("deepcopy", lambda: copy.deepcopy(f)),
           ("getDefault", lambda: f.getDefault()), ("slice", lambda: f[0:2]), ("isLazy", lambda: f.isLazy()),
           ("and", lambda: drain(f & g)), ("or", lambda: drain(f | g)), ("xor", lambda: drain(f ^ g)),
           ("sub", lambda: drain(f - g)), ("rand", lambda: drain(g & f)), ("ror", lambda: drain(g | f)),
           ("rsub", lambda: drain(g - f)),
           ("populate source", lambda: drain(Fiber([], [], default=(0 if depth == 1 else Fiber)) << f)),
           ("intersection", lambda: drain(Fiber.intersection(f, g, f))),
           ("union", lambda: drain(Fiber.union(f, g, f))),
           ("prune", lambda: drain(f.prune(lambda i, c, p: i % 2 == 0))),
           ("uncompress", lambda: f.uncompress()) if intc else ("len", lambda: len(f)),
           ("dump", lambda: _dump(ctx, f))]
    if intc:
        ops += [("iterShape", lambda: drain(f.iterShape())), ("iterActive", lambda: drain(f.iterActive())),
                ("iterActiveShape", lambda: drain(f.iterActiveShape())),
                ("iterRange", lambda: drain(f.iterRange(lo, hi))),
                ("iterRangeShape", lambda: drain(f.iterRangeShape(lo, hi))),
                ("iterUncompressed", lambda: drain(f.iterUncompressed())),
                ("coiterShape", lambda: drain(Fiber.coiterShape([f, g]))),
                ("coiterActiveShape", lambda: drain(Fiber.coiterActiveShape([f, g]))),
                ("coiterRangeShape", lambda: drain(Fiber.coiterRangeShape([f, g], lo, hi))),
                ("getRange", lambda: drain(f.getRange(lo, max(1, hi - lo)))),
                ("project", lambda: drain(f.project(trans_fn=lambda c: c + 3))),
                ("iterShapeCoords", lambda: drain(f.iterShapeCoords()))]
    if c is not None:
        ops += [("getPayload", lambda: f.getPayload(c)), ("getPayload(noalloc)", lambda: f.getPayload(c, allocate=False)),
                ("getPayload(default)", lambda: f.getPayload(c, default=-5, allocate=False)),
                ("getPosition", lambda: f.getPosition(c))]
        if intc and depth > 1:
            pt = (c,) + tuple(rng.randint(0, 5) for _ in range(rng.randint(0, depth - 1)))
            ops.append(("getPayload(deep)", lambda: f.getPayload(*pt)))
    if f.coords:
        k = rng.randrange(len(f.coords))
        ops += [("getitem", lambda: f[k]), ("getitem neg", lambda: f[-1])]
        if c is not None:
            ops.append(("getPayload(start_pos)", lambda: f.getPayload(f.coords[-1], start_pos=k)))
    if t is not None:
        ops += [("tensor getShape", lambda: t.getShape()), ("tensor getShape(auth)", lambda: t.getShape(authoritative=True)),
                ("tensor getRankIds", lambda: t.getRankIds()), ("tensor getDepth", lambda: t.getDepth()),
                ("tensor countValues", lambda: t.countValues()), ("tensor eq", lambda: t == t),
                ("tensor str", lambda: str(t)), ("tensor repr", lambda: repr(t)),
                ("tensor format", lambda: f"{t:n*}"), ("tensor print", lambda: quiet(lambda: t.print("t"))),
                ("tensor iter", lambda: drain(iter(t))), ("tensor reversed", lambda: drain(reversed(t))),
                ("tensor getDefault", lambda: t.getDefault()), ("tensor getName", lambda: (t.getName(), t.getColor())),
                ("tensor getitem", lambda: t[0:1]), ("tensor dump", lambda: _dump(ctx, t)),
                ("tensor deepcopy", lambda: copy.deepcopy(t)),
                ("rank str", lambda: [(str(r), repr(r), r.getShape(), r.getFormat(), r.getRankAttrs() if
                                       hasattr(r, "getRankAttrs") else r.getAttrs()) for r in t.ranks])]
        if intc:
            ops.append(("tensor getPayload", lambda: t.getPayload(*[rng.randint(0, 5) for _ in range(rng.randint(1, depth))])))
            ops += [("format", lambda: _footprint(ctx, t))] * 3
    return ops


def _dump(ctx, x):
    path = os.path.join(os.getcwd(), "dump.yaml")
    x.dump(path)
    ctx.count("dumps")
    os.remove(path)


def _footprint(ctx, t):
    rng = ctx.rng
    ids = t.getRankIds()
    spec = {r: {"format": rng.choice("CU"), "cbits": 8, "pbits": 16, "fhbits": 3, "rhbits": 2} for r in ids}
    if t.getShape(authoritative=True) is None:
        for r in ids:
            spec[r]["format"] = "C"
    fmt = Format(t, spec)
    fmt.getTensor()
    for r in ids:
        fmt.getRank(r)
    fmt.getFiber()
    fmt.getSubTree()
    fmt.getSubTree(*[rng.randint(0, 4) for _ in range(rng.randint(1, len(ids)))])
    ctx.count("footprints")


def readonly(ctx):
    rng = ctx.rng
    t, ti = gen_tensor(ctx)
    depth = len(ti.shape)
    intc = True
    if rng.random() < .2 and depth > 1:
        t = t.flattenRanks()
        intc = False
        depth -= 1
        ctx.count("tuple_coords")
    owned = rng.random() < .7
    f = t.getRoot()
    if not owned:
        f = f.copy(preserve_owner=False)
        t = None
    inner = [x for x in all_fibers(f)]
    if depth > 1 and rng.random() < .3:
        f = rng.choice(inner)
        # the depth of the chosen fiber
        depth = 1 if not f.payloads or not mon.is_fiber(f.payloads[0]) else depth - 1 if f is not inner[0] else depth
        intc = all(isinstance(c, int) for x in all_fibers(f) for c in x.coords) and intc
    if intc and rng.random() < .6:
        g = gen.build(gen.rand_rt(rng, ti.shape[-depth:], ti.default), depth, ti.default)
    else:
        g = f.copy(preserve_owner=False)
    ctx.describe(f"readonly {mon.show(f)} t={ti if t else None} partner {mon.show(g)}")
    watched = [f, g] + ([t] if t is not None else [])
    before = snap_all(watched)
    for _ in range(12):
        name, th = rng.choice(observers(ctx, f, t, ti, g, intc, depth))
        if name == "uncompress" and not depth_known(f, t, depth):
            continue
        ctx.op(name)
        th()
        after = snap_all(watched)
        ctx.count("readonly_ops")
        if name in ("and", "or", "xor", "sub", "rand", "ror", "rsub", "intersection", "union", "coiterShape",
                    "coiterActiveShape", "coiterRangeShape"):
            ctx.count("coiter")
        for k, (a, b) in enumerate(zip(before, after)):
            ctx.check(a == b, "read-only operation changed the tree",
                      lambda: f"{name}: watched object {k}: {diff(a, b)}")
    if f.coords:
        ctx.key(mon.show(f), mon.show(g), len(watched))


def depth_known(f, t, depth):
    """the number of ranks of an unowned tree holding nothing but empty fibers cannot be told"""
    return t is not None or (len(f.getShape()) == depth and (f.coords or not callable(Payload.get(f.getDefault()))))


def metrics_readonly(ctx):
    """observation while metrics are being collected is observation all the same"""
    rng = ctx.rng
    t, ti = gen_tensor(ctx, depth=rng.choice([1, 2]), auth=True)
    g, _ = gen_tensor(ctx, depth=len(ti.shape), shape=ti.shape, default=ti.default)
    f, h = t.getRoot(), g.getRoot()
    ctx.describe(f"readonly under metrics {mon.show(t)} {mon.show(g)}")
    watched = [t, g]
    before = snap_all(watched)
    Metrics.beginCollect()
    try:
        for r in ti.rank_ids:
            Metrics.registerRank(r)
        for _ in range(6):
            name, th = rng.choice([("iter", lambda: drain(iter(f))), ("and", lambda: drain(f & h)),
                                   ("iterShape", lambda: drain(f.iterShape())),
                                   ("getPayload", lambda: f.getPayload(rng.randint(0, 5))),
                                   ("len", lambda: len(f)), ("eq", lambda: f == h), ("count", lambda: f.countValues()),
                                   ("str", lambda: str(f)), ("shape", lambda: f.getShape())])
            ctx.op(name)
            th()
            after = snap_all(watched)
            ctx.count("readonly_ops")
            for k, (a, b) in enumerate(zip(before, after)):
                ctx.check(a == b, "read-only operation changed the tree",
                          lambda: f"{name} (metrics on): watched object {k}: {diff(a, b)}")
    finally:
        Metrics.endCollect()


def defaults(ctx):
    """synthesised defaults are fresh: writing to one affects neither the tree nor later reads"""
    rng = ctx.rng
    t, ti = gen_tensor(ctx, default=rng.choice(["", "x", frozenset([1])]) if rng.random() < .1 else None)
    depth = len(ti.shape)
    ctx.describe(f"defaults {mon.show(t)} {ti}")
    root = t.getRoot()
    before = mon.full_snap(t)
    for _ in range(6):
        f = rng.choice(all_fibers(root))
        leaf = depth == 1 or f.getOwner() is t.ranks[-1]
        absent = [c for c in range(max(ti.shape) + 2) if c not in f.coords]
        if not absent:
            continue
        c = rng.choice(absent)
        how = rng.choice(["getPayload", "getDefault", "attrs", "iterShape", "tensor", "union"])
        ctx.op(how, c)
        if how == "getPayload":
            p = f.getPayload(c)
            q = f.getPayload(c)
        elif how == "getDefault":
            p, q = f.getDefault(), f.getDefault()
            ctx.count("attr_defaults")
        elif how == "attrs":
            p, q = f.getRankAttrs().getDefault(), f.getRankAttrs().getDefault()
            ctx.count("attr_defaults")
        elif how == "tensor":
            p, q = t.getDefault(), t.getDefault()
            leaf = True
        elif how == "union":
            g = Fiber([c], [7] if leaf else [Fiber([0], [7])])
            p = [e.payload.value[1] for e in f | g if e.coord == c][0]
            q = [e.payload.value[1] for e in f | g if e.coord == c][0]
        else:
            s = f.getShape(all_ranks=False)
            ab = [k for k in range(s or 0) if k not in f.coords]
            if not ab:
                continue
            c = ab[0]
            p = [e.payload for e in f.iterShape() if e.coord == c][0]
            q = [e.payload for e in f.iterShape() if e.coord == c][0]
        ctx.count("absent_defaults")
        if isinstance(p, type):
            continue
        ctx.check(p is not q, "synthesised default is shared", lambda: f"{how}({c}) returned the same object twice")
        if isinstance(p, Payload):
            p <<= 424242
        elif mon.is_fiber(p):
            p.coords.append(0)
            p.payloads.append(Payload(424242))
            ctx.check(not q.coords, "synthesised default is shared", lambda: f"{how}({c}): sub-fiber defaults share lists")
        after = mon.full_snap(t)
        ctx.check(before == after, "writing to a synthesised default changed the tree",
                  lambda: f"{how}({c}): {diff(before, after)}")
        v = f.getPayload(c)
        if leaf and how != "tensor":
            ctx.check(mon.unbox(v) == ti.default, "writing to a synthesised default changed later reads",
                      lambda: f"after {how}({c}) absent read gives {v!r}, default {ti.default}")
        elif mon.is_fiber(v):
            ctx.check(not v.coords, "writing to a synthesised default changed later reads",
                      lambda: f"after {how}({c}) absent read gives {v!r}")
        ctx.check(mon.unbox(t.getDefault()) == ti.default, "writing to a synthesised default changed later reads",
                  lambda: f"after {how}: tensor default {t.getDefault()!r}")


def render(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth, 1, 4)
    t, ti = gen_tensor(ctx, depth=depth, shape=shape, auth=rng.random() < .8)
    x = t
    if rng.random() < .3:
        x = t.getRoot()
    elif rng.random() < .2 and depth > 1:
        t = x = t.flattenRanks()
        ctx.count("tuple_coords")
    elif rng.random() < .1:
        x = t.getRoot().copy(preserve_owner=False)
    elif rng.random() < .1:
        t = x = Tensor(rank_ids=[], name="r0")
    style = rng.choice(["tree", "tree", "uncompressed", "tree+uncompressed"])
    kw = {}
    if rng.random() < .4:
        pts = [tuple(rng.randrange(s) for s in shape[:rng.randint(1, depth)]) for _ in range(rng.randint(1, 3))]
        kw["highlights"] = rng.choice([{"PE": pts}, {"PE0": pts[:1], "PE1": pts[1:] or pts[:1]}])
    if mon.is_fiber(x) and x.getOwner() is None and not depth_known(x, None, depth):
        style = "tree"
    ctx.describe(f"render {style} {kw} {mon.show(x)}")
    hl = repr(kw)
    watched = [t, x]
    before = snap_all(watched)
    ims = []
    for k in range(2):
        im = TensorImage(x, style=style, **kw).im
        ims.append((im.size, im.mode, im.tobytes()))
        after = snap_all(watched)
        for j, (a, b) in enumerate(zip(before, after)):
            ctx.check(a == b, "rendering changed the tree", lambda: f"{style} render {k + 1}: object {j} {diff(a, b)}")
    ctx.check(ims[0] == ims[1], "rendering twice gives different images",
              lambda: f"{style}: sizes {ims[0][0]} {ims[1][0]}")
    ctx.check(repr(kw) == hl, "rendering changed its highlights argument", lambda: f"{hl} -> {kw}")
    ctx.count("renders")
    ctx.key("render", style, hl, mon.show(x))
    # an equal copy renders identically as well (the picture depends on the tensor only)
    if rng.random() < .3:
        im = TensorImage(copy.deepcopy(x), style=style, **kw).im
        ctx.check((im.size, im.mode, im.tobytes()) == ims[0], "rendering a deep copy gives a different image", style)


def enum_small(ctx):
    """all fibers over three coordinates (absent / explicit default / value), every operation in turn"""
    rng = ctx.rng
    f = gen.build(gen.enum_fiber(3, ctx.i % 27), 1, 0)
    g = gen.build(gen.enum_fiber(3, (ctx.i // 27) % 27, v0=21), 1, 0)
    if (ctx.i // 729) % 2:
        f = Tensor.fromFiber(rank_ids=["M"], fiber=f, shape=[3]).getRoot()
    ctx.describe(f"{mon.show(f)} {mon.show(g)}")
    for name, th in [("f+g", lambda a, b: a + b), ("f*g", lambda a, b: a * b), ("f+2", lambda a, b: a + 2),
                     ("f*2", lambda a, b: a * 2), ("splitEqual", lambda a, b: a.splitEqual(2)),
                     ("splitUniform", lambda a, b: a.splitUniform(2)), ("nonEmpty", lambda a, b: a.nonEmpty()),
                     ("copy(False)", lambda a, b: a.copy(preserve_owner=False))]:
        a = f.copy()
        b = g.copy()
        value_op(ctx, name, [a, b], lambda: th(a, b))


GENERATORS = {
    "enum_small": (enum_small, 1458, 1458),
    "tensor_ops": (tensor_ops, 6000, 90000),
    "second_step": (second_step, 3000, 50000),
    "fiber_ops": (gen.no_exotic(fiber_ops), 5500, 80000),
    "unflatten_ops": (unflatten_ops, 600, 8000),
    "arith_ops": (gen.no_exotic(arith_ops), 2500, 40000),
    "readonly": (readonly, 5000, 70000),
    "metrics_readonly": (metrics_readonly, 600, 8000),
    "defaults": (defaults, 1500, 20000),
    "render": (render, 320, 5000),
}
