"""C08: splits partition a fiber losslessly at exactly the stated boundaries."""
import copy
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

gen.EXOTIC = True

RULE = ("every split of generated fibers (integer and tuple coordinates, restricted active ranges, explicit defaults, "
        "halos, relative coordinates) and of generated tensors at every depth is compared, element by element, with the "
        "partition definition evaluated on the raw operand. Non-trivial: distinct (raw fiber, active range, split) with "
        "at least one element")
FLOORS = {"splits": 15000, "partitions": 25000, "uniform": 1500, "nonuniform": 1500, "equal": 1500, "unequal": 1500,
          "div": 300, "floordiv": 300, "halo": 3000, "halo_dup": 1500, "relative": 2000, "restricted_active": 2000,
          "tensor_splits": 2000, "deep_splits": 1000, "nested": 800, "explicit_defaults": 1500, "tuple_coords": 300,
          "empty": 300, "exhaustive": 500, "outside_active": 1000, "flattened": 400}
ASSUMPTIONS = ["non-uniform boundaries are given in ascending order and are integers (the library requires it)",
               "the active range of a partition with relative coordinates is that interval relative to the partition start"]

INF = float("inf")


def inf_like(c):
    return tuple(inf_like(x) for x in c) if isinstance(c, tuple) else INF


def bounds(kind, arg, elems, active):
    """[(boundary start, end)] of the partitions intersecting the active range, in order.  elems: all non-empty
    coordinates"""
    s, e = active
    inside = [c for c in elems if s <= c < e]
    if kind == "uniform":
        out = []
        # range in which partitions can exist
        lo = s // arg * arg
        p = lo
        while p < e and p < 10000:
            out.append((p, p + arg))
            p += arg
        return [b for b in out if b[1] > s and b[0] < e]
    if kind == "nonuniform":
        starts = list(arg)
    elif kind == "equal":
        starts = [s if i == 0 else inside[i] for i in range(0, len(inside), arg)]
    else:
        starts, i = [], 0
        for n in list(arg) + [None]:
            if i >= len(inside):
                break
            starts.append(s if i == 0 else inside[i])
            if n is None:
                break
            i += n
    if not starts:
        return []
    ends = starts[1:] + [inf_like(starts[0])]
    return [(a, b) for a, b in zip(starts, ends) if b > s and a < e]


def expected(kind, arg, elems, active, pre, post, rel):
    """[(upper coord, [(coord, payload)], active range)]; elems: [(coord, payload)] non-empty"""
    s, e = active
    halo = pre or post
    if halo and not s < e:
        return []
    out = []
    for a, b in bounds(kind, arg, [c for c, _ in elems], active):
        lo, hi = max(a, s), min(b, e)
        if lo >= hi:
            continue
        xl, xh = (lo - pre, hi + post) if halo else (lo, hi)
        mine = [(c, p) for c, p in elems if xl <= c < xh]
        if not mine:
            continue
        rng_ = (lo, hi)
        if rel:
            mine = [(c - a, p) for c, p in mine]
            rng_ = (lo - a, hi - a)
        out.append((a, mine, rng_))
    return out


def pv(p):
    return mon.raw(p) if isinstance(p, Fiber) else mon.unbox(p)


def compare(ctx, got, want, default, what, dense=False):
    """got: upper fiber"""
    g = [(c, p) for c, p in zip(got.coords, got.payloads)]
    if not want and all(not low.getActive()[0] < low.getActive()[1] for _, low in g):
        # nothing is active: halo elements around an empty range may or may not be shown
        return 0
    if dense:
        # an uncompressed rank presents every coordinate: partitions holding only defaults may appear
        g = [(c, p) for c, p in g if mon.present(p, default)]
    ctx.check([c for c, _ in g] == [w[0] for w in want], "partition boundaries",
              lambda: f"{what}: upper {got.coords}, expected {[w[0] for w in want]}: {mon.show(got)}")
    n = 0
    for (c, low), (_, els, act) in zip(g, want):
        ctx.count("partitions")
        ctx.check(isinstance(low, Fiber), "partition is not a fiber", what)
        le = [(x, pv(p)) for x, p in (mon.present(low, default) if dense else zip(low.coords, low.payloads))]
        ctx.check(le == [(x, pv(p)) for x, p in els], "partition contents",
                  lambda: f"{what} partition {c}: {le}, expected {[(x, pv(p)) for x, p in els]}")
        ctx.check(low.getActive() == act, "partition's active range",
                  lambda: f"{what} partition {c}: {low.getActive()} expected {act}")
        n += len(els)
    return n


def rand_split(ctx, rng, hi, tup=False):
    """(kind, arg, call(fiber, **kw), text)"""
    k = rng.choice(["uniform", "nonuniform", "equal", "unequal"] if not tup else ["equal", "unequal"])
    if k == "uniform":
        a = rng.choice([1, 2, 3, 4, 5, 7, 10, 30])
        return k, a, lambda f, **kw: f.splitUniform(a, **kw)
    if k == "nonuniform":
        n = gen.size(rng, 1, 5, .06, 14)
        a = sorted(set(rng.randrange(hi + 3) for _ in range(n)) | ({0} if rng.random() < .8 else set()))
        if rng.random() < .25:
            sf = Fiber(a, [1] * len(a))
            return k, a, lambda f, **kw: f.splitNonUniform(sf, **kw)
        return k, a, lambda f, **kw: f.splitNonUniform(list(a), **kw)
    if k == "equal":
        a = gen.size(rng, 1, 5, .06, 14)
        return k, a, lambda f, **kw: f.splitEqual(a, **kw)
    a = [gen.size(rng, 1, 4, .04, 12) for _ in range(gen.size(rng, 1, 5, .06, 14))]
    return k, a, lambda f, **kw: f.splitUnEqual(list(a), **kw)


def rand_opts(rng, tup=False):
    pre = post = 0
    if not tup and rng.random() < .4:
        pre, post = rng.choice([(0, 1), (1, 0), (2, 1), (0, 3), (3, 3), (1, 1), (6, 0), (0, 6)])
    rel = not tup and rng.random() < .25
    return pre, post, rel


def kwargs(pre, post, rel, rng):
    kw = {}
    if pre or rng.random() < .2:
        kw["pre_halo"] = pre
    if post or rng.random() < .2:
        kw["post_halo"] = post
    if rel:
        kw["relativeCoords"] = True
    return kw


def tally(ctx, kind, pre, post, rel, want, elems, active):
    ctx.count("splits")
    ctx.count(kind)
    if pre or post:
        ctx.count("halo")
        if sum(len(w[1]) for w in want) > len({c for w in want for c, _ in w[1]}) and not rel:
            ctx.count("halo_dup")
    if rel:
        ctx.count("relative")
    if not elems:
        ctx.count("empty")
    if any(not active[0] <= c < active[1] for c, _ in elems):
        ctx.count("outside_active")


def fiber(ctx):
    rng = ctx.rng
    default = gen.rand_default(rng)
    tup = rng.random() < .06
    hi = rng.choice([4, 8, 12, 20, 40])
    vals = gen.Vals(rng, default)
    if tup:
        pts = sorted({tuple(rng.randrange(4) for _ in range(2)) for _ in range(rng.randint(0, 9))})
        f = Fiber(pts, [vals() for _ in pts], default=default, shape=(4, 4))
        levels = 1
        ctx.count("tuple_coords")
    else:
        levels = rng.choice([1, 1, 1, 2, 3])
        rt = gen.rand_rt(rng, [hi] + [3] * (levels - 1), default, vals, density=rng.choice([0, .1, .3, .6, 1]))
        off = rng.choice([0, 0, 0, 5])
        rt = [(c + off, x) for c, x in rt]
        hi += off
        f = gen.build(rt, levels, default, [hi] + [3] * (levels - 1) if rng.random() < .6 else None)
    if not tup and rng.random() < .4:
        a = rng.randrange(hi)
        f.setActive((a, rng.randint(a, hi + 2)))
        ctx.count("restricted_active")
    elems = mon.present(f, default)
    if len(elems) < len(f.coords):
        ctx.count("explicit_defaults")
    active = f.getActive()
    snap = mon.full_snap(f)
    ctx.describe(f"{mon.show(f)} active {active} default {default}")
    for _ in range(3):
        kind, arg, call = rand_split(ctx, rng, hi, tup)
        pre, post, rel = rand_opts(rng, tup)
        kw = kwargs(pre, post, rel, rng)
        what = f"{kind}({arg}) {kw} of {mon.show(f)} active {active}"
        ctx.op(what)
        got = call(f, **kw)
        want = expected(kind, arg, elems, active, pre, post, rel)
        n = compare(ctx, got, want, default, what)
        if not (pre or post) and (kind != "nonuniform" or arg[0] <= active[0]):
            ctx.check(n == sum(1 for c, _ in elems if active[0] <= c < active[1]), "elements lost or duplicated", what)
        up = (min(active[0], got.coords[0]), active[1]) if got.coords else active
        ctx.check(got.getActive() == up, "upper active range", lambda: f"{what}: {got.getActive()} expected {up}")
        ctx.check([c for c, _ in got.iterActive(tick=False)] == [c for c, p in mon.present(got, default)],
                  "partition outside the active range", lambda: f"{what}: {mon.show(got)} active {got.getActive()}")
        errs = mon.wf_errors(got, levels + 1)
        ctx.check(not errs, "malformed split", lambda: f"{what}: {errs[:3]}")
        ids = [i for i in _ids(got)]
        ctx.check(len(ids) == len(set(ids)), "payload shared between partitions", what)
        ctx.check(mon.full_snap(f) == snap, "operand changed", what)
        tally(ctx, kind, pre, post, rel, want, elems, active)
        if elems:
            ctx.key(mon.tree_snap(f), active, kind, arg, pre, post, rel)
        if rng.random() < .35 and got.coords:
            nested(ctx, got, want, active, default, hi, tup, what, rel)


def _ids(f):
    for p in f.payloads:
        yield id(p)
        if isinstance(p, Fiber):
            yield from _ids(p)


def nested(ctx, got, want, active, default, hi, tup, what, rel):
    """split the partitions again: per partition the same definition, from its own active range"""
    rng = ctx.rng
    ctx.count("nested")
    if tup:
        return
    kind, arg, call = rand_split(ctx, rng, hi, tup)
    pre, post, rel2 = rand_opts(rng, tup)
    kw = kwargs(pre, post, rel2, rng)
    what2 = f"{kind}({arg}) {kw} of partitions of {what}"
    ctx.op(what2)
    if rng.random() < .5:
        got2 = call(got, depth=1, **kw)
        lows = got2.payloads
    else:
        lows = [call(p, **kw) for p in got.payloads]
    ctx.check(len(lows) == len(got.payloads), "nested split lost a partition", what2)
    total = set()
    for low, p in zip(lows, got.payloads):
        w = expected(kind, arg, mon.present(p, default), p.getActive(), pre, post, rel2)
        compare(ctx, low, w, default, f"{what2}: {mon.show(p)} active {p.getActive()}")
        s, e = p.getActive()
        if kind != "nonuniform" or arg[0] <= s:
            inner = sorted((q.getActive()[0] + (c if rel2 else 0), q.getActive()[1] + (c if rel2 else 0))
                           for c, q in zip(low.coords, low.payloads))
            for (a0, a1), (b0, b1) in zip(inner, inner[1:]):
                ctx.check(a1 <= b0, "nested active ranges overlap", lambda: f"{what2}: {inner}")
            for a0, a1 in inner:
                ctx.check(s <= a0 and a1 <= e, "nested active range outside the parent's", lambda: f"{what2}: {inner}")
            for c, _ in mon.present(p, default):
                if s <= c < e:
                    ctx.check(sum(a0 <= c < a1 for a0, a1 in inner) == 1, "nested ranges do not tile",
                              lambda: f"{what2}: {inner} at {c}")


def tensor(ctx):
    rng = ctx.rng
    t, ti = gen.rand_tensor(rng, formats=.05)
    depth = len(ti.rank_ids)
    d = rng.randrange(depth)
    hi = ti.shape[d]
    flat = tup = False
    if depth > 1 and rng.random() < .15 and all(t.getFormat(i) == "C" for i in ti.rank_ids):
        # a rank made by flattening two: its id is a list, its coordinates tuples or linearized
        flat = True
        d = rng.randrange(depth - 1)
        tup = rng.random() < .5
        hi = ti.shape[d] * ti.shape[d + 1]
        t = Tensor.fromFiber(rank_ids=ti.rank_ids, fiber=t.getRoot(), shape=ti.shape, default=ti.default)
        t = t.flattenRanks(depth=d, levels=1, coord_style="tuple" if tup else "linear")
        depth -= 1
        ctx.count("flattened")
    elif rng.random() < .3:
        for f in mon.levels(t.getRoot(), depth)[d]:
            if rng.random() < .7:
                a = rng.randrange(hi)
                f.setActive((a, rng.randint(a, hi)))
                ctx.count("restricted_active")
    snap = mon.full_snap(t)
    ctx.describe(f"{ti} {mon.show(t)}")
    kind, arg, call = rand_split(ctx, rng, hi, tup)
    pre, post, rel = rand_opts(rng, tup)
    kw = kwargs(pre, post, rel, rng)
    k = .3 if flat else rng.random()
    if d == 0 and k < .2:
        pre = post = 0
        rel = False
        if rng.random() < .5:
            kind, n = "uniform", gen.size(rng, 1, 5, .06, 14)
            arg = (t.getRoot().getShape(all_ranks=False) + n - 1) // n
            if arg == 0:
                return
            what = f"/ {n}"
            res = t / n
            ctx.count("div")
        else:
            kind, n = "equal", gen.size(rng, 1, 5, .06, 14)
            act = t.getRoot().getActive()
            occ = len([c for c, _ in mon.present(t.getRoot(), ti.default) if act[0] <= c < act[1]])
            arg = (occ + n - 1) // n
            if arg == 0:
                arg = 1
            what = f"// {n}"
            res = t // n
            ctx.count("floordiv")
    else:
        if k < .6 or d > 0 and k < .8:
            kw["depth"] = d
        elif d > 0 or k < .9:
            kw["rankid"] = ti.rank_ids[d]
        what = f"{kind}({arg}) {kw}"
        res = call(t, **kw)
    ctx.op(what)
    what = f"{what} of {mon.show(t)} ({ti})"
    dense = any(t.getFormat(i) == "U" for i in t.getRankIds())
    errs = mon.wf_errors(res.getRoot(), depth + 1) + mon.rank_errors(res)
    ctx.check(not errs, "malformed split tensor", lambda: f"{what}: {errs[:3]}\n{mon.show(res)}")
    ctx.count("tensor_splits")
    if d:
        ctx.count("deep_splits")

    def walk(f, g, lv):
        if lv == d:
            elems = mon.present(f, ti.default)
            if not elems and not g.coords:
                ctx.count("empty")
                return
            want = expected(kind, arg, elems, f.getActive(), pre, post, rel)
            compare(ctx, g, want, ti.default, f"{what} at {mon.show(f)} active {f.getActive()}", dense)
            if elems:
                ctx.key(mon.tree_snap(f), f.getActive(), kind, arg, pre, post, rel, d)
            tally(ctx, kind, pre, post, rel, want, elems, f.getActive())
            return
        a = [(c, p) for c, p in mon.present(f, ti.default)]
        b = dict(zip(g.coords, g.payloads))
        ctx.check({c for c, _ in a} <= set(b) <= set(f.coords), "rank above the split changed",
                  lambda: f"{what}: {g.coords} vs {f.coords}")
        for c, p in a:
            walk(p, b[c], lv + 1)
    walk(t.getRoot(), res.getRoot(), 0)
    ctx.check(mon.full_snap(t) == snap, "operand changed", what)


def shorthand(ctx):
    """f / n and f // n on unowned fibers"""
    rng = ctx.rng
    default = gen.rand_default(rng)
    hi = gen.size(rng, 1, 12, .06, 48)
    f = gen.build(gen.rand_rt(rng, [hi], default), 1, default, [hi] if rng.random() < .7 else None)
    elems = mon.present(f, default)
    n = gen.size(rng, 1, 6, .06, 14)
    active = f.getActive()
    ctx.describe(f"{mon.show(f)} {n}")
    shape = f.getShape(all_ranks=False)
    if shape:
        arg = (shape + n - 1) // n
        want = expected("uniform", arg, elems, active, 0, 0, False)
        compare(ctx, f / n, want, default, f"{mon.show(f)} / {n}")
        ctx.count("div")
    arg = max(1, (len([c for c, _ in elems if active[0] <= c < active[1]]) + n - 1) // n)
    want = expected("equal", arg, elems, active, 0, 0, False)
    got = f // n
    compare(ctx, got, want, default, f"{mon.show(f)} // {n}")
    ctx.check(len(got.coords) <= n, "more partitions than asked for", lambda: f"{mon.show(f)} // {n}")
    ctx.count("floordiv")
    ctx.count("splits", 2)
    ctx.key(mon.tree_snap(f), n, shape)


def exhaustive(ctx):
    """all fibers over 5 coordinates x all active ranges x small arguments"""
    rt = gen.enum_fiber(5, ctx.i)
    ctx.describe(rt)
    f = gen.build(rt, 1, 0, [5])
    acts = [(a, b) for a in range(5) for b in range(a, 6)]
    for act in acts:
        f.setActive(act)
        elems = mon.present(f, 0)
        for kind, args in (("uniform", (1, 2, 3, 4)), ("equal", (1, 2, 3)),
                           ("nonuniform", ([0, 2], [1, 3, 4], [0, 6], [3])), ("unequal", ([1, 2], [2, 1, 1], [3]))):
            for arg in args:
                fn = {"uniform": f.splitUniform, "equal": f.splitEqual, "nonuniform": f.splitNonUniform,
                      "unequal": f.splitUnEqual}[kind]
                pre, post = ctx.rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (2, 1), (1, 3)])
                want = expected(kind, arg, elems, act, pre, post, False)
                got = fn(arg, pre_halo=pre, post_halo=post)
                compare(ctx, got, want, 0, f"{kind}({arg}, {pre}, {post}) of {rt} active {act}")
                tally(ctx, kind, pre, post, False, want, elems, act)
    ctx.count("exhaustive")
    ctx.key(rt)


GENERATORS = {"fiber": (fiber, 12000, 150000), "tensor": (tensor, 6000, 80000), "shorthand": (shorthand, 1000, 10000),
              "exhaustive": (exhaustive, 243, 243)}
FLOORS["exhaustive"] = 243
