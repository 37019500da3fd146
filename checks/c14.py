"""C14: rank ids, shapes, defaults, formats, active ranges follow the data."""
import copy
import os
import re
from fibertree import Fiber, Tensor, Payload
from fibertree.core.rank_attrs import RankAttrs
from lib import gen, mon

gen.EXOTIC = True

RULE = ("tensors from every constructor and chains of every transform (all parameters, explicit/estimated shapes, any "
        "default, per-rank formats, mutability) against a metadata model computed from the operand's; containment of every "
        "stored coordinate in the reported shape and active range; lazily produced fibers' rank id and active range; "
        "attributes of fibers joining a tensor. Non-trivial: distinct (tree, metadata, operation)")
FLOORS = {"varied_tuples": 300, "tree_merges": 120, "only_empties": 80, "reach": 500, "beyond": 60, "unnamed": 300, "levels": 2500, "constructs": 1500, "transforms": 6000, "auth": 4000, "est": 800, "nonzero_default": 1500, "formatted": 2500,
          "mutable": 1000, "contain": 20000, "swizzle": 400, "swap": 300, "flatten": 600, "unflatten": 250, "merge": 400,
          "split": 1500, "relative": 250, "deep": 2000, "lazy": 4000, "lazy_active": 1500, "populate": 500, "project": 600,
          "prune": 300, "join": 1500, "fiber_transforms": 2000, "chains": 2000, "tuple_shape": 400, "multi": 300,
          "clipped_resplit": 70}
ASSUMPTIONS = ["elements a halo adds to a partition lie outside its active range by definition (C08), so containment in the "
               "active range is judged on halo-free results", "merging with relative coordinates is judged for containment "
               "when every sum stays inside the upper rank's shape", "name and colour are not part of the property"]


def inside(c, shape):
    if isinstance(shape, tuple) or isinstance(c, tuple):
        return isinstance(c, tuple) and isinstance(shape, tuple) and len(c) == len(shape) \
            and all(inside(x, s) for x, s in zip(c, shape))
    return 0 <= c < shape


class Meta:
    def __init__(self, ids, shape, default, fmts, mutable):
        self.ids, self.shape, self.default, self.fmts, self.mutable = ids, shape, default, fmts, mutable
        self.halo = self.loose = False

    def copy(self):
        return copy.deepcopy(self)

    def __repr__(self):
        return f"ids {self.ids} shape {self.shape} default {self.default} formats {self.fmts} mutable {self.mutable}" \
               + (" halo" if self.halo else "")


def fid(i):
    return str(i)


def check_meta(ctx, t, m, what):
    n = len(m.ids)
    ctx.check(t.getRankIds() == m.ids, "rank-ids", lambda: f"{what}: {t.getRankIds()} want {m.ids}")
    ctx.check([r.getId() for r in t.ranks] == m.ids, "rank-ids", what)
    auth = t.getShape(authoritative=True)
    if m.shape is not None:
        ctx.count("auth")
        ctx.check(auth == m.shape, "shape", lambda: f"{what}: authoritative shape {auth} want {m.shape}; {mon.show(t)}")
        ctx.check(t.getShape() == m.shape, "shape", lambda: f"{what}: shape {t.getShape()} want {m.shape}")
        for i, s in zip(m.ids, m.shape):
            if isinstance(i, str):
                ctx.check(t.getShape(i) == s and t.getShape([i]) == [s], "shape-of-rank",
                          lambda: f"{what}: getShape({i!r}) = {t.getShape(i)} want {s}")
        if n > 1 and len(set(map(repr, m.ids))) == n:
            some = ctx.rng.sample(range(n), ctx.rng.randint(2, n))
            got = t.getShape([m.ids[k] for k in some])
            ctx.check(got == [m.shape[k] for k in some], "shape-of-rank",
                      lambda: f"{what}: getShape({[m.ids[k] for k in some]}) = {got} of {m.ids} {m.shape}")
        if any(isinstance(s, tuple) for s in m.shape):
            ctx.count("tuple_shape")
    else:
        ctx.count("est")
        if auth is not None:
            m.shape_seen = auth
    d = t.getDefault()
    ctx.check(mon.unbox(d) == m.default, "default", lambda: f"{what}: default {d} want {m.default}")
    if m.default != 0:
        ctx.count("nonzero_default")
    for k, i in enumerate(m.ids):
        if m.fmts[k] is not None:
            ctx.check(t.getFormat(i) == m.fmts[k], "format",
                      lambda: f"{what}: format of rank {i} is {t.getFormat(i)} want {m.fmts[k]} ({m})")
        if k < n - 1:
            dd = t.ranks[k].getDefault()
            ctx.check(dd is Fiber or (isinstance(dd, type) and issubclass(dd, Fiber)), "interior-default",
                      lambda: f"{what}: default of interior rank {i} is {dd!r}")
    if m.mutable is not None:
        ctx.check(t.isMutable() is m.mutable, "mutable", lambda: f"{what}: mutable {t.isMutable()} want {m.mutable}")
    errs = mon.wf_errors(t.getRoot(), n if t.getRoot().coords else None) + mon.rank_errors(t)
    ctx.check(not errs, "malformed", lambda: f"{what}: {errs[:3]}")
    contain(ctx, t, m, what)


def in_active(c, a):
    return a[0] <= c < a[1]


def contain(ctx, t, m, what):
    n = len(m.ids)
    shape = t.getShape()
    lv = mon.levels(t.getRoot(), n)
    for d in range(n):
        for f in lv[d]:
            ctx.count("contain")
            fs = f.getShape(all_ranks=False)
            a = f.getActive()
            # the fiber reports what its rank reports
            ctx.check(f.getRankAttrs() is t.ranks[d].getAttrs(), "attrs-not-ranks", what)
            ctx.check(f.getRankIds()[0] == m.ids[d], "fiber-rank-id", lambda: f"{what}: {f.getRankIds()} at depth {d}")
            if f.coords and not m.loose:
                for c in f.coords:
                    ctx.check(inside(c, shape[d]), "outside-shape",
                              lambda: f"{what}: coordinate {c} outside the shape {shape} of rank {m.ids[d]}: {mon.show(t)}")
                    ctx.check(inside(c, fs), "outside-shape",
                              lambda: f"{what}: coordinate {c} outside its fiber's shape {fs}: {mon.show(t)}")
            if f.coords and not m.halo:
                for c in f.coords:
                    ctx.check(in_active(c, a), "outside-active", lambda: f"{what}: coordinate {c} outside the active range {a} "
                              f"of its fiber in rank {m.ids[d]}: {mon.show(f)} of {mon.show(t)}")
                got = [c for c, _ in f.iterActive(tick=False)]
                want = [c for c, _ in f.iterOccupancy(tick=False)]
                ctx.check(got == want, "active-iteration", lambda: f"{what}: active iteration {got}, occupancy {want}")
                if d == n - 1:
                    ctx.check(mon.unbox(f.getDefault()) == m.default, "fiber-default", lambda: f"{what}: {f.getDefault()}")


def build(ctx, rng, depth=None):
    """-> (tensor, Meta)"""
    depth = depth or rng.choice([1, 2, 2, 3, 3, 4])
    shape = [rng.randint(1, 6 if depth < 4 else 3) for _ in range(depth)]
    default = rng.choice([0, 0, 0, 7, -1, 2.5])
    ids = gen.RANKS[:depth]
    rt = gen.rand_rt(rng, shape, default, explicit=rng.choice([0, .15]), empties=rng.choice([0, .15]))
    auth = rng.random() < .75
    how = rng.choice(["fiber", "fiber", "fibershape", "uncompressed", "new", "random", "populated", "deepcopy", "yaml", "writes"])
    m = Meta(list(ids), list(shape) if auth else None, default, ["C"] * depth, False)
    skw = {"shape": list(shape)} if auth else {}
    if how in ("fiber", "deepcopy"):
        f = gen.build(rt, depth, default)
        named = rng.random() < .85 or not (auth or all(gen._levels_nonempty(rt, depth)))
        t = Tensor.fromFiber(rank_ids=list(ids) if named else None, fiber=f, default=default, **skw)
        if not named:
            # names of the library's choosing
            m.ids = ids = list(t.getRankIds())
            ctx.check(len(set(ids)) == depth, "synthesised rank ids", ids)
            ctx.count("unnamed")
        if how == "deepcopy":
            t = copy.deepcopy(t)
    elif how == "fibershape":
        # fibers carrying shapes of their own; a given tensor shape wins
        fsh = [max(1, s - rng.choice([0, 0, 1])) for s in shape] if auth else list(shape)
        f = gen.build(rt, depth, default, fsh)
        t = Tensor.fromFiber(rank_ids=list(ids), fiber=f, default=default, **skw)
        if not auth:
            m.shape = list(shape) if all(gen._levels_nonempty(rt, depth)) else None
    elif how == "uncompressed":
        cont = gen.rt_content(rt, default)
        t = Tensor.fromUncompressed(rank_ids=list(ids), root=gen.nest(cont, shape, default), default=default, **skw)
        m.shape = list(shape)
    elif how in ("new", "writes"):
        t = Tensor(rank_ids=list(ids), default=default, **skw)
        m.mutable = True
        if how == "writes":
            for pt, v in gen.rt_content(rt, default).items():
                ref = t.getPayloadRef(*pt)
                ref <<= v
    elif how == "random":
        t = Tensor.fromRandom(rank_ids=list(ids), shape=list(shape), density=rng.choice([.3, .7, 1.0]), seed=rng.randrange(1000),
                              default=default)
        m.shape = list(shape)
    elif how == "populated":
        t = Tensor.makePopulated(list(ids), list(shape), initial=rng.choice([0, 3]), default=default)
        m.shape = list(shape)
        m.mutable = True
    elif how == "yaml":
        t0 = Tensor.fromFiber(rank_ids=list(ids), fiber=gen.build(rt, depth, default), default=default, **skw)
        p = os.path.join(ctx.scratch, f"c14_{ctx.i}.yaml")
        t0.dump(p)
        m.shape = t0.getShape()
        if rng.random() < .3 and all(gen._levels_nonempty(rt, depth)):
            # a file that names no shape: estimated from the data
            text = open(p).read()
            open(p, "w").write(re.sub(r"  shape:\n(  - .*\n(?:    .*\n)*)+", "", text))
            m.shape = None
            ctx.count("yaml without shape")
        t = Tensor.fromYAMLfile(p)
        os.unlink(p)
    ctx.count("how:" + how)
    if rng.random() < .4:
        m.mutable = rng.random() < .5
        t.setMutable(m.mutable)
    if rng.random() < .5:
        ctx.count("formatted")
        for k, i in enumerate(ids):
            if rng.random() < .6:
                m.fmts[k] = rng.choice(["U", "U", "C"])
                t.setFormat(i, m.fmts[k])
    if m.mutable:
        ctx.count("mutable")
    return t, m, how


def flat_shape(parts, style):
    if style == "tuple":
        out = ()
        for s in parts:
            out += s if isinstance(s, tuple) else (s,)
        return out
    if style == "pair":
        out = parts[-1]
        for s in reversed(parts[:-1]):
            out = (s, out)
        return out
    if style == "linear":
        out = 1
        for s in parts:
            out *= s
        return out
    return parts[-1] if style == "absolute" else parts[0]


def flat_ids(ids):
    out = []
    for i in ids:
        out += i if isinstance(i, list) else [i]
    return out


def rank_coords(t, d):
    return [f.coords for f in mon.levels(t.getRoot(), len(t.ranks))[d] if f.coords]


def plain(t, d):
    return not any(isinstance(c, tuple) for cs in rank_coords(t, d) for c in cs) and isinstance(t.getRankIds()[d], str)


def transform(ctx, t, m, rng):
    """-> (name, result, Meta of the result) or None"""
    n = len(m.ids)
    m2 = m.copy()
    kind = rng.choice(["split", "split", "split", "swizzle", "swap", "flatten", "flatten", "unflatten", "merge",
                       "payloads", "coords", "deepcopy"])
    if any(isinstance(i, list) for i in m.ids) and rng.random() < .5:
        kind = "unflatten"
    if kind == "split":
        d = rng.randrange(n)
        if not plain(t, d) or n > 5:
            return None
        kw = {}
        if rng.random() < .25:
            kw["relativeCoords"] = True
        if rng.random() < .2:
            kw["pre_halo"] = rng.randint(0, 2)
            kw["post_halo"] = rng.randint(0, 2)
            m2.halo = m2.halo or bool(kw["pre_halo"] or kw["post_halo"])
            if m2.halo:
                kw.pop("relativeCoords", None)
        if d or rng.random() < .5:
            if rng.random() < .5:
                kw["depth"] = d
            else:
                kw["rankid"] = m.ids[d]
        step = gen.size(rng, 1, 4, .05, 12)
        how = rng.choice(["uniform", "equal", "nonuniform", "unequal", "/", "//"] if not kw else
                         ["uniform", "equal", "nonuniform", "unequal"])
        if m.halo:
            kw.pop("relativeCoords", None)
        if how in ("/", "//") and (d or t.getRoot().getShape(all_ranks=False) in (0, None) or m.halo):
            return None
        if how == "//" and not any(True for _ in t.getRoot().iterActive(tick=False)):
            return None
        splits = sorted({0, *rng.sample(range(7), rng.randint(0, 3))})
        sizes = [rng.randint(1, 3) for _ in range(rng.randint(1, 5))]
        name, fn = {"uniform": (f"splitUniform({step},{kw})", lambda: t.splitUniform(step, **kw)),
                    "equal": (f"splitEqual({step},{kw})", lambda: t.splitEqual(step, **kw)),
                    "nonuniform": (f"splitNonUniform({splits},{kw})", lambda: t.splitNonUniform(splits, **kw)),
                    "unequal": (f"splitUnEqual({sizes},{kw})", lambda: t.splitUnEqual(sizes, **kw)),
                    "/": (f"/ {step}", lambda: t / step), "//": (f"// {step}", lambda: t // step)}[how]
        if any(f.getActive()[0] for f in mon.levels(t.getRoot(), n)[d]):
            ctx.count("clipped_resplit")
        i = m.ids[d]
        m2.ids[d:d + 1] = [f"{i}.1", f"{i}.0"]
        m2.fmts[d:d + 1] = [m.fmts[d]] * 2
        if m.shape is not None:
            m2.shape[d:d + 1] = [m.shape[d]] * 2
        if kw.get("relativeCoords"):
            ctx.count("relative")
            m2.rel = (d, m2.ids[d], m2.ids[d + 1])
            if any(x.coords and x.coords[0] < 0 for f in [] for x in f):
                return None
        ctx.count("split")
        if d:
            ctx.count("deep")
    elif kind == "swizzle":
        perm = list(m.ids)
        rng.shuffle(perm)
        name, fn = f"swizzleRanks({perm})", lambda: t.swizzleRanks(list(perm))
        g = [m.ids.index(i) for i in perm]
        m2.ids = perm
        m2.fmts = [m.fmts[k] for k in g]
        m2.shape = [m.shape[k] for k in g] if m.shape is not None else None
        ctx.count("swizzle")
    elif kind == "swap":
        if n < 2:
            return None
        d = rng.randrange(n - 1)
        name, fn = f"swapRanks({d})", lambda: t.swapRanks(depth=d)
        for x in (m2.ids, m2.fmts, m2.shape):
            if x is not None:
                x[d], x[d + 1] = x[d + 1], x[d]
        ctx.count("swap")
        if d:
            ctx.count("deep")
    elif kind in ("flatten", "merge"):
        if n < 2:
            return None
        d = rng.randrange(n - 1)
        lv = rng.randint(1, n - 1 - d)
        style = rng.choice(["tuple", "tuple", "pair", "linear"] if kind == "flatten" else ["absolute", "relative"])
        if style in ("linear", "absolute", "relative") and not all(plain(t, x) for x in range(d, d + lv + 1)):
            return None
        if style == "linear" and t.getShape(authoritative=True) is None:
            return None
        if kind == "flatten" and any(isinstance(c, tuple) for x in range(d, d + lv + 1) for cs in rank_coords(t, x) for c in cs):
            style = "tuple" if style == "tuple" else None
            if style is None:
                return None
        if style == "linear" and m.halo:
            return None             # lower coordinates may leave their rank's shape
        if style == "tuple" and m.halo:
            return None
        if kind == "merge" and style == "relative":
            # the merged rank keeps a declared shape of the upper rank
            own = [f.getShape(all_ranks=False, authoritative=True) for f in t.ranks[d].getFibers()]
            lim = t.getShape()[d] if any(s is not None for s in own) else float("inf")
            ctx.count("relative_unshaped", lim == float("inf"))
            for pt, _ in mon.leaves(t.getRoot()):
                if sum(pt[d:d + lv + 1]) >= lim:
                    m2.loose = True
            if m2.loose:
                return None
        f = t.flattenRanks if kind == "flatten" else t.mergeRanks
        if kind == "merge" and not isinstance(m.ids[d], str):
            return None
        name, fn = f"{kind}Ranks({d},{lv},{style})", lambda: f(depth=d, levels=lv, coord_style=style, **(gen.merge_kw(t) if kind == "merge" else {}))
        m2.ids[d:d + lv + 1] = [flat_ids(m.ids[d:d + lv + 1])]
        m2.fmts[d:d + lv + 1] = ["C"]
        if m.shape is not None:
            m2.shape[d:d + lv + 1] = [flat_shape(m.shape[d:d + lv + 1], style)]
        if kind == "flatten":
            m2.fl = getattr(m, "fl", {})
            m2.fl = dict(m2.fl)
            merged = [i for i in m.ids[d:d + lv + 1] if isinstance(i, list) and m2.fl.get(repr(i)) is None]
            m2.fl[repr(m2.ids[d])] = style if not merged and style in ("tuple", "pair") else None
        ctx.count(kind)
        if lv > 1:
            ctx.count("multi")
        if d:
            ctx.count("deep")
    elif kind == "unflatten":
        opts = [d for d in range(n) if isinstance(m.ids[d], list) and len(m.ids[d]) >= 2
                and any(isinstance(c, tuple) for cs in rank_coords(t, d) for c in cs)]
        if not opts:
            return None
        d = rng.choice(opts)
        arity = {len(c) for cs in rank_coords(t, d) for c in cs}
        lv = rng.randint(1, len(m.ids[d]) - 1)
        st = getattr(m, "fl", {}).get(repr(m.ids[d]))
        if st not in ("tuple", "pair"):
            return None
        if st == "tuple" and arity != {len(m.ids[d])}:
            return None
        if m.shape is not None and not isinstance(m.shape[d], tuple):
            return None
        if st == "pair" and any(isinstance(i, list) for i in m.ids[d]):
            return None
        name, fn = f"unflattenRanks({d},{lv})", lambda: t.unflattenRanks(depth=d, levels=lv)
        ids, sh = list(m.ids[d]), (m.shape[d] if m.shape is not None else None)
        new, ns = [], []
        for k in range(lv):
            new.append(ids[0])
            ids = ids[1:]
            if sh is not None:
                ns.append(sh[0])
                sh = sh[1:] if len(sh) > 2 else sh[1]
        rest = ids[0] if len(ids) == 1 else ids
        new.append(rest)
        m2.ids[d:d + 1] = new
        m2.fmts[d:d + 1] = ["C"] * len(new)
        if m.shape is not None:
            m2.shape[d:d + 1] = ns + [sh]
        m2.fl = dict(getattr(m, "fl", {}))
        if isinstance(rest, list):
            m2.fl[repr(rest)] = st
        ctx.count("unflatten")
        if d:
            ctx.count("deep")
    elif kind == "payloads":
        d = rng.randrange(n)
        if d < n - 1:
            return None
        name, fn = f"updatePayloads({d})", lambda: t.updatePayloads(lambda i, c, p: ((p + 1) if gen.num(mon.unbox(p)) else 7), depth=d)
    elif kind == "coords":
        d = rng.randrange(n)
        if not plain(t, d):
            return None
        hi = max([c for cs in rank_coords(t, d) for c in cs] + [0])
        name, fn = f"updateCoords(hi-c,{d})", lambda: t.updateCoords(lambda i, c, p: hi - c, depth=d)
        m2.halo = True          # in-place coordinate rewriting keeps the previous active ranges
    else:
        name, fn = "deepcopy", lambda: copy.deepcopy(t)
    ctx.op(name)
    return name, fn, m2


def g_construct(ctx):
    t, m, how = build(ctx, ctx.rng)
    ctx.describe(f"{how}: {mon.show(t)} {m}")
    ctx.key("cons", how, mon.show(t), repr(m))
    ctx.count("constructs")
    check_meta(ctx, t, m, f"constructor {how}")


def g_transform(ctx):
    rng = ctx.rng
    t, m, how = build(ctx, rng)
    ctx.describe(f"{how}: {mon.show(t)} {m}")
    ctx.op(ctx.desc)
    for step in range(rng.randint(1, 3)):
        for _ in range(8):
            r = transform(ctx, t, m, rng)
            if r is not None:
                break
        else:
            return
        name, fn, m2 = r
        # no model-visible change of the operand
        before = repr(m)
        what = f"{name} of {mon.show(t)} ({m})"
        ctx.describe(what)
        u = fn()
        ctx.count("transforms")
        if step:
            ctx.count("chains")
        ctx.key("tr", name, mon.show(t), before)
        check_meta(ctx, u, m2, what)
        check_meta(ctx, t, m, "operand after " + what)
        # an operand estimated shape: the result's coordinates are inside what it reports (checked above)
        t, m = u, m2


def g_fiber_transform(ctx):
    """the same on unowned fibers: reported shape and active ranges contain every coordinate"""
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth, 1, 6)
    default = rng.choice([0, 0, 5])
    rt = gen.rand_rt(rng, shape, default)
    given = rng.random() < .6
    f = gen.build(rt, depth, default, shape if given else None)
    if given and depth > 1 and rng.random() < .2:
        # siblings may declare different shapes
        def varied(rt, level):
            sh = max([c for c, _ in rt], default=-1) + 1 + rng.randint(0, 3)
            if level == depth - 1:
                return Fiber([c for c, _ in rt], [x for _, x in rt], default=default, shape=sh)
            return Fiber([c for c, _ in rt], [varied(x, level + 1) for _, x in rt], default=default, shape=sh)
        f = varied(rt, 0)
        shape = "varied"
        ctx.count("varied_shapes")
    ops = []
    for d in range(depth):
        step = rng.randint(1, 3)
        rel = rng.random() < .3
        splits = sorted({0, *rng.sample(range(7), 2)})
        ops += [(f"splitUniform({step},depth={d},rel={rel})", lambda f, step=step, d=d, rel=rel: f.splitUniform(step, depth=d, relativeCoords=rel)),
                (f"splitEqual({step},depth={d},rel={rel})", lambda f, step=step, d=d, rel=rel: f.splitEqual(step, depth=d, relativeCoords=rel)),
                (f"splitNonUniform({splits},depth={d})", lambda f, d=d, s=splits: f.splitNonUniform(s, depth=d)),
                (f"splitUnEqual({[step, 1, 2]},depth={d})", lambda f, d=d, s=step: f.splitUnEqual([s, 1, 2], depth=d))]
    if depth > 1 and rt and any(x for _, x in rt):
        d = rng.randrange(depth - 1)
        lv = rng.randint(1, depth - 1 - d)
        st = rng.choice(["tuple", "pair"])
        ops += [(f"flattenRanks({d},{lv},{st})", lambda f: f.flattenRanks(depth=d, levels=lv, style=st)),
                (f"mergeRanks({d},{lv},absolute)", lambda f: f.mergeRanks(depth=d, levels=lv, style="absolute")),
                *([] if given else [(f"mergeRanks({d},{lv},relative)", lambda f: f.mergeRanks(depth=d, levels=lv, style="relative"))]),
                ("flatten.unflatten", lambda f: f.flattenRanks(levels=1).unflattenRanks() if gen.rt_content(rt, default) else f)]
        if depth > 2 and gen.rt_content(rt, default):
            un = rng.randint(1, 2)
            ops += [(f"flatten(2).unflatten({un})", lambda f: f.flattenRanks(levels=2).unflattenRanks(levels=un))] * 2
        if not f.isEmpty():
            ops.append(("swapRanks", lambda f: f.swapRanks()))
        if given:
            ops.append((f"flattenRanks({d},{lv},linear)", lambda f: f.flattenRanks(depth=d, levels=lv, style="linear")))
    ops += [("itself", lambda f: f), ("copy", lambda f: copy.deepcopy(f)), ("nonEmpty", lambda f: f.nonEmpty())]
    if depth == 1:
        ops += [("*2", lambda f: f * 2), ("f+f", lambda f: f + copy.deepcopy(f)), ("f*f", lambda f: f * copy.deepcopy(f))]
    name, fn = rng.choice(ops)
    ctx.count("deep_unflatten", name.startswith("flatten(2)"))
    what = f"{name} of {mon.show(f)} default {default} shape {shape if given else None}"
    ctx.describe(what)
    ctx.key("ft", what)
    ctx.count("fiber_transforms")
    judge_fiber(ctx, what, fn(f), default)


def g_collide(ctx):
    """merging unowned fibers of estimated shape: many sub-fibers of different extents meet at one coordinate; and trees
    that hold nothing but empty sub-fibers"""
    rng = ctx.rng
    depth = rng.choice([2, 3, 3, 3, 4])
    default = rng.choice([0, 0, 5, -2])
    vals = gen.Vals(rng, default, "uniq")

    def sub(level):
        w = rng.choice([3, 6, 12, 40]) if level == depth - 1 else 4
        cs = sorted(rng.sample(range(w), rng.randint(0 if level else 2, min(w, 4))))
        if level == depth - 1:
            act = None
            if cs and rng.random() < .15:
                act = (rng.randint(0, cs[0]), cs[-1] + 1 + rng.randint(0, 2))
            return Fiber(cs, [vals() for _ in cs], default=default, active_range=act)
        return Fiber(cs, [sub(level + 1) for _ in cs])
    if rng.random() < .12:
        f = Fiber([0, 3], [Fiber(default=default), Fiber(default=default)])
        ctx.count("only_empties")
        if rng.random() < .5:
            f = f.flattenRanks(style=rng.choice(["tuple", "pair"]))
        else:
            f = f.mergeRanks(style=rng.choice(["absolute", "relative"]))
        dd = mon.unbox(f.getDefault())
        ctx.check(dd == default, "fiber-default", lambda: f"merged empty sub-fibers of default {default}: default {dd}")
        return
    f = sub(0)
    d = rng.randrange(depth - 1)
    lv = rng.choice([1, 1, depth - 1 - d])
    if rng.random() < .3:
        st = rng.choice(["tuple", "pair"])
        what, fn = f"flattenRanks({d},{lv},{st})", lambda: f.flattenRanks(depth=d, levels=lv, style=st)
    else:
        st = rng.choice(["absolute", "absolute", "relative"])
        what, fn = f"mergeRanks({d},{lv},{st})", lambda: f.mergeRanks(depth=d, levels=lv, style=st)
        n = [len({c for q in h.payloads for c in q.coords}) < sum(len(q.coords) for q in h.payloads)
             for h in mon.levels(f, depth)[d] if h.coords]
        ctx.count("tree_merges", lv < depth - 1 - d and any(n))
    what = f"{what} of {mon.show(f)} default {default}"
    ctx.describe(what)
    ctx.key("collide", what)
    judge_fiber(ctx, what, fn(), default)


def judge_fiber(ctx, what, g, default):
    """coordinates inside shapes and active ranges, leaf defaults, levels; then joined to a tensor"""
    def rec(h, level):
        if h.coords:
            a, s = h.getActive(), h.getShape(all_ranks=False)
            for c in h.coords:
                ctx.check(in_active(c, a), "outside-active", lambda: f"{what}: {c} outside {a} in {mon.show(h)} of {mon.show(g)}")
                ctx.check(inside(c, s), "outside-shape", lambda: f"{what}: {c} outside {s} in {mon.show(h)} of {mon.show(g)}")
            got = [c for c, _ in h.iterActive(tick=False)]
            want = [c for c, _ in h.iterOccupancy(tick=False)]
            ctx.check(got == want, "active-iteration", lambda: f"{what}: active {got} occupancy {want}")
            ctx.count("contain")
        for p in h.payloads:
            if mon.is_fiber(p):
                rec(p, level + 1)
            else:
                dd = mon.unbox(h.getDefault())
                ctx.check(dd == default, "fiber-default", lambda: f"{what}: leaf default {dd} want {default}")
                break
    rec(g, 0)
    if g.getOwner() is None:
        n, fs = 0, [g]
        while fs:
            n, fs = n + 1, [p for h in fs for p in h.payloads if mon.is_fiber(p)]
        ctx.check(g.getDepth() == n == len(g.getRankIds()), "levels of an unowned fiber",
                  lambda: f"{what}: depth {g.getDepth()} rank ids {g.getRankIds()} for {n} levels")
        ctx.count("levels")

    # the whole-tree shape (reported and estimated) bounds every coordinate of every level
    def paths(h, pre=()):
        for c, p in zip(h.coords, h.payloads):
            yield pre + (c,)
            if mon.is_fiber(p):
                yield from paths(p, pre + (c,))

    def bounded(h, how, s):
        ctx.check(isinstance(s, list), "shape-list", lambda: f"{what}: {how} is {s!r}")
        for pt in paths(h):
            ctx.check(len(s) >= len(pt) and inside(pt[-1], s[len(pt) - 1]), "outside-shape",
                      lambda: f"{what}: {pt} outside {how} {s} of {mon.show(h)}")
            ctx.count("bounded_paths")
    for h in [g] + [p for p in g.payloads if mon.is_fiber(p)][:3]:
        if h.coords:
            bounded(h, "getShape()", h.getShape())
            bounded(h, "estimateShape()", h.estimateShape())
    # joined to a tensor, the attributes become the ranks'
    if not mon.leaves(g):
        return
    n = len(mon.leaves(g)[0][0])
    ids = [f"J{k}" for k in range(n)]
    t = Tensor.fromFiber(rank_ids=list(ids), fiber=g, default=default)
    m = Meta(ids, None, default, ["C"] * n, False)
    check_meta(ctx, t, m, "tensor from " + what)


def g_reach(ctx):
    """coordinates at the edge of what a shape covers: sub-fibers over tuple coordinates that declare different shapes, and
    splits of a rank of estimated shape whose active range (or halo) reaches beyond its elements"""
    rng = ctx.rng

    def bounded(h, what):
        own = h.getShape(all_ranks=False)
        for c in h.coords:
            ctx.check(inside(c, own), "outside-shape", lambda: f"{what}: {c} outside {own} of {mon.show(h)}")
        for how, s in (("getShape()", h.getShape()), ("estimateShape()", h.estimateShape())):
            def rec(g, d):
                for c, p in zip(g.coords, g.payloads):
                    ctx.check(inside(c, s[d]), "outside-shape", lambda: f"{what}: {c} outside {how} {s} in rank {d} of {mon.show(h)}")
                    ctx.count("bounded_paths")
                    if mon.is_fiber(p):
                        rec(p, d + 1)
            rec(h, 0)

    if rng.random() < .4:
        k = rng.choice([2, 2, 3])
        subs = []
        for _ in range(rng.randint(1, 4)):
            sh = tuple(rng.randint(1, 6) for _ in range(k))
            cs = sorted({tuple(rng.randrange(x) for x in sh) for _ in range(rng.choice([0, 1, 2, 3]))})
            subs.append(Fiber(cs, [rng.randint(1, 9) for _ in cs], shape=sh if rng.random() < .8 or not cs else None))
        f = Fiber(list(range(len(subs))), subs, shape=len(subs) if rng.random() < .6 else None)
        if rng.random() < .3:
            f = Fiber([0, 2], [f, Fiber([1], [Fiber([tuple(rng.randrange(5) for _ in range(k))], [1], shape=tuple([5] * k))])])
        what = f"sub-fibers of shapes {[x.getShape(all_ranks=False) for x in subs]}: {mon.show(f)}"
        ctx.describe(what)
        if any(x.coords for x in subs):
            bounded(f, what)
        ctx.count("varied_tuples")
        ctx.key("vt", what)
        return
    n = gen.size(rng, 1, 7)
    cs = sorted(rng.sample(range(n + 2), rng.randint(1, n)))
    f = Fiber(cs, [rng.randint(1, 9) for _ in cs])
    owned = rng.random() < .6
    if owned:
        f = Tensor.fromFiber(rank_ids=["K"], fiber=f).getRoot()
    a = (rng.choice([0, 0, cs[0]]), cs[-1] + 1 + rng.randint(0, 6))
    f.setActive(a)
    kw = {}
    if rng.random() < .7:
        kw["pre_halo"] = rng.randint(1, 4)
    if rng.random() < .3:
        kw["post_halo"] = rng.randint(1, 3)
    k = rng.randint(1, 4)
    b = sorted({0, *(rng.randrange(a[1] + 2) for _ in range(rng.randint(1, 4)))})
    op, call = rng.choice([("splitUniform(%d)" % k, lambda: f.splitUniform(k, **kw)), (f"splitNonUniform({b})", lambda: f.splitNonUniform(b, **kw)),
                           ("splitEqual(%d)" % k, lambda: f.splitEqual(k, **kw))])
    what = f"{op} {kw} of {'owned ' if owned else ''}{mon.show(f)} active {a}"
    ctx.describe(what)
    g = call()
    if not g.coords:
        return
    act = g.getActive()
    for c in g.coords:
        ctx.check(in_active(c, act), "outside-active", lambda: f"{what}: {c} outside {act} of {mon.show(g)}")
    ctx.count("beyond", g.coords[-1] > cs[-1])
    bounded(g, what)
    t = Tensor.fromFiber(rank_ids=["K1", "K0"], fiber=g)
    bounded(t.getRoot(), "tensor from " + what)
    sh = t.getShape()
    for pt, _ in mon.leaves(t.getRoot()):
        ctx.check(all(inside(c, s) for c, s in zip(pt, sh)), "outside-shape", lambda: f"tensor from {what}: {pt} outside {sh}")
    ctx.count("reach")
    ctx.key("re", what)


def operand(ctx, rng, rank, shape, default, depth=1, own=None):
    own = rng.random() < .6 if own is None else own
    sh = [shape] + [3] * (depth - 1)
    rt = gen.rand_rt(rng, sh, default)
    if own:
        ids = [rank] + gen.RANKS[1:depth]
        t = Tensor.fromFiber(rank_ids=ids, fiber=gen.build(rt, depth, default), shape=sh if rng.random() < .7 else None, default=default)
        if rng.random() < .15:
            t.setFormat(rank, "U")
        f = t.getRoot()
    else:
        f = gen.build(rt, depth, default, sh if rng.random() < .5 else None)
        if rng.random() < .5:
            f.getRankAttrs().setId(rank)
    if rng.random() < .4:
        a = sorted(rng.sample(range(shape + 1), 2)) if shape > 1 else [0, 1]
        f.setActive(tuple(a))
    return f


def g_lazy(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 1, 2])
    shape = gen.size(rng, 2, 7)
    default = rng.choice([0, 0, 7])
    a = operand(ctx, rng, "A", shape, default, depth)
    b = operand(ctx, rng, "B", gen.size(rng, 2, 7), default, depth)
    ra, rb = a.getRankAttrs().getId(), b.getRankAttrs().getId()
    aa, ba = a.getActive(), b.getActive()
    if aa[0] or ba[0] or mon.active_set(a) or mon.active_set(b):
        ctx.count("lazy_active")

    def lz(x, what, rank, active):
        ctx.count("lazy")
        w = f"{what} of {ra}{mon.show(a)} active {aa}, {rb}{mon.show(b)} active {ba}"
        ctx.check(x.isLazy(), "not-lazy", w)
        ctx.check(x.getRankAttrs().getId() == rank, "lazy-rank", lambda: f"{w}: rank {x.getRankAttrs().getId()!r} want {rank!r}")
        if active is not None:
            ok = x.getActive() == active or (aa[0] == aa[1] and "project" in what and x.getActive()[0] == x.getActive()[1])
            ctx.check(ok, "lazy-active", lambda: f"{w}: active {x.getActive()} want {active}")
        ctx.check(a.getActive() == aa or "<<" in what, "operand-active", w)
        ctx.check(b.getActive() == ba, "operand-active", w)
        return x
    ctx.describe(f"lazy of {ra}{mon.show(a)} active {aa}, {rb}{mon.show(b)} active {ba}")
    ctx.key("lazy", ctx.desc)
    i1 = lz(a & b, "a & b", ra, aa)
    lz(b & a, "b & a", rb, ba)
    lz(a | b, "a | b", ra, aa)
    lz(a ^ b, "a ^ b", ra, aa)
    lz(a - b, "a - b", ra, aa)
    lz(Fiber.intersection(a, b), "intersection", ra, aa)
    lz(Fiber.union(a, b), "union", ra, aa)
    lz(Fiber.union(b, a, b), "union3", rb, ba)
    lz(Fiber.intersection(b, a, a), "intersection3", rb, ba)
    ctx.count("prune", 1)
    lz(a.prune(lambda i, c, p: True), "prune", ra, aa)
    # nested
    lz(i1 & b, "(a & b) & b", ra, aa)
    lz((a - b) | a, "(a - b) | a", ra, aa)
    lz(a & (b | a), "a & (b | a)", ra, aa)
    lz((b & a).prune(lambda i, c, p: True), "prune(b & a)", rb, ba)
    # co-iteration over shapes
    if hasattr(Fiber, "coiterShape"):
        pass
    # projections
    sh = rng.randint(-3, 4)
    ctx.count("project")
    lz(a.project(lambda c: c + sh, rank_id="Z"), f"project +{sh}", "Z", (aa[0] + sh, aa[1] + sh))
    lo = rng.randint(-2, 4)
    hi = lo + rng.randint(1, 5)
    lz(a.project(lambda c: c + sh, interval=(lo, hi), rank_id="Z"), f"project +{sh} [{lo},{hi})", "Z", (lo, hi))
    lz(a.project(lambda c: sh - c, rank_id="Z"), f"project {sh}-c", "Z", (sh - (aa[1] - 1), sh - aa[0] + 1))
    lz(a.project(lambda c: sh - c, interval=(lo, hi), rank_id="Z"), f"project {sh}-c [{lo},{hi})", "Z", (lo, hi))
    k = rng.randint(2, 3)
    lz(a.project(lambda c: c * k, rank_id="Z"), f"project *{k}", "Z", (aa[0] * k, (aa[1] - 1) * k + 1))
    lz((a & b).project(lambda c: c + sh, rank_id="Z", coord_ex=0), "project of a & b", "Z", (aa[0] + sh, aa[1] + sh))
    # active-range iteration of the lazy result's consumer: a co-iteration of results delivers by the operands' data, and the
    # attributes are stable while iterating
    x = a & b
    for _ in x:
        ctx.check(x.getActive() == aa and x.getRankAttrs().getId() == ra, "lazy-attrs-change", "while iterating a & b")
    # populate: destination's rank, source's active range
    if rng.random() < .8:
        ctx.count("populate")
        z = operand(ctx, rng, "Z", 8, default, depth)
        rz = z.getRankAttrs().getId()
        p = z << b
        w = f"z << b, z {rz}{mon.show(z)} b {rb}{mon.show(b)} active {ba}"
        ctx.check(p.getRankAttrs().getId() == rz, "lazy-rank", lambda: f"{w}: rank {p.getRankAttrs().getId()!r} want {rz!r}")
        ctx.check(p.getActive() == ba, "lazy-active", lambda: f"{w}: active {p.getActive()} want {ba}")
        p2 = z << (a & b)
        ctx.check(p2.getRankAttrs().getId() == rz and p2.getActive() == aa, "lazy-active",
                  lambda: f"z << (a & b): {p2.getRankAttrs().getId()} {p2.getActive()} want {rz} {aa}")


def g_join(ctx):
    """an unowned fiber's own attributes give way to its rank's"""
    rng = ctx.rng
    default = rng.choice([0, 7, 2.5])
    shape = [rng.randint(2, 6), rng.randint(2, 6)]
    t = Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(gen.rand_rt(rng, shape, default), 2, default), shape=shape, default=default)
    fm = rng.choice(["C", "U"])
    t.setFormat("K", fm)
    rt = gen.rand_rt(rng, [shape[1]], default)
    own_default = rng.choice([0, 3, default])
    f = Fiber([c for c, _ in rt], [v for _, v in rt], default=own_default, shape=rng.choice([None, 9]))
    f.getRankAttrs().setId("other")
    f.getRankAttrs().setFormat("U" if fm == "C" else "C")
    root = t.getRoot()
    free = [c for c in range(shape[0] + 3) if c not in root.coords]
    how = rng.choice(["append", "setitem", "assign", "setroot", "iadd", "extend"])
    ctx.describe(f"{how} {mon.show(f)} to {mon.show(t)} default {default} own {own_default}")
    ctx.key("join", ctx.desc)
    ctx.count("join")
    before_shape = t.getShape(authoritative=True)
    if how == "assign":
        own_default = default       # an assignment copies the elements, its source's default included
        f = Fiber([c for c, _ in rt], [v for _, v in rt], default=default)
    if how in ("append", "extend", "iadd") and not gen.rt_content(rt, own_default):
        return                      # adds nothing
    if how == "append":
        c = (root.coords[-1] if root.coords else -1) + 1
        root.append(c, f)
        g = root.payloads[-1]
    elif how == "extend":
        c = (root.coords[-1] if root.coords else -1) + 1
        root.extend(Fiber([c], [f]))
        g = root.payloads[-1]
    elif how == "setitem":
        if not root.coords:
            return
        k = rng.randrange(len(root.coords))
        root[k] = f
        g = root.payloads[k]
    elif how == "assign":
        c = rng.choice(free)
        ref = root.getPayloadRef(c)
        ref <<= f
        g = ref
        ctx.check(root.getPayload(c) is g, "assign", "reference is not the stored fiber")
    elif how == "iadd":
        c = rng.choice(free)
        root += Fiber([c], [f])
        g = root.getPayload(c)
    else:
        r2 = Fiber([1], [f], default=own_default)
        t.setRoot(r2)
        g = t.getRoot().payloads[0]
        for x in (t.getRoot(),):
            ctx.check(x.getRankAttrs() is t.ranks[0].getAttrs() and x.getRankIds() == ["M", "K"], "join", "root attributes")
            ctx.check(x.getDefault() is Fiber or isinstance(x.getDefault(), Fiber) or issubclass(x.getDefault(), Fiber), "join", "root default")
    ctx.check(mon.is_fiber(g), "join", f"{how}: {type(g)}")
    w = ctx.desc
    ctx.check(g.getOwner() is t.ranks[1], "join-owner", w)
    ctx.check(g.getRankAttrs() is t.ranks[1].getAttrs(), "join-attrs", w)
    ctx.check(g.getRankAttrs().getId() == "K" and g.getRankIds() == ["K"], "join-id", lambda: f"{w}: {g.getRankAttrs().getId()} {g.getRankIds()}")
    ctx.check(mon.unbox(g.getDefault()) == default, "join-default", lambda: f"{w}: {g.getDefault()} want {default}")
    ctx.check(g.getRankAttrs().getFormat() == fm, "join-format", w)
    ctx.check(g.getShape(all_ranks=False) == t.getShape("K"), "join-shape", lambda: f"{w}: {g.getShape(all_ranks=False)} want {t.getShape('K')}")
    if how != "setroot":
        ctx.check(t.getShape(authoritative=True) == before_shape, "join-shape", lambda: f"{w}: tensor shape {t.getShape()} was {before_shape}")
    ctx.check(t.getRankIds() == ["M", "K"], "join-id", w)
    ctx.check(mon.unbox(t.getDefault()) == default and t.getFormat("K") == fm, "join-default", w)
    # emptiness is judged by the rank's default
    ctx.check(g.isEmpty() == (not mon.content(g, default)), "join-empty", lambda: f"{w}: isEmpty {g.isEmpty()}")
    ctx.check(g.countValues() == len(mon.content(g, default)), "join-count", lambda: f"{w}: {g.countValues()}")
    miss = [c for c in range(shape[1]) if c not in g.coords]
    if miss:
        ctx.check(mon.unbox(g.getPayload(rng.choice(miss))) == default, "join-absent", w)
    # changing the rank's attributes is seen by the fiber
    t.setRankIds(["P", "Q"])
    ctx.check(g.getRankAttrs().getId() == "Q" and t.getRankIds() == ["P", "Q"], "join-id", w)
    t.setDefault(-4)
    ctx.check(mon.unbox(g.getDefault()) == -4, "join-default", w)


GENERATORS = {
    "construct": (g_construct, 4000, 40000),
    "transform": (g_transform, 14000, 120000),
    "fiber": (gen.no_exotic(g_fiber_transform), 6000, 60000),
    "lazy": (g_lazy, 3000, 30000),
    "collide": (g_collide, 1500, 20000),
    "reach": (g_reach, 2000, 30000),
    "join": (g_join, 4000, 40000),
}
