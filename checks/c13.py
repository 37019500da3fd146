"""C13: conversions between representations are lossless."""
import copy
import itertools
import json
import os
import random
from fibertree import Fiber, Tensor, Payload, Metrics
from lib import gen, mon, xform

gen.EXOTIC = True

RULE = ("random rectangular nests (depth 1-4, int/float, all-default rows/nests, every default) -> tensors/fibers -> "
        "uncompress, judged by an independent nest model; tensors (plain and transformed, incl. tuple coordinates, rank 0) "
        "dumped to YAML and reloaded, dictionary forms, random construction; exhaustive small nests. "
        "Non-trivial: distinct (nest, default) / (tree) / (shape, density, seed)")
FLOORS = {"nests": 3000, "alldefault_nests": 200, "uncompress": 9000, "deep_nests": 1500, "float_nests": 500,
          "nonzero_default": 800, "enum_nests": 1700, "yaml_tensor": 2500, "yaml_fiber": 1200, "yaml_tuple": 200,
          "yaml_rank0": 60, "yaml_empty": 100, "dicts": 1200, "random": 1500, "random_full": 500,
          "transformed_uncompress": 800, "interleaved": 500, "populated": 200, "yaml_default": 300, "zero_dims": 40}
ASSUMPTIONS = ["a fiber's YAML/dictionary form records coordinates and payloads only: its leaf default and shape are passed "
               "to the loader, as Fiber.fromYAMLfile's parameters provide", "entries of a random construction equal to the "
               "requested default need not be stored", "an unowned fiber without children reports only its own dimension"]


def nest_points(nest, default, prefix=()):
    out = {}
    for c, x in enumerate(nest):
        if isinstance(x, list):
            out.update(nest_points(x, default, prefix + (c,)))
        elif x != default:
            out[prefix + (c,)] = x
    return out


def dims(nest):
    d = []
    while isinstance(nest, list):
        d.append(len(nest))
        if not nest:
            break
        nest = nest[0]
    return d


def rand_nest(rng, shape, default, kind):
    def val():
        if kind == "float":
            return rng.choice([rng.randint(-40, 40) / 8.0, rng.random() * 1e-6, rng.random() * 1e9, -0.5, 3.0])
        if kind == "mix":
            return rng.choice([rng.randint(-9, 9), rng.randint(-9, 9) + .5, 0, 0.0])
        return rng.choice([rng.randint(1, 99), rng.randint(-3, 3), 10 ** 12])
    density = rng.choice([0, .15, .5, .5, .9, 1])

    def rec(s):
        if not s:
            return val() if rng.random() < density else default
        if rng.random() < .15 and len(s) < len(shape):
            return full(s, default)
        return [rec(s[1:]) for _ in range(s[0])]
    return rec(shape)


def full(s, v):
    return v if not s else [full(s[1:], v) for _ in range(s[0])]


def pad(nest, shape, default):
    if not shape:
        return nest
    out = [pad(x, shape[1:], default) for x in nest[:shape[0]]]
    return out + [full(shape[1:], default) for _ in range(shape[0] - len(out))]


def same_nest(a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same_nest(x, y) for x, y in zip(a, b))
    return not isinstance(a, (Payload, Fiber)) and a == b


def no_defaults(ctx, f, default, what, depth):
    for pt, p in mon.leaves(f):
        ctx.check(mon.unbox(p) != default, "explicit-default", lambda: f"{what}: default stored at {pt}")

    def rec(g, d):
        for p in g.payloads:
            if mon.is_fiber(p):
                ctx.check(len(p.coords) > 0, "empty-subfiber", f"{what}: an empty fiber is stored")
                rec(p, d + 1)
    rec(f, 0)
    errs = mon.wf_errors(f, depth if f.coords else None)
    ctx.check(not errs, "malformed", lambda: f"{what}: {errs[:3]}")


def unc(ctx, f, want, default, what, **kw):
    before = mon.tree_snap(f)
    got = f.uncompress(**kw)
    ctx.count("uncompress")
    ctx.check(same_nest(got, want), "uncompress", lambda: f"{what}: uncompress({kw}) of {mon.show(f)} default {default} "
              f"gave {got}\n  want {want}")
    ctx.check(mon.tree_snap(f) == before, "uncompress-mutates", what)

    # no two positions of the returned nest share a list, and none is the tree's
    seen = set()

    def rec(x):
        if isinstance(x, list):
            ctx.check(id(x) not in seen, "uncompress-aliases", lambda: f"{what}: one list object at two positions of {got}")
            seen.add(id(x))
            for y in x:
                rec(y)
    rec(got)
    return got


def check_nest(ctx, nest, default, ids, give_shape, extra=0):
    shape = dims(nest)
    depth = len(shape)
    want = nest_points(nest, default)
    frozen = copy.deepcopy(nest)
    ctx.key("nest", nest, default)
    ctx.count("nests")
    if not want:
        ctx.count("alldefault_nests")
    if depth >= 3:
        ctx.count("deep_nests")
    if default != 0:
        ctx.count("nonzero_default")
    f = Fiber.fromUncompressed(nest, default=default)
    ctx.check(nest == frozen, "input-changed", "fromUncompressed changed the nest")
    ctx.check(mon.content(f, default) == want, "fiber-content", lambda: f"{mon.show(f)} from {nest} default {default}")
    no_defaults(ctx, f, default, "Fiber.fromUncompressed", depth)
    gs = f.getShape(all_ranks=True)
    gs = gs if isinstance(gs, list) else [gs]
    # the dimensions recorded by the stored fibers
    if want:
        ctx.check(gs == shape, "fiber-shape", lambda: f"fiber shape {gs} for a nest of {shape}: {nest} default {default}")
        unc(ctx, f, nest, default, "fiber, own shape")
    else:
        ctx.check(gs == shape[:len(gs)], "fiber-shape", lambda: f"fiber shape {gs} for an all-default nest of {shape}")
        if depth == 1:
            unc(ctx, f, nest, default, "fiber, own shape")
    unc(ctx, f, nest, default, "fiber", shape=list(shape))
    if extra:
        big = [s + (d + extra) % 3 for d, s in enumerate(shape)]
        unc(ctx, f, pad(nest, big, default), default, "fiber, larger shape", shape=big)
    kw = {"shape": list(shape)} if give_shape else {}
    t = Tensor.fromUncompressed(rank_ids=list(ids), root=nest, default=default, name="nm", **kw)
    ctx.check(nest == frozen, "input-changed", "Tensor.fromUncompressed changed the nest")
    ctx.check(mon.content(t.getRoot(), default) == want, "tensor-content",
              lambda: f"{mon.show(t)} from {nest} default {default}")
    no_defaults(ctx, t.getRoot(), default, "Tensor.fromUncompressed", depth)
    ctx.check(t.getShape() == shape and t.getShape(authoritative=True) == shape, "tensor-shape",
              lambda: f"{t.getShape()} / {t.getShape(authoritative=True)} for {shape}: {nest}")
    ctx.check(t.getRankIds() == list(ids) and t.getName() == "nm", "tensor-ids", lambda: f"{t.getRankIds()} {t.getName()!r}")
    ctx.check(not mon.rank_errors(t), "ranks", lambda: str(mon.rank_errors(t)))
    ctx.check(mon.unbox(t.getDefault()) == default, "tensor-default", lambda: f"{t.getDefault()} for {default}")
    unc(ctx, t.getRoot(), nest, default, "tensor root, own shape")
    unc(ctx, t.getRoot(), nest, default, "tensor root", shape=list(shape))
    if extra:
        big = [s + (d + extra) % 3 for d, s in enumerate(shape)]
        unc(ctx, t.getRoot(), pad(nest, big, default), default, "tensor root, larger shape", shape=big)
        tb = Tensor.fromUncompressed(rank_ids=list(ids), root=nest, default=default, shape=big)
        ctx.check(tb.getShape() == big, "tensor-shape", lambda: f"requested {big}, got {tb.getShape()}")
        unc(ctx, tb.getRoot(), pad(nest, big, default), default, "tensor with larger shape")
    return f, t


def pick_default(rng, p=.35):
    return rng.choice([7, -1, 2.5, 100, 1]) if rng.random() < p else 0


def g_nest(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3, 3, 4])
    shape = [rng.randint(1, 4 if depth > 2 else 6) for _ in range(depth)]
    if rng.random() < .03:
        shape[-1] = 0
        ctx.count("zero_dims")
    default = pick_default(rng)
    kind = rng.choice(["int", "int", "float", "mix"])
    if kind == "float":
        ctx.count("float_nests")
    nest = rand_nest(rng, shape, default, kind)
    ctx.describe(f"nest {nest} default {default}")
    f, t = check_nest(ctx, nest, default, gen.RANKS[:depth], rng.random() < .5, rng.choice([0, 1, 2, 4]))
    # representations of the same content with explicit defaults / empty sub-fibers, formats, metrics on
    if rng.random() < .5:
        ctx.count("interleaved")
        g = t.getRoot()
        for _ in range(rng.randint(1, 4) if all(shape) else 0):
            pt = [rng.randrange(s) for s in shape]
            g.getPayloadRef(*pt[:rng.randint(1, depth)])
        if rng.random() < .5:
            t.setFormat(rng.choice(t.getRankIds()), "U")
        on = rng.random() < .2
        if on:
            Metrics.beginCollect()
        try:
            unc(ctx, g, nest, default, "tensor root with explicit defaults", shape=list(shape))
            if rng.random() < .5:
                unc(ctx, g, nest, default, "tensor root with explicit defaults")
        finally:
            if on:
                Metrics.endCollect()
        h = f.copy() if hasattr(f, "copy") else copy.deepcopy(f)
        unc(ctx, h, nest, default, "copy of the fiber", shape=list(shape))
        unc(ctx, copy.deepcopy(t).getRoot(), nest, default, "deep copy of the tensor")


def g_enum(ctx):
    """every nest of a small shape over {default, v} (and {0, d, v} for a few)"""
    shapes = [(1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 1, 1), (2, 1, 2), (1, 2, 2),
              (2, 2, 1), (2, 2, 2), (1, 3, 2), (1, 2, 1, 2), (2, 1, 2, 1), (2, 1, 1, 2)]
    shape = shapes[ctx.i % len(shapes)]
    default = [0, 7, 1.5][ctx.i // len(shapes) % 3]
    n = 1
    for s in shape:
        n *= s
    for combo in itertools.product((default, 3), repeat=n):
        it = iter(combo)

        def mk(s):
            return next(it) if not s else [mk(s[1:]) for _ in range(s[0])]
        nest = mk(shape)
        ctx.describe(f"enum nest {nest} default {default}")
        check_nest(ctx, nest, default, gen.RANKS[:len(shape)], (sum(combo) // 3) % 2 == 0 if default == 0 else False)
        ctx.count("enum_nests")


def g_transformed_uncompress(ctx):
    """uncompress of any tensor equals the nest model of its content"""
    rng = ctx.rng
    t, info = gen.rand_tensor(rng)
    depth = len(info.shape)
    ctx.describe(f"uncompress {mon.show(t)} {info}")
    for _ in range(rng.randint(0, 2)):
        ops = [o for o in xform.choices(t, rng, len(t.getRankIds()))
               if not any(w in o[0] for w in ("flatten", "updateCoords", "relativeCoords': True"))]
        if len(t.getRankIds()) > 3 or any(isinstance(r, list) for r in t.getRankIds()):
            break
        if any(not isinstance(r, str) or "." in r for r in t.getRankIds()):
            break
        name, th = rng.choice(ops)
        ctx.op(name)
        t = th()
    default = info.default
    cont = mon.content(t.getRoot(), default)
    depth = len(t.getRankIds())
    hi = [max([pt[d] for pt in cont] + [-1]) + 1 for d in range(depth)]
    shape = [max(1, h + rng.choice([0, 0, 1])) for h in hi]
    while True:
        n = 1
        for s in shape:
            n *= s
        if n <= 3000:
            break
        return
    ctx.count("transformed_uncompress")
    ctx.key("tu", mon.show(t), default, shape)
    unc(ctx, t.getRoot(), gen.nest(cont, shape, default), default, "transformed", shape=shape)
    f = t.getRoot().copy(preserve_owner=False)
    if mon.content(f, default) == cont and mon.unbox(f.getDefault()) == default:
        unc(ctx, f, gen.nest(cont, shape, default), default, "unowned copy", shape=shape)
    # a tree rebuilt from the nest is the same content
    if all(shape):
        t2 = Tensor.fromUncompressed(rank_ids=[str(i) for i in range(depth)], root=gen.nest(cont, shape, default),
                                     default=default)
        ctx.check(mon.content(t2.getRoot(), default) == cont, "rebuild", "fromUncompressed(uncompress) differs")


NAMES = ["", "A", "long name", "1", "yes", "null", "a: b", "'q\"", "T+split", "- x", "ünï", " lead", "#c", "~", "0x1", "{}"]


def reload_checks(ctx, t, default, path, why):
    before = mon.full_snap(t)
    root = t.getRoot()
    cont = mon.content(root, default)
    t.dump(path)
    ctx.check(mon.full_snap(t) == before, "dump-mutates", why)
    text = open(path).read()
    outs = [("Tensor.fromYAMLfile", Tensor.fromYAMLfile(path))]
    if t.ranks:
        outs.append(("Tensor(yamlfile)", Tensor(yamlfile=path)))
        if default != 0:
            outs.append(("Tensor(yamlfile, default)", Tensor(yamlfile=path, default=default)))
    else:
        outs.append(("Tensor(yamlfile)", Tensor(yamlfile=path)))
    for how, u in outs:
        w = f"{how} of {why}\n{text[:1500]}"
        ctx.check(mon.content(u.getRoot(), default) == cont, "yaml-content",
                  lambda: f"{mon.show(u)} / {mon.content(u.getRoot(), default)} want {cont}: {w}")
        ctx.check(u.getRankIds() == t.getRankIds(), "yaml-ids", lambda: f"{u.getRankIds()} want {t.getRankIds()}: {w}")
        ctx.check(u.getShape() == t.getShape(), "yaml-shape", lambda: f"{u.getShape()} want {t.getShape()}: {w}")
        ctx.check(u.getName() == t.getName(), "yaml-name", lambda: f"{u.getName()!r} want {t.getName()!r}: {w}")
        ctx.check((u == t) is True or (u == t) == True, "yaml-equal", lambda: f"reloaded tensor compares unequal: {w}")  # noqa
        ctx.check((t == u) == True, "yaml-equal", lambda: f"tensor compares unequal to the reloaded: {w}")  # noqa
        if t.ranks:
            ctx.check(mon.tree_snap(u.getRoot()) == mon.tree_snap(root), "yaml-structure",
                      lambda: f"{mon.show(u)} want {mon.show(t)}: {w}")
            ctx.check(not mon.rank_errors(u), "yaml-ranks", lambda: f"{mon.rank_errors(u)}: {w}")
            ctx.check(mon.unbox(u.getDefault()) == default, "yaml-default", lambda: f"{u.getDefault()} want {default}: {w}")
            if cont:
                ctx.check(u.countValues() == len(cont), "yaml-count", lambda: f"{u.countValues()}: {w}")
        # dumping the reloaded tensor again
        p2 = path + ".2"
        u.dump(p2)
        v = Tensor.fromYAMLfile(p2)
        ctx.check(mon.tree_snap(v.getRoot()) == mon.tree_snap(u.getRoot()) and v.getName() == u.getName()
                  and v.getShape() == u.getShape() and v.getRankIds() == u.getRankIds(), "yaml-twice", w)
        os.unlink(p2)
    ctx.check(mon.full_snap(t) == before, "load-mutates", why)
    os.unlink(path)
    return outs[0][1]


def g_yaml(ctx):
    rng = ctx.rng
    path = os.path.join(ctx.scratch, f"t{ctx.i}.yaml")
    r = rng.random()
    if r < .06:
        ctx.count("yaml_rank0")
        v = rng.choice([0, 1, -4, 2.5, 1e-9, 10 ** 15, 0.1])
        nm = rng.choice(NAMES)
        how = rng.choice(["unc", "set", "pop"])
        if how == "unc":
            t = Tensor.fromUncompressed(root=v, rank_ids=[], name=nm)
        elif how == "pop":
            t = Tensor.makePopulated([], [], initial=v, name=nm)
        else:
            t = Tensor(rank_ids=[], name=nm)
            ref = t.getPayloadRef()
            ref <<= v
        ctx.describe(f"rank-0 {how} {v} {nm!r}")
        ctx.key("r0", v, nm, how)
        ctx.check(t.getName() == nm, "rank0-name", lambda: f"{how}: name {t.getName()!r} want {nm!r}")
        ctx.check(mon.unbox(t.getRoot()) == v, "rank0-value", lambda: f"{how}: {t.getRoot()} want {v}")
        ctx.check(t.getRankIds() == [] and t.getShape() == [], "rank0-shape", how)
        u = reload_checks(ctx, t, 0, path, f"rank-0 {how} {v}")
        ctx.check(mon.unbox(u.getRoot()) == v, "rank0-yaml", lambda: f"{u.getRoot()} want {v}")
        return
    empty = r < .14
    t, info = gen.rand_tensor(rng, name=rng.choice(NAMES), density=0 if empty else None, formats=.1,
                              default=None if rng.random() < .5 else 0)
    default = info.default
    ctx.describe(f"yaml {mon.show(t)} {info}")
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        ids = t.getRankIds()
        if any(isinstance(x, list) for x in ids) or len(ids) > 4:
            break
        ops = xform.choices(t, rng, len(ids))
        ops = [o for o in ops if "updateCoords" not in o[0]]
        if rng.random() < .4:
            ops = [o for o in ops if "flattenRanks" in o[0]] or ops
        name, th = rng.choice(ops)
        ctx.op(name)
        ctx.describe(f"{ctx.desc} . {name}")
        t = th()
        default = mon.unbox(t.getDefault())
    ctx.key("y", mon.show(t), default)
    ctx.count("yaml_tensor")
    if not mon.content(t.getRoot(), default):
        ctx.count("yaml_empty")
    if default != 0:
        ctx.count("yaml_default")
    if any(isinstance(c, tuple) for f in mon.levels(t.getRoot(), len(t.ranks)) if isinstance(f, list)
           for g in f for c in g.coords):
        ctx.count("yaml_tuple")
    reload_checks(ctx, t, default, path, ctx.desc)


def g_yaml_fiber(ctx):
    rng = ctx.rng
    path = os.path.join(ctx.scratch, f"f{ctx.i}.yaml")
    default = pick_default(rng)
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth)
    rt = gen.rand_rt(rng, shape, default, empties=.2, explicit=.2)
    how = rng.choice(["unowned", "owned", "sub", "tuple"])
    if how == "tuple" and depth < 2:
        how = "unowned"
    if how == "unowned":
        f = gen.build(rt, depth, default)
    else:
        t = Tensor.fromFiber(rank_ids=gen.RANKS[:depth], fiber=gen.build(rt, depth, default), shape=shape, default=default)
        if how == "tuple":
            t = t.flattenRanks(depth=0, levels=rng.randint(1, depth - 1), coord_style=rng.choice(["tuple", "pair"]))
        f = t.getRoot()
        if how == "sub" and f.payloads and mon.is_fiber(f.payloads[0]):
            f = rng.choice(f.payloads)
            depth -= 1
    ctx.describe(f"yaml fiber {how} {mon.show(f)} default {default}")
    ctx.key("yf", how, mon.show(f), default)
    ctx.count("yaml_fiber")
    cont = mon.content(f, default)
    before = mon.full_snap(f)
    f.dump(path)
    kw = {} if default == 0 else {"default": default}
    g = Fiber.fromYAMLfile(path, **kw)
    text = open(path).read()
    os.unlink(path)
    ctx.check(mon.tree_snap(g) == mon.tree_snap(f), "yaml-fiber", lambda: f"{mon.show(g)} want {mon.show(f)}\n{text}")
    ctx.check((g == f) == True and (f == g) == True, "yaml-fiber-equal",  # noqa
              lambda: f"reloaded {mon.show(g)} compares unequal to {mon.show(f)} (default {default})")
    ctx.check(g.countValues() == len(cont) and g.isEmpty() == (not cont), "yaml-fiber-count",
              lambda: f"{g.countValues()} {g.isEmpty()} for {cont} default {default}")
    ctx.check(not mon.wf_errors(g), "yaml-fiber-malformed", lambda: str(mon.wf_errors(g)))
    g2 = Fiber.fromYAMLfile  # explicit shape of the caller is honoured
    d = f.fiber2dict()
    ctx.count("dicts")
    h = Fiber.dict2fiber(d)
    ctx.check(mon.tree_snap(h) == mon.tree_snap(f), "dict", lambda: f"{mon.show(h)} want {mon.show(f)}: {d}")
    if default == 0:
        ctx.check((h == f) == True, "dict-equal", lambda: f"{mon.show(h)} vs {mon.show(f)}")  # noqa
    ctx.check(h.fiber2dict() == d, "dict-twice", lambda: f"{h.fiber2dict()} want {d}")
    ctx.check(mon.full_snap(f) == before, "dump-mutates", "dumping or loading changed the fiber")
    if not any(isinstance(c, tuple) for c in f.coords) and \
            not any(isinstance(mon.unbox(p), (tuple, frozenset)) for _, p in mon.leaves(f)):
        k = Fiber.dict2fiber(json.loads(json.dumps(d)))
        ctx.check(mon.tree_snap(k) == mon.tree_snap(f), "dict-json", lambda: f"{mon.show(k)} want {mon.show(f)}")
    # the dictionary is a snapshot: a later change of the fiber does not alter it, nor the other way round
    if how != "tuple" and (depth == 1 or f.getOwner() is not None):
        frozen = copy.deepcopy(d)
        snap = mon.tree_snap(f)
        c = (max(f.coords) if f.coords else 0) + 1
        if depth == 1:
            f.append(c, 5)
        else:
            sub = f.getPayloadRef(c)
            sub.getPayloadRef(*[0] * (depth - 1))
        ctx.check(d == frozen, "dict-aliases", lambda: f"inserting at {c} changed the dictionary form: {d} was {frozen}")
        ctx.check(mon.tree_snap(h) == snap, "dict-aliases", "loaded fiber follows the original")


def fill_points(shape):
    return set(itertools.product(*[range(s) for s in shape]))


def g_random(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth, 1, 5)
    fullmode = rng.random() < .4
    as_list = rng.random() < .4
    default = pick_default(rng, .3)
    if fullmode:
        density = [rng.choice([1, 1.0]) for _ in range(depth)] if as_list else rng.choice([1, 1.0])
    else:
        density = [rng.choice([1.0, .5, .2, 0]) for _ in range(depth)] if as_list else rng.choice([.1, .3, .5, .9, 0, 0.0])
    interval = rng.choice([1, 3, 10, 100])
    seed = rng.choice([0, 1, rng.randrange(10 ** 6)])
    ctx.describe(f"random {shape} {density} interval {interval} seed {seed} default {default}")
    ctx.key("rnd", shape, density, interval, seed, default)
    ctx.count("random")

    def mk():
        random.seed(rng.randrange(10 ** 9))
        for _ in range(rng.randrange(5)):
            random.random()
        return Fiber.fromRandom(list(shape), copy.copy(density), interval, seed=seed, default=default)
    a, b = mk(), mk()
    ctx.check(mon.tree_snap(a) == mon.tree_snap(b), "not-reproducible", lambda: f"{mon.show(a)} vs {mon.show(b)}")
    ids = rng.choice([None, gen.RANKS[:depth]])
    random.seed(rng.random())
    t = Tensor.fromRandom(rank_ids=ids, shape=list(shape), density=copy.copy(density), interval=interval, seed=seed,
                          default=default, name="rr")
    t2 = Tensor.fromRandom(rank_ids=ids, shape=list(shape), density=copy.copy(density), interval=interval, seed=seed,
                           default=default, name="rr")
    ctx.check(mon.tree_snap(t.getRoot()) == mon.tree_snap(t2.getRoot()), "not-reproducible", "tensors differ")
    ctx.check(mon.tree_snap(t.getRoot()) == mon.tree_snap(a), "not-reproducible",
              lambda: f"tensor {mon.show(t)} vs fiber {mon.show(a)}")
    ctx.check(t.getShape(authoritative=True) == shape and t.getName() == "rr", "random-shape", lambda: f"{t.getShape()}")
    ctx.check(not mon.rank_errors(t), "random-ranks", lambda: str(mon.rank_errors(t)))
    for f in (a, t.getRoot()):
        errs = mon.wf_errors(f, depth if f.coords else None)
        ctx.check(not errs, "random-malformed", lambda: str(errs))
        for g in mon.levels(f, depth)[depth - 1]:
            ctx.check(mon.unbox(g.getDefault()) == default, "random-default",
                      lambda: f"a leaf fiber has default {g.getDefault()}, asked for {default}")
        for pt, p in mon.leaves(f):
            ctx.check(len(pt) == depth and all(isinstance(c, int) and 0 <= c < s for c, s in zip(pt, shape)),
                      "random-outside", lambda: f"point {pt} outside {shape}")
            v = mon.unbox(p)
            ctx.check(1 <= v <= interval or (v == 0 and default != 0), "random-value", lambda: f"{v} at {pt}")
        if fullmode:
            ctx.count("random_full")
            have = set(pt for pt, p in mon.leaves(f))
            missing = fill_points(shape) - have
            if not 1 <= default <= interval:
                ctx.check(not missing, "random-not-full", lambda: f"missing {sorted(missing)[:5]} of {shape}")
                ctx.check(set(mon.content(f, default)) == fill_points(shape), "random-not-full", "explicit defaults")
        if density in (0, 0.0) and default == 0:
            ctx.check(not mon.content(f, default), "random-not-empty", lambda: mon.show(f))
    c = Fiber.fromRandom(list(shape), copy.copy(density), interval, seed=seed + 1, default=default)
    if not fullmode:
        return
    # a sizeable full random tree differs for another seed
    n = 1
    for s in shape:
        n *= s
    if n >= 12 and interval >= 10 and default == 0:
        ctx.check(mon.tree_snap(a) != mon.tree_snap(c), "random-ignores-seed", "two seeds gave the same full tensor")


def g_populated(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 3])
    shape = gen.rand_shape(rng, depth, 1, 4)
    init = rng.choice([0, 1, 5, -2.5])
    default = rng.choice([0, 5, 1, None])
    kw = {} if default is None and rng.random() < .5 else {"default": default}
    t = Tensor.makePopulated(gen.RANKS[:depth], list(shape), initial=init, **kw)
    ctx.describe(f"makePopulated {shape} {init} {kw}")
    ctx.key("pop", shape, init, str(kw))
    ctx.count("populated")
    want = {} if init == default else {p: init for p in fill_points(shape)}
    ctx.check(mon.content(t.getRoot(), default) == want, "populated", lambda: f"{mon.show(t)} want {want}")
    ctx.check(t.getShape(authoritative=True) == shape and t.isMutable() is True, "populated-shape", "")
    unc(ctx, t.getRoot(), full(shape, init), default, "populated", shape=list(shape))
    # cells are independent although the seed nest shares its rows
    if want:
        pt = tuple(rng.randrange(s) for s in shape)
        ref = t.getPayloadRef(*pt)
        ref <<= 77
        for q in fill_points(shape):
            ctx.check(mon.unbox(t.getPayload(*q)) == (77 if q == pt else init), "populated-shared", f"{q} after write at {pt}")


GENERATORS = {
    "nest": (g_nest, 3500, 60000),
    "enum": (g_enum, 57, 57),
    "transformed": (g_transformed_uncompress, 1500, 20000),
    "yaml": (g_yaml, 3600, 40000),
    "yaml_fiber": (g_yaml_fiber, 1600, 20000),
    "random": (g_random, 1600, 20000),
    "populated": (g_populated, 400, 4000),
}
