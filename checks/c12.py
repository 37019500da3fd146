"""C12: equality, emptiness and counting are functions of the content."""
import copy
from fibertree import Fiber, Tensor, Payload, Metrics
from lib import gen, mon, xform

gen.EXOTIC = True

RULE = ("families of trees with the same / nearly the same content in different representations (explicit defaults, empty "
        "sub-fibers at any level, shapes, ownership, formats, order of construction, transforms) are compared pairwise; "
        "oracle: equality of independently extracted content dictionaries. Plus emptiness, counting and pruned copies of "
        "every tree and sub-tree, and exhaustive pairs of small trees. Non-trivial: distinct (pair of representations)")
FLOORS = {"pairs": 50000, "equal_pairs": 15000, "unequal_pairs": 12000, "one_leaf_apart": 3000, "triples": 3000,
          "explicit": 5000, "empty_subs": 4000, "tensor_pairs": 5000, "counts": 20000, "nonempty": 8000,
          "nonzero_default": 1200, "formats": 2000, "deepcopies": 4000, "enum_pairs": 6000, "rank0": 200,
          "unordered": 300, "under_metrics": 200, "mixed_default": 300, "tuple_coords": 400}
ASSUMPTIONS = ["each tree's content is relative to its own leaf default", "an unowned tree's depth is that of its stored "
               "sub-fibers; compared trees have the same depth"]


def represent(ctx, content, depth, default, kinds=None):
    """one of many representations of a content -> (object to compare, fiber, tensor or None, tag)"""
    rng = ctx.rng
    shape = [max([pt[d] for pt in content] + [0]) + 1 + rng.choice([0, 0, 1, 3]) for d in range(depth)]
    tag = []

    def rec(sub, d):
        out = []
        kids = {}
        for pt, v in sub.items():
            kids.setdefault(pt[0], {})[pt[1:]] = v
        p_exp = exp
        for c in range(shape[d]):
            if c in kids:
                out.append((c, kids[c][()] if d == depth - 1 else rec(kids[c], d + 1)))
            elif rng.random() < p_exp:
                if d == depth - 1:
                    out.append((c, default))
                    tag.append("explicit")
                else:
                    # an empty sub-tree: no elements at all, or only defaults / empty fibers below
                    out.append((c, rec({}, d + 1) if rng.random() < .6 else []))
                    tag.append("empty")
        return out
    exp = rng.choice([0, .15, .4])
    rt = rec(content, 0)
    kind = rng.choice(kinds or ["fiber", "fiber", "fiberclass", "tensor", "tensor", "written", "uncompressed", "transform"])
    if kind in ("fiber", "fiberclass"):
        f = gen.build(rt, depth, default, shape if rng.random() < .5 else None, "fiber" if kind == "fiberclass" else "leaf")
        if rng.random() < .1:
            f = copy.deepcopy(f)
        return f, f, None, tag + [kind]
    ids = gen.RANKS[:depth]
    if kind == "uncompressed":
        t = Tensor.fromUncompressed(rank_ids=list(ids), root=gen.nest(content, shape, default), shape=list(shape),
                                    default=default)
    elif kind == "written":
        t = Tensor(rank_ids=list(ids), shape=list(shape) if rng.random() < .5 else None, default=default)
        pts = list(content.items())
        rng.shuffle(pts)
        for pt, v in pts:
            r = t.getPayloadRef(*pt)
            r <<= v
        for _ in range(rng.randint(0, 2)):
            pt = tuple(rng.randrange(s) for s in shape)
            t.getPayloadRef(*pt[:rng.randint(1, depth)])
            tag.append("explicit")
    else:
        f = gen.build(rt, depth, default)
        t = Tensor.fromFiber(rank_ids=list(ids), fiber=f, shape=list(shape) if rng.random() < .6 else None, default=default)
        if kind == "transform":
            w = rng.choice(["swizzle", "flat", "split", "prune"])
            if w == "swizzle" and depth > 1:
                perm = list(ids)
                rng.shuffle(perm)
                t = t.swizzleRanks(perm).swizzleRanks(list(ids))
            elif w == "flat" and depth > 1:
                t = t.flattenRanks().unflattenRanks()
                if t.getRankIds() != ids:
                    t.setRankIds(list(ids))
            elif w == "prune":
                t = Tensor.fromFiber(rank_ids=list(ids), fiber=t.getRoot().nonEmpty(), default=default)
            tag.append(w)
    if rng.random() < .2:
        t.setFormat(rng.choice(ids), "U")
        tag.append("U")
    if rng.random() < .5:
        return t.getRoot(), t.getRoot(), t, tag + [kind]
    return t, t.getRoot(), t, tag + [kind, "tensor-object"]


def tally(ctx, tags):
    if "explicit" in tags:
        ctx.count("explicit")
    if "empty" in tags:
        ctx.count("empty_subs")
    if "U" in tags:
        ctx.count("formats")


def eq(ctx, a, b, want, what):
    r, s = (a == b), (b == a)
    ctx.check(type(r) is bool and type(s) is bool, "equality is not a truth value", lambda: f"{what}: {r!r} {s!r}")
    ctx.check(r == want, "equality disagrees with the contents",
              lambda: f"{what}: == gives {r}, contents {'equal' if want else 'differ'}\n {mon.show(a)}\n {mon.show(b)}")
    ctx.check(s == want, "equality is not symmetric", lambda: f"{what}: {r} but reversed {s}\n {mon.show(a)}\n {mon.show(b)}")
    ctx.check((a != b) == (not want) and (b != a) == (not want), "!= disagrees with ==", lambda: what)
    ctx.count("pairs")
    ctx.count("equal_pairs" if want else "unequal_pairs")


def aspects(ctx, f, default, owner_kind):
    """isEmpty, countValues, nonEmpty of every sub-tree versus the extracted content"""
    todo = [(f, True)]
    while todo:
        g, _ = todo.pop()
        c = mon.content(g, default)
        before = mon.full_snap(g)
        e, n = g.isEmpty(), g.countValues()
        ctx.check(e == (not c), "emptiness disagrees with the content", lambda: f"isEmpty {e}: {mon.show(g)} default {default}")
        ctx.check(n == len(c), "value count disagrees with the content", lambda: f"countValues {n} != {len(c)}: {mon.show(g)}")
        n1 = g.countValues(recursive=False)
        want1 = len(mon.present(g, default))
        ctx.check(n1 == want1, "value count disagrees with the content",
                  lambda: f"countValues(recursive=False) {n1} != {want1}: {mon.show(g)}")
        ctx.check(Payload.isEmpty(g) == (not c), "emptiness disagrees with the content", lambda: mon.show(g))
        ctx.count("counts")
        h = g.nonEmpty()
        bad = [pt for pt, p in mon.leaves(h) if mon.unbox(p) == default]
        ctx.check(mon.content(h, default) == c, "pruned copy has different content", lambda: f"{mon.show(g)} -> {mon.show(h)}")
        ctx.check(not bad, "pruned copy has explicit defaults", lambda: f"{mon.show(g)} -> {mon.show(h)}")
        empt = []
        stack = [(h, True)]
        while stack:
            k, top = stack.pop()
            if not top and not k.coords:
                empt.append(k)
            stack += [(p, False) for p in k.payloads if mon.is_fiber(p)]
        ctx.check(not empt, "pruned copy has empty sub-fibers", lambda: f"{mon.show(g)} -> {mon.show(h)}")
        ctx.check(h == g and g == h, "pruned copy does not compare equal", lambda: f"{mon.show(g)} -> {mon.show(h)}")
        if c:
            # (an empty result of unknown depth has no depth of its own)
            ctx.check(h.isEmpty() is False and h.countValues() == len(c), "pruned copy counts differently",
                      lambda: f"{mon.show(g)} -> {mon.show(h)} {h.countValues()}")
            d0 = [k for k in _all(h) if not any(mon.is_fiber(p) for p in k.payloads)]
            ctx.check(all(mon.unbox(k.getDefault()) == default for k in d0), "pruned copy loses the default",
                      lambda: f"{mon.show(g)} default {default} -> {[k.getDefault() for k in d0]}")
        else:
            ctx.check(h.isEmpty() and not h.coords, "pruned copy has empty sub-fibers", lambda: mon.show(h))
        errs = mon.wf_errors(h)
        ctx.check(not errs, "malformed pruned copy", lambda: str(errs))
        ctx.count("nonempty")
        ctx.check(mon.full_snap(g) == before, "observation changed the tree", lambda: mon.show(g))
        d = copy.deepcopy(g)
        ctx.check(d == g and g == d, "a deep copy does not compare equal", lambda: mon.show(g))
        ctx.check(g == g, "equality is not reflexive", lambda: mon.show(g))
        ctx.count("deepcopies")
        todo += [(p, False) for p in g.payloads if mon.is_fiber(p)]


def _all(f):
    out = [f]
    for p in f.payloads:
        if mon.is_fiber(p):
            out += _all(p)
    return out


def perturb(rng, content, depth, default):
    """a content differing in exactly one point (value changed, removed or added)"""
    c = dict(content)
    how = rng.choice(["change", "drop", "add", "move"])
    if how in ("change", "drop", "move") and c:
        pt = rng.choice(sorted(c))
        if how == "change":
            v = c[pt]
            while v == c[pt] or v == default:
                v = rng.choice([v + 1, v - 1, v * -1, v + 0.5, v * 2 + 1] if gen.num(v) else [f"{v}", (v,), 7, (0, 0), ""])
            c[pt] = v
        else:
            v = c.pop(pt)
            if how == "move":
                q = list(pt)
                k = rng.randrange(depth)
                q[k] += 1
                if tuple(q) in c:
                    c.pop(tuple(q))
                c[tuple(q)] = v
    else:
        pt = tuple(rng.randint(0, 5) for _ in range(depth))
        v = c.get(pt, default)
        v = v + 1 if gen.num(v) else 77
        if v == default:
            v += 1
        c[pt] = v
    return c


def rand_content(rng, depth, default):
    shape = gen.rand_shape(rng, depth, 1, 4)
    return gen.rt_content(gen.rand_rt(rng, shape, default, gen.Vals(rng, default), explicit=0), default)


def family(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3, 3])
    default = gen.rand_default(rng)
    c0 = rand_content(rng, depth, default) if rng.random() < .9 else {}
    c1 = perturb(rng, c0, depth, default)
    contents = [c0, c0, c1] + ([rand_content(rng, depth, default)] if rng.random() < .4 else [c0])
    if default != 0:
        ctx.count("nonzero_default")
    metrics = rng.random() < .05
    reps = [represent(ctx, c, depth, default) for c in contents]
    ctx.describe(" || ".join(f"{mon.show(r[0])}{r[3]}" for r in reps) + f" default={default}")
    for (x, f, t, tags), c in zip(reps, contents):
        tally(ctx, tags)
        ctx.check(mon.content(f, default) == c, "construction lost content", lambda: f"{tags}: {mon.show(x)} vs {c}")
    if metrics:
        Metrics.beginCollect()
        ctx.count("under_metrics")
    try:
        n = len(reps)
        for i in range(n):
            for j in range(i, n):
                a, b = reps[i], reps[j]
                want = contents[i] == contents[j]
                if isinstance(a[0], Tensor) and isinstance(b[0], Tensor):
                    eq(ctx, a[0], b[0], want, f"tensors {a[3]} / {b[3]}")
                    ctx.count("tensor_pairs")
                eq(ctx, a[1], b[1], want, f"fibers {a[3]} / {b[3]}")
                if not want and i < 3 and j < 3:
                    ctx.count("one_leaf_apart")
                ctx.key(mon.show(a[0]), mon.show(b[0]), a[3], b[3])
        ctx.count("triples", n * (n - 1) * (n - 2) // 6)
        x, f, t, tags = reps[rng.randrange(n)]
        aspects(ctx, f, default, t)
        if t is not None:
            c = mon.content(f, default)
            ctx.check(t.countValues() == len(c), "value count disagrees with the content", lambda: mon.show(t))
            d = copy.deepcopy(t)
            ctx.check(d == t and t == d and t == t, "a deep copy does not compare equal", lambda: mon.show(t))
            ctx.check(d.countValues() == len(c), "a deep copy counts differently", lambda: mon.show(t))
            if rng.random() < .3:
                u = copy.deepcopy(t)
                u.setName("other")
                u.setColor("blue")
                u.setMutable(True)
                ctx.check(u == t, "names or hints influence equality", lambda: mon.show(t))
                other = list(t.getRankIds())
                for i in rng.sample(range(depth), rng.choice([1, depth])):
                    other[i] = "X%d" % i
                u.setRankIds(other)
                ctx.check(u != t and not (u == t), "tensors with different rank ids compare equal", lambda: mon.show(t))
    finally:
        if metrics:
            Metrics.endCollect()


def mixed_default(ctx):
    """trees with different leaf defaults: each side's content is what differs from its own default"""
    rng = ctx.rng
    depth = rng.choice([1, 2])
    d0, d1 = rng.sample([0, 7, -1, 2.5], 2)
    c = {pt: v for pt, v in rand_content(rng, depth, d0).items() if v != d1}
    a = represent(ctx, c, depth, d0, ["fiber", "tensor"])
    c2 = dict(c)
    if rng.random() < .5 and depth:
        pt = tuple(rng.randint(0, 4) for _ in range(depth))
        c2[pt] = d0 if d0 != d1 else 99
    b = represent(ctx, c2, depth, d1, ["fiber", "tensor"])
    ctx.describe(f"{mon.show(a[0])} default {d0} / {mon.show(b[0])} default {d1}")
    ca, cb = mon.content(a[1], d0), mon.content(b[1], d1)
    eq(ctx, a[1], b[1], ca == cb, "mixed defaults")
    ctx.count("mixed_default")
    aspects(ctx, a[1], d0, None)
    aspects(ctx, b[1], d1, None)


def mutate_back(ctx):
    """equality follows mutation: write, compare, write back, compare"""
    rng = ctx.rng
    t, ti = gen.rand_tensor(rng)
    depth = len(ti.shape)
    u = copy.deepcopy(t)
    ctx.describe(f"mutate/back {mon.show(t)} {ti}")
    for _ in range(4):
        pt = tuple(rng.randrange(s) for s in ti.shape)
        old = mon.unbox(t.getPayload(*pt))
        r = t.getPayloadRef(*pt)
        new = rng.choice([ti.default, 5001, 3.5, old])
        r <<= new
        eq(ctx, t, u, mon.content(t.getRoot(), ti.default) == mon.content(u.getRoot(), ti.default), f"after write {pt} {new}")
        c = mon.content(t.getRoot(), ti.default)
        ctx.check(t.countValues() == len(c) and t.getRoot().isEmpty() == (not c), "counting does not follow mutation",
                  lambda: f"{t.countValues()} {mon.show(t)}")
        r <<= old
        eq(ctx, t, u, True, f"after writing back {pt} {old}")
        ctx.count("tensor_pairs", 2)
        ctx.count("deepcopies")


def enum_tree(i, depth, default=0):
    """i-th tree with 2 coordinates per level: leaf fiber 3^2, depth 2: (absent | fiber)^2"""
    if depth == 1:
        return gen.enum_fiber(2, i, default)
    n = 9 if depth == 2 else 100
    out = []
    for c in range(2):
        i, k = divmod(i, n + 1)
        if k:
            out.append((c, enum_tree(k - 1, depth - 1, default)))
    return out


def enum_pairs(ctx):
    """exhaustive pairs: depth 1 (9 x 9), depth 2 (100 x 100)"""
    i = ctx.i
    if i == 0:
        trees = [(enum_tree(k, 1), 1) for k in range(9)]
        pairs = [(a, b) for a in trees for b in trees]
    else:
        a = (enum_tree(i - 1, 2), 2)
        pairs = [(a, (enum_tree(k, 2), 2)) for k in range(100)]
    ctx.describe(f"enumerated pairs, first {pairs[0]}")
    own = ctx.i % 2
    for (ra, d), (rb, _) in pairs:
        a, b = gen.build(ra, d), gen.build(rb, d)
        if own:
            a = Tensor.fromFiber(rank_ids=gen.RANKS[:d], fiber=a).getRoot()
        ca, cb = mon.content(a), mon.content(b)
        # equality, including the case where each side equals but for explicit defaults
        eq(ctx, a, b, ca == cb, "enumerated")
        ctx.count("enum_pairs")
        ctx.key(ra, rb)
    aspects(ctx, gen.build(pairs[0][0][0], pairs[0][0][1]), 0, None)


def enum_deep(ctx):
    """depth 3 over one coordinate at the top and two below: all trees against a near copy"""
    k = ctx.i
    rng = ctx.rng
    rt = [(0, enum_tree(k % 100, 2))] + ([(1, enum_tree(rng.randrange(100), 2))] if rng.random() < .5 else [])
    f = gen.build(rt, 3)
    for _ in range(6):
        rt2 = [(c, enum_tree(rng.randrange(100), 2)) if rng.random() < .3 else (c, x) for c, x in rt]
        if rng.random() < .3:
            rt2.append((2, rng.choice([[], [(0, [])], [(1, [(0, 0)])], [(0, [(0, 3)])]])))
        g = gen.build(rt2, 3)
        ctx.describe(f"{rt} / {rt2}")
        eq(ctx, f, g, gen.rt_content(rt) == gen.rt_content(rt2), "enumerated deep")
        ctx.count("enum_pairs")
        ctx.key(rt, rt2)
    aspects(ctx, f, 0, None)


def special(ctx):
    rng = ctx.rng
    w = rng.choice(["rank0", "unordered", "tuple", "other", "values"])
    if w == "rank0":
        v, x = rng.choice([0, 1, 2.5, -3]), rng.choice([0, 1, 2.5, -3])
        a, b = Tensor(rank_ids=[], name="a"), Tensor(rank_ids=[], name="b")
        r, s = a.getRoot(), b.getRoot()
        r <<= v
        s <<= x
        ctx.describe(f"rank-0 {v} {x}")
        eq(ctx, a, b, v == x, "rank-0 tensors")
        ctx.check(copy.deepcopy(a) == a, "a deep copy does not compare equal", "rank 0")
        ctx.count("rank0")
    elif w == "unordered":
        n = rng.randint(0, 5)
        cs = rng.sample(range(9), n)
        vs = [rng.choice([0, 1, 2, 3]) for _ in cs]
        f = Fiber(list(cs), list(vs), ordered=False)
        perm = list(range(n))
        rng.shuffle(perm)
        vs2 = list(vs)
        if n and rng.random() < .4:
            vs2[rng.randrange(n)] += 1
        g = Fiber([cs[i] for i in perm], [vs2[i] for i in perm], ordered=False)
        o = sorted(range(n), key=lambda i: cs[i])
        h = Fiber([cs[i] for i in o], [vs2[i] for i in o])
        ctx.describe(f"unordered {mon.show(f)} {mon.show(g)}")
        want = mon.content(f) == mon.content(g)
        eq(ctx, f, g, want, "unordered")
        eq(ctx, f, h, want, "unordered/ordered")
        eq(ctx, g, h, True, "unordered/ordered")
        ctx.check(f.isEmpty() == (not mon.content(f)) and f.countValues() == len(mon.content(f)),
                  "value count disagrees with the content", lambda: mon.show(f))
        ctx.count("unordered")
    elif w == "tuple":
        t, ti = gen.rand_tensor(rng, depth=rng.choice([2, 3]))
        u = copy.deepcopy(t)
        pt = tuple(rng.randrange(s) for s in ti.shape)
        if rng.random() < .5:
            r = u.getPayloadRef(*pt)
            r <<= rng.choice([ti.default, 777])
        want = mon.content(t.getRoot(), ti.default) == mon.content(u.getRoot(), ti.default)
        ctx.describe(f"flattened {mon.show(t)} {mon.show(u)}")
        a, b = t.flattenRanks(), u.flattenRanks()
        eq(ctx, a, b, want, "flattened tensors")
        eq(ctx, a.getRoot(), b.getRoot(), want, "flattened fibers")
        aspects(ctx, a.getRoot(), ti.default, a)
        ctx.count("tuple_coords")
        ctx.count("tensor_pairs")
    elif w == "other":
        f = gen.build(gen.rand_rt(rng, [4]), 1)
        ctx.describe(f"{mon.show(f)} against non-fibers")
        for x in (None, 0, 5, "a", [], Payload(0), (1, 2)):
            ctx.check((f == x) is False and (f != x) is True, "a fiber equals something that is not a fiber", repr(x))
        a = f.prune(lambda i, c, p: True)
        ctx.check(a == f and f == a, "a lazy fiber does not equal its eager form", lambda: mon.show(f))
    else:
        # values of other types
        vs = [1, 1.0, 2, 2.5, (1, 2), "x", (1, 3), "y", True]
        a, b = rng.choice(vs), rng.choice(vs)
        f, g = Fiber([1], [a]), Fiber([1], [b])
        ctx.describe(f"{a!r} {b!r}")
        eq(ctx, f, g, a == b, "leaf values")


GENERATORS = {
    "family": (family, 8000, 140000),
    "mixed_default": (mixed_default, 700, 10000),
    "mutate_back": (mutate_back, 1500, 25000),
    "enum_pairs": (enum_pairs, 101, 101),
    "enum_deep": (enum_deep, 600, 9000),
    "special": (special, 3000, 40000),
}
