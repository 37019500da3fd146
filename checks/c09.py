"""C09: rank transforms move every point to its image and nothing else."""
import copy
import math
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

gen.EXOTIC = True

RULE = ("random chains of swizzle / swap / flatten / unflatten / merge / split on generated tensors (and the fiber-level "
        "forms on unowned fibers); after each step the raw result tree is compared with the image of the content computed "
        "point by point, and is walked for well-formedness and rank bookkeeping. Non-trivial: distinct (content, "
        "transform) with at least one point")
FLOORS = {"steps": 12000, "swizzle": 1500, "swap": 1200, "flatten_tuple": 1000, "flatten_pair": 500, "flatten_linear": 400,
          "flat_split": 130, "coords_updated": 1000, "payloads_updated": 500, "deep_updates": 700, "unflatten": 500, "merge": 1200, "collisions": 800, "split_flatten": 500, "deep": 1500, "multi_level": 1500,
          "explicit_or_empty": 3000, "empty_tensor": 200, "fiber_level": 2000, "inverse": 1500, "four_ranks": 800,
          "dense_rank": 300, "fiber_collisions": 120}
ASSUMPTIONS = ["a merge function is called on the payloads of the colliding (present) points only, in any order, and is "
               "associative when several levels are merged", "linear flattening requires an authoritative shape",
               "relative merging requires integer coordinates"]

FNS = {"sum": (None, sum), "max": (lambda ps: max(ps), max), "min": (lambda ps: min(ps), min),
       "prod": (lambda ps: _prod(ps), lambda vs: _prod(vs))}
FNS1 = dict(FNS, count=(lambda ps: 1000 + len(ps), lambda vs: 1000 + len(vs)),
            union=(lambda ps: _union([mon.unbox(p) for p in ps]), lambda vs: _union(vs)))


def _prod(xs):
    r = 1
    for x in xs:
        r = x * r
    return r


def _union(vs):
    return frozenset().union(*[v if isinstance(v, frozenset) else {v} for v in vs])


def fns(lv, st):
    """merging several levels goes level by level; an intermediate result equal to the default is absent from the next
    level, so only functions for which that makes no difference are asked for"""
    if not all(gen.num(v) for v in st.content.values()):
        return ["union", "count"] if lv == 1 else ["union"]
    names = sorted(FNS1) if lv == 1 else sorted(FNS) + ["union"] if st.default == 0 else ["max", "min", "union"]
    vals = list(st.content.values())
    if any(isinstance(v, float) for v in vals):
        # the order of the colliding points is not specified: only ask for what floats compute exactly
        if sum(math.log2(max(2, abs(v) * 4)) for v in vals) > 48:
            names = [n for n in names if n != "prod"]
        if sum(abs(v) for v in vals) > 2 ** 40:
            names = [n for n in names if n != "sum"]
    return names


def tup(c):
    return c if isinstance(c, tuple) else (c,)


def combine(cs, style, shape=None):
    if style == "tuple":
        return sum((tup(c) for c in cs), ())
    if style == "pair":
        r = cs[-1]
        for c in reversed(cs[:-1]):
            r = (c, r)
        return r
    if style == "absolute":
        return cs[-1]
    if style == "relative":
        return sum(cs)
    r = cs[0]
    for c, s in zip(cs[1:], shape[1:]):
        r = r * s + c
    return r


class State:
    """the model: content, rank ids, per rank the shape (None when not authoritative) and coordinate kind"""

    def __init__(self, content, ids, shape, auth, default):
        self.content, self.ids, self.shape, self.auth, self.default = content, list(ids), list(shape), auth, default
        self.kind = ["int"] * len(ids)          # int | tuple | pair
        self.safe = [True] * len(ids)           # coordinates within the rank's shape and active range
        self.split = [False] * len(ids)         # rank is the upper half of an absolute split

    def image(self, fn, merge=None):
        out = {}
        for pt, v in sorted(self.content.items(), key=lambda x: x[0]):
            out.setdefault(fn(pt), []).append(v)
        n = sum(1 for vs in out.values() if len(vs) > 1)
        img = {p: (vs[0] if len(vs) == 1 else merge(vs)) for p, vs in out.items()}
        return {p: v for p, v in img.items() if v != self.default}, n


def verify(ctx, t, st, what, level0=0):
    root = t.getRoot()
    n = len(st.ids)
    errs = mon.wf_errors(root, n) + mon.rank_errors(t)
    ctx.check(not errs, "malformed result", lambda: f"{what}: {errs[:3]}\n{mon.show(t)}")
    ctx.check(t.getRankIds() == st.ids, "rank ids", lambda: f"{what}: {t.getRankIds()} expected {st.ids}")
    got = mon.content(root, st.default)
    ctx.check(got == st.content, "content", lambda: f"{what}: got {got}\nexpected {st.content}\n{mon.show(t)}")
    ctx.check(mon.unbox(t.getDefault()) == st.default, "default", lambda: f"{what}: {t.getDefault()}")


def step(ctx, t, st):
    """apply one random transform: (tensor, state, text) or None"""
    rng = ctx.rng
    n = len(st.ids)
    op = rng.choice(["swizzle", "swap", "flatten", "flatten", "unflatten", "unflatten", "merge", "merge", "split"])
    s2 = copy.deepcopy(st)
    if op == "swizzle":
        perm = list(range(n))
        rng.shuffle(perm)
        for a in ("ids", "shape", "kind", "safe"):
            setattr(s2, a, [getattr(st, a)[i] for i in perm])
        s2.split = [False] * n
        s2.content, _ = st.image(lambda p: tuple(p[i] for i in perm))
        what = f"swizzleRanks({s2.ids})"
        ctx.count("swizzle")
        r = t.swizzleRanks(list(s2.ids))
        if rng.random() < .4:
            b = r.swizzleRanks(list(st.ids))
            ctx.count("inverse")
            verify(ctx, b, st, what + " and back")
            ctx.check(b == t, "inverse permutation is not equal to the original", what)
        return r, s2, what
    if n < 2 and op not in ("unflatten", "split"):
        return None
    if op == "swap":
        d = rng.randrange(n - 1)
        for a in ("ids", "shape", "kind", "safe"):
            x = getattr(s2, a)
            x[d], x[d + 1] = x[d + 1], x[d]
        s2.split = [False] * n
        s2.content, _ = st.image(lambda p: p[:d] + (p[d + 1], p[d]) + p[d + 2:])
        what = f"swapRanks({d})"
        ctx.count("swap")
        if d:
            ctx.count("deep")
        r = t.swapRanks(depth=d) if d or rng.random() < .5 else t.swapRanks()
        if rng.random() < .4:
            ctx.count("inverse")
            verify(ctx, r.swapRanks(depth=d), st, what + " twice")
        return r, s2, what
    if op in ("flatten", "merge"):
        d = rng.randrange(n - 1)
        lv = rng.randint(1, min(3, n - 1 - d))
        ks = st.kind[d:d + lv + 1]
        ints = all(k == "int" for k in ks)
        if op == "flatten":
            style = rng.choice(["tuple", "pair", "linear"] if ints else ["tuple"])
            if style == "linear" and not (st.auth and all(st.safe[d:d + lv + 1])):
                style = "tuple"
            if any(k == "pair" for k in ks):
                return None
            if ints and lv == 1 and st.split[d]:
                style = "absolute"
        else:
            if not ints:
                return None
            style = rng.choice(["absolute", "relative"])
        fn = rng.choice(fns(lv, st))
        lib, ref = FNS1[fn]
        sh = st.shape[d:d + lv + 1]
        s2.content, coll = st.image(lambda p: p[:d] + (combine(p[d:d + lv + 1], style, sh),) + p[d + lv + 1:], ref)
        flat = []
        for i in st.ids[d:d + lv + 1]:
            flat += i if isinstance(i, list) else [i]
        s2.ids = st.ids[:d] + [flat] + st.ids[d + lv + 1:]
        if style in ("tuple", "pair"):
            newshape = combine(sh, style)
        elif style == "linear":
            newshape = _prod(sh)
        else:
            newshape = sh[-1] if style == "absolute" else sh[0]
        s2.shape = st.shape[:d] + [newshape] + st.shape[d + lv + 1:]
        k2 = style if style in ("tuple", "pair") else "int"
        if k2 != "int" and any(isinstance(i, list) and k == "int" or k == "opaque" for i, k in zip(st.ids[d:], ks)):
            k2 = "opaque"       # a rank that was merged into integers: unflattening it again is not defined
        s2.kind = st.kind[:d] + [k2] + st.kind[d + lv + 1:]
        s2.safe = st.safe[:d] + [all(st.safe[d:d + lv + 1]) and op == "flatten"] + st.safe[d + lv + 1:]
        s2.split = [False] * len(s2.ids)
        if d:
            ctx.count("deep")
        if lv > 1:
            ctx.count("multi_level")
        what = f"{op}Ranks(depth={d}, levels={lv}, {style}{', ' + fn if op == 'merge' else ''})"
        if op == "flatten":
            ctx.count("split_flatten" if style == "absolute" else "flatten_" + style)
            return t.flattenRanks(depth=d, levels=lv, coord_style=style), s2, what
        ctx.count("merge")
        if coll:
            ctx.count("collisions")
            if d + lv + 1 < n:
                ctx.count("fiber_collisions")
        kw = {} if lib is None else {"merge_fn": lib}
        return t.mergeRanks(depth=d, levels=lv, coord_style=style, **kw), s2, what
    if op == "unflatten":
        cand = [i for i in range(n) if st.kind[i] in ("tuple", "pair")]
        if not cand:
            return None
        d = rng.choice(cand)
        ar = len(st.ids[d])
        lv = rng.randint(1, ar - 1)

        def parts(x):
            out = []
            for _ in range(lv):
                rest = x[1:] if len(x) > 2 else x[1]
                out.append(x[0])
                x = rest
            return tuple(out) + (x,)
        s2.content, _ = st.image(lambda p: p[:d] + parts(p[d]) + p[d + 1:])
        rest = st.ids[d][lv:]
        s2.ids = st.ids[:d] + st.ids[d][:lv] + [rest if len(rest) > 1 else rest[0]] + st.ids[d + 1:]
        s2.shape = st.shape[:d] + list(parts(st.shape[d])) + st.shape[d + 1:]
        s2.kind = st.kind[:d] + ["int"] * lv + [st.kind[d] if len(rest) > 1 else "int"] + st.kind[d + 1:]
        s2.safe = st.safe[:d] + [st.safe[d]] * (lv + 1) + st.safe[d + 1:]
        s2.split = [False] * len(s2.ids)
        if d:
            ctx.count("deep")
        if lv > 1:
            ctx.count("multi_level")
        ctx.count("unflatten")
        what = f"unflattenRanks(depth={d}, levels={lv})"
        return t.unflattenRanks(depth=d, levels=lv), s2, what
    # split, later undone by an absolute flatten
    cand = [i for i in range(n) if st.kind[i] == "int" and st.safe[i]]
    if not cand or n > 5:
        return None
    d = rng.choice(cand)
    k = gen.size(rng, 1, 4, .06, 12)
    s2.content, _ = st.image(lambda p: p[:d] + (p[d] // k * k, p[d]) + p[d + 1:])
    s2.ids = st.ids[:d] + [f"{st.ids[d]}.1", f"{st.ids[d]}.0"] + st.ids[d + 1:]
    s2.shape = st.shape[:d] + [st.shape[d]] * 2 + st.shape[d + 1:]
    s2.kind = st.kind[:d] + ["int"] * 2 + st.kind[d + 1:]
    s2.safe = st.safe[:d] + [True] * 2 + st.safe[d + 1:]
    s2.split = [False] * len(s2.ids)
    s2.split[d] = True
    ctx.count("flat_split", not isinstance(st.ids[d], str))
    what = f"splitUniform({k}, depth={d})"
    r = t.splitUniform(k, depth=d)
    if rng.random() < .4:
        b = r.flattenRanks(depth=d, coord_style="absolute")
        s3 = copy.deepcopy(st)
        s3.ids[d] = [s2.ids[d], s2.ids[d + 1]]
        verify(ctx, b, s3, what + " flattened absolute")
        ctx.check(b.getRoot() == t.getRoot(), "flatten(absolute) does not restore the split", what)
        ctx.count("split_flatten")
        rel = t.splitUniform(k, depth=d, relativeCoords=True).flattenRanks(depth=d, coord_style="relative")
        verify(ctx, rel, s3, what + " relative flattened relative")
        kind = rng.choice(["equal", "unequal", "nonuniform"])
        u = t.splitEqual(k, depth=d) if kind == "equal" else t.splitUnEqual([k, 1], depth=d) if kind == "unequal" else \
            t.splitNonUniform([0, k, k + 2], depth=d)
        verify(ctx, u.flattenRanks(depth=d, coord_style="absolute"), s3, f"{kind} split flattened absolute")
    return r, s2, what


def has_odd(root, default):
    """explicit defaults or empty sub-fibers present"""
    return any(mon.unbox(b) == default for _, b in mon.leaves(root)) or \
        any(isinstance(p, Fiber) and not p.coords for f in _fibers(root) for p in f.payloads)


def _fibers(f):
    yield f
    for p in f.payloads:
        if isinstance(p, Fiber):
            yield from _fibers(p)


def chain(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3, 3, 4, 5])
    shape = gen.rand_shape(rng, depth, 1, 5 if depth < 4 else 3)
    t, ti = gen.rand_tensor(rng, depth, shape, rank_ids=["M", "N", "K", "J", "P"][:depth], density=rng.choice(
        [0, .1, .3, .3, .6, .9]), explicit=rng.choice([0, .2, .6]), empties=rng.choice([0, .2, .5]),
        formats=rng.choice([0, 0, 0, .3]))
    auth = t.getShape(authoritative=True)
    st = State(mon.content(t.getRoot(), ti.default), ti.rank_ids, auth or ti.shape, auth is not None, ti.default)
    ctx.describe(f"{ti} {mon.show(t)}")
    if depth > 3:
        ctx.count("four_ranks")
    if any(t.getFormat(r) == "U" for r in ti.rank_ids):
        ctx.count("dense_rank")
    done = 0
    for _ in range(12):
        if done >= rng.randint(1, 4):
            break
        before = mon.full_snap(t)
        key = mon.tree_snap(t.getRoot())
        odd = has_odd(t.getRoot(), st.default)
        r = step(ctx, t, st)
        if r is None:
            continue
        t2, st2, what = r
        done += 1
        ctx.op(what)
        ctx.count("steps")
        if odd:
            ctx.count("explicit_or_empty")
        if not st.content:
            ctx.count("empty_tensor")
        else:
            ctx.key(key, st.ids, what)
        verify(ctx, t2, st2, f"{what} of {mon.show(t)} shape {st.shape}")
        ctx.check(mon.full_snap(t) == before, "operand changed", what)
        t, st = t2, st2


def fiber_level(ctx):
    """the same transforms called on fibers"""
    rng = ctx.rng
    depth = rng.choice([2, 2, 3, 4])
    shape = gen.rand_shape(rng, depth, 1, 4)
    default = gen.rand_default(rng)
    f = gen.build(gen.rand_rt(rng, shape, default, explicit=rng.choice([0, .4]), empties=rng.choice([0, .4])), depth, default,
                  shape if rng.random() < .6 else None)
    owned = rng.random() < .3
    if owned:
        t = Tensor.fromFiber(gen.RANKS[:depth], f, shape=shape, default=default)
        f = t.getRoot()
    auth = owned or mon.own_attrs(f).getShape() is not None
    snap = mon.full_snap(f)
    st = State(mon.content(f, default), gen.RANKS[:depth], shape, auth, default)
    ctx.describe(f"{mon.show(f)} shape {shape if auth else None} default {default} owned {owned}")
    # the library documents (by test) that swapping an empty fiber is rejected
    k = rng.choice(["swap"] * bool(st.content) + ["flatten", "merge", "flat_unflat"])
    d = rng.randrange(depth - 1)
    lv = rng.randint(1, depth - 1 - d)
    ctx.count("fiber_level")
    if k == "swap":
        got = f.swapRanks()
        want, _ = st.image(lambda p: (p[1], p[0]) + p[2:])
        n = depth
    elif k == "flat_unflat":
        style = rng.choice(["tuple", "pair"])
        g = f.flattenRanks(levels=lv, style=style) if d == 0 else f.flattenRanks(depth=d, levels=lv, style=style)
        if d == 0:
            got = g.unflattenRanks(levels=lv)
        else:
            got = g
            got.unflattenRanksBelow(depth=d - 1, levels=lv)
        want, n = st.content, depth
    else:
        style = rng.choice(["tuple", "pair", "linear"]) if k == "flatten" else rng.choice(["absolute", "relative"])
        if style == "linear" and not (auth and all(mon.levels(f, depth))):
            style = "tuple"
        fn = rng.choice(fns(lv, st))
        lib, ref = FNS1[fn]
        sh = shape[d:d + lv + 1]
        want, _ = st.image(lambda p: p[:d] + (combine(p[d:d + lv + 1], style, sh),) + p[d + lv + 1:], ref)
        n = depth - lv
        if k == "flatten":
            got = f.flattenRanks(depth=d, levels=lv, style=style)
        else:
            got = f.mergeRanks(depth=d, levels=lv, style=style, **({} if lib is None else {"merge_fn": lib}))
        k += " " + style + " " + fn
    what = f"fiber {k} depth {d} levels {lv} of {mon.show(f)}"
    ctx.op(what)
    errs = mon.wf_errors(got, n)
    ctx.check(not errs, "malformed result", lambda: f"{what}: {errs[:3]} {mon.show(got)}")
    c = mon.content(got, default)
    ctx.check(c == want, "content", lambda: f"{what}: got {c} expected {want}")
    ctx.check(mon.full_snap(f) == snap, "operand changed", what)
    if want:
        ctx.key(mon.tree_snap(f), k, d, lv)


def varied(ctx):
    """sub-fibers that declare different shapes: every flattening still keeps every point apart"""
    rng = ctx.rng
    default = gen.rand_default(rng)
    rt = gen.rand_rt(rng, gen.rand_shape(rng, 2, 1, 5), default)
    subs = [Fiber([c for c, _ in x], [v for _, v in x], default=default, shape=max([c for c, _ in x], default=-1) + 1 + rng.randint(0, 3)) for _, x in rt]
    f = Fiber([c for c, _ in rt], subs, default=default, shape=(max([c for c, _ in rt], default=0) + 1))
    style = rng.choice(["linear", "linear", "tuple", "pair"])
    content = mon.content(f, default)
    snap = mon.full_snap(f)
    what = f"flattenRanks({style}) of {mon.show(f)} sub-shapes {[g.getShape(all_ranks=False) for g in subs]}"
    ctx.describe(what)
    got = f.flattenRanks(style=style)
    errs = mon.wf_errors(got, 1)
    ctx.check(not errs, "malformed result", lambda: f"{what}: {errs[:3]}")
    c = mon.content(got, default)
    if style == "linear":
        # one row length, not shorter than any row, places every point
        hi = max([pt[1] for pt in content], default=0) + 1
        sizes = [s for s in range(hi, hi + 12) if {(pt[0] * s + pt[1],): v for pt, v in content.items()} == c]
        ctx.check(sizes, "content", lambda: f"{what}: {c} is no linearisation of {content}")
    else:
        ctx.check(c == {(pt,): v for pt, v in content.items()}, "content", lambda: f"{what}: {c} expected {content}")
    ctx.check(mon.full_snap(f) == snap, "operand changed", what)
    ctx.count("varied_shapes")
    if content:
        ctx.key(mon.tree_snap(f), style, "varied")


def update(ctx):
    """coordinates and payloads rewritten in place, at every depth, in tensors and in bare fibers"""
    rng = ctx.rng
    t, ti = gen.rand_tensor(rng, shape=gen.rand_shape(rng, rng.choice([1, 2, 2, 3, 3, 4]), 1, 4), explicit=rng.choice([0, .3]), empties=rng.choice([0, .3]))
    n = len(ti.rank_ids)
    home = rng.choice(["tensor", "root", "fiber"])
    f = t.getRoot() if home != "fiber" else t.getRoot().copy(preserve_owner=False)
    content = mon.content(f, ti.default)
    ctx.describe(f"{home} {ti} {mon.show(f)}")
    d = rng.randrange(n)
    by = {"rankid": ti.rank_ids[d]} if home != "fiber" and rng.random() < .3 else {"depth": d} if d or rng.random() < .5 else {}
    before = mon.full_snap(t)
    fs = mon.levels(f, n)[d]
    seen = []
    if rng.random() < .6:
        hi = 2 * max([c for x in fs for c in x.coords], default=0) + 2
        k = rng.randint(1, 5)
        name, fn = rng.choice([(f"c+{k}", lambda c: c + k), (f"{hi}-c", lambda c: hi - c), (f"{k}c+1", lambda c: k * c + 1), ("c^1", lambda c: c ^ 1),
                               ("pair", lambda c: (c % 2, c // 2)), ("id", lambda c: c)])
        kw = {"new_shape": (2, hi)} if name == "pair" else {"new_shape": 10 * hi} if rng.random() < .5 else {}
        if rng.random() < .2:
            kw["new_rank_id"] = "X"
        what = f"updateCoords({name}, {by} {kw})"
        calls = [(i, c, id(p)) for x in fs for i, (c, p) in enumerate(zip(x.coords, x.payloads))]

        def cb(i, c, p):
            seen.append((i, c, id(p)))
            return fn(c)
        want = {pt[:d] + (fn(pt[d]),) + pt[d + 1:]: v for pt, v in content.items()}
        call = lambda x: x.updateCoords(cb, **by, **kw)
        ctx.count("coords_updated")
    else:
        if not all(gen.num(v) for v in content.values()) or not gen.num(ti.default):
            return
        what = f"updatePayloads({by})"
        live = lambda p: mon.unbox(p) != ti.default if d == n - 1 else bool(mon.content(p, ti.default))
        calls = [(i, c, id(p)) for x in fs for i, (c, p) in enumerate(zip(x.coords, x.payloads)) if live(p)]

        def up(p, m):
            if m == 0:
                return mon.unbox(p) + 1000
            return Fiber(list(p.coords), [up(x, m - 1) for x in p.payloads], default=ti.default)

        def cb(i, c, p):
            seen.append((i, c, id(p)))
            return up(p, n - 1 - d)
        # explicit defaults inside a sub-fiber that is rewritten become values
        want = {}
        for x, pre in _at(f, d):
            for c, p in zip(x.coords, x.payloads):
                below = [((), p)] if d == n - 1 else mon.leaves(p)
                for pt, v in below:
                    v = mon.unbox(v) + (1000 if live(p) else 0)
                    if v != ti.default:
                        want[pre + (c,) + pt] = v
        call = lambda x: x.updatePayloads(cb, **by)
        ctx.count("payloads_updated")
    ctx.op(what)
    what = f"{home} {what} of {mon.show(f)}"
    if home == "tensor":
        r = call(t)
        ctx.check(mon.full_snap(t) == before, "operand changed", what)
        root = r.getRoot()
        # the callback saw the payloads of the copy
        seen, calls = [x[:2] for x in seen], [x[:2] for x in calls]
    else:
        call(f)
        root, r = f, t if home == "root" else None
    ctx.check(seen == calls, "elements visited", lambda: f"{what}: {seen} expected {calls}")
    errs = mon.wf_errors(root, n) + (mon.rank_errors(r) if r is not None else [])
    ctx.check(not errs, "malformed result", lambda: f"{what}: {errs[:3]} {mon.show(root)}")
    got = mon.content(root, ti.default)
    ctx.check(got == want, "content", lambda: f"{what}: got {got}\nexpected {want}")
    if d:
        ctx.count("deep_updates")
    if content:
        ctx.key(mon.show(t), what)


def _at(f, d, pre=()):
    if d == 0:
        yield f, pre
    else:
        for c, p in zip(f.coords, f.payloads):
            yield from _at(p, d - 1, pre + (c,))


GENERATORS = {"update": (update, 4000, 50000), "varied": (varied, 1500, 20000), "chain": (chain, 30000, 300000), "fiber_level": (fiber_level, 12000, 120000)}
