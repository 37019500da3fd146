"""Random and enumerated fibertrees.  A *raw tree* (rt) is a nested list [(coord, child)], leaves are scalars."""
import itertools
from fibertree import Fiber, Tensor, Payload
from lib import mon


LONG = 0.04         # how often one dimension is long: code that works in chunks, or gives up a search, after k steps


HUGE = 0.008        # how often one dimension goes beyond that: past the sizes buffers, masks and fast paths are made for


def rand_shape(rng, depth, lo=1, hi=6):
    shape = [rng.randint(lo, hi) for _ in range(depth)]
    if 0 < depth < 4 and hi >= 4 and rng.random() < HUGE:
        shape = [min(x, 3 if depth < 3 else 2) for x in shape]
        shape[rng.randrange(depth)] = rng.randint(60, (280, 140, 80)[depth - 1]) if depth > 1 or rng.random() < .7 else rng.randint(400, 1500)
    elif depth and hi >= 4 and rng.random() < LONG:
        shape[rng.randrange(depth)] = rng.randint(9, (48, 36, 20, 12, 10, 10)[depth - 1])
    return shape


def size(rng, lo, hi, p=LONG, long=24):
    if rng.random() < p:
        return rng.randint(hi + 1, long) if rng.random() < .8 else rng.randint(long + 1, 5 * long)
    return rng.randint(lo, hi)


EXOTIC = False      # set by checks whose operations do no arithmetic: some trees hold strings, tuples, sets, bools


def no_exotic(fn):
    """the generator does arithmetic: numbers only"""
    def wrapped(ctx):
        global EXOTIC
        old, EXOTIC = EXOTIC, False
        try:
            return fn(ctx)
        finally:
            EXOTIC = old
    wrapped.__name__ = fn.__name__
    return wrapped


def num(v):
    return isinstance(v, (int, float))


def merge_kw(x):
    """a merge function for trees whose values cannot be added up"""
    if all(num(mon.unbox(p)) for _, p in mon.leaves(x.getRoot() if hasattr(x, "getRoot") else x)):
        return {}
    return {"merge_fn": lambda ps: frozenset(str(mon.unbox(p)) for p in ps)}


class Vals:
    """Leaf values; unique by default so that a read identifies its write."""

    def __init__(self, rng, default=0, kind=None):
        self.rng, self.default = rng, default
        self.kind = kind or rng.choice(["uniq", "uniq", "small", "float"])
        if EXOTIC and kind is None and rng.random() < .12:
            self.kind = "obj"
        self.n = 10

    def __call__(self):
        while True:
            if self.kind == "uniq":
                self.n += 1
                v = self.n
            elif self.kind == "obj":
                self.n += 1
                n = self.n
                v = self.rng.choice([f"s{n}", "", (n, n + 1), (n,), ("m", (n, 0)), frozenset([n]), True, n, 1.5, (), (0, 0)])
            elif self.kind == "small":
                v = self.rng.randint(-3, 4)
            else:
                v = self.rng.randint(-40, 40) / 4.0
            if v != self.default:
                return v


def same(rng, default):
    """the default, now and then as the equal number of the other type"""
    if type(default) in (int, float) and default == int(default) and rng.random() < .15:
        return float(default) if type(default) is int else int(default)
    return default


def rand_rt(rng, shape, default=0, vals=None, density=None, explicit=0.15, empties=0.15, level=0):
    vals = vals or Vals(rng, default)
    if density is None:
        density = rng.choice([0.2, 0.5, 0.5, 0.8, 1.0]) if shape[0] < 300 else 20 / shape[0]
    out = []
    for c in range(shape[0]):
        if rng.random() >= density:
            continue
        if len(shape) == 1:
            out.append((c, same(rng, default) if rng.random() < explicit else vals()))
        else:
            if rng.random() < empties:
                out.append((c, []))
            else:
                sub = rand_rt(rng, shape[1:], default, vals, density, explicit, empties, level + 1)
                if not sub and empties == 0:
                    continue
                out.append((c, sub))
    return out


def rt_content(rt, default=0, prefix=()):
    d = {}
    for c, x in rt:
        if isinstance(x, list):
            d.update(rt_content(x, default, prefix + (c,)))
        elif x != default:
            d[prefix + (c,)] = x
    return d


def rt_map_coords(rt, fns, level=0):
    """Apply monotone coordinate functions per level."""
    return [(fns[level](c), rt_map_coords(x, fns, level + 1) if isinstance(x, list) else x) for c, x in rt]


def build(rt, depth, default=0, shape=None, idefault="leaf"):
    """Unowned fiber.  idefault: default given to interior fibers ('leaf': leaf default as fromUncompressed does,
    'fiber': the Fiber class)."""
    coords = [c for c, _ in rt]
    s = shape[0] if shape else None
    if depth == 1:
        return Fiber(coords, [x for _, x in rt], default=default, shape=s)
    subs = [build(x, depth - 1, default, shape[1:] if shape else None, idefault) for _, x in rt]
    return Fiber(coords, subs, default=Fiber if idefault == "fiber" else default, shape=s)


RANKS = ["M", "N", "K", "J", "P", "Q"]


class TInfo:
    def __init__(self, rank_ids, shape, default, auth, route):
        self.rank_ids, self.shape, self.default, self.auth, self.route = rank_ids, shape, default, auth, route

    def __repr__(self):
        return f"TInfo(ids={self.rank_ids}, shape={self.shape}, default={self.default}, auth={self.auth}, " \
               f"route={self.route})"


def nest(content, shape, default, prefix=()):
    if len(shape) == 0:
        return content.get(prefix, default)
    return [nest(content, shape[1:], default, prefix + (c,)) for c in range(shape[0])]


def rand_default(rng, p=0.3):
    return rng.choice([7, -1, 2.5, 100]) if rng.random() < p else 0


ROUTES = ["fromFiber", "fromFiber", "fromFiber", "writes", "uncompressed", "deepcopy", "populate"]


def rand_tensor(rng, depth=None, shape=None, default=None, route=None, auth=None, rank_ids=None, explicit=0.15,
                empties=0.15, density=None, vals=None, name=None, formats=0.0):
    """(tensor, TInfo).  The tensor's content is read back with mon.content."""
    depth = depth or (len(shape) if shape else rng.choice([1, 2, 2, 3, 3]))
    shape = shape or rand_shape(rng, depth)
    if default is None:
        default = rand_default(rng)
    rank_ids = rank_ids or RANKS[:depth]
    route = route or rng.choice(ROUTES)
    if auth is None:
        auth = rng.random() < 0.7
    if route in ("writes", "populate"):
        auth = True if route == "populate" else auth
    vals = vals or Vals(rng, default)
    rt = rand_rt(rng, shape, default, vals, density, explicit, empties)
    kw = {"name": name} if name is not None else {}
    if route == "fromFiber" or route == "deepcopy":
        fshape = shape if (not auth and rng.random() < 0.3) else None
        f = build(rt, depth, default, fshape)
        t = Tensor.fromFiber(rank_ids=list(rank_ids), fiber=f, shape=list(shape) if auth else None, default=default,
                             **kw)
        if fshape:
            # fiber-level shapes become the rank's shape
            auth = True if all(x for x in _levels_nonempty(rt, depth)) else auth
        if route == "deepcopy":
            import copy
            t = copy.deepcopy(t)
    elif route == "uncompressed":
        cont = rt_content(rt, default)
        t = Tensor.fromUncompressed(rank_ids=list(rank_ids), root=nest(cont, shape, default), shape=list(shape),
                                    default=default, **kw)
        auth = True
    else:
        t = Tensor(rank_ids=list(rank_ids), shape=list(shape) if auth else None, default=default, **kw)
        pts = list(rt_content(rt, default).items())
        rng.shuffle(pts)
        for pt, v in pts:
            ref = t.getPayloadRef(*pt)
            ref <<= v
        if explicit and rng.random() < 0.5:
            pt = tuple(rng.randrange(s) for s in shape)
            t.getPayloadRef(*pt[:rng.randint(1, depth)])
    for r in rank_ids:
        if rng.random() < formats:
            t.setFormat(r, "U")
    return t, TInfo(list(rank_ids), list(shape), default, auth, route)


def _levels_nonempty(rt, depth):
    lv = [rt]
    out = []
    for _ in range(depth):
        out.append(len(lv) > 0)
        lv = [x for r in lv if isinstance(r, list) for _, x in r]
    return out


def enum_fibers(n, default=0, v0=11):
    """All 3^n leaf-level raw trees over n coordinates: absent / explicit default / value."""
    for combo in itertools.product((0, 1, 2), repeat=n):
        yield [(c, default if k == 1 else v0 + c) for c, k in enumerate(combo) if k]


def enum_fiber(n, idx, default=0, v0=11):
    out = []
    for c in range(n):
        idx, k = divmod(idx, 3)
        if k:
            out.append((c, default if k == 1 else v0 + c))
    return out
