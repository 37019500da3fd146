"""C04: co-iteration operators against coordinate-set truth tables computed from raw walks."""
import itertools
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

gen.EXOTIC = True

RULE = ("pairs, tuples and expressions of fibers (owned/unowned, compressed/uncompressed ranks, leaf and interior "
        "levels, explicit defaults, empty sub-fibers, stale saved positions, set active ranges, tuple coordinates of "
        "mixed arity); the delivered sequence is compared element by element, payloads by object identity, with the "
        "set expression evaluated on raw walks; operands and their tensors are snapshotted. Non-trivial: distinct "
        "(operator, operand trees) cases")
FLOORS = {"op:&": 1500, "op:|": 1500, "op:^": 1500, "op:-": 1500, "nary:and": 800, "nary:or": 800, "leader": 800,
          "mixed": 400, "u_rank": 1500, "empty_operand": 500, "identity": 10000, "absent_default": 3000,
          "nested": 1000, "expr": 1000, "exhaustive": 3000, "updates": 500, "stale_saved": 300, "alias_operand": 100}
ASSUMPTIONS = ["unowned interior fibers used as the absent side hold at least one sub-fiber (otherwise the depth of "
               "their default is unknown)", "both operands are ordered with unique coordinates"]

ABSENT = object()


class Opnd:
    """A fiber with the facts its oracle needs."""

    def __init__(self, f, levels, default, owned, top=None):
        self.f, self.levels, self.default, self.owned, self.top = f, levels, default, owned, top

    def fmt(self):
        return self.f.getRankAttrs().getFormat()

    def pres(self):
        if self.fmt() == "C":
            return mon.present(self.f, self.default)
        lo, hi = self.active()
        d = dict(zip(self.f.coords, self.f.payloads))
        return [(c, d.get(c, ABSENT)) for c in range(lo, hi)]

    def active(self):
        given = mon.active_set(self.f)
        if given:
            return given
        s = self.f.getRankAttrs().getShape()
        if not s:
            s = (max(self.f.coords) + 1) if self.f.coords else 0
        return 0, s

    def has_default(self):
        return self.levels == 1 or self.owned or bool(self.f.coords)

    def ids(self):
        return {id(x) for x in _all(self.f)}


def _all(f):
    yield f
    for p in f.payloads:
        if isinstance(p, Fiber):
            yield from _all(p)
        else:
            yield p


# ---- expression oracle --------------------------------------------------
# spec: ("leafobj", Opnd, payload-or-ABSENT) | ("tup", [spec...]) | ("or", mask, [spec, spec])

def ev(node):
    """[(coord, spec)], default spec"""
    k = node[0]
    if k == "f":
        o = node[1]
        return [(c, ("p", o, p)) for c, p in o.pres()], ("p", o, ABSENT)
    if k == "shift":
        e, d = ev(node[1])
        return [(c + node[2], s) for c, s in e], d
    a, da = ev(node[1])
    b, db = ev(node[2])
    A, B = dict(a), dict(b)
    if k == "&":
        return [(c, ("tup", [A[c], B[c]])) for c in sorted(set(A) & set(B))], ("tup", [da, db])
    if k == "|":
        out = []
        for c in sorted(set(A) | set(B)):
            m = ("A" if c in A else "") + ("B" if c in B else "")
            out.append((c, ("tup", [m, A.get(c, da), B.get(c, db)])))
        return out, ("tup", ["", da, db])
    if k == "^":
        out = []
        for c in sorted(set(A) ^ set(B)):
            out.append((c, ("tup", ["A" if c in A else "B", A.get(c, da), B.get(c, db)])))
        return out, ("tup", ["", da, db])
    if k == "-":
        return [(c, A[c]) for c in sorted(set(A) - set(B))], da
    raise ValueError(k)


def mk(node):
    k = node[0]
    if k == "f":
        return node[1].f
    if k == "shift":
        return mk(node[1]).project(lambda c, s=node[2]: c + s)
    a, b = mk(node[1]), mk(node[2])
    return a & b if k == "&" else a | b if k == "|" else a ^ b if k == "^" else a - b


def show(node):
    if node[0] == "f":
        o = node[1]
        return f"{'T' if o.owned else 'F'}{o.fmt()}{mon.show(o.f)}"
    if node[0] == "shift":
        return f"({show(node[1])} shifted {node[2]})"
    return f"({show(node[1])} {node[0]} {show(node[2])})"


def match(ctx, spec, got, what, fresh):
    if isinstance(spec, str):
        ctx.check(mon.unbox(got) == spec, "mask", lambda: f"{what}: mask {got!r} expected {spec!r}")
        return
    if spec[0] == "tup":
        g = mon.unbox(got)
        ctx.check(isinstance(g, tuple) and len(g) == len(spec[1]), "payload shape", lambda: f"{what}: {got!r}")
        for s, x in zip(spec[1], g):
            match(ctx, s, x, what, fresh)
        return
    _, o, p = spec
    if p is not ABSENT:
        ctx.count("identity")
        ctx.check(got is p, "payload is not the operand's stored payload", lambda: f"{what}: {got!r} vs {p!r}")
        return
    ctx.count("absent_default")
    if o.levels == 1:
        ctx.check(isinstance(got, Payload) and mon.unbox(got) == o.default, "absent side is not the default",
                  lambda: f"{what}: {got!r}, default {o.default}")
    else:
        ctx.check(isinstance(got, Fiber) and not got.coords, "absent side is not an empty fiber",
                  lambda: f"{what}: {got!r}")
    ctx.check(id(got) not in o.ids(), "absent default is an object of the tree", what)
    ctx.check(id(got) not in {id(x) for x in fresh}, "absent default is shared between elements", what)
    fresh.append(got)


def check(ctx, node, depth=0):
    what = show(node)
    exp, _ = ev(node)
    lazy = mk(node)
    for rep in range(2):
        got = []
        fresh = []
        for el in lazy:
            c, p = el
            got.append((c, p))
        ctx.check([c for c, _ in got] == [c for c, _ in exp], "coordinates",
                  lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _ in exp]}")
        for (c, p), (_, s) in zip(got, exp):
            match(ctx, s, p, f"{what} at {c}", fresh)
        if ctx.rng.random() < .5:
            break
    return got, exp


# ---- operands -----------------------------------------------------------
def operand(ctx, levels, hi=7, u=0.25, shapes=None, dens=None):
    rng = ctx.rng
    shape = shapes or [gen.size(rng, 1, hi, long=30 if levels < 3 else 14)] + gen.rand_shape(rng, levels - 1, 1, 4)
    default = gen.rand_default(rng, .2)
    rt = gen.rand_rt(rng, shape, default, density=dens)
    if rng.random() < .08:
        rt = []
    owned = rng.random() < .5
    root = gen.build(rt, levels, default, shape if rng.random() < .7 else None, rng.choice(["leaf", "fiber"]))
    if owned:
        extra = rng.random() < .3
        if extra and levels < 3:
            # the operand is an interior fiber of a bigger tensor
            t = Tensor.fromFiber(gen.RANKS[:levels + 1], Fiber([0, 2], [root, gen.build(
                gen.rand_rt(rng, shape, default), levels, default)]), shape=[4] + shape, default=default)
            f = t.getRoot().payloads[0]
            ids = t.getRankIds()[1:]
        else:
            t = Tensor.fromFiber(gen.RANKS[:levels], root, shape=shape if rng.random() < .7 else None,
                                 default=default)
            f = t.getRoot()
            ids = t.getRankIds()
        if rng.random() < u:
            t.setFormat(ids[0], "U")
        if levels > 1 and rng.random() < u:
            t.setFormat(ids[1], "U")
        top = t
    else:
        f, top = root, root
        if rng.random() < u and (levels == 1 or f.coords):
            f.getRankAttrs().setFormat("U")
    if rng.random() < .15:
        lo = rng.randint(0, shape[0])
        f.setActive((lo, rng.randint(lo, shape[0])))
    if not f.coords:
        ctx.count("empty_operand")
    o = Opnd(f, levels, default, owned, top)
    if o.fmt() == "U":
        ctx.count("u_rank")
    if f.coords and rng.random() < .2:
        f.setSavedPos(rng.randrange(len(f.coords)))
        ctx.count("stale_saved")
    return o


def snaps(ops):
    return [mon.full_snap(o.top) for o in ops]


def untouched(ctx, ops, before, what):
    for o, b in zip(ops, before):
        now = mon.full_snap(o.top)
        ctx.check(now == b, "operand changed", lambda: f"{what}\n before {b}\n after  {now}")


def need_default(op, a, b):
    return op in "|^" and not (a.has_default() and b.has_default())


def pair(ctx):
    rng = ctx.rng
    levels = rng.choice([1, 1, 2, 3])
    a = operand(ctx, levels)
    b = operand(ctx, levels)
    if rng.random() < .06:
        b = a
        ctx.count("alias_operand")
    op = rng.choice("&|^-")
    if need_default(op, a, b):
        op = rng.choice("&-")
    node = (op, ("f", a), ("f", b))
    ctx.describe(show(node))
    ctx.count("op:" + op)
    ctx.key(op, mon.tree_snap(a.f), mon.tree_snap(b.f), a.fmt(), b.fmt())
    before = snaps([a, b])
    got, exp = check(ctx, node)
    untouched(ctx, [a, b], before, show(node))
    if levels > 1 and (a.owned and b.owned):
        nested(ctx, op, got, a, b)
        untouched(ctx, [a, b], before, "nested " + show(node))
    elif levels == 1 and op in "&-" and rng.random() < .3:
        # updates through the delivered payloads reach the operands
        ctx.count("updates")
        for c, p in mk(node):
            t = [p] if op == "-" else list(p)
            for o, x in zip([a, b], t):
                want = dict(zip(o.f.coords, o.f.payloads)).get(c, ABSENT)
                if want is ABSENT:
                    continue
                new = mon.unbox(want)
                if isinstance(new, (int, float)):
                    new += 100
                    x += 100
                else:
                    new = ("new", c)
                    x <<= new
                stored = o.f.payloads[o.f.coords.index(c)]
                ctx.check(stored is want and mon.same(mon.unbox(stored), new), "update is lost",
                          lambda: f"{show(node)} at {c}: {stored!r}, expected {new!r}")


def nested(ctx, op, got, a, b):
    """Descend: delivered sub-fibers (stored or fresh defaults) co-iterate correctly themselves."""
    if op == "-":
        return
    for c, p in got:
        t = mon.unbox(p)
        pa, pb = (t[0], t[1]) if op == "&" else (t[1], t[2])
        x = Opnd(pa, a.levels - 1, a.default, True, a.top)
        y = Opnd(pb, b.levels - 1, b.default, True, b.top)
        sub, _ = check(ctx, (op, ("f", x), ("f", y)))
        ctx.count("nested")
        if a.levels > 2:
            nested(ctx, op, sub, x, y)


def exhaustive(ctx):
    """all pairs of leaf fibers over 3 coordinates (absent / explicit default / value), all four operators"""
    i, j = divmod(ctx.i, 27)
    i %= 27
    default = ctx.rng.choice([0, 5])
    own = ctx.rng.random() < .5
    fmts = ctx.rng.choice(["CC", "CC", "CU", "UC", "UU"])

    def one(k, v0, fmt):
        rt = gen.enum_fiber(3, k, default, v0)
        f = gen.build(rt, 1, default, [3])
        top = f
        if own:
            top = Tensor.fromFiber(["K"], f, shape=[3], default=default)
            f = top.getRoot()
        f.getRankAttrs().setFormat(fmt)
        return Opnd(f, 1, default, own, top)
    a, b = one(i, 10, fmts[0]), one(j, 20, fmts[1])
    before = snaps([a, b])
    for op in "&|^-":
        node = (op, ("f", a), ("f", b))
        ctx.describe(show(node))
        check(ctx, node)
        ctx.count("exhaustive")
        ctx.key(op, i, j, fmts, own, default)
    untouched(ctx, [a, b], before, "exhaustive")


def nary(ctx):
    rng = ctx.rng
    n = rng.randint(2, 5)
    levels = rng.choice([1, 1, 2, 3])
    ops = [operand(ctx, levels, 6, dens=rng.choice([None, .8])) for _ in range(n)]
    if rng.random() < .1:
        ops[-1] = ops[0]
        ctx.count("alias_operand")
    kind = rng.choice(["and", "or", "leader"])
    if kind != "and" and not all(o.has_default() for o in (ops if kind == "or" else ops[1:])):
        kind = "and"
    what = f"{kind} {[show(('f', o)) for o in ops]}"
    ctx.describe(what)
    ctx.key(kind, [mon.tree_snap(o.f) for o in ops], [o.fmt() for o in ops])
    before = snaps(ops)
    run_nary(ctx, kind, ops, what, rng)
    untouched(ctx, ops, before, what)


def run_nary(ctx, kind, ops, what, rng):
    pres = [dict(o.pres()) for o in ops]
    fs = [o.f for o in ops]
    if kind == "and":
        ctx.count("nary:and")
        lazy = Fiber.intersection(*fs) if rng.random() < .5 else Fiber.intersection(*fs, style="two-finger")
        coords = sorted(set.intersection(*map(set, pres)))
        want = [(c, [("p", o, p[c]) for o, p in zip(ops, pres)]) for c in coords]
    elif kind == "or":
        ctx.count("nary:or")
        lazy = Fiber.union(*fs)
        coords = sorted(set.union(*map(set, pres)))
        want = [(c, ["".join(chr(65 + i) for i, p in enumerate(pres) if c in p)] +
                 [("p", o, p.get(c, ABSENT)) for o, p in zip(ops, pres)]) for c in coords]
    else:
        ctx.count("leader")
        lazy = Fiber.intersection(*fs, style="leader-follower")
        want = []
        for c in sorted(pres[0]):
            ps = [("p", ops[0], pres[0][c])]
            for o in ops[1:]:
                raw = dict(zip(o.f.coords, o.f.payloads))
                ps.append(("p", o, raw.get(c, ABSENT)))
            want.append((c, ps))
    for rep in range(2):
        got = []
        for c, p in lazy:
            got.append((c, p))
            if rng.random() < .1 and rep == 0 and kind == "leader":
                o = rng.choice(ops)         # a body that moves somebody's saved position
                if o.f.coords:
                    o.f.getPayload(o.f.coords[-1], start_pos=0)
        ctx.check([c for c, _ in got] == [c for c, _ in want], "n-ary coordinates",
                  lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _ in want]}")
        fresh = []
        for (c, p), (_, specs) in zip(got, want):
            t = mon.unbox(p)
            ctx.check(isinstance(t, tuple) and len(t) == len(specs), "n-ary payload tuple is not flat",
                      lambda: f"{what} at {c}: {p!r}")
            for s, x in zip(specs, t):
                match(ctx, s, x, f"{what} at {c}", fresh)
    if ops[0].levels > 1 and all(o.owned for o in ops):
        for c, p in got:
            t = [x for x in mon.unbox(p) if isinstance(x, Fiber)]
            sub = [Opnd(x, o.levels - 1, o.default, True, o.top) for x, o in zip(t, ops)]
            ctx.count("nested")
            run_nary(ctx, kind, sub, f"nested at {c}: {[show(('f', o)) for o in sub]}", rng)


def expr(ctx):
    """expressions over lazily produced operands"""
    rng = ctx.rng
    levels = rng.choice([1, 1, 1, 2])
    leavesn = rng.randint(3, 4)
    ops = [operand(ctx, levels, 6) for _ in range(leavesn)]
    if not all(o.has_default() for o in ops):
        ops = [operand(ctx, 1, 6) for _ in range(leavesn)]

    def build(lo, hi):
        if hi - lo == 1:
            n = ("f", ops[lo])
            if rng.random() < .15:
                n = ("shift", n, rng.randint(1, 2))
            return n
        mid = rng.randint(lo + 1, hi - 1)
        return (rng.choice("&|^-"), build(lo, mid), build(mid, hi))
    node = build(0, leavesn)
    ctx.describe(show(node))
    ctx.key(show(node))
    ctx.count("expr")
    before = snaps(ops)
    check(ctx, node)
    untouched(ctx, ops, before, show(node))


def mixed(ctx):
    """tuple coordinates of different arity match on the common prefix"""
    rng = ctx.rng
    la, lb = rng.choice([(1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2)])
    default = gen.rand_default(rng, .2)

    def one(l):
        pts = sorted({tuple(rng.randrange(3) for _ in range(l)) for _ in range(rng.randint(0, 7))})
        vals = [default if rng.random() < .15 else rng.randint(20, 90) for _ in pts]
        cs = [p[0] if l == 1 else p for p in pts]
        f = Fiber(cs, vals, default=default)
        top = f
        if rng.random() < .4:
            top = Tensor.fromFiber(["K"], f, default=default)
            f = top.getRoot()
        return Opnd(f, 1, default, top is not f, top)
    a, b = one(la), one(lb)
    what = f"{mon.show(a.f)} & {mon.show(b.f)}"
    ctx.describe(what)
    ctx.count("mixed")
    ctx.key(what)
    tup = lambda c: c if isinstance(c, tuple) else (c,)
    n = min(la, lb)
    want = []
    for (ca, pa), (cb, pb) in itertools.product(mon.present(a.f, default), mon.present(b.f, default)):
        if tup(ca)[:n] == tup(cb)[:n]:
            want.append((ca if la >= lb else cb, pa, pb))
    want.sort(key=lambda x: tup(x[0]))
    before = snaps([a, b])
    got = [(c, p) for c, p in a.f & b.f]
    ctx.check([c for c, _ in got] == [c for c, _, _ in want], "mixed-arity coordinates",
              lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _, _ in want]}")
    for (c, p), (_, pa, pb) in zip(got, want):
        x, y = mon.unbox(p)
        ctx.check(x is pa and y is pb, "mixed-arity payloads", lambda: f"{what} at {c}")
        ctx.count("identity")
    untouched(ctx, [a, b], before, what)


GENERATORS = {"exhaustive": (exhaustive, 2187, 7290), "pair": (pair, 30000, 300000), "nary": (nary, 12000, 120000),
              "expr": (expr, 10000, 120000), "mixed": (mixed, 4000, 30000)}
