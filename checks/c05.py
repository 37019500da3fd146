"""C05: populate offers exactly the source's coordinates and keeps only what the body wrote."""
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

gen.EXOTIC = True
from checks import c04

RULE = ("populate loops (single, repeated, nested, reducing, over lazy co-iteration sources, with start positions) run "
        "with random bodies; each delivered element is judged against the set expression of the source and the "
        "destination's raw state, and the final raw destination tree against a dict overridden by the body's writes. "
        "Non-trivial: distinct (destination tree, source expression, body script) runs")
FLOORS = {"looked_at": 1500, "loops": 10000, "elements": 30000, "writes": 15000, "left_default": 5000, "nested_loops": 3000,
          "new_refs": 8000, "existing_refs": 4000, "untouched_coords": 3000, "u_rank": 1000, "lazy_source": 2000,
          "start_pos": 300, "exhaustive": 700, "erased": 800, "wf_checks": 20000}
ASSUMPTIONS = ["the body writes the destination only through the references it is handed",
               "an already stored sub-fiber that the body empties may stay or go",
               "an unowned destination has one level (an unowned interior fiber does not know how deep it is)"]

LOOPS = 0


class Dest:
    def __init__(self, ctx, levels, shape=None):
        rng = ctx.rng
        self.ctx, self.levels = ctx, levels
        self.default = gen.rand_default(rng, .25)
        self.shape = shape or gen.rand_shape(rng, levels, 2, 6)
        rt = [] if rng.random() < .3 else gen.rand_rt(rng, self.shape, self.default)
        self.tensor = None
        if rng.random() < .75 or levels > 1:
            self.tensor = Tensor.fromFiber(gen.RANKS[:levels], gen.build(rt, levels, self.default),
                                           shape=self.shape, default=self.default)
            self.tensor.setMutable(True)
            if rng.random() < .1:
                self.tensor.setFormat(gen.RANKS[rng.randrange(levels)], "U")
            self.root = self.tensor.getRoot()
        else:
            self.root = gen.build(rt, levels, self.default, self.shape)
        self.model = {pt: mon.unbox(b) for pt, b in mon.leaves(self.root)}

    def verify(self, what):
        self.ctx.count("wf_checks")
        errs = mon.wf_errors(self.root, self.levels)
        if errs:
            self.ctx.fail("destination malformed", f"{what}: {errs[:3]} {mon.show(self.root)}")
        if self.tensor is not None:
            errs = mon.rank_errors(self.tensor)
            if errs:
                self.ctx.fail("destination's ranks", f"{what}: {errs[:3]} {mon.show(self.root)}")


def source(ctx, levels, hi=7):
    rng = ctx.rng
    k = rng.random()
    if k < .6 or levels > 2:
        o = c04.operand(ctx, levels, hi)
        return ("f", o), [o]
    ops = [c04.operand(ctx, levels, hi) for _ in range(2)]
    if not all(o.has_default() for o in ops):
        o = c04.operand(ctx, levels, hi)
        return ("f", o), [o]
    ctx.count("lazy_source")
    n = (rng.choice("&|^-"), ("f", ops[0]), ("f", ops[1]))
    if rng.random() < .2:
        n = ("shift", n, 1)
    return n, ops


def fibers_of(x):
    """fibers inside a delivered source payload"""
    v = mon.unbox(x)
    if isinstance(v, tuple):
        return [y for y in v if isinstance(y, Fiber)]
    return [v] if isinstance(v, Fiber) else []


def loop(ctx, d, z, node, level, prefix, allow_break=False, repeat=None):
    rng = ctx.rng
    what = f"{prefix}: {mon.show(z)} << {c04.show(node)}"
    exp, _ = c04.ev(node)
    leaf = level == d.levels - 1
    before = dict(zip(z.coords, z.payloads))
    before_vals = {c: (mon.unbox(p) if leaf else None) for c, p in before.items()}
    offered = set()
    kw = {}
    src = c04.mk(node)
    if repeat is not None:
        it = repeat
    elif exp and rng.random() < .1:
        ok = [0] + [i for i in range(1, len(z.coords) + 1) if z.coords[i - 1] < exp[0][0]]
        kw = {"start_pos": rng.choice(ok)}
        ctx.count("start_pos")
        it = z.__lshift__(src, **kw)
    else:
        it = z << src
    ctx.count("loops")
    if level:
        ctx.count("nested_loops")
    n = 0
    fresh = []
    seen = []
    for el in it:
        c, (zr, ar) = el
        ctx.check(n < len(exp) and exp[n][0] == c, "offered coordinates",
                  lambda: f"{what} {kw}: element {n} is {c}, expected {[e[0] for e in exp]}")
        c04.match(ctx, exp[n][1], ar, f"{what} at {c}", fresh)
        n += 1
        seen.append(c)
        ctx.count("elements")
        pos = z.coords.index(c) if c in z.coords else None
        ctx.check(pos is not None and z.payloads[pos] is zr, "reference does not alias the destination",
                  lambda: f"{what} at {c}: {zr!r} {z.coords}")
        if c in before:
            ctx.count("existing_refs")
            ctx.check(zr is before[c], "existing payload was replaced", lambda: f"{what} at {c}")
        else:
            ctx.count("new_refs")
        if leaf:
            pt = prefix + (c,)
            cur = d.model.get(pt, d.default)
            ctx.check(isinstance(zr, Payload) and mon.unbox(zr) == cur, "reference shows the wrong value",
                      lambda: f"{what} at {c}: {zr!r} expected {cur}")
            body_leaf(ctx, d, zr, ar, pt, cur)
            if mon.unbox(zr) == d.default:
                ctx.count("left_default")
                if c in before and before_vals[c] != d.default:
                    ctx.count("erased")
        else:
            ctx.check(isinstance(zr, Fiber), "reference is not a fiber", lambda: f"{what} at {c}: {zr!r}")
            got = {p: mon.unbox(b) for p, b in mon.leaves(zr)}
            want = {p[level + 1:]: v for p, v in d.model.items() if p[:level + 1] == prefix + (c,)}
            ctx.check(got == want, "reference shows the wrong sub-fiber", lambda: f"{what} at {c}: {got} vs {want}")
            body_inner(ctx, d, zr, ar, level, prefix + (c,))
        offered.add(c)
        if rng.random() < .25:
            d.verify(f"inside {what} at {c}")
        if allow_break and rng.random() < .05:
            return None
    ctx.check(n == len(exp), "offered coordinates", lambda: f"{what} {kw}: {seen} expected {[e[0] for e in exp]}")
    # what is left
    now = dict(zip(z.coords, z.payloads))
    for c, p in before.items():
        if c not in offered:
            ctx.count("untouched_coords")
            ctx.check(now.get(c) is p, "coordinate outside the source was disturbed", lambda: f"{what}: {c} now {now}")
    for c in offered:
        if leaf:
            v = d.model.get(prefix + (c,), d.default)
            if v == d.default:
                ctx.check(c not in now, "default left behind", lambda: f"{what}: {c} in {mon.show(z)}")
                d.model.pop(prefix + (c,), None)
            else:
                ctx.check(c in now and mon.unbox(now[c]) == v, "write lost",
                          lambda: f"{what}: {c} expected {v} in {mon.show(z)}")
        elif c not in before and c in now:
            ctx.check(len(now[c].coords) > 0, "empty sub-fiber left behind", lambda: f"{what}: {c} in {mon.show(z)}")
    for c in now:
        ctx.check(c in before or c in offered, "invented coordinate", lambda: f"{what}: {c}")
    sub = {prefix + p: mon.unbox(b) for p, b in mon.leaves(z)}
    want = {p: v for p, v in d.model.items() if p[:level] == prefix}
    ctx.check({k: v for k, v in sub.items() if v != d.default} == {k: v for k, v in want.items() if v != d.default},
              "content after the loop", lambda: f"{what}: {sub} expected {want}")
    d.verify("after " + what)
    for k in [k for k in d.model if k[:level] == prefix and k not in sub]:
        del d.model[k]
    for k, v in sub.items():
        d.model[k] = v
    return it


def body_leaf(ctx, d, zr, ar, pt, cur):
    rng = ctx.rng
    k = rng.randrange(9)
    a = mon.unbox(ar)
    scal = gen.num(a)
    box = isinstance(ar, Payload) and not (isinstance(a, tuple) and any(isinstance(x, (Payload, Fiber)) for x in a))
    num = gen.num(cur)
    if k == 0:
        v = rng.randint(200, 300)
        zr <<= v
    elif k == 1 and box:
        v = a
        zr <<= ar
    elif k == 2 and scal and num:
        v = cur + a
        zr += ar
    elif k == 3:
        v = d.default
        zr <<= d.default
    elif k == 4 and num:
        v = cur + 1
        zr += 1
    elif k == 5 and num:
        v = cur * 2
        zr *= 2
    elif k == 6 and fibers_of(ar):
        # reduction over the source's remaining ranks
        f = fibers_of(ar)[0]
        v = cur
        for c, x in f:
            if isinstance(x, Payload) and gen.num(v) and gen.num(x.value):
                v = v + x.value
                zr += x
    elif k == 7:
        zr <<= rng.randint(200, 300)
        zr <<= d.default
        v = d.default
    else:
        return
    ctx.count("writes")
    d.model[pt] = v


def body_inner(ctx, d, zr, ar, level, prefix):
    rng = ctx.rng
    k = rng.randrange(10)
    fs = fibers_of(ar)
    if k < 5 and fs:
        f = fs[0]
        lv = 1
        g = f
        while g.coords and isinstance(g.payloads[0], Fiber):
            lv, g = lv + 1, g.payloads[0]
        default = g.getDefault()
        default = mon.unbox(default)
        if isinstance(default, (int, float)):
            o = c04.Opnd(f, lv, default, f.getOwner() is not None, f)
            loop(ctx, d, zr, ("f", o), level + 1, prefix)
    elif k < 8:
        node, _ = source(ctx, rng.choice([1, 1, d.levels - level - 1]), 5)
        loop(ctx, d, zr, node, level + 1, prefix)
        if rng.random() < .2:
            node, _ = source(ctx, 1, 5)
            loop(ctx, d, zr, node, level + 1, prefix)
    elif k == 8 and d.tensor is not None:
        pt = tuple(rng.randrange(s) for s in d.shape[level + 1:])
        r = zr.getPayloadRef(*pt)
        if rng.random() < .4:
            # only looked at: the value is what it was
            ctx.check(mon.unbox(r) == d.model.get(prefix + pt, d.default), "reference shows the wrong value", lambda: f"{prefix + pt}: {r!r}")
            d.model.setdefault(prefix + pt, d.default)
            ctx.count("looked_at")
            return
        r <<= 77
        d.model[prefix + pt] = 77
        ctx.count("writes")


def run(ctx):
    rng = ctx.rng
    levels = rng.choice([1, 1, 2, 2, 3])
    d = Dest(ctx, levels)
    ctx.describe(f"default {d.default} shape {d.shape} {'owned' if d.tensor else 'unowned'} {mon.show(d.root)}")
    for i in range(rng.randint(1, 3)):
        if d.tensor is None and any(not f.coords for fs in mon.levels(d.root, levels)[:-1] for f in fs):
            break
        node, ops = source(ctx, rng.choice([1, levels, levels]))
        ctx.key(mon.tree_snap(d.root), c04.show(node), levels, ctx.rng.random())
        ctx.op("<<", c04.show(node))
        before = c04.snaps(ops)
        brk = rng.random() < .1 and i > 0
        z = d.root
        if brk:
            it = loop(ctx, d, z, node, 0, (), allow_break=True)
            d.verify("after break")
            c04.untouched(ctx, ops, before, "broken loop")
            break
        it = loop(ctx, d, z, node, 0, ())
        c04.untouched(ctx, ops, before, "source of " + c04.show(node))
        if rng.random() < .1 and it is not None:
            # the same lazy fiber again
            if not (d.tensor is None and any(not f.coords for fs in mon.levels(d.root, levels)[:-1] for f in fs)):
                loop2 = z << c04.mk(node)
                loop(ctx, d, z, node, 0, (), repeat=loop2)
                loop(ctx, d, z, node, 0, (), repeat=loop2)


def exhaustive(ctx):
    """every destination x source over 3 coordinates, every per-coordinate write choice (skip / default / value)"""
    rng = ctx.rng
    i, j = divmod(ctx.i, 27)
    i %= 27
    for default in (0, 5):
        zt = gen.enum_fiber(3, i, default, 10)
        at = gen.enum_fiber(3, j, 0, 20)
        offered = [c for c, v in at if v != 0]
        import itertools
        for script in itertools.product((0, 1, 2, 3), repeat=len(offered)):
            t = Tensor.fromFiber(["K"], gen.build(zt, 1, default), shape=[3], default=default)
            z = t.getRoot()
            a = gen.build(at, 1, 0, [3])
            model = dict(zt)
            seen = []
            for (c, (zr, ar)), s in zip(z << a, script + (0,)):
                seen.append(c)
                ctx.check(mon.unbox(zr) == model.get(c, default), "reference shows the wrong value",
                          lambda: f"{zt} << {at} {script} at {c}")
                if s == 1:
                    zr <<= default
                    model[c] = default
                elif s == 2:
                    zr <<= 99
                    model[c] = 99
                elif s == 3:
                    zr += 1
                    model[c] = model.get(c, default) + 1
            ctx.check(seen == offered, "offered coordinates", lambda: f"{zt} << {at}: {seen}")
            want = [(c, v) for c, v in sorted(model.items()) if not (c in offered and v == default)]
            ctx.check(mon.raw(z) == want, "destination after the loop",
                      lambda: f"{zt} << {at} default {default} script {script}: {mon.raw(z)} expected {want}")
            ctx.check(mon.raw(a) == at, "source changed", "")
            ctx.key(i, j, script, default)
    ctx.describe(f"all scripts for {gen.enum_fiber(3, i)} << {gen.enum_fiber(3, j)}")
    ctx.count("exhaustive")


GENERATORS = {"exhaustive": (exhaustive, 729, 729), "run": (run, 25000, 300000)}
