"""C07: every traversal mode enumerates exactly the slice of content it names."""
from fibertree import Fiber, Tensor, Payload, CoordPayload
from lib import gen, mon

gen.EXOTIC = True
from checks import c04
from checks.c04 import ABSENT, Opnd

RULE = ("fibers (owned/unowned, leaf and interior, compressed/uncompressed, explicit defaults, empty sub-fibers, set active "
        "ranges, tuple coordinates) traversed in every mode, with random ranges, steps, early exits and saved positions; "
        "the yielded sequence is compared by object identity with the slice computed on a raw walk and the tree with its "
        "expected state (unchanged, or exactly the visited absent coordinates inserted). Lazy fibers are traversed "
        "repeatedly, interleaved, clipped and materialised. Non-trivial: distinct (mode, tree, range)")
FLOORS = {"mode:occupancy": 600, "mode:range": 1500, "mode:active": 600, "mode:shape": 600, "mode:activeShape": 600,
          "mode:rangeShape": 1500, "mode:shapeRef": 500, "mode:activeShapeRef": 500, "mode:rangeShapeRef": 1000,
          "mode:default": 800, "mode:reversed": 200, "mode:uncompressed": 200, "u_rank": 2000, "step": 500, "early_exit": 1000,
          "inserted": 2000, "saved_pos": 1500, "saved_chain": 500, "interior": 3000, "yielded": 40000, "co": 2500,
          "co_ref": 800, "co_inserted": 1000, "lazy": 3000, "interleaved": 800, "clipped": 800, "materialised": 1500,
          "project": 3000, "reversing": 1000, "interval": 1500, "nested_lazy": 1000, "prune": 2000, "prune_stop": 300,
          "project_start_pos": 300, "empty_operand": 400, "tuple_coords": 400, "nested_coords": 4000, "get_range": 500}
ASSUMPTIONS = ["a saved position is valid for a traversal when no element before it belongs to the traversed slice",
               "dense modes are used on integer coordinates", "projections are injective and monotone; an interval's bounds "
               "are new coordinates"]


def _big(v):
    return v > 2 if gen.num(v) else bool(v)


def rng_of(f):
    o = f.getRankAttrs()
    return o.getShape()


def ashape(o):
    s = o.f.getRankAttrs().getShape()
    if not s:
        s = o.f.getRankAttrs().getEstimatedShape() if o.owned else None
    return s


def in_range(c, lo, hi):
    return (lo is None or c >= lo) and (hi is None or c < hi)


def same_seq(ctx, got, exp, o, what):
    """exp: [(c, payload or ABSENT)]"""
    ctx.check([c for c, _ in got] == [c for c, _ in exp], "coordinates",
              lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _ in exp]}")
    ctx.count("yielded", len(got))
    fresh = []
    for (c, p), (_, q) in zip(got, exp):
        c04.match(ctx, ("p", o, q), p, f"{what} at {c}", fresh)


def take(ctx, it, k):
    out = []
    for el in it:
        if not isinstance(el, CoordPayload):
            ctx.check(isinstance(el, tuple) and len(el) == 2, "element kind", repr(el))
        c, p = el
        out.append((c, p))
        if k is not None and len(out) >= k:
            break
    return out


def stored(o):
    return list(zip(o.f.coords, o.f.payloads))


def pick_range(rng, o, hi=None):
    hi = hi or max(8, (o.f.getShape(all_ranks=False) or 0) + 2)
    lo = rng.choice([None, rng.randint(-1, hi), rng.randint(-1, hi)])
    up = rng.choice([None, rng.randint(-1, hi + 1), rng.randint(-1, hi + 1)])
    return lo, up


def start_pos_for(rng, o, lo):
    """a valid saved position for a traversal starting at lo (None: everything)"""
    n = len(o.f.coords)
    pres = {id(p) for _, p in mon.present(o.f, o.default)}
    ok = 0
    for i in range(n):
        c, p = o.f.coords[i], o.f.payloads[i]
        ok = i
        if (lo is None or c >= lo) and id(p) in pres:
            break
    if n == 0:
        return None
    return rng.randint(0, ok)


def single(ctx):
    rng = ctx.rng
    levels = rng.choice([1, 1, 2, 3])
    o = c04.operand(ctx, levels, u=.3)
    f = o.f
    if levels > 1:
        ctx.count("interior")
    ctx.describe(f"{'owned' if o.owned else 'unowned'} {o.fmt()} active {o.active()} {mon.show(o.top)} {mon.show(f)}")
    for _ in range(rng.randint(1, 3)):
        one(ctx, o, levels)


def one(ctx, o, levels):
    rng, f = ctx.rng, o.f
    mode = rng.choice(["occupancy", "range", "range", "active", "shape", "activeShape", "rangeShape", "rangeShape", "shapeRef",
                       "activeShapeRef", "rangeShapeRef", "default", "default", "reversed", "uncompressed"])
    if mode in ("shapeRef", "activeShapeRef", "rangeShapeRef") and not o.has_default():
        return
    if mode in ("shape", "activeShape", "rangeShape", "uncompressed", "default") and not o.has_default():
        mode = "occupancy"
    pres = mon.present(f, o.default)
    lo, up = pick_range(rng, o)
    a0, a1 = o.active()
    step = 1
    k = rng.randint(1, 4) if rng.random() < .25 else None
    sp = None
    ref = mode.endswith("Ref")
    shape = f.getShape(all_ranks=False)
    if not rng_of(f):
        # the estimate must at least cover the stored coordinates
        ctx.check(shape >= (max(f.coords) + 1 if f.coords else 0), "estimated shape", f"{shape} {mon.show(f)}")
    before = mon.full_snap(o.top)
    tick = rng.random() < .5
    if mode == "occupancy":
        if rng.random() < .4:
            sp = start_pos_for(rng, o, None)
        mk = lambda: f.iterOccupancy(tick=tick, start_pos=sp) if sp is not None else f.iterOccupancy()
        exp = pres
    elif mode == "range":
        if rng.random() < .5:
            sp = start_pos_for(rng, o, lo)
        bx = (lambda x: Payload(x)) if rng.random() < .3 else (lambda x: x)
        mk = lambda: f.iterRange(lo, up, tick=tick, start_pos=bx(sp)) if sp is not None else f.iterRange(lo, up)
        exp = [(c, p) for c, p in pres if in_range(c, lo, up)]
        if lo is not None and up is not None and not f.getRankAttrs().getFormat() == "U" and rng.random() < .4:
            # the same slice as a fiber of its own
            kw = {} if sp is None or sp and f.coords[sp - 1] >= lo else {"start_pos": sp}
            kw.update({"end_coord": up} if rng.random() < .5 else {"size": up - lo})
            mk, sp = (lambda: iter(f.getRange(lo, **kw))), None
            ctx.count("get_range")
    elif mode == "active":
        if rng.random() < .4:
            sp = start_pos_for(rng, o, a0)
        mk = lambda: f.iterActive(start_pos=sp)
        exp = [(c, p) for c, p in pres if in_range(c, a0, a1)]
    elif mode == "default":
        mk = lambda: iter(f) if rng.random() < .5 else f.__iter__(tick=tick)
        exp = o.pres()
    elif mode == "reversed":
        mk = lambda: reversed(f)
        exp = stored(o)[::-1]
    else:
        if mode in ("shape", "shapeRef", "uncompressed"):
            r = range(0, shape)
        elif mode in ("activeShape", "activeShapeRef"):
            r = range(a0, a1)
        else:
            lo, up = rng.randint(0, 7), rng.randint(0, 9)
            step = rng.choice([1, 1, 2, 3])
            if step > 1:
                ctx.count("step")
            r = range(lo, up, step)
        if mode in ("rangeShape", "rangeShapeRef"):
            fn = f.iterRangeShapeRef if ref else f.iterRangeShape
            mk = lambda: fn(lo, up, step, tick=tick) if rng.random() < .5 or step != 1 else fn(lo, up)
        elif mode == "uncompressed":
            mk = f.iterUncompressed
        else:
            name = "iter" + mode[0].upper() + mode[1:]
            mk = lambda: getattr(f, name)()
        d = dict(stored(o))
        exp = [(c, d.get(c, ABSENT)) for c in r]
    ctx.count("mode:" + mode)
    what = f"{mode} {(lo, up, step) if 'ange' in mode else ''} start_pos {sp} take {k} of {mon.show(f)} active {(a0, a1)} shape {shape} " \
           f"{o.fmt()}"
    ctx.op(what)
    ctx.key(mode, mon.tree_snap(f), lo, up, step, sp, (a0, a1), shape, o.fmt(), k)
    if k is not None and k < len(exp):
        ctx.count("early_exit")
        exp = exp[:k]
    if not ref:
        got = take(ctx, mk(), k)
        same_seq(ctx, got, exp, o, what)
        ctx.check(mon.full_snap(o.top) == before, "traversal changed the tree", what)
        if sp is not None:
            ctx.count("saved_pos")
            if got:
                pos = f.getSavedPos()
                ctx.check(0 <= pos < len(f.coords) and f.coords[pos] == got[-1][0],
                          "saved position is not that of the last element", lambda: f"{what}: {pos}")
                # continue from there
                last = got[-1][0]
                more = take(ctx, f.iterRange(last, None, start_pos=pos), None)
                ctx.count("saved_chain")
                same_seq(ctx, more, [(c, p) for c, p in pres if c >= last], o, what + " continued")
        return
    # reference variants
    old = stored(o)
    got = take(ctx, mk(), k)
    ctx.check([c for c, _ in got] == [c for c, _ in exp], "coordinates",
              lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _ in exp]}")
    ctx.count("yielded", len(got))
    now = dict(zip(f.coords, f.payloads))
    want = sorted(set(c for c, _ in old) | set(c for c, _ in got))
    ctx.check(f.coords == want, "inserted coordinates", lambda: f"{what}: {f.coords} expected {want}")
    for c, p in old:
        ctx.check(now[c] is p, "stored payload replaced", what)
    had = {c for c, _ in old}
    for c, p in got:
        ctx.check(now[c] is p, "reference is not the stored payload", f"{what} at {c}")
        if c not in had:
            ctx.count("inserted")
            if levels == 1:
                ctx.check(type(p) is Payload and p.value == o.default, "inserted value", f"{what} at {c}: {p!r}")
            else:
                ctx.check(isinstance(p, Fiber) and not p.coords, "inserted sub-fiber", f"{what} at {c}: {p!r}")
    root = o.top.getRoot() if isinstance(o.top, Tensor) else o.top
    errs = mon.wf_errors(root, len(o.top.ranks) if isinstance(o.top, Tensor) else levels)
    errs += mon.rank_errors(o.top) if isinstance(o.top, Tensor) else []
    ctx.check(not errs, "malformed tree", f"{what}: {errs[:3]}")


def tuples(ctx):
    """occupancy and range traversal of flattened (tuple-coordinate) fibers"""
    rng = ctx.rng
    s = (rng.randint(1, 4), rng.randint(1, 4))
    default = gen.rand_default(rng)
    vals = gen.Vals(rng, default)
    rt = [((i, j), default if rng.random() < .15 else vals()) for i in range(s[0]) for j in range(s[1]) if rng.random() < .5]
    f = Fiber([c for c, _ in rt], [v for _, v in rt], default=default, shape=s if rng.random() < .7 else None)
    o = Opnd(f, 1, default, False, f)
    pres = mon.present(f, default)
    ctx.count("tuple_coords")
    pt = lambda: rng.choice([None, (rng.randint(0, s[0]), rng.randint(0, s[1]))])
    lo, up = pt(), pt()
    ctx.describe(f"{mon.show(f)} range {lo} {up} shape {s}")
    ctx.key(mon.tree_snap(f), lo, up)
    before = mon.full_snap(f)
    same_seq(ctx, take(ctx, iter(f), None), pres, o, "iter")
    same_seq(ctx, take(ctx, f.iterRange(lo, up), None), [(c, p) for c, p in pres if in_range(c, lo, up)], o, f"range {lo} {up}")
    if f.getRankAttrs().getShape():
        d = dict(stored(o))
        exp = [((i, j), d.get((i, j), ABSENT)) for i in range(s[0]) for j in range(s[1])]
        same_seq(ctx, take(ctx, f.iterUncompressed(), None), exp, o, "uncompressed")
    # projection onto one coordinate of the tuple within one row
    row = rng.randrange(s[0])
    k = rng.randint(0, 5)
    iv = ((row, 0), (row + 1, 0))
    kw = {} if pres else {"coord_ex": (0, 0)}
    ident = f.project(lambda c: c, interval=iv, **kw)
    same_seq(ctx, take(ctx, ident, None), [(c, p) for c, p in pres if c[0] == row], o, f"project interval {iv}")
    if not f.coords and not f.getRankAttrs().getShape():
        ctx.check(mon.full_snap(f) == before, "traversal changed the tree")
        return      # nothing tells that the coordinates are tuples
    mul = f.project(lambda c: c[0] * 10 + c[1] + k, **kw)
    same_seq(ctx, take(ctx, mul, None), [(c[0] * 10 + c[1] + k, p) for c, p in pres], o, "project linear")
    rev = f.project(lambda c: (9 - c[0], 9 - c[1]), **kw)
    same_seq(ctx, take(ctx, rev, None), [((9 - c[0], 9 - c[1]), p) for c, p in reversed(pres)], o, "project reversed")
    ctx.check(mon.full_snap(f) == before, "traversal changed the tree")
    # deeper coordinates: flat triples and nested pairs
    s = tuple(rng.randint(1, 3) for _ in range(3))
    put = rng.choice([lambda a, b, c: (a, b, c), lambda a, b, c: (a, (b, c)), lambda a, b, c: ((a, b), c)])
    space = [put(a, b, c) for a in range(s[0]) for b in range(s[1]) for c in range(s[2])]
    rt = [(c, default if rng.random() < .15 else vals()) for c in space if rng.random() < .4]
    f = Fiber([c for c, _ in rt], [v for _, v in rt], default=default, shape=put(*s))
    o = Opnd(f, 1, default, False, f)
    pres, d = mon.present(f, default), dict(stored(o))
    lo, up = (rng.choice([None] + space) for _ in "ab")
    before = mon.full_snap(f)
    same_seq(ctx, take(ctx, iter(f), None), pres, o, "iter")
    same_seq(ctx, take(ctx, f.iterRange(lo, up), None), [(c, p) for c, p in pres if in_range(c, lo, up)], o, f"range {lo} {up}")
    same_seq(ctx, take(ctx, f.iterUncompressed(), None), [(c, d.get(c, ABSENT)) for c in space], o, "uncompressed")
    ctx.check(mon.full_snap(f) == before, "traversal changed the tree")
    ctx.count("nested_coords", len(space))


def co(ctx):
    """single-fiber and dense co-iteration"""
    rng = ctx.rng
    levels = rng.choice([1, 1, 2])
    ops = [c04.operand(ctx, levels) for _ in range(rng.randint(1, 3))]
    if len(ops) > 1 and rng.random() < .1:
        ops[1] = ops[0]
    if not all(o.has_default() for o in ops):
        return
    ctx.count("co")
    fs = [o.f for o in ops]
    ref = rng.random() < .4
    mode = rng.choice(["Shape", "ActiveShape", "RangeShape"])
    o0 = ops[0]
    step = 1
    if mode == "Shape":
        r = range(0, fs[0].getShape(all_ranks=False))
        args = ()
    elif mode == "ActiveShape":
        r = range(*o0.active())
        args = ()
    else:
        step = rng.choice([1, 1, 2])
        lo, up = rng.randint(0, 6), rng.randint(0, 9)
        r = range(lo, up, step)
        args = (lo, up, step) if step > 1 or rng.random() < .5 else (lo, up)
    name = "coiter" + mode + ("Ref" if ref else "")
    what = f"{name}{args} of {[mon.show(f) for f in fs]}"
    ctx.describe(what)
    ctx.key(name, args, tuple(mon.tree_snap(f) for f in fs))
    before = [mon.full_snap(o.top) for o in ops]
    old = [stored(o) for o in ops]
    lazy = getattr(Fiber, name)(fs, *args)
    if not ref:
        ctx.check([mon.full_snap(o.top) for o in ops] == before, "building the co-iteration changed an operand", what)
    first = None
    k = rng.randint(1, 3) if rng.random() < .2 else None
    for rep in range(1 if k else 2):
        got = take(ctx, lazy, k)
        cs = list(r)[:k]
        ctx.check([c for c, _ in got] == cs, "coordinates", lambda: f"{what}: {[c for c, _ in got]} expected {cs}")
        for c, p in got:
            t = mon.unbox(p)
            ctx.check(isinstance(t, tuple) and len(t) == len(fs), "payload tuple", f"{what}: {p!r}")
            fresh = []
            for o, st, x in zip(ops, old, t):
                q = dict(st).get(c, ABSENT)
                if ref:
                    now = dict(zip(o.f.coords, o.f.payloads))
                    ctx.check(now.get(c) is x, "reference is not the stored payload", f"{what} at {c}")
                    if q is not ABSENT:
                        ctx.check(x is q, "stored payload replaced", f"{what} at {c}")
                    else:
                        ctx.count("co_inserted")
                        ctx.check(mon.unbox(x) == o.default if levels == 1 else isinstance(x, Fiber) and not x.coords,
                                  "inserted value", f"{what} at {c}: {x!r}")
                else:
                    c04.match(ctx, ("p", o, q), x, f"{what} at {c}", fresh)
        if ref:
            ctx.count("co_ref")
            for o, st in zip(ops, old):
                want = sorted({c for s2, o2 in zip(old, ops) if o2.f is o.f for c, _ in s2} | set(cs))
                ctx.check(o.f.coords == want, "inserted coordinates", lambda: f"{what}: {o.f.coords} expected {want}")
        first = got
    if not ref:
        for o, b in zip(ops, before):
            ctx.check(mon.full_snap(o.top) == b, "traversal changed an operand", what)
    for o in ops:
        if isinstance(o.top, Tensor):
            errs = mon.wf_errors(o.top.getRoot(), len(o.top.ranks)) + mon.rank_errors(o.top)
            ctx.check(not errs, "malformed tree", f"{what}: {errs[:3]}")


# ---- lazy expressions ---------------------------------------------------
class Ex:
    """lazy expression: fiber + expected [(coord, spec)] + printable text"""

    def __init__(self, fiber, exp, text, eager=False):
        self.fiber, self.exp, self.text, self.eager = fiber, exp, text, eager


def transform(rng, lo=0):
    """(fn, inverse order?, text)"""
    a = rng.choice([1, 1, 2, 3, -1, -1, -2])
    b = rng.randint(-3, 6) if a > 0 else rng.randint(8, 20)
    return (lambda c: a * c + b), a < 0, f"{a}*c+{b}"


def leaf_ex(ctx, levels):
    o = c04.operand(ctx, levels)
    if not o.has_default():
        return None
    return Ex(o.f, [(c, ("p", o, p)) for c, p in o.pres()], f"{'T' if o.owned else 'F'}{o.fmt()}{o.active()}{mon.show(o.f)}", True), o


def wrap(ctx, e, o, simple):
    """apply a projection or pruning"""
    rng = ctx.rng
    k = rng.choice(["project", "project", "prune"])
    if k == "project":
        fn, rev, txt = transform(rng)
        if rev and not e.eager:
            fn, rev, txt = (lambda c: c + 2), False, "c+2"
        out = [(fn(c), s) for c, s in e.exp]
        if rev:
            out.reverse()
            ctx.count("reversing")
        kw = {}
        if rng.random() < .4:
            vals = [c for c, _ in out] or [0]
            lo = rng.randint(min(vals) - 2, max(vals) + 2)
            iv = (lo, rng.randint(lo, max(vals) + 3))
            kw["interval"] = iv
            txt += f" in {iv}"
            out = [(c, s) for c, s in out if iv[0] <= c < iv[1]]
            ctx.count("interval")
        if e.eager and not rev and e.fiber.coords and o.fmt() == "C" and rng.random() < .3:
            # a start position before which nothing belongs to the projection
            bound = out[0][0] if out else None
            n = 0
            for i, c in enumerate(e.fiber.coords):
                n = i
                if bound is not None and fn(c) >= bound:
                    break
                if "interval" in kw and fn(c) >= kw["interval"][0]:
                    break
            sp = rng.randint(0, n)
            if "interval" not in kw:
                sp = min(sp, n)
                if out:
                    ctx.count("project_start_pos")
                    kw["start_pos"] = sp
            else:
                ctx.count("project_start_pos")
                kw["start_pos"] = rng.choice([sp, Payload(sp)])
        if rng.random() < .3:
            kw["rank_id"] = "Z"
        if rng.random() < .3 and e.eager:
            kw["coord_ex"] = rng.randint(0, 5)
        ctx.count("project")
        return Ex(e.fiber.project(fn, **kw), out, f"({e.text}).project({txt}, {kw})")
    m = rng.randint(2, 3)
    which = rng.choice(["coord", "pos", "payload", "all", "none", "stop"])
    r = rng.randrange(m)
    if which == "payload" and not simple:
        which = "coord"
    halt = rng.choice([c for c, _ in e.exp] or [0])
    seen = []

    def fn(i, c, p):
        seen.append((i, c))
        if which == "coord":
            return c % m == r
        if which == "pos":
            return i % m == r
        if which == "payload":
            return _big(mon.unbox(p))
        if which == "stop":
            return None if c == halt else c % m == r
        return which == "all"
    out = []
    for i, (c, s) in enumerate(e.exp):
        if which == "stop" and c == halt:
            ctx.count("prune_stop")
            break
        if which == "payload":
            v = o.default if s[2] is ABSENT else mon.unbox(s[2])
            keep = _big(v)
        else:
            keep = {"coord": c % m == r, "pos": i % m == r, "stop": c % m == r, "all": True, "none": False}[which]
        if keep:
            out.append((c, s))
    ctx.count("prune")
    kw = {}
    if e.eager and e.fiber.coords and o.fmt() == "C" and which != "pos" and rng.random() < .25:
        n = 0
        for i, c in enumerate(e.fiber.coords):
            n = i
            if not e.exp or c >= e.exp[0][0]:
                break
        kw["start_pos"] = rng.randint(0, n)
        ctx.count("project_start_pos")
    return Ex(e.fiber.prune(trans_fn=fn, **kw), out, f"({e.text}).prune({which} {m} {r} {halt} {kw})")


def build_ex(ctx, levels, ops, depth=0):
    rng = ctx.rng
    if depth < 2 and rng.random() < (.75 if depth == 0 else .35):
        k = rng.choice(["wrap", "wrap", "bin", "nary"])
        if k == "wrap":
            e = build_ex(ctx, levels, ops, depth + 1)
            if e is None:
                return None
            if depth:
                ctx.count("nested_lazy")
            plain = all(s[0] == "p" for _, s in e.exp)
            o = e.o if plain and hasattr(e, "o") else None
            if o is None:
                return e
            w = wrap(ctx, e, o, levels == 1 and plain)
            w.o = o
            return w
        n = 2 if k == "bin" else rng.randint(2, 4)
        es = [build_ex(ctx, levels, ops, depth + 1) for _ in range(n)]
        if any(e is None or not hasattr(e, "o") for e in es):
            return None
        ds = [("p", e.o, ABSENT) for e in es]
        maps = [dict(e.exp) for e in es]
        allc = sorted(set().union(*maps))
        if k == "bin":
            op = rng.choice("&|^-")
            a, b = es[0].fiber, es[1].fiber
            f = a & b if op == "&" else a | b if op == "|" else a ^ b if op == "^" else a - b
            out = []
            for c in allc:
                ina, inb = c in maps[0], c in maps[1]
                mask = "A" * ina + "B" * inb
                va, vb = maps[0].get(c, ds[0]), maps[1].get(c, ds[1])
                if op == "&" and mask == "AB":
                    out.append((c, ("tup", [va, vb])))
                elif op == "|" or op == "^" and mask != "AB":
                    out.append((c, ("tup", [mask, va, vb])))
                elif op == "-" and mask == "A":
                    out.append((c, va))
            return Ex(f, out, f"({es[0].text} {op} {es[1].text})")
        if rng.random() < .5:
            out = [(c, ("tup", [m[c] for m in maps])) for c in allc if all(c in m for m in maps)]
            return Ex(Fiber.intersection(*[e.fiber for e in es]), out, f"intersection({[e.text for e in es]})")
        out = [(c, ("tup", ["".join(chr(65 + i) for i, m in enumerate(maps) if c in m)] +
                [m.get(c, d) for m, d in zip(maps, ds)])) for c in allc]
        return Ex(Fiber.union(*[e.fiber for e in es]), out, f"union({[e.text for e in es]})")
    r = leaf_ex(ctx, levels)
    if r is None:
        return None
    e, o = r
    e.o = o
    ops.append(o)
    return e


def cmp(ctx, got, exp, what):
    ctx.check([c for c, _ in got] == [c for c, _ in exp], "coordinates",
              lambda: f"{what}: {[c for c, _ in got]} expected {[c for c, _ in exp]}")
    fresh = []
    ctx.count("yielded", len(got))
    for (c, p), (_, s) in zip(got, exp):
        c04.match(ctx, s, p, f"{what} at {c}", fresh)


def lazy(ctx):
    rng = ctx.rng
    levels = rng.choice([1, 1, 2])
    ops = []
    e = build_ex(ctx, levels, ops)
    if e is None:
        return
    before = [mon.full_snap(o.top) for o in ops]
    what = e.text
    ctx.describe(what)
    ctx.key(what)
    f, exp = e.fiber, e.exp
    if e.eager:
        return
    ctx.count("lazy")
    ctx.check(f.isLazy(), "result is not lazy", what)
    for rep in range(rng.randint(1, 3)):
        k = rng.randint(1, 3) if rng.random() < .2 else None
        got = take(ctx, f if rng.random() < .7 else f.iterOccupancy(tick=False), k)
        cmp(ctx, got, exp[:k], f"{what} pass {rep}")
    if rng.random() < .3:
        ctx.count("interleaved")
        i1, i2 = iter(f), iter(f)
        g1, g2 = [], []
        its = [(i1, g1), (i2, g2)]
        while its:
            it, g = rng.choice(its)
            try:
                c, p = next(it)
                g.append((c, p))
            except StopIteration:
                its.remove((it, g))
        cmp(ctx, g1, exp, what + " interleaved 1")
        cmp(ctx, g2, exp, what + " interleaved 2")
    if rng.random() < .2:
        ctx.check(len(f) == len(exp), "length of a lazy fiber", lambda: f"{what}: len {len(f)} expected {len(exp)}")
        ctx.count("lazy_len")
    if rng.random() < .4:
        ctx.count("clipped")
        lo, up = pick_range(rng, None, max([12] + [c for c, _ in exp if isinstance(c, int)]))
        cmp(ctx, take(ctx, f.iterRange(lo, up), None), [(c, s) for c, s in exp if in_range(c, lo, up)], f"{what} range {lo} {up}")
        a0, a1 = f.getActive()
        cmp(ctx, take(ctx, f.iterActive(), None), [(c, s) for c, s in exp if in_range(c, a0, a1)], f"{what} active {a0} {a1}")
    if all(s[0] == "p" for _, s in exp) and hasattr(e, "o"):
        ctx.count("materialised")
        o = e.o
        m = Fiber.fromLazy(f)
        want = {}
        for c, (_, _, p) in exp:
            if p is ABSENT:
                continue
            if levels == 1:
                if mon.unbox(p) != o.default:
                    want[(c,)] = mon.unbox(p)
            else:
                want.update({(c,) + pt: v for pt, v in mon.content(p, o.default).items()})
        ctx.check(mon.content(m, o.default) == want, "materialised content", lambda: f"{what}: {mon.show(m)} expected {want}")
        errs = mon.wf_errors(m, levels)
        ctx.check(not errs, "malformed eager fiber", lambda: f"{what}: {errs[:3]}")
        ctx.check(not (set(mon.mutable_ids(m)) & {i for o in ops for i in mon.mutable_ids(o.top)}),
                  "eager fiber aliases the operand", what)
        eq = Fiber.fromLazy(f)
        ctx.check(m == eq and eq == m, "two materialisations differ", what)
        if mon.present(m, o.default):
            ctx.check([c for c, _ in m.iterOccupancy()] == sorted({pt[0] for pt in want}), "eager traversal", what)
    for o, b in zip(ops, before):
        ctx.check(mon.full_snap(o.top) == b, "traversal changed an operand", what)


def exhaustive(ctx):
    """all 3^4 leaf fibers (absent / default / value) x all ranges in every bounded mode"""
    n = 4
    rt = gen.enum_fiber(n, ctx.i)
    f = gen.build(rt, 1, 0, [n] if ctx.i % 2 else None)
    if ctx.i % 3 == 0:
        t = Tensor.fromFiber(["M"], f, shape=[n] if ctx.i % 2 else None)
        if ctx.i % 6 == 0:
            t.setFormat("M", "U")
        f = t.getRoot()
        top, owned = t, True
    else:
        top, owned = f, False
    o = Opnd(f, 1, 0, owned, top)
    ctx.describe(mon.show(f))
    pres = mon.present(f, 0)
    d = dict(stored(o))
    before = mon.full_snap(top)
    for lo in [None] + list(range(-1, n + 2)):
        for up in [None] + list(range(-1, n + 2)):
            exp = [(c, p) for c, p in pres if in_range(c, lo, up)]
            what = f"range {lo} {up} of {mon.show(f)}"
            same_seq(ctx, take(ctx, f.iterRange(lo, up), None), exp, o, what)
            for sp in range(len(f.coords)):
                if all(not (in_range(c, lo, None) and any(p is q for _, q in pres)) for c, p in stored(o)[:sp]):
                    ctx.count("saved_pos")
                    same_seq(ctx, take(ctx, f.iterRange(lo, up, start_pos=sp), None), exp, o, f"{what} from {sp}")
            if lo is not None and up is not None and lo >= 0:
                exp = [(c, d.get(c, ABSENT)) for c in range(lo, up)]
                same_seq(ctx, take(ctx, f.iterRangeShape(lo, up), None), exp, o, "shape " + what)
                same_seq(ctx, [(c, mon.unbox(p)[0]) for c, p in take(ctx, Fiber.coiterRangeShape([f], lo, up), None)], exp, o,
                         "co " + what)
            ctx.key(mon.tree_snap(f), lo, up)
    same_seq(ctx, take(ctx, f, None), o.pres(), o, "default")
    for iv0 in range(-1, 6):
        for iv1 in range(iv0, 6):
            p = f.project(lambda c: c + 1, interval=(iv0, iv1))
            same_seq(ctx, take(ctx, p, None), [(c + 1, x) for c, x in o.pres() if iv0 <= c + 1 < iv1], o, f"interval {iv0} {iv1}")
            p = f.project(lambda c: 3 - c, interval=(iv0, iv1))
            same_seq(ctx, take(ctx, p, None), [(3 - c, x) for c, x in o.pres()[::-1] if iv0 <= 3 - c < iv1], o,
                     f"reversed interval {iv0} {iv1} of {mon.show(f)}")
    ctx.check(mon.full_snap(top) == before, "traversal changed the tree")


GENERATORS = {"single": (single, 24000, 240000), "tuples": (tuples, 1200, 10000), "co": (co, 8000, 80000),
              "lazy": (lazy, 30000, 300000), "exhaustive": (exhaustive, 81, 81)}
