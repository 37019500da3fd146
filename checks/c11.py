"""C11: arithmetic on boxes, elements and fibers agrees with arithmetic on the values."""
import copy
import operator as op
from fibertree import Fiber, Tensor, Payload, CoordPayload, Metrics
from lib import gen, mon

RULE = ("every operator x operand-kind combination (box/box, box/scalar, scalar/box, the element forms, box/element) on "
        "generated int/float/bool values, random expression trees and in-place histories evaluated next to plain values, "
        "and fiber/fiber and fiber/scalar arithmetic on generated fibers (nested, empty, non-overlapping, owned, "
        "uncompressed) next to a point-wise model, with value-returning and in-place forms compared. Non-trivial: distinct "
        "(operator, operands)")
FLOORS = {"box_ops": 20000, "inplace_ops": 8000, "compare_ops": 8000, "logic_ops": 4000, "element_ops": 10000,
          "reflected": 4000, "divisions": 1500, "assignments": 1500, "expr_nodes": 15000, "fiber_add": 1500,
          "fiber_mul": 1500, "fiber_iadd": 1500, "fiber_imul": 1500, "scalar_add": 1200, "scalar_mul": 1200,
          "scalar_iadd": 1200, "scalar_imul": 1200, "nested": 2500, "non_overlapping": 300, "empty_operand": 300,
          "self_operand": 300, "histories": 1500, "under_metrics": 1500, "estimated_shape": 300}
ASSUMPTIONS = ["absent elements count as zero in the fiber sums (documented), so fiber/fiber and fiber+scalar sums are judged "
               "for default-0 fibers; products also for other defaults",
               "fiber + scalar on a nested fiber is judged against the dense model only where all ranks' shapes are known",
               "the operators judged are those the classes overload, their reflected and their in-place forms"]

ARITH = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv}
COMP = {"==": op.eq, "!=": op.ne, "<": op.lt, "<=": op.le, ">": op.gt, ">=": op.ge}
LOGIC = {"&": op.and_, "|": op.or_, "<<": op.lshift}
IARITH = {"+=": op.iadd, "-=": op.isub, "*=": op.imul, "/=": op.itruediv, "&=": op.iand, "|=": op.ior}
PLAIN = {"+=": op.add, "-=": op.sub, "*=": op.mul, "/=": op.truediv, "&=": op.and_, "|=": op.or_}
KINDS = ["scalar", "box", "elem"]


def value(rng, kind=None):
    kind = kind or rng.choice(["int", "int", "float", "big", "small", "small", "bool"])
    return {"int": lambda: rng.randint(-50, 50), "float": lambda: rng.randint(-400, 400) / 8.0,
            "big": lambda: rng.choice([2 ** 63, -2 ** 70, 10 ** 30, 2 ** 31]), "small": lambda: rng.randint(-2, 3),
            "bool": lambda: rng.random() < .5}[kind]()


def mk(kind, v, rng):
    if kind == "scalar":
        return v
    if kind == "box":
        return Payload(v)
    return CoordPayload(rng.choice([0, 3, (1, 2)]), Payload(v) if rng.random() < .5 else v)


def val(x):
    if isinstance(x, CoordPayload):
        x = x.payload
    return x.value if isinstance(x, Payload) else x


def same(a, b):
    return type(a) is type(b) and a == b


def judge(ctx, what, got, want):
    v = got
    if isinstance(v, CoordPayload):
        v = v.payload
    if isinstance(v, Payload):
        v = v.value
    ctx.check(not isinstance(v, (Payload, CoordPayload)), "result is boxed twice", lambda: f"{what} -> {got!r}")
    ctx.check(v is not None and same(v, want), "operator disagrees with the operator on the values",
              lambda: f"{what} -> {got!r} ({type(v).__name__}), plain value {want!r} ({type(want).__name__})")


def binary(ctx):
    rng = ctx.rng
    for _ in range(12):
        ka, kb = rng.choice([p for p in [(a, b) for a in KINDS for b in KINDS] if p != ("scalar", "scalar")])
        group = rng.choice(["arith", "arith", "comp", "logic"])
        if group == "logic":
            o = rng.choice(list(LOGIC))
            a, b = rng.choice([(rng.randint(0, 60), rng.randint(0, 9)), (rng.randint(-60, 60), rng.randint(0, 9)),
                               (rng.random() < .5, rng.random() < .5)])
            fn = LOGIC[o]
            ctx.count("logic_ops")
        else:
            a, b = value(rng), value(rng)
            if rng.random() < .2:
                b = a
            tbl = ARITH if group == "arith" else COMP
            o = rng.choice(list(tbl))
            if o == "/":
                if not b:
                    b = rng.choice([3, 0.5, -2])
                ctx.count("divisions")
            fn = tbl[o]
            if group == "comp":
                ctx.count("compare_ops")
        x, y = mk(ka, a, rng), mk(kb, b, rng)
        what = f"{ka}({a!r}) {o} {kb}({b!r})"
        ctx.describe(what)
        ctx.op(what)
        want = fn(a, b)
        got = fn(x, y)
        judge(ctx, what, got, want)
        if group == "comp":
            ctx.check(type(got) is bool, "comparison does not give a truth value", lambda: f"{what} -> {got!r}")
        else:
            # a value-returning operator delivers a new box and leaves the operands alone
            ctx.check(got is not x and got is not y and not (isinstance(x, CoordPayload) and got is x.payload) and
                      not (isinstance(y, CoordPayload) and got is y.payload), "operator returned an operand",
                      lambda: what)
        ctx.check(same(val(x), a) and same(val(y), b), "operator changed an operand",
                  lambda: f"{what}: operands now {x!r}, {y!r}")
        ctx.count("box_ops")
        if "elem" in (ka, kb):
            ctx.count("element_ops")
        if ka == "scalar":
            ctx.count("reflected")
        ctx.key(o, ka, kb, a, b)


def inplace(ctx):
    rng = ctx.rng
    for _ in range(10):
        ka = rng.choice(["box", "elem"])
        kb = rng.choice(KINDS)
        o = rng.choice(list(IARITH) + ["<<=", "<<="])
        a, b = value(rng), value(rng)
        if o in ("&=", "|="):
            a, b = rng.randint(0, 60), rng.randint(0, 60)
        if o == "/=" and not b:
            b = rng.choice([3, 0.5, -2])
        x, y = mk(ka, a, rng), mk(kb, b, rng)
        if rng.random() < .1 and kb == ka:
            y, b = x, a
            if o == "/=" and not a:
                continue
        x0, box0 = x, (x.payload if ka == "elem" else x)
        coord0 = x.coord if ka == "elem" else None
        what = f"{ka}({a!r}) {o} {kb}({b!r})"
        ctx.describe(what)
        ctx.op(what)
        if o == "<<=":
            x <<= y
            want = b
            ctx.count("assignments")
        else:
            x = IARITH[o](x, y)
            want = PLAIN[o](a, b)
        ctx.check(x is x0, "in-place form did not keep the object", lambda: f"{what} -> {x!r}")
        if ka == "elem":
            ctx.check(x.payload is box0 and x.coord == coord0, "in-place form did not update the same box",
                      lambda: f"{what} -> {x!r}")
            ctx.count("element_ops")
        judge(ctx, what, box0, want)
        if y is not x:
            ctx.check(same(val(y), b), "in-place operator changed its operand", lambda: f"{what}: operand now {y!r}")
            # no tie between the two afterwards
            if isinstance(y, Payload):
                y <<= 987654
                ctx.check(same(val(x), want), "in-place form aliases its operand", lambda: f"{what}: {x!r}")
        ctx.count("inplace_ops")
        ctx.key(o, ka, kb, a, b)


def expr(ctx):
    """random expressions over boxes, elements and scalars, evaluated next to the plain values"""
    rng = ctx.rng
    metrics = rng.random() < .2
    if metrics:
        Metrics.beginCollect()
        ctx.count("under_metrics")
    try:
        n = [0]

        def rec(d):
            if d == 0 or rng.random() < .2:
                v = value(rng, rng.choice(["int", "float", "small"]))
                k = rng.choice(KINDS)
                return mk(k, v, rng), v, f"{k}({v})"
            x, a, s = rec(d - 1)
            y, b, t = rec(d - 1)
            o = rng.choice(["+", "-", "*", "+", "*", "/"])
            if o == "/" and not b:
                o = "+"
            n[0] += 1
            return ARITH[o](x, y), ARITH[o](a, b), f"({s} {o} {t})"
        x, a, s = rec(min(12, gen.size(rng, 1, 5, .03, 12)))
        ctx.describe(s)
        judge(ctx, s, x, a)
        ctx.count("expr_nodes", n[0])
        ctx.key(s)
        # an accumulating history on one box
        box, acc = Payload(0), 0
        for _ in range(rng.randint(1, 12)):
            o = rng.choice(["+=", "-=", "*=", "<<=", "/=", "+="])
            v = value(rng, rng.choice(["int", "float", "small"]))
            y = mk(rng.choice(KINDS), v, rng)
            if o == "/=" and not v:
                continue
            before = box
            if o == "<<=":
                box <<= y
                acc = v
            else:
                box = IARITH[o](box, y)
                acc = PLAIN[o](acc, v)
            ctx.op(o, v)
            ctx.check(box is before, "in-place form did not keep the object", o)
            judge(ctx, f"{s} ... {o} {v}", box, acc)
        ctx.count("histories")
    finally:
        if metrics:
            Metrics.endCollect()


def conversions(ctx):
    rng = ctx.rng
    v = value(rng)
    b = Payload(v)
    ctx.describe(f"conversions of {v!r}")
    ctx.check(bool(b) == bool(v) and int(b) == int(v), "conversion disagrees", f"{v!r}")
    ctx.check(Payload.get(b) == v and Payload.get(v) == v and same(Payload(b).value, v), "conversion disagrees", f"{v!r}")
    ctx.check(same(Payload.maybe_box(v).value, v) and Payload.maybe_box(b) is b, "conversion disagrees", f"{v!r}")
    b.v = 5
    ctx.check(b.value == 5, "attribute assignment does not replace the value", "")
    b.v = Payload(6)
    ctx.check(b.value == 6, "attribute assignment does not replace the value", "")
    # elements obtained from a fiber update the fiber's own box
    f = Fiber([1, 4], [10, 20])
    k = rng.randrange(2)
    e = f[k]
    e <<= v
    ctx.check(same(f.payloads[k].value, v), "<<= on an element does not reach the fiber",
              lambda: f"f[{k}] <<= {v!r} -> {f!r}")
    e = f[k]
    if isinstance(v, (int, float)) and abs(v) < 10 ** 9:
        e += 3
        ctx.check(same(f.payloads[k].value, v + 3), "+= on an element does not reach the fiber", lambda: repr(f))
        for el in f:
            el *= 2
        ctx.check(same(f.payloads[k].value, (v + 3) * 2) or Payload.isEmpty(Payload(v + 3)),
                  "*= on an element does not reach the fiber", lambda: repr(f))


# -------------------------------------------------------------------------------------------------------------- fibers
def fiber(ctx, depth, shape, default=0, own=None, fmt=True, explicit=.15, vals=None):
    rng = ctx.rng
    rt = gen.rand_rt(rng, shape, default, vals or gen.Vals(rng, default, rng.choice(["small", "float", "uniq"])),
                     explicit=explicit)
    if rng.random() < .08:
        rt = []
    own = rng.choice(["owned", "unowned"]) if own is None else own
    if own == "owned":
        auth = rng.random() < .8
        f = gen.build(rt, depth, default)
        t = Tensor.fromFiber(rank_ids=gen.RANKS[:depth], fiber=f, shape=list(shape) if auth else None, default=default)
        if fmt and auth and rng.random() < .2:
            t.setFormat(rng.choice(gen.RANKS[:depth]), "U")
        return t.getRoot(), t, auth
    auth = rng.random() < .6
    f = gen.build(rt, depth, default, shape if auth else None)
    if rng.random() < .2:
        # only part of the fiber is active (as in a partition): arithmetic is on all of it
        lo = rng.randint(0, shape[0])
        f = Fiber(f.coords, f.payloads, default=default, shape=shape[0] if auth else None,
                  active_range=(lo, rng.randint(lo, shape[0])))
        ctx.count("part_active")
    return f, None, auth


def compact(c, default=0):
    return {k: v for k, v in c.items() if v != default}


def judge_fiber(ctx, what, got, want, depth, default=0):
    ctx.check(mon.is_fiber(got), "result is not a fiber", lambda: f"{what}: {got!r}")
    errs = mon.wf_errors(got, None if not mon.leaves(got) else depth)
    ctx.check(not errs, "malformed result", lambda: f"{what}: {errs[:3]} {mon.show(got)}")
    c = mon.content(got, default)
    ctx.check(c == compact(want, default), "fiber arithmetic disagrees with the point-wise model",
              lambda: f"{what}: got {c}\n want {compact(want, default)}\n tree {mon.show(got)}")


def twin(t, f):
    """an independent copy with the same ownership"""
    if t is None:
        g = copy.deepcopy(f)
        return None, g
    u = copy.deepcopy(t)
    return u, u.getRoot()


def check_tensor(ctx, what, t):
    if t is not None:
        errs = mon.rank_errors(t)
        ctx.check(not errs, "rank lists broken by in-place arithmetic", lambda: f"{what}: {errs[:3]}")


def fiber_fiber(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth)
    o = rng.choice(["+", "*"])
    default = rng.choice([0, 0, 0, 7, -1]) if o == "*" else 0
    expl = .15 if default == 0 else 0
    f, t, _ = fiber(ctx, depth, shape, default, fmt=default == 0, explicit=expl)
    if rng.random() < .12:
        g, t2 = f, t
        ctx.count("self_operand")
    elif rng.random() < .15:
        # non-overlapping second operand
        cf = set(f.coords)
        rt = [(c, x) for c, x in gen.rand_rt(rng, [s + 3 for s in shape], default, explicit=expl) if c not in cf]
        g, t2 = gen.build(rt, depth, default), None
        ctx.count("non_overlapping")
    else:
        g, t2, _ = fiber(ctx, depth, [s + rng.choice([0, 0, 2]) for s in shape], default, fmt=default == 0,
                         explicit=expl)
    a, b = mon.content(f, default), mon.content(g, default)
    ctx.describe(f"{mon.show(f)} {o} {mon.show(g)} default={default} owned={t is not None},{t2 is not None}")
    if not a or not b:
        ctx.count("empty_operand")
    if depth > 1:
        ctx.count("nested")
    if o == "+":
        want = {k: a[k] + b[k] if k in a and k in b else a.get(k, b.get(k)) for k in set(a) | set(b)}
    else:
        want = {k: a[k] * b[k] for k in set(a) & set(b)}
    metrics = rng.random() < .1
    if metrics:
        Metrics.beginCollect()
        for r in gen.RANKS[:depth]:
            Metrics.registerRank(r)
        ctx.count("under_metrics")
    try:
        res = f + g if o == "+" else f * g
        judge_fiber(ctx, f"f {o} g", res, want, depth, default)
        ctx.count("fiber_add" if o == "+" else "fiber_mul")
        ctx.check(mon.content(f, default) == a and mon.content(g, default) == b, "operator changed an operand", "f op g")
        # in place, on an independent twin
        u, h = twin(t, f)
        k = h if g is f else g
        h0 = h
        if o == "+":
            h += k
        else:
            h *= k
        what = f"f {o}= g"
        ctx.check(h is h0, "in-place form did not keep the fiber", what)
        judge_fiber(ctx, what, h, want, depth, default)
        ctx.check(h == res and mon.content(h, default) == mon.content(res, default),
                  "in-place and value-returning form differ", lambda: f"{what}: {mon.show(h)} vs {mon.show(res)}")
        if k is not h:
            ctx.check(mon.content(g, default) == b, "in-place operator changed its operand", what)
        check_tensor(ctx, what, u)
        ctx.count("fiber_iadd" if o == "+" else "fiber_imul")
        # what the tree iterates is what it stores
        if default == 0:
            seen = {c for c, p in h.iterOccupancy()}
            ctx.check(seen == {c for c, p in mon.present(h, default)}, "iteration disagrees after in-place arithmetic",
                      lambda: f"{what}: {seen}")
    finally:
        if metrics:
            Metrics.endCollect()
    ctx.key(o, mon.show(f), mon.show(g))


def fiber_scalar(ctx):
    rng = ctx.rng
    depth = rng.choice([1, 1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth)
    o = rng.choice(["+", "*"])
    default = rng.choice([0, 0, 0, 7])
    f, t, auth = fiber(ctx, depth, shape, default, fmt=True, explicit=.15)
    a = mon.content(f, default)
    s = rng.choice([0, 1, 2, -1, 0.5, 3, -2.5])
    boxed = rng.choice(["scalar", "scalar", "box"])
    x = mk(boxed, s, rng)
    side = rng.choice(["right", "right", "left"]) if boxed == "scalar" else "right"
    ctx.describe(f"{mon.show(f)} {o} {boxed}({s}) side={side} default={default} owned={t is not None} shape={shape} "
                 f"auth={auth}")
    if depth > 1:
        ctx.count("nested")
    if not a:
        ctx.count("empty_operand")
    known = True
    if o == "*":
        want = {k: v * s for k, v in a.items()}
        if default != 0:
            # an element scaled to the default is not content
            want = compact(want, default)
    else:
        if t is None and not auth:
            shp = [(max(f.coords) + 1 if f.coords else 0)]
            ctx.count("estimated_shape")
        elif auth:
            shp = shape
        else:
            shp = t.getShape()
            ctx.count("estimated_shape")
        known = depth == 1 or (t is not None and auth)
        want = {}
        if known:
            def rec(pre, rest):
                if not rest:
                    want[pre] = a.get(pre, default) + s
                    return
                for c in range(rest[0]):
                    rec(pre + (c,), rest[1:])
            rec((), shp)
    if o == "+":
        res = f + x if side == "right" else x + f
    else:
        res = f * x if side == "right" else x * f
    ctx.check(same(val(x), s) and mon.content(f, default) == a, "operator changed an operand", "f op scalar")
    if known:
        judge_fiber(ctx, f"f {o} {s} ({side})", res, want, depth, default)
    ctx.count("scalar_add" if o == "+" else "scalar_mul")
    u, h = twin(t, f)
    h0 = h
    if o == "+":
        h += x
    else:
        h *= x
    what = f"f {o}= {s}"
    ctx.check(h is h0, "in-place form did not keep the fiber", what)
    if known:
        judge_fiber(ctx, what, h, want, depth, default)
    ctx.check(h == res and mon.content(h, default) == mon.content(res, default),
              "in-place and value-returning form differ", lambda: f"{what}: {mon.show(h)} vs {mon.show(res)}")
    ctx.check(same(val(x), s), "in-place operator changed its operand", what)
    check_tensor(ctx, what, u)
    ctx.count("scalar_iadd" if o == "+" else "scalar_imul")
    ctx.key(o, side, boxed, s, mon.show(f))


def fiber_history(ctx):
    """a sequence of in-place operations on one (owned) fiber, next to the model"""
    rng = ctx.rng
    depth = rng.choice([1, 2, 2, 3])
    shape = gen.rand_shape(rng, depth)
    f, t, _ = fiber(ctx, depth, shape, own="owned", fmt=False)
    while t.getShape(authoritative=True) is None:
        f, t, _ = fiber(ctx, depth, shape, own="owned", fmt=False)
    a = mon.content(f)
    ctx.describe(f"history on {mon.show(f)} shape={shape}")
    for _ in range(rng.randint(3, 7)):
        o = rng.choice(["+=f", "*=f", "+=s", "*=s", "<<=", "val"])
        if o in ("+=f", "*=f", "<<="):
            g, t2, _ = fiber(ctx, depth, shape)
            b = mon.content(g)
            ctx.op(o, mon.show(g))
            if o == "+=f":
                f += g
                a = {k: a[k] + b[k] if k in a and k in b else a.get(k, b.get(k)) for k in set(a) | set(b)}
            elif o == "*=f":
                f *= g
                a = {k: a[k] * b[k] for k in set(a) & set(b)}
            else:
                f <<= g
                a = dict(b)
            ctx.check(mon.content(g) == b, "in-place operator changed its operand", o)
        elif o == "val":
            res = (f + f) * 2
            judge_fiber(ctx, "(f + f) * 2", res, {k: v * 4 for k, v in compact(a).items()}, depth)
        else:
            s = rng.choice([0, 1, -1, 2, 0.5])
            ctx.op(o, s)
            if o == "+=s":
                f += s
                n = {}

                def rec(pre, rest):
                    if not rest:
                        n[pre] = a.get(pre, 0) + s
                        return
                    for c in range(rest[0]):
                        rec(pre + (c,), rest[1:])
                rec((), shape)
                a = n
            else:
                f *= s
                a = {k: v * s for k, v in a.items()}
        a = compact(a)
        ctx.check(f is t.getRoot(), "in-place form did not keep the fiber", o)
        judge_fiber(ctx, o, f, a, depth)
        check_tensor(ctx, o, t)
    ctx.count("histories")
    ctx.key("history", mon.show(f))


def enum_pairs(ctx):
    """all pairs of fibers over 3 coordinates (absent / explicit zero / value), all four forms"""
    i = ctx.i
    for o in "+*":
        f = gen.build(gen.enum_fiber(3, i % 27), 1, 0)
        g = gen.build(gen.enum_fiber(3, i // 27, v0=21), 1, 0)
        ctx.describe(f"{mon.show(f)} {o} {mon.show(g)}")
        a, b = mon.content(f), mon.content(g)
        if o == "+":
            want = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
            res = f + g
            judge_fiber(ctx, "f + g", res, want, 1)
            f += g
            ctx.count("fiber_add")
            ctx.count("fiber_iadd")
        else:
            want = {k: a[k] * b[k] for k in set(a) & set(b)}
            res = f * g
            judge_fiber(ctx, "f * g", res, want, 1)
            f *= g
            ctx.count("fiber_mul")
            ctx.count("fiber_imul")
        judge_fiber(ctx, f"f {o}= g", f, want, 1)
        ctx.key(o, i)


GENERATORS = {
    "binary": (binary, 9000, 60000),
    "inplace": (inplace, 5000, 30000),
    "expr": (expr, 10000, 60000),
    "conversions": (conversions, 400, 4000),
    "enum_pairs": (enum_pairs, 729, 729),
    "fiber_fiber": (fiber_fiber, 16000, 120000),
    "fiber_scalar": (fiber_scalar, 14000, 100000),
    "fiber_history": (fiber_history, 5000, 25000),
}
