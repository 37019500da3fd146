"""C15: metrics collection is transparent, exact and session-isolated."""
import copy
import os
from fibertree import CoordPayload, Fiber, Metrics, Payload, Tensor
from fibertree.graphics.tree_image import TreeImage
from fibertree.graphics.uncompressed_image import UncompressedImage
from fibertree.model import Compute, Format
from lib import gen, mon, nest

RULE = ("random loop nests (depth 1-3; & | - ^ leader-follower union intersection project prune populate; explicit defaults, "
        "empty fibers, uncompressed ranks, filled / estimated-shape / scalar outputs) run with collection off and then on with a "
        "random subset of traces (file, consumable, both) and flush thresholds; monitors: loop-body log, payload operations counted "
        "where the body executes them, deep snapshots of outputs and operands, byte comparison of trace files across histories of "
        "sessions (other kernels, kernels aborted in a body, sessions never ended, calls between loops). "
        "Non-trivial: distinct nests whose bodies executed at least one payload operation")
FLOORS = {"huge_ops": 20000, "huge_nests": 50, "nests": 10000, "bodies": 50000, "muls": 25000, "adds": 14000, "updates": 22000, "iter_files": 9000, "deep": 1400,
          "zero_add": 2400, "sessions": 8000, "aborted": 1000, "unended": 500, "replayed": 1800, "trace_files": 40000,
          "inserting": 900, "inspections": 6000, "no_ops": 1500, "same_prefix": 900, "raw_ops": 30000, "element_ops": 15000, "flattened": 1000, "flat_again": 500}
ASSUMPTIONS = ["`-`, `-=` and `/` are not payload operations that are reported; `+=` on a zero payload is an update without an "
               "addition (documented by Payload.__iadd__)", "whole-fiber arithmetic (Fiber + Fiber, fromLazy) is itself a loop",
               "an abandoned loop (break) has no defined iteration state"]
OPS = ("mul", "add", "update")


class Inspect:
    """harmless things to do in a loop body"""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n

    def __call__(self, env, z):
        self.n += 1
        for v in list(env.values()):
            if not mon.is_fiber(v) or v.isLazy():
                continue
            w = self.rng.choice(["len", "eq", "empty", "str", "copy", "shape", "count", "get", "uncompress", "nonempty", "split",
                                 "mk", "cmp", "lookup", "model", "draw"])
            if w == "len":
                len(v)
            elif w == "eq":
                v == copy.deepcopy(v)
            elif w == "empty":
                v.isEmpty()
            elif w == "str":
                str(v), repr(v)
            elif w == "copy":
                copy.deepcopy(v)
            elif w == "shape":
                v.getShape(), v.getActive(), v.maxCoord()
            elif w == "count":
                v.countValues()
            elif w == "get":
                v.getPayload(1)
            elif w == "uncompress":
                v.uncompress()
            elif w == "nonempty":
                v.nonEmpty()
            elif w == "split" and v.coords:
                v.splitUniform(2)
            elif w == "mk":
                Tensor.fromUncompressed(rank_ids=["K"], root=[0, 1, 2])
            elif w == "cmp":
                Payload(3) > 2, Payload(3) == Payload(4), Payload(3) - 1, Payload(8) / 2, bool(Payload(1) and Payload(0))
            elif w == "lookup":
                v.getPosition(1)
            elif w == "model":
                d = v.getDepth() if hasattr(v, "getDepth") else len(v.getRankIds(all_ranks=True))
                t = Tensor.fromFiber(rank_ids=["M", "K", "N", "P", "Q"][:d], fiber=copy.deepcopy(v))
                fmt = Format(t, {"M": {"format": self.rng.choice("UC"), "pbits": 3, "fhbits": 2}})
                fmt.getSubTree(), fmt.getTensor(), fmt.getFiber()
                if d > 1:
                    Compute.numSwaps(t, d - 2, 2, self.rng.choice([1, "N"]))
            elif w == "draw" and self.rng.random() < .1:
                TreeImage(v)
                UncompressedImage(v)


def register(rng, N, how=None):
    """{(rank, type): (file, consumable)}"""
    types = nest.all_types(N)
    how = how or rng.choice(["none", "all", "some", "some", "iter"])
    out = {}
    for rt in types + [(N.loops[0], "intersect_9"), ("Q", "iter")]:
        if how == "all" or how == "some" and rng.random() < .5 or how == "iter" and rt[1] == "iter":
            out[rt] = rng.choice([(True, False), (True, False), (False, True), (True, True)])
    return out


def session(ctx, N, traces, prefix, explicit_match, abort=None, inspect=None, end=True):
    """run N collecting -> (run, z, dump, {key: rows})"""
    Metrics.beginCollect(prefix)
    mem = {}
    ended = False
    try:
        if explicit_match:
            for a, b in nest.match_calls(ctx.rng, N):
                Metrics.matchRanks(a, b)
        for (r, t), (f, m) in traces.items():
            if f:
                Metrics.trace(r, t)
            if m:
                Metrics.trace(r, t, consumable=True)
        z = nest.make_out(N)
        run = nest.Run(N, z)
        run.abort, run.inspect = abort, inspect
        try:
            run.go()
        except nest.Abort:
            run = None
        for k, (f, m) in traces.items():
            if m:
                mem[k] = Metrics.consumeTrace(*k)
                if Metrics.consumeTrace(*k) != []:
                    ctx.fail("a consumed trace is delivered again", repr(k))
        ended = True
    finally:
        if end or not ended:
            Metrics.endCollect()
    return run, z, Metrics.dump(), mem


def files(prefix):
    d, b = os.path.split(prefix)
    return {f[len(b):]: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.startswith(b + "-")}


def setup(ctx, **kw):
    N = nest.rand_nest(ctx.rng, **kw)
    ctx.describe(N.show())
    return N


def base(ctx, N):
    """run with collection off"""
    ctx.check(not Metrics.isCollecting(), "still collecting outside of a session")
    r, z = nest.execute(N)
    ctx.check(not r.errors, "loop bodies differ from the operators' meaning", lambda: r.errors[0])
    return r, z


def verify(ctx, N, r0, z0, r, z, dump, what):
    ctx.check(not r.errors, "loop bodies differ while collecting", lambda: f"{what}: {r.errors[0]}")
    ctx.check(r.seen == r0.seen, "the operands a body saw differ while collecting", lambda: f"{what}: {r.seen}\nwithout: {r0.seen}")
    ctx.check(nest.result(z) == nest.result(z0), "the result differs while collecting",
              lambda: f"{what}: {mon.show(z)}\nwithout: {mon.show(z0)}\n{nest.result(z)}\n{nest.result(z0)}")
    for op in OPS:
        got = Compute.numOps(dump, op)
        ctx.check(got == r.counts[op], f"reported {op} count differs from the {op}s executed", f"{what}: {got}, executed {r.counts[op]}")
        ctx.count({"mul": "muls", "add": "adds", "update": "updates"}[op], got)
    extra = {k for v in dump.values() for k in v} - {"payload_" + o for o in OPS}
    ctx.check(not extra or all(dump[a][k] == 0 for a in dump for k in dump[a] if k in extra), "unknown operations reported",
              lambda: repr(dump))
    ctx.count("bodies", sum(r.bodies.values()))


def iters(ctx, N, r, traces, prefix, mem, what):
    for (rank, t), (f, m) in traces.items():
        if t != "iter" or rank not in r.bodies:
            continue
        if f:
            path = f"{prefix}-{rank}-iter.csv"
            got = Compute.numIters(path) if os.path.exists(path) else 0
            ctx.check(got == r.bodies[rank], "iteration count differs from the loop bodies executed",
                      f"{what}: rank {rank}: {got}, executed {r.bodies[rank]}")
            ctx.count("iter_files")
        if m:
            got = max(0, len(mem[(rank, t)]) - 1)
            ctx.check(got == r.bodies[rank], "in-memory iteration count differs from the loop bodies executed",
                      f"{what}: rank {rank}: {got}, executed {r.bodies[rank]}")


def huge(ctx):
    """more iterations, payload operations and trace rows than any buffer holds by default"""
    transparent(ctx, ctx.rng.choice([1, 2, 2, 3]))


def transparent(ctx, huge=0):
    """off, on, off"""
    rng = ctx.rng
    N = setup(ctx, depth=huge, huge=True) if huge else setup(ctx)
    before = [mon.full_snap(o.tensor) for o in N.ops]
    r0, z0 = base(ctx, N)
    traces = register(rng, N, rng.choice(["all", "iter"]) if huge else None)
    prefix = os.path.join(ctx.scratch, f"t{ctx.i}")
    Metrics.setNumCachedUses(rng.choice([2, 100, 1000, 1000, 1000] if huge else [2, 3, 5, 1000]))
    inspect = Inspect(rng, 0) if rng.random() < .4 and not huge else None
    r, z, dump, mem = session(ctx, N, traces, prefix if traces or rng.random() < .5 else None, rng.random() < .5, inspect=inspect)
    Metrics.setNumCachedUses(1000)
    verify(ctx, N, r0, z0, r, z, dump, f"traces {sorted(traces)}")
    iters(ctx, N, r, traces, prefix, mem, "first session")
    after = [mon.full_snap(o.tensor) for o in N.ops]
    ctx.check(before == after, "an operand was changed while collecting", lambda: N.show())
    ctx.check(not Metrics.isCollecting(), "still collecting after the session")
    seen = files(prefix)
    frozen = repr(dump)
    r1, z1 = base(ctx, N)
    ctx.check(nest.result(z1) == nest.result(z0), "the result differs after a session", lambda: N.show())
    ctx.check(repr(Metrics.dump()) == frozen and files(prefix) == seen, "running outside of a session changed its counts or traces")
    for f in seen:
        os.unlink(prefix + f)
    ctx.count("nests")
    ctx.count("trace_files", len(seen))
    if len(N.loops) == 3:
        ctx.count("deep")
    if r.inserting:
        ctx.count("inserting")
    if r.counts["update"] > r.counts["add"]:
        ctx.count("zero_add")
    if not any(r.counts.values()):
        ctx.count("no_ops")
    if inspect:
        ctx.count("inspections", inspect.n)
    if huge:
        ctx.count("huge_ops", sum(r.counts.values()))
        ctx.count("huge_nests")
    if any(r.counts.values()):
        ctx.key(N.show())


def junk(ctx, others):
    """something that leaves its mark on the collection state"""
    rng = ctx.rng
    w = rng.choice(["session", "session", "abort", "abort", "unended", "flags", "match", "empty", "outside", "consumable", "unused"])
    ctx.op("history:", w)
    if w == "outside":
        nest.execute(rng.choice(others))
        return
    if w == "flags":
        Metrics.setNumCachedUses(rng.choice([2, 3, 4, 7, 1000]))
        return
    if w in ("empty", "match", "unused"):
        p = os.path.join(ctx.scratch, f"j{ctx.i}")
        Metrics.beginCollect(p)
        if w == "match":
            Metrics.matchRanks("M", "K")
            Metrics.matchRanks("XM", "N")
            Metrics.associateShape("K", (2, 3))
            Metrics.associateShape("M", (4, 3))
            Metrics.registerRank("N")
            Metrics.getLabel("M")
            Metrics.incCount("Compute", "payload_mul", 7)
            Metrics.addUse("N", 3, 1)
            Metrics.incIter("N")
        if w == "unused":
            Metrics.trace("M")
            Metrics.trace("K", "intersect_0", consumable=True)
        if rng.random() < .8:
            Metrics.endCollect()
        ctx.count("sessions")
        return
    N = rng.choice(others)
    traces = register(rng, N)
    if w == "consumable":
        traces = {k: (False, True) for k in traces}
    p = os.path.join(ctx.scratch, f"{'a' if rng.random() < .4 else 'j'}{ctx.i}")
    session(ctx, N, traces, p, rng.random() < .5, abort=rng.randint(1, 6) if w == "abort" else None, end=w != "unended")
    if w == "abort":
        ctx.count("aborted")
    if w == "unended":
        ctx.count("unended")
    ctx.count("sessions")


def histories(ctx):
    """the same kernel reports the same whatever ran before"""
    rng = ctx.rng
    N = setup(ctx)
    others = [N] + [nest.rand_nest(rng) for _ in range(2)]
    for i, o in enumerate(others[1:]):
        ctx.op(f"other {i}: {o.show()}")
    traces = register(rng, N, rng.choice(["all", "all", "some"]))
    match = rng.random() < .5
    r0, z0 = base(ctx, N)
    first = None
    for k in range(rng.randint(2, 3)):
        p = os.path.join(ctx.scratch, f"{'a' if k == 0 or rng.random() < .5 else 'b%d_' % k}{ctx.i}")
        if first and p == first[0]:
            ctx.count("same_prefix")
        r, z, dump, mem = session(ctx, N, traces, p, match)
        fs = files(p)
        want = {f"-{a}-{b}.csv" for (a, b), (f, m) in traces.items() if f}
        fs = {f: fs.get(f, "") for f in want}
        verify(ctx, N, r0, z0, r, z, dump, f"session {k}")
        iters(ctx, N, r, traces, p, mem, f"session {k}")
        if first is None:
            first = (p, copy.deepcopy(dump), fs, mem)
        else:
            ctx.check(dump == first[1], "counts depend on what ran before", lambda: f"{dump}\nfirst: {first[1]}")
            for f in want:
                ctx.check(fs[f] == first[2][f], "a trace depends on what ran before", lambda: f"{f}:\n{fs[f]}\nfirst:\n{first[2][f]}")
            ctx.check(mem == first[3], "an in-memory trace depends on what ran before", lambda: f"{mem}\nfirst: {first[3]}")
            ctx.count("replayed")
        ctx.count("sessions")
        ctx.count("trace_files", len(fs))
        for _ in range(rng.randint(1, 3)):
            junk(ctx, others)
    if Metrics.isCollecting():
        Metrics.beginCollect()
        Metrics.endCollect()
    Metrics.setNumCachedUses(1000)
    for f in os.listdir(ctx.scratch):
        os.unlink(os.path.join(ctx.scratch, f))
    ctx.key("hist", N.show(), sorted(traces))


def operators(ctx):
    """every payload operator, every operand form, counted one by one"""
    rng = ctx.rng
    want = dict.fromkeys(OPS, 0)
    Metrics.beginCollect()
    n = rng.randint(1, 40)
    log = []

    def value(e):
        return mon.unbox(e.payload if isinstance(e, CoordPayload) else e)
    try:
        for _ in range(n):
            a = rng.choice([0, 1, 2, -3, 2.5])
            b = rng.choice([0, 1, 2, -3, 2.5])
            x = rng.choice([Payload, Payload, lambda v: CoordPayload(3, v), lambda v: CoordPayload(1, Payload(v))])(a)
            y = rng.choice([b, Payload(b), CoordPayload(2, b)])
            w = rng.choice(["add", "radd", "iadd", "mul", "rmul", "imul", "set", "sub", "cmp", "isub", "noop"])
            log.append((w, a, b, type(x).__name__, type(y).__name__))
            if w == "add":
                v, want["add"] = x + y, want["add"] + 1
                ctx.check(mon.unbox(v) == a + b, "wrong sum while collecting", repr(log[-1]))
            elif w == "radd":
                v, want["add"] = b + x, want["add"] + 1
                ctx.check(mon.unbox(v) == a + b, "wrong sum while collecting", repr(log[-1]))
            elif w == "iadd":
                x += y
                want["update"] += 1
                want["add"] += a != 0
                ctx.check(value(x) == a + b, "wrong sum while collecting", repr(log[-1]))
            elif w == "mul":
                v, want["mul"] = x * y, want["mul"] + 1
                ctx.check(mon.unbox(v) == a * b, "wrong product while collecting", repr(log[-1]))
            elif w == "rmul":
                v, want["mul"] = b * x, want["mul"] + 1
                ctx.check(mon.unbox(v) == a * b, "wrong product while collecting", repr(log[-1]))
            elif w == "imul":
                x *= y
                want["mul"] += 1
                want["update"] += 1
                ctx.check(value(x) == a * b, "wrong product while collecting", repr(log[-1]))
            elif w == "set":
                x <<= y
                want["update"] += 1
                ctx.check(value(x) == b, "wrong value while collecting", repr(log[-1]))
            elif w == "sub":
                x - y, b - x
            elif w == "isub":
                x -= y
            elif w == "cmp":
                x == y, x < y, x >= y, str(x), copy.deepcopy(x)
                if isinstance(x, Payload):
                    bool(x), int(x), Payload.isEmpty(x)
    finally:
        Metrics.endCollect()
    ctx.describe(repr(log)[:500])
    d = Metrics.dump()
    for op in OPS:
        ctx.check(Compute.numOps(d, op) == want[op], f"reported {op} count differs from the {op}s executed",
                  lambda: f"{Compute.numOps(d, op)}, executed {want[op]}: {log}")
    ctx.count("raw_ops", n)
    ctx.count("element_ops", sum("CoordPayload" in x[3:] for x in log))
    ctx.key(tuple(log))


def flattened(ctx):
    """nests over flattened ranks (tuple coordinates, list rank ids)"""
    rng = ctx.rng
    shape = gen.rand_shape(rng, 2, 1, 4)
    ts = []
    for i in range(2):
        rt = gen.rand_rt(rng, shape, 0, vals=gen.Vals(rng, 0, "uniq"))
        ts.append(Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(rt, 2, 0), shape=list(shape)).flattenRanks())
    rename = rng.random() < .6
    if rename:
        for t in ts:
            t.setRankIds(["MK"])
    rid = "MK" if rename else ts[0].getRankIds()[0]
    r1 = gen.rand_rt(rng, [shape[0]], 0, vals=gen.Vals(rng, 0, "uniq"))
    v = Tensor.fromFiber(rank_ids=["MK"], fiber=gen.build(r1, 1, 0), shape=[shape[0]]).getRoot()
    a, b = ts[0].getRoot(), ts[1].getRoot()
    kind = rng.choice(["and", "or", "pop", "mixed", "mixed_r", "lf", "iter", "sub"])
    zf = rng.random() < .5
    ctx.describe(f"flattened {kind} rename={rename} {mon.show(a)} {mon.show(b)} {mon.show(v)}")
    ca, cb, cv = mon.content(a), mon.content(b), mon.content(v)

    def go():
        z = Tensor(rank_ids=[rid], shape=[tuple(shape)], default=0)
        zr = z.getRoot()
        if zf and a.coords:
            ref = zr.getPayloadRef(a.coords[-1])
            ref <<= 5
        seen = []
        if kind == "and":
            e = a & b
        elif kind == "or":
            e = a | b
        elif kind == "sub":
            e = a - b
        elif kind == "lf":
            e = Fiber.intersection(a, b, style="leader-follower")
        elif kind == "pop":
            e = zr << (a & b)
        elif kind == "mixed":
            e = a & v
        elif kind == "mixed_r":
            e = v & a
        else:
            e = a
        for c, p in e:
            p = mon.unbox(p)
            if kind == "pop":
                p[0].__iadd__(p[1][0] * p[1][1])
                seen.append((c, mon.unbox(p[1][0])))
            elif kind in ("and", "mixed", "mixed_r", "lf"):
                seen.append((c, mon.unbox(p[0] * p[1])))
            elif kind == "or":
                seen.append((c, p[0], mon.unbox(p[1] + p[2])))
            else:
                seen.append((c, mon.unbox(p)))
        return seen, nest.result(z)
    off = go()
    pa = {(k[0],) if isinstance(k, tuple) and not isinstance(k[0], tuple) and False else k[0]: x for k, x in ca.items()}
    pb = {k[0]: x for k, x in cb.items()}
    pv = {k[0]: x for k, x in cv.items()}
    both = sorted(set(pa) & set(pb))
    want = {"and": [(c, pa[c] * pb[c]) for c in both], "mixed": [(c, pa[c] * pv[c[0]]) for c in sorted(pa) if c[0] in pv],
            "mixed_r": [(c, pa[c] * pv[c[0]]) for c in sorted(pa) if c[0] in pv], "sub": [(c, pa[c]) for c in sorted(set(pa) - set(pb))],
            "lf": [(c, pa[c] * pb.get(c, 0)) for c in sorted(pa)], "pop": [(c, pa[c]) for c in both],
            "or": [(c, ("A" if c in pa else "") + ("B" if c in pb else ""), pa.get(c, 0) + pb.get(c, 0)) for c in sorted(set(pa) | set(pb))],
            "iter": [(c, pa[c]) for c in sorted(pa)]}[kind]
    ctx.check(off[0] == want, "loop over a flattened rank sees the wrong elements", lambda: f"{off[0]}\nexpected {want}")
    prefix = os.path.join(ctx.scratch, f"f{ctx.i}")
    name = "MK" if kind == "mixed_r" else str(rid)
    flat = rename and rng.random() < .6
    traced = rng.random() < .7

    def collect():
        Metrics.beginCollect(prefix)
        if flat:
            Metrics.associateShape(name, tuple(shape))
        if traced:
            for t in ("iter", "intersect_0", "intersect_1", "populate_read_0", "populate_write_0", "populate_1", "union_0"):
                Metrics.trace(name, t)
        on = go()
        Metrics.endCollect()
        return on, Metrics.dump(), files(prefix)
    on, d, fs = collect()
    ctx.check(on == off, "the result differs while collecting", lambda: f"{on}\nwithout {off}")
    if rng.random() < .6:       # a session with other shapes, or other matches, in between
        Metrics.beginCollect(prefix + "x")
        for r in rng.sample(["MK", str(rid), "M", "K"], 2):
            Metrics.associateShape(r, (rng.randint(2, 9), rng.randint(2, 9)))
        if rng.random() < .5:
            Metrics.matchRanks("MK", "K")
        if rng.random() < .5:
            Metrics.trace(name, "iter")
            go()
        if rng.random() < .7:
            Metrics.endCollect()
        for f in files(prefix):
            os.unlink(prefix + f)
        again = collect()
        ctx.check(again[0] == on and again[1] == d, "counts or results of a flattened kernel depend on what ran before",
                  lambda: f"{again[:2]}\nfirst {on} {d}")
        ctx.check(again[2] == fs, "a trace of a flattened kernel depends on what ran before", lambda: f"{again[2]}\nfirst {fs}")
        for f in os.listdir(ctx.scratch):
            if f.startswith(f"f{ctx.i}x"):
                os.unlink(os.path.join(ctx.scratch, f))
        ctx.count("flat_again")
    muls = len(on[0]) if kind in ("and", "mixed", "mixed_r", "lf", "pop") else 0
    ctx.check(Compute.numOps(d, "mul") == muls, "reported mul count differs from the muls executed", f"{d} executed {muls}")
    if traced:
        path = f"{prefix}-{name}-iter.csv"
        ctx.check(Compute.numIters(path) == len(on[0]), "iteration count differs from the loop bodies executed", path)
        if flat:
            got = [int(x[1]) for x in nest.read_csv(path)[1:]]
            ctx.check(got == [c[0][0] * shape[1] + c[0][1] for c in on[0]], "flattened coordinates traced wrongly",
                      lambda: f"{got} for {[c[0] for c in on[0]]}")
        for f in files(prefix):
            os.unlink(prefix + f)
    ctx.count("flattened")
    ctx.key("flat", kind, mon.show(a), mon.show(b))


GENERATORS = {
    "transparent": (transparent, 12000, 250000),
    "huge": (huge, 60, 1200),
    "histories": (histories, 2000, 40000),
    "operators": (operators, 2500, 20000),
    "flattened": (flattened, 1200, 9000),
}
