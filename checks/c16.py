"""C16: traces are well-formed: one sorted, correctly addressed row per traced access."""
import copy
import os
from fibertree import Fiber, Metrics, Payload, Tensor
from lib import gen, mon, nest

RULE = ("random loop nests (depth 1-3, all co-iterators, projections in both directions, explicit defaults, empty fibers, "
        "uncompressed ranks, filled / inserting / estimated-shape outputs) with all or a subset of the trace types registered as "
        "file and/or consumable traces under flush thresholds 2..1000, changed while running, and consumed in the middle of loops. "
        "An independent lazy model of the co-iteration says which element of which operand each label reads at each step; every "
        "trace is compared with it row by row, stamps are checked against the loop-body log. Non-trivial: distinct nests with at "
        "least one traced row below the header")
FLOORS = {"huge_rows": 150000, "flushed_by_default": 4, "staged": 3500, "flat_rows": 2500, "late_rows": 6000, "late_again": 150, "start_pos": 400, "nests": 20000, "traces": 150000, "rows": 250000, "iter": 90000, "intersect": 60000, "union": 20000, "project": 9000,
          "populate_1": 40000, "populate_read_0": 12000, "populate_write_0": 20000, "inserting": 3500, "explicit_pos": 8000,
          "uncompressed": 4000, "mem_rows": 100000, "thresholds": 9000, "mid_consumed": 8000, "lookups": 6000, "trees": 700,
          "empty_traces": 20000, "mode_pos": 4000, "deep": 4000, "drained": 6000}
ASSUMPTIONS = ["the position in a lazily produced fiber is the ordinal of the element delivered", "a union presents an element when "
               "it yields it, an intersection when it compares it", "the position of a looked-up element that is absent is free",
               "a trace whose rank is never iterated may be absent, empty or a header"]


def header(N, rank):
    loop = rank[1:] if rank not in N.loops else rank
    l = N.loops.index(loop)
    rs = N.loops[:l + 1]
    return [r + "_pos" for r in rs] + rs + ["fiber_pos"], l


class Hook:
    """runs at every loop body: consumes traces, changes the flush threshold"""

    def __init__(self, ctx, mem, on):
        self.ctx, self.mem, self.on, self.n = ctx, mem, on, 0

    def __call__(self, env, z):
        rng = self.ctx.rng
        if self.on and rng.random() < .15:
            for k in self.mem:
                if rng.random() < .4:
                    self.mem[k] += Metrics.consumeTrace(*k)
                    self.n += 1
        if self.on and rng.random() < .05:
            Metrics.setNumCachedUses(rng.choice([2, 3, 4, 5, 7, 1000]))


def run(ctx, N, traces, prefix, cached, hook=True, match=True):
    mem = {k: [] for k, (f, m) in traces.items() if m}
    Metrics.setNumCachedUses(cached)
    Metrics.beginCollect(prefix)
    try:
        if match:
            for a, b in nest.match_calls(ctx.rng, N):
                Metrics.matchRanks(a, b)
        for (r, t), (f, m) in traces.items():
            if f:
                Metrics.trace(r, t)
            if m:
                Metrics.trace(r, t, consumable=True)
        z = nest.make_out(N)
        r = nest.Run(N, z)
        h = r.inspect = Hook(ctx, mem, hook)
        r.go()
        for k in mem:
            mem[k] += Metrics.consumeTrace(*k)
    finally:
        Metrics.endCollect()
        Metrics.setNumCachedUses(1000)
    ctx.count("mid_consumed", h.n)
    ctx.check(not r.errors, "loop bodies differ from the operators' meaning", lambda: r.errors[0])
    return r, mem


def load(prefix, k):
    path = f"{prefix}-{k[0]}-{k[1]}.csv"
    return nest.read_csv(path) if os.path.exists(path) else []


def well_formed(ctx, N, k, rows):
    """header and stamps -> parsed [(stamp, coords, pos)] or None if never started"""
    if not rows:
        return None
    head, l = header(N, k[0])
    ctx.check(rows[0] == head, "trace header does not name the loop ranks down to the traced one", lambda: f"{k}: {rows[0]}")
    n = l + 1
    out = []
    for x in rows[1:]:
        ctx.check(len(x) == 2 * n + 1 and "_pos" not in "".join(x), "malformed trace row", lambda: f"{k}: {x}")
        out.append((tuple(map(int, x[:n])), tuple(map(int, x[n:2 * n])), int(x[-1])))
    for a, b in zip(out, out[1:]):
        ctx.check(a[0] <= b[0], "iteration stamps decrease", lambda: f"{k}: {a} then {b}")
        ctx.check(k[1] != "iter" or a[0] < b[0], "iteration stamps of an iteration trace repeat", lambda: f"{k}: {a} then {b}")
    return out


def compare(ctx, N, r, k, got, enclosing):
    """got: parsed rows.  enclosing: body ordinal of the enclosing loop -> stamp, or None"""
    if k[1] in ("populate_read_0", "populate_write_0"):
        return destination(ctx, N, r, k, got, enclosing)
    want = r.rows.get(k, [])
    got = got or []
    ctx.check([g[1] for g in got] == [w[0] for w in want], "trace rows are not the accesses in execution order",
              lambda: f"{k}: {[g[1] for g in got]}\nexpected {[w[0] for w in want]}")
    for g, w in zip(got, want):
        ctx.check(w[1] is None or g[2] == w[1], "traced position is not the index of the element in its fiber",
                  lambda: f"{k}: at {g[1]} stamp {g[0]}: {g[2]}, expected {w[1]}")
        if w[2] and enclosing:
            ctx.check(g[0][:-1] == enclosing[w[2][-1]], "iteration stamp does not belong to the enclosing loop bodies",
                      lambda: f"{k}: {g}, enclosing body {enclosing[w[2][-1]]}")
    typ = k[1].split("_")[0] if not k[1].startswith("populate") else k[1]
    ctx.count(typ, len(got))


def destination(ctx, N, r, k, got, enclosing):
    segs = r.segs.get(k, [])
    got = got or []
    level = N.loops.index(k[0])
    if level and not enclosing:
        if any(s[2] for s in segs):
            return
        flat = [w for s in segs for w in s[3]]
        ctx.check([g[1:] for g in got] == [w[:2] for w in flat], "trace rows are not the accesses in execution order",
                  lambda: f"{k}: {got}\nexpected {flat}")
        return
    groups = {}
    for g in got:
        groups.setdefault(g[0][:-1], []).append(g)
    for ords, prefix, inserting, rows, final, inserted, bound in segs:
        key = enclosing[ords[-1]] if ords else ()
        have = groups.pop(key, [])
        if not inserting:
            ctx.check([g[1:] for g in have] == [w[:2] for w in rows], "destination rows are not the accesses in execution order",
                      lambda: f"{k} under {prefix}: {have}\nexpected {rows}")
            continue
        ctx.count("inserting")
        it = iter([g[1] for g in have])
        for w in rows:
            ctx.check(any(c == w[0] for c in it), "an access of an inserting populate is missing from its trace",
                      lambda: f"{k} under {prefix}: {have}\naccesses {rows}")
        ctx.check(all(g[1][:-1] == prefix for g in have), "outer coordinates of a destination row are wrong", lambda: f"{k}: {have}")
        if not inserted:
            ctx.check(k[1] != "populate_write_0" or len(have) == len(rows), "more writes than accesses without an insertion",
                      lambda: f"{k} under {prefix}: {have}\naccesses {rows}")
            continue
        # what is inserted is staged beyond the fiber's shape
        for c in inserted:
            at = [g[2] for g in have if g[1] == prefix + (c,)]
            if k[1] == "populate_write_0":
                ctx.check(at and at[0] >= bound, "an inserted element is not staged beyond the fiber's shape",
                          lambda: f"{k} under {prefix}: {c} at {at}, shape {bound}: {have}")
            else:
                ctx.check(all(x >= bound for x in at), "an inserted element is not read from beyond the fiber's shape",
                          lambda: f"{k} under {prefix}: {c} at {at}, shape {bound}: {have}")
            ctx.count("staged", len(at))
        # everything from the first insertion on is moved to where it ends up
        tail = [(prefix + (c,), i) for i, c in enumerate(final)][final.index(inserted[0]):] if inserted[0] in final else []
        seen = {g[1:] for g in have}
        for pt, i in tail:
            if k[1] == "populate_write_0":
                ctx.check((pt, i) in seen, "an element moved by an insertion is not written to its final position",
                          lambda: f"{k} under {prefix}: {pt} at {i}: {have}\nfinal {final} inserted {inserted}")
            else:
                ctx.check(any(g[1] == pt for g in have), "an element moved by an insertion is not read",
                          lambda: f"{k} under {prefix}: {pt}: {have}\nfinal {final} inserted {inserted}")
            ctx.count("drained")
    ctx.check(not groups, "destination rows outside of any populate loop", lambda: f"{k}: {groups}")
    ctx.count(k[1], len(got))


def stats(ctx, N, r):
    ctx.count("uncompressed", sum("U" in o.fmts for o in N.ops))
    if len(N.loops) == 3:
        ctx.count("deep")
    for o in N.ops:
        if any(mon.unbox(p) == o.default for _, p in mon.leaves(o.tensor.getRoot())):
            ctx.count("explicit_pos")
            break


def judge(ctx, N, r, traces, prefix, mem):
    """all monitors over one session"""
    parsed = {}
    for k, (f, m) in traces.items():
        fr = load(prefix, k) if f else None
        if m:
            mr = [[str(x) for x in row] for row in mem[k]]
            ctx.count("mem_rows", len(mr))
            if f:
                ctx.check(mr == fr, "in-memory and file traces differ", lambda: f"{k}: {mr}\nfile {fr}")
            fr = mr
        parsed[k] = well_formed(ctx, N, k, fr)
        ctx.count("traces")
        ctx.count("rows", len(parsed[k] or []))
        if not parsed[k]:
            ctx.count("empty_traces")
    for k in traces:
        l = header(N, k[0])[1]
        enc = None
        if l and parsed.get((N.loops[l - 1], "iter")) is not None:
            enc = [g[0] for g in parsed[(N.loops[l - 1], "iter")]]
            ctx.check(len(enc) == r.bodies[N.loops[l - 1]], "iteration trace misses loop bodies", lambda: repr(k))
        if parsed[k] is None:
            ctx.check(not r.rows.get(k) and not any(s[3] for s in r.segs.get(k, [])), "a trace with accesses was not written", repr(k))
            continue
        compare(ctx, N, r, k, parsed[k], enc)
    return parsed


def clean(prefix):
    d, b = os.path.split(prefix)
    for f in os.listdir(d):
        if f.startswith(b + "-"):
            os.unlink(os.path.join(d, f))


def kinds(rng, types, how):
    out = {}
    for k in types:
        if how == "all" or rng.random() < .6:
            out[k] = rng.choice([(True, False), (True, False), (True, True), (False, True)])
    return out


def nests(ctx, **kw):
    rng = ctx.rng
    N = nest.rand_nest(rng, **kw)
    ctx.describe(N.show())
    types = nest.all_types(N)
    traces = kinds(rng, types + [(rng.choice(N.loops), rng.choice(["intersect_8", "union_9", "populate_7"]))],
                   rng.choice(["all", "all", "some"]))
    prefix = os.path.join(ctx.scratch, f"t{ctx.i}")
    r, mem = run(ctx, N, traces, prefix, rng.choice([2, 3, 4, 5, 7, 11, 1000]), hook=rng.random() < .6, match=rng.random() < .6)
    judge(ctx, N, r, traces, prefix, mem)
    stats(ctx, N, r)
    clean(prefix)
    ctx.count("nests")
    if any(r.rows.values()):
        ctx.key(N.show())


def huge(ctx):
    """nests with thousands of accesses per trace, under the default flush threshold and others as large"""
    rng = ctx.rng
    N = nest.rand_nest(rng, depth=rng.choice([1, 2, 2, 3]), huge=True)
    ctx.describe(" ".join([f"huge {N.size} {N.levels} out {N.out} {N.zspec} {N.body}"] + [f"{o.ids} {o.fmts}" for o in N.ops]))
    types = nest.all_types(N)
    prefix = os.path.join(ctx.scratch, f"g{ctx.i}")
    how = rng.random()
    traces = kinds(rng, types, "all") if how < .5 else {k: (True, False) for k in types}
    th = rng.choice([1000, 1000, 1000, 2, 64, 100, 999, 1001, 2500])
    r, mem = run(ctx, N, traces, prefix, th, hook=how < .25, match=rng.random() < .6)
    parsed = judge(ctx, N, r, traces, prefix, mem)
    n = [len(x or []) for x in parsed.values()]
    ctx.count("huge_rows", sum(n))
    ctx.count("flushed_by_default", th == 1000 and any(f and len(parsed[k] or []) > 1000 for k, (f, m) in traces.items()))
    clean(prefix)
    if any(x > 1000 for x in n):
        ctx.key("huge", N.size, repr(N.levels), N.out, N.body, th)


def thresholds(ctx):
    """the content does not depend on the buffering"""
    rng = ctx.rng
    N = nest.rand_nest(rng)
    ctx.describe(N.show())
    types = nest.all_types(N)
    prefix = os.path.join(ctx.scratch, f"h{ctx.i}")
    ref = None
    for cached in [1000] + rng.sample([2, 3, 4, 5, 6, 7, 8, 13], 3):
        traces = {k: (True, False) for k in types}
        r, _ = run(ctx, N, traces, prefix, cached, hook=False)
        got = {k: open(f"{prefix}-{k[0]}-{k[1]}.csv").read() if os.path.exists(f"{prefix}-{k[0]}-{k[1]}.csv") else None for k in types}
        if ref is None:
            ref = got
            judge(ctx, N, r, traces, prefix, {})
        else:
            for k in types:
                ctx.check(got[k] == ref[k], "the trace depends on the flush threshold",
                          lambda: f"{k}: threshold {cached}:\n{got[k]}\nunbuffered:\n{ref[k]}")
            ctx.count("thresholds")
        if rng.random() < .5:
            clean(prefix)
    traces = {k: (False, True) for k in types}
    r, mem = run(ctx, N, traces, None, rng.choice([2, 5, 1000]), hook=True)
    for k in types:
        txt = "".join(",".join(map(str, row)) + "\n" for row in mem[k])
        ctx.check(txt == (ref[k] or ""), "the in-memory trace differs from the file", lambda: f"{k}:\n{txt}\nfile:\n{ref[k]}")
        ctx.count("mem_rows", len(mem[k]))
    clean(prefix)
    ctx.key("thr", N.show())


def lookups(ctx):
    """explicitly traced look-ups in the loop bodies"""
    rng = ctx.rng
    n, m = gen.rand_shape(rng, 2, 1, 5)
    ta = Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(gen.rand_rt(rng, [n, m], 0, density=.8), 2, 0), shape=[n, m])
    tb = Tensor.fromFiber(rank_ids=["K"], fiber=gen.build(gen.rand_rt(rng, [m], 0), 1, 0), shape=[m])
    tz = Tensor.fromFiber(rank_ids=["K"], fiber=gen.build(gen.rand_rt(rng, [m], 0, density=.4), 1, 0), shape=[m])
    b, z = tb.getRoot(), tz.getRoot()
    ctx.describe(f"look-ups {mon.show(ta)} {mon.show(tb)} {mon.show(tz)}")
    prefix = os.path.join(ctx.scratch, f"l{ctx.i}")
    Metrics.setNumCachedUses(rng.choice([2, 3, 1000]))
    Metrics.beginCollect(prefix)
    want = {"get": [], "ref": []}
    for t in ("get", "ref"):
        Metrics.trace("K", t)
    Metrics.trace("K")
    ordinal = []
    untraced = rng.random() < .3
    try:
        for mc, f in ta.getRoot():
            for kc, v in f:
                ordinal.append((mc, kc))
                if rng.random() < .8:
                    pos = b.coords.index(kc) if kc in b.coords else None
                    got = b.getPayload(kc, trace="get")
                    want["get"].append(((mc, kc), pos, len(ordinal) - 1))
                    ctx.check(mon.unbox(got) == (mon.unbox(b.payloads[pos]) if pos is not None else 0), "wrong look-up while collecting")
                if untraced:
                    b.getPayload(kc), z.getPayload(kc)
                if rng.random() < .8:
                    z.getPayloadRef(kc, trace="ref")
                    want["ref"].append(((mc, kc), z.coords.index(kc), len(ordinal) - 1))
                elif untraced:
                    z.getPayloadRef(kc)
    finally:
        Metrics.endCollect()
        Metrics.setNumCachedUses(1000)
    it = load(prefix, ("K", "iter"))
    for t in ("get", "ref"):
        rows = load(prefix, ("K", t))
        if not ordinal:
            ctx.check(len(rows) <= 1, "rows without accesses", repr(rows))
            continue
        ctx.check(rows[0] == ["M_pos", "K_pos", "M", "K", "fiber_pos"], "trace header does not name the loop ranks", repr(rows[0]))
        ctx.check([tuple(map(int, x[2:4])) for x in rows[1:]] == [w[0] for w in want[t]], "trace rows are not the accesses in execution order",
                  lambda: f"{t}: {rows}\nexpected {want[t]}")
        for x, w in zip(rows[1:], want[t]):
            ctx.check(w[1] is None or int(x[4]) == w[1], "traced position is not the index of the element in its fiber",
                      lambda: f"{t}: {x} expected {w[1]}")
            ctx.check(x[:2] == it[1 + w[2]][:2], "look-up is not stamped with the iteration it was made in", lambda: f"{t}: {x} {it[1 + w[2]]}")
        ctx.count("lookups", len(rows) - 1)
    clean(prefix)
    ctx.key("lookup", mon.show(ta), mon.show(tb), len(want["get"]))


def trees(ctx):
    """Fiber.trace(): a whole sub-tree read out below the current point"""
    rng = ctx.rng
    shape = gen.rand_shape(rng, 2, 1, 4)
    t = Tensor.fromFiber(rank_ids=["K", "N"], fiber=gen.build(gen.rand_rt(rng, shape, 0, density=.8), 2, 0), shape=shape)
    o = Tensor.fromUncompressed(rank_ids=["M"], root=[rng.choice([0, 1, 2]) for _ in range(3)])
    ctx.describe(f"tree read {mon.show(t)} under {mon.show(o)}")
    prefix = os.path.join(ctx.scratch, f"r{ctx.i}")
    Metrics.setNumCachedUses(rng.choice([2, 3, 1000]))
    Metrics.beginCollect(prefix)
    for r in ("K", "N"):
        Metrics.trace(r, "eager")
    want = {"K": [], "N": []}
    root = t.getRoot()
    started = False
    try:
        for r in ("M", "K", "N"):
            Metrics.registerRank(r)
        for mc, _ in o.getRoot():
            started = True
            root.trace("eager")
            for kc, kp in mon.present(root):
                want["K"].append(((mc, kc), root.coords.index(kc)))
                for nc, _ in mon.present(kp):
                    want["N"].append(((mc, kc, nc), kp.coords.index(nc)))
    finally:
        Metrics.endCollect()
        Metrics.setNumCachedUses(1000)
    for r, n in (("K", 2), ("N", 3)):
        rows = load(prefix, (r, "eager"))
        ctx.check(rows[0] == ["M_pos", "K_pos", "N_pos"][:n] + ["M", "K", "N"][:n] + ["fiber_pos"], "trace header does not name the loop ranks",
                  repr(rows[0]))
        got = [(tuple(map(int, x[n:2 * n])), int(x[-1])) for x in rows[1:]]
        ctx.check(got == want[r], "traced sub-tree differs from the elements stored", lambda: f"{r}: {got}\nexpected {want[r]}")
        st = [tuple(map(int, x[:n])) for x in rows[1:]]
        ctx.check(all(a < b for a, b in zip(st, st[1:])), "iteration stamps of a traced sub-tree do not increase", lambda: repr(st))
    clean(prefix)
    ctx.count("trees")
    ctx.key("tree", mon.show(t), mon.show(o))


def late(ctx):
    """traces requested, ranks matched and repeated registrations at unusual times"""
    rng = ctx.rng
    t = Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(gen.rand_rt(rng, [3, 3], 0, density=.8), 2, 0), shape=[3, 3])
    ctx.describe(f"late {mon.show(t)}")
    prefix = os.path.join(ctx.scratch, f"x{ctx.i}")
    with open(f"{prefix}-K-iter.csv", "w") as f:
        f.write("stale,content\n1,2\n")
    Metrics.setNumCachedUses(rng.choice([2, 3, 1000]))
    Metrics.beginCollect(prefix)
    order = rng.random() < .5
    when = rng.choice(["before", "registered", "never"])
    if order:
        Metrics.registerRank("M")
        Metrics.registerRank("K")
    if when != "never" or order:
        Metrics.trace("K")
    want = []
    n = 0
    for mc, f in t.getRoot():
        for kc, v in f:
            want.append([str(mc), str(kc), str(f.coords.index(kc))])
        n += 1
    Metrics.endCollect()
    Metrics.setNumCachedUses(1000)
    rows = load(prefix, ("K", "iter"))
    if when == "never" and not order:
        ctx.check(rows == [["stale", "content"], ["1", "2"]], "an unregistered trace wrote a file", repr(rows))
    elif n or order:
        ctx.check(rows and rows[0] == ["M_pos", "K_pos", "M", "K", "fiber_pos"] and [x[2:] for x in rows[1:]] == want,
                  "trace differs from the iterations", lambda: f"{rows}\nexpected {want}")
    else:
        ctx.check(len(rows) <= 1 and ["stale", "content"] not in rows, "rows of an earlier session are left", repr(rows))
    clean(prefix)
    ctx.key("late", when, order, mon.show(t))


def latecomers(ctx):
    """traces first asked for in the middle of a run hold the rest of their rows"""
    rng = ctx.rng
    N = nest.rand_nest(rng, depth=rng.choice([1, 2, 2, 3]))
    ctx.describe(N.show())
    prefix = os.path.join(ctx.scratch, f"l{ctx.i}")
    types = nest.all_types(N)
    some = [k for k in types if rng.random() < .7] or types[:1]
    when, base, mem, part, again = rng.randint(0, 6), {}, {}, {}, rng.random() < .6
    Metrics.setNumCachedUses(rng.choice([2, 3, 5, 1000]))
    Metrics.beginCollect(prefix)
    try:
        if rng.random() < .5:
            for a, b in nest.match_calls(rng, N):
                Metrics.matchRanks(a, b)
        z = nest.make_out(N)
        r = nest.Run(N, z)
        calls = [0]

        def hook(env, z):
            if calls[0] == when:
                for k in some:
                    base[k] = len(r.rows.get(k, []))
                    how = rng.choice(["file", "file", "mem", "both"])
                    if how != "mem":
                        Metrics.trace(*k)
                    if how != "file":
                        Metrics.trace(*k, consumable=True)
                        mem[k] = how
            elif calls[0] > when and again and rng.random() < .3:
                # asking again changes nothing; what is consumed is delivered once
                k = rng.choice(list(base) or some)
                if mem.get(k) != "mem":
                    Metrics.trace(*k)
                if k in mem:
                    if rng.random() < .5:
                        Metrics.trace(*k, consumable=True)
                    else:
                        part.setdefault(k, []).extend(Metrics.consumeTrace(*k))
                ctx.count("late_again")
            calls[0] += 1
        r.inspect = hook
        r.go()
        got = {k: [[str(v) for v in x] for x in part.get(k, []) + Metrics.consumeTrace(*k)] for k in mem}
    finally:
        Metrics.endCollect()
        Metrics.setNumCachedUses(1000)
    ctx.check(not r.errors, "loop bodies differ from the operators' meaning", lambda: r.errors[0])
    for k, n0 in base.items():
        for rows in ([got[k]] if k in got else []) + ([load(prefix, k)] if mem.get(k) != "mem" else []):
            parsed = well_formed(ctx, N, k, rows) or []
            if k[1] in ("populate_read_0", "populate_write_0"):
                continue
            want = r.rows.get(k, [])
            cs = [g[1] for g in parsed]
            ctx.check(len(cs) <= len(want) and cs == [w[0] for w in want[len(want) - len(cs):]],
                      "a trace asked for late does not hold the accesses since, in order", lambda: f"{k}: {cs}\nall accesses {want}")
            ctx.check(len(cs) == len(want) - n0 if k[1] == "iter" else len(cs) >= len(want) - n0, "a trace asked for late misses accesses",
                      lambda: f"{k}: {cs}\nall accesses {want}, {n0} before")
            ctx.count("late_rows", len(cs))
    if base:
        ctx.key("late", N.show(), when)
    clean(prefix)


MODES = ["iter", "occupancy", "active", "shape", "activeshape", "range", "rangeshape", "shaperef", "activeshaperef", "rangeshaperef",
         "coitershape", "coiteractive", "coiterrange", "coitershaperef"]


def visit(f, mode, a, b, step, tick, sp=None):
    """walk the fiber as told"""
    if mode in ("iter", "occupancy", "active", "range"):
        if sp is not None and f.coords and f.getRankAttrs().getFormat() == "C":
            sp = min(sp, len(f.coords) - 1)
            return {"iter": lambda: f.__iter__(tick, start_pos=sp), "occupancy": lambda: f.iterOccupancy(tick, start_pos=sp),
                    "active": lambda: f.iterActive(tick, start_pos=sp), "range": lambda: f.iterRange(a, b, tick, start_pos=sp)}[mode]()
        return {"iter": lambda: f.__iter__(tick), "occupancy": lambda: f.iterOccupancy(tick), "active": lambda: f.iterActive(tick),
                "range": lambda: f.iterRange(a, b, tick)}[mode]()
    if mode.startswith("coiter"):
        fib = {"coitershape": lambda: Fiber.coiterShape([f]), "coiteractive": lambda: Fiber.coiterActiveShape([f]),
               "coiterrange": lambda: Fiber.coiterRangeShape([f], a, b, step), "coitershaperef": lambda: Fiber.coiterShapeRef([f])}[mode]()
        return ((c, mon.unbox(p)[0]) for c, p in fib.__iter__(tick))
    return {"shape": lambda: f.iterShape(tick), "activeshape": lambda: f.iterActiveShape(tick),
            "rangeshape": lambda: f.iterRangeShape(a, b, step, tick), "shaperef": lambda: f.iterShapeRef(tick),
            "activeshaperef": lambda: f.iterActiveShapeRef(tick), "rangeshaperef": lambda: f.iterRangeShapeRef(a, b, step, tick)}[mode]()


def modes(ctx):
    """every way to walk a fiber is one row per element delivered, and delivers the same as with collection off"""
    rng = ctx.rng
    shape = gen.rand_shape(rng, 2, 1, 5)
    default = rng.choice([0, 0, 7])
    rt = gen.rand_rt(rng, shape, default, density=rng.choice([.4, .8, 1]), explicit=.2, empties=.2)
    fmts = ["U" if rng.random() < .3 else "C" for _ in shape]
    picks = []
    for s in shape:
        m = rng.choice(MODES)
        a = rng.randint(0, s)
        picks.append((m, a, rng.randint(a, s), rng.choice([1, 1, 2]), rng.random() < .85, rng.randint(0, 3) if rng.random() < .5 else None))
    active = (rng.randint(0, 1), shape[1]) if rng.random() < .3 else None
    traced = [rng.random() < .8 for _ in shape]
    ctx.describe(f"modes {picks} {fmts} shape {shape} default {default} active {active} traced {traced} {rt}")

    def go():
        t = Tensor.fromFiber(rank_ids=["M", "K"], fiber=gen.build(rt, 2, default), shape=list(shape), default=default)
        for i, x in zip("MK", fmts):
            t.setFormat(i, x)
        if active:
            for f in t.ranks[1].getFibers():
                f.setActive(active)
        log, seen = [[], []], []
        root = t.getRoot()
        for mc, f in visit(root, *picks[0]):
            inner = []
            for kc, p in visit(f, *picks[1]):
                inner.append((kc, mon.unbox(p)))
                log[1].append(((mc, kc), place(f, kc, picks[1], fmts[1]), len(log[0])))
                if "ref" in picks[1][0] and rng2.random() < .5:
                    p += 1
            seen.append((mc, inner))
            log[0].append(((mc,), place(root, mc, picks[0], fmts[0]), None))
        return log, seen, nest.result(t)

    def place(f, c, pick, fmt):
        dense = pick[0] not in ("occupancy", "active", "range") and not (pick[0] == "iter" and fmt == "C")
        if pick[0].startswith("coiter"):
            return None
        if not dense:
            return f.coords.index(c)
        start = {"shape": 0, "shaperef": 0, "rangeshape": pick[1], "rangeshaperef": pick[1]}.get(pick[0], f.getActive()[0])
        return c - f.getActive()[0] if fmt == "U" and f.getActive()[0] <= start else None
    import random
    rng2 = random.Random(ctx.i)
    off = go()
    rng2 = random.Random(ctx.i)
    prefix = os.path.join(ctx.scratch, f"m{ctx.i}")
    Metrics.setNumCachedUses(rng.choice([2, 3, 5, 1000]))
    Metrics.beginCollect(prefix)
    try:
        for r, on in zip("MK", traced):
            if on:
                Metrics.trace(r)
        got = go()
    finally:
        Metrics.endCollect()
        Metrics.setNumCachedUses(1000)
    ctx.check(got[1:] == off[1:], "collection changed what a loop delivers", lambda: f"{got[1:]}\nwithout {off[1:]}")
    stamps = None
    ticked = [pk[4] for pk in picks]
    for l, r in enumerate("MK"):
        if not traced[l]:
            continue
        rows = load(prefix, (r, "iter"))
        if not ticked[l]:
            ctx.check(len(rows) <= 1, "a loop that does not tick left rows", repr(rows))
            continue
        hd = (["M"] if l and ticked[0] else []) + [r]
        n = len(hd)
        if not rows:
            ctx.check(not got[0][l], "a traced loop left no trace", repr(got[0][l]))
            continue
        ctx.check(rows[0] == [x + "_pos" for x in hd] + hd + ["fiber_pos"], "trace header does not name the loop ranks", repr(rows[0]))
        rows = [tuple(map(int, x)) for x in rows[1:]]
        log = got[0][l]
        ctx.check([x[n:2 * n] for x in rows] == [w[0][-n:] for w in log], "trace rows are not the elements delivered, in order",
                  lambda: f"{r} {picks[l]}: {rows}\nexpected {log}")
        for x, y in zip(rows, rows[1:] if ticked[0] else []):       # an outer loop that does not tick has no stamp
            ctx.check(x[:n] < y[:n], "stamps of an iteration trace do not increase", lambda: f"{r}: {x} {y}")
        for x, w in zip(rows, log):
            ctx.check(w[1] is None or x[-1] == w[1], "traced position is not the index of the element in its fiber",
                      lambda: f"{r} {picks[l]} {fmts[l]}: {x} expected position {w[1]}")
            if w[1] is not None:
                ctx.count("mode_pos")
            if n == 2 and stamps:
                ctx.check(x[0] == stamps[w[2]], "iteration stamp does not belong to the enclosing loop body", lambda: f"{x} {stamps} {w}")
        if l == 0:
            stamps = [x[0] for x in rows]
        if rows:
            ctx.count("mode:" + picks[l][0])
            ctx.count("start_pos", picks[l][5] is not None and picks[l][0] in ("iter", "occupancy", "active", "range"))
            ctx.key("modes", picks, fmts, repr(rt))
    clean(prefix)


def flattened(ctx):
    """a nest over a flattened rank writes, row for row, what the same nest over the rank's linear coordinates writes"""
    rng = ctx.rng
    outer = rng.random() < .5
    parts = gen.rand_shape(rng, rng.choice([2, 2, 3]), 1, 3)
    shape = ([rng.randint(1, 3)] if outer else []) + parts
    ids = ["N"] * outer + ["M", "K", "J"][:len(parts)]
    size = 1
    for s in parts:
        size *= s
    two = ["N"] * outer + ["MK"]

    def lin(c):
        out = 0
        for x, s in zip(c, parts):
            out = out * s + x
        return out

    def linear(f, depth):
        if depth == 1:
            return Fiber([lin(c) for c in f.coords], [mon.unbox(p) for p in f.payloads])
        return Fiber(list(f.coords), [linear(p, depth - 1) for p in f.payloads])

    def pair(density=.6):
        rt = gen.rand_rt(rng, shape, 0, density=density, explicit=.15, empties=.15, vals=gen.Vals(rng, 0, "uniq"))
        t = Tensor.fromFiber(rank_ids=list(ids), fiber=gen.build(rt, len(ids), 0), shape=list(shape))
        t = t.flattenRanks(depth=int(outer), levels=len(parts) - 1)
        t.setRankIds(list(two))
        return t, Tensor.fromFiber(rank_ids=list(two), fiber=linear(t.getRoot(), len(two)), shape=shape[:outer] + [size])
    a, b, z0 = pair(), pair(), pair(.4)
    op = rng.choice(["and", "or", "xor", "sub", "lf", "one"])
    opo = rng.choice(["and", "or", "lf"]) if op != "one" else "one"
    pop = rng.random() < .7
    filled = rng.random() < .7
    look = rng.random() < .4
    types = {"MK": [t for t in ["iter", "intersect_0", "intersect_1", "intersect_2", "union_0", "union_1", "populate_1", "populate_read_0",
                                "populate_write_0", "get"] if rng.random() < .8]}
    if outer:
        types["N"] = [t for t in ["iter", "intersect_0", "intersect_1", "populate_1", "populate_write_0"] if rng.random() < .6]
    ctx.describe(f"flattened {opo} {op} pop={pop} {parts} {mon.show(a[1])} {mon.show(b[1])} {mon.show(z0[1]) if filled else ''}")
    cached = rng.choice([2, 3, 1000])

    def co(x, y, how):
        return {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "sub": lambda: x - y, "one": lambda: x,
                "lf": lambda: Fiber.intersection(x, y, style="leader-follower")}[how]()

    def halves(p, how):
        p = mon.unbox(p)
        return (p, None) if how in ("sub", "one") else p[-2:]

    def run(i, prefix):
        z = copy.deepcopy(z0[i]) if filled else Tensor(rank_ids=list(two), shape=[z0[i].getShape()[0]] * outer + [(tuple(parts), size)[i]])
        seen = []
        Metrics.setNumCachedUses(cached)
        Metrics.beginCollect(prefix)
        try:
            if i == 0:
                Metrics.associateShape("MK", tuple(parts))
            for r, ts in types.items():
                for t in ts:
                    Metrics.trace(r, t)

            def inner(zf, x, y, n):
                e = co(x, y, op)
                for c, p in (zf << e if pop else e):
                    q = mon.unbox(p)
                    v, w = halves(q[1] if pop else q, op)
                    seen.append((n, lin(c) if i == 0 else c, mon.unbox(v), mon.unbox(w)))
                    if look:
                        b[i].getRoot().getPayload(c, trace="get") if not outer else z0[i].getRoot()
                    if pop:
                        q[0].__iadd__(v)
            if not outer:
                inner(z.getRoot(), a[i].getRoot(), b[i].getRoot(), None)
            else:
                e = co(a[i].getRoot(), b[i].getRoot(), opo)
                for n, p in (z.getRoot() << e if pop else e):
                    q = mon.unbox(p)
                    x, y = halves(q[1] if pop else q, opo)
                    inner(q[0] if pop else None, x, y, n)
        finally:
            Metrics.endCollect()
            Metrics.setNumCachedUses(1000)
        return seen, mon.raw(linear(z.getRoot(), len(two)) if i == 0 else z.getRoot()), Metrics.dump(), \
            {(r, t): load(prefix, (r, t)) for r, ts in types.items() for t in ts}
    got = run(0, os.path.join(ctx.scratch, f"p{ctx.i}"))
    want = run(1, os.path.join(ctx.scratch, f"q{ctx.i}"))
    for what, x, y in zip(["loop bodies", "result", "counts"], got, want):
        ctx.check(x == y, f"{what} over a flattened rank differ from those over linear coordinates", lambda: f"{x}\nlinear {y}")
    for k, rows in want[3].items():
        ctx.check(got[3][k] == rows, "a trace of a flattened rank differs from that of the linear coordinates",
                  lambda: f"{k}: {got[3][k]}\nlinear {rows}")
        ctx.count("flat_rows", max(0, len(rows or []) - 1))
    ctx.key("flat", op, opo, pop, mon.show(a[1]), mon.show(b[1]))
    clean(os.path.join(ctx.scratch, f"p{ctx.i}"))
    clean(os.path.join(ctx.scratch, f"q{ctx.i}"))


GENERATORS = {
    "flattened": (flattened, 2000, 40000),
    "huge": (huge, 60, 1500),
    "modes": (modes, 6000, 60000),
    "nests": (nests, 26000, 500000),
    "thresholds": (thresholds, 4000, 70000),
    "lookups": (lookups, 2000, 15000),
    "trees": (trees, 800, 8000),
    "late": (late, 600, 6000),
    "latecomers": (latecomers, 2500, 40000),
}
