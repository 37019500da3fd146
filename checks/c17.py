"""C17: the buffer traffic models charge what their policy implies.

Monitors: every call of buffetTraffic / cacheTraffic / filterTrace / _combineTraces is bracketed by a directory audit; its totals are
compared with oracles that replay the trace files access by access (window rule for the buffet, furthest-next-use replacement for
the cache), which for small read-only histories are themselves compared with an exhaustive search over replacement decisions."""
import copy
import csv
import math
import os
import tempfile

from fibertree import Fiber, Metrics, Tensor
from fibertree.model import Format, Traffic
from lib import gen, mon, nest

RULE = "distinct (accesses per binding, line size, eviction ranks or capacities) with at least one line accessed twice"
FLOORS = {"accesses": 90000, "buffet calls": 17000, "buffet fills": 70000, "buffet write-backs": 25000, "cache calls": 28000,
          "cache fills": 140000, "cache hits": 130000, "combined": 2500, "dropped rows": 4000, "envelopes": 4500,
          "exhaustive searches": 11000, "fabricated": 4000, "filtered": 4500, "kept rows": 5500, "kernels": 1500, "long": 60,
          "made-up traces": 1500, "merge ties": 1700, "merged rows": 10000, "moved positions": 8500, "real rows": 28000,
          "repeated points": 200, "repeated stamps": 700, "staged": 3000, "ties": 4000, "wide envelopes": 140, "writes": 24000}
ASSUMPTIONS = ["the stamps of a trace ascend (what Metrics writes; C16); lines accessed by one binding at the same stamp are equally far, and any "
               "choice among them is furthest-next-use (existing tests pin one such choice)",
               "accesses of different bindings with the same stamp occur outer rank first, then in the order the bindings are listed; a "
               "read precedes a write",
               "a line with data in the staging area must stay in the cache until its last use: it takes up capacity, and the "
               "replacement policy decides about the other lines",
               "a write miss allocates without a fill (as the property says of the buffet); furthest-next-use counts every access as a use"]


# ------------------------------------------------------------------ the oracles

class Acc:
    __slots__ = ("line", "write", "staged", "stamp", "b")

    def __init__(self, b, line, write, staged, stamp):
        self.b, self.line, self.write, self.staged, self.stamp = b, line, write, staged, stamp

    def __repr__(self):
        return f"{'W' if self.write else 'R'}{'*' if self.staged else ''}{self.line}@{self.stamp}"


def load(fn):
    with open(fn) as f:
        rows = list(csv.reader(f))
    n = (len(rows[0]) - 1) // 2
    return rows[0][n:2 * n], [(tuple(map(int, r[:n])), tuple(map(int, r[n:2 * n])), int(r[2 * n])) for r in rows[1:]]


def elem(case, B):
    spec = case.formats[B["tensor"]].spec[B["rank"]]
    return {"coord": spec["cbits"], "payload": spec["pbits"], "elem": spec["cbits"] + spec["pbits"]}[B["type"]]


def accesses(case, b, window=True):
    """the accesses of binding b in the order they occur; staged only counts where writes can be pinned"""
    B = case.bindings[b]
    key = (B["tensor"], B["rank"], B["type"])
    fmt = case.formats[B["tensor"]]
    epl = case.line // elem(case, B)
    ids = fmt.tensor.getRankIds()
    lr = dict(case.loop_ranks or {})
    mine = [lr.get(r, r) for r in ids]
    shape = fmt.tensor.getShape()[ids.index(B["rank"])]
    has_write = key + ("write",) in case.traces
    rows = []
    for w, acc in enumerate(("read", "write")):
        if key + (acc,) in case.traces:
            head, rs = load(case.traces[key + (acc,)])
            for s, c, p in rs:
                pt = [x for x, r in zip(c[:-1], head[:-1]) if r in mine]
                rows.append((s, w, Acc(b, (b, tuple(pt), p // epl), bool(w), bool(w) and has_write and p >= shape, s)))
    rows.sort(key=lambda x: x[:2])
    return [a for _, _, a in rows]


def buffet(case):
    want = {}
    for b, B in enumerate(case.bindings):
        order = case.order
        k = 0 if B["evict-on"] == "root" else order.index(case.map(B["evict-on"])) + 1
        own = case.map(B["rank"]) == case.map(B["evict-on"]) if B["evict-on"] != "root" else False
        seen = {}
        for a in accesses(case, b):
            first = seen.setdefault((a.line, a.stamp[:k]), [a.write, False])
            if a.write and (own or not a.staged):
                first[1] = True
        t = want.setdefault(B["tensor"], {})
        t["read"] = t.get("read", 0) + sum(not w for w, _ in seen.values())
        t["write"] = t.get("write", 0) + sum(d for _, d in seen.values())
    return want


def stream(case):
    """all accesses in order"""
    order = case.order
    rank = sorted(range(len(case.bindings)), key=lambda b: (order.index(case.map(case.bindings[b]["rank"])), b))
    prio = {b: i for i, b in enumerate(rank)}
    out = []
    for b in range(len(case.bindings)):
        for j, a in enumerate(accesses(case, b)):
            out.append((list(a.stamp) + [-1] * (len(order) - len(a.stamp)), prio[b], j, a))
    out.sort(key=lambda x: x[:3])
    return [x[3] for x in out]


def times(s):
    """the time of every access: a read and a write of a binding with one stamp are simultaneous"""
    t = []
    for i, a in enumerate(s):
        t.append(t[-1] if i and (s[i - 1].stamp, s[i - 1].b) == (a.stamp, a.b) else i)
    return t


def next_uses(s):
    nxt, last, tm = [math.inf] * len(s), {}, times(s)
    for i in range(len(s) - 1, -1, -1):
        nxt[i] = last.get(s[i].line, math.inf)
        last[s[i].line] = tm[i]
    return nxt


def envelope(s, cap):
    """(fewest, most) fills furthest-next-use incurs, whichever of several equally distant lines it prefers; None when there are too
    many ways"""
    nxt = next_uses(s)
    states = {(frozenset(), frozenset()): (0, 0)}         # (line, next use) of evictable lines, of pinned lines
    for i, a in enumerate(s):
        new = {}

        def put(ev, pin, c):
            k = (frozenset(ev), frozenset(pin))
            o = new.get(k, c)
            new[k] = (min(o[0], c[0]), max(o[1], c[1]))
        for (ev, pin), c in states.items():
            e, p = dict(ev), dict(pin)
            hit = a.line in e or a.line in p
            if not hit and not a.write:
                c = (c[0] + 1, c[1] + 1)
            was_pin = p.pop(a.line, None) is not None
            e.pop(a.line, None)
            if nxt[i] == math.inf:
                put(e.items(), p.items(), c)
                continue
            if was_pin or a.staged:
                p[a.line] = nxt[i]
                todo = [e]
                while todo:
                    x = todo.pop()
                    if len(x) + len(p) <= cap or not x or hit:
                        put(x.items(), p.items(), c)
                        continue
                    m = max(x.values())
                    todo += [{k: v for k, v in x.items() if k != y} for y in x if x[y] == m]
                continue
            e[a.line] = nxt[i]
            if len(e) + len(p) <= cap or hit:
                put(e.items(), p.items(), c)
                continue
            m = max(e.values())
            for y in e:
                if e[y] == m:
                    put([(k, v) for k, v in e.items() if k != y], p.items(), c)
        states = new
        if len(states) > 400:
            return None
    return min(c[0] for c in states.values()), max(c[1] for c in states.values())


def belady(s, cap):
    """(fills per binding, write-backs per binding) of furthest-next-use with bypass and cap lines"""
    nxt = next_uses(s)
    res, pin, dirty = {}, set(), set()          # resident line -> next use
    fills, wbs = {}, {}

    def wb(line):
        wbs[line[0]] = wbs.get(line[0], 0) + 1

    for i, a in enumerate(s):
        hit = a.line in res
        if not hit and not a.write:
            fills[a.b] = fills.get(a.b, 0) + 1
        save = a.write and not a.staged
        keep = hit
        if not hit and nxt[i] < math.inf:
            free = [x for x in res if x not in pin]
            if len(res) + 1 <= cap:
                keep = True
            elif a.staged:
                keep = True
                while len(res) + 1 > cap and free:
                    v = max(free, key=res.get)
                    free.remove(v)
                    del res[v]
                    if v in dirty:
                        wb(v)
                        dirty.discard(v)
            elif free:
                v = max(free, key=res.get)
                if nxt[i] < res[v]:
                    keep = True
                    del res[v]
                    if v in dirty:
                        wb(v)
                        dirty.discard(v)
        if keep:
            res[a.line] = nxt[i]
            if save:
                dirty.add(a.line)
            if a.staged:
                pin.add(a.line)
            if nxt[i] == math.inf:
                del res[a.line]
                pin.discard(a.line)
                if a.line in dirty:
                    dirty.discard(a.line)
                    wb(a.line)
        elif save:
            wb(a.line)
    return fills, wbs


def fewest(s, cap):
    """fewest fills any policy with bypass incurs on reads: exhaustive over the resident sets"""
    states = {frozenset(): 0}
    for a in s:
        new = {}

        def put(k, v):
            if v < new.get(k, 1 << 30):
                new[k] = v
        for st, c in states.items():
            if a.line in st:
                put(st, c)
                continue
            put(st, c + 1)
            if len(st) < cap:
                put(st | {a.line}, c + 1)
            elif cap:
                for v in st:
                    put((st - {v}) | {a.line}, c + 1)
        states = new
    return min(states.values())


# ------------------------------------------------------------------ cases

class Case:
    def __init__(self):
        self.bindings, self.formats, self.traces, self.line, self.loop_ranks, self.order, self.dir = [], {}, {}, 0, None, [], None

    def map(self, r):
        return r if r in self.order else (self.loop_ranks or {}).get(r, r)

    def show(self):
        def body(fn):
            return open(fn).read().split("\n", 1)[1].replace("\n", " ")
        return f"{self.bindings} line {self.line} map {self.loop_ranks} " + \
            f"{ {t: (f.tensor.getRankIds(), f.tensor.getShape(), {r: f.spec[r] for r in f.tensor.getRankIds()}) for t, f in self.formats.items()} } " + \
            f"{ {k: body(fn) for k, fn in self.traces.items()} }"


def listing(d):
    return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}


def call(ctx, case, kind, cap, what=""):
    """one audited call: {tensor: {access: bits}}, overflows"""
    d = case.dir
    before = listing(d)
    cwd = sorted(os.listdir("."))
    args = copy.deepcopy((case.bindings, case.traces))
    fn = Traffic.buffetTraffic if kind == "buffet" else Traffic.cacheTraffic
    lr = None if case.loop_ranks is None else dict(case.loop_ranks)
    bs = case.bindings if kind == "buffet" else [{k: v for k, v in b.items() if k != "evict-on"} for b in case.bindings]
    r = fn(bs, case.formats, case.traces, cap, case.line, **({} if lr is None else {"loop_ranks": lr}))
    after = listing(d)
    ctx.check(after == before, "files after the call", lambda: f"{what} {kind}: {sorted(after)} was {sorted(before)}, changed "
              f"{[f for f in after if before.get(f) != after[f]]}")
    ctx.check(sorted(os.listdir(".")) == cwd, "files in the working directory", lambda: f"{what} {kind}")
    ctx.check((case.bindings, case.traces) == args, "arguments", lambda: f"{what} {kind}: changed to {case.bindings} {case.traces}")
    ctx.count(kind + " calls")
    return r


def scaled(case, fills, wbs):
    want = {}
    for (t, _, _, acc) in case.traces:
        want.setdefault(t, {})[acc] = 0
    for b, B in enumerate(case.bindings):
        for acc, n in (("read", fills.get(b, 0)), ("write", wbs.get(b, 0))):
            if n:
                want[B["tensor"]][acc] += n * case.line
    return want


def judge(ctx, case, caps=None, exhaustive=True):
    rng = ctx.rng
    s = stream(case)
    lines = {a.line for a in s}
    first = {}
    for a in s:
        first.setdefault(a.line, a)
    reads = sum(not a.write for a in s)
    saves = sum(a.write and not a.staged for a in s)
    saved = len({a.line for a in s if a.write and not a.staged})
    rlines = sum(not a.write for a in first.values())
    ctx.count("accesses", len(s))
    ctx.count("staged", sum(a.staged for a in s))
    ctx.count("writes", sum(a.write for a in s))
    tied = sum(1 for x, y in zip(s, s[1:]) if x.stamp == y.stamp and x.b == y.b and x.line != y.line)
    ctx.count("ties", tied)
    what = case.show()
    ctx.describe(what)

    # ---- buffet
    want = buffet(case)
    for cap in {0, rng.randint(0, 6) * case.line, 1 << 40}:
        got, over = call(ctx, case, "buffet", cap)
        w = {t: {acc: want.get(t, {}).get(acc, 0) * case.line for acc in got.get(t, {})} for t in got}
        ctx.check({t: set(v) for t, v in got.items()} == {t: {k[3] for k in case.traces if k[0] == t} for t in {k[0] for k in case.traces}},
                  "reported tensors", lambda: f"{got}")
        ctx.check(got == w, "buffet traffic", lambda: f"capacity {cap}: {got} want {w}")
        ctx.check(cap < 1 << 40 or over == 0, "overflow of an unbounded buffet", lambda: f"{over}")
        tot = sum(v.get("read", 0) for v in got.values()) // case.line
        ctx.check(rlines <= tot <= reads, "buffet bounds", lambda: f"{tot} fills, {rlines} lines, {reads} reads")
        totw = sum(v.get("write", 0) for v in got.values()) // case.line
        ctx.check(saved <= totw <= saves or case.own, "buffet bounds", lambda: f"{totw} write-backs, {saved} lines, {saves} writes")
        ctx.count("buffet fills", tot)
        ctx.count("buffet write-backs", totw)

    # ---- cache
    if caps is None:
        top = min(len(lines) + 1, 9)
        caps = sorted({0, 1, 2, rng.randint(0, top), rng.randint(0, top), top})
    prev = None
    for c in caps:
        cap = c * case.line + rng.choice([0, 0, case.line - 1, rng.randrange(case.line)])
        fills, wbs = belady(s, c)
        w = scaled(case, fills, wbs)
        got, over = call(ctx, case, "cache", cap)
        if tied:
            env = envelope(s, c)
            n = sum(v.get("read", 0) for v in got.values()) / case.line
            ctx.check(env is None or env[0] <= n <= env[1], "cache fills", lambda: f"{c} lines: {n} outside {env}")
            ctx.count("envelopes", env is not None)
            ctx.count("wide envelopes", env is not None and env[0] != env[1])
            w = got
        ctx.check({t: v.get("read") for t, v in got.items()} == {t: v.get("read") for t, v in w.items()}, "cache fills",
                  lambda: f"{c} lines: {got} want {w}")
        ctx.check(got == w, "cache write-backs", lambda: f"{c} lines: {got} want {w}")
        tot = sum(v.get("read", 0) for v in got.values())
        n = tot // case.line
        ctx.check(rlines <= n <= reads, "cache bounds", lambda: f"{c} lines: {n} fills, {rlines} lines, {reads} reads")
        totw = sum(v.get("write", 0) for v in got.values()) // case.line
        ctx.check(saved <= totw <= saves, "cache bounds", lambda: f"{c} lines: {totw} write-backs, {saved} lines, {saves} writes")
        ctx.check(prev is None or tot <= prev, "fills grow with the capacity", lambda: f"{c} lines: {tot} after {prev}")
        prev = tot
        ctx.count("cache fills", n)
        ctx.count("cache hits", reads - n)
        if exhaustive and not tied and not any(a.write for a in s) and len(s) <= 60 and math.comb(len(lines), min(c, len(lines))) <= 200 and c <= 4:
            m = fewest(s, c)
            ctx.check(m == n, "cache is optimal", lambda: f"{c} lines: {n} fills, {m} suffice")
            ctx.count("exhaustive searches")
    got, over = call(ctx, case, "cache", 1 << 40)
    f, wbs = belady(s, len(s) + 1)
    ctx.check(got == scaled(case, f, wbs), "unbounded cache", lambda: f"{got} want {scaled(case, f, wbs)}")
    ctx.check(over == 0, "overflow of an unbounded cache", lambda: f"{over}")
    if len(s) > len(lines):
        ctx.key(case.show())
    return s


def wiggle(ctx, case):
    """move every position within its line: nothing changes"""
    rng = ctx.rng
    kinds = [("buffet", 0), ("cache", rng.randint(0, 5) * case.line)]
    ref = [call(ctx, case, *k)[0] for k in kinds]
    moved = copy.copy(case)
    moved.traces = {}
    n = 0
    for k, fn in case.traces.items():
        fmt = case.formats[k[0]]
        epl = case.line // fmt.getElem(k[1], k[2])
        ids = fmt.tensor.getRankIds()
        shape = fmt.tensor.getShape()[ids.index(k[1])]
        head = open(fn).readline()
        rows = []
        for line in open(fn).read().split("\n")[1:-1]:
            v = line.split(",")
            p = int(v[-1])
            while True:
                q = p // epl * epl + rng.randrange(epl)
                if k[3] == "read" or (q >= shape) == (p >= shape):
                    break
            n += q != p
            rows.append(",".join(v[:-1] + [str(q)]))
        out = os.path.join(case.dir, "moved-" + "-".join(k) + ".csv")
        with open(out, "w") as f:
            f.write(head + "".join(r + "\n" for r in rows))
        moved.traces[k] = out
    got = [call(ctx, moved, *k)[0] for k in kinds]
    ctx.check(got == ref, "depends on positions within the line", lambda: f"{got} was {ref}: {case.show()} moved {moved.show()}")
    for fn in moved.traces.values():
        os.unlink(fn)
    ctx.count("moved positions", n)


def write_trace(fn, ranks, rows):
    with open(fn, "w") as f:
        f.write(",".join([r + "_pos" for r in ranks] + list(ranks) + ["fiber_pos"]) + "\n")
        for s, c, p in rows:
            f.write(",".join(map(str, list(s) + list(c) + [p])) + "\n")


def loop_tree(rng, n, wide):
    """paths [(stamp, coords)] per depth, as a loop nest visits them"""
    cur = [((), ())]
    out = []
    neg = rng.random() < .15
    for d in range(n):
        nxt = []
        reuse = rng.random() < .6
        pool = [rng.sample(range(8), rng.randint(1, 5)) for _ in range(2)]
        for s, c in cur:
            cs = sorted(rng.choice(pool) if reuse else rng.sample(range(9), rng.randint(0, wide)))
            pos = 0
            for x in cs:
                pos += rng.choice([0, 0, 0, 1, 2])
                nxt.append((s + (pos,), c + (x - 3 if neg else x,)))
                pos += 1
        cur = nxt
        out.append(cur)
    return out


RANKS = ["M", "K", "N"]


def fabricate(rng, d, writes=None, own=False, ties=True):
    """a Case over made-up traces of a made-up loop nest"""
    case = Case()
    case.dir, case.own, case.repeats = d, False, False
    n = rng.choice([1, 2, 2, 3, 3])
    order = RANKS[:n]
    case.order = order
    tree = loop_tree(rng, n, rng.choice([2, 4, 6]))
    foot = rng.choice([1, 8, 32, 64])
    case.line = 0
    renamed = rng.random() < .2
    lr = {}
    deepest = 0
    nb = rng.choice([1, 1, 2, 2, 3])
    jobs = []
    for ti in range(rng.choice([1, 1, 2])):
        t = "AB"[ti]
        k = sorted(rng.sample(range(n), rng.randint(1, n)))
        if rng.random() < .15:
            rng.shuffle(k)
        ids = [order[i] for i in k]
        if renamed and rng.random() < .7:
            j = rng.randrange(len(ids))
            lr["H" + ids[j]] = ids[j]
            ids[j] = "H" + ids[j]
        shape = [rng.choice([2, 4, 5, 7, 8, 8, 16]) for _ in ids]
        spec = {}
        for r in ids:
            spec[r] = {"format": rng.choice("CU"), "cbits": foot * rng.choice([1, 1, 2]), "pbits": foot * rng.choice([1, 1, 2]),
                       "layout": rng.choice(["contiguous", "contiguous", "interleaved"])}
        case.formats[t] = Format(Tensor(rank_ids=ids, shape=shape), spec)
        for r, sz in zip(ids, shape):
            for ty in (["coord", "payload"] if spec[r]["layout"] == "contiguous" else ["elem"]):
                jobs.append((t, r, ty, lr.get(r, r), sz))
    rng.shuffle(jobs)
    jobs = jobs[:nb]
    case.line = max([case.formats[t].getElem(r, ty) for t, r, ty, _, _ in jobs]) * rng.choice([1, 1, 2, 2, 3, 4]) + rng.choice([0, 0, 0, foot - 1])
    if writes is None:
        writes = rng.random() < .6
    for t, r, ty, loop, sz in jobs:
        depth = order.index(loop)
        at = tree[depth]
        outer = order[:depth + 1] if own and not writes else order[:depth]
        names = {v: k for k, v in lr.items()}
        ev = rng.choice(["root"] + outer)
        if ev in names and rng.random() < .5:
            ev = names[ev]
        case.bindings.append({"tensor": t, "rank": r, "type": ty, "evict-on": ev})
        few = rng.random() < .5
        accs = {"read": rng.random() < .9 or not writes, "write": writes and rng.random() < .8}
        if not any(accs.values()):
            accs["read"] = True
        dense = {a: rng.choice([.4, .8, 1]) for a in accs}
        extra = rng.choice([0, 0, 1, 3, 6])
        got = {"read": [], "write": []}
        used, staged = {}, {}
        mine = [lr.get(x, x) for x in case.formats[t].tensor.getRankIds()]
        if rng.random() < .12:
            # elements passed over without entering the loop body share its stamp
            at = [(s[:-1] + (s[-1] // 2,), c) for s, c in at]
            case.repeats = True
        for s, c in at:
            f = tuple(x for x, q in zip(c[:-1], order) if q in mine)
            for acc in ("read", "write"):
                if not accs[acc] or rng.random() >= dense[acc]:
                    continue
                # what is read from the staging area has been written there
                if acc == "read" and staged.get(f) and rng.random() < .5:
                    p = rng.choice(staged[f])
                elif acc == "write" and extra and rng.random() < .4:
                    p = sz + rng.randrange(extra)
                    staged.setdefault(f, []).append(p)
                elif used.get(f) and rng.random() < .5:
                    p = rng.choice(used[f])
                else:
                    p = rng.randrange(min(sz, 3) if few else sz)
                    used.setdefault(f, []).append(p)
                got[acc].append((s, c, p))
        for acc, on in accs.items():
            if not on:
                continue
            rows = got[acc]
            fn = os.path.join(d, f"{t}_{r}_{ty}_{acc}.csv")
            write_trace(fn, order[:depth + 1], rows)
            case.traces[t, r, ty, acc] = fn
        deepest = max(deepest, depth + 1)
    # the loop order is known as deep as the traces go
    case.order = order[:deepest]
    if lr or rng.random() < .2:
        case.loop_ranks = lr
    if len(case.bindings) > 1 and rng.random() < .1:
        case.bindings.pop(rng.randrange(len(case.bindings)))     # a trace of something that is not buffered here
    if rng.random() < .5:
        ks = list(case.traces)
        rng.shuffle(ks)
        case.traces = {k: case.traces[k] for k in ks}
    # coordinates and payloads of a rank may come from the same file
    if rng.random() < .3:
        for (t, r, ty, acc) in list(case.traces):
            if ty == "payload" and (t, r, "coord", acc) in case.traces:
                os.unlink(case.traces[t, r, ty, acc])
                case.traces[t, r, ty, acc] = case.traces[t, r, "coord", acc]
    return case


def fresh(ctx):
    return tempfile.mkdtemp(dir=ctx.scratch)


def clean(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


def fabricated(ctx):
    d = fresh(ctx)
    case = fabricate(ctx.rng, d, own=ctx.rng.random() < .1)
    judge(ctx, case)
    if ctx.rng.random() < .4:
        wiggle(ctx, case)
    clean(d)
    ctx.count("fabricated")
    ctx.count("repeated stamps", case.repeats)


def ascending(rows):
    return all(a[0] <= b[0] for a, b in zip(rows, rows[1:]))


def filtering(ctx, d, fin, ffil):
    """rows in, rows of the filter -> exactly the rows whose point is in the filter"""
    out = os.path.join(d, "filtered.csv")
    before = listing(d)
    Traffic.filterTrace(fin, ffil, out)
    after = listing(d)
    got = after.pop("filtered.csv", None)
    os.unlink(out)
    ctx.check(after == before, "files after filtering", lambda: f"{sorted(after)} was {sorted(before)}")
    a, b = (open(f).read().split("\n") for f in (fin, ffil))
    n = len(a[0].split(",")) // 2
    m = len(b[0].split(",")) // 2
    pts = [tuple(map(int, x.split(",")[m:m + n])) for x in b[1:-1]] if m >= n else []
    rows = [x for x in a[1:-1] if tuple(map(int, x.split(",")[n:2 * n])) in pts]
    want = "\n".join([a[0]] + rows) + "\n"
    ctx.check(got == want, "filtered trace", lambda: f"{got!r} want {want!r}: {a} by {b}")
    ctx.count("filtered")
    ctx.count("kept rows", len(rows))
    ctx.count("dropped rows", len(a) - 2 - len(rows))
    ctx.count("repeated points", len(rows) - len({tuple(x.split(",")[n:2 * n]) for x in rows}))


def combining(ctx, d, fr, fw):
    out = os.path.join(d, "combined.csv")
    before = listing(d)
    args = {k: v for k, v in (("read_fn", fr), ("write_fn", fw)) if v is not None or ctx.rng.random() < .5}
    Traffic._combineTraces(comb_fn=out, **args)
    after = listing(d)
    got = after.pop("combined.csv", None)
    os.unlink(out)
    ctx.check(after == before, "files after combining", lambda: f"{sorted(after)} was {sorted(before)}")
    rows, head = [], None
    for w, fn in enumerate((fr, fw)):
        if fn is not None:
            x = open(fn).read().split("\n")
            head = x[0]
            n = len(head.split(",")) // 2
            rows += [(tuple(map(int, v.split(",")[:n])), w, i, v + (",True" if w else ",False")) for i, v in enumerate(x[1:-1])]
    want = "\n".join([head + ",is_write"] + [x[3] for x in sorted(rows, key=lambda x: x[:3])]) + "\n"
    ctx.check(got == want, "combined trace", lambda: f"{got!r} want {want!r}")
    ctx.count("combined")
    ctx.count("merged rows", len(rows))
    ctx.count("merge ties", len(rows) - len({x[0] for x in rows}))


def traces(ctx):
    """filterTrace and _combineTraces on made-up traces"""
    rng = ctx.rng
    d = fresh(ctx)
    n = rng.choice([1, 2, 3])
    tree = loop_tree(rng, n, rng.choice([2, 4]))
    k = rng.randint(1, n)
    rows = [(s, c, rng.randrange(9)) for s, c in tree[k - 1] if rng.random() < .7]
    fil = [(s, c, rng.randrange(9)) for s, c in tree[rng.randint(k, n) - 1] if rng.random() < .5]
    how = rng.random()
    if how < .6:
        # several visits of one point, or elements moved back: stamps ascend, points need not
        for x in (rows, fil):
            if x and rng.random() < .7:
                src = rng.choices(x, k=rng.randint(1, len(x) + 2))
                if rng.random() < .5:
                    src.sort(key=lambda r: r[1])
                    if rng.random() < .5:
                        src.reverse()
                x[:] = [(s[:-1] + (s[-1],), c, p) for s, (_, c, p) in zip(sorted(r[0] for r in x), src)]
    fin, ff = os.path.join(d, "in.csv"), os.path.join(d, "fil.csv")
    write_trace(fin, RANKS[:k], rows)
    write_trace(ff, RANKS[:len(fil[0][1]) if fil else n], fil)
    ctx.describe(f"filter {rows} by {fil}")
    filtering(ctx, d, fin, ff)
    if rows and fil:
        ctx.key("filter", rows, fil)
    read = [(s, c, rng.randrange(9)) for s, c in tree[k - 1] if rng.random() < .6]
    write = [(s, c, rng.randrange(9)) for s, c in tree[k - 1] if rng.random() < .6]
    fr, fw = os.path.join(d, "r.csv"), os.path.join(d, "w.csv")
    write_trace(fr, RANKS[:k], read)
    write_trace(fw, RANKS[:k], write)
    combining(ctx, d, *rng.choice([(fr, fw), (fr, fw), (fr, fw), (fr, None), (None, fw)]))
    clean(d)
    ctx.count("made-up traces")


def kernels(ctx):
    """the traces real kernels emit, bound to tensors of the kernel's ranks"""
    rng = ctx.rng
    N = nest.rand_nest(rng, depth=rng.choice([1, 2, 2, 3, 3]))
    d = fresh(ctx)
    prefix = os.path.join(d, "t")
    types = nest.all_types(N)
    Metrics.beginCollect(prefix)
    try:
        for a, b in nest.match_calls(ctx.rng, N):
            Metrics.matchRanks(a, b)
        for r, t in types:
            Metrics.trace(r, t)
        z = nest.make_out(N)
        run = nest.Run(N, z)
        if N.out == []:
            run.z = z
        run.go()
    finally:
        Metrics.endCollect()
    good = {}
    for r, t in types:
        fn = f"{prefix}-{r}-{t}.csv"
        if os.path.exists(fn):
            body = open(fn).read()
            if not body or "None" in body or not ascending(load(fn)[1]):
                ctx.count("odd traces: " + ("unreached loop" if not body else "absent position" if "None" in body else "repeated stamp"))
                continue
            good[r, t] = fn
            ctx.count("real rows", body.count("\n") - 1)
    if not good:
        clean(d)
        return
    case = Case()
    case.dir, case.own = d, False
    case.order = list(N.loops)
    lr = {r: r[1:] for r, _ in good if r not in N.loops}
    cand = sorted(good)
    rng.shuffle(cand)
    pairs = [k for k in cand if k[1].startswith("populate_write")]
    cand = pairs + [k for k in cand if k not in pairs] if rng.random() < .6 else cand
    foot = rng.choice([1, 16, 32])
    sizes = []
    for i, (r, ty) in enumerate(cand[:rng.choice([1, 2, 2, 3])]):
        t = "ABC"[i]
        loop = lr.get(r, r)
        ids = [q for q in N.loops[:N.loops.index(loop)] if rng.random() < .6] + [r]
        # a tensor whose shape bounds what has been read
        rows = load(good[r, ty])[1]
        if ty.startswith("populate_write") or ty.startswith("populate_read"):
            shape = N.size[loop] + 4
        else:
            shape = max([p for _, _, p in rows] + [N.size[loop]]) + 1
        spec = {q: {"cbits": foot, "pbits": foot * rng.choice([1, 2]), "layout": rng.choice(["contiguous", "interleaved"])} for q in ids}
        case.formats[t] = Format(Tensor(rank_ids=ids, shape=[N.size.get(q, 9) + 4 for q in ids[:-1]] + [shape]), spec)
        part = rng.choice(["coord", "payload"]) if spec[r]["layout"] == "contiguous" else "elem"
        ev = ["root"] + N.loops[:N.loops.index(loop)]
        case.bindings.append({"tensor": t, "rank": r, "type": part, "evict-on": rng.choice(ev)})
        sizes.append(case.formats[t].getElem(r, part))
        if ty.startswith("populate_write"):
            case.traces[t, r, part, "write"] = good[r, ty]
            rd = (r, ty.replace("write", "read"))
            if rd in good and rng.random() < .85:
                case.traces[t, r, part, "read"] = good[rd]
        else:
            case.traces[t, r, part, "read"] = good[r, ty]
    case.order = N.loops[:max(len(load(f)[0]) for f in case.traces.values())]
    case.line = max(sizes) * rng.choice([1, 1, 2, 2, 3, 4])
    if lr:
        case.loop_ranks = lr
    if any(len(load(f)[1]) > 200 for f in case.traces.values()):
        clean(d)
        return
    judge(ctx, case)
    for _ in range(2):
        a, b = rng.choice(cand), rng.choice(cand)
        if len(load(good[a])[0]) > len(load(good[b])[0]):
            a, b = b, a
        filtering(ctx, d, good[a], good[b])
    for r, ty in pairs:
        rd = good.get((r, ty.replace("write", "read")))
        combining(ctx, d, rd, good[r, ty])
    clean(d)
    ctx.count("kernels")


def long(ctx):
    """long traces: many windows, reuse over long distances, files of several blocks"""
    rng = ctx.rng
    case = Case()
    case.dir, case.own = fresh(ctx), False
    case.order = RANKS[:rng.choice([1, 2, 3])]
    n = len(case.order)
    rows = {"read": [], "write": []}
    writes = rng.random() < .4
    sz, epl = rng.choice([8, 32, 96]), rng.choice([1, 2, 4])
    size = rng.choice([200, 600, 1200])
    cur = [0] * n
    hot = [rng.randrange(sz) for _ in range(5)]
    for i in range(size):
        j = rng.choice([n - 1] * 8 + list(range(n)))
        cur = cur[:j] + [cur[j] + 1] + [0] * (n - 1 - j)
        p = rng.choice(hot) if rng.random() < .5 else rng.randrange(sz)
        acc = "write" if writes and rng.random() < .4 else "read"
        rows[acc].append((tuple(cur), tuple(10 ** 6 + c % 3 for c in cur), p))
    ids = sorted({case.order[-1], rng.choice(case.order)}, key=case.order.index)
    case.formats["A"] = Format(Tensor(rank_ids=ids, shape=[10 ** 7] * (len(ids) - 1) + [sz]), {r: {"cbits": 8, "pbits": 8} for r in ids})
    case.line = 8 * epl
    case.bindings.append({"tensor": "A", "rank": ids[-1], "type": "payload", "evict-on": rng.choice(["root"] + case.order[:-1])})
    for acc in rows:
        if rows[acc]:
            fn = case.traces["A", ids[-1], "payload", acc] = os.path.join(case.dir, acc + ".csv")
            write_trace(fn, case.order, rows[acc])
    judge(ctx, case, caps=sorted({rng.randint(0, 4), rng.randint(0, 40), rng.randint(3, 12), sz}), exhaustive=False)
    clean(case.dir)
    ctx.count("long")


GENERATORS = {
    "long": (long, 120, 2000),
    "fabricated": (fabricated, 8000, 60000),
    "traces": (traces, 3000, 60000),
    "kernels": (kernels, 3000, 40000),
}
