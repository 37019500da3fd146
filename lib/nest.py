"""Loop nests over fibertrees with an independent model of what each loop executes and what each trace must hold.

A nest has loops R0..Rn-1, operands holding a subset of the ranks (one rank of an operand may carry another name and be projected
into the loop's), one expression per loop over the operands alive there and, where the output has the rank, a populate.  The model
evaluates the expression from the raw coordinate/payload lists with the same laziness as a two-finger / leader-follower machine and
logs the accesses each label makes; the runner drives the real operators and logs what the loop bodies saw."""
import copy
from fibertree import Fiber, Payload, Tensor
from lib import gen, mon

LOOPS = ["M", "K", "N"]


class Op:
    def __init__(self, tensor, ranks, ids, default, fmts):
        self.tensor, self.ranks, self.ids, self.default, self.fmts = tensor, ranks, ids, default, fmts


class Nest:
    def __init__(self):
        self.loops, self.size, self.ops, self.levels, self.out, self.zspec, self.body = [], {}, [], [], None, None, None

    def show(self):
        return f"loops {self.loops} levels {self.levels} out {self.out} {self.zspec} body {self.body} ops " + \
            " ; ".join(f"{i}:{o.ids}{'/'.join(o.fmts)} d={o.default} {mon.show(o.tensor)}" for i, o in enumerate(self.ops))


def leaves_of(node):
    if node[0] == "op":
        return [node[1]]
    if node[0] in ("lf", "union", "inter"):
        return [x for e in node[1] for x in leaves_of(e)]
    if node[0] in ("proj", "prune", "pop"):
        return leaves_of(node[1])
    return leaves_of(node[1]) + leaves_of(node[2])


def alive_of(node):
    """operands whose payloads the node delivers"""
    if node[0] == "op":
        return [node[1]]
    if node[0] in ("lf", "union", "inter"):
        return [x for e in node[1] for x in alive_of(e)]
    if node[0] in ("proj", "prune", "pop", "sub"):
        return alive_of(node[1])
    return alive_of(node[1]) + alive_of(node[2])


def lazy(node):
    return node[0] != "op"


# ---------------------------------------------------------------- generation

def rand_nest(rng, depth=None, fancy=True, style=None, huge=False):
    n = depth or rng.choice([1, 1, 2, 2, 3])
    N = Nest()
    N.loops = LOOPS[:n]
    N.size = {r: rng.choice([1, 2, 3, 3, 4, 4, 5, 6][:8 if n < 3 else 6]) for r in N.loops}
    if huge:        # more accesses than any buffer holds by default
        N.size = {r: rng.randint(*{1: (1200, 3000), 2: (40, 100), 3: (13, 24)}[n]) for r in N.loops}
    elif rng.random() < gen.LONG:
        N.size[rng.choice(N.loops)] = rng.randint(8, {1: 40, 2: 16}.get(n, 9))
    nops = rng.choice([1, 2, 2, 2, 3, 3] + ([4] if n == 1 else []))
    cover = set()
    for i in range(nops):
        while True:
            ranks = [r for r in N.loops if rng.random() < .75]
            if ranks and not (i == nops - 1 and set(N.loops) - cover - set(ranks)):
                break
        cover |= set(ranks)
        N.ops.append(rand_op(rng, N, ranks, fancy))
    alive = set(range(nops))
    for l, r in enumerate(N.loops):
        cand = [i for i in alive if r in N.ops[i].ranks]
        for tries in range(30):
            node = rand_node(rng, N, r, list(cand), fancy, style)
            died = set(cand) - set(alive_of(node))
            ok = all(any(q in N.ops[i].ranks for i in alive - died) for q in N.loops[l + 1:])
            if ok:
                break
        else:
            node = leaf(rng, N, r, cand[0], False)
            for i in cand[1:]:
                node = ("and", node, leaf(rng, N, r, i, False))
        alive -= set(cand) - set(alive_of(node))
        N.levels.append(node)
    # the output
    if rng.random() < .85:
        oranks = [r for r in N.loops if rng.random() < .6]
        N.out = oranks
        N.zspec = {"auth": rng.random() < .7, "default": rng.choice([0, 0, 0, 0, 3]), "fmts": ["U" if rng.random() < .06 else "C" for _ in oranks],
                   "seed": rng.randrange(10 ** 6), "filled": rng.random() < .4}
        for l, r in enumerate(N.loops):
            if r in oranks:
                N.levels[l] = ("pop", N.levels[l])
    N.body = rng.choice(["acc", "acc", "acc", "sum", "assign", "imul", "skip", "sub", "none"])
    return N


def rand_op(rng, N, ranks, fancy):
    default = rng.choice([0, 0, 0, 0, 5])
    ids = list(ranks)
    if fancy and rng.random() < .25:
        k = rng.randrange(len(ids))
        ids[k] = rng.choice("XXY") + ids[k]
    shape = [N.size[r] for r in ranks]
    rt = gen.rand_rt(rng, shape, default, density=rng.choice([.3, .6, .8, .8, 1, 1]), explicit=rng.choice([0, .1, .3]), empties=rng.choice([0, .1, .3]),
                     vals=gen.Vals(rng, default, rng.choice(["small", "uniq"])))
    t = Tensor.fromFiber(rank_ids=ids, fiber=gen.build(rt, len(ids), default), shape=shape, default=default)
    fmts = []
    for i in ids:
        f = "U" if fancy and rng.random() < .1 else "C"
        fmts.append(f)
        t.setFormat(i, f)
    return Op(t, ranks, ids, default, fmts)


def leaf(rng, N, r, i, fancy):
    op = N.ops[i]
    k = op.ranks.index(r)
    node = ("op", i)
    if op.ids[k] != r or fancy and rng.random() < .06:
        sign = rng.choice([1, 1, 1, -1])
        sh = rng.randint(-1, 2) if sign > 0 else N.size[r] - 1 + rng.randint(-1, 1)
        iv = None
        if rng.random() < .4:
            lo = rng.randint(-1, N.size[r])
            iv = (lo, lo + rng.randint(1, N.size[r] + 1))
        node = ("proj", node, sh, sign, iv)
    elif fancy and rng.random() < .08:
        node = ("prune", node, rng.randint(2, 3))
    return node


def rand_node(rng, N, r, cand, fancy, style=None):
    rng.shuffle(cand)
    if style == "and2" and len(cand) > 1:
        node = leaf(rng, N, r, cand[0], False)
        for i in cand[1:]:
            node = ("and", node, leaf(rng, N, r, i, False))
        return node
    nodes = [leaf(rng, N, r, i, fancy) for i in cand]
    if len(nodes) > 1 and fancy and rng.random() < .2:
        if rng.random() < .5:
            k = [x for x in nodes if not lazy(x)]
            if len(k) == len(nodes):
                return ("lf", nodes)
        return (rng.choice(["union", "inter"]), nodes)
    while len(nodes) > 1:
        k = rng.randrange(len(nodes) - 1)
        op = rng.choice(["and"] * 6 + (["or"] * 3 + ["sub", "xor"] if fancy else []))
        nodes[k:k + 2] = [(op, nodes[k], nodes[k + 1])]
        if fancy and rng.random() < .05:
            nodes[k] = ("prune", nodes[k], rng.randint(2, 3))
    return nodes[0]


# ---------------------------------------------------------------- model

def default_of(N, i, k):
    """default payload below rank k of operand i"""
    return None


class Model:
    """evaluates one loop's expression from raw lists; rows[(rank, type)] -> [(coord, pos)]"""

    def __init__(self, N, level, env):
        self.N, self.rank, self.env = N, N.loops[level], env
        self.label, self.rows = 0, {}

    def lab(self):
        self.label += 1
        return self.label - 1

    def row(self, typ, c, pos, rank=None):
        self.rows.setdefault((rank or self.rank, typ), []).append((c, pos))

    def elems(self, i):
        f, op = self.env[i], self.N.ops[i]
        k = op.ranks.index(self.rank)
        if op.fmts[k] == "U":
            s, e = f.getActive()
            stored = dict(zip(f.coords, f.payloads))
            return [(c, stored.get(c), c - s) for c in range(s, e)]
        keep = {c for c, _ in mon.present(f, op.default)}
        return [(c, p, j) for j, (c, p) in enumerate(zip(f.coords, f.payloads)) if c in keep]

    def ev(self, node):
        """generator of (coord, position)"""
        k = node[0]
        if k == "op":
            for c, _, pos in self.elems(node[1]):
                yield c, pos
        elif k == "proj":
            _, src, sh, sign, iv = node
            lb = self.lab()
            rank = self.N.ops[src[1]].ids[self.N.ops[src[1]].ranks.index(self.rank)]
            seq = self.ev(src)
            if sign < 0:
                seq = reversed(list(seq))
            n = 0
            for c, pos in seq:
                x = sh + sign * c
                if iv and x >= iv[1]:
                    break
                if iv is None or x >= iv[0]:
                    self.row(f"project_{lb}", c, pos, rank)
                    yield x, n
                    n += 1
        elif k == "prune":
            n = 0
            for c, _ in self.ev(node[1]):
                if c % node[2] != 1:
                    yield c, n
                    n += 1
        elif k in ("and", "or", "xor", "sub"):
            for n, c in enumerate(self.merge(node)):
                yield c, n
        elif k in ("union", "inter"):
            nest = node[1][0]
            for e in node[1][1:]:
                nest = ("or" if k == "union" else "and", nest, e)
            yield from self.ev(nest)
        elif k == "lf":
            lbs = [self.lab() for _ in node[1]]
            n = 0
            for c, pos in self.ev(node[1][0]):
                self.row(f"intersect_{lbs[0]}", c, pos)
                for lb, fol in zip(lbs[1:], node[1][1:]):
                    f = self.env[fol[1]]
                    self.row(f"intersect_{lb}", c, f.coords.index(c) if c in f.coords else None)
                yield c, n
                n += 1

    def merge(self, node):
        """two-finger merge, drawing the next element of an operand only once the previous one is done with.  An intersection reads
        every element it compares, also the one left over; a union reads an element when it presents it"""
        k = node[0]
        if k in ("and", "or"):
            la, lb = f"{'intersect' if k == 'and' else 'union'}_{self.lab()}", f"{'intersect' if k == 'and' else 'union'}_{self.lab()}"
        ia, ib = self.ev(node[1]), self.ev(node[2])
        a, b = next(ia, None), next(ib, None)
        while a is not None and b is not None if k == "and" else a is not None if k == "sub" else a is not None or b is not None:
            da = b is None or a is not None and a[0] <= b[0]
            db = a is None or b is not None and b[0] <= a[0]
            if k in ("and", "or"):
                if da:
                    self.row(la, *a)
                if db:
                    self.row(lb, *b)
            if k == "or" or k == "and" and da and db or k == "xor" and not (da and db) or k == "sub" and not db:
                yield a[0] if da else b[0]
            if da:
                a = next(ia, None)
            if db:
                b = next(ib, None)
        if k == "and":
            if a is not None:
                self.row(la, *a)
            if b is not None:
                self.row(lb, *b)

    def top(self, node):
        """[(coord, pos of the consumer's iteration)]"""
        if node[0] == "pop":
            self.lab(), self.lab()
            out = []
            for k, (c, pos) in enumerate(self.ev(node[1])):
                self.row("populate_1", c, pos)
                out.append((c, k))
            return out
        return list(self.ev(node))


# ---------------------------------------------------------------- the real thing

def real(N, node, env, z, rank):
    k = node[0]
    if k == "op":
        return env[node[1]]
    if k == "pop":
        return z << real(N, node[1], env, z, rank)
    if k == "proj":
        _, src, sh, sign, iv = node
        return real(N, src, env, z, rank).project(lambda c: sh + sign * c, interval=iv, rank_id=rank)
    if k == "prune":
        m = node[2]
        return real(N, node[1], env, z, rank).prune(lambda i, c, p: c % m != 1)
    if k == "union":
        return Fiber.union(*[real(N, e, env, z, rank) for e in node[1]])
    if k == "inter":
        return Fiber.intersection(*[real(N, e, env, z, rank) for e in node[1]])
    if k == "lf":
        return Fiber.intersection(*[real(N, e, env, z, rank) for e in node[1]], style="leader-follower")
    a, b = real(N, node[1], env, z, rank), real(N, node[2], env, z, rank)
    return a & b if k == "and" else a | b if k == "or" else a ^ b if k == "xor" else a - b


def destr(node, p, env):
    """assign the payloads of the operands below node from the delivered payload"""
    k = node[0]
    if k == "op":
        env[node[1]] = p
        return
    if k in ("proj", "prune", "sub"):
        return destr(node[1], p, env)
    v = mon.unbox(p)
    if k == "and":
        destr(node[1], v[0], env)
        destr(node[2], v[1], env)
    elif k in ("or", "xor"):
        destr(node[1], v[1], env)
        destr(node[2], v[2], env)
    elif k in ("inter", "lf"):
        for e, x in zip(node[1], v):
            destr(e, x, env)
    elif k == "union":
        for e, x in zip(node[1], v[1:]):
            destr(e, x, env)


class Abort(Exception):
    """raised in a loop body"""


class Run:
    """one execution; counts what the bodies did and what each trace must hold"""

    def __init__(self, N, z):
        self.N, self.z = N, z
        self.counts = {"mul": 0, "add": 0, "update": 0}
        self.bodies = {r: 0 for r in N.loops}
        self.rows = {}          # (rank, type) -> [(outer coords + coord, pos, enclosing body ordinals)]
        self.segs = {}          # destination traces: (rank, type) -> one [ords, prefix, inserting, rows, final coords, inserted, shape] per loop
        self.inserting = 0
        self.started = []       # ranks in order of first execution
        self.errors = []
        self.seen = []          # operand values of every innermost body
        self.abort = self.inspect = None

    def go(self):
        env = {i: op.tensor.getRoot() for i, op in enumerate(self.N.ops)}
        z = self.z.getRoot() if self.z is not None else None
        self.loop(0, env, z, (), ())

    def loop(self, level, env, z, prefix, ords):
        N = self.N
        if level == len(N.loops):
            return self.body(env, z)
        rank, node = N.loops[level], N.levels[level]
        if self.inspect:
            self.inspect(env, z)
        if rank not in self.started:
            self.started.append(rank)
        m = Model(N, level, env)
        want = m.top(node)
        for (r, t), rows in m.rows.items():
            self.rows.setdefault((r, t), []).extend((prefix + (c,), pos, ords) for c, pos in rows)
        pop = node[0] == "pop"
        if pop:
            had = set(z.coords)
            lazyfmt = N.zspec["fmts"][N.out.index(rank)]
            inserting = bool(want and z.coords and lazyfmt == "C" and want[0][0] < z.coords[-1])
            self.inserting += inserting
            bound = N.size[rank] + 4 if N.zspec["auth"] else max(z.coords, default=-1) + 1      # of the fiber's shape
            seg = {t: [ords, prefix, inserting, [], None, [], bound] for t in ("populate_read_0", "populate_write_0")}
            for t in seg:
                self.segs.setdefault((rank, t), []).append(seg[t])
        got = 0
        for c, p in real(N, node, env, z, rank):
            self.bodies[rank] += 1
            if self.abort is not None:
                self.abort -= 1
                if self.abort < 0:
                    raise Abort()
            if got >= len(want) or want[got][0] != c:
                self.errors.append(f"loop {rank} at {prefix}: body {got} at {c}, expected {want[got:got + 1]}")
                return
            pt = prefix + (c,)
            o = ords + (self.bodies[rank] - 1,)
            self.rows.setdefault((rank, "iter"), []).append((pt, want[got][1], ords))
            got += 1
            env2 = dict(env)
            z2 = z
            if pop:
                v = mon.unbox(p)
                z2 = v[0]
                destr(node[1], v[1], env2)
                idx = z.coords.index(c)
                if c in had:
                    seg["populate_read_0"][3].append((pt, idx, ords))
            else:
                destr(node, p, env2)
            self.loop(level + 1, env2, z2, pt, o)
            if pop:
                if mon.is_fiber(z2):
                    keep = c in had or len(z2.coords) > 0
                else:
                    keep = mon.unbox(z2) != N.zspec["default"]
                if keep:
                    seg["populate_write_0"][3].append((pt, idx, ords))
                    if c not in had:
                        for s in seg.values():
                            s[5].append(c)
        if pop:
            for s in seg.values():
                s[4] = list(z.coords)
        if got != len(want):
            self.errors.append(f"loop {rank} at {prefix}: {got} bodies, expected {[c for c, _ in want]}")

    def body(self, env, z):
        N, cnt = self.N, self.counts
        vals = [env[i] for i in sorted(env) if not mon.is_fiber(env[i])]
        vals = [v if isinstance(v, Payload) else Payload(mon.unbox(v)) for v in vals]
        self.seen.append(tuple(mon.unbox(v) for v in vals))
        kind = N.body
        if not vals or kind == "none":
            return
        if kind == "skip":
            if mon.unbox(vals[0]) % 2 == 0:
                return
            kind = "acc"
        if kind == "sum":
            x = vals[0]
            for v in vals[1:]:
                x = x + v
                cnt["add"] += 1
            x = 1 + x
            cnt["add"] += 1
        elif kind == "sub":
            x = vals[0] - 1
            for v in vals[1:]:
                x = x - v
        else:
            x = vals[0]
            for v in vals[1:]:
                x = x * v
                cnt["mul"] += 1
            if len(vals) == 1:
                x = 2 * x
                cnt["mul"] += 1
        if N.out is None:
            return
        old = mon.unbox(z)
        if kind == "assign":
            z <<= x
            cnt["update"] += 1
        elif kind == "imul":
            z *= x
            cnt["mul"] += 1
            cnt["update"] += 1
            z += x
            cnt["update"] += 1
            if old * mon.unbox(x) != 0:
                cnt["add"] += 1
        else:
            z += x
            cnt["update"] += 1
            if old != 0:
                cnt["add"] += 1


def make_out(N):
    """a fresh output tensor, identical every time; None without output"""
    if N.out is None:
        return None
    import random
    s = N.zspec
    shape = [N.size[r] + 4 for r in N.out]
    if not N.out:
        t = Tensor(rank_ids=[], default=0)
        return t
    t = Tensor(rank_ids=list(N.out), shape=shape if s["auth"] else None, default=s["default"])
    if s["filled"]:
        rng = random.Random(s["seed"])
        rt = gen.rand_rt(rng, [N.size[r] for r in N.out], s["default"], explicit=.1, empties=.1, vals=gen.Vals(rng, s["default"], "uniq"))
        t = Tensor.fromFiber(rank_ids=list(N.out), fiber=gen.build(rt, len(N.out), s["default"]), shape=shape if s["auth"] else None,
                             default=s["default"])
    for r, f in zip(N.out, s["fmts"]):
        t.setFormat(r, f)
    return t


def result(z):
    return None if z is None else mon.full_snap(z, ids=False)


def execute(N):
    z = make_out(N)
    r = Run(N, z)
    if N.out == []:
        r.z = z
    r.go()
    return r, z


# ---------------------------------------------------------------- collection

def all_types(N):
    """every (rank, type) the nest can emit rows for"""
    out = []
    for l, r in enumerate(N.loops):
        out.append((r, "iter"))
        n = N.levels[l]
        if n[0] == "pop":
            out += [(r, "populate_1"), (r, "populate_read_0"), (r, "populate_write_0")]
        out += sorted(_types(N, r, n, [0]))
    return out


def _types(N, r, n, lab):
    def nl():
        lab[0] += 1
        return lab[0] - 1
    k = n[0]
    got = set()
    if k == "op":
        return got
    if k == "proj":
        x = nl()
        op = N.ops[n[1][1]]
        got = {(op.ids[op.ranks.index(r)], f"project_{x}")}
        return got | _types(N, r, n[1], lab)
    if k == "pop":
        nl(), nl()
        return _types(N, r, n[1], lab)
    if k == "prune":
        return _types(N, r, n[1], lab)
    if k in ("union", "inter"):
        nest = n[1][0]
        for e in n[1][1:]:
            nest = ("or" if k == "union" else "and", nest, e)
        return _types(N, r, nest, lab)
    if k == "lf":
        lbs = [nl() for _ in n[1]]
        for lb, e in zip(lbs, n[1]):
            got.add((r, f"intersect_{lb}"))
            got |= _types(N, r, e, lab)
        return got
    if k in ("and", "or"):
        pre = "intersect" if k == "and" else "union"
        got = {(r, f"{pre}_{nl()}"), (r, f"{pre}_{nl()}")}
    return got | _types(N, r, n[1], lab) | _types(N, r, n[2], lab)


def match_calls(rng, N):
    """calls that associate every rank projected into a loop with the loop's, in any order, some of them by way of another"""
    calls = []
    for r in N.loops:
        names = [r] + sorted({a for a, b in matched(N) if b == r})
        rng.shuffle(names)
        for k in range(1, len(names)):
            pair = [names[k], names[rng.randrange(k)]]
            rng.shuffle(pair)
            calls.append(pair)
    rng.shuffle(calls)
    return calls


def matched(N):
    """(source rank, loop rank) of every projection"""
    out = []

    def walk(r, n):
        if n[0] == "proj":
            op = N.ops[n[1][1]]
            q = op.ids[op.ranks.index(r)]
            if q != r:
                out.append((q, r))
            walk(r, n[1])
        elif n[0] in ("lf", "union", "inter"):
            for e in n[1]:
                walk(r, e)
        elif n[0] != "op":
            for e in n[1:]:
                if isinstance(e, tuple) and e and isinstance(e[0], str):
                    walk(r, e)
    for r, n in zip(N.loops, N.levels):
        walk(r, n)
    return out


def read_csv(path):
    with open(path) as f:
        lines = f.read().split("\n")
    assert lines[-1] == "", f"{path} does not end with a newline"
    return [ln.split(",") for ln in lines[:-1]]
