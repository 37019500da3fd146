"""C01: well-formedness after every step of a random history of public mutators."""
import copy
from fibertree import Fiber, Tensor, Payload, CoordPayload
from fibertree.core.fiber import CoordinateError
from lib import gen, mon

RULE = ("random histories of public mutators on fibers/tensors of depth 1-3 from every constructor; after every step "
        "(accepted or rejected) the whole raw tree is walked. Non-trivial: distinct (raw tree state, operation) pairs "
        "reached")
FLOORS = {"bare": 2500, "steps": 5000, "order_rejections": 200, "accepted": 4000, "op:append": 100, "op:extend": 50,
          "op:setitem": 100, "op:updateCoords": 50, "op:updatePayloads": 50, "op:populate": 100, "op:ref": 300,
          "op:clear": 10, "op:assign": 30, "op:iterref": 50, "op:arith": 50, "op:insert": 50, "op:lookup": 50}
ASSUMPTIONS = ["values inserted by the harness have the depth of the place they are inserted at",
               "errors other than coordinate-order rejections may leave the accepted part of their effect"]


class Hist:
    tensor_only = False

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.info = ""
        rng = self.rng
        self.default = gen.rand_default(rng, 0.25)
        self.depth = rng.choice([1, 1, 2, 2, 3])
        self.shape = gen.rand_shape(rng, self.depth, 2, 6)
        self.vals = gen.Vals(rng, self.default)
        self.tensor = None
        route = rng.choice(["tensor", "tensor", "tensor", "tensor", "empty", "random"] if self.tensor_only else
                           ["fiber", "tensor", "tensor", "tensor", "cplist", "random", "lazy", "empty", "copy", "bare"])
        if route == "bare":
            # coordinates or payloads alone
            if self.depth == 1 and rng.random() < .5:
                f = Fiber(coords=sorted(rng.sample(range(self.shape[0]), rng.randint(0, self.shape[0]))), default=self.default,
                          initial=rng.choice([Payload(self.vals()), self.vals(), self.default]))
            else:
                f = Fiber(payloads=[self.subtree(0) for _ in range(rng.randint(0, self.shape[0]))],
                          default=self.default if self.depth == 1 else Fiber)
            if self.depth > 1 and rng.random() < .5:
                self.tensor = Tensor.fromFiber(gen.RANKS[:self.depth], f, default=self.default)
                f = self.tensor.getRoot()
            self.root = f
            ctx.count("bare")
        elif route in ("fiber", "cplist", "lazy", "copy"):
            rt = gen.rand_rt(rng, self.shape, self.default, self.vals)
            f = gen.build(rt, self.depth, self.default, self.shape if rng.random() < .5 else None,
                          rng.choice(["leaf", "fiber"]))
            if route == "cplist" and rt:
                f = Fiber.fromCoordPayloadList(list(zip(f.coords, f.payloads)), default=self.default)
            elif route == "lazy" and self.depth == 1:
                f = Fiber.fromLazy(f & gen.build(gen.rand_rt(rng, self.shape, self.default, self.vals), 1,
                                                 self.default).project(lambda c: c)) if False else copy.deepcopy(f)
            elif route == "copy":
                f = copy.deepcopy(f)
            self.root = f
        elif route == "random":
            f = Fiber.fromRandom(list(self.shape), [rng.choice([0.3, 0.6, 1.0]) for _ in self.shape], 9, seed=rng.random(),
                                 default=self.default)
            self.root = f
            if rng.random() < .5 or self.tensor_only:
                self.tensor = Tensor.fromFiber(gen.RANKS[:self.depth], f, default=self.default)
                self.root = self.tensor.getRoot()
        elif route == "empty":
            self.tensor = Tensor(rank_ids=gen.RANKS[:self.depth], shape=list(self.shape), default=self.default)
            self.root = self.tensor.getRoot()
        else:
            self.tensor, ti = gen.rand_tensor(rng, self.depth, list(self.shape), self.default, vals=self.vals)
            self.root = self.tensor.getRoot()
        self.route = route
        ctx.describe(f"route={route} depth={self.depth} shape={self.shape} default={self.default} "
                     f"tree={mon.show(self.root)}")
        self.verify("construction")

    def verify(self, what):
        errs = mon.wf_errors(self.root, self.depth)
        self.ctx.count("steps")
        if errs:
            self.ctx.fail("malformed after " + what.split()[0],
                          f"after {what}: {errs[:3]}\n tree {mon.show(self.root)}")

    def pick(self, level=None):
        """random live fiber and its level"""
        rng = self.rng
        lv = mon.levels(self.root, self.depth)
        ls = [i for i in range(self.depth) if lv[i]]
        d = rng.choice(ls) if level is None else level
        if not lv[d]:
            d = 0
        return rng.choice(lv[d]), d

    def subtree(self, d):
        """payload for an element of a fiber at level d"""
        rng = self.rng
        if d == self.depth - 1:
            v = self.default if rng.random() < .2 else self.vals()
            k = rng.randrange(4)
            return v if k < 2 else Payload(v) if k == 2 else Payload(Payload(v))
        return gen.build(gen.rand_rt(rng, self.shape[d + 1:], self.default, self.vals), self.depth - d - 1,
                         self.default)

    def no_level_info(self):
        """An unowned interior fiber without elements cannot know its level: insertions through it are out of scope."""
        if self.tensor is not None:
            return False
        lv = mon.levels(self.root, self.depth)
        return any(not f.coords for fs in lv[:-1] for f in fs)

    # ---- one step -------------------------------------------------
    def step(self):
        ctx, rng = self.ctx, self.rng
        ops = ["append", "append", "extend", "setitem", "setitem", "updateCoords", "updatePayloads", "populate",
               "populate", "ref", "ref", "ref", "clear", "assign", "iterref", "arith", "posref", "coiter", "insert", "lookup"]
        op = rng.choice(ops)
        if op == "clear" and rng.random() < .6:
            op = "ref"
        if op in ("ref", "posref", "iterref", "coiter", "populate", "assign") and self.no_level_info():
            op = rng.choice(["append", "setitem", "updateCoords", "extend"])
        before = mon.tree_snap(self.root, ids=True)
        ctx.key(mon.tree_snap(self.root), op)
        self.must_reject = False
        self.must_accept = False
        try:
            getattr(self, "op_" + op)()
            ctx.count("accepted")
            rejected = None
        except (AssertionError, CoordinateError, IndexError, ValueError, TypeError, AttributeError, KeyError,
                StopIteration, NotImplementedError) as e:
            rejected = e
            ctx.count("rejected")
        ctx.count("op:" + op)
        ctx.op(op, self.info, "->", "rejected " + type(rejected).__name__ if rejected else "ok")
        what = f"{op} {self.info}{' (rejected: %r)' % rejected if rejected else ''}"
        self.verify(what)
        if self.must_reject:
            if rejected is None:
                ctx.fail("order violation accepted by " + op, f"{what}\n tree {mon.show(self.root)}")
            ctx.count("order_rejections")
            if mon.tree_snap(self.root, ids=True) != before:
                ctx.fail("rejected " + op + " changed the tree", f"{what}: before {before}\n"
                         f" after {mon.tree_snap(self.root, ids=True)}")
        if self.must_accept and rejected is not None:
            ctx.fail("legal " + op + " rejected", f"{what}: {rejected!r}")

    def op_append(self):
        rng = self.rng
        f, d = self.pick()
        v = self.subtree(d)
        mx = f.coords[-1] if f.coords else -1
        c = rng.randint(0, max(mx, 0)) if rng.random() < .4 else mx + rng.randint(1, 3)
        if f.coords and rng.random() < .15:
            c = mx
        self.info = f"coord {c} on {f.coords}"
        self.must_reject = c <= mx
        self.must_accept = not self.must_reject
        f.append(c, v)

    def op_extend(self):
        rng = self.rng
        f, d = self.pick()
        sub = gen.rand_rt(rng, self.shape[d:], self.default, self.vals)
        mx = f.coords[-1] if f.coords else -1
        off = mx + 1 + rng.randint(0, 1) if rng.random() < .6 else rng.randint(0, max(mx, 0))
        sub = [(c + off, x) for c, x in sub]
        o = gen.build(sub, self.depth - d, self.default)
        if rng.random() < .08:
            o = f
            sub = mon.raw(f)
        nonempty = bool(gen.rt_content(sub, self.default))
        self.info = f"with {sub} on {f.coords}"
        if nonempty:
            self.must_reject = sub[0][0] <= mx
            self.must_accept = not self.must_reject
        f.extend(o)

    def op_insert(self):
        """the deprecated insertion methods are still public mutators"""
        rng = self.rng
        f, d = self.pick()
        c = rng.choice(f.coords) if f.coords and rng.random() < .3 else rng.randint(0, (f.coords[-1] if f.coords else 0) + 3)
        v = self.subtree(d)
        self.info = f"insert {c} on {f.coords}"
        self.must_reject = c in f.coords
        self.must_accept = not self.must_reject
        want = sorted([(a, id(p)) for a, p in zip(f.coords, f.payloads)] + [(c, None)], key=lambda x: x[0])
        f.insert(c, v)
        got = [(a, None if a == c else id(p)) for a, p in zip(f.coords, f.payloads)]
        if got != want:
            self.ctx.fail("insert placement", f"{self.info}: now {f.coords}")

    def op_lookup(self):
        rng = self.rng
        f, d = self.pick()
        c = rng.choice(f.coords) if f.coords and rng.random() < .3 else rng.randint(0, (f.coords[-1] if f.coords else 0) + 3)
        # without a value an unowned fiber must know what its elements are
        v = None if self.tensor is not None and rng.random() < .5 else self.subtree(d)
        self.info = f"insertOrLookup {c} {v!r:.60} on {f.coords}"
        self.must_accept = True
        old = dict(zip(f.coords, f.payloads))
        p = f.insertOrLookup(c, v) if v is not None else f.insertOrLookup(c)
        now = dict(zip(f.coords, f.payloads))
        if now.get(c) is not p or any(now.get(a) is not q for a, q in old.items()) or len(now) != len(old | {c: 0}):
            self.ctx.fail("insertOrLookup placement", f"{self.info}: now {f.coords}")
        if d == self.depth - 1:
            self._leafval(p)

    def op_setitem(self):
        rng = self.rng
        f, d = self.pick()
        n = len(f.coords)
        pos = rng.randint(-n - 1, n) if n else 0
        v = self.subtree(d) if rng.random() < .8 else None
        kind = rng.choice(["payload", "coord", "both"])
        p = pos + n if pos < 0 else pos
        lo = f.coords[p - 1] if 0 < p < n + 1 and n else -1
        hi = f.coords[p + 1] if 0 <= p + 1 < n else lo + 6
        c = rng.randint(lo + 1, hi - 1) if hi - lo > 1 and rng.random() < .5 else \
            rng.randint(0, (f.coords[-1] if n else 0) + 2)
        self.info = f"[{pos}] = {kind} {c} on {f.coords}"
        inside = n and -n <= pos < n
        if kind != "payload" and inside:
            new = list(f.coords)
            new[p] = c
            bad = any(not a < b for a, b in zip(new, new[1:]))
            self.must_reject = bad
            self.must_accept = not bad and pos >= 0
        if self.tensor is not None and f is self.root and rng.random() < .5:
            f = self.tensor
        elif f is not self.root and rng.random() < .3:
            # through the element that holds the fiber
            f = next((e for g in mon.levels(self.root, self.depth)[d - 1] for e in (g[i] for i in range(len(g.coords))) if mon.unbox(e.payload) is f), f)
        if kind == "payload":
            f[pos] = v if v is not None else self.subtree(d)
        elif kind == "coord":
            f[pos] = CoordPayload(c, None)
        else:
            f[pos] = CoordPayload(c, v)

    def op_updateCoords(self):
        rng = self.rng
        f, d = self.pick()
        depth = rng.randint(0, self.depth - d - 1)
        kind = rng.choice(["shift", "reverse", "scale", "collide", "collide2", "perm"])
        mul = rng.randint(2, 3)
        perm = list(range(64))
        rng.shuffle(perm)
        fn = {"shift": lambda i, c, p: c + 2, "reverse": lambda i, c, p: 60 - c, "scale": lambda i, c, p: c * mul,
              "collide": lambda i, c, p: c // mul, "collide2": lambda i, c, p: 7,
              "perm": lambda i, c, p: perm[c] if c < 64 else c}[kind]
        fs = [x for x in mon.levels(f, depth + 1)[depth]]
        coll = False
        for x in fs:
            nc = [fn(i, c, None) for i, c in enumerate(x.coords)]
            coll |= len(set(nc)) != len(nc)
        self.info = f"{kind} depth={depth} on level {d} {mon.show(f)[:150]}"
        self.must_reject = coll
        want = [[(fn(i, c, None), id(p)) for i, (c, p) in enumerate(zip(x.coords, x.payloads))] for x in fs]
        f.updateCoords(fn, depth=depth, new_shape=200 if rng.random() < .7 else None)
        for x, w in zip(fs, want):
            got = [(c, id(p)) for c, p in zip(x.coords, x.payloads)]
            if sorted(w) != got:
                self.ctx.fail("updateCoords pairing", f"{self.info}: {x.coords} expected {sorted(w)}")

    def op_updatePayloads(self):
        rng = self.rng
        f, d = self.pick()
        depth = rng.randint(0, self.depth - d - 1)
        lvl = d + depth
        leaf = lvl == self.depth - 1
        kind = rng.choice(["scalar", "box", "expr", "default"]) if leaf else rng.choice(["same", "new"])
        fn = {"scalar": lambda i, c, p: self.vals(), "box": lambda i, c, p: Payload(self.vals()),
              "expr": lambda i, c, p: p + 1, "default": lambda i, c, p: self.default, "same": lambda i, c, p: p,
              "new": lambda i, c, p: self.subtree(lvl)}[kind]
        self.info = f"{kind} depth={depth} on level {d}"
        fs = mon.levels(f, depth + 1)[depth]
        want = []
        if kind == "expr":
            want = [[(c, mon.unbox(p), mon.unbox(p) == self.default) for c, p in
                     zip(x.coords, x.payloads)] for x in fs]
        f.updatePayloads(fn, depth=depth)
        for x, w in zip(fs, want):
            got = [(c, mon.unbox(p)) for c, p in zip(x.coords, x.payloads)]
            ok = len(got) == len(w) and all(c == c0 and (v == v0 + 1 or dflt and v == v0)
                                            for (c, v), (c0, v0, dflt) in zip(got, w))
            if not ok:
                self.ctx.fail("updatePayloads position", f"{self.info}: got {got} from {w}")

    def _leafval(self, ref):
        rng = self.rng
        k = rng.randrange(6)
        if k == 0:
            ref <<= self.vals()
        elif k == 1:
            ref <<= Payload(self.vals())
        elif k == 2:
            ref += 1
        elif k == 3:
            ref *= 2
        elif k == 4:
            ref <<= self.default
        return ref

    def op_ref(self):
        rng = self.rng
        f, d = self.pick()
        n = rng.randint(1, self.depth - d)
        pt = [rng.randrange(self.shape[d + i] + 1) for i in range(n)]
        self.info = f"{pt} at level {d}"
        kw = {}
        if n == 1 and f.coords and f.coords[0] <= pt[0] and rng.random() < .4:
            kw["start_pos"] = rng.choice([i for i, c in enumerate(f.coords) if c <= pt[0]])
        if self.tensor is not None:
            self.must_accept = True
        r = (self.tensor if (self.tensor is not None and d == 0 and rng.random() < .5) else f).getPayloadRef(*pt, **kw)
        if d + n == self.depth:
            self._leafval(r)

    def op_posref(self):
        f, d = self.pick()
        c = self.rng.randrange(self.shape[d] + 2)
        self.info = f"{c} at level {d}"
        self.must_accept = self.tensor is not None
        f.getPositionRef(c)

    def op_clear(self):
        f, d = self.pick()
        self.info = f"level {d}"
        self.must_accept = True
        f.clear()

    def op_assign(self):
        rng = self.rng
        f, d = self.pick()
        o = gen.build(gen.rand_rt(rng, self.shape[d:], self.default, self.vals), self.depth - d, self.default)
        self.info = f"level {d} <<= {mon.show(o)}"
        f <<= o

    def op_iterref(self):
        rng = self.rng
        f, d = self.pick()
        k = rng.choice(["shape", "active", "range", "rangestep"])
        self.info = f"{k} level {d}"
        it = {"shape": lambda: f.iterShapeRef(), "active": lambda: f.iterActiveShapeRef(),
              "range": lambda: f.iterRangeShapeRef(1, gen.size(rng, 1, 5)),
              "rangestep": lambda: f.iterRangeShapeRef(0, 6, 2)}[k]()
        stop = gen.size(rng, 1, 9, .1, 40)
        for i, (c, p) in enumerate(it):
            if d == self.depth - 1 and rng.random() < .7:
                self._leafval(p)
            if i == stop:
                break

    def op_coiter(self):
        rng = self.rng
        f, d = self.pick()
        o = gen.build(gen.rand_rt(rng, self.shape[d:], self.default, self.vals), self.depth - d, self.default)
        self.info = f"level {d}"
        fs = [f, o] if rng.random() < .5 else [o, f]
        k = rng.choice(["coiterShapeRef", "coiterActiveShapeRef", "coiterRangeShapeRef"])
        it = getattr(Fiber, k)(fs, 0, 5) if "Range" in k else getattr(Fiber, k)(fs)
        for c, ps in it:
            if d == self.depth - 1:
                self._leafval(ps[fs.index(f) if False else (0 if fs[0] is f else 1)])

    def op_arith(self):
        rng = self.rng
        f, d = self.pick(self.depth - 1)
        k = rng.choice(["+=s", "*=s", "+=f", "*=f", "[]+=", "[]<<="])
        o = gen.build(gen.rand_rt(rng, self.shape[d:], self.default, self.vals), 1, self.default) \
            if d == self.depth - 1 else None
        self.info = f"{k} {mon.show(o) if o is not None else ''}"
        if d != self.depth - 1:
            return
        if k == "+=s":
            f += 2
        elif k == "*=s":
            f *= rng.choice([2, 0])
        elif k == "+=f":
            f += o
        elif k == "*=f":
            f *= o
        elif len(f.coords):
            i = rng.randrange(-len(f.coords), len(f.coords))
            if k == "[]+=":
                f[i] += 3
            else:
                f[i] <<= 4

    def op_populate(self):
        rng = self.rng
        f, d = self.pick()
        rt = gen.rand_rt(rng, self.shape[d:], self.default, self.vals)
        src = gen.build(rt, self.depth - d, self.default, self.shape[d:])
        self.info = f"level {d} << {rt}"
        self.must_accept = self.tensor is not None

        def loop(z, a, d):
            for c, (zr, ar) in z << a:
                if d == self.depth - 1:
                    k = rng.randrange(5)
                    if k == 0:
                        zr <<= ar
                    elif k == 1:
                        zr += ar
                    elif k == 2:
                        zr <<= self.default
                    elif k == 3:
                        self._leafval(zr)
                elif rng.random() < .8:
                    loop(zr, ar, d + 1)
                elif rng.random() < .5:
                    zr.getPayloadRef(rng.randrange(self.shape[d + 1]))
                k = rng.random()
                if self.tensor is None:
                    k = 1
                elif k < .07:
                    self.must_accept = False
                if k < .03:
                    self.ctx.count("body_disturbs")
                    z.clear()
                elif k < .06:
                    self.ctx.count("body_disturbs")
                    z.getPayloadRef(rng.randrange(self.shape[d]))
                elif k < .07:
                    self.ctx.count("body_disturbs")
                    z.clear()
                    z.getPayloadRef(rng.randrange(self.shape[d]))
                if rng.random() < .04:
                    break
                if rng.random() < .02:
                    raise KeyError("body")
        try:
            loop(f, src, d)
        except KeyError:
            self.ctx.count("body_raised")


def history(ctx):
    h = Hist(ctx)
    for _ in range(ctx.rng.randint(3, 12)):
        h.step()


def bad_ctor(ctx):
    """constructors refuse unordered / duplicate coordinates"""
    rng = ctx.rng
    n = rng.randint(2, 5)
    cs = [rng.randrange(6) for _ in range(n)]
    if rng.random() < .3:
        cs = [(c, rng.randrange(3)) for c in cs]
    bad = any(not a < b for a, b in zip(cs, cs[1:]))
    ctx.describe(cs)
    if rng.random() < .25:
        # an unordered fiber takes any order, a unique one still no coordinate twice
        dup = len(set(cs)) < n
        try:
            if rng.random() < .5:
                f = Fiber(list(cs), list(range(1, n + 1)), ordered=False)
            else:
                f = Fiber.fromCoordPayloadList(list(zip(cs, range(1, n + 1))), ordered=False)
            ctx.check(not dup, "constructor accepted a repeated coordinate", cs)
            ctx.check(not mon.wf_errors(f, 1, ordered=False), "malformed construction", cs)
        except (AssertionError, CoordinateError):
            ctx.check(dup, "constructor refused good coordinates", f"unordered {cs}")
            ctx.count("order_rejections")
        return
    try:
        f = Fiber(cs, list(range(1, n + 1)))
        ctx.check(not bad, "constructor accepted bad coordinates", cs)
        ctx.check(not mon.wf_errors(f, 1), "malformed construction", cs)
    except (AssertionError, CoordinateError):
        ctx.check(bad, "constructor refused good coordinates", cs)
        ctx.count("order_rejections")


def shared_args(ctx):
    """two fibers built from the same caller lists (or one from the other's) stay well formed apart: changing the one, or the
    lists, never changes the other's pairing"""
    rng = ctx.rng
    depth = rng.choice([1, 1, 2])
    shape = gen.rand_shape(rng, depth, 2, 6)
    rt = gen.rand_rt(rng, shape, 0, density=rng.choice([.3, .8, 1]))
    src = gen.build(rt, depth, 0, shape if rng.random() < .5 else None)
    lists = [list(src.coords), list(src.payloads)]
    if rng.random() < .5:
        lists[1] = [mon.unbox(p) for p in lists[1]]
    default = Fiber if depth == 2 else 0
    objs = []
    for _ in range(2):
        k = rng.choice(["lists", "lists", "get", "cplist", "copy", "deepcopy", "tensor", "extend", "lazy"])
        if k == "lists":
            g = Fiber(lists[0], lists[1], default=default)
        elif k == "get":
            o = rng.choice(objs)[1] if objs else src
            g = Fiber(o.getCoords(), o.getPayloads(), default=default)
        elif k == "cplist":
            g = Fiber.fromCoordPayloadList(list(zip(*lists)), default=default) if lists[0] else Fiber([], [], default=default)
        elif k in ("copy", "deepcopy"):
            o = rng.choice(objs)[1] if objs else src
            g = o.copy(preserve_owner=rng.random() < .5) if k == "copy" else copy.deepcopy(o)
        elif k == "tensor":
            g = Tensor.fromFiber(gen.RANKS[:depth], Fiber(lists[0], lists[1], default=default), default=0).getRoot()
        elif k == "extend":
            g = Fiber([], [], default=default)
            g.extend(rng.choice(objs)[1] if objs else src)
        else:
            g = Fiber.fromLazy(Fiber(lists[0], lists[1], default=default).prune(lambda i, c, p: True))
        objs.append((k, g))
    objs.append(("source", src))
    ctx.describe(f"shared lists {[k for k, _ in objs]} {mon.show(src)}")
    ctx.key([k for k, _ in objs], mon.show(src))
    ctx.count("shared_lists")

    def shot(g):
        return list(g.coords), [id(p) for p in g.payloads]
    for _ in range(rng.randint(1, 4)):
        before = [shot(g) for _, g in objs]
        i = rng.randrange(len(objs) + 1)
        if i == len(objs):
            op = rng.choice(["append", "pop", "clear"])
            for ls in lists:
                if op == "append":
                    ls.append(99)
                elif op == "clear":
                    ls.clear()
                elif ls:
                    ls.pop()
            op = "caller's lists " + op
        else:
            g = objs[i][1]
            top = (g.coords[-1] if g.coords else -1) + 1 + rng.randrange(2)
            op = rng.choice(["append", "extend", "setitem", "ref", "clear", "coords"])
            new = (lambda: 5) if depth == 1 else (lambda: Fiber([1], [5]))
            if op == "append":
                g.append(top, new())
            elif op == "extend":
                g.extend(Fiber([top], [new()], default=default))
            elif op == "setitem" and g.coords:
                g[len(g.coords) - 1] = CoordPayload(top, new())
            elif op == "ref" and (depth == 1 or g.coords):
                g.getPayloadRef(rng.randrange(shape[0]))
            elif op == "clear":
                g.clear()
            elif op == "coords":
                g.updateCoords(lambda i, c, p: c + 1)
            op = f"{objs[i][0]} {op}"
        ctx.count("shared_steps")
        for j, (k, h) in enumerate(objs):
            errs = mon.wf_errors(h, depth)
            ctx.check(not errs, "malformed by a change of another fiber" if j != i else "malformed", lambda: f"after {op}: {k} fiber {errs[:3]} {h.coords} {h.payloads}")
            ctx.check(j == i or shot(h) == before[j], "changed by a change of another fiber",
                      lambda: f"after {op}: {k} fiber {before[j][0]} -> {h.coords}")


GENERATORS = {"shared_args": (shared_args, 3000, 60000), "history": (history, 80000, 1000000), "bad_ctor": (bad_ctor, 500, 2000)}
