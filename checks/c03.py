"""C03: point access behaves like a map; reads are pure, references alias, shortcuts change nothing."""
import copy
from fibertree import Fiber, Tensor, Payload
from lib import gen, mon

gen.EXOTIC = True

RULE = ("random histories of point reads, prefix reads, references, writes through old and new references and position "
        "lookups on one tree, judged against a dict model; the raw tree is compared by object identity around every "
        "read. Non-trivial: distinct (raw tree, operation, point) triples")
FLOORS = {"reads": 4000, "absent_reads": 1500, "prefix_reads": 800, "refs_created": 800, "refs_existing": 800,
          "old_handle_writes": 300, "positions": 1000, "shortcuts": 1000, "caller_default": 400, "rank0": 10,
          "bad_shortcuts": 100, "shortcut_rejected": 1, "tuple_coords": 200, "unordered": 200}
ASSUMPTIONS = ["a fiber returned for an absent prefix is only written through when it is a leaf-level fiber",
               "reads below an unowned empty interior fiber are out of scope (its depth is unknown)"]


class Map:
    def __init__(self, ctx):
        self.ctx = ctx
        rng = self.rng = ctx.rng
        self.depth = rng.choice([1, 1, 2, 2, 3, 4])
        self.shape = gen.rand_shape(rng, self.depth, 2, 6)
        self.default = gen.rand_default(rng)
        self.exotic = rng.random() < .06
        if self.exotic:
            self.default = rng.choice(["", "x", frozenset(), frozenset([1])])
        self.vals = gen.Vals(rng, self.default)
        self.lo = rng.choice([0, 0, 0, -3])
        kind = self.kind = rng.choice(["tensor", "tensor", "tensor", "fiber", "fiber", "tuple", "unordered"])
        rt = gen.rand_rt(rng, self.shape, self.default, self.vals)
        self.cmap = [lambda c: c] * self.depth
        if kind == "tuple":
            self.cmap = [lambda c: (c // 2, c % 2)] * self.depth
            ctx.count("tuple_coords")
        elif self.lo:
            self.cmap = [lambda c: 2 * c + self.lo] * self.depth
        rt = gen.rt_map_coords(rt, self.cmap)
        self.tensor = None
        if kind == "unordered":
            self.depth, self.shape, self.cmap = 1, self.shape[:1], self.cmap[:1]
            rt = gen.rand_rt(rng, self.shape, self.default, self.vals)
            rt = gen.rt_map_coords(rt, self.cmap)
            rng.shuffle(rt)
            self.root = Fiber([c for c, _ in rt], [v for _, v in rt], default=self.default, ordered=False)
            ctx.count("unordered")
        elif kind in ("fiber", "tuple"):
            self.root = gen.build(rt, self.depth, self.default, None, rng.choice(["leaf", "fiber"]))
            if kind == "tuple" and rng.random() < .6:
                self.tensor = Tensor.fromFiber(gen.RANKS[:self.depth], self.root, default=self.default)
        elif self.lo:
            self.tensor = Tensor.fromFiber(gen.RANKS[:self.depth], gen.build(rt, self.depth, self.default),
                                           default=self.default)
        else:
            self.tensor, _ = gen.rand_tensor(rng, self.depth, list(self.shape), self.default, vals=self.vals,
                                             formats=.15)
            if rng.random() < .2:
                self.tensor = copy.deepcopy(self.tensor)
        if self.tensor is not None:
            self.root = self.tensor.getRoot()
        self.model = {pt: mon.unbox(b) for pt, b in mon.leaves(self.root)}     # stored leaves
        self.handles = {}
        self.top = self.tensor if self.tensor is not None else self.root
        ctx.describe(f"{kind} depth={self.depth} default={self.default} {mon.show(self.root)}")

    # -- helpers ------------------------------------------------------
    def coord(self, d):
        c = self.rng.randrange(self.shape[d] + 1)
        return self.cmap[d](c)

    def point(self, n=None):
        n = n or self.depth
        if self.model and self.rng.random() < .4:
            return self.rng.choice(sorted(self.model))[:n]
        return tuple(self.coord(d) for d in range(n))

    def unknown_level(self, pt):
        """an unowned empty interior fiber on the path"""
        if self.tensor is not None:
            return False
        f = self.root
        for i, c in enumerate(pt):
            if i < self.depth - 1 and not f.coords:
                return True
            if c not in f.coords:
                # depth below a missing coordinate is known only through siblings
                return self.depth - i > 1 and self.no_sibling_chain(f, self.depth - i)
            f = f.payloads[f.coords.index(c)]
            if not isinstance(f, Fiber):
                return False
        return False

    def no_sibling_chain(self, f, levels):
        # levels: number of levels from f to the leaves
        if levels <= 1:
            return False
        # any interior fiber without elements hides the depth below it
        return any(not g.coords for lv in mon.levels(f, levels)[:levels - 1] for g in lv)

    def snap(self):
        if self.tensor is not None:
            return mon.full_snap(self.tensor)
        return mon.full_snap(self.root)

    def verify(self, what, before_ids=None):
        got = {pt: mon.unbox(b) for pt, b in mon.leaves(self.root)}
        if got != self.model:
            extra = {k: v for k, v in got.items() if k not in self.model}
            lost = {k: v for k, v in self.model.items() if k not in got}
            diff = {k: (self.model[k], got[k]) for k in got if k in self.model and got[k] != self.model[k]}
            self.ctx.fail("map model", f"after {what}: unexpected {extra}, lost {lost}, changed {diff}")

    def pure(self, before, what):
        if self.snap() != before:
            self.ctx.fail("read changed the tree", f"{what}\n before {before}\n after  {self.snap()}")

    # -- operations ---------------------------------------------------
    def op_read(self):
        ctx, rng = self.ctx, self.rng
        pt = self.point()
        if self.unknown_level(pt):
            return
        before = self.snap()
        mode = rng.choice(["plain", "plain", "noalloc", "noalloc_none"])
        top = self.top if rng.random() < .7 else self.root
        stored = pt in self.model
        if mode == "plain":
            r = top.getPayload(*pt)
            want = self.model.get(pt, self.default)
        elif mode == "noalloc":
            r = top.getPayload(*pt, allocate=False, default=-77)
            want = self.model.get(pt, -77)
            ctx.count("caller_default")
        else:
            r = top.getPayload(*pt, allocate=False)
            want = self.model.get(pt, None)
            ctx.count("caller_default")
        ctx.count("reads" if stored else "absent_reads")
        what = f"getPayload{pt} {mode}"
        self.pure(before, what)
        ctx.check(not isinstance(r, Fiber) and mon.unbox(r) == want and type(mon.unbox(r)) is type(want),
                  "point read", lambda: f"{what}: got {r!r} expected {want!r}\n {mon.show(self.root)}")
        if isinstance(r, Payload):
            if stored:
                ctx.check(any(r is b for p, b in mon.leaves(self.root) if p == pt), "read is not the stored box", what)
            elif mode == "plain":
                r <<= 5         # a fresh default: writing to it is invisible
                self.pure(before, what + " then writing to the returned default")
                r2 = top.getPayload(*pt)
                ctx.check(mon.unbox(r2) == self.default, "default is shared", lambda: f"{what}: second read {r2!r}")

    def op_prefix(self):
        ctx, rng = self.ctx, self.rng
        if self.depth == 1:
            return self.op_read()
        n = rng.randint(1, self.depth - 1)
        pt = self.point(n)
        if self.unknown_level(pt + (None,)):
            return
        before = self.snap()
        f = self.top.getPayload(*pt)
        ctx.count("prefix_reads")
        what = f"getPayload{pt} (prefix)"
        self.pure(before, what)
        ctx.check(isinstance(f, Fiber), "prefix read", lambda: f"{what}: got {f!r}")
        want = {p[n:]: v for p, v in self.model.items() if p[:n] == pt}
        got = {p: mon.unbox(b) for p, b in mon.leaves(f)}
        ctx.check(got == want, "prefix read", lambda: f"{what}: {got} expected {want}")
        if self.tensor is not None:
            rest = tuple(self.coord(d) for d in range(n, self.depth))
            r = f.getPayload(*rest)
            ctx.check(mon.unbox(r) == self.model.get(pt + rest, self.default), "read through a sub-fiber",
                      lambda: f"{what} then {rest}: {r!r}")
            self.pure(before, what + f" then read {rest}")
            if n == self.depth - 1 and not any(p[:n] == pt for p in self.model) and self.stored(pt) is None:
                ref = f.getPayloadRef(*rest)
                ref <<= 99
                self.pure(before, what + " then writing into the returned absent leaf fiber")
        if rng.random() < .3:
            nod = self.top.getPayload(*pt, allocate=False, default=-5)
            if self.stored(pt) is not None:
                ctx.check(nod is self.stored(pt), "prefix read without allocation", what)
            else:
                ctx.check(mon.unbox(nod) == -5, "caller default for a prefix", lambda: f"{what}: {nod!r}")
            self.pure(before, what + " allocate=False")

    def stored(self, pt):
        f = self.root
        for c in pt:
            if c not in f.coords:
                return None
            f = f.payloads[f.coords.index(c)]
        return f

    def write(self, box, pt, what):
        rng = self.rng
        cur = self.model[pt]
        v = self.vals()
        k = rng.choice(range(8) if gen.num(cur) and gen.num(v) and not self.exotic else (0, 1, 5, 6, 7))
        b0 = box
        if k == 0:
            box <<= v
            new = v
        elif k == 1:
            box <<= Payload(v)
            new = v
        elif k == 2:
            box += v
            new = cur + v
        elif k == 3:
            box *= 3
            new = cur * 3
        elif k == 4:
            box -= v
            new = cur - v
        elif k == 5:
            box <<= self.default
            new = self.default
        elif k == 6:
            box.v = v
            new = v
        else:
            new = cur
        self.ctx.check(box is b0, "in-place operation replaced the reference", what)
        self.model[pt] = new

    def op_ref(self):
        ctx, rng = self.ctx, self.rng
        pt = self.point()
        if self.unknown_level(pt):
            return
        others = {p: id(b) for p, b in mon.leaves(self.root) if p != pt}
        existing = pt in self.model
        top = self.top if rng.random() < .7 else self.root
        kw = {}
        if self.depth == 1 and top is self.root and self.kind != "unordered" and rng.random() < .5:
            kw["start_pos"] = self.shortcut(self.root, pt[0])
        if rng.random() < .3 and self.depth > 1:
            # step by step through prefix references
            f = top
            for c in pt[:-1]:
                f = f.getPayloadRef(c)
                ctx.check(isinstance(f, Fiber), "prefix reference", f"{pt}: {f!r}")
            ctx.check(f is self.stored(pt[:-1]), "prefix reference does not alias the stored fiber", str(pt))
            box = f.getPayloadRef(pt[-1])
        else:
            box = top.getPayloadRef(*pt, **kw)
        ctx.count("refs_existing" if existing else "refs_created")
        what = f"getPayloadRef{pt} {kw}"
        ctx.check(isinstance(box, Payload), "reference", lambda: f"{what}: {box!r}")
        if not existing:
            self.model[pt] = self.default
        self.verify(what)
        now = {p: id(b) for p, b in mon.leaves(self.root) if p != pt}
        ctx.check(now == others, "reference disturbed another point", what)
        ctx.check(box is self.stored(pt), "reference does not alias the stored payload", what)
        self.write(box, pt, what)
        self.handles[pt] = box
        self.verify(what + " write")
        back = self.top.getPayload(*pt)
        ctx.check(mon.unbox(back) == self.model[pt], "read after write",
                  lambda: f"{what}: {back!r} expected {self.model[pt]!r}")

    def op_old(self):
        if not self.handles:
            return self.op_ref()
        pt = self.rng.choice(sorted(self.handles))
        self.write(self.handles[pt], pt, f"old handle {pt}")
        self.ctx.count("old_handle_writes")
        self.verify(f"write through the old handle of {pt}")

    def shortcut(self, f, c):
        ok = [0] + [i for i, x in enumerate(f.coords) if x <= c]
        s = self.rng.choice(ok)
        self.ctx.count("shortcuts")
        return Payload(s) if self.rng.random() < .2 else s

    def fiber_at(self):
        """a live fiber, its prefix"""
        pt = ()
        f = self.root
        while isinstance(f.payloads[0] if f.payloads else None, Fiber) and self.rng.random() < .6:
            i = self.rng.randrange(len(f.payloads))
            pt += (f.coords[i],)
            f = f.payloads[i]
        return f, pt

    def op_pos(self):
        ctx, rng = self.ctx, self.rng
        f, pre = self.fiber_at()
        c = self.coord(len(pre)) if rng.random() < .5 or not f.coords else rng.choice(f.coords)
        kw = {}
        bad = False
        if self.kind != "unordered" and rng.random() < .7:
            if rng.random() < .25:
                kw["start_pos"] = rng.randint(0, len(f.coords))
                bad = mon.unbox(kw["start_pos"]) > 0 and (kw["start_pos"] >= len(f.coords)
                                                          or f.coords[kw["start_pos"]] > c)
                if bad:
                    ctx.count("bad_shortcuts")
            else:
                kw["start_pos"] = self.shortcut(f, c)
        before = self.snap()
        what = f"{pre} coord {c} {kw} on {f.coords}"
        want = f.coords.index(c) if c in f.coords else None
        try:
            got = f.getPosition(c, **kw)
        except (AssertionError, IndexError, ValueError):
            ctx.check(bad, "legal position lookup rejected", what)
            got = want
        ctx.count("positions")
        self.pure(before, "getPosition " + what)
        ctx.check(got == want, "position lookup", lambda: f"{what}: {got} expected {want}")
        if want is not None:
            ctx.check(f[want].coord == c and f[want].payload is f.payloads[want], "position index", what)
        # read with the same shortcut
        leafy = len(pre) == self.depth - 1
        if leafy or self.tensor is not None or f.coords:
            try:
                r = f.getPayload(c, **kw)
                if want is not None:
                    ctx.check(r is f.payloads[want], "read with a shortcut", what)
                elif leafy:
                    ctx.check(mon.unbox(r) == self.default, "absent read with a shortcut", lambda: f"{what}: {r!r}")
                sp = f.getSavedPos()
                ctx.check(not kw or bad or (0 <= sp and (sp == 0 or sp < len(f.coords) and f.coords[sp] <= c)),
                          "saved shortcut is not usable for a later coordinate", lambda: f"{what}: saved {sp}")
            except (AssertionError, IndexError):
                ctx.check(bad, "legal shortcut rejected", what)
                ctx.count("shortcut_rejected")
            self.pure(before, "getPayload " + what)
        if leafy and rng.random() < .3:
            # the inserting variants
            ref = rng.random() < .5
            pos0 = list(f.coords)
            try:
                if ref:
                    i = f.getPositionRef(c, **kw)
                else:
                    b = f.getPayloadRef(c, **kw)
            except (AssertionError, IndexError, ValueError):
                ctx.check(bad, "legal shortcut rejected", what)
                self.pure(before, what)
                return
            self.model.setdefault(pre + (c,), self.default)
            self.verify("inserting lookup " + what)
            want = f.coords.index(c)
            if ref:
                ctx.check(i == want, "getPositionRef index", lambda: f"{what}: {i} expected {want}")
            else:
                ctx.check(b is f.payloads[want], "getPayloadRef with a shortcut", what)
            ctx.check(f.coords == (sorted(set(pos0) | {c}) if self.kind != "unordered" else
                                   pos0 if c in pos0 else pos0 + [c]), "coordinates after an inserting lookup", what)

    def op_scan(self):
        """monotone scan re-using the saved position of the previous lookup"""
        ctx = self.ctx
        f, pre = self.fiber_at()
        leafy = len(pre) == self.depth - 1
        if self.kind == "unordered" or not (leafy or self.tensor is not None or f.coords):
            return
        before = self.snap()
        start = 0
        cs = sorted({self.cmap[len(pre)](c) for c in range(self.shape[len(pre)] + 2) if self.rng.random() < .7})
        how = self.rng.choice(["payload", "position"])
        for c in cs:
            want = f.coords.index(c) if c in f.coords else None
            if how == "payload":
                r = f.getPayload(c, start_pos=start)
                ctx.check(r is f.payloads[want] if want is not None else
                          (mon.unbox(r) == self.default if leafy else not mon.content(r, self.default)),
                          "scan with saved positions", lambda: f"{cs} at {c} on {f.coords}: {r!r}")
            else:
                r = f.getPosition(c, start_pos=start)
                ctx.check(r == want, "scan with saved positions", lambda: f"{cs} at {c} on {f.coords}: {r!r}")
            ctx.count("shortcuts")
            start = f.getSavedPos()
        self.pure(before, "scan")

    def step(self):
        op = self.rng.choice(["read", "read", "read", "prefix", "ref", "ref", "old", "pos", "pos", "scan"])
        self.ctx.op(op)
        self.ctx.key(mon.tree_snap(self.root), op)
        getattr(self, "op_" + op)()


def history(ctx):
    m = Map(ctx)
    for _ in range(ctx.rng.randint(4, 14)):
        m.step()


def rank0(ctx):
    rng = ctx.rng
    v = rng.randint(-5, 5)
    t = Tensor(rank_ids=[])
    ctx.describe(f"rank-0 {v}")
    ctx.count("rank0")
    ctx.key("rank0", v)
    ctx.check(mon.unbox(t.getPayload()) == 0, "rank-0 initial value")
    r = t.getPayloadRef()
    r <<= v
    ctx.check(t.getPayload() == v and t.getPayload() is r, "rank-0 reference")
    r += 2
    ctx.check(mon.unbox(t.getPayload()) == v + 2, "rank-0 in-place arithmetic")
    t2 = Tensor.fromUncompressed(root=v)
    ctx.check(mon.unbox(t2.getPayload()) == v, "rank-0 fromUncompressed")


def writes(ctx):
    """every permutation of a few writes gives the same map (all orders of arrival)"""
    rng = ctx.rng
    depth = rng.randint(1, 3)
    shape = gen.rand_shape(rng, depth, 1, 4)
    default = gen.rand_default(rng)
    t = Tensor(rank_ids=gen.RANKS[:depth], shape=shape if rng.random() < .5 else None, default=default)
    model = {}
    ctx.describe(f"writes into an empty tensor {shape} default {default}")
    for _ in range(rng.randint(1, 8)):
        pt = tuple(rng.randrange(s) for s in shape)
        v = rng.randint(-3, 9)
        if rng.random() < .5:
            r = t.getPayloadRef(*pt)
            r <<= v
            model[pt] = v
        else:
            r = t.getPayloadRef(*pt)
            r += v
            model[pt] = model.get(pt, default) + v
        for p in {pt, tuple(rng.randrange(s) for s in shape)}:
            g = t.getPayload(*p)
            ctx.count("reads" if p in model else "absent_reads")
            ctx.check(mon.unbox(g) == model.get(p, default), "read in write history", lambda: f"{p}: {g!r} {model}")
    ctx.check({p: mon.unbox(b) for p, b in mon.leaves(t.getRoot())} == model, "final map",
              lambda: f"{mon.show(t)} vs {model}")
    ctx.key(mon.tree_snap(t.getRoot()))


GENERATORS = {"history": (history, 60000, 700000), "rank0": (rank0, 40, 200), "writes": (writes, 10000, 60000)}
