"""Monitors: raw walks over the documented attributes, independent of the library's own iteration code."""
from fibertree import Fiber, Payload
from fibertree.core.rank import Rank


def unbox(p):
    return p.value if isinstance(p, Payload) else p


def same(a, b):
    """value equality that also distinguishes types such as 1 / True / 1.0 only when lossy"""
    return a == b


def is_fiber(p):
    return isinstance(p, Fiber)


def raw(f):
    """Fiber -> nested [(coord, child)] ; leaves unboxed."""
    return [(c, raw(p) if is_fiber(p) else unbox(p)) for c, p in zip(f.coords, f.payloads)]


def leaves(f, prefix=()):
    """[(point, leaf box)] in storage order including explicit defaults."""
    out = []
    for c, p in zip(f.coords, f.payloads):
        if is_fiber(p):
            out += leaves(p, prefix + (c,))
        else:
            out.append((prefix + (c,), p))
    return out


def content(f, default=0):
    """{point: value} of non-default leaves."""
    if not is_fiber(f):
        v = unbox(f)
        return {} if v == default else {(): v}
    d = {}
    for pt, p in leaves(f):
        v = unbox(p)
        if v != default:
            d[pt] = v
    return d


def present(f, default=0):
    """Raw non-empty elements of one fiber [(coord, payload object)]."""
    out = []
    for c, p in zip(f.coords, f.payloads):
        if is_fiber(p):
            if content(p, default):
                out.append((c, p))
        elif unbox(p) != default:
            out.append((c, p))
    return out


def wf_errors(f, depth=None, ordered=True, unique=True, path=()):
    """Structural well-formedness of a (sub)tree; depth = expected number of levels (None: infer)."""
    errs = []
    if not is_fiber(f):
        return [f"{path}: not a fiber: {type(f).__name__} {f!r}"]
    if f.isLazy():
        return [f"{path}: lazy fiber stored in a tree"]
    if not isinstance(f.coords, list) or not isinstance(f.payloads, list):
        errs.append(f"{path}: coords/payloads are not lists")
    if len(f.coords) != len(f.payloads):
        errs.append(f"{path}: {len(f.coords)} coords but {len(f.payloads)} payloads")
    for a, b in zip(f.coords, f.coords[1:]):
        if ordered and not a < b:
            errs.append(f"{path}: coords not strictly increasing: {f.coords}")
            break
    if unique and not ordered and len(set(f.coords)) != len(f.coords):
        errs.append(f"{path}: duplicate coords {f.coords}")
    for c, p in zip(f.coords, f.payloads):
        here = path + (c,)
        if is_fiber(p):
            if depth is not None and depth <= 1:
                errs.append(f"{here}: fiber where a leaf belongs")
            else:
                errs += wf_errors(p, None if depth is None else depth - 1, ordered, unique, here)
        else:
            if type(p) is not Payload:
                errs.append(f"{here}: leaf is {type(p).__name__} ({p!r}), not a Payload box")
            elif isinstance(p.value, (Payload, Fiber)):
                errs.append(f"{here}: leaf box holds a {type(p.value).__name__}")
            if depth is not None and depth != 1:
                errs.append(f"{here}: leaf at interior level")
    if depth is None:
        kinds = {len(pt) for pt, _ in leaves(f)}
        if len(kinds) > 1:
            errs.append(f"{path}: leaves at different depths {kinds}")
        if any(is_fiber(p) for p in f.payloads) and not all(is_fiber(p) for p in f.payloads):
            errs.append(f"{path}: mixed leaves and fibers")
    return errs


def levels(root, n):
    """Fibers at depth 0..n-1, DFS order."""
    out = [[] for _ in range(n)]

    def rec(f, d):
        if d >= n:
            out.append((d, f))
            return
        out[d].append(f)
        for p in f.payloads:
            if is_fiber(p):
                rec(p, d + 1)
    rec(root, 0)
    return out


# the three fields below are read where no accessor shows them; should they be named otherwise, the accessor has to do

def root_of(t):
    return t._root if hasattr(t, "_root") else t.getRoot()


def own_attrs(f):
    return f._rank_attrs if hasattr(f, "_rank_attrs") else f.getRankAttrs()


def active_set(f):
    """the active range the fiber was given, None if it follows its shape"""
    return f._active_range if hasattr(f, "_active_range") else f.getActive()


def rank_errors(t):
    """C02: rank lists versus a raw walk from the root."""
    errs = []
    root = root_of(t) if not t.ranks else t.getRoot()
    if not t.ranks:
        return [] if not is_fiber(root) else ["rank-0 tensor with a fiber root"]
    n = len(t.ranks)
    lv = levels(root, n)
    if len(lv) != n:
        errs.append("fibers below the last rank")
    for d in range(n):
        r = t.ranks[d]
        want = [id(f) for f in lv[d]]
        got = [id(f) for f in r.getFibers()]
        if len(set(want)) != len(want):
            errs.append(f"rank {d}: a fiber object occurs twice in the tree")
        if len(set(got)) != len(got):
            errs.append(f"rank {d}: fiber listed more than once")
        missing = len(set(want) - set(got))
        stale = len(set(got) - set(want))
        if missing or stale:
            errs.append(f"rank {d} ({r.getId()}): {missing} live fibers missing, {stale} stale fibers listed "
                        f"(live {len(want)}, listed {len(got)})")
        for f in lv[d]:
            if f.getOwner() is not r:
                o = f.getOwner()
                errs.append(f"rank {d}: a live fiber reports owner {o.getId() if o else None}"
                            f"{'' if o not in t.ranks else ' (rank %d)' % t.ranks.index(o)}")
                break
        nxt = t.ranks[d + 1] if d + 1 < n else None
        if r.getNextRank() is not nxt:
            errs.append(f"rank {d}: next_rank chain broken")
    fs = t.ranks[0].getFibers()
    if len(fs) != 1 or fs[0] is not root:
        errs.append("root is not the single fiber of the first rank")
    return errs


def tree_snap(f, ids=False):
    """Deep structural snapshot of a fiber (or rank-0 payload)."""
    if not is_fiber(f):
        return ("P", unbox(f), type(unbox(f)).__name__) + ((id(f),) if ids else ())
    return ("F", tuple(f.coords), tuple(tree_snap(p, ids) for p in f.payloads)) + \
        ((id(f), id(f.getOwner()) if f.getOwner() is not None else None) if ids else ())


def _attr(fn):
    try:
        return repr(fn())
    except Exception as e:
        return "raises " + type(e).__name__


def attr_snap(f):
    """Observable attributes of every fiber of a tree."""
    if not is_fiber(f):
        return ()
    a = f.getRankAttrs()
    own = (_attr(lambda: a.getId()), _attr(lambda: a.getShape()), _attr(lambda: a.getFormat()),
           _attr(lambda: a.getDefault()), _attr(lambda: f.getActive()),
           f.isOrdered(), f.isUnique(), f.isLazy())
    return (own, tuple(attr_snap(p) for p in f.payloads if is_fiber(p)))


def full_snap(x, ids=True):
    """Snapshot of a fiber or a tensor, including rank lists and attributes."""
    if is_fiber(x):
        s = ("fiber", tree_snap(x, ids), attr_snap(x))
        o = x.getOwner()
        if o is not None:
            rk = []
            while o is not None:
                rk.append((o.getId(), [id(f) for f in o.getFibers()] if ids else len(o.getFibers())))
                o = o.getNextRank()
            s += (repr(rk),)
        return s
    root = root_of(x)
    return ("tensor", tree_snap(root, ids), attr_snap(root), repr(x.getRankIds()), _attr(x.getName),
            _attr(x.getColor), _attr(x.isMutable),
            repr([(r.getId(), [id(f) for f in r.getFibers()] if ids else len(r.getFibers()),
                   _attr(lambda: r.getAttrs().getShape()), _attr(lambda: r.getAttrs().getEstimatedShape()),
                   _attr(r.getFormat), _attr(r.getDefault)) for r in x.ranks]))


def mutable_ids(x):
    """ids of every mutable object reachable as part of a fiber/tensor: fibers, lists, boxes, ranks, attrs."""
    out = {}

    def rec(f, d):
        if is_fiber(f):
            if id(f) in out:
                return
            out[id(f)] = "fiber"
            out[id(f.coords)] = "coords list"
            out[id(f.payloads)] = "payloads list"
            out[id(own_attrs(f))] = "attrs"
            o = f.getOwner()
            while o is not None and id(o) not in out:
                out[id(o)] = "rank"
                out[id(o.getAttrs())] = "rank attrs"
                out[id(o.getFibers())] = "rank fiber list"
                for g in o.getFibers():
                    rec(g, d)
                o = o.getNextRank()
            for p in f.payloads:
                rec(p, d + 1)
        elif isinstance(f, Payload):
            out[id(f)] = "payload box"

    if is_fiber(x) or isinstance(x, Payload):
        rec(x, 0)
    else:
        rec(root_of(x), 0)
        for r in x.ranks:
            out[id(r)] = "rank"
            out[id(r.getAttrs())] = "rank attrs"
            for f in r.getFibers():
                rec(f, 0)
    return out


def show(x, default=0):
    if is_fiber(x):
        return repr(raw(x))
    if isinstance(x, Payload):
        return repr(x.value)
    try:
        return f"T{x.getRankIds()}{repr(raw(root_of(x))) if is_fiber(root_of(x)) else root_of(x)}"
    except Exception as e:
        return f"<unprintable {type(e).__name__}>"
