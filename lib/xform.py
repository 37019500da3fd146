"""Random transforms of a tensor (arguments chosen legal), shared by several checks."""
import copy
from lib import gen


def choices(t, rng, depth, flat=False):
    """[(name, thunk -> result tensor)] applicable to a plain (integer-coordinate) tensor of the given depth."""
    ids = t.getRankIds()
    d = rng.randrange(depth)
    step = rng.randint(1, 4)
    halo = {"pre_halo": rng.choice([0, 0, 1, 2]), "post_halo": rng.choice([0, 0, 1, 2])}
    rel = rng.random() < .3
    kw = dict(halo, relativeCoords=rel)
    if rng.random() < .5:
        kw["depth"] = d
    else:
        kw["rankid"] = ids[d]
    out = [
        (f"splitUniform({step},{kw})", lambda: t.splitUniform(step, **kw)),
        (f"splitEqual({step},{kw})", lambda: t.splitEqual(step, **kw)),
    ]
    splits = sorted(rng.sample(range(8), rng.randint(1, 4)))
    out.append((f"splitNonUniform({splits},{kw})", lambda: t.splitNonUniform(list(splits), **kw)))
    sizes = [rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
    out.append((f"splitUnEqual({sizes},{kw})", lambda: t.splitUnEqual(list(sizes), **kw)))
    out.append((f"/ {step}", lambda: t / step))
    out.append((f"// {step}", lambda: t // step))
    perm = list(ids)
    rng.shuffle(perm)
    out.append((f"swizzleRanks({perm})", lambda: t.swizzleRanks(perm)))
    out.append(("updatePayloads", lambda: t.updatePayloads(lambda i, c, p: p, depth=d)))
    out.append(("updateCoords", lambda: t.updateCoords(lambda i, c, p: 50 - c, depth=d)))
    out.append(("deepcopy", lambda: copy.deepcopy(t)))
    if depth > 1:
        d2 = rng.randrange(depth - 1)
        lv = rng.randint(1, depth - 1 - d2)
        style = rng.choice(["tuple", "pair", "linear"])
        if style == "linear" and t.getShape(authoritative=True) is None:
            style = "tuple"
        mstyle = rng.choice(["absolute", "relative"])
        out.append((f"swapRanks({d2})", lambda: t.swapRanks(depth=d2)))
        out.append((f"flattenRanks({d2},{lv},{style})", lambda: t.flattenRanks(depth=d2, levels=lv, coord_style=style)))
        out.append((f"flatten/unflatten({d2},{lv})",
                    lambda: t.flattenRanks(depth=d2, levels=lv).unflattenRanks(depth=d2, levels=lv)))
        mkw = gen.merge_kw(t)
        out.append((f"mergeRanks({d2},{lv},{mstyle})",
                    lambda: t.mergeRanks(depth=d2, levels=lv, coord_style=mstyle, **mkw)))
    return out
