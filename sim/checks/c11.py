"""C11 A value outside the range is never proved inside it.

Dishonest provers, and the library's own, with commitments to values just outside, far outside, negative
and wrapping around the group order."""

from sim import common, core, ref, sound, world

QUICK, THOROUGH = 1000, 60000
PEER = True
RULE = ("A random statement with range or power-of-two-range clauses about values that are not in range (next to either "
        "limit, between a limit and the next power of two, negative, around the group order, random) and forged bit "
        "commitments: one digit that is no bit, surplus, missing, simulated, swapped or truncated ones, for one or both "
        "halves; composed under AND and OR; as a proof or in a session; adversary or library prover. Boundary values are "
        "proved by the library as a control.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)


def limits(ctx, q):
    ch = ctx.ch
    k = ch.weighted([(3, 8), (6, 6), (12, 2), (33, 2), (70, 1)])
    n = 1 + ch.draw(k)
    if k == 70:
        # beyond the precision of floating point numbers
        n = 48 + ch.draw(24)
        ctx.probe("wide")
    width = max(2, {"power": 1 << n, "above": (1 << n) + 1 + ch.draw(3), "below": (1 << n) - 1 - ch.draw(3),
                    "any": 2 + ch.draw(1 << min(n, 60))}[ch.pick(["power", "above", "below", "any"])])
    lo = ch.weighted([(0, 3), (1 + ch.draw(100), 3), (-1 - ch.draw(100), 2), (1 << 64, 1), (-(1 << 70) + 3, 1)])
    return lo, lo + width


def outside(ctx, lo, hi, q):
    """(kind, value)"""
    ch = ctx.ch
    n = (hi - lo - 1).bit_length()
    up, down = lo + (1 << n), hi - (1 << n)
    opts = [("at-hi", hi), ("below-lo", lo - 1), ("above-hi", hi + 1 + ch.draw(9)), ("far-below", lo - 2 - ch.draw(9)),
            ("power-above", up), ("power-below", down - 1), ("twice", lo + 2 * (hi - lo) + 1), ("random", ctx.rng.randrange(q)),
            ("half-order", (lo + q // 2)), ("inverse-two", lo + (q + 1) // 2)]
    if up > hi:
        opts += [("first-half-only", hi + ch.draw(up - hi))] * 3
    if down < lo:
        opts += [("second-half-only", down + ch.draw(lo - down))] * 3
    if lo > 0:
        opts.append(("zero", 0))
    if lo >= 0:
        opts += [("negative", -1 - ch.draw(9)), ("wrapped", q - 1 - ch.draw(9))]
    good = [(k, v) for k, v in opts if not any(lo <= v % q + s * q < hi for s in (-1, 0, 1))]
    return ch.pick(good)


def false_leaf(ctx, g, pool, two):
    ch = ctx.ch
    gid = g.gid(ec=True)
    grp = ref.group(gid)
    lo, hi = limits(ctx, grp.q)
    if not two:
        lo, hi = 0, 1 << (hi - lo - 1).bit_length()
    kind, v = outside(ctx, lo, hi, grp.q)
    x = g.new_secret(grp.q, v=v, how="embed", pool=pool)
    r = g.new_secret(grp.q, how="embed", pool=pool)
    b = world.gens(gid)
    com = ref.lincomb(grp, [(v, ref.cpt(gid, b[0])), (g.val(r), ref.cpt(gid, b[1]))])
    ctx.probe("false-" + kind)
    base = {"g": gid, "com": ref.hx(gid, com), "gg": b[0], "hh": b[1], "x": x, "r": r, "t": False}
    if two:
        return dict(base, k="range", a=str(lo), b=str(hi)), kind
    return dict(base, k="p2", n=(hi - 1).bit_length(), off=0), kind


def run(ctx):
    ch = ctx.ch
    edges = ch.chance(20)
    if not edges:
        ctx.no_edges()
    if ch.chance(20):
        return boundaries(ctx)
    g = world.Gen(ch, edge_values=ch.draw(2) == 1, max_bits=3)
    two = ch.chance(60)
    kinds = []

    def make(pool):
        leaf, kind = false_leaf(ctx, g, pool, two)
        kinds.append(kind)
        return leaf

    tree = sound.place(ctx, g, make)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample + " " + ",".join(kinds))
    norm = ref.normal(tree)
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    if val["0"]:
        raise core.Discard("provable")
    V, A = sound.machines(ctx, tree)
    for i in range(5):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "out-of-range-accepted")
    for i in range(2):
        secrets = dict(g.secrets)
        if ch.draw(2):
            # the library's prover is told that the value were in range
            for n in sound.walk(norm):
                if n[1]["k"] == "p2":
                    secrets[n[1]["x"]] = dict(secrets[n[1]["x"]], v=str(-int(n[1].get("off", 0)) + ch.draw(2)))
            ctx.fault("library-prover-lied-to")
        sound.library(ctx, V, "st", tree, secrets, g.sigs, "out-of-range-accepted", i, not edges)


def boundaries(ctx):
    """Range statements about boundary values, by the library, against their truth."""
    ch = ctx.ch
    g = world.Gen(ch, edge_values=False)
    gid = g.gid(ec=True)
    grp = ref.group(gid)
    lo, hi = limits(ctx, grp.q)
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(30))
    b = world.gens(gid)
    ctx.sample = "range<%s>[%d,%d)" % (gid, lo, hi)
    for i, v in enumerate(sorted({lo - 1, lo, hi - 1, hi, outside(ctx, lo, hi, grp.q)[1], lo + ch.draw(hi - lo)})):
        inside = lo <= v < hi
        if ch.chance(20):
            o = ctx.call(P, "range_only", str(lo), str(hi), str(v))
            ctx.probe("range-only")
        else:
            r = g.new_secret(grp.q, how="embed")
            x = g.new_secret(grp.q, v=v, how="embed")
            com = ref.lincomb(grp, [(v, ref.cpt(gid, b[0])), (g.val(r), ref.cpt(gid, b[1]))])
            tree = {"k": "range", "g": gid, "com": ref.hx(gid, com), "gg": b[0], "hh": b[1], "a": str(lo), "b": str(hi),
                    "x": x, "r": r}
            h = "st%d" % i
            if not common.build_verifier(ctx, V, h, tree).ok:
                raise core.Discard("building")
            o = common.build_prover(ctx, P, h, {"tree": tree, "secrets": g.secrets, "sigs": {}})
            if o.ok:
                o = ctx.call(P, "prove", h)
            if o.ok:
                o = ctx.call(V, "verify", h, o.value)
        if o.kind == "hang":
            ctx.fail("hang", ctx.sample)
        if inside:
            ctx.probe("inside-accepted" if o.accepted else "inside-refused")
            continue
        ctx.fault("library-prover-on-false-statement")
        if o.accepted:
            ctx.fail("out-of-range-accepted", "%s: %d" % (ctx.sample, v))
