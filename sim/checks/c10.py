"""C10 Equal discrete logarithms are never proved unequal.

Dishonest provers, and the library's own, against inequalities that do not hold, alone and composed, and
against binding inequalities about another value than the rest of the statement."""

from sim import byz, common, core, ref, sound, world

QUICK, THOROUGH = 1800, 60000
PEER = True
RULE = ("A random statement with an inequality that is false: equal logarithms (of random, zero, small values, of the "
        "same pair, of bases with a known relation, of infinities), a first relation unknown to the prover, or a bound "
        "secret of another value; precommitments that are the unity, random, split between the two relations; composed "
        "under AND and OR; as a proof or in a session; adversary or library prover, with an entropy source that may "
        "give zeros.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    world.gens("G1")


def false_leaf(ctx, g, pool):
    """(leaf, kind)"""
    ch = ctx.ch
    gid = g.gid(ec=not ch.chance(10))
    if gid == "GT":
        gid = "G1"
    grp = ref.group(gid)
    b = world.gens(gid)
    i = ch.draw(4)
    h0, h1 = b[i], b[(i + 1 + ch.draw(3)) % 8]
    kind = ch.weighted([("equal", 6), ("same-pair", 1), ("known-relation", 2), ("zero", 1), ("infinite-bases", 1),
                        ("negated", 1), ("unknown-first", 2)])
    x = g.new_secret(grp.q, v=0, pool=pool) if kind == "zero" else g.some_secret(grp.q, pool)
    v = g.val(x)
    P0 = ref.cpt(gid, h0)
    H0 = grp.mul(v, P0)
    P1 = ref.cpt(gid, h1)
    if kind == "same-pair":
        P1 = P0
    elif kind == "known-relation":
        P1 = grp.mul(2 + ch.draw(50), P0)
    elif kind == "negated":
        P1 = grp.neg(P0)
    elif kind == "infinite-bases":
        P1 = grp.inf
    H1 = grp.mul(v, P1)
    if kind == "unknown-first":
        H0 = grp.add(H0, grp.mul(g.rng.randrange(1, grp.q), grp.gen))
    ctx.probe("false-" + kind)
    return {"k": "dlne", "g": gid, "H0": ref.hx(gid, H0), "h0": h0, "H1": ref.hx(gid, H1), "h1": ref.hx(gid, P1), "x": x,
            "bind": ch.chance(50), "t": False}, kind


def run(ctx):
    ch = ctx.ch
    edges = ch.chance(20)
    if not edges:
        ctx.no_edges()
    if ch.chance(25):
        return binding(ctx)
    g = world.Gen(ch, pairing=6, edge_values=ch.draw(2) == 1, max_bits=3)
    truths = []

    def make(pool):
        leaf, kind = false_leaf(ctx, g, pool)
        truths.append(kind)
        return leaf

    tree = sound.place(ctx, g, make)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample + " " + ",".join(truths))
    norm = ref.normal(tree)
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    if val["0"]:
        raise core.Discard("provable")
    V, A = sound.machines(ctx, tree)
    for i in range(3 if common.needs_pairing(tree) else 7):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "inequality-of-equals")
    if "unknown-first" not in truths or ch.chance(30):
        for i in range(2):
            # false for every witness, except that an unknown first relation may still hold for some value that
            # the caller does not have
            sound.library(ctx, V, "st", tree, g.secrets, g.sigs, "inequality-of-equals", i, not edges)


def binding(ctx):
    """A binding inequality about another value than its fellows."""
    ch = ctx.ch
    g = world.Gen(ch, edge_values=False, share=90, sims=False, depth=1 + ch.draw(2), max_leaves=4, pairing=4,
                  kinds=[("dlne", 6), ("dl", 5), ("cust", 1), ("range", 1), ("bbs", 0)], max_bits=3,
                  shapes=[("and", 7), ("or", 1), ("leaf", 1)])
    tree = g.tree(true=True)
    for _, n in world.walk(tree):
        if n["k"] == "dlne" and ch.chance(70):
            n["bind"] = True
    norm = ref.normal(tree)
    occ = byz.occurrences(norm)
    ne = [o for o in occ if o[1] == "dlne"]
    able = [o for o in ne if sum(1 for p in occ if p[0] == o[0] and byz.scope_of(norm, p[2]) == byz.scope_of(norm, o[2])) > 1]
    if not able:
        raise core.Discard("nothing bound")
    o = ch.pick(able)
    wit = g.witness()
    over, pover = byz.mismatch(ctx, norm, o, wit, g.sigs, g.keys)
    ctx.sample = "%s, %s at %s differs" % (world.describe(tree), o[0], o[2])
    ctx.event("case", ctx.sample)
    ctx.probe("bound-to-another-value")
    val = sound.evaluate(norm, wit, g.sigs)
    from sim.checks import c09

    c09.force(norm, o[2], val)
    V, A = sound.machines(ctx, tree)
    for i in range(2 if common.needs_pairing(tree) else 5):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        pl.over.update(over)
        pl.pover.update(pover)
        pl.split = bool(ch.draw(2))
        pl.note("bound-elsewhere")
        if ch.chance(30):
            # the third relation is left out
            p = o[2] + ".2"
            how = ch.pick(["drop", "none", "empty", "zeros"])
            pl.cuts[p] = how
            if ch.draw(2):
                pl.comcuts[p] = "drop"
            pl.note("binding-" + how)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "bound-to-another-value")
