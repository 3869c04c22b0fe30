"""C08 A disjunction needs a witness for some clause.

Dishonest provers against disjunctions that they cannot prove (anywhere in a statement), and against
ones that they could prove, with sub-challenges that do not fit together."""

from sim import common, core, ref, sound, world

QUICK, THOROUGH = 1000, 60000
PEER = True
RULE = ("A random statement with a disjunction none of whose clauses is provable with the values the adversary has, and "
        "attacks on it: all clauses simulated with manipulated sub-challenges (surplus, missing, out of range, congruent "
        "modulo a group order, nested), garbage answers, forged precommitments; or a true disjunction answered with "
        "sub-challenges that do not add up; as a proof or in a session.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def ors(norm):
    return [p for p, n in sound.walk(norm) if n["k"] == "or"]


def run(ctx):
    ch = ctx.ch
    ctx.no_edges()
    true = ch.chance(35)
    shapes = [("or", 6), ("and", 2), ("leaf", 1)]
    g = world.Gen(ch, pairing=5, max_leaves=5, depth=ch.weighted([(1, 2), (2, 3), (3, 1)]), shapes=shapes, edge_values=False)
    tree = g.tree(true=true)
    if not ors(ref.normal(tree)):
        subs = [tree, g.tree(0, world.Pool(), true or ch.draw(2) == 1 and true)]
        tree = {"k": "or", "subs": subs, "style": "ctor", "t": true}
        if ch.chance(30):
            tree = {"k": "and", "subs": [tree, g.tree(0, None, True)], "style": "ctor", "t": true}
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample)
    norm = ref.normal(tree)
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    heavy = common.needs_pairing(tree)
    V, A = sound.machines(ctx, tree)
    bad = [p for p in ors(norm) if not val[p]]
    if true:
        if not val["0"]:
            raise core.Discard("not provable")
    elif not bad or val["0"]:
        raise core.Discard("no unprovable disjunction")
    ctx.probe("unprovable" if not true else "unbalanced")
    for i in range(2 if heavy else 6):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        if true:
            live = [p for p in ors(norm) if p in pl.choose]
            for p in [ch.pick(live)] + [p for p in live if ch.chance(20)]:
                how = ch.pick(ref.BIASES)
                pl.bias[p] = (how, ch.draw(128))
                pl.note("sum-" + how)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "disjunction-without-witness")
    if true and ch.chance(50):
        sound.control(ctx, V, A, "st", norm, wit, g.sigs)
