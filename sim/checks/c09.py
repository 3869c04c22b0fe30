"""C09 A conjunction needs every clause and truly shared secrets.

Dishonest provers that can prove all conjuncts but one, or all of them with different values of a secret
that the statement says is the same."""

from sim import byz, common, core, ref, sound, world

QUICK, THOROUGH = 1000, 60000
PEER = True
RULE = ("A random statement with conjunctions; either one conjunct is not provable and its part of the proof is forged, "
        "left out or cut, or the public values are such that one occurrence of a shared secret (in a representation, a "
        "binding inequality, a credential, a custom primitive; at any depth, within one scope) needs another value, and "
        "the prover answers with both; as a proof or in a session.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ctx.no_edges()
    if ctx.ch.chance(60):
        shared(ctx)
    else:
        conjunct(ctx)


def conjunct(ctx):
    ch = ctx.ch
    g = world.Gen(ch, pairing=8, max_leaves=5, depth=ch.weighted([(1, 2), (2, 3), (3, 1)]), edge_values=False,
                  shapes=[("and", 7), ("or", 2), ("leaf", 1)])
    tree = g.tree(true=False)
    norm = ref.normal(tree)
    if norm["k"] != "and":
        subs = [g.tree(0, world.Pool(), True), tree]
        if ch.draw(2):
            subs.reverse()
        tree = {"k": "and", "subs": subs, "style": "ctor", "t": False}
        norm = ref.normal(tree)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample)
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    if val["0"]:
        raise core.Discard("provable")
    ctx.probe("bad-conjunct")
    V, A = sound.machines(ctx, tree)
    for i in range(2 if common.needs_pairing(tree) else 6):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "conjunct-not-proved")


def shared(ctx):
    ch = ctx.ch
    g = world.Gen(ch, pairing=12, max_leaves=5, depth=ch.weighted([(0, 1), (1, 4), (2, 3), (3, 1)]), edge_values=False,
                  shapes=[("and", 7), ("or", 2), ("leaf", 1)], share=85, sims=False)
    tree = g.tree(true=True)
    norm = ref.normal(tree)
    mine = {id(n) for _, n in world.walk(tree)}
    occ = [o for o in byz.occurrences(norm)]
    count = {}
    for o in occ:
        k = (o[0], byz.scope_of(norm, o[2]))
        count[k] = count.get(k, 0) + 1
    # every occurrence of a secret that occurs again in its scope, in a leaf of the tree itself
    able = [o for o in occ if id(o[4]) in mine and count[(o[0], byz.scope_of(norm, o[2]))] > 1]
    if not able:
        raise core.Discard("nothing shared")
    kind = ch.pick(sorted({o[1] for o in able}))
    o = ch.pick([o for o in able if o[1] == kind])
    wit = g.witness()
    sigs = {k: dict(v) for k, v in g.sigs.items()}
    factor = ch.weighted([(None, 6), (0, 3), (-1, 2), (2, 1)])
    got = byz.mismatch(ctx, norm, o, wit, sigs, g.keys, factor)
    if got is None:
        raise core.Discard("no second value here")
    over, pover = got
    ctx.sample = "%s, %s of %s at %s differs" % (world.describe(tree), o[1], o[0], o[2])
    ctx.event("case", ctx.sample)
    ctx.probe("differs-in-" + o[1])
    for x in byz.occurrences(norm):
        if x[0] == o[0] and (x[2], x[3]) != (o[2], o[3]) and byz.scope_of(norm, x[2]) == byz.scope_of(norm, o[2]):
            ctx.probe("pair-%s-%s" % tuple(sorted([o[1], x[1]])))
    val = sound.evaluate(norm, wit, sigs)
    # take the way to the differing occurrence
    force(norm, o[2], val)
    V, A = sound.machines(ctx, tree)
    for i in range(2 if common.needs_pairing(tree) else 5):
        pl = sound.make_plan(ctx, norm, wit, sigs, val)
        pl.over.update(over)
        pl.pover.update(pover)
        pl.split = bool(ch.draw(2))
        pl.note("two-values-split" if pl.split else "two-values")
        if factor is not None and ch.chance(60):
            # the responses are multiples of each other as well, or zero
            pl.factor = factor
            pl.note("factor-%d" % factor)
            if factor < 0:
                pl.fit = "mirror"
        elif ch.chance(35):
            pl.fit = ch.pick(["high", "negative", "hash", "8", "32", "64", "128", "256"])
            pl.note("look-alike-" + pl.fit)
        if ch.chance(25):
            # one and the same response for both values
            pl.over = {k: v for k, v in pl.over.items() if k not in over}
            pl.note("one-response")
        if o[1] == "bbs" and ch.chance(20):
            # the base of the first message is also that of another secret of the proof
            pl.tampers[o[2]] = ch.pick(["delta-leaf", "delta-both", "r1-fit", "e-fit", "A1-fit"])
            d = over[next(iter(over))] - wit[o[0]]
            pl.pover[o[2] + "#shift"] = d if o[3] == 0 else ch.pick([d, 1, -d])
            pl.over = {k: v for k, v in pl.over.items() if k not in over}
            pl.note("bbs-" + pl.tampers[o[2]])
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "two-values-for-one-secret")


def force(norm, path, val):
    idx = [int(x) for x in path.split(".")[1:]]

    def go(n, p, rest):
        if not rest:
            val[p] = True
            return
        i = rest[0]
        for j in range(len(n["subs"])):
            q = "%s.%d" % (p, j)
            if j == i:
                go(n["subs"][j], q, rest[1:])
            elif n["k"] == "or":
                val[q] = False
        val[p] = (all if n["k"] == "and" else any)(val["%s.%d" % (p, j)] for j in range(len(n["subs"])))

    go(norm, "0", idx)
