"""C15 Real transcripts look like simulated ones and hide the secrets.

An observer who even knows the secrets that may have been used compares everything that can be computed from
the transcripts of a prover, of provers with other secrets for the same public statement, and of the simulator."""

from sim import common, core, nonces, ref, stats, wire, witness, world

QUICK, THOROUGH = 220, 20000
PEER = True
RULE = ("A random statement whose bases have discrete logarithms known to the simulator, so that other satisfying values can "
        "be computed (other points of the solution space, other values in the range, other signatures on other messages); a "
        "prover of the statement, one with the other values, and the library's own simulation, in proofs or sessions, again "
        "and again on the same or on new objects, with crashes and resets of the pseudo-random state in between. Every feature "
        "of the messages (shape, types, signs, sizes, order, quantiles, coincidence with public points, with values and their "
        "multiples, with differences and openings of points, nonces behind the responses) is compared between the groups. "
        "Precommitments never repeat and are no multiple of a public point by a secret.")
ASSUMPTIONS = ["decisional Diffie-Hellman: points are compared by equality, differences, openings and encoding only"]


def preload():
    for g in world.EC_GIDS:
        world.known_gens(g)
    for g in ("G1", "GT"):
        world.known_gens(g)


def run(ctx):
    ctx.no_edges()
    ch = ctx.ch
    g = world.Gen(ch, pairing=6, max_leaves=5, depth=ch.draw(3), known_logs=True, max_bits=2 + ch.draw(2),
                  kinds=[("dl", 10), ("dlne", 5), ("range", 4), ("p2", 4), ("cust", 5), ("bbs", 0)])
    tree = g.tree(true=True)
    special = ch.weighted([("", 16), ("value", 3), ("signature", 1)])
    if special == "signature":
        g = world.Gen(ch, pairing=100, known_logs=True, kinds=[("bbs", 1)], depth=0)
        tree = g.tree(true=True)
    elif special == "value":
        # the statement is about a single value
        g = world.Gen(ch, gids=world.EC_GIDS[:2], known_logs=True, max_bits=2 + ch.draw(2), kinds=[("range", 1), ("p2", 1)], depth=0)
        tree = g.tree(true=True)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample)
    for f in sorted(g.features):
        ctx.probe("has-" + f)
    other = witness.another(g, tree)
    wits = [(g.secrets, g.sigs), other]
    slow = common.needs_pairing(tree)
    k = 30 if slow else ch.weighted([(44, 4), (100, 1)])
    who = ch.weighted([((0, 1), 3), ((0, "sim"), 3), ((0, 1, "sim"), 1)])
    if differs(wits) == 0 and 1 in who:
        who = (0, "sim")
    session = ch.chance(50)
    public = stats.Public(world.public(tree), wits)
    norm = ref.normal(tree)
    naming = common.naming(ctx)
    V = ctx.host("V", remote=ch.chance(20))
    if not common.build_verifier(ctx, V, "v", tree).ok:
        raise core.Discard("building")
    groups, pres = [], {}
    for w in who:
        grp = stats.Group(public, ".2")
        groups.append((w, grp))
        P = ctx.host("P%s" % w)
        secrets, sigs = wits[w] if w != "sim" else (None, {})
        every = ch.weighted([(k, 5), (1, 1), (5, 1)])
        seen = {}
        for i in range(k):
            if i % every == 0:
                if i:
                    P.crash()
                    ctx.fault("crash-restart")
                o = P.call("build", "st", tree if w != "sim" else world.public(tree), secrets=secrets, sigs=sigs, naming=naming)
                if not o.ok:
                    raise core.Discard("building")
            elif ch.chance(4):
                P.call("prng_reset")
                ctx.fault("prng-state-reset")
            if w == "sim":
                m = simulated(ctx, P, session)
            else:
                m = real(ctx, P, V, session, i in (0, k - 1))
            if m is None:
                raise core.Discard("no transcript of %s" % w)
            if w != "sim":
                precommitment(ctx, public, pres, m[2], "%s/%d" % (w, i))
            grp.add(m, behind(norm, m, wits, seen))
    ctx.probe("transcripts", k * len(who))
    ctx.probe("features", len(groups[0][1].cats) + len(groups[0][1].nums))
    for i, (a, one) in enumerate(groups):
        for b, two in groups[:i]:
            d = stats.distinguish(two, one)
            if d:
                kind = "simulation-differs" if "sim" in (a, b) else "secrets-visible"
                ctx.fail(kind, "%s and %s: %s, %s" % (b, a, d, ctx.sample))
            ctx.probe("real-and-simulated" if "sim" in (a, b) else "other-secrets")


def differs(wits):
    a, b = [{n: x["v"] for n, x in w[0].items()} for w in wits]
    return sum(a[n] != b[n] for n in a)


def simulated(ctx, P, session):
    c = None if session else str(ctx.rng.getrandbits(256))
    o = P.call("simulate", "st", c)
    ctx.real_ops += 1
    if not o.ok:
        ctx.event("simulate", repr(o))
        return None
    com, c, resp, pre, sh = wire.dec(o.value)
    return [c, resp, pre] + ([com] if session else [])


def real(ctx, P, V, session, check):
    if not session:
        o = P.call("prove", "st")
        ctx.real_ops += 1
        if not o.ok:
            ctx.event("prove", repr(o))
            return None
        if check and not ctx.call(V, "verify", "v", o.value).accepted:
            return None
        c, resp, pre, _ = wire.parts(o.value)
        return [c, resp, pre]
    if not P.call("p_new", "s", "st").ok:
        return None
    a, b = P.call("p_pre", "s"), P.call("p_com", "s")
    if not (a.ok and b.ok):
        return None
    c = ctx.rng.randrange(ref.CH)
    r = P.call("p_resp", "s", str(c))
    ctx.real_ops += 4
    if not r.ok:
        return None
    return [ref.bn(c), wire.dec(r.value), wire.dec(a.value), wire.dec(b.value)[1]]


def precommitment(ctx, public, pres, pre, tag):
    for p in wire.points(pre):
        key = stats.pkey(p)
        if key in pres:
            ctx.fail("repeated-precommitment", "%s and %s, %s" % (pres[key], tag, ctx.sample))
        pres[key] = tag
        name = public.pts.get(key)
        if name is not None and "#" in name:
            ctx.fail("precommitment-of-secret", "%s is %s, %s" % (tag, name, ctx.sample))


def behind(norm, m, wits, seen):
    """Features of the nonces that each assignment implies."""
    out = []
    try:
        con = ref.expand(norm, m[2], lax=True)
    except ref.Invalid:
        return out
    for i, (secrets, _) in enumerate(wits):
        def value(s):
            x = secrets.get(s)
            return None if x is None else int(x["v"])

        at = {}
        for (scope, s), (q, k, _) in nonces.known(con, int(m[0]), m[1], value).items():
            if k is None:
                continue
            f = "nonce#%d %s%s " % (i, s, scope)
            out.append((f + "size", max(q.bit_length() - 24, min(k, q - k).bit_length())))
            out.append((f + "again", (i, k) in seen))
            seen[i, k] = True
            out.append((f + "equal", at.setdefault(min(k, q - k), s + scope)))
    return out
