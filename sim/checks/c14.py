"""C14 A disjunction's transcript hides which clause is true.

Many proofs of one statement by provers that can prove different clauses; an observer compares everything it
can compute from the messages.  And a prover that can prove several clauses is rolled back and asked
two challenges, which shows the clause it used."""

import copy

from sim import common, core, ref, stats, wire, world

QUICK, THOROUGH = 220, 20000
PEER = True
RULE = ("A disjunction of two to four random clauses (representations, inequalities, ranges, signatures, custom primitives, "
        "conjunctions, disjunctions), alone or next to other statements; groups of provers that know one clause each (the "
        "others marked or without values) or all of them, proving again and again on the same or on new objects, in proofs or "
        "sessions, with crashes in between. Every feature of the messages (shape, types, signs, sizes, order, parity, "
        "repetition, coincidence with public points and their differences, quantiles) is compared between groups. Separately, "
        "provers that know several clauses are rolled back to see that each clause is used.")
ASSUMPTIONS = ["decisional Diffie-Hellman: points are compared by equality, differences and encoding only"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def statement(ctx):
    """(gen, tree, path of the disjunction, provable clauses)"""
    ch = ctx.ch
    g = world.Gen(ch, pairing=4, max_leaves=6, depth=1, sims=False, max_bits=2 + ch.draw(2),
                  kinds=[("dl", 10), ("dlne", 6), ("range", 3), ("p2", 3), ("cust", 6), ("bbs", 0)])
    n = ch.weighted([(2, 6), (3, 3), (4, 1)])
    subs = []
    for i in range(n):
        s = g.tree(ch.draw(2), world.Pool(), True, False)
        if ch.chance(15) and s["k"] == "or":
            s["style"] = "ctor"
        subs.append(s)
    style = ch.pick(["ctor", "op"])
    if style == "op" and any(s["k"] == "or" for s in subs):
        style = "ctor"
    t = {"k": "or", "subs": subs, "style": style, "t": True}
    live = list(range(n))
    if ch.chance(20):
        subs.append(g.hidden(0, False))
    path = ()
    where = ch.weighted([("alone", 6), ("and", 3), ("or", 1)])
    if where == "and":
        other = g.tree(0, world.Pool(), True, False)
        t = {"k": "and", "subs": ch.shuffle([t, other]), "style": "ctor", "t": True}
        path = (t["subs"].index(other) ^ 1,)
    elif where == "or":
        t = {"k": "or", "subs": ch.shuffle([t, g.hidden(0, ch.chance(50))]), "style": "ctor", "t": True}
        path = (0,) if t["subs"][0].get("style") == style and t["subs"][0]["k"] == "or" and t["subs"][0]["subs"] is subs else (1,)
    for f in sorted(g.features):
        ctx.probe("has-" + f)
    return g, t, path, live


def at(tree, path):
    for i in path:
        tree = tree["subs"][i]
    return tree


def only(ctx, g, tree, path, live, known):
    """The case of a prover that can prove just the clauses `known`."""
    c = {"tree": copy.deepcopy(tree), "secrets": copy.deepcopy(g.secrets), "sigs": dict(g.sigs)}
    d = at(c["tree"], path)
    for i in live:
        if i in known:
            continue
        s = d["subs"][i]
        how = ctx.ch.pick(["flag", "withhold"]) if not world.has_kind(s, "cust") else "flag"
        if how == "flag":
            s["sim"] = True
            if d["style"] == "op":
                world.push_down(s)
        if how == "withhold" or ctx.ch.chance(30) and not world.has_kind(s, "cust"):
            for x in world.secret_order(s):
                c["secrets"][x]["how"] = "none"
            world.withhold_sigs(s, c["sigs"])
    return c


def run(ctx):
    ctx.no_edges()
    g, tree, path, live = statement(ctx)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample)
    if ctx.ch.chance(25):
        return usage(ctx, g, tree, path, live)
    ch = ctx.ch
    slow = common.needs_pairing(tree)
    k = 30 if slow else ch.weighted([(44, 5), (100, 2)])
    who = [[i] for i in live]
    if k == 100:
        who = ch.shuffle(who)[:2]
    elif slow or len(who) > 3:
        who = ch.shuffle(who)[:2 + (not slow)]
    elif ch.chance(30):
        who.append(list(live))
    public = stats.Public(world.public(tree))
    mode = ch.pick(["proof", "session"])
    V = ctx.host("V")
    ok = common.build_verifier(ctx, V, "v", tree)
    if not ok.ok:
        raise core.Discard("building")
    groups = []
    naming = common.naming(ctx)
    for known in who:
        P = ctx.host("P" + "".join(map(str, known)), remote=False)
        c = only(ctx, g, tree, path, live, known)
        grp = stats.Group(public)
        every = ch.weighted([(k, 5), (1, 1), (5, 1)])
        for i in range(k):
            if i % every == 0:
                if i:
                    P.crash()
                    ctx.fault("crash-restart")
                if not common.build_prover(ctx, P, "st", c, naming=naming, mode="own").ok:
                    raise core.Discard("building")
            m = transcript(ctx, P, V, mode, i, k)
            if m is None:
                raise core.Discard("no proof")
            grp.add(m)
        groups.append((known, grp))
    ctx.probe("transcripts", k * len(who))
    ctx.probe("features", len(groups[0][1].cats) + len(groups[0][1].nums))
    for i, (a, one) in enumerate(groups):
        for b, two in groups[:i]:
            d = stats.distinguish(two, one)
            if d:
                ctx.fail("clause-visible", "provers of clause %s and %s: %s, %s" % (b, a, d, ctx.sample))
    ctx.probe("groups-compared")


def transcript(ctx, P, V, mode, i, k):
    """The decoded messages, or None."""
    if mode == "proof":
        o = P.call("prove", "st")
        ctx.real_ops += 1
        if not o.ok:
            ctx.event("prove", repr(o))
            return None
        if i in (0, k - 1):
            v = ctx.call(V, "verify", "v", o.value)
            if not v.accepted:
                return None
        c, resp, pre, sh = wire.parts(o.value)
        return [c, resp, pre]
    if not P.call("p_new", "s", "st").ok:
        return None
    a = P.call("p_pre", "s")
    b = P.call("p_com", "s")
    if not (a.ok and b.ok):
        return None
    c = ctx.rng.randrange(ref.CH)
    r = P.call("p_resp", "s", str(c))
    ctx.real_ops += 4
    if not r.ok:
        return None
    return [wire.dec(a.value), wire.dec(b.value)[1], wire.dec(r.value), ref.bn(c)]


def usage(ctx, g, tree, path, live):
    """Which clauses a prover uses that can prove several."""
    ch = ctx.ch
    if common.needs_pairing(tree):
        raise core.Discard("too slow")
    known = live if len(live) == 2 or ch.chance(60) else ch.shuffle(live)[:-1]
    known = sorted(known)
    c = only(ctx, g, tree, path, live, known)
    norm = ref.normal(tree)
    P = ctx.host("P")
    if not common.build_prover(ctx, P, "st", c).ok:
        raise core.Discard("building")
    # a clause with chance 1/m is missed with probability below 1e-15
    m = len(known)
    k = {1: 1, 2: 52, 3: 88, 4: 124}[m]
    every = ch.weighted([(k, 3), (1, 1), (7, 1)])
    used = {}
    ctx.fault("machine-rolled-back", k)
    for i in range(k):
        if i and i % every == 0:
            P.crash()
            ctx.fault("crash-restart")
            if not common.build_prover(ctx, P, "st", c).ok:
                raise core.Discard("building")
        if not P.call("p_new", "s", "st").ok:
            raise core.Discard("no prover")
        a = P.call("p_pre", "s")
        b = P.call("p_com", "s")
        if not (a.ok and b.ok):
            raise core.Discard("no commitment")
        c1 = ctx.rng.randrange(ref.CH)
        r1 = P.call("p_resp_rolled_back", "s", str(c1))
        r2 = P.call("p_resp", "s", str((c1 + 12345) % ref.CH))
        ctx.real_ops += 5
        if not (r1.ok and r2.ok):
            raise core.Discard("no answer")
        x, y = wire.dec(r1.value), wire.dec(r2.value)
        node, real = norm, True
        for j in path:
            if node["k"] == "or":
                real = int(x[0][j]) != int(y[0][j])
                x, y = x[1][j], y[1][j]
            else:
                x, y = x[j], y[j]
            node = node["subs"][j]
        if not real:
            continue
        for j, (u, w) in enumerate(zip(x[0], y[0])):
            if int(u) != int(w):
                used[j] = used.get(j, 0) + 1
    ctx.event("used", str(sorted(used.items())))
    total = sum(used.values())
    if total < k * 9 // 10:
        raise core.Discard("enclosing disjunction")
    for j in known:
        if not used.get(j):
            ctx.fail("clause-never-used", "clause %d of %s, known %s: used %s" % (j, ctx.sample, known, used))
    ctx.probe("usage-checked")
