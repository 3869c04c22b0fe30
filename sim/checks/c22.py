"""C22 User-defined primitives get the same guarantees.

Primitives written against the documented interface, with precommitments of several shapes, in random
compositions: honest proofs, sessions and simulations must go through; precommitments that the
primitive's own validation refuses, or that were exchanged after the fact, must not."""

from sim import byz, common, core, ref, sound, wire, world

QUICK, THOROUGH = 1600, 60000
PEER = True
RULE = ("A random statement with user-defined primitives (constructed statement a representation, AND or OR; without "
        "precommitment or with one that is a list of points, a number, or a nested dictionary; with or without validation), "
        "true or false. Either honest proofs, sessions and simulations between machines in a random order, or a dishonest "
        "prover whose precommitment the primitive's validation must refuse, or a relay that exchanges precommitments.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


KINDS = [("cust", 9), ("dl", 4), ("dlne", 1), ("range", 0), ("p2", 1)]
CHECKED = ("pre", "prel", "num", "deep", "valonly")
TAMPERS = {"pre": ["tag", "no-tag", "inf"], "prel": ["sum", "short", "inf"], "num": ["inf", "sum", "short", "tag", "no-tag"],
           "deep": ["inf", "tag", "no-tag", "sum", "short"], "valonly": ["bad"]}


def run(ctx):
    what = ctx.ch.weighted([("honest", 4), ("validation", 5), ("rebinding", 2)])
    if what == "honest":
        honest(ctx)
    elif what == "validation":
        validation(ctx)
    else:
        rebinding(ctx)


# --- honest ----------------------------------------------------------------------------------------


def customs(norm):
    return [(p, n) for p, n in sound.walk(norm) if n["k"] == "cust"]


def honest(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=4, kinds=KINDS, max_leaves=5)
    if not customs(ref.normal(c["tree"])):
        raise core.Discard("no user-defined primitive")
    P = ctx.host("P")
    vs = [ctx.host("V")] + ([ctx.host("W", remote=True)] if ch.chance(40) else [])
    common.honest(ctx, common.build_prover(ctx, P, "st", c), "building")
    for v in vs:
        common.honest(ctx, common.build_verifier(ctx, v, "st", c["tree"]), "building")
    open_ = []  # sessions under way: [id, verifier, next step, last message]
    n = 0
    fresh = 0
    for i in range(2 + ch.draw(7)):
        op = ch.weighted([("prove", 4), ("session", 4), ("step", 6), ("simulate", 2), ("recompose", 2)])
        V = ch.pick(vs)
        if op == "prove":
            msg = ch.pick(common.MESSAGES)
            data = common.honest(ctx, ctx.call(P, "prove", "st", message=msg), "proving " + ctx.sample)
            check(ctx, ctx.call(V, "verify", "st", data, message=msg), "proof")
        elif op == "session":
            # a statement object with precommitments serves one session at a time
            n += 1
            h = "st%d" % n
            common.honest(ctx, common.build_prover(ctx, P, h, c), "building")
            common.honest(ctx, common.build_verifier(ctx, V, h, c["tree"]), "building")
            common.honest(ctx, ctx.call(P, "p_new", h, h), "get_prover")
            common.honest(ctx, ctx.call(V, "v_new", h, h), "get_verifier")
            open_.append([h, V, 0, None])
        elif op == "step" and open_:
            step(ctx, P, open_, ch.draw(len(open_)))
        elif op == "simulate":
            who = ch.pick([P] + vs)
            o = ctx.call(who, "simulate", "st", challenge=ch.pick([None, ctx.rng.randrange(1 << 128)]))
            data = common.honest(ctx, o, "simulating " + ctx.sample)
            check(ctx, ctx.call(V, "sim_check", "st", data), "simulation")
            ctx.probe("simulated")
        elif op == "recompose":
            # existing objects in a larger statement
            fresh += 1
            kind, style = ch.weighted([("and", 3), ("or", 1)]), ch.pick(["op", "ctor"])
            twice = ch.chance(50)
            t2 = c["tree"] if twice else g.tree(depth=0)
            h = "re%d" % fresh
            # the whole is built at once by the verifier
            whole = {"k": kind, "subs": [c["tree"], t2], "style": style}
            if c["tree"].get("sim") or t2.get("sim") or common.clash(whole):
                continue
            if not twice:
                o = ctx.call(P, "build", h + "b", t2, secrets=g.secrets, sigs=g.sigs, share="st")
                common.honest(ctx, o, "building")
            o = ctx.call(P, "compose", h, kind, style, ["st", "st" if twice else h + "b"])
            common.honest(ctx, o, "composing")
            common.honest(ctx, common.build_verifier(ctx, V, h, whole), "building")
            o = ctx.call(P, "prove", h)
            data = common.honest(ctx, o, "proving the composed " + world.describe(whole))
            check(ctx, ctx.call(V, "verify", h, data), "proof of the composed statement")
            ctx.probe("same-object-twice" if twice else "recomposed")
    while open_:
        step(ctx, P, open_, ch.draw(len(open_)))


def step(ctx, P, open_, i):
    s = open_[i]
    h, V, k, last = s
    if k == 0:
        s[3] = common.honest(ctx, ctx.call(P, "p_pre", h), "precommit " + ctx.sample)
        common.honest(ctx, ctx.call(V, "v_pre", h, s[3]), "precommitment of " + ctx.sample)
    elif k == 1:
        s[3] = common.honest(ctx, ctx.call(P, "p_com", h), "commit " + ctx.sample)
        s[3] = common.honest(ctx, ctx.call(V, "v_com", h, s[3]), "commitment of " + ctx.sample)
    else:
        s[3] = common.honest(ctx, ctx.call(P, "p_resp", h, s[3]), "response " + ctx.sample)
        check(ctx, ctx.call(V, "v_resp", h, s[3]), "session")
        open_.pop(i)
    s[2] += 1


def check(ctx, o, what):
    if o.kind == "hang":
        ctx.fail("hang", what)
    if not o.accepted:
        ctx.fail("honest-refused", "%s: %r for %s" % (what, o, ctx.sample))
    ctx.probe("accepted-" + what.split()[0])


# --- validation ------------------------------------------------------------------------------------


def validation(ctx):
    ch = ctx.ch
    ctx.no_edges()
    g = world.Gen(ch, edge_values=ch.draw(2) == 1, kinds=KINDS, depth=ch.draw(3), max_leaves=4, pairing=0)
    tree = g.tree(true=True)
    norm = ref.normal(tree)
    cs = [(p, n) for p, n in customs(norm) if n["v"] in CHECKED]
    if not cs:
        raise core.Discard("no validation")
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample)
    picked = ch.subset(cs, 50) or [ch.pick(cs)]
    for p, n in picked:
        if n["v"] == "valonly":
            n["pts"]["bad"] = n["pts"]["c1"]
        elif ch.chance(30):
            # the statement is false, too
            grp = ref.group(n["g"])
            n["pts"]["c1"] = ref.hx(n["g"], grp.add(ref.cpt(n["g"], n["pts"]["c1"]), grp.mul(1 + ch.draw(5), grp.gen)))
            ctx.probe("false-leaf")
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    lift(norm, {p for p, n in picked}, val)
    V, A = sound.machines(ctx, tree)
    for i in range(1 + ch.draw(3)):
        if ch.chance(30):
            sound.control(ctx, V, A, "st", norm, wit, g.sigs)
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        some = [x for x in picked if ch.chance(60)] or [ch.pick(picked)]
        for p, n in some:
            t = ch.pick(TAMPERS[n["v"]])
            pl.tampers[p] = t
            where = "simulated-" if p in pl.sim else ""
            pl.note("%s%s-%s" % (where, n["v"], t))
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "validation-bypassed")


def lift(n, true, val, path="0"):
    """The adversary can answer for these leaves."""
    if n["k"] in ("and", "or"):
        for i, s in enumerate(n["subs"]):
            lift(s, true, val, "%s.%d" % (path, i))
        val[path] = (all if n["k"] == "and" else any)(val["%s.%d" % (path, i)] for i in range(len(n["subs"])))
    elif path in true:
        val[path] = True


# --- rebinding -------------------------------------------------------------------------------------


def other_pre(ctx, node, pre, pts):
    """Another precommitment that the validation of `node` accepts."""
    rng = ctx.rng
    grp, gid = ref.group(node["g"]), node["g"]

    def rnd():
        return pts.wrap(gid, grp.mul(rng.randrange(1, grp.q), grp.gen))

    v = node["v"]
    if v == "pre":
        return {"D": rnd(), "tag": "t"}
    if v == "prel":
        a = ref.as_ref(grp, rnd())
        tot = grp.add(ref.cpt(gid, node["pts"]["c1"]), ref.cpt(gid, node["pts"]["H"]))
        return [pts.wrap(gid, a), pts.wrap(gid, grp.add(tot, grp.neg(a)))]
    if v == "num":
        return ref.bn(int(pre) % 1000 + 1)
    if v == "deep":
        d = {(k.decode() if isinstance(k, bytes) else k): x for k, x in pre.items()}
        return dict(d, D=ctx.ch.pick([list(d["D"])[::-1], [d["D"][0], rnd()], [rnd(), rnd()]]))
    return None


def put(pre, path, new):
    if not path:
        return new
    out = list(pre)
    out[path[0]] = put(pre[path[0]], path[1:], new)
    return out


def get(pre, path):
    for i in path:
        pre = pre[i]
    return pre


def rebinding(ctx):
    ch = ctx.ch
    ctx.no_edges()
    g, c = common.case(ctx, kinds=KINDS, max_leaves=4, pairing=0)
    norm = ref.normal(c["tree"])
    cs = [(p, n) for p, n in customs(norm) if n["v"] in ("pre", "prel", "num", "deep")]
    if not cs:
        raise core.Discard("no precommitment")
    P, V, A = ctx.host("P"), ctx.host("V", remote=ch.chance(20)), ctx.host("A")
    if not common.build_prover(ctx, P, "st", c).ok:
        raise core.Discard("building")
    for h in (V, A):
        if not common.build_verifier(ctx, h, "st", c["tree"]).ok:
            raise core.Discard("building")
    path, node = ch.pick(cs)
    idx = tuple(int(x) for x in path.split(".")[1:])
    pts = A.points("own")
    fixed = ch.chance(60)

    def exchange(pre, other):
        how = ch.pick(["other", "session", "copies"])
        if how == "session" and other is not None:
            new = get(other, idx)
        elif how == "copies":
            twins = [tuple(int(x) for x in p.split(".")[1:]) for p, n in cs if n["v"] == node["v"] and p != path]
            if not twins:
                return None
            j = ch.pick(twins)
            a, b = get(pre, idx), get(pre, j)
            if wire.enc(a) == wire.enc(b):
                return None
            return put(put(pre, idx, b), j, a)
        else:
            new = other_pre(ctx, node, get(pre, idx), pts)
        if wire.enc(new) == wire.enc(get(pre, idx)):
            return None
        return put(pre, idx, new)

    def ident(data, s):
        ctx.call(A, "v_new", s, "st")
        ctx.call(A, "v_pre", s, data)
        o = ctx.call(A, "id", "st")
        return bytes.fromhex(o.value) if o.ok else None

    if ch.draw(2):
        msg = ch.pick(common.MESSAGES)
        o, o2 = ctx.call(P, "prove", "st", message=msg), ctx.call(P, "prove", "st", message=msg)
        if not (o.ok and o2.ok):
            raise core.Discard("no proof")
        if ch.draw(2):
            ctx.call(V, "verify", "st", o.value, message=msg)
        for i in range(3):
            p = wire.parts(o.value)
            new = exchange(p[2], wire.parts(o2.value)[2])
            if new is None:
                continue
            p[2] = new
            if fixed:
                x = ident(wire.enc(new), "m%d" % i)
                if x is not None:
                    p[3] = x
            ctx.fault("precommitment-exchanged")
            v = ctx.call(V, "verify", "st", wire.unparts(p), message=msg)
            if v.kind == "hang":
                ctx.fail("hang", ctx.sample)
            if v.accepted:
                ctx.fail("exchanged-precommitment-accepted", "%s of %s" % (path, ctx.sample))
        return
    for i in range(2):
        s = "s%d" % i
        h = "q%d" % i
        if not (common.build_prover(ctx, P, h, c).ok and ctx.call(P, "p_new", s, h).ok and ctx.call(V, "v_new", s, "st").ok):
            raise core.Discard("no prover")
        pre, com = ctx.call(P, "p_pre", s), ctx.call(P, "p_com", s)
        if not pre.ok or not com.ok:
            raise core.Discard("no precommitment")
        new = exchange(wire.dec(pre.value), None)
        if new is None:
            continue
        data = wire.enc(new)
        ctx.fault("precommitment-exchanged-in-session")
        after = ch.chance(50)
        o = ctx.call(V, "v_pre", s, pre.value if after else data)
        if not o.ok:
            continue
        c2 = com.value
        if fixed:
            x = ident(data, s)
            if x is not None and not after:
                c2 = wire.enc((x, wire.dec(com.value)[1]))
        o = ctx.call(V, "v_com", s, c2)
        if not o.ok:
            continue
        seen = wire.dec(pre.value if after else data)
        if after:
            # the precommitment comes once more, after the challenge
            ctx.fault("late-precommitment")
            if not ctx.call(V, "v_pre", s, data).ok:
                continue
        r = ctx.call(P, "p_resp", s, o.value)
        if not r.ok:
            continue
        v = ctx.call(V, "v_resp", s, r.value)
        if v.kind == "hang":
            ctx.fail("hang", ctx.sample)
        if v.accepted and not after and c2 == com.value:
            ctx.fail("identity-without-precommitment", "%s of %s was exchanged in a session" % (path, ctx.sample))
        if v.accepted and not sound.reference_verdict(norm, seen, wire.dec(c2)[1], int(o.value), wire.dec(r.value)):
            ctx.fail("exchanged-precommitment-accepted", "%s of %s in a session" % (path, ctx.sample))
