"""C13 Proofs of possession need a real signature on the claimed messages.

Holders without a valid signature on the claimed messages, with someone else's, with an old key's, or who
mix messages with other clauses; relays that alter precommitments; and honest holders whose proofs travel."""

from sim import byz, common, core, ref, sound, wire, world

QUICK, THOROUGH = 360, 20000
PEER = True
RULE = ("A random statement with proofs of possession, without a valid signature (other, swapped, more or fewer messages, "
        "another or rotated key, damaged or unfinished signature, none) or with hidden messages that differ from those of "
        "other clauses, and forged proofs of it; or an honest holder whose proof or session is altered on the way, or "
        "relayed as it is.")
ASSUMPTIONS = ["BBS+ signatures cannot be forged", "the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS[:2]:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def false_leaf(ctx, g, pool):
    ch, rng = ctx.ch, g.rng
    q = ref.group("G1").q
    n = 1 + ch.draw(3)
    sk, pk = g.key(n + 1)
    msgs = [g.some_secret(q, pool) for _ in range(n)]
    vals = [g.val(m) for m in msgs]
    kinds = [("first-message", 6), ("other-message", 3), ("foreign-key", 2), ("rotated-key", 1), ("none", 1), ("damaged-A", 1), ("damaged-e", 1),
             ("damaged-s", 1), ("more", 1)]
    if n > 1 and (vals[0] - vals[1]) % q:
        kinds.append(("swapped", 3))
    if n > 1 and vals[-1] % q:
        kinds.append(("fewer", 2))
    kind = ch.weighted(kinds)
    signed = list(vals)
    shift = 0
    if kind == "first-message":
        shift = ch.pick([1, -1, 5, rng.randrange(1, q)])
        signed[0] += shift
    elif kind == "other-message":
        i = ch.draw(n)
        signed[i] += ch.pick([1, -1, rng.randrange(1, q)])
    elif kind == "swapped":
        signed[0], signed[1] = signed[1], signed[0]
    elif kind == "more":
        signed.append(1 + ch.draw(5))
    elif kind == "fewer":
        signed.pop()
    key, kp = sk, pk
    if kind in ("foreign-key", "rotated-key"):
        other = world.make_key(rng, n + 1)
        if kind == "foreign-key":
            key, kp = other
        else:
            # signed under the old key, claimed under the new one
            pk = dict(other[1], gens=pk["gens"])
    sig = world.raw_sign(key, dict(kp, gens=pk["gens"]), signed, rng)
    g1 = ref.group("G1")
    if kind == "damaged-A":
        sig["A"] = ref.hx("G1", g1.add(ref.cpt("G1", sig["A"]), g1.gen))
    elif kind == "damaged-e":
        sig["e"] = str((int(sig["e"]) + 1) % q)
    elif kind == "damaged-s":
        # also what a user has who did not add its own blinding factor
        sig["s"] = str((int(sig["s"]) - rng.randrange(1, q)) % q)
    ctx.probe("false-" + kind)
    binding = ch.chance(60)
    vars_ = list(msgs)
    if binding:
        vars_ = [g.new_secret(q, v=int(sig["e"]), how="auto"), g.new_secret(q, v=int(sig["s"]), how="auto")] + vars_
    sid = "sig%d" % g.nsig
    g.nsig += 1
    if kind != "none":
        g.sigs[sid] = sig
    return {"k": "bbs", "pk": pk, "vars": vars_, "binding": binding, "sig": sid, "t": False, "shift": shift}, kind


def run(ctx):
    ch = ctx.ch
    ctx.no_edges()
    what = ch.weighted([("unsigned", 5), ("mixed", 3), ("altered", 2), ("relay", 2)])
    if what == "unsigned":
        unsigned(ctx)
    elif what == "mixed":
        mixed(ctx)
    else:
        honest(ctx, what)


def unsigned(ctx):
    ch = ctx.ch
    g = world.Gen(ch, pairing=100, edge_values=ch.draw(2) == 1, kinds=[("bbs", 2), ("dl", 4), ("dlne", 1)], share=60)
    kinds = []

    def make(pool):
        leaf, kind = false_leaf(ctx, g, pool)
        kinds.append(kind)
        return leaf

    if ch.chance(60):
        tree = make(world.Pool())
    else:
        tree = sound.place(ctx, g, make)
    ctx.sample = world.describe(tree)
    ctx.event("case", ctx.sample + " " + ",".join(kinds))
    norm = ref.normal(tree)
    wit = g.witness()
    val = sound.evaluate(norm, wit, g.sigs)
    if val["0"]:
        raise core.Discard("provable")
    V, A = sound.machines(ctx, tree)
    for i in range(2):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        for p in list(pl.tampers):
            n = byz.node_at(norm, p)
            if n.get("shift"):
                pl.pover[p + "#shift"] = n["shift"]
                if ch.chance(60):
                    pl.tampers[p] = ch.pick(["delta-leaf", "delta-both", "r1-fit", "e-fit", "A1-fit"])
                    pl.note("bbs-" + pl.tampers[p])
            elif ch.chance(40):
                pl.pover[p + "#shift"] = wit_shift(ctx, norm, p, wit, g.sigs)
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "unsigned-accepted")
    sound.library(ctx, V, "st", tree, g.secrets, g.sigs, "unsigned-accepted")


def wit_shift(ctx, norm, path, wit, sigs):
    return ctx.ch.pick([1, -1, wit.get(byz.node_at(norm, path)["vars"][-1], 1), ctx.rng.randrange(1, ref.group("G1").q)])


def mixed(ctx):
    """The credential is real, but another clause has another value of a hidden message."""
    ch = ctx.ch
    g = world.Gen(ch, pairing=100, edge_values=False, share=90, sims=False, depth=1 + ch.draw(2), max_leaves=3,
                  kinds=[("bbs", 4), ("dl", 5), ("dlne", 1), ("cust", 0)], shapes=[("and", 7), ("or", 1), ("leaf", 1)])
    tree = g.tree(true=True)
    norm = ref.normal(tree)
    occ = byz.occurrences(norm)

    def fellows(o):
        return [p for p in occ if p[0] == o[0] and p is not o and byz.scope_of(norm, p[2]) == byz.scope_of(norm, o[2])]

    able = [o for o in occ if (o[1] == "bbs" and fellows(o)) or any(p[1] == "bbs" for p in fellows(o))]
    able = [o for o in able if o[1] in ("bbs", "dl", "dlne")]
    if not able:
        raise core.Discard("no shared message")
    o = ch.pick(able)
    wit = g.witness()
    sigs = {k: dict(v) for k, v in g.sigs.items()}
    over, pover = byz.mismatch(ctx, norm, o, wit, sigs, g.keys)
    ctx.sample = "%s, %s of %s at %s differs" % (world.describe(tree), o[1], o[0], o[2])
    ctx.event("case", ctx.sample)
    ctx.probe("message-differs-in-" + o[1])
    val = sound.evaluate(norm, wit, sigs)
    from sim.checks import c09

    c09.force(norm, o[2], val)
    V, A = sound.machines(ctx, tree)
    for i in range(2):
        pl = sound.make_plan(ctx, norm, wit, sigs, val)
        pl.over.update(over)
        pl.pover.update(pover)
        pl.split = bool(ch.draw(2))
        pl.note("other-message-elsewhere")
        if o[1] == "bbs" and ch.chance(50):
            pl.tampers[o[2]] = ch.pick(["delta-leaf", "delta-both", "r1-fit", "e-fit", "A1-fit"])
            d = over[next(iter(over))] - wit[o[0]]
            pl.pover[o[2] + "#shift"] = d if o[3] == 0 else ch.pick([d, 1, -d])
            pl.over = {k: v for k, v in pl.over.items() if k not in over}
            pl.note("bbs-" + pl.tampers[o[2]])
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        sound.both(ctx, at, i, "mixed-message-accepted")


def altered_points(ctx, host, pre, other):
    """A precommitment with something changed in one of its signature parts."""
    ch = ctx.ch
    spots = []

    def find(x, path):
        if isinstance(x, dict):
            if any(k in x for k in ("A1", b"A1")):
                spots.append(path)
        elif isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                find(y, path + (i,))

    find(pre, ())
    if not spots:
        return None, pre
    spot = ch.pick(spots)

    def at(x, path):
        for i in path:
            x = x[i]
        return x

    d = {(k.decode() if isinstance(k, bytes) else k): v for k, v in at(pre, spot).items()}
    pts = host.points("own")
    g1 = ref.group("G1")
    rnd = pts.wrap("G1", g1.mul(ctx.rng.randrange(1, g1.q), g1.gen))
    how = ch.pick(["A1", "A2", "swap", "other", "other-A2", "A1-inf", "A2-inf", "shift-both", "none", "missing", "extra"])
    new = dict(d)
    if how in ("A1", "A2"):
        new[how] = rnd
    elif how == "swap":
        new["A1"], new["A2"] = d["A2"], d["A1"]
    elif how in ("other", "other-A2") and other is not None:
        try:
            o = {(k.decode() if isinstance(k, bytes) else k): v for k, v in at(other, spot).items()}
        except Exception:
            return None, pre
        new = o if how == "other" else dict(d, A2=o["A2"])
    elif how.endswith("inf"):
        new[how[:2]] = pts.wrap("G1", g1.inf)
    elif how == "shift-both":
        new["A1"], new["A2"] = d["A1"] + rnd, d["A2"] + rnd
    elif how == "none":
        new["A2"] = None
    elif how == "missing":
        new.pop(ch.pick(["A1", "A2"]))
    elif how == "extra":
        new["A3"] = rnd
    else:
        return None, pre

    def put(x, path):
        if not path:
            return new
        return [put(y, path[1:]) if i == path[0] else y for i, y in enumerate(x)]

    return how, put(pre, spot)


def honest(ctx, what):
    ch = ctx.ch
    g = world.Gen(ch, pairing=100, depth=ch.weighted([(0, 3), (1, 3)]), max_leaves=3, share=60,
                  kinds=[("bbs", 8), ("dl", 3), ("dlne", 1)])
    c = g.case(True)
    if not world.has_kind(ref.normal(c["tree"]), "bbs"):
        raise core.Discard("no signature")
    ctx.sample = world.describe(c["tree"])
    ctx.event("case", ctx.sample)
    P, V, A = ctx.host("P"), ctx.host("V", remote=ch.chance(30)), ctx.host("A")
    if not common.build_prover(ctx, P, "st", c).ok or not common.build_verifier(ctx, V, "st", c["tree"]).ok:
        raise core.Discard("building")
    if what == "relay":
        # any number of relays that read and write the proof again
        o = ctx.call(P, "prove", "st")
        if not o.ok:
            raise core.Discard("no proof")
        data = o.value
        for i in range(1 + ch.draw(3)):
            R = ctx.host("R%d" % i, remote=ch.chance(40))
            data = common.honest(ctx, ctx.call(R, "recode", data), "relay", "relayed-proof-refused")
        o = ctx.call(V, "verify", "st", data)
        if not o.accepted:
            ctx.fail("relayed-proof-refused", "%s: %r" % (ctx.sample, o))
        ctx.probe("relayed")
        return
    if ch.draw(2):
        o, o2 = ctx.call(P, "prove", "st"), ctx.call(P, "prove", "st")
        if not (o.ok and o2.ok):
            raise core.Discard("no proof")
        for _ in range(3):
            p = wire.parts(o.value)
            how, p[2] = altered_points(ctx, A, p[2], wire.parts(o2.value)[2])
            if how is None:
                continue
            try:
                data = wire.unparts(p)
            except Exception:
                continue
            judge(ctx, how, ctx.call(V, "verify", "st", data))
        return
    for i in range(2):
        s = "s%d" % i
        if not ctx.call(P, "p_new", s, "st").ok:
            raise core.Discard("no prover")
        ctx.call(V, "v_new", s, "st")
        pre = ctx.call(P, "p_pre", s)
        com = ctx.call(P, "p_com", s)
        if not pre.ok or not com.ok:
            raise core.Discard("no precommitment")
        how, changed = altered_points(ctx, A, wire.dec(pre.value), None)
        if how in (None, "extra"):  # surplus entries mean nothing to a verifier
            continue
        data = wire.enc(changed)
        o = ctx.call(V, "v_pre", s, data)
        if not o.ok:
            ctx.fault("precommitment-" + how)
            continue
        c2 = com.value
        if ch.chance(60):
            # the relay also puts the identity that the verifier expects
            if not common.build_verifier(ctx, A, "m%d" % i, c["tree"]).ok:
                continue
            ctx.call(A, "v_new", s, "m%d" % i)
            ctx.call(A, "v_pre", s, data)
            ident = ctx.call(A, "id", "m%d" % i)
            if ident.ok:
                c2 = wire.enc((bytes.fromhex(ident.value), wire.dec(com.value)[1]))
        o = ctx.call(V, "v_com", s, c2)
        if not o.ok:
            ctx.fault("precommitment-" + how)
            continue
        r = ctx.call(P, "p_resp", s, o.value)
        if sound.reference_verdict(ref.normal(c["tree"]), wire.dec(data), wire.dec(c2)[1], int(o.value), wire.dec(r.value)):
            # a surplus entry: the identity was replaced as well, and the meaning is the same
            ctx.probe("alteration-without-meaning")
            continue
        judge(ctx, how, ctx.call(V, "v_resp", s, r.value))


def judge(ctx, how, o):
    ctx.fault("precommitment-" + how)
    if o.kind == "hang":
        ctx.fail("hang", how)
    if o.accepted:
        ctx.fail("altered-precommitment-accepted", "%s, %s" % (how, ctx.sample))
