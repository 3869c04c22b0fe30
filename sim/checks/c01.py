"""C01 Honest non-interactive proofs are always accepted.

A prover machine, verifier machines (one of them another interpreter) and a network that delays,
reorders and duplicates; the prover proves again and again from the same statement object, anybody
checks any proof in any order, disturbed by simulations, bad proofs, refused attempts, restarts."""

from sim import common, core, ref, wire, world

QUICK, THOROUGH = 1600, 40000
PEER = True
RULE = ("A random true statement (composition, sharing, values, marks, groups), a prover and two verifiers; "
        "a random schedule of proving, relaying, verifying, simulating, disturbing and restarting.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=12, wide=12)
    heavy = common.needs_pairing(c["tree"])
    P = ctx.host("P")
    V = ctx.host("V")
    hosts = {"V": V}
    if ch.chance(35):
        hosts["W"] = ctx.host("W", remote=True)
    common.honest(ctx, common.build_prover(ctx, P, "st", c), "building the statement")
    for name, h in hosts.items():
        common.honest(ctx, common.build_verifier(ctx, h, "st", c["tree"], **common.stray(ctx)), "building the verifier's statement")
    # P may also check on its proving object or on a second one of its own
    second = ch.chance(30)
    if second:
        common.honest(ctx, common.build_verifier(ctx, P, "st2", c["tree"]), "building")
    k = core.Kernel(ctx, core.Net(dup=10, dmin=1, dmax=ch.pick([1, 20, 200])))
    proofs = []
    checks = [0]
    n_ops = 2 + ch.draw(4 if heavy else 8)
    mem = [0]

    def verify(host, h, proof, msg, what):
        o = ctx.call(host, "verify", h, proof, message=msg)
        checks[0] += 1
        if o.kind == "hang":
            ctx.fail("hang", what)
        if not o.accepted:
            ctx.fail("honest-proof-refused", "%s by %s.%s: %r for %s" % (what, host.name, h, o, ctx.sample))

    def verifier(host):
        def program(a):
            while True:
                m = yield ("recv", None)
                if m[1] == "proof":
                    verify(host, "st", m[2], m[3], "relayed proof")
        return program

    for name, h in hosts.items():
        k.actor(name, verifier(h), h)

    def prover(a):
        for i in range(n_ops):
            op = ch.weighted([("prove", 6), ("recheck", 2), ("simulate", 1), ("bad", 1), ("refused", 1), ("again", 1),
                              ("rebuild", 1), ("recompose", 1)])
            if not proofs:
                op = "prove"
            if op == "prove":
                msg = ch.pick(common.MESSAGES)
                key = "k%d" % i
                o = ctx.call(P, "prove", "st", message=msg, key=key)
                common.honest(ctx, o, "proving " + ctx.sample, "honest-proving-failed")
                proofs.append((o.value, msg, key))
                # whom to ask
                for name in hosts:
                    if ch.chance(70) or len(proofs) == 1:
                        a.send(name, "proof", o.value, msg)
            elif op == "recheck":
                pr, msg, key = ch.pick(proofs)
                how = ch.pick(["bytes", "object", "second"])
                if how == "object":
                    pr = "key:" + key
                verify(P, "st2" if how == "second" and second else "st", pr, msg, "own proof (%s)" % how)
                ctx.probe("own-recheck")
            elif op == "simulate":
                ctx.call(P, "simulate", "st")
                ctx.fault("simulation-between-proofs")
            elif op == "bad":
                pr, msg, key = ch.pick(proofs)
                bad = core.corrupt_hex(ch, pr)
                tgt = ch.pick([P] + list(hosts.values()))
                ctx.call(tgt, "verify", "st", bad, message=msg)
                ctx.fault("bad-proof-between-proofs")
            elif op == "refused":
                # asked for with another message, and without values
                if ch.draw(2):
                    pr, msg, key = ch.pick(proofs)
                    ctx.call(P, "verify", "st", pr, message="other" if msg != "other" else "x")
                else:
                    ctx.call(P, "p_new", "tmp", "st", values=False)
                ctx.fault("refused-attempt-between-proofs")
            elif op == "again":
                pr, msg, key = ch.pick(proofs)
                a.send(ch.pick(list(hosts)), "proof", pr, msg)
            elif op == "recompose":
                # the statement object, which may have been proved already, in a larger statement
                kind, style = ch.weighted([("and", 3), ("or", 1)]), ch.pick(["op", "ctor"])
                twice = ch.chance(50)
                t2 = c["tree"] if twice else g.tree(depth=0)
                whole = {"k": kind, "subs": [c["tree"], t2], "style": style}
                if c["tree"].get("sim") or t2.get("sim") or common.clash(whole):
                    continue
                if not twice:
                    o = ctx.call(P, "build", "re%db" % i, t2, secrets=g.secrets, sigs=g.sigs, share="st")
                    common.honest(ctx, o, "building")
                o = ctx.call(P, "compose", "re%d" % i, kind, style, ["st", "st" if twice else "re%db" % i])
                common.honest(ctx, o, "composing")
                who = ch.pick(sorted(hosts))
                common.honest(ctx, common.build_verifier(ctx, hosts[who], "re%d" % i, whole), "building")
                o = ctx.call(P, "prove", "re%d" % i)
                o = common.honest(ctx, o, "proving the composed " + world.describe(whole), "honest-proving-failed")
                verify(hosts[who], "re%d" % i, o, None, "proof of the composed statement (twice: %s)" % twice)
                ctx.probe("same-object-twice" if twice else "recomposed")
            elif op == "rebuild":
                who = ch.pick(["P"] + list(hosts))
                ctx.fault("crash-restart")
                if who == "P":
                    P.crash()
                    proofs[:] = [(pr, m, None) for pr, m, _ in proofs]
                    common.honest(ctx, common.build_prover(ctx, P, "st", c), "rebuilding")
                    if second:
                        common.honest(ctx, common.build_verifier(ctx, P, "st2", c["tree"]), "rebuilding")
                    proofs[:] = []
                else:
                    hosts[who].crash()
                    common.honest(ctx, common.build_verifier(ctx, hosts[who], "st", c["tree"]), "rebuilding")
            yield ("sleep", 1 + ch.draw(20))

    k.actor("P", prover, P)
    for a in list(k.actors.values()):
        a.start()
    k.run(until=5000)
    if not checks[0]:
        raise core.Discard("nothing verified")
    ctx.probe("verifications", checks[0])
