"""C04 A proof counts only for the exact statement it was made for.

Several verifiers with statements that differ from the prover's in one respect; proofs and session
messages of the one statement are delivered to all of them by a network that misroutes."""

from sim import byz, common, core, ref, variants, wire, world

QUICK, THOROUGH = 1500, 60000
PEER = True
RULE = ("A random true statement and several statements derived from it by one or two changes that make it another "
        "statement; proofs and interactive messages of the first are misrouted to verifiers of the others.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=10)
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(15))
    naming = common.naming(ctx)
    if not common.build_prover(ctx, P, "st", c, naming=naming).ok or not common.build_verifier(ctx, V, "v0", c["tree"]).ok:
        raise core.Discard("building")
    msg = ch.pick([None, None, "m"])
    proofs = []
    o = ctx.call(P, "prove", "st", message=msg)
    if not o.ok or not ctx.call(V, "verify", "v0", o.value, message=msg).accepted:
        raise core.Discard("no honest proof")
    proofs.append(o.value)
    mine = variants.ident(c["tree"])
    early = variants.ident(c["tree"], early=True)
    others = {}
    for i in range(2 + ch.draw(5)):
        t, names = c["tree"], []
        for _ in range(ch.weighted([(1, 4), (2, 1)])):
            v = variants.variant(ctx, t)
            if v is not None:
                names.append(v[0])
                t = v[1]
        if not names:
            continue
        if variants.ident(t) == mine:
            ctx.probe("variant-is-the-same-statement")
            continue
        h = "v%d" % (i + 1)
        # the verifier may use the prover's names for its secrets
        o = common.build_verifier(ctx, V, h, t, prefix=ch.pick(["v", "x"]))
        if not o.ok:
            ctx.probe("variant-not-buildable")
            continue
        others[h] = (t, "+".join(names))
        for n in names:
            ctx.probe("variant-" + n)
    if not others:
        raise core.Discard("no variant")

    k = core.Kernel(ctx, core.Net(dup=15, dmin=1, dmax=20))

    def node(h):
        def program(a):
            n = 0
            while True:
                m = yield ("recv", None)
                if m[1] == "proof":
                    o = ctx.call(V, "verify", h, m[2], message=m[3])
                    if h in others:
                        ctx.fault("misrouted-proof")
                        if o.accepted:
                            ctx.fail("proof-of-another-statement-accepted", "%s: made for %s, accepted for %s" % (
                                others[h][1], ctx.sample, world.describe(others[h][0])))
                elif m[1] == "session":
                    n += 1
                    session(h, "%s.%d" % (h, n))
        return program

    def session(h, s):
        o = ctx.call(P, "p_new", s, "st")
        if not o.ok:
            return
        pre = ctx.call(P, "p_pre", s)
        if not pre.ok:
            return
        ctx.call(V, "v_new", s, h)
        if not ctx.call(V, "v_pre", s, pre.value).ok:
            ctx.probe("precommitment-refused")
            return
        com = ctx.call(P, "p_com", s)
        if not com.ok:
            return
        o = ctx.call(V, "v_com", s, com.value)
        if h in others:
            ctx.fault("misrouted-session")
            if o.ok and variants.ident(others[h][0], early=True) != early:
                ctx.fail("commitment-of-another-statement-accepted", "%s: made for %s, taken for %s" % (
                    others[h][1], ctx.sample, world.describe(others[h][0])))
            if o.ok:
                r = ctx.call(P, "p_resp", s, o.value)
                if r.ok and ctx.call(V, "v_resp", s, r.value).accepted:
                    ctx.fail("session-of-another-statement-accepted", "%s: made for %s, accepted for %s" % (
                        others[h][1], ctx.sample, world.describe(others[h][0])))
        else:
            ctx.probe("right-session")

    def borrowed(h):
        """A proof of the first statement, with the challenge of another one."""
        w = "w" + h
        if w not in P.stmts and not common.build_verifier(ctx, P, w, others[h][0], prefix="w").ok:
            return
        kw = {} if msg is None else {"message": msg}

        def make():
            b = P.stmts["st"]
            prover = b.stmt.get_prover(dict(b.values))
            pre = prover.precommit()
            com = prover.commit()
            other = P.stmts[w].stmt
            if pre is not None:
                other.get_verifier().process_precommitment(pre)
            x = byz.Puppet(other, pre, com[1], prover.compute_response).get_nizk_proof(**kw)
            return [x.challenge, x.responses, pre, com[0]]

        P.op_byz = make
        o = P.call("byz")
        if not o.ok:
            ctx.probe("borrowing-refused")
            return
        ctx.fault("challenge-of-another-statement")
        o = ctx.call(V, "verify", "v0", wire.unparts(o.value), message=msg)
        if o.accepted and variants.ident(others[h][0], early=True) != early:
            ctx.fail("challenge-of-another-statement-accepted", "%s: made for %s, accepted for %s" % (
                others[h][1], world.describe(others[h][0]), ctx.sample))

    for h in ["v0"] + list(others):
        k.actor(h, node(h), None)

    def sender(a):
        for _ in range(2 + ch.draw(3)):
            what = ch.pick(["proof", "forged-hash", "session", "session", "proof", "borrowed"])
            to = ch.pick(list(others)) if ch.chance(90) else "v0"
            if what == "borrowed":
                if to in others:
                    borrowed(to)
            elif what == "session":
                a.send(to, "session")
            elif what == "forged-hash" and to in others:
                # an intermediary writes the other statement's hash into the proof
                p = wire.parts(proofs[0])
                ctx.call(V, "v_new", "tmp", to)
                if p[2] is not None:
                    ctx.call(V, "v_pre", "tmp", wire.enc(p[2]))
                o = ctx.call(V, "id", to)
                if o.ok:
                    p[3] = bytes.fromhex(o.value)
                    ctx.fault("statement-hash-rewritten")
                    a.send(to, "proof", wire.unparts(p), msg)
            else:
                a.send(to, "proof", proofs[0], msg)
            yield ("sleep", 1 + ch.draw(20))
        # every verifier sees the proof at least once
        for h in others:
            a.send(h, "proof", proofs[0], msg)

    k.actor("P", sender, None)
    for a in list(k.actors.values()):
        a.start()
    k.run(until=5000)
    ctx.probe("other-statements", len(others))
