"""C06 A signed message cannot be exchanged.

Signers, relays and verifiers: proofs and messages travel separately, by relays that reorder, duplicate,
misroute and "tidy up" texts; an intermediary rewrites proofs for other messages."""

from sim import byz, common, core, ref, texts, wire, world

QUICK, THOROUGH = 1000, 60000
PEER = True
RULE = ("A random true statement and several messages with their near misses; proofs and messages are paired by an "
        "unreliable relay, or rewritten for another message by an intermediary.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=5, max_leaves=4)
    heavy = common.needs_pairing(c["tree"])
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(20))
    if not common.build_prover(ctx, P, "st", c).ok or not common.build_verifier(ctx, V, "st", c["tree"]).ok:
        raise core.Discard("building")
    if not common.build_verifier(ctx, P, "mine", c["tree"]).ok:
        raise core.Discard("building")
    norm = ref.normal(c["tree"])
    signed = {}
    k = core.Kernel(ctx, core.Net(dup=20, dmin=1, dmax=ch.pick([1, 30, 200])))

    def judge(host, h, ident, proof, msg, how):
        o = ctx.call(host, "verify", h, proof, message=msg)
        right = signed[ident][1]
        if (msg or "") == (right or ""):
            ctx.probe("right-pair")
            if not o.accepted:
                # whether honest proofs are accepted is C01; here it means that the pair decides nothing
                ctx.probe("right-pair-refused")
            return
        ctx.fault(how)
        if o.kind == "hang":
            ctx.fail("hang", how)
        if o.accepted:
            ctx.fail("other-message-accepted", "%s: signed %r, accepted with %r, %s" % (
                how, (right or "")[:60], (msg or "")[:60], ctx.sample))

    def verifier(a):
        held = {"proof": [], "text": []}
        while True:
            m = yield ("recv", None)
            kind, ident, data = m[1:4]
            held[kind].append((ident, data))
            # every new item is tried with what is there already
            if kind == "proof":
                for i, t in held["text"][-3:]:
                    if i != ident and not ch.chance(40):
                        continue
                    judge(V, "st", ident, data, t, "relay-mispaired" if i != ident else "text-changed")
            else:
                for i, p in held["proof"][-3:]:
                    if i != ident and not ch.chance(40):
                        continue
                    judge(V, "st", i, p, data, "relay-mispaired" if i != ident else "text-changed")

    def relay(a):
        while True:
            m = yield ("recv", None)
            kind, ident, data = m[1:4]
            if kind == "text":
                if ch.chance(30):
                    how, data = texts.near(ch, data)
                    ctx.fault("relay-tidies-" + how)
                else:
                    data = texts.route(ch, ctx, data)
            a.send("V", kind, ident, data)

    def signer(a):
        for i in range(2 + ch.draw(2 if heavy else 3)):
            m = texts.make(ch) if not signed or ch.chance(40) else texts.near(ch, ch.pick(list(signed.values()))[1])[1]
            o = ctx.call(P, "prove", "st", message=m, key="k%d" % i)
            if not o.ok:
                continue
            # a proof that is not accepted as it is decides nothing
            if not ctx.call(V, "verify", "st", o.value, message=m).accepted:
                ctx.probe("proof-refused")
                continue
            signed[i] = (o.value, m)
            a.send("R", "proof", i, o.value)
            a.send("R", "text", i, m)
            for _ in range(ch.draw(4)):
                how, t = texts.near(ch, m)
                proof = ch.pick([o.value, "key:k%d" % i])
                if proof.startswith("key"):
                    judge(P, "mine", i, proof, t, "near-" + how)
                else:
                    judge(V, "st", i, proof, t, "near-" + how)
            if ch.chance(40):
                rewrite(i)
            yield ("sleep", 1 + ch.draw(60))

    def rewrite(i):
        """The intermediary computes the challenge anew for its own message and keeps the responses."""
        proof, m = signed[i]
        how, t = texts.near(ch, m)
        p = wire.parts(proof)
        try:
            node = ref.expand(norm, p[2])
            raw = ref.commitment(node, ref.toint(p[0]), p[1])
            com = byz.wrap_tree(P, node, raw)
        except Exception:
            return
        old = ref.toint(p[0])

        def respond(c2):
            r = p[1]
            if node.kind == "or" and ch.draw(2):
                r = ([ref.bn((ref.toint(r[0][0]) + c2 - old) % ref.CH)] + list(r[0][1:]), r[1])
            return r

        def make():
            stmt = P.stmts["mine"].stmt
            if p[2] is not None:
                stmt.get_verifier().process_precommitment(p[2])
            kw = {} if t is None else {"message": t}
            return byz.Puppet(stmt, p[2], com, respond).get_nizk_proof(**kw)

        P.op_byz = make
        o = P.call("byz")
        if not o.ok:
            return
        n = o.value
        try:
            data = wire.unparts([n.challenge, n.responses, n.precommitment, n.stmt_hash])
        except Exception:
            return
        try:
            if ref.same_commitment(node, raw, ref.commitment(node, int(n.challenge), wire.parts(data)[1])):
                # all secrets are zero: these responses answer any challenge, anybody can prove this
                ctx.probe("trivial-statement")
                return
        except ref.Invalid:
            pass
        judge(V, "st", i, data, t, "challenge-recomputed")
        p2 = list(p)
        p2[0] = n.challenge
        judge(V, "st", i, wire.unparts(p2), t, "challenge-replaced")

    for name, prog, h in (("V", verifier, V), ("R", relay, None), ("P", signer, P)):
        k.actor(name, prog, h)
    for a in list(k.actors.values()):
        a.start()
    k.run(until=5000)
    if not signed:
        raise core.Discard("no proof")
    ctx.probe("signed", len(signed))
