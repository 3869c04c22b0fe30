"""C05 Independent parties agree on a statement's identity.

Parties on several machines (one another interpreter with other string hashing) build the same
statement at different times, in different ways, after different histories of objects coming and going."""

import copy

from sim import common, core, ref, wire, world

QUICK, THOROUGH = 1600, 60000
PEER = True
RULE = ("A random statement built by several parties with random naming, knowledge, point provenance, history, restarts "
        "and reuse of object identities, in a random order; all identifiers and session hashes are compared.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=12)
    ext = ref.has_ext(ref.normal(c["tree"]))
    hosts = [ctx.host("A"), ctx.host("B")]
    if ch.chance(50):
        hosts.append(ctx.host("W", remote=True))
    k = core.Kernel(ctx, core.Net(dmin=1, dmax=ch.pick([1, 50])))
    # derived generators
    if ch.chance(30):
        gid = ch.pick(["ec713", "ec415", "G1"])
        n, seed = 1 + ch.draw(4), ch.pick([42, 42, 0, 7])
        got = []
        for h in hosts:
            o = ctx.call(h, "gens", gid, n, seed)
            if not o.ok:
                ctx.fail("generators-fail", repr(o))
            got.append(o.value)
        if any(x != got[0] for x in got) or len(set(got[0])) != n:
            ctx.fail("generators-differ", "%s %s" % (gid, got))
        ctx.probe("generators-compared")

    parties = []
    count = [0]

    def build(host, knows):
        count[0] += 1
        h = "st%d" % count[0]
        if ch.chance(30):
            # other objects came first, and some of them are gone again
            junk = world.Gen(ch, pairing=0, depth=1, max_leaves=2).case(True)
            ctx.call(host, "build", "junk%d" % count[0], junk["tree"], secrets=junk["secrets"])
            ctx.fault("history-before-building")
            if ch.draw(2):
                ctx.call(host, "drop", "junk%d" % count[0])
        share = None
        if ch.chance(25) and c["tree"]["k"] in ("and", "or"):
            # the secrets exist already, made in another order for another statement
            t = copy.deepcopy(world.public(c["tree"]))
            t["subs"] = t["subs"][::-1]
            if knows:
                o = ctx.call(host, "build", h + "w", t, secrets=c["secrets"], sigs=c["sigs"], naming=ch.pick(["auto", "explicit"]))
            else:
                o = ctx.call(host, "build", h + "w", t, naming=ch.pick(["auto", "explicit"]))
            if o.ok:
                share = h + "w"
                ctx.probe("secrets-made-for-another-statement")
        kw = {"share": share} if share else {}
        mode = ch.pick(["own", "fresh", "wire"])
        prefix = ch.pick(["x", "v", "a long name ", "0", "é"])
        ctx.probe("points-" + mode)
        if knows:
            # with all, some or none of the values
            info = copy.deepcopy(c["secrets"])
            for s in info.values():
                if ch.chance(30):
                    s["how"] = "dict" if s["how"] == "embed" else s["how"]
            tree = c["tree"] if ch.draw(2) else world.public(c["tree"])
            if not ext or tree is c["tree"]:
                o = ctx.call(host, "build", h, tree, secrets=info, sigs=c["sigs"], naming=common.naming(ctx), mode=mode, prefix=prefix, **kw)
            else:
                o = ctx.call(host, "build", h, c["tree"], secrets=c["secrets"], sigs=c["sigs"], naming=common.naming(ctx), mode=mode, prefix=prefix, **kw)
        else:
            nm = "inline" if not share and ch.chance(15) else common.naming(ctx)
            o = ctx.call(host, "build", h, world.public(c["tree"]), naming=nm, mode=mode, prefix=prefix, **kw)
        common.honest(ctx, o, "building %s" % ctx.sample, "building-failed")
        return h

    ids = []

    def note(idv, who):
        ids.append((idv, who))
        if idv != ids[0][0]:
            ctx.fail("identities-differ", "%s and %s for %s" % (ids[0][1], who, ctx.sample))

    if not ext:
        for i in range(2 + ch.draw(4)):
            host = ch.pick(hosts)
            knows = ch.draw(2)
            h = build(host, knows)
            for _ in range(1 + ch.draw(2)):
                o = ctx.call(host, "id", h)
                common.honest(ctx, o, "identity of %s" % ctx.sample, "no-identity")
                note(o.value, host.name + "." + h)
            if ch.chance(25):
                # using the statement does not change its identity
                if knows and ch.draw(2):
                    ctx.call(host, "prove", h)
                else:
                    ctx.call(host, "simulate", h)
                o = ctx.call(host, "id", h)
                common.honest(ctx, o, "identity", "no-identity")
                note(o.value, host.name + "." + h + " after use")
            if ch.chance(20):
                host.crash()
                ctx.fault("crash-restart")
        ctx.probe("plain-identities", len(ids))

    # sessions: every verifier derives what the prover sends
    A = hosts[0]
    for rep in range(1 + ch.draw(2)):
        hp = build(A, True)
        vs = []
        for i in range(1 + ch.draw(3)):
            host = ch.pick(hosts)
            vs.append((host, build(host, False)))
        mem = ch.chance(25)
        s = "s%d" % rep
        o = ctx.call(A, "p_new", s, hp)
        if not o.ok:
            raise core.Discard("no prover")
        A.mem = mem
        pre = ctx.call(A, "p_pre", s)
        com = ctx.call(A, "p_com", s) if pre.ok else pre
        A.mem = False
        if not com.ok:
            raise core.Discard("prover failed")
        idp = ctx.call(A, "id", hp)
        seen = []
        for i, (host, h) in enumerate(vs):
            if mem and getattr(host, "remote", False):
                continue
            t = "%s.v%d" % (s, i)
            ctx.call(host, "v_new", t, h)
            o = ctx.call(host, "v_pre", t, pre.value)
            if not o.ok:
                ctx.fail("precommitment-refused", "%r for %s" % (o, ctx.sample))
            o = ctx.call(host, "id", h)
            common.honest(ctx, o, "identity", "no-identity")
            if o.value != idp.value:
                ctx.fail("identities-differ", "prover %s and verifier %s.%s for %s (in memory: %s)" % (hp, host.name, h, ctx.sample, mem))
            o = ctx.call(host, "v_com", t, com.value)
            if not o.ok:
                ctx.fail("hash-refused", "%r for %s (in memory: %s)" % (o, ctx.sample, mem))
            ctx.probe("session-in-memory" if mem else "session-as-bytes")
        # and non-interactively
        o = ctx.call(A, "prove", hp)
        if o.ok:
            for host, h in vs:
                r = ctx.call(host, "verify", h, o.value)
                if r.kind == "err" and r.value == "StatementMismatch":
                    ctx.fail("hash-refused", "%r for the proof of %s" % (r, ctx.sample))
        if ch.chance(30):
            for x in hosts:
                x.crash()
                ctx.fault("crash-restart")
    ctx.sim_ms += k.now
