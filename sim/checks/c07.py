"""C07 Replayed, spliced or late interactive messages never convince.

An adversary without secrets owns the network between honest provers and a verifier: it records
sessions, drives the provers with challenges of its own, and talks to the verifier in any order, while
the verifier serves honest sessions, crashes and restarts (with its pseudo-random state reset)."""

import random

from sim import byz, common, core, ref, wire, world

QUICK, THOROUGH = 1000, 60000
PEER = True
RULE = ("A random statement with random secrets that the adversary does not have; a random interleaving of honest "
        "sessions, recorded material and attack sessions (replay, splice, simulation for a predicted challenge, second "
        "commitment, late precommitment, early response, copying a live session, chaos), with verifier restarts.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


class Late:
    """Messages that convince if a precommitment is taken after the challenge: inequality clauses whose
    relation with the unknown left-hand side is solved for that side afterwards."""

    def __init__(self, rng, wrap):
        self.rng, self.wrap = rng, wrap
        self.st = {}

    def can(self, n):
        if n["k"] == "dlne":
            return not n.get("bind")
        if n["k"] in ("and", "or"):
            return (all if n["k"] == "and" else any)(self.can(s) for s in n["subs"])
        return False

    def start(self, n, path="0"):
        """(precommitment, commitment) to begin with."""
        rng = self.rng
        if n["k"] == "dlne":
            grp, gid = ref.group(n["g"]), n["g"]
            ra, rb = rng.randrange(1, grp.q), rng.randrange(1, grp.q)
            T1 = ref.lincomb(grp, [(ra, ref.cpt(gid, n["h0"])), (rb, ref.cpt(gid, n["H0"]))])
            T2 = grp.mul(rng.randrange(1, grp.q), grp.gen)
            self.st[path] = (ra, rb, T2)
            w = lambda p: self.wrap(gid, p)
            return w(grp.mul(rng.randrange(1, grp.q), grp.gen)), [w(T1), w(T2)]
        if n["k"] == "and":
            parts = [self.start(s, "%s.%d" % (path, i)) for i, s in enumerate(n["subs"])]
            return [p[0] for p in parts], [p[1] for p in parts]
        idx = rng.choice([i for i, s in enumerate(n["subs"]) if self.can(s)])
        pre, com, sims = [], [], {}
        for i, s in enumerate(n["subs"]):
            p = "%s.%d" % (path, i)
            if i == idx:
                a, b = self.start(s, p)
            else:
                a = ref.precommit(s, {}, rng, self.wrap, {}, path=p)
                node = ref.expand(s, a, p, lax=True)
                c = rng.randrange(ref.CH)
                raw, resp = ref.simulate(node, c, rng)
                b = wrap_all(self.wrap, node, raw)
                sims[i] = (c, resp)
            pre.append(a)
            com.append(b)
        self.st[path] = (idx, sims, pre)
        return pre, com

    def finish(self, n, c, path="0"):
        """(precommitment, responses) for the challenge."""
        if n["k"] == "dlne":
            grp, gid = ref.group(n["g"]), n["g"]
            ra, rb, T2 = self.st[path]
            s = ref.lincomb(grp, [(ra, ref.cpt(gid, n["h1"])), (rb, ref.cpt(gid, n["H1"]))])
            pre = grp.mul(pow(c % grp.q, -1, grp.q), grp.add(s, grp.neg(T2)))
            r = [ref.bn(ra), ref.bn(rb)]
            return self.wrap(gid, pre), [r, list(r)]
        if n["k"] == "and":
            parts = [self.finish(s, c, "%s.%d" % (path, i)) for i, s in enumerate(n["subs"])]
            return [p[0] for p in parts], [p[1] for p in parts]
        idx, sims, pre = self.st[path]
        pre = list(pre)
        rest = (c - sum(x for x, _ in sims.values())) % ref.CH
        ocs, rs = [], []
        for i, s in enumerate(n["subs"]):
            if i == idx:
                pre[i], r = self.finish(s, rest, "%s.%d" % (path, i))
                ocs.append(ref.bn(rest))
                rs.append(r)
            else:
                ocs.append(ref.bn(sims[i][0]))
                rs.append(sims[i][1])
        return pre, (ocs, rs)


def wrap_all(wrap, node, com):
    if node.kind == "dl":
        return wrap(node.grp.gid, com)
    return [wrap_all(wrap, s, x) for s, x in zip(node.subs, com)]


def run(ctx):
    ch = ctx.ch
    ctx.no_edges()
    late_case = ch.chance(15)
    if late_case:
        g, c = common.case(ctx, edge_values=False, kinds=[("dlne", 8), ("dl", 1)], depth=1, max_leaves=3, pairing=5)
    else:
        g, c = common.case(ctx, edge_values=False, pairing=5, max_leaves=4)
    heavy = common.needs_pairing(c["tree"])
    norm = ref.normal(c["tree"])
    ext = ref.has_ext(norm)
    P, M = ctx.host("P"), ctx.host("M")
    V = ctx.host("V", remote=ch.chance(20))
    P.mem = M.mem = False
    shared = not ext and ch.chance(50)
    n_h = [0]
    rng = ctx.rng
    wrap = M.points("own").wrap

    if not common.build_verifier(ctx, M, "m", c["tree"], naming="explicit").ok:
        raise core.Discard("building")

    def stmt():
        h = "st" if shared else "st%d" % n_h[0]
        if not shared or n_h[0] == 0:
            if not common.build_verifier(ctx, V, h, c["tree"]).ok:
                raise core.Discard("building")
        n_h[0] += 1
        return h

    recs = []       # everything seen: dicts with pre, com, chal, resp
    challenges = []
    honest = []     # sessions in progress
    n = [0]

    def take_challenge(o, before):
        """A challenge of the verifier."""
        v = int(o.value)
        if not 0 <= v < ref.CH:
            ctx.fail("challenge-out-of-range", str(v))
        if v in challenges:
            ctx.fail("challenge-repeated", "%x after %d challenges, %s" % (v, len(challenges), ctx.sample))
        challenges.append(v)
        after = V.call("bits").value
        if after - before < 128:
            ctx.fail("challenge-predictable", "only %d bits of entropy went into a challenge" % (after - before))
        return v

    def v_com(s, data):
        before = V.call("bits").value
        o = ctx.call(V, "v_com", s, data)
        if o.ok:
            return take_challenge(o, before)
        return None

    def ident(pre):
        """Statement hash, as anybody can compute it."""
        ctx.call(M, "v_new", "m", "m")
        if pre is not None:
            if not ctx.call(M, "v_pre", "m", wire.enc(pre)).ok:
                return None
        o = ctx.call(M, "id", "m")
        return bytes.fromhex(o.value) if o.ok else None

    def honest_new():
        n[0] += 1
        s = "h%d" % n[0]
        if not common.build_prover(ctx, P, s, c).ok or not ctx.call(P, "p_new", s, s).ok:
            raise core.Discard("no prover")
        ctx.call(V, "v_new", s, stmt())
        x = {"s": s, "step": 0, "by": "prover"}
        honest.append(x)
        recs.append(x)

    def honest_step(x):
        s = x["s"]
        try:
            if x["step"] == 0:
                x["pre"] = common.honest(ctx, ctx.call(P, "p_pre", s), "pre")
                ok = ctx.call(V, "v_pre", s, x["pre"]).ok
            elif x["step"] == 1:
                x["com"] = common.honest(ctx, ctx.call(P, "p_com", s), "com")
                x["chal"] = v_com(s, x["com"])
                ok = x["chal"] is not None
            else:
                x["resp"] = common.honest(ctx, ctx.call(P, "p_resp", s, str(x["chal"])), "resp")
                ok = ctx.call(V, "v_resp", s, x["resp"]).accepted
                if ok:
                    ctx.probe("honest-session-accepted")
        except core.Violation as e:
            if e.cls == "honest-refused":
                ok = False
            else:
                raise
        x["step"] += 1
        if not ok or x["step"] == 3:
            honest.remove(x)

    def drive_prover():
        """The adversary as a verifier of the honest prover."""
        n[0] += 1
        s = "d%d" % n[0]
        if not common.build_prover(ctx, P, s, c).ok or not ctx.call(P, "p_new", s, s).ok:
            return
        a, b = ctx.call(P, "p_pre", s), ctx.call(P, "p_com", s)
        if not a.ok or not b.ok:
            return
        chal = ch.pick([0, 1, 2, ref.CH - 1, rng.randrange(ref.CH)])
        r = ctx.call(P, "p_resp", s, str(chal))
        if r.ok:
            recs.append({"s": s, "pre": a.value, "com": b.value, "chal": chal, "resp": r.value, "by": "driven"})
            ctx.fault("prover-driven-by-adversary")

    def sim_for(chal, pre=None):
        """(pre, com, resp) that would answer `chal`."""
        if pre is None:
            pre = ref.precommit(norm, {}, rng, wrap, {})
        node = ref.expand(norm, pre, lax=True)
        raw, resp = ref.simulate(node, chal, rng)
        h = ident(pre)
        if h is None:
            return None
        return wire.enc(pre), wire.enc((h, wrap_all(wrap, node, raw))), wire.enc(resp), pre

    def guess():
        g = [0, 1, ref.CH - 1, 2 ** 127]
        if challenges:
            g += [challenges[-1]] * 3 + [challenges[0], (challenges[-1] + 1) % ref.CH]
        r = random.Random(0)
        g += [r.getrandbits(128)]
        r = random.Random(0)
        g += [r.randrange(1 << 128)]
        return ch.pick(g)

    def some(field):
        xs = [r[field] for r in recs if r.get(field) is not None]
        return ch.pick(xs) if xs else None

    def final(s, resp, how):
        o = ctx.call(V, "v_resp", s, resp)
        if o.kind == "hang":
            ctx.fail("hang", how)
        if o.accepted:
            ctx.fail("convinced-without-secrets", "%s for %s" % (how, ctx.sample))

    def new_mal():
        n[0] += 1
        s = "m%d" % n[0]
        h = stmt()
        ctx.call(V, "v_new", s, h)
        return s, h

    def attack():
        how = ch.weighted([("replay", 4), ("mix", 3), ("predict", 4), ("second-commitment", 4), ("late", 6 if late_case else 3),
                           ("no-commitment", 2), ("early-response", 2), ("other-session", 3), ("chaos", 4), ("copy-live", 3),
                           ("again", 2), ("adapted", 2)])
        full = [r for r in recs if r.get("resp") is not None]
        if how in ("replay", "again", "adapted") and not full:
            how = "predict"
        ctx.fault("attack-" + how)
        if how in ("replay", "again", "adapted"):
            r = ch.pick(full)
            s, h = new_mal()
            for _ in range(2 if how == "again" else 1):
                ctx.call(V, "v_pre", s, r["pre"])
                v = v_com(s, r["com"])
                resp = r["resp"]
                if how == "adapted" and v is not None and r.get("chal") is not None:
                    # the recorded response, shifted as if the secret were known to be something
                    x = wire.dec(resp)
                    resp = wire.enc(shift(x, (v - int(r["chal"])) * ch.pick([1, 2, rng.randrange(1 << 200)])))
                final(s, resp, how)
        elif how == "mix":
            s, h = new_mal()
            for op, f in (("v_pre", "pre"), ("v_com", "com")):
                x = some(f)
                if x is not None:
                    v_com(s, x) if op == "v_com" else ctx.call(V, op, s, x)
            x = some("resp")
            if x is not None:
                final(s, x, how)
        elif how == "predict":
            t = sim_for(guess())
            if t is None:
                return
            s, h = new_mal()
            ctx.call(V, "v_pre", s, t[0])
            v_com(s, t[1])
            final(s, t[2], how)
        elif how == "second-commitment":
            t = sim_for(guess())
            if t is None:
                return
            s, h = new_mal()
            ctx.call(V, "v_pre", s, t[0])
            v = v_com(s, t[1])
            if v is None:
                return
            if ch.chance(30):
                final(s, t[2], how)
            t2 = sim_for(v, pre=t[3])
            again = ch.chance(30)
            if again:
                ctx.call(V, "v_pre", s, t2[0])
            v_com(s, t2[1])
            final(s, t2[2], how)
        elif how == "late":
            late = Late(rng, wrap)
            if late.can(norm):
                pre, com = late.start(norm)
                hsh = ident(pre)
                s, h = new_mal()
                ctx.call(V, "v_pre", s, wire.enc(pre))
                v = v_com(s, wire.enc((hsh, com)))
                if v is None:
                    return
                pre1, resp = late.finish(norm, v)
                s2 = s
                if ch.chance(30):
                    # through another session on the same statement object
                    s2 = s + "b"
                    ctx.call(V, "v_new", s2, h)
                ctx.call(V, "v_pre", s2, wire.enc(pre1))
                ctx.fault("late-precommitment-solved")
                final(s, wire.enc(resp), how)
            else:
                t = sim_for(guess())
                if t is None:
                    return
                s, h = new_mal()
                order = ch.pick([0, 1, 2])
                if order != 0:
                    ctx.call(V, "v_pre", s, t[0])
                v = v_com(s, t[1])
                if v is None:
                    return
                t2 = sim_for(v)
                ctx.call(V, "v_pre", s, t2[0] if order == 2 else t[0])
                final(s, t2[2] if order == 2 else t[2], how)
        elif how == "no-commitment":
            s, h = new_mal()
            t = sim_for(guess())
            if t is None:
                return
            if ch.draw(2):
                ctx.call(V, "v_pre", s, t[0])
            final(s, some("resp") or t[2], how)
            final(s, t[2], how)
        elif how == "early-response":
            t = sim_for(guess())
            if t is None:
                return
            s, h = new_mal()
            ctx.call(V, "v_pre", s, t[0])
            final(s, t[2], how)
            v_com(s, t[1])
            final(s, t[2], how)
        elif how == "other-session":
            t = sim_for(guess())
            if t is None:
                return
            a, ha = new_mal()
            b = a + "b"
            ctx.call(V, "v_new", b, ha if ch.draw(2) else stmt())
            ctx.call(V, "v_pre", a, t[0])
            v = v_com(a, t[1])
            if v is None:
                return
            t2 = sim_for(v, pre=t[3])
            ctx.call(V, "v_pre", b, t2[0])
            v_com(b, t2[1])
            for s in ch.shuffle([a, b]):
                final(s, t2[2], how)
        elif how == "copy-live":
            live = [x for x in honest if x.get("com") is not None and x.get("resp") is None]
            if not live:
                return
            x = ch.pick(live)
            s, h = new_mal()
            ctx.call(V, "v_pre", s, x["pre"])
            v_com(s, x["com"])
            honest_step(x)
            if x.get("resp") is not None:
                final(s, x["resp"], how)
        elif how == "chaos":
            s, h = new_mal()
            for _ in range(3 + ch.draw(5)):
                op = ch.pick(["pre", "com", "resp", "sim"])
                if op == "sim":
                    t = sim_for(guess())
                    if t is not None:
                        recs.append({"s": "sim", "pre": t[0], "com": t[1], "chal": None, "resp": t[2], "by": "simulated"})
                    continue
                x = some(op)
                if x is None:
                    continue
                if op == "pre":
                    ctx.call(V, "v_pre", s, x)
                elif op == "com":
                    v_com(s, x)
                else:
                    final(s, x, how)

    for _ in range((6 if heavy else 10) + ch.draw(8)):
        op = ch.weighted([("honest", 5), ("attack", 7), ("drive", 1), ("restart", 1), ("new", 2)])
        if op == "new" or (op == "honest" and not honest):
            if len(honest) < 3:
                honest_new()
        elif op == "honest":
            honest_step(ch.pick(honest))
        elif op == "drive":
            drive_prover()
        elif op == "attack":
            attack()
        else:
            V.crash()
            ctx.fault("verifier-restart")
            honest.clear()
            n_h[0] = 0
    ctx.probe("challenges", len(challenges))


def shift(x, d):
    if isinstance(x, (list, tuple)):
        return [shift(y, d) for y in x]
    return ref.bn(int(x) + d)
