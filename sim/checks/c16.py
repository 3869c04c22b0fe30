"""C16 Proof randomness is never reused or predictable.

A machine proves again and again: repeatedly and interleaved on the same objects, after restarts, with its
pseudo-random state reset, on a clock that stands still or jumps, and in copies of itself.  An observer who
is told the secrets solves every response for the randomness behind it."""

from sim import common, core, nonces, ref, wire, world
from sim.nonces import Pool, Weak

QUICK, THOROUGH = 700, 60000
PEER = True
RULE = ("A random set of statements (shared secrets included) and a random history of proofs, of sessions advanced step by "
        "step in random order, of blind issuance, crashes with restart, resets of the process-local pseudo-random state, clock "
        "jumps and copies of the running machine. Every nonce, blinding factor and sub-challenge is recovered with the known "
        "secrets (or by rolling the machine back and asking it a second challenge) and compared with all the others.")
ASSUMPTIONS = ["the operating system's entropy is uniform"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


class Book:
    def __init__(self, ctx, secrets):
        self.ctx, self.secrets = ctx, secrets
        self.nonce, self.answer = Pool("nonce"), Pool("response")
        self.sub, self.blind = Pool("subchallenge"), Pool("blinding")
        self.pres = {}

    def value(self, name):
        s = self.secrets.get(name)
        return None if s is None or s.get("v") is None else int(s["v"])

    def transcript(self, norm, c, resp, pre, tag):
        con = ref.expand(norm, pre, lax=True)
        for (scope, s), (q, k, r) in nonces.known(con, c, resp, self.value).items():
            t = "%s%s of %s" % (s, scope and " in " + scope, tag)
            if k is not None:
                self.nonce.add(q, k, t)
            self.answer.add(q, r, t)
        for at, x in nonces.subchallenges(con, resp):
            self.sub.add(ref.CH, x, "%s of %s" % (at, tag))
        self.points(pre, tag)
        return con

    def points(self, pre, tag):
        for p in wire.points(pre):
            k = repr(wire.plain(p))
            if k in self.pres:
                raise Weak("repeated-precommitment", "%s and %s" % (self.pres[k], tag))
            self.pres[k] = tag

    def pair(self, con, t1, t2, tag):
        """Blinding factors of a prover that answered twice."""
        for (scope, s), (q, k, v) in nonces.solved(con, t1, t2).items():
            if self.value(s) is None:
                # the nonce of an internal secret
                self.nonce.add(q, k, "%s%s of %s" % (s, scope and " in " + scope, tag))
            what = s.rsplit(":", 1)[-1]
            if ":" in s and (what in ("r1", "r2", "beta") or what[0] == "r" and what[1:].isdigit()):
                self.blind.add(q, v, "%s of %s" % (s, tag))
                self.ctx.probe("blinding-solved")


def run(ctx):
    ctx.no_edges()
    if ctx.ch.chance(12):
        return issuance(ctx)
    ch = ctx.ch
    g = world.Gen(ch, pairing=10, max_leaves=4, depth=ch.draw(3))
    pool, trees = world.Pool(), []
    for _ in range(ch.weighted([(1, 3), (2, 2), (3, 1)])):
        g.leaves = 0
        trees.append(g.tree(true=True, pool=pool))
    norms = [ref.normal(t) for t in trees]
    ctx.sample = "; ".join(world.describe(t) for t in trees)
    ctx.event("case", ctx.sample)
    for f in sorted(g.features):
        ctx.probe("has-" + f)
    P = ctx.host("P", remote=ch.chance(15))
    prefix = ch.pick(["x", "y"])

    def boot():
        kw = {"naming": naming, "mode": mode}
        for i, t in enumerate(trees):
            o = ctx.call(P, "build", "st%d" % i, t, secrets=g.secrets, sigs=g.sigs, prefix="%s%d" % (prefix, i), **kw)
            if not o.ok:
                raise core.Discard("building")

    naming, mode = common.naming(ctx), ch.weighted(common.MODES)
    boot()
    book = Book(ctx, g.secrets)
    n = 4 + ch.draw(6)
    live, done, count = [], 0, 0
    try:
        while done < n and count < 60:
            count += 1
            act = ch.weighted([("prove", 5), ("new", 4), ("step", 10), ("crash", 1), ("prng", 2), ("clock", 1), ("copy", 2)])
            if act in ("prove", "copy"):
                i = ch.draw(len(trees))
                m = ch.pick([None, None, "a", "b"])
                if act == "copy":
                    ctx.fault("machine-copied")
                    o = ctx.call(P, "in_copy", "salt%d" % count, "prove", "st%d" % i, m)
                    if o.ok:
                        proof(book, norms[i], o.value, "copied proof %d" % count)
                o = ctx.call(P, "prove", "st%d" % i, m)
                if not o.ok:
                    ctx.probe("no-proof")
                    done += 1
                    continue
                proof(book, norms[i], o.value, "proof %d" % count)
                done += 1
            elif act == "new" and len(live) < 3:
                i = ch.draw(len(trees))
                s = "s%d" % count
                if ctx.call(P, "p_new", s, "st%d" % i).ok:
                    live.append({"s": s, "i": i, "step": 0})
            elif act == "step" and live:
                t = ch.pick(live)
                if session(ctx, P, t, book, norms[t["i"]]):
                    live.remove(t)
                    done += 1
            elif act == "crash":
                ctx.fault("crash-restart")
                P.crash()
                live = []
                boot()
            elif act == "prng":
                ctx.fault("prng-state-reset")
                ctx.call(P, "prng_reset")
            elif act == "clock":
                ctx.fault("clock-jump")
                ctx.call(P, "clock", 1700000000 + ch.pick([0, 0, 1, -1, 3600, -10 ** 6]))
        book.nonce.ratios()
        book.blind.ratios()
    except Weak as e:
        ctx.fail(e.cls, "%s, %s" % (e.msg, ctx.sample))
    ctx.probe("nonces", book.nonce.n)
    ctx.probe("responses", book.answer.n)


def proof(book, norm, data, tag):
    c, resp, pre, _ = wire.parts(data)
    book.transcript(norm, int(c), resp, pre, tag)


def session(ctx, P, t, book, norm):
    """One step; true when the session is over."""
    s = t["s"]
    t["step"] += 1
    if t["step"] == 1:
        o = ctx.call(P, "p_pre", s)
        t["pre"] = o.value
    elif t["step"] == 2:
        o = ctx.call(P, "p_com", s)
    else:
        c = [ctx.rng.randrange(ref.CH) for _ in range(2)]
        tag = "session " + s
        twice = ctx.ch.chance(60)
        if twice:
            ctx.fault("machine-rolled-back")
            a = ctx.call(P, "p_resp_rolled_back", s, str(c[1]))
        o = ctx.call(P, "p_resp", s, str(c[0]))
        if o.ok:
            pre, resp = wire.dec(t["pre"]), wire.dec(o.value)
            con = book.transcript(norm, c[0], resp, pre, tag)
            if twice and a.ok:
                book.pair(con, (c[0], resp), (c[1], wire.dec(a.value)), tag)
        return True
    if not o.ok:
        ctx.probe("session-failed")
    return not o.ok


def issuance(ctx):
    """Randomness of users and issuers."""
    ch = ctx.ch
    I, U = ctx.host("I"), ctx.host("U", remote=ch.chance(15))
    q = ref.group("G1").q
    sk, pk = world.make_key(ctx.rng, 3)
    if not ctx.call(I, "keyload", "k", sk["gamma"], pk).ok or not ctx.call(U, "creator", "c0", pk).ok:
        raise core.Discard("no key")
    nonce, blind, sign = Pool("nonce"), Pool("blinding"), Pool("signature-randomness")
    msgs = [str(ctx.rng.randrange(q)) for _ in range(2)]
    creators = 1
    ctx.sample = "issuance"
    try:
        for i in range(4 + ch.draw(5)):
            if ch.chance(20):
                ctx.fault("prng-state-reset")
                ctx.call(ch.pick([I, U]), "prng_reset")
            if ch.chance(15):
                ctx.fault("crash-restart")
                h = ch.pick([I, U])
                h.crash()
                if h is I:
                    ctx.call(I, "keyload", "k", sk["gamma"], pk)
                else:
                    creators = 1
                    ctx.call(U, "creator", "c0", pk)
            if ch.chance(30):
                ctx.call(U, "creator", "c%d" % creators, pk)
                creators += 1
            c = "c%d" % ch.draw(creators)
            if ch.chance(30):
                ctx.fault("machine-copied")
                o = ctx.call(U, "in_copy", "salt%d" % i, "request", c, msgs)
                if o.ok:
                    request(nonce, o.value, None, msgs, "copied request %d" % i)
            o = ctx.call(U, "request", c, msgs)
            if not o.ok:
                continue
            req = o.value
            if ch.chance(30):
                ctx.fault("machine-copied")
                o = ctx.call(I, "in_copy", "salt%d" % i, "sign", "k", req)
                if o.ok:
                    signed(sign, o.value, "copied signature %d" % i)
            o = ctx.call(I, "sign", "k", req)
            if not o.ok:
                continue
            s2 = signed(sign, o.value, "signature %d" % i)
            o = ctx.call(U, "obtain", c, o.value)
            if not o.ok:
                continue
            s1 = (int(o.value["s"]) - s2) % q
            blind.add(q, s1, "s1 of request %d" % i)
            request(nonce, req, s1, msgs, "request %d" % i)
        nonce.ratios()
        blind.ratios()
        sign.ratios()
    except Weak as e:
        ctx.fail(e.cls, "%s, issuance" % e.msg)
    ctx.probe("issuance-values", nonce.n + blind.n + sign.n)


def signed(pool, data, tag):
    _, e, s = wire.dec(data)
    q = ref.group("G1").q
    pool.add(q, int(e) % q, "e of " + tag)
    pool.add(q, int(s) % q, "s of " + tag)
    return int(s)


def request(pool, data, s1, msgs, tag):
    _, raw = wire.dec(data)
    c, resp, _, _ = wire.parts(raw if isinstance(raw, str) else raw.hex())
    q = ref.group("G1").q
    vals = [s1] + [int(x) for x in msgs]
    for i, (r, v) in enumerate(zip(resp, vals)):
        if v is not None:
            pool.add(q, (int(r) - int(c) * v) % q, "%d of %s" % (i, tag))
