"""C12 Blind issuance yields valid signatures on exactly what was committed.

Users and issuers exchange issuance messages over a faulty network with a meddler on it; both sides crash
and restart, users retry, reuse their creator objects and mix blinded and open issuance."""

from sim import common, core, ref, sound, wire, world

QUICK, THOROUGH = 400, 40000
PEER = True
RULE = ("One or two issuers (with the same public generators), one to three users with one to three message lists each, "
        "a network that loses, delays, duplicates and reorders, a meddler that alters requests and replies or swaps parts of "
        "them between users, crashes and restarts on both sides; and requests for commitments that nobody can open.")
ASSUMPTIONS = ["BBS+ signatures cannot be forged", "the meddler cannot compute discrete logarithms"]


def preload():
    world.mk_gens(8)
    world.gens("G1")


def g1():
    return ref.group("G1")


def some_message(ch, rng):
    q = g1().q
    c = ch.weighted([("small", 5), ("random", 5), ("zero", 2), ("one", 1), ("max", 1), ("q", 1), ("neg", 1), ("big", 1)])
    return {"small": lambda: 2 + ch.draw(9), "random": lambda: rng.randrange(1, q), "zero": lambda: 0, "one": lambda: 1,
            "max": lambda: q - 1, "q": lambda: q + ch.draw(3), "neg": lambda: -1 - ch.draw(9), "big": lambda: rng.getrandbits(400)}[c]()


def near_lists(ctx, msgs, limit):
    """Lists that could be mistaken for `msgs`."""
    ch, rng, q = ctx.ch, ctx.rng, g1().q
    out = [list(msgs)]
    for _ in range(2):
        m = list(msgs)
        how = ch.pick(["plus", "swap", "drop", "append", "append-zero", "front", "mod", "neg", "rotate", "dup", "zero", "empty",
                       "random", "too-many"])
        i = ch.draw(len(m)) if m else 0
        if how == "plus" and m:
            m[i] += ch.pick([1, -1, 1 << 62, 1 << 64, 1 << 128, 1 << 255])
        elif how == "swap" and len(m) > 1:
            j = (i + 1) % len(m)
            m[i], m[j] = m[j], m[i]
        elif how == "drop":
            m = m[:-1]
        elif how == "append":
            m = m + [1 + ch.draw(3)]
        elif how == "append-zero":
            m = m + [0]
        elif how == "front":
            m = m[1:]
        elif how == "mod" and m:
            m[i] += ch.pick([q, -q, 2 * q])
        elif how == "neg" and m:
            m[i] = -m[i]
        elif how == "rotate":
            m = m[1:] + m[:1]
        elif how == "dup":
            m = m + m[-1:]
        elif how == "zero" and m:
            m[i] = 0
        elif how == "empty":
            m = []
        elif how == "random" and m:
            m[i] = rng.randrange(q)
        elif how == "too-many":
            m = (m + [0] * 20)[:limit] + [ch.draw(2)]
        out.append(m)
    return out


def same(a, b):
    """Equal up to trailing zeros and reduction."""
    q = g1().q
    a, b = [x % q for x in a], [x % q for x in b]
    n = max(len(a), len(b))
    return a + [0] * (n - len(a)) == b + [0] * (n - len(b))


def run(ctx):
    ctx.no_edges()
    if ctx.ch.chance(25):
        unopenable(ctx)
    else:
        issuance(ctx)


# --- honest users, faulty world --------------------------------------------------------------------


class Meddler:
    """Sees every message; damages some of them in ways that keep them readable."""

    def __init__(self, ctx, rate):
        self.ctx, self.rate = ctx, rate
        self.seen = {"req": [], "sig": []}

    def handle(self, msg):
        ctx, ch = self.ctx, self.ctx.ch
        kind = msg[0]
        if kind not in self.seen:
            return msg
        old = self.seen[kind]
        new = msg
        if ch.chance(self.rate):
            data = getattr(self, kind)(wire.dec(msg[2]), ch.pick(old)[2] if old else None)
            if data is not None:
                new = (msg[0], msg[1], data) + tuple(msg[3:])
        old.append(msg)
        return new

    def req(self, d, other):
        ctx, ch = self.ctx, self.ctx.ch
        com, proof = d
        o = wire.dec(other) if other else None
        how = ch.pick(["swap-proof", "swap-com", "whole", "maul", "maul", "field", "no-proof", "bytes", "double", "negative"])
        i = ch.draw(3)
        gen = ref.cpt("G1", world.mk_gens(4)[1 + i])
        pts = ctx.hosts["mid"].points("own")
        G = g1()
        if how in ("swap-proof", "swap-com", "whole") and o:
            out = {"swap-proof": [com, o[1]], "swap-com": [o[0], proof], "whole": o}[how]
        elif how == "maul":
            # another commitment, with responses shifted to fit the same challenge
            k = ch.pick([1, -1, 5, ctx.rng.randrange(1, G.q)])
            com2 = pts.wrap("G1", G.add(ref.as_ref(G, com), G.mul(k, gen)))
            out = [com2, proof]
            if proof is not None:
                p = wire.parts(proof.hex())
                if i < len(p[1]):
                    p[1][i] = ref.bn((int(p[1][i]) + int(p[0]) * k) % G.q)
                if ch.draw(2):
                    # the identity of the new statement
                    p[3] = self.identity(com2, len(p[1])) or p[3]
                out[1] = bytes.fromhex(wire.unparts(p))
        elif how in ("double", "negative"):
            k = 2 if how == "double" else -1
            com2 = pts.wrap("G1", G.mul(k, ref.as_ref(G, com)))
            out = [com2, proof]
            if proof is not None:
                p = wire.parts(proof.hex())
                p[1] = [ref.bn(int(r) * k % G.q) for r in p[1]]
                if ch.draw(2):
                    p[0] = ref.bn(int(p[0]) * pow(k, -1, G.q) % G.q)
                p[3] = self.identity(com2, len(p[1])) or p[3]
                out[1] = bytes.fromhex(wire.unparts(p))
        elif how == "field" and proof is not None:
            p = wire.parts(proof.hex())
            j = ch.draw(len(p[1]))
            if ch.draw(2):
                p[1][j] = ref.bn((int(p[1][j]) + 1 + ch.draw(5)) % G.q)
            else:
                p[1] = p[1][:j] if ch.draw(2) else p[1] + [ref.bn(ch.draw(2))]
            out = [com, bytes.fromhex(wire.unparts(p))]
        elif how == "no-proof":
            out = [com, None]
        elif how == "bytes" and proof is not None:
            out = [com, bytes.fromhex(core.corrupt_hex(ch, proof.hex()))]
        else:
            return None
        ctx.fault("request-" + how)
        return wire.enc(out)

    def identity(self, com, n):
        mid = self.ctx.hosts["mid"]
        tree = ref.dl("G1", com.export().hex(), [["t%d" % i, x] for i, x in enumerate(world.mk_gens(n + 1)[1: n + 1])])
        if not mid.call("build", "t", tree).ok:
            return None
        o = mid.call("id", "t")
        return bytes.fromhex(o.value) if o.ok else None

    def sig(self, d, other):
        ctx, ch = self.ctx, self.ctx.ch
        A, e, s = d
        G = g1()
        o = wire.dec(other) if other else None
        how = ch.pick(["A", "e", "s", "swap", "A-from", "e-from", "s-from", "inf", "negative", "shift"])
        pts = ctx.hosts["mid"].points("own")
        k = 1 + ch.draw(5)
        if how == "A":
            A = A + pts.wrap("G1", G.mul(k, ref.cpt("G1", world.mk_gens(3)[ch.draw(3)])))
        elif how == "e":
            e = ref.bn((int(e) + k) % G.q)
        elif how == "s":
            s = ref.bn((int(s) + k) % G.q)
        elif how == "swap" and o:
            A, e, s = o
        elif how == "A-from" and o:
            A = o[0]
        elif how == "e-from" and o:
            e = o[1]
        elif how == "s-from" and o:
            s = o[2]
        elif how == "inf":
            A = pts.wrap("G1", G.inf)
        elif how == "negative":
            A = -1 * A
        elif how == "shift":
            e, s = s, e
        else:
            return None
        ctx.fault("reply-" + how)
        return wire.enc([A, e, s])


def issuance(ctx):
    ch = ctx.ch
    calm = ch.chance(15)
    k = core.Kernel(ctx, core.Net())
    if not calm:
        k.net = core.Net(drop=ch.pick([0, 10, 30]), dup=ch.pick([0, 10, 40]), dmin=1, dmax=ch.pick([1, 10, 60, 200]))
    horizon = 1 if calm else 100 + ch.draw(400)
    ctx.host("mid")
    med = Meddler(ctx, 0 if calm else ch.pick([0, 15, 40]))
    n_iss = ch.weighted([(1, 2), (2, 2)])
    n_usr = 1 + ch.draw(3)
    keys = {}
    requests = {}  # request bytes -> (issuer, blinded, messages)
    honest = {}    # commitment (hex) -> messages
    stop_meddling = [calm]

    plain_send = k.send

    def send(src, to, msg):
        if not stop_meddling[0]:
            msg = med.handle(msg)
        plain_send(src, to, msg)

    k.send = send

    # keys are made before the faults begin
    for i in range(n_iss):
        name = "I%d" % i
        H = ctx.host(name, remote=ch.chance(10))
        limit = 1 + ch.draw(4)
        o = ctx.call(H, "keygen", "k", limit)
        pk = common.honest(ctx, o, "key generation", "issuance-step-failed")
        sk = ctx.call(H, "keysecret", "k").value
        G2 = ref.group("G2")
        if pk["w"] != ref.hx("G2", G2.mul(int(sk), ref.cpt("G2", pk["h0"]))) or len(pk["gens"]) != limit + 2 or len(set(pk["gens"])) != limit + 2:
            ctx.fail("bad-key", "w is not gamma h0, or generators are wrong")
        keys[name] = (H, sk, pk, limit)

    replies = {}   # (issuer, request id, user) -> set of replies (bytes)

    def issuer(name):
        H, sk, pk, limit = keys[name]

        def program(a):
            a.durable["boots"] = a.durable.get("boots", 0) + 1
            if a.durable["boots"] > 1:
                common.honest(ctx, ctx.call(H, "keyload", "k", sk, pk), "loading the key")
            while True:
                m = yield ("recv", None)
                src, kind, rid, data, open_ = m[:5]
                if kind != "req":
                    continue
                try:
                    com, proof = wire.dec(data)
                    chex = com.export().hex()
                except Exception:
                    continue
                if open_ is None:
                    o = ctx.call(H, "blind_ok", "k", data)
                    if o.kind == "hang":
                        ctx.fail("hang", "verify_blinding")
                    known = chex in honest
                    if o.accepted and not known:
                        ctx.fail("unopened-commitment-accepted", "a commitment that no user made was accepted")
                    if not o.accepted and requests.get(data, ())[:2] == (name, True):
                        ctx.fail("honest-request-refused", "%r" % o)
                    if o.accepted and requests_by_proof.get(proof, chex) != chex:
                        ctx.fail("unopened-commitment-accepted", "the proof was made for another commitment")
                    ctx.probe("request-accepted" if o.accepted else "request-refused")
                    if not o.accepted:
                        continue
                else:
                    # the messages are open: the issuer makes the product itself
                    c = "own%d" % k.waits
                    common.honest(ctx, ctx.call(H, "creator", c, pk), "creator", "issuance-step-failed")
                    o = ctx.call(H, "request", c, open_, zkp=False)
                    if not o.ok or wire.dec(o.value)[0].export().hex() != chex:
                        if o.ok and requests.get(data) == (name, False, list(open_)):
                            ctx.fail("open-commitment-differs", "%s" % open_)
                        continue
                    ctx.probe("open-request-accepted")
                o = ctx.call(H, "sign", "k", data)
                reply = common.honest(ctx, o, "signing", "issuance-step-failed")
                replies.setdefault((name, rid, src), {})[reply] = chex
                a.send(src, "sig", rid, reply)
        return program

    requests_by_proof = {}
    T = 50

    def user(uname, H):
        def program(a):
            d = a.durable
            d["boots"] = d.get("boots", 0) + 1
            n = 0
            creators = {}
            stale = []
            while d.setdefault("task", 0) < len(d["tasks"]):
                iname, msgs, blind = d["tasks"][d["task"]]
                iH, sk, pk, limit = keys[iname]
                c = iname if ch.chance(70) else "%s.%d" % (iname, n)
                if c not in creators:
                    common.honest(ctx, ctx.call(H, "creator", c, pk, mode=ch.weighted(common.MODES)), "creator", "issuance-step-failed")
                    creators[c] = True
                cur = None
                while True:
                    n += 1
                    if cur is None or ch.chance(50):
                        if ch.chance(25):
                            # an attempt that is given up
                            ctx.fault("request-abandoned")
                            L = ch.pick(near_lists(ctx, msgs, limit))
                            o = ctx.call(H, "request", c, [str(x) for x in L], zkp=bool(ch.draw(2)))
                            if len(L) > limit:
                                overlong(o, L, c, sk, pk, limit)
                        o = ctx.call(H, "request", c, [str(x) for x in msgs], zkp=blind)
                        data = common.honest(ctx, o, "request for %d messages, key for %d" % (len(msgs), limit), "issuance-step-failed")
                        com, proof = wire.dec(data)
                        chex = com.export().hex()
                        cur = ("%s.%d.%d" % (uname, d["boots"], n), data, chex)
                        requests[data] = (iname, blind, [str(x) for x in msgs])
                        if proof is not None:
                            requests_by_proof[proof] = chex
                        if chex in honest and blind and not same(honest[chex], msgs):
                            ctx.fail("commitments-collide", "%s and %s" % (honest[chex], msgs))
                        honest[chex] = msgs
                    rid, data, chex = cur
                    a.send(iname, "req", rid, data, None if blind else [str(x) for x in msgs])
                    until = k.now + T * a.rate // 100
                    got = None
                    while got is None:
                        m = yield ("recv", max(1, (until - k.now) * 100 // a.rate))
                        if m is None:
                            break
                        if m[1] != "sig":
                            continue
                        if m[2] != rid or m[0] != iname:
                            stale.append(m)
                            if ch.chance(50):
                                # taken for the current one by mistake
                                late(m, c, pk, msgs, limit)
                            continue
                        got = m
                    if got is None:
                        ctx.probe("retry")
                        yield ("sleep", 1 + ch.draw(20))
                        continue
                    if finish(got, rid, chex, c, iname, msgs, pk, limit, uname):
                        break
                d["task"] += 1
                yield ("sleep", 1 + ch.draw(20))
            d["done"] = True

        def late(m, c, pk, msgs, limit):
            ctx.fault("reply-of-another-request")
            o = ctx.call(H, "obtain", c, m[3])
            if o.ok:
                compare(o.value, pk, msgs, limit, None)

        def overlong(o, L, c, sk, pk, limit):
            """More messages than the key has generators for."""
            ctx.probe("overlong-refused" if not o.ok else "overlong-taken")
            if not o.ok:
                return
            mid = ctx.hosts["mid"]
            ctx.call(mid, "keyload", "k", sk, pk)
            s = ctx.call(mid, "sign", "k", o.value)
            s = ctx.call(H, "obtain", c, s.value) if s.ok else s
            if s.ok:
                for i in range(limit + 1):
                    if sound.sig_valid(pk, s.value, L[:i]) and not same(L, L[:i]):
                        ctx.fail("signature-covers-wrong-messages", "%s instead of %s" % (L[:i], L))

        def compare(sig, pk, msgs, limit, want):
            """The library's verdict on some lists, under some keys, against the reference's."""
            lists = near_lists(ctx, msgs, limit)
            for L in lists:
                mine = sound.sig_valid(pk, sig, L)
                o = ctx.call(H, "sig_ok", pk, sig, [str(x) for x in L], mode=ch.weighted(common.MODES))
                if o.kind == "hang":
                    ctx.fail("hang", "verify_signature")
                if o.accepted and not mine:
                    ctx.fail("signature-verifies-for-wrong-messages", "%s, asked for %s" % (msgs, L))
                if mine and o.ok and not o.value:
                    ctx.fail("valid-signature-refused", "%s" % L)
                if mine and want is not None and not same(L, want):
                    ctx.fail("signature-covers-wrong-messages", "%s instead of %s" % (L, want))
                ctx.probe("lists-compared")
            other = [x[2] for x in keys.values() if x[2] != pk]
            if other:
                o = ctx.call(H, "sig_ok", other[0], sig, [str(x) for x in msgs])
                if o.accepted and not sound.sig_valid(other[0], sig, msgs):
                    ctx.fail("signature-verifies-under-another-key", "%s" % msgs)
                ctx.probe("other-key-compared")

        def finish(m, rid, chex, c, iname, msgs, pk, limit, uname):
            sent = replies.get((iname, rid, uname), {}).get(m[3])
            o = ctx.call(H, "obtain", c, m[3])
            if sent is None or sent != chex:
                # altered on the way, or for an altered request
                ctx.probe("bad-reply")
                if not o.ok:
                    return False
                ok = sound.sig_valid(pk, o.value, msgs)
                compare(o.value, pk, msgs, limit, msgs if ok else None)
                return ok
            sig = common.honest(ctx, o, "obtaining", "issuance-step-failed")
            if not sound.sig_valid(pk, sig, msgs):
                ctx.fail("issued-signature-invalid", "%s (key for %d)" % (msgs, limit))
            v = ctx.call(H, "sig_ok", pk, sig, [str(x) for x in msgs])
            if not v.accepted:
                ctx.fail("issued-signature-refused", "%s (key for %d): %r" % (msgs, limit, v))
            compare(sig, pk, msgs, limit, msgs)
            ctx.probe("issued")
            return True

        return program

    for name in keys:
        k.actor(name, issuer(name), keys[name][0])
    users = []
    desc = []
    for i in range(n_usr):
        uname = "U%d" % i
        H = ctx.host(uname, remote=ch.chance(15))
        tasks = []
        for _ in range(1 + ch.draw(3)):
            iname = ch.pick(sorted(keys))
            limit = keys[iname][3]
            n = ch.weighted([(1 + ch.draw(limit), 6), (limit, 3), (0, 1)])
            tasks.append((iname, [some_message(ch, ctx.rng) for _ in range(n)], not ch.chance(30)))
        desc.append(",".join("%s:%d%s" % (t[0], len(t[1]), "b" if t[2] else "o") for t in tasks))
        users.append(k.actor(uname, user(uname, H), H, durable={"tasks": tasks}))
    ctx.sample = "issuers %s, users %s" % ([x[3] for x in keys.values()], desc)
    ctx.event("case", ctx.sample)
    if not calm:
        for a in k.actors.values():
            a.rate = ch.pick([100, 100, 50, 200])
        k.plan(horizon, [(n, ch.weighted([(0, 3), (1, 3), (2, 1)])) for n in list(k.actors)],
               partitions=ch.weighted([(0, 2), (1, 2)]))

        def mark():
            stop_meddling[0] = True

        k.after(horizon, mark)
    for a in list(k.actors.values()):
        a.start()
    k.run(until=30000, max_steps=6000, stop=lambda: all(u.durable.get("done") for u in users))
    for u in users:
        if not u.durable.get("done"):
            ctx.fail("issuance-never-ends", "%s still at task %d after %d ms" % (u.name, u.durable.get("task", 0), k.now))


# --- requests without an opening -------------------------------------------------------------------


def unopenable(ctx):
    """The commitment contains a point nobody knows an opening of."""
    ch, rng = ctx.ch, ctx.rng
    G = g1()
    H, U, A = ctx.host("I0", remote=ch.chance(10)), ctx.host("U"), ctx.host("A")
    n = 1 + ch.draw(4)
    sk, pk = world.make_key(rng, n)
    ctx.call(H, "keyload", "k", sk["gamma"], pk)
    ctx.call(U, "creator", "c", pk)
    ctx.sample = "unopenable, key for %d" % n
    ctx.event("case", ctx.sample)
    pts = A.points("own")
    for i in range(3):
        X = ref.cpt("G1", ch.pick([pk["gens"][0], world.gens("G1")[ch.draw(8)]]))
        m = ch.weighted([(n, 3), (ch.draw(n + 1), 2)]) + 1  # terms
        vals = [rng.randrange(G.q) for _ in range(m)]
        bases = [ref.cpt("G1", x) for x in pk["gens"][1: m + 1]]
        com = G.add(G.mul(ch.pick([1, -1, rng.randrange(1, G.q)]), X), ref.lincomb(G, list(zip(vals, bases))))
        com = pts.wrap("G1", com)
        tree = ref.dl("G1", com.export().hex(), [["t%d" % j, x] for j, x in enumerate(pk["gens"][1: m + 1])])
        how = ch.weighted([("prover", 4), ("simulated", 3), ("stolen", 2), ("malformed", 3), ("chosen", 2)])
        ctx.fault("unopenable-" + how)
        if not ctx.call(A, "build", "t%d" % i, tree).ok:
            raise core.Discard("building")
        h = "t%d" % i
        proof = None
        secrets = {"t%d" % j: {"v": str(v), "t": "bn", "how": "dict", "q": str(G.q)} for j, v in enumerate(vals)}
        if how == "prover":
            # the library's prover, with values that do not fit
            ctx.call(A, "build", h + "p", tree, secrets=secrets)
            o = ctx.call(A, "prove", h + "p", message=ch.pick([None, None, "m"]))
            if o.ok:
                proof = o.value
        elif how == "simulated":
            o = ctx.call(A, "simulate", h)
            if o.ok:
                com_, c, resp, pre, sh = wire.dec(o.value)
                proof = wire.unparts([c, resp, pre, ch.pick([sh, bytes.fromhex(A.call("id", h).value)])])
        elif how == "stolen":
            o = ctx.call(U, "request", "c", [str(v) for v in vals[1:]])
            if o.ok:
                p = wire.parts(wire.dec(o.value)[1].hex())
                p[3] = bytes.fromhex(A.call("id", h).value)
                proof = wire.unparts(p)
        else:
            ident = bytes.fromhex(A.call("id", h).value)
            o = A.call("prove", h + "p") if ctx.call(A, "build", h + "p", tree, secrets=secrets).ok else None
            p = wire.parts(o.value) if o is not None and o.ok else [ref.bn(1), [ref.bn(v) for v in vals], None, ident]
            if how == "chosen":
                p[0] = ch.pick([ref.bn(0), ref.bn(G.q), ref.bn(-1), None, ref.bn(1 << 128), 0, ref.bn(2 * G.q)])
            else:
                t = ch.pick(["none", "empty", "short", "long", "nested", "zeros", "bool", "float", "huge"])
                p[1] = {"none": None, "empty": [], "short": p[1][:-1], "long": p[1] + [ref.bn(0)] * (1 + ch.draw(4)), "nested": [p[1]],
                        "zeros": [ref.bn(0)] * len(p[1]), "bool": [True] * len(p[1]), "float": [0.0] * len(p[1]),
                        "huge": [ref.bn(int(x) + G.q) for x in p[1]]}[t]
            try:
                proof = wire.unparts(p)
            except Exception:
                continue
        if proof is None:
            continue
        o = ctx.call(H, "blind_ok", "k", wire.enc([com, bytes.fromhex(proof)]))
        if o.kind == "hang":
            ctx.fail("hang", how)
        if o.accepted:
            ctx.fail("unopened-commitment-accepted", "%s, %d terms" % (how, m))
