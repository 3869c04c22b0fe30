"""C17 Simulated transcripts are consistent but never count as proofs.

Simulators without any secrets make transcripts for machines that check their consistency, and an
intermediary alters them or tries to pass them off as proofs and in sessions."""

from sim import common, core, mutate, ref, wire, world

QUICK, THOROUGH = 900, 60000
PEER = True
RULE = ("A random statement, true or false; its simulation by parties with or without the secrets, fresh or after proofs, for a "
        "free, an edge or a late challenge, checked here and in another process in random order; alterations of every part of "
        "transcripts; transcripts repackaged as proofs (with any challenge, message, missing parts, parts of honest proofs, as "
        "objects with surplus attributes, parts for sub-statements) and played in sessions in any order.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def used(node, pre):
    """The part of a precommitment that the statement looks at."""
    k = node["k"]
    if pre is None or k == "dl":
        return None
    if k in ("and", "or"):
        return tuple(used(s, p) for s, p in zip(node["subs"], pre))
    if k in ("p2", "bbs"):
        return tuple(wire.plain(ref.getpre(pre, x)) for x in (("Cs", "rand") if k == "p2" else ("A1", "A2")))
    return wire.plain(pre)


def trivial(node):
    """Everybody can prove it: it holds for zeros."""
    if node.kind == "dl":
        return node.grp.eq(node.lhs, node.grp.inf)
    return (all if node.kind == "and" else any)(trivial(s) for s in node.subs)


def public_witness(norm, pre):
    try:
        return trivial(ref.expand(norm, pre, lax=True))
    except (ref.Invalid, TypeError):
        return False


class Checker:
    def __init__(self, ctx, norm):
        self.ctx, self.norm = ctx, norm

    def valid(self, tr, base):
        """Whether the altered transcript `tr` still satisfies the verification equation of the statement."""
        com, c, resp, pre, sh = tr
        try:
            if wire.plain(sh) != wire.plain(base[4]) or used(self.norm, pre) != used(self.norm, base[3]):
                return False
            con = ref.expand(self.norm, pre)
            ref.consistent(con, resp, {})
            return ref.same_commitment(con, ref.commitment(con, ref.toint(c), resp), ref.raw_commitment(con, com))
        except (ref.Invalid, TypeError, KeyError, IndexError, AttributeError):
            return False


def run(ctx):
    ch = ctx.ch
    edges = ch.chance(30)
    if not edges:
        ctx.no_edges()
    true = ch.chance(60)
    g, c = common.case(ctx, true=true, pairing=8, max_leaves=5, max_bits=3)
    tree = c["tree"]
    norm = ref.normal(tree)
    slow = common.needs_pairing(tree)
    S = ctx.host("S", remote=ch.chance(20))
    V = ctx.host("V", remote=ch.chance(30))
    simulators = [(S, "st")]
    if not common.build_verifier(ctx, S, "st", tree, prefix="s").ok or not common.build_verifier(ctx, V, "v", tree).ok:
        raise core.Discard("building")
    P, honest = None, []
    if true and ch.chance(60):
        # a prover also simulates, before and after its proofs
        P = ctx.host("P")
        if not common.build_prover(ctx, P, "st", c).ok:
            raise core.Discard("building")
        simulators.append((P, "st"))
    con = Checker(ctx, norm)
    trs = []
    for i in range(2 + ch.draw(2 if slow else 5)):
        act = ch.weighted([("simulate", 5), ("recheck", 2), ("prove", 2), ("restart", 1)])
        if act == "prove" and P:
            o = ctx.call(P, "prove", "st")
            if o.ok:
                honest.append(wire.parts(o.value))
            continue
        if act == "restart" and len(trs):
            h = ch.pick([S, V])
            h.crash()
            ctx.fault("crash-restart")
            common.build_verifier(ctx, h, "st" if h is S else "v", tree)
            continue
        if act == "recheck" and trs:
            expect(ctx, V, ch.pick(trs), "again")
            continue
        H, h = ch.pick(simulators)
        tr = simulate(ctx, H, h, challenge(ctx))
        trs.append(tr)
        expect(ctx, V if ch.chance(70) else H, tr, "first", h if H is not V else "v", H)
    if not trs:
        trs.append(simulate(ctx, S, "st", None))
    easy = any(public_witness(norm, t[3]) for t in trs)
    if easy:
        ctx.probe("holds-for-zeros")
    for i in range(2 + ch.draw(3 if slow else 8)):
        tr = ch.pick(trs)
        if ch.chance(45):
            altered(ctx, V, con, tr, ch.pick(trs))
        elif easy:
            continue
        elif ch.chance(60):
            as_proof(ctx, S, V, tree, norm, tr, ch.pick(trs), honest)
        elif not edges:
            # a verifier's challenge can be guessed if its entropy is at the edge
            session(ctx, S, V, tr, honest)
    # what went wrong in between leaves no trace
    expect(ctx, V, ch.pick(trs), "at last")


def challenge(ctx):
    return ctx.ch.weighted([(None, 4), (str(ctx.rng.randrange(ref.CH)), 3), ("0", 1), ("1", 1), (str(ref.CH - 1), 1),
                            (str(ctx.rng.getrandbits(256)), 1)])


def simulate(ctx, H, h, c):
    o = ctx.call(H, "simulate", h, c)
    ctx.probe("simulated")
    if not o.ok:
        ctx.fail("simulation-refused", "%r of %s" % (o, ctx.sample))
    tr = wire.dec(o.value)
    if c is not None and int(tr[1]) != int(c):
        ctx.fail("other-challenge", "asked for %s, got %s, %s" % (c, int(tr[1]), ctx.sample))
    return tr


def expect(ctx, V, tr, when, h=None, H=None):
    o = ctx.call(V, "sim_check", h if V is H else "v", wire.enc(tr))
    ctx.probe("consistency-checked")
    if not o.accepted:
        ctx.fail("simulation-inconsistent", "%s: %r, %s" % (when, o, ctx.sample))


def altered(ctx, V, con, tr, other):
    ch = ctx.ch
    parts, names = list(tr), []
    if ch.chance(15):
        # parts of two transcripts
        parts = [x if ch.draw(2) else y for x, y in zip(tr, other)]
        names = ["mixed"]
    else:
        for _ in range(ch.weighted([(1, 4), (2, 1)])):
            name, parts = mutate.alter(ch, ctx, parts, list(other))
            names.append(name)
    try:
        data = wire.enc(parts)
        parts = wire.dec(data)
    except Exception:
        return
    ctx.fault("transcript-altered")
    if not isinstance(parts, (list, tuple)) or len(parts) != 5:
        return
    o = ctx.call(V, "sim_check", "v", data)
    if o.kind == "hang":
        ctx.fail("hang", "+".join(names))
    if o.accepted and not con.valid(parts, tr) and not con.valid(parts, other):
        ctx.fail("altered-transcript-consistent", "%s of %s" % ("+".join(names), ctx.sample))
    ctx.probe("altered-accepted" if o.accepted else "altered-refused")


def same(norm, a, b):
    try:
        return wire.canonical(norm, a) == wire.canonical(norm, b)
    except Exception:
        return False


def as_proof(ctx, S, V, tree, norm, tr, other, honest):
    ch = ctx.ch
    com, c, resp, pre, sh = tr
    msg = ch.weighted([(None, 3), ("", 1), ("a", 1)])
    how = ch.weighted([("plain", 2), ("object", 3), ("hash", 3), ("hash-then-simulate", 2), ("honest-parts", 3 if honest else 0),
                       ("lacking", 2), ("part", 2 if tree["k"] in ("and", "or") else 0), ("number", 2), ("twice", 1)])
    ctx.fault("transcript-repackaged")
    h, n = "v", [c, resp, pre, sh]
    if how == "object":
        form = ch.pick(["transcript", "annotated", "bare"])
        x = [com, c, resp, pre, sh]
        if ch.chance(50):
            o = ctx.call(S, "fs", "st", wire.enc([com, pre]), msg or "")
            if o.ok:
                x[1] = ref.bn(int(o.value))
        o = ctx.call(V, "verify_object", "v", wire.enc(x), form, msg)
        how += " " + form
    else:
        if how == "hash":
            o = ctx.call(S, "fs", "st", wire.enc([com, pre]), msg or "")
            if not o.ok:
                return
            n[0] = ref.bn(int(o.value))
        elif how == "hash-then-simulate":
            for _ in range(1 + ch.draw(3)):
                o = ctx.call(S, "fs", "st", wire.enc([com, n[2]]), msg or "")
                if not o.ok:
                    return
                com, *n = simulate(ctx, S, "st", o.value)
                if ch.chance(30):
                    n[2], n[3] = pre, sh
        elif how == "honest-parts":
            q = ch.pick(honest)
            n = [x if ch.draw(2) else y for x, y in zip(q, n)]
            if same(norm, n, q):
                return
        elif how == "lacking":
            for i in range(4):
                if ch.chance(35):
                    n[i] = ch.pick([None, b"", [], ref.bn(0)])
        elif how == "number":
            n[0] = ref.bn(ch.pick([0, 1, int(c) + ref.CH, int(c) - ref.CH, -int(c), int(c) + (1 << 256)]))
        elif how == "twice":
            n = [c, resp, other[3], other[4]]
        elif how == "part":
            i = ch.draw(len(tree["subs"]))
            sub = tree["subs"][i]
            if not ctx.call(S, "build", "sub", world.public(sub), prefix="p").ok or not ctx.call(V, "build", "sub", world.public(sub)).ok:
                return
            p = None if pre is None else pre[i]
            if public_witness(norm["subs"][i], p):
                return
            if tree["style"] == "op" and sub["k"] == tree["k"]:
                return
            ci, ri, mi = (c, resp[i], com[i]) if tree["k"] == "and" else (resp[0][i], resp[1][i], com[i])
            h = "sub"
            o = ctx.call(S, "fs", "sub", wire.enc([mi, p]), msg or "")
            ident = ctx.call(S, "id", "sub")
            if not o.ok or not ident.ok:
                return
            n = [ref.bn(int(o.value)) if ch.draw(2) else ci, ri, p, bytes.fromhex(ident.value)]
        try:
            data = wire.unparts(n)
        except Exception:
            return
        o = ctx.call(V, "verify", h, data, msg)
    if o.kind == "hang":
        ctx.fail("hang", how)
    if o.accepted:
        ctx.fail("simulation-accepted-as-proof", "%s of %s" % (how, ctx.sample))
    ctx.probe("repackaged-" + how.split()[0])


def session(ctx, S, V, tr, honest):
    """A session with the verifier, played from a transcript."""
    ch = ctx.ch
    com, c, resp, pre, sh = tr
    s = "s%d" % ctx.real_ops
    if not ctx.call(V, "v_new", s, "v").ok:
        return
    ctx.fault("transcript-in-session")
    first = pre
    late = ch.chance(25)
    if pre is not None and not late:
        ctx.call(V, "v_pre", s, wire.enc(pre))
    x = [sh, com]
    if ch.chance(15):
        x[0] = ch.pick([None, b"", sh])
    o = ctx.call(V, "v_com", s, wire.enc(tuple(x)))
    told = o.value if o.ok else None
    for _ in range(1 + ch.draw(3)):
        act = ch.weighted([("answer", 4), ("simulate", 4), ("resend", 2), ("pre", 2)])
        if act == "simulate" and told is not None:
            com, _, resp, pre, sh = simulate(ctx, S, "st", told)
            if ch.chance(40) and pre is not None:
                ctx.call(V, "v_pre", s, wire.enc(pre))
        elif act == "resend":
            o = ctx.call(V, "v_com", s, wire.enc((sh, com)))
            told = o.value if o.ok else told
        elif act == "pre" and pre is not None:
            ctx.call(V, "v_pre", s, wire.enc(ch.pick([pre, first])))
        r = resp
        if honest and ch.chance(15):
            r = ch.pick(honest)[1]
        o = ctx.call(V, "v_resp", s, wire.enc(r))
        if o.accepted:
            ctx.fail("simulation-accepted-in-session", "%s, %s" % (act, ctx.sample))
    ctx.probe("sessions")
