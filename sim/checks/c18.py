"""C18 Acceptance implies knowledge: a rewound prover yields the secrets.

A prover's machine is rolled back to the moment when the challenge arrives and answers another one; the
pair of conversations, when accepted, must give up values that satisfy the statement.  The same for
dishonest provers that answer two challenges."""

from sim import common, core, ref, sound, wire, world

QUICK, THOROUGH = 1100, 60000
PEER = True
RULE = ("A random statement, a prover (the library's, rolled back by copying its whole process at the moment when the "
        "challenge arrives, or a dishonest one), and two verifiers whose coins give a pair of related or unrelated "
        "challenges. Where both accept, the extractor must find values that satisfy the statement; for an honest prover, "
        "its own.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


class Fails(Exception):
    pass


def derive(n, con, t1, t2, pre, vals, found):
    """Values for the statement `n` (a normal tree) from two conversations; raises Fails."""
    (c1, r1), (c2, r2) = t1, t2
    k = n["k"]
    try:
        if k == "and":
            for i, s in enumerate(n["subs"]):
                derive(s, con.subs[i], (c1, r1[i]), (c2, r2[i]), None if pre is None else pre[i], vals, found)
            return
        if k == "or":
            done = False
            for i, (x1, a, x2, b) in enumerate(zip(r1[0], r1[1], r2[0], r2[1])):
                if ref.toint(x1) != ref.toint(x2):
                    derive(n["subs"][i], con.subs[i], (int(x1), a), (int(x2), b), None if pre is None else pre[i], {}, found)
                    done = True
            if not done:
                raise Fails("no clause of %s with two challenges" % con.path)
            return
        if k == "p2":
            p2(n, con, t1, t2, pre, vals)
        else:
            ref.extract(con, t1, t2, vals)
    except ref.Invalid as e:
        raise Fails("%s: %s" % (con.path, e))
    names = set(world.secret_order(n))
    mine = {x: v for x, v in vals.items() if x in names or x.startswith(con.path + ":")}
    sigs = {}
    if k == "dlne":
        q = ref.group(n["g"]).q
        a, b = vals[con.path + ":alpha"], vals[con.path + ":beta"]
        if b % q == 0:
            raise Fails("%s: beta is zero" % con.path)
        x = -a * pow(b, -1, q) % q
        if n.get("bind") and (x - vals[n["x"]]) % q:
            raise Fails("%s: two values" % con.path)
        mine = dict(mine)
        mine[n["x"]] = vals[n["x"]] = x
    elif k == "bbs":
        g1 = ref.group("G1")
        p = con.path
        vs = list(n["vars"]) if n.get("binding", True) else [p + ":e", p + ":s"] + list(n["vars"])
        A2 = ref.as_ref(g1, ref.getpre(pre, "A2"))
        A = g1.add(A2, g1.mul(-vals[p + ":r1"], ref.cpt("G1", n["pk"]["gens"][2])))
        sigs["it"] = {"A": ref.hx("G1", A), "e": vals[vs[0]], "s": vals[vs[1]]}
        n = dict(n, sig="it")
        found["sig" + p] = sigs["it"]
    ok = ref.truth(con, vals) if k == "cust" else sound.leaf_true(n, mine, sigs)
    if not ok:
        raise Fails("%s: the values found do not satisfy %s" % (con.path, world.describe(n)))
    for x in names:
        if x in vals:
            found.setdefault(x, []).append(vals[x])


def p2(n, con, t1, t2, pre, vals):
    (c1, r1), (c2, r2) = t1, t2
    grp = ref.group(n["g"])
    q = grp.q
    bits, path = con.subs, con.path
    if con.kind != "and":
        # a single bit is not wrapped
        bits, path, r1, r2 = [con], con.path[:-2], [r1], [r2]
    x = r = 0
    for i, (b, a1, a2) in enumerate(zip(bits, r1, r2)):
        for j in (0, 1):
            u, w = ref.toint(a1[0][j]), ref.toint(a2[0][j])
            if u != w:
                one = {}
                ref.extract(b.subs[j], (u, a1[1][j]), (w, a2[1][j]), one)
                if not ref.truth(b.subs[j], one):
                    raise Fails("%s: bit %d" % (con.path, i))
                x += j << i
                r += one["%s:r%d" % (path, i)] << i
                break
        else:
            raise Fails("%s: bit %d has no two challenges" % (con.path, i))
    vals[n["x"]] = (x - int(n.get("off", 0))) % q
    vals[n["r"]] = (r - ref.toint(ref.getpre(pre, "rand"))) % q


def challenges(ctx, norm):
    """What the two verifiers' coins show."""
    ch, rng = ctx.ch, ctx.rng
    c = ch.weighted([(None, 3), (0, 1), (1, 1), ("max", 1), ("random", 3), ("half", 1)])
    how = ch.weighted([("bit", 5), ("other", 3), ("order", 2), ("next", 1), ("negative", 1)])
    qs = sorted({ref.group(n["g"]).q for _, n in sound.walk(norm) if "g" in n}) or [ref.group("G1").q]
    q = ch.pick(qs)
    bit = ch.draw(1 << 10)
    other = rng.getrandbits(600)
    first = []

    def one(n):
        v = {None: None, 0: 0, 1: 1 % n, "max": n - 1, "random": other % n, "half": n >> 1}[c]
        if v is None:
            v = rng.randrange(n)
        first.append(v)
        return v

    def two(n):
        v = first[0]
        if how == "bit":
            return (v ^ 1 << bit % max(1, (n - 1).bit_length())) % n
        if how == "order" and v + q < n:
            return v + q
        if how == "order" and v - q >= 0:
            return v - q
        if how == "next":
            return (v + 1) % n
        if how == "negative" and 2 * v % n:
            return -v % n
        return rng.randrange(n)

    ctx.probe("challenges-" + how)
    return one, two


def run(ctx):
    ctx.no_edges()
    if ctx.ch.chance(65):
        honest(ctx)
    else:
        dishonest(ctx)


def honest(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=12, kinds=[("dl", 10), ("dlne", 4), ("range", 2), ("cust", 4), ("p2", 2), ("bbs", 0)])
    norm = ref.normal(c["tree"])
    P = ctx.host("P", remote=ch.chance(10))
    V = ctx.host("V")
    if not common.build_prover(ctx, P, "st", c).ok or not all(common.build_verifier(ctx, V, h, c["tree"]).ok for h in ("a", "b")):
        raise core.Discard("building")
    from sim.env import ENTROPY

    for i in range(1 + ch.draw(2)):
        s = "s%d" % i
        if not ctx.call(P, "p_new", s, "st").ok:
            raise core.Discard("no prover")
        pre, com = ctx.call(P, "p_pre", s), ctx.call(P, "p_com", s)
        if not (pre.ok and com.ok):
            raise core.Discard("no commitment")
        cs = []
        for h, coin in zip("ab", challenges(ctx, norm)):
            ctx.call(V, "v_new", s + h, h)
            o = ctx.call(V, "v_pre", s + h, pre.value)
            if not o.ok:
                raise core.Discard("precommitment refused")
            ENTROPY.script["V"] = [coin]
            o = ctx.call(V, "v_com", s + h, com.value)
            ENTROPY.script["V"] = []
            if not o.ok:
                raise core.Discard("commitment refused")
            cs.append(int(o.value))
        if cs[0] == cs[1]:
            continue
        ctx.fault("machine-rolled-back")
        order = ch.draw(2)
        resp = [None, None]
        o = ctx.call(P, "p_resp_rolled_back", s, str(cs[order]))
        resp[order] = o
        resp[1 - order] = ctx.call(P, "p_resp", s, str(cs[1 - order]))
        verdicts = []
        for h, r in zip("ab", resp):
            if not r.ok:
                ctx.fail("rolled-back-prover-fails", "%r" % r)
            v = ctx.call(V, "v_resp", s + h, r.value)
            if not v.accepted:
                ctx.fail("second-answer-refused", "%r for %s" % (v, ctx.sample))
        d = [wire.dec(r.value) for r in resp]
        p = wire.dec(pre.value)
        found = {}
        try:
            con = ref.expand(norm, p)
            ref.consistent(con, d[0], {})
            ref.consistent(con, d[1], {})
            derive(norm, con, (cs[0], d[0]), (cs[1], d[1]), p, {}, found)
        except (Fails, ref.Invalid) as e:
            ctx.fail("nothing-extracted", "%s, challenges %d and %d, %s" % (e, cs[0], cs[1], ctx.sample))
        for name, vs in found.items():
            if name.startswith("sig"):
                continue
            q = int(c["secrets"][name]["q"])
            for v in vs:
                if (v - int(c["secrets"][name]["v"])) % q:
                    ctx.fail("other-value-extracted", "%s of %s" % (name, ctx.sample))
        if found:
            ctx.probe("extracted", len(found))


def dishonest(ctx):
    ch = ctx.ch
    g = world.Gen(ch, pairing=6, max_leaves=4, depth=ch.draw(3), edge_values=False,
                  kinds=[("dl", 8), ("dlne", 4), ("cust", 3), ("p2", 2), ("bbs", 0), ("range", 1)])
    tree = g.tree(true=ch.chance(40))
    norm = ref.normal(tree)
    ctx.sample = world.describe(tree)
    ctx.event("case", "dishonest " + ctx.sample)
    wit = g.witness()
    if ch.chance(40):
        # some value is not known
        for x in ch.subset(sorted(wit), 40):
            wit[x] = ctx.rng.randrange(1 << 128)
    val = sound.evaluate(norm, wit, g.sigs)
    V, A = ctx.host("V"), ctx.host("A")
    if not all(common.build_verifier(ctx, h, s, tree).ok for h, s in ((V, "a"), (V, "b"), (A, "a"), (A, "b"))):
        raise core.Discard("building")
    from sim.env import ENTROPY

    for i in range(2):
        pl = sound.make_plan(ctx, norm, wit, g.sigs, val)
        if ch.chance(30):
            live = sorted(pl.choose)
            if live:
                how = ch.pick(ref.BIASES)
                pl.bias[ch.pick(live)] = (how, ch.draw(128))
                pl.note("sum-" + how)
        try:
            at = sound.Attack(ctx, V, A, "a", norm, wit, g.sigs, pl)
            at.start()
        except ref.Invalid:
            ctx.probe("attack-not-assembled")
            continue
        for x in sorted(set(pl.names)):
            ctx.fault("attack-" + x)
        cs, rs, ok = [], [], True
        for h, coin in zip("ab", challenges(ctx, norm)):
            s = "%s%d" % (h, i)
            ctx.call(V, "v_new", s, h)
            if at.pre is not None:
                if not ctx.call(V, "v_pre", s, wire.enc(at.pre)).ok:
                    ok = False
                    break
                A.call("v_new", s, h)
                A.call("v_pre", s, wire.enc(at.pre))
            o = A.call("id", h)
            if not o.ok:
                ok = False
                break
            ENTROPY.script["V"] = [coin]
            o = ctx.call(V, "v_com", s, wire.enc((bytes.fromhex(o.value), at.com)))
            ENTROPY.script["V"] = []
            if not o.ok:
                ok = False
                break
            cs.append(int(o.value))
            try:
                data = wire.enc(at.respond(cs[-1]))
            except Exception:
                ok = False
                break
            o = ctx.call(V, "v_resp", s, data)
            if o.kind == "hang":
                ctx.fail("hang", pl.name)
            if not o.accepted:
                ok = False
                break
            rs.append(wire.dec(data))
        if not ok or cs[0] == cs[1]:
            continue
        ctx.probe("dishonest-accepted-twice")
        try:
            derive(norm, ref.expand(norm, at.pre, lax=True), (cs[0], rs[0]), (cs[1], rs[1]), at.pre, {}, {})
        except (Fails, ref.Invalid) as e:
            ctx.fail("accepted-twice-nothing-extracted", "%s by %s, %s" % (e, pl.name, ctx.sample))
