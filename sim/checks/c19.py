"""C19 Misuse fails closed and leaves no trace.

A prover machine whose caller asks for what cannot be proved (values missing or wrong, every disjunct marked
as simulated, signature missing or invalid, value out of range) or for an unsupported composition.  An
oracle of three values says what must work, what must not, and what may do either; dishonest provers push
unsupported compositions past the library's own prover; then everything is built again and must work."""

import copy

from sim import common, core, ref, sound, world

QUICK, THOROUGH = 2200, 80000
PEER = True
RULE = ("A random statement with a random misuse of it (secret values withheld, wrong, of another secret or out of range, all "
        "or single parts marked as simulated, signature missing, invalid, of other messages or another issuer), proved and run "
        "as a session several times; or an unsupported composition (secret inside and outside of a disjunction, over groups "
        "of different order, bases of mixed groups) proved by the library and by a dishonest prover. Afterwards statements "
        "from the same points and keys, and the same objects with all values given, must give good proofs.")
ASSUMPTIONS = ["the adversary cannot compute discrete logarithms"]

GOOD, MAYBE, BAD, ABSENT = "good", "maybe", "bad", "absent"


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ctx.no_edges()
    if ctx.ch.chance(65):
        misuse(ctx)
    else:
        unsupported(ctx)


# --- what the caller can prove --------------------------------------------------------------------------


class Caller:
    """What a caller has given: values of secrets, marks, signatures."""

    def __init__(self, secrets, sigs, values):
        self.secrets, self.sigs, self.values = secrets, sigs, values

    def value(self, s):
        i = self.secrets.get(s)
        if i is None or i["how"] == "none" or i["how"] == "dict" and not self.values:
            return None
        return int(i["v"])

    def leaf(self, n):
        k = n["k"]
        if k == "bbs":
            off = 2 if n.get("binding", True) else 0
            names = n["vars"][off:]
        else:
            names = world.secret_order(n)
        vals = {s: self.value(s) for s in names}
        missing = [s for s in names if vals[s] is None]
        if k == "bbs":
            sig = self.sigs.get(n["sig"])
            if sig is None:
                return ABSENT
            if missing:
                return ABSENT
            return GOOD if sound.sig_valid(n["pk"], sig, [vals[s] for s in names]) else BAD
        if k in ("range", "p2"):
            if any(self.secrets[s]["how"] == "dict" for s in names):
                return MAYBE  # these take their values from the secrets, when they are built
            if missing:
                return ABSENT
            return GOOD if in_range(n, vals) else BAD
        if k == "cust" and n["v"] == "or":
            parts = []
            for s, left, base in (("r", "c1", "G"), ("m", "c2", "H")):
                v = vals[n["sec"][s]]
                parts.append(ABSENT if v is None else GOOD if holds(n, left, base, v) else BAD)
            what = either(parts)
            return BAD if what == ABSENT else what  # not asked, as below
        wit = {s: v or 0 for s, v in vals.items()}
        ok = sound.leaf_true(n, wit, {})
        if missing:
            if ok:
                return MAYBE  # anybody can prove it
            # user-defined primitives are not asked whether they know their values
            return BAD if k == "cust" else ABSENT
        return GOOD if ok else BAD

    def status(self, n, disjunct=False):
        if n.get("sim") and disjunct:
            return ABSENT
        what = self.unmarked(n)
        # what a mark means elsewhere is not said
        return MAYBE if n.get("sim") and what == GOOD else what

    def unmarked(self, n):
        if n["k"] == "or":
            return either([self.status(s, True) for s in n["subs"]])
        if n["k"] == "and":
            parts = [self.status(s) for s in n["subs"]]
            return next((x for x in (ABSENT, BAD, MAYBE) if x in parts), GOOD)
        return self.leaf(n)


def either(parts):
    """A disjunction draws among the clauses that are not absent."""
    here = {x for x in parts if x != ABSENT}
    if not here:
        return ABSENT
    return here.pop() if len(here) == 1 else MAYBE


def holds(n, left, base, v):
    g = ref.group(n["g"])
    return g.eq(ref.cpt(n["g"], n["pts"][left]), g.mul(v, ref.cpt(n["g"], n["pts"][base])))


def in_range(n, vals):
    g, gid = ref.group(n["g"]), n["g"]
    x, r = vals[n["x"]], vals[n["r"]]
    com = ref.lincomb(g, [(x, ref.cpt(gid, n["gg"])), (r, ref.cpt(gid, n["hh"]))])
    if not g.eq(com, ref.cpt(gid, n["com"])):
        return False
    return int(n["a"]) <= x < int(n["b"]) if n["k"] == "range" else 0 <= x < 1 << n["n"]


# --- misuse ---------------------------------------------------------------------------------------------


def leaves(tree):
    return [n for _, n in world.walk(tree) if n["k"] not in ("and", "or")]


def spoil(ctx, g, tree, secrets, sigs):
    """One random misuse; its name."""
    ch, rng = ctx.ch, ctx.rng
    lv = leaves(tree)
    how = ch.weighted([("withhold", 4), ("wrong", 5), ("swapped", 1), ("flag-or", 3), ("flag-leaf", 2), ("flag-root", 1),
                       ("sig", 8 if any(x["k"] == "bbs" for x in lv) else 0),
                       ("out-of-range", 3 if any(x["k"] in ("range", "p2") for x in lv) else 0)])
    n = ch.pick(lv)
    names = [s for s in world.secret_order(n) if secrets[s]["how"] != "auto"]
    if how == "withhold":
        for s in ch.pick([[ch.pick(names)], names]):
            secrets[s]["how"] = "none"
    elif how == "wrong":
        s = ch.pick(names)
        q = int(secrets[s]["q"])
        d = ch.pick([1, -1, q - 1, rng.randrange(1, q), 1 << 20])
        secrets[s]["v"] = str(int(secrets[s]["v"]) + d)
        secrets[s]["t"] = "bn"
        if secrets[s]["how"] == "none" or n["k"] not in ("range", "p2") and ch.draw(2):
            secrets[s]["how"] = "embed" if n["k"] in ("range", "p2") else ch.pick(["embed", "dict"])
    elif how == "swapped":
        same = [s for s in secrets if secrets[s]["q"] == secrets[names[0]]["q"] and secrets[s]["how"] != "auto"]
        s, t = names[0], ch.pick(same)
        secrets[s]["v"], secrets[t]["v"] = secrets[t]["v"], secrets[s]["v"]
    elif how == "flag-or":
        ors = [x for _, x in world.walk(tree) if x["k"] == "or"]
        if not ors:
            return None
        x = ch.pick(ors)
        for s in x["subs"]:
            s["sim"] = True
            if x["style"] == "op":
                world.push_down(s)
    elif how == "flag-leaf":
        if any(x["k"] == "and" and x["style"] == "op" and any(n is s for s in x["subs"]) and n["k"] in ("range",)
               for _, x in world.walk(tree)):
            return None  # dissolved, with its mark, by the operator
        n["sim"] = True
    elif how == "flag-root":
        tree["sim"] = True
    elif how == "sig":
        b = [x for x in lv if x["k"] == "bbs" and x["sig"] in sigs]
        if not b:
            return None
        x = ch.pick(b)
        q = ref.group("G1").q
        what = ch.pick(["missing", "A", "e", "s", "messages", "issuer"])
        how = "sig-" + what
        sig = dict(sigs.pop(x["sig"]))
        off = 2 if x.get("binding", True) else 0
        vals = [int(secrets[s]["v"]) for s in x["vars"][off:]]
        if what == "missing":
            return how
        if what == "A":
            g1 = ref.group("G1")
            sig["A"] = ref.hx("G1", g1.add(ref.cpt("G1", sig["A"]), g1.mul(rng.randrange(1, q), g1.gen)))
        elif what in ("e", "s"):
            sig[what] = str((int(sig[what]) + rng.randrange(1, q)) % q)
        elif what == "messages":
            i = ch.draw(len(vals))
            vals[i] += rng.randrange(1, q)
            sk = next(sk for sk, pk in g.keys if pk["w"] == x["pk"]["w"])
            sig = world.raw_sign(sk, x["pk"], vals, rng)
        else:
            sk, pk = world.make_key(rng, len(vals))
            sig = world.raw_sign(sk, pk, vals, rng)
        sigs[x["sig"]] = sig
    elif how == "out-of-range":
        rs = [x for x in lv if x["k"] in ("range", "p2")]
        if not rs:
            return None
        x = ch.pick(rs)
        lo, hi = (int(x["a"]), int(x["b"])) if x["k"] == "range" else (0, 1 << x["n"])
        v = ch.pick([lo - 1, hi, hi + 5, lo - (hi - lo), hi + (hi - lo)])
        if v == int(secrets[x["x"]]["v"]):
            return None
        # the commitment is to the value out of range
        grp, gid = ref.group(x["g"]), x["g"]
        secrets[x["x"]]["v"], secrets[x["x"]]["t"] = str(v), "bn"
        com = ref.lincomb(grp, [(v, ref.cpt(gid, x["gg"])), (int(secrets[x["r"]]["v"]), ref.cpt(gid, x["hh"]))])
        x["com"] = ref.hx(gid, com)
    return how


def misuse(ctx):
    ch = ctx.ch
    false = ch.chance(12)
    g, c = common.case(ctx, true=not false, pairing=18, max_leaves=5, shapes=[("leaf", 2), ("and", 4), ("or", 6)])
    tree, secrets, sigs = copy.deepcopy(c["tree"]), copy.deepcopy(c["secrets"]), copy.deepcopy(c["sigs"])
    done = ["false-statement"] if false else []
    for _ in range(1 + ch.draw(2)):
        how = spoil(ctx, g, tree, secrets, sigs)
        if how:
            done.append(how)
    values = not ch.chance(12)
    if not values:
        done.append("no-values")
    if not done:
        raise core.Discard("no misuse")
    for how in done:
        ctx.fault("misuse-" + how)
    who = Caller(secrets, sigs, values)
    want = who.status(tree)
    ctx.probe("must-" + {GOOD: "succeed", MAYBE: "do-either", BAD: "fail", ABSENT: "fail"}[want])
    ctx.event("misuse", ",".join(done) + " " + want)
    what = "%s: %s" % (", ".join(done), world.describe(tree))
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(15))
    naming, mode = common.naming(ctx), ch.weighted(common.MODES)
    c["naming"], c["mode"] = naming, mode
    common.honest(ctx, common.build_verifier(ctx, V, "st", tree), "building")
    o = ctx.call(P, "build", "st", tree, secrets=secrets, sigs=sigs, naming=naming, mode=mode)
    built = o.ok
    if not o.ok and want == GOOD:
        ctx.fail("provable-refused", "building: %s: %r" % (what, o))
    n = 0
    for i in range(1 + ch.draw(3)):
        if not built:
            break
        n += 1
        how = ch.weighted([("prove", 3), ("session", 2), ("simulate", 1)])
        if how == "simulate":
            ctx.call(P, "simulate", "st")
            continue
        if how == "prove":
            m = ch.pick(common.MESSAGES)
            o = ctx.call(P, "prove", "st", message=m, values=values)
            if o.kind == "hang":
                ctx.fail("hang", what)
            if o.ok:
                p = o.value
                o = ctx.call(V, "verify", "st", p, message=m)
                if ch.chance(30):
                    judge(ctx, want, ctx.call(P, "verify", "st", p, message=m), what + " (own object)")
        else:
            o = session(ctx, P, V, "s%d" % n, values)
        judge(ctx, want, o, what + " (%s)" % how)
    after(ctx, g, c, P, V, tree, secrets, sigs, built, false or "out-of-range" in done, what)


def session(ctx, P, V, s, values=True, h="st"):
    o = ctx.call(P, "p_new", s, h, values=values)
    if not o.ok:
        return o
    o = ctx.call(V, "v_new", s, h)
    if not o.ok:
        return o
    return common.interactive(ctx, P, s, V, s)


def judge(ctx, want, o, what):
    if o.kind == "hang":
        ctx.fail("hang", what)
    if want == GOOD and not o.accepted:
        ctx.fail("provable-refused", "%s: %r" % (what, o))
    if want in (BAD, ABSENT) and o.accepted:
        ctx.fail("misuse-accepted", what)
    ctx.probe("accepted" if o.accepted else "refused")


def after(ctx, g, c, P, V, tree, secrets, sigs, built, changed, what):
    """Nothing is left of the attempts."""
    ch = ctx.ch
    # the same objects, or new ones over the same secrets, with all the values given
    if built and not changed and ch.chance(70) and not any(n["k"] in ("range", "p2") for n in leaves(tree)):
        now = copy.deepcopy(secrets)
        for s in now:
            if now[s]["how"] != "auto":
                now[s]["how"], now[s]["v"], now[s]["t"] = "dict", c["secrets"][s]["v"], c["secrets"][s]["t"]
        name = ch.pick(["st", "re"])
        t, sg = (tree, sigs) if name == "st" else (c["tree"], c["sigs"])
        if Caller(now, sg, True).status(t) == GOOD:
            if name == "re":
                common.honest(ctx, common.build_verifier(ctx, V, name, t), "building")
                o = ctx.call(P, "build", name, t, secrets=secrets, sigs=sg, naming=c["naming"], mode=c["mode"], share="st")
                common.honest(ctx, o, "building after " + what)
            o = ctx.call(P, "give", name, {s: [i["v"], i["t"]] for s, i in now.items() if i["how"] == "dict"})
            common.honest(ctx, o, "giving values")
            ctx.probe("same-object-again" if name == "st" else "same-secrets-again")
            good(ctx, P, V, name, "%s with all values, after %s" % (name, what))
    # new objects
    if changed:
        # of another statement, over the same groups, keys and points
        g.leaves = 0
        fresh = {"tree": g.tree(depth=1), "secrets": g.secrets, "sigs": g.sigs}
        name = "other"
        common.honest(ctx, common.build_verifier(ctx, V, name, fresh["tree"]), "building")
    else:
        fresh, name = c, "new"
        if ch.draw(2):
            common.honest(ctx, common.build_verifier(ctx, V, name, fresh["tree"]), "building")
        else:
            # the verifier's object that has seen the attempts
            name = "st"
    o = ctx.call(P, "build", name, fresh["tree"], secrets=fresh["secrets"], sigs=fresh["sigs"], naming=c["naming"],
                 mode=c["mode"])
    common.honest(ctx, o, "building after " + what)
    good(ctx, P, V, name, "new objects, after " + what)


def good(ctx, P, V, h, what):
    m = ctx.ch.pick(common.MESSAGES)
    if ctx.ch.draw(2):
        o = ctx.call(P, "prove", h, message=m)
        if o.ok:
            o = ctx.call(V, "verify", h, o.value, message=m)
    else:
        o = session(ctx, P, V, "good" + h, h=h)
    if not o.accepted:
        ctx.fail("trace-left", "%s: %r" % (what, o))


# --- unsupported compositions ----------------------------------------------------------------------------


def exposed(n):
    """Names of the secrets of a leaf that others can share."""
    k = n["k"]
    if k == "dlne":
        return [n["x"]] if n["bind"] else []
    if k == "p2":
        return []
    if k == "range":
        return [n["x"], n["r"]]
    if k == "bbs":
        return n["vars"][2 if n.get("binding", True) else 0:]
    if k == "cust":
        r, m = n["sec"]["r"], n["sec"]["m"]
        return [r, m] if n["v"] in ("elg", "valonly", "or") else [r]
    return world.secret_order(n)


def leaf_with(g, s, gid, kinds, pool=None):
    """A true leaf in which secret `s` occurs, over group `gid`."""
    ch = g.ch
    grp = ref.group(gid)
    b = g.bases(gid)
    v = g.val(s)
    k = ch.pick(kinds)
    if k == "dlne" and world.openssl_cannot(gid, v):
        k = "dl"
    pool = pool or world.Pool()
    if k == "dl":
        terms = [[s, b[ch.draw(4)]]]
        for _ in range(ch.draw(2)):
            terms.append([g.new_secret(grp.q, pool=pool), b[4 + ch.draw(4)]])
        ch_swap = ch.draw(2)
        if ch_swap:
            terms.reverse()
        lhs = ref.lincomb(grp, [(g.val(x), ref.cpt(gid, y)) for x, y in terms])
        n = ref.dl(gid, ref.hx(gid, lhs), terms)
    elif k == "dlne":
        H0 = grp.mul(v, ref.cpt(gid, b[0]))
        H1 = grp.mul(v + 1 + ch.draw(9), ref.cpt(gid, b[1]))
        n = {"k": "dlne", "g": gid, "H0": ref.hx(gid, H0), "h0": b[0], "H1": ref.hx(gid, H1), "h1": b[1], "x": s, "bind": True}
    elif k == "range":
        g.secrets[s]["how"] = "embed"
        r = g.new_secret(grp.q, how="embed")
        lo = v - ch.draw(4)
        com = ref.lincomb(grp, [(v, ref.cpt(gid, b[0])), (g.val(r), ref.cpt(gid, b[1]))])
        n = {"k": "range", "g": gid, "com": ref.hx(gid, com), "gg": b[0], "hh": b[1], "a": str(lo), "b": str(v + 2 + ch.draw(5)),
             "x": s, "r": r}
    elif k in ("elg", "rep", "pre", "num", "deep", "or"):
        m = g.new_secret(grp.q, pool=pool)
        G, H = ref.cpt(gid, b[2]), ref.cpt(gid, b[3])
        r = s
        if k == "or" and ch.draw(2):
            r, m = m, s
        c1 = grp.mul(g.val(r), G)
        c2 = grp.add(grp.mul(g.val(r), H), grp.mul(g.val(m), G)) if k == "elg" else grp.mul(g.val(m), H)
        n = {"k": "cust", "v": k, "g": gid, "pts": {"G": b[2], "H": b[3], "c1": ref.hx(gid, c1), "c2": ref.hx(gid, c2)},
             "sec": {"r": r, "m": m}}
    n["t"] = True
    return n


def wrapped(g, n, depth):
    """The leaf, perhaps in conjunctions and disjunctions."""
    ch = g.ch
    for _ in range(depth):
        how = ch.weighted([("plain", 3), ("and", 2), ("or", 2)])
        if how == "plain":
            continue
        subs = [n, g.leaf(world.Pool(), True)]
        if ch.draw(2):
            subs.reverse()
        n = {"k": how, "subs": subs, "style": ch.pick(["op", "ctor"]), "t": True}
    return n


def around(g, tree):
    """The composition as a part of a larger statement."""
    ch = g.ch
    how = ch.weighted([("alone", 1), ("and", 2), ("or", 2)])
    if how == "alone":
        return tree
    subs = [tree] + [g.leaf(world.Pool(), True) for _ in range(1 + ch.draw(2))]
    k = ch.draw(len(subs))
    subs[0], subs[k] = subs[k], subs[0]
    return {"k": how, "subs": subs, "style": ch.pick(["op", "ctor"]), "t": True}


def unsupported(ctx):
    ch = ctx.ch
    g = world.Gen(ch, pairing=10, kinds=[("dl", 8), ("dlne", 2), ("cust", 2), ("range", 0), ("p2", 1), ("bbs", 0)])
    g.kinds = [(k, w) for k, w in g.kinds if k != "bbs"]
    kind = ch.weighted([("in-and-out", 5), ("orders", 4), ("mixed", 3)])
    ctx.fault("unsupported-" + kind)
    gid = ch.weighted([("ec713", 4), ("ec415", 4)] + [(x, 1) for x in world.EC_GIDS[2:]] + [("G1", 1)])
    gid2 = ch.pick([x for x in ["ec713", "ec415", "ec409", "ec714", "G1"] if ref.group(x).q != ref.group(gid).q])
    style = ch.pick(["op", "ctor"])
    pool = world.Pool()
    if kind == "mixed":
        return mixed(ctx, g, gid, gid2)
    if kind == "in-and-out":
        s = g.new_secret(ref.group(gid).q, v=g.ch.pick([None, 3]))
        kinds = ["dl", "dl", "dlne", "elg", "rep", "pre", "num", "deep"] + (["range"] if gid != "G1" else [])
        if int(g.secrets[s]["v"]) < 0 or int(g.secrets[s]["v"]) >= ref.group(gid).q >> 1:
            kinds = [k for k in kinds if k != "range"]
        # inside
        if ch.chance(25):
            inner = leaf_with(g, s, gid, ["or"])
        else:
            n = wrapped(g, leaf_with(g, s, gid, kinds), ch.draw(2))
            subs = [n] + [g.leaf(world.Pool(), True) for _ in range(1 + ch.draw(2))]
            k = ch.draw(len(subs))
            subs[0], subs[k] = subs[k], subs[0]
            inner = {"k": "or", "subs": subs, "style": ch.pick(["op", "ctor"]), "t": True}
        # outside
        how = ch.pick(["leaf", "leaf", "or", "cust-or"])
        if how == "leaf":
            outer = leaf_with(g, s, gid, kinds)
        elif how == "or":
            outer = {"k": "or", "subs": [leaf_with(g, s, gid, kinds), g.leaf(world.Pool(), True)],
                     "style": ch.pick(["op", "ctor"]), "t": True}
        else:
            outer = leaf_with(g, s, gid, ["or"])
        if ch.chance(30):
            inner = {"k": "and", "subs": [inner, g.leaf(world.Pool(), True)], "style": "ctor", "t": True}
        subs = [inner, outer]
    else:
        small = ch.pick([0, 1, 5, 1 << 40])
        s = g.new_secret(ref.group(gid).q, v=small)
        # the value is the same number in both groups
        kinds = lambda x: ["dl", "dl", "dlne", "elg", "rep", "pre"] + (["range"] if x != "G1" else [])
        a = leaf_with(g, s, gid, kinds(gid))
        b = leaf_with(g, s, gid2, kinds(gid2))
        if ch.chance(30):
            # deeper down
            b = {"k": "and", "subs": [b, g.leaf(world.Pool(), True)], "style": ch.pick(["op", "ctor"]), "t": True}
        subs = [a, b]
    if ch.chance(30):
        subs.append(g.leaf(pool, True))
    k = ch.draw(len(subs))
    subs[0], subs[k] = subs[k], subs[0]
    how = "or" if kind == "orders" and ch.chance(30) else "and"
    tree = {"k": how, "subs": subs, "style": style, "t": True}
    for _ in range(ch.draw(4)):
        tree = around(g, tree)
    attempt(ctx, g, tree, kind)


def attempt(ctx, g, tree, kind):
    ch = ctx.ch
    for n in leaves(tree):
        for s in world.secret_order(n):
            if n["k"] in ("range", "p2"):
                g.secrets[s]["how"] = "embed"
    ctx.sample = world.describe(tree)
    ctx.event("case", kind + " " + ctx.sample)
    what = "%s: %s" % (kind, ctx.sample)
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(15))
    vo = common.build_verifier(ctx, V, "st", tree, naming=ch.pick(["auto", "explicit", "stray"]))
    po = ctx.call(P, "build", "st", tree, secrets=g.secrets, sigs=g.sigs, naming=common.naming(ctx))
    if vo.ok and po.ok:
        for i in range(1 + ch.draw(2)):
            if ch.draw(2):
                o = ctx.call(P, "prove", "st")
                if o.ok:
                    o = ctx.call(V, "verify", "st", o.value)
            else:
                o = session(ctx, P, V, "s%d" % i)
            if o.kind == "hang":
                ctx.fail("hang", what)
            if o.accepted:
                ctx.fail("unsupported-accepted", "by the library's prover: " + what)
            ctx.probe("library-refused")
    else:
        ctx.probe("not-built")
    if vo.ok and ch.chance(60):
        attack(ctx, g, tree, V, what)
    clean(ctx, g, P, V, what)


def attack(ctx, g, tree, V, what):
    """A prover that knows everything and does not mind."""
    A = ctx.host("A")
    if not common.build_verifier(ctx, A, "st", tree, naming="auto").ok:
        return
    norm = ref.normal(world.public(tree))
    wit = g.witness()
    pl = sound.Plan()
    for p, n in sound.walk(norm):
        if n["k"] == "or":
            pl.choose[p] = ctx.ch.draw(len(n["subs"]))
    for n in range(1 + ctx.ch.draw(2)):
        try:
            at = sound.Attack(ctx, V, A, "st", norm, wit, g.sigs, pl)
        except ref.Invalid:
            ctx.probe("attack-impossible")
            return
        o = at.run_nizk() if ctx.ch.draw(2) else at.run_session("att%d" % n)
        if o.kind == "hang":
            ctx.fail("hang", what)
        if o.accepted:
            ctx.fail("unsupported-accepted", "by a dishonest prover: " + what)
        ctx.fault("forger-on-unsupported")


def clean(ctx, g, P, V, what):
    """The same points and groups are good for other statements."""
    g.leaves = 0
    t = g.tree(depth=1)
    common.honest(ctx, common.build_verifier(ctx, V, "new", t), "building after " + what)
    o = ctx.call(P, "build", "new", t, secrets=g.secrets, sigs=g.sigs)
    common.honest(ctx, o, "building after " + what)
    good(ctx, P, V, "new", "another statement %s, after %s" % (world.describe(t), what))


def mixed(ctx, g, gid, gid2):
    """Bases of mixed groups in one primitive."""
    ch = ctx.ch
    others = [gid2, gid2] + (["GT", "G2"] if gid == "G1" else [])
    gid2 = ch.pick(others)
    k = ch.pick(["bases", "lhs", "dlne-pairs", "dlne-bases", "range-gh", "range-com", "p2-gh"])
    q = ref.group(gid).q
    b1, b2 = world.gens(gid), world.gens(gid2)
    s, t = g.new_secret(q, v=3), g.new_secret(q, v=2)
    g1, g2 = ref.group(gid), ref.group(gid2)
    pt = lambda gg, i, v: ref.hx(gg, ref.group(gg).mul(v, ref.cpt(gg, world.gens(gg)[i])))
    if k == "bases":
        spec = {"k": "dl", "lhs": [ch.pick([gid, gid2]), None], "terms": [[s, gid, b1[0]], [t, gid2, b2[1]]]}
        spec["lhs"][1] = pt(spec["lhs"][0], 0, 3)
        if ch.draw(2):
            spec["terms"].reverse()
    elif k == "lhs":
        spec = {"k": "dl", "lhs": [gid2, pt(gid2, 0, 3)], "terms": [[s, gid, b1[0]]] + ([[t, gid, b1[1]]] if ch.draw(2) else [])}
    elif k == "dlne-pairs":
        spec = {"k": "dlne", "p": [[gid, pt(gid, 0, 3)], [gid, b1[0]], [gid2, pt(gid2, 1, 7)], [gid2, b2[1]]]}
    elif k == "dlne-bases":
        spec = {"k": "dlne", "p": [[gid, pt(gid, 0, 3)], [gid2, b2[0]], [gid, pt(gid, 1, 7)], [gid2, b2[1]]]}
    else:
        com = ch.pick([gid, gid2]) if k == "range-com" else gid
        spec = {"k": k.split("-")[0], "com": [com, pt(com, 0, 3)], "g": [gid, b1[0]], "h": [gid2 if k != "range-com" else gid, world.gens(gid2 if k != "range-com" else gid)[1]]}
        if k == "range-com" and com == gid:
            spec["h"] = [gid2, b2[1]]
    spec["x"], spec["r"], spec["bind"] = s, t, ch.draw(2) == 1
    with_ = ch.pick([None, "and", "or"])
    ctx.event("case", "mixed %s %s %s %s" % (k, gid, gid2, with_))
    ctx.sample = "mixed %s %s/%s %s" % (k, gid, gid2, with_)
    what = ctx.sample
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(15))
    tree = g.leaf(world.Pool(), True)
    vals = {s: 3, t: 2}
    vo = ctx.call(V, "build_mixed", "st", spec, world.public(tree), with_)
    po = ctx.call(P, "build_mixed", "st", spec, tree, with_, values=vals, secrets=g.secrets, sigs=g.sigs)
    ctx.probe("mixed-" + k + ("" if vo.ok else "-not-built"))
    if vo.ok and po.ok:
        for i in range(1 + ch.draw(2)):
            if ch.draw(2):
                o = ctx.call(P, "prove", "st")
                if o.ok:
                    o = ctx.call(V, "verify", "st", o.value)
            else:
                o = session(ctx, P, V, "s%d" % i)
            if o.kind == "hang":
                ctx.fail("hang", what)
            if o.accepted and not with_ == "or":
                ctx.fail("unsupported-accepted", "by the library's prover: " + what)
            if o.accepted:
                ctx.fail("unsupported-accepted", "as a clause: " + what)
    clean(ctx, g, P, V, what)
