"""Dishonest provers: plans of attack against statements that the adversary cannot prove, carried out by
the reference prover against the library's verifier, non-interactively or in a session.

The oracle is the reference verifier: what it refuses must not be accepted."""

from sim import byz, common, core, ref, wire, world


# --- truth -----------------------------------------------------------------------------------------


def sig_valid(pk, sig, msgs):
    g1, bp = ref.group("G1"), ref.bpgroup()
    q = g1.q
    gens = [ref.cpt("G1", x) for x in pk["gens"]]
    if len(msgs) + 2 > len(gens):
        return False
    acc = gens[0]
    for k, b in zip([int(sig["s"])] + list(msgs), gens[1:]):
        acc = g1.add(acc, g1.mul(k, b))
    w, h0 = ref.cpt("G2", pk["w"]), ref.cpt("G2", pk["h0"])
    g2 = ref.group("G2")
    lhs = bp.pair(ref.cpt("G1", sig["A"]), g2.add(w, g2.mul(int(sig["e"]), h0)))
    return lhs.eq(bp.pair(acc, h0))


def leaf_true(node, wit, sigs):
    """Do the adversary's values make this leaf true?"""
    k = node["k"]
    if k == "dl":
        return ref.truth(ref.expand(node, None), wit)
    if k == "dlne":
        grp, gid = ref.group(node["g"]), node["g"]
        x = wit.get(node["x"], 0)
        H0, h0, H1, h1 = (ref.cpt(gid, node[y]) for y in ("H0", "h0", "H1", "h1"))
        return grp.eq(H0, grp.mul(x, h0)) and not grp.eq(H1, grp.mul(x, h1))
    if k == "p2":
        grp, gid = ref.group(node["g"]), node["g"]
        x, r = (wit.get(node["x"], 0) + int(node.get("off", 0))) % grp.q, wit.get(node["r"], 0)
        com = ref.lincomb(grp, [(x, ref.cpt(gid, node["gg"])), (r, ref.cpt(gid, node["hh"]))])
        return 0 <= x < 1 << node["n"] and grp.eq(com, ref.cpt(gid, node["com"]))
    if k == "bbs":
        sig = sigs.get(node.get("sig"))
        if sig is None:
            return False
        off = 2 if node.get("binding", True) else 0
        if off and (wit.get(node["vars"][0], 0) - int(sig["e"])) % ref.group("G1").q:
            return False
        return sig_valid(node["pk"], sig, [wit.get(x, 0) for x in node["vars"][off:]])
    if k == "cust":
        grp = ref.group(node["g"])
        if node["v"] == "valonly" and node["pts"]["c1"] == node["pts"]["bad"]:
            return False
        try:
            con = ref.expand(dict(node, v={x: "rep" for x in ("pre", "prel", "num", "deep")}.get(node["v"], node["v"])), [], lax=True)
        except ref.Invalid:
            return False
        return ref.truth(con, wit)
    raise AssertionError(k)


def evaluate(norm, wit, sigs, path="0", out=None):
    """{path: provable} for every node."""
    if out is None:
        out = {}
    if norm["k"] in ("and", "or"):
        vals = []
        for i, s in enumerate(norm["subs"]):
            p = "%s.%d" % (path, i)
            evaluate(s, wit, sigs, p, out)
            vals.append(out[p])
        out[path] = (all if norm["k"] == "and" else any)(vals)
    else:
        out[path] = leaf_true(norm, wit, sigs)
    return out


# --- plans -----------------------------------------------------------------------------------------


class Plan:
    def __init__(self):
        self.over, self.pover, self.choose, self.tricks = {}, {}, {}, {}
        self.tampers = {}
        self.sim = set()
        self.split = False
        self.fit = None
        self.factor = None
        self.bias = {}
        self.cuts = {}
        self.comcuts = {}
        self.keeps = {}
        self.names = []

    def note(self, s):
        self.names.append(s)

    @property
    def name(self):
        return "+".join(sorted(set(self.names))) or "garbage"


DLNE_T = ["inf", "split", "split-alpha", "split-beta", "garbage"]
P2_T = ["top-digit", "any-digit", "extra", "extra-front", "fewer", "mod", "sim", "swap", "two-digits", "rand", "rand"]
BBS_T = ["garbage", "delta-leaf", "delta-both", "r1-fit", "e-fit", "A1-fit", "A1-inf", "A2-inf", "A-both-inf", "e-split", "r1-split", "s-split"]
CUST_T = ["garbage", "tag", "inf", "sum", "no-tag", "short"]


def make_plan(ctx, norm, wit, sigs, val=None):
    ch = ctx.ch
    val = val or evaluate(norm, wit, sigs)
    pl = Plan()

    def simulated(n, path):
        for p, x in walk(n, path):
            if x["k"] in ref.EXT:
                pl.sim.add(p)

    def go(n, path):
        k = n["k"]
        if k == "and":
            for i, s in enumerate(n["subs"]):
                go(s, "%s.%d" % (path, i))
            return
        if k == "or":
            m = len(n["subs"])
            if val[path]:
                good = [i for i in range(m) if val["%s.%d" % (path, i)]]
                idx = ch.pick(good)
            elif ch.chance(70):
                t = ch.pick(ref.TRICKS)
                pl.tricks[path] = t
                pl.note("or-" + t)
                for i, s in enumerate(n["subs"]):
                    simulated(s, "%s.%d" % (path, i))
                return
            else:
                idx = ch.draw(m)
                pl.note("or-garbage")
            pl.choose[path] = idx
            for i, s in enumerate(n["subs"]):
                if i == idx:
                    go(s, "%s.%d" % (path, i))
                else:
                    simulated(s, "%s.%d" % (path, i))
            return
        if val[path]:
            return
        if k == "dl":
            if ch.chance(40):
                how = ch.pick(["empty", "short", "zeros", "none", "drop"])
                pl.cuts[path] = how
                pl.note("response-" + how)
            if ch.chance(30):
                how = ch.pick(["none", "empty", "drop", "inf"])
                pl.comcuts[path] = how
                pl.note("commitment-" + how)
            return
        t = ch.pick({"dlne": DLNE_T, "p2": P2_T, "bbs": BBS_T, "cust": CUST_T}[k])
        pl.tampers[path] = t
        pl.note("%s-%s" % (k, t))
        if ch.chance(12):
            # and one part of the inner proof is left out
            how = ch.pick(["empty", "short", "zeros", "none", "drop", "drop"])
            p = path + ".%d" % ch.draw(3)
            pl.cuts[p] = how
            if how == "drop":
                pl.comcuts[p] = "drop"
            pl.note("inner-" + how)

    go(norm, "0")
    kinds = {x["k"] for p, x in walk(norm) if p in pl.tampers} & {"dlne", "bbs"}
    if kinds and ch.chance(25):
        # some inner relations are left out everywhere, or come in another order
        k = ch.pick(sorted(kinds))
        bound = ch.pick([bool(x.get("bind")) for p, x in walk(norm) if x["k"] == k and p in pl.tampers])
        m = 3 if k == "bbs" or bound else 2
        keep = ch.shuffle(range(m))
        if keep == sorted(keep) or ch.chance(60):
            keep.pop()
            if ch.chance(50):
                keep.sort()
        for p, x in walk(norm):
            if x["k"] == k and bool(x.get("bind")) == bound:
                pl.keeps[p] = keep
                if p not in pl.tampers:
                    continue
                if k == "dlne":
                    pl.tampers[p] = "split"
                elif 0 not in keep:
                    pl.tampers[p] = "A1-fit"
                elif 1 not in keep:
                    pl.tampers[p] = "delta-both"
        pl.note("%s-relation-left-out" % k)
    return pl


def walk(n, path="0"):
    yield path, n
    for i, c in enumerate(ref.children(n)):
        for x in walk(c, "%s.%d" % (path, i)):
            yield x


def tamperer(ctx, norm, pl, wit, sigs, wrap):
    """The precommitments of a plan; puts overrides for the prover into the plan."""
    ch, rng = ctx.ch, ctx.rng
    made = {}

    def tamper(node, path, pre, w):
        k = node["k"]
        gid = node.get("g")
        if path in pl.sim and path not in pl.tampers:
            if k == "p2":
                pre = sim_p2(node, rng, wrap)
            made[path] = pre
            return pre
        t = pl.tampers.get(path)
        if t is None:
            made[path] = pre
            return pre
        out = pre
        if k == "dlne":
            grp = ref.group(gid)
            h1, H1 = ref.cpt(gid, node["h1"]), ref.cpt(gid, node["H1"])
            x = w.get(node["x"], 0)
            first = grp.eq(ref.cpt(gid, node["H0"]), grp.mul(x, ref.cpt(gid, node["h0"])))
            al, be = w[path + ":alpha"], w[path + ":beta"]
            if t == "inf":
                out = wrap(gid, grp.inf)
                if not first:
                    w[path + ":alpha"] = w[path + ":beta"] = 0
            elif t.startswith("split"):
                if not first:
                    w[path + ":alpha"] = w[path + ":beta"] = al = be = 0
                a2 = rng.randrange(1, grp.q) if t != "split-beta" else al
                b2 = rng.randrange(1, grp.q) if t != "split-alpha" else be
                out = wrap(gid, ref.lincomb(grp, [(a2, h1), (b2, H1)]))
                if a2 != al:
                    pl.over[(path + ".1", 0)] = a2
                if b2 != be:
                    pl.over[(path + ".1", 1)] = b2
        elif k == "p2":
            grp = ref.group(gid)
            n = node["n"]
            x = (w.get(node["x"], 0) + int(node.get("off", 0))) % grp.q
            r = w.get(node["r"], 0)
            if t in ("top-digit", "any-digit", "two-digits"):
                digits = [rng.randrange(2) if t != "top-digit" else x >> i & 1 for i in range(n)]
                bad = [n - 1 if t == "top-digit" else rng.randrange(n)]
                if t == "two-digits" and n > 1:
                    j = rng.choice([i for i in range(n) if i != bad[0]])
                    digits[j] = rng.randrange(2, 9)
                    bad.append(j)
                i = bad[0]
                rest = sum(d << j for j, d in enumerate(digits) if j != i)
                digits[i] = (x - rest) * pow(1 << i, -1, grp.q) % grp.q
                out = ref.p2_pre(node, w, rng, wrap, path, digits, r)
                for j in bad:
                    if digits[j] not in (0, 1):
                        p = "%s.%d" % (path, j) if n > 1 else path + ".0"
                        if ch.chance(80):
                            pl.tricks[p] = ch.pick(ref.TRICKS)
            elif t in ("extra", "extra-front"):
                digits = [x >> i & 1 for i in range(n)]
                m = ch.weighted([(n, 3), (n + 1 + ch.draw(4), 1)])
                digits += [0] * (m - n)
                top = (x - sum(d << j for j, d in enumerate(digits))) * pow(1 << m, -1, grp.q) % grp.q
                digits.append(top)
                out = ref.p2_pre(node, w, rng, wrap, path, digits, r)
            elif t == "fewer":
                digits = [x >> i & 1 for i in range(n)][: ch.draw(n)]
                out = ref.p2_pre(node, w, rng, wrap, path, digits, r)
            elif t == "sim":
                out = sim_p2(node, rng, wrap)
                for j in range(n):
                    pl.tricks["%s.%d" % (path, j) if n > 1 else path + ".0"] = ch.pick(ref.TRICKS)
            elif t == "rand":
                # bits of another value, and a value for what makes up for the difference
                digits = [rng.randrange(2) for _ in range(n)]
                out = ref.p2_pre(node, w, rng, wrap, path, digits, r)
                rand = int(out["rand"])
                how = ch.pick(["zero", "one", "minus", "order", "more", "none", "missing", "random", "false", "list", "empty",
                               "itself", "other"])
                v = {"zero": ref.bn(0), "one": ref.bn(1), "minus": ref.bn(-1), "order": ref.bn(grp.q), "more": ref.bn(rand + grp.q),
                     "none": None, "random": ref.bn(rng.randrange(grp.q)), "false": False, "list": [out["rand"]], "empty": b"",
                     "itself": out["rand"], "other": ref.bn(r)}.get(how)
                out = dict(out, rand=v)
                if how == "missing":
                    del out["rand"]
                pl.note("rand-" + how)
            elif t == "swap":
                others = [p for p in made if isinstance(made[p], dict) and "Cs" in made[p] and len(made[p]["Cs"]) == n]
                if others:
                    src = ch.pick(others)
                    out = made[src]
                    for j in range(n):
                        if "%s:r%d" % (src, j) in w:
                            w["%s:r%d" % (path, j)] = w["%s:r%d" % (src, j)]
        elif k == "bbs":
            g1 = ref.group("G1")
            if t == "A1-inf" or t == "A-both-inf":
                out = dict(out, A1=wrap("G1", g1.inf))
                for v in ("r1", "r2", "d1", "d2"):
                    w["%s:%s" % (path, v)] = 0
                if t == "A1-inf":
                    sig = sigs.get(node.get("sig"))
                    if sig:
                        out["A2"] = wrap("G1", ref.cpt("G1", sig["A"]))
                else:
                    out["A2"] = wrap("G1", g1.inf)
            elif t == "A2-inf":
                out = dict(out, A2=wrap("G1", g1.inf))
            elif t.startswith("delta"):
                # the base of the first message is also that of delta1
                sig = sigs.get(node.get("sig"))
                shift = pl.pover.get(path + "#shift", 1)
                d1 = (w[path + ":d1"] + shift) % g1.q
                if t == "delta-both" and ch.chance(40):
                    pl.cuts[path + ".1"] = pl.comcuts[path + ".1"] = "drop"
                if t == "delta-leaf":
                    pl.over[(path + ".2", 2)] = d1
                else:
                    w[path + ":d1"] = d1
            elif t.endswith("-fit"):
                # the first message's base also carries e * (difference of what ought to be equal)
                d = pl.pover.get(path + "#shift", 1)
                q = g1.q
                pk = node["pk"]
                b1, b2 = ref.cpt("G1", pk["gens"][1]), ref.cpt("G1", pk["gens"][2])
                e, r1, r2 = (w[path + ":" + x] for x in ("e", "r1", "r2"))
                if t == "r1-fit":
                    x = (r1 - d * pow(e, -1, q)) % q
                    pl.over[(path + ".2", 1)] = x
                    out = dict(out, A2=wrap("G1", g1.add(ref.as_ref(g1, out["A2"]), g1.mul(x - r1, b2))))
                elif t == "e-fit":
                    x = (e + d * pow(r1, -1, q)) % q
                    w[path + ":d1"], w[path + ":d2"] = x * r1 % q, x * r2 % q
                    pl.over[(path + ".1", 2)] = x
                else:
                    d1 = w[path + ":d1"] = (w[path + ":d1"] + d) % q
                    acc = ref.lincomb(g1, [(d1, b1), (w[path + ":d2"], b2)])
                    out = dict(out, A1=wrap("G1", g1.mul(pow(e, -1, q), acc)))
                    if ch.chance(60):
                        pl.cuts[path + ".0"] = pl.comcuts[path + ".0"] = "drop"
            elif t == "e-split":
                pl.over[(path + ".2", 0)] = rng.randrange(g1.q)
            elif t == "r1-split":
                pl.over[(path + ".2", 1)] = rng.randrange(g1.q)
            elif t == "s-split":
                pl.over[(path + ".2", 3)] = rng.randrange(g1.q)
        elif k == "cust":
            grp = ref.group(gid)
            if node["v"] == "pre":
                if t == "tag":
                    out = dict(out, tag=ch.pick(["u", "", 0, None, "T"]))
                elif t == "no-tag":
                    out = {"D": out["D"]}
                elif t == "inf":
                    out = dict(out, D=wrap(gid, grp.inf))
                    w[path + ":t"] = 0
            elif node["v"] == "prel":
                if t == "sum":
                    out = [out[0], wrap(gid, grp.mul(rng.randrange(1, grp.q), grp.gen))]
                elif t == "short":
                    out = out[:1]
                elif t == "inf":
                    out = [wrap(gid, grp.inf), wrap(gid, grp.inf)]
            elif node["v"] == "num":
                out = {"inf": ref.bn(0), "sum": ref.bn(1001 + rng.randrange(1000)), "short": ref.bn(grp.q), "tag": -3,
                       "no-tag": None}.get(t, out)
            elif node["v"] == "deep":
                if t == "inf":
                    out = dict(out, D=[out["D"][0], out["D"][0]])
                    w[path + ":u"] = w[path + ":t"]
                elif t == "tag":
                    out = dict(out, n=8)
                elif t == "no-tag":
                    out = {k: v for k, v in out.items() if k != "n"}
                elif t == "sum":
                    out = dict(out, raw=b"\x00")
                elif t == "short":
                    out = dict(out, D=out["D"] + [out["D"][0]])
        made[path] = out
        return out

    return tamper


def sim_p2(node, rng, wrap):
    grp, gid = ref.group(node["g"]), node["g"]
    h, com = ref.cpt(gid, node["hh"]), ref.cpt(gid, node["com"])
    rs = [rng.randrange(grp.q) for _ in range(node["n"])]
    Cs = [grp.mul(r, h) for r in rs]
    Cs[0] = grp.add(Cs[0], com)
    return {"Cs": [wrap(gid, c) for c in Cs], "rand": ref.bn(sum(r << i for i, r in enumerate(rs)) % grp.q)}


def com_cut(node, com, path, how):
    if node.path == path:
        return {"none": None, "empty": [], "inf": com}[how] if how != "drop" else com
    if node.kind == "dl":
        return com
    if how == "drop" and any(s.path == path for s in node.subs):
        return [c for s, c in zip(node.subs, com) if s.path != path]
    return [com_cut(s, c, path, how) for s, c in zip(node.subs, com)]


def select(node, x, path, idx):
    """A commitment or responses with only some of the parts of the node at `path`."""
    if not isinstance(x, (list, tuple)) or node.kind == "dl":
        return x
    if node.kind == "or" and isinstance(x, tuple):
        return (x[0], select(node, list(x[1]), path, idx))
    if node.path == path:
        return [x[i] for i in idx if i < len(x)]
    return [select(s, y, path, idx) for s, y in zip(node.subs, x)]


# --- carrying it out -------------------------------------------------------------------------------


def reference_verdict(norm, pre, com, c, resp):
    """What the reference verifier says about a conversation."""
    try:
        node = ref.expand(norm, pre)
        ref.consistent(node, resp, {})
        want = ref.commitment(node, c, resp)
        return ref.same_commitment(node, want, ref.raw_commitment(node, com))
    except (ref.Invalid, TypeError, IndexError, KeyError, ValueError, AttributeError):
        return False


class Attack(byz.Attempt):
    """`norm`: the normal tree attacked; `V`: the verifier's machine; `A`: the adversary's own machine with
    the same statement under handle `h`."""

    def __init__(self, ctx, V, A, h, norm, wit, sigs, pl):
        self.ctx, self.V, self.A, self.h = ctx, V, A, h
        self.norm = norm
        self.wit = dict(wit)
        self.rng = ctx.rng
        self.pl = pl
        wrap = A.points("own").wrap
        over = {k: v for k, v in pl.pover.items() if isinstance(v, dict)}
        self.pre = ref.precommit(norm, self.wit, self.rng, wrap, sigs, tamperer(ctx, norm, pl, wit, sigs, wrap), over=over)
        self.node = ref.expand(norm, self.pre, lax=True)
        self.args = dict(over=pl.over, choose=pl.choose, tricks=pl.tricks, split=pl.split, bias=pl.bias, fit=pl.fit, factor=pl.factor)
        self.resp = None

    def start(self):
        self.prover = ref.Prover(self.node, self.wit, self.rng, **self.args)
        raw = self.prover.commit()
        self.com = byz.wrap_tree(self.A, self.node, raw)
        for p, how in self.pl.comcuts.items():
            self.com = com_cut(self.node, self.com, p, how)
        for p, idx in self.pl.keeps.items():
            self.com = select(self.node, self.com, p, idx)

    def respond(self, c):
        r = self.prover.respond(c)
        for p, how in self.pl.cuts.items():
            r = byz.cut_response(self.node, r, p, how, self.rng, None)
        for p, idx in self.pl.keeps.items():
            r = select(self.node, r, p, idx)
        self.c, self.resp = c, r
        return r

    def assemble(self, message=None):
        """Outcome: the bytes of a non-interactive attempt."""
        self.start()
        A, h = self.A, self.h
        kw = {} if message is None else {"message": message}

        def make():
            stmt = A.stmts[h].stmt
            if self.pre is not None:
                stmt.get_verifier().process_precommitment(self.pre)
            return byz.Puppet(stmt, self.pre, self.com, self.respond).get_nizk_proof(**kw)

        A.op_byz = make
        o = A.call("byz")
        if not o.ok:
            self.ctx.probe("attack-not-assembled")
            return o
        n = o.value
        try:
            o.value = wire.unparts([n.challenge, n.responses, n.precommitment, n.stmt_hash])
        except Exception as e:
            return type(o)("unsendable", str(e))
        return o

    def proof(self, message=None):
        o = self.assemble(message)
        return o.value if o.ok else None

    def run_nizk(self, message=None):
        o = self.assemble(message)
        if not o.ok:
            return o
        return self.ctx.call(self.V, "verify", self.h, o.value, message=message)

    def run_session(self, s):
        self.start()
        V, A, h, ctx = self.V, self.A, self.h, self.ctx
        ctx.call(V, "v_new", s, h)
        if self.pre is not None:
            o = ctx.call(V, "v_pre", s, wire.enc(self.pre))
            if not o.ok:
                return o
            o = A.call("v_new", s, h)
            A.call("v_pre", s, wire.enc(self.pre))
        o = A.call("id", h)
        if not o.ok:
            return o
        o = ctx.call(V, "v_com", s, wire.enc((bytes.fromhex(o.value), self.com)))
        if not o.ok:
            return o
        try:
            data = wire.enc(self.respond(int(o.value)))
        except Exception as e:
            return type(o)("unsendable", str(e))
        return ctx.call(V, "v_resp", s, data)

    def judge(self, o, cls):
        ctx = self.ctx
        if o.kind == "hang":
            ctx.fail("hang", self.pl.name)
        if not o.accepted:
            return False
        if reference_verdict(self.norm, self.pre, self.com, self.c, self.resp):
            ctx.probe("attack-legitimate")
            return True
        ctx.fail(cls, "%s accepted for %s" % (self.pl.name, world.describe(self.norm)))


def both(ctx, attack, n, cls, fault=True):
    """Run an attack in one of the modes."""
    if fault:
        for x in set(attack.pl.names) or {"garbage"}:
            ctx.fault("attack-" + x)
    if ctx.ch.draw(2):
        ctx.probe("attacks-in-session")
        o = attack.run_session("att%d" % n)
    else:
        ctx.probe("attacks-nizk")
        o = attack.run_nizk(ctx.ch.pick([None, None, "m"]))
    return attack.judge(o, cls)


def control(ctx, V, A, h, norm, wit, sigs):
    """The reference prover on a true statement: the attacks are not vacuous."""
    pl = Plan()
    val = evaluate(norm, wit, sigs)
    if not val["0"]:
        return
    pl = make_plan(ctx, norm, wit, sigs, val)
    try:
        at = Attack(ctx, V, A, h, norm, wit, sigs, pl)
        o = at.run_nizk() if ctx.ch.draw(2) else at.run_session("ctl")
    except ref.Invalid:
        ctx.probe("control-refused")
        return
    ctx.probe("control-accepted" if o.accepted else "control-refused")


def library(ctx, V, h, tree, secrets, sigs, cls, n=0, session=True):
    """The library's own prover on a statement that is false for every witness: nothing it gives may
    be accepted.  (In a session, the challenge must not be an edge value: zero convinces.)"""
    P = ctx.host("L%d" % n)
    c = {"tree": tree, "secrets": secrets, "sigs": sigs}
    o = common.build_prover(ctx, P, "lib", c)
    if not o.ok:
        ctx.probe("library-refused-to-build")
        return
    ctx.fault("library-prover-on-false-statement")
    if ctx.ch.draw(2) or not session:
        o = ctx.call(P, "prove", "lib")
        if not o.ok:
            ctx.probe("library-refused-to-prove")
            return
        o = ctx.call(V, "verify", h, o.value)
    else:
        o = ctx.call(P, "p_new", "lib", "lib")
        if not o.ok:
            ctx.probe("library-refused-to-prove")
            return
        ctx.call(V, "v_new", "lib%d" % n, h)
        o = common.interactive(ctx, P, "lib", V, "lib%d" % n)
    if o.kind == "hang":
        ctx.fail("hang", "library prover")
    if o.accepted:
        ctx.fail(cls, "the library's prover was accepted for %s" % world.describe(tree))


def place(ctx, g, make):
    """A false statement around false leaves."""
    ch = ctx.ch
    pool = world.Pool()
    how = ch.weighted([("alone", 4), ("and", 3), ("or", 3), ("and-in-or", 1), ("or-in-and", 2)])
    style = ch.pick(["op", "ctor"])

    def conj(pool):
        subs = [make(pool)] + [g.leaf(pool, True) for _ in range(1 + ch.draw(2))]
        k = ch.draw(len(subs))
        subs[0], subs[k] = subs[k], subs[0]
        return {"k": "and", "subs": subs, "style": style, "t": False}

    if how == "alone":
        return make(pool)
    if how == "and":
        return conj(pool)
    if how == "and-in-or":
        return {"k": "or", "subs": [conj(pool), make(world.Pool())], "style": style, "t": False}
    t = {"k": "or", "subs": [make(world.Pool()) for _ in range(2 + ch.draw(2))], "style": style, "t": False}
    if how == "or-in-and":
        subs = [t, g.leaf(pool, True)]
        if ch.draw(2):
            subs.reverse()
        t = {"k": "and", "subs": subs, "style": style, "t": False}
    return t


def machines(ctx, tree):
    V = ctx.host("V", remote=ctx.ch.chance(15))
    A = ctx.host("A")
    kw = {}
    if ctx.ch.chance(12):
        kw["naming"] = "stray"
        ctx.probe("verifier-with-values-of-its-own")
    elif ctx.ch.chance(10):
        kw["marks"] = 1 + ctx.ch.draw(1000)
        ctx.probe("verifier-with-marks")
    if not common.build_verifier(ctx, V, "st", tree, **kw).ok or not common.build_verifier(ctx, A, "st", tree).ok:
        raise core.Discard("building")
    return V, A
