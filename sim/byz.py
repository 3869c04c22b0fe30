"""A dishonest prover: reference prover parts put together wrongly, against the library's verifier."""

from zksk.base import Prover as LibProver, NIZK
from sim import ref, wire, world, core
from sim.env import ENTROPY


class Puppet(LibProver):
    """Gives prepared messages to the library's own proof assembly, so that the challenge is what the
    library makes of them."""

    def __init__(self, stmt, pre, com, respond):
        self.stmt, self.secret_values = stmt, {}
        self.pre, self.com, self.respond = pre, com, respond

    def precommit(self):
        return self.pre

    def internal_commit(self, randomizers_dict=None):
        return self.com

    def compute_response(self, challenge):
        return self.respond(int(challenge))


def wrap_tree(host, node, com):
    """Library points for a commitment of raw points."""
    if node.kind == "dl":
        return host.points("own").wrap(node.grp.gid, com)
    return [wrap_tree(host, s, x) for s, x in zip(node.subs, com)]


class Attempt:
    """One attempt at convincing `V` of statement `h` (its spec: `tree`)."""

    def __init__(self, ctx, V, h, tree, wit, sigs=None, tamper=None, over=None, pover=None, choose=None,
                 tricks=None, split=False, mangle=None, mangle_com=None, pre=None):
        self.ctx, self.V, self.h = ctx, V, h
        self.norm = ref.normal(tree)
        self.wit = dict(wit)
        self.rng = ctx.rng
        wrap = V.points("own").wrap
        self.pre = pre if pre is not None else ref.precommit(
            self.norm, self.wit, self.rng, wrap, sigs or {}, tamper, over=pover)
        self.node = ref.expand(self.norm, self.pre, lax=True)
        self.args = dict(over=over, choose=choose, tricks=tricks, split=split)
        self.mangle = mangle
        self.mangle_com = mangle_com

    def tricky(self, which):
        """Tricks for the disjunctions that cannot be proved."""
        pass

    def start(self):
        self.prover = ref.Prover(self.node, self.wit, self.rng, **self.args)
        com = self.prover.commit()
        self.com = wrap_tree(self.V, self.node, com)
        if self.mangle_com is not None:
            self.com = self.mangle_com(self.com)

    def respond(self, c):
        r = self.prover.respond(c)
        if self.mangle is not None:
            r = self.mangle(r)
        return r

    def outcome(self, fn):
        """Run a step of the attack inside the library; errors are refusals."""
        from sim.host import Outcome, Hang

        self.V.op_byz = lambda: fn()
        return self.V.call("byz")

    def nizk(self, message=None):
        self.start()
        V, h = self.V, self.h
        kw = {} if message is None else {"message": message}

        def make():
            stmt = V.stmts[h].stmt
            if self.pre is not None:
                stmt.get_verifier().process_precommitment(self.pre)
            return Puppet(stmt, self.pre, self.com, self.respond).get_nizk_proof(**kw)

        o = self.outcome(make)
        if not o.ok:
            return o
        n = o.value
        try:
            proof = wire.unparts([n.challenge, n.responses, n.precommitment, n.stmt_hash])
        except Exception as e:
            return type(o)("unsendable", str(e))
        self.proof = proof
        return self.ctx.call(V, "verify", h, proof, message=message)

    def interactive(self, s):
        self.start()
        V, h, ctx = self.V, self.h, self.ctx
        ctx.call(V, "v_new", s, h)
        if self.pre is not None:
            o = ctx.call(V, "v_pre", s, wire.enc(self.pre))
            if not o.ok:
                return o
        o = self.outcome(lambda: V.stmts[h].stmt.prehash_statement().digest())
        if not o.ok:
            return o
        o = ctx.call(V, "v_com", s, wire.enc((o.value, self.com)))
        if not o.ok:
            return o
        try:
            data = wire.enc(self.respond(int(o.value)))
        except Exception as e:
            return type(o)("unsendable", str(e))
        return ctx.call(V, "v_resp", s, data)


# --- shared secrets with different values ---------------------------------------------------------


def occurrences(norm, path="0"):
    """[(secret, kind, path, index, node)] of a normal tree, dl terms and bound secrets."""
    out = []
    k = norm["k"]
    if k in ("and", "or"):
        for i, s in enumerate(norm["subs"]):
            out.extend(occurrences(s, "%s.%d" % (path, i)))
    elif k == "dl":
        for i, (s, _) in enumerate(norm["terms"]):
            out.append((s, "dl", path, i, norm))
    elif k == "dlne" and norm.get("bind"):
        out.append((norm["x"], "dlne", path, 0, norm))
    elif k == "bbs":
        off = 2 if norm.get("binding") else 0
        for i, s in enumerate(norm["vars"][off:]):
            out.append((s, "bbs", path, i, norm))
    elif k == "cust":
        v = norm["v"]
        if v in ("elg", "valonly", "rep", "pre", "prel", "or", "num", "deep"):
            out.append((norm["sec"]["r"], "cust", path, 0, norm))
        if v in ("elg", "valonly"):
            out.append((norm["sec"]["m"], "cust", path, 1, norm))
    return out


def node_at(tree, path):
    n = tree
    for i in [int(x) for x in path.split(".")[1:]]:
        n = n["subs"][i]
    return n


def mismatch(ctx, norm, occ, wit, sigs, keys, factor=None):
    """Change the public values of one occurrence so that another value of the secret fits there (`factor` times
    the first, if given).  Works on a normal tree in place; returns (prover overrides, precommitment overrides)."""
    s, kind, path, i, _ = occ
    node = node_at(norm, path)
    rng = ctx.rng
    v = wit[s]

    def other(q):
        return rng.randrange(1, q) if factor is None else (factor - 1) * v % q or 1

    if kind == "dl":
        grp = ref.group(node["g"])
        d = other(grp.q)
        lhs = ref.lincomb(grp, [(d, ref.cpt(node["g"], node["terms"][i][1]))])
        node["lhs"] = ref.hx(node["g"], grp.add(ref.cpt(node["g"], node["lhs"]), lhs))
        return {(path, i): v + d}, {}
    if kind == "dlne":
        grp = ref.group(node["g"])
        d = other(grp.q)
        node["H0"] = ref.hx(node["g"], grp.mul(v + d, ref.cpt(node["g"], node["h0"])))
        node["H1"] = ref.hx(node["g"], grp.mul(v + d + 1 + rng.randrange(1000), ref.cpt(node["g"], node["h1"])))
        return {(path + ".2", 0): v + d}, {path: {s: v + d}}
    if kind == "bbs":
        q = ref.group("G1").q
        d = other(q)
        off = 2 if node.get("binding") else 0
        sk = next(sk for sk, pk in keys if pk["w"] == node["pk"]["w"])
        vals = [wit[x] for x in node["vars"][off:]]
        vals[i] += d
        sig = world.raw_sign(sk, node["pk"], vals, rng)
        sigs[node["sig"]] = sig
        over = {}
        # leaf 2 has terms e, r1, d1, s, m...
        over[(path + ".2", 4 + i)] = v + d
        if off:
            # e and s are shared only within the statement, so their new values simply replace the old
            wit[node["vars"][0]], wit[node["vars"][1]] = int(sig["e"]), int(sig["s"])
        return over, {}
    grp = ref.group(node["g"])
    d = other(grp.q)
    P = node["pts"]
    gid = node["g"]
    if i == 0:
        P["c1"] = ref.hx(gid, grp.add(ref.cpt(gid, P["c1"]), grp.mul(d, ref.cpt(gid, P["G"]))))
        over = {}
        if node["v"] in ("elg", "valonly"):
            over[(path + ".0", 0)] = v + d
        elif node["v"] in ("pre", "deep"):
            over[(path + ".0", 0)] = v + d
        elif node["v"] == "or":
            return None
        else:
            over[(path, 0)] = v + d
        return over, {}
    P["c2"] = ref.hx(gid, grp.add(ref.cpt(gid, P["c2"]), grp.mul(d, ref.cpt(gid, P["G"]))))
    return {(path + ".1", 1): v + d}, {}


def scope_of(norm, path):
    """The innermost disjunct (or the root) a path lies in: secrets are shared within it."""
    cur, node = "0", norm
    best = "0"
    for i in [int(x) for x in path.split(".")[1:]]:
        if node["k"] == "or":
            best = "%s.%d" % (cur, i)
        cur = "%s.%d" % (cur, i)
        node = node["subs"][i]
    return best


# --- malformed responses ---------------------------------------------------------------------------


def cut_response(node, resp, path, how, rng, wit_free):
    """Responses with the part of leaf `path` cut or replaced."""
    if node.path == path:
        if how == "empty":
            return []
        if how == "short":
            return list(resp)[:-1]
        if how == "zeros":
            return [ref.bn(0) for _ in resp]
        if how == "none":
            return None
        return resp
    if node.kind == "and":
        if how == "drop" and any(s.path == path for s in node.subs):
            return [r for s, r in zip(node.subs, resp) if s.path != path]
        return [cut_response(s, r, path, how, rng, wit_free) for s, r in zip(node.subs, resp)]
    if node.kind == "or":
        return (resp[0], [cut_response(s, r, path, how, rng, wit_free) for s, r in zip(node.subs, resp[1])])
    return resp
