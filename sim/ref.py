"""Reference implementation: groups, statements, prover parts and verifier, independent of zksk.

Points are handled as raw petlib/bplib elements behind a small uniform interface.  The statement
trees are the JSON specs made by `world`; the format of proofs is the library's wire format.
"""

from petlib.bn import Bn
from petlib.ec import EcGroup, EcPt
from bplib.bp import BpGroup, G1Elem, G2Elem, GTElem

CHALLENGE_BITS = 128
CH = 1 << CHALLENGE_BITS


def bn(i):
    return Bn.from_decimal(str(i))


class Invalid(Exception):
    """The reference verifier refuses."""


class EcG:
    def __init__(self, nid):
        self.gid = "ec%d" % nid
        self.g = EcGroup(nid)
        self.q = int(self.g.order())
        self.inf = self.g.infinite()
        self.gen = self.g.generator()

    def mul(self, k, p):
        return bn(k % self.q) * p

    def add(self, a, b):
        return a + b

    def neg(self, a):
        return -a

    def eq(self, a, b):
        return a == b

    def enc(self, p):
        return p.export()

    def dec(self, data):
        return EcPt.from_binary(data, self.g)

    def hash(self, data):
        return self.g.hash_to_point(data)


_bp = None


def bpgroup():
    global _bp
    if _bp is None:
        _bp = BpGroup()
    return _bp


class G1G:
    gid = "G1"

    def __init__(self):
        self.bp = bpgroup()
        self.q = int(self.bp.order())
        self.gen = self.bp.gen1()
        self.inf = G1Elem.inf(self.bp)

    def mul(self, k, p):
        return p * bn(k % self.q)

    def add(self, a, b):
        return a + b

    def neg(self, a):
        return a.neg()

    def eq(self, a, b):
        return a.eq(b)

    def enc(self, p):
        return p.export()

    def dec(self, data):
        return G1Elem.from_bytes(data, self.bp)

    def hash(self, data):
        return self.bp.hashG1(data)


class G2G(G1G):
    gid = "G2"

    def __init__(self):
        self.bp = bpgroup()
        self.q = int(self.bp.order())
        self.gen = self.bp.gen2()
        self.inf = G2Elem.inf(self.bp)

    def dec(self, data):
        return G2Elem.from_bytes(data, self.bp)

    def hash(self, data):
        raise NotImplementedError


class GTG:
    gid = "GT"

    def __init__(self):
        self.bp = bpgroup()
        self.q = int(self.bp.order())
        self.inf = GTElem.one(self.bp)
        self.gen = self.bp.pair(self.bp.gen1(), self.bp.gen2())

    def mul(self, k, p):
        k %= self.q
        if k == 0:
            return self.inf
        if k > self.q - (1 << 140):  # small negative scalars
            return p.inv() ** bn(self.q - k)
        return p ** bn(k)

    def add(self, a, b):
        return a * b

    def neg(self, a):
        return a.inv()

    def eq(self, a, b):
        return a.eq(b)

    def enc(self, p):
        return p.export()

    def dec(self, data):
        return GTElem.from_bytes(data, self.bp)

    def hash(self, data):
        return self.bp.pair(self.bp.hashG1(data), self.bp.gen2())


_groups = {}


def group(gid):
    if gid not in _groups:
        if gid.startswith("ec"):
            _groups[gid] = EcG(int(gid[2:]))
        else:
            _groups[gid] = {"G1": G1G, "G2": G2G, "GT": GTG}[gid]()
    return _groups[gid]


def pt(gid, hexa):
    """Decode a point given as hex."""
    return group(gid).dec(bytes.fromhex(hexa))


_pts = {}


def cpt(gid, hexa):
    """Decode with a cache (points are immutable for us)."""
    k = (gid, hexa)
    p = _pts.get(k)
    if p is None:
        if len(_pts) > 4000:
            _pts.clear()
        p = _pts[k] = pt(gid, hexa)
    return p


def hx(gid, p):
    return group(gid).enc(p).hex()


def lincomb(grp, terms):
    acc = grp.inf
    for k, p in terms:
        acc = grp.add(acc, grp.mul(k, p))
    return acc


def as_ref(grp, libpoint):
    """Raw point of `grp` from whatever point object the library holds."""
    name = type(libpoint).__name__
    if grp.gid.startswith("ec"):
        if not isinstance(libpoint, EcPt):
            raise Invalid("not a point of %s: %s" % (grp.gid, name))
        if libpoint.group != grp.g:
            raise Invalid("point of another curve")
        return libpoint
    raw = getattr(libpoint, "pt", None)
    kind = {"G1": G1Elem, "G2": G2Elem, "GT": GTElem}[grp.gid]
    if not isinstance(raw, kind):
        raise Invalid("not a point of %s: %s" % (grp.gid, name))
    return raw


# --- statement trees ----------------------------------------------------------------------------


def dl(gid, lhs, terms):
    return {"k": "dl", "g": gid, "lhs": lhs, "terms": terms}


class Concrete:
    """Concrete tree: only dl / and / or, raw points."""

    __slots__ = ("kind", "grp", "lhs", "terms", "subs", "path")

    def __init__(self, kind, path, grp=None, lhs=None, terms=None, subs=None):
        self.kind, self.path = kind, path
        self.grp, self.lhs, self.terms, self.subs = grp, lhs, terms, subs

    def leaves(self):
        if self.kind == "dl":
            yield self
        else:
            for s in self.subs:
                for l in s.leaves():
                    yield l


def normal(node):
    """Normal form of a spec tree: composed specs flattened the way the operators do it, range
    statements opened into their conjunction."""
    k = node["k"]
    if k == "range":
        return {"k": "and", "subs": range_parts(node), "style": "op", "range": True}
    if k in ("and", "or"):
        subs = [normal(s) for s in node["subs"]]
        if node.get("style") == "op":
            flat = []
            for s in subs:
                if s["k"] == k:
                    flat.extend(s["subs"])
                else:
                    flat.append(s)
            subs = flat
        out = dict(node)
        out["subs"] = subs
        return out
    return node


def num_bits(a, b):
    return (b - a - 1).bit_length()


def range_parts(node):
    grp = group(node["g"])
    com, g, h = (cpt(node["g"], node[x]) for x in ("com", "gg", "hh"))
    a, b = int(node["a"]), int(node["b"])
    n = num_bits(a, b)
    off = (1 << n) - (b - a)
    c1 = grp.add(com, grp.mul(-a, g))
    c2 = grp.add(c1, grp.mul(off, g))
    gid = node["g"]
    return [
        dl(gid, node["com"], [[node["x"], node["gg"]], [node["r"], node["hh"]]]),
        {"k": "p2", "g": gid, "com": hx(gid, c1), "gg": node["gg"], "hh": node["hh"], "n": n,
         "x": node["x"], "r": node["r"], "off": -a},
        {"k": "p2", "g": gid, "com": hx(gid, c2), "gg": node["gg"], "hh": node["hh"], "n": n,
         "x": node["x"], "r": node["r"], "off": -a + off},
    ]


EXT = ("dlne", "p2", "bbs", "cust")


def children(node):
    return node["subs"] if node["k"] in ("and", "or") else []


def has_ext(node):
    return node["k"] in EXT or any(has_ext(c) for c in children(node))


def getpre(pre, key):
    if not isinstance(pre, dict):
        raise Invalid("precommitment is no dictionary")
    for k in (key, key.encode()):
        if k in pre:
            return pre[k]
    raise Invalid("precommitment lacks %s" % key)


def toint(x):
    # True is another way to write one
    if not isinstance(x, (int, Bn)):
        raise Invalid("not a number: %r" % type(x))
    return int(x)


def expand(node, pre, path="0", lax=False):
    """Concrete tree of a *normal* spec tree under a precommitment; raises Invalid where the
    precommitment is unacceptable."""
    k = node["k"]
    if k == "dl":
        grp = group(node["g"])
        return Concrete("dl", path, grp, cpt(node["g"], node["lhs"]),
                        [(s, cpt(node["g"], b)) for s, b in node["terms"]])
    if k in ("and", "or"):
        subs = []
        for i, s in enumerate(node["subs"]):
            if pre is None:
                sp = None
            else:
                if not isinstance(pre, (list, tuple)) or i >= len(pre):
                    raise Invalid("precommitment list too short")
                sp = pre[i]
            subs.append(expand(s, sp, "%s.%d" % (path, i), lax))
        return Concrete(k, path, subs=subs)
    if pre is None:
        raise Invalid("precommitment missing")
    if k == "dlne":
        grp = group(node["g"])
        c = as_ref(grp, pre)
        H0, h0, H1, h1 = (cpt(node["g"], node[x]) for x in ("H0", "h0", "H1", "h1"))
        if grp.eq(c, grp.inf) and not lax:
            raise Invalid("unity precommitment")
        al, be = path + ":alpha", path + ":beta"
        subs = [
            Concrete("dl", path + ".0", grp, grp.inf, [(al, h0), (be, H0)]),
            Concrete("dl", path + ".1", grp, c, [(al, h1), (be, H1)]),
        ]
        if node.get("bind"):
            subs.append(Concrete("dl", path + ".2", grp, H0, [(node["x"], h0)]))
        return Concrete("and", path, subs=subs)
    if k == "p2":
        grp = group(node["g"])
        com, g, h = (cpt(node["g"], node[x]) for x in ("com", "gg", "hh"))
        Cs = getpre(pre, "Cs")
        rand = None if lax else toint(getpre(pre, "rand"))
        if not lax and (not isinstance(Cs, (list, tuple)) or len(Cs) != node["n"]):
            raise Invalid("wrong number of bit commitments")
        Cs = [as_ref(grp, c) for c in Cs]
        acc = lincomb(grp, [(1 << i, c) for i, c in enumerate(Cs)])
        if not lax and not grp.eq(acc, grp.add(com, grp.mul(rand, h))):
            raise Invalid("bit commitments do not combine")
        subs = []
        for i, c in enumerate(Cs[: node["n"]]):
            r = "%s:r%d" % (path, i)
            subs.append(Concrete("or", "%s.%d" % (path, i), subs=[
                Concrete("dl", "%s.%d.0" % (path, i), grp, c, [(r, h)]),
                Concrete("dl", "%s.%d.1" % (path, i), grp, grp.add(c, grp.neg(g)), [(r, h)]),
            ]))
        if len(subs) == 1:
            return subs[0]
        return Concrete("and", path, subs=subs)
    if k == "bbs":
        grp = group("G1")
        gt = group("GT")
        bp = bpgroup()
        A1, A2 = as_ref(grp, getpre(pre, "A1")), as_ref(grp, getpre(pre, "A2"))
        pk = node["pk"]
        gens = [cpt("G1", x) for x in pk["gens"]]
        w, h0 = cpt("G2", pk["w"]), cpt("G2", pk["h0"])
        r1, r2, d1, d2 = (path + ":" + x for x in ("r1", "r2", "d1", "d2"))
        sv = list(node["vars"])
        if not node.get("binding", True):
            sv = [path + ":e", path + ":s"] + sv
        e = sv[0]
        lhs = gt.add(bp.pair(A2, w), gt.neg(pairc(gens[0], h0, pk["gens"][0], pk["h0"])))
        terms = [(e, gt.neg(bp.pair(A2, h0))), (r1, pairc(gens[2], w, pk["gens"][2], pk["w"])),
                 (d1, pairc(gens[2], h0, pk["gens"][2], pk["h0"]))]
        for i, s in enumerate(sv[1:]):
            terms.append((s, pairc(gens[i + 1], h0, pk["gens"][i + 1], pk["h0"])))
        subs = [
            Concrete("dl", path + ".0", grp, A1, [(r1, gens[1]), (r2, gens[2])]),
            Concrete("dl", path + ".1", grp, grp.inf, [(d1, gens[1]), (d2, gens[2]), (e, grp.neg(A1))]),
            Concrete("dl", path + ".2", gt, lhs, terms),
        ]
        return Concrete("and", path, subs=subs)
    if k == "cust":
        return expand_cust(node, pre, path, lax)
    raise AssertionError(k)


_pairs = {}


def pairc(g, h, kg, kh):
    k = (kg, kh)
    if k not in _pairs:
        if len(_pairs) > 500:
            _pairs.clear()
        _pairs[k] = bpgroup().pair(g, h)
    return _pairs[k]


def expand_cust(node, pre, path, lax=False):
    """User-defined primitives (see `build.CUSTOM`)."""
    grp = group(node["g"])
    v = node["v"]
    P = {x: cpt(node["g"], y) for x, y in node["pts"].items()}
    S = node["sec"]

    def leaf(i, lhs, terms, p=path):
        return Concrete("dl", "%s.%d" % (p, i), grp, lhs, terms)

    if v == "valonly" and not lax and grp.eq(P["c1"], P["bad"]):
        raise Invalid("custom validation")
    if v in ("elg", "valonly"):  # c1 = rG, c2 = rH + mG
        return Concrete("and", path, subs=[
            leaf(0, P["c1"], [(S["r"], P["G"])]),
            leaf(1, P["c2"], [(S["r"], P["H"]), (S["m"], P["G"])]),
        ])
    if v == "rep":
        return Concrete("dl", path, grp, P["c1"], [(S["r"], P["G"])])
    if v == "or":
        return Concrete("or", path, subs=[
            leaf(0, P["c1"], [(S["r"], P["G"])]),
            leaf(1, P["c2"], [(S["m"], P["H"])]),
        ])
    if v == "pre":  # precommitment D = tG (t fresh), prove c1 = rG and D = t G, validated: D != 0
        D = as_ref(grp, getpre(pre, "D"))
        tag = None if lax else getpre(pre, "tag")
        if grp.eq(D, grp.inf) and not lax:
            raise Invalid("custom validation")
        if not lax and tag not in ("t", b"t"):
            raise Invalid("custom validation")
        return Concrete("and", path, subs=[
            leaf(0, P["c1"], [(S["r"], P["G"])]),
            leaf(1, D, [(path + ":t", P["G"])]),
        ])
    if v == "prel":  # precommitment: a list of two points that must add up to c1 + H
        if lax:
            return Concrete("dl", path, grp, P["c1"], [(S["r"], P["G"])])
        if not isinstance(pre, (list, tuple)) or len(pre) != 2:
            raise Invalid("custom validation")
        a, b = (as_ref(grp, x) for x in pre)
        if not grp.eq(grp.add(a, b), grp.add(P["c1"], P["H"])):
            raise Invalid("custom validation")
        return Concrete("dl", path, grp, P["c1"], [(S["r"], P["G"])])
    if v == "num":  # precommitment: a number k, prove k c1 = r (k G)
        k = toint(pre)
        if not lax and not 1 <= k <= 1000:
            raise Invalid("custom validation")
        return Concrete("dl", path, grp, grp.mul(k, P["c1"]), [(S["r"], grp.mul(k, P["G"]))])
    if v == "deep":
        D = getpre(pre, "D")
        if not isinstance(D, (list, tuple)) or len(D) < 2:
            raise Invalid("custom validation")
        D = [as_ref(grp, x) for x in D]
        if not lax and (len(D) != 2 or grp.eq(D[0], D[1]) or toint(getpre(pre, "n")) != 7
                        or getpre(pre, "raw") != b"\x00\xff" or getpre(pre, "no") is not None):
            raise Invalid("custom validation")
        return Concrete("and", path, subs=[
            leaf(0, P["c1"], [(S["r"], P["G"])]),
            Concrete("or", path + ".1", subs=[
                leaf(0, D[0], [(path + ":t", P["G"])], path + ".1"), leaf(1, D[1], [(path + ":u", P["G"])], path + ".1")]),
        ])
    raise AssertionError(v)


# --- proofs -------------------------------------------------------------------------------------


def consistent(node, resp, seen):
    """Responses of equal secrets agree; raises Invalid."""
    if node.kind == "dl":
        if not isinstance(resp, (list, tuple)) or len(resp) < len(node.terms):
            raise Invalid("responses missing")
        for (s, _), r in zip(node.terms, resp):
            r = toint(r)
            if s in seen and seen[s] != r:
                raise Invalid("responses of %s differ" % s)
            seen[s] = r
        return
    if node.kind == "and":
        if not isinstance(resp, (list, tuple)) or len(resp) < len(node.subs):
            raise Invalid("responses missing")
        for s, r in zip(node.subs, resp):
            consistent(s, r, seen)
        return
    if not isinstance(resp, (list, tuple)) or len(resp) < 2:
        raise Invalid("or-response is no pair")
    if len(resp[1]) != len(node.subs):
        raise Invalid("wrong number of responses")
    for s, r in zip(node.subs, resp[1]):
        consistent(s, r, {})


def commitment(node, c, resp):
    """Commitment (nested lists of raw points) that makes the responses valid; raises Invalid."""
    if node.kind == "dl":
        acc = lincomb(node.grp, [(toint(r), b) for (_, b), r in zip(node.terms, resp)])
        return node.grp.add(acc, node.grp.mul(-c, node.lhs))
    if node.kind == "and":
        return [commitment(s, c, r) for s, r in zip(node.subs, resp)]
    ocs = [toint(x) for x in resp[0]]
    if len(ocs) != len(node.subs):
        raise Invalid("wrong number of sub-challenges")
    if any(x < 0 or x >= CH for x in ocs):
        raise Invalid("sub-challenge out of range")
    if (sum(ocs) - c) % CH:
        raise Invalid("sub-challenges do not add up")
    return [commitment(s, x, r) for s, x, r in zip(node.subs, ocs, resp[1])]


def canonical(node, c, resp):
    """What a (challenge, responses) pair means, without benign freedom (representatives modulo the
    group order, surplus elements)."""
    if node.kind == "dl":
        # terms on the same base are interchangeable as far as the equation goes
        acc = {}
        for (_, b), r in zip(node.terms, resp):
            k = node.grp.enc(b)
            acc[k] = (acc.get(k, 0) + toint(r)) % node.grp.q
        return tuple(sorted(acc.items()))
    if node.kind == "and":
        return tuple(canonical(s, c, r) for s, r in zip(node.subs, resp))
    return (tuple(toint(x) for x in resp[0][: len(node.subs)]),
            tuple(canonical(s, x, r) for s, x, r in zip(node.subs, resp[0], resp[1])))


def same_commitment(node, a, b):
    if node.kind == "dl":
        return node.grp.eq(a, b)
    return len(a) == len(b) == len(node.subs) and all(
        same_commitment(s, x, y) for s, x, y in zip(node.subs, a, b))


def raw_commitment(node, com):
    """Raw points of a commitment received from the library."""
    if node.kind == "dl":
        return as_ref(node.grp, com)
    if not isinstance(com, (list, tuple)) or len(com) != len(node.subs):
        raise Invalid("commitment shape")
    return [raw_commitment(s, x) for s, x in zip(node.subs, com)]


# --- prover parts -------------------------------------------------------------------------------


class Rnd:
    def __init__(self, rng):
        self.rng = rng

    def below(self, n):
        return self.rng.randrange(n)


def simulate(node, c, rng, resp=None):
    """Simulated (commitment, responses) of a concrete tree for challenge c (an integer)."""
    if resp is None:
        resp = {}
    if node.kind == "dl":
        rs = []
        for s, _ in node.terms:
            if s not in resp:
                resp[s] = rng.randrange(node.grp.q)
            rs.append(bn(resp[s]))
        return commitment(node, c, rs), rs
    if node.kind == "and":
        parts = [simulate(s, c, rng, resp) for s in node.subs]
        return [p[0] for p in parts], [p[1] for p in parts]
    n = len(node.subs)
    cs = [rng.randrange(CH) for _ in range(n - 1)]
    cs.append((c - sum(cs)) % CH)
    parts = [simulate(s, x, rng, {}) for s, x in zip(node.subs, cs)]
    return [p[0] for p in parts], ([bn(x) for x in cs], [p[1] for p in parts])


def truth(node, wit):
    """Does the assignment satisfy the concrete tree?"""
    if node.kind == "dl":
        if any(s not in wit for s, _ in node.terms):
            return False
        return node.grp.eq(lincomb(node.grp, [(wit[s], b) for s, b in node.terms]), node.lhs)
    f = all if node.kind == "and" else any
    return f(truth(s, wit) for s in node.subs)


class Prover:
    """Prover on a concrete tree.  With a satisfying assignment it is honest; with any other one it
    does the same thing anyway.

    over: values for single occurrences, {(leaf path, term index): value}
    choose: clause to run of a disjunction, {path: index}
    tricks: what to do with the sub-challenges of a disjunction, {path: name}; its clauses are then
    all simulated."""

    def __init__(self, node, wit, rng, over=None, choose=None, tricks=None, split=False, bias=None, fit=None, factor=None):
        self.factor = factor
        self.bias = bias or {}
        self.fit = fit  # how different responses for one secret are made to look alike
        self.seen = {}
        self.node, self.wit, self.rng = node, wit, rng
        self.over = over or {}
        self.choose = choose or {}
        self.tricks = tricks or {}
        self.split = split  # own randomizer for every occurrence
        self.state = {}
        self.rand = {}

    def commit(self, node=None, scope=None):
        node = node or self.node
        scope = self.rand if scope is None else scope
        if node.kind == "dl":
            ks = []
            for i, (s, _) in enumerate(node.terms):
                if self.factor is not None and (node.path, i) in self.over:
                    if s not in scope:
                        scope[s] = self.rng.randrange(node.grp.q)
                    ks.append(self.factor * scope[s] % node.grp.q)
                    continue
                if self.split and (node.path, i) in self.over:
                    ks.append(self.rng.randrange(node.grp.q))
                    continue
                if s not in scope:
                    scope[s] = self.rng.randrange(node.grp.q)
                ks.append(scope[s])
            self.state[node.path] = ks
            return lincomb(node.grp, [(k, b) for k, (_, b) in zip(ks, node.terms)])
        if node.kind == "and":
            return [self.commit(s, scope) for s in node.subs]
        trick = self.tricks.get(node.path)
        idx = None
        if trick is None:
            idx = self.choose.get(node.path)
            if idx is None:
                idx = next((i for i, s in enumerate(node.subs) if self.holds(s)), 0)
        out, sims = [], {}
        for i, s in enumerate(node.subs):
            if i == idx:
                out.append(self.commit(s, {}))
            else:
                c = self.rng.randrange(CH)
                if trick == "zero":
                    c = 0
                com, resp = simulate(s, c, self.rng)
                sims[i] = (c, resp)
                out.append(com)
        self.state[node.path + "#or"] = (idx, sims)
        return out

    def holds(self, node):
        if node.kind == "dl":
            vals = [self.value(node, i, s) for i, (s, _) in enumerate(node.terms)]
            return node.grp.eq(lincomb(node.grp, [(v, b) for v, (_, b) in zip(vals, node.terms)]), node.lhs)
        return (all if node.kind == "and" else any)(self.holds(s) for s in node.subs)

    def value(self, node, i, s):
        return self.over.get((node.path, i), self.wit.get(s, 0))

    def respond(self, c, node=None):
        if node is None:
            node, self.seen = self.node, {}
        if node.kind == "dl":
            return [bn(self.fitted(s, (k + c * self.value(node, i, s)) % node.grp.q, node.grp.q, (node.path, i)))
                    for i, (k, (s, _)) in enumerate(zip(self.state[node.path], node.terms))]
        if node.kind == "and":
            return [self.respond(c, s) for s in node.subs]
        idx, sims = self.state[node.path + "#or"]
        if idx is None:
            return self.cheat(c, node, self.tricks[node.path], sims)
        rest = (c - sum(x for x, _ in sims.values())) % CH
        ocs, rs = [], []
        for i, s in enumerate(node.subs):
            if i == idx:
                ocs.append(bn(rest))
                rs.append(self.respond(rest, s))
            else:
                ocs.append(bn(sims[i][0]))
                rs.append(sims[i][1])
        how = self.bias.get(node.path)
        if how is not None:
            ocs, rs = self.unbalance(node, how, idx, rest, ocs, rs)
        return (ocs, rs)

    def fitted(self, s, r, q, at):
        """Add a multiple of the order, so that what differs looks the same at a glance."""
        if self.fit is None:
            return r
        if self.fit == "high":
            # equal length, equal leading digits
            return r + (q << 300)
        if self.fit == "negative":
            return r - q
        if self.fit == "mirror":
            return r - q if at in self.over else r
        first = self.seen.setdefault(s, r)
        if first == r:
            return r
        m = (1 << 61) - 1 if self.fit == "hash" else 1 << int(self.fit)
        return r + (first - r) * pow(q, -1, m) % m * q

    def unbalance(self, node, how, idx, rest, ocs, rs):
        """A clause is provable, but the sub-challenges do not fit."""
        kind, j = how
        s = node.subs[idx]
        if kind in ("bit", "big", "negative", "shift", "any", "zero"):
            x = {"bit": rest ^ 1 << j, "big": rest + (CH << j % 3), "negative": rest - CH, "shift": (rest + 1 + j) % CH,
                 "any": self.rng.randrange(CH), "zero": 0}[kind]
            ocs[idx] = bn(x)
            rs[idx] = self.respond(x, s)
        elif kind == "surplus":
            ocs, rs = ocs + [bn(0)], rs + [rs[0]] * (j % 2)
        elif kind == "surplus-balanced":
            y = self.rng.randrange(CH)
            x = (rest - y) % CH
            ocs[idx] = bn(x)
            rs[idx] = self.respond(x, s)
            ocs, rs = ocs + [bn(y)], rs + [rs[0]] * (j % 2)
        elif kind == "type":
            ocs[idx] = [float(rest), True, None, str(rest), [bn(rest)]][j % 5]
        elif kind == "swap":
            k = (idx + 1) % len(ocs)
            ocs[idx], ocs[k] = ocs[k], ocs[idx]
        return ocs, rs

    def cheat(self, c, node, trick, sims):
        """All clauses are simulated; make the sub-challenges look right."""
        cs = [sims[i][0] for i in range(len(node.subs))]
        rs = [sims[i][1] for i in range(len(node.subs))]
        rest = (c - sum(cs)) % CH
        if trick in ("plain", "zero"):
            pass
        elif trick == "extra":
            cs = cs + [rest]
        elif trick == "extra-front":
            cs = [rest] + cs
        elif trick == "extra-both":
            cs, rs = cs + [rest], rs + [rs[-1]]
        elif trick == "extra-empty":
            cs, rs = cs + [rest], rs + [[]]
        elif trick == "short":
            cs, rs = [c], rs[:1]
        elif trick == "short-challenges":
            cs = cs[:-1]
        elif trick == "none":
            cs, rs = [], []
        elif trick == "none-challenges":
            cs = []
        elif trick == "replace":
            cs[-1] = (cs[-1] + rest) % CH
        elif trick == "replace-big":
            cs[-1] = cs[-1] + rest
        elif trick in ("order", "order-negative"):
            # congruent modulo the group order, and the sum is right modulo the challenge space
            for i, s in enumerate(node.subs):
                qs = {l.grp.q for l in s.leaves()}
                if len(qs) == 1 and all(x.kind != "or" for x in all_nodes(s)):
                    q = qs.pop()
                    k = rest * pow(q, -1, CH) % CH
                    if trick == "order-negative":
                        k -= CH
                    cs[i] += k * q
                    break
        elif trick == "wrap":
            # right modulo smaller moduli only
            cs[-1] += rest - (rest >> 64 << 64)
        elif trick == "nested":
            cs = [cs, [bn(rest)]]
        return ([bn(x) if isinstance(x, int) else [bn(y) if isinstance(y, int) else y for y in x] for x in cs], rs)


TRICKS = ["plain", "zero", "extra", "extra-front", "extra-both", "extra-empty", "short", "short-challenges", "none",
          "none-challenges", "replace", "replace-big", "order", "order-negative", "wrap", "nested"]
BIASES = ["bit", "big", "negative", "shift", "any", "zero", "surplus", "surplus-balanced", "type", "swap"]


def all_nodes(node):
    yield node
    for s in node.subs or []:
        for x in all_nodes(s):
            yield x


def extract(node, t1, t2, out):
    """Special soundness: from two accepted (challenge, responses) with the same commitment, collect
    values of secrets into `out`; returns the list of satisfied clauses or raises Invalid."""
    (c1, r1), (c2, r2) = t1, t2
    if node.kind == "dl":
        q = node.grp.q
        d = (c1 - c2) % q
        if d == 0:
            raise Invalid("challenges agree")
        inv = pow(d, -1, q)
        for (s, _), a, b in zip(node.terms, r1, r2):
            v = (toint(a) - toint(b)) * inv % q
            if s in out and out[s] != v:
                raise Invalid("two values for %s" % s)
            out[s] = v
        return
    if node.kind == "and":
        for s, a, b in zip(node.subs, r1, r2):
            extract(s, (c1, a), (c2, b), out)
        return
    done = False
    for s, x1, a, x2, b in zip(node.subs, r1[0], r1[1], r2[0], r2[1]):
        x1, x2 = toint(x1), toint(x2)
        if x1 != x2:
            sub = {}
            extract(s, (x1, a), (x2, b), sub)
            if not truth(s, sub):
                raise Invalid("extracted values do not satisfy a clause")
            for k, v in sub.items():
                out.setdefault(k, v)
            done = True
    if not done:
        raise Invalid("no clause with two challenges")


# --- precommitments of a reference prover ---------------------------------------------------------


def precommit(node, wit, rng, wrap, sigs, tamper=None, path="0", over=None):
    """Precommitment of a *normal* tree in library types; puts the internal secrets into `wit`.

    tamper(kind, path, pre, aux) may replace a leaf's precommitment.  Values are taken from
    over[path] where given."""
    k = node["k"]
    if k == "dl":
        return None
    if k in ("and", "or"):
        subs = [precommit(s, wit, rng, wrap, sigs, tamper, "%s.%d" % (path, i), over) for i, s in enumerate(node["subs"])]
        return None if all(x is None for x in subs) else subs
    mine = dict(wit)
    mine.update((over or {}).get(path, {}))
    pre = _precommit(node, mine, wit, rng, wrap, sigs, path)
    if tamper is not None:
        pre = tamper(node, path, pre, wit)
    return pre


def _precommit(node, val, wit, rng, wrap, sigs, path):
    k = node["k"]
    gid = node.get("g")
    if k == "dlne":
        grp = group(gid)
        b = rng.randrange(1, grp.q)
        x = val.get(node["x"], 0)
        wit[path + ":alpha"], wit[path + ":beta"] = x * b % grp.q, -b % grp.q
        c = grp.mul(b, grp.add(grp.mul(x, cpt(gid, node["h1"])), grp.neg(cpt(gid, node["H1"]))))
        return wrap(gid, c)
    if k == "p2":
        grp = group(gid)
        x = val.get(node["x"], 0) + int(node.get("off", 0))
        r = val.get(node["r"], 0)
        n = node["n"]
        digits = [x >> i & 1 for i in range(n)]
        return p2_pre(node, wit, rng, wrap, path, digits, r)
    if k == "bbs":
        grp = group("G1")
        pk = node["pk"]
        g1, g2 = cpt("G1", pk["gens"][1]), cpt("G1", pk["gens"][2])
        sig = sigs.get(node.get("sig"))
        r1, r2 = rng.randrange(grp.q), rng.randrange(grp.q)
        if sig is None:
            A, e, s = grp.mul(rng.randrange(1, grp.q), grp.gen), rng.randrange(grp.q), rng.randrange(grp.q)
        else:
            A, e, s = cpt("G1", sig["A"]), int(sig["e"]), int(sig["s"])
        wit[path + ":r1"], wit[path + ":r2"] = r1, r2
        wit[path + ":d1"], wit[path + ":d2"] = r1 * e % grp.q, r2 * e % grp.q
        wit[path + ":e"], wit[path + ":s"] = e, s
        A1 = lincomb(grp, [(r1, g1), (r2, g2)])
        A2 = grp.add(grp.mul(r1, g2), A)
        return {"A1": wrap("G1", A1), "A2": wrap("G1", A2)}
    v = node["v"]
    grp = group(gid)
    if v == "pre":
        t = rng.randrange(1, grp.q)
        wit[path + ":t"] = t
        return {"D": wrap(gid, grp.mul(t, cpt(gid, node["pts"]["G"]))), "tag": "t"}
    if v == "prel":
        a = grp.mul(rng.randrange(grp.q), grp.gen)
        tot = grp.add(cpt(gid, node["pts"]["c1"]), cpt(gid, node["pts"]["H"]))
        return [wrap(gid, a), wrap(gid, grp.add(tot, grp.neg(a)))]
    if v == "num":
        return bn(rng.randrange(1, 1001))
    if v == "deep":
        wit[path + ":t"], wit[path + ":u"] = rng.randrange(1, grp.q), rng.randrange(1, grp.q)
        G = cpt(gid, node["pts"]["G"])
        return {"D": [wrap(gid, grp.mul(wit[path + ":t"], G)), wrap(gid, grp.mul(wit[path + ":u"], G))], "n": 7,
                "raw": b"\x00\xff", "no": None}
    return []


def p2_pre(node, wit, rng, wrap, path, digits, r):
    gid = node["g"]
    grp = group(gid)
    g, h = cpt(gid, node["gg"]), cpt(gid, node["hh"])
    rs = [rng.randrange(grp.q) for _ in digits]
    for i, x in enumerate(rs):
        wit["%s:r%d" % (path, i)] = x
    Cs = [wrap(gid, lincomb(grp, [(d, g), (x, h)])) for d, x in zip(digits, rs)]
    rand = (sum(x << i for i, x in enumerate(rs)) - r) % grp.q
    return {"Cs": Cs, "rand": bn(rand)}
