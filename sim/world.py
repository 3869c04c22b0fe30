"""Random worlds: statements (as JSON specs) with their secrets, keys and ground truth.

A case is {"tree": spec, "secrets": {name: {...}}, "sigs": {path: ...}}; verifiers get the tree only.
"""

import hashlib
import random

from sim import ref

EC_GIDS = ["ec713", "ec415", "ec409", "ec714", "ec711", "ec412", "ec715", "ec925", "ec716"]
_gens = {}


def gens(gid, n=8):
    k = (gid, n)
    if k not in _gens:
        g = ref.group(gid)
        out = []
        for i in range(n):
            if gid == "G2":
                out.append(ref.hx(gid, g.mul(7 + 3 * i, g.gen)))
            else:
                out.append(ref.hx(gid, g.hash(hashlib.sha512(b"sim generator %d" % i).digest()[:32])))
        _gens[k] = out
    return _gens[k]


_logs = {}


def known_gens(gid, n=8):
    """Base points whose discrete logarithms are known to the simulator: (points, logarithms)."""
    k = (gid, n)
    if k not in _logs:
        g = ref.group(gid)
        logs = [int.from_bytes(hashlib.sha512(b"sim log %d" % i).digest(), "big") % g.q for i in range(n)]
        _logs[k] = ([ref.hx(gid, g.mul(t, g.gen)) for t in logs], logs)
    return _logs[k]


def openssl_cannot(gid, v):
    """OpenSSL 3.0 sometimes sums a G + b H wrongly on P-521 when H is a small negative multiple of G."""
    return gid == "ec716" and 0 < -v % ref.group(gid).q < 64


_mk = {}


def mk_gens(n):
    """What `make_generators(n, group=G1)` must give."""
    g = ref.group("G1")
    for i in range(n):
        if i not in _mk:
            _mk[i] = ref.hx("G1", g.hash(hashlib.sha512(b"%d" % (42 + i)).digest()[:32]))
    return [_mk[i] for i in range(n)]


def make_key(rng, n):
    """Issuer key for up to n messages."""
    g2 = ref.group("G2")
    gamma = rng.randrange(1, g2.q)
    h0 = ref.hx("G2", g2.gen)
    return {"gamma": str(gamma)}, {"w": ref.hx("G2", g2.mul(gamma, g2.gen)), "h0": h0, "gens": mk_gens(n + 2)}


def raw_sign(sk, pk, msgs, rng):
    g1 = ref.group("G1")
    q = g1.q
    e, s = rng.randrange(1, q), rng.randrange(q)
    acc = ref.cpt("G1", pk["gens"][0])
    for k, b in zip([s] + list(msgs), pk["gens"][1:]):
        acc = g1.add(acc, g1.mul(k, ref.cpt("G1", b)))
    A = g1.mul(pow((int(sk["gamma"]) + e) % q, -1, q), acc)
    return {"A": ref.hx("G1", A), "e": str(e), "s": str(s)}


FAST = ("ec713", "ec415")
WIDE = (32, 64, 31, 33, 48, 63, 65, 100, 128)


DEFAULT = dict(
    kinds=[("dl", 10), ("dlne", 3), ("range", 2), ("cust", 2), ("p2", 1), ("bbs", 0)],
    pairing=0,  # percent of runs with G1/GT/BBS+
    depth=2,
    max_leaves=6,
    shapes=[("leaf", 3), ("and", 4), ("or", 4)],
    edge_values=True,
    sims=True,  # disjuncts that are false, withheld or marked as simulated
    share=40,
    max_bits=6,
    wide=0,  # percent of ranges with many bits
    gids=EC_GIDS,
    only_ec=True,
    known_logs=False,
)


class Pool:
    def __init__(self):
        self.by_order = {}

    def names(self, q):
        return self.by_order.setdefault(q, [])


class Gen:
    def __init__(self, ch, **cfg):
        self.ch = ch
        self.cfg = dict(DEFAULT)
        self.cfg.update(cfg)
        self.rng = random.Random(ch.seed64())
        self.secrets = {}
        self.n = 0
        self.leaves = 0
        self.keys = []
        self.sigs = {}
        self.nsig = 0
        self.features = set()
        c = self.cfg
        self.pairing = c["pairing"] and ch.chance(c["pairing"])
        pool = c["gids"]
        # the fast curves come first, slow ones are rarer
        self.gids = [ch.weighted([(g, 16 if i < 2 else 1) for i, g in enumerate(pool)])
                     for _ in range(ch.weighted([(1, 3), (2, 2)]))]
        if self.pairing:
            self.gids = self.gids[:1] + ["G1"] + (["GT"] if ch.chance(35) else [])
        self.kinds = list(c["kinds"])
        if self.pairing:
            self.kinds = [(k, (6 if k == "bbs" else w)) for k, w in self.kinds if k != "range"]
            self.features.add("pairing")

    # -- secrets

    def value(self, q):
        ch = self.ch
        if not self.cfg["edge_values"]:
            return self.rng.randrange(1, q)
        c = ch.weighted([("small", 4), ("random", 8), ("zero", 1), ("one", 1), ("max", 1), ("q", 1),
                         ("neg", 1), ("word", 1), ("chal", 1)])
        return {
            "small": lambda: 2 + ch.draw(30), "random": lambda: self.rng.randrange(1, q), "zero": lambda: 0,
            "one": lambda: 1, "max": lambda: q - 1, "q": lambda: q + ch.draw(3), "neg": lambda: -1 - ch.draw(9),
            "word": lambda: (1 << 62) + ch.draw(5) - 2, "chal": lambda: (1 << 128) - 1 + ch.draw(3),
        }[c]()

    def new_secret(self, q, v=None, how=None, pool=None):
        name = "s%d" % self.n
        self.n += 1
        v = self.value(q) if v is None else v
        t = "bn"
        if abs(v) < 1 << 62 and self.ch.chance(40):
            t = "int"
        self.secrets[name] = {"v": str(v), "t": t, "how": how or self.ch.pick(["embed", "dict"]), "q": str(q)}
        if pool is not None:
            pool.names(q).append(name)
        return name

    def some_secret(self, q, pool):
        names = pool.names(q)
        if names and self.ch.chance(self.cfg["share"]):
            self.features.add("shared")
            return self.ch.pick(names)
        return self.new_secret(q, pool=pool)

    def val(self, s):
        return int(self.secrets[s]["v"])

    # -- leaves

    def bases(self, gid):
        return known_gens(gid)[0] if self.cfg["known_logs"] else gens(gid)

    def gid(self, ec=False):
        c = [g for g in self.gids if g.startswith("ec")] if ec else self.gids
        return self.ch.pick(c)

    def leaf_dl(self, pool, true):
        gid = self.gid()
        g = ref.group(gid)
        nt = self.ch.weighted([(1, 4), (2, 4), (3, 2), (4, 1)]) if gid != "GT" else 1 + self.ch.draw(2)
        bases = self.bases(gid)
        terms = []
        for i in range(nt):
            s = self.some_secret(g.q, pool)
            if terms and self.ch.chance(15):
                s = self.ch.pick(terms)[0]
                self.features.add("repeat-in-rep")
            b = bases[(i + self.ch.draw(4)) % len(bases)]
            terms.append([s, b])
        lhs = ref.lincomb(g, [(self.val(s), ref.cpt(gid, b)) for s, b in terms])
        if not true:
            lhs = g.add(lhs, g.mul(self.rng.randrange(1, g.q), g.gen))
        return ref.dl(gid, ref.hx(gid, lhs), terms)

    def leaf_dlne(self, pool, true):
        gid = self.gid(ec=not self.ch.chance(10))
        if gid == "GT":
            gid = "G1"
        g = ref.group(gid)
        x = self.some_secret(g.q, pool)
        bases = self.bases(gid)
        i = self.ch.draw(4)
        h0, h1 = bases[i], bases[(i + 1 + self.ch.draw(3)) % 8]
        v = self.val(x)
        if openssl_cannot(gid, v):
            x = self.new_secret(g.q, v=self.rng.randrange(1, g.q >> 1), pool=pool)
            v = self.val(x)
        H0 = g.mul(v, ref.cpt(gid, h0))
        delta = self.ch.weighted([("random", 4), ("one", 2), ("inf", 1)])
        d = {"random": self.rng.randrange(1, g.q), "one": 1, "inf": (-v) % g.q or 1}[delta]
        if not true:
            if self.ch.chance(30):
                H0 = g.add(H0, g.mul(self.rng.randrange(1, g.q), g.gen))
            else:
                d = 0
        H1 = g.mul(v + d, ref.cpt(gid, h1))
        return {"k": "dlne", "g": gid, "H0": ref.hx(gid, H0), "h0": h0, "H1": ref.hx(gid, H1), "h1": h1,
                "x": x, "bind": self.ch.chance(50)}

    def leaf_p2(self, pool, true):
        gid = self.gid(ec=True)
        g = ref.group(gid)
        n = 1 + self.ch.draw(self.cfg["max_bits"])
        if gid in FAST and self.ch.chance(self.cfg["wide"]):
            n = self.ch.pick(WIDE)
            self.features.add("wide-range")
        v = self.ch.weighted([(self.rng.randrange(1 << n), 2), (0, 1), ((1 << n) - 1, 1)])
        if not true:
            v = (1 << n) + self.ch.draw(3)
        x = self.new_secret(g.q, v=v, how="embed", pool=pool)
        r = self.new_secret(g.q, how="embed", pool=pool)
        b = self.bases(gid)
        com = ref.lincomb(g, [(v, ref.cpt(gid, b[0])), (self.val(r), ref.cpt(gid, b[1]))])
        return {"k": "p2", "g": gid, "com": ref.hx(gid, com), "gg": b[0], "hh": b[1], "n": n, "x": x, "r": r, "off": 0}

    def leaf_range(self, pool, true):
        gid = self.gid(ec=True)
        g = ref.group(gid)
        width = 2 + self.ch.draw((1 << self.cfg["max_bits"]) - 2)
        lo = self.ch.weighted([(0, 3), (self.ch.draw(50), 3), (-self.ch.draw(20), 2), (1 << 60, 1)])
        ends = 1
        if gid in FAST and self.ch.chance(self.cfg["wide"]):
            n = self.ch.pick(WIDE)
            width = self.ch.weighted([(1 << n, 2), ((1 << n) - 1, 1), ((1 << n) + 1, 3), (2 + self.rng.randrange(1 << n), 1)])
            ends = 3
            lo = self.ch.pick([lo, self.rng.randrange(1 << 130), -self.rng.randrange(1 << 70)])
            self.features.add("wide-range")
        hi = lo + width
        v = self.ch.weighted([(lo + self.rng.randrange(width), 3), (lo, ends), (hi - 1, ends)])
        if not true:
            v = self.ch.pick([hi, lo - 1, hi + 7])
        x = self.new_secret(g.q, v=v, how="embed", pool=pool)
        r = self.new_secret(g.q, how="embed", pool=pool)
        b = self.bases(gid)
        com = ref.lincomb(g, [(v, ref.cpt(gid, b[0])), (self.val(r), ref.cpt(gid, b[1]))])
        return {"k": "range", "g": gid, "com": ref.hx(gid, com), "gg": b[0], "hh": b[1], "a": str(lo), "b": str(hi),
                "x": x, "r": r}

    def key(self, n):
        for sk, pk in self.keys:
            if len(pk["gens"]) >= n + 2 and self.ch.chance(60):
                return sk, pk
        k = make_key(self.rng, n + self.ch.draw(2))
        self.keys.append(k)
        return k

    def leaf_bbs(self, pool, true):
        q = ref.group("G1").q
        n = 1 + self.ch.draw(3)
        sk, pk = self.key(n)
        msgs = [self.some_secret(q, pool) for _ in range(n)]
        binding = self.ch.chance(60)
        vals = [self.val(m) for m in msgs]
        if not true:
            vals[0] += 1
        sig = raw_sign(sk, pk, vals, self.rng)
        vars_ = list(msgs)
        if binding:
            e = self.new_secret(q, v=int(sig["e"]), how="auto")
            s = self.new_secret(q, v=int(sig["s"]), how="auto")
            vars_ = [e, s] + vars_
        sid = "sig%d" % self.nsig
        self.nsig += 1
        self.sigs[sid] = sig
        self.features.add("bbs")
        return {"k": "bbs", "pk": pk, "vars": vars_, "binding": binding, "sig": sid}

    def leaf_cust(self, pool, true):
        gid = self.gid(ec=True)
        g = ref.group(gid)
        v = self.ch.pick(["elg", "rep", "or", "pre", "prel", "valonly", "num", "deep"])
        b = self.bases(gid)
        G, H = ref.cpt(gid, b[2]), ref.cpt(gid, b[3])
        # the or-variant has its secrets inside a disjunction, so they must not occur elsewhere
        inner = Pool() if v == "or" else pool
        r, m = self.some_secret(g.q, inner), self.some_secret(g.q, inner)
        rv, mv = self.val(r), self.val(m)
        c1 = g.mul(rv, G)
        if v in ("elg", "valonly"):
            c2 = g.add(g.mul(rv, H), g.mul(mv, G))
        else:
            c2 = g.mul(mv, H)
        if not true:
            c1 = g.add(c1, g.mul(self.rng.randrange(1, g.q), g.gen))
            c2 = g.add(c2, g.mul(self.rng.randrange(1, g.q), g.gen))
        pts = {"G": b[2], "H": b[3], "c1": ref.hx(gid, c1), "c2": ref.hx(gid, c2)}
        if v == "valonly":
            pts["bad"] = ref.hx(gid, g.gen)
        self.features.add("custom")
        return {"k": "cust", "v": v, "g": gid, "pts": pts, "sec": {"r": r, "m": m}}

    # -- trees

    def leaf(self, pool, true):
        self.leaves += 1
        k = self.ch.weighted([x for x in self.kinds if x[1]])
        self.features.add(k)
        node = getattr(self, "leaf_" + k)(pool, true)
        node["t"] = true
        return node

    def tree(self, depth=None, pool=None, true=True, root=True):
        depth = self.cfg["depth"] if depth is None else depth
        pool = pool or Pool()
        shape = "leaf"
        if depth > 0 and self.leaves < self.cfg["max_leaves"]:
            shape = self.ch.weighted(self.cfg["shapes"])
        if shape == "leaf":
            return self.leaf(pool, true)
        n = self.ch.weighted([(2, 6), (3, 3), (4, 1)])
        style = self.ch.pick(["op", "ctor"])
        if shape == "and":
            bad = self.ch.draw(n) if not true else None
            subs = [self.tree(depth - 1, pool, i != bad, False) for i in range(n)]
            self.features.add("and")
            return {"k": "and", "subs": subs, "style": style, "t": true}
        self.features.add("or")
        mine = Pool()
        subs = []
        good = self.ch.draw(n) if true else None
        for i in range(n):
            if i == good or (true and self.cfg["sims"] and self.ch.chance(25)) or (true and not self.cfg["sims"]):
                s = self.tree(depth - 1, mine, True, False)
            else:
                s = self.hidden(depth - 1, true and self.ch.chance(50))
            subs.append(s)
        node = {"k": "or", "subs": subs, "style": style, "t": true}
        if style == "op":
            for s in subs:
                push_down(s)
        return node

    def hidden(self, depth, true):
        """A disjunct that is not to be proved: marked as simulated, or without its secrets."""
        before = set(self.secrets)
        s = self.tree(depth, Pool(), true, False)
        new = [x for x in self.secrets if x not in before]
        how = self.ch.pick(["flag", "withhold"]) if not has_kind(s, "cust") else "flag"
        self.features.add("hidden-" + how)
        if how == "flag":
            s["sim"] = True
        else:
            some = new
            if true and s["k"] not in ("or", "and") and self.ch.chance(50):
                some = [self.ch.pick(new)] if new else []
                if s["k"] == "bbs" and self.secrets[some[0]]["how"] == "auto":
                    some = new
            if s["k"] == "dlne":
                some = list(set(some) | {s["x"]})
            for x in some:
                self.secrets[x]["how"] = "none"
            withhold_sigs(s, self.sigs)
        if self.ch.chance(20) and not has_kind(s, "or"):
            s["sim"] = True
        return s

    def case(self, true=True):
        t = self.tree(true=true)
        return {"tree": t, "secrets": self.secrets, "sigs": self.sigs}

    def witness(self):
        return {k: int(v["v"]) for k, v in self.secrets.items()}


def push_down(s):
    """A composed operand of the same kind is dissolved by the operators, and with it its mark."""
    if s["k"] == "or" and s.get("sim"):
        s.pop("sim")
        for c in s["subs"]:
            c["sim"] = True
            push_down(c)


def has_kind(node, k):
    return node["k"] == k or any(has_kind(c, k) for c in ref.children(node))


def walk(node, path=()):
    yield path, node
    for i, c in enumerate(ref.children(node)):
        for x in walk(c, path + (i,)):
            yield x


def withhold_sigs(node, sigs):
    for _, n in walk(node):
        if n["k"] == "bbs":
            sigs.pop(n["sig"], None)


def public(node):
    """The tree as a verifier knows it: no marks, no signatures."""
    out = {k: v for k, v in node.items() if k not in ("sim", "sig", "t")}
    if "subs" in node:
        out["subs"] = [public(c) for c in node["subs"]]
    return out


def secret_order(node):
    """Names of secrets in order of appearance."""
    out = []
    for _, n in walk(node):
        if n["k"] == "dl":
            names = [s for s, _ in n["terms"]]
        elif n["k"] == "dlne":
            names = [n["x"]]
        elif n["k"] in ("p2", "range"):
            names = [n["x"], n["r"]]
        elif n["k"] == "bbs":
            names = list(n["vars"])
        elif n["k"] == "cust":
            names = list(n["sec"].values())
        else:
            names = []
        out.extend(names)
    return out


def describe(node):
    k = node["k"]
    if k in ("and", "or"):
        return ("%s(%s)" if node.get("style") != "op" else "%s[%s]") % (k, ",".join(describe(c) for c in node["subs"])) + ("~" if node.get("sim") else "")
    m = "~" if node.get("sim") else ""
    if k == "dl":
        return "dl<%s>%s%s" % (node["g"], "+".join(s for s, _ in node["terms"]), m)
    if k == "dlne":
        return "ne<%s>%s%s%s" % (node["g"], node["x"], "!" if node["bind"] else "", m)
    if k == "p2":
        return "p2<%s>%d:%s,%s%s" % (node["g"], node["n"], node["x"], node["r"], m)
    if k == "range":
        return "range<%s>[%s,%s)%s,%s%s" % (node["g"], node["a"], node["b"], node["x"], node["r"], m)
    if k == "bbs":
        return "bbs%s%s%s" % (",".join(node["vars"]), "!" if node["binding"] else "", m)
    return "cust.%s<%s>%s%s" % (node["v"], node["g"], ",".join(node["sec"].values()), m)
