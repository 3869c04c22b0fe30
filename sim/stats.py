"""Telling groups of transcripts apart: what an observer can compute from the messages alone."""

from math import lgamma, exp

from petlib.bn import Bn
from petlib.ec import EcPt

from sim import ref

LIMIT = 1e-15


def flat(x, path, out):
    """[(path, kind, value)] of a decoded message."""
    if x is None or isinstance(x, bool):
        out.append((path, "const", repr(x)))
    elif isinstance(x, (int, Bn)):
        out.append((path, type(x).__name__, int(x)))
    elif isinstance(x, (bytes, str)):
        out.append((path, type(x).__name__, x))
    elif isinstance(x, dict):
        out.append((path, "dict", ",".join(str(k) for k in x)))
        for k in x:
            flat(x[k], "%s.%s" % (path, k), out)
    elif isinstance(x, (list, tuple)):
        out.append((path, "list", len(x)))
        for i, y in enumerate(x):
            flat(y, "%s.%d" % (path, i), out)
    elif hasattr(x, "export"):
        out.append((path, "point", x))
    else:
        out.append((path, type(x).__name__, repr(x)))
    return out


def pkey(p):
    return (type(p).__name__, p.group.nid() if isinstance(p, EcPt) else "", bytes(p.export()))


class Public:
    """What the observer knows before: the points of the statement, and the values that provers may use."""

    def __init__(self, tree, witnesses=()):
        self.pts = {}  # key -> name
        self.nums = {}
        self.raw = []
        self.full = bool(witnesses)
        self.walk(tree, "st")
        for i, (secrets, sigs) in enumerate(witnesses):
            self.witness(secrets, sigs, "#%d" % i)
        base = [(n, g, p) for n, g, p in self.raw if g.startswith("ec")][:10]
        for n, g, p in base:
            for m, h, o in base:
                if g == h and n != m:
                    self.add(p - o, "%s-%s" % (n, m))
            self.add(-p, "-" + n)
            self.add(p + p, "2" + n)
        for _, g, _ in base:
            grp = ref.group(g)
            self.add(grp.inf, "infinity")
            self.add(grp.gen, "generator")

    def add(self, p, name):
        self.pts.setdefault(pkey(p), name)

    def witness(self, secrets, sigs, tag):
        g1 = ref.group("G1")
        vals = {(int(x["q"]), int(x["v"])): n for n, x in secrets.items() if x.get("v") is not None}
        for n, sg in sigs.items():
            for k in "es":
                vals.setdefault((g1.q, int(sg[k])), "%s.%s" % (n, k))
            self.add(ref.cpt("G1", sg["A"]), n + ".A" + tag)
        todo = {}
        for (q, v), n in vals.items():
            for sign, x in (("", v), ("-", -v)):
                if min(v % q, -v % q) >> 20:
                    self.nums.setdefault(x % q, sign + n + tag)
            if min(v % q, -v % q) > 1:
                todo.setdefault(q, []).append((v, n))
        for q, l in todo.items():
            raw = [(m, ref.group(g), p) for m, g, p in self.raw if ref.group(g).q == q and g != "GT"][:6]
            for v, n in l[:8]:
                for m, grp, p in raw:
                    p = grp.mul(v, p)
                    self.add(p, "%s%s*%s" % (n, tag, m))
                    self.add(grp.neg(p), "-%s%s*%s" % (n, tag, m))

    def walk(self, x, path, gid=None):
        if isinstance(x, dict):
            gid = x.get("g", gid)
            for k in sorted(x):
                self.walk(x[k], path + "." + k, gid)
        elif isinstance(x, list):
            for i, y in enumerate(x):
                self.walk(y, "%s.%d" % (path, i), gid)
        elif isinstance(x, str) and len(x) > 30 and gid and gid.startswith("ec"):
            try:
                p = ref.cpt(gid, x)
            except Exception:
                return
            if pkey(p) not in self.pts:
                self.add(p, path)
                self.raw.append((path, gid, p))
        elif isinstance(x, str) and len(x) > 30 and "pk.gens" in path and self.full:
            p = ref.cpt("G1", x)
            if pkey(p) not in self.pts:
                self.add(p, path)
                self.raw.append((path, "G1", p))


class Group:
    """Transcripts of one kind of prover."""

    def __init__(self, public, openings="-"):
        self.public = public
        self.openings = openings  # where numbers may be openings of points
        self.n = 0
        self.cats = {}  # feature -> {value: count}
        self.nums = {}  # path -> [numbers]
        self.seen = {}

    def put(self, feature, value):
        d = self.cats.setdefault(feature, {})
        d[value] = d.get(value, 0) + 1

    def add(self, message, extra=()):
        """`extra`: further (feature, value) of this transcript."""
        self.n += 1
        for f, v in extra:
            self.put(f, v)
        items = flat(message, "", [])
        self.put("shape", tuple((p, k, v if k in ("list", "dict", "const") else None) for p, k, v in items))
        at = {}
        points = []
        for p, k, v in items:
            if k in ("Bn", "int"):
                self.nums.setdefault(p, []).append(v)
                self.put("sign" + p, (v > 0) - (v < 0))
                self.put("parity" + p, v & 1)
                self.put("low" + p, v & 0xffff == 0)
                self.put("bits" + p, v.bit_length())
                if self.public.nums:
                    self.put("value" + p, self.public.nums.get(v))
                key = ("n", v)
            elif k == "point":
                key = pkey(v)
                self.put("known" + p, self.public.pts.get(key))
                if isinstance(v, EcPt):
                    self.put("first byte" + p, key[2][0])
                    points.append((p, v))
            elif k in ("bytes", "str"):
                key = ("s", v)
                if len(v) < 16:
                    self.put("text" + p, v)
            else:
                continue
            if k != "int" or abs(v) > 1 << 20:
                old = self.seen.setdefault(p, set())
                self.put("repeated" + p, key in old)
                old.add(key)
                other = at.setdefault(key, p)
                self.put("equal" + p, other if other != p else None)
        for i, (p, v) in enumerate(points[:14]):
            for o, w in points[:i]:
                if v.group == w.group:
                    self.put("difference%s%s" % (p, o), self.public.pts.get(pkey(v - w)))
                    self.put("sum%s%s" % (p, o), self.public.pts.get(pkey(v + w)))
        if self.public.full:
            for p, v in points[:14]:
                for name, g, w in self.public.raw[:8]:
                    if g.startswith("ec") and v.group == w.group:
                        self.put("difference%s %s" % (p, name), self.public.pts.get(pkey(v - w)))
            # numbers as openings of points
            few = [(p, v) for p, k, v in items if k == "Bn" and p.startswith(self.openings)][:6]
            bases = [(n, w) for n, g, w in self.public.raw if g.startswith("ec")][:4]
            for p, v in few:
                for name, w in bases:
                    m = ref.bn(v) * w
                    for o, u in points[:6]:
                        if u.group == w.group:
                            self.put("opened%s %s by %s" % (o, name, p), self.public.pts.get(pkey(u - m)))
        nums = [(p, v) for p, k, v in items if k in ("Bn", "int") and abs(v) > 1 << 20]
        for i, (p, v) in enumerate(nums[:24]):
            for o, w in nums[:i]:
                self.put("order%s%s" % (p, o), v > w)


def tail(a, n, b, m):
    """Chance (hypergeometric) of a split of a+b hits on n and m trials at least as uneven."""
    k, t = a + b, n + m

    def logp(x):
        return (lgamma(n + 1) - lgamma(x + 1) - lgamma(n - x + 1) + lgamma(m + 1) - lgamma(k - x + 1) - lgamma(m - k + x + 1)
                - lgamma(t + 1) + lgamma(k + 1) + lgamma(t - k + 1))

    if a * m < b * n:
        a, n, b, m = b, m, a, n
    total = 0.0
    for x in range(a, min(k, n) + 1):
        total += exp(logp(x))
    return min(1.0, 2 * total)


def distinguish(one, two):
    """A feature that tells the groups apart, as text, or None."""
    worst = None
    for f in sorted(set(one.cats) | set(two.cats)):
        a, b = one.cats.get(f, {}), two.cats.get(f, {})
        for v in sorted(set(a) | set(b), key=repr):
            p = tail(a.get(v, 0), one.n, b.get(v, 0), two.n)
            if p < LIMIT and (worst is None or p < worst[0]):
                worst = (p, "%s = %s in %d of %d and %d of %d" % (f, str(v)[:80], a.get(v, 0), one.n, b.get(v, 0), two.n))
    for f in sorted(set(one.nums) & set(two.nums)):
        x, y = one.nums[f], two.nums[f]
        allv = sorted(x + y)
        for cut in (allv[len(allv) // 2], allv[len(allv) // 4], allv[3 * len(allv) // 4]):
            a, b = sum(v < cut for v in x), sum(v < cut for v in y)
            p = tail(a, len(x), b, len(y))
            if p < LIMIT and (worst is None or p < worst[0]):
                worst = (p, "%s below %d in %d of %d and %d of %d" % (f, cut, a, len(x), b, len(y)))
    return worst and worst[1]
