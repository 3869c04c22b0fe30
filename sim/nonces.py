"""What an observer who knows the secrets can say about the randomness behind transcripts."""

import bisect

from sim import ref


def leaves(con, c, resp, scope=""):
    """(scope, leaf, challenge, responses) of the representations in a transcript; a secret has one nonce per scope."""
    if con.kind == "dl":
        yield scope, con, c, resp
    elif con.kind == "and":
        for s, r in zip(con.subs, resp):
            yield from leaves(s, c, r, scope)
    else:
        for i, (s, x, r) in enumerate(zip(con.subs, resp[0], resp[1])):
            yield from leaves(s, ref.toint(x), r, "%s/%d" % (con.path, i))


def subchallenges(con, resp):
    if con.kind == "and":
        for s, r in zip(con.subs, resp):
            yield from subchallenges(s, r)
    elif con.kind == "or":
        for i, (s, x, r) in enumerate(zip(con.subs, resp[0], resp[1])):
            yield "%s/%d" % (con.path, i), ref.toint(x)
            yield from subchallenges(s, r)


def known(con, c, resp, value):
    """{(scope, secret): (q, nonce, response)} where value(name) is the secret's value or None."""
    out = {}
    for scope, leaf, ch, rs in leaves(con, c, resp):
        q = leaf.grp.q
        for (s, _), r in zip(leaf.terms, rs):
            v = value(s)
            out[scope, s] = (q, None if v is None else (ref.toint(r) - ch * v) % q, ref.toint(r) % q)
    return out


def solved(con, t1, t2):
    """{(scope, secret): (q, nonce, value)} from two answers of one prover."""
    out = {}
    one = {(sc, l.path): (l, c, r) for sc, l, c, r in leaves(con, *t1)}
    for sc, l, c2, r2 in leaves(con, *t2):
        _, c1, r1 = one[sc, l.path]
        q = l.grp.q
        if (c1 - c2) % q == 0:
            continue
        inv = pow(c1 - c2, -1, q)
        for (s, _), a, b in zip(l.terms, r1, r2):
            v = (ref.toint(a) - ref.toint(b)) * inv % q
            out[sc, s] = (q, (ref.toint(a) - c1 * v) % q, v)
    return out


class Weak(Exception):
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


SLACK = 56


class Pool:
    """Values below q that must look drawn independently and uniformly."""

    def __init__(self, what):
        self.what = what
        self.vals = {}  # q -> sorted [(value, tag)]
        self.low = {}
        self.n = 0

    def add(self, q, v, tag):
        self.n += 1
        edge = q >> SLACK
        if v <= edge or q - v <= edge:
            raise Weak("small-" + self.what, "%s: %d bits of %d" % (tag, min(v, q - v).bit_length(), q.bit_length()))
        if v & ((1 << SLACK) - 1) == 0:
            raise Weak("small-" + self.what, "%s: multiple of 2^%d" % (tag, SLACK))
        for sign, x in (("", v), ("negated ", q - v)):
            lst = self.vals.setdefault(q, [])
            i = bisect.bisect_left(lst, (x,))
            for j in (i - 1, i):
                if 0 <= j < len(lst) and abs(lst[j][0] - x) <= edge:
                    same = lst[j][0] == x
                    raise Weak("repeated-" + self.what if same else "close-" + self.what, "%s%s and %s" % (sign, tag, lst[j][1]))
        bisect.insort(self.vals[q], (v, tag))
        # the same stream seen modulo another number
        for name, x in (("low bits", v & ((1 << 64) - 1)), ("high bits", v >> max(0, q.bit_length() - 64))):
            k = (name, x) if name == "low bits" else (name, q, x)
            other = self.low.setdefault(k, tag)
            if other is not tag:
                raise Weak("repeated-" + self.what, "%s of %s and %s" % (name, tag, other))

    def ratios(self):
        """No value is a small multiple of another."""
        for q, lst in self.vals.items():
            inv = [pow(v, -1, q) for v, _ in lst]
            for i, (v, t) in enumerate(lst):
                for j in range(len(lst)):
                    if i != j:
                        x = v * inv[j] % q
                        if min(x, q - x) >> max(24, q.bit_length() - 80) == 0:
                            raise Weak("related-" + self.what, "%s is %d times %s" % (t, x if x < q - x else x - q, lst[j][1]))
