"""Different statements that look alike: variants of a public statement tree, and when two trees are
the same statement."""

import copy

from sim import ref, world


def ident(tree, early=False):
    """What makes a statement: structure, public values in order, and which secrets are equal.
    Two trees with the same value are the same statement.  `early`: only what can be told apart before
    the responses are checked; limits of ranges are validated at the end."""
    ids = {}

    def sid(name):
        return ids.setdefault(name, len(ids))

    fresh = [0]

    def own():
        fresh[0] += 1
        return sid("#own%d" % fresh[0])

    def go(n):
        k = n["k"]
        if k in ("and", "or"):
            return (k, tuple(go(s) for s in n["subs"]))
        if k == "dl":
            return (k, n["g"], n["lhs"], tuple((sid(s), b) for s, b in n["terms"]))
        if k == "dlne":
            x = sid(n["x"]) if n.get("bind") else None
            return (k, n["g"], n["H0"], n["h0"], n["H1"], n["h1"], x)
        if k == "p2":
            return (k, n["g"], None if early else n["com"], n["gg"], n["hh"], n["n"])
        if k == "bbs":
            v = list(n["vars"])
            if n.get("binding", True):
                es = (sid(v[0]), sid(v[1]))
                v = v[2:]
            else:
                es = (own(), own())
            return (k, n["pk"]["w"], n["pk"]["h0"], tuple(n["pk"]["gens"][: len(v) + 2]), es, tuple(sid(s) for s in v))
        if k == "cust":
            v, P, S = n["v"], n["pts"], n["sec"]
            if v == "rep":
                return (k, v, n["g"], P["c1"], P["G"], sid(S["r"]))
            if v == "prel":
                return (k, v, n["g"], P["c1"], P["G"], None if early else P["H"], sid(S["r"]))
            if v in ("pre", "num", "deep"):
                return (k, v, n["g"], P["c1"], P["G"], sid(S["r"]))
            return (k, v, n["g"], P["c1"], P["c2"], P["G"], P["H"], sid(S["r"]), sid(S["m"]))
        raise AssertionError(k)

    return go(ref.normal(tree))


def groups_ok(tree):
    """Secrets shared over groups of different order are not supported."""
    return True


def occurrences(tree):
    """[(node, key, index or None)]: places where secrets are named and matter."""
    out = []
    for _, n in world.walk(tree):
        k = n["k"]
        if k == "dl":
            out.extend((n, "terms", i) for i in range(len(n["terms"])))
        elif k == "dlne" and n.get("bind"):
            out.append((n, "x", None))
        elif k == "range":
            out.extend([(n, "x", None), (n, "r", None)])
        elif k == "bbs":
            off = 2 if n.get("binding", True) else 0
            out.extend((n, "vars", i) for i in range(off, len(n["vars"])))
        elif k == "cust":
            out.append((n, "sec", "r"))
            if n["v"] in ("elg", "valonly", "or"):
                out.append((n, "sec", "m"))
    return out


def oget(o):
    n, key, i = o
    if key == "terms":
        return n["terms"][i][0]
    return n[key] if i is None else n[key][i]


def oset(o, name):
    n, key, i = o
    if key == "terms":
        n["terms"][i] = [name, n["terms"][i][1]]
    elif i is None:
        n[key] = name
    else:
        n[key][i] = name


def order_of(n):
    return ref.group(n.get("g", "G1")).q


def shift(ctx, gid, hexa):
    """Another point."""
    g = ref.group(gid)
    p = ref.cpt(gid, hexa)
    how = ctx.ch.pick(["add", "neg", "double", "random", "inf"])
    if how == "add":
        q = g.add(p, g.gen)
    elif how == "neg":
        q = g.neg(p)
    elif how == "double":
        q = g.add(p, p)
    elif how == "inf":
        q = g.inf
    else:
        q = g.mul(ctx.rng.randrange(1, g.q), g.gen)
    return ref.hx(gid, q)


def leaves(tree, *kinds):
    return [n for _, n in world.walk(tree) if n["k"] in kinds]


def comps(tree):
    return [n for _, n in world.walk(tree) if n["k"] in ("and", "or")]


def ctorize(tree):
    """Same statement, with no flattening left to do."""
    for n in comps(tree):
        flat = []
        for s in n["subs"]:
            if n.get("style") == "op" and s["k"] == n["k"]:
                flat.extend(s["subs"])
            else:
                flat.append(s)
        n["subs"] = flat
    return tree


def variant(ctx, tree):
    """(name, other tree) or None."""
    ch = ctx.ch
    t = copy.deepcopy(world.public(tree))
    # the flattening done by operators would hide changes of structure
    if ch.chance(50):
        t = explicit(t)
    opts = [("lhs", leaves(t, "dl")), ("base", leaves(t, "dl")), ("terms", leaves(t, "dl")), ("rot", leaves(t, "dl")),
            ("drop-term", leaves(t, "dl")), ("add-term", leaves(t, "dl")),
            ("merge", occurrences(t)), ("split", occurrences(t)), ("exchange", occurrences(t)),
            ("clauses", comps(t)), ("kind", comps(t)), ("drop", comps(t)), ("add", [n for _, n in world.walk(t)]),
            ("nest", comps(t)), ("range", leaves(t, "range")), ("p2", leaves(t, "p2")), ("dlne", leaves(t, "dlne")),
            ("bbs", leaves(t, "bbs")), ("cust", leaves(t, "cust")), ("com", leaves(t, "range", "p2")),
            ("replace", leaves(t, "dl", "dlne", "p2", "range", "cust", "bbs"))]
    opts = [(n, c) for n, c in opts if c]
    name, cand = ch.pick(opts)
    x = ch.pick(cand)
    try:
        t = apply(ctx, name, x, t)
    except Skip:
        return None
    return name, t


class Skip(Exception):
    pass


def explicit(t):
    t = ref_flat(t)
    return t


def ref_flat(n):
    if n["k"] not in ("and", "or"):
        return n
    subs = [ref_flat(s) for s in n["subs"]]
    if n.get("style") == "op":
        flat = []
        for s in subs:
            flat.extend(s["subs"] if s["k"] == n["k"] else [s])
        subs = flat
    out = dict(n)
    out["subs"], out["style"] = subs, "ctor"
    return out


def replace(t, old, new):
    if t is old:
        return new
    for n in comps(t):
        n["subs"] = [new if s is old else s for s in n["subs"]]
    return t


def apply(ctx, name, x, t):
    ch, rng = ctx.ch, ctx.rng
    if name == "lhs":
        x["lhs"] = shift(ctx, x["g"], x["lhs"])
    elif name == "base":
        i = ch.draw(len(x["terms"]))
        b = ch.pick(world.gens(x["g"])) if ch.draw(3) else shift(ctx, x["g"], x["terms"][i][1])
        x["terms"][i] = [x["terms"][i][0], b]
    elif name == "terms":
        if len(x["terms"]) < 2:
            raise Skip
        i = ch.draw(len(x["terms"]) - 1)
        a, b = x["terms"][i], x["terms"][i + 1]
        how = ch.pick(["both", "bases", "secrets"])
        if how == "both":
            x["terms"][i], x["terms"][i + 1] = b, a
        elif how == "bases":
            x["terms"][i], x["terms"][i + 1] = [a[0], b[1]], [b[0], a[1]]
        else:
            x["terms"][i], x["terms"][i + 1] = [b[0], a[1]], [a[0], b[1]]
    elif name == "rot":
        # the left-hand side and a base change places
        i = ch.draw(len(x["terms"]))
        s, b = x["terms"][i]
        x["terms"][i] = [s, x["lhs"]]
        x["lhs"] = b
    elif name == "drop-term":
        if len(x["terms"]) < 2:
            raise Skip
        x["terms"].pop(ch.draw(len(x["terms"])))
    elif name == "add-term":
        x["terms"].insert(ch.draw(len(x["terms"]) + 1), [ch.pick(["zz", x["terms"][0][0]]), ch.pick(world.gens(x["g"]))])
    elif name in ("merge", "split", "exchange"):
        occ = [o for o in occurrences(t) if order_of(o[0]) == order_of(x[0])]
        if name == "split":
            oset(x, "zz")
        else:
            y = ch.pick(occ)
            a, b = oget(x), oget(y)
            oset(x, b)
            if name == "exchange":
                oset(y, a)
    elif name == "clauses":
        i, j = ch.draw(len(x["subs"])), ch.draw(len(x["subs"]))
        x["subs"][i], x["subs"][j] = x["subs"][j], x["subs"][i]
    elif name == "kind":
        x["k"] = "or" if x["k"] == "and" else "and"
    elif name == "drop":
        i = ch.draw(len(x["subs"]))
        if len(x["subs"]) > 2:
            x["subs"].pop(i)
        else:
            t = replace(t, x, x["subs"][i])
    elif name == "add":
        new = copy.deepcopy(x) if ch.draw(2) else new_leaf(ctx, t)
        if x["k"] in ("and", "or") and ch.draw(2):
            x["subs"].insert(ch.draw(len(x["subs"]) + 1), new)
        else:
            kind = ch.pick(["and", "or"])
            both = [x, new] if ch.draw(2) else [new, x]
            t = replace(t, x, {"k": kind, "subs": both, "style": "ctor"})
    elif name == "nest":
        if len(x["subs"]) > 2 and ch.draw(2):
            i = ch.draw(len(x["subs"]) - 1)
            x["subs"][i:i + 2] = [{"k": ch.pick(["and", "or"]), "subs": x["subs"][i:i + 2], "style": "ctor"}]
        else:
            inner = [s for s in x["subs"] if s["k"] in ("and", "or")]
            if not inner:
                raise Skip
            s = ch.pick(inner)
            i = next(i for i, y in enumerate(x["subs"]) if y is s)
            x["subs"][i:i + 1] = s["subs"]
    elif name == "range":
        a, b = int(x["a"]), int(x["b"])
        a, b = ch.pick([(a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1), (a + 1, b + 1), (a - 1, b - 1), (a, 2 * b - a), (a - (b - a), b)])
        if b - a < 2:
            raise Skip
        x["a"], x["b"] = str(a), str(b)
    elif name == "com":
        x["com"] = shift(ctx, x["g"], x["com"]) if ch.draw(2) else ref.hx(x["g"], ref.group(x["g"]).add(
            ref.cpt(x["g"], x["com"]), ref.cpt(x["g"], x[ch.pick(["gg", "hh"])])))
    elif name == "p2":
        n = x["n"] + ch.pick([1, -1, 2])
        if n < 1:
            raise Skip
        x["n"] = n
        if ch.chance(20):
            x["gg"], x["hh"] = x["hh"], x["gg"]
    elif name == "dlne":
        how = ch.pick(["swap", "H1", "h1", "H0", "h0", "bind", "cross", "cross-h"])
        if how == "swap":
            x["H0"], x["H1"], x["h0"], x["h1"] = x["H1"], x["H0"], x["h1"], x["h0"]
        elif how == "bind":
            x["bind"] = not x.get("bind")
        elif how == "cross":
            x["H0"], x["H1"] = x["H1"], x["H0"]
        elif how == "cross-h":
            x["h0"], x["h1"] = x["h1"], x["h0"]
        else:
            x[how] = shift(ctx, x["g"], x[how])
    elif name == "bbs":
        how = ch.pick(["key", "order", "fewer", "more", "gens", "h0", "es"])
        off = 2 if x.get("binding", True) else 0
        pk = x["pk"] = copy.deepcopy(x["pk"])
        if how == "key":
            pk["w"] = shift(ctx, "G2", pk["w"])
        elif how == "h0":
            pk["h0"] = shift(ctx, "G2", pk["h0"])
        elif how == "order":
            if len(x["vars"]) - off < 2:
                raise Skip
            x["vars"][off:] = x["vars"][off + 1:] + x["vars"][off:off + 1]
        elif how == "fewer":
            if len(x["vars"]) - off < 2:
                raise Skip
            x["vars"].pop()
        elif how == "more":
            if len(pk["gens"]) < len(x["vars"]) - off + 3:
                pk["gens"] = pk["gens"] + [ref.hx("G1", ref.group("G1").mul(12345, ref.group("G1").gen))]
            x["vars"].append("zz")
        elif how == "es":
            if not off:
                raise Skip
            x["vars"][0], x["vars"][1] = x["vars"][1], x["vars"][0]
        else:
            i = ch.draw(len(pk["gens"]))
            pk["gens"][i] = shift(ctx, "G1", pk["gens"][i])
    elif name == "cust":
        how = ch.pick(["variant", "point", "point", "roles", "secrets"])
        if how == "variant":
            v = ch.pick([v for v in ("elg", "rep", "or", "pre", "prel", "num", "deep") if v != x["v"]])
            x["v"] = v
        elif how == "point":
            key = ch.pick(["c1", "c2", "G", "H"])
            x["pts"][key] = shift(ctx, x["g"], x["pts"][key])
        elif how == "roles":
            a, b = ch.pick([("c1", "c2"), ("G", "H"), ("c1", "G"), ("c2", "H")])
            x["pts"][a], x["pts"][b] = x["pts"][b], x["pts"][a]
        else:
            S = x["sec"]
            S["r"], S["m"] = S["m"], S["r"]
    elif name == "replace":
        t = replace(t, x, new_leaf(ctx, t))
    return t


def new_leaf(ctx, t):
    """A statement that is easy to prove, or one that repeats a secret of the tree."""
    gids = [n["g"] for _, n in world.walk(t) if n.get("g", "").startswith("ec")] or ["ec713"]
    gid = ctx.ch.pick(gids)
    b = ctx.ch.pick(world.gens(gid))
    return ref.dl(gid, ref.hx(gid, ref.group(gid).mul(7, ref.cpt(gid, b))), [["zy", b]])
