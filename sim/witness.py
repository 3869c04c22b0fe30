"""Other values that satisfy a statement."""

import copy

from sim import ref, world


def solve(rows, q, n, rng):
    """A random solution of the rows (coefficients by column, right-hand side) modulo q, or None."""
    rows = [(dict(a), b) for a, b in rows]
    pivots = []
    rest = rows
    cols = list(range(n))
    rng.shuffle(cols)
    for c in cols:
        hit = None
        for r in rest:
            if r[0].get(c, 0) % q:
                hit = r
                break
        if hit is None:
            continue
        inv = pow(hit[0][c], -1, q)
        a = {k: v * inv % q for k, v in hit[0].items()}
        b = hit[1] * inv % q

        def less(r):
            f = r[0].get(c, 0)
            if not f:
                return r
            d = dict(r[0])
            for k, v in a.items():
                d[k] = (d.get(k, 0) - f * v) % q
            return d, (r[1] - f * b) % q

        rest = [less(r) for r in rest if r is not hit]
        pivots = [(p, less(r)) for p, r in pivots] + [(c, (a, b))]
    if any(b % q for _, b in rest):
        return None
    lead = {c for c, _ in pivots}
    x = {c: rng.randrange(q) for c in range(n) if c not in lead}
    for c, (a, b) in pivots:
        x[c] = (b - sum(v * x[k] for k, v in a.items() if k != c and k not in lead)) % q
    return [x[c] for c in range(n)]


def log(gid, hexa):
    pts, logs = world.known_gens(gid)
    return logs[pts.index(hexa)]


def another(g, tree):
    """(secrets, sigs) of another prover of `tree`, made by the generator `g` with bases of known logarithms."""
    rng, ch = g.rng, g.ch
    secrets, sigs = copy.deepcopy(g.secrets), dict(g.sigs)
    names = {}
    rows = {}
    want = []
    auto = {x for x, i in secrets.items() if i["how"] == "auto"}

    def col(q, s):
        d = names.setdefault(q, {})
        return d.setdefault(s, len(d))

    def eq(q, terms):
        """terms: [(coefficient, secret)]; the right-hand side is what the present values give."""
        a = {}
        for k, s in terms:
            a[col(q, s)] = (a.get(col(q, s), 0) + k) % q
        rows.setdefault(q, []).append((a, sum(k * g.val(s) for k, s in terms) % q))

    bbs = []
    for _, n in world.walk(tree):
        if n["k"] in ("and", "or") or not n["t"] and n["k"] != "bbs":
            continue
        if n["k"] == "bbs":
            if n["sig"] in sigs:
                bbs.append(n)
            q = ref.group("G1").q
            for s in n["vars"]:
                if s not in auto:
                    col(q, s)
            continue
        q = ref.group(n["g"]).q
        if n["k"] == "dl":
            eq(q, [(log(n["g"], b), s) for s, b in n["terms"]])
        elif n["k"] == "dlne":
            eq(q, [(1, n["x"])])
        elif n["k"] in ("p2", "range"):
            eq(q, [(log(n["g"], n["gg"]), n["x"]), (log(n["g"], n["hh"]), n["r"])])
            lo, hi = (0, 1 << n["n"]) if n["k"] == "p2" else (int(n["a"]), int(n["b"]))
            want.append((q, n["x"], lo, hi))
        else:
            # all of them are treated as determined, save a second secret that does not occur in the statement
            eq(q, [(1, n["sec"]["r"])])
            if n["v"] in ("elg", "valonly", "or"):
                eq(q, [(1, n["sec"]["m"])])
            else:
                col(q, n["sec"]["m"])
    for q, x, lo, hi in want:
        v = ch.weighted([(rng.randrange(lo, hi), 2), (lo, 2), (hi - 1, 2)])
        for cand in (v, g.val(x)):
            row = ({col(q, x): 1}, cand % q)
            if solve(rows[q] + [row], q, len(names[q]), rng) is not None:
                rows[q].append(row)
                secrets[x]["v"] = str(cand)
                break
    limited = {x for _, x, _, _ in want}
    for q in sorted(names):
        sol = solve(rows.get(q, []), q, len(names[q]), rng)
        if sol is None:
            raise AssertionError("no solution")
        for s, c in names[q].items():
            if s in auto or s in limited:
                continue
            secrets[s]["v"] = str(sol[c])
            secrets[s]["t"] = "bn"
    for n in bbs:
        sk = next(k for k, p in g.keys if p is n["pk"] or p == n["pk"])
        vals = [int(secrets[s]["v"]) for s in n["vars"] if s not in auto]
        if not n["t"]:
            vals[0] += 1
        sig = world.raw_sign(sk, n["pk"], vals, rng)
        sigs[n["sig"]] = sig
        if n["binding"]:
            secrets[n["vars"][0]]["v"], secrets[n["vars"][1]]["v"] = sig["e"], sig["s"]
    return secrets, sigs
