"""Helpers shared by the checks."""

import json

from sim import core, ref, wire, world


MODES = [("own", 6), ("fresh", 1), ("wire", 1)]


def case(ctx, true=True, **cfg):
    cfg.setdefault("wide", 5)
    g = world.Gen(ctx.ch, **cfg)
    c = g.case(true)
    ctx.sample = world.describe(c["tree"])
    ctx.event("case", ctx.sample)
    for f in sorted(g.features):
        ctx.probe("has-" + f)
    return g, c


def naming(ctx, verifier=False):
    opts = [("auto", 4), ("explicit", 3)] + ([("inline", 1)] if verifier else [])
    return ctx.ch.weighted(opts)


def stray(ctx):
    """Sometimes the verifier's secrets hold values, or its parts are marked, which has nothing to do with the proof."""
    if ctx.ch.chance(8):
        ctx.probe("verifier-with-values-of-its-own")
        return {"naming": "stray"}
    if ctx.ch.chance(6):
        # made by code that both sides use, marks included
        ctx.probe("verifier-with-marks")
        return {"marks": 1 + ctx.ch.draw(1000)}
    return {}


def build_prover(ctx, host, h, c, **kw):
    kw.setdefault("naming", naming(ctx))
    kw.setdefault("mode", ctx.ch.weighted(MODES))
    return ctx.call(host, "build", h, c["tree"], secrets=c["secrets"], sigs=c["sigs"], **kw)


def build_verifier(ctx, host, h, tree, **kw):
    kw.setdefault("naming", naming(ctx, True))
    kw.setdefault("mode", ctx.ch.weighted(MODES))
    kw.setdefault("prefix", "v")
    return ctx.call(host, "build", h, world.public(tree), **kw)


MESSAGES = [None, "", "a", "hello world", "é", "e\u0301", "\u0000", "x" * 300, "日本語", " ", "\n"]


def honest(ctx, o, what, cls="honest-refused"):
    """An honest step must have worked."""
    if o.kind == "hang":
        ctx.fail("hang", what)
    if not o.ok:
        ctx.fail(cls, "%s: %r" % (what, o))
    return o.value


def needs_pairing(tree):
    return any(n["k"] == "bbs" or n.get("g") in ("G1", "G2", "GT") for _, n in world.walk(tree))


def interactive(ctx, ph, ps, vh, vs, pre=True):
    """Run a session to its end; the outcome of the last step that did not work or of verification."""
    o = ctx.call(ph, "p_pre", ps)
    if not o.ok:
        return o
    o = ctx.call(vh, "v_pre", vs, o.value)
    if not o.ok:
        return o
    o = ctx.call(ph, "p_com", ps)
    if not o.ok:
        return o
    o = ctx.call(vh, "v_com", vs, o.value)
    if not o.ok:
        return o
    o = ctx.call(ph, "p_resp", ps, o.value)
    if not o.ok:
        return o
    return ctx.call(vh, "v_resp", vs, o.value)


def clash(whole):
    """Secrets inside and outside a disjunction are not allowed."""
    seen, visits = {}, []

    def go(n, scope):
        if n["k"] == "or":
            visits.append(n)
            mine = scope + (len(visits),)
            for s in n["subs"]:
                go(s, mine)
        elif n["k"] == "and":
            for s in n["subs"]:
                go(s, scope)
        else:
            visits.append(n)
            inner = scope + ((len(visits),) if n["k"] == "cust" and n["v"] == "or" else ())
            for x in world.secret_order(n):
                seen.setdefault(x, set()).add(inner)

    go(whole, ())
    return any(len(v) > 1 for v in seen.values())
