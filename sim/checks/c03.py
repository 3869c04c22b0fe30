"""C03 A damaged or altered proof is never accepted.

Proofs go through a disk that tears, cuts and rots records and over a network that damages messages;
an intermediary decodes them, alters their parts in any way and encodes them again."""

from sim import common, core, mutate, ref, wire, world

QUICK, THOROUGH = 1200, 60000
PEER = True
CRASH = True
RULE = ("A random true statement, two honest proofs of it and one of another statement; a random sequence of storage "
        "faults, transmission damage and alterations of the decoded parts, mixed with checks of good proofs.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def meaning(norm, parts):
    return wire.canonical(norm, parts), wire.plain(parts[3])


def cuts(ctx, c):
    """A challenge with some of its digits, or a few digits of its own."""
    how = ctx.ch.pick(["small", "front", "back", "bits", "low-bits", "high-bits", "leading"])
    h = "%x" % c
    if how == "small":
        return how, ctx.rng.randrange(16)
    if how == "front":
        return how, int(h[: 1 + ctx.ch.draw(len(h))], 16)
    if how == "back":
        return how, int(h[ctx.ch.draw(len(h)):], 16)
    if how == "low-bits":
        return how, c & (1 << ctx.ch.draw(128)) - 1
    if how == "high-bits":
        return how, c >> ctx.ch.draw(128)
    if how == "leading":
        return how, c + (1 + ctx.rng.randrange(1 << 16) << ctx.ch.pick([128, 132, 160, 192, 256, 512]))
    return how, c ^ 1 << ctx.ch.draw(128)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=10)
    heavy = common.needs_pairing(c["tree"])
    P, V = ctx.host("P"), ctx.host("V", remote=ch.chance(15))
    if not common.build_prover(ctx, P, "st", c).ok or not common.build_verifier(ctx, V, "st", c["tree"]).ok:
        raise core.Discard("building")
    norm = ref.normal(c["tree"])
    good = []
    for m in (None, ch.pick(common.MESSAGES)):
        o = ctx.call(P, "prove", "st", message=m)
        if not o.ok or not ctx.call(V, "verify", "st", o.value, message=m).accepted:
            raise core.Discard("no honest proof")
        good.append((o.value, m))
    try:
        canon = [meaning(norm, wire.parts(p)) for p, _ in good]
    except ref.Invalid:
        raise core.Discard("reference model does not know this proof")
    foreign = None
    if ch.chance(50):
        g2 = world.Gen(ch, pairing=0, depth=1, max_leaves=3)
        c2 = g2.case(True)
        if common.build_prover(ctx, P, "other", c2).ok:
            o = ctx.call(P, "prove", "other")
            foreign = o.value if o.ok else None
    disk = core.Disk(ctx)

    def check(bad, msg, idx, how):
        o = ctx.call(V, "verify", "st", bad, message=msg)
        ctx.fault(how)
        if o.kind == "hang":
            ctx.fail("hang", how)
        if not o.accepted:
            return
        try:
            same = meaning(norm, wire.parts(bad)) == canon[idx]
        except Exception as e:
            same = False
        if not same:
            ctx.fail("damaged-proof-accepted", "%s, accepted for %s" % (how, ctx.sample))
        ctx.probe("same-meaning")

    for i in range(3 + ch.draw(4 if heavy else 10)):
        idx = ch.draw(2)
        p, msg = good[idx]
        how = ch.weighted([("alter", 6), ("bytes", 3), ("disk", 2), ("splice", 1), ("alter2", 2), ("field", 1),
                           ("challenge", 2)])
        if how == "bytes":
            check(core.corrupt_hex(ch, p), msg, idx, "bytes-damaged")
        elif how == "disk":
            disk.write("proof", bytes.fromhex(p))
            disk.sync()
            old = ch.pick([good[1 - idx][0], p])
            if ch.draw(2):
                # overwritten in place, and the machine crashes before it is synced
                disk.write("proof", bytes.fromhex(old))
                disk.crash(ch)
            else:
                for _ in range(1 + ch.draw(3)):
                    disk.rot(ch, "proof")
            data = disk.read("proof").hex()
            if data == old and old != p:
                check(data, msg, 1 - idx, "disk-other-proof") if msg == good[1 - idx][1] else None
            else:
                check(data, msg, idx, "disk-damaged")
        elif how == "splice":
            a, b = bytes.fromhex(p), bytes.fromhex(foreign or good[1 - idx][0])
            x, y = ch.draw(len(a)), ch.draw(len(b))
            check((a[:x] + b[y:]).hex(), msg, idx, "bytes-spliced")
        elif how == "challenge":
            parts = wire.parts(p)
            for _ in range(2 if heavy else 8):
                name, n = cuts(ctx, int(parts[0]))
                check(wire.unparts([ref.bn(n)] + list(parts[1:])), msg, idx, "challenge-" + name)
        elif how == "field":
            a = wire.parts(p)
            src = foreign if foreign and ch.draw(2) else good[1 - idx][0]
            b = wire.parts(src)
            for f in range(4):
                if ch.draw(2):
                    a[f] = b[f]
            check(wire.unparts(a), msg, idx, "fields-mixed") if wire.plain(a) != wire.plain(b) else None
        else:
            parts = wire.parts(p)
            other = wire.parts(foreign) if foreign and ch.draw(2) else wire.parts(good[1 - idx][0])
            names = []
            for _ in range(1 if how == "alter" else 2 + ch.draw(2)):
                name, parts = mutate.alter(ch, ctx, parts, other)
                names.append(name)
            try:
                data = wire.unparts(parts)
            except Exception:
                ctx.probe("unsendable")
                continue
            check(data, msg, idx, "+".join(names) if len(names) == 1 else "several-alterations")
        if ch.chance(35):
            # the verifier still works
            q, m = good[ch.draw(2)]
            o = ctx.call(V, "verify", "st", q, message=m)
            if not o.accepted:
                ctx.fail("verifier-broken-by-bad-proof", "%r after a damaged proof, %s" % (o, ctx.sample))
    q, m = good[ch.draw(2)]
    o = ctx.call(V, "verify", "st", q, message=m)
    if not o.accepted:
        ctx.fail("verifier-broken-by-bad-proof", "%r after a damaged proof, %s" % (o, ctx.sample))
