"""C02 Interactive sessions complete over a faulty network.

Provers and a verifier run a stop-and-wait session layer with retransmission, time-outs and fresh
attempts over a simulated network; either side crashes and restarts and loses everything volatile."""

from sim import common, core, ref, wire, world

QUICK, THOROUGH = 2000, 60000
PEER = True
RULE = ("A random true statement, one or two provers, a verifier, a session layer with or without duplicate "
        "suppression; a random schedule of loss, duplication, delay, reordering, partition, skew, crash and restart, "
        "which stops at a horizon.")


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def run(ctx):
    ch = ctx.ch
    g, c = common.case(ctx, pairing=6)
    calm = ch.chance(20)
    dedupe = not ch.chance(40)
    reuse = ch.chance(40)  # one statement object for all attempts of an incarnation
    net = core.Net(dmin=1, dmax=1)
    horizon = 1
    if not calm:
        net = core.Net(drop=ch.pick([0, 10, 30]), dup=ch.pick([0, 10, 40]), dmin=1, dmax=ch.pick([1, 10, 60, 300]),
                       corrupt=ch.pick([0, 0, 4]))
        horizon = 200 + ch.draw(800)
    k = core.Kernel(ctx, net)
    damaged = net.corrupt > 0
    V = ctx.host("V", remote=ch.chance(25))
    n_prov = ch.weighted([(1, 3), (2, 1)])
    stats = {"attempts": 0, "accepted": 0}
    healed = [calm]
    mode_v, mode_p = ch.weighted(common.MODES), ch.weighted(common.MODES)
    T = 40

    def verifier(a):
        a.durable["boots"] = a.durable.get("boots", 0) + 1
        sess = {}   # sid -> [expected step, last reply, time]
        n = [0]
        for i in range(n_prov):
            common.honest(ctx, common.build_verifier(ctx, V, "stP%d" % i, c["tree"], mode=mode_v, prefix="v", **common.stray(ctx)),
                          "building")
        steps = {"pre": "v_pre", "com": "v_com", "resp": "v_resp"}
        order = ["pre", "com", "resp"]
        while True:
            m = yield ("recv", None)
            src, kind, sid = m[:3]
            token = m[4]
            if kind not in steps:
                continue
            s = sess.get(sid)
            if s is not None and k.now - s[2] > 2000 * a.rate // 100:
                ctx.fault("session-expired")
                del sess[sid]
                s = None
            i = order.index(kind)
            if s is None:
                if i != 0 and dedupe:
                    a.send(src, "lost", sid, token)
                    continue
                h = "st" + src
                if not reuse:
                    n[0] += 1
                    h = "st.%d" % n[0]
                    common.honest(ctx, common.build_verifier(ctx, V, h, c["tree"], mode=mode_v, prefix="v"), "building")
                elif dedupe:
                    # one statement object serves one session at a time
                    for x in list(sess):
                        if sess[x][3] == src:
                            del sess[x]
                common.honest(ctx, ctx.call(V, "v_new", sid, h), "get_verifier")
                s = sess[sid] = [0, {}, k.now, src]
                s.append("%d.%d" % (a.durable["boots"], n[0] + len(sess) + k.waits))
            if dedupe:
                if kind != "pre" and token != s[4]:
                    # a late message of a session lost in a crash
                    ctx.probe("half-open-session")
                    a.send(src, "lost", sid, token)
                    continue
                if kind in s[1]:
                    ctx.probe("duplicate-answered-from-memory")
                    a.send(src, *s[1][kind])
                    continue
                if i != s[0]:
                    a.send(src, "lost", sid, token)
                    continue
            o = ctx.call(V, steps[kind], sid, m[3])
            if o.kind == "hang":
                ctx.fail("hang", kind)
            if not o.ok:
                if dedupe and not damaged:
                    ctx.fail("honest-message-refused", "%s: %r for %s" % (kind, o, ctx.sample))
                reply = ("lost", sid, s[4])
            else:
                reply = {"pre": ("pre-ok", sid, s[4]), "com": ("chal", sid, s[4], o.value), "resp": ("verdict", sid, s[4], o.value)}[kind]
                if kind == "resp" and not o.value and dedupe and not damaged:
                    ctx.fail("honest-session-refused", "%r for %s" % (o, ctx.sample))
            s[0] = i + 1
            s[1][kind] = reply
            a.send(src, *reply)

    def prover(host, pname):
        def program(a):
            d = a.durable
            d["boots"] = d.get("boots", 0) + 1
            late = 0
            attempt = 0
            while True:
                attempt += 1
                stats["attempts"] += 1
                after_heal = healed[0]
                sid = "%s.%d.%d" % (pname, d["boots"], attempt)
                h = "st" if reuse else "st%d" % attempt
                if not reuse or attempt == 1:
                    common.honest(ctx, common.build_prover(ctx, host, h, c, mode=mode_p), "building")
                ctx.event("attempt", sid)
                o = common.honest(ctx, ctx.call(host, "p_new", sid, h), "get_prover")
                verdict = None
                data = token = None
                for kind, op, want in (("pre", "p_pre", "pre-ok"), ("com", "p_com", "chal"), ("resp", "p_resp", "verdict")):
                    args = (data,) if kind == "resp" else ()
                    o = ctx.call(host, op, sid, *args)
                    if not o.ok:
                        if damaged and kind == "resp":
                            break
                        common.honest(ctx, o, "%s of %s" % (op, ctx.sample), "honest-step-failed")
                    payload = o.value
                    got = None
                    for _ in range(4):
                        a.send("V", kind, sid, payload, token)
                        wait_until = k.now + T * a.rate // 100
                        while got is None:
                            m = yield ("recv", max(1, (wait_until - k.now) * 100 // a.rate))
                            if m is None:
                                break
                            if m[2] != sid or (token is not None and m[3] != token):
                                continue
                            if m[1] in (want, "lost"):
                                got = m
                        if got is not None:
                            break
                        ctx.probe("retransmit")
                    if got is None or got[1] == "lost":
                        break
                    token = got[3]
                    if want == "chal":
                        data = got[4]
                    elif want == "verdict":
                        verdict = got[4]
                if verdict is True:
                    stats["accepted"] += 1
                    if calm and attempt > 1:
                        ctx.fail("not-first-attempt", "needed %d attempts on a perfect network" % attempt)
                    d["done"] = True
                    ctx.event("accepted", sid)
                    return
                if after_heal:
                    late += 1
                    ctx.event("late-failure", sid)
                    if late >= (1 if calm else 3):
                        ctx.fail("no-progress", "%d attempts after the faults stopped failed, verdict %r, %s" % (late, verdict, ctx.sample))
                yield ("sleep", 5 + ch.draw(30))
        return program

    k.actor("V", verifier, V)
    for i in range(n_prov):
        name = "P%d" % i
        hp = ctx.host(name)
        k.actor(name, prover(hp, name), hp)
    for a in k.actors.values():
        if not calm:
            a.rate = ch.pick([100, 50, 200])
            if a.rate != 100:
                ctx.fault("clock-skew")
    if not calm:
        crashes = [(n, ch.weighted([(0, 3), (1, 3), (3, 1)])) for n in list(k.actors)]
        k.plan(horizon, crashes, partitions=ch.weighted([(0, 2), (1, 2), (3, 1)]))

        def mark():
            healed[0] = True

        # messages still under way when the faults stop
        k.after(horizon + net.dmax + 1, mark)
    for a in list(k.actors.values()):
        a.start()
    provers = [a for n, a in k.actors.items() if n != "V"]
    k.run(until=60000, max_steps=20000, stop=lambda: all(p.durable.get("done") and p.done for p in provers))
    for p in provers:
        if not p.durable.get("done"):
            ctx.fail("no-progress", "%s never finished (%d steps, %d ms) %s" % (p.name, k.steps, k.now, ctx.sample))
    ctx.probe("attempts", stats["attempts"])
    ctx.probe("accepted", stats["accepted"])
    if calm:
        ctx.probe("fault-free-runs")
