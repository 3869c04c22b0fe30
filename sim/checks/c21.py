"""C21 Concurrent and interleaved sessions do not influence each other.

One machine with several callers: threads that a seeded scheduler switches at lines or instructions of the
library, or one thread that takes steps of several sessions in turn.  They prove, verify, hold sessions, compose
statements and issue credentials, over objects that are separate, built on the same secrets and keys, composed of
the same statements, or the same.  Every verdict is compared with the one on a machine where nothing else
happens."""

from sim import common, core, mutate, ref, sched, sound, wire, world

QUICK, THOROUGH = 1200, 60000
RULE = ("A random set of statements on one machine that share nothing, secrets and points, sub-statements, keys, or the whole "
        "object (without precommitments: for everything; with: for verification); two to four callers with lists of jobs "
        "(prove, verify good and bad proofs, honest and dishonest sessions, compose and prove, issuance, simulation); a "
        "random schedule of thread switches inside the library or of session steps. Verdicts alone come from a machine "
        "on which the job runs by itself.")
ASSUMPTIONS = ["a secret object has one value at a time",
               "petlib and bplib calls are atomic (they hold the interpreter's lock)"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


class Failure(Exception):
    pass


class Job:
    """Something one caller does; `steps(host, tag)` is a generator that ends with Failure if it went wrong."""

    def __init__(self, what, steps, handles=()):
        self.what, self.steps, self.handles = what, steps, tuple(handles)


class World:
    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.setup = []     # what to build on a machine: (op, args, kw)
        self.made = []      # (verifier handle, proof, message, what) of proofs made meanwhile
        self.jobs = []
        self.n = 0

    # -- building

    def build(self, h, tree, c=None, **kw):
        ch = self.ctx.ch
        kw.setdefault("mode", "own")
        if c is None:
            kw.setdefault("naming", common.naming(self.ctx, True))
            self.setup.append(("build", (h, world.public(tree)), dict(kw, prefix="v")))
        else:
            kw.setdefault("naming", common.naming(self.ctx))
            self.setup.append(("build", (h, tree), dict(kw, secrets=c.secrets, sigs=c.sigs)))

    def do(self, op, *args, **kw):
        self.setup.append((op, args, kw))

    def boot(self, host):
        for op, args, kw in self.setup:
            o = self.ctx.call(host, op, *args, **kw)
            if not o.ok:
                raise core.Discard("building")

    # -- jobs

    def tag(self, x):
        self.n += 1
        return "%s%d" % (x, self.n)

    def want(self, o, what, ok=True):
        if o.kind == "hang":
            raise Failure("hang: %s" % what)
        if (o.accepted if ok is True else o.ok) != bool(ok):
            raise Failure("%s: %r" % (what, o))
        return o.value

    def proving(self, h, vh, what, pre=None):
        """Prove, check, keep for later."""
        ctx, ch = self.ctx, self.ch
        m = ch.pick(common.MESSAGES[:5])
        n = 1 + ch.draw(3)
        check = ch.draw(2)

        def steps(host, tag):
            if pre is not None:
                o = ctx.call(host, *pre)
                if not o.ok:
                    raise Failure("%r for %s: %r" % (pre[0], what, o))
                yield
            for i in range(n):
                o = ctx.call(host, "prove", h, message=m)
                if not o.ok:
                    raise Failure("proving %s: %r" % (what, o))
                self.made.append((vh, o.value, m, what))
                yield
                if check:
                    self.want(ctx.call(host, "verify", vh, o.value, message=m), "own proof of %s" % what)
                    yield

        return Job("prove " + what, steps, [h])

    def session(self, h, vh, what, twist=0, pre=None):
        """An honest session, or one with an answer to another challenge."""
        ctx = self.ctx

        def steps(host, tag):
            if pre is not None:
                o = ctx.call(host, *pre)
                if not o.ok:
                    raise Failure("%r for %s: %r" % (pre[0], what, o))
                yield
            p, v = "p" + tag, "v" + tag
            for side, op, args in (("p", "p_new", (p, h)), ("v", "v_new", (v, vh))):
                o = ctx.call(host, op, *args)
                if not o.ok:
                    raise Failure("%s for %s: %r" % (op, what, o))
                yield
            data = pre_ = com = c = None
            for op in ("p_pre", "v_pre", "p_com", "v_com", "p_resp", "v_resp"):
                args = (p if op[0] == "p" else v,)
                if op == "p_resp":
                    args += (str((int(data) + twist) % ref.CH),)
                elif op[0] == "v":
                    args += (data,)
                o = ctx.call(host, op, *args)
                if op == "v_pre":
                    pre_ = data
                elif op == "v_com":
                    com, c = data, o.value
                if op == "v_resp" and twist:
                    if o.kind == "hang" or o.accepted:
                        raise Failure("wrong answer in a session for %s: %r" % (what, o))
                    return
                if not o.ok or op == "v_resp" and not o.value:
                    raise Failure("session for %s, %s: %r" % (what, op, o))
                data = o.value
                yield

        return Job(("bad " if twist else "") + "session " + what, steps, [h])

    def checking(self, vh, items, what):
        """Verify proofs whose verdicts are known."""
        ctx = self.ctx

        def steps(host, tag):
            for proof, m, verdict, name in items:
                o = ctx.call(host, "verify", vh, proof, message=m)
                if o.kind == "hang" or o.accepted != verdict:
                    raise Failure("%s for %s is %r" % (name, what, o))
                yield

        return Job("verify %s" % what, steps)

    def attacking(self, vh, at, what):
        """A dishonest session."""
        ctx = self.ctx

        def steps(host, tag):
            at.start()
            s = "a" + tag
            ctx.call(host, "v_new", s, vh)
            yield
            if at.pre is not None:
                o = ctx.call(host, "v_pre", s, wire.enc(at.pre))
                yield
                if not o.ok:
                    return
            o = ctx.call(host, "id", vh)
            yield
            if not o.ok:
                return
            o = ctx.call(host, "v_com", s, wire.enc((bytes.fromhex(o.value), at.com)))
            yield
            if not o.ok:
                return
            try:
                data = wire.enc(at.respond(int(o.value)))
            except Exception:
                return
            o = ctx.call(host, "v_resp", s, data)
            if o.kind == "hang":
                raise Failure("hang")
            if o.accepted and not sound.reference_verdict(at.norm, at.pre, at.com, at.c, at.resp):
                raise Failure("%s accepted for %s" % (at.pl.name, what))

        return Job("attack (%s) %s" % (at.pl.name, what), steps)

    def simulating(self, h, what):
        ctx = self.ctx

        def steps(host, tag):
            o = ctx.call(host, "simulate", h)
            yield
            if not o.ok:
                return
            o = ctx.call(host, "sim_check", h, o.value)
            if not o.accepted:
                raise Failure("simulation of %s: %r" % (what, o))
            yield

        return Job("simulate " + what, steps, [h])

    def issuing(self, k, pk, msgs, good=True):
        ctx = self.ctx

        def steps(host, tag):
            c = "c" + tag
            what = "issuance of %d messages" % len(msgs)
            self.want(ctx.call(host, "creator", c, pk), what)
            yield
            o = ctx.call(host, "request", c, msgs)
            yield
            if not o.ok:
                raise Failure("%s: %r" % (what, o))
            req = o.value
            self.want(ctx.call(host, "blind_ok", k, req), "request in " + what)
            yield
            o = ctx.call(host, "sign", k, req)
            yield
            if not o.ok:
                raise Failure("%s: %r" % (what, o))
            o = ctx.call(host, "obtain", c, o.value)
            yield
            if not o.ok:
                raise Failure("%s: %r" % (what, o))
            self.want(ctx.call(host, "sig_ok", pk, o.value, msgs), "signature of " + what)
            yield
            bad = [str(int(msgs[0]) + 1)] + msgs[1:]
            o2 = ctx.call(host, "sig_ok", pk, o.value, bad)
            if o2.accepted:
                raise Failure("signature on other messages accepted in " + what)

        return Job("issue", steps)

    # -- proofs with known verdicts

    def library_of(self, A, vh, tree, c, ph=None, wit=None):
        """Good and bad proofs of a statement, with the verdict of a machine where nothing else happens."""
        ctx, ch = self.ctx, self.ch
        items = []
        good = []
        for i in range(1 + ch.draw(2)):
            m = ch.pick(common.MESSAGES[:5])
            o = ctx.call(A, "prove", ph, message=m)
            if not o.ok:
                raise core.Discard("no honest proof")
            good.append((o.value, m))
        cand = [(p, m, "good proof") for p, m in good]
        for i in range(1 + ch.draw(3)):
            p, m = ch.pick(good)
            how = ch.weighted([("altered", 4), ("message", 1), ("splice", 2), ("attack", 4)])
            try:
                if how == "altered":
                    name, parts = mutate.alter(ch, ctx, wire.parts(p))
                    cand.append((wire.unparts(parts), m, "altered proof (%s)" % name))
                elif how == "message":
                    cand.append((p, (m or "") + "!", "proof for another message"))
                elif how == "splice":
                    # parts of two good ones
                    o = ctx.call(A, "prove", ph, message=m)
                    a, b = wire.parts(p), wire.parts(o.value)
                    i = ch.draw(3)
                    a[i] = b[i]
                    cand.append((wire.unparts(a), m, "spliced proof (%d)" % i))
                else:
                    at = self.attack(A, vh, tree, c)
                    q = at and at.proof(m)
                    if q:
                        cand.append((q, m, "forgery (%s)" % at.pl.name))
            except core.Violation:
                raise
            except Exception:
                continue
        for p, m, name in cand:
            o = ctx.call(A, "verify", vh, p, message=m)
            if o.kind == "hang":
                raise core.Discard("hang")
            if o.accepted:
                ctx.probe("good-items")
            else:
                ctx.probe("bad-items")
            if name == "good proof" and not o.accepted:
                raise core.Discard("honest proof refused")
            items.append((p, m, o.accepted, name))
        return items

    def attack(self, A, vh, tree, c):
        """A dishonest prover who lacks the secrets, or some of them."""
        ch, ctx = self.ch, self.ctx
        norm = ref.normal(tree)
        wit = {s: ctx.rng.randrange(1, 1 << 200) for s in c.secrets}
        if ch.draw(2):
            some = sorted(c.secrets)
            keep = [s for s in some if ch.chance(70)]
            wit.update({s: int(c.secrets[s]["v"]) for s in keep})
        sigs = c.sigs if ch.draw(2) else {}
        val = sound.evaluate(norm, wit, sigs)
        if val["0"]:
            return None
        try:
            return sound.Attack(ctx, A, A, vh, norm, wit, sigs, sound.make_plan(ctx, norm, wit, sigs, val))
        except ref.Invalid:
            return None


def usable(tree):
    return not tree.get("sim")


def separate(w, A, heavy):
    """Statements of their own; names of secrets may coincide."""
    ch = w.ch
    for i in range(2 + (0 if heavy else ch.draw(2))):
        g = world.Gen(ch, pairing=100 if heavy else 0, max_leaves=3, depth=ch.draw(3), edge_values=False)
        t = g.tree()
        w.build("P%d" % i, t, g)
        w.build("V%d" % i, t)
        yield i, g, t


def on_secrets(w, A, heavy):
    """Statements on the same secret objects, points and keys."""
    ch = w.ch
    g = world.Gen(ch, pairing=100 if heavy else 0, max_leaves=8, depth=1, edge_values=False, share=75)
    pool = world.Pool()
    for i in range(2 + (0 if heavy else ch.draw(2))):
        t = g.tree(pool=pool)
        w.build("P%d" % i, t, g, **({"share": "P0", "naming": "auto"} if i else {}))
        w.build("V%d" % i, t)
        yield i, g, t


def on_parts(w, A, heavy):
    """Statements composed of the same statement objects, and these themselves."""
    ch, ctx = w.ch, w.ctx
    g = world.Gen(ch, pairing=100 if heavy else 0, max_leaves=8, depth=ch.draw(2), edge_values=False, share=60, sims=False)
    pool = world.Pool()
    parts = []
    for i in range(2 + (0 if heavy else ch.draw(2))):
        g.leaves = 0
        t = g.tree(pool=pool, depth=ch.draw(2))
        if not usable(t):
            continue
        h = "B%d" % len(parts)
        w.build(h, t, g, **({"share": "B0", "naming": "auto"} if parts else {}))
        w.build("VB%d" % len(parts), t)
        parts.append((h, t))
    n = 0
    for i in range(2 + ch.draw(2)):
        kind, style = ch.weighted([("and", 3), ("or", 2)]), ch.pick(["op", "ctor"])
        idx = [ch.draw(len(parts)), ch.draw(len(parts))] + ([ch.draw(len(parts))] if ch.chance(20) else [])
        whole = {"k": kind, "subs": [parts[j][1] for j in idx], "style": style, "t": True}
        if common.clash(whole):
            continue
        h = "P%d" % n
        late = ch.chance(30)
        op = ("compose", h, kind, style, [parts[j][0] for j in idx])
        if late:
            ctx.probe("composed-meanwhile")
        else:
            w.do(*op)
        w.build("V%d" % n, whole)
        yield n, g, whole, (op if late else None)
        n += 1
    for j in range(len(parts)):
        if ch.chance(50):
            yield "B%d" % j, g, parts[j][1]


def run(ctx):
    ctx.no_edges()
    ch = ctx.ch
    w = World(ctx)
    A = ctx.host("A")
    threads = ch.chance(65)
    shape = ch.weighted([("separate", 2), ("secrets", 3), ("parts", 5), ("one", 5), ("keys", 2)])
    heavy = shape == "keys" and ch.draw(2) == 1 or ch.chance(6)
    jobs = []   # (handles that only one caller may use, job)
    cases = []
    ctx.probe("shape-" + shape)
    if shape in ("separate", "secrets", "parts"):
        for x in {"separate": separate, "secrets": on_secrets, "parts": on_parts}[shape](w, A, heavy):
            cases.append(x)
        if not cases:
            raise core.Discard("no composition")
        w.boot(A)
        for x in cases:
            i, g, t = x[:3]
            late = x[3] if len(x) > 3 else None
            ph, vh = ("P%d" % i, "V%d" % i) if isinstance(i, int) else (i, "V" + i)
            what = world.describe(t)
            if late:
                o = ctx.call(A, *late)
                if not o.ok:
                    raise core.Discard("composing")
            for _ in range(1 + ch.draw(2)):
                kind = ch.weighted([("prove", 4), ("session", 4), ("bad-session", 1)])
                if kind == "prove":
                    jobs.append(w.proving(ph, vh, what, late))
                else:
                    # sessions with a verifier's object of their own
                    jobs.append(w.session(ph, vh, what, 1 + ch.draw(5) if kind == "bad-session" else 0, late))
                jobs[-1].handles += (vh,)
            if ch.chance(50):
                jobs.append(w.checking(vh, w.library_of(A, vh, t, g, ph), what))
                jobs[-1].handles += (vh,)
    elif shape == "one":
        ext = ch.chance(45)
        cfg = {} if ext else {"kinds": [("dl", 1)]}
        g = world.Gen(ch, pairing=8 if ext else 0, max_leaves=4, depth=ch.weighted([(1, 4), (0, 1), (2, 3)]), edge_values=False,
                      sims=ch.chance(40), shapes=[("or", 3), ("and", 2), ("leaf", 1)], **cfg)
        t = g.tree()
        norm = ref.normal(t)
        ext = ref.has_ext(norm)
        what = world.describe(t)
        w.build("P", t, g)
        w.build("V", t)
        w.boot(A)
        vh = "V"
        if not ext and ch.draw(2):
            vh = "P"
        twins = ch.draw(2)
        kind = None
        for _ in range(2 + ch.draw(3)):
            if kind is None or not twins:
                kind = ch.weighted([("verify", 6 if ext else 2), ("prove", 0 if ext else 3), ("session", 0 if ext else 4),
                                    ("bad-session", 0 if ext else 1), ("attack", 0 if ext else 2), ("simulate", 0 if ext else 1)])
            if kind == "verify":
                jobs.append(w.checking(vh, w.library_of(A, vh, t, g, "P"), what))
            elif kind == "prove":
                jobs.append(w.proving("P", vh, what))
            elif kind in ("session", "bad-session"):
                jobs.append(w.session("P", vh, what, 1 + ch.draw(5) if kind == "bad-session" else 0))
            elif kind == "attack":
                at = w.attack(A, "V", t, g)
                if at is not None:
                    jobs.append(w.attacking(vh, at, what))
            else:
                jobs.append(w.simulating("P", what))
        for j in jobs:
            j.handles = ()
        ctx.probe("one-object-" + ("with-precommitments" if ext else "plain"))
        cases = [(0, g, t)]
    else:
        sk, pk = world.make_key(ctx.rng, 2 + ch.draw(2))
        w.do("keyload", "k", sk["gamma"], pk)
        n = len(pk["gens"]) - 2
        g = world.Gen(ch, pairing=100, max_leaves=2, depth=ch.draw(2), edge_values=False, kinds=[("dl", 1), ("bbs", 1)])
        g.keys = [(sk, pk)]
        if heavy:
            t = {"k": "bbs"}
            t = g.leaf_bbs(world.Pool(), True)
            t["t"] = True
            w.build("P0", t, g)
            w.build("V0", t)
            cases = [(0, g, t)]
        w.boot(A)
        for i in range(2 + ch.draw(2)):
            msgs = [str(ctx.rng.randrange(1 << 64)) for _ in range(1 + ch.draw(n))]
            jobs.append(w.issuing("k", pk, msgs))
        if heavy:
            what = world.describe(t)
            jobs.append(w.proving("P0", "V0", what) if ch.draw(2) else w.session("P0", "V0", what))
    # callers
    if len(jobs) < 2:
        raise core.Discard("one job")
    ctx.sample = "%s/%s: %s" % (shape, "threads" if threads else "steps", "; ".join(j.what for j in jobs))
    ctx.event("case", ctx.sample)
    for j in jobs:
        ctx.probe("job-" + j.what.split()[0])
    # jobs that use the same exclusive object belong to the same caller
    n = 2 + ch.draw(3)
    parent = list(range(len(jobs)))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i

    user = {}
    for i, j in enumerate(jobs):
        for h in j.handles:
            if h in user:
                parent[find(i)] = find(user[h])
            user[h] = i
    caller_of, groups = {}, {}
    for i, j in enumerate(jobs):
        r = find(i)
        if r not in caller_of:
            # at least two callers, if the objects allow it
            first = list(caller_of.values())
            caller_of[r] = (first[0] + 1 + ch.draw(n - 1)) % n if len(first) == 1 else ch.draw(n)
        groups.setdefault(caller_of[r], []).append(("%d" % i, j))
    if len(groups) < 2:
        raise core.Discard("one caller")
    M = ctx.host("M")
    w.boot(M)
    if threads:
        bad = in_threads(ctx, w, M, groups)
    else:
        bad = in_steps(ctx, w, M, groups)
    if bad is None:
        # what was proved meanwhile counts elsewhere
        for vh, proof, m, what in w.made:
            o = ctx.call(A, "verify", vh, proof, message=m)
            if not o.accepted:
                bad = (None, "proof made meanwhile of %s: %r" % (what, o))
                break
            ctx.probe("proofs-made-meanwhile")
    if bad is None:
        return
    # the same jobs one after the other, where nothing else happens
    job, why = bad
    made = w.made
    w.made = []
    B = ctx.host("B")
    w.boot(B)
    for tag, j in ([(None, job)] if job else [x for k in sorted(groups) for x in groups[k]]):
        try:
            for _ in j.steps(B, "alone%s" % tag):
                pass
        except Failure as e:
            raise core.Discard("fails alone: %s" % e)
    for vh, proof, m, what in w.made:
        if not ctx.call(A, "verify", vh, proof, message=m).accepted:
            raise core.Discard("fails alone: later refused")
    ctx.fail("influenced", "%s [%s]" % (why, ctx.sample))


def in_steps(ctx, w, M, groups):
    """Steps of all callers in turn."""
    ch = ctx.ch

    def caller(items):
        for tag, j in items:
            try:
                for _ in j.steps(M, tag):
                    yield
            except Failure as e:
                raise core.Violation("job", str(e), j)
            yield

    live = [(k, caller(groups[k])) for k in sorted(groups)]
    last = None
    while live:
        x = live[ch.draw(len(live))]
        if last is not None and x[0] != last:
            ctx.fault("session-switch")
            ctx.event("turn", str(x[0]))
        last = x[0]
        try:
            next(x[1])
        except StopIteration:
            live.remove(x)
        except core.Violation as e:
            return e.key, e.msg
    return None


def in_threads(ctx, w, M, groups):
    from sim.host import LIB, Hang

    ch = ctx.ch
    gap = ch.pick([40, 8, 200, 1500])
    focus = None
    if ch.draw(2):
        k = ch.pick([16, 4, 64])
        focus = (ch.draw(k), k, ch.draw(2))
    s = sched.Scheduler(ctx, LIB, gap, opcodes=ch.chance(20), focus=focus)
    together = ch.draw(2)
    if together:
        ctx.probe("steps-together")
    bad = []

    def caller(items):
        def body():
            for tag, j in items:
                if bad:
                    return
                try:
                    for _ in j.steps(M, tag):
                        s.step(together)
                except Failure as e:
                    bad.append((j, str(e)))
                    return
        return body

    for k in sorted(groups):
        s.add("T%d" % k, caller(groups[k]))
    try:
        s.run()
    except sched.Deadlock:
        ctx.fail("deadlock", ctx.sample)
    except Hang:
        ctx.fail("hang", ctx.sample)
    ctx.fault("thread-switch", s.switches)
    ctx.probe("preemption-points", s.events)
    return bad[0] if bad else None
