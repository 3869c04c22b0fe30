"""Run context, violations, discrete-event kernel, simulated network and disk."""

import hashlib
import heapq
import random

from sim import env, ref
from sim.choices import Choices


class Violation(Exception):
    def __init__(self, cls, msg="", key=None):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg, self.key = cls, msg, key


class Discard(Exception):
    """This run turned out to decide nothing."""


class Ctx:
    """One run."""

    def __init__(self, ch, peer=None, tier="quick", opts=None):
        self.ch = ch
        self.tier = tier
        self.opts = opts or {}
        self.peer = peer
        self.log = []
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.kinds = []
        self.sim_ms = 0
        self.hosts = {}
        self.real_ops = 0
        self.sample = ""
        self.peer_used = False
        run_seed = ch.seed64()
        self.run_seed = run_seed
        self.rng = random.Random("ctx/%d" % run_seed)
        edge = ch.weighted([(0, 3), (5, 1), (40, 1)])
        base = ch.draw(1000)
        reuse = ch.chance(30)
        self.boot = (run_seed, edge, base, reuse)
        env.reset(*self.boot)

    def no_edges(self):
        """Draws from the simulated entropy are uniform in this run (call first)."""
        assert not self.real_ops
        self.boot = (self.boot[0], 0) + self.boot[2:]
        env.reset(*self.boot)

    # -- recording

    def event(self, kind, text=""):
        line = "%s %s" % (kind, text) if text else kind
        self.hash.update(line.encode("utf8", "replace"))
        self.hash.update(b"\n")
        if len(self.log) < 4000:
            self.log.append(line)
        self.kinds.append(kind)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def fail(self, cls, msg="", key=None):
        self.event("VIOLATION", cls)
        raise Violation(cls, msg, key)

    # -- hosts

    def host(self, name, remote=False):
        from sim import host as H

        if remote and self.peer is not None:
            if not self.peer_used:
                self.peer_used = True
                self.peer.reset(*self.boot)
            h = H.RemoteHost(self.peer, name)
            self.probe("host-other-process")
        else:
            h = H.Host(name)
        self.hosts[name] = h
        return h

    def call(self, h, op, *args, **kw):
        self.real_ops += 1
        o = h.call(op, *args, **kw)
        self.event("%s.%s" % (h.name, op), o.short())
        return o

    def finish(self):
        if self.peer_used:
            self.peer.rpc("end")

    def signature(self):
        return hashlib.sha256("\n".join(self.kinds + [self.sample]).encode()).hexdigest()[:16]


# --- disk ------------------------------------------------------------------------------------------


class Disk:
    """Files with a volatile cache in front.  A crash keeps what was synced; of the rest, each sector
    of each pending write survives or not."""

    SECTOR = 64

    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}
        self.pending = []
        self.full = False

    def write(self, name, data, partial=False):
        if self.full:
            self.ctx.fault("disk-full")
            raise OSError("disk full")
        self.pending.append((name, data))

    def sync(self, name=None):
        rest = []
        for n, d in self.pending:
            if name is None or n == name:
                self.files[n] = d
            else:
                rest.append((n, d))
        self.pending = rest

    def read(self, name):
        for n, d in reversed(self.pending):
            if n == name:
                return d
        return self.files.get(name)

    def crash(self, ch):
        for n, d in self.pending:
            old = self.files.get(n, b"")
            how = ch.weighted([("lost", 2), ("kept", 2), ("short", 3), ("torn", 3)])
            self.ctx.fault("disk-write-" + how)
            self.ctx.event("disk", "%s %s" % (n, how))
            if how == "kept":
                self.files[n] = d
            elif how == "short":
                self.files[n] = d[: ch.draw(len(d) + 1)]
            elif how == "torn":
                out = bytearray()
                size = max(len(d), len(old))
                for i in range(0, len(d), self.SECTOR):
                    new = d[i:i + self.SECTOR]
                    prev = old[i:i + self.SECTOR].ljust(len(new), b"\0")[: len(new)]
                    out += new if ch.draw(2) else prev
                self.files[n] = bytes(out)
        self.pending = []

    def rot(self, ch, name):
        """A stored byte changes."""
        d = self.files.get(name)
        if d:
            i = ch.draw(len(d))
            self.files[name] = d[:i] + bytes([d[i] ^ (1 << ch.draw(8))]) + d[i + 1:]
            self.ctx.fault("disk-bit-flip")


# --- kernel ----------------------------------------------------------------------------------------


class Net:
    def __init__(self, drop=0, dup=0, corrupt=0, misroute=0, dmin=1, dmax=1):
        self.drop, self.dup, self.corrupt, self.misroute = drop, dup, corrupt, misroute
        self.dmin, self.dmax = dmin, dmax

    def quiet(self):
        self.drop = self.dup = self.corrupt = self.misroute = 0
        self.dmax = self.dmin


class Actor:
    """A node's program: a generator that yields ("recv", timeout) or ("sleep", ms)."""

    def __init__(self, kernel, name, program, host=None, durable=None):
        self.k, self.name, self.program, self.host = kernel, name, program, host
        self.durable = durable if durable is not None else {}
        self.inbox = []
        self.gen = None
        self.up = False
        self.done = False
        self.epoch = 0
        self.wait = None
        self.rate = 100
        self.restarts = 0

    def start(self):
        self.up = True
        self.epoch += 1
        self.inbox = []
        self.gen = self.program(self)
        self.step(None, first=True)

    def crash(self):
        if not self.up:
            return
        self.up = False
        self.epoch += 1
        self.gen.close()
        self.gen = None
        self.inbox = []
        if self.host is not None:
            self.host.crash()

    def step(self, value, first=False):
        k = self.k
        try:
            w = next(self.gen) if first else self.gen.send(value)
        except StopIteration:
            self.done = True
            self.gen = None
            self.wait = None
            return
        self.wait = w
        epoch = self.epoch
        k.waits += 1
        wid = self.wid = k.waits
        kind, t = w
        if kind == "sleep":
            k.after(t, lambda: self.fire(epoch, wid))
        else:
            if self.inbox:
                k.after(0, lambda: self.take(epoch, wid))
            elif t is not None:
                k.after(t * self.rate // 100, lambda: self.fire(epoch, wid))

    def fire(self, epoch, wid):
        if self.up and self.epoch == epoch and self.wid == wid and self.gen is not None:
            self.k.ctx.event("timer", self.name)
            self.step(None)

    def take(self, epoch, wid):
        if self.up and self.epoch == epoch and self.wid == wid and self.gen is not None and self.inbox:
            self.step(self.inbox.pop(0))

    def deliver(self, msg):
        if not self.up or self.gen is None:
            return
        self.inbox.append(msg)
        if self.wait and self.wait[0] == "recv" and len(self.inbox) == 1:
            self.take(self.epoch, self.wid)

    def send(self, to, *msg):
        self.k.send(self.name, to, msg)


class Kernel:
    def __init__(self, ctx, net=None):
        self.ctx, self.ch = ctx, ctx.ch
        self.now = 0
        self.seq = 0
        self.waits = 0
        self.heap = []
        self.actors = {}
        self.net = net or Net()
        self.cut = set()
        self.steps = 0

    def after(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0, int(dt)), self.seq, fn))

    def actor(self, name, program, host=None, durable=None):
        a = Actor(self, name, program, host, durable)
        self.actors[name] = a
        return a

    def send(self, src, to, msg):
        ctx, ch, net = self.ctx, self.ch, self.net
        if (src, to) in self.cut:
            ctx.fault("net-partition-drop")
            ctx.event("cut", "%s>%s %s" % (src, to, msg[0]))
            return
        if ch.chance(net.drop):
            ctx.fault("net-drop")
            ctx.event("drop", "%s>%s %s" % (src, to, msg[0]))
            return
        n = 1
        if ch.chance(net.dup):
            ctx.fault("net-duplicate")
            n = 2
        for _ in range(n):
            d = net.dmin + (ch.draw(net.dmax - net.dmin + 1) if net.dmax > net.dmin else 0)
            if d > 4 * net.dmin and d > 10:
                ctx.fault("net-delay")
            m = msg
            if ch.chance(net.corrupt):
                m = self.damage(msg)
            self.after(d, lambda m=m: self.arrive(src, to, m))

    def damage(self, msg):
        """Flip, cut or overwrite bytes of one hex payload."""
        idx = [i for i, x in enumerate(msg) if isinstance(x, str) and len(x) >= 8 and all(c in "0123456789abcdef" for c in x)]
        if not idx:
            return msg
        i = self.ch.pick(idx)
        self.ctx.fault("net-corrupt")
        out = list(msg)
        if len(msg[i]) % 2 or msg[i].isdigit():
            j = self.ch.draw(len(msg[i]))
            out[i] = msg[i][:j] + str(self.ch.draw(10)) + msg[i][j + 1:]
        else:
            out[i] = corrupt_hex(self.ch, msg[i])
        return tuple(out)

    def arrive(self, src, to, msg):
        self.ctx.event("recv", "%s>%s %s" % (src, to, " ".join(str(x)[:12] for x in msg[:2])))
        a = self.actors.get(to)
        if a is None or not a.up:
            self.ctx.fault("net-to-dead-node")
            return
        a.deliver((src,) + tuple(msg))

    def crash(self, name, down):
        a = self.actors[name]
        if not a.up or a.done:
            return
        self.ctx.fault("crash-restart")
        self.ctx.event("crash", name)
        a.crash()
        a.restarts += 1

        def up():
            self.ctx.event("restart", name)
            a.start()

        self.after(down, up)

    def plan(self, horizon, crashes=(), partitions=0, stalls=0):
        """Schedule faults in [0, horizon); at horizon all faults stop."""
        ch = self.ch
        names = list(self.actors)
        for name, n in crashes:
            for _ in range(n):
                t = ch.draw(horizon)
                down = 1 + ch.draw(60)
                self.after(t, lambda name=name, down=down: self.crash(name, down))
        for _ in range(partitions):
            t, d = ch.draw(horizon), 1 + ch.draw(150)
            a, b = ch.pick(names), ch.pick(names)
            pairs = [(a, b)] if ch.draw(2) else [(a, b), (b, a)]

            def cut(pairs=pairs, d=d):
                self.ctx.fault("net-partition")
                self.ctx.event("partition", str(pairs))
                self.cut.update(pairs)
                self.after(d, lambda: self.cut.difference_update(pairs))

            self.after(t, cut)

        def heal():
            self.ctx.event("heal")
            self.cut.clear()
            self.net.quiet()

        self.after(horizon, heal)

    def run(self, until=10 ** 6, max_steps=5000, stop=None):
        while self.heap and self.now <= until and self.steps < max_steps:
            t, _, fn = heapq.heappop(self.heap)
            self.now = t
            self.steps += 1
            fn()
            if stop is not None and stop():
                break
        self.ctx.sim_ms += self.now


def corrupt_hex(ch, h):
    """A damaged copy of some hex-encoded bytes."""
    b = bytearray(bytes.fromhex(h))
    how = ch.weighted([("flip", 5), ("byte", 3), ("cut", 2), ("zero", 1), ("grow", 1), ("swap", 1)])
    n = len(b)
    if n == 0:
        return "00"
    if how == "flip":
        for _ in range(1 + ch.draw(2)):
            b[ch.draw(n)] ^= 1 << ch.draw(8)
    elif how == "byte":
        b[ch.draw(n)] = ch.draw(256)
    elif how == "cut":
        b = b[: ch.draw(n)]
    elif how == "zero":
        i = ch.draw(n)
        l = 1 + ch.draw(min(64, n - i))
        b[i:i + l] = bytes(l)
    elif how == "grow":
        i = ch.draw(n + 1)
        b[i:i] = bytes(ch.draw(256) for _ in range(1 + ch.draw(4)))
    elif how == "swap":
        i, j = ch.draw(n), ch.draw(n)
        b[i], b[j] = b[j], b[i]
    return bytes(b).hex()
