"""Environment of a simulated run: paths, and the seams for randomness and object identity."""

import os
import sys

REPO = os.environ.get("ZKSK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

HASHSEED_MAIN = "0"
HASHSEED_PEER = "777"


def child_env(hashseed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=hashseed,
        ZKSK_SIM="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONWARNINGS="ignore",
        PYTHONPATH=VERIF,
    )
    return env


def ensure(hashseed=HASHSEED_MAIN):
    """Re-execute under the right interpreter and settings."""
    ok = (
        os.environ.get("ZKSK_SIM") == "1"
        and os.environ.get("PYTHONHASHSEED") is not None
        and sys.executable == PY
    )
    if not ok:
        os.execve(PY, [PY, "-W", "ignore"] + sys.argv, child_env(hashseed))


def setup_path():
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)


class Entropy:
    """Seeded stand-in for the operating system's entropy, one stream per node."""

    def __init__(self):
        self.streams = {}
        self.run_seed = 0
        self.cur = "main"
        self.edge = 0  # probability (in 1/1000) of a legal but unusual value
        self.edge_rng = None
        self.draws = 0
        self.edges = 0
        self.bits = {}  # per node
        self.script = {}  # per node: values for the next draws

    def reset(self, run_seed, edge=0):
        import random

        self.run_seed = run_seed
        self.streams = {}
        self.cur = "main"
        self.edge = edge
        self.edge_rng = random.Random("edge/%d" % run_seed)
        self.draws = 0
        self.edges = 0
        self.bits = {}
        self.script = {}

    def count(self, bits):
        self.draws += 1
        self.bits[self.cur] = self.bits.get(self.cur, 0) + bits

    def rng(self):
        r = self.streams.get(self.cur)
        if r is None:
            import random

            r = self.streams[self.cur] = random.Random("%d/%s" % (self.run_seed, self.cur))
        return r

    def randbelow(self, n):
        self.count(n.bit_length() - 1 if n & (n - 1) == 0 else n.bit_length())
        r = self.rng()
        script = self.script.get(self.cur)
        if script:
            v = script.pop(0)(n)
            if v is not None:
                return v
        if self.edge and n > 1 << 64 and self.edge_rng.randrange(1000) < self.edge:
            self.edges += 1
            k = self.edge_rng.randrange(6)
            return [1, 2, n - 1, n >> 1, (1 << 64) - 1, 1 << (n.bit_length() - 1) if 1 << (n.bit_length() - 1) < n else 3][k]
        return r.randrange(n)

    def urandom(self, k):
        self.count(8 * k)
        return self.rng().randbytes(k)


ENTROPY = Entropy()


class Identity:
    """Stand-in for object identity (addresses): deterministic, and, like an allocator, it can hand
    out the identity of a dead object again."""

    def __init__(self):
        self.reset(0, False)

    def reset(self, base, reuse):
        self.next = 1000 + (base % 1000003) * 16
        self.free = []
        self.refs = {}
        self.known = {}
        self.reuse = reuse
        self.reused = 0

    def __call__(self, obj):
        import weakref

        k = id(obj)
        ref = self.known.get(k)
        if ref is not None and ref[0]() is obj:
            return ref[1]
        if self.reuse and self.free:
            ident = self.free.pop()
            self.reused += 1
        else:
            ident = self.next
            self.next += 16
        gen = self
        refs = self.known

        def dead(r, k=k, ident=ident):
            if refs is gen.known and refs.get(k, (None,))[0] is r:
                del refs[k]
                gen.free.append(ident)

        self.known[k] = (weakref.ref(obj, dead), ident)
        return ident


IDENTITY = Identity()


class Clock:
    """The wall clock of the simulated machines, in seconds; runs set it."""

    START = 1700000000

    def __init__(self):
        self.now = self.START

    def time(self):
        return float(self.now)

    def time_ns(self):
        return int(self.now) * 10 ** 9


CLOCK = Clock()
_installed = False


def install():
    """Put the seams in place (idempotent)."""
    global _installed
    if _installed:
        return
    _installed = True
    from sim import sched

    sched.install_locks()
    import random
    import petlib.bn

    Bn = petlib.bn.Bn

    def bn_random(self):
        n = int(self)
        if n <= 0:
            raise Exception("Bn exception: %s" % 0)
        return Bn.from_decimal(str(ENTROPY.randbelow(n)))

    Bn.random = bn_random
    os.urandom = ENTROPY.urandom
    random._urandom = ENTROPY.urandom
    import time

    time.time = CLOCK.time
    time.time_ns = CLOCK.time_ns
    import secrets  # uses random.SystemRandom, and so random._urandom

    import zksk.expr

    zksk.expr.sim_identity = IDENTITY


def reset(run_seed, edge=0, ident_base=0, ident_reuse=False):
    import random

    ENTROPY.reset(run_seed, edge)
    IDENTITY.reset(ident_base, ident_reuse)
    CLOCK.now = Clock.START
    random.seed(0)
