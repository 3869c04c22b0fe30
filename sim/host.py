"""A simulated machine with the library on it: volatile objects by handle, JSON in and out.

`Host` runs in this process; `peer.py` runs hosts in another interpreter (other hash seed)."""

import json
import os
import signal
import traceback

from sim import env, ref, wire, build
from sim.env import ENTROPY

import zksk
from zksk.base import NIZK, SimulationTranscript
from zksk.primitives.bbsplus import (
    BBSPlusKeypair, BBSPlusSignature, BBSPlusSignatureCreator, UserCommitmentMessage)
from zksk.pairings import BilinearGroupPair

LIB = os.path.join(os.path.realpath(env.REPO), "zksk") + os.sep
CPU_LIMIT = 25.0


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


class Refused(Exception):
    """The library declined to give a prover (None)."""


class Undecodable(Exception):
    """A message that no codec accepts."""


def _alarm(signum, frame):
    raise Hang()


class Outcome:
    __slots__ = ("kind", "value", "detail")

    def __init__(self, kind, value=None, detail=""):
        self.kind, self.value, self.detail = kind, value, detail

    @property
    def ok(self):
        return self.kind == "ok"

    @property
    def accepted(self):
        return self.kind == "ok" and bool(self.value)

    def short(self):
        if self.kind == "ok":
            v = self.value
            return "ok:%s" % (v if isinstance(v, (bool, int, type(None))) else str(v)[:24])
        return "%s:%s" % (self.kind, self.value)

    def __repr__(self):
        return "%s %s" % (self.short(), self.detail[:200])


def in_library(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(LIB):
            return True
        tb = tb.tb_next
    return False


OBJECTS = {}


def box(obj):
    k = "obj:%d" % len(OBJECTS)
    OBJECTS[k] = obj
    return k


class Host:
    def __init__(self, name):
        self.name = name
        self.mem = False  # hand over Python objects instead of bytes
        self.crash()

    def crash(self):
        """Lose everything volatile; the process-local pseudo-random state starts afresh."""
        import random

        self.stmts = {}
        self.sess = {}
        self.nizks = {}
        self.pts = {}
        self.keys = {}
        self.creators = {}
        random.seed(0)

    def call(self, op, *args, **kw):
        prev = ENTROPY.cur
        ENTROPY.cur = self.name
        outer = signal.getitimer(signal.ITIMER_PROF)[0] > 0
        if not outer:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            return Outcome("ok", getattr(self, "op_" + op)(*args, **kw))
        except Hang:
            return Outcome("hang", op)
        except (Refused, Undecodable) as e:
            return Outcome("refused" if isinstance(e, Refused) else "undecodable", type(e).__name__, str(e))
        except RecursionError as e:
            return Outcome("err", "RecursionError", str(e))
        except Exception as e:
            if not in_library(e.__traceback__) and isinstance(e, (KeyError, AssertionError, HarnessError)):
                raise
            return Outcome("err", type(e).__name__, "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]))
        finally:
            if not outer:
                signal.setitimer(signal.ITIMER_PROF, 0)
            ENTROPY.cur = prev

    def op_bits(self):
        """Bits this machine has drawn from the entropy source so far."""
        return ENTROPY.bits.get(self.name, 0)

    # -- encoding of protocol messages

    def out(self, obj):
        return box(obj) if self.mem else wire.enc(obj)

    def inn(self, data):
        if isinstance(data, str) and data.startswith("obj:"):
            return OBJECTS[data]
        try:
            return wire.dec(data)
        except Exception as e:
            raise Undecodable(str(e))

    # -- statements

    def points(self, mode):
        if mode not in self.pts:
            self.pts[mode] = build.Points(mode)
        return self.pts[mode]

    def op_build(self, h, tree, secrets=None, sigs=None, naming="auto", prefix="x", mode="own", share=None, marks=0):
        """Build a statement; with `share`, on the secrets and points of statement `share`."""
        shared = self.stmts[share].secrets if share else None
        b = build.Builder(self.points(mode), secrets, sigs, naming, prefix, shared, marks)
        built = b.build(tree)
        if share:
            built.values.update(self.stmts[share].values)
        self.stmts[h] = built
        return True

    def op_compose(self, h, kind, style, subs):
        """Compose existing statement objects."""
        import functools
        import operator

        parts = [self.stmts[s].stmt for s in subs]
        if style == "op":
            st = functools.reduce(operator.and_ if kind == "and" else operator.or_, parts)
        else:
            st = (build.AndProofStmt if kind == "and" else build.OrProofStmt)(*parts)
        values, secrets = {}, {}
        for s in subs:
            values.update(self.stmts[s].values)
            secrets.update(self.stmts[s].secrets)
        self.stmts[h] = build.Built(st, secrets, values)
        return True

    def op_drop(self, h):
        self.stmts.pop(h, None)
        return True

    def op_id(self, h):
        return self.stmts[h].stmt.prehash_statement().digest().hex()

    def op_gens(self, gid, n, seed=42):
        """Publicly derived generators."""
        from zksk.utils import make_generators

        grp = self.points("own").bp.G1 if gid == "G1" else self.points("own").ec(int(gid[2:]))
        return [p.export().hex() for p in make_generators(n, group=grp, seed=seed)]

    def op_range_only(self, a, b, v):
        """A range statement with its own commitment, proved and verified on one object."""
        from zksk import Secret
        from zksk.primitives.rangeproof import RangeOnlyStmt

        a, b, v = (build.number(x, "int") for x in (a, b, v))
        if max(abs(int(a)), abs(int(b))) >= 1 << 62:
            a, b = ref.bn(int(a)), ref.bn(int(b))
        st = RangeOnlyStmt(a, b, Secret(value=v))
        return bool(st.verify(NIZK.deserialize(st.prove().serialize())))

    def op_set_values(self, h, names):
        """Keep only these names' values for the prove dictionary."""
        b = self.stmts[h]
        b.values = {s: v for n, s in b.secrets.items() if n in names for s2, v in b.values.items() if s2 is s}
        return True

    def op_give(self, h, values):
        """Values of all secrets for the prove dictionary: {name: [value, type]}."""
        b = self.stmts[h]
        b.values = {b.secrets[n]: build.number(v, t) for n, (v, t) in values.items() if n in b.secrets}
        return True

    def op_build_mixed(self, h, spec, tree, kind, values=None, secrets=None, sigs=None):
        """A primitive over points of several groups, alone or with another statement."""
        from zksk import Secret

        at = lambda p: self.points("own").get(p[0], p[1])
        b = build.Builder(self.points("own"), secrets, sigs)
        var = lambda n: b.secrets.setdefault(n, Secret(value=None if values is None else ref.bn(values[n])))
        if spec["k"] == "dl":
            e = None
            for n, gid, p in spec["terms"]:
                term = var(n) * at([gid, p])
                e = term if e is None else e + term
            st = build.DLRep(at(spec["lhs"]), e)
        elif spec["k"] == "dlne":
            H0, h0, H1, h1 = (at(p) for p in spec["p"])
            st = build.DLNotEqual((H0, h0), (H1, h1), var(spec["x"]), bind=bool(spec["bind"]))
        elif spec["k"] == "range":
            st = build.RangeStmt(at(spec["com"]), at(spec["g"]), at(spec["h"]), 0, 7, var(spec["x"]), var(spec["r"]))
        else:
            st = build.PowerTwoRangeStmt(at(spec["com"]), at(spec["g"]), at(spec["h"]), 3, var(spec["x"]), var(spec["r"]))
        if kind:
            other = b.stmt(tree)
            st = (build.AndProofStmt if kind == "and" else build.OrProofStmt)(st, other)
        self.stmts[h] = build.Built(st, b.secrets, b.values)
        return True

    # -- non-interactive

    def op_prove(self, h, message=None, key=None, values=True):
        b = self.stmts[h]
        kw = {} if message is None else {"message": message}
        vals = dict(b.values) if values else {}
        nizk = b.stmt.prove(vals, **kw) if vals else b.stmt.prove(**kw)
        if key:
            self.nizks[key] = nizk
        return nizk.serialize().hex()

    def op_verify(self, h, proof, message=None):
        if proof.startswith("key:"):
            nizk = self.nizks[proof[4:]]
        else:
            nizk = NIZK.deserialize(bytes.fromhex(proof))
        kw = {} if message is None else {"message": message}
        return bool(self.stmts[h].stmt.verify(nizk, **kw))

    def op_recode(self, proof):
        """Read a stored proof and write it again."""
        nizk = NIZK.deserialize(bytes.fromhex(proof))
        return nizk.serialize().hex()

    def op_load(self, key, proof):
        """Read a stored proof and keep it."""
        self.nizks[key] = NIZK.deserialize(bytes.fromhex(proof))
        return True

    def op_dump(self, key):
        return self.nizks[key].serialize().hex()

    def op_fields(self, proof):
        """Digest of the fields of a stored proof, as read back."""
        n = self.nizks[proof[4:]] if proof.startswith("key:") else NIZK.deserialize(bytes.fromhex(proof))
        import hashlib

        return [hashlib.sha256(repr(wire.plain(x)).encode()).hexdigest()[:16]
                for x in (n.challenge, n.responses, n.precommitment, n.stmt_hash)]

    # -- interactive

    def op_p_new(self, s, h, values=True):
        b = self.stmts[h]
        p = b.stmt.get_prover(dict(b.values) if values else {})
        if p is None:
            raise Refused("no prover")
        self.sess[s] = p
        return True

    def op_p_pre(self, s):
        return self.out(self.sess[s].precommit())

    def op_p_com(self, s):
        return self.out(self.sess[s].commit())

    def op_p_resp(self, s, c):
        return self.out(self.sess[s].compute_response(ref.bn(int(c))))

    def op_in_copy(self, salt, op, *args, **kw):
        """What a copy of this machine (with all of its memory) does; the machine itself goes on as if nothing
        had been asked.  With a salt, the copy draws other bits from the entropy source."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if salt is not None:
                    import random

                    ENTROPY.streams[ENTROPY.cur] = random.Random("%d/%s/%s" % (ENTROPY.run_seed, ENTROPY.cur, salt))
                try:
                    ans = ["ok", getattr(self, "op_" + op)(*args, **kw)]
                except Exception as e:
                    ans = ["err", "%s: %s" % (type(e).__name__, e)]
                data = json.dumps(ans).encode()
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        if not buf:
            raise HarnessError("the copy died")
        kind, v = json.loads(buf)
        if kind == "err":
            raise ValueError("in the copy: " + v)
        return v

    def op_p_resp_rolled_back(self, s, c):
        """The answer of a copy to a challenge."""
        return self.op_in_copy(None, "p_resp", s, c)

    def op_clock(self, now):
        env.CLOCK.now = now
        return True

    def op_prng_reset(self):
        """The process-local pseudo-random state is what it was at the start."""
        import random

        random.seed(0)
        return True

    def op_v_new(self, s, h):
        self.sess[s] = self.stmts[h].stmt.get_verifier()
        return True

    def op_v_pre(self, s, data):
        self.sess[s].process_precommitment(self.inn(data))
        return True

    def op_v_com(self, s, data):
        com = self.inn(data)
        return str(int(self.sess[s].send_challenge(com)))

    def op_v_resp(self, s, data):
        return bool(self.sess[s].verify(self.inn(data)))

    # -- simulation

    def op_simulate(self, h, challenge=None):
        st = self.stmts[h].stmt
        tr = st.simulate() if challenge is None else st.simulate(challenge=ref.bn(int(challenge)))
        return self.out([tr.commitment, tr.challenge, tr.responses, tr.precommitment, tr.stmt_hash])

    def op_sim_check(self, h, data):
        com, c, resp, pre, sh = self.inn(data)
        tr = SimulationTranscript(commitment=com, challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
        return bool(self.stmts[h].stmt.verify_simulation_consistency(tr))

    def op_fs(self, h, data, message=""):
        """The challenge a non-interactive proof with these parts would need."""
        from zksk.base import build_fiat_shamir_challenge

        com, pre = self.inn(data)
        st = self.stmts[h].stmt
        if pre is not None:
            st.get_verifier().process_precommitment(pre)
        return str(int(build_fiat_shamir_challenge(st.prehash_statement(), pre, com, message=message)))

    def op_verify_object(self, h, data, form, message=None):
        """Non-interactive verification of an object that somebody put together."""
        com, c, resp, pre, sh = self.inn(data)
        if form == "transcript":
            x = SimulationTranscript(commitment=com, challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
        else:
            x = NIZK(challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
            if form == "annotated":
                x.commitment = com
        kw = {} if message is None else {"message": message}
        return bool(self.stmts[h].stmt.verify(x, **kw))

    # -- BBS+ issuance

    def op_keygen(self, k, n):
        bp = BilinearGroupPair()
        kp = BBSPlusKeypair.generate(bp, n)
        self.keys[k] = (kp.sk, kp.pk)
        return {"w": kp.pk.w.export().hex(), "h0": kp.pk.h0.export().hex(), "gens": [g.export().hex() for g in kp.pk.generators]}

    def op_keyload(self, k, sk, pk):
        """Issuer restart: the key pair is durable."""
        from zksk.primitives.bbsplus import BBSPlusSecretKey

        p = self.points("own").pk(pk)
        self.keys[k] = (BBSPlusSecretKey(h0=p.h0, gamma=ref.bn(int(sk)), generators=p.generators), p)
        return True

    def op_keysecret(self, k):
        return str(int(self.keys[k][0].gamma))

    def op_creator(self, c, pk, mode="own"):
        self.creators[c] = BBSPlusSignatureCreator(self.points(mode).pk(pk))
        return True

    def op_request(self, c, msgs, zkp=True):
        m = self.creators[c].commit([ref.bn(int(x)) for x in msgs], zkp=zkp)
        n = m.com_nizk_proof
        return self.out([m.com_message, None if n is None else n.serialize()])

    def op_blind_ok(self, k, data):
        """Issuer's check of a request."""
        com, n = self.inn(data)
        if n is not None:
            n = NIZK.deserialize(n)
        return bool(UserCommitmentMessage(com_message=com, com_nizk_proof=n).verify_blinding(self.keys[k][1]))

    def op_sign(self, k, data):
        com, _ = self.inn(data)
        sig = self.keys[k][0].sign(com)
        return self.out([sig.A, sig.e, sig.s])

    def op_obtain(self, c, data):
        A, e, s = self.inn(data)
        sig = self.creators[c].obtain_signature(BBSPlusSignature(A=A, e=e, s=s))
        return {"A": sig.A.export().hex(), "e": str(int(sig.e)), "s": str(int(sig.s))}

    def op_sig_ok(self, pk, sig, msgs, mode="own"):
        p = self.points(mode)
        return bool(p.sig(sig).verify_signature(p.pk(pk), [ref.bn(int(x)) for x in msgs]))


# --- hosts in another process ----------------------------------------------------------------------


class Peer:
    """A child interpreter that runs hosts; calls are synchronous, so its schedule is the caller's."""

    def __init__(self):
        import subprocess

        self.proc = subprocess.Popen(
            [env.PY, "-W", "ignore", "-m", "sim.peer"], cwd=env.VERIF, env=env.child_env(env.HASHSEED_PEER),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def rpc(self, *req):
        self.proc.stdin.write((json.dumps(req) + "\n").encode())
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise HarnessError("peer died")
        r = json.loads(line)
        if r[0] == "harness":
            raise HarnessError("peer: " + r[1])
        return r

    def reset(self, run_seed, edge, base, reuse):
        self.rpc("reset", run_seed, edge, base, reuse)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:
            self.proc.kill()


class RemoteHost:
    remote = True

    def __init__(self, peer, name):
        self.peer, self.name = peer, name
        self.mem = False
        peer.rpc("new", name)

    def crash(self):
        self.peer.rpc("crash", self.name)

    def call(self, op, *args, **kw):
        r = self.peer.rpc("call", self.name, op, args, kw)
        return Outcome(*r[1:])
