"""From JSON specs to statements of the library under test, for provers and for verifiers."""

import functools
import operator

from petlib.bn import Bn
from petlib.ec import EcGroup, EcPt
import petlib.pack
import msgpack

from zksk import Secret, DLRep
from zksk.base import NIZK
from zksk.composition import AndProofStmt, OrProofStmt
from zksk.exceptions import ValidationError
from zksk.expr import wsum_secrets
from zksk.extended import ExtendedProofStmt
from zksk.pairings import BilinearGroupPair, G1Point, G2Point, AdditivePoint
from zksk.primitives.dl_notequal import DLNotEqual
from zksk.primitives.rangeproof import PowerTwoRangeStmt, RangeStmt
from zksk.primitives.bbsplus import BBSPlusPublicKey, BBSPlusSignature, BBSPlusSignatureStmt
from bplib.bp import G1Elem, G2Elem, GTElem

from sim import ref


# --- user-defined primitives, written after docs/new_primitives.rst --------------------------------


class Elgamal(ExtendedProofStmt):
    """c1 = r G, c2 = r H + m G"""

    def __init__(self, pts, r, m, simulated=False):
        self.pts, self.r, self.m = pts, r, m
        self.set_simulated(simulated)

    def construct_stmt(self, precommitment):
        p = self.pts
        return AndProofStmt(
            DLRep(p["c1"], self.r * p["G"]), DLRep(p["c2"], self.r * p["H"] + self.m * p["G"]))


class CheckedElgamal(Elgamal):
    def validate(self, precommitment):
        if self.pts["c1"] == self.pts["bad"]:
            raise ValidationError("c1 is excluded")


class JustOne(Elgamal):
    def construct_stmt(self, precommitment):
        return DLRep(self.pts["c1"], self.r * self.pts["G"])


class Either(Elgamal):
    def construct_stmt(self, precommitment):
        p = self.pts
        return OrProofStmt(DLRep(p["c1"], self.r * p["G"]), DLRep(p["c2"], self.m * p["H"]))


class Fresh(Elgamal):
    """c1 = r G, and D = t G for a fresh D that is no unity."""

    internal_secrets = ("t",)

    def __init__(self, pts, r, m, simulated=False):
        super().__init__(pts, r, m, simulated)
        self.t = Secret()

    def precommit(self):
        self.t.value = self.pts["G"].group.order().random()
        return {"D": self.t.value * self.pts["G"], "tag": "t"}

    def simulate_precommit(self):
        return {"D": self.pts["G"].group.order().random() * self.pts["G"], "tag": "t"}

    def construct_stmt(self, precommitment):
        return AndProofStmt(
            DLRep(self.pts["c1"], self.r * self.pts["G"]),
            DLRep(precommitment["D"], self.t * self.pts["G"]))

    def validate(self, precommitment):
        if precommitment["D"] == self.pts["G"].group.infinite():
            raise ValidationError("unity")
        if precommitment["tag"] not in ("t", b"t"):
            raise ValidationError("tag")


class Split(Elgamal):
    """c1 = r G; the precommitment is a pair of points that add up to c1 + H."""

    def precommit(self):
        a = self.pts["G"].group.order().random() * self.pts["G"]
        return [a, self.pts["c1"] + self.pts["H"] - a]

    simulate_precommit = precommit

    def construct_stmt(self, precommitment):
        return DLRep(self.pts["c1"], self.r * self.pts["G"])

    def validate(self, precommitment):
        if len(precommitment) != 2 or precommitment[0] + precommitment[1] != self.pts["c1"] + self.pts["H"]:
            raise ValidationError("sum")


class Multiple(Elgamal):
    """c1 = r G, shown as k c1 = r (k G) for a number k that the prover chooses."""

    def precommit(self):
        return Bn(1 + int(self.pts["G"].group.order().random()) % 1000)

    simulate_precommit = precommit

    def construct_stmt(self, precommitment):
        return DLRep(precommitment * self.pts["c1"], self.r * (precommitment * self.pts["G"]))

    def validate(self, precommitment):
        if not 1 <= precommitment <= 1000:
            raise ValidationError("multiple")


class Deep(Elgamal):
    """c1 = r G, and a disjunction over two points of the prover that must differ."""

    internal_secrets = ("t", "u")

    def __init__(self, pts, r, m, simulated=False):
        super().__init__(pts, r, m, simulated)
        self.t, self.u = Secret(), Secret()

    def precommit(self):
        order = self.pts["G"].group.order()
        self.t.value, self.u.value = order.random(), order.random()
        return {"D": [self.t.value * self.pts["G"], self.u.value * self.pts["G"]], "n": 7, "raw": b"\x00\xff", "no": None}

    def simulate_precommit(self):
        order = self.pts["G"].group.order()
        return {"D": [order.random() * self.pts["G"], order.random() * self.pts["G"]], "n": 7, "raw": b"\x00\xff", "no": None}

    def construct_stmt(self, precommitment):
        D = precommitment["D"]
        return DLRep(self.pts["c1"], self.r * self.pts["G"]) & (
            DLRep(D[0], self.t * self.pts["G"]) | DLRep(D[1], self.u * self.pts["G"]))

    def validate(self, precommitment):
        D = precommitment["D"]
        if len(D) != 2 or D[0] == D[1]:
            raise ValidationError("points")
        if precommitment["n"] != 7 or precommitment["raw"] != b"\x00\xff" or precommitment["no"] is not None:
            raise ValidationError("parameters")


CUSTOM = {"num": Multiple, "deep": Deep, "elg": Elgamal, "valonly": CheckedElgamal, "rep": JustOne, "or": Either, "pre": Fresh, "prel": Split}


# --- points ----------------------------------------------------------------------------------------


class Points:
    """Where a party's points come from: `mode` is "own" (one group object), "fresh" (a group object
    for every point) or "wire" (points decoded with the library's coders)."""

    def __init__(self, mode="own"):
        self.mode = mode
        self.ecs = {}
        self.cache = {}
        self.pks = {}
        self._bp = None

    @property
    def bp(self):
        if self._bp is None:
            self._bp = BilinearGroupPair()
        return self._bp

    def ec(self, nid):
        if self.mode == "own":
            if nid not in self.ecs:
                self.ecs[nid] = EcGroup(nid)
            return self.ecs[nid]
        return EcGroup(nid)

    def get(self, gid, hexa):
        k = (gid, hexa)
        p = self.cache.get(k)
        if p is None:
            p = self.cache[k] = self.make(gid, hexa)
        return p

    def make(self, gid, hexa):
        data = bytes.fromhex(hexa)
        if gid.startswith("ec"):
            p = EcPt.from_binary(data, self.ec(int(gid[2:])))
            if self.mode == "wire":
                p = petlib.pack.decode(petlib.pack.encode(p))
            return p
        bp = self.bp if self.mode == "own" else BilinearGroupPair() if self.mode == "fresh" else self.bp
        raw = {"G1": G1Elem, "G2": G2Elem, "GT": GTElem}[gid].from_bytes(data, bp.bpgp)
        p = {"G1": G1Point, "G2": G2Point, "GT": AdditivePoint}[gid](raw, bp)
        if self.mode == "wire":
            p = petlib.pack.decode(petlib.pack.encode(p))
        return p

    def wrap(self, gid, raw):
        """Library point from a raw point."""
        if gid.startswith("ec"):
            return raw
        return self.make(gid, ref.hx(gid, raw)) if self.mode != "own" else {
            "G1": G1Point, "G2": G2Point, "GT": AdditivePoint}[gid](raw, self.bp)

    def pk(self, spec):
        k = spec["w"] + "/" + spec["h0"] + "/" + ",".join(spec["gens"])
        p = self.pks.get(k)
        if p is None:
            p = self.pks[k] = BBSPlusPublicKey(
                w=self.get("G2", spec["w"]), h0=self.get("G2", spec["h0"]),
                generators=[self.get("G1", x) for x in spec["gens"]])
        return p

    def sig(self, spec):
        return BBSPlusSignature(A=self.make("G1", spec["A"]), e=ref.bn(int(spec["e"])), s=ref.bn(int(spec["s"])))


# --- statements ------------------------------------------------------------------------------------


def number(v, t):
    v = int(v)
    return v if t == "int" and abs(v) < 1 << 62 else ref.bn(v)


class Built:
    def __init__(self, stmt, secrets, values):
        self.stmt, self.secrets, self.values = stmt, secrets, values


class Builder:
    """`naming`: auto | explicit | inline (verifiers only: a new object for every occurrence) | stray (verifiers
    only: the same, and some of the objects hold values that the verifier uses elsewhere).  `marks`: mark parts as simulated, here and there."""

    def __init__(self, points, secrets=None, sigs=None, naming="auto", prefix="x", shared=None, marks=0):
        self.marks = marks
        self.points = points
        self.info = secrets
        self.sigs = sigs or {}
        self.naming = naming
        self.prefix = prefix
        self.secrets = shared if shared is not None else {}
        self.values = {}
        self.strays = 0

    def secret(self, name, stray=False):
        if self.naming == "inline":
            return Secret(name=self.prefix + name)
        if self.naming == "stray":
            self.strays += 1
            odd = (len(name) + self.strays * 7 + sum(name.encode())) % 5 < 2
            return Secret(name=self.prefix + name, value=1000 + self.strays if stray and odd else None)
        s = self.secrets.get(name)
        if s is None:
            value = None
            info = self.info.get(name) if self.info is not None else None
            if info is not None and info["how"] == "embed":
                value = number(info["v"], info["t"])
            s = Secret(value=value, name=None if self.naming == "auto" else self.prefix + name)
            self.secrets[name] = s
            if info is not None and info["how"] == "dict":
                self.values[s] = number(info["v"], info["t"])
        return s

    def pt(self, node, key):
        return self.points.get(node["g"], node[key])

    def stmt(self, node):
        s = self._stmt(node)
        if node.get("sim") and self.info is not None:
            s.set_simulated()
        if self.marks:
            # a verifier's marks mean nothing
            self.marks = self.marks * 75 % 65537 or 1
            if self.marks % 3 == 0:
                s.set_simulated()
        return s

    def _stmt(self, node):
        k = node["k"]
        if k in ("and", "or"):
            subs = [self.stmt(c) for c in node["subs"]]
            if node.get("style") == "op":
                return functools.reduce(operator.and_ if k == "and" else operator.or_, subs)
            return (AndProofStmt if k == "and" else OrProofStmt)(*subs)
        if k == "dl":
            exprs = [self.secret(s, True) * self.points.get(node["g"], b) for s, b in node["terms"]]
            return DLRep(self.pt(node, "lhs"), functools.reduce(operator.add, exprs))
        if k == "dlne":
            return DLNotEqual((self.pt(node, "H0"), self.pt(node, "h0")), (self.pt(node, "H1"), self.pt(node, "h1")),
                              self.secret(node["x"], True), bind=bool(node.get("bind")))
        if k == "p2":
            return PowerTwoRangeStmt(self.pt(node, "com"), self.pt(node, "gg"), self.pt(node, "hh"), node["n"],
                                     self.secret(node["x"]), self.secret(node["r"]))
        if k == "range":
            a, b = int(node["a"]), int(node["b"])
            if max(abs(a), abs(b)) >= 1 << 62:
                a, b = ref.bn(a), ref.bn(b)
            return RangeStmt(self.pt(node, "com"), self.pt(node, "gg"), self.pt(node, "hh"), a, b,
                             self.secret(node["x"]), self.secret(node["r"]))
        if k == "bbs":
            sig = None
            if self.info is not None and node.get("sig") in self.sigs:
                sig = self.points.sig(self.sigs[node["sig"]])
            return BBSPlusSignatureStmt([self.secret(s) for s in node["vars"]], self.points.pk(node["pk"]), sig,
                                        binding=bool(node.get("binding", True)))
        if k == "cust":
            pts = {x: self.points.get(node["g"], y) for x, y in node["pts"].items()}
            return CUSTOM[node["v"]](pts, self.secret(node["sec"]["r"]), self.secret(node["sec"]["m"]))
        raise AssertionError(k)

    def build(self, node):
        return Built(self.stmt(node), self.secrets, self.values)


def verifier_spec(tree):
    return tree
