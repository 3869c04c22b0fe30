"""C20 Stored proofs keep their meaning across crashes and processes.

A prover with a disk, stores that keep proofs in files, in slots that are overwritten and in logs, relays that
read and write them again, and readers in other processes.  Machines crash in the middle of writes; what was
written durably must be what was proved, what was not must be unusable or one of the originals."""

from sim import common, core, mutate, ref, variants, wire, world

QUICK, THOROUGH = 650, 60000
PEER = True
CRASH = True
RULE = ("One or two random statements, proofs of them over several messages and proofs that must be refused, kept as Python "
        "objects and in serialized form; a random schedule of durable and interrupted writes to files, slots and logs, full "
        "disks, crashes with lost, short and torn writes, restarts, relays through several processes that read and write the "
        "proof again, and readers that check whatever they find against every statement and message.")
ASSUMPTIONS = ["sectors of 64 bytes are written or not; what was synced stays (rotting media: C03)"]


def preload():
    for g in world.EC_GIDS:
        world.gens(g)
    for g in ("G1", "GT"):
        world.gens(g)


def verdict(o):
    return "hang" if o.kind == "hang" else "yes" if o.accepted else "no"


class Run:
    def __init__(self, ctx):
        self.ctx, self.ch = ctx, ctx.ch
        self.records = []  # {"data", "fields", "verdicts", "what"}
        self.trees = {}

    # -- proofs

    def prepare(self):
        ctx, ch = self.ctx, self.ch
        g, c = common.case(ctx, pairing=10, max_leaves=5)
        self.g, self.c = g, c
        self.trees = {"st": c["tree"]}
        how = ch.weighted([("variant", 3), ("other", 2), ("none", 1)])
        if how == "variant":
            v = variants.variant(ctx, c["tree"])
            if v is not None:
                self.trees["two"] = v[1]
        elif how == "other":
            g.leaves = 0
            self.trees["two"] = g.tree(depth=1)
        self.how = how
        self.heavy = common.needs_pairing(c["tree"])
        self.messages = [None]
        for _ in range(2):
            m = ch.pick(common.MESSAGES)
            if m not in self.messages:
                self.messages.append(m)
        self.P = ctx.host("P", remote=ch.chance(20))
        self.V = ctx.host("V", remote=ch.chance(50))
        self.R = [ctx.host("R%d" % i, remote=ch.chance(50)) for i in range(2)]
        self.boot_prover()
        self.boot_reader()

    def boot_prover(self):
        o = common.build_prover(self.ctx, self.P, "st", self.c)
        if not o.ok:
            raise core.Discard("building")
        if "two" in self.trees:
            if self.how == "other":
                o = self.ctx.call(self.P, "build", "two", self.trees["two"], secrets=self.g.secrets, sigs=self.g.sigs)
            else:
                o = common.build_verifier(self.ctx, self.P, "two", self.trees["two"])
            if not o.ok:
                self.trees.pop("two")

    def boot_reader(self):
        for h, t in list(self.trees.items()):
            if not common.build_verifier(self.ctx, self.V, h, t).ok:
                self.trees.pop(h)
        if "st" not in self.trees:
            raise core.Discard("building")

    def verdicts(self, host, proof):
        out = []
        for h in sorted(self.trees):
            for m in self.messages:
                out.append(verdict(self.ctx.call(host, "verify", h, proof, message=m)))
        return out

    def prove(self):
        """A proof, as an object of the prover and as bytes."""
        ctx, ch = self.ctx, self.ch
        k = "k%d" % len(self.records)
        if self.records and ch.chance(25):
            return self.alter(k, ch.pick(self.records)["data"])
        h = ch.pick([x for x in sorted(self.trees) if x == "st" or self.how == "other"])
        m = ch.pick(self.messages)
        o = ctx.call(self.P, "prove", h, message=m, key=k)
        if not o.ok:
            if "yes" in self.verdicts(self.P, "key:" + k):
                ctx.fail("cannot-be-stored", "good proof of %s: %r, %s" % (h, o, ctx.sample))
            raise core.Discard("no honest proof")
        data, what = o.value, "proof of %s" % h
        if ch.chance(10):
            return self.alter(k, data)
        return self.record(k, data, what)

    def alter(self, k, data):
        """One that somebody made up, read where the original was read before."""
        ctx, ch = self.ctx, self.ch
        for host in (self.P, self.V):
            if ch.draw(2):
                ctx.call(host, "recode", data)
        try:
            name, parts = mutate.alter(ch, ctx, wire.parts(data))
            data = wire.unparts(parts)
        except Exception:
            return None
        if not ctx.call(self.P, "load", k, data).ok:
            return None
        ctx.probe("altered-proof")
        return self.record(k, data, "altered proof (%s)" % name)

    def record(self, k, data, what):
        ctx = self.ctx
        f = ctx.call(self.P, "fields", "key:" + k)
        v = self.verdicts(self.P, "key:" + k)
        if "hang" in v:
            raise core.Discard("hang")
        d = ctx.call(self.P, "dump", k)
        if not d.ok:
            # nothing that could be stored
            ctx.probe("not-serializable")
            return None
        if what.startswith("proof") and d.value != data:
            ctx.fail("bytes-changed", "serializing %s again after it was verified gives other bytes" % what)
        if what.startswith("altered") and wire.plain(wire.parts(d.value)) != wire.plain(wire.parts(data)):
            ctx.fail("fields-changed", "%s, read and written again: %s" % (what, ctx.sample))
        r = {"data": d.value, "fields": f.value if f.ok else None, "verdicts": v, "what": what, "key": k}
        self.records.append(r)
        ctx.probe("verdict-" + ("yes" if "yes" in v else "no"))
        return r

    # -- reading back

    def same(self, host, data, r, where):
        """A record that was completely written, read at another place."""
        ctx = self.ctx
        what = "%s, %s, %s" % (r["what"], where, ctx.sample)
        o = ctx.call(host, "recode", data)
        if not o.ok:
            ctx.fail("stored-proof-unreadable", "%s: %r" % (what, o))
        if o.value != r["data"]:
            ctx.fail("bytes-changed", what)
        o = ctx.call(host, "fields", data)
        if not o.ok or o.value != r["fields"]:
            ctx.fail("fields-changed", "%s: %s" % (what, [a != b for a, b in zip(o.value, r["fields"])] if o.ok else o))
        if host is self.V or host is self.P:
            how = self.ch.weighted([("bytes", 3), ("object", 2)])
            p = data
            if how == "object":
                o = ctx.call(host, "load", "loaded", data)
                p = "key:loaded"
                if not o.ok:
                    ctx.fail("stored-proof-unreadable", "%s: %r" % (what, o))
            v = self.verdicts(host, p)
            if v != r["verdicts"]:
                ctx.fail("verdict-changed", "%s: %s instead of %s" % (what, v, r["verdicts"]))
            if how == "object":
                o = ctx.call(host, "dump", "loaded")
                if not o.ok or o.value != r["data"]:
                    ctx.fail("bytes-changed", "after verification, " + what)
        ctx.probe("read-back")

    def found(self, data, originals, where):
        """Whatever a crash has left."""
        ctx = self.ctx
        for r in originals:
            if data == r["data"]:
                return self.same(self.V, data, r, where)
        v = self.verdicts(self.V, data)
        ctx.probe("damaged-record-read")
        if "hang" in v:
            ctx.fail("hang", where)
        if "yes" in v and not any(v == r["verdicts"] for r in originals):
            ctx.fail("damaged-record-means-something-else", "%s: %s, originals %s, %s" % (
                where, v, [r["verdicts"] for r in originals], ctx.sample))
        if "yes" in v:
            ctx.probe("damaged-record-still-good")


def frame(b):
    return len(b).to_bytes(4, "big") + b


def unframe(d):
    """Records of a log; the last one may be cut."""
    out, i = [], 0
    while i + 4 <= len(d) and len(out) < 20:
        n = int.from_bytes(d[i:i + 4], "big")
        out.append(d[i + 4:i + 4 + n])
        i += 4 + n
    return out


def run(ctx):
    ch = ctx.ch
    r = Run(ctx)
    r.prepare()
    disk = core.Disk(ctx)
    files = {}  # name -> (durable record or None, [records under way])
    log, log_synced = [], 0
    if r.prove() is None and not r.records:
        raise core.Discard("no proof")
    for i in range(3 + ch.draw(4 if r.heavy else 8)):
        op = ch.weighted([("prove", 2), ("relay", 3), ("file", 3), ("slot", 3), ("log", 3), ("read", 2), ("crash", 3),
                          ("reader-restart", 1)])
        rec = ch.pick(r.records)
        if op == "prove":
            r.prove()
        elif op == "relay":
            # read and written again on its way
            data = rec["data"]
            for hop in range(1 + ch.draw(4)):
                o = ctx.call(ch.pick(r.R + [r.V]), "recode", data)
                if not o.ok:
                    ctx.fail("stored-proof-unreadable", "relayed %s: %r" % (rec["what"], o))
                data = o.value
            ctx.fault("relayed")
            r.same(r.V, data, rec, "relayed")
        elif op in ("file", "slot"):
            name = "file%d" % i if op == "file" else "slot"
            raw = bytes.fromhex(rec["data"])
            disk.full = ch.chance(10)
            try:
                disk.write(name, raw)
            except OSError:
                disk.full = False
                continue
            disk.full = False
            durable, pending = files.get(name, (None, []))
            if ch.chance(45):
                disk.sync(name)
                files[name] = (rec, [])
            else:
                files[name] = (durable, pending + [rec])
        elif op == "log":
            log.append(rec)
            disk.write("log", b"".join(frame(bytes.fromhex(x["data"])) for x in log))
            if ch.chance(45):
                disk.sync("log")
                log_synced = len(log)
        elif op == "read" and files:
            name = ch.pick(sorted(files))
            durable, pending = files[name]
            now = pending[-1] if pending else durable
            d = disk.read(name)
            if d is not None:
                r.same(r.V, d.hex(), now, "read from a file")
        elif op == "reader-restart":
            ctx.fault("crash-restart")
            r.V.crash()
            r.boot_reader()
        elif op == "crash":
            ctx.fault("crash-restart")
            disk.crash(ch)
            if ch.draw(2):
                r.P.crash()
                r.boot_prover()
            for name in sorted(files):
                durable, pending = files[name]
                d = disk.read(name)
                if not pending:
                    if durable is not None:
                        r.same(r.V if ch.draw(2) else r.P, d.hex(), durable, "durable, after a crash")
                elif d is not None:
                    r.found(d.hex(), pending + ([durable] if durable else []), "%s after a crash" % name)
                files.pop(name)
                disk.files.pop(name, None)
            d = disk.read("log")
            if d:
                # an append leaves the earlier records alone
                recs = unframe(d)
                for j, raw in enumerate(recs):
                    r.found(raw.hex(), log if j >= log_synced else [log[j]], "record %d of a log after a crash" % j)
                    if j < log_synced and raw.hex() != log[j]["data"]:
                        raise core.Discard("the disk lost a record")
            log, log_synced = [], 0
            disk.files.pop("log", None)
    rec = ch.pick(r.records)
    r.same(r.V, rec["data"], rec, "at the end")
