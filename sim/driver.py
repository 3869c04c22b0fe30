"""Runs a property's simulations: many seeds over worker processes, minimisation, evidence, replay."""

import gc
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from sim import env
from sim.choices import Choices, TAPE, read_tape

WORKERS = 8
RUN_WALL = 300


def run_seed(seed, prop, i):
    import hashlib

    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "big")


def execute(mod, ch, peer, tier, opts=None):
    """One run in this process; a JSON-able result."""
    from sim import core, host

    t0 = time.perf_counter()
    ctx = core.Ctx(ch, peer, tier, opts)
    res = {"status": "ok"}
    try:
        mod.run(ctx)
        ctx.finish()
    except core.Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg, key=v.key)
    except core.Discard as e:
        res.update(status="discard", why=str(e))
    except BaseException as e:
        res.update(status="harness", error="".join(traceback.format_exc())[-6000:])
    res.update(
        digest=ctx.hash.hexdigest(), sig=ctx.signature(), events=len(ctx.kinds), faults=ctx.faults,
        probes=ctx.probes, sim_ms=ctx.sim_ms, ops=ctx.real_ops, sample=ctx.sample, choices=ch.trace,
        draws=env.ENTROPY.draws, edges=env.ENTROPY.edges, reused=env.IDENTITY.reused,
        wall=time.perf_counter() - t0)
    if res["status"] in ("violation", "harness"):
        res["log"] = ctx.log
    return res


class Runner:
    """Owns a peer process and forks one process per run."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        env.install()
        self.mod = importlib.import_module("sim.checks." + prop.lower())
        from sim import host, world

        self.H = host
        self.peer = None
        import mmap

        self.tape = mmap.mmap(-1, TAPE)
        if getattr(self.mod, "PEER", False):
            self.peer = host.Peer()
        getattr(self.mod, "preload", lambda: None)()
        gc.collect()
        gc.disable()
        gc.freeze()

    def one(self, make_choices, opts=None):
        r, w = os.pipe()
        self.tape[0:8] = bytes(8)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                null = os.open("/dev/null", os.O_RDWR)
                os.dup2(null, 1)
                ch = make_choices()
                ch.tape = self.tape
                res = execute(self.mod, ch, self.peer, self.tier, opts)
                data = json.dumps(res).encode()
                while data:
                    data = data[os.write(w, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        buf = []
        deadline = time.monotonic() + RUN_WALL
        killed = False
        while True:
            left = deadline - time.monotonic()
            ready, _, _ = select.select([r], [], [], max(0.1, left))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                killed = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        raw = b"".join(buf)
        if killed or not raw:
            self.fresh_peer()
            died = not killed and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
            what, extra = "harness", {}
            if died:
                # the interpreter itself crashed in the libraries
                what = "violation" if getattr(self.mod, "CRASH", False) else "discard"
                extra = {"cls": "interpreter-crash", "msg": "the process died of signal %d" % os.WTERMSIG(status),
                         "key": None, "why": "interpreter crash"}
            return {"status": what, **extra,
                    "error": "run killed" if killed else "run died (%d)" % status, "choices": read_tape(self.tape), "faults": {},
                    "probes": {}, "sim_ms": 0, "ops": 0, "sample": "", "digest": "", "sig": "", "events": 0, "log": [],
                    "draws": 0, "edges": 0, "reused": 0, "wall": 0}
        res = json.loads(raw)
        if res["status"] in ("violation", "harness", "discard"):
            self.fresh_peer()  # it may be in the middle of a run
        return res

    def fresh_peer(self):
        if self.peer is not None:
            self.peer.proc.kill()
            self.peer.proc.wait()
            for f in (self.peer.proc.stdin, self.peer.proc.stdout):
                try:
                    f.close()
                except Exception:
                    pass
            self.peer = self.H.Peer()

    def close(self):
        if self.peer is not None:
            self.peer.close()


def worker(prop, tier, seed, total, counter, best, out, deadline):
    runner = Runner(prop, tier)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= total or i > best.value or time.monotonic() > deadline:
            break
        res = runner.one(lambda: Choices(seed=run_seed(seed, prop, i)))
        res["i"] = i
        if res["status"] == "violation":
            with best.get_lock():
                best.value = min(best.value, i)
        else:
            res.pop("choices", None)
        out.put(res)
    runner.close()
    out.put(None)


def load_known():
    path = os.path.join(env.VERIF, "known_findings.txt")
    known = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line[6:].split() if "=" in x)
                known.append((f.get("property"), f.get("key"), line[6:].strip()))
    return known


def minimise(runner, prop, choices, cls, budget):
    """Shrink the list of choices while the violation class stays."""
    t_end = time.monotonic() + budget
    best = list(choices)
    tried = 0

    def attempt(cand):
        nonlocal best, tried
        if time.monotonic() > t_end:
            return False
        tried += 1
        res = runner.one(lambda: Choices(replay=cand))
        if res["status"] == "violation" and res["cls"] == cls:
            t = res["choices"]
            while t and t[-1] == 0:
                t = t[:-1]
            if (len(t), t) < (len(best), best):
                best = t
                return True
        return False

    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        n = max(1, len(best) // 2)
        while n >= 1 and time.monotonic() < t_end:
            i = 0
            while i < len(best) and time.monotonic() < t_end:
                if attempt(best[:i] + best[i + n:]):
                    improved = True
                elif any(best[i:i + n]) and attempt(best[:i] + [0] * len(best[i:i + n]) + best[i + n:]):
                    improved = True
                    i += n
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 1 and time.monotonic() < t_end:
                for v in (1, best[i] // 2, best[i] - 1):
                    if v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best, tried


def main(prop, tier, seed, replay=None, runs=None, workers=None, quiet=False):
    env.setup_path()
    t0 = time.monotonic()
    if replay:
        return do_replay(prop, tier, replay)
    import multiprocessing as mp

    mpx = mp.get_context("fork")
    mod_path = "sim.checks." + prop.lower()
    env.install()
    mod = importlib.import_module(mod_path)
    total = runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = 780 if tier == "quick" else 6 * 3600
    # a generous wall cap, so that a slow machine still gives an answer; the work is counted in runs
    soft = 600 if tier == "quick" else 4 * 3600
    workers = workers or int(os.environ.get("VERIF_WORKERS", WORKERS))
    counter, best, out = mpx.Value("l", 0), mpx.Value("l", 1 << 40), mpx.Queue()
    deadline = t0 + soft
    procs = [mpx.Process(target=worker, args=(prop, tier, seed, total, counter, best, out, deadline), daemon=False)
             for _ in range(workers)]
    for p in procs:
        p.start()
    live = len(procs)
    results = []
    while live:
        try:
            r = out.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs):
                break
            if time.monotonic() - t0 > cap:
                for p in procs:
                    p.kill()
                print("check timed out", file=sys.stderr)
                return 2
            continue
        if r is None:
            live -= 1
        else:
            results.append(r)
    for p in procs:
        p.join()
    results.sort(key=lambda r: r["i"])
    bad = [r for r in results if r["status"] == "violation"]
    harness = [r for r in results if r["status"] == "harness"]
    known = load_known()
    code = 0
    shown = set()
    for p, k, text in known:
        if p == prop:
            print("KNOWN-FINDING: %s" % text)
    fresh = [r for r in bad if not (r.get("key") and any(p == prop and k == r["key"] for p, k, _ in known))]
    replay_path = None
    if fresh:
        r = fresh[0]
        runner = Runner(prop, tier)
        small, tried = minimise(runner, prop, r["choices"], r["cls"], 60 if tier == "quick" else 300)
        fin = runner.one(lambda: Choices(replay=small))
        if not (fin["status"] == "violation" and fin["cls"] == r["cls"]):
            small = r["choices"]
            fin = runner.one(lambda: Choices(replay=small))
        runner.close()
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(env.VERIF, "replays", "%s-%d-%d.json" % (prop, seed, r["i"]))
        same = fin["status"] == "violation" and fin["cls"] == r["cls"]
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "run": r["i"], "class": r["cls"], "message": r["msg"],
            "choices": small if same else r["choices"], "choices_before_minimising": len(r["choices"]),
            "digest": fin["digest"] if same else r["digest"], "reproduced": same, "minimiser_runs": tried,
            "trace": fin.get("log") if same else r.get("log"), "minimised_message": fin.get("msg"),
            "case": fin.get("sample")}, open(replay_path, "w"), indent=1)
        print("violation %s in run %d (seed %d): %s" % (r["cls"], r["i"], seed, r["msg"][:1500]))
        print("%d runs in the batch violate the property; choices %d -> %d" % (len(fresh), len(r["choices"]), len(small)))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        code = 1
    elif harness:
        print("harness error in %d runs, first (run %d):\n%s" % (len(harness), harness[0]["i"], harness[0]["error"]), file=sys.stderr)
        print("\n".join(harness[0].get("log", [])[-15:]), file=sys.stderr)
        code = 2
    done = len(results)
    if code == 0 and done < min(total, 8):
        print("too few runs: %d" % done, file=sys.stderr)
        code = 2
    wall = time.monotonic() - t0
    evidence(prop, tier, seed, mod, results, total, wall, len(fresh), workers)
    if not quiet:
        d = sum(1 for r in results if r["status"] == "discard")
        probes = {}
        for r in results:
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
        faults = {}
        for r in results:
            for k, v in r["faults"].items():
                faults[k] = faults.get(k, 0) + v
        print("%s %s: %d runs (%d discarded), %d distinct, %d library calls, %.1f s, faults %s, reached %s" % (
            prop, tier, done, d, len({r["sig"] for r in results}), sum(r["ops"] for r in results), wall,
            json.dumps(faults, sort_keys=True), json.dumps(probes, sort_keys=True)))
    return code


def do_replay(prop, tier, path):
    d = json.load(open(path))
    runner = Runner(prop, d.get("tier", tier))
    res = runner.one(lambda: Choices(replay=d["choices"]))
    runner.close()
    print("\n".join(res.get("log", [])))
    print("status", res["status"], res.get("cls"), res.get("msg", res.get("error")))
    print("digest", "same" if res["digest"] == d.get("digest") else "differs")
    if res["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0 if res["status"] in ("ok", "discard") else 2


def evidence(prop, tier, seed, mod, results, total, wall, violations, workers):
    faults, probes = {}, {}
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    n = len(results)
    nontrivial = [r for r in results if r["status"] in ("ok", "violation") and r["ops"] > 0]
    samples = []
    for r in nontrivial:
        if r["sample"] and len(samples) < 6:
            samples.append({"run": r["i"], "case": r["sample"], "events": r["events"], "digest": r["digest"][:16]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": violations,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len({r["sig"] for r in nontrivial}),
            "rule": mod.RULE + " A run counts as distinct by the hash of its statement's structure and its sequence of "
                    "event kinds (calls, deliveries, faults, timers); it is non-trivial if it called the library and was "
                    "not discarded.",
            "samples": samples or [{"note": "no samples"}],
            "planned_runs": total,
            "discarded_runs": sum(1 for r in results if r["status"] == "discard"),
            "runs_per_hour": int(n / wall * 3600) if wall else 0,
            "seeds_per_hour": int(n / wall * 3600) if wall else 0,
            "simulated_ms": sum(r["sim_ms"] for r in results),
            "library_calls": sum(r["ops"] for r in results),
            "events": sum(r["events"] for r in results),
            "entropy_draws": sum(r["draws"] for r in results),
            "edge_value_draws": sum(r["edges"] for r in results),
            "reused_object_identities": sum(r["reused"] for r in results),
            "faults_fired": faults,
            "probes_reached": probes,
            "workers": workers,
            "real_components": "zksk (all modules), petlib, bplib, msgpack, OpenSSL",
            "stub_components": getattr(mod, "STUBS", "network, disk, clock, operating-system entropy, object identity, "
                                       "process crash/restart (simulated); session layer and storage format of the "
                                       "application (harness)"),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "petlib, bplib, OpenSSL and msgpack are correct",
            "sampled: a clean batch is evidence, not proof"],
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(env.VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(env.VERIF, "evidence", prop + ".json"))
