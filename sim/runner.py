"""Seeded search, shrinking, replay and evidence for one property."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import pickle
import selectors
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import kernel
from .kernel import HarnessError, Sim, SimAbort
from .tape import Tape

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
CPU_LIMIT = float(os.environ.get("VERIF_CPU_LIMIT", 12))  # CPU seconds for one run (typical: milliseconds)
WALL_LIMIT = 120
BATCH = 40


# ---------------------------------------------------------------------------------------------- one run
class Outcome:
    __slots__ = ("failures", "digest", "idigest", "steps", "simtime", "faults", "probes", "harness", "tape", "trace",
                 "counts", "backend")


def _alarm(signum, frame):
    s = kernel.current
    kind = "stuck-cpu" if signum == signal.SIGPROF else "stuck-wall"
    if s is not None and s.aborted is None:
        s.aborted = (kind, "one run exceeded its real-time budget: endless loop without awaiting, or a real block")
    signal.setitimer(signal.ITIMER_PROF, 2)
    raise SimAbort(kind)


def run_one(mod, tape: Tape, record=True) -> Outcome:
    sim = Sim(tape, record=record, max_steps=getattr(mod, "MAX_STEPS", 60_000))
    harness = None
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        mod.scenario(sim)
    except SimAbort:
        pass
    except HarnessError as e:
        harness = "".join(traceback.format_exception(e))[-4000:]
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if sim.aborted is None:
            loc = blame(e)
            if loc:
                sim.fail(f"crash/{type(e).__name__}", f"{e!r} at {loc}")
            else:
                harness = "".join(traceback.format_exception(e))[-6000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    if sim.aborted is not None:
        sim.fail(sim.aborted[0], sim.aborted[1])
    o = Outcome()
    o.failures = sim.failures
    if o.failures and harness and sim.aborted is None:
        harness = None  # the violation comes first; follow-up confusion of the harness is secondary
    o.harness = harness
    o.digest, o.idigest = sim.digest, sim.ihasher.hexdigest()
    o.steps, o.simtime = sim.steps, sim._now - 100
    o.faults, o.probes, o.counts = sim.faults, sim.probes, sim.counts
    o.tape = {k: list(v) for k, v in tape.rec.items()}
    o.trace = sim.trace if record else []
    o.backend = sim.backend
    return o


def blame(e):
    """Where an unexpected exception comes from: the location if starlette code (or a library it called) raised."""
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            loc = blame(x)
            if loc:
                return loc
        return None
    root = os.path.join(REPO, "starlette") + os.sep
    last = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            last = f"{fn[len(REPO) + 1:]}:{tb.tb_frame.f_code.co_name}"
        elif fn.startswith(VERIF + os.sep):
            last = None
        tb = tb.tb_next
    return last


def code_of(o: Outcome):
    return o.failures[0][0] if o.failures else None


def run_seed(prop, base, k):
    return f"{base}:{prop}:{k}"


# ---------------------------------------------------------------------------------------------- child processes
def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


class Child:
    def __init__(self, fn, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                res = fn(*args)
                _write_all(w, pickle.dumps(("ok", res)))
            except BaseException as e:
                try:
                    _write_all(w, pickle.dumps(("err", "".join(traceback.format_exception(e))[-6000:])))
                except BaseException:
                    code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, []

    def read(self):
        """Returns None while running, else (kind, value)."""
        d = os.read(self.fd, 1 << 20)
        if d:
            self.buf.append(d)
            return None
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        raw = b"".join(self.buf)
        if not raw:
            return ("err", "child process died")
        return pickle.loads(raw)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.fd)


def in_child(fn, *args, timeout=600):
    c = Child(fn, *args)
    sel = selectors.PollSelector()
    sel.register(c.fd, selectors.EVENT_READ)
    end = time.monotonic() + timeout
    while True:
        if not sel.select(max(0.05, end - time.monotonic())) and time.monotonic() > end:
            c.kill()
            return ("err", "timeout")
        r = c.read()
        if r is not None:
            return r


def batch_job(mod, prop, base, ks, want_samples, deadline):
    agg = {"runs": 0, "steps": 0, "simtime": 0.0, "faults": {}, "probes": {}, "counts": {}, "idig": set(),
           "dig": [], "fail": [], "harness": [], "samples": [], "backend": {}, "known": {}, "faultless": 0}
    known = known_codes(prop)
    for k in ks:
        if time.monotonic() > deadline:
            break
        tape = Tape(seed=run_seed(prop, base, k))
        o = run_one(mod, tape, record=want_samples and k < 3)
        agg["runs"] += 1
        agg["steps"] += o.steps
        agg["simtime"] += o.simtime
        agg["backend"][o.backend] = agg["backend"].get(o.backend, 0) + 1
        for name in ("faults", "probes", "counts"):
            src, dst = getattr(o, name), agg[name]
            for kk, v in src.items():
                dst[kk] = dst.get(kk, 0) + v
        if not o.faults:
            agg["faultless"] += 1
        agg["idig"].add(o.idigest)
        agg["dig"].append((k, o.digest))
        if want_samples and k < 3:
            agg["samples"].append({"seed": run_seed(prop, base, k), "backend": o.backend,
                                   "events": [" ".join(map(str, t))[:160] for t in o.trace[:40]]})
        new = [f for f in o.failures if f[0] not in known]
        for f in o.failures:
            if f[0] in known:
                agg["known"][f[0]] = agg["known"].get(f[0], 0) + 1
        if new:
            o.failures = new
            agg["fail"].append((k, new[0][0], new[0][1], o.tape))
            break
        if o.harness:
            agg["harness"].append((k, o.harness))
            break
    return agg


def known_codes(prop):
    res = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and "code" in d and d.get("status") == "known":
                        res[d["code"]] = d["what"]
    except FileNotFoundError:
        pass
    return res


# ---------------------------------------------------------------------------------------------- shrinking
def shrink_job(mod, prop, tape, code, budget, prefix):
    """Greedy tape minimisation that keeps the same first violation code."""
    known = known_codes(prop)
    end = time.monotonic() + budget
    tries = 0

    def run(t):
        nonlocal tries
        tries += 1
        o = run_one(mod, Tape(data=t), record=False)
        fs = [f for f in o.failures if f[0] not in known]
        return o if fs and fs[0][0] == code else None

    if prefix:
        for t in prefix:
            run_one(mod, Tape(data=t), record=False)
    best = {k: list(v) for k, v in tape.items()}
    o = run(best)
    if o is None:
        return None
    best = o.tape

    def size(t):
        return (sum(len(v) for v in t.values()), sum(sum(v) for v in t.values()))

    def attempt(t):
        nonlocal best
        if time.monotonic() > end:
            return False
        o = run(t)
        if o is not None and size(o.tape) < size(best):
            best = o.tape
            return True
        return False

    streams = ["c", "s", "t", "f", "w"]
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for st in streams:
            cur = best.get(st, [])
            if cur and any(cur):
                if attempt({**best, st: []}):
                    changed = True
                    continue
            # cut the tail, delete blocks, zero blocks
            n = len(best.get(st, []))
            blk = max(1, n // 2)
            while blk >= 1 and time.monotonic() < end:
                i = 0
                while i < len(best.get(st, [])):
                    cur = best[st]
                    if attempt({**best, st: cur[:i] + cur[i + blk:]}):
                        changed = True
                        continue
                    if any(cur[i:i + blk]) and attempt({**best, st: cur[:i] + [0] * len(cur[i:i + blk]) + cur[i + blk:]}):
                        changed = True
                    i += blk
                if blk == 1:
                    break
                blk //= 2
            # lower single values
            i = 0
            while i < len(best.get(st, [])) and time.monotonic() < end:
                v = best[st][i]
                for nv in (1, v // 2, v - 1):
                    if 0 < nv < v:
                        cur = best[st]
                        if i < len(cur) and attempt({**best, st: cur[:i] + [nv] + cur[i + 1:]}):
                            changed = True
                            break
                i += 1
    for st in list(best):
        v = best[st]
        while v and v[-1] == 0:
            v = v[:-1]
        best[st] = v
    o = run(best)
    if o is None:
        return None
    return best, tries


def replay_job(mod, prop, tapes):
    for t in tapes[:-1]:
        run_one(mod, Tape(data=t), record=False)
    o = run_one(mod, Tape(data=tapes[-1]), record=True)
    return o.failures, o.harness, o.digest, o.trace, o.faults, o.backend


def fail_key(fs, known):
    fs = [f for f in fs if f[0] not in known]
    return fs[0] if fs else None


# ---------------------------------------------------------------------------------------------- the check
def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def report_failure(mod, prop, base, ks, hit, out_dir):
    """Confirm, minimise, write and verify the replay file.  Returns the path or None if it does not reproduce."""
    k, code, msg, tape = hit
    known = known_codes(prop)
    stuck = code.startswith("stuck")
    prefix = []
    r = in_child(replay_job, mod, prop, [tape], timeout=400)
    if r[0] != "ok" or not (f := fail_key(r[1][0], known)) or f[0] != code:
        # state left by earlier runs of the same process matters: replay the batch in order
        prefix = [k2 for k2 in ks if k2 < k]
        tapes = in_child(tapes_job, mod, prop, base, prefix)
        if tapes[0] != "ok":
            return None, f"prefix: {tapes[1]}"
        prefix = tapes[1]
        r = in_child(replay_job, mod, prop, [*prefix, tape], timeout=400)
        if r[0] != "ok" or not (f := fail_key(r[1][0], known)) or f[0] != code:
            return None, f"not reproducible: seed {k} gave {code}: {msg}; replay gave {r[1]!r}"[:3000]
        # drop prefix runs
        i = 0
        endp = time.monotonic() + 40
        while i < len(prefix) and time.monotonic() < endp:
            cand = prefix[:i] + prefix[i + 1:]
            r2 = in_child(replay_job, mod, prop, [*cand, tape], timeout=100)
            if r2[0] == "ok" and (f := fail_key(r2[1][0], known)) and f[0] == code:
                prefix = cand
            else:
                i += 1
    best, tries = tape, 0
    if not stuck:
        r = in_child(shrink_job, mod, prop, tape, code, 25.0, prefix, timeout=300)
        if r[0] == "ok" and r[1] is not None:
            best, tries = r[1]
    tapes = [*prefix, best]
    r = in_child(replay_job, mod, prop, tapes, timeout=400)
    if r[0] != "ok" or not (f := fail_key(r[1][0], known)) or f[0] != code:
        tapes = [*prefix, tape]
        r = in_child(replay_job, mod, prop, tapes, timeout=400)
        if r[0] != "ok" or not (f := fail_key(r[1][0], known)):
            return None, "minimised tape does not reproduce"
    fs, harness, digest, trace, faults, backend = r[1]
    f = fail_key(fs, known)
    doc = {
        "property": prop, "code": f[0], "message": f[1], "seed": run_seed(prop, base, k), "backend": backend,
        "tapes": tapes, "original_tape_len": {s: len(v) for s, v in tape.items()}, "shrink_runs": tries,
        "digest": digest, "faults": faults, "trace": [" ".join(map(str, t))[:300] for t in trace],
    }
    os.makedirs(out_dir, exist_ok=True)
    h = hashlib.sha1(json.dumps(tapes).encode()).hexdigest()[:10]
    path = os.path.join(out_dir, f"{prop}-{f[0].replace('/', '_')[:60]}-{h}.json")
    with open(path, "w") as fp:
        json.dump(doc, fp, indent=1)
    p = subprocess.run([sys.executable, os.path.join(VERIF, "bin", "check.py"), prop, "--replay", path],
                       capture_output=True, text=True, errors="replace", timeout=500)
    if p.returncode != 1:
        return None, f"replay in a fresh interpreter failed (exit {p.returncode}): {p.stdout[-800:]} {p.stderr[-800:]}"
    return path, f


def tapes_job(mod, prop, base, ks):
    res = []
    for k in ks:
        t = Tape(seed=run_seed(prop, base, k))
        o = run_one(mod, t, record=False)
        res.append(o.tape)
    return res


def merge(tot, a):
    for n in ("runs", "steps", "simtime", "faultless"):
        tot[n] += a[n]
    for n in ("faults", "probes", "counts", "backend", "known"):
        for k, v in a[n].items():
            tot[n][k] = tot[n].get(k, 0) + v
    tot["idig"] |= a["idig"]
    tot["dig"].extend(a["dig"])
    tot["samples"].extend(a["samples"])
    tot["harness"].extend(a["harness"])


def check(prop, tier, base, runs=None, wall=None, jobs=None, digests=None):
    mod = load(prop)
    t0 = time.monotonic()
    n = runs if runs is not None else (mod.RUNS if tier == "quick" else 10**9)
    wall = wall if wall is not None else (60.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", 600)))
    jobs = jobs or min(8, os.cpu_count() or 1)
    deadline = t0 + wall
    tot = {"runs": 0, "steps": 0, "simtime": 0.0, "faults": {}, "probes": {}, "counts": {}, "idig": set(), "dig": [],
           "samples": [], "harness": [], "backend": {}, "known": {}, "faultless": 0}
    out_dir = os.path.join(VERIF, "replays")
    sel = selectors.PollSelector()
    running = {}
    next_k = 0
    hits = []
    errors = []
    stop = False
    if hasattr(mod, "setup"):
        mod.setup()
    try:
        while True:
            while not stop and len(running) < jobs and next_k < n and time.monotonic() < deadline:
                ks = list(range(next_k, min(n, next_k + BATCH)))
                next_k += len(ks)
                c = Child(batch_job, mod, prop, base, ks, True, deadline)
                running[c.fd] = (c, ks)
                sel.register(c.fd, selectors.EVENT_READ)
            if not running:
                break
            for key, _ in sel.select(1.0):
                c, ks = running[key.fd]
                r = c.read()
                if r is None:
                    continue
                sel.unregister(key.fd)
                del running[key.fd]
                if r[0] == "err":
                    errors.append(r[1])
                    stop = True
                    continue
                merge(tot, r[1])
                if r[1]["fail"]:
                    hits.append((r[1]["fail"][0], ks))
                    stop = True
                if r[1]["harness"]:
                    stop = True
        rc = 0
        detail = None
        if hits:
            hits.sort(key=lambda h: h[0][0])
            path, why = report_failure(mod, prop, base, hits[0][1], hits[0][0], out_dir)
            if path is None and len(hits) > 1:
                path, why = report_failure(mod, prop, base, hits[1][1], hits[1][0], out_dir)
            if path is None:
                errors.append(why)
            else:
                rc = 1
                detail = why
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    search_s = time.monotonic() - t0
    if rc == 0 and (tot["harness"] or errors):
        for e in tot["harness"][:1]:
            print(f"HARNESS ERROR in {prop} run {e[0]}:\n{e[1]}")
        for e in errors[:2]:
            print(f"HARNESS ERROR in {prop}: {e}")
        rc = 2
    want = getattr(mod, "PROBES", ())
    missing = [p for p in want if not tot["probes"].get(p) and not tot["faults"].get(p)]
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["idig"]),
        "rule": "one evaluation = one simulated run (one seed: workload, schedule and fault plan drawn from it); "
                "counted distinct by the hash of its ordered (actor, event kind) sequence, i.e. by interleaving, and "
                "every run executes at least one exchange of the real code",
        "samples": tot["samples"][:3],
        "runs_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
        "seeds": f"{run_seed(prop, base, 0)} .. {run_seed(prop, base, max(0, next_k - 1))}",
        "simulated_seconds": round(tot["simtime"], 1),
        "scheduler_steps": tot["steps"],
        "faults_injected": dict(sorted(tot["faults"].items())),
        "runs_without_any_fault": tot["faultless"],
        "probes_hit": dict(sorted(tot["probes"].items())),
        "probes_never_hit": missing,
        "other_counts": tot["counts"],
        "event_loops": tot["backend"],
        "known_findings_seen": tot["known"],
        "real_components": ["starlette (working tree of /repo)", "anyio", "trio or asyncio task and future machinery",
                            *getattr(mod, "REAL", ())],
        "stubbed_components": ["ASGI server and network (sim/server.py)", "selector, clock and timers (sim/kernel.py)",
                               "worker-thread pool: real threads, one running at a time (sim/kernel.py)",
                               "time.time and os.urandom", *getattr(mod, "STUB", ())],
    }
    ev = {"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
          "assumptions": ["sampled, not exhaustive", *getattr(mod, "ASSUME", ())],
          "wall_s": round(time.monotonic() - t0, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if digests:
        with open(digests, "w") as fp:
            for k, d in sorted(tot["dig"]):
                fp.write(f"{k} {d}\n")
    if rc in (0, 1):
        for c, what in known_codes(prop).items():
            print(f"KNOWN-FINDING: property={prop} {what} [{c}; seen in {tot['known'].get(c, 0)} runs]")
    print(f"{prop} {tier}: {tot['runs']} runs, {len(tot['idig'])} interleavings, {tot['simtime']:.0f} simulated s, "
          f"{search_s:.1f} s, faults {sum(tot['faults'].values())}" + (f", probes never hit: {missing}" if missing else ""))
    if rc == 1:
        print(f"violation: {detail[0]}: {detail[1]}"[:1500])
        print(f"VIOLATION property={prop} replay={path}")
    return rc


def replay(prop, path, verbose=True):
    mod = load(prop)
    with open(path) as fp:
        doc = json.load(fp)
    if hasattr(mod, "setup"):
        mod.setup()
    try:
        r = in_child(replay_job, mod, prop, doc["tapes"], timeout=450)
    finally:
        if hasattr(mod, "teardown"):
            mod.teardown()
    if r[0] != "ok":
        print("replay error:", r[1])
        return 2
    fs, harness, digest, trace, faults, backend = r[1]
    f = fail_key(fs, known_codes(prop))
    if verbose:
        for t in trace:
            print("  ", *t)
    if harness:
        print(harness)
    if f is None:
        print("replay: no violation")
        return 0
    same = f[0] == doc["code"] and digest == doc["digest"]
    print(f"replay: {f[0]}: {f[1]}")
    print(f"replay {'matches' if same else 'DIFFERS from'} the recorded execution ({digest})")
    if not same:
        return 2
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--digests")
    ap.add_argument("--one", type=int, help="run one seed verbosely")
    a = ap.parse_args(argv)
    try:
        base = int(a.seed)
    except ValueError:
        base = int(hashlib.sha1(a.seed.encode()).hexdigest()[:8], 16)
    if a.replay:
        return replay(a.prop, a.replay)
    if a.one is not None:
        mod = load(a.prop)
        if hasattr(mod, "setup"):
            mod.setup()
        o = run_one(mod, Tape(seed=run_seed(a.prop, base, a.one)))
        for t in o.trace:
            print("  ", *t)
        print("failures", o.failures)
        print("harness", o.harness)
        print("faults", o.faults, "probes", o.probes, "steps", o.steps, o.backend, {k: len(v) for k, v in o.tape.items()})
        if hasattr(mod, "teardown"):
            mod.teardown()
        return 0
    return check(a.prop, a.tier, base, a.runs, a.wall, a.jobs, a.digests)
