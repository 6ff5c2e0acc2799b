"""Seeded property-based testing engine.

A check module defines

  ID         property id
  RULE       the stated rule by which a case counts as non-trivial
  generate(rng, tier) -> list of JSON-able case dicts (pure function of the seed)
  run(case)           -> {"evals": int, "nontrivial": bool, "tags": [..]}
                         raises Violation when the property fails on the case
  shrink(case)        -> iterable of simpler candidate cases

The parent process generates all cases, farms them out to worker processes (each a
fresh interpreter importing s2wav from /repo's working tree), stops at the first
violation, shrinks it greedily, writes the replay file and prints the VIOLATION line.
Any exception that is not a Violation is an error of the harness: exit status 2.
"""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from collections import Counter
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

CASE_TIMEOUT = 400.0  # seconds; reaching it is inconclusive, never a violation
RUN_LIMIT = {"quick": 700.0, "thorough": 5400.0}


class Violation(Exception):
    pass


@contextlib.contextmanager
def repo_call(what):
    """Code of /repo runs in here on inputs it must accept: an exception violates."""
    try:
        yield
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # noqa: BLE001
        msg = " ".join(str(e).split())[:160]
        raise Violation(f"{what} raised {type(e).__name__}: {msg}") from e


# ------------------------------------------------------------------ workers
def _setup_worker():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["MKL_NUM_THREADS"] = "1"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ["XLA_FLAGS"] = (
        "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
        " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    )
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    import jax

    jax.config.update("jax_enable_x64", True)
    import torch

    torch.set_num_threads(1)
    import s2fft  # noqa: F401
    import numpy as np

    np.seterr(all="ignore")
    # never use a stale byte-code file of the code under test
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    import s2wav

    root = os.path.realpath(os.path.dirname(s2wav.__file__))
    if root != os.path.realpath(os.path.join(REPO, "s2wav")):
        raise RuntimeError(f"s2wav imported from {root}, not from {REPO}")


def _load(mod):
    for p in (HERE, os.path.join(VERIF, "checks")):
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(mod)


def _run_one(m, case):
    t = time.time()
    try:
        out = m.run(case) or {}
        return ("ok", out, time.time() - t)
    except Violation as v:
        return ("violation", str(v), time.time() - t)
    except MemoryError:
        return ("error", "MemoryError", time.time() - t)
    except BaseException:  # noqa: BLE001
        return ("error", traceback.format_exc(), time.time() - t)


def _worker(mod, conn):
    try:
        _setup_worker()
        m = _load(mod)
        conn.send(("ready", None))
    except BaseException:  # noqa: BLE001
        conn.send(("fatal", traceback.format_exc()))
        return
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        idx, case = job
        conn.send((idx, _run_one(m, case)))


class Worker:
    def __init__(self, mod):
        ctx = mp.get_context("spawn")
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(mod, child), daemon=True)
        self.p.start()
        child.close()
        self.job = None
        self.ready = False
        self.history = []       # indices of the cases this interpreter has run
        self.t0 = time.time()

    def send(self, idx, case):
        self.history.append(idx)
        self.job = (idx, case)
        self.t0 = time.time()
        self.conn.send((idx, case))

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:  # noqa: BLE001
            pass


class HarnessError(Exception):
    pass


def pool_run(mod, cases, limit, nproc=8, on_result=None, stop_on_violation=True):
    """Run cases; returns (results dict, first violation (case, msg) or None)."""
    queue = list(range(len(cases)))
    results, crashes = {}, Counter()
    workers = [Worker(mod) for _ in range(min(nproc, len(cases)))]
    start = time.time()
    violation = None
    try:
        while True:
            now = time.time()
            stop = (violation is not None and stop_on_violation) or now - start > limit
            busy = [w for w in workers if w.job is not None or not w.ready]
            if stop:
                break
            if not queue and not any(w.job for w in workers):
                break
            ready = wait([w.conn for w in busy], timeout=1.0) if busy else []
            for w in list(workers):
                if w.conn in ready:
                    try:
                        key, payload = w.conn.recv()
                    except EOFError:
                        w.kill()
                        workers.remove(w)
                        if w.job is None:
                            raise HarnessError("worker died while starting")
                        idx, case = w.job
                        crashes[idx] += 1
                        if crashes[idx] >= 2:
                            # the interpreter itself dies, reproducibly, on this input
                            results[idx] = ("violation", "the interpreter crashed", 0.0)
                            violation = (cases[idx], results[idx][1], [])
                        else:
                            queue.insert(0, idx)
                        workers.append(Worker(mod))
                        continue
                    if key == "fatal":
                        raise HarnessError(payload)
                    if key == "ready":
                        w.ready = True
                    else:
                        results[key] = payload
                        w.job = None
                        if payload[0] == "error":
                            raise HarnessError(
                                f"case {json.dumps(cases[key])}\n{payload[1]}"
                            )
                        if payload[0] == "violation" and violation is None:
                            violation = (cases[key], payload[1],
                                         [cases[i] for i in w.history[:-1]])
                        if on_result:
                            on_result(key, payload)
                elif w.job is not None and now - w.t0 > CASE_TIMEOUT:
                    idx, _ = w.job
                    w.kill()
                    workers.remove(w)
                    results[idx] = ("timeout", None, now - w.t0)
                    workers.append(Worker(mod))
            for w in workers:
                if w.ready and w.job is None and queue:
                    i = queue.pop(0)
                    w.send(i, cases[i])
    finally:
        for w in workers:
            w.kill()
    return results, violation


# ------------------------------------------------------------------ shrinking
class Fresh:
    """One interpreter for trying candidates; `new` starts another."""

    def __init__(self, mod, deadline):
        self.mod, self.deadline, self.w = mod, deadline, None

    def new(self):
        self.close()
        self.w = Worker(self.mod)
        left = max(1.0, self.deadline - time.time())
        if not self.w.conn.poll(left) or self.w.conn.recv()[0] != "ready":
            self.close()

    def close(self):
        if self.w is not None:
            self.w.kill()
        self.w = None

    def fails(self, case):
        """Violation message, or None (passes, no answer, out of time)."""
        if self.w is None or time.time() > self.deadline:
            return None
        self.w.send(0, case)
        if not self.w.conn.poll(max(0.1, self.deadline - time.time())):
            self.close()
            return None
        try:
            _, payload = self.w.conn.recv()
        except EOFError:
            self.close()
            return "the interpreter crashed"
        return payload[1] if payload[0] == "violation" else None


def shrink_case(mod, m, case, msg, history, budget=75.0):
    """Greedy shrinking.  Returns (case, message, prefix, candidates tried); prefix is the list
    of cases that must run before in the same interpreter (only for failures that need it)."""
    deadline = time.time() + budget
    per_case = getattr(m, "FRESH", False)
    f = Fresh(mod, deadline)
    tried = 0
    try:
        f.new()
        alone = f.fails(case)
        if alone is None:
            if not history:
                return case, msg, [], tried
            # the failure depends on what ran before: keep and halve that history
            prefix = list(history)

            def again(pre):
                f.new()
                for h in pre:
                    f.fails(h)
                return f.fails(case) is not None

            while len(prefix) > 1 and time.time() < deadline:
                tried += 1
                half = len(prefix) // 2
                if again(prefix[half:]):
                    prefix = prefix[half:]
                elif again(prefix[:half]):
                    prefix = prefix[:half]
                else:
                    break
            return case, msg, prefix, tried
        best, best_msg = case, alone
        improved, seen = True, set()
        while improved and time.time() < deadline:
            improved = False
            for cand in m.shrink(best):
                key = json.dumps(cand, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                if time.time() > deadline:
                    break
                if per_case or f.w is None:
                    f.new()
                got = f.fails(cand)
                tried += 1
                if got is not None:
                    best, best_msg, improved = cand, got, True
                    break
        if not per_case and best is not case:
            f.deadline = time.time() + 30
            f.new()
            if f.fails(best) is None:
                best, best_msg = case, alone
    finally:
        f.close()
    return best, best_msg, [], tried


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    data = json.load(open(KNOWN))
    return [e for e in data.get("open", []) if e["property"] == pid]


# ------------------------------------------------------------------ main
def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args(argv)
    mod = a.module
    m = _load(mod)
    pid = m.ID
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAY, exist_ok=True)
    if a.replay:
        rep = json.load(open(a.replay))
        todo = rep.get("prefix", []) + [rep["case"]]
        res, vio = pool_run(mod, todo, CASE_TIMEOUT, 1)
        last = len(todo) - 1
        print(res[last][:2] if last in res else "no answer")
        if vio:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    rng = random.Random(f"{pid}-{a.seed}-{tier}")
    cases = m.generate(rng, tier)
    try:
        results, vio = pool_run(mod, cases, RUN_LIMIT[tier])
    except HarnessError as e:
        print(f"HARNESS-ERROR property={pid}\n{e}", file=sys.stderr)
        return 2
    done = {i: r for i, r in results.items() if r[0] == "ok"}
    if a.times:
        for i, r in sorted(results.items(), key=lambda x: -x[1][2])[:25]:
            print("%.1f" % r[2], json.dumps(cases[i])[:200])
        print("core-seconds %.0f" % sum(r[2] for r in results.values()))
    tags = Counter(t for r in done.values() for t in r[1].get("tags", []))
    nontriv = [i for i, r in done.items() if r[1].get("nontrivial")]
    distinct = {json.dumps(cases[i], sort_keys=True) for i in nontriv}
    known = known_findings(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(a.seed),
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r[1].get("evals", 1) for r in done.values()),
            "distinct_nontrivial": len(distinct),
            "rule": m.RULE,
            "samples": [cases[i] for i in sorted(nontriv)[:: max(1, len(nontriv) // 5)][:5]],
            "cases_generated": len(cases),
            "cases_completed": len(done),
            "cases_not_run": len(cases) - len(results),
            "cases_timed_out": sum(r[0] == "timeout" for r in results.values()),
            "classes": dict(sorted(tags.items())),
        },
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "violations": 0,
    }
    code = 0
    if vio:
        case, msg, history = vio
        small, smsg, prefix, tried = shrink_case(mod, m, case, msg, history)
        h = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(REPLAY, f"{pid}-{h}.json")
        json.dump(
            {"property": pid, "prefix": prefix, "case": small, "message": smsg, "original": case,
             "original_message": msg, "shrink_candidates_tried": tried,
             "how": f"bin/check {mod} --replay <this file>"},
            open(path, "w"), indent=1,
        )
        ev["violations"] = 1
        ev["violation"] = {"replay": path, "message": smsg}
        print(f"property {pid} fails: {smsg}\n  case: {json.dumps(small)}")
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif len(results) < len(cases) or not distinct:
        print(f"note: {len(cases) - len(results)} of {len(cases)} cases not run in the limit")
    ev["wall_s"] = round(time.time() - t0, 2)
    tmp = os.path.join(EVID, f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    print(
        f"{pid} {tier} seed={a.seed}: {len(done)}/{len(cases)} cases, "
        f"{ev['coverage']['evaluations']} evaluations, {len(distinct)} non-trivial, "
        f"{ev['wall_s']} s, {'VIOLATION' if code else 'held'}"
    )
    return code


if __name__ == "__main__":
    import core  # workers unpickle core._worker, so run from the importable module

    sys.exit(core.main(sys.argv[1:]))
