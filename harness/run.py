"""Driver: run.py <property> [--tier quick|thorough] | run.py replay <file>

Slots (compile configurations) are handed to worker processes; each slot runs its
own seeded Hypothesis search over numeric cases against the compiled code.
"""

import env  # noqa: F401  (first: sets up the process environment)

import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def canon(x):
    return json.dumps(x, sort_keys=True)


def digest(x):
    return hashlib.sha256(canon(x).encode()).hexdigest()[:12]


# ----------------------------------------------------------------------------
# Worker side
# ----------------------------------------------------------------------------

SHRINK_SECONDS = 40


def run_slot(mod, slot, seed, examples):
    """One seeded Hypothesis search. Returns a JSON-able summary."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    from common import Ctx, Violation

    ctx = Ctx()
    seen = {}
    stats = {
        "evaluations": 0,
        "nontrivial": set(),
        "samples": [],
        "labels": {},
        "violation": None,
    }
    state = {"first_fail": None}
    runner = mod.prepare(slot)

    def one(case):
        key = canon(case)
        if key in seen:
            if seen[key] is not None:
                raise seen[key]
            return
        if (
            state["first_fail"] is not None
            and time.time() - state["first_fail"] > SHRINK_SECONDS
        ):
            return
        stats["evaluations"] += 1
        try:
            mod.check(slot, case, runner, ctx)
        except Violation as v:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            v.case = case
            seen[key] = v
            raise
        seen[key] = None
        if mod.nontrivial(slot, case):
            stats["nontrivial"].add(digest([slot, case]))
        for lab in mod.labels(slot, case):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if len(stats["samples"]) < 2 and stats["evaluations"] % 7 == 3:
            stats["samples"].append({"slot": slot, "case": case})

    @hypothesis.seed(seed)
    @settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @hypothesis.given(mod.strategy(slot))
    def search(case):
        one(case)

    try:
        search()
    except Violation as v:
        stats["violation"] = {"case": v.case, "message": str(v)}
    if not stats["samples"] and seen:
        stats["samples"].append({"slot": slot, "case": json.loads(next(iter(seen)))})
    stats["nontrivial"] = sorted(stats["nontrivial"])
    stats["worst"] = ctx.worst
    stats["notes"] = ctx.notes
    return stats


def worker_main(prop):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything printed goes to stderr
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    mod = load(prop)
    import jax

    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    done = 0
    for line in sys.stdin:
        job = json.loads(line)
        t0 = time.time()
        try:
            res = run_slot(mod, job["slot"], job["seed"], job["examples"])
            res["ok"] = True
        except BaseException:  # noqa: BLE001
            res = {"ok": False, "error": traceback.format_exc()}
        res["index"] = job["index"]
        res["wall"] = time.time() - t0
        out.write(json.dumps(res) + "\n")
        out.flush()
        done += 1
        jax.clear_caches()


class Worker:
    def __init__(self, prop, on_msg):
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "run.py"), "--worker", prop],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            cwd=HERE,
        )
        self.job = None
        self.err = []
        self.thread = threading.Thread(target=self._read, args=(on_msg,), daemon=True)
        self.thread.start()
        self.ethread = threading.Thread(target=self._readerr, daemon=True)
        self.ethread.start()

    def _read(self, on_msg):
        for line in self.proc.stdout:
            on_msg(self, json.loads(line))
        on_msg(self, None)

    def _readerr(self):
        for line in self.proc.stderr:
            self.err.append(line)
            del self.err[:-60]

    def send(self, job):
        self.job = job
        self.proc.stdin.write(json.dumps(job) + "\n")
        self.proc.stdin.flush()

    def kill(self):
        try:
            self.proc.kill()
            self.proc.wait()
        except OSError:
            pass


# ----------------------------------------------------------------------------
# Main side
# ----------------------------------------------------------------------------


def known_findings(prop):
    """Lines 'known: property=<id> case=<file> <what fails>' of known_findings.txt"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    out.append((parts[2].split("=", 1)[1], parts[3].strip()))
    return out


def run_case(mod, slot, case):
    """None, or the violation message"""
    from common import Ctx, Violation

    runner = mod.prepare(slot)
    try:
        mod.check(slot, case, runner, Ctx())
    except Violation as v:
        return str(v)
    return None


def write_replay(prop, slot, case, message):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{digest([slot, case])}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": prop, "slot": slot, "case": case, "message": message},
            f,
            indent=1,
        )
    return path


def run_property(prop, tier, seed, only=None):
    import queue

    t0 = time.time()
    mod = load(prop)
    slots = mod.slots(tier, seed)
    if only is not None:
        slots = [s for i, s in enumerate(slots) if i in only]
    cap = float(os.environ.get("VERIF_WALL", "600" if tier == "quick" else "6000"))
    if getattr(mod, "CAP", None) and tier == "quick":
        cap = min(cap, mod.CAP)

    q = queue.Queue()
    jobs = []
    for i, s in enumerate(slots):
        s = dict(s)
        ex = s.pop("examples")
        h = int(hashlib.sha256(f"{prop}:{seed}:{canon(s)}".encode()).hexdigest()[:12], 16)
        jobs.append({"index": i, "slot": s, "seed": h, "examples": ex})
    # the most expensive structures first, so that the tail is short
    pending = sorted(jobs, key=lambda j: (-j["slot"].get("cost", 0), j["index"]))
    by_index = {j["index"]: j for j in jobs}

    results, errors, retried = {}, [], set()
    workers = []

    def start():
        w = Worker(prop, lambda w, m: q.put((w, m)))
        workers.append(w)
        return w

    for _ in range(min(NWORKERS, len(pending))):
        start()
    alive = len(workers)
    violation = None
    skipped = 0
    while alive:
        left = cap - (time.time() - t0)
        try:
            w, m = q.get(timeout=max(1.0, left))
        except queue.Empty:
            skipped = len(jobs) - len(results)
            break
        if m is None:  # the worker ended
            alive -= 1
            if w.job is not None:
                j = w.job
                w.job = None
                w.ethread.join(2)
                if j["index"] in retried:
                    errors.append(
                        f"worker died on slot {j['slot']}: {''.join(w.err[-30:])}"
                    )
                else:  # e.g. ended for lack of memory: once more, on its own
                    retried.add(j["index"])
                    pending.append(j)
                    start()
                    alive += 1
            continue
        if "ready" not in m:
            w.job = None
            if m["ok"]:
                results[m["index"]] = m
                if m["violation"] and violation is None:
                    violation = (by_index[m["index"]]["slot"], m["violation"])
            else:
                errors.append(
                    f"slot {by_index[m['index']]['slot']}: {m['error']}"
                )
        if violation or errors:
            break
        if pending and time.time() - t0 < cap:
            w.send(pending.pop(0))
        else:
            w.proc.stdin.close()
    if pending and not violation and not errors:
        skipped = max(skipped, len(jobs) - len(results))
    for w in workers:
        w.kill()

    known = []
    if not errors:
        for path, what in known_findings(prop):
            d = json.load(open(os.path.join(ROOT, path)))
            msg = run_case(mod, d["slot"], d["case"])
            known.append({"case": path, "what": what, "fails": msg})
            if msg is not None:
                print(f"KNOWN-FINDING: property={prop} {what}")

    labels, worst, notes, samples, nontrivial = {}, {}, {}, [], set()
    evaluations = 0
    for i in sorted(results):
        r = results[i]
        evaluations += r["evaluations"]
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        samples.extend(r["samples"][:1])
    step = max(1, len(samples) // 6)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[::step][:6],
            "slots": len(jobs),
            "slots_completed": len(results),
            "slots_skipped_for_time": skipped,
            "labels": dict(sorted(labels.items())),
            "asserted": dict(sorted(notes.items())),
            "closest_to_tolerance": {k: float(f"{v:.3g}") for k, v in sorted(worst.items())},
            "slowest_slots_s": sorted(
                (round(r["wall"], 1) for r in results.values()), reverse=True
            )[:5],
            "known_findings": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violation:
        slot, v = violation
        path = write_replay(prop, slot, v["case"], v["message"])
        print(f"slot: {canon(slot)}")
        print(f"case: {canon(v['case'])}")
        print(f"what: {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"{prop}: the check itself failed ({len(errors)} errors)")
        return 2
    if not results:
        print(f"{prop}: no slot finished in time")
        return 3
    print(
        f"{prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial)"
        f" in {len(results)}/{len(jobs)} slots, {time.time() - t0:.0f} s;"
        f" closest to tolerance {max(worst.values(), default=0):.2g}"
    )
    return 0


def replay(path):
    d = json.load(open(path))
    msg = run_case(load(d["property"]), d["slot"], d["case"])
    if msg is None:
        print(f"{d['property']}: {path} passes")
        return 0
    print(f"what: {msg}")
    print(f"VIOLATION property={d['property']} replay={os.path.abspath(path)}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="comma separated slot indices (debugging)")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if args.what == "replay":
        return replay(args.path)
    if args.what == "slots":
        for i, s in enumerate(load(args.path).slots(args.tier, seed)):
            print(i, canon(s))
        return 0
    only = {int(x) for x in args.only.split(",")} if args.only else None
    return run_property(args.what.upper(), args.tier, seed, only)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--worker":
        worker_main(sys.argv[2])
    else:
        sys.exit(main())
