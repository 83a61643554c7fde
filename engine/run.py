"""Driver: python3-vt engine/run.py <property> [--tier quick|thorough]

Explores every harness of the property symbolically on /repo's current source (all cores), replays
any counterexample on the unpatched code, validates sampled paths on the unpatched code, writes
/verif/evidence/<property>.json and exits 0 (held within the bounds) or 1 (VIOLATION line).
"""
from __future__ import annotations

import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

import argparse
import collections
import concurrent.futures
import json
import multiprocessing
import random
import subprocess
import time

from engine import explore, loader, registry

VERIF = registry.VERIF
OUT = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
BUDGET = {"quick": 240.0, "thorough": 1500.0}
SAMPLES = {"quick": 40, "thorough": 200}
FALLBACK = {"quick": 400, "thorough": 1500}


def _task(prop, hname, params, prefixes, deadline, slice_s, seed, known, tier):
    h = registry.find(prop, hname)
    # the code under test and the harness may print; keep stdout clean
    limits = explore.Limits()
    limits.path_seconds = h.path_seconds
    if tier == "thorough":
        limits.query_ms = 60000
    rng = random.Random(repr((seed, hname, sorted(params.items(), key=repr), len(prefixes), len(prefixes[0]))))
    return explore.explore(h.fn, params, prefixes, deadline=deadline, slice_s=slice_s, limits=limits, rng=rng,
                           sample_rate=0.002, known=known, repo=loader.REPO)


def _quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(fd, 1)
        os.dup2(fd, 2)


def _limit_memory():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def _init_worker():
    _quiet()
    _limit_memory()


def concrete_batch(cases, seconds, total):
    """Run cases on the unpatched code in a child process; None for cases that gave no answer."""
    out = [None] * len(cases)
    start = 0
    t_end = time.monotonic() + total
    while start < len(cases) and time.monotonic() < t_end:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([sys.executable, "-m", "engine.concrete", "--batch"], cwd=VERIF, env=env, text=True,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        data = "".join(json.dumps(dict(c, seconds=seconds)) + "\n" for c in cases[start:])
        hung = False
        try:
            so, _ = p.communicate(data, timeout=max(5, t_end - time.monotonic()))
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            hung = True
        got = 0
        for line in so.splitlines():
            try:
                out[start + got] = json.loads(line)
            except ValueError:
                break
            got += 1
        if start + got < len(cases):
            # the child ended inside this case: a crash or a hang the alarm could not break
            out[start + got] = {"outcome": "died", "hang": hung}
            got += 1
        start += got
    return out


def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known":
                    out.setdefault(d["property"], {})[d["id"]] = d
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or "8"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier
    prop = a.property
    t0 = time.monotonic()
    registry.load_all()
    hs = [h for h in registry.PROPERTIES[prop] if not a.only or h.name == a.only]
    budget = a.budget or BUDGET[tier]
    deadline = t0 + budget
    known = load_known().get(prop, {})

    jobs = []     # (harness, params)
    for h in hs:
        for p in (h.quick if tier == "quick" else h.thorough):
            jobs.append((h, p))
    stats = [explore.Stats() for _ in jobs]
    samples = [[] for _ in jobs]
    fallback = [[] for _ in jobs]
    job_done_t = [None] * len(jobs)
    outstanding = [0] * len(jobs)
    dropped = [False] * len(jobs)
    errors, known_hits, unconfirmed = [], {}, []
    confirmed = None
    loader_ctx = multiprocessing.get_context("fork")
    ex = concurrent.futures.ProcessPoolExecutor(a.jobs, mp_context=loader_ctx, initializer=_init_worker)
    pending = collections.deque((i, [[]]) for i in range(len(jobs)))
    running = {}
    rng = random.Random(a.seed)

    def submit():
        while pending and len(running) < a.jobs + 2:
            i, pref = pending.popleft()
            h, p = jobs[i]
            left = len(pending) < a.jobs
            f = ex.submit(_task, prop, h.name, p, pref, deadline, 0.4 if left else 2.0, a.seed, tuple(known), tier)
            running[f] = i
            outstanding[i] += 1

    broken = False
    while pending or running:
        if time.monotonic() > deadline:
            for i, _ in pending:
                dropped[i] = True
            pending.clear()
        try:
            submit()
        except concurrent.futures.process.BrokenProcessPool:
            broken = True
            break
        done, _ = concurrent.futures.wait(list(running), timeout=5, return_when=concurrent.futures.FIRST_COMPLETED)
        if not done and time.monotonic() > deadline + 90:
            broken = True
            break
        for f in done:
            i = running.pop(f)
            outstanding[i] -= 1
            h, p = jobs[i]
            try:
                r = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                broken = True
                break
            except Exception as e:
                errors.append("%s: %s: %s" % (h.name, type(e).__name__, e))
                dropped[i] = True
                continue
            stats[i].merge(r.stats)
            samples[i].extend(r.samples)
            fallback[i].extend(r.fallback)
            errors.extend(r.errors)
            for kid, label, inputs in r.known_hits:
                known_hits.setdefault(kid, (h, p, label, inputs))
            stop_job = False
            for v in r.violations:
                case = {"property": prop, "harness": h.name, "params": p, "inputs": v["inputs"], "label": v["label"],
                        "known": sorted(known)}
                res = concrete_batch([case], max(10.0, 2 * h.path_seconds) if v.get("hang") else h.path_seconds,
                                     120)[0]
                if v.get("more") and (res is None or res["outcome"] != "violation"):
                    more = concrete_batch([dict(case, inputs=x) for x in v["more"]], h.path_seconds, 60)
                    for x, rr in zip(v["more"], more):
                        if rr is not None and rr["outcome"] == "violation":
                            v, res = dict(v, inputs=x), rr
                            break
                if res is not None and res["outcome"] == "violation":
                    confirmed = (h, p, v, res)
                    break
                unconfirmed.append((h.name, p, v, res))
                if len(unconfirmed) > 24:
                    stop_job = True
            if confirmed:
                break
            if stop_job:
                dropped[i] = True
                r.leftover = []
                pending = collections.deque(x for x in pending if x[0] != i)
            left = r.leftover
            if left and time.monotonic() < deadline:
                n = max(1, min(len(left), a.jobs if len(pending) < a.jobs else 2))
                for k in range(n):
                    pending.append((i, left[k::n]))
            elif left:
                dropped[i] = True
            if outstanding[i] == 0 and not any(x[0] == i for x in pending):
                job_done_t[i] = time.monotonic() - t0
        if confirmed or broken:
            break

    for pr in list(getattr(ex, "_processes", {}).values()):
        try:
            pr.kill()
        except Exception:
            pass
    ex.shutdown(wait=False, cancel_futures=True)
    if broken and not confirmed:
        for i in range(len(jobs)):
            if job_done_t[i] is None:
                dropped[i] = True
                errors.append("worker process ended: %s" % jobs[i][0].name)

    # validate sampled paths on the unpatched code
    validated = mismatched = skipped = 0
    mismatch_notes = []
    sample_out = []
    if not confirmed:
        per = max(3, SAMPLES[tier] // max(1, len(jobs)))
        cases, meta = [], []
        for i, (h, p) in enumerate(jobs):
            ss = samples[i]
            rng.shuffle(ss)
            for inputs, labels in ss[:per]:
                cases.append({"property": prop, "harness": h.name, "params": p, "inputs": inputs,
                              "known": sorted(known)})
                meta.append((h, p, labels))
            if ss:
                sample_out.append({"harness": h.name, "params": p, "inputs": ss[0][0], "checks_on_path": len(ss[0][1])})
        chunks = [list(range(k, len(cases), a.jobs)) for k in range(a.jobs)]
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as tex:
            futs = [(c, tex.submit(concrete_batch, [cases[j] for j in c], 20, 120)) for c in chunks if c]
            for c, f in futs:
                for j, res in zip(c, f.result()):
                    h, p, labels = meta[j]
                    if res is None or res["outcome"] in ("died", "skip"):
                        skipped += 1
                        if res is not None and res["outcome"] == "skip":
                            mismatched += 1
                            mismatch_notes.append("%s: assumption not met concretely" % h.name)
                        continue
                    if res["outcome"] == "violation":
                        if confirmed is None:
                            confirmed = (h, p, {"label": res["label"], "inputs": cases[j]["inputs"],
                                                "found_by": "path validation"}, res)
                    elif res["labels"] != labels:
                        mismatched += 1
                        mismatch_notes.append("%s %r: %d labels vs %d; %r" % (
                            h.name, cases[j]["inputs"], len(labels), len(res["labels"]),
                            next(((x, y) for x, y in zip(labels, res["labels"]) if x != y), None)))
                    else:
                        validated += 1

    # paths that ended in code the engine cannot encode: run their models on the unpatched code
    fell_back = 0
    if not confirmed and any(fallback):
        cases, meta = [], []
        for i, (h, p) in enumerate(jobs):
            ss = fallback[i]
            rng.shuffle(ss)
            for k, inputs in enumerate(ss[:FALLBACK[tier]]):
                cases.append({"property": prop, "harness": h.name, "params": p, "inputs": inputs, "known": sorted(known), "seed": k + a.seed})
                meta.append((h, p))
            if ss:
                # and inputs chosen freely
                for k in range(FALLBACK[tier]):
                    cases.append({"property": prop, "harness": h.name, "params": p, "inputs": {}, "known": sorted(known), "seed": 10 ** 6 + k + a.seed})
                    meta.append((h, p))
        chunks = [list(range(k, len(cases), a.jobs)) for k in range(a.jobs)]
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as tex:
            futs = [(c, tex.submit(concrete_batch, [cases[j] for j in c], 30, 90)) for c in chunks if c]
            for c, f in futs:
                for j, res in zip(c, f.result()):
                    if res is None or res["outcome"] in ("died", "skip"):
                        continue
                    fell_back += 1
                    if res["outcome"] == "violation" and confirmed is None:
                        h, p = meta[j]
                        # once more with the completed inputs, as the replay will run it
                        again = concrete_batch([{"property": prop, "harness": h.name, "params": p, "inputs": res["inputs"],
                                                 "known": sorted(known)}], 30, 60)[0]
                        if again is not None and again["outcome"] == "violation":
                            confirmed = (h, p, {"label": again["label"], "inputs": res["inputs"],
                                                "found_by": "model of a path that could not be encoded to its end"}, again)

    tot = explore.Stats()
    for s in stats:
        tot.merge(s)
    real_unconf = [u for u in unconfirmed if not u[2].get("approx") and not u[2].get("hang")
                   and not u[2]["label"].startswith("unexpected ")]
    for u in unconfirmed:
        if u not in real_unconf:
            k = "counterexample not reproduced (over-approximated rounding, solver timeout or proxy gap): %s %s" % (u[0], u[2]["label"])
            tot.incomplete[k] = tot.incomplete.get(k, 0) + 1
    vacuous = [jobs[i][0].name for i in range(len(jobs)) if stats[i].checks == 0]
    exhaustive = not vacuous and not any(dropped) and not tot.incomplete and not broken and not unconfirmed
    coverage = {
        "states": tot.paths + tot.pruned,
        "transitions": tot.branches,
        "traces_validated_against_impl": validated,
        "samples": sample_out[:12],
        "explanation": "states: symbolic paths of the real code driven to the end (each stands for every input "
                       "satisfying its path condition); transitions: branch/value forks decided by z3; traces "
                       "validated: paths re-run with a concrete model on the unpatched code, same checks reached",
        "exhaustive": exhaustive,
        "paths_completed": tot.paths, "paths_cut_by_assumption": tot.pruned,
        "solver_queries": tot.solver_checks, "solver_seconds": round(tot.solver_s, 3),
        "property_queries": tot.checks, "property_queries_closed_by_simplification": tot.checks_trivial,
        "solver_unknown": tot.unknown, "rounded_float_operations": tot.roundings,
        "functions_encoded": sorted(tot.functions),
        "checks_by_label": dict(sorted(tot.labels.items())),
        "harnesses": [{"name": h.name, "params": p, "bounds": h.bounds, "paths": stats[i].paths,
                       "exhausted": not dropped[i] and not stats[i].incomplete} for i, (h, p) in enumerate(jobs)],
        "incomplete": tot.incomplete, "models_of_unencodable_paths_run_concretely": fell_back, "unconfirmed_counterexamples": len(unconfirmed),
        "validation_mismatches": mismatched, "validation_skipped": skipped,
        "known_findings_seen": sorted(known_hits), "errors": errors[:10],
    }
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "model_checking", "coverage": coverage,
          "assumptions": sorted(set(x for h in hs for x in h.assumes) | tot.assumptions),
          "wall_s": round(time.monotonic() - t0, 2), "violations": 1 if confirmed else 0}
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    with open(os.path.join(OUT, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s %s: %d paths, %d forks, %d property queries, %d solver queries (%.1fs), validated %d, %s, wall %.1fs" % (
        prop, tier, tot.paths, tot.branches, tot.checks, tot.solver_checks, tot.solver_s, validated,
        "exhausted within bounds" if exhaustive else "NOT exhausted", time.monotonic() - t0))
    if a.v:
        for i, (h, p) in enumerate(jobs):
            print("  ", h.name, p, "paths", stats[i].paths, "pruned", stats[i].pruned, "checks", stats[i].checks,
                  "done %s" % (job_done_t[i] and round(job_done_t[i], 1)), "DROPPED" if dropped[i] else "")
        for u in unconfirmed[:2]:
            print("   unconfirmed:", u[0], u[1], u[2]["label"], json.dumps(u[2]["inputs"]), u[2].get("detail", ""))
    for k, v in tot.incomplete.items():
        print("  incomplete: %s x%d" % (k, v))
    for e in errors[:5]:
        print("  error:", e)
    for m in mismatch_notes[:5]:
        print("  validation mismatch:", m)
    for kid in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[kid]["what"]))
    if confirmed:
        h, p, v, res = confirmed
        path = os.path.join(OUT, "replay", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": h.name, "params": p, "inputs": v["inputs"], "label": res["label"],
                       "symbolic_label": v["label"], "where": res.get("where"), "found_by": v.get("found_by", "solver"),
                       "seconds": h.path_seconds,
                       "rerun": "cd /verif && python3-vt -m engine.concrete " + path}, f, indent=1)
        print("  %s %s: %s fails for %s" % (h.name, p, res["label"], json.dumps(v["inputs"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    if real_unconf:
        # the unpatched code does not fail for these inputs: not a violation, but not a verdict either
        u = real_unconf[0]
        print("  WARNING: counterexample does not reproduce on the real code: %s %s %s %s -> %s" % (
            u[0], u[1], u[2]["label"], json.dumps(u[2]["inputs"]), json.dumps(u[3])[:300]))
    if vacuous:
        print("%s: no property query reached in %s" % ("ERROR" if tot.checks == 0 else "  incomplete", vacuous))
        if tot.checks == 0:
            os._exit(2)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
