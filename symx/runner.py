"""Explores all tasks of a property over worker processes, writes evidence,
prints the verdict."""
import argparse
import hashlib
import heapq
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

from . import harness
from .core import Stats, CUR
from .harness import PathRun, Task, load_real, run_concrete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_orig_pool = None


def worker(wid, tasks, inq, outq, deadline, seed):
    import gc

    gc.disable()
    shared = {"deadline": deadline, "profile": set(), "profiled": set(), "maxval": 2}
    n = 0
    while True:
        item = inq.get()
        if item is None:
            break
        ti, prefixes, slice_s = item
        task = tasks[ti]
        st = Stats()
        notes = []
        stack = list(prefixes)
        viol = None
        t0 = time.time()
        err = None
        samples = []
        try:
            while stack:
                if time.time() > deadline:
                    shared["over"] = True
                    break
                if time.time() - t0 > slice_s:
                    break
                p = stack.pop()
                run = PathRun(task, p, st, shared)
                try:
                    e = run.run()
                except Exception as ex:  # fault of the machinery on this path: undecided
                    k = "engine %s: %s" % (type(ex).__name__, str(ex)[:100])
                    st.unsupported[k] = st.unsupported.get(k, 0) + 1
                    CUR.e = None
                    continue
                notes += run.notes
                if run.violation:
                    viol = run.violation
                    break
                stack += e.new
                n += 1
                if len(samples) < 1 and e.model:
                    samples.append({"task": task.name, "decisions": len(e.trace), "model": {k: str(v) for k, v in list(e.model.items())[:12] if k in e.inputs}})
                if n % 50 == 0:
                    gc.collect()
        except BaseException:
            err = traceback.format_exc()
        outq.put({
            "w": wid, "ti": ti, "left": stack, "stats": st.__dict__, "notes": notes, "viol": viol, "err": err, "samples": samples,
            "funcs": sorted(shared["profile"]), "over": shared.get("over", False), "t": time.time() - t0,
        })


def explore(tasks, budget, jobs=8, seed=1, verbose=False):
    ctx = mp.get_context("fork")
    deadline = time.time() + budget
    inqs, outq, procs = [], ctx.Queue(), []
    for i in range(jobs):
        q = ctx.Queue()
        p = ctx.Process(target=worker, args=(i, tasks, q, outq, deadline, seed), daemon=False)
        p.start()
        inqs.append(q)
        procs.append(p)
    # single in-queue per worker; frontier per task
    frontier = {i: [[]] for i in range(len(tasks))}
    tstats = [Stats() for _ in tasks]
    tcpu = [0.0] * len(tasks)
    busy = {}
    idle = list(range(jobs))
    active = [0] * len(tasks)
    notes, samples, funcs = [], [], set()
    viol = None
    err = None
    over = False
    def pick():
        """task with the least cpu per weight that has work and not too many workers"""
        best = None
        for i, fr in frontier.items():
            if not fr:
                continue
            if tasks[i].budget and tcpu[i] > tasks[i].budget:
                continue
            k = (tcpu[i] + active[i] * 0.5) / tasks[i].weight
            if best is None or k < best[0]:
                best = (k, i)
        return None if best is None else best[1]

    try:
        while True:
            while idle:
                i = pick()
                if i is None or time.time() > deadline:
                    break
                w = idle.pop()
                fr = frontier[i]
                # hand out the shallowest prefixes (largest subtrees) when few, else a batch
                fr.sort(key=len)
                k = max(1, len(fr) // (2 * jobs))
                give, frontier[i] = fr[:k], fr[k:]
                slice_s = 0.3 if tcpu[i] < 3 else 1.5
                inqs[w].put((i, give, slice_s))
                busy[(w)] = i
                active[i] += 1
            if not busy:
                break
            try:
                r = outq.get(timeout=2)
            except Exception:
                dead = [w for w in busy if not procs[w].is_alive()]
                if dead:
                    err = "worker died (out of memory?)"
                    break
                if time.time() > deadline + 90:
                    over = True
                    break
                continue
            i = r["ti"]
            w = r["w"]
            busy.pop(w)
            idle.append(w)
            active[i] -= 1
            tcpu[i] += r["t"]
            tstats[i].merge(r["stats"])
            frontier[i] += r["left"]
            notes += r["notes"]
            if len(samples) < 6:
                samples += r["samples"]
            funcs |= set(r["funcs"])
            if r["over"]:
                over = True
            if r["err"]:
                err = r["err"]
                break
            if r["viol"]:
                viol = r["viol"]
                break
    finally:
        for q in inqs:
            try:
                q.put(None)
            except Exception:
                pass
        end = time.time() + (0.2 if (viol or err) else 3)
        for p in procs:
            p.join(max(0.05, end - time.time()))
        for p in procs:
            if p.is_alive():
                p.kill()
                p.join()
    left = {tasks[i].name: len(fr) for i, fr in frontier.items() if fr}
    return dict(stats=tstats, notes=notes, samples=samples, funcs=funcs, viol=viol, err=err, left=left, cpu=tcpu)


def file_hashes():
    out = {}
    root = os.path.join(harness.REPO, "PyEMD")
    for d, _, fs in os.walk(root):
        if os.sep + "tests" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                out[os.path.relpath(p, harness.REPO)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
    return out


def known_findings(prop):
    """entries: [{property, status: known|fixed, task, obligation, match, what}]"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == prop and k.get("status") == "known"]


def main(prop, tasks_of, meta):
    """meta: dict(bounds=[..], outside=[..], stubs=[..], mods=[..])"""
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--task")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a, _ = ap.parse_known_args(sys.argv[2:] if len(sys.argv) > 1 and not sys.argv[1].startswith("-") else sys.argv[1:])
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tasks = tasks_of(tier)
    for t in tasks:
        if not t.mods:
            t.mods = meta.get("mods", [])
    load_real(sorted({m for t in tasks for m in t.mods}))
    for w in meta.get("warmup", []):
        try:
            w()
        except Exception:
            pass
    if a.replay:
        r = json.load(open(a.replay))
        t = next(t for t in tasks_of(r["tier"]) if t.name == r["task"])
        if not t.mods:
            t.mods = meta.get("mods", [])
        out = run_concrete(t, r["vals"], r["choices"], 120)
        print(json.dumps({k: out[k] for k in ("outcome", "name", "msg")}))
        return 1 if out["outcome"] in ("fail", "crash", "hang") else 0
    if a.task:
        tasks = [t for t in tasks if a.task in t.name]
    budget = a.budget or meta.get("budget", {}).get(tier, 60 if tier == "quick" else 600)
    res = explore(tasks, budget, jobs=min(8, os.cpu_count() or 1), seed=seed, verbose=a.v)
    tot = Stats()
    per = []
    vac = []
    for t, s, c in zip(tasks, res["stats"], res["cpu"]):
        tot.merge(s.__dict__)
        per.append({
            "task": t.name, "bounds": t.bounds, "paths": s.paths, "exhausted": t.name not in res["left"], "unexplored_prefixes": res["left"].get(t.name, 0),
            "decisions": s.decisions, "queries": s.queries, "obligations": s.obligations, "discharged_trivially": s.discharged_trivially,
            "discharged_by_solver": s.discharged_solver, "obligations_unknown": s.obl_unknown, "solver_s": round(s.solver_s, 2),
            "cpu_s": round(c, 2), "infeasible": s.infeasible, "aborted": s.aborted, "undecided": s.unsupported, "reached": s.reach,
        })
        if s.obligations == 0:
            vac.append(t.name)
    validated = tot.reach.get("validated", 0)
    exhaustive = not res["left"] and not tot.unsupported and not tot.obl_unknown and not vac and not res["err"] and not any("unreplayed" in n for n in res["notes"])
    violations = []
    rc = 0
    if res["viol"]:
        v = res["viol"]
        v.update(property=prop, tier=tier)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", "%s.json" % prop)
        json.dump(v, open(rp, "w"), indent=1)
        print("counterexample in %s: %s %s (%s) inputs=%s choices=%s" % (v["task"], v["outcome"], v["obligation"], v["msg"], v["vals"], v["choices"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        violations.append({"obligation": v["obligation"], "task": v["task"], "message": v["msg"], "replay": rp})
        rc = 1
    elif res["err"]:
        print(res["err"], file=sys.stderr)
        rc = 3
    hard = [n for n in res["notes"] if n.startswith("ENCODING")]
    for n in sorted(set(res["notes"]))[:20]:
        print("note:", n)
    if vac:
        print("note: no obligation reached in", vac)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": tot.paths, "transitions": tot.decisions, "traces_validated_against_impl": validated,
            "samples": res["samples"] or ["none"], "exhaustive": bool(exhaustive),
            "paths": tot.paths, "solver_queries": tot.queries, "sat": tot.sat, "unsat": tot.unsat, "unknown": tot.unknown,
            "solver_s": round(tot.solver_s, 2), "obligations": tot.obligations,
            "obligations_discharged": tot.discharged_trivially + tot.discharged_solver,
            "obligations_discharged_by_solver": tot.discharged_solver, "obligations_unknown": tot.obl_unknown,
            "functions_encoded": sorted(res["funcs"]), "source_sha256": file_hashes(), "tasks": per,
            "bounds": meta.get("bounds", []), "outside_the_claim": meta.get("outside", []), "stubs": meta.get("stubs", []),
            "states_are": "feasible execution paths of the encoded functions; transitions are solver-decided branches",
            "vacuous_tasks": vac, "notes": sorted(set(res["notes"]))[:20],
        },
        "assumptions": meta.get("stubs", []) + ["real arithmetic in place of IEEE-754 rounding; division by zero modelled as inf/nan", "z3 is sound"],
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    print("%s %s: %s in %.1fs; paths=%d queries=%d solver=%.1fs obligations=%d (solver %d, trivial %d, unknown %d) validated=%d exhaustive=%s" % (
        prop, tier, {0: "held on everything explored", 1: "VIOLATED"}.get(rc, "ERROR"), time.time() - t0, tot.paths, tot.queries, tot.solver_s,
        tot.obligations, tot.discharged_solver, tot.discharged_trivially, tot.obl_unknown, validated, exhaustive))
    if a.v or (not exhaustive):
        for p in per:
            if a.v or not p["exhausted"] or p["undecided"] or p["obligations_unknown"]:
                print("  ", p["task"], "paths", p["paths"], "left", p["unexplored_prefixes"], "cpu", p["cpu_s"], "unknown", p["obligations_unknown"], p["aborted"], p["undecided"], p["reached"] if a.v else "")
    sys.stdout.flush()
    return rc
