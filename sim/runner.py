"""Runs plans in forked children on all cores, minimises failures, writes evidence."""
import gc
import copy
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = float(os.environ.get("SIM_RUN_TIMEOUT", "90"))


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def execute(mod, plan):
    """One simulated run, in this process. Returns the result dictionary."""
    ctx = core.Ctx(plan)
    try:
        mod.execute(ctx, plan)
    except core.Violation:
        pass
    except core.SimDeadlock as e:
        ctx.violations.append(["deadlock", str(e)])
    except Exception as e:
        # an error that came out of the code under test where the plan expects none
        where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(core._PREFIXES)]
        if not where:
            raise
        f = where[-1]
        ctx.violations.append(["unexpected-exception", f"{type(e).__name__}: {e} at "
                               f"{os.path.relpath(f.filename, core.REPO)}:{f.name}"])
    except core.HarnessError as e:
        text = str(e)
        if not text.startswith("in child:") or not any(f'File "{p}' in text for p in core._PREFIXES):
            raise
        ctx.violations.append(["unexpected-exception", text.strip().splitlines()[-1]])
    return ctx.result()


def fork_run(mod, plan, timeout=None):
    """One simulated run in a fresh child of this import-only process."""
    timeout = timeout or RUN_TIMEOUT
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid()
            core.die_with_parent()
            os.close(r)
            gc.collect()            # from here on collections come at the same points of every execution
            try:
                res = execute(mod, plan)
            except BaseException as e:
                res = {"harness_error": "".join(traceback.format_exception(e))[-3000:]}
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf, end, dead = [], time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            dead = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if dead:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if dead:
        return {"harness_error": f"run did not end within {timeout:.0f} s", "timeout": True}
    if st != 0:
        return {"harness_error": f"run ended with status {st}"}
    return json.loads(b"".join(buf))


def plan_for(mod, pid, seed, i, tier):
    rng = core.Rng(core.derive(pid, seed, i))
    plan = mod.generate(rng, i, tier)
    plan["prop"] = pid
    plan["seed"] = [seed, i]
    return json.loads(json.dumps(plan))


def worker(mod, pid, seed, tier, indices, fd, deadline):
    for i in indices:
        if time.monotonic() > deadline:
            break
        try:
            plan = plan_for(mod, pid, seed, i, tier)
            res = fork_run(mod, plan)
        except BaseException as e:
            res = {"harness_error": "".join(traceback.format_exception(e))[-3000:]}
        res["i"] = i
        data = json.dumps(res).encode()
        msg = len(data).to_bytes(4, "big") + data
        while msg:
            n = os.write(fd, msg)
            msg = msg[n:]


def sweep(mod, pid, seed, tier, total, wall, jobs, stop_on=None):
    """Run plans 0..total-1; yields results as they come."""
    deadline = time.monotonic() + wall
    procs = {}
    for w in range(jobs):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                worker(mod, pid, seed, tier, range(w, total, jobs), wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = (p, bytearray())
    try:
        while procs:
            ready, _, _ = select.select(list(procs), [], [], 1.0)
            for r in ready:
                p, buf = procs[r]
                b = os.read(r, 1 << 16)
                if not b:
                    os.close(r)
                    os.waitpid(p, 0)
                    del procs[r]
                    continue
                buf += b
                while len(buf) >= 4:
                    n = int.from_bytes(buf[:4], "big")
                    if len(buf) < 4 + n:
                        break
                    res = json.loads(bytes(buf[4:4 + n]))
                    del buf[:4 + n]
                    yield res
    finally:
        for r, (p, _) in procs.items():
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass


# ------------------------------------------------------------------ minimisation
def _fails(mod, plan, kind):
    res = fork_run(mod, plan)
    for k, d in res.get("violations", []):
        if k == kind:
            return res
    return None


def ddmin(mod, plan, path, kind, deadline):
    """Shrink the list at plan[path] while the same kind of violation persists."""
    def get(p):
        for k in path:
            p = p[k]
        return p

    def put(p, v):
        q = copy.deepcopy(p)
        t = q
        for k in path[:-1]:
            t = t[k]
        t[path[-1]] = v
        return q
    items = get(plan)
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        shrunk = False
        for s in range(0, len(items), size):
            cand = items[:s] + items[s + size:]
            if time.monotonic() > deadline:
                break
            if _fails(mod, put(plan, cand), kind):
                items, shrunk = cand, True
                n = max(2, n - 1)
                break
        if not shrunk:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return put(plan, items)


def minimise(mod, plan, kind, budget=45.0):
    deadline = time.monotonic() + budget
    res = _fails(mod, plan, kind)
    if res is None:
        return plan, False
    if res.get("resolved") is not None:
        q = copy.deepcopy(plan)
        q["policy"] = {"switches": res["resolved"]}
        if _fails(mod, q, kind):
            plan = q
    lists = [p for p in (["ops"], ["policy", "switches"]) if _has(plan, p)]
    lists += [p for p in getattr(mod, "SHRINK_LISTS", []) if _has(plan, p)]
    for p in lists:
        plan = ddmin(mod, plan, p, kind, deadline)
    shrink = getattr(mod, "shrink", None)
    progress = shrink is not None
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in shrink(copy.deepcopy(plan)):
            if time.monotonic() > deadline:
                break
            if _fails(mod, cand, kind):
                plan, progress = cand, True
                break
    for p in lists[:1]:
        plan = ddmin(mod, plan, p, kind, deadline)
    return plan, True


def _has(plan, path):
    for k in path:
        if not isinstance(plan, dict) or k not in plan:
            return False
        plan = plan[k]
    return isinstance(plan, list) and len(plan) > 0


# --------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("open:"):
                f = dict(kv.split("=", 1) for kv in line[5:].split(" ", 3)[1:3])
                f["text"] = line
                out.append(f)
    return out


# ------------------------------------------------------------------------- main
def check(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print(f"check {pid} tier={tier} VERIF_SEED={seed} repo={core.REPO}", flush=True)
    core.bootstrap()
    mod = load(pid)
    cfg = dict(mod.CONFIG[tier])
    total = int(os.environ.get("SIM_RUNS", cfg["runs"]))
    wall = float(os.environ.get("SIM_WALL", cfg["wall"]))
    jobs = int(os.environ.get("SIM_JOBS", str(os.cpu_count() or 4)))
    known = [k for k in known_findings() if k.get("property") == pid]
    agg = {"runs": 0, "steps": 0, "faults": {}, "probes": {}, "sigs": set(), "inters": set(),
           "nontrivial": set(), "samples": []}
    bad, errors, hits = [], [], {}
    for res in sweep(mod, pid, seed, tier, total, wall, jobs):
        if "harness_error" in res:
            errors.append(res)
            if len(errors) >= 3:
                break
            continue
        agg["runs"] += 1
        agg["steps"] += res["steps"]
        for k, v in res["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in res["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["sigs"].add(res["sig"])
        if res["inter"]:
            agg["inters"].add(res["inter"])
        if res["nontrivial"]:
            agg["nontrivial"].add(res["sig"])
            if len(agg["samples"]) < 3:
                agg["samples"].append({"run": res["i"], "history": res["log"][:25],
                                       "faults": res["faults"]})
        new = []
        for kind, detail in res["violations"]:
            k = [f for f in known if f.get("kind") == kind]
            if k:
                hits[kind] = hits.get(kind, 0) + 1
            else:
                new.append((kind, detail))
        if new:
            bad.append((res["i"], new[0][0], new[0][1]))
            break
    swept = time.monotonic() - t0
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['text']} (seen {hits.get(k.get('kind'), 0)}x)")
    rc = 0
    replay = None
    if bad:
        rc = 1
        i, kind, detail = min(bad)
        plan = plan_for(mod, pid, seed, i, tier)
        small, again = minimise(mod, plan, kind)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", f"{pid}-{seed}-{i}.json")
        final = fork_run(mod, small)
        det = [d for k, d in final.get("violations", []) if k == kind] or [detail]
        with open(replay, "w") as f:
            json.dump({"property": pid, "kind": kind, "detail": det[0], "seed": [seed, i],
                       "tier": tier, "reproduced": again, "plan": small,
                       "trace": final.get("log"), "faults": final.get("faults")}, f, indent=1)
        print(f"seed={seed} run={i} kind={kind}\n  {det[0]}")
        print(f"  minimised: {len(small.get('ops', []))} operations"
              + ("" if again else " (did not reproduce: see the replay file)"))
        print(f"VIOLATION property={pid} replay={replay}", flush=True)
    elif errors:
        rc = 2
    for e in errors[:3]:
        print(f"HARNESS-ERROR run={e.get('i')}: {e['harness_error']}", file=sys.stderr)
    if rc == 0 and agg["runs"] == 0:
        print("HARNESS-ERROR nothing was explored", file=sys.stderr)
        rc = 2
    write_evidence(pid, tier, seed, mod, agg, total, swept, len(bad), time.monotonic() - t0, jobs)
    print(f"{pid} {tier}: {agg['runs']} of {total} runs in {swept:.1f} s, "
          f"{len(agg['nontrivial'])} distinct non-trivial, {agg['steps']} logical steps, "
          f"{sum(agg['faults'].values())} faults of {len(agg['faults'])} kinds, violations {len(bad)}, exit {rc}")
    if os.environ.get("SIM_VERBOSE"):
        print("probes", json.dumps(dict(sorted(agg["probes"].items())), indent=1))
    return rc


def write_evidence(pid, tier, seed, mod, agg, total, swept, nviol, wall, jobs):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    zero = [p for p in getattr(mod, "PROBES", []) if not agg["probes"].get(p)]
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE,
        "samples": agg["samples"],
        "planned_runs": total,
        "runs_per_hour": round(agg["runs"] / max(swept, 1e-9) * 3600),
        "seeds_per_hour": round(agg["runs"] / max(swept, 1e-9) * 3600),
        "simulated_time": {"unit": getattr(mod, "STEP_UNIT", "bytecode instructions of the code under "
                                                   "test executed under the simulator's control")
                           + "; the code under test reads no clock",
                           "steps": agg["steps"]},
        "faults_injected": dict(sorted(agg["faults"].items())),
        "conditions_reached": dict(sorted(agg["probes"].items())),
        "conditions_never_reached": zero,
        "distinct_histories": len(agg["sigs"]),
        "distinct_interleavings": len(agg["inters"]),
        "interleaving_measure": "hash of the sequence (thread, own step, next thread) of all switches",
        "components_real": getattr(mod, "REAL", "all of pyrayt and tinygfx, numpy, pandas, matplotlib (Agg)"),
        "components_stub": getattr(mod, "STUB", "none"),
        "workers": jobs,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
              "no failure is injected into code that cleans up after one (finally bodies, entry and exit of with blocks)"],
          "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    rec = json.load(open(path))
    core.bootstrap()
    mod = load(rec["property"])
    res = fork_run(mod, rec["plan"])
    if "harness_error" in res:
        print("HARNESS-ERROR " + res["harness_error"], file=sys.stderr)
        return 2
    for line in res["log"]:
        print("  " + line)
    for k, d in res["violations"]:
        print(f"kind={k}\n  {d}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def main(argv):
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "digest":
        # print one line per run: used to prove that a seed decides everything
        core.bootstrap()
        mod = load(argv[1])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        out = {}
        for res in sweep(mod, argv[1], seed, "quick", int(argv[2]), 600,
                         int(os.environ.get("SIM_JOBS", "8"))):
            out[res["i"]] = json.dumps(res, sort_keys=True)
        for i in sorted(out):
            print(i, out[i])
        return 0
    if argv[0] == "plan":
        core.bootstrap()
        mod = load(argv[1])
        print(json.dumps(plan_for(mod, argv[1], int(os.environ.get("VERIF_SEED", "1")),
                                  int(argv[2]), "quick"), indent=1))
        return 0
    return check(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
