"""C04: an aborted trace never exposes torn results."""
from .. import core, history, world

CONFIG = {"quick": {"runs": 900, "wall": 95}, "thorough": {"runs": 42000, "wall": 800}}
RULE = ("A run builds a scene and 1-2 tracers, then plays 1-5 traces that are aborted by an error, interrupt or "
        "memory exhaustion raised at a seeded bytecode of the library (or of pandas under it) or by user code, "
        "with completed traces and edits between them; after each abort the results on offer are compared with "
        "the previous ones and with the whole-generation prefixes of the same trace run undisturbed. "
        "Non-trivial: an aborted trace had rows in its undisturbed version.")
PROBES = ["left old results", "left nothing", "left a proper prefix", "left everything", "aborted after completed",
          "aborted after aborted", "callback abort", "many rays", "interrupted inside pandas", "table handed out during the trace",
          "recording when user code failed"]
STUB = "user-defined materials and sources are simulated; no other stub"
STEP_UNIT = "bytecode instructions executed under fault control"
ASSUMPTIONS = ["an interrupt inside numpy's C code is represented by one at the bytecode boundary around it"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.25)
    scene = world.gen_scene(rng, ncomp=(1, 3 if not big else 5), sim=rng.pick([0.3, 0.8]), enclose=0.75,
                            src_kinds=[("line", 1), ("circle", 1), ("cone", 2), ("wedge", 2), ("script", 2),
                                       ("lamp", 0.7), ("static", 1)])
    tracers = history.gen_tracers(rng, scene, (1, 2), (1, 8))
    many = rng.chance(0.08)
    if many:
        # rows of one generation may be recorded in several steps when there are many
        for t in tracers:
            t["n"] = rng.pick(history.MANY)
    ops = []
    for _ in range(rng.randrange(1, (5 if not big else 12) if not many else 3)):
        for _ in range(rng.randrange(0, 2)):
            ops.append(history.gen_edit(rng, scene, tracers, {
                "bad": 0, "show": 0.3, "draw": 0, "render": 0, "abbe": 0, "edit": 0, "srcids": 0.6}))
        if rng.chance(0.5):
            ops.append(["trace", rng.pick(tracers)["name"], rng.randrange(1 << 30)])
        f = history.gen_fault(rng, scene, tracers)
        if not many and rng.chance(0.15):
            # user code that fails while a trace records other rows than the completed one before it
            t = rng.pick(tracers)["name"]
            ops += [["trace", t, rng.randrange(1 << 30)],
                    history.gen_edit(rng, scene, tracers, {"bad": 0, "show": 0, "draw": 0, "render": 0, "abbe": 0, "edit": 0})]
            f = ["cbfault", ["trace", t, rng.randrange(1 << 30)], "material", rng.randrange(0, 16),
                 rng.pick(history.CB_EXCS)[0]]
        if f[0] == "abort":
            x = rng.random()
            if many and x < 0.6:
                f = f + [rng.pick(["_RayTraceDataframe", "_pyrayt.py"]), rng.randrange(2)]
            elif x < 0.2:
                f = ["abort", f[1], "KeyboardInterrupt", f[3], "", 1]
            elif x < 0.55:
                f = f + [rng.pick(["_pyrayt.py", "_pyrayt.py:RayTracer._st_interact", "_pyrayt.py:RayTracer._st_init",
                                   "_pyrayt.py:RayTracer.trace", "_RayTraceDataframe", "_st_propagate", "reset"]), 0]
            else:
                f = f + ["", 0]
        ops.append(f)
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops}


def undisturbed(h, t, seed):
    """The same trace by a new tracer over the same objects, in a process of its own."""
    def go():
        c = h.cfg[t]
        h.hooks = []
        core.np.random.seed(seed)
        try:
            tr = core.pyrayt.RayTracer([h.objs[s] for s in c["src"]], [h.objs[s] for s in c["comps"]],
                                       rays_per_source=c["n"], generation_limit=c["limit"])
            return h.rows(tr.trace())
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    return core.in_child(go)


def order(rows):
    return sorted(rows, key=lambda r: (r[0], r[1]))


def judge(ctx, h, t, old, full, what, begun=False):
    now = h.rows(h.tr[t].get_results())
    if isinstance(full, str):
        ctx.probe("undisturbed trace raised")
        return
    same_old = world.rows_differ(now, old) is None
    gens = sorted({r[0] for r in full})
    present = {r[0] for r in now}
    k = len(present)
    want = order([r for r in full if r[0] in gens[:k]])
    d = world.rows_differ(order(now), want)
    if d is None:
        ctx.probe("left nothing" if k == 0 else "left everything" if k == len(gens) else "left a proper prefix")
        return
    if same_old and begun:
        ctx.fail("old-results-return", f"after {what} the previous {len(old)} rows are on offer again, although the aborted "
                                       "trace had recorded rows by then")
    if same_old:
        ctx.probe("left old results")
        return
    ctx.fail("torn-results", f"after {what} the {len(now)} rows on offer are neither the previous {len(old)} nor "
             f"the first {k} generations of the aborted trace: {d}")


def execute(ctx, plan):
    h = history.History(plan["scene"], plan["tracers"], plan["primes"])
    state = {}
    for op in plan["ops"]:
        if op[0] in ("abort", "cbfault"):
            t, seed = op[1][1], op[1][2]
            if t not in h.tr:
                continue
            full = undisturbed(h, t, seed)
            old = h.rows(h.tr[t].get_results())
            begun = []

            def look():
                rows = h.rows(h.tr[t].get_results())
                if rows and world.rows_differ(rows, old):
                    begun.append(1)
                    ctx.probe("recording when user code failed")
            if op[0] == "abort":
                only, deep = (op[4] if len(op) > 4 else ""), (op[5] if len(op) > 5 else 0)
                inj = h.aborted(ctx, op[1], op[2], op[3], only or None, core.in_repo_or_pandas if deep else None)
                exc = op[2]
                if deep and inj.fired and not inj.site.startswith(("pyrayt", "tinygfx")):
                    ctx.probe("interrupted inside pandas")
            else:
                inj = h.callback_fault(ctx, op[1], op[2], op[3], op[4], look)
                exc = op[4]
                deep = 0
                if inj.fired:
                    ctx.probe("callback abort")
            if inj.fired and h.cfg[t]["n"] >= 40:
                ctx.probe("many rays")
            what = f"a trace ended by {exc} at {inj.site or 'user code'}"
            if inj.fired and not inj.reached_caller:
                outside = deep and not inj.site.startswith(("pyrayt", "tinygfx"))
                if not outside:
                    ctx.fail("failure-swallowed", f"{what}: the caller got "
                             f"{'a result' if inj.caught is None else repr(inj.caught)} instead")
            if inj.fired:
                ctx.probe("aborted after " + state.get(t, "nothing"))
                if inj.caught is not None:
                    state[t] = "aborted"
            if inj.fired and full and not isinstance(full, str):
                ctx.nontrivial = True
            if inj.caught is not None:
                judge(ctx, h, t, old, full, what, bool(begun))
            elif not isinstance(full, str):
                d = world.rows_differ(order(h.rows(inj.value)), order(full))
                if d:
                    ctx.fail("wrong-results", f"a trace that completed differs from its undisturbed version: {d}")
        elif op[0] == "trace":
            if op[1] not in h.tr:
                continue
            seen = []

            def hook(kind, obj, extra):
                df = h.tr[op[1]].get_results()
                if len(df) and (not seen or seen[-1][0] is not df):
                    seen.append((df, h.rows(df)))
            full = undisturbed(h, op[1], op[2])
            h.hooks.append(hook)
            try:
                rows = h.rows(h.do(op))
            except Exception as e:
                if isinstance(full, str):
                    continue
                ctx.fail("trace-raised", f"{e!r}")
            finally:
                h.hooks.remove(hook)
            if isinstance(full, str):
                ctx.fail("trace-raised", f"undisturbed trace: {full}")
            d = world.rows_differ(order(rows), order(full))
            if d:
                ctx.fail("wrong-results", f"a completed trace differs from a new tracer's: {d}")
            if seen:
                ctx.probe("table handed out during the trace", len(seen))
            state[op[1]] = "completed"
        else:
            h.do(op)
            ctx.note(op[0])


shrink = history.shrink_scene
