"""C01: a trace depends only on the current scene, never on history."""
from .. import core, history, world

CONFIG = {"quick": {"runs": 1800, "wall": 100}, "thorough": {"runs": 26000, "wall": 800}}
RULE = ("A run builds a scene, 1-2 tracers sharing it and plays 4-14 seeded operations (edits, settings, "
        "component-list changes, components replaced by copies, traces, plots, renders, resets, edited results, aborted traces, and work that user "
        "materials do of their own during a trace, such as tracing); every completed trace is compared row by row with a replica built and traced in a pristine process. "
        "Non-trivial: a compared trace with rows was preceded by at least one other operation.")
PROBES = ["trace after abort", "trace after load", "trace after list edit", "trace after move",
          "trace after material change", "trace after result edit", "empty result", "second tracer",
          "trace after copy", "trace within a trace", "other work within a trace"]
STUB = "user-defined materials and sources are simulated (their fates and faults are seeded); no other stub"
STEP_UNIT = "bytecode instructions of the code under test executed under fault control"
ASSUMPTIONS = ["random sources are given the same numpy seed in the session and in the replica"]


def focused(rng, i, tier):
    """One component that the rays are sure to meet, traced again after each change to it."""
    mats = world.gen_mats(rng, 3, 0.15)
    if rng.chance(0.7):
        mats["m0"] = rng.pick([{"k": "mirror"}, {"k": "mirror"}, {"k": "basic", "n": 1.5}, {"k": "glass", "name": "BK7"},
                               {"k": "sell", "c": [1.1, 0.2, 1.0, 0.008, 0.02, 103.0]}])
    x = rng.random()
    if x < 0.6:
        star = world.gen_leaf(rng, "c0", mats)
    elif x < 0.85:
        star = world.gen_tree(rng, "c0", mats, 1, spread=0.4)
    else:
        star = world.gen_factory(rng, "c0", mats)
    if star["kind"] == "plane":
        star["ops"].append(["rotate_y", [rng.num(60, 120)]])
    star["ops"] += [["move", [rng.num(2, 3), rng.num(-0.2, 0.2), rng.num(-0.2, 0.2)]]]
    comps = [star, {"name": "room", "kind": rng.pick(["sphere", "cube"]), "mat": rng.pick(sorted(mats)), "ops": []}]
    comps[1]["args"] = [8.0] if comps[1]["kind"] == "sphere" else [[-7, -8, -6], [7, 8, 6]]
    scene = {"mats": mats, "comps": comps,
             "sources": [world.gen_source(rng, "s0", [("line", 3), ("cone", 1), ("circle", 1), ("script", 0.5)])]}
    if scene["sources"][0]["kind"] == "cone":
        scene["sources"][0]["args"] = [rng.num(1, 12)]
    tracers = [{"name": f"t{k}", "src": ["s0"], "comps": ["c0", "room"], "n": rng.pick(history.NS),
                "limit": rng.randrange(3, 6), "how": "list", "srchow": "list"} for k in range(rng.pick([1, 1, 2]))]
    names = world.all_names(star)
    ops = []
    for _ in range(rng.randrange(2, 7 if tier == "quick" else 12)):
        t = rng.pick(tracers)["name"]
        ops.append(["trace", t, 1])
        for _ in range(rng.pick([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.5:
                ops.append(["tf", rng.pick([rng.pick(names), "c0", "c0"]), rng.weighted([
                    (["spin", [rng.pick("xyz"), rng.pick([180, rng.num(-40, 40), rng.num(-40, 40)])]], 5),
                    (["grow", [rng.num(0.75, 1.3) for _ in range(3)]], 2),
                    (world.gen_move(rng, span=0.3, scale=0.1), 3)])])
            elif x < 0.6:
                ops.append(["tf", "s0", world.gen_move(rng, span=0.2, scale=0)])
            elif x < 0.68:
                ops.append(["wl", "s0", rng.num(0.4, 0.7)])
            elif x < 0.74 and history.labels_of(scene):
                ops.append(["mat", rng.pick(history.labels_of(scene)), rng.pick(sorted(mats))])
            elif x < 0.8:
                ops.append(history.gen_fault(rng, scene, tracers))
            else:
                ops.append(history.gen_edit(rng, scene, tracers, {"tf": 0, "load": 0.5, "mut": 1, "show": 0.3,
                                                                         "coef": 4, "clone": 0.8}))
    ops.append(["trace", rng.pick(tracers)["name"], 1])
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops}


def during(rng, scene, tracers, t):
    """What user-defined materials do of their own while tracer t is at work: nothing that changes the scene."""
    out = []
    comps = [c["name"] for c in scene["comps"]]
    others = [x["name"] for x in tracers if x["name"] != t]
    for _ in range(rng.randrange(1, 4)):
        k = rng.weighted([("trace", 5 if others else 0), ("show", 0.5 if others else 0), ("small", 3), ("draw", 0.4),
                          ("render", 0.4), ("gen", 2), ("reset", 0.7 if others else 0), ("srcids", 0.5 if others else 0),
                          ("abbe", 1)])
        o = rng.pick(others) if others else None
        if k == "trace":
            op = ["trace", o, rng.randrange(1 << 30)]
        elif k == "small":
            op = ["small", rng.pick([c["name"] for c in scene["sources"]]), rng.sample(comps, 1), rng.randrange(1, 6),
                  rng.randrange(1, 4)]
        elif k in ("reset", "srcids"):
            op = [k, o]
        elif k == "show":
            op = ["show", o, rng.pick(history.VIEWS), rng.pick(history.COLORS), rng.randrange(2), 12]
        else:
            op = history.gen_edit(rng, scene, tracers, {x: 0 for x in (
                "tf", "bad", "mat", "clone", "coef", "wl", "setn", "setlimit", "load", "mut", "reset", "show", "edit", "srcids",
                "draw", "render", "gen", "abbe") if x != k})
        out.append([rng.randrange(0, 6), op])
    return out


def generate(rng, i, tier):
    if rng.chance(0.4):
        return focused(rng, i, tier)
    big = tier == "thorough" and rng.chance(0.25)
    scene = history.world.gen_scene(rng, ncomp=(1, 3 if not big else 5), sim=rng.pick([0.2, 0.6]),
                                    src_kinds=[("line", 1), ("circle", 1), ("cone", 2), ("wedge", 2),
                                               ("script", 2), ("lamp", 1), ("static", 1.5)], far=0.1)
    tracers = history.gen_tracers(rng, scene, (1, 2))
    ops = []
    weights = {k: (0 if rng.chance(0.3) else 1.0) for k in ("show", "render", "draw")}
    weights["clone"] = rng.pick([0, 0, 1.5])
    faulty = rng.chance(0.6)
    for _ in range(rng.randrange(4, 13 if not big else 35)):
        x = rng.random()
        if x < 0.3:
            ops.append(["trace", rng.pick(tracers)["name"], rng.randrange(1 << 30)])
        elif x < 0.45 and faulty:
            inner = None
            if rng.chance(0.25):
                inner = history.gen_edit(rng, scene, tracers)
                if inner[0] not in ("show", "render", "draw", "gen"):
                    inner = None
            ops.append(history.gen_fault(rng, scene, tracers, inner))
        else:
            ops.append(history.gen_edit(rng, scene, tracers, weights))
    ops.append(["trace", tracers[0]["name"], rng.randrange(1 << 30)])
    if rng.chance(0.5):
        ops.append(["trace", rng.pick(tracers)["name"], rng.randrange(1 << 30)])
    if rng.chance(0.4):
        for op in ops:
            if op[0] == "trace" and rng.chance(0.5):
                op.append(during(rng, scene, tracers, op[1]))
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops}


def nested(ctx, h, todo):
    """A hook that carries out operations from within a trace, when user-defined materials are called."""
    count, busy = [0], [False]

    def hook(kind, obj, extra):
        if kind != "material" or busy[0]:
            return
        mine = [op for k, op in todo if k == count[0]]
        count[0] += 1
        for op in mine:
            if op[0] in ("trace", "show", "reset", "srcids") and op[1] not in h.tr:
                continue
            state, events = core.np.random.get_state(), h.events
            busy[0] = True
            try:
                if op[0] == "small":
                    small(h, *op[1:])
                else:
                    h.do(op)
            except Exception as e:
                ctx.note("nested raised", type(e).__name__)
            finally:
                busy[0] = False
                h.events = events
                core.np.random.set_state(state)
            ctx.probe("trace within a trace" if op[0] in ("trace", "small") else "other work within a trace")
    return hook


def small(h, src, comps, n, limit):
    """A user's own little trace."""
    return core.pyrayt.RayTracer([h.objs[src]], [h.objs[c] for c in comps], n, limit).trace()


WHY = {"load": "trace after load", "mut": "trace after list edit", "tf": "trace after move",
       "mat": "trace after material change", "edit": "trace after result edit",
       "clone": "trace after copy", "abort": "trace after abort", "cbfault": "trace after abort"}


def session(ctx, plan):
    h = history.History(plan["scene"], plan["tracers"], plan["primes"])
    cps, before, last = [], 0, set()
    for op in plan["ops"]:
        try:
            if op[0] == "trace":
                if op[1] not in h.tr:
                    continue
                hook = nested(ctx, h, op[3]) if len(op) > 3 else None
                h.hooks += [hook] if hook else []
                try:
                    df = h.do(op[:3])
                finally:
                    if hook:
                        h.hooks.remove(hook)
                rows = h.rows(df)
                again = h.rows(h.tr[op[1]].get_results())
                d = world.rows_differ(again, rows)
                if d:
                    ctx.fail("results-not-the-trace", f"get_results() after trace(): {d}")
                cps.append({"recipe": h.recipe(op[1], op[2]), "rows": rows, "n": before, "form": history.form(df)})
                ctx.note("trace", op[1], len(rows))
                for k in last:
                    ctx.probe(WHY.get(k, k))
                if not rows:
                    ctx.probe("empty result")
                if op[1] != "t0":
                    ctx.probe("second tracer")
                last = set()
                if rows and before:
                    ctx.nontrivial = True
            elif op[0] == "abort":
                h.aborted(ctx, op[1], op[2], op[3])
                last.add("abort")
            elif op[0] == "cbfault":
                h.callback_fault(ctx, op[1], op[2], op[3], op[4])
                last.add("abort")
            else:
                ctx.note(op[0], *[str(a)[:30] for a in op[1:3]])
                try:
                    h.do(op)
                except core.Violation as e:
                    ctx.fail(e.kind, e.detail)
                except Exception as e:
                    ctx.note("raised", type(e).__name__)
                    ctx.probe("op raised: " + op[0])
                    if op[0] not in ("show", "draw", "render", "edit", "srcids", "abbe", "gen"):
                        ctx.fail("operation-raised", f"{op[:4]} raised {e!r}")
                if op[0] in WHY:
                    last.add(op[0])
        except core.Violation:
            break
        except Exception as e:
            if op[0] != "trace":
                raise
            cps.append({"recipe": h.recipe(op[1], op[2]), "error": f"{type(e).__name__}: {e}", "n": before})
            break
        before += 1
    return cps


def execute(ctx, plan):
    def child():
        c = core.Ctx(plan)
        cps = session(c, plan)
        return {"ctx": c.result(), "cps": cps}
    out = core.in_child(child)
    ctx.absorb(out["ctx"])
    if ctx.violations:
        return
    for cp in reversed(out["cps"]):       # replicas in an order of their own
        def rep():
            try:
                w, rows = history.replica(plan["scene"], cp["recipe"])
                return {"rows": rows, "form": w.table}
            except Exception as e:
                return {"error": f"{type(e).__name__}: {e}"}
        want = core.in_child(rep)
        if "error" in cp:
            if "error" not in want:
                ctx.fail("trace-raised", f"after {cp['n']} operations the trace raised {cp['error']}; a new tracer completes")
            ctx.probe("both raised")
            continue
        if "error" in want:
            ctx.fail("replica-raised", f"after {cp['n']} operations the trace completed; a new tracer raises {want['error']}")
        d = world.rows_differ(cp["rows"], want["rows"])
        if d:
            ctx.fail("depends-on-history", f"after {cp['n']} operations the trace differs from a new tracer's: {d}")
        if cp["form"] != want["form"]:
            ctx.fail("table-form", f"after {cp['n']} operations the result table has columns {cp['form']}, "
                     f"a new tracer's {want['form']}")
        ctx.probe("replica compared")


shrink = history.shrink_scene
