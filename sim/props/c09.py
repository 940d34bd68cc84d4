"""C09: tracers and renderers sharing a scene do not interfere."""
import copy

from .. import core, history, world

CONFIG = {"quick": {"runs": 1800, "wall": 100}, "thorough": {"runs": 40000, "wall": 820}}
RULE = ("A run builds one scene and 2-4 tasks over it (traces by separate tracers, renders, draws, plots, ray "
        "requests), takes each task's result alone in a process of its own, then runs them as simulated threads "
        "whose switches a seeded scheduler places at any bytecode of the library (one thread may be killed at a "
        "seeded step), or runs one inside another's material or source callback, and compares. "
        "Non-trivial: at least five switches inside library code, or a nested task that really ran.")
PROBES = ["threads", "nested", "thread killed", "nested task aborted", "trace compared", "render compared",
          "plot compared", "emission compared", "same after"]
STUB = "threads are real but run one at a time under the seeded scheduler; user materials and sources are simulated"
STEP_UNIT = "bytecode instructions of the code under test executed under the scheduler"
ASSUMPTIONS = ["threads switch between bytecodes of the library, not inside numpy, pandas or matplotlib",
               "each thread uses its own tracer or renderer; scene objects are shared"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    scene = world.gen_scene(rng, ncomp=(1, 3), nsrc=(1, 2), sim=rng.pick([0.2, 0.6]), enclose=0.5,
                            factories=0.3, src_kinds=[("line", 1), ("circle", 1), ("cone", 2), ("wedge", 2),
                                                      ("script", 1.5), ("static", 1.5)])
    comps = [c["name"] for c in scene["comps"]]
    srcs = [s["name"] for s in scene["sources"]]
    tasks = []
    for k in range(rng.randrange(2, 4 if not big else 6)):
        x = rng.random()
        cs = [c for c in comps if rng.chance(0.85)] or [rng.pick(comps)]
        ss = [s for s in srcs if rng.chance(0.85)] or [rng.pick(srcs)]
        if x < 0.6:
            tasks.append(["trace", {"src": ss, "comps": cs, "n": history.gen_count(rng), "limit": rng.randrange(2, 6)}])
        elif x < 0.8:
            tasks.append(["pic", cs, rng.pick(["edge", "shaded"]),
                          [["move", [rng.num(-9, -6), rng.num(-1, 1), rng.num(-1, 1)]]] + world.gen_ops(rng, 1, scale=0)])
        elif x < 0.87:
            tasks.append(["draw", cs, rng.pick(history.VIEWS), rng.randrange(2)])
        elif x < 0.94:
            tasks.append(["show", {"src": ss, "comps": cs, "n": rng.pick(history.NS), "limit": 3},
                          rng.pick(history.VIEWS), rng.pick(history.COLORS)])
        else:
            tasks.append(["emit", rng.pick(srcs), rng.pick(history.NS)])
    if rng.chance(0.35):
        # the same kind of task several times
        t = rng.pick(tasks)
        tasks = [copy.deepcopy(t) for _ in tasks]
        for t in tasks[1:]:
            if t[0] == "pic" and rng.chance(0.7):
                t[3][0] = ["move", [rng.num(-9, -6), rng.num(-1, 1), rng.num(-1, 1)]]
            elif t[0] in ("trace", "show") and rng.chance(0.5):
                t[1]["src"] = [s for s in srcs if rng.chance(0.5)] or [rng.pick(srcs)]
            elif t[0] in ("draw", "emit") and rng.chance(0.3):
                t[2] = rng.pick(history.VIEWS if t[0] == "draw" else history.NS)
    plan = {"scene": scene, "primes": history.gen_primes(rng, scene), "tasks": tasks}
    if rng.chance(0.72):
        plan["mode"] = "threads"
        plan["policy"] = history.gen_policy(rng, [4, 15, 60, 250, 1000])
        if rng.chance(0.35):
            plan["kill"] = [rng.randrange(len(tasks)), round(rng.random(), 6), rng.weighted(history.EXCS)]
    else:
        plan["mode"] = "nested"
        plan["outer"] = 0
        plan["tasks"][0] = ["trace", {"src": srcs, "comps": comps, "n": rng.pick([3, 4, 6]), "limit": rng.randrange(2, 7)}]
        plan["at"] = [[rng.weighted([("material", 5), ("source", 1)]), rng.randrange(0, 6), rng.randrange(1, len(tasks)),
                       rng.weighted(history.EXCS) if rng.chance(0.3) else None,
                       [round(rng.random(), 6), round(rng.random(), 6)]] for _ in range(rng.randrange(1, 4))]
    return plan


def artists(ax):
    out = []
    np = core.np
    for im in ax.images:
        out.append(["image", np.asarray(im.get_array()).tolist(), [float(v) for v in im.get_extent()]])
    for q in ax.collections:
        out.append(["quiver", np.asarray(q.X).tolist(), np.asarray(q.Y).tolist(), np.asarray(q.U).tolist(),
                    np.asarray(q.V).tolist(), np.asarray(q.get_facecolors()).tolist()])
    return out


def task_fn(h, task, k):
    """A callable that runs the task with objects of its own on top of the shared scene."""
    import matplotlib.figure
    kind = task[0]
    if kind in ("trace", "show"):
        c = task[1]
        tr = core.pyrayt.RayTracer([h.objs[s] for s in c["src"]], [h.objs[s] for s in c["comps"]],
                                   rays_per_source=c["n"], generation_limit=c["limit"])
        if kind == "trace":
            return lambda: h.rows(tr.trace())
        fig = matplotlib.figure.Figure()
        ax = fig.add_subplot()

        def show():
            tr.trace()
            tr.show(view=task[2], axis=ax, color_function=task[3], resolution=12)
            return artists(ax)
        return show
    if kind == "pic":
        cam = core.cg.OrthographicCamera(6, 9.0, 1.0)
        for o in task[3]:
            h.call_tf(cam, o)
        objs = [h.objs[c] for c in task[1]]
        if task[2] == "edge":
            r = core.cg.renderers.EdgeRender(cam, objs)
        else:
            r = core.cg.renderers.ShadedRenderer(cam, objs, core.cg.Point(3, 4, 9))
        return lambda: r.render().tolist()
    if kind == "draw":
        fig = matplotlib.figure.Figure()
        ax = fig.add_subplot()

        def draw():
            core.cg.renderers.draw([h.objs[c] for c in task[1]], view=task[2], axis=ax,
                                   shaded=bool(task[3]), resolution=12)
            return artists(ax)
        return draw
    return lambda: core.np.array(h.objs[task[1]].generate_rays(task[2])).tolist()


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and world.same(a, b, 1e-9)
    return a == b


def differ(kind, got, want):
    if kind == "trace" and isinstance(want, list) and isinstance(got, list):
        return world.rows_differ(got, want)
    return None if same(got, want) else "the output differs"


def alone(h, task, k):
    """Result and number of steps of the task run alone, in a process of its own."""
    def go():
        h.hooks = []
        try:
            v, n = core.count_steps(task_fn(h, task, k))
            return [v, n]
        except Exception as e:
            return [f"{type(e).__name__}: {e}", 1000]
    return core.in_child(go)


WHAT = {"trace": "trace compared", "pic": "render compared", "draw": "plot compared", "show": "plot compared",
        "emit": "emission compared"}


def judge(ctx, task, got, want, how):
    if isinstance(want, str):
        if got != want:
            ctx.fail("interference", f"{task[0]} {how}: {str(got)[:200]}; alone it raised {want}")
        return
    d = got if isinstance(got, str) else differ(task[0], got, want)
    if d:
        ctx.fail("interference", f"{task[0]} {how} differs from the same task run alone: {d}")
    ctx.probe(WHAT[task[0]])


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def execute(ctx, plan):
    h = history.History(plan["scene"], [], plan["primes"])
    tasks = plan["tasks"]
    solo = [alone(h, t, k) for k, t in enumerate(tasks)]
    if plan["mode"] == "threads":
        ctx.probe("threads")
        fns = [task_fn(h, t, k) for k, t in enumerate(tasks)]
        faults = {}
        kill = plan.get("kill")
        if kill and kill[0] < len(tasks):
            faults[kill[0]] = {"k": int(kill[1] * solo[kill[0]][1]), "exc": kill[2]}
        sch = core.Scheduler(fns, plan["policy"], faults)
        sch.run()
        ctx.steps += sch.step
        ctx.interleaving = sch.signature()
        ctx.resolved = sch.switches
        ctx.nontrivial = sch.overlap >= 5
        ctx.note("threads", len(fns), sch.overlap, sch.signature())
        ctx.fault("thread switches", sch.overlap)
        if sch.over:
            ctx.fail("no-progress", f"the threads did not finish: {sch.over}")
        for k, t in enumerate(sch.threads):
            if k in faults and t.fault_exc is not None:
                ctx.fault(f"{faults[k]['exc']} kills one thread")
                ctx.probe("thread killed")
                continue
            got = t.value if t.error is None else f"{type(t.error).__name__}: {t.error}"
            judge(ctx, tasks[k], got, solo[k][0], f"in thread {k} of {len(fns)}")
    else:
        ctx.probe("nested")
        count = {"material": 0, "source": 0}
        depth = [0]
        bad = []

        def hook(kind, obj, extra):
            if depth[0]:
                return
            nth = count[kind]
            count[kind] += 1
            for where, n, k, exc, u in plan["at"]:
                if where != kind or n != nth or k >= len(tasks):
                    continue
                depth[0] += 1
                try:
                    fn = task_fn(h, tasks[k], k)
                    if exc:
                        inj = core.run_injected(fn, exc, u)
                        if inj.fired:
                            ctx.fault(f"{exc} at a bytecode of a nested task")
                            ctx.probe("nested task aborted")
                    else:
                        bad.append((k, outcome(fn)))
                    ctx.nontrivial = True
                    ctx.fault("task run inside a callback")
                finally:
                    depth[0] -= 1
        outer = task_fn(h, tasks[0], 0)
        h.hooks.append(hook)
        got = outcome(outer)
        h.hooks.remove(hook)
        ctx.note("nested", len(bad), sorted(count.items()))
        for k, v in bad:
            judge(ctx, tasks[k], v, solo[k][0], "inside another trace's callback")
        judge(ctx, tasks[0], got, solo[0][0], "around nested tasks")
    for k, t in enumerate(tasks):
        judge(ctx, t, outcome(task_fn(h, t, k)), solo[k][0], "run again afterwards")
        ctx.probe("same after")


def shrink(plan):
    for k in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 2 and plan["mode"] == "threads" and "switches" not in plan["policy"]:
            q = copy.deepcopy(plan)
            del q["tasks"][k]
            yield q
    if plan["mode"] == "nested":
        for k in range(len(plan["at"])):
            q = copy.deepcopy(plan)
            del q["at"][k]
            yield q
    if "kill" in plan:
        q = copy.deepcopy(plan)
        del q["kill"]
        yield q
    yield from history.shrink_scene({**plan, "tracers": [], "ops": plan["tasks"]})
