"""C02: tracing, plotting and rendering only read the scene and earlier results."""
from .. import core, history, world

CONFIG = {"quick": {"runs": 1100, "wall": 95}, "thorough": {"runs": 30000, "wall": 800}}
RULE = ("A run builds a scene and 1-2 tracers, then plays 3-9 traces, plots, draws, renders and resets, about "
        "half of them aborted by an exception at a seeded bytecode or raised by user code; around each one "
        "everything observable of every object, the emitted rays, all tables handed back earlier, the user's "
        "lists, numpy's error settings and its random state are compared. Non-trivial: at least one completed "
        "and one aborted operation were checked.")
PROBES = ["completed trace", "aborted trace", "completed plot", "aborted plot", "completed render",
          "aborted render", "tables compared", "random state compared", "source keeps its ray set",
          "emission compared", "moved between"]
STUB = "user-defined materials and sources are simulated; no other stub"
STEP_UNIT = "bytecode instructions of the code under test executed under fault control"
ASSUMPTIONS = ["the exception is raised between two bytecodes of the library, or by user code it calls; "
               "it is not raised inside numpy, pandas or matplotlib"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.25)
    kinds = [("line", 1), ("circle", 1), ("cone", 1.5), ("wedge", 1.5), ("script", 2.5), ("static", 1)]
    if rng.chance(0.3):
        kinds.append(("lamp", 2))
    scene = world.gen_scene(rng, ncomp=(1, 3 if not big else 5), sim=rng.pick([0.2, 0.6]), src_kinds=kinds)
    for s in scene["sources"]:
        if s["kind"] == "script" and rng.chance(0.5):
            s["keep"] = True
    tracers = history.gen_tracers(rng, scene, (1, 2))
    names = [c["name"] for c in scene["comps"]]
    ops = []
    for _ in range(rng.randrange(3, 9 if not big else 20)):
        t = rng.pick(tracers)["name"]
        k = rng.weighted([("trace", 5), ("show", 2), ("draw", 1), ("pic", 2), ("reset", 0.7)])
        if k == "trace":
            op = ["trace", t, rng.randrange(1 << 30)]
        elif k == "show":
            op = ["show", t, rng.pick(history.VIEWS), rng.pick(history.COLORS), rng.randrange(2), 20]
        elif k == "draw":
            op = ["draw", [c for c in names if rng.chance(0.6)] or [rng.pick(names)],
                  rng.pick(history.VIEWS), rng.randrange(2), 20]
            if rng.chance(0.3):
                op.append(history.gen_bounds(rng, op[2]))
        elif k == "pic":
            op = ["pic", [c for c in names if rng.chance(0.7)] or names[:1], rng.pick(["edge", "shaded", "shaded"])]
            op.append(rng.pick(history.LIGHTS))
        else:
            op = ["reset", t]
        if k in ("pic", "draw", "show") and rng.chance(0.25):
            op = ["cbfault", op, "shade", rng.randrange(0, 5), rng.weighted(history.CB_EXCS)]
        elif rng.chance(0.5) and k != "reset":
            op = history.gen_fault(rng, scene, tracers, op)
        ops.append(op)
        if rng.chance(0.3):
            ops.append(history.gen_edit(rng, scene, tracers, {k: 0 for k in (
                "bad", "setn", "load", "mut", "reset", "show", "draw", "render", "edit", "srcids", "abbe", "gen")}))
    cam = [["move", [rng.num(-9, -5), rng.num(-1, 1), rng.num(-1, 1)]]] + world.gen_ops(rng, 1, scale=0.2)
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops,
            "cam": cam, "err": rng.pick([None, None, {"divide": "ignore", "over": "ignore"},
                                         {"invalid": "ignore", "divide": "ignore", "under": "warn"}])}


class Session(history.History):
    def __init__(self, plan):
        super().__init__(plan["scene"], plan["tracers"], plan["primes"])
        self.light = core.np.array([3.0, 4.0, 9.0, 1.0])
        self.seen = self.light.tolist()
        cam = core.cg.OrthographicCamera(8, 9.0, 1.0)
        self.register("cam", cam, "camera", [], None)
        for o in plan["cam"]:
            self.tf("cam", o)
        self.piclist, self.bounds = {}, None

    def op_pic(self, comps, kind, light):
        """A render whose camera, shape list and light belong to the user."""
        self.light = core.np.asarray(history.lights(light), dtype=float)
        self.seen = self.light.tolist()
        objs = [self.objs[c] for c in comps]
        self.piclist = {"list": objs, "copy": list(objs)}
        if kind == "edge":
            return core.cg.renderers.EdgeRender(self.objs["cam"], objs).render()
        return core.cg.renderers.ShadedRenderer(self.objs["cam"], objs, self.light).render()


def emission(h):
    """What every source emits right now, sampled where it cannot disturb this process."""
    def go():
        out = {}
        for n, k in h.kind.items():
            if k in ("line", "circle", "cone", "wedge", "lamp", "static", "script"):
                core.np.random.seed(11)
                out[n] = core.np.array(h.objs[n].generate_rays(4)).tolist()
        return out
    hooks, h.hooks = h.hooks, []
    try:
        return core.in_child(go)
    finally:
        h.hooks = hooks


def snapshot(h, tables):
    obs = {n: world.observe(h, n, [h.model[n][i][3] for i in range(3)]) for n in h.objs}
    out = {"obs": obs, "emit": emission(h),
           "tables": [df.copy(deep=True) for df in tables],
           "err": core.np.geterr(),
           "mats": {n: float(m.index_at(0.55)) for n, m in h.mats.items() if hasattr(m, "index_at")},
           "wl": {n: o.wavelength for n, o in h.objs.items() if hasattr(o, "wavelength")},
           "live": {t: list(v) for t, v in h.live.items() if isinstance(v, list)},
           "set": {t: (tr.get_rays_per_source(), tr.get_generation_limit(),
                       [id(c) for c in tr.get_system()]) for t, tr in h.tr.items()}}
    return out


def rstate():
    s = core.np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def near(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return world.same(a, b, 1e-12)
    return a == b


def compare(ctx, h, before, tables, what):
    for n, o in before["obs"].items():
        now = world.observe(h, n, [h.model[n][i][3] for i in range(3)])
        d = sorted(k for k in set(o) | set(now) if not near(o.get(k), now.get(k)))
        if d:
            ctx.fail("object-changed", f"{what} changed {d} of {n}")
    now = emission(h)
    for n in now:
        if not near(before["emit"][n], now[n]):
            ctx.fail("emission-changed", f"{what} changed the rays emitted by {n}")
    ctx.probe("emission compared")
    for k, (df, old) in enumerate(zip(tables, before["tables"])):
        cols = list(old.columns)
        if list(df.columns) != cols or len(df) != len(old) or not near(
                df.to_numpy(dtype=float).tolist(), old.to_numpy(dtype=float).tolist()):
            ctx.fail("table-changed", f"{what} changed result table {k} handed back earlier "
                     f"({len(old)} rows, now {len(df)})")
        ctx.probe("tables compared")
    if core.np.geterr() != before["err"]:
        ctx.fail("numpy-error-settings", f"{what} left {core.np.geterr()} instead of {before['err']}")
    if h.light.tolist() != h.seen:
        ctx.fail("light-changed", f"{what} changed the light position")
    if h.bounds is not None and [c.tolist() for c in h.bounds] != h.bounds_given:
        ctx.fail("bounds-changed", f"{what} changed the bounds it was given, {h.bounds_given}, to {h.bounds}")
    if h.piclist and [id(x) for x in h.piclist["list"]] != [id(x) for x in h.piclist["copy"]]:
        ctx.fail("list-changed", f"{what} changed the list of surfaces it was given")
    for n, v in before["mats"].items():
        if not near(v, float(h.mats[n].index_at(0.55))):
            ctx.fail("material-changed", f"{what} changed the index of {n}")
    for n, v in before["wl"].items():
        if h.objs[n].wavelength != v:
            ctx.fail("wavelength-changed", f"{what} changed the wavelength of {n}")
    for t, v in before["live"].items():
        if [id(x) for x in v] != [id(x) for x in h.live[t]]:
            ctx.fail("list-changed", f"{what} changed the component list of {t}")
    for t, v in before["set"].items():
        tr = h.tr[t]
        if v != (tr.get_rays_per_source(), tr.get_generation_limit(), [id(c) for c in tr.get_system()]):
            ctx.fail("settings-changed", f"{what} changed the settings of {t}")


PROBE = {"trace": "trace", "show": "plot", "draw": "plot", "pic": "render"}


def execute(ctx, plan):
    h = Session(plan)
    if plan["err"]:
        core.np.seterr(**plan["err"])
    tables, done, gone = [], 0, 0
    for op in plan["ops"]:
        inner = op[1] if op[0] in ("abort", "cbfault") else op
        if inner[0] in ("trace", "show", "reset") and inner[1] not in h.tr:
            continue
        if inner[0] not in ("trace", "show", "draw", "pic", "reset"):
            h.do(op)
            ctx.note("edit", op[0])
            ctx.probe("moved between")
            continue
        before = snapshot(h, tables)
        deterministic = inner[0] != "trace" or not any(
            h.kind[s] in ("lamp", "static") for s in h.cfg[inner[1]]["src"])
        core.np.random.seed(abs(core.derive("r", len(tables), done)) % (1 << 32))
        if inner[0] == "trace":
            core.np.random.seed(inner[2])
        r0 = rstate()
        how = "completed"
        what = inner[0]
        try:
            if op[0] == "abort":
                inj = h.aborted(ctx, inner, op[2], op[3])
                if inj.caught is not None:
                    how, what = "aborted", f"{inner[0]} ended by {op[2]} at {inj.site}"
            elif op[0] == "cbfault":
                inj = h.callback_fault(ctx, inner, op[2], op[3], op[4])
                if inj.caught is not None:
                    how, what = "aborted", f"{inner[0]} ended by {op[4]} from user {op[2]}"
            else:
                h.do(op)
        except core.Violation:
            raise
        except Exception as e:
            how, what = "aborted", f"{inner[0]} ended by its own {type(e).__name__}"
            ctx.probe("op raised: " + inner[0])
        r1 = rstate()
        ctx.note(inner[0], how)
        if deterministic:
            if r0 != r1:
                ctx.fail("random-state", f"{what} changed numpy's random state although no random source was sampled")
            ctx.probe("random state compared")
        compare(ctx, h, before, tables, what)
        if inner[0] in PROBE:
            ctx.probe(f"{how} {PROBE[inner[0]]}")
        if how == "completed":
            done += 1
        else:
            gone += 1
        if inner[0] == "trace":
            if any(s.get("keep") and s["name"] in h.cfg[inner[1]]["src"] for s in plan["scene"]["sources"]):
                ctx.probe("source keeps its ray set")
            tables.append(h.tr[inner[1]].get_results())
            tables = tables[-6:]
    ctx.nontrivial = done > 0 and gone > 0


shrink = history.shrink_scene
