"""C11: a static lamp emits one fixed set of rays for good."""
from .. import core, history, lamps, world

CONFIG = {"quick": {"runs": 2500, "wall": 100}, "thorough": {"runs": 80000, "wall": 820}}
RULE = ("A run holds 1-4 static lamps and executes a seeded history of requests for varying counts, moves (also through "
        "a group), wavelength changes, edits to returned sets, reseeding and use of the random generator, requests "
        "interrupted at a bytecode, traces, and first requests made by 2-4 simulated threads at once. Oracle: the rays "
        "of the first request in the lamp's own frame, carried by the modelled pose, for every later request. "
        "Non-trivial: at least one repeated request after a disturbance.")
PROBES = ["first", "repeat", "repeat after move", "repeat after colour", "repeat after edit", "repeat after reseed",
          "threads agree", "held set intact", "traced", "interrupted", "many counts", "many lamps", "thread killed"]
STUB = "threads are real but run one at a time under the seeded scheduler; numpy's global generator is seeded by the plan"
STEP_UNIT = "bytecode instructions of the code under test executed under the scheduler, or dry-run to place a fault"
ASSUMPTIONS = ["'exactly' is judged to 1e-9, relative to the size of the pose's entries"]
COUNTS = [0, 1, 2, 3, 5, 17]


def generate(rng, i, tier):
    many = rng.chance(0.04)
    nl = rng.pick([130, 40]) if many and rng.chance(0.5) else rng.randrange(1, 5)
    plan = {"lamps": [], "seed0": rng.randrange(1 << 30), "ops": []}
    for k in range(nl):
        plan["lamps"].append({"name": f"s{k}", "kind": "static", "wl": rng.num(0.4, 0.7),
                              "args": [rng.num(0.01, 3), rng.num(0.01, 3), rng.pick([1, 10, 30, 60, 89.0, 90, 120])],
                              "ops": world.gen_ops(rng, rng.randrange(0, 3), scale=0.3)})
    names = [s["name"] for s in plan["lamps"]]
    if nl > 1 and rng.chance(0.3):
        plan["group"] = sorted({rng.pick(names), rng.pick(names)})
    ops = plan["ops"]
    if many:
        counts = list(range(1, 131)) if nl < 10 else COUNTS[1:3]
        pairs = [(n, c) for n in names for c in counts]
        for n, c in pairs[:300]:
            ops.append(["get", n, c, None])
        ops.append(["reseed", rng.randrange(1 << 30)])
        for _ in range(40):
            n, c = pairs[:300][rng.randrange(min(300, len(pairs)))]
            ops.append(["get", n, c, None])
        return plan
    counts = [rng.pick(COUNTS[1:]) for _ in range(2)] + [rng.pick(COUNTS)]
    for _ in range(rng.randrange(6, 22 if tier == "quick" else 40)):
        x = rng.random()
        n = rng.pick(names)
        if x < 0.42:
            ops.append(["get", n, rng.pick(counts), rng.pick(lamps.EDITS) if rng.chance(0.3) else None])
        elif x < 0.56:
            ops.append(["tf", n, world.gen_move(rng, scale=0.3)])
        elif x < 0.60:
            ops.append(["tf", n, world.gen_bad(rng)])
        elif x < 0.64 and "group" in plan:
            ops.append(["tf", "g", world.gen_move(rng, scale=0.3)])
        elif x < 0.70:
            ops.append(["wl", n, rng.num(0.3, 0.9)])
        elif x < 0.78:
            ops.append(["reseed", rng.randrange(1 << 30)])
        elif x < 0.82:
            ops.append(["burn", rng.randrange(1, 40)])
        elif x < 0.88:
            ops.append(["cut", n, rng.pick(counts), rng.weighted(history.EXCS),
                        [round(rng.random(), 6), round(rng.random(), 6)]])
        elif x < 0.92:
            ops.append(["trace", n, rng.pick([c for c in counts if c] or [3])])
        else:
            th = [[rng.pick(names), rng.pick(counts + [7])] for _ in range(rng.randrange(2, 5))]
            if rng.chance(0.6):
                th = [list(th[0]) for _ in th]
            ops.append(["threads", th, history.gen_policy(rng, [3, 10, 40], 0.3),
                        [rng.randrange(len(th)), round(rng.random(), 4), rng.weighted(history.EXCS)]
                        if rng.chance(0.25) else None])
    return plan


class Model:
    """What each lamp has emitted so far, in its own frame."""

    def __init__(self, ctx, w, plan):
        self.ctx, self.w = ctx, w
        self.spec = {s["name"]: s for s in plan["lamps"]}
        self.wl = {s["name"]: s["wl"] for s in plan["lamps"]}
        self.known = {}            # (lamp, n) -> (origins, directions, intensity)
        self.held = []             # (set as returned, copy of it)
        self.since = {}            # (lamp, n) -> disturbances since last request
        self.exact = {}            # (lamp, n) -> (pose, last set)

    def disturb(self, what, name=None):
        for k in self.known:
            if name is None or k[0] == name:
                self.since.setdefault(k, set()).add(what)

    def judge(self, name, n, arr, how):
        ctx, np = self.ctx, core.np
        bad = lamps.basics(arr, n, self.wl[name])
        if bad:
            ctx.fail("malformed", f"{name} asked for {n} rays {how}: {bad}")
        pose = self.w.model[name]
        o, d = lamps.to_local(arr, pose)
        key = (name, n)
        if key not in self.known:
            sp = self.spec[name]["args"]
            bad = lamps.lamp_limits(o, d, arr[9], *sp)
            if bad:
                ctx.fail("not-a-lamp", f"{name} asked for {n} rays {how}: {bad}")
            self.known[key] = (o, d, arr[9].copy())
            ctx.probe("first")
            return
        ko, kd, ki = self.known[key]
        wo, wd = lamps.to_world(ko, kd, pose)
        size = max(1.0, abs(np.array(pose)).max())
        for what, a, b, tol in (("start", arr[0:3], wo, 1e-9 * size * 10), ("direction", arr[4:7], wd, 1e-9),
                                ("intensity", arr[9], ki, 1e-9)):
            if n and abs(a - b).max() > tol:
                since = sorted(self.since.get(key, ()))
                ctx.fail("rays-changed", f"{name} asked again for {n} rays {how} (since then: {since}): the {what} of "
                                         f"a ray is off by {abs(a - b).max():g}")
        ctx.probe("repeat")
        for s in self.since.pop(key, ()):
            if s in ("move", "colour", "edit", "reseed"):
                ctx.probe("repeat after " + s)
            ctx.nontrivial = True

    def check_held(self):
        for rs, copy in self.held:
            if not core.np.array_equal(core.np.array(rs), copy):
                self.ctx.fail("held-set-changed", "a ray set returned earlier changed by itself")
            self.ctx.probe("held set intact")


def execute(ctx, plan):
    np = core.np
    w = world.World({"mats": {}, "comps": [], "sources": plan["lamps"]})
    if "group" in plan:
        w.make_group("g", plan["group"])
    np.random.seed(plan["seed0"])
    m = Model(ctx, w, plan)
    if len(plan["lamps"]) > 10:
        ctx.probe("many lamps")
    for op in plan["ops"]:
        k = op[0]
        if k == "get":
            rs = w.objs[op[1]].generate_rays(op[2])
            arr = lamps.plain(rs)
            m.judge(op[1], op[2], arr, "")
            m.check_held()
            if op[3]:
                lamps.scribble(rs, op[3], np)
                m.disturb("edit", op[1])
                ctx.fault("returned set edited")
                m.held.append((rs, lamps.plain(rs)))
            else:
                m.held.append((rs, arr))
            m.held = m.held[-6:]
        elif k == "tf":
            if op[1] not in w.objs:
                continue
            good, exc = w.tf(op[1], op[2])
            if good and exc is not None:
                ctx.fail("unexpected-exception", f"{op}: {exc!r}")
            for n in w.subtree(op[1]):
                m.disturb("move", n)
            ctx.fault("move" if good else "rejected transform")
        elif k == "wl":
            w.objs[op[1]].wavelength = op[2]
            m.wl[op[1]] = op[2]
            m.disturb("colour", op[1])
            ctx.fault("wavelength changed")
        elif k == "reseed":
            np.random.seed(op[1])
            m.disturb("reseed")
            ctx.fault("generator reseeded")
        elif k == "burn":
            np.random.random_sample(op[1])
            m.disturb("reseed")
            ctx.fault("generator used by others")
        elif k == "cut":
            inj = core.run_injected(lambda: w.objs[op[1]].generate_rays(op[2]), op[3], op[4])
            ctx.steps += inj.total or 0
            if inj.fired:
                ctx.fault(f"{op[3]} at a bytecode of a request")
                ctx.probe("interrupted")
                m.disturb("interrupted", op[1])
                if inj.caught is None:      # the lamp may deal with the fault, but then its rays count
                    m.judge(op[1], op[2], lamps.plain(inj.value), "(interrupted)")
            elif inj.caught is not None:
                raise inj.caught
            else:
                m.judge(op[1], op[2], lamps.plain(inj.value), "")
        elif k == "trace":
            tr = core.pyrayt.RayTracer([w.objs[op[1]]], [core.cg.Sphere(500, material=core.pyrayt.materials.absorber)],
                                       rays_per_source=op[2], generation_limit=1)
            df = tr.trace()
            arr = np.zeros((13, op[2]))
            df = df[df["generation"] == 0].sort_values("id")
            if len(df) == op[2] and all(df["intensity"] >= 0.1):
                arr[0:3] = df[["x0", "y0", "z0"]].to_numpy().T
                arr[3] = 1
                arr[4:7] = df[["x_tilt", "y_tilt", "z_tilt"]].to_numpy().T
                arr[9], arr[10], arr[11], arr[12] = [df[c].to_numpy() for c in ("intensity", "wavelength", "index", "id")]
                m.judge(op[1], op[2], arr, "by a trace")
                ctx.probe("traced")
        elif k == "threads":
            outs = [None] * len(op[1])

            def fn(j, name, n):
                def go():
                    outs[j] = lamps.plain(w.objs[name].generate_rays(n))
                return go
            faults = {}
            if op[3] and op[3][0] < len(op[1]):
                faults[op[3][0]] = {"k": int(op[3][1] * 400), "exc": op[3][2]}
            sch = core.Scheduler([fn(j, a, b) for j, (a, b) in enumerate(op[1])], op[2], faults)
            sch.run()
            ctx.steps += sch.step
            ctx.interleaving = sch.signature()
            ctx.note("threads", sch.overlap, sch.signature())
            ctx.fault("thread switches", sch.overlap)
            if sch.over:
                ctx.fail("no-progress", sch.over)
            for j, t in enumerate(sch.threads):
                if t.fault_exc is not None:
                    ctx.fault(f"{faults[j]['exc']} kills one thread")
                    ctx.probe("thread killed")
                elif t.error is not None:
                    raise t.error
                if outs[j] is not None:
                    m.judge(op[1][j][0], op[1][j][1], outs[j], f"in thread {j} of {len(outs)}")
                    m.disturb("threads")
                    ctx.probe("threads agree")
        ctx.note(*op[:3])
    m.check_held()
    if len(m.known) >= 100:
        ctx.probe("many counts")
    for (name, n) in sorted(m.known):
        m.judge(name, n, lamps.plain(w.objs[name].generate_rays(n)), "at the end")
