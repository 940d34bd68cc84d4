"""C05: every trace terminates within its generation limit."""
from .. import core, history, world

CONFIG = {"quick": {"runs": 1200, "wall": 95}, "thorough": {"runs": 36000, "wall": 800}}
RULE = ("A run builds a scene that traps rays (closed cavities, total internal reflection) with materials that "
        "re-energise, re-aim, relabel or corrupt rays by seeded fate, and plays 1-5 traces, changing the limit "
        "between and, from user callbacks, during them, or tracing scenes of their own from within them; aborted traces "
        "and resets lie between. Rounds of propagation are counted at the components; a logical step budget catches a trace that would not end. "
        "Non-trivial: some trace was ended by its limit or had its limit changed under way.")
PROBES = ["ended by limit", "ended by itself", "limit lowered under way", "limit raised under way",
          "limit below the current generation", "corrupted rays", "closed cavity", "trace after abort",
          "limit set by a source", "hundreds of generations", "traces within a trace"]
STUB = "user-defined materials and sources are simulated; the components' intersect is counted, not replaced"
STEP_UNIT = "bytecode instructions of the code under test executed"
ASSUMPTIONS = ["a limit changed during a round binds from the next round on"]
FATES = [["reflect", 4], ["refract", 1.5, 1.5], ["scatter", 3], ["pass", 1.5], ["dim", 1, 0.2], ["dim", 1, 3.0],
         ["power", 1, 100.0], ["power", 0.7, float("nan")], ["power", 0.6, float("inf")], ["absorb", 0.4],
         ["stretch", 1, 0.5], ["stretch", 0.5, 1e-9], ["nan", 0.5], ["nanpos", 0.4], ["inf", 0.5],
         ["reid", 0.8, 0], ["reid", 0.4, -5], ["regen", 1, 0], ["regen", 1, -3], ["regen", 0.6, 1e6],
         ["regen", 0.4, float("nan")], ["index", 0.6, 2.5], ["index", 0.3, 0.0], ["index", 0.2, float("nan")]]
CORRUPT = ("nan", "nanpos", "inf", "reid", "regen")


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    scene = world.gen_scene(rng, ncomp=(0, 2 if not big else 4), sim=rng.pick([1.0, 0.7, 0.2]), factories=0.2,
                            fates=rng.pick([FATES, FATES, FATES[:8]]), enclose=1.0 if rng.chance(0.8) else 0.5,
                            src_kinds=[("line", 1), ("cone", 2), ("wedge", 2), ("script", 2), ("lamp", 0.5)])
    if not scene["comps"]:
        scene["comps"].append({"name": "c0", "kind": "sphere", "mat": sorted(scene["mats"])[0],
                               "args": [5.0], "ops": []})
    if rng.chance(0.3):
        scene["mats"]["m0"] = rng.pick([{"k": "mirror"}, {"k": "basic", "n": 2.4}])
        for c in scene["comps"]:
            if c["name"] == "room":
                c["mat"] = "m0"
    tracers = history.gen_tracers(rng, scene, (1, 2), (1, 13 if not big else 40))
    if rng.chance(0.02):
        history.lengthen(rng, scene, tracers[0])
        if rng.chance(0.6):         # one ray, hardly anything in its way, and no end to it
            tracers[0]["limit"] = rng.pick([600, 1100, 1100])
            tracers[0]["comps"], tracers[0]["src"] = ["room"], tracers[0]["src"][:1]
            scene["comps"] = [c for c in scene["comps"] if c["name"] == "room"]
            scene["sources"] = [s for s in scene["sources"] if s["name"] in tracers[0]["src"]]
            return {"scene": scene, "tracers": tracers[:1], "primes": [],
                    "ops": [["trace", tracers[0]["name"], rng.randrange(1 << 30), [], None]]}
    ops = []
    for _ in range(rng.randrange(1, 5 if not big else 10)):
        for _ in range(rng.randrange(0, 3)):
            if rng.chance(0.3):
                ops.append(history.gen_fault(rng, scene, tracers))
            else:
                ops.append(history.gen_edit(rng, scene, tracers, {
                    "setlimit": 4, "tf": 2, "bad": 0, "show": 0, "draw": 0, "render": 0, "abbe": 0, "edit": 0, "srcids": 0,
                    "coef": 0, "wl": 0, "gen": 0}))
        changes = []
        if rng.chance(0.5):
            for _ in range(rng.randrange(1, 3)):
                changes.append([rng.weighted([("material", 4), ("source", 1)]), rng.randrange(0, 9), rng.randrange(1, 12)])
        nest = None
        if rng.chance(0.2):         # user code that traces a scene of its own whenever it is called
            nest = [rng.randrange(1, 4), rng.randrange(1, 4), rng.pick(["material", "source", "any"]), rng.chance(0.5)]
        ops.append(["trace", rng.pick(tracers)["name"], rng.randrange(1 << 30), changes, nest])
    return {"scene": scene, "tracers": tracers, "primes": [], "ops": ops}


class Inner:
    """A scene of its own, traced from within callbacks of another trace."""

    def __init__(self, ctx, limit, reset):
        comps = core.pyrayt.components
        box = core.cg.Sphere(3, material=core.pyrayt.materials.mirror)
        self.ctx, self.limit = ctx, limit
        self.tr = core.pyrayt.RayTracer([comps.LineOfRays()], [box], 1, limit)
        self.reset = reset
        self.busy, self.calls = False, 0

    def __call__(self):
        if self.busy:
            return
        self.busy = True
        try:
            df = self.tr.trace()
        finally:
            self.busy = False
        self.calls += 1
        if self.reset:
            self.tr.reset()
        gens = [float(g) for g in df["generation"]]
        if gens and max(gens) >= self.limit:
            self.ctx.fail("generation-beyond-limit", f"a trace from within another trace recorded generation "
                          f"{max(gens)}, its limit is {self.limit}")


class Rounds:
    """Counts, per component, how often it is asked where rays meet it."""

    def __init__(self, objs):
        self.objs, self.n = objs, [0] * len(objs)
        self.cap = None

    def __enter__(self):
        for k, o in enumerate(self.objs):
            o.intersect = self.wrap(k, o.intersect)
        return self

    def wrap(self, k, fn):
        def intersect(rays):
            self.n[k] += 1
            if self.cap is not None and self.n[k] > self.cap:
                raise core.StepBudget("rounds")
            return fn(rays)
        return intersect

    def __exit__(self, *a):
        for o in self.objs:
            del o.__dict__["intersect"]


def calls_per_round(h, t):
    """How often one round asks each component: measured on a trace limited to one round."""
    def go():
        h.hooks = []
        c = h.cfg[t]
        objs = [h.objs[n] for n in c["comps"]]
        tr = core.pyrayt.RayTracer([h.objs[s] for s in c["src"]], objs, rays_per_source=c["n"], generation_limit=1)
        with Rounds(objs) as r:
            r.cap = 1000
            core.count_steps(tr.trace, 2_000_000)
        return r.n
    return core.in_child(go)


def execute(ctx, plan):
    h = history.History(plan["scene"], plan["tracers"], [])
    aborted = False
    corrupt = {n for n, m in plan["scene"]["mats"].items()
               if m["k"] == "sim" and any(f[0] in CORRUPT for f in m["fates"])}
    used = {s["mat"] for c in plan["scene"]["comps"] for s in world.leaf_specs(c)}
    for op in plan["ops"]:
        if op[0] == "abort":
            if op[1][1] in h.tr:
                h.aborted(ctx, op[1], op[2], op[3])
                aborted = True
            continue
        if op[0] == "cbfault":
            if op[1][1] in h.tr:
                h.callback_fault(ctx, op[1], op[2], op[3], op[4])
                aborted = True
            continue
        if op[0] != "trace":
            h.do(op)
            ctx.note(op[0], *[str(a)[:20] for a in op[1:3]])
            continue
        t = op[1]
        if t not in h.tr:
            continue
        tr, cfg = h.tr[t], h.cfg[t]
        try:
            per = calls_per_round(h, t)
        except core.HarnessError as e:
            if "StepBudget" in str(e):
                ctx.fail("no-end", f"a trace limited to one generation did not end within the step budget")
            raise
        bound = [cfg["limit"]]
        objs = [h.objs[n] for n in cfg["comps"]]
        seen = {"material": 0, "source": 0}
        nest = op[4] if len(op) > 4 else None
        inner = Inner(ctx, nest[1], nest[3]) if nest else None
        if inner:
            ctx.probe("traces within a trace")

        with Rounds(objs) as r:
            def rounds():
                return max([-(-n // p) for n, p in zip(r.n, per) if p] or [0])

            def setcap():
                r.cap = max(per + [1]) * (bound[0] + 1)

            def hook(kind, obj, extra):
                k = seen[kind]
                seen[kind] += 1
                for where, nth, limit in op[3]:
                    if where == kind and nth == k:
                        now = rounds()
                        ctx.probe("limit raised under way" if limit > cfg["limit"] else "limit lowered under way")
                        if limit < now:
                            ctx.probe("limit below the current generation")
                        if kind == "source":
                            ctx.probe("limit set by a source")
                        ctx.nontrivial = True
                        ctx.fault("limit changed during a trace")
                        tr.set_generation_limit(limit)
                        cfg["limit"] = limit
                        bound[0] = max(now, limit)
                        setcap()
                if inner and seen[kind] % nest[0] == 0 and nest[2] in (kind, "any") and inner.calls < 60:
                    inner()
            setcap()
            h.hooks.append(hook)
            core.np.random.seed(op[2])
            try:
                df, steps = core.count_steps(tr.trace, 60_000 * (max(13, bound[0]) + 2) * (1 + len(objs))
                                              * (4 if inner else 1))
                ctx.steps += steps
            except core.StepBudget as e:
                ctx.fail("no-end", f"the trace was still running after {rounds()} rounds of propagation "
                         f"(limit in force {cfg['limit']}): {e}")
            except core.Violation:
                raise
            except Exception as e:
                ctx.fail("trace-raised", f"the trace raised {e!r} instead of returning")
            finally:
                h.hooks.remove(hook)
            n = rounds()
        if n > bound[0]:
            ctx.fail("too-many-rounds", f"{n} rounds of propagation, limit in force {bound[0]}")
        gens = sorted({float(g) for g in df["generation"]}) if len(df) else []
        bad = [g for g in gens if not g < bound[0] or g < 0]
        if bad:
            ctx.fail("generation-beyond-limit", f"segments numbered {bad}, limit in force {bound[0]}")
        if n > len(gens) + 1:
            ctx.fail("kept-alive", f"{n} rounds of propagation but only {len(gens)} generations of living rays were recorded")
        ctx.note("trace", t, n, len(gens), len(df))
        if n >= 600:
            ctx.probe("hundreds of generations")
        if n == bound[0]:
            ctx.probe("ended by limit")
            ctx.nontrivial = True
        else:
            ctx.probe("ended by itself")
        if corrupt & used:
            ctx.probe("corrupted rays")
        if "room" in cfg["comps"]:
            ctx.probe("closed cavity")
        if aborted:
            ctx.probe("trace after abort")


shrink = history.shrink_scene
