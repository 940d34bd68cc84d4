"""C16: each emitted ray set is fresh and reflects the source as it is now."""
import math

from .. import core, history, lamps, ref, world

CONFIG = {"quick": {"runs": 2600, "wall": 100}, "thorough": {"runs": 90000, "wall": 820}}
RULE = ("A run holds 1-5 sources of any kind, user-defined ones included, and executes a seeded history of moves (also "
        "through groups, also rejected), wavelength changes, requests of varying sizes, edits of returned sets, requests "
        "that fail in user code or are cut short at a bytecode, requests of impossible sizes, traces, and requests by 2-4 "
        "simulated threads. Every set is judged in the source's own frame by the documented pattern, under the modelled "
        "pose; sets handed out must neither change nor share memory; sources without randomness must agree with newly "
        "built copies asked once in a pristine process. Non-trivial: at least one set judged after a disturbance.")
PROBES = ["line", "circle", "cone", "wedge", "lamp", "static", "user", "moved", "held intact", "after edit", "after failure",
          "interrupted", "same as new source", "zero rays", "one ray", "traced", "threads agree", "thread killed", "views"]
STUB = "user sources are simulated; threads are real but run one at a time under the seeded scheduler"
STEP_UNIT = "bytecode instructions of the code under test executed under the scheduler, or dry-run to place a fault"
ASSUMPTIONS = ["patterns are judged to 1e-9; circles may or may not repeat their first ray as their last",
               "a single ray of a cone or wedge may lie anywhere in its pattern or on its axis"]
COUNTS = [0, 1, 1, 2, 3, 5, 8, 17]
KINDS = [("line", 2), ("circle", 2), ("cone", 2), ("wedge", 2), ("lamp", 1), ("static", 1), ("user", 2)]
BAD_N = [-1, 2.5, "x", None]


def gen_source(rng, name):
    k = rng.weighted(KINDS)
    s = {"name": name, "kind": k, "wl": rng.num(0.3, 0.9), "ops": world.gen_ops(rng, rng.randrange(0, 3), scale=0.4)}
    if k in ("line", "circle"):
        s["args"] = [rng.pick([1, 0, rng.num(0.01, 5)])]
    elif k == "cone":
        s["args"] = [rng.pick([10, 30, 45, 90, 120, rng.num(1, 89)])]
    elif k == "wedge":
        s["args"] = [rng.pick([10, 60, 180, 300, rng.num(1, 170)])]
    elif k in ("lamp", "static"):
        s["args"] = [rng.num(0.01, 3), rng.num(0.01, 3), rng.pick([10, 45, 90, rng.num(1, 89)])]
    else:
        s["rays"] = [{"o": [rng.num(-2, 2) for _ in range(3)],
                      "d": [rng.num(0.2, 2) * rng.pick([-1, 1]) for _ in range(3)],
                      "i": rng.num(0.5, 200)} for _ in range(rng.randrange(1, 5))]
    return s


def generate(rng, i, tier):
    srcs = [gen_source(rng, f"s{k}") for k in range(rng.randrange(1, 6))]
    names = [s["name"] for s in srcs]
    users = [s["name"] for s in srcs if s["kind"] == "user"]
    plan = {"sources": srcs, "seed0": rng.randrange(1 << 30), "ops": []}
    if len(names) > 1 and rng.chance(0.4):
        plan["group"] = sorted({rng.pick(names), rng.pick(names)})
    ops = plan["ops"]
    for _ in range(rng.randrange(6, 24 if tier == "quick" else 50)):
        x = rng.random()
        n = rng.pick(names)
        c = rng.pick(COUNTS)
        if x < 0.42:
            ops.append(["get", n, c, rng.pick(lamps.EDITS) if rng.chance(0.4) else None])
            if ops[-1][3] and rng.chance(0.5):
                ops.append(["get", n, c, None])
        elif x < 0.57:
            ops.append(["tf", n, world.gen_move(rng, scale=0.4)])
        elif x < 0.61:
            ops.append(["tf", n, world.gen_bad(rng)])
        elif x < 0.66:
            if "group" in plan:
                ops.append(["tf", "g", world.gen_move(rng, scale=0.4)])
        elif x < 0.73:
            ops.append(["wl", n, rng.num(0.3, 0.9)])
        elif x < 0.80:
            ops.append(["cut", n, c, rng.weighted(history.EXCS), [round(rng.random(), 6), round(rng.random(), 6)]])
            if rng.chance(0.6):
                ops.append(["get", n, c, None])
        elif x < 0.84:
            ops.append(["bad", n, rng.pick(BAD_N)])
        elif x < 0.88:
            if users:
                u = rng.pick(users)
                ops.append(["raise", u, c, rng.weighted(history.EXCS)])
                ops.append(["get", u, c, None])
        elif x < 0.93:
            ops.append(["trace", sorted({n, rng.pick(names)}), rng.pick([1, 2, 5])])
        elif x < 0.96:
            ops.append(["anew"])
        else:
            th = [[rng.pick(names), c if rng.chance(0.6) else rng.pick(COUNTS)] for _ in range(rng.randrange(2, 5))]
            ops.append(["threads", th, history.gen_policy(rng, [3, 10, 40], 0.3),
                        [rng.randrange(len(th)), round(rng.random(), 4), rng.weighted(history.EXCS)]
                        if rng.chance(0.25) else None])
    ops.append(["anew"])
    return plan


def user_class():
    class Bench(core.pyrayt.components.Source):
        """User-defined source: listed rays in its own frame, with directions of any length."""

        def __init__(self, w, spec):
            super().__init__(spec["wl"])
            self.w, self.rays = w, spec["rays"]

        def _local_ray_generation(self, n_rays):
            self.w.on_source(self, n_rays)
            rs = core.pyrayt.RaySet(n_rays)
            core.yield_now()
            for k in range(n_rays):
                r = self.rays[k % len(self.rays)]
                rs.rays[0, :3, k] = r["o"]
                rs.rays[1, :3, k] = r["d"]
                rs.intensity[k] = r["i"]
            core.yield_now()
            rs.wavelength = self.wavelength
            return rs
    return Bench


def build(plan):
    w = world.World({"mats": {}, "comps": [], "sources": [s for s in plan["sources"] if s["kind"] != "user"]})
    cls = user_class()
    for s in plan["sources"]:
        if s["kind"] == "user":
            w.register(s["name"], cls(w, s), "user", [], None)
            for op in s["ops"]:
                w.tf(s["name"], op, quiet=True)
    if "group" in plan:
        w.make_group("g", plan["group"])
    w.log = []
    return w


def even(vals, steps, tol=1e-7):
    """Are angles evenly spaced around the circle by one of the allowed steps, in order?"""
    for st in steps:
        if all(min((vals[k + 1] - vals[k] - s * st) % (2 * math.pi),
                   (-(vals[k + 1] - vals[k] - s * st)) % (2 * math.pi)) < tol
               for k in range(len(vals) - 1) for s in (1,)) or \
           all(min((vals[k + 1] - vals[k] + st) % (2 * math.pi),
                   (-(vals[k + 1] - vals[k] + st)) % (2 * math.pi)) < tol for k in range(len(vals) - 1)):
            return True
    return False


def spread(got, lo, hi, tol):
    """Are the values evenly spaced from lo to hi, or from hi to lo?"""
    n = len(got)
    want = [lo + (hi - lo) * k / (n - 1) for k in range(n)]
    return all(abs(a - b) <= tol for a, b in zip(got, want)) or all(abs(a - b) <= tol for a, b in zip(got, want[::-1]))


def pattern(kind, spec, o, d, inten):
    """Complaint if rays in the source's own frame are not its documented pattern."""
    np = core.np
    n = o.shape[1]
    if n == 0:
        return None
    if kind in ("lamp", "static"):
        return lamps.lamp_limits(o, d, inten, *spec["args"])
    if kind == "user":
        for k in range(n):
            r = spec["rays"][k % len(spec["rays"])]
            ln = math.sqrt(sum(v * v for v in r["d"]))
            if max(abs(a - b) for a, b in zip(o[:, k], r["o"])) > 1e-9 or \
                    max(abs(a - b / ln) for a, b in zip(d[:, k], r["d"])) > 1e-9 or inten[k] != r["i"]:
                return f"ray {k} is at {o[:, k]} along {d[:, k]} with {inten[k]}, its pattern says {r}"
        return None
    if abs(inten - 100).max() > 1e-9:
        return f"intensity {inten.tolist()}"
    a = spec["args"][0]
    if kind in ("line", "circle"):
        if abs(d - np.array([[1.0], [0], [0]])).max() > 1e-9:
            return "a ray is not parallel to the axis"
        tol = 1e-9 * max(1, a)
        if abs(o[0]).max() > tol:
            return "a ray does not start in the plane of the source"
        if kind == "line":
            if abs(o[2]).max() > tol:
                return "a ray starts off the line"
            if n == 1:
                return "the only ray is not in the middle" if abs(o[1, 0]) > tol else None
            return None if spread(o[1].tolist(), -a / 2, a / 2, tol) else f"starts {o[1].tolist()} on a line of {a}"
        if abs(np.hypot(o[1], o[2]) - a / 2).max() > tol:
            return f"a ray starts off the circle of diameter {a}"
        if a > 0 and n > 1:
            if not even(np.arctan2(o[1], o[2]).tolist(), (2 * math.pi / n, 2 * math.pi / (n - 1))):
                return "rays are unevenly spread around the circle"
        return None
    if abs(o).max() > 1e-9:
        return "a ray does not start at the point of the source"
    if kind == "cone":
        ang = np.arctan2(np.hypot(d[1], d[2]), d[0])
        if n == 1:
            if min(abs(ang[0]), abs(ang[0] - math.radians(a)), abs(ang[0] - math.pi)) > 1e-9:
                return f"the only ray of a {a} degree cone is at {math.degrees(ang[0])}"
            return None
        if abs(ang - math.radians(a)).max() > 1e-7:
            return f"a ray at {math.degrees(ang[abs(ang - math.radians(a)).argmax()])} degrees in a {a} degree cone"
        return None if even(np.arctan2(d[1], d[2]).tolist(), (2 * math.pi / n,)) else "unevenly spread around the cone"
    if abs(d[2]).max() > 1e-9:
        return "a ray leaves the plane of the wedge"
    h = math.radians(a) / 2
    ang = [math.atan2(y, x) for y, x in zip(d[1], d[0])]
    if n == 1:
        return None if abs(ang[0]) <= h + 1e-9 else f"the only ray is {math.degrees(ang[0])} degrees off a {a} wedge"
    if h > math.pi - 1e-3:
        return None
    return None if spread(ang, -h, h, 1e-7) else f"angles {ang} in a wedge of {a} degrees"


class Model:
    def __init__(self, ctx, w, plan):
        self.ctx, self.w = ctx, w
        self.spec = {s["name"]: s for s in plan["sources"]}
        self.wl = {s["name"]: s["wl"] for s in plan["sources"]}
        self.held = []
        self.dist = {n: set() for n in self.spec}

    def judge(self, name, n, arr, how=""):
        ctx, kind = self.ctx, self.spec[name]["kind"]
        tail = f"{kind} {name}, {n} rays {how}(before: {sorted(self.dist[name])})"
        bad = lamps.basics(arr, n, self.wl[name])
        if bad:
            ctx.fail("malformed", f"{tail}: {bad}")
        if n:
            o, d = lamps.to_local(arr, self.w.model[name])
            size = max(1.0, abs(core.np.array(self.w.model[name])).max())
            o = core.np.where(abs(o) < 1e-10 * size * size, 0, o)
            bad = pattern(kind, self.spec[name], o, d, arr[9])
            if bad:
                ctx.fail("wrong-pattern", f"{tail}: {bad}")
        ctx.probe({0: "zero rays", 1: "one ray"}.get(n, kind))
        for p in self.dist[name]:
            ctx.nontrivial = True
            if p in ("moved", "after edit", "after failure", "interrupted"):
                ctx.probe(p)
        self.dist[name] = set()

    def disturb(self, what, name=None):
        for n in self.dist:
            if name in (None, n):
                self.dist[n].add(what)

    def hold(self, rs, name):
        """Keep a returned set; none of those held may change or share memory with it."""
        np, ctx = core.np, self.ctx
        for other, copy in self.held:
            if np.shares_memory(rs, other):
                ctx.fail("shared-memory", f"{name}: a returned set shares memory with one returned earlier")
        self.check_held()
        self.held = (self.held + [(rs, lamps.plain(rs))])[-8:]

    def check_held(self):
        for rs, copy in self.held:
            if not core.np.array_equal(lamps.plain(rs), copy):
                self.ctx.fail("held-set-changed", "a ray set returned earlier changed by itself")
            self.ctx.probe("held intact")


def check_views(ctx, rs, n, name):
    """The named parts of a returned set are views of it."""
    np = core.np
    if rs.n_rays != n or rs.rays.shape != (2, 4, n):
        ctx.fail("wrong-size", f"{name}: n_rays {rs.n_rays}, rays {rs.rays.shape}, {n} were requested")
    a = lamps.plain(rs)
    for k, f in enumerate(("generation", "intensity", "wavelength", "index", "id")):
        if not np.array_equal(np.array(getattr(rs, f)), a[8 + k]):
            ctx.fail("wrong-view", f"{name}: {f} is not row {8 + k} of the set")
    if not np.array_equal(np.array(rs.rays).reshape(8, -1), a[:8]):
        ctx.fail("wrong-view", f"{name}: rays are not the first rows of the set")
    ctx.probe("views")


def anew(ctx, plan, m):
    """Sources without randomness agree with new ones asked once, in a pristine process."""
    jobs = [[s["name"], c] for s in plan["sources"] if s["kind"] not in ("lamp", "static") for c in (3, 1)]
    if not jobs:
        return

    def go():
        w = build(plan)
        for e in m.w.log:
            w.tf(e[1], e[2])
        for k, v in m.wl.items():
            w.objs[k].wavelength = v
        return [lamps.plain(w.objs[n].generate_rays(c)).tolist() for n, c in jobs]
    want = core.in_child(go)
    for (n, c), b in zip(jobs, want):
        rs = m.w.objs[n].generate_rays(c)
        a = lamps.plain(rs)
        if abs(a - core.np.array(b)).max() > 1e-10:
            ctx.fail("differs-from-new", f"{m.spec[n]['kind']} {n}, {c} rays: not what a new source emits "
                                         f"(off by {abs(a - core.np.array(b)).max():g})")
        ctx.probe("same as new source")
        m.hold(rs, n)


def execute(ctx, plan):
    np = core.np
    w = build(plan)
    np.random.seed(plan["seed0"])
    m = Model(ctx, w, plan)
    for op in plan["ops"]:
        k = op[0]
        if k == "get":
            rs = w.objs[op[1]].generate_rays(op[2])
            m.judge(op[1], op[2], lamps.plain(rs))
            check_views(ctx, rs, op[2], op[1])
            m.hold(rs, op[1])
            if op[3] and op[2]:
                lamps.scribble(rs, op[3], np)
                m.held[-1] = (rs, lamps.plain(rs))
                m.disturb("after edit")
                ctx.fault("returned set edited")
        elif k == "tf":
            if op[1] not in w.objs:
                continue
            good, exc = w.tf(op[1], op[2])
            if good and exc is not None:
                raise exc
            if not good and exc is None:
                ctx.fail("not-rejected", f"{op} was accepted")
            for n in w.subtree(op[1]):
                m.disturb("moved" if good else "rejected transform", n)
            ctx.fault("move" if good else "rejected transform")
        elif k == "wl":
            w.objs[op[1]].wavelength = op[2]
            m.wl[op[1]] = op[2]
            if w.objs[op[1]].wavelength != op[2]:
                ctx.fail("wavelength-lost", f"{op}")
            m.disturb("wavelength", op[1])
            ctx.fault("wavelength changed")
        elif k == "cut":
            inj = core.run_injected(lambda: w.objs[op[1]].generate_rays(op[2]), op[3], op[4])
            ctx.steps += inj.total or 0
            if inj.fired:
                ctx.fault(f"{op[3]} at a bytecode of a request")
                m.disturb("interrupted", op[1])
            elif inj.caught is not None:
                raise inj.caught
            if inj.caught is None:
                m.judge(op[1], op[2], lamps.plain(inj.value), "(interrupted) ")
                m.hold(inj.value, op[1])
        elif k == "bad":
            try:
                w.objs[op[1]].generate_rays(op[2])
            except Exception:
                m.disturb("after failure", op[1])
                ctx.fault("request of an impossible size")
        elif k == "raise":
            boom = core.EXCEPTIONS[op[3]]("injected")

            def hook(kind, obj, extra):
                raise boom
            w.hooks.append(hook)
            try:
                w.objs[op[1]].generate_rays(op[2])
                ctx.fail("swallowed", f"{op}: the request returned although the source's pattern raised")
            except BaseException as e:
                if isinstance(e, core.Violation):
                    raise
            finally:
                w.hooks.remove(hook)
            m.disturb("after failure", op[1])
            ctx.fault(f"{op[3]} raised by user source")
        elif k == "trace":
            tr = core.pyrayt.RayTracer([w.objs[n] for n in op[1]],
                                       [core.cg.Sphere(800, material=core.pyrayt.materials.absorber)],
                                       rays_per_source=op[2], generation_limit=2)
            df = tr.trace()
            first = df[df["generation"] == 0].sort_values("id")
            for j, n in enumerate(op[1]):
                part = first[(first["id"] >= j * op[2]) & (first["id"] < (j + 1) * op[2])]
                if len(part) == op[2]:
                    arr = np.zeros((13, op[2]))
                    arr[0:3] = part[["x0", "y0", "z0"]].to_numpy().T
                    arr[3] = 1
                    arr[4:7] = part[["x_tilt", "y_tilt", "z_tilt"]].to_numpy().T
                    for r, f in ((9, "intensity"), (10, "wavelength"), (11, "index"), (12, "id")):
                        arr[r] = part[f].to_numpy()
                    m.judge(n, op[2], arr, "in a trace ")
                    ctx.probe("traced")
            m.check_held()
        elif k == "anew":
            anew(ctx, plan, m)
        elif k == "threads":
            threads(ctx, w, m, op)
        ctx.note(*op[:3])
    m.check_held()
    for n in sorted(m.spec):
        m.judge(n, 4, lamps.plain(w.objs[n].generate_rays(4)), "at the end ")


def threads(ctx, w, m, op):
    outs = [None] * len(op[1])

    def fn(j, name, n):
        def go():
            outs[j] = w.objs[name].generate_rays(n)
        return go
    faults = {}
    if op[3] and op[3][0] < len(op[1]):
        faults[op[3][0]] = {"k": int(op[3][1] * 400), "exc": op[3][2]}
    sch = core.Scheduler([fn(j, a, b) for j, (a, b) in enumerate(op[1])], op[2], faults)
    sch.run()
    ctx.steps += sch.step
    ctx.interleaving = sch.signature()
    ctx.note("threads", sch.overlap, sch.signature())
    ctx.fault("thread switches", sch.overlap)
    if sch.over:
        ctx.fail("no-progress", sch.over)
    m.disturb("threads")
    for j, t in enumerate(sch.threads):
        if t.fault_exc is not None:
            ctx.fault(f"{faults[j]['exc']} kills one thread")
            ctx.probe("thread killed")
        elif t.error is not None:
            raise t.error
        if outs[j] is not None:
            m.judge(*op[1][j], lamps.plain(outs[j]), f"in thread {j} of {len(outs)} ")
            m.hold(outs[j], op[1][j][0])
            ctx.probe("threads agree")
