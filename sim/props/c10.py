"""C10: no two objects ever share an identity, and hits name the right one."""
import gc
import itertools

from .. import core, history, ref, world

CONFIG = {"quick": {"runs": 1500, "wall": 100}, "thorough": {"runs": 40000, "wall": 820}}
RULE = ("A run starts from a process that has already created a seeded number of objects (0 to 2^33), constructs "
        "objects of every class in 1-4 simulated threads switched at any bytecode, with constructors that fail (user "
        "subclasses raising before or after the base class, injected exceptions, a killed thread), objects that are "
        "discarded and collected, and then traces and renders a scene built in that process. Checked: every id ever "
        "seen is new; ids never change; each recorded surface is the one the independent reference says is hit, and "
        "the same as in a process that starts from zero. "
        "Non-trivial: at least five objects and a fault, a discard or a switch inside a constructor.")
PROBES = ["threads", "single", "construction failed", "leaked object kept", "discarded", "hit named", "same as from zero",
          "picture same as from zero", "shared object asked", "base beyond 2^24", "base beyond 2^31", "thread killed", "very many objects"]
STUB = "threads are real but run one at a time under the seeded scheduler; user materials and sources are simulated"
STEP_UNIT = "bytecode instructions of the code under test executed under the scheduler"
ASSUMPTIONS = ["a process that has created very many objects is simulated by advancing the library's own id counter",
               "copying an object (copy.deepcopy) is not constructing one"]
BASES = [0, 0, 100, 2 ** 8 - 4, 2 ** 15 - 4, 2 ** 16 - 4, 2 ** 24 - 4, 2 ** 24 + 1, 2 ** 31 - 4, 2 ** 32 - 4, 2 ** 33 + 1]

KINDS = [("sphere", 3), ("cube", 2), ("cyl", 2), ("parab", 1), ("plane", 2), ("line", 1), ("circle", 1), ("cone", 1),
         ("wedge", 1), ("lamp", 1), ("static", 1), ("camera", 1), ("group", 1), ("union", 1), ("difference", 1),
         ("intersect", 1), ("lens", 1), ("mirror", 1), ("prism", 1), ("bare", 2), ("bad-before", 1.5),
         ("bad-after", 1.5), ("bad-args", 1.5), ("leaky", 1), ("user", 1)]


def generate(rng, i, tier):
    big = tier == "thorough"
    nt = rng.weighted([(1, 1), (2, 3), (3, 2), (4, 1)])
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randrange(3, 9 if not big else 16)):
            x = rng.random()
            if x < 0.8:
                ops.append(["make", rng.weighted(KINDS)])
            elif x < 0.88:
                ops.append(["fail", rng.weighted(KINDS[:-6]), rng.weighted(history.EXCS),
                            [round(rng.random(), 6), round(rng.random(), 6)]])
            else:
                ops.append(["drop", rng.random()])
        tasks.append(ops)
    if rng.chance(0.06):
        # a session that builds very many objects at once, in one or several threads
        for ops in tasks if rng.chance(0.3) else [rng.pick(tasks)]:
            ops.insert(rng.randrange(len(ops) + 1), ["bulk", rng.pick(["bare", "bare", "plane", "sphere"]),
                                                     rng.pick([70, 140, 300, 540])])
    shared = []
    if rng.chance(0.5):
        # objects that several threads use, none of which has been asked for its id before
        shared = [rng.weighted(KINDS[:-6]) for _ in range(rng.randrange(1, 4))]
        for ops in tasks:
            for _ in range(rng.randrange(1, 4)):
                ops.insert(rng.randrange(len(ops) + 1) if rng.chance(0.5) else 0,
                           ["ask", rng.randrange(8), rng.pick(["id", "id", "surface_ids", "intersect"])])
    plan = {"base": rng.pick(BASES), "ops": tasks, "shared": shared,
            "policy": history.gen_policy(rng, [2, 5, 15, 60, 250], 0.4)}
    if nt > 1 and rng.chance(0.25):
        plan["kill"] = [rng.randrange(nt), rng.randrange(20, 6000), rng.weighted(history.EXCS)]
    if rng.chance(0.6):
        crowd = rng.chance(0.012)
        scene = world.gen_scene(rng, ncomp=(1, 3) if not crowd else (131, 140), nsrc=(1, 2), sim=0.3,
                                factories=0.15 if not crowd else 0, depth=2 if not crowd else 1, enclose=0.5)
        plan["scene"] = scene
        plan["n"] = rng.pick([3, 4, 6])
        plan["limit"] = rng.randrange(1, 4)
        plan["cam"] = [["move", [rng.num(-9, -7), rng.num(-1, 1), rng.num(-1, 1)]]]
    return plan


def advance(base):
    """A process that has already created `base` objects."""
    co = core.cg.world_objects.CountedObject
    now = co().get_id()
    if base <= now + 1:
        return now + 1
    if isinstance(co.__dict__.get("_ids"), itertools.count):
        co._ids = itertools.count(base)
    else:
        for _ in range(min(base - now - 1, 70000)):
            last = co()
        return last.get_id() + 1
    return base


class Maker:
    def __init__(self):
        cg, comp = core.cg, core.pyrayt.components
        m = self
        self.leaked = []

        class BadBefore(cg.Sphere):
            def __init__(self):
                raise RuntimeError("user constructor fails early")

        class BadAfter(cg.Cuboid):
            def __init__(self):
                super().__init__()
                core.yield_now()
                raise RuntimeError("user constructor fails late")

        class Leaky(comp.LineOfRays):
            def __init__(self):
                super().__init__(1)
                m.leaked.append(self)
                core.yield_now()
                raise RuntimeError("user constructor fails after publishing itself")

        class User(cg.Sphere):
            def __init__(self, r):
                core.yield_now()
                super().__init__(r)
                core.yield_now()

        self.user = {"bad-before": BadBefore, "bad-after": BadAfter, "leaky": Leaky, "user": lambda: User(2)}

    def make(self, kind):
        """Returns all the objects the construction yields."""
        cg, comp = core.cg, core.pyrayt.components
        if kind in self.user:
            return [self.user[kind]()]
        if kind == "bad-args":
            return [cg.Cylinder(1, 1, 1, None, "too", "many", "arguments")]
        if kind in ("union", "difference", "intersect"):
            a, b = cg.Sphere(1), cg.Cuboid()
            return [a, b, getattr(cg.csg, kind)(a, b)]
        if kind == "group":
            a = cg.Sphere(1)
            return [a, cg.ObjectGroup([a])]
        if kind in ("lens", "mirror", "prism"):
            o = {"lens": lambda: comp.thick_lens(2, -2, 0.5), "mirror": lambda: comp.spherical_mirror(3, 0.2),
                 "prism": lambda: comp.equilateral_prism(1, 1)}[kind]()
            return [o] + [s for _, s in o.surface_ids if s is not o]
        one = {"sphere": lambda: cg.Sphere(1), "cube": lambda: cg.Cuboid(), "cyl": lambda: cg.Cylinder(),
               "parab": lambda: cg.Paraboloid(), "plane": lambda: cg.XYPlane(), "line": lambda: comp.LineOfRays(),
               "circle": lambda: comp.CircleOfRays(), "cone": lambda: comp.ConeOfRays(20),
               "wedge": lambda: comp.WedgeOfRays(30), "lamp": lambda: comp.Lamp(1, 1), "bare": lambda: cg.WorldObject(),
               "static": lambda: comp.StaticLamp(1, 1), "camera": lambda: cg.OrthographicCamera(4, 1, 1)}[kind]
        return [one()]


def execute(ctx, plan):
    base = advance(plan["base"])
    if base >= 2 ** 31 - 4:
        ctx.probe("base beyond 2^31")
    if base >= 2 ** 24 - 4:
        ctx.probe("base beyond 2^24")
    maker = Maker()
    seen = []                      # (id, what, object or None once discarded)
    made = [0]
    pool = [o for kind in plan.get("shared", ()) for o in maker.make(kind)]
    answers = []                   # (place in the pool, id, thread)

    def ask(k, j, how):
        o = pool[j]
        if how == "intersect" and isinstance(o, core.cg.world_objects.TracerSurface):
            hits, surf = o.intersect(world.fixed_rays())
            found = {int(v) for v in surf[core.np.isfinite(hits)].ravel()} or {o.get_id()}
        elif how == "surface_ids" and isinstance(o, core.cg.world_objects.TracerSurface):
            found = {i for i, _ in o.surface_ids}
        else:
            found = {o.get_id()}
        answers.extend((j, i, k) for i in found)

    def task(k, ops):
        def run():
            mine = []
            for op in ops:
                if op[0] == "make":
                    try:
                        objs = maker.make(op[1])
                    except (RuntimeError, TypeError, AttributeError, ValueError) as e:
                        if not op[1].startswith("bad") and op[1] != "leaky":
                            raise
                        ctx.fault(f"constructor fails ({op[1]})")
                        ctx.probe("construction failed")
                        continue
                    for o in objs:
                        r = [o.get_id(), op[1], o, k]
                        seen.append(r)
                        mine.append(r)
                        made[0] += 1
                elif op[0] == "bulk":
                    for _ in range(op[2]):
                        for o in maker.make(op[1]):
                            seen.append([o.get_id(), op[1], o, k])
                            made[0] += 1
                    ctx.probe("very many objects")
                elif op[0] == "fail":
                    if len(plan["ops"]) > 1:
                        continue       # armed through the scheduler instead ("kill")
                    inj = core.run_injected(lambda: maker.make(op[1]), op[2], op[3])
                    if inj.fired:
                        ctx.fault(f"{op[2]} at a bytecode of a constructor")
                        ctx.probe("construction failed")
                    for o in inj.value or []:
                        seen.append([o.get_id(), op[1], o, k])
                elif op[0] == "ask":
                    if pool:
                        ask(k, op[1] % len(pool), op[2])
                elif mine:
                    r = mine[int(op[1] * len(mine))]
                    if r[2] is not None:
                        r[2] = None
                        gc.collect() if made[0] % 5 == 0 else None
                        ctx.probe("discarded")
                        ctx.fault("object discarded")
        return run
    fns = [task(k, ops) for k, ops in enumerate(plan["ops"])]
    if len(fns) == 1:
        ctx.probe("single")
        fns[0]()
    else:
        ctx.probe("threads")
        faults = {}
        kill = plan.get("kill")
        if kill and kill[0] < len(fns):
            faults[kill[0]] = {"k": kill[1], "exc": kill[2]}
        sch = core.Scheduler(fns, plan["policy"], faults)
        sch.run()
        ctx.steps += sch.step
        ctx.interleaving = sch.signature()
        ctx.resolved = sch.switches
        ctx.note("threads", len(fns), sch.overlap, sch.signature())
        ctx.fault("thread switches", sch.overlap)
        ctx.nontrivial = made[0] >= 5 and sch.overlap >= 3
        for k, t in enumerate(sch.threads):
            if t.fault_exc is not None:
                ctx.fault(f"{faults[k]['exc']} kills one thread")
                ctx.probe("thread killed")
            elif t.error is not None:
                raise t.error
        if sch.over:
            ctx.fail("no-progress", sch.over)
    for j, i, k in answers:
        if i != pool[j].get_id():
            ctx.fail("id-changed", f"thread {k} was told id {i} of a shared {type(pool[j]).__name__}, its id is "
                                   f"{pool[j].get_id()}")
        ctx.probe("shared object asked")
    for j, o in enumerate(pool):
        seen.append([o.get_id(), f"shared {j}", o, -2])
    for o in maker.leaked:
        seen.append([o.get_id(), "leaky", o, -1])
        ctx.probe("leaked object kept")
    ctx.nontrivial = ctx.nontrivial or (made[0] >= 5 and bool(ctx.faults))
    ctx.note("made", made[0], "ids", len(seen))
    unique(ctx, seen)
    if "scene" in plan:
        picture(ctx, plan, seen)
    for r in seen:
        if r[2] is not None and r[2].get_id() != r[0]:
            ctx.fail("id-changed", f"{r[1]} had id {r[0]}, now {r[2].get_id()}")


def unique(ctx, seen):
    ids = {}
    for r in seen:
        o = ids.setdefault(int(r[0]), r)
        if o is not r and not (o[2] is not None and o[2] is r[2]):
            ctx.fail("shared-id", f"id {r[0]} given to a {o[1]} (thread {o[3]}) and to a {r[1]} (thread {r[3]})")


def look(h, plan):
    """Rows and picture of the plan's scene."""
    np, cg = core.np, core.cg
    core.np.random.seed(5)
    tr = core.pyrayt.RayTracer([h.objs[s["name"]] for s in plan["scene"]["sources"]],
                               [h.objs[c["name"]] for c in plan["scene"]["comps"]],
                               rays_per_source=plan["n"], generation_limit=plan["limit"])
    rows = h.rows(tr.trace())
    cam = cg.OrthographicCamera(8, 9.0, 1.0)
    for o in plan["cam"]:
        h.call_tf(cam, o)
    objs = [h.objs[c["name"]] for c in plan["scene"]["comps"] if c["kind"] != "aperture"]
    pic = []
    if objs:
        for r in (cg.renderers.EdgeRender(cam, objs), cg.renderers.ShadedRenderer(cam, objs, cg.Point(3, 4, 9))):
            im = np.array(r.render())
            pic.append(np.where(np.isfinite(im), im, -7.0).tolist())
    return [rows, pic]


def picture(ctx, plan, seen):
    # forked before anything else is built: the same scene under a fresh counter
    def fresh():
        co = core.cg.world_objects.CountedObject
        if isinstance(co.__dict__.get("_ids"), itertools.count):
            co._ids = itertools.count(0)
        return look(history.History(plan["scene"], []), plan)
    want = core.in_child(fresh)
    h = history.History(plan["scene"], [])
    for name, o in h.objs.items():
        seen.append([o.get_id(), f"{name} of the scene", o, "scene"])
    unique(ctx, seen)
    got = look(h, plan)
    d = world.rows_differ(got[0], want[0])
    if d:
        ctx.fail("hits-misnamed", f"with ids from {min(r[0] for r in seen if r[3] == 'scene')}, the trace differs from "
                                  f"the same scene in a new process: {d}")
    ctx.probe("same as from zero")
    for a, b in zip(got[1], want[1]):
        if not core.np.allclose(a, b, atol=1e-9):
            ctx.fail("picture-misnamed", "the picture differs from that of the same scene in a new process")
        ctx.probe("picture same as from zero")
    specs = [c for c in plan["scene"]["comps"]]
    if any(c["kind"] in world.FACTORIES for c in specs):
        return
    trees = [h.tree(c) for c in specs]
    for r in got[0]:
        if r[0] != 0:
            continue
        o, d = r[6:9], r[12:15]
        t, label, clear = ref.first_hit(trees, o, d)
        if clear and label is not None:
            if r[2] != label:
                ctx.fail("wrong-surface", f"ray {r[1]:g} is recorded as hitting {r[2]}, it hits {label}")
            ctx.probe("hit named")
    # the ids intersect() reports belong to surfaces of the component
    rays = world.fixed_rays()
    for c in specs:
        obj = h.objs[c["name"]]
        hits, surf = obj.intersect(rays)
        own = {sid for sid, _ in obj.surface_ids}
        bad = [int(s) for s in surf[core.np.isfinite(hits)] if int(s) not in own]
        if bad:
            ctx.fail("wrong-surface", f"{c['name']} reports hits on surface {bad[0]}, its own are {sorted(own)}")


def shrink(plan):
    import copy
    for k in range(len(plan["ops"])):
        for j in range(len(plan["ops"][k])):
            q = copy.deepcopy(plan)
            del q["ops"][k][j]
            yield q
    for key in ("kill", "scene", "shared"):
        if plan.get(key):
            q = copy.deepcopy(plan)
            del q[key]
            yield q
    if plan["base"]:
        q = copy.deepcopy(plan)
        q["base"] = 0
        yield q
