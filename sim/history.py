"""Histories of a simulated session: tracers, edits, plots, renders, faults over one World."""
import math

import matplotlib.figure

from . import core, ref, world

VIEWS = ["xy", "xz"]
COLORS = [None, "wavelength", "source"]
NS = [1, 3, 4, 6]
MANY = [40, 65, 90, 129, 250, 257]
HUGE = [513, 1001, 1025, 2049, 2300]     # beyond what an implementation may handle in one block


LIGHTS = [[[3, 4, 9]], [[3, 4, 9]], [[0, 0, 0]], [[-9, 2, -3]], [[0.05, -0.1, 0.02]], [[3, 4, 9], [-5, 1, 2]]]


def gen_bounds(rng, view):
    """The part of the scene a picture is asked to show."""
    whole = rng.chance(0.3)
    lo, hi = [-60.0] * 3, [60.0] * 3
    size = rng.uniform(1, 8)
    for k in (0, 1) if view == "xy" else (0, 2):
        c, s = rng.uniform(-4, 4), size * rng.uniform(0.7, 1.4)
        lo[k], hi[k] = float(math.floor(c - s)) if whole else c - s, float(math.ceil(c + s)) if whole else c + s
    return [[int(v) if whole else round(v, 3) for v in lo], [int(v) if whole else round(v, 3) for v in hi]]


def lights(points):
    """A light, or several of them, as renderers take them."""
    if len(points) == 1:
        return core.cg.Point(*points[0])
    return core.np.array([list(p) + [1.0] for p in points]).T


def gen_policy(rng, gaps, focus=0.5):
    """How the threads of a run are interleaved."""
    p = {"seed": rng.randrange(1 << 30), "gap": rng.pick(gaps), "stall": rng.pick([0, 0, 0.1])}
    if rng.chance(focus):
        p.update({"gap": rng.pick([1000, 10000]), "focus": rng.pick([0.03, 0.08, 0.2]), "fgap": rng.pick([4, 12, 40])})
    return p


def gen_count(rng, many=0.03, huge=0.006):
    if rng.chance(huge):
        return rng.pick(HUGE)
    return rng.pick(MANY if rng.chance(many) else NS)


class History(world.World):
    """Executes operations of a plan. Real objects plus the state a user believes in."""

    def __init__(self, scene, tracers, primes=()):
        super().__init__(scene)
        self.cfg, self.live, self.tr = {}, {}, {}
        self.done = {}             # tracer -> rows of the latest completed trace, or None
        self.primes = []
        self.sources = {}          # tracer -> what the user handed over as its sources
        for lamp, n, seed in primes:
            self.prime(lamp, n, seed)
        for spec in tracers:
            self.make_tracer(spec)

    def prime(self, lamp, n, seed):
        core.np.random.seed(seed)
        self.objs[lamp].generate_rays(n)
        self.primes.append([lamp, n, seed])

    def shape(self, names, how):
        objs = [self.objs[n] for n in names]
        if how == "tuple":
            return tuple(objs)
        if how == "iter":
            return iter(objs)
        if how == "gen":
            return (o for o in objs)
        if how == "single" and len(objs) == 1:
            return objs[0]
        return objs

    def make_tracer(self, spec):
        t = spec["name"]
        self.cfg[t] = {"src": list(spec["src"]), "comps": list(spec["comps"]), "n": spec["n"],
                       "limit": spec["limit"], "mut": spec.get("how", "list") == "list"}
        src = self.shape(spec["src"], spec.get("srchow", "list"))
        self.sources[t] = src
        self.live[t] = self.shape(spec["comps"], spec.get("how", "list"))
        self.tr[t] = core.pyrayt.RayTracer(src, self.live[t], rays_per_source=spec["n"],
                                           generation_limit=spec["limit"])
        self.done[t] = None

    def note_log(self, *entry):
        self.log.append(list(entry))

    def apply_log(self, entry):
        """Replays one logged state change on this (fresh) world."""
        k = entry[0]
        if k == "tf":
            self.tf(entry[1], entry[2])
        elif k == "mat":
            self.labels[entry[1]].material = self.mats[entry[2]]
        elif k == "coef":
            setattr(self.mats[entry[1]], entry[2], entry[3])
        elif k == "wl":
            self.objs[entry[1]].wavelength = entry[2]
        elif k == "recolour":
            self.mats[entry[1]].recolour(*entry[2:])
        else:
            raise core.HarnessError(k)

    # ---- operations; each returns a value, exceptions are the caller's business
    def do(self, op):
        k = op[0]
        return getattr(self, "op_" + k)(*op[1:])

    def op_trace(self, t, seed):
        core.np.random.seed(seed)
        self.events = []
        df = self.tr[t].trace()
        return df

    def op_reset(self, t):
        self.tr[t].reset()

    def op_srcids(self, t):
        self.tr[t].calculate_source_ids()

    def op_show(self, t, view, color, shaded, res):
        fig = matplotlib.figure.Figure()
        ax = fig.add_subplot()
        self.tr[t].show(view=view, axis=ax, color_function=color, shaded=bool(shaded), resolution=res)
        return ax

    def op_draw(self, comps, view, shaded, res, bounds=None):
        fig = matplotlib.figure.Figure()
        ax = fig.add_subplot()
        kw = {}
        if bounds is not None:
            self.bounds = [core.np.array(c) for c in bounds]
            self.bounds_given, kw["bounds"] = bounds, self.bounds
        core.cg.renderers.draw([self.objs[c] for c in comps], view=view, axis=ax, shaded=bool(shaded),
                               resolution=res, **kw)
        return ax

    def op_render(self, comps, kind, camops, px, light=None):
        cam = core.cg.OrthographicCamera(px, 9.0, 1.0)
        for o in camops:
            self.call_tf(cam, o)
        objs = [self.objs[c] for c in comps]
        if kind == "edge":
            return core.cg.renderers.EdgeRender(cam, objs).render()
        return core.cg.renderers.ShadedRenderer(cam, objs, lights(light or LIGHTS[0])).render()

    def op_edit(self, t, how):
        df = self.tr[t].get_results()
        np = core.np
        if len(df) == 0:
            return
        if how == "zero":
            df.loc[:, "x0"] = 0.0
        elif how == "ids":
            df["id"] = 7
        elif how == "gen":
            df["generation"] = 3.0
        elif how == "column":
            df["mine"] = np.arange(len(df))
        elif how == "drop":
            df.drop(columns=["surface"], inplace=True)
        elif how == "rows":
            df.drop(index=df.index[: len(df) // 2], inplace=True)
        elif how == "values":
            df.values[...] = -1.0
            df.iloc[:, 3] = 9.9
        elif how == "srcids":
            self.tr[t].calculate_source_ids()

    def op_setn(self, t, n):
        self.tr[t].set_rays_per_source(n)
        self.cfg[t]["n"] = n

    def op_setlimit(self, t, n):
        self.tr[t].set_generation_limit(n)
        self.cfg[t]["limit"] = n

    def op_load(self, t, names, how):
        self.live[t] = self.shape(names, how)
        self.tr[t].load_components(self.live[t])
        self.cfg[t]["comps"] = list(names)
        self.cfg[t]["mut"] = how == "list"

    def op_mut(self, t, kind, name, via):
        c = self.cfg[t]
        if not c["mut"]:
            return
        lst = self.live[t]
        if via == "system":
            lst = self.tr[t].get_system()
        o = self.objs[name]
        if kind == "append" and name not in c["comps"]:
            lst.append(o)
            c["comps"].append(name)
        elif kind == "insert" and name not in c["comps"]:
            lst.insert(0, o)
            c["comps"].insert(0, name)
        elif kind == "remove" and name in c["comps"] and len(c["comps"]) > 1:
            i = c["comps"].index(name)
            del lst[i]
            del c["comps"][i]
        elif kind == "reverse":
            lst.reverse()
            c["comps"].reverse()
        elif kind == "clear":
            lst.clear()
            c["comps"].clear()
        elif kind == "replace" and name not in c["comps"] and c["comps"]:
            lst[0] = o
            c["comps"][0] = name
        elif kind == "clearfill" and name:
            lst[:] = [o]
            c["comps"][:] = [name]

    def op_tf(self, name, op):
        good, exc = self.tf(name, op)
        if good and exc is not None:
            raise core.Violation("transform-raised", f"{name} {op}: {exc!r}")

    def op_clone(self, name):
        """The user goes on with a copy of a component instead of the component itself."""
        pair = self.copies(name)
        if pair is None:
            return False
        old, (new, memo) = self.objs[name], pair
        for n in self.subtree(name):
            self.objs[n] = memo[id(self.objs[n])]
        for k, (sid, surf) in enumerate(new.surface_ids):
            self.ids[sid] = f"{name}#{k}"
            self.labels[f"{name}#{k}"] = surf
        for t, c in self.cfg.items():
            if name not in c["comps"]:
                continue
            if c["mut"]:
                lst = self.live[t]
                lst[[x is old for x in lst].index(True)] = new
            else:
                self.live[t] = [self.objs[x] for x in c["comps"]]
                self.tr[t].load_components(self.live[t])
                c["mut"] = True
        return True

    def op_mat(self, label, mat):
        self.labels[label].material = self.mats[mat]
        self.note_log("mat", label, mat)

    def op_coef(self, mat, attr, val):
        setattr(self.mats[mat], attr, val)
        self.note_log("coef", mat, attr, val)

    def op_recolour(self, mat, *how):
        self.mats[mat].recolour(*how)
        self.note_log("recolour", mat, *how)

    def op_wl(self, src, val):
        self.objs[src].wavelength = val
        self.note_log("wl", src, val)

    def op_gen(self, src, n, scribble):
        rs = self.objs[src].generate_rays(n)
        if scribble:
            rs[...] = -3.0
        return None

    def op_abbe(self, mat):
        m = self.mats[mat]
        if hasattr(m, "abbe"):
            m.abbe()
            m.index_at(0.55)

    # ---- faults
    def aborted(self, ctx, inner, exc, u, only=None, scope=None):
        """Run an operation with an exception raised at a seeded bytecode of the code under test."""
        inj = core.run_injected(lambda: self.do(inner), exc, u, only, scope)
        if inj.total:
            ctx.steps += inj.total
        if inj.fired:
            ctx.fault(f"{exc} at a bytecode of {inner[0]}" + (" or of pandas under it" if scope else ""))
            ctx.note("abort", inner[0], exc, inj.site)
        else:
            ctx.note("abort-not-reached", inner[0])
        return inj

    def callback_fault(self, ctx, inner, where, nth, exc, before=None):
        """Run an operation; the nth call into simulated user code of kind `where` raises."""
        count = [0]
        boom = core.EXCEPTIONS[exc]("injected")
        fired = [False]

        def hook(kind, obj, extra):
            if kind == where:
                if count[0] == nth:
                    if before is not None:
                        before()
                    fired[0] = True
                    count[0] += 1
                    raise boom
                count[0] += 1
        self.hooks.append(hook)
        inj = core.Injected()
        try:
            inj.value = self.do(inner)
        except BaseException as e:
            inj.caught = e
        finally:
            self.hooks.remove(hook)
        inj.fired, inj.exc = fired[0], boom
        if fired[0]:
            ctx.fault(f"{exc} raised by user {where}")
            ctx.note("callback-fault", where, nth, exc)
        return inj

    # ---- replica
    def recipe(self, t, seed):
        c = self.cfg[t]
        return {"log": [list(e) for e in self.log], "primes": self.primes, "seed": seed,
                "cfg": {"src": list(c["src"]), "comps": list(c["comps"]), "n": c["n"], "limit": c["limit"]}}


def replica(scene, recipe):
    """A new tracer over newly built copies; run in a pristine process."""
    w = History(scene, [], recipe["primes"])
    for e in recipe["log"]:
        w.apply_log(e)
    c = recipe["cfg"]
    core.np.random.seed(recipe["seed"])
    tr = core.pyrayt.RayTracer([w.objs[s] for s in c["src"]], [w.objs[s] for s in c["comps"]],
                               rays_per_source=c["n"], generation_limit=c["limit"])
    df = tr.trace()
    w.table = form(df)
    return w, w.rows(df)


def form(df):
    """What a result table looks like apart from its values."""
    return [[str(c) for c in df.columns], [str(t) for t in df.dtypes] if len(df) else [],
            [str(x) for x in df.index] == [str(x) for x in range(len(df))]]


# ------------------------------------------------------------------- generation
EXCS = [("KeyboardInterrupt", 4), ("MemoryError", 3), ("RuntimeError", 3), ("FloatingPointError", 1),
        ("ValueError", 1), ("SystemExit", 1), ("GeneratorExit", 1), ("OSError", 1)]
# of what user code raises nothing may be taken for a condition of the library's own
CB_EXCS = EXCS + [(e, 0.7) for e in ("ZeroDivisionError", "OverflowError", "KeyError", "IndexError", "TypeError",
                                     "AttributeError", "AssertionError", "Exception")]


def gen_tracers(rng, scene, count=(1, 2), limits=(1, 7)):
    out = []
    comps = [c["name"] for c in scene["comps"]]
    srcs = [s["name"] for s in scene["sources"]]
    for k in range(rng.randrange(count[0], count[1] + 1)):
        cs = [c for c in comps if rng.chance(0.8)] or [rng.pick(comps)]
        ss = [s for s in srcs if rng.chance(0.8)] or [rng.pick(srcs)]
        out.append({"name": f"t{k}", "src": ss, "comps": cs, "n": gen_count(rng),
                    "limit": rng.randrange(limits[0], limits[1]),
                    "how": rng.weighted([("list", 6), ("tuple", 1), ("iter", 0.7), ("gen", 0.5), ("single", 0.5)]),
                    "srchow": rng.weighted([("list", 4), ("tuple", 1), ("iter", 0.7), ("single", 1)])})
        if out[-1]["how"] == "single" and len(cs) != 1:
            out[-1]["how"] = "list"
        if out[-1]["srchow"] == "single" and len(ss) != 1:
            out[-1]["srchow"] = "list"
    return out


def lengthen(rng, scene, tracer):
    """Rays that go on for very many generations: a room of mirrors and a limit to match."""
    scene["mats"]["mroom"] = {"k": "mirror"}
    room = [c for c in scene["comps"] if c["name"] == "room"]
    if not room:
        room = [{"name": "room", "kind": "sphere", "args": [7.5], "ops": []}]
        scene["comps"] += room
    room[0]["mat"] = "mroom"
    if "room" not in tracer["comps"]:
        tracer["comps"] = tracer["comps"] + ["room"]
        tracer["how"] = "list"
    tracer["n"] = 1
    tracer["limit"] = rng.pick([130, 180, 270, 600])


def labels_of(scene):
    """Labels of surfaces (components built from leaves only)."""
    out = []
    for c in scene["comps"]:
        if c["kind"] in world.FACTORIES:
            continue
        for i, _ in enumerate(world.leaf_specs(c)):
            out.append(f"{c['name']}#{i}")
    return out


def gen_primes(rng, scene):
    return [[s["name"], n, rng.randrange(1 << 30)] for s in scene["sources"] if s["kind"] == "static" for n in NS + MANY + HUGE]


def gen_edit(rng, scene, tracers, weights=None):
    """One operation that changes or uses the session without being a checked trace."""
    comps = [c["name"] for c in scene["comps"]]
    srcs = [s["name"] for s in scene["sources"]]
    names = sum((world.all_names(c) for c in scene["comps"]), [])
    t = rng.pick(tracers)["name"]
    w = {"tf": 6, "bad": 1, "mat": 2, "coef": 1.5, "wl": 1.5, "setn": 1.5, "setlimit": 1.5, "load": 2, "mut": 3,
         "reset": 1, "show": 1, "draw": 0.5, "render": 0.7, "edit": 1.5, "gen": 1, "srcids": 0.7, "abbe": 0.7,
         "clone": 0}
    w.update(weights or {})
    k = rng.weighted(sorted(w.items()))
    if k == "tf":
        return ["tf", rng.pick(names + srcs), world.gen_move(rng, span=1.0, scale=0.1)]
    if k == "bad":
        return ["tf", rng.pick(names + srcs), world.gen_bad(rng)]
    if k == "mat":
        lb = labels_of(scene)
        if lb:
            return ["mat", rng.pick(lb), rng.pick(sorted(scene["mats"]))]
        return ["reset", t]
    if k == "coef":
        ms = [m for m, s in scene["mats"].items() if s["k"] == "sell"]
        if ms:
            return ["coef", rng.pick(ms), rng.pick(["b1", "b2", "c1", "b3"]), rng.num(0.01, 0.3)]
        return ["wl", rng.pick(srcs), rng.num(0.4, 0.7)]
    if k == "wl":
        return ["wl", rng.pick(srcs), rng.num(0.4, 0.7)]
    if k == "setn":
        return ["setn", t, gen_count(rng)]
    if k == "setlimit":
        return ["setlimit", t, rng.randrange(1, 8)]
    if k == "load":
        cs = [c for c in comps if rng.chance(0.6)] or [rng.pick(comps)]
        how = rng.weighted([("list", 4), ("tuple", 1), ("iter", 1), ("gen", 0.5), ("single", 1)])
        if how == "single" and len(cs) > 1:
            cs = cs[:1]
        return ["load", t, cs, how]
    if k == "mut":
        return ["mut", t, rng.pick(["append", "insert", "remove", "reverse", "replace", "clearfill"])
                if not rng.chance(0.08) else "clear",
                rng.pick(comps), rng.pick(["list", "list", "system"])]
    if k == "reset":
        return ["reset", t]
    if k == "show":
        return ["show", t, rng.pick(VIEWS), rng.pick(COLORS), rng.randrange(2), 24]
    if k == "draw":
        return ["draw", [rng.pick(comps)], rng.pick(VIEWS), rng.randrange(2), 24]
    if k == "render":
        return ["render", [c for c in comps if rng.chance(0.7)] or comps[:1], rng.pick(["edge", "shaded"]),
                [["move_x", [-8]]] + world.gen_ops(rng, 1, scale=0), 8, rng.pick(LIGHTS)]
    if k == "edit":
        return ["edit", t, rng.pick(["zero", "ids", "gen", "column", "drop", "rows", "values", "srcids"])]
    if k == "gen":
        return ["gen", rng.pick(srcs), gen_count(rng), rng.randrange(2)]
    if k == "srcids":
        return ["srcids", t]
    if k == "clone":
        return ["clone", rng.pick(comps)]
    return ["abbe", rng.pick(sorted(scene["mats"]))]


def gen_fault(rng, scene, tracers, inner=None):
    """An aborted operation."""
    t = rng.pick(tracers)["name"]
    exc = rng.weighted(EXCS)
    inner = inner or ["trace", t, rng.randrange(1 << 30)]
    if inner[0] == "trace" and rng.chance(0.35):
        return ["cbfault", inner, rng.weighted([("material", 4), ("source", 1)]), rng.randrange(0, 8), rng.weighted(CB_EXCS)]
    return ["abort", inner, exc, [round(rng.random(), 6), round(rng.random(), 6)]]


def shrink_scene(plan):
    """Candidates with fewer components or sources."""
    import copy
    sc = plan["scene"]
    for key in ("comps", "sources"):
        for k in range(len(sc[key])):
            gone = sc[key][k]["name"]
            q = copy.deepcopy(plan)
            del q["scene"][key][k]
            ok = True
            for t in q.get("tracers", []):
                f = "comps" if key == "comps" else "src"
                if gone in t[f]:
                    t[f].remove(gone)
                ok = ok and t[f] and not (t.get("how") == "single" and len(t["comps"]) != 1)
            if ok and '"%s' % gone not in __import__("json").dumps(q.get("ops", [])):
                q["primes"] = [p for p in q.get("primes", []) if p[0] != gone]
                yield q
    for k in range(len(plan.get("tracers", []))):
        if len(plan["tracers"]) > 1:
            gone = plan["tracers"][k]["name"]
            q = copy.deepcopy(plan)
            del q["tracers"][k]
            if '"%s"' % gone not in __import__("json").dumps(q.get("ops", [])):
                yield q
