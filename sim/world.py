"""Scenes described as data, the real objects built from them, and an independent model."""
import copy
import math

from . import core, ref

FACTORIES = ("thick_lens", "biconvex_lens", "plano_convex_lens", "plane_mirror",
             "spherical_mirror", "parabolic_mirror", "equilateral_prism", "baffle", "aperture")
_classes = {}


def classes():
    """Classes that need the code under test to be imported first."""
    if _classes:
        return _classes
    np, pyrayt = core.np, core.pyrayt
    matl = pyrayt.materials

    class SimMaterial(matl.TracableMaterial):
        """User-defined material: the fate of each ray is decided by a hash of (seed, generation,
        id), so it is the same in every execution; every event is logged."""

        def __init__(self, world, name, spec):
            super().__init__()
            self.world, self.name, self.spec = world, name, spec
            self.fates = [list(f) for f in spec["fates"]]
            self.total = sum(f[1] for f in self.fates)
            self.mirror = matl.mirror
            self.glasses = {f[2]: matl.BasicRefractor(f[2]) for f in self.fates if f[0] == "refract"}

        def fate(self, gen, rid):
            x = core.unit(self.spec["seed"], int(gen), int(rid)) * self.total
            for f in self.fates:
                x -= f[1]
                if x < 0:
                    return f
            return self.fates[-1]

        def shade(self, rays, normals, light_positions):
            self.world.on_shade(self)
            core.yield_now()
            return super().shade(rays, normals, light_positions)

        def trace(self, surface, ray_set):
            w = self.world
            w.on_material(self, surface, ray_set)
            core.yield_now()
            before = np.array(ray_set)
            gens, ids = np.array(ray_set.generation), np.array(ray_set.id)
            chosen = [self.fate(g, i) for g, i in zip(gens, ids)]
            groups = {}
            for k, f in enumerate(chosen):
                groups.setdefault(tuple(f), []).append(k)
            for f, ks in groups.items():
                kind = f[0]
                if kind == "pass":
                    continue
                if kind in ("reflect", "refract"):
                    sub = ray_set[..., ks]
                    sub = (self.mirror if kind == "reflect" else self.glasses[f[2]]).trace(surface, sub)
                    ray_set[..., ks] = sub
                    continue
                for k in ks:
                    g, i = int(gens[k]), int(ids[k])
                    if kind == "absorb":
                        ray_set.rays[1, :, k] = 0
                    elif kind == "scatter":
                        u, v = (core.unit(self.spec["seed"], 7, g, i), core.unit(self.spec["seed"], 8, g, i))
                        z, a = 2 * u - 1, 2 * math.pi * v
                        s = math.sqrt(max(0.0, 1 - z * z))
                        ray_set.rays[1, :, k] = (s * math.cos(a), s * math.sin(a), z, 0)
                    elif kind == "dim":
                        ray_set.intensity[k] *= f[2]
                    elif kind == "power":
                        ray_set.intensity[k] = f[2]
                    elif kind == "color":
                        ray_set.wavelength[k] = 0.4 + 0.3 * core.unit(self.spec["seed"], 9, g, i)
                    elif kind == "index":
                        ray_set.index[k] = f[2]
                    elif kind == "stretch":      # a direction that is not a unit vector
                        ray_set.rays[1, :, k] *= f[2]
                    elif kind == "nan":
                        ray_set.rays[1, :, k] = float("nan")
                    elif kind == "nanpos":
                        ray_set.rays[0, :3, k] = float("nan")
                    elif kind == "inf":
                        ray_set.rays[1, :3, k] = float("inf")
                    elif kind == "reid":
                        ray_set.id[k] = f[2]
                    elif kind == "regen":
                        ray_set.generation[k] = f[2]
                    else:
                        raise core.HarnessError(kind)
            core.yield_now()
            w.log_events(self, surface, gens, ids, before, np.array(ray_set))
            return ray_set

    class ScriptedSource(pyrayt.components.Source):
        """User-defined source emitting listed rays (cycled), carried along by its pose."""

        def __init__(self, world, name, rays, wavelength, keep=False):
            super().__init__(wavelength)
            self.world, self.name, self.script = world, name, rays
            self.keep = {} if keep else None

        def generate_rays(self, n_rays):
            self.world.on_source(self, n_rays)
            core.yield_now()
            if self.keep is None:
                return self._make(n_rays)
            # a user's source may keep the set it made and return that same object again
            key = (n_rays, self.wavelength, self.get_world_transform().tobytes())
            if key not in self.keep:
                self.keep[key] = self._make(n_rays)
            return self.keep[key]

        def _make(self, n_rays):
            rs = pyrayt.RaySet(n_rays)
            for k in range(n_rays):
                r = self.script[k % len(self.script)]
                rs.rays[0, :3, k] = r["o"]
                rs.rays[1, :3, k] = r["d"]
                if "i" in r:
                    rs.intensity[k] = r["i"]
                if "n" in r:
                    rs.index[k] = r["n"]
            rs.wavelength = self.wavelength
            rs.rays = np.matmul(self.get_world_transform(), rs.rays)
            rs.rays[1] /= np.linalg.norm(rs.rays[1], axis=0)
            return rs

        def _local_ray_generation(self, n_rays):
            raise NotImplementedError

    class PaintMaterial(matl.TracableMaterial):
        """User-defined material whose shade tells which paint was used and where."""

        def __init__(self, world, name, spec):
            super().__init__()
            self.world, self.name, self.tag = world, name, spec["tag"]

        def shade(self, rays, normals, light_positions):
            self.world.on_shade(self)
            core.yield_now()
            rays = np.atleast_3d(rays)
            out = np.empty((4, rays.shape[-1]))
            out[:3] = 0.5 + rays[0, :3] / 400
            out[3] = self.tag
            return out

        def trace(self, surface, ray_set):
            ray_set.rays[1] = 0
            return ray_set

    class CoatMaterial(matl.TracableMaterial):
        """User-defined material shaded by a shader of its own, whose colours the user changes."""

        def __init__(self, spec):
            gooch, color = core.cg.materials.gooch, core.cg.materials.color
            self.shader = gooch.GoochMaterial(*[color.RGBAColor(*c) for c in spec["c"]], spec["ab"][0], spec["ab"][1])
            super().__init__(base_material=self.shader)

        def recolour(self, field, value, place):
            if field in ("alpha", "beta"):
                setattr(self.shader, field, value)
            elif place:
                getattr(self.shader, field).g = value
            else:
                setattr(self.shader, field, core.cg.materials.color.RGBAColor(value, 1 - value, value / 2))

        def trace(self, surface, ray_set):
            ray_set.rays[1] = 0
            return ray_set

    _classes.update(CoatMaterial=CoatMaterial, SimMaterial=SimMaterial, ScriptedSource=ScriptedSource, PaintMaterial=PaintMaterial)
    return _classes


class World:
    """Real objects built from a plan's scene, plus the model of where they ought to be."""

    def __init__(self, scene):
        self.scene = scene
        self.mats, self.objs, self.children, self.parent = {}, {}, {}, {}
        self.kind, self.model, self.leafnames = {}, {}, {}
        self.ids = {}              # surface id -> label
        self.labels = {}           # label -> surface object
        self.matname = {}          # leaf label -> material name
        self.log = []              # successful state changes, in order
        self.events = []           # material events of the current trace
        self.record_events = False
        self.hooks = []            # callables (kind, obj, extra) run inside user callbacks
        self.tracers = {}
        for name, spec in scene.get("mats", {}).items():
            self.mats[name] = self.make_material(name, spec)
        for spec in scene.get("comps", []):
            self.make_component(spec)
        for spec in scene.get("sources", []):
            self.make_source(spec)

    # ---- callbacks from simulated user code
    def on_material(self, mat, surface, ray_set):
        for h in list(self.hooks):
            h("material", mat, surface)

    def on_shade(self, mat):
        for h in list(self.hooks):
            h("shade", mat, None)

    def on_source(self, src, n):
        for h in list(self.hooks):
            h("source", src, n)

    def log_events(self, mat, surface, gens, ids, before, after):
        if self.record_events:
            for k in range(len(ids)):
                self.events.append((int(gens[k]), int(ids[k]), surface.get_id(),
                                    before[:, k].copy(), after[:, k].copy()))

    # ---- building
    def make_material(self, name, spec):
        m = core.pyrayt.materials
        k = spec["k"]
        if k == "absorber":
            return m.absorber
        if k == "mirror":
            return m.mirror
        if k == "glass":
            return m.glass[spec["name"]]
        if k == "basic":
            return m.BasicRefractor(spec["n"])
        if k == "sell":
            return m.SellmeierRefractor(*spec["c"])
        if k == "sim":
            return classes()["SimMaterial"](self, name, spec)
        if k == "paint":
            return classes()["PaintMaterial"](self, name, spec)
        if k == "coat":
            return classes()["CoatMaterial"](spec)
        raise core.HarnessError(k)

    def make_component(self, spec, parent=None):
        cg, comp = core.cg, core.pyrayt.components
        name, kind = spec["name"], spec["kind"]
        kids = []
        if kind == "ref":          # the same part used by a second composite
            return self.objs[spec["name"]]
        p = spec.get("args", [])
        mat = self.mats.get(spec.get("mat"))
        kw = {} if mat is None else {"material": mat}
        if kind == "csg":
            left = self.make_component(spec["l"], name)
            right = self.make_component(spec["r"], name)
            kids = [spec["l"]["name"], spec["r"]["name"]]
            obj = getattr(cg.csg, spec["op"])(left, right)
        elif kind == "sphere":
            obj = cg.Sphere(p[0], **kw)
        elif kind == "cyl":
            obj = cg.Cylinder(p[0], p[1], p[2], **kw)
        elif kind == "parab":
            obj = cg.Paraboloid(p[0], p[1], **kw)
        elif kind == "plane":
            obj = cg.XYPlane(p[0], p[1], **kw)
        elif kind == "cube":
            obj = cg.Cuboid(tuple(p[0]), tuple(p[1]), **kw)
        elif kind in FACTORIES:
            fkw = dict(spec.get("kw", {}))
            if "aperture" in fkw and isinstance(fkw["aperture"], list):
                fkw["aperture"] = tuple(fkw["aperture"])
            if kind not in ("baffle", "aperture"):
                fkw.update(kw)
            obj = getattr(comp, kind)(*[tuple(a) if isinstance(a, list) else a for a in p], **fkw)
        else:
            raise core.HarnessError(kind)
        self.register(name, obj, kind, kids, parent)
        for i, (sid, surf) in enumerate(obj.surface_ids):
            if parent is None:
                self.ids[sid] = f"{name}#{i}"
                self.labels[f"{name}#{i}"] = surf
        if kind in FACTORIES:
            for i, (sid, surf) in enumerate(obj.surface_ids):
                ln = f"{name}~{i}"
                self.register(ln, surf, "part", [], name)
                self.model[ln] = surf.get_world_transform().tolist()
                self.children[name].append(ln)
            self.model[name] = obj.get_world_transform().tolist()
        if mat is not None:
            for sid, surf in obj.surface_ids:
                self.matname.setdefault(sid, spec["mat"])
        for op in spec.get("ops", []):
            self.tf(name, op, quiet=True)
        return obj

    def make_group(self, name, members):
        g = core.cg.ObjectGroup([self.objs[m] for m in members])
        self.register(name, g, "group", members, None)
        return g

    def register(self, name, obj, kind, kids, parent):
        self.objs[name], self.kind[name] = obj, kind
        self.children[name] = list(kids)
        self.parent[name] = parent
        self.model[name] = ref.eye()

    def make_source(self, spec):
        c = core.pyrayt.components
        k, a = spec["kind"], spec.get("args", [])
        wl = spec.get("wl", 0.633)
        if k == "line":
            s = c.LineOfRays(a[0], wl)
        elif k == "circle":
            s = c.CircleOfRays(a[0], wl)
        elif k == "cone":
            s = c.ConeOfRays(a[0], wl)
        elif k == "wedge":
            s = c.WedgeOfRays(a[0], wl)
        elif k == "lamp":
            s = c.Lamp(a[0], a[1], a[2], wavelength=wl)
        elif k == "static":
            s = c.StaticLamp(a[0], a[1], a[2], wavelength=wl)
        elif k == "script":
            s = classes()["ScriptedSource"](self, spec["name"], spec["rays"], wl, spec.get("keep", False))
        else:
            raise core.HarnessError(k)
        self.register(spec["name"], s, k, [], None)
        for op in spec.get("ops", []):
            self.tf(spec["name"], op, quiet=True)
        return s

    # ---- transforms
    def call_tf(self, obj, op):
        if isinstance(op[1], dict):
            return getattr(obj, op[0])(**op[1])
        args = list(op[1])
        if op[0] == "transform":
            whole = all(isinstance(v, int) for r in args[0] for v in r)
            m = core.np.array(args[0], dtype=int if whole else float)
            try:
                return obj.transform(m)
            finally:
                m[:] = 77.0       # the caller is free to reuse its matrix
        return getattr(obj, op[0])(*args)

    def subtree(self, name):
        """Everything a transform of `name` carries along, once however it is reached."""
        out = [name]
        for k in self.children[name]:
            out += self.subtree(k)
        return list(dict.fromkeys(out))

    def copies(self, name):
        """A deep copy of a component that shares only its materials: (copy, {id of original part: part of the copy}),
        or None if components cannot be copied that way."""
        keep = {}
        faces = lambda o: getattr(o, "surface_ids", ())
        for m in list(self.mats.values()) + [getattr(s, "material", None) for _, s in faces(self.objs[name])]:
            if m is not None:
                keep[id(m)] = m
        out = []
        old = self.objs[name]
        try:
            for _ in range(2):
                memo = dict(keep)
                out.append((copy.deepcopy(old, memo), memo))
        except Exception:
            return None
        (new, memo), (trial, memo2) = out
        parts = [self.objs[n] for n in self.subtree(name)]
        if any(id(p) not in m or m[id(p)] is p for p in parts for m in (memo, memo2)):
            return None
        # moving one must move that one alone
        def where(m):
            return [core.np.array((m[id(p)] if m else p).get_world_transform()) for p in parts]
        before, a, b = where(None), where(memo), where(memo2)
        trial.move_x(1.5)
        c = where(memo2)
        same = core.np.array_equal
        if not (all(same(x, y) and same(x, z) for x, y, z in zip(before, a, b)) and
                all(same(x, y) and same(x, z) for x, y, z in zip(before, where(None), where(memo))) and
                all(abs(z[0, 3] - x[0, 3] - 1.5) < 1e-9 for x, z in zip(before, c))):
            return None
        if len(faces(new)) != len(faces(old)) or any(x is y for (_, x), (_, y) in zip(faces(new), faces(old))):
            return None
        return new, memo

    def model_tf(self, name, m):
        for n in self.subtree(name):
            self.model[n] = ref.mul(m, self.model[n])

    def resolve(self, name, op):
        """Transforms about the object's own position, as an ordinary transform."""
        if op[0] == "along":
            # a scaling along the axis of another object, about its position
            w = self.model[op[1][0]]
            u = [w[i][2] for i in range(3)]
            n = math.sqrt(sum(v * v for v in u)) or 1.0
            u = [v / n for v in u]
            k, m = op[1][1] - 1, ref.eye()
            for i in range(3):
                for j in range(3):
                    m[i][j] += k * u[i] * u[j]
                m[i][3] = -k * u[i] * sum(u[j] * w[j][3] for j in range(3))
            return ["transform", [m]]
        if op[0] not in ("spin", "grow"):
            return op
        c = [self.model[name][i][3] for i in range(3)]
        m = ref.op_matrix([f"rotate_{op[1][0]}", [op[1][1]]] if op[0] == "spin" else ["scale", op[1]])
        m = ref.mul(ref.op_matrix(["move", c]), ref.mul(m, ref.op_matrix(["move", [-v for v in c]])))
        return ["transform", [m]]

    def tf(self, name, op, quiet=False):
        """Apply a transform to the real object and, if it should be accepted, to the model.
        Returns (should_succeed, exception or None)."""
        op = self.resolve(name, op)
        m = ref.op_matrix(op)
        exc = None
        try:
            self.call_tf(self.objs[name], op)
        except Exception as e:
            exc = e
        if m is not None and exc is None:
            self.model_tf(name, m)
            if not quiet:
                self.log.append(["tf", name, op])
        elif quiet:
            raise core.Violation("setup-transform", f"{name} {op} raised {exc!r}")
        return m is not None, exc

    # ---- reading results
    def label(self, sid):
        return self.ids.get(int(sid), f"?{int(sid)}")

    def rows(self, df):
        """Result table as plain lists: (generation, id, label, values...)."""
        cols = ["generation", "intensity", "wavelength", "index", "id", "surface",
                "x0", "y0", "z0", "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"]
        out = []
        if len(df) == 0:
            return out
        vals = df[cols].to_numpy(dtype=float)
        for v in vals:
            out.append([float(v[0]), float(v[4]), self.label(v[5]) if v[5] == v[5] else "?nan"]
                       + [float(x) for x in list(v[1:4]) + list(v[6:])])
        return out

    # ---- reference view of the scene
    def tree(self, spec, matrices=None):
        """Reference solid for a component spec, at the model's current matrices."""
        counter = [0]
        top = spec["name"]

        def go(s):
            if s["kind"] == "csg":
                return ref.Node(s["op"], go(s["l"]), go(s["r"]))
            lb = f"{top}#{counter[0]}"
            counter[0] += 1
            return ref.Leaf(lb, s["kind"], s["args"], (matrices or self.model)[s["name"]])
        return go(spec)


ROWCOLS = ["generation", "id", "surface", "intensity", "wavelength", "index", "x0", "y0", "z0",
           "x1", "y1", "z1", "x_tilt", "y_tilt", "z_tilt"]


def same(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def alike(a, b, tol):
    """same(), for nested lists and dicts."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return same(a, b, tol)
    return a == b


def rows_differ(a, b, tol=1e-9, limit=None):
    """None if equal, else a description of the first difference."""
    if len(a) != len(b):
        return f"{len(a)} rows instead of {len(b)}"
    for i, (ra, rb) in enumerate(zip(a, b)):
        for c, x, y in zip(ROWCOLS, ra, rb):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return f"row {i} (generation {rb[0]:g}, ray {rb[1]:g}): {c} is {x}, should be {y}"
            elif not same(x, y, tol):
                return f"row {i} (generation {rb[0]:g}, ray {rb[1]:g}): {c} is {x!r}, should be {y!r}"
    return None


# ------------------------------------------------------------------ scene generation
def gen_mats(rng, n=3, sim=0.5, fates=None):
    out = {}
    for i in range(n):
        x = rng.random()
        if x < sim:
            out[f"m{i}"] = gen_sim(rng, fates)
        else:
            out[f"m{i}"] = rng.weighted([
                ({"k": "mirror"}, 3), ({"k": "absorber"}, 1.2),
                ({"k": "glass", "name": rng.pick(["ideal", "BK7", "SF5", "SF2"])}, 2),
                ({"k": "basic", "n": rng.num(1.2, 2.0)}, 2),
                ({"k": "sell", "c": [rng.num(0.9, 1.5), rng.num(0.1, 0.3), rng.num(0.9, 1.4),
                                     rng.num(0.005, 0.012, 5), rng.num(0.018, 0.06, 5),
                                     rng.num(95, 130, 2)]}, 2)])
    return out


FATES = [["absorb", 1], ["reflect", 4], ["refract", 3, 1.5], ["pass", 2], ["scatter", 3],
         ["dim", 2, 0.3], ["dim", 1, 0.02], ["amp", 1, 2.5], ["color", 1], ["index", 1, 1.3]]


def gen_sim(rng, fates=None):
    pool = fates or [f for f in FATES if f[0] != "amp"] + [["dim", 1, 2.5]]
    chosen = [f[:1] + [rng.num(0.2, 2) * f[1]] + f[2:] for f in pool if rng.chance(0.6)]
    if not chosen:
        chosen = [["reflect", 1], ["scatter", 1]]
    return {"k": "sim", "seed": rng.randrange(1 << 30), "fates": chosen}


def gen_ops(rng, n, span=2.0, scale=0.3, kinds=None):
    """Accepted transforms that keep cumulative scale moderate."""
    out = []
    for _ in range(n):
        out.append(gen_op(rng, span, scale, kinds))
    return out


def gen_op(rng, span=2.0, scale=0.3, kinds=None):
    k = rng.weighted(kinds or [("move", 4), ("move1", 2), ("rot", 4), ("scale", 2 * scale),
                               ("scale1", 1.5 * scale), ("scale_all", 1.5 * scale), ("transform", 0.6)])
    if k in ("move", "move1") and span >= 2 and rng.chance(0.12):      # whole numbers
        if k == "move1":
            return [rng.pick(["move_x", "move_y", "move_z"]), [rng.randrange(-2, 3)]]
        return ["move", [rng.randrange(-2, 3) for _ in range(3)]]
    if k == "rot" and rng.chance(0.05):
        return [rng.pick(["rotate_x", "rotate_y", "rotate_z"]), [rng.randrange(-3, 4), "rad"]]
    if k == "move" and rng.chance(0.15):
        return ["move", {c: rng.num(-span, span) for c in rng.pick(["x", "y", "z", "xz", "yz"])}]
    if k == "move":
        return ["move", [rng.num(-span, span) for _ in range(3)]]
    if k == "move1":
        return [rng.pick(["move_x", "move_y", "move_z"]), [rng.num(-span, span)]]
    if k == "rot":
        ax = rng.pick(["rotate_x", "rotate_y", "rotate_z"])
        if rng.chance(0.15):
            return [ax, [rng.pick([90, -90, 180, 45, 90.0])]]
        if rng.chance(0.3):
            return [ax, [rng.num(-3, 3), "rad"]]
        return [ax, [rng.num(-180, 180), "deg"] if rng.chance(0.5) else [rng.num(-180, 180)]]
    if k == "scale" and rng.chance(0.2):
        return ["scale", {rng.pick("xyz"): rng.num(0.7, 1.4)}]
    if k == "scale":
        return ["scale", [rng.num(0.7, 1.4) for _ in range(3)]]
    if k == "scale1":
        return [rng.pick(["scale_x", "scale_y", "scale_z"]), [rng.num(0.7, 1.4)]]
    if k == "scale_all":
        return ["scale_all", [rng.num(0.75, 1.3)]]
    if span >= 2 and rng.chance(0.15):      # axes exchanged, by a matrix of whole numbers
        p = rng.sample(range(3), 3)
        return ["transform", [[[rng.pick([-1, 1]) if p[i] == j else 0 for j in range(3)] + [rng.randrange(-2, 3)]
                               for i in range(3)] + [[0, 0, 0, 1]]]]
    if rng.chance(0.3):
        # a pure shear
        m = ref.eye()
        m[rng.randrange(3)][rng.randrange(3)] += rng.pick([-1, 1]) * rng.uniform(0.2, 0.8)
        m = [[v if i != j or v == 1 else 1.3 for j, v in enumerate(r)] for i, r in enumerate(m)]
        return ["transform", [m]]
    # a rigid-ish general matrix: rotation about two axes, slight shear, translation
    a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
    m = ref.mul(ref.op_matrix(["rotate_x", [a, "rad"]]), ref.op_matrix(["rotate_z", [b, "rad"]]))
    if rng.chance(0.5):
        m[0][1] += rng.uniform(-0.2, 0.2)
    if abs(ref.det3(m)) < 0.3:
        m = ref.eye()
    for i in range(3):
        m[i][3] = rng.uniform(-span, span)
    return ["transform", [[[round(v, 6) for v in r] for r in m]]]


def gen_move(rng, span=2.0, scale=0.3):
    """gen_op, or a transform that leaves the position alone, or one that hardly does anything."""
    x = rng.random()
    if x < 0.13:
        return ["spin", [rng.pick("xyz"), rng.pick([90, -90, 180, rng.num(-180, 180), rng.num(-180, 180)])]]
    if x < 0.13 + 0.15 * min(scale, 0.3):
        return ["grow", [rng.num(0.75, 1.3) for _ in range(3)]]
    if x < 0.24:
        d = rng.pick([1e-6, 1e-5, 1e-4, 2e-3])
        return rng.pick([["move", [rng.pick([-d, d]) for _ in range(3)]], [rng.pick(["rotate_x", "rotate_y", "rotate_z"]),
                                                                          [rng.pick([-d, d]), "rad"]]])
    return gen_op(rng, span, scale)


BAD_OPS = [["scale", [0, 1, 1]], ["scale", [1, 0.0, 2]], ["scale_all", [0]], ["scale_x", [-1]],
           ["scale", [1, -2, 1]], ["scale_z", [0]], ["rotate_x", [10, "grad"]],
           ["rotate_z", [1.0, "turns"]], ["scale_all", [-0.5]],
           ["transform", [[[0.0] * 4 for _ in range(3)] + [[0, 0, 0, 1.0]]]],
           ["transform", [[[1, 0, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]]],
           ["transform", [[[1, 0, 0, 1], [0, 0, 0, 2], [0, 0, 1, 3], [0, 0, 0, 1]]]]]
JUNK = ["far", [1, 2]]


def gen_bad(rng):
    """A transform that must be rejected, whatever is right about the rest of it."""
    x = rng.random()
    if x < 0.35:
        return rng.pick(BAD_OPS)
    if x < 0.65:
        f = [rng.num(0.6, 1.7) for _ in range(3)]
        f[rng.randrange(3)] = rng.pick([0, 0.0, -1, -0.5, -rng.num(0.1, 3)])
        return ["scale", f]
    if x < 0.85:
        d = [rng.num(-2, 2) for _ in range(3)]
        d[rng.randrange(3)] = rng.pick(JUNK)
        return ["move", d]
    if x < 0.9:
        return [rng.pick(["rotate_x", "rotate_y", "scale_z", "scale_all", "rotate_z"]), [rng.pick(["far", None])]]
    if x < 0.95:
        return ["transform", [rng.pick([[[1, 0, 0], [0, 2, 0], [0, 0, 1]], [[0, 1, 0, 0], [1, 0, 0, 0]], [[2.0] * 4] * 5])]]
    return [rng.pick(["rotate_x", "rotate_y", "rotate_z"]), [rng.num(-90, 90), rng.pick(["grad", "turns", "DEG", "", None])]]


def gen_leaf(rng, name, mats, size=1.0, planes=True):
    k = rng.weighted([("sphere", 4), ("cube", 3), ("cyl", 3), ("parab", 1.5),
                      ("plane", 2 if planes else 0)])
    s = {"name": name, "kind": k, "mat": rng.pick(sorted(mats)) if mats else None, "ops": []}
    if k == "sphere":
        s["args"] = [rng.num(0.6 * size, 1.4 * size)]
    elif k == "cube":
        s["args"] = [[rng.num(-1.3 * size, -0.5 * size) for _ in range(3)],
                     [rng.num(0.5 * size, 1.3 * size) for _ in range(3)]]
    elif k == "cyl":
        s["args"] = [rng.num(0.5 * size, 1.3 * size), rng.num(-1.3 * size, -0.5 * size),
                     rng.num(0.5 * size, 1.3 * size)]
    elif k == "parab":
        s["args"] = [rng.num(0.3 * size, 1.0 * size), rng.num(0.6 * size, 1.8 * size)]
    else:
        s["args"] = [rng.num(1.5 * size, 4 * size), rng.num(1.5 * size, 4 * size)]
    return s


def gen_tree(rng, name, mats, depth, size=1.0, spread=0.8, ops=("union", "intersect", "difference")):
    if depth == 0 or rng.chance(0.15):
        s = gen_leaf(rng, name, mats, size, planes=False)
        s["ops"] = gen_ops(rng, rng.randrange(0, 3), span=spread)
        return s
    s = {"name": name, "kind": "csg", "op": rng.pick(list(ops)),
         "l": gen_tree(rng, name + ".l", mats, depth - 1, size, spread, ops),
         "r": gen_tree(rng, name + ".r", mats, depth - 1, size, spread, ops)}
    s["ops"] = gen_ops(rng, rng.randrange(0, 2), span=spread)
    return s


def gen_factory(rng, name, mats):
    k = rng.pick(FACTORIES)
    s = {"name": name, "kind": k, "mat": rng.pick(sorted(mats)) if mats else None, "ops": [],
         "kw": {}}
    ap = rng.pick([1, 1.5, 0.8]) if rng.chance(0.6) else [rng.num(0.6, 1.5), rng.num(0.6, 1.5)]
    if k == "thick_lens":
        s["args"] = [rng.pick([1, -1]) * rng.num(1.5, 6), rng.pick([1, -1]) * rng.num(1.5, 6), rng.num(0.5, 1)]
        s["kw"]["aperture"] = ap
    elif k == "biconvex_lens":
        r = rng.num(1.5, 5)
        s["args"] = [r, r, rng.num(0.3, 0.8)]
        s["kw"]["aperture"] = ap
    elif k == "plano_convex_lens":
        s["args"] = [rng.num(1.5, 5), rng.num(0.3, 0.8)]
        s["kw"]["aperture"] = ap
    elif k == "plane_mirror":
        s["args"] = [rng.num(0.1, 0.5)]
        s["kw"]["aperture"] = ap
    elif k == "spherical_mirror":
        s["args"] = [rng.num(2.5, 6), rng.num(0.1, 0.4)]
        s["kw"]["aperture"] = ap
    elif k == "parabolic_mirror":
        s["args"] = [rng.num(1, 4), rng.num(0.1, 0.4)]
        s["kw"]["aperture"] = ap
    elif k == "equilateral_prism":
        s["args"] = [rng.num(0.8, 1.8), rng.num(0.5, 1.5)]
    elif k == "baffle":
        s["args"] = [[rng.num(1, 3), rng.num(1, 3)]]
    else:
        s["args"] = [[rng.num(2, 3), rng.num(2, 3)], rng.num(0.5, 1.2) if rng.chance(0.5)
                     else [rng.num(0.4, 1.2), rng.num(0.4, 1.2)]]
    return s


def gen_source(rng, name, kinds=None):
    k = rng.weighted(kinds or [("line", 2), ("circle", 1.5), ("cone", 2), ("wedge", 2), ("script", 2)])
    s = {"name": name, "kind": k, "wl": rng.num(0.4, 0.7), "ops": []}
    if k in ("line", "circle"):
        s["args"] = [rng.num(0.2, 1.5)]
    elif k == "cone":
        s["args"] = [rng.num(2, 70)]
    elif k == "wedge":
        s["args"] = [rng.num(5, 160)]
    elif k in ("lamp", "static"):
        s["args"] = [rng.num(0.1, 1), rng.num(0.1, 1), rng.num(10, 85)]
    else:
        s["rays"] = []
        for _ in range(rng.randrange(1, 5)):
            d = [rng.num(-1, 1), rng.num(-1, 1), rng.num(-1, 1)]
            if sum(v * v for v in d) < 0.05:
                d[0] = 1.0
            r = {"o": [rng.num(-0.3, 0.3) for _ in range(3)], "d": d}
            if rng.chance(0.3):
                r["i"] = rng.pick([0.05, 0.2, 1.0, 10.0, 250.0])
            s["rays"].append(r)
    return s


def all_names(spec):
    out = [spec["name"]]
    if spec["kind"] == "csg":
        out += all_names(spec["l"]) + all_names(spec["r"])
    return out


def renamed(spec, name):
    """A copy of a component under another name."""
    import copy
    out = copy.deepcopy(spec)
    old = spec["name"]

    def walk(s):
        s["name"] = name + s["name"][len(old):]
        for k in ("l", "r"):
            if k in s:
                walk(s[k])
    walk(out)
    return out


def leaf_specs(spec):
    if spec["kind"] == "csg":
        return leaf_specs(spec["l"]) + leaf_specs(spec["r"])
    return [spec]


TILTS = [1e-7, 1e-6, 1e-5, 8e-5, 0.003]


def gen_scene(rng, ncomp=(1, 3), nsrc=(1, 3), sim=0.5, factories=0.3, depth=2, fates=None,
              src_kinds=None, enclose=0.5, far=0, near=0):
    """Sources near the origin, components around them, so that most rays hit something."""
    mats = gen_mats(rng, 3, sim, fates)
    comps = []
    bench = rng.chance(0.15)
    n = rng.randrange(ncomp[0], ncomp[1] + 1)
    for i in range(n):
        x = rng.random()
        if x < factories:
            c = gen_factory(rng, f"c{i}", mats)
        elif x < factories + 0.35:
            c = gen_tree(rng, f"c{i}", mats, rng.randrange(1, depth + 1))
        else:
            c = gen_leaf(rng, f"c{i}", mats)
        d = [rng.uniform(-1, 1) for _ in range(3)]
        if rng.chance(0.6):
            d = [abs(d[0]) + 0.5, d[1] * 0.3, d[2] * 0.3]
        nn = math.sqrt(sum(v * v for v in d)) or 1.0
        r = rng.uniform(1.5, 4)
        if bench:
            c["ops"] = ([["rotate_y", [rng.pick([90, -90])]]] if rng.chance(0.7) else []) + [
                ["rotate_" + rng.pick("yz"), [rng.pick([-1, 1]) * rng.pick(TILTS), "rad"]],
                ["move", [rng.num(1.5, 4), rng.num(-0.4, 0.4), rng.num(-0.4, 0.4)]]]
            comps.append(c)
            continue
        c["ops"] = c["ops"] + gen_ops(rng, rng.randrange(0, 3), span=0.5)
        c["ops"].append(["move", [round(v / nn * r, 3) for v in d]])
        comps.append(c)
    if rng.chance(near):        # one of the components again, a hair's breadth from where it is
        c = renamed(rng.pick(comps), f"c{n}")
        gap = [rng.pick([-1, 1]) * rng.pick([1e-5, 1e-4, 1e-3]) if rng.chance(0.6) else 0 for _ in range(3)]
        c["ops"] = c["ops"] + [["move", gap]]
        for leaf in leaf_specs(c):
            leaf["mat"] = rng.pick(sorted(mats)) if leaf.get("mat") else None
        comps.insert(rng.randrange(0, len(comps) + 1), c)
    if rng.chance(enclose):
        k = rng.pick(["sphere", "cube"])
        comps.append({"name": "room", "kind": k, "mat": rng.pick(sorted(mats)),
                      "args": [rng.num(6, 9)] if k == "sphere" else
                      [[-rng.num(6, 8), -rng.num(6, 8), -rng.num(6, 8)],
                       [rng.num(6, 8), rng.num(6, 8), rng.num(6, 8)]], "ops": []})
    elif rng.chance(far):       # a wall so far away that the rest of the scene is a dot
        r = rng.pick([2e4, 1.5e5, 1e6])
        comps.append({"name": "room", "kind": "cube", "mat": rng.pick(sorted(mats)), "args": [[-r] * 3, [r] * 3], "ops": []})
        if rng.chance(0.4):     # with another one just behind it
            r += rng.pick([1e-3, 0.01, 0.2])
            comps.append({"name": "room2", "kind": "cube", "mat": rng.pick(sorted(mats)), "args": [[-r] * 3, [r] * 3],
                          "ops": []})
    sources = []
    for i in range(rng.randrange(nsrc[0], nsrc[1] + 1)):
        s = gen_source(rng, f"s{i}", src_kinds)
        s["ops"] = gen_ops(rng, rng.randrange(0, 3), span=0.6, scale=0)
        if bench:
            # an optical bench: everything along the x axis, but for a slight misalignment
            s["ops"] = [["rotate_z", [rng.pick([-1, 1]) * rng.pick(TILTS), "rad"]],
                        ["move", [rng.pick([-300.0, -30.0, -3.0, 0.0]), rng.num(-0.3, 0.3), rng.num(-0.3, 0.3)]]]
            for r in s.get("rays", []):
                r["d"] = [1.0] + [rng.pick([-1, 1]) * rng.pick(TILTS) for _ in range(2)]
        sources.append(s)
    return {"mats": mats, "comps": comps, "sources": sources}


# ------------------------------------------------------------------ observation
def fixed_rays(n=6):
    """The same rays in every process, aimed around the origin."""
    r = core.Rng(99)
    rays = core.np.zeros((2, 4, n))
    rays[0, 3] = 1
    for k in range(n):
        o = [r.uniform(-6, 6) for _ in range(3)]
        t = [r.uniform(-1.5, 1.5) for _ in range(3)]
        d = [b - a for a, b in zip(o, t)]
        m = math.sqrt(sum(v * v for v in d))
        rays[0, :3, k] = o
        rays[1, :3, k] = [v / m for v in d]
    return rays


def observe(w, name, center=None):
    """Everything a user can see of an object, as plain data (bit-exact).
    `center` recentres the probing rays so that they meet the object."""
    np = core.np
    o, kind = w.objs[name], w.kind[name]
    out = {"world": o.get_world_transform().tolist(), "object": o.get_object_transform().tolist(),
           "pos": np.array(o.get_position()).tolist(), "dir": np.array(o.get_orientation()).tolist(),
           "to_obj": np.array(o.to_object_coordinates(np.array([1.0, 2.0, 3.0, 1.0]))).tolist(),
           "to_world": np.array(o.to_world_coordinates(np.array([1.0, 2.0, 3.0, 1.0]))).tolist()}
    if hasattr(o, "intersect"):
        rays = fixed_rays()
        if center is not None:
            rays[0, :3] += np.array(center)[:, None]
        h, s = o.intersect(rays)
        out["hits"] = np.where(np.isfinite(h), h, 1e300).tolist()
        out["surf"] = np.where(np.isfinite(h), s, -1).tolist()
        out["box"] = np.array(o.bounding_volume.bounding_points).tolist()
        for sid, surf in o.surface_ids:
            p = np.array(surf.to_world_coordinates(np.array([[0.3, 0.2, 0.1, 1.0]]).T))
            with np.errstate(all="ignore"):
                n = np.array(surf.get_world_normals(p))
            out[f"normal{sid}"] = np.where(np.isfinite(n), n, 9.0).tolist()
            out[f"mat{sid}"] = id(surf.material)
    if isinstance(o, list) or hasattr(o, "data"):
        out["members"] = [id(m) for m in o.data]
    return out


def changed(a, b):
    """Keys whose value differs."""
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
