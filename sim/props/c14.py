"""C14: a picture shows the scene as it is now."""
import matplotlib.figure

from .. import core, history, ref, world

CONFIG = {"quick": {"runs": 700, "wall": 110}, "thorough": {"runs": 30000, "wall": 820}}
RULE = ("A run keeps edge and shaded renderers with cameras of their own over one scene and executes a seeded history of "
        "moves of objects, parts and cameras, material changes, edits to the renderers' shape lists, renders, draws in both "
        "views with and without bounds, renders aborted at a seeded bytecode or inside a material's shader, and traces. After every picture: each "
        "pixel whose ray is clear of edges is compared with an independent visibility reference (user paints tell which "
        "material was used and where), and the whole picture with that of a new renderer over newly built copies in a "
        "pristine process. Non-trivial: at least one picture after a move or an abort.")
PROBES = ["pixel shows surface", "pixel empty", "behind camera stays out", "edge pixel", "flat pixel", "same as new renderer",
          "after abort", "draw xy", "draw xz", "drawn behind the origin", "inside the view", "drawn within bounds", "filled pictures", "shape list edited",
          "results kept", "shader raised", "earlier picture intact"]
STUB = "user materials (paints) are simulated; everything else is real"
STEP_UNIT = "bytecode instructions of renders dry-run to place faults"
ASSUMPTIONS = ["pixels within 1e-5 of an edge of a shape are left to the comparison with a new renderer",
               "composites that are empty, and sheets seen exactly edge-on, have no picture"]


def gen_cam(rng, name):
    spec = {"name": name, "px": rng.randrange(5, 10), "width": rng.num(2, 9), "aspect": rng.pick([1, 1, 0.75, 1.5, 2])}
    if rng.chance(0.3):     # straight ahead, where scaling the camera leaves it in its place
        return dict(spec, ops=[["move_x", [rng.num(-9, 0)]]])
    return {**spec, "ops": world.gen_ops(rng, rng.randrange(0, 2), scale=0)
            + [["move", [rng.num(-9, 2), rng.num(-1, 1), rng.num(-1, 1)]]]}


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    painted = rng.chance(0.75)
    scene = world.gen_scene(rng, ncomp=(1, 4), nsrc=(1, 1), sim=0.2, near=0.12, factories=0.0 if painted else 0.5,
                            enclose=0.15, src_kinds=[("line", 1)])
    giants = rng.chance(0.12)
    if giants:      # shapes that fill the picture, in front of and behind each other or cutting through each other
        for k in range(2):
            r = rng.num(14, 30)
            scene["comps"].insert(rng.randrange(len(scene["comps"]) + 1), {
                "name": f"g{k}", "kind": "sphere", "args": [r], "mat": rng.pick(sorted(scene["mats"])),
                "ops": [["move", [r + rng.num(0.5, 4), rng.num(-2, 2), rng.num(-2, 2)]]]})
    if painted:
        scene["mats"] = {f"p{k}": {"k": "paint", "tag": round(0.1 + 0.1 * k, 2)} for k in range(8)}
        for c in scene["comps"]:
            for lf in world.leaf_specs(c):
                lf["mat"] = f"p{rng.randrange(8)}"
    elif rng.chance(0.6):
        scene["mats"] = {f"k{k}": {"k": "coat", "c": [[rng.num(0, 1) for _ in range(3)] for _ in range(3)],
                                   "ab": [rng.num(0.1, 0.9), rng.num(0.1, 0.9)]} for k in range(3)}
        for c in scene["comps"]:
            for lf in [c] if c["kind"] in world.FACTORIES else world.leaf_specs(c):
                lf["mat"] = f"k{rng.randrange(3)}"
    coats = [m for m in scene["mats"] if scene["mats"][m]["k"] == "coat"]
    comps = [c["name"] for c in scene["comps"]]
    cams = [gen_cam(rng, f"cam{k}") for k in range(rng.randrange(1, 3))]
    if giants:
        cams[0]["ops"] = [["move_x", [rng.num(-9, 0)]]]
    rends = [{"name": f"r{k}", "kind": rng.pick(["edge", "shaded", "shaded"]), "cam": rng.pick(cams)["name"],
              "comps": [c for c in comps if rng.chance(0.85)] or [rng.pick(comps)],
              "light": [rng.num(-9, 9), rng.num(-9, 9), rng.num(3, 9)]} for k in range(rng.randrange(1, 4))]
    names = sum((world.all_names(c) for c in scene["comps"]), [])
    parts = {c["name"]: [n for n in world.all_names(c) if "." in n] for c in scene["comps"]}
    ops = []
    for _ in range(rng.randrange(4, 13 if not big else 25)):
        x = rng.random()
        if rng.chance(0.15):    # a part moves between two pictures of the composite it belongs to
            q = rng.pick(rends)
            inner = [n for c in q["comps"] for n in parts[c]]
            if inner:
                for n in [None] + rng.sample(inner, min(len(inner), rng.randrange(1, 4))):
                    if n is not None:
                        ops.append(["tf", n, ["move", [rng.num(-1.2, 1.2) for _ in range(3)]]])
                    ops.append(["pic", q["name"]])
                continue
        r = rng.pick(rends)["name"]
        if coats and rng.chance(0.3):
            f = rng.pick(["base_color", "warm_color", "cool_color", "alpha", "beta"])
            ops += [["pic", r], ["recolour", rng.pick(coats), f, rng.num(0, 1), rng.randrange(2)], ["pic", r]]
            continue
        if x < 0.30:
            ops.append(["pic", r])
        elif x < 0.46:
            ops.append(gen_draw(rng, comps))
        elif x < 0.62:
            o = world.gen_move(rng, span=1.5, scale=0.15)
            if rng.chance(0.12):
                o = ["move", [rng.num(-60, 60) for _ in range(3)]]
            elif rng.chance(0.05):
                o = ["scale_" + rng.pick("xyz"), [rng.pick([0.004, 0.01, 0.03])]]
            ops.append(["tf", rng.pick(names), o])
        elif x < 0.72:
            cam = rng.pick(cams)["name"]
            mine = [q["name"] for q in rends if q["cam"] == cam]
            if mine and rng.chance(0.3):
                ops.append(["pic", rng.pick(mine)])
            ops.append(["tf", cam, ["scale_" + rng.pick("xyz"), [rng.num(0.3, 2.5)]] if rng.chance(0.3)
                        else world.gen_move(rng, span=3, scale=0.1)])
            if mine and rng.chance(0.5):
                ops.append(["pic", rng.pick(mine)])
        elif x < 0.76:
            ops.append(["tf", rng.pick(names + [c["name"] for c in cams]), world.gen_bad(rng)])
        elif x < 0.82:
            lb = history.labels_of(scene)
            if lb:
                ops.append(["mat", rng.pick(lb), rng.pick(sorted(scene["mats"]))])
        elif x < 0.90:
            inner = ["pic", r] if rng.chance(0.6) else gen_draw(rng, comps)
            ops.append(["abort", inner, rng.weighted(history.EXCS), [round(rng.random(), 6), round(rng.random(), 6)]])
            if inner[0] == "pic" and rng.chance(0.7):
                ops += clear_out(rng, names)
                ops.append(inner)
        elif x < 0.94:
            ops.append(["cbfault", ["pic", r], "shade", rng.randrange(0, 4), rng.weighted(history.CB_EXCS)])
            ops += clear_out(rng, names)
            ops.append(["pic", r])
        elif x < 0.97:
            if rng.chance(0.4):
                ops.append(["pic", r])
            ops.append(["list", r, rng.pick(["append", "remove", "reverse", "swap", "swap"]), rng.pick(comps)])
            if rng.chance(0.6):
                ops.append(["pic", r])
        else:
            ops.append(["trace", "t0", 5])
    ops.append(["pic", rng.pick(rends)["name"]])
    ops.append(gen_draw(rng, comps))
    return {"scene": scene, "painted": painted, "cams": cams, "rends": rends, "ops": ops,
            "tracers": [{"name": "t0", "src": ["s0"], "comps": comps, "n": 3, "limit": 3}], "primes": []}


def clear_out(rng, names):
    """Sometimes what was there during an aborted render is no longer there for the next one."""
    out = []
    if rng.chance(0.5):
        for n in rng.sample(names, min(len(names), rng.randrange(1, 4))):
            out.append(["tf", n, ["move", [rng.num(-30, 30) for _ in range(3)]]])
    return out


def gen_draw(rng, comps):
    cs = [c for c in comps if rng.chance(0.7)] or [rng.pick(comps)]
    op = ["draw", cs, rng.pick(["xy", "xz"]), rng.randrange(2), rng.pick([9, 14, 20]),
          rng.weighted([("list", 5), ("tuple", 1), ("iter", 1), ("single", 1)])]
    if rng.chance(0.25):
        op += [history.gen_bounds(rng, op[2]), rng.pick(["array", "list", "tuple"])]
    return op


class Studio(history.History):
    def __init__(self, plan):
        super().__init__(plan["scene"], plan["tracers"], [])
        self.plan = plan
        self.camspec, self.rspec, self.rend, self.shapes = {}, {}, {}, {}
        for c in plan["cams"]:
            cam = core.cg.OrthographicCamera(c["px"], c["width"], c["aspect"])
            self.register(c["name"], cam, "camera", [], None)
            self.camspec[c["name"]] = c
            for o in c["ops"]:
                self.tf(c["name"], o, quiet=True)
        for r in plan["rends"]:
            self.rspec[r["name"]] = dict(r, comps=list(r["comps"]))
            self.rend[r["name"]] = self.make_renderer(r)

    def make_renderer(self, r):
        shapes = [self.objs[c] for c in r["comps"]]
        self.shapes[r["name"]] = shapes
        cam = self.objs[r["cam"]]
        if r["kind"] == "edge":
            return core.cg.renderers.EdgeRender(cam, shapes)
        return core.cg.renderers.ShadedRenderer(cam, shapes, core.cg.Point(*r["light"]))

    def op_pic(self, name):
        return self.rend[name].render()

    def op_draw(self, comps, view, shaded, res, how="list", bounds=None, form="array"):
        ax = matplotlib.figure.Figure().add_subplot()
        kw, given = {}, None
        if bounds is not None:
            make = {"array": core.np.array, "list": list, "tuple": tuple}[form]
            given = kw["bounds"] = make([make(c) for c in bounds])
        core.cg.renderers.draw(self.shape(comps, how), view=view, axis=ax, shaded=bool(shaded), resolution=res, **kw)
        if given is not None and [[float(v) for v in c] for c in given] != bounds:
            raise core.Violation("bounds-changed", f"draw changed the bounds it was given, {bounds}, to {given}")
        return ax

    def objs_of_scene(self):
        return [c["name"] for c in self.scene["comps"]]

    def op_list(self, name, kind, comp):
        lst, spec = self.shapes[name], self.rspec[name]["comps"]
        if kind == "append" and comp not in spec:
            lst.append(self.objs[comp])
            spec.append(comp)
        elif kind == "remove" and comp in spec and len(spec) > 1:
            del lst[spec.index(comp)]
            spec.remove(comp)
        elif kind == "swap":
            # one shape makes room for another, or all of them for the same number of others
            others = [c for c in self.objs_of_scene() if c not in spec]
            if not others:
                return False
            k = len(comp) % len(spec)
            new = comp if comp in others else others[0]
            lst[k] = self.objs[new]
            spec[k] = new
        elif kind == "reverse":
            lst.reverse()
            spec.reverse()
        else:
            return False
        return True


def clean(a):
    np = core.np
    a = np.array(a, dtype=float)
    return np.where(np.isfinite(a), a, -7.0)


def anew(plan, log, op, rspec):
    """The same picture by a new renderer over newly built copies, in a pristine process."""
    def go():
        h = Studio(dict(plan, rends=[]))
        for e in log:
            h.apply_log(e)
        try:
            if op[0] == "pic":
                return clean(h.make_renderer(rspec).render()).tolist()
            return picture_of(h.op_draw(*op[1:5], "list", *op[6:7]))
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    return core.in_child(go)


def picture_of(ax):
    return [[clean(im.get_array()).tolist(), [float(v) for v in im.get_extent()]] for im in ax.images]


def linspace(a, b, n):
    if n == 1:
        return [a]
    return [a + (b - a) * k / (n - 1) for k in range(n)]


def look(trees, o, d):
    t, label, clear = ref.first_hit(trees, o, d)
    if not clear:
        return None
    if label is None:
        return ()
    return (label, [o[k] + t * d[k] for k in range(3)])


def camera_views(h, cam):
    """What the reference sees at each pixel of a camera: rows of None (unclear), () or (label, point)."""
    c = h.camspec[cam]
    vp = int(c["aspect"] * c["px"])
    m = h.model[cam]

    def rows(trees):
        out = []
        for z in linspace(c["aspect"] * c["width"] / 2, -c["aspect"] * c["width"] / 2, vp):
            row = []
            for y in linspace(c["width"] / 2, -c["width"] / 2, c["px"]):
                o = ref.apply(m, [0.0, y, z, 1.0])[:3]
                d = ref.apply(m, [1.0, 0.0, 0.0, 0.0])[:3]
                n = sum(v * v for v in d) ** 0.5
                row.append((o, [v / n for v in d]))
            out.append(row)
        return [[look(trees, o, d) for o, d in row] for row in out], out
    return rows


def colour(h, seen):
    """Colour the paint of the surface seen at a point gives."""
    if seen == ():
        return [0.0, 0.0, 0.0, 0.0]
    mat = h.labels[seen[0]].material
    return [0.5 + v / 400 for v in seen[1]] + [mat.tag]


def check_shaded(ctx, h, img, views, what):
    if all(seen is None or seen for row in views for seen in row):
        ctx.probe("filled pictures")
    for r, row in enumerate(views):
        for c, seen in enumerate(row):
            if seen is None:
                continue
            want = colour(h, seen)
            got = [float(v) for v in img[r][c]]
            if any(abs(a - b) > 2e-6 for a, b in zip(got, want)):
                ctx.fail("wrong-pixel", f"{what}: pixel ({r},{c}) is {[round(v, 6) for v in got]}, should be "
                                        f"{[round(v, 6) for v in want]} ({seen[0] if seen else 'nothing in front'})")
            ctx.probe("pixel shows surface" if seen else "pixel empty")


def check_edges(ctx, h, img, views, what):
    rows, cols = len(views), len(views[0])

    def at(r, c):
        if not (0 <= r < rows and 0 <= c < cols):
            return ()
        v = views[r][c]
        return v if not v else v[0]
    for r in range(rows):
        for c in range(cols):
            here = at(r, c)
            near = [at(r + i, c + j) for i in range(-2, 3) for j in range(-2, 3)]
            got = [float(v) for v in img[r][c]]
            if None not in near and all(v == here for v in near):
                if got[3] != 0:
                    ctx.fail("stray-edge", f"{what}: pixel ({r},{c}) is an edge, everything around it is "
                                           f"{here or 'empty'}")
                ctx.probe("flat pixel")
            elif here is not None and any(v is not None and v != here for v in (at(r, c - 1), at(r - 1, c))):
                if got != [0.0, 0.0, 0.0, 1.0]:
                    ctx.fail("missing-edge", f"{what}: pixel ({r},{c}) shows {here or 'nothing'} next to "
                                             f"{at(r, c - 1) or 'nothing'} and {at(r - 1, c) or 'nothing'} but is "
                                             f"{got}, not an edge")
                ctx.probe("edge pixel")


def draw_views(h, trees, view, img, extent):
    """Reference for a drawn image: a pixel counts if both usual sampling conventions agree."""
    rows, cols = len(img), len(img[0])
    x0, x1, y0, y1 = extent

    def grid(f):
        out = []
        for r in range(rows):
            row = []
            for c in range(cols):
                x, y = f(c, cols, x0, x1), f(r, rows, y1, y0)
                o, d = ([x, y, 300.0], [0.0, 0.0, -1.0]) if view == "xy" else ([x, -300.0, y], [0.0, 1.0, 0.0])
                row.append(look(trees, o, d))
            out.append(row)
        return out
    ends = grid(lambda k, n, a, b: a + (b - a) * k / max(1, n - 1))
    mids = grid(lambda k, n, a, b: a + (b - a) * (k + 0.5) / n)
    return ends, mids


def check_drawn(ctx, h, op, got):
    np = core.np
    comps, view, shaded, res = op[1:5]
    if len(got) != 1:
        ctx.fail("no-picture", f"{op}: {len(got)} images drawn")
    img, extent = got[0]
    bounds = op[6] if len(op) > 6 else None
    if bounds is not None:
        for k, j in enumerate((0, 1) if view == "xy" else (0, 2)):
            if extent[2 * k] > bounds[0][j] + 1e-9 or extent[2 * k + 1] < bounds[1][j] - 1e-9:
                ctx.fail("outside-view", f"{op}: the picture covers {extent}, the bounds were {bounds}")
        ctx.probe("drawn within bounds")
        boxes = np.hstack([np.asarray(h.objs[c].bounding_volume.bounding_points)[:3] for c in comps])
        if not (abs(boxes) < 59).all():
            return
    trees = [h.tree(c) for c in h.scene["comps"] if c["name"] in comps]
    ends, mids = draw_views(h, trees, view, img, extent)
    same = [[a if (a is not None and b is not None and (a == () or a[0]) == (b == () or b[0])) else None
             for a, b in zip(x, y)] for x, y in zip(ends, mids)]
    what = f"draw of {comps} in {view}"
    if shaded:
        for r, row in enumerate(same):
            for c, seen in enumerate(row):
                if seen is None:
                    continue
                px = [float(v) for v in img[r][c]]
                tag = colour(h, seen)[3]
                if abs(px[3] - tag) > 1e-6:
                    ctx.fail("wrong-pixel", f"{what}: pixel ({r},{c}) has paint {px[3]:.3f}, should be {tag:.3f} "
                                            f"({seen[0] if seen else 'nothing there'})")
                ctx.probe("pixel shows surface" if seen else "pixel empty")
    else:
        check_edges(ctx, h, img, same, what)
    if bounds is not None:
        return
    # every component lies inside the view
    ax = (0, 1) if view == "xy" else (0, 2)
    r = core.Rng(7)
    for t in trees:
        mid = [sum(lf.m[k][3] for lf in ref.leaves(t)) / len(ref.leaves(t)) for k in range(3)]
        for _ in range(12):
            o = [mid[k] + r.uniform(-4, 4) for k in range(3)]
            d = [mid[k] + r.uniform(-0.5, 0.5) - o[k] for k in range(3)]
            seen = look([t], o, d)
            if seen:
                p = [seen[1][k] for k in ax]
                if not (extent[0] - 1e-9 <= p[0] <= extent[1] + 1e-9 and extent[2] - 1e-9 <= p[1] <= extent[3] + 1e-9):
                    ctx.fail("outside-view", f"{what}: {seen[0]} reaches {p}, the picture covers {extent}")
                ctx.probe("inside the view")
                if max(p) < 0 or seen[1][1] < 0 and view == "xz" or seen[1][2] < 0:
                    ctx.probe("drawn behind the origin")


def empty_shape(h, comps):
    """Is nothing there to draw, or a component so flat that it is seen edge-on?"""
    np = core.np
    boxes = [np.asarray(h.objs[c].bounding_volume.bounding_points)[:3] for c in comps]
    boxes = [b for b in boxes if np.isfinite(b).all()]
    return not boxes or any((b.max(axis=1) <= b.min(axis=1)).any() for b in boxes)


def execute(ctx, plan):
    np = core.np
    h = Studio(plan)
    held = []
    disturbed = False
    aborted = set()
    for op in plan["ops"]:
        k = op[0]
        if k in ("pic", "draw"):
            spec = h.rspec[op[1]] if k == "pic" else None
            want = anew(plan, h.log, op, spec)
            hollow = k == "draw" and len(op) < 7 and empty_shape(h, op[1])
            try:
                out = h.do(op)
                got = clean(out).tolist() if k == "pic" else picture_of(out)
            except Exception as e:
                if not hollow:
                    raise
                got = f"{type(e).__name__}: {e}"
            if not close(got, want):
                ctx.fail("differs-from-new", f"{op}: the picture is not that of a new renderer over new copies"
                         + (f" ({got[:200]} / {want[:200]})" if isinstance(got, str) or isinstance(want, str) else ""))
            ctx.probe("same as new renderer")
            if isinstance(got, str):
                continue
            if disturbed:
                ctx.nontrivial = True
            if k == "pic":
                held.append((out, np.array(out)))
                if op[1] in aborted:
                    ctx.probe("after abort")
                    aborted.discard(op[1])
            else:
                ctx.probe("draw " + op[2])
            if plan["painted"] and not hollow:
                if k == "pic":
                    trees = [h.tree(c) for c in h.scene["comps"] if c["name"] in spec["comps"]]
                    views, rays = camera_views(h, spec["cam"])(trees)
                    shape = (len(views), len(views[0]))
                    if np.array(got).shape[:2] != shape:
                        ctx.fail("wrong-size", f"{op}: {np.array(got).shape[:2]} pixels, the camera has {shape}")
                    for row, rr in zip(views, rays):
                        for seen, (o, d) in zip(row, rr):
                            if seen == () and look(trees, o, [-v for v in d]):
                                ctx.probe("behind camera stays out")
                    (check_shaded if spec["kind"] == "shaded" else check_edges)(ctx, h, got, views, f"render {op[1]}")
                else:
                    check_drawn(ctx, h, op, got)
            for a, b in held[-4:]:
                if not np.array_equal(np.array(a), b, equal_nan=True):
                    ctx.fail("earlier-picture-changed", f"{op} changed a picture returned earlier")
                ctx.probe("earlier picture intact")
            if k == "pic" and hasattr(h.rend[op[1]], "get_results"):
                if not close(clean(h.rend[op[1]].get_results()).tolist(), got):
                    ctx.fail("results-lost", f"{op[1]}: get_results is not the picture just rendered")
                ctx.probe("results kept")
        elif k == "abort":
            inj = h.aborted(ctx, op[1], *op[2:])
            if not inj.fired and inj.caught is not None and not (op[1][0] == "draw" and empty_shape(h, op[1][1])):
                raise inj.caught
            if inj.fired:
                disturbed = True
                if op[1][0] == "pic":
                    aborted.add(op[1][1])
        elif k == "cbfault":
            inj = h.callback_fault(ctx, *op[1:])
            if inj.fired:
                ctx.probe("shader raised")
                aborted.add(op[1][1])
                disturbed = True
            elif inj.caught is not None:
                raise inj.caught
        elif k == "list":
            if h.op_list(*op[1:]):
                ctx.probe("shape list edited")
                ctx.fault("shape list edited")
                disturbed = True
        elif k == "trace":
            h.do(op)
        else:
            h.do(op)
            disturbed = True
            ctx.fault("move" if k == "tf" else "material changed")
        ctx.note(*op[:3])


def close(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return world.same(a, b, 1e-9)


def shrink(plan):
    import copy
    used = str(plan["ops"])
    for k in range(len(plan["rends"])):
        if len(plan["rends"]) > 1 and f"'{plan['rends'][k]['name']}'" not in used:
            q = copy.deepcopy(plan)
            del q["rends"][k]
            yield q
    for k, r in enumerate(plan["rends"]):
        for j in range(len(r["comps"])):
            if len(r["comps"]) > 1:
                q = copy.deepcopy(plan)
                del q["rends"][k]["comps"][j]
                yield q
