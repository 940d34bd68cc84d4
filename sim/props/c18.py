"""C18: a plot shows exactly the latest completed trace."""
import matplotlib.figure
from matplotlib.backends.backend_agg import FigureCanvasAgg

from .. import core, history, world

CONFIG = {"quick": {"runs": 700, "wall": 100}, "thorough": {"runs": 30000, "wall": 820}}
RULE = ("A run executes a seeded history of traces, traces aborted at a bytecode or in user code, resets, scene and tracer "
        "edits, and plots in both views and every colouring, some within given bounds, on new axes, on one axis twice and on the current axis, some of "
        "them aborted. After every plot the real matplotlib artists are read: the arrows against the segments the latest "
        "completed trace returned (some are rendered and the tips measured in pixels), colours against an independent "
        "wavelength formula, the picture against a drawing of newly built copies in a pristine process, the results table "
        "against its state before. Non-trivial: at least one plot after an abort, reset or edit that follows a trace.")
PROBES = ["arrows", "no arrows before a trace", "no arrows after reset", "no arrows after abort", "plotted after edit",
          "wavelength colour", "tips measured", "picture compared", "plotted twice", "current axis", "after aborted plot",
          "results intact", "both views", "no components", "trace without segments"]
STUB = "user materials and sources are simulated; matplotlib is real, on its Agg canvas"
STEP_UNIT = "bytecode instructions of traces and plots dry-run to place faults"
ASSUMPTIONS = ["an abort that left the previous results in place may be followed by a plot with or without them",
               "segments shorter than their arrow is wide are drawn as dots"]


def gen_plot(rng, t):
    view = rng.pick(history.VIEWS)
    res = rng.weighted([(8, 50), (12, 50), (None, 1), ("bounds", 15)])
    if res == "bounds":
        res = [12, history.gen_bounds(rng, view)]
    return ["plot", t, view, rng.weighted([(None, 2), ("wavelength", 3), ("source", 1)]), rng.randrange(2),
            res, rng.weighted([("own", 4), ("twice", 1), ("gca", 1), ("deep", 2)]), rng.randrange(2)]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    fates = [f for f in world.FATES if f[0] not in ("amp", "nan", "nanpos", "inf")]
    scene = world.gen_scene(rng, ncomp=(1, 3), nsrc=(1, 3), sim=0.5, fates=fates, factories=0.25, enclose=0.6,
                            src_kinds=[("line", 2), ("circle", 1), ("cone", 2), ("wedge", 2), ("script", 1), ("static", 1)])
    for s in scene["sources"]:
        if rng.chance(0.4):
            s["wl"] = rng.num(0.3, 0.85)
    tracers = history.gen_tracers(rng, scene, (1, 2), (1, 6))
    if rng.chance(0.02):
        tracers[0]["n"] = rng.pick(history.HUGE)
    ops = []
    weights = {"wl": 2, "show": 0, "draw": 0.5, "render": 0.3, "edit": 0, "srcids": 1, "gen": 0.3, "abbe": 0, "reset": 0}
    for _ in range(rng.randrange(4, 13 if not big else 24)):
        t = rng.pick(tracers)["name"]
        x = rng.random()
        if x < 0.25:
            ops.append(["trace", t, rng.randrange(1 << 30)])
        elif x < 0.52:
            ops.append(gen_plot(rng, t))
        elif x < 0.64:
            ops.append(history.gen_fault(rng, scene, tracers))
            if rng.chance(0.6):
                ops.append(gen_plot(rng, ops[-1][1][1]))
        elif x < 0.69:
            ops.append(["reset", t])
            if rng.chance(0.6):
                ops.append(gen_plot(rng, t))
        elif x < 0.74:
            ops.append(["abort", gen_plot(rng, t), rng.weighted(history.EXCS), [round(rng.random(), 6), round(rng.random(), 6)]])
            ops.append(gen_plot(rng, t))
        elif x < 0.76:
            ops.append(["load", t, [], "list"])
            ops.append(gen_plot(rng, t))
            cs = [c["name"] for c in scene["comps"]]
            ops.append(["load", t, [rng.pick(cs)], "list"])
        else:
            ops.append(history.gen_edit(rng, scene, tracers, weights))
            last = [o for o in ops if o[0] == "plot" and o[1] == t]
            if last and rng.chance(0.35):
                ops.append(last[-1][:7] + [1])      # just as before
            elif rng.chance(0.3):
                ops.append(gen_plot(rng, t))
    t = tracers[0]["name"]
    ops += [["trace", t, 5], gen_plot(rng, t), gen_plot(rng, t)]
    if rng.chance(0.3):
        # the same plot again after something moved, now and then with nothing but defaults
        p = gen_plot(rng, t)
        if rng.chance(0.25):
            p = ["plot", t, "xy", None, 0, None, "own", 1]
        move = history.gen_edit(rng, scene, tracers, {"tf": 1e6})
        ops += [p, move, p[:7] + [1]]
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops}


# ------------------------------------------------------------------- references
def rgb(w, gamma=0.8):
    """Colour of a wavelength in micron: linear ramps between the usual anchor colours, dimmed at both ends."""
    if w < 0.44:
        a = 0.3 + 0.7 * (max(w, 0.38) - 0.38) / 0.06
        c = ((0.44 - max(w, 0.38)) / 0.06 * a, 0.0, a)
    elif w < 0.49:
        c = (0.0, (w - 0.44) / 0.05, 1.0)
    elif w < 0.51:
        c = (0.0, 1.0, (0.51 - w) / 0.02)
    elif w < 0.58:
        c = ((w - 0.51) / 0.07, 1.0, 0.0)
    elif w < 0.645:
        c = (1.0, (0.645 - w) / 0.065, 0.0)
    else:
        c = (0.3 + 0.7 * (0.75 - min(w, 0.75)) / 0.105, 0.0, 0.0)
    return [abs(v) ** gamma for v in c]


def read(ax):
    """Arrow sets and images of an axis, as plain data."""
    np = core.np
    arrows = []
    for q in ax.collections:
        if hasattr(q, "U"):
            n = len(np.ravel(q.U))
            col = np.asarray(q.get_facecolors(), dtype=float)
            col = np.broadcast_to(col, (n, col.shape[1])) if len(col) == 1 else col
            arrows.append({"x": np.ravel(q.X).tolist(), "y": np.ravel(q.Y).tolist(),
                           "u": np.ma.filled(np.ma.asarray(q.U, dtype=float), np.nan).tolist(),
                           "v": np.ma.filled(np.ma.asarray(q.V, dtype=float), np.nan).tolist(),
                           "c": col.tolist(), "z": float(q.get_zorder())})
    images = [[thin(np.asarray(im.get_array(), dtype=float)).tolist(), [float(v) for v in im.get_extent()], float(im.get_zorder())]
              for im in ax.images]
    return arrows, images


def thin(a):
    """Every so many pixels of a large picture."""
    k = max(1, max(a.shape[:2]) // 24)
    return a[k // 2::k, k // 2::k]


def size(op):
    if isinstance(op[5], list):
        return {"resolution": op[5][0], "bounds": [list(c) for c in op[5][1]]}
    return {} if op[5] is None else {"resolution": op[5]}


def picture(plan, h, t, op):
    """Images a drawing of new copies of the tracer's components has, made in a pristine process."""
    comps = list(h.cfg[t]["comps"])

    def go():
        w = history.History(plan["scene"], [], [])
        for e in h.log:
            w.apply_log(e)
        ax = matplotlib.figure.Figure().add_subplot()
        try:
            core.cg.renderers.draw([w.objs[c] for c in comps], view=op[2], axis=ax, shaded=bool(op[4]), **size(op))
        except Exception as e:
            return f"{type(e).__name__}: {e}"
        return read(ax)[1]
    return core.in_child(go)


class Belief:
    def __init__(self):
        self.state, self.rows, self.frame = "before a trace", None, None
        self.alternatives = []     # other row sets a plot may show
        self.dirty = False


def table(df):
    """The plotted part of a results table, as an independent copy."""
    return {c: df[c].to_numpy(dtype=float).copy().tolist() for c in ("x0", "y0", "z0", "x1", "y1", "z1", "wavelength")}


def match(rows, a, view):
    """Complaint if the arrows of one set are not the segments (in any order)."""
    s = "y" if view == "xy" else "z"
    want = sorted(zip(rows["x0"], rows[s + "0"], [b - c for b, c in zip(rows["x1"], rows["x0"])],
                      [b - c for b, c in zip(rows[s + "1"], rows[s + "0"])], rows["wavelength"]))
    got = sorted(zip(a["x"], a["y"], a["u"], a["v"], range(len(a["x"]))))
    if len(want) != len(got):
        return f"{len(got)} arrows for {len(want)} segments", None
    for w, g in zip(want, got):
        if not world.alike(w[:4], g[:4], 1e-9):
            return f"an arrow {list(g[:4])} (x, y, dx, dy), the segment is {list(w[:4])}", None
    # segments drawn at one place: any of their arrows may be any of them
    pairs, k = [], 0
    while k < len(want):
        e = k + 1
        while e < len(want) and world.alike(want[e][:4], want[k][:4], 1e-9):
            e += 1
        free = [w[4] for w in want[k:e]]
        for g in got[k:e]:
            col = a["c"][g[4]]
            w = min(free, key=lambda wl: sum(abs(x - y) for x, y in zip(col, rgb(wl))))
            free.remove(w)
            pairs.append((g[4], w))
        k = e
    return None, pairs


def judge(ctx, plan, h, op, b, ax, sets, pictures):
    np = core.np
    _, t, view, colour, shaded, res, mode, compare = op
    arrows, images = read(ax)
    what = f"{op[1:5]} {b.state}"
    none = b.rows is None or len(b.rows["x0"]) == 0
    total = sum(len(a["x"]) for a in arrows)
    if none and not b.alternatives:
        if total:
            ctx.fail("stale-arrows", f"{what}: {total} arrows drawn, there is no completed trace to show")
        ctx.probe("trace without segments" if b.rows is not None else "no arrows " + b.state)
    elif not (total == 0 and (none or b.alternatives)):
        full = [a for a in arrows if a["x"]]
        if len(full) != sets:
            ctx.fail("missing-arrows", f"{what}: {len(full)} sets of arrows after {sets} plots of "
                                       f"{len((b.rows or b.alternatives[0])['x0'])} segments")
        for a in full:
            bad, pairs = None, None
            for rows in ([b.rows] if not none else []) + b.alternatives:
                bad, pairs = match(rows, a, view)
                if bad is None:
                    break
            if bad:
                ctx.fail("wrong-arrows", f"{what}: {bad}")
            if colour == "wavelength":
                for k, wl in pairs:
                    if max(abs(x - y) for x, y in zip(a["c"][k], rgb(wl))) > 1e-3 or a["c"][k][3:] not in ([1.0], []):
                        ctx.fail("wrong-colour", f"{what}: a segment of wavelength {wl} is drawn in {a['c'][k]}, "
                                                 f"its colour is {rgb(wl)}")
                ctx.probe("wavelength colour")
            elif colour is None and len({tuple(c) for c in a["c"]}) > 1:
                ctx.fail("wrong-colour", f"{what}: arrows differ in colour though no colouring was asked for")
            if images and a["z"] < max(im[2] for im in images):
                ctx.fail("arrows-hidden", f"{what}: the arrows are drawn under the components")
        ctx.probe("arrows")
    if b.dirty:
        ctx.probe("plotted after edit")
    if b.dirty or b.state in ("after abort", "after reset"):
        ctx.nontrivial = True
    if len(h.cfg[t]["comps"]) == 0:
        if any(core.np.ptp(core.np.array(i[0], dtype=float), axis=(0, 1)).any() for i in images):     # with bounds given, one that is blank
            ctx.fail("wrong-picture", f"{what}: a picture of components although there are none")
        ctx.probe("no components")
    elif compare and pictures is not None:
        want = pictures * sets
        if isinstance(pictures, str) or [i[:2] for i in images] != [i[:2] for i in want] and \
                not near([i[:2] for i in images], [i[:2] for i in want]):
            ctx.fail("wrong-picture", f"{what}: the picture under the arrows is not the one of new copies of the components"
                     + (f" ({pictures})" if isinstance(pictures, str) else ""))
        ctx.probe("picture compared")
    elif len(images) != sets and pictures is None and not hollow(h, t):
        ctx.fail("wrong-picture", f"{what}: {len(images)} pictures of components after {sets} plots")


def near(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return (a != a and b != b) or abs(a - b) <= 1e-9


def hollow(h, t):
    np = core.np
    return any(not np.isfinite(np.asarray(h.objs[c].bounding_volume.bounding_points)[:3]).all() for c in h.cfg[t]["comps"])


def tips(ctx, op, ax, fig):
    """Where arrows really end, measured after rendering."""
    np = core.np
    FigureCanvasAgg(fig)
    fig.set_dpi(60)
    fig.canvas.draw()
    for q in ax.collections:
        if not hasattr(q, "U") or len(q.X) == 0:
            continue
        tr, off = q.get_transform(), q.get_offset_transform()
        base = off.transform(np.column_stack([np.ravel(q.X), np.ravel(q.Y)]))
        ends = ax.transData.transform(np.column_stack([np.ravel(q.X + q.U), np.ravel(q.Y + q.V)]))
        for k, p in list(enumerate(q.get_paths()))[::max(1, len(q.X) // 300)]:
            if np.hypot(q.U[k], q.V[k]) < 0.1:
                continue
            v = tr.transform(p.vertices) + base[k]
            d = ends[k] - base[k]
            n = np.hypot(*d)
            if n < 3:
                continue
            tip = v[np.argmax(v @ (d / n))]
            if np.hypot(*(tip - ends[k])) > 0.02 * n + 1.0 or np.hypot(*(v - base[k]).T).min() > 0.02 * n + 2.0:
                ctx.fail("wrong-arrows", f"{op[1:5]}: an arrow is {np.hypot(*(tip - base[k])):.1f} pixels long and ends "
                                         f"{np.hypot(*(tip - ends[k])):.1f} pixels off its segment's end")
            ctx.probe("tips measured")


def show(h, op, ax):
    h.tr[op[1]].show(view=op[2], axis=ax, color_function=op[3], shaded=bool(op[4]), **size(op))


def plot(ctx, plan, h, op, b):
    import matplotlib.pyplot as plt
    t, mode = op[1], op[6]
    before = h.tr[t].get_results()
    kept = h.rows(before) if len(before) else []
    cols = list(before.columns)
    pics = picture(plan, h, t, op) if op[7] and h.cfg[t]["comps"] else None
    sets = 1
    fig = None
    if mode == "gca":
        plt.close("all")
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            show(h, op, None)
        ax = plt.gca()
        ctx.probe("current axis")
    else:
        fig = matplotlib.figure.Figure(figsize=(4, 4))
        ax = fig.add_subplot()
        show(h, op, ax)
        if mode == "twice":
            show(h, op, ax)
            sets = 2
            ctx.probe("plotted twice")
    judge(ctx, plan, h, op, b, ax, sets, pics)
    if mode == "deep":
        tips(ctx, op, ax, fig)
    if mode == "gca":
        plt.close("all")
    after = h.tr[t].get_results()
    d = world.rows_differ(h.rows(after) if len(after) else [], kept, 0.0)
    if d or list(after.columns) != cols or after is not before:
        ctx.fail("results-changed", f"{op[1:5]}: plotting changed the results: {d or 'columns or table replaced'}")
    ctx.probe("results intact")


def execute(ctx, plan):
    h = history.History(plan["scene"], plan["tracers"], plan["primes"])
    h.op_plot = lambda *a: show(h, ["plot", *a], matplotlib.figure.Figure().add_subplot())
    bel = {t["name"]: Belief() for t in plan["tracers"]}
    views = set()
    for op in plan["ops"]:
        k = op[0]
        if k == "trace":
            df = h.do(op)
            b = bel[op[1]] = Belief()
            b.state, b.rows = "after a trace", table(df)
        elif k in ("abort", "cbfault") and op[1][0] == "trace":
            t = op[1][1]
            old = h.tr[t].get_results()
            n0 = len(old)
            inj = h.aborted(ctx, op[1], *op[2:]) if k == "abort" else h.callback_fault(ctx, *op[1:])
            if not inj.fired and inj.caught is not None:
                raise inj.caught
            b = Belief()
            if inj.caught is None:
                b.state, b.rows = "after a trace", table(inj.value)
            else:
                b.state = "after abort"
                now = h.tr[t].get_results()
                if now is old and len(now) == n0:
                    prev = bel[t]
                    b.alternatives = ([prev.rows] if prev.rows else []) + prev.alternatives
                elif k == "abort":
                    full = finished(plan, h, op[1])
                    if full is not None and world.alike(table(now), full, 1e-9):
                        b.alternatives = [full]      # the abort came after the last segment was recorded
            bel[t] = b
        elif k == "abort":
            inj = h.aborted(ctx, op[1], *op[2:])
            if not inj.fired and inj.caught is not None:
                raise inj.caught
            ctx.probe("after aborted plot")
        elif k == "reset":
            h.do(op)
            bel[op[1]] = Belief()
            bel[op[1]].state = "after reset"
        elif k == "plot":
            plot(ctx, plan, h, op, bel[op[1]])
            views.add((op[1], op[2]))
            if len(views) > len({t for t, _ in views}):
                ctx.probe("both views")
        else:
            try:
                h.do(op)
            except Exception:
                if k not in ("draw", "render"):
                    raise
            for b in bel.values():
                b.dirty = b.dirty or b.rows is not None
            ctx.fault("edit: " + k)
        ctx.note(*op[:4])


def finished(plan, h, inner):
    """What the trace would have recorded had it not been aborted, from a pristine process."""
    t, seed = inner[1], inner[2]
    c = h.cfg[t]

    def go():
        w = history.History(plan["scene"], [], plan["primes"])
        for e in h.log:
            w.apply_log(e)
        core.np.random.seed(seed)
        tr = core.pyrayt.RayTracer([w.objs[s] for s in c["src"]], [w.objs[s] for s in c["comps"]],
                                   rays_per_source=c["n"], generation_limit=c["limit"])
        try:
            return table(tr.trace())
        except Exception:
            return None
    return core.in_child(go)


def shrink(plan):
    yield from history.shrink_scene(plan)
