"""C13: every ray is attributed to the source that emitted it."""
from .. import core, history, world

CONFIG = {"quick": {"runs": 1800, "wall": 100}, "thorough": {"runs": 50000, "wall": 820}}
RULE = ("A run gives every source a wavelength of its own and materials that never change it, then executes a seeded "
        "history of traces, ray-count changes, resets, aborted traces, edits, plots by source and source-id computations, some while the user's list of sources is altered. "
        "Oracle: the wavelength in a row names the source that really emitted that row's ray. Checked after every trace "
        "that ids are unique and block-wise in source order, after every computation that the index is right, and in every "
        "plot by source that the arrows of one source share a colour no other source has. "
        "Non-trivial: at least one computation or plot after the count was changed, or after an abort.")
PROBES = ["ids checked", "computed", "computed after count change", "computed after abort", "computed on partial results",
          "computed twice", "computed before any trace", "plotted", "plotted after count change", "several sources",
          "same source twice", "very many sources", "computed with the list of sources changed"]
STUB = "user materials and sources are simulated; everything else is real"
ASSUMPTIONS = ["a source is recognised by its wavelength, so materials that change the wavelength are left out"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    fates = [f for f in world.FATES if f[0] not in ("color", "amp")]
    crowd = rng.chance(0.008)
    scene = world.gen_scene(rng, ncomp=(1, 3), nsrc=(1, 6) if not crowd else (135, 290), sim=0.5, fates=fates, factories=0.2,
                            enclose=0.75, src_kinds=[("line", 2), ("circle", 1), ("cone", 2), ("wedge", 2), ("script", 1),
                                                     ("lamp", 1), ("static", 1)] if not crowd else [("line", 1)])
    for k, s in enumerate(scene["sources"]):
        s["wl"] = round(0.41 + (0.03 if not crowd else 0.001) * k, 3)
    tracers = history.gen_tracers(rng, scene, (1, 2) if not crowd else (1, 1), (1, 6))
    if crowd:
        tracers[0]["n"] = rng.pick([1, 2])
    for t in tracers:
        if rng.chance(0.15):
            t["src"] = t["src"] + [t["src"][0]] if t["srchow"] != "single" else t["src"]
        if rng.chance(0.2) and t["srchow"] == "list":
            rng.shuffle(t["src"])
    ops = []
    t0 = tracers[0]["name"]
    for _ in range(rng.randrange(4, 14 if not big else 24)):
        t = rng.pick(tracers)["name"]
        x = rng.random()
        if x < 0.30:
            ops.append(["trace", t, rng.randrange(1 << 30)])
        elif x < 0.46:
            # counts of every size: whether a quotient is rounded up or down depends on the count
            ops.append(["setn", t, rng.pick([1, 2, 3, 4, 6, 7, 13]) if crowd or rng.chance(0.6) else rng.randrange(8, 250)])
        elif x < 0.62:
            ops.append(["ids", t])
        elif x < 0.74:
            ops.append(["plot", t, rng.pick(history.VIEWS)])
        elif x < 0.82:
            ops.append(history.gen_fault(rng, scene, tracers))
        elif x < 0.85:      # the caller's list of sources changes, ids are computed, the list changes back
            ops.append(["lend", t, rng.pick(["pop", "clear", "reverse"])])
        elif x < 0.88:
            ops.append(["reset", t])
        elif x < 0.91:
            ops.append(["setlimit", t, rng.randrange(1, 7)])
        else:
            ops.append(history.gen_edit(rng, scene, tracers, {"wl": 0, "setn": 0, "reset": 0, "srcids": 0, "coef": 0,
                                                              "edit": 0, "setlimit": 0, "show": 1, "abbe": 0}))
    ops.append(["ids", t0])
    ops.append(["plot", t0, "xy"])
    return {"scene": scene, "tracers": tracers, "primes": [], "ops": ops}


class Belief:
    def __init__(self):
        self.traced = False        # has results from a completed trace
        self.partial = False
        self.n = None              # rays per source of the latest trace
        self.computed = False
        self.edited = False


def owners(h, t, df):
    """Index of the source that emitted each row, by wavelength: {row position: {possible indices}}."""
    wl = {}
    for k, s in enumerate(h.cfg[t]["src"]):
        wl.setdefault(round(h.objs[s].wavelength, 6), set()).add(k)
    return [wl.get(round(float(v), 6), set()) for v in df["wavelength"]]


def check_ids(ctx, h, t, n, df, how):
    np = core.np
    src = h.cfg[t]["src"]
    total = n * len(src)
    own = owners(h, t, df)
    ids = df["id"].to_numpy(dtype=float)
    gens = df["generation"].to_numpy(dtype=float)
    if len(set(zip(gens.tolist(), ids.tolist()))) != len(ids):
        ctx.fail("repeated-id", f"{t} {how}: two rows of one generation have the same ray id")
    for k in range(len(ids)):
        i = ids[k]
        if not (0 <= i < total) or i != int(i):
            ctx.fail("id-out-of-range", f"{t} {how}: ray id {i!r} with {total} rays")
        if int(i) // n not in own[k]:
            ctx.fail("wrong-block", f"{t} {how}: ray {int(i)} of {n} per source was emitted by source "
                                    f"{sorted(own[k])}, its id lies in the block of source {int(i) // n}")
    ctx.probe("ids checked")
    if len(src) > 1:
        ctx.probe("several sources")
    if len(src) > 128:
        ctx.probe("very many sources")
    if len(set(src)) < len(src):
        ctx.probe("same source twice")
    return own


def block(h, t, b, df):
    """Real owner of each row: wavelength names the source; for a repeated source, the block."""
    own = owners(h, t, df)
    ids = df["id"].to_numpy(dtype=float)
    out = []
    for k in range(len(own)):
        out.append(next(iter(own[k])) if len(own[k]) == 1 else int(ids[k]) // b.n)
    return out


def execute(ctx, plan):
    np = core.np
    h = history.History(plan["scene"], plan["tracers"], plan["primes"])
    bel = {t["name"]: Belief() for t in plan["tracers"]}
    for op in plan["ops"]:
        k = op[0]
        if k == "trace":
            b = bel[op[1]]
            n = h.cfg[op[1]]["n"]
            df = h.do(op)
            bel[op[1]] = b = Belief()
            b.traced, b.n = True, n
            check_ids(ctx, h, op[1], n, df, "after a trace")
        elif k in ("abort", "cbfault"):
            t = op[1][1]
            n = h.cfg[t]["n"]
            before = h.tr[t].get_results()
            inj = h.aborted(ctx, op[1], *op[2:]) if k == "abort" else h.callback_fault(ctx, *op[1:])
            if not inj.fired and inj.caught is not None:
                raise inj.caught
            after = h.tr[t].get_results()
            if inj.fired and inj.caught is not None:
                bel[t].traced = False      # what a plot shows after an abort is decided elsewhere (C18)
            if after is not before:
                bel[t] = b = Belief()
                b.n = n
                b.partial = inj.fired
                b.traced = not inj.fired
                check_ids(ctx, h, t, n, after, "after an aborted trace")
        elif k == "setn":
            h.do(op)
        elif k == "reset":
            h.do(op)
            bel[op[1]] = Belief()
        elif k == "ids":
            ids(ctx, h, op[1], bel[op[1]])
        elif k == "lend":
            lst = h.sources.get(op[1])
            if not isinstance(lst, list) or not bel[op[1]].traced:
                continue
            was = list(lst)
            getattr(lst, op[2])()
            try:
                ids(ctx, h, op[1], bel[op[1]])
            finally:
                lst[:] = was
            ctx.probe("computed with the list of sources changed")
        elif k == "plot":
            plot(ctx, h, op, bel[op[1]])
        elif k in ("setlimit",):
            h.do(op)
        else:
            if k in ("draw", "show", "render"):
                # pictures are not this property's business: some scenes cannot be drawn
                try:
                    h.do(op)
                except Exception as e:
                    ctx.note("picture failed", type(e).__name__)
            else:
                h.do(op)
        ctx.note(*op[:3])


def changed_count(h, t, b):
    return b.n is not None and b.n != h.cfg[t]["n"]


def ids(ctx, h, t, b):
    tr = h.tr[t]
    held = tr.get_results()
    rows = h.rows(held)
    tr.calculate_source_ids()
    df = tr.get_results()
    d = world.rows_differ(h.rows(df), rows, 0.0)
    if d:
        ctx.fail("results-changed", f"{t}: computing source ids changed the results: {d}")
    if "source_id" not in df.columns:
        ctx.fail("no-column", f"{t}: no column source_id after computing it")
    if len(df) == 0:
        ctx.probe("computed before any trace")
        return
    got = [int(v) for v in df["source_id"]]
    want = block(h, t, b, df)
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            ctx.fail("wrong-source", f"{t}: row {i} (ray {float(df['id'].iloc[i]):g}, {b.n} per source when traced, "
                                     f"{h.cfg[t]['n']} now) is attributed to source {g}, source {w} emitted it")
    ctx.probe("computed")
    if b.computed:
        ctx.probe("computed twice")
    b.computed = True
    if changed_count(h, t, b):
        ctx.probe("computed after count change")
        ctx.fault("count changed after the trace")
        ctx.nontrivial = True
    if b.partial:
        ctx.probe("computed on partial results")
        ctx.probe("computed after abort")
        ctx.nontrivial = True


def plot(ctx, h, op, b):
    np = core.np
    t = op[1]
    df = h.tr[t].get_results()
    try:
        ax = h.op_show(t, op[2], "source", 0, 8)
    except Exception:
        # a scene whose picture cannot be drawn at all is not this property's business
        try:
            h.op_draw(h.cfg[t]["comps"], op[2], 0, 8)
        except Exception:
            ctx.note("cannot be drawn")
            return
        raise
    quivers = [c for c in ax.collections if hasattr(c, "U")]
    if not b.traced:
        return
    if len(df) == 0:
        return
    if len(quivers) != 1 or len(np.ravel(quivers[0].U)) != len(df):
        ctx.fail("not-drawn", f"{t}: {len(df)} segments, drawn {[len(np.ravel(q.U)) for q in quivers]}")
    col = np.asarray(quivers[0].get_facecolors())
    if len(col) != len(df):
        col = np.broadcast_to(col, (len(df), col.shape[-1])) if len(col) == 1 else col
    want = block(h, t, b, df)
    seen = {}
    for i, w in enumerate(want):
        c = tuple(round(float(v), 9) for v in col[i])
        if any(v != v for v in c) or min(c) < 0 or max(c) > 1:
            ctx.fail("bad-colour", f"{t}: row {i} is drawn in {c}")
        if seen.setdefault(w, c) != c:
            ctx.fail("wrong-colour", f"{t}: row {i} (ray {float(df['id'].iloc[i]):g}, {b.n} per source when traced, "
                                     f"{h.cfg[t]['n']} now), emitted by source {w}, is drawn in {c}, another row of that "
                                     f"source in {seen[w]}")
    if len(set(seen.values())) != len(seen):
        ctx.fail("same-colour", f"{t}: two sources are drawn in one colour: {seen}")
    # which source gets which colour must not depend on the history: as in a plot of a new tracer
    n = len(h.cfg[t]["src"])
    pal = palette(h, n)
    for w, c in seen.items():
        if max(abs(x - y) for x, y in zip(c, pal[w])) > 1e-6:
            ctx.fail("wrong-colour", f"{t}: source {w} of {n} is drawn in {c}; a new tracer draws it in {pal[w]}")
    ctx.probe("plotted")
    if changed_count(h, t, b):
        ctx.probe("plotted after count change")
        ctx.fault("count changed after the trace")
        ctx.nontrivial = True


_pal = {}


def palette(h, n):
    """Colours a new tracer with n sources uses, source by source."""
    if n not in _pal:
        def go():
            np, p, cg = core.np, core.pyrayt, core.cg
            import matplotlib.figure
            src = [p.components.LineOfRays(1) for _ in range(n)]
            tr = p.RayTracer(src, [cg.Sphere(4, material=p.materials.absorber)], rays_per_source=2, generation_limit=1)
            tr.trace()
            ax = matplotlib.figure.Figure().add_subplot()
            tr.show(axis=ax, color_function="source", resolution=8)
            q = [c for c in ax.collections if hasattr(c, "U")][0]
            ids = tr.get_results()["id"].to_numpy().astype(int)
            col = np.asarray(q.get_facecolors())
            out = {}
            for i, k in enumerate(ids):
                out[k // 2] = col[i if len(col) > 1 else 0].tolist()
            return [out[k] for k in range(n)]
        _pal[n] = core.in_child(go)
    return _pal[n]


def shrink(plan):
    yield from history.shrink_scene(plan)
