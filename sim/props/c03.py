"""C03: every ray leaves one unbroken, complete record."""
import math

from .. import core, history, ref, world

CONFIG = {"quick": {"runs": 1500, "wall": 95}, "thorough": {"runs": 26000, "wall": 800}}
RULE = ("A run builds a scene whose materials absorb, dim, scatter, recolour, reflect and refract rays by seeded "
        "fate and keep a ledger of every interaction, plays 1-4 traces with edits and aborted traces between them, "
        "and explains every row and every missing row of each completed trace from the emission, the ledger and an "
        "independent ray-solid reference. Non-trivial: some trace had at least three generations or two causes of death.")
PROBES = ["geometry checked", "geometry too close to call", "ended absorbed", "ended no hit", "ended intensity",
          "ended limit", "recolored", "dimmed", "trace after abort", "interaction checked", "factory scene",
          "threshold at emission", "very many generations", "threshold of its own", "very many rays"]
STUB = "user-defined materials and sources are simulated (seeded fates); no other stub"
STEP_UNIT = "ray segments explained"
ASSUMPTIONS = ["whether a ray emitted below the intensity threshold gets a first segment is left open",
               "segments whose geometry is within 1e-5 of an edge or a tie are checked for continuity only"]
FATES = [["absorb", 1.2], ["reflect", 3], ["refract", 2, 1.5], ["refract", 1, 1.2], ["pass", 2], ["scatter", 3],
         ["dim", 2, 0.3], ["dim", 1.5, 0.02], ["dim", 0.7, 1.7], ["power", 0.5, 0.0999], ["power", 0.5, 0.1001],
         ["power", 0.4, 0.0], ["color", 1.5], ["index", 1, 1.3], ["stretch", 0.6, 0.4]]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    scene = world.gen_scene(rng, ncomp=(1, 4 if not big else 6), sim=rng.pick([1.0, 0.8]),
                            factories=rng.pick([0, 0, 0.5]), fates=FATES, depth=2 if not big else 3,
                            enclose=0.7, far=0.15, near=0.1, src_kinds=[("line", 1), ("circle", 1), ("cone", 2), ("wedge", 2),
                                                    ("script", 2), ("lamp", 1), ("static", 1)])
    tracers = history.gen_tracers(rng, scene, (1, 2), (1, 9))
    for t in tracers:
        t["how"] = t["srchow"] = "list"
    if rng.chance(0.012):
        history.lengthen(rng, scene, tracers[0])
    elif rng.chance(0.012):     # more rays than a block of them may hold, by one or by none
        t = tracers[0]
        t["src"], t["limit"] = t["src"][:1], rng.randrange(1, 4)
        t["n"] = rng.pick([500, 1000, 1000, 1024, 2000, 2048, 4096]) + rng.pick([0, 1, 1])
        return {"scene": scene, "tracers": [t], "primes": history.gen_primes(rng, scene),
                "ops": [["trace", t["name"], rng.randrange(1 << 30)]]}
    ops = [["thr", t["name"], rng.pick([0.05, 0.15, 0.3, 0.5])] for t in tracers if rng.chance(0.08)]
    for k in range(rng.randrange(1, 4 if not big else 8)):
        for _ in range(rng.randrange(0, 3)):
            if rng.chance(0.35):
                ops.append(history.gen_fault(rng, scene, tracers))
            else:
                ops.append(history.gen_edit(rng, scene, tracers, {
                    "bad": 0, "show": 0, "draw": 0, "render": 0, "abbe": 0, "coef": 0}))
        ops.append(["trace", rng.pick(tracers)["name"], rng.randrange(1 << 30)])
    return {"scene": scene, "tracers": tracers, "primes": history.gen_primes(rng, scene), "ops": ops}


def emission(h, t, seed):
    def go():
        core.np.random.seed(seed)
        c = h.cfg[t]
        return [core.np.array(h.objs[s].generate_rays(c["n"])).T.tolist() for s in c["src"]]
    hooks, h.hooks = h.hooks, []
    try:
        return [r for block in core.in_child(go) for r in block]
    finally:
        h.hooks = hooks


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def eq(a, b, tol=1e-9):
    return all(world.same(float(x), float(y), tol) for x, y in zip(a, b))


def nearest(h, comps, trees, o, d):
    """(t, label, clear) of the first surface ahead of the ray."""
    if trees is not None:
        return ref.first_hit(trees, o, d)
    np = core.np
    rays = np.zeros((2, 4, 1))
    rays[0, :, 0] = list(o) + [1]
    rays[1, :, 0] = list(d) + [0]
    cand = []
    for c in comps:
        hit, sid = h.objs[c].intersect(rays)
        for t, s in zip(hit[:, 0], sid[:, 0]):
            if t > 0 and np.isfinite(t):
                cand.append((float(t), h.label(s)))
    cand.sort()
    if not cand:
        return ref.INF, None, True
    clear = cand[0][0] > 1e-7 and (len(cand) < 2 or cand[1][0] - cand[0][0] > 1e-6 * max(1, cand[0][0]))
    return cand[0][0], cand[0][1], clear


def check_trace(ctx, h, plan, t, emitted, rows):
    cfg = h.cfg[t]
    limit = cfg["limit"]
    specs = {c["name"]: c for c in plan["scene"]["comps"]}
    thr = getattr(h.tr[t], "ray_intensity_threshold", 0.1)
    off = getattr(h.tr[t], "ray_offset_value", 1e-6)
    if any(specs[c]["kind"] in world.FACTORIES for c in cfg["comps"]):
        trees = None
        ctx.probe("factory scene")
    else:
        trees = [h.tree(specs[c]) for c in cfg["comps"]]
    by = {}
    for r in rows:
        by.setdefault((r[1], r[0]), []).append(r)
    for (rid, g), rs in by.items():
        if rid != int(rid) or not 0 <= rid < len(emitted):
            ctx.fail("unknown-ray", f"row of ray {rid!r} but {len(emitted)} rays were emitted")
        if g != int(g) or g < 0 or g >= limit:
            ctx.fail("bad-generation", f"ray {rid:g} has a segment numbered {g!r} (generation limit {limit})")
        if len(rs) > 1:
            ctx.fail("repeated-segment", f"ray {rid:g} has {len(rs)} segments numbered {g:g}")
    led = {}
    for g, rid, sid, before, after in h.events:
        led.setdefault((rid, g), []).append((h.label(sid), before, after))
    endings = set()
    deepest = 0
    for rid, e in enumerate(emitted):
        state = list(e[:8]) + list(e[9:12])     # position, direction, intensity, wavelength, index
        g = 0
        alive = True
        while True:
            row = by.pop((float(rid), float(g)), None)
            row = row[0] if row else None
            where = f"ray {rid}, generation {g}"
            if not alive:
                if row is not None:
                    ctx.fail("reappeared", f"{where}: recorded although {cause}")
                break
            o, d = state[0:3], state[4:7]
            inten, wl, idx = state[8], state[9], state[10]
            why = None
            if g >= limit:
                why = "limit"
            elif norm(d) == 0:
                why = "absorbed"
            elif inten < thr and g > 0:
                why = "intensity"
            elif inten < thr:
                ctx.probe("threshold at emission")
                if row is None:
                    break
            if why:
                if row is not None:
                    ctx.fail("recorded-past-its-end", f"{where}: recorded although the ray should have ended "
                             f"({why}; intensity {inten!r}, direction {d})")
                ctx.probe("ended " + why)
                endings.add(why)
                cause = "it had ended: " + why
                alive = False
                g += 1
                if g > limit + 1:
                    break
                continue
            ud = [v / norm(d) for v in d]
            if row is None:
                begin = [a + (off * b if g else 0) for a, b in zip(o, d)]
                dist, label, clear = nearest(h, cfg["comps"], trees, begin, ud)
                if label is not None and clear:
                    ctx.fail("missing-segment", f"{where}: no segment although {label} is {dist:g} ahead, "
                             f"intensity {inten!r}, generation limit {limit}")
                if clear:
                    ctx.probe("ended no hit")
                    endings.add("no hit")
                cause = "there was nothing ahead of it"
                alive = False
                g += 1
                continue
            start, end, tilt = row[6:9], row[9:12], row[12:15]
            far = 2 * off * max(1.0, norm(d))
            if norm([a - b for a, b in zip(start, o)]) > 1e-9 * max(1, norm(o)) + (far if g else 0):
                ctx.fail("broken-path", f"{where}: starts at {start}, previous segment ended at {o}")
            if not eq(tilt, ud, 1e-8):
                ctx.fail("wrong-direction", f"{where}: direction {tilt}, should be {ud}")
            for name, got, want in (("intensity", row[3], inten), ("wavelength", row[4], wl), ("index", row[5], idx)):
                if not world.same(got, want, 1e-9):
                    ctx.fail("wrong-" + name, f"{where}: {name} {got!r}, after the previous interaction it was {want!r}")
            seg = [b - a for a, b in zip(start, end)]
            ln = norm(seg)
            if norm([s - ln * u for s, u in zip(seg, ud)]) > 1e-7 * max(1.0, ln) or ln != ln:
                ctx.fail("off-its-direction", f"{where}: segment {start} -> {end} does not run along {ud}")
            # the row's own start is the origin of the search ahead
            dist, label, clear = nearest(h, cfg["comps"], trees, start, ud)
            if clear:
                if label is None:
                    ctx.fail("phantom-hit", f"{where}: ends on {row[2]} at {end} although nothing is ahead")
                if row[2] != label:
                    ctx.fail("wrong-surface", f"{where}: names {row[2]}, first surface ahead is {label} at {dist:g}")
                if abs(ln - dist) > 1e-7 * max(1.0, dist):
                    ctx.fail("wrong-end", f"{where}: length {ln!r}, first surface {label} is {dist!r} ahead")
                ctx.probe("geometry checked")
            else:
                ctx.probe("geometry too close to call")
            ctx.steps += 1
            deepest = max(deepest, g + 1)
            # what the surface did to the ray
            ev = led.pop((rid, g), None)
            mat = h.labels[row[2]].material
            if ev is None:
                if isinstance(mat, world.classes()["SimMaterial"]):
                    ctx.fail("no-interaction", f"{where}: ends on {row[2]} whose material never saw it")
                if mat is core.pyrayt.materials.absorber:
                    state[4:7] = [0, 0, 0]
                    cause = "an absorber had absorbed it"
                    alive = False
                    ctx.probe("ended absorbed")
                    g += 1
                    continue
                # a library material: its outcome is not in the ledger, resume from the next row
                nxt = by.get((float(rid), float(g + 1)))
                if not nxt:
                    break
                if mat is core.pyrayt.materials.mirror and not (
                        world.same(nxt[0][3], inten, 1e-9) and world.same(nxt[0][4], wl, 1e-9)
                        and world.same(nxt[0][5], idx, 1e-9)):
                    ctx.fail("mirror-changed-ray", f"{where}: intensity, wavelength or index changed at a mirror")
                state = end + [1.0] + nxt[0][12:15] + [0.0] + [inten, wl, nxt[0][5]]
                g += 1
                continue
            if len(ev) > 1:
                ctx.fail("repeated-interaction", f"{where}: {len(ev)} interactions in one generation")
            lb, before, after = ev[0]
            if lb != row[2]:
                ctx.fail("interaction-elsewhere", f"{where}: recorded on {row[2]}, interacted with {lb}")
            if not eq(before[0:3], end, 1e-9):
                ctx.fail("interaction-elsewhere", f"{where}: segment ends at {end}, interaction at {before[0:3].tolist()}")
            if not eq(before[9:12], [inten, wl, idx], 1e-9):
                ctx.fail("interaction-state", f"{where}: the material was given {before[9:12].tolist()}, "
                         f"the ray had {[inten, wl, idx]}")
            # only where it points: a direction that a material stretched keeps that length through a mirror,
            # but the record only holds unit vectors
            given = [float(v) for v in before[4:7]]
            if not norm(given) or not eq([v / norm(given) for v in given], ud, 1e-8):
                ctx.fail("interaction-state", f"{where}: the material was given direction {given}, the ray had {d}")
            ctx.probe("interaction checked")
            if after[10] != before[10]:
                ctx.probe("recolored")
            if after[9] != before[9]:
                ctx.probe("dimmed")
            state = [float(v) for v in after[:8]] + [float(v) for v in after[9:12]]
            g += 1
    if by:
        k = sorted(by)[0]
        ctx.fail("gap", f"ray {k[0]:g} has a segment numbered {k[1]:g} after its record had ended")
    return deepest, endings


def execute(ctx, plan):
    h = history.History(plan["scene"], plan["tracers"], plan["primes"])
    h.record_events = True
    aborted, own = False, set()
    for op in plan["ops"]:
        if op[0] == "abort":
            if op[1][1] in h.tr:
                h.aborted(ctx, op[1], op[2], op[3])
                aborted = True
        elif op[0] == "cbfault":
            if op[1][1] in h.tr:
                h.callback_fault(ctx, op[1], op[2], op[3], op[4])
                aborted = True
        elif op[0] == "trace":
            if op[1] not in h.tr:
                continue
            emitted = emission(h, op[1], op[2])
            rows = h.rows(h.do(op))
            deepest, endings = check_trace(ctx, h, plan, op[1], emitted, rows)
            ctx.note("trace", op[1], len(rows), deepest)
            if len(emitted) >= 500:
                ctx.probe("very many rays")
            if deepest > 128:
                ctx.probe("very many generations")
            if op[1] in own:
                ctx.probe("threshold of its own")
            if aborted:
                ctx.probe("trace after abort")
            if deepest >= 3 or len(endings) >= 2:
                ctx.nontrivial = True
        elif op[0] == "thr":
            if op[1] in h.tr and hasattr(h.tr[op[1]], "ray_intensity_threshold"):
                h.tr[op[1]].ray_intensity_threshold = op[2]
                own.add(op[1])
        else:
            h.do(op)
            ctx.note(op[0])


shrink = history.shrink_scene
