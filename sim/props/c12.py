"""C12: random lamps obey their limits and are reproducible."""
import math

from .. import core, history, lamps, world

CONFIG = {"quick": {"runs": 3500, "wall": 100}, "thorough": {"runs": 120000, "wall": 820}}
RULE = ("A run puts numpy's global generator under the simulator's control: seeded, or its state crafted so that the next "
        "312 uniform draws are values the simulator chooses (zeros, the largest double below one, ramps, repeats, mixes). "
        "Over that it executes a seeded history of lamp requests, moves, wavelength changes, other users of the generator, "
        "interrupted requests, saves and restores of the generator's state, and traces. Every ray is checked against the "
        "lamp's limits in the modelled pose; every restore must reproduce bit for bit; successive requests must differ; one "
        "run in twelve draws 20000 rays in requests of one size and tests positions and directions for uniformity, relations between rays and repeated draws. "
        "Non-trivial: at least one crafted stream, restore or uniformity test.")
PROBES = ["limits", "crafted stream", "all zero stream", "all one stream", "restored", "restored exactly", "differ",
          "uniform", "no repeats", "interrupted", "traced"]
STUB = "numpy's global generator holds a state the simulator crafts; all code is real"
STEP_UNIT = "rays drawn under a controlled generator"
ASSUMPTIONS = ["uniformity is decided on fixed seeds with thresholds whose false alarm probability is below 1e-7 per test",
               "lamps draw from numpy's process-wide generator"]
ONE = 1 - 2.0 ** -53
EDGE = [0.0, 2.0 ** -53, 1e-16, 1e-9, 0.25, 0.5, 0.5 - 2.0 ** -53, 0.75, 1 - 1e-9, 1 - 2.0 ** -52, ONE]


def generate(rng, i, tier):
    plan = {"lamps": [], "seed0": rng.randrange(1 << 30), "ops": []}
    stat = rng.chance(0.07)
    for k in range(1 if stat else rng.randrange(1, 4)):
        plan["lamps"].append({"name": f"s{k}", "kind": rng.weighted([("lamp", 4), ("static", 0 if stat else 1)]),
                              "wl": rng.num(0.3, 0.9),
                              "args": [rng.pick([0.001, 1, 20, rng.num(0.01, 3)]), rng.pick([0.5, 3, rng.num(0.01, 3)]),
                                       rng.pick([0.01, 1, 10, 30, 60, 89.9, 90, 90, 120, 179, 180, rng.num(1, 90)])],
                              "ops": world.gen_ops(rng, rng.randrange(0, 3), scale=0.3)})
    ops = plan["ops"]
    if stat:
        lim = plan["lamps"][0]
        lim["args"][2] = rng.pick([10, 45, 60, 90, 120, 180, rng.num(5, 90)])
        ops.append(["seed", rng.randrange(1 << 30)])
        ops.append(["stat", "s0", rng.pick([1, 2, 3, 7, 100, 20000])])
        return plan
    names = [s["name"] for s in plan["lamps"]]
    for _ in range(rng.randrange(4, 16)):
        x = rng.random()
        n = rng.pick(names)
        c = rng.pick([0, 1, 1, 2, 3, 10, 60])
        if x < 0.25:
            ops.append(["get", n, c])
        elif x < 0.50:
            ops.append(["craft", rng.pick(["edge", "zeros", "ones", "one-edge", "alternate", "ramp", "random-edge"]),
                        rng.randrange(1 << 30)])
            ops.append(["get", n, rng.pick([1, 2, 3, 10, 60])])
        elif x < 0.62:
            ops.append(["again", [[rng.pick(names), rng.pick([0, 1, 2, 5, 30])] for _ in range(rng.randrange(1, 4))],
                        rng.pick([None, "edge", "ones"]), rng.randrange(1 << 30),
                        [rng.chance(0.4), rng.chance(0.5),
                         rng.num(0.3, 0.9) if rng.chance(0.3) else None]])
        elif x < 0.70:
            ops.append(["differ", n, rng.pick([1, 2, 9])])
        elif x < 0.78:
            ops.append(["tf", n, world.gen_move(rng, scale=0.3)])
        elif x < 0.83:
            ops.append(["wl", n, rng.num(0.3, 0.9)])
        elif x < 0.88:
            ops.append(["burn", rng.pick(["random", "normal", "integers", "shuffle"]), rng.randrange(1, 9)])
        elif x < 0.93:
            ops.append(["cut", n, rng.pick([1, 2, 5]), rng.weighted(history.EXCS),
                        [round(rng.random(), 6), round(rng.random(), 6)]])
        elif x < 0.97:
            ops.append(["trace", n, rng.pick([1, 4, 20])])
        else:
            ops.append(["seed", rng.randrange(1 << 30)])
    return plan


# ------------------------------------------------------------- crafting the generator
def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


def craft(values):
    """Set numpy's global generator so that its next 312 doubles are `values` (cycled)."""
    np = core.np
    key = []
    for k in range(312):
        m = int(values[k % len(values)] * 2 ** 53)
        a, b = m >> 26, m & ((1 << 26) - 1)
        key += [untemper((a << 5) & 0xFFFFFFFF), untemper((b << 6) & 0xFFFFFFFF)]
    np.random.set_state(("MT19937", np.array(key, dtype=np.uint32), 0))


def stream(kind, seed):
    r = core.Rng(seed)
    if kind == "zeros":
        return [0.0]
    if kind == "ones":
        return [ONE]
    if kind == "alternate":
        return [0.0, ONE]
    if kind == "ramp":
        return [k / 312 for k in range(312)]
    if kind == "one-edge":
        e = r.pick(EDGE)
        return [e if r.chance(0.5) else r.random() for _ in range(312)]
    if kind == "random-edge":
        return [r.pick(EDGE) if r.chance(0.3) else r.random() for _ in range(312)]
    return [r.pick(EDGE) for _ in range(312)]


# -------------------------------------------------------------------- statistics
def ks(x):
    """sqrt(N) times the Kolmogorov distance from uniform on [0,1]."""
    np = core.np
    x = np.sort(x)
    n = len(x)
    k = np.arange(1, n + 1)
    return max((k / n - x).max(), (x - (k - 1) / n).max()) * math.sqrt(n)


def uniformity(ctx, name, n, o, d, spec):
    np = core.np
    width, length, ang = spec
    cmax = math.cos(math.radians(ang))
    cos = np.clip(d[0], -1, 1)
    u = {"y": o[1] / width + 0.5, "z": o[2] / length + 0.5, "solid angle": (1 - cos) / (1 - cmax),
         "azimuth": (np.arctan2(d[2], d[1]) / (2 * math.pi)) % 1.0}
    names = list(u)
    for k, v in u.items():
        s = ks(np.clip(v, 0, 1))
        if s > 3.0:
            ctx.fail("not-uniform", f"{name} asked for {n} rays at a time: the {k} of {len(v)} rays is not uniform "
                                    f"(Kolmogorov statistic {s:.1f})")
    for a in range(4):
        for b in range(a + 1, 4):
            x, y = u[names[a]], u[names[b]]
            h = np.histogram2d(x, y, bins=6, range=[[0, 1], [0, 1]])[0]
            e = len(x) / 36
            chi = ((h - e) ** 2 / e).sum()
            if (chi - 35) / math.sqrt(70) > 8:
                ctx.fail("not-independent", f"{name} asked for {n} rays at a time: {names[a]} and {names[b]} of its rays "
                                            f"are related (chi-square {chi:.0f} for 35 degrees of freedom)")
    for k, v in u.items():
        # independent draws practically never coincide, nor do they mirror each other
        for how, x in (("repeated", v), ("mirrored", abs(v - 0.5))):
            twins = int((np.diff(np.sort(x)) < 1e-10).sum())
            if twins > 20 + len(v) // 200:
                ctx.fail("repeated-draws", f"{name} asked for {n} rays at a time: the {k} of {twins} of {len(v)} rays "
                                           f"is that of another ray, {how}")
        for b in names:
            for lag in {1, n}:
                x, y = v[:-lag], u[b][lag:]
                if len(x) < 3000:
                    continue
                h = np.histogram2d(x, y, bins=6, range=[[0, 1], [0, 1]])[0]
                e = len(x) / 36
                chi = ((h - e) ** 2 / e).sum()
                if (chi - 35) / math.sqrt(70) > 9:
                    ctx.fail("not-independent", f"{name} asked for {n} rays at a time: {k} of a ray and {b} of the "
                             f"ray {lag} later are related (chi-square {chi:.0f} for 35 degrees of freedom)")
    ctx.probe("uniform")
    ctx.probe("no repeats")


# --------------------------------------------------------------------- execution
def execute(ctx, plan):
    np = core.np
    w = world.World({"mats": {}, "comps": [], "sources": plan["lamps"]})
    spec = {s["name"]: s for s in plan["lamps"]}
    wl = {s["name"]: s["wl"] for s in plan["lamps"]}
    np.random.seed(plan["seed0"])

    def get(name, n, how=""):
        arr = lamps.plain(w.objs[name].generate_rays(n))
        judge(name, n, arr, how)
        return arr

    def judge(name, n, arr, how=""):
        bad = lamps.basics(arr, n, wl[name])
        if bad:
            ctx.fail("malformed", f"{name} asked for {n} rays{how}: {bad}")
        o, d = lamps.to_local(arr, w.model[name])
        bad = lamps.lamp_limits(o, d, arr[9], *spec[name]["args"])
        if bad:
            ctx.fail("out-of-limits", f"{name} asked for {n} rays{how}: {bad}")
        ctx.steps += n
        ctx.probe("limits")

    crafted = ""
    for op in plan["ops"]:
        k = op[0]
        if k == "get":
            get(op[1], op[2], crafted)
            crafted = ""
        elif k == "craft":
            craft(stream(op[1], op[2]))
            crafted = f" (with a stream of '{op[1]}')"
            ctx.probe("crafted stream")
            if op[1] in ("zeros", "ones"):
                ctx.probe("all zero stream" if op[1] == "zeros" else "all one stream")
            ctx.fault(f"random stream of '{op[1]}'")
            ctx.nontrivial = True
        elif k == "seed":
            np.random.seed(op[1])
            ctx.fault("generator reseeded")
        elif k == "burn":
            # rejection samplers never return on a constant stream
            np.random.seed(op[2])
            {"random": lambda: np.random.random_sample(op[2]), "normal": lambda: np.random.normal(size=op[2]),
             "integers": lambda: np.random.randint(0, 9, op[2]), "shuffle": lambda: np.random.permutation(op[2])}[op[1]]()
            ctx.fault("generator used by others")
        elif k == "tf":
            w.tf(op[1], op[2])
        elif k == "wl":
            w.objs[op[1]].wavelength = op[2]
            wl[op[1]] = op[2]
        elif k == "again":
            # the same requests after restoring the generator, whatever happened in between
            if op[2]:
                craft(stream(op[2], op[3]))
            st = np.random.get_state()
            fresh = [r for r in op[1] if spec[r[0]]["kind"] == "lamp"]
            first = [get(*r) for r in fresh]
            more, noise, colour = op[4]
            if more and fresh:
                get(fresh[0][0], 2)
            if noise:
                np.random.random_sample(7)
            if colour:
                for r in fresh[:1]:
                    old, wl[r[0]] = wl[r[0]], colour
                    w.objs[r[0]].wavelength = colour
                    get(*r)
                    w.objs[r[0]].wavelength = wl[r[0]] = old
            np.random.set_state(st)
            ctx.probe("restored")
            ctx.fault("generator state restored")
            for r, a in zip(fresh, first):
                b = get(*r)
                if not np.array_equal(a, b):
                    ctx.fail("not-reproducible", f"{r[0]} asked for {r[1]} rays gives others after the generator's state "
                                                 f"was restored (off by {abs(a - b).max():g})")
                ctx.probe("restored exactly")
                ctx.nontrivial = True
        elif k == "differ":
            if spec[op[1]]["kind"] == "lamp":
                np.random.seed(op[2] + 1)
                a, b = get(op[1], op[2]), get(op[1], op[2])
                if np.array_equal(a[:8], b[:8]):
                    ctx.fail("repeats", f"{op[1]} asked twice for {op[2]} rays gives the same rays")
                ctx.probe("differ")
        elif k == "cut":
            inj = core.run_injected(lambda: w.objs[op[1]].generate_rays(op[2]), op[3], op[4])
            if inj.fired:
                ctx.fault(f"{op[3]} at a bytecode of a request")
                ctx.probe("interrupted")
        elif k == "trace":
            tr = core.pyrayt.RayTracer([w.objs[op[1]]], [core.cg.Sphere(500, material=core.pyrayt.materials.absorber)],
                                       rays_per_source=op[2], generation_limit=1)
            df = tr.trace()
            if len(df) == op[2]:
                arr = np.zeros((13, op[2]))
                arr[3] = 1
                arr[0:3] = df[["x0", "y0", "z0"]].to_numpy().T
                arr[4:7] = df[["x_tilt", "y_tilt", "z_tilt"]].to_numpy().T
                arr[9], arr[10], arr[11], arr[12] = [df[c].to_numpy() for c in ("intensity", "wavelength", "index", "id")]
                judge(op[1], op[2], arr, " by a trace")
                ctx.probe("traced")
        elif k == "stat":
            name, n = op[1], op[2]
            total, parts = (20000 if n > 20 else 4000), []
            while sum(p.shape[1] for p in parts) < total:
                parts.append(lamps.plain(w.objs[name].generate_rays(n)))
            arr = np.hstack(parts)
            arr[12] = np.arange(arr.shape[1])
            judge(name, arr.shape[1], arr, f" ({n} at a time)")
            o, d = lamps.to_local(arr, w.model[name])
            uniformity(ctx, name, n, o, d, spec[name]["args"])
            ctx.nontrivial = True
        ctx.note(*op[:3])
