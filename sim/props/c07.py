"""C07: composites stay true to where their parts are now."""
import math

from .. import core, ref, world

CONFIG = {"quick": {"runs": 1600, "wall": 90}, "thorough": {"runs": 30000, "wall": 780}}
RULE = ("A run builds 1-2 composites (nested up to 3 deep, some sharing a part, some members of a "
        "group), then applies 2-14 seeded moves at any level, probing after several of them with rays "
        "aimed at the parts. Non-trivial: some part below the top level was moved on its own (or a "
        "shared part or group moved) and a probe ray was decided clearly as a hit.")
PROBES = ["part moved", "grandchild moved", "shared part", "group moved", "parts apart", "clear hit",
          "clear miss", "replica compared", "box checked", "part used twice", "thin shell", "far apart", "wafer"]
STUB = "none (no threads or user callbacks are needed; the moves are the schedule)"
ASSUMPTIONS = ["reference solids: sphere, cuboid, capped cylinder, capped paraboloid; rays whose "
               "reference decision is within 1e-5 of a tie or edge are not judged"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    mats = {"m0": {"k": "mirror"}}
    comps = []
    for c in range(rng.randrange(1, 3)):
        depth = rng.weighted([(1, 2), (2, 4), (3, 3 if not big else 6)])
        t = world.gen_tree(rng, f"c{c}", mats, depth, spread=rng.pick([0.4, 1.0, 3.0]),
                           ops=rng.pick([("union", "intersect", "difference"), ("union",),
                                         ("union", "difference"), ("intersect", "union")]))
        if t["kind"] != "csg":
            t = {"name": f"c{c}", "kind": "csg", "op": rng.pick(["union", "difference", "intersect"]),
                 "l": world.gen_leaf(rng, f"c{c}.l", mats, planes=False),
                 "r": world.gen_leaf(rng, f"c{c}.r", mats, planes=False), "ops": []}
        if rng.chance(0.12):
            # a thin shell, or a body in two coats: much the same part twice, all but in the same place
            r = world.renamed(t["l"], t["name"] + ".r")
            eps = rng.pick([1e-4, 1e-3, 0.01])
            r["ops"] = r["ops"] + [rng.pick([["scale_all", [1 - eps]], ["scale_all", [1 + eps]],
                                             ["move", [rng.pick([-eps, eps]), 0, rng.pick([0, eps])]]])]
            t["r"] = r
        comps.append(t)
    if rng.chance(0.25):
        # a second composite that reuses a part of the first
        part = rng.pick(world.all_names(comps[0])[1:])
        comps.append({"name": "cs", "kind": "csg", "op": rng.pick(["union", "difference", "intersect"]),
                      "l": {"kind": "ref", "name": part},
                      "r": world.gen_leaf(rng, "cs.r", mats, planes=False), "ops": []})
    if rng.chance(0.25):
        # a third composite assembled later from existing composites
        comps.append({"name": "top", "kind": "csg", "op": rng.pick(["union", "difference", "intersect"]),
                      "l": {"kind": "ref", "name": "c0"},
                      "r": world.gen_leaf(rng, "top.r", mats, planes=False), "ops": []})
    if rng.chance(0.12):
        # "one or the other but not both": two parts used twice in one composite
        a, b = (world.gen_leaf(rng, "x0.l." + k, mats, planes=False) for k in "lr")
        for lf in (a, b):
            lf["ops"] = world.gen_ops(rng, rng.randrange(0, 3), span=0.8)
        again = [{"kind": "ref", "name": "x0.l.l"}, {"kind": "ref", "name": "x0.l.r"}]
        comps.append({"name": "x0", "kind": "csg", "op": rng.pick(["difference", "union", "intersect"]), "ops": [],
                      "l": {"name": "x0.l", "kind": "csg", "op": "union", "l": a, "r": b, "ops": []},
                      "r": {"name": "x0.r", "kind": "csg", "op": "intersect", "l": again[0], "r": again[1], "ops": []}})
    thin = rng.chance(0.12)
    if thin:
        # a wafer: parts that overlap by next to nothing
        if rng.chance(0.7):
            a = [rng.num(0.6, 1.4) for _ in range(3)]
            lf, ax = {"kind": "cube", "args": [[-v for v in a], a]}, rng.randrange(3)
            ln = 2 * a[ax]
        else:
            z = rng.num(0.5, 1.3)
            lf, ax, ln = {"kind": "cyl", "args": [rng.num(0.8, 1.3), -z, z]}, 2, 2 * z
        at = [0.0] * 3
        at[ax] = rng.pick([-1, 1]) * ln * (1 - rng.pick([3e-4, 5e-4, 1e-3, 0.01]))
        comps.insert(0, {"name": "th", "kind": "csg", "op": "intersect", "ops": [],
                         "l": dict(lf, name="th.l", mat="m0", ops=[]), "r": dict(lf, name="th.r", mat="m0", ops=[])})
    names = sum((names_of(c) for c in comps), [])
    group = rng.chance(0.3)
    if group:
        names.append("g")
    ops = []
    if thin:
        if rng.chance(0.5):
            ops.append(["probe", rng.randrange(1 << 30)])
        ops.append(["tf", "th.r", ["move", at]])
        for _ in range(2):
            ops.append(["probe", rng.randrange(1 << 30)])
            ops.append(["tf", "th", world.gen_move(rng, span=2.0, scale=0)])
    for _ in range(rng.randrange(2, 15 if not big else 40)):
        n = rng.pick(names)
        if rng.chance(0.6) and any("." in x for x in names):
            n = rng.pick([x for x in names if "." in x])
        ops.append(["tf", n, world.gen_move(rng, span=rng.pick([0.5, 2.0, 6.0]), scale=0.15)])
        if rng.chance(0.03):
            ops.append(["tf", n, ["move", [rng.pick([-1, 0, 1]) * rng.num(50, 900) for _ in range(3)]]])
        if rng.chance(0.4):
            ops.append(["probe", rng.randrange(1 << 30)])
        if rng.chance(0.05):
            ops.append(["tf", n, world.gen_bad(rng)])
        if rng.chance(0.08):
            ops.append(["trace", rng.randrange(1 << 30)])
        if rng.chance(0.05):
            ops.append(["render", rng.pick(["xy", "xz"])])
    ops.append(["probe", rng.randrange(1 << 30)])
    return {"scene": {"mats": mats, "comps": comps, "sources": []}, "ops": ops,
            "group": group and [c["name"] for c in comps if c["name"] in ("c0", "c1")],
            "rays": 10 if not big else 20}


def names_of(s):
    if s["kind"] == "ref":
        return []
    if s["kind"] == "csg":
        return [s["name"]] + names_of(s["l"]) + names_of(s["r"])
    return [s["name"]]


def spec_index(scene):
    out = {}

    def go(s):
        if s["kind"] != "ref":
            out[s["name"]] = s
            if s["kind"] == "csg":
                go(s["l"])
                go(s["r"])
    for c in scene["comps"]:
        go(c)
    return out


def ref_tree(w, idx, name):
    s = idx[name]
    if s["kind"] == "csg":
        return ref.Node(s["op"], ref_tree(w, idx, s["l"]["name"]), ref_tree(w, idx, s["r"]["name"]))
    return ref.Leaf(name, s["kind"], s["args"], w.model[name])


def fresh(w, idx, name, ids):
    """A composite assembled now from new parts at the parts' present positions."""
    s = idx[name]
    if s["kind"] == "csg":
        return getattr(core.cg.csg, s["op"])(fresh(w, idx, s["l"]["name"], ids),
                                             fresh(w, idx, s["r"]["name"], ids))
    g, p = core.cg, s["args"]
    o = {"sphere": lambda: g.Sphere(p[0]), "cyl": lambda: g.Cylinder(p[0], p[1], p[2]),
         "parab": lambda: g.Paraboloid(p[0], p[1]),
         "cube": lambda: g.Cuboid(tuple(p[0]), tuple(p[1]))}[s["kind"]]()
    o.transform(w.objs[name].get_world_transform())
    ids[o.get_id()] = name
    return o


def execute(ctx, plan):
    np = core.np
    w = world.World(plan["scene"])
    idx = spec_index(plan["scene"])
    ids = {w.objs[n].get_id(): n for n, s in idx.items() if s["kind"] != "csg"}
    for c in plan["scene"]["comps"]:
        for side in ("l", "r"):
            if c.get(side, {}).get("kind") == "ref":
                w.children[c["name"]] = [c["l"]["name"], c["r"]["name"]]
    if plan.get("group"):
        w.make_group("g", plan["group"])
    tops = [c["name"] for c in plan["scene"]["comps"]]
    moved = hit = False
    for op in plan["ops"]:
        if op[0] == "tf":
            if op[1] not in w.objs:
                continue
            good, exc = w.tf(op[1], op[2])
            ctx.note("tf", op[1], op[2][0])
            if good and exc is not None:
                ctx.fail("transform-raised", f"{op[1]} {op[2]}: {exc!r}")
            if not good:
                ctx.fault("rejected transform")
                if exc is None:
                    return     # left to C06
            else:
                d = op[1].count(".")
                if d:
                    moved = True
                    ctx.probe("part moved" if d == 1 else "grandchild moved")
                if op[1] == "g":
                    moved = True
                    ctx.probe("group moved")
                if "cs" in w.objs and op[1] in (idx["cs"]["l"]["name"], "cs"):
                    moved = True
                    ctx.probe("shared part")
        elif op[0] == "trace":
            rng = core.Rng(op[1])
            src = core.pyrayt.components.ConeOfRays(rng.num(5, 60))
            src.move_x(-5)
            core.pyrayt.RayTracer(src, [w.objs[t] for t in tops], 6, 3).trace()
            ctx.probe("traced")
        elif op[0] == "render":
            cam = core.cg.OrthographicCamera(8, 8, 1)
            cam.move_x(-20)
            core.cg.renderers.EdgeRender(cam, [w.objs[t] for t in tops]).render()
            ctx.probe("rendered")
        else:
            hit = probe(ctx, w, idx, ids, op[1], plan["rays"]) or hit
    ctx.nontrivial = moved and hit


def probe(ctx, w, idx, ids, seed, nrays):
    np = core.np
    rng = core.Rng(seed)
    hit = False
    for name in [n for n, s in idx.items() if s["kind"] == "csg"]:
        tree = ref_tree(w, idx, name)
        lv = ref.leaves(tree)
        if any(lf.inv is None for lf in lv):
            return hit
        cs = [[lf.m[i][3] for i in range(3)] for lf in lv]
        far = max((math.dist(a, b) for a in cs for b in cs), default=0)
        if far > 6:
            ctx.probe("far apart" if far > 60 else "parts apart")
        rays = np.zeros((2, 4, nrays))
        rays[0, 3] = 1
        for k in range(nrays):
            lf = rng.pick(lv)
            q = ref.apply(lf.m, [rng.uniform(-.7, .7), rng.uniform(-.7, .7), rng.uniform(-.7, .7), 1])
            dd = [rng.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(v * v for v in dd))
            dd = [v / n for v in dd]
            back = rng.uniform(-2, 8) if rng.chance(0.95) else rng.uniform(8, 700)
            rays[0, :3, k] = [q[i] - back * dd[i] for i in range(3)]
            rays[1, :3, k] = dd
        first = rng.chance(0.5)
        if first:       # the volume is read before anything else makes the object bring itself up to date
            lo, hi = volume(w.objs[name])
            ctx.probe("box read before any ray")
        h, s = w.objs[name].intersect(rays.copy())
        fids = {}
        fh, fs = fresh(w, idx, name, fids).intersect(rays.copy())
        if not first:
            lo, hi = volume(w.objs[name])
        for k in range(nrays):
            o, d = rays[0, :3, k].tolist(), rays[1, :3, k].tolist()
            got = sorted((float(a), ids.get(int(b), "?")) for a, b in zip(h[:, k], s[:, k]) if np.isfinite(a))
            new = sorted((float(a), fids.get(int(b), "?")) for a, b in zip(fh[:, k], fs[:, k]) if np.isfinite(a))
            want, shaky = ref.boundary(tree, o, d)
            if shaky:
                ctx.probe("not judged")
                continue
            desc = f"{name}, ray from {o} along {d}: hits {got}"
            if not match(got, new):
                ctx.fail("differs-from-fresh", f"{desc}; freshly assembled gives {new}")
            if not match(got, want):
                ctx.fail("wrong-boundary", f"{desc}; the boolean combination has {want}")
            ctx.probe("replica compared")
            ctx.probe("clear hit" if want else "clear miss")
            hit = hit or bool(want)
            if name == "th" and len(want) == 2 and want[1][0] - want[0][0] < 0.005:
                ctx.probe("wafer")
            for t, lb in want:
                p = [o[i] + t * d[i] for i in range(3)]
                tol = 1e-6 * max(1.0, max(map(abs, p)))
                if any(p[i] < lo[i] - tol or p[i] > hi[i] + tol for i in range(3)):
                    ctx.fail("box-does-not-enclose", f"{name}: surface point {p} outside its bounding "
                             f"volume {lo.tolist()}..{hi.tolist()}")
                ctx.probe("box checked")
        ctx.steps += nrays
    for n, s in idx.items():
        if s["kind"] == "csg" and len(s["r"].get("ops", [])) and s["r"]["ops"][-1][0] in ("scale_all", "move") and \
                s["l"]["kind"] == s["r"]["kind"] and s["l"].get("args") == s["r"].get("args") is not None:
            ctx.probe("thin shell")
        if n.startswith("x0"):
            ctx.probe("part used twice")
        got, want = w.objs[n].get_world_transform().tolist(), w.model[n]
        if any(abs(x - y) > 1e-7 * max(1.0, abs(y)) for r, q in zip(got, want) for x, y in zip(r, q)):
            ctx.fail("part-elsewhere", f"{n} is at {got}, the moves of it and what it is part of take it to {want}")
        if s["kind"] == "csg":
            continue
        lf = ref.Leaf(n, s["kind"], s["args"], w.model[n])
        lo, hi = volume(w.objs[n])
        for _ in range(3):
            dd = [rng.gauss(0, 1) for _ in range(3)]
            q = ref.apply(lf.m, [rng.uniform(-.3, .3), rng.uniform(-.3, .3), rng.uniform(0.1, .3), 1])
            for t, _ in lf.crossings(q, dd)[0]:
                p = [q[i] + t * dd[i] for i in range(3)]
                tol = 1e-6 * max(1.0, max(map(abs, p)))
                if any(p[i] < lo[i] - tol or p[i] > hi[i] + tol for i in range(3)):
                    ctx.fail("box-does-not-enclose", f"{n}: surface point {p} outside its bounding "
                             f"volume {lo.tolist()}..{hi.tolist()}")
    ctx.note("probe", seed % 1000)
    return hit


def volume(obj):
    box = core.np.asarray(obj.bounding_volume.bounding_points)[:3]
    return box.min(axis=1), box.max(axis=1)


def match(a, b):
    return len(a) == len(b) and all(abs(x[0] - y[0]) <= 1e-6 * max(1, abs(y[0])) and x[1] == y[1]
                                    for x, y in zip(a, b))


def shrink(plan):
    if len(plan["scene"]["comps"]) > 1:
        for k in range(len(plan["scene"]["comps"])):
            q = dict(plan, scene=dict(plan["scene"]))
            q["scene"]["comps"] = [c for j, c in enumerate(plan["scene"]["comps"]) if j != k]
            try:
                known = set(spec_index(q["scene"]))
            except KeyError:
                continue
            if plan.get("group") and not set(plan["group"]) <= known:
                continue
            if any(c.get("l", {}).get("kind") == "ref" and c["l"]["name"] not in known
                   for c in q["scene"]["comps"]):
                continue
            yield q
    if plan["rays"] > 1:
        yield dict(plan, rays=max(1, plan["rays"] // 2))
