"""C06: transforms compose exactly, and a rejected transform changes nothing."""
import math

from .. import core, ref, world

CONFIG = {"quick": {"runs": 1400, "wall": 90}, "thorough": {"runs": 40000, "wall": 780}}
RISKY = ("transform",)
RULE = ("A run builds 2-5 objects (plain object, sources, camera, every primitive, nested composites, "
        "factory optics) and applies 3-16 seeded accepted and rejected transforms to them and to their "
        "parts in any interleaving, comparing everything observable with an independent matrix model. "
        "Non-trivial: some object took two or more accepted transforms and at least one full comparison ran.")
PROBES = ["rejected on composite", "rejected after moves", "normals compared", "hits compared",
          "box compared", "camera compared", "quaternion compared", "part moved", "source compared",
          "too flat", "many small steps"]
STUB = "none; faults are rejected transforms"
ASSUMPTIONS = ["interrupts inside a transform are not injected: the property is about operations that "
               "are rejected, not about asynchronous exceptions"]
STEP_UNIT = "transform operations"


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    mats = {"m0": {"k": "mirror"}}
    comps, names, extra = [], [], []
    for c in range(rng.randrange(1, 4)):
        x = rng.random()
        if x < 0.45:
            s = world.gen_leaf(rng, f"c{c}", mats)
        elif x < 0.8:
            s = world.gen_tree(rng, f"c{c}", mats, rng.randrange(1, 3 if not big else 4))
        else:
            s = world.gen_factory(rng, f"c{c}", mats)
        s["ops"] = world.gen_ops(rng, rng.randrange(0, 2))
        comps.append(s)
        names += world.all_names(s)
    sources = []
    if rng.chance(0.4):
        sources.append(world.gen_source(rng, "s0", [("line", 1), ("cone", 1), ("wedge", 1), ("circle", 1)]))
        names.append("s0")
    for e in ("plain", "cam", "grp"):
        if rng.chance(0.3):
            extra.append(e)
            names.append(e)
    kids = {}
    for c in comps:
        parts(c, kids)
    if "grp" in extra:
        kids["grp"] = [c["name"] for c in comps]
    ops = []
    badp = rng.pick([0.0, 0.15, 0.4])
    for _ in range(rng.randrange(3, 17 if not big else 45)):
        n = rng.pick(names)
        if rng.chance(0.015):
            d = rng.pick([-1, 1]) * rng.pick([1e-6, 3e-6, 1e-5])
            ops.append(["creep", n, rng.pick([["move", [d, -d, 2 * d]], ["move_x", [d]], ["rotate_y", [d, "rad"]], ["rotate_z", [d]],
                                              ["scale_all", [1 + d]], ["scale_y", [1 + d]]]), rng.randrange(100, 600)])
            ops.append(["check", rng.randrange(1 << 30)])
        if rng.chance(0.06):
            ops += squash(rng, n, kids.get(n, []))
        elif rng.chance(badp):
            ops.append(["tf", n, world.gen_bad(rng)])
        else:
            ops.append(["tf", n, world.gen_move(rng, span=rng.pick([0.5, 3.0, 20.0]), scale=0.25)])
        if rng.chance(0.25):
            ops.append(["get", rng.pick(names), rng.randrange(1 << 20)])
        if rng.chance(0.3):
            ops.append(["check", rng.randrange(1 << 30)])
    ops.append(["check", rng.randrange(1 << 30)])
    return {"scene": {"mats": mats, "comps": comps, "sources": sources}, "extra": extra, "ops": ops}


def parts(spec, out):
    if spec["kind"] == "csg":
        out[spec["name"]] = [spec["l"]["name"], spec["r"]["name"]]
        parts(spec["l"], out)
        parts(spec["r"], out)


def squash(rng, n, kids):
    """Flatten an object along its axis so far that a second time is too much, with its parts kept out of it or not."""
    spare = kids if rng.chance(0.7) else kids[:1]
    f = 1e-4
    return ([["tf", n, ["along", [n, f]]]] + [["tf", k, ["along", [n, 1 / f]]] for k in spare]
            + [["tf", n, ["along", [n, 1e-5]]] for _ in range(rng.randrange(1, 3))]
            + [["tf", n, ["along", [n, 1 / f]]]] + [["tf", k, ["along", [n, f]]] for k in spare])


def build(plan):
    w = world.World(plan["scene"])
    if "plain" in plan["extra"]:
        w.register("plain", core.cg.WorldObject(), "plain", [], None)
    if "cam" in plan["extra"]:
        w.register("cam", core.cg.OrthographicCamera(4, 3.0, 0.75), "camera", [], None)
    if "grp" in plan["extra"]:
        w.make_group("grp", [c["name"] for c in plan["scene"]["comps"]])
    return w


def execute(ctx, plan):
    w = build(plan)
    specs = {}

    def index(s):
        specs[s["name"]] = s
        if s["kind"] == "csg":
            index(s["l"])
            index(s["r"])
    for c in plan["scene"]["comps"]:
        index(c)
    accepted, full = {}, 0
    for op in plan["ops"]:
        n = op[1]
        if op[0] == "tf":
            if n not in w.objs:
                continue
            op = [op[0], n, w.resolve(n, op[2])]
            bad = ref.op_matrix(op[2]) is None
            ctx.note(n, op[2][0], "bad" if bad else "")
            ctx.steps += 1
            if bad:
                before = {k: world.observe(w, k, pos(w, k)) for k in w.objs}
                where = {k: pos(w, k) for k in w.objs}
                _, exc = w.tf(n, op[2])
                ctx.fault("rejected transform: " + op[2][0])
                if w.children[n]:
                    ctx.probe("rejected on composite")
                if accepted.get(n):
                    ctx.probe("rejected after moves")
                if exc is None:
                    ctx.fail("bad-transform-accepted", f"{n}.{op[2][0]}{op[2][1]} raised nothing")
                unchanged(ctx, w, n, op, exc, before, where)
            else:
                before = {k: world.observe(w, k, pos(w, k)) for k in w.objs} if op[2][0] in RISKY else None
                where = {k: pos(w, k) for k in w.objs}
                _, exc = w.tf(n, op[2])
                if exc is not None and before is not None and too_flat(w, n, ref.op_matrix(op[2])):
                    unchanged(ctx, w, n, op, exc, before, where)
                    ctx.probe("too flat")
                    continue
                if exc is not None:
                    ctx.fail("transform-raised", f"{n}.{op[2][0]}{op[2][1]}: {exc!r}")
                accepted[n] = accepted.get(n, 0) + 1
                if "." in n:
                    ctx.probe("part moved")
        elif op[0] == "creep":
            if n not in w.objs:
                continue
            for _ in range(op[3]):
                _, exc = w.tf(n, op[2])
                if exc is not None:
                    ctx.fail("transform-raised", f"{n}.{op[2][0]}{op[2][1]} repeated: {exc!r}")
            ctx.note(n, "creep", op[2][0])
            ctx.probe("many small steps")
            ctx.steps += op[3]
            accepted[n] = accepted.get(n, 0) + op[3]
        elif op[0] == "get":
            if n in w.objs:
                peek(w.objs[n], op[2])
        else:
            check(ctx, w, specs, op[1], plan)
            full += 1
    ctx.nontrivial = full > 0 and max(accepted.values(), default=0) >= 2


def unchanged(ctx, w, n, op, exc, before, where):
    for k in w.objs:
        d = world.changed(before[k], world.observe(w, k, where[k]))
        if d:
            ctx.fail("rejected-transform-changed-state",
                     f"{n}.{op[2][0]}{op[2][1]} raised {type(exc).__name__} but changed {d} of {k}")


def too_flat(w, n, mat):
    """Would the transform leave the object, or a part of it, with no direction to speak of?"""
    flat = [ref.mul(mat, w.model[k]) for k in w.subtree(n)]
    return any(sum(v[j][2] ** 2 for j in range(3)) ** 0.5 < 1.1e-7 or core.np.linalg.cond([r[:3] for r in v[:3]]) > 1e11
               for v in flat)


def pos(w, k):
    return [w.model[k][i][3] for i in range(3)]


def peek(o, seed):
    """Read some getters (they may cache) and scribble over documented copies."""
    if seed & 1:
        o.get_world_transform()[:] = 5
    if seed & 2:
        o.get_object_transform()[:] = 5
    if seed & 4:
        o.get_position()
    if seed & 8:
        o.get_orientation()


def close(a, b, tol=1e-8):
    scale = max(1.0, max((abs(v) for v in b), default=1.0))
    return all(abs(x - y) <= tol * scale for x, y in zip(a, b)) and len(a) == len(b)


def flat(m):
    return [float(v) for r in m for v in r]


def check(ctx, w, specs, seed, plan):
    np = core.np
    rng = core.Rng(seed)
    for n, o in w.objs.items():
        m = w.model[n]
        mi = ref.inv(m)
        if mi is None or np.linalg.cond([v[:3] for v in m[:3]]) > 1e7:
            continue

        def need(what, got, want, tol=1e-8):
            if not close(got, want, tol):
                ctx.fail("wrong-" + what, f"{n} ({w.kind[n]}): {what} is {[round(v, 9) for v in got][:16]}, the composition gives "
                         f"{[round(v, 9) for v in want][:16]}")
        need("world-matrix", flat(o.get_world_transform()), flat(m))
        need("object-matrix", flat(o.get_object_transform()), flat(mi))
        need("position", [float(v) for v in o.get_position()], ref.apply(m, [0, 0, 0, 1]))
        z = ref.apply(m, [0, 0, 1, 0])
        zn = math.sqrt(sum(v * v for v in z))
        need("orientation", [float(v) for v in o.get_orientation()], [v / zn for v in z])
        p = [rng.uniform(-3, 3) for _ in range(3)] + [1.0]
        need("world-coordinates", [float(v) for v in o.to_world_coordinates(np.array(p))], ref.apply(m, p))
        need("object-coordinates", [float(v) for v in o.to_object_coordinates(np.array(p))], ref.apply(mi, p))
        r = [row[:3] for row in m[:3]]
        gram = [[sum(r[k][i] * r[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        if all(abs(gram[i][j] - (i == j)) < 1e-9 for i in range(3) for j in range(3)) and ref.det3(m) > 0:
            x, y, zq, q = [float(v) for v in o.get_quaternion()]
            rot = [1 - 2 * (y * y + zq * zq), 2 * (x * y - zq * q), 2 * (x * zq + y * q),
                   2 * (x * y + zq * q), 1 - 2 * (x * x + zq * zq), 2 * (y * zq - x * q),
                   2 * (x * zq - y * q), 2 * (y * zq + x * q), 1 - 2 * (x * x + y * y)]
            need("quaternion", rot, [v for row in r for v in row])
            ctx.probe("quaternion compared")
        if n in specs and specs[n]["kind"] not in world.FACTORIES + ("csg",):
            leaf(ctx, w, specs[n], o, m, rng, need)
        elif n in specs and specs[n]["kind"] == "csg":
            composite(ctx, w, specs, n, rng)
        elif n == "cam":
            fresh = core.cg.OrthographicCamera(4, 3.0, 0.75)
            fresh.transform(np.array(m))
            need("camera-rays", np.asarray(o.generate_rays()).ravel().tolist(), np.asarray(fresh.generate_rays()).ravel().tolist())
            ctx.probe("camera compared")
        elif n == "s0":
            f = world.World({"mats": {}, "comps": [], "sources": [dict(plan["scene"]["sources"][0], ops=[])]}).objs["s0"]
            f.transform(np.array(m))
            need("source-rays", np.asarray(o.generate_rays(4)).ravel().tolist(), np.asarray(f.generate_rays(4)).ravel().tolist())
            ctx.probe("source compared")


def leaf(ctx, w, spec, o, m, rng, need):
    np = core.np
    lf = ref.Leaf(spec["name"], spec["kind"], spec["args"], m)
    fresh = world.World({"mats": {}, "comps": [dict(spec, ops=[], mat=None)], "sources": []}).objs[spec["name"]]
    fresh.transform(np.array(m))
    need("bounding-box", np.asarray(o.bounding_volume.bounding_points)[:3].ravel().tolist(),
         np.asarray(fresh.bounding_volume.bounding_points)[:3].ravel().tolist(), 1e-7)
    box = np.asarray(o.bounding_volume.bounding_points)[:3]
    for k in range(3):
        ext = [ref.apply(m, q + [1])[k] for q in outline(spec["kind"], spec["args"], m[k][:3])]
        if min(ext) < box[k].min() - 1e-7 * max(1, abs(min(ext))) or max(ext) > box[k].max() + 1e-7 * max(1, abs(max(ext))):
            ctx.fail("wrong-bounding-box", f"{spec['name']} ({spec['kind']}): spans {min(ext)}..{max(ext)} along {'xyz'[k]}, "
                     f"its bounding box {box[k].min()}..{box[k].max()}")
    ctx.probe("box compared")
    for _ in range(3):
        d = [rng.gauss(0, 1) for _ in range(3)]
        dn = math.sqrt(sum(v * v for v in d))
        d = [v / dn for v in d]
        q = ref.apply(m, [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(0, .5), 1])
        org = [q[k] - 3 * d[k] for k in range(3)]
        rays = np.zeros((2, 4, 1))
        rays[0, :, 0] = org + [1]
        rays[1, :3, 0] = d
        want, shaky = ref.boundary(lf, org, d)
        if shaky:
            continue
        h, s = o.intersect(rays)
        got = sorted(float(v) for v in h[:, 0] if np.isfinite(v))
        if spec["kind"] == "plane":
            got = got[:1]
        ts = [t for t, _ in want]
        if not close(got, ts, 1e-6):
            ctx.fail("wrong-hits", f"{spec['name']} ({spec['kind']}): ray {org} {d} hits at {got}, transformed surface is crossed at {ts}")
        ctx.probe("hits compared")
        for t in ts:
            p = [org[k] + t * d[k] for k in range(3)] + [1.0]
            g = ref.gradient_local(spec["kind"], spec["args"], ref.apply(lf.inv, p))
            if g is None:
                continue
            gw = [sum(lf.inv[k][j] * g[k] for k in range(3)) for j in range(3)]
            gn = math.sqrt(sum(v * v for v in gw))
            nn = np.asarray(o.get_world_normals(np.array([p]).T))[:, 0].tolist()
            if not all(v == v for v in nn):
                continue
            dot = abs(sum(a * b / gn for a, b in zip(gw, nn)))
            if abs(dot - 1) > 1e-6 or abs(nn[3]) > 1e-9:
                ctx.fail("wrong-normal", f"{spec['name']} ({spec['kind']}): normal at {p[:3]} is {nn}, transformed surface has +-{[v / gn for v in gw]}")
            ctx.probe("normals compared")


def outline(kind, a, v):
    """Points of the shape, in its own coordinates, furthest out along and against v."""
    out = []
    for sg in (-1.0, 1.0):
        if kind == "sphere":
            n = math.sqrt(sum(x * x for x in v)) or 1.0
            out.append([sg * a[0] * x / n for x in v])
        elif kind == "cube":
            out += [[a[i][0], a[j][1], a[k][2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)]
        elif kind == "plane":
            out += [[sg * a[0] / 2, t * a[1] / 2, 0.0] for t in (-1, 1)]
        else:
            n = math.hypot(v[0], v[1]) or 1.0
            r, zs = (a[0], a[1:3]) if kind == "cyl" else (math.sqrt(4 * a[0] * a[1]), a[1:2])
            out += [[sg * r * v[0] / n, sg * r * v[1] / n, z] for z in zs]
            if kind == "parab":
                out.append([0.0, 0.0, 0.0])
    return out


def composite(ctx, w, specs, n, rng):
    np = core.np

    def tree(k):
        s = specs[k]
        if s["kind"] == "csg":
            return ref.Node(s["op"], tree(s["l"]["name"]), tree(s["r"]["name"]))
        return ref.Leaf(w.objs[k].get_id(), s["kind"], s["args"], w.model[k])
    t = tree(n)
    lv = ref.leaves(t)
    for _ in range(4):
        lf = rng.pick(lv)
        d = [rng.gauss(0, 1) for _ in range(3)]
        dn = math.sqrt(sum(v * v for v in d))
        d = [v / dn for v in d]
        q = ref.apply(lf.m, [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(0, .5), 1])
        org = [q[k] - 3 * d[k] for k in range(3)]
        want, shaky = ref.boundary(t, org, d)
        if shaky:
            continue
        rays = np.zeros((2, 4, 1))
        rays[0, :, 0] = org + [1]
        rays[1, :3, 0] = d
        h, s = w.objs[n].intersect(rays)
        got = sorted((float(a), int(b)) for a, b in zip(h[:, 0], s[:, 0]) if np.isfinite(a))
        if [b for _, b in got] != [b for _, b in want] or not close([a for a, _ in got], [a for a, _ in want], 1e-6):
            ctx.fail("wrong-hits", f"{n}: ray {org} {d} hits {got}, parts carried along give {want}")
        ctx.probe("hits compared")


def shrink(plan):
    for k in range(len(plan["scene"]["comps"])):
        if plan["scene"]["comps"] and "grp" not in plan["extra"]:
            q = dict(plan, scene=dict(plan["scene"]))
            q["scene"]["comps"] = [c for j, c in enumerate(plan["scene"]["comps"]) if j != k]
            yield q
    for e in plan["extra"]:
        yield dict(plan, extra=[x for x in plan["extra"] if x != e])
