"""C17: a group moves its current members as one rigid body."""
from .. import core, ref, world

CONFIG = {"quick": {"runs": 1800, "wall": 100}, "thorough": {"runs": 60000, "wall": 820}}
RULE = ("A run builds 2-6 objects (plain objects, sources, cameras, primitives, composites, factory optics) and executes a "
        "seeded history of group creations, every kind of list edit on groups and nested groups, copies of members, transforms of groups, "
        "members and parts, and transforms that are rejected, some only by a single member. Oracle: a list of names per "
        "group and a matrix per object, kept by this model; after every operation every object's pose and every group's "
        "membership are compared. Non-trivial: at least two group transforms with an edit between or before them.")
PROBES = ["append", "extend", "insert", "remove", "pop", "del", "set", "setslice", "reverse", "sort", "clear", "iadd", "imul",
          "slice", "concat", "copy", "nested", "composite member", "part member", "listed twice", "carried by another member",
          "member left behind", "rejected", "rejected by one member", "edit moves nothing", "copy of a member", "group moved", "member moved"]
STUB = "none; faults are rejected transforms and edits between transforms"
STEP_UNIT = "operations"
ASSUMPTIONS = ["groups that contain themselves are not generated",
               "interrupts inside a transform are not injected: the property is about transforms that are rejected"]


def generate(rng, i, tier):
    mats = {"m0": {"k": "mirror"}}
    comps, names, extra, sources = [], [], [], []
    for c in range(rng.randrange(1, 4)):
        x = rng.random()
        if x < 0.45:
            s = world.gen_leaf(rng, f"c{c}", mats)
        elif x < 0.8:
            s = world.gen_tree(rng, f"c{c}", mats, rng.randrange(1, 3))
        else:
            s = world.gen_factory(rng, f"c{c}", mats)
        s["ops"] = world.gen_ops(rng, rng.randrange(0, 2))
        comps.append(s)
        names.append(s["name"])
    if rng.chance(0.6):
        sources.append(world.gen_source(rng, "s0", [("line", 1), ("cone", 1), ("static", 1)]))
        names.append("s0")
    for e in ("plain", "cam", "plain2"):
        if rng.chance(0.5):
            extra.append(e)
            names.append(e)
    parts = [n for c in comps for n in world.all_names(c) if "." in n]
    groups, ops = [], []

    def members(k=None, upto=None):
        pool = names + (parts if rng.chance(0.15) else []) + (groups[:upto] if rng.chance(0.5) else [])
        return [rng.pick(pool) for _ in range(rng.randrange(0, 4) if k is None else k)]

    def new(kind, *a):
        g = f"g{len(groups)}"
        ops.append([kind, g, *a])
        groups.append(g)
    new("group", members(rng.randrange(1, 4)), rng.pick(["list", "tuple", "iter"]))
    badp = rng.pick([0.02, 0.1, 0.3])
    for _ in range(rng.randrange(6, 26 if tier == "quick" else 60)):
        x = rng.random()
        g = rng.pick(groups)
        at = groups.index(g)
        if x < 0.28:
            if rng.chance(badp):
                ops.append(["tf", g, world.gen_bad(rng)])
            else:
                ops.append(["tf", g, world.gen_move(rng, span=3, scale=0.25)])
        elif x < 0.36:
            n = rng.pick(names + parts)
            if rng.chance(badp):
                ops.append(["tf", n, world.gen_bad(rng)])
            else:
                ops.append(["tf", n, world.gen_move(rng, span=3, scale=0.25)])
        elif x < 0.40:
            n = rng.pick(names)      # a member so thin that it alone rejects the next scaling of its group
            ax = rng.pick(["scale_z", "scale_all"])
            f, a = rng.pick([5e-4, 1e-4, 0.9]), rng.num(5, 50)
            thin = [ax, [f]]
            if rng.chance(0.4):     # the same squeeze by a matrix that keeps volumes
                sq = [[a, 0, 0, 0], [0, 1 / (a * f), 0, 0], [0, 0, f, 0], [0, 0, 0, 1]]
                sq[rng.pick([0, 1])][rng.randrange(4)] += rng.pick([0, 0, 1])
                thin = ["transform", [sq]]
            h = g
            if len(groups) < 5 and rng.chance(0.4):     # it is a member of a member
                new("group", [n], "list")
                h = groups[-1]
                new("group", members(1, 0) + [h], "list")
                g = groups[-1]
            ops += [["append", h, n], ["tf", n, [ax, [1e-4]]], ["tf", g, thin],
                    ["tf", g, world.gen_move(rng, span=3, scale=0)], ["tf", n, [ax, [1e4]]]]
        elif x < 0.42:
            if len(groups) < 5:
                # groups of equal content at different depths of one group
                same = members(rng.randrange(1, 3), 0)
                new("group", same, "list")
                new("group", list(same), "list")
                new("group", [groups[-2]], "list")
                new("group", rng.sample([groups[-1], groups[-2]], 2), rng.pick(["list", "tuple"]))
                ops.append(["tf", groups[-1], world.gen_move(rng, span=3, scale=0.25)])
        elif x < 0.43:
            if len(groups) < 5:     # a member and a copy of it, in one group
                c = rng.pick(names)
                if c not in ("cam",) and not c.startswith("dup"):
                    d = f"dup{len(groups)}"
                    ops.append(["dup", d, c])
                    names.append(d)
                    new("group", rng.sample([c, d], 2), rng.pick(["list", "tuple"]))
                    ops += [["tf", groups[-1], world.gen_move(rng, span=3, scale=0.25)] for _ in range(rng.randrange(1, 3))]
        elif x < 0.47:
            if len(groups) < 6:
                new("group", members(), rng.pick(["list", "tuple", "iter"]))
        elif x < 0.52:
            if len(groups) < 6:
                k = rng.pick(["slice", "concat", "radd", "copy", "mul"])
                new(k, g, *{"slice": lambda: [rng.randrange(0, 3), rng.randrange(0, 5)],
                            "concat": lambda: [members(None, at)], "radd": lambda: [members(None, at)],
                            "copy": lambda: [], "mul": lambda: [rng.randrange(0, 3)]}[k]())
        else:
            k = rng.weighted([("append", 5), ("extend", 2), ("insert", 2), ("remove", 2), ("pop", 2), ("del", 2), ("set", 2),
                              ("setslice", 1), ("reverse", 1), ("sort", 1), ("clear", 0.5), ("iadd", 1), ("imul", 0.3),
                              ("delslice", 0.7), ("extendself", 0.3)])
            a = {"append": lambda: [members(1, at)[0]], "extend": lambda: [members(None, at), rng.pick(["list", "iter", "tuple"])],
                 "insert": lambda: [rng.randrange(-2, 4), members(1, at)[0]], "remove": lambda: [rng.pick(names)],
                 "pop": lambda: [rng.pick([-1, 0, 1])], "del": lambda: [rng.pick([-1, 0, 1])],
                 "set": lambda: [rng.pick([-1, 0, 1]), members(1, at)[0]],
                 "setslice": lambda: [rng.randrange(0, 2), rng.randrange(1, 4), members(None, at)],
                 "reverse": lambda: [], "sort": lambda: [], "clear": lambda: [], "iadd": lambda: [members(None, at)],
                 "imul": lambda: [rng.randrange(1, 3)], "delslice": lambda: [rng.randrange(0, 2), rng.randrange(1, 4)],
                 "extendself": lambda: []}[k]()
            ops.append([k, g, *a])
    return {"scene": {"mats": mats, "comps": comps, "sources": sources}, "extra": extra, "ops": ops}


class Model:
    def __init__(self, plan):
        self.w = world.World(plan["scene"])
        w = self.w
        for e in plan["extra"]:
            w.register(e, core.cg.OrthographicCamera(3, 2.0, 1.0) if e == "cam" else core.cg.WorldObject(), e, [], None)
        self.groups = {}           # name -> [member names]

    def kids(self, n):
        return self.groups[n] if n in self.groups else self.w.children[n]

    def below(self, n):
        out = []
        for k in self.kids(n):
            out += [k] + self.below(k)
        return out

    def moved(self, n):
        """Objects a transform of n moves, every one of them once."""
        return list(dict.fromkeys([n] + self.below(n)))


LISTS = {"append": lambda l, m: l.append(m), "remove": lambda l, m: l.remove(m), "pop": lambda l, k: l.pop(k),
         "insert": lambda l, k, m: l.insert(k, m), "reverse": lambda l: l.reverse(), "clear": lambda l: l.clear()}


def edit(l, k, a, order):
    """One list edit, on the real group or on the list of names that models it."""
    if k in LISTS:
        return LISTS[k](l, *a)
    if k == "extend":
        l.extend(iter(a[0]) if a[1] == "iter" else tuple(a[0]) if a[1] == "tuple" else a[0])
    elif k == "del":
        del l[a[0]]
    elif k == "delslice":
        del l[a[0]:a[1]]
    elif k == "set":
        l[a[0]] = a[1]
    elif k == "setslice":
        l[a[0]:a[1]] = a[2]
    elif k == "sort":
        l.sort(key=order)
    elif k == "iadd":
        l += a[0]
    elif k == "imul":
        l *= a[0]
    elif k == "extendself":
        l.extend(l)
    else:
        raise core.HarnessError(k)


def resolve(m, a):
    """Names in arguments replaced by the objects they stand for."""
    if isinstance(a, list):
        return [resolve(m, x) for x in a]
    return m.w.objs.get(a, a) if isinstance(a, str) else a


def execute(ctx, plan):
    m = Model(plan)
    w = m.w
    names = {}
    for n, o in w.objs.items():
        names.setdefault(id(o), n)
    left = set()                   # objects that were members and no longer are
    moves, edits = 0, 0
    for op in plan["ops"]:
        k, n, a = op[0], op[1], op[2:]
        ctx.steps += 1
        if k == "dup":
            if n in w.objs or a[0] not in w.objs or a[0] in m.groups:
                continue
            pair = w.copies(a[0])
            if pair is None:
                ctx.probe("cannot be copied")
                continue
            new, memo = pair
            old = w.subtree(a[0])
            alias = {x: n + x[len(a[0]):] if x.startswith(a[0]) else f"{n}.{x}" for x in old}
            for x in old:
                w.register(alias[x], memo[id(w.objs[x])], w.kind[x], [alias[y] for y in w.children[x]], None)
                w.model[alias[x]] = [list(r) for r in w.model[x]]
                names.setdefault(id(w.objs[alias[x]]), alias[x])
            ctx.probe("copy of a member")
            compare(ctx, m, names, op)
        elif k in ("group", "slice", "concat", "radd", "copy", "mul"):
            if n in w.objs:
                continue
            if k != "group" and a[0] not in m.groups:
                continue
            known = [x for x in (a[0] if k == "group" else a[1] if k in ("concat", "radd") else []) if x in w.objs]
            base = m.groups.get(a[0]) if k != "group" else None
            want = {"group": lambda: known, "slice": lambda: base[a[1]:a[2]], "concat": lambda: base + known,
                    "radd": lambda: known + base, "copy": lambda: list(base), "mul": lambda: base * a[1]}[k]()
            m.groups[n] = list(want)
            objs = [w.objs[x] for x in known]
            src = w.objs[a[0]] if k != "group" else None
            g = {"group": lambda: core.cg.ObjectGroup(iter(objs) if a[1] == "iter" else tuple(objs) if a[1] == "tuple" else objs),
                 "slice": lambda: src[a[1]:a[2]], "concat": lambda: src + objs, "radd": lambda: objs + src,
                 "copy": lambda: src.copy(), "mul": lambda: src * a[1]}[k]()
            w.register(n, g, "group", [], None)
            names[id(g)] = n
            ctx.probe(k if k in ("slice", "concat", "copy") else "concat" if k == "radd" else "imul" if k == "mul" else "append")
            compare(ctx, m, names, op)
        elif k == "tf":
            if n in w.objs:
                moves += transform(ctx, m, names, op, left)
        elif n in m.groups:
            a = [[x for x in v if x in w.objs] if isinstance(v, list) else v for v in a]
            if any(isinstance(v, str) and v not in w.objs and v not in ("list", "iter", "tuple") for v in a):
                continue
            old = list(m.groups[n])
            order = {x: j for j, x in enumerate(sorted(w.objs, reverse=True))}
            model_err = None
            try:
                edit(m.groups[n], k, a, order.get)
            except (IndexError, ValueError) as e:
                model_err = type(e)
            real_err = None
            try:
                edit(w.objs[n], k, resolve(m, a), lambda o: order[names[id(o)]])
            except (IndexError, ValueError) as e:
                real_err = type(e)
            if model_err != real_err:
                ctx.fail("wrong-edit", f"{op} on {old}: {real_err} instead of {model_err}")
            left |= set(old) - set(m.groups[n])
            if old != m.groups[n]:
                edits += 1
                ctx.fault("membership edit: " + k)
                ctx.probe({"delslice": "del", "extendself": "extend"}.get(k, k))
                ctx.probe("edit moves nothing")
            compare(ctx, m, names, op)
        ctx.note(k, n)
    ctx.nontrivial = moves >= 2 and edits >= 1


def transform(ctx, m, names, op, left):
    w, n = m.w, op[1]
    op = list(op)
    op[2] = w.resolve(n, op[2])
    mat = ref.op_matrix(op[2])
    before = {x: world.observe(w, x, pos(w, x)) for x in w.objs}
    where = {x: pos(w, x) for x in w.objs}
    exc = None
    try:
        w.call_tf(w.objs[n], op[2])
    except Exception as e:
        exc = e
    moved = m.moved(n)
    if exc is not None:
        for x in w.objs:
            d = world.changed(before[x], world.observe(w, x, where[x]))
            if d:
                ctx.fail("rejected-transform-changed-state", f"{op} raised {type(exc).__name__} but changed {d} of {x}")
        ctx.probe("rejected")
        ctx.fault("rejected transform")
        if mat is not None:
            after = [ref.mul(mat, w.model[x]) for x in moved]
            if all(sum(v[j][2] ** 2 for j in range(3)) ** 0.5 > 1.1e-7 and
                   core.np.linalg.cond([r[:3] for r in v[:3]]) < 1e11 for v in after):
                ctx.fail("transform-raised", f"{op}: {exc!r}")
            ctx.probe("rejected by one member")
        return 0
    if mat is None:
        ctx.fail("bad-transform-accepted", f"{op} raised nothing")
    for x in moved:
        w.model[x] = ref.mul(mat, w.model[x])
    compare(ctx, m, names, op)
    still = set(w.objs) - set(moved)
    for x in still:
        if x not in m.groups and world.changed(before[x], world.observe(w, x, where[x])) and \
                not set(m.below(x)) & set(moved):
            ctx.fail("moved-along", f"{op} changed {x}, which is not a member")
    if n in m.groups:
        ctx.probe("group moved")
        if left & still:
            ctx.probe("member left behind")
        mem = m.groups[n]
        if len(set(mem)) < len(mem):
            ctx.probe("listed twice")
        if any(x in m.groups for x in mem):
            ctx.probe("nested")
        if any(w.children.get(x) for x in mem):
            ctx.probe("composite member")
        if any("." in x for x in mem):
            ctx.probe("part member")
        if set(mem) & {y for x in set(mem) for y in m.below(x)}:
            ctx.probe("carried by another member")
        return 1 if len(mem) else 0
    if any(n in v for v in m.groups.values()):
        ctx.probe("member moved")
    return 0


def pos(w, x):
    return [w.model[x][j][3] for j in range(3)]


def compare(ctx, m, names, op):
    np, w = core.np, m.w
    for x, o in w.objs.items():
        want = np.array(w.model[x])
        got = np.asarray(o.get_world_transform())
        # columns may differ in size by orders of magnitude, so each is judged by its own
        tol = 1e-9 * np.maximum(abs(want).max(axis=0), [1e-12] * 3 + [1.0])
        if (abs(got - want) > tol).any():
            ctx.fail("wrong-pose", f"after {op}: {x} ({w.kind[x]}) is at {got[:3, 3].tolist()}, should be at "
                                   f"{want[:3, 3].tolist()} (largest difference {abs(got - want).max():g})")
        if abs(np.asarray(o.get_position())[:3] - want[:3, 3]).max() > 1e-9 * max(1.0, abs(want).max()):
            ctx.fail("wrong-pose", f"after {op}: the position of {x} is {o.get_position()}, should be {want[:3, 3].tolist()}")
        inv = ref.inv(w.model[x])
        if inv is not None and np.linalg.cond(want) < 1e4:
            iv = np.array(inv)
            if (abs(np.asarray(o.get_object_transform()) - iv) > 1e-8 * max(1.0, abs(iv).max())).any():
                ctx.fail("wrong-pose", f"after {op}: the object transform of {x} is not the inverse of its pose")
    for g, mem in m.groups.items():
        got = [names.get(id(o), "?") for o in w.objs[g]]
        if got != mem or len(w.objs[g]) != len(mem):
            ctx.fail("wrong-members", f"after {op}: {g} holds {got}, should hold {mem}")


def shrink(plan):
    import copy
    for k in range(len(plan["scene"]["comps"])):
        q = copy.deepcopy(plan)
        del q["scene"]["comps"][k]
        yield q
