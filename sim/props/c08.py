"""C08: pinned objects always come back."""
import contextlib
import gc

from .. import core, history, world

CONFIG = {"quick": {"runs": 1300, "wall": 95}, "thorough": {"runs": 40000, "wall": 800}}
RULE = ("A run builds components, nested composites, groups (also with shared members), sources and a camera, and "
        "plays 4-16 seeded operations: opening pins over any of them in any order (nested, overlapping, one pin "
        "re-entered, pins made early and entered later, groups whose members change between, composites together with their own parts), moves and rejected moves at every level, traces, "
        "operations interrupted at a seeded bytecode, and closing pins normally, by an error thrown in, by closing "
        "or dropping the generator that holds the pin. Non-trivial: a pin whose objects had moved was closed.")
PROBES = ["closed normally", "closed by error", "closed by generator close", "closed by garbage collection",
          "composite pinned with own part", "re-entered pin", "overlapping pins", "pin with a group",
          "part moved inside", "interrupted move inside", "rejected move inside", "restored", "shared member",
          "interrupted trace inside", "source pinned",
          "pin of a group that changed", "member removed inside"]
STUB = "user-defined materials are simulated; no other stub"
STEP_UNIT = "operations between pin entries and exits"
ASSUMPTIONS = ["no exception is injected into the pin's own entry and exit code",
               "a pin object re-entered while active is left in the order last in, first out",
               "an interrupt that falls within the update of one object's own matrices leaves that object undefined"]
ENDS = ["normal", "normal", "throw", "throw", "close", "drop", "with", "stack"]


def generate(rng, i, tier):
    big = tier == "thorough" and rng.chance(0.3)
    scene = world.gen_scene(rng, ncomp=(1, 3), nsrc=(1, 2), sim=0.4, enclose=0.2, factories=0.2,
                            depth=2 if not big else 3)
    names = sum((world.all_names(c) for c in scene["comps"]), [])
    tops = [c["name"] for c in scene["comps"]]
    srcs = [s["name"] for s in scene["sources"]]
    groups = []
    for g in range(rng.randrange(0, 3)):
        pool = tops + srcs + [x[0] for x in groups]
        groups.append([f"g{g}", [n for n in pool if rng.chance(0.5)] or [rng.pick(pool)]])
    if groups and rng.chance(0.25):     # another group of the same content
        groups.append([f"g{len(groups)}", list(rng.pick(groups)[1])])
    if rng.chance(0.1):
        groups += [[f"g{len(groups) + k}", []] for k in range(2)]
    allnames = names + srcs + [g[0] for g in groups] + ["cam"]
    ops, scopes, waiting = [], 0, []
    badp = rng.pick([0, 0.1, 0.3])
    for _ in range(rng.randrange(4, 15 if not big else 40)):
        x = rng.random()
        if x < 0.28 or scopes == 0:
            objs = [rng.pick(allnames) for _ in range(rng.randrange(1, 4))]
            if rng.chance(0.35):
                c = rng.pick(scene["comps"])
                objs += rng.sample(world.all_names(c), min(2, len(world.all_names(c))))
            if groups and rng.chance(0.2):
                objs += [g[0] for g in groups]
            rng.shuffle(objs)
            if rng.chance(0.3):     # the pin exists for a while before it is entered
                ops.append(["make", scopes, objs])
                waiting.append(scopes)
                scopes += 1
            else:
                again = rng.pick(waiting) if waiting and rng.chance(0.5) else \
                    rng.randrange(scopes) if scopes and rng.chance(0.25) else None
                ops.append(["open", scopes, objs, again])
                scopes += 1
        elif groups and rng.chance(0.08):
            g, n = rng.pick(groups)[0], rng.pick(tops + srcs)
            ops += [["make", scopes, [g]], ["join", g, n], ["open", scopes + 1, [g], scopes],
                    ["tf", n, world.gen_move(rng, span=3.0, scale=0.4)], ["close", scopes + 1, rng.pick(ENDS), "ValueError"]]
            scopes += 2
        elif groups and rng.chance(0.12):
            g = rng.pick(groups)[0]
            ops.append(["join", g, rng.pick(allnames)] if rng.chance(0.7) else ["part", g, rng.randrange(9)])
        elif x < 0.62:
            n = rng.pick(allnames)
            if rng.chance(badp):
                ops.append(["tf", n, world.gen_bad(rng)])
            elif rng.chance(0.2):
                ops.append(["atf", n, world.gen_op(rng, span=3.0, scale=0.4), rng.weighted(history.EXCS),
                            [round(rng.random(), 6), round(rng.random(), 6)]])
            else:
                ops.append(["tf", n, world.gen_move(rng, span=rng.pick([0.5, 3.0, 30.0]), scale=0.4)])
        elif x < 0.72:
            ops.append(["trace", rng.randrange(1 << 30), rng.weighted(history.EXCS) if rng.chance(0.5) else None,
                        [round(rng.random(), 6), round(rng.random(), 6)]])
        else:
            ops.append(["close", rng.randrange(scopes), rng.pick(ENDS), rng.weighted(history.EXCS)])
    return {"scene": scene, "groups": groups, "ops": ops, "last": rng.pick(ENDS)}


class Scope:
    def __init__(self, k, objs, pin, gen, names, snap):
        self.k, self.objs, self.pin, self.gen, self.names, self.snap = k, objs, pin, gen, names, snap
        self.moved = False


def look(w, n):
    o = w.objs[n]
    p = core.np.array(o.get_world_transform())[:3, 3].tolist()
    return {"obs": world.observe(w, n, p), "at": p}


def pose_diff(w, n, snap):
    now = world.observe(w, n, snap["at"])
    out = []
    for k, v in snap["obs"].items():
        if k == "members" or k.startswith("mat"):
            if v != now.get(k):
                out.append(k)
        elif not close(v, now.get(k)):
            out.append(k)
    return out


def close(a, b, tol=1e-7):
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False
        flat_a = core.np.array(a, dtype=float).ravel()
        flat_b = core.np.array(b, dtype=float).ravel()
        if flat_a.shape != flat_b.shape:
            return False
        scale = max(1.0, float(core.np.abs(flat_a[core.np.abs(flat_a) < 1e200]).max(initial=0)))
        ok = core.np.abs(flat_a - flat_b) <= tol * scale
        ok |= flat_a == flat_b
        return bool(ok.all())
    return a == b


def holder(pin):
    """A generator holding a pin open."""
    with pin as got:
        yield got


def execute(ctx, plan):
    w = history.History(plan["scene"], [], [])
    for g, members in plan["groups"]:
        w.make_group(g, members)
    w.register("cam", core.cg.OrthographicCamera(4, 3.0, 0.75), "camera", [], None)
    tr = core.pyrayt.RayTracer([w.objs[s["name"]] for s in plan["scene"]["sources"]],
                               [w.objs[c["name"]] for c in plan["scene"]["comps"]], 3, 4)
    w.tr["t"], w.done["t"] = tr, None
    scopes, made, torn, joined = {}, {}, set(), set()
    stack = []                  # scopes in the order they were entered
    for op in plan["ops"] + [["closeall", plan["last"]]]:
        ctx.steps += 1
        if op[0] == "make":
            made[op[1]] = (core.pyrayt.pin(*[w.objs[o] for o in op[2]]), op[2])
            ctx.note("make", op[1], *op[2])
        elif op[0] == "join":
            over = {n for n in w.objs if op[1] in w.subtree(n)}
            if op[1] in w.subtree(op[2]) or over & {n for s in stack for n in s.names} or torn:
                continue
            w.objs[op[1]].append(w.objs[op[2]])
            w.children[op[1]].append(op[2])
            joined |= over | {op[1]}
            ctx.note("join", op[1], op[2])
        elif op[0] == "part":
            if not w.children[op[1]] or torn:
                continue
            k = op[2] % len(w.children[op[1]])
            for s in stack:
                if op[1] in s.names:        # who is a member is not a matter of where the objects are
                    s.snap[op[1]]["obs"].pop("members", None)
                    ctx.probe("member removed inside")
            w.objs[op[1]].pop(k)
            w.children[op[1]].pop(k)
            joined.add(op[1])
            ctx.note("part", op[1], k)
        elif op[0] == "open":
            names = sorted({n for o in op[2] for n in w.subtree(o)})
            relatives = {n for n in w.objs if torn & set(w.subtree(n))} | torn
            if relatives & set(names):
                continue
            objs = op[2]
            if op[3] is not None and op[3] in made:
                pin, objs = made[op[3]]
                names = sorted({n for o in objs for n in w.subtree(o)})
                if any(s.pin is pin for s in stack):
                    ctx.probe("re-entered pin")
                if relatives & set(names):
                    continue
            else:
                pin = core.pyrayt.pin(*[w.objs[o] for o in objs])
            if joined & set(names):
                ctx.probe("pin of a group that changed")
            made[op[1]] = (pin, objs)
            snap = {n: look(w, n) for n in names}
            gen = holder(pin)
            next(gen)
            if stack:
                ctx.probe("overlapping pins")
            if any(a != b and b in w.subtree(a) for a in objs for b in objs):
                ctx.probe("composite pinned with own part")
            if any(w.kind[o] == "group" for o in objs):
                ctx.probe("pin with a group")
            if any(o.startswith("s") for o in objs):
                ctx.probe("source pinned")
            if any(len(r) != len(set(r)) for r in (reached(w, o) for o in objs)):
                ctx.probe("shared member")
            s = Scope(op[1], objs, pin, gen, names, snap)
            stack.append(s)
            del gen             # the scope alone holds the generator, so dropping it ends it
            ctx.note("open", op[1], *objs)
        elif op[0] == "tf":
            moved = set(w.subtree(op[1]))
            good, exc = w.tf(op[1], op[2])
            if good and exc is not None and not (torn & moved):
                ctx.fail("transform-raised", f"{op[1]} {op[2]}: {exc!r}")
            if not good:
                ctx.fault("rejected transform")
                if stack:
                    ctx.probe("rejected move inside")
            else:
                mark(ctx, w, stack, op[1])
            ctx.note("tf", op[1])
        elif op[0] == "atf":
            moved = set(w.subtree(op[1]))
            # composites above a torn part would see it, so they must be covered as well
            need = {n for n in w.objs if moved & set(w.subtree(n)) and w.kind[n] != "group"} | moved
            covered = set().union(*[set(s.names) for s in stack]) if stack else set()
            if not need <= covered:
                continue
            obj = w.objs[op[1]]
            inj = core.run_injected(lambda: w.call_tf(obj, op[2]), op[3], op[4])
            if inj.fired:
                ctx.fault(f"{op[3]} at a bytecode of {op[2][0]}")
                if not all(coherent(w.objs[n]) for n in moved):
                    ctx.probe("interrupted within an update")
                    ctx.note("abandoned")
                    return          # the failure fell within an object's own update: what it is now is undefined
                ctx.probe("interrupted move inside")
                torn |= need
            mark(ctx, w, stack, op[1])
        elif op[0] == "trace":
            if torn:
                continue
            if op[2]:
                inj = w.aborted(ctx, ["trace", "t", op[1]], op[2], op[3])
                if inj.fired and stack:
                    ctx.probe("interrupted trace inside")
            else:
                w.do(["trace", "t", op[1]])
        elif op[0] == "close":
            hit = [s for s in stack if s.k == op[1]]
            if hit:
                leave(ctx, w, stack, hit[0], op[2], op[3], torn)
        elif op[0] == "closeall":
            while stack:
                leave(ctx, w, stack, stack[-1], op[1], "RuntimeError", torn)


def reached(w, n):
    return [n] + [m for k in w.children[n] for m in reached(w, k)]


def coherent(o):
    """Whether all that an object says about its pose is one pose."""
    np = core.np
    m, inv = np.asarray(o.get_world_transform(), float), np.asarray(o.get_object_transform(), float)
    back = np.matmul(m, inv)
    want = np.matmul(m, (0, 0, 1, 0))
    return (np.abs(back - np.identity(4)).max() < 1e-6 and np.abs(o.get_position() - m[:, 3]).max() < 1e-9 and
            np.abs(o.get_orientation() - want / np.linalg.norm(want)).max() < 1e-9)


def mark(ctx, w, stack, name):
    ns = set(w.subtree(name))
    for s in stack:
        if ns & set(s.names):
            s.moved = True
            if name not in s.objs:
                ctx.probe("part moved inside")


def leave(ctx, w, stack, s, how, exc, torn):
    later = [x for x in stack[stack.index(s) + 1:] if x.pin is s.pin]
    for x in reversed(later):           # one pin re-entered: inner contexts first
        leave(ctx, w, stack, x, how, exc, torn)
    others = {n: w.objs[n].get_world_transform().tolist() for n in w.objs if n not in s.names}
    boom = core.EXCEPTIONS[exc]("left")
    label = how
    got = None
    try:
        if how == "normal":
            next(s.gen)
        elif how == "throw":
            s.gen.throw(boom)
        elif how == "with":
            label = "throw"
            with contextlib.closing(s.gen):
                raise boom
        elif how == "stack":
            with contextlib.ExitStack() as st:
                st.callback(s.gen.close)
        elif how == "close":
            s.gen.close()
        else:
            s.gen = None
            gc.collect()
    except StopIteration:
        label = "normal"
    except BaseException as e:
        got = e
    stack.remove(s)
    ctx.note("close", s.k, how)
    if how in ("throw", "with"):
        ctx.fault(f"{exc} leaves a pin context")
        if got is not boom and not (isinstance(got, RuntimeError) and got.__cause__ is boom):
            ctx.fail("error-lost", f"{exc} ended the context, the caller got {got!r}")
    elif got is not None:
        ctx.fail("exit-raised", f"leaving a pin ({how}) raised {got!r}")
    ctx.probe({"normal": "closed normally", "throw": "closed by error", "with": "closed by error",
               "close": "closed by generator close", "stack": "closed by generator close",
               "drop": "closed by garbage collection"}[how])
    for n in s.names:
        torn.discard(n)
    for n in s.names:
        # a part of a composite that is still torn elsewhere is judged when that scope closes
        d = pose_diff(w, n, s.snap[n])
        if d:
            ctx.fail("not-restored", f"pin({', '.join(s.objs)}) left ({how}): {d} of {n} differ from when it was entered: "
                     f"world transform {core.np.round(w.objs[n].get_world_transform(), 6).tolist()}, "
                     f"was {core.np.round(s.snap[n]['obs']['world'], 6).tolist()}")
    for n, m in others.items():
        if not close(m, w.objs[n].get_world_transform().tolist()):
            ctx.fail("bystander-moved", f"leaving pin({', '.join(s.objs)}) moved {n}")
    for n in s.names:
        w.model[n] = w.objs[n].get_world_transform().tolist()
    ctx.probe("restored")
    if s.moved:
        ctx.nontrivial = True


shrink = history.shrink_scene
