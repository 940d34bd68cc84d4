"""C15: glass data always reflects the glass's current coefficients."""
import copy
import gc
import itertools
import math
import pickle

from .. import core, history

CONFIG = {"quick": {"runs": 1800, "wall": 100}, "thorough": {"runs": 120000, "wall": 820}}
RULE = ("A run executes a seeded history over any number of glasses (library, Sellmeier, constant, user-defined with "
        "their own equality and hash): creation, copying, discarding with garbage collection, coefficient changes, index "
        "and Abbe queries for scalars and arrays, edits to arrays passed in or returned, queries cut short at a "
        "bytecode, queries by 2-4 simulated threads while another changes coefficients, and traces through a tilted "
        "plate. Oracle: the defining formulas evaluated here from the coefficients each glass was last given. "
        "Non-trivial: at least one answer checked after a change, discard, fault or thread switch.")
PROBES = ["index", "index array", "close colours", "abbe", "after change", "after discard", "reused address", "many glasses", "user glass",
          "equal glasses", "copy", "library", "interrupted", "threads agree", "changed while asked", "traced", "thread killed",
          "constant glass has no finite abbe", "array edited"]
STUB = "threads are real but run one at a time under the seeded scheduler; user glasses are simulated"
STEP_UNIT = "bytecode instructions of the code under test executed under the scheduler, or dry-run to place a fault"
ASSUMPTIONS = ["wavelengths 0.35-2 micron and coefficients away from resonances",
               "an answer given while another thread changes the glass may use the old or the new coefficient"]
CLOSE = [1e-3, 3e-4, -2e-4, 4e-5, -1e-5, 6e-7]
ABBE = (0.4861, 0.5893, 0.6563)
FIELDS = {"sell": ("b1", "b2", "b3", "c1", "c2", "c3"), "named": ("b1", "b2", "b3", "c1", "c2", "c3"),
          "cauchy": ("a", "b"), "twin": ("a", "b"), "unhash": ("a", "b")}
RANGE = {"b1": (0.5, 1.7), "b2": (0.0, 0.4), "b3": (0.4, 1.5), "c1": (0.004, 0.015), "c2": (0.015, 0.06), "c3": (90, 140),
         "a": (1.3, 1.8), "b": (0.002, 0.02)}
LIB = {"BK7": (1.03961212, 0.231792344, 1.01046945, 6.00069867e-3, 2.00179144e-2, 1.03560653e02),
       "SF5": (1.52481889, 0.187085527, 1.42729015, 0.011254756, 0.0588995392, 129.141675),
       "SF2": (1.40301821, 0.231767504, 0.939056586, 0.0105795466, 0.0493226978, 112.405955)}


def gen_coefs(rng, kind):
    if kind == "basic":
        return [rng.num(1.2, 2.0)]
    return [round(rng.uniform(*RANGE[f]), 6) for f in FIELDS[kind]]


def gen_ask(rng):
    x = rng.random()
    if x < 0.45:
        return ["abbe"]
    if x < 0.7:
        return ["index", rng.num(0.35, 2.0)]
    shape = rng.pick([[1], [3], [2, 2], [0], [5]]) if not rng.chance(0.03) else [rng.pick([300, 1100])]
    n = math.prod(shape)
    if rng.chance(0.12):         # whole numbers of microns, or an array without dimensions
        shape = rng.pick([shape, []])
        n = math.prod(shape)
        return ["array", shape, [rng.pick([1, 2]) for _ in range(n)], None, "int"]
    if rng.chance(0.05):
        return ["array", [], [rng.num(0.35, 2.0)], None]
    return ["array", shape, [rng.num(0.35, 2.0) for _ in range(n)], rng.pick([None, None, "input", "output"])]


def generate(rng, i, tier):
    ops, live, k = [], [], 0

    def make():
        nonlocal k
        kind = rng.weighted([("sell", 6), ("basic", 2), ("cauchy", 2), ("twin", 2), ("unhash", 1), ("lib", 2), ("named", 1)])
        name = f"g{k}"
        k += 1
        if kind == "lib":
            ops.append(["lib", name, rng.pick(sorted(LIB))])
            live.append((name, "sell"))
        else:
            ops.append(["make", name, kind, gen_coefs(rng, kind)])
            live.append((name, kind))

    def change(name, kind):
        f = rng.pick(FIELDS[kind])
        return ["coef", name, f, round(rng.uniform(*RANGE[f]), 6)]
    for _ in range(rng.randrange(1, 4)):
        make()
    if rng.chance(0.06):
        for _ in range(rng.pick([120, 150])):
            make()
        for n, _k in list(live):
            ops.append(["ask", n, ["abbe"]])
    for _ in range(rng.randrange(8, 30 if tier == "quick" else 60)):
        x = rng.random()
        if not live:
            make()
        name, kind = rng.pick(live)
        if x < 0.38:
            ops.append(["ask", name, gen_ask(rng)])
            if ops[-1][2][0] == "index" and rng.chance(0.4):
                # and at a wavelength next to it
                ops.append(["ask", name, ["index", ops[-1][2][1] + rng.pick(CLOSE)]])
        elif x < 0.54:
            if kind != "basic":
                ask = ["ask", name, gen_ask(rng)]
                if rng.chance(0.4):
                    ops.append(ask)
                y = rng.random()
                if y < 0.3 and kind in ("sell", "named"):
                    ops.append(["swap", name, *rng.pick([("b1", "b2"), ("b1", "b3"), ("b2", "b3"), ("c1", "c2")])])
                elif y < 0.4:
                    ops.append(["nudge", name, rng.pick(FIELDS[kind]), rng.pick([1e-4, -1e-4, 1e-6, -1e-6])])
                else:
                    ops.append(change(name, kind))
                if rng.chance(0.7):
                    ops.append(ask)
        elif x < 0.64:
            live.remove((name, kind))
            ops.append(["drop", name])
            if rng.chance(0.7):
                ops.append(["make", f"g{k}", kind, gen_coefs(rng, kind)])
                live.append((f"g{k}", kind))
                ops.append(["ask", f"g{k}", gen_ask(rng)])
                k += 1
        elif x < 0.72:
            make()
        elif x < 0.78:
            how = rng.pick(["copy", "deepcopy"] + (["pickle"] if kind in ("sell", "basic") else []))
            ops.append(["copy", f"g{k}", name, how])
            live.append((f"g{k}", kind))
            k += 1
        elif x < 0.84:
            ops.append(["cut", name, gen_ask(rng), rng.weighted(history.EXCS),
                        [round(rng.random(), 6), round(rng.random(), 6)]])
        elif x < 0.92:
            ops.append(["trace", name, rng.num(0.4, 0.8), rng.num(10, 50), rng.weighted([
                ([0], 3), ([0, *rng.sample(CLOSE, 2)], 2), ([0, 0, rng.pick(CLOSE), 0.1, -0.1], 1)])])
        else:
            th = [["ask", *rng.pick(live)[:1], rng.pick([["abbe"], ["index", rng.num(0.4, 0.8)]])]
                  for _ in range(rng.randrange(2, 5))]
            if kind != "basic" and rng.chance(0.5):
                th.append(change(name, kind))
                th.append(["ask", name, ["abbe"]])
            ops.append(["threads", th, history.gen_policy(rng, [2, 6, 20], 0.3),
                        [rng.randrange(len(th)), round(rng.random(), 4), rng.weighted(history.EXCS)]
                        if rng.chance(0.2) else None])
            if th[-2][0] == "coef":
                ops.append(["ask", name, ["abbe"]])
    return {"ops": ops}


# ------------------------------------------------------------------ the model
def formula(kind, cf, w):
    if kind == "basic":
        return cf[0]
    if kind in ("cauchy", "twin", "unhash"):
        return cf[0] + cf[1] / w ** 2
    return math.sqrt(1 + sum(b * w * w / (w * w - c) for b, c in zip(cf[:3], cf[3:])))


def abbe_of(ns):
    return (ns[1] - 1) / (ns[0] - ns[2])


def user_classes():
    matl = core.pyrayt.materials

    class Cauchy(matl.Glass):
        def __init__(self, a, b):
            super().__init__()
            self.a, self.b = a, b

        def index_at(self, wavelength):
            core.yield_now()
            return self.a + self.b / wavelength ** 2

    class Twin(Cauchy):
        """All glasses of the same make compare equal, whatever their melt."""

        def __eq__(self, other):
            return isinstance(other, Twin)

        def __hash__(self):
            return 5

    class Unhash(Cauchy):
        def __eq__(self, other):
            return isinstance(other, Unhash) and (self.a, self.b) == (other.a, other.b)
        __hash__ = None

    class Named(matl.SellmeierRefractor):
        pass
    return {"cauchy": Cauchy, "twin": Twin, "unhash": Unhash, "named": Named, "sell": matl.SellmeierRefractor,
            "basic": matl.BasicRefractor}


class Shop:
    def __init__(self, ctx):
        self.ctx, self.kinds = ctx, user_classes()
        self.obj, self.kind, self.coef, self.since = {}, {}, {}, {}
        self.addresses = set()

    def put(self, name, values):
        for f, v in values.items():
            setattr(self.obj[name], f, v)
            self.coef[name][FIELDS[self.kind[name]].index(f)] = v
        self.disturb("change", name)
        self.disturb("other changed")

    def add(self, name, obj, kind, coef):
        self.obj[name], self.kind[name], self.coef[name] = obj, kind, list(coef)
        if core.sim_id(obj) in self.addresses:
            self.ctx.probe("reused address")
        self.since[name] = set()

    def disturb(self, what, name=None):
        for n in self.since:
            if name is None or n == name:
                self.since[n].add(what)

    def call(self, name, q):
        """The bare query, as user code makes it."""
        g = self.obj[name]
        if q[0] == "abbe":
            if self.kind[name] == "basic":
                try:
                    return g.abbe()
                except ZeroDivisionError:
                    return None
            return g.abbe()
        if q[0] == "index":
            return g.index_at(q[1])
        return g.index_at(self.wavelengths(q))

    def wavelengths(self, q):
        return core.np.array(q[2], dtype=int if "int" in q else float).reshape(q[1])

    def choices(self, name, changes=()):
        """Coefficient sets an answer may be based on."""
        out = [self.coef[name]]
        for c in changes:
            new = list(out[-1])
            new[FIELDS[self.kind[name]].index(c[2])] = c[3]
            out.append(new)
        return out

    def judge(self, name, q, got, how="", changes=()):
        ctx, np, kind = self.ctx, core.np, self.kind[name]
        sets = self.choices(name, changes)
        if len(changes) > 1:       # several threads change it: any mix of old and new values
            sets = [list(t) for t in itertools.product(*[sorted({s[j] for s in sets}) for j in range(len(sets[0]))])]
        since = sorted(self.since[name])
        tail = f"{kind} {name} {how}(coefficients {self.coef[name]}, since last answer: {since})"
        if q[0] == "abbe":
            if kind == "basic":
                if got is not None and math.isfinite(float(got)):
                    ctx.fail("wrong-abbe", f"{tail}: abbe {got!r} of a glass without dispersion")
                ctx.probe("constant glass has no finite abbe")
                return
            ns = [{formula(kind, s, w) for s in sets} for w in ABBE]
            if abs(min(ns[0]) - max(ns[2])) < 1e-5:
                return
            ok = any(abs(float(got) - abbe_of(t)) <= 1e-8 * abs(abbe_of(t)) for t in itertools.product(*ns))
            if not ok:
                ctx.fail("wrong-abbe", f"{tail}: abbe {got!r}, should be {abbe_of([formula(kind, sets[-1], w) for w in ABBE])!r}")
            ctx.probe("abbe")
        elif q[0] == "index":
            if not any(abs(float(got) - formula(kind, s, q[1])) <= 1e-11 for s in sets):
                ctx.fail("wrong-index", f"{tail}: index {got!r} at {q[1]}, should be {formula(kind, sets[-1], q[1])!r}")
            ctx.probe("index")
        else:
            a = np.asarray(got, dtype=float)
            if list(a.shape) != q[1]:
                ctx.fail("wrong-shape", f"{tail}: shape {a.shape} for wavelengths of shape {q[1]}")
            for v, w in zip(a.reshape(-1).tolist(), q[2]):
                if not any(abs(v - formula(kind, s, w)) <= 1e-11 for s in sets):
                    ctx.fail("wrong-index", f"{tail}: index {v!r} at {w}, should be {formula(kind, sets[-1], w)!r}")
            ctx.probe("index array")
        for s in since:
            ctx.nontrivial = True
            if s in ("change", "discard"):
                ctx.probe("after " + s)
        if kind in ("cauchy", "twin", "unhash", "named"):
            ctx.probe("user glass")
        if kind == "twin" and sum(1 for n in self.obj if self.kind[n] == "twin") > 1:
            ctx.probe("equal glasses")
        self.since[name] = set()

    def ask(self, name, q, how=""):
        np = core.np
        if q[0] != "array":
            self.judge(name, q, self.call(name, q), how)
            return
        arr = self.wavelengths(q)
        got = self.obj[name].index_at(arr)
        if not np.array_equal(arr, np.array(q[2]).reshape(q[1])):
            self.ctx.fail("input-changed", f"{name}: index_at changed the wavelengths it was given")
        self.judge(name, q, got, how)
        if q[3] is not None and arr.size:
            self.ctx.probe("array edited")
            self.ctx.fault("array edited")
            q2 = list(q)
            if q[3] == "input":
                arr *= 1.25
                q2[2] = arr.reshape(-1).tolist()
            elif isinstance(got, np.ndarray) and got.flags.writeable:
                got *= 0
            self.disturb("array edited", name)
            self.judge(name, q2, self.obj[name].index_at(arr), how)

    def trace(self, name, wl, deg, steps):
        """One or more rays of their own wavelengths through a plate tilted about z: index column and angle inside."""
        p, ctx = core.pyrayt, self.ctx
        plate = core.cg.Cuboid((-0.5, -200, -200), (0.5, 200, 200), material=self.obj[name]).rotate_z(deg)
        src = [p.components.LineOfRays(0, wavelength=wl + step).move_x(-300) for step in steps]
        df = p.RayTracer(src, [plate], rays_per_source=1).trace()
        df = df[df["generation"] == 1].sort_values("id")
        if len(df) != len(steps):
            ctx.fail("no-refraction", f"{len(df)} rays inside the plate")
        for k, step in enumerate(steps):
            self.through(name, wl + step, deg, df.iloc[k])
        if len(steps) > 1:
            ctx.probe("close colours")
        ctx.probe("traced")
        if self.since[name]:
            ctx.nontrivial = True

    def through(self, name, wl, deg, row):
        ctx = self.ctx
        n = float(row["index"])
        want = formula(self.kind[name], self.coef[name], wl)
        if abs(n - want) > 1e-11:
            ctx.fail("wrong-index", f"{self.kind[name]} {name} in a trace (since: {sorted(self.since[name])}): index {n!r} "
                                    f"at {wl}, should be {want!r}")
        th = math.radians(deg)
        bend = th - math.asin(math.sin(th) / want)
        got = math.atan2(float(row["y_tilt"]), float(row["x_tilt"]))
        if abs(abs(got) - bend) > 1e-9:
            ctx.fail("wrong-refraction", f"{name}: a ray at {deg} degrees bends by {abs(got)!r}, index {want!r} gives {bend!r}")


def execute(ctx, plan):
    s = Shop(ctx)
    for op in plan["ops"]:
        k = op[0]
        if k not in ("make", "lib", "copy", "threads") and op[1] not in s.obj:
            continue
        if k == "make":
            s.add(op[1], s.kinds[op[2]](*op[3]), op[2], op[3])
            s.disturb("another made")
        elif k == "lib":
            other = [n for n in s.obj if s.obj[n] is core.pyrayt.materials.glass[op[2]]]
            if other:
                continue
            s.add(op[1], core.pyrayt.materials.glass[op[2]], "sell", LIB[op[2]])
            ctx.probe("library")
        elif k == "copy":
            if op[2] not in s.obj:
                continue
            g = s.obj[op[2]]
            s.call(op[2], ["abbe"])
            new = copy.copy(g) if op[3] == "copy" else copy.deepcopy(g) if op[3] == "deepcopy" \
                else pickle.loads(pickle.dumps(g))
            s.add(op[1], new, s.kind[op[2]], s.coef[op[2]])
            s.disturb("copied")
            ctx.probe("copy")
        elif k == "drop":
            if any(s.obj[op[1]] is g for g in core.pyrayt.materials.glass.values()):
                continue        # the library keeps its glasses
            s.addresses.add(core.sim_id(s.obj[op[1]]))
            del s.obj[op[1]], s.kind[op[1]], s.coef[op[1]], s.since[op[1]]
            gc.collect()
            s.disturb("discard")
            ctx.fault("glass discarded")
        elif k == "coef":
            s.put(op[1], {op[2]: op[3]})
            ctx.fault("coefficient changed")
        elif k == "swap":
            i, j = (FIELDS[s.kind[op[1]]].index(f) for f in op[2:4])
            s.put(op[1], {op[2]: s.coef[op[1]][j], op[3]: s.coef[op[1]][i]})
            ctx.fault("coefficients exchanged")
        elif k == "nudge":
            s.put(op[1], {op[2]: s.coef[op[1]][FIELDS[s.kind[op[1]]].index(op[2])] * (1 + op[3])})
            ctx.fault("coefficient nudged")
        elif k == "ask":
            s.ask(op[1], op[2])
        elif k == "cut":
            inj = core.run_injected(lambda: s.call(op[1], op[2]), op[3], op[4])
            ctx.steps += inj.total or 0
            if inj.fired:
                ctx.fault(f"{op[3]} at a bytecode of a query")
                ctx.probe("interrupted")
                s.disturb("interrupted", op[1])
            elif inj.caught is not None:
                raise inj.caught
            if inj.caught is None:
                s.judge(op[1], op[2], inj.value, "(interrupted) ")
        elif k == "trace":
            s.trace(op[1], op[2], op[3], op[4])
        elif k == "threads":
            threads(ctx, s, op)
        ctx.note(*op[:3])
    if len(s.obj) >= 100:
        ctx.probe("many glasses")
    for n in sorted(s.obj):
        s.ask(n, ["abbe"], "at the end ")


def threads(ctx, s, op):
    th = [t for t in op[1] if t[1] in s.obj]
    if len(th) < 2:
        return
    outs = [None] * len(th)

    def fn(j, t):
        def go():
            if t[0] == "coef":
                core.yield_now()
                setattr(s.obj[t[1]], t[2], t[3])
                outs[j] = (True,)
            else:
                outs[j] = (s.call(t[1], t[2]),)
        return go
    faults = {}
    if op[3] and op[3][0] < len(th):
        faults[op[3][0]] = {"k": int(op[3][1] * 60), "exc": op[3][2]}
    sch = core.Scheduler([fn(j, t) for j, t in enumerate(th)], op[2], faults)
    sch.run()
    ctx.steps += sch.step
    ctx.interleaving = sch.signature()
    ctx.note("threads", sch.overlap, sch.signature())
    ctx.fault("thread switches", sch.overlap)
    if sch.over:
        ctx.fail("no-progress", sch.over)
    for j, t in enumerate(sch.threads):
        if t.fault_exc is not None:
            ctx.fault(f"{faults[j]['exc']} kills one thread")
            ctx.probe("thread killed")
        elif t.error is not None:
            raise t.error
    done = [t for j, t in enumerate(th) if t[0] == "coef" and outs[j] is not None]
    if sch.overlap:
        s.disturb("threads")
    for j, t in enumerate(th):
        if t[0] == "ask" and outs[j] is not None:
            mine = [c for c in done if c[1] == t[1]]
            s.judge(t[1], t[2], outs[j][0], f"in thread {j} of {len(th)} ", mine)
            ctx.probe("threads agree")
            if mine:
                ctx.probe("changed while asked")
    for c in done:
        s.coef[c[1]][FIELDS[s.kind[c[1]]].index(c[2])] = c[3]
        s.disturb("change", c[1])
