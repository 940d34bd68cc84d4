"""Simulator core: the seams through which every source of nondeterminism goes.

* code under test is imported from PYRAYT_REPO (default /repo); nothing in it is patched
* threads: real threads, exactly one of which runs at a time; the baton moves at bytecode
  boundaries of code under test, at the steps a seeded scheduler (or a replay list) says
* faults: an exception raised at the k-th executed bytecode of the code under test
* locks: threading.Lock/RLock created by the code under test are simulator-aware
* randomness: numpy's global generator is seeded, or its state crafted, by the plan
"""
import ast
import dis
import os
import sys
import json
import random
import hashlib
import traceback
import _thread
import ctypes
import gc
import types
import weakref

REPO = os.path.realpath(os.environ.get("PYRAYT_REPO", "/repo"))
_PREFIXES = (os.path.join(REPO, "pyrayt") + os.sep, os.path.join(REPO, "tinygfx") + os.sep)

_real_allocate = _thread.allocate_lock
np = pd = pyrayt = cg = plt = None


class HarnessError(BaseException):
    """Something the harness itself cannot explain: never a verdict."""


class SimDeadlock(BaseException):
    """All simulated threads wait for a lock."""


class StepBudget(BaseException):
    """A simulated run used more logical steps than the property allows."""


# ----------------------------------------------------------------- bootstrap
def bootstrap():
    """Import third-party libraries, install the lock seam, import the code under test."""
    global np, pd, pyrayt, cg, plt
    if pyrayt is not None:
        return
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    import pandas
    import scipy.spatial.transform
    import scipy.ndimage
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock = SimLock
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import tinygfx.g3d
    import tinygfx.g3d.renderers
    import pyrayt as _p
    import pyrayt.components
    import pyrayt.materials
    import pyrayt.utils
    if not _p.__file__.startswith(REPO + os.sep):
        raise HarnessError(f"imported {_p.__file__}, not {REPO}")
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if f and f.startswith(REPO + os.sep):
            m.__dict__.setdefault("id", sim_id)
            m.__dict__.setdefault("hash", sim_hash)
    arm(in_repo)
    gc.collect()
    gc.freeze()             # so that collecting in each run's process costs little
    np, pd, pyrayt, cg, plt = numpy, pandas, _p, tinygfx.g3d, matplotlib.pyplot


# -------------------------------------------------------------------- addresses
_addresses, _free, _next_address = {}, [], [1 << 60]


def sim_id(o):
    """What `id` is to the code under test: the simulator hands out the addresses, and gives the address of
    an object that is gone to the next object whose address is asked for (which a real allocator may or may not do)."""
    entry = _addresses.get(id(o))
    if entry is not None and entry[0]() is o:
        return entry[1]
    key = id(o)

    def gone(ref):
        if _addresses.get(key, (None,))[0] is ref:
            _free.append(_addresses.pop(key)[1])
    try:
        ref = weakref.ref(o, gone)
    except TypeError:
        return key
    if _free:
        fake = _free.pop()
    else:
        fake = _next_address[0]
        _next_address[0] += 16
    _addresses[key] = (ref, fake)
    return fake


def sim_hash(o):
    return sim_id(o) >> 4 if type(o).__hash__ is object.__hash__ else hash(o)


# ------------------------------------------------------------------- randomness
def derive(*parts):
    """A 63-bit integer decided by the parts alone."""
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Rng(random.Random):
    """The one generator every choice of a plan is drawn from."""

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def chance(self, p):
        return self.random() < p

    def weighted(self, table):
        """table: list of (item, weight)"""
        total = sum(w for _, w in table)
        x = self.random() * total
        for item, w in table:
            x -= w
            if x < 0:
                return item
        return table[-1][0]

    def num(self, lo, hi, digits=3):
        return round(self.uniform(lo, hi), digits)


def mix64(*ints):
    """Small deterministic integer hash used for per-ray fates."""
    h = 0x9E3779B97F4A7C15
    for v in ints:
        h ^= int(v) & 0xFFFFFFFFFFFFFFFF
        h = (h * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 27
        h = (h * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 31
    return h


def unit(*ints):
    return mix64(*ints) / 2.0 ** 64


# ------------------------------------------------------------------------ locks
class SimLock:
    """A lock that never blocks the process: waiting is a scheduling event."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            if timeout is not None and timeout > 0:
                # simulated time: nobody else can make progress for us without a switch
                s = Scheduler.current
                if s is None or not s.block_on_lock(self):
                    return False
                continue
            s = Scheduler.current
            if s is None or not s.block_on_lock(self):
                raise SimDeadlock("waiting for a lock nobody will release")

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _reentrant = True

    def acquire(self, blocking=True, timeout=-1):
        return SimLock.acquire(self, blocking, timeout)

    __enter__ = acquire


# ------------------------------------------------------------ bytecode stepping
def in_repo(code):
    return code.co_filename.startswith(_PREFIXES)


def site_of(frame):
    c = frame.f_code
    return f"{os.path.relpath(c.co_filename, REPO)}:{c.co_qualname}"


def in_repo_or_pandas(code):
    return in_repo(code) or os.sep + "pandas" + os.sep in code.co_filename


_TOOL = 4
_armed = set()


def arm(scope):
    """Have the interpreter report every bytecode of the code objects in scope (once per process).
    All code is instrumented before it runs, so nothing is re-instrumented while a thread is in it."""
    mon = sys.monitoring
    if scope in _armed:
        return
    if not _armed:
        mon.use_tool_id(_TOOL, "simulator")
    _armed.add(scope)
    seen, todo = set(), []
    gc.unfreeze()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and scope(o.__code__):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        mon.set_local_events(_TOOL, c, mon.events.INSTRUCTION)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


class Stepper:
    """Calls on_step(frame) before every bytecode the code in scope executes, in any thread."""

    def __init__(self, on_step, scope=None):
        self.on_step = on_step
        self.scope = scope or in_repo

    def _event(self, code, offset):
        if self.scope(code):
            self.on_step(sys._getframe(1))

    def start(self):
        arm(self.scope)
        sys.monitoring.register_callback(_TOOL, sys.monitoring.events.INSTRUCTION, self._event)

    def stop(self):
        sys.monitoring.register_callback(_TOOL, sys.monitoring.events.INSTRUCTION, None)

    def run(self, fn):
        self.start()
        try:
            return fn()
        finally:
            self.stop()


EXCEPTIONS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "FloatingPointError": FloatingPointError,
    "OSError": OSError,
    "ValueError": ValueError,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
    "ZeroDivisionError": ZeroDivisionError,
    "OverflowError": OverflowError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "AssertionError": AssertionError,
    "Exception": Exception,
}


class Injected:
    """Outcome of running a function with a fault armed."""

    def __init__(self):
        self.fired = False      # the fault was really raised
        self.exc = None         # the instance that was raised
        self.caught = None      # what came out of the call (None: returned normally)
        self.value = None
        self.site = None
        self.step = None
        self.total = None

    @property
    def reached_caller(self):
        e, seen = self.caught, set()
        while e is not None and id(e) not in seen:
            if e is self.exc:
                return True
            seen.add(id(e))
            e = e.__cause__ or e.__context__
        return False


_libc = ctypes.CDLL(None)


def die_with_parent():
    """A forked part of a run ends when its parent does."""
    _libc.prctl(1, 9, 0, 0, 0)


def in_child(fn):
    """Run fn() in a forked child and return what it returns (JSON), leaving no trace here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            die_with_parent()
            os.close(r)
            try:
                out = {"ok": fn()}
            except BaseException as e:
                out = {"err": "".join(traceback.format_exception(e))[-3000:]}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise HarnessError(f"child ended with status {st}")
    out = json.loads(b"".join(buf))
    if "err" in out:
        raise HarnessError("in child: " + out["err"])
    return out["ok"]


STEP_CAP = 3_000_000
NOP = dis.opmap["NOP"]
_shields = None


def shields():
    """Lines of the code under test where no failure is injected: the bodies of `finally`, the entry and exit of `with`
    (whose gaps an interpreter does not interrupt), and the one-step gap between a statement and the `try ... finally`
    that follows it. Failing inside the code that cleans up after failures is not what the properties speak of."""
    global _shields
    if _shields is None:
        _shields = {}
        for name in ("pyrayt", "tinygfx"):
            for d, _, files in os.walk(os.path.join(REPO, name)):
                for f in sorted(files):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        final, before = set(), set()
                        try:
                            tree = ast.parse(open(p).read())
                        except (OSError, SyntaxError):
                            continue
                        for node in ast.walk(tree):
                            if isinstance(node, ast.With):
                                final.update(range(node.lineno, max(node.lineno + 1, node.body[0].lineno)))
                            if isinstance(node, ast.Try) and node.finalbody:
                                final.update(range(node.finalbody[0].lineno, node.finalbody[-1].end_lineno + 1))
                            for field in ("body", "orelse", "finalbody"):
                                block = getattr(node, field, None)
                                for a, b in zip(block, block[1:]) if isinstance(block, list) else ():
                                    if isinstance(b, ast.Try) and b.finalbody and not hasattr(a, "body"):
                                        before.update(range(a.lineno, a.end_lineno + 1))
                        if final or before:
                            _shields[p] = (final, before)
    return _shields


_nops = {}


def at_nop(frame):
    """At an instruction that does nothing, such as that of a `try` line, which no handler may cover."""
    c = frame.f_code
    try:
        b = _nops[c]
    except KeyError:
        b = _nops[c] = c.co_code
    return b[frame.f_lasti] == NOP


def shielded(frame):
    sh = shields()
    if not sh:
        return False
    if at_nop(frame):
        return True
    f, inner = frame, True
    while f is not None:
        lines = sh.get(f.f_code.co_filename)
        if lines and (f.f_lineno in lines[0] or inner and f.f_lineno in lines[1]):
            return True
        f, inner = f.f_back, False
    return False


def _survey(fn, u1, u2, only, scope=None):
    """Dry run: which bytecode step is the (u1,u2)-th of the code under test?"""
    codes, index, seq = [], {}, []
    safe = bool(shields())

    def on_step(frame):
        c = frame.f_code
        i = index.get(c)
        if i is None:
            i = index[c] = len(codes)
            codes.append(site_of(frame))
        seq.append(i if not (safe and shielded(frame)) else -1)
        if len(seq) > STEP_CAP:
            raise StepBudget("dry run")
    try:
        Stepper(on_step, scope).run(fn)
    except BaseException:
        pass
    open_to = sorted(set(seq) - {-1})
    if not open_to:
        return None
    usable = [i for i in open_to if not only or only in codes[i]] or open_to
    # half of the draws are uniform over functions, half uniform over steps
    if u1 < 0.5:
        want = usable[int(u1 * 2 * len(usable))]
        steps = [k for k, i in enumerate(seq) if i == want]
    else:
        us = set(usable)
        steps = [k for k, i in enumerate(seq) if i in us]
        # spend the spare entropy: u1 in [.5,1) is not needed further
    k = steps[min(int(u2 * len(steps)), len(steps) - 1)]
    return {"k": k, "site": codes[seq[k]], "total": len(seq)}


def run_injected(fn, exc_name, u, only=None, scope=None):
    """Run fn() and raise exc at the bytecode chosen by u=[u1,u2]; first probed in a fork.
    scope: which code objects count as places to interrupt (default: the code under test)."""
    out = Injected()
    sel = in_child(lambda: _survey(fn, u[0], u[1], only, scope))
    if sel is None:
        try:
            out.value = fn()
        except BaseException as e:
            out.caught = e
        return out
    out.step, out.site, out.total = sel["k"], sel["site"], sel["total"]
    out.exc = EXCEPTIONS[exc_name]("injected")
    n = [0]

    def on_step(frame):
        if n[0] == out.step:
            n[0] += 1
            out.fired = True
            raise out.exc
        n[0] += 1
    try:
        out.value = Stepper(on_step, scope).run(fn)
    except BaseException as e:
        out.caught = e
        e.__traceback__ = None
    return out


def count_steps(fn, cap=None):
    """Run fn() counting executed bytecodes of the code under test."""
    n = [0]

    def on_step(frame):
        n[0] += 1
        if cap is not None and n[0] > cap:
            raise StepBudget(f"more than {cap} steps")
    v = Stepper(on_step).run(fn)
    return v, n[0]


# ------------------------------------------------------------------- scheduling
class SimThread:
    def __init__(self, idx, fn, fault):
        self.idx, self.fn = idx, fn
        self.gate = _real_allocate()
        self.gate.acquire()
        self.done = False
        self.value = None
        self.error = None
        self.waiting = None        # a SimLock
        self.steps = 0
        self.fault = fault         # {"k": own step number, "exc": name} or None
        self.fault_exc = None
        self.fault_site = None


class Scheduler:
    """Runs functions as threads, one bytecode of the code under test at a time.

    policy: {"seed": int, "gap": float}  seeded: geometric gaps of mean `gap` steps
            ... "focus": share            a seeded share of all functions is in focus, and with mean gaps of
                                          "fgap" steps a thread in one of them is held up there, mostly until another
                                          one has got into the same kind of place
            {"switches": [[step, thread], ...]}  replay
    """
    current = None

    def __init__(self, fns, policy, faults=None, cap=4_000_000):
        faults = faults or {}
        self.threads = [SimThread(i, f, faults.get(i)) for i, f in enumerate(fns)]
        self.policy = policy
        self.switches = []         # what really happened: [step, to]
        self.step = 0
        self.cap = cap
        self.over = None
        self.main = _real_allocate()
        self.main.acquire()
        self.by_ident = {}
        self.trail = hashlib.sha256()
        self.overlap = 0           # switches away from a thread inside code under test
        if "switches" in policy:
            self.todo = [list(s) for s in policy["switches"]]
            self.rng = None
        else:
            self.rng = Rng(policy["seed"])
            self.gap = policy["gap"]
            self.stall = policy.get("stall", 0.0)
            self.focus, self.fgap = policy.get("focus", 0), policy.get("fgap", 20)
            self.in_focus = {}
            self.todo = None
            self.next_at = self._draw()

    def _focused(self, code):
        try:
            return self.in_focus[code]
        except KeyError:
            v = self.in_focus[code] = derive(self.policy["seed"], code.co_qualname) % 10000 < 10000 * self.focus
            return v

    def _draw(self):
        g = self.gap
        if self.stall and self.rng.random() < self.stall:
            g *= 25
        return self.step + 1 + int(self.rng.expovariate(1.0 / g))

    # called by the running thread, before each bytecode
    def on_step(self, frame, t):
        self.step += 1
        t.steps += 1
        if self.step > self.cap:
            self.over = "step budget"
            raise StepBudget(f"more than {self.cap} steps")
        if t.fault is not None and t.fault_exc is None and t.steps > t.fault["k"] and not shielded(frame):
            t.fault_exc = EXCEPTIONS[t.fault["exc"]]("injected")
            t.fault_site = site_of(frame)
            raise t.fault_exc
        if self.todo is not None:
            while self.todo and self.todo[0][0] <= self.step:
                _, to = self.todo.pop(0)
                self.switch(t, to)
        elif self.step >= self.next_at or (self.focus and self._focused(frame.f_code)
                                           and self.rng.random() * self.fgap < 1):
            others = [o.idx for o in self.threads if not o.done and o is not t and self._can_run(o)]
            self.next_at = self._draw()
            if others:
                self.switch(t, self.rng.pick(others))

    def yield_now(self):
        """An extra switch point inside simulated user code (a callback)."""
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.on_step(sys._getframe(), t)

    def _can_run(self, o):
        return o.waiting is None or o.waiting._owner is None

    def switch(self, t, to):
        if to >= len(self.threads):
            return
        o = self.threads[to]
        if o is t or o.done or not self._can_run(o):
            return
        self.switches.append([self.step, to])
        self.trail.update(f"{t.idx}@{t.steps}>{to};".encode())
        self.overlap += 1
        o.gate.release()
        t.gate.acquire()

    def block_on_lock(self, lock):
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return False
        t.waiting = lock
        cand = [o for o in self.threads if not o.done and o is not t and self._can_run(o)]
        if not cand:
            self.over = "deadlock"
            t.waiting = None
            return False
        o = cand[0]
        self.trail.update(f"{t.idx}#{o.idx};".encode())
        o.gate.release()
        t.gate.acquire()
        t.waiting = None
        return True

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        self.main.release()
        t.gate.acquire()
        try:
            t.value = t.fn()
        except BaseException as e:
            t.error = e
        t.done = True
        nxt = [o for o in self.threads if not o.done and self._can_run(o)]
        if nxt:
            nxt[0].gate.release()
        elif any(not o.done for o in self.threads):
            self.over = "deadlock"
            o = [o for o in self.threads if not o.done][0]
            o.gate.release()
        else:
            self.main.release()

    def _await(self, timeout):
        if not self.main.acquire(True, timeout):
            raise HarnessError("simulated threads did not finish")

    def _event(self, frame):
        t = self.by_ident.get(_thread.get_ident())
        if t is not None:
            self.on_step(frame, t)

    def run(self, timeout=80):
        Scheduler.current = self
        st = Stepper(self._event)
        st.start()
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
                self._await(timeout)
            self.threads[0].gate.release()
            self._await(timeout)
        finally:
            st.stop()
            Scheduler.current = None
        return self.threads

    def signature(self):
        return self.trail.hexdigest()[:16]


def yield_now():
    if Scheduler.current is not None:
        Scheduler.current.yield_now()


# --------------------------------------------------------------- run bookkeeping
class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class Ctx:
    """What one simulated run reports."""

    def __init__(self, plan):
        self.plan = plan
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.sig = hashlib.sha256()
        self.nontrivial = False
        self.interleaving = None
        self.log = []
        self.resolved = None      # e.g. the switch list that was really followed

    def fail(self, kind, detail=""):
        self.violations.append([kind, str(detail)[:600]])
        raise Violation(kind, detail)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.sig.update(f"F{kind};".encode())

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.sig.update(s.encode() + b";")
        if len(self.log) < 60:
            self.log.append(s[:160])

    def absorb(self, res):
        """Take over what a forked part of this run reported."""
        self.violations += res["violations"]
        for k, v in res["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in res["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.steps += res["steps"]
        self.sig.update(res["sig"].encode())
        self.nontrivial = self.nontrivial or res["nontrivial"]
        self.log = (self.log + res["log"])[:60]
        self.interleaving = self.interleaving or res["inter"]
        self.resolved = self.resolved or res["resolved"]

    def result(self):
        return {"violations": self.violations, "faults": self.faults, "probes": self.probes,
                "steps": self.steps, "sig": self.sig.hexdigest()[:20],
                "nontrivial": bool(self.nontrivial), "inter": self.interleaving,
                "log": self.log, "resolved": self.resolved}
