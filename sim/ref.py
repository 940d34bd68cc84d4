"""Independent reference geometry: where a ray crosses a solid, and what is inside it.

Written from the documented shapes, with its own matrix code; shares nothing with the code
under test. Everything works on one ray at a time (plain Python floats)."""
import math

INF = math.inf


# ------------------------------------------------------------ 4x4 helpers (lists)
def eye():
    return [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def apply(m, v):
    return [sum(m[i][k] * v[k] for k in range(4)) for i in range(4)]


def inv(m):
    """Gauss-Jordan with partial pivoting; None if singular."""
    a = [list(map(float, m[i])) + [1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
    for c in range(4):
        p = max(range(c, 4), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-300:
            return None
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(4):
            if r != c and a[r][c] != 0.0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [row[4:] for row in a]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def op_matrix(op):
    """The matrix a transform call stands for, or None if the call must be rejected."""
    name, args = op[0], op[1]
    m = eye()
    if isinstance(args, dict):
        if name == "move":
            args = [args.get(k, 0) for k in "xyz"]
        elif name == "scale":
            args = [args.get(k, 1) for k in "xyz"]
        else:
            args = [args["angle"], args.get("units", "deg")]
    if name != "transform" and not all(isinstance(a, (int, float)) for a in (args[:1] if name[:3] == "rot" else args)):
        return None
    if name == "move":
        for i in range(3):
            m[i][3] = float(args[i])
    elif name in ("move_x", "move_y", "move_z"):
        m["xyz".index(name[-1])][3] = float(args[0])
    elif name in ("scale", "scale_x", "scale_y", "scale_z", "scale_all"):
        if name == "scale":
            s = list(args)
        elif name == "scale_all":
            s = [args[0]] * 3
        else:
            s = [1, 1, 1]
            s["xyz".index(name[-1])] = args[0]
        if any(v <= 0 for v in s):
            return None
        for i in range(3):
            m[i][i] = float(s[i])
    elif name in ("rotate_x", "rotate_y", "rotate_z"):
        units = args[1] if len(args) > 1 else "deg"
        if units == "deg":
            t = args[0] * math.pi / 180.0
        elif units == "rad":
            t = args[0]
        else:
            return None
        c, s = math.cos(t), math.sin(t)
        i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[name[-1]]
        m[i][i] = c
        m[j][j] = c
        m[i][j] = -s
        m[j][i] = s
    elif name == "transform":
        m = [list(map(float, r)) for r in args[0]]
        if [len(r) for r in m] != [4] * 4:
            return None
        if abs(det3(m)) < 1e-12:
            return None
    else:
        raise ValueError(name)
    return m


# --------------------------------------------------------------------- solids
def _quad(a, b, c):
    if a == 0:
        return [-c / b] if b else []
    d = b * b - 4 * a * c
    if d < 0:
        return []
    r = math.sqrt(d)
    q = -0.5 * (b + math.copysign(r, b))
    out = [q / a]
    if q != 0:
        out.append(c / q)
    else:
        out.append(0.0)
    return sorted(out)


def inside_local(kind, p, q):
    """Is the point q (object space) inside the leaf? 1/0; planes have no inside."""
    x, y, z = q[:3]
    if kind == "sphere":
        return x * x + y * y + z * z < p[0] ** 2
    if kind == "cyl":
        return x * x + y * y < p[0] ** 2 and p[1] < z < p[2]
    if kind == "parab":
        return x * x + y * y < 4 * p[0] * z and z < p[1]
    if kind == "cube":
        return all(min(a, b) < v < max(a, b) for a, b, v in zip(p[0], p[1], (x, y, z)))
    if kind == "plane":
        return False
    raise ValueError(kind)


def crossings_local(kind, p, o, d):
    """All candidate crossings t of the leaf's surface by o+t*d (object space), with a margin
    telling how far (in parameter space) the crossing is from being lost: [(t, margin)]."""
    out = []
    if kind == "sphere":
        a = sum(v * v for v in d[:3])
        b = 2 * sum(u * v for u, v in zip(o[:3], d[:3]))
        c = sum(v * v for v in o[:3]) - p[0] ** 2
        disc = b * b - 4 * a * c
        m = abs(disc) / (4 * a * p[0] ** 2)
        out = [(t, m) for t in _quad(a, b, c)]
        return out, m
    if kind == "cube":
        lo = [min(a, b) for a, b in zip(p[0], p[1])]
        hi = [max(a, b) for a, b in zip(p[0], p[1])]
        size = max(h - l for h, l in zip(hi, lo))
        near = INF
        for ax in range(3):
            if abs(d[ax]) < 1e-12:
                near = min(near, abs(o[ax] - lo[ax]) / size, abs(o[ax] - hi[ax]) / size)
                continue
            for face in (lo[ax], hi[ax]):
                t = (face - o[ax]) / d[ax]
                marg, ok = INF, True
                for k in range(3):
                    if k != ax:
                        v = o[k] + t * d[k]
                        e = min(v - lo[k], hi[k] - v) / size
                        ok = ok and e >= 0
                        marg = min(marg, abs(e))
                near = min(near, marg)
                if ok:
                    out.append((t, marg))
        return sorted(out), near
    if kind == "plane":
        size = max(p)
        if abs(d[2]) < 1e-12:
            return [], abs(o[2]) / size
        t = -o[2] / d[2]
        e = [(w / 2 - abs(o[k] + t * d[k])) / size for k, w in enumerate(p)]
        m = min(abs(v) for v in e)
        m = min(m, abs(d[2]) / math.sqrt(sum(v * v for v in d[:3])))
        if min(e) >= 0:
            out.append((t, m))
        return out, m
    if kind == "cyl":
        r, h0, h1 = p
        size = max(r, h1 - h0)
        near = INF
        a = d[0] ** 2 + d[1] ** 2
        full = a + d[2] ** 2
        if a / full > 1e-16:
            b = 2 * (o[0] * d[0] + o[1] * d[1])
            c = o[0] ** 2 + o[1] ** 2 - r * r
            disc = b * b - 4 * a * c
            near = min(near, abs(disc) / (4 * a * r * r))
            for t in _quad(a, b, c):
                z = o[2] + t * d[2]
                e = min(z - h0, h1 - z) / size
                near = min(near, abs(e))
                if e >= 0:
                    out.append((t, abs(e)))
        else:
            near = min(near, abs(math.hypot(o[0], o[1]) - r) / size)
        if d[2] ** 2 / full > 1e-12:
            for h in (h0, h1):
                t = (h - o[2]) / d[2]
                e = (r - math.hypot(o[0] + t * d[0], o[1] + t * d[1])) / size
                near = min(near, abs(e))
                if e >= 0:
                    out.append((t, abs(e)))
        else:
            near = min(near, abs(o[2] - h0) / size, abs(o[2] - h1) / size)
        return sorted(out), near
    if kind == "parab":
        f, h = p
        size = max(h, math.sqrt(4 * f * h))
        near = INF
        a = d[0] ** 2 + d[1] ** 2
        full = a + d[2] ** 2
        b = 2 * (o[0] * d[0] + o[1] * d[1]) - 4 * f * d[2]
        c = o[0] ** 2 + o[1] ** 2 - 4 * f * o[2]
        if a / full > 1e-16:
            disc = b * b - 4 * a * c
            near = min(near, abs(disc) / (4 * a * size * size))
            ts = _quad(a, b, c)
        else:
            ts = [-c / b] if b else []
        for t in ts:
            z = o[2] + t * d[2]
            e = (h - z) / size
            near = min(near, abs(e))
            if e >= 0:
                out.append((t, abs(e)))
        if d[2] ** 2 / full > 1e-12:
            t = (h - o[2]) / d[2]
            x, y = o[0] + t * d[0], o[1] + t * d[1]
            e = (math.sqrt(4 * f * h) - math.hypot(x, y)) / size
            near = min(near, abs(e))
            if e >= 0:
                out.append((t, abs(e)))
        else:
            near = min(near, abs(o[2] - h) / size)
        return sorted(out), near
    raise ValueError(kind)


def gradient_local(kind, p, q):
    """Some vector along the surface normal at a surface point (object space), or None near edges."""
    x, y, z = q[:3]
    if kind == "sphere":
        return [x, y, z]
    if kind == "plane":
        return [0, 0, 1]
    if kind == "cube":
        best = []
        for k, v in enumerate((x, y, z)):
            for f in (p[0][k], p[1][k]):
                best.append((abs(v - f), k))
        best.sort()
        if best[1][0] < 1e-3:
            return None
        return [1.0 if k == best[0][1] else 0.0 for k in range(3)]
    if kind == "cyl":
        side = abs(math.hypot(x, y) - p[0])
        cap = min(abs(z - p[1]), abs(z - p[2]))
        if abs(side - cap) < 1e-3:
            return None
        return [x, y, 0] if side < cap else [0, 0, 1]
    if kind == "parab":
        cap = abs(z - p[1])
        body = abs(x * x + y * y - 4 * p[0] * z)
        if cap < 1e-3 and body < 1e-3:
            return None
        if cap < 1e-6:
            return [0, 0, 1]
        if cap < 1e-3:
            return None
        return [x, y, -2 * p[0]]
    raise ValueError(kind)


class Leaf:
    def __init__(self, label, kind, params, matrix):
        self.label, self.kind, self.params = label, kind, params
        self.m = matrix
        self.inv = inv(matrix)

    def local(self, o, d):
        return (apply(self.inv, [o[0], o[1], o[2], 1.0])[:3],
                apply(self.inv, [d[0], d[1], d[2], 0.0])[:3])

    def crossings(self, o, d):
        lo, ld = self.local(o, d)
        return crossings_local(self.kind, self.params, lo, ld)

    def inside(self, p):
        return bool(inside_local(self.kind, self.params, apply(self.inv, [p[0], p[1], p[2], 1.0])))


class Node:
    def __init__(self, op, left, right):
        self.op, self.left, self.right = op, left, right


def leaves(tree):
    if isinstance(tree, Leaf):
        return [tree]
    return leaves(tree.left) + leaves(tree.right)


def evaluate(tree, value):
    """Boolean value of the expression where value(leaf) says whether we are inside it."""
    if isinstance(tree, Leaf):
        return bool(value(tree))
    a, b = evaluate(tree.left, value), evaluate(tree.right, value)
    if tree.op == "union":
        return a or b
    if tree.op == "intersect":
        return a and b
    return a and not b


def boundary(tree, o, d, eps=1e-6):
    """Crossings of the boundary of the composite along the ray, as [(t, leaf label)], plus a
    flag saying whether some decision was too close to call."""
    lv = leaves(tree)
    events, shaky = [], False
    for lf in lv:
        ts, near = lf.crossings(o, d)
        if near < 1e-5:
            shaky = True
        for t, _ in ts:
            events.append((t, lf))
    events.sort(key=lambda e: e[0])
    for (t0, l0), (t1, l1) in zip(events, events[1:]):
        if abs(t1 - t0) < eps * max(1.0, abs(t0)):
            shaky = True
    if isinstance(tree, Leaf):
        return [(t, tree.label) for t, _ in tree.crossings(o, d)[0]], shaky
    out = []
    for t, lf in events:
        p = [o[i] + t * d[i] for i in range(3)]
        state = {id(x): (x.inside(p) if x is not lf else None) for x in lv}
        if lf.kind == "plane":
            # a plane is a sheet: it shows wherever being on it is being in the composite and
            # it is not swallowed by / cut by the rest
            on = evaluate(tree, lambda x: True if x is lf else state[id(x)])
            off = evaluate(tree, lambda x: False if x is lf else state[id(x)])
            if on != off:
                out.append((t, lf.label))
            continue
        a = evaluate(tree, lambda x: True if x is lf else state[id(x)])
        b = evaluate(tree, lambda x: False if x is lf else state[id(x)])
        if a != b:
            out.append((t, lf.label))
    return out, shaky


def first_hit(trees, o, d, tmin=0.0):
    """Nearest boundary crossing ahead of the ray over all components.
    Returns (t, label, clear) with t=inf if there is none."""
    best, second, label, clear = INF, INF, None, True
    for tr in trees:
        cr, shaky = boundary(tr, o, d)
        if shaky:
            clear = False
        for t, lb in cr:
            if abs(t - tmin) < 1e-9:
                clear = False
            if t > tmin:
                if t < best:
                    second = best
                    best, label = t, lb
                elif t < second:
                    second = t
    if best < INF and second - best < 1e-6 * max(1.0, best):
        clear = False
    return best, label, clear
