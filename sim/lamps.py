"""Shared by the checks on sources: reading ray sets, and the pose a model says they have."""
import math

from . import core, ref


def plain(rs):
    """A returned ray set as an independent copy (13 x n)."""
    return core.np.array(rs, dtype=float, copy=True)


def to_local(arr, matrix):
    """Origins and unit directions of a 13 x n ray set, in the frame given by `matrix`."""
    np = core.np
    inv = np.array(ref.inv(matrix))
    o = inv @ arr[0:4]
    d = inv @ arr[4:8]
    n = np.linalg.norm(d[:3], axis=0)
    return o[:3], d[:3] / n


def to_world(o, d, matrix):
    np = core.np
    m = np.array(matrix)
    n = o.shape[1]
    wo = m @ np.vstack([o, np.ones(n)])
    wd = m @ np.vstack([d, np.zeros(n)])
    wd[:3] /= np.linalg.norm(wd[:3], axis=0)
    return wo[:3], wd[:3]


def basics(arr, n, wl):
    """What every emitted set must satisfy; returns a complaint or None."""
    np = core.np
    if arr.ndim != 2 or arr.shape[1] != n:
        return f"{arr.shape[-1]} rays instead of {n}"
    if n == 0:
        return None
    if not np.isfinite(arr).all():
        return "values that are not finite"
    ln = np.linalg.norm(arr[4:7], axis=0)
    if abs(ln - 1).max() > 1e-9:
        return f"a direction of length {ln[abs(ln - 1).argmax()]!r}"
    if abs(arr[3] - 1).max() > 1e-9 or abs(arr[7]).max() > 1e-9:
        return "homogeneous coordinates that are neither points nor directions"
    if abs(arr[10] - wl).max() > 1e-12:
        return f"wavelength {arr[10][abs(arr[10] - wl).argmax()]!r} instead of {wl!r}"
    if abs(arr[8]).max() > 0:
        return "a generation other than 0"
    if abs(arr[11] - 1).max() > 0:
        return "a refractive index other than 1"
    if len(set(arr[12].tolist())) != n:
        return "repeated ray ids"
    return None


def lamp_limits(o, d, intensity, width, length, max_angle):
    """Complaint if local rays leave the lamp's rectangle, cone or cosine law."""
    np = core.np
    if o.shape[1] == 0:
        return None
    if abs(o[0]).max() > 1e-9 * max(1, width, length):
        return f"a ray starts {abs(o[0]).max():g} off the lamp's plane"
    if abs(o[1]).max() > width / 2 * (1 + 1e-9) + 1e-12:
        return f"a ray starts at y={o[1][abs(o[1]).argmax()]:g}, the lamp is {width} wide"
    if abs(o[2]).max() > length / 2 * (1 + 1e-9) + 1e-12:
        return f"a ray starts at z={o[2][abs(o[2]).argmax()]:g}, the lamp is {length} long"
    ang = np.arctan2(np.hypot(d[1], d[2]), d[0])
    if ang.max() > math.radians(max_angle) + 1e-9:
        return f"a ray leaves at {math.degrees(ang.max()):.6f} degrees, the limit is {max_angle}"
    off = abs(intensity - 100 * np.cos(ang))
    if off.max() > 1e-9:
        k = off.argmax()
        return f"intensity {intensity[k]!r} at an angle with cosine {math.cos(ang[k])!r}"
    return None


def scribble(rs, how, np):
    """Edits to a returned ray set."""
    if how == "all":
        rs[...] = -5.0
    elif how == "rays":
        rs.rays = rs.rays * 3 + 1
    elif how == "view":
        rs.rays[1] *= -1
        rs.rays[0, :3] += 9
    elif how == "wavelength":
        rs.wavelength = 9.9
    elif how == "meta":
        rs.metadata[...] = 0
    elif how == "intensity":
        rs.intensity *= 0.0
    elif how == "sort":
        rs.sort(axis=-1)


EDITS = ["all", "rays", "view", "wavelength", "meta", "intensity", "sort"]
