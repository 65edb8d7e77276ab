"""Reference model: tracing and composition over plain values, independent of the code under test.

An element is seen as the values a user can read from it: A, B, C, D, L, aperture diameter and NA, indices, vertices,
and whether it is an axicon (with its deviation).  Groups are lists of such views."""
import math

INF = float("inf")


class View:
    __slots__ = ("A", "B", "C", "D", "L", "ap", "na", "n1", "n2", "fv", "bv", "dev", "label", "kind", "group")

    def __init__(self, **k):
        self.dev = None
        self.group = None
        for a, b in k.items():
            setattr(self, a, b)

    def key(self):
        return tuple(getattr(self, s) for s in ("A", "B", "C", "D", "L", "ap", "na", "n1", "n2", "fv", "bv", "dev",
                                                "label", "kind")) + (
            None if self.group is None else tuple(g.key() for g in self.group),)


def view(e):
    """the current values of a real element"""
    v = View(A=e.A, B=e.B, C=e.C, D=e.D, L=e.L, ap=e.apertureDiameter, na=e.apertureNA, n1=e.frontIndex,
             n2=e.backIndex, fv=e.frontVertex, bv=e.backVertex, label=e.label, kind=type(e).__name__)
    if isinstance(getattr(e, "elements", None), list):
        v.group = [view(x) for x in e.elements]
    elif type(e).__name__ == "Axicon":
        v.dev = (e.n - 1.0) * e.alpha
    return v


def views(elements):
    return [view(e) for e in elements]


# ---------------------------------------------------------------- rays: (y, theta, z, blocked)
class Ambiguous(Exception):
    """a height or angle falls on an aperture edge within rounding"""


def _beyond(x, lim, exact):
    x = abs(x)
    if lim == INF:
        return False
    if not exact and abs(x - lim) <= 1e-9 * max(1.0, lim):
        raise Ambiguous()
    return x > lim


def apply(v, r, first):
    y, t, z, b = r
    if b:
        return (y, t, z, True)
    blocked = _beyond(y, v.ap / 2, first) or _beyond(t, v.na, first)
    oy = v.A * y + v.B * t
    ot = v.C * y + v.D * t
    if v.dev is not None:
        if y > 0:
            ot += -v.dev
        elif y < 0:
            ot += v.dev
        if not first and y != 0 and abs(y) < 1e-12:
            raise Ambiguous()
    return (oy, ot, v.L + z, blocked)


def trace_element(v, r, first):
    """what trace() of one element lists"""
    if v.group is not None:
        return trace_group(v.group, r, first)
    out = []
    if v.L > 0:
        y, t, z, b = r
        if _beyond(y, v.ap / 2, first):
            b = True
        r = (y, t, z, b)
        out.append(r)
    out.append(apply(v, r, first))
    return out


def trace_group(group, r, first=True):
    out = [r]
    for v in group:
        out.extend(trace_element(v, r, first))
        r = out[-1]
        first = False
    return out


def trace(x, r):
    """x: View or list of views"""
    return trace_group(x, r) if isinstance(x, list) else trace_element(x, r, True)


def through(x, r):
    return trace(x, r)[-1]


# ---------------------------------------------------------------- beams: (q, z, n, wavelength, clipped)
class Refused(Exception):
    pass


def beam_w(q, n, wavelength):
    if q == 0:
        return INF
    i = (-1 / q).imag
    if not i > 0:
        return INF
    return math.sqrt(wavelength / n / (math.pi * i))


def beam_apply(v, b):
    q, z, n, wl, clip = b
    if v.dev is not None:
        raise Refused("axicon")
    if n != v.n1:
        raise Refused("index")
    d = complex(v.C) * q + complex(v.D)
    if d == 0:
        raise Refused("zero")
    q2 = (complex(v.A) * q + complex(v.B)) / d
    if v.ap != INF:
        if q2 == 0 or abs((-1 / q2).imag) < 1e-12 or v.n2 <= 0:
            raise Ambiguous()
        clip = _beyond(beam_w(q2, v.n2, wl), v.ap / 2, False) or clip
    return (q2, z + v.L, v.n2, wl, clip)


def beam_trace(x, b):
    """what trace() of a beam lists; x: list of views"""
    out = [b]
    for v in x:
        out.extend(beam_trace(v.group, b) if v.group is not None else [beam_apply(v, b)])
        b = out[-1]
    return out


# ---------------------------------------------------------------- composition
def identity():
    return dict(A=1.0, B=0.0, C=0.0, D=1.0, L=0.0, n1=None, n2=None, fv=None, bv=None)


def compose(group):
    """ABCD, length, indices and vertices of the elements in order.  Indices are those of the first and last element
    (identity elements excepted: they have no say, a group of nothing else keeps theirs)."""
    A, B, C, D, L = 1.0, 0.0, 0.0, 1.0, 0.0
    fv = bv = None
    n1 = n2 = None
    for v in group:
        A, B, C, D = (v.A * A + v.B * C, v.A * B + v.B * D, v.C * A + v.D * C, v.C * B + v.D * D)
        if fv is None and v.fv is not None:
            fv = L + v.fv
        if v.bv is not None:
            bv = L + v.bv
        L += v.L
    if group:
        n1, n2 = group[0].n1, group[-1].n2
    else:
        n1 = n2 = 1.0
    return dict(A=A, B=B, C=C, D=D, L=L, fv=fv, bv=bv, n1=n1, n2=n2)


# ---------------------------------------------------------------- comparisons
def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    try:
        if a == b:
            return True
        if a != a or b != b:
            return a != a and b != b
        d = abs(a - b)
        return d <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def ray_close(a, b, tol=1e-9):
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))


def rayv(r):
    """values of a real ray"""
    return (r.y, r.theta, r.z, bool(r.isBlocked))


def ray_full(r):
    return (r.y, r.theta, r.z, bool(r.isBlocked), r.apertureDiameter, r.wavelength)


def beamv(b):
    return (b.q, b.z, b.n, b.wavelength, bool(b.isClipped))
