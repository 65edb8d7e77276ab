"""The reading API of elements, groups and paths, as named calls whose results are plain comparable values."""
import numbers
from model import optics as M
from .common import ray


def norm(x, depth=0):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, complex):
        return ("complex", x.real, x.imag)
    if isinstance(x, numbers.Number):
        return float(x)
    t = type(x).__name__
    if depth > 6:
        return t
    if isinstance(x, tuple):
        return tuple(norm(i, depth + 1) for i in x)
    if isinstance(x, dict):
        return tuple((str(k), norm(v, depth + 1)) for k, v in sorted(x.items(), key=str))
    if hasattr(x, "theta") and hasattr(x, "isBlocked"):
        return ("Ray", x.y, x.theta, x.z, bool(x.isBlocked), x.apertureDiameter)
    if hasattr(x, "q") and hasattr(x, "isClipped"):
        return ("Beam",) + tuple(norm(v) for v in M.beamv(x))
    if hasattr(x, "apertureDiameter") and hasattr(x, "frontIndex"):
        v = ("Element", t, x.A, x.B, x.C, x.D, x.L, x.apertureDiameter, x.apertureNA, x.frontIndex, x.backIndex,
             x.frontVertex, x.backVertex)
        if isinstance(getattr(x, "elements", None), list):
            v += (tuple(norm(e, depth + 1) for e in x.elements),)
        return v
    if hasattr(x, "yValues") and hasattr(x, "rays"):
        return ("Rays",) + tuple(norm(r, depth + 1) for r in x.rays)
    if isinstance(x, list):
        return tuple(norm(i, depth + 1) for i in x)
    if isinstance(x, BaseException):
        return ("raised", t)
    if hasattr(x, "__next__") or hasattr(x, "tolist"):
        return tuple(norm(i, depth + 1) for i in list(x))
    d = getattr(x, "__dict__", None)
    if d is not None:
        return (t,) + tuple((k, norm(v, depth + 1)) for k, v in sorted(d.items()))
    return t


def same(a, b, tol=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b and type(a) is type(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return M.close(a, b, tol)


def _inv(p, rt):
    return p.opticalInvariant(rt.Ray(1, 0.02), rt.Ray(0.5, -0.1))


def _nested(p, rt):
    out = []
    for a in p:
        for b in p:
            out.append((a.L, b.L, a.C, b.C))
        out.append((a.label, a.apertureDiameter))
    return out


ELEMENT = {
    "determinant": lambda p, rt: p.determinant,
    "isImaging": lambda p, rt: p.isImaging,
    "hasPower": lambda p, rt: p.hasPower,
    "isIdentity": lambda p, rt: p.isIdentity,
    "focalDistances": lambda p, rt: p.focalDistances(),
    "effectiveFocalLengths": lambda p, rt: p.effectiveFocalLengths(),
    "backFocalLength": lambda p, rt: p.backFocalLength(),
    "frontFocalLength": lambda p, rt: p.frontFocalLength(),
    "focusPositions": lambda p, rt: p.focusPositions(z=2),
    "principalPlanePositions": lambda p, rt: p.principalPlanePositions(z=2),
    "forwardConjugate": lambda p, rt: p.forwardConjugate(),
    "backwardConjugate": lambda p, rt: p.backwardConjugate(),
    "magnification": lambda p, rt: p.magnification(),
    "hasFiniteApertureDiameter": lambda p, rt: p.hasFiniteApertureDiameter(),
    "largestDiameter": lambda p, rt: p.largestDiameter,
    "opticalInvariant": _inv,
    "pointsOfInterest": lambda p, rt: p.pointsOfInterest(2),
    "displayHalfHeight": lambda p, rt: p.displayHalfHeight(),
    "surfaces": lambda p, rt: p.surfaces,
    "str": lambda p, rt: str(p),
    "transferMatrix": lambda p, rt: p.transferMatrix(),
    "transferMatrix(7)": lambda p, rt: p.transferMatrix(upTo=7),
    "transferMatrices": lambda p, rt: p.transferMatrices(),
    "product": lambda p, rt: p * rt.Space(3),
    "fromFocusToFocus": lambda p, rt: p.fromFocusToFocus(),
}
GROUP = dict(ELEMENT, **{
    "len": lambda p, rt: len(p),
    "iterate": lambda p, rt: [e for e in p],
    "iterate nested": _nested,
    "list": lambda p, rt: list(p),
    "first": lambda p, rt: p[0],
    "last": lambda p, rt: p[-1],
    "slice": lambda p, rt: p[1:3],
    "intermediateConjugates": lambda p, rt: p.intermediateConjugates(),
})
IMAGING = dict(GROUP, **{
    "chiefRay": lambda p, rt: p.chiefRay(),
    "chiefRay(1)": lambda p, rt: p.chiefRay(y=1),
    "principalRay": lambda p, rt: p.principalRay(),
    "marginalRays": lambda p, rt: p.marginalRays(),
    "marginalRays(1)": lambda p, rt: p.marginalRays(y=1),
    "axialRay": lambda p, rt: p.axialRay(),
    "fNumber": lambda p, rt: p.fNumber(),
    "NA": lambda p, rt: p.NA(),
    "apertureStop": lambda p, rt: p.apertureStop(),
    "hasApertureStop": lambda p, rt: p.hasApertureStop(),
    "entrancePupil": lambda p, rt: p.entrancePupil(),
    "fieldStop": lambda p, rt: p.fieldStop(),
    "hasFieldStop": lambda p, rt: p.hasFieldStop(),
    "fieldOfView": lambda p, rt: p.fieldOfView(),
    "halfFieldOfView": lambda p, rt: p.halfFieldOfView(),
    "imageSize": lambda p, rt: p.imageSize(),
    "imageSize(object)": lambda p, rt: p.imageSize(useObject=True),
    "lagrangeInvariant": lambda p, rt: p.lagrangeInvariant(),
    "objectHeight": lambda p, rt: p.objectHeight,
    "subPath": lambda p, rt: p.subPath(3),
    "subPath back": lambda p, rt: p.subPath(3, backwards=True),
})
HEAVY = ["chiefRay", "principalRay", "fieldStop", "hasFieldStop", "fieldOfView", "halfFieldOfView", "imageSize",
         "lagrangeInvariant"]
LASER = dict(GROUP)
CAVITY = dict(GROUP, **{
    "eigenModes": lambda p, rt: p.eigenModes(),
    "laserModes": lambda p, rt: p.laserModes(),
    "isStable": lambda p, rt: p.isStable,
})
BY_KIND = {"element": ELEMENT, "group": GROUP, "path": IMAGING, "laser": LASER, "cavity": CAVITY}


def make(rt, kind, els, label=""):
    if kind == "group":
        return rt.MatrixGroup(els, label=label)
    if kind == "path":
        return rt.ImagingPath(els, label=label)
    if kind == "laser":
        return rt.LaserPath(els, label=label)
    if kind == "cavity":
        return rt.LaserCavity(els, label=label)
    return els[0]


def ask(p, rt, kind, name):
    """value of a query; an ordinary exception is a value too"""
    try:
        return norm(BY_KIND[kind][name](p, rt))
    except Exception as e:
        e.__traceback__ = None
        return norm(e)
