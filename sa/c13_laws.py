"""C13: the formulas of quaternions, vectors, points, shapes and bodies satisfy the laws that define them."""
import math
from .core import program
from .laws import *

PI = math.pi
LAWS = []


def law(name):
    def d(f): LAWS.append((name, f)); return f
    return d


# ------------------------------------------------------------------ plane shapes
def heron(a, b, c):
    s = (a + b + c) / 2
    return s * (s - a) * (s - b) * (s - c)


@law("Triangle")
def _(L):
    a, b, c = L.pos("a", "b", "c")
    for x, y, z in ((a, b, c), (b, c, a), (c, a, b)): L.require(x + y - z)
    t = L.new("Triangle", a, b, c); K2 = heron(a, b, c)
    yield "Perimeter", lambda: (t.Perimeter(), a + b + c)
    yield "Semiperimeter", lambda: (t.Semiperimeter() * 2, a + b + c)
    yield "Area", lambda: (t.Area() ** 2, K2)
    yield "AngleA", lambda: (cos(t.AngleA()), (b ** 2 + c ** 2 - a ** 2) / (2 * b * c))
    yield "AngleB", lambda: (cos(t.AngleB()), (a ** 2 + c ** 2 - b ** 2) / (2 * a * c))
    yield "AngleC", lambda: (cos(t.AngleC()), (b ** 2 + a ** 2 - c ** 2) / (2 * b * a))
    yield "angle sum", lambda: (t.AngleA() + t.AngleB() + t.AngleC(), PI)
    yield "AltitudeToA", lambda: (t.AltitudeToA() ** 2 * a ** 2, 4 * K2)
    yield "AltitudeToB", lambda: (t.AltitudeToB() ** 2 * b ** 2, 4 * K2)
    yield "AltitudeToC", lambda: (t.AltitudeToC() ** 2 * c ** 2, 4 * K2)
    yield "MedianToA", lambda: (4 * t.MedianToA() ** 2, 2 * b ** 2 + 2 * c ** 2 - a ** 2)
    yield "MedianToB", lambda: (4 * t.MedianToB() ** 2, 2 * a ** 2 + 2 * c ** 2 - b ** 2)
    yield "MedianToC", lambda: (4 * t.MedianToC() ** 2, 2 * b ** 2 + 2 * a ** 2 - c ** 2)
    yield "Inradius", lambda: ((t.Inradius() * (a + b + c)) ** 2, 4 * K2)
    yield "Circumradius", lambda: (16 * t.Circumradius() ** 2 * K2, (a * b * c) ** 2)
    yield "IsAcute", lambda: (t.IsAcute(), [a ** 2 + b ** 2 - c ** 2, b ** 2 + c ** 2 - a ** 2, a ** 2 + c ** 2 - b ** 2]), "iff"
    yield "IsObtuse", lambda: (1 - t.IsObtuse(), [a ** 2 + b ** 2 - c ** 2, b ** 2 + c ** 2 - a ** 2, a ** 2 + c ** 2 - b ** 2]), "iff"
    yield "Inscribed circle", lambda: ((L.sta("Circle", "Inscribed", t).Radius() * (a + b + c)) ** 2, 4 * K2)
    yield "Circumscribed circle", lambda: (16 * L.sta("Circle", "Circumscribed", t).Radius() ** 2 * K2, (a * b * c) ** 2)


@law("Triangle special")
def _(L):
    a, b = L.pos("a", "b"); L.require(2 * a - b); h = sqrt(a ** 2 + b ** 2)
    for i, s in enumerate(((a, b, h), (b, h, a), (h, a, b))):
        yield "IsRight %d" % i, lambda s=s: (L.new("Triangle", *s).IsRight(), 1)
    for i, s in enumerate(((a, a, b), (b, a, a), (a, b, a))):
        yield "IsIsosceles %d" % i, lambda s=s: (L.new("Triangle", *s).IsIsosceles(), 1)
        yield "IsScalene %d" % i, lambda s=s: (L.new("Triangle", *s).IsScalene(), 0)
    yield "IsEquilateral", lambda: (L.new("Triangle", a, a, a).IsEquilateral(), 1)


@law("Circle")
def _(L):
    r, th, x = L.pos("r", "th", "x"); c = L.new("Circle", r)
    yield "Diameter", lambda: (c.Diameter(), 2 * r)
    yield "Area", lambda: (c.Area(), PI * r ** 2)
    yield "Circumference", lambda: (c.Circumference(), 2 * PI * r)
    yield "Perimeter", lambda: (c.Perimeter(), 2 * PI * r)
    yield "ArcLength", lambda: (c.ArcLength(th), r * th)
    yield "SectorArea", lambda: (c.SectorArea(th) * 2, r ** 2 * th)
    yield "ChordLength", lambda: (c.ChordLength(th) ** 2, 2 * r ** 2 * (1 - cos(th)))
    yield "SegmentArea", lambda: (c.SegmentArea(th) * 2, r ** 2 * (th - sin(th)))
    yield "FromArea", lambda: (L.sta("Circle", "FromArea", x).Area(), x)
    yield "FromCircumference", lambda: (L.sta("Circle", "FromCircumference", x).Circumference(), x)


@law("Annulus")
def _(L):
    r, R = L.pos("r", "R"); L.require(R - r); s = L.new("Annulus", r, R)
    yield "Area", lambda: (s.Area(), PI * (s.OuterRadius() ** 2 - s.InnerRadius() ** 2))
    yield "radii", lambda: [(s.InnerRadius(), r), (s.OuterRadius(), R)]
    yield "Width", lambda: (s.Width(), s.OuterRadius() - s.InnerRadius())
    yield "InnerCircumference", lambda: (s.InnerCircumference(), 2 * PI * s.InnerRadius())
    yield "OuterCircumference", lambda: (s.OuterCircumference(), 2 * PI * s.OuterRadius())
    yield "MeanCircumference", lambda: (s.MeanCircumference(), PI * (s.OuterRadius() + s.InnerRadius()))
    yield "InnerCircle", lambda: (s.InnerCircle().Radius(), s.InnerRadius())
    yield "OuterCircle", lambda: (s.OuterCircle().Radius(), s.OuterRadius())


@law("CircularSector")
def _(L):
    r = L.pos("r"); th = L.rng("th", 0.01, 6.2); s = L.new("CircularSector", r, th)
    yield "Area", lambda: (s.Area() * 2, r ** 2 * th)
    yield "ArcLength", lambda: (s.ArcLength(), r * th)
    yield "Perimeter", lambda: (s.Perimeter(), r * th + 2 * r)
    yield "ChordLength", lambda: (s.ChordLength() ** 2, 2 * r ** 2 * (1 - cos(th)))
    yield "AngleDegrees", lambda: (s.AngleDegrees() * PI, th * 180)


@law("CircularSegment")
def _(L):
    r, x = L.pos("r", "x"); th = L.rng("th", 0.01, 6.2); s = L.new("CircularSegment", r, th)
    yield "Area", lambda: (s.Area() * 2, r ** 2 * (th - sin(th)))
    yield "ArcLength", lambda: (s.ArcLength(), r * th)
    yield "ChordLength", lambda: (s.ChordLength() ** 2, 2 * r ** 2 * (1 - cos(th)))
    yield "Perimeter", lambda: (s.Perimeter(), s.ArcLength() + s.ChordLength())
    yield "Sagitta", lambda: (s.Sagitta(), r * (1 - cos(th / 2)))
    def back():
        L.require(r * 2 - x)
        return (L.sta("CircularSegment", "FromSagitta", r, x).Sagitta(), x)
    yield "FromSagitta", back


@law("Ellipse")
def _(L):
    a, b = L.pos("a", "b"); L.require(a - b); e = L.new("Ellipse", a, b); c2 = a ** 2 - b ** 2
    yield "axes", lambda: [(e.MajorAxis(), 2 * a), (e.MinorAxis(), 2 * b)]
    yield "Area", lambda: (e.Area(), PI * a * b)
    yield "Perimeter", lambda: (e.Perimeter(), e.Circumference())
    yield "Circumference of a circle", lambda: (L.new("Ellipse", a, a).Circumference(), 2 * PI * a)
    yield "Circumference scales", lambda: (L.new("Ellipse", 3 * a, 3 * b).Circumference(), 3 * e.Circumference())
    yield "Eccentricity", lambda: (e.Eccentricity() ** 2 * a ** 2, c2)
    yield "LinearEccentricity", lambda: (e.LinearEccentricity() ** 2, c2)
    yield "FocalDistance", lambda: (e.FocalDistance() ** 2, 4 * c2)
    yield "SemiLatusRectum", lambda: (e.SemiLatusRectum() * a, b ** 2)
    yield "DirectrixDistance", lambda: (e.DirectrixDistance() ** 2 * c2, a ** 4)


@law("Ellipse from foci")
def _(L):
    c, s = L.pos("c", "s"); L.require(s - c * 2)
    e = L.sta("Ellipse", "FromFoci", c, s)
    yield "foci", lambda: (e.LinearEccentricity() * 2, c)
    yield "sum of distances", lambda: (e.MajorAxis(), s)


@law("RegularPolygon")
def _(L):
    n = L.rng("n", 3, 9); a, x = L.pos("a", "x"); p = L.new("RegularPolygon", n, a); t = tan(PI / n)
    yield "InteriorAngle", lambda: (p.InteriorAngle() * n, PI * (n - 2))
    yield "ExteriorAngle", lambda: (p.ExteriorAngle() * n, 2 * PI)
    yield "CentralAngle", lambda: (p.CentralAngle() * n, 2 * PI)
    yield "Perimeter", lambda: (p.Perimeter(), n * a)
    yield "Area", lambda: (p.Area() * 4 * t, n * a ** 2)
    yield "Apothem", lambda: (p.Apothem() * 2 * t, a)
    yield "Inradius", lambda: (p.Inradius() * 2 * t, a)
    yield "Circumradius", lambda: (p.Circumradius() * 2 * sin(PI / n), a)
    yield "InscribedCircle", lambda: (p.InscribedCircle().Radius(), p.Inradius())
    yield "CircumscribedCircle", lambda: (p.CircumscribedCircle().Radius(), p.Circumradius())
    yield "FromCircumradius", lambda: (L.sta("RegularPolygon", "FromCircumradius", n, x).Circumradius(), x)
    yield "FromInradius", lambda: (L.sta("RegularPolygon", "FromInradius", n, x).Inradius(), x)
    yield "FromArea", lambda: (L.sta("RegularPolygon", "FromArea", n, x).Area(), x)
    for k, nm in ((3, "EquilateralTriangle"), (4, "Square"), (5, "Pentagon"), (6, "Hexagon"), (7, "Heptagon"), (8, "Octagon"), (9, "Nonagon"), (10, "Decagon"), (12, "Dodecagon")):
        yield nm, lambda nm=nm, k=k: [(L.sta("RegularPolygon", nm, a).NumSides(), k), (L.sta("RegularPolygon", nm, a).SideLength(), a)]


@law("Rectangle")
def _(L):
    w, h, d, k = L.pos("w", "h", "d", "k"); r = L.new("Rectangle", w, h)
    yield "Area", lambda: (r.Area(), w * h)
    yield "Perimeter", lambda: (r.Perimeter(), 2 * w + 2 * h)
    yield "Diagonal", lambda: (r.Diagonal() ** 2, w ** 2 + h ** 2)
    yield "CircumscribedCircleRadius", lambda: (4 * r.CircumscribedCircleRadius() ** 2, w ** 2 + h ** 2)
    yield "Square", lambda: [(L.sta("Rectangle", "Square", d).Width(), d), (L.sta("Rectangle", "Square", d).Height(), d)]
    yield "InscribedCircleRadius", lambda: (2 * r.InscribedCircleRadius(), minv(w, h))
    g = lambda: L.sta("Rectangle", "GoldenRectangle", d)
    def golden():
        x = g(); m, s = x.Width(), x.Height()
        return (m ** 2 - m * s - s ** 2) * (s ** 2 - m * s - m ** 2), 0
    yield "GoldenRectangle", golden
    f = lambda: L.sta("Rectangle", "FromDiagonalAndRatio", d, k)
    yield "FromDiagonalAndRatio", lambda: [(f().Diagonal() ** 2, d ** 2), (f().Width(), k * f().Height())]
    yield "AspectRatio", lambda: [(r.AspectRatio() * h, w)]


@law("Parallelogram")
def _(L):
    a, b = L.pos("a", "b"); t = L.rng("t", 0.05, 3.0); p = L.new("Parallelogram", a, b, t)
    yield "Area", lambda: (p.Area(), a * b * sin(t))
    yield "Perimeter", lambda: (p.Perimeter(), 2 * (a + b))
    yield "heights", lambda: [(p.HeightToA() * a, a * b * sin(t)), (p.HeightToB() * b, a * b * sin(t))]
    yield "sum of squared diagonals", lambda: (p.DiagonalP() ** 2 + p.DiagonalQ() ** 2, 2 * a ** 2 + 2 * b ** 2)
    yield "product of squared diagonals", lambda: (p.DiagonalP() ** 2 * p.DiagonalQ() ** 2, (a ** 2 + b ** 2) ** 2 - (2 * a * b * cos(t)) ** 2)
    yield "angles", lambda: [(p.AcuteAngle() + p.ObtuseAngle(), PI), (sin(p.AcuteAngle()), sin(t))]
    yield "AngleDegrees", lambda: (p.AngleDegrees() * PI, t * 180)
    def diag():
        q = L.sta("Parallelogram", "FromDiagonals", a, b, t)
        return [(q.DiagonalP() ** 2 + q.DiagonalQ() ** 2, a ** 2 + b ** 2), (q.DiagonalP() * q.DiagonalQ(), a * b), (2 * q.Area(), a * b * sin(t))]
    yield "FromDiagonals", diag


@law("Rhombus")
def _(L):
    p, q = L.pos("p", "q"); t = L.rng("t", 0.05, 3.0); r = L.new("Rhombus", p, q)
    yield "Side", lambda: (4 * r.Side() ** 2, p ** 2 + q ** 2)
    yield "Area", lambda: (2 * r.Area(), p * q)
    yield "Perimeter", lambda: (r.Perimeter() ** 2, 4 * (p ** 2 + q ** 2))
    yield "angles", lambda: [(r.AcuteAngle() + r.ObtuseAngle(), PI), (sin(r.AcuteAngle()) * (p ** 2 + q ** 2), 2 * p * q)]
    yield "Height", lambda: (r.Height() * r.Side() * 2, p * q)
    yield "Inradius", lambda: (r.Inradius() * 2, r.Height())
    yield "InscribedCircle", lambda: (r.InscribedCircle().Radius(), r.Inradius())
    sa = lambda: L.sta("Rhombus", "FromSideAndAngle", p, t)
    yield "FromSideAndAngle", lambda: [(sa().Side(), p), (sa().Area(), p ** 2 * sin(t))]
    def sd():
        L.require(2 * p - q); x = L.sta("Rhombus", "FromSideAndDiagonal", p, q)
        return [(x.Side(), p), (x.Diagonal1(), q)]
    yield "FromSideAndDiagonal", sd


@law("Trapezoid")
def _(L):
    a, b, h = L.pos("a", "b", "h"); t = L.new("Trapezoid", a, b, h)
    yield "Area", lambda: (2 * t.Area(), (a + b) * h)
    yield "Median", lambda: (2 * t.Median(), a + b)


# ------------------------------------------------------------------ solids
@law("SphereGeom")
def _(L):
    r, x = L.pos("r", "x"); s = L.new("SphereGeom", r); h = L.pos("h"); L.require(2 * r - h)
    yield "Volume", lambda: (3 * s.Volume(), 4 * PI * r ** 3)
    yield "SurfaceArea", lambda: (s.SurfaceArea(), 4 * PI * r ** 2)
    yield "Diameter", lambda: (s.Diameter(), 2 * r)
    yield "GreatCircle", lambda: (s.GreatCircle().Radius(), r)
    yield "CapArea", lambda: (s.CapArea(h), 2 * PI * r * h)
    yield "ZoneArea", lambda: (s.ZoneArea(h), 2 * PI * r * h)
    yield "CapVolume", lambda: (3 * s.CapVolume(h), PI * h ** 2 * (3 * r - h))
    yield "FromVolume", lambda: (L.sta("SphereGeom", "FromVolume", x).Volume(), x)
    yield "FromSurfaceArea", lambda: (L.sta("SphereGeom", "FromSurfaceArea", x).SurfaceArea(), x)
    def box():
        b = L.new("Rectangle", r, x)
        return 4 * L.sta("SphereGeom", "Circumscribed", b, h).Radius() ** 2, r ** 2 + x ** 2 + h ** 2
    yield "Circumscribed", box


@law("CylinderGeom")
def _(L):
    r, h, x = L.pos("r", "h", "x"); s = L.new("CylinderGeom", r, h)
    yield "Volume", lambda: (s.Volume(), PI * r ** 2 * h)
    yield "LateralArea", lambda: (s.LateralArea(), 2 * PI * r * h)
    yield "BaseArea", lambda: (s.BaseArea(), PI * r ** 2)
    yield "SurfaceArea", lambda: (s.SurfaceArea(), 2 * PI * r * (r + h))
    yield "Base", lambda: (s.Base().Radius(), r)
    yield "Diameter", lambda: (s.Diameter(), 2 * r)
    f = lambda: L.sta("CylinderGeom", "FromVolume", x, h)
    yield "FromVolume", lambda: (f().Volume(), x)


@law("ConeGeom")
def _(L):
    r, h, l = L.pos("r", "h", "l"); s = L.new("ConeGeom", r, h)
    yield "SlantHeight", lambda: (s.SlantHeight() ** 2, r ** 2 + h ** 2)
    yield "Volume", lambda: (3 * s.Volume(), PI * r ** 2 * h)
    yield "LateralArea", lambda: (s.LateralArea() ** 2, (PI * r) ** 2 * (r ** 2 + h ** 2))
    yield "BaseArea", lambda: (s.BaseArea(), PI * r ** 2)
    yield "SurfaceArea", lambda: (s.SurfaceArea(), s.LateralArea() + s.BaseArea())
    yield "ApexAngle", lambda: (tan(s.ApexAngle()) * h, r)        # documented as the half-angle
    yield "Base", lambda: (s.Base().Radius(), r)
    def sl():
        L.require(l - r); x = L.sta("ConeGeom", "FromSlantHeight", r, l)
        return [(x.SlantHeight(), l), (x.Radius(), r)]
    yield "FromSlantHeight", sl


@law("Frustum")
def _(L):
    R, r, h = L.pos("R", "r", "h"); L.require(R - r); s = L.new("Frustum", R, r, h)
    sl2 = (R - r) ** 2 + h ** 2
    yield "SlantHeight", lambda: (s.SlantHeight() ** 2, sl2)
    yield "Volume", lambda: (3 * s.Volume(), PI * h * (R ** 2 + R * r + r ** 2))
    yield "LateralArea", lambda: (s.LateralArea() ** 2, (PI * (R + r)) ** 2 * sl2)
    yield "SurfaceArea", lambda: (s.SurfaceArea(), s.LateralArea() + PI * (R ** 2 + r ** 2))
    yield "bases", lambda: [(s.BottomBase().Radius(), s.BottomRadius()), (s.TopBase().Radius(), s.TopRadius()), (s.BottomRadius(), R)]


@law("Tetrahedron")
def _(L):
    p = [[L.sym("%s%d" % (n, i)) for i in range(3)] for n in "abcd"]
    d2 = lambda i, j: sum((p[i][k] - p[j][k]) ** 2 for k in range(3))
    d = lambda i, j: sqrt(d2(i, j))
    names = {"AB": (0, 1), "AC": (0, 2), "AD": (0, 3), "BC": (1, 2), "BD": (1, 3), "CD": (2, 3)}
    t = L.new("Tetrahedron", *[d(*names[n]) for n in ("AB", "AC", "AD", "BC", "BD", "CD")])
    for n in names: yield n, lambda n=n: (getattr(t, n)() ** 2, d2(*names[n]))
    u = [[p[i][k] - p[0][k] for k in range(3)] for i in (1, 2, 3)]
    det = sum(u[0][i] * (u[1][(i + 1) % 3] * u[2][(i + 2) % 3] - u[1][(i + 2) % 3] * u[2][(i + 1) % 3]) for i in range(3))
    def face(i, j, k):
        a, b, c = d(i, j), d(j, k), d(i, k)
        return heron(a, b, c)
    yield "Volume", lambda: (36 * t.Volume() ** 2, det ** 2)
    for n, ix in (("FaceABC", (0, 1, 2)), ("FaceABD", (0, 1, 3)), ("FaceACD", (0, 2, 3)), ("FaceBCD", (1, 2, 3))):
        yield n, lambda n=n, ix=ix: [(getattr(t, n)().Area() ** 2, face(*ix)), (getattr(t, n)().Perimeter(), d(ix[0], ix[1]) + d(ix[1], ix[2]) + d(ix[0], ix[2]))]
    yield "SurfaceArea", lambda: (t.SurfaceArea(), t.FaceABC().Area() + t.FaceABD().Area() + t.FaceACD().Area() + t.FaceBCD().Area())
    yield "Inradius", lambda: (t.Inradius() * t.SurfaceArea(), 3 * t.Volume())
    x = L.pos("x")
    yield "Circumradius of a regular tetrahedron", lambda: (L.sta("Tetrahedron", "Regular", x).Circumradius() ** 2 * 8, 3 * x ** 2)
    yield "Regular", lambda: (L.sta("Tetrahedron", "Regular", x).Volume() ** 2 * 72, x ** 6)


@law("Spheroid")
def _(L):
    a, c = L.pos("a", "c"); s = L.new("Spheroid", a, c)
    yield "Volume", lambda: (3 * s.Volume(), 4 * PI * a ** 2 * c)
    yield "IsOblate", lambda: (s.IsOblate(), a - c), "iff"
    yield "IsProlate", lambda: (s.IsProlate(), c - a), "iff"
    def ecc():
        return s.Eccentricity() ** 2 * maxv(a, c) ** 2, maxv(a, c) ** 2 - minv(a, c) ** 2
    yield "Eccentricity", ecc
    yield "Flattening", lambda: (s.Flattening() * a, a - c)
    yield "SurfaceArea of a sphere", lambda: (L.new("Spheroid", a, a).SurfaceArea(), 4 * PI * a ** 2)
    def surf():
        L.require(a - c); e = sqrt(1 - c ** 2 / a ** 2)
        return s.SurfaceArea(), 2 * PI * a ** 2 + PI * c ** 2 / e * log((1 + e) / (1 - e))
    yield "SurfaceArea, oblate", surf
    def surp():
        L.require(c - a); e = sqrt(1 - a ** 2 / c ** 2)
        return s.SurfaceArea(), 2 * PI * a ** 2 + 2 * PI * a * c / e * asin(e)
    yield "SurfaceArea, prolate", surp


@law("TorusGeom")
def _(L):
    R, r = L.pos("R", "r"); s = L.new("TorusGeom", R, r)
    yield "Volume", lambda: (s.Volume(), 2 * PI * PI * R * r ** 2)
    yield "SurfaceArea", lambda: (s.SurfaceArea(), 4 * PI * PI * R * r)
    yield "radii", lambda: [(s.InnerRadius(), R - r), (s.OuterRadius(), R + r)]
    yield "IsRingTorus", lambda: (s.IsRingTorus(), R - r), "iff"
    yield "IsSpindleTorus", lambda: (s.IsSpindleTorus(), r - R), "iff"
    yield "TubeCrossSection", lambda: (s.TubeCrossSection().Radius(), r)


# ------------------------------------------------------------------ vectors, points, quaternions
def yes(w):
    c = num_(w).const()
    if c is None: raise Undecided("predicate without a definite outcome")
    return c == 1


def xyz(w, n=None):
    """components of a point, vector or quaternion"""
    L = w.L
    if isinstance(w.v, Obj):
        names = "XYZ"[:n or (3 if "3" in w.v.cls else 2)]
        return [getattr(w, c)() for c in names]
    return [w[i] for i in range(n or 3)]


def dot(a, b): return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])
def cross(a, b): return [a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3)]
def minus(a, b): return [x - y for x, y in zip(a, b)]
def plus(a, b, k=1): return [x + k * y for x, y in zip(a, b)]
def scale(k, a): return [k * x for x in a]
def norm2(a): return dot(a, a)
def same(a, b, n=None):
    a = a if isinstance(a, list) else xyz(a, n); b = b if isinstance(b, list) else xyz(b, n)
    return list(zip(a, b))


def syms(L, n, k): return [L.sym("%s%d" % (n, i)) for i in range(k)]
def p2(L, n): return L.new("Point2Cartesian", *syms(L, n, 2))
def p3(L, n): return L.new("Point3Cartesian", *syms(L, n, 3))
def v2(L, n): return L.vec("Vector2Cartesian", *syms(L, n, 2))
def v3(L, n): return L.vec("Vector3Cartesian", *syms(L, n, 3))


for _t, _n in (("Vector2Cartesian", 2), ("Vector3Cartesian", 3), ("VectorN", 3)):
    @law(_t + " arithmetic")
    def _(L, t=_t, n=_n):
        a, b, k = syms(L, "a", n), syms(L, "b", n), L.sym("k"); A_, B = L.vec(t, *a), L.vec(t, *b)
        lin = t.endswith(("Cartesian", "VectorN"))
        if lin:
            yield "sum", lambda: same(A_ + B, plus(a, b), n)
            yield "difference", lambda: same(A_ - B, minus(a, b), n)
            yield "negation", lambda: same(-A_, scale(-1, a), n)
        if lin:
            yield "multiple", lambda: same(A_ * k, scale(k, a), n)
            yield "quotient", lambda: same(A_ / k, scale(1 / k, a), n)
            yield "equality with itself", lambda: [(A_.op("==", A_), 1), (A_.op("!=", A_), 0), (A_.op("==", B), 0), (A_.op("!=", B), 1)]
            yield "IsEqualTo", lambda: (A_.IsEqualTo(A_, L.pos("eps")), 1)


CURVED = {"Vector3Spherical": lambda c: [c[0] * sin(c[1]) * cos(c[2]), c[0] * sin(c[1]) * sin(c[2]), c[0] * cos(c[1])],
          "Vector3Cylindrical": lambda c: [c[0] * cos(c[1]), c[0] * sin(c[1]), c[2]], "Vector2Polar": lambda c: [c[0] * cos(c[1]), c[0] * sin(c[1])]}
for _t in CURVED:
    @law(_t + " arithmetic")
    def _(L, t=_t):
        n = 2 if "2" in t else 3; k = L.pos("k")
        a = [L.pos("a0")] + [L.rng("a%d" % i, 0.05, 3.05) if n == 3 and i == 1 and "Sph" in t else L.rng("a%d" % i, -3.1, 3.1) for i in range(1, n)]
        b = [L.pos("b0")] + [L.rng("b%d" % i, 0.05, 3.05) if n == 3 and i == 1 and "Sph" in t else L.rng("b%d" % i, -3.1, 3.1) for i in range(1, n)]
        u, v, car = L.vec(t, *a), L.vec(t, *b), CURVED[t]; X = lambda w: car(xyz(w, n))
        yield "sum", lambda: list(zip(X(u + v), plus(car(a), car(b))))
        yield "difference", lambda: list(zip(X(u - v), minus(car(a), car(b))))
        m = 2 if "Cyl" in t else n
        yield "negation", lambda: list(zip(X(-u), scale(-1, car(a))))[:m]
        if m < n: yield "negation, axial component", lambda: (X(-u)[m], -car(a)[m])
        yield "multiple", lambda: list(zip(X(u * k), scale(k, car(a))))
        yield "quotient", lambda: list(zip(X(u / k), scale(1 / k, car(a))))


@law("VectorN")
def _(L):
    t = "VectorN"; a, b, k = syms(L, "a", 3), syms(L, "b", 3), L.sym("k"); u, v = L.vec(t, *a), L.vec(t, *b)
    yield "NormL2", lambda: (u.NormL2() ** 2, norm2(a))
    yield "NormL1", lambda: (u.NormL1(), sum((absv(x) for x in a[1:]), absv(a[0])))
    yield "NormLInf", lambda: (u.NormLInf(), maxv(maxv(absv(a[0]), absv(a[1])), absv(a[2])))
    yield "+=", lambda: same(L.mut(u, "operator+=", v), plus(a, b))
    yield "-=", lambda: same(L.mut(u, "operator-=", v), minus(a, b))
    yield "*=", lambda: same(L.mut(u, "operator*=", k), scale(k, a))
    yield "/=", lambda: same(L.mut(u, "operator/=", k), scale(1 / k, a))
    yield "Normalized", lambda: (norm2(xyz(u.Normalized())), 1)
    yield "Utils::ScalarProduct", lambda: (L.free("Utils::ScalarProduct", u, v), dot(a, b))
    yield "Utils::VectorsAngle", lambda: (cos(L.free("Utils::VectorsAngle", u, v)) * sqrt(norm2(a) * norm2(b)), dot(a, b))


@law("Vector2Cartesian")
def _(L):
    a, b = syms(L, "a", 2), syms(L, "b", 2); u, v = v2(L, "a"), v2(L, "b")
    yield "scalar product", lambda: [(u * v, dot(a, b)), (L.free("ScalarProduct", u, v), dot(a, b))]
    yield "Normalized", lambda: same(u.Normalized(), scale(1 / sqrt(norm2(a)), a), 2)
    yield "GetAsUnitVector", lambda: same(u.GetAsUnitVector(), scale(1 / sqrt(norm2(a)), a), 2)
    yield "GetAsUnitVectorAtPos", lambda: same(u.GetAsUnitVectorAtPos(v), scale(1 / sqrt(norm2(a)), a), 2)
    def perp():
        x, y = L.vec("Vector2Cartesian", 0, 0), L.vec("Vector2Cartesian", 0, 0)
        u.getPerpendicularVectors(x, y); x, y = xyz(L.out(x), 2), xyz(L.out(y), 2)
        return [(dot(x, a), 0), (dot(y, a), 0), (dot(x, y) ** 2, norm2(x) * norm2(y)), (x[0] + y[0], 0), (x[1] + y[1], 0)]
    yield "perpendicular vectors", perp
    yield "between points", lambda: same(L.new("Vector2Cartesian", p2(L, "a"), p2(L, "b")), minus(b, a), 2)
    yield "point plus vector", lambda: same(p2(L, "a") + v, plus(a, b), 2)
    yield "point minus vector", lambda: same(p2(L, "a") - v, minus(a, b), 2)


@law("Vector3Cartesian")
def _(L):
    a, b = syms(L, "a", 3), syms(L, "b", 3); u, v = v3(L, "a"), v3(L, "b"); k = L.pos("k")
    yield "scalar product", lambda: [(u * v, dot(a, b)), (L.free("ScalarProduct", u, v), dot(a, b)), (u.ScalarProduct(v), dot(a, b))]
    yield "vector product", lambda: same(L.free("VectorProduct", u, v), cross(a, b))
    yield "Normalized", lambda: same(u.Normalized(), scale(1 / sqrt(norm2(a)), a))
    yield "GetAsUnitVector", lambda: same(u.GetAsUnitVector(), scale(1 / sqrt(norm2(a)), a))
    yield "GetAsUnitVectorAtPos", lambda: same(u.GetAsUnitVectorAtPos(v), scale(1 / sqrt(norm2(a)), a))
    yield "AngleToVector", lambda: (cos(u.AngleToVector(v)) * sqrt(norm2(a) * norm2(b)), dot(a, b))
    yield "parallel to its multiple", lambda: [(u.IsParallelTo(L.vec("Vector3Cartesian", *scale(k, a)), 1e-6), 1), (u.IsPerpendicularTo(L.vec("Vector3Cartesian", *cross(a, b)), 1e-6), 1)]
    yield "not parallel", lambda: [(u.IsParallelTo(v, 1e-12), 0), (u.IsPerpendicularTo(v, 1e-12), 0)]
    def perp():
        x, y = L.vec("Vector3Cartesian", 0, 0, 0), L.vec("Vector3Cartesian", 0, 0, 0)
        if not yes(u.GetPerpendicularVectors(x, y)): raise Empty()
        x, y = xyz(L.out(x)), xyz(L.out(y))
        return [(dot(x, a), 0), (dot(y, a), 0), (dot(x, y), 0), (norm2(x), 1), (norm2(y), 1)]
    yield "perpendicular vectors", perp
    yield "between points", lambda: same(L.new("Vector3Cartesian", p3(L, "a"), p3(L, "b")), minus(b, a))
    yield "point plus vector", lambda: same(p3(L, "a") + v, plus(a, b))
    yield "point minus vector", lambda: same(p3(L, "a") - v, minus(a, b))
    yield "getAsPoint", lambda: same(u.getAsPoint(), a)


@law("Vector4Minkowski")
def _(L):
    a, b = syms(L, "a", 4), syms(L, "b", 4); u, v = L.vec("Vector4Minkowski", *a), L.vec("Vector4Minkowski", *b)
    q = lambda a, b: a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]
    yield "scalar product", lambda: (L.free("ScalarProduct", u, v), q(a, b))
    yield "Norm", lambda: (u.Norm() ** 2, absv(q(a, a)))
    yield "Distance", lambda: (u.Distance(v) ** 2, absv(q(minus(a, b), minus(a, b))))
    yield "isTimelike", lambda: (u.isTimelike(), q(a, a)), "iff"
    yield "isSpacelike", lambda: (u.isSpacelike(), -1 * q(a, a)), "iff"


for _n, _d in (("Point2Cartesian", 2), ("Point3Cartesian", 3)):
    @law(_n)
    def _(L, t=_n, n=_d):
        a, b = syms(L, "a", n), syms(L, "b", n); k = L.sym("k"); p, q = L.new(t, *a), L.new(t, *b)
        yield "Dist", lambda: (p.Dist(q) ** 2, norm2(minus(a, b)))
        yield "coordinates", lambda: same(p, a, n)
        yield "+", lambda: same(p + q, plus(a, b), n)
        yield "-", lambda: same(p - q, minus(a, b), n)
        yield "*", lambda: same(p * k, scale(k, a), n)
        yield "/", lambda: same(p / k, scale(1 / k, a), n)
        yield "+=", lambda: same(L.mut(p, "operator+=", q), plus(a, b), n)
        yield "-=", lambda: same(L.mut(p, "operator-=", q), minus(a, b), n)
        yield "*=", lambda: same(L.mut(p, "operator*=", k), scale(k, a), n)
        yield "/=", lambda: same(L.mut(p, "operator/=", k), scale(1 / k, a), n)
        yield "==", lambda: [(p.op("==", p), 1), (p.op("!=", p), 0), (p.op("==", q), 0), (p.op("!=", q), 1)]
        for i in range(n):
            c = [a[j] + (k if j == i else 0) for j in range(n)]
            yield "== differing in coordinate %d" % i, lambda c=c: [(p.op("==", L.new(t, *c)), 0), (p.op("!=", L.new(t, *c)), 1)]


@law("Point2Polar")
def _(L):
    r, s = L.pos("r", "s"); f, g = L.rng("f", -3.1, 3.1), L.rng("g", -3.1, 3.1); p, q = L.new("Point2Polar", r, f), L.new("Point2Polar", s, g)
    c = [r * cos(f), r * sin(f)]; d = [s * cos(g), s * sin(g)]
    yield "TransfToCart", lambda: same(p.TransfToCart(), c, 2)
    yield "Dist", lambda: (p.Dist(q) ** 2, norm2(minus(c, d)))
    def back():
        x = syms(L, "x", 2); w = L.new("Point2Polar", L.new("Point2Cartesian", *x))
        return [(w.R() * cos(w.Phi()), x[0]), (w.R() * sin(w.Phi()), x[1]), (w.R() ** 2, norm2(x))]
    yield "from Cartesian", back


@law("Point3Spherical")
def _(L):
    r, s = L.pos("r", "s"); f, g = L.rng("f", -3.1, 3.1), L.rng("g", -3.1, 3.1); t, h = L.rng("t", 0.05, 3.05), L.rng("h", 0.05, 3.05)
    p, q = L.new("Point3Spherical", r, t, f), L.new("Point3Spherical", s, h, g)
    c = [r * sin(t) * cos(f), r * sin(t) * sin(f), r * cos(t)]; d = [s * sin(h) * cos(g), s * sin(h) * sin(g), s * cos(h)]
    yield "TransfToCart", lambda: same(p.TransfToCart(), c)
    yield "Dist", lambda: (p.Dist(q) ** 2, norm2(minus(c, d)))
    yield "calculator", lambda: same(L.sta("SphericalGeometryCalculator", "CartesianFromSpherical", p), c)
    def back():
        x = syms(L, "x", 3); w = L.new("Point3Spherical", L.new("Point3Cartesian", *x))
        return [(w.R() * sin(w.Theta()) * cos(w.Phi()), x[0]), (w.R() * sin(w.Theta()) * sin(w.Phi()), x[1]), (w.R() * cos(w.Theta()), x[2]), (w.R() ** 2, norm2(x))]
    yield "from Cartesian", back


@law("Point3Cylindrical")
def _(L):
    r, s = L.pos("r", "s"); f, g = L.rng("f", -3.1, 3.1), L.rng("g", -3.1, 3.1); z, y = L.sym("z"), L.sym("y")
    p, q = L.new("Point3Cylindrical", r, f, z), L.new("Point3Cylindrical", s, g, y)
    c = [r * cos(f), r * sin(f), z]; d = [s * cos(g), s * sin(g), y]
    yield "TransfToCart", lambda: same(p.TransfToCart(), c)
    yield "Dist", lambda: (p.Dist(q) ** 2, norm2(minus(c, d)))
    def back():
        x = syms(L, "x", 3); w = L.new("Point3Cylindrical", L.new("Point3Cartesian", *x))
        return [(w.R() * cos(w.Phi()), x[0]), (w.R() * sin(w.Phi()), x[1]), (w.Z(), x[2])]
    yield "from Cartesian", back


@law("spherical geometry")
def _(L):
    a, b = L.rng("a", -1.5, 1.5), L.rng("b", -1.5, 1.5); f, g = L.rng("f", -3, 3), L.rng("g", -3, 3); R = L.pos("R"); k = 180 / PI
    dist = lambda *r: L.sta("SphericalGeometryCalculator", "DistanceBetweenLatLong", *(list(r) + [k * a, k * f, k * b, k * g]))
    yield "great-circle distance", lambda: (cos(dist(R) / R), sin(a) * sin(b) + cos(a) * cos(b) * cos(f - g))
    yield "central angle", lambda: (cos(dist()), sin(a) * sin(b) + cos(a) * cos(b) * cos(f - g))
    x = [L.sym("x%d" % i) for i in range(3)]
    yield "RadiusFromCartesian", lambda: (L.sta("SphericalGeometryCalculator", "RadiusFromCartesian", L.new("Point3Cartesian", *x)) ** 2, norm2(x))


@law("angle and coordinate helpers")
def _(L):
    r, t, f, x, y, z = L.pos("r"), L.rng("t", 0.05, 3.05), L.rng("f", -3.1, 3.1), L.sym("x"), L.sym("y"), L.sym("z")
    o = lambda n: [L.sym("o%d" % i) for i in range(n)]
    def io(fn, *a):
        w = [L.sym("o%d" % i) for i in range(2 if "Polar" in fn else 3)]
        L.free("Utils::" + fn, *(list(a) + w))
        return [L.out(i) for i in w]
    yield "PolarToCartesian", lambda: same(io("PolarToCartesian", r, f), [r * cos(f), r * sin(f)])
    yield "SphericalToCartesian", lambda: same(io("SphericalToCartesian", r, t, f), [r * sin(t) * cos(f), r * sin(t) * sin(f), r * cos(t)])
    yield "CylindricalToCartesian", lambda: same(io("CylindricalToCartesian", r, f, z), [r * cos(f), r * sin(f), z])
    def cp():
        p = io("CartesianToPolar", x, y); return [(p[0] * cos(p[1]), x), (p[0] * sin(p[1]), y)]
    yield "CartesianToPolar", cp
    def cs():
        p = io("CartesianToSpherical", x, y, z); return [(p[0] * sin(p[1]) * cos(p[2]), x), (p[0] * sin(p[1]) * sin(p[2]), y), (p[0] * cos(p[1]), z)]
    yield "CartesianToSpherical", cs
    def cc():
        p = io("CartesianToCylindrical", x, y, z); return [(p[0] * cos(p[1]), x), (p[0] * sin(p[1]), y), (p[2], z)]
    yield "CartesianToCylindrical", cc
    yield "degrees and radians", lambda: [(L.free("Utils::DegToRad", x) * 180, PI * x), (L.free("Utils::RadToDeg", x) * PI, 180 * x)]
    def ex():
        d, m, s = o(3); return [(L.free("Utils::ExplicitToAngleDeg", d, m, s) * 3600, 3600 * d + 60 * m + s), (L.free("Utils::ExplicitToAngleRad", d, m, s) * 180 * 3600, PI * (3600 * d + 60 * m + s))]
    yield "degrees, minutes, seconds", ex
    for i in range(2):
        for j in range(2): yield "KroneckerDelta %d%d" % (i, j), lambda i=i, j=j: (L.free("Utils::KroneckerDelta", i, j), int(i == j))
    def lc():
        out = []
        for i in range(3):
            for j in range(3):
                for k in range(3): out.append((L.free("Utils::LeviCivita", i + 1, j + 1, k + 1), (i - j) * (j - k) * (k - i) // 2))
        return out
    yield "LeviCivita", lc


def quat(L, n): return L.new("Quaternion", *syms(L, n, 4))
def wxyz(q): return [getattr(q, c)() for c in "wxyz"]
def qmul(a, b): return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


@law("Quaternion")
def _(L):
    a, b = syms(L, "a", 4), syms(L, "b", 4); p, q = quat(L, "a"), quat(L, "b"); k = L.sym("k"); v = syms(L, "v", 3); V3 = v3(L, "v")
    n2 = norm2(a); Q = lambda w, x: list(zip(wxyz(w), x))
    yield "components", lambda: Q(p, a) + [(p.Scalar(), a[0])] + same(p.Vector(), a[1:]) + [(p[i], a[i]) for i in range(4)]
    yield "from scalar and vector", lambda: Q(L.new("Quaternion", k, V3), [k] + v)
    yield "from vector", lambda: Q(L.new("Quaternion", V3), [0] + v)
    yield "identity", lambda: Q(L.sta("Quaternion", "Identity"), [1, 0, 0, 0]) + Q(L.new("Quaternion"), [1, 0, 0, 0])
    yield "sum", lambda: Q(p + q, plus(a, b))
    yield "difference", lambda: Q(p - q, minus(a, b))
    yield "negation", lambda: Q(-p, scale(-1, a))
    yield "multiple", lambda: Q(p * k, scale(k, a))
    yield "multiple from the left", lambda: Q(L.free("operator*", k, p), scale(k, a))
    yield "quotient", lambda: Q(p / k, scale(1 / k, a))
    yield "product", lambda: Q(p * q, qmul(a, b))
    yield "+=", lambda: Q(L.mut(p, "operator+=", q), plus(a, b))
    yield "-=", lambda: Q(L.mut(p, "operator-=", q), minus(a, b))
    yield "*= number", lambda: Q(L.mut(p, "operator*=", k), scale(k, a))
    yield "*= quaternion", lambda: Q(L.mut(p, "operator*=", q), qmul(a, b))
    yield "*= itself", lambda: Q(L.mut(p, "operator*=", p), qmul(a, a))
    yield "Conjugate", lambda: Q(p.Conjugate(), [a[0]] + scale(-1, a[1:]))
    yield "norms", lambda: [(p.NormSquared(), n2), (p.Norm() ** 2, n2), (p.Dot(q), dot(a, b))]
    yield "Inverse", lambda: list(zip(qmul(a, wxyz(p.Inverse())), [1, 0, 0, 0]))
    yield "Normalize", lambda: list(zip(scale(sqrt(n2), wxyz(L.mut(p, "Normalize"))), a))
    yield "Normalized", lambda: list(zip(scale(sqrt(n2), wxyz(p.Normalized())), a))
    yield "Normalized leaves its operand", lambda: (p.Normalized() and Q(p, a))
    def rot():
        u = scale(1 / sqrt(n2), a); U = L.new("Quaternion", *u)
        w = qmul(qmul(a, [0] + v), [a[0]] + scale(-1, a[1:]))[1:]
        return U, w
    yield "Rotate", lambda: [(n2 * x, y) for x, y in zip(xyz(rot()[0].Rotate(V3)), rot()[1])]
    def mat():
        U, w = rot(); M = U.ToRotationMatrix()
        return [(n2 * (M[i, 0] * v[0] + M[i, 1] * v[1] + M[i, 2] * v[2]), w[i]) for i in range(3)]
    yield "ToRotationMatrix", mat
    yield "equality", lambda: [(p.op("==", p), 1), (p.op("!=", p), 0), (p.op("==", q), 0), (p.op("!=", q), 1), (p.isApprox(p, L.pos("eps")), 1)]
    for i in range(4):
        c = [a[j] + (3 if j == i else 0) for j in range(4)]
        yield "isApprox differing in component %d" % i, lambda c=c: (p.isApprox(L.new("Quaternion", *c), 1e-6), 0)
    yield "isUnit", lambda: [(L.new("Quaternion", cos(k), sin(k), 0, 0).isUnit(1e-6), 1), (L.new("Quaternion", cos(k), 0, sin(k), 0).isUnit(1e-6), 1), (L.new("Quaternion", cos(k), 0, 0, sin(k)).isUnit(1e-6), 1)]


@law("Quaternion rotations")
def _(L):
    t = L.rng("t", 0.05, 3.0); al, be = L.rng("al", 0.1, 3.0), L.rng("be", -3, 3)
    ax = [sin(al) * cos(be), sin(al) * sin(be), cos(al)]
    Q = lambda w, x: list(zip(wxyz(w), x)); h = t / 2
    q = lambda: L.sta("Quaternion", "FromAxisAngle", L.vec("Vector3Cartesian", *ax), t)
    yield "FromAxisAngle", lambda: Q(q(), [cos(h)] + scale(sin(h), ax))
    yield "GetRotationAngle", lambda: (q().GetRotationAngle(), t)
    yield "GetRotationAxis", lambda: same(q().GetRotationAxis(), ax)
    def both():
        x, y = L.vec("Vector3Cartesian", 0, 0, 0), L.sym("o"); q().ToAxisAngle(x, y)
        return same(L.out(x), ax) + [(L.out(y), t)]
    yield "ToAxisAngle", both
    A_, B, C_ = L.rng("A", -1.4, 1.4), L.rng("B", -1.4, 1.4), L.rng("C", -1.4, 1.4)
    hq = lambda t, i: [cos(t / 2)] + [sin(t / 2) if j == i else 0 * t for j in range(3)]
    yield "FromEulerZYX", lambda: Q(L.sta("Quaternion", "FromEulerZYX", A_, B, C_), qmul(qmul(hq(A_, 2), hq(B, 1)), hq(C_, 0)))
    yield "FromEulerXYZ", lambda: Q(L.sta("Quaternion", "FromEulerXYZ", A_, B, C_), qmul(qmul(hq(A_, 0), hq(B, 1)), hq(C_, 2)))
    def euler():
        e = L.sta("Quaternion", "FromEulerZYX", A_, B, C_).ToEulerZYX()
        return [(e[0], A_), (e[1], B), (e[2], C_)]
    yield "ToEulerZYX", euler
    def mat():
        b = L.rng("b0", -1, 1), L.rng("b1", -1, 1), L.rng("b2", -1, 1), L.rng("b3", -1, 1); n = sqrt(norm2(b)); u = [x / n for x in b]
        w = wxyz(L.sta("Quaternion", "FromRotationMatrix", L.new("Quaternion", *u).ToRotationMatrix()))
        return [(w[i] * w[j], u[i] * u[j]) for i in range(4) for j in range(i, 4)]
    yield "FromRotationMatrix", mat


@law("Quaternion interpolation")
def _(L):
    t = L.rng("t", 0.05, 0.95); f = L.rng("f", 0.2, 1.3); d = L.rng("d", 0.2, 1.3)
    a, b = [cos(f), sin(f), 0, 0], [cos(f + d), sin(f + d), 0, 0]
    p, q = lambda: L.new("Quaternion", *a), lambda: L.new("Quaternion", *b); Q = lambda w, x: list(zip(wxyz(w), x))
    for nm in ("Lerp", "Slerp"):
        yield nm + " ends", lambda nm=nm: Q(L.sta("Quaternion", nm, p(), q(), 0), a) + Q(L.sta("Quaternion", nm, p(), q(), 1), b)
        if nm == "Slerp": yield nm + " stays a unit quaternion", lambda nm=nm: (norm2(wxyz(L.sta("Quaternion", nm, p(), q(), t))), 1)
    yield "Slerp at constant speed", lambda: Q(L.sta("Quaternion", "Slerp", p(), q(), t), [cos(f + t * d), sin(f + t * d), 0, 0])
    yield "Slerp takes the short way", lambda: [(x * x, y * y) for x, y in Q(L.sta("Quaternion", "Slerp", p(), -q(), t), [cos(f + t * d), sin(f + t * d), 0, 0])]


# ------------------------------------------------------------------ lines, planes, circles, boxes
@law("Circle2D")
def _(L):
    c, p, q = syms(L, "c", 2), syms(L, "p", 2), syms(L, "q", 2); r, t, x = L.pos("r", "t", "x"); C_ = L.new("Circle2D", p2(L, "c"), r); P_ = p2(L, "p")
    d = sqrt(norm2(minus(p, c)))
    yield "from coordinates", lambda: same(L.new("Circle2D", c[0], c[1], r).Center(), c, 2) + [(L.new("Circle2D", c[0], c[1], r).Radius(), r)]
    yield "Diameter", lambda: (C_.Diameter(), 2 * r)
    yield "Area", lambda: (C_.Area(), PI * r ** 2)
    yield "Circumference", lambda: (C_.Circumference(), 2 * PI * r)
    yield "Perimeter", lambda: (C_.Perimeter(), 2 * PI * r)
    yield "ArcLength", lambda: (C_.ArcLength(t), r * t)
    yield "SectorArea", lambda: (2 * C_.SectorArea(t), r ** 2 * t)
    yield "ChordLength", lambda: (C_.ChordLength(t) ** 2, 2 * r ** 2 * (1 - cos(t)))
    yield "PointAt", lambda: same(C_.PointAt(t), [c[0] + r * cos(t), c[1] + r * sin(t)], 2)
    yield "TangentAt", lambda: (dot(xyz(C_.TangentAt(t), 2), [cos(t), sin(t)]), 0)
    yield "TangentAt is a unit vector", lambda: (norm2(xyz(C_.TangentAt(t), 2)), 1)
    yield "DistanceFromCenter", lambda: (C_.DistanceFromCenter(P_), d)
    yield "SignedDistance", lambda: (C_.SignedDistance(P_), d - r)
    yield "DistanceToPoint", lambda: (C_.DistanceToPoint(P_), absv(d - r))
    yield "Contains", lambda: (C_.Contains(P_), r - d), "iff"
    yield "IsOnBoundary", lambda: [(C_.IsOnBoundary(C_.PointAt(t)), 1), (C_.IsOnBoundary(P_), 0)]
    yield "ClosestPoint", lambda: same(C_.ClosestPoint(P_), [c[i] + r * (p[i] - c[i]) / d for i in range(2)], 2)
    yield "Intersects circle", lambda: (C_.Intersects(L.new("Circle2D", P_, x)), [r + x - d, d - absv(r - x)]), "iff"
    yield "Translated", lambda: same(C_.Translated(v2(L, "p")).Center(), plus(c, p), 2) + [(C_.Translated(v2(L, "p")).Radius(), r)]
    yield "Scaled", lambda: same(C_.Scaled(x).Center(), c, 2) + [(C_.Scaled(x).Radius(), x * r)]
    def bb():
        b = C_.GetBoundingBox(); f = lambda n: L.field(b, n)
        return [(f("minX"), c[0] - r), (f("maxX"), c[0] + r), (f("minY"), c[1] - r), (f("maxY"), c[1] + r)]
    yield "GetBoundingBox", bb
    fd = lambda: L.sta("Circle2D", "FromDiameter", p2(L, "p"), p2(L, "q"))
    yield "FromDiameter", lambda: same(fd().Center(), scale(0.5, plus(p, q)), 2) + [(4 * fd().Radius() ** 2, norm2(minus(p, q)))]
    def three():
        w = L.sta("Circle2D", "FromThreePoints", p2(L, "p"), p2(L, "q"), p2(L, "c")); o = xyz(w.Center(), 2)
        return [(norm2(minus(o, z)), w.Radius() ** 2) for z in (p, q, c)]
    yield "FromThreePoints", three
    def cg2():
        o, rad = L.new("Point2Cartesian", 0, 0), L.sym("o"); L.sta("CompGeometry::Circles", "CircleFrom2Points", p2(L, "p"), p2(L, "q"), o, rad)
        o = xyz(L.out(o), 2); return [(norm2(minus(o, z)), L.out(rad) ** 2) for z in (p, q)] + [(4 * L.out(rad) ** 2, norm2(minus(p, q)))]
    yield "enclosing circle of two points", cg2
    def cg3():
        o, rad = L.new("Point2Cartesian", 0, 0), L.sym("o")
        if not yes(L.sta("CompGeometry::Circles", "CircleFrom3Points", p2(L, "p"), p2(L, "q"), p2(L, "c"), o, rad)): raise Empty()
        o = xyz(L.out(o), 2); return [(norm2(minus(o, z)), L.out(rad) ** 2) for z in (p, q, c)]
    yield "circle through three points", cg3
    yield "Intersects line", lambda: (C_.Intersects(L.new("Line2D", p2(L, "p"), p2(L, "q"))), r ** 2 * norm2(minus(q, p)) - ((q[0] - p[0]) * (p[1] - c[1]) - (p[0] - c[0]) * (q[1] - p[1])) ** 2), "iff"


@law("Line2D")
def _(L):
    a, b, p = syms(L, "a", 2), syms(L, "b", 2), syms(L, "p", 2); l = L.new("Line2D", p2(L, "a"), p2(L, "b")); P_ = p2(L, "p"); d = minus(b, a)
    cr = d[0] * (p[1] - a[1]) - d[1] * (p[0] - a[0])
    yield "Direction", lambda: [(norm2(xyz(l.Direction(), 2)), 1), (xyz(l.Direction(), 2)[0] * d[1], xyz(l.Direction(), 2)[1] * d[0])]
    yield "StartPoint", lambda: same(l.StartPoint(), a, 2)
    yield "DistanceToPoint", lambda: (l.DistanceToPoint(P_) ** 2 * norm2(d), cr ** 2)
    def closest():
        c = xyz(l.ClosestPoint(P_), 2); return [(dot(minus(p, c), d), 0), (d[0] * (c[1] - a[1]), d[1] * (c[0] - a[0]))]
    yield "ClosestPoint", closest
    def perp():
        m = l.Perpendicular(P_); return [(dot(xyz(m.Direction(), 2), d), 0), (norm2(xyz(m.Direction(), 2)), 1)] + same(m.StartPoint(), p, 2)
    yield "Perpendicular", perp
    k = L.sym("k")
    yield "Contains", lambda: [(l.Contains(L.new("Point2Cartesian", *plus(a, d, k)), 1e-9), 1), (l.Contains(P_, 1e-12), 0)]
    def inter():
        q = syms(L, "q", 2); m = L.new("Line2D", P_, p2(L, "q")); r = l.Intersection(m)
        if num_(L.field(r, "type")).const() != 1 if False else False: raise Empty()
        return r, q
    yield "Intersects", lambda: (l.Intersects(L.new("Line2D", P_, p2(L, "q")), L.new("Point2Cartesian", 0, 0)), 1)
    def ipt():
        q = syms(L, "q", 2); o = L.new("Point2Cartesian", 0, 0)
        if not yes(l.Intersects(L.new("Line2D", P_, p2(L, "q")), o)): raise Empty()
        x = xyz(L.out(o), 2); e = minus(q, p)
        return [(d[0] * (x[1] - a[1]), d[1] * (x[0] - a[0])), (e[0] * (x[1] - p[1]), e[1] * (x[0] - p[0]))]
    yield "intersection point", ipt


@law("SegmentLine2D")
def _(L):
    a, b, p, t = syms(L, "a", 2), syms(L, "b", 2), syms(L, "p", 2), L.rng("t", 0, 1); s = L.new("SegmentLine2D", p2(L, "a"), p2(L, "b")); d = minus(b, a); P_ = p2(L, "p")
    yield "Length", lambda: (s.Length() ** 2, norm2(d))
    yield "Midpoint", lambda: same(s.Midpoint(), scale(0.5, plus(a, b)), 2)
    yield "PointOnSegment", lambda: same(s.PointOnSegment(t), plus(a, d, t), 2)
    yield "Direction", lambda: [(xyz(s.Direction(), 2)[0] * d[1], xyz(s.Direction(), 2)[1] * d[0])]
    yield "end points", lambda: same(s.StartPoint(), a, 2) + same(s.EndPoint(), b, 2)
    def clo():
        c = xyz(s.ClosestPoint(P_), 2); k = dot(minus(p, a), d) / norm2(d); k = maxv(0, minv(1, k))
        return same(c, plus(a, d, k))
    yield "ClosestPoint", clo
    def dist():
        k = dot(minus(p, a), d) / norm2(d); k = maxv(0, minv(1, k))
        return s.DistanceToPoint(P_) ** 2, norm2(minus(p, plus(a, d, k)))
    yield "DistanceToPoint", dist
    def ipt():
        q = syms(L, "q", 2); o = L.new("Point2Cartesian", 0, 0); m = L.new("SegmentLine2D", P_, p2(L, "q")); e = minus(q, p)
        if not yes(s.Intersects(m, o)): raise Empty()
        x = xyz(L.out(o), 2)
        return [(d[0] * (x[1] - a[1]), d[1] * (x[0] - a[0])), (e[0] * (x[1] - p[1]), e[1] * (x[0] - p[0]))]
    yield "intersection point", ipt
    def iff_():
        q = syms(L, "q", 2); m = L.new("SegmentLine2D", P_, p2(L, "q")); e = minus(q, p)
        o = lambda u, v, w: (v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])
        return s.Intersects(m), [-1 * o(a, b, p) * o(a, b, q), -1 * o(p, q, a) * o(p, q, b)]
    yield "Intersects", iff_, "iff"


@law("Triangle2D")
def _(L):
    a, b, c, p = [syms(L, n, 2) for n in "abcp"]; t = L.new("Triangle2D", p2(L, "a"), p2(L, "b"), p2(L, "c"))
    d2 = lambda x, y: norm2(minus(x, y)); S = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    yield "sides", lambda: [(t.A() ** 2 + t.B() ** 2 + t.C() ** 2, d2(a, b) + d2(b, c) + d2(a, c)), (t.A() ** 2 * t.B() ** 2 * t.C() ** 2, d2(a, b) * d2(b, c) * d2(a, c))]
    yield "Perimeter", lambda: (t.Perimeter(), sqrt(d2(a, b)) + sqrt(d2(b, c)) + sqrt(d2(a, c)))
    yield "SignedArea", lambda: (2 * t.SignedArea(), S)
    yield "Area", lambda: (2 * t.Area(), absv(S))
    yield "Centroid", lambda: same(scale(3, xyz(t.Centroid(), 2)), plus(plus(a, b), c))
    def cc():
        o = xyz(t.Circumcenter(), 2); return [(d2(o, a), d2(o, b)), (d2(o, b), d2(o, c))]
    yield "Circumcenter", cc
    yield "CircumRadius", lambda: (t.CircumRadius() ** 2 * 4 * S ** 2, d2(a, b) * d2(b, c) * d2(a, c))
    def ic():
        o = xyz(t.Incenter(), 2); h = lambda x, y: ((y[0] - x[0]) * (o[1] - x[1]) - (y[1] - x[1]) * (o[0] - x[0])) / sqrt(d2(x, y))
        return [(h(a, b), h(b, c)), (h(b, c), h(c, a))]
    yield "Incenter", ic
    yield "InRadius", lambda: (t.InRadius() * t.Perimeter(), absv(S))
    yield "angle sum", lambda: (t.AngleA() + t.AngleB() + t.AngleC(), PI)
    yield "law of sines", lambda: [(sin(t.AngleA()) * t.B(), sin(t.AngleB()) * t.A()), (sin(t.AngleB()) * t.C(), sin(t.AngleC()) * t.B())]
    yield "orientation", lambda: (t.IsCounterClockwise(), S), "iff"
    yield "clockwise", lambda: (t.IsClockwise(), -1 * S), "iff"
    o = lambda u, v, w: ((v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])) * S
    yield "Contains", lambda: (t.Contains(p2(L, "p")), [o(a, b, p), o(b, c, p), o(c, a, p)]), "iff"
    k = L.pos("k")
    def right():
        n = [-1 * (b[1] - a[1]), b[0] - a[0]]; x = L.new("Point2Cartesian", *plus(a, n, k)); A_, B = p2(L, "a"), p2(L, "b")
        return [(L.new("Triangle2D", A_, B, x).IsRight(1e-7), 1), (L.new("Triangle2D", x, A_, B).IsRight(1e-7), 1), (L.new("Triangle2D", B, x, A_).IsRight(1e-7), 1), (t.IsRight(1e-12), 0)]
    yield "IsRight", right
    def iso():
        n = [-1 * (b[1] - a[1]), b[0] - a[0]]; x = L.new("Point2Cartesian", *plus(scale(0.5, plus(a, b)), n, k)); A_, B = p2(L, "a"), p2(L, "b")
        return [(L.new("Triangle2D", A_, B, x).IsIsosceles(1e-7), 1), (L.new("Triangle2D", x, A_, B).IsIsosceles(1e-7), 1), (L.new("Triangle2D", B, x, A_).IsIsosceles(1e-7), 1)]
    yield "IsIsosceles", iso


def corners(w, n): return xyz(w.Min(), n), xyz(w.Max(), n)


for _n in (2, 3):
    @law("Box%dD" % _n)
    def _(L, n=_n):
        lo, p, c = syms(L, "lo", n), syms(L, "p", n), syms(L, "c", n); w = [L.pos("w%d" % i) for i in range(n)]; e, k = L.pos("e"), L.pos("k"); hi = plus(lo, w); pt = "Point%dCartesian" % n; bx = "Box%dD" % n
        P_ = L.new(pt, *p); mk = lambda u, v: L.new(bx, L.new(pt, *u), L.new(pt, *v)); B = mk(lo, hi)
        box = lambda W_, u, v: same(W_.Min(), u, n) + same(W_.Max(), v, n)
        yield "corners", lambda: box(B, lo, hi)
        yield "corners in any order", lambda: box(mk(hi, lo), lo, hi)
        yield "from coordinates", lambda: box(L.new(bx, *(lo + hi)), lo, hi)
        yield "extremes", lambda: [(getattr(B, "Min" + x)(), lo[i]) for i, x in enumerate("XYZ"[:n])] + [(getattr(B, "Max" + x)(), hi[i]) for i, x in enumerate("XYZ"[:n])]
        yield "extents", lambda: [(getattr(B, x)(), w[i]) for i, x in enumerate(("Width", "Height", "Depth")[:n])]
        yield "Size", lambda: same(B.Size(), w, n)
        yield "HalfExtents", lambda: same(B.HalfExtents(), scale(0.5, w), n)
        yield "Diagonal", lambda: (B.Diagonal() ** 2, norm2(w))
        yield "Center", lambda: same(B.Center(), scale(0.5, plus(lo, hi)), n)
        if n == 2:
            yield "Area", lambda: (B.Area(), w[0] * w[1])
            yield "Perimeter", lambda: (B.Perimeter(), 2 * (w[0] + w[1]))
            yield "AspectRatio", lambda: (B.AspectRatio() * w[1], w[0])
            for nm, i, j in (("BottomLeft", 0, 0), ("BottomRight", 1, 0), ("TopLeft", 0, 1), ("TopRight", 1, 1)):
                yield nm, lambda nm=nm, i=i, j=j: same(getattr(B, nm)(), [(lo, hi)[i][0], (lo, hi)[j][1]], 2)
            def circ():
                r = L.pos("r"); x = L.new("Circle2D", P_, r)
                return B.Intersects(x), r ** 2 - norm2(gap())
            gap = lambda: [maxv(0, maxv(lo[i] - p[i], p[i] - hi[i])) for i in range(n)]
            yield "Intersects circle", circ, "iff"
        else:
            yield "Volume", lambda: (B.Volume(), w[0] * w[1] * w[2])
            yield "SurfaceArea", lambda: (B.SurfaceArea(), 2 * (w[0] * w[1] + w[1] * w[2] + w[2] * w[0]))
            for m in range(8):
                nm = "Corner%d%d%d" % (m >> 2, m >> 1 & 1, m & 1)
                yield nm, lambda nm=nm, m=m: same(getattr(B, nm)(), [(lo, hi)[m >> 2][0], (lo, hi)[m >> 1 & 1][1], (lo, hi)[m & 1][2]], 3)
            gap = lambda: [maxv(0, maxv(lo[i] - p[i], p[i] - hi[i])) for i in range(n)]
        C_ = lambda: L.new(pt, *c)
        yield "FromCenterAndSize", lambda: box(L.sta(bx, "FromCenterAndSize", C_(), *w), plus(c, w, -0.5), plus(c, w, 0.5))
        yield "FromCenterAndHalfExtents", lambda: box(L.sta(bx, "FromCenterAndHalfExtents", C_(), *w), minus(c, w), plus(c, w))
        if n == 3: yield "FromCenterAndHalfExtents vector", lambda: box(L.sta(bx, "FromCenterAndHalfExtents", C_(), L.vec("Vector3Cartesian", *w)), minus(c, w), plus(c, w))
        yield "Contains", lambda: (B.Contains(P_), [x for i in range(n) for x in (p[i] - lo[i], hi[i] - p[i])]), "iff"
        yield "DistanceToPoint", lambda: (B.DistanceToPoint(P_) ** 2, norm2(gap()))
        yield "ClosestPoint", lambda: same(B.ClosestPoint(P_), [maxv(lo[i], minv(hi[i], p[i])) for i in range(n)], n)
        u = [L.pos("u%d" % i) for i in range(n)]; O = lambda: mk(p, plus(p, u)); q = plus(p, u)
        for i in range(n):
            # the boxes agree in the other coordinates, so that each axis is decided on its own
            off = lambda i=i: mk([p[j] if j == i else lo[j] for j in range(n)], [q[j] if j == i else hi[j] for j in range(n)])
            yield "Contains box, axis %d" % i, lambda i=i, off=off: (B.Contains(off()), [p[i] - lo[i], hi[i] - q[i]]), "iff"
            yield "Intersects, axis %d" % i, lambda i=i, off=off: (B.Intersects(off()), [q[i] - lo[i], hi[i] - p[i]]), "iff"
            def isec(i=i, off=off):
                L.require(q[i] - lo[i]); L.require(hi[i] - p[i])
                return box(B.Intersection(off()), [maxv(p[j], lo[j]) if j == i else lo[j] for j in range(n)], [minv(q[j], hi[j]) if j == i else hi[j] for j in range(n)])
            yield "Intersection, axis %d" % i, isec
        yield "Union", lambda: box(B.Union(O()), [minv(x, y) for x, y in zip(lo, p)], [maxv(x, y) for x, y in zip(hi, q)])
        yield "ExpandToInclude", lambda: box(L.mut(B, "ExpandToInclude", P_), [minv(x, y) for x, y in zip(lo, p)], [maxv(x, y) for x, y in zip(hi, p)])
        yield "Expanded", lambda: box(B.Expanded(e), [x - e for x in lo], [x + e for x in hi])
        yield "Translated", lambda: box(B.Translated(L.vec("Vector%dCartesian" % n, *p)), plus(lo, p), plus(hi, p))
        def sc():
            m = scale(0.5, plus(lo, hi)); return box(B.Scaled(k), plus(m, w, -0.5 * k), plus(m, w, 0.5 * k))
        yield "Scaled", sc


@law("BoundingSphere3D")
def _(L):
    c, p = syms(L, "c", 3), syms(L, "p", 3); r, q = L.pos("r", "q"); S = L.new("BoundingSphere3D", p3(L, "c"), r); d2 = norm2(minus(p, c))
    yield "Volume", lambda: (3 * S.Volume(), 4 * PI * r ** 3)
    yield "Contains", lambda: (S.Contains(p3(L, "p")), r ** 2 - d2), "iff"
    yield "Intersects", lambda: (S.Intersects(L.new("BoundingSphere3D", p3(L, "p"), q)), (r + q) ** 2 - d2), "iff"
    def exp_():
        L.require(d2 - r ** 2); x = L.mut(S, "ExpandToInclude", p3(L, "p")); o = xyz(x.Center()); R = x.Radius()
        return x, o, R
    yield "ExpandToInclude reaches the point", lambda: (norm2(minus(p, exp_()[1])), exp_()[2] ** 2)


@law("Line3D")
def _(L):
    a, b, p, q = [syms(L, n, 3) for n in "abpq"]; l = L.new("Line3D", p3(L, "a"), p3(L, "b")); m = L.new("Line3D", p3(L, "p"), p3(L, "q")); d, e = minus(b, a), minus(q, p); P_ = p3(L, "p")
    k = L.sym("k")
    yield "Direction", lambda: [(norm2(xyz(l.Direction())), 1)] + [(x, 0) for x in cross(xyz(l.Direction()), d)]
    yield "from point and direction", lambda: [(norm2(xyz(L.new("Line3D", p3(L, "a"), v3(L, "b")).Direction())), 1)] + [(x, 0) for x in cross(xyz(L.new("Line3D", p3(L, "a"), v3(L, "b")).Direction()), b)]
    yield "Dist", lambda: (l.Dist(P_) ** 2 * norm2(d), norm2(cross(d, minus(p, a))))
    def near():
        c = xyz(l.NearestPointOnLine(P_)); return [(dot(minus(p, c), d), 0)] + [(x, 0) for x in cross(minus(c, a), d)]
    yield "NearestPointOnLine", near
    yield "point at parameter", lambda: [(x, 0) for x in cross(minus(xyz(l(k)), a), d)] + [(norm2(minus(xyz(l(k)), a)), k ** 2)]
    yield "IsPointOnLine", lambda: [(l.IsPointOnLine(L.new("Point3Cartesian", *plus(a, d, k)), 1e-7), 1), (l.IsPointOnLine(P_, 1e-12), 0)]
    yield "Dist between lines", lambda: (l.Dist(m) ** 2 * norm2(cross(d, e)), dot(minus(p, a), cross(d, e)) ** 2)
    def foot():
        o, u, v = L.sym("o"), L.new("Point3Cartesian", 0, 0, 0), L.new("Point3Cartesian", 0, 0, 0)
        if not yes(l.Dist(m, o, u, v)): raise Empty()
        u, v = xyz(L.out(u)), xyz(L.out(v)); g = minus(u, v)
        return [(dot(g, d), 0), (dot(g, e), 0), (norm2(g), L.out(o) ** 2)] + [(x, 0) for x in cross(minus(u, a), d)] + [(x, 0) for x in cross(minus(v, p), e)]
    yield "feet of the common perpendicular", foot
    par = L.new("Line3D", P_, L.vec("Vector3Cartesian", *d))
    yield "Dist between parallel lines", lambda: (l.Dist(par) ** 2 * norm2(d), norm2(cross(d, minus(p, a))))
    def dpar():
        o, u, v = L.sym("o"), L.new("Point3Cartesian", 0, 0, 0), L.new("Point3Cartesian", 0, 0, 0)
        return [(yes(l.Dist(par, o, u, v)), 0), (L.out(o) ** 2 * norm2(d), norm2(cross(d, minus(p, a))))]
    yield "Dist between parallel lines, with feet", dpar
    def perp():
        w = l.PerpendicularLineThroughPoint(P_); c = xyz(l.NearestPointOnLine(P_))
        return [(dot(xyz(w.Direction()), d), 0)] + [(x, 0) for x in cross(minus(p, xyz(w.StartPoint())), xyz(w.Direction()))] + [(x, 0) for x in cross(minus(c, xyz(w.StartPoint())), xyz(w.Direction()))]
    yield "PerpendicularLineThroughPoint", perp
    yield "IsParallel", lambda: [(l.IsParallel(L.new("Line3D", P_, L.vec("Vector3Cartesian", *d)), 1e-7), 1), (l.IsParallel(m, 1e-12), 0)]
    yield "IsPerpendicular", lambda: [(l.IsPerpendicular(L.new("Line3D", P_, L.vec("Vector3Cartesian", *cross(d, q))), 1e-7), 1), (l.IsPerpendicular(m, 1e-12), 0)]


@law("SegmentLine3D")
def _(L):
    a, b, p = [syms(L, n, 3) for n in "abp"]; t = L.rng("t", 0, 1); s = L.new("SegmentLine3D", p3(L, "a"), p3(L, "b")); d = minus(b, a)
    yield "Length", lambda: (s.Length() ** 2, norm2(d))
    yield "end points", lambda: same(s.StartPoint(), a) + same(s.EndPoint(), b)
    yield "Direction", lambda: [(x, 0) for x in cross(xyz(s.Direction()), d)]
    yield "point at parameter", lambda: same(s(t), plus(a, d, t))
    def dist():
        k = dot(minus(p, a), d) / norm2(d); k = maxv(0, minv(1, k))
        return s.Dist(p3(L, "p")) ** 2, norm2(minus(p, plus(a, d, k)))
    yield "Dist", dist


@law("Plane3D")
def _(L):
    a, n, p, b, c = [syms(L, x, 3) for x in ("a", "n", "p", "b", "c")]; P_ = p3(L, "p"); pl = L.new("Plane3D", p3(L, "a"), L.vec("Vector3Cartesian", *n)); h = dot(minus(p, a), n)
    abcd = lambda w: [w.A(), w.B(), w.C(), w.D()]
    on = lambda w, x: dot(abcd(w)[:3], x) + w.D()
    yield "point and normal", lambda: [(x, 0) for x in cross(xyz(pl.Normal()), n)] + [(on(pl, a), 0), (norm2(abcd(pl)[:3]), 1)]
    tri = lambda: L.new("Plane3D", p3(L, "a"), p3(L, "b"), p3(L, "c"))
    yield "three points", lambda: [(on(tri(), x), 0) for x in (a, b, c)] + [(norm2(abcd(tri())[:3]), 1)]
    yield "axis intercepts", lambda: [(on(L.new("Plane3D", *n), [n[i] if i == j else 0 for i in range(3)]), 0) for j in range(3)]
    D_ = L.sym("D")
    def eq():
        w = L.new("Plane3D", n[0], n[1], n[2], D_); return list(zip(abcd(w), [cos(x) for x in n] + [-D_]))
    yield "Hesse form", eq
    yield "GetPointOnPlane", lambda: (on(pl, xyz(pl.GetPointOnPlane())), 0)
    yield "DistToPoint", lambda: (pl.DistToPoint(P_) ** 2 * norm2(n), h ** 2)
    def proj():
        x = xyz(pl.ProjectionToPlane(P_)); return [(on(pl, x), 0)] + [(y, 0) for y in cross(minus(p, x), n)]
    yield "ProjectionToPlane", proj
    def seg():
        o = [L.sym("o%d" % i) for i in range(3)]; pl.GetCoordAxisSegments(*o)
        return [(on(pl, [L.out(o[i]) if i == j else 0 for i in range(3)]), 0) for j in range(3)]
    yield "GetCoordAxisSegments", seg
    e = minus(c, b); ln = lambda: L.new("Line3D", p3(L, "b"), p3(L, "c"))
    def isec():
        o = L.new("Point3Cartesian", 0, 0, 0)
        if not yes(pl.IntersectionWithLine(ln(), o)): raise Empty()
        x = xyz(L.out(o)); return [(on(pl, x), 0)] + [(y, 0) for y in cross(minus(x, b), e)]
    yield "IntersectionWithLine", isec
    yield "AngleToLine", lambda: (sin(pl.AngleToLine(ln())) ** 2 * norm2(n) * norm2(e), dot(n, e) ** 2)
    other = lambda: L.new("Plane3D", p3(L, "b"), L.vec("Vector3Cartesian", *c))
    yield "AngleToPlane", lambda: (cos(pl.AngleToPlane(other())) ** 2 * norm2(n) * norm2(c), dot(n, c) ** 2)
    par = lambda: L.new("Plane3D", P_, L.vec("Vector3Cartesian", *n))
    yield "DistToPlane", lambda: (pl.DistToPlane(par()) ** 2 * norm2(n), h ** 2)
    anti = lambda: L.new("Plane3D", P_, L.vec("Vector3Cartesian", *scale(-1, n)))
    yield "parallel planes facing each other", lambda: [(pl.IsParallelToPlane(anti()), 1), (pl.DistToPlane(anti()) ** 2 * norm2(n), h ** 2)]
    yield "DistToPlane, crossing", lambda: (pl.DistToPlane(other()), 0)
    yield "IsParallelToPlane", lambda: [(pl.IsParallelToPlane(par()), 1), (pl.IsParallelToPlane(other()), 0)]
    yield "IsPerpendicularToPlane", lambda: [(pl.IsPerpendicularToPlane(L.new("Plane3D", P_, L.vec("Vector3Cartesian", *cross(n, b)))), 1), (pl.IsPerpendicularToPlane(other()), 0)]
    yield "IsPointOnPlane", lambda: [(pl.IsPointOnPlane(L.new("Point3Cartesian", *plus(a, cross(n, b))), 1e-6), 1), (pl.IsPointOnPlane(P_, 1e-12), 0)]
    yield "IsLineOnPlane", lambda: [(pl.IsLineOnPlane(L.new("Line3D", p3(L, "a"), L.vec("Vector3Cartesian", *cross(n, b)))), 1), (pl.IsLineOnPlane(ln()), 0)]
    def two():
        w = L.new("Line3D", p3(L, "p"), p3(L, "b"))
        if not yes(pl.IntersectionWithPlane(other(), w)): raise Empty()
        x = L.out(w); s, d = xyz(x.StartPoint()), xyz(x.Direction())
        return [(on(pl, s), 0), (on(other(), s), 0), (dot(d, n), 0), (dot(d, c), 0), (norm2(d), 1)]
    yield "IntersectionWithPlane", two
    yield "coordinate planes", lambda: [(on(L.sta("Plane3D", "GetXYPlane"), [p[0], p[1], 0]), 0), (on(L.sta("Plane3D", "GetXZPlane"), [p[0], 0, p[2]]), 0), (on(L.sta("Plane3D", "GetYZPlane"), [0, p[1], p[2]]), 0)]


@law("Triangle3D")
def _(L):
    a, b, c = [syms(L, n, 3) for n in "abc"]; t = L.new("Triangle3D", p3(L, "a"), p3(L, "b"), p3(L, "c")); N = cross(minus(b, a), minus(c, a)); d2 = lambda x, y: norm2(minus(x, y))
    yield "sides", lambda: [(t.A() ** 2 + t.B() ** 2 + t.C() ** 2, d2(a, b) + d2(b, c) + d2(a, c)), (t.A() ** 2 * t.B() ** 2 * t.C() ** 2, d2(a, b) * d2(b, c) * d2(a, c))]
    yield "Area", lambda: (4 * t.Area() ** 2, norm2(N))
    yield "Centroid", lambda: same(scale(3, xyz(t.Centroid())), plus(plus(a, b), c))
    yield "getDefinedPlane", lambda: [(dot([t.getDefinedPlane().A(), t.getDefinedPlane().B(), t.getDefinedPlane().C()], x) + t.getDefinedPlane().D(), 0) for x in (a, b, c)]
    u, v = L.rng("u", -0.5, 1.5), L.rng("v", -0.5, 1.5)
    yield "IsPointInside", lambda: (t.IsPointInside(L.new("Point3Cartesian", *[a[i] + u * (b[i] - a[i]) + v * (c[i] - a[i]) for i in range(3)])), [u, v, 1 - u - v]), "iff"


# ------------------------------------------------------------------ solid bodies
for _n, _a in (("Cube3D", "a"), ("CubeWithTriangles3D", "a")):
    @law(_n)
    def _(L, n=_n):
        a = L.pos("a"); c, p = syms(L, "c", 3), syms(L, "p", 3); B = L.new(n, a, p3(L, "c"))
        yield "Volume", lambda: (B.Volume(), a ** 3)
        yield "SurfaceArea", lambda: (B.SurfaceArea(), 6 * a ** 2)
        yield "GetCenter", lambda: same(B.GetCenter(), c)
        yield "GetBoundingBox", lambda: same(B.GetBoundingBox().Min(), [x - a / 2 for x in c]) + same(B.GetBoundingBox().Max(), [x + a / 2 for x in c])
        yield "GetBoundingSphere", lambda: same(B.GetBoundingSphere().Center(), c) + [(4 * B.GetBoundingSphere().Radius() ** 2, 3 * a ** 2)]
        yield "IsInside", lambda: (B.IsInside(p3(L, "p")), [x for i in range(3) for x in (p[i] - c[i] + a / 2, c[i] + a / 2 - p[i])]), "iff"


@law("Sphere3D")
def _(L):
    r = L.pos("r"); c, p = syms(L, "c", 3), syms(L, "p", 3); B = L.new("Sphere3D", r, p3(L, "c"), 1, 1)
    yield "Volume", lambda: (3 * B.Volume(), 4 * PI * r ** 3)
    yield "SurfaceArea", lambda: (B.SurfaceArea(), 4 * PI * r ** 2)
    yield "GetCenter", lambda: same(B.GetCenter(), c)
    yield "GetBoundingBox", lambda: same(B.GetBoundingBox().Min(), [x - r for x in c]) + same(B.GetBoundingBox().Max(), [x + r for x in c])
    yield "GetBoundingSphere", lambda: same(B.GetBoundingSphere().Center(), c) + [(B.GetBoundingSphere().Radius(), r)]
    yield "IsInside", lambda: (B.IsInside(p3(L, "p")), r ** 2 - norm2(minus(p, c))), "iff"
    t, f = L.rng("t", 0.05, 3.0), L.rng("f", 0, 6)
    yield "spherePoint", lambda: (norm2(minus(xyz(B.spherePoint(t, f)), c)), r ** 2)


@law("Cylinder3D")
def _(L):
    r, h = L.pos("r", "h"); c, p = syms(L, "c", 3), syms(L, "p", 3); B = L.new("Cylinder3D", r, h, p3(L, "c"), 1)
    yield "Volume", lambda: (B.Volume(), PI * r ** 2 * h)
    yield "SurfaceArea", lambda: (B.SurfaceArea(), 2 * PI * r * (r + h))
    yield "GetCenter", lambda: same(B.GetCenter(), [c[0], c[1], c[2] + h / 2])
    yield "GetBoundingBox", lambda: same(B.GetBoundingBox().Min(), [c[0] - r, c[1] - r, c[2]]) + same(B.GetBoundingBox().Max(), [c[0] + r, c[1] + r, c[2] + h])
    yield "GetBoundingSphere", lambda: same(B.GetBoundingSphere().Center(), [c[0], c[1], c[2] + h / 2]) + [(4 * B.GetBoundingSphere().Radius() ** 2, h ** 2 + 4 * r ** 2)]
    yield "IsInside", lambda: (B.IsInside(p3(L, "p")), [r ** 2 - norm2(minus(p[:2], c[:2])), p[2] - c[2], c[2] + h - p[2]]), "iff"


@law("Torus3D")
def _(L):
    r, w = L.pos("r", "w"); R = r + w; c, p = syms(L, "c", 3), syms(L, "p", 3); B = L.new("Torus3D", R, r, p3(L, "c"), 1, 1)
    yield "Volume", lambda: (B.Volume(), 2 * PI * PI * R * r ** 2)
    yield "SurfaceArea", lambda: (B.SurfaceArea(), 4 * PI * PI * R * r)
    yield "GetCenter", lambda: same(B.GetCenter(), c)
    yield "GetBoundingBox", lambda: same(B.GetBoundingBox().Min(), [c[0] - R - r, c[1] - R - r, c[2] - r]) + same(B.GetBoundingBox().Max(), [c[0] + R + r, c[1] + R + r, c[2] + r])
    yield "GetBoundingSphere", lambda: same(B.GetBoundingSphere().Center(), c) + [(B.GetBoundingSphere().Radius(), R + r)]
    ring = lambda x: (sqrt((x[0] - c[0]) ** 2 + (x[1] - c[1]) ** 2) - R) ** 2 + (x[2] - c[2]) ** 2
    yield "IsInside", lambda: (B.IsInside(p3(L, "p")), r ** 2 - ring(p)), "iff"
    t, f = L.rng("t", 0.05, 3.0), L.rng("f", 0, 6)
    yield "torusPoint", lambda: (ring(xyz(B.torusPoint(t, f))), r ** 2)


@law("Pyramid3D")
def _(L):
    a, h = L.pos("a", "h"); c, p = syms(L, "c", 3), syms(L, "p", 3); B = L.new("Pyramid3D", a, h, v3(L, "c"))
    yield "Volume", lambda: (3 * B.Volume(), a ** 2 * h)
    yield "SurfaceArea", lambda: (B.SurfaceArea(), a ** 2 + a * sqrt(a ** 2 + 4 * h ** 2))
    yield "GetBoundingBox", lambda: same(B.GetBoundingBox().Min(), [c[0] - a / 2, c[1] - a / 2, c[2]]) + same(B.GetBoundingBox().Max(), [c[0] + a / 2, c[1] + a / 2, c[2] + h])
    k = lambda: a / 2 * (1 - (p[2] - c[2]) / h)
    yield "IsInside", lambda: (B.IsInside(p3(L, "p")), [p[2] - c[2], c[2] + h - p[2]] + [x for i in range(2) for x in (k() - p[i] + c[i], k() + p[i] - c[i])]), "iff"


@law("surfaces")
def _(L):
    L.open()
    a, b, c = [syms(L, n, 3) for n in "abc"]; d = plus(b, minus(c, a)); P = lambda x: L.new("Point3Cartesian", *x); u, w = L.sym("u"), L.sym("w")
    R = lambda: L.new("RectSurface3D", P(a), P(b), P(d), P(c)); N = cross(minus(b, a), minus(c, a)); n_ = scale(1 / sqrt(norm2(N)), N)
    yield "rectangle normal", lambda: same(R().getNormal(), n_)
    yield "rectangle center", lambda: same(scale(4, xyz(R().getCenter())), plus(plus(plus(a, b), c), d))
    yield "rectangle area", lambda: (R().getArea() ** 2, norm2(N))
    def at(s, x, y): r = s(x, y); return [r[i] for i in range(3)]
    def corners():
        s = R(); lo, hi, lw, hw = s.getMinU(), s.getMaxU(), s.getMinW(), s.getMaxW()
        return [p for x, y, z in ((lo, lw, a), (hi, lw, b), (hi, hw, d), (lo, hw, c)) for p in zip(at(s, x, y), z)]
    yield "rectangle corners", corners
    T = lambda: L.new("TriangleSurface3D", P(a), P(b), P(c))
    yield "triangle normal", lambda: same(L.field(T(), "_normal"), n_)
    yield "triangle center", lambda: [(3 * x, y) for x, y in same(L.field(T(), "_center"), plus(plus(a, b), c))]
    def tri():
        s = T(); x, h = L.field(s, "_pnt3XCoord"), L.field(s, "_maxY")
        v = [at(s, 0, 0), at(s, s.getMaxU(), 0), at(s, x, h)]
        # the corners, in order, from any of the three
        rot = [(a, b, c), (b, c, a), (c, a, b)]; dist = [sum((norm2(minus(p, q)) for p, q in zip(v, r)), 0 * a[0]) for r in rot]
        return minv(dist[0], minv(dist[1], dist[2])), 0
    yield "triangle corners", tri


# ------------------------------------------------------------------ faces of bodies
def faces(L, name, *args):
    """corner lists of the faces a constructor makes, split into triangles"""
    L.R.E.made = []; L.new(name, *args); out = []
    if L.where is None and L.want: L.where = L.ctor.where
    for c, xs in L.R.E.made:
        f = [xyz(W(L, x)) for x in xs[:4 if "Rect" in c else 3]]
        out += [f] if len(f) == 3 else [[f[0], f[1], f[2]], [f[0], f[2], f[3]]]
    if not out: raise Undecided("no faces")
    return out


def enclosed(fs): return sum((dot(f[0], cross(f[1], f[2])) for f in fs), 0 * fs[0][0][0])


def area(f): return cross(minus(f[1], f[0]), minus(f[2], f[0]))


def closed(fs): return [(sum((area(f)[i] for f in fs), 0 * fs[0][0][0]), 0) for i in range(3)]


for _n, _two in (("Cube3D", 0), ("CubeWithTriangles3D", 0), ("Pyramid3D", 1)):
    for _c in (0, 1):
        @law("%s faces%s" % (_n, ", centered" if not _c else ""))
        def _(L, n=_n, two=_two, c_=_c):
            a, h = L.pos("a", "h"); c = syms(L, "c", 3) if c_ else [L.sym("z") * 0] * 3
            ar = ([a, h] if two else [a]) + ([v3(L, "c") if two else p3(L, "c")] if c_ else [])
            fs = lambda: faces(L, n, *ar); m = lambda: [c[0], c[1], c[2] + h / 4] if two else c
            yield "enclose the volume", lambda: (enclosed(fs()) / 6, a ** 2 * h / 3 if two else a ** 3)
            yield "closed", lambda: closed(fs())
            yield "outward", lambda: (1, [dot(area(f), minus(f[0], m())) for f in fs()]), "iff"
            def box():
                B = L.new(n, *ar).GetBoundingBox(); lo, hi = xyz(B.Min()), xyz(B.Max()); out = []
                pts = [p for f in fs() for p in f]
                for i in range(3):
                    x = y = pts[0][i]
                    for p in pts[1:]: x, y = minv(x, p[i]), maxv(y, p[i])
                    out += [(lo[i], x), (hi[i], y)]
                return out
            yield "fill the bounding box", box

for _n, _k in (("Sphere3D", 1), ("Torus3D", 2), ("Cylinder3D", 2)):
    @law("%s faces" % _n)
    def _(L, n=_n, k=_k):
        r, w = L.pos("r", "w"); c = syms(L, "c", 3); R = r + w
        ar = [r, p3(L, "c"), 4, 5] if n[0] == "S" else [R, r, p3(L, "c"), 5, 4] if n[0] == "T" else [r, w, p3(L, "c"), 5]
        fs = lambda: faces(L, n, *ar); pts = lambda: [minus(p, c) for f in fs() for p in f]
        def on(p):
            if n[0] == "S": return norm2(p), r ** 2
            if n[0] == "T": return (sqrt(p[0] ** 2 + p[1] ** 2) - R) ** 2 + p[2] ** 2, r ** 2
            q = p[0] ** 2 + p[1] ** 2; return q * (q - r ** 2), 0         # on the rim or at the center of a cap
        yield "corners on the surface", lambda: [on(p) for p in pts()] + ([(p[2] * (p[2] - w), 0) for p in pts()] if n[0] == "C" else [])
        yield "closed", lambda: closed(fs())
        yield "outward", lambda: (1, enclosed([[minus(p, c) for p in f] for f in fs()])), "iff"


# ------------------------------------------------------------------ vectors at a position, computational geometry
@law("unit vectors at a position")
def _(L):
    r, R = L.pos("r", "R"); t, T = L.rng("t", .1, 3), L.rng("T", .1, 3); f, F = L.rng("f", -3, 3), L.rng("F", -3, 3); z, Z = L.sym("z"), L.sym("Z")
    S, Y = "Vector3Spherical", "Vector3Cylindrical"; x = [sin(t) * cos(f), sin(t) * sin(f), cos(t)]
    B = [[sin(T) * cos(F), sin(T) * sin(F), cos(T)], [cos(T) * cos(F), cos(T) * sin(F), -sin(T)], [-sin(F), cos(F), 0]]
    at3 = lambda w: [w[i] for i in range(3)]
    yield "spherical", lambda: list(zip(at3(L.vec(S, r, t, f).GetAsUnitVectorAtPos(L.vec(S, R, T, F))), [dot(x, e) for e in B]))
    def glob():
        w = at3(L.vec(S, r, t, f).GetAsUnitVectorAtPosGlobalSpher(L.vec(S, R, T, F)))
        # polar angle from the local radial direction, azimuth from the local polar direction
        return [(w[0], 1)] + list(zip([cos(w[1]), sin(w[1]) * cos(w[2]), sin(w[1]) * sin(w[2])], [dot(x, e) for e in B]))
    yield "spherical, as angles", glob
    n = sqrt(r ** 2 + z ** 2); y = [r * cos(f) / n, r * sin(f) / n, z / n]
    yield "cylindrical", lambda: list(zip(at3(L.vec(Y, r, f, z).GetAsUnitVectorAtPos(L.vec(Y, R, F, Z))), [dot(y, e) for e in ([cos(F), sin(F), 0], [-sin(F), cos(F), 0], [0, 0, 1])]))
    p = "Vector2Polar"
    yield "polar", lambda: [(L.vec(p, r, f).GetAsUnitVectorAtPos(L.vec(p, R, F))[0], 1), (L.vec(p, r, f).GetAsUnitVectorAtPos(L.vec(p, R, F))[1], f)]


def left(a, b, p): return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


@law("circles through points")
def _(L):
    a, b, c = [syms(L, n, 2) for n in "abc"]; P = lambda x: L.new("Point2Cartesian", *x); C_ = "CompGeometry::Circles"
    def two():
        o, r = P([0, 0]), L.sym("r"); L.sta(C_, "CircleFrom2Points", P(a), P(b), o, r); o, r = xyz(L.out(o), 2), L.out(r)
        return [(norm2(minus(o, x)), r ** 2) for x in (a, b)] + [(4 * r ** 2, norm2(minus(a, b)))]
    yield "two points", two
    def three():
        o, r = P([0, 0]), L.sym("r")
        if not yes(L.sta(C_, "CircleFrom3Points", P(a), P(b), P(c), o, r)): raise Empty()
        o, r = xyz(L.out(o), 2), L.out(r); return [(norm2(minus(o, x)), r ** 2) for x in (a, b, c)]
    yield "three points", three
    def voro():
        o = xyz(L.sta("CompGeometry::Voronoi", "ComputeCircumcenter", P(a), P(b), P(c)), 2); return [(norm2(minus(o, x)), norm2(minus(o, a))) for x in (b, c)]
    yield "Voronoi vertex", voro
    p = syms(L, "p", 2)
    def incirc():
        k = left(a, b, c); L.require(k)
        d = norm2(minus(b, a)); e = norm2(minus(c, a)); u, v = minus(b, a), minus(c, a); D = 2 * k
        o = [a[0] + (v[1] * d - u[1] * e) / D, a[1] + (u[0] * e - v[0] * d) / D]
        return L.sta("CompGeometry::Triangulation", "InCircumcircle", P(p), P(a), P(b), P(c)), norm2(minus(o, a)) - norm2(minus(o, p))
    yield "circumcircle of a Delaunay triangle", incirc, "iff"
    def intri():
        L.require(left(a, b, c)); return L.sta("CompGeometry::Triangulation", "IsPointInTriangle", P(p), P(a), P(b), P(c)), [left(a, b, p), left(b, c, p), left(c, a, p)]
    yield "point in an ear", intri, "iff"
    for q in ("Triangulation", "ConvexHull2D", "PolygonOps"):
        yield q + " orientation", lambda q=q: (L.sta("CompGeometry::" + q, "Cross", P(a), P(b), P(c)), left(a, b, c))


@law("ray and triangle")
def _(L):
    o, d, a, b, c = [syms(L, n, 3) for n in "odabc"]; P = lambda x: L.new("Point3Cartesian", *x); e1, e2 = minus(b, a), minus(c, a); N = cross(e1, e2)
    hit = lambda *f: L.sta("CompGeometry::Intersections", "IntersectRayTriangle", P(o), L.vec("Vector3Cartesian", *d), P(a), P(b), P(c), *f)
    def at():
        h = hit(False)
        if not yes(L.field(h, "hit")): raise Empty()
        u, v, t = [L.field(h, x) for x in "uvt"]; x = xyz(L.field(h, "point"))
        return same(x, plus(o, d, t)) + same(x, plus(plus(a, e1, u), e2, v))
    def same(p, q): return list(zip(p, q))
    yield "point of the hit", at
    den = lambda: dot(d, N); tt = lambda: dot(minus(a, o), N) / den()
    def conds():
        x = plus(o, d, tt()); k = norm2(N)
        return [tt()] + [dot(cross(minus(q, p), minus(x, p)), N) / k for p, q in ((a, b), (b, c), (c, a))]
    yield "hit", lambda: (L.field(hit(False), "hit"), conds()), "iff"
    yield "hit of front faces", lambda: (L.field(hit(True), "hit"), [-den()] + conds()), "iff"


# ------------------------------------------------------------------ special positions
@law("lines in special position")
def _(L):
    a, b, p, q = [syms(L, n, 2) for n in "abpq"]; k, m = L.rng("k", -2, 2), L.rng("m", 0.5, 3); l = L.new("Line2D", p2(L, "a"), p2(L, "b")); d = minus(b, a); P_ = p2(L, "p")
    far = lambda: L.new("Line2D", P_, L.vec("Vector2Cartesian", *d)); on = lambda: L.new("Line2D", L.new("Point2Cartesian", *plus(a, d, k)), L.vec("Vector2Cartesian", *d)); other = lambda: L.new("Line2D", P_, p2(L, "q"))
    kinds = lambda r: [r.IsPoint(), r.HasIntersection(), r.IsParallel(), r.IsCoincident()]
    yield "Line2D.Intersection with a parallel line", lambda: list(zip(kinds(l.Intersection(far())), (0, 0, 1, 0)))
    yield "Line2D.Intersection with itself", lambda: list(zip(kinds(l.Intersection(on())), (0, 0, 0, 1)))
    yield "Line2D.Intersects with a parallel line", lambda: [(l.Intersects(far(), L.new("Point2Cartesian", 0, 0)), 0), (l.Intersects(on(), L.new("Point2Cartesian", 0, 0)), 0)]
    yield "Line2D.Intersection with a crossing line", lambda: list(zip(kinds(l.Intersection(other())), (1, 1, 0, 0)))
    def params():
        r = l.Intersection(other())
        if not yes(r.IsPoint()): raise Empty()
        x = xyz(L.field(r, "point"), 2); return same(l(L.field(r, "t1")), x, 2) + same(other()(L.field(r, "t2")), x, 2)
    yield "Line2D.Intersection parameters", params


@law("segments in special position")
def _(L):
    a, b, q = [syms(L, n, 2) for n in "abq"]; d = minus(b, a); k = L.rng("k", 0.1, 0.9); s = L.new("SegmentLine2D", p2(L, "a"), p2(L, "b")); at = lambda t: L.new("Point2Cartesian", *plus(a, d, t))
    L.require(absv(d[0] * (q[1] - a[1]) - d[1] * (q[0] - a[0])) - 0.01)
    for nm, first in (("start", 1), ("end", 0)):
        def tee(first=first):
            m = L.new("SegmentLine2D", at(k), p2(L, "q")) if first else L.new("SegmentLine2D", p2(L, "q"), at(k)); o = L.new("Point2Cartesian", 0, 0)
            return [(s.Intersects(m, o), 1)] + same(L.out(o), plus(a, d, k), 2)
        yield "touched by the %s of the other" % nm, tee
        def eet(first=first):
            m = L.new("SegmentLine2D", at(k), p2(L, "q")) if first else L.new("SegmentLine2D", p2(L, "q"), at(k)); o = L.new("Point2Cartesian", 0, 0)
            return [(m.Intersects(s, o), 1)] + same(L.out(o), plus(a, d, k), 2)
        yield "touching the other with its %s" % nm, eet
    t, u = L.rng("t", 1.1, 2), L.rng("u", 2.1, 3)
    yield "apart on one line", lambda: [(s.Intersects(L.new("SegmentLine2D", at(t), at(u))), 0), (s.Intersects(L.new("SegmentLine2D", at(-1 * u), at(-1 * t))), 0)]


@law("lines in space in special position")
def _(L):
    a, b, p, q = [syms(L, n, 3) for n in "abpq"]; k, m = L.rng("k", -2, 2), L.rng("m", 0.5, 3); b = [a[0] + m, a[1] - 2 * m, a[2]]; l = L.new("Line3D", p3(L, "a"), L.new("Point3Cartesian", *b)); d = minus(b, a); q = [p[0] + k, p[1], p[2] + m]; P_ = p3(L, "p"); D = lambda: L.vec("Vector3Cartesian", *d)
    far = lambda: L.new("Line3D", P_, D()); on = lambda: L.new("Line3D", L.new("Point3Cartesian", *plus(a, d, k)), L.vec("Vector3Cartesian", *scale(-1, d))); skew = lambda: L.new("Line3D", P_, L.new("Point3Cartesian", *q)); hit = lambda: L.new("Line3D", L.new("Point3Cartesian", *minus(plus(a, d, k), [m, k, 1])), L.new("Point3Cartesian", *plus(a, d, k)))
    kinds = lambda r: [r.HasIntersection(), r.IsIntersecting(), r.AreSkew(), r.IsSkew(), r.IsParallel(), r.IsCoincident()]
    yield "Intersection with a parallel line", lambda: list(zip(kinds(l.Intersection(far())), (0, 0, 0, 0, 1, 0)))
    yield "Intersection with itself reversed", lambda: list(zip(kinds(l.Intersection(on())), (0, 0, 0, 0, 0, 1)))
    yield "Intersection with a crossing line", lambda: list(zip(kinds(l.Intersection(hit())), (1, 1, 0, 0, 0, 0)))
    yield "Intersection with a skew line", lambda: list(zip(kinds(l.Intersection(skew())), (0, 0, 1, 1, 0, 0)))
    def feet():
        r = l.Intersection(skew())
        if not yes(r.IsSkew()): raise Empty()
        u, v, e = xyz(L.field(r, "point1")), xyz(L.field(r, "point2")), minus(q, p); g = minus(u, v)
        return same(l(L.field(r, "t1")), u) + same(skew()(L.field(r, "t2")), v) + [(dot(g, d), 0), (dot(g, e), 0), (norm2(g), L.field(r, "distance") ** 2)]
    yield "Intersection, closest points", feet
    def cut():
        o = L.new("Point3Cartesian", 0, 0, 0); return [(l.Intersects(hit(), o), 1)] + same(L.out(o), plus(a, d, k))
    yield "Intersects", cut
    def cut2():
        o = L.new("Point3Cartesian", 0, 0, 0); return [(l.Intersects(skew(), o), 0), (l.Intersects(far(), o), 0), (l.Intersects(on(), o), 1)]
    yield "Intersects, no crossing", cut2
    yield "AreEqual", lambda: [(l.AreEqual(on(), 1e-7), 1), (l.AreEqual(far(), 1e-7), 0), (l.AreEqual(hit(), 1e-7), 0), (l.op("==", on()), 1), (l.op("==", skew()), 0)]


@law("planes in special position")
def _(L):
    e, f, g, h = [L.rng(x, 0.5, 2) for x in "efgh"]; pl = lambda *n: L.new("Plane3D", L.new("Point3Cartesian", e, f, g), L.vec("Vector3Cartesian", *n)); on = lambda w, x: w.A() * x[0] + w.B() * x[1] + w.C() * x[2] + w.D()
    for nm, n in (("y and z", (0, f, g)), ("z", (0, 0, g)), ("x and z", (e, 0, g)), ("x and y", (e, f, 0)), ("y", (0, f, 0))):
        yield "point on a plane whose normal has only %s" % nm, lambda n=n: (on(pl(*n), xyz(pl(*n).GetPointOnPlane())), 0)
        def seg(n=n):
            o = [L.sym("o%d" % i) for i in range(3)]; w = pl(*n); w.GetCoordAxisSegments(*o)
            return [(on(w, [L.out(o[i]) if i == j else 0 for i in range(3)]), 0) for j in range(3) if not isinstance(n[j], int)]
        yield "intercepts of a plane whose normal has only %s" % nm, seg
    def par():
        o = L.new("Point3Cartesian", 0, 0, 0); return pl(e, f, g).IntersectionWithLine(L.new("Line3D", L.new("Point3Cartesian", h, g, e), L.vec("Vector3Cartesian", f, -e, 0)), o), 0
    yield "IntersectionWithLine parallel to the plane", par
    def pp(): return pl(e, f, g).IntersectionWithPlane(L.new("Plane3D", L.new("Point3Cartesian", h, g, e), L.vec("Vector3Cartesian", -e, -f, -g)), L.new("Line3D", L.new("Point3Cartesian", 0, 0, 0), L.new("Point3Cartesian", 1, 0, 0))), 0
    yield "IntersectionWithPlane parallel to the plane", pp


@law("validity of shapes")
def _(L):
    a, b, c = L.sym("a"), L.sym("b"), L.sym("c"); n = L.rng("n", -1, 9); eps = 1e-7
    V1 = lambda cl: (L.new(cl, a).IsValid(), [a]); V2 = lambda cl: (L.new(cl, a, b).IsValid(), [a, b])
    for cl in ("Circle", "SphereGeom"): yield cl, lambda cl=cl: V1(cl), "iff"
    for cl in ("Ellipse", "Rectangle", "CylinderGeom", "ConeGeom", "Spheroid", "TorusGeom"): yield cl, lambda cl=cl: V2(cl), "iff"
    for cl in ("CircularSector", "CircularSegment"): yield cl, lambda cl=cl: (L.new(cl, a, n).IsValid(), [a, n, 2 * PI - n]), "iff"
    yield "Annulus", lambda: (L.new("Annulus", a, b).IsValid(), [a, b - a]), "iff"
    yield "Frustum", lambda: (L.new("Frustum", a, b, c).IsValid(), [a, b, c]), "iff"
    yield "Trapezoid", lambda: (L.new("Trapezoid", a, b, c).IsValid(), [a, b, c]), "iff"
    yield "Parallelogram", lambda: (L.new("Parallelogram", a, b, n).IsValid(), [a, b, n, PI - n]), "iff"
    yield "Rhombus", lambda: (L.new("Rhombus", a, b).IsValid(), [a, b]), "iff"
    yield "Triangle", lambda: (L.new("Triangle", a, b, c).IsValid(), [a, b, c, a + b - c, b + c - a, a + c - b]), "iff"
    P_ = L.pos("P"); Q, R, S = L.rng("Q", 2, 3), L.rng("R", 4, 5), L.rng("S", 0.2, 1.2); tr = lambda *x: L.new("Triangle", *x)
    yield "Triangle.IsEquilateral", lambda: [(tr(P_, P_, P_).IsEquilateral(eps), 1), (tr(Q, Q, R).IsEquilateral(eps), 0), (tr(Q, R, Q).IsEquilateral(eps), 0), (tr(R, Q, Q).IsEquilateral(eps), 0)]
    yield "Rectangle.IsSquare", lambda: [(L.new("Rectangle", P_, P_).IsSquare(eps), 1), (L.new("Rectangle", Q, R).IsSquare(eps), 0), (L.new("Rectangle", R, Q).IsSquare(eps), 0)]
    yield "Rhombus.IsSquare", lambda: [(L.new("Rhombus", P_, P_).IsSquare(eps), 1), (L.new("Rhombus", Q, R).IsSquare(eps), 0), (L.new("Rhombus", R, Q).IsSquare(eps), 0)]
    yield "Ellipse.IsCircle", lambda: [(L.new("Ellipse", P_, P_).IsCircle(eps), 1), (L.new("Ellipse", Q, R).IsCircle(eps), 0), (L.new("Ellipse", R, Q).IsCircle(eps), 0)]
    yield "Spheroid.IsSphere", lambda: [(L.new("Spheroid", P_, P_).IsSphere(eps), 1), (L.new("Spheroid", Q, R).IsSphere(eps), 0), (L.new("Spheroid", R, Q).IsSphere(eps), 0)]
    yield "Trapezoid.IsParallelogram", lambda: [(L.new("Trapezoid", P_, P_, Q).IsParallelogram(eps), 1), (L.new("Trapezoid", Q, R, P_).IsParallelogram(eps), 0), (L.new("Trapezoid", R, Q, P_).IsParallelogram(eps), 0)]
    pg = lambda *x: L.new("Parallelogram", *x)
    yield "Parallelogram kinds", lambda: [(pg(Q, R, PI / 2).IsRectangle(eps), 1), (pg(Q, R, S).IsRectangle(eps), 0), (pg(P_, P_, S).IsRhombus(eps), 1), (pg(Q, R, S).IsRhombus(eps), 0), (pg(P_, P_, PI / 2).IsSquare(eps), 1), (pg(P_, P_, S).IsSquare(eps), 0), (pg(Q, R, PI / 2).IsSquare(eps), 0)]
    yield "TorusGeom.IsHornTorus", lambda: [(L.new("TorusGeom", P_, P_).IsHornTorus(), 1), (L.new("TorusGeom", Q, R).IsHornTorus(), 0)]
    bx = lambda *x: L.new("Box2D", *x); bx3 = lambda *x: L.new("Box3D", *x)
    yield "Box2D.IsDegenerate", lambda: [(bx(P_, P_, P_, P_ + Q).IsDegenerate(eps), 1), (bx(P_, P_, P_ + Q, P_).IsDegenerate(eps), 1), (bx(P_, P_, P_ + Q, P_ + R).IsDegenerate(eps), 0)]
    yield "Box3D.IsDegenerate", lambda: [(bx3(P_, P_, P_, P_, P_ + Q, P_ + R).IsDegenerate(eps), 1), (bx3(P_, P_, P_, P_ + Q, P_, P_ + R).IsDegenerate(eps), 1), (bx3(P_, P_, P_, P_ + Q, P_ + R, P_).IsDegenerate(eps), 1), (bx3(P_, P_, P_, P_ + Q, P_ + R, P_ + S).IsDegenerate(eps), 0)]
    h, k = L.sym("h"), L.sym("k"); eq = lambda: L.new("Triangle2D", L.new("Point2Cartesian", h, k), L.new("Point2Cartesian", h + P_, k), L.new("Point2Cartesian", h + P_ / 2, k + P_ * math.sqrt(3) / 2))
    yield "Triangle2D.IsEquilateral", lambda: (eq().IsEquilateral(eps), 1)
    yield "Triangle2D.IsEquilateral, other triangles", lambda: [(L.new("Triangle2D", L.new("Point2Cartesian", h, k), L.new("Point2Cartesian", h + Q, k), L.new("Point2Cartesian", h + Q / 2, k + R)).IsEquilateral(eps), 0)]


@law("quaternions in special position")
def _(L):
    t, s, d = L.rng("t", 0.05, 0.95), L.rng("s", 0.2, 1.3), L.rng("d", 1e-4, 1e-2); a, b = [cos(s), 0, sin(s), 0], [cos(s + d), 0, sin(s + d), 0]
    yield "Slerp of close quaternions", lambda: (norm2(wxyz(L.sta("Quaternion", "Slerp", L.new("Quaternion", *a), L.new("Quaternion", *b), t))), 1)
    yield "Slerp of close quaternions stays in their plane", lambda: [(x, 0) for i, x in enumerate(wxyz(L.sta("Quaternion", "Slerp", L.new("Quaternion", *a), L.new("Quaternion", *b), t))) if i in (1, 3)]
    w = L.rng("w", 1.01, 3)
    yield "GetRotationAngle beyond one", lambda: [(L.new("Quaternion", w, 0, 0, 0).GetRotationAngle(), 0), (L.new("Quaternion", -1 * w, 0, 0, 0).GetRotationAngle(), 2 * PI)]
    yield "zero vectors have no unit vector", lambda: [(x, 0) for x in xyz(L.new("Vector3Cartesian", 0, 0, 0).Normalized())] + [(x, 0) for x in xyz(L.new("Vector2Cartesian", 0, 0).Normalized(), 2)]
    yield "zero vector has no perpendicular vectors", lambda: (L.new("Vector3Cartesian", 0, 0, 0).GetPerpendicularVectors(L.new("Vector3Cartesian", 0, 0, 0), L.new("Vector3Cartesian", 0, 0, 0)), 0)
    c, r = L.rng("c", -1, 1), L.rng("r", 0.5, 2)
    yield "closest point to the centre lies on the circle", lambda: (norm2(minus(xyz(L.new("Circle2D", L.new("Point2Cartesian", c, s), r).ClosestPoint(L.new("Point2Cartesian", c, s)), 2), [c, s])), r ** 2)
    x, y, z = L.rng("x", 0.5, 1), L.rng("y", 0.5, 1), L.rng("z", 1.1, 2)
    yield "lightlike vector", lambda: [(L.vec("Vector4Minkowski", 0, 0, 0, 0).Norm(), 0)]
    yield "disjoint boxes", lambda: [(v, 0) for v in box2(L.new("Box2D", 0, 0, x, x).Intersection(L.new("Box2D", z, 0, z + 1, x)))] + [(v, 0) for v in box2(L.new("Box2D", 0, 0, x, x).Intersection(L.new("Box2D", 0, z, x, z + 1)))]
    yield "disjoint boxes in space", lambda: [(v, 0) for i in range(3) for v in box3(L.new("Box3D", 0, 0, 0, x, x, x).Intersection(L.new("Box3D", *([z if j == i else 0 for j in range(3)] + [z + 1 if j == i else x for j in range(3)]))))]


@law("Polygon2D")
def _(L):
    for n in (3, 4, 5):
        P_ = [[L.sym("x%d" % i), L.sym("y%d" % i)] for i in range(n)]; pg = lambda P_=P_: L.new("Polygon2D", L.list([L.new("Point2Cartesian", *p) for p in P_])); E_ = list(zip(P_, P_[1:] + P_[:1]))
        cr = [a[0] * b[1] - b[0] * a[1] for a, b in E_]; S = sum(cr[1:], cr[0]) / 2; sm = lambda t: sum(t[1:], t[0]); of = " with %d vertices" % n
        yield "SignedArea" + of, lambda pg=pg, S=S: [(pg().SignedArea(), S), (pg().Area() ** 2, S ** 2)]
        yield "Perimeter" + of, lambda pg=pg, E_=E_, sm=sm: (pg().Perimeter(), sm([sqrt(norm2(minus(b, a))) for a, b in E_]))
        yield "Centroid" + of, lambda pg=pg, E_=E_, cr=cr, S=S, sm=sm: [(xyz(pg().Centroid(), 2)[k] * 6 * S, sm([(a[k] + b[k]) * c for (a, b), c in zip(E_, cr)])) for k in (0, 1)]
        def edge(pg=pg, E_=E_):
            r = []
            for i, (a, b) in enumerate(E_):
                e = pg().Edge(i); r += same(e.StartPoint(), a, 2) + same(e.EndPoint(), b, 2) + same(pg()[i], a, 2) + same(pg().Vertex(i), a, 2)
            return r
        yield "Edge" + of, edge
        def box(pg=pg, P_=P_):
            b = pg().GetBoundingBox(); r = []; f = lambda k, g: (g([p[k] for p in P_]))
            def fold(g, xs):
                t = xs[0]
                for x in xs[1:]: t = g(t, x)
                return t
            lo, hi = [fold(minv, [p[k] for p in P_]) for k in (0, 1)], [fold(maxv, [p[k] for p in P_]) for k in (0, 1)]
            return [(L.field(b, "minX"), lo[0]), (L.field(b, "minY"), lo[1]), (L.field(b, "maxX"), hi[0]), (L.field(b, "maxY"), hi[1]), (b.Width(), hi[0] - lo[0]), (b.Height(), hi[1] - lo[1])] + same(b.Center(), scale(0.5, plus(lo, hi)), 2)
        yield "GetBoundingBox" + of, box
        yield "IsCounterClockwise" + of, lambda pg=pg, S=S: (pg().IsCounterClockwise(), [S]), "iff"
        yield "IsClockwise" + of, lambda pg=pg, S=S: (pg().IsClockwise(), [-1 * S]), "iff"
    tri = lambda: L.new("Polygon2D", L.list([p2(L, n) for n in "abc"])); a, b, c, p = [syms(L, n, 2) for n in "abcp"]; o = lambda u, v, w: (v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])
    for nm, sg in (("counterclockwise", 1), ("clockwise", -1)):
        def con(sg=sg): L.require(sg * o(a, b, c)); return tri().Contains(p2(L, "p")), [sg * o(a, b, p), sg * o(b, c, p), sg * o(c, a, p)]
        yield "Contains, %s triangle" % nm, con, "iff"
        def wind(sg=sg): L.require(sg * o(a, b, c)); return sg * tri().WindingNumber(p2(L, "p")), [sg * o(a, b, p), sg * o(b, c, p), sg * o(c, a, p)]
        yield "WindingNumber, %s triangle" % nm, wind, "iff"
    yield "triangles are convex and simple", lambda: [(tri().IsConvex(), 1), (tri().IsSimple(), 1)]
    d = syms(L, "d", 2); quad = lambda: L.new("Polygon2D", L.list([p2(L, n) for n in "abcd"]))
    def conv():
        return quad().IsConvex(), [o(a, b, c) * o(b, c, d), o(b, c, d) * o(c, d, a), o(c, d, a) * o(d, a, b)]
    yield "IsConvex, quadrilateral", conv, "iff"
    def simp():
        x = maxv(minv(-1 * o(a, b, c) * o(a, b, d), -1 * o(c, d, a) * o(c, d, b)), minv(-1 * o(b, c, d) * o(b, c, a), -1 * o(d, a, b) * o(d, a, c)))
        return quad().IsSimple(), [-1 * x]
    yield "IsSimple, quadrilateral", simp, "iff"


def box2(b): return xyz(b.Min(), 2) + xyz(b.Max(), 2)


def box3(b): return xyz(b.Min()) + xyz(b.Max())


def run(ck):
    prog = program(); J = Judge(ck); J.per = {}; deep = ck.tier == "thorough"
    for name, f in LAWS: evaluate(prog, J, name, f, bank=2048 if deep else 512)
    broken = len({v["key"] for v in ck.viol})
    ck.cov["laws"] = len(LAWS); ck.cov["identities and predicates stated"] = len(J.per)
    ck.floor("identities and predicates decided", sum(1 for v in J.per.values() if v) + broken, 600)
    ck.floor("obligations over feasible branches", J.n, 1900)
    ck.cov["not expressible in closed form"] = len(J.und); ck.cov["cases without points"] = J.empty
    ck.cov["forms without an algebraic normal form, compared as terms"] = J.byid
    ck.notes += ["undecided: " + u for u in J.und[:40]]
