"""Y02: the functions of the python package (geometry, routing, traffic rules, matching, io, projection) compute what
their documentation says, with every documented way of passing arguments.

The expected results come from plain python models of the inputs; every call is made positionally or by keyword."""
import gc, heapq, math, os, re, shutil, tempfile
import lanelet2.core as core
from lanelet2.core import *
import lanelet2.geometry as geo
import lanelet2.routing as routing
import lanelet2.traffic_rules as tr
import lanelet2.matching as matching
import lanelet2.io as io
import lanelet2.projection as projection
from lanelet2.geometry import to2D, to3D

RULE = ("each case drives one scenario (geometry, layers, routing, python costs, traffic rules, matching, io, "
        "projection) of the python functions against a plain python model; distinct_nontrivial counts distinct "
        "inputs and results compared")

SCEN = []


def scenario(f):
    SCEN.append(f)
    return f


def num_cases(thorough):
    return 40000 if thorough else 5000


def run(c):
    f = SCEN[c.idx % len(SCEN)]
    f(c)
    c.ev("scenario:" + f.__name__)
    if c.idx % 64 < len(SCEN):
        gc.collect()


# ---------------------------------------------------------------- plain python geometry
def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def dist(a, b):
    return norm(sub(a, b))


def lerp(a, b, t):
    return tuple(x + t * (y - x) for x, y in zip(a, b))


def closest_on_seg(p, a, b):
    d = sub(b, a)
    l2 = dot(d, d)
    t = 0. if l2 == 0 else max(0., min(1., dot(sub(p, a), d) / l2))
    return lerp(a, b, t), t


def segs(line):
    return list(zip(line, line[1:])) if len(line) > 1 else [(line[0], line[0])]


def pt_line(p, line):
    return min(dist(p, closest_on_seg(p, a, b)[0]) for a, b in segs(line))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def seg_cross(a, b, c, d):
    """2D segments share a point"""
    d1, d2, d3, d4 = cross(c, d, a), cross(c, d, b), cross(a, b, c), cross(a, b, d)
    if d1 * d2 < 0 and d3 * d4 < 0:
        return True

    def on(p, q, r):
        return min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    return (d1 == 0 and on(c, d, a)) or (d2 == 0 and on(c, d, b)) or (d3 == 0 and on(a, b, c)) or (d4 == 0 and on(a, b, d))


def line_line2(l1, l2):
    if any(seg_cross(a, b, p, q) for a, b in segs(l1) for p, q in segs(l2)):
        return 0.
    return min(min(pt_line(p, l2) for p in l1), min(pt_line(p, l1) for p in l2))


def seg_seg3(a, b, p, q):
    d1, d2, r = sub(b, a), sub(q, p), sub(a, p)
    A, E, F = dot(d1, d1), dot(d2, d2), dot(d2, r)
    cands = [closest_on_seg(a, p, q)[0], ]
    best = min(dist(a, closest_on_seg(a, p, q)[0]), dist(b, closest_on_seg(b, p, q)[0]),
               dist(p, closest_on_seg(p, a, b)[0]), dist(q, closest_on_seg(q, a, b)[0]))
    B, C = dot(d1, d2), dot(d1, r)
    den = A * E - B * B
    if den > 1e-9 * max(A * E, 1e-300):
        s, t = (B * F - C * E) / den, (A * F - B * C) / den
        if 0 <= s <= 1 and 0 <= t <= 1:
            best = min(best, dist(lerp(a, b, s), lerp(p, q, t)))
    return best


def line_line3(l1, l2):
    return min(seg_seg3(a, b, p, q) for a, b in segs(l1) for p, q in segs(l2))


def in_ring(p, ring):
    """point strictly inside a simple ring (points on the border may go either way)"""
    c = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0]:
            c = not c
    return c


def closed(ring):
    return list(ring) + [ring[0]]


def pt_ring(p, ring):
    return 0. if in_ring(p, ring) else pt_line(p, closed(ring))


def line_ring(line, ring):
    if in_ring(line[0], ring):
        return 0.
    return line_line2(line, closed(ring))


def ring_ring(r1, r2):
    if in_ring(r1[0], r2) or in_ring(r2[0], r1):
        return 0.
    return line_line2(closed(r1), closed(r2))


def length(line):
    return sum(dist(a, b) for a, b in zip(line, line[1:]))


def ring_area(ring):
    """positive if clockwise"""
    return -sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(ring, ring[1:] + ring[:1])) / 2


def at_length(line, d):
    if d < 0:
        line, d = line[::-1], -d
    for a, b in zip(line, line[1:]):
        l = dist(a, b)
        if d < l:
            return lerp(a, b, d / l)
        d -= l
    return line[-1]


def xy(p):
    return (p.x, p.y)


def xyz(p):
    return (p.x, p.y, p.z)


def tup(p):
    return xyz(p) if hasattr(p, "z") else xy(p)


def cut(line):
    return [p[:2] for p in line]


# ---------------------------------------------------------------- random inputs
def rc(r, s=20.):
    return float(r.choice([r.randrange(-int(s), int(s) + 1), r.uniform(-s, s)]))


def rline(r, n=None, s=20.):
    pts = []
    while len(pts) < (n or r.choice([2, 2, 3, 5])):
        p = (rc(r, s), rc(r, s), rc(r, s / 4))
        if all(dist(p[:2], q[:2]) > 0.1 for q in pts):
            pts.append(p)
    return pts


def rring(r, cx=0., cy=0., rad=8., n=None, z=0.):
    """star shaped ring, clockwise"""
    n = n or r.randrange(3, 8)
    off = r.uniform(0, 6.28)
    out = []
    for k in range(n):
        w = off - 2 * math.pi * (k + r.uniform(-.3, .3)) / n
        q = rad * r.uniform(.6, 1.)
        out.append((cx + q * math.cos(w), cy + q * math.sin(w), z))
    return out


def mkp(p):
    return Point3d(getId(), p[0], p[1], p[2])


def mkl(pts, attrs=None):
    return LineString3d(getId(), [p if isinstance(p, Point3d) else mkp(p) for p in pts], AttributeMap(attrs or {}))


def mkpoly(pts):
    return Polygon3d(getId(), [mkp(p) for p in pts])


def bp2(p):
    return BasicPoint2d(p[0], p[1])


def bp3(p):
    return BasicPoint3d(p[0], p[1], p[2])


def lineforms(r, pts, dim, compound=True, const=True):
    """the same line as one of the classes that may represent it"""
    rev = r.random() < .3
    base = mkl(pts[::-1]).invert() if rev else mkl(pts)
    k = r.randrange(4)
    if k == 1 and compound and len(pts) > 2:
        m = r.randrange(1, len(pts) - 1)
        mid = mkp(pts[m])
        ls = [mkl([mkp(p) for p in pts[:m]] + [mid]), mkl([mid] + [mkp(p) for p in pts[m + 1:]])]
        return CompoundLineString3d(ls) if dim == 3 else CompoundLineString2d([to2D(x) for x in ls])
    if k == 2 and const and not rev:
        base = ConstLineString3d(getId(), [mkp(p) for p in pts])
    return base if dim == 3 else to2D(base)


def call(c, f, names, *args):
    """by position, by keyword or a mixture"""
    k = c.rng.randrange(len(args) + 1) if c.rng.random() < .6 else len(args)
    return f(*args[:k], **dict(zip(names[k:], args[k:])))


def close(c, got, want, key, msg, tol=1e-6):
    c.check(len(got) == len(want) and all(abs(a - b) <= tol for a, b in zip(got, want)), key,
            lambda: "%s: got %r, expected %r" % (msg, got, want))


# ---------------------------------------------------------------- scenarios
@scenario
def geometry(c):
    r = c.rng
    l1, l2 = rline(r), rline(r)
    p = (rc(r), rc(r), rc(r, 5.))
    ring, ring2 = rring(r, rc(r, 10.), rc(r, 10.)), rring(r, rc(r, 25.), rc(r, 25.))
    c.sig(l1, l2, p, ring)
    f1, f2 = lineforms(r, l1, 2), lineforms(r, l2, 2)
    g1, g2 = lineforms(r, l1, 3), lineforms(r, l2, 3)
    P2 = r.choice([lambda: bp2(p), lambda: Point2d(getId(), p[0], p[1]), lambda: to2D(mkp(p))])
    P3 = r.choice([lambda: mkp(p), lambda: ConstLineString3d(getId(), [mkp(p), mkp(l1[0])])[0]])
    q = (rc(r), rc(r), rc(r, 5.))
    c.near(geo.distance(P2(), bp2(q)), dist(p[:2], q[:2]), "point-point", "2d")
    c.near(geo.distance(P3(), mkp(q)), dist(p, q), "point-point", "3d")
    c.near(geo.distance(P3(), bp3(q)), dist(p, q), "point-point", "3d")
    c.near(geo.distance(P2(), f1), pt_line(p[:2], cut(l1)), "point-line", lambda: "%r %r" % (p, f1))
    c.near(geo.distance(f1, P2()), pt_line(p[:2], cut(l1)), "line-point", lambda: "%r %r" % (p, f1))
    c.near(geo.distance(P3(), g1), pt_line(p, l1), "point-line3", lambda: "%r %r" % (p, g1))
    c.near(geo.distance(g1, P3()), pt_line(p, l1), "line-point3", lambda: "%r %r" % (p, g1))
    c.near(geo.distance(f1, f2), line_line2(cut(l1), cut(l2)), "line-line", lambda: "%r %r" % (f1, f2))
    c.near(geo.distance(g1, g2), line_line3(l1, l2), "line-line3", lambda: "%r %r" % (g1, g2), 1e-5)
    h1 = ConstHybridLineString2d(to2D(mkl(l1)))
    c.near(geo.distance(h1, ConstHybridLineString2d(to2D(mkl(l2)))), line_line2(cut(l1), cut(l2)), "hybrid-hybrid", "")
    c.near(geo.distance(h1, to2D(mkp(p))), pt_line(p[:2], cut(l1)), "hybrid-point", "")
    lls = [to2D(mkl(l1)), to2D(mkl(l2))]
    c.near(geo.distanceToLines(P2(), lls), min(pt_line(p[:2], cut(l)) for l in (l1, l2)), "point-lines", "")
    # polygons
    P, Q = cut(ring), cut(ring2)
    poly, poly2 = to2D(mkpoly(ring)), to2D(mkpoly(ring2))
    c.near(geo.distance(poly, r.choice([bp2, lambda x: Point2d(getId(), x[0], x[1])])(p)), pt_ring(p[:2], P),
           "polygon-point", lambda: "%r %r" % (p, ring))
    c.near(geo.distance(poly, f1), line_ring(cut(l1), P), "polygon-line", lambda: "%r %r" % (f1, ring))
    c.near(geo.distance(f1, poly), line_ring(cut(l1), P), "line-polygon", lambda: "%r %r" % (f1, ring))
    c.near(geo.distance(poly, poly2), ring_ring(P, Q), "polygon-polygon", lambda: "%r %r" % (ring, ring2))
    hp = ConstHybridPolygon2d(poly)
    c.near(geo.distance(hp, bp2(p)), pt_ring(p[:2], P), "hybridpolygon-point", "")
    c.near(geo.distance(hp, poly2), ring_ring(P, Q), "hybridpolygon-polygon", "")
    c.near(geo.area(hp), ring_area(P), "area", lambda: repr(ring))
    c.eq(geo.intersects2d(poly, poly2), ring_ring(P, Q) == 0, "polygons-intersect")
    c.eq(geo.intersects2d(hp, ConstHybridPolygon2d(poly2)), ring_ring(P, Q) == 0, "hybrid-polygons-intersect")
    # one line
    c.near(geo.length(f1), length(cut(l1)), "length2", "")
    c.near(geo.length(g1), length(l1), "length3", "")
    for f, l, mk in ((f1, cut(l1), bp2), (g1, l1, bp3)):
        b = (geo.boundingBox2d if f is f1 else geo.boundingBox3d)(f)
        close(c, tup(b.min), tuple(map(min, zip(*l))), "box-min", repr(l))
        close(c, tup(b.max), tuple(map(max, zip(*l))), "box-max", repr(l))
        d = r.uniform(-1.2, 1.2) * length(l)
        close(c, tup(geo.interpolatedPointAtDistance(f, d)), at_length(l, d), "interpolated", "%r at %r" % (l, d))
        near = tup(geo.nearestPointAtDistance(f, d))
        w = at_length(l, d)
        c.check(any(dist(near, x) < 1e-9 for x in l), "nearest-is-point", lambda: "%r of %r" % (near, l))
        pr = tup(geo.project(f, mk(p)))
        pp = p[:len(pr)]
        c.near(dist(pr, pp), pt_line(pp, l), "project-distance", lambda: "%r on %r" % (p, l))
        c.check(pt_line(pr, l) < 1e-6, "project-on-line", lambda: "%r on %r" % (p, l))
    a, b = geo.projectedPoint3d(mkl(l1), mkl(l2))
    c.near(dist(xyz(a), xyz(b)), line_line3(l1, l2), "projected-points", lambda: "%r %r" % (l1, l2), 1e-5)
    c.check(pt_line(xyz(a), l1) < 1e-5 and pt_line(xyz(b), l2) < 1e-5, "projected-on-lines", lambda: "%r %r" % (l1, l2))
    c.eq(geo.intersects2d(f1, f2) if type(f1) == type(f2) else geo.intersects2d(to2D(mkl(l1)), to2D(mkl(l2))),
         line_line2(cut(l1), cut(l2)) == 0, "lines-intersect")
    # arc coordinates
    ac = geo.toArcCoordinates(f1, bp2(p))
    c.near(abs(ac.distance), pt_line(p[:2], cut(l1)), "arc-distance", lambda: "%r %r" % (p, l1))
    foot = at_length(cut(l1), ac.length) if ac.length > 0 else l1[0][:2]
    c.near(dist(foot, p[:2]), pt_line(p[:2], cut(l1)), "arc-length", lambda: "%r %r %r" % (p, l1, ac), 1e-5)
    s, d = r.uniform(.01, .99) * length(cut(l1)), r.uniform(-2, 2)
    A = call(c, geo.ArcCoordinates, ["length", "distance"], s, d)
    c.check(A == geo.ArcCoordinates(s, d) and (A.length, A.distance) == (s, d), "arc-values")
    for other in ((s, -d), (s + 1., d), (s, d + .5), (-s, d)):
        c.eq(A == geo.ArcCoordinates(*other), other == (s, d), "arc-equal", lambda: "%r %r" % ((s, d), other))
    c.near(dist(xy(geo.fromArcCoordinates(f1, A)), at_length(cut(l1), s)), abs(d), "from-arc", lambda: "%r %r" % (l1, A))
    # intersections
    got = sorted(xy(x) for x in geo.intersection(to2D(mkl(l1)), to2D(mkl(l2))))
    for x in got:
        c.check(pt_line(x, cut(l1)) < 1e-6 and pt_line(x, cut(l2)) < 1e-6, "intersection-point", lambda: "%r %r" % (l1, l2))
    c.eq(len(got) > 0, line_line2(cut(l1), cut(l2)) == 0, "intersection-exists", lambda: "%r %r" % (l1, l2))
    # curvature
    a, b, e = l1[0][:2], l1[1][:2], (rc(r), rc(r))
    if dist(a, e) > .1 and dist(b, e) > .1:
        k = 2 * cross(a, b, e) / (dist(a, b) * dist(b, e) * dist(a, e))
        f = r.choice([bp2, lambda x: Point2d(getId(), x[0], x[1])])
        c.near(geo.curvature2d(f(a), f(b), f(e)), abs(k), "curvature", "")
        c.near(geo.signedCurvature2d(f(a), f(b), f(e)), k, "signed-curvature", "")
    c.check(geo.equals(P2(), bp2(p)) and geo.equals(P3(), bp3(p)), "equals")
    c.eq(geo.equals(P3(), mkp(q)), p == q, "equals-other")


def boxdist(a, b):
    """distance of two boxes ((min, max) tuples) as the layers see it"""
    return norm(tuple(max(0., lo2 - hi1, lo1 - hi2) for lo1, hi1, lo2, hi2 in zip(a[0], a[1], b[0], b[1])))


@scenario
def layers(c):
    r = c.rng
    m = LaneletMap()
    pts, lines, polys, lls, ars = {}, {}, {}, {}, {}
    for _ in range(r.randrange(0, 6)):
        p = (rc(r, 50.), rc(r, 50.), rc(r, 5.))
        o = mkp(p)
        m.add(o)
    for _ in range(r.randrange(1, 5)):
        x, y = rc(r, 50.), rc(r, 50.)
        l = [(a + x, b + y, z) for a, b, z in rline(r, None, 8.)]
        o = mkl(l)
        m.add(o)
    for _ in range(r.randrange(1, 4)):
        ring = rring(r, rc(r, 50.), rc(r, 50.), z=rc(r, 3.))
        o = mkpoly(ring)
        polys[o.id] = ring
        m.add(o)
    for _ in range(r.randrange(1, 5)):
        x, y, w, z, n = rc(r, 50.), rc(r, 50.), r.uniform(2, 5), rc(r, 3.), r.randrange(2, 4)
        ls, rs = [(x + 5 * i, y + w, z) for i in range(n)], [(x + 5 * i, y, z) for i in range(n)]
        o = Lanelet(getId(), mkl(ls), mkl(rs))
        lls[o.id] = (ls, rs)
        m.add(o)
    for _ in range(r.randrange(1, 4)):
        x, y, w, z = rc(r, 50.), rc(r, 50.), r.uniform(2, 8), rc(r, 3.)
        q = [(x, y, z), (x, y + w, z), (x + w, y + w, z), (x + w, y, z)]
        P = [mkp(a) for a in q]
        o = Area(getId(), [mkl(P[:3]), mkl([P[2], P[3], P[0]])])
        ars[o.id] = q
        m.add(o)
    pts = {p.id: xyz(p) for p in m.pointLayer}
    lines = {l.id: [xyz(p) for p in l] for l in m.lineStringLayer}
    rings = {i: cut(ls) + cut(rs)[::-1] for i, (ls, rs) in lls.items()}
    c.sig(sorted(pts.values()), sorted(map(tuple, polys.values())))
    q = (rc(r, 60.), rc(r, 60.), rc(r, 5.))
    z0 = q[:2]
    lay = [(m.pointLayer, {i: dist(p[:2], z0) for i, p in pts.items()}),
           (m.lineStringLayer, {i: pt_line(z0, cut(l)) for i, l in lines.items()}),
           (m.polygonLayer, {i: pt_ring(z0, cut(l)) for i, l in polys.items()}),
           (m.laneletLayer, {i: pt_ring(z0, l) for i, l in rings.items()}),
           (m.areaLayer, {i: pt_ring(z0, cut(l)) for i, l in ars.items()})]
    n = r.choice([0, 1, 2, 3, 50])
    for k, (layer, want) in enumerate(lay):
        c.eq(len(layer), len(want), "layer-size", "layer %d" % k)
        got = geo.findNearest(layer, bp2(q), n)
        c.eq(len(got), min(n, len(want)), "nearest-count", "layer %d" % k)
        close(c, [d for d, o in got], sorted(want.values())[:n], "nearest-distances", "layer %d" % k)
        for d, o in got:
            c.near(want[o.id], d, "nearest-object", "layer %d" % k)
        c.eq(len({o.id for d, o in got}), len(got), "nearest-unique", "layer %d" % k)
        md = r.choice([0., r.uniform(0, 10), r.uniform(0, 80)])
        geom = r.choice([lambda: bp2(q), lambda: Point2d(getId(), q[0], q[1])])()
        check_within(c, call(c, geo.findWithin2d, ["layer", "geometry", "maxDist"], layer, geom, md), want, md,
                     "within-point:%d" % k)
    # geometries other than points
    gl = [(a + q[0], b + q[1], z) for a, b, z in rline(r, None, 10.)]
    gring = rring(r, q[0], q[1])
    md = r.choice([0., r.uniform(0, 10), r.uniform(0, 60)])
    GL, GR = cut(gl), cut(gring)
    line, ring = lineforms(r, gl, 2, compound=False, const=False), to2D(mkpoly(gring))
    box = geo.boundingBox2d(to2D(mkl(gl)))
    bmin, bmax = xy(box.min), xy(box.max)
    bring = [bmin, (bmin[0], bmax[1]), bmax, (bmax[0], bmin[1])]
    glw = [(q[0] + 4 * i, q[1] + 3, q[2]) for i in range(3)], [(q[0] + 4 * i, q[1], q[2]) for i in range(3)]
    gll = Lanelet(getId(), mkl(glw[0]), mkl(glw[1]))
    gllring = cut(glw[0]) + cut(glw[1])[::-1]
    D = {0: (lambda o, g: pt_line(o[:2], g), lambda o, g: pt_ring(o[:2], g)),
         1: (lambda o, g: line_line2(cut(o), g), lambda o, g: line_ring(cut(o), g)),
         2: (lambda o, g: line_ring(g, cut(o)), lambda o, g: ring_ring(g, cut(o))),
         3: (lambda o, g: line_ring(g, o), lambda o, g: ring_ring(g, o)),
         4: (lambda o, g: line_ring(g, cut(o)), lambda o, g: ring_ring(g, cut(o)))}
    objs = [pts, lines, polys, rings, ars]
    for k, (layer, _) in enumerate(lay):
        dl, dr = D[k]
        for geom, want, tag in ((line, {i: dl(o, GL) for i, o in objs[k].items()}, "line"),
                                (ring, {i: dr(o, GR) for i, o in objs[k].items()}, "polygon"),
                                (gll, {i: dr(o, gllring) for i, o in objs[k].items()}, "lanelet"),
                                (box, {i: dr(o, bring) for i, o in objs[k].items()}, "box")):
            if tag == "box" and (bmin[0] == bmax[0] or bmin[1] == bmax[1]):
                continue
            check_within(c, geo.findWithin2d(layer, geom, md), want, md, "within-%s:%d" % (tag, k))
    # 3d
    want = {i: dist(p, q) for i, p in pts.items()}
    check_within(c, call(c, geo.findWithin3d, ["layer", "geometry", "maxDist"], m.pointLayer, r.choice([mkp, bp3])(q), md),
                 want, md, "within3d-point:0")
    want = {i: pt_line(q, l) for i, l in lines.items()}
    check_within(c, geo.findWithin3d(m.lineStringLayer, r.choice([mkp, bp3])(q), md), want, md, "within3d-point:1")
    # lanelets by themselves
    for i, (ls, rs) in lls.items():
        o = m.laneletLayer[i]
        ring = rings[i]
        c.near(geo.distance(o, bp2(q)), pt_ring(z0, ring), "lanelet-point", "")
        c.near(geo.distance(bp2(q), o), pt_ring(z0, ring), "point-lanelet", "")
        mid = ((ls[0][0] + ls[-1][0]) / 2, (ls[0][1] + rs[0][1]) / 2)
        c.eq(geo.inside(o, bp2(mid)), True, "inside")
        c.eq(geo.inside(o, bp2((mid[0], ls[0][1] + 1))), False, "outside")
        cl = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2) for a, b in zip(ls, rs)]
        c.near(geo.length2d(o), length(cut(cl)), "length2d", "")
        c.near(geo.length3d(o), length(cl), "length3d", "")
        c.near(geo.distanceToCenterline2d(o, bp2(q)), pt_line(z0, cut(cl)), "centerline2d", "")
        c.near(geo.distanceToCenterline3d(o, bp3(q)), pt_line(q, cl), "centerline3d", "")
        b = geo.boundingBox3d(o)
        close(c, xyz(b.min), tuple(map(min, zip(*(ls + rs)))), "lanelet-box", "")
        close(c, xyz(b.max), tuple(map(max, zip(*(ls + rs)))), "lanelet-box", "")
        for j, (ls2, rs2) in lls.items():
            o2 = m.laneletLayer[j]
            d = ring_ring(ring, rings[j])
            c.near(geo.distance(o, o2), d, "lanelet-lanelet", "")
            if i != j:
                gap = min(dist(a, b) for a in ring for b in rings[j])
                if d > 1e-6:
                    c.eq(geo.overlaps2d(o, o2), False, "overlaps2d-apart")
                    c.eq(geo.intersects2d(o, o2), False, "intersects2d-apart")
                else:
                    c.eq(geo.intersects2d(o, o2), True, "intersects2d")
                dz = abs(ls[0][2] - ls2[0][2])
                h = r.choice([dz + .1, max(0., dz - .1)])
                o3 = call(c, geo.overlaps3d, ["lanelet1", "lanelet2", "heightTolerance"], o, o2, h)
                if h > dz:
                    c.eq(o3, geo.overlaps2d(o, o2), "overlaps3d-near", lambda: "%r %r tol %r" % (ls, ls2, h))
                elif dz > .2:
                    c.eq(o3, False, "overlaps3d-far", lambda: "%r %r tol %r" % (ls, ls2, h))
        for j, q2 in list(ars.items())[:1]:
            ar = m.areaLayer[j]
            c.near(geo.distance(ar, bp2(q)), pt_ring(z0, cut(q2)), "area-point", "")
            c.near(geo.distance(bp2(q), ar), pt_ring(z0, cut(q2)), "point-area", "")
            b = geo.boundingBox2d(ar)
            close(c, xy(b.max), tuple(map(max, zip(*cut(q2)))), "area-box", "")


def check_within(c, got, want, md, tag):
    gd = {}
    for d, o in got:
        c.check(o.id in want, "unknown:" + tag, lambda: "%r" % o.id)
        c.near(d, want[o.id], "distance:" + tag, "id %d" % o.id)
        c.check(o.id not in gd, "twice:" + tag, "")
        gd[o.id] = d
    for i, d in want.items():
        if d < md - 1e-6 or (d == 0 and md > 1e-3):
            c.check(i in gd, "missing:" + tag, lambda: "id %d at %r, limit %r" % (i, d, md))
        if d > md + 1e-6:
            c.check(i not in gd, "too-far:" + tag, lambda: "id %d at %r, limit %r" % (i, d, md))
    ds = [d for d, o in got]
    c.check(ds == sorted(ds), "order:" + tag, lambda: repr(ds))
    c.ev("within", len(gd))


# ---------------------------------------------------------------- a road of lanes and columns
class Road:
    """rows of lanes from left to right, columns along the driving direction; some cells are missing"""

    def __init__(self, c, areas=False):
        r = c.rng
        self.rows, self.cols = r.randrange(1, 4), r.randrange(2, 6)
        self.xs = [0.]
        for _ in range(self.cols):
            self.xs.append(self.xs[-1] + float(r.randrange(2, 15)))
        self.marks = [[r.choice(["dashed", "dashed", "solid", "dashed_solid", "solid_dashed"]) for _ in range(self.cols)]
                      for _ in range(self.rows + 1)]
        p = [[mkp((x, -4. * i, 0.)) for x in self.xs] for i in range(self.rows + 1)]
        b = [[mkl([p[i][j], p[i][j + 1]], {"type": "line_thin", "subtype": self.marks[i][j]}) for j in range(self.cols)]
             for i in range(self.rows + 1)]
        self.cell, self.lls = {}, []
        for i in range(self.rows):
            for j in range(self.cols):
                if r.random() < .08 and len(self.lls) > 1:
                    continue
                ll = Lanelet(getId(), b[i][j], b[i + 1][j], AttributeMap({"type": "lanelet", "subtype": "road", "location": "urban", "one_way": "yes"}))
                self.cell[ll.id] = (i, j)
                self.lls.append(ll)
        self.at = {v: k for k, v in self.cell.items()}
        self.byid = {l.id: l for l in self.lls}
        self.map = createMapFromLanelets(self.lls)
        self.rules = tr.create(tr.Locations.Germany, tr.Participants.Vehicle)

    def length(self, i):
        j = self.cell[i][1]
        return self.xs[j + 1] - self.xs[j]

    def succ(self, i):
        a, j = self.cell[i]
        return [self.at[a, j + 1]] if (a, j + 1) in self.at else []

    def pred(self, i):
        a, j = self.cell[i]
        return [self.at[a, j - 1]] if (a, j - 1) in self.at else []

    def side(self, i, d, change):
        """the neighbour (d -1: left, 1: right) if a lane change is / is not allowed"""
        a, j = self.cell[i]
        n = self.at.get((a + d, j))
        if n is None:
            return None
        mark = self.marks[a + max(d, 0)][j]
        ok = mark == "dashed" or mark == ("dashed_solid" if d > 0 else "solid_dashed")
        # seen in driving direction the first part of the subtype is the left part of the marking
        return n if ok == change else None

    def edges(self, i, lc, cost, lcost):
        out = [(n, cost(i, n)) for n in self.succ(i)]
        if lc:
            for d in (-1, 1):
                n = self.side(i, d, True)
                if n is not None:
                    out.append((n, lcost(i, n)))
        return out

    def dijkstra(self, start, lc, cost, lcost):
        best, q = {}, [(0., start)]
        while q:
            d, i = heapq.heappop(q)
            if i in best:
                continue
            best[i] = d
            for n, w in self.edges(i, lc, cost, lcost):
                if n not in best:
                    heapq.heappush(q, (d + w, n))
        return best


def idl(x):
    return [l.id for l in x]


def pathcost(c, road, p, lc, cost, lcost, msg):
    d = 0.
    for a, b in zip(p, p[1:]):
        w = dict(road.edges(a, lc, cost, lcost))
        c.check(b in w, "path-edge", lambda: "%s: no edge %d-%d in %r" % (msg, a, b, p))
        d += w[b]
    return d


def w0(self, trafficRules, a, b):
    return 1.


@scenario
def routes(c):
    r = c.rng
    road = Road(c)
    lcc, tt = float(r.randrange(0, 20)), r.choice([0., 1.5])
    kinds = r.sample(["distance", "time", "table", "sub"], r.randrange(1, 4))
    table = {}
    calls = []

    def w(a, b):
        return table.setdefault((a, b), float(r.randrange(1, 20)))

    class Cost(routing.RoutingCost):
        def __init__(self, tag):
            super().__init__()
            self.tag = tag

        def getCostSucceeding(self, trafficRules, a, b):
            calls.append((type(a).__name__, type(b).__name__, trafficRules.location()))
            return w(a.id, b.id)

        def getCostLaneChange(self, trafficRules, a, b):
            calls.append((type(a[0]).__name__, type(b[0]).__name__, trafficRules.location()))
            return w(a[0].id, b[0].id)

    class Sub(routing.RoutingCostDistance):
        def __init__(self):
            super().__init__(lcc)

        def getCostSucceeding(self, trafficRules, a, b):
            return 2 * routing.RoutingCostDistance.getCostSucceeding(self, trafficRules, a, b) + 1

    costs, model = [], []
    kmh = 50. / 3.6
    for k in kinds:
        if k == "distance":
            costs.append(call(c, routing.RoutingCostDistance, ["laneChangeCost", "minLaneChangeDistance"], lcc, 0.))
            model.append((lambda a, b: (road.length(a) + road.length(b)) / 2, lambda a, b: lcc))
        elif k == "time":
            costs.append(call(c, routing.RoutingCostTravelTime, ["laneChangeCost", "minLaneChangeTime"], tt, 0.))
            model.append((lambda a, b: (road.length(a) + road.length(b)) / 2 / kmh, lambda a, b: tt))
        elif k == "table":
            costs.append(Cost("x"))
            model.append((w, w))
        else:
            costs.append(Sub())
            model.append((lambda a, b: road.length(a) + road.length(b) + 1, lambda a, b: lcc))
    default = r.random() < .15
    if default:
        model = [(lambda a, b: (road.length(a) + road.length(b)) / 2, lambda a, b: 10.), (lambda a, b: (road.length(a) + road.length(b)) / 2 / kmh, lambda a, b: 5.)]
    the_map = road.map
    if r.random() < .3:
        the_map = createSubmapFromLanelets(road.lls)
        G = routing.RoutingGraph(the_map, road.rules) if default else \
            call(c, routing.RoutingGraph, ["laneletSubmap", "trafficRules", "routingCost"], the_map, road.rules, costs)
    else:
        G = routing.RoutingGraph(the_map, road.rules) if default else \
            call(c, routing.RoutingGraph, ["laneletMap", "trafficRules", "routingCost"], the_map, road.rules, costs)
    del costs
    gc.collect()
    if r.random() < .3:
        base = r.choice([routing.RoutingCost, routing.RoutingCostDistance, routing.RoutingCostTravelTime])
        bad = r.choice(["getCostSucceeding", "getCostLaneChange"])

        class Oops(Exception):
            pass

        def oops(self, trafficRules, a, b):
            raise Oops("x")

        cls = type("Bad", (base,), {"getCostSucceeding": w0, "getCostLaneChange": w0, bad: oops})
        inst = cls() if base is routing.RoutingCost else cls(1.)
        if any(road.succ(i) for i in road.cell) if bad == "getCostSucceeding" else \
                any(road.side(i, 1, True) is not None or road.side(i, -1, True) is not None for i in road.cell):
            c.raises(lambda: routing.RoutingGraph(road.map, road.rules, [inst]), Oops, "cost-exception", "%s %s" % (base.__name__, bad))
            c.ev("cost-exceptions")
    for x in calls:
        c.check(x[0] == x[1] == "ConstLanelet" and x[2] == "de", "python-cost-arguments", lambda: repr(x))
    c.ev("python-cost-calls", len(calls))
    c.sig(road.marks, road.xs, sorted(road.at), kinds, default)
    c.eq(list(G.checkValidity()), [], "graph-valid")
    c.eq(sorted(idl(G.passableLaneletSubmap().laneletLayer)), sorted(road.byid), "passable")
    RT = routing.RelationType
    names = ["lanelet", "routingCostId"]
    for l in road.lls:
        cid = r.randrange(len(model))
        i = l.id
        c.eq(sorted(idl(call(c, G.following, ["lanelet", "withLaneChanges"], l, False))), sorted(road.succ(i)), "following")
        lr = [x for x in (road.side(i, -1, True), road.side(i, 1, True)) if x is not None]
        c.eq(sorted(idl(call(c, G.following, ["lanelet", "withLaneChanges"], l, True))), sorted(road.succ(i) + lr), "following-lc")
        c.eq(sorted(idl(G.previous(l))), sorted(road.pred(i)), "previous")
        c.eq(sorted((x.lanelet.id, x.relationType) for x in G.followingRelations(l)), [(x, RT.Successor) for x in sorted(road.succ(i))], "following-relations")
        for f, d, ch in ((G.left, -1, True), (G.right, 1, True), (G.adjacentLeft, -1, False), (G.adjacentRight, 1, False)):
            got = call(c, f, names, l, cid)
            c.eq(got.id if got is not None else None, road.side(i, d, ch), "side", lambda: "%s of %r" % (f.__name__, road.cell[i]))
        for f, d, ch in ((G.lefts, -1, True), (G.rights, 1, True), (G.adjacentLefts, -1, False), (G.adjacentRights, 1, False)):
            want, k = [], i
            while road.side(k, d, ch) is not None:
                k = road.side(k, d, ch)
                want.append(k)
            c.eq(idl(call(c, f, names, l, cid)), want, "sides")
        c.check(i in idl(call(c, G.besides, names, l, cid)), "besides-self")
        c.eq(idl(G.conflicting(l)), [], "conflicting")
        o = r.choice(road.lls)
        want = None
        if o.id in road.succ(i):
            want = RT.Successor
        elif o.id == road.side(i, -1, True):
            want = RT.Left
        elif o.id == road.side(i, 1, True):
            want = RT.Right
        elif o.id == road.side(i, -1, False):
            want = RT.AdjacentLeft
        elif o.id == road.side(i, 1, False):
            want = RT.AdjacentRight
        c.eq(call(c, G.routingRelation, ["from", "to", "includeConflicting"], l, o, r.random() < .5), want, "relation", lambda: "%r %r" % (road.cell[i], road.cell[o.id]))
    # searches
    for _ in range(6):
        cid, lc = r.randrange(len(model)), r.random() < .6
        cost, lcost = model[cid]
        a, b = r.choice(road.lls), r.choice(road.lls)
        best = road.dijkstra(a.id, lc, cost, lcost)
        msg = "from %r to %r cost %d lc %r" % (road.cell[a.id], road.cell[b.id], cid, lc)
        argn = ["from", "to", "routingCostId", "withLaneChanges"]
        p = call(c, G.shortestPath, argn, a, b, cid, lc)
        c.eq(p is not None, b.id in best, "path-exists", msg)
        if p is not None:
            ip = idl(p)
            c.eq((ip[0], ip[-1], len(p), p[-1].id), (a.id, b.id, len(ip), b.id), "path-ends", msg)
            c.near(pathcost(c, road, ip, lc, cost, lcost, msg), best[b.id], "path-optimal", msg)
            c.check(p == routing.LaneletPath([road.byid[x] for x in ip]) and not (p != routing.LaneletPath(lanelets=list(p))), "path-equal")
            e = r.choice(ip)
            rem, k = [e], ip.index(e)
            while k + 1 < len(ip) and ip[k + 1] in road.succ(ip[k]):
                k += 1
                rem.append(ip[k])
            c.eq(idl(p.getRemainingLane(road.byid[e])), rem, "remaining-lane")
            c.check("LaneletPath" in repr(p), "path-repr")
        v = r.choice(road.lls)
        pv = call(c, G.shortestPathWithVia, ["start", "via", "end", "routingCostId", "withLaneChanges"], a, [v], b, cid, lc)
        bv = road.dijkstra(v.id, lc, cost, lcost)
        ok = v.id in best and b.id in bv
        c.eq(pv is not None, ok, "via-exists", msg)
        if ok:
            c.near(pathcost(c, road, idl(pv), lc, cost, lcost, msg), best[v.id] + bv[b.id], "via-optimal", msg)
            c.check(v.id in idl(pv), "via-contained")
        lim = r.choice([0., float(r.randrange(1, 60)), 1e6])
        got = call(c, G.reachableSet, ["lanelet", "maxRoutingCost", "routingCostId", "allowLaneChanges"], a, lim, cid, lc)
        c.eq(len(set(idl(got))), len(got), "reachable-unique", msg)
        for i, d in best.items():
            if abs(d - lim) > 1e-6:
                c.eq(i in idl(got), d < lim, "reachable", lambda: "%s limit %r: %r at %r" % (msg, lim, road.cell[i], d))
        c.check(set(idl(got)) <= set(best), "reachable-only", msg)
        got = set(idl(call(c, G.reachableSetTowards, ["lanelet", "maxRoutingCost", "routingCostId", "allowLaneChanges"], b, lim, cid, lc)))
        for l in road.lls:
            d = road.dijkstra(l.id, lc, cost, lcost).get(b.id, math.inf)
            if abs(d - lim) > 1e-6:
                c.eq(l.id in got, d < lim, "reachable-towards", lambda: "%s limit %r: %r at %r" % (msg, lim, road.cell[l.id], d))
        # visitors
        seen = []

        def visit(v, seen=seen):
            seen.append((v.lanelet.id, v.predecessor.id, v.cost, v.length, v.numLaneChanges))
            return v.cost < lim

        call(c, G.forEachSuccessor, ["lanelet", "func", "allowLaneChanges", "routingCostId"], a, visit, lc, cid)
        c.eq(seen[0], (a.id, a.id, 0., 1, 0), "visit-first", msg)
        c.check(all(x[2] <= y[2] + 1e-9 for x, y in zip(seen, seen[1:])), "visit-order", lambda: "%s %r" % (msg, seen))
        c.eq(len({x[0] for x in seen}), len(seen), "visit-once", msg)
        for i, pre, d, n, nlc in seen:
            c.check(i in best, "visit-reachable", msg)
            if lim > 1e5:
                c.near(d, best[i], "visit-cost", lambda: "%s %r" % (msg, road.cell[i]))
        if lim > 1e5:
            c.eq({x[0] for x in seen}, set(best), "visit-all", msg)
        seen2 = []
        if r.random() < .5:
            call(c, G.forEachSuccessorIncludingAreas, ["lanelet", "func", "allowLaneChanges", "routingCostId"], a,
                 lambda v: seen2.append((v.laneletOrArea.id, v.predecessor.id, v.cost, v.length, v.numLaneChanges)) or v.cost < lim, lc, cid)
            c.eq({x[0]: round(x[2], 6) for x in seen2}, {x[0]: round(x[2], 6) for x in seen}, "visit-areas-same", msg)
        else:
            call(c, G.forEachPredecessor, ["lanelet", "func", "allowLaneChanges", "routingCostId"], b,
                 lambda v: seen2.append((v.lanelet.id, v.cost)) or True, lc, cid)
            want = {l.id: road.dijkstra(l.id, lc, cost, lcost).get(b.id) for l in road.lls}
            c.eq({i for i, d in seen2}, {i for i, d in want.items() if d is not None}, "visit-back-all", msg)
            for i, d in seen2:
                c.near(d, want[i], "visit-back-cost", msg)

        class Stop(Exception):
            pass

        n = [0]

        def stop(v):
            n[0] += 1
            if n[0] == 2:
                raise Stop("enough")
            return True

        if len(best) > 1:
            c.raises(lambda: G.forEachSuccessor(a, stop, lc, cid), Stop, "visit-exception", msg)
        # possible paths: all of them by enumeration (without lane changes there is at most one)
        k = r.randrange(1, 5)
        got = call(c, G.possiblePathsMinLen, ["lanelet", "minLanelets", "allowLaneChanges", "routingCostId"], a, k, False, cid)
        chain = [a.id]
        while road.succ(chain[-1]):
            chain.append(road.succ(chain[-1])[0])
        c.eq([idl(x) for x in got], [chain[:k]] if len(chain) >= k else [], "possible-min-len", msg)
        want = None
        d = 0.
        for x, y in zip(chain, chain[1:]):
            d += cost(x, y)
        lim2 = r.choice([d * r.uniform(.1, .95), d + 1.])
        got = call(c, G.possiblePaths, ["lanelet", "minRoutingCost", "routingCostId", "allowLaneChanges"], a, lim2, cid, False)
        acc, want = 0., []
        if lim2 > d or len(chain) == 1:
            c.check(not got or len(chain) == 1, "possible-short", lambda: "%s %r" % (msg, [idl(x) for x in got]))
        else:
            n = 1
            while acc < lim2 - 1e-9:
                acc += cost(chain[n - 1], chain[n])
                n += 1
            c.eq([idl(x) for x in got], [chain[:n]], "possible-cost", lambda: "%s limit %r" % (msg, lim2))
        pp = call(c, routing.PossiblePathsParams, ["routingCostLimit", "elementLimit", "routingCostId", "includeLaneChanges", "includeShorterPaths"],
                  None, k, cid, False, True)
        c.eq((pp.routingCostLimit, pp.elementLimit, pp.routingCostId, pp.includeLaneChanges, pp.includeShorterPaths), (None, k, cid, False, True), "params")
        got = G.possiblePaths(a, pp) if r.random() < .5 else G.possiblePaths(lanelet=a, parameters=pp)
        c.eq([idl(x) for x in got], [chain[:k]], "possible-shorter", msg)
        pp.elementLimit = None
        c.eq((pp.routingCostLimit, pp.elementLimit), (None, None), "params-reset")
        pp.routingCostLimit = 7.
        c.eq((pp.routingCostLimit, pp.elementLimit), (7., None), "params-set")
        pp.routingCostLimit = None
        c.eq((pp.routingCostLimit, pp.elementLimit), (None, None), "params-reset")
        pp.elementLimit = k
        c.eq((pp.routingCostLimit, pp.elementLimit, pp.routingCostId, pp.includeLaneChanges, pp.includeShorterPaths), (None, k, cid, False, True), "params-set")
        got = call(c, G.possiblePathsTowardsMinLen, ["lanelet", "minLanelets", "allowLaneChanges", "routingCostId"], b, k, False, cid)
        back = [b.id]
        while road.pred(back[-1]):
            back.append(road.pred(back[-1])[0])
        c.eq([idl(x) for x in got], [back[:k][::-1]] if len(back) >= k else [], "possible-towards-min-len", msg)
        got = G.possiblePathsTowards(b, pp) if r.random() < .5 else G.possiblePathsTowards(lanelet=b, parameters=pp)
        c.eq([idl(x) for x in got], [back[:k][::-1]], "possible-towards-shorter", msg)
        db = sum(cost(y, x) for x, y in zip(back, back[1:]))
        if len(back) > 1:
            got = call(c, G.possiblePathsTowards, ["lanelet", "minRoutingCost", "routingCostId", "allowLaneChanges"], b, db * .999, cid, False)
            c.eq([idl(x) for x in got], [back[::-1]], "possible-towards", msg)
        # routes
        R = call(c, G.getRoute, argn, a, b, cid, lc)
        c.eq(R is not None, p is not None, "route-exists", msg)
        if R is not None:
            check_route(c, road, G, R, ip, lc, msg)
        R = call(c, G.getRouteVia, ["from", "via", "to", "routingCostId", "withLaneChanges"], a, [v], b, cid, lc)
        c.eq(R is not None, ok, "route-via-exists", msg)
        if R is not None:
            c.eq(idl(R.shortestPath()), idl(pv), "route-via-path", msg)
        c.ev("searches")


def check_route(c, road, G, R, ip, lc, msg):
    r = c.rng
    sp = R.shortestPath()
    c.eq(idl(sp), ip, "route-path", msg)
    c.near(R.length2d(), sum(road.length(i) for i in ip), "route-length", msg)
    sub = R.laneletSubmap()
    members = sorted(idl(sub.laneletLayer))
    c.eq(R.size(), len(members), "route-size", msg)
    c.check(set(ip) <= set(members), "route-contains-path", msg)
    c.eq(list(R.checkValidity()), [], "route-valid", msg)
    for l in road.lls:
        c.eq(l in R, l.id in members, "route-contains", msg)
    for i in members[:4]:
        l = road.byid[i]
        nxt = [x.lanelet.id for x in R.followingRelations(l)]
        c.eq(sorted(nxt), sorted(x for x in road.succ(i) if x in members), "route-following", msg)
        prv = [x.lanelet.id for x in R.previousRelations(l)]
        c.eq(sorted(prv), sorted(x for x in road.pred(i) if x in members), "route-previous", msg)
        left = R.leftRelation(l)
        if left is not None:
            c.check(left.lanelet.id in members and left.relationType in (routing.RelationType.Left, routing.RelationType.AdjacentLeft), "route-left", msg)
            c.eq(R.leftRelations(l)[0].lanelet.id, left.lanelet.id, "route-lefts", msg)
        lane = idl(R.fullLane(l))
        c.check(i in lane and all(y in road.succ(x) for x, y in zip(lane, lane[1:])), "route-lane", lambda: "%s %r" % (msg, lane))
        rem = idl(R.remainingLane(l))
        c.eq(rem, lane[lane.index(i):], "route-remaining-lane", msg)
        c.eq(idl(R.conflictingInRoute(l)), [], "route-conflicting", msg)
    k = r.randrange(len(ip))
    c.eq(idl(R.remainingShortestPath(road.byid[ip[k]])), ip[k:], "route-remaining-path", msg)
    seen = []
    R.forEachSuccessor(road.byid[ip[0]], lambda v: seen.append(v.lanelet.id) or True)
    c.check(set(ip) <= set(seen) <= set(members), "route-visit", msg)
    c.eq(len(R.getDebugLaneletMap().pointLayer) >= len(members), True, "route-debug-map", msg)
    # parts outlive the route
    path, last = R.shortestPath(), sp[-1]
    del R, sp
    gc.collect()
    c.eq(idl(path), ip, "path-outlives-route", msg)
    c.eq(last.id, ip[-1], "lanelet-outlives-route", msg)
    c.eq(sorted(idl(sub.laneletLayer)), members, "submap-outlives-route", msg)


@scenario
def rules(c):
    r = c.rng
    who = {"vehicle": tr.Participants.Vehicle, "bicycle": tr.Participants.Bicycle, "pedestrian": tr.Participants.Pedestrian}
    name = r.choice(sorted(who))
    R = call(c, tr.create, ["location", "participant"], tr.Locations.Germany, who[name])
    c.eq((R.location(), R.participant()), ("de", name), "rules-names")
    c.check(name in str(R), "rules-str")
    c.raises(lambda: tr.create("nowhere", name), Exception, "unknown-location")
    for a, w in (("VehicleCar", "vehicle:car"), ("VehicleBus", "vehicle:bus"), ("VehicleTruck", "vehicle:truck"),
                 ("VehicleMotorcycle", "vehicle:motorcycle"), ("VehicleTaxi", "vehicle:taxi"), ("VehicleEmergency", "vehicle:emergency"),
                 ("VehicleCarElectric", "vehicle:car:electric"), ("VehicleCarCombustion", "vehicle:car:combustion"), ("Train", "train")):
        c.eq(getattr(tr.Participants, a), w, "participant-name")
    v, mand = r.uniform(0, 60), r.random() < .5
    s = call(c, tr.SpeedLimitInformation, ["speedLimitMPS", "isMandatory"], v, mand)
    c.near(s.speedLimitMPS, v, "speed-mps", "")
    c.near(s.speedLimitKmH, v * 3.6, "speed-kmh", "")
    c.near(s.speedLimit, v * 3.6, "speed", "")
    c.eq(s.isMandatory, mand, "speed-mandatory")
    c.eq(tr.SpeedLimitInformation(v).isMandatory, True, "speed-mandatory-default")
    c.check("yes" in str(s) if mand else "no" in str(s), "speed-str", lambda: str(s))
    v = r.uniform(0, 60)
    k = r.randrange(3)
    if k == 0:
        s.speedLimitMPS = v
    elif k == 1:
        s.speedLimitKmH = v * 3.6
    else:
        s.speedLimit = v * 3.6
    c.near(s.speedLimitMPS, v, "speed-set", "setter %d" % k)
    s.isMandatory = not mand
    c.eq(s.isMandatory, not mand, "speed-set-mandatory")
    # lanelets
    sub = r.choice(["road", "walkway", "bicycle_lane", "crosswalk", "highway"])
    loc = r.choice(["urban", "nonurban"])
    attrs = {"type": "lanelet", "subtype": sub, "location": loc}
    ow = r.choice([None, "yes", "no"])
    over = r.choice([None, None, "yes", "no"])
    lim = r.choice([None, None, "30 km/h", "10", "36 km/h"])
    if ow:
        attrs["one_way"] = ow
    if over:
        attrs["participant:" + name] = over
    if lim:
        attrs["speed_limit"] = lim
    a, b, e, f, g, h = mkp((0, 4, 0)), mkp((10, 4, 0)), mkp((20, 4, 0)), mkp((0, 0, 0)), mkp((10, 0, 0)), mkp((20, 0, 0))
    l1 = Lanelet(getId(), mkl([a, b]), mkl([f, g]), AttributeMap(attrs))
    l2 = Lanelet(getId(), mkl([b, e]), mkl([g, h]), AttributeMap(attrs))
    allowed = {"vehicle": {"road", "highway"}, "bicycle": {"road", "bicycle_lane"}, "pedestrian": {"walkway", "crosswalk"}}
    want = over == "yes" if over else (sub in allowed[name])
    c.eq(R.canPass(l1), want, "can-pass", lambda: "%s %r" % (name, attrs))
    oneway = ow == "yes" if ow else name != "pedestrian"
    c.eq(R.isOneWay(l1), oneway, "one-way", lambda: "%s %r" % (name, attrs))
    c.eq(R.canPass(l1.invert()), want and not oneway, "can-pass-inverted", lambda: "%s %r" % (name, attrs))
    c.eq(R.canPass(l1, l2), want, "can-pass-to", lambda: "%s %r" % (name, attrs))
    c.eq(R.canPass(l2, l1), False, "can-pass-back", lambda: "%s %r" % (name, attrs))
    c.eq(R.canPass(l2.invert(), l1.invert()), want and not oneway, "can-pass-to-inverted", lambda: "%s %r" % (name, attrs))
    c.eq(R.hasDynamicRules(l1), False, "dynamic")
    got = R.speedLimit(l1)
    if lim:
        c.near(got.speedLimitKmH, float(lim.split()[0]), "speed-attribute", lambda: "%s %r" % (name, attrs))
        c.check(got.isMandatory, "speed-attribute-mandatory")
    c.sig(name, sub, loc, ow, over, lim)


@scenario
def matches(c):
    r = c.rng
    road = Road(c)
    q = (r.uniform(road.xs[0] - 5, road.xs[-1] + 5), r.uniform(-4. * road.rows - 5, 5))
    yaw = r.uniform(-3, 3)
    rings = {}
    for i, (a, j) in road.cell.items():
        x0, x1, y0, y1 = road.xs[j], road.xs[j + 1], -4. * (a + 1), -4. * a
        rings[i] = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]
    hull = [] if r.random() < .4 else [(q[0] + dx, q[1] + dy) for dx, dy in ((-2, -1), (-2, 1), (2, 1), (2, -1))]
    pose = call(c, matching.Pose2d, ["x", "y", "yaw"], q[0], q[1], yaw)
    s = str(pose).split()
    close(c, [float(s[1]), float(s[3]), float(s[5])], [q[0], q[1], yaw], "pose", str(pose), 1e-3)
    oid = r.choice([0, 1, 7, 2**40])
    if r.random() < .5:
        o = call(c, matching.Object2d, ["objectId", "pose", "absoluteHull"], oid, pose, [bp2(p) for p in hull])
    else:
        o = matching.Object2d()
        o.objectId, o.pose, o.absoluteHull = oid, pose, [bp2(p) for p in hull]
    c.eq(o.objectId, oid, "object-id")
    close(c, [v for p in o.absoluteHull for v in xy(p)], [v for p in hull for v in p], "hull", "")
    md = r.choice([0.5, r.uniform(0, 10), 50.])
    want = {i: (ring_ring(hull, R) if hull else pt_ring(q, R)) for i, R in rings.items()}
    got = matching.getDeterministicMatches(road.map, o, md)
    seen = {}
    for x in got:
        c.check(x.lanelet.id in want, "match-unknown")
        c.near(x.distance, want[x.lanelet.id], "match-distance", lambda: "%r %r" % (q, hull))
        seen.setdefault(x.lanelet.id, []).append(x.lanelet.inverted())
    for i, d in want.items():
        if d < md - 1e-6 or d == 0:
            c.eq(sorted(seen.get(i, [])), [False, True], "match-both", lambda: "lanelet at %r of %r" % (d, md))
        elif d > md + 1e-6:
            c.check(i not in seen, "match-far", lambda: "lanelet at %r of %r" % (d, md))
    ds = [x.distance for x in got]
    c.check(ds == sorted(ds), "match-order")
    comp = matching.removeNonRuleCompliantMatches(got, road.rules)
    c.eq([(x.lanelet.id, x.lanelet.inverted()) for x in comp], [(x.lanelet.id, False) for x in got if not x.lanelet.inverted()], "compliant")
    c.raises(lambda: matching.removeNonRuleCompliantMatches([1, 2], road.rules), RuntimeError, "compliant-bad")
    # probabilistic
    vx, vy = r.uniform(.2, 3), r.uniform(.2, 3)
    cov = r.uniform(-.9, .9) * math.sqrt(vx * vy)
    pc = call(c, matching.PositionCovariance2d, ["varX", "varY", "covXY"], vx, vy, cov)
    kap = r.uniform(.1, 5)
    po = call(c, matching.ObjectWithCovariance2d, ["objectId", "pose", "absoluteHull", "positionCovariance", "vonMisesKappa"],
              oid, pose, [bp2(p) for p in hull], pc, kap)
    c.near(po.vonMisesKappa, kap, "kappa", "")
    c.check(isinstance(po, matching.Object2d), "object-class")
    pg = matching.getProbabilisticMatches(road.map, po, md)
    c.eq(sorted((x.lanelet.id, x.lanelet.inverted()) for x in pg), sorted((x.lanelet.id, x.lanelet.inverted()) for x in got), "probabilistic-set")
    ms = [x.mahalanobisDistSq for x in pg]
    c.check(ms == sorted(ms) and all(x >= 0 for x in ms), "probabilistic-order", lambda: repr(ms))
    comp = matching.removeNonRuleCompliantMatches(pg, road.rules)
    c.eq([x.mahalanobisDistSq for x in comp], [x.mahalanobisDistSq for x in pg if not x.lanelet.inverted()], "probabilistic-compliant")
    # results outlive map and graph
    keep = [(x.lanelet, x.lanelet.id, x.distance) for x in got]
    del got, pg, comp
    road.map = road.lls = road.byid = None
    gc.collect()
    for l, i, d in keep:
        c.eq((l.id, len(l.leftBound)), (i, 2), "match-outlives")
    c.sig(len(keep), len(comp) if False else round(md, 1), q)


def describe(m):
    out = {}
    for l in m.pointLayer:
        out["p", l.id] = (xyz(l), dict(l.attributes.items()))
    for tag, layer in (("l", m.lineStringLayer), ("g", m.polygonLayer)):
        for l in layer:
            out[tag, l.id] = ([p.id for p in l], dict(l.attributes.items()))
    for l in m.laneletLayer:
        out["L", l.id] = (l.leftBound.id, l.rightBound.id, l.leftBound.inverted(), l.rightBound.inverted(),
                          dict(l.attributes.items()), sorted(x.id for x in l.regulatoryElements))
    for a in m.areaLayer:
        out["A", a.id] = ([b.id for b in a.outerBound], [[b.id for b in h] for h in a.innerBounds], dict(a.attributes.items()))
    for x in m.regulatoryElementLayer:
        out["r", x.id] = {k: [e.id for e in x.parameters[k]] for k in x.roles()} if False else type(x).__name__
    return out


def same_maps(c, a, b, tol, key):
    c.eq(sorted(a), sorted(b), key + ":ids")
    for k in a:
        if k[0] == "p":
            close(c, b[k][0], a[k][0], key + ":coordinates", repr(k), tol)
            c.eq({x: y for x, y in b[k][1].items() if x not in ("local_x", "local_y")}, a[k][1], key + ":attributes", repr(k))
        else:
            c.eq(b[k], a[k], key + ":" + k[0], repr(k))


@scenario
def files(c):
    r = c.rng
    road = Road(c)
    m = road.map
    for l in r.sample(road.lls, min(2, len(road.lls))):
        l.attributes["name"] = r.choice(["x", "\u00fcber <&> \"q\"", "a'b"])
    if r.random() < .5:
        sign = mkl([(0, 5, 1), (1, 5, 1)], {"type": "traffic_sign", "subtype": "de206"})
        reg = SpeedLimit(getId(), AttributeMap(), TrafficSignsWithType([sign], "de274-60"))
        l = r.choice(road.lls)
        l.addRegulatoryElement(reg)
        m.add(l)
        m.add(reg)
        if not len(m.regulatoryElementLayer):
            c.fail("regelem-not-in-map", "")
    if r.random() < .5:
        P = [mkp(x) for x in ((0., 20., 0.), (0., 30., 0.), (10., 30., 0.), (10., 20., 0.))]
        m.add(Area(getId(), [mkl(P[:3]), mkl([P[2], P[3], P[0]])], [], AttributeMap({"type": "multipolygon", "subtype": "parking"})))
    lat, lon = r.uniform(-60, 60), r.uniform(-179, 179)
    org = r.choice([lambda: io.Origin(lat, lon), lambda: io.Origin(lat=lat, lon=lon, alt=0.), lambda: io.Origin(GPSPoint(lat, lon, 0.))])()
    c.eq((org.position.lat, org.position.lon, org.position.alt), (lat, lon, 0.), "origin")
    o2 = io.Origin(lat=lat, lon=lon, alt=4.5)
    c.eq((o2.position.lat, o2.position.lon, o2.position.alt), (lat, lon, 4.5), "origin-alt")
    proj = r.choice([projection.UtmProjector, projection.MercatorProjector, projection.LocalCartesianProjector])(org)
    d = tempfile.mkdtemp(prefix="ll2y02.")
    try:
        before = describe(m)
        ext = r.choice([".osm", ".osm", ".bin"])
        f = os.path.join(d, r.choice(["m", "\u00fc m"]) + ext)
        par = r.choice([None, {}, {"josm_upload": "true"}, {"josm_upload": "false", "josm_format_elevation": "true"}])
        k = r.randrange(4)
        if k == 0:
            call(c, io.write, ["filename", "map", "projector", "params"], f, m, proj, par)
        elif k == 1:
            io.write(f, m, proj)
        elif k == 2:
            c.eq(list(call(c, io.writeRobust, ["filename", "map", "projector", "params"], f, m, proj, par)), [], "write-errors")
        else:
            org = io.Origin(lat, lon)
            call(c, io.write, ["filename", "map", "origin", "params"], f, m, org, par)
            proj = projection.MercatorProjector(org)
        if ext == ".osm" and k in (0, 2, 3):
            head = open(f, encoding="utf-8").read(400)
            want = "true" if par and par.get("josm_upload") == "true" else "false"
            c.check('upload="%s"' % want in head, "param-upload", lambda: "%r: %s" % (par, head[:120]))
        q = r.randrange(3)
        if q == 0:
            m2 = call(c, io.load, ["filename", "projector"], f, proj)
        elif q == 1:
            m2, errs = call(c, io.loadRobust, ["filename", "projector"], f, proj)
            c.eq(list(errs), [], "load-errors")
        elif k == 3:
            m2 = call(c, io.load, ["filename", "origin"], f, org)
        else:
            m2 = io.load(f, proj)
        short = bool(par) and par.get("josm_format_elevation") == "true" and k != 1
        if ext == ".osm" and short:
            ele = re.findall('k="ele" v="([^"]*)"', open(f, encoding="utf-8").read())
            c.check(all(len(x.partition(".")[2]) <= 2 for x in ele), "param-elevation", lambda: "%r: %r" % (par, ele))
        same_maps(c, before, describe(m2), 1e-9 if ext == ".bin" else 1e-2 if short else 1e-3, "round-trip" + ext)
        c.raises(lambda: io.load(os.path.join(d, "missing.osm"), proj), RuntimeError, "missing-file")
        c.raises(lambda: io.write(os.path.join(d, "m.unknown"), m, proj), RuntimeError, "unknown-format")
        if ext == ".osm":
            # a broken reference: reported, the rest is there
            s = open(f, encoding="utf-8").read()
            pid = min(i for t, i in before if t == "p")
            s2 = s.replace('<nd ref="%d"' % pid, '<nd ref="987654321"')
            open(f, "w", encoding="utf-8").write(s2)
            m3, errs = call(c, io.loadRobust, ["filename", "projector"], f, proj)
            if s2 != s:
                c.check(len(errs) > 0, "broken-reported")
                c.raises(lambda: io.load(f, proj), RuntimeError, "broken-raises")
            c.check(set(k for k in describe(m3)) <= set(before), "broken-subset")
        c.ev("files")
        c.sig(ext, k, q, repr(par), len(before))
    finally:
        shutil.rmtree(d, ignore_errors=True)


@scenario
def projections(c):
    r = c.rng
    lat, lon = r.uniform(-70, 70), r.uniform(-179, 179)
    org = io.Origin(lat, lon)
    k = r.randrange(5)
    P = [lambda: projection.UtmProjector(org), lambda: projection.MercatorProjector(org), lambda: projection.LocalCartesianProjector(org),
         lambda: projection.GeocentricProjector(), lambda: projection.UtmProjector(org, r.random() < .5, False)][k]()
    del org
    gc.collect()
    if k != 3:
        o = P.origin()
        c.eq((o.position.lat, o.position.lon), (lat, lon), "projector-origin")
    for _ in range(5):
        g = GPSPoint(lat + r.uniform(-.05, .05), lon + r.uniform(-.05, .05), r.uniform(-10, 100))
        q = P.forward(g)
        b = P.reverse(q)
        c.near(b.lat, g.lat, "lat", "%d" % k, 1e-8)
        c.near((b.lon - g.lon + 540) % 360 - 180, 0., "lon", "%d" % k, 1e-6)
        c.near(b.alt, g.alt, "alt", "%d" % k, 1e-3)
        if k in (0, 2):
            h = P.forward(GPSPoint(lat, lon, 0.))
            close(c, (h.x, h.y), (0., 0.), "origin-at-zero", "%d" % k, 1e-3)
        c.sig(k, round(lat, 2), round(lon, 2))
    if k != 3:
        o = P.origin()
        del P
        gc.collect()
        c.eq((o.position.lat, o.position.lon), (lat, lon), "origin-outlives-projector")
