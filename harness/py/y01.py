"""Y01: the objects of lanelet2.core in python are live, memory-safe views of the primitives.

Every scenario keeps a shadow model in plain python and compares it with what all objects (also those obtained long
before the last change) report after each operation."""
import gc, itertools
import lanelet2.core as core
from lanelet2.core import *
from lanelet2.geometry import to2D, to3D

RULE = ("each case drives one scenario (lines, attributes, lanelets, areas, regulatory elements, maps) of python "
        "operations against a shadow model; distinct_nontrivial counts distinct model states compared")

SCEN = []


def scenario(f):
    SCEN.append(f)
    return f


def num_cases(thorough):
    return 60000 if thorough else 4000


def run(c):
    f = SCEN[c.idx % len(SCEN)]
    f(c)
    c.ev("scenario:" + f.__name__)
    if c.idx % 64 < len(SCEN):
        gc.collect()


KEYS = ["type", "subtype", "a", "one_way", "speed_limit", "ref\u00e9", "with space", "q'uote", "dq\"x", ""]


def rattr(r):
    return {r.choice(KEYS): r.choice(["x", "1", "", "\u00fcber", "50 km/h", "it's", "yes"]) for _ in range(r.randrange(4))}


def coord(r):
    return float(r.choice([r.randrange(-50, 50), r.uniform(-1e3, 1e3), r.uniform(-1, 1), 0]))


class P:
    """a point and what it should say"""

    def __init__(self, r):
        self.id, self.x, self.y, self.z, self.attrs = getId(), coord(r), coord(r), coord(r), rattr(r)
        k = r.randrange(5)
        am = AttributeMap(dict(self.attrs))
        if k == 0:
            self.obj = Point3d(self.id, BasicPoint3d(self.x, self.y, self.z), am)
        elif k == 1:
            self.obj = Point3d(self.id, self.x, self.y, self.z, am)
        elif k == 2:
            self.obj = Point3d(id=self.id, x=self.x, y=self.y, z=self.z, attributes=am)
        elif k == 3:
            self.obj = Point3d(self.id, self.x, self.y)
            self.z, self.attrs = 0.0, {}
        else:
            self.obj = Point3d(Point2d(self.id, self.x, self.y, self.z, self.attrs and am))if self.attrs else \
                Point3d(Point2d(self.id, self.x, self.y, self.z))

    def same(self, o):
        ok = o.id == self.id and o.x == self.x and o.y == self.y
        return ok and (not hasattr(o, "z") or o.z == self.z) and dict(o.attributes.items()) == self.attrs


def check_points(c, view, want, what, tag):
    """the full sequence interface of a view against the list of expected points"""
    n = len(want)
    c.eq(len(view), n, "len:" + tag, what)
    it = list(view)
    c.eq(len(it), n, "iter:" + tag, what)
    for i in range(n):
        c.check(want[i].same(it[i]), "iter-item:" + tag, lambda: "%s [%d]: %r, expected id %d" % (what, i, it[i], want[i].id))
        c.check(want[i].same(view[i]), "item:" + tag, lambda: "%s [%d]: %r, expected id %d" % (what, i, view[i], want[i].id))
        c.check(want[i].same(view[i - n]), "negative-item:" + tag, lambda: "%s [%d]: %r" % (what, i - n, view[i - n]))
    for bad in (n, n + 3, -n - 1):
        c.raises(lambda: view[bad], IndexError, "index-error:" + tag, "%s [%d] of %d" % (what, bad, n))


def check_basic(c, view, want, what, tag, dim):
    c.eq(len(view), len(want), "len:" + tag, what)
    for i, b in enumerate(view):
        w = want[i]
        c.check(b.x == w.x and b.y == w.y and (dim == 2 or b.z == w.z), "basic-item:" + tag,
                lambda: "%s [%d]: %r, expected %r" % (what, i, b, (w.x, w.y, w.z)))
        q = view[i]
        c.check(q.x == w.x and q.y == w.y and (dim == 2 or q.z == w.z), "basic-getitem:" + tag, lambda: "%s [%d]" % (what, i))


def dedup(seq):
    return [k for k, _ in itertools.groupby(seq)]


@scenario
def lines(c):
    r = c.rng
    pool = [P(r) for _ in range(r.randrange(2, 7))]
    held = []  # (object obtained earlier, expected point)
    objs = []  # (kind, object, list of P, attrs, id)
    for _ in range(r.randrange(1, 4)):
        pts = [r.choice(pool) for _ in range(r.randrange(0, 6))]
        kind = r.choice([LineString3d, LineString3d, Polygon3d, LineString2d, Polygon2d])
        i, at = getId(), rattr(r)
        lst = [p.obj for p in pts]
        args = lst if r.random() < 0.7 else tuple(lst)
        o = kind(i, args, AttributeMap(at))
        lst.append(None)  # changing the python list afterwards has no influence
        objs.append([kind, o, pts, at, i, False])
    for step in range(r.randrange(3, 12)):
        ob = r.choice(objs)
        kind, o, pts, at, i, _ = ob
        op = r.randrange(13)
        n = len(pts)
        new = r.choice(pool)
        newobj = new.obj if o.__class__.__name__.endswith("3d") else Point2d(new.obj)
        if op <= 1:
            o.append(newobj)
            pts.append(new)
            what = "append"
        elif op <= 3:
            k = r.choice([n, -n - 1, n + 5]) if r.random() < 0.15 or n == 0 else r.randrange(-n, n)
            what = "setitem %d of %d" % (k, n)
            if -n <= k < n:
                o[k] = newobj
                pts[k] = new
            else:
                c.raises(lambda: o.__setitem__(k, newobj), IndexError, "setitem-error", what)
        elif op <= 5:
            k = r.choice([n, -n - 1, n + 5]) if r.random() < 0.15 or n == 0 else r.randrange(-n, n)
            what = "delitem %d of %d" % (k, n)
            if -n <= k < n:
                del o[k]
                del pts[k]
            else:
                c.raises(lambda: o.__delitem__(k), IndexError, "delitem-error", what)
        elif op == 6 and n:
            what = "hold"
            k = r.randrange(-n, n)
            held.append((o[k], pts[k]))
        elif op == 7 and n:
            what = "hold by iteration"
            for q, w in zip(o, pts):
                held.append((q, w))
                break
        elif op == 8:
            what = "move a point"
            p = r.choice(pool)
            via = [q for q, w in held if w is p and isinstance(q, (Point3d, Point2d))]
            q = r.choice(via) if via else p.obj
            p.x = coord(r)
            q.x = p.x
            if r.random() < 0.5:
                p.y = coord(r)
                q.y = p.y
            if hasattr(q, "z"):
                p.z = coord(r)
                q.z = p.z
        elif op == 9:
            what = "point attribute"
            p = r.choice(pool)
            k, v = r.choice(KEYS), r.choice(["v1", "v2"])
            p.attrs[k] = v
            p.obj.attributes[k] = v
        elif op == 10:
            what = "line attribute"
            k, v = r.choice(KEYS), r.choice(["v1", "v2"])
            at[k] = v
            o.attributes[k] = v
        elif op == 11:
            what = "change ids"
            p = r.choice(pool)
            p.id = getId()
            p.obj.id = p.id
        else:
            what = "append through a second view"
            if kind is LineString3d:
                inv = o.invert()
                inv.append(new.obj)  # the end of the inverted view is the start of the line
                pts.insert(0, new)
                if r.random() < 0.3 and len(pts) > 1:
                    del inv[0]
                    del pts[-1]
            elif kind is LineString2d:
                LineString3d(o).append(new.obj)
                pts.append(new)
        c.ev("line-op")
        for kind2, o2, pts2, at2, i2, _ in objs:
            nm = kind2.__name__
            w = "%s after %s" % (nm, what)
            check_points(c, o2, pts2, w, nm)
            c.eq(o2.id, i2, "id:" + nm, w)
            c.eq(dict(o2.attributes.items()), at2, "attributes:" + nm, w)
            c.eq(hash(o2), hash(o2), "hash", w)
            if kind2 is LineString3d:
                inv = o2.invert()
                check_points(c, inv, pts2[::-1], w + ", inverted", "inverted")
                c.check(inv.inverted() and not o2.inverted(), "inverted-flag", w)
                check_points(c, inv.invert(), pts2, w + ", inverted twice", "inverted2")
                check_points(c, LineString2d(o2), pts2, w + ", LineString2d", "as2d")
                check_points(c, to2D(o2), pts2, w + ", to2D", "to2D")
                check_points(c, to2D(inv), pts2[::-1], w + ", to2D inverted", "to2Dinv")
                check_basic(c, ConstHybridLineString3d(o2), pts2, w + ", hybrid", "hybrid3", 3)
                check_basic(c, ConstHybridLineString2d(to2D(o2)), pts2, w + ", hybrid2d", "hybrid2", 2)
                check_points(c, ConstLineString2d(o2), pts2, w + ", const2d", "const2d")
                c.check(inv.invert() == o2 and LineString3d(to2D(o2)) == o2, "eq", w)
            elif kind2 is LineString2d:
                check_points(c, to3D(o2), pts2, w + ", to3D", "to3D")
                check_points(c, o2.invert(), pts2[::-1], w + ", inverted", "inverted2d")
                check_points(c, ConstLineString3d(o2), pts2, w, "const3d")
            elif kind2 is Polygon3d:
                check_points(c, to2D(o2), pts2, w + ", to2D", "polyto2D")
                check_basic(c, ConstHybridPolygon3d(o2), pts2, w + ", hybrid", "hybridpoly", 3)
            else:
                check_points(c, to3D(o2), pts2, w + ", to3D", "polyto3D")
        for q, w in held:
            c.check(w.same(q), "held", lambda: "element obtained earlier after %s: %r, expected id %d %r" % (what, q, w.id, (w.x, w.y, w.z)))
            b = q.basicPoint()
            c.check(b.x == w.x and b.y == w.y, "basicPoint", lambda: "after " + what)
        ls3 = [o3 for o3 in objs if o3[0] is LineString3d]
        if ls3:
            pick = [r.choice(ls3) for _ in range(r.randrange(1, 4))]
            inv = [r.random() < 0.3 for _ in pick]
            parts = [o3[1].invert() if f else o3[1] for o3, f in zip(pick, inv)]
            want = dedup([x for o3, f in zip(pick, inv) for x in (o3[2][::-1] if f else o3[2])])
            cmp3 = CompoundLineString3d(parts)
            check_points(c, cmp3, want, "compound after " + what, "compound")
            c.eq(list(cmp3.ids()), [o3[4] for o3 in pick], "compound-ids", what)
            c.eq([x.id for x in cmp3.lineStrings()], [o3[4] for o3 in pick], "compound-lines", what)
            check_points(c, CompoundLineString2d([to2D(x) for x in parts]), want, "compound 2d after " + what, "compound2d")
            check_points(c, CompoundPolygon3d(parts), want, "compound polygon after " + what, "compound-polygon")
            check_points(c, CompoundPolygon2d([to2D(x) for x in parts]), want, "compound polygon after " + what, "compound-polygon2d")
        c.sig("lines", [(o2[0].__name__, [pool.index(p) for p in o2[2]]) for o2 in objs])
    keep = [q for q, w in held]
    want = [w for q, w in held]
    for o2 in objs:
        o2[1] = None
    for p in pool:
        p.obj = None
    gc.collect()
    for q, w in zip(keep, want):
        c.check(w.same(q), "held-after-owner", "element held after its line was released")
    c.ev("held", len(keep))


@scenario
def attributes(c):
    r = c.rng
    owners = []
    shared = AttributeMap(rattr(r))
    for _ in range(3):
        at = rattr(r)
        k = r.randrange(4)
        if k == 0:
            o = Point3d(getId(), 0, 0, 0, AttributeMap(at))
        elif k == 1:
            o = LineString3d(getId(), [], at)  # dicts are accepted where an AttributeMap is
        elif k == 2:
            o = Polygon3d(getId(), [], AttributeMap(at))
        else:
            o = Lanelet(getId(), LineString3d(getId(), []), LineString3d(getId(), []), AttributeMap(at))
        owners.append([o, dict(at), o.attributes])
    bare = [Point3d(getId(), 0, 0, 0), Point3d(getId(), 1, 1, 1)]
    for step in range(r.randrange(4, 15)):
        ow = r.choice(owners)
        o, model, early = ow
        k, v = r.choice(KEYS), r.choice(["v", "w", "", "\u00e4\u20ac", "a'b"])
        op = r.randrange(7)
        via = early if r.random() < 0.5 else o.attributes
        if op <= 1:
            via[k] = v
            model[k] = v
        elif op == 2:
            if k in model:
                del via[k]
                del model[k]
        elif op == 3:
            o.attributes = AttributeMap(dict(model, **{k: v}))
            model[k] = v
        elif op == 4:
            other = r.choice(owners)
            o.attributes = other[0].attributes  # a copy: the two stay independent
            ow[1] = dict(other[1])
            model = ow[1]
        elif op == 5:
            got = dict(via)
            got["unrelated"] = "1"
        else:
            d = dict(model)
            o.attributes = d
            d["later"] = "1"
        for o2, m2, e2 in owners:
            for am in (o2.attributes, e2):
                c.eq(len(am), len(m2), "attr-len")
                c.eq(dict(zip(am.keys(), am.values())), m2, "attr-keys-values")
                c.eq(sorted(am.keys()), sorted(m2), "attr-keys")
                c.eq(dict(am.items()), m2, "attr-items")
                c.eq(dict(am), m2, "attr-dict")
                for k2 in KEYS:
                    c.eq(k2 in am, k2 in m2, "attr-in", repr(k2))
                    if k2 in m2:
                        c.eq(am[k2], m2[k2], "attr-get", repr(k2))
                    else:
                        c.raises(lambda: am[k2], KeyError, "attr-missing", repr(k2))
                c.check(am == AttributeMap(m2), "attr-eq", lambda: "%r vs %r" % (am, m2))
                c.check(not (am != AttributeMap(m2)), "attr-ne")
                c.check(am != AttributeMap(dict(m2, zz="1")), "attr-differs")
                c.check(eval(repr(am)) == am, "attr-repr", lambda: repr(am))
            c.sig("attr", sorted(m2.items()))
        c.ev("attr-op")
        for b in bare:
            c.eq(len(b.attributes), 0, "default-attributes", "an object created without attributes")


def mkline(r, n=None, attrs=None):
    return LineString3d(getId(), [Point3d(getId(), coord(r), coord(r), coord(r)) for _ in range(n or r.randrange(2, 5))],
                        AttributeMap(attrs or {}))


def ids(seq):
    return [x.id for x in seq]


def mksign(r, t="de205"):
    at = {"type": "traffic_sign", "subtype": t}
    pts = [Point3d(getId(), coord(r), coord(r), 2.) for _ in range(3)]
    return (Polygon3d if r.random() < 0.5 else LineString3d)(getId(), pts, AttributeMap(at))


def mkregelem(r, lls):
    k = r.randrange(5)
    at = rattr(r)
    if k == 0:
        return TrafficLight(getId(), AttributeMap(at), [mkline(r)], mkline(r))if r.random() < .5 else \
            TrafficLight(getId(), AttributeMap(at), [mkline(r), mksign(r)])
    if k == 1 and lls:
        return RightOfWay(getId(), AttributeMap(at), [r.choice(lls)], [r.choice(lls)])
    if k == 2 and lls:
        return AllWayStop(getId(), AttributeMap(at), [LaneletWithStopLine(r.choice(lls), mkline(r))])
    if k == 3:
        return SpeedLimit(getId(), AttributeMap(at), TrafficSignsWithType([mksign(r, "de274")]))
    return TrafficSign(getId(), AttributeMap(at), TrafficSignsWithType([mksign(r)]))


KINDS = dict(trafficLights=TrafficLight, trafficSigns=TrafficSign, speedLimits=SpeedLimit, rightOfWay=RightOfWay,
             allWayStop=AllWayStop)


@scenario
def lanelets(c):
    r = c.rng
    lls = []
    for _ in range(r.randrange(1, 4)):
        le, ri, at = mkline(r), mkline(r), rattr(r)
        i = getId()
        o = Lanelet(i, le, ri, AttributeMap(at))
        lls.append(dict(o=o, l=le, r=ri, at=at, id=i, re=[], center=None))
    helds = []
    for step in range(r.randrange(3, 10)):
        m = r.choice(lls)
        o = m["o"]
        view = r.choice([o, o.invert(), o.invert().invert()])
        op = r.randrange(10)
        what = op
        if op == 0:
            new = mkline(r)
            view.leftBound = new
            if view.inverted():
                m["r"] = new.invert()
            else:
                m["l"] = new
        elif op == 1:
            new = mkline(r)
            view.rightBound = new
            if view.inverted():
                m["l"] = new.invert()
            else:
                m["r"] = new
        elif op == 2:
            new = mkline(r)
            o.centerline = new
            m["center"] = new
        elif op in (3, 4):
            re = mkregelem(r, [x["o"] for x in lls])
            view.addRegulatoryElement(re)
            m["re"].append(re)
        elif op == 5 and m["re"]:
            k = r.randrange(len(m["re"]))
            c.eq(view.removeRegulatoryElement(m["re"][k]), True, "remove-regelem")
            del m["re"][k]
        elif op == 6:
            c.eq(view.removeRegulatoryElement(mkregelem(r, [])), False, "remove-unknown-regelem")
        elif op == 7:
            b = view.leftBound
            p = Point3d(getId(), coord(r), coord(r), 0)
            b.append(p)
        elif op == 8:
            m["id"] = getId()
            view.id = m["id"]
        else:
            helds.append((ConstLanelet(view), m, view.inverted()))
        c.ev("lanelet-op")
        for m2 in lls:
            o2 = m2["o"]
            for v in (o2, o2.invert(), ConstLanelet(o2), ConstLanelet(o2.invert())) + tuple(
                    h for h, mm, _ in helds if mm is m2):
                inv = v.inverted()
                wl, wr = (m2["r"].invert(), m2["l"].invert()) if inv else (m2["l"], m2["r"])
                w = "lanelet %s inverted %s after %s" % (type(v).__name__, inv, what)
                c.eq(v.id, m2["id"], "ll-id", w)
                c.eq((v.leftBound.id, v.leftBound.inverted()), (wl.id, wl.inverted()), "left-bound", w)
                c.eq((v.rightBound.id, v.rightBound.inverted()), (wr.id, wr.inverted()), "right-bound", w)
                c.eq(ids(v.leftBound), ids(wl), "left-points", w)
                c.eq(ids(v.rightBound), ids(wr), "right-points", w)
                c.eq(dict(v.attributes.items()), m2["at"], "ll-attributes", w)
                c.eq(ids(v.regulatoryElements), ids(m2["re"]), "regelems", w)
                c.eq([type(x) for x in v.regulatoryElements], [type(x) for x in m2["re"]], "regelem-types", w)
                for fn, cls in KINDS.items():
                    want = [x.id for x in m2["re"] if isinstance(x, cls)]
                    c.eq(ids(getattr(v, fn)()), want, "typed:" + fn, w)
                c.check(v == o2 or inv, "ll-eq", w)
                if m2["center"] is not None:
                    cl = m2["center"].invert() if inv else m2["center"]
                    c.eq(ids(v.centerline), ids(cl), "centerline", w)
                elif v.centerline.id != 0:
                    c.fail("centerline-custom", w)
                want = dedup(ids(m2["l"]) + ids(m2["r"])[::-1])
                got = ids(v.polygon3d())
                c.eq(got, want, "polygon", w)
                c.eq(ids(v.polygon2d()), want, "polygon2d", w)
            seq = LaneletSequence([o2])
            c.eq((len(seq), ids(seq), seq[0].id, seq[-1].id), (1, [m2["id"]], m2["id"], m2["id"]), "sequence")
            c.sig("ll", len(m2["re"]), [type(x).__name__ for x in m2["re"]], len(m2["l"]), m2["center"] is not None)
    # text and back
    m = r.choice(lls)
    if not m["re"]:
        e = eval(repr(m["o"]))
        c.eq((e.id, ids(e.leftBound), ids(e.rightBound), dict(e.attributes.items())),
             (m["id"], ids(m["l"]), ids(m["r"]), m["at"]), "repr")
    else:
        for x in m["re"]:
            c.check(str(x.id) in repr(x) and type(x).__name__ in repr(x), "regelem-repr", lambda: repr(x))
        c.check(str(m["id"]) in repr(m["o"]), "ll-repr")


def ruleparams(c, re, want, what):
    """parameters/roles/find against role -> list of ids (None: expired lanelet)"""
    got = re.parameters
    c.eq(sorted(got.keys()), sorted(re.roles), "roles", what)
    c.eq(sorted(k for k in got.keys() if len(got[k])), sorted(want), "parameters", what)
    for role, wl in want.items():
        gl = [x if x is None else x.id for x in got[role]]
        c.eq(gl, wl, "parameter-list", "%s %s" % (what, role))
        for w in wl:
            if w is not None:
                f = re.find(w)
                c.check(f is not None and f.id == w, "find", lambda: "%s %s: %r" % (what, w, f))
    c.check(re.find(getId()) is None, "find-missing", what)
    c.eq(len(re), len(re.roles), "regelem-len", what)
    c.check(str(re.id) in repr(re), "regelem-repr")


def nz(d):
    return {k: v for k, v in d.items() if v}


@scenario
def regelems(c):
    r = c.rng
    lls = [Lanelet(getId(), mkline(r), mkline(r)) for _ in range(4)]
    k = r.randrange(4)
    i, at = getId(), {"x": "1"}
    ops = r.randrange(3, 10)
    seen = []
    if k == 0:
        lights = [mksign(r) for _ in range(r.randrange(1, 3))]
        stop = mkline(r) if r.random() < .5 else None
        re = TrafficLight(i, AttributeMap(at), list(lights), stop) if stop is not None or r.random() < .5 else \
            TrafficLight(i, AttributeMap(at), list(lights))
        for _ in range(ops):
            op = r.randrange(5)
            if op == 0:
                n = mksign(r)
                re.addTrafficLight(n)
                lights.append(n)
            elif op == 1 and lights:
                n = r.choice(lights)
                c.eq(re.removeTrafficLight(n), True, "tl-remove")
                lights = [x for x in lights if x.id != n.id]
            elif op == 2:
                c.eq(re.removeTrafficLight(mksign(r)), False, "tl-remove-unknown")
            elif op == 3:
                stop = mkline(r)
                re.stopLine = stop
            else:
                stop = None
                re.removeStopLine()
            c.eq(ids(re.trafficLights), ids(lights), "tl-lights")
            c.eq([type(x) for x in re.trafficLights], [type(x) for x in lights], "tl-types")
            c.eq(re.stopLine and re.stopLine.id, stop and stop.id, "tl-stop")
            ruleparams(c, re, nz(dict(refers=ids(lights), ref_line=[stop.id] if stop else [])), "TrafficLight")
            c.sig("tl", len(lights), stop is not None)
    elif k == 1:
        row, yld = r.sample(lls, r.randrange(1, 3)), r.sample(lls, r.randrange(1, 3))
        stop = mkline(r) if r.random() < .5 else None
        re = RightOfWay(i, AttributeMap(at), list(row), list(yld), stop) if stop else \
            RightOfWay(i, AttributeMap(at), list(row), list(yld))
        for _ in range(ops):
            op = r.randrange(6)
            n = r.choice(lls)
            if op == 0:
                re.addRightOfWayLanelet(n)
                row.append(n)
            elif op == 1:
                re.addYieldLanelet(n)
                yld.append(n)
            elif op == 2:
                had = any(x.id == n.id for x in row)
                c.eq(re.removeRightOfWayLanelet(n), had, "row-remove")
                if had:
                    row = row_removed(row, n)
            elif op == 3:
                had = any(x.id == n.id for x in yld)
                c.eq(re.removeYieldLanelet(n), had, "yield-remove")
                if had:
                    yld = row_removed(yld, n)
            elif op == 4:
                stop = mkline(r)
                re.stopLine = stop
            else:
                stop = None
                re.removeStopLine()
            c.eq(ids(re.rightOfWayLanelets()), ids(row), "row-lanelets")
            c.eq(ids(re.yieldLanelets()), ids(yld), "yield-lanelets")
            c.eq(re.stopLine and re.stopLine.id, stop and stop.id, "row-stop")
            for x in lls:
                inr, iny = x.id in ids(row), x.id in ids(yld)
                if not (inr and iny):
                    want = ManeuverType.RightOfWay if inr else ManeuverType.Yield if iny else ManeuverType.Unknown
                    c.eq(re.getManeuver(x), want, "maneuver")
            ruleparams(c, re, nz({"right_of_way": ids(row), "yield": ids(yld), "ref_line": [stop.id] if stop else []}),
                       "RightOfWay")
            c.sig("row", ids(row).__len__(), len(yld), stop is not None)
        if r.random() < 0.5:  # the element does not keep its lanelets alive: they turn into None
            gone = r.choice(lls).id
            lls = [x for x in lls if x.id != gone]
            row2 = [None if x.id == gone else x.id for x in row]
            yld2 = [None if x.id == gone else x.id for x in yld]
            keep = [x for x in row + yld if x.id != gone]
            row = yld = n = x = None
            gc.collect()
            ruleparams(c, re, nz({"right_of_way": row2, "yield": yld2, "ref_line": [stop.id] if stop else []}),
                       "RightOfWay with a released lanelet")
            c.eq(ids(re.rightOfWayLanelets()), [v for v in row2 if v is not None], "row-lanelets-released")
            c.ev("released-lanelet")
    elif k == 2:
        ent = [(x, mkline(r)) for x in r.sample(lls, r.randrange(1, 4))]
        signs = [mksign(r) for _ in range(r.randrange(0, 3))]
        lws = [LaneletWithStopLine(x, s) for x, s in ent]
        for w, (x, s) in zip(lws, ent):
            c.eq((w.lanelet.id, w.stopLine.id), (x.id, s.id), "lanelet-with-stop-line")
        re = AllWayStop(i, AttributeMap(at), lws, list(signs)) if signs or r.random() < .5 else \
            AllWayStop(i, AttributeMap(at), lws)
        for _ in range(ops):
            op = r.randrange(4)
            n = r.choice(lls)
            if op == 0 and n.id not in [x.id for x, s in ent]:
                s = mkline(r)
                re.addLanelet(LaneletWithStopLine(n, s))
                ent.append((n, s))
            elif op == 1:
                had = n.id in [x.id for x, s in ent]
                c.eq(re.removeLanelet(n), had, "aws-remove")
                ent = [(x, s) for x, s in ent if x.id != n.id]
            elif op == 2:
                s = mksign(r)
                re.addTrafficSign(s)
                signs.append(s)
            elif signs:
                s = r.choice(signs)
                c.eq(re.removeTrafficSign(s), True, "aws-remove-sign")
                signs = [x for x in signs if x.id != s.id]
            c.eq(ids(re.lanelets()), [x.id for x, s in ent], "aws-lanelets")
            c.eq(ids(re.stopLines()), [s.id for x, s in ent], "aws-stops")
            c.eq(ids(re.trafficSigns()), ids(signs), "aws-signs")
            c.sig("aws", len(ent), len(signs))
        w = LaneletWithStopLine(lls[0])
        c.check(w.stopLine is None, "no-stop-line")
        s = mkline(r)
        w.stopLine = s
        c.eq(w.stopLine.id, s.id, "set-stop-line")
        w.stopLine = None
        c.check(w.stopLine is None, "clear-stop-line")
        cw = ConstLaneletWithStopLine(lls[0], s) if r.random() < .5 else ConstLaneletWithStopLine(lanelet=lls[0], stopLine=s)
        c.eq((cw.lanelet.id, cw.stopLine.id), (lls[0].id, s.id), "const-lanelet-with-stop-line")
        c.check(ConstLaneletWithStopLine(lls[0]).stopLine is None, "const-no-stop-line")
    else:
        t, tc = r.choice(["de205", "de274-50", "usR1-1"]), "de282"
        cls = r.choice([TrafficSign, SpeedLimit])
        signs = [mksign(r) for _ in range(r.randrange(1, 3))]
        canc = [mksign(r) for _ in range(r.randrange(0, 2))]
        ref = [mkline(r) for _ in range(r.randrange(0, 3))]
        cref = [mkline(r) for _ in range(r.randrange(0, 2))]
        st, sc = TrafficSignsWithType(list(signs), t), TrafficSignsWithType(list(canc), tc)
        c.eq((st.type, ids(st.trafficSigns)), (t, ids(signs)), "signs-with-type")
        re = cls(i, AttributeMap(at), st, sc, list(ref), list(cref)) if r.random() < .5 else \
            cls(id=i, attributes=AttributeMap(at), trafficSigns=st, cancellingTrafficSigns=sc, refLines=list(ref), cancelLines=list(cref))
        c.check(isinstance(re, cls), "regelem-class")
        for _ in range(ops):
            op = r.randrange(8)
            if op == 0:
                s = mksign(r)
                re.addTrafficSign(s)
                signs.append(s)
            elif op == 1 and len(signs) > 1:
                s = r.choice(signs)
                c.eq(re.removeTrafficSign(s), True, "ts-remove")
                signs = [x for x in signs if x.id != s.id]
            elif op == 2:
                s = mkline(r)
                re.addRefLine(s)
                ref.append(s)
            elif op == 3 and ref:
                s = r.choice(ref)
                c.eq(re.removeRefLine(s), True, "ts-remove-ref")
                ref = [x for x in ref if x.id != s.id]
            elif op == 4:
                s = mksign(r)
                re.addCancellingTrafficSign(TrafficSignsWithType([s], tc))
                canc.append(s)
            elif op == 5 and canc:
                s = r.choice(canc)
                c.eq(re.removeCancellingTrafficSign(s), True, "ts-remove-cancel")
                canc = [x for x in canc if x.id != s.id]
            elif op == 6:
                s = mkline(r)
                re.addCancellingRefLine(s)
                cref.append(s)
            elif cref:
                s = r.choice(cref)
                c.eq(re.removeCancellingRefLine(s), True, "ts-remove-cancel-ref")
                cref = [x for x in cref if x.id != s.id]
            c.eq(ids(re.trafficSigns()), ids(signs), "ts-signs")
            c.eq(ids(re.cancellingTrafficSigns()), ids(canc), "ts-cancel")
            c.eq(ids(re.refLines()), ids(ref), "ts-ref")
            c.eq(ids(re.cancelLines()), ids(cref), "ts-cancel-lines")
            c.sig("ts", len(signs), len(canc), len(ref), len(cref))
    c.eq((re.id, dict(re.attributes.items()).get("x")), (i, "1"), "regelem-basics")
    n = getId()
    re.id = n
    c.eq(re.id, n, "regelem-set-id")
    re.attributes["y"] = "2"
    c.eq(re.attributes["y"], "2", "regelem-attributes")
    c.ev("regelem-kind%d" % k)


def row_removed(lst, n):
    return [x for k, x in enumerate(lst) if k != next(j for j, y in enumerate(lst) if y.id == n.id)]


def ring(r, cx, cy, rad, ccw):
    import math
    n = r.randrange(3, 6)
    pts = [Point3d(getId(), cx + rad * math.cos(2 * math.pi * k / n), cy + rad * math.sin(2 * math.pi * k / n), 0) for k in range(n)]
    return pts if ccw else pts[::-1]


def ringlines(r, pts):
    """cuts a ring into linestrings sharing their end points"""
    k = r.randrange(1, len(pts))
    out = [LineString3d(getId(), pts[:k + 1]), LineString3d(getId(), pts[k:] + [pts[0]])]
    return out


def holeids(h):
    return [ids(x) for x in h]


@scenario
def areas(c):
    r = c.rng
    outer = ringlines(r, ring(r, 0, 0, 100, False))
    holes = [ringlines(r, ring(r, 10. * k, 0, 2, True)) for k in range(r.randrange(0, 3))]
    i, at = getId(), rattr(r)
    a = Area(i, outer, [list(h) for h in holes], AttributeMap(at)) if r.random() < .5 else \
        Area(id=i, outerBound=outer, innerBounds=[list(h) for h in holes], attributes=AttributeMap(at))
    early = a.innerBounds
    res = []

    def polyids(lines):
        return dedup([q for l in lines for q in ids(l)])

    for _ in range(r.randrange(3, 10)):
        op = r.randrange(9)
        n = len(holes)
        via = early if r.random() < .5 else a.innerBounds
        new = ringlines(r, ring(r, coord(r) / 20, coord(r) / 20, 1, True))
        if r.random() < 0.5:
            a.innerBoundPolygons(), a.outerBoundPolygon()
        if op <= 1:
            via.append(new)
            holes.append(new)
        elif op == 2:
            k = r.randrange(-n, n) if n and r.random() < .9 else n + 1
            if k < n:
                via[k] = new
                holes[k] = new
            else:
                c.raises(lambda: via.__setitem__(k, new), IndexError, "hole-setitem")
        elif op == 3:
            k = r.randrange(-n, n) if n and r.random() < .9 else n + 1
            if k < n:
                del via[k]
                del holes[k]
            else:
                c.raises(lambda: via.__delitem__(k), IndexError, "hole-delitem")
        elif op == 4:
            holes = [list(h) for h in holes] + [new]
            a.innerBounds = holes
        elif op == 5:
            outer = ringlines(r, ring(r, coord(r) / 10, 0, 90, False))
            a.outerBound = outer
        elif op == 6:
            e = mkregelem(r, [])
            a.addRegulatoryElement(e)
            res.append(e)
        elif op == 7 and res:
            k = r.randrange(len(res))
            c.eq(a.removeRegulatoryElement(res[k]), True, "area-remove-regelem")
            del res[k]
        else:
            t = a.innerBounds[0] if n else []
            if n:
                t.append(mkline(r))  # a list of its own: the area does not change
        c.ev("area-op")
        c.eq((a.id, dict(a.attributes.items())), (i, at), "area-basics")
        c.eq(ids(a.outerBound), ids(outer), "area-outer")
        c.eq([ids(l) for l in a.outerBound], [ids(l) for l in outer], "area-outer-points")
        for ib in (a.innerBounds, early):
            c.eq(len(ib), len(holes), "area-holes-len")
            c.eq(holeids(ib), holeids(holes), "area-holes")
            c.eq(holeids([ib[k] for k in range(len(holes))]), holeids(holes), "area-holes-item")
            c.eq(holeids([ib[k - len(holes)] for k in range(len(holes))]), holeids(holes), "area-holes-negative")
            c.raises(lambda: ib[len(holes)], IndexError, "area-holes-error")
        c.eq(ids(a.outerBoundPolygon()), polyids(outer), "area-outer-polygon")
        c.eq([ids(p) for p in a.innerBoundPolygons()], [polyids(h) for h in holes], "area-inner-polygons")
        c.eq(ids(a.regulatoryElements), ids(res), "area-regelems")
        ca = ConstArea(a.id, outer, [list(h) for h in holes])
        c.eq(len(ca.innerBounds), len(holes), "const-area-holes-len")
        c.eq(holeids(ca.innerBounds), holeids(holes), "const-area-holes")
        c.eq([ids(p) for p in ca.innerBoundPolygons()], [polyids(h) for h in holes], "const-area-inner-polygons")
        c.sig("area", len(outer), [len(h) for h in holes], len(res))
    if not res:
        e = eval(repr(a))
        c.eq((e.id, ids(e.outerBound), holeids(e.innerBounds)), (i, ids(outer), holeids(holes)), "area-repr")


LAYERS = dict(pointLayer=Point3d, lineStringLayer=LineString3d, polygonLayer=Polygon3d, laneletLayer=Lanelet,
              areaLayer=Area, regulatoryElementLayer=RegulatoryElement)


@scenario
def maps(c):
    r = c.rng
    model = {k: {} for k in LAYERS}  # id -> object
    how = r.randrange(3)
    m = LaneletMap()
    used = set()

    def fresh(o):
        i = getId()
        c.check(i not in used and not any(i in d for d in model.values()), "getId-unique", lambda: "id %d handed out twice" % i)
        used.add(i)

    def put(layer, o):
        model[layer][o.id] = o

    def addpoint(p):
        put("pointLayer", p)

    def addline(l):
        put("lineStringLayer", l)
        for p in l:
            addpoint(p)

    def addparam(x):
        if isinstance(x, (Lanelet, ConstLanelet)):
            pass
        elif isinstance(x, (LineString3d, ConstLineString3d)):
            addline(x)
        elif isinstance(x, (Polygon3d, ConstPolygon3d)):
            put("polygonLayer", x)
            for p in x:
                addpoint(p)

    def addre(e):
        put("regulatoryElementLayer", e)
        ps = e.parameters
        for k in ps.keys():
            for x in ps[k]:
                addparam(x)

    def addll(l):
        put("laneletLayer", l)
        addline(l.leftBound)
        addline(l.rightBound)
        for e in l.regulatoryElements:
            addre(e)

    def addarea(a):
        put("areaLayer", a)
        for l in a.outerBound:
            addline(l)
        for h in a.innerBounds:
            for l in h:
                addline(l)
        for e in a.regulatoryElements:
            addre(e)

    def mkll():
        l = Lanelet(getId(), mkline(r), mkline(r), AttributeMap(rattr(r)))
        if r.random() < .4:
            l.addRegulatoryElement(r.choice([lambda: TrafficLight(getId(), AttributeMap(), [mkline(r)]),
                                             lambda: SpeedLimit(getId(), AttributeMap(), TrafficSignsWithType([mksign(r, "de274")]))])())
        return l

    def mkarea():
        a = Area(getId(), ringlines(r, ring(r, coord(r), coord(r), 10, False)))
        if r.random() < .3:
            a.innerBounds.append(ringlines(r, ring(r, 0, 0, 1, True)))
        return a

    if how == 0:
        new = [mkll() for _ in range(r.randrange(0, 3))]
        m = createMapFromLanelets(new)
        for l in new:
            addll(l)
    elif how == 1:
        new = [mkarea() for _ in range(r.randrange(0, 3))]
        m = createMapFromAreas(new)
        for a in new:
            addarea(a)
    lays = {k: getattr(m, k) for k in LAYERS}  # held from the beginning
    for step in range(r.randrange(2, 9)):
        op = r.randrange(7)
        if op == 0:
            p = Point3d(getId(), coord(r), coord(r), 0)
            m.add(p)
            addpoint(p)
        elif op == 1:
            l = mkline(r)
            if model["pointLayer"] and r.random() < .5:
                l.append(Point3d_of(r.choice(sorted(model["pointLayer"])), m))
            m.add(l)
            addline(l)
        elif op == 2:
            l = Polygon3d(getId(), [Point3d(getId(), coord(r), coord(r), 0) for _ in range(3)])
            m.add(l)
            put("polygonLayer", l)
            for p in l:
                addpoint(p)
        elif op == 3:
            l = mkll()
            m.add(l)
            addll(l)
        elif op == 4:
            a = mkarea()
            m.add(a)
            addarea(a)
        elif op == 5:
            e = TrafficLight(getId(), AttributeMap(), [mkline(r)])
            m.add(e)
            addre(e)
        else:
            p = Point3d(0, coord(r), coord(r), 0)
            m.add(p)
            c.check(p.id != 0 and p.id not in model["pointLayer"], "assigned-id")
            addpoint(p)
        c.ev("map-op")
        n = getId()
        c.check(not any(n in d for d in model.values()), "getId-used", lambda: "getId() returned %d which is in the map" % n)
        for name, lay in lays.items():
            d = model[name]
            c.eq(len(lay), len(d), "layer-len:" + name)
            got = {x.id: x for x in lay}
            c.eq(sorted(got), sorted(d), "layer-iter:" + name)
            for i2 in list(d)[:5]:
                o = lay.get(i2)
                c.check(o == d[i2] and lay[i2] == d[i2] and i2 in lay and lay.exists(i2) and o in lay, "layer-get:" + name)
                c.check(isinstance(o, LAYERS[name]), "layer-type:" + name, lambda: repr(type(o)))
            bad = getId()
            c.check(bad not in lay and not lay.exists(bad), "layer-absent:" + name)
            c.raises(lambda: lay.get(bad), RuntimeError, "layer-get-absent:" + name)
            u = lay.uniqueId()
            c.check(u not in d, "layer-uniqueId:" + name)
            c.sig("map", name, len(d))
        x, y = coord(r), coord(r)
        pl = lays["pointLayer"]
        near = pl.nearest(BasicPoint2d(x, y), 3)
        dd = sorted(((q.x - x) ** 2 + (q.y - y) ** 2) ** .5 for q in model["pointLayer"].values())
        c.eq(len(near), min(3, len(dd)), "nearest-count")
        for k, q in enumerate(sorted(near, key=lambda q: (q.x - x) ** 2 + (q.y - y) ** 2)):
            c.near(((q.x - x) ** 2 + (q.y - y) ** 2) ** .5, dd[k], "nearest-points")
        hi = BasicPoint2d(x + abs(coord(r)), y + abs(coord(r)))
        found = sorted(ids(pl.search(BoundingBox2d(BasicPoint2d(x, y), hi))))
        want = sorted(q.id for q in model["pointLayer"].values() if x <= q.x <= hi.x and y <= q.y <= hi.y)
        c.eq(found, want, "search-points")
        for name, key in (("lineStringLayer", "line"), ("polygonLayer", "poly")):
            for q in list(model["pointLayer"].values())[:4]:
                want = sorted(o.id for o in model[name].values() if q.id in ids(o))
                c.eq(sorted(ids(lays[name].findUsages(q))), want, "usages:" + name)
        for l in list(model["lineStringLayer"].values())[:6]:
            want = sorted(o.id for o in model["laneletLayer"].values() if l.id in (o.leftBound.id, o.rightBound.id))
            c.eq(sorted(ids(lays["laneletLayer"].findUsages(l))), want, "usages:lanelet")
            want = sorted(o.id for o in model["areaLayer"].values()
                          if l.id in ids(o.outerBound) or any(l.id in ids(h) for h in o.innerBounds))
            c.eq(sorted(ids(lays["areaLayer"].findUsages(l))), want, "usages:area")
        for e in list(model["regulatoryElementLayer"].values())[:4]:
            want = sorted(o.id for o in model["laneletLayer"].values() if e.id in ids(o.regulatoryElements))
            c.eq(sorted(ids(lays["laneletLayer"].findUsages(e))), want, "usages:regelem")
    big = max((max(d) for d in model.values() if d), default=0) + r.randrange(1, 50)
    registerId(big)
    c.check(getId() != big, "registerId")
    sel = list(model["laneletLayer"].values())[:2]
    if sel:
        sub = createSubmapFromLanelets(sel)
        c.eq(sorted(ids(sub.laneletLayer)), sorted(ids(sel)), "submap")
        c.eq(len(sub.pointLayer), 0, "submap-points")
        full = sub.laneletMap()
        c.eq(sorted(ids(full.laneletLayer)), sorted(ids(sel)), "submap-map")
        want = set()
        for l in sel:
            want |= set(ids(l.leftBound)) | set(ids(l.rightBound))
        c.check(want <= set(ids(full.pointLayer)), "submap-map-points")
    # layers and elements keep what they need alive
    lay = lays["pointLayer"]
    some = list(model["lineStringLayer"].values())[:3]
    want = [ids(s) for s in some]
    wantp = sorted(model["pointLayer"])
    m = None
    lays = None
    model = None
    gc.collect()
    c.eq(sorted(ids(lay)), wantp, "layer-outlives-map")
    c.eq([ids(s) for s in some], want, "element-outlives-map")


def Point3d_of(i, m):
    return m.pointLayer.get(i)


@scenario
def basics(c):
    r = c.rng
    for _ in range(10):
        x, y, z, x2, y2, z2, f = (coord(r) for _ in range(7))
        f = f or 2.
        a, b = BasicPoint2d(x, y), BasicPoint2d(x2, y2)
        A, B = BasicPoint3d(x, y, z), BasicPoint3d(x2, y2, z2)
        g2 = lambda p: (p.x, p.y)
        g3 = lambda p: (p.x, p.y, p.z)
        c.eq(g2(a + b), (x + x2, y + y2), "add2")
        c.eq(g2(a - b), (x - x2, y - y2), "sub2")
        c.eq(g2(a * f), (x * f, y * f), "mul2")
        c.eq(g2(f * a), (x * f, y * f), "rmul2")
        c.eq(g2(a / f), (x / f, y / f), "div2")
        c.eq(g3(A + B), (x + x2, y + y2, z + z2), "add3")
        c.eq(g3(A - B), (x - x2, y - y2, z - z2), "sub3")
        c.eq(g3(A * f), (x * f, y * f, z * f), "mul3")
        c.eq(g3(f * A), (x * f, y * f, z * f), "rmul3")
        c.eq(g3(A / f), (x / f, y / f, z / f), "div3")
        a.x, a.y = y2, x2
        c.eq(g2(a), (y2, x2), "set2")
        A.x, A.y, A.z = z2, y2, x2
        c.eq(g3(A), (z2, y2, x2), "set3")
        c.eq((g2(BasicPoint2d()), g3(BasicPoint3d()), g2(BasicPoint2d(y=y)), g3(BasicPoint3d(z=z))),
             ((0, 0), (0, 0, 0), (0, y), (0, 0, z)), "defaults")
        lo, hi = BasicPoint2d(min(x, x2), min(y, y2)), BasicPoint2d(max(x, x2), max(y, y2))
        bb = BoundingBox2d(min=lo, max=hi)
        mn = bb.min
        c.eq((g2(bb.min), g2(bb.max)), (g2(lo), g2(hi)), "box2")
        bb.min = BasicPoint2d(-1e4, -1e4)
        mn.y = -2e4
        c.eq(g2(bb.min), (-1e4, -2e4), "box2-live")
        bb = None
        c.eq(g2(mn), (-1e4, -2e4), "box2-held")
        b3 = BoundingBox3d(BasicPoint3d(-1, -2, -3), B)
        b3.max = A
        b3.max.z = 77.
        c.eq((g3(b3.min), g3(b3.max)), ((-1, -2, -3), (A.x, A.y, 77.)), "box3")
        gp = GPSPoint(lat=x, lon=y, ele=z)
        c.eq((gp.lat, gp.lon, gp.ele, gp.alt), (x, y, z, z), "gps")
        gp.alt = 5.
        gp.lat = 1.
        c.eq((gp.lat, gp.ele), (1., 5.), "gps-set")
        p2 = Point2d(getId(), x, y)
        p3 = Point3d(p2)
        p3.z = z
        c.eq((to3D(p2).z, p2.id == p3.id, p2 == Point2d(p3)), (z, True, True), "shared-2d-3d")
        c.eq((Point3d().id, g3(Point3d())), (0, (0, 0, 0)), "default-point")
        e = eval(repr(Point3d(5, 1, 2, 3, AttributeMap({"k": "v"}))))
        c.eq((e.id, g3(e), dict(e.attributes.items())), (5, (1, 2, 3), {"k": "v"}), "point-repr")
        c.eq(repr(eval(repr(BasicPoint2d(1, 2)))), "BasicPoint2d(1, 2)", "basic-repr")
        for mk in (lambda: Point3d("a", 1, 2), lambda: LineString3d(1, [1, 2]), lambda: Lanelet(1, None, None),
                   lambda: LineString3d(1, [Point3d(1, 0, 0, 0), "x"]), lambda: AttributeMap({1: "x"}), lambda: AttributeMap({"x": 1})):
            try:
                mk()
            except Exception as ex:
                c.check(isinstance(ex, (TypeError, KeyError)) or "ArgumentError" in type(ex).__name__, "bad-argument", repr(ex))
                c.evaluations += 1
            else:
                c.fail("bad-argument-accepted", "no exception")
        c.sig("basics", round(x), round(y))
    c.ev("basics")
