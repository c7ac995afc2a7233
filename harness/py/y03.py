"""Y03: the command line tools of the python package do what they say to any map file.

The tools are run as scripts from /repo on generated map files; files and output are read back and compared with a plain
python description of the map that was written."""
import contextlib, io as pyio, os, re, runpy, shutil, sys, tempfile
import lanelet2
from lanelet2.core import *
import lanelet2.io as io
import lanelet2.projection as projection
import lanelet2.routing as routing
import lanelet2.traffic_rules as tr

SCRIPTS = "/repo/lanelet2_python/scripts"
RULE = ("each case writes one generated map (ids of both signs, every layer, shared points and lines, nested references) and runs "
        "one tool on it; distinct_nontrivial counts distinct maps and results compared")


def num_cases(thorough):
    return 60000 if thorough else 5000


def tool(name, *args):
    """output and exit code of the tool"""
    out, code, argv = pyio.StringIO(), 0, sys.argv
    sys.argv = [os.path.join(SCRIPTS, name)] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(sys.argv[0], run_name="__main__")
    except SystemExit as e:
        code = e.code or 0
    finally:
        sys.argv = argv
    return out.getvalue(), code


class Ids:
    def __init__(self, r):
        self.r, self.used, self.mode = r, set(), r.choice(["positive", "negative", "mixed", "mixed"])

    def __call__(self):
        while True:
            i = self.r.randrange(1, self.r.choice([60, 5000, 10 ** 9]))
            if self.mode == "negative" or (self.mode == "mixed" and self.r.random() < .5):
                i = -i
            if i not in self.used:
                self.used.add(i)
                return i


def attrs(r):
    d = {}
    for _ in range(r.randrange(3)):
        d[r.choice(["name", "note", "a b", "k\u00e4se"])] = r.choice(["x", "1", "-3", "<&>\"'", "\u00fcber"])
    return AttributeMap(d)


def world(r, ids):
    """a row of roads with some parallel lanes plus furniture; returns the map"""
    m = LaneletMap()
    n, rows = r.randrange(1, 5), r.randrange(1, 4)
    x0, y0 = r.uniform(-300, 300), r.uniform(-300, 300)
    grid = [[Point3d(ids(), x0 + 10. * i, y0 + 4. * j, r.choice([0., 1.5, -2.25]), attrs(r)) for i in range(n + 1)] for j in range(rows + 1)]
    typ = [[r.choice(["solid", "dashed", "dashed"]) for _ in range(n)] for _ in range(rows + 1)]
    lines = []
    for j in range(rows + 1):
        row = []
        for i in range(n):
            mid = [Point3d(ids(), x0 + 10. * i + 5, y0 + 4. * j + r.uniform(-.5, .5), 0.)] if r.random() < .3 else []
            a = attrs(r)
            a["type"] = "line_thin"
            a["subtype"] = typ[j][i]
            row.append(LineString3d(ids(), [grid[j][i]] + mid + [grid[j][i + 1]], a))
        lines.append(row)
    lls = []
    for j in range(rows):
        for i in range(n):
            a = attrs(r)
            a["type"] = "lanelet"
            a["subtype"] = r.choice(["road", "road", "walkway", "bicycle_lane"])
            a["location"] = "urban"
            if r.random() < .2:
                a["one_way"] = "no"
            if r.random() < .1:
                continue
            lls.append(Lanelet(ids(), lines[j + 1][i], lines[j][i], a))
    for l in lls:
        m.add(l)
    for row in lines:
        for l in row:
            if r.random() < .2:
                m.add(l)
    if lls and r.random() < .5:
        sign = LineString3d(ids(), [Point3d(ids(), x0, y0 - 3, 1.), Point3d(ids(), x0 + 1, y0 - 3, 1.)], AttributeMap({"type": "traffic_sign", "subtype": "de274-60"}))
        reg = SpeedLimit(ids(), AttributeMap(), TrafficSignsWithType([sign], "de274-60"))
        for l in r.sample(lls, r.randrange(1, min(3, len(lls)) + 1)):
            l.addRegulatoryElement(reg)
        m.add(reg)
    if len(lls) > 1 and r.random() < .5:
        a, b = r.sample(lls, 2)
        reg = RightOfWay(ids(), AttributeMap(), [a], [b])
        a.addRegulatoryElement(reg)
        b.addRegulatoryElement(reg)
        m.add(reg)
    if r.random() < .4:
        P = [Point3d(ids(), x0 + u, y0 + v, 0.) for u, v in ((0., 20.), (0., 30.), (10., 30.), (10., 20.))]
        inner = []
        if r.random() < .5:
            Q = [Point3d(ids(), x0 + u, y0 + v, 0.) for u, v in ((3., 23.), (6., 23.), (6., 26.))]
            inner = [[LineString3d(ids(), Q + [Q[0]], AttributeMap())]]
        m.add(Area(ids(), [LineString3d(ids(), P[:3], AttributeMap()), LineString3d(ids(), [P[2], P[3], P[0]], AttributeMap())], inner,
                   AttributeMap({"type": "multipolygon", "subtype": r.choice(["parking", "walkway"])})))
    if r.random() < .4:
        m.add(Polygon3d(ids(), [Point3d(ids(), x0 + u, y0 - 20 + v, 0.) for u, v in ((0., 0.), (4., 0.), (2., 3.))], AttributeMap({"type": "building"})))
    if r.random() < .3:
        m.add(Point3d(ids(), x0 - 5, y0, 0., attrs(r)))
    return m


LAYERS = [("p", "Points", "pointLayer"), ("l", "Line Strings", "lineStringLayer"), ("g", "Polygons", "polygonLayer"), ("L", "Lanelets", "laneletLayer"),
          ("A", "Areas", "areaLayer"), ("r", "Regulatory Elements", "regulatoryElementLayer")]


def describe(m):
    """{kind: {id: (references by kind and id, values)}}"""
    d = {k: {} for k, _, _ in LAYERS}

    def a(e):
        return {k: v for k, v in e.attributes.items() if k not in ("local_x", "local_y")}
    for p in m.pointLayer:
        d["p"][p.id] = ((), ((p.x, p.y, p.z), a(p)))
    for k, layer in (("l", m.lineStringLayer), ("g", m.polygonLayer)):
        for l in layer:
            d[k][l.id] = (tuple(("p", p.id) for p in l), a(l))
    for l in m.laneletLayer:
        d["L"][l.id] = ((("l", l.leftBound.id), ("l", l.rightBound.id), *sorted(("r", x.id) for x in l.regulatoryElements)), a(l))
    for x in m.areaLayer:
        d["A"][x.id] = (tuple(("l", b.id) for b in x.outerBound) + tuple(("l", b.id) for h in x.innerBounds for b in h), (len(x.outerBound), a(x)))
    for x in m.regulatoryElementLayer:
        refs = []
        for role in sorted(x.roles):
            for e in x.parameters[role]:
                t = type(e).__name__
                kind = "L" if "Lanelet" in t else "A" if "Area" in t else "g" if "Polygon" in t else "l" if "LineString" in t else "p"
                refs.append((kind, e.id))
        d["r"][x.id] = (tuple(refs), a(x))
    return d


def size(d):
    return sum(len(v) for v in d.values())


def same(c, key, a, b, ren, tol=1e-3):
    """b is a with the elements renamed"""
    for kind in a:
        c.eq(sorted(ren[kind][i] for i in a[kind]), sorted(b[kind]), key + ":ids", kind)
        for i, (refs, val) in a[kind].items():
            grefs, gval = b[kind][ren[kind][i]]
            want = [(k, ren[k][x]) for k, x in refs]
            if kind in "Lr":  # the order of regulatory elements and of the members of a role is free
                c.eq(sorted(grefs), sorted(want), key + ":references", "%s %d" % (kind, i))
                if kind == "L":
                    c.eq(list(grefs[:2]), want[:2], key + ":bounds", "%s %d" % (kind, i))
            else:
                c.eq(list(grefs), want, key + ":references", "%s %d" % (kind, i))
            if kind == "p":
                c.check(all(abs(x - y) <= tol for x, y in zip(gval[0], val[0])), key + ":coordinates", lambda: "%d: %r %r" % (i, gval[0], val[0]))
                c.eq(gval[1], val[1], key + ":attributes", "p %d" % i)
            else:
                c.eq(gval, val, key + ":attributes", "%s %d" % (kind, i))


def run(c):
    r = c.rng
    ids = Ids(r)
    m = world(r, ids)
    lat, lon = r.choice([(49, 8), (49, 8), (48.99, 8.01)])
    proj = projection.MercatorProjector(io.Origin(49, 8))
    d = tempfile.mkdtemp(prefix="ll2y03.")
    try:
        f = os.path.join(d, r.choice(["map", "a map", "k\u00e4rte"]) + ".osm")
        k = c.idx % 3
        if k == 2:
            proj = projection.UtmProjector(io.Origin(lat, lon))
        io.write(f, m, proj)
        before = describe(io.load(f, proj))  # what the tools see
        c.eq({x: sorted(v) for x, v in before.items()}, {x: sorted(v) for x, v in describe(m).items()}, "written")
        text = open(f, encoding="utf-8").read()
        c.sig(text)
        (print_ids, positive, debug_graph)[k](c, r, d, f, before, proj, ids, lat, lon)
        if k != 1:
            c.eq(open(f, encoding="utf-8").read(), text, "input-changed")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def print_ids(c, r, d, f, before, proj, ids, lat, lon):
    if r.random() < .4:
        out, code = tool("print_ids.py", f)
        want = "".join("IDs in %s\n%r\n" % (name, sorted(before[k])) for k, name, _ in LAYERS)
        c.eq((out, code), (want, 0), "print_ids:list")
        c.ev("id lists", size(before))
        return
    for _ in range(3):
        present = [(k, i) for k in before for i in before[k]]
        if r.random() < .5 and present:
            k, i = r.choice(present)
        else:
            i = ids()
        where = [name for k, name, _ in LAYERS if i in before[k]]
        out, code = tool("print_ids.py", f, *r.choice([["--has-id", i], ["--has-id=%d" % i]]))
        if where:
            c.eq((out, code), ("Found ID %d in layer %s\n" % (i, where[0]), 0), "print_ids:found")
            c.ev("ids found")
        else:
            c.eq((out, code), ("ID %d not in map\n" % i, 0), "print_ids:missing")
            c.ev("ids not in the map")


def positive(c, r, d, f, before, proj, ids, lat, lon):
    text = open(f, encoding="utf-8").read()
    if r.random() < .5:
        tool("make_ids_positive.py", *r.choice([["-i", f], [f, "--inplace"]]))
        g = f
    else:
        g = os.path.join(d, "out.osm")
        if r.random() < .3:
            open(g, "w").write("old content")
        tool("make_ids_positive.py", f, g)
        c.eq(open(f, encoding="utf-8").read(), text, "input-changed")
    after = describe(io.load(g, proj))
    c.check(all(i > 0 for v in after.values() for i in v), "make_ids_positive:negative", lambda: "%r" % {k: [i for i in v if i <= 0] for k, v in after.items()})
    # who became whom: points by position, everything else by what it refers to and its position in the file's layers
    ren = {k: {} for k in before}
    for kind, _, _ in LAYERS:
        neg = [i for i in before[kind] if i < 0]
        new = [i for i in after[kind] if i not in before[kind]]
        c.eq(len(new), len(neg), "make_ids_positive:count", kind)
        c.check(all(i in after[kind] for i in before[kind] if i > 0), "make_ids_positive:kept", kind)
        ren[kind] = {i: i for i in before[kind] if i > 0}
        if kind == "r":
            # regulatory elements refer to elements and are referred to by lanelets: settled by what they refer to
            def refs(i, table, f):
                return sorted((k, f(k, x)) for k, x in table[kind][i][0])
            for i in neg:
                cand = [j for j in new if j not in ren[kind].values() and refs(j, after, lambda k, x: x) == refs(i, before, lambda k, x: ren[k].get(x, x)) and
                        after[kind][j][1] == before[kind][i][1]]
                c.check(len(cand) >= 1, "make_ids_positive:regulatory-element", "%d" % i)
                ren[kind][i] = cand[0]
        elif kind == "p":
            for i in neg:
                q = before[kind][i][1][0]
                j = min(new, key=lambda j: (sum((x - y) ** 2 for x, y in zip(after[kind][j][1][0], q)), j in ren[kind].values()))
                ren[kind][i] = j
        else:
            def own(e):
                return [x for x in e[0] if x[0] != "r"]
            for i in neg:
                want = [(k, ren[k].get(x)) for k, x in own(before[kind][i])]
                cand = [j for j in new if own(after[kind][j]) == want and j not in ren[kind].values()]
                c.check(len(cand) >= 1, "make_ids_positive:lost", "%s %d" % (kind, i))
                ren[kind][i] = cand[0]
        c.ev("negative ids replaced", len(neg))
        c.ev("positive ids kept", len(before[kind]) - len(neg))
    same(c, "make_ids_positive", before, after, ren)


def debug_graph(c, r, d, f, before, proj, ids, lat, lon):
    who = r.choice(["vehicle", "bicycle", "pedestrian"])
    g = os.path.join(d, "graph.osm")
    args = [f, g, "--participant", who]
    if (lat, lon) != (49, 8) or r.random() < .3:
        args += ["--lat", lat, "--lon", lon]
    r.shuffle(args[:2])
    tool("create_debug_routing_graph.py", *args)
    m = io.load(f, proj)
    rules = tr.create(tr.Locations.Germany, {"vehicle": tr.Participants.Vehicle, "bicycle": tr.Participants.Bicycle, "pedestrian": tr.Participants.Pedestrian}[who])
    G = routing.RoutingGraph(m, rules, [routing.RoutingCostDistance(0.)])
    got, want = io.load(g, proj), G.getDebugLaneletMap()

    def flat(x):
        pts = {p.id: (round(p.x, 2), round(p.y, 2)) for p in x.pointLayer}
        return (sorted(pts.values()), sorted((sorted(pts[p.id] for p in l), sorted(l.attributes.items())) for l in x.lineStringLayer))
    a, b = flat(got), flat(want)
    c.eq(len(a[0]), len(b[0]), "debug_graph:points", who)
    c.check(all(abs(x - y) < .02 for p, q in zip(a[0], b[0]) for x, y in zip(p, q)) or a == b, "debug_graph:coordinates", lambda: "%r %r" % (a[0], b[0]))
    c.eq(sorted(x[1] for x in a[1]), sorted(x[1] for x in b[1]), "debug_graph:relations", who)
    c.ev("debug graph points", len(a[0]))
    c.ev("debug graph relations", len(a[1]))
