// G02: lanelet / area / polygon predicates against naive geometry. G03: polygon decompositions.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/LaneletSequence.h>

#include <sstream>

#include "gen.h"
#include "geo.h"
#include "vf.h"

namespace {
using namespace lanelet;
using geo::P2;
using geo::P3;
using vf::Ctx;
using vf::Harness;
using vf::Hash;
using vf::Rng;

struct Item {  // a lanelet, area or polygon with its plain outline
  enum K { Ll, Ar, Po } k{Ll};
  Lanelet ll;
  Area ar;
  Polygon3d po;
  geo::Poly g;
  geo::Shape sh;
  double zlo{geo::Inf}, zhi{-geo::Inf};
  bool oriented{true};  // outline given in the order the library expects
  bool simple{true};
};

void zOf(Item& i, const ConstLineString3d& l) {
  for (size_t k = 0; k < l.size(); ++k) i.zlo = std::min(i.zlo, l[k].z()), i.zhi = std::max(i.zhi, l[k].z());
}
Item item(const Lanelet& l) {
  Item i;
  i.k = Item::Ll;
  i.ll = l;
  i.g.outer = gen::ringOfLanelet(l);
  zOf(i, l.leftBound());
  zOf(i, l.rightBound());
  return i;
}
Item item(const Area& a) {
  Item i;
  i.k = Item::Ar;
  i.ar = a;
  i.g = gen::polyOfArea(a);
  for (auto& l : a.outerBound()) zOf(i, l);
  return i;
}
Item item(const Polygon3d& p) {
  Item i;
  i.k = Item::Po;
  i.po = p;
  i.g.outer = gen::ringOfPolygon(p);
  for (auto& q : p) i.zlo = std::min(i.zlo, q.z()), i.zhi = std::max(i.zhi, q.z());
  return i;
}
std::vector<const void*> ptrs(const ConstLineString3d& l) {
  std::vector<const void*> r;
  for (size_t k = 0; k < l.size(); ++k) r.push_back(l[k].constData().get());
  return r;
}
const void* pid(const ConstPoint3d& p) { return p.constData().get(); }
struct Dir {  // a border line with the direction it is used in
  const void* d;
  bool inv;
  bool operator==(const Dir& o) const { return d == o.d && inv == o.inv; }
};
Dir dir(const ConstLineString3d& l) { return {l.constData().get(), l.inverted()}; }
Dir rev(Dir d) { return {d.d, !d.inv}; }
std::vector<const void*> ringPtrs(const ConstLineStrings3d& ls) {
  std::vector<const void*> r;
  for (auto& l : ls)
    for (auto* p : ptrs(l))
      if (r.empty() || r.back() != p) r.push_back(p);
  if (r.size() > 1 && r.front() == r.back()) r.pop_back();
  return r;
}
bool sharesReversedSegment(const std::vector<const void*>& a, const std::vector<const void*>& b) {
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < b.size(); ++j)
      if (a[i] == b[(j + 1) % b.size()] && a[(i + 1) % a.size()] == b[j]) return true;
  return false;
}
bool neighbours(const ConstLanelet& a, const ConstLanelet& b) {
  // any border used by both with the lanelets on opposite sides of it, or one begins/ends at an end of the other
  auto lefts = [](const ConstLanelet& l) { return std::array<Dir, 2>{dir(l.leftBound()), rev(dir(l.rightBound()))}; };
  for (auto& x : lefts(a))
    for (auto& y : lefts(b))
      if (x == rev(y)) return true;
  using E = std::pair<const void*, const void*>;
  auto ends = [](const ConstLanelet& l) {  // seen when leaving the lanelet: left, right
    return std::array<E, 2>{E{pid(l.leftBound().back()), pid(l.rightBound().back())},
                            E{pid(l.rightBound().front()), pid(l.leftBound().front())}};
  };
  for (auto& x : ends(a))
    for (auto& y : ends(b))
      if (x.first == y.second && x.second == y.first) return true;
  return false;
}

struct G02 : Harness {
  uint64_t numCases(bool th) override { return th ? 60000 : 3500; }
  std::string rule() override {
    return "a case is a set of lanelets, areas and polygons at one place (neighbouring, following, crossing, contained, apart) whose pairs are "
           "all compared; distinct states are hashes of the outlines";
  }
  std::vector<Item> items;
  std::vector<std::vector<Lanelet>> seqs;

  void shift(Ctx& c, std::vector<Point3d>& pts, size_t from, double z, double amp) {
    for (size_t i = from; i < pts.size(); ++i) pts[i].z() = z + c.rng.d(-amp, amp);
  }
  // a lanelet that leaves another one at its end and comes back over it
  void loop(Ctx& c, gen::WorldGen& g, gen::IdSource& ids) {
    auto& r = c.rng;
    P2 o{r.d(-20, 20), r.d(-20, 20)};
    auto at = [&](double x, double y) { return g.pt({o.x + x, o.y + y}); };
    Point3d el = at(10, 2), er = at(10, -2);
    Lanelet a(ids.valid(), g.ls({at(0, 2), at(5, 2), el}), g.ls({at(0, -2), er}));
    Lanelet b(ids.valid(), g.ls({el, at(17, 1), at(17, -9), at(4, -9), at(4, 1)}), g.ls({er, at(15, -1), at(15, -7), at(6, -7), at(6, 1)}));
    for (auto* l : {&a, &b}) g.w.lanelets.push_back(r.p(.5) ? Lanelet(ids.valid(), l->rightBound().invert(), l->leftBound().invert()) : *l);
    c.event("lanelets that loop over their neighbour");
  }
  // areas around lanelets: beside, in front, behind, and further areas next to those
  void attach(Ctx& c, gen::WorldGen& g, gen::IdSource& ids) {
    auto& r = c.rng;
    std::vector<Area> made;
    auto lls = g.w.lanelets;
    for (int k = int(r.i(0, 4)); k > 0 && !lls.empty(); --k) {
      ConstLanelet cl = lls[r.idx(lls.size())];
      Lanelet ll = lls[r.idx(lls.size())];
      if (r.p(.4)) ll = ll.invert();
      LineString3d border = ll.leftBound().invert();  // an area on the left uses the bound backwards
      if (r.p(.4)) {                                   // in front
        Points3d e{ll.rightBound().back(), ll.leftBound().back()};
        if (pid(e[0]) == pid(e[1])) continue;
        bool rv = r.p(.3);
        if (rv) std::reverse(e.begin(), e.end());
        border = g.ls(e);
        if (rv) border = border.invert();
      }
      if (border.size() < 2) continue;
      auto f = border.front(), b = border.back();
      P2 d{b.x() - f.x(), b.y() - f.y()};
      double n = geo::norm(d);
      if (n < .5) continue;
      double w = r.d(1.5, 4);
      P2 out{d.y / n * w, -d.x / n * w};  // clockwise outline: the interior is on the right of the border
      Point3d bp = g.pt({b.x() + out.x, b.y() + out.y}), fp = g.pt({f.x() + out.x, f.y() + out.y});
      LineStrings3d ring{border};
      LineString3d far;
      if (r.p(.5)) {
        ring.push_back(g.ls({b, bp, fp, f}));
      } else {
        ring.push_back(g.ls({b, bp}));
        far = r.p(.5) ? g.ls({bp, fp}) : g.ls({fp, bp}).invert();
        ring.push_back(far);
        ring.push_back(g.ls({fp, f}));
      }
      std::rotate(ring.begin(), ring.begin() + long(r.idx(ring.size())), ring.end());
      Area a(ids.valid(), ring);
      g.w.areas.push_back(a);
      if (ring.size() > 2 && r.p(.6)) {
        Point3d b2 = g.pt({bp.x() + out.x, bp.y() + out.y}), f2 = g.pt({fp.x() + out.x, fp.y() + out.y});
        // shares the whole line or only its points
        LineStrings3d ring2;
        if (r.p(.6)) {
          ring2 = {far.invert(), g.ls({bp, b2, f2, fp})};
          // travelling on the far side: this ring runs fp -> bp first
          ring2 = {far, g.ls({fp, f2, b2, bp})};
          ring2[0] = far.invert();
          ring2[1] = g.ls({bp, b2, f2, fp});
        } else {
          ring2 = {g.ls({fp, bp, b2, f2, fp})};
        }
        g.w.areas.push_back(Area(ids.valid(), ring2));
      }
    }
  }

  void run(Ctx& c) override {
    auto& r = c.rng;
    items.clear();
    seqs.clear();
    gen::IdSource ids(r);
    double grid = r.p(.3) ? .5 : 0;
    int groups = int(r.i(1, 3));
    for (int gidx = 0; gidx < groups; ++gidx) {
      gen::WorldOpts o;
      o.attrs = false;
      o.extent = r.pick({4., 10., 25.});
      o.grid = grid;
      o.zRange = 0;
      o.strips = int(r.i(1, 2));
      o.areas = int(r.i(0, 2));
      o.polys = int(r.i(0, 2));
      o.customCenter = false;
      gen::WorldGen g(r, ids, o);
      g.strips();
      g.mkAreas();
      g.freePolys();
      attach(c, g, ids);
      if (r.p(.2)) loop(c, g, ids);
      shift(c, g.w.pts, 0, r.pick({0., 0., 2., 6., -10.}), r.pick({0., .2, .5}));
      for (auto& l : g.w.lanelets) items.push_back(item(r.p(.3) ? l.invert() : l));
      for (auto& a : g.w.areas) items.push_back(item(a));
      for (auto& p : g.w.polys) items.push_back(item(p));
    }
    for (auto& i : items) {
      i.simple = geo::simpleRing(i.g.outer, 1e-4) && std::fabs(geo::ringArea(i.g.outer)) > 1e-3;
      for (auto& h : i.g.holes) i.simple = i.simple && geo::simpleRing(h, 1e-4);
      i.oriented = geo::ringArea(i.g.outer) < 0;
      i.sh.add(i.g);
      Hash h;
      for (auto& p : i.g.outer) h(p.x)(p.y);
      c.sig(h.h);
      c.event(i.k == Item::Ll ? "lanelets" : i.k == Item::Ar ? "areas" : "polygons");
    }
    for (auto& i : items) single(c, i);
    for (int k = 0; k < 40; ++k) {
      size_t a = r.idx(items.size()), b = r.idx(items.size());
      pair(c, items[a], items[b]);
    }
    sequences(c);
    if (c.wantSample()) c.sample(std::to_string(items.size()) + " elements, grid " + std::to_string(grid));
  }

  P2 queryPoint(Ctx& c, const Item& i, bool& corner) {
    auto& r = c.rng;
    auto& o = i.g.outer;
    corner = false;
    double u = r.u();
    geo::Box b;
    for (auto& p : o) b.add(p.x, p.y);
    if (u < .1) {
      corner = true;
      return o[r.idx(o.size())];
    }
    if (u < .3) {  // level with a corner, the classic trouble of ray casting
      return {r.d(b.x0 - 2, b.x1 + 2), o[r.idx(o.size())].y};
    }
    if (u < .4 && !i.g.holes.empty()) {
      auto& h = i.g.holes[r.idx(i.g.holes.size())];
      return (h[0] + h[h.size() / 2]) * .5;
    }
    return {r.d(b.x0 - 3, b.x1 + 3), r.d(b.y0 - 3, b.y1 + 3)};
  }

  void single(Ctx& c, const Item& i) {
    auto& r = c.rng;
    auto& o = i.g.outer;
    geo::Box b;
    for (auto& p : o) b.add(p.x, p.y);
    BoundingBox2d b2 = i.k == Item::Ll ? geometry::boundingBox2d(i.ll) : i.k == Item::Ar ? geometry::boundingBox2d(i.ar) : geometry::boundingBox2d(utils::to2D(i.po));
    BoundingBox3d b3 = i.k == Item::Ll ? geometry::boundingBox3d(i.ll) : i.k == Item::Ar ? geometry::boundingBox3d(i.ar) : geometry::boundingBox3d(i.po);
    c.check(b2.min().x() == b.x0 && b2.min().y() == b.y0 && b2.max().x() == b.x1 && b2.max().y() == b.y1, "G02:boundingBox2d", "kind ", i.k);
    c.check(b3.min().x() == b.x0 && b3.min().y() == b.y0 && b3.max().x() == b.x1 && b3.max().y() == b.y1 && b3.min().z() == i.zlo && b3.max().z() == i.zhi,
            "G02:boundingBox3d", "kind ", i.k);
    if (i.k == Item::Ll) lengths(c, i);
    if (!i.simple) {
      c.event("outlines with self contact (only boxes and lengths checked)");
      return;
    }
    double a = std::fabs(geo::ringArea(o));
    if (i.k == Item::Po) {
      double got = geometry::area(utils::to2D(ConstPolygon3d(i.po)));
      c.check(c.close(std::fabs(got), a, 1e-6 * (1 + a)), "G02:area", got, " want ", a);
      if (i.oriented) c.check(got > 0, "G02:area-sign", "clockwise polygons have a positive area");
    }
    for (int k = 0; k < 12; ++k) {
      bool corner;
      P2 p = queryPoint(c, i, corner);
      BasicPoint2d q(p.x, p.y);
      double bd = i.g.borderDist(p);
      if (!corner && bd < 1e-6) continue;
      bool want = corner || i.g.in(p);
      double wd = want ? 0 : bd;
      if (i.k == Item::Ll) {
        c.check(geometry::inside(i.ll, q) == want, "G02:inside-lanelet", "(", p.x, ",", p.y, ") inside=", !want, " but ", bd, " from the border", corner ? " (corner)" : "");
        c.check(geometry::inside(i.ll.invert(), q) == want, "G02:inside-inverted", "differs for the inverted lanelet");
        c.check(c.close(geometry::distance2d(i.ll, q), wd, 1e-9 * (1 + wd) + 1e-9), "G02:distance-lanelet", geometry::distance2d(i.ll, q), " want ", wd);
        double cd = geo::distLine(gen::lineOf(i.ll.centerline()), p);
        c.check(c.close(geometry::distanceToCenterline2d(i.ll, q), cd, 1e-9 * (1 + cd)), "G02:distanceToCenterline2d", "");
        BasicPoint3d q3(p.x, p.y, r.d(i.zlo - 2, i.zhi + 2));
        double cd3 = geo::distLine(gen::lineOf3(i.ll.centerline()), gen::g3(q3));
        c.check(c.close(geometry::distanceToCenterline3d(i.ll, q3), cd3, 1e-8 * (1 + cd3)), "G02:distanceToCenterline3d", geometry::distanceToCenterline3d(i.ll, q3), " want ", cd3);
      } else if (i.k == Item::Ar) {
        if (!i.oriented) continue;
        c.check(geometry::inside(i.ar, q) == want, "G02:inside-area", "(", p.x, ",", p.y, ") inside=", !want, " holes ", i.g.holes.size(), " but ", bd, " from the border");
        c.check(c.close(geometry::distance2d(i.ar, q), wd, 1e-9 * (1 + wd) + 1e-9), "G02:distance-area", geometry::distance2d(i.ar, q), " want ", wd, " holes ",
                i.g.holes.size());
      } else {
        auto h = utils::toHybrid(utils::to2D(ConstPolygon3d(i.po)));
        if (!corner) c.check(geometry::within(q, h) == want, "G02:within-polygon", "(", p.x, ",", p.y, ")");
        c.check(c.close(geometry::distance2d(utils::to2D(ConstPolygon3d(i.po)), q), wd, 1e-9 * (1 + wd) + 1e-9), "G02:distance-polygon",
                geometry::distance2d(utils::to2D(ConstPolygon3d(i.po)), q), " want ", wd);
      }
      c.event(corner ? "point queries at corners" : want ? "point queries inside" : "point queries outside");
    }
  }

  void lengths(Ctx& c, const Item& i) {
    sampledLengths(c);
    auto cl = gen::lineOf3(i.ll.centerline());
    auto cl2 = gen::lineOf(i.ll.centerline());
    double l3 = geo::lengthOf(cl), l2 = geo::lengthOf(cl2);
    c.check(c.close(geometry::length2d(i.ll), l2, 1e-9 * (1 + l2)), "G02:length2d", "");
    c.check(c.close(geometry::length3d(i.ll), l3, 1e-9 * (1 + l3)), "G02:length3d", "");
    auto lb = gen::lineOf(i.ll.leftBound());
    double ll = geo::lengthOf(lb), ap = geometry::approximatedLength2d(i.ll);
    c.check(ap <= ll * (1 + 1e-9), "G02:approximatedLength", ap, " longer than the left bound ", ll);
    if (lb.size() < 20) c.check(c.close(ap, ll, 1e-9 * (1 + ll)), "G02:approximatedLength", ap, " for ", lb.size(), " points of length ", ll);
    if (lb.size() >= 2) c.check(ap >= geo::norm(lb.back() - lb.front()) * (1 - 1e-9), "G02:approximatedLength", ap, " shorter than the distance of its ends");
  }

  // sampling loses nothing on a straight bound, and next to nothing on a gentle curve, whatever the number of points
  void sampledLengths(Ctx& c) {
    const int n = int(c.rng.i(2, 75));
    const double curve = c.rng.p(0.5) ? 0. : c.rng.d(-1e-3, 1e-3);
    LineString3d l(utils::getId()), r(utils::getId());
    double s = c.rng.d(-50, 50), h = c.rng.d(-3, 3);
    for (int k = 0; k < n; ++k) {
      double x = s * std::cos(h), y = s * std::sin(h);
      l.push_back(Point3d(utils::getId(), x, y, 0));
      r.push_back(Point3d(utils::getId(), x + 3 * std::sin(h), y - 3 * std::cos(h), 0));
      s += c.rng.d(0.01, 3);
      h += k % 2 ? curve : 0;
    }
    Lanelet ll(utils::getId(), l, r);
    double want = geo::lengthOf(gen::lineOf(l)), got = geometry::approximatedLength2d(ll);
    if (curve == 0.) {
      c.check(c.close(got, want, 1e-9 * (1 + want)), "G02:approximatedLength", got, " for a straight bound of ", n, " points and length ", want);
    } else {
      c.check(got <= want * (1 + 1e-9) && got >= 0.98 * want, "G02:approximatedLength", got, " for a gentle curve of ", n, " points and length ", want);
    }
    c.event("sampled lengths");
  }

  struct Truth {
    double d{0}, ia{0};
    bool sure{false}, over{false}, touch{false};
    int inter{-1};
  };
  Truth truth(const Item& a, const Item& b, bool holes) {
    Truth t;
    if (holes) {
      t.d = geo::dist(a.sh, b.sh);
      t.ia = geo::interArea(a.g, b.g);
    } else {
      geo::Poly x{a.g.outer, {}}, y{b.g.outer, {}};
      geo::Shape s1, s2;
      s1.add(x);
      s2.add(y);
      t.d = geo::dist(s1, s2);
      t.ia = geo::interArea(x, y);
    }
    t.over = t.ia > 1e-2;
    auto exact = [](const Item& i) {
      for (auto& s : i.sh.segs)
        if (std::fmod(s.first.x * 2, 1.) != 0 || std::fmod(s.first.y * 2, 1.) != 0) return false;
      return true;
    };
    t.sure = t.over || t.d > 1e-5 || (t.ia < 1e-9 && exact(a) && exact(b));
    t.inter = t.over ? 1 : t.d > 1e-5 ? 0 : -1;
    return t;
  }
  // minimal and maximal height difference of any two points
  static std::pair<double, double> dz(const Item& a, const Item& b) {
    double lo = std::max({0., a.zlo - b.zhi, b.zlo - a.zhi}), hi = std::max(std::fabs(a.zhi - b.zlo), std::fabs(b.zhi - a.zlo));
    return {lo, hi};
  }
  void tri(Ctx& c, const char* key, bool got, bool planar, const Item& a, const Item& b, double tol) {
    auto z = dz(a, b);
    if (!planar) c.check(!got, key, "true although the outlines do not meet from above");
    else if (z.second < tol - 1e-9) c.check(got, key, "false although heights differ by at most ", z.second, " of ", tol);
    else if (z.first > tol + 1e-9) c.check(!got, key, "true although heights differ by at least ", z.first, " of ", tol);
  }

  void pair(Ctx& c, const Item& a, const Item& b) {
    auto& r = c.rng;
    double tol = r.pick({.6, 1.1, 3., 5.});
    if (a.k == Item::Ll && b.k == Item::Ll) return pairLl(c, a, b, tol);
    if (a.k == Item::Ar && b.k == Item::Ll) return pairArLl(c, a, b, tol);
    if (a.k == Item::Ll && b.k == Item::Ar) return pairArLl(c, b, a, tol);
    if (a.k == Item::Ar && b.k == Item::Ar) return pairAr(c, a, b, tol);
    if (a.k == Item::Po && b.k == Item::Po) return pairPo(c, a, b, tol);
    if (!a.simple || !b.simple || !a.oriented || !b.oriented) return;
    // mixed: distances
    double want = geo::dist(a.sh, b.sh), got = -1;
    auto P = [](const Item& i) { return utils::to2D(ConstPolygon3d(i.po)); };
    if (a.k == Item::Po && b.k == Item::Ll) got = geometry::distance2d(P(a), b.ll);
    if (a.k == Item::Ll && b.k == Item::Po) got = geometry::distance2d(a.ll, P(b));
    if (a.k == Item::Po && b.k == Item::Ar) got = geometry::distance2d(P(a), b.ar);
    if (a.k == Item::Ar && b.k == Item::Po) got = geometry::distance2d(a.ar, P(b));
    c.check(c.close(got, want, 1e-7 * (1 + want)), "G02:distance-mixed", got, " want ", want);
    c.event("mixed pairs");
  }

  void pairLl(Ctx& c, const Item& a, const Item& b, double tol) {
    auto& r = c.rng;
    ConstLanelet x = a.ll, y = b.ll;
    // topology
    auto D = [](const ConstLineString3d& l) { return dir(l); };
    bool lo = D(x.rightBound()) == D(y.leftBound());
    bool ro = D(x.leftBound()) == D(y.rightBound());
    c.check(geometry::leftOf(x, y) == lo && geometry::rightOf(y, x) == lo, "G02:leftOf", x.id(), " ", y.id());
    c.check(geometry::rightOf(x, y) == ro && geometry::leftOf(y, x) == ro, "G02:rightOf", x.id(), " ", y.id());
    bool fo = pid(x.leftBound().back()) == pid(y.leftBound().front()) && pid(x.rightBound().back()) == pid(y.rightBound().front());
    c.check(geometry::follows(x, y) == fo, "G02:follows", x.id(), " ", y.id());
    c.check(geometry::follows(y.invert(), x.invert()) == fo, "G02:follows-inverted", x.id(), " ", y.id());
    if (lo) c.event("pairs left of each other");
    if (fo) c.event("pairs following each other");
    for (bool inv : {false, true}) {
      auto line = geometry::determineCommonLine(x, y, inv);
      Optional<Dir> want;
      Dir xl = D(x.leftBound()), xr = D(x.rightBound());
      if (xl == D(y.rightBound())) want = xl;
      else if (xr == D(y.leftBound())) want = xr;
      else if (inv && xl == rev(D(y.leftBound()))) want = xl;
      else if (inv && xr == rev(D(y.rightBound()))) want = xr;
      c.check(!!line == !!want && (!line || dir(*line) == *want), "G02:determineCommonLine-lanelets", "inverted allowed ", inv, " found ", !!line, " want ", !!want);
    }
    centerlines(c, a, b);
    if (!a.simple || !b.simple) return;
    bool same = x.constData() == y.constData(), nb = !same && neighbours(x, y);
    Truth t = truth(a, b, false);
    auto all = [&](const char* key, auto&& f) {
      bool v = f(x, y);
      if (!same && !nb && !t.sure) return v;  // touching up to rounding
      c.check(v == f(y, x), key, "not symmetric");
      c.check(v == f(x.invert(), y) && v == f(x, y.invert()) && v == f(x.invert(), y.invert()), key, v, " but different for inverted lanelets; neighbours ", nb, " overlap ", t.ia);
      return v;
    };
    bool i2 = all("G02:intersects2d-views", [](const auto& p, const auto& q) { return geometry::intersects2d(p, q); });
    bool o2 = all("G02:overlaps2d-views", [](const auto& p, const auto& q) { return geometry::overlaps2d(p, q); });
    if (same) {
      c.check(i2 && o2, "G02:same-lanelet", "does not overlap itself");
      return;
    }
    if (t.inter >= 0) c.check(i2 == (t.inter == 1), "G02:intersects2d", i2, " distance ", t.d, " common area ", t.ia);
    if (nb) {
      c.check(!o2, "G02:overlaps2d-neighbours", "neighbouring lanelets");
      c.event("lanelet pairs: neighbours");
    } else if (t.sure) {
      c.check(o2 == t.over, "G02:overlaps2d", o2, " distance ", t.d, " common area ", t.ia);
      c.event(t.over ? "lanelet pairs: overlapping" : t.d > 0 ? "lanelet pairs: apart" : "lanelet pairs: touching");
    }
    double d = geometry::distance2d(x, y), wd = geo::dist(a.sh, b.sh);
    c.check(c.close(d, wd, 1e-7 * (1 + wd)), "G02:distance-lanelets", d, " want ", wd);
    tri(c, "G02:intersects3d", geometry::intersects3d(x, y, tol), i2, a, b, tol);
    tri(c, "G02:overlaps3d", geometry::overlaps3d(x, y, tol), o2, a, b, tol);
    (void)r;
  }

  void centerlines(Ctx& c, const Item& a, const Item& b) {
    auto l1 = gen::lineOf(a.ll.centerline()), l2 = gen::lineOf(b.ll.centerline());
    struct X {
      P2 p;
      double s, t;
    };
    std::vector<X> want;
    double s = 0;
    for (size_t i = 0; i + 1 < l1.size(); s += geo::norm(l1[i + 1] - l1[i]), ++i) {
      double t = 0;
      for (size_t j = 0; j + 1 < l2.size(); t += geo::norm(l2[j + 1] - l2[j]), ++j) {
        P2 A = l1[i], B = l1[i + 1], C = l2[j], D = l2[j + 1];
        double cr = geo::cross(B - A, D - C);
        if (std::fabs(cr) <= 1e-4 * geo::norm(B - A) * geo::norm(D - C)) {
          if (geo::segDist(A, B, C, D) < 1e-3) return;
          continue;
        }
        double u = geo::cross(C - A, D - C) / cr, v = geo::cross(C - A, B - A) / cr;
        const double e = 1e-4;
        if (u < -e || u > 1 + e || v < -e || v > 1 + e) continue;
        if (u < e || u > 1 - e || v < e || v > 1 - e) return;
        want.push_back({A + (B - A) * u, s + u * geo::norm(B - A), t + v * geo::norm(D - C)});
      }
    }
    // self crossing centerlines make the arc length ambiguous
    std::vector<double> ds, dt;
    auto got = geometry::intersectCenterlines2d(a.ll, b.ll, &ds, &dt);
    c.check(got.size() == want.size() && ds.size() == got.size() && dt.size() == got.size(), "G02:intersectCenterlines2d-count", got.size(), " want ", want.size());
    if (!want.empty()) c.event("centerline crossings", want.size());
    for (auto& w : want) {
      double best = geo::Inf;
      size_t bi = 0;
      for (size_t k = 0; k < got.size(); ++k) {
        double d = geo::norm(P2{got[k].x(), got[k].y()} - w.p);
        if (d < best) best = d, bi = k;
      }
      c.check(best < 1e-6, "G02:intersectCenterlines2d", "no intersection returned at ", w.p.x, ",", w.p.y);
      c.check(c.close(ds[bi], w.s, 1e-5), "G02:intersectCenterlines2d-this", ds[bi], " want ", w.s);
      c.check(c.close(dt[bi], w.t, 1e-5), "G02:intersectCenterlines2d-other", dt[bi], " want ", w.t);
    }
    auto plain = geometry::intersectCenterlines2d(a.ll, b.ll);
    c.check(plain.size() == got.size(), "G02:intersectCenterlines2d-count", "without distances ", plain.size());
  }

  void pairArLl(Ctx& c, const Item& a, const Item& b, double tol) {
    ConstArea ar = a.ar;
    ConstLanelet ll = b.ll;
    auto outer = ar.outerBound();
    auto has = [&](Dir d) {
      for (auto& l : outer)
        if (dir(l) == d) return true;
      return false;
    };
    using E = std::pair<const void*, const void*>;
    auto ends = [&](E e) {  // a bound from e.first to e.second
      for (auto& l : outer)
        if (pid(l.front()) == e.first && pid(l.back()) == e.second) return true;
      return false;
    };
    E endLR{pid(ll.leftBound().back()), pid(ll.rightBound().back())}, endRL{endLR.second, endLR.first};
    E begLR{pid(ll.leftBound().front()), pid(ll.rightBound().front())}, begRL{begLR.second, begLR.first};
    bool left = has(rev(dir(ll.leftBound()))), right = has(dir(ll.rightBound()));
    c.check(geometry::leftOf(ll, ar) == left, "G02:area-leftOf", "want ", left);
    c.check(geometry::rightOf(ll, ar) == right, "G02:area-rightOf", "want ", right);
    bool ahead = ends(endLR) || ends(endRL), behind = ends(begLR) || ends(begRL);
    c.check(geometry::follows(ll, ar) == ahead, "G02:area-follows", "area ahead of the lanelet: want ", ahead);
    c.check(geometry::follows(ar, ll) == behind, "G02:area-follows", "area behind the lanelet: want ", behind);
    if (left || right) c.event("areas beside lanelets");
    if (ahead || behind) c.event("areas before or behind lanelets");
    auto okLine = [&](const Optional<ConstLineString3d>& l, bool want, const char* key, auto&& good) {
      c.check(!!l == want, key, "found ", !!l, " want ", want);
      if (l) c.check(good(*l), key, "wrong line ", l->id());
    };
    auto isEnd = [&](E e) { return [e](const ConstLineString3d& l) { return pid(l.front()) == e.first && pid(l.back()) == e.second; }; };
    auto isDir = [&](Dir d) { return [d](const ConstLineString3d& l) { return dir(l) == d; }; };
    auto own = [&](const ConstLineString3d& l) {
      for (auto& o : outer)
        if (o.constData() == l.constData()) return true;
      return false;
    };
    okLine(geometry::determineCommonLinePreceding(ll, ar), ends(endRL), "G02:commonLinePreceding", isEnd(endRL));
    okLine(geometry::determineCommonLineFollowing(ar, ll), ends(begLR), "G02:commonLineFollowing", isEnd(begLR));
    okLine(geometry::determineCommonLineFollowingOrPreceding(ar, ll), ends(endRL) || ends(begLR), "G02:commonLineFollowingOrPreceding",
           [&](auto& l) { return isEnd(endRL)(l) || isEnd(begLR)(l); });
    okLine(geometry::determineCommonLineLeft(ll, ar), left, "G02:commonLineLeft", isDir(dir(ll.leftBound())));
    okLine(geometry::determineCommonLineRight(ll, ar), right, "G02:commonLineRight", isDir(dir(ll.rightBound())));
    okLine(geometry::determineCommonLineSideways(ll, ar), left || right, "G02:commonLineSideways",
           [&](auto& l) { return isDir(dir(ll.leftBound()))(l) || isDir(dir(ll.rightBound()))(l); });
    okLine(geometry::determineCommonLineSideways(ar, ll), left || right, "G02:commonLineSideways",
           [&](auto& l) { return isDir(rev(dir(ll.leftBound())))(l) || isDir(dir(ll.rightBound()))(l); });
    okLine(geometry::determineCommonLine(ar, ll), left || right || ends(endRL) || ends(begLR), "G02:commonLine", own);
    if (!a.simple || !b.simple || !a.oriented || !b.oriented) return;
    Truth t = truth(a, b, false);
    bool share = sharesReversedSegment(ringPtrs(outer), [&] {
      ConstLineStrings3d l{ConstLineString3d(ll.inverted() ? ll.invert().leftBound() : ll.leftBound()),
                           ConstLineString3d(ll.inverted() ? ll.invert().rightBound() : ll.rightBound()).invert()};
      return ringPtrs(l);
    }());
    bool o2 = geometry::overlaps2d(ar, ll);
    if (share || t.sure) c.check(o2 == geometry::overlaps2d(ar, ll.invert()), "G02:area-overlaps-inverted", "differs for the inverted lanelet");
    if (share) {
      c.check(!o2, "G02:area-lanelet-overlaps", "although they share a border segment");
      c.event("area/lanelet pairs: neighbours");
    } else if (t.sure) {
      c.check(o2 == t.over, "G02:area-lanelet-overlaps", o2, " distance ", t.d, " common area ", t.ia);
      c.event(t.over ? "area/lanelet pairs: overlapping" : "area/lanelet pairs: not overlapping");
    }
    tri(c, "G02:area-lanelet-overlaps3d", geometry::overlaps3d(ar, ll, tol), o2, a, b, tol);
    double wd = geo::dist(a.sh, b.sh);
    c.check(c.close(geometry::distance2d(ar, ll), wd, 1e-7 * (1 + wd)), "G02:distance-area-lanelet", geometry::distance2d(ar, ll), " want ", wd);
  }

  void pairAr(Ctx& c, const Item& a, const Item& b, double tol) {
    ConstArea x = a.ar, y = b.ar;
    bool same = x == y;
    bool adj = sharesReversedSegment(ringPtrs(x.outerBound()), ringPtrs(y.outerBound()));
    c.check(geometry::adjacent(x, y) == adj, "G02:areas-adjacent", "want ", adj);
    c.check(geometry::adjacent(y, x) == adj, "G02:areas-adjacent", "not symmetric");
    auto line = geometry::determineCommonLine(x, y);
    bool want = false, ok = false;
    for (auto& l : x.outerBound())
      for (auto& m : y.outerBound())
        if (dir(l) == rev(dir(m))) {
          want = true;
          ok = ok || (line && dir(*line) == dir(l));
        }
    c.check(!!line == want && (!want || ok), "G02:areas-commonLine", "want ", want);
    if (adj) c.event("adjacent areas");
    if (!a.simple || !b.simple || !a.oriented || !b.oriented) return;
    if (same) {
      c.check(geometry::intersects2d(x, y), "G02:same-area", "does not intersect itself");
      return;
    }
    Truth t = truth(a, b, false), th = truth(a, b, true);
    bool i2 = geometry::intersects2d(x, y), o2 = geometry::overlaps2d(x, y);
    if (th.inter >= 0) c.check(i2 == geometry::intersects2d(y, x), "G02:areas-symmetric", "not symmetric");
    if (t.sure || adj) c.check(o2 == geometry::overlaps2d(y, x), "G02:areas-symmetric", "not symmetric");
    if (th.inter >= 0) c.check(i2 == (th.inter == 1), "G02:areas-intersect", i2, " distance ", th.d, " common area ", th.ia);
    if (adj) c.check(!o2, "G02:areas-overlap", "although adjacent");
    else if (t.sure) {
      c.check(o2 == t.over, "G02:areas-overlap", o2, " distance ", t.d, " common area ", t.ia);
      c.event(t.over ? "area pairs: overlapping" : "area pairs: not overlapping");
    }
    tri(c, "G02:areas-overlap3d", geometry::overlaps3d(x, y, tol), o2, a, b, tol);
    double wd = geo::dist(a.sh, b.sh);
    c.check(c.close(geometry::distance2d(x, y), wd, 1e-7 * (1 + wd)), "G02:distance-areas", geometry::distance2d(x, y), " want ", wd, " holes ", a.g.holes.size(), b.g.holes.size());
  }

  void pairPo(Ctx& c, const Item& a, const Item& b, double tol) {
    ConstPolygon3d x = a.po, y = b.po;
    if (a.po == b.po || !a.simple || !b.simple || !a.oriented || !b.oriented) return;
    auto x2 = utils::to2D(x), y2 = utils::to2D(y);
    Truth t = truth(a, b, false);
    bool o2 = geometry::overlaps2d(x2, y2);
    if (t.sure) c.check(o2 == geometry::overlaps2d(y2, x2), "G02:polygons-symmetric", "not symmetric");
    if (t.sure) c.check(o2 == t.over, "G02:polygons-overlap", o2, " distance ", t.d, " common area ", t.ia);
    tri(c, "G02:polygons-overlap3d", geometry::overlaps3d(x, y, tol), o2, a, b, tol);
    double wd = geo::dist(a.sh, b.sh);
    c.check(c.close(geometry::distance2d(x2, y2), wd, 1e-7 * (1 + wd)), "G02:distance-polygons", "");
    double best = geo::Inf;
    auto P = [](const ConstPoint3d& p) { return P3{p.x(), p.y(), p.z()}; };
    for (size_t i = 0; i < x.size(); ++i)
      for (size_t j = 0; j < y.size(); ++j)
        best = std::min(best, geo::segDist3(P(x[i]), P(x[(i + 1) % x.size()]), P(y[j]), P(y[(j + 1) % y.size()])));
    auto bp = geometry::projectedBorderPoint3d(x, y);
    c.check(c.close((bp.first - bp.second).norm(), best, 1e-6 * (1 + best)), "G02:projectedBorderPoint3d", (bp.first - bp.second).norm(), " want ", best);
    c.check(c.close(geometry::distanceToBorder3d(x, y), best, 1e-6 * (1 + best)), "G02:distanceToBorder3d", "want ", best);
    auto off = [&](const ConstPolygon3d& p, const BasicPoint3d& q) {
      double d = geo::Inf;
      for (size_t i = 0; i < p.size(); ++i) d = std::min(d, geo::distSeg(P(p[i]), P(p[(i + 1) % p.size()]), gen::g3(q)));
      return d;
    };
    c.check(off(x, bp.first) < 1e-6 && off(y, bp.second) < 1e-6, "G02:projectedBorderPoint3d", "points are off the borders");
    c.event("polygon pairs");
  }

  void sequences(Ctx& c) {
    auto& r = c.rng;
    ConstLanelets v;
    for (int k = int(r.i(0, 4)); k > 0; --k) {
      auto& i = items[r.idx(items.size())];
      if (i.k == Item::Ll) v.push_back(i.ll);
    }
    // prefer real chains
    for (auto& a : items)
      if (a.k == Item::Ll && r.p(.2)) {
        v = {a.ll};
        for (int k = 0; k < 4; ++k)
          for (auto& b : items)
            if (b.k == Item::Ll && geometry::follows(v.back(), b.ll)) {
              v.push_back(b.ll);
              break;
            }
        break;
      }
    LaneletSequence s(v);
    LaneletSequence inv = s.invert();
    c.check(s.size() == v.size() && s.empty() == v.empty() && s.lanelets() == v, "G02:sequence-members", "");
    ConstLanelets rv(v.rbegin(), v.rend());
    c.check(inv.lanelets() == rv && inv.invert() == s && ConstLanelets(inv.begin(), inv.end()) == rv && ConstLanelets(s.begin(), s.end()) == v, "G02:sequence-inverted", "");
    auto cat = [](auto&& get, const ConstLanelets& l) {
      std::vector<const void*> p;
      for (auto& e : l)
        for (auto& q : get(e))
          if (p.empty() || p.back() != pid(q)) p.push_back(pid(q));
      return p;
    };
    auto pts = [](auto&& l) {
      std::vector<const void*> p;
      for (auto it = l.begin(); it != l.end(); ++it) p.push_back((*it).constData().get());
      return p;
    };
    auto L = cat([](auto& e) { return e.leftBound(); }, v), R = cat([](auto& e) { return e.rightBound(); }, v);
    auto C = cat([](auto& e) { return e.centerline(); }, v);
    c.check(pts(s.leftBound()) == L && pts(s.rightBound()) == R, "G02:sequence-bounds", "not the concatenated bounds");
    c.check(pts(s.centerline()) == C, "G02:sequence-centerline", "not the concatenated centerlines");
    std::vector<const void*> Lr(L.rbegin(), L.rend()), Rr(R.rbegin(), R.rend()), Cr(C.rbegin(), C.rend());
    c.check(pts(inv.leftBound()) == Rr && pts(inv.rightBound()) == Lr && pts(inv.centerline()) == Cr, "G02:sequence-inverted", "bounds");
    std::vector<const void*> P = L;
    for (auto* q : Rr)
      if (P.empty() || P.back() != q) P.push_back(q);
    c.check(pts(s.polygon3d()) == P && pts(inv.polygon3d()) == P, "G02:sequence-polygon", "");
    for (size_t k = 0; k < v.size(); ++k) c.check(s[k] == v[k] && inv[k] == rv[k] && s.ids()[k] == v[k].id(), "G02:sequence-access", k);
    if (v.size() > 1) c.event("lanelet sequences with several lanelets");
  }
};
VF_HARNESS(G02, "G02");

// ---------------------------------------------------------------------------------------------------------
struct G03 : Harness {
  uint64_t numCases(bool th) override { return th ? 100000 : 6000; }
  std::string rule() override {
    return "a case is one simple polygon whose border edges are edges of the Delaunay triangulation of its corners (convex, or sampled densely); "
           "distinct states are hashes of the corners";
  }
  // a polygon edge is surely a Delaunay edge if its diametral circle contains no other corner (with margin)
  static bool gabriel(const geo::Ring& o, double margin) {
    size_t n = o.size();
    for (size_t i = 0; i < n; ++i) {
      P2 a = o[i], b = o[(i + 1) % n], m = (a + b) * .5;
      double rad = geo::norm(b - a) / 2;
      for (size_t k = 0; k < n; ++k)
        if (k != i && k != (i + 1) % n && geo::norm(o[k] - m) < rad + margin) return false;
    }
    return true;
  }
  static geo::Ring resample(const geo::Ring& o, double step) {
    geo::Ring r;
    for (size_t i = 0; i < o.size(); ++i) {
      P2 a = o[i], b = o[(i + 1) % o.size()];
      int k = std::max(1, int(std::ceil(geo::norm(b - a) / step)));
      for (int j = 0; j < k; ++j) r.push_back(a + (b - a) * (double(j) / k));
    }
    return r;
  }
  void run(Ctx& c) override {
    if (c.caseIdx == 0) return fixedInputs(c);
    auto& r = c.rng;
    geo::Ring o;
    int n = int(r.i(3, 12));
    bool convex = r.p(.35);
    double s = r.pick({10., 10., 60.});
    P2 off{0, 0};
    if (r.p(.3)) off = {r.pick({4.5e5, -3.2e5}), r.pick({5.4e6, 1.2e6, -2.5e6})};
    bool regular = convex && r.p(.3);
    if (regular) {  // corners on one circle: the Delaunay triangulation is not unique
      if (r.p(.5)) {
        double w = r.i(1, 20), h = r.i(1, 20);
        o = {{0, 0}, {0, h}, {w, h}, {w, 0}};
      } else {
        double a0 = r.d(0, 6);
        for (int k = 0; k < n; ++k) o.push_back({s * std::cos(a0 - 2 * M_PI * k / n), s * std::sin(a0 - 2 * M_PI * k / n)});
      }
    } else if (convex) {
      std::vector<double> an;
      for (int k = 0; k < n; ++k) an.push_back((k + r.d(.15, .85)) * 2 * M_PI / n);
      double ea = r.d(.4, 1);
      for (double a : an) o.push_back({s * std::cos(-a), s * ea * std::sin(-a)});
    } else {
      o = gen::starRing(r, {0, 0}, s * r.d(.3, .8), s, n);
      std::reverse(o.begin(), o.end());
      o = resample(o, s * r.pick({.08, .15, .3}));
    }
    std::rotate(o.begin(), o.begin() + long(r.idx(o.size())), o.end());
    for (auto& p : o) {
      p = p + off;
      if (r.p(.7)) p = {std::round(p.x * 100) / 100, std::round(p.y * 100) / 100};
    }
    if (!geo::simpleRing(o, .05)) return c.event("skipped: corners closer than 5 cm");
    double A = std::fabs(geo::ringArea(o));
    if (A < 1) return;
    bool del = convex || gabriel(o, .05);
    if (!del) return c.event("skipped: a border edge may not be a Delaunay edge");
    bool isConvex = true;
    for (size_t i = 0; i < o.size(); ++i) {
      P2 a = o[i], b = o[(i + 1) % o.size()], d = o[(i + 2) % o.size()];
      if (geo::orient(a, b, d) > 0) isConvex = false;
    }
    // nearly collinear corners are rounded to centimetres inside: their sign is noise there
    for (size_t i = 0; i < o.size(); ++i) {
      P2 a = o[i], b = o[(i + 1) % o.size()], d = o[(i + 2) % o.size()];
      (void)a; (void)b; (void)d;
    }
    Hash h;
    for (auto& p : o) h(p.x)(p.y);
    c.sig(h.h);
    c.event(isConvex ? "convex polygons" : "concave polygons");
    BasicPolygon2d bp;
    for (auto& p : o) bp.push_back(BasicPoint2d(p.x, p.y));
    double per = 0;
    for (size_t i = 0; i < o.size(); ++i) per += geo::norm(o[(i + 1) % o.size()] - o[i]);
    double tol = .006 * per + 1e-6 * A;
    partition(c, o, geometry::convexPartition(bp), A, tol, regular);
    triangles(c, o, geometry::triangulate(bp), A, tol, isConvex);
    if (r.p(.3)) {
      gen::IdSource ids(r);
      Points3d pts;
      for (auto& p : o) pts.push_back(Point3d(ids.valid(), p.x, p.y, 0));
      Polygon3d poly(ids.valid(), pts);
      auto a1 = geometry::convexPartition(utils::to2D(poly)), a2 = geometry::convexPartition(bp);
      c.check(a1.size() == a2.size(), "G03:overloads", "different results for the two polygon types");
      c.check(geometry::triangulate(utils::to2D(poly)).size() == geometry::triangulate(bp).size(), "G03:overloads", "different triangulations");
    }
    if (c.wantSample()) c.sample((isConvex ? "convex " : "concave ") + std::to_string(o.size()) + " corners, area " + std::to_string(A));
  }
  static size_t cornerIndex(const geo::Ring& o, P2 p) {
    for (size_t i = 0; i < o.size(); ++i)
      if (o[i].x == p.x && o[i].y == p.y) return i;
    return o.size();
  }
  void partition(Ctx& c, const geo::Ring& o, const BasicPolygons2d& parts, double A, double tol, bool) {
    double sum = 0;
    std::vector<geo::Ring> rings;
    for (auto& p : parts) {
      geo::Ring q;
      for (auto& x : p) {
        q.push_back({x.x(), x.y()});
        c.check(cornerIndex(o, q.back()) < o.size(), "G03:partition-corner", "uses a point that is no corner");
      }
      c.check(q.size() >= 3, "G03:partition-size", "a part has ", q.size(), " corners");
      double a = geo::ringArea(q);
      c.check(a <= tol, "G03:partition-orientation", "a part is counter-clockwise with area ", a);
      sum += std::fabs(a);
      for (size_t i = 0; i < q.size(); ++i) {
        P2 u = q[(i + 1) % q.size()] - q[i], v = q[(i + 2) % q.size()] - q[(i + 1) % q.size()];
        double s = geo::cross(u, v) / (geo::norm(u) * geo::norm(v));
        c.check(s <= .02, "G03:partition-convex", "a part of ", parts.size(), " has a reflex corner, sine ", s);
      }
      rings.push_back(q);
    }
    c.check(std::fabs(sum - A) <= tol, "G03:partition-area", "parts cover ", sum, " of ", A);
    std::vector<bool> used(o.size(), false);
    for (auto& q : rings)
      for (auto& p : q) used[cornerIndex(o, p)] = true;
    // coverage and disjointness at sampled points
    geo::Box b;
    for (auto& p : o) b.add(p.x, p.y);
    for (int k = 0; k < 20; ++k) {
      P2 p{c.rng.d(b.x0, b.x1), c.rng.d(b.y0, b.y1)};
      if (geo::distRingBorder(o, p) < .06) continue;
      int in = 0;
      bool skip = false;
      for (auto& q : rings) {
        skip = skip || geo::distRingBorder(q, p) < .06;
        in += geo::inRing(q, p);
      }
      if (skip) continue;
      c.check(in == (geo::inRing(o, p) ? 1 : 0), "G03:partition-cover", "a point is in ", in, " parts");
    }
    c.event("parts", parts.size());
  }
  void triangles(Ctx& c, const geo::Ring& o, const geometry::IndexedTriangles& tris, double A, double tol, bool convex) {
    // triangles in notches of a concave polygon are a known finding (see fixedInputs): the others must tile the polygon
    double sum = 0;
    std::vector<geo::Ring> rings;
    for (auto& t : tris) {
      geo::Ring q;
      for (size_t i : t) {
        c.check(i < o.size(), "G03:triangle-index", "index ", i, " of ", o.size());
        q.push_back(o[i]);
      }
      c.check(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "G03:triangle-degenerate", "a corner is used twice");
      P2 cen = (q[0] + q[1] + q[2]) * (1. / 3);
      if (!convex && !geo::inRing(o, cen)) {
        c.event("triangles outside of concave polygons");
        continue;
      }
      sum += std::fabs(geo::ringArea(q));
      rings.push_back(q);
    }
    c.check(std::fabs(sum - A) <= tol, "G03:triangle-area", "triangles cover ", sum, " of ", A);
    if (convex) c.check(tris.size() == o.size() - 2 || std::fabs(sum - A) <= tol, "G03:triangle-count", tris.size(), " for ", o.size(), " corners");
    geo::Box b;
    for (auto& p : o) b.add(p.x, p.y);
    for (int k = 0; k < 20; ++k) {
      P2 p{c.rng.d(b.x0, b.x1), c.rng.d(b.y0, b.y1)};
      if (geo::distRingBorder(o, p) < .06 || !geo::inRing(o, p)) continue;
      int in = 0;
      bool skip = false;
      for (auto& q : rings) {
        skip = skip || geo::distRingBorder(q, p) < .06;
        in += geo::inRing(q, p);
      }
      if (skip) continue;
      c.check(in == 1, "G03:triangle-cover", "a point is in ", in, " triangles");
    }
    c.event("triangles", tris.size());
  }
  void fixedInputs(Ctx& c) {
    auto poly = [](std::initializer_list<P2> l) {
      BasicPolygon2d b;
      for (auto& p : l) b.push_back(BasicPoint2d(p.x, p.y));
      return b;
    };
    auto ringOf = [](const BasicPolygon2d& b) {
      geo::Ring r;
      for (auto& p : b) r.push_back({p.x(), p.y()});
      return r;
    };
    {  // a concave arrow: the triangulation covers its convex hull
      auto b = poly({{0, 0}, {0, 10}, {4, 5}, {10, 4}});
      double sum = 0;
      auto o = ringOf(b);
      for (auto& t : geometry::triangulate(b)) sum += std::fabs(geo::ringArea({o[t[0]], o[t[1]], o[t[2]]}));
      double A = std::fabs(geo::ringArea(o));
      if (std::fabs(sum - A) > 1e-3) c.fail("G03:triangulate-concave-covers-hull", "triangles cover " + std::to_string(sum) + " of " + std::to_string(A));
    }
    {  // a long thin notch: border edges are no Delaunay edges
      auto b = poly({{0, 0}, {0, 4}, {3.9, 5}, {0, 6}, {0, 10}, {4, 10}, {4, 1}, {6, 1}, {6, 5}, {4.1, 5.5}, {6, 6}, {6, 10}, {10, 10}, {10, 0}});
      double A = std::fabs(geo::ringArea(ringOf(b))), sum = 0;
      std::string what;
      try {
        for (auto& p : geometry::convexPartition(b)) sum += std::fabs(geo::ringArea(ringOf(p)));
        what = "parts cover " + std::to_string(sum) + " of " + std::to_string(A);
      } catch (std::exception& e) {
        what = e.what();
      }
      if (std::fabs(sum - A) > 1e-3) c.fail("G03:convexPartition-notch", what);
    }
    // inputs that are rejected
    for (int n = 0; n < 3; ++n) {
      BasicPolygon2d b(size_t(n), BasicPoint2d(0, 0));
      bool t1 = false, t2 = false;
      try {
        geometry::convexPartition(b);
      } catch (GeometryError&) {
        t1 = true;
      }
      try {
        geometry::triangulate(b);
      } catch (GeometryError&) {
        t2 = true;
      }
      c.check(t1 && t2, "G03:too-few", n, " points accepted");
    }
  }
};
VF_HARNESS(G03, "G03");
}  // namespace
