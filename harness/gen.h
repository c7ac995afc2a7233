// Generators for lanelet primitives (shared by the harnesses).
#pragma once
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>

#include "geo.h"
#include "vf.h"

namespace gen {
using namespace lanelet;
using vf::Rng;

inline geo::P2 g2(const BasicPoint2d& p) { return {p.x(), p.y()}; }
inline geo::P3 g3(const BasicPoint3d& p) { return {p.x(), p.y(), p.z()}; }
inline BasicPoint2d b2(geo::P2 p) { return BasicPoint2d(p.x, p.y); }
inline geo::Line lineOf(const ConstLineString3d& l) {
  geo::Line r;
  for (size_t i = 0; i < l.size(); ++i) r.push_back({l[i].x(), l[i].y()});
  return r;
}
inline geo::Line3 lineOf3(const ConstLineString3d& l) {
  geo::Line3 r;
  for (size_t i = 0; i < l.size(); ++i) r.push_back({l[i].x(), l[i].y(), l[i].z()});
  return r;
}
inline geo::Ring ringOfPolygon(const ConstPolygon3d& l) {
  geo::Ring r;
  for (size_t i = 0; i < l.size(); ++i) r.push_back({l[i].x(), l[i].y()});
  return r;
}
// outline of a lanelet: left bound forward, right bound backward, joints once
inline geo::Ring ringOfLanelet(const ConstLanelet& ll) {
  std::vector<geo::P2> r;
  std::vector<const void*> ptr;
  auto push = [&](const ConstPoint3d& p) {
    if (!ptr.empty() && ptr.back() == p.constData().get()) return;
    ptr.push_back(p.constData().get());
    r.push_back({p.x(), p.y()});
  };
  auto l = ll.leftBound(), rb = ll.rightBound();
  for (size_t i = 0; i < l.size(); ++i) push(l[i]);
  for (size_t i = rb.size(); i-- > 0;) push(rb[i]);
  if (ptr.size() > 1 && ptr.front() == ptr.back()) r.pop_back();
  return r;
}
inline geo::Ring ringOfLines(const ConstLineStrings3d& ls) {
  std::vector<geo::P2> r;
  std::vector<const void*> ptr;
  for (auto& l : ls)
    for (size_t i = 0; i < l.size(); ++i) {
      if (!ptr.empty() && ptr.back() == l[i].constData().get()) continue;
      ptr.push_back(l[i].constData().get());
      r.push_back({l[i].x(), l[i].y()});
    }
  if (ptr.size() > 1 && ptr.front() == ptr.back()) r.pop_back();
  return r;
}
inline geo::Poly polyOfArea(const ConstArea& a) {
  geo::Poly p;
  p.outer = ringOfLines(a.outerBound());
  for (auto& h : a.innerBounds()) p.holes.push_back(ringOfLines(h));
  return p;
}

inline const std::vector<std::string>& texts() {
  static const std::vector<std::string> T{"",        "yes",      "no",     "true",  "1",       "0",     "-1",     "50",
                                          "50 km/h", "13.5 m/s", "road",   "urban", "dashed",  "solid", "a b",    "ü€漢",
                                          "<&>\"'",  "3.7",      "1e3",    "nan",   "de205",   "-17",   "yes ",   "line\ttab",
                                          "x=y",     "virtual",  "0.0001", "12:30", "left;right"};
  return T;
}

struct IdSource {
  Rng* r;
  Id base;
  std::set<Id> used;
  double pInvalid{0}, pNeg{0};
  explicit IdSource(Rng& rng) : r(&rng), base(utils::getId()) {}
  // unique over the whole world
  Id operator()() {
    if (pInvalid > 0 && r->p(pInvalid)) return InvalId;
    return valid();
  }
  Id valid() {
    for (;;) {
      Id id = base + r->i(1, 4000);
      if (pNeg > 0 && r->p(pNeg)) id = -r->i(1, 100000);
      if (!used.insert(id).second) continue;
      // elements without id must not be given an id that an element outside of all maps carries
      if (pInvalid > 0) utils::registerId(id);
      return id;
    }
  }
};

inline AttributeMap randAttrs(Rng& r, int maxN = 3) {
  static const std::vector<std::string> Keys{"type",     "subtype",     "one_way", "participant:vehicle", "speed_limit",
                                             "location", "lane_change", "width",   "name",                "custom key",
                                             "région",   "fallback",    "dynamic", "participant:bicycle"};
  AttributeMap a;
  int n = int(r.i(0, maxN));
  for (int i = 0; i < n; ++i) a[Keys[r.idx(Keys.size())]] = texts()[r.idx(texts().size())];
  return a;
}

// A simple star-shaped ring around c
inline geo::Ring starRing(Rng& r, geo::P2 c, double rmin, double rmax, int n) {
  std::vector<double> ang;
  for (int i = 0; i < n; ++i) ang.push_back((i + r.d(0.1, 0.9)) * 2 * M_PI / n);
  geo::Ring o;
  for (double a : ang) {
    double q = r.d(rmin, rmax);
    o.push_back({c.x + q * std::cos(a), c.y + q * std::sin(a)});
  }
  return o;
}

// A pool of primitives that share sub-objects in many ways. Geometry is well formed (simple lanelets/areas).
struct World {
  std::vector<Point3d> pts;
  std::vector<LineString3d> lines;
  std::vector<Polygon3d> polys;
  std::vector<Lanelet> lanelets;
  std::vector<Area> areas;
  std::vector<RegulatoryElementPtr> regs;
};
struct WorldOpts {
  int lines{6}, polys{3}, strips{3}, areas{2}, regs{5};
  double extent{100};
  bool attrs{true};
  bool customCenter{true};
  bool regToFreeElements{true};
  double grid{0};  // snap coordinates to this grid when >0
  double zRange{5};
};

struct WorldGen {
  Rng& r;
  IdSource& ids;
  WorldOpts o;
  World w;
  WorldGen(Rng& rng, IdSource& i, WorldOpts opts = {}) : r(rng), ids(i), o(opts) {}
  AttributeMap attrs() { return o.attrs ? randAttrs(r) : AttributeMap(); }
  double snap(double v) { return o.grid > 0 ? std::round(v / o.grid) * o.grid : v; }
  Point3d pt(double x, double y, double z) {
    Point3d p(ids(), snap(x), snap(y), z);
    if (o.attrs && r.p(0.15)) p.attributes() = randAttrs(r, 2);
    w.pts.push_back(p);
    return p;
  }
  Point3d pt(geo::P2 p) { return pt(p.x, p.y, o.zRange > 0 ? r.d(-o.zRange, o.zRange) : 0.); }
  LineString3d ls(const Points3d& p) {
    LineString3d l(ids(), p, attrs());
    w.lines.push_back(l);
    return l;
  }
  void freeLines() {
    for (int i = 0; i < o.lines; ++i) {
      Points3d p;
      int n = int(r.i(1, 6));
      double x = r.d(-o.extent, o.extent), y = r.d(-o.extent, o.extent);
      for (int k = 0; k < n; ++k) {
        if (!w.pts.empty() && r.p(0.25)) {
          p.push_back(w.pts[r.idx(w.pts.size())]);
        } else {
          x += r.d(-15, 15);
          y += r.d(-15, 15);
          p.push_back(pt({x, y}));
        }
      }
      ls(p);
    }
  }
  void freePolys() {
    for (int i = 0; i < o.polys; ++i) {
      auto ring = starRing(r, {r.d(-o.extent, o.extent), r.d(-o.extent, o.extent)}, 3, 12, int(r.i(3, 8)));
      std::reverse(ring.begin(), ring.end());  // clockwise
      Points3d p;
      for (auto& q : ring) p.push_back(pt(q));
      w.polys.emplace_back(ids(), p, attrs());
    }
  }
  // strips of adjacent, successive lanelets sharing bounds and end points
  void strips() {
    for (int s = 0; s < o.strips; ++s) {
      int lanes = int(r.i(1, 3)), segs = int(r.i(1, 3));
      double x0 = r.d(-o.extent, o.extent), y0 = r.d(-o.extent, o.extent), ang = r.d(0, 2 * M_PI);
      double curv = r.d(-0.01, 0.01), width = r.d(2.5, 5), len = r.d(8, 20);
      auto at = [&](double along, double off) {
        double a = ang + curv * along;
        // integrate roughly along a circle
        double cx = x0, cy = y0;
        if (std::fabs(curv) > 1e-6) {
          cx += (std::sin(a) - std::sin(ang)) / curv;
          cy += -(std::cos(a) - std::cos(ang)) / curv;
        } else {
          cx += along * std::cos(ang);
          cy += along * std::sin(ang);
        }
        return geo::P2{cx - off * std::sin(a), cy + off * std::cos(a)};
      };
      // border k (0 = rightmost), nodes at segment boundaries shared
      std::vector<std::vector<LineString3d>> b(static_cast<size_t>(lanes) + 1);
      std::vector<std::vector<bool>> rev(static_cast<size_t>(lanes) + 1);
      for (int k = 0; k <= lanes; ++k) {
        Point3d prev = pt(at(0, k * width));
        for (int g = 0; g < segs; ++g) {
          Points3d p{prev};
          int mid = int(r.i(0, 3));
          for (int m = 1; m <= mid; ++m) p.push_back(pt(at((g + double(m) / (mid + 1)) * len, k * width)));
          prev = pt(at((g + 1) * len, k * width));
          p.push_back(prev);
          bool rv = r.p(0.3);
          if (rv) std::reverse(p.begin(), p.end());
          LineString3d l = ls(p);
          b[size_t(k)].push_back(rv ? l.invert() : l);
        }
      }
      for (int k = 0; k < lanes; ++k)
        for (int g = 0; g < segs; ++g) {
          Lanelet ll(ids(), b[size_t(k) + 1][size_t(g)], b[size_t(k)][size_t(g)], attrs());
          if (r.p(0.25)) ll = Lanelet(ids(), b[size_t(k)][size_t(g)].invert(), b[size_t(k) + 1][size_t(g)].invert(), attrs());
          if (o.customCenter && r.p(0.2)) {
            Points3d c{pt(at(g * len, (k + .5) * width)), pt(at((g + 1) * len, (k + .5) * width))};
            LineString3d cl = ls(c);
            ll.setCenterline(r.p(0.3) ? cl.invert() : cl);
          }
          w.lanelets.push_back(ll);
        }
    }
  }
  LineStrings3d splitRing(const geo::Ring& ring) {  // ring given in the wanted order
    Points3d p;
    for (auto& q : ring) p.push_back(pt(q));
    size_t n = p.size(), parts = size_t(r.i(1, int64_t(std::min<size_t>(4, n))));
    std::set<size_t> cut{0};
    while (cut.size() < parts) cut.insert(r.idx(n));
    std::vector<size_t> c(cut.begin(), cut.end());
    LineStrings3d res;
    for (size_t i = 0; i < c.size(); ++i) {
      size_t e = i + 1 < c.size() ? c[i + 1] : n + c[0];
      Points3d q;
      for (size_t k = c[i]; k <= e; ++k) q.push_back(p[k % n]);
      bool rv = r.p(0.3);
      if (rv) std::reverse(q.begin(), q.end());
      LineString3d l = ls(q);
      res.push_back(rv ? l.invert() : l);
    }
    return res;
  }
  void mkAreas() {
    for (int i = 0; i < o.areas; ++i) {
      geo::P2 c{r.d(-o.extent, o.extent), r.d(-o.extent, o.extent)};
      auto outer = starRing(r, c, 10, 18, int(r.i(3, 9)));
      std::reverse(outer.begin(), outer.end());
      InnerBounds inner;
      if (geo::inRing(outer, c) && geo::distRingBorder(outer, c) > 3 && r.p(0.4)) {
        inner.push_back(splitRing(starRing(r, c, 1, 2.5, int(r.i(3, 5)))));
      }
      w.areas.emplace_back(ids(), splitRing(outer), inner, attrs());
    }
  }
  Lanelet anyLanelet() {
    Lanelet l = w.lanelets[r.idx(w.lanelets.size())];
    return r.p(0.1) ? l.invert() : l;
  }
  LineString3d anyLine() {
    LineString3d l = w.lines[r.idx(w.lines.size())];
    return r.p(0.2) ? l.invert() : l;
  }
  LineStringOrPolygon3d anySign() {
    if (!w.polys.empty() && r.p(0.3)) return w.polys[r.idx(w.polys.size())];
    return anyLine();
  }
  RegulatoryElementPtr mkReg() {
    AttributeMap a = attrs();
    a.erase("type");
    a.erase("subtype");
    auto lsList = [&](int lo, int hi) {
      LineStringsOrPolygons3d v;
      for (int64_t n = r.i(lo, hi); n > 0; --n) v.push_back(anySign());
      return v;
    };
    Optional<LineString3d> stop;
    if (r.p(0.5)) stop = anyLine();
    bool haveLl = !w.lanelets.empty();
    switch (r.i(0, haveLl ? 5 : 3)) {
      case 0:
        return TrafficLight::make(ids(), a, lsList(1, 2), stop);
      case 1: {
        LineStrings3d ref, canc;
        for (int64_t n = r.i(0, 2); n > 0; --n) ref.push_back(anyLine());
        for (int64_t n = r.i(0, 1); n > 0; --n) canc.push_back(anyLine());
        return TrafficSign::make(ids(), a, {lsList(1, 2), "de205"}, {}, ref, canc);
      }
      case 2:
        return SpeedLimit::make(ids(), a, {lsList(1, 1), "de274-50"});
      case 3: {
        auto g = std::make_shared<GenericRegulatoryElement>(ids(), RuleParameterMap(), a);
        int n = int(r.i(1, 5));
        static const std::vector<std::string> Roles{"refers", "ref_line", "yield", "my role", "cancels", "x"};
        for (int i = 0; i < n; ++i) {
          auto role = Roles[r.idx(Roles.size())];
          switch (r.i(0, 4)) {
            case 0:
              if (o.regToFreeElements && r.p(.5))
                g->addParameter(role, pt({r.d(-o.extent, o.extent), r.d(-o.extent, o.extent)}));
              else
                g->addParameter(role, w.pts[r.idx(w.pts.size())]);
              break;
            case 1:
              g->addParameter(role, anyLine());
              break;
            case 2:
              if (!w.polys.empty()) g->addParameter(role, w.polys[r.idx(w.polys.size())]);
              break;
            case 3:
              if (haveLl) g->addParameter(role, WeakLanelet(w.lanelets[r.idx(w.lanelets.size())]));
              break;
            default:
              if (!w.areas.empty()) g->addParameter(role, WeakArea(w.areas[r.idx(w.areas.size())]));
          }
        }
        if (g->empty()) g->addParameter("refers", w.lines[0]);
        return g;
      }
      case 4: {
        Lanelets row, y;
        for (int64_t n = r.i(1, 2); n > 0; --n) row.push_back(w.lanelets[r.idx(w.lanelets.size())]);
        for (int64_t n = r.i(1, 2); n > 0; --n) y.push_back(w.lanelets[r.idx(w.lanelets.size())]);
        return RightOfWay::make(ids(), a, row, y, stop);
      }
      default: {
        LaneletsWithStopLines v;
        std::set<Id> seen;
        for (int64_t n = r.i(1, 3); n > 0; --n) {
          auto l = w.lanelets[r.idx(w.lanelets.size())];
          bool dup = false;
          for (auto& e : v) dup = dup || e.lanelet == l;
          if (!dup) v.push_back({l, {}});
        }
        bool withStop = r.p(0.5);
        if (withStop)
          for (auto& e : v) e.stopLine = anyLine();
        return AllWayStop::make(ids(), a, v, lsList(0, 1));
      }
    }
  }
  void mkRegs() {
    for (int i = 0; i < o.regs; ++i) {
      if (w.lines.empty()) break;
      auto re = mkReg();
      w.regs.push_back(re);
      int n = int(r.i(0, 2));
      for (int k = 0; k < n && !w.lanelets.empty(); ++k) {
        auto& l = w.lanelets[r.idx(w.lanelets.size())];
        bool has = false;
        for (auto& e : l.regulatoryElements()) has = has || e == re;
        if (!has) l.addRegulatoryElement(re);
      }
      if (!w.areas.empty() && r.p(0.3)) {
        auto& a = w.areas[r.idx(w.areas.size())];
        bool has = false;
        for (auto& e : a.regulatoryElements()) has = has || e == re;
        if (!has) a.addRegulatoryElement(re);
      }
    }
  }
  World& all() {
    strips();
    freeLines();
    freePolys();
    mkAreas();
    mkRegs();
    return w;
  }
};

inline geo::Box boxOf(const ConstLineString3d& l) {
  geo::Box b;
  for (size_t i = 0; i < l.size(); ++i) b.add(l[i].x(), l[i].y(), l[i].z());
  return b;
}
inline void mergeBox(geo::Box& b, const geo::Box& o) {
  if (o.empty()) return;
  b.add(o.x0, o.y0, o.z0);
  b.add(o.x1, o.y1, o.z1);
}
inline geo::Box boxOf(const ConstPoint3d& p) {
  geo::Box b;
  b.add(p.x(), p.y(), p.z());
  return b;
}
inline geo::Box boxOf(const ConstPolygon3d& p) {
  geo::Box b;
  for (size_t i = 0; i < p.size(); ++i) b.add(p[i].x(), p[i].y(), p[i].z());
  return b;
}
inline geo::Box boxOf(const ConstLanelet& l) {
  geo::Box b = boxOf(l.leftBound());
  mergeBox(b, boxOf(l.rightBound()));
  return b;
}
inline geo::Box boxOf(const ConstArea& a) {
  geo::Box b;
  for (auto& l : a.outerBound()) mergeBox(b, boxOf(l));
  return b;
}
inline geo::Shape shapeOf(const ConstPoint3d& p) {
  geo::Shape s;
  s.segs.push_back({{p.x(), p.y()}, {p.x(), p.y()}});
  return s;
}
inline geo::Shape shapeOf(const ConstLineString3d& l) {
  geo::Shape s;
  geo::segsOfLine(lineOf(l), s.segs);
  return s;
}
inline geo::Shape shapeOf(const ConstPolygon3d& l) {
  geo::Shape s;
  geo::Poly p;
  p.outer = ringOfPolygon(l);
  s.add(p);
  return s;
}
inline geo::Shape shapeOf(const ConstLanelet& l) {
  geo::Shape s;
  geo::Poly p;
  p.outer = ringOfLanelet(l);
  s.add(p);
  return s;
}
inline geo::Shape shapeOf(const ConstArea& a) {
  geo::Shape s;
  s.add(polyOfArea(a));
  return s;
}
struct RegVisit : RuleParameterVisitor {
  std::vector<std::pair<std::string, ConstRuleParameter>> all;
  void operator()(const ConstPoint3d& p) override { all.push_back({role, p}); }
  void operator()(const ConstLineString3d& p) override { all.push_back({role, p}); }
  void operator()(const ConstPolygon3d& p) override { all.push_back({role, p}); }
  void operator()(const ConstWeakLanelet& p) override { all.push_back({role, p}); }
  void operator()(const ConstWeakArea& p) override { all.push_back({role, p}); }
};
inline std::vector<std::pair<std::string, ConstRuleParameter>> paramsOf(const RegulatoryElement& re) {
  RegVisit v;
  re.applyVisitor(v);
  return v.all;
}
inline geo::Box boxOf(const RegulatoryElementConstPtr& re) {
  geo::Box b;
  for (auto& e : paramsOf(*re)) {
    auto& p = e.second;
    if (auto* x = boost::get<ConstPoint3d>(&p)) mergeBox(b, boxOf(*x));
    if (auto* x = boost::get<ConstLineString3d>(&p)) mergeBox(b, boxOf(*x));
    if (auto* x = boost::get<ConstPolygon3d>(&p)) mergeBox(b, boxOf(*x));
    if (auto* x = boost::get<ConstWeakLanelet>(&p))
      if (!x->expired()) mergeBox(b, boxOf(x->lock()));
    if (auto* x = boost::get<ConstWeakArea>(&p))
      if (!x->expired()) mergeBox(b, boxOf(x->lock()));
  }
  return b;
}
inline geo::Shape shapeOf(const RegulatoryElementConstPtr& re) {
  geo::Shape s;
  auto app = [&](const geo::Shape& o) {
    s.segs.insert(s.segs.end(), o.segs.begin(), o.segs.end());
    s.fills.insert(s.fills.end(), o.fills.begin(), o.fills.end());
  };
  for (auto& e : paramsOf(*re)) {
    auto& p = e.second;
    if (auto* x = boost::get<ConstPoint3d>(&p)) app(shapeOf(*x));
    if (auto* x = boost::get<ConstLineString3d>(&p)) app(shapeOf(*x));
    if (auto* x = boost::get<ConstPolygon3d>(&p)) app(shapeOf(*x));
    if (auto* x = boost::get<ConstWeakLanelet>(&p))
      if (!x->expired()) app(shapeOf(x->lock()));
    if (auto* x = boost::get<ConstWeakArea>(&p))
      if (!x->expired()) app(shapeOf(x->lock()));
  }
  return s;
}
}  // namespace gen
