// G05: bounding boxes behave like the sets of points they stand for and enclose exactly what they were made of.
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/BoundingBox.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include "gen.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;

namespace {
constexpr int N = 7;  // lattice of N x N points

struct Cell {  // a box as the set of its lattice points
  bool in[N][N]{};
  bool any{false};
  static Cell of(const BoundingBox2d& b, double s, BasicPoint2d o) {
    Cell c;
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) {
        c.in[i][j] = b.contains(BasicPoint2d(o.x() + i * s, o.y() + j * s));
        c.any = c.any || c.in[i][j];
      }
    return c;
  }
};

struct Range {  // plain intervals
  double lo[2], hi[2];
  bool has(double x, double y) const { return lo[0] <= x && x <= hi[0] && lo[1] <= y && y <= hi[1]; }
  bool empty() const { return lo[0] > hi[0] || lo[1] > hi[1]; }
};

void same(Ctx& c, const char* key, const BoundingBox2d& b, const geo::Box& w, const char* what) {
  if (w.empty()) {
    c.check(b.isEmpty(), key, what, ": box of nothing is not empty");
    return;
  }
  c.check(!b.isEmpty() && b.min().x() == w.x0 && b.min().y() == w.y0 && b.max().x() == w.x1 && b.max().y() == w.y1, key, what, ": [", b.min().x(), ",", b.min().y(), "]-[",
          b.max().x(), ",", b.max().y(), "] instead of [", w.x0, ",", w.y0, "]-[", w.x1, ",", w.y1, "]");
}
void same(Ctx& c, const char* key, const BoundingBox3d& b, const geo::Box& w, const char* what) {
  if (w.empty()) {
    c.check(b.isEmpty(), key, what, ": box of nothing is not empty");
    return;
  }
  c.check(!b.isEmpty() && b.min().x() == w.x0 && b.min().y() == w.y0 && b.min().z() == w.z0 && b.max().x() == w.x1 && b.max().y() == w.y1 && b.max().z() == w.z1, key, what,
          ": [", b.min().transpose(), "]-[", b.max().transpose(), "] instead of z ", w.z0, "..", w.z1);
}

struct ParamBox : public RuleParameterVisitor {
  geo::Box b;
  void operator()(const ConstPoint3d& p) override { gen::mergeBox(b, gen::boxOf(p)); }
  void operator()(const ConstLineString3d& l) override { gen::mergeBox(b, gen::boxOf(l)); }
  void operator()(const ConstPolygon3d& p) override { gen::mergeBox(b, gen::boxOf(p)); }
  void operator()(const ConstWeakLanelet& ll) override {
    if (!ll.expired()) gen::mergeBox(b, gen::boxOf(ll.lock()));
  }
  void operator()(const ConstWeakArea& ar) override {
    if (!ar.expired()) gen::mergeBox(b, gen::boxOf(ar.lock()));
  }
};

struct G05 : Harness {
  uint64_t numCases(bool th) override { return th ? 1500000 : 80000; }
  std::string rule() override {
    return "a case is one pair of boxes on a lattice compared with the sets of lattice points they contain and one generated map whose elements' boxes are compared "
           "with the extreme coordinates of their points; distinct states are hashes of the boxes and the map's shape";
  }

  void algebra(Ctx& c) {
    auto& r = c.rng;
    double s = r.pick({1., .25, 64.});
    BasicPoint2d o(r.pick({0., -3., 1024.}) * s, r.pick({0., -5., -4096.}) * s);
    auto at = [&](int64_t i, int64_t j) { return BasicPoint2d(o.x() + double(i) * s, o.y() + double(j) * s); };
    auto mk = [&](Range& w) {
      if (r.p(.06)) {
        w = {{1, 1}, {0, 0}};
        BoundingBox2d b;
        if (r.p(.5)) {
          b = BoundingBox2d(at(0, 0), at(3, 3));
          r.p(.5) ? b.setEmpty() : b.setNull();
        }
        return b;
      }
      int64_t a = r.i(0, N - 1), b = r.i(a, N - 1), d = r.i(0, N - 1), e = r.i(d, N - 1);
      w = {{at(a, d).x(), at(a, d).y()}, {at(b, e).x(), at(b, e).y()}};
      switch (r.i(0, 4)) {
        case 0: return BoundingBox2d(at(a, d), at(b, e));
        case 1: return BoundingBox2d(Eigen::AlignedBox<double, 2>(at(a, d), at(b, e)));
        case 2: {
          BoundingBox2d x(at(a, e));
          x.extend(at(b, d));
          return x;
        }
        case 3: {
          BoundingBox2d x;
          return x.extend(at(b, d)).extend(at(a, e));
        }
        default: return traits::to2D(BoundingBox3d(BasicPoint3d(at(a, d).x(), at(a, d).y(), -1), BasicPoint3d(at(b, e).x(), at(b, e).y(), 7)));
      }
    };
    Range wa, wb;
    BoundingBox2d A = mk(wa), B = mk(wb);
    Hash h;
    h(wa.lo[0])(wa.lo[1])(wa.hi[0])(wa.hi[1])(wb.lo[0])(wb.lo[1])(wb.hi[0])(wb.hi[1]);
    c.sig(h.h);
    c.check(A.isEmpty() == wa.empty() && A.isNull() == wa.empty(), "G05:empty", "isEmpty");
    Cell cb, ca = Cell::of(A, s, o);
    cb = Cell::of(B, s, o);
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) {
        c.check(ca.in[i][j] == wa.has(at(i, j).x(), at(i, j).y()), "G05:contains-point", "lattice point ", i, " ", j);
        auto half = at(i, j) + BasicPoint2d(s / 2, s / 2);
        c.check(A.contains(half) == wa.has(half.x(), half.y()), "G05:contains-point", "between lattice points ", i, " ", j);
      }
    bool common = false, subset = true;
    double best = geo::Inf;
    geo::Box u, both;
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < N; ++j) {
        if (ca.in[i][j] && cb.in[i][j]) {
          common = true;
          both.add(at(i, j).x(), at(i, j).y(), 0);
        }
        if (cb.in[i][j] && !ca.in[i][j]) subset = false;
        if (ca.in[i][j] || cb.in[i][j]) u.add(at(i, j).x(), at(i, j).y(), 0);
        if (!ca.in[i][j]) continue;
        for (int k = 0; k < N; ++k)
          for (int l = 0; l < N; ++l)
            if (cb.in[k][l]) best = std::min(best, (at(i, j) - at(k, l)).squaredNorm());
      }
    c.event(common ? "overlapping pairs" : "disjoint pairs");
    c.check(A.intersects(B) == common && B.intersects(A) == common, "G05:intersects", "common points: ", common);
    c.check(A.contains(B) == subset, "G05:contains-box", "subset: ", subset);
    same(c, "G05:intersection", A.intersection(B), both, "intersection");
    BoundingBox2d x = A;
    same(c, "G05:clamp", x.clamp(B), both, "clamp");
    c.check(&x.clamp(B) == &x, "G05:clamp", "does not return the box");
    same(c, "G05:merged", A.merged(B), u, "merged");
    x = A;
    same(c, "G05:extend", x.extend(B), u, "extend");
    x = A;
    BasicPoint2d p = at(r.i(-2, N + 1), r.i(-2, N + 1));
    geo::Box pu;
    if (!wa.empty()) {
      pu.add(wa.lo[0], wa.lo[1], 0);
      pu.add(wa.hi[0], wa.hi[1], 0);
    }
    pu.add(p.x(), p.y(), 0);
    same(c, "G05:extend", x.extend(p), pu, "extended by a point");
    c.check(x.contains(p), "G05:extend", "does not contain the point");
    if (!wa.empty() && !wb.empty()) {
      c.check(A.squaredExteriorDistance(B) == best && B.squaredExteriorDistance(A) == best, "G05:box-distance", A.squaredExteriorDistance(B), " instead of ", best);
      c.check(A.exteriorDistance(B) == std::sqrt(best), "G05:box-distance", "root");
    }
    if (!wa.empty()) {
      double pd = geo::Inf;
      for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
          if (ca.in[i][j]) pd = std::min(pd, (at(i, j) - p).squaredNorm());
      c.check(A.squaredExteriorDistance(p) == pd && A.exteriorDistance(p) == std::sqrt(pd), "G05:point-distance", A.squaredExteriorDistance(p), " instead of ", pd);
      double w = wa.hi[0] - wa.lo[0], t = wa.hi[1] - wa.lo[1];
      c.check(A.sizes() == BasicPoint2d(w, t) && A.diagonal() == BasicPoint2d(w, t) && A.volume() == w * t && A.dim() == 2, "G05:sizes", "sizes or volume");
      c.check(A.center() == BasicPoint2d(wa.lo[0] + w / 2, wa.lo[1] + t / 2), "G05:center", "center");
      c.check(A.contains(A.sample()), "G05:sample", "a sampled point is outside");
      using B2 = BoundingBox2d;
      c.check(A.corner(B2::BottomLeft) == BasicPoint2d(wa.lo[0], wa.lo[1]) && A.corner(B2::BottomRight) == BasicPoint2d(wa.hi[0], wa.lo[1]) &&
                  A.corner(B2::TopLeft) == BasicPoint2d(wa.lo[0], wa.hi[1]) && A.corner(B2::TopRight) == BasicPoint2d(wa.hi[0], wa.hi[1]) &&
                  A.corner(B2::Min) == A.min() && A.corner(B2::BottomRight) == A.corner(B2::CornerType(1)),
              "G05:corner", "corners");
      BoundingBox2d m = A;
      m.translate(BasicPoint2d(3 * s, -2 * s));
      geo::Box mw;
      mw.add(wa.lo[0] + 3 * s, wa.lo[1] - 2 * s, 0);
      mw.add(wa.hi[0] + 3 * s, wa.hi[1] - 2 * s, 0);
      same(c, "G05:translate", m, mw, "translated");
      auto a3 = traits::to3D(A);
      c.check(a3.min() == BasicPoint3d(wa.lo[0], wa.lo[1], 0) && a3.max() == BasicPoint3d(wa.hi[0], wa.hi[1], 0), "G05:to3D", "3d box");
      c.check(geometry::boundingBox3d(A).isApprox(a3) && geometry::boundingBox2d(a3).isApprox(A) && geometry::boundingBox2d(A).isApprox(A), "G05:trivial", "box of a box");
      bool eq = wa.lo[0] == wb.lo[0] && wa.lo[1] == wb.lo[1] && wa.hi[0] == wb.hi[0] && wa.hi[1] == wb.hi[1];
      if (!wb.empty() && o.x() == 0 && o.y() == 0) c.check(A.isApprox(B) == eq, "G05:isApprox", "equal: ", eq);
      c.check(geometry::boundingBox2d(p).min() == p && geometry::boundingBox2d(p).max() == p, "G05:point", "box of a point");
    }
  }

  void elements(Ctx& c) {
    auto& r = c.rng;
    gen::IdSource ids(r);
    gen::WorldOpts o;
    o.strips = int(r.i(1, 2));
    o.regs = int(r.i(1, 6));
    o.areas = int(r.i(0, 2));
    o.extent = r.pick({20., 300.});
    if (r.p(.2)) o.grid = 4;
    gen::WorldGen g(r, ids, o);
    auto& w = g.all();
    Hash h;
    h(uint64_t(w.pts.size()))(uint64_t(w.lines.size()))(w.pts[0].x());
    c.sig(h.h);
    using namespace geometry;
    for (int k = 0; k < 3; ++k) {
      Point3d p = w.pts[r.idx(w.pts.size())];
      auto b = gen::boxOf(p);
      same(c, "G05:element", boundingBox2d(p), b, "point");
      same(c, "G05:element", boundingBox2d(utils::to2D(p)), b, "2d point");
      same(c, "G05:element", boundingBox3d(p), b, "point");
      same(c, "G05:element", boundingBox3d(utils::to2D(p)), b, "2d point");
      same(c, "G05:element", boundingBox3d(p.basicPoint()), b, "basic point");
      same(c, "G05:element", boundingBox2d(p.basicPoint()), b, "basic point");
      auto flat = b;
      flat.z0 = flat.z1 = 0;
      same(c, "G05:element", boundingBox3d(p.basicPoint2d()), flat, "basic 2d point");
      LineString3d l = g.anyLine();
      b = gen::boxOf(l);
      same(c, "G05:element", boundingBox2d(utils::to2D(l)), b, "line string");
      same(c, "G05:element", boundingBox2d(utils::toHybrid(utils::to2D(l))), b, "hybrid line string");
      same(c, "G05:element", boundingBox2d(utils::to2D(l).basicLineString()), b, "basic line string");
      same(c, "G05:element", boundingBox3d(l), b, "line string");
      same(c, "G05:element", boundingBox3d(l.basicLineString()), b, "basic line string");
      LineString3d l2 = g.anyLine();
      CompoundLineString3d cl(LineStrings3d{l, l2});
      auto bb = b;
      gen::mergeBox(bb, gen::boxOf(l2));
      same(c, "G05:element", boundingBox3d(cl), bb, "compound line string");
      same(c, "G05:element", boundingBox2d(utils::to2D(cl)), bb, "compound line string");
      if (!w.polys.empty()) {
        Polygon3d y = w.polys[r.idx(w.polys.size())];
        auto yb = gen::boxOf(y);
        same(c, "G05:element", boundingBox2d(utils::to2D(y)), yb, "polygon");
        same(c, "G05:element", boundingBox3d(y), yb, "polygon");
      }
      Lanelet ll = g.anyLanelet();
      same(c, "G05:element", boundingBox2d(ll), gen::boxOf(ll), "lanelet");
      same(c, "G05:element", boundingBox3d(ConstLanelet(ll)), gen::boxOf(ll), "lanelet");
      same(c, "G05:element", boundingBox2d(ll.polygon2d()), gen::boxOf(ll), "outline of a lanelet");
      if (!w.areas.empty()) {
        Area a = w.areas[r.idx(w.areas.size())];
        same(c, "G05:element", boundingBox2d(a), gen::boxOf(a), "area");
        same(c, "G05:element", boundingBox3d(ConstArea(a)), gen::boxOf(a), "area");
      }
    }
    bool dropped = r.p(.3);
    if (dropped) {  // references to elements that are gone do not count
      Lanelet tmp(ids.valid(), g.anyLine(), g.anyLine());
      Area ta(ids.valid(), LineStrings3d{g.anyLine(), g.anyLine()});
      auto ge = std::make_shared<GenericRegulatoryElement>(ids.valid());
      ge->addParameter("a", WeakLanelet(tmp));
      ge->addParameter("b", WeakArea(ta));
      if (r.p(.7)) ge->addParameter("a", g.anyLine());
      if (r.p(.5)) ge->addParameter("c", w.pts[r.idx(w.pts.size())]);
      w.regs.push_back(ge);
      c.event("regulatory elements with lost references");
    }
    for (auto& re : w.regs) {
      ParamBox pb;
      for (auto& prm : re->getParameters())
        for (auto& v : prm.second) {
          boost::apply_visitor([&](auto& e) { pb(e); }, v);
        }
      RegulatoryElementConstPtr cre = re;
      same(c, "G05:regulatory-element", boundingBox2d(*re), pb.b, "regulatory element");
      same(c, "G05:regulatory-element", boundingBox2d(cre), pb.b, "regulatory element");
      same(c, "G05:regulatory-element", boundingBox3d(*re), pb.b, "regulatory element");
      same(c, "G05:regulatory-element", boundingBox3d(cre), pb.b, "regulatory element");
      c.event("boxes of regulatory elements");
    }
  }

  void run(Ctx& c) override {
    for (int k = 0; k < 4; ++k) algebra(c);
    elements(c);
  }
};
VF_HARNESS(G05, "G05");
}  // namespace
