// C05 line string views, C06 lanelet orientation/centerline, C07 attributes, C08 regulatory elements
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/utility/Units.h>

#include <cfloat>

#include "gen.h"
#include "vf.h"
using namespace lanelet;
using namespace vf;

namespace {
// ------------------------------------------------------------------ C05
using Model = std::vector<size_t>;  // indices into the point pool
struct Pool {
  std::vector<Point3d> p;
  const void* id(size_t i) const { return p[i].constData().get(); }
  size_t find(const void* d) const {
    for (size_t i = 0; i < p.size(); ++i)
      if (id(i) == d) return i;
    return size_t(-1);
  }
};

Model oriented(Model m, bool inv) {
  if (inv) std::reverse(m.begin(), m.end());
  return m;
}
std::string str(const Model& m) {
  std::string s;
  for (auto i : m) s += std::to_string(i) + " ";
  return s;
}

struct C05 : Harness {
  uint64_t numCases(bool t) override { return t ? 400000 : 30000; }
  std::string rule() override {
    return "random op sequences on line strings and polygons through all view types against a plain vector";
  }
  Ctx* c{nullptr};
  Pool pool;
  struct Line {
    LineString3d ls;
    Model m;
  };
  std::vector<Line> lines;

  template <typename PointT>
  auto same(const PointT& p, size_t i) -> decltype(p.constData(), bool()) {
    return p.constData().get() == pool.id(i);
  }
  template <typename D>
  bool same(const Eigen::MatrixBase<D>& p, size_t i) {
    const Point3d& q = pool.p[i];
    return p(0) == q.x() && p(1) == q.y() && (D::RowsAtCompileTime < 3 || p(D::RowsAtCompileTime - 1) == q.z());
  }
  template <typename V>
  void observe(const V& v, const Model& m, const char* what, bool segs) {
    size_t n = m.size();
    c->check(v.size() == n, "C05:size", what, " size ", v.size(), " expected ", n);
    c->check(v.empty() == (n == 0), "C05:empty", what);
    size_t k = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++k) {
      c->check(k < n, "C05:iter-overrun", what);
      c->check(same(*it, m[k]), "C05:forward-iteration", what, " at ", k, " model ", str(m));
    }
    c->check(k == n, "C05:forward-iteration-count", what, " ", k, " of ", n);
    k = 0;
    for (auto&& e : v) c->check(k < n && same(e, m[k]), "C05:range-for", what), ++k;
    k = n;
    if (n > 0)
      for (auto it = v.end(); it != v.begin();) {
        --it;
        c->check(k > 0, "C05:backward-overrun", what);
        --k;
        c->check(same(*it, m[k]), "C05:backward-iteration", what, " at ", k, " model ", str(m));
      }
    if (n > 0) c->check(k == 0, "C05:backward-iteration-count", what, " left ", k);
    c->check(size_t(std::distance(v.begin(), v.end())) == n, "C05:distance", what);
    if (n > 0) {
      c->check(same(v.front(), m[0]), "C05:front", what);
      c->check(same(v.back(), m[n - 1]), "C05:back", what);
      for (size_t i = 0; i < n; ++i) {
        c->check(same(v[i], m[i]), "C05:index", what, " [", i, "] model ", str(m));
        c->check(same(*std::next(v.begin(), long(i)), m[i]), "C05:random-access", what, " +", i);
        c->check(same(*std::prev(v.end(), long(n - i)), m[i]), "C05:random-access-back", what, " -", n - i);
        c->check(size_t(std::distance(v.begin(), v.begin() + long(i))) == i, "C05:distance-partial", what);
        if (segs) {
          auto s = v.segment(i);
          c->check(same(s.first, m[i]) && same(s.second, m[(i + 1) % n]), "C05:segment", what, " ", i);
        }
      }
      size_t a = c->rng.idx(n), b = c->rng.idx(n);
      c->check(((v.begin() + long(a)) < (v.begin() + long(b))) == (a < b), "C05:iterator-order", what);
    }
    if (segs) {
      using Cat = typename V::Category;
      size_t exp = std::is_same<Cat, traits::PolygonTag>::value ? (n < 2 ? 0 : n) : (n < 2 ? 0 : n - 1);
      // a polygon made of one single point has no documented segment count
      c->check(v.numSegments() == exp, "C05:num-segments", what, " ", v.numSegments(), " expected ", exp, " for n=", n);
    }
    c->event("view-comparisons");
  }
  template <typename B>
  void observeBasic(const B& b, const Model& m, const char* what) {
    c->check(b.size() == m.size(), "C05:basic-size", what);
    for (size_t i = 0; i < m.size(); ++i) c->check(same(b[i], m[i]), "C05:basic-point", what, " ", i);
  }
  void observeAll(Line& l) {
    for (bool inv : {false, true}) {
      Model m = oriented(l.m, inv);
      LineString3d ls = inv ? l.ls.invert() : l.ls;
      c->check(ls.inverted() == (l.ls.inverted() != inv), "C05:inverted-flag", "");
      c->check(ls.invert().invert() == ls && ls.invert() != ls, "C05:double-inversion", "");
      c->check(ls.id() == l.ls.id(), "C05:id", "");
      ConstLineString3d cls = ls;
      observe(ls, m, "LineString3d", true);
      observe(cls, m, "ConstLineString3d", true);
      LineString2d l2 = utils::to2D(ls);
      ConstLineString2d cl2 = utils::to2D(cls);
      observe(l2, m, "LineString2d", true);
      observe(cl2, m, "ConstLineString2d", true);
      c->check(utils::to3D(l2) == ls && utils::to3D(cl2) == cls, "C05:2d-3d-roundtrip", "");
      observe(ConstHybridLineString3d(cls), m, "HybridLineString3d", true);
      observe(ConstHybridLineString2d(cl2), m, "HybridLineString2d", true);
      observe(ConstHybridLineString3d(cls).invert().invert(), m, "HybridLineString3d-inv-inv", true);
      observe(ConstHybridLineString2d(cl2).invert(), oriented(m, true), "HybridLineString2d-inv", true);
      observeBasic(ls.basicLineString(), m, "basicLineString3d");
      observeBasic(cl2.basicLineString(), m, "basicLineString2d");
      Polygon3d p3(ls);
      Polygon2d p2 = utils::to2D(p3);
      ConstPolygon3d cp3(cls);
      observe(p3, m, "Polygon3d", true);
      observe(p2, m, "Polygon2d", true);
      observe(cp3, m, "ConstPolygon3d", true);
      observe(ConstPolygon2d(cl2), m, "ConstPolygon2d", true);
      observe(ConstHybridPolygon3d(cp3), m, "HybridPolygon3d", false);
      observe(ConstHybridPolygon2d(utils::to2D(cp3)), m, "HybridPolygon2d", false);
      observeBasic(cp3.basicPolygon(), m, "basicPolygon3d");
      observeBasic(p2.basicPolygon(), m, "basicPolygon2d");
      c->check(LineString3d(p3) == ls && ConstLineString3d(cp3) == cls, "C05:polygon-roundtrip", "");
      std::set<size_t> ms(m.begin(), m.end());
      for (size_t i = 0; i < pool.p.size(); ++i)
        c->check(utils::has(cls, pool.p[i].id()) == (ms.count(i) > 0), "C05:has", "");
    }
  }
  size_t anyPoint() {
    if (pool.p.size() < 6 || (pool.p.size() < 40 && c->rng.p(.2)))
      pool.p.push_back(Point3d(Id(100000 + pool.p.size()), c->rng.d(-50, 50), c->rng.d(-50, 50), c->rng.d(-3, 3)));
    return c->rng.idx(pool.p.size());
  }
  template <typename B>
  static LineStringImpl<B>& impl(LineStringImpl<B>& l) {
    return l;
  }
  static void moveAssign(LineString2d& l, Points3d p) { impl(l) = std::move(p); }
  template <typename V>
  static void moveAssign(V& l, Points3d p) {
    impl(l) = p;
  }
  // mutates through view v whose content is model o (already oriented); returns new oriented model
  template <typename V>
  Model mutate(V v, Model o, std::string& op) {
    using P = typename V::PointType;
    auto& r = c->rng;
    size_t n = o.size();
    auto mk = [&](size_t i) { return P(pool.p[i]); };
    auto posOf = [&](typename V::iterator it) { return size_t(std::distance(v.begin(), it)); };
    switch (r.i(0, 13)) {
      case 0: {
        size_t i = anyPoint();
        op = "push_back";
        v.push_back(mk(i));
        o.push_back(i);
        break;
      }
      case 1:
        if (n == 0) break;
        op = "pop_back";
        v.pop_back();
        o.pop_back();
        break;
      case 2:
      case 3: {
        size_t i = anyPoint(), at = r.idx(n + 1);
        op = "insert at " + std::to_string(at);
        auto it = v.insert(v.begin() + long(at), mk(i));
        o.insert(o.begin() + long(at), i);
        c->check(posOf(it) == at, "C05:insert-result", "inverted ", v.inverted(), " at ", at, " got ", posOf(it));
        c->check(same(*it, i), "C05:insert-result-value", "");
        break;
      }
      case 4:
      case 5: {
        size_t at = r.idx(n + 1), k = r.idx(5);
        std::vector<P> pts;
        Model mp;
        for (size_t q = 0; q < k; ++q) {
          mp.push_back(anyPoint());
          pts.push_back(mk(mp.back()));
        }
        op = "insert range of " + std::to_string(k) + " at " + std::to_string(at);
        std::vector<Point3d> pts3;
        for (auto q : mp) pts3.push_back(pool.p[q]);
        auto it = v.insert(v.begin() + long(at), pts3.begin(), pts3.end());
        o.insert(o.begin() + long(at), mp.begin(), mp.end());
        // on an inverted line string the result refers to the last of the inserted points (settled by the tests);
        // the result of inserting nothing there is not settled
        size_t expAt = v.inverted() ? at + k - 1 : at;
        if (k || !v.inverted())
          c->check(posOf(it) == expAt, "C05:insert-range-result", "inverted ", v.inverted(), " n ", k, " at ", at, " got ", posOf(it));
        if (k) c->event(v.inverted() ? "range-insert-inverted" : "range-insert");
        break;
      }
      case 6:
      case 7: {
        if (n == 0) break;
        size_t at = r.idx(n);
        op = "erase at " + std::to_string(at);
        auto it = v.erase(v.begin() + long(at));
        o.erase(o.begin() + long(at));
        c->check(posOf(it) == at, "C05:erase-result", "inverted ", v.inverted(), " at ", at, " got ", posOf(it));
        break;
      }
      case 8: {
        size_t to = r.idx(n + 1);  // growing creates points without id: checked separately
        op = "resize to " + std::to_string(to);
        v.resize(to);
        o.resize(to);
        break;
      }
      case 9: {
        if (!r.p(.2)) break;
        op = "clear";
        v.clear();
        o.clear();
        break;
      }
      case 10: {
        size_t k = r.idx(5);
        std::vector<P> pts;
        Model mp;
        for (size_t q = 0; q < k; ++q) {
          mp.push_back(anyPoint());
          pts.push_back(mk(mp.back()));
        }
        op = "assign";
        if (r.p(.5)) {
          std::vector<Point3d> p3;
          for (auto q : mp) p3.push_back(pool.p[q]);
          Id id = v.id();
          moveAssign(v, p3);
          c->check(v.id() == id, "C05:assign-keeps-id", "");
        } else {
          impl(v) = pts;
        }
        o = mp;
        break;
      }
      case 11: {
        if (n == 0) break;
        size_t at = r.idx(n), i = anyPoint();
        op = "element assignment";
        switch (r.i(0, 3)) {
          case 0:
            v[at] = mk(i);
            break;
          case 1:
            *(v.begin() + long(at)) = mk(i);
            break;
          case 2:
            at = 0;
            v.front() = mk(i);
            break;
          default:
            at = n - 1;
            v.back() = mk(i);
        }
        o[at] = i;
        break;
      }
      case 12: {
        if (n == 0) break;
        // change coordinates through the view: visible through every other one
        size_t at = r.idx(n);
        op = "coordinate change";
        double nx = r.d(-50, 50), ny = r.d(-50, 50);
        v[at].x() = nx;
        v[at].basicPoint()[1] = ny;
        c->check(pool.p[o[at]].x() == nx && pool.p[o[at]].basicPoint().y() == ny, "C05:coordinate-write", "");
        const Point3d& cp = pool.p[o[at]];
        c->check(cp.basicPoint2d().x() == nx && cp.basicPoint2d().y() == ny, "C05:coordinate-write-2d", "");
        break;
      }
      default: {  // erase-remove idiom / std algorithms through the view
        if (n < 2) break;
        op = "reverse algorithm";
        std::reverse(v.begin(), v.end());
        std::reverse(o.begin(), o.end());
      }
    }
    return o;
  }
  void compounds() {
    auto& r = c->rng;
    for (int rep = 0; rep < 3; ++rep) {
      ConstLineStrings3d parts;
      Ids ids;
      Model cat;
      size_t k = r.idx(5);
      for (size_t i = 0; i < k; ++i) {
        Line& l = lines[r.idx(lines.size())];
        bool inv = r.p(.4);
        parts.push_back(inv ? ConstLineString3d(l.ls.invert()) : ConstLineString3d(l.ls));
        Model m = oriented(l.m, inv);
        cat.insert(cat.end(), m.begin(), m.end());
        ids.push_back(l.ls.id());
      }
      Model u = cat;
      u.erase(std::unique(u.begin(), u.end()), u.end());
      if (u.size() < cat.size()) c->event("compound-shared-joints");
      CompoundLineString3d cl(parts);
      CompoundLineString2d cl2 = utils::to2D(cl);
      observe(cl, u, "CompoundLineString3d", true);
      observe(cl2, u, "CompoundLineString2d", true);
      observe(cl.invert(), oriented(u, true), "CompoundLineString3d-inv", true);
      observe(cl2.invert(), oriented(u, true), "CompoundLineString2d-inv", true);
      observe(cl.invert().invert(), u, "CompoundLineString3d-inv-inv", true);
      observe(CompoundHybridLineString3d(cl), u, "CompoundHybridLineString3d", false);
      observe(CompoundHybridLineString2d(cl2.invert()), oriented(u, true), "CompoundHybridLineString2d-inv", false);
      observe(CompoundPolygon3d(cl), u, "CompoundPolygon3d", true);
      observe(CompoundPolygon2d(cl2), u, "CompoundPolygon2d", true);
      observe(CompoundHybridPolygon2d(CompoundPolygon2d(cl2)), u, "CompoundHybridPolygon2d", false);
      observeBasic(cl.basicLineString(), u, "compound-basic3d");
      observeBasic(cl2.invert().basicLineString(), oriented(u, true), "compound-basic2d-inv");
      observeBasic(CompoundPolygon2d(cl2).basicPolygon(), u, "compound-basicPolygon");
      c->check(cl.ids() == ids, "C05:compound-ids", "");
      Ids rids(ids.rbegin(), ids.rend());
      c->check(cl.invert().ids() == rids, "C05:compound-ids-inverted", "");
      c->check(cl.lineStrings() == parts, "C05:compound-parts", "");
      auto ip = cl.invert().lineStrings();
      c->check(ip.size() == parts.size(), "C05:compound-parts-inverted", "");
      for (size_t i = 0; i < ip.size(); ++i)
        c->check(ip[i] == parts[parts.size() - 1 - i].invert(), "C05:compound-parts-inverted", "");
      // nested
      CompoundLineString3d nest(CompoundLineStrings3d{cl, cl.invert()});
      Model nm = cat;
      nm.insert(nm.end(), cat.rbegin(), cat.rend());
      nm.erase(std::unique(nm.begin(), nm.end()), nm.end());
      observe(nest, nm, "nested-compound", true);
    }
  }
  void run(Ctx& ctx) override {
    c = &ctx;
    auto& r = c->rng;
    pool.p.clear();
    lines.clear();
    for (int i = 0; i < 3; ++i) {
      Points3d pts;
      Model m;
      for (int64_t n = r.i(0, 5); n > 0; --n) {
        size_t k = anyPoint();
        m.push_back(k);
        pts.push_back(pool.p[k]);
      }
      lines.push_back({LineString3d(10 + i, pts), m});
    }
    std::string trace;
    int ops = int(r.i(4, 24));
    for (int k = 0; k < ops; ++k) {
      Line& l = lines[r.idx(lines.size())];
      bool inv = r.p(.5);
      LineString3d ls = inv ? l.ls.invert() : l.ls;
      Model o = oriented(l.m, inv);
      std::string op = "none";
      switch (r.i(0, 3)) {
        case 0:
        case 1:
          o = mutate<LineString3d>(ls, o, op);
          break;
        case 2:
          o = mutate<LineString2d>(utils::to2D(ls), o, op);
          break;
        default:
          o = mutate<Polygon3d>(Polygon3d(ls), o, op);
      }
      l.m = oriented(o, inv);
      trace += op + (inv ? "(inv); " : "; ");
      c->event("op:" + op.substr(0, op.find(" at ")).substr(0, op.find(" of ")).substr(0, op.find(" to ")));
      c->sig(Hash()(op)(uint64_t(inv))(uint64_t(l.m.size())).h);
      // the element through the touched view first, everything else at the end
      if (std::getenv("VF_TRACE")) std::cerr << trace << std::endl;
      observe(l.ls, l.m, "base", true);
      observe(l.ls.invert(), oriented(l.m, true), "base-inverted", true);
    }
    // growing resize: old points stay in place, new ones are valid objects without id
    {
      LineString3d ls = lines[0].ls;
      Model m = lines[0].m;
      bool inv = r.p(.5);
      LineString3d v = inv ? ls.invert() : ls;
      Model o = oriented(m, inv);
      v.resize(o.size() + 2);
      c->check(v.size() == o.size() + 2, "C05:resize-grow", "");
      for (size_t i = 0; i < o.size(); ++i) c->check(same(v[i], o[i]), "C05:resize-grow", i);
      for (size_t i = o.size(); i < v.size(); ++i) c->check(v[i].id() == InvalId, "C05:resize-grow-new", i);
      v.resize(o.size());
    }
    for (auto& l : lines) observeAll(l);
    compounds();
    if (c->wantSample()) c->sample(trace);
  }
};
VF_HARNESS(C05, "C05");

// ------------------------------------------------------------------ C06
std::vector<const void*> idsOf(const ConstLineString3d& l) {
  std::vector<const void*> v;
  for (size_t i = 0; i < l.size(); ++i) v.push_back(l[i].constData().get());
  return v;
}
struct C06 : Harness {
  uint64_t numCases(bool t) override { return t ? 100000 : 8000; }
  std::string rule() override {
    return "random operations on shared lanelet/area copies, monitored against the bounds they currently have";
  }
  Ctx* c{nullptr};
  // well-formed curved lanelet geometry around an arc: returns left/right points
  void strip(Points3d& left, Points3d& right, bool& wellFormed) {
    auto& r = c->rng;
    wellFormed = true;
    double w = r.d(2, 5), len = r.d(5, 40), curv = r.d(-0.08, 0.08), x0 = r.d(-100, 100), y0 = r.d(-100, 100),
           a0 = r.d(0, 2 * M_PI);
    auto at = [&](double t, double off) {
      double a = a0 + curv * t, x = x0, y = y0;
      if (std::fabs(curv) > 1e-6) {
        x += (std::sin(a) - std::sin(a0)) / curv;
        y -= (std::cos(a) - std::cos(a0)) / curv;
      } else {
        x += t * std::cos(a0);
        y += t * std::sin(a0);
      }
      return Point3d(utils::getId(), x - off * std::sin(a), y + off * std::cos(a), r.d(-2, 2));
    };
    auto side = [&](double off) {
      std::vector<double> t{0};
      int n = int(r.i(1, 8));
      for (int i = 1; i < n; ++i) t.push_back(len * i / n + r.d(-.3, .3) * len / n);
      t.push_back(len);
      Points3d p;
      for (double v : t) p.push_back(at(v, off));
      return p;
    };
    left = side(w / 2);
    right = side(-w / 2);
    double taper = r.d(0, 1);
    if (taper < 0.15) {  // closed at the beginning
      left.front() = right.front();
      c->event("closed-begin");
    } else if (taper < 0.25) {
      left.back() = right.back();
      c->event("closed-end");
    } else if (taper < 0.3) {
      left.resize(1);
      wellFormed = false;
      c->event("single-point-bound");
    } else if (taper < 0.35) {
      left.resize(1);
      right.resize(1);
      wellFormed = false;
    } else if (taper < 0.37) {  // all of the left bound is the first point of the right one
      left = {right.front()};
      wellFormed = false;
      c->event("left-bound-is-first-right-point");
    }
  }
  static std::string dump(const ConstLineString3d& l, const ConstLineString3d& r, const ConstLineString3d& cl) {
    std::ostringstream o;
    for (auto* x : {&l, &r, &cl}) {
      o << (x == &l ? "\n left" : x == &r ? "\n right" : "\n center");
      for (auto& p : *x) o << " (" << p.x() << " " << p.y() << ")";
    }
    return o.str();
  }
  // every point of a derived centerline is half way between a point of the left and a point of the right bound, and the
  // points are passed in the order of the bounds
  void checkPairs(const ConstLineString3d& lb, const ConstLineString3d& rb, const ConstLineString3d& cl) {
    if (lb.size() * rb.size() > 900) return;
    std::vector<std::pair<size_t, size_t>> front{{0, 0}};
    for (size_t k = 0; k < cl.size(); ++k) {
      std::vector<std::pair<size_t, size_t>> next;
      for (size_t i = 0; i < lb.size(); ++i) {
        size_t from = rb.size();
        for (auto& f : front)
          if (f.first <= i) from = std::min(from, f.second);
        for (size_t j = from; j < rb.size(); ++j) {
          BasicPoint3d m = (lb[i].basicPoint() + rb[j].basicPoint()) / 2;
          if ((m - cl[k].basicPoint()).norm() > 1e-9 * (1 + m.norm())) continue;
          next.emplace_back(i, j);  // pairs with a larger j for the same i are dominated
          break;
        }
      }
      c->check(!next.empty(), "C06:centerline-between", "point ", k, " is not half way between points of the bounds in their order", dump(lb, rb, cl));
      front = next;
    }
    c->event("centerline-pairs-checked");
  }
  void checkDerived(const ConstLanelet& ll, bool wellFormed) {
    ConstLineString3d cl = ll.centerline();
    auto lb = ll.leftBound(), rb = ll.rightBound();
    if (lb.empty() || rb.empty()) {
      c->check(cl.empty(), "C06:empty-centerline", "");
      return;
    }
    c->check(cl.size() >= 1, "C06:centerline-empty", "");
    auto mid = [](const ConstPoint3d& a, const ConstPoint3d& b) {
      return BasicPoint3d((a.basicPoint() + b.basicPoint()) / 2);
    };
    auto f = mid(lb.front(), rb.front()), b = mid(lb.back(), rb.back());
    c->check((cl.front().basicPoint() - f).norm() < 1e-9, "C06:centerline-start", cl.front(), " expected ", f.transpose());
    c->check((cl.back().basicPoint() - b).norm() < 1e-9, "C06:centerline-end", cl.back(), " expected ", b.transpose());
    checkPairs(lb, rb, cl);
    if (!wellFormed) return;
    geo::Poly p;
    p.outer = gen::ringOfLanelet(ll);
    // well formed: a simple outline with the left bound on the left side
    if (!geo::simpleRing(p.outer) || geo::ringArea(p.outer) >= 0) return;
    c->event("centerlines-inside-checked");
    bool cb = ll.inverted() ? lb.back() == rb.back() : lb.front() == rb.front();
    bool ce = ll.inverted() ? lb.front() == rb.front() : lb.back() == rb.back();
    // known limitation: starts in a tip and one bound begins with a straight piece of several points or is one segment
    (void)ce;
    auto straight = [&](ConstLineString3d b) {
      if (ll.inverted()) b = b.invert();
      if (b.size() == 2) return true;
      geo::P2 u{b[1].x() - b[0].x(), b[1].y() - b[0].y()}, v{b[2].x() - b[0].x(), b[2].y() - b[0].y()};
      return b.size() < 2 || std::fabs(geo::cross(u, v)) < 1e-6 * geo::norm(u) * geo::norm(v);
    };
    bool narrow = cb && (straight(lb) || straight(rb));
    if (cb) c->event(narrow ? "closed-begin-narrow-checked" : "closed-begin-checked");
    for (size_t i = 0; i < cl.size(); ++i) {
      geo::P2 q{cl[i].x(), cl[i].y()};
      c->check(p.dist(q) < 1e-6, "C06:centerline-point-outside", "point ", i, " by ", p.dist(q));
      if (i + 1 < cl.size())
        for (int k = 1; k < 8; ++k) {
          geo::P2 m = q + (geo::P2{cl[i + 1].x(), cl[i + 1].y()} - q) * (k / 8.);
          c->check(p.dist(m) < 1e-6, narrow ? "C06:centerline-outside-closed-begin-straight-bound" : "C06:centerline-segment-outside", "segment ", i, " by ", p.dist(m), dump(lb, rb, cl));
        }
    }
  }
  void checkState(const Lanelet& base, const LineString3d& L, const LineString3d& R, const Optional<LineString3d>& custom,
                  bool wf) {
    for (bool inv : {false, true}) {
      ConstLanelet ll = inv ? ConstLanelet(base).invert() : ConstLanelet(base);
      ConstLineString3d l = inv ? R.invert() : L, r = inv ? L.invert() : R;
      c->check(ll.leftBound() == l && ll.rightBound() == r, "C06:bounds", "inverted ", inv);
      c->check(ll.leftBound2d() == utils::to2D(l) && ll.rightBound2d() == utils::to2D(r), "C06:bounds2d", "");
      c->check(ll.leftBound3d() == l && ll.rightBound3d() == r, "C06:bounds3d", "");
      c->check(ll.invert().invert() == ll && ll.invert() != ll, "C06:double-inversion", "");
      c->check(ll.hasCustomCenterline() == !!custom, "C06:custom-flag", "");
      if (custom) {
        ConstLineString3d cc = inv ? custom->invert() : *custom;
        c->check(ll.centerline() == cc, "C06:custom-centerline", "inverted ", inv);
        c->check(utils::to3D(ll.centerline2d()) == cc, "C06:custom-centerline2d", "");
      } else {
        checkDerived(ll, wf);
        c->check(ll.centerline().id() == InvalId, "C06:derived-has-id", "");
        auto a = gen::lineOf3(ll.centerline()), b = gen::lineOf3(ll.invert().centerline());
        std::reverse(b.begin(), b.end());
        bool eq = a.size() == b.size();
        for (size_t i = 0; eq && i < a.size(); ++i) eq = geo::norm(a[i] - b[i]) == 0;
        c->check(eq, "C06:centerline-inversion", "");
        // same as computed from scratch
        Lanelet fresh(1, L, R);
        auto f = gen::lineOf3(inv ? ConstLanelet(fresh).invert().centerline() : ConstLanelet(fresh).centerline());
        eq = a.size() == f.size();
        for (size_t i = 0; eq && i < a.size(); ++i) eq = geo::norm(a[i] - f[i]) == 0;
        c->check(eq, "C06:stale-centerline", "cached centerline differs from one derived from the current bounds");
        c->event("derived-centerlines");
      }
      // outline: left then inverted right, independent of orientation of the view
      auto poly = ll.polygon3d();
      auto pi = idsOf(L);
      auto ri = idsOf(R.invert());
      pi.insert(pi.end(), ri.begin(), ri.end());
      pi.erase(std::unique(pi.begin(), pi.end()), pi.end());
      std::vector<const void*> got;
      for (auto& p : poly) got.push_back(p.constData().get());
      c->check(got == pi, "C06:polygon", "");
      c->check(ll.polygon2d().size() == poly.size(), "C06:polygon2d", "");
    }
  }
  // starts in a tip where the left bound is one straight segment
  void directed() {
    auto ls = [&](std::vector<std::pair<double, double>> v, Point3d first) {
      Points3d p{first};
      for (auto& e : v) p.push_back(Point3d(utils::getId(), e.first, e.second, 0));
      return LineString3d(utils::getId(), p);
    };
    Point3d tip(utils::getId(), 93.92, 67.22, 0);
    LineString3d l = ls({{81.10, 45.72}}, tip);
    LineString3d r = ls({{88.10, 69.24}, {82.78, 68.88}, {76.62, 65.51}, {74.21, 62.60}, {72.13, 56.82}, {72.47, 51.37}, {75.56, 45.50}, {79.24, 42.48}}, tip);
    checkState(Lanelet(utils::getId(), l, r), l, r, {}, true);
  }
  void lanelets() {
    auto& r = c->rng;
    Points3d l, rr;
    bool wf;
    strip(l, rr, wf);
    auto line = [&](Points3d p) {
      bool inv = r.p(.4);
      if (inv) std::reverse(p.begin(), p.end());
      LineString3d s(utils::getId(), p);
      return inv ? s.invert() : s;
    };
    LineString3d L = line(l), R = line(rr);
    Optional<LineString3d> custom;
    Lanelet base(utils::getId(), L, R);
    std::vector<Lanelet> copies{base, base};
    std::vector<bool> inv{false, false};
    RegulatoryElementPtrs regs;
    int ops = int(r.i(3, 15));
    std::string trace;
    for (int k = 0; k < ops; ++k) {
      size_t which = r.idx(copies.size());
      Lanelet& v = copies[which];
      bool vi = inv[which];
      std::string op;
      switch (r.i(0, 10)) {
        case 0: {
          op = "invert-copy";
          copies.push_back(v.invert());
          inv.push_back(!vi);
          break;
        }
        case 1:
        case 2: {  // replace both bounds (keeps the lanelet well formed)
          op = "set-bounds";
          strip(l, rr, wf);
          LineString3d nl = line(l), nr = line(rr);
          bool order = r.p(.5);
          if (order) v.setLeftBound(vi ? nr.invert() : nl);
          if (r.p(.5)) (void)v.centerline();
          v.setRightBound(vi ? nl.invert() : nr);
          if (!order) v.setLeftBound(vi ? nr.invert() : nl);
          L = nl;
          R = nr;
          break;
        }
        case 3: {  // replace one bound by one with more points on the same course
          op = "set-one-bound";
          if (L.empty()) break;
          Points3d p;
          for (size_t i = 0; i < L.size(); ++i) {
            p.push_back(L[i]);
            if (i + 1 < L.size() && r.p(.5))
              p.push_back(Point3d(utils::getId(), BasicPoint3d((utils::toConst(L)[i].basicPoint() + utils::toConst(L)[i + 1].basicPoint()) / 2)));
          }
          LineString3d nl(utils::getId(), p);
          vi ? v.setRightBound(nl.invert()) : v.setLeftBound(nl);
          L = nl;
          break;
        }
        case 4: {
          op = "set-centerline";
          LineString3d cl(utils::getId(), {L.front(), R.back()});
          v.setCenterline(r.p(.5) ? cl : cl);
          custom = vi ? cl.invert() : cl;
          break;
        }
        case 5: {
          op = "reset-cache";
          v.resetCache();
          break;
        }
        case 6: {
          op = "move-point+reset";
          // points move: cache has to be reset by the user
          BasicPoint3d d(r.d(-20, 20), r.d(-20, 20), 1);
          std::set<const void*> done;
          for (auto* s : {&L, &R})
            for (size_t i = 0; i < s->size(); ++i)
              if (done.insert((*s)[i].constData().get()).second) (*s)[i].basicPoint() += d;
          v.resetCache();
          break;
        }
        case 7: {
          op = "add-regelem";
          auto re = std::make_shared<GenericRegulatoryElement>(utils::getId());
          v.addRegulatoryElement(re);
          regs.push_back(re);
          break;
        }
        case 8: {
          op = "remove-regelem";
          if (regs.empty()) {
            auto re = std::make_shared<GenericRegulatoryElement>(utils::getId());
            c->check(!v.removeRegulatoryElement(re), "C06:remove-missing-regelem", "");
            break;
          }
          size_t i = r.idx(regs.size());
          auto re = regs[i];
          c->check(v.removeRegulatoryElement(re), "C06:remove-regelem", "");
          regs.erase(regs.begin() + long(i));
          break;
        }
        case 9: {
          op = "attribute";
          v.setAttribute("k", std::to_string(k));
          for (auto& cp : copies)
            c->check(utils::toConst(cp).attribute("k").value() == std::to_string(k), "C06:attribute-shared", "");
          break;
        }
        default: {
          op = "reverse-setter";
          // setting the bound the view already has must not change anything
          Lanelet w = v;
          w.setLeftBound(v.leftBound());
          w.setRightBound(v.rightBound());
        }
      }
      trace += op + (vi ? "(inv) " : " ");
      c->event("op:" + op);
      c->sig(Hash()(op)(uint64_t(vi))(uint64_t(!!custom))(uint64_t(L.size() * 16 + R.size())).h);
      // querying can create the cache; do it through a random subset of the copies so that stale caches survive
      if (r.p(.6)) checkState(inv[which] ? copies[which].invert() : copies[which], L, R, custom, wf);
      RegulatoryElementConstPtrs want(regs.begin(), regs.end());
      for (auto& cp : copies) c->check(utils::toConst(cp).regulatoryElements() == want, "C06:regelems-shared", "");
      if (r.p(.3)) {
        std::set<Id> in;
        for (auto* b : {&L, &R})
          for (auto& p : *b) in.insert(p.id());
        for (auto& e : regs) in.insert(e->id());
        std::vector<Id> ask(in.begin(), in.end());
        ask.push_back(-987654321987);
        for (Id id : ask) c->check(utils::has(copies[which], id) == (in.count(id) > 0), "C06:has", id);
      }
      try {
        copies[which].addRegulatoryElement(nullptr);
        c->check(false, "C06:null-regelem", "");
      } catch (NullptrError&) {
      }
    }
    for (size_t i = 0; i < copies.size(); ++i) {
      c->check(copies[i].inverted() == inv[i], "C06:inverted-flag", "");
      checkState(inv[i] ? copies[i].invert() : copies[i], L, R, custom, wf);
      // mutable accessors agree
      Lanelet m = copies[i];
      c->check(ConstLineString3d(m.leftBound()) == utils::toConst(m).leftBound() &&
                   ConstLineString3d(m.rightBound()) == utils::toConst(m).rightBound(),
               "C06:mutable-bounds", "");
      WeakLanelet w(m);
      c->check(!w.expired() && w.lock() == m, "C06:weak-lock", "");
      m.setId(4242 + Id(i));
      for (auto& cp : copies) c->check(cp.id() == 4242 + Id(i), "C06:id-shared", "");
    }
    if (c->wantSample()) c->sample(trace);
  }
  void areas() {
    auto& r = c->rng;
    gen::IdSource ids(r);
    gen::WorldOpts o;
    o.areas = 3;
    gen::WorldGen g(r, ids, o);
    g.mkAreas();
    auto& A = g.w.areas;
    Area a = A[0], b = A[1], d = A[2];
    auto expect = [&](const ConstArea& x, const LineStrings3d& outer, const InnerBounds& inner) {
      auto ring = [&](const LineStrings3d& ls) {
        std::vector<const void*> v;
        for (auto& l : ls) {
          auto q = idsOf(l);
          v.insert(v.end(), q.begin(), q.end());
        }
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
      };
      auto got = [&](const CompoundPolygon3d& p) {
        std::vector<const void*> v;
        for (auto& q : p) v.push_back(q.constData().get());
        return v;
      };
      c->check(x.outerBound() == ConstLineStrings3d(outer.begin(), outer.end()), "C06:area-outer", "");
      c->check(got(x.outerBoundPolygon()) == ring(outer), "C06:area-outer-polygon", "");
      auto ib = x.innerBounds();
      auto ip = x.innerBoundPolygons();
      c->check(ib.size() == inner.size() && ip.size() == inner.size(), "C06:area-inner-count", "");
      for (size_t i = 0; i < inner.size(); ++i) {
        c->check(ib[i] == ConstLineStrings3d(inner[i].begin(), inner[i].end()), "C06:area-inner", "");
        c->check(got(ip[i]) == ring(inner[i]), "C06:area-inner-polygon", "");
      }
      auto bp = x.basicPolygonWithHoles2d();
      c->check(bp.outer.size() == ring(outer).size() && bp.inner.size() == inner.size(), "C06:area-basic", "");
      auto bp3 = x.basicPolygonWithHoles3d();
      c->check(bp3.outer.size() == ring(outer).size() && bp3.inner.size() == inner.size(), "C06:area-basic3", "");
      c->event("areas-checked");
    };
    LineStrings3d out = a.outerBound();
    InnerBounds in = a.innerBounds();
    expect(a, out, in);
    Area copy = a;
    for (int k = 0; k < 6; ++k) {
      Area& via = r.p(.5) ? a : copy;
      switch (r.i(0, 4)) {
        case 0:
          out = r.p(.5) ? b.outerBound() : d.outerBound();
          via.setOuterBound(out);
          break;
        case 1:
          in = r.p(.5) ? b.innerBounds() : InnerBounds{d.outerBound(), b.outerBound()};
          via.setInnerBounds(in);
          break;
        case 2:
          in.clear();
          via.setInnerBounds(in);
          break;
        case 3: {  // change the points of a line: views over the line follow
          LineString3d l = out[0];
          if (l.size() > 2) l.erase(l.begin() + 1);
          break;
        }
        default:
          via.setAttribute(AttributeName::Subtype, std::to_string(k));
          c->check(utils::toConst(copy).attribute(AttributeName::Subtype).value() == std::to_string(k),
                   "C06:area-attribute", "");
      }
      expect(a, out, in);
      expect(copy, out, in);
    }
    auto re = std::make_shared<GenericRegulatoryElement>(utils::getId());
    a.addRegulatoryElement(re);
    c->check(copy.regulatoryElements().size() == 1 && copy.regulatoryElements()[0] == re, "C06:area-regelem", "");
    c->check(copy.removeRegulatoryElement(re) && !a.removeRegulatoryElement(re) && a.regulatoryElements().empty(),
             "C06:area-regelem-remove", "");
    WeakArea w(a);
    c->check(!w.expired() && w.lock() == a, "C06:weak-area", "");
    for (auto& l : out)
      for (auto& p : l) c->check(utils::has(a, p.id()), "C06:area-has", p.id());
    c->check(!utils::has(a, -987654321987), "C06:area-has", "an unused id");
  }
  void run(Ctx& ctx) override {
    c = &ctx;
    if (c->caseIdx == 0) directed();
    if (c->rng.p(.1)) {
      Lanelet e;
      c->check(e.centerline().empty(), "C06:empty-lanelet", "");
      c->check(e.invert().centerline().empty() && e.polygon3d().empty(), "C06:empty-lanelet", "");
    }
    if (c->rng.p(.2)) {
      areas();
    } else {
      lanelets();
    }
  }
};
VF_HARNESS(C06, "C06");

// ------------------------------------------------------------------ C07
struct C07 : Harness {
  uint64_t numCases(bool t) override { return t ? 100000 : 6000; }
  std::string rule() override {
    return "typed values and texts through attributes and predefined-name maps against a plain std::map";
  }
  Ctx* c{nullptr};
  // queries in random order must not influence each other
  struct Want {
    bool hasB{false}, hasD{false}, hasId{false}, hasI{false}, hasV{false};
    bool b{false};
    double d{0};
    Id id{0};
    int i{0};
    double v{0};  // m/s
    double vtol{1e-12};
    bool checkB{true}, checkD{true}, checkId{true}, checkI{true}, checkV{true};
  };
  void query(const Attribute& a, const Want& w, const std::string& what) {
    auto& r = c->rng;
    for (int k = 0; k < 8; ++k) {
      switch (r.i(0, 4)) {
        case 0: {
          if (!w.checkB) break;
          auto v = r.p(.5) ? a.asBool() : a.as<bool>();
          c->check(!!v == w.hasB && (!v || *v == w.b), "C07:bool", what, " -> ", v ? (*v ? "true" : "false") : "none");
          break;
        }
        case 1: {
          if (!w.checkD) break;
          auto v = r.p(.5) ? a.asDouble() : a.as<double>();
          c->check(!!v == w.hasD, "C07:double-presence", what, " -> ", v ? std::to_string(*v) : "none");
          if (v) c->check(*v == w.d || (std::isnan(*v) && std::isnan(w.d)), "C07:double", what, " -> ", *v, " expected ", w.d);
          break;
        }
        case 2: {
          if (!w.checkId) break;
          auto v = r.p(.5) ? a.asId() : a.as<Id>();
          c->check(!!v == w.hasId && (!v || *v == w.id), "C07:id", what, " -> ", v ? std::to_string(*v) : "none");
          break;
        }
        case 3: {
          if (!w.checkI) break;
          auto v = r.p(.5) ? a.asInt() : a.as<int>();
          c->check(!!v == w.hasI && (!v || *v == w.i), "C07:int", what, " -> ", v ? std::to_string(*v) : "none");
          break;
        }
        default: {
          if (!w.checkV) break;
          auto v = r.p(.5) ? a.asVelocity() : a.as<Velocity>();
          c->check(!!v == w.hasV, "C07:velocity-presence", what, " -> ", v ? std::to_string(v->value()) : "none");
          if (v) {
            double got = v->value();
            c->check(c->close(got, w.v, 1e-9 * std::max(1., std::fabs(w.v))) || got == w.v, "C07:velocity", what, " -> ", got,
                     " m/s expected ", w.v);
          }
        }
      }
      c->event("typed-reads");
    }
  }
  static constexpr double Kmh = 1 / 3.6, Mph = 0.44704;
  double rd() {
    auto& r = c->rng;
    switch (r.i(0, 6)) {
      case 0:
        return double(r.i(-200, 200));
      case 1:
        return r.i(-2000, 2000) / 10.;
      case 2:
        return r.d(-1, 1) * std::pow(10., double(r.i(-12, 3)));
      case 3:
        return r.d(-1, 1) * std::pow(10., double(r.i(3, 18)));
      case 4:
        return r.i(-100000, 100000) / 7.;
      case 5:
        return r.pick({0., -0., 1e-300, DBL_MAX, DBL_MIN, 1. / 3, 1e15 + 0.5});
      default:
        return r.d(0, 200);
    }
  }
  void typed() {
    auto& r = c->rng;
    Attribute a;
    Want w;
    std::string what;
    switch (r.i(0, 4)) {
      case 0: {
        bool b = r.p(.5);
        a = Attribute(b);
        w.hasB = w.hasD = w.hasId = w.hasI = w.hasV = true;
        w.b = b;
        w.d = w.id = w.i = b;
        w.v = b * Kmh;
        what = "bool";
        c->check(a.value() == (b ? "1" : "0"), "C07:bool-text", a.value());
        break;
      }
      case 1: {
        int i = r.p(.2) ? r.pick({0, 1, -1, INT_MAX, INT_MIN}) : int(r.i(-100000, 100000));
        a = Attribute(i);
        w.hasD = w.hasId = w.hasI = w.hasV = true;
        w.i = i;
        w.id = i;
        w.d = i;
        w.v = i * Kmh;
        w.hasB = i == 0 || i == 1;
        w.b = i == 1;
        what = "int " + std::to_string(i);
        c->check(a.value() == std::to_string(i), "C07:int-text", a.value());
        break;
      }
      case 2: {
        Id i = r.p(.3) ? r.pick<Id>({INT64_MAX, INT64_MIN, int64_t(INT_MAX) + 1, 1LL << 53, (1LL << 53) + 1, 0}) : Id(r.next());
        a = Attribute(i);
        w.hasId = true;
        w.id = i;
        w.hasI = i >= INT_MIN && i <= INT_MAX;
        w.i = int(w.hasI ? i : 0);
        w.hasD = w.hasV = true;
        w.d = double(i);
        w.v = w.d * Kmh;
        w.checkB = false;
        what = "id " + std::to_string(i);
        c->check(a.value() == std::to_string(i), "C07:id-text", a.value());
        break;
      }
      case 3: {
        double d = rd();
        a = Attribute(d);
        w.hasD = w.hasV = true;
        w.d = d;
        w.v = d * Kmh;
        w.checkB = w.checkI = w.checkId = false;
        std::ostringstream os;
        os.precision(17);
        os << "double " << d;
        what = os.str();
        break;
      }
      default: {
        double d = rd();
        if (std::fabs(d) > 1e200) d = 3;
        a = Attribute(Velocity(d * units::KmH()));
        w.hasV = true;
        w.v = d * Kmh;
        w.checkB = w.checkI = w.checkId = w.checkD = false;
        what = "velocity " + std::to_string(d) + "km/h";
      }
    }
    c->sig(Hash()(what).h);
    if (r.p(.5)) {
      Attribute b = a;
      query(b, w, what + " (copy)");
      Attribute m = std::move(b);
      query(m, w, what + " (moved)");
    }
    query(a, w, what);
    // through the text alone (what is written to a file)
    Attribute t(a.value());
    if (w.checkD && w.hasD) w.checkD = true;
    query(t, w, what + " via text " + a.value());
    c->check(t == a && !(t != a), "C07:equality", what);
  }
  void text() {
    auto& r = c->rng;
    struct T {
      std::string s;
      double v;
      bool has;
    };
    Want w;
    std::string s;
    switch (r.i(0, 6)) {
      case 0: {  // number with unit
        double num = r.p(.5) ? double(r.i(0, 200)) : r.i(1, 2000) / 8.;
        std::ostringstream ns;
        ns << num;
        if (r.p(.1)) ns << ".";
        static const std::vector<std::pair<std::string, double>> U{{"km/h", Kmh}, {"kmh", Kmh}, {"m/s", 1},
                                                                   {"mps", 1},    {"mph", Mph}, {"m/h", Mph}};
        auto& u = U[r.idx(U.size())];
        s = ns.str() + (r.p(.5) ? " " : "") + u.first;
        if (ns.str().find("..") != std::string::npos || std::count(s.begin(), s.end(), '.') > 1) return;
        w.hasV = true;
        w.v = num * u.second;
        c->event("unit:" + u.first);
        break;
      }
      case 1: {  // number with something that is not a speed unit
        double num = double(r.i(0, 200));
        static const std::vector<std::string> U{" furlong", " km", " m", "xyz", " h", " kg", " kmph", " km/s", " mm/s", " mph/s",
                                                " knots", " m/s2", " cm/s", " ramps"};
        s = std::to_string(int(num)) + U[r.idx(U.size())];
        c->event("unknown-unit");
        break;
      }
      case 2: {  // integer text
        int64_t v = r.i(-1000, 1000);
        s = std::to_string(v);
        w.hasD = w.hasId = w.hasI = w.hasV = true;
        w.d = double(v);
        w.id = v;
        w.i = int(v);
        w.v = double(v) * Kmh;
        w.hasB = v == 0 || v == 1;
        w.b = v == 1;
        break;
      }
      case 3: {  // decimal text
        int64_t m = r.i(-100000, 100000);
        s = std::to_string(m) + "." + std::to_string(r.i(1, 999));
        w.hasD = w.hasV = true;
        w.d = std::strtod(s.c_str(), nullptr);
        w.v = w.d * Kmh;
        break;
      }
      case 4: {
        static const std::vector<std::pair<std::string, int>> B{{"yes", 1}, {"no", 0}, {"true", 1}, {"false", 0}};
        auto& b = B[r.idx(B.size())];
        s = b.first;
        w.hasB = true;
        w.b = b.second;
        break;
      }
      case 5: {
        static const std::vector<std::string> N{"",     "abc",     "yes ",  " yes",  "Yes",   "TRUE",  "12abc2", "--5", "5-",
                                                "0x",   "1,5",     "1 000", "10 20", "km/h",  "m/s",   "- 5",    ".",   "+",
                                                "mph 5", "de205",  "1.2.3", "e5",    "5e",    "tru",   "ja",     "1 ",  "none"};
        s = N[r.idx(N.size())];
        if (s == "1 " || s == "5e" || s == "1 000" || s == "10 20" || s == "5-" || s == "1.2.3" || s == "12abc2" || s == "1,5" || s == "0x")
          w.checkV = s != "0x";
        break;
      }
      default: {  // out of range integers
        s = r.pick<const char*>({"99999999999", "-99999999999", "2147483648"});
        w.hasId = w.hasD = w.hasV = true;
        w.id = std::strtoll(s.c_str(), nullptr, 10);
        w.d = double(w.id);
        w.v = w.d * Kmh;
        if (r.p(.4)) {
          s = "99999999999999999999";
          w.hasId = false;
          w.d = 1e20;
          w.v = 1e20 * Kmh;
        }
      }
    }
    c->sig(Hash()(s).h);
    Attribute a(s);
    c->check(a.value() == s && *a.as<std::string>() == s, "C07:text", s);
    query(a, w, "text '" + s + "'");
    Attribute b(1.5);
    (void)b.asDouble();
    b.setValue(s);
    query(b, w, "setValue '" + s + "'");
    // one attribute takes similar values one after the other, with conversions in between
    Id v = r.p(.5) ? r.i(-1000000000000, 1000000000000) : r.i(-999, 999), step = r.pick<Id>({1, -1, 3, 10, 1000000, 2147483648});
    auto conv = [&](Id x) {
      Want q;
      q.hasD = q.hasId = q.hasV = true;
      q.d = double(x);
      q.id = x;
      q.hasI = x >= std::numeric_limits<int>::min() && x <= std::numeric_limits<int>::max();
      q.i = int(x);
      q.v = double(x) * Kmh;
      q.hasB = x == 0 || x == 1;
      q.b = x == 1;
      query(b, q, "setValue '" + std::to_string(x) + "' after a similar value");
    };
    for (int k = 0; k < 3; ++k) {
      b.setValue(std::to_string(v));
      conv(v);
      v += step;
    }
    b = Attribute(7);
    b = a;
    query(b, w, "assigned '" + s + "'");
    if (c->wantSample()) c->sample("text '" + s + "'");
  }
  // attribute maps: a real map + shadow std::map
  using Shadow = std::map<std::string, std::string>;
  std::vector<std::pair<const char*, AttributeName>> names{
      {"type", AttributeName::Type},
      {"subtype", AttributeName::Subtype},
      {"one_way", AttributeName::OneWay},
      {"participant:vehicle", AttributeName::ParticipantVehicle},
      {"participant:pedestrian", AttributeName::ParticipantPedestrian},
      {"speed_limit", AttributeName::SpeedLimit},
      {"location", AttributeName::Location},
      {"dynamic", AttributeName::Dynamic}};
  void checkMap(AttributeMap& m, const Shadow& s, const std::string& tr) {
    const AttributeMap& cm = m;
    c->check(m.size() == s.size() && m.empty() == s.empty(), "C07:map-size", tr);
    auto it = cm.begin();
    for (auto& e : s) {
      c->check(it != cm.end() && it->first == e.first && it->second.value() == e.second, "C07:map-content", tr);
      ++it;
    }
    c->check(it == cm.end(), "C07:map-content", tr);
    for (auto& n : names) {
      auto f = s.find(n.first);
      auto e = m.find(n.second);
      auto ce = cm.find(n.second);
      auto se = cm.find(std::string(n.first));
      c->check((f != s.end()) == (ce != cm.end()), "C07:enum-lookup", n.first, " after ", tr);
      c->check((f != s.end()) == (e != m.end()), "C07:enum-lookup-mutable", n.first, " after ", tr);
      c->check((f != s.end()) == (se != cm.end()), "C07:string-lookup", n.first, " after ", tr);
      if (f != s.end()) {
        c->check(ce == se && ce->second.value() == f->second, "C07:enum-string-agree", n.first, " after ", tr);
        c->check(cm.at(n.second).value() == f->second && cm.at(std::string(n.first)).value() == f->second, "C07:at", tr);
      } else {
        int thrown = 0;
        try {
          (void)cm.at(n.second);
        } catch (std::out_of_range&) {
          ++thrown;
        }
        try {
          (void)cm.at(std::string(n.first));
        } catch (std::out_of_range&) {
          ++thrown;
        }
        c->check(thrown == 2, "C07:at-missing", n.first, " after ", tr);
      }
    }
    c->event("maps-compared");
  }
  void maps() {
    auto& r = c->rng;
    std::vector<AttributeMap> m(3);
    std::vector<Shadow> s(3);
    std::string tr;
    auto key = [&]() -> std::string {
      if (r.p(.75)) return names[r.idx(names.size())].first;
      return r.pick<const char*>({"abc", "", "typ", "type2", "zz", "Type"});
    };
    int ops = int(r.i(5, 40));
    for (int k = 0; k < ops; ++k) {
      size_t i = r.idx(3), j = r.idx(3);
      std::string kk = key(), v = std::to_string(k);
      auto& nm = names[r.idx(names.size())];
      std::string op;
      switch (r.i(0, 14)) {
        case 0:
          op = "[str]=";
          m[i][kk] = v;
          s[i][kk] = v;
          break;
        case 1:
        case 2:
          op = "[enum]=";
          m[i][nm.second] = v;
          s[i][nm.first] = v;
          break;
        case 3: {
          op = "insert";
          auto res = m[i].insert({kk, Attribute(v)});
          auto sr = s[i].insert({kk, v});
          c->check(res.second == sr.second && res.first->first == kk && res.first->second.value() == sr.first->second,
                   "C07:insert-result", tr);
          break;
        }
        case 4: {
          op = "erase-key";
          c->check(m[i].erase(kk) == s[i].erase(kk), "C07:erase-count", tr);
          break;
        }
        case 5: {
          op = "erase-enum-iter";
          auto it = m[i].find(nm.second);
          if (it != m[i].end()) {
            auto nx = m[i].erase(it);
            auto sn = s[i].erase(s[i].find(nm.first));
            c->check((nx == m[i].end()) == (sn == s[i].end()) && (sn == s[i].end() || sn->first == nx->first),
                     "C07:erase-next", tr);
          }
          break;
        }
        case 6:
          op = "copy-assign";
          m[i] = m[j];
          s[i] = Shadow(s[j]);
          break;
        case 7:
          op = "move-assign";
          if (i != j) {
            m[i] = std::move(m[j]);
            m[j].clear();
            s[i] = s[j];
            s[j].clear();
          }
          break;
        case 8: {
          op = "copy-construct";
          AttributeMap t(m[i]);
          checkMap(t, s[i], tr + "copy");
          t[AttributeName::Type] = "x";
          t.erase("subtype");
          break;
        }
        case 9: {
          op = "move-construct";
          AttributeMap t(std::move(m[i]));
          Shadow ts = s[i];
          checkMap(t, ts, tr + "moved");
          t[nm.second] = v;
          ts[nm.first] = v;
          t.erase("one_way");
          ts.erase("one_way");
          checkMap(t, ts, tr + "moved+changed");
          m[i].clear();
          m[i] = std::move(t);
          s[i] = ts;
          break;
        }
        case 10:
          op = "swap";
          std::swap(m[i], m[j]);
          std::swap(s[i], s[j]);
          break;
        case 11:
          op = "clear";
          if (r.p(.4)) {
            m[i].clear();
            s[i].clear();
          }
          break;
        case 12: {
          op = "hint-insert";
          m[i].insert(m[i].begin(), {kk, Attribute(v)});
          s[i].insert({kk, v});
          break;
        }
        case 13: {
          op = "ref-write";
          auto it = m[i].find(nm.second);
          if (it != m[i].end()) {
            it->second = v;
            s[i][nm.first] = v;
          }
          break;
        }
        default: {
          op = "moved-from-reuse";
          AttributeMap t(std::move(m[i]));
          m[i].clear();
          m[i][nm.second] = v;
          s[i] = Shadow{{nm.first, v}};
        }
      }
      tr += op + " ";
      c->event("op:" + op);
      c->sig(Hash()(op)(uint64_t(s[i].size()))(kk).h);
      for (size_t q = 0; q < 3; ++q) checkMap(m[q], s[q], tr);
      c->check((m[0] == m[1]) == (s[0] == s[1]) && (m[0] != m[1]) == (s[0] != s[1]), "C07:map-equality", tr);
    }
    // the same through a primitive
    Point3d p(1, 0, 0, 0, m[0]);
    const Point3d& cp = p;
    for (auto& n : names) {
      auto f = s[0].find(n.first);
      bool has = f != s[0].end();
      c->check(cp.hasAttribute(n.second) == has && cp.hasAttribute(n.first) == has, "C07:has-attribute", n.first);
      c->check(cp.attributeOr(n.second, std::string("dflt")) == (has ? f->second : "dflt"), "C07:attribute-or", n.first);
      c->check(cp.attributeOr(n.first, -77) == (has ? std::atoi(f->second.c_str()) : -77), "C07:attribute-or-int", n.first);
      int thrown = 0;
      for (int q = 0; q < 2; ++q) try {
          auto& a = q ? cp.attribute(n.second) : cp.attribute(std::string(n.first));
          c->check(has && a.value() == f->second, "C07:attribute", n.first);
        } catch (NoSuchAttributeError&) {
          ++thrown;
        }
      c->check(thrown == (has ? 0 : 2), "C07:no-such-attribute", n.first);
    }
    // range and list constructors
    std::vector<std::pair<const std::string, Attribute>> list;
    for (auto& e : s[1]) list.push_back({e.first, e.second});
    AttributeMap rm(list.begin(), list.end());
    checkMap(rm, s[1], "range-construct");
    if (c->wantSample()) c->sample(tr);
  }
  void run(Ctx& ctx) override {
    c = &ctx;
    double k = c->rng.u();
    if (k < .35) {
      typed();
    } else if (k < .6) {
      text();
    } else {
      maps();
    }
  }
};
VF_HARNESS(C07, "C07");

// ------------------------------------------------------------------ C08
// One parameter as the monitor sees it: kind, object, orientation
struct Par {
  char kind{' '};
  const void* obj{nullptr};
  bool inv{false};
  Id id{0};
  bool operator==(const Par& o) const { return kind == o.kind && obj == o.obj && inv == o.inv; }
};
Par par(const ConstLineString3d& l) { return {'L', l.constData().get(), l.inverted(), l.id()}; }
Par par(const ConstPolygon3d& l) { return {'P', l.constData().get(), l.inverted(), l.id()}; }
Par par(const ConstPoint3d& l) { return {'p', l.constData().get(), false, l.id()}; }
Par par(const ConstLanelet& l) { return {'l', l.constData().get(), l.inverted(), l.id()}; }
Par par(const ConstArea& l) { return {'a', l.constData().get(), false, l.id()}; }
Par par(const ConstLineStringOrPolygon3d& l) {
  return l.isPolygon() ? par(*l.polygon()) : par(*l.lineString());
}
using Roles = std::map<std::string, std::vector<Par>>;

struct C08 : Harness {
  uint64_t numCases(bool t) override { return t ? 80000 : 5000; }
  std::string rule() override {
    return "random add/remove/set sequences on every rule type against a role->parameters shadow";
  }
  Ctx* c{nullptr};
  std::set<const void*> dead;  // destroyed lanelets / areas

  struct Vis : RuleParameterVisitor {
    Roles seen;
    size_t expired{0};
    void operator()(const ConstPoint3d& p) override { seen[role].push_back(par(p)); }
    void operator()(const ConstLineString3d& p) override { seen[role].push_back(par(p)); }
    void operator()(const ConstPolygon3d& p) override { seen[role].push_back(par(p)); }
    void operator()(const ConstWeakLanelet& p) override {
      if (p.expired())
        ++expired;
      else
        seen[role].push_back(par(p.lock()));
    }
    void operator()(const ConstWeakArea& p) override {
      if (p.expired())
        ++expired;
      else
        seen[role].push_back(par(p.lock()));
    }
  };
  static std::vector<Par> alive(const std::vector<Par>& v, const std::set<const void*>& dead) {
    std::vector<Par> o;
    for (auto& p : v)
      if (!dead.count(p.obj)) o.push_back(p);
    return o;
  }
  template <typename V>
  std::vector<Par> pars(const V& v) {
    std::vector<Par> o;
    for (auto& e : v) o.push_back(par(e));
    return o;
  }
  std::vector<Par> kind(const std::vector<Par>& v, const std::string& kinds) {
    std::vector<Par> o;
    for (auto& e : v)
      if (kinds.find(e.kind) != std::string::npos && !dead.count(e.obj)) o.push_back(e);
    return o;
  }
  const std::vector<std::pair<std::string, RoleName>> fast{
      {"refers", RoleName::Refers},          {"ref_line", RoleName::RefLine}, {"yield", RoleName::Yield},
      {"right_of_way", RoleName::RightOfWay}, {"cancels", RoleName::Cancels},  {"cancel_line", RoleName::CancelLine}};
  void observe(const RegulatoryElement& re, const Roles& want, const std::string& tr) {
    Vis v;
    re.applyVisitor(v);
    size_t exp = 0;
    std::set<std::string> all;
    for (auto& e : want) all.insert(e.first);
    for (auto& e : v.seen) all.insert(e.first);
    for (auto& role : all) {
      auto w = want.find(role);
      std::vector<Par> wv = w == want.end() ? std::vector<Par>{} : w->second;
      for (auto& p : wv) exp += dead.count(p.obj);
      auto al = alive(wv, dead);
      auto got = v.seen.count(role) ? v.seen[role] : std::vector<Par>{};
      c->check(got == al, "C08:visitor", "role ", role, ": ", got.size(), " parameters, expected ", al.size(), " after ", tr);
      c->check(pars(re.getParameters<ConstLineString3d>(role)) == kind(wv, "L"), "C08:by-role-line", role, " after ", tr);
      c->check(pars(re.getParameters<ConstPolygon3d>(role)) == kind(wv, "P"), "C08:by-role-polygon", role, " after ", tr);
      c->check(pars(re.getParameters<ConstPoint3d>(role)) == kind(wv, "p"), "C08:by-role-point", role, " after ", tr);
      c->check(pars(re.getParameters<ConstLanelet>(role)) == kind(wv, "l"), "C08:by-role-lanelet", role, " after ", tr);
      c->check(pars(re.getParameters<ConstArea>(role)) == kind(wv, "a"), "C08:by-role-area", role, " after ", tr);
      for (auto& f : fast)
        if (f.first == role) {
          c->check(pars(re.getParameters<ConstLineString3d>(f.second)) == kind(wv, "L"), "C08:by-enum-line", role, " after ", tr);
          c->check(pars(re.getParameters<ConstPolygon3d>(f.second)) == kind(wv, "P"), "C08:by-enum-polygon", role, " after ", tr);
          c->check(pars(re.getParameters<ConstPoint3d>(f.second)) == kind(wv, "p"), "C08:by-enum-point", role, " after ", tr);
          c->check(pars(re.getParameters<ConstLanelet>(f.second)) == kind(wv, "l"), "C08:by-enum-lanelet", role, " after ", tr);
          c->check(pars(re.getParameters<ConstArea>(f.second)) == kind(wv, "a"), "C08:by-enum-area", role, " after ", tr);
        }
      // lookup by id
      for (auto& p : wv) {
        if (p.id == InvalId) continue;
        bool isDead = dead.count(p.obj) != 0;
        auto any = re.find<ConstRuleParameter>(p.id);
        c->check(!!any == !isDead, "C08:find-any", role, " id ", p.id, " dead ", isDead, " after ", tr);
        bool ok = false;
        switch (p.kind) {
          case 'L': {
            auto f = re.find<ConstLineString3d>(p.id);
            ok = f && f->constData().get() == p.obj;
            break;
          }
          case 'P': {
            auto f = re.find<ConstPolygon3d>(p.id);
            ok = f && f->constData().get() == p.obj;
            break;
          }
          case 'p': {
            auto f = re.find<ConstPoint3d>(p.id);
            ok = f && f->constData().get() == p.obj;
            break;
          }
          case 'l': {
            auto f = re.find<ConstLanelet>(p.id);
            ok = isDead ? !f : (f && f->constData().get() == p.obj);
            break;
          }
          default: {
            auto f = re.find<ConstArea>(p.id);
            ok = isDead ? !f : (f && f->constData().get() == p.obj);
          }
        }
        c->check(ok, "C08:find-by-id", role, " kind ", p.kind, " id ", p.id, " after ", tr);
        if (!isDead) c->check(utils::has(re, p.id), "C08:has", role);
      }
    }
    c->check(v.expired == exp, "C08:expired-count", v.expired, " expected ", exp, " after ", tr);
    c->check(!re.find<ConstRuleParameter>(987654321), "C08:find-foreign", tr);
    c->check(!re.find<ConstLanelet>(987654321) && !re.find<ConstArea>(987654321), "C08:find-foreign", tr);
    // parameter map
    auto map = re.getParameters();
    size_t nPar = 0, wantPar = 0;
    for (auto& e : map) nPar += e.second.size();
    for (auto& e : want) wantPar += e.second.size();
    c->check(nPar == wantPar, "C08:parameter-map", nPar, " expected ", wantPar, " after ", tr);
    std::ostringstream os;
    os << re;
    c->event("elements-compared");
  }

  void run(Ctx& ctx) override {
    c = &ctx;
    dead.clear();
    auto& r = c->rng;
    gen::IdSource ids(r);
    gen::WorldOpts o;
    o.regs = 0;
    o.attrs = false;
    gen::WorldGen g(r, ids, o);
    g.all();
    auto& w = g.w;
    for (auto& l : w.lines) l.setAttribute(AttributeName::Subtype, "de" + std::to_string(r.i(200, 205)));
    for (auto& l : w.polys) l.setAttribute(AttributeName::Subtype, "de" + std::to_string(r.i(200, 205)));
    // lanelets that may die
    std::vector<Optional<Lanelet>> lls(w.lanelets.begin(), w.lanelets.end());
    std::vector<Optional<Area>> ars(w.areas.begin(), w.areas.end());
    std::vector<std::pair<const void*, Id>> lid;
    w.lanelets.clear();
    w.areas.clear();
    std::string tr;
    auto aliveLl = [&]() -> Optional<Lanelet> {
      for (int k = 0; k < 20; ++k) {
        auto& l = lls[r.idx(lls.size())];
        if (l) return r.p(.15) ? Optional<Lanelet>(l->invert()) : l;
      }
      return {};
    };
    auto kill = [&]() {
      if (ars.size() && r.p(.3)) {
        auto& a = ars[r.idx(ars.size())];
        if (!a) return;
        const void* p = a->constData().get();
        a = boost::none;
        dead.insert(p);
        tr += "kill-area ";
      } else {
        auto& l = lls[r.idx(lls.size())];
        if (!l) return;
        const void* p = l->constData().get();
        l = boost::none;
        dead.insert(p);
        tr += "kill-lanelet ";
      }
      c->event("destroyed-while-referenced");
    };
    Roles want;
    auto rm = [&](const char* role, const Par& p) {
      auto& v = want[role];
      for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == p && !dead.count(p.obj)) {
          v.erase(v.begin() + long(i));
          return true;
        }
      return false;
    };
    auto sign = [&] { return g.anySign(); };
    auto parS = [&](const LineStringOrPolygon3d& s) { return par(ConstLineStringOrPolygon3d(s)); };
    AttributeMap attrs;
    attrs["foo"] = "bar";
    int ops = int(r.i(3, 14));
    int type = int(r.i(0, 4));
    RegulatoryElementPtr re;
    auto base = [&](const RegulatoryElement& e, const char* sub) {
      c->check(e.attribute("foo").value() == "bar" && e.attribute(AttributeName::Type).value() == "regulatory_element" &&
                   e.attribute(AttributeName::Subtype).value() == sub,
               "C08:attributes", sub);
    };
    if (type == 0) {
      LineStringsOrPolygons3d s{sign()};
      if (r.p(.5)) s.push_back(sign());
      Optional<LineString3d> stop;
      if (r.p(.5)) stop = g.anyLine();
      auto t = TrafficLight::make(ids.valid(), attrs, s, stop);
      re = t;
      base(*t, "traffic_light");
      for (auto& e : s) want["refers"].push_back(parS(e));
      if (stop) want["ref_line"].push_back(par(*stop));
      for (int k = 0; k < ops; ++k) {
        switch (r.i(0, 4)) {
          case 0: {
            auto x = sign();
            t->addTrafficLight(x);
            want["refers"].push_back(parS(x));
            tr += "add ";
            break;
          }
          case 1: {
            auto cur = t->trafficLights();
            auto x = !cur.empty() && r.p(.6) ? cur[r.idx(cur.size())] : sign();
            bool exp = rm("refers", parS(x));
            c->check(t->removeTrafficLight(x) == exp, "C08:remove-result", "traffic light");
            tr += "remove ";
            break;
          }
          case 2: {
            auto x = g.anyLine();
            t->setStopLine(x);
            want["ref_line"] = {par(x)};
            tr += "setStop ";
            break;
          }
          case 3:
            t->removeStopLine();
            want["ref_line"].clear();
            tr += "removeStop ";
            break;
          default:;
        }
        const TrafficLight& ct = *t;
        c->check(pars(ct.trafficLights()) == want["refers"] && pars(t->trafficLights()) == want["refers"],
                 "C08:traffic-lights", tr);
        auto mt = t->trafficLights();
        c->check(mt.size() == want["refers"].size(), "C08:traffic-lights-mutable", tr);
        auto sl = ct.stopLine();
        c->check(!!sl == !want["ref_line"].empty() && !!t->stopLine() == !!sl && (!sl || (par(*sl) == want["ref_line"][0] && par(*t->stopLine()) == want["ref_line"][0])),
                 "C08:stop-line", tr);
        observe(*t, want, tr);
      }
    } else if (type == 1) {
      auto a = aliveLl(), b = aliveLl();
      Optional<LineString3d> stop;
      if (r.p(.5)) stop = g.anyLine();
      auto t = RightOfWay::make(ids.valid(), attrs, {*a}, {*b}, stop);
      re = t;
      base(*t, "right_of_way");
      want["right_of_way"].push_back(par(*a));
      want["yield"].push_back(par(*b));
      if (stop) want["ref_line"].push_back(par(*stop));
      a = boost::none;
      b = boost::none;
      for (int k = 0; k < ops; ++k) {
        int op = int(r.i(0, 6));
        auto l = aliveLl();
        if (op < 4 && !l) continue;
        switch (op) {
          case 0:
            t->addRightOfWayLanelet(*l);
            want["right_of_way"].push_back(par(*l));
            tr += "addRow ";
            break;
          case 1:
            t->addYieldLanelet(*l);
            want["yield"].push_back(par(*l));
            tr += "addYield ";
            break;
          case 2: {
            auto cur = t->rightOfWayLanelets();
            Lanelet x = !cur.empty() && r.p(.7) ? cur[r.idx(cur.size())] : *l;
            bool exp = rm("right_of_way", par(x));
            c->check(t->removeRightOfWayLanelet(x) == exp, "C08:remove-result", "row");
            tr += "rmRow ";
            break;
          }
          case 3: {
            auto cur = t->yieldLanelets();
            Lanelet x = !cur.empty() && r.p(.7) ? cur[r.idx(cur.size())] : *l;
            bool exp = rm("yield", par(x));
            c->check(t->removeYieldLanelet(x) == exp, "C08:remove-result", "yield");
            tr += "rmYield ";
            break;
          }
          case 4: {
            auto x = g.anyLine();
            t->setStopLine(x);
            want["ref_line"] = {par(x)};
            tr += "setStop ";
            break;
          }
          case 5:
            t->removeStopLine();
            want["ref_line"].clear();
            tr += "removeStop ";
            break;
          default:
            l = boost::none;
            kill();
        }
        l = boost::none;
        const RightOfWay& ct = *t;
        c->check(pars(ct.rightOfWayLanelets()) == kind(want["right_of_way"], "l") &&
                     pars(t->rightOfWayLanelets()) == kind(want["right_of_way"], "l"),
                 "C08:row-lanelets", tr);
        c->check(pars(ct.yieldLanelets()) == kind(want["yield"], "l") && pars(t->yieldLanelets()) == kind(want["yield"], "l"),
                 "C08:yield-lanelets", tr);
        auto sl = ct.stopLine();
        c->check(!!sl == !want["ref_line"].empty() && (!sl || par(*sl) == want["ref_line"][0]), "C08:stop-line", tr);
        for (auto& x : lls) {
          if (!x) continue;
          for (auto& y : {*x, x->invert()}) {
            auto has = [&](const char* role) {
              auto& v = want[role];
              return std::find(v.begin(), v.end(), par(y)) != v.end();
            };
            bool row = has("right_of_way"), yi = has("yield");
            auto m = ct.getManeuver(y);
            if (row && yi) {
              c->check(m != ManeuverType::Unknown, "C08:maneuver", tr);
            } else {
              c->check(m == (row ? ManeuverType::RightOfWay : yi ? ManeuverType::Yield : ManeuverType::Unknown), "C08:maneuver", tr);
            }
          }
        }
        observe(*t, want, tr);
      }
    } else if (type == 2) {
      // all way stop: lanelet -> stop line association must survive removals and expired lanelets
      bool withStop = r.p(.6);
      std::vector<std::pair<Par, Par>> assoc;
      LaneletsWithStopLines v;
      std::set<const void*> used;
      for (int64_t n = r.i(1, 3); n > 0; --n) {
        auto l = aliveLl();
        if (!l || !used.insert(l->constData().get()).second) continue;
        LaneletWithStopLine e{*l, {}};
        if (withStop) e.stopLine = g.anyLine();
        v.push_back(e);
      }
      LineStringsOrPolygons3d signs;
      if (r.p(.5)) signs.push_back(sign());
      auto t = AllWayStop::make(ids.valid(), attrs, v, signs);
      re = t;
      base(*t, "all_way_stop");
      for (auto& e : v) {
        want["yield"].push_back(par(e.lanelet));
        if (withStop) want["ref_line"].push_back(par(*e.stopLine));
        assoc.push_back({par(e.lanelet), withStop ? par(*e.stopLine) : Par{}});
      }
      for (auto& e : signs) want["refers"].push_back(parS(e));
      v.clear();
      for (int k = 0; k < ops; ++k) {
        int op = int(r.i(0, 5));
        switch (op) {
          case 0: {
            auto l = aliveLl();
            if (!l) break;
            bool dup = false;
            for (auto& e : assoc) dup = dup || e.first.obj == l->constData().get();
            if (dup) break;
            Optional<LineString3d> stop;
            if (r.p(.5)) stop = g.anyLine();
            bool anyAlive = !kind(want["yield"], "l").empty();
            bool have = !want["ref_line"].empty();
            bool bad = (have && !stop) || (!have && anyAlive && !!stop);
            // only expired lanelets left: association of what remains is not documented
            if (!anyAlive && !want["yield"].empty()) break;
            try {
              t->addLanelet({*l, stop});
              c->check(!bad, "C08:aws-inconsistent-accepted", tr);
              want["yield"].push_back(par(*l));
              if (stop) want["ref_line"].push_back(par(*stop));
              assoc.push_back({par(*l), stop ? par(*stop) : Par{}});
            } catch (InvalidInputError&) {
              c->check(bad, "C08:aws-consistent-rejected", tr);
            }
            tr += "add ";
            break;
          }
          case 1: {
            auto cur = t->lanelets();
            auto any = aliveLl();
            if (cur.empty() && !any) break;
            Lanelet x = !cur.empty() && r.p(.7) ? cur[r.idx(cur.size())] : any ? *any : cur[0];
            Par px = par(x);
            bool exp = false;
            for (size_t i = 0; i < assoc.size(); ++i)
              if (assoc[i].first == px && !dead.count(px.obj)) {
                if (assoc[i].second.obj) want["ref_line"].erase(want["ref_line"].begin() + long(i));
                assoc.erase(assoc.begin() + long(i));
                exp = rm("yield", px);
                break;
              }
            c->check(t->removeLanelet(x) == exp, "C08:remove-result", "aws ", tr);
            tr += "rm ";
            break;
          }
          case 2: {
            auto s = sign();
            t->addTrafficSign(s);
            want["refers"].push_back(parS(s));
            tr += "addSign ";
            break;
          }
          case 3: {
            auto cur = t->trafficSigns();
            auto s = !cur.empty() && r.p(.7) ? cur[r.idx(cur.size())] : sign();
            bool exp = rm("refers", parS(s));
            c->check(t->removeTrafficSign(s) == exp, "C08:remove-result", "aws sign");
            tr += "rmSign ";
            break;
          }
          case 4:
            kill();
            break;
          default:;
        }
        const AllWayStop& ct = *t;
        c->check(pars(ct.lanelets()) == kind(want["yield"], "l") && pars(t->lanelets()) == kind(want["yield"], "l"), "C08:aws-lanelets", tr);
        c->check(pars(ct.stopLines()) == want["ref_line"] && pars(t->stopLines()) == want["ref_line"], "C08:aws-stop-lines", tr);
        c->check(pars(ct.trafficSigns()) == want["refers"], "C08:aws-signs", tr);
        for (auto& x : lls) {
          if (!x) continue;
          auto sl = ct.getStopLine(*x);
          Par expS{};
          bool in = false;
          for (auto& e : assoc)
            if (e.first == par(*x)) {
              expS = e.second;
              in = true;
            }
          bool has = in && expS.obj;
          c->check(!!sl == has, "C08:aws-stop-line-presence", tr);
          if (sl) c->check(par(*sl) == expS, "C08:aws-stop-line-of-lanelet", "wrong stop line after ", tr);
          auto slm = t->getStopLine(ConstLanelet(*x));
          c->check(!!slm == has && (!has || par(*slm) == expS), "C08:aws-stop-line-of-lanelet-mutable", tr);
        }
        observe(*t, want, tr);
      }
    } else if (type == 3) {
      bool speed = r.p(.5);
      LineStringsOrPolygons3d s{sign()};
      std::string st = r.p(.5) ? "de205" : "";
      LineStrings3d ref;
      if (r.p(.5)) ref.push_back(g.anyLine());
      TrafficSign::Ptr t;
      if (speed)
        t = SpeedLimit::make(ids.valid(), attrs, {s, st}, {}, ref);
      else
        t = TrafficSign::make(ids.valid(), attrs, {s, st}, {}, ref);
      re = t;
      base(*t, speed ? "speed_limit" : "traffic_sign");
      for (auto& e : s) want["refers"].push_back(parS(e));
      for (auto& e : ref) want["ref_line"].push_back(par(e));
      for (int k = 0; k < ops; ++k) {
        switch (r.i(0, 7)) {
          case 0: {
            auto x = sign();
            t->addTrafficSign(x);
            want["refers"].push_back(parS(x));
            tr += "add ";
            break;
          }
          case 1: {
            auto cur = t->trafficSigns();
            auto x = !cur.empty() && r.p(.6) ? cur[r.idx(cur.size())] : sign();
            bool exp = rm("refers", parS(x));
            c->check(t->removeTrafficSign(x) == exp, "C08:remove-result", "sign");
            tr += "rm ";
            break;
          }
          case 2: {
            for (int64_t rounds = r.p(.3) ? r.i(2, 4) : 1; rounds > 0; --rounds) {
              std::string ct = r.pick({"de278", "de282", "de274.2"});
              LineStringsOrPolygons3d xs;
              for (int64_t m = r.p(.8) ? 1 : r.i(0, 3); m > 0; --m) xs.push_back(sign());
              t->addCancellingTrafficSign({xs, ct});
              for (auto& x : xs) {
                want["cancels"].push_back(parS(x));
                c->check(x.attributes().at("subtype").value() == ct, "C08:cancel-type-written", "");
              }
            }
            tr += "addC ";
            break;
          }
          case 3: {
            auto cur = t->cancellingTrafficSigns();
            auto x = !cur.empty() && r.p(.6) ? cur[r.idx(cur.size())] : sign();
            bool exp = rm("cancels", parS(x));
            c->check(t->removeCancellingTrafficSign(x) == exp, "C08:remove-result", "cancel");
            tr += "rmC ";
            break;
          }
          case 4: {
            auto x = g.anyLine();
            t->addRefLine(x);
            want["ref_line"].push_back(par(x));
            tr += "addRef ";
            break;
          }
          case 5: {
            auto cur = t->refLines();
            auto x = !cur.empty() && r.p(.6) ? cur[r.idx(cur.size())] : g.anyLine();
            bool exp = rm("ref_line", par(x));
            c->check(t->removeRefLine(x) == exp, "C08:remove-result", "refline");
            tr += "rmRef ";
            break;
          }
          case 6: {
            auto x = g.anyLine();
            t->addCancellingRefLine(x);
            want["cancel_line"].push_back(par(x));
            tr += "addCL ";
            break;
          }
          default: {
            auto cur = t->cancelLines();
            auto x = !cur.empty() && r.p(.6) ? cur[r.idx(cur.size())] : g.anyLine();
            bool exp = rm("cancel_line", par(x));
            c->check(t->removeCancellingRefLine(x) == exp, "C08:remove-result", "cancelline");
            tr += "rmCL ";
          }
        }
        const TrafficSign& ct = *t;
        c->check(pars(ct.trafficSigns()) == want["refers"], "C08:signs", tr);
        c->check(pars(ct.cancellingTrafficSigns()) == want["cancels"], "C08:cancelling-signs", tr);
        c->check(pars(ct.refLines()) == want["ref_line"] && pars(t->refLines()) == want["ref_line"], "C08:ref-lines", tr);
        c->check(pars(ct.cancelLines()) == want["cancel_line"] && pars(t->cancelLines()) == want["cancel_line"], "C08:cancel-lines", tr);
        auto cur = ct.trafficSigns();
        try {
          auto ty = ct.type();
          c->check(!cur.empty() && ty == cur.front().attributes().at("subtype").value(), "C08:sign-type", tr);
        } catch (InvalidInputError&) {
          c->check(cur.empty(), "C08:sign-type-throws", tr);
        }
        std::set<std::string> ctypes;
        for (auto& e : ct.cancellingTrafficSigns()) ctypes.insert(e.attributes().at("subtype").value());
        auto gt = ct.cancelTypes();
        c->check(gt == std::vector<std::string>(ctypes.begin(), ctypes.end()), "C08:cancel-types", tr);
        observe(*t, want, tr);
      }
    } else {
      auto t = std::make_shared<GenericRegulatoryElement>(ids.valid(), RuleParameterMap(), attrs);
      re = t;
      static const std::vector<std::string> Rl{"refers", "ref_line", "yield", "right_of_way", "cancels", "cancel_line", "x", "", "Refers"};
      for (int k = 0; k < ops; ++k) {
        std::string role = Rl[r.idx(Rl.size())];
        auto add = [&](auto prim, Par p) {
          bool en = false;
          for (auto& f : fast)
            if (f.first == role && r.p(.5)) {
              t->addParameter(f.second, prim);
              en = true;
            }
          if (!en) t->addParameter(role, prim);
          want[role].push_back(p);
        };
        switch (r.i(0, 6)) {
          case 0: {
            auto p = w.pts[r.idx(w.pts.size())];
            add(p, par(p));
            break;
          }
          case 1: {
            auto p = g.anyLine();
            add(p, par(p));
            break;
          }
          case 2: {
            auto p = w.polys[r.idx(w.polys.size())];
            add(p, par(p));
            break;
          }
          case 3: {
            auto l = aliveLl();
            if (l) add(WeakLanelet(*l), par(*l));
            break;
          }
          case 4: {
            auto& a = ars[r.idx(ars.size())];
            if (a) add(WeakArea(*a), par(*a));
            break;
          }
          case 5: {
            if (want.empty()) break;
            auto it = want.begin();
            std::advance(it, long(r.idx(want.size())));
            c->check((t->parameters().erase(it->first) == 1) == true || it->second.empty(), "C08:generic-erase", "");
            want.erase(it);
            tr += "eraseRole ";
            break;
          }
          default:
            kill();
        }
        observe(*t, want, tr);
        c->check(t->size() == want.size() && t->empty() == want.empty(), "C08:generic-size", tr);
        auto roles = t->roles();
        std::vector<std::string> wr;
        for (auto& e : want) wr.push_back(e.first);
        c->check(roles == wr, "C08:roles", tr);
      }
    }
    c->sig(Hash()(uint64_t(type))(tr).h);
    c->event("type" + std::to_string(type));
    if (c->wantSample()) c->sample(std::to_string(type) + ": " + tr);
    // kill everything that is referenced weakly: the regulatory element must not keep it alive
    for (auto& l : lls)
      if (l) {
        std::weak_ptr<const LaneletData> wp = l->constData();
        const void* p = l->constData().get();
        l = boost::none;
        c->check(wp.expired(), "C08:kept-alive", "a lanelet referenced by a regulatory element outlived its last owner");
        dead.insert(p);
      }
    for (auto& a : ars)
      if (a) {
        std::weak_ptr<const AreaData> wp = a->constData();
        const void* p = a->constData().get();
        a = boost::none;
        c->check(wp.expired(), "C08:kept-alive", "area");
        dead.insert(p);
      }
    observe(*re, want, tr + "all-dead");
    factory(g);
  }
  void factory(gen::WorldGen& g0) {
    auto& r = c->rng;
    gen::IdSource ids(r);
    gen::WorldOpts o;
    o.attrs = false;
    o.regs = 3;
    gen::WorldGen g(r, ids, o);
    g.all();
    (void)g0;
    auto rules = RegulatoryElementFactory::availableRules();
    std::set<std::string> have(rules.begin(), rules.end());
    for (auto* n : {"traffic_light", "right_of_way", "traffic_sign", "speed_limit", "all_way_stop", "regulatory_element"})
      c->check(have.count(n) == 1, "C08:factory-rule-missing", n);
    for (auto& re : g.w.regs) {
      RuleParameterMap rpm;
      // rebuild the mutable parameter map from the element's data
      auto data = std::const_pointer_cast<RegulatoryElementData>(re->constData());
      rpm = data->parameters;
      std::string sub = re->attributes().find("subtype") != re->attributes().end() ? re->attribute("subtype").value() : "";
      auto nr = RegulatoryElementFactory::create(sub, re->id() + 1, rpm, re->attributes());
      c->check(nr != nullptr && nr->id() == re->id() + 1, "C08:factory-id", sub);
      const RegulatoryElement &a = *nr, &b = *re;
      if (!sub.empty()) c->check(typeid(a) == typeid(b), "C08:factory-type", sub, " gives ", typeid(a).name());
      Vis va, vb;
      a.applyVisitor(va);
      b.applyVisitor(vb);
      c->check(va.seen == vb.seen, "C08:factory-parameters", sub);
      AttributeMap am = b.attributes();
      am["subtype"] = sub.empty() ? "regulatory_element" : sub;
      c->check(a.attributes() == am, "C08:factory-attributes", sub);
      c->event("factory:" + (sub.empty() ? std::string("generic") : sub));
    }
    try {
      RegulatoryElementFactory::create("no_such_rule", 1, RuleParameterMap());
      c->check(false, "C08:factory-unknown", "unknown rule accepted");
    } catch (InvalidInputError&) {
    }
  }
};
VF_HARNESS(C08, "C08");
}  // namespace
