// G01: line string geometry against segment-by-segment computation.
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/primitives/CompoundLineString.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/utility/Utilities.h>

#include <boost/geometry/algorithms/equals.hpp>

#include "gen.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;
using geo::P2;
using geo::P3;

namespace {
template <int D>
struct PT;
template <>
struct PT<2> {
  using P = P2;
  using B = BasicPoint2d;
  static B b(P p) { return {p.x, p.y}; }
  static P g(const B& p) { return {p.x(), p.y()}; }
};
template <>
struct PT<3> {
  using P = P3;
  using B = BasicPoint3d;
  static B b(P p) { return {p.x, p.y, p.z}; }
  static P g(const B& p) { return {p.x(), p.y(), p.z()}; }
};

struct Poly {  // the polyline under test and its plain coordinates
  std::vector<P3> p;
  Points3d pts;
  LineString3d ls;
  double scale{1};
  bool closed{false}, revisits{false};
};

enum Shape { Walk, Smooth, Sharp, GridWalk, Closed, Long, Far, Spiral, Zigzag, Straight, NumShapes };

Poly make(Rng& r, gen::IdSource& ids, int shape, int n, double z) {
  Poly q;
  double x = 0, y = 0, h = r.d(-4, 4), zz = r.d(-z, z);
  double ox = 0, oy = 0;
  if (shape == Far) {
    ox = r.pick({4.5e5, -1.e6, 3.3e5});
    oy = r.pick({5.4e6, 1.e6, -2.e6});
  }
  for (int k = 0; k < n; ++k) {
    q.p.push_back({x + ox, y + oy, zz});
    double step = r.d(.5, 8);
    switch (shape) {
      case Smooth: h += r.d(-.15, .15); break;
      case Sharp: h += r.pick({2.6, -2.6, 1.8, -1.8, .3, 2.9}) + r.d(-.2, .2); break;
      case Spiral:
        h += .5;
        step = .5 + k * .35;
        break;
      case Zigzag: h = (k % 2 ? 1 : -1) * r.d(1.2, 1.5); break;
      case Straight: break;
      default: h += r.d(-1.2, 1.2);
    }
    if (shape == GridWalk) {
      static const int dx[] = {2, 0, -2, 0, 2, -2}, dy[] = {0, 2, 0, -2, 2, 2};
      int last = int(q.p.size());
      for (;;) {
        size_t d = r.idx(6);
        double nx = x + dx[d], ny = y + dy[d];
        // no immediate way back onto the previous segment
        if (last >= 2) {
          auto& b = q.p[q.p.size() - 2];
          P2 u{nx - x, ny - y}, v{b.x - x, b.y - y};
          if (std::fabs(geo::cross(u, v)) < 1e-9 && geo::dot(u, v) > 0) continue;
        }
        x = nx;
        y = ny;
        break;
      }
    } else {
      x += step * std::cos(h);
      y += step * std::sin(h);
    }
    zz += z > 0 ? r.d(-z, z) * .3 : 0;
  }
  if (shape == Closed && n > 3) {
    q.p.clear();
    auto ring = gen::starRing(r, {0, 0}, 5, 20, n - 1);
    for (auto& c : ring) q.p.push_back({c.x, c.y, zz});
    q.p.push_back(q.p.front());
    q.closed = true;
  }
  if (shape == Long) {
    for (auto& c : q.p) c = c * 100.;
    q.scale = 100;
  }
  for (auto& c : q.p) q.pts.push_back(Point3d(ids.valid(), c.x, c.y, c.z));
  if (q.closed) q.pts.back() = q.pts.front();
  std::set<std::pair<double, double>> seen;
  for (auto& c : q.p) q.revisits |= !seen.insert({c.x, c.y}).second;
  Points3d st = q.pts;
  bool rv = r.p(.3);
  if (rv) std::reverse(st.begin(), st.end());
  q.ls = LineString3d(ids.valid(), st);
  if (rv) q.ls = q.ls.invert();
  return q;
}

template <typename P>
struct Near {  // all segments whose distance to p is within tol of the minimum
  double d{geo::Inf};
  std::vector<size_t> segs;
  Near(const std::vector<P>& l, P p, double tol) {
    for (size_t k = 0; k + 1 < l.size(); ++k) d = std::min(d, geo::distSeg(l[k], l[k + 1], p));
    for (size_t k = 0; k + 1 < l.size(); ++k)
      if (geo::distSeg(l[k], l[k + 1], p) <= d + tol) segs.push_back(k);
  }
};
inline P2 xy(P2 p) { return p; }
inline P2 xy(P3 p) { return {p.x, p.y}; }

// side of p relative to the line: +1 left, -1 right, 0 undecidable
template <typename P>
int side(const std::vector<P>& l, P p, const Near<P>& n, double tol, bool closed) {
  auto sideOf = [&](size_t k) {
    P2 a = xy(l[k]), b = xy(l[k + 1]);
    double o = geo::orient(a, b, xy(p));
    double lim = tol * (1 + geo::norm(b - a));
    return std::fabs(o) <= lim ? 0 : geo::sgn(o);
  };
  if (n.segs.size() == 1) {
    size_t k = n.segs[0];
    // the foot point is clearly inside the segment or beyond the end of the line
    return sideOf(k);
  }
  if (n.segs.size() == 2 && n.segs[1] == n.segs[0] + 1) {
    size_t k = n.segs[0];
    if (geo::norm(geo::closestOnSeg(l[k], l[k + 1], p) - l[k + 1]) > 1e-6) return 0;  // equally far from both (bisector)
    if (geo::norm(geo::closestOnSeg(l[k + 1], l[k + 2], p) - l[k + 1]) > 1e-6) return 0;
    int s1 = sideOf(k), s2 = sideOf(k + 1);
    if (s1 == 0 || s2 == 0) return 0;
    if (s1 == s2) return s1;
    double turn = geo::orient(xy(l[k]), xy(l[k + 1]), xy(l[k + 2]));
    double lim = 1e-6 * (geo::norm(xy(l[k + 1]) - xy(l[k])) * geo::norm(xy(l[k + 2]) - xy(l[k + 1])));
    if (std::fabs(turn) <= lim) return 0;
    return turn > 0 ? -1 : 1;  // the corner points towards p
  }
  (void)closed;
  return 0;
}

template <typename LsT, int D>
void checkOne(Ctx& c, const char* type, const LsT& ls, const std::vector<typename PT<D>::P>& l, typename PT<D>::P p, double tol,
              bool closed, std::integral_constant<int, D>) {
  using T = PT<D>;
  auto bp = T::b(p);
  Near<typename T::P> n(l, p, tol);
  double d = geometry::distance(ls, bp);
  c.check(c.close(d, n.d, tol), "G01:distance", type, " ", D, "d: distance ", d, " segment scan ", n.d, " points ", l.size());
  auto pr = geometry::project(ls, bp);
  auto g = T::g(pr);
  c.check(geo::distLine(l, g) <= tol && std::fabs(geo::norm(g - p) - n.d) <= tol, "G01:project", type, " ", D, "d: projected point is ",
          geo::distLine(l, g), " off the line and ", geo::norm(g - p), " away instead of ", n.d);
  auto seg = geometry::closestSegment(ls, bp);
  auto s1 = T::g(utils::toBasicPoint(seg.first)), s2 = T::g(utils::toBasicPoint(seg.second));
  bool found = false;
  for (size_t k : n.segs) found |= geo::norm(l[k] - s1) <= 1e-12 && geo::norm(l[k + 1] - s2) <= 1e-12;
  c.check(found, "G01:closestSegment", type, " ", D, "d: not one of the ", n.segs.size(), " closest segments");
  double sd = geometry::signedDistance(ls, bp);
  c.check(c.close(std::fabs(sd), n.d, tol), "G01:signedDistance-value", type, " ", D, "d: ", sd, " instead of +-", n.d);
  std::string info;
  int s = side(l, p, n, 1e-6 * (1 + tol), closed);
  if (s != 0 && n.d > 1e-6) {
    c.event("signs decided");
    if (n.segs.size() == 2) c.event("signs decided at corners");
    if ((sd > 0) != (s > 0)) {
      std::ostringstream os;
      os.precision(17);
      for (size_t k : n.segs) {
        auto f = geo::closestOnSeg(l[k], l[k + 1], p);
        os << " seg " << k << " foot off start " << geo::norm(f - l[k]) << " off end " << geo::norm(f - l[k + 1]) << " side " << geo::orient(xy(l[k]), xy(l[k + 1]), xy(p)) << " dist " << geo::distSeg(l[k], l[k + 1], p);
      }
      for (auto& x : {s1, s2}) os << " [" << xy(x).x << "," << xy(x).y << "]";
      info = os.str();
    }
    c.check((sd > 0) == (s > 0), "G01:signedDistance-sign", info, " ", type, " ", D, "d with ", l.size(), " points: ", sd, " but the point is on the ", s > 0 ? "left" : "right",
            " (", n.segs.size(), " closest segments)");
  }
}

template <typename LsT>
void checkArc(Ctx& c, const char* type, const LsT& ls, const std::vector<P2>& l, P2 p, double tol, bool inner) {
  Near<P2> n(l, p, tol);
  auto ac = geometry::toArcCoordinates(ls, PT<2>::b(p));
  c.check(c.close(std::fabs(ac.distance), n.d, tol), "G01:arc-distance", type, ": ", ac.distance, " instead of +-", n.d);
  bool ok = false;
  std::ostringstream cand;
  std::vector<double> pre{0};
  for (size_t k = 0; k + 1 < l.size(); ++k) pre.push_back(pre.back() + geo::norm(l[k + 1] - l[k]));
  for (size_t k : n.segs) {
    P2 q = geo::closestOnSeg(l[k], l[k + 1], p);
    double s = pre[k] + geo::norm(q - l[k]);
    cand << " " << s;
    ok |= std::fabs(s - ac.length) <= tol * 10;
  }
  c.check(ok, "G01:arc-length", type, " with ", l.size(), " points: length ", ac.length, " but expected one of", cand.str());
  if (n.segs.size() == 1 && inner) {
    size_t k = n.segs[0];
    P2 q = geo::closestOnSeg(l[k], l[k + 1], p);
    double off = geo::norm(q - l[k]), sl = geo::norm(l[k + 1] - l[k]);
    if (off > 1e-4 && off < sl - 1e-4 && n.d > 1e-6) {
      auto back = geometry::fromArcCoordinates(ls, ac);
      c.event("arc coordinates converted back");
      c.check(geo::norm(P2{back.x(), back.y()} - p) <= tol * 20, "G01:arc-roundtrip", type, ": (", p.x, ",", p.y, ") -> (", ac.length, ",", ac.distance, ") -> (",
              back.x(), ",", back.y(), ")");
    }
  }
}

template <int D, typename LsT>
void checkAlong(Ctx& c, const char* type, const LsT& ls, const std::vector<typename PT<D>::P>& l, double dist, double tol, bool ids) {
  using T = PT<D>;
  using P = typename T::P;
  double len = geo::lengthOf(l);
  double s = dist < 0 ? len + dist : dist;
  s = std::min(std::max(s, 0.), len);
  P want = l.back();
  double acc = 0;
  size_t segk = l.size() - 2;
  double offs = geo::norm(l[l.size() - 1] - l[l.size() - 2]);
  for (size_t k = 0; k + 1 < l.size(); ++k) {
    double sl = geo::norm(l[k + 1] - l[k]);
    if (acc + sl >= s) {
      want = l[k] + (l[k + 1] - l[k]) * (sl > 0 ? (s - acc) / sl : 0);
      segk = k;
      offs = s - acc;
      break;
    }
    acc += sl;
  }
  auto got = T::g(geometry::interpolatedPointAtDistance(ls, dist));
  c.check(geo::norm(got - want) <= tol + 2e-8, "G01:interpolated", type, " ", D, "d: at ", dist, " of ", len, ": off by ", geo::norm(got - want));
  double sl = geo::norm(l[segk + 1] - l[segk]);
  if (std::fabs(offs - sl / 2) > 1e-6 * (1 + sl)) {
    P nearest = offs < sl / 2 ? l[segk] : l[segk + 1];
    auto gn = T::g(utils::toBasicPoint(geometry::nearestPointAtDistance(ls, dist)));
    c.check(geo::norm(gn - nearest) <= tol, "G01:nearestPoint", type, " ", D, "d: at ", dist, " of ", len, ": off by ", geo::norm(gn - nearest));
  }
}

template <int D, typename LsT>
void checkStatic(Ctx& c, const char* type, const LsT& ls, const std::vector<typename PT<D>::P>& l, double tol) {
  double len = geo::lengthOf(l);
  c.check(c.close(geometry::length(ls), len, tol), "G01:length", type, " ", D, "d: ", geometry::length(ls), " segments ", len);
  c.check(c.close(geometry::rangedLength(ls.begin(), ls.end()), len, tol), "G01:rangedLength", type, " ", D, "d");
  auto lr = geometry::lengthRatios(ls);
  auto ar = geometry::accumulatedLengthRatios(ls);
  c.check(lr.size() + 1 == l.size() && ar.size() + 1 == l.size(), "G01:ratios-size", type, " ", D, "d ", lr.size());
  double acc = 0;
  for (size_t k = 0; k + 1 < l.size(); ++k) {
    double sl = geo::norm(l[k + 1] - l[k]);
    acc += sl;
    c.check(c.close(lr[k], sl / len, 1e-9) && c.close(ar[k], acc / len, 1e-9), "G01:ratios", type, " ", D, "d segment ", k, " ", lr[k], " ", ar[k], " want ", sl / len, " ", acc / len);
  }
}

struct G01 : Harness {
  uint64_t numCases(bool th) override { return th ? 120000 : 6000; }
  std::string rule() override {
    return "a case is one polyline (2..130 points; smooth, sharp, self-touching, closed, spiral, UTM-sized) queried through every view with many points; "
           "distinct states are hashes of its coordinates";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    gen::IdSource ids(r);
    int shape = int(r.i(0, NumShapes - 1));
    int n = r.p(.5) ? int(r.i(2, 12)) : r.p(.5) ? int(r.i(45, 55)) : int(r.i(2, 130));
    if (shape == Closed) n = std::max(n, 4);
    Poly q = make(r, ids, shape, n, r.p(.5) ? 3. : 0.);
    auto& p3 = q.p;
    std::vector<P2> p2;
    double maxc = 1;
    for (auto& p : p3) {
      p2.push_back({p.x, p.y});
      maxc = std::max({maxc, std::fabs(p.x), std::fabs(p.y)});
    }
    double tol = 1e-9 * std::max(1., maxc) * std::max(1., double(n) / 10) + 1e-7;
    Hash h;
    for (auto& p : p3) h(p.x)(p.y)(p.z);
    c.sig(h.h);
    static const char* SN[] = {"walk", "smooth", "sharp", "grid", "closed", "long", "far", "spiral", "zigzag", "straight"};
    c.event(std::string("shape ") + SN[shape]);
    c.event(n >= 50 ? "lines with 50 or more points (indexed)" : "lines with less than 50 points (scanned)");
    ConstLineString3d ls3 = q.ls;
    ConstLineString2d ls2 = utils::to2D(ls3);
    auto hy2 = utils::toHybrid(ls2);
    auto hy3 = utils::toHybrid(ls3);
    BasicLineString2d b2(hy2.begin(), hy2.end());
    BasicLineString3d b3(hy3.begin(), hy3.end());
    // the same line cut into parts that share their end points
    ConstLineStrings3d parts;
    {
      size_t s = 0;
      while (s + 1 < q.pts.size()) {
        size_t e = std::min(q.pts.size() - 1, s + size_t(r.i(1, 40)));
        parts.push_back(LineString3d(ids.valid(), Points3d(q.pts.begin() + long(s), q.pts.begin() + long(e) + 1)));
        s = e;
      }
    }
    CompoundLineString3d co3(parts);
    CompoundLineString2d co2(utils::transform(parts, [](auto& l) { return utils::to2D(l); }));
    auto inv3 = ls3.invert();
    auto inv2 = ls2.invert();
    std::vector<P2> r2(p2.rbegin(), p2.rend());
    std::vector<P3> r3(p3.rbegin(), p3.rend());
    checkStatic<2>(c, "const", ls2, p2, tol * n);
    checkStatic<3>(c, "const", ls3, p3, tol * n);
    checkStatic<2>(c, "hybrid", hy2, p2, tol * n);
    checkStatic<2>(c, "inverted", inv2, r2, tol * n);
    checkStatic<3>(c, "basic", b3, p3, tol * n);
    checkStatic<2>(c, "compound", co2, p2, tol * n);
    auto bb = geometry::boundingBox2d(ls2);
    auto bb3 = geometry::boundingBox3d(ls3);
    geo::Box bx;
    for (auto& p : p3) bx.add(p.x, p.y, p.z);
    c.check(bb.min().x() == bx.x0 && bb.min().y() == bx.y0 && bb.max().x() == bx.x1 && bb.max().y() == bx.y1, "G01:boundingBox2d", "wrong box");
    c.check(bb3.min().z() == bx.z0 && bb3.max().z() == bx.z1 && bb3.min().x() == bx.x0 && bb3.max().y() == bx.y1, "G01:boundingBox3d", "wrong box");
    using I2 = std::integral_constant<int, 2>;
    using I3 = std::integral_constant<int, 3>;
    int nq = int(r.i(4, 12));
    for (int k = 0; k < nq; ++k) {
      // query points: around a random vertex or segment, near corners, far away, behind the ends
      size_t i = r.idx(p3.size());
      P3 base = p3[i];
      double u = r.u();
      if (u < .4 && i + 1 < p3.size()) base = base + (p3[i + 1] - base) * r.u();
      double rad = (u < .7 ? r.d(0, 2) : r.d(0, 30)) * q.scale;
      double a = r.d(-M_PI, M_PI);
      P3 p{base.x + rad * std::cos(a), base.y + rad * std::sin(a), base.z + (r.p(.5) ? r.d(-3, 3) : 0.)};
      if (u > .93) p = base;
      P2 pp{p.x, p.y};
      checkOne(c, "const", ls2, p2, pp, tol, q.closed, I2{});
      checkOne(c, "const", ls3, p3, p, tol, q.closed, I3{});
      checkArc(c, "const", ls2, p2, pp, tol, true);
      checkOne(c, "inverted", inv2, r2, pp, tol, q.closed, I2{});
      checkOne(c, "inverted", inv3, r3, p, tol, q.closed, I3{});
      switch (r.i(0, 3)) {
        case 0:
          checkOne(c, "hybrid", hy2, p2, pp, tol, q.closed, I2{});
          checkArc(c, "hybrid", hy2, p2, pp, tol, true);
          checkOne(c, "hybrid", hy3, p3, p, tol, q.closed, I3{});
          break;
        case 1:
          checkArc(c, "inverted", inv2, r2, pp, tol, true);
          break;
        case 2: {
          auto d = geometry::distance2d(co2, PT<2>::b(pp));
          c.check(c.close(d, geo::distLine(p2, pp), tol), "G01:distance", "compound: ", d, " ", geo::distLine(p2, pp));
          checkOne(c, "compound", co2, p2, pp, tol, q.closed, I2{});
          checkOne(c, "compound", co3, p3, p, tol, q.closed, I3{});
          break;
        }
        default: {
          auto pr = geometry::internal::project(b2, PT<2>::b(pp));
          c.check(c.close(geo::norm(P2{pr.x(), pr.y()} - pp), geo::distLine(p2, pp), tol), "G01:project", "basic 2d");
          auto pr3 = geometry::internal::project(b3, PT<3>::b(p));
          c.check(c.close(geo::norm(P3{pr3.x(), pr3.y(), pr3.z()} - p), geo::distLine(p3, p), tol), "G01:project", "basic 3d");
          auto sg = geometry::closestSegment(b2, PT<2>::b(pp));
          c.check(c.close(geo::distSeg(PT<2>::g(sg.first), PT<2>::g(sg.second), pp), geo::distLine(p2, pp), tol), "G01:closestSegment", "basic 2d");
        }
      }
      // mirrored
      double a1 = geometry::signedDistance(ls2, PT<2>::b(pp)), a2 = geometry::signedDistance(inv2, PT<2>::b(pp));
      Near<P2> nn(p2, pp, tol);
      if (side(p2, pp, nn, 1e-6, q.closed) != 0 && nn.d > 1e-6)
        c.check(c.close(a1, -a2, tol * 2), "G01:invert-mirrors", "signed distance ", a1, " and inverted ", a2);
    }
    double len2 = geo::lengthOf(p2), len3 = geo::lengthOf(p3);
    for (int k = 0; k < 6; ++k) {
      double d = r.d(-1.3, 1.3) * len2;
      if (k == 0) d = 0;
      if (k == 1) d = r.p(.5) ? len2 : -len2;
      if (k == 2) {  // exactly at a point
        size_t i = r.idx(p2.size());
        d = geo::lengthOf(std::vector<P2>(p2.begin(), p2.begin() + long(i) + 1));
      }
      double t2 = tol * n;
      checkAlong<2>(c, "const", ls2, p2, d, t2, true);
      checkAlong<3>(c, "const", ls3, p3, d / len2 * len3, t2, true);
      checkAlong<2>(c, "inverted", inv2, r2, d, t2, true);
      if (k % 2) checkAlong<2>(c, "hybrid", hy2, p2, d, t2, false);
      if (k % 2 == 0) checkAlong<2>(c, "basic", b2, p2, d, t2, false);
    }
    // curvature of three points
    for (int k = 0; k < 4 && n > 2; ++k) {
      size_t i = 1 + r.idx(size_t(n) - 2);
      P2 a = p2[i - 1], b = p2[i], d = p2[i + 1];
      double prod = geo::norm(b - a) * geo::norm(d - b) * geo::norm(d - a);
      double k1 = geometry::signedCurvature2d(ls2[i - 1], ls2[i], ls2[i + 1]), k2 = geometry::curvature2d(b2[i - 1], b2[i], b2[i + 1]);
      if (prod > 1e-6) {
        double want = 2 * geo::orient(a, b, d) / prod;
        c.check(c.close(k1, want, 1e-6 * (1 + std::fabs(want))), "G01:curvature", "signed ", k1, " circle through the points ", want);
        c.check(c.close(k2, std::fabs(want), 1e-6 * (1 + std::fabs(want))), "G01:curvature", "unsigned ", k2, " want ", std::fabs(want));
      }
    }
    // moving sideways from a vertex
    if (n > 2 && !q.revisits) {
      int i = int(r.i(0, n - 1));
      double d = r.d(-4, 4);
      size_t lo = size_t(std::max(0, i - 1)), hi = size_t(std::min(n - 1, i + 1));
      P2 dir = p2[hi] - p2[lo];
      if (geo::norm(dir) > 1e-6) {
        P2 want = p2[size_t(i)] + P2{-dir.y, dir.x} * (d / geo::norm(dir));
        auto g = geometry::internal::lateralShiftPointAtIndex(ls2, i, d);
        c.check(geo::norm(P2{g.x(), g.y()} - want) <= tol * 10, "G01:lateralShift", "index ", i, " off by ", geo::norm(P2{g.x(), g.y()} - want));
        if (i > 0) {
          g = geometry::internal::lateralShiftPointAtIndex(ls2, i - n, d);
          c.check(geo::norm(P2{g.x(), g.y()} - want) <= tol * 10, "G01:lateralShift", "index ", i - n, " off by ", geo::norm(P2{g.x(), g.y()} - want));
        }
      }
    }
    twoLines(c, r, ids, q, p2, p3, tol);
    if (c.wantSample()) c.sample(std::string(SN[shape]) + " with " + std::to_string(n) + " points, length " + std::to_string(len2));
  }
  void twoLines(Ctx& c, Rng& r, gen::IdSource& ids, const Poly& q, const std::vector<P2>& p2, const std::vector<P3>& p3, double tol) {
    // a second line nearby: crossing, parallel (same direction up to rounding) or anything
    int m = r.p(.7) ? int(r.i(2, 12)) : int(r.i(45, 80));
    std::vector<P3> o3;
    double u = r.u();
    if (u < .3) {
      double off = r.d(.1, 6);
      P3 d = p3.back() - p3.front();
      double l = std::max(1e-9, std::hypot(d.x, d.y));
      for (auto& p : p3) o3.push_back({p.x - d.y / l * off, p.y + d.x / l * off, p.z + r.pick({0., 0., 1.})});
      if (r.p(.5)) std::reverse(o3.begin(), o3.end());
    } else {
      Poly o = make(r, ids, int(r.i(0, 3)), m, r.p(.5) ? 3. : 0.);
      P3 a = p3[r.idx(p3.size())], b = o.p[r.idx(o.p.size())];
      P3 sh = a - b + P3{r.d(-4, 4), r.d(-4, 4), r.d(-1, 1)};
      for (auto& p : o.p) o3.push_back(p + sh);
    }
    std::vector<P2> o2;
    Points3d pts;
    for (auto& p : o3) {
      o2.push_back({p.x, p.y});
      pts.push_back(Point3d(ids.valid(), p.x, p.y, p.z));
    }
    ConstLineString3d a3 = q.ls, b3 = LineString3d(ids.valid(), pts);
    if (r.p(.3)) {
      std::reverse(pts.begin(), pts.end());
      b3 = LineString3d(ids.valid(), pts).invert();
    }
    double d2 = geo::Inf, d3 = geo::Inf;
    for (size_t i = 0; i + 1 < p2.size(); ++i)
      for (size_t j = 0; j + 1 < o2.size(); ++j) {
        d2 = std::min(d2, geo::segDist(p2[i], p2[i + 1], o2[j], o2[j + 1]));
        d3 = std::min(d3, geo::segDist3(p3[i], p3[i + 1], o3[j], o3[j + 1]));
      }
    auto a2 = utils::to2D(a3), b2 = utils::to2D(b3);
    double big = 1e-6 * (1 + q.scale) + tol;
    double g2 = geometry::distance2d(a2, b2);
    if (!c.close(g2, d2, big) && c.verbose) {
      for (const std::vector<P2>* v : {&p2, (const std::vector<P2>*)&o2}) {
        std::cerr.precision(17);
        for (auto& x : *v) std::cerr << "(" << x.x << "," << x.y << ") ";
        std::cerr << "\n";
      }
    }
    c.check(c.close(g2, d2, big), "G01:line-distance2d", g2, " segment pairs give ", d2, " (", p2.size(), " and ", o2.size(), " points)");
    auto pp = geometry::projectedPoint2d(a2, b2);
    P2 x{pp.first.x(), pp.first.y()}, y{pp.second.x(), pp.second.y()};
    c.check(geo::distLine(p2, x) <= big && geo::distLine(o2, y) <= big, "G01:projectedPoint2d-on-line", "not on the lines: ", geo::distLine(p2, x), " ", geo::distLine(o2, y));
    c.check(c.close(geo::norm(x - y), d2, big), "G01:projectedPoint2d", geo::norm(x - y), " segment pairs give ", d2, " (", p2.size(), " and ", o2.size(), " points)");
    auto p = geometry::projectedPoint3d(a3, b3);
    P3 s{p.first.x(), p.first.y(), p.first.z()}, t{p.second.x(), p.second.y(), p.second.z()};
    c.check(geo::distLine(p3, s) <= big && geo::distLine(o3, t) <= big, "G01:projectedPoint3d-on-line", "not on the lines");
    c.check(c.close(geo::norm(s - t), d3, big), "G01:projectedPoint3d", geo::norm(s - t), " segment pairs give ", d3, " (", p2.size(), " and ", o2.size(), " points)");
    c.check(c.close(geometry::distance3d(a3, b3), d3, big), "G01:line-distance3d", geometry::distance3d(a3, b3), " segment pairs give ", d3);
    auto ph = geometry::projectedPoint3d(b3, a3);
    c.check(c.close((ph.first - ph.second).norm(), d3, big), "G01:projectedPoint3d", "swapped: ", (ph.first - ph.second).norm(), " ", d3);
    // crossings seen from above and the heights of both lines there
    double lo = geo::Inf;
    bool clear = true;
    for (size_t i = 0; i + 1 < p3.size(); ++i)
      for (size_t j = 0; j + 1 < o3.size(); ++j) {
        P2 A = p2[i], B = p2[i + 1], C = o2[j], D = o2[j + 1];
        double cr = geo::cross(B - A, D - C), lim = 1e-6 * geo::norm(B - A) * geo::norm(D - C);
        if (std::fabs(cr) <= lim) {
          clear = clear && geo::segDist(A, B, C, D) > 1e-4;
          continue;
        }
        double u = geo::cross(C - A, D - C) / cr, v = geo::cross(C - A, B - A) / cr;
        const double e = 1e-5;
        if (u < -e || u > 1 + e || v < -e || v > 1 + e) continue;
        if (u < e || u > 1 - e || v < e || v > 1 - e) {
          clear = false;
          continue;
        }
        lo = std::min(lo, std::fabs(p3[i].z + (p3[i + 1].z - p3[i].z) * u - o3[j].z - (o3[j + 1].z - o3[j].z) * v));
      }
    if (clear && q.scale == 1) {
      // a line that crosses itself right at the crossing would have two heights there
      double h = r.pick({.05, .5, 1., 3.});
      bool self = q.revisits;
      std::set<std::pair<double, double>> seen;
      for (auto& x : o2) self |= !seen.insert({x.x, x.y}).second;
      if (!self && std::fabs(lo - h) > 1e-5 * (1 + tol * 1e6)) {
        bool got = geometry::intersects3d(a3, b3, h);
        c.event(lo < h ? "lines crossing within the height tolerance" : lo < geo::Inf ? "lines crossing only from above" : "lines without crossing");
        if (got != (lo < h) && c.verbose) {
          std::cerr.precision(17);
          for (const std::vector<P3>* v : {&p3, (const std::vector<P3>*)&o3}) {
            for (auto& x : *v) std::cerr << "(" << x.x << "," << x.y << "," << x.z << ") ";
            std::cerr << "\n";
          }
        }
        c.check(got == (lo < h), "G01:intersects3d", got, " with tolerance ", h, ", the smallest height difference at a crossing is ", lo);
        c.check(geometry::intersects3d(b3, a3, h) == got, "G01:intersects3d-symmetric", "not symmetric");
      }
    }
    c.event("line pairs");
  }
};
VF_HARNESS(G01, "G01");
}  // namespace
