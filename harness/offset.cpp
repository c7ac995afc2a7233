// G04: offset lines keep the promised distance, never cross themselves and follow the whole line where there is room.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/primitives/LineString.h>

#include "gen.h"
#include "geo.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;
using geo::P2;

namespace {
double turnAt(const geo::Line& l, size_t k) {  // left positive
  P2 a = l[k] - l[k - 1], b = l[k + 1] - l[k];
  return std::atan2(geo::cross(a, b), geo::dot(a, b));
}
P2 leftOf(P2 a) { return P2{-a.y, a.x} * (1 / geo::norm(a)); }

enum Shape { Road, Bends, Hairpins, Tangle, Curve, Straight, Square, NumShapes };
const char* const Names[] = {"road", "bends", "hairpins", "tangle", "dense curve", "straight", "right angles"};

geo::Line make(Rng& r, int shape, int n) {
  geo::Line l;
  P2 p{r.d(-5, 5), r.d(-5, 5)};
  if (r.p(.1)) p = p + P2{r.pick({4.5e5, -1.e6}), r.pick({5.4e6, -2.e6})};
  double h = r.d(-4, 4), drift = r.d(-.08, .08);
  double lo = shape == Tangle ? r.pick({.3, 2.}) : shape == Curve ? .4 : r.pick({2., 4., 6.});
  for (int k = 0; k < n; ++k) {
    l.push_back(p);
    p = p + P2{std::cos(h), std::sin(h)} * r.d(lo, 2 * lo);
    switch (shape) {
      case Road: h += r.d(-.5, .5); break;
      case Bends: h += r.d(-1.5, 1.5); break;
      case Hairpins: h += r.p(.5) ? r.d(-2.9, 2.9) : r.d(-.4, .4); break;
      case Tangle: h += r.d(-3.1, 3.1); break;
      case Curve: h += drift + r.d(-.03, .03); break;
      case Square: h += r.pick({-M_PI / 2, 0., M_PI / 2, M_PI / 4}); break;
      default: break;
    }
  }
  return l;
}

// The offset line can follow every segment: shortened by its inner corners, none vanishes, and no two parts of the line come close.
bool room(const geo::Line& l, double d) {
  double a = std::fabs(d);
  for (size_t k = 0; k + 1 < l.size(); ++k) {
    double need = 0;
    for (size_t e : {k, k + 1}) {
      if (e == 0 || e + 1 == l.size()) continue;
      double t = turnAt(l, e);
      if (std::fabs(t) > 3.05) return false;
      need += a * std::tan(std::fabs(t) / 2);
    }
    if (geo::norm(l[k + 1] - l[k]) < 1.05 * need + 1e-3) return false;
  }
  for (size_t i = 0; i + 1 < l.size(); ++i)
    for (size_t j = i + 2; j + 1 < l.size(); ++j)
      if (geo::segDist(l[i], l[i + 1], l[j], l[j + 1]) < 2.9 * a + 1e-3) return false;
  return true;
}

template <typename LineT>
void checkOffset(Ctx& c, const char* type, const LineT& line, const geo::Line& l, double d, double tol) {
  bool free = room(l, d);
  double a = std::fabs(d);
  geo::Line o;
  try {
    for (auto& p : geometry::offset(line, d)) o.push_back({p.x(), p.y()});
  } catch (GeometryError&) {
    c.event("offsets refused");
    c.check(!free, "G04:refused", type, ": the line has room for an offset of ", d, " but is said to be inverted");
    return;
  }
  c.event(d > 0 ? "offsets to the left" : d < 0 ? "offsets to the right" : "offsets by zero");
  c.check(o.size() >= 2, "G04:size", type, ": ", o.size(), " points");
  // distances between one and sqrt(2) times the offset, at the points and between them
  double lo = geo::Inf, hi = 0;
  for (size_t k = 0; k + 1 < o.size(); ++k) {
    for (int s = 0; s <= 6; ++s) hi = std::max(hi, geo::distLine(l, o[k] + (o[k + 1] - o[k]) * (s / 6.)));
    for (size_t i = 0; i + 1 < l.size(); ++i) lo = std::min(lo, geo::segDist(l[i], l[i + 1], o[k], o[k + 1]));
  }
  c.check(lo >= a - tol, "G04:too-close", type, ": offset ", d, " comes as close as ", lo);
  c.check(hi <= a * std::sqrt(2.) + tol, "G04:too-far", type, ": offset ", d, " goes as far as ", hi);
  for (size_t i = 0; i + 1 < o.size(); ++i)
    for (size_t j = i + 2; j + 1 < o.size(); ++j) {
      double la = geo::norm(o[i + 1] - o[i]), lb = geo::norm(o[j + 1] - o[j]);
      if (la < tol || lb < tol) continue;
      double o1 = geo::orient(o[i], o[i + 1], o[j]) / la, o2 = geo::orient(o[i], o[i + 1], o[j + 1]) / la;
      double o3 = geo::orient(o[j], o[j + 1], o[i]) / lb, o4 = geo::orient(o[j], o[j + 1], o[i + 1]) / lb;
      bool crosses = std::min(std::fabs(o1), std::fabs(o2)) > tol && std::min(std::fabs(o3), std::fabs(o4)) > tol && o1 * o2 < 0 && o3 * o4 < 0;
      c.check(!crosses, "G04:self-intersection", type, ": offset ", d, " crosses itself in segments ", i, " and ", j);
    }
  if (!free) {
    c.event("offsets of lines without room");
    return;
  }
  c.event("offsets that follow the whole line");
  P2 first = l[0] + leftOf(l[1] - l[0]) * d, last = l.back() + leftOf(l[l.size() - 1] - l[l.size() - 2]) * d;
  c.check(geo::norm(o.front() - first) <= tol && geo::norm(o.back() - last) <= tol, "G04:ends", type, ": offset ", d, " does not start and end beside the line");
  int sharp = 0, inner = 0;
  double acc = -1;
  for (size_t k = 0; k + 1 < l.size(); ++k) {
    // the middle of what the inner corners leave of the segment is found again beside the line, in order
    double len = geo::norm(l[k + 1] - l[k]), s = 0, e = len;
    if (k > 0 && turnAt(l, k) * d > 0) s = a * std::tan(std::fabs(turnAt(l, k)) / 2);
    if (k + 2 < l.size() && turnAt(l, k + 1) * d > 0) e -= a * std::tan(std::fabs(turnAt(l, k + 1)) / 2);
    if (k > 0) {
      inner += turnAt(l, k) * d > 0;
      sharp += turnAt(l, k) * d < 0 && std::fabs(turnAt(l, k)) > M_PI / 2;
    }
    P2 m = l[k] + (l[k + 1] - l[k]) * ((s + e) / 2 / len) + leftOf(l[k + 1] - l[k]) * d;
    double best = geo::Inf, at = 0, run = 0;
    for (size_t i = 0; i + 1 < o.size(); ++i) {
      P2 f = geo::closestOnSeg(o[i], o[i + 1], m);
      if (geo::norm(f - m) < best) {
        best = geo::norm(f - m);
        at = run + geo::norm(f - o[i]);
      }
      run += geo::norm(o[i + 1] - o[i]);
    }
    c.check(best <= tol, "G04:skipped", type, ": offset ", d, " leaves out segment ", k, " of the line (", best, " away)");
    c.check(at > acc, "G04:order", type, ": offset ", d, " visits segment ", k, " before the one in front of it");
    acc = at;
  }
  if (sharp) c.event("sharp outer corners", uint64_t(sharp));
  if (inner) c.event("inner corners", uint64_t(inner));
}

struct G04 : Harness {
  uint64_t numCases(bool th) override { return th ? 6000000 : 400000; }
  std::string rule() override {
    return "a case is one line (2..40 points; road-like, bends, hairpins, dense curves, right angles, tangled and self-crossing, UTM-sized) offset to both sides "
           "through one of its views; distinct states are hashes of its coordinates";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    gen::IdSource ids(r);
    int shape = int(r.i(0, NumShapes - 1));
    int n = r.p(.03) ? int(r.i(0, 1)) : shape == Curve ? int(r.i(5, 40)) : r.p(.8) ? int(r.i(2, 8)) : int(r.i(8, 25));
    geo::Line l = make(r, shape, n);
    double maxc = 1;
    Hash h;
    Points3d pts;
    for (auto& p : l) {
      h(p.x)(p.y);
      maxc = std::max({maxc, std::fabs(p.x), std::fabs(p.y)});
      pts.push_back(Point3d(ids.valid(), p.x, p.y, r.p(.3) ? r.d(-3, 3) : 0.));
    }
    c.sig(h.h);
    LineString3d ls3(ids.valid(), pts);
    ConstLineString2d ls = utils::to2D(ls3);
    double d = r.pick({.05, .5, 1., 2.}) * r.d(.3, 1.2) * (r.p(.5) ? 1 : -1);
    if (n < 2) {
      bool thrown = false;
      try {
        geometry::offset(ls, d);
      } catch (InvalidInputError&) {
        thrown = true;
      }
      c.event("lines with less than two points");
      c.check(thrown, "G04:invalid", "a line of ", n, " points is accepted");
      return;
    }
    if (r.p(.02) && room(l, 0)) d = 0;
    c.event(Names[shape]);
    double tol = 2e-7 + 4e-15 * maxc * 1e2;
    geo::Line back(l.rbegin(), l.rend());
    switch (r.i(0, 3)) {
      case 0: checkOffset(c, "2d line", ls, l, d, tol); break;
      case 1: checkOffset(c, "hybrid line", utils::toHybrid(ls), l, d, tol); break;
      case 2: checkOffset(c, "inverted line", ls.invert(), back, d, tol); break;
      default: checkOffset(c, "plain line", ls.basicLineString(), l, d, tol); break;
    }
    checkOffset(c, "2d line", ls, l, -d, tol);
  }
};
VF_HARNESS(G04, "G04");
}  // namespace
