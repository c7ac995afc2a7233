// M01 object matching
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "net.h"

namespace {
using namespace vf;
using namespace gen;
using namespace lanelet;
namespace mt = lanelet::matching;

const void* key(const ConstLanelet& l) { return l.constData().get(); }
const void* key(const ConstArea& l) { return l.constData().get(); }
const void* key(const ConstLineString3d& l) { return l.constData().get(); }
const void* key(const ConstPolygon3d& l) { return l.constData().get(); }
const void* key(const ConstPoint3d& l) { return l.constData().get(); }

struct M01 : Harness {
  uint64_t numCases(bool t) override { return t ? 100000 : 10000; }
  std::string rule() override {
    return "random maps (lanelet strips and tagged road networks, lanelets stored in both directions) x objects with and without hull "
           "(boxes, stars, open and closed, touching, inside, enclosing) x distances x covariances and headings; all matches are compared "
           "with a scan over all lanelets; non-trivial = distinct (map, object) with at least one match";
  }
  // all Mahalanobis distances that are correct up to ties for the closest point; empty when undefined
  struct Maha {
    std::vector<double> v;
    bool ambiguous{false};
  };
  static geo::P2 at(const geo::Line& l, double s) {
    for (size_t i = 0; i + 1 < l.size(); ++i) {
      double len = geo::norm(l[i + 1] - l[i]);
      if (s <= len && len > 0) return l[i] + (l[i + 1] - l[i]) * (s / len);
      s -= len;
    }
    return l.back();
  }
  static Maha maha(const geo::Line& l, geo::P2 p, double yaw, const mt::ObjectWithCovariance2d& o) {
    Maha m;
    double best = geo::Inf, len = 0;
    struct C {
      double d, s;
      geo::P2 q;
    };
    std::vector<C> cand;
    for (size_t i = 0; i + 1 < l.size(); ++i) {
      geo::P2 u = l[i + 1] - l[i];
      double n = geo::norm(u), t = n > 0 ? std::max(0., std::min(1., geo::dot(p - l[i], u) / (n * n))) : 0;
      geo::P2 q = l[i] + u * t;
      cand.push_back({geo::norm(p - q), len + t * n, q});
      best = std::min(best, cand.back().d);
      len += n;
    }
    double a = o.positionCovariance(0, 0), b = o.positionCovariance(0, 1), b2 = o.positionCovariance(1, 0), e = o.positionCovariance(1, 1);
    double det = a * e - b * b2;
    for (auto& x : cand) {
      if (x.d > best + 1e-7) continue;
      geo::P2 dir = at(l, std::min(len, x.s + .5)) - at(l, std::max(0., x.s - .5));
      if (geo::norm(dir) < 1e-2) {
        m.ambiguous = true;
        continue;
      }
      double dy = std::remainder(std::atan2(dir.y, dir.x) - yaw, 2 * M_PI);
      geo::P2 df = p - x.q;
      double pos = (df.x * (e * df.x - b * df.y) + df.y * (-b2 * df.x + a * df.y)) / det;
      m.v.push_back(pos + dy * dy * o.vonMisesKappa * o.vonMisesKappa);
    }
    return m;
  }

  template <typename MatchV>
  void deterministic(Ctx& c, const MatchV& ms, const Lanelets& all, const geo::Shape& s, double maxDist, const std::string& ctx, size_t& n) {
    std::map<std::pair<const void*, bool>, double> got;
    double last = -1;
    for (auto& m : ms) {
      c.check(m.distance >= last, "M01:order", ctx, " distance ", m.distance, " after ", last);
      last = m.distance;
      c.check(got.emplace(std::make_pair(key(m.lanelet), m.lanelet.inverted()), m.distance).second, "M01:twice", ctx, " lanelet ", m.lanelet.id());
    }
    n = 0;
    compare(c, got, all, s, maxDist, ctx, n);
  }
  void compare(Ctx& c, const std::map<std::pair<const void*, bool>, double>& got, const Lanelets& all, const geo::Shape& s, double maxDist, const std::string& ctx, size_t& n) {
    size_t seen = 0;
    for (auto& l : all) {
      double d = geo::dist(shapeOf(l), s);
      for (bool inv : {false, true}) {
        auto it = got.find({key(l), inv});
        bool in = it != got.end();
        if (in) {
          ++seen;
          c.check(c.close(it->second, d, 1e-6 + 1e-9 * d), "M01:distance", ctx, " lanelet ", l.id(), " reported ", it->second, " true ", d);
        }
        if (d < maxDist - 1e-6 || (d == 0 && maxDist > 0)) c.check(in, "M01:missing", ctx, " lanelet ", l.id(), inv ? " inverted" : "", " at ", d);
        if (d > maxDist + 1e-6) c.check(!in, "M01:extra", ctx, " lanelet ", l.id(), inv ? " inverted" : "", " at ", d);
      }
      bool f = got.count({key(l), false}), b = got.count({key(l), true});
      c.check(f == b, "M01:both-directions", ctx, " lanelet ", l.id());
      if (f) ++n;
    }
    c.check(seen == got.size(), "M01:foreign", ctx, " matches that are not lanelets of the map");
  }
  template <typename LayerT>
  void close(Ctx& c, const char* nm, const LayerT& layer, const mt::Object2d& o, const geo::Shape& s, double maxDist, const std::string& ctx) {
    double best = geo::Inf;
    std::map<const void*, double> dist;
    for (auto& e : layer) {
      double d = geo::dist(shapeOf(e), s);
      dist[key(e)] = d;
      best = std::min(best, d);
    }
    if (best < maxDist - 1e-6) c.check(mt::isCloseTo(layer, o, maxDist), "M01:isCloseTo", ctx, " ", nm, " closest ", best);
    if (best > maxDist + 1e-6) c.check(!mt::isCloseTo(layer, o, maxDist), "M01:isCloseTo", ctx, " ", nm, " closest ", best);
    if (best > 1e-6) c.check(!mt::isWithin(layer, o), "M01:isWithin", ctx, " ", nm, " closest ", best);
    // clearly inside or clearly overlapping
    bool deep = false;
    for (auto& e : layer) {
      auto se = shapeOf(e);
      for (auto& f : se.fills)
        for (auto& g : s.segs) deep |= f.in(g.first) && f.borderDist(g.first) > 1e-3;
      for (auto& f : s.fills)
        for (auto& g : se.segs) deep |= f.in(g.first) && f.borderDist(g.first) > 1e-3;
    }
    if (deep) c.check(mt::isWithin(layer, o), "M01:isWithin", ctx, " ", nm, " object overlaps");
    for (auto& e : mt::utils::findWithin(layer, o, maxDist)) {
      auto it = dist.find(key(e.second));
      c.check(it != dist.end() && c.close(it->second, e.first, 1e-6 + 1e-9 * e.first), "M01:findWithin", ctx, " ", nm);
    }
  }

  void run(Ctx& c) override {
    Rng& r = c.rng;
    IdSource ids(r);
    LaneletMapPtr map;
    bool net = r.p(.5);
    if (net) {
      NetOpts no;
      no.cols = int(r.i(2, 5));
      no.rows = int(r.i(1, 2));
      no.tags = r.p(.7);
      NetGen g(r, ids, no);
      g.build();
      map = LaneletMapPtr(std::move(g.n.map));
    } else {
      WorldOpts wo;
      wo.strips = int(r.i(0, 8));
      wo.lines = int(r.i(0, 6));
      wo.polys = int(r.i(0, 4));
      wo.areas = int(r.i(0, 4));
      wo.regs = 0;
      wo.attrs = false;
      wo.extent = r.pick({15., 50., 150.});
      WorldGen g(r, ids, wo);
      auto& w = g.all();
      map = std::make_shared<LaneletMap>();
      for (auto& l : w.lanelets) map->add(r.p(.3) ? l.invert() : l);
      for (auto& l : w.areas) map->add(l);
      for (auto& l : w.lines) map->add(l);
      for (auto& l : w.polys) map->add(l);
      for (auto& l : w.pts) map->add(l);
    }
    Lanelets all(map->laneletLayer.begin(), map->laneletLayer.end());
    const LaneletMap& cmap = *map;
    double ex = 5;
    for (auto& l : all)
      for (auto& p : l.leftBound()) ex = std::max({ex, std::fabs(p.x()) + 5, std::fabs(p.y()) + 5});
    static const std::vector<std::string> who{Participants::Vehicle, Participants::Pedestrian, Participants::Bicycle};
    std::vector<traffic_rules::TrafficRulesPtr> rules;
    for (auto& w : who) rules.push_back(traffic_rules::TrafficRulesFactory::create(Locations::Germany, w));

    for (int q = 0; q < 4; ++q) {
      // --- object
      geo::P2 p{r.d(-ex, ex), r.d(-ex, ex)};
      double yaw = r.d(-4, 4);
      if (!all.empty() && r.p(.85)) {
        auto& l = all[r.idx(all.size())];
        auto cl = lineOf(l.centerline());
        if (cl.size() >= 2) {
          size_t i = r.idx(cl.size() - 1);
          p = cl[i] + (cl[i + 1] - cl[i]) * r.u();
          geo::P2 u = cl[i + 1] - cl[i];
          if (r.p(.7)) yaw = std::atan2(u.y, u.x) + r.pick({0., M_PI, M_PI / 2, -M_PI, r.d(-.3, .3), r.d(-M_PI, M_PI)});
          if (r.p(.7)) p = p + geo::P2{r.d(-6, 6), r.d(-6, 6)};
        }
      }
      mt::ObjectWithCovariance2d o;
      o.pose.translation() = b2(p);
      o.pose.linear() = Eigen::Rotation2D<double>(yaw).matrix();
      geo::Shape s;
      int kind = int(r.i(0, 3));
      std::string hullName = "none";
      if (kind == 0 || all.empty()) {
        s.segs.push_back({p, p});
      } else {
        geo::Ring ring;
        double k = r.pick({1., 1., 4., .05, 30.});
        if (kind == 1) {
          double l = r.d(.5, 2.5) * k, w = r.d(.3, 1.2) * k;
          for (auto& e : std::vector<geo::P2>{{-l, -w}, {-l, w}, {l, w}, {l, -w}})
            ring.push_back({p.x + e.x * std::cos(yaw) - e.y * std::sin(yaw), p.y + e.x * std::sin(yaw) + e.y * std::cos(yaw)});
          hullName = "box";
        } else {
          ring = starRing(r, p, .3 * k, 2. * k, int(r.i(3, 8)));
          std::reverse(ring.begin(), ring.end());
          hullName = "star";
          // a hull away from the pose: only the hull counts
          if (r.p(.3)) {
            geo::P2 off{r.d(-10, 10), r.d(-10, 10)};
            for (auto& e : ring) e = e + off;
          }
        }
        geo::Poly po;
        po.outer = ring;
        s.add(po);
        if (r.p(.4)) {
          ring.push_back(ring.front());
          hullName += "-closed";
        }
        for (auto& e : ring) o.absoluteHull.push_back(b2(e));
      }
      double maxDist = r.pick({0., .3, 2., 4., 15., 1000.});
      std::ostringstream os;
      os.precision(17);
      os << "object at (" << p.x << "," << p.y << ") yaw " << yaw << " hull " << hullName << " maxDist " << maxDist;
      std::string ctx = os.str();
      c.event("hull-" + hullName);
      // --- deterministic
      size_t n = 0, n2 = 0;
      auto det = mt::getDeterministicMatches(*map, o, maxDist);
      deterministic(c, det, all, s, maxDist, ctx, n);
      auto cdet = mt::getDeterministicMatches(cmap, o, maxDist);
      deterministic(c, cdet, all, s, maxDist, ctx + " (const)", n2);
      c.check(n == n2, "M01:const", ctx);
      c.event("deterministic-matches", n);
      // --- probabilistic
      int ck = int(r.i(0, 9));
      bool singular = false;
      double sc = std::pow(10., r.d(-2, 4));
      o.vonMisesKappa = r.p(.1) ? 0. : std::pow(10., r.d(-2, 2));
      if (ck == 0) {
        singular = true;
        o.positionCovariance = mt::PositionCovariance2d::Zero();
      } else if (ck == 1) {
        singular = true;
        int k = int(r.i(0, 2));
        double v = double(r.i(1, 8));
        if (k == 0) o.positionCovariance << v, v, v, v;
        if (k == 1) o.positionCovariance << v, 0, 0, 0;
        if (k == 2) o.positionCovariance << 0, 0, 0, v;
      } else {
        double s1 = std::sqrt(sc), s2 = s1 * r.pick({1., 1., .3, 5.}), rho = r.p(.5) ? 0. : r.d(-.9, .9);
        o.positionCovariance << s1 * s1, rho * s1 * s2, rho * s1 * s2, s2 * s2;
      }
      if (n > 0 || !singular) {
        std::vector<mt::LaneletMatchProbabilistic> pm;
        std::vector<mt::ConstLaneletMatchProbabilistic> cpm;
        int thrown = 0;
        try {
          pm = mt::getProbabilisticMatches(*map, o, maxDist);
        } catch (MatchingError&) {
          ++thrown;
        }
        try {
          cpm = mt::getProbabilisticMatches(cmap, o, maxDist);
        } catch (MatchingError&) {
          ++thrown;
        }
        c.check(thrown == (singular ? 2 : 0), "M01:singular", ctx, " covariance ", singular ? "singular" : "regular", " ", o.positionCovariance(0, 0), " ", o.positionCovariance(0, 1), " ",
                o.positionCovariance(1, 1), " thrown ", thrown);
        if (singular) {
          c.event("singular-rejected");
          for (auto& m : det) {
            bool t = false;
            try {
              mt::utils::getMahalanobisDistSq(m.lanelet, o);
            } catch (MatchingError&) {
              t = true;
            }
            c.check(t, "M01:singular", ctx, " getMahalanobisDistSq accepts a singular covariance");
          }
        } else {
          auto chk = [&](auto& v, const char* w) {
            std::map<std::pair<const void*, bool>, double> got;
            double last = 0;
            for (auto& m : v) {
              c.check(m.mahalanobisDistSq >= last, "M01:maha-order", ctx, w, " ", m.mahalanobisDistSq, " after ", last);
              last = m.mahalanobisDistSq;
              c.check(got.emplace(std::make_pair(key(m.lanelet), m.lanelet.inverted()), m.distance).second, "M01:maha-twice", ctx, w);
              ConstLanelet fwd = m.lanelet.inverted() ? ConstLanelet(m.lanelet.invert()) : ConstLanelet(m.lanelet);
              auto cl = lineOf(fwd.centerline());
              if (m.lanelet.inverted()) std::reverse(cl.begin(), cl.end());
              if (cl.size() < 2) continue;
              auto e = maha(cl, p, yaw, o);
              if (e.ambiguous || e.v.empty()) {
                c.event("maha-direction-undefined");
                continue;
              }
              bool ok = false;
              for (double x : e.v) ok |= c.close(x, m.mahalanobisDistSq, 1e-5 + 1e-5 * x);
              c.check(ok, "M01:maha", ctx, w, " lanelet ", m.lanelet.id(), m.lanelet.inverted() ? " inverted" : "", " cov ", o.positionCovariance(0, 0), " ", o.positionCovariance(0, 1), " ",
                      o.positionCovariance(1, 1), " kappa ", o.vonMisesKappa, " reported ", m.mahalanobisDistSq, " expected ", e.v.front());
              c.event("mahalanobis");
            }
            size_t k = 0;
            compare(c, got, all, s, maxDist, ctx + w, k);
            c.check(k == n, "M01:maha-set", ctx, w, " ", k, " lanelets, deterministic ", n);
          };
          chk(pm, " probabilistic");
          chk(cpm, " probabilistic const");
          size_t k = r.idx(3);
          filter(c, pm, *rules[k], rules[k], ctx + " " + who[k]);
          filter(c, cpm, *rules[k], rules[k], ctx + " const " + who[k]);
        }
      }
      for (size_t k = 0; k < 3; ++k) filter(c, det, *rules[k], rules[k], ctx + " " + who[k]);
      close(c, "lanelets", cmap.laneletLayer, o, s, maxDist, ctx);
      close(c, "polygons", cmap.polygonLayer, o, s, maxDist, ctx);
      close(c, "lines", cmap.lineStringLayer, o, s, maxDist, ctx);
      close(c, "points", cmap.pointLayer, o, s, maxDist, ctx);
      if (n) c.sig(Hash()(p.x)(p.y)(uint64_t(n))(maxDist).h);
      if (c.wantSample()) c.sample(ctx + ", " + std::to_string(all.size()) + " lanelets, " + std::to_string(n) + " matched");
    }
  }
  template <typename V>
  void filter(Ctx& c, const V& in, const traffic_rules::TrafficRules& ru, const traffic_rules::TrafficRulesPtr& rp, const std::string& ctx) {
    V out = mt::removeNonRuleCompliantMatches(in, rp);
    size_t k = 0, kept = 0;
    for (auto& m : in) {
      if (!ru.canPass(m.lanelet)) continue;
      ++kept;
      c.check(k < out.size() && out[k].lanelet == m.lanelet && out[k].distance == m.distance, "M01:filter", ctx, " allowed match ", m.lanelet.id(), m.lanelet.inverted() ? " inverted" : "",
              " missing or out of order");
      ++k;
    }
    c.check(out.size() == kept, "M01:filter-extra", ctx, " ", out.size(), " kept, allowed ", kept);
    c.event(kept == in.size() ? "filter-keeps-all" : "filter-removes");
  }
};
VF_HARNESS(M01, "M01");
}  // namespace
