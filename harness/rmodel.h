// Independent model of a routing graph: relations and costs between the passable elements of a map, derived pair by pair
// from the geometry, the traffic rules and the cost modules.
#pragma once
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/RoutingGraphContainer.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "net.h"

namespace rm {
using namespace vf;
using namespace lanelet;
using routing::RelationType;
using routing::RoutingCostId;
using routing::RoutingGraph;
using Elem = ConstLaneletOrArea;

inline std::string name(const ConstLanelet& l) { return std::to_string(l.id()) + (l.inverted() ? "i" : ""); }
inline std::string name(const Elem& e) { return e.isLanelet() ? name(*e.lanelet()) : "a" + std::to_string(e.id()); }
template <typename C>
std::string names(const C& c) {
  std::string s = "[";
  for (auto& x : c) s += (s.size() > 1 ? " " : "") + name(x);
  return s + "]";
}
inline uint64_t code(const Elem& e) { return uint64_t(e.id()) * 4 + (e.isLanelet() ? (e.lanelet()->inverted() ? 1 : 0) : 2); }

// Rules on top of real ones: some steps and lane changes are forbidden in addition
class StrictRules : public traffic_rules::TrafficRules {
 public:
  StrictRules(traffic_rules::TrafficRulesUPtr base, uint64_t salt, double pDeny)
      : TrafficRules(base->configuration()), b_{std::move(base)}, salt_{salt}, p_{pDeny} {}
  bool canPass(const ConstLanelet& l) const override { return b_->canPass(l); }
  bool canPass(const ConstArea& a) const override { return b_->canPass(a); }
  bool canPass(const ConstLanelet& f, const ConstLanelet& t) const override { return b_->canPass(f, t) && ok(f, t, 1); }
  bool canPass(const ConstLanelet& f, const ConstArea& t) const override { return b_->canPass(f, t) && ok(f, t, 2); }
  bool canPass(const ConstArea& f, const ConstLanelet& t) const override { return b_->canPass(f, t) && ok(f, t, 3); }
  bool canPass(const ConstArea& f, const ConstArea& t) const override { return b_->canPass(f, t) && ok(f, t, 4); }
  bool canChangeLane(const ConstLanelet& f, const ConstLanelet& t) const override { return b_->canChangeLane(f, t) && ok(f, t, 5); }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstLanelet& l) const override { return b_->speedLimit(l); }
  traffic_rules::SpeedLimitInformation speedLimit(const ConstArea& a) const override { return b_->speedLimit(a); }
  bool isOneWay(const ConstLanelet& l) const override { return b_->isOneWay(l); }
  bool hasDynamicRules(const ConstLanelet& l) const override { return b_->hasDynamicRules(l); }

 private:
  bool ok(const Elem& f, const Elem& t, uint64_t k) const {
    return double(mix(mix(code(f), code(t)), salt_ + k) >> 11) / 9007199254740992.0 >= p_;
  }
  traffic_rules::TrafficRulesUPtr b_;
  uint64_t salt_;
  double p_;
};

// Costs drawn per step: zero, equal, generic and forbidden ones
class DrawnCost : public routing::RoutingCost {
 public:
  DrawnCost(uint64_t salt, int mode, double pInf) : salt_{salt}, mode_{mode}, pInf_{pInf} {}
  double draw(const Elem& f, const Elem& t, uint64_t k) const {
    Rng r(mix(mix(code(f), code(t)), salt_ + k));
    if (r.p(pInf_)) return std::numeric_limits<double>::infinity();
    switch (mode_) {
      case 0:
        return r.d(.1, 20);  // generic
      case 1:
        return double(r.i(0, 3));  // many ties and zeros
      case 2:
        return 1;
      default:
        return r.p(.3) ? r.d(1e4, 1e6) : r.d(1e-6, 1);
    }
  }
  double getCostSucceeding(const traffic_rules::TrafficRules&, const Elem& f, const Elem& t) const override { return draw(f, t, 7); }
  double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& f, const ConstLanelets& t) const override {
    return draw(f.front(), t.front(), 9);
  }
  bool generic() const { return mode_ == 0 || mode_ == 3; }

 private:
  uint64_t salt_;
  int mode_;
  double pInf_;
};

struct Edge {
  size_t to;
  double cost;
  RelationType rel;
};

struct CostSpec {
  routing::RoutingCostPtr mod;
  int kind{0};          // 0 distance, 1 time, 2 drawn
  double change{0}, minLen{0};
  std::shared_ptr<DrawnCost> drawn;
};

struct RWorld {
  Rng& r;
  gen::IdSource ids;
  gen::Net net;
  LaneletSubmapPtr submap;  // set if the graph was built from a part of the map
  std::string who;
  traffic_rules::TrafficRulesUPtr rules;
  std::vector<CostSpec> costs;
  Optional<double> height;
  std::shared_ptr<RoutingGraph> graph;
  // model
  std::vector<Elem> v;
  std::map<uint64_t, size_t> index;
  std::vector<std::vector<RelationType>> rel;      // expected relation of each ordered pair (before looking at costs)
  std::vector<std::vector<char>> unsure;           // pairs where several relations hold at once
  std::vector<std::vector<std::vector<Edge>>> adj;  // [cost][v] -> edges that may be taken

  explicit RWorld(Rng& rng) : r(rng), ids(rng) {}
  bool has(const Elem& e) const { return index.count(code(e)) != 0; }
  size_t at(const Elem& e) const { return index.at(code(e)); }
  static double laneletLength(const ConstLanelet& l) { return geometry::approximatedLength2d(l); }
  static double areaLength(const ConstArea& a) {
    auto p = a.outerBoundPolygon();
    double s = 0;
    for (size_t k = 0; k < p.size(); ++k) {
      auto &x = p[k], &y = p[(k + 1) % p.size()];
      s += std::hypot(x.x() - y.x(), x.y() - y.y());
    }
    return s;
  }
  double elemCost(const CostSpec& c, const Elem& e) const {
    double len = e.isLanelet() ? laneletLength(*e.lanelet()) : areaLength(*e.area());
    if (c.kind == 0) return len;
    auto lim = e.isLanelet() ? rules->speedLimit(*e.lanelet()) : rules->speedLimit(*e.area());
    double ms = lim.speedLimit.value();
    if (ms == 0) return std::numeric_limits<double>::infinity();  // never gets anywhere
    return len / ms;
  }
  double stepCost(const CostSpec& c, const Elem& f, const Elem& t) const {
    if (c.kind == 2) return c.drawn->draw(f, t, 7);
    return (elemCost(c, f) + elemCost(c, t)) / 2;
  }

  struct Opt {
    gen::NetOpts net;
    bool ties{true};      // allow costs where several cheapest paths exist
    double pStrict{.35};
    bool minChange{true};
    double pSub{.1};
    double pInf{.06};
    std::vector<std::string> whos{"vehicle", "vehicle:car", "vehicle", "vehicle:bus", "pedestrian", "pedestrian", "bicycle"};
  };
  void build(const Opt& o) {
    gen::NetGen g(r, ids, o.net);
    g.build();
    net = std::move(g.n);
    who = o.whos[r.idx(o.whos.size())];
    rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, who);
    if (r.p(o.pStrict)) rules.reset(new StrictRules(std::move(rules), r.next(), r.pick({.05, .2, .5})));
    int nc = int(r.i(1, 3));
    for (int k = 0; k < nc; ++k) {
      CostSpec c;
      c.kind = int(r.i(0, 2));
      if (c.kind == 2) {
        c.drawn = std::make_shared<DrawnCost>(r.next(), o.ties ? int(r.i(0, 3)) : r.p(.7) ? 0 : 3, r.p(.5) ? 0. : o.pInf);
        c.mod = c.drawn;
      } else {
        c.change = o.ties && r.p(.3) ? 0. : r.d(.5, 25);
        c.minLen = o.minChange && r.p(.4) ? (c.kind == 0 ? r.d(5, 90) : r.d(.5, 12)) : 0.;
        if (c.kind == 0)
          c.mod = std::make_shared<routing::RoutingCostDistance>(c.change, c.minLen);
        else
          c.mod = std::make_shared<routing::RoutingCostTravelTime>(c.change, c.minLen);
      }
      costs.push_back(c);
    }
    RoutingGraph::Configuration cfg;
    if (r.p(.4)) {
      height = r.pick({1.5, 2., 4., 8.});
      cfg[RoutingGraph::ParticipantHeight] = Attribute(*height);
    }
    routing::RoutingCostPtrs mods;
    for (auto& c : costs) mods.push_back(c.mod);
    if (r.p(o.pSub)) {
      Lanelets ll;
      Areas ar;
      for (auto& l : net.lanelets)
        if (r.p(.8)) ll.push_back(l);
      for (auto& a : net.areas)
        if (r.p(.8)) ar.push_back(a);
      submap = utils::createSubmap(ll, ar);
      graph = RoutingGraph::build(*submap, *rules, mods, cfg);
    } else {
      graph = RoutingGraph::build(*net.map, *rules, mods, cfg);
    }
    model();
  }
  template <typename F>
  void eachLanelet(F f) const {
    if (submap)
      for (auto l : submap->laneletLayer) f(ConstLanelet(l));
    else
      for (auto l : net.map->laneletLayer) f(ConstLanelet(l));
  }
  template <typename F>
  void eachArea(F f) const {
    if (submap)
      for (auto l : submap->areaLayer) f(ConstArea(l));
    else
      for (auto l : net.map->areaLayer) f(ConstArea(l));
  }
  static bool sameLine(const ConstLineString3d& a, const ConstLineString3d& b) {
    return a.constData() == b.constData() && a.inverted() == b.inverted();
  }
  static bool samePoint(const ConstPoint3d& a, const ConstPoint3d& b) { return a.constData() == b.constData(); }
  static bool continues(const ConstLanelet& a, const ConstLanelet& b) {
    return samePoint(a.leftBound().back(), b.leftBound().front()) && samePoint(a.rightBound().back(), b.rightBound().front());
  }
  // +1 overlap, 0 none, -1 depends on how it is asked
  struct Box {
    double lo[2]{1e300, 1e300}, hi[2]{-1e300, -1e300};
  };
  static Box boxOf(const Elem& e) {
    Box b;
    auto add = [&](const auto& poly) {
      for (auto p : poly) {
        b.lo[0] = std::min(b.lo[0], p.x());
        b.lo[1] = std::min(b.lo[1], p.y());
        b.hi[0] = std::max(b.hi[0], p.x());
        b.hi[1] = std::max(b.hi[1], p.y());
      }
    };
    if (e.isLanelet())
      add(e.lanelet()->polygon3d());
    else
      add(e.area()->outerBoundPolygon());
    return b;
  }
  std::vector<Box> boxes;
  int overlapAt(size_t i, size_t j) const {
    auto &p = boxes[i], &q = boxes[j];
    for (int k : {0, 1})
      if (p.hi[k] < q.lo[k] || q.hi[k] < p.lo[k]) return 0;
    return overlap(v[i], v[j]);
  }
  int overlap(const Elem& a, const Elem& b) const {
    auto q = [&](const Elem& x, const Elem& y) {
      if (x.isLanelet() && y.isLanelet()) return height ? geometry::overlaps3d(*x.lanelet(), *y.lanelet(), *height) : geometry::overlaps2d(*x.lanelet(), *y.lanelet());
      if (x.isArea() && y.isLanelet()) return height ? geometry::overlaps3d(*x.area(), *y.lanelet(), *height) : geometry::overlaps2d(*x.area(), *y.lanelet());
      return height ? geometry::overlaps3d(*x.area(), *y.area(), *height) : geometry::overlaps2d(*x.area(), *y.area());
    };
    bool r1, r2;
    if (a.isArea() == b.isArea()) {
      r1 = q(a, b);
      r2 = q(b, a);
    } else {
      r1 = r2 = a.isArea() ? q(a, b) : q(b, a);
    }
    return r1 == r2 ? r1 : -1;
  }
  void model() {
    auto add = [&](const Elem& e) {
      index[code(e)] = v.size();
      v.push_back(e);
    };
    eachLanelet([&](const ConstLanelet& l) {
      if (rules->canPass(l)) {
        add(l);
        if (rules->canPass(l.invert())) add(l.invert());
      }
    });
    eachArea([&](const ConstArea& a) {
      if (rules->canPass(a)) add(a);
    });
    size_t n = v.size();
    for (auto& e : v) boxes.push_back(boxOf(e));
    rel.assign(n, std::vector<RelationType>(n, RelationType::None));
    unsure.assign(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        if (i == j) continue;
        auto &a = v[i], &b = v[j];
        auto& x = rel[i][j];
        int o = overlapAt(i, j);
        if (a.isLanelet() && b.isLanelet()) {
          auto p = *a.lanelet(), q = *b.lanelet();
          bool twin = p == q.invert();
          bool fol = continues(p, q) && rules->canPass(p, q);
          bool lft = sameLine(q.rightBound(), p.leftBound()), rgt = sameLine(q.leftBound(), p.rightBound());
          int holds = int(fol) + int(lft) + int(rgt) + int(o == 1 || twin);
          if (holds > 1 || o == -1) unsure[i][j] = 1;
          if (fol)
            x = RelationType::Successor;
          else if (lft)
            x = rules->canChangeLane(p, q) ? RelationType::Left : RelationType::AdjacentLeft;
          else if (rgt)
            x = rules->canChangeLane(p, q) ? RelationType::Right : RelationType::AdjacentRight;
          else if (twin || o == 1)
            x = RelationType::Conflicting;
        } else {
          bool pass, back;
          if (a.isLanelet()) {
            pass = rules->canPass(*a.lanelet(), *b.area());
            back = rules->canPass(*b.area(), *a.lanelet());
          } else if (b.isLanelet()) {
            pass = rules->canPass(*a.area(), *b.lanelet());
            back = rules->canPass(*b.lanelet(), *a.area());
          } else {
            pass = rules->canPass(*a.area(), *b.area());
            back = rules->canPass(*b.area(), *a.area());
          }
          if (o == 1 && a.isLanelet() != b.isLanelet()) {  // a step in the other direction of the lanelet
            auto t = (a.isLanelet() ? a.lanelet() : b.lanelet())->invert();
            auto ar = *(a.isLanelet() ? b.area() : a.area());
            back = back || rules->canPass(t, ar) || rules->canPass(ar, t);
          }
          if (pass)
            x = RelationType::Area;
          else if (o == 1)
            x = RelationType::Conflicting;
          if (o == -1 || ((pass || back) && o == 1)) unsure[i][j] = 1;
        }
      }
    // an uncertain pair is uncertain in both directions
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (unsure[j][i]) unsure[i][j] = 1;
    // the neighbour to one side is meant to be unique
    for (size_t i = 0; i < n; ++i)
      for (auto t : {RelationType::Left, RelationType::Right}) {
        std::vector<size_t> s;
        for (size_t j = 0; j < n; ++j)
          if (rel[i][j] == t) s.push_back(j);
        if (s.size() > 1)
          for (size_t j : s) unsure[i][j] = 2;
      }
    costing();
  }
  bool change(size_t i, size_t j) const { return rel[i][j] == RelationType::Left || rel[i][j] == RelationType::Right; }
  // length available for a lane change from i to j: as long as both lanes go on without alternatives
  double available(const CostSpec& c, size_t i, size_t j) const {
    double s = 0;
    std::set<size_t> seen;
    auto side = rel[i][j];
    while (true) {
      if (!seen.insert(i).second) break;
      s += elemCost(c, v[i]);
      std::vector<size_t> ni, nj;
      for (size_t k = 0; k < v.size(); ++k) {
        if (rel[i][k] == RelationType::Successor && std::isfinite(stepCost(costs[0], v[i], v[k]))) ni.push_back(k);
        if (rel[j][k] == RelationType::Successor && std::isfinite(stepCost(costs[0], v[j], v[k]))) nj.push_back(k);
      }
      if (ni.size() != 1 || nj.size() != 1 || rel[ni[0]][nj[0]] != side) break;
      i = ni[0];
      j = nj[0];
    }
    return s;
  }
  double changeCost(size_t ci, size_t i, size_t j) const {
    auto& c = costs[ci];
    if (c.kind == 2) return c.drawn->draw(v[i], v[j], 9);
    if (c.minLen > 0) {
      double a = available(c, i, j);
      if (std::fabs(a - c.minLen) < 1e-9) return std::numeric_limits<double>::quiet_NaN();
      if (a < c.minLen) return std::numeric_limits<double>::infinity();
    }
    return c.change;
  }
  // relation for one cost module, with its cost
  RelationType relFor(size_t ci, size_t i, size_t j, double& cost) const {
    auto x = rel[i][j];
    cost = 1;
    if (x == RelationType::Successor || x == RelationType::Area) {
      cost = stepCost(costs[ci], v[i], v[j]);
      if (!std::isfinite(cost)) return RelationType::None;
    }
    if (change(i, j)) {
      cost = changeCost(ci, i, j);
      if (!std::isfinite(cost)) {
        cost = 1;
        return x == RelationType::Left ? RelationType::AdjacentLeft : RelationType::AdjacentRight;
      }
    }
    return x;
  }
  void costing() {
    adj.assign(costs.size(), std::vector<std::vector<Edge>>(v.size()));
    for (size_t c = 0; c < costs.size(); ++c)
      for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v.size(); ++j) {
          double w;
          auto x = relFor(c, i, j, w);
          if (x == RelationType::Successor || x == RelationType::Area || x == RelationType::Left || x == RelationType::Right) adj[c][i].push_back({j, w, x});
        }
  }
  bool anyUnsure() const {
    for (auto& x : unsure)
      for (char y : x)
        if (y) return true;
    return false;
  }
  static bool allowed(RelationType x, bool changes, bool areas) {
    if (x == RelationType::Successor) return true;
    if (x == RelationType::Area) return areas;
    return changes;
  }
};
}  // namespace rm
