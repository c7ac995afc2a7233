// C09: const queries from many threads on one world. C02 (threads): ids issued concurrently.
#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Point.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <lanelet2_core/utility/Units.h>
#include <lanelet2_matching/LaneletMatching.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/RoutingCost.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_routing/RoutingGraphContainer.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "net.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;

namespace {
struct Gate {  // all threads start at once
  std::atomic<int> n{0};
  int need;
  explicit Gate(int k) : need(k) {}
  void wait() {
    n.fetch_add(1);
    while (n.load() < need) std::this_thread::yield();
  }
};

struct World {
  gen::Net net;
  LaneletMapConstPtr map;
  LaneletSubmapConstPtr sub;
  std::vector<traffic_rules::TrafficRulesPtr> rules;
  std::vector<routing::RoutingGraphConstPtr> graphs;
  ConstLanelets lls;
  ConstAreas ars;
  ConstLineStrings3d lss;
  ConstPoints3d pts;
  std::vector<RegulatoryElementConstPtr> regs;
  std::unique_ptr<routing::RoutingGraphContainer> cont;
};

// Two worlds made from the same seed and base id are identical
std::unique_ptr<World> makeWorld(uint64_t seed, Id base, bool routingToo) {
  auto w = std::make_unique<World>();
  Rng r(seed);
  gen::IdSource ids(r);
  ids.base = base;
  gen::NetOpts o;
  o.cols = int(r.i(3, 6));
  o.rows = int(r.i(1, 2));
  o.maxLanes = int(r.i(1, 3));
  gen::NetGen g(r, ids, o);
  g.build();
  w->net = std::move(g.n);
  w->map = LaneletMapConstPtr(std::move(w->net.map));
  for (const char* p : {Participants::Vehicle, Participants::Pedestrian, Participants::Bicycle})
    w->rules.push_back(traffic_rules::TrafficRulesFactory::create(Locations::Germany, p));
  w->sub = utils::createConstSubmap(utils::transform(w->net.lanelets, [](auto& l) { return ConstLanelet(l); }),
                                    utils::transform(w->net.areas, [](auto& l) { return ConstArea(l); }));
  if (routingToo) {
    std::vector<routing::RoutingGraphConstPtr> gs;
    for (auto& ru : w->rules) gs.push_back(routing::RoutingGraph::build(*w->map, *ru));
    w->graphs = gs;
    w->cont = std::make_unique<routing::RoutingGraphContainer>(gs);
  }
  // forget what building has cached
  auto fresh = [](AttributeMap& a) {
    for (auto& kv : a) {
      std::string s = kv.second.value();
      kv.second = Attribute(s);
    }
  };
  std::sort(w->net.lanelets.begin(), w->net.lanelets.end(), [](auto& a, auto& b) { return a.id() < b.id(); });
  for (auto& l : w->net.lanelets) {
    if (r.p(.3)) l.setAttribute("num", r.pick<const char*>({"3", "4.5", "x", "true", "no", "20 km/h", "7 mph"}));
    fresh(l.attributes());
    fresh(l.leftBound().attributes());
    fresh(l.rightBound().attributes());
    l.resetCache();
    w->lls.push_back(r.p(.3) ? ConstLanelet(l).invert() : ConstLanelet(l));
  }
  for (auto& a : w->net.areas) {
    fresh(a.attributes());
    w->ars.push_back(a);
  }
  for (auto& l : w->map->lineStringLayer) w->lss.push_back(l);
  std::sort(w->lss.begin(), w->lss.end(), [](auto& a, auto& b) { return a.id() < b.id(); });
  for (auto& p : w->map->pointLayer) w->pts.push_back(p);
  std::sort(w->pts.begin(), w->pts.end(), [](auto& a, auto& b) { return a.id() < b.id(); });
  for (auto& p : w->map->regulatoryElementLayer) w->regs.push_back(p);
  std::sort(w->regs.begin(), w->regs.end(), [](auto& a, auto& b) { return a->id() < b->id(); });
  return w;
}

struct Out {
  std::ostringstream s;
  Out() { s.precision(17); }
  template <typename T>
  Out& operator()(const T& t) {
    s << t << ' ';
    return *this;
  }
  template <typename C>
  Out& ids(const C& c) {  // unordered
    std::multiset<Id> m;
    for (auto& e : c) m.insert(utils::getId(e));
    for (auto i : m) s << i << ',';
    s << ' ';
    return *this;
  }
  template <typename C>
  Out& seq(const C& c) {
    for (auto& e : c) s << e.id() << (0 ? "" : ",");
    s << ' ';
    return *this;
  }
  Out& pt(const BasicPoint2d& p) { return (*this)(p.x())(p.y()); }
};

const std::vector<const char*> Names{"attributes", "centerline", "lanelet geometry", "spatial search", "usages",
                                     "traffic rules", "routing relations", "shortest path", "route", "reachability",
                                     "line geometry", "areas", "regulatory elements", "matching", "lookup",
                                     "graph container", "graph build", "attribute copies"};
const size_t NumKinds = Names.size();

std::string query(const World& w, size_t kind, uint64_t qs) {
  Rng r(qs);
  Out o;
  auto& l = w.lls[r.idx(w.lls.size())];
  auto& m = w.lls[r.idx(w.lls.size())];
  auto& ls = w.lss[r.idx(w.lss.size())];
  BasicPoint2d p = w.pts[r.idx(w.pts.size())].basicPoint2d() + BasicPoint2d(r.d(-6, 6), r.d(-6, 6));
  BoundingBox2d bb(p - BasicPoint2d(r.d(0, 20), r.d(0, 20)), p + BasicPoint2d(r.d(0, 20), r.d(0, 20)));
  size_t gi = w.graphs.empty() ? 0 : r.idx(w.graphs.size());
  auto readAttr = [&](const ConstLanelet& x) {
    for (auto& kv : x.attributes()) {
      o(kv.first)(kv.second.value());
      switch (r.i(0, 4)) {
        case 0: o(!!kv.second.asBool() ? int(*kv.second.asBool()) : -1); break;
        case 1: o(kv.second.asDouble().value_or(-1.)); break;
        case 2: o(kv.second.asInt().value_or(-1)); break;
        case 3: o(kv.second.asId().value_or(-1)); break;
        default: {
          auto v = kv.second.asVelocity();
          o(!!v ? v->value() : -1.);
        }
      }
    }
  };
  try {
    switch (kind) {
      case 0: {
        readAttr(l);
        o(l.attributeOr("one_way", true))(l.attributeOr("num", 3.))(l.attributeOr("num", 1))(l.attributeOr(AttributeName::Subtype, std::string("-")));
        o(l.hasAttribute("speed_limit"));
        if (l.hasAttribute("speed_limit")) o(l.attribute("speed_limit").asVelocity().value_or(Velocity()).value());
        o(ls.attributeOr("lane_change", false))(ls.attributeOr(AttributeName::Type, std::string()));
        break;
      }
      case 1: {
        auto c = l.centerline();
        o(c.size());
        for (auto q : c) o(q.x())(q.y())(q.z());
        auto c2 = l.invert().centerline2d();
        o(c2.size());
        if (!c2.empty()) o.pt(c2.front().basicPoint2d()).pt(c2[c2.size() / 2].basicPoint2d());
        o(l.hasCustomCenterline());
        break;
      }
      case 2: {
        o(geometry::inside(l, p))(geometry::length2d(l))(geometry::length3d(l))(geometry::approximatedLength2d(l));
        o(geometry::distance2d(l, p))(geometry::distanceToCenterline2d(l, p))(geometry::overlaps2d(l, m))(geometry::overlaps3d(l, m, 3.));
        o(geometry::leftOf(l, m))(geometry::follows(l, m))(geometry::intersects2d(l, m));
        auto b = geometry::boundingBox2d(l);
        o.pt(b.min()).pt(b.max());
        o(geometry::area(l.polygon2d()));
        break;
      }
      case 3: {
        o.ids(w.map->laneletLayer.search(bb)).ids(w.map->pointLayer.search(bb)).ids(w.map->lineStringLayer.search(bb));
        o.ids(w.map->areaLayer.search(bb));
        for (auto& e : geometry::findNearest(w.map->laneletLayer, p, unsigned(r.i(1, 6)))) o(e.first);
        for (auto& e : geometry::findWithin2d(w.map->laneletLayer, p, r.d(0, 15))) o(e.first);
        o(w.map->laneletLayer.nearest(p, 3).size());
        o.ids(w.sub->laneletLayer.search(bb));
        break;
      }
      case 4: {
        o.ids(w.map->laneletLayer.findUsages(ls)).ids(w.map->laneletLayer.findUsages(ls.invert())).ids(w.map->areaLayer.findUsages(ls));
        o.ids(w.map->lineStringLayer.findUsages(w.pts[r.idx(w.pts.size())]));
        if (!w.regs.empty()) o.ids(w.map->laneletLayer.findUsages(w.regs[r.idx(w.regs.size())]));
        o.ids(utils::findUsagesInLanelets(*w.map, w.pts[r.idx(w.pts.size())]));
        break;
      }
      case 5: {
        auto& ru = *w.rules[r.idx(w.rules.size())];
        o(ru.canPass(l))(ru.canPass(l.invert()))(ru.canPass(l, m))(ru.canChangeLane(l, m))(ru.isOneWay(l))(ru.hasDynamicRules(l));
        o(ru.speedLimit(l).speedLimit.value())(ru.speedLimit(l).isMandatory);
        for (auto& a : w.ars) o(ru.canPass(a))(ru.canPass(a, l))(ru.canPass(l, a))(ru.speedLimit(a).speedLimit.value());
        auto t = traffic_rules::TrafficRulesFactory::create(Locations::Germany, Participants::VehicleCar);
        o(t->canPass(l))(t->speedLimit(l).speedLimit.value());
        break;
      }
      case 6: {
        if (w.graphs.empty()) break;
        auto& g = *w.graphs[gi];
        o.ids(g.following(l)).ids(g.previous(l, true)).ids(g.besides(l)).ids(g.conflicting(l)).ids(g.lefts(l)).ids(g.adjacentRights(l));
        o(!!g.left(l))(!!g.adjacentRight(l));
        auto rel = g.routingRelation(l, m, true);
        o(!!rel ? int(*rel) : -1);
        for (auto& x : g.followingRelations(l, true)) o(int(x.relationType));
        if (r.p(.1)) o(g.checkValidity(false).size());
        o(g.passableSubmap()->laneletLayer.size());
        break;
      }
      case 7: {
        if (w.graphs.empty()) break;
        auto& g = *w.graphs[gi];
        auto sp = g.shortestPath(l, m, uint16_t(r.i(0, 1)), r.p(.7));
        o(!!sp);
        if (!!sp) o.seq(*sp);
        auto sa = g.shortestPathIncludingAreas(l, m, 0);
        if (!!sa) o.seq(*sa);
        auto sv = g.shortestPathVia(l, {w.lls[r.idx(w.lls.size())]}, m);
        if (!!sv) o.seq(*sv);
        break;
      }
      case 8: {
        if (w.graphs.empty()) break;
        auto& g = *w.graphs[gi];
        auto rt = g.getRoute(l, m, uint16_t(r.i(0, 1)));
        o(!!rt);
        if (!!rt) {
          o(rt->size())(rt->numLanes())(rt->length2d()).seq(rt->shortestPath());
          o.ids(rt->laneletSubmap()->laneletLayer).ids(rt->conflictingInRoute(l)).ids(rt->allConflictingInMap());
          o.seq(rt->remainingLane(l))(rt->checkValidity().size());
        }
        break;
      }
      case 9: {
        if (w.graphs.empty()) break;
        auto& g = *w.graphs[gi];
        o.ids(g.reachableSet(l, r.d(0, 150))).ids(g.reachableSetTowards(l, r.d(0, 150))).ids(g.reachableSetIncludingAreas(l, 80.));
        o(g.possiblePaths(l, r.d(10, 90), 0, true).size())(g.possiblePathsTowards(l, 40., 0, false).size());
        double sum = 0;
        g.forEachSuccessor(l, [&](auto& i) {
          sum += i.cost;
          return i.cost < 100;
        });
        o(sum);
        break;
      }
      case 10: {
        auto l2 = utils::to2D(ls);
        auto ac = geometry::toArcCoordinates(l2, p);
        o(ac.length)(ac.distance)(geometry::length(l2))(geometry::distance2d(ls, p));
        o.pt(geometry::project(l2, p)).pt(geometry::interpolatedPointAtDistance(l2, r.d(-20, 30)));
        o(geometry::nearestPointAtDistance(l2, r.d(-9, 30)).id());
        o(ls.inverted())(ls.invert().front().id());
        auto hy = utils::toHybrid(l2);
        o(hy.size());
        break;
      }
      case 11: {
        for (auto& a : w.ars) {
          o(geometry::inside(a, p))(a.outerBoundPolygon().size())(geometry::distance2d(a, p))(geometry::overlaps2d(a, l));
          for (auto& b : w.ars) o(geometry::adjacent(a, b));
          auto bx = geometry::boundingBox2d(a);
          o.pt(bx.min()).pt(bx.max());
        }
        break;
      }
      case 12: {
        o(l.regulatoryElements().size())(l.regulatoryElementsAs<SpeedLimit>().size());
        for (auto& re : l.regulatoryElementsAs<RightOfWay>()) {
          o(int(re->getManeuver(l))).ids(re->rightOfWayLanelets()).ids(re->yieldLanelets());
        }
        for (auto& re : l.regulatoryElementsAs<SpeedLimit>()) o(re->type());
        for (auto& re : w.regs) {
          o(re->id())(re->size())(re->roles().size())(re->find<ConstLanelet>(l.id()) ? 1 : 0);
          auto b = geometry::boundingBox2d(re);
          o.pt(b.min());
        }
        break;
      }
      case 13: {
        matching::ObjectWithCovariance2d ob;
        ob.pose.translation() = p;
        ob.pose.linear() = Eigen::Rotation2D<double>(r.d(-3, 3)).matrix();
        ob.positionCovariance = matching::PositionCovariance2d::Identity() * 2.;
        ob.vonMisesKappa = 1;
        ob.absoluteHull = matching::Hull2d{p, p + BasicPoint2d(1, 0), p + BasicPoint2d(0, 1)};
        auto dm = matching::getDeterministicMatches(*w.map, ob, 4.);
        for (auto& x : dm) o(x.distance);
        auto pm = matching::getProbabilisticMatches(*w.map, ob, 4.);
        for (auto& x : pm) o(x.mahalanobisDistSq);
        o(matching::removeNonRuleCompliantMatches(pm, w.rules[0]).size());
        break;
      }
      case 14: {
        o(w.map->laneletLayer.exists(l.id()))(w.map->laneletLayer.get(m.id()).id())(w.map->pointLayer.exists(l.id()));
        o(w.map->laneletLayer.find(l.id()) != w.map->laneletLayer.end())(w.map->lineStringLayer.size());
        size_t n = 0;
        for (auto& x : w.map->laneletLayer) n += x.regulatoryElements().size();
        o(n);
        break;
      }
      case 15: {
        if (!w.cont) break;
        for (auto& x : w.cont->conflictingInGraphs(l, r.p(.5) ? 0. : 2.)) o(x.first).ids(x.second);
        break;
      }
      case 16: {
        if (w.graphs.empty() || !r.p(.3)) break;
        auto g = routing::RoutingGraph::build(*w.map, *w.rules[r.idx(w.rules.size())]);
        o.ids(g->following(l)).ids(g->passableSubmap()->laneletLayer);
        break;
      }
      case 17: {
        AttributeMap a = l.attributes();
        o(a.size());
        if (a.find("speed_limit") != a.end()) o(a["speed_limit"].asDouble().value_or(-2));
        AttributeMap b;
        b = ls.attributes();
        o(b == ls.attributes());
        for (auto& kv : b) o(kv.second.asBool().value_or(false));
        break;
      }
    }
  } catch (LaneletError& e) {
    o("EX")(e.what());
  }
  return o.s.str();
}

struct C09 : Harness {
  uint64_t numCases(bool th) override { return th ? 6000 : 400; }
  std::string rule() override {
    return "a case is one world queried by several threads at once; distinct states are the observed global orders in which the "
           "threads finished their queries (hash of the interleaving of (thread, query kind))";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    if (c.caseIdx % 100 == 37) return movedPoint(c);
    uint64_t ws = r.next();
    Id base = 100000000 + Id(c.caseIdx % 4096) * 100000;
    bool routingToo = r.p(.85);
    auto A = makeWorld(ws, base, routingToo), B = makeWorld(ws, base, routingToo);
    struct Q {
      size_t kind;
      uint64_t seed;
      std::string want;
    };
    std::vector<Q> qs;
    size_t focus = r.p(.5) ? r.idx(NumKinds) : NumKinds;
    int nq = int(r.i(20, c.thorough ? 120 : 60));
    for (int k = 0; k < nq; ++k) {
      size_t kind = focus < NumKinds && r.p(.5) ? focus : r.idx(NumKinds);
      qs.push_back({kind, r.next(), ""});
    }
    for (auto& q : qs) q.want = query(*B, q.kind, q.seed);
    int nt = int(r.i(2, 6));
    struct Rec {
      std::vector<std::pair<size_t, std::string>> res;
    };
    std::vector<Rec> recs(static_cast<size_t>(nt));
    // the finishing order is recorded with a relaxed counter per thread so that the monitor adds no happens-before
    // relations that would hide races
    Gate gate(nt);
    std::atomic<uint32_t> ticket{0};
    std::vector<std::vector<uint32_t>> when(static_cast<size_t>(nt));
    std::vector<std::thread> ts;
    bool sameOrder = r.p(.4);
    uint64_t os = r.next();
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        Rng tr(sameOrder ? os : os + uint64_t(t) * 7919);
        std::vector<size_t> order(qs.size());
        for (size_t k = 0; k < order.size(); ++k) order[k] = k;
        tr.shuffle(order);
        auto& rec = recs[size_t(t)];
        rec.res.reserve(order.size());
        gate.wait();
        for (size_t k : order) {
          rec.res.emplace_back(k, query(*A, qs[k].kind, qs[k].seed));
          when[size_t(t)].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
        }
      });
    for (auto& t : ts) t.join();
    std::vector<std::pair<uint32_t, size_t>> hist;
    for (size_t t = 0; t < recs.size(); ++t)
      for (size_t k = 0; k < recs[t].res.size(); ++k) {
        auto& q = qs[recs[t].res[k].first];
        c.event(std::string("queries: ") + Names[q.kind]);
        if (recs[t].res[k].second.compare(0, 3, "EX ") == 0) c.event("queries answered by an exception");
        hist.push_back({when[t][k], t * 32 + q.kind});
        c.check(recs[t].res[k].second == q.want, "C09:result-differs", "query ", Names[q.kind], " in thread ", t, " of ", nt,
                " gave\n", recs[t].res[k].second, "\nsingle threaded:\n", q.want);
      }
    std::sort(hist.begin(), hist.end());
    Hash h;
    size_t sw = 0;
    for (size_t k = 0; k < hist.size(); ++k) {
      h(uint64_t(hist[k].second));
      sw += k && hist[k].second / 32 != hist[k - 1].second / 32;
    }
    c.sig(h.h);
    c.event("switches between threads observed", sw);
    // and the world has not changed
    for (auto& q : qs) c.check(query(*A, q.kind, q.seed) == q.want, "C09:result-differs-afterwards", "query ", Names[q.kind]);
    c.event("worlds");
    if (c.wantSample()) c.sample(std::to_string(nt) + " threads x " + std::to_string(nq) + " queries on " + std::to_string(A->lls.size()) + " lanelets; " + Names[qs[0].kind] + " -> " + qs[0].want.substr(0, 200));
  }
  // points whose coordinates were changed before the readers start
  void movedPoint(Ctx& c) {
    auto& r = c.rng;
    Points3d ps;
    for (int k = 0; k < 6; ++k) ps.push_back(Point3d(700000 + k, k, r.d(-1, 1), 0));
    LineString3d ls(700100, ps);
    for (auto& p : ps) p.y() = r.d(2, 3);
    ConstLineString3d cl = ls;
    double want = 0;
    for (int k = 1; k < 6; ++k) want += std::hypot(1., ps[size_t(k)].y() - ps[size_t(k) - 1].y());
    double got[3] = {};
    Gate gate(3);
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t)
      ts.emplace_back([&, t] {
        gate.wait();
        auto c2 = utils::to2D(cl);
        for (size_t k = 1; k < c2.size(); ++k) got[t] += (c2[k].basicPoint2d() - c2[k - 1].basicPoint2d()).norm();
      });
    for (auto& t : ts) t.join();
    for (double g : got) c.check(c.close(g, want, 1e-9), "C09:moved-point-length", g, " ", want);
    c.event("readers of moved points");
    c.sig(Hash()(want).h);
  }
};
VF_HARNESS(C09, "C09");

// ids issued, registered and taken by elements without id in many threads at once
struct C02T : Harness {
  uint64_t numCases(bool th) override { return th ? 2000 : 160; }
  std::string rule() override {
    return "a case is one concurrent history of id requests; distinct states are the observed orders of the issued ids over the "
           "threads";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    int nt = int(r.i(2, 8));
    int n = int(r.i(5, 120));
    struct Op {
      int kind;
      Id id;  // issued or registered
    };
    std::vector<std::vector<Op>> hist(static_cast<size_t>(nt));
    Gate gate(nt);
    std::vector<std::thread> ts;
    Id before = utils::getId();
    uint64_t s = r.next();
    bool reg = r.p(.6), maps = r.p(.5);
    static Id far = 5000000;
    Id jump = far;
    far += 2000000;
    for (int t = 0; t < nt; ++t)
      ts.emplace_back([&, t] {
        Rng tr(s + uint64_t(t) * 104729);
        auto& h = hist[size_t(t)];
        LaneletMap map;
        gate.wait();
        for (int k = 0; k < n; ++k) {
          double u = tr.u();
          if (reg && u < .25) {
            Id id = tr.p(.4) ? before + tr.i(1, 400) : tr.p(.9) ? jump + tr.i(0, 100) * 1000 + t : -tr.i(0, 50);
            utils::registerId(id);
            h.push_back({1, id});
          } else if (maps && u < .5) {
            if (tr.p(.5)) {
              Point3d p(InvalId, 0, 0, 0);
              map.add(p);
              h.push_back({0, p.id()});
            } else {
              Point3d a(utils::getId(), 0, 0, 0), b(InvalId, 1, 1, 0);
              LineString3d l(InvalId, {a, b});
              map.add(l);
              h.push_back({0, a.id()});
              h.push_back({0, b.id()});
              h.push_back({2, l.id()});
            }
          } else if (maps && u < .55) {
            h.push_back({0, map.pointLayer.uniqueId()});
          } else {
            h.push_back({0, utils::getId()});
          }
        }
      });
    for (auto& t : ts) t.join();
    std::map<Id, int> issued;
    std::vector<std::pair<Id, int>> order;
    for (int t = 0; t < nt; ++t) {
      Id last = InvalId, lastReg = 0;
      for (auto& o : hist[size_t(t)]) {
        if (o.kind == 1) {
          lastReg = std::max(lastReg, o.id);
          c.event("ids registered");
          continue;
        }
        c.event("ids issued");
        c.check(o.id != InvalId, "C02:threads-invalid-id", "thread ", t, " got an invalid id");
        auto it = issued.find(o.id);
        c.check(it == issued.end(), "C02:threads-duplicate-id", "id ", o.id, " issued to threads ", it == issued.end() ? -1 : it->second, " and ", t);
        issued[o.id] = t;
        order.push_back({o.id, t});
        c.check(o.id > before || o.id < 0, "C02:threads-reissued", "id ", o.id, " was issued before the threads started (", before, ")");
        // a registration that the same thread completed before is respected (ids registered while in flight are not)
        std::set<Id> own;
        (void)own;
        c.check(o.id != lastReg, "C02:threads-registered-id-issued", "thread ", t, " registered ", o.id, " and then got it");
        (void)last;
      }
    }
    // own registrations: no id registered by a thread is issued to it afterwards
    for (int t = 0; t < nt; ++t) {
      std::set<Id> mine;
      for (auto& o : hist[size_t(t)]) {
        if (o.kind == 1)
          mine.insert(o.id);
        else
          c.check(!mine.count(o.id), "C02:threads-registered-id-issued", "thread ", t, " registered ", o.id, " and then got it");
      }
    }
    Id after = utils::getId();
    for (auto& h : hist)
      for (auto& o : h) c.check(after != o.id, "C02:threads-reissued", "id ", after, " after the threads was in use");
    for (int k = 0; k < 200; ++k) {
      Id x = utils::getId();
      c.check(!issued.count(x), "C02:threads-reissued", "id ", x, " issued again");
    }
    std::sort(order.begin(), order.end());
    Hash h;
    size_t sw = 0;
    for (size_t k = 0; k < order.size(); ++k) {
      h(uint64_t(order[k].second));
      sw += k && order[k].second != order[k - 1].second;
    }
    c.sig(h.h);
    c.event("switches between threads observed", sw);
  }
};
VF_HARNESS(C02T, "C02T");
}  // namespace
