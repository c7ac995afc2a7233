// R05 conflicts across graphs and foreign elements, R06 exports and debug maps, R07 enclosing polygon of a path
#include <lanelet2_routing/LaneletPath.h>
#include <unistd.h>

#include "geo.h"
#include "rsearch.h"

namespace {
using namespace vf;
using namespace gen;
using namespace rm;
using routing::PossiblePathsParams;
using routing::RoutingGraphContainer;

template <typename E, typename F>
bool throws(F f) {
  try {
    f();
  } catch (E&) {
    return true;
  }
  return false;
}

struct R05 : Harness {
  uint64_t numCases(bool t) override { return t ? 30000 : 1500; }
  std::string rule() override {
    return "random networks x 1-4 graphs of different participants/heights/rules/parts of the map x every lanelet (both directions, also foreign ones) and random routes: answers of the container are "
           "compared with a scan over all passable lanelets; every graph query is made with foreign lanelets/areas, invalid cost ids and odd limits";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    auto o = searchWorld(r);
    o.net.pDuplicate = r.p(.5) ? .05 : 0;
    o.net.pBridge = r.pick({.05, .4});
    o.net.cols = int(r.i(3, 6));
    o.net.crosswalks = int(r.i(0, 4));
    w.build(o);
    observe(c, w);
    container(c, w);
    foreignQueries(c, w);
    if (c.wantSample()) c.sample(dump(w));
  }
  void container(Ctx& c, RWorld& w) {
    auto& r = c.rng;
    struct G {
      traffic_rules::TrafficRulesUPtr rules;
      LaneletSubmapPtr sub;
      std::shared_ptr<RoutingGraph> g;
      std::vector<ConstLanelet> passable;
    };
    std::vector<G> gs;
    std::vector<routing::RoutingGraphConstPtr> graphs;
    int n = int(r.i(1, 4));
    for (int k = 0; k < n; ++k) {
      G x;
      auto who = r.pick<const char*>({"vehicle", "pedestrian", "bicycle", "vehicle:bus", "vehicle:car"});
      x.rules = traffic_rules::TrafficRulesFactory::create(Locations::Germany, who);
      RoutingGraph::Configuration cfg;
      if (r.p(.4)) cfg[RoutingGraph::ParticipantHeight] = Attribute(r.pick({1.5, 2., 4.}));
      routing::RoutingCostPtrs mods{std::make_shared<routing::RoutingCostDistance>(3.)};
      auto take = [&](const ConstLanelet& l) {
        if (x.rules->canPass(l)) x.passable.push_back(l);
      };
      if (r.p(.2)) {
        Lanelets ll;
        for (auto& l : w.net.lanelets)
          if (r.p(.7)) ll.push_back(l);
        x.sub = utils::createSubmap(ll, {});
        x.g = RoutingGraph::build(*x.sub, *x.rules, mods, cfg);
        for (auto l : x.sub->laneletLayer) take(l);
      } else {
        x.g = RoutingGraph::build(*w.net.map, *x.rules, mods, cfg);
        for (auto l : w.net.map->laneletLayer) take(l);
      }
      graphs.push_back(x.g);
      gs.push_back(std::move(x));
    }
    RoutingGraphContainer cont(graphs);
    c.check(cont.routingGraphs() == graphs, "container:graphs", "container has other graphs");
    auto boxOf = [&](const ConstLanelet& l) { return RWorld::boxOf(Elem(l)); };
    std::vector<std::vector<RWorld::Box>> boxes(gs.size());
    for (size_t k = 0; k < gs.size(); ++k)
      for (auto& l : gs[k].passable) boxes[k].push_back(boxOf(l));
    // 1 conflict, 0 none, -1 either
    auto conflict = [&](const ConstLanelet& q, const RWorld::Box& b, size_t k, size_t j, double h) -> int {
      auto& l = gs[k].passable[j];
      if (l == q) return 0;
      if (l == q.invert()) return -1;
      auto& p = boxes[k][j];
      for (int d : {0, 1})
        if (p.hi[d] < b.lo[d] || b.hi[d] < p.lo[d]) return 0;
      bool r1 = h != 0 ? geometry::overlaps3d(q, l, h) : geometry::overlaps2d(q, l);
      bool r2 = h != 0 ? geometry::overlaps3d(l, q, h) : geometry::overlaps2d(l, q);
      return r1 == r2 ? r1 : -1;
    };
    auto verify = [&](const char* key, const std::string& ctx, size_t k, const ConstLanelets& got, const std::vector<int>& want) {
      auto g = codes(got);
      for (size_t j = 0; j < gs[k].passable.size(); ++j) {
        size_t cnt = g.count(code(gs[k].passable[j]));
        if (want[j] < 0 ? cnt <= 1 : cnt == size_t(want[j])) {
          if (want[j] == 1) c.event("conflict");
          g.erase(code(gs[k].passable[j]));
          c.eval();
          continue;
        }
        c.check(false, (std::string(key) + (want[j] == 1 ? ":missing" : ":extra")).c_str(), ctx, " in graph ", k, " contains ", name(gs[k].passable[j]), " ", cnt, " times, expected ", want[j]);
      }
      c.check(g.empty(), (std::string(key) + ":foreign").c_str(), ctx, " in graph ", k, " contains lanelets that can not be passed");
    };
    auto height = [&] { return r.p(.4) ? 0. : r.pick({.3, 1.7, 2.5, 4., 5.5, 9.}); };
    auto shape = [&](const RoutingGraphContainer::ConflictingInGraphs& a) {
      c.check(a.size() == gs.size(), "container:size", "answer for ", a.size(), " graphs, expected ", gs.size());
      for (size_t k = 0; k < a.size(); ++k) c.check(a[k].first == k, "container:order", "answer ", k, " is about graph ", a[k].first);
    };
    for (int q = 0; q < 12; ++q) {
      ConstLanelet l = r.p(.9) ? ConstLanelet(w.net.lanelets[r.idx(w.net.lanelets.size())]) : *foreign(w, r).lanelet();
      if (r.p(.3)) l = l.invert();
      double h = height();
      auto all = cont.conflictingInGraphs(l, h);
      shape(all);
      auto b = boxOf(l);
      for (size_t k = 0; k < gs.size(); ++k) {
        std::vector<int> want;
        for (size_t j = 0; j < gs[k].passable.size(); ++j) want.push_back(conflict(l, b, k, j, h));
        std::string ctx = "conflicts of " + name(l) + " at height " + std::to_string(h);
        verify("container", ctx, k, cont.conflictingInGraph(l, k, h), want);
        verify("container-all", ctx, k, all[k].second, want);
      }
      c.check(throws<InvalidInputError>([&] { cont.conflictingInGraph(l, gs.size() + size_t(r.i(0, 3)), h); }), "container:graph-id", "no error for a graph that does not exist");
    }
    // routes
    for (int q = 0; q < 3; ++q) {
      auto& g = gs[r.idx(gs.size())];
      if (g.passable.empty()) continue;
      auto from = g.passable[r.idx(g.passable.size())];
      auto set = g.g->reachableSet(from, 1e9);
      auto to = set[r.idx(set.size())];
      auto rt = g.g->getRoute(from, to);
      c.check(!!rt, "container:route", "no route from ", name(from), " to ", name(to), " which is reachable");
      double h = height();
      auto all = cont.conflictingOfRouteInGraphs(&*rt, h);
      shape(all);
      for (size_t k = 0; k < gs.size(); ++k) {
        std::vector<int> want(gs[k].passable.size(), 0);
        for (auto l : rt->laneletSubmap()->laneletLayer) {
          auto b = boxOf(l);
          for (size_t j = 0; j < want.size(); ++j)
            if (want[j] != 1) {
              int x = conflict(l, b, k, j, h);
              if (x) want[j] = x;
            }
        }
        std::string ctx = "conflicts of the route from " + name(from) + " to " + name(to) + " at height " + std::to_string(h);
        verify("container-route", ctx, k, cont.conflictingOfRouteInGraph(&*rt, k, h), want);
        verify("container-routes", ctx, k, all[k].second, want);
        c.event("route-conflicts");
      }
      c.check(throws<InvalidInputError>([&] { cont.conflictingOfRouteInGraph(&*rt, gs.size(), h); }), "container:graph-id", "no error for a graph that does not exist");
    }
  }
  void foreignQueries(Ctx& c, RWorld& w) {
    auto& r = c.rng;
    auto& g = *w.graph;
    std::vector<ConstLanelet> in;
    std::vector<Elem> inAny;
    for (auto& e : w.v) {
      inAny.push_back(e);
      if (e.isLanelet()) in.push_back(*e.lanelet());
    }
    std::vector<Elem> out{foreign(w, r)};
    for (auto& a : w.net.areas)
      if (!w.has(ConstArea(a))) out.push_back(ConstArea(a));
    out.push_back(ConstArea(Area(w.ids.valid(), {})));
    auto odd = [&] { return r.pick({0., -1., 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 10.}); };
    RoutingCostId bad(w.costs.size() + size_t(r.i(0, 2))), good(r.idx(w.costs.size()));
    bool ch = r.p(.5);
    // elements that are not in the graph
    for (auto& e : out)
      for (auto id : {good, bad}) {
        std::string ctx = "query about foreign " + name(e);
        auto none = [&](bool empty, const char* what) { c.check(empty, "foreign:answer", ctx, ": ", what, " is not empty"); };
        bool visited = false;
        auto vA = [&](const routing::LaneletOrAreaVisitInformation&) {
          visited = true;
          return true;
        };
        auto vL = [&](const routing::LaneletVisitInformation&) {
          visited = true;
          return true;
        };
        double lim = odd();
        PossiblePathsParams pp{r.p(.6) ? Optional<double>(lim) : Optional<double>(), r.p(.5) ? Optional<uint32_t>(uint32_t(r.i(0, 4))) : Optional<uint32_t>(), id, ch, r.p(.5)};
        none(g.conflicting(e).empty(), "conflicting");
        none(g.reachableSetIncludingAreas(e, lim, id).empty(), "reachableSetIncludingAreas");
        none(g.possiblePathsIncludingAreas(e, pp).empty(), "possiblePathsIncludingAreas");
        none(g.possiblePathsIncludingAreas(e, lim, id, ch).empty(), "possiblePathsIncludingAreas");
        none(g.possiblePathsIncludingAreas(e, uint32_t(2), ch, id).empty(), "possiblePathsIncludingAreas");
        g.forEachSuccessorIncludingAreas(e, vA, ch, id);
        g.forEachPredecessorIncludingAreas(e, vA, ch, id);
        none(!g.shortestPathIncludingAreas(e, e, id, ch), "shortestPathIncludingAreas");
        if (!inAny.empty()) {
          auto& i = inAny[r.idx(inAny.size())];
          none(!g.shortestPathIncludingAreas(e, i, id, ch) && !g.shortestPathIncludingAreas(i, e, id, ch), "shortestPathIncludingAreas");
          none(!g.shortestPathIncludingAreasVia(i, {e}, i, good, ch), "shortestPathIncludingAreasVia");
        }
        if (e.isLanelet()) {
          auto l = *e.lanelet();
          none(g.following(l, ch).empty() && g.previous(l, ch).empty(), "following/previous");
          none(g.followingRelations(l, ch).empty() && g.previousRelations(l, ch).empty(), "following/previousRelations");
          none(!g.left(l, id) && !g.right(l, id) && !g.adjacentLeft(l, id) && !g.adjacentRight(l, id), "left/right");
          none(g.lefts(l, id).empty() && g.rights(l, id).empty() && g.adjacentLefts(l, id).empty() && g.adjacentRights(l, id).empty(), "lefts/rights");
          none(g.leftRelations(l, id).empty() && g.rightRelations(l, id).empty(), "left/rightRelations");
          c.check(g.besides(l, id) == ConstLanelets{l}, "foreign:besides", ctx, ": besides is ", names(g.besides(l, id)));
          none(g.reachableSet(l, lim, id, ch).empty() && g.reachableSetTowards(l, lim, id, ch).empty(), "reachableSet");
          none(g.possiblePaths(l, pp).empty() && g.possiblePathsTowards(l, pp).empty(), "possiblePaths");
          none(g.possiblePaths(l, lim, id, ch).empty() && g.possiblePathsTowards(l, lim, id, ch).empty(), "possiblePaths");
          none(g.possiblePaths(l, uint32_t(2), ch, id).empty() && g.possiblePathsTowards(l, uint32_t(2), ch, id).empty(), "possiblePaths");
          g.forEachSuccessor(l, vL, ch, id);
          g.forEachPredecessor(l, vL, ch, id);
          none(!g.getRoute(l, l, id, ch) && !g.shortestPath(l, l, id, ch) && !g.routingRelation(l, l, ch), "route/path");
          if (!in.empty()) {
            auto& i = in[r.idx(in.size())];
            none(!g.getRoute(l, i, id, ch) && !g.getRoute(i, l, id, ch) && !g.getRouteVia(i, {l}, i, good, ch) && !g.getRouteVia(l, {i}, i, good, ch), "getRoute");
            none(!g.routingRelation(l, i, ch) && !g.routingRelation(i, l, ch), "routingRelation");
          }
        }
        c.check(!visited, "foreign:visit", ctx, " visits something");
        c.event("foreign-query");
      }
    // cost modules that do not exist and missing limits
    if (in.empty()) return;
    for (int k = 0; k < 4; ++k) {
      auto l = in[r.idx(in.size())], m = in[r.idx(in.size())];
      Elem e = inAny[r.idx(inAny.size())];
      auto must = [&](const char* what, auto f) { c.check(throws<InvalidInputError>(f), "invalid:no-error", what, " with invalid input about ", name(l), " does not report it"); };
      auto vA = [&](const routing::LaneletOrAreaVisitInformation&) { return true; };
      auto vL = [&](const routing::LaneletVisitInformation&) { return true; };
      must("left", [&] { g.left(l, bad); });
      must("right", [&] { g.right(l, bad); });
      must("adjacentLeft", [&] { g.adjacentLeft(l, bad); });
      must("adjacentRight", [&] { g.adjacentRight(l, bad); });
      must("lefts", [&] { g.lefts(l, bad); });
      must("rights", [&] { g.rights(l, bad); });
      must("besides", [&] { g.besides(l, bad); });
      must("leftRelations", [&] { g.leftRelations(l, bad); });
      must("rightRelations", [&] { g.rightRelations(l, bad); });
      must("reachableSet", [&] { g.reachableSet(l, 5, bad, ch); });
      must("reachableSetTowards", [&] { g.reachableSetTowards(l, 5, bad, ch); });
      must("reachableSetIncludingAreas", [&] { g.reachableSetIncludingAreas(e, 5, bad); });
      must("possiblePaths", [&] { g.possiblePaths(l, 5., bad, ch); });
      must("possiblePaths", [&] { g.possiblePaths(l, uint32_t(5), ch, bad); });
      must("possiblePathsTowards", [&] { g.possiblePathsTowards(l, 5., bad, ch); });
      must("possiblePathsIncludingAreas", [&] { g.possiblePathsIncludingAreas(e, 5., bad, ch); });
      must("forEachSuccessor", [&] { g.forEachSuccessor(l, vL, ch, bad); });
      must("forEachPredecessor", [&] { g.forEachPredecessor(l, vL, ch, bad); });
      must("forEachSuccessorIncludingAreas", [&] { g.forEachSuccessorIncludingAreas(e, vA, ch, bad); });
      must("forEachPredecessorIncludingAreas", [&] { g.forEachPredecessorIncludingAreas(e, vA, ch, bad); });
      must("shortestPath", [&] { g.shortestPath(l, m, bad, ch); });
      must("shortestPathIncludingAreas", [&] { g.shortestPathIncludingAreas(e, e, bad, ch); });
      must("shortestPathVia", [&] { g.shortestPathVia(l, {m}, l, bad, ch); });
      must("getRoute", [&] { g.getRoute(l, m, bad, ch); });
      must("getRouteVia", [&] { g.getRouteVia(l, {m}, l, bad, ch); });
      must("getDebugLaneletMap", [&] { g.getDebugLaneletMap(bad, ch, ch); });
      PossiblePathsParams nolimit{{}, {}, good, ch, r.p(.5)};
      must("possiblePaths without limit", [&] { g.possiblePaths(l, nolimit); });
      must("possiblePathsTowards without limit", [&] { g.possiblePathsTowards(l, nolimit); });
      must("possiblePathsIncludingAreas without limit", [&] { g.possiblePathsIncludingAreas(e, nolimit); });
      // any limit is fine otherwise. The start itself is always part of possible paths.
      double lim = odd();
      for (auto& p : g.possiblePaths(l, PossiblePathsParams{lim, {}, good, ch, true})) c.check(!p.empty() && p.front() == l, "odd-limit:start", "possible path from ", name(l), " starts elsewhere: ", names(p));
      auto rs = g.reachableSet(l, lim, good, ch);
      bool self = lim >= 0;
      c.check((std::find(rs.begin(), rs.end(), l) != rs.end()) == self, "odd-limit:self", "reachable set of ", name(l), " within ", lim, " contains itself: ", !self);
      c.event("invalid-query");
    }
  }
};
VF_HARNESS(R05, "R05");

struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/vf_rgraph_XXXXXX";
    if (!mkdtemp(t)) std::abort();
    dir = t;
  }
  ~Scratch() {
    for (auto f : {"/g.ml", "/g.gv"}) unlink((dir + f).c_str());
    rmdir(dir.c_str());
  }
};

struct R06 : Harness {
  uint64_t numCases(bool t) override { return t ? 30000 : 1500; }
  std::string rule() override {
    return "random networks x cost module x relation filter: debug map, GraphML and Graphviz export are parsed and compared, relation by relation, with the independent model; the validity check is run on "
           "every graph";
  }
  using Entry = std::tuple<Id, Id, std::string>;
  static std::string read(const std::string& f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
  }
  void run(Ctx& c) override {
    static Scratch scratch;
    auto& r = c.rng;
    RWorld w(r);
    w.build(searchWorld(r));
    if (!usable(c, w)) return;
    observe(c, w);
    if (c.verbose) std::cerr << dump(w) << std::endl;
    auto& g = *w.graph;
    size_t n = w.v.size(), ci = r.idx(w.costs.size());
    std::multimap<Entry, double> all;
    auto wanted = [&](RelationType mask) {
      std::multimap<Entry, double> m;
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
          if (i != j) {
            double cost;
            auto x = w.relFor(ci, i, j, cost);
            if ((x & mask) != RelationType::None) m.insert({Entry{w.v[i].id(), w.v[j].id(), routing::relationToString(x)}, cost});
          }
      return m;
    };
    auto compare = [&](const char* key, const std::multimap<Entry, double>& want, const std::multimap<Entry, double>& got, bool costs) {
      auto show = [](const Entry& e) { return std::to_string(std::get<0>(e)) + "->" + std::to_string(std::get<1>(e)) + ":" + std::get<2>(e); };
      std::set<Entry> keys;
      for (auto& x : want) keys.insert(x.first);
      for (auto& x : got) keys.insert(x.first);
      for (auto& k : keys) {
        c.check(want.count(k) == got.count(k), key, key, " has ", got.count(k), " times ", show(k), ", expected ", want.count(k));
        if (!costs) continue;
        std::vector<double> a, b;
        for (auto i = want.lower_bound(k); i != want.upper_bound(k); ++i) a.push_back(i->second);
        for (auto i = got.lower_bound(k); i != got.upper_bound(k); ++i) b.push_back(i->second);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (size_t q = 0; q < a.size(); ++q) c.check(std::isnan(b[q]) || c.close(a[q], b[q], 1e-4 * std::max(1., std::fabs(a[q]))), (std::string(key) + ":cost").c_str(), key, ": ", show(k), " costs ", b[q], ", expected ", a[q]);
      }
      c.event(std::string(key) + "-edges", got.size());
    };
    auto id = RoutingCostId(ci);
    {  // debug map
      bool adj = r.p(.5), conf = r.p(.5);
      auto mask = RelationType::Successor | RelationType::Left | RelationType::Right | RelationType::Area;
      if (adj) mask |= RelationType::AdjacentLeft | RelationType::AdjacentRight;
      if (conf) mask |= RelationType::Conflicting;
      auto m = g.getDebugLaneletMap(id, adj, conf);
      std::set<Id> ids, pts;
      for (auto& e : w.v) ids.insert(e.id());
      for (auto p : m->pointLayer) {
        pts.insert(p.id());
        c.check(p.attributeOr("id", Id(0)) == p.id(), "debug-map:point", "point ", p.id(), " does not name its element");
      }
      c.check(ids == pts, "debug-map:points", "debug map has ", pts.size(), " points, expected ", ids.size());
      std::map<std::pair<Id, Id>, int> lines;
      std::multimap<Entry, double> got;
      for (auto l : m->lineStringLayer) {
        c.check(l.size() == 2, "debug-map:line", "line with ", l.size(), " points");
        auto num = [&](const char* k) { return l.attributeOr(k, std::numeric_limits<double>::quiet_NaN()); };
        got.insert({Entry{l.front().id(), l.back().id(), l.attributeOr("relation", std::string())}, num("routing_cost")});
        if (l.hasAttribute("relation_reverse")) got.insert({Entry{l.back().id(), l.front().id(), l.attributeOr("relation_reverse", std::string())}, num("routing_cost_reverse")});
        ++lines[std::minmax(Id(l.front().id()), Id(l.back().id()))];
      }
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) {
          double cost;
          if (((w.relFor(ci, i, j, cost) | w.relFor(ci, j, i, cost)) & mask) != RelationType::None) --lines[std::minmax(Id(w.v[i].id()), Id(w.v[j].id()))];
        }
      for (auto& p : lines)
        if (p.first.first != p.first.second) c.check(p.second == 0, "debug-map:lines", p.second, " lines too many between ", p.first.first, " and ", p.first.second);
      compare("debug-map", wanted(mask), got, true);
    }
    RelationType excl = RelationType::None;
    for (auto t : {RelationType::Successor, RelationType::Left, RelationType::Right, RelationType::AdjacentLeft, RelationType::AdjacentRight, RelationType::Conflicting, RelationType::Area})
      if (r.p(.25)) excl |= t;
    auto mask = routing::allRelations() & ~excl;
    {  // graphviz
      auto f = scratch.dir + "/g.gv";
      g.exportGraphViz(f, excl, id);
      std::istringstream s(read(f));
      std::string line;
      std::map<size_t, Id> node;
      std::multimap<Entry, double> got;
      auto quoted = [](const std::string& l, const std::string& k) -> std::string {
        auto p = l.find(k + "=\"");
        if (p == std::string::npos) return "";
        p += k.size() + 2;
        return l.substr(p, l.find('"', p) - p);
      };
      std::multiset<Id> ids, want;
      while (std::getline(s, line)) {
        if (line.empty() || !std::isdigit(uint8_t(line[0]))) continue;
        char* e = nullptr;
        size_t a = std::strtoul(line.c_str(), &e, 10);
        if (std::string(e).compare(0, 2, "->") == 0) {
          size_t b = std::strtoul(e + 2, nullptr, 10);
          auto cost = quoted(line, "weight");
          c.check(quoted(line, "routingCostId") == std::to_string(ci), "graphviz:cost-id", "edge of another cost module: ", line);
          c.check(node.count(a) && node.count(b), "graphviz:node", "edge between unknown nodes: ", line);
          got.insert({Entry{node[a], node[b], quoted(line, "label")}, cost.empty() ? std::numeric_limits<double>::quiet_NaN() : std::stod(cost)});
        } else {
          node[a] = std::stoll(quoted(line, "label"));
          ids.insert(node[a]);
        }
      }
      for (auto& e : w.v) want.insert(e.id());
      c.check(ids == want, "graphviz:nodes", "export has ", ids.size(), " nodes, expected ", want.size());
      compare("graphviz", wanted(mask), got, true);
    }
    {  // graphml
      auto f = scratch.dir + "/g.ml";
      g.exportGraphML(f, excl, id);
      auto t = read(f);
      auto attr = [&](const std::string& tag, const char* k) {
        auto p = tag.find(std::string(k) + "=\"");
        if (p == std::string::npos) return std::string();
        p += std::strlen(k) + 2;
        return tag.substr(p, tag.find('"', p) - p);
      };
      std::map<std::string, std::string> keyName;
      std::map<std::string, Id> node;
      std::multimap<Entry, double> got;
      std::string src, dst, relName, curNode;
      double cost = 0;
      size_t edges = 0;
      for (size_t p = 0; (p = t.find('<', p)) != std::string::npos;) {
        size_t q = t.find('>', p);
        c.check(q != std::string::npos, "graphml:syntax", "tag is not closed");
        auto tag = t.substr(p + 1, q - p - 1);
        if (tag.compare(0, 4, "key ") == 0) keyName[attr(tag, "id")] = attr(tag, "attr.name");
        if (tag.compare(0, 5, "node ") == 0) curNode = attr(tag, "id");
        if (tag.compare(0, 5, "edge ") == 0) {
          src = attr(tag, "source");
          dst = attr(tag, "target");
          ++edges;
        }
        if (tag.compare(0, 5, "data ") == 0) {
          auto end = t.find("</data>", q);
          auto val = t.substr(q + 1, end - q - 1);
          auto k = keyName[attr(tag, "key")];
          if (k == "info") {
            auto d = val.find("id: ");
            c.check(d != std::string::npos, "graphml:info", "node without id: ", val);
            node[curNode] = std::stoll(val.substr(d + 4));
          }
          if (k == "relation") relName = val;
          if (k == "routingCost") cost = std::stod(val);
          q = end;
        }
        if (tag == "/edge") {
          c.check(node.count(src) && node.count(dst), "graphml:node", "edge between unknown nodes");
          got.insert({Entry{node[src], node[dst], relName}, cost});
        }
        p = q;
      }
      c.check(node.size() == n, "graphml:nodes", "export has ", node.size(), " nodes, expected ", n);
      compare("graphml", wanted(mask), got, true);
    }
    c.check(throws<InvalidInputError>([&] { g.exportGraphML("", excl, id); }) && throws<InvalidInputError>([&] { g.exportGraphViz("", excl, id); }), "export:no-file", "no error without file name");
    auto bad = RoutingCostId(w.costs.size());
    c.check(throws<InvalidInputError>([&] { g.exportGraphML(scratch.dir + "/g.ml", excl, bad); }) && throws<InvalidInputError>([&] { g.exportGraphViz(scratch.dir + "/g.gv", excl, bad); }), "export:cost-id",
            "no error for a cost module that does not exist");
    c.check(throws<ExportError>([&] { g.exportGraphML(scratch.dir + "/missing/g.ml", excl, id); }) && throws<ExportError>([&] { g.exportGraphViz(scratch.dir + "/missing/g.gv", excl, id); }),
            "export:unwritable", "no error for a file that can not be written");
    // the neighbours of every lanelet are unique and mutual, otherwise the check complains
    bool odd = false;
    auto side = [&](size_t i, size_t j) {  // -1 right, 1 left, 0 no neighbour
      double cost;
      auto x = w.relFor(0, i, j, cost);
      if (x == RelationType::Left || x == RelationType::AdjacentLeft) return 1;
      return x == RelationType::Right || x == RelationType::AdjacentRight ? -1 : 0;
    };
    for (size_t i = 0; i < n; ++i) {
      int cnt[3] = {0, 0, 0};
      for (size_t j = 0; j < n; ++j) {
        if (i == j || !w.v[i].isLanelet() || !w.v[j].isLanelet()) continue;
        int q = side(i, j);
        if (q == 0) continue;
        if (++cnt[q + 1] > 1 || side(j, i) != -q) odd = true;
      }
    }
    auto err = g.checkValidity(false);
    c.event(odd ? "validity:odd" : "validity:fine");
    c.check(err.empty() == !odd, "validity", "validity check reports ", err.empty() ? "nothing" : err.front(), " but neighbours are ", odd ? "ambiguous" : "fine");
    c.check(throws<RoutingGraphError>([&] { g.checkValidity(true); }) == !err.empty(), "validity", "validity check throws although it reports nothing, or the other way round");
    if (c.wantSample()) c.sample(dump(w));
  }
};
VF_HARNESS(R06, "R06");

struct R07 : Harness {
  uint64_t numCases(bool t) override { return t ? 60000 : 4000; }
  std::string rule() override {
    return "shortest paths (lanelets and areas, with and without lane changes) through random networks, and free paths along roads of lanelets and areas of any shape; the polygon around the path is compared with the polygons of its elements by area and sampled "
           "points; paths that overlap themselves are skipped; distinct = paths";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    auto o = searchWorld(r);
    o.pStrict = 0;
    o.pSub = 0;
    o.net.pTip = 0;
    o.net.pDashed = r.pick({.4, .9});
    w.build(o);
    if (!usable(c, w)) return;
    observe(c, w);
    auto& g = *w.graph;
    size_t n = w.v.size();
    for (int q = 0; q < 6; ++q) {
      bool changes = r.p(.6);
      auto id = RoutingCostId(r.idx(w.costs.size()));
      auto from = w.v[r.idx(n)];
      auto set = g.reachableSetIncludingAreas(from, 1e12, id);
      auto to = set[r.idx(set.size())];
      auto p = g.shortestPathIncludingAreas(from, to, id, changes);
      if (!p) continue;
      checkPath(c, *p, [&](size_t a) { return w.change(w.at((*p)[a]), w.at((*p)[a + 1])); });
    }
    for (int q = 0; q < 4; ++q) corridor(c);
  }
  static geo::Ring ringOf(const Elem& e) {
    geo::Ring ring;
    for (auto p : e.boundingPolygon())
      if (ring.empty() || ring.back().x != p.x() || ring.back().y != p.y()) ring.push_back({p.x(), p.y()});
    if (ring.size() > 1 && ring.front().x == ring.back().x && ring.front().y == ring.back().y) ring.pop_back();  // the bound of an area ends where it begins
    return ring;
  }
  static std::string pathNames(const routing::LaneletOrAreaPath& p) {
    std::string s;
    for (auto& e : p) s += (s.empty() ? "" : ",") + std::to_string(e.id());
    return s;
  }
  template <typename F>
  void checkPath(Ctx& c, const routing::LaneletOrAreaPath& p, F isChange) {
    auto& r = c.rng;
    bool ok = true;
    std::vector<geo::Ring> rings;
    double total = 0;
    for (auto& e : p) {
      rings.push_back(ringOf(e));
      ok = ok && geo::simpleRing(rings.back());
      total += std::fabs(geo::ringArea(rings.back()));
    }
    bool areas = false, change = false;
    for (size_t a = 0; a < p.size() && ok; ++a) {
      if (p[a].isArea()) areas = true;
      for (size_t b = a + 1; b < p.size() && ok; ++b) {
        ok = geo::interArea(rings[a], rings[b]) < 1e-6;
        // elements that share a border without being neighbours on the path close a loop
        if (ok && b > a + 1) {
          geo::Segs x, y;
          geo::segsOf(rings[a], x);
          geo::segsOf(rings[b], y);
          ok = geo::segsDist(x, y) > 1e-6 || (b == a + 2 && touchesAtPoint(p[a], p[a + 1], p[b]));
        }
      }
      if (a + 1 < p.size()) {
        if (isChange(a)) change = true;
        if (p[a].isArea() || p[a + 1].isArea()) ok = ok && commonLines(p[a], p[a + 1]) == 1;
      }
    }
    if (!ok) {
      c.event("skipped:overlapping-path");
      return;
    }
    Hash h;
    for (auto& e : p) h(uint64_t(e.id()));
    c.sig(h.h);
    std::string ctx = "polygon around " + pathNames(p);
    auto poly = routing::getEnclosingPolygon3d(p);
    geo::Ring ring;
    for (auto& x : poly) ring.push_back({x.x(), x.y()});
    // made of points of the elements
    for (auto& x : poly) {
      bool known = false;
      for (auto& e : p)
        for (auto y : e.boundingPolygon()) known = known || y.basicPoint() == x;
      c.check(known, "polygon:point", ctx, " has point (", x.x(), ",", x.y(), ",", x.z(), ") that is not part of an element");
    }
    double area = geo::ringArea(ring);
    c.check(c.close(std::fabs(area), total, 1e-6 * std::max(1., total)), "polygon:area", ctx, " has area ", area, ", the elements ", total);
    double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
    for (auto& rg : rings)
      for (auto& v : rg) {
        x0 = std::min(x0, v.x);
        y0 = std::min(y0, v.y);
        x1 = std::max(x1, v.x);
        y1 = std::max(y1, v.y);
      }
    for (int k = 0; k < 40; ++k) {
      geo::P2 s{r.d(x0 - 1, x1 + 1), r.d(y0 - 1, y1 + 1)};
      if (k % 2) {  // close to an element
        auto& rg = rings[r.idx(rings.size())];
        auto& v = rg[r.idx(rg.size())];
        s = {v.x + r.d(-4, 4), v.y + r.d(-4, 4)};
      }
      bool in = false, near = geo::distRingBorder(ring, s) < 1e-6;
      for (auto& rg : rings) {
        in = in || geo::inRing(rg, s);
        near = near || geo::distRingBorder(rg, s) < 1e-6;
      }
      if (near) continue;
      c.check(geo::inRing(ring, s) == in, "polygon:inside", ctx, " contains (", s.x, ",", s.y, "): ", !in);
      c.event(in ? "sample:inside" : "sample:outside");
    }
    c.event(p.size() == 1 ? "path:single" : p.size() < 4 ? "path:short" : "path:long");
    if (areas) c.event("path:areas");
    if (change) c.event("path:change");
    if (c.wantSample()) c.sample(ctx);
  }
  // a road of lanelets and areas with two rows, walked from one end to the other with at most one change of the row; built without a routing graph, so that the areas can have any shape
  void corridor(Ctx& c) {
    auto& r = c.rng;
    int n = r.i(1, 5);
    double ang = r.d(-3.2, 3.2), ox = r.d(-50, 50), oy = r.d(-50, 50), x = 0;
    auto pt = [&](double px, double py) {
      return Point3d(utils::getId(), ox + px * std::cos(ang) - py * std::sin(ang), oy + px * std::sin(ang) + py * std::cos(ang), r.d(-1, 1));
    };
    auto line = [](Points3d p) { return LineString3d(utils::getId(), std::move(p)); };
    std::vector<double> xs{0};
    for (int i = 0; i < n; ++i) xs.push_back(x += r.d(4, 12));
    // corners k[row][i] at heights 0, 3, 6
    std::vector<std::vector<Point3d>> k(3);
    for (int j = 0; j < 3; ++j)
      for (int i = 0; i <= n; ++i) k[j].push_back(pt(xs[i] + r.d(-1, 1), 4 * j + r.d(-1, 1)));
    // the bounds along the road, cut into pieces; a lanelet needs a single piece
    std::vector<std::vector<bool>> isArea(2, std::vector<bool>(n));
    for (auto& v : isArea)
      for (int i = 0; i < n; ++i) v[i] = r.p(.5);
    using Pieces = std::vector<LineString3d>;
    std::vector<std::vector<Pieces>> along(3, std::vector<Pieces>(n));
    for (int j = 0; j < 3; ++j)
      for (int i = 0; i < n; ++i) {
        Points3d p{k[j][i]};
        int m = r.i(0, 2);
        for (int q = 1; q <= m; ++q) p.push_back(pt(xs[i] + (xs[i + 1] - xs[i]) * (.2 + .6 * q / (m + 1)), 4 * j + r.d(-.8, .8)));
        p.push_back(k[j][i + 1]);
        bool single = j == 1 || !isArea[j / 2][i];
        if (single || p.size() == 2 || r.p(.5))
          along[j][i] = {line(p)};
        else
          along[j][i] = {line({p[0], p[1]}), line(Points3d(p.begin() + 1, p.end()))};
      }
    std::vector<std::vector<LineString3d>> across(2);
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i <= n; ++i) {
        bool free = (i == 0 || isArea[j][i - 1]) && (i == n || isArea[j][i]);
        Points3d p{k[j][i]};
        if (free && r.p(.4)) p.push_back(pt(xs[i] + r.d(-.8, .8), 4 * j + 2));
        p.push_back(k[j + 1][i]);
        across[j].push_back(line(p));
      }
    bool tip0 = r.p(.3), tip1 = r.p(.3);
    auto elem = [&](int j, int i, bool first, bool last) -> Elem {
      if (!isArea[j][i]) return Lanelet(utils::getId(), along[j + 1][i].front(), along[j][i].front());
      LineStrings3d b;
      auto add = [&](const LineString3d& l, bool inv) { b.push_back(inv ? l.invert() : l); };
      if (first && tip0) {  // ends in a tip
        auto t = pt(xs[0] - 3, 4 * j + 2);
        add(line({t, k[j + 1][i + 1]}), false);
        add(across[j][i + 1], true);
        add(line({k[j][i + 1], t}), false);
      } else if (last && tip1) {
        auto t = pt(xs[n] + 3, 4 * j + 2);
        add(across[j][i], false);
        if (r.p(.5)) {
          add(line({k[j + 1][i], t}), false);
          add(line({t, k[j][i]}), false);
        } else {
          add(line({k[j + 1][i], t, k[j][i]}), false);
        }
      } else {
        add(across[j][i], false);
        for (auto& l : along[j + 1][i]) add(l, false);
        add(across[j][i + 1], true);
        for (size_t q = along[j][i].size(); q-- > 0;) add(along[j][i][q], true);
      }
      std::rotate(b.begin(), b.begin() + long(r.idx(b.size())), b.end());
      return Area(utils::getId(), b);
    };
    int row = r.i(0, 1), changeAt = r.p(.5) ? r.i(0, n - 1) : -1;
    std::vector<ConstLaneletOrArea> path;
    size_t changed = size_t(-1);
    for (int i = 0; i < n; ++i) {
      bool sideways = i == changeAt;
      path.push_back(elem(row, i, i == 0 && !sideways && n > 1, i == n - 1 && !sideways && n > 1));
      if (sideways) {
        changed = path.size() - 1;
        row = 1 - row;
        path.push_back(elem(row, i, false, false));
      }
    }
    c.event("corridor");
    checkPath(c, routing::LaneletOrAreaPath(path), [&](size_t a) { return a == changed; });
  }
  static int commonLines(const Elem& a, const Elem& b) {
    auto ids = [](const Elem& e) {
      std::multiset<Id> s;
      if (e.isLanelet()) {
        s.insert(e.lanelet()->leftBound().id());
        s.insert(e.lanelet()->rightBound().id());
        // a step between an area and the start or end of a lanelet crosses a line between its bounds
      } else {
        for (auto& l : e.area()->outerBound()) s.insert(l.id());
      }
      return s;
    };
    int n = 0;
    auto x = ids(a), y = ids(b);
    for (auto i : x) n += int(y.count(i));
    const Elem *l = a.isLanelet() ? &a : b.isLanelet() ? &b : nullptr, *ar = a.isArea() ? &a : &b;
    if (l) {
      auto ll = *l->lanelet();
      for (auto& o : ar->area()->outerBound()) {
        auto is = [&](const ConstPoint3d& p, const ConstPoint3d& q) { return (o.front() == p && o.back() == q) || (o.front() == q && o.back() == p); };
        n += is(ll.leftBound().front(), ll.rightBound().front());
        n += is(ll.leftBound().back(), ll.rightBound().back());
      }
    }
    return n;
  }
  // neighbours of the same element may touch in a corner of it
  static bool touchesAtPoint(const Elem& a, const Elem& m, const Elem& b) {
    (void)m;
    std::set<std::pair<double, double>> x;
    int common = 0;
    for (auto p : a.boundingPolygon()) x.insert({p.x(), p.y()});
    for (auto p : b.boundingPolygon()) common += int(x.count({p.x(), p.y()}));
    return common <= 1;
  }
};
VF_HARNESS(R07, "R07");
}  // namespace
