// R04 routes
#include <lanelet2_routing/LaneletPath.h>

#include "rsearch.h"

namespace {
using namespace vf;
using namespace gen;
using namespace rm;
using routing::LaneletPath;
using routing::LaneletVisitInformation;
using routing::Route;

const auto kDrive = RelationType::Successor | RelationType::Left | RelationType::Right;
bool is(RelationType x, RelationType mask) { return (x & mask) != RelationType::None; }
std::string rel(RelationType x) { return routing::relationToString(x); }

struct R04 : Harness {
  uint64_t numCases(bool t) override { return t ? 40000 : 2000; }
  std::string rule() override {
    return "networks as in R02 x start/destination/via (also the start itself and circular routes) x cost module x with or without lane changes; lanelets, lanes, relations and remaining paths of the "
           "route are compared with the independent model; non-trivial = route with lanelets beside its shortest path";
  }

  struct View {
    Ctx& c;
    RWorld& w;
    const Route& rt;
    size_t ci;
    bool changes;
    std::string ctx;
    std::vector<size_t> on;                             // elements of the route
    std::vector<char> in;
    std::vector<std::vector<RelationType>> rel;         // expected relation inside the route
    std::vector<std::vector<double>> cost;
    ConstLanelet L(size_t i) const { return *w.v[i].lanelet(); }
    std::set<uint64_t> set(size_t i, RelationType mask, bool out = true) const {
      std::set<uint64_t> s;
      for (size_t j : on)
        if (j != i && is(out ? rel[i][j] : rel[j][i], mask)) s.insert(code(w.v[j]));
      return s;
    }
    template <typename C>
    void same(const char* key, size_t i, const C& got, const std::set<uint64_t>& want) {
      auto g = codes(got);
      c.check(g == std::multiset<uint64_t>(want.begin(), want.end()), key, ctx, ": ", key, " of ", name(w.v[i]), " in the route is ", names(got), ", expected ", want.size(), " elements");
    }
    std::vector<size_t> reach(size_t from, bool out) const {
      std::vector<size_t> todo{from};
      std::vector<char> seen(w.v.size(), 0);
      seen[from] = 1;
      for (size_t k = 0; k < todo.size(); ++k)
        for (size_t j : on)
          if (!seen[j] && is(out ? rel[todo[k]][j] : rel[j][todo[k]], kDrive)) {
            seen[j] = 1;
            todo.push_back(j);
          }
      return todo;
    }
  };

  void verify(View& V, const std::vector<size_t>& path) {
    auto &c = V.c;
    auto& w = V.w;
    auto& rt = V.rt;
    auto& r = c.rng;
    size_t n = w.v.size();
    auto asList = [&](const std::vector<size_t>& ix) {
      ConstLanelets l;
      for (size_t i : ix) l.push_back(V.L(i));
      return l;
    };
    // membership
    V.in.assign(n, 0);
    size_t lanelets = 0;
    for (size_t i = 0; i < n; ++i)
      if (w.v[i].isLanelet() && rt.contains(V.L(i))) {
        V.in[i] = 1;
        V.on.push_back(i);
      }
    for (auto& l : rt.laneletSubmap()->laneletLayer) {
      (void)l;
      ++lanelets;
    }
    V.ctx += " members " + names(asList(V.on));
    c.check(rt.size() == V.on.size(), "route:size", V.ctx, ": size is ", rt.size(), " but ", V.on.size(), " lanelets are contained");
    {
      std::set<Id> ids, sub;
      for (size_t i : V.on) ids.insert(w.v[i].id());
      for (auto& l : rt.laneletSubmap()->laneletLayer) sub.insert(l.id());
      c.check(ids == sub && lanelets == ids.size() && rt.laneletSubmap()->areaLayer.empty(), "route:submap", V.ctx, ": submap of the route has ", lanelets, " lanelets, expected ", ids.size());
    }
    for (size_t i : path) c.check(V.in[i], "route:path-missing", V.ctx, ": ", name(w.v[i]), " of the shortest path is not part of the route");
    // relations
    auto mask = kDrive | RelationType::Conflicting | RelationType::AdjacentLeft | RelationType::AdjacentRight;
    if (!V.changes) mask = RelationType::Successor | RelationType::Conflicting;
    V.rel.assign(n, std::vector<RelationType>(n, RelationType::None));
    V.cost.assign(n, std::vector<double>(n, 0));
    std::vector<std::vector<RelationType>> all = V.rel;  // relations of the graph
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (i != j) {
          auto x = w.relFor(V.ci, i, j, V.cost[i][j]);
          if (!is(x, mask)) x = RelationType::None;
          all[i][j] = x;
          if (V.in[i] && V.in[j]) V.rel[i][j] = x;
        }
    // everything leads from the start to the destination
    size_t start = path.front(), dest = path.back();
    bool circular = path.size() > 1 && start == dest;
    auto fw = V.reach(start, true), bw = V.reach(dest, false);
    for (size_t i : V.on) {
      c.check(std::count(fw.begin(), fw.end(), i), "route:unreachable", V.ctx, ": ", name(w.v[i]), " can not be reached from the start inside the route");
      c.check(std::count(bw.begin(), bw.end(), i), "route:dead-end", V.ctx, ": the destination can not be reached from ", name(w.v[i]), " inside the route");
      if (std::count(path.begin(), path.end(), i)) continue;
      c.event("beside-path");
      bool beside = false;
      for (size_t j : V.on) beside = beside || (is(all[i][j], mask) && all[i][j] != RelationType::Successor) || (is(all[j][i], mask) && all[j][i] != RelationType::Successor);
c.event(beside ? "beside:attached" : "beside:successor-only");
    }
    // lanes one can change to and back from belong to it
    if (V.changes)
      for (size_t i : V.on)
        for (size_t j = 0; j < n; ++j)
          if (i != j && is(all[i][j], kDrive) && all[i][j] != RelationType::Successor && is(all[j][i], RelationType::Left | RelationType::Right))
            c.check(V.in[j], "route:neighbour-missing", V.ctx, ": ", name(w.v[j]), " next to ", name(w.v[i]), " is not part of the route");
    // on a road without forks and crossings it consists of all lanelets beside it that lead from it and back to it
    {
      std::vector<size_t> road(path.begin(), path.begin() + 1);
      std::vector<int> col(n, std::numeric_limits<int>::min());
      col[start] = 0;
      bool plain = !circular;
      for (size_t k = 0; k < road.size() && plain; ++k) {
        size_t i = road[k];
        int succ = 0, pred = 0;
        for (size_t j = 0; j < n && plain; ++j)
          for (bool fwd : {true, false}) {
            auto x = fwd ? all[i][j] : all[j][i];
            if (x == RelationType::None) continue;
            plain = plain && x != RelationType::Conflicting && w.v[j].isLanelet();
            bool s = x == RelationType::Successor;
            succ += s && fwd;
            pred += s && !fwd;
            int cj = col[i] + (s ? (fwd ? 1 : -1) : 0);
            if (col[j] == std::numeric_limits<int>::min()) {
              col[j] = cj;
              road.push_back(j);
            }
            plain = plain && col[j] == cj;
          }
        plain = plain && succ < 2 && pred < 2;
      }
      if (plain) {
        std::vector<char> want(n, 0);
        for (size_t i : path) want[i] = 1;
        for (bool more = true; more;) {
          more = false;
          std::vector<char> cand(n, 0);
          for (size_t j : road)
            for (size_t i : road)
              if (!want[j] && want[i] && (all[i][j] != RelationType::None || all[j][i] != RelationType::None)) cand[j] = 1;
          auto walk = [&](bool fwd) {
            std::vector<char> seen(n, 0);
            std::vector<size_t> todo;
            for (size_t i : road)
              if (want[i]) todo.push_back(i);
            for (size_t k = 0; k < todo.size(); ++k)
              for (size_t j : road)
                if (cand[j] && !seen[j] && is(fwd ? all[todo[k]][j] : all[j][todo[k]], kDrive)) {
                  seen[j] = 1;
                  todo.push_back(j);
                }
            return seen;
          };
          auto a = walk(true), b = walk(false);
          for (size_t j : road)
            if (a[j] && b[j]) more = want[j] = 1;
        }
        for (size_t i : road) c.check(want[i] == V.in[i], "route:road", V.ctx, ": ", name(w.v[i]), V.in[i] ? " is part of the route but does not lead back to it" : " beside the route is not part of it");
        c.event(road.size() > path.size() ? "plain-road:beside" : "plain-road");
      } else
        c.event("branching-road");
    }
    // relations
    for (size_t i : V.on) {
      auto l = V.L(i);
      V.same("following", i, rt.following(l), V.set(i, RelationType::Successor));
      V.same("previous", i, rt.previous(l), V.set(i, RelationType::Successor, false));
      V.same("conflictingInRoute", i, rt.conflictingInRoute(l), V.set(i, RelationType::Conflicting));
      {
        std::multiset<uint64_t> want, got = codes(rt.conflictingInMap(l));
        for (size_t j = 0; j < n; ++j)
          if (j != i && all[i][j] == RelationType::Conflicting) want.insert(code(w.v[j]));
        c.check(want == got, "conflictingInMap", V.ctx, ": conflictingInMap of ", name(l), " is ", names(rt.conflictingInMap(l)), ", expected ", want.size(), " elements");
      }
      for (bool out : {true, false}) {
        auto rr = out ? rt.followingRelations(l) : rt.previousRelations(l);
        ConstLanelets ls;
        for (auto& x : rr) {
          ls.push_back(x.lanelet);
          c.check(x.relationType == RelationType::Successor, "route:relation-type", V.ctx, ": following/previous relation of ", name(l), " is ", rel(x.relationType));
        }
        c.check(ls == (out ? rt.following(l) : rt.previous(l)), "route:relations", V.ctx, ": following/previousRelations of ", name(l), " differ from following/previous");
      }
      for (bool left : {true, false}) {
        auto m = left ? RelationType::Left | RelationType::AdjacentLeft : RelationType::Right | RelationType::AdjacentRight;
        auto cand = V.set(i, m);
        auto one = left ? rt.leftRelation(l) : rt.rightRelation(l);
        c.check(!!one == !cand.empty(), "route:side", V.ctx, ": ", left ? "left" : "right", "Relation of ", name(l), " is ", one ? name(one->lanelet) : "nothing", ", expected ", cand.size());
        if (one) {
          c.check(cand.count(code(one->lanelet)) && V.rel[i][w.at(one->lanelet)] == one->relationType, "route:side", V.ctx, ": ", left ? "left" : "right", "Relation of ", name(l), " is ", name(one->lanelet), " ",
                  rel(one->relationType));
          c.event("route-rel:" + rel(one->relationType));
        }
        auto chain = left ? rt.leftRelations(l) : rt.rightRelations(l);
        ConstLanelet cur = l;
        for (auto& x : chain) {
          auto nb = left ? rt.leftRelation(cur) : rt.rightRelation(cur);
          c.check(nb && nb->lanelet == x.lanelet && nb->relationType == x.relationType, "route:sides", V.ctx, ": ", left ? "left" : "right", "Relations of ", name(l), " has ", name(x.lanelet), " after ", name(cur));
          cur = x.lanelet;
        }
        c.check(!(left ? rt.leftRelation(cur) : rt.rightRelation(cur)), "route:sides-end", V.ctx, ": neighbours of ", name(l), " end early at ", name(cur));
        if (chain.size() > 1) c.event("route-sides2");
      }
    }
    // lanes
    auto out = [&](size_t i, bool fwd) {
      std::vector<size_t> s;
      for (size_t j : V.on)
        if ((fwd ? V.rel[i][j] : V.rel[j][i]) == RelationType::Successor) s.push_back(j);
      return s;
    };
    auto nextInLane = [&](size_t i) -> Optional<size_t> {
      auto o = out(i, true);
      if (o.size() != 1 || out(o[0], false).size() != 1) return {};
      return o[0];
    };
    auto prevInLane = [&](size_t i) -> Optional<size_t> {
      auto o = out(i, false);
      if (o.size() != 1 || out(o[0], true).size() != 1) return {};
      return o[0];
    };
    std::set<std::vector<size_t>> lanes;
    for (size_t i : V.on) {
      std::vector<size_t> rest{i};
      for (auto k = nextInLane(i); k && *k != i; k = nextInLane(*k)) rest.push_back(*k);
      size_t b = i;
      for (auto k = prevInLane(i); k; k = prevInLane(*k)) {
        b = *k;
        if (b == i) break;
      }
      std::vector<size_t> lane{b};
      for (auto k = nextInLane(b); k && *k != b; k = nextInLane(*k)) lane.push_back(*k);
      auto gotRest = rt.remainingLane(V.L(i)), gotLane = rt.fullLane(V.L(i));
      c.check(gotRest == LaneletSequence(asList(rest)), "route:remaining-lane", V.ctx, ": remaining lane of ", name(w.v[i]), " is ", names(gotRest), ", expected ", names(asList(rest)));
      c.check(gotLane == LaneletSequence(asList(lane)), "route:full-lane", V.ctx, ": lane of ", name(w.v[i]), " is ", names(gotLane), ", expected ", names(asList(lane)));
      std::sort(lane.begin(), lane.end());
      lanes.insert(lane);
      if (rest.size() > 2) c.event("lane>2");
    }
    c.check(rt.numLanes() == lanes.size(), "route:lanes", V.ctx, ": number of lanes is ", rt.numLanes(), ", expected ", lanes.size());
    if (lanes.size() > 2) c.event("lanes>2");
    // conflicts of the whole route
    {
      std::multiset<uint64_t> want, got = codes(rt.allConflictingInMap());
      for (size_t i : V.on)
        for (size_t j = 0; j < n; ++j)
          if (j != i && all[i][j] == RelationType::Conflicting) want.insert(code(w.v[j]));
      c.check(std::set<uint64_t>(want.begin(), want.end()) == std::set<uint64_t>(got.begin(), got.end()), "allConflictingInMap", V.ctx, ": allConflictingInMap has ", got.size(), " entries, expected ", want.size());
    }
    // remaining path
    double len = 0;
    for (size_t i : path) len += geometry::length2d(V.L(i));
    c.check(c.close(rt.length2d(), len, 1e-9 * std::max(1., len)), "route:length", V.ctx, ": length is ", rt.length2d(), ", expected ", len);
    for (size_t i = 0; i < n; ++i) {
      if (!w.v[i].isLanelet()) continue;
      std::vector<size_t> want;
      auto it = std::find(path.begin(), path.end(), i);
      if (it != path.end()) {
        want.assign(it, path.end());
      }
      if (circular && it != path.end()) {  // starts at it, goes all around and ends before it
        want.assign(it, path.end() - 1);
        want.insert(want.end(), path.begin(), it);
      }
      auto got = rt.remainingShortestPath(V.L(i));
      c.check(ConstLanelets(got.begin(), got.end()) == asList(want), "route:remaining-path", V.ctx, ": remaining path at ", name(w.v[i]), " is ", names(got), ", expected ", names(asList(want)));
      // the part of the path without lane change
      std::vector<size_t> straight;
      for (auto k = it; k != path.end(); ++k) {
        straight.push_back(*k);
        if (k + 1 != path.end() && !RWorld::continues(V.L(*k), V.L(*(k + 1)))) break;
      }
      auto sl = rt.shortestPath().getRemainingLane(V.L(i));
      c.check(sl == LaneletSequence(asList(straight)), "path:remaining-lane", V.ctx, ": remaining lane of the path at ", name(w.v[i]), " is ", names(sl), ", expected ", names(asList(straight)));
    }
    // search inside the route
    for (int q = 0; q < 3; ++q) {
      size_t s = V.on[r.idx(V.on.size())];
      bool back = r.p(.5);
      std::vector<double> dist(n, std::numeric_limits<double>::infinity());
      std::vector<char> done(n, 0);
      dist[s] = 0;
      while (true) {
        size_t b = n;
        for (size_t i : V.on)
          if (!done[i] && std::isfinite(dist[i]) && (b == n || dist[i] < dist[b])) b = i;
        if (b == n) break;
        done[b] = 1;
        for (size_t j : V.on) {
          auto x = back ? V.rel[j][b] : V.rel[b][j];
          if (j != b && is(x, kDrive)) dist[j] = std::min(dist[j], dist[b] + (back ? V.cost[j][b] : V.cost[b][j]));
        }
      }
      std::map<uint64_t, LaneletVisitInformation> got;
      double last = 0;
      auto visit = [&](const LaneletVisitInformation& x) {
        c.check(w.has(x.lanelet) && V.in[w.at(x.lanelet)] && !got.count(code(x.lanelet)), "route:visit", V.ctx, ": visits ", name(x.lanelet), " twice or outside of the route");
        size_t i = w.at(x.lanelet), p = w.at(x.predecessor);
        c.check(c.close(x.cost, dist[i], 1e-9 * std::max(1., dist[i])), "route:visit-cost", V.ctx, ": visits ", name(x.lanelet), " from ", name(w.v[s]), " at cost ", x.cost, ", expected ", dist[i]);
        c.check(x.cost >= last - 1e-9 * std::max(1., last), "route:visit-order", V.ctx, ": visits ", name(x.lanelet), " at cost ", x.cost, " after ", last);
        if (i != s) {
          auto pr = got.find(code(x.predecessor));
          auto e = back ? V.rel[i][p] : V.rel[p][i];
          c.check(pr != got.end() && is(e, kDrive) && x.length == pr->second.length + 1 && x.numLaneChanges == pr->second.numLaneChanges + (e != RelationType::Successor), "route:visit-pred", V.ctx,
                  ": visit of ", name(x.lanelet), " from ", name(x.predecessor), " does not continue the path");
        }
        last = x.cost;
        got.emplace(code(x.lanelet), x);
        return true;
      };
      if (back)
        rt.forEachPredecessor(V.L(s), visit);
      else
        rt.forEachSuccessor(V.L(s), visit);
      size_t want = 0;
      for (size_t i : V.on) want += std::isfinite(dist[i]);
      c.check(got.size() == want, "route:visits", V.ctx, ": visits ", got.size(), " lanelets from ", name(w.v[s]), ", expected ", want);
      c.event(back ? "route-search:backward" : "route-search:forward");
    }
    // other lanelets
    ConstLanelets others;
    for (size_t i = 0; i < n; ++i)
      if (w.v[i].isLanelet() && !V.in[i]) others.push_back(V.L(i));
    others.push_back(*foreign(w, r).lanelet());
    for (auto& x : others) {
      bool none = !rt.contains(x) && rt.following(x).empty() && rt.previous(x).empty() && rt.followingRelations(x).empty() && rt.previousRelations(x).empty() && !rt.leftRelation(x) &&
                  !rt.rightRelation(x) && rt.leftRelations(x).empty() && rt.rightRelations(x).empty() && rt.conflictingInRoute(x).empty() && rt.conflictingInMap(x).empty() &&
                  rt.remainingLane(x).empty() && rt.fullLane(x).empty() && rt.remainingShortestPath(x).empty();
      c.check(none, "route:foreign", V.ctx, ": queries about ", name(x), " which is not part of the route return something");
      auto never = [&](const LaneletVisitInformation&) -> bool {
        none = false;
        return true;
      };
      rt.forEachSuccessor(x, never);
      rt.forEachPredecessor(x, never);
      c.check(none, "route:foreign-visit", V.ctx, ": search from ", name(x), " which is not part of the route visits something");
    }
    if (r.p(.3)) {  // one point per lanelet, one line per related pair
      auto dm = rt.getDebugLaneletMap();
      std::set<Id> ids, pts;
      std::map<std::pair<Id, Id>, int> pairs;
      for (size_t i : V.on) {
        ids.insert(w.v[i].id());
        for (size_t j : V.on)
          if (V.rel[i][j] != RelationType::None) ++pairs[std::minmax(w.v[i].id(), w.v[j].id())];
      }
      for (auto p : dm->pointLayer) {
        auto at = p.attributes().find("id");
        c.check(at != p.attributes().end() && at->second.asId() && *at->second.asId() == p.id(), "route:debug-point", V.ctx, ": point ", p.id(), " of the debug map does not name its lanelet");
        pts.insert(p.id());
        bool on = std::any_of(path.begin(), path.end(), [&](size_t i) { return w.v[i].id() == p.id(); });
        c.check(p.attributeOr("shortest_path", false) == on, "route:debug-path", V.ctx, ": point ", p.id(), " of the debug map on the shortest path: ", !on);
      }
      for (auto& a : lanes)
        for (auto& b : lanes) {
          auto tag = [&](size_t i) { return dm->pointLayer.get(w.v[i].id()).attribute("lane_id").value(); };
          auto both = [&](size_t i) { return w.has(Elem(V.L(i).invert())) && V.in[w.at(Elem(V.L(i).invert()))]; };
          for (size_t i : a)
            if (!both(i) && !both(b[0])) c.check((tag(i) == tag(b[0])) == (a == b), "route:lane-id", V.ctx, ": lane ids of ", name(w.v[i]), " and ", name(w.v[b[0]]), " are ", tag(i), " and ", tag(b[0]));
        }
      c.check(pts == ids, "route:debug-points", V.ctx, ": debug map has ", pts.size(), " points for ", ids.size(), " lanelets");
      size_t lines = 0;
      for (auto l : dm->lineStringLayer) {
        ++lines;
        auto it = pairs.find(std::minmax(l.front().id(), l.back().id()));
        int cnt = 0;
        for (auto& a : l.attributes())
          if (a.first.compare(0, 9, "relation_") == 0) ++cnt;
        c.check(it != pairs.end() && cnt == it->second, "route:debug-line", V.ctx, ": debug map has ", cnt, " relations between ", l.front().id(), " and ", l.back().id(), ", expected ", it == pairs.end() ? 0 : it->second);
      }
      c.check(lines == pairs.size(), "route:debug-lines", V.ctx, ": debug map has ", lines, " lines, expected ", pairs.size());
      c.event("debug-map");
    }
    // its own opinion
    auto err = rt.checkValidity();
    c.check(err.empty(), "route:validity", V.ctx, ": ", err.empty() ? "" : err.front());
    try {
      rt.checkValidity(true);
    } catch (RoutingGraphError& e) {
      c.check(false, "route:validity", V.ctx, ": ", e.what());
    }
  }

  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    auto o = searchWorld(r);
    if (r.p(.6)) {  // motorways
      o.whos = {"vehicle", "vehicle:car"};
      o.net.plain = "highway";
      o.net.pPlain = r.pick({.8, 1.});
      o.net.minLanes = int(r.i(1, 3));
      o.net.maxLanes = int(r.i(2, 4));
      o.net.pDashed = r.pick({.5, .8, .95});
      o.net.pFull = r.pick({.5, .8, 1.});
      o.net.pOpposite = r.pick({0., 0., .05});
      o.net.crosswalks = 0;
      o.pStrict = .1;
      o.pInf = .03;
    }
    w.build(o);
    if (!usable(c, w)) return;
    observe(c, w);
    if (c.verbose) std::cerr << dump(w) << std::endl;
    auto& g = *w.graph;
    std::vector<size_t> lls;
    for (size_t i = 0; i < w.v.size(); ++i)
      if (w.v[i].isLanelet()) lls.push_back(i);
    if (lls.empty()) return;
    for (int q = 0; q < 5; ++q) {
      Filter f;
      f.cost = r.idx(w.costs.size());
      f.changes = r.p(.7);
      SearchModel m(w, f);
      auto id = RoutingCostId(f.cost);
      std::vector<size_t> stops{lls[r.idx(lls.size())]};
      for (int k = 0; k < 5 && m.adj[stops[0]].empty(); ++k) stops[0] = lls[r.idx(lls.size())];
      bool round = r.p(.2), via = round || r.p(.3);
      auto go = [&](size_t from) {
        auto ref = m.run(from, [](auto...) { return true; });
        std::vector<size_t> t, far;
        for (size_t j : lls)
          if (ref.reached(j)) {
            t.push_back(j);
            if (ref.s[j].length > 3) far.push_back(j);
          }
        auto& pool = !far.empty() && r.p(.7) ? far : t;
        return pool[r.idx(pool.size())];
      };
      int hops = via ? int(r.i(1, 3)) : 0;
      for (int k = 0; k < hops; ++k) stops.push_back(go(stops.back()));
      stops.push_back(round ? stops.front() : r.p(.1) ? lls[r.idx(lls.size())] : go(stops.back()));
      auto L = [&](size_t i) { return *w.v[i].lanelet(); };
      ConstLanelets mid;
      for (size_t k = 1; k + 1 < stops.size(); ++k) mid.push_back(L(stops[k]));
      auto rt = via ? g.getRouteVia(L(stops.front()), mid, L(stops.back()), id, f.changes) : g.getRoute(L(stops.front()), L(stops.back()), id, f.changes);
      auto p = via ? g.shortestPathVia(L(stops.front()), mid, L(stops.back()), id, f.changes) : g.shortestPath(L(stops.front()), L(stops.back()), id, f.changes);
      std::string ctx = std::string("route ") + std::to_string(f.cost) + (f.changes ? " with" : " without") + " changes, stops";
      for (size_t k : stops) ctx += " " + name(w.v[k]);
      c.check(!!rt == !!p, "route:exists", ctx, ": route ", rt ? "found" : "not found", ", path ", p ? "found" : "not found");
      if (!rt) {
        c.event("no-route");
        continue;
      }
      c.check(rt->shortestPath() == *p, "route:path", ctx, ": path of the route is ", names(rt->shortestPath()), ", expected ", names(*p));
      std::vector<size_t> path;
      for (auto& l : *p) path.push_back(w.at(l));
      ctx += " path " + names(*p);
      c.event(via ? "route:via" : "route:direct");
      if (path.size() > 1 && path.front() == path.back()) c.event("route:circular");
      if (path.size() == 1) c.event("route:single");
      View V{c, w, *rt, f.cost, f.changes, ctx, {}, {}, {}, {}};
      verify(V, path);
    }
    if (c.wantSample()) c.sample(dump(w));
  }
};
VF_HARNESS(R04, "R04");
}  // namespace
