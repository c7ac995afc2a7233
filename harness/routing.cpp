// R01 relations of the routing graph, R02 shortest paths, R03 reachability and path enumeration
#include "rsearch.h"
#include <lanelet2_routing/Exceptions.h>

namespace {
using namespace vf;
using namespace gen;
using namespace rm;

template <typename E, typename F>
bool throws(F f) {
  try {
    f();
  } catch (E&) {
    return true;
  }
  return false;
}

struct R01 : Harness {
  uint64_t numCases(bool t) override { return t ? 40000 : 2500; }
  std::string rule() override {
    return "random road networks (forks, merges, parallel/opposite/duplicate lanes, bridges, crosswalks, areas, tags) x participant x additional rule restrictions x 1-3 cost modules x "
           "participant height x map/submap; every ordered pair of elements is compared against relations derived pairwise from geometry and rules; non-trivial = network has at least 10 "
           "related pairs";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    RWorld::Opt o;
    o.net.cols = int(r.i(3, 6));
    o.net.rows = int(r.i(1, 3));
    o.net.maxLanes = int(r.i(1, 4));
    o.net.pPlain = r.pick({.3, .6, .9});
    o.net.pDuplicate = r.p(.8) ? .0 : .06;
    o.net.pFan = .12;
    w.build(o);
    observe(c, w);
    if (c.verbose) std::cerr << dump(w) << std::endl;
    auto& g = *w.graph;
    size_t n = w.v.size(), related = 0;
    // the passable map
    {
      std::multiset<uint64_t> want, got;
      for (auto& e : w.v)
        if (!e.isLanelet() || !e.lanelet()->inverted()) want.insert(code(e));
      auto sm = g.passableSubmap();
      for (auto l : sm->laneletLayer) got.insert(code(ConstLanelet(l)));
      for (auto a : sm->areaLayer) got.insert(code(ConstArea(a)));
      c.check(want == got, "passable-map", "passable submap has ", got.size(), " elements, expected ", want.size());
    }
    auto L = [&](size_t i) { return *w.v[i].lanelet(); };
    size_t nc = w.costs.size();
    std::vector<std::vector<std::vector<RelationType>>> exp(nc, std::vector<std::vector<RelationType>>(n, std::vector<RelationType>(n)));
    std::vector<std::vector<std::vector<double>>> cost(nc, std::vector<std::vector<double>>(n, std::vector<double>(n, 0)));
    std::vector<std::vector<char>> sure(n, std::vector<char>(n, 1));
    for (size_t k = 0; k < nc; ++k)
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
          if (i != j) {
            exp[k][i][j] = w.relFor(k, i, j, cost[k][i][j]);
            if (std::isnan(cost[k][i][j])) sure[i][j] = 0;
            if (w.unsure[i][j]) sure[i][j] = 0;
            if (exp[k][i][j] != RelationType::None) ++related;
          }
    if (related < 10) c.event("trivial");
    // queries about one element; `filter` tells which expected relations count
    auto compare = [&](const char* what, size_t i, const std::multiset<uint64_t>& got, auto filter, bool outgoing) {
      for (size_t j = 0; j < n; ++j) {
        if (i == j) continue;
        size_t a = outgoing ? i : j, b = outgoing ? j : i;
        size_t cnt = got.count(code(w.v[j]));
        if (!sure[a][b]) {
          c.event("ambiguous-pair");
          continue;
        }
        bool want = filter(a, b);
        c.check(cnt == size_t(want), (std::string(what) + (want ? ":missing" : ":extra")).c_str(), what, " of ", name(w.v[i]), " contains ", name(w.v[j]), " ", cnt,
                " times, expected ", want, " (relation ", routing::relationToString(w.rel[a][b]), ")");
      }
      for (auto x : got) c.check(w.index.count(x) && x != code(w.v[i]), (std::string(what) + ":foreign").c_str(), what, " of ", name(w.v[i]), " contains foreign element code ", x);
    };
    for (size_t i = 0; i < n; ++i) {
      auto& e = w.v[i];
      auto is = [&](size_t k, RelationType t) { return [&exp, k, t](size_t a, size_t b) { return bool(exp[k][a][b] & t); }; };
      compare("conflicting", i, codes(g.conflicting(e)), is(0, RelationType::Conflicting), true);
      if (!e.isLanelet()) continue;
      auto l = L(i);
      auto LR = RelationType::Left | RelationType::Right | RelationType::Successor;
      compare("following", i, codes(g.following(l)), is(0, RelationType::Successor), true);
      compare("following-with-changes", i, codes(g.following(l, true)), is(0, LR), true);
      compare("previous", i, codes(g.previous(l)), is(0, RelationType::Successor), false);
      compare("previous-with-changes", i, codes(g.previous(l, true)), is(0, LR), false);
      for (bool ch : {false, true}) {
        for (bool fw : {false, true}) {
          auto base = fw ? g.following(l, ch) : g.previous(l, ch);
          auto rr = fw ? g.followingRelations(l, ch) : g.previousRelations(l, ch);
          c.check(rr.size() == base.size(), "relations-size", "followingRelations/previousRelations of ", name(l), " has ", rr.size(), " entries, not ", base.size());
          for (size_t q = 0; q < rr.size(); ++q) {
            c.check(rr[q].lanelet == base[q], "relations-order", "relations list differs from lanelet list at ", name(l));
            size_t a = fw ? i : w.at(rr[q].lanelet), b = fw ? w.at(rr[q].lanelet) : i;
            if (sure[a][b]) c.check(rr[q].relationType == exp[0][a][b], "relations-type", name(w.v[a]), "->", name(w.v[b]), " is ", routing::relationToString(rr[q].relationType), " not ", routing::relationToString(exp[0][a][b]));
          }
        }
      }
      for (size_t k = 0; k < nc; ++k) {
        auto id = RoutingCostId(k);
        struct Q {
          const char* n;
          RelationType t;
          Optional<ConstLanelet> got;
          ConstLanelets all;
        };
        std::vector<Q> qs{{"left", RelationType::Left, g.left(l, id), g.lefts(l, id)},
                          {"right", RelationType::Right, g.right(l, id), g.rights(l, id)},
                          {"adjacentLeft", RelationType::AdjacentLeft, g.adjacentLeft(l, id), g.adjacentLefts(l, id)},
                          {"adjacentRight", RelationType::AdjacentRight, g.adjacentRight(l, id), g.adjacentRights(l, id)}};
        for (auto& q : qs) {
          std::vector<size_t> cand;
          bool unclear = false;
          for (size_t j = 0; j < n; ++j)
            if (j != i && exp[k][i][j] == q.t) {
              cand.push_back(j);
              if (!sure[i][j]) unclear = true;
            } else if (j != i && w.unsure[i][j] == 2) {
              unclear = true;
            }
          if (q.got) {
            size_t j = w.at(*q.got);
            if (sure[i][j]) c.check(exp[k][i][j] == q.t, (std::string(q.n) + ":wrong").c_str(), q.n, " of ", name(l), " is ", name(*q.got), " for cost ", k, " but their relation is ", routing::relationToString(exp[k][i][j]));
          } else if (!unclear) {
            c.check(cand.empty(), (std::string(q.n) + ":missing").c_str(), q.n, " of ", name(l), " is nothing for cost ", k, ", expected ", cand.empty() ? "" : name(w.v[cand[0]]));
          }
          // the whole chain
          Optional<ConstLanelet> cur = q.got;
          ConstLanelets chain;
          while (cur && *cur != l && std::find(chain.begin(), chain.end(), *cur) == chain.end()) {
            chain.push_back(*cur);
            cur = q.t == RelationType::Left            ? g.left(*cur, id)
                  : q.t == RelationType::Right         ? g.right(*cur, id)
                  : q.t == RelationType::AdjacentLeft ? g.adjacentLeft(*cur, id)
                                                       : g.adjacentRight(*cur, id);
          }
          if (cur) c.event("chain:closed");
          c.check(chain == q.all, (std::string(q.n) + "s:chain").c_str(), q.n, "s of ", name(l), " is ", names(q.all), " not ", names(chain));
          if (!q.all.empty()) c.event(std::string("chain:") + q.n);
          if (q.all.size() > 1) c.event(std::string("chain2:") + q.n);
        }
        // besides: from left to right
        ConstLanelets bes(qs[0].all.rbegin(), qs[0].all.rend());
        bes.push_back(l);
        for (auto& x : qs[1].all)
          if (std::find(bes.begin(), bes.end(), x) == bes.end()) bes.push_back(x);
        c.check(g.besides(l, id) == bes, "besides", "besides of ", name(l), " is ", names(g.besides(l, id)), " not ", names(bes));
        // mixed neighbours to each side
        for (bool left : {true, false}) {
          auto got = left ? g.leftRelations(l, id) : g.rightRelations(l, id);
          // a lanelet with both kinds of neighbour can be walked either way
          ConstLanelet cur = l;
          auto near = [&](bool change) {
            return left ? (change ? g.left(cur, id) : g.adjacentLeft(cur, id)) : (change ? g.right(cur, id) : g.adjacentRight(cur, id));
          };
          for (auto& x : got) {
            bool ch = x.relationType == RelationType::Left || x.relationType == RelationType::Right;
            bool mine = x.relationType == RelationType::Left || x.relationType == RelationType::AdjacentLeft;
            auto nb = near(ch);
            c.check(mine == left && nb && *nb == x.lanelet, "side-relations", left ? "left" : "right", "Relations of ", name(l), " goes from ", name(cur), " to ", name(x.lanelet), " by ",
                    routing::relationToString(x.relationType));
            cur = x.lanelet;
          }
          auto open = [&](const Optional<ConstLanelet>& x) {
            return x && *x != l && std::none_of(got.begin(), got.end(), [&](auto& y) { return y.lanelet == *x; });
          };
          bool closed = (near(true) && !open(near(true))) || (near(false) && !open(near(false)));
          c.check((!open(near(true)) && !open(near(false))) || closed, "side-relations:end", left ? "left" : "right", "Relations of ", name(l), " ends early at ", name(cur));
          if (got.size() > 1) c.event("side-relations2");
        }
      }
    }
    // relation of each pair
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) {
        if (!w.v[i].isLanelet() || !w.v[j].isLanelet() || i == j || !sure[i][j]) continue;
        auto a = g.routingRelation(L(i), L(j)), b = g.routingRelation(L(i), L(j), true);
        auto x = exp[0][i][j];
        bool conf = x == RelationType::Conflicting;
        auto str = [](const Optional<RelationType>& t) { return t ? routing::relationToString(*t) : std::string("nothing"); };
        if (x == RelationType::None || conf)
          c.check(!a, "routingRelation:conflicting", "routingRelation(", name(w.v[i]), ",", name(w.v[j]), ") is ", str(a), ", expected nothing");
        else
          c.check(a && *a == x, "routingRelation", "routingRelation(", name(w.v[i]), ",", name(w.v[j]), ") is ", str(a), ", expected ", routing::relationToString(x));
        bool ok = x == RelationType::None ? true : b && *b == x;
        if (!ok && b)
          for (size_t k = 1; k < nc; ++k) ok = ok || exp[k][i][j] == *b;
        if (x == RelationType::None && b) {
          ok = false;
          for (size_t k = 1; k < nc; ++k) ok = ok || exp[k][i][j] == *b;
        }
        c.check(ok, "routingRelation:all", "routingRelation(", name(w.v[i]), ",", name(w.v[j]), ",true) is ", str(b), ", expected ", routing::relationToString(x));
      }
    // steps and their costs, for every cost module
    for (size_t k = 0; k < nc; ++k)
      for (size_t i = 0; i < n; ++i) {
        std::map<uint64_t, double> got;
        bool first = true;
        g.forEachSuccessorIncludingAreas(
            w.v[i],
            [&](const routing::LaneletOrAreaVisitInformation& x) {
              if (first) {
                first = false;
                return true;
              }
              got[code(x.laneletOrArea)] = x.cost;
              return false;
            },
            true, RoutingCostId(k));
        for (size_t j = 0; j < n; ++j) {
          if (i == j || !sure[i][j]) continue;
          auto x = exp[k][i][j];
          bool step = x == RelationType::Successor || x == RelationType::Left || x == RelationType::Right || x == RelationType::Area;
          auto it = got.find(code(w.v[j]));
          c.check((it != got.end()) == step, step ? "step:missing" : "step:extra", "step ", name(w.v[i]), "->", name(w.v[j]), " for cost ", k, " exists: ", it != got.end(), ", relation is ",
                  routing::relationToString(x), " (", routing::relationToString(w.rel[i][j]), ")");
          if (step) c.check(c.close(it->second, cost[k][i][j], 1e-9 * std::max(1., cost[k][i][j])), "step:cost", "step ", name(w.v[i]), "->", name(w.v[j]), " costs ", it->second, " for cost ", k, ", expected ", cost[k][i][j]);
          if (step) c.event("step-cost");
          if (w.change(i, j)) c.event(step ? "lane-change" : "lane-change-too-short");
        }
      }
    if (r.p(.15)) badCosts(c, w, sure);
    if (c.wantSample()) c.sample(dump(w));
    // a graph that moves keeps its relations
    if (r.p(.1) && n) {
      std::vector<std::multiset<uint64_t>> before;
      auto all = [&](const RoutingGraph& x, size_t i) {
        auto s = codes(x.conflicting(w.v[i]));
        if (w.v[i].isLanelet())
          for (auto& o : x.besides(L(i))) s.insert(code(o));
        for (auto& o : x.followingRelations(w.v[i].isLanelet() ? L(i) : ConstLanelet())) s.insert(code(o.lanelet) + uint64_t(o.relationType));
        return s;
      };
      for (size_t i = 0; i < n; ++i) before.push_back(all(g, i));
      RoutingGraph moved(std::move(*w.graph));
      for (size_t i = 0; i < n; ++i) c.check(all(moved, i) == before[i], "moved", "a graph that was moved answers differently for ", name(w.v[i]));
      *w.graph = std::move(moved);
      for (size_t i = 0; i < n; ++i) c.check(all(*w.graph, i) == before[i], "moved", "a graph that was assigned answers differently for ", name(w.v[i]));
      c.event("moved-graph");
    }
  }
  // costs that are not allowed are reported, not used
  struct BadCost : routing::RoutingCost {
    const RWorld* w{};
    Elem from{ConstLanelet()}, to{ConstLanelet()};
    double bad{-1};
    mutable bool asked{false};
    double getCostSucceeding(const traffic_rules::TrafficRules&, const Elem& f, const Elem& t) const override {
      bool hit = f == from && t == to;
      asked = asked || hit;
      return hit ? bad : 1;
    }
    double getCostLaneChange(const traffic_rules::TrafficRules&, const ConstLanelets& f, const ConstLanelets& t) const override {
      bool hit = false;
      for (size_t i = 0; i < f.size() && i < t.size(); ++i) hit = hit || (Elem(f[i]) == from && Elem(t[i]) == to);
      asked = asked || hit;
      return hit ? bad : 1;
    }
  };
  void badCosts(Ctx& c, RWorld& w, const std::vector<std::vector<char>>& sure) {
    auto& r = c.rng;
    size_t n = w.v.size();
    std::vector<std::pair<size_t, size_t>> steps;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (i != j && sure[i][j] && (w.rel[i][j] == RelationType::Successor || w.rel[i][j] == RelationType::Area || w.rel[i][j] == RelationType::Left || w.rel[i][j] == RelationType::Right)) steps.push_back({i, j});
    auto neg = r.pick({-1., -1e-12, -1e9});
    c.check(throws<InvalidInputError>([&] { routing::RoutingCostDistance x(neg, r.d(0, 3)); }) && throws<InvalidInputError>([&] { routing::RoutingCostTravelTime x(neg, r.d(0, 3)); }), "cost:negative-change",
            "a cost module accepts the lane change cost ", neg);
    if (steps.empty()) return;
    auto s = steps[r.idx(steps.size())];
    auto m = std::make_shared<BadCost>();
    m->from = w.v[s.first];
    m->to = w.v[s.second];
    bool ok = r.p(.25);
    m->bad = ok ? r.pick({0., -0., 1e-300, 1e300}) : neg;
    routing::RoutingCostPtrs mods;
    for (auto& k : w.costs) mods.push_back(k.mod);
    mods.insert(mods.begin() + long(r.idx(mods.size() + 1)), m);
    bool threw = throws<RoutingGraphError>([&] { w.submap ? RoutingGraph::build(*w.submap, *w.rules, mods) : RoutingGraph::build(*w.net.map, *w.rules, mods); });
    if (!threw) c.event(m->asked ? "odd-cost-accepted" : "odd-cost-not-asked");
    c.check(ok ? !threw : threw, "cost:negative", "cost ", m->bad, " of the step ", name(m->from), "->", name(m->to), " (", routing::relationToString(w.rel[s.first][s.second]), ") is ", threw ? "refused" : "accepted");
    if (threw) c.event("negative-cost-refused");
  }
};
VF_HARNESS(R01, "R01");

struct R02 : Harness {
  uint64_t numCases(bool t) override { return t ? 40000 : 2500; }
  std::string rule() override {
    return "random networks as in R01 without ambiguous relations x cost modules (distance, time, drawn: generic, tied, zero, unit, huge spread, forbidden steps); for random start/destination/via "
           "choices the returned path is compared with the optimum of a reference search on the independent model; distinct = networks";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    w.build(searchWorld(r));
    if (!usable(c, w)) return;
    observe(c, w);
    if (c.verbose) std::cerr << dump(w) << std::endl;
    auto& g = *w.graph;
    std::vector<size_t> lls;
    for (size_t i = 0; i < w.v.size(); ++i)
      if (w.v[i].isLanelet()) lls.push_back(i);
    for (int q = 0; q < 6; ++q) {
      Filter f;
      f.cost = r.idx(w.costs.size());
      f.changes = r.p(.6);
      f.areas = r.p(.4) || lls.empty();
      SearchModel m(w, f);
      auto id = RoutingCostId(f.cost);
      auto any = [&] { return f.areas ? r.idx(w.v.size()) : lls[r.idx(lls.size())]; };
      // Checks the path between the stops. Legs are cheapest paths.
      auto verify = [&](const char* what, const std::vector<size_t>& stops, bool found, const std::vector<Elem>& path) {
        double want = 0;
        bool possible = true;
        for (size_t k = 0; k + 1 < stops.size() && possible; ++k) {
          auto ref = m.run(stops[k], [](auto...) { return true; });
          possible = ref.reached(stops[k + 1]);
          want += ref.s[stops[k + 1]].cost;
        }
        std::string ctx = std::string(what) + " " + std::to_string(f.cost) + (f.changes ? " with" : " without") + " changes, stops";
        for (size_t k : stops) ctx += " " + name(w.v[k]);
        c.check(found == possible, possible ? "path:missing" : "path:impossible", ctx, ": path ", found ? "found" : "not found", " ", names(path));
        c.event(possible ? "path" : "no-path");
        if (!possible) return;
        c.check(!path.empty() && path.front() == w.v[stops.front()] && path.back() == w.v[stops.back()], "path:ends", ctx, ": path is ", names(path));
        double got = 0;
        size_t at = 1;
        for (size_t k = 0; k < path.size(); ++k) {
          c.check(w.has(path[k]), "path:foreign", ctx, ": path is ", names(path));
          if (k) {
            auto e = m.edge(w.at(path[k - 1]), w.at(path[k]));
            c.check(e, "path:step", ctx, ": no step from ", name(path[k - 1]), " to ", name(path[k]), " in ", names(path));
            got += e->cost;
            c.event("step:" + routing::relationToString(e->rel));
          }
          while (at < stops.size() && path[k] == w.v[stops[at]]) ++at;
        }
        c.check(at == stops.size(), "path:via", ctx, ": path misses a stop: ", names(path));
        c.check(c.close(got, want, 1e-9 * std::max(1., want)), "path:optimal", ctx, ": path costs ", got, " but the cheapest costs ", want, ": ", names(path));
        if (stops.size() == 2) {
          std::set<uint64_t> u;
          for (auto& x : path) u.insert(code(x));
          c.check(u.size() == path.size(), "path:repeats", ctx, ": path visits an element twice: ", names(path));
        }
        if (path.size() > 5) c.event("path>5");
      };
      std::vector<size_t> stops{any(), any()};
      if (r.p(.4)) {
        int nv = int(r.i(0, 3));
        for (int k = 0; k < nv; ++k) stops.push_back(any());
        if (r.p(.5)) {  // stops that can be reached one after the other
          for (size_t k = 1; k < stops.size(); ++k) {
            auto ref = m.run(stops[k - 1], [](auto...) { return true; });
            std::vector<size_t> t;
            for (size_t j = 0; j < w.v.size(); ++j)
              if (ref.reached(j)) t.push_back(j);
            stops[k] = t[r.idx(t.size())];
          }
        }
        std::vector<size_t> mid(stops.begin() + 1, stops.end() - 1);
        if (f.areas) {
          ConstLaneletOrAreas via;
          for (size_t k : mid) via.push_back(w.v[k]);
          auto p = g.shortestPathIncludingAreasVia(w.v[stops.front()], via, w.v[stops.back()], id, f.changes);
          verify("areas+via", stops, !!p, p ? std::vector<Elem>(p->begin(), p->end()) : std::vector<Elem>());
        } else {
          ConstLanelets via;
          for (size_t k : mid) via.push_back(*w.v[k].lanelet());
          auto p = g.shortestPathVia(*w.v[stops.front()].lanelet(), via, *w.v[stops.back()].lanelet(), id, f.changes);
          verify("via", stops, !!p, p ? std::vector<Elem>(p->begin(), p->end()) : std::vector<Elem>());
        }
      } else if (f.areas) {
        auto p = g.shortestPathIncludingAreas(w.v[stops[0]], w.v[stops[1]], id, f.changes);
        verify("areas", stops, !!p, p ? std::vector<Elem>(p->begin(), p->end()) : std::vector<Elem>());
      } else {
        auto p = g.shortestPath(*w.v[stops[0]].lanelet(), *w.v[stops[1]].lanelet(), id, f.changes);
        verify("lanelets", stops, !!p, p ? std::vector<Elem>(p->begin(), p->end()) : std::vector<Elem>());
      }
    }
    // all destinations from one start
    if (!lls.empty()) {
      Filter f;
      f.cost = r.idx(w.costs.size());
      f.changes = r.p(.7);
      SearchModel m(w, f);
      size_t s = lls[r.idx(lls.size())];
      auto ref = m.run(s, [](auto...) { return true; });
      for (size_t t : lls) {
        auto p = g.shortestPath(*w.v[s].lanelet(), *w.v[t].lanelet(), RoutingCostId(f.cost), f.changes);
        c.check(!!p == ref.reached(t), "path:exists", "path ", name(w.v[s]), " to ", name(w.v[t]), " found ", !!p, " reachable ", ref.reached(t));
        if (!p) continue;
        double sum = 0;
        for (size_t k = 1; k < p->size(); ++k) {
          auto e = m.edge(w.at((*p)[k - 1]), w.at((*p)[k]));
          c.check(e, "path:step", "no step in path ", names(*p));
          sum += e->cost;
        }
        c.check(c.close(sum, ref.s[t].cost, 1e-9 * std::max(1., sum)), "path:optimal", "path ", names(*p), " costs ", sum, ", the cheapest ", ref.s[t].cost);
      }
    }
    // unknown elements and cost modules
    auto x = *foreign(w, r).lanelet();
    if (!lls.empty()) {
      auto l = *w.v[lls[r.idx(lls.size())]].lanelet();
      c.check(!g.shortestPath(x, l) && !g.shortestPath(l, x) && !g.shortestPath(x, x), "path:foreign", "path from or to a lanelet outside of the graph");
      c.check(!g.shortestPathVia(l, {x}, l), "path:foreign", "path via a lanelet outside of the graph");
      bool thrown = false;
      try {
        g.shortestPath(l, l, RoutingCostId(w.costs.size()));
      } catch (InvalidInputError&) {
        thrown = true;
      }
      c.check(thrown, "path:cost-id", "no error for a cost module that does not exist");
    }
    if (c.wantSample()) c.sample(dump(w));
  }
};
VF_HARNESS(R02, "R02");

struct R03 : Harness {
  uint64_t numCases(bool t) override { return t ? 40000 : 2500; }
  std::string rule() override {
    return "networks as in R02; reachable sets (forward, towards, with areas), possible paths (cost/element/both limits, forward/towards/areas, shorter paths or not) and visitors are compared with a "
           "reference search; where several cheapest paths exist, only what does not depend on the choice is compared; distinct = networks";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    RWorld w(r);
    w.build(searchWorld(r));
    if (!usable(c, w)) return;
    observe(c, w);
    if (c.verbose) std::cerr << dump(w) << std::endl;
    auto& g = *w.graph;
    std::vector<size_t> lls;
    for (size_t i = 0; i < w.v.size(); ++i)
      if (w.v[i].isLanelet()) lls.push_back(i);
    if (lls.empty()) return;
    for (int q = 0; q < 10; ++q) {
      Filter f;
      f.cost = r.idx(w.costs.size());
      f.changes = r.p(.6);
      f.areas = r.p(.3);
      f.backward = r.p(.4);
      auto id = RoutingCostId(f.cost);
      int op = int(r.i(0, 2));
      if (op == 0 && f.areas) {  // only exists in this combination
        f.changes = true;
        f.backward = false;
      }
      if (op == 1 && f.areas) f.backward = false;
      SearchModel m(w, f);
      size_t s = f.areas ? r.idx(w.v.size()) : lls[r.idx(lls.size())];
      auto full = m.run(s, [](auto...) { return true; });
      std::vector<double> dist;
      for (auto& x : full.s)
        if (x.done) dist.push_back(x.cost);
      double top = *std::max_element(dist.begin(), dist.end());
      auto limitOf = [&]() -> double {
        for (int k = 0; k < 20; ++k) {
          double l = r.p(.15) ? (r.p(.5) ? 0. : -1.) : r.p(.1) ? 1e12 : r.d(0, 1.2 * top + 1e-3);
          auto& cs = w.costs[f.cost];
          if (cs.kind == 2 && !cs.drawn->generic() && r.p(.6)) return double(r.i(0, int64_t(top) + 1));  // exact
          bool okay = true;
          for (double d : dist) okay = okay && (std::fabs(d - l) > 1e-7 * std::max(1., l) || (d == 0 && l == 0));
          if (okay) return l;
        }
        return -1;
      };
      std::string ctx = std::string(f.backward ? "towards " : "from ") + name(w.v[s]) + " cost module " + std::to_string(f.cost) + (f.changes ? " changes" : "") + (f.areas ? " areas" : "");
      if (op == 0) {
        double lim = limitOf();
        std::multiset<uint64_t> want, got;
        for (size_t i = 0; i < w.v.size(); ++i)
          if (full.reached(i) && full.s[i].cost <= lim) want.insert(code(w.v[i]));
        if (f.areas)
          got = codes(g.reachableSetIncludingAreas(w.v[s], lim, id));
        else if (f.backward)
          got = codes(g.reachableSetTowards(*w.v[s].lanelet(), lim, id, f.changes));
        else
          got = codes(g.reachableSet(*w.v[s].lanelet(), lim, id, f.changes));
        for (auto x : want) c.check(got.count(x) == 1, "reachable:missing", ctx, ": reachable set within ", lim, " contains ", w.index.count(x) ? name(w.v[w.index.at(x)]) : "?", " ", got.count(x), " times");
        c.check(got == want, "reachable:extra", ctx, ": reachable set within ", lim, " has ", got.size(), " elements, expected ", want.size());
        c.event(std::string("reachable") + (f.backward ? ":towards" : f.areas ? ":areas" : ""));
        if (want.size() > 3) c.event("reachable>3");
      } else if (op == 1) {
        paths(c, w, m, s, full, limitOf, ctx, id);
      } else {
        visit(c, w, m, s, ctx, id);
      }
    }
    // elements outside of the graph
    auto x = foreign(w, r);
    size_t calls = 0;
    g.forEachSuccessor(*x.lanelet(), [&](auto&) { return ++calls, true; });
    g.forEachPredecessor(*x.lanelet(), [&](auto&) { return ++calls, true; });
    g.forEachSuccessorIncludingAreas(x, [&](auto&) { return ++calls, true; });
    g.forEachPredecessorIncludingAreas(x, [&](auto&) { return ++calls, true; });
    c.check(calls == 0, "foreign:visit", "visitor called for ", name(x));
    c.check(g.reachableSet(*x.lanelet(), 10).empty() && g.reachableSetTowards(*x.lanelet(), 10).empty() && g.reachableSetIncludingAreas(x, 10).empty(), "foreign:reachable", "reachable set of ", name(x));
    c.check(g.possiblePaths(*x.lanelet(), 10.).empty() && g.possiblePathsTowards(*x.lanelet(), 10.).empty() && g.possiblePathsIncludingAreas(x, 10.).empty(), "foreign:paths", "possible paths of ", name(x));
    if (c.wantSample()) c.sample(dump(w));
  }
  template <typename LimitOf>
  void paths(Ctx& c, RWorld& w, SearchModel& m, size_t s, const Ref& full, LimitOf limitOf, const std::string& ctx0, RoutingCostId id) {
    auto& r = c.rng;
    auto& f = m.f;
    auto& g = *w.graph;
    routing::PossiblePathsParams p;
    p.routingCostId = id;
    p.includeLaneChanges = f.changes;
    p.includeShorterPaths = r.p(.5);
    int kind = int(r.i(0, 3));
    if (kind != 1) p.routingCostLimit = limitOf();
    if (kind == 1 || kind == 2) p.elementLimit = uint32_t(r.p(.1) ? 0 : r.i(1, 9));
    if (!p.includeShorterPaths && kind == 3) p.includeShorterPaths = false;
    std::string ctx = ctx0 + ": paths" + (p.routingCostLimit ? " cost<" + std::to_string(*p.routingCostLimit) : "") + (p.elementLimit ? " elements<" + std::to_string(*p.elementLimit) : "") +
                      (p.includeShorterPaths ? " shorter" : "");
    auto open = [&](size_t, double cost, size_t len) { return (!p.routingCostLimit || cost < *p.routingCostLimit) && (!p.elementLimit || len < *p.elementLimit); };
    auto ref = m.run(s, open);
    std::vector<std::vector<size_t>> got;
    auto take = [&](auto paths) {
      for (auto& x : paths) {
        std::vector<size_t> k;
        for (auto e : x) {
          Elem el(e);
          c.check(w.has(el), "paths:foreign", ctx, ": foreign element ", name(el));
          k.push_back(w.at(el));
        }
        got.push_back(k);
      }
    };
    bool simple = !p.includeShorterPaths && r.p(.5) && (!p.routingCostLimit || !p.elementLimit);
    if (simple && p.routingCostLimit) {
      double l = *p.routingCostLimit;
      if (f.areas)
        take(g.possiblePathsIncludingAreas(w.v[s], l, id, f.changes));
      else if (f.backward)
        take(g.possiblePathsTowards(*w.v[s].lanelet(), l, id, f.changes));
      else
        take(g.possiblePaths(*w.v[s].lanelet(), l, id, f.changes));
    } else if (simple) {
      uint32_t l = *p.elementLimit;
      if (f.areas)
        take(g.possiblePathsIncludingAreas(w.v[s], l, f.changes, id));
      else if (f.backward)
        take(g.possiblePathsTowards(*w.v[s].lanelet(), l, f.changes, id));
      else
        take(g.possiblePaths(*w.v[s].lanelet(), l, f.changes, id));
    } else {
      if (f.areas)
        take(g.possiblePathsIncludingAreas(w.v[s], p));
      else if (f.backward)
        take(g.possiblePathsTowards(*w.v[s].lanelet(), p));
      else
        take(g.possiblePaths(*w.v[s].lanelet(), p));
    }
    auto str = [&](const std::vector<size_t>& k) {
      std::string o;
      for (size_t i : k) o += " " + name(w.v[i]);
      return o;
    };
    if (!ref.tie && !full.tie) {
      std::multiset<std::vector<size_t>> want, have(got.begin(), got.end());
      for (size_t i = 0; i < w.v.size(); ++i)
        if (ref.reached(i) && ref.s[i].leaf && (p.includeShorterPaths || !ref.s[i].expanded)) want.insert(m.path(ref, i));
      for (auto& x : want) c.check(have.count(x) == 1, "paths:missing", ctx, ": path", str(x), " is reported ", have.count(x), " times");
      for (auto& x : have) c.check(want.count(x) == 1, "paths:extra", ctx, ": unexpected path", str(x));
      c.event("paths:exact");
      c.event("paths", want.size());
      if (want.size() > 2) c.event("paths>2");
    } else if (!p.elementLimit) {
      std::set<size_t> covered, ends;
      for (auto x : got) {
        if (f.backward) std::reverse(x.begin(), x.end());
        double cost = 0;
        c.check(!x.empty() && x[0] == s, "paths:start", ctx, ": path", str(x));
        for (size_t k = 0; k < x.size(); ++k) {
          if (k) {
            auto e = m.edge(x[k - 1], x[k]);
            c.check(e, "paths:step", ctx, ": no step in path", str(x));
            c.check(cost < *p.routingCostLimit, "paths:limit", ctx, ": path goes on after the limit:", str(x));
            cost += e->cost;
          }
          c.check(c.close(cost, ref.s[x[k]].cost, 1e-9 * std::max(1., cost)), "paths:optimal", ctx, ": not a cheapest path:", str(x));
          covered.insert(x[k]);
        }
        c.check(p.includeShorterPaths || cost >= *p.routingCostLimit, "paths:short", ctx, ": path ends before the limit:", str(x));
        c.check(ends.insert(x.back()).second, "paths:twice", ctx, ": two paths end at ", name(w.v[x.back()]));
      }
      for (size_t i = 0; i < w.v.size(); ++i) {
        bool must = ref.reached(i) && (p.includeShorterPaths || ref.s[i].cost >= *p.routingCostLimit);
        c.check(!must || covered.count(i), "paths:cover", ctx, ": no path covers ", name(w.v[i]));
      }
      c.event("paths:tied");
    }
    // neither limit is an error
    if (r.p(.1)) {
      bool thrown = false;
      try {
        routing::PossiblePathsParams none;
        g.possiblePaths(*w.v[0].lanelet(), none);
      } catch (InvalidInputError&) {
        thrown = true;
      }
      c.check(thrown, "paths:no-limit", "no error without limits");
    }
  }
  struct Abort {};
  void visit(Ctx& c, RWorld& w, SearchModel& m, size_t s, const std::string& ctx, RoutingCostId id) {
    auto& r = c.rng;
    auto& f = m.f;
    auto& g = *w.graph;
    uint64_t salt = r.next();
    double pStop = r.pick({0., .1, .4});
    auto go = [&](size_t i) { return double(mix(salt, i) >> 11) / 9007199254740992.0 >= pStop; };
    auto ref = m.run(s, [&](size_t i, double, size_t) { return go(i); });
    size_t abortAt = r.p(.1) ? size_t(r.i(1, 6)) : 0;
    struct Seen {
      double cost;
      size_t length, changes;
    };
    std::map<size_t, Seen> seen;
    double last = 0;
    auto on = [&](const Elem& e, const Elem& pe, double cost, size_t len, size_t ch) {
      c.check(w.has(e) && w.has(pe), "visit:foreign", ctx, ": visits ", name(e));
      size_t i = w.at(e), p = w.at(pe);
      c.check(!seen.count(i), "visit:twice", ctx, ": visits ", name(e), " twice");
      c.check(ref.reached(i), "visit:unreachable", ctx, ": visits ", name(e), " although it can not be reached");
      c.check(cost >= last, "visit:order", ctx, ": visits ", name(e), " with cost ", cost, " after ", last);
      last = cost;
      c.check(c.close(cost, ref.s[i].cost, 1e-9 * std::max(1., cost)), "visit:cost", ctx, ": visits ", name(e), " with cost ", cost, " but the cheapest is ", ref.s[i].cost);
      if (seen.empty()) {
        c.check(i == s && p == s && cost == 0 && len == 1 && ch == 0, "visit:start", ctx, ": starts at ", name(e));
      } else {
        auto it = seen.find(p);
        c.check(it != seen.end() && go(p), "visit:predecessor", ctx, ": predecessor ", name(pe), " of ", name(e), " was not visited or not expanded");
        auto ed = m.edge(p, i);
        c.check(ed && c.close(it->second.cost + ed->cost, cost, 1e-9 * std::max(1., cost)), "visit:step", ctx, ": predecessor ", name(pe), " does not explain the cost of ", name(e));
        bool lc = ed->rel == RelationType::Left || ed->rel == RelationType::Right;
        c.check(len == it->second.length + 1, "visit:length", ctx, ": length of ", name(e), " is ", len);
        c.check(ch == it->second.changes + size_t(lc), "visit:changes", ctx, ": lane changes up to ", name(e), " are ", ch, ", expected ", it->second.changes + size_t(lc));
        if (lc) c.event("visit:lane-change");
        if (ed->rel == RelationType::Area) c.event("visit:area");
      }
      seen[i] = {cost, len, ch};
      if (abortAt && seen.size() == abortAt) throw Abort();
      return go(i);
    };
    bool aborted = false;
    try {
      if (f.areas) {
        auto cb = [&](const routing::LaneletOrAreaVisitInformation& x) { return on(x.laneletOrArea, x.predecessor, x.cost, x.length, x.numLaneChanges); };
        if (f.backward)
          g.forEachPredecessorIncludingAreas(w.v[s], cb, f.changes, id);
        else
          g.forEachSuccessorIncludingAreas(w.v[s], cb, f.changes, id);
      } else {
        auto cb = [&](const routing::LaneletVisitInformation& x) { return on(x.lanelet, x.predecessor, x.cost, x.length, x.numLaneChanges); };
        if (f.backward)
          g.forEachPredecessor(*w.v[s].lanelet(), cb, f.changes, id);
        else
          g.forEachSuccessor(*w.v[s].lanelet(), cb, f.changes, id);
      }
    } catch (Abort&) {
      aborted = true;
    }
    if (aborted) {
      c.event("visit:aborted");
      return;
    }
    for (size_t i = 0; i < w.v.size(); ++i) c.check(!ref.reached(i) || seen.count(i), "visit:missing", ctx, ": never visits ", name(w.v[i]));
    c.event(std::string("visit") + (f.backward ? ":backward" : ""));
    c.event("visited", seen.size());
  }
};
VF_HARNESS(R03, "R03");
}  // namespace
