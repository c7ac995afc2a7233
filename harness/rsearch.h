// Reference search on the independent routing model, shared by the routing monitors
#pragma once
#include "rmodel.h"

namespace rm {
template <typename C>
std::multiset<uint64_t> codes(const C& c) {
  std::multiset<uint64_t> s;
  for (auto& x : c) s.insert(code(Elem(x)));
  return s;
}
inline void observe(Ctx& c, const RWorld& w) {
  Hash h;
  for (size_t i = 0; i < w.v.size(); ++i)
    for (size_t j = 0; j < w.v.size(); ++j)
      if (w.rel[i][j] != RelationType::None) {
        h(i)(j)(uint64_t(w.rel[i][j]));
        c.event("expected:" + routing::relationToString(w.rel[i][j]));
      }
  c.sig(h.h);
  c.event("world:" + w.who.substr(0, w.who.find(':')));
  c.event("elements", w.v.size());
  if (w.height) c.event("world:height");
  if (w.submap) c.event("world:submap");
}
inline std::string dump(const RWorld& w) {
  std::string s = w.who + " elements " + names(w.v) + ":";
  for (size_t i = 0; i < w.v.size(); ++i)
    for (size_t j = 0; j < w.v.size(); ++j)
      if (w.rel[i][j] != RelationType::None) s += " " + name(w.v[i]) + ">" + name(w.v[j]) + ":" + routing::relationToString(w.rel[i][j]) + (w.unsure[i][j] ? "?" : "");
  return s;
}

// Reference search on the model
struct Ref {
  struct S {
    double cost{std::numeric_limits<double>::infinity()};
    size_t pred{0}, length{0}, changes{0};
    bool done{false}, expanded{false}, leaf{true};
  };
  std::vector<S> s;
  bool tie{false};
  bool reached(size_t i) const { return s[i].done; }
};
struct Filter {
  bool changes{true}, areas{false}, backward{false};
  size_t cost{0};
};
struct SearchModel {
  const RWorld& w;
  Filter f;
  std::vector<std::vector<Edge>> adj;
  SearchModel(const RWorld& wo, Filter fi) : w(wo), f(fi), adj(wo.v.size()) {
    for (size_t i = 0; i < w.v.size(); ++i)
      for (auto& e : w.adj[f.cost][i])
        if (RWorld::allowed(e.rel, f.changes, f.areas)) {
          if (f.backward)
            adj[e.to].push_back({i, e.cost, e.rel});
          else
            adj[i].push_back(e);
        }
  }
  const Edge* edge(size_t a, size_t b) const {
    for (auto& e : adj[a])
      if (e.to == b) return &e;
    return nullptr;
  }
  template <typename Expand>
  Ref run(size_t start, Expand expand) const {
    Ref r;
    r.s.resize(w.v.size());
    r.s[start].cost = 0;
    r.s[start].pred = start;
    r.s[start].length = 1;
    while (true) {
      size_t best = w.v.size();
      for (size_t i = 0; i < w.v.size(); ++i)
        if (!r.s[i].done && std::isfinite(r.s[i].cost) && (best == w.v.size() || r.s[i].cost < r.s[best].cost)) best = i;
      if (best == w.v.size()) break;
      auto& b = r.s[best];
      b.done = true;
      if (best != start) r.s[b.pred].leaf = false;
      b.expanded = expand(best, b.cost, b.length);
      if (!b.expanded) continue;
      for (auto& e : adj[best]) {
        double n = b.cost + e.cost;
        auto& t = r.s[e.to];
        if (e.to != start && std::isfinite(t.cost) && std::fabs(t.cost - n) <= 1e-9 * std::max(1., n)) r.tie = true;
        if (!t.done && n < t.cost) {
          t.cost = n;
          t.pred = best;
          t.length = b.length + 1;
          t.changes = b.changes + (e.rel == RelationType::Left || e.rel == RelationType::Right);
        }
      }
    }
    return r;
  }
  std::vector<size_t> path(const Ref& r, size_t v) const {
    std::vector<size_t> p{v};
    while (r.s[v].pred != v) p.push_back(v = r.s[v].pred);
    if (!f.backward) std::reverse(p.begin(), p.end());
    return p;
  }
};
inline RWorld::Opt searchWorld(Rng& r) {
  RWorld::Opt o;
  o.net.cols = int(r.i(3, 9));
  o.net.rows = int(r.i(1, 3));
  o.net.maxLanes = int(r.i(1, 4));
  o.net.pPlain = r.pick({.6, .9, 1.});
  o.net.pDuplicate = 0;
  o.net.pTip = r.p(.5) ? 0 : .05;
  o.net.pBridge = .05;
  o.pStrict = .2;
  o.ties = r.p(.4);
  o.net.pOpposite = r.pick({.05, .25});
  o.net.pFork = r.pick({.3, .7, .95});
  o.net.pMerge = r.pick({.3, .5});
  o.net.pRing = .6;
  o.net.pTwoWay = r.pick({.03, .15});
  if (r.p(.35)) {  // footways with places in between
    o.whos = {"pedestrian"};
    o.net.plain = "walkway";
    o.net.pPlain = .95;
    o.net.areas = int(r.i(2, 12));
    o.net.pPlainArea = .9;
    o.net.maxLanes = int(r.i(1, 3));
    o.net.crosswalks = int(r.i(0, 1));
  } else if (r.p(.8)) {
    o.whos = {"vehicle", "vehicle:car"};
  }
  return o;
}
inline bool usable(Ctx& c, RWorld& w) {
  if (w.anyUnsure() || w.v.size() < 2) {
    c.event(w.v.size() < 2 ? "skipped:empty" : "skipped:ambiguous");
    return false;
  }
  for (auto& k : w.adj)
    for (auto& x : k)
      for (auto& e : x)
        if (std::isnan(e.cost)) return false;
  return true;
}
// an element the graph does not know
inline Elem foreign(RWorld& w, Rng& r) {
  for (int k = 0; k < 8; ++k) {
    auto l = ConstLanelet(w.net.lanelets[r.idx(w.net.lanelets.size())]);
    if (r.p(.5)) l = l.invert();
    if (!w.has(l)) return l;
  }
  Point3d p(w.ids.valid(), 0, 0, 0), q(w.ids.valid(), 1, 0, 0);
  return ConstLanelet(Lanelet(w.ids.valid(), LineString3d(w.ids.valid(), {p, q}), LineString3d(w.ids.valid(), {q, p})));
}
}  // namespace rm
