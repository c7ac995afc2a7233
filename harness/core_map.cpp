// C01 map closure, C02 id issue, C03 spatial queries, C04 usage lookup
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>

#include "closure.h"
#include "gen.h"

using namespace lanelet;
using namespace vf;
using namespace gen;

namespace {
struct Any {
  int kind;
  size_t i;
};
std::vector<Any> allOf(const World& w) {
  std::vector<Any> v;
  for (size_t i = 0; i < w.pts.size(); ++i) v.push_back({0, i});
  for (size_t i = 0; i < w.lines.size(); ++i) v.push_back({1, i});
  for (size_t i = 0; i < w.polys.size(); ++i) v.push_back({2, i});
  for (size_t i = 0; i < w.lanelets.size(); ++i) v.push_back({3, i});
  for (size_t i = 0; i < w.areas.size(); ++i) v.push_back({4, i});
  for (size_t i = 0; i < w.regs.size(); ++i) v.push_back({5, i});
  return v;
}
template <typename MapT>
void addAny(MapT& m, World& w, Any a, Rng& r) {
  switch (a.kind) {
    case 0:
      m.add(w.pts[a.i]);
      break;
    case 1:
      m.add(r.p(0.3) ? w.lines[a.i].invert() : w.lines[a.i]);
      break;
    case 2:
      m.add(w.polys[a.i]);
      break;
    case 3:
      m.add(r.p(0.3) ? w.lanelets[a.i].invert() : w.lanelets[a.i]);
      break;
    case 4:
      m.add(w.areas[a.i]);
      break;
    default:
      m.add(w.regs[a.i]);
  }
}
void closeAny(Closure& cl, World& w, Any a) {
  switch (a.kind) {
    case 0:
      cl.add(ConstPoint3d(w.pts[a.i]));
      break;
    case 1:
      cl.add(ConstLineString3d(w.lines[a.i]));
      break;
    case 2:
      cl.add(ConstPolygon3d(w.polys[a.i]));
      break;
    case 3:
      cl.add(ConstLanelet(w.lanelets[a.i]));
      break;
    case 4:
      cl.add(ConstArea(w.areas[a.i]));
      break;
    default:
      cl.add(RegulatoryElementConstPtr(w.regs[a.i]));
  }
}
WorldOpts randOpts(Rng& r) {
  WorldOpts o;
  o.lines = int(r.i(0, 6));
  o.polys = int(r.i(0, 3));
  o.strips = int(r.i(0, 3));
  o.areas = int(r.i(0, 2));
  o.regs = int(r.i(0, 6));
  o.extent = r.pick({20., 100., 1000.});
  return o;
}
uint64_t worldSig(const World& w) {
  Hash h;
  for (auto& l : w.lines) h(uint64_t(l.size()))(uint64_t(l.id() == 0));
  for (auto& l : w.lanelets) h(uint64_t(l.regulatoryElements().size() + 10 * l.inverted()));
  for (auto& re : w.regs) {
    h(uint64_t(re->size()));
    for (auto& p : paramsOf(*re)) h(uint64_t(p.second.which()))(p.first);
  }
  h(uint64_t(w.areas.size()))(uint64_t(w.polys.size()))(uint64_t(w.pts.size()));
  return h.h;
}
std::string worldStr(const World& w) {
  std::ostringstream os;
  os << w.pts.size() << " points, " << w.lines.size() << " lines, " << w.polys.size() << " polygons, "
     << w.lanelets.size() << " lanelets, " << w.areas.size() << " areas, " << w.regs.size() << " regelems (";
  for (auto& re : w.regs) os << re->id() << ":" << paramsOf(*re).size() << " params ";
  os << ")";
  return os.str();
}

// ---------------------------------------------------------------- C01
struct C01 : Harness {
  uint64_t numCases(bool th) override { return th ? 60000 : 2600; }
  std::string rule() override {
    return "random object graphs (shared points/bounds, inverted views, cyclic regulatory elements, missing ids) "
           "added in random order, by add, bulk creation or via submaps; non-trivial = distinct graph structure with "
           "its addition order; after every addition all layers are compared with the reachability closure";
  }
  void run(Ctx& c) override {
    Rng& r = c.rng;
    IdSource ids(r);
    int mode = int(r.i(0, 5));  // 0-2 add, 3 bulk, 4 submap, 5 bulk single kind
    ids.pInvalid = mode <= 2 ? r.pick({0., 0.3, 1.}) : 0.;
    ids.pNeg = r.pick({0., 0.2});
    WorldGen g(r, ids, randOpts(r));
    World& w = g.all();
    auto v = allOf(w);
    r.shuffle(v);
    c.event("mode" + std::to_string(mode));
    Hash sg;
    sg(worldSig(w))(uint64_t(mode));
    if (mode <= 2) {
      LaneletMap m;
      Closure cl;
      size_t n = v.empty() ? 0 : r.idx(v.size()) + 1;
      if (mode == 2) n = std::min<size_t>(n, 3);  // few roots: reachability matters most
      for (size_t k = 0; k < n; ++k) {
        addAny(m, w, v[k], r);
        closeAny(cl, w, v[k]);
        c.event("add");
        sg(uint64_t(v[k].kind * 1000 + int(v[k].i)));
        if (k < 4 || r.p(0.1) || k + 1 == n) checkMap(c, m, cl);
        if (r.p(0.2)) {  // adding again (also through another view) changes nothing
          Any again = v[r.idx(k + 1)];
          addAny(m, w, again, r);
          checkMap(c, m, cl);
          c.event("re-add");
        }
      }
      checkMap(c, m, cl);
      checkIndex(c, m);
      if (r.p(0.3)) {  // moving a map keeps everything
        LaneletMap m2(std::move(m));
        checkMap(c, m2, cl);
        checkIndex(c, m2);
        LaneletSubmap sm(std::move(m2));
        checkMap(c, sm, cl);
        LaneletSubmap sm2;
        if (r.p(.5) && !w.pts.empty()) sm2.add(Point3d(ids.valid(), 1, 2, 3));
        auto whole = sm.laneletMap();
        sm2 = std::move(*whole);
        checkMap(c, sm2, cl);
        checkIndex(c, sm2);
        c.event("move");
      }
      if (r.p(0.2)) {
        bool threw = false;
        LaneletMap m3;
        try {
          m3.add(RegulatoryElementPtr());
        } catch (NullptrError&) {
          threw = true;
        }
        c.check(threw && m3.empty(), "null-regelem");
      }
    } else if (mode == 3) {
      Lanelets ll;
      Areas ar;
      Closure cl;
      for (auto& e : v) {
        if (e.kind == 3 && r.p(.7)) ll.push_back(r.p(0.3) ? w.lanelets[e.i].invert() : w.lanelets[e.i]);
        if (e.kind == 4 && r.p(.7)) ar.push_back(w.areas[e.i]);
      }
      for (auto& l : ll) cl.add(ConstLanelet(l)), sg(uint64_t(l.id() - ids.base));
      for (auto& l : ar) cl.add(ConstArea(l)), sg(uint64_t(l.id() - ids.base));
      if (r.p(0.3) && !ll.empty()) ll.push_back(ll.front());
      auto m = utils::createMap(ll, ar);
      checkMap(c, *m, cl);
      checkIndex(c, *m);
      if (r.p(0.5)) {
        auto cm = utils::createConstMap(ConstLanelets(ll.begin(), ll.end()), ConstAreas(ar.begin(), ar.end()));
        checkMap(c, *cm, cl);
      }
      // continue to add incrementally
      for (size_t k = 0; k < v.size() && k < 5; ++k) {
        addAny(*m, w, v[k], r);
        closeAny(cl, w, v[k]);
      }
      checkMap(c, *m, cl);
      checkIndex(c, *m);
      c.event("bulk");
    } else if (mode == 4) {
      auto sm = std::make_unique<LaneletSubmap>();
      Closure direct, cl;
      size_t n = v.empty() ? 0 : r.idx(v.size()) + 1;
      n = std::min<size_t>(n, 12);
      Closure full;
      if (r.p(0.3)) {
        Lanelets ll;
        Areas ar;
        for (auto& l : w.lanelets)
          if (r.p(0.3)) ll.push_back(l);
        for (auto& l : w.areas)
          if (r.p(0.3)) ar.push_back(l);
        sm = utils::createSubmap(ll, ar);
        for (auto& l : ll) direct.lls.insert(key(l)), full.add(ConstLanelet(l));
        for (auto& l : ar) direct.areas.insert(key(l)), full.add(ConstArea(l));
        c.event("bulk-submap");
      }
      for (size_t k = 0; k < n; ++k) {
        addAny(*sm, w, v[k], r);
        if (r.p(0.15)) addAny(*sm, w, v[k], r);
        switch (v[k].kind) {
          case 0:
            direct.pts.insert(key(w.pts[v[k].i]));
            break;
          case 1:
            direct.lines.insert(key(w.lines[v[k].i]));
            break;
          case 2:
            direct.polys.insert(key(w.polys[v[k].i]));
            break;
          case 3:
            direct.lls.insert(key(w.lanelets[v[k].i]));
            break;
          case 4:
            direct.areas.insert(key(w.areas[v[k].i]));
            break;
          default:
            direct.regs.insert(key(w.regs[v[k].i]));
        }
        closeAny(full, w, v[k]);
        sg(uint64_t(v[k].kind * 1000 + int(v[k].i)));
      }
      checkMap(c, *sm, direct);
      checkIndex(c, *sm);
      // drop all other owners: whatever the regulatory elements of the submap refer to must survive
      std::vector<std::pair<RegulatoryElementConstPtr, size_t>> alive;
      auto noteReg = [&](const RegulatoryElementConstPtr& re) {
        size_t n2 = 0;
        for (auto& p : paramsOf(*re)) {
          if (auto* x = boost::get<ConstWeakLanelet>(&p.second)) n2 += !x->expired();
          if (auto* x = boost::get<ConstWeakArea>(&p.second)) n2 += !x->expired();
        }
        alive.push_back({re, n2});
      };
      const LaneletSubmap& csm = *sm;
      for (auto& re : csm.regulatoryElementLayer) noteReg(re);
      for (auto& l : csm.laneletLayer)
        for (auto& re : l.regulatoryElements()) noteReg(re);
      for (auto& l : csm.areaLayer)
        for (auto& re : l.regulatoryElements()) noteReg(re);
      World dropped;
      std::swap(dropped, g.w);
      dropped = World();
      for (auto& a : alive) {
        size_t n2 = 0;
        for (auto& p : paramsOf(*a.first)) {
          if (auto* x = boost::get<ConstWeakLanelet>(&p.second)) n2 += !x->expired();
          if (auto* x = boost::get<ConstWeakArea>(&p.second)) n2 += !x->expired();
        }
        c.check(n2 == a.second, "submap-keeps-alive", "regelem ", a.first->id(), ": ", a.second - n2, " of ", a.second,
                " referenced lanelets/areas died although the submap lives");
        c.event("liveness");
      }
      // closure over what still lives
      Closure now;
      for (auto& e : csm.pointLayer) now.add(ConstPoint3d(e));
      for (auto& e : csm.lineStringLayer) now.add(ConstLineString3d(e));
      for (auto& e : csm.polygonLayer) now.add(ConstPolygon3d(e));
      for (auto& e : csm.laneletLayer) now.add(ConstLanelet(e));
      for (auto& e : csm.areaLayer) now.add(ConstArea(e));
      for (auto& e : csm.regulatoryElementLayer) now.add(RegulatoryElementConstPtr(e));
      auto mc = csm.laneletMap();
      checkMap(c, *mc, now);
      auto m = sm->laneletMap();
      checkMap(c, *m, now);
      checkIndex(c, *m);
      c.event("submap-to-map");
    } else if (r.p(.4)) {
      Closure cl;
      LaneletSubmapUPtr m;
      auto part = [&](auto v) {  // some of them, one perhaps twice
        decltype(v) o;
        for (auto& e : v)
          if (r.p(.6)) o.push_back(e);
        if (!o.empty() && r.p(.2)) o.push_back(o.front());
        return o;
      };
      switch (r.i(0, 4)) {
        case 0: {
          auto p = part(Points3d(w.pts.begin(), w.pts.end()));
          m = utils::createSubmap(p);
          for (auto& e : p) cl.pts.insert(key(e));
          break;
        }
        case 1: {
          auto p = part(LineStrings3d(w.lines.begin(), w.lines.end()));
          m = utils::createSubmap(p);
          for (auto& e : p) cl.lines.insert(key(e));
          break;
        }
        case 2: {
          auto p = part(Polygons3d(w.polys.begin(), w.polys.end()));
          m = utils::createSubmap(p);
          for (auto& e : p) cl.polys.insert(key(e));
          break;
        }
        case 3: {
          auto p = part(Lanelets(w.lanelets.begin(), w.lanelets.end()));
          m = utils::createSubmap(p);
          for (auto& e : p) cl.lls.insert(key(e));
          break;
        }
        default: {
          auto p = part(Areas(w.areas.begin(), w.areas.end()));
          m = utils::createSubmap(p);
          for (auto& e : p) cl.areas.insert(key(e));
        }
      }
      checkMap(c, *m, cl);
      checkIndex(c, *m);
      Closure now;
      const LaneletSubmap& cm = *m;
      for (auto& e : cm.pointLayer) now.add(ConstPoint3d(e));
      for (auto& e : cm.lineStringLayer) now.add(ConstLineString3d(e));
      for (auto& e : cm.polygonLayer) now.add(ConstPolygon3d(e));
      for (auto& e : cm.laneletLayer) now.add(ConstLanelet(e));
      for (auto& e : cm.areaLayer) now.add(ConstArea(e));
      auto whole = m->laneletMap();
      checkMap(c, *whole, now);
      checkIndex(c, *whole);
      if (r.p(.3)) {
        ConstLanelets cl2(w.lanelets.begin(), w.lanelets.end());
        ConstAreas ca(w.areas.begin(), w.areas.end());
        auto csm = utils::createConstSubmap(cl2, ca);
        Closure both;
        for (auto& e : cl2) both.lls.insert(key(e));
        for (auto& e : ca) both.areas.insert(key(e));
        checkMap(c, *csm, both);
        checkIndex(c, *csm);
      }
      c.event("bulk-submap-kind");
    } else {
      Closure cl;
      LaneletMapUPtr m;
      switch (r.i(0, 4)) {
        case 0: {
          m = utils::createMap(Points3d(w.pts.begin(), w.pts.end()));
          for (auto& e : w.pts) cl.add(ConstPoint3d(e));
          break;
        }
        case 1: {
          m = utils::createMap(LineStrings3d(w.lines.begin(), w.lines.end()));
          for (auto& e : w.lines) cl.add(ConstLineString3d(e));
          break;
        }
        case 2: {
          m = utils::createMap(Polygons3d(w.polys.begin(), w.polys.end()));
          for (auto& e : w.polys) cl.add(ConstPolygon3d(e));
          break;
        }
        case 3: {
          m = utils::createMap(Lanelets(w.lanelets.begin(), w.lanelets.end()));
          for (auto& e : w.lanelets) cl.add(ConstLanelet(e));
          break;
        }
        default: {
          m = utils::createMap(Areas(w.areas.begin(), w.areas.end()));
          for (auto& e : w.areas) cl.add(ConstArea(e));
        }
      }
      checkMap(c, *m, cl);
      checkIndex(c, *m);
      for (size_t k = 0; k < v.size() && k < 4; ++k) {
        addAny(*m, w, v[k], r);
        closeAny(cl, w, v[k]);
      }
      checkMap(c, *m, cl);
      c.event("bulk-kind");
    }
    c.sig(sg.h);
    if (c.wantSample()) c.sample("mode " + std::to_string(mode) + ": " + worldStr(g.w));
  }
};
VF_HARNESS(C01, "C01");

// ---------------------------------------------------------------- C02 (sequential histories)
struct C02 : Harness {
  uint64_t numCases(bool th) override { return th ? 40000 : 3000; }
  std::string rule() override {
    return "histories of id requests, registrations and map constructions whose ids lie just above the id counter; "
           "non-trivial = distinct operation sequence; every issued id is compared with all ids in use";
  }
  void run(Ctx& c) override {
    Rng& r = c.rng;
    std::set<Id> used;  // everything issued, registered or present in a map
    Id top = utils::getId();
    used.insert(top);
    Hash sg;
    auto issue = [&](Id id, const char* how) {
      c.check(id != InvalId, "id-invalid", how, " issued the invalid id");
      c.check(used.insert(id).second, "id-collision", how, " issued id ", id, " which is already in use");
      top = std::max(top, id);
      c.event("issued");
    };
    std::vector<Id> fresh;
    // ids that were handed to elements which did not become part of a map are not in use
    auto forget = [&](const std::vector<Id>& inUse) {
      for (auto id : fresh)
        if (!std::count(inUse.begin(), inUse.end(), id)) used.erase(id);
    };
    auto freshId = [&]() {  // an unused id near the counter
      for (;;) {
        Id id = top + r.i(1, 12);
        if (r.p(0.1)) id = top + r.i(12, 100000);
        if (r.p(0.1)) id = -r.i(1, 1000000);
        if (id != InvalId && used.insert(id).second) {
          fresh.push_back(id);
          return id;
        }
      }
    };
    auto mapIds = [&](const LaneletMapLayers& m, std::vector<Id>& out) {
      for (auto& e : m.pointLayer) out.push_back(e.id());
      for (auto& e : m.lineStringLayer) out.push_back(e.id());
      for (auto& e : m.polygonLayer) out.push_back(e.id());
      for (auto& e : m.laneletLayer) out.push_back(e.id());
      for (auto& e : m.areaLayer) out.push_back(e.id());
      for (auto& e : m.regulatoryElementLayer) out.push_back(e->id());
    };
    LaneletMap base;
    int n = int(r.i(3, 12));
    std::string trace;
    std::vector<LaneletMapUPtr> keep;
    for (int k = 0; k < n; ++k) {
      int op = int(r.i(0, 9));
      trace += std::to_string(op) + " ";
      sg(uint64_t(op));
      fresh.clear();
      c.event("op" + std::to_string(op));
      auto pt = [&](Id id) { return Point3d(id, r.d(-9, 9), r.d(-9, 9), 0); };
      switch (op) {
        case 0:
          issue(utils::getId(), "getId");
          break;
        case 1: {
          Id id = freshId();
          utils::registerId(id);
          break;
        }
        case 2: {
          // registering an old id must not move the counter back
          auto it = used.begin();
          std::advance(it, long(r.idx(used.size())));
          utils::registerId(*it);
          break;
        }
        case 3: {
          std::vector<Id> u{base.pointLayer.uniqueId(), base.laneletLayer.uniqueId(), base.areaLayer.uniqueId(),
                            base.lineStringLayer.uniqueId(), base.polygonLayer.uniqueId(),
                            base.regulatoryElementLayer.uniqueId()};
          for (auto id : u) {
            // "might produce the same id" for repeated calls, but never one that is in use
            c.check(id != InvalId && !used.count(id), "uniqueId-used", "uniqueId gave ", id, " which is in use");
            used.insert(id);
            top = std::max(top, id);
          }
          break;
        }
        case 4: {  // add one element with an explicit id
          Id id = freshId();
          switch (r.i(0, 5)) {
            case 0:
              base.add(pt(id));
              break;
            case 1:
              base.add(LineString3d(id, {pt(freshId()), pt(freshId())}));
              break;
            case 2:
              base.add(Polygon3d(id, {pt(freshId()), pt(freshId()), pt(freshId())}));
              break;
            case 3:
              base.add(Lanelet(id, LineString3d(freshId(), {pt(freshId()), pt(freshId())}),
                               LineString3d(freshId(), {pt(freshId()), pt(freshId())})));
              break;
            case 4:
              base.add(Area(id, {LineString3d(freshId(), {pt(freshId()), pt(freshId()), pt(freshId())})}));
              break;
            default:
              base.add(SpeedLimit::make(id, AttributeMap(),
                                        {{LineString3d(freshId(), {pt(freshId()), pt(freshId())})}, "de274-50"}));
          }
          break;
        }
        case 5: {  // elements without id get fresh ones
          Lanelet ll(InvalId, LineString3d(InvalId, {pt(InvalId), pt(InvalId)}),
                     LineString3d(InvalId, {pt(InvalId), pt(InvalId)}));
          Polygon3d po(InvalId, {pt(InvalId), pt(InvalId)});
          ll.addRegulatoryElement(
              TrafficLight::make(InvalId, AttributeMap(), {LineString3d(InvalId, {pt(InvalId)})}, {}));
          Area ar(InvalId, {LineString3d(InvalId, {pt(InvalId), pt(InvalId), pt(InvalId)})});
          LaneletMap m;
          m.add(ll);
          m.add(po);
          m.add(ar);
          std::vector<Id> v;
          mapIds(m, v);
          c.check(v.size() == 1 + 2 + 4 + 1 + 2 + 1 + 1 + 1 + 1 + 1 + 3, "missing-elements", v.size());
          for (auto id : v) issue(id, "map.add");
          break;
        }
        case 6: {  // bulk construction with explicit ids
          LineString3d l(freshId(), {pt(freshId()), pt(freshId())}), q(freshId(), {pt(freshId()), pt(freshId())});
          Lanelet ll(freshId(), l, q);
          if (r.p(0.5))
            ll.addRegulatoryElement(TrafficLight::make(freshId(), AttributeMap(), {LineString3d(freshId(), {pt(freshId())})}, {}));
          Area ar(freshId(), {LineString3d(freshId(), {pt(freshId()), pt(freshId()), pt(freshId())})});
          Polygon3d po(freshId(), {pt(freshId()), pt(freshId())});
          switch (r.i(0, 5)) {
            case 0:
              keep.push_back(utils::createMap(Lanelets{ll}));
              break;
            case 1:
              keep.push_back(utils::createMap(Areas{ar}));
              break;
            case 2:
              keep.push_back(utils::createMap(LineStrings3d{l}));
              break;
            case 3:
              keep.push_back(utils::createMap(Polygons3d{po}));
              break;
            case 4:
              keep.push_back(utils::createMap(Points3d{l.front()}));
              break;
            default:
              keep.push_back(utils::createMap(Lanelets{ll}, Areas{ar}));
          }
          auto& m = *keep.back();
          Id u = r.p(0.5) ? m.laneletLayer.uniqueId() : utils::getId();
          std::vector<Id> v;
          mapIds(m, v);
          c.check(!std::count(v.begin(), v.end(), u), "bulk-id-collision", "id ", u,
                  " was issued although the bulk-built map uses it");
          forget(v);
          used.insert(u);
          top = std::max(top, u);
          for (auto id : v) used.insert(id), top = std::max(top, id);
          break;
        }
        case 7: {  // submaps register as well
          LaneletSubmap sm;
          Id id = freshId();
          switch (r.i(0, 3)) {
            case 0:
              sm.add(pt(id));
              break;
            case 1:
              sm.add(LineString3d(id, {}));
              break;
            case 2:
              sm.add(Polygon3d(id, {}));
              break;
            default:
              sm.add(Lanelet(id, LineString3d(freshId(), {pt(freshId())}), LineString3d(freshId(), {pt(freshId())})));
          }
          std::vector<Id> v;
          mapIds(sm, v);
          c.check(v.size() == 1 && v[0] == id, "submap-content", v.size());
          forget(v);
          Point3d q = pt(InvalId);
          sm.add(q);
          issue(q.id(), "submap.add");
          break;
        }
        case 8: {  // probe the ids right after the counter
          int m = int(r.i(1, 15));
          for (int q = 0; q < m; ++q) issue(utils::getId(), "getId");
          break;
        }
        default: {
          // far jump
          if (r.p(0.05)) {
            Id id = top + r.i(1000, 1000000);
            used.insert(id);
            utils::registerId(id);
            top = id;
          } else {
            issue(base.pointLayer.uniqueId(), "uniqueId");
          }
        }
      }
    }
    for (int q = 0; q < 25; ++q) issue(utils::getId(), "getId(end)");
    c.sig(sg.h);
    if (c.wantSample()) c.sample("ops: " + trace);
  }
};
VF_HARNESS(C02, "C02");

std::string segStr(const geo::Shape& s) {
  std::ostringstream os;
  os.precision(17);
  for (auto& e : s.segs) os << "(" << e.first.x << " " << e.first.y << "," << e.second.x << " " << e.second.y << ")";
  return os.str();
}
// ---------------------------------------------------------------- C03
template <typename T>
struct Brute {
  std::vector<T> elems;
  std::vector<geo::Box> boxes;
  std::vector<geo::Shape> shapes;
};
struct C03 : Harness {
  uint64_t numCases(bool th) override { return th ? 30000 : 1500; }
  std::string rule() override {
    return "random maps (incremental/bulk/const/submap) with well-formed elements of all kinds, queried with boxes and "
           "points inside, outside and exactly on element corners; non-trivial = distinct (layer,size,query) results";
  }
  template <typename LayerT, typename ElemsT>
  void layer(Ctx& c, const char* name, LayerT& layer, const ElemsT& elems) {
    using E = typename ElemsT::value_type;
    const LayerT& cl = layer;
    Rng& r = c.rng;
    size_t n = elems.size();
    std::vector<geo::Box> boxes;
    std::vector<geo::Shape> shapes;
    std::map<const void*, size_t> at;
    std::vector<geo::P2> corners;
    std::vector<size_t> ext;  // elements with an extent
    for (size_t i = 0; i < n; ++i) {
      boxes.push_back(boxOf(elems[i]));
      shapes.push_back(shapeOf(elems[i]));
      at[key(elems[i])] = i;
      if (!boxes[i].empty()) {
        ext.push_back(i);
        corners.push_back({boxes[i].x0, boxes[i].y0});
        corners.push_back({boxes[i].x1, boxes[i].y1});
        corners.push_back({boxes[i].x1, boxes[i].y0});
      }
    }
    auto query = [&]() -> geo::P2 {
      if (!corners.empty() && r.p(0.35)) return corners[r.idx(corners.size())];
      if (!corners.empty() && r.p(0.5)) {
        geo::P2 a = corners[r.idx(corners.size())];
        return {a.x + r.d(-8, 8), a.y + r.d(-8, 8)};
      }
      return {r.d(-300, 300), r.d(-300, 300)};
    };
    auto dump = [&](geo::P2 p) {
      std::ostringstream os;
      os.precision(17);
      os << name << " n=" << n << " query (" << p.x << "," << p.y << ")";
      return os.str();
    };
    // --- box search
    for (int q = 0; q < 3; ++q) {
      geo::P2 a = query(), b = query();
      if (r.p(0.5)) b = {a.x + r.d(0, 20), a.y + r.d(0, 20)};
      if (r.p(0.1)) b = a;
      geo::Box qb;
      qb.add(a.x, a.y);
      qb.add(b.x, b.y);
      BoundingBox2d box(BasicPoint2d(qb.x0, qb.y0), BasicPoint2d(qb.x1, qb.y1));
      PtrSet expect;
      for (auto i : ext)
        if (boxes[i].inter2(qb)) expect.insert(key(elems[i]));
      std::multiset<const void*> got, gotc;
      for (auto& e : layer.search(box)) got.insert(key(e));
      for (auto& e : cl.search(box)) gotc.insert(key(e));
      c.check(got.size() == expect.size() && PtrSet(got.begin(), got.end()) == expect, "search", dump(a), " got ",
              got.size(), " expected ", expect.size());
      c.check(got == gotc, "search-const", dump(a));
      std::multiset<const void*> visited;
      auto never = layer.searchUntil(box, [&](auto&, auto& e) {
        visited.insert(key(e));
        return false;
      });
      c.check(!never && visited == got, "searchUntil-visits", dump(a), " visited ", visited.size());
      if (!expect.empty()) {
        auto it = expect.begin();
        std::advance(it, long(r.idx(expect.size())));
        const void* want = *it;
        auto f1 = layer.searchUntil(box, [&](auto&, auto& e) { return key(e) == want; });
        c.check(!!f1 && key(*f1) == want, "searchUntil-result", dump(a));
        auto f2 = cl.searchUntil(box, [&](auto&, auto& e) { return key(e) == want; });
        c.check(!!f2 && key(*f2) == want, "searchUntil-const-result", dump(a));
      }
      c.event("box-queries");
      c.sig(Hash()(std::string(name))(uint64_t(n))(uint64_t(expect.size()))(a.x)(a.y).h);
    }
    // --- nearest
    for (int q = 0; q < 3; ++q) {
      geo::P2 p = query();
      BasicPoint2d bp(p.x, p.y);
      std::vector<double> bd;
      for (auto i : ext) bd.push_back(boxes[i].dist2(p));
      std::sort(bd.begin(), bd.end());
      unsigned k = r.p(0.2) ? unsigned(n + 3) : unsigned(r.i(1, 6));
      auto checkNearest = [&](auto&& res, const char* kind) {
        c.check(res.size() == std::min<size_t>(k, ext.size()), "nearest-count", kind, dump(p), " k=", k, " got ",
                res.size());
        std::vector<double> d;
        PtrSet uniq;
        for (auto& e : res) {
          d.push_back(boxes[at.at(key(e))].dist2(p));
          uniq.insert(key(e));
        }
        std::sort(d.begin(), d.end());
        c.check(uniq.size() == res.size(), "nearest-dup", kind, dump(p));
        for (size_t i = 0; i < d.size(); ++i)
          c.check(c.close(d[i], bd[i], 1e-6 + 1e-9 * bd[i]), "nearest-set", kind, dump(p), " k=", k, " rank ", i,
                  " dist ", d[i], " expected ", bd[i]);
      };
      checkNearest(layer.nearest(bp, k), "mutable ");
      checkNearest(cl.nearest(bp, k), "const ");
      // visit order
      double last = 0;
      std::multiset<const void*> visited;
      auto order = [&](auto& box, auto& e) {
        geo::Box& b = boxes[at.at(key(e))];
        double d = b.dist2(p);
        c.check(d >= last - 1e-6 - 1e-9 * last, "nearestUntil-order", dump(p), " ", d, " after ", last);
        last = std::max(last, d);
        visited.insert(key(e));
        geo::Box given = toBox(box);
        c.check(given.x0 == b.x0 && given.x1 == b.x1 && given.y0 == b.y0 && given.y1 == b.y1, "nearestUntil-box",
                dump(p), " passed a wrong bounding box");
        return false;
      };
      auto none = layer.nearestUntil(bp, order);
      c.check(!none && visited.size() == ext.size() && PtrSet(visited.begin(), visited.end()).size() == ext.size(),
              "nearestUntil-visits", dump(p), " visited ", visited.size(), " of ", ext.size());
      last = 0;
      visited.clear();
      auto none2 = cl.nearestUntil(bp, order);
      c.check(!none2 && visited.size() == ext.size(), "nearestUntil-const-visits", dump(p));
      if (!ext.empty()) {
        const void* want = key(elems[ext[r.idx(ext.size())]]);
        auto f = layer.nearestUntil(bp, [&](auto&, auto& e) { return key(e) == want; });
        c.check(!!f && key(*f) == want, "nearestUntil-result", dump(p));
      }
      c.event("nearest-queries");
      // --- findNearest with true distances
      std::vector<double> td;
      for (auto i : ext) {
        geo::Shape ps;
        ps.segs.push_back({p, p});
        td.push_back(geo::dist(shapes[i], ps));
      }
      auto tdOf = [&](const void* kk) {
        geo::Shape ps;
        ps.segs.push_back({p, p});
        return geo::dist(shapes[at.at(kk)], ps);
      };
      std::vector<double> sorted = td;
      std::sort(sorted.begin(), sorted.end());
      auto checkFN = [&](auto&& res, const char* kind) {
        c.check(res.size() == std::min<size_t>(k, ext.size()), "findNearest-count", kind, dump(p), " k=", k, " got ",
                res.size());
        PtrSet uniq;
        for (size_t i = 0; i < res.size(); ++i) {
          uniq.insert(key(res[i].second));
          double t = tdOf(key(res[i].second));
          double tol = 1e-6 + 1e-9 * t;
          c.check(c.close(res[i].first, t, tol), "findNearest-dist", kind, dump(p), " reported ", res[i].first,
                  " true ", t, " ", segStr(shapes[at.at(key(res[i].second))]));
          c.check(c.close(res[i].first, sorted[i], tol), "findNearest-rank", kind, dump(p), " rank ", i, " got ",
                  res[i].first, " expected ", sorted[i]);
          if (i) c.check(res[i].first >= res[i - 1].first, "findNearest-sorted", kind, dump(p));
        }
        c.check(uniq.size() == res.size(), "findNearest-dup", kind, dump(p));
      };
      checkFN(geometry::findNearest(layer, bp, k), "mutable ");
      checkFN(geometry::findNearest(cl, bp, k), "const ");
      c.event("findNearest-queries");
    }
    {
      BasicPoint2d bp(0, 0);
      c.check(layer.nearest(bp, 0).empty(), "nearest-zero", name);
      c.check(geometry::findNearest(layer, bp, 0).empty(), "findNearest-zero", name);
    }
  }
  static geo::Box toBox(const BoundingBox2d& b) {
    geo::Box o;
    o.add(b.min().x(), b.min().y());
    o.add(b.max().x(), b.max().y());
    return o;
  }
  static geo::Box toBox(const BasicPoint2d& b) {
    geo::Box o;
    o.add(b.x(), b.y());
    return o;
  }
  template <typename LayerT, typename ElemsT, typename GeomT>
  void within2(Ctx& c, const char* name, LayerT& layer, const ElemsT& elems, const GeomT& geom, const geo::Shape& gs,
               double maxDist) {
    std::vector<std::pair<double, const void*>> got;
    double last = -1;
    for (auto& e : geometry::findWithin2d(layer, geom, maxDist)) {
      got.push_back({e.first, key(e.second)});
      c.check(e.first >= last, "findWithin2d-sorted", name);
      last = e.first;
    }
    std::map<const void*, double> g;
    for (auto& e : got) c.check(g.emplace(e.second, e.first).second, "findWithin2d-dup", name);
    for (auto& e : elems) {
      double d = geo::dist(shapeOf(e), gs);
      bool in = g.count(key(e)) != 0;
      if (in)
        c.check(c.close(g[key(e)], d, 1e-6 + 1e-9 * d), "findWithin2d-dist", name, " reported ", g[key(e)], " true ",
                d);
      // rounding may matter right at the limit (documented)
      if (d < maxDist - 1e-6 || (d == 0 && maxDist > 0))
        c.check(in, "findWithin2d-missing", name, " element ", idOf(e), " at ", d, " max ", maxDist);
      if (d > maxDist + 1e-6) c.check(!in, "findWithin2d-extra", name, " element ", idOf(e), " at ", d, " max ", maxDist);
    }
    c.event("findWithin2d");
    c.sig(Hash()(std::string(name))(uint64_t(g.size()))(maxDist).h);
  }
  template <typename LayerT, typename ElemsT>
  void within3(Ctx& c, const char* name, LayerT& layer, const ElemsT& elems, const ConstPoint3d& pt, double maxDist) {
    double last = -1;
    std::map<const void*, double> g;
    for (auto& e : geometry::findWithin3d(layer, pt, maxDist)) {
      c.check(g.emplace(key(e.second), e.first).second, "findWithin3d-dup", name);
      c.check(e.first >= last, "findWithin3d-sorted", name);
      last = e.first;
    }
    for (auto& e : elems) {
      double d = dist3(e, g3(pt.basicPoint()));
      if (std::isnan(d)) continue;
      bool in = g.count(key(e)) != 0;
      if (in)
        c.check(c.close(g[key(e)], d, 1e-6 + 1e-9 * d), "findWithin3d-dist", name, " reported ", g[key(e)], " true ",
                d);
      if (d < maxDist - 1e-6) c.check(in, "findWithin3d-missing", name, " element ", idOf(e), " at ", d, " max ", maxDist);
      if (d > maxDist + 1e-6) c.check(!in, "findWithin3d-extra", name, " element ", idOf(e), " at ", d, " max ", maxDist);
    }
    c.event("findWithin3d");
  }
  static double dist3(const ConstPoint3d& e, geo::P3 p) { return geo::norm(g3(e.basicPoint()) - p); }
  static double dist3(const ConstLineString3d& e, geo::P3 p) { return geo::distLine(lineOf3(e), p); }

  void run(Ctx& c) override {
    Rng& r = c.rng;
    IdSource ids(r);
    WorldOpts o;
    int big = int(r.i(0, 3));
    o.strips = int(r.i(0, big == 0 ? 12 : 4));
    o.lines = int(r.i(0, big == 1 ? 40 : 8));
    o.polys = int(r.i(0, big == 2 ? 30 : 5));
    o.areas = int(r.i(0, big == 3 ? 20 : 4));
    o.regs = int(r.i(0, 6));
    o.extent = r.pick({20., 100., 400.});
    o.attrs = false;
    o.grid = 0;
    WorldGen g(r, ids, o);
    World& w = g.all();
    std::unique_ptr<LaneletMap> m;
    std::unique_ptr<LaneletSubmap> sm;
    LaneletMapLayers* L = nullptr;
    int how = int(r.i(0, 3));
    auto v = allOf(w);
    r.shuffle(v);
    if (how == 0) {
      m = std::make_unique<LaneletMap>();
      for (auto& e : v) addAny(*m, w, e, r);
      L = m.get();
    } else if (how == 1) {
      m = utils::createMap(Lanelets(w.lanelets.begin(), w.lanelets.end()), Areas(w.areas.begin(), w.areas.end()));
      if (r.p(0.5))
        for (auto& e : v) addAny(*m, w, e, r);
      L = m.get();
    } else if (how == 2) {
      sm = std::make_unique<LaneletSubmap>();
      for (auto& e : v)
        if (r.p(0.6)) addAny(*sm, w, e, r);
      L = sm.get();
    } else {
      m = std::make_unique<LaneletMap>();
      for (auto& e : v)
        if (r.p(0.3)) addAny(*m, w, e, r);
      L = m.get();
    }
    c.event("built" + std::to_string(how));
    Points3d pts(L->pointLayer.begin(), L->pointLayer.end());
    LineStrings3d lss(L->lineStringLayer.begin(), L->lineStringLayer.end());
    Polygons3d pos(L->polygonLayer.begin(), L->polygonLayer.end());
    Lanelets lls(L->laneletLayer.begin(), L->laneletLayer.end());
    Areas ars(L->areaLayer.begin(), L->areaLayer.end());
    RegulatoryElementPtrs res(L->regulatoryElementLayer.begin(), L->regulatoryElementLayer.end());
    // keep only queries on elements with simple outlines: the true distance is not defined otherwise
    bool simple = true;
    for (auto& l : lls) simple = simple && geo::simpleRing(ringOfLanelet(l));
    for (auto& a : ars) simple = simple && geo::simpleRing(polyOfArea(a).outer);
    if (!simple) {
      c.event("skipped-not-simple");
      return;
    }
    layer(c, "point", L->pointLayer, pts);
    layer(c, "line", L->lineStringLayer, lss);
    layer(c, "polygon", L->polygonLayer, pos);
    layer(c, "lanelet", L->laneletLayer, lls);
    layer(c, "area", L->areaLayer, ars);
    layer(c, "regelem", L->regulatoryElementLayer, res);
    // findWithin
    for (int q = 0; q < 3; ++q) {
      geo::P2 p{r.d(-o.extent, o.extent), r.d(-o.extent, o.extent)};
      if (!pts.empty() && r.p(0.5)) {
        auto& a = pts[r.idx(pts.size())];
        p = {a.x() + r.d(-5, 5), a.y() + r.d(-5, 5)};
      }
      double maxDist = r.pick({0., 0.5, 3., 10., 50.});
      switch (r.i(0, 4)) {
        case 0: {
          BasicPoint2d bp(p.x, p.y);
          geo::Shape s;
          s.segs.push_back({p, p});
          within2(c, "point~point", L->pointLayer, pts, bp, s, maxDist);
          within2(c, "line~point", L->lineStringLayer, lss, bp, s, maxDist);
          within2(c, "polygon~point", L->polygonLayer, pos, bp, s, maxDist);
          within2(c, "lanelet~point", L->laneletLayer, lls, bp, s, maxDist);
          within2(c, "area~point", L->areaLayer, ars, bp, s, maxDist);
          const LaneletLayer& cll = L->laneletLayer;
          within2(c, "constlanelet~point", cll, lls, bp, s, maxDist);
          break;
        }
        case 1: {
          BasicLineString2d l;
          geo::Line gl;
          geo::P2 q2 = p;
          for (int64_t k = r.i(2, 5); k > 0; --k) {
            l.push_back(BasicPoint2d(q2.x, q2.y));
            gl.push_back(q2);
            q2 = {q2.x + r.d(-10, 10), q2.y + r.d(-10, 10)};
          }
          geo::Shape s;
          geo::segsOfLine(gl, s.segs);
          within2(c, "point~line", L->pointLayer, pts, l, s, maxDist);
          within2(c, "line~line", L->lineStringLayer, lss, l, s, maxDist);
          within2(c, "polygon~line", L->polygonLayer, pos, l, s, maxDist);
          within2(c, "lanelet~line", L->laneletLayer, lls, l, s, maxDist);
          break;
        }
        case 2: {
          auto ring = starRing(r, p, 1, 15, int(r.i(3, 7)));
          std::reverse(ring.begin(), ring.end());
          BasicPolygon2d bp;
          for (auto& x : ring) bp.push_back(b2(x));
          geo::Shape s;
          geo::Poly po;
          po.outer = ring;
          s.add(po);
          within2(c, "point~poly", L->pointLayer, pts, bp, s, maxDist);
          within2(c, "line~poly", L->lineStringLayer, lss, bp, s, maxDist);
          within2(c, "polygon~poly", L->polygonLayer, pos, bp, s, maxDist);
          within2(c, "lanelet~poly", L->laneletLayer, lls, bp, s, maxDist);
          break;
        }
        default: {
          Point3d p3(utils::getId(), p.x, p.y, r.d(-6, 6));
          within3(c, "point~3d", L->pointLayer, pts, p3, maxDist);
          within3(c, "line~3d", L->lineStringLayer, lss, p3, maxDist);
        }
      }
    }
    if (c.wantSample()) c.sample(worldStr(w));
  }
};
VF_HARNESS(C03, "C03");

// ---------------------------------------------------------------- C04
struct C04 : Harness {
  uint64_t numCases(bool th) override { return th ? 40000 : 1800; }
  std::string rule() override {
    return "random maps and submaps built incrementally or in bulk; every element of the world is looked up in every "
           "layer that can own it and compared with a full scan; non-trivial = distinct world structure";
  }
  template <typename V>
  PtrSet ps(const V& v) {
    PtrSet s;
    for (auto& e : v) s.insert(key(e));
    return s;
  }
  void run(Ctx& c) override {
    Rng& r = c.rng;
    IdSource ids(r);
    int how = int(r.i(0, 3));
    ids.pInvalid = how == 0 ? r.pick({0., 0.5, 1.}) : 0;
    WorldGen g(r, ids, randOpts(r));
    World& w = g.all();
    auto v = allOf(w);
    r.shuffle(v);
    std::unique_ptr<LaneletMapLayers> holder;
    LaneletMapLayers* L = nullptr;
    std::unique_ptr<LaneletMap> m;
    std::unique_ptr<LaneletSubmap> sm;
    if (how == 0) {
      m = std::make_unique<LaneletMap>();
      for (auto& e : v)
        if (r.p(0.6)) addAny(*m, w, e, r);
      L = m.get();
    } else if (how == 1) {
      m = utils::createMap(Lanelets(w.lanelets.begin(), w.lanelets.end()), Areas(w.areas.begin(), w.areas.end()));
      L = m.get();
    } else if (how == 2) {
      sm = std::make_unique<LaneletSubmap>();
      for (auto& e : v)
        if (r.p(0.6)) addAny(*sm, w, e, r);
      L = sm.get();
    } else {
      Lanelets some;
      for (auto& l : w.lanelets)
        if (r.p(0.5)) some.push_back(l);
      m = utils::createMap(some);
      for (auto& e : v)
        if (r.p(0.4)) addAny(*m, w, e, r);
      L = m.get();
    }
    c.event("built" + std::to_string(how));
    const LaneletMapLayers& cL = *L;
    uint64_t hits = 0;
    for (auto& p : w.pts) {
      PtrSet el, ep;
      for (auto& l : cL.lineStringLayer)
        for (size_t i = 0; i < l.size(); ++i)
          if (l[i] == p) el.insert(key(l));
      for (auto& l : cL.polygonLayer)
        for (size_t i = 0; i < l.size(); ++i)
          if (ConstPoint3d(l[i]) == p) ep.insert(key(l));
      c.check(ps(cL.lineStringLayer.findUsages(p)) == el, "point-in-line", "point ", p.id(), " expected ", el.size());
      c.check(ps(L->lineStringLayer.findUsages(p)) == el, "point-in-line-mut", "point ", p.id());
      c.check(ps(cL.polygonLayer.findUsages(p)) == ep, "point-in-polygon", "point ", p.id(), " expected ", ep.size());
      c.check(ps(L->polygonLayer.findUsages(p)) == ep, "point-in-polygon-mut", "point ", p.id());
      hits += el.size() + ep.size();
      // point -> lanelet through bounds that are part of the line string layer
      PtrSet ell, ear;
      if (how != 2) {
        for (auto& l : cL.laneletLayer)
          for (auto& b : {l.leftBound(), l.rightBound()})
            for (size_t i = 0; i < b.size(); ++i)
              if (b[i] == p) ell.insert(key(l));
        for (auto& a : cL.areaLayer) {
          auto scan = [&](auto& b) {
            for (size_t i = 0; i < b.size(); ++i)
              if (b[i] == p) ear.insert(key(a));
          };
          for (auto& b : a.outerBound()) scan(b);
          for (auto& h : a.innerBounds())
            for (auto& b : h) scan(b);
        }
        c.check(ps(utils::findUsagesInLanelets(cL, p)) == ell, "point-in-lanelet", "point ", p.id(), " expected ",
                ell.size(), " got ", ps(utils::findUsagesInLanelets(cL, p)).size());
        c.check(ps(utils::findUsagesInAreas(cL, p)) == ear, "point-in-area", "point ", p.id(), " expected ", ear.size());
        hits += ell.size() + ear.size();
      }
      if (p.id() != InvalId && r.p(0.3)) {
        PtrSet e2;
        for (auto& l : cL.lineStringLayer)
          for (size_t i = 0; i < l.size(); ++i)
            if (l[i].id() == p.id()) e2.insert(key(l));
        c.check(ps(utils::findUsages(cL.lineStringLayer, p.id())) == e2, "id-in-line", "point ", p.id());
        PtrSet e3;
        for (auto& l : cL.polygonLayer)
          for (size_t i = 0; i < l.size(); ++i)
            if (l[i].id() == p.id()) e3.insert(key(l));
        c.check(ps(utils::findUsages(cL.polygonLayer, p.id())) == e3, "id-in-polygon", "point ", p.id());
      }
    }
    for (auto& l0 : w.lines) {
      for (auto l : {l0, l0.invert()}) {
        PtrSet ell, ear;
        for (auto& ll : cL.laneletLayer)
          if (ll.leftBound() == l || ll.rightBound() == l) ell.insert(key(ll));
        for (auto& a : cL.areaLayer) {
          for (auto& b : a.outerBound())
            if (b == l) ear.insert(key(a));
          for (auto& h : a.innerBounds())
            for (auto& b : h)
              if (b == l) ear.insert(key(a));
        }
        c.check(ps(cL.laneletLayer.findUsages(l)) == ell, "line-in-lanelet", "line ", l.id(), " inv ", l.inverted());
        c.check(ps(L->laneletLayer.findUsages(l)) == ell, "line-in-lanelet-mut", "line ", l.id());
        c.check(ps(cL.areaLayer.findUsages(l)) == ear, "line-in-area", "line ", l.id());
        c.check(ps(L->areaLayer.findUsages(l)) == ear, "line-in-area-mut", "line ", l.id());
        hits += ell.size() + ear.size();
      }
    }
    for (auto& re : w.regs) {
      PtrSet ell, ear;
      for (auto& ll : cL.laneletLayer)
        for (auto& x : ll.regulatoryElements())
          if (x == re) ell.insert(key(ll));
      for (auto& ll : cL.areaLayer)
        for (auto& x : ll.regulatoryElements())
          if (x == re) ear.insert(key(ll));
      c.check(ps(cL.laneletLayer.findUsages(re)) == ell, "reg-in-lanelet", "regelem ", re->id());
      c.check(ps(L->laneletLayer.findUsages(re)) == ell, "reg-in-lanelet-mut", "regelem ", re->id());
      c.check(ps(cL.areaLayer.findUsages(re)) == ear, "reg-in-area", "regelem ", re->id());
      c.check(ps(L->areaLayer.findUsages(re)) == ear, "reg-in-area-mut", "regelem ", re->id());
      hits += ell.size() + ear.size();
    }
    // element -> regulatory element
    auto regScan = [&](const ConstRuleParameter& prm, auto same) {
      PtrSet e;
      for (auto& re : cL.regulatoryElementLayer)
        for (auto& x : paramsOf(*re))
          if (same(x.second)) e.insert(key(re));
      c.check(ps(cL.regulatoryElementLayer.findUsages(prm)) == e, "param-in-reg", "which ", prm.which(), " expected ",
              e.size());
      c.check(ps(L->regulatoryElementLayer.findUsages(prm)) == e, "param-in-reg-mut", "which ", prm.which());
      hits += e.size();
    };
    for (auto& l0 : w.lines)
      for (auto l : {l0, l0.invert()})
        regScan(ConstLineString3d(l), [&](const ConstRuleParameter& x) {
          auto* q = boost::get<ConstLineString3d>(&x);
          return q && *q == l;
        });
    for (auto& l : w.polys)
      regScan(ConstPolygon3d(l), [&](const ConstRuleParameter& x) {
        auto* q = boost::get<ConstPolygon3d>(&x);
        return q && *q == l;
      });
    for (auto& l : w.pts)
      if (r.p(0.3))
        regScan(ConstPoint3d(l), [&](const ConstRuleParameter& x) {
          auto* q = boost::get<ConstPoint3d>(&x);
          return q && *q == l;
        });
    for (auto& l : w.lanelets)
      regScan(ConstWeakLanelet(l), [&](const ConstRuleParameter& x) {
        auto* q = boost::get<ConstWeakLanelet>(&x);
        return q && !q->expired() && q->lock() == l;
      });
    for (auto& l : w.areas)
      regScan(ConstWeakArea(l), [&](const ConstRuleParameter& x) {
        auto* q = boost::get<ConstWeakArea>(&x);
        return q && !q->expired() && q->lock() == l;
      });
    // by id
    for (auto& l : w.lanelets)
      if (l.id() != InvalId) {
        PtrSet e;
        for (auto& re : cL.regulatoryElementLayer)
          for (auto& x : paramsOf(*re)) {
            Id pid = InvalId;
            if (auto* q = boost::get<ConstWeakLanelet>(&x.second)) pid = q->expired() ? InvalId : q->lock().id();
            if (pid == l.id()) e.insert(key(re));
          }
        // has() reports an id of any member, ids are unique over the world
        c.check(ps(utils::findUsages(cL.regulatoryElementLayer, l.id())) == e, "id-in-reg", "lanelet ", l.id());
      }
    c.event("owners-found", hits);
    c.sig(Hash()(worldSig(w))(uint64_t(how))(hits).h);
    if (c.wantSample()) c.sample(worldStr(w) + " owners " + std::to_string(hits));
  }
};
VF_HARNESS(C04, "C04");
}  // namespace
