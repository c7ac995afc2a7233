// Reachability closure of map elements and its comparison with a map's layers.
#pragma once
#include <lanelet2_core/LaneletMap.h>

#include "gen.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;
using namespace gen;
namespace {
inline const void* key(const ConstPoint3d& p) { return p.constData().get(); }
inline const void* key(const ConstLineString3d& p) { return p.constData().get(); }
inline const void* key(const ConstPolygon3d& p) { return p.constData().get(); }
inline const void* key(const ConstLanelet& p) { return p.constData().get(); }
inline const void* key(const ConstArea& p) { return p.constData().get(); }
inline const void* key(const RegulatoryElementConstPtr& p) { return p->constData().get(); }
inline Id idOf(const RegulatoryElementConstPtr& p) { return p->id(); }
template <typename T>
Id idOf(const T& p) {
  return p.id();
}

using PtrSet = std::set<const void*>;
struct Closure {
  PtrSet pts, lines, polys, lls, areas, regs;
  void add(const ConstPoint3d& p) { pts.insert(key(p)); }
  void add(const ConstLineString3d& l) {
    if (!lines.insert(key(l)).second) return;
    for (size_t i = 0; i < l.size(); ++i) add(l[i]);
  }
  void add(const ConstPolygon3d& l) {
    if (!polys.insert(key(l)).second) return;
    for (size_t i = 0; i < l.size(); ++i) add(l[i]);
  }
  void add(const RegulatoryElementConstPtr& re) {
    if (!regs.insert(key(re)).second) return;
    for (auto& e : paramsOf(*re)) {
      auto& p = e.second;
      if (auto* x = boost::get<ConstPoint3d>(&p)) add(*x);
      if (auto* x = boost::get<ConstLineString3d>(&p)) add(*x);
      if (auto* x = boost::get<ConstPolygon3d>(&p)) add(*x);
      if (auto* x = boost::get<ConstWeakLanelet>(&p))
        if (!x->expired()) add(x->lock());
      if (auto* x = boost::get<ConstWeakArea>(&p))
        if (!x->expired()) add(x->lock());
    }
  }
  void add(const ConstLanelet& l) {
    if (!lls.insert(key(l)).second) return;
    add(l.leftBound());
    add(l.rightBound());
    if (l.hasCustomCenterline()) add(l.centerline());
    for (auto& re : l.regulatoryElements()) add(re);
  }
  void add(const ConstArea& a) {
    if (!areas.insert(key(a)).second) return;
    for (auto& l : a.outerBound()) add(l);
    for (auto& h : a.innerBounds())
      for (auto& l : h) add(l);
    for (auto& re : a.regulatoryElements()) add(re);
  }
  size_t size() const { return pts.size() + lines.size() + polys.size() + lls.size() + areas.size() + regs.size(); }
};

template <typename LayerT>
void checkLayer(Ctx& c, const char* name, const LayerT& layer, const PtrSet& expect) {
  c.check(layer.size() == expect.size(), "layer-size", name, ": size ", layer.size(), " expected ", expect.size());
  c.check(layer.empty() == expect.empty(), "layer-empty", name);
  PtrSet seen;
  std::set<Id> ids;
  for (const auto& e : layer) {
    c.check(expect.count(key(e)) == 1, "layer-foreign", name, ": element ", idOf(e), " is not reachable");
    c.check(seen.insert(key(e)).second, "layer-dup", name, ": element ", idOf(e), " twice");
    Id id = idOf(e);
    c.check(id != InvalId, "layer-invalid-id", name);
    c.check(ids.insert(id).second, "layer-dup-id", name, ": id ", id, " twice");
    c.check(layer.exists(id), "layer-exists", name, ": id ", id);
    c.check(key(layer.get(id)) == key(e), "layer-get", name, ": get(", id, ") is another object");
    auto it = layer.find(id);
    c.check(it != layer.end() && key(*it) == key(e), "layer-find", name, ": find(", id, ")");
    auto& mut = const_cast<LayerT&>(layer);
    auto mit = mut.find(id);
    c.check(mit != mut.end() && key(*mit) == key(e) && key(mut.get(id)) == key(e), "layer-find", name, ": find(", id, ") of a non-const map");
  }
  c.check(seen == expect, "layer-missing", name, ": ", expect.size() - seen.size(), " reachable elements are missing");
  for (Id probe : {Id(0), Id(-123456789), Id(1) << 40}) {
    if (ids.count(probe)) continue;
    c.check(!layer.exists(probe), "layer-exists-wrong", name, ": exists(", probe, ")");
    bool threw = false;
    try {
      layer.get(probe);
    } catch (NoSuchPrimitiveError&) {
      threw = true;
    }
    c.check(threw, "layer-get-wrong", name, ": get(", probe, ") did not throw");
    c.check(layer.find(probe) == layer.end(), "layer-find-wrong", name);
    auto& mut = const_cast<LayerT&>(layer);
    threw = false;
    try {
      mut.get(probe);
    } catch (NoSuchPrimitiveError&) {
      threw = true;
    }
    c.check(threw && mut.find(probe) == mut.end(), "layer-get-wrong", name, ": get(", probe, ") of a non-const map");
  }
}
inline void checkMap(Ctx& c, const LaneletMapLayers& m, const Closure& cl) {
  checkLayer(c, "point", m.pointLayer, cl.pts);
  checkLayer(c, "line", m.lineStringLayer, cl.lines);
  checkLayer(c, "polygon", m.polygonLayer, cl.polys);
  checkLayer(c, "lanelet", m.laneletLayer, cl.lls);
  checkLayer(c, "area", m.areaLayer, cl.areas);
  checkLayer(c, "regelem", m.regulatoryElementLayer, cl.regs);
  c.check(m.size() == cl.size() && m.empty() == (cl.size() == 0), "map-size", m.size(), " vs ", cl.size());
}

// every element also has to be reachable through the spatial index exactly once (if it has an extent)
template <typename LayerT>
void checkIndexed(Ctx& c, const char* name, const LayerT& layer) {
  std::multiset<const void*> hits;
  for (auto& e : layer.search(BoundingBox2d(BasicPoint2d(-1e9, -1e9), BasicPoint2d(1e9, 1e9)))) hits.insert(key(e));
  size_t n = 0;
  for (const auto& e : layer) {
    if (boxOf(e).empty()) continue;
    ++n;
    c.check(hits.count(key(e)) == 1, "index-once", name, ": element ", idOf(e), " found ", hits.count(key(e)), " times");
  }
  c.check(hits.size() == n, "index-size", name);
}
inline void checkIndex(Ctx& c, const LaneletMapLayers& m) {
  checkIndexed(c, "point", m.pointLayer);
  checkIndexed(c, "line", m.lineStringLayer);
  checkIndexed(c, "polygon", m.polygonLayer);
  checkIndexed(c, "lanelet", m.laneletLayer);
  checkIndexed(c, "area", m.areaLayer);
  checkIndexed(c, "regelem", m.regulatoryElementLayer);
}

}  // namespace
