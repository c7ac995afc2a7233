// C10: handles that stand for one of several kinds of primitives, weak references, lanelet sequences and compound conversions behave like what they refer to.
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/LaneletOrArea.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineStringOrPolygon.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Types.h>

#include <unordered_set>

#include "gen.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;

namespace {
template <typename T>
std::string str(const T& t) {
  std::ostringstream s;
  s << t;
  return s.str();
}
// consecutive identical points are visited once
std::vector<const void*> uniq(const ConstLineStrings3d& ls) {
  std::vector<const void*> r;
  for (auto& l : ls)
    for (size_t i = 0; i < l.size(); ++i) {
      const void* p = l[i].constData().get();
      if (r.empty() || r.back() != p) r.push_back(p);
    }
  return r;
}
template <typename C>
std::vector<const void*> pointsOf(const C& c) {
  std::vector<const void*> r;
  for (auto it = c.begin(); it != c.end(); ++it) r.push_back((*it).constData().get());
  return r;
}
template <typename A, typename B>
bool same(const A& a, const B& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}

struct C10 : Harness {
  uint64_t numCases(bool th) override { return th ? 300000 : 16000; }
  std::string rule() override {
    return "a case is one generated map whose elements are put into handles (assigned, copied, moved, inverted, compared pairwise), referenced weakly and dropped, joined to "
           "sequences, compounds and paths; distinct states are hashes of the map and of the chosen elements";
  }

  void laneletOrArea(Ctx& c, gen::WorldGen& g) {
    auto& r = c.rng;
    auto& w = g.w;
    struct E {
      ConstLaneletOrArea h;
      ConstLanelet ll;
      ConstArea ar;
      bool isArea;
    };
    std::vector<E> v;
    for (int k = 0; k < 6; ++k) {
      bool area = !w.areas.empty() && r.p(.4);
      E e;
      e.isArea = area;
      if (area) {
        Area a = r.pick(w.areas);
        e.ar = a;
        switch (r.i(0, 3)) {
          case 0: e.h = ConstLaneletOrArea(a); break;
          case 1: e.h = g.anyLanelet(); e.h = a; break;
          case 2: e.h = ConstArea(a); break;
          default: {
            ConstLaneletOrArea t(a);
            ConstLaneletOrArea u(t);
            e.h = std::move(u);
          }
        }
      } else {
        Lanelet l = g.anyLanelet();
        e.ll = l;
        switch (r.i(0, 3)) {
          case 0: e.h = ConstLaneletOrArea(l); break;
          case 1:
            if (!w.areas.empty()) e.h = r.pick(w.areas);
            e.h = ConstLanelet(l);
            break;
          case 2: e.h = l; break;
          default: {
            ConstLaneletOrArea t(l), u;
            u = t;
            e.h = u;
          }
        }
      }
      v.push_back(e);
    }
    std::unordered_set<ConstLaneletOrArea> set;
    ConstLaneletOrAreas all;
    ConstLanelets lls;
    ConstAreas ars;
    std::set<std::pair<const void*, bool>> distinct;
    for (auto& e : v) {
      auto& h = e.h;
      c.event(e.isArea ? "area handles" : "lanelet handles");
      c.check(h.isArea() == e.isArea && h.isLanelet() != e.isArea && !!h.area() == e.isArea && !!h.lanelet() == !e.isArea, "C10:kind", "kind of the handle");
      if (e.isArea) {
        c.check(*h.area() == e.ar && static_cast<const ConstArea&>(h) == e.ar && h.id() == e.ar.id() && &h.attributes() == &e.ar.attributes(), "C10:area", "handle of area ", e.ar.id());
        c.check(same(h.regulatoryElements(), e.ar.regulatoryElements()), "C10:regulatory-elements", "of area ", e.ar.id());
        c.check(same(h.regulatoryElementsAs<TrafficSign>(), e.ar.regulatoryElementsAs<TrafficSign>()), "C10:regulatory-elements-as", "of area ", e.ar.id());
        c.check(pointsOf(h.boundingPolygon()) == uniq(e.ar.outerBound()), "C10:bounding-polygon", "of area ", e.ar.id());
        c.check(str(h) == str(e.ar), "C10:print", str(h));
        ars.push_back(e.ar);
        distinct.insert({e.ar.constData().get(), false});
      } else {
        c.check(*h.lanelet() == e.ll && static_cast<const ConstLanelet&>(h) == e.ll && h.id() == e.ll.id() && &h.attributes() == &e.ll.attributes() &&
                    h.lanelet()->inverted() == e.ll.inverted(),
                "C10:lanelet", "handle of lanelet ", e.ll.id());
        c.check(same(h.regulatoryElements(), e.ll.regulatoryElements()), "C10:regulatory-elements", "of lanelet ", e.ll.id());
        c.check(same(h.regulatoryElementsAs<SpeedLimit>(), e.ll.regulatoryElementsAs<SpeedLimit>()), "C10:regulatory-elements-as", "of lanelet ", e.ll.id());
        c.check(pointsOf(h.boundingPolygon()) == pointsOf(e.ll.polygon3d()), "C10:bounding-polygon", "of lanelet ", e.ll.id());
        c.check(str(h) == str(e.ll), "C10:print", str(h));
        lls.push_back(e.ll);
        distinct.insert({e.ll.constData().get(), e.ll.inverted()});
      }
      set.insert(h);
      all.push_back(h);
      c.check(h.applyVisitor([](auto& x) { return x.id(); }) == h.id(), "C10:visitor", "visitor");
    }
    c.check(set.size() == distinct.size(), "C10:hash", set.size(), " distinct handles in a set instead of ", distinct.size());
    for (auto& a : v)
      for (auto& b : v) {
        bool eq = a.isArea == b.isArea && (a.isArea ? a.ar == b.ar : a.ll == b.ll);
        c.check((a.h == b.h) == eq && (a.h != b.h) == !eq && a.h.equals(b.h) == eq, "C10:equal", "handles of ", a.h.id(), " and ", b.h.id(), " equal: ", !eq);
      }
    c.check(utils::getAllLanelets(all) == lls, "C10:all-lanelets", "getAllLanelets");
    c.check(utils::getAllAreas(all) == ars, "C10:all-areas", "getAllAreas");
    // paths of handles
    ConstLaneletOrAreas part(all.begin(), all.begin() + r.i(0, 6)), other = part;
    if (!other.empty() && r.p(.6)) {
      if (r.p(.5)) other.pop_back();
      else other[r.idx(other.size())] = r.pick(all);
    }
    routing::LaneletOrAreaPath p(part), q(other);
    c.check((p == q) == (part == other) && (p != q) == (part != other), "C10:area-path-equal", "paths");
    c.check(p.size() == part.size() && p.empty() == part.empty() && same(p, part), "C10:area-path", "elements");
    const auto& cp = p;
    if (!part.empty()) c.check(p.front() == part.front() && p.back() == part.back() && cp[part.size() - 1] == part.back() && *cp.begin() == part.front(), "C10:area-path", "ends");
    ConstLanelets lp(lls.begin(), lls.begin() + long(r.idx(lls.size() + 1))), lo = lp;
    if (!lo.empty() && r.p(.6)) lo[r.idx(lo.size())] = r.pick(lls);
    routing::LaneletPath a(lp), b(lo);
    c.check((a == b) == (lp == lo) && (a != b) == (lp != lo), "C10:path-equal", "paths");
    c.check(a.size() == lp.size() && a.empty() == lp.empty() && same(a, lp), "C10:path", "elements");
    if (!lls.empty()) {
      auto rel = [&] { return routing::LaneletRelation{r.pick(lls), r.pick({routing::RelationType::Left, routing::RelationType::Successor})}; };
      auto x = rel(), y = rel();
      bool eq = x.lanelet == y.lanelet && x.relationType == y.relationType;
      c.check((x == y) == eq && (x != y) == !eq, "C10:relation-equal", "relations");
    }
  }

  void lineOrPolygon(Ctx& c, gen::WorldGen& g) {
    auto& r = c.rng;
    auto& w = g.w;
    struct E {
      LineStringOrPolygon3d h;
      LineString3d l;
      Polygon3d p;
      bool poly;
    };
    std::vector<E> v;
    for (int k = 0; k < 6; ++k) {
      E e;
      e.poly = !w.polys.empty() && r.p(.4);
      LineString3d l = g.anyLine();
      if (e.poly) {
        e.p = r.pick(w.polys);
        if (r.p(.5)) e.h = l;
        e.h = e.p;
      } else {
        e.l = l;
        if (r.p(.5) && !w.polys.empty()) e.h = r.pick(w.polys);
        e.h = l;
      }
      if (r.p(.3)) {
        LineStringOrPolygon3d t(e.h);
        e.h = std::move(t);
      }
      v.push_back(e);
    }
    for (auto& e : v) {
      ConstLineStringOrPolygon3d ch(e.h);
      c.event(e.poly ? "polygon handles" : "line string handles");
      c.check(e.h.isPolygon() == e.poly && e.h.isLineString() == !e.poly && ch.isPolygon() == e.poly && ch.isLineString() == !e.poly, "C10:kind", "kind of the handle");
      c.check(!!e.h.polygon() == e.poly && !!e.h.lineString() == !e.poly && !!ch.polygon() == e.poly && !!ch.lineString() == !e.poly, "C10:kind", "optional of the handle");
      RuleParameter rp = e.h.asRuleParameter(), rp2 = e.h.operator RuleParameter();
      ConstRuleParameter crp = ch.asRuleParameter(), crp2 = ch.operator ConstRuleParameter();
      Id id = e.poly ? e.p.id() : e.l.id();
      c.check(e.h.id() == id && ch.id() == id && utils::getId(rp) == id && utils::getId(crp) == id, "C10:id", "id ", id);
      c.check(rp == rp2 && crp == crp2, "C10:parameter", "parameter of ", id);
      if (e.poly) {
        c.check(*e.h.polygon() == e.p && *ch.polygon() == e.p && static_cast<const Polygon3d&>(e.h) == e.p && static_cast<const ConstPolygon3d&>(ch) == e.p, "C10:polygon", id);
        c.check(&e.h.attributes() == &static_cast<const Polygon3d&>(e.p).attributes() && boost::get<Polygon3d>(rp) == e.p && boost::get<ConstPolygon3d>(crp) == e.p, "C10:parameter", "polygon ", id);
        c.check(str(e.h) == str(e.p) && str(ch) == str(e.p), "C10:print", str(e.h));
      } else {
        c.check(*e.h.lineString() == e.l && *ch.lineString() == e.l && static_cast<const LineString3d&>(e.h) == e.l && static_cast<const ConstLineString3d&>(ch) == e.l &&
                    ch.lineString()->inverted() == e.l.inverted(),
                "C10:linestring", id);
        c.check(&e.h.attributes() == &static_cast<const LineString3d&>(e.l).attributes() && boost::get<LineString3d>(rp) == e.l && boost::get<ConstLineString3d>(crp) == e.l, "C10:parameter",
                "line string ", id);
        c.check(str(e.h) == str(e.l) && str(ch) == str(e.l), "C10:print", str(e.h));
      }
    }
    for (auto& a : v)
      for (auto& b : v) {
        bool eq = a.poly == b.poly && (a.poly ? a.p == b.p : a.l == b.l);
        ConstLineStringOrPolygon3d ca(a.h), cb(b.h);
        c.check((a.h == b.h) == eq && (a.h != b.h) == !eq && (ca == cb) == eq && (ca != cb) == !eq, "C10:equal", "handles of ", a.h.id(), " and ", b.h.id(), " equal: ", !eq);
      }
    Point3d p = r.pick(w.pts);
    c.check(utils::getId(RuleParameter(p)) == p.id() && utils::getId(ConstRuleParameter(ConstPoint3d(p))) == p.id(), "C10:id", "point parameter ", p.id());
  }

  void weak(Ctx& c, gen::WorldGen& g) {
    auto& r = c.rng;
    auto& w = g.w;
    auto gone = [](auto&& f) {
      try {
        f();
      } catch (NullptrError&) {
        return true;
      }
      return false;
    };
    struct W {
      WeakLanelet w;
      Lanelet l;
      bool alive;
    };
    std::vector<W> v;
    for (int k = 0; k < 5; ++k) {
      if (r.p(.3)) {
        Lanelet t(g.ids.valid(), g.anyLine(), g.anyLine());
        WeakLanelet x(t);
        c.check(!x.expired() && x.lock() == t, "C10:weak", "reference to a living lanelet");
        v.push_back({x, Lanelet(), false});
      } else {
        Lanelet l = g.anyLanelet();
        v.push_back({WeakLanelet(l), l, true});
      }
    }
    v.push_back({WeakLanelet(), Lanelet(), false});
    for (auto& x : v) {
      ConstWeakLanelet cw = x.w;
      c.event(x.alive ? "live weak lanelets" : "lost weak lanelets");
      c.check(x.w.expired() == !x.alive && cw.expired() == !x.alive, "C10:weak-expired", "expired: ", x.alive);
      if (x.alive)
        c.check(x.w.lock() == x.l && cw.lock() == x.l && x.w.lock().inverted() == x.l.inverted() && utils::getId(RuleParameter(x.w)) == x.l.id() && utils::getId(ConstRuleParameter(cw)) == x.l.id(),
                "C10:weak-lock", "lanelet ", x.l.id());
      else
        c.check(gone([&] { x.w.lock(); }) && gone([&] { cw.lock(); }), "C10:weak-lost", "a lost lanelet can be locked");
    }
    for (auto& a : v)
      for (auto& b : v) {
        bool eq = a.alive && b.alive && a.l == b.l;
        c.check((a.w == b.w) == eq && (a.w != b.w) == !eq, "C10:weak-equal", "equal: ", !eq);
      }
    WeakArea wa;
    c.check(wa.expired() && gone([&] { wa.lock(); }), "C10:weak-lost", "an empty reference can be locked");
    {
      Area t(g.ids.valid(), LineStrings3d{g.anyLine()});
      wa = WeakArea(t);
      c.check(!wa.expired() && wa.lock() == t && utils::getId(RuleParameter(wa)) == t.id(), "C10:weak", "reference to a living area");
    }
    c.check(wa.expired() && gone([&] { wa.lock(); }), "C10:weak-lost", "a lost area can be locked");
    if (w.areas.size() > 1) {
      WeakArea a(w.areas[0]), b(w.areas[1]), a2(w.areas[0]);
      c.check(a == a2 && a != b && !(a == b) && !(a != a2) && a != wa && a.lock() == w.areas[0], "C10:weak-equal", "areas");
    }
  }

  void sequences(Ctx& c, gen::WorldGen& g) {
    auto& r = c.rng;
    ConstLanelets v;
    for (int64_t n = r.i(0, 4); n > 0; --n) v.push_back(g.anyLanelet());
    LaneletSequence s(v);
    if (r.p(.3)) {
      size_t k = r.idx(v.size() + 1);
      s = LaneletSequence(LaneletSequences{LaneletSequence(ConstLanelets(v.begin(), v.begin() + long(k))), LaneletSequence(ConstLanelets(v.begin() + long(k), v.end()))});
    }
    bool inv = r.p(.4);
    if (inv) s = s.invert();
    if (r.p(.3)) s.resetCache();
    if (r.p(.3)) c.check(s.invert().invert() == s && s.invert().inverted() != s.inverted(), "C10:sequence-invert", "twice");
    c.event(inv ? "inverted sequences" : "sequences");
    c.check(s.inverted() == inv && s.size() == v.size() && s.empty() == v.empty(), "C10:sequence", "size ", s.size());
    ConstLanelets order = v;
    if (inv) std::reverse(order.begin(), order.end());
    c.check(s.lanelets() == order && same(ConstLanelets(s.begin(), s.end()), order), "C10:sequence", "order of the lanelets");
    Ids ids;
    for (auto& l : order) ids.push_back(l.id());
    c.check(s.ids() == ids, "C10:sequence", "ids");
    for (size_t k = 0; k < order.size(); ++k) c.check(s[k] == order[k], "C10:sequence", "access to lanelet ", k);
    ConstLineStrings3d left, right, center;
    RegulatoryElementConstPtrs regs;
    std::vector<std::shared_ptr<const TrafficLight>> lights;
    for (auto& l : v) {
      left.push_back(l.leftBound());
      right.push_back(l.rightBound());
      center.push_back(l.centerline());
    }
    for (auto& l : order) {
      for (auto& e : l.regulatoryElements()) regs.push_back(e);
      for (auto& e : l.regulatoryElementsAs<TrafficLight>()) lights.push_back(e);
    }
    ConstLineStrings3d ring = left;
    for (size_t k = right.size(); k-- > 0;) ring.push_back(right[k].invert());
    if (inv) {
      std::swap(left, right);
      for (auto* x : {&left, &right, &center}) {
        std::reverse(x->begin(), x->end());
        for (auto& l : *x) l = l.invert();
      }
    }
    auto L = uniq(left), R = uniq(right), C = uniq(center), P = uniq(ring);
    c.check(pointsOf(s.leftBound()) == L && pointsOf(s.leftBound3d()) == L && pointsOf(s.leftBound2d()) == L, "C10:sequence-left", "left bound");
    c.check(pointsOf(s.rightBound()) == R && pointsOf(s.rightBound3d()) == R && pointsOf(s.rightBound2d()) == R, "C10:sequence-right", "right bound");
    c.check(s.leftBound().lineStrings() == left && s.rightBound().lineStrings() == right, "C10:sequence-lines", "lines of the bounds");
    c.check(pointsOf(s.centerline()) == C && pointsOf(s.centerline3d()) == C && pointsOf(s.centerline2d()) == C, "C10:sequence-centerline", "centerline");
    c.check(pointsOf(s.polygon3d()) == P && pointsOf(s.polygon2d()) == P, "C10:sequence-polygon", "polygon");
    c.check(s.regulatoryElements() == regs && s.regulatoryElementsAs<TrafficLight>() == lights, "C10:sequence-regulatory-elements", "regulatory elements");
    if (!v.empty()) {
      Id in = r.p(.5) ? r.pick(g.w.pts).id() : Id(1);
      bool has = false;
      for (auto* x : {&left, &right})
        for (auto& l : *x)
          for (auto& p : l) has = has || p.id() == in;
      c.check(utils::has(s, in) == has, "C10:sequence-has", "point ", in);
    }
    ConstLanelets o = order;
    if (!o.empty() && r.p(.5)) o[r.idx(o.size())] = g.anyLanelet();
    c.check((s == LaneletSequence(o)) == (o == order) && (s != LaneletSequence(o)) == (o != order), "C10:sequence-equal", "sequences");
    auto d = s.constData();
    c.check(LaneletSequence(d, inv) == s && LaneletSequence(d, inv).leftBound() == s.leftBound(), "C10:sequence-data", "built from shared data");
    // compounds
    auto cl = s.leftBound();
    CompoundPolygon3d cp(cl);
    c.check(pointsOf(cp) == L && static_cast<CompoundLineString3d>(cp) == cl && cp.lineStrings() == left, "C10:compound", "polygon of a line string");
    CompoundPolygon2d cp2(s.leftBound2d());
    c.check(pointsOf(cp2) == L && static_cast<CompoundLineString2d>(cp2) == s.leftBound2d(), "C10:compound", "2d polygon of a line string");
    CompoundPolygon3d two(CompoundLineStrings3d{s.leftBound(), s.rightBound().invert()}), three(CompoundPolygons3d{two, cp});
    ConstLineStrings3d t2 = left, t3;
    for (size_t k = right.size(); k-- > 0;) t2.push_back(right[k].invert());
    t3 = t2;
    t3.insert(t3.end(), left.begin(), left.end());
    c.check(pointsOf(two) == uniq(t2) && pointsOf(three) == uniq(t3) && three.lineStrings() == t3, "C10:compound", "joined polygons");
    CompoundLineString3d joined(CompoundLineStrings3d{cl.invert(), cl});
    ConstLineStrings3d j;
    for (size_t k = left.size(); k-- > 0;) j.push_back(left[k].invert());
    j.insert(j.end(), left.begin(), left.end());
    c.check(pointsOf(joined) == uniq(j) && joined.lineStrings() == j, "C10:compound", "joined line strings");
    ConstPoints3d pts(cl.begin(), cl.end());
    c.check(cl == pts && pts == cl && !(cl != pts) && !(pts != cl), "C10:compound-points", "comparison with its points");
    if (!pts.empty()) {
      pts.pop_back();
      c.check(cl != pts && pts != cl && !(cl == pts) && !(pts == cl), "C10:compound-points", "comparison with fewer points");
    }
    CompoundHybridLineString3d hy(cl);
    c.check(hy == cl && hy.size() == L.size(), "C10:compound-hybrid", "hybrid of a compound");
    Ids lid;
    for (auto& l : left) lid.push_back(l.id());
    c.check(cl.ids() == lid, "C10:compound-ids", "ids");
  }

  void run(Ctx& c) override {
    auto& r = c.rng;
    gen::IdSource ids(r);
    gen::WorldOpts o;
    o.strips = int(r.i(1, 2));
    o.areas = int(r.i(0, 3));
    o.polys = int(r.i(0, 3));
    gen::WorldGen g(r, ids, o);
    auto& w = g.all();
    Hash h;
    h(uint64_t(w.pts.size()))(uint64_t(w.lanelets.size()))(w.pts[0].x())(r.s);
    c.sig(h.h);
    laneletOrArea(c, g);
    lineOrPolygon(c, g);
    weak(c, g);
    for (int k = 0; k < 3; ++k) sequences(c, g);
  }
};
VF_HARNESS(C10, "C10");
}  // namespace
