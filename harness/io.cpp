// I01 OSM round trip, I02 binary round trip, I03 malformed files, I04 write failures
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/LaneletMap.h>
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/geometry/Polygon.h>
#include <lanelet2_core/geometry/RegulatoryElement.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Io.h>
#include <lanelet2_io/io_handlers/BinHandler.h>
#include <lanelet2_io/io_handlers/OsmHandler.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <pugixml.hpp>
#include <typeinfo>

#include "closure.h"

namespace {
struct Scratch {
  std::string dir;
  std::vector<std::string> files;
  Scratch() {
    char t[] = "/tmp/ll2io.XXXXXX";
    if (!mkdtemp(t)) {
      perror("mkdtemp");
      exit(3);
    }
    dir = t;
  }
  std::string file(const std::string& n) {
    files.push_back(dir + "/" + n);
    return files.back();
  }
  ~Scratch() {
    for (auto& f : files) {
      unlink(f.c_str());
      rmdir(f.c_str());
    }
    rmdir(dir.c_str());
  }
};
Scratch& scratch() {
  static Scratch s;
  return s;
}
std::string slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
void spit(const std::string& f, const std::string& s) {
  std::ofstream o(f, std::ios::binary);
  o << s;
}

std::shared_ptr<Projector> randProjector(Rng& r) {
  GPSPoint o{r.p(.3) ? 49. : r.d(-70, 70), r.p(.3) ? 8.4 : r.d(-179, 179), r.p(.7) ? 0. : r.d(-100, 2000)};
  switch (r.i(0, 4)) {
    case 0:
      return std::make_shared<projection::SphericalMercatorProjector>(Origin(o));
    case 1:
      return std::make_shared<projection::LocalCartesianProjector>(Origin(o));
    case 2:
      return std::make_shared<projection::Mercator>(Origin(o));
    default:
      return std::make_shared<projection::UtmProjector>(Origin(o));
  }
}

using Tags = std::map<std::string, std::string>;
Tags tagsOf(const AttributeMap& a) {
  Tags t;
  for (auto& e : a) t[e.first] = e.second.value();
  return t;
}
std::string show(const Tags& t) {
  std::string s;
  for (auto& e : t) s += "[" + e.first + "=" + e.second + "]";
  return s;
}
Ids idsOf(const ConstLineString3d& l) {
  Ids v;
  for (size_t i = 0; i < l.size(); ++i) v.push_back(l[i].id());
  return v;
}
using IdInv = std::pair<Id, bool>;
std::vector<IdInv> lineIds(const ConstLineStrings3d& ls) {
  std::vector<IdInv> v;
  for (auto& l : ls) v.push_back({l.id(), l.inverted()});
  return v;
}
bool cyclicEqual(std::vector<IdInv> a, const std::vector<IdInv>& b) {
  if (a.size() != b.size()) return false;
  if (a.size() == 1) return a[0].first == b[0].first && a[0].second == b[0].second;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a == b) return true;
    std::rotate(a.begin(), a.begin() + 1, a.end());
  }
  return a.empty();
}
std::string show(const std::vector<IdInv>& v) {
  std::string s;
  for (auto& e : v) s += (e.second ? " -" : " ") + std::to_string(e.first);
  return s;
}
// role, kind, id, inverted
using Par = std::tuple<std::string, char, Id, bool>;
std::map<std::string, std::vector<Par>> parsOf(const RegulatoryElement& re, bool withInv) {
  std::map<std::string, std::vector<Par>> m;
  for (auto& e : paramsOf(re)) {
    Par p;
    if (auto* x = boost::get<ConstPoint3d>(&e.second)) p = Par(e.first, 'n', x->id(), false);
    if (auto* x = boost::get<ConstLineString3d>(&e.second)) p = Par(e.first, 'w', x->id(), withInv && x->inverted());
    if (auto* x = boost::get<ConstPolygon3d>(&e.second)) p = Par(e.first, 'p', x->id(), false);
    if (auto* x = boost::get<ConstWeakLanelet>(&e.second)) p = x->expired() ? Par(e.first, 'x', 0, false) : Par(e.first, 'l', x->lock().id(), withInv && x->lock().inverted());
    if (auto* x = boost::get<ConstWeakArea>(&e.second)) p = x->expired() ? Par(e.first, 'x', 0, false) : Par(e.first, 'a', x->lock().id(), false);
    m[e.first].push_back(p);
  }
  return m;
}
Ids regIds(const RegulatoryElementConstPtrs& v) {
  Ids r;
  for (auto& e : v) r.push_back(e->id());
  return r;
}
template <typename L>
std::set<Id> idSet(const L& layer) {
  std::set<Id> s;
  for (const auto& e : layer) s.insert(idOf(e));
  return s;
}

struct Cmp {
  bool osm;
  double tolXY{0}, tolZ{0};
};
template <typename L>
void cmpIds(Ctx& c, const char* n, const L& a, const L& b) {
  auto x = idSet(a), y = idSet(b);
  if (x == y && a.size() == b.size()) {
    c.eval();
    return;
  }
  std::string s;
  for (Id i : x)
    if (!y.count(i)) s += " missing " + std::to_string(i);
  for (Id i : y)
    if (!x.count(i)) s += " extra " + std::to_string(i);
  c.fail(c.prop + ":ids", std::string(n) + ": " + s);
}
// a: original, b: loaded
void compareMaps(Ctx& c, const LaneletMap& a, const LaneletMap& b, const Cmp& o) {
  std::string P = c.prop + ":";
  auto ck = [&](bool ok, const char* k, const std::string& m) {
    c.eval();
    if (!ok) c.fail(P + k, m);
  };
  cmpIds(c, "points", a.pointLayer, b.pointLayer);
  cmpIds(c, "lines", a.lineStringLayer, b.lineStringLayer);
  cmpIds(c, "polygons", a.polygonLayer, b.polygonLayer);
  cmpIds(c, "lanelets", a.laneletLayer, b.laneletLayer);
  cmpIds(c, "areas", a.areaLayer, b.areaLayer);
  cmpIds(c, "regelems", a.regulatoryElementLayer, b.regulatoryElementLayer);
  auto attrs = [&](Id id, const AttributeMap& x, const AttributeMap& y, const char* type, const char* added = nullptr) {
    Tags t = tagsOf(x), u = tagsOf(y);
    if (o.osm && type) t.emplace("type", type);
    if (o.osm && added) t.emplace(added, "true");
    ck(t == u, "attributes", std::to_string(id) + ": " + show(t) + " became " + show(u));
  };
  for (const auto& p : a.pointLayer) {
    auto q = b.pointLayer.get(p.id());
    bool ok = o.osm ? std::fabs(p.x() - q.x()) <= o.tolXY && std::fabs(p.y() - q.y()) <= o.tolXY && std::fabs(p.z() - q.z()) <= o.tolZ
                    : std::memcmp(p.basicPoint().data(), q.basicPoint().data(), 3 * sizeof(double)) == 0;
    if (!ok) {
      std::ostringstream s;
      s.precision(17);
      s << p.id() << ": " << p.basicPoint().transpose() << " became " << q.basicPoint().transpose();
      ck(false, "coordinates", s.str());
    }
    attrs(p.id(), p.attributes(), q.attributes(), nullptr);
  }
  for (const auto& l : a.lineStringLayer) {
    auto m = b.lineStringLayer.get(l.id());
    auto x = l.inverted() && o.osm ? l.invert() : l;
    ck(idsOf(x) == idsOf(m) && (o.osm || l.inverted() == m.inverted()), "line", "line " + std::to_string(l.id()) + " has other points");
    attrs(l.id(), l.attributes(), m.attributes(), nullptr);
  }
  for (const auto& l : a.polygonLayer) {
    auto m = b.polygonLayer.get(l.id());
    Ids i, j;
    for (size_t k = 0; k < l.size(); ++k) i.push_back(l[k].id());
    for (size_t k = 0; k < m.size(); ++k) j.push_back(m[k].id());
    ck(i == j, "polygon", "polygon " + std::to_string(l.id()) + " has other points");
    attrs(l.id(), l.attributes(), m.attributes(), nullptr, "area");
  }
  auto sameLine = [&](const ConstLineString3d& x, const ConstLineString3d& y) {
    return x.id() == y.id() && idsOf(x) == idsOf(y) && (o.osm || x.inverted() == y.inverted());
  };
  for (const auto& l : a.laneletLayer) {
    auto m = b.laneletLayer.get(l.id());
    std::string n = "lanelet " + std::to_string(l.id());
    ck(o.osm || l.inverted() == m.inverted(), "lanelet", n + ": inversion");
    ck(sameLine(l.leftBound(), m.leftBound()), "lanelet", n + ": left " + show(lineIds({l.leftBound()})) + " became " + show(lineIds({m.leftBound()})));
    ck(sameLine(l.rightBound(), m.rightBound()), "lanelet", n + ": right " + show(lineIds({l.rightBound()})) + " became " + show(lineIds({m.rightBound()})));
    ck(l.hasCustomCenterline() == m.hasCustomCenterline(), "centerline", n + ": hand-set centerline " + (l.hasCustomCenterline() ? "lost" : "invented"));
    if (l.hasCustomCenterline())
      ck(sameLine(l.centerline(), m.centerline()), "centerline", n + ": centerline " + show(lineIds({l.centerline()})) + " became " + show(lineIds({m.centerline()})));
    ck(regIds(l.regulatoryElements()) == regIds(m.regulatoryElements()), "lanelet", n + ": regulatory elements differ");
    attrs(l.id(), l.attributes(), m.attributes(), "lanelet");
  }
  for (const auto& l : a.areaLayer) {
    auto m = b.areaLayer.get(l.id());
    std::string n = "area " + std::to_string(l.id());
    auto x = lineIds(l.outerBound()), y = lineIds(m.outerBound());
    ck(o.osm ? cyclicEqual(x, y) : x == y, "area-outer", n + ": outer bound" + show(x) + " became" + show(y));
    ck(l.innerBounds().size() == m.innerBounds().size(), "area-inner", n + ": number of holes");
    for (size_t i = 0; i < l.innerBounds().size(); ++i) {
      x = lineIds(l.innerBounds()[i]), y = lineIds(m.innerBounds()[i]);
      ck(o.osm ? cyclicEqual(x, y) : x == y, "area-inner", n + ": hole" + show(x) + " became" + show(y));
    }
    ck(regIds(l.regulatoryElements()) == regIds(m.regulatoryElements()), "area", n + ": regulatory elements differ");
    attrs(l.id(), l.attributes(), m.attributes(), "multipolygon");
  }
  for (const auto& l : a.regulatoryElementLayer) {
    RegulatoryElementConstPtr m = b.regulatoryElementLayer.get(l->id());
    std::string n = "regulatory element " + std::to_string(l->id());
    ck(typeid(*l) == typeid(*m), "regelem-type", n + ": type changed");
    ck(parsOf(*l, !o.osm) == parsOf(*m, !o.osm), "regelem-parameters", n + ": parameters changed");
    AttributeMap x = l->attributes();
    if (x.find("subtype") == x.end() && dynamic_cast<const GenericRegulatoryElement*>(l.get())) x["subtype"] = "regulatory_element";
    attrs(l->id(), x, m->attributes(), "regulatory_element");
  }
  // sharing: everything reachable in the loaded map is the object in the layer
  Closure cl;
  for (const auto& e : b.pointLayer) cl.add(e);
  for (const auto& e : b.lineStringLayer) cl.add(e);
  for (const auto& e : b.polygonLayer) cl.add(e);
  for (const auto& e : b.laneletLayer) cl.add(e);
  for (const auto& e : b.areaLayer) cl.add(e);
  for (const auto& e : b.regulatoryElementLayer) cl.add(e);
  checkMap(c, b, cl);
  checkIndex(c, b);
}
Id maxId(const LaneletMap& m) {
  Id x = 0;
  auto f = [&](auto& layer) {
    for (const auto& e : layer) x = std::max(x, idOf(e));
  };
  f(m.pointLayer);
  f(m.lineStringLayer);
  f(m.polygonLayer);
  f(m.laneletLayer);
  f(m.areaLayer);
  f(m.regulatoryElementLayer);
  return x;
}

const std::vector<std::string>& nasty() {
  static const std::vector<std::string> N{"a\nb",  "\x01\x1f", " lead", "trail ", "]]>",        "&amp;",     "&#10;",      "<!--", "\xff\xfe raw",
                                          "\r\n", "quote\"s'", "1,5",   "%s%n",  "a\tb\\n\\t", std::string(3000, 'x'), "𝄞 clef"};
  return N;
}
struct WorldCase {
  WorldOpts o;
  std::unique_ptr<IdSource> ids;
  std::unique_ptr<WorldGen> gen;
  World w;
  LaneletMapUPtr map;
  // osm: restricts to what the format can express
  WorldCase(Ctx& c, bool osm) {
    auto& r = c.rng;
    o.lines = int(r.i(1, 8));
    o.polys = int(r.i(0, 4));
    o.strips = int(r.i(0, 4));
    o.areas = int(r.i(0, 3));
    o.regs = int(r.i(0, 8));
    o.zRange = r.pick({0., 5., 300.});
    o.extent = r.pick({50., 2000., 100.});
    ids.reset(new IdSource(r));
    ids->pNeg = r.p(.2) ? .3 : 0;
    gen.reset(new WorldGen(r, *ids, o));
    w = gen->all();
    auto odd = [&](AttributeMap& a, bool point = false) {
      if (r.p(.05)) a["ele"] = r.pick({"12.5", "-3", "", "top"});
      if (r.p(.1)) a[r.p(.3) ? nasty()[r.idx(nasty().size())] : "note"] = nasty()[r.idx(nasty().size())];
      if (osm) {
        a.erase("area");
        if (point) a.erase("ele");  // stands for the height
      }
    };
    for (auto& e : w.pts) odd(e.attributes(), true);
    for (auto& e : w.lines) odd(e.attributes());
    for (auto& e : w.polys) {
      odd(e.attributes());
      if (osm && r.p(.2)) e.attributes()["area"] = "yes";
    }
    for (auto& e : w.lanelets) {
      odd(e.attributes());
      if (osm) e.attributes().erase("type");
      if (osm && r.p(.5)) e.attributes()["type"] = "lanelet";
    }
    for (auto& e : w.areas) {
      odd(e.attributes());
      if (osm) e.attributes().erase("type");
      if (osm && r.p(.5)) e.attributes()["type"] = "multipolygon";
    }
    for (auto& e : w.regs) {
      auto& a = const_cast<AttributeMap&>(e->attributes());
      odd(a);
      if (osm) a.erase("type");
      if (a.find("subtype") == a.end() && (osm || r.p(.5))) a["subtype"] = "regulatory_element";
    }
    if (osm)  // a hand-set centerline runs along the lanelet; it may be stored either way round
      for (auto& l : w.lanelets) {
        if (!l.hasCustomCenterline()) continue;
        auto cl = l.centerline();
        auto lb = l.leftBound();
        if ((cl.back().x() - cl.front().x()) * (lb.back().x() - lb.front().x()) + (cl.back().y() - cl.front().y()) * (lb.back().y() - lb.front().y()) > 0) continue;
        for (auto& x : w.lines)
          if (x.id() == cl.id()) l.setCenterline(cl.inverted() ? x : x.invert());
      }
    if (!osm) {
      // things only the binary format can express
      for (auto& e : w.regs)
        if (auto g = std::dynamic_pointer_cast<GenericRegulatoryElement>(e))
          if (r.p(.3) && !w.lanelets.empty()) g->addParameter("inverted", WeakLanelet(w.lanelets[r.idx(w.lanelets.size())].invert()));
    }
    build(r);
  }
  void build(Rng& r) {
    map = std::make_unique<LaneletMap>();
    bool inv = r.p(.3);
    for (auto& l : w.lanelets)
      if (inv && r.p(.2)) map->add(l.invert());
    if (inv)
      for (auto& l : w.lines)
        if (r.p(.2)) map->add(l.invert());
    std::vector<int> order{0, 1, 2, 3, 4, 5};
    r.shuffle(order);
    for (int k : order) {
      if (k == 0)
        for (auto& e : w.lanelets) map->add(e);
      if (k == 1)
        for (auto& e : w.areas) map->add(e);
      if (k == 2)
        for (auto& e : w.regs) map->add(e);
      if (k == 3)
        for (auto& e : w.polys) map->add(e);
      if (k == 4)
        for (auto& e : w.lines) map->add(e);
      if (k == 5)
        for (auto& e : w.pts) map->add(e);
    }
  }
};

// Reads the written file independently and compares it with the map. Elements that cannot be written (points in badPts, lines with points that are
// neither, references to elements that are not in the map) are expected to be left out; returns the ids of all elements affected.
std::set<Id> checkOsmFile(Ctx& c, const std::string& file, const LaneletMap& m, const Projector& proj, bool josmEle, bool upload, const std::set<Id>& badPts = {}) {
  std::string P = c.prop + ":file-";
  auto ck = [&](bool ok, const char* k, const std::string& msg) {
    c.eval();
    if (!ok) c.fail(P + k, msg);
  };
  std::set<Id> affected, nodes, ways, rels;
  std::map<Id, Ids> wayNodes;
  for (const auto& p : m.pointLayer) (badPts.count(p.id()) ? affected : nodes).insert(p.id());
  for (const auto& l : m.lineStringLayer) wayNodes[l.id()] = idsOf(l.inverted() ? l.invert() : l);
  for (const auto& l : m.polygonLayer) {
    Ids i;
    for (size_t k = 0; k < l.size(); ++k) i.push_back(l[k].id());
    wayNodes[l.id()] = i;
  }
  for (auto& w : wayNodes) {
    bool ok = true;
    for (Id i : w.second) ok = ok && nodes.count(i);
    (ok ? ways : affected).insert(w.first);
  }
  for (const auto& l : m.laneletLayer) rels.insert(l.id());
  for (const auto& l : m.areaLayer) rels.insert(l.id());
  for (const auto& l : m.regulatoryElementLayer) rels.insert(l->id());
  using Mem = std::tuple<std::string, std::string, Id>;
  using Mems = std::map<std::string, std::vector<Mem>>;
  std::map<Id, std::pair<Tags, Mems>> want;
  auto put = [&](Id rel, const std::string& role, const std::string& type, Id i) {
    if (!(type == "node" ? nodes : type == "way" ? ways : rels).count(i)) {
      affected.insert(rel);
      return;
    }
    want[rel].second[role].push_back(Mem(role, type, i));
  };
  for (const auto& l : m.laneletLayer) {
    auto& e = want[l.id()].first;
    e = tagsOf(l.attributes());
    e.emplace("type", "lanelet");
    put(l.id(), "left", "way", l.leftBound().id());
    put(l.id(), "right", "way", l.rightBound().id());
    if (l.hasCustomCenterline()) put(l.id(), "centerline", "way", l.centerline().id());
    for (auto& re : l.regulatoryElements()) put(l.id(), "regulatory_element", "relation", re->id());
  }
  for (const auto& l : m.areaLayer) {
    auto& e = want[l.id()].first;
    e = tagsOf(l.attributes());
    e.emplace("type", "multipolygon");
    for (auto& x : l.outerBound()) put(l.id(), "outer", "way", x.id());
    for (auto& h : l.innerBounds())
      for (auto& x : h) put(l.id(), "inner", "way", x.id());
    for (auto& re : l.regulatoryElements()) put(l.id(), "regulatory_element", "relation", re->id());
  }
  for (const auto& l : m.regulatoryElementLayer) {
    auto& e = want[l->id()].first;
    e = tagsOf(l->attributes());
    e.emplace("type", "regulatory_element");
    for (auto& kv : parsOf(*l, false))
      for (auto& p : kv.second) {
        char k = std::get<1>(p);
        if (k == 'x')
          affected.insert(l->id());
        else
          put(l->id(), kv.first, k == 'n' ? "node" : k == 'w' || k == 'p' ? "way" : "relation", std::get<2>(p));
      }
  }

  pugi::xml_document d;
  auto res = d.load_file(file.c_str());
  ck(bool(res), "xml", "not xml");
  auto osm = d.child("osm");
  ck(std::string(osm.attribute("version").value()) == "0.6" && std::string(osm.attribute("upload").value()) == (upload ? "true" : "false"), "header",
     std::string("upload ") + osm.attribute("upload").value());
  size_t nn = 0, nw = 0, nr = 0;
  for (auto n = osm.first_child(); n; n = n.next_sibling()) {
    Id id = n.attribute("id").as_llong();
    std::string kind = n.name(), name = kind + " " + std::to_string(id);
    Tags t, e;
    for (auto x = n.child("tag"); x; x = x.next_sibling("tag")) ck(t.emplace(x.attribute("k").value(), x.attribute("v").value()).second, "tags", name + ": tag twice");
    ck(!n.attribute("action"), "action", name);
    if (kind == "node") {
      ++nn;
      ck(nodes.count(id), "extra", name);
      auto p = m.pointLayer.get(id);
      auto g = proj.reverse(p.basicPoint());
      e = tagsOf(p.attributes());
      double lat = std::strtod(n.attribute("lat").value(), nullptr), lon = std::strtod(n.attribute("lon").value(), nullptr);
      double ele = t.count("ele") ? std::strtod(t["ele"].c_str(), nullptr) : 0;
      t.erase("ele");
      ck(std::fabs(lat - g.lat) < 6e-12 && std::fabs(lon - g.lon) < 6e-12, "coordinates", name + ": " + n.attribute("lat").value() + "," + n.attribute("lon").value());
      ck(std::fabs(ele - g.ele) < (josmEle ? 5.001e-3 : 6e-12 + 1e-13), "elevation", name + ": " + std::to_string(ele) + " for " + std::to_string(g.ele));
    } else if (kind == "way") {
      ++nw;
      ck(ways.count(id), "extra", name);
      Ids nd;
      for (auto x = n.child("nd"); x; x = x.next_sibling("nd")) nd.push_back(x.attribute("ref").as_llong());
      if (m.lineStringLayer.exists(id)) {
        e = tagsOf(m.lineStringLayer.get(id).attributes());
      } else {
        e = tagsOf(m.polygonLayer.get(id).attributes());
        e.emplace("area", "true");
      }
      ck(nd == wayNodes[id], "way", name + " has other nodes");
    } else {
      ck(kind == "relation" && rels.count(id), "extra", name);
      ++nr;
      Mems mem;
      for (auto x = n.child("member"); x; x = x.next_sibling("member"))
        mem[x.attribute("role").value()].push_back(Mem(x.attribute("role").value(), x.attribute("type").value(), x.attribute("ref").as_llong()));
      e = want[id].first;
      ck(mem == want[id].second, "members", name + " has other members");
    }
    ck(t == e, "tags", name + ": " + show(t) + " for " + show(e));
  }
  ck(nn == nodes.size() && nw == ways.size() && nr == rels.size(), "count",
     std::to_string(nn) + "/" + std::to_string(nodes.size()) + " nodes " + std::to_string(nw) + "/" + std::to_string(ways.size()) + " ways " + std::to_string(nr) + "/" +
         std::to_string(rels.size()) + " relations");
  return affected;
}

struct I01 : Harness {
  uint64_t numCases(bool th) override { return th ? 20000 : 2500; }
  std::string rule() override {
    return "random maps (shared and inverted bounds, holes, all regulatory element kinds, hand-set centerlines, arbitrary attribute text, negative ids) written with "
           "random projector, parameters and overload, read back independently (XML) and by the library, compared layer by layer, then written again";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    WorldCase wc(c, true);
    auto proj = randProjector(r);
    io::Configuration cfg;
    bool je = r.p(.2), up = r.p(.2);
    if (je) cfg["josm_format_elevation"] = true;
    if (up) cfg["josm_upload"] = true;
    auto f1 = scratch().file("a.osm"), f2 = scratch().file("b.osm");
    bool byName = r.p(.3), withErr = r.p(.7), spherical = dynamic_cast<projection::SphericalMercatorProjector*>(proj.get()) != nullptr && r.p(.7);
    auto doWrite = [&](const std::string& f, const LaneletMap& m) {
      ErrorMessages e{"stale"};
      auto* ep = withErr ? &e : nullptr;
      if (spherical) {
        if (byName)
          write(f, m, "osm_handler", proj->origin(), ep, cfg);
        else
          write(f, m, proj->origin(), ep, cfg);
      } else {
        if (byName)
          write(f, m, "osm_handler", *proj, ep, cfg);
        else
          write(f, m, *proj, ep, cfg);
      }
      if (withErr) c.check(e.empty(), "I01:write-errors", e.empty() ? "" : e.back());
    };
    auto doLoad = [&](const std::string& f) {
      ErrorMessages e{"stale"};
      auto* ep = withErr ? &e : nullptr;
      auto m = spherical ? (byName ? load(f, "osm_handler", proj->origin(), ep) : load(f, proj->origin(), ep)) : (byName ? load(f, "osm_handler", *proj, ep) : load(f, *proj, ep));
      if (withErr) c.check(e.empty(), "I01:load-errors", e.empty() ? "" : e.back());
      return m;
    };
    try {
      doWrite(f1, *wc.map);
      checkOsmFile(c, f1, *wc.map, *proj, je, up);
      auto m1 = doLoad(f1);
      Id top = maxId(*m1);
      c.check(utils::getId() > top, "I01:id-after-load", "id ", top, " is in use");
      Cmp o{true, dynamic_cast<projection::Mercator*>(proj.get()) ? 1e-4 : 1e-5, je ? 5.1e-3 : 1e-5};
      compareMaps(c, *wc.map, *m1, o);
      doWrite(f2, *m1);
      checkOsmFile(c, f2, *m1, *proj, je, up);
      auto m2 = doLoad(f2);
      compareMaps(c, *m1, *m2, o);
      if (r.p(.2)) {  // without a file in between
        ErrorMessages e;
        auto file = io_handlers::OsmWriter(*proj, cfg).toOsmFile(*wc.map, e, cfg);
        c.check(e.empty(), "I01:write-errors", "toOsmFile");
        auto m3 = io_handlers::OsmParser(*proj, cfg).fromOsmFile(*file, e);
        c.check(e.empty(), "I01:load-errors", e.empty() ? "" : e.back());
        compareMaps(c, *wc.map, *m3, o);
      }
      c.event("maps");
      c.event("lanelets", m1->laneletLayer.size());
      c.event("areas", m1->areaLayer.size());
      c.event("regelems", m1->regulatoryElementLayer.size());
      c.event("points", m1->pointLayer.size());
      if (c.wantSample()) c.sample(slurp(f1).substr(0, 1200));
    } catch (IOError& e) {
      c.fail("I01:exception", e.what());
    }
    c.sig(Hash()(uint64_t(wc.map->size()))(uint64_t(wc.map->laneletLayer.size()))(uint64_t(wc.map->regulatoryElementLayer.size()))(uint64_t(c.caseIdx)).h);
  }
};
VF_HARNESS(I01, "I01");

struct I02 : Harness {
  uint64_t numCases(bool th) override { return th ? 40000 : 4000; }
  std::string rule() override {
    return "random maps (as for I01, additionally inverted references, regulatory elements without subtype, arbitrary type attributes) written to and read from the binary "
           "format and compared exactly, then written again";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    WorldCase wc(c, false);
    auto f1 = scratch().file("a.bin"), f2 = scratch().file("b.bin");
    try {
      bool byName = r.p(.3);
      if (byName)
        write(f1, *wc.map, "bin_handler", Origin({49, 8}));
      else
        write(f1, *wc.map, Origin({49, 8}));
      // ids handed out after loading, also if the process never saw those of the file
      ErrorMessages e{"stale"};
      auto m1 = byName ? load(f1, "bin_handler", Origin({49, 8}), &e) : load(f1, Origin({49, 8}), &e);
      c.check(e.empty(), "I02:errors", "errors");
      Id top = maxId(*m1);
      c.check(utils::getId() > top, "I02:id-after-load", "id ", top, " is in use");
      compareMaps(c, *wc.map, *m1, {false});
      write(f2, *m1);
      auto m2 = load(f2);
      compareMaps(c, *m1, *m2, {false});
      c.event("maps");
      c.event("lanelets", m1->laneletLayer.size());
      c.event("areas", m1->areaLayer.size());
      c.event("regelems", m1->regulatoryElementLayer.size());
      c.event("points", m1->pointLayer.size());
    } catch (std::exception& e) {
      if (dynamic_cast<CaseAbort*>(&e)) throw;
      c.fail("I02:exception", e.what());
    }
    c.sig(Hash()(uint64_t(wc.map->size()))(uint64_t(wc.map->laneletLayer.size()))(uint64_t(wc.map->regulatoryElementLayer.size()))(uint64_t(c.caseIdx)).h);
  }
};
VF_HARNESS(I02, "I02");

// a projector that cannot unproject some points
struct FailingProjector : Projector {
  std::shared_ptr<Projector> base;
  BasicPoint2d at{0, 0};
  double radius{0};
  explicit FailingProjector(std::shared_ptr<Projector> b) : Projector(b->origin()), base(std::move(b)) {}
  bool bad(const BasicPoint3d& p) const { return std::hypot(p.x() - at.x(), p.y() - at.y()) < radius; }
  BasicPoint3d forward(const GPSPoint& p) const override { return base->forward(p); }
  GPSPoint reverse(const BasicPoint3d& p) const override {
    if (bad(p)) throw ReverseProjectionError("out of range");
    return base->reverse(p);
  }
};
struct FileLimit {  // writes beyond the limit fail as on a full device
  rlimit old{};
  explicit FileLimit(rlim_t n) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l{n, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

struct I04 : Harness {
  uint64_t numCases(bool th) override { return th ? 50000 : 6000; }
  std::string rule() override {
    return "random maps written in both formats while the output fails (write limit at a random byte, full device, missing directory, target is a directory, unsupported "
           "extension or handler) or while elements cannot be written (points outside the projection, lines changed after they were added, references to elements that are "
           "not in the map or expired); a normal return is compared with a complete file";
  }
  bool writeIt(Ctx& c, const std::string& f, const LaneletMap& m, const Projector& p, const char* handler, ErrorMessages* e, std::string& what) {
    try {
      if (handler)
        write(f, m, handler, p, e);
      else
        write(f, m, p, e);
      return true;
    } catch (IOError& x) {
      what = x.what();
      return false;
    } catch (std::exception& x) {
      c.fail("I04:exception", std::string("undocumented exception ") + typeid(x).name() + ": " + x.what());
      what = x.what();
      return false;
    }
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    WorldCase wc(c, true);
    auto proj = randProjector(r);
    bool bin = r.p(.5);
    if (r.p(.6))
      outputFaults(c, wc, *proj, bin);
    else
      unwritable(c, wc, proj, bin);
    c.sig(Hash()(uint64_t(wc.map->size()))(uint64_t(c.caseIdx)).h);
  }
  void outputFaults(Ctx& c, WorldCase& wc, Projector& proj, bool bin) {
    auto& r = c.rng;
    std::string ext = bin ? ".bin" : ".osm", what;
    const char* h = r.p(.3) ? (bin ? "bin_handler" : "osm_handler") : nullptr;
    ErrorMessages errs;
    ErrorMessages* ep = r.p(.5) ? &errs : nullptr;
    // the complete file
    auto full = scratch().file("full" + ext);
    c.check(writeIt(c, full, *wc.map, proj, h, ep, what), "I04:write", "plain write failed: ", what);
    std::string want = slurp(full);
    auto complete = [&](const std::string& f) {
      auto got = slurp(f);
      if (!bin) return got == want;
      return got.size() == want.size() && got.compare(0, got.size() - 8, want, 0, want.size() - 8) == 0;
    };
    for (int k = 0; k < 3; ++k) {
      auto f = scratch().file("part" + ext);
      unlink(f.c_str());
      rlim_t n = r.p(.3) ? rlim_t(r.i(0, 64)) : r.p(.5) ? want.size() - size_t(r.i(0, 64)) : rlim_t(r.i(0, int64_t(want.size()) + 100));
      bool ok;
      {
        FileLimit lim(n);
        ok = writeIt(c, f, *wc.map, proj, h, ep, what);
      }
      if (ok)
        c.check(complete(f), "I04:incomplete", "write of ", want.size(), " bytes with only ", n, " possible returned normally, file has ", slurp(f).size(), " bytes", bin ? " (binary)" : "");
      else
        c.check(n < want.size(), "I04:write", "write failed though ", n, " bytes were possible: ", what);
      c.event(ok ? "limit-complete" : "limit-reported");
    }
    {
      auto f = scratch().file("dev" + ext);
      unlink(f.c_str());
      if (symlink("/dev/full", f.c_str()) == 0) {
        c.check(!writeIt(c, f, *wc.map, proj, h, ep, what), "I04:full-device", "write to a full device returned normally", bin ? " (binary)" : "");
        c.event("full-device");
      }
      unlink(f.c_str());
    }
    {
      auto f = scratch().dir + "/missing/x" + ext;
      c.check(!writeIt(c, f, *wc.map, proj, h, ep, what), "I04:missing-directory", "write into a missing directory returned normally");
      auto d = scratch().file("dir" + ext);
      mkdir(d.c_str(), 0700);
      c.check(!writeIt(c, d, *wc.map, proj, h, ep, what), "I04:directory", "write onto a directory returned normally");
      rmdir(d.c_str());
      c.event("bad-path", 2);
    }
    for (std::string e : {".xyz", "", ".OSM", ".osm2", "osm"}) {
      auto f = scratch().file("x" + e);
      unlink(f.c_str());
      bool t = false;
      try {
        write(f, *wc.map, proj, ep);
      } catch (UnsupportedExtensionError&) {
        t = true;
      }
      c.check(t && access(f.c_str(), F_OK) != 0, "I04:extension", "extension '", e, "' accepted");
      t = false;
      try {
        write(f, *wc.map, "no_such_handler" + e, proj, ep);
      } catch (UnsupportedIOHandlerError&) {
        t = true;
      }
      c.check(t && access(f.c_str(), F_OK) != 0, "I04:handler", "unknown handler accepted");
      c.event("unsupported", 2);
    }
    auto sw = supportedWriters(), se = supportedWriterExtensions();
    c.check(sw == std::vector<std::string>({"bin_handler", "osm_handler"}) && se == std::vector<std::string>({".bin", ".osm"}), "I04:supported", "list of writers");
  }
  void unwritable(Ctx& c, WorldCase& wc, std::shared_ptr<Projector> base, bool bin) {
    auto& r = c.rng;
    FailingProjector proj(base);
    std::vector<Lanelet> keep;
    std::vector<Area> keepA;
    Id fresh = -5000000 - r.i(0, 1000);
    auto freshPt = [&] { return Point3d(--fresh, r.d(-50, 50), r.d(-50, 50), 0); };
    auto freshLine = [&] { return LineString3d(--fresh, {freshPt(), freshPt()}); };
    auto freshLanelet = [&] {
      keep.push_back(Lanelet(--fresh, freshLine(), freshLine()));
      return keep.back();
    };
    auto freshArea = [&] {
      keepA.push_back(Area(--fresh, {freshLine()}));
      return keepA.back();
    };
    auto& w = wc.w;
    bool expired = false;
    for (int64_t n = r.i(0, 4); n > 0; --n) switch (r.i(0, 6)) {
        case 0:
          proj.at = BasicPoint2d(r.d(-50, 50), r.d(-50, 50));
          proj.radius = r.d(5, 60);
          c.event("unprojectable-points");
          break;
        case 1:
          w.lines[r.idx(w.lines.size())].push_back(freshPt());
          c.event("line-with-foreign-point");
          break;
        case 2:
          if (w.lanelets.empty()) break;
          w.lanelets[r.idx(w.lanelets.size())].setLeftBound(freshLine());
          c.event("lanelet-with-foreign-bound");
          break;
        case 3:
          if (w.lanelets.empty()) break;
          w.lanelets[r.idx(w.lanelets.size())].setCenterline(freshLine());
          c.event("lanelet-with-foreign-centerline");
          break;
        default: {
          if (w.regs.empty()) break;
          // several references to lanelets and areas, some of which are not in the map
          std::vector<std::shared_ptr<GenericRegulatoryElement>> gs;
          for (auto& e : w.regs)
            if (auto g = std::dynamic_pointer_cast<GenericRegulatoryElement>(e)) gs.push_back(g);
          if (gs.empty()) {
            for (auto& e : w.regs)
              if (auto row = std::dynamic_pointer_cast<RightOfWay>(e)) {
                row->addRightOfWayLanelet(freshLanelet());
                if (r.p(.5)) row->addYieldLanelet(freshLanelet());
                c.event("regelem-with-foreign-lanelet");
                break;
              }
            break;
          }
          auto g = gs[r.idx(gs.size())];
          for (int64_t k = r.i(1, 6); k > 0; --k) {
            std::string role = r.pick({"refers", "x", "yield"});
            switch (r.i(0, 6)) {
              case 0:
                g->addParameter(role, WeakLanelet(freshLanelet()));
                break;
              case 1:
                g->addParameter(role, WeakArea(freshArea()));
                break;
              case 2:
                g->addParameter(role, freshLine());
                break;
              case 3:
                g->addParameter(role, freshPt());
                break;
              case 4:
                if (r.p(.3)) {
                  Lanelet l(--fresh, freshLine(), freshLine());
                  g->addParameter(role, WeakLanelet(l));
                  expired = true;
                }
                break;
              default:
                if (!w.lanelets.empty()) g->addParameter(role, WeakLanelet(w.lanelets[r.idx(w.lanelets.size())]));
            }
          }
          c.event("regelem-with-foreign-parameters");
        }
      }
    if (bin) {
      std::string what;
      auto f = scratch().file("u.bin");
      bool threw = false;
      try {
        write(f, *wc.map, proj);
      } catch (LaneletError&) {
        threw = true;
      } catch (LaneletMultiError&) {
        threw = true;
      }
      c.check(threw == expired, "I04:expired", expired ? "expired reference written" : "write failed");
      if (!threw) {
        bool changed = false;
        try {
          load(f);
        } catch (std::exception& e) {
          changed = true;
          what = e.what();
        }
        c.check(!changed, "I04:binary-unreadable", what);
      }
      c.event("binary-unwritable");
      return;
    }
    auto f = scratch().file("u.osm");
    unlink(f.c_str());
    ErrorMessages errs{"stale"};
    try {
      write(f, *wc.map, proj, &errs);
    } catch (IOError& e) {
      c.fail("I04:exception", std::string("threw though errors were requested: ") + e.what());
    }
    std::set<Id> bad;
    for (const auto& p : wc.map->pointLayer)
      if (proj.bad(p.basicPoint())) bad.insert(p.id());
    auto affected = checkOsmFile(c, f, *wc.map, *base, false, false, bad);
    std::set<Id> reported;
    for (size_t k = 0; k < errs.size(); ++k) {
      auto pos = errs[k].find("primitive ");
      c.check((k == 0) == (pos == std::string::npos), "I04:error-format", errs[k]);
      if (pos != std::string::npos) reported.insert(std::strtoll(errs[k].c_str() + pos + 10, nullptr, 10));
    }
    c.check(errs.empty() == affected.empty(), "I04:errors", errs.size(), " error messages for ", affected.size(), " affected elements");
    for (Id i : affected) c.check(reported.count(i), "I04:error-missing", "element ", i, " was not (completely) written but not reported");
    for (Id i : reported) c.check(affected.count(i), "I04:error-extra", "element ", i, " was reported but is complete");
    bool threw = false;
    try {
      write(f, *wc.map, proj);
    } catch (WriteError& e) {
      threw = true;
      for (Id i : affected) c.check(std::string(e.what()).find("primitive " + std::to_string(i) + ":") != std::string::npos, "I04:exception-text", "element ", i, " is not mentioned");
    }
    c.check(threw == !affected.empty(), "I04:no-exception", "write without error output ", threw ? "threw" : "did not throw", " with ", affected.size(), " affected elements");
    // what is left can be read
    ErrorMessages le;
    try {
      load(f, *base, &le);
    } catch (IOError& e) {
      c.fail("I04:unreadable", e.what());
    }
    if (affected.empty()) c.check(le.empty(), "I04:reload", le.empty() ? "" : le.back());
    c.event("affected-elements", affected.size());
    c.event("osm-unwritable");
  }
};
VF_HARNESS(I04, "I04");

// What a file says, read independently of the library
struct FileModel {
  struct Mem {
    std::string role, type;
    Id ref;
    bool operator==(const Mem& o) const { return role == o.role && type == o.type && ref == o.ref; }
  };
  struct N {
    GPSPoint g;
    Tags t;
    bool ok{true}, dup{false};
  };
  struct W {
    Ids nd;
    Tags t;
    bool ok{true}, dup{false}, poly{false};
  };
  struct R {
    std::vector<Mem> mem;
    Tags t;
    bool ok{true}, dup{false}, unknown{false};
    std::string type() const {
      auto i = t.find("type");
      return i == t.end() ? "" : i->second;
    }
    std::vector<Id> by(const std::string& role) const {
      std::vector<Id> v;
      for (auto& m : mem)
        if (m.role == role) v.push_back(m.ref);
      return v;
    }
  };
  std::map<Id, N> nodes;
  std::map<Id, W> ways;
  std::map<Id, R> rels;
  bool problem{false}, unknown{false};
  static bool deleted(const pugi::xml_node& n) { return std::string(n.attribute("action").value()) == "delete"; }
  static Tags tags(const pugi::xml_node& n) {
    Tags t;
    bool node = std::string(n.name()) == "node";
    for (auto x = n.child("tag"); x; x = x.next_sibling("tag"))
      if (!node || std::string(x.attribute("k").value()) != "ele") t[x.attribute("k").value()] = x.attribute("v").value();
    return t;
  }
  FileModel() = default;
  FileModel(const pugi::xml_document& d, const Projector& proj, const FileModel* orig) {
    auto osm = d.child("osm");
    for (auto n = osm.child("node"); n; n = n.next_sibling("node")) {
      if (deleted(n)) continue;
      Id id = n.attribute("id").as_llong(0);
      N x;
      x.dup = nodes.count(id) > 0;
      x.t = tags(n);
      x.g = {n.attribute("lat").as_double(0), n.attribute("lon").as_double(0), n.find_child_by_attribute("tag", "k", "ele").attribute("v").as_double(0)};
      try {
        proj.forward(x.g);
      } catch (ForwardProjectionError&) {
        x.ok = false;
      }
      if (id == 0 || x.dup) x.ok = false;
      problem = problem || !x.ok;
      nodes[id] = x;
    }
    for (auto n = osm.child("way"); n; n = n.next_sibling("way")) {
      if (deleted(n)) continue;
      Id id = n.attribute("id").as_llong(0);
      W x;
      x.dup = ways.count(id) > 0;
      x.t = tags(n);
      for (auto k = n.child("nd"); k; k = k.next_sibling("nd")) {
        x.nd.push_back(k.attribute("ref").as_llong());
        x.ok = x.ok && nodes.count(x.nd.back()) && nodes[x.nd.back()].ok;
      }
      x.poly = x.t.count("area") && Attribute(x.t["area"]).asBool().get_value_or(false);
      if (id == 0 || x.dup || x.nd.empty()) x.ok = false;
      problem = problem || !x.ok;
      ways[id] = x;
    }
    for (auto n = osm.child("relation"); n; n = n.next_sibling("relation")) {
      if (deleted(n)) continue;
      Id id = n.attribute("id").as_llong(0);
      R x;
      x.dup = rels.count(id) > 0;
      x.t = tags(n);
      for (auto k = n.child("member"); k; k = k.next_sibling("member")) {
        x.mem.push_back({k.attribute("role").value(), k.attribute("type").value(), k.attribute("ref").as_llong()});
        auto& t = x.mem.back().type;
        if (t != "node" && t != "way" && t != "relation") x.ok = false;
      }
      if (id == 0 || x.dup) x.ok = false;
      // a regulatory element with an empty rule name is a generic one
      if (x.type() == "regulatory_element" && x.t.count("subtype") && x.t["subtype"].empty()) x.t["subtype"] = "regulatory_element";
      if (x.dup) {  // members of both end up in the one read first; only reported or not matters here
        problem = true;
        x = rels[id];
        x.dup = true;
        x.ok = false;
      }
      rels[id] = x;
    }
    for (auto& kv : rels)
      for (auto& m : kv.second.mem) {
        bool there = m.type == "node" ? nodes.count(m.ref) : m.type == "way" ? ways.count(m.ref) : m.type == "relation" ? rels.count(m.ref) : 0;
        kv.second.ok = kv.second.ok && there;
      }
    auto wayOk = [&](const Mem& m, bool line) { return m.type == "way" && ways.count(m.ref) && ways[m.ref].ok && (!line || !ways[m.ref].poly); };
    auto find = [&](R& x, const std::string& role) {
      std::vector<const Mem*> v;
      for (auto& m : x.mem)
        if (m.role == role) v.push_back(&m);
      return v;
    };
    // lanelets and areas, apart from their regulatory elements
    for (auto& kv : rels) {
      R& x = kv.second;
      const R* o = orig && orig->rels.count(kv.first) ? &orig->rels.at(kv.first) : nullptr;
      if (x.type() == "lanelet") {
        auto l = find(x, "left"), r = find(x, "right"), ce = find(x, "centerline");
        x.ok = x.ok && l.size() == 1 && r.size() == 1 && ce.size() <= 1 && wayOk(*l[0], true) && wayOk(*r[0], true) && (ce.empty() || wayOk(*ce[0], true));
      } else if (x.type() == "multipolygon") {
        auto ou = find(x, "outer"), in = find(x, "inner");
        bool same = !orig || (o && o->type() == x.type() && o->by("outer") == x.by("outer") && o->by("inner") == x.by("inner"));
        if (ou.empty()) x.ok = false;
        for (auto* m : ou) x.ok = x.ok && wayOk(*m, true);
        for (auto* m : in) x.ok = x.ok && wayOk(*m, true);
        if (orig && x.ok)
          for (auto& v : {ou, in})
            for (auto* m : v) {
              auto w = orig->ways.find(m->ref);
              same = same && w != orig->ways.end() && w->second.nd == ways[m->ref].nd;
              for (Id i : ways[m->ref].nd) {
                auto q = orig->nodes.find(i);
                same = same && q != orig->nodes.end() && q->second.g.lat == nodes[i].g.lat && q->second.g.lon == nodes[i].g.lon && q->second.g.ele == nodes[i].g.ele;
              }
            }
        x.unknown = !same;
      }
    }
    for (auto& kv : rels) {
      R& x = kv.second;
      const R* o = orig && orig->rels.count(kv.first) ? &orig->rels.at(kv.first) : nullptr;
      if (x.type() != "regulatory_element") continue;
      auto sub = [](const R& r) {
        auto i = r.t.find("subtype");
        return i == r.t.end() ? std::string("-") : i->second;
      };
      if (sub(x) == "-") x.ok = false;
      bool same = !orig || (o && o->type() == x.type() && o->mem == x.mem && sub(*o) == sub(x));
      for (auto& m : x.mem) {
        if (m.type == "node") x.ok = x.ok && nodes.count(m.ref) && nodes[m.ref].ok;
        if (m.type == "way") {
          x.ok = x.ok && wayOk(m, false);
          if (x.ok && orig) same = same && orig->ways.count(m.ref) && orig->ways.at(m.ref).t == ways[m.ref].t;  // tags of signs matter
        }
        if (m.type == "relation") {
          auto q = rels.find(m.ref);
          bool good = q != rels.end() && (q->second.type() == "lanelet" || q->second.type() == "multipolygon") && q->second.ok;
          if (q != rels.end() && q->second.unknown) same = false;
          x.ok = x.ok && good;
          if (x.ok && orig) same = same && orig->rels.count(m.ref) && orig->rels.at(m.ref).type() == q->second.type();
        }
      }
      x.unknown = !same;
    }
    for (auto& kv : rels) {
      R& x = kv.second;
      if (x.type() == "lanelet" || x.type() == "multipolygon")
        for (Id i : x.by("regulatory_element")) {
          if (!rels.count(i) || rels[i].type() != "regulatory_element" || !rels[i].ok) x.ok = false;
          if (rels.count(i) && rels[i].unknown) x.unknown = true;
        }
      bool mine = x.type() == "lanelet" || x.type() == "multipolygon" || x.type() == "regulatory_element";
      if (!mine) {
        // other relations are none of our business, except that what they refer to should exist
        if (!x.ok) unknown = true;
        continue;
      }
      if (!x.ok) problem = true;
      if (x.unknown) unknown = true;
    }
  }
  size_t count(const std::string& t) const {
    size_t n = 0;
    for (auto& r : rels) n += r.second.type() == t;
    return n;
  }
};

struct I03 : Harness {
  uint64_t numCases(bool th) override { return th ? 60000 : 6000; }
  std::string rule() override {
    return "files written from random maps and then damaged: elements, members, tags, references, ids, roles, types, coordinates removed, changed, duplicated, moved, or bytes "
           "cut, flipped, inserted; each is loaded with and without error output and compared with an independent reading of the damaged file; binary files cut or foreign";
  }
  struct Base {
    std::shared_ptr<Projector> proj;
    std::string text, bin;
  };
  static void traverse(LaneletMap& m, uint64_t& h) {
    auto add = [&](double v) { h = mix(h, uint64_t(std::isnan(v) ? 1 : std::fabs(v) < 1e15 ? int64_t(v) : 2)); };
    for (auto p : m.pointLayer) add(p.x() + double(p.attributes().size()));
    for (auto l : m.lineStringLayer) {
      for (auto p : l) add(p.y());
      add(double(m.laneletLayer.findUsages(l).size() + m.areaLayer.findUsages(l).size()));
    }
    for (auto l : m.polygonLayer)
      for (auto p : l) add(p.y());
    for (auto l : m.laneletLayer) {
      add(double(l.centerline().size()));
      for (auto p : l.polygon3d()) add(p.x());
      for (auto p : l.leftBound()) add(p.x());
      auto b = geometry::boundingBox2d(l);
      add(b.isEmpty() ? 0 : b.min().x());
      for (auto& re : l.regulatoryElements()) add(double(re->id()));
    }
    for (auto a : m.areaLayer) {
      for (auto p : a.outerBoundPolygon()) add(p.x());
      for (auto& i : a.innerBoundPolygons())
        for (auto p : i) add(p.x());
      for (auto& re : a.regulatoryElements()) add(double(re->id()));
    }
    for (auto re : m.regulatoryElementLayer) {
      for (auto& p : paramsOf(*re)) add(double(p.first.size()));
      auto b = geometry::boundingBox2d(re);
      add(b.isEmpty() ? 0 : b.min().x());
    }
    BoundingBox2d box(BasicPoint2d(-100, -100), BasicPoint2d(100, 100));
    add(double(m.laneletLayer.search(box).size() + m.areaLayer.search(box).size() + m.pointLayer.search(box).size() + m.lineStringLayer.search(box).size() +
               m.polygonLayer.search(box).size() + m.regulatoryElementLayer.search(box).size()));
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    WorldCase wc(c, true);
    Base b;
    b.proj = randProjector(r);
    auto f = scratch().file("base.osm");
    write(f, *wc.map, *b.proj);
    b.text = slurp(f);
    if (r.p(.15))
      binary(c, wc, b);
    else
      for (int k = 0; k < 3; ++k) osm(c, b);
  }
  void binary(Ctx& c, WorldCase& wc, Base& b) {
    auto& r = c.rng;
    auto f = scratch().file("x.bin");
    write(f, *wc.map, *b.proj);
    b.bin = slurp(f);
    for (int k = 0; k < 6; ++k) {
      std::string t;
      switch (r.i(0, 3)) {
        case 0:
          t = b.text.substr(0, r.idx(b.text.size() + 1));
          break;
        case 1:
          for (int64_t n = r.i(0, 200); n > 0; --n) t += char(r.i(0, 255));
          break;
        default:
          t = b.bin.substr(0, r.p(.3) ? r.idx(80) : r.p(.3) ? b.bin.size() - 1 - r.idx(20) : r.idx(b.bin.size()));
      }
      // the archive starts with the length of its signature; lengths between what is available and what is representable only
        // make the sanitizer refuse the allocation
      uint64_t len = 0;
      std::memcpy(&len, t.data(), std::min<size_t>(8, t.size()));
      if (t.size() >= 8 && len > (1ull << 26) && len < (1ull << 62)) t[7] = char(0x7f);
      spit(f, t);
      bool threw = false;
      ErrorMessages errs;
      try {
        load(f, *b.proj, r.p(.5) ? &errs : nullptr);
      } catch (IOError&) {
        threw = true;
      } catch (std::exception& e) {
        c.fail("I03:binary-exception", std::string("undocumented exception ") + typeid(e).name() + ": " + e.what());
        threw = true;
      }
      c.check(threw, "I03:binary-accepted", t.size(), " of ", b.bin.size(), " bytes accepted");
      c.event("binary-damaged");
    }
    c.sig(Hash()(uint64_t(b.bin.size()))(uint64_t(c.caseIdx)).h);
  }
  static std::vector<pugi::xml_node> elems(const pugi::xml_document& d) {
    std::vector<pugi::xml_node> v;
    for (auto n = d.child("osm").first_child(); n; n = n.next_sibling()) v.push_back(n);
    return v;
  }
  static std::string badId(Rng& r, const std::vector<pugi::xml_node>& v) {
    if (r.p(.5) && !v.empty()) return v[r.idx(v.size())].attribute("id").value();
    return r.pick({"", "0", "abc", "4611686018427387904", "-1", "99999999999999999999", "-99999999999999999999", "123456789012", "1.5", "0x10", " 7"});
  }
  void mutate(Ctx& c, pugi::xml_document& d) {
    auto& r = c.rng;
    auto v = elems(d);
    if (v.empty()) return;
    auto osm = d.child("osm");
    // relations are the interesting ones
    std::vector<pugi::xml_node> rel;
    for (auto& n : v)
      if (std::string(n.name()) == "relation") rel.push_back(n);
    auto n = !rel.empty() && r.p(.5) ? rel[r.idx(rel.size())] : v[r.idx(v.size())];
    std::vector<pugi::xml_node> kids;
    for (auto k = n.first_child(); k; k = k.next_sibling()) kids.push_back(k);
    auto kid = kids.empty() ? pugi::xml_node() : kids[r.idx(kids.size())];
    auto setA = [](pugi::xml_node x, const char* k, const std::string& val) {
      if (!x) return;
      if (!x.attribute(k)) x.append_attribute(k);
      x.attribute(k).set_value(val.c_str());
    };
    int op = int(r.i(0, 16));
    c.event("mutation-" + std::to_string(op));
    switch (op) {
      case 0:
        osm.remove_child(n);
        break;
      case 1:
        if (kid) n.remove_child(kid);
        break;
      case 2:
        setA(kid, "ref", badId(r, v));
        break;
      case 3:
        if (r.p(.5))
          setA(kid, "role", r.pick({"left", "right", "centerline", "outer", "inner", "regulatory_element", "refers", "", "foo"}));
        else
          setA(kid, "type", r.pick({"node", "way", "relation", "", "foo", "Way"}));
        break;
      case 4:
        if (r.p(.8))
          setA(n, "id", badId(r, v));
        else
          n.remove_attribute("id");
        break;
      case 5: {
        std::string k = r.pick({"type", "subtype", "area", "ele", "foo"});
        auto t = n.find_child_by_attribute("tag", "k", k.c_str());
        if (!t) {
          t = n.append_child("tag");
          setA(t, "k", k);
        }
        if (r.p(.2))
          n.remove_child(t);
        else
          setA(t, "v", r.pick({"lanelet", "multipolygon", "regulatory_element", "yes", "no", "", "traffic_light", "right_of_way", "speed_limit", "traffic_sign", "all_way_stop", "nan",
                               "1e9", "unheard_of", "foo"}));
        break;
      }
      case 6:
        osm.insert_copy_before(n, v[r.idx(v.size())]);
        break;
      case 7:
        osm.insert_move_before(n, v[r.idx(v.size())]);
        break;
      case 8:
        setA(n, "action", r.pick({"delete", "modify", ""}));
        break;
      case 9: {
        std::vector<pugi::xml_node> nd;
        for (auto& x : v)
          if (std::string(x.name()) == "node") nd.push_back(x);
        if (nd.empty()) break;
        auto x = nd[r.idx(nd.size())];
        const char* k = r.pick({"lat", "lon"});
        if (r.p(.2))
          x.remove_attribute(k);
        else
          setA(x, k, r.pick({"abc", "", "nan", "91", "1e400", "-1e10", "inf", "49", "8.4", "0", "180", "-90", "49,5"}));
        break;
      }
      case 10:
        n.set_name(r.pick({"nod", "node", "way", "relation", "osm", "tag"}));
        break;
      case 11:
        if (kid) n.prepend_move(kid);
        break;
      case 12: {
        auto m = n.append_child("member");
        setA(m, "type", r.pick({"relation", "way", "node"}));
        setA(m, "ref", r.p(.3) ? n.attribute("id").value() : badId(r, v));
        setA(m, "role", r.pick({"left", "right", "centerline", "outer", "inner", "regulatory_element", "refers", "ref_line", "yield", "right_of_way", "x", ""}));
        break;
      }
      case 13:
        if (kid) n.append_copy(kid);
        break;
      case 14:
        if (r.p(.1)) osm.set_name("osmx");
        break;
      case 15: {
        // many references to relations that are not there
        for (int64_t k = r.i(1, 5); k > 0; --k) {
          auto m = r.p(.5) ? n.append_child("member") : n.prepend_child("member");
          setA(m, "type", "relation");
          setA(m, "ref", r.p(.5) && !rel.empty() ? rel[r.idx(rel.size())].attribute("id").value() : std::to_string(777000000 + k));
          setA(m, "role", r.pick({"refers", "x", "regulatory_element"}));
        }
        break;
      }
      default:
        // remove several elements of one kind
        for (auto& x : v)
          if (std::string(x.name()) == n.name() && r.p(.3)) osm.remove_child(x);
    }
  }
  void osm(Ctx& c, Base& b) {
    auto& r = c.rng;
    pugi::xml_document d0, d;
    d0.load_string(b.text.c_str());
    FileModel orig(d0, *b.proj, nullptr);
    std::string text = b.text;
    bool bytes = r.p(.25);
    if (!bytes) {
      d.load_string(text.c_str());
      for (int64_t n = r.p(.05) ? 0 : r.p(.5) ? 1 : r.i(1, 6); n > 0; --n) mutate(c, d);
      std::ostringstream os;
      d.save(os, " ");
      text = os.str();
    } else {
      switch (r.i(0, 4)) {
        case 0:
          text.resize(r.idx(text.size()));
          break;
        case 1:
          for (int64_t n = r.i(1, 10); n > 0; --n) text[r.idx(text.size())] = char(r.i(0, 255));
          break;
        case 2:
          text.erase(r.idx(text.size()), size_t(r.i(1, 400)));
          break;
        case 3:
          text.insert(r.idx(text.size()), text.substr(r.idx(text.size()), size_t(r.i(1, 400))));
          break;
        default:
          for (int64_t n = r.i(1, 5); n > 0; --n) {  // digits only: the xml stays intact
            size_t p = text.find_first_of("0123456789", r.idx(text.size()));
            if (p != std::string::npos) text[p] = char('0' + r.i(0, 9));
          }
      }
      c.event("bytes-damaged");
    }
    auto f = scratch().file("x.osm");
    spit(f, text);
    pugi::xml_document dd;
    bool xml = bool(dd.load_file(f.c_str()));
    // an id at the very end of the range leaves no new ids for the cases that follow in this process
    for (auto& n : elems(dd))
      if (n.attribute("id").as_llong() > std::numeric_limits<Id>::max() / 4 * 3) {
        c.event("skipped-last-id");
        return;
      }
    ErrorMessages errs{"stale"};
    std::unique_ptr<LaneletMap> m;
    try {
      m = load(f, *b.proj, &errs);
    } catch (ParseError& e) {
      c.check(!xml, "I03:refused", "file is well-formed but loading threw: ", e.what());
      c.event("not-xml");
      return;
    } catch (std::exception& e) {
      c.fail("I03:exception", std::string("undocumented exception ") + typeid(e).name() + ": " + e.what());
      return;
    }
    c.check(xml, "I03:xml", "broken xml accepted");
    c.check(m != nullptr, "I03:null", "no map");
    FileModel fm(dd, *b.proj, &orig);
    bool threw = false;
    try {
      load(f, *b.proj);
    } catch (ParseError&) {
      threw = true;
    }
    c.check(threw == !errs.empty(), "I03:no-exception", errs.size(), " errors, but loading without error output ", threw ? "threw" : "did not throw");
    if (c.verbose) {
      spit("/tmp/i03.orig.osm", b.text);
      spit("/tmp/i03.osm", text);
      for (auto& e : errs) std::cerr << e << "\n";
    }
    uint64_t h = 0;
    traverse(*m, h);
    c.event(errs.empty() ? "loaded-clean" : "loaded-with-errors");
    if (!fm.problem && !fm.unknown) c.check(errs.empty(), "I03:false-error", errs.empty() ? "" : errs.back());
    content(c, *m, fm, errs.empty(), *b.proj);
    if (fm.problem) c.check(!errs.empty(), "I03:unreported", "part of the file was not usable but nothing was reported");
    c.sig(Hash()(uint64_t(errs.size()))(uint64_t(m->size()))(h).h);
  }
  void content(Ctx& c, LaneletMap& m, const FileModel& fm, bool clean, const Projector& proj) {
    auto ck = [&](bool ok, const char* k, const std::string& kind, Id id) {
      c.eval();
      if (!ok) c.fail(std::string("I03:") + k, kind + " " + std::to_string(id) + (clean ? " of a file loaded without errors" : " although intact"));
    };
    if (clean) {
      size_t np = 0;
      for (auto& w : fm.ways) np += w.second.poly;
      c.check(m.pointLayer.size() == fm.nodes.size() && m.lineStringLayer.size() == fm.ways.size() - np && m.polygonLayer.size() == np && m.laneletLayer.size() == fm.count("lanelet") &&
                  m.areaLayer.size() == fm.count("multipolygon") && m.regulatoryElementLayer.size() == fm.count("regulatory_element"),
              "I03:count", "number of elements differs from the file loaded without errors");
    }
    for (auto& kv : fm.nodes) {
      if (!clean && !kv.second.ok) continue;
      ck(m.pointLayer.exists(kv.first), "missing", "node", kv.first);
      auto p = m.pointLayer.get(kv.first);
      auto q = proj.forward(kv.second.g);
      auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
      ck(same(p.x(), q.x()) && same(p.y(), q.y()) && same(p.z(), q.z()), "coordinates", "node", kv.first);
      ck(tagsOf(p.attributes()) == kv.second.t, "attributes", "node", kv.first);
    }
    for (auto& kv : fm.ways) {
      if (!clean && !kv.second.ok) continue;
      Ids got;
      if (kv.second.poly) {
        ck(m.polygonLayer.exists(kv.first), "missing", "way", kv.first);
        auto p = m.polygonLayer.get(kv.first);
        for (size_t k = 0; k < p.size(); ++k) got.push_back(p[k].id());
        ck(tagsOf(p.attributes()) == kv.second.t, "attributes", "way", kv.first);
      } else {
        ck(m.lineStringLayer.exists(kv.first), "missing", "way", kv.first);
        auto p = m.lineStringLayer.get(kv.first);
        got = idsOf(p);
        ck(tagsOf(p.attributes()) == kv.second.t, "attributes", "way", kv.first);
      }
      ck(got == kv.second.nd, "way-nodes", "way", kv.first);
    }
    for (auto& kv : fm.rels) {
      auto& x = kv.second;
      if (!clean && (!x.ok || x.unknown)) continue;
      auto type = x.type();
      Ids re = x.by("regulatory_element");
      if (type == "lanelet") {
        ck(m.laneletLayer.exists(kv.first), "missing", "lanelet", kv.first);
        auto l = m.laneletLayer.get(kv.first);
        ck(x.by("left") == Ids{l.leftBound().id()} && x.by("right") == Ids{l.rightBound().id()}, "lanelet-bounds", "lanelet", kv.first);
        ck(x.by("centerline") == (l.hasCustomCenterline() ? Ids{ConstLanelet(l).centerline().id()} : Ids{}), "lanelet-centerline", "lanelet", kv.first);
        ck(regIds(ConstLanelet(l).regulatoryElements()) == re, "lanelet-regelems", "lanelet", kv.first);
        ck(tagsOf(l.attributes()) == x.t, "attributes", "lanelet", kv.first);
      } else if (type == "multipolygon") {
        ck(m.areaLayer.exists(kv.first), "missing", "area", kv.first);
        ConstArea a = m.areaLayer.get(kv.first);
        std::multiset<Id> out, in;
        for (auto& l : a.outerBound()) out.insert(l.id());
        for (auto& i : a.innerBounds())
          for (auto& l : i) in.insert(l.id());
        auto wo = x.by("outer"), wi = x.by("inner");
        ck(out == std::multiset<Id>(wo.begin(), wo.end()), "area-outer", "area", kv.first);
        ck(in == std::multiset<Id>(wi.begin(), wi.end()), "area-inner", "area", kv.first);
        auto ring = a.outerBound();
        for (size_t k = 0; k < ring.size(); ++k)
          ck(ring[k].back().id() == ring[(k + 1) % ring.size()].front().id(), "area-ring", "area", kv.first);
        ck(regIds(a.regulatoryElements()) == re, "area-regelems", "area", kv.first);
        ck(tagsOf(a.attributes()) == x.t, "attributes", "area", kv.first);
      } else if (type == "regulatory_element") {
        ck(m.regulatoryElementLayer.exists(kv.first), "missing", "regulatory element", kv.first);
        RegulatoryElementConstPtr e = m.regulatoryElementLayer.get(kv.first);
        std::map<std::string, Ids> want, got;
        for (auto& q : x.mem) want[q.role].push_back(q.ref);
        for (auto& q : parsOf(*e, false))
          for (auto& z : q.second) got[q.first].push_back(std::get<2>(z));
        ck(want == got, "regelem-parameters", "regulatory element", kv.first);
        ck(tagsOf(e->attributes()) == x.t, "attributes", "regulatory element", kv.first);
      }
    }
    if (clean) {
      Closure cl;
      for (const auto& e : m.pointLayer) cl.add(e);
      for (const auto& e : m.lineStringLayer) cl.add(e);
      for (const auto& e : m.polygonLayer) cl.add(e);
      for (const auto& e : m.laneletLayer) cl.add(e);
      for (const auto& e : m.areaLayer) cl.add(e);
      for (const auto& e : m.regulatoryElementLayer) cl.add(e);
      checkMap(c, m, cl);
    }
  }
};
VF_HARNESS(I03, "I03");
}  // namespace
