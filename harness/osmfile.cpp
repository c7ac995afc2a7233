// I05: the OSM document layer reads exactly what a document says, drops exactly what is broken and writes it back unchanged.
#include <lanelet2_io/Configuration.h>
#include <lanelet2_io/io_handlers/OsmFile.h>

#include <pugixml.hpp>

#include "gen.h"
#include "vf.h"

using namespace lanelet;
using namespace vf;

namespace {
using Attrs = std::map<std::string, std::string>;
struct MNode {
  Attrs a;
  double lat, lon, ele;
};
struct MWay {
  Attrs a;
  std::vector<Id> nodes;
  bool broken{false};
};
struct Member {
  std::string role, type;
  Id id;
};
struct MRel {
  Attrs a;
  std::vector<Member> m;
};
struct Model {
  std::map<Id, MNode> nodes;
  std::map<Id, MWay> ways;
  std::map<Id, MRel> rels;
};

void compare(Ctx& c, const char* when, const osm::File& f, const Model& m, double tol) {
  c.check(f.nodes.size() == m.nodes.size() && f.ways.size() == m.ways.size() && f.relations.size() == m.rels.size(), "I05:count", when, ": ", f.nodes.size(), " nodes, ",
          f.ways.size(), " ways, ", f.relations.size(), " relations instead of ", m.nodes.size(), ", ", m.ways.size(), ", ", m.rels.size());
  auto attrs = [](const osm::Primitive& p) { return Attrs(p.attributes.begin(), p.attributes.end()); };
  for (auto& e : m.nodes) {
    auto it = f.nodes.find(e.first);
    c.check(it != f.nodes.end() && it->second.id == e.first, "I05:node", when, ": node ", e.first, " is missing");
    auto& n = it->second;
    c.check(attrs(n) == e.second.a, "I05:node-tags", when, ": tags of node ", e.first);
    c.check(std::fabs(n.point.lat - e.second.lat) <= tol && std::fabs(n.point.lon - e.second.lon) <= tol && std::fabs(n.point.ele - e.second.ele) <= tol, "I05:node-position", when,
            ": node ", e.first, " at ", n.point.lat, " ", n.point.lon, " ", n.point.ele, " instead of ", e.second.lat, " ", e.second.lon, " ", e.second.ele);
  }
  for (auto& e : m.ways) {
    auto it = f.ways.find(e.first);
    c.check(it != f.ways.end() && it->second.id == e.first, "I05:way", when, ": way ", e.first, " is missing");
    c.check(attrs(it->second) == e.second.a, "I05:way-tags", when, ": tags of way ", e.first);
    std::vector<const osm::Node*> want;
    for (Id i : e.second.nodes) want.push_back(&f.nodes.at(i));
    std::vector<const osm::Node*> got(it->second.nodes.begin(), it->second.nodes.end());
    if (e.second.broken) {  // whatever is kept must exist
      for (auto* n : got) c.check(n && f.nodes.count(n->id) && &f.nodes.at(n->id) == n, "I05:way-nodes", when, ": way ", e.first, " has a node outside of the file");
      continue;
    }
    c.check(got == want, "I05:way-nodes", when, ": nodes of way ", e.first);
  }
  for (auto& e : m.rels) {
    auto it = f.relations.find(e.first);
    c.check(it != f.relations.end() && it->second.id == e.first, "I05:relation", when, ": relation ", e.first, " is missing");
    c.check(attrs(it->second) == e.second.a, "I05:relation-tags", when, ": tags of relation ", e.first);
    auto& g = it->second.members;
    c.check(g.size() == e.second.m.size(), "I05:members", when, ": relation ", e.first, " has ", g.size(), " members instead of ", e.second.m.size());
    for (size_t k = 0; k < g.size(); ++k) {
      auto& w = e.second.m[k];
      const osm::Primitive* p = w.type == "node" ? (const osm::Primitive*)&f.nodes.at(w.id) : w.type == "way" ? (const osm::Primitive*)&f.ways.at(w.id) : &f.relations.at(w.id);
      c.check(g[k].first == w.role && g[k].second == p && g[k].second->type() == w.type, "I05:members", when, ": member ", k, " of relation ", e.first);
    }
    for (auto* role : {"refers", "a", "", "left"}) {
      size_t first = g.size();
      std::vector<const osm::Primitive*> all, seen;
      for (size_t k = 0; k < g.size(); ++k)
        if (g[k].first == role) {
          first = std::min(first, k);
          all.push_back(g[k].second);
        }
      auto fr = osm::findRole(g, role);
      c.check(size_t(fr - g.begin()) == first, "I05:find-role", when, ": role ", role);
      osm::forEachMember(g, role, [&](auto& x) { seen.push_back(x.second); });
      c.check(seen == all, "I05:for-each-member", when, ": role ", role);
    }
  }
}

struct I05 : Harness {
  uint64_t numCases(bool th) override { return th ? 1500000 : 60000; }
  std::string rule() override {
    return "a case is one OSM document with nodes, ways and relations (forward, circular and self references, repeated roles) in any order, some of them deleted, repeated, without id or "
           "with missing members; distinct states are hashes of the document";
  }
  static double coord(Rng& r, double m) {
    switch (r.i(0, 4)) {
      case 0: return double(r.i(-int64_t(m), int64_t(m)));
      case 1: return r.d(-1e-6, 1e-6);
      case 2: return std::round(r.d(-m, m) * 10) / 10;
      default: return r.d(-m, m);
    }
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    Model m;
    pugi::xml_document doc;
    auto root = doc.append_child("osm");
    root.append_attribute("version") = "0.6";
    std::multiset<Id> errors;  // at least so many messages naming the id
    auto text = [&] { return gen::texts()[r.idx(gen::texts().size())]; };
    auto attrs = [&](pugi::xml_node n) {
      Attrs a;
      for (int64_t k = r.i(0, 3); k > 0; --k) {
        std::string key = r.pick({"type", "subtype", "k", "name", "région", "a:b"}), val = text();
        if (r.p(.05) && std::string(n.name()) != "node") key = "ele";
        if (a.count(key)) continue;
        auto t = n.append_child("tag");
        t.append_attribute("k") = key.c_str();
        t.append_attribute("v") = val.c_str();
        a[key] = val;
      }
      return a;
    };
    int nn = int(r.i(1, 8)), nw = int(r.i(0, 5)), nr = int(r.i(0, 6));
    auto mkIds = [&](int n) {
      std::vector<Id> v;
      std::set<Id> s;
      while (int(v.size()) < n) {
        Id id = r.p(.1) ? r.pick({Id(1) << 40, -(Id(1) << 45), std::numeric_limits<Id>::max()}) - r.i(0, 3) : r.i(-12, 12);
        if (id != 0 && s.insert(id).second) v.push_back(id);
      }
      return v;
    };
    auto nids = mkIds(nn), wids = mkIds(nw), rids = mkIds(nr);  // ids of different kinds may be the same
    bool hostile = r.p(.6);
    std::set<Id> goneN, goneW, goneR;
    auto bad = [&](double p) { return hostile && r.p(p); };
    for (Id id : nids)
      if (bad(.1)) goneN.insert(id);
    for (Id id : wids)
      if (bad(.1)) goneW.insert(id);
    for (Id id : rids)
      if (bad(.15)) goneR.insert(id);
    auto element = [&](const char* type, Id id, bool gone) {
      auto n = root.append_child(type);
      if (gone && r.p(.5)) {  // an element without valid id
        switch (r.i(0, 2)) {
          case 0: n.append_attribute("id") = "0"; break;
          case 1: n.append_attribute("id") = "x"; break;
          default: break;
        }
        errors.insert(0);
        c.event("elements without id");
      } else {
        n.append_attribute("id") = (long long)id;
        if (gone) {
          n.append_attribute("action") = "delete";
          c.event("deleted elements");
        } else if (r.p(.2)) {
          n.append_attribute("action") = "modify";
        }
      }
      return n;
    };
    auto num = [](double d) {
      char b[64];
      std::snprintf(b, sizeof b, "%.17g", d);
      return std::string(b);
    };
    for (Id id : nids) {
      auto n = element("node", id, goneN.count(id));
      MNode x{attrs(n), coord(r, 90), coord(r, 180), r.p(.5) ? coord(r, 1000) : 0.};
      n.append_attribute("lat") = num(x.lat).c_str();
      n.append_attribute("lon") = num(x.lon).c_str();
      if (x.ele != 0 || r.p(.2)) {
        auto t = n.append_child("tag");
        t.append_attribute("k") = "ele";
        t.append_attribute("v") = num(x.ele).c_str();
      }
      if (!goneN.count(id)) m.nodes[id] = x;
    }
    for (Id id : wids) {
      auto n = element("way", id, goneW.count(id));
      MWay x;
      int64_t len = r.i(0, 5);
      for (int64_t k = 0; k < len; ++k) {
        Id ref = bad(.04) ? r.i(100, 200) : r.pick(nids);
        auto nd = n.append_child("nd");
        nd.append_attribute("ref") = (long long)ref;
        x.nodes.push_back(ref);
        if (!m.nodes.count(ref)) x.broken = true;
      }
      x.a = attrs(n);
      if (goneW.count(id)) continue;
      if (x.broken) {
        x.nodes.clear();
        errors.insert(id);
        c.event("ways with missing nodes");
      }
      m.ways[id] = x;
    }
    for (Id id : rids)
      if (!goneR.count(id)) m.rels[id];
    for (Id id : rids) {
      auto n = element("relation", id, goneR.count(id));
      MRel x;
      int64_t len = r.i(0, 7);
      for (int64_t k = 0; k < len; ++k) {
        Member b{r.pick({"refers", "a", "", "left", "right", "ü"}), r.pick({"node", "way", "relation", "relation"}), 0};
        auto& pool = b.type == "node" ? nids : b.type == "way" ? wids : rids;
        b.id = pool.empty() || bad(.15) ? r.i(100, 200) : r.pick(pool);
        bool ok = b.type == "node" ? m.nodes.count(b.id) : b.type == "way" ? m.ways.count(b.id) : m.rels.count(b.id);
        if (bad(.03)) {
          b.type = r.pick({"", "Node", "area"});
          ok = false;
          c.event("members of unknown type");
        }
        auto e = n.append_child("member");
        e.append_attribute("type") = b.type.c_str();
        e.append_attribute("ref") = (long long)b.id;
        e.append_attribute("role") = b.role.c_str();
        if (goneR.count(id)) continue;
        if (ok) x.m.push_back(b);
        else {
          errors.insert(id);
          c.event("missing members");
        }
        if (ok && b.type == "relation") c.event(b.id == id ? "self references" : "relations in relations");
      }
      x.a = attrs(n);
      if (!goneR.count(id)) m.rels[id] = x;
    }
    // repeated ids: the first one counts
    if (hostile)
      for (int64_t k = r.i(0, 2); k > 0; --k) {
        int t = int(r.i(0, 2));
        auto& pool = t == 0 ? nids : t == 1 ? wids : rids;
        auto& gone = t == 0 ? goneN : t == 1 ? goneW : goneR;
        if (pool.empty()) continue;
        Id id = r.pick(pool);
        if (gone.count(id)) continue;
        auto n = root.append_child(t == 0 ? "node" : t == 1 ? "way" : "relation");
        n.append_attribute("id") = (long long)id;
        attrs(n);
        errors.insert(id);
        c.event("repeated ids");
      }
    // the order of nodes, ways and relations in the document does not matter
    if (r.p(.3)) {
      for (auto* t : {"way", "node"}) {
        std::vector<pugi::xml_node> v;
        for (auto n : root.children(t)) v.push_back(n);
        for (auto& n : v) {
          root.append_copy(n);
          root.remove_child(n);
        }
      }
    }
    std::ostringstream os;
    doc.save(os);
    Hash h;
    h(os.str());
    c.sig(h.h);
    // through text, as from a file
    pugi::xml_document in;
    c.check(bool(in.load_string(os.str().c_str())), "I05:setup", "document");
    osm::Errors errs;
    auto f = osm::read(in, &errs);
    compare(c, "read", f, m, 0);
    c.check(errs.size() == errors.size(), "I05:errors", errs.size(), " errors instead of ", errors.size(), errs.empty() ? "" : "; first: ", errs.empty() ? "" : errs[0]);
    for (Id id : std::set<Id>(errors.begin(), errors.end())) {
      size_t n = 0;
      for (auto& e : errs) n += e.find("id " + std::to_string(id) + " ") != std::string::npos;
      c.check(n >= errors.count(id), "I05:errors", n, " errors name ", id, ", expected ", errors.count(id));
    }
    c.event(errors.empty() ? "clean documents" : "documents with errors");
    if (r.p(.5)) {
      auto f2 = osm::read(in);
      c.check(f2 == f, "I05:read-twice", "a second look at the document differs");
    }
    for (auto& w : m.ways)
      if (w.second.broken) return;  // not specified what is left of them
    // written and read again
    io::Configuration cfg;
    bool upload = r.p(.3), short2 = r.p(.3);
    if (upload) cfg["josm_upload"] = true;
    if (short2) cfg["josm_format_elevation"] = true;
    auto out = osm::write(f, cfg);
    c.check(out->child("osm").attribute("upload").as_bool() == upload && std::string(out->child("osm").attribute("version").value()) == "0.6", "I05:header", "upload flag or version");
    for (auto n : out->child("osm").children()) {
      bool known = n.attribute("id").as_llong() > 0;
      c.check(!!n.attribute("visible") == known && !!n.attribute("version") == known, "I05:version", "positive ids are known to the server, negative ones are not: ", n.attribute("id").value());
    }
    std::ostringstream os2;
    out->save(os2);
    pugi::xml_document again;
    c.check(bool(again.load_string(os2.str().c_str())), "I05:write", "written document does not parse");
    osm::Errors errs2;
    auto g = osm::read(again, &errs2);
    c.check(errs2.empty(), "I05:write", "errors in the written document: ", errs2.empty() ? "" : errs2[0]);
    if (short2)
      for (auto& n : m.nodes) {
        auto it = g.nodes.find(n.first);
        c.check(it != g.nodes.end() && std::fabs(it->second.point.ele - n.second.ele) <= .005 + 1e-9, "I05:elevation", "node ", n.first);
        n.second.ele = it->second.point.ele;
      }
    compare(c, "written and read", g, m, 1.01e-11);
    c.check(f == g && g == f, "I05:equal", "the same file is not equal to itself");
    // equality tells files apart
    auto kind = r.i(0, 5);
    bool changed = false;
    auto anyOf = [&](auto& map) { return std::next(map.begin(), long(r.idx(map.size()))); };
    if (kind == 0 && !g.nodes.empty() && g.ways.empty() && g.relations.empty()) {
      g.nodes.erase(anyOf(g.nodes));
      changed = true;
    } else if (kind == 1 && !g.ways.empty()) {
      auto& w = anyOf(g.ways)->second;
      auto old = w.nodes;
      if (!w.nodes.empty() && r.p(.7)) w.nodes[r.idx(w.nodes.size())] = &anyOf(g.nodes)->second;
      else if (!g.nodes.empty()) w.nodes.push_back(&anyOf(g.nodes)->second);
      changed = old != w.nodes;
    } else if (kind >= 2 && !g.relations.empty()) {
      auto& e = anyOf(g.relations)->second.members;
      if (!e.empty()) {
        size_t k = r.idx(e.size());
        auto* old = e[k].second;
        if (kind == 2 || kind == 3) {
          osm::Primitive* n = kind == 2 ? (osm::Primitive*)&anyOf(g.relations)->second : g.ways.empty() ? old : &anyOf(g.ways)->second;
          e[k].second = n;
          changed = n != old;
        } else if (kind == 4) {
          e.pop_back();
          changed = true;
        } else {
          e.push_back(e[k]);
          changed = true;
        }
      }
    }
    if (changed) {
      c.check(!(f == g) && !(g == f), "I05:unequal", "files with different members are equal (", kind, ")");
      c.event("different files told apart");
    }
  }
};
VF_HARNESS(I05, "I05");
}  // namespace
