// V01 map validation
#include <lanelet2_io/Io.h>
#include <lanelet2_projection/UTM.h>
#include <lanelet2_routing/RoutingGraph.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_validation/Cli.h>
#include <lanelet2_validation/Validation.h>
#include <lanelet2_validation/ValidatorFactory.h>
#include <unistd.h>

#include "net.h"

namespace {
using namespace vf;
using namespace gen;
using namespace lanelet;
namespace va = lanelet::validation;
using va::Issue;
using va::Issues;
using va::Primitive;
using va::Severity;
using Strs = std::vector<std::string>;

// --- user defined checks, as the documentation describes them
struct Probe {
  int map{0}, rules{0}, graph{0};
  std::vector<size_t> numRules;
  Strs graphParticipants;
  Issues mapIssues, ruleIssues;
  std::vector<Issues> graphIssues;  // per call
};
Probe gProbe;
struct ProbeMap : va::MapValidator {
  constexpr static const char* name() { return "probe.map"; }
  Issues operator()(const LaneletMap&) override {
    ++gProbe.map;
    return gProbe.mapIssues;
  }
};
struct ProbeRules : va::TrafficRuleValidator {
  constexpr static const char* name() { return "probe.rules"; }
  Issues operator()(const LaneletMap&, const std::vector<traffic_rules::TrafficRulesUPtr>& r) override {
    ++gProbe.rules;
    gProbe.numRules.push_back(r.size());
    return gProbe.ruleIssues;
  }
};
struct ProbeGraph : va::RoutingGraphValidator {
  constexpr static const char* name() { return "probe.graph"; }
  Issues operator()(const routing::RoutingGraph&, const traffic_rules::TrafficRules& r) override {
    gProbe.graphParticipants.push_back(r.participant());
    size_t k = size_t(gProbe.graph++);
    return k < gProbe.graphIssues.size() ? gProbe.graphIssues[k] : Issues{};
  }
};
va::RegisterMapValidator<ProbeMap> regProbeMap;
va::RegisterTrafficRuleValidator<ProbeRules> regProbeRules;
va::RegisterRoutingGraphValidator<ProbeGraph> regProbeGraph;

// --- the tagging specification
const Strs kBoolish{"one_way", "dynamic", "lane_change", "participant", "fallback", "temporary"};
const Strs kPointTags{"ele", "type", "subtype"};
const Strs kLineTags{"type", "subtype", "lane_change", "width", "height", "temporary", "color"};
const Strs kLaneletTags{"type", "subtype", "one_way", "name", "region", "speed_limit", "location", "participant"};
const Strs kAreaTags{"type", "subtype", "speed_limit", "location", "region", "name"};
const Strs kRegTags{"dynamic", "fallback", "sign_type", "speed_limit", "subtype", "type"};
using Vals = std::map<std::string, std::set<std::string>>;
const Vals kPointVals{{"type", {"dot", "end", "pole", "post", "start"}}};
const Vals kLineVals{{"type", {"arrow",      "bike_marking", "bump",        "curbstone",  "door",          "fence",       "gate",       "guard_rail", "jersey_barrier",
                               "keepout",    "lift_gate",    "line_thick",  "line_thin",  "pedestrian_marking", "rail",   "road_border", "stop_line", "symbol",
                               "traffic_light", "traffic_sign", "trajectory", "virtual", "visualization", "wall",        "zebra_marking", "zig-zag"}}};
const std::set<std::string> kMark{"dashed", "dashed_solid", "solid", "solid_dashed", "solid_solid"};
const Vals kLineSub{{"line_thick", kMark},
                    {"line_thin", kMark},
                    {"curbstone", {"high", "low"}},
                    {"arrow", {"left", "left_right", "right", "straight", "straight_left", "straight_right"}},
                    {"bike_marking", {"dashed", "solid"}},
                    {"pedestrian_marking", {"dashed", "solid"}},
                    {"stop_line", {"dashed", "solid"}},
                    {"bump", {}},
                    {"traffic_light", {"red", "red_green", "red_yellow", "red_yellow_green"}},
                    {"virtual", {}}};
const Vals kLaneletVals{{"type", {"lanelet"}},
                        {"subtype", {"bicycle_lane", "bus_lane", "crosswalk", "emergency_lane", "highway", "play_street", "rail", "road", "shared_walkway", "stairs", "walkway"}},
                        {"location", {"nonurban", "private", "urban"}}};
const Vals kAreaVals{{"type", {"multipolygon"}},
                     {"subtype", {"bicycle_lane", "building", "bus_lane", "crosswalk", "emergency_lane", "exit", "freespace", "highway", "keepout", "parking", "play_street", "road",
                                  "shared_walkway", "stairs", "traffic_island", "vegetation", "walkway"}},
                     {"location", {"nonurban", "private", "urban"}}};
const Vals kRegVals{{"type", {"regulatory_element"}}};
const Strs kLineMand{"type"}, kLaneletMand{"type", "subtype", "location"}, kRegMand{"type", "subtype"};

bool known(const Strs& tags, const std::string& k) {
  for (auto& t : tags)
    if (k == t || k.rfind(t + ":", 0) == 0 || k.rfind(t + "_", 0) == 0) return true;
  return false;
}
bool isBool(const std::string& v) { return v == "yes" || v == "no" || v == "true" || v == "false" || v == "1" || v == "0"; }

// severity, primitive, id, part of the message
struct Want {
  Severity s;
  Primitive p;
  Id id;
  std::string text;
  bool optional{false};
  Strs anyOf{};
  bool lineSubtype{false};
};
using Wants = std::vector<Want>;
const Strs kMapChecks{"mapping.bool_tags",        "mapping.curvature_too_big", "mapping.duplicated_points", "mapping.mandatory_tags",
                      "mapping.points_too_close", "mapping.unknown_tag_value", "mapping.unknown_tags"};

struct V01 : Harness {
  uint64_t numCases(bool t) override { return t ? 150000 : 15000; }
  std::string rule() override {
    return "random maps with known, unknown, missing and malformed tags, near and repeated points and sharp bends x check filters x participants, "
           "plus user defined checks, written files and damaged files; findings are compared with an independent evaluation; non-trivial = distinct sets of findings";
  }

  void tag(Rng& r, AttributeMap& a, const Strs& tags, const Vals& vals, double pBad) {
    for (auto& t : tags) {
      if (t == "ele") continue;
      if (!r.p(.35)) {
        if (r.p(.2)) a.erase(t);
        continue;
      }
      auto v = vals.find(t);
      std::string val = "5";
      bool b = false;
      for (auto& x : kBoolish) b |= x == t;
      if (b) {
        val = r.p(pBad) ? r.pick<const char*>({"maybe", "2", "Yes", "TRUE", "yes ", "nope", "-"}) : r.pick<const char*>({"yes", "no", "true", "false", "1", "0"});
      } else if (v != vals.end() && !r.p(pBad)) {
        val = *std::next(v->second.begin(), long(r.idx(v->second.size())));
      } else if (v != vals.end() || t == "subtype") {
        val = r.pick<const char*>({"weird", "dashed", "solid", "high", "left", "red", "road", "ROAD", "walkways", "urba", "urbann", "lane"});
      }
      std::string k = t;
      if (b && r.p(.4)) k += r.pick<const char*>({":vehicle", ":left", ":pedestrian", ":vehicle:car"});
      if (t == "speed_limit" && r.p(.3)) k += ":vehicle";
      a[k] = val;
    }
    if (r.p(pBad)) a[r.pick<const char*>({"foo", "one", "particip", "speed", "Type", "my tag", "sub", "tempo", "locatio", "lane", "colour", "dyn"})] = "x";
    if (r.p(pBad * .5)) a["a" + std::to_string(r.i(0, 9))] = "yes";
  }
  template <typename AttrT>
  static void wantTags(std::map<std::string, Wants>& w, const AttrT& a, Id id, Primitive p, const Strs* tags, const Strs* mand, const Vals* vals, const Vals* sub, bool bools) {
    if (bools)
      for (auto& e : a)
        if (known(kBoolish, e.first) && !isBool(e.second.value())) w["mapping.bool_tags"].push_back({Severity::Warning, p, id, e.first});
    if (tags)
      for (auto& e : a)
        if (!known(*tags, e.first)) w["mapping.unknown_tags"].push_back({Severity::Warning, p, id, e.first});
    if (mand)
      for (auto& m : *mand)
        if (a.find(m) == a.end()) w["mapping.mandatory_tags"].push_back({Severity::Warning, p, id, m});
    if (vals)
      for (auto& e : a) {
        auto v = vals->find(e.first);
        if (v != vals->end() && !v->second.count(e.second.value())) w["mapping.unknown_tag_value"].push_back({Severity::Warning, p, id, e.first});
      }
    if (sub) {
      auto t = a.find(std::string("type")), s = a.find(std::string("subtype"));
      if (t != a.end() && s != a.end()) {
        auto v = sub->find(t->second.value());
        if (v != sub->end() && !v->second.count(s->second.value())) w["mapping.unknown_tag_value"].push_back({Severity::Warning, p, id, "subtype", false, {}, true});
      }
    }
  }
  template <typename L>
  static Strs repeated(const L& l) {
    Strs s;
    for (size_t i = 0; i + 1 < l.size(); ++i)
      if (l[i].constData() == l[i + 1].constData()) s.push_back(std::to_string(l[i].id()));
    return s;
  }
  static void wantCurvature(Wants& w, const ConstLineString3d& l, Id id) {
    auto g = lineOf(l);
    for (size_t i = 1; i + 1 < g.size(); ++i) {
      auto a = g[i - 1], b = g[i], d = g[i + 1];
      double prod = geo::norm(b - a) * geo::norm(d - b) * geo::norm(d - a);
      double k = 2 * std::fabs(geo::orient(a, b, d)) / prod;
      Want x{Severity::Warning, Primitive::Lanelet, id, "point " + std::to_string(l[i].id())};
      if (prod < 1e-6 || std::fabs(k - .5) < 1e-6) {
        x.optional = true;
        w.push_back(x);
      } else if (k > .5) {
        w.push_back(x);
      }
    }
  }
  std::map<std::string, Wants> evaluate(const LaneletMap& m) {
    std::map<std::string, Wants> w;
    for (auto& p : m.pointLayer) {
      wantTags(w, p.attributes(), p.id(), Primitive::Point, &kPointTags, nullptr, &kPointVals, nullptr, false);
      Want x{Severity::Warning, Primitive::Point, p.id(), ""};
      bool sure = false, maybe = false;
      for (auto& q : m.pointLayer) {
        if (q == p) continue;
        double d = geo::norm(g3(p.basicPoint()) - g3(q.basicPoint()));
        if (d < .05 + 1e-9) {
          x.anyOf.push_back("point " + std::to_string(q.id()));
          maybe = true;
          sure |= d < .05 - 1e-9;
        }
      }
      x.optional = !sure;
      if (maybe) w["mapping.points_too_close"].push_back(x);
    }
    for (auto& l : m.lineStringLayer) {
      wantTags(w, l.attributes(), l.id(), Primitive::LineString, &kLineTags, &kLineMand, &kLineVals, &kLineSub, true);
      auto rep = repeated(ConstLineString3d(l));
      if (!rep.empty()) w["mapping.duplicated_points"].push_back({Severity::Error, Primitive::LineString, l.id(), "", false, rep});
    }
    for (auto& l : m.polygonLayer) {
      auto rep = repeated(ConstPolygon3d(l));
      if (!rep.empty()) w["mapping.duplicated_points"].push_back({Severity::Error, Primitive::Polygon, l.id(), "", false, rep});
    }
    for (auto& l : m.laneletLayer) {
      wantTags(w, l.attributes(), l.id(), Primitive::Lanelet, &kLaneletTags, &kLaneletMand, &kLaneletVals, nullptr, true);
      wantCurvature(w["mapping.curvature_too_big"], l.leftBound(), l.id());
      wantCurvature(w["mapping.curvature_too_big"], l.rightBound(), l.id());
    }
    for (auto& l : m.areaLayer) wantTags(w, l.attributes(), l.id(), Primitive::Area, &kAreaTags, &kLaneletMand, &kAreaVals, nullptr, true);
    for (auto& l : m.regulatoryElementLayer)
      wantTags(w, l->attributes(), l->id(), Primitive::RegulatoryElement, &kRegTags, &kRegMand, &kRegVals, nullptr, true);
    return w;
  }
  static std::string str(const Issue& i) { return i.buildReport(); }
  static bool mentions(const std::string& msg, const std::string& key) {
    if (key.empty()) return true;
    auto word = [](char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == ':'; };
    for (size_t at = msg.find(key); at != std::string::npos; at = msg.find(key, at + 1)) {
      size_t e = at + key.size();
      // a colon may follow the key
      if ((at == 0 || !word(msg[at - 1])) && (e == msg.size() || !word(msg[e]) || (msg[e] == ':' && (e + 1 == msg.size() || msg[e + 1] == ' ')))) return true;
    }
    return false;
  }
  void compare(Ctx& c, const std::string& check, const Issues& got, Wants want, const std::string& ctx) {
    // longest texts first, so that a key that is part of another key does not take its message
    std::stable_sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.optional != b.optional ? b.optional : a.text.size() > b.text.size(); });
    std::vector<char> used(got.size(), 0);
    for (auto& w : want) {
      size_t hit = got.size();
      for (size_t i = 0; i < got.size() && hit == got.size(); ++i) {
        auto& g = got[i];
        if (used[i] || g.severity != w.s || g.primitive != w.p || g.id != w.id || !mentions(g.message, w.text)) continue;
        bool ok = w.anyOf.empty();
        for (auto& t : w.anyOf) ok |= mentions(g.message, t);
        if (ok) hit = i;
      }
      if (hit == got.size()) {
        std::string own;
        for (auto& g : got)
          if (g.id == w.id) own += "; " + str(g);
        if (w.lineSubtype) {
          c.check(false, "V01:line-subtype-never-checked", ctx, " linestring ", w.id, own);
          continue;
        }
        c.check(w.optional, ("V01:missed:" + check).c_str(), ctx, " no finding for ", va::toString(w.p), " ", w.id, " ", w.text, w.anyOf.empty() ? "" : " near/at " + w.anyOf[0], " among ",
                got.size(), " findings", own);
        continue;
      }
      c.eval();
      used[hit] = 1;
    }
    for (size_t i = 0; i < got.size(); ++i) c.check(used[i], ("V01:unfounded:" + check).c_str(), ctx, " ", str(got[i]));
    c.event(check, got.size());
  }

  struct Filter {
    const char* f;
    Strs checks;
  };
  static Strs allChecks() {
    Strs s = kMapChecks;
    s.insert(s.end(), {"probe.map", "probe.rules", "routing.graph_is_valid", "probe.graph"});
    return s;
  }
  static const std::vector<Filter>& filters() {
    static const std::vector<Filter> F = [] {
      std::vector<Filter> f{{"", allChecks()},
                            {",", allChecks()},
                            {"mapping.*", kMapChecks},
                            {"mapping.*,mapping.bool_tags", kMapChecks},
                            {"mapping.bool_tags,mapping.*,mapping..*_tags", kMapChecks},
                            {"MAPPING.*", kMapChecks},
                            {"mapping", {}},
                            {"nothing", {}},
                            {"bool_tags", {}},
                            {"mapping.bool_tag", {}},
                            {"routing.*", {"routing.graph_is_valid"}},
                            {"probe.*", {"probe.map", "probe.rules", "probe.graph"}},
                            {"probe.*,,routing.*", {"probe.map", "probe.rules", "probe.graph", "routing.graph_is_valid"}},
                            {".*_tags", {"mapping.bool_tags", "mapping.mandatory_tags", "mapping.unknown_tags"}},
                            {"mapping.points_too_close,mapping.Curvature_too_big", {"mapping.points_too_close", "mapping.curvature_too_big"}},
                            {"mapping.unknown_tag.*", {"mapping.unknown_tag_value", "mapping.unknown_tags"}}};
      static Strs singles = kMapChecks;
      for (auto& s : singles) f.push_back({s.c_str(), {s}});
      return f;
    }();
    return F;
  }
  static std::vector<std::string> sorted(Strs s) {
    std::sort(s.begin(), s.end());
    return s;
  }
  static Strs messages(const Issues& is) {
    Strs s;
    for (auto& i : is) s.push_back(i.buildReport());
    return sorted(s);
  }
  Issues randIssues(Rng& r) {
    Issues v;
    for (int64_t n = r.i(0, 3); n > 0; --n) {
      auto sev = r.pick({Severity::Error, Severity::Warning, Severity::Info});
      if (r.p(.3))
        v.push_back(Issue(sev, "note " + std::to_string(r.i(0, 99))));
      else
        v.push_back(Issue(sev, r.pick({Primitive::Point, Primitive::LineString, Primitive::Polygon, Primitive::Lanelet, Primitive::Area, Primitive::RegulatoryElement, Primitive::Primitive}),
                          r.i(1, 1000), "text " + std::to_string(r.i(0, 99))));
    }
    return v;
  }
  // independent formatting of a report
  void report(Ctx& c, const std::vector<va::DetectedIssues>& found) {
    static const std::map<Primitive, std::string> PN{{Primitive::Point, "point"}, {Primitive::LineString, "linestring"}, {Primitive::Polygon, "polygon"}, {Primitive::Lanelet, "lanelet"},
                                                     {Primitive::Area, "area"}, {Primitive::RegulatoryElement, "regulatory element"}, {Primitive::Primitive, "primitive"}};
    Strs e, w;
    for (auto& d : found) {
      size_t ne = 0, nw = 0;
      for (auto& i : d.issues) {
        std::string t = i.severity == Severity::Error ? "Error: " : "Warning: ";
        if (i.id != InvalId) t += PN.at(i.primitive) + " " + std::to_string(i.id) + " ";
        t += i.message + " [" + d.checkName + "]";
        if (i.severity == Severity::Error) e.push_back(t), ++ne;
        if (i.severity == Severity::Warning) w.push_back(t), ++nw;
      }
      c.check(d.errors().size() == ne && d.warnings().size() == nw, "V01:severity", "check ", d.checkName, " errors ", d.errors().size(), "/", ne, " warnings ", d.warnings().size(), "/", nw);
    }
    auto rep = va::buildReport(found);
    c.check(sorted(rep.errors) == sorted(e), "V01:report", "errors: ", rep.errors.size(), " expected ", e.size(), rep.errors.empty() ? "" : " " + rep.errors[0]);
    c.check(sorted(rep.warnings) == sorted(w), "V01:report", "warnings: ", rep.warnings.size(), " expected ", w.size(), rep.warnings.empty() ? "" : " " + rep.warnings[0]);
  }

  void run(Ctx& c) override {
    Rng& r = c.rng;
    IdSource ids(r);
    LaneletMapPtr map;
    double pBad = r.pick({0., .05, .3});
    if (r.p(.3)) {
      NetOpts no;
      no.cols = int(r.i(2, 4));
      no.rows = 1;
      no.pDuplicate = r.pick({.05, .5});
      NetGen g(r, ids, no);
      g.build();
      map = LaneletMapPtr(std::move(g.n.map));
    } else {
      WorldOpts wo;
      wo.strips = int(r.i(0, 4));
      wo.lines = int(r.i(0, 6));
      wo.polys = int(r.i(0, 3));
      wo.areas = int(r.i(0, 3));
      wo.regs = int(r.i(0, 4));
      wo.attrs = false;
      WorldGen g(r, ids, wo);
      auto& w = g.all();
      map = std::make_shared<LaneletMap>();
      // near and repeated points
      std::vector<Point3d> extra;
      for (int64_t n = r.i(0, 4); n > 0 && !w.pts.empty(); --n) {
        auto& p = w.pts[r.idx(w.pts.size())];
        for (int64_t k = r.i(1, 3); k > 0; --k)
          extra.push_back(Point3d(ids(), p.x() + r.pick({0., .01, .03, .04, .049, .051, -.02, .2}), p.y() + r.pick({0., 0., .01, .03, -.04}), p.z() + r.pick({0., 0., .02, .049, -.06, 5., -7.})));
      }
      for (auto& l : w.lines)
        if (r.p(pBad) && l.size() > 0) {
          size_t i = r.idx(l.size());
          l.insert(l.begin() + long(i), l[i]);
        }
      for (auto& l : w.polys)
        if (r.p(pBad) && l.size() > 0) {
          size_t i = r.idx(l.size());
          l.insert(l.begin() + long(i), l[i]);
        }
      for (int64_t n = r.i(0, 3); n > 0 && !w.lines.empty(); --n) {
        AttributeMap a;
        tag(r, a, kRegTags, kRegVals, pBad);
        if (r.p(.8)) a["subtype"] = "my_element";
        if (r.p(.8)) a["type"] = "regulatory_element";
        auto g = std::make_shared<GenericRegulatoryElement>(ids(), RuleParameterMap(), a);
        g->addParameter("refers", w.lines[r.idx(w.lines.size())]);
        w.regs.push_back(g);
      }
      // sharp bends
      for (auto& l : w.lanelets)
        if (r.p(.5)) {
          auto b = r.p(.5) ? l.leftBound() : l.rightBound();
          if (b.size() > 1) {
            size_t i = r.idx(b.size() - 1);
            auto a = g2(utils::to2D(b[i]).basicPoint()), d = g2(utils::to2D(b[i + 1]).basicPoint());
            auto m = (a + d) * .5 + geo::P2{r.d(-4, 4), r.d(-4, 4)};
            b.insert(b.begin() + long(i) + 1, Point3d(ids(), m.x, m.y, 0));
          }
        }
      if (r.p(.9)) {
        for (auto& l : w.lanelets) map->add(r.p(.2) ? l.invert() : l);
        for (auto& l : w.areas) map->add(l);
        for (auto& l : w.lines) map->add(l);
        for (auto& l : w.polys) map->add(l);
        for (auto& l : w.regs) map->add(l);
        for (auto& l : w.pts) map->add(l);
        for (auto& l : extra) map->add(l);
      }
    }
    if (r.p(.8)) {
      for (auto p : map->pointLayer)
        if (r.p(.3)) {
          tag(r, p.attributes(), kPointTags, kPointVals, pBad);
        }
      for (auto l : map->lineStringLayer) {
        tag(r, l.attributes(), kLineTags, kLineVals, pBad);
        auto t = l.attributes().find(std::string("type"));
        if (t != l.attributes().end() && r.p(.7)) {
          auto s = kLineSub.find(t->second.value());
          if (s != kLineSub.end() && !s->second.empty()) l.attributes()["subtype"] = *std::next(s->second.begin(), long(r.idx(s->second.size())));
          if (s != kLineSub.end() && s->second.empty()) l.attributes().erase("subtype");
        }
      }
      for (auto l : map->laneletLayer) tag(r, l.attributes(), kLaneletTags, kLaneletVals, pBad);
      for (auto l : map->areaLayer) tag(r, l.attributes(), kAreaTags, kAreaVals, pBad);
    }
    auto& F = filters();
    auto& f = F[r.idx(F.size())];
    va::ValidationConfig cfg;
    cfg.checksFilter = f.f;
    cfg.participants.clear();
    for (auto& p : {Participants::Vehicle, Participants::Pedestrian, Participants::Bicycle, Participants::VehicleCar})
      if (r.p(.4)) cfg.participants.push_back(p);
    cfg.origin = GPSPoint{49, 8.4, 0};
    std::string ctx = "filter '" + cfg.checksFilter + "'";
    c.check(sorted(va::availabeChecks(cfg.checksFilter)) == sorted(f.checks), "V01:filter", ctx, " selects ", va::availabeChecks(cfg.checksFilter).size(), " checks, expected ", f.checks.size());
    gProbe = Probe{};
    gProbe.mapIssues = randIssues(r);
    gProbe.ruleIssues = randIssues(r);
    for (size_t k = 0; k < 4; ++k) gProbe.graphIssues.push_back(randIssues(r));
    auto found = va::validateMap(*map, cfg);
    // participants for which no routing graph can be built
    std::map<std::string, std::string> broken;
    for (auto& p : cfg.participants) {
      auto rules = traffic_rules::TrafficRulesFactory::create(cfg.location, p);
      try {
        routing::RoutingGraph::build(*map, *rules);
      } catch (LaneletError& e) {
        broken[p] = e.what();
      }
    }
    Strs usable;
    for (auto& p : cfg.participants)
      if (!broken.count(p)) usable.push_back(p);
    auto has = [&](const std::string& n) { return std::count(f.checks.begin(), f.checks.end(), n) > 0; };
    std::map<std::string, std::vector<Issues>> by;
    size_t general = 0;
    for (auto& d : found) {
      c.check(!d.issues.empty(), "V01:empty-entry", ctx, " check ", d.checkName);
      if (d.checkName == "general") {
        c.check(has("routing.graph_is_valid") || has("probe.graph"), "V01:general", ctx, " ", str(d.issues[0]));
        for (auto& i : d.issues) {
          size_t hits = 0;
          for (auto& b : broken) hits += mentions(i.message, b.first) && i.message.find(b.second) != std::string::npos;
          c.check(hits == 1 && i.severity == Severity::Error, "V01:general", ctx, " ", str(i));
          ++general;
        }
        continue;
      }
      c.check(has(d.checkName), "V01:filtered-check-ran", ctx, " reported by ", d.checkName, ": ", d.issues.empty() ? "" : str(d.issues[0]));
      by[d.checkName].push_back(d.issues);
    }
    if (has("routing.graph_is_valid") || has("probe.graph"))
      c.check(general == broken.size(), "V01:general", ctx, " ", general, " errors for ", broken.size(), " participants without routing graph");
    if (!broken.empty()) c.event("no-routing-graph", broken.size());
    auto want = evaluate(*map);
    Hash h;
    for (auto& n : kMapChecks) {
      if (!has(n)) continue;
      c.check(by[n].size() <= 1, "V01:twice", ctx, " check ", n);
      compare(c, n, by[n].empty() ? Issues{} : by[n][0], want[n], ctx + " " + n);
      h(n)(uint64_t(want[n].size()));
    }
    // user defined checks: map and rule checks run once, graph checks once per participant with its rules
    c.check(gProbe.map == (has("probe.map") ? 1 : 0), "V01:map-check-runs", ctx, " ran ", gProbe.map, " times");
    c.check(gProbe.rules == (has("probe.rules") ? 1 : 0), "V01:rule-check-runs", ctx, " ran ", gProbe.rules, " times");
    if (gProbe.rules) c.check(gProbe.numRules[0] == cfg.participants.size(), "V01:rule-check-rules", ctx, " got ", gProbe.numRules[0], " rules");
    if (has("probe.graph"))
      c.check(sorted(gProbe.graphParticipants) == sorted(usable), "V01:graph-check-runs", ctx, " ran for ", gProbe.graphParticipants.size(), " of ", usable.size(), " participants");
    else
      c.check(gProbe.graph == 0, "V01:graph-check-runs", ctx);
    auto flat = [&](const std::string& n) {
      Strs s;
      for (auto& v : by[n])
        for (auto& m : messages(v)) s.push_back(m);
      return sorted(s);
    };
    if (has("probe.map")) c.check(flat("probe.map") == messages(gProbe.mapIssues), "V01:findings-lost", ctx, " probe.map");
    if (has("probe.rules")) c.check(flat("probe.rules") == messages(gProbe.ruleIssues), "V01:findings-lost", ctx, " probe.rules");
    if (has("probe.graph")) {
      Issues all;
      for (size_t k = 0; k < usable.size(); ++k) all.insert(all.end(), gProbe.graphIssues[k].begin(), gProbe.graphIssues[k].end());
      c.check(flat("probe.graph") == messages(all), "V01:findings-lost", ctx, " probe.graph");
    }
    if (has("routing.graph_is_valid")) {
      Strs w;
      for (auto& p : usable) {
        auto rules = traffic_rules::TrafficRulesFactory::create(cfg.location, p);
        auto g = routing::RoutingGraph::build(*map, *rules);
        for (auto& e : g->checkValidity(false)) w.push_back("Error: " + e);
      }
      c.check(flat("routing.graph_is_valid") == sorted(w), "V01:routing-graph", ctx, " reported ", flat("routing.graph_is_valid").size(), " expected ", w.size());
      c.event("routing-graph-errors", w.size());
    }
    report(c, found);
    // reports of arbitrary findings
    std::vector<va::DetectedIssues> any;
    for (int64_t n = r.i(0, 4); n > 0; --n) any.emplace_back(r.pick<const char*>({"a.b", "c.d", "general"}), randIssues(r));
    report(c, any);
    if (!found.empty()) c.sig(h.h);
    if (c.wantSample()) c.sample(ctx + ", " + std::to_string(found.size()) + " checks with findings, " + std::to_string(map->size()) + " elements" + (found.empty() ? "" : ", e.g. " + str(found[0].issues[0])));
    if (r.p(.25)) files(c, *map, cfg, has);
  }

  // --- files and the command line
  struct Redirect {
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Redirect() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Redirect() {
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
    }
  };
  static Strs all(const std::vector<va::DetectedIssues>& v) {
    Strs s;
    for (auto& d : v)
      for (auto& i : d.issues) s.push_back(d.checkName + "|" + i.buildReport());
    return sorted(s);
  }
  template <typename HasT>
  void files(Ctx& c, LaneletMap& map, va::ValidationConfig cfg, HasT has) {
    Rng& r = c.rng;
    char dir[] = "/tmp/ll2val.XXXXXX";
    if (!mkdtemp(dir)) return;
    struct Clean {
      std::string d, f;
      ~Clean() {
        unlink(f.c_str());
        rmdir(d.c_str());
      }
    } clean{dir, std::string(dir) + (r.p(.7) ? "/m.osm" : "/m.bin")};
    std::string f = clean.f;
    projection::UtmProjector proj(Origin{cfg.origin});
    ErrorMessages werr;
    try {
      lanelet::write(f, map, proj, &werr);
    } catch (LaneletError&) {
      c.event("file-not-writable");
      return;
    }
    int damage = int(r.i(0, 4));
    if (damage >= 2) {
      std::ifstream i(f, std::ios::binary);
      std::stringstream ss;
      ss << i.rdbuf();
      std::string s = ss.str();
      i.close();
      if (damage == 2) s = s.substr(0, r.idx(s.size() + 1));
      if (damage == 3)
        for (int k = 0; k < 4; ++k) {
          // drop references
          auto at = s.find("<member", r.idx(s.size() + 1));
          if (at == std::string::npos) at = s.find("<nd", r.idx(s.size() + 1));
          if (at == std::string::npos) break;
          auto ref = s.find("ref=\"", at);
          if (ref != std::string::npos) s.insert(ref + 5, "99");
        }
      if (damage == 4) f = std::string(dir) + r.pick<const char*>({"/missing.osm", "/missing.bin", "/missing.xyz", ""});
      std::ofstream(clean.f, std::ios::binary) << s;
    }
    // what the file contains
    LaneletMapPtr m;
    ErrorMessages errs;
    bool fails = false;
    try {
      m = lanelet::load(f, proj, &errs);
    } catch (LaneletError&) {
      fails = true;
    }
    gProbe = Probe{};
    std::vector<va::DetectedIssues> found;
    try {
      found = va::validateMap(f, cfg);
    } catch (std::exception& e) {
      c.fail("V01:file-throws", std::string("validateMap of a file threw: ") + e.what());
    }
    c.event(fails ? "file-unreadable" : errs.empty() ? "file-clean" : "file-with-load-errors");
    if (fails) {
      c.check(found.size() == 1 && found[0].checkName == "general" && found[0].errors().size() == 1, "V01:load-failure", "expected one general error, got ", all(found).size());
    } else {
      gProbe = Probe{};
      auto mem = va::validateMap(*m, cfg);
      Strs want = all(mem);
      for (auto& e : errs) want.push_back("general|Error: " + e);
      auto got = all(found);
      // elements without id get a different id in every load
      if (got.size() == want.size() && got != sorted(want)) c.event("file-findings-differ-in-text");
      c.check(got.size() == want.size(), "V01:file-findings", "file ", got.size(), " findings, loaded map ", want.size());
      c.check(got == sorted(want), "V01:file-findings-text", "findings of the file differ from those of the loaded map");
    }
    // command line
    Strs args{"validator", f, "--lat", "49", "--lon", "8.4"};
    if (!cfg.checksFilter.empty()) {
      args.push_back(r.p(.5) ? "-f" : "--filter");
      args.push_back(cfg.checksFilter);
    }
    for (auto& p : cfg.participants) {
      args.push_back(r.p(.5) ? "-p" : "--participants");
      args.push_back(p);
    }
    if (r.p(.3)) {
      args.push_back("--location");
      args.push_back("de");
    }
    bool print = r.p(.2);
    if (print) args.push_back("--print");
    std::vector<const char*> argv;
    for (auto& a : args) argv.push_back(a.c_str());
    va::CommandLineConfig cl;
    int rc = -1;
    Redirect red;
    if (f.back() == '/') return;
    gProbe = Probe{};
    std::string what;
    try {
      cl = va::parseCommandLine(int(argv.size()), argv.data());
      rc = va::runFromConfig(cl);
    } catch (std::exception& e) {
      what = e.what();
    }
    auto err = red.err.str(), out = red.out.str();
    c.check(what.empty(), "V01:cli-throws", what);
    c.check(cl.mapFile == f && cl.print == print && !cl.help && cl.validationConfig.checksFilter == cfg.checksFilter && cl.validationConfig.location == "de" &&
                cl.validationConfig.origin.lat == 49 && cl.validationConfig.origin.lon == 8.4 &&
                (cfg.participants.empty() ? cl.validationConfig.participants == Strs{"vehicle"} : cl.validationConfig.participants == cfg.participants),
            "V01:cli-config", "command line not understood");
    if (print) {
      c.check(rc == 0, "V01:cli-print", "exit code ", rc);
      for (auto& n : allChecks()) c.check((out.find(n + "\n") != std::string::npos) == has(n), "V01:cli-print", "check ", n);
      return;
    }
    if (cfg.participants.empty()) {  // default participant
      cfg.participants = {"vehicle"};
      gProbe = Probe{};
      found = va::validateMap(f, cfg);
    }
    c.check(rc == (found.empty() ? 0 : 1), "V01:cli-exit-code", "exit code ", rc, " with ", all(found).size(), " findings");
    auto rep = va::buildReport(found);
    auto n = rep.errors.size() + rep.warnings.size();
    c.check(out.find(std::to_string(n) + " issues found.") != std::string::npos, "V01:cli-count", "printed: ", out.substr(out.size() > 60 ? out.size() - 60 : 0), " expected ", n);
    for (auto& e : rep.errors) c.check(err.find(e + "\n") != std::string::npos, "V01:cli-errors", "not printed: ", e);
    for (auto& e : rep.warnings) c.check(out.find(e + "\n") != std::string::npos, "V01:cli-warnings", "not printed: ", e);
    c.event("command-line-runs");
  }
};
VF_HARNESS(V01, "V01");
}  // namespace
