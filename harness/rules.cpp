// T01 passability, T02 lane changes, T03 speed limits
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_traffic_rules/Exceptions.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/GermanTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include <iomanip>
#include <memory>

#include "gen.h"

namespace {
using namespace vf;
using namespace gen;
using traffic_rules::SpeedLimitInformation;
using traffic_rules::TrafficRules;
using Tags = std::map<std::string, std::string>;

const std::vector<std::string>& participants() {
  static const std::vector<std::string> P{"vehicle",           "vehicle:car",  "vehicle:car:electric", "vehicle:car:combustion", "vehicle:bus", "vehicle:truck",
                                          "vehicle:motorcycle", "vehicle:taxi", "vehicle:emergency",    "bicycle",                "pedestrian"};
  return P;
}

// Rules of another country: regulatory elements decide first
class TestRules : public traffic_rules::GenericTrafficRules {
 public:
  using GenericTrafficRules::GenericTrafficRules;
  static traffic_rules::CountrySpeedLimits limits() {
    using namespace units::literals;
    return {{31_kmh}, {61_kmh, false}, {91_kmh}, {121_kmh, false}, {11_kmh, false}, {3_kmh, false}, {17_kmh}};
  }

 protected:
  static Optional<bool> flag(const RegulatoryElementConstPtrs& re, const char* k) {
    for (auto& r : re) {
      auto v = r->attributes().find(k);
      if (v != r->attributes().end()) return v->second.asBool();
    }
    return {};
  }
  Optional<bool> canPass(const RegulatoryElementConstPtrs& re) const override { return flag(re, "open"); }
  const traffic_rules::CountrySpeedLimits& countrySpeedLimits() const override { return l_; }
  Optional<SpeedLimitInformation> speedLimit(const RegulatoryElementConstPtrs& re) const override {
    for (auto& r : re) {
      auto v = r->attributes().find("limit");
      if (v != r->attributes().end()) return SpeedLimitInformation{*v->second.asVelocity(), false};
    }
    return {};
  }

 private:
  traffic_rules::CountrySpeedLimits l_{limits()};
};
traffic_rules::RegisterTrafficRules<TestRules> regV("xx", Participants::Vehicle), regB("xx", Participants::Bicycle), regP("xx", Participants::Pedestrian);

bool isOrUnder(const std::string& who, const std::string& group) {  // vehicle:car belongs to vehicle
  return who == group || (who.size() > group.size() && who.compare(0, group.size(), group) == 0 && who[group.size()] == ':');
}
Tags tagsOf(const AttributeMap& a) {
  Tags t;
  for (auto& x : a) t[x.first] = x.second.value();
  return t;
}
bool yes(const std::string& v) { return v == "yes" || v == "true" || v == "1"; }
std::string get(const Tags& t, const std::string& k, const std::string& d = "") {
  auto i = t.find(k);
  return i == t.end() ? d : i->second;
}
// value of prefix:group for the participant, "" if none; any tells if there is any such tag
std::string overrideOf(const Tags& t, const std::string& prefix, const std::string& who, bool& any) {
  std::string r;
  any = false;
  for (auto& kv : t) {
    if (kv.first.compare(0, prefix.size() + 1, prefix + ":") != 0) continue;
    any = true;
    if (isOrUnder(who, kv.first.substr(prefix.size() + 1))) r = kv.second;
  }
  return r;
}

// The table of the tagging documentation
bool typeAllows(const std::string& subtype, const std::string& who) {
  const bool v = isOrUnder(who, "vehicle"), b = who == "bicycle", p = who == "pedestrian";
  if (subtype.empty()) return v;
  if (subtype == "road") return v || b;
  if (subtype == "highway") return v;
  if (subtype == "play_street" || subtype == "exit") return v || b || p;
  if (subtype == "emergency_lane") return who == "vehicle:emergency";
  if (subtype == "bus_lane") return who == "vehicle:bus" || who == "vehicle:emergency" || who == "vehicle:taxi";
  if (subtype == "bicycle_lane") return b;
  if (subtype == "walkway" || subtype == "crosswalk" || subtype == "stairs") return p;
  if (subtype == "shared_walkway") return p || b;
  return false;
}
bool mayUse(const Tags& t, const std::string& who) {
  bool any;
  auto o = overrideOf(t, "participant", who, any);
  if (any) return yes(o);
  return typeAllows(get(t, "subtype"), who);
}
bool bothWays(const Tags& t, const std::string& who) {
  if (t.count("one_way")) return !yes(t.at("one_way"));
  bool any;
  auto o = overrideOf(t, "one_way", who, any);
  if (any) return !o.empty() && !yes(o);
  return who == "pedestrian";
}

struct TagGen {
  Rng& r;
  std::string yn() { return r.pick({"yes", "no", "yes", "no", "true", "false", "1", "0"}); }
  // groups of participants where no two are on the same branch
  std::vector<std::string> groups() {
    std::vector<std::string> g, out;
    if (r.p(.35)) {
      g = {"vehicle"};
    } else {
      if (r.p(.5))
        g = {"vehicle:car"};
      else
        g = {"vehicle:car:electric", "vehicle:car:combustion"};
      for (auto s : {"vehicle:bus", "vehicle:truck", "vehicle:motorcycle", "vehicle:taxi", "vehicle:emergency"}) g.push_back(s);
    }
    g.push_back("bicycle");
    g.push_back("pedestrian");
    double p = r.pick({.15, .4, .8});
    for (auto& x : g)
      if (r.p(p)) out.push_back(x);
    if (out.empty()) out.push_back(g[r.idx(g.size())]);
    return out;
  }
  void participants(AttributeMap& a) {
    if (r.p(.35))
      for (auto& g : groups()) a["participant:" + g] = yn();
  }
  void oneWay(AttributeMap& a) {
    if (r.p(.25))
      a["one_way"] = yn();
    else if (r.p(.3))
      for (auto& g : groups()) a["one_way:" + g] = yn();
  }
  void type(AttributeMap& a) {
    static const std::vector<std::string> S{"road",    "highway", "play_street", "emergency_lane", "bus_lane", "bicycle_lane", "exit",   "walkway",    "shared_walkway",
                                            "crosswalk", "stairs", "parking",     "freespace",      "vegetation", "keepout",     "building", "traffic_island", "rail", "foo", "roadway", "roa", ""};
    if (r.p(.8)) a["subtype"] = r.p(.4) ? "road" : r.p(.15) ? "walkway" : S[r.idx(S.size())];
    if (r.p(.5)) a["location"] = r.pick({"urban", "nonurban", "urban", "private"});
    if (r.p(.1)) a["type"] = r.pick({"lanelet", "multipolygon", "foo"});
    if (r.p(.1)) a["road_name"] = "x";
  }
};

struct Marking {
  AttributeMap a;
  int kind{0};
};

// kind of permission as documented: which directions may cross, seen from the line itself
void lineAllows(const Tags& t, const std::string& who, bool virtualOpen, bool& leftToRight, bool& rightToLeft) {
  leftToRight = rightToLeft = false;
  if (t.count("lane_change")) {
    leftToRight = rightToLeft = yes(t.at("lane_change"));
    return;
  }
  if (t.count("lane_change:left") && t.count("lane_change:right")) {
    rightToLeft = yes(t.at("lane_change:left"));
    leftToRight = yes(t.at("lane_change:right"));
    return;
  }
  auto type = get(t, "type"), sub = get(t, "subtype");
  if (type == "virtual" && virtualOpen) leftToRight = rightToLeft = true;
  const bool v = isOrUnder(who, "vehicle"), b = who == "bicycle", p = who == "pedestrian";
  if ((v || b) && (type == "line_thin" || type == "line_thick")) {
    if (sub == "dashed") leftToRight = rightToLeft = true;
    if (sub == "dashed_solid") leftToRight = true;
    if (sub == "solid_dashed") rightToLeft = true;
  }
  if ((p || b) && type == "curbstone" && sub == "low") leftToRight = rightToLeft = true;
}

// A grid of cells that are lanelets (heading north or south) or areas; lines between the cells are shared or not
struct Grid {
  struct Cell {
    bool lanelet{true}, hole{false};
    bool north{true};    // heading of the stored lanelet
    ConstLanelet ll;     // as stored
    ConstArea ar;
    Tags tags;
    RegulatoryElementConstPtrs regs;
  };
  int W, L;
  std::vector<std::vector<Cell>> cells;                    // [column][row]
  std::vector<std::vector<LineString3d>> vert[2], hor[2];  // [west/east side] resp. [south/north side] of the cell
  std::vector<std::vector<Point3d>> pts;
  IdSource ids;
  Rng& r;
  AttributeMap marking() {
    AttributeMap a;
    static const std::vector<std::string> T{"line_thin", "line_thick", "curbstone", "virtual", "road_border", "guard_rail", "wall", "fence", "zebra_marking", "pedestrian_marking",
                                            "bike_marking", "keepout", "jersey_barrier", "gate", "door", "rail", "foo", ""};
    static const std::vector<std::string> S{"solid", "solid_solid", "dashed", "dashed_solid", "solid_dashed", "high", "low", "foo", ""};
    auto type = r.p(.55) ? T[r.idx(2)] : r.p(.4) ? T[2 + r.idx(2)] : T[r.idx(T.size())];
    auto sub = type == "curbstone" ? S[5 + r.idx(2)] : r.p(.8) ? S[r.idx(5)] : S[r.idx(S.size())];
    if (!type.empty()) a["type"] = type;
    if (!sub.empty() && r.p(.95)) a["subtype"] = sub;
    TagGen tg{r};
    if (r.p(.12))
      a["lane_change"] = tg.yn();
    else if (r.p(.15)) {
      a["lane_change:left"] = tg.yn();
      a["lane_change:right"] = tg.yn();
    }
    if (r.p(.1)) a["width"] = "0.1";
    if (r.p(.1)) a["color"] = "yellow";
    return a;
  }
  LineString3d line(const Point3d& a, const Point3d& b, const AttributeMap& m) {
    Points3d p{a};
    int n = r.p(.5) ? 0 : int(r.i(1, 3));
    for (int k = 1; k <= n; ++k) {
      double f = double(k) / (n + 1);
      p.push_back(Point3d(ids.valid(), a.x() * (1 - f) + b.x() * f, a.y() * (1 - f) + b.y() * f, a.z()));
    }
    p.push_back(b);
    bool rev = r.p(.5);
    if (rev) std::reverse(p.begin(), p.end());
    LineString3d l(ids.valid(), p, m);
    return rev ? l.invert() : l;  // as seen running north or east
  }
  explicit Grid(Rng& rng, double pArea) : ids(rng), r(rng) {
    W = int(r.i(1, 4));
    L = int(r.i(1, 4));
    auto pt = [&](int c, int q) { return Point3d(ids.valid(), c * 4 + r.d(-.3, .3), q * 10 + r.d(-1, 1), r.d(-1, 1)); };
    pts.assign(size_t(W + 1), {});
    for (int c = 0; c <= W; ++c)
      for (int q = 0; q <= L; ++q) pts[size_t(c)].push_back(pt(c, q));
    // a cell can have corners and lines of its own where it is not connected to its neighbour
    auto P = [&](int c, int q) { return pts[size_t(c)][size_t(q)]; };
    for (auto& v : vert) v.assign(size_t(W), std::vector<LineString3d>(size_t(L)));
    for (auto& v : hor) v.assign(size_t(W), std::vector<LineString3d>(size_t(L)));
    for (int q = 0; q < L; ++q)
      for (int c = 0; c <= W; ++c) {
        auto l = line(P(c, q), P(c, q + 1), marking());
        if (c < W) vert[0][size_t(c)][size_t(q)] = l;
        if (c > 0) vert[1][size_t(c - 1)][size_t(q)] = c < W && r.p(.1) ? line(P(c, q), P(c, q + 1), marking()) : l;
      }
    for (int c = 0; c < W; ++c)
      for (int q = 0; q <= L; ++q) {
        auto l = line(P(c, q), P(c + 1, q), marking());
        if (q < L) hor[0][size_t(c)][size_t(q)] = l;
        if (q > 0) hor[1][size_t(c)][size_t(q - 1)] = q < L && r.p(.1) ? line(P(c, q), P(c + 1, q), marking()) : l;
      }
    cells.assign(size_t(W), std::vector<Cell>(size_t(L)));
    for (int c = 0; c < W; ++c)
      for (int q = 0; q < L; ++q) make(c, q, r.p(pArea));
  }
  void make(int c, int q, bool area) {
    auto& x = cells[size_t(c)][size_t(q)];
    TagGen tg{r};
    AttributeMap a;
    tg.type(a);
    tg.participants(a);
    x.lanelet = !area;
    auto w = vert[0][size_t(c)][size_t(q)], e = vert[1][size_t(c)][size_t(q)], s = hor[0][size_t(c)][size_t(q)], n = hor[1][size_t(c)][size_t(q)];
    RegulatoryElementPtrs re;
    if (r.p(.2)) {
      AttributeMap ra{{"subtype", "regulatory_element"}};
      if (r.p(.6)) ra["open"] = r.p(.5) ? "yes" : "no";
      re.push_back(std::make_shared<GenericRegulatoryElement>(std::make_shared<RegulatoryElementData>(ids.valid(), RuleParameterMap{}, ra)));
    }
    if (!area) {
      tg.oneWay(a);
      x.north = r.p(.6);
      Lanelet l = x.north ? Lanelet(ids.valid(), w, e, a, re) : Lanelet(ids.valid(), e.invert(), w.invert(), a, re);
      x.ll = l;
    } else {
      LineStrings3d ring{w, n, e.invert(), s.invert()};
      std::rotate(ring.begin(), ring.begin() + r.i(0, 3), ring.end());
      x.ar = Area(ids.valid(), ring, {}, a, re);
    }
    x.tags = tagsOf(a);
    for (auto& p : re) x.regs.push_back(p);
  }
};

struct Who {
  traffic_rules::TrafficRulesUPtr tr;
  std::string name;
  bool german;
};
Who randWho(Rng& r) {
  Who w;
  w.name = participants()[r.idx(participants().size())];
  w.german = r.p(.6);
  w.tr = traffic_rules::TrafficRulesFactory::create(w.german ? Locations::Germany : "xx", w.name);
  return w;
}

struct GridOracle {
  const Grid& g;
  const Who& w;
  Optional<bool> byRule(const Grid::Cell& x) const {
    if (w.german) return {};
    for (auto& re : x.regs) {
      auto i = re->attributes().find("open");
      if (i != re->attributes().end()) return yes(i->second.value());
    }
    return {};
  }
  bool usable(const Grid::Cell& x) const {
    if (!x.lanelet && w.german && isOrUnder(w.name, "vehicle")) return false;  // German rules keep vehicles off areas
    auto b = byRule(x);
    return b ? *b : mayUse(x.tags, w.name);
  }
  // may the lanelet be travelled to the north/south
  bool travel(const Grid::Cell& x, bool north) const { return (north == x.north || bothWays(x.tags, w.name)) && usable(x); }
  // may the line (running north or east as seen by the grid) be crossed to its right/left
  bool cross(const ConstLineString3d& l, bool toRight, bool virtualOpen) const {
    bool lr, rl;
    lineAllows(tagsOf(l.attributes()), w.name, virtualOpen, lr, rl);
    if (l.inverted()) std::swap(lr, rl);
    return toRight ? lr : rl;
  }
};

std::string describe(const Tags& t) {
  std::string s = "{";
  for (auto& kv : t) s += kv.first + "=" + kv.second + " ";
  return s + "}";
}

// view of a lanelet travelled to the north/south
ConstLanelet view(const Grid::Cell& x, bool north) { return x.north == north ? x.ll : x.ll.invert(); }

struct T01 : Harness {
  uint64_t numCases(bool th) override { return th ? 150000 : 12000; }
  std::string rule() override {
    return "grids of lanelets and areas with random type, location, participant and one-way tags and rule-giving regulatory elements; every element in every direction and every "
           "ordered pair is evaluated for random participants of two rule sets and compared with the documented table";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    Grid g(r, r.pick({0., .3, .5, .8}));
    for (int k = 0; k < 3; ++k) check(c, g, randWho(r));
    if (r.p(.05)) factory(c);
  }
  void factory(Ctx& c) {
    auto& r = c.rng;
    bool threw = false;
    std::string loc = r.pick({"de", "xx", "us", ""}), p = r.pick({"vehicle", "train", "vehicle:foo", "", "car", "bicycle:e", "vehiclex"});
    bool ok = (loc == "de" || loc == "xx") && p.compare(0, 7, "vehicle") == 0;
    try {
      auto t = traffic_rules::TrafficRulesFactory::create(loc, p);
      c.check(t->location() == loc && t->participant() == p, "T01:factory", "factory reports other location/participant");
    } catch (InvalidInputError&) {
      threw = true;
    }
    if (p != "vehiclex") c.check(threw != ok, "T01:factory", loc, "/", p, threw ? " refused" : " accepted");
  }
  void check(Ctx& c, const Grid& g, const Who& w) {
    GridOracle o{g, w};
    auto& tr = *w.tr;
    c.check(tr.participant() == w.name, "T01:participant", tr.participant());
    struct El {
      int col, row;
      const Grid::Cell* x;
      bool north;
    };
    std::vector<El> els;
    for (int q = 0; q < g.L; ++q)
      for (int col = 0; col < g.W; ++col) {
        auto& x = g.cells[size_t(col)][size_t(q)];
        if (x.lanelet) {
          for (bool n : {true, false}) {
            bool want = o.travel(x, n);
            c.check(tr.canPass(view(x, n)) == want, "T01:lanelet", w.name, (n == x.north ? " along " : " against "), describe(x.tags), " expected ", want);
            c.event(want ? "passable" : "not-passable");
            els.push_back({col, q, &x, n});
          }
          bool ow = !bothWays(x.tags, w.name);
          c.check(tr.isOneWay(x.ll) == ow && tr.isOneWay(x.ll.invert()) == ow, "T01:one-way", w.name, " on ", describe(x.tags), " expected ", ow);
        } else {
          bool want = o.usable(x);
          c.check(tr.canPass(x.ar) == want, "T01:area", w.name, " in ", describe(x.tags), " expected ", want);
          c.event(want ? "area-passable" : "area-not-passable");
          els.push_back({col, q, &x, true});
        }
      }
    for (auto& a : els)
      for (auto& b : els) {
        int dc = b.col - a.col, dq = b.row - a.row;
        bool want = false, got;
        std::string kind;
        auto C = size_t(a.col), Q = size_t(a.row), C2 = size_t(b.col), Q2 = size_t(b.row);
        if (a.x->lanelet && b.x->lanelet) {
          kind = "lanelet-lanelet";
          want = dc == 0 && a.north == b.north && dq == (a.north ? 1 : -1) && o.travel(*a.x, a.north) && o.travel(*b.x, b.north);
          got = tr.canPass(view(*a.x, a.north), view(*b.x, b.north));
        } else if (a.x->lanelet || b.x->lanelet) {
          // the line between them: sideways it has to be the same line, at the end the line of the area
          bool fromLl = a.x->lanelet;
          auto& ll = fromLl ? a : b;
          bool pass = o.usable(*(fromLl ? b : a).x) && o.travel(*ll.x, ll.north);
          kind = fromLl ? "lanelet-area" : "area-lanelet";
          if (dq == 0 && std::abs(dc) == 1) {
            auto la = g.vert[dc > 0][C][Q], lb = g.vert[dc < 0][C2][Q2];
            want = pass && la.constData() == lb.constData() && o.cross(la, dc > 0, true);
          } else if (dc == 0 && std::abs(dq) == 1 && (dq > 0) == ll.north) {
            auto l = fromLl ? g.hor[dq < 0][C2][Q2] : g.hor[dq > 0][C][Q];
            want = pass && o.cross(l, dq < 0, true);
          }
          got = fromLl ? tr.canPass(view(*a.x, a.north), b.x->ar) : tr.canPass(a.x->ar, view(*b.x, b.north));
        } else {
          kind = "area-area";
          if (a.x == b.x) continue;
          if (std::abs(dc) + std::abs(dq) == 1) {
            auto la = dc ? g.vert[dc > 0][C][Q] : g.hor[dq > 0][C][Q], lb = dc ? g.vert[dc < 0][C2][Q2] : g.hor[dq < 0][C2][Q2];
            want = la.constData() == lb.constData() && o.usable(*a.x) && o.usable(*b.x) && o.cross(la, dc ? dc > 0 : dq < 0, true);
          }
          got = tr.canPass(a.x->ar, b.x->ar);
        }
        c.check(got == want, "T01:pass-to", kind, " for ", w.name, (w.german ? " (de)" : " (xx)"), ": step ", dc, ",", dq, " from ", describe(a.x->tags), " to ", describe(b.x->tags),
                " expected ", want);
        c.event(kind + (want ? "-yes" : "-no"));
      }
    Hash h;
    for (auto& e : els) h(describe(e.x->tags))(uint64_t(e.north));
    c.sig(h(w.name)(uint64_t(w.german)).h);
    if (c.wantSample() && !els.empty()) c.sample(w.name + ": " + describe(els[0].x->tags));
  }
};
VF_HARNESS(T01, "T01");

struct T02 : Harness {
  uint64_t numCases(bool th) override { return th ? 250000 : 20000; }
  std::string rule() override {
    return "grids of lanelets with random markings (all documented types, explicit lane-change tags, both storage directions) and tags; lane changes between all pairs of lanelets in "
           "all directions for random participants of two rule sets are compared with the documented table";
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    Grid g(r, r.pick({0., 0., .2}));
    if (r.p(.6))  // mostly passable
      for (int col = 0; col < g.W; ++col)
        for (int q = 0; q < g.L; ++q) {
          auto& x = g.cells[size_t(col)][size_t(q)];
          if (!x.lanelet || r.p(.1)) continue;
          AttributeMap a;
          a["subtype"] = "play_street";
          if (r.p(.3)) a["one_way"] = "no";
          auto l = Lanelet(std::const_pointer_cast<LaneletData>(x.ll.constData()), false);
          l.attributes() = a;
          for (auto& re : l.regulatoryElements()) l.removeRegulatoryElement(re);
          x.regs.clear();
          x.tags = tagsOf(a);
        }
    for (int k = 0; k < 3; ++k) {
      auto w = randWho(r);
      GridOracle o{g, w};
      Hash h;
      for (int c1 = 0; c1 < g.W; ++c1)
        for (int q1 = 0; q1 < g.L; ++q1)
          for (int c2 = 0; c2 < g.W; ++c2)
            for (int q2 = 0; q2 < g.L; ++q2) {
              auto &a = g.cells[size_t(c1)][size_t(q1)], &b = g.cells[size_t(c2)][size_t(q2)];
              if (!a.lanelet || !b.lanelet) continue;
              for (int d = 0; d < 4; ++d) {
                bool na = d & 1, nb = d & 2;
                auto la = g.vert[c2 > c1][size_t(c1)][size_t(q1)], lb = g.vert[c2 < c1][size_t(c2)][size_t(q2)];
                bool near = q1 == q2 && std::abs(c1 - c2) == 1 && na == nb && la.constData() == lb.constData();
                bool want = near && o.travel(a, na) && o.travel(b, nb) && o.cross(la, c2 > c1, false);
                bool got = w.tr->canChangeLane(view(a, na), view(b, nb));
                c.check(got == want, "T02:lane-change", w.name, " heading ", na ? "north" : "south", " column ", c1, "->", c2, " row ", q1, "->", q2, " across ",
                        describe(tagsOf(la.attributes())), " from ", describe(a.tags), " to ", describe(b.tags), " expected ", want);
                if (near) {
                  c.event(want ? "allowed" : "forbidden");
                  h(describe(tagsOf(la.attributes())))(uint64_t(la.inverted()))(uint64_t(d))(uint64_t(want));
                }
              }
            }
      c.sig(h(w.name).h);
      if (c.wantSample()) c.sample(w.name + " line " + describe(tagsOf(g.vert[0][0][0].attributes())));
    }
  }
};
VF_HARNESS(T02, "T02");

struct T03 : Harness {
  uint64_t numCases(bool th) override { return th ? 250000 : 12000; }
  std::string rule() override {
    return "lanelets and areas with random type, location, speed limit and participant-specific tags in all units and with traffic sign, speed limit and other regulatory elements; "
           "the reported limit for every participant of two rule sets is compared with the documented order of sources";
  }
  struct Speed {
    std::string text;
    double mps;
  };
  static Speed speed(Rng& r) {
    double v = r.p(.5) ? double(r.i(1, 130)) : std::round(r.d(0.1, 130) * 100) / 100;
    std::ostringstream s;
    s << v;
    static const std::vector<std::pair<std::string, double>> U{{"", 1 / 3.6}, {" km/h", 1 / 3.6}, {"km/h", 1 / 3.6}, {" kmh", 1 / 3.6},     {"kmh", 1 / 3.6},    {" mps", 1.},
                                                               {"m/s", 1.},   {" m/s", 1.},       {"mps", 1.},       {" mph", 1609.344 / 3600}, {"mph", 1609.344 / 3600}};
    auto& u = U[r.idx(U.size())];
    return {s.str() + u.first, v * u.second};
  }
  static const std::map<std::string, double>& signs() {
    static const std::map<std::string, double> S{{"de274", 30},     {"de274-5", 5},    {"de274-10", 10},  {"de274-15", 15},   {"de274-20", 20},   {"de274-30", 30},   {"de274-40", 40},
                                                 {"de274-50", 50},  {"de274-60", 60},  {"de274-70", 70},  {"de274-80", 80},   {"de274-90", 90},   {"de274-100", 100}, {"de274-110", 110},
                                                 {"de274-120", 120}, {"de274-130", 130}, {"de274_1", 30},   {"de274_1-20", 20}, {"de310", 50}};
    return S;
  }
  struct Lim {
    double mps{0};
    bool mandatory{true};
    bool flagKnown{true};
  };
  static Lim of(const SpeedLimitInformation& s) { return {s.speedLimit.value(), s.isMandatory, true}; }
  // the default of the country, empty where the documentation names none
  static Optional<Lim> country(const Tags& t, const Who& w) {
    auto k = [](double v, bool m = true) { return Lim{v / 3.6, m, true}; };
    auto x = TestRules::limits();
    if (w.name == "pedestrian") return w.german ? Lim{5 / 3.6, true, false} : of(x.pedestrian);
    if (w.name == "bicycle") return w.german ? Lim{20 / 3.6, true, false} : of(x.bicycle);
    auto loc = get(t, "location", "urban"), sub = get(t, "subtype", "road");
    bool u = loc == "urban";
    if (loc != "urban" && loc != "nonurban") return {};
    if (sub == "road" || sub == "bus_lane") return w.german ? k(u ? 50 : 100) : of(u ? x.vehicleUrbanRoad : x.vehicleNonurbanRoad);
    if (sub == "exit" && u) return w.german ? k(50) : of(x.vehicleUrbanRoad);
    if (sub == "highway") return w.german ? k(130, false) : of(u ? x.vehicleUrbanHighway : x.vehicleNonurbanHighway);
    if (sub == "play_street") return w.german ? k(7) : of(x.playStreet);
    return {};
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    IdSource ids(r);
    AttributeMap a;
    TagGen tg{r};
    tg.type(a);
    if (r.p(.3)) tg.participants(a);
    if (r.p(.3)) tg.oneWay(a);
    std::map<std::string, double> vals;
    auto put = [&](const std::string& k) {
      auto s = speed(r);
      a[k] = s.text;
      vals[k] = s.mps;
    };
    if (r.p(.35)) put("speed_limit");
    if (r.p(.25))
      for (auto& g : tg.groups()) put("speed_limit:" + g);
    if (r.p(.2)) a["speed_limit_mandatory"] = tg.yn();
    if (r.p(.2))
      for (auto& g : tg.groups()) a["speed_limit_mandatory:" + g] = tg.yn();
    // regulatory elements
    RegulatoryElementPtrs re;
    struct Rule {
      bool limit{false}, valid{true};
      double mps{0};
    };
    std::vector<Rule> rules;
    Optional<double> xx;  // of the second rule set
    bool dynamic = false;
    auto sign = [&](const std::string& sub) -> LineStringOrPolygon3d {
      if (r.p(.5)) return LineString3d(ids.valid(), {Point3d(ids.valid(), 0, 0, 0), Point3d(ids.valid(), 1, 0, 0)}, AttributeMap{{"type", "traffic_sign"}, {"subtype", sub}});
      return Polygon3d(ids.valid(), {Point3d(ids.valid(), 0, 0, 0), Point3d(ids.valid(), 1, 0, 0), Point3d(ids.valid(), 1, 1, 0)},
                       AttributeMap{{"type", "traffic_sign"}, {"subtype", sub}});
    };
    for (int64_t n = r.p(.5) ? 0 : r.i(1, 3); n > 0; --n) {
      AttributeMap ra;
      if (r.p(.2)) {
        bool d = r.p(.5);
        ra["dynamic"] = d ? r.pick({"yes", "1", "true"}) : r.pick({"no", "0", "false"});
        dynamic = dynamic || d;
      }
      Rule rule;
      switch (r.i(0, 3)) {
        case 0: {
          auto s = speed(r);
          ra["limit"] = s.text;
          if (!xx) xx = s.mps;
          re.push_back(std::make_shared<GenericRegulatoryElement>(std::make_shared<RegulatoryElementData>(ids.valid(), RuleParameterMap{}, ra)));
          break;
        }
        case 1:
          re.push_back(TrafficSign::make(ids.valid(), ra, {{sign("de274-80")}, r.p(.5) ? "" : "de274-90"}));
          break;
        default: {
          rule.limit = true;
          std::string type;
          if (r.p(.7)) {
            auto i = std::next(signs().begin(), r.i(0, int64_t(signs().size()) - 1));
            type = i->first;
            rule.mps = i->second / 3.6;
          } else if (r.p(.8)) {
            auto s = speed(r);
            type = s.text;
            rule.mps = s.mps;
          } else {
            type = r.pick({"de206", "foo", "50 furlongs", "de274-55", "usR1-1"});
            rule.valid = false;
          }
          if (r.p(.4)) {
            ra["sign_type"] = type;
            re.push_back(SpeedLimit::make(ids.valid(), ra, TrafficSignsWithType{}));
          } else {
            if (r.p(.2)) ra["sign_type"] = "de274-130";  // the sign counts
            LineStringsOrPolygons3d ls{sign(type)};
            if (r.p(.2)) ls.push_back(sign(type));
            re.push_back(SpeedLimit::make(ids.valid(), ra, {ls, ""}));
          }
        }
      }
      rules.push_back(rule);
    }
    LineString3d left(ids.valid(), {Point3d(ids.valid(), 0, 3, 0), Point3d(ids.valid(), 9, 3, 0)}), right(ids.valid(), {Point3d(ids.valid(), 0, 0, 0), Point3d(ids.valid(), 9, 0, 0)});
    Lanelet ll(ids.valid(), left, right, a, re);
    Area ar(ids.valid(), {left, LineString3d(ids.valid(), {left.back(), right.back()}), right.invert(), LineString3d(ids.valid(), {right.front(), left.front()})}, {}, a, re);
    auto t = tagsOf(a);
    Hash h;
    h(describe(t))(uint64_t(rules.size()));
    for (auto& name : participants())
      for (bool german : {true, false}) {
        Who w;
        w.name = name;
        w.german = german;
        w.tr = traffic_rules::TrafficRulesFactory::create(german ? Locations::Germany : "xx", name);
        Optional<Lim> want;
        bool expectThrow = false, skip = false;
        if (german && isOrUnder(name, "vehicle")) {
          for (auto& x : rules)
            if (x.limit) {
              want = Lim{x.mps, true, true};
              expectThrow = !x.valid;
              break;
            }
        } else if (!german && xx) {
          want = Lim{*xx, false, true};
        }
        std::string source = "regulatory element";
        if (!want) {
          bool tagged = false;
          for (auto& kv : t) tagged = tagged || kv.first.compare(0, 11, "speed_limit") == 0;
          if (tagged) {
            source = "tag";
            Lim l;
            l.mps = vals.count("speed_limit") ? vals["speed_limit"] : 0;
            for (auto& kv : vals)
              if (kv.first.size() > 12 && isOrUnder(name, kv.first.substr(12))) l.mps = kv.second;
            auto m = get(t, "speed_limit_mandatory", "yes");
            bool any;
            auto o = overrideOf(t, "speed_limit_mandatory", name, any);
            l.mandatory = yes(o.empty() ? m : o);
            want = l;
          } else {
            source = "country";
            want = country(t, w);
            skip = !want;
          }
        }
        auto ask = [&](auto&& f, const char* kind) {
          try {
            SpeedLimitInformation s = f();
            c.check(!expectThrow, "T03:uninterpretable", "a sign that is no speed limit yields ", s.speedLimit.value());
            if (skip) {
              c.check(std::isfinite(s.speedLimit.value()), "T03:finite", "not finite");
              c.event("default-undocumented");
              return;
            }
            c.check(c.close(s.speedLimit.value(), want->mps, 1e-9 * (1 + want->mps)), "T03:limit", kind, " ", describe(t), " for ", name, (german ? " (de)" : " (xx)"), ": ",
                    s.speedLimit.value(), " m/s, expected ", want->mps, " from ", source);
            if (want->flagKnown)
              c.check(s.isMandatory == want->mandatory, "T03:mandatory", kind, " ", describe(t), " for ", name, (german ? " (de)" : " (xx)"), ": mandatory ", s.isMandatory, " from ", source);
            c.event("source-" + source);
          } catch (InterpretationError&) {
            c.check(expectThrow, "T03:threw", kind, " ", describe(t), " for ", name, " threw");
            c.event("uninterpretable");
          }
        };
        ask([&] { return w.tr->speedLimit(ll); }, "lanelet");
        ask([&] { return w.tr->speedLimit(ll.invert()); }, "inverted lanelet");
        ask([&] { return w.tr->speedLimit(ar); }, "area");
        c.check(w.tr->hasDynamicRules(ll) == dynamic, "T03:dynamic", "dynamic rules expected ", dynamic);
      }
    c.sig(h.h);
    if (c.wantSample()) c.sample(describe(t) + " with " + std::to_string(rules.size()) + " regulatory elements");
  }
};
VF_HARNESS(T03, "T03");
}  // namespace
