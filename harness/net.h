// Generator of road networks: gates (cross sections) connected by lanes that share points and border lines, with forks,
// merges, parallel lanes, opposite lanes, bridges, tips, crosswalks, areas and a wide variety of tags.
#pragma once
#include "gen.h"

namespace gen {
struct NetOpts {
  int cols{5}, rows{2};
  int maxLanes{3};
  double pFork{0.4}, pMerge{0.35}, pOpposite{0.25}, pDuplicate{0.05}, pTip{0.08};
  int crosswalks{2}, areas{3};
  double pBridge{0.15};   // gates on another height
  double pRing{0.35};     // columns on a circle instead of a line
  double pInvertedStorage{0.3};
  bool tags{true};        // random subtypes/overrides (otherwise plain roads)
  int regs{3};
  double pPlain{0.5};     // probability of a plain drivable road lanelet when tags are on
  std::string plain{"road"};
  double pPlainArea{0};   // areas of subtype walkway
  double pTwoWay{.15};
  int minLanes{1};
  double pDashed{.35};    // lines that may be crossed
  double pFan{0};         // lanelets around a common centre, each one the neighbour of the next
  double pFull{0};        // all lanes of two neighbouring cross sections are connected
};

struct Net {
  LaneletMapUPtr map;
  Lanelets lanelets;
  Areas areas;
  std::vector<RegulatoryElementPtr> regs;
  std::vector<Lanelets> chains;  // consecutive lanelets by construction
};

struct NetGen {
  Rng& r;
  IdSource& ids;
  NetOpts o;
  Net n;
  struct Gate {
    Points3d p;  // right to left
    geo::P2 c;
    double dir{0}, z{0}, w{3.5};
    int col{0};
    int in{0}, out{0};
  };
  std::vector<Gate> gates;
  std::map<std::pair<Id, Id>, LineString3d> lines;
  bool ring{false};
  NetGen(Rng& rng, IdSource& i, NetOpts opts = {}) : r(rng), ids(i), o(opts) {}

  Point3d pt(geo::P2 p, double z) { return Point3d(ids.valid(), p.x, p.y, z); }
  AttributeMap lineTags() {
    AttributeMap a;
    double k = r.u();
    if (k < o.pDashed) {
      a["type"] = "line_thin";
      a["subtype"] = "dashed";
    } else if (k < o.pDashed + (1 - o.pDashed) * .7) {
      static const std::vector<std::pair<const char*, const char*>> T{
          {"line_thin", "solid"},       {"line_thick", "solid"},       {"line_thin", "solid_dashed"}, {"line_thin", "dashed_solid"},
          {"line_thick", "dashed"},     {"line_thick", "solid_dashed"}, {"line_thick", "dashed_solid"}, {"line_thin", "solid_solid"},
          {"curbstone", "low"},         {"curbstone", "high"},         {"road_border", ""},           {"virtual", ""},
          {"pedestrian_marking", ""},   {"zebra_marking", ""},         {"guard_rail", ""},            {"bike_marking", ""},
          {"line_thin", ""},            {"", ""},                      {"wall", ""},                  {"fence", ""}};
      auto& t = T[r.idx(T.size())];
      if (*t.first) a["type"] = t.first;
      if (*t.second) a["subtype"] = t.second;
    } else if (k < o.pDashed + (1 - o.pDashed) * .85) {
      a["type"] = "virtual";
    }
    if (o.tags && r.p(.06)) a["lane_change"] = r.p(.7) ? "yes" : "no";
    if (o.tags && r.p(.05)) a["lane_change:left"] = r.p(.7) ? "yes" : "no";
    if (o.tags && r.p(.05)) a["lane_change:right"] = r.p(.7) ? "yes" : "no";
    if (o.tags && r.p(.03)) a["lane_change:left:vehicle"] = r.p(.5) ? "yes" : "no";
    if (o.tags && r.p(.03)) a["lane_change:vehicle"] = r.p(.5) ? "yes" : "no";
    return a;
  }
  AttributeMap laneletTags() {
    AttributeMap a;
    if (!o.tags || r.p(o.pPlain)) {
      a["subtype"] = o.plain;
      a["location"] = "urban";
      if (r.p(o.pTwoWay)) a["one_way"] = "no";
      return a;
    }
    static const std::vector<const char*> S{"road",     "road",      "highway",       "play_street", "bus_lane",      "bicycle_lane",
                                            "walkway",  "shared_walkway", "crosswalk", "stairs",     "emergency_lane", "exit",
                                            "unknown_subtype"};
    if (r.p(.97)) a["subtype"] = S[r.idx(S.size())];
    if (r.p(.9)) a["location"] = r.pick<const char*>({"urban", "nonurban", "private"});
    if (r.p(.25)) a["one_way"] = r.pick<const char*>({"no", "yes", "no", "false", "true"});
    static const std::vector<const char*> P{"participant:vehicle",     "participant:vehicle:car", "participant:pedestrian",
                                            "participant:bicycle",     "participant:vehicle:bus", "participant:vehicle:emergency",
                                            "one_way:bicycle",         "one_way:vehicle",         "one_way:pedestrian",
                                            "participant:train",       "participant:vehicle:taxi"};
    for (int k = 0; k < 2; ++k)
      if (r.p(.2)) a[P[r.idx(P.size())]] = r.pick<const char*>({"yes", "no"});
    if (r.p(.2)) a["speed_limit"] = r.pick<const char*>({"30", "50 km/h", "20 mps", "13.5", "45 mph", "abc"});
    if (r.p(.1)) a["speed_limit:vehicle"] = r.pick<const char*>({"80", "70 km/h"});
    if (r.p(.1)) a["speed_limit_mandatory"] = r.pick<const char*>({"yes", "no"});
    return a;
  }
  LineString3d line(const Point3d& a, const Point3d& b, bool store = true) {
    auto it = lines.find({a.id(), b.id()});
    if (it != lines.end()) return it->second;
    auto inv = lines.find({b.id(), a.id()});
    if (inv != lines.end()) return inv->second.invert();
    Points3d p{a};
    int mid = r.p(.5) ? 0 : int(r.i(1, 3));
    for (int k = 1; k <= mid; ++k) {
      double t = double(k) / (mid + 1);
      BasicPoint3d q = a.basicPoint() * (1 - t) + b.basicPoint() * t;
      p.push_back(Point3d(ids.valid(), q.x(), q.y(), q.z()));
    }
    p.push_back(b);
    bool rv = r.p(o.pInvertedStorage);
    if (rv) std::reverse(p.begin(), p.end());
    LineString3d l(ids.valid(), p, lineTags());
    if (rv) l = l.invert();
    if (store) lines.insert({{a.id(), b.id()}, l});
    return l;
  }
  Lanelet mk(const LineString3d& left, const LineString3d& right, bool opposite) {
    Lanelet l(ids.valid(), opposite ? right.invert() : left, opposite ? left.invert() : right, laneletTags());
    n.lanelets.push_back(l);
    if (r.p(o.pDuplicate)) n.lanelets.push_back(Lanelet(ids.valid(), l.leftBound(), l.rightBound(), laneletTags()));
    return l;
  }
  Gate mkGate(geo::P2 c, double dir, int lanes, double z, int col) {
    Gate g;
    g.c = c;
    g.dir = dir;
    g.z = z;
    g.col = col;
    for (int k = 0; k <= lanes; ++k) {
      double off = (k - lanes / 2.) * g.w;
      g.p.push_back(pt({c.x - off * std::sin(dir), c.y + off * std::cos(dir)}, z));
    }
    return g;
  }
  // connects lane borders [ia, ia+k] of a with [ib, ib+k] of b
  void connect(Gate& a, Gate& b) {
    size_t la = a.p.size() - 1, lb = b.p.size() - 1;
    size_t k = o.pFull > 0 && r.p(o.pFull) ? std::min(la, lb) : size_t(r.i(1, int64_t(std::min(la, lb))));
    size_t ia = r.idx(la - k + 1), ib = r.idx(lb - k + 1);
    a.out++;
    b.in++;
    int segs = r.p(.7) ? 1 : int(r.i(2, 3));
    // cross sections along the way
    std::vector<Points3d> sec;
    for (int s = 0; s <= segs; ++s) {
      Points3d p;
      for (size_t q = 0; q <= k; ++q) {
        if (s == 0) {
          p.push_back(a.p[ia + q]);
        } else if (s == segs) {
          p.push_back(b.p[ib + q]);
        } else {
          double t = double(s) / segs;
          BasicPoint3d m = a.p[ia + q].basicPoint() * (1 - t) + b.p[ib + q].basicPoint() * t;
          p.push_back(Point3d(ids.valid(), m.x(), m.y(), m.z()));
        }
      }
      sec.push_back(p);
    }
    for (size_t q = 0; q < k; ++q) {
      bool opp = r.p(o.pOpposite);
      Lanelets chain;
      for (int s = 0; s < segs; ++s) {
        auto right = line(sec[size_t(s)][q], sec[size_t(s) + 1][q]), left = line(sec[size_t(s)][q + 1], sec[size_t(s) + 1][q + 1]);
        chain.push_back(mk(left, right, opp));
      }
      if (opp) std::reverse(chain.begin(), chain.end());
      n.chains.push_back(chain);
    }
    // a lane that opens up or closes next to the others
    if (segs == 1 && r.p(o.pTip)) {
      if (ib + k < lb) {
        n.lanelets.push_back(Lanelet(ids.valid(), line(a.p[ia + k], b.p[ib + k + 1]), line(a.p[ia + k], b.p[ib + k]), laneletTags()));
      } else if (ia + k < la) {
        n.lanelets.push_back(Lanelet(ids.valid(), line(a.p[ia + k + 1], b.p[ib + k]), line(a.p[ia + k], b.p[ib + k]), laneletTags()));
      }
    }
  }
  AttributeMap areaTags() {
    AttributeMap a;
    if (r.p(o.pPlainArea)) return AttributeMap{{"subtype", "walkway"}, {"location", "urban"}};
    if (r.p(.95))
      a["subtype"] = r.pick<const char*>({"parking", "freespace", "walkway", "traffic_island", "vegetation", "keepout", "building", "exit", "parking", "walkway"});
    if (r.p(.9)) a["location"] = r.pick<const char*>({"urban", "nonurban"});
    if (o.tags && r.p(.3)) a["participant:vehicle"] = r.pick<const char*>({"yes", "no"});
    if (o.tags && r.p(.2)) a["participant:pedestrian"] = r.pick<const char*>({"yes", "no"});
    if (o.tags && r.p(.1)) a["speed_limit"] = "10";
    return a;
  }
  // the area lies to the right of base
  Area areaRightOf(LineString3d base, double depth, LineStrings3d* others = nullptr) {
    Point3d f = base.front(), b = base.back();
    geo::P2 d{b.x() - f.x(), b.y() - f.y()};
    double len = geo::norm(d);
    geo::P2 nrm{d.y / len, -d.x / len};
    Point3d q0(ids.valid(), b.x() + nrm.x * depth, b.y() + nrm.y * depth, b.z());
    Point3d q1(ids.valid(), f.x() + nrm.x * depth, f.y() + nrm.y * depth, f.z());
    LineStrings3d outer{base};
    if (r.p(.5)) {
      outer.push_back(line(b, q0));
      outer.push_back(line(q0, q1));
      outer.push_back(line(q1, f));
    } else {
      LineString3d l(ids.valid(), {b, q0, q1, f}, lineTags());
      outer.push_back(l);
    }
    if (others) *others = outer;
    // any rotation of the ring is the same area
    std::rotate(outer.begin(), outer.begin() + long(r.idx(outer.size())), outer.end());
    Area a(ids.valid(), outer, {}, areaTags());
    n.areas.push_back(a);
    return a;
  }
  void fan() {
    int k = int(r.i(3, 6));
    geo::P2 c{r.d(-400, -200), r.d(-400, -200)};
    Points3d in, out;
    for (int i = 0; i < k; ++i) {
      double a = 2 * M_PI * i / k, cs = std::cos(a), sn = std::sin(a);
      in.push_back(pt({c.x + 6 * cs, c.y + 6 * sn}, 0));
      out.push_back(pt({c.x + 40 * cs, c.y + 40 * sn}, 0));
    }
    double same = o.pDashed;
    bool opp = r.p(.5);
    if (r.p(.6)) o.pDashed = 1;
    for (int i = 0; i < k; ++i) {
      size_t a = size_t(i), b = size_t((i + 1) % k);
      // heading outwards: the next border is to the left
      auto left = line(in[b], out[b]), right = line(in[a], out[a]);
      Lanelet l = mk(left, right, opp);
      n.chains.push_back({l});
    }
    o.pDashed = same;
  }
  void build() {
    ring = r.p(o.pRing) && o.cols >= 4;
    double dx = r.d(22, 40);
    double R = std::max(40., o.cols * dx / (2 * M_PI));
    std::vector<std::vector<size_t>> at(size_t(o.cols));
    for (int cidx = 0; cidx < o.cols; ++cidx)
      for (int row = 0; row < o.rows; ++row) {
        double off = (row - (o.rows - 1) / 2.) * r.d(14, 22) + r.d(-4, 4);
        geo::P2 c;
        double dir;
        if (ring) {
          double ang = 2 * M_PI * cidx / o.cols + r.d(-.05, .05);
          double rad = R + off;
          c = {rad * std::cos(ang), rad * std::sin(ang)};
          dir = ang + M_PI / 2;
        } else {
          c = {cidx * dx + r.d(-3, 3), off};
          dir = r.d(-.2, .2);
        }
        double z = r.p(o.pBridge) ? r.pick({3., 6., 10.}) : 0.;
        at[size_t(cidx)].push_back(gates.size());
        gates.push_back(mkGate(c, dir, int(r.i(std::min(o.minLanes, o.maxLanes), o.maxLanes)), z, cidx));
      }
    int last = ring ? o.cols : o.cols - 1;
    for (int cidx = 0; cidx < last; ++cidx) {
      auto& A = at[size_t(cidx)];
      auto& B = at[size_t((cidx + 1) % o.cols)];
      for (size_t a : A)
        for (size_t b : B) {
          bool same = a % size_t(o.rows) == b % size_t(o.rows);
          if (same ? r.p(.9) : (r.p(o.pFork) && r.p(o.pMerge * 2))) {
            connect(gates[a], gates[b]);
            if (r.p(o.pFork * .5) && !(o.pFull > 0)) connect(gates[a], gates[b]);
          }
        }
    }
    if (n.lanelets.empty()) connect(gates[0], gates[std::min<size_t>(gates.size() - 1, size_t(o.rows))]);
    if (r.p(o.pFan)) fan();
    // crosswalks: strips across the network
    for (int k = 0; k < o.crosswalks; ++k) {
      auto& g = gates[r.idx(gates.size())];
      double t = r.d(5, 15), hw = r.d(1, 2);
      geo::P2 f{std::cos(g.dir), std::sin(g.dir)}, s{-std::sin(g.dir), std::cos(g.dir)};
      geo::P2 c = g.c + f * t;
      double z = r.p(.8) ? g.z : g.z + 5;
      double l = r.d(4, 16);
      Point3d a0 = pt(c + s * l - f * hw, z), a1 = pt(c - s * l - f * hw, z), b0 = pt(c + s * l + f * hw, z), b1 = pt(c - s * l + f * hw, z);
      auto lt = line(a0, a1), rt = line(b0, b1);
      // heading from +s to -s: left is +f
      Lanelet ll(ids.valid(), rt, lt, laneletTags());
      if (r.p(.7)) ll.setAttribute("subtype", "crosswalk");
      n.lanelets.push_back(ll);
    }
    for (int k = 0; k < o.areas; ++k) {
      double q = r.u();
      LineStrings3d others;
      if (q < .45 && !n.lanelets.empty()) {
        auto& l = n.lanelets[r.idx(n.lanelets.size())];
        areaRightOf(r.p(.5) ? l.rightBound() : l.leftBound().invert(), r.d(3, 9), &others);
      } else if (q < .85) {
        auto& g = gates[r.idx(gates.size())];
        size_t i = r.idx(g.p.size() - 1);
        bool atEnd = r.p(.5);
        // front of the lane i: from right to left point, area behind that
        LineString3d base = atEnd ? line(g.p[i], g.p[i + 1]) : line(g.p[i + 1], g.p[i]);
        areaRightOf(base, r.d(3, 9), &others);
      } else if (!gates.empty()) {
        auto& g = gates[r.idx(gates.size())];
        auto a = pt(g.c + geo::P2{r.d(-5, 5), r.d(-5, 5)}, g.z), b = pt(g.c + geo::P2{r.d(6, 12), r.d(6, 12)}, g.z);
        areaRightOf(line(a, b), r.d(3, 9), &others);
      }
      if (others.size() > 1 && r.p(.35)) {  // neighbouring area behind
        auto b = others[1 + r.idx(others.size() - 1)];
        if (b.size() == 2) areaRightOf(b.invert(), r.d(3, 9));
      }
    }
    for (int k = 0; k < o.regs && !n.lanelets.empty(); ++k) {
      auto& l = n.lanelets[r.idx(n.lanelets.size())];
      if (r.p(.6)) {
        LineString3d sign(ids.valid(), {pt({r.d(-9, 9), r.d(-9, 9)}, 3), pt({r.d(-9, 9), r.d(-9, 9)}, 3)});
        std::string ty = r.pick<const char*>({"de274-30", "de274-60", "de274"});
        if (ty == "de274") sign.attributes()["speed_limit"] = "70 km/h";
        auto re = SpeedLimit::make(ids.valid(), AttributeMap(), {{sign}, ty});
        l.addRegulatoryElement(re);
        n.regs.push_back(re);
      } else {
        auto& m = n.lanelets[r.idx(n.lanelets.size())];
        auto re = RightOfWay::make(ids.valid(), AttributeMap(), {l}, {m});
        l.addRegulatoryElement(re);
        if (m != l) m.addRegulatoryElement(re);
        n.regs.push_back(re);
      }
    }
    n.map = utils::createMap(n.lanelets, n.areas);
  }
};
}  // namespace gen
