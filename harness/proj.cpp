// P01: projectors against closed-form / independent oracles.
#include <lanelet2_core/Exceptions.h>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Projection.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <GeographicLib/Geodesic.hpp>
#include <GeographicLib/TransverseMercatorExact.hpp>
#include <memory>

#include "vf.h"

using namespace lanelet;
using namespace vf;
namespace {
const double A = 6378137., F = 1 / 298.257223563, E2 = F * (2 - F), D2R = M_PI / 180;

BasicPoint3d ecef(const GPSPoint& g) {
  double s = std::sin(g.lat * D2R), co = std::cos(g.lat * D2R), n = A / std::sqrt(1 - E2 * s * s);
  return {(n + g.ele) * co * std::cos(g.lon * D2R), (n + g.ele) * co * std::sin(g.lon * D2R), (n * (1 - E2) + g.ele) * s};
}
BasicPoint3d enu(const GPSPoint& o, const GPSPoint& g) {
  BasicPoint3d d = ecef(g) - ecef(o);
  double sp = std::sin(o.lat * D2R), cp = std::cos(o.lat * D2R), sl = std::sin(o.lon * D2R), cl = std::cos(o.lon * D2R);
  return {-sl * d.x() + cl * d.y(), -sp * cl * d.x() - sp * sl * d.y() + cp * d.z(), cp * cl * d.x() + cp * sl * d.y() + sp * d.z()};
}
double wrap(double lon) {
  while (lon >= 180) lon -= 360;
  while (lon < -180) lon += 360;
  return lon;
}
// standard UTM zones with the exceptions for Norway and Svalbard
int utmZone(double lat, double lon) {
  int z = int(std::floor((wrap(lon) + 180) / 6)) + 1;
  double l = wrap(lon);
  if (lat >= 56 && lat < 64 && l >= 3 && l < 12) return 32;
  if (lat >= 72 && lat < 84 && l >= 0 && l < 42) return l < 9 ? 31 : l < 21 ? 33 : l < 33 ? 35 : 37;
  return z;
}
struct Utm {
  double e, n, k;
};
Utm utmExact(int zone, bool north, double lat, double lon) {
  double x, y, g, k;
  GeographicLib::TransverseMercatorExact::UTM().Forward(6. * zone - 183, lat, lon, x, y, g, k);
  return {x + 500e3, y + (north ? 0 : 1e7), k};
}
double metres(const GPSPoint& a, const GPSPoint& b) { return (ecef({a.lat, a.lon, 0}) - ecef({b.lat, b.lon, 0})).norm(); }
bool nearZoneEdge(double lat, double lon) {
  // rounding may decide at the very border
  for (double d : {1e-9, -1e-9})
    if (utmZone(lat, lon) != utmZone(lat + d, lon) || utmZone(lat, lon) != utmZone(lat, lon + d)) return true;
  return std::fabs(lat) < 1e-9;
}

struct P01 : Harness {
  uint64_t numCases(bool th) override { return th ? 40000 : 4000; }
  std::string rule() override {
    return "random and special origins and points (zone borders, Norway/Svalbard, equator, antimeridian, poles, far and invalid ones), all "
           "projectors and options; each case projects and unprojects a set of points and compares with closed formulas";
  }
  GPSPoint origin(Rng& r, double latMax) {
    GPSPoint g;
    g.lat = r.p(.1) ? r.pick({0.001, -0.001, 56., 63.99, 72., 45., 60., -33.}) : r.d(-latMax, latMax);
    if (r.p(.1)) g.lat = r.d(56, 64);
    if (r.p(.1)) g.lat = r.d(71, 84);
    if (r.p(.05)) g.lat = r.d(-.5, .5);
    g.lat = std::max(-latMax, std::min(latMax, g.lat));
    g.lon = r.p(.2) ? 6. * double(r.i(-30, 30)) + r.d(-.3, .3) : r.d(-180, 180);
    if (r.p(.2)) g.lon = r.d(-1, 45);
    if (g.lon < -180 || g.lon >= 180) g.lon = wrap(g.lon);
    g.ele = r.p(.3) ? 0 : r.d(-400, 4000);
    return g;
  }
  GPSPoint around(Rng& r, const GPSPoint& o, double m) {
    double az = r.d(0, 360), d = m * std::pow(10, -r.d(0, 4)), lat, lon;
    GeographicLib::Geodesic::WGS84().Direct(o.lat, o.lon, az, d, lat, lon);
    return {lat, lon, o.ele + r.d(-100, 100)};
  }
  void run(Ctx& c) override {
    auto& r = c.rng;
    utm(c);
    localCartesian(c);
    geocentric(c);
    mercator(c);
    spherical(c);
    if (c.caseIdx < 50) invalid(c);
    (void)r;
  }
  void utm(Ctx& c) {
    auto& r = c.rng;
    GPSPoint o = origin(r, 79.9);
    if (nearZoneEdge(o.lat, o.lon)) return;
    bool off = r.p(.6), thr = r.p(.4);
    projection::UtmProjector p(Origin(o), off, thr);
    std::unique_ptr<Projector> cp(new projection::UtmProjector(p));
    const Projector& P = r.p(.5) ? static_cast<const Projector&>(p) : *cp;
    c.check(P.origin().position.lat == o.lat && P.origin().position.lon == o.lon && !P.origin().isDefault, "P01:origin", "origin not kept");
    int zone = utmZone(o.lat, o.lon);
    bool north = o.lat >= 0;
    Utm ref = utmExact(zone, north, o.lat, o.lon);
    double ox = off ? ref.e : 0, oy = off ? ref.n : 0;
    auto of = P.forward(o);
    c.check(c.close(of.x(), off ? 0 : ref.e, 1e-5) && c.close(of.y(), off ? 0 : ref.n, 1e-5), "P01:utm-origin", "origin ", o.lat, ",", o.lon, " -> ", of.transpose(),
            " expected ", ref.e, ",", ref.n, " offset ", off);
    for (int k = 0; k < 12; ++k) {
      GPSPoint g = r.p(.6) ? around(r, o, 5e4) : around(r, o, r.p(.5) ? 4e5 : 3e6);
      if (r.p(.05)) g = {r.d(-79, 83), r.d(-180, 180), r.d(-10, 10)};
      if (std::fabs(g.lat) > 79.5 || nearZoneEdge(g.lat, g.lon)) continue;
      int z = utmZone(g.lat, g.lon);
      bool n = g.lat >= 0;
      double dl = wrap(g.lon - (6. * zone - 183));
      bool sameTile = z == zone && n == north;
      Utm x{};
      bool decided = std::fabs(dl) < 59.9 || std::fabs(dl) > 60.1, allowed = false;
      if (std::fabs(dl) < 60) {
        x = utmExact(zone, north, g.lat, g.lon);
        allowed = x.e > 0 && x.e < 1e6;
        decided = decided && std::fabs(x.e) > 1 && std::fabs(x.e - 1e6) > 1;
      }
      if (thr) {
        decided = true;
        allowed = sameTile;
      }
      BasicPoint3d f;
      bool threw = false;
      std::string other;
      try {
        f = P.forward(g);
      } catch (ForwardProjectionError&) {
        threw = true;
      } catch (std::exception& e) {
        other = e.what();
      }
      c.check(other.empty(), "P01:utm-exception", "undocumented exception: ", other);
      if (decided)
        c.check(threw != allowed, "P01:utm-range", "point ", g.lat, ",", g.lon, " for origin ", o.lat, ",", o.lon, " zone ", zone, "/", z, " throwInPaddingArea ", thr,
                threw ? " rejected" : " accepted", " (easting ", x.e, ")");
      if (threw) {
        c.event(thr ? "utm-out-of-zone-rejected" : "utm-out-of-padding-rejected");
        // the reverse direction has to reject the same place when strict
        if (thr && std::fabs(dl) < 8) {
          Utm q = utmExact(zone, north, g.lat, g.lon);
          if (q.e > 1 && q.e < 1e6 - 1) {
            bool rt = false;
            try {
              P.reverse({q.e - ox, q.n - oy, g.ele});
            } catch (ReverseProjectionError&) {
              rt = true;
            }
            c.check(rt, "P01:utm-reverse-range", "reverse accepts ", g.lat, ",", g.lon, " outside of zone ", zone);
          }
        }
        continue;
      }
      c.event(sameTile ? "utm-forward" : "utm-forward-padding");
      c.check(c.close(f.x(), x.e - ox, 1e-4) && c.close(f.y(), x.n - oy, 1e-4), "P01:utm-forward", "point ", g.lat, ",", g.lon, " zone ", zone, " north ", north, ": ",
              f.transpose(), " expected ", x.e - ox, " ", x.n - oy);
      c.check(f.z() == g.ele, "P01:height", "height changed ", g.ele, " -> ", f.z());
      auto b = P.reverse(f);
      c.check(metres(b, g) < 1e-3 && b.ele == g.ele, "P01:utm-roundtrip", "point ", g.lat, ",", g.lon, " -> ", b.lat, ",", b.lon, " ele ", b.ele);
      // metric: true distance over the scale of the projection
      GPSPoint h = around(r, g, 300);
      BasicPoint3d fh;
      try {
        fh = P.forward(h);
      } catch (ForwardProjectionError&) {
        continue;
      }
      double d, az;
      double az2;
      GeographicLib::Geodesic::WGS84().Inverse(g.lat, g.lon, h.lat, h.lon, d, az, az2);
      double pd = std::hypot(f.x() - fh.x(), f.y() - fh.y());
      c.check(c.close(pd, d * x.k, 1e-4 * d + 2e-4), "P01:utm-metric", "distance ", d, " projected ", pd, " scale ", x.k);
      if (std::fabs(wrap(g.lon - (6. * zone - 183))) < 3) c.check(c.close(pd, d, 1.1e-3 * d + 1e-3), "P01:utm-metric", "distance ", d, " projected ", pd);
      c.sig(Hash()(uint64_t(zone))(uint64_t(z))(uint64_t(north))(uint64_t(n))(uint64_t(off * 2 + thr)).h);
    }
    // local points back and forth
    for (int k = 0; k < 4; ++k) {
      double s = r.pick({10., 1e3, 1e5, 1e6});
      BasicPoint3d l(r.d(-s, s) + ref.e - ox, r.d(-s, s) + ref.n - oy, r.d(-50, 50));
      double E = l.x() + ox, N = l.y() + oy - (north ? 0 : 1e7);
      if (E < 1e3 || E > 999e3 || std::fabs(N) > 85e5) {
        if (E < -1 || E > 1e6 + 1) {
          bool t = false;
          try {
            P.reverse(l);
          } catch (ReverseProjectionError&) {
            t = true;
          }
          c.check(t, "P01:utm-reverse-range", "easting ", E, " accepted");
          c.event("utm-reverse-rejected");
        }
        continue;
      }
      try {
        auto g = P.reverse(l);
        c.check(g.ele == l.z(), "P01:height", "height changed ", l.z(), " -> ", g.ele);
        double lat, lon, gm, k2;
        GeographicLib::TransverseMercatorExact::UTM().Reverse(6. * zone - 183, E - 500e3, N, lat, lon, gm, k2);
        c.check(metres(g, {lat, lon, 0}) < 1e-3, "P01:utm-reverse", l.transpose(), " -> ", g.lat, ",", g.lon, " expected ", lat, ",", lon);
        if (thr && !nearZoneEdge(lat, lon))
          c.check(utmZone(lat, lon) == zone && (lat >= 0) == north, "P01:utm-reverse-range", "strict reverse accepts ", lat, ",", lon, " zone ", zone);
        auto l2 = P.forward(g);
        c.check((l2 - l).norm() < 1e-3, "P01:utm-roundtrip", l.transpose(), " -> ", l2.transpose());
        c.event("utm-reverse");
      } catch (ReverseProjectionError& e) {
        double lat, lon, gm, k2;
        GeographicLib::TransverseMercatorExact::UTM().Reverse(6. * zone - 183, E - 500e3, N, lat, lon, gm, k2);
        c.check(thr && (nearZoneEdge(lat, lon) || utmZone(lat, lon) != zone || (lat >= 0) != north), "P01:utm-reverse-range", "reverse rejects ", lat, ",", lon,
                " for zone ", zone, ": ", e.what());
        c.event("utm-reverse-out-of-zone-rejected");
      }
    }
  }
  void localCartesian(Ctx& c) {
    auto& r = c.rng;
    GPSPoint o = origin(r, 90);
    projection::LocalCartesianProjector p{Origin(o)};
    auto of = p.forward(o);
    c.check(of.norm() < 1e-6, "P01:lc-origin", "origin -> ", of.transpose());
    for (int k = 0; k < 8; ++k) {
      GPSPoint g = around(r, o, r.p(.8) ? 2e4 : 5e6);
      auto f = p.forward(g);
      auto e = enu(o, g);
      c.check((f - e).norm() < 1e-6 + 1e-12 * e.norm() * 1e2, "P01:lc-forward", g.lat, ",", g.lon, " -> ", f.transpose(), " expected ", e.transpose());
      auto b = p.reverse(f);
      c.check(metres(b, g) < 1e-3 && c.close(b.ele, g.ele, 1e-4), "P01:lc-roundtrip", g.lat, ",", g.lon, ",", g.ele, " -> ", b.lat, ",", b.lon, ",", b.ele);
      // straight distances are exact
      GPSPoint h = around(r, g, 300);
      double d = (ecef(g) - ecef(h)).norm(), pd = (p.forward(h) - f).norm();
      c.check(c.close(d, pd, 1e-6 + 1e-9 * d), "P01:lc-metric", "distance ", d, " projected ", pd);
      BasicPoint3d l(r.d(-1e4, 1e4), r.d(-1e4, 1e4), r.d(-100, 100));
      auto l2 = p.forward(p.reverse(l));
      c.check((l2 - l).norm() < 1e-4, "P01:lc-roundtrip", l.transpose(), " -> ", l2.transpose());
      c.event("local-cartesian");
    }
    c.sig(Hash()(std::string("lc"))(uint64_t(int64_t(o.lat / 5) + 50))(uint64_t(int64_t(o.lon / 10) + 50)).h);
  }
  void geocentric(Ctx& c) {
    auto& r = c.rng;
    projection::GeocentricProjector p;
    c.check(!p.origin().isDefault, "P01:gc-origin", "default origin");
    for (int k = 0; k < 6; ++k) {
      GPSPoint g{r.p(.1) ? r.pick({90., -90., 0.}) : r.d(-90, 90), r.d(-180, 180), r.d(-500, 9000)};
      auto f = p.forward(g);
      c.check((f - ecef(g)).norm() < 1e-6, "P01:gc-forward", g.lat, ",", g.lon, " -> ", f.transpose());
      auto b = p.reverse(f);
      c.check(metres(b, g) < 1e-3 && c.close(b.ele, g.ele, 1e-4), "P01:gc-roundtrip", g.lat, ",", g.lon, ",", g.ele, " -> ", b.lat, ",", b.lon, ",", b.ele);
      auto f2 = p.forward(b);
      c.check((f2 - f).norm() < 1e-4, "P01:gc-roundtrip", f.transpose(), " -> ", f2.transpose());
      c.event("geocentric");
    }
  }
  void mercator(Ctx& c) {
    auto& r = c.rng;
    GPSPoint o = origin(r, 85);
    projection::Mercator p{Origin(o)};
    auto iso = [](double lat) {
      double e = std::sqrt(E2), s = std::sin(lat * D2R);
      return A * (std::asinh(std::tan(lat * D2R)) - e * std::atanh(e * s));
    };
    auto of = p.forward(o);
    c.check(of.norm() == 0, "P01:mercator-origin", of.transpose());
    for (int k = 0; k < 8; ++k) {
      GPSPoint g = around(r, o, r.p(.8) ? 2e4 : 1e6);
      if (r.p(.1)) g = {r.d(-89.4, 89.4), r.d(-180, 180), r.d(-10, 10)};
      if (std::fabs(g.lat) > 89.4) continue;
      auto f = p.forward(g);
      double ex = A * (g.lon - o.lon) * D2R, ey = iso(g.lat) - iso(o.lat);
      c.check(c.close(f.x(), ex, 1e-5) && c.close(f.y(), ey, 1e-3) && c.close(f.z(), g.ele - o.ele, 1e-9), "P01:mercator-forward", g.lat, ",", g.lon, " -> ",
              f.transpose(), " expected ", ex, " ", ey);
      auto b = p.reverse(f);
      c.check(metres(b, g) < 1e-3 && c.close(b.ele, g.ele, 1e-9), "P01:mercator-roundtrip", g.lat, ",", g.lon, " -> ", b.lat, ",", b.lon);
      // conformal: local distances carry the factor 1/cos(latitude) in every direction
      GPSPoint h = around(r, g, 100);
      if (std::fabs(h.lat) < 88 && std::fabs(g.lon - h.lon) < 10) {
        double d;
        GeographicLib::Geodesic::WGS84().Inverse(g.lat, g.lon, h.lat, h.lon, d);
        double s = std::sin(g.lat * D2R), k1 = std::sqrt(1 - E2 * s * s) / std::cos(g.lat * D2R);
        double s2 = std::sin(h.lat * D2R), k2 = std::sqrt(1 - E2 * s2 * s2) / std::cos(h.lat * D2R);
        auto fh = p.forward(h);
        double pd = std::hypot(f.x() - fh.x(), f.y() - fh.y());
        c.check(pd > d * std::min(k1, k2) * (1 - 1e-5) - 1e-4 && pd < d * std::max(k1, k2) * (1 + 1e-5) + 1e-4, "P01:mercator-metric", "distance ", d, " projected ", pd, " at latitude ", g.lat);
      }
      BasicPoint3d l(r.d(-1e5, 1e5), r.d(-1e5, 1e5), r.d(-100, 100));
      if (std::fabs(p.reverse(l).lat) < 89.4) {
        auto l2 = p.forward(p.reverse(l));
        c.check((l2 - l).norm() < 1e-2, "P01:mercator-roundtrip", l.transpose(), " -> ", l2.transpose());
      }
      c.event("mercator");
    }
    c.sig(Hash()(std::string("me"))(uint64_t(int64_t(o.lat / 5) + 50))(uint64_t(int64_t(o.lon / 10) + 50)).h);
  }
  void spherical(Ctx& c) {
    auto& r = c.rng;
    GPSPoint o = origin(r, 80);
    bool dflt = r.p(.1);
    if (dflt) o = GPSPoint{0, 0, 0};
    projection::SphericalMercatorProjector p = dflt ? defaultProjection() : r.p(.5) ? defaultProjection(Origin(o)) : projection::SphericalMercatorProjector(Origin(o));
    c.check(p.origin().isDefault == dflt, "P01:spherical-default", "isDefault ", p.origin().isDefault);
    double sc = std::cos(o.lat * D2R);
    for (int k = 0; k < 8; ++k) {
      GPSPoint g = around(r, o, r.p(.8) ? 2e4 : 1e6);
      if (r.p(.1)) g = {r.d(-88, 88), r.d(-180, 180), r.d(-10, 10)};
      if (std::fabs(g.lat) > 88) continue;
      auto f = p.forward(g);
      double ex = A * g.lon * D2R * sc, ey = A * std::asinh(std::tan(g.lat * D2R)) * sc;
      c.check(c.close(f.x(), ex, 1e-5) && c.close(f.y(), ey, 1e-5) && f.z() == g.ele, "P01:spherical-forward", g.lat, ",", g.lon, " -> ", f.transpose(), " expected ", ex, " ", ey);
      auto b = p.reverse(f);
      c.check(metres(b, g) < 1e-3 && b.ele == g.ele, "P01:spherical-roundtrip", g.lat, ",", g.lon, " -> ", b.lat, ",", b.lon);
      auto f2 = p.forward(b);
      c.check((f2 - f).norm() < 1e-3, "P01:spherical-roundtrip", f.transpose(), " -> ", f2.transpose());
      c.event("spherical-mercator");
    }
    // near the origin distances are those on the sphere
    GPSPoint a = around(r, o, 300), h = around(r, o, 300);
    double dphi = (a.lat - h.lat) * D2R, dlam = wrap(a.lon - h.lon) * D2R;
    double hs = std::pow(std::sin(dphi / 2), 2) + std::cos(a.lat * D2R) * std::cos(h.lat * D2R) * std::pow(std::sin(dlam / 2), 2);
    double d = 2 * A * std::asin(std::sqrt(hs));
    if (std::fabs(a.lon - h.lon) < 10) {
      auto fa = p.forward(a), fh = p.forward(h);
      double pd = std::hypot(fa.x() - fh.x(), fa.y() - fh.y());
      c.check(c.close(pd, d, d * 1e-4 * (1 + std::fabs(std::tan(o.lat * D2R))) + 1e-6), "P01:spherical-metric", "distance ", d, " projected ", pd, " at latitude ", o.lat);
    }
    c.sig(Hash()(std::string("sm"))(uint64_t(int64_t(o.lat / 5) + 50))(uint64_t(int64_t(o.lon / 10) + 50)).h);
  }
  void invalid(Ctx& c) {
    auto& r = c.rng;
    projection::UtmProjector p(Origin({49, 8, 0}), r.p(.5), r.p(.5));
    const double nan = std::numeric_limits<double>::quiet_NaN();
    for (GPSPoint g : {GPSPoint{91, 8, 0}, GPSPoint{-90.5, 8, 0}, GPSPoint{nan, 8, 0}, GPSPoint{1e300, 8, 0}, GPSPoint{49, 100, 0}, GPSPoint{49, -170, 0}, GPSPoint{89.9, 8, 0}, GPSPoint{-85, 8, 0}}) {
      bool t = false;
      try {
        p.forward(g);
      } catch (ForwardProjectionError&) {
        t = true;
      }
      if (!t && (g.lat == 89.9 || g.lat == -85)) continue;
      c.check(t, "P01:invalid", "forward accepts ", g.lat, ",", g.lon);
    }
    for (BasicPoint3d l : {BasicPoint3d(1e9, 0, 0), BasicPoint3d(-1e9, 0, 0), BasicPoint3d(0, 1e9, 0), BasicPoint3d(0, -1e9, 0)}) {
      bool t = false;
      try {
        p.reverse(l);
      } catch (ReverseProjectionError&) {
        t = true;
      }
      c.check(t, "P01:invalid", "reverse accepts ", l.transpose());
    }
    c.event("invalid-input", 12);
  }
};
VF_HARNESS(P01, "P01");
}  // namespace
