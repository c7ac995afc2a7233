// Independent elementary geometry used as oracle. Deliberately naive: everything is a scan over segments.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <vector>

namespace geo {
struct P2 {
  double x{0}, y{0};
};
struct P3 {
  double x{0}, y{0}, z{0};
};
inline P2 operator-(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
inline P2 operator+(P2 a, P2 b) { return {a.x + b.x, a.y + b.y}; }
inline P2 operator*(P2 a, double s) { return {a.x * s, a.y * s}; }
inline double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
inline double dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline double norm(P2 a) { return std::hypot(a.x, a.y); }
inline P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline P3 operator*(P3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline double norm(P3 a) { return std::sqrt(dot(a, a)); }
using Line = std::vector<P2>;
using Line3 = std::vector<P3>;
using Ring = std::vector<P2>;  // not closed (first point is not repeated)
const double Inf = std::numeric_limits<double>::infinity();

template <typename P>
P closestOnSeg(P a, P b, P p) {
  P d = b - a;
  double l = dot(d, d);
  if (l <= 0) return a;
  double t = dot(p - a, d) / l;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  return a + d * t;
}
template <typename P>
double distSeg(P a, P b, P p) {
  return norm(p - closestOnSeg(a, b, p));
}
template <typename P>
double distLine(const std::vector<P>& l, P p) {
  if (l.empty()) return Inf;
  double d = norm(p - l[0]);
  for (size_t i = 0; i + 1 < l.size(); ++i) d = std::min(d, distSeg(l[i], l[i + 1], p));
  return d;
}
template <typename P>
double lengthOf(const std::vector<P>& l) {
  double s = 0;
  for (size_t i = 0; i + 1 < l.size(); ++i) s += norm(l[i + 1] - l[i]);
  return s;
}
inline double orient(P2 a, P2 b, P2 c) { return cross(b - a, c - a); }
inline bool onSeg(P2 a, P2 b, P2 p) {
  return std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y &&
         p.y <= std::max(a.y, b.y);
}
inline int sgn(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline bool segInter(P2 a, P2 b, P2 c, P2 d) {
  // nearly collinear segments: the signs below are noise unless the segments come close
  if (std::max(a.x, b.x) < std::min(c.x, d.x) || std::max(c.x, d.x) < std::min(a.x, b.x) || std::max(a.y, b.y) < std::min(c.y, d.y) ||
      std::max(c.y, d.y) < std::min(a.y, b.y))
    return false;
  int o1 = sgn(orient(a, b, c)), o2 = sgn(orient(a, b, d)), o3 = sgn(orient(c, d, a)), o4 = sgn(orient(c, d, b));
  if (o1 != o2 && o3 != o4 && o1 * o2 <= 0 && o3 * o4 <= 0 && !(o1 == 0 && o2 == 0)) return true;
  if (o1 == 0 && onSeg(a, b, c)) return true;
  if (o2 == 0 && onSeg(a, b, d)) return true;
  if (o3 == 0 && onSeg(c, d, a)) return true;
  if (o4 == 0 && onSeg(c, d, b)) return true;
  return false;
}
inline double segDist(P2 a, P2 b, P2 c, P2 d) {
  if (segInter(a, b, c, d)) return 0;
  return std::min({distSeg(a, b, c), distSeg(a, b, d), distSeg(c, d, a), distSeg(c, d, b)});
}
// Distance of two 3d segments by minimisation over the edge cases of the parameter square
inline double segDist3(P3 a, P3 b, P3 c, P3 d) {
  double best = std::min({distSeg(a, b, c), distSeg(a, b, d), distSeg(c, d, a), distSeg(c, d, b)});
  P3 u = b - a, v = d - c, w = a - c;
  double A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), E = dot(v, w);
  double den = A * C - B * B;
  if (den > 1e-14 * A * C) {
    double s = (B * E - C * D) / den, t = (A * E - B * D) / den;
    if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, norm((a + u * s) - (c + v * t)));
  }
  return best;
}
inline double ringArea(const Ring& r) {  // signed, counter-clockwise positive
  double s = 0;
  for (size_t i = 0; i < r.size(); ++i) s += cross(r[i] - r[0], r[(i + 1) % r.size()] - r[0]);
  return s / 2;
}
inline double distRingBorder(const Ring& r, P2 p) {
  double d = Inf;
  for (size_t i = 0; i < r.size(); ++i) d = std::min(d, distSeg(r[i], r[(i + 1) % r.size()], p));
  return d;
}
inline bool inRing(const Ring& r, P2 p) {  // even-odd; border undefined
  bool in = false;
  for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) {
    if ((r[i].y > p.y) != (r[j].y > p.y) &&
        p.x < (r[j].x - r[i].x) * (p.y - r[i].y) / (r[j].y - r[i].y) + r[i].x)
      in = !in;
  }
  return in;
}
struct Poly {  // filled polygon with holes
  Ring outer;
  std::vector<Ring> holes;
  bool in(P2 p) const {
    if (outer.size() < 3 || !inRing(outer, p)) return false;
    for (auto& h : holes)
      if (inRing(h, p)) return false;
    return true;
  }
  double borderDist(P2 p) const {
    double d = distRingBorder(outer, p);
    for (auto& h : holes) d = std::min(d, distRingBorder(h, p));
    return d;
  }
  double dist(P2 p) const { return in(p) ? 0. : borderDist(p); }
  double area() const {
    double a = std::fabs(ringArea(outer));
    for (auto& h : holes) a -= std::fabs(ringArea(h));
    return a;
  }
};
using Segs = std::vector<std::pair<P2, P2>>;
inline void segsOf(const Ring& r, Segs& out) {
  for (size_t i = 0; i < r.size(); ++i) out.push_back({r[i], r[(i + 1) % r.size()]});
}
inline void segsOfLine(const Line& l, Segs& out) {
  if (l.size() == 1) out.push_back({l[0], l[0]});
  for (size_t i = 0; i + 1 < l.size(); ++i) out.push_back({l[i], l[i + 1]});
}
inline double segsDist(const Segs& a, const Segs& b) {
  double d = Inf;
  for (auto& s : a)
    for (auto& t : b) d = std::min(d, segDist(s.first, s.second, t.first, t.second));
  return d;
}
// A shape: union of segments (points are degenerate segments) and filled polygons
struct Shape {
  Segs segs;
  std::vector<Poly> fills;
  void add(const Poly& p) {
    fills.push_back(p);
    segsOf(p.outer, segs);
    for (auto& h : p.holes) segsOf(h, segs);
  }
};
inline double dist(const Shape& a, const Shape& b) {
  if (a.segs.empty() || b.segs.empty()) return Inf;
  for (auto& f : a.fills)
    for (auto& s : b.segs)
      if (f.in(s.first)) return 0;
  for (auto& f : b.fills)
    for (auto& s : a.segs)
      if (f.in(s.first)) return 0;
  return segsDist(a.segs, b.segs);
}
inline bool simpleRing(const Ring& r, double tol = 1e-9) {  // no self-contact
  size_t n = r.size();
  if (n < 3) return false;
  for (size_t i = 0; i < n; ++i)
    if (norm(r[i] - r[(i + 1) % n]) < tol) return false;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j) {
      P2 a = r[i], b = r[(i + 1) % n], c = r[j], d = r[(j + 1) % n];
      if (j == i + 1 || (i == 0 && j == n - 1)) {  // neighbours share a corner: must not fold back
        P2 sh = (j == i + 1) ? b : a, o1 = (j == i + 1) ? a : b, o2 = (j == i + 1) ? d : c;
        if (n > 3 || true) {
          P2 u = o1 - sh, v = o2 - sh;
          if (std::fabs(cross(u, v)) <= tol * norm(u) * norm(v) && dot(u, v) > 0) return false;
        }
      } else if (segDist(a, b, c, d) < tol) {
        return false;
      }
    }
  return true;
}
// Ear clipping of a simple ring; returns triangles (counter-clockwise)
inline std::vector<std::array<P2, 3>> earClip(Ring r) {
  std::vector<std::array<P2, 3>> out;
  if (r.size() < 3) return out;
  if (ringArea(r) < 0) std::reverse(r.begin(), r.end());
  while (r.size() > 3) {
    bool done = false;
    size_t n = r.size();
    size_t bestI = n;
    for (size_t i = 0; i < n; ++i) {
      P2 a = r[(i + n - 1) % n], b = r[i], c = r[(i + 1) % n];
      double o = orient(a, b, c);
      if (o < 0) continue;
      bool ok = true;
      if (o > 0) {
        for (size_t k = 0; k < n && ok; ++k) {
          if (k == i || k == (i + 1) % n || k == (i + n - 1) % n) continue;
          P2 p = r[k];
          if ((p.x == a.x && p.y == a.y) || (p.x == b.x && p.y == b.y) || (p.x == c.x && p.y == c.y)) continue;
          if (orient(a, b, p) >= 0 && orient(b, c, p) >= 0 && orient(c, a, p) >= 0) ok = false;
        }
      } else {
        // collinear corner: dropping it is only fine when it lies between its neighbours
        ok = dot(a - b, c - b) <= 0;
      }
      if (ok) {
        bestI = i;
        if (o > 0) out.push_back({a, b, c});
        done = true;
        break;
      }
    }
    if (!done) return {};  // not simple
    r.erase(r.begin() + long(bestI));
  }
  out.push_back({r[0], r[1], r[2]});
  return out;
}
inline Ring clipConvex(Ring subj, const Ring& clipCcw) {
  for (size_t i = 0; i < clipCcw.size() && !subj.empty(); ++i) {
    P2 a = clipCcw[i], b = clipCcw[(i + 1) % clipCcw.size()];
    Ring out;
    for (size_t k = 0; k < subj.size(); ++k) {
      P2 p = subj[k], q = subj[(k + 1) % subj.size()];
      double dp = orient(a, b, p), dq = orient(a, b, q);
      if (dp >= 0) out.push_back(p);
      if ((dp > 0 && dq < 0) || (dp < 0 && dq > 0)) out.push_back(p + (q - p) * (dp / (dp - dq)));
    }
    subj = out;
  }
  return subj;
}
// area of the intersection of two simple rings
inline double interArea(const Ring& a, const Ring& b) {
  auto ta = earClip(a), tb = earClip(b);
  double s = 0;
  for (auto& x : ta)
    for (auto& y : tb) {
      Ring c = clipConvex(Ring(x.begin(), x.end()), Ring(y.begin(), y.end()));
      if (c.size() >= 3) s += std::fabs(ringArea(c));
    }
  return s;
}
inline double interArea(const Poly& a, const Poly& b) {
  // inclusion/exclusion: holes of one polygon are disjoint and inside its outer ring
  double s = interArea(a.outer, b.outer);
  for (auto& h : a.holes) s -= interArea(h, b.outer);
  for (auto& h : b.holes) s -= interArea(h, a.outer);
  for (auto& h : a.holes)
    for (auto& g : b.holes) s += interArea(h, g);
  return s;
}
struct Box {
  double x0{Inf}, y0{Inf}, z0{Inf}, x1{-Inf}, y1{-Inf}, z1{-Inf};
  void add(double x, double y, double z = 0) {
    x0 = std::min(x0, x);
    y0 = std::min(y0, y);
    z0 = std::min(z0, z);
    x1 = std::max(x1, x);
    y1 = std::max(y1, y);
    z1 = std::max(z1, z);
  }
  bool empty() const { return x0 > x1; }
  bool inter2(const Box& o) const { return x0 <= o.x1 && o.x0 <= x1 && y0 <= o.y1 && o.y0 <= y1; }
  double dist2(P2 p) const {
    double dx = std::max({x0 - p.x, 0., p.x - x1}), dy = std::max({y0 - p.y, 0., p.y - y1});
    return std::hypot(dx, dy);
  }
};
}  // namespace geo
