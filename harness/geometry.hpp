// Plane geometry used as oracle, and generators of polygons. x is longitude, y is latitude where it matters.
#ifndef VERIF_GEOMETRY_HPP
#define VERIF_GEOMETRY_HPP

#include "pbt.hpp"

#include <cmath>
#include <vector>

namespace geometry {

struct P {
  double x, y;
};
typedef std::vector<P> Path;
struct Box {
  double x0, y0, x1, y1;
};

inline double cross(const P &o, const P &a, const P &b) { return (a.x - o.x)*(b.y - o.y) - (a.y - o.y)*(b.x - o.x); }
inline double dist(const P &a, const P &b) { return std::hypot(a.x - b.x, a.y - b.y); }

/// Positive for counter clockwise paths (y up).
inline double signedArea(const Path &p) {
  double a = 0;
  if (p.empty()) return 0;
  const P o = p[0];
  for (std::size_t i = 0; i < p.size(); ++i) a += cross(o, p[i], p[(i + 1) % p.size()]);
  return a/2;
}
inline double area(const Path &p) { return std::fabs(signedArea(p)); }

inline double perimeter(const Path &p, bool closed) {
  double l = 0;
  for (std::size_t i = 0; i + 1 < p.size(); ++i) l += dist(p[i], p[i + 1]);
  if (closed && p.size() > 1) l += dist(p.back(), p.front());
  return l;
}

inline double distanceToSegment(const P &p, const P &a, const P &b) {
  double dx = b.x - a.x, dy = b.y - a.y, l = dx*dx + dy*dy;
  double t = l == 0 ? 0 : ((p.x - a.x)*dx + (p.y - a.y)*dy)/l;
  t = std::max(0.0, std::min(1.0, t));
  return dist(p, {a.x + t*dx, a.y + t*dy});
}
inline double distanceToPath(const P &p, const Path &path, bool closed) {
  double d = 1e300;
  if (path.size() == 1) return dist(p, path[0]);
  for (std::size_t i = 0; i + (closed ? 0 : 1) < path.size(); ++i) d = std::min(d, distanceToSegment(p, path[i], path[(i + 1) % path.size()]));
  return d;
}

/// Crossing number.
inline bool inside(const P &p, const Path &path) {
  bool in = false;
  for (std::size_t i = 0, j = path.size() - 1; i < path.size(); j = i++) {
    const P &a = path[i], &b = path[j];
    if ((a.y > p.y) != (b.y > p.y)) {
      double x = a.x + (b.x - a.x)*(p.y - a.y)/(b.y - a.y);
      if (p.x < x) in = !in;
    }
  }
  return in;
}

/// Length of the part of the segment in the (closed) box.
inline double segmentLengthInBox(const P &a, const P &b, const Box &box) {
  double t0 = 0, t1 = 1, dx = b.x - a.x, dy = b.y - a.y;
  const double ps[] = {-dx, dx, -dy, dy}, qs[] = {a.x - box.x0, box.x1 - a.x, a.y - box.y0, box.y1 - a.y};
  for (int i = 0; i < 4; ++i) {
    if (ps[i] == 0) {
      if (qs[i] < 0) return 0;
    } else {
      double r = qs[i]/ps[i];
      if (ps[i] < 0) { if (r > t1) return 0; t0 = std::max(t0, r); }
      else { if (r < t0) return 0; t1 = std::min(t1, r); }
    }
  }
  return t1 > t0 ? (t1 - t0)*std::hypot(dx, dy) : 0;
}
inline double lengthInBox(const Path &p, const Box &box) {
  double l = 0;
  for (std::size_t i = 0; i + 1 < p.size(); ++i) l += segmentLengthInBox(p[i], p[i + 1], box);
  return l;
}

/// Sutherland-Hodgman: signed area of the result is right for concave polygons too.
inline Path clipToBox(Path p, const Box &box) {
  for (int side = 0; side < 4; ++side) {
    Path out;
    auto d = [&](const P &q) {
      switch (side) {
        case 0: return q.x - box.x0;
        case 1: return box.x1 - q.x;
        case 2: return q.y - box.y0;
        default: return box.y1 - q.y;
      }
    };
    for (std::size_t i = 0; i < p.size(); ++i) {
      const P &a = p[i], &b = p[(i + 1) % p.size()];
      double da = d(a), db = d(b);
      if (da >= 0) out.push_back(a);
      if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
        double t = da/(da - db);
        out.push_back({a.x + (b.x - a.x)*t, a.y + (b.y - a.y)*t});
      }
    }
    p = out;
  }
  return p;
}
inline double areaInBox(const Path &p, const Box &box) { return area(clipToBox(p, box)); }

inline bool segmentsTouch(const P &a, const P &b, const P &c, const P &d, double eps) {
  if (distanceToSegment(a, c, d) < eps || distanceToSegment(b, c, d) < eps || distanceToSegment(c, a, b) < eps || distanceToSegment(d, a, b) < eps) return true;
  return ((cross(a, b, c) > 0) != (cross(a, b, d) > 0)) && ((cross(c, d, a) > 0) != (cross(c, d, b) > 0));
}
/// Whether the closed path neither touches nor crosses itself.
inline bool isSimple(const Path &p, double eps) {
  std::size_t n = p.size();
  if (n < 3) return false;
  for (std::size_t i = 0; i < n; ++i) if (dist(p[i], p[(i + 1) % n]) < eps) return false;
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = i + 1; j < n; ++j) {
      if (j == i + 1 || (i == 0 && j == n - 1)) {
        // neighbours share a vertex: the other ends have to keep away
        const P &a = j == i + 1 ? p[i] : p[j], &b = j == i + 1 ? p[j] : p[i], &cc = j == i + 1 ? p[(j + 1) % n] : p[1];
        if (distanceToSegment(cc, a, b) < eps || distanceToSegment(a, b, cc) < eps) return false;
        continue;
      }
      if (segmentsTouch(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n], eps)) return false;
    }
  return true;
}

inline void orient(Path &p, bool ccw) {
  if ((signedArea(p) > 0) != ccw) std::reverse(p.begin(), p.end());
}

const double Pi = 3.14159265358979323846;

/// Polygon which is star shaped around (cx, cy), radii in [rmin, rmax]. Counter clockwise.
inline Path star(pbt::Ctx &c, double cx, double cy, double rmin, double rmax, int minVertices = 3, int maxVertices = 12) {
  int n = static_cast<int>(c.small(minVertices, maxVertices));
  Path p;
  double phase = c.real(0, 1);
  for (int i = 0; i < n; ++i) {
    double a = 2*Pi*(i + phase + c.real(0, n == 3 ? 0.4 : 0.7))/n;
    double r = rmax - (rmax - rmin)*c.real(0, 1);
    p.push_back({cx + r*std::cos(a), cy + r*std::sin(a)});
  }
  return p;
}

/// Simple polygon roughly in [0,1]^2: rectangle, star, comb, staircase. Counter clockwise.
inline Path polygon(pbt::Ctx &c) {
  switch (c.draw(3)) {
    case 0: {
      double x = c.real(0, 0.5), y = c.real(0, 0.5), w = c.real(0.2, 0.5), h = c.real(0.2, 0.5);
      return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
    }
    case 1: return star(c, 0.5, 0.5, 0.08, 0.5);
    case 2: {
      // comb: a back with teeth downwards
      int teeth = static_cast<int>(c.integer(2, 5));
      double back = c.real(0.6, 0.85), skew = c.real(-0.3, 0.3);
      Path p;
      p.push_back({1, 1});
      p.push_back({0, 1});
      for (int i = 0; i < teeth; ++i) {
        double x0 = (i + 0.0)/teeth, x1 = (i + (i + 1 == teeth ? 1.0 : c.real(0.3, 0.7)))/teeth, bottom = c.real(0, 0.5);
        p.push_back({x0, bottom});
        p.push_back({x1, bottom});
        if (i + 1 < teeth) { p.push_back({x1, back}); p.push_back({(i + 1.0)/teeth, back}); }
      }
      // vertical edges of teeth share x with the next tooth's start only at different heights
      for (auto &q : p) q.x += skew*q.y;
      orient(p, true);
      return p;
    }
    default: {
      // zigzag band
      int n = static_cast<int>(c.integer(2, 6));
      double w = c.real(0.05, 0.2);
      Path up, down;
      for (int i = 0; i < n; ++i) {
        double x = static_cast<double>(i)/(n - 1), y = c.real(0, 0.8);
        up.push_back({x, y + w});
        down.push_back({x, y});
      }
      Path p = down;
      p.insert(p.end(), up.rbegin(), up.rend());
      return p;
    }
  }
}

inline Path transform(const Path &p, double x, double y, double w, double h) {
  Path r;
  for (const auto &q : p) r.push_back({x + q.x*w, y + q.y*h});
  return r;
}

inline std::string show(const Path &p) {
  std::ostringstream s;
  s.precision(9);
  for (const auto &q : p) s << "(" << q.x << "," << q.y << ")";
  return s.str();
}

}

#endif
