// C20: buildings.
#include "bench.hpp"

#include "builders/buildings/BuildingBuilder.hpp"

using namespace bench;
using namespace meshes;
using namespace utymap::builders;
using pbt::Ctx;

namespace {

/// What one part of a building is made of.
struct Part {
  std::vector<Path> outers, inners;     // in degrees from the origin of the tile
  double height = 0, minHeight = 0, roofHeight = 0;
  std::string roof = "flat", facade = "flat", direction = "N";
  int roofColor = 0, facadeColor = 0;
  Texture roofTexture{{0, 0, 0, 0, 0, 0, 0}}, facadeTexture{{0, 0, 0, 0, 0, 0, 0}};
  bool convex = false, rectangle = false;
  std::size_t quads = 0;                // outers with four vertices

  double total() const { return height == 0 ? 10 : height; }
};

struct V { double x, y, z; };

/// Vertices which are the same up to rounding get the same number.
class Welder {
 public:
  Welder(double xy, double z) : xy_(xy), z_(z) {}
  int id(const V &v) {
    for (std::size_t i = 0; i < all_.size(); ++i)
      if (std::fabs(all_[i].x - v.x) < xy_ && std::fabs(all_[i].y - v.y) < xy_ && std::fabs(all_[i].z - v.z) < z_) return static_cast<int>(i);
    all_.push_back(v);
    return static_cast<int>(all_.size()) - 1;
  }
  const V &at(int i) const { return all_[static_cast<std::size_t>(i)]; }
 private:
  double xy_, z_;
  std::vector<V> all_;
};

bool convex(const Path &p) {
  bool pos = false, neg = false;
  double a = geometry::area(p);
  for (std::size_t i = 0; i < p.size(); ++i) {
    double x = geometry::cross(p[i], p[(i + 1) % p.size()], p[(i + 2) % p.size()]);
    if (x > a*1e-3) pos = true;
    else if (x < -a*1e-3) neg = true;
    else return false;   // straight corners are not used where convexity matters
  }
  return pos != neg;
}

/// Path which is moved and scaled to fill given box.
Path fill(Path p, double x, double y, double w, double h) {
  double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
  for (const auto &v : p) { x0 = std::min(x0, v.x); y0 = std::min(y0, v.y); x1 = std::max(x1, v.x); y1 = std::max(y1, v.y); }
  for (auto &v : p) v = {x + w*(v.x - x0)/(x1 - x0), y + h*(v.y - y0)/(y1 - y0)};
  return p;
}

Path outline(Ctx &c, double x, double y, double w, double h) {
  switch (c.draw(3)) {
    case 0: return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
    case 1: {   // rotated rectangle
      double t = c.real(0.1, 0.9);
      double a = w*(1 - t), b = h*t;   // right angles in degrees: sides (a, b) and (-s*b, s*a)
      double s = std::min(1.0, std::min((w - a)/b, (h - b)/a));
      if (s < 0.2) c.discard();
      return {{x + s*b, y}, {x + s*b + a, y + b}, {x + a, y + b + s*a}, {x, y + s*a}};
    }
    case 2: return fill(geometry::star(c, 0.5, 0.5, 0.3, 0.5, 3, 8), x, y, w, h);
    default: return fill(geometry::polygon(c), x, y, w, h);
  }
}

Part genPart(Ctx &c, double x, double y, double w, double h, bool multi) {
  Part p;
  auto add = [&](double px, double py, double pw, double ph) {
    auto o = outline(c, px, py, pw, ph);
    Path unit;
    for (const auto &v : o) unit.push_back({(v.x - px)/pw, (v.y - py)/ph});
    if (!geometry::isSimple(unit, 0.02) || geometry::area(unit) < 0.05) c.discard();
    geometry::orient(o, true);
    // starts anywhere
    std::rotate(o.begin(), o.begin() + static_cast<std::ptrdiff_t>(c.draw(o.size() - 1)), o.end());
    if (o.size() == 4) ++p.quads;
    p.outers.push_back(o);
    return unit;
  };
  if (!multi) {
    auto unit = add(x, y, w, h);
    p.convex = convex(unit);
    if (unit.size() == 4) {
      double dx = unit[0].x + unit[2].x - unit[1].x - unit[3].x, dy = unit[0].y + unit[2].y - unit[1].y - unit[3].y;
      double dot = (p.outers[0][1].x - p.outers[0][0].x)*(p.outers[0][2].x - p.outers[0][1].x) + (p.outers[0][1].y - p.outers[0][0].y)*(p.outers[0][2].y - p.outers[0][1].y);
      p.rectangle = std::fabs(dx) < 1e-9 && std::fabs(dy) < 1e-9 && std::fabs(dot) < 1e-9*w*h;
    }
  } else {
    int n = static_cast<int>(c.integer(1, 2));
    for (int i = 0; i < n; ++i) add(x + w*i/n, y, w*0.9/n, h);
    int holes = static_cast<int>(c.integer(n == 1 ? 1 : 0, 2));
    for (int i = 0; i < holes; ++i) {
      const auto &o = p.outers[0];
      P m{0, 0};
      for (const auto &v : o) { m.x += v.x/static_cast<double>(o.size()); m.y += v.y/static_cast<double>(o.size()); }
      double d = geometry::distanceToPath(m, o, true);
      if (!geometry::inside(m, o) || d < std::min(w, h)*0.05) c.discard();
      Path q = geometry::transform(geometry::star(c, 0, 0, 0.4, 1, 3, 6), m.x + (holes == 2 ? (i == 0 ? -0.5*d : 0.5*d) : 0), m.y, d*0.4, d*0.4);
      if (!geometry::isSimple(q, d*1e-2)) c.discard();
      geometry::orient(q, false);
      p.inners.push_back(q);
    }
  }
  p.height = c.pick({12., 30.5, 0., 6.});
  p.minHeight = c.chance(1, 3) ? c.pick({3., 5.5, 0.75}) : 0;
  p.roof = c.pick(std::vector<std::string>{"flat", "pyramidal", "mansard", "skillion", "round", "dome", "none"});
  p.facade = c.chance(1, 4) ? c.pick(std::vector<std::string>{"cylinder", "sphere"}) : "flat";
  p.roofHeight = c.pick({4., 1.5, 10.});
  p.direction = c.pick(std::vector<std::string>{"N", "E", "S", "W", "NE", "SSW", "WNW", "10", "200.5", "NNE", "ENE", "ESE", "SE", "SSE", "SW", "WSW", "NW", "NNW", "along", "across", "across"});
  if (p.roof == "round" ? p.direction == "along" && c.boolean() : p.direction == "along" || p.direction == "across") p.direction = "S";
  return p;
}

/// Rule of the part, with values as they are or taken from tags.
std::string rule(Ctx &c, Part &p, const std::string &selector, const Atlas &atlas, bool textured, TextTags &tags, const std::string &extra) {
  std::ostringstream s;
  auto value = [&](const std::string &key, const std::string &v, bool number) {
    if (number && c.chance(1, 4)) {
      s << key << ": eval(\"tag('" << key << "')\"); ";
      tags.emplace_back(key, v);
    } else
      s << key << ": " << v << (number && c.boolean() ? "m" : "") << "; ";
  };
  s << selector << " { builder: building; building: true; " << extra;
  value("height", pbt::str(p.height), true);
  value("min-height", pbt::str(p.minHeight), true);
  value("roof-height", pbt::str(p.roofHeight), true);
  value("roof-type", p.roof, false);
  value("facade-type", p.facade, false);
  if (c.boolean()) { s << "roof-direction: eval(\"tag('direction')\"); "; tags.emplace_back("direction", p.direction); }
  else s << "roof-direction: " << p.direction << "; ";
  s << "roof-color: gradient(" << hex(p.roofColor) << "); facade-color: gradient(" << hex(p.facadeColor) << "); ";
  if (textured && c.chance(3, 4)) {
    auto t = c.pick(atlas.regions), u = c.pick(atlas.regions);
    p.roofTexture = t.second;
    p.facadeTexture = u.second;
    s << "roof-texture-index: " << t.second[0] << "; roof-texture-type: " << t.first << "; roof-texture-scale: 20; "
      << "facade-texture-index: " << u.second[0] << "; facade-texture-type: " << u.first << "; facade-texture-scale: 10; ";
  }
  s << "}\n";
  return s.str();
}

std::vector<GeoCoordinate> coordinates(const Path &p, const BoundingBox &box) {
  std::vector<GeoCoordinate> r;
  for (const auto &v : p) r.emplace_back(box.minPoint.latitude + v.y, box.minPoint.longitude + v.x);
  return r;
}

struct Tri { V a, b, c; int color; P uv[3]; };

/// Checks triangles which belong to the part: all of them have its colors.
void checkPart(Ctx &c, const Part &p, const std::vector<Tri> &tris, const BoundingBox &box, const Slope &ele, bool alone) {
  const double lon0 = box.minPoint.longitude, lat0 = box.minPoint.latitude;
  const double ground = ele.at(lat0 + p.outers[0][0].y, lon0 + p.outers[0][0].x);
  const double base = ground + p.minHeight, eave = ground + p.total(), top = eave + p.roofHeight;
  const double ze = 1e-6*(1 + std::fabs(top)), unit = 1e-9, snapped = 3e-7;

  double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;
  std::vector<geometry::Box> boxes;
  for (const auto &o : p.outers) {
    geometry::Box b{1e9, 1e9, -1e9, -1e9};
    for (const auto &v : o) { b.x0 = std::min(b.x0, v.x); b.y0 = std::min(b.y0, v.y); b.x1 = std::max(b.x1, v.x); b.y1 = std::max(b.y1, v.y); }
    boxes.push_back(b);
    x0 = std::min(x0, b.x0); y0 = std::min(y0, b.y0); x1 = std::max(x1, b.x1); y1 = std::max(y1, b.y1);
  }
  auto radius = [&](const geometry::Box &b) {   // of spheres, in meters
    double lat = lat0 + (b.y0 + b.y1)/2;
    return utymap::utils::GeoUtils::distance(GeoCoordinate(lat, lon0 + b.x0), GeoCoordinate(lat + (b.y1 - b.y0)/2, lon0 + b.x0));
  };

  std::vector<Tri> roof, facade;
  for (const auto &t : tris) (t.color == p.roofColor ? roof : facade).push_back(t);
  auto bounds = [](const std::vector<Tri> &ts) {
    std::array<double, 6> r{{1e18, 1e18, 1e18, -1e18, -1e18, -1e18}};
    for (const auto &t : ts)
      for (const V *v : {&t.a, &t.b, &t.c}) {
        r[0] = std::min(r[0], v->x); r[1] = std::min(r[1], v->y); r[2] = std::min(r[2], v->z);
        r[3] = std::max(r[3], v->x); r[4] = std::max(r[4], v->y); r[5] = std::max(r[5], v->z);
      }
    return r;
  };
  auto extents = [&](const std::array<double, 6> &b) {
    std::ostringstream s;
    s.precision(10);
    s << b[0] << "," << b[1] << "," << b[2] << " - " << b[3] << "," << b[4] << "," << b[5];
    return s.str();
  };

  // ---- facade
  PBT_CHECK(c, !facade.empty(), "no facade");
  auto fb = bounds(facade);
  if (p.facade == "sphere") {
    double r = radius({x0, y0, x1, y1});
    PBT_CHECK(c, std::fabs(fb[0] - x0) < unit && std::fabs(fb[1] - y0) < unit && std::fabs(fb[3] - x1) < unit && std::fabs(fb[4] - y1) < unit,
              "sphere spans " << extents(fb) << ", outline " << x0 << "," << y0 << " - " << x1 << "," << y1);
    PBT_CHECK(c, std::fabs(fb[5] - fb[2] - 2*r) < 1e-3*r, "sphere is " << fb[5] - fb[2] << " high, should be " << 2*r);
    PBT_CHECK(c, std::fabs((fb[5] + fb[2])/2 - base) < 1e-3*r, "center of sphere is at " << (fb[5] + fb[2])/2 << ", the building starts at " << base);
    c.label("sphere");
  } else {
    PBT_CHECK(c, std::fabs(fb[2] - base) < ze && std::fabs(fb[5] - eave) < ze, "facade is between " << fb[2] << " and " << fb[5] << ", should be between " << base << " and " << eave);
    if (p.facade == "cylinder") {
      // a prism around the middle of the extent, with a corner on its right side
      PBT_CHECK(c, fb[0] > x0 - unit && fb[1] > y0 - unit && std::fabs(fb[3] - x1) < unit && fb[4] < y1 + unit, "cylinder spans " << extents(fb) << ", outline " << x0 << "," << y0 << " - " << x1 << "," << y1);
      for (const auto &t : facade)
        for (const V *v : {&t.a, &t.b, &t.c}) {
          bool ok = false;
          for (const auto &b : boxes) {
            double rx = (b.x1 - b.x0)/2, ry = (b.y1 - b.y0)/2, d = std::hypot((v->x - b.x0 - rx)/rx, (v->y - b.y0 - ry)/ry);
            ok = ok || std::fabs(d - 1) < 1e-5 || d < 1e-5;
          }
          PBT_CHECK(c, ok, "corner of cylinder is at " << v->x << "," << v->y);
        }
      c.label("cylinder");
    } else {
      // each edge of outlines and holes has a wall from the bottom to the top which is seen from outside
      std::vector<std::pair<P, P>> edges;
      for (const auto *rings : {&p.outers, &p.inners})
        for (const auto &r : *rings)
          for (std::size_t i = 0; i < r.size(); ++i) edges.emplace_back(r[i], r[(i + 1) % r.size()]);
      std::vector<double> covered(edges.size(), 0);
      for (const auto &t : facade) {
        bool found = false;
        for (std::size_t i = 0; i < edges.size() && !found; ++i) {
          const auto &e = edges[i];
          auto on = [&](const V &v) { return (std::fabs(v.x - e.first.x) < unit && std::fabs(v.y - e.first.y) < unit) || (std::fabs(v.x - e.second.x) < unit && std::fabs(v.y - e.second.y) < unit); };
          if (!on(t.a) || !on(t.b) || !on(t.c)) continue;
          found = true;
          // area in the plane of the wall, with position along the edge
          double l = geometry::dist(e.first, e.second);
          auto along = [&](const V &v) { return geometry::dist({v.x, v.y}, e.first)/l; };
          // texture is not stretched: as many repetitions for a degree along the wall as for a degree of its height
          if (p.facadeTexture[1] != 0) {
            const double perDegree = 10/box.width(), perMeter = perDegree/111200;
            const V *vs[3] = {&t.a, &t.b, &t.c};
            for (int k = 0; k < 3; ++k) {
              double u = along(*vs[k])*l*perDegree, back = (1 - along(*vs[k]))*l*perDegree, v = (vs[k]->z - base)*perMeter;
              PBT_CHECK(c, (std::fabs(t.uv[k].x - u) < 1e-6*(1 + u) || std::fabs(t.uv[k].x - back) < 1e-6*(1 + back)) && std::fabs(t.uv[k].y - v) < 0.01*v + 1e-9,
                        "texture of wall is at " << t.uv[k].x << "," << t.uv[k].y << ", should be " << u << "," << v);
            }
          }
          covered[i] += ((along(t.b) - along(t.a))*(t.c.z - t.a.z) - (along(t.c) - along(t.a))*(t.b.z - t.a.z))/2/(eave - base);
        }
        PBT_CHECK(c, found, "wall at " << t.a.x << "," << t.a.y << " - " << t.b.x << "," << t.b.y << " is not at an edge of the outline");
      }
      if (p.facadeTexture[1] != 0) c.label("wall texture");
      for (std::size_t i = 0; i < edges.size(); ++i)
        PBT_CHECK(c, std::fabs(covered[i] + 1) < 1e-6, "wall between " << edges[i].first.x << "," << edges[i].first.y << " and " << edges[i].second.x << "," << edges[i].second.y << " has " << -covered[i] << " of its area seen from outside");
    }
  }

  // ---- floors: seen from below
  double outlineArea = 0;
  for (const auto &o : p.outers) outlineArea += geometry::area(o);
  for (const auto &o : p.inners) outlineArea -= geometry::area(o);
  auto signedArea = [](const Tri &t) { return ((t.b.x - t.a.x)*(t.c.y - t.a.y) - (t.c.x - t.a.x)*(t.b.y - t.a.y))/2; };
  const double areaTolerance = 1e-6*outlineArea;
  std::vector<Tri> floors, upper;
  for (const auto &t : roof) {
    bool low = std::fabs(t.a.z - base) < ze && std::fabs(t.b.z - base) < ze && std::fabs(t.c.z - base) < ze;
    (low ? floors : upper).push_back(t);
  }
  double floorArea = 0;
  for (const auto &t : floors) {
    floorArea += signedArea(t);
    PBT_CHECK(c, signedArea(t) > -areaTolerance, "floor is not seen from below");
  }
  PBT_CHECK(c, std::fabs(floorArea - (p.minHeight > 0 ? outlineArea : 0)) < areaTolerance, "floor covers " << floorArea << " of " << outlineArea);

  // texture of what is flat is laid out on the tile
  if (p.roofTexture[1] != 0)
    for (const auto *ts : {&floors, p.roof == "flat" ? &upper : &floors})
      for (const auto &t : *ts) {
        const V *vs[3] = {&t.a, &t.b, &t.c};
        for (int k = 0; k < 3; ++k)
          PBT_CHECK(c, std::fabs(t.uv[k].x - vs[k]->x/box.width()*20) < 1e-6 && std::fabs(t.uv[k].y - vs[k]->y/box.height()*20) < 1e-6,
                    "texture of roof at " << vs[k]->x/box.width() << "," << vs[k]->y/box.height() << " of tile is " << t.uv[k].x << "," << t.uv[k].y);
      }

  // ---- roof
  if (p.roof == "none") { PBT_CHECK(c, upper.empty(), "roof of kind none has " << upper.size() << " triangles"); return; }
  PBT_CHECK(c, !upper.empty(), "no roof");
  auto rb = bounds(upper);
  PBT_CHECK(c, rb[0] > x0 - unit && rb[1] > y0 - unit && rb[3] < x1 + unit && rb[4] < y1 + unit, "roof spans " << extents(rb) << ", outline " << x0 << "," << y0 << " - " << x1 << "," << y1);
  if (p.roof == "dome") {
    double r = 0;
    for (const auto &b : boxes) r = std::max(r, radius(b));
    PBT_CHECK(c, std::fabs(rb[5] - eave - r) < 1e-3*r, "dome ends at " << rb[5] - eave << " above walls, should at " << r);
    PBT_CHECK(c, std::fabs(rb[0] - x0) < unit && std::fabs(rb[1] - y0) < unit && std::fabs(rb[3] - x1) < unit && std::fabs(rb[4] - y1) < unit, "dome spans " << extents(rb));
    c.label("dome");
    return;
  }
  bool atTop = std::fabs(rb[5] - top) < ze, atEave = std::fabs(rb[5] - eave) < ze;
  PBT_CHECK(c, std::fabs(rb[2] - eave) < ze, "roof starts at " << rb[2] << ", walls end at " << eave);
  PBT_CHECK(c, rb[5] < top + ze, "roof ends at " << rb[5] << ", should at " << top);
  bool pitched = p.roof == "pyramidal" || (p.roof != "flat" && p.rectangle);
  if (p.roof == "flat") PBT_CHECK(c, atEave, "flat roof ends at " << rb[5] << ", walls at " << eave);
  else if (pitched) PBT_CHECK(c, p.roof == "round" ? rb[5] > eave + 0.9*p.roofHeight : atTop, p.roof << " roof ends at " << rb[5] << ", should at " << top);
  if (!atEave) c.label(p.roof);

  if (p.roof == "skillion" && p.rectangle) {
    // slopes down in given direction
    static const std::map<std::string, double> named = {{"N", 0}, {"NNE", 22.5}, {"NE", 45}, {"ENE", 67.5}, {"E", 90}, {"ESE", 112.5}, {"SE", 135}, {"SSE", 157.5}, {"S", 180}, {"SSW", 202.5},
                                                        {"SW", 225}, {"WSW", 247.5}, {"W", 270}, {"WNW", 292.5}, {"NW", 315}, {"NNW", 337.5}, {"10", 10}, {"200.5", 200.5}};
    const double t = named.at(p.direction)*std::acos(-1.0)/180;
    const P d{std::sin(t), std::cos(t)};
    const auto &o = p.outers[0];
    P m{(o[0].x + o[2].x)/2, (o[0].y + o[2].y)/2};
    for (std::size_t i = 0; i < 4; ++i) {
      P a{o[i].x - m.x, o[i].y - m.y}, b{o[(i + 1) % 4].x - m.x, o[(i + 1) % 4].y - m.y};
      double ca = (d.x*a.y - d.y*a.x)/std::hypot(a.x, a.y), cb = (d.x*b.y - d.y*b.x)/std::hypot(b.x, b.y);
      if (!(ca < -0.03 && cb > 0.03)) continue;   // the edge which is crossed, not near to its ends
      for (const auto &tri : upper)
        for (const V *v : {&tri.a, &tri.b, &tri.c})
          for (std::size_t k = 0; k < 4; ++k)
            if (std::hypot(v->x - o[k].x, v->y - o[k].y) < unit) {
              bool front = k == i || k == (i + 1) % 4;
              PBT_CHECK(c, front ? std::fabs(v->z - eave) < ze : std::fabs(v->z - top) < ze || std::fabs(v->z - eave) < ze,
                        "skillion roof which slopes to " << p.direction << " is " << v->z - eave << " above walls at its " << (front ? "low" : "high") << " edge");
            }
      double highest[4] = {-1e18, -1e18, -1e18, -1e18};
      for (const auto &tri : upper)
        for (const V *v : {&tri.a, &tri.b, &tri.c})
          for (std::size_t k = 0; k < 4; ++k)
            if (std::hypot(v->x - o[k].x, v->y - o[k].y) < unit) highest[k] = std::max(highest[k], v->z);
      for (std::size_t k = 2; k < 4; ++k)
        PBT_CHECK(c, std::fabs(highest[(i + k) % 4] - top) < ze, "skillion roof which slopes to " << p.direction << " is " << highest[(i + k) % 4] - eave << " above walls at its high edge");
      c.label("slope");
    }
  }
  if (p.roof == "round" && p.rectangle) {
    // an arch over two opposite sides: the short ones unless it is turned across
    const auto &o = p.outers[0];
    double a = geometry::dist(o[0], o[1]), b = geometry::dist(o[1], o[2]);
    if (std::fabs(a - b) > 1e-3*(a + b)) {
      std::size_t arched = (a < b) == (p.direction != "across") ? 0 : 1;
      for (const auto &tri : upper)
        for (const V *v : {&tri.a, &tri.b, &tri.c}) {
          double d = std::min(geometry::distanceToSegment({v->x, v->y}, o[arched], o[arched + 1]), geometry::distanceToSegment({v->x, v->y}, o[arched + 2], o[(arched + 3) % 4]));
          PBT_CHECK(c, d < 1e-6*(a + b), "round roof " << p.direction << " has a corner off its arched sides, at " << v->x << "," << v->y);
          if (v->z > eave + ze) {   // a half of an ellipse
            const P m{(o[arched].x + o[arched + 1].x)/2, (o[arched].y + o[arched + 1].y)/2}, n{(o[arched + 2].x + o[(arched + 3) % 4].x)/2, (o[arched + 2].y + o[(arched + 3) % 4].y)/2};
            double r = (arched == 0 ? a : b)/2, x = std::min(geometry::dist({v->x, v->y}, m), geometry::dist({v->x, v->y}, n))/r, z = (v->z - eave)/p.roofHeight;
            PBT_CHECK(c, std::fabs(x*x + z*z - 1) < 1e-4, "round roof is " << v->z - eave << " high, " << x << " off the middle");
          }
        }
      c.label(p.direction == "across" ? "across" : "along");
    }
  }
  for (const auto &tri : upper) {
    bool within = false;
    for (const auto &b : boxes) {
      bool all = true;
      for (const V *v : {&tri.a, &tri.b, &tri.c}) all = all && v->x > b.x0 - unit && v->x < b.x1 + unit && v->y > b.y0 - unit && v->y < b.y1 + unit;
      within = within || all;
    }
    PBT_CHECK(c, within, p.roof << " roof has a triangle which reaches over from one outline to another");
  }
  if (p.roof == "pyramidal")
    for (const auto &tri : upper)
      PBT_CHECK(c, std::fabs(std::max(tri.a.z, std::max(tri.b.z, tri.c.z)) - top) < ze, "face of pyramidal roof does not reach its top");

  // seen from above the roof covers the outline
  double covered = 0;
  for (const auto &t : upper) {
    covered -= signedArea(t);
    if (p.convex) PBT_CHECK(c, signedArea(t) < areaTolerance + 2*snapped*(x1 - x0 + y1 - y0), p.roof << " roof has a triangle which faces down");
  }
  double expected = outlineArea;
  if (p.roof == "pyramidal") for (const auto &o : p.inners) expected += geometry::area(o);
  PBT_CHECK(c, std::fabs(covered - expected) < areaTolerance, p.roof << " roof covers " << covered << " of " << expected);

  // ---- closed: what is open is only at the ground
  if (alone && p.facade == "flat" && !(p.roof == "pyramidal" && !p.inners.empty())) {
    Welder weld(unit, ze);
    std::map<std::pair<int, int>, int> open;
    for (const auto &t : tris) {
      int v[3] = {weld.id(t.a), weld.id(t.b), weld.id(t.c)};
      for (int i = 0; i < 3; ++i) {
        int a = v[i], b = v[(i + 1) % 3];
        if (a == b) continue;
        auto r = open.find({b, a});
        if (r != open.end()) { if (--r->second == 0) open.erase(r); }
        else ++open[{a, b}];
      }
    }
    // ends of a round roof have a vertex in the middle of the wall
    std::map<std::pair<std::size_t, std::size_t>, double> along;
    if (p.roof == "round")
      for (auto e = open.begin(); e != open.end();) {
        const auto &a = weld.at(e->first.first), &b = weld.at(e->first.second);
        bool found = false;
        if (std::fabs(a.z - eave) < ze && std::fabs(b.z - eave) < ze)
          for (std::size_t k = 0; k < p.outers.size() && !found; ++k)
            for (std::size_t i = 0; i < p.outers[k].size() && !found; ++i) {
              const auto &s = p.outers[k][i], &t = p.outers[k][(i + 1) % p.outers[k].size()];
              if (geometry::distanceToSegment({a.x, a.y}, s, t) > unit || geometry::distanceToSegment({b.x, b.y}, s, t) > unit) continue;
              found = true;
              double l = geometry::dist(s, t);
              along[{k, i}] += e->second*((b.x - a.x)*(t.x - s.x) + (b.y - a.y)*(t.y - s.y))/l/l;
            }
        e = found ? open.erase(e) : std::next(e);
      }
    for (const auto &a : along) PBT_CHECK(c, std::fabs(a.second) < 1e-6, "round roof and wall are not closed at side " << a.first.second << " of outline " << a.first.first << ": " << a.second);
    for (const auto &e : open) {
      const auto &a = weld.at(e.first.first), &b = weld.at(e.first.second);
      PBT_CHECK(c, p.minHeight == 0 && std::fabs(a.z - base) < ze && std::fabs(b.z - base) < ze,
                p.roof << ": surface is open between " << a.x << "," << a.y << "," << a.z - base << " and " << b.x << "," << b.y << "," << b.z - base);
    }
    c.label("closed");
  }
}

std::vector<Tri> triangles(const Mesh &m, const BoundingBox &box) {
  std::vector<Tri> r;
  auto at = [&](int i) {
    auto k = static_cast<std::size_t>(i)*3;
    return V{m.vertices[k] - box.minPoint.longitude, m.vertices[k + 1] - box.minPoint.latitude, m.vertices[k + 2]};
  };
  for (std::size_t i = 0; i < m.triangles.size(); i += 3) {
    auto color = rgb(m.colors[static_cast<std::size_t>(m.triangles[i])]);
    auto uv = [&](std::size_t k) {
      auto v = static_cast<std::size_t>(m.triangles[k])*2;
      return P{m.uvs[v], m.uvs[v + 1]};
    };
    r.push_back({at(m.triangles[i]), at(m.triangles[i + 1]), at(m.triangles[i + 2]), color, {uv(i), uv(i + 1), uv(i + 2)}});
  }
  return r;
}

void note(Ctx &c, const Part &p) {
  for (const auto &o : p.outers) c.note() << " outer " << geometry::show(o);
  for (const auto &o : p.inners) c.note() << " inner " << geometry::show(o);
  c.note() << "\n";
}

/// Colors and textures of triangles of a mesh.
void checkLook(Ctx &c, const Mesh &m, const std::vector<Part> &parts) {
  auto bad = malformed(m, true);
  PBT_CHECK(c, bad.empty(), m.name << ": " << bad);
  auto tex = textures(m);
  for (std::size_t i = 0; i < m.colors.size(); ++i) {
    bool ok = false;
    for (const auto &p : parts) {
      if (rgb(m.colors[i]) == p.roofColor) { ok = true; PBT_CHECK(c, sameTexture(tex[i], p.roofTexture), "roof has texture of atlas " << tex[i][0] << " at " << tex[i][3]); }
      else if (rgb(m.colors[i]) == p.facadeColor) { ok = true; PBT_CHECK(c, sameTexture(tex[i], p.facadeTexture), "facade has texture of atlas " << tex[i][0] << " at " << tex[i][3]); }
    }
    PBT_CHECK(c, ok, "color " << hex(rgb(m.colors[i])) << " of vertex");
  }
}

void building(Ctx &c) {
  auto q = anyTile(c, 14, 18);
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  const std::string dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  bool textured = c.boolean();
  std::string css = textured ? atlas.write(dir) : "";

  // several buildings go through the same builder
  struct One { std::shared_ptr<Element> element; std::vector<Part> parts; std::string name; };
  std::vector<One> all;
  int color = 0;
  c.repeat(1, 3, [&](std::size_t i) {
    One one;
    std::uint64_t id = 10 + i*10;
    double w = c.pick({0.0004, 0.0002, 0.001}), h = c.pick({0.0004, 0.0002, 0.001}), x = c.real(0, 0.002), y = c.real(0, 0.001);
    std::string z = "|z" + std::to_string(q.levelOfDetail);
    auto sel = [&](const char *kind, std::uint64_t eid) { return std::string(kind) + z + "[id=e" + std::to_string(eid) + "]"; };
    auto makeArea = [&](std::uint64_t eid, const Path &p, const TextTags &tags) {
      auto a = std::make_shared<Area>();
      a->id = eid;
      a->coordinates = coordinates(p, box);
      addTags(*a, table, tags);
      return a;
    };
    // what the building consists of
    std::function<std::shared_ptr<Element>(std::uint64_t, double, double, double, double, int)> make =
        [&](std::uint64_t eid, double px, double py, double pw, double ph, int depth) -> std::shared_ptr<Element> {
      auto kind = c.draw(depth == 0 ? 3 : depth == 1 ? 2 : 1);
      TextTags tags = {{"id", "e" + std::to_string(eid)}};
      if (kind <= 1) {
        auto part = genPart(c, px, py, pw, ph, kind == 1);
        part.roofColor = ++color;
        part.facadeColor = ++color;
        css += rule(c, part, sel(kind == 1 ? "relation" : "area", eid), atlas, textured, tags, kind == 1 ? "multipolygon: true; " : "");
        one.parts.push_back(part);
        c.note() << (kind == 1 ? "multipolygon " : "area ") << eid;
        note(c, part);
        if (kind == 0) return makeArea(eid, part.outers[0], tags);
        auto r = std::make_shared<Relation>();
        r->id = eid;
        addTags(*r, table, tags);
        // members in any order
        std::vector<std::shared_ptr<Element>> members;
        for (const auto &o : part.outers) members.push_back(makeArea(eid + 100000 + members.size(), o, {}));
        for (const auto &o : part.inners) members.push_back(makeArea(eid + 100000 + members.size(), o, {}));
        r->elements = members;
        return r;
      }
      auto r = std::make_shared<Relation>();
      r->id = eid;
      addTags(*r, table, tags);
      css += sel("relation", eid) + " { builder: building; }\n";
      int n = static_cast<int>(c.integer(1, 3));
      c.note() << "relation " << eid << " of " << n << "\n";
      for (int k = 0; k < n; ++k) r->elements.push_back(make(eid*10 + static_cast<std::uint64_t>(k), px + pw*k/n, py, pw*0.9/n, ph, depth + 1));
      // what is not a building has no part
      if (c.chance(1, 4)) {
        TextTags other = {{"id", "e" + std::to_string(eid*10 + 9)}};
        css += sel("area", eid*10 + 9) + " { builder: building; }\n";
        auto extra = makeArea(eid*10 + 9, {{px, py}, {px + pw, py}, {px, py + ph}}, other);
        r->elements.insert(r->elements.begin() + static_cast<std::ptrdiff_t>(c.draw(r->elements.size())), extra);
      }
      return r;
    };
    one.element = make(id, x, y, w, h, 0);
    one.name = "building:" + std::to_string(id);
    if (c.chance(1, 5)) {   // it belongs to a building which is drawn as a whole
      one.element->tags.emplace_back(0xffffffffu, 0);
      std::sort(one.element->tags.begin(), one.element->tags.end());
      one.parts.clear();
      one.name = "";
      c.note() << "the last one is ignored\n";
      c.label("ignored");
    }
    all.push_back(std::move(one));
  });
  c.note() << show(q) << "\n" << css;
  for (const auto &o : all)
    if (o.parts.empty()) continue;
    else if (o.parts.size() > 1 || !o.parts[0].inners.empty() || o.parts[0].roof != "flat" || o.parts[0].facade != "flat") c.nontrivial();

  auto slope = anySlope(c, box);
  Bench b(q, table, css, dir + "/", slope);
  pbt::noThrow("building builder", [&] {
    BuildingBuilder builder(b.context);
    builder.prepare();
    for (const auto &o : all) o.element->accept(builder);
    builder.complete();
  });
  all.erase(std::remove_if(all.begin(), all.end(), [](const One &o) { return o.name.empty(); }), all.end());
  PBT_CHECK(c, b.meshes.size() == all.size(), b.meshes.size() << " meshes of " << all.size() << " buildings");
  for (std::size_t i = 0; i < all.size(); ++i) {
    const auto &m = *b.meshes[i];
    PBT_CHECK(c, m.name == all[i].name, "mesh of " << all[i].name << " is " << m.name);
    checkLook(c, m, all[i].parts);
    auto tris = triangles(m, box);
    for (const auto &p : all[i].parts) {
      std::vector<Tri> mine;
      for (const auto &t : tris) if (t.color == p.roofColor || t.color == p.facadeColor) mine.push_back(t);
      checkPart(c, p, mine, box, b.ele, true);
    }
  }
}

/// Buildings take any texture of the group of their style, but always the same one.
void variety(Ctx &c) {
  auto q = anyTile(c, 14, 18);
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  const std::string dir = c.tmpDir();
  StringTable table(dir);
  int regions = static_cast<int>(c.integer(1, 4));
  std::ofstream atlas(dir + "/1.txt");
  atlas << "1,1000,1000\n";
  for (int i = 0; i < regions; ++i) atlas << "wall," << i*100 << ",0,100,100\nroof," << i*100 << ",500,100,100\n";
  atlas.close();
  Part p;
  p.outers = {{{0, 0}, {0.0002, 0}, {0.0002, 0.0002}, {0, 0.0002}}};
  p.convex = p.rectangle = true;
  p.quads = 1;
  p.height = 10;
  p.roofColor = 1;
  p.facadeColor = 2;
  std::string css = "@texture url(\"1.txt\");\narea|z" + std::to_string(q.levelOfDetail) + "[kind=house] { builder: building; building: true; height: 10m; min-height: 0; roof-height: 2m; roof-type: flat; facade-type: flat; "
      "roof-direction: N; roof-color: gradient(#000001); facade-color: gradient(#000002); roof-texture-index: 1; roof-texture-type: roof; roof-texture-scale: 20; facade-texture-index: 1; facade-texture-type: wall; facade-texture-scale: 10; }\n";
  std::uint64_t first = static_cast<std::uint64_t>(c.integer(0, 1000000));
  c.note() << regions << " regions, buildings " << first << " and on\n";
  auto slope = anySlope(c, box);
  Bench b(q, table, css, dir + "/", slope);
  const std::size_t count = 64;
  auto build = [&](std::uint64_t id) {
    BuildingBuilder builder(b.context);
    builder.prepare();
    Area a;
    a.id = id;
    a.coordinates = coordinates(p.outers[0], box);
    addTags(a, table, {{"kind", "house"}});
    a.accept(builder);
    builder.complete();
    const auto &m = *b.meshes.back();
    auto tex = textures(m);
    std::pair<int, int> r{-1, -1};
    for (std::size_t i = 0; i < m.colors.size(); ++i) {
      bool roof = rgb(m.colors[i]) == 1;
      int k = static_cast<int>(tex[i][3])/100;
      PBT_CHECK(c, k < regions && sameTexture(tex[i], Texture{{1, 1000, 1000, k*100, roof ? 500 : 0, 100, 100}}), "texture at " << tex[i][3] << "," << tex[i][4] << " of atlas " << tex[i][0]);
      int &mine = roof ? r.first : r.second;
      PBT_CHECK(c, mine == -1 || mine == k, "one building has textures " << mine << " and " << k);
      mine = k;
    }
    return r;
  };
  std::map<std::uint64_t, std::pair<int, int>> all;
  std::set<int> roofs, walls;
  for (std::uint64_t i = first; i < first + count; ++i) {
    auto t = build(i);
    all[i] = t;
    roofs.insert(t.first);
    walls.insert(t.second);
  }
  if (regions > 1) c.nontrivial();
  PBT_CHECK(c, static_cast<int>(roofs.size()) == regions && static_cast<int>(walls.size()) == regions, count << " buildings use " << roofs.size() << " textures of roofs and " << walls.size() << " of walls, there are " << regions);
  std::uint64_t again = first + c.draw(count - 1);
  PBT_CHECK(c, build(again) == all[again], "building " << again << " has another texture when it is built again");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C20", {
      {"building", "one to three buildings: an area, a multipolygon of one or two outlines with up to two holes, or a relation of such parts (nested), of any roof and facade kind, heights as "
                   "values or from tags, textures, in both hemispheres, on sloping ground; non-trivial: not a box", 50000, 800000, building},
      {"variety", "64 buildings of a style with groups of one to four textures; non-trivial: more than one", 1500, 40000, variety},
  }, {"outlines are counter-clockwise and holes clockwise as importers make them", "a dome may start below the top of walls", "which roof kinds fall back to the flat one is not specified except for rectangles"});
}
