// C19: triangulation.
#include "mesh.hpp"
#include "model.hpp"

#include "builders/MeshBuilder.hpp"
#include "utils/GeoUtils.hpp"
#include "utils/GradientUtils.hpp"

#include <thread>

using namespace model;
using namespace meshes;
using namespace utymap::builders;
using namespace utymap::mapcss;
using utymap::math::Vector2;
using utymap::math::Vector3;
using pbt::Ctx;

namespace {

/// Heights which tell latitude from longitude.
struct Slope final : utymap::heightmap::ElevationProvider {
  QuadKey expected;
  mutable bool otherTile = false;
  double a = 0, b = 0, k = 0;
  GeoCoordinate origin;
  double at(double lat, double lon) const { return k + a*(lat - origin.latitude) + b*(lon - origin.longitude); }
  double getElevation(const QuadKey &q, const GeoCoordinate &g) const override { return getElevation(q, g.latitude, g.longitude); }
  double getElevation(const QuadKey &q, double lat, double lon) const override {
    if (!(q == expected)) otherTile = true;
    return at(lat, lon);
  }
};

struct Shape {
  std::vector<Path> outers;
  std::vector<Path> holes;   // each inside of one of outers, disjoint

  double area() const {
    double a = 0;
    for (const auto &p : outers) a += geometry::area(p);
    for (const auto &p : holes) a -= geometry::area(p);
    return a;
  }
  bool inside(const P &p) const {
    for (const auto &h : holes) if (geometry::inside(p, h)) return false;
    for (const auto &o : outers) if (geometry::inside(p, o)) return true;
    return false;
  }
  double distance(const P &p) const {
    double d = 1e300;
    for (const auto &h : holes) d = std::min(d, geometry::distanceToPath(p, h, true));
    for (const auto &h : outers) d = std::min(d, geometry::distanceToPath(p, h, true));
    return d;
  }
};

/// Hole shapes: also slivers.
Path holeShape(Ctx &c) {
  switch (c.draw(3)) {
    case 0: return geometry::star(c, 0.5, 0.5, 0.2, 0.5, 3, 8);
    case 1: {
      // thin rhombus, any direction
      double a = c.real(0, 3.1416), w = c.pick({0.2, 0.05, 0.01, 0.004});
      P u{0.5*std::cos(a), 0.5*std::sin(a)}, v{-0.5*w*std::sin(a), 0.5*w*std::cos(a)};
      return {{0.5 - u.x, 0.5 - u.y}, {0.5 - v.x, 0.5 - v.y}, {0.5 + u.x, 0.5 + u.y}, {0.5 + v.x, 0.5 + v.y}};
    }
    case 2: {
      // flat triangle
      double h = c.pick({0.3, 0.05, 0.01, 0.004}), m = c.real(0.2, 0.8);
      Path p = {{0, 0.5}, {1, 0.5}, {m, 0.5 + h}};
      if (c.boolean()) for (auto &q : p) std::swap(q.x, q.y);
      return p;
    }
    default: {
      double x = c.real(0, 0.4), y = c.real(0, 0.4), w = c.pick({0.5, 0.1, 0.01}), h = c.pick({0.5, 0.1, 0.01});
      return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
    }
  }
}

Path outline(Ctx &c) { return geometry::polygon(c); }

/// A shape in the unit square.
Shape shape(Ctx &c) {
  Shape s;
  int outers = static_cast<int>(c.small(1, 3));
  for (int i = 0; i < outers; ++i) {
    auto p = outline(c);
    p = geometry::transform(p, static_cast<double>(i)/outers + 0.005, 0.005, 0.9/outers, 0.95);
    if (!geometry::isSimple(p, 1e-4)) c.discard();
    // comb shapes are skewed: keep them apart
    for (const auto &o : s.outers) {
      for (const auto &q : p) if (geometry::inside(q, o) || geometry::distanceToPath(q, o, true) < 1e-3) c.discard();
      for (const auto &q : o) if (geometry::inside(q, p) || geometry::distanceToPath(q, p, true) < 1e-3) c.discard();
      for (std::size_t k = 0; k < p.size(); ++k)
        for (std::size_t m = 0; m < o.size(); ++m)
          if (geometry::segmentsTouch(p[k], p[(k + 1) % p.size()], o[m], o[(m + 1) % o.size()], 1e-3)) c.discard();
    }
    s.outers.push_back(p);
  }
  c.repeat(0, 4, [&](std::size_t) {
    auto h = holeShape(c);
    double size = c.real(0.03, 0.4);
    h = geometry::transform(h, c.real(0, 1), c.real(0, 1), size, size);
    if (!geometry::isSimple(h, 1e-6)) return;
    bool fits = false;
    for (const auto &o : s.outers) {
      bool all = true;
      for (const auto &q : h) if (!geometry::inside(q, o)) all = false;
      for (std::size_t k = 0; all && k < h.size(); ++k)
        for (std::size_t m = 0; m < o.size(); ++m)
          if (geometry::segmentsTouch(h[k], h[(k + 1) % h.size()], o[m], o[(m + 1) % o.size()], 2e-3)) { all = false; break; }
      if (all) fits = true;
    }
    for (const auto &o : s.holes) {
      for (std::size_t k = 0; fits && k < h.size(); ++k)
        for (std::size_t m = 0; m < o.size(); ++m)
          if (geometry::segmentsTouch(h[k], h[(k + 1) % h.size()], o[m], o[(m + 1) % o.size()], 2e-3)) { fits = false; break; }
      if (fits && (geometry::inside(h[0], o) || geometry::inside(o[0], h))) fits = false;
    }
    if (fits) s.holes.push_back(h);
  });
  return s;
}

struct Look {
  ColorGradient gradient;
  TextureRegion region;
  double colorFreq = 0, scale = 1;
  std::uint16_t textureId = 0;
  Look(Ctx &c) : gradient(makeGradient(c)) {
    if (c.boolean()) region = TextureRegion(static_cast<std::uint16_t>(c.integer(1, 2000)), static_cast<std::uint16_t>(c.integer(1, 2000)),
                                            static_cast<std::uint16_t>(c.integer(0, 500)), 7, 20, static_cast<std::uint16_t>(c.integer(1, 500)));
    if (c.boolean()) colorFreq = c.pick({0.1, 3., 5000.});
    if (c.boolean()) scale = c.pick({50., 0.5, 1000.});
    textureId = static_cast<std::uint16_t>(c.draw(3));
  }
  static ColorGradient makeGradient(Ctx &c) {
    ColorGradient::GradientData d;
    d.emplace_back(0., Color(static_cast<int>(c.draw(255)), 10, 200, 255));
    if (c.boolean()) d.emplace_back(1., Color(0, static_cast<int>(c.draw(255)), 100, 255));
    return ColorGradient(d);
  }
  MeshBuilder::AppearanceOptions options() const { return MeshBuilder::AppearanceOptions(gradient, colorFreq, textureId, region, scale); }
};

QuadKey genTile(Ctx &c) {
  int lod = static_cast<int>(c.integer(1, 19));
  int n = (1 << lod) - 1;
  return QuadKey(lod, static_cast<int>(c.integer(0, n)), static_cast<int>(c.integer(0, n)));
}

/// Adds something to a mesh, to see that it is not touched.
void prefill(Ctx &c, Mesh &m) {
  int n = static_cast<int>(c.draw(2));
  for (int i = 0; i < n*3; ++i) {
    for (int k = 0; k < 3; ++k) m.vertices.push_back(i*10 + k);
    m.colors.push_back(i);
    m.uvs.push_back(0.5);
    m.uvs.push_back(i);
    m.triangles.push_back(i);
  }
}

template<typename T>
bool startsWith(const std::vector<T> &all, const std::vector<T> &first) {
  return all.size() >= first.size() && std::equal(first.begin(), first.end(), all.begin());
}

void polygons(Ctx &c) {
  auto q = genTile(c);
  auto bb = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  auto s = shape(c);
  // part of tile used by the polygon
  double size = c.pick({1., 0.3, 0.05});
  double w = bb.width()*size, h = bb.height()*size;
  P origin{bb.minPoint.longitude + (bb.width() - w)*c.real(0, 1), bb.minPoint.latitude + (bb.height() - h)*c.real(0, 1)};

  utymap::math::Polygon polygon(16, s.holes.size());
  bool closed = c.chance(1, 4);
  std::vector<Path> contours;
  auto add = [&](Path p, bool hole) {
    if (c.boolean()) std::reverse(p.begin(), p.end());
    if (!p.empty()) std::rotate(p.begin(), p.begin() + static_cast<long>(c.draw(p.size() - 1)), p.end());
    // vertices on the edges
    if (c.chance(1, 4)) {
      Path r;
      for (std::size_t i = 0; i < p.size(); ++i) {
        r.push_back(p[i]);
        if (c.boolean()) { const P &n = p[(i + 1) % p.size()]; r.push_back({(p[i].x + n.x)/2, (p[i].y + n.y)/2}); }
      }
      p = r;
    }
    c.note() << (hole ? "hole " : "outer ") << geometry::show(p) << "\n";
    auto scaled = geometry::transform(p, origin.x, origin.y, w, h);
    contours.push_back(scaled);
    auto v = vectors(scaled);
    if (closed) v.push_back(v.front());
    if (hole) polygon.addHole(v);
    else polygon.addContour(v);
  };
  for (const auto &p : s.outers) add(p, false);
  for (const auto &p : s.holes) add(p, true);
  if (!s.holes.empty()) c.nontrivial();

  Slope ele;
  ele.expected = q;
  ele.origin = bb.minPoint;
  if (c.boolean()) { ele.a = c.real(-100, 100)/bb.height(); ele.b = c.real(-100, 100)/bb.width(); ele.k = c.real(-50, 3000); }
  MeshBuilder::GeometryOptions g(0, 0, std::numeric_limits<double>::lowest(), 0);
  bool fixedElevation = c.boolean();
  if (fixedElevation) g.elevation = c.pick({0., 10.5, -30.});
  if (c.boolean()) g.heightOffset = c.pick({5., -2., 0.25});
  g.flipSide = c.boolean();
  bool refine = c.chance(1, 2);
  double maxArea = 0;
  if (refine) {
    maxArea = w*h*c.pick({0.5, 0.1, 0.02, 0.005});
    g.area = maxArea;
    g.segmentSplit = static_cast<int>(c.draw(2));
    if (c.boolean()) g.eleNoiseFreq = c.pick({0.5, 20., 3e4});
    c.nontrivial();
  } else if (c.chance(1, 4)) {
    g.eleNoiseFreq = 10;
  }
  Look look(c);
  c.note() << show(q) << " part " << size << " area " << g.area << " split " << g.segmentSplit << " flip " << g.flipSide << " elevation " << g.elevation
           << " offset " << g.heightOffset << " noise " << g.eleNoiseFreq << "\n";

  Mesh mesh("m");
  prefill(c, mesh);
  auto v0 = mesh.vertices;
  auto t0 = mesh.triangles;
  auto c0 = mesh.colors;
  auto u0 = mesh.uvs;

  MeshBuilder builder(q, ele);
  auto options = look.options();
  pbt::noThrow("addPolygon", [&] { builder.addPolygon(mesh, polygon, g, options); });

  auto bad = malformed(mesh, false);
  PBT_CHECK(c, bad.empty(), bad);
  PBT_CHECK(c, startsWith(mesh.vertices, v0) && startsWith(mesh.triangles, t0) && startsWith(mesh.colors, c0) && startsWith(mesh.uvs, u0),
            "content which was in the mesh before is changed");
  PBT_CHECK(c, !ele.otherTile, "elevation of other tile is used");
  for (std::size_t i = t0.size(); i < mesh.triangles.size(); ++i)
    PBT_CHECK(c, mesh.triangles[i] >= static_cast<int>(v0.size()/3), "new triangle uses vertex which was in the mesh before");

  auto triangles = planar(mesh, origin, w, h, t0.size());
  double area = s.area();
  auto cover = notExactCover(c, triangles, area, 1e-7 + 1e-6*area, [&](const P &p) { return s.inside(p); },
                             [&](const P &p) { return s.distance(p); }, {0, 0, 1, 1}, 20, 1e-7);
  PBT_CHECK(c, cover.empty(), cover);
  for (const auto &t : triangles) {
    PBT_CHECK(c, (t.signedArea() > 0) == g.flipSide, "triangle of area " << t.signedArea() << " faces the wrong side");
    if (refine && g.segmentSplit == 0)
      PBT_CHECK(c, std::fabs(t.signedArea())*w*h <= maxArea*(1 + 1e-6), "triangle of area " << std::fabs(t.signedArea())*w*h << " but asked for " << maxArea);
  }

  // vertices
  std::vector<bool> used(contours.size(), false);
  std::vector<P> corners;
  for (const auto &p : contours) corners.insert(corners.end(), p.begin(), p.end());
  std::vector<bool> found(corners.size(), false);
  for (std::size_t i = v0.size()/3; i < mesh.vertices.size()/3; ++i) {
    P p{mesh.vertices[i*3], mesh.vertices[i*3 + 1]};
    double z = mesh.vertices[i*3 + 2];
    P unit{(p.x - origin.x)/w, (p.y - origin.y)/h};
    double d = s.distance(unit);
    bool border = d < 1e-7;
    bool corner = false;
    for (std::size_t k = 0; k < corners.size(); ++k)
      if (std::fabs(p.x - corners[k].x) < 1e-9*w && std::fabs(p.y - corners[k].y) < 1e-9*h) corner = found[k] = true;
    PBT_CHECK(c, border || s.inside(unit), "vertex " << unit.x << "," << unit.y << " is not in the polygon");
    if (!refine) PBT_CHECK(c, corner, "vertex " << unit.x << "," << unit.y << " is not a vertex of the polygon");
    if (refine && g.segmentSplit >= 1) PBT_CHECK(c, corner || !border, "new vertex " << unit.x << "," << unit.y << " on the boundary");
    double expected = g.heightOffset + (fixedElevation ? g.elevation : ele.at(p.y, p.x));
    double noise = g.eleNoiseFreq > 0 && !border ? utymap::utils::NoiseUtils::perlin2D(p.x, p.y, g.eleNoiseFreq) : 0;
    PBT_CHECK(c, std::fabs(z - expected - noise) < 1e-6*(1 + std::fabs(expected)), "vertex " << unit.x << "," << unit.y << " (border " << border << ") has height " << z
        << " but should have " << expected << " + noise " << noise);
    std::uint32_t color = utymap::utils::GradientUtils::getColor(look.gradient, p.x, p.y, look.colorFreq);
    PBT_CHECK(c, static_cast<std::uint32_t>(mesh.colors[i]) == color, "color of vertex " << i);
    double u = look.region.isEmpty() ? 0 : (p.x - bb.minPoint.longitude)/bb.width()*look.scale;
    double v = look.region.isEmpty() ? 0 : (p.y - bb.minPoint.latitude)/bb.height()*look.scale;
    PBT_CHECK(c, std::fabs(mesh.uvs[i*2] - u) < 1e-6*(1 + look.scale) && std::fabs(mesh.uvs[i*2 + 1] - v) < 1e-6*(1 + look.scale),
              "texture coordinates " << mesh.uvs[i*2] << "," << mesh.uvs[i*2 + 1] << " of vertex " << unit.x << "," << unit.y << " should be " << u << "," << v);
  }
  for (std::size_t k = 0; k < corners.size(); ++k) PBT_CHECK(c, found[k], "vertex " << k << " of the polygon is not in the mesh");
}

// ---- planes and triangles ----------------------------------------------------------------------------------------------
struct V3 {
  double x, y, z;
};
V3 vertexAt(const Mesh &m, std::size_t i) { return {m.vertices[i*3], m.vertices[i*3 + 1], m.vertices[i*3 + 2]}; }
V3 sub(const V3 &a, const V3 &b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V3 crossOf(const V3 &a, const V3 &b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
double length(const V3 &a) { return std::sqrt(a.x*a.x + a.y*a.y + a.z*a.z); }
double dotOf(const V3 &a, const V3 &b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
V3 normal(const Mesh &m, std::size_t triangle) {
  auto a = vertexAt(m, static_cast<std::size_t>(m.triangles[triangle*3])), b = vertexAt(m, static_cast<std::size_t>(m.triangles[triangle*3 + 1])),
      cc = vertexAt(m, static_cast<std::size_t>(m.triangles[triangle*3 + 2]));
  return crossOf(sub(b, a), sub(cc, a));
}

void primitives(Ctx &c) {
  QuadKey q = genTile(c);
  auto bb = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  Slope ele;
  ele.expected = q;
  ele.origin = bb.minPoint;
  ele.a = c.real(-100, 100)/bb.height();
  ele.b = c.real(-100, 100)/bb.width();
  Look look(c);
  auto options = look.options();
  MeshBuilder builder(q, ele);
  Mesh mesh("m");
  prefill(c, mesh);
  auto point = [&] { return P{bb.minPoint.longitude + bb.width()*c.real(0, 1), bb.minPoint.latitude + bb.height()*c.real(0, 1)}; };
  c.repeat(1, 4, [&](std::size_t) {
    auto v0 = mesh.vertices;
    auto t0 = mesh.triangles;
    auto c0 = mesh.colors;
    auto u0 = mesh.uvs;
    MeshBuilder::GeometryOptions g(0, 0, std::numeric_limits<double>::lowest(), c.pick({5., 0.5, 100.}));
    if (c.boolean()) g.elevation = c.real(-10, 500);
    P a = point(), b = point();
    std::size_t first = v0.size()/3, tri = t0.size()/3;
    auto common = [&] {
      auto bad = malformed(mesh, false);
      PBT_CHECK(c, bad.empty(), bad);
      PBT_CHECK(c, startsWith(mesh.vertices, v0) && startsWith(mesh.triangles, t0) && startsWith(mesh.colors, c0) && startsWith(mesh.uvs, u0),
                "content which was in the mesh before is changed");
      for (std::size_t i = t0.size(); i < mesh.triangles.size(); ++i)
        PBT_CHECK(c, mesh.triangles[i] >= static_cast<int>(first), "new triangle uses vertex " << mesh.triangles[i] << " which was in the mesh before");
    };
    switch (c.draw(2)) {
      case 0:
      case 1: {
        // vertical plane
        if (geometry::dist(a, b) < bb.width()*1e-3) c.discard();
        bool is3 = c.boolean();
        double ea, eb;
        if (is3) {
          ea = c.real(-10, 200), eb = c.real(-10, 200);
          c.note() << "plane from " << a.x << "," << ea << "," << a.y << " to " << b.x << "," << eb << "," << b.y << " offset " << g.heightOffset << "\n";
          builder.addPlane(mesh, Vector3(a.x, ea, a.y), Vector3(b.x, eb, b.y), g, options);
        } else {
          bool fixedElevation = g.elevation > std::numeric_limits<double>::lowest();
          ea = fixedElevation ? g.elevation : ele.at(a.y, a.x);
          eb = fixedElevation ? g.elevation : ele.at(b.y, b.x);
          if (c.boolean()) g.eleNoiseFreq = 100/bb.width();
          ea += utymap::utils::NoiseUtils::perlin2D(a.x, a.y, g.eleNoiseFreq);
          eb += utymap::utils::NoiseUtils::perlin2D(b.x, b.y, g.eleNoiseFreq);
          c.note() << "plane from " << a.x << "," << a.y << " to " << b.x << "," << b.y << " offset " << g.heightOffset << " elevation " << g.elevation << "\n";
          builder.addPlane(mesh, Vector2(a.x, a.y), Vector2(b.x, b.y), g, options);
        }
        common();
        c.nontrivial();
        PBT_CHECK(c, mesh.triangles.size() == t0.size() + 6, "plane has " << (mesh.triangles.size() - t0.size())/3 << " triangles");
        // scaled so that all sides are comparable
        double wx = bb.width();
        auto at = [&](std::size_t corner) {
          auto v = vertexAt(mesh, static_cast<std::size_t>(mesh.triangles[corner]));
          return V3{(v.x - a.x)/wx, (v.y - a.y)/wx, v.z/100};
        };
        double total = 0;
        V3 n0{0, 0, 0};
        std::multiset<std::string> corners;
        for (int k = 0; k < 2; ++k) {
          auto p0 = at((tri + static_cast<std::size_t>(k))*3), p1 = at((tri + static_cast<std::size_t>(k))*3 + 1), p2 = at((tri + static_cast<std::size_t>(k))*3 + 2);
          auto n = crossOf(sub(p1, p0), sub(p2, p0));
          if (k == 0) n0 = n;
          else PBT_CHECK(c, dotOf(n0, n) > 0, "halves of the plane face different sides");
          total += length(n)/2;
        }
        double l = geometry::dist(a, b)/wx, hh = g.heightOffset/100;
        double expected = l*hh;   // parallelogram with vertical sides
        PBT_CHECK(c, std::fabs(total - expected) < 1e-6*(1 + expected), "area of the plane is " << total << " but should be " << expected);
        // each vertex is one of four corners, each corner is there
        bool seen[4] = {false, false, false, false};
        for (std::size_t i = first; i < mesh.vertices.size()/3; ++i) {
          auto v = vertexAt(mesh, i);
          bool isA = std::fabs(v.x - a.x) + std::fabs(v.y - a.y) < 1e-9*wx, isB = std::fabs(v.x - b.x) + std::fabs(v.y - b.y) < 1e-9*wx;
          PBT_CHECK(c, isA || isB, "vertex " << v.x << "," << v.y << " is at neither end");
          double e = isA ? ea : eb;
          bool low = std::fabs(v.z - e) < 1e-6*(1 + std::fabs(e)), high = std::fabs(v.z - e - g.heightOffset) < 1e-6*(1 + std::fabs(e));
          PBT_CHECK(c, low || high, "height " << v.z << " at " << (isA ? "first" : "second") << " end: should be " << e << " or " << e + g.heightOffset);
          seen[(isA ? 0 : 1) + (low ? 0 : 2)] = true;
          // texture: along the plane and upwards
          double u = mesh.uvs[i*2], vv = mesh.uvs[i*2 + 1];
          PBT_CHECK(c, isA ? u == 0 : std::fabs(u - geometry::dist(a, b)/wx*look.scale) < 1e-6*(1 + look.scale), "texture coordinate " << u << " along the plane");
          double up = utymap::utils::GeoUtils::getOffset(GeoCoordinate(0, 0), g.heightOffset)/wx*look.scale;
          PBT_CHECK(c, low ? vv == 0 : std::fabs(vv - up) < 0.01*up, "texture coordinate " << vv << " up the plane, should be " << up);
        }
        PBT_CHECK(c, seen[0] && seen[1] && seen[2] && seen[3], "a corner of the plane is missing");
        break;
      }
      default: {
        P d = point();
        g.hasBackSide = c.boolean();
        V3 p[3] = {{a.x, a.y, c.real(0, 100)}, {b.x, b.y, c.real(0, 100)}, {d.x, d.y, c.real(0, 100)}};
        c.note() << "triangle" << (g.hasBackSide ? " with back side" : "") << "\n";
        builder.addTriangle(mesh, Vector3(p[0].x, p[0].z, p[0].y), Vector3(p[1].x, p[1].z, p[1].y), Vector3(p[2].x, p[2].z, p[2].y),
                            Vector2(0, 0), Vector2(1, 0), Vector2(1, 1), g, options);
        common();
        std::size_t count = g.hasBackSide ? 2 : 1;
        PBT_CHECK(c, mesh.triangles.size() == t0.size() + 3*count, "number of triangles");
        PBT_CHECK(c, mesh.vertices.size() == v0.size() + 9*count, "number of vertices");
        for (std::size_t k = 0; k < 3; ++k) {
          auto v = vertexAt(mesh, static_cast<std::size_t>(mesh.triangles[tri*3 + k]));
          PBT_CHECK(c, v.x == p[k].x && v.y == p[k].y && v.z == p[k].z, "vertex " << k << " of triangle");
          auto i = static_cast<std::size_t>(mesh.triangles[tri*3 + k]);
          PBT_CHECK(c, mesh.uvs[i*2] == (k == 0 ? 0 : 1) && mesh.uvs[i*2 + 1] == (k == 2 ? 1 : 0), "texture coordinates of vertex " << k);
        }
        if (g.hasBackSide) {
          c.nontrivial();
          // same corners the other way round
          for (std::size_t k = 0; k < 3; ++k) {
            auto v = vertexAt(mesh, static_cast<std::size_t>(mesh.triangles[(tri + 1)*3 + k]));
            PBT_CHECK(c, v.x == p[2 - k].x && v.y == p[2 - k].y && v.z == p[2 - k].z, "vertex " << k << " of the back side");
          }
        }
      }
    }
  });
}

// ---- threads -----------------------------------------------------------------------------------------------------------
void threads(Ctx &c) {
  QuadKey q = genTile(c);
  auto bb = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  Slope ele;
  ele.expected = q;
  std::vector<Shape> shapes;
  for (int i = 0; i < 4; ++i) shapes.push_back(shape(c));
  Look look(c);
  auto options = look.options();
  MeshBuilder builder(q, ele);
  auto build = [&](const Shape &s, Mesh &m) {
    utymap::math::Polygon polygon(16, s.holes.size());
    for (const auto &p : s.outers) polygon.addContour(vectors(geometry::transform(p, bb.minPoint.longitude, bb.minPoint.latitude, bb.width(), bb.height())));
    for (const auto &p : s.holes) polygon.addHole(vectors(geometry::transform(p, bb.minPoint.longitude, bb.minPoint.latitude, bb.width(), bb.height())));
    MeshBuilder::GeometryOptions g(bb.width()*bb.height()*0.003, 0, 0, 0);
    builder.addPolygon(m, polygon, g, options);
  };
  std::vector<Mesh> alone, together;
  for (std::size_t i = 0; i < shapes.size(); ++i) {
    alone.emplace_back("m");
    together.emplace_back("m");
  }
  for (std::size_t i = 0; i < shapes.size(); ++i) build(shapes[i], alone[i]);
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < shapes.size(); ++i)
    ts.emplace_back([&, i] {
      for (int k = 0; k < 3; ++k) {
        together[i].clear();
        build(shapes[i], together[i]);
      }
    });
  for (auto &t : ts) t.join();
  c.nontrivial();
  for (std::size_t i = 0; i < shapes.size(); ++i)
    PBT_CHECK(c, alone[i].vertices == together[i].vertices && alone[i].triangles == together[i].triangles, "mesh " << i << " built by several threads differs from one built alone");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C19", {
      {"polygons", "one to three simple outlines (rectangles, stars, combs, zigzag bands) with up to four holes (stars, slivers, flat triangles, rectangles), any orientation, start and "
                   "closing, in a tile at zoom 1-19, with elevation, offset, noise, refinement area, segment splitting, colours and texture; non-trivial: with a hole or refined",
       20000, 400000, polygons},
      {"primitives", "walls and triangles with and without back side added to a filled mesh; non-trivial: a wall or a back side", 60000, 800000, primitives},
      {"threads", "four shapes triangulated at the same time by four threads and alone; non-trivial: all", 1000, 10000, threads},
  }, {"outlines and holes keep a distance of 0.1% of the extent from each other; polygons which touch themselves are outside of the domain"});
}
