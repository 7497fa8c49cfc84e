// C18: terrain of a tile.
#include "mesh.hpp"
#include "style.hpp"

#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "builders/terrain/TerraBuilder.hpp"

#include <array>
#include <fstream>

using namespace model;
using namespace meshes;
using namespace utymap::builders;
using pbt::Ctx;

namespace {

struct Slope final : utymap::heightmap::ElevationProvider {
  double a = 0, b = 0, k = 0;
  GeoCoordinate origin;
  double at(double lat, double lon) const { return k + a*(lat - origin.latitude) + b*(lon - origin.longitude); }
  double getElevation(const QuadKey &, const GeoCoordinate &g) const override { return at(g.latitude, g.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};

/// One surface: what covers it and how it looks. Coordinates are in the unit square of the tile.
struct Surface {
  std::vector<Path> outers, holes;
  Path line;
  double width = 0;      // of the line, to both sides
  int look = 0;          // index of Look

  double lineDistance(const P &p) const {   // in stretched coordinates, see Scene::aspect
    return geometry::distanceToPath(p, line, false);
  }
};

struct Appearance {
  int color = 0;
  double offset = 0;
  bool noise = false;
  std::string meshName;
  int order = 0;         // sort order of the layer
  std::array<int, 7> texture{{0, 0, 0, 0, 0, 0, 0}};   // atlas, its size, region
  double scale = 1;
};

/// Whether the coordinate is on the border of the tile, which is rounded to 1e-7 degrees as all the coordinates of terrain.
bool onBorder(double v, double min, double max) {
  auto near = [&](double b) { return std::fabs(v - b) < 1e-12 || std::fabs(v - static_cast<double>(static_cast<long long>(b*1e7))/1e7) < 1e-12; };
  return near(min) || near(max);
}

struct Scene {
  QuadKey q;
  BoundingBox box;
  std::vector<Appearance> looks;    // 0 is background
  std::vector<Surface> surfaces;

  P unit(double lon, double lat) const { return {(lon - box.minPoint.longitude)/box.width(), (lat - box.minPoint.latitude)/box.height()}; }
  /// Line widths are in degrees in both directions.
  P degrees(const P &p) const { return {p.x*box.width(), p.y*box.height()}; }

  /// -1 unknown, 0 outside, 1 inside
  int covers(const Surface &s, const P &p, double eps) const {
    if (s.line.empty()) {
      bool in = false;
      for (const auto &o : s.outers) {
        if (geometry::distanceToPath(p, o, true) < eps) return -1;
        if (geometry::inside(p, o)) in = true;
      }
      for (const auto &h : s.holes) {
        if (geometry::distanceToPath(p, h, true) < eps) return -1;
        if (geometry::inside(p, h)) in = false;
      }
      return in ? 1 : 0;
    }
    Path l;
    for (const auto &x : s.line) l.push_back(degrees(x));
    double d = geometry::distanceToPath(degrees(p), l, false), tolerance = eps*std::max(box.width(), box.height());
    if (d < s.width*0.88 - tolerance) return 1;   // arcs around turns are polygons
    if (d > s.width*1.001 + tolerance) return 0;
    return -1;
  }
};

QuadKey genTile(Ctx &c) {
  int lod = static_cast<int>(c.integer(1, 18));
  int n = (1 << lod) - 1;
  int y = static_cast<int>(c.integer(0, n));
  return QuadKey(lod, static_cast<int>(c.integer(0, n)), y);
}

Path unitPolygon(Ctx &c, const BoundingBox &box) {
  switch (c.draw(4)) {
    case 0:
    case 1: {
      // rectangle on a coarse grid: shares borders with others and with the tile
      int x0 = static_cast<int>(c.integer(0, 7)), y0 = static_cast<int>(c.integer(0, 7));
      int x1 = static_cast<int>(c.integer(x0 + 1, 8)), y1 = static_cast<int>(c.integer(y0 + 1, 8));
      return {{x0/8., y0/8.}, {x1/8., y0/8.}, {x1/8., y1/8.}, {x0/8., y1/8.}};
    }
    case 2: {
      double x = c.real(0, 0.7), y = c.real(0, 0.7), w = c.real(0.05, 0.3), h = c.real(0.05, 0.3);
      return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
    }
    case 4: {
      // as small as some square meters
      double w = std::min(0.2, c.pick({6e-6, 1.5e-5, 6e-5})/box.width()), h = std::min(0.2, c.pick({6e-6, 1.5e-5, 6e-5})/box.height());
      double x = c.real(0, 1 - w), y = c.real(0, 1 - h);
      c.label("small");
      return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
    }
    default: {
      auto p = geometry::polygon(c);
      double size = c.real(0.1, 1);
      p = geometry::transform(p, c.real(0, 1 - size), c.real(0, 1 - size), size, size);
      if (!geometry::isSimple(p, 1e-3)) c.discard();
      geometry::Path inBox = p;
      for (const auto &v : p) if (v.x < 0 || v.x > 1 || v.y < 0 || v.y > 1) c.discard();
      return p;
    }
  }
}

std::string hex(int color) {
  char s[16];
  std::snprintf(s, sizeof s, "#%06x", color);
  return s;
}

bool sameTexture(const std::array<int, 7> &got, const std::array<int, 7> &want) {
  if (want[1] == 0) return got[1] == 0;   // no texture: no atlas
  return got == want;
}

void terrain(Ctx &c) {
  Scene scene;
  scene.q = genTile(c);
  scene.box = utymap::utils::GeoUtils::quadKeyToBoundingBox(scene.q);
  const auto &box = scene.box;
  const std::string dir = c.tmpDir();
  StringTable table(dir);
  std::ostringstream css;
  const bool textured = c.boolean();
  const std::vector<std::pair<std::string, std::array<int, 7>>> textures = {
      {"grass", {{1, 1024, 512, 0, 0, 100, 50}}}, {"rock", {{1, 1024, 512, 100, 0, 100, 50}}}, {"grass", {{2, 64, 64, 5, 6, 7, 8}}}};
  if (textured) {
    std::ofstream(dir + "/1.txt") << "1,1024,512\ngrass,0,0,100,50\nrock,100,0,100,50\n";
    std::ofstream(dir + "/2.txt") << "2,64,64\ngrass,5,6,7,8\n";
    css << "@texture url(\"1.txt\");\n@texture url(\"2.txt\");\n";
  }
  const std::string z = "|z" + std::to_string(scene.q.levelOfDetail);

  auto options = [&](const std::string &prefix, Appearance &a) {
    css << prefix << "color: gradient(" << hex(a.color) << "); ";
    if (c.boolean()) css << prefix << "max-area: " << c.pick({"20%", "5%", "1%", "0.3%"}) << "; ";
    if (c.chance(1, 3)) { a.offset = c.pick({2., -1., 0.5}); css << prefix << "height-offset: " << a.offset << "; "; }
    if (c.chance(1, 3)) { a.noise = true; css << prefix << "ele-noise-freq: " << c.pick({0.5, 20., 3e4}) << "; "; }
    if (textured && c.chance(2, 3)) {
      auto t = c.pick(textures);
      a.texture = t.second;
      css << prefix << "texture-index: " << t.second[0] << "; " << prefix << "texture-type: " << t.first << "; ";
    }
    if (c.chance(1, 3)) { a.scale = c.pick({20., 0.5}); css << prefix << "texture-scale: " << a.scale << "; "; }
  };

  // background and named layers
  const std::vector<std::string> names = {"earth", "water", "road"};
  std::vector<int> orders = {3, 8, -2};
  if (c.boolean()) std::reverse(orders.begin(), orders.end());
  if (c.boolean()) std::swap(orders[0], orders[1]);
  css << "canvas" << z << " { ";
  double cell = c.pick({0.25, 0.1, 0.05, 0.02});
  css << "grid-cell-size: " << cell*100 << "%; ";
  scene.looks.emplace_back();
  scene.looks[0].color = 1;
  options("", scene.looks[0]);
  for (std::size_t i = 0; i < names.size(); ++i) {
    Appearance a;
    a.color = 0x100*static_cast<int>(i + 1);
    a.order = orders[i];
    options(names[i] + "-", a);
    css << names[i] << "-sort-order: " << orders[i] << "; ";
    if (c.chance(1, 3)) { a.meshName = "mesh_" + names[i]; css << names[i] << "-mesh-name: " << a.meshName << "; "; }
    scene.looks.push_back(a);
  }
  css << "}\n";

  // elements
  std::vector<std::shared_ptr<Element>> elements;
  bool levels = false;
  auto coordinates = [&](const Path &p) {
    std::vector<GeoCoordinate> r;
    for (const auto &v : p) r.emplace_back(box.minPoint.latitude + v.y*box.height(), box.minPoint.longitude + v.x*box.width());
    return r;
  };
  c.repeat(1, 7, [&](std::size_t i) {
    Surface s;
    std::uint64_t id = i + 1;
    TextTags tags = {{"id", "e" + std::to_string(id)}};
    auto kind = c.draw(3);
    std::shared_ptr<Element> e;
    bool reversed = c.chance(1, 3) && kind <= 1;   // members of relations are oriented when they are imported
    std::string selector;
    if (kind <= 1) {
      selector = "area";
      auto p = unitPolygon(c, box);
      s.outers.push_back(p);
      if (reversed) std::reverse(p.begin(), p.end());
      auto a = std::make_shared<Area>();
      a->coordinates = coordinates(p);
      e = a;
      c.note() << "area " << (reversed ? "reversed " : "") << geometry::show(p);
    } else if (kind == 2) {
      selector = "relation";
      auto outer = unitPolygon(c, box);
      s.outers.push_back(outer);
      // hole is the outline made smaller, or a small star inside
      P center{0, 0};
      for (const auto &v : outer) { center.x += v.x/static_cast<double>(outer.size()); center.y += v.y/static_cast<double>(outer.size()); }
      Path hole = geometry::star(c, 0, 0, 0.3, 1, 3, 7);
      double size = geometry::distanceToPath(center, outer, true)*c.real(0.3, 0.9);
      hole = geometry::transform(hole, center.x, center.y, size, size);
      bool ok = geometry::inside(center, outer) && size > 0.01 && geometry::isSimple(hole, 1e-3);
      auto r = std::make_shared<Relation>();
      auto add = [&](Path p) {
        if (reversed) std::reverse(p.begin(), p.end());
        auto a = std::make_shared<Area>();
        a->id = 100*id + r->elements.size();
        a->coordinates = coordinates(p);
        r->elements.push_back(a);
      };
      add(outer);
      c.note() << "relation " << (reversed ? "reversed " : "") << geometry::show(outer);
      if (ok) {
        s.holes.push_back(hole);
        c.note() << " hole " << geometry::show(hole);
        std::reverse(hole.begin(), hole.end());
        add(hole);
      }
      // member styles come from the relation when members have no tags
      e = r;
    } else {
      selector = "way";
      Path p;
      c.repeat(2, 5, [&](std::size_t) { p.push_back({c.real(0, 1), c.real(0, 1)}); });
      for (std::size_t k = 0; k + 1 < p.size(); ++k) if (geometry::dist(p[k], p[k + 1]) < 0.02) c.discard();
      s.line = p;
      s.width = box.height()*c.pick({0.01, 0.03, 0.1});
      auto w = std::make_shared<Way>();
      w->coordinates = coordinates(p);
      e = w;
      c.note() << "way " << geometry::show(p) << " width " << s.width;
    }
    e->id = id;
    std::ostringstream rule;
    std::size_t layer = c.draw(3);
    std::string any = selector == "relation" ? "relation,area" : selector;
    css << (selector == "relation" ? "area" + z + "[id=e" + std::to_string(id) + "],relation" : selector) << z << "[id=e" << id << "] { builder: terrain; ";
    if (selector == "way") {
      switch (c.draw(1)) {
        case 0: css << "width: " << s.width/box.height()*100 << "%; "; break;
        default: css << "width: eval(\"tag('w')\"); dimension: 1%; "; tags.emplace_back("w", pbt::str(s.width/box.height()*100));
      }
    }
    if (layer < names.size()) {
      css << "terrain-layer: " << names[layer] << "; ";
      s.look = static_cast<int>(layer) + 1;
      if (c.chance(1, 6)) { levels = true; css << "level: " << c.pick({1, -1, 2}) << "; "; }
      c.note() << " in " << names[layer] << "\n";
    } else {
      Appearance a;
      a.color = static_cast<int>(0x10000*id);
      options("", a);
      if (c.chance(1, 4)) { a.meshName = "mesh_" + std::to_string(id); css << "mesh-name: " << a.meshName << "; "; }
      s.look = static_cast<int>(scene.looks.size());
      scene.looks.push_back(a);
      c.note() << " alone\n";
    }
    css << "}\n";
    addTags(*e, table, tags);
    elements.push_back(e);
    scene.surfaces.push_back(s);
  });
  c.note() << show(scene.q) << "\n" << css.str();
  if (scene.surfaces.size() > 1) c.nontrivial();

  Slope ele;
  ele.origin = box.minPoint;
  if (c.boolean()) { ele.a = c.real(-100, 100)/box.height(); ele.b = c.real(-100, 100)/box.width(); ele.k = c.real(-50, 3000); }

  auto styles = provider(css.str(), table, dir + "/");
  Path points;
  for (int i = 0; i < 40; ++i) { double x = c.real(0, 1); points.push_back({x, c.real(0, 1)}); }
  bool geometric = false;   // the failure is about the geometry of the result
  auto judge = [&](double nudge) {
  geometric = false;
  MeshPool pool;
  utymap::CancellationToken token;
  std::vector<std::unique_ptr<Mesh>> delivered;
  BuilderContext context(scene.q, *styles, table, pool, ele, [&](const Mesh &m) {
    delivered.emplace_back(new Mesh(m.name));
    auto &t = *delivered.back();
    t.vertices = m.vertices;
    t.triangles = m.triangles;
    t.colors = m.colors;
    t.uvs = m.uvs;
    t.uvMap = m.uvMap;
  }, [](const Element &) {}, token);
  std::vector<std::string> before, after;
  for (const auto &e : elements) before.push_back(describe(*e));
  pbt::noThrow("terrain builder", [&] {
    TerraBuilder builder(context);
    for (const auto &e : elements) e->accept(builder);
    builder.complete();
  });
  for (const auto &e : elements) after.push_back(describe(*e));
  PBT_CHECK(c, before == after, "the builder changed an element: " << difference(before, after));

  // ---- oracle
  const double degree = 6e-7 + nudge;   // coordinates are rounded to 1e-7, points nearer than 1.4e-7 merged
  double eps = 1e-7 + degree/std::min(box.width(), box.height());
  if (eps > (nudge > 0 ? 0.05 : 0.01)) c.discard();
  struct Tri {
    Triangle t;
    int look;
  };
  std::vector<Tri> surface;
  typedef std::pair<std::pair<double, double>, std::pair<double, double>> Edge;   // of exact coordinates, without direction
  std::map<int, std::map<Edge, int>> edges, walls;
  struct Noise {
    int look;
    std::pair<double, double> at;
    double height;
  };
  std::vector<Noise> noisy;
  auto edge = [](const Mesh &m, int a, int b) {
    std::pair<double, double> p(m.vertices[static_cast<std::size_t>(a)*3], m.vertices[static_cast<std::size_t>(a)*3 + 1]),
        q(m.vertices[static_cast<std::size_t>(b)*3], m.vertices[static_cast<std::size_t>(b)*3 + 1]);
    return p < q ? Edge(p, q) : Edge(q, p);
  };
  std::map<int, int> lookOf;
  for (std::size_t i = 0; i < scene.looks.size(); ++i) lookOf[scene.looks[i].color] = static_cast<int>(i);
  std::set<std::string> meshNames = {"terrain_surface"};
  for (const auto &l : scene.looks) meshNames.insert(l.meshName);
  int surfaces = 0;
  for (const auto &m : delivered) {
    PBT_CHECK(c, meshNames.count(m->name) && !m->name.empty(), "mesh named " << m->name);
    if (m->name == "terrain_surface") ++surfaces;
    auto bad = malformed(*m, true);
    PBT_CHECK(c, bad.empty(), m->name << ": " << bad);
    // texture of each vertex
    std::vector<std::array<int, 7>> texture;
    for (std::size_t i = 0; i < m->uvMap.size(); i += 8)
      while (texture.size()*2 < static_cast<std::size_t>(m->uvMap[i])) {
        texture.emplace_back();
        std::copy(m->uvMap.begin() + static_cast<std::ptrdiff_t>(i) + 1, m->uvMap.begin() + static_cast<std::ptrdiff_t>(i) + 8, texture.back().begin());
      }
    auto triangles = planar(*m, {box.minPoint.longitude, box.minPoint.latitude}, box.width(), box.height());
    for (std::size_t k = 0; k < triangles.size(); ++k) {
      int look = -1;
      const int *i3 = &m->triangles[k*3];
      // two corners of a wall are one above another, as far as the offset is
      bool wall = false;
      {
        auto it = lookOf.find((m->colors[static_cast<std::size_t>(i3[0])] >> 8) & 0xffffff);
        PBT_CHECK(c, it != lookOf.end(), "color " << m->colors[static_cast<std::size_t>(i3[0])] << " of a vertex of " << m->name);
        double offset = scene.looks[static_cast<std::size_t>(it->second)].offset;
        for (int n = 0; n < 3; ++n) {
          auto e = edge(*m, i3[n], i3[(n + 1) % 3]);
          double h0 = m->vertices[static_cast<std::size_t>(i3[n])*3 + 2], h1 = m->vertices[static_cast<std::size_t>(i3[(n + 1) % 3])*3 + 2];
          if (offset != 0 && e.first == e.second && std::fabs(std::fabs(h0 - h1) - std::fabs(offset)) < 1e-6) wall = true;
        }
      }
      for (int n = 0; n < 3; ++n) {
        auto v = static_cast<std::size_t>(m->triangles[k*3 + static_cast<std::size_t>(n)]);
        auto it = lookOf.find((m->colors[v] >> 8) & 0xffffff);
        PBT_CHECK(c, it != lookOf.end(), "color " << m->colors[v] << " of a vertex of " << m->name);
        PBT_CHECK(c, look < 0 || look == it->second, "triangle has vertices of different regions");
        look = it->second;
        const auto &l = scene.looks[static_cast<std::size_t>(look)];
        double lon = m->vertices[v*3], lat = m->vertices[v*3 + 1], height = m->vertices[v*3 + 2];
        auto u = scene.unit(lon, lat);
        PBT_CHECK(c, u.x > -eps && u.x < 1 + eps && u.y > -eps && u.y < 1 + eps, "vertex " << u.x << "," << u.y << " is outside of the tile");
        double expected = ele.at(lat, lon), h = height - expected;
        if (!wall && l.noise) noisy.push_back({look, {lon, lat}, h - l.offset});
        double tolerance = 1e-6*(1 + std::fabs(expected)) + (l.noise ? 1.0 : 0);
        PBT_CHECK(c, sameTexture(texture[v], l.texture), (wall ? "wall" : "vertex") << " has texture of atlas " << texture[v][0] << " at " << texture[v][3] << "," << texture[v][4]
            << " should be of atlas " << l.texture[0] << " at " << l.texture[3] << "," << l.texture[4]);
        if (!wall) {
          double tu = l.texture[0] ? (lon - box.minPoint.longitude)/box.width()*l.scale : 0, tv = l.texture[0] ? (lat - box.minPoint.latitude)/box.height()*l.scale : 0;
          PBT_CHECK(c, std::fabs(m->uvs[v*2] - tu) < 1e-6*l.scale && std::fabs(m->uvs[v*2 + 1] - tv) < 1e-6*l.scale,
                    "texture coordinates " << m->uvs[v*2] << "," << m->uvs[v*2 + 1] << " should be " << tu << "," << tv);
        }
        // walls fit to ends of surfaces, which have no noise there
        if (wall) PBT_CHECK(c, std::min(std::fabs(h), std::fabs(h - l.offset)) < 1e-6*(1 + std::fabs(expected)), "height of wall: " << h << " above the elevation, offset " << l.offset);
        else PBT_CHECK(c, std::fabs(h - l.offset) < tolerance, "height of " << u.x << "," << u.y << " is " << height << ", elevation " << expected << " offset " << l.offset << " noise " << l.noise);
      }
      const auto &l = scene.looks[static_cast<std::size_t>(look)];
      if (wall) {
        // the longest side seen from above
        Edge longest;
        double length = -1;
        for (int n = 0; n < 3; ++n) {
          auto e = edge(*m, i3[n], i3[(n + 1) % 3]);
          double d = std::hypot(e.first.first - e.second.first, e.first.second - e.second.second);
          if (d > length) { length = d; longest = e; }
        }
        if (length > 0) ++walls[look][longest];
      } else {
        PBT_CHECK(c, m->name == (l.meshName.empty() ? "terrain_surface" : l.meshName), "region of mesh " << l.meshName << " is in mesh " << m->name);
        PBT_CHECK(c, triangles[k].signedArea() < 1e-12, "triangle faces down");
        surface.push_back({triangles[k], look});
        for (int n = 0; n < 3; ++n) ++edges[look][edge(*m, i3[n], i3[(n + 1) % 3])];
      }
    }
  }
  PBT_CHECK(c, surfaces == 1, "surface mesh is delivered " << surfaces << " times");

  // there is no noise where the mesh ends on the border of the tile: it should fit to the mesh of the next tile. The mesh may
  // have other vertices which are at the border but not where it ends (they cannot be told by their coordinates).
  for (const auto &byLook : edges) {
    std::set<std::pair<double, double>> ends;
    for (const auto &e : byLook.second) {
      const auto &p = e.first.first, &q = e.first.second;
      if (e.second != 1) continue;
      if ((p.first == q.first && onBorder(p.first, box.minPoint.longitude, box.maxPoint.longitude)) ||
          (p.second == q.second && onBorder(p.second, box.minPoint.latitude, box.maxPoint.latitude))) { ends.insert(p); ends.insert(q); }
    }
    for (const auto &n : noisy)
      if (n.look == byLook.first && ends.count(n.at)) {
        auto u = scene.unit(n.at.first, n.at.second);
        PBT_CHECK(c, std::fabs(n.height) < 1e-6*(1 + std::fabs(ele.at(n.at.second, n.at.first))), "border of the tile is " << n.height << " above the elevation at " << u.x << "," << u.y);
        c.label("border without noise");
      }
  }
  geometric = true;
  // segments which touch each other are split
  auto nearAny = [](const Edge &e, const std::map<Edge, int> &others) {
    P middle{(e.first.first + e.second.first)/2, (e.first.second + e.second.second)/2};
    for (const auto &o : others)
      if (geometry::distanceToSegment(middle, {o.first.first.first, o.first.first.second}, {o.first.second.first, o.first.second.second}) < 3e-7) return true;
    return false;
  };
  // regions with offset have walls where they end, which are made of two triangles
  bool walled = false;
  for (std::size_t look = 0; look < scene.looks.size(); ++look) {
    const auto &w = walls[static_cast<int>(look)];
    PBT_CHECK(c, scene.looks[look].offset != 0 || w.empty(), "walls without height offset");
    if (scene.looks[look].offset == 0 || levels) continue;
    for (const auto &e : edges[static_cast<int>(look)]) {
      if (e.second != 1) continue;
      const auto &p = e.first.first, &q = e.first.second;
      bool border = (onBorder(p.first, box.minPoint.longitude, box.maxPoint.longitude) && p.first == q.first) ||
          (onBorder(p.second, box.minPoint.latitude, box.maxPoint.latitude) && p.second == q.second);
      auto u = scene.unit(p.first, p.second), v = scene.unit(q.first, q.second);
      if (border) continue;
      walled = true;
      PBT_CHECK(c, w.count(e.first) || nearAny(e.first, w), "no wall at " << u.x << "," << u.y << " - " << v.x << "," << v.y << " where a region with height offset ends");
    }
    for (const auto &e : w) {
      auto u = scene.unit(e.first.first.first, e.first.first.second), v = scene.unit(e.first.second.first, e.first.second.second);
      const auto &p = e.first.first, &q = e.first.second;
      PBT_CHECK(c, !(p.first == q.first && onBorder(p.first, box.minPoint.longitude, box.maxPoint.longitude)) && !(p.second == q.second && onBorder(p.second, box.minPoint.latitude, box.maxPoint.latitude)),
                "wall on the border of the tile, at " << u.x << "," << u.y << " - " << v.x << "," << v.y << ": the region goes on in the next tile");
      PBT_CHECK(c, e.second % 2 == 0, "wall at " << u.x << "," << u.y << " - " << v.x << "," << v.y << " has " << e.second << " triangles");
      bool on = false;   // an edge of any region: a region which is nowhere wide is not triangulated
      for (const auto &any : edges) on = on || any.second.count(e.first) || nearAny(e.first, any.second);
      PBT_CHECK(c, on, "wall at " << u.x << "," << u.y << " - " << v.x << "," << v.y << " is not where a region ends");
    }
  }
  if (walled) c.label("walls");

  double sum = 0, length = 4;
  for (const auto &t : surface) sum += std::fabs(t.t.signedArea());
  for (const auto &s : scene.surfaces) {
    for (const auto &p : s.outers) length += geometry::perimeter(p, true);
    for (const auto &p : s.holes) length += geometry::perimeter(p, true);
    length += 3*geometry::perimeter(s.line, false);
  }
  PBT_CHECK(c, std::fabs(sum - 1) < 1e-7 + eps*length, "terrain covers " << sum << " of the tile");

  auto probe = [&](const P &p) {
    if (p.x < eps || p.x > 1 - eps || p.y < eps || p.y > 1 - eps) return;
    // what may be seen here
    int top = std::numeric_limits<int>::min();
    std::set<int> allowed;
    for (const auto &s : scene.surfaces) {
      int in = scene.covers(s, p, eps);
      if (in < 0) return;
      if (in == 0) continue;
      int order = scene.looks[static_cast<std::size_t>(s.look)].order;
      if (order > top) { top = order; allowed.clear(); }
      if (order == top) allowed.insert(s.look);
    }
    if (allowed.empty()) allowed.insert(0);
    std::vector<int> found;
    for (const auto &t : surface) {
      if (t.t.distanceToEdges(p) < eps) return;
      if (t.t.contains(p)) found.push_back(t.look);
    }
    PBT_CHECK(c, found.size() == 1, "point " << p.x << "," << p.y << " is covered by " << found.size() << " triangles");
    PBT_CHECK(c, allowed.count(found[0]), "point " << p.x << "," << p.y << " has color " << hex(scene.looks[static_cast<std::size_t>(found[0])].color) << " should be "
        << hex(scene.looks[static_cast<std::size_t>(*allowed.begin())].color));
  };
  std::size_t step = std::max<std::size_t>(1, surface.size()/200);
  for (std::size_t i = 0; i < surface.size(); i += step) probe(surface[i].t.center());
  for (const auto &p : points) probe(p);
  for (const auto &s : scene.surfaces) {   // inside of all of them
    for (const auto &o : s.outers)
      for (std::size_t i = 0; i < o.size(); ++i) {
        const auto &u = o[i], &v = o[(i + 1) % o.size()], &w = o[(i + 2) % o.size()];
        probe({(u.x + v.x + w.x)/3, (u.y + v.y + w.y)/3});
        probe({(2*u.x + v.x + 2*w.x)/5, (2*u.y + v.y + 2*w.y)/5});
      }
    for (std::size_t i = 0; i < s.line.size(); ++i) {
      probe(s.line[i]);
      if (i > 0) probe({s.line[i].x*0.6 + s.line[i - 1].x*0.4, s.line[i].y*0.6 + s.line[i - 1].y*0.4});
    }
  }
  };
  try {
    judge(0);
  } catch (const pbt::Failure &) {
    // Contours which overlap by less than the rounding to 1e-7 degrees may be triangulated wrong. What is wrong only for exactly these
    // coordinates is not judged: move them a bit, the same coordinates by the same offset.
    if (!geometric) throw;
    for (int attempt = 1; attempt <= 3; ++attempt) {
      const double size = std::min(2e-6, std::min(box.width(), box.height())*0.002);
      auto moved = [&](double v, double min, double max) {
        if (onBorder(v, min, max) || v - size < min || v + size > max) return v;
        double r = std::sin(v*12345.678 + attempt*3.7)*1e4;
        return v + ((r - std::floor(r))*2 - 1)*size;
      };
      std::function<void(Element &)> nudge = [&](Element &e) {
        auto all = [&](std::vector<GeoCoordinate> &cs) {
          for (auto &g : cs)
            g = GeoCoordinate(moved(g.latitude, box.minPoint.latitude, box.maxPoint.latitude), moved(g.longitude, box.minPoint.longitude, box.maxPoint.longitude));
        };
        if (auto a = dynamic_cast<Area *>(&e)) all(a->coordinates);
        if (auto w = dynamic_cast<Way *>(&e)) all(w->coordinates);
        if (auto r = dynamic_cast<Relation *>(&e)) for (auto &m : r->elements) nudge(*m);
      };
      for (auto &e : elements) nudge(*e);
      judge(size*attempt*1.5);
    }
    c.label("rounding");
  }
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C18", {
      {"terrain", "a tile at zoom 1-18 with one to seven areas (on a coarse grid or free), areas with a hole and ways, in three named layers with different order or alone, with elevation, "
                  "height offsets, noise, refinement, grid cells; non-trivial: more than one element", 5000, 60000, terrain},
  }, {"areas are inside the tile (they are clipped when they are stored)", "which of overlapping elements without layer is on top is not specified",
      "points nearer than 6e-7 degrees to a border of an element are not sampled"});
}
