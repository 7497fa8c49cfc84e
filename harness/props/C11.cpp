// C11: barriers, trees, lamps and forests stand on the ground where their elements are.
#include "bench.hpp"
#include "stores.hpp"

#include "builders/generators/LSystemGenerator.hpp"
#include "builders/misc/BarrierBuilder.hpp"
#include "builders/misc/LampBuilder.hpp"
#include "builders/poi/TreeBuilder.hpp"
#include "builders/terrain/TerraBuilder.hpp"
#include "builders/terrain/TerraExtras.hpp"
#include "utils/GeometryUtils.hpp"

using namespace bench;
using namespace utymap::builders;
using pbt::Ctx;

namespace {

struct V { double x, y, z; };   // east, up, north
V operator+(const V &a, const V &b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
V operator-(const V &a, const V &b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
V operator*(const V &a, double k) { return {a.x*k, a.y*k, a.z*k}; }
double dot(const V &a, const V &b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
V cross(const V &a, const V &b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
double norm(const V &a) { return std::sqrt(dot(a, a)); }

typedef std::vector<GeoCoordinate> Line;

/// Coordinates in meters relative to the middle of the tile.
struct Meters {
  GeoCoordinate origin;
  double perLat, perLon;
  explicit Meters(const BoundingBox &box) : origin(box.center()), perLat(40008000.0/360), perLon(40075160.0/360*std::cos(origin.latitude*3.14159265358979323846/180)) {}
  V operator()(double lat, double lon, double h) const { return {(lon - origin.longitude)*perLon, h, (lat - origin.latitude)*perLat}; }
  std::vector<V> operator()(const Mesh &m) const {
    std::vector<V> r;
    for (std::size_t i = 0; i + 2 < m.vertices.size(); i += 3) r.push_back((*this)(m.vertices[i + 1], m.vertices[i], m.vertices[i + 2]));
    return r;
  }
};

struct Thing {
  std::string name;
  std::vector<Line> lines;   // one mesh for each
  std::shared_ptr<Element> element;
};

double length(const GeoCoordinate &a, const GeoCoordinate &b) { return utymap::utils::GeoUtils::distance(a, b); }

GeoCoordinate anywhere(Ctx &c, const BoundingBox &box) {
  return GeoCoordinate(box.minPoint.latitude + box.height()*c.real(0, 1), box.minPoint.longitude + box.width()*c.real(0, 1));
}

Line anyLine(Ctx &c, const BoundingBox &box, std::size_t min) {
  Line l;
  // longer ones are made of steps of some meters
  double step = c.pick({5e-5, 2e-4, 1e-3});
  l.push_back(anywhere(c, box));
  while (l.size() < min || (l.size() < 6 && c.chance(1, 2))) {
    if (c.chance(1, 16)) l.push_back(l.back());   // the same place again
    else l.push_back(GeoCoordinate(l.back().latitude + step*c.real(-1, 1), l.back().longitude + step*c.real(-1, 1)));
  }
  return l;
}

Thing anyThing(Ctx &c, const Bench &b, StringTable &table, std::uint64_t id, const std::vector<std::string> &kinds, const std::string &prefix) {
  Thing t;
  auto kind = c.pick(kinds);
  std::vector<utymap::entities::Tag> tags = {utymap::entities::Tag(table.getId("any"), table.getId("1"))};
  auto simple = [&](const std::string &k, std::uint64_t elementId, bool tagged) -> std::shared_ptr<Element> {
    std::shared_ptr<Element> e;
    Line line;
    if (k == "node") { auto n = std::make_shared<Node>(); n->coordinate = anywhere(c, b.box); line = {n->coordinate}; e = n; }
    else if (k == "way") { auto w = std::make_shared<Way>(); line = w->coordinates = anyLine(c, b.box, 2); e = w; }
    else { auto a = std::make_shared<Area>(); line = a->coordinates = anyLine(c, b.box, 3); line.push_back(line.front()); e = a; }
    e->id = elementId;
    if (tagged) e->tags = tags;
    t.lines.push_back(line);
    return e;
  };
  if (kind == "relation") {
    auto r = std::make_shared<Relation>();
    c.repeat(1, 3, [&](std::size_t i) { r->elements.push_back(simple(c.pick(std::vector<std::string>{"node", "way", "area"}), id*10 + i, false)); });
    r->id = id;
    r->tags = tags;
    t.element = r;
  } else {
    t.element = simple(kind, id, true);
    t.name = prefix + std::to_string(id);
  }
  return t;
}

void visit(ElementBuilder &builder, const Element &e) { e.accept(builder); }

struct Look { int color; Texture texture; std::string css; };

Look anyLook(Ctx &c, const Atlas &atlas) {
  Look l;
  l.color = static_cast<int>(c.integer(0, 0xffffff));
  auto k = static_cast<std::size_t>(c.integer(0, 3));
  l.texture = k == 3 ? Texture{{0, 0, 0, 0, 0, 0, 0}} : atlas.regions[k].second;
  l.css = "color: " + hex(l.color) + "; texture-index: " + std::to_string(k == 3 ? 0 : atlas.regions[k].second[0]) + "; texture-type: " + (k == 3 ? "grass" : atlas.regions[k].first) +
      "; texture-scale: " + c.pick(std::vector<std::string>{"1", "50", "200"}) + "; ";
  return l;
}

void checkLook(Ctx &c, const Mesh &m, const Look &look) {
  PBT_CHECK(c, meshes::malformed(m, true).empty(), m.name << ": " << meshes::malformed(m, true));
  for (auto color : m.colors) PBT_CHECK(c, rgb(color) == look.color, m.name << " has color " << hex(rgb(color)) << ", not " << hex(look.color));
  for (const auto &t : textures(m)) PBT_CHECK(c, sameTexture(t, look.texture), m.name << " has texture of atlas " << t[0] << " at " << t[3] << "," << t[4]);
}

std::string number(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.4f", x);
  return b;
}

/// Whether rounding decides how often step fits.
bool close(double ratio) { return ratio > 0.5 && std::fabs(ratio - std::round(ratio)) < 1e-6*(1 + ratio); }

// ---- walls

void wall(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  auto look = anyLook(c, atlas);
  double height = c.real(0.1, 10), width = c.real(0.05, 3), piece = c.real(0.5, 40), gap = c.boolean() ? 0 : c.real(0, 10);
  std::string css = atlas.write(dir) + "node,way,area,relation|z1-19[any] { " + look.css + "height: " + number(height) + "m; width: " + number(width) + "m; length: " + number(piece) + "m; gap: " + number(gap) + "m; type: " +
      c.pick(std::vector<std::string>{"wall", "fence"}) + "; }\n";
  height = std::stod(number(height)); piece = std::stod(number(piece)); gap = std::stod(number(gap));
  c.note() << css << "tile " << show(q) << "\n";
  Bench b(q, table, css, dir, anySlope(c, utymap::utils::GeoUtils::quadKeyToBoundingBox(q)));
  BarrierBuilder builder(b.context);
  std::vector<Thing> things;
  c.repeat(1, 3, [&](std::size_t i) { things.push_back(anyThing(c, b, table, 100 + i, {"way", "way", "area", "relation"}, "barrier:")); c.note() << describe(*things.back().element) << "\n"; });
  for (const auto &t : things)
    for (const auto &l : t.lines)
      for (std::size_t i = 0; i + 1 < l.size(); ++i) if (close(length(l[i], l[i + 1])/(piece + gap))) c.discard();
  pbt::noThrow("barriers", [&] { for (const auto &t : things) visit(builder, *t.element); builder.complete(); });
  std::vector<std::pair<std::string, Line>> expected;
  for (const auto &t : things) for (std::size_t i = 0; i < t.lines.size(); ++i)
    expected.push_back({t.name.empty() ? "barrier:" + std::to_string(t.element->id*10 + i) : t.name, t.lines[i]});
  std::vector<const Mesh *> meshes;
  for (const auto &m : b.meshes) if (!m->vertices.empty()) meshes.push_back(m.get());
  double w = b.styles->forElement(*things[0].element, q.levelOfDetail).getValue("width", b.box);
  Meters meters(b.box);
  double eps = 0.01;
  std::size_t next = 0, pieces = 0;
  for (const auto &e : expected) {
    if (e.second.size() < 2) continue;   // there is no wall at a point
    PBT_CHECK(c, next < meshes.size(), e.first << " is not built");
    const auto &m = *meshes[next++];
    PBT_CHECK(c, m.name == e.first, "mesh is " << m.name << ", not " << e.first);
    checkLook(c, m, look);
    auto vs = meters(m);
    // corners of pieces: left and right at begin and end, then the same at the top
    struct Box { std::array<V, 8> at; };
    std::vector<Box> boxes;
    for (std::size_t i = 0; i + 1 < e.second.size(); ++i) {
      const auto &p0 = e.second[i], &p1 = e.second[i + 1];
      int count = std::max(1, static_cast<int>(length(p0, p1)/(piece + gap)));
      double dx = p1.longitude - p0.longitude, dy = p1.latitude - p0.latitude, d = std::sqrt(dx*dx + dy*dy);
      if (d < 1e-12) continue;
      double nx = -dy/d*w, ny = dx/d*w;
      for (int j = 0; j < count; ++j) {
        Box box;
        double from = static_cast<double>(j)/count, to = (j + piece/(piece + gap))/count;
        for (int k = 0; k < 4; ++k) {
          double s = k % 2 ? to : from, side = k < 2 ? 1 : -1;
          double lat = p0.latitude + dy*s + ny*side, lon = p0.longitude + dx*s + nx*side, h = b.ele.at(lat, lon);
          box.at[static_cast<std::size_t>(k)] = meters(lat, lon, h);
          box.at[static_cast<std::size_t>(k) + 4] = meters(lat, lon, h + height);
        }
        boxes.push_back(box);
      }
    }
    pieces += boxes.size();
    // all faces but the one on the ground
    static const int faces[5][4] = {{0, 1, 5, 4}, {2, 3, 7, 6}, {0, 2, 6, 4}, {1, 3, 7, 5}, {4, 5, 7, 6}};
    std::vector<std::array<double, 5>> covered(boxes.size(), std::array<double, 5>{{0, 0, 0, 0, 0}});
    double all = 0;
    for (std::size_t i = 0; i + 2 < m.triangles.size(); i += 3) {
      V p[3];
      for (std::size_t k = 0; k < 3; ++k) p[k] = vs[static_cast<std::size_t>(m.triangles[i + k])];
      auto n = cross(p[1] - p[0], p[2] - p[0])*0.5;
      double area = norm(n);
      all += area;
      bool found = false, outside = false;
      int matches = 0;
      for (std::size_t k = 0; k < boxes.size(); ++k) {
        V middle{0, 0, 0};
        for (const auto &v : boxes[k].at) middle = middle + v*(1./8);
        for (std::size_t f = 0; f < 5; ++f) {
          bool on = true;
          for (const auto &v : p) {
            bool corner = false;
            for (int at : faces[f]) corner = corner || norm(boxes[k].at[static_cast<std::size_t>(at)] - v) < eps;
            on = on && corner;
          }
          if (!on) continue;
          found = true;
          covered[k][f] += area;
          ++matches;
          outside = dot(n, (p[0] + p[1] + p[2])*(1./3) - middle) > 0;
        }
      }
      // faces of pieces can be at the same place
      if (area > 0.01 && matches == 1) PBT_CHECK(c, outside, m.name << ": a face does not look outside");
      PBT_CHECK(c, found || area < 1e-9, m.name << ": triangle at " << p[0].x << "," << p[0].y << "," << p[0].z << " " << p[1].x << "," << p[1].y << "," << p[1].z << " " << p[2].x << "," << p[2].y << "," << p[2].z << " is no face of a piece of the wall");
    }
    double want = 0;
    for (std::size_t k = 0; k < boxes.size(); ++k) {
      for (std::size_t f = 0; f < 5; ++f) {
        const auto &at = boxes[k].at;
        auto p = [&](int j) { return at[static_cast<std::size_t>(faces[f][j])]; };
        double area = (norm(cross(p(1) - p(0), p(2) - p(0))) + norm(cross(p(2) - p(0), p(3) - p(0))))/2;
        want += area;
        PBT_CHECK(c, covered[k][f] > area*0.999 - eps, m.name << ": face " << f << " of piece " << k << " of " << boxes.size() << " is not built");
      }
    }
    PBT_CHECK(c, std::fabs(all - want) < 0.002*want + eps, m.name << " has faces of " << all << " square meters, not " << want);
  }
  PBT_CHECK(c, next == meshes.size(), meshes.size() << " meshes, not " << next);
  if (pieces > 1) c.nontrivial();
}

// ---- pillars

void pillar(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  auto look = anyLook(c, atlas);
  double height = c.real(0.1, 20), radius = c.real(0.1, 3), step = c.real(1, 40);
  std::string css = atlas.write(dir) + "node,way,area,relation|z1-19[any] { " + look.css + "height: " + number(height) + "m; radius: " + number(radius) + "m; step: " + number(step) + "m; type: pillar; }\n";
  height = std::stod(number(height)); step = std::stod(number(step));
  c.note() << css << "tile " << show(q) << "\n";
  Bench b(q, table, css, dir, anySlope(c, utymap::utils::GeoUtils::quadKeyToBoundingBox(q)));
  BarrierBuilder builder(b.context);
  std::vector<Thing> things;
  c.repeat(1, 3, [&](std::size_t i) { things.push_back(anyThing(c, b, table, 100 + i, {"node", "way", "area", "relation"}, "barrier:")); c.note() << describe(*things.back().element) << "\n"; });
  for (const auto &t : things)
    for (const auto &l : t.lines)
      for (std::size_t i = 0; i + 1 < l.size(); ++i) if (close(length(l[i], l[i + 1])/step)) c.discard();
  pbt::noThrow("barriers", [&] { for (const auto &t : things) visit(builder, *t.element); builder.complete(); });
  std::vector<const Mesh *> meshes;
  for (const auto &m : b.meshes) if (!m->vertices.empty()) meshes.push_back(m.get());
  Meters meters(b.box);
  double rDegrees = b.styles->forElement(*things[0].element, q.levelOfDetail).getValue("radius", b.box);
  double rx = 1.5*rDegrees*meters.perLon, rz = rDegrees*meters.perLat, eps = 0.01;
  std::size_t next = 0, pillars = 0;
  for (const auto &t : things) {
    for (std::size_t i = 0; i < t.lines.size(); ++i) {
      auto name = t.name.empty() ? "barrier:" + std::to_string(t.element->id*10 + i) : t.name;
      const auto &l = t.lines[i];
      Line places;
      if (l.size() == 1) places = l;
      for (std::size_t k = 0; k + 1 < l.size(); ++k) {
        int count = static_cast<int>(length(l[k], l[k + 1])/step);
        for (int j = 0; j < count; ++j)
          places.push_back(GeoCoordinate(l[k].latitude + (l[k + 1].latitude - l[k].latitude)*j/count, l[k].longitude + (l[k + 1].longitude - l[k].longitude)*j/count));
      }
      if (places.empty()) continue;
      PBT_CHECK(c, next < meshes.size(), name << " is not built");
      const auto &m = *meshes[next++];
      PBT_CHECK(c, m.name == name, "mesh is " << m.name << ", not " << name);
      checkLook(c, m, look);
      auto vs = meters(m);
      PBT_CHECK(c, vs.size() % places.size() == 0, vs.size() << " vertices of " << places.size() << " pillars");
      auto each = vs.size()/places.size();
      for (std::size_t k = 0; k < places.size(); ++k) {
        double ground = b.ele.at(places[k].latitude, places[k].longitude), low = 1e9, high = -1e9;
        auto at = meters(places[k].latitude, places[k].longitude, ground);
        double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
        for (std::size_t n = k*each; n < (k + 1)*each; ++n) {
          auto d = vs[n] - at;
          double around = std::sqrt(d.x*d.x/rx/rx + d.z*d.z/rz/rz);
          PBT_CHECK(c, std::fabs(around - 1)*rz < eps || std::sqrt(d.x*d.x + d.z*d.z) < eps, name << ": vertex " << d.x << "," << d.z << " from the middle is not on pillar " << k << " of " << places.size());
          low = std::min(low, d.y);
          high = std::max(high, d.y);
          lo[0] = std::min(lo[0], d.x); hi[0] = std::max(hi[0], d.x);
          lo[1] = std::min(lo[1], d.z); hi[1] = std::max(hi[1], d.z);
        }
        PBT_CHECK(c, std::fabs(low) < eps && std::fabs(high - height) < eps, name << ": pillar " << k << " of " << places.size() << " is from " << low << " to " << high << " above ground, height is " << height);
        for (std::size_t n = 0; n + 2 < m.triangles.size(); n += 3) {
          V p[3];
          bool own = true;
          for (std::size_t j = 0; j < 3; ++j) {
            auto v = static_cast<std::size_t>(m.triangles[n + j]);
            own = own && v >= k*each && v < (k + 1)*each;
            p[j] = vs[v] - at - V{0, height/2, 0};
          }
          auto normal = cross(p[1] - p[0], p[2] - p[0]);
          if (own && norm(normal) > 1e-3) PBT_CHECK(c, dot(normal, p[0] + p[1] + p[2]) > 0, name << ": side of pillar does not look outside");
        }
        PBT_CHECK(c, hi[0] - lo[0] > 1.5*rx && hi[1] - lo[1] > 1.5*rz, name << ": pillar is not round");
      }
      std::vector<std::array<double, 3>> points;
      for (const auto &v : vs) points.push_back({{v.x, v.y, v.z}});
      int open = meshes::openEdges(points, m.triangles, 1e-4);
      PBT_CHECK(c, open == 0, name << ": " << open << " edges of " << places.size() << " pillars belong to one triangle, they are not closed");
      pillars += places.size();
    }
  }
  PBT_CHECK(c, next == meshes.size(), meshes.size() << " meshes, not " << next);
  if (pillars > 1) c.nontrivial();
}

// ---- trees and lamps

std::string lsysStyle(Ctx &c, const std::string &dir, const Atlas &atlas, const std::string &extra) {
  std::ofstream(dir + "/tree.lsys") << "generations: 1\nangle: 30\nscale: 0.7\naxiom: FA\nA -> " << c.pick(std::vector<std::string>{"sphere", "F + sphere", "[ + F ] [ - F @ sphere ]", "cone"}) << "\n";
  std::string look = "lsys: tree; lsys-size: " + c.pick(std::vector<std::string>{"1m", "2m", "0.5m"}) + "; lsys-colors: " + hex(static_cast<int>(c.integer(0, 0xffffff))) + "," + hex(static_cast<int>(c.integer(0, 0xffffff))) +
      "; lsys-texture-indices: 1,2; lsys-texture-types: " + atlas.regions[c.draw(1)].first + ",grass; lsys-texture-scales: 200,50; ";
  return atlas.write(dir) + "@lsystem url(\"tree.lsys\");\n" + "node,way|z1-19[any] { " + look + extra + "}\n";
}

/// Compares mesh with copies of one tree.
void checkCopies(Ctx &c, const Mesh &m, const Mesh &one, const Line &places, const Bench &b, const GeoCoordinate &origin) {
  PBT_CHECK(c, m.vertices.size() == one.vertices.size()*places.size() && m.triangles.size() == one.triangles.size()*places.size(),
            m.name << " has " << m.vertices.size()/3 << " vertices and " << m.triangles.size()/3 << " triangles, not " << places.size() << " times " << one.vertices.size()/3 << " and " << one.triangles.size()/3);
  PBT_CHECK(c, meshes::malformed(m, true).empty(), m.name << ": " << meshes::malformed(m, true));
  auto texs = textures(m), oneTexs = textures(one);
  auto each = one.vertices.size()/3;
  for (std::size_t k = 0; k < places.size(); ++k) {
    double lat = places[k].latitude - origin.latitude, lon = places[k].longitude - origin.longitude, h = b.ele.at(places[k].latitude, places[k].longitude);
    for (std::size_t i = 0; i < each; ++i) {
      auto n = k*each + i;
      double dx = m.vertices[n*3] - one.vertices[i*3] - lon, dy = m.vertices[n*3 + 1] - one.vertices[i*3 + 1] - lat, dz = m.vertices[n*3 + 2] - one.vertices[i*3 + 2] - h;
      PBT_CHECK(c, std::fabs(dx) < 1e-8 && std::fabs(dy) < 1e-8 && std::fabs(dz) < 1e-3, m.name << ": copy " << k << " of " << places.size() << " is moved by " << dx*111000 << "," << dy*111000 << "," << dz);
      PBT_CHECK(c, m.colors[n] == one.colors[i], m.name << ": copy " << k << " has color " << hex(rgb(m.colors[n])));
      PBT_CHECK(c, texs[n] == oneTexs[i], m.name << ": copy " << k << " has texture of atlas " << texs[n][0] << " at " << texs[n][3]);
      PBT_CHECK(c, m.uvs[n*2] == one.uvs[i*2] && m.uvs[n*2 + 1] == one.uvs[i*2 + 1], m.name << ": copy " << k << " has other texture coordinates");
    }
    for (std::size_t i = 0; i < one.triangles.size(); ++i)
      PBT_CHECK(c, m.triangles[k*one.triangles.size() + i] == one.triangles[i] + static_cast<int>(k*each), m.name << ": copy " << k << " has other triangles");
  }
}

void row(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  bool lamps = c.boolean();
  double step = std::stod(number(c.real(1, 40))), width = lamps && c.boolean() ? std::stod(number(c.real(0.1, 8))) : 0;
  auto css = lsysStyle(c, dir, atlas, std::string(lamps ? "lamp" : "tree") + "-step: " + number(step) + "m; " + (lamps ? "width: " + number(width) + "m; " : ""));
  c.note() << css << "tile " << show(q) << "\n";
  Bench b(q, table, css, dir, anySlope(c, utymap::utils::GeoUtils::quadKeyToBoundingBox(q)));
  std::unique_ptr<ElementBuilder> builder;
  if (lamps) builder.reset(new LampBuilder(b.context));
  else builder.reset(new TreeBuilder(b.context));
  std::vector<Thing> things;
  c.repeat(1, 4, [&](std::size_t i) {
    things.push_back(anyThing(c, b, table, 100 + i, {"node", "way", "way"}, lamps ? "lamp" : "tree"));
    c.note() << describe(*things.back().element) << "\n";
  });
  for (const auto &t : things)
    for (std::size_t i = 0; i + 1 < t.lines[0].size(); ++i) if (close(length(t.lines[0][i], t.lines[0][i + 1])/step)) c.discard();
  bool together = c.chance(1, 4);   // members of a relation
  pbt::noThrow("visit", [&] {
    if (together) {
      Relation r;
      r.id = 7;
      r.tags = things[0].element->tags;
      for (const auto &t : things) r.elements.push_back(t.element);
      visit(*builder, r);
    } else for (const auto &t : things) visit(*builder, *t.element);
    builder->complete();
  });
  std::vector<const Mesh *> meshes;
  for (const auto &m : b.meshes) if (!m->vertices.empty()) meshes.push_back(m.get());
  std::size_t next = 0, copies = 0;
  auto center = b.box.center();
  for (const auto &t : things) {
    const auto &l = t.lines[0];
    bool node = l.size() == 1 && dynamic_cast<const Node *>(t.element.get());
    auto style = b.styles->forElement(*t.element, q.levelOfDetail);
    auto origin = node ? l[0] : center;
    Mesh one("one");
    LSystemGenerator::generate(b.context, style, one, origin, 0);
    Line places;
    if (node) places = l;
    else {
      double w = lamps ? style.getValue("width", b.box) : 0;
      for (std::size_t k = 0; k + 1 < l.size(); ++k) {
        int count = static_cast<int>(length(l[k], l[k + 1])/step);
        double dx = l[k + 1].longitude - l[k].longitude, dy = l[k + 1].latitude - l[k].latitude, d = std::sqrt(dx*dx + dy*dy);
        for (int j = w > 0 ? 1 : 0; j < (w > 0 ? count - 1 : count); ++j) {
          double s = static_cast<double>(j)/count, side = w > 0 ? (j % 2 ? -w : w) : 0;
          places.push_back(GeoCoordinate(l[k].latitude + dy*s + dx/d*side, l[k].longitude + dx*s - dy/d*side));
        }
      }
    }
    if (places.empty()) continue;
    auto name = std::string(lamps ? "lamp" : "tree") + (node ? ":" : "s:") + std::to_string(t.element->id);
    PBT_CHECK(c, next < meshes.size(), name << " is not built");
    const auto &m = *meshes[next++];
    PBT_CHECK(c, m.name == name, "mesh is " << m.name << ", not " << name);
    checkCopies(c, m, one, places, b, origin);
    copies += places.size();
  }
  PBT_CHECK(c, next == meshes.size(), meshes.size() << " meshes, not " << next);
  if (copies > 1) c.nontrivial();
  if (width > 0) c.label("both sides");
}

// ---- forests

void forest(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  auto frequency = static_cast<std::size_t>(c.integer(1, 6)), chunk = static_cast<std::size_t>(c.boolean() ? 1000000 : c.integer(1, 12));
  auto css = lsysStyle(c, dir, atlas, "tree-frequency: " + std::to_string(frequency) + "; tree-chunk-size: " + std::to_string(chunk) + "; ");
  c.note() << css << "tile " << show(q) << "\n";
  Bench b(q, table, css, dir, anySlope(c, utymap::utils::GeoUtils::quadKeyToBoundingBox(q)));
  Node node;
  node.tags = {utymap::entities::Tag(table.getId("any"), table.getId("1"))};
  auto style = b.styles->forElement(node, q.levelOfDetail);
  // terrain: what is there already, and what the forest grows on
  Mesh ground("ground");
  auto triangles = [&](std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) {
      for (int k = 0; k < 3; ++k) {
        auto g = anywhere(c, b.box);
        ground.triangles.push_back(static_cast<int>(ground.vertices.size()/3));
        ground.vertices.insert(ground.vertices.end(), {g.longitude, g.latitude, 7.});
        ground.colors.push_back(0);
        ground.uvs.insert(ground.uvs.end(), {0, 0});
      }
    }
  };
  triangles(c.boolean() ? 0 : static_cast<std::size_t>(c.integer(1, 5)));
  TerraExtras::Context extras(ground, style);
  auto before = ground.triangles.size()/3;
  triangles(static_cast<std::size_t>(c.integer(0, 40)));
  auto copyOfGround = copy(ground);
  Line places;
  for (auto i = before; i < ground.triangles.size()/3; i += frequency) {
    GeoCoordinate g(0, 0);
    for (std::size_t k = 0; k < 3; ++k) {
      g.longitude += ground.vertices[(i*3 + k)*3]/3;
      g.latitude += ground.vertices[(i*3 + k)*3 + 1]/3;
    }
    places.push_back(g);
  }
  pbt::noThrow("forest", [&] { TerraExtras::addForest(b.context, extras); });
  Mesh one("one");
  auto center = b.box.center();
  LSystemGenerator::generate(b.context, style, one, center, 0);
  std::size_t count = (places.size() + chunk - 1)/chunk;
  PBT_CHECK(c, b.meshes.size() == count, b.meshes.size() << " meshes for " << places.size() << " trees in chunks of " << chunk);
  for (std::size_t k = 0; k < count; ++k) {
    Line part(places.begin() + static_cast<std::ptrdiff_t>(k*chunk), places.begin() + static_cast<std::ptrdiff_t>(std::min((k + 1)*chunk, places.size())));
    PBT_CHECK(c, b.meshes[k]->name == "forest", "mesh is " << b.meshes[k]->name << ", not forest");
    checkCopies(c, *b.meshes[k], one, part, b, center);
  }
  PBT_CHECK(c, ground.vertices == copyOfGround->vertices && ground.triangles == copyOfGround->triangles, "terrain is changed");
  if (count > 1) c.label("chunks");
  if (places.size() > 1) c.nontrivial();
}

/// Terrain whose style asks for forests: a tree in the middle of each triangle of exactly these regions.
void wood(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  Atlas atlas;
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  const std::string z = "|z" + std::to_string(q.levelOfDetail);
  auto chunk = static_cast<std::size_t>(c.boolean() ? 1000000 : c.integer(1, 12));
  const std::string tree = "lsys: tree; lsys-size: 1m; lsys-colors: #112233; lsys-texture-indices: 1; lsys-texture-types: grass; lsys-texture-scales: 200; tree-frequency: 1; tree-chunk-size: " + std::to_string(chunk) + "; ";
  std::ofstream(dir + "/tree.lsys") << "generations: 1\nangle: 30\nscale: 0.7\naxiom: F\nF -> cone\n";
  std::ostringstream css;
  css << atlas.write(dir) << "@lsystem url(\"tree.lsys\");\nnode" << z << "[any] { " << tree << "}\n";
  // looks: 1 canvas, 2 and 3 layers, others alone
  std::set<int> woods;
  css << "canvas" << z << " { grid-cell-size: 25%; color: gradient(#000001); " << tree;
  auto area = [&] { return c.boolean() ? "max-area: " + c.pick(std::vector<std::string>{"20%", "5%"}) + "; " : std::string(); };
  if (c.chance(1, 4)) { css << "mesh-extras: forest; "; woods.insert(1); }
  for (int i = 2; i <= 3; ++i) {
    std::string name = i == 2 ? "wood" : "earth";
    css << name << "-color: gradient(" << hex(i) << "); " << name << "-sort-order: " << i << "; ";
    if (c.chance(1, 3)) css << name << "-mesh-name: mesh_" << name << "; ";
    auto a = area();
    if (!a.empty()) css << name << "-" << a;
    if (c.chance(i == 2 ? 3 : 1, 4)) { css << name << "-mesh-extras: forest; "; woods.insert(i); }
  }
  css << "}\n";
  std::vector<std::shared_ptr<Area>> areas;
  c.repeat(1, 4, [&](std::size_t i) {
    auto a = std::make_shared<Area>();
    a->id = i + 1;
    double x0 = static_cast<double>(c.integer(0, 7))/8, y0 = static_cast<double>(c.integer(0, 7))/8, w = static_cast<double>(c.integer(1, 4))/8, h = static_cast<double>(c.integer(1, 4))/8;
    double x1 = std::min(1., x0 + w), y1 = std::min(1., y0 + h);
    auto at = [&](double x, double y) { return GeoCoordinate(box.minPoint.latitude + y*box.height(), box.minPoint.longitude + x*box.width()); };
    a->coordinates = {at(x0, y0), at(x1, y0), at(x1, y1), at(x0, y1)};
    addTags(*a, table, {{"id", std::to_string(a->id)}});
    css << "area" << z << "[id=" << a->id << "] { ";
    auto kind = c.draw(2);
    if (kind < 2) css << "terrain-layer: " << (kind == 0 ? "wood" : "earth") << "; ";
    else {
      int color = static_cast<int>(a->id)*0x100;
      css << "color: gradient(" << hex(color) << "); " << tree << area();
      if (c.chance(1, 3)) css << "mesh-name: mesh_" << a->id << "; ";
      if (c.boolean()) { css << "mesh-extras: forest; "; woods.insert(color); }
    }
    css << "}\n";
    areas.push_back(a);
  });
  c.note() << "tile " << show(q) << "\n" << css.str();
  for (const auto &a : areas) c.note() << describe(*a) << "\n";
  Bench b(q, table, css.str(), dir, anySlope(c, box));
  pbt::noThrow("terrain with forests", [&] {
    TerraBuilder builder(b.context);
    for (const auto &a : areas) a->accept(builder);
    builder.complete();
  });
  Node node;
  node.tags = {utymap::entities::Tag(table.getId("any"), table.getId("1"))};
  Mesh one("one");
  auto style = b.styles->forElement(node, q.levelOfDetail);
  auto center = b.box.center();
  LSystemGenerator::generate(b.context, style, one, center, 0);
  typedef std::array<double, 3> Place;
  std::vector<Place> expected, got;
  for (const auto &m : b.meshes) {
    if (m->name == "forest") {
      PBT_CHECK(c, !one.vertices.empty() && m->vertices.size() % one.vertices.size() == 0 && m->vertices.size() <= one.vertices.size()*chunk, "forest of " << m->vertices.size()/3 << " vertices, a tree has " << one.vertices.size()/3);
      for (std::size_t i = 0; i < m->vertices.size(); i += one.vertices.size())
        got.push_back({{m->vertices[i] - one.vertices[0] + center.longitude, m->vertices[i + 1] - one.vertices[1] + center.latitude, m->vertices[i + 2] - one.vertices[2]}});
      continue;
    }
    for (std::size_t i = 0; i < m->triangles.size(); i += 3) {
      if (!woods.count(rgb(m->colors[static_cast<std::size_t>(m->triangles[i])]))) continue;
      Place p{{0, 0, 0}};
      for (std::size_t k = 0; k < 3; ++k)
        for (std::size_t d = 0; d < 2; ++d) p[d] += m->vertices[static_cast<std::size_t>(m->triangles[i + k])*3 + d]/3;
      p[2] = b.ele.at(p[1], p[0]);
      expected.push_back(p);
    }
  }
  if (expected.size() > 1) c.nontrivial();
  if (expected.size() > chunk) c.label("chunks");
  PBT_CHECK(c, got.size() == expected.size(), got.size() << " trees in woods of " << expected.size() << " triangles");
  // each one has its own
  const double cell = 1e-7;
  std::multimap<long long, Place> byX;
  for (const auto &g : got) byX.emplace(std::llround(g[0]/cell), g);
  for (const auto &e : expected) {
    bool found = false;
    auto key = std::llround(e[0]/cell);
    for (auto it = byX.lower_bound(key - 1); it != byX.end() && it->first <= key + 1; ++it)
      if (std::fabs(it->second[0] - e[0]) < 2e-8 && std::fabs(it->second[1] - e[1]) < 2e-8 && std::fabs(it->second[2] - e[2]) < 1e-2) { byX.erase(it); found = true; break; }
    PBT_CHECK(c, found, "no tree at " << (e[0] - box.minPoint.longitude)/box.width() << "," << (e[1] - box.minPoint.latitude)/box.height() << " of tile, height " << e[2]);
  }
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C11", {
    {"wall", "up to three barriers (ways, areas, relations) built one after another; each piece between gaps is found with all its faces on the ground; non-trivial: more than one piece", 6000, 100000, wall},
    {"pillar", "pillars at nodes, along ways and around areas; non-trivial: more than one pillar", 6000, 100000, pillar},
    {"row", "trees and lamps at nodes and along ways, compared with copies of a single one; non-trivial: more than one copy", 6000, 100000, row},
    {"forest", "forests on up to 40 triangles of terrain, delivered in chunks; non-trivial: more than one tree", 6000, 100000, forest},
    {"wood", "terrain of up to four areas in layers or alone, any of which ask for forests; non-trivial: more than one tree", 3000, 60000, wood},
  }, {"What a single tree or lamp looks like is decided by C22; units of style values by C09."});
}
