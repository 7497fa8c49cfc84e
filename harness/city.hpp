// A tile with elements for all builders and a stylesheet for them.
#ifndef VERIF_CITY_HPP
#define VERIF_CITY_HPP

#include "bench.hpp"
#include "geometry.hpp"

#include "builders/QuadKeyBuilder.hpp"
#include "builders/buildings/BuildingBuilder.hpp"
#include "builders/misc/BarrierBuilder.hpp"
#include "builders/misc/LampBuilder.hpp"
#include "builders/poi/TreeBuilder.hpp"
#include "builders/terrain/TerraBuilder.hpp"

namespace city {

using namespace bench;
using pbt::Ctx;
using geometry::P;
using geometry::Path;

struct Thing {
  std::shared_ptr<Element> element;
  TextTags tags;
  std::string builder;              // what its rule names
  std::vector<std::string> meshes;  // names of meshes which may be made for it
  bool always = false;              // there is such a mesh even when steps are longer than the line
};

struct City {
  QuadKey q;
  BoundingBox box;
  std::string css;
  std::vector<Thing> things;
  bool terrain = false;
};

template<typename B>
void registerBuilder(utymap::builders::QuadKeyBuilder &builder, const std::string &name) {
  builder.registerElementBuilder(name, [](const utymap::builders::BuilderContext &context) { return std::unique_ptr<utymap::builders::ElementBuilder>(new B(context)); });
}

inline void registerAll(utymap::builders::QuadKeyBuilder &builder) {
  using namespace utymap::builders;
  registerBuilder<TerraBuilder>(builder, "terrain");
  registerBuilder<BuildingBuilder>(builder, "building");
  registerBuilder<TreeBuilder>(builder, "tree");
  registerBuilder<BarrierBuilder>(builder, "barrier");
  registerBuilder<LampBuilder>(builder, "lamp");
}

/// Everything of a mesh as text: equal for equal meshes.
inline std::string fingerprint(const Mesh &m) {
  std::uint64_t h = 1469598103934665603ull;
  auto add = [&](std::uint64_t x) { h = (h ^ x)*1099511628211ull; h ^= h >> 29; };
  auto number = [&](double d) { std::uint64_t x; if (d == 0) d = 0; std::memcpy(&x, &d, 8); add(x); };
  for (auto v : m.vertices) number(v);
  for (auto v : m.triangles) add(static_cast<std::uint64_t>(v));
  for (auto v : m.colors) add(static_cast<std::uint64_t>(v));
  for (auto v : m.uvs) number(v);
  for (auto v : m.uvMap) add(static_cast<std::uint64_t>(v));
  char s[20];
  std::snprintf(s, sizeof s, "%016llx", static_cast<unsigned long long>(h));
  return m.name + " " + std::to_string(m.vertices.size()/3) + "/" + std::to_string(m.triangles.size()/3) + " " + s;
}

struct Maker {
  Ctx &c;
  StringTable &table;
  std::string dir;
  City city;
  Atlas atlas;
  std::string z;

  Maker(Ctx &c, StringTable &table, const std::string &dir, const QuadKey &q) : c(c), table(table), dir(dir) {
    city.q = q;
    city.box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
    z = "|z" + std::to_string(q.levelOfDetail);
  }

  GeoCoordinate at(const P &p) const { return GeoCoordinate(city.box.minPoint.latitude + city.box.height()*p.y, city.box.minPoint.longitude + city.box.width()*p.x); }
  std::vector<GeoCoordinate> at(const Path &p) const {
    std::vector<GeoCoordinate> r;
    for (const auto &v : p) r.push_back(at(v));
    return r;
  }

  std::string color() {
    return c.chance(1, 4) ? "gradient(" + hex(static_cast<int>(c.integer(0, 0xffffff))) + " 0%, " + hex(static_cast<int>(c.integer(0, 0xffffff))) + " 100%)"
                          : c.boolean() ? hex(static_cast<int>(c.integer(0, 0xffffff))) : "gradient(" + hex(static_cast<int>(c.integer(0, 0xffffff))) + ")";
  }
  std::string look(const std::string &prefix) {
    auto s = prefix + "color: " + color() + "; ";
    if (c.chance(2, 3)) {
      auto r = c.pick(atlas.regions);
      s += prefix + "texture-index: " + std::to_string(r.second[0]) + "; " + prefix + "texture-type: " + r.first + "; " + prefix + "texture-scale: " + c.pick(std::vector<std::string>{"1", "50", "200"}) + "; ";
    }
    return s;
  }

  /// Simple polygon in a place of given size.
  Path polygon(double size) {
    double x = c.real(0.02, 0.97 - size), y = c.real(0.02, 0.97 - size);
    Path p;
    switch (c.draw(2)) {
      case 0: p = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; break;
      case 1: p = geometry::star(c, 0.5, 0.5, 0.3, 0.5, 3, 8); break;
      default: p = geometry::polygon(c);
    }
    if (!geometry::isSimple(p, 0.02) || geometry::area(p) < 0.05) c.discard();
    geometry::orient(p, true);
    return geometry::transform(p, x, y, size*c.real(0.3, 1), size*c.real(0.3, 1));
  }

  Path line(std::size_t min, std::size_t max) {
    Path p;
    c.repeat(min, max, [&](std::size_t) { p.push_back({c.real(0.02, 0.98), c.real(0.02, 0.98)}); });
    for (std::size_t i = 0; i + 1 < p.size(); ++i) if (geometry::dist(p[i], p[i + 1]) < 0.05) c.discard();
    return p;
  }

  std::shared_ptr<Element> node() { auto e = std::make_shared<Node>(); e->coordinate = at(P{c.real(0.02, 0.98), c.real(0.02, 0.98)}); return e; }
  std::shared_ptr<Element> way(const Path &p) { auto e = std::make_shared<Way>(); e->coordinates = at(p); return e; }
  std::shared_ptr<Element> area(const Path &p) { auto e = std::make_shared<Area>(); e->coordinates = at(p); return e; }

  std::string lsys() {
    auto sep = [&](std::function<std::string()> f) { return f() + "," + f(); };
    return "lsys: plant; lsys-size: " + c.pick(std::vector<std::string>{"1m", "0.5m", "3m"}) + "; lsys-colors: " + sep([&] { return hex(static_cast<int>(c.integer(0, 0xffffff))); }) +
        "; lsys-texture-indices: 1,2; lsys-texture-types: " + c.pick(std::vector<std::string>{"rock", "grass"}) + ",grass; lsys-texture-scales: 200,50; ";
  }

  void canvas() {
    std::ofstream(dir + "/plant.lsys") << "generations: 2\nangle: 25\nscale: 0.7\naxiom: FA\nA -> " << c.pick(std::vector<std::string>{"sphere", "F + sphere", "[ + F B ] [ - F @ sphere ]", "cone"}) << "\nB -> F sphere\n";
    city.css = atlas.write(dir) + "@lsystem url(\"plant.lsys\");\n";
    city.css += "canvas" + z + " { grid-cell-size: " + c.pick(std::vector<std::string>{"25%", "10%", "5%"}) + "; " + terrain("");
    for (const char *l : {"earth", "water", "wood"}) {
      city.css += terrain(std::string(l) + "-") + l + "-sort-order: " + std::to_string(c.integer(-2, 9)) + "; ";
      if (c.chance(1, 3)) city.css += std::string(l) + "-mesh-name: mesh_" + l + "; ";
    }
    // forests look for their trees at the style of the canvas
    if (c.boolean()) city.css += "wood-mesh-extras: " + c.pick(std::vector<std::string>{"forest", "water"}) + "; tree-frequency: " + std::to_string(c.integer(1, 20)) + "; tree-chunk-size: " + std::to_string(c.integer(1, 20)) + "; " + lsys();
    city.css += "}\n";
  }

  std::string terrain(const std::string &prefix) {
    auto s = look(prefix);
    if (c.boolean()) s += prefix + "max-area: " + c.pick(std::vector<std::string>{"20%", "5%", "1%"}) + "; ";
    if (c.chance(1, 3)) s += prefix + "height-offset: " + c.pick(std::vector<std::string>{"2m", "-1", "0.5"}) + "; ";
    if (c.chance(1, 3)) s += prefix + "ele-noise-freq: " + c.pick(std::vector<std::string>{"0.5", "20", "30000"}) + "; ";
    if (c.chance(1, 3)) s += prefix + "color-noise-freq: " + c.pick(std::vector<std::string>{"0.1", "20"}) + "; ";
    return s;
  }

  std::string building() {
    return "builder: building; building: true; height: " + c.pick(std::vector<std::string>{"12m", "0", "30.5", "6m"}) + "; min-height: " + c.pick(std::vector<std::string>{"0", "0", "3m"}) + "; roof-height: " +
        c.pick(std::vector<std::string>{"4", "1.5m", "10"}) + "; roof-type: " + c.pick(std::vector<std::string>{"flat", "pyramidal", "mansard", "skillion", "round", "dome", "none"}) + "; facade-type: " +
        c.pick(std::vector<std::string>{"flat", "flat", "flat", "cylinder", "sphere"}) + "; roof-direction: " + c.pick(std::vector<std::string>{"N", "SE", "200", "WNW"}) + "; " + look("roof-") + look("facade-");
  }

  /// Adds an element of any kind.
  void thing() {
    Thing t;
    std::uint64_t id = 100 + city.things.size();
    std::string sid = std::to_string(id), rule, selector;
    auto style = [&](const std::string &kind, const std::string &key = "t") { return kind + z + "[" + key + "=e" + sid + "]"; };
    auto kind = c.draw(9);
    switch (kind) {
      case 0: case 1: {   // surface
        t.builder = "terrain";
        city.terrain = true;
        bool wide = c.boolean();
        if (wide) { t.element = area(polygon(c.pick({0.1, 0.3, 0.6, 0.9}))); selector = style("area"); }
        else { t.element = way(line(2, 5)); selector = style("way"); }
        std::string layer = c.pick(std::vector<std::string>{"", "earth", "water", "wood"});
        rule = "builder: terrain; " + (layer.empty() ? terrain("") : "terrain-layer: " + layer + "; ") + (wide ? "" : "width: " + c.pick(std::vector<std::string>{"1%", "3%", "2m"}) + "; ");
        break;
      }
      case 2: case 3: {   // building
        t.builder = "building";
        t.meshes = {"building:" + sid};
        t.always = true;
        t.element = area(polygon(0.2));
        selector = style("area");
        rule = building();
        break;
      }
      case 4: {   // building with holes, or of parts
        t.builder = "building";
        t.meshes = {"building:" + sid};
        t.always = true;
        auto r = std::make_shared<Relation>();
        selector = style("relation");
        if (c.boolean()) {
          auto outer = polygon(0.2);
          P m{0, 0};
          for (const auto &v : outer) { m.x += v.x/static_cast<double>(outer.size()); m.y += v.y/static_cast<double>(outer.size()); }
          double d = geometry::distanceToPath(m, outer, true);
          r->elements.push_back(area(outer));
          if (geometry::inside(m, outer) && d > 0.005) {
            Path hole = {{m.x - d/3, m.y - d/3}, {m.x - d/3, m.y + d/3}, {m.x + d/3, m.y + d/3}, {m.x + d/3, m.y - d/3}};
            r->elements.push_back(area(hole));
          }
          rule = building() + "multipolygon: true; ";
        } else {
          c.repeat(1, 3, [&](std::size_t i) {
            auto a = area(polygon(0.2));
            a->id = id*10 + i;
            addTags(*a, table, {{"p", "e" + sid}});
            r->elements.push_back(a);
          });
          rule = "builder: building; ";
          city.css += style("area", "p") + " { " + building() + "}\n";
        }
        t.element = r;
        break;
      }
      case 5: case 6: {   // trees, lamps
        t.builder = kind == 5 ? "tree" : "lamp";
        bool single = c.boolean();
        t.meshes = {t.builder + (single ? ":" : "s:") + sid};
        t.always = single;
        if (single) { t.element = node(); selector = style("node"); }
        else { t.element = way(line(2, 4)); selector = style("way"); }
        // steps are such that there are not too many of them
        rule = "builder: " + t.builder + "; " + t.builder + "-step: " + std::to_string(static_cast<int>(40000000.0/(1 << city.q.levelOfDetail)/c.pick({5, 20}))) + "m; " + lsys();
        if (kind == 6 && c.boolean()) rule += "width: 2m; ";
        break;
      }
      case 7: case 8: {   // barriers
        t.builder = "barrier";
        t.meshes = {"barrier:" + sid};
        std::string step = std::to_string(static_cast<int>(40000000.0/(1 << city.q.levelOfDetail)/c.pick({5, 20})));
        switch (c.draw(2)) {
          case 0: t.element = way(line(2, 5)); selector = style("way"); rule = "length: " + step + "m; gap: " + c.pick(std::vector<std::string>{"0", "1.5"}) + "m; width: 1m; type: wall; "; break;
          case 1: t.element = area(polygon(0.3)); selector = style("area"); rule = "length: " + step + "m; gap: 0.5m; width: 1m; type: wall; "; break;
          default:
            if (c.boolean()) { t.element = node(); selector = style("node"); }
            else { t.element = way(line(2, 5)); selector = style("way"); }
            rule = "step: " + step + "m; radius: 1m; type: pillar; ";
        }
        rule = "builder: barrier; height: " + c.pick(std::vector<std::string>{"2m", "12m"}) + "; " + look("") + rule;
        break;
      }
      default: {   // for the application
        t.builder = "import";
        switch (c.draw(2)) {
          case 0: t.element = node(); selector = style("node"); break;
          case 1: t.element = way(line(2, 5)); selector = style("way"); break;
          default: t.element = area(polygon(0.3)); selector = style("area");
        }
        rule = "builder: import; ";
      }
    }
    t.element->id = id;
    t.tags = {{"t", "e" + sid}};
    addTags(*t.element, table, t.tags);
    city.css += selector + " { " + rule + "}\n";
    city.things.push_back(t);
  }
};

inline City generate(Ctx &c, StringTable &table, const std::string &dir, const QuadKey &q, std::size_t max) {
  Maker m(c, table, dir, q);
  m.canvas();
  c.repeat(1, max, [&](std::size_t) { m.thing(); });
  return m.city;
}

}

#endif
