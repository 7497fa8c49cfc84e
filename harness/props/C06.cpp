// C06: placement of elements in tiles and zooms.
#include "geometry.hpp"
#include "style.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"

using namespace model;
using geometry::Path;
using pbt::Ctx;
using utymap::utils::GeoUtils;

namespace {

typedef std::map<QuadKey, std::vector<std::shared_ptr<Element>>, QuadKey::Comparator> Placed;

/// Element store which only records.
struct Recorder : utymap::index::ElementStore {
  explicit Recorder(const StringTable &st) : ElementStore(st) {}
  Placed placed;
  void search(const std::string &, const std::string &, const std::string &, const BoundingBox &, const LodRange &,
              utymap::entities::ElementVisitor &, const utymap::CancellationToken &) override {}
  void search(const QuadKey &, utymap::entities::ElementVisitor &, const utymap::CancellationToken &) override {}
  bool hasData(const QuadKey &q) const override { return placed.count(q) > 0; }
  void save(const Element &e, const QuadKey &q) override {
    Collector v;
    e.accept(v);
    placed[q].push_back(v.elements[0]);
  }
  void erase(const QuadKey &) override {}
  void erase(const BoundingBox &, const LodRange &) override {}
};

struct RuleModel {
  std::set<std::string> kinds;
  int from, to;
  std::vector<std::pair<std::string, std::string>> conditions;  // value "" means presence
  std::vector<std::pair<std::string, std::string>> declarations;
};

std::map<std::string, std::string> styleOf(const std::vector<RuleModel> &rules, const Element &e, const TextTags &tags, int lod) {
  std::map<std::string, std::string> has(tags.begin(), tags.end()), style;
  for (const auto &r : rules) {
    if (!r.kinds.count(kindOf(e)) || lod < r.from || lod > r.to) continue;
    bool ok = true;
    for (const auto &c : r.conditions) {
      auto it = has.find(c.first);
      ok = ok && it != has.end() && (c.second.empty() || it->second == c.second);
    }
    if (ok) for (const auto &d : r.declarations) style[d.first] = d.second;
  }
  return style;
}

std::vector<RuleModel> genRules(Ctx &c, int lo, int hi) {
  std::vector<RuleModel> rules;
  if (c.chance(3, 4)) rules.push_back({{"node", "way", "area", "relation"}, lo, hi, {{"any", "yes"}}, {{"x", "1"}, {"clip", c.boolean() ? "true" : "false"}}});
  c.repeat(1, 5, [&](std::size_t) {
    RuleModel r;
    static const std::vector<std::string> kinds = {"node", "way", "area", "relation"};
    for (const auto &k : kinds) if (!c.chance(1, 4)) r.kinds.insert(k);
    if (r.kinds.empty()) r.kinds.insert("node");
    r.from = static_cast<int>(c.integer(std::max(1, lo - 1), hi));
    r.to = static_cast<int>(c.integer(r.from, std::min(19, hi + 1)));
    c.repeat(0, 2, [&](std::size_t i) { r.conditions.emplace_back(i == 0 ? "k1" : "k2", c.pick<std::string>({"", "a", "b"})); });
    if (r.conditions.empty()) r.conditions.emplace_back("any", "yes");
    c.repeat(1, 3, [&](std::size_t) {
      switch (c.draw(4)) {
        case 0: case 1: r.declarations.emplace_back("x", "1"); break;
        case 2: case 3: r.declarations.emplace_back("clip", c.chance(3, 4) ? "true" : "false"); break;
        default: r.declarations.emplace_back("skip", c.chance(1, 2) ? "true" : "maybe");
      }
    });
    rules.push_back(r);
  });
  return rules;
}

std::string text(const std::vector<RuleModel> &rules) {
  std::string s;
  for (const auto &r : rules) {
    std::string sel;
    for (const auto &k : r.kinds) {
      if (!sel.empty()) sel += ",";
      sel += k + "|z" + std::to_string(r.from) + (r.to == r.from ? "" : "-" + std::to_string(r.to));
      for (const auto &c : r.conditions) sel += c.second.empty() ? "[" + c.first + "]" : "[" + c.first + "=" + c.second + "]";
    }
    s += sel + " { ";
    for (const auto &d : r.declarations) s += d.first + ": " + d.second + "; ";
    s += "}\n";
  }
  return s;
}

struct Gen {
  Ctx &c;
  double lat, lon, w, h;
  std::uint64_t id = 1;
  GeoCoordinate coord() { return GeoCoordinate(lat + h*c.real(0, 1), lon + w*c.real(0, 1)); }
  std::shared_ptr<Element> make(int depth) {
    std::shared_ptr<Element> e;
    switch (c.draw(depth < 1 ? 3 : 2)) {
      case 0: { auto n = std::make_shared<Node>(); n->coordinate = coord(); e = n; break; }
      case 1: { auto n = std::make_shared<Way>(); c.repeat(2, 5, [&](std::size_t) { n->coordinates.push_back(coord()); }); e = n; break; }
      case 2: {
        auto n = std::make_shared<Area>();
        double s = c.real(0.05, 1), x = c.real(0, 1 - s), y = c.real(0, 1 - s);
        for (const auto &p : geometry::star(c, 0.5, 0.5, 0.1, 0.5, 3, 8)) n->coordinates.push_back(GeoCoordinate(lat + h*(y + s*p.y), lon + w*(x + s*p.x)));
        e = n;
        break;
      }
      default: { auto n = std::make_shared<Relation>(); c.repeat(1, 3, [&](std::size_t) { n->elements.push_back(make(depth + 1)); }); e = n; }
    }
    e->id = id++;
    return e;
  }
};

BoundingBox boxOf(const Element &e) {
  BoundingBox b(GeoCoordinate(1000, 1000), GeoCoordinate(-1000, -1000));
  LeafVisitor v;
  auto add = [&b](const GeoCoordinate &g) {
    b.minPoint.latitude = std::min(b.minPoint.latitude, g.latitude);
    b.minPoint.longitude = std::min(b.minPoint.longitude, g.longitude);
    b.maxPoint.latitude = std::max(b.maxPoint.latitude, g.latitude);
    b.maxPoint.longitude = std::max(b.maxPoint.longitude, g.longitude);
  };
  v.node = [&](const Node &n) { add(n.coordinate); };
  v.way = [&](const Way &w) { for (const auto &g : w.coordinates) add(g); };
  v.area = [&](const Area &w) { for (const auto &g : w.coordinates) add(g); };
  e.accept(v);
  return b;
}

/// -1 apart, 0 nearly touching, 1 overlap.
int overlap(const BoundingBox &a, const BoundingBox &b) {
  double dy = std::min(a.maxPoint.latitude, b.maxPoint.latitude) - std::max(a.minPoint.latitude, b.minPoint.latitude);
  double dx = std::min(a.maxPoint.longitude, b.maxPoint.longitude) - std::max(a.minPoint.longitude, b.minPoint.longitude);
  double d = std::min(dx, dy);
  return d > 1e-6 ? 1 : d < -1e-9 ? -1 : (d >= 0 && (a.minPoint.latitude == a.maxPoint.latitude || a.minPoint.longitude == a.maxPoint.longitude)) ? 0 : 0;
}

/// How much of the geometry is in the tile: -1 nothing, 0 unclear, 1 something.
int reaches(const Element &e, const BoundingBox &tile) {
  geometry::Box in{tile.minPoint.longitude + 1e-6, tile.minPoint.latitude + 1e-6, tile.maxPoint.longitude - 1e-6, tile.maxPoint.latitude - 1e-6};
  geometry::Box out{in.x0 - 2e-6, in.y0 - 2e-6, in.x1 + 2e-6, in.y1 + 2e-6};
  int r = -1;
  auto contains = [](const geometry::Box &b, const GeoCoordinate &g) { return g.longitude > b.x0 && g.longitude < b.x1 && g.latitude > b.y0 && g.latitude < b.y1; };
  auto path = [](const std::vector<GeoCoordinate> &v) { Path p; for (const auto &g : v) p.push_back({g.longitude, g.latitude}); return p; };
  LeafVisitor v;
  v.node = [&](const Node &n) { r = std::max(r, contains(in, n.coordinate) ? 1 : contains(out, n.coordinate) ? 0 : -1); };
  v.way = [&](const Way &w) { r = std::max(r, geometry::lengthInBox(path(w.coordinates), in) > 3e-6 ? 1 : geometry::lengthInBox(path(w.coordinates), out) > 0 ? 0 : -1); for (const auto &g : w.coordinates) if (contains(out, g)) r = std::max(r, 0); };
  v.area = [&](const Area &w) { r = std::max(r, geometry::areaInBox(path(w.coordinates), in) > 1e-10 ? 1 : geometry::areaInBox(path(w.coordinates), out) > 0 ? 0 : -1); };
  e.accept(v);
  return r;
}

enum Mode { Range, Tile, Box };

struct Scene {
  Ctx &c;
  std::string dir;
  StringTable st;
  int lo, hi;
  std::vector<RuleModel> rules;
  std::unique_ptr<utymap::mapcss::StyleProvider> styles;
  std::shared_ptr<Element> element;
  TextTags tags;
  BoundingBox box;

  explicit Scene(Ctx &c) : c(c), dir(c.tmpDir()), st(dir) {
    lo = static_cast<int>(c.integer(1, 17));
    hi = lo + static_cast<int>(c.integer(0, 2));
    rules = genRules(c, lo, hi);
    auto css = text(rules);
    c.note() << css;
    styles = noThrowProvider(css);
  }
  std::unique_ptr<utymap::mapcss::StyleProvider> noThrowProvider(const std::string &css) {
    return pbt::noThrow("stylesheet", [&] { return provider(css, st); });
  }

  void generate(std::uint64_t id) {
    // sizes are relative to tiles of the lowest zoom
    double tileW = 360.0/(1 << lo);
    Gen g{c, 0, 0, 0, 0};
    g.w = tileW*c.pick({0.01, 0.3, 1.0, 1.0, 1.7, 1.7});
    g.lon = -179.5 + c.real(0, 1)*(359 - g.w);
    double y = -80 + c.real(0, 1)*160;
    g.h = std::min(60.0, g.w*0.6*std::cos(y*geometry::Pi/180));
    g.lat = std::min(y, 84 - g.h);
    g.id = id;
    element = g.make(0);
    tags.clear();
    if (!c.chance(1, 10)) tags.emplace_back("any", "yes");
    if (!c.chance(1, 5)) tags.emplace_back("k1", c.pick<std::string>({"a", "b", "c"}));
    if (!c.chance(1, 2)) tags.emplace_back("k2", c.pick<std::string>({"a", "b"}));
    addTags(*element, st, tags);
    box = boxOf(*element);
    c.note() << describe(*element) << " {";
    for (const auto &t : tags) c.note() << t.first << "=" << t.second << " ";
    c.note() << "} ";
  }

  void verify(const Placed &placed, bool stored, Mode mode, const LodRange &range, const QuadKey &tile, const BoundingBox &restriction) {
    std::size_t expectedTiles = 0, unclear = 0, admitted = 0;
    Placed rest = placed;
    for (int lod = range.start; lod <= range.end; ++lod) {
      auto style = styleOf(rules, *element, tags, lod);
      bool skip = style.empty() || (style.count("skip") && style["skip"] == "true");
      c.label(style.empty() ? "no style" : skip ? "skipped" : "styled");
      if (skip) continue;
      bool clip = style.count("clip") && style["clip"] == "true";
      auto a = GeoUtils::GeoCoordinateToQuadKey(box.minPoint, lod), b = GeoUtils::GeoCoordinateToQuadKey(box.maxPoint, lod);
      int n = 1 << lod;
      for (int y = std::max(0, b.tileY - 1); y <= std::min(n - 1, a.tileY + 1); ++y)
        for (int x = std::max(0, a.tileX - 1); x <= std::min(n - 1, b.tileX + 1); ++x) {
          QuadKey q(lod, x, y);
          auto tb = GeoUtils::quadKeyToBoundingBox(q);
          int o;
          bool point = dynamic_cast<Node *>(element.get()) != nullptr;
          if (point) {
            int r = reaches(*element, tb);
            o = r;
          } else o = overlap(box, tb);
          if (mode == Tile && !(q == tile)) o = -1;
          if (mode == Box) o = std::min(o, std::min(overlap(box, restriction), overlap(tb, restriction)));
          if (o == 1) ++admitted;
          if (o == 0) ++unclear;
          int want = clip && o >= 0 ? std::min(o, reaches(*element, tb)) : o;
          auto it = rest.find(q);
          std::size_t got = it == rest.end() ? 0 : it->second.size();
          if (want == 1) {
            ++expectedTiles;
            PBT_CHECK(c, got == 1, "tile " << show(q) << " has to have the element" << (clip ? " (clipped)" : "") << ", but it is stored " << got << " times");
          }
          if (want == -1) PBT_CHECK(c, got == 0, "tile " << show(q) << " must not have the element" << (clip ? " (clipped)" : "") << ", but got " << describe(*it->second[0]));
          PBT_CHECK(c, got <= 1, "tile " << show(q) << " got the element " << got << " times");
          if (got == 1) {
            auto &e = *it->second[0];
            if (!clip) PBT_CHECK(c, describe(e) == describe(*element), "tile " << show(q) << ": stored element is " << describe(e));
            else {
              PBT_CHECK(c, e.id == element->id, "tile " << show(q) << ": identifier is " << e.id);
              auto eb = boxOf(e);
              PBT_CHECK(c, eb.minPoint.latitude > tb.minPoint.latitude - 1e-6 && eb.maxPoint.latitude < tb.maxPoint.latitude + 1e-6 &&
                  eb.minPoint.longitude > tb.minPoint.longitude - 1e-6 && eb.maxPoint.longitude < tb.maxPoint.longitude + 1e-6,
                        "tile " << show(q) << ": clipped element leaves the tile: " << describe(e));
            }
          }
          rest.erase(q);
          c.label(clip ? "clipped tiles" : "whole tiles", got);
        }
    }
    PBT_CHECK(c, rest.empty(), "unexpected tile " << show(rest.begin()->first) << " got " << describe(*rest.begin()->second[0]));
    if (unclear == 0) PBT_CHECK(c, stored == (admitted > 0), "store says it " << (stored ? "admitted" : "did not admit") << " the element, " << admitted << " tiles admit it");
    if (expectedTiles > 1 && expectedTiles < 400) c.nontrivial();
  }
};

void placement(Ctx &c) {
  Scene s(c);
  s.generate(static_cast<std::uint64_t>(c.integer(1, 1000)));
  int from = static_cast<int>(c.integer(s.lo, s.hi)), to = static_cast<int>(c.integer(from, s.hi));
  LodRange range(from, to);
  Recorder store(s.st);
  auto mode = static_cast<Mode>(c.draw(2));
  QuadKey tile;
  BoundingBox restriction;
  bool stored = false;
  // restrictions which hit or just miss
  GeoCoordinate somewhere(s.box.minPoint.latitude + (s.box.maxPoint.latitude - s.box.minPoint.latitude)*c.real(-0.2, 1.2),
                          s.box.minPoint.longitude + (s.box.maxPoint.longitude - s.box.minPoint.longitude)*c.real(-0.2, 1.2));
  switch (mode) {
    case Range:
      c.note() << "range " << range.start << ".." << range.end;
      stored = pbt::noThrow("store", [&] { return store.store(*s.element, range, *s.styles); });
      break;
    case Tile:
      tile = GeoUtils::GeoCoordinateToQuadKey(somewhere, static_cast<int>(c.integer(s.lo, s.hi)));
      if (c.chance(1, 3)) tile.tileX = std::min((1 << tile.levelOfDetail) - 1, tile.tileX + 1);
      range = LodRange(tile.levelOfDetail, tile.levelOfDetail);
      c.note() << "tile " << show(tile);
      stored = pbt::noThrow("store", [&] { return store.store(*s.element, tile, *s.styles); });
      break;
    case Box: {
      double tw = 360.0/(1 << s.hi);
      restriction = BoundingBox(somewhere, GeoCoordinate(std::min(84.9, somewhere.latitude + tw*c.real(0.01, 1.5)), std::min(179.9, somewhere.longitude + tw*c.real(0.01, 2.5))));
      if (!restriction.isValid()) c.discard();
      c.note() << "box " << restriction.minPoint.latitude << "," << restriction.minPoint.longitude << ".." << restriction.maxPoint.latitude << "," << restriction.maxPoint.longitude
               << " range " << range.start << ".." << range.end;
      stored = pbt::noThrow("store", [&] { return store.store(*s.element, restriction, range, *s.styles); });
    }
  }
  c.label(mode == Range ? "by zoom range" : mode == Tile ? "by tile" : "by box");
  s.verify(store.placed, stored, mode, range, tile, restriction);
}

void routing(Ctx &c) {
  Scene s(c);
  utymap::index::GeoStore geo(s.st);
  std::vector<Recorder *> recorders;
  const std::vector<std::string> keys = {"one", "two", "three"};
  std::vector<utymap::index::InMemoryElementStore *> stores;
  for (const auto &k : keys) {
    std::unique_ptr<utymap::index::InMemoryElementStore> p(new utymap::index::InMemoryElementStore(s.st));
    stores.push_back(p.get());
    geo.registerStore(k, std::move(p));
  }
  std::map<QuadKey, std::vector<std::vector<std::string>>, QuadKey::Comparator> expected;
  std::uint64_t id = 1;
  LodRange range(s.lo, s.hi);
  utymap::CancellationToken token;
  c.repeat(1, 6, [&](std::size_t) {
    s.generate(id);
    id += 100;
    auto to = static_cast<std::size_t>(c.draw(2));
    // what the element store itself does is judged by the other facet
    Recorder r(s.st);
    r.store(*s.element, range, *s.styles);
    for (const auto &p : r.placed) {
      auto &e = expected[p.first];
      e.resize(3);
      for (const auto &x : p.second) e[to].push_back(describe(*x));
    }
    c.note() << "-> " << keys[to] << " ";
    pbt::noThrow("add", [&] { geo.add(keys[to], *s.element, range, *s.styles, token); });
  });
  std::size_t used = 0;
  for (const auto &p : expected) {
    std::vector<std::string> all;
    std::size_t filled = 0;
    for (std::size_t i = 0; i < 3; ++i) {
      Collector v;
      PBT_CHECK(c, stores[i]->hasData(p.first) == !p.second[i].empty(), "store " << keys[i] << " has data of tile " << show(p.first) << ": " << stores[i]->hasData(p.first));
      stores[i]->search(p.first, v, token);
      PBT_CHECK(c, v.texts == p.second[i], "store " << keys[i] << " tile " << show(p.first) << ": " << difference(p.second[i], v.texts));
      all.insert(all.end(), v.texts.begin(), v.texts.end());
      if (!v.texts.empty()) ++filled;
    }
    used = std::max(used, filled);
    Collector v;
    geo.search(p.first, *s.styles, v, token);
    std::sort(all.begin(), all.end());
    std::sort(v.texts.begin(), v.texts.end());
    PBT_CHECK(c, v.texts == all, "all stores, tile " << show(p.first) << ": " << difference(all, v.texts));
    PBT_CHECK(c, geo.hasData(p.first), "presence in tile " << show(p.first) << " is not reported");
    auto q = p.first;
    q.tileX = (q.tileX + 1) % (1 << q.levelOfDetail);
    PBT_CHECK(c, geo.hasData(q) == (expected.count(q) > 0), "presence in tile " << show(q) << " is reported as " << geo.hasData(q));
  }
  if (used > 1) c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C06", {
    {"placement", "element (node, way, area, relation) of 0.01..1.7 tiles size, 1 to 5 rules with kinds, zoom ranges, conditions, clip and skip; imported by zoom range, tile or box; tiles which receive it against the cascade, box overlap and the geometry; non-trivial: at least two tiles have to receive it", 100000, 1500000, placement},
    {"routing", "up to 6 elements added to three stores of one GeoStore; content per store and of the search over all; non-trivial: a tile with data in two stores", 12000, 200000, routing},
  }, {"Overlaps below 1e-6 degree are not judged.", "Style conditions here are presence and equality; C09 has all."});
}
