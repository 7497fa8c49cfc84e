// C25: cancelled operations.
#include "city.hpp"
#include "osm.hpp"
#include "stores.hpp"

#include "index/GeoStore.hpp"

using namespace bench;
using namespace utymap::builders;
using namespace utymap::index;
using pbt::Ctx;

namespace {

std::string prefixOf(const std::vector<std::string> &got, const std::vector<std::string> &all) {
  if (got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin())) return "";
  return difference(std::vector<std::string>(all.begin(), all.begin() + static_cast<std::ptrdiff_t>(std::min(all.size(), got.size()))), got);
}

// ---- load of a tile

struct CountingElevation final : utymap::heightmap::ElevationProvider {
  Slope slope;
  mutable std::size_t count = 0;
  std::function<void()> asked = [] {};
  double at(double lat, double lon) const { ++count; asked(); return slope.at(lat, lon); }
  double getElevation(const QuadKey &, const GeoCoordinate &g) const override { return at(g.latitude, g.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};

void load(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable table(dir);
  auto q = anyTile(c, 10, 18);
  auto city = city::generate(c, table, dir, q, 6);
  auto styles = provider(city.css, table, dir);
  c.note() << city.css << "tile " << show(q) << "\n";
  for (const auto &t : city.things) c.note() << describe(*t.element) << "\n";
  GeoStore geoStore(table);
  std::vector<ElementStore *> stores;
  auto count = c.integer(1, 3);
  for (int i = 0; i < count; ++i) {
    if (c.chance(1, 6)) stores.push_back(new PersistentElementStore(storeDir(c), table));
    else stores.push_back(new InMemoryElementStore(table));
    geoStore.registerStore("store" + std::to_string(i), std::unique_ptr<ElementStore>(stores.back()));
  }
  for (const auto &t : city.things) stores[c.draw(stores.size() - 1)]->save(*t.element, q);
  CountingElevation ele;
  ele.slope = anySlope(c, city.box);
  QuadKeyBuilder builder(geoStore, table);
  city::registerAll(builder);

  std::vector<std::string> events;
  std::function<void()> delivered = [] {};
  auto run = [&](const utymap::CancellationToken &token) {
    events.clear();
    ele.count = 0;
    auto add = [&](const std::string &e) { events.push_back(e); delivered(); };
    pbt::noThrow("build", [&] {
      builder.build(q, *styles, ele, [&](const Mesh &m) { add(city::fingerprint(m)); }, [&](const Element &e) { add(describe(e)); }, token);
    });
  };
  utymap::CancellationToken never;
  run(never);
  auto reference = events;
  auto queries = ele.count;

  bool early = false;
  c.repeat(1, 4, [&](std::size_t) {
    utymap::CancellationToken token;
    std::size_t limit = 0, before = 0;
    bool cancelled = false;
    auto cancel = [&] { if (!cancelled) before = events.size(); cancelled = true; token.cancel(); };
    std::string how;
    switch (c.draw(3)) {
      case 0: events.clear(); cancel(); how = "before it starts"; break;
      case 1: if (queries > 0) {
        limit = static_cast<std::size_t>(c.integer(1, static_cast<int>(queries)));
        ele.asked = [&] { if (ele.count == limit) cancel(); };
        how = "at query " + std::to_string(limit) + " of elevation";
        break;
      }  // fall through
      default:
        limit = static_cast<std::size_t>(c.integer(1, static_cast<int>(reference.size()) + 1));
        delivered = [&] { if (events.size() == limit) cancel(); };
        how = "in callback " + std::to_string(limit);
    }
    run(token);
    ele.asked = [] {};
    delivered = [] {};
    auto got = events;
    if (cancelled) PBT_CHECK(c, got.size() == before, got.size() - before << " of " << reference.size() << " things are delivered after the load is cancelled " << how << ": " << (got.size() > before ? got[before] : ""));
    else PBT_CHECK(c, got == reference, "load which is not cancelled: " << difference(reference, got));
    PBT_CHECK(c, prefixOf(got, reference).empty(), "load which is cancelled " << how << ": " << prefixOf(got, reference));
    if (!got.empty() && got.size() < reference.size()) early = true;
    if (c.boolean()) {
      run(never);
      PBT_CHECK(c, events == reference, "load after the one which is cancelled " << how << ": " << difference(reference, events));
    }
  });
  run(never);
  PBT_CHECK(c, events == reference, "load at the end: " << difference(reference, events));
  if (early) c.nontrivial();
}

// ---- search

void search(Ctx &c) {
  StringTable table(c.tmpDir());
  GeoStore geoStore(table);
  std::vector<ElementStore *> stores;
  auto count = c.integer(1, 3);
  for (int i = 0; i < count; ++i) {
    if (c.chance(1, 3)) stores.push_back(new PersistentElementStore(storeDir(c), table));
    else stores.push_back(new InMemoryElementStore(table));
    geoStore.registerStore("store" + std::to_string(i), std::unique_ptr<ElementStore>(stores.back()));
  }
  int lod = static_cast<int>(c.integer(2, 16));
  QuadKey q(lod, static_cast<int>(c.integer(0, (1 << lod) - 2)), static_cast<int>(c.integer(0, (1 << lod) - 2)));
  std::vector<QuadKey> tiles = {q, QuadKey(lod, q.tileX + 1, q.tileY), QuadKey(lod - 1, q.tileX/2, q.tileY/2)};
  const std::vector<std::string> vocabulary = {"park", "road", "tree"};
  c.repeat(1, 14, [&](std::size_t i) {
    TextTags tags;
    const auto &tile = c.pick(tiles);
    auto e = genStored(c, table, tile, 100 + i, tags, vocabulary);
    auto s = c.draw(stores.size() - 1);
    stores[s]->save(*e, tile);
    c.note() << "store" << s << " " << show(tile) << " " << describe(*e) << "\n";
  });
  auto styles = provider("node|z1-16[a] { builder: b; }\n", table);
  const auto &tile = c.pick(tiles);
  bool text = c.boolean();
  TextQuery t;
  if (text) {
    if (c.boolean()) t.orTerms = {c.pick(vocabulary), c.pick(vocabulary)}; else t.andTerms = {c.pick(vocabulary)};
    if (c.chance(1, 4)) t.notTerms = {c.pick(vocabulary)};
  }
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tiles[2]);
  auto run = [&](Collector &v, const utymap::CancellationToken &token) {
    pbt::noThrow("search", [&] {
      if (text) geoStore.search(join(t.notTerms, " "), join(t.andTerms, " "), join(t.orTerms, " "), box, LodRange(lod - 1, lod), v, token);
      else geoStore.search(tile, *styles, v, token);
    });
  };
  Collector all;
  utymap::CancellationToken never;
  run(all, never);
  for (std::size_t n = 0; n <= all.texts.size() && n < 6; ++n) {
    auto limit = n < 2 ? n : static_cast<std::size_t>(c.integer(0, static_cast<int>(all.texts.size())));
    Collector v;
    utymap::CancellationToken token;
    if (limit == 0) token.cancel();
    v.after = [&] { if (v.texts.size() == limit) token.cancel(); };
    run(v, token);
    std::vector<std::string> expected(all.texts.begin(), all.texts.begin() + static_cast<std::ptrdiff_t>(std::min(limit, all.texts.size())));
    PBT_CHECK(c, v.texts == expected, (text ? "text search" : "search") << " cancelled at element " << limit << " of " << all.texts.size() << ": " << difference(expected, v.texts));
  }
  Collector again;
  run(again, never);
  PBT_CHECK(c, again.texts == all.texts, "search after those which are cancelled: " << difference(all.texts, again.texts));
  c.label(text ? "text" : "tile");
  if (all.texts.size() > 1) c.nontrivial();
}

// ---- import

const char *const Owner = "own";

/// Store which reports what is saved.
class SpyStore final : public ElementStore {
 public:
  SpyStore(const StringTable &table, std::unique_ptr<ElementStore> inner) : ElementStore(table), inner(std::move(inner)) {}
  void search(const std::string &n, const std::string &a, const std::string &o, const BoundingBox &b, const LodRange &r, utymap::entities::ElementVisitor &v, const utymap::CancellationToken &t) override { inner->search(n, a, o, b, r, v, t); }
  void search(const QuadKey &q, utymap::entities::ElementVisitor &v, const utymap::CancellationToken &t) override { inner->search(q, v, t); }
  bool hasData(const QuadKey &q) const override { return inner->hasData(q); }
  void save(const Element &e, const QuadKey &q) override { inner->save(e, q); saved(e, q); }
  void erase(const QuadKey &q) override { inner->erase(q); }
  void erase(const BoundingBox &b, const LodRange &r) override { inner->erase(b, r); }
  std::unique_ptr<ElementStore> inner;
  std::function<void(const Element &, const QuadKey &)> saved = [](const Element &, const QuadKey &) {};
};

std::string ownerOf(const Element &e, const StringTable &table) {
  for (const auto &t : e.tags) if (table.getString(t.key) && *table.getString(t.key) == Owner) return *table.getString(t.value);
  if (auto r = dynamic_cast<const Relation *>(&e)) for (const auto &m : r->elements) { auto s = ownerOf(*m, table); if (!s.empty()) return s; }
  return "";
}

void le32(std::string &s, std::uint32_t v) { for (int i = 0; i < 4; ++i) s += static_cast<char>(v >> 8*i); }
void be32(std::string &s, std::uint32_t v) { for (int i = 3; i >= 0; --i) s += static_cast<char>(v >> 8*i); }
void f64(std::string &s, double v) { s.append(reinterpret_cast<const char *>(&v), 8); }

/// Writes points with a name each as shape files.
void writeShape(const std::string &path, const std::vector<std::pair<GeoCoordinate, std::string>> &points) {
  auto header = [](std::size_t bytes) {
    std::string s;
    be32(s, 9994);
    for (int i = 0; i < 5; ++i) be32(s, 0);
    be32(s, static_cast<std::uint32_t>(bytes/2)); le32(s, 1000); le32(s, 1);
    for (double v : {-180., -90., 180., 90., 0., 0., 0., 0.}) f64(s, v);
    return s;
  };
  std::string shp, shx, dbf("\x03\x76\x0b\x13", 4);
  for (std::size_t i = 0; i < points.size(); ++i) {
    be32(shx, static_cast<std::uint32_t>((100 + shp.size())/2)); be32(shx, 10);
    be32(shp, static_cast<std::uint32_t>(i + 1)); be32(shp, 10);
    le32(shp, 1); f64(shp, points[i].first.longitude); f64(shp, points[i].first.latitude);
  }
  writeFile(path + ".shp", header(100 + shp.size()) + shp);
  writeFile(path + ".shx", header(100 + shx.size()) + shx);
  le32(dbf, static_cast<std::uint32_t>(points.size()));
  dbf += static_cast<char>(33 + 32); dbf += '\0'; dbf += static_cast<char>(11); dbf += '\0';
  dbf.append(20, '\0');
  std::string name(Owner);
  name.resize(11, '\0');
  dbf += name + 'C'; le32(dbf, 0); dbf += static_cast<char>(10); dbf.append(15, '\0');
  dbf += '\x0d';
  for (const auto &p : points) { auto v = p.second; v.resize(10, ' '); dbf += ' ' + v; }
  writeFile(path + ".dbf", dbf);
}

/// A file with elements in and around a tile. Each element which is stored says whose it is.
std::string writeData(Ctx &c, const std::string &path, const BoundingBox &box, const std::string &prefix) {
  int next = 0;
  auto owner = [&] { return prefix + std::to_string(next++); };
  auto inside = [&] { return c.chance(2, 3); };
  auto point = [&](bool in) {
    double d = in ? 0.02 : -1.1;
    return GeoCoordinate(box.minPoint.latitude + box.height()*c.real(d, 1 - d), box.minPoint.longitude + box.width()*c.real(d, 1 - d));
  };
  auto kind = c.draw(3);
  if (kind == 0 || kind == 1) {
    osm::Data d;
    auto unit = [](double v) { return static_cast<std::int64_t>(std::llround(v*osm::Unit)); };
    std::uint64_t id = 1;
    c.repeat(0, 8, [&](std::size_t) { auto p = point(inside()); d.nodes.push_back({id++, unit(p.latitude), unit(p.longitude), {{Owner, owner()}}}); });
    std::vector<std::uint64_t> ways;
    c.repeat(0, 6, [&](std::size_t) {
      osm::W w;
      w.id = id++;
      w.tags = {{Owner, owner()}};
      bool in = inside(), closed = c.boolean();
      c.repeat(closed ? 3 : 2, 5, [&](std::size_t) { auto p = point(in); d.nodes.push_back({id, unit(p.latitude), unit(p.longitude), {}}); w.refs.push_back(id++); });
      if (closed) w.refs.push_back(w.refs[0]);
      ways.push_back(w.id);
      d.ways.push_back(w);
    });
    if (!ways.empty()) c.repeat(0, 3, [&](std::size_t) {
      osm::R r{id++, {}, {{Owner, owner()}}};
      c.repeat(1, 3, [&](std::size_t) { r.members.push_back({'w', c.pick(ways), "part"}); });
      d.relations.push_back(r);
    });
    if (d.nodes.empty()) d.nodes.push_back({id++, unit(box.center().latitude), unit(box.center().longitude), {{Owner, owner()}}});
    auto form = kind == 0 ? osm::Form::Xml : osm::Form::Pbf;
    auto file = path + (kind == 0 ? ".xml" : ".pbf");
    writeFile(file, osm::write(c, form, d));
    c.note() << file.substr(file.size() - 7) << ": " << osm::show(d) << "\n";
    c.label(kind == 0 ? "xml" : "pbf");
    return file;
  }
  std::vector<std::pair<GeoCoordinate, std::string>> points;
  c.repeat(1, 10, [&](std::size_t) { auto p = point(inside()); points.emplace_back(p, owner()); });
  for (const auto &p : points) c.note() << p.second << " " << p.first.latitude << "," << p.first.longitude << "\n";
  if (kind == 2) {
    std::ostringstream s;
    s.precision(12);
    s << "{\"pois\":{\"type\":\"FeatureCollection\",\"features\":[";
    for (std::size_t i = 0; i < points.size(); ++i)
      s << (i ? "," : "") << "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[" << points[i].first.longitude << "," << points[i].first.latitude << "]},\"properties\":{\"" << Owner << "\":\"" << points[i].second << "\"}}";
    s << "]}}";
    writeFile(path + ".json", s.str());
    c.label("json");
    return path + ".json";
  }
  writeShape(path, points);
  c.label("shape");
  return path + ".shp";
}

typedef std::map<std::string, std::vector<std::string>> Content;   // elements of each tile which has data

/// What is in the tiles, also what text search finds there.
Content contentOf(ElementStore &store, const std::vector<QuadKey> &tiles) {
  Content r;
  utymap::CancellationToken never;
  for (const auto &q : tiles) {
    if (!store.hasData(q)) continue;
    Collector v;
    store.search(q, v, never);
    r[show(q)] = v.texts;
  }
  return r;
}
std::multiset<std::string> found(ElementStore &store, const BoundingBox &box, int lod, const std::string &term) {
  utymap::CancellationToken never;
  Collector v;
  store.search("", term, "", box, LodRange(lod, lod), v, never);
  return std::multiset<std::string>(v.texts.begin(), v.texts.end());
}
std::string contentText(const Content &x) {
  std::string s;
  for (const auto &p : x) { s += p.first + ":"; for (const auto &e : p.second) s += " " + e; s += "\n"; }
  return s;
}

const char *const Css[] = {
    "node,way,area,relation|z1-19[own] { builder: b; }\n",
    "node,way,area,relation|z1-19[own] { builder: b; clip: true; }\n",
    "node|z1-19[own] { builder: b; } way,area,relation|z1-19[own] { builder: b; clip: true; }\n"};

enum class Import { Tile, Range, Box };
Import anyImport(Ctx &c) { return c.boolean() ? Import::Tile : c.boolean() ? Import::Range : Import::Box; }

void addFile(GeoStore &geoStore, const std::string &store, const std::string &file, Import how, const QuadKey &q, const LodRange &range, const utymap::mapcss::StyleProvider &styles, const utymap::CancellationToken &token) {
  switch (how) {
    case Import::Tile: geoStore.add(store, file, q, styles, token); break;
    case Import::Range: geoStore.add(store, file, range, styles, token); break;
    default: geoStore.add(store, file, utymap::utils::GeoUtils::quadKeyToBoundingBox(q), range, styles, token);
  }
}

void import(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable table(dir);
  auto q = anyTile(c, 8, 16);
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  c.note() << "tile " << show(q) << "\n";
  auto first = writeData(c, dir + "/first", box, "a"), second = writeData(c, dir + "/second", box, "b");
  std::string css = Css[c.draw(2)];
  auto styles = provider(css, table);
  c.note() << css;
  LodRange range(q.levelOfDetail - static_cast<int>(c.integer(0, 1)), q.levelOfDetail);
  std::vector<QuadKey> tiles;
  for (int lod = range.start; lod <= range.end; ++lod) {
    QuadKey t(lod, q.tileX >> (q.levelOfDetail - lod), q.tileY >> (q.levelOfDetail - lod));
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) tiles.push_back(QuadKey(lod, t.tileX + x, t.tileY + y));
  }
  tiles.erase(std::remove_if(tiles.begin(), tiles.end(), [](const QuadKey &t) { return t.tileX < 0 || t.tileY < 0 || t.tileX >= 1 << t.levelOfDetail || t.tileY >= 1 << t.levelOfDetail; }), tiles.end());

  GeoStore geoStore(table);
  std::vector<SpyStore *> stores;
  for (int i = 0; i < 3; ++i) {
    std::unique_ptr<ElementStore> inner;
    if (c.chance(1, 3)) inner.reset(new PersistentElementStore(storeDir(c), table));
    else inner.reset(new InMemoryElementStore(table));
    stores.push_back(new SpyStore(table, std::move(inner)));
    geoStore.registerStore("s" + std::to_string(i), std::unique_ptr<ElementStore>(stores.back()));
  }
  SpyStore &store = *stores[0], &other = *stores[1], &fresh = *stores[2];
  utymap::CancellationToken never;
  struct Save { std::string what, owner; };
  std::vector<Save> saves;
  auto record = [&](const Element &e, const QuadKey &t) { saves.push_back({show(t) + " " + describe(e), ownerOf(e, table)}); };
  auto how = anyImport(c);

  // what there is in the end when nothing is cancelled
  fresh.saved = record;
  pbt::noThrow("import", [&] { addFile(geoStore, "s2", second, how, q, range, *styles, never); });
  auto reference = saves;
  auto complete = contentOf(fresh, tiles);
  c.note() << "saves " << reference.size() << "\n";

  bool populated = c.boolean();
  if (populated) {
    auto before = anyImport(c);
    pbt::noThrow("import", [&] { addFile(geoStore, "s0", first, before, q, range, *styles, never); });
    pbt::noThrow("import", [&] { addFile(geoStore, "s1", first, Import::Range, q, range, *styles, never); });
  }
  auto storeBefore = contentOf(store, tiles), otherBefore = contentOf(other, tiles);

  utymap::CancellationToken token;
  auto limit = static_cast<std::size_t>(c.integer(0, static_cast<int>(reference.size()) + 1));
  saves.clear();
  bool cancelled = limit == 0;
  if (cancelled) token.cancel();
  store.saved = [&](const Element &e, const QuadKey &t) { record(e, t); if (saves.size() == limit) { cancelled = true; token.cancel(); } };
  bool notErased = false;
  auto cancelledImport = [&] {
    try { addFile(geoStore, "s0", second, how, q, range, *styles, token); }
    // known finding: there is no way to erase what was imported by range
    catch (const std::domain_error &e) { if (how == Import::Tile || std::string(e.what()).find("not implemented") == std::string::npos) throw; notErased = true; }
  };
  pbt::noThrow("import", cancelledImport);
  store.saved = [](const Element &, const QuadKey &) {};

  std::vector<std::string> texts, all;
  for (const auto &s : saves) texts.push_back(s.what);
  for (const auto &s : reference) all.push_back(s.what);
  PBT_CHECK(c, prefixOf(texts, all).empty(), "import cancelled at save " << limit << " of " << all.size() << ": " << prefixOf(texts, all));
  if (cancelled) {
    for (std::size_t i = limit; i < saves.size(); ++i)
      PBT_CHECK(c, limit > 0 && saves[i].owner == saves[limit - 1].owner, "element " << saves[i].owner << " is saved after the import is cancelled at save " << limit << " of " << all.size() << ": " << saves[i].what);
  } else PBT_CHECK(c, texts == all, "import which is not cancelled: " << difference(all, texts));

  auto now = contentOf(store, tiles), otherNow = contentOf(other, tiles);
  PBT_CHECK(c, otherNow == otherBefore, "data of another store is changed by an import cancelled at save " << limit << ":\n" << contentText(otherNow) << "it was\n" << contentText(otherBefore));
  if (how == Import::Tile) {
    auto want = storeBefore;
    if (cancelled) want.erase(show(q));
    else for (const auto &p : complete) for (const auto &e : p.second) want[p.first].push_back(e);
    PBT_CHECK(c, now == want, "import of a tile cancelled at save " << limit << " of " << all.size() << " leaves\n" << contentText(now) << "not\n" << contentText(want));
    if (cancelled) {
      for (const auto &s : reference) {
        Collector v;
        store.search("", s.owner, "", box, LodRange(q.levelOfDetail, q.levelOfDetail), v, never);
        PBT_CHECK(c, v.texts.empty(), "text search finds what is imported by a cancelled import: " << v.texts[0]);
      }
      // and again
      pbt::noThrow("import", [&] { addFile(geoStore, "s0", second, how, q, range, *styles, never); });
      for (const auto &p : complete) want[p.first] = p.second;
      now = contentOf(store, tiles);
      PBT_CHECK(c, now == want, "import which is repeated leaves\n" << contentText(now) << "not\n" << contentText(want));
      std::set<std::string> owners;
      for (const auto &s : reference) owners.insert(s.owner);
      for (const auto &o : owners) {
        auto a = found(store, box, q.levelOfDetail, o), b = found(fresh, box, q.levelOfDetail, o);
        PBT_CHECK(c, a == b, "text search of " << o << " finds " << a.size() << " elements after an import which is repeated, not " << b.size());
      }
    }
    c.label("tile");
  } else {
    if (!cancelled || !notErased) {
      // TODO of the engine: see the finding. Without cancellation everything is there.
      if (!cancelled) {
        auto want = storeBefore;
        for (const auto &p : complete) for (const auto &e : p.second) want[p.first].push_back(e);
        PBT_CHECK(c, now == want, "import which is not cancelled leaves\n" << contentText(now) << "not\n" << contentText(want));
      }
    } else {
      // nothing of what was there before is lost
      for (const auto &p : storeBefore) PBT_CHECK(c, prefixOf(p.second, now[p.first]).empty(), "cancelled import changes tile " << p.first << ": " << prefixOf(p.second, now[p.first]));
    }
    c.label("range");
  }
  if (cancelled && limit > 0 && saves.size() < reference.size()) c.nontrivial();
}

/// A cancelled import by range ends with an exception and leaves what it has stored.
void cancelledRange(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable table(dir);
  writeShape(dir + "/p", {{GeoCoordinate(10.1, 20.1), "one"}, {GeoCoordinate(10.2, 20.2), "two"}});
  auto styles = provider(Css[0], table);
  GeoStore geoStore(table);
  auto store = new SpyStore(table, std::unique_ptr<ElementStore>(new InMemoryElementStore(table)));
  geoStore.registerStore("s", std::unique_ptr<ElementStore>(store));
  utymap::CancellationToken token;
  store->saved = [&](const Element &, const QuadKey &) { token.cancel(); };
  QuadKey q = utymap::utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(10.1, 20.1), 5);
  pbt::noThrow("cancelled import by range", [&] { geoStore.add("s", dir + "/p.shp", LodRange(5, 5), *styles, token); });
  PBT_CHECK(c, !store->hasData(q), "cancelled import by range leaves data in tile " << show(q));
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C25", {
    {"load", "tiles with elements for all builders; cancelled before the load, in any callback or at any query of elevation; non-trivial: some but not all is delivered", 5000, 80000, load},
    {"search", "tile and text search over up to three stores, cancelled at up to six different elements; non-trivial: more than one element", 12000, 250000, search},
    {"import", "xml, pbf, json and shape files imported for a tile, a range of zoom levels and a bounding box, cancelled before or at any element saved; non-trivial: some but not all is saved", 5000, 100000, import},
  }, {"An element which is being saved when the import is cancelled may be saved to the rest of its tiles.", "Cancellation comes from the thread of the operation itself, at any of its calls out."}, {{"cancelled import by range", cancelledRange}});
}
