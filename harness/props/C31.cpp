// C31: work of several threads at once. Built with ThreadSanitizer, which reports every access which is not ordered.
#include "city.hpp"

#include "Application.hpp"
#include "builders/CacheBuilder.hpp"
#include "builders/MeshCache.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"

#include <atomic>
#include <filesystem>
#include <thread>

using namespace bench;
using namespace utymap::builders;
using namespace utymap::index;
using pbt::Ctx;

namespace {

/// What is delivered is the same whether it comes from the builder or from the cache of meshes: it keeps floats.
void round(std::vector<double> &v) { for (auto &d : v) d = static_cast<float>(d); }

std::string text(std::vector<std::string> parts) {
  std::sort(parts.begin(), parts.end());
  std::string r;
  for (const auto &p : parts) r += p + "\n";
  return r;
}

std::string textOf(const Element &e) {
  std::string r = describe(e);
  return r;
}

/// Collects elements which are found.
struct Found final : utymap::entities::ElementVisitor {
  std::vector<std::string> all;
  void visitNode(const Node &e) override { all.push_back(textOf(e)); }
  void visitWay(const Way &e) override { all.push_back(textOf(e)); }
  void visitArea(const Area &e) override { all.push_back(textOf(e)); }
  void visitRelation(const Relation &e) override { all.push_back(textOf(e)); }
};

enum class What { Load, Cancel, Find, Present, Height, Save };

struct Op {
  What what;
  std::size_t tile;        // which of the tiles
  std::size_t sheet;       // which of the stylesheets
  std::size_t store;       // where to save
  std::size_t thing;       // what to save or to look for
  int after;               // number of callbacks until the cancellation
  double x, y;
};

typedef std::vector<std::vector<Op>> Work;   // of each thread

/// Executes work of all threads at once or one after another; what each operation gave.
std::vector<std::vector<std::string>> run(const Work &work, bool atOnce, const std::function<std::string(const Op &)> &execute) {
  std::vector<std::vector<std::string>> r(work.size());
  auto all = [&](std::size_t t) {
    for (const auto &op : work[t]) {
      try { r[t].push_back(execute(op)); }
      catch (const std::exception &e) { r[t].push_back(std::string("exception ") + e.what()); }
    }
  };
  if (!atOnce) {
    for (std::size_t t = 0; t < work.size(); ++t) all(t);
    return r;
  }
  std::atomic<std::size_t> ready{0};
  std::vector<std::thread> threads;
  for (std::size_t t = 0; t < work.size(); ++t)
    threads.emplace_back([&, t] {
      ++ready;
      while (ready < work.size()) std::this_thread::yield();
      all(t);
    });
  for (auto &t : threads) t.join();
  return r;
}

void compare(Ctx &c, const Work &work, const std::vector<std::vector<std::string>> &got, const std::vector<std::vector<std::string>> &want) {
  for (std::size_t t = 0; t < work.size(); ++t)
    for (std::size_t i = 0; i < work[t].size(); ++i) {
      if (work[t][i].what == What::Cancel) continue;
      PBT_CHECK(c, got[t][i] == want[t][i], "operation " << i << " of the thread " << t << " gives\n" << got[t][i] << "and\n" << want[t][i] << "when it is alone");
    }
}

/// Tiles in a row: the last one gets new data while others are read.
struct Town {
  std::vector<QuadKey> tiles;
  std::vector<std::string> sheets;
  std::vector<city::Thing> things;
  std::vector<std::size_t> tileOf, storeOf;   // of things
  std::vector<city::Thing> more;              // to be saved to the last tile
};

Town town(Ctx &c, StringTable &table, const std::string &dir, bool relations, int maxLod) {
  Town t;
  auto first = anyTile(c, 11, maxLod);
  std::size_t count = c.chance(1, 8) ? 14 : 1 + c.draw(2);   // a store on disk keeps files of 12 tiles open
  for (std::size_t i = 0; i < count; ++i) t.tiles.push_back(QuadKey(first.levelOfDetail, (first.tileX + static_cast<int>(i)*2) % (1 << first.levelOfDetail), first.tileY));
  t.tiles.push_back(QuadKey(first.levelOfDetail, first.tileX, first.tileY + 2));
  city::Maker m(c, table, dir, first);
  m.canvas();
  auto move = [&](const QuadKey &q) { m.city.q = q; m.city.box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q); };
  auto add = [&] {
    m.thing();
    if (!relations && dynamic_cast<const Relation *>(m.city.things.back().element.get())) c.discard();
  };
  for (std::size_t i = 0; i < count; ++i) {
    move(t.tiles[i]);
    c.repeat(1, count > 3 ? 1 : 3, [&](std::size_t) {
      add();
      t.tileOf.push_back(i);
      t.storeOf.push_back(c.draw(1));
    });
  }
  t.things = m.city.things;
  move(t.tiles.back());
  c.repeat(0, 3, [&](std::size_t) { add(); t.more.push_back(m.city.things.back()); });
  t.sheets.push_back(m.city.css);
  if (c.boolean()) t.sheets.push_back(m.city.css + "node" + m.z + "[x=y] { other: true; }\n");
  return t;
}

/// Work for two to four threads. Nothing but the first thread saves, as there is one import at a time.
Work plan(Ctx &c, const Town &t, bool saves) {
  Work w(2 + c.draw(2));
  std::size_t saved = 0;
  for (std::size_t i = 0; i < w.size(); ++i)
    c.repeat(1, t.tiles.size() > 4 ? 12 : 4, [&](std::size_t) {
      Op op{What::Load, c.draw(t.tiles.size() - 2), c.draw(t.sheets.size() - 1), c.draw(1), c.draw(t.things.size() - 1), static_cast<int>(c.draw(3)), c.real(0.01, 0.99), c.real(0.01, 0.99)};
      switch (c.draw(7)) {
        case 0: case 1: case 2: break;
        case 3: op.what = What::Cancel; break;
        case 4: op.what = What::Find; break;
        case 5: op.what = What::Present; break;
        case 6: op.what = What::Height; break;
        default:
          if (!saves || i > 0 || saved >= t.more.size()) break;
          op.what = What::Save;
          op.thing = saved++;
      }
      w[i].push_back(op);
    });
  return w;
}

std::string describeWork(const Work &w) {
  static const char *names[] = {"load", "cancel", "find", "present", "height", "save"};
  std::ostringstream s;
  for (std::size_t t = 0; t < w.size(); ++t) {
    s << "thread " << t << ":";
    for (const auto &op : w[t]) {
      s << " " << names[static_cast<int>(op.what)];
      if (op.what == What::Save) s << " " << op.thing << " to " << op.store;
      else s << " " << op.tile << "/" << op.sheet;
    }
    s << "\n";
  }
  return s.str();
}

void grids(Ctx &c, const Town &t, const std::string &dir) {
  makeDir(dir + "data");
  makeDir(dir + "data/" + std::to_string(t.tiles[0].levelOfDetail));
  int base = static_cast<int>(c.integer(0, 500));
  for (const auto &q : t.tiles) {
    std::string s;
    for (int i = 0; i < 25; ++i) s += std::to_string(base + (i*7 + q.tileX) % 23) + " ";
    writeFile(dir + "data/" + std::to_string(q.levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(q) + ".ele", s);
  }
}

void labels(Ctx &c, const Work &w) {
  std::map<std::size_t, std::set<std::size_t>> loaders;
  bool others = false;
  for (std::size_t t = 0; t < w.size(); ++t)
    for (const auto &op : w[t]) {
      if (op.what == What::Load) loaders[op.tile].insert(t);
      else others = true;
      if (op.what == What::Save) c.label("save");
    }
  std::set<std::size_t> threads;
  for (const auto &l : loaders) {
    threads.insert(l.second.begin(), l.second.end());
    if (l.second.size() > 1) c.label("same tile");
  }
  if (loaders.size() > 1) c.label("different tiles");
  if (others) c.label("not only loads");
  if (threads.size() > 1) c.nontrivial();
}

// ---- the engine composed by hand

/// Everything threads share.
struct World {
  const Town &town;
  std::string dir;
  StringTable table;
  GeoStore geoStore;
  std::vector<ElementStore *> stores;
  std::vector<std::unique_ptr<utymap::mapcss::StyleProvider>> styles;
  std::unique_ptr<MeshCache> cache;
  utymap::heightmap::GridElevationProvider grid;
  QuadKeyBuilder builder;

  World(const Town &town, const std::string &dir, const std::string &resources, bool cached, bool reopened) :
      town(town), dir(dir), table(dir), geoStore(table), grid(dir), builder(geoStore, table) {
    stores = {new InMemoryElementStore(table), new PersistentElementStore(dir + "store", table)};
    for (std::size_t i = 0; i < town.things.size(); ++i) stores[town.storeOf[i]]->save(*town.things[i].element, town.tiles[town.tileOf[i]]);
    if (reopened) {
      delete stores[1];
      stores[1] = new PersistentElementStore(dir + "store", table);
    }
    geoStore.registerStore("memory", std::unique_ptr<ElementStore>(stores[0]));
    geoStore.registerStore("disk", std::unique_ptr<ElementStore>(stores[1]));
    for (const auto &css : town.sheets) styles.push_back(provider(css, table, resources));
    city::registerAll(builder);
    if (cached) {
      cache.reset(new MeshCache(dir, "terrain"));
      makeDir(dir + "cache");
      for (const auto &s : styles) {
        makeDir(dir + "cache/" + s->getTag());
        makeDir(dir + "cache/" + s->getTag() + "/" + std::to_string(town.tiles[0].levelOfDetail));
      }
      auto &shared = *cache;
      builder.registerElementBuilder("terrain", [&shared](const BuilderContext &context) {
        return std::unique_ptr<ElementBuilder>(new CacheBuilder<TerraBuilder>(shared, context));
      });
    }
  }

  std::string load(const QuadKey &q, std::size_t sheet, int cancelAfter) {
    std::vector<std::string> parts;
    utymap::CancellationToken token;
    int callbacks = 0;
    auto count = [&] { if (cancelAfter >= 0 && callbacks++ == cancelAfter) token.cancel(); };
    builder.build(q, *styles[sheet], grid,
                  [&](const Mesh &m) { auto r = copy(m); round(r->vertices); round(r->uvs); parts.push_back(city::fingerprint(*r)); count(); },
                  [&](const Element &e) { parts.push_back(textOf(e)); count(); }, token);
    return text(parts);
  }

  std::string execute(const Op &op) {
    const auto &q = town.tiles[op.tile];
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
    GeoCoordinate point(box.minPoint.latitude + box.height()*op.y, box.minPoint.longitude + box.width()*op.x);
    switch (op.what) {
      case What::Load: return load(q, op.sheet, -1);
      case What::Cancel: return load(q, op.sheet, op.after);
      case What::Find: {
        Found found;
        utymap::CancellationToken token;
        BoundingBox inner(GeoCoordinate(box.minPoint.latitude + box.height()*0.01, box.minPoint.longitude + box.width()*0.01),
                          GeoCoordinate(box.minPoint.latitude + box.height()*0.99, box.minPoint.longitude + box.width()*0.99));
        geoStore.search("", op.thing % 2 ? town.things[op.thing].tags[0].second : "t", "", inner, utymap::LodRange(q.levelOfDetail, q.levelOfDetail), found, token);
        return text(found.all);
      }
      case What::Present: return geoStore.hasData(q) ? "yes" : "no";
      case What::Height: return std::to_string(grid.getElevation(q, point));
      default: stores[op.store]->save(*town.more[op.thing].element, town.tiles.back()); return "";
    }
  }
};

void engine(Ctx &c) {
  auto dir = c.tmpDir(), one = c.tmpDir(), two = c.tmpDir();
  Town t;
  {
    StringTable table(dir);
    t = town(c, table, dir, true, 18);
    for (const auto &css : t.sheets) provider(css, table, dir);
  }
  auto work = plan(c, t, true);
  bool cached = c.boolean(), reopened = c.boolean();
  std::string css = t.sheets[0];
  c.note() << describeWork(work) << "sheets: " << t.sheets.size() << (cached ? ", with cache" : "") << (reopened ? ", store is opened again" : "") << "\n";
  for (std::size_t i = 0; i < t.things.size(); ++i) c.note() << show(t.tiles[t.tileOf[i]]) << " " << (t.storeOf[i] ? "disk" : "memory") << " " << describe(*t.things[i].element) << "\n";
  c.note() << css;
  grids(c, t, dir);
  for (const auto &d : {one, two}) {
    std::filesystem::copy(dir, d, std::filesystem::copy_options::recursive);
    makeDir(d + "store");
    makeDir(d + "store/" + std::to_string(t.tiles[0].levelOfDetail));
  }
  World together(t, one, dir, cached, reopened), alone(t, two, dir, cached, reopened);
  auto got = run(work, true, [&](const Op &op) { return together.execute(op); });
  auto want = run(work, false, [&](const Op &op) { return alone.execute(op); });
  compare(c, work, got, want);
  // what is there after all
  for (std::size_t i = 0; i < t.tiles.size(); ++i)
    for (std::size_t s = 0; s < t.sheets.size(); ++s) {
      auto a = together.load(t.tiles[i], s, -1), b = alone.load(t.tiles[i], s, -1);
      PBT_CHECK(c, a == b, "afterwards the tile " << show(t.tiles[i]) << " gives\n" << a << "and not\n" << b);
    }
  labels(c, work);
}

// ---- the library as applications use it

thread_local std::vector<std::string> *heard = nullptr;
thread_local std::string error;

void onDirectory(const char *path) { std::filesystem::create_directories(path); }
void onError(const char *message) { error = message; }
void onMesh(int, const char *name, const double *vertices, int vertexSize, const int *triangles, int triangleSize, const int *colors, int colorSize,
            const double *uvs, int uvSize, const int *uvMap, int uvMapSize) {
  Mesh m(name);
  m.vertices.assign(vertices, vertices + vertexSize);
  m.triangles.assign(triangles, triangles + triangleSize);
  m.colors.assign(colors, colors + colorSize);
  m.uvs.assign(uvs, uvs + uvSize);
  m.uvMap.assign(uvMap, uvMap + uvMapSize);
  round(m.vertices);
  round(m.uvs);
  heard->push_back(city::fingerprint(m));
}
void onElement(int, std::uint64_t id, const char **tags, int tagsSize, const double *vertices, int vertexSize, const char **styles, int styleSize) {
  std::ostringstream s;
  s.precision(17);
  s << id;
  std::set<std::string> sorted;
  for (int i = 0; i + 1 < tagsSize; i += 2) sorted.insert(std::string(tags[i]) + "=" + tags[i + 1]);
  for (int i = 0; i + 1 < styleSize; i += 2) sorted.insert(std::string(styles[i]) + ":" + styles[i + 1]);
  for (const auto &x : sorted) s << " " << x;
  for (int i = 0; i < vertexSize; ++i) s << " " << vertices[i];
  heard->push_back(s.str());
}

struct Library {
  const Town &town;
  std::vector<std::string> sheets;
  Application app;
  int ele;

  /// NOTE stylesheets are read when they are needed: by the first operation which comes.
  Library(const Town &town, const std::string &dir, const std::vector<std::string> &sheets, bool prepared, int ele) : town(town), sheets(sheets), app(dir.c_str()), ele(ele) {
    app.getConfiguration().registerInMemoryStore("memory");
    std::filesystem::create_directories(dir + "store");
    app.getConfiguration().registerPersistentStore("disk", (dir + "store").c_str(), onDirectory);
    app.getConfiguration().enableMeshCache(prepared);
    if (prepared) for (const auto &s : sheets) app.getConfiguration().registerStylesheet(s.c_str(), onDirectory);
  }

  void save(const city::Thing &thing, std::size_t store, const std::string &sheet) {
    std::vector<double> vertices;
    LeafVisitor v;
    auto add = [&](const GeoCoordinate &g) { vertices.push_back(g.latitude); vertices.push_back(g.longitude); };
    v.node = [&](const Node &n) { add(n.coordinate); };
    v.way = [&](const Way &w) { for (const auto &g : w.coordinates) add(g); };
    v.area = [&](const Area &a) { for (const auto &g : a.coordinates) add(g); add(a.coordinates[0]); };
    thing.element->accept(v);
    std::vector<const char *> tags;
    for (const auto &tag : thing.tags) { tags.push_back(tag.first.c_str()); tags.push_back(tag.second.c_str()); }
    int lod = town.tiles[0].levelOfDetail;
    utymap::CancellationToken token;
    error.clear();
    app.getStorage().addToStore(store ? "disk" : "memory", sheet.c_str(), thing.element->id, vertices.data(), static_cast<int>(vertices.size()),
                                tags.data(), static_cast<int>(tags.size()), lod, lod, onError, &token);
    if (!error.empty()) throw std::domain_error(error);
  }

  std::string execute(const Op &op) {
    std::vector<std::string> parts;
    heard = &parts;
    error.clear();
    const auto &q = town.tiles[op.tile];
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
    double lat = box.minPoint.latitude + box.height()*op.y, lon = box.minPoint.longitude + box.width()*op.x;
    utymap::CancellationToken token;
    switch (op.what) {
      case What::Cancel: token.cancel();   // fall through
      case What::Load:
        app.getSearch().getDataByQuadKey(1, sheets[op.sheet].c_str(), q.tileX, q.tileY, q.levelOfDetail, ele, onMesh, onElement, onError, &token);
        break;
      case What::Find:
        app.getSearch().getDataByText(1, "", op.thing % 2 ? town.things[op.thing].tags[0].second.c_str() : "t", "",
                                      box.minPoint.latitude + box.height()*0.01, box.minPoint.longitude + box.width()*0.01,
                                      box.minPoint.latitude + box.height()*0.99, box.minPoint.longitude + box.width()*0.99,
                                      q.levelOfDetail, q.levelOfDetail, onElement, onError, &token);
        break;
      case What::Present: parts.push_back(app.getStorage().hasData(q.tileX, q.tileY, q.levelOfDetail) ? "yes" : "no"); break;
      case What::Height: parts.push_back(std::to_string(app.getSearch().getElevationByQuadKey(q.tileX, q.tileY, q.levelOfDetail, ele, lat, lon))); break;
      default: save(town.more[op.thing], op.store, sheets[op.sheet]);
    }
    if (!error.empty()) parts.push_back("error: " + error);
    return text(parts);
  }
};

void library(Ctx &c) {
  auto dir = c.tmpDir(), one = c.tmpDir(), two = c.tmpDir();
  Town t;
  {
    StringTable table(c.tmpDir());
    t = town(c, table, dir, false, 16);
  }
  auto work = plan(c, t, true);
  bool prepared = c.boolean();
  int ele = c.boolean() ? 2 : 0;
  c.note() << describeWork(work) << "elevation: " << ele << (prepared ? ", stylesheets are registered" : "") << "\n";
  for (std::size_t i = 0; i < t.things.size(); ++i) c.note() << show(t.tiles[t.tileOf[i]]) << " " << (t.storeOf[i] ? "disk" : "memory") << " " << describe(*t.things[i].element) << "\n";
  c.note() << t.sheets[0];
  std::vector<std::string> sheets;
  for (std::size_t i = 0; i < t.sheets.size(); ++i) {
    sheets.push_back(dir + "style" + std::to_string(i) + ".mapcss");
    writeFile(sheets.back(), t.sheets[i]);
  }
  // data is imported with a stylesheet of its own
  writeFile(dir + "import.mapcss", "node|z1-19[t], way|z1-19[t], area|z1-19[t] { builder: any; }\n");
  grids(c, t, dir);
  for (const auto &d : {one, two}) std::filesystem::copy(dir + "data", d + "data", std::filesystem::copy_options::recursive);
  Library together(t, one, sheets, prepared, ele), alone(t, two, sheets, prepared, ele);
  for (auto *l : {&together, &alone})
    for (std::size_t i = 0; i < t.things.size(); ++i) pbt::noThrow("import", [&] { l->save(t.things[i], t.storeOf[i], dir + "import.mapcss"); });
  auto got = run(work, true, [&](const Op &op) { return together.execute(op); });
  auto want = run(work, false, [&](const Op &op) { return alone.execute(op); });
  compare(c, work, got, want);
  for (std::size_t i = 0; i < t.tiles.size(); ++i)
    for (std::size_t s = 0; s < sheets.size(); ++s) {
      Op op{What::Load, i, s, 0, 0, 0, 0, 0};
      auto a = together.execute(op), b = alone.execute(op);
      PBT_CHECK(c, a == b, "afterwards the tile " << show(t.tiles[i]) << " gives\n" << a << "and not\n" << b);
    }
  labels(c, work);
}

}

int main(int argc, char **argv) {
  // a report of ThreadSanitizer ends the case
  if (!getenv("TSAN_OPTIONS")) {
    setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=3", 1);
    execv("/proc/self/exe", argv);
  }
  return pbt::run(argc, argv, "C31", {
    {"engine", "up to three, sometimes 14 tiles with elements of all kinds in a store in memory and a store on disk, one or two stylesheets, with and without the cache of meshes; two to four threads load tiles, cancel loads, search text, ask for data and elevations, one saves to another tile; non-trivial: two threads load", 400, 12000, engine},
    {"library", "the same by the interface for applications, stylesheets are read by the first thread which needs them; non-trivial: two threads load", 2000, 60000, library, 60, 20},
  }, {"Schedules are those which happen, with ThreadSanitizer reporting accesses which are not ordered in them.", "There is one import at a time, to a tile which is not loaded at the same time: as the C# library does it."});
}
