// C24: the exported functions.
#include "city.hpp"
#include "osm.hpp"
#include "stores.hpp"

#include "heightmap/FlatElevationProvider.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"
#include "index/GeoStore.hpp"
#include "../shared/ExportLib.cpp"

#include <sys/stat.h>

using namespace bench;
using namespace utymap::builders;
using namespace utymap::index;
using pbt::Ctx;

namespace {

// ---- what comes back through callbacks

struct Loaded {
  std::uint64_t id;
  std::string text;   // tags, vertices and style
};
struct Received {
  std::vector<std::unique_ptr<Mesh>> meshes;
  std::vector<std::string> elements, errors, directories;
  std::string wrong;
  int tag = 0;
  bool makeDirectories = true;
  utymap::CancellationToken *cancel = nullptr;   // cancelled in given callback
  std::size_t cancelAt = 0;
  void clear() { meshes.clear(); elements.clear(); errors.clear(); directories.clear(); wrong.clear(); cancel = nullptr; }
  void count() { if (cancel && meshes.size() + elements.size() == cancelAt) cancel->cancel(); }
} received;

std::string number(double d) { char s[40]; std::snprintf(s, sizeof s, "%.17g", d == 0 ? 0 : d); return s; }

std::string elementText(std::uint64_t id, std::vector<std::pair<std::string, std::string>> tags, const std::vector<double> &vertices, std::vector<std::pair<std::string, std::string>> style) {
  std::sort(tags.begin(), tags.end());
  std::sort(style.begin(), style.end());
  std::string s = std::to_string(id) + "{";
  for (const auto &t : tags) s += t.first + "=" + t.second + ";";
  s += "}";
  for (std::size_t i = 0; i < vertices.size(); i += 3) s += "(" + number(vertices[i]) + "," + number(vertices[i + 1]) + "," + number(vertices[i + 2]) + ")";
  s += "[";
  for (const auto &t : style) s += t.first + ":" + t.second + ";";
  return s + "]";
}

void onError(const char *message) { received.errors.push_back(message ? message : ""); if (!message || !*message) received.wrong = "error without message"; }
void onConnectError(const char *message) { onError(message); }
void onDirectory(const char *path) {
  received.directories.push_back(path);
  if (!received.makeDirectories) return;
  std::string p(path);
  for (std::size_t i = 1; i < p.size(); ++i) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
  mkdir(path, 0755);
}
void onMesh(int tag, const char *name, const double *vertices, int vertexSize, const int *triangles, int triSize, const int *colors, int colorSize, const double *uvs, int uvSize, const int *uvMap, int uvMapSize) {
  if (tag != received.tag) received.wrong = "tag " + std::to_string(tag) + " for a request with tag " + std::to_string(received.tag);
  std::unique_ptr<Mesh> m(new Mesh(name));
  m->vertices.assign(vertices, vertices + vertexSize);
  m->triangles.assign(triangles, triangles + triSize);
  m->colors.assign(colors, colors + colorSize);
  m->uvs.assign(uvs, uvs + uvSize);
  m->uvMap.assign(uvMap, uvMap + uvMapSize);
  received.meshes.push_back(std::move(m));
  received.count();
}
std::vector<std::pair<std::string, std::string>> pairs(const char **values, int size) {
  std::vector<std::pair<std::string, std::string>> r;
  if (size % 2) received.wrong = "odd number of keys and values";
  for (int i = 0; i + 1 < size; i += 2) r.emplace_back(values[i], values[i + 1]);
  return r;
}
void onElement(int tag, std::uint64_t id, const char **tags, int tagsSize, const double *vertices, int vertexSize, const char **style, int styleSize) {
  if (tag != received.tag) received.wrong = "tag " + std::to_string(tag) + " for a request with tag " + std::to_string(received.tag);
  if (vertexSize % 3) received.wrong = std::to_string(vertexSize) + " vertex values";
  received.elements.push_back(elementText(id, pairs(tags, tagsSize), std::vector<double>(vertices, vertices + vertexSize), pairs(style, styleSize)));
  received.count();
}

// ---- the model: an engine which is called directly

struct Sheet {
  std::string path, css;
  bool good = true;
};

struct Mirror {
  std::string tableDir, indexPath;
  std::unique_ptr<StringTable> table;
  std::unique_ptr<GeoStore> geoStore;
  std::unique_ptr<QuadKeyBuilder> builder;
  std::map<std::string, std::unique_ptr<utymap::mapcss::StyleProvider>> styles;
  std::map<std::string, ElementStore *> stores;
  utymap::heightmap::FlatElevationProvider flat;
  std::unique_ptr<utymap::heightmap::GridElevationProvider> grid;
  std::unique_ptr<utymap::heightmap::SrtmElevationProvider> srtm;

  void open() {
    close();
    table.reset(new StringTable(tableDir));
    geoStore.reset(new GeoStore(*table));
    builder.reset(new QuadKeyBuilder(*geoStore, *table));
    city::registerAll(*builder);
    grid.reset(new utymap::heightmap::GridElevationProvider(indexPath));
    srtm.reset(new utymap::heightmap::SrtmElevationProvider(indexPath));
  }
  void close() {
    builder.reset();
    geoStore.reset();
    stores.clear();
    styles.clear();
    grid.reset();
    srtm.reset();
    table.reset();
  }
  const utymap::mapcss::StyleProvider &style(const Sheet &s) {
    auto &p = styles[s.path];
    if (!p) p = provider(s.css, *table, s.path.substr(0, s.path.find_last_of('/') + 1));
    return *p;
  }
  const utymap::heightmap::ElevationProvider &elevation(int type) const {
    if (type == 1) return *srtm;
    if (type == 2) return *grid;
    return flat;
  }
};

struct Outcome {
  std::vector<std::unique_ptr<Mesh>> meshes;
  std::vector<std::string> elements;
  std::string error;
};

/// Renders elements as the application gets them.
struct Renderer : utymap::entities::ElementVisitor {
  const Mirror &mirror;
  const utymap::mapcss::StyleProvider *styles;
  const utymap::heightmap::ElevationProvider *ele;
  QuadKey q;
  std::vector<std::string> texts;
  Renderer(const Mirror &mirror, const utymap::mapcss::StyleProvider *styles, const utymap::heightmap::ElevationProvider *ele, const QuadKey &q) : mirror(mirror), styles(styles), ele(ele), q(q) {}
  void visitNode(const Node &n) override { add(n, {n.coordinate}); }
  void visitWay(const Way &n) override { add(n, n.coordinates); }
  void visitArea(const Area &n) override { add(n, n.coordinates); }
  void visitRelation(const Relation &n) override { add(n, {GeoCoordinate(0, 0)}); }   // as documented: no geometry yet
  void add(const Element &e, const std::vector<GeoCoordinate> &line) {
    std::vector<std::pair<std::string, std::string>> tags, style;
    for (const auto &t : e.tags) tags.emplace_back(*mirror.table->getString(t.key), *mirror.table->getString(t.value));
    std::vector<double> vertices;
    for (const auto &g : line) { vertices.push_back(g.longitude); vertices.push_back(g.latitude); vertices.push_back(ele ? ele->getElevation(q, g) : 0); }
    if (styles) {
      auto s = styles->forElement(e, q.levelOfDetail);
      for (const auto &d : s.declarations()) style.emplace_back(*mirror.table->getString(d->key()), d->value());
    }
    texts.push_back(elementText(e.id, tags, vertices, style));
  }
};

bool sameMesh(const Mesh &a, const Mesh &b, bool exact) {
  auto same = [&](const std::vector<double> &x, const std::vector<double> &y) {
    if (x.size() != y.size()) return false;
    // what is cached has single precision
    for (std::size_t i = 0; i < x.size(); ++i) if (x[i] != (exact ? y[i] : static_cast<double>(static_cast<float>(y[i])))) return false;
    return true;
  };
  return a.name == b.name && a.triangles == b.triangles && a.colors == b.colors && a.uvMap == b.uvMap && same(a.vertices, b.vertices) && same(a.uvs, b.uvs);
}

std::string meshDifference(const Mesh &a, const Mesh &b) {
  std::ostringstream s;
  s.precision(17);
  auto one = [&](const char *what, auto x, auto y) {
    if (x == y) return;
    s << " " << what << " " << x.size() << "/" << y.size();
    for (std::size_t i = 0; i < std::min(x.size(), y.size()); ++i) if (x[i] != y[i]) { s << " at " << i << " " << x[i] << "/" << y[i]; break; }
  };
  one("vertices", a.vertices, b.vertices);
  one("triangles", a.triangles, b.triangles);
  one("colors", a.colors, b.colors);
  one("uvs", a.uvs, b.uvs);
  one("map", a.uvMap, b.uvMap);
  return s.str();
}

bool terrainMesh(const std::string &name) { return name.compare(0, 7, "terrain") == 0 || name.compare(0, 5, "mesh_") == 0 || name == "forest"; }

const char *const Owner = "own";

struct Machine {
  Ctx &c;
  std::string dir, index;
  Mirror mirror;
  QuadKey q;
  city::City town;
  std::vector<QuadKey> tiles;
  std::vector<Sheet> sheets;                   // good ones
  std::vector<std::string> badSheets;
  struct File { std::string path; bool good; };
  std::vector<File> files;
  std::map<std::string, bool> kinds;           // registered stores: whether on disk
  std::set<std::string> made;                  // stores with directories
  bool connected = false, cache = false;
  std::set<std::string> registered;            // stylesheets with directories for cached meshes
  struct Cached { std::vector<std::unique_ptr<Mesh>> meshes; bool stale = false; int type = 0; };
  std::map<std::pair<std::string, std::string>, Cached> caches;
  int requests = 0;
  std::size_t delivered = 0, failures = 0, stored = 0;

  explicit Machine(Ctx &c) : c(c), dir(c.tmpDir()) {
    received.clear();
    received.makeDirectories = true;
    index = dir + "/index";
    for (const auto &p : {index, dir + "/mirror", dir + "/style", dir + "/import", index + "/data"}) mkdir(p.c_str(), 0755);
    mirror.tableDir = dir + "/mirror";
    mirror.indexPath = index;
    q = anyTile(c, 10, 17);
    {
      StringTable own(dir);
      town = city::generate(c, own, dir + "/style", q, 5);
    }
    tiles = {q, QuadKey(q.levelOfDetail, q.tileX ^ 1, q.tileY), QuadKey(q.levelOfDetail - 1, q.tileX/2, q.tileY/2)};
    std::string any = "node,way,area,relation|z1-19[" + std::string(Owner) + "] { builder: import; }\n";
    addSheet("city.mapcss", town.css + any);
    addSheet("plain.mapcss", "node,way,area,relation|z1-19[" + std::string(Owner) + "] { builder: import; color: red; clip: " + c.pick(std::vector<std::string>{"true", "false"}) + "; }\nway|z1-19[t] { builder: other; }\n");
    addSheet("pagoda.mapcss", "area|z1-19[t] { builder: building; building: true; height: 5; roof-height: 2; min-height: 0; roof-type: " + c.pick(std::vector<std::string>{"pagoda", "flat"}) + "; facade-type: " + c.pick(std::vector<std::string>{"flat", "glass"}) + "; roof-direction: 0; roof-color: gradient(red); facade-color: gradient(red); roof-texture-index: 0; roof-texture-type: a; roof-texture-scale: 1; facade-texture-index: 0; facade-texture-type: a; facade-texture-scale: 1; }\n");
    badSheets = {dir + "/style/missing.mapcss", dir + "/style/broken.mapcss"};
    auto broken = c.pick(std::vector<std::string>{"node|z1-19[a] { builder: b; ", "node { x }", "@import url(\"missing\");", "@texture url(\"missing.txt\");\nnode|z1[a] { b: c; }\n"});
    writeFile(badSheets[1], broken);
    c.note() << "broken style: " << broken << "\n";
    c.note() << "tile " << show(q) << "\n" << town.css;
  }
  ~Machine() { if (connected) ::disconnect(); }

  void addSheet(const std::string &name, const std::string &css) {
    Sheet s;
    s.path = dir + "/style/" + name;
    s.css = css;
    writeFile(s.path, css);
    sheets.push_back(s);
  }

  // ---- checks of one call

  /// Calls an exported function. Nothing may be thrown.
  template<typename F>
  void call(const std::string &what, F f) {
    c.note() << what << "\n";
    received.clear();
    received.tag = ++requests;
    try { f(); }
    catch (const std::exception &e) { PBT_CHECK(c, false, what << ": exception crosses the interface: " << e.what()); }
    PBT_CHECK(c, received.wrong.empty(), what << ": " << received.wrong);
  }
  void expectError(const std::string &what) {
    PBT_CHECK(c, !received.errors.empty(), what << ": no error is reported");
    PBT_CHECK(c, received.meshes.empty() && received.elements.empty(), what << ": something is delivered");
    ++failures;
    c.note() << "  error: " << received.errors[0] << "\n";
  }
  void expectNone(const std::string &what) { PBT_CHECK(c, received.errors.empty(), what << ": error " << received.errors[0]); }
  void expect(const std::string &what, const std::string &error) {
    if (error.empty()) expectNone(what);
    else {
      PBT_CHECK(c, !received.errors.empty(), what << ": no error is reported but " << error);
      PBT_CHECK(c, received.errors[0] == error, what << ": error is " << received.errors[0] << ", not " << error);
      ++failures;
    }
  }

  // ---- operations

  void connect() {
    if (connected) disconnect();
    if (c.chance(1, 8)) {
      call("connect to a directory which is missing", [&] { ::connect((dir + "/nowhere/").c_str(), onConnectError); });
      expectError("connect to a directory which is missing");
    }
    call("connect", [&] { ::connect(index.c_str(), onConnectError); });
    expectNone("connect");
    connected = true;
    cache = true;
    stale();   // stores in memory are gone
    mirror.open();
    // stores on disk come back
    auto old = kinds;
    kinds.clear();
    for (const auto &k : old) if (k.second) store(k.first, true);
  }
  void disconnect() {
    call("disconnect", [&] { ::disconnect(); });
    expectNone("disconnect");
    if (c.chance(1, 4)) { call("disconnect once more", [&] { ::disconnect(); }); expectNone("disconnect once more"); }
    connected = false;
    mirror.close();
    if (c.chance(1, 4)) unconnected();
  }
  void unconnected() {
    utymap::CancellationToken token;
    auto style = sheets[0].path;
    double at[] = {1, 2};
    const char *tags[] = {"a", "b"};
    std::vector<std::function<void()>> functions = {
      [&] { ::addDataInElement("memory", style.c_str(), 1, at, 2, tags, 2, 1, 1, onError, &token); },
      [&] { ::addDataInRange("memory", style.c_str(), files[0].path.c_str(), 1, 1, onError, &token); },
      [&] { ::addDataInBoundingBox("memory", style.c_str(), files[0].path.c_str(), 0, 0, 1, 1, 1, 1, onError, &token); },
      [&] { ::addDataInQuadKey("memory", style.c_str(), files[0].path.c_str(), 1, 1, 1, onError, &token); },
      [&] { ::getDataByQuadKey(received.tag, style.c_str(), 1, 1, 1, 0, onMesh, onElement, onError, &token); },
      [&] { ::getDataByText(received.tag, "", "a", "", 0, 0, 1, 1, 1, 1, onElement, onError, &token); },
      [&] { ::registerStylesheet(style.c_str(), onDirectory); },
      [&] { ::registerInMemoryStore("memory"); },
      [&] { ::registerPersistentStore("memory", dir.c_str(), onDirectory); },
      [&] { ::enableMeshCache(1); },
      [&] { ::hasData(1, 1, 1); },
      [&] { ::getElevationByQuadKey(1, 1, 1, 0, 1, 1); },
    };
    auto i = c.draw(functions.size() - 1);
    auto what = "function " + std::to_string(i) + " without connection";
    call(what, functions[i]);
    if (i < 6) expectError(what);   // others have no callback of their own
  }

  void store(const std::string &key, bool disk, bool make = true) {
    received.makeDirectories = make;
    if (!disk) call("register memory store " + key, [&] { ::registerInMemoryStore(key.c_str()); });
    else call("register disk store " + key + (make ? "" : ", no directory is created"), [&] { ::registerPersistentStore(key.c_str(), (dir + "/" + key).c_str(), onDirectory); });
    received.makeDirectories = true;
    expectNone("register store");
    if (disk) {
      std::set<std::string> want;
      auto plain = [](std::string s) { std::string r; for (char ch : s) if (ch != '/' || r.empty() || r.back() != '/') r += ch; return r; };
      for (int i = 1; i <= 16; ++i) {
        want.insert(plain(dir + "/" + key + "/" + std::to_string(i)));
        if (!make) continue;
        mkdir((dir + "/mirror-" + key).c_str(), 0755);
        mkdir((dir + "/mirror-" + key + "/" + std::to_string(i)).c_str(), 0755);
      }
      std::set<std::string> got;
      for (const auto &d : received.directories) got.insert(plain(d));
      PBT_CHECK(c, got == want, "register disk store: asks for " << got.size() << " directories, first " << (got.empty() ? "" : *got.begin()));
      if (make) made.insert(key);
    }
    if (kinds.count(key)) return;   // the first one stays
    kinds[key] = disk;
    if (disk) mirror.stores[key] = new PersistentElementStore(dir + "/mirror-" + key, *mirror.table);
    else mirror.stores[key] = new InMemoryElementStore(*mirror.table);
    mirror.geoStore->registerStore(key, std::unique_ptr<ElementStore>(mirror.stores[key]));
  }

  void registerSheet(bool good) {
    auto path = good ? c.pick(sheets).path : c.pick(badSheets);
    call("register stylesheet " + path.substr(dir.size()), [&] { ::registerStylesheet(path.c_str(), onDirectory); });
    if (!good) { expectError("register stylesheet " + path.substr(dir.size())); return; }
    expectNone("register stylesheet");
    registered.insert(path);
    PBT_CHECK(c, received.directories.size() == 16, "register stylesheet: asks for " << received.directories.size() << " directories");
    for (const auto &d : received.directories) PBT_CHECK(c, d.compare(0, index.size() + 7, index + "/cache/") == 0, "register stylesheet: asks for directory " << d);
  }

  struct Where { std::string key; bool known; };
  Where anyStore() {
    if (kinds.empty() || c.chance(1, 12)) return {"unknown", false};
    std::vector<std::string> keys;
    for (const auto &k : kinds) keys.push_back(k.first);
    return {c.pick(keys), true};
  }
  struct Style { std::string path; const Sheet *sheet; };
  Style anyStyle() {
    if (c.chance(1, 12)) return {c.pick(badSheets), nullptr};
    const auto &s = sheets[c.chance(1, 8) ? 2 : c.draw(1)];
    return {s.path, &s};
  }
  std::pair<int, int> anyRange(bool &good) {
    good = !c.chance(1, 12);
    if (!good) return c.pick(std::vector<std::pair<int, int>>{{0, 3}, {q.levelOfDetail, 25}, {-1, -1}, {20, 20}});
    return {q.levelOfDetail - static_cast<int>(c.integer(0, 1)), q.levelOfDetail};
  }

  void stale() { for (auto &p : caches) p.second.stale = true; }

  void addElement() {
    auto where = anyStore();
    auto style = anyStyle();
    bool goodRange;
    auto range = anyRange(goodRange);
    // an element of the city or another one
    std::shared_ptr<Element> e;
    TextTags tags;
    if (c.chance(2, 3)) {
      const auto &t = c.pick(town.things);
      e = t.element;
      tags = t.tags;
      if (std::dynamic_pointer_cast<Relation>(e)) return;
    } else {
      auto n = std::make_shared<Node>();
      n->coordinate = GeoCoordinate(town.box.minPoint.latitude + town.box.height()*c.real(0.02, 0.98), town.box.minPoint.longitude + town.box.width()*c.real(0.02, 0.98));
      n->id = 500 + c.draw(100);
      e = n;
      tags = {{Owner, c.pick(std::vector<std::string>{"me", "you"})}};
    }
    c.repeat(0, 3, [&](std::size_t i) { tags.insert(tags.begin(), {c.pick(std::vector<std::string>{"name", "zoo", "amenity"}) + std::to_string(i), c.pick(std::vector<std::string>{"small cafe", "x"})}); });
    std::vector<GeoCoordinate> line;
    bool area = false;
    if (auto n = std::dynamic_pointer_cast<Node>(e)) line = {n->coordinate};
    else if (auto w = std::dynamic_pointer_cast<Way>(e)) line = w->coordinates;
    else {
      line = std::dynamic_pointer_cast<Area>(e)->coordinates;
      area = true;
      if (c.boolean()) std::reverse(line.begin(), line.end());
      line.push_back(line[0]);
    }
    std::vector<double> vertices;
    for (const auto &g : line) { vertices.push_back(g.latitude); vertices.push_back(g.longitude); }
    int broken = c.chance(1, 12) ? static_cast<int>(c.integer(1, 3)) : 0;
    if (broken == 1) vertices.clear();
    if (broken == 2) vertices.pop_back();
    std::vector<const char *> texts;
    for (const auto &t : tags) { texts.push_back(t.first.c_str()); texts.push_back(t.second.c_str()); }
    if (broken == 3) texts.pop_back();
    std::string what = "add element " + std::to_string(e->id) + " to " + where.key + " with " + style.path.substr(dir.size()) + " at " + std::to_string(range.first) + ".." + std::to_string(range.second) +
        (broken ? " of " + std::to_string(vertices.size()) + " numbers, " + std::to_string(texts.size()) + " texts" : "");
    utymap::CancellationToken token;
    call(what, [&] { ::addDataInElement(where.key.c_str(), style.path.c_str(), e->id, vertices.data(), static_cast<int>(vertices.size()), texts.data(), static_cast<int>(texts.size()), range.first, range.second, onError, &token); });
    if (!where.known || !style.sheet || !goodRange || broken) { expectError(what); return; }
    // the same element as an import has it
    std::shared_ptr<Element> own;
    if (line.size() == 1) { auto n = std::make_shared<Node>(); n->coordinate = line[0]; own = n; }
    else if (area) { auto n = std::make_shared<Area>(); n->coordinates = std::dynamic_pointer_cast<Area>(e)->coordinates; own = n; }
    else if (line.size() > 3 && line.front() == line.back()) {
      auto n = std::make_shared<Area>();
      n->coordinates.assign(line.begin(), line.end() - 1);
      if (utymap::utils::isClockwise(n->coordinates)) std::reverse(n->coordinates.begin(), n->coordinates.end());
      own = n;
    }
    else { auto n = std::make_shared<Way>(); n->coordinates = line; own = n; }
    own->id = e->id;
    addTags(*own, *mirror.table, tags);
    std::string error;
    try { mirror.geoStore->add(where.key, *own, LodRange(range.first, range.second), mirror.style(*style.sheet), token); } catch (const std::exception &e) { error = e.what(); }
    expect(what, error);
    if (error.empty() && kinds[where.key] && (!made.count(where.key) || range.second > 16)) {
      InMemoryElementStore twin(*mirror.table);
      PBT_CHECK(c, !twin.store(*own, LodRange(range.first, range.second), mirror.style(*style.sheet)), what << ": is lost, no directory is there");
    }
    ++stored;
    stale();
  }

  void writeFiles() {
    auto box = town.box;
    auto point = [&] {
      double d = c.chance(2, 3) ? 0.02 : -0.9;
      return GeoCoordinate(box.minPoint.latitude + box.height()*c.real(d, 1 - d), box.minPoint.longitude + box.width()*c.real(d, 1 - d));
    };
    osm::Data d;
    auto unit = [](double v) { return static_cast<std::int64_t>(std::llround(v*osm::Unit)); };
    std::uint64_t id = 1000;
    auto owner = [&] { return c.pick(std::vector<std::string>{"me", "you", "big tree"}); };
    c.repeat(1, 4, [&](std::size_t) { auto p = point(); d.nodes.push_back({id++, unit(p.latitude), unit(p.longitude), {{Owner, owner()}}}); });
    std::vector<std::uint64_t> ways;
    c.repeat(0, 3, [&](std::size_t) {
      osm::W w;
      w.id = id++;
      w.tags = {{Owner, owner()}};
      c.repeat(2, 4, [&](std::size_t) { auto p = point(); d.nodes.push_back({id, unit(p.latitude), unit(p.longitude), {}}); w.refs.push_back(id++); });
      ways.push_back(w.id);
      d.ways.push_back(w);
    });
    if (!ways.empty() && c.boolean()) d.relations.push_back(osm::R{id++, {{'w', c.pick(ways), "part"}}, {{Owner, owner()}}});
    auto add = [&](const std::string &name, const std::string &data) { writeFile(dir + "/import/" + name, data); files.push_back({dir + "/import/" + name, true}); };
    if (c.boolean()) add("a.xml", osm::write(c, osm::Form::Xml, d));
    else add("b.pbf", osm::write(c, osm::Form::Pbf, d));
    std::ostringstream s;
    s.precision(12);
    auto p = point();
    s << "{\"pois\":{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[" << p.longitude << "," << p.latitude << "]},\"properties\":{\"" << Owner << "\":\"" << owner() << "\"}}]}}";
    add("c.json", s.str());
  }

  const File &anyFile() {
    static File bad;
    if (c.chance(1, 6)) {
      auto extension = c.pick(std::vector<std::string>{".xml", ".pbf", ".json", ".shp"});
      auto path = dir + "/import/" + (c.boolean() ? "missing" : "garbage") + extension;
      if (path.find("garbage") != std::string::npos) writeFile(path, c.pick(std::vector<std::string>{"<osm><node id=", "\x01\x02garbage", "{\"pois\": [}"}));
      bad = {path, false};
      return bad;
    }
    return c.pick(files);
  }

  void addFile() {
    auto where = anyStore();
    auto style = anyStyle();
    bool goodRange = true;
    auto file = anyFile();
    auto how = c.draw(2);
    auto tile = c.pick(tiles);
    auto range = how == 0 ? std::pair<int, int>(0, 0) : anyRange(goodRange);
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
    std::string what = "add " + file.path.substr(dir.size()) + " to " + where.key + " with " + style.path.substr(dir.size()) + (how == 0 ? " for tile " + show(tile) : (how == 1 ? std::string(" at ") : " in box of " + show(tile) + " at ") + std::to_string(range.first) + ".." + std::to_string(range.second));
    utymap::CancellationToken token;
    auto key = where.key.c_str(), stylePath = style.path.c_str(), path = file.path.c_str();
    call(what, [&] {
      switch (how) {
        case 0: ::addDataInQuadKey(key, stylePath, path, tile.tileX, tile.tileY, tile.levelOfDetail, onError, &token); break;
        case 1: ::addDataInRange(key, stylePath, path, range.first, range.second, onError, &token); break;
        default: ::addDataInBoundingBox(key, stylePath, path, box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, range.first, range.second, onError, &token);
      }
    });
    if (!where.known || !style.sheet || !goodRange || !file.good) { expectError(what); return; }
    std::string error;
    try {
      const auto &provider = mirror.style(*style.sheet);
      switch (how) {
        case 0: mirror.geoStore->add(where.key, file.path, tile, provider, token); break;
        case 1: mirror.geoStore->add(where.key, file.path, LodRange(range.first, range.second), provider, token); break;
        default: mirror.geoStore->add(where.key, file.path, box, LodRange(range.first, range.second), provider, token);
      }
    } catch (const std::exception &e) { error = e.what(); }
    expect(what, error);
    ++stored;
    stale();
  }

  void presence() {
    auto tile = c.chance(1, 6) ? c.pick(std::vector<QuadKey>{QuadKey(5, 40, 3), QuadKey(0, 0, 0), QuadKey(25, 1, 1), QuadKey(7, -1, 2)}) : c.pick(tiles);
    bool got = false;
    call("presence of " + show(tile), [&] { got = ::hasData(tile.tileX, tile.tileY, tile.levelOfDetail); });
    expectNone("presence");
    bool want = mirror.geoStore->hasData(tile);
    PBT_CHECK(c, got == want, "presence of tile " << show(tile) << " is " << got << ", not " << want);
  }

  void elevation() {
    auto tile = c.pick(tiles);
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
    int type = static_cast<int>(c.draw(2));
    GeoCoordinate g(box.minPoint.latitude + box.height()*c.real(0.01, 0.99), box.minPoint.longitude + box.width()*c.real(0.01, 0.99));
    std::string what = "elevation of type " + std::to_string(type) + " in " + show(tile), error;
    double got = 0, want = 0;
    call(what, [&] { got = ::getElevationByQuadKey(tile.tileX, tile.tileY, tile.levelOfDetail, type, g.latitude, g.longitude); });
    try { want = mirror.elevation(type).getElevation(tile, g); } catch (const std::exception &e) { error = e.what(); }
    expect(what, error);
    if (error.empty()) PBT_CHECK(c, got == want, what << " is " << got << ", not " << want);
  }

  void grid() {
    auto tile = c.pick(tiles);
    int n = static_cast<int>(c.integer(2, 4));
    std::string text;
    for (int i = 0; i < n*n; ++i) text += std::to_string(c.integer(-20, 900)) + ((i + 1) % n ? " " : "\n");
    auto folder = index + "/data/" + std::to_string(tile.levelOfDetail);
    mkdir(folder.c_str(), 0755);
    auto path = folder + "/" + utymap::utils::GeoUtils::quadKeyToString(tile) + ".ele";
    if (fileExists(path)) return;   // is read once
    writeFile(path, text);
    c.note() << "grid of elevation for " << show(tile) << "\n";
  }

  void load() {
    auto style = anyStyle();
    auto tile = c.chance(2, 3) ? q : c.pick(tiles);
    int type = c.chance(1, 3) ? static_cast<int>(c.draw(2)) : 0;
    std::string what = "load " + show(tile) + " with " + style.path.substr(dir.size()) + ", elevation of type " + std::to_string(type);
    utymap::CancellationToken token, never;
    auto cancelAt = c.chance(1, 6) ? static_cast<std::size_t>(c.small(0, 3)) : std::size_t(1000000);
    if (cancelAt == 0) token.cancel();
    bool useCache = cache && registered.count(style.path) && tile.levelOfDetail <= 16 && cancelAt > 1000;   // C21 has what is cached by a load which is cancelled
    if (cancelAt < 1000) { what += ", cancelled at " + std::to_string(cancelAt); if (cache) { call("disable cache", [&] { ::enableMeshCache(0); }); } }
    call(what, [&] {
      received.cancel = &token;
      received.cancelAt = cancelAt;
      ::getDataByQuadKey(received.tag, style.path.c_str(), tile.tileX, tile.tileY, tile.levelOfDetail, type, onMesh, onElement, onError, &token);
    });
    if (!style.sheet) { expectError(what); if (cache && !useCache) ::enableMeshCache(1); return; }
    Outcome want;
    const auto &styles = mirror.style(*style.sheet);
    const auto &ele = mirror.elevation(type);
    Renderer r(mirror, &styles, &ele, tile);
    try {
      mirror.builder->build(tile, styles, ele, [&](const Mesh &m) { if (!m.vertices.empty()) want.meshes.push_back(copy(m)); }, [&](const Element &e) { e.accept(r); }, never);
    } catch (const std::exception &e) { want.error = e.what(); }
    want.elements = r.texts;
    if (cancelAt < 1000) {
      std::size_t count = received.meshes.size() + received.elements.size(), all = want.meshes.size() + want.elements.size();
      PBT_CHECK(c, count == std::min(all, cancelAt), what << ": " << count << " of " << all << " things are delivered");
      if (cancelAt > all) expect(what, want.error);
      if (cache) { ::enableMeshCache(1); }
      return;
    }
    auto key = std::make_pair(style.path, show(tile));
    auto hit = caches.find(key);
    bool fromCache = useCache && hit != caches.end();
    if (!fromCache) expect(what, want.error);
    else if (want.error.empty()) expectNone(what);
    if (!want.error.empty()) return;
    auto elements = received.elements;
    std::sort(elements.begin(), elements.end());
    std::sort(want.elements.begin(), want.elements.end());
    PBT_CHECK(c, elements == want.elements, what << ": elements: " << difference(want.elements, elements));
    std::vector<const Mesh *> got, expected;
    bool anyTerrain = false;
    for (const auto &m : want.meshes) anyTerrain = anyTerrain || terrainMesh(m->name);
    bool skipTerrain = fromCache && (hit->second.stale || hit->second.type != type);
    for (const auto &m : received.meshes) if (!skipTerrain || !terrainMesh(m->name)) got.push_back(m.get());
    for (const auto &m : want.meshes) if (!fromCache || !terrainMesh(m->name)) expected.push_back(m.get());
    if (fromCache && !skipTerrain && anyTerrain) for (const auto &m : hit->second.meshes) expected.push_back(m.get());
    auto byName = [](const Mesh *a, const Mesh *b) { return a->name < b->name; };
    std::stable_sort(got.begin(), got.end(), byName);
    std::stable_sort(expected.begin(), expected.end(), byName);
    PBT_CHECK(c, got.size() == expected.size(), what << ": " << got.size() << " meshes, not " << expected.size());
    for (std::size_t i = 0; i < got.size(); ++i)
      PBT_CHECK(c, sameMesh(*got[i], *expected[i], !(fromCache && terrainMesh(got[i]->name))), what << ": mesh is " << city::fingerprint(*got[i]) << ", not " << city::fingerprint(*expected[i]) << ":" << meshDifference(*got[i], *expected[i]));
    if (useCache && !fromCache && anyTerrain) {
      auto &k = caches[key];
      k.type = type;
      for (const auto &m : want.meshes) if (terrainMesh(m->name)) k.meshes.push_back(copy(*m));
      c.label("cached");
    }
    if (fromCache && anyTerrain) c.label("from cache");
    delivered += got.size() + elements.size();
  }

  void text() {
    bool good;
    auto range = anyRange(good);
    auto tile = c.pick(tiles);
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
    auto term = [&] { return c.pick(std::vector<std::string>{"", "", "me", "you", "big tree", "small", Owner, "absent"}); };
    auto n = c.chance(1, 4) ? term() : "", a = term(), o = term();
    std::string what = "search not[" + n + "] and[" + a + "] or[" + o + "] in " + show(tile) + " at " + std::to_string(range.first) + ".." + std::to_string(range.second);
    utymap::CancellationToken token;
    call(what, [&] {
      ::getDataByText(received.tag, n.c_str(), a.c_str(), o.c_str(), box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, range.first, range.second, onElement, onError, &token);
    });
    if (!good) { expectError(what); return; }
    expectNone(what);
    Renderer r(mirror, nullptr, nullptr, tile);
    mirror.geoStore->search(n, a, o, box, LodRange(range.first, range.second), r, token);
    auto got = received.elements;
    std::sort(got.begin(), got.end());
    std::sort(r.texts.begin(), r.texts.end());
    PBT_CHECK(c, got == r.texts, what << ": " << difference(r.texts, got));
    delivered += got.size();
  }

  void toggle() {
    bool on = c.boolean();
    call(on ? "enable cache" : "disable cache", [&] { ::enableMeshCache(on); });
    expectNone("cache");
    cache = on;
  }
};

void history(Ctx &c) {
  Machine m(c);
  m.writeFiles();
  if (c.chance(1, 8)) m.unconnected();
  m.connect();
  m.store("memory", false);
  if (c.chance(1, 2)) m.registerSheet(true);
  c.repeat(4, 40, [&](std::size_t) {
    switch (c.draw(15)) {
      case 0: m.store(c.pick(std::vector<std::string>{"memory", "disk", "other"}), c.boolean(), !c.chance(1, 4)); break;
      case 1: m.registerSheet(!c.chance(1, 3)); break;
      case 2: case 3: case 4: m.addElement(); break;
      case 5: case 6: m.addFile(); break;
      case 7: m.presence(); break;
      case 8: m.elevation(); break;
      case 9: case 10: case 11: m.load(); break;
      case 12: m.text(); break;
      case 13: m.toggle(); break;
      case 14: m.grid(); break;
      default: if (c.chance(1, 2)) m.connect();
    }
  });
  m.load();
  m.disconnect();
  if (m.failures) c.label("failures");
  if (m.stored > 1 && m.delivered > 1) c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C24", {
    {"history", "up to 40 calls of the exported functions with valid and invalid stores, stylesheets, files, ranges, elements and tiles, compared with an engine which is called directly; non-trivial: more than one addition and more than one thing delivered", 4000, 60000, history},
  }, {"What the engine itself does with valid data is decided by the other properties.", "Geometry of relations is not delivered (documented in the code).", "Terrain from the cache of meshes is not compared once data was added to the tile after it was cached."});
}
