// The same operations on the C# library (executed by mono, see csharp/Server.cs) and on the exported functions of the engine.
#ifndef VERIF_LIBRARY_HPP
#define VERIF_LIBRARY_HPP

#include "city.hpp"
#include "mono.hpp"
#include "osm.hpp"
#include "stores.hpp"

#include "../shared/ExportLib.cpp"

#include <sys/stat.h>

using namespace bench;
using mono::Command;
using mono::Session;
using pbt::Ctx;

namespace library {

typedef std::map<std::string, std::string> Texts;

struct Thing {   // an element or a mesh, its points with longitude, latitude and height
  bool mesh = false;
  long long id = 0;
  std::string name;
  Texts tags, styles;
  std::vector<double> points;   // of the engine: longitude, latitude, height; of the library: of an element the same, of a mesh x, y, z
  std::vector<int> triangles;
  std::vector<double> colors;   // r g b a
};

std::string number(double d) { char s[40]; std::snprintf(s, sizeof s, "%.17g", d == 0 ? 0 : d); return s; }

std::string show(const Thing &t) {
  std::string s = t.mesh ? "mesh " + t.name + " of " + std::to_string(t.points.size()/3) + " points" : "element " + std::to_string(t.id) + "{";
  if (t.mesh) return s;
  for (const auto &p : t.tags) s += p.first + "=" + p.second + ";";
  s += "}";
  for (std::size_t i = 0; i + 2 < t.points.size(); i += 3) s += "(" + number(t.points[i]) + "," + number(t.points[i + 1]) + "," + number(t.points[i + 2]) + ")";
  s += "[";
  for (const auto &p : t.styles) s += p.first + ":" + p.second + ";";
  return s + "]";
}

struct Received {
  std::vector<Thing> things;
  std::vector<std::string> errors;
  utymap::CancellationToken *cancel = nullptr;
  std::size_t cancelAt = 0;
  void clear() { things.clear(); errors.clear(); cancel = nullptr; }
  void count() { if (cancel && things.size() == cancelAt) cancel->cancel(); }
};
Received received;

void onError(const char *message) { received.errors.push_back(message); }
void onDirectory(const char *path) {
  std::string p(path);
  for (std::size_t i = 1; i < p.size(); ++i) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
  mkdir(path, 0755);
}
void onMesh(int, const char *name, const double *vertices, int vertexSize, const int *triangles, int triSize, const int *colors, int colorSize, const double *, int, const int *, int) {
  Thing t;
  t.mesh = true;
  t.name = name;
  t.points.assign(vertices, vertices + vertexSize);
  t.triangles.assign(triangles, triangles + triSize);
  for (int i = 0; i < colorSize; ++i) for (int shift : {24, 16, 8, 0}) t.colors.push_back(((static_cast<unsigned>(colors[i]) >> shift) & 0xff)/255.0);
  received.things.push_back(t);
  received.count();
}
void onElement(int, std::uint64_t id, const char **tags, int tagsSize, const double *vertices, int vertexSize, const char **style, int styleSize) {
  Thing t;
  t.id = static_cast<long long>(id);
  t.points.assign(vertices, vertices + vertexSize);
  for (int i = 0; i + 1 < tagsSize; i += 2) t.tags[tags[i]] = tags[i + 1];
  for (int i = 0; i + 1 < styleSize; i += 2) t.styles[style[i]] = style[i + 1];
  received.things.push_back(t);
  received.count();
}

struct Projection {
  std::string kind = "plane";
  GeoCoordinate zero;
  double radius = 6371, scale = 1;
  void put(Command &command) const {
    if (scale != 1) command.s("scaled").d(scale);
    if (kind == "sphere") command.s(kind).d(radius);
    else command.s(kind).g(zero);
  }
  /// Where the application should see a point.
  void place(const double *p, double *at, double &tol) const {
    double lon = p[0], lat = p[1], height = p[2];
    if (kind == "sphere") {
      double r = (radius + height)*scale;
      lat *= M_PI/180; lon *= M_PI/180;
      at[0] = r*std::cos(lat)*std::cos(lon); at[1] = r*std::sin(lat); at[2] = r*std::cos(lat)*std::sin(lon);
      tol = std::fabs(r)*1e-6 + 1e-6;
      return;
    }
    double circle = 40075160*std::cos(zero.latitude*M_PI/180)/360;
    at[0] = (lon - zero.longitude)*circle*scale; at[1] = height*scale; at[2] = (lat - zero.latitude)*40008000/360*scale;
    tol = scale*2e-5 + 1e-6*std::max({std::fabs(at[0]), std::fabs(at[1]), std::fabs(at[2])});
  }
};

const char *const Owner = "own";

struct Machine {
  Ctx &c;
  std::string dir, direct, index;   // directories of index of both
  Session s;
  QuadKey q;
  city::City town;
  Projection projection;
  std::vector<QuadKey> tiles;
  std::vector<std::string> good, bad;
  std::vector<std::pair<std::string, bool>> files;
  std::map<std::string, bool> kinds;
  std::set<std::string> registered;
  std::size_t delivered = 0, meshes = 0, failures = 0, cancelled = 0;

  explicit Machine(Ctx &c) : c(c), dir(c.tmpDir()), s(c) {
    received.clear();
    direct = dir + "/direct";
    index = dir + "/library";
    for (const auto &p : {direct, index, dir + "/style", dir + "/import", direct + "/data", index + "/data"}) mkdir(p.c_str(), 0755);
    q = anyTile(c, 10, 17);
    {
      StringTable own(dir);
      town = city::generate(c, own, dir + "/style", q, 5);
    }
    tiles = {q, QuadKey(q.levelOfDetail, q.tileX ^ 1, q.tileY), QuadKey(q.levelOfDetail - 1, q.tileX/2, q.tileY/2)};
    std::string any = "node,way,area,relation|z1-19[" + std::string(Owner) + "] { builder: import; }\n";
    add("city.mapcss", town.css + any);
    add("plain.mapcss", "node,way,area,relation|z1-19[" + std::string(Owner) + "] { builder: import; color: red; height: 3.5m; clip: " + c.pick(std::vector<std::string>{"true", "false"}) + "; }\nway|z1-19[t] { builder: other; }\n");
    writeFile(dir + "/style/broken.mapcss", c.pick(std::vector<std::string>{"node|z1-19[a] { builder: b; ", "node { x }", "@import url(\"missing\");"}));
    bad = {dir + "/style/missing.mapcss", dir + "/style/broken.mapcss"};
    projection.kind = c.chance(1, 3) ? "sphere" : "plane";
    projection.zero = GeoCoordinate(town.box.minPoint.latitude + town.box.height()*c.grid(-1, 2, 6), town.box.minPoint.longitude + town.box.width()*c.grid(-1, 2, 6));
    projection.scale = c.pick({1.0, 0.01, 0.5, 2.0});
    c.note() << "tile " << show(q) << " projection " << projection.kind << " scale " << projection.scale << "\n" << town.css;
  }
  ~Machine() { ::disconnect(); }
  static std::string show(const QuadKey &k) { return std::to_string(k.levelOfDetail) + "/" + std::to_string(k.tileX) + "/" + std::to_string(k.tileY); }

  void add(const std::string &name, const std::string &css) {
    writeFile(dir + "/style/" + name, css);
    good.push_back(dir + "/style/" + name);
  }

  // ---- the same operation on both sides

  std::string what;
  /// Reads what is delivered. Gives number of events that a tile is loaded.
  int read(mono::Answer &a) {
    int events = 0;
    for (;;) {
      auto kind = a.s();
      if (kind == "end") return events;
      if (kind == "tile") { ++events; continue; }
      PBT_CHECK(c, kind == "element" || kind == "mesh", what << ": " << kind);
      Thing t;
      t.mesh = kind == "mesh";
      if (t.mesh) {
        t.name = a.s();
        for (auto n = a.i()*3; n > 0; --n) t.points.push_back(a.d());
        for (auto n = a.i(); n > 0; --n) t.triangles.push_back(static_cast<int>(a.i()));
        for (auto n = a.i()*4; n > 0; --n) t.colors.push_back(a.d());
      } else {
        t.id = a.i();
        for (auto n = a.i(); n > 0; --n) { double lat = a.d(), lon = a.d(); t.points.push_back(lon); t.points.push_back(lat); t.points.push_back(a.d()); }
        for (auto d : {&t.tags, &t.styles}) for (auto n = a.i(); n > 0; --n) { auto key = a.s(); (*d)[key] = a.s(); }
      }
      things.push_back(t);
    }
  }
  /// Executes a command of the library. Gives errors which it reports, by an exception or in the trace.
  std::vector<Thing> things;
  std::vector<std::string> errors, styleErrors;
  void perform(const Command &command, bool deliver) {
    things.clear();
    errors.clear();
    auto a = s.tryCall(command);
    if (!a.exception.empty()) { errors.push_back(a.exception); s.call(Command("Errors")); return; }
    if (deliver) read(a);
    for (auto n = a.i(); n > 0; --n) errors.push_back(a.s());
  }
  template<typename F>
  void engine(F f) {
    received.clear();
    f();
  }
  void compareErrors() {
    if (received.errors.empty()) { PBT_CHECK(c, errors.empty(), what << ": the library reports an error which the engine has not: " << errors[0]); return; }
    PBT_CHECK(c, !errors.empty(), what << ": the library is silent about " << received.errors[0]);
    PBT_CHECK(c, errors.size() == received.errors.size(), what << ": the library reports " << errors.size() << " errors, the engine " << received.errors.size() << ": " << errors.back());
    // messages have names of directories
    auto plain = [&](std::string m) { for (const auto &d : {direct, index}) for (std::size_t at; (at = m.find(d)) != std::string::npos;) m.replace(at, d.size(), "INDEX"); return m; };
    auto reported = [&](const std::string &e) { return plain(errors[0]).find(plain(e)) != std::string::npos; };
    // one which is broken may be noticed before anything else
    bool style = std::any_of(styleErrors.begin(), styleErrors.end(), reported);
    PBT_CHECK(c, style || reported(received.errors[0]), what << ": the library reports '" << errors[0] << "', the engine '" << received.errors[0] << "'");
    ++failures;
  }
  bool sameMesh(const Thing &e, const Thing &l) const {
    if (e.name != l.name || e.triangles != l.triangles || e.points.size() != l.points.size() || e.colors.size() != l.colors.size()) return false;
    for (std::size_t i = 0; i < e.colors.size(); ++i) if (std::fabs(e.colors[i] - l.colors[i]) > 1e-6) return false;
    for (std::size_t i = 0; i + 2 < e.points.size(); i += 3) {
      double at[3], tol;
      projection.place(&e.points[i], at, tol);
      for (int k = 0; k < 3; ++k) if (!(std::fabs(at[k] - l.points[i + k]) <= tol)) return false;
    }
    return true;
  }
  std::string meshText(const Thing &t) const {
    std::string s = "triangles";
    for (std::size_t i = 0; i < std::min<std::size_t>(9, t.triangles.size()); ++i) s += " " + std::to_string(t.triangles[i]);
    s += " points";
    for (std::size_t i = 0; i < std::min<std::size_t>(9, t.points.size()); ++i) s += " " + number(t.points[i]);
    s += " colors";
    for (std::size_t i = 0; i < std::min<std::size_t>(8, t.colors.size()); ++i) s += " " + number(t.colors[i]);
    return s;
  }
  void compare() {
    compareErrors();
    auto key = [](const Thing &t) { return t.mesh ? "m" + t.name : "e" + library::show(t); };
    auto by = [&](const Thing &a, const Thing &b) { return key(a) < key(b); };
    auto e = received.things, l = things;
    std::stable_sort(e.begin(), e.end(), by);
    std::stable_sort(l.begin(), l.end(), by);
    for (std::size_t i = 0; i < std::min(e.size(), l.size()); ++i) {
      PBT_CHECK(c, key(e[i]) == key(l[i]), what << ": the library delivers " << library::show(l[i]) << ", the engine " << library::show(e[i]));
      if (e[i].mesh) PBT_CHECK(c, sameMesh(e[i], l[i]), what << ": mesh " << e[i].name << " differs: the library has " << l[i].points.size()/3 << " points, the engine " << e[i].points.size()/3 << "; " << meshText(l[i]) << " for " << meshText(e[i]));
    }
    PBT_CHECK(c, e.size() == l.size(), what << ": the library delivers " << l.size() << " things, the engine " << e.size());
    delivered += l.size();
    for (const auto &t : l) meshes += t.mesh;
  }
  /// The library makes directories for a stylesheet when it is used for the first time.
  void use(const std::string &style) {
    styleErrors.clear();
    if (!registered.insert(style).second) return;
    received.clear();
    ::registerStylesheet(style.c_str(), onDirectory);
    styleErrors = received.errors;
  }

  // ---- operations

  void open() {
    what = "open";
    c.note() << what << "\n";
    ::disconnect();
    ::connect(direct.c_str(), onError);
    Command command("Open");
    command.s(index);
    projection.put(command);
    s.call(command);
    registered.clear();
    auto old = kinds;
    kinds.clear();
    for (const auto &k : old) if (k.second) store(k.first, true);
  }
  void store(const std::string &key, bool disk) {
    if (kinds.count(key)) return;
    what = std::string(disk ? "disk" : "memory") + " store " + key;
    c.note() << what << "\n";
    kinds[key] = disk;
    received.clear();
    if (disk) { ::registerPersistentStore(key.c_str(), (dir + "/disk-" + key).c_str(), onDirectory); s.call(Command("Disk").s(key).s(dir + "/library-" + key)); }
    else { ::registerInMemoryStore(key.c_str()); s.call(Command("Memory").s(key)); }
  }
  std::string anyStore() {
    if (kinds.empty() || c.chance(1, 12)) return "unknown";
    std::vector<std::string> keys;
    for (const auto &k : kinds) keys.push_back(k.first);
    return c.pick(keys);
  }
  std::string anyStyle() { return c.chance(1, 12) ? c.pick(bad) : c.pick(good); }
  std::pair<int, int> anyRange() {
    if (c.chance(1, 12)) return c.pick(std::vector<std::pair<int, int>>{{0, 3}, {q.levelOfDetail, 25}, {20, 20}});
    return {q.levelOfDetail - static_cast<int>(c.integer(0, 1)), q.levelOfDetail};
  }

  void addElement() {
    auto where = anyStore(), style = anyStyle();
    auto range = anyRange();
    std::shared_ptr<Element> e;
    Texts tags;
    std::vector<GeoCoordinate> line;
    if (c.chance(2, 3)) {
      const auto &t = c.pick(town.things);
      e = t.element;
      for (const auto &p : t.tags) tags.insert(p);
      if (auto n = std::dynamic_pointer_cast<Node>(e)) line = {n->coordinate};
      else if (auto w = std::dynamic_pointer_cast<Way>(e)) line = w->coordinates;
      else if (auto a = std::dynamic_pointer_cast<Area>(e)) { line = a->coordinates; line.push_back(line[0]); }
      else return;
    } else {
      e = std::make_shared<Node>();
      e->id = c.chance(1, 6) ? 0x7fffffffffffff00ULL + c.draw(100) : 500 + c.draw(100);
      tags[Owner] = c.pick(std::vector<std::string>{"me", "you"});
      line = {GeoCoordinate(town.box.minPoint.latitude + town.box.height()*c.real(0.02, 0.98), town.box.minPoint.longitude + town.box.width()*c.real(0.02, 0.98))};
    }
    c.repeat(0, 3, [&](std::size_t i) { tags[c.pick(std::vector<std::string>{"name", "zoo", "na me"}) + std::to_string(i)] = c.pick(std::vector<std::string>{"small cafe", "x", "Caf\xc3\xa9 M\xc3\xbcller", "\xd0\x9c\xd0\xb8\xd1\x80", "a=b;c"}); });
    if (c.chance(1, 16)) line.clear();
    what = "add element " + std::to_string(e->id) + " of " + std::to_string(line.size()) + " points to " + where + " with " + style.substr(dir.size()) + " at " + std::to_string(range.first) + ".." + std::to_string(range.second);
    c.note() << what << "\n";
    std::vector<double> vertices;
    for (const auto &g : line) { vertices.push_back(g.latitude); vertices.push_back(g.longitude); }
    std::vector<const char *> texts;
    for (const auto &t : tags) { texts.push_back(t.first.c_str()); texts.push_back(t.second.c_str()); }
    use(style);
    utymap::CancellationToken token;
    engine([&] { ::addDataInElement(where.c_str(), style.c_str(), e->id, vertices.data(), static_cast<int>(vertices.size()), texts.data(), static_cast<int>(texts.size()), range.first, range.second, onError, &token); });
    Command command("AddElement");
    command.s(where).s(style).i(static_cast<long long>(e->id)).i(static_cast<long long>(line.size()));
    for (const auto &g : line) command.g(g);
    command.i(static_cast<long long>(tags.size()));
    for (const auto &t : tags) command.s(t.first).s(t.second);
    perform(command.i(range.first).i(range.second).i(c.boolean()), false);
    compareErrors();
  }

  void writeFiles() {
    auto box = town.box;
    auto point = [&] {
      double d = c.chance(2, 3) ? 0.02 : -0.9;
      return GeoCoordinate(box.minPoint.latitude + box.height()*c.real(d, 1 - d), box.minPoint.longitude + box.width()*c.real(d, 1 - d));
    };
    osm::Data d;
    auto unit = [](double v) { return static_cast<std::int64_t>(std::llround(v*osm::Unit)); };
    std::uint64_t id = 1000;
    auto owner = [&] { return c.pick(std::vector<std::string>{"me", "you", "big tree", "\xd0\x9c\xd0\xb8\xd1\x80"}); };
    c.repeat(1, 4, [&](std::size_t) { auto p = point(); d.nodes.push_back({id++, unit(p.latitude), unit(p.longitude), {{Owner, owner()}}}); });
    std::vector<std::uint64_t> ways;
    c.repeat(0, 3, [&](std::size_t) {
      osm::W w;
      w.id = id++;
      w.tags = {{Owner, owner()}};
      c.repeat(2, 4, [&](std::size_t) { auto p = point(); d.nodes.push_back({id, unit(p.latitude), unit(p.longitude), {}}); w.refs.push_back(id++); });
      ways.push_back(w.id);
      d.ways.push_back(w);
    });
    if (!ways.empty() && c.boolean()) d.relations.push_back(osm::R{id++, {{'w', c.pick(ways), "part"}}, {{Owner, owner()}}});
    auto add = [&](const std::string &name, const std::string &data, bool good) { writeFile(dir + "/import/" + name, data); files.emplace_back(dir + "/import/" + name, good); };
    add("a.xml", osm::write(c, osm::Form::Xml, d), true);
    add("b.pbf", osm::write(c, osm::Form::Pbf, d), true);
    add("garbage.xml", "<osm><node id=", false);
    files.emplace_back(dir + "/import/missing.xml", false);
  }

  void addFile() {
    auto where = anyStore(), style = anyStyle();
    auto file = c.chance(1, 6) ? c.pick(files) : files[c.draw(1)];
    bool byTile = c.boolean(), cancel = c.chance(1, 8) && byTile;   // C25 has what is left of an import of a range which is cancelled
    auto tile = c.pick(tiles);
    auto range = anyRange();
    what = "add " + file.first.substr(dir.size()) + " to " + where + " with " + style.substr(dir.size()) + (byTile ? " for tile " + show(tile) : " at " + std::to_string(range.first) + ".." + std::to_string(range.second)) + (cancel ? ", cancelled" : "");
    c.note() << what << "\n";
    utymap::CancellationToken token;
    if (cancel) { token.cancel(); ++cancelled; }
    use(style);
    engine([&] {
      if (byTile) ::addDataInQuadKey(where.c_str(), style.c_str(), file.first.c_str(), tile.tileX, tile.tileY, tile.levelOfDetail, onError, &token);
      else ::addDataInRange(where.c_str(), style.c_str(), file.first.c_str(), range.first, range.second, onError, &token);
    });
    Command command("AddFile");
    command.s(where).s(file.first).s(style).i(cancel);
    if (byTile) command.s("tile").q(tile);
    else command.s("range").i(range.first).i(range.second);
    perform(command, false);
    compareErrors();
    presence(tile);
  }

  void presence(const QuadKey &tile) {
    received.clear();
    bool want = ::hasData(tile.tileX, tile.tileY, tile.levelOfDetail);
    auto a = s.call(Command("Exists").q(tile));
    bool got = a.i();
    PBT_CHECK(c, got == want, "presence of tile " << show(tile) << " is " << got << ", of the engine " << want);
    c.label(want ? "present" : "absent");
  }

  void elevation() {
    auto tile = c.pick(tiles);
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
    int type = c.chance(1, 2) ? 2 : 0;
    GeoCoordinate g(box.minPoint.latitude + box.height()*c.real(0.01, 0.99), box.minPoint.longitude + box.width()*c.real(0.01, 0.99));
    what = "elevation of type " + std::to_string(type) + " in " + show(tile);
    c.note() << what << "\n";
    received.clear();
    double want = ::getElevationByQuadKey(tile.tileX, tile.tileY, tile.levelOfDetail, type, g.latitude, g.longitude);
    auto a = s.tryCall(Command("Elevation").i(type).q(tile).g(g));
    if (!received.errors.empty()) { PBT_CHECK(c, !a.exception.empty(), what << ": the library is silent about " << received.errors[0]); ++failures; return; }
    PBT_CHECK(c, a.exception.empty(), what << ": exception " << a.exception);
    double got = a.d();
    PBT_CHECK(c, got == want, what << " is " << got << ", of the engine " << want);
  }

  void grid() {
    auto tile = c.pick(tiles);
    int n = static_cast<int>(c.integer(2, 4));
    std::string text;
    for (int i = 0; i < n*n; ++i) text += std::to_string(c.integer(-20, 900)) + ((i + 1) % n ? " " : "\n");
    for (const auto &in : {direct, index}) {
      auto folder = in + "/data/" + std::to_string(tile.levelOfDetail);
      mkdir(folder.c_str(), 0755);
      auto path = folder + "/" + utymap::utils::GeoUtils::quadKeyToString(tile) + ".ele";
      if (fileExists(path)) return;
      writeFile(path, text);
    }
    c.note() << "grid of elevation for " << show(tile) << "\n";
  }

  int anyCancel() { return c.chance(1, 4) ? static_cast<int>(c.small(0, 4)) : -1; }

  void load() {
    auto style = anyStyle();
    auto tile = c.chance(2, 3) ? q : c.pick(tiles);
    int type = c.chance(1, 3) ? 2 : 0;
    int cancelAt = anyCancel();
    what = "load " + show(tile) + " with " + style.substr(dir.size()) + ", elevation of type " + std::to_string(type) + (cancelAt < 0 ? "" : ", cancelled at " + std::to_string(cancelAt));
    c.note() << what << "\n";
    utymap::CancellationToken token;
    use(style);
    engine([&] {
      received.cancel = &token;
      received.cancelAt = static_cast<std::size_t>(cancelAt);
      if (cancelAt == 0) token.cancel();
      ::getDataByQuadKey(1, style.c_str(), tile.tileX, tile.tileY, tile.levelOfDetail, type, onMesh, onElement, onError, &token);
    });
    perform(Command("Load").s(style).q(tile).i(type).i(cancelAt), true);
    if (cancelAt >= 0 && received.things.size() == static_cast<std::size_t>(cancelAt)) { ++cancelled; c.label("load cancelled"); }
    compare();
  }

  void text() {
    auto range = anyRange();
    auto tile = c.pick(tiles);
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
    auto term = [&] { return c.pick(std::vector<std::string>{"", "", "me", "you", "big tree", "small", Owner, "absent", "\xd0\x9c\xd0\xb8\xd1\x80"}); };
    auto n = c.chance(1, 4) ? term() : "", a = term(), o = term();
    int cancelAt = anyCancel();
    what = "search not[" + n + "] and[" + a + "] or[" + o + "] in " + show(tile) + " at " + std::to_string(range.first) + ".." + std::to_string(range.second) + (cancelAt < 0 ? "" : ", cancelled at " + std::to_string(cancelAt));
    c.note() << what << "\n";
    utymap::CancellationToken token;
    engine([&] {
      received.cancel = &token;
      received.cancelAt = static_cast<std::size_t>(cancelAt);
      if (cancelAt == 0) token.cancel();
      ::getDataByText(1, n.c_str(), a.c_str(), o.c_str(), box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, range.first, range.second, onElement, onError, &token);
    });
    perform(Command("Search").s(n).s(a).s(o).box(box).i(range.first).i(range.second).i(cancelAt), true);
    if (cancelAt >= 0 && received.things.size() == static_cast<std::size_t>(cancelAt)) { ++cancelled; c.label("search cancelled"); }
    compare();
  }

  void toggle() {
    int on = c.boolean();
    c.note() << (on ? "enable cache\n" : "disable cache\n");
    received.clear();
    ::enableMeshCache(on);
    s.call(Command("Cache").i(on));
  }
};

}

#endif
