// C29: providers of data and geocoders of the C# library.
#include "library.hpp"

#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"

#include <boost/property_tree/json_parser.hpp>
#include <chrono>
#include <dirent.h>
#include <zlib.h>

using namespace library;

namespace {

typedef std::vector<std::string> Strings;

// ---- configuration

struct Config {
  std::vector<std::function<void(Command &)>> parts;
  void use(const std::string &name, const Strings &values) {
    parts.push_back([=](Command &c) { c.s("use " + name); for (const auto &v : values) c.s(v); });
  }
  void set(const std::string &name, const std::string &value) { parts.push_back([=](Command &c) { c.s(name).s(value); }); }
  void put(Command &c) const { c.i(static_cast<long long>(parts.size())); for (const auto &p : parts) p(c); }
};

struct Settings {
  std::string index, import;
  std::string osmServer, osmQuery, osmFormat;
  std::string mapServer, mapLayers, mapFormat, mapKey;
  std::string eleServer, eleFormat, eleKey;
  int eleGrid;
  std::string srtmServer, srtmSchema;
};

Settings genSettings(Ctx &c, const std::string &dir) {
  Settings s;
  s.index = dir + "/app";
  s.import = s.index + c.pick({std::string("/import"), std::string("/raw data")});
  mkdir(s.index.c_str(), 0755);
  mkdir(s.import.c_str(), 0755);
  mkdir((s.index + "/data").c_str(), 0755);
  for (int i = 0; i <= 19; ++i) mkdir((s.index + "/data/" + std::to_string(i)).c_str(), 0755);
  s.osmServer = c.pick(Strings{"http://osm.test/api/interpreter?data=", "http://osm.test/api/0.6/map?bbox="});
  s.osmQuery = c.pick(Strings{"(node({0},{1},{2},{3}); <; >;);out body;", "{1},{0},{3},{2}", "[bbox:{0},{1},{2},{3}];way[name=\"A&B\"];out;"});
  s.osmFormat = c.pick(Strings{"xml", "pbf"});
  s.mapServer = c.pick(Strings{"http://map.test/v1/{0}/{1}/{2}/{3}.json?api_key={4}", "http://map.test/{4}/{1}-{2}-{3}?layers={0}"});
  s.mapLayers = c.pick(Strings{"all", "water,earth"});
  s.mapFormat = c.pick(Strings{"json", "geojson"});
  s.mapKey = c.pick(Strings{"key-1", "k"});
  s.eleServer = c.pick(Strings{"http://ele.test/height?json={0}&api_key={1}", "http://ele.test/{1}/height?json={0}"});
  s.eleFormat = "ele";   // what the engine looks for
  s.eleKey = c.pick(Strings{"ele-key", "e"});
  s.eleGrid = static_cast<int>(c.integer(1, 6));
  s.srtmServer = "http://srtm.test/SRTM3";
  s.srtmSchema = dir + "/schema.txt";
  return s;
}

Config configOf(Ctx &c, const Settings &s, bool limit = false) {
  Config r;
  if (c.boolean()) r.use("default", {});
  r.use("osm", {s.osmServer, s.osmQuery, s.osmFormat});
  r.use("mapzen", {s.mapServer, s.mapLayers, s.mapFormat, s.mapKey});
  r.use("elevation", {s.eleServer, std::to_string(s.eleGrid), s.eleFormat, s.eleKey});
  r.use("srtm", {s.srtmServer, s.srtmSchema});
  r.use("local", {s.index + "/data"});
  r.use("import", {s.import});
  r.use("index", {s.index});
  if (!limit) r.set("data/mapzen/limit", "false");
  return r;
}

// ---- servers

std::string replaceAll(std::string s, const std::string &what, const std::string &with) {
  for (std::size_t at = 0; (at = s.find(what, at)) != std::string::npos; at += with.size()) s.replace(at, what.size(), with);
  return s;
}

std::string percentDecode(const std::string &s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) { r += static_cast<char>(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else r += s[i];
  }
  return r;
}

/// Whether a text has the form of a pattern; gives what stands for {0}..{9} as found by given reader.
template<typename Read>
bool matches(const std::string &pattern, const std::string &text, Read read) {
  std::size_t at = 0;
  for (std::size_t i = 0; i < pattern.size(); ++i) {
    if (pattern[i] == '{' && i + 2 < pattern.size() && std::isdigit(pattern[i + 1]) && pattern[i + 2] == '}') {
      if (!read(pattern[i + 1] - '0', text, at)) return false;
      i += 2;
    } else if (at >= text.size() || text[at++] != pattern[i]) return false;
  }
  return at == text.size();
}

std::vector<GeoCoordinate> decodePolyline(Ctx &c, const std::string &s) {
  std::vector<GeoCoordinate> r;
  std::size_t at = 0;
  long long lat = 0, lon = 0;
  auto number = [&] {
    long long v = 0;
    for (int shift = 0;; shift += 5) {
      PBT_CHECK(c, at < s.size() && shift < 40, "polyline " << s << " is broken");
      int b = s[at++] - 63;
      PBT_CHECK(c, b >= 0 && b < 64, "polyline " << s << " has a wrong letter");
      v |= static_cast<long long>(b & 0x1f) << shift;
      if (b < 0x20) break;
    }
    return v & 1 ? ~(v >> 1) : v >> 1;
  };
  while (at < s.size()) { lat += number(); lon += number(); r.push_back(GeoCoordinate(lat/1e6, lon/1e6)); }
  return r;
}

std::string zip(const std::string &name, const std::string &data, bool deflated) {
  auto u16 = [](std::string &s, std::size_t v) { s += static_cast<char>(v & 255); s += static_cast<char>((v >> 8) & 255); };
  auto u32 = [&](std::string &s, std::size_t v) { u16(s, v & 65535); u16(s, v >> 16); };
  std::string packed = data;
  if (deflated) {
    z_stream z = {};
    deflateInit2(&z, 1, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    packed.resize(deflateBound(&z, data.size()));
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data.data()));
    z.avail_in = static_cast<uInt>(data.size());
    z.next_out = reinterpret_cast<Bytef *>(&packed[0]);
    z.avail_out = static_cast<uInt>(packed.size());
    deflate(&z, Z_FINISH);
    packed.resize(z.total_out);
    deflateEnd(&z);
  }
  auto crc = crc32(0, reinterpret_cast<const Bytef *>(data.data()), static_cast<uInt>(data.size()));
  std::string s, d;
  std::string common;
  u16(common, 20); u16(common, 0); u16(common, deflated ? 8 : 0); u32(common, 0x4a214a21); u32(common, crc); u32(common, packed.size()); u32(common, data.size()); u16(common, name.size()); u16(common, 0);
  u32(s, 0x04034b50); s += common + name + packed;
  auto offset = s.size();
  u32(d, 0x02014b50); u16(d, 20); d += common; u16(d, 0); u16(d, 0); u16(d, 0); u32(d, 0); u32(d, 0); d += name;
  s += d;
  u32(s, 0x06054b50); u16(s, 0); u16(s, 0); u16(s, 1); u16(s, 1); u32(s, d.size()); u32(s, offset); u16(s, 0);
  return s;
}

std::string readFile(const std::string &path) { std::ifstream f(path, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }

std::size_t filesIn(const std::string &dir) {
  std::size_t n = 0;
  auto d = opendir(dir.c_str());
  if (!d) return 0;
  while (auto e = readdir(d)) if (e->d_name[0] != '.') n += e->d_type == DT_DIR ? filesIn(dir + "/" + e->d_name) : 1;
  closedir(d);
  return n;
}

std::string cellName(double lat, double lon) {
  char s[20];
  int a = static_cast<int>(std::floor(lat)), o = static_cast<int>(std::floor(lon));
  std::snprintf(s, sizeof s, "%c%02d%c%03d", a >= 0 ? 'N' : 'S', std::abs(a), o >= 0 ? 'E' : 'W', std::abs(o));
  return s;
}

const Strings Continents = {"Eurasia", "South_America", "Africa", "North_America", "Australia", "Islands"};
const char *const Types[] = {"Flat", "Srtm", "Grid"};
const Strings Cultures = {"", "", "de-DE", "ru-RU", "tr-TR", "ar-SA"};

// ---- providers

struct Servers {
  Ctx &c;
  Settings s;
  struct Cell { int continent; std::string data; };
  std::map<std::string, Cell> cells;
  Strings urls;
  // what was asked for last
  std::vector<GeoCoordinate> points;
  std::vector<int> heights;
  std::string served;

  Servers(Ctx &c, const Settings &s) : c(c), s(s) {}

  void writeSchema() {
    std::string text;
    auto line = [&](const std::string &name, int continent) { text += name + " " + std::to_string(continent) + (c.chance(1, 4) ? "\r\n" : "\n"); };
    c.repeat(0, 3, [&](std::size_t) {
      auto name = cellName(c.integer(-56, 60), c.integer(-180, 179));
      if (!cells.count(name)) line(name, static_cast<int>(c.draw(5)));
    });
    for (const auto &p : cells) line(p.first, p.second.continent);
    writeFile(s.srtmSchema, text);
  }

  int height(const GeoCoordinate &g) const { return static_cast<int>(std::lround(500*std::sin(g.latitude*4000) + 700*std::cos(g.longitude*3000) + 10*g.latitude)); }

  std::string answer(const std::string &url) {
    urls.push_back(url);
    c.note() << "  GET " << url.substr(0, 300) << "\n";
    served.clear();
    if (url.find("//ele.test") != std::string::npos) {
      // the payload stands for the first argument
      std::string payload;
      bool ok = matches(s.eleServer, url, [&](int i, const std::string &text, std::size_t &at) {
        if (i == 1) { if (text.compare(at, s.eleKey.size(), s.eleKey) != 0) return false; at += s.eleKey.size(); return true; }
        auto end = text.rfind('}');
        if (end == std::string::npos || end < at) return false;
        payload = text.substr(at, end + 1 - at);
        at = end + 1;
        return true;
      });
      PBT_CHECK(c, ok, "request for elevation is " << url << " instead of " << s.eleServer << " with key " << s.eleKey);
      boost::property_tree::ptree tree;
      std::istringstream in(payload);
      try { boost::property_tree::read_json(in, tree); }
      catch (const std::exception &e) { c.fail("request for elevation has invalid json: " + payload + ": " + e.what()); }
      PBT_CHECK(c, tree.get("range", "") == "false", "request for elevation wants ranges: " << payload);
      points = decodePolyline(c, tree.get("encoded_polyline", ""));
      heights.clear();
      std::string space = c.chance(1, 3) ? " " : "", list;
      for (const auto &g : points) { heights.push_back(height(g)); list += (list.empty() ? "" : "," + space) + std::to_string(heights.back()); }
      served = "{" + space + "\"shape\":[{\"lat\":1.5,\"lon\":2}],\"height\":" + space + "[" + list + "]}";
    } else if (url.find("//srtm.test") != std::string::npos) {
      auto name = url.substr(url.rfind('/') + 1);
      for (const auto &p : cells)
        if (name == p.first + ".hgt.zip") {
          auto want = s.srtmServer + "/" + Continents[static_cast<std::size_t>(p.second.continent)] + "/" + name;
          PBT_CHECK(c, url == want, "request for elevation is " << url << " instead of " << want);
          served = zip(p.first + ".hgt", p.second.data, c.boolean());
        }
      PBT_CHECK(c, !served.empty(), "request for elevation is " << url);
    } else served = "data of " + url + std::string(static_cast<std::size_t>(c.small(0, 2000)), 'x') + "\xff\x01";
    return served;
  }
};

struct Asked { QuadKey q; int type; };

void providerFacet(Ctx &c) {
  auto dir = c.tmpDir();
  Session s(c);
  auto settings = genSettings(c, dir);
  Servers servers(c, settings);
  auto culture = c.pick(Cultures);
  if (!culture.empty()) s.call(Command("Culture").s(culture));
  // tiles
  std::vector<Asked> asked;
  std::vector<QuadKey> have;
  auto anyKey = [&](int lod) { auto n = 1LL << lod; return QuadKey(lod, static_cast<int>(c.integer(0, n - 1)), static_cast<int>(c.integer(0, n - 1))); };
  c.repeat(1, 5, [&](std::size_t) {
    Asked a;
    if (!asked.empty() && c.chance(1, 2)) {   // one which is asked for already, or its neighbour
      a = c.pick(asked);
      if (c.boolean()) a.q.tileX ^= 1;
      if (a.type != 1) a.type = c.boolean() ? 2 : 0;
    } else {
      a.type = static_cast<int>(c.draw(2));
      a.q = anyKey(c.chance(1, 3) ? 16 : static_cast<int>(c.integer(a.type == 1 ? 9 : 1, 18)));
      if (c.chance(1, 2) && a.type != 1) a.q = anyKey(static_cast<int>(c.integer(1, 9)));
    }
    auto center = utymap::utils::GeoUtils::quadKeyToBoundingBox(a.q).center();
    if (a.type == 1 && std::fabs(center.latitude) > 84) a.type = 0;
    if (a.type == 1) {
      auto &cell = servers.cells[cellName(center.latitude, center.longitude)];
      cell.continent = static_cast<int>(c.draw(5));
      if (cell.data.empty()) cell.data = "cell" + std::string(static_cast<std::size_t>(c.small(0, 3000)), static_cast<char>('a' + c.draw(5)));
    }
    asked.push_back(a);
    if (c.chance(1, 4)) have.push_back(a.q);
  });
  servers.writeSchema();
  s.network = [&](const std::string &url) { return servers.answer(url); };
  std::map<std::string, std::string> files;   // which should be there
  std::size_t fetched = 0, again = 0;
  for (std::size_t round = 0; round < asked.size(); ++round) {
    const auto &a = asked[round];
    servers.urls.clear();
    auto text = utymap::utils::GeoUtils::quadKeyToString(a.q);
    c.note() << "tile " << text << " " << model::show(a.q) << " elevation " << Types[a.type] << (std::count(have.begin(), have.end(), a.q) ? ", is there" : "") << "\n";
    Command command("Provide");
    configOf(c, settings).put(command);
    command.i(static_cast<long long>(have.size()));
    for (const auto &h : have) command.q(h);
    auto r = s.call(command.q(a.q).i(a.type));
    auto got = r.s();
    std::string error = r.more() ? r.s() : "";
    PBT_CHECK(c, error.empty(), "tile " << text << ": " << error);
    PBT_CHECK(c, got != "nothing", "tile " << text << ": nothing is provided after " << servers.urls.size() << " requests");
    std::size_t at = 0;
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(a.q);
    // elevation first
    if (a.type == 2) {
      auto path = settings.index + "/data/" + std::to_string(a.q.levelOfDetail) + "/" + text + ".ele";
      if (!files.count(path)) {
        PBT_CHECK(c, servers.urls.size() > at && servers.urls[at].find("//ele.test") != std::string::npos, "tile " << text << ": no elevation is asked for");
        ++at;
        ++fetched;
        auto n = static_cast<std::size_t>(settings.eleGrid) + 1;
        PBT_CHECK(c, servers.points.size() == n*n, "tile " << text << ": elevation of " << servers.points.size() << " points is asked for, not " << n*n);
        for (std::size_t i = 0; i < n*n; ++i) {
          GeoCoordinate want(box.minPoint.latitude + box.height()*static_cast<double>(i/n)/settings.eleGrid, box.minPoint.longitude + box.width()*static_cast<double>(i % n)/settings.eleGrid);
          const auto &g = servers.points[i];
          PBT_CHECK(c, std::fabs(g.latitude - want.latitude) < 1e-6 && std::fabs(g.longitude - want.longitude) < 1e-6, "tile " << text << ": point " << i << " of elevation is " << number(g.latitude) << " " << number(g.longitude) << ", not " << number(want.latitude) << " " << number(want.longitude));
        }
        files[path] = "";
        // what the engine says at these points
        utymap::heightmap::GridElevationProvider engine(settings.index);
        auto range = std::minmax_element(servers.heights.begin(), servers.heights.end());
        for (std::size_t i = 0; i < n*n; ++i) {
          GeoCoordinate g(box.minPoint.latitude + box.height()*static_cast<double>(i/n)/settings.eleGrid, box.minPoint.longitude + box.width()*static_cast<double>(i % n)/settings.eleGrid);
          double h = 0;
          try { h = engine.getElevation(a.q, g); } catch (const std::exception &e) { c.fail("tile " + text + ": the engine has no elevation: " + e.what()); }
          double tol = 1e-6 + (*range.second - *range.first)*4e-7*settings.eleGrid/std::min(box.width(), box.height());
          PBT_CHECK(c, std::fabs(h - servers.heights[i]) <= tol, "tile " << text << ": the engine gives " << h << " at point " << i << ", the server " << servers.heights[i]);
        }
      } else ++again;
    }
    if (a.type == 1) {
      auto name = cellName(box.center().latitude, box.center().longitude);
      auto path = settings.index + "/data/" + name + ".hgt";
      if (!files.count(path)) {
        PBT_CHECK(c, servers.urls.size() > at && servers.urls[at].find("//srtm.test") != std::string::npos && servers.urls[at].find("/" + name + ".") != std::string::npos, "tile " << text << ": elevation of cell " << name << " is not asked for");
        ++at;
        ++fetched;
        PBT_CHECK(c, fileExists(path), "tile " << text << ": elevation is not stored as " << name << ".hgt");
        PBT_CHECK(c, readFile(path) == servers.cells[name].data, "tile " << text << ": other elevation is stored");
        files[path] = servers.cells[name].data;
      } else ++again;
    }
    // then data
    std::string want;
    if (!std::count(have.begin(), have.end(), a.q)) {
      bool osm = a.q.levelOfDetail == 16;
      auto source = a.q;
      static const std::map<int, int> Coarser = {{2, 1}, {3, 3}, {4, 3}, {5, 4}, {6, 5}, {7, 6}, {8, 7}};
      auto coarser = Coarser.find(a.q.levelOfDetail);
      if (coarser != Coarser.end()) { int d = a.q.levelOfDetail - coarser->second; source = QuadKey(coarser->second, a.q.tileX >> d, a.q.tileY >> d); }
      want = settings.import + "/" + utymap::utils::GeoUtils::quadKeyToString(source) + "." + (osm ? settings.osmFormat : settings.mapFormat);
      if (!files.count(want)) {
        PBT_CHECK(c, servers.urls.size() > at, "tile " << text << ": no data is asked for");
        auto url = servers.urls[at++];
        ++fetched;
        if (osm) {
          PBT_CHECK(c, url.compare(0, settings.osmServer.size(), settings.osmServer) == 0, "tile " << text << ": data is asked for with " << url);
          auto query = url.substr(settings.osmServer.size());
          for (char ch : query) PBT_CHECK(c, std::isalnum(static_cast<unsigned char>(ch)) || strchr("%-_.~!*'()", ch), "tile " << text << ": data is asked for with " << url << ", " << ch << " is not escaped");
          double limits[] = {box.minPoint.latitude - 0.001, box.minPoint.longitude - 0.001, box.maxPoint.latitude + 0.001, box.maxPoint.longitude + 0.001};
          bool ok = matches(settings.osmQuery, percentDecode(query), [&](int i, const std::string &t, std::size_t &from) {
            char *end;
            double v = std::strtod(t.c_str() + from, &end);
            from = static_cast<std::size_t>(end - t.c_str());
            return i < 4 && std::fabs(v - limits[i]) < 1e-9;
          });
          PBT_CHECK(c, ok, "tile " << text << ": data is asked for with " << percentDecode(query) << " instead of " << settings.osmQuery << " of " << number(limits[0]) << " " << number(limits[1]) << " " << number(limits[2]) << " " << number(limits[3]));
        } else {
          auto u = settings.mapServer;
          u = replaceAll(replaceAll(replaceAll(replaceAll(replaceAll(u, "{0}", settings.mapLayers), "{1}", std::to_string(source.levelOfDetail)), "{2}", std::to_string(source.tileX)), "{3}", std::to_string(source.tileY)), "{4}", settings.mapKey);
          PBT_CHECK(c, url == u, "tile " << text << ": data is asked for with " << url << ", not " << u);
        }
        PBT_CHECK(c, fileExists(want), "tile " << text << ": what the server has is not stored in " << want);
        PBT_CHECK(c, readFile(want) == servers.served, "tile " << text << ": the server has " << servers.served << ", stored is " << readFile(want));
        files[want] = servers.served;
      } else { ++again; PBT_CHECK(c, readFile(want) == files[want], "tile " << text << ": file with data is changed"); }
    }
    PBT_CHECK(c, servers.urls.size() == at, "tile " << text << ": also asked for " << servers.urls.back());
    auto expected = text + " " + Types[a.type] + " " + want;
    PBT_CHECK(c, got == expected, "tile " << text << ": answer is '" << got << "', not '" << expected << "'");
    PBT_CHECK(c, filesIn(settings.index) == files.size(), "tile " << text << ": " << filesIn(settings.index) << " files instead of " << files.size());
    c.label(std::string("elevation ") + Types[a.type]);
  }
  if (again) c.label("again");
  if (fetched > 1 && again) c.nontrivial();
}

/// Many tiles at once, with or without limit of requests for elevation.
void manyTiles(Ctx &c, bool limit) {
  auto dir = c.tmpDir();
  Session s(c);
  auto settings = genSettings(c, dir);
  Servers servers(c, settings);
  std::vector<std::chrono::steady_clock::time_point> times;
  std::map<std::string, std::string> served;   // by request
  s.network = [&](const std::string &url) {
    if (url.find("//ele.test") != std::string::npos) times.push_back(std::chrono::steady_clock::now());
    // all requests of a file get the same answer
    auto &answer = served[url];
    if (answer.empty()) answer = servers.answer(url);
    return answer;
  };
  std::vector<Asked> asked;
  std::multiset<std::string> want, got;
  std::set<std::string> files;
  c.repeat(1, limit ? 4 : 10, [&](std::size_t) {
    Asked a;
    int lod = limit ? 10 : c.pick({5, 10, 16});
    a.q = QuadKey(lod, static_cast<int>(c.draw(1)) + (1 << (lod - 1)), static_cast<int>(c.draw(1)) + (1 << (lod - 1)) - 1);
    a.type = limit ? 2 : static_cast<int>(c.draw(2));
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(a.q);
    auto cell = cellName(box.center().latitude, box.center().longitude);
    if (a.type == 1 && !servers.cells.count(cell)) servers.cells[cell] = {static_cast<int>(c.draw(5)), "cell of " + cell};
    asked.push_back(a);
  });
  servers.writeSchema();
  bool there = limit || c.chance(1, 3);
  Command command("ProvideAll");
  configOf(c, settings, limit).put(command);
  command.i(there ? static_cast<long long>(asked.size()) : 0);
  if (there) for (const auto &a : asked) command.q(a.q);
  for (const auto &a : asked) {
    auto text = utymap::utils::GeoUtils::quadKeyToString(a.q);
    c.note() << "tile " << text << " elevation " << Types[a.type] << "\n";
    command.q(a.q).i(a.type);
    auto center = utymap::utils::GeoUtils::quadKeyToBoundingBox(a.q).center();
    if (a.type == 1) files.insert(settings.index + "/data/" + cellName(center.latitude, center.longitude) + ".hgt");
    if (a.type == 2) files.insert(settings.index + "/data/" + std::to_string(a.q.levelOfDetail) + "/" + text + ".ele");
    std::string file;
    if (!there) {
      auto source = text;
      if (a.q.levelOfDetail == 5) source.resize(4);
      file = settings.import + "/" + source + "." + (a.q.levelOfDetail == 16 ? settings.osmFormat : settings.mapFormat);
      files.insert(file);
    }
    want.insert(text + " " + Types[a.type] + " " + file);
  }
  auto r = s.call(command);
  for (auto n = r.i(); n > 0; --n) got.insert(r.s());
  PBT_CHECK(c, !r.more(), r.s());
  std::ostringstream differs;
  for (const auto &w : want) if (got.count(w) != want.count(w)) differs << " '" << w << "' " << got.count(w) << " times instead of " << want.count(w) << ";";
  for (const auto &g : got) if (!want.count(g)) differs << " unexpected '" << g << "';";
  PBT_CHECK(c, got == want, "asked for " << want.size() << " tiles, got " << got.size() << ":" << differs.str());
  std::set<std::string> answers;
  for (const auto &p : served) answers.insert(p.second);
  for (const auto &f : files) {
    PBT_CHECK(c, fileExists(f), f << " is not stored");
    auto data = readFile(f);
    bool hgt = f.size() > 4 && f.substr(f.size() - 4) == ".hgt";
    if (hgt) PBT_CHECK(c, data == "cell of " + f.substr(f.size() - 11, 7), f << " has wrong data: " << data);
    else if (f.find("/data/") == std::string::npos) PBT_CHECK(c, answers.count(data), f << " has wrong data: " << data.substr(0, 100));
    else PBT_CHECK(c, std::count(data.begin(), data.end(), ' ') + 1 == (settings.eleGrid + 1)*(settings.eleGrid + 1), f << " has wrong number of heights: " << data);
  }
  PBT_CHECK(c, filesIn(settings.index) == files.size(), filesIn(settings.index) << " files instead of " << files.size());
  if (limit) for (std::size_t i = 1; i < times.size(); ++i) {
    auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(times[i] - times[i - 1]).count();
    PBT_CHECK(c, ms > 200, "request " << i << " is made " << ms << " ms after the previous one in spite of the limit");
  }
  if (want.size() > 1) c.nontrivial();
}

void limitFacet(Ctx &c) { manyTiles(c, true); }
void manyFacet(Ctx &c) { manyTiles(c, false); }

/// A cell of SRTM data goes through the provider to the engine.
void cellFacet(Ctx &c) {
  auto dir = c.tmpDir();
  Session s(c);
  auto settings = genSettings(c, dir);
  Servers servers(c, settings);
  int lat = static_cast<int>(c.integer(-56, 59)), lon = static_cast<int>(c.integer(-179, 178));
  auto name = cellName(lat, lon);
  GeoCoordinate at(lat + c.real(0.2, 0.8), lon + c.real(0.2, 0.8));
  auto q = utymap::utils::GeoUtils::GeoCoordinateToQuadKey(at, static_cast<int>(c.integer(13, 17)));
  std::string data(1201*1201*2, '\0');
  unsigned seed = static_cast<unsigned>(c.draw(1000000));
  for (int y = 0; y < 1201; ++y) for (int x = 0; x < 1201; ++x) {
    int h = static_cast<int>(300 + (x*7 + y*13 + seed) % 97 + (x/50 + y/40)*5);
    data[static_cast<std::size_t>(2*(y*1201 + x))] = static_cast<char>(h >> 8);
    data[static_cast<std::size_t>(2*(y*1201 + x) + 1)] = static_cast<char>(h & 255);
  }
  servers.cells[name] = {static_cast<int>(c.draw(5)), data};
  servers.writeSchema();
  s.network = [&](const std::string &url) { return servers.answer(url); };
  c.note() << "cell " << name << " tile " << model::show(q) << "\n";
  Command command("Provide");
  configOf(c, settings).put(command);
  s.call(command.i(1).q(q).q(q).i(1));
  mkdir((dir + "/own").c_str(), 0755);
  mkdir((dir + "/own/data").c_str(), 0755);
  writeFile(dir + "/own/data/" + name + ".hgt", data);
  utymap::heightmap::SrtmElevationProvider own(dir + "/own"), app(settings.index);
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  for (int i = 0; i < 8; ++i) {
    GeoCoordinate g(box.minPoint.latitude + box.height()*c.real(0, 1), box.minPoint.longitude + box.width()*c.real(0, 1));
    double want = own.getElevation(q, g), got = 0;
    try { got = app.getElevation(q, g); } catch (const std::exception &e) { c.fail(std::string("the engine does not have what was fetched: ") + e.what()); }
    PBT_CHECK(c, got == want, "elevation is " << got << ", the server has " << want);
  }
  c.nontrivial();
}

// ---- geocoders

std::string anyName(Ctx &c) {
  std::string s;
  c.repeat(1, 6, [&](std::size_t i) { if (i) s += c.pick(Strings{" ", ", ", "&", "=", "+", "?", "#", "/", "%", "%20", "'", "\"", "-"}); s += c.pick(Strings{"Berlin", "Stra\xc3\x9f" "e", "12", "\xd0\x9c\xd0\xbe\xd1\x81\xd0\xba\xd0\xb2\xd0\xb0", "x", "\xf0\x9f\x8f\xa0", "caf\xc3\xa9"}); });
  return s;
}

struct Place {
  long long id;
  GeoCoordinate at;
  bool extent = false;
  double south = 0, north = 0, west = 0, east = 0;
  std::string name;
};

std::string decimal(double v) { char s[40]; std::snprintf(s, sizeof s, "%.7f", v); return s; }

Place genPlace(Ctx &c) {
  Place p;
  p.id = static_cast<long long>(c.draw(1) ? c.small(1, 1000) : c.integer(1, 9000000000LL));
  auto v = [&](double limit) { return std::round(c.real(-limit, limit)*1e7)/1e7; };
  p.at = GeoCoordinate(v(90), v(180));
  p.extent = !c.chance(1, 6);
  p.south = v(90); p.north = v(90); p.west = v(180); p.east = v(180);
  if (p.south > p.north) std::swap(p.south, p.north);
  if (p.west > p.east) std::swap(p.west, p.east);
  p.name = anyName(c);
  return p;
}

std::string quote(const std::string &s) { return "\"" + replaceAll(replaceAll(s, "\\", "\\\\"), "\"", "\\\"") + "\""; }

std::string json(Ctx &c, const Place &p) {
  Strings parts = {"\"osm_type\":\"way\"", "\"osm_id\":" + (c.boolean() ? std::to_string(p.id) : quote(std::to_string(p.id))), "\"lat\":" + quote(decimal(p.at.latitude)), "\"lon\":" + quote(decimal(p.at.longitude)), "\"display_name\":" + quote(p.name)};
  if (p.extent) parts.push_back("\"boundingbox\":[" + quote(decimal(p.south)) + "," + quote(decimal(p.north)) + "," + quote(decimal(p.west)) + "," + quote(decimal(p.east)) + "]");
  if (c.boolean()) parts.push_back("\"address\":{\"city\":\"Berlin\",\"country_code\":\"de\"}");
  std::string s;
  while (!parts.empty()) {
    auto i = c.draw(parts.size() - 1);
    s += (s.empty() ? "" : c.boolean() ? ", " : ",") + parts[i];
    parts.erase(parts.begin() + static_cast<std::ptrdiff_t>(i));
  }
  return "{" + s + "}";
}

void nominatimFacet(Ctx &c) {
  Session s(c);
  auto culture = c.pick(Cultures);
  if (!culture.empty()) s.call(Command("Culture").s(culture));
  c.note() << "culture " << culture << "\n";
  std::string search = c.pick(Strings{"http://geo.test/search?", "http://geo.test/search?key=a&"}), reverse = "http://geo.test/reverse?";
  Command command("Geocode");
  Config config;
  bool set = c.boolean();
  if (set) config.use("geocoding", {search});
  else search = "http://nominatim.openstreetmap.org/search?";
  if (set) config.set("reverse_geocoding", reverse);
  else reverse = "http://nominatim.openstreetmap.org/reverse?";
  config.put(command);
  int kind = static_cast<int>(c.draw(2));
  auto name = anyName(c);
  auto coordinate = [&] { return GeoCoordinate(c.pick({c.real(-90, 90), c.grid(-1, 1, 10)*1e-4, 0.0, 52.5}), c.pick({c.real(-180, 180), c.grid(-1, 1, 10)*1e-5, 0.0, 13.25})); };
  auto at = coordinate();
  auto a = coordinate(), b = coordinate();
  BoundingBox box(GeoCoordinate(std::min(a.latitude, b.latitude), std::min(a.longitude, b.longitude)), GeoCoordinate(std::max(a.latitude, b.latitude), std::max(a.longitude, b.longitude)));
  std::vector<Place> places;
  std::string answer;
  if (kind == 2) {
    if (!c.chance(1, 6)) { places.push_back(genPlace(c)); answer = json(c, places[0]); }
    else answer = "{\"error\":\"Unable to geocode\"}";
  } else {
    c.repeat(0, 4, [&](std::size_t) { places.push_back(genPlace(c)); });
    for (const auto &p : places) answer += (answer.empty() ? "" : ",") + json(c, p);
    answer = "[" + answer + "]";
  }
  if (kind == 0) { command.s("name").s(name); c.note() << "place " << name << "\n"; }
  else if (kind == 1) { command.s("box").s(name).box(box); c.note() << "place " << name << " in box\n"; }
  else { command.s("reverse").g(at); c.note() << "place at " << number(at.latitude) << " " << number(at.longitude) << "\n"; }
  c.note() << answer << "\n";
  int requests = 0;
  s.network = [&](const std::string &url) {
    ++requests;
    c.note() << "GET " << url << "\n";
    auto prefix = kind == 2 ? reverse : search;
    PBT_CHECK(c, url.compare(0, prefix.size(), prefix) == 0, "request is " << url);
    std::map<std::string, std::string> parameters;
    std::istringstream in(url.substr(prefix.size()));
    std::string part;
    while (std::getline(in, part, '&')) {
      auto eq = part.find('=');
      PBT_CHECK(c, eq != std::string::npos, "request is " << url << ": '" << part << "' is no parameter");
      for (char ch : part.substr(eq + 1)) PBT_CHECK(c, std::isalnum(static_cast<unsigned char>(ch)) || strchr("%-_.~!*'(),", ch), "request is " << url << ": " << ch << " is not escaped");
      PBT_CHECK(c, parameters.emplace(percentDecode(part.substr(0, eq)), percentDecode(part.substr(eq + 1))).second, "request is " << url << ": two parameters have the same name");
    }
    PBT_CHECK(c, parameters["format"] == "json", "request is " << url << ": format is " << parameters["format"]);
    auto numbers = [&](const std::string &text, std::vector<double> want, double tol) {
      const char *p = text.c_str();
      for (std::size_t i = 0; i < want.size(); ++i) {
        char *end;
        double v = std::strtod(p, &end);
        PBT_CHECK(c, end != p && std::fabs(v - want[i]) <= tol && *end == (i + 1 < want.size() ? ',' : '\0'), "request is " << url << ": " << text << " stands for " << number(want[i]));
        p = end + 1;
      }
    };
    if (kind == 2) {
      numbers(parameters["lat"], {at.latitude}, 1e-9);
      numbers(parameters["lon"], {at.longitude}, 1e-9);
      PBT_CHECK(c, parameters.size() == 3, "request is " << url);
    } else {
      PBT_CHECK(c, parameters["q"] == name, "request is " << url << ": asks for '" << parameters["q"] << "'");
      PBT_CHECK(c, parameters.size() == (kind == 1 ? 3u : 2u), "request is " << url);
      if (kind == 1) numbers(parameters["viewbox"], {box.minPoint.longitude, box.minPoint.latitude, box.maxPoint.longitude, box.maxPoint.latitude}, 1e-4);
    }
    return answer;
  };
  auto r = s.call(command);
  PBT_CHECK(c, requests == 1, requests << " requests");
  for (const auto &p : places) {
    PBT_CHECK(c, r.more(), "place " << p.name << " is missing");
    auto id = r.i();
    double lat = r.d(), lon = r.d();
    auto got = r.s();
    bool extent = r.i();
    PBT_CHECK(c, id == p.id, "place has id " << id << ", not " << p.id);
    PBT_CHECK(c, std::fabs(lat - p.at.latitude) < 1e-9 && std::fabs(lon - p.at.longitude) < 1e-9, "place is at " << number(lat) << " " << number(lon) << ", not " << number(p.at.latitude) << " " << number(p.at.longitude));
    PBT_CHECK(c, got == p.name, "place has name " << got << ", not " << p.name);
    PBT_CHECK(c, extent == p.extent, "place has " << (extent ? "an" : "no") << " extent");
    if (extent) {
      double south = r.d(), west = r.d(), north = r.d(), east = r.d();
      PBT_CHECK(c, std::fabs(south - p.south) < 1e-9 && std::fabs(west - p.west) < 1e-9 && std::fabs(north - p.north) < 1e-9 && std::fabs(east - p.east) < 1e-9,
        "place has extent " << number(south) << ".." << number(north) << " " << number(west) << ".." << number(east) << ", not " << number(p.south) << ".." << number(p.north) << " " << number(p.west) << ".." << number(p.east));
    }
  }
  PBT_CHECK(c, !r.more(), "more places than the server has");
  if (places.size() > 1 || kind == 2) c.nontrivial();
  c.label(kind == 0 ? "name" : kind == 1 ? "name in box" : places.empty() ? "nothing there" : "coordinate");
}

// ---- all together

const Strings AddressTags = {"addr:country", "addr:city", "addr:suburb", "addr:state", "addr:province", "addr:district", "addr:postcode", "addr:place", "addr:street", "addr:housenumber", "addr:name"};

void applicationFacet(Ctx &c) {
  Machine m(c);
  m.writeFiles();
  auto settings = genSettings(c, m.dir);
  settings.index = m.index;
  settings.osmFormat = c.pick(Strings{"xml", "pbf"});
  settings.mapFormat = "json";
  settings.import = m.index + "/import";
  mkdir(settings.import.c_str(), 0755);
  for (int i = 0; i <= 19; ++i) mkdir((m.index + "/data/" + std::to_string(i)).c_str(), 0755), mkdir((m.direct + "/data/" + std::to_string(i)).c_str(), 0755);
  Servers servers(c, settings);
  Strings urls;
  std::string osmData = readFile(m.files[settings.osmFormat == "xml" ? 0 : 1].first), mapData;
  {
    std::ostringstream s;
    s.precision(12);
    s << "{\"pois\":{\"type\":\"FeatureCollection\",\"features\":[";
    c.repeat(1, 4, [&](std::size_t i) {
      GeoCoordinate p(m.town.box.minPoint.latitude + m.town.box.height()*c.real(0.02, 0.98), m.town.box.minPoint.longitude + m.town.box.width()*c.real(0.02, 0.98));
      s << (i ? "," : "") << "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[" << p.longitude << "," << p.latitude << "]},\"properties\":{\"" << Owner << "\":\"me" << i << "\"}}";
    });
    s << "]}}";
    mapData = s.str();
  }
  m.s.network = [&](const std::string &url) {
    if (url.find("//ele.test") != std::string::npos) return servers.answer(url);
    urls.push_back(url);
    c.note() << "  GET " << url << "\n";
    return url.find("//osm.test") != std::string::npos ? osmData : mapData;
  };
  std::string key = c.pick(Strings{"memory", "disk"});
  Command start("Start");
  m.projection.put(start);
  configOf(c, settings).put(start);
  start.s(key == "disk" ? m.dir + "/library-disk" : "");
  m.s.call(start);
  ::disconnect();
  ::connect(m.direct.c_str(), onError);
  received.clear();
  if (key == "disk") ::registerPersistentStore("disk", (m.dir + "/disk-disk").c_str(), onDirectory);
  else ::registerInMemoryStore("memory");
  m.kinds[key] = key == "disk";
  // places
  std::vector<Thing> places;
  auto style = m.good[1];
  std::size_t found = 0;
  utymap::CancellationToken token;
  auto inside = QuadKey(16, m.q.tileX, m.q.tileY);
  if (m.q.levelOfDetail < 16) { int d = 16 - m.q.levelOfDetail; inside = QuadKey(16, m.q.tileX << d, m.q.tileY << d); }
  else { int d = m.q.levelOfDetail - 16; inside = QuadKey(16, m.q.tileX >> d, m.q.tileY >> d); }
  auto house = utymap::utils::GeoUtils::quadKeyToBoundingBox(inside);
  m.use(style);
  c.repeat(0, 6, [&](std::size_t i) {
    Texts tags = {{Owner, "me"}};
    for (const auto &t : AddressTags) if (c.chance(1, 3)) tags[t] = c.pick(Strings{"Berlin", "Main Street", "12", "12a", "Invaliden", "Mitte"});
    GeoCoordinate g(house.minPoint.latitude + house.height()*c.grid(0.05, 0.95, 9), house.minPoint.longitude + house.width()*c.grid(0.05, 0.95, 9));
    double v[] = {g.latitude, g.longitude};
    std::vector<const char *> texts;
    for (const auto &t : tags) { texts.push_back(t.first.c_str()); texts.push_back(t.second.c_str()); }
    Command edit("Edit");
    edit.s(key).s(style).i(static_cast<long long>(i + 1)).i(1).g(g).i(static_cast<long long>(tags.size()));
    for (const auto &t : tags) edit.s(t.first).s(t.second);
    m.what = "add a house";
    m.engine([&] { ::addDataInElement(key.c_str(), style.c_str(), i + 1, v, 2, texts.data(), static_cast<int>(texts.size()), 16, 16, onError, &token); });
    m.perform(edit.i(16).i(16), false);
    m.compareErrors();
  });
  c.repeat(0, 3, [&](std::size_t) {
    Command command("Places");
    BoundingBox box = house;
    if (c.boolean()) {
      auto name = c.pick(Strings{"Berlin", "Main Street", "12", "Mitte 12a", "absent"});
      m.what = "places with name " + name;
      if (c.boolean()) box.maxPoint.latitude = house.center().latitude;
      command.s("name").s(name).box(box);
      m.engine([&] { ::getDataByText(1, "", "", name.c_str(), box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, 16, 16, onElement, onError, &token); });
    } else {
      // nobody is close to the border of the box
      GeoCoordinate g(house.minPoint.latitude + house.height()*c.grid(0.05, 0.95, 9), house.minPoint.longitude + house.width()*c.grid(0.05, 0.95, 9));
      double circle = 40075160*std::cos(g.latitude*M_PI/180)/360, lat = 111133;
      double size = house.width()*circle*c.pick({0.7*0.1, 2.3*0.1, 0.9});
      m.what = "places around " + number(g.latitude) + " " + number(g.longitude) + " in box of " + number(size) + " m";
      command.s("at").g(g).d(size);
      box = BoundingBox(GeoCoordinate(g.latitude - size/2/lat, g.longitude - size/2/circle), GeoCoordinate(g.latitude + size/2/lat, g.longitude + size/2/circle));
      m.engine([&] { ::getDataByText(1, "", "addr street housenumber", "", box.minPoint.latitude, box.minPoint.longitude, box.maxPoint.latitude, box.maxPoint.longitude, 16, 16, onElement, onError, &token); });
    }
    c.note() << m.what << "\n";
    PBT_CHECK(c, received.errors.empty(), m.what << ": " << received.errors[0]);
    auto r = m.s.call(command);
    std::multiset<std::string> want, got;
    auto text = [](long long id, double lon, double lat, const std::string &name) { return std::to_string(id) + " at " + number(lat) + " " + number(lon) + ": " + name; };
    for (const auto &t : received.things) {
      std::string name;
      bool first = true;
      for (const auto &a : AddressTags) { auto p = t.tags.find(a); if (p == t.tags.end()) continue; name += (first ? "" : ", ") + p->second; first = false; }
      want.insert(text(t.id, t.points[0], t.points[1], name));
    }
    for (auto n = r.i(); n > 0; --n) { auto id = r.i(); double lat = r.d(), lon = r.d(); got.insert(text(id, lon, lat, r.s())); }
    PBT_CHECK(c, r.i() == 0, m.what << ": error " << r.s());
    std::ostringstream differs;
    for (const auto &w : want) if (!got.count(w)) differs << " missing " << w;
    for (const auto &g : got) if (!want.count(g)) differs << " unexpected " << g;
    PBT_CHECK(c, want == got, m.what << ":" << differs.str());
    found += got.size();
  });
  if (found) c.label("places");
  // tiles
  std::set<std::string> fetched;
  c.repeat(1, 4, [&](std::size_t) {
    auto tile = c.chance(1, 3) ? inside : c.chance(1, 2) ? m.q : c.pick(m.tiles);
    auto style = c.pick(m.good);
    int type = c.chance(1, 3) ? 2 : 0;
    m.what = "request of tile " + Machine::show(tile) + " with " + style.substr(m.dir.size()) + " and elevation " + Types[type];
    c.note() << m.what << "\n";
    urls.clear();
    auto r = m.s.call(Command("Request").q(tile).s(style).i(type));
    m.use(style);
    std::vector<std::string> importErrors;
    if (type == 2) {   // both have the same elevation
      auto file = "/data/" + std::to_string(tile.levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(tile) + ".ele";
      PBT_CHECK(c, fileExists(m.index + file), m.what << ": elevation is not stored");
      writeFile(m.direct + file, readFile(m.index + file));
    }
    received.clear();
    if (!::hasData(tile.tileX, tile.tileY, tile.levelOfDetail)) {
      bool osm = tile.levelOfDetail == 16;
      auto file = m.dir + "/own." + (osm ? settings.osmFormat : "json");
      writeFile(file, osm ? osmData : mapData);
      m.engine([&] { ::addDataInQuadKey(key.c_str(), style.c_str(), file.c_str(), tile.tileX, tile.tileY, tile.levelOfDetail, onError, &token); });
      importErrors = received.errors;
      bool first = fetched.insert(Machine::show(tile)).second;
      PBT_CHECK(c, urls.size() == (first ? 1u : 0u), m.what << ": " << urls.size() << " requests for data");
      c.label(osm ? "osm" : "map");
    } else PBT_CHECK(c, urls.empty(), m.what << ": data is there but fetched with " << urls[0]);
    m.engine([&] { ::getDataByQuadKey(1, style.c_str(), tile.tileX, tile.tileY, tile.levelOfDetail, type, onMesh, onElement, onError, &token); });
    received.errors.insert(received.errors.begin(), importErrors.begin(), importErrors.end());
    m.things.clear();
    m.errors.clear();
    auto events = m.read(r);
    for (auto n = r.i(); n > 0; --n) m.errors.push_back(r.s());
    PBT_CHECK(c, events == 1, m.what << ": observers of tiles get " << events << " events; " << (m.errors.empty() ? "" : m.errors[0]));
    m.compare();
  });
  if (m.delivered > 1) c.nontrivial();
}

}

int main(int argc, char **argv) {
  mono::Pool::get().start(8);
  return pbt::run(argc, argv, "C29", {
    {"provider", "up to 5 tiles, some of them again, for which elevation and data is fetched from servers; non-trivial: more than one request and something which was there already", 5000, 300000, providerFacet},
    {"many", "up to 10 tiles asked for at once, some of them several times; non-trivial: more than one", 2000, 100000, manyFacet},
    {"limit", "up to 4 tiles asked for at once while requests for elevation are limited; non-trivial: more than one", 40, 400, limitFacet},
    {"cell", "a cell of SRTM data which is fetched and then read by the engine", 60, 2000, cellFacet},
    {"place", "a place searched by name, in a box, or by coordinate in any culture; non-trivial: more than one place or by coordinate", 8000, 400000, nominatimFacet},
    {"application", "everything wired as by an application: houses added and found, tiles requested which are fetched, imported and loaded, compared with the exported functions called directly; non-trivial: more than one thing delivered", 600, 20000, applicationFacet},
  }, {"Servers answer as documented for each kind; requests which fail are out of scope.", "The limit of requests per second is switched off but for the facet which is about it.", "Cells of SRTM data which are missing in the schema are out of scope."});
}
