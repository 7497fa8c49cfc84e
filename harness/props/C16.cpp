// C16: elevation.
#include "model.hpp"

#include "heightmap/FlatElevationProvider.hpp"
#include "heightmap/GridElevationProvider.hpp"
#include "heightmap/SrtmElevationProvider.hpp"

#include <atomic>
#include <cmath>
#include <map>
#include <sys/stat.h>
#include <thread>

using namespace model;
using namespace utymap::heightmap;
using pbt::Ctx;

namespace {

struct TileBox {
  double south, west, north, east;
};

/// Web mercator, written down here independently of the library.
TileBox boxOf(const QuadKey &q) {
  const double n = std::ldexp(1., q.levelOfDetail), pi = 3.14159265358979323846;
  auto lat = [&](double y) { return std::atan(std::sinh(pi*(1 - 2*y/n)))*180/pi; };
  return {lat(q.tileY + 1), q.tileX/n*360 - 180, lat(q.tileY), (q.tileX + 1)/n*360 - 180};
}

std::string codeOf(const QuadKey &q) {
  std::string s;
  for (int i = q.levelOfDetail; i > 0; --i) s += static_cast<char>('0' + ((q.tileX >> (i - 1)) & 1) + 2*((q.tileY >> (i - 1)) & 1));
  return s;
}

double bilinear(const std::function<double(int, int)> &at, double x, double y, int last) {
  int x0 = std::max(0, std::min(static_cast<int>(std::floor(x)), last - 1));
  int y0 = std::max(0, std::min(static_cast<int>(std::floor(y)), last - 1));
  double dx = x - x0, dy = y - y0;
  return (at(x0, y0)*(1 - dx) + at(x0 + 1, y0)*dx)*(1 - dy) + (at(x0, y0 + 1)*(1 - dx) + at(x0 + 1, y0 + 1)*dx)*dy;
}

// ---- grid ------------------------------------------------------------------------------------------------------------
struct Grid {
  QuadKey key;
  TileBox box;
  int last;
  std::vector<int> heights;
  int range;

  double expected(double lat, double lon) const {
    return bilinear([&](int x, int y) { return heights[static_cast<std::size_t>(y*(last + 1) + x)]; },
                    (lon - box.west)/(box.east - box.west)*last, (lat - box.south)/(box.north - box.south)*last, last);
  }
  /// Coordinates are kept with seven digits.
  double tolerance() const { return 1e-6*(1 + range) + range*4e-7*last*(1/(box.east - box.west) + 1/(box.north - box.south)); }
};

QuadKey anyTile(Ctx &c, int from, int to) {
  int z = static_cast<int>(c.integer(from, to));
  int most = (1 << z) - 1;
  auto pos = [&] { return c.chance(1, 6) ? c.pick<int>({0, most, most/2, most/2 + 1 > most ? most : most/2 + 1}) : static_cast<int>(c.integer(0, most)); };
  int x = pos(), y = pos();
  return QuadKey(z, x, y);
}

Grid makeGrid(Ctx &c, const std::string &dir, const QuadKey &key, int mostCells = 40) {
  Grid g;
  g.key = key;
  g.box = boxOf(key);
  g.last = static_cast<int>(c.integer(1, mostCells));
  int amplitude = c.pick<int>({10, 1, 0, 300, 9000});
  int base = c.pick<int>({0, 100, -50, -400, 8000});
  g.range = 0;
  auto seed = c.draw(1u << 30);
  std::string text;
  for (int i = 0; i < (g.last + 1)*(g.last + 1); ++i) {
    auto h = (static_cast<std::uint64_t>(i) + seed)*0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    int v = base + (amplitude == 0 ? 0 : static_cast<int>(h%static_cast<std::uint64_t>(2*amplitude + 1)) - amplitude);
    g.heights.push_back(v);
    text += (i == 0 ? "" : i%(g.last + 1) == 0 && seed%2 ? "\n" : " ") + std::to_string(v);
  }
  g.range = 2*amplitude;
  makeDir(dir + "data");
  makeDir(dir + "data/" + std::to_string(key.levelOfDetail));
  writeFile(dir + "data/" + std::to_string(key.levelOfDetail) + "/" + codeOf(key) + ".ele", text);
  c.note() << "tile " << show(key) << ": " << g.last + 1 << "x" << g.last + 1 << " heights " << base << "+-" << amplitude << " seed " << seed << "\n";
  return g;
}

double within(Ctx &c, double a, double b, int last) {
  switch (c.draw(5)) {
    case 0: return a;
    case 1: return b;
    case 2: return a + (b - a)*static_cast<double>(c.integer(0, last))/last;
    default: return a + (b - a)*c.real(0, 1);
  }
}

void grid(Ctx &c) {
  auto dir = c.tmpDir() + "/";
  std::map<std::string, Grid> grids;
  std::vector<std::string> names;
  c.repeat(1, 4, [&](std::size_t) {
    auto key = !names.empty() && c.chance(1, 3) ? [&] {
      // a neighbour
      auto k = grids.at(names[0]).key;
      return QuadKey(k.levelOfDetail, std::min(k.tileX + 1, (1 << k.levelOfDetail) - 1), k.tileY);
    }() : anyTile(c, 1, 20);
    auto name = show(key);
    if (grids.count(name)) return;
    grids.emplace(name, makeGrid(c, dir, key));
    names.push_back(name);
  });
  if (names.empty()) c.discard();
  GridElevationProvider provider(dir);
  bool inner = false;
  c.repeat(1, 60, [&](std::size_t) {
    if (c.chance(1, 20)) {
      // no data
      auto key = anyTile(c, 1, 20);
      if (grids.count(show(key))) return;
      bool thrown = false;
      try { provider.getElevation(key, 1, 1); } catch (const std::exception &) { thrown = true; }
      PBT_CHECK(c, thrown, "no error for the tile " << show(key) << " without data");
      c.label("no data");
      return;
    }
    const auto &g = grids.at(c.pick(names));
    double lat = within(c, g.box.south, g.box.north, g.last), lon = within(c, g.box.west, g.box.east, g.last);
    double got = pbt::noThrow("lookup", [&] { return c.boolean() ? provider.getElevation(g.key, lat, lon) : provider.getElevation(g.key, utymap::GeoCoordinate(lat, lon)); });
    double want = g.expected(lat, lon);
    PBT_CHECK(c, std::fabs(got - want) <= g.tolerance(), "tile " << show(g.key) << " at " << pbt::str(lat) << "," << pbt::str(lon) << ": " << pbt::str(got) << " instead of " << pbt::str(want) << " +- " << g.tolerance());
    PBT_CHECK(c, utymap::heightmap::FlatElevationProvider().getElevation(g.key, lat, lon) == 0, "flat");
    if (g.range > 0 && g.tolerance() < 0.2*g.range) inner = true;
  });
  if (inner) c.nontrivial();
}

/// Files which have no grid.
void badGrid(Ctx &c) {
  auto dir = c.tmpDir() + "/";
  auto key = anyTile(c, 1, 20);
  auto folder = dir + "data/" + std::to_string(key.levelOfDetail);
  makeDir(dir + "data");
  makeDir(folder);
  auto text = c.pick<std::string>({"", " ", "5", "5 6", "5 6 7", "x", "1 2 3 x", "1.5 2 3 4", "1 2 3 99999999999"});
  writeFile(folder + "/" + codeOf(key) + ".ele", text);
  c.note() << "tile " << show(key) << " file '" << text << "'\n";
  GridElevationProvider provider(dir);
  auto box = boxOf(key);
  for (int i = 0; i < 2; ++i) {
    bool thrown = false;
    try { provider.getElevation(key, (box.south + box.north)/2, (box.west + box.east)/2); } catch (const std::exception &) { thrown = true; }
    PBT_CHECK(c, thrown, "no error");
  }
  auto good = makeGrid(c, dir, key);
  double lat = box.south + (box.north - box.south)*0.3, lon = box.west + (box.east - box.west)*0.6;
  double got = pbt::noThrow("lookup after repair of the file", [&] { return provider.getElevation(key, lat, lon); });
  PBT_CHECK(c, std::fabs(got - good.expected(lat, lon)) <= good.tolerance(), "after repair of the file: " << got << " instead of " << good.expected(lat, lon));
  c.nontrivial();
}

// ---- srtm ------------------------------------------------------------------------------------------------------------
struct Cell {
  int lat, lon, size;
  std::uint64_t seed;
  int base, amplitude;

  /// Sample with the given position from the south west corner.
  int at(int x, int y) const {
    if (amplitude == 0) return base + x/7 - y/11;
    auto h = (static_cast<std::uint64_t>(y)*5003 + static_cast<std::uint64_t>(x) + seed)*0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    return base + static_cast<int>(h%static_cast<std::uint64_t>(2*amplitude + 1)) - amplitude;
  }
  double expected(double latitude, double longitude) const {
    return bilinear([&](int x, int y) { return at(x, y); }, (longitude - lon)*(size - 1), (latitude - lat)*(size - 1), size - 1);
  }
  std::string name() const {
    char text[32];
    std::snprintf(text, sizeof text, "%c%02d%c%03d.hgt", lat < 0 ? 'S' : 'N', std::abs(lat), lon < 0 ? 'W' : 'E', std::abs(lon));
    return text;
  }
  std::string data() const {
    std::string s(static_cast<std::size_t>(size)*size*2, '\0');
    std::size_t p = 0;
    for (int y = size - 1; y >= 0; --y)
      for (int x = 0; x < size; ++x) {
        int v = at(x, y);
        s[p++] = static_cast<char>((v >> 8) & 0xff);
        s[p++] = static_cast<char>(v & 0xff);
      }
    return s;
  }
};

QuadKey tileAt(double lat, double lon, int z) {
  const double n = std::ldexp(1., z), pi = 3.14159265358979323846;
  double r = lat*pi/180;
  int most = (1 << z) - 1;
  int x = static_cast<int>(std::floor((lon + 180)/360*n)), y = static_cast<int>(std::floor((1 - std::asinh(std::tan(r))/pi)/2*n));
  return QuadKey(z, std::max(0, std::min(x, most)), std::max(0, std::min(y, most)));
}

void srtm(Ctx &c) {
  auto dir = c.tmpDir() + "/";
  makeDir(dir + "data");
  std::map<std::pair<int, int>, Cell> cells;
  auto create = [&](int lat, int lon) {
    Cell cell;
    cell.lat = lat;
    cell.lon = lon;
    cell.size = c.chance(1, 25) ? 3601 : 1201;
    cell.seed = c.draw(1u << 30);
    cell.base = c.pick<int>({0, 100, -100, 2000, 8000, -400});
    cell.amplitude = c.pick<int>({0, 20, 100, 400});
    writeFile(dir + "data/" + cell.name(), cell.data());
    cells.emplace(std::make_pair(lat, lon), cell);
    c.note() << "cell " << cell.name() << " size " << cell.size << " base " << cell.base << " amplitude " << cell.amplitude << " seed " << cell.seed << "\n";
  };
  create(static_cast<int>(c.chance(1, 3) ? c.integer(-2, 1) : c.integer(-80, 79)), static_cast<int>(c.chance(1, 3) ? c.integer(-2, 1) : c.integer(-180, 179)));
  const Cell first = cells.begin()->second;
  if (c.chance(1, 3) && first.lon < 179) create(first.lat, first.lon + 1);
  if (c.chance(1, 6)) create(first.lat + 1, first.lon);

  SrtmElevationProvider provider(dir);
  bool inner = false;
  c.repeat(1, 150, [&](std::size_t) {
    auto it = cells.begin();
    std::advance(it, c.draw(cells.size() - 1));
    const Cell &cell = it->second;
    auto position = [&](int from) {
      switch (c.draw(5)) {
        case 0: return static_cast<double>(from);
        case 1: return from + static_cast<double>(c.integer(0, cell.size - 2))/(cell.size - 1);
        case 2: return std::nextafter(from + static_cast<double>(c.integer(1, cell.size - 1))/(cell.size - 1), -1e9);
        default: return from + c.real(0, 0.99999);
      }
    };
    double lat = position(cell.lat), lon = position(cell.lon);
    if (std::floor(lat) != cell.lat || std::floor(lon) != cell.lon) return;
    // the tile and all cells it touches
    auto tile = tileAt(lat, lon, static_cast<int>(c.integer(11, 19)));
    if (c.chance(1, 8)) tile.tileX = std::max(0, tile.tileX - 1);
    auto box = boxOf(tile);
    bool known = true;
    for (double a : {box.south - 1e-9, box.north + 1e-9})
      for (double o : {box.west - 1e-9, box.east + 1e-9})
        known = known && cells.count({static_cast<int>(std::floor(a)), static_cast<int>(std::floor(o))});
    double got;
    try {
      got = provider.getElevation(tile, lat, lon);
    } catch (const std::exception &e) {
      PBT_CHECK(c, !known, "tile " << show(tile) << " at " << pbt::str(lat) << "," << pbt::str(lon) << ": " << e.what());
      c.label("no data around");
      return;
    }
    double want = cell.expected(lat, lon);
    PBT_CHECK(c, std::fabs(got - want) <= 1e-6*(1 + 2*cell.amplitude), "tile " << show(tile) << " at " << pbt::str(lat) << "," << pbt::str(lon) << ": " << pbt::str(got) << " instead of " << pbt::str(want));
    if (got != std::floor(got)) inner = true;
    c.label(std::string(lat < 0 ? "south" : "north") + (lon < 0 ? " west" : " east"));
  });
  if (inner) c.nontrivial();
}

/// Missing and broken files.
void badSrtm(Ctx &c) {
  auto dir = c.tmpDir() + "/";
  makeDir(dir + "data");
  double lat = c.real(-80, 80), lon = c.real(-179, 179);
  Cell cell{static_cast<int>(std::floor(lat)), static_cast<int>(std::floor(lon)), 1201, 1, 0, 5};
  auto path = dir + "data/" + cell.name();
  bool missing = c.boolean();
  auto size = c.pick<std::size_t>({0, 1, 100, 1201*1201*2 - 1, 1201*1201*2 + 1, 1201*1201});
  if (!missing) writeFile(path, std::string(size, 'x'));
  c.note() << cell.name() << (missing ? " missing" : " of size " + std::to_string(size)) << "\n";
  SrtmElevationProvider provider(dir);
  auto tile = tileAt(lat, lon, 18);
  for (int i = 0; i < 2; ++i) {
    bool thrown = false;
    try { provider.getElevation(tile, lat, lon); } catch (const std::exception &) { thrown = true; }
    PBT_CHECK(c, thrown, "no error");
    struct stat st;
    bool exists = ::stat(path.c_str(), &st) == 0;
    PBT_CHECK(c, exists != missing && (missing || static_cast<std::size_t>(st.st_size) == size), "the file has been " << (missing ? "created" : "changed"));
  }
  c.nontrivial();
}

// ---- threads ---------------------------------------------------------------------------------------------------------
void threads(Ctx &c) {
  auto dir = c.tmpDir() + "/";
  std::vector<Grid> grids;
  int z = static_cast<int>(c.integer(4, 18)), x = static_cast<int>(c.integer(0, (1 << z) - 9)), y = static_cast<int>(c.integer(0, (1 << z) - 9));
  for (int i = 0; i < 64; ++i) grids.push_back(makeGrid(c, dir, QuadKey(z, x + i%8, y + i/8), 2));
  GridElevationProvider provider(dir);
  auto seed = c.draw(1u << 30);
  std::atomic<int> ready{0};
  std::vector<std::string> wrong(6);
  std::vector<std::thread> all;
  for (std::size_t t = 0; t < wrong.size(); ++t)
    all.emplace_back([&, t] {
      ++ready;
      while (ready < static_cast<int>(wrong.size())) {}
      for (std::uint64_t i = 0; i < 400 && wrong[t].empty(); ++i) {
        // NOTE several threads come to new tiles at the same time.
        const auto &g = grids[i < 64 ? i : ((i + t)*2654435761u + seed) % 64];
        double lat = g.box.south + (g.box.north - g.box.south)*(static_cast<double>((i*37 + t) % 100)/100), lon = g.box.west + (g.box.east - g.box.west)*(static_cast<double>((i*53 + t) % 100)/100);
        try {
          double got = provider.getElevation(g.key, lat, lon), want = g.expected(lat, lon);
          if (std::fabs(got - want) > g.tolerance()) wrong[t] = show(g.key) + ": " + pbt::str(got) + " instead of " + pbt::str(want);
        } catch (const std::exception &e) {
          wrong[t] = e.what();
        }
      }
    });
  for (auto &t : all) t.join();
  for (const auto &w : wrong) PBT_CHECK(c, w.empty(), w);
  c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C16", {
    {"grid", "1-4 tiles of zoom 1-20 with 2x2 to 41x41 heights and up to 60 lookups: corners, samples, any position, tiles without data; non-trivial: heights differ and the tolerance is less than a fifth of their range", 30000, 1000000, grid, 60},
    {"bad grid", "files with too few or unreadable heights, repaired afterwards; every case is non-trivial", 3000, 50000, badGrid, 60},
    {"srtm", "1-3 degree cells of both resolutions on all hemispheres and up to 150 lookups through tiles of zoom 11-19: corners, samples, last values below a sample, any position; non-trivial: an interpolated height", 400, 12000, srtm, 120},
    {"bad srtm", "missing files and files of wrong size; every case is non-trivial", 1500, 40000, badSrtm, 60},
    {"threads", "6 threads look up 64 tiles at the same time; every case is non-trivial", 300, 10000, threads, 60},
  }, {"Coordinates are inside of the tile for grids; the grid keeps coordinates with seven digits, the tolerance is four such digits.", "Void samples (-32768) of terrain models are not generated: the code does not define them.", "The engine reports missing elevation data as an error."});
}
