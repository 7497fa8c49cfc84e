// Runs element builders on generated elements and collects what they deliver.
#ifndef VERIF_BENCH_HPP
#define VERIF_BENCH_HPP

#include "mesh.hpp"
#include "style.hpp"

#include "builders/BuilderContext.hpp"
#include "builders/MeshPool.hpp"
#include "heightmap/ElevationProvider.hpp"

#include <array>
#include <fstream>

namespace bench {

using namespace model;
using utymap::math::Mesh;

/// Elevation which is a plane: known everywhere.
struct Slope final : utymap::heightmap::ElevationProvider {
  double a = 0, b = 0, k = 0;
  GeoCoordinate origin;
  double at(double lat, double lon) const { return k + a*(lat - origin.latitude) + b*(lon - origin.longitude); }
  double getElevation(const QuadKey &, const GeoCoordinate &g) const override { return at(g.latitude, g.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};

inline std::unique_ptr<Mesh> copy(const Mesh &m) {
  std::unique_ptr<Mesh> r(new Mesh(m.name));
  r->vertices = m.vertices;
  r->triangles = m.triangles;
  r->colors = m.colors;
  r->uvs = m.uvs;
  r->uvMap = m.uvMap;
  return r;
}

typedef std::array<int, 7> Texture;   // atlas, its size, region

/// Texture of each vertex, in the order of vertices. Needs a well formed mesh.
inline std::vector<Texture> textures(const Mesh &m) {
  std::vector<Texture> r;
  for (std::size_t i = 0; i < m.uvMap.size(); i += 8)
    while (r.size()*2 < static_cast<std::size_t>(m.uvMap[i])) {
      r.emplace_back();
      std::copy(m.uvMap.begin() + static_cast<std::ptrdiff_t>(i) + 1, m.uvMap.begin() + static_cast<std::ptrdiff_t>(i) + 8, r.back().begin());
    }
  return r;
}

inline bool sameTexture(const Texture &got, const Texture &want) {
  if (want[1] == 0) return got[1] == 0;   // no texture: no atlas
  return got == want;
}

/// Atlases used in stylesheets: text for the stylesheet and the region of each name.
struct Atlas {
  std::vector<std::pair<std::string, Texture>> regions = {
      {"grass", {{1, 1024, 512, 0, 0, 100, 50}}}, {"rock", {{1, 1024, 512, 100, 0, 100, 50}}}, {"grass", {{2, 64, 64, 5, 6, 7, 8}}}};
  std::string write(const std::string &dir) const {
    std::ofstream(dir + "/1.txt") << "1,1024,512\ngrass,0,0,100,50\nrock,100,0,100,50\n";
    std::ofstream(dir + "/2.txt") << "2,64,64\ngrass,5,6,7,8\n";
    return "@texture url(\"1.txt\");\n@texture url(\"2.txt\");\n";
  }
};

inline std::string hex(int color) {
  char s[16];
  std::snprintf(s, sizeof s, "#%06x", color);
  return s;
}
inline int rgb(int meshColor) { return (meshColor >> 8) & 0xffffff; }

/// Everything a builder needs, and what it delivered.
struct Bench {
  QuadKey q;
  BoundingBox box;
  std::unique_ptr<utymap::mapcss::StyleProvider> styles;
  utymap::builders::MeshPool pool;
  utymap::CancellationToken token;
  Slope ele;
  std::vector<std::unique_ptr<Mesh>> meshes;
  std::vector<std::string> elements;
  utymap::builders::BuilderContext context;

  Bench(const QuadKey &q, StringTable &table, const std::string &css, const std::string &dir, const Slope &slope) :
      q(q), box(utymap::utils::GeoUtils::quadKeyToBoundingBox(q)), styles(provider(css, table, dir)), ele(slope),
      context(q, *styles, table, pool, ele, [this](const Mesh &m) { meshes.push_back(copy(m)); },
              [this](const Element &e) { elements.push_back(describe(e)); }, token) {}
};

/// A tile of given zoom range anywhere.
inline QuadKey anyTile(pbt::Ctx &c, int min, int max) {
  int lod = static_cast<int>(c.integer(min, max)), n = (1 << lod) - 1;
  // most of the rows near poles are very narrow: keep to latitudes below 70 degrees
  int rows = static_cast<int>(n*0.22);
  int x = static_cast<int>(c.integer(0, n)), y = static_cast<int>(c.integer(rows, n - rows));
  return QuadKey(lod, x, y);
}

inline Slope anySlope(pbt::Ctx &c, const BoundingBox &box) {
  Slope s;
  s.origin = box.minPoint;
  if (c.boolean()) { s.a = c.real(-100, 100)/box.height(); s.b = c.real(-100, 100)/box.width(); s.k = c.real(-50, 3000); }
  return s;
}

}

#endif
