// C17: every mesh is well formed and named after its element.
#include "city.hpp"
#include "stores.hpp"

#include "index/GeoStore.hpp"

using namespace bench;
using namespace utymap::builders;
using namespace utymap::index;
using pbt::Ctx;

namespace {

/// Bumps on a slope: no plane.
struct Bumps final : utymap::heightmap::ElevationProvider {
  Slope slope;
  double height = 0, scale = 1;
  double at(double lat, double lon) const { return slope.at(lat, lon) + height*std::sin(lat*scale)*std::cos(lon*scale); }
  double getElevation(const QuadKey &, const GeoCoordinate &g) const override { return at(g.latitude, g.longitude); }
  double getElevation(const QuadKey &, double lat, double lon) const override { return at(lat, lon); }
};

struct Delivered {
  std::vector<std::unique_ptr<Mesh>> meshes;
  std::vector<std::string> elements;
};

Delivered build(QuadKeyBuilder &builder, const QuadKey &q, const utymap::mapcss::StyleProvider &styles, const utymap::heightmap::ElevationProvider &ele) {
  Delivered d;
  utymap::CancellationToken token;
  pbt::noThrow("build", [&] {
    builder.build(q, styles, ele, [&](const Mesh &m) { d.meshes.push_back(copy(m)); }, [&](const Element &e) { d.elements.push_back(describe(e)); }, token);
  });
  return d;
}

void tile(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable table(dir);
  auto q = anyTile(c, 10, 18);
  auto city = city::generate(c, table, dir, q, 6);
  auto styles = provider(city.css, table, dir);
  c.note() << city.css << "tile " << show(q) << "\n";
  for (const auto &t : city.things) c.note() << describe(*t.element) << "\n";

  GeoStore geoStore(table);
  ElementStore *store;
  if (c.chance(1, 4)) store = new PersistentElementStore(storeDir(c), table);
  else store = new InMemoryElementStore(table);
  geoStore.registerStore("store", std::unique_ptr<ElementStore>(store));
  for (const auto &t : city.things) pbt::noThrow("save", [&] { store->save(*t.element, q); });

  Bumps ele;
  ele.slope = anySlope(c, city.box);
  if (c.boolean()) { ele.height = c.real(0, 50); ele.scale = c.real(1, 50)/city.box.height(); }
  QuadKeyBuilder builder(geoStore, table);
  city::registerAll(builder);
  auto got = build(builder, q, *styles, ele);

  std::map<std::string, int> count;
  std::size_t vertices = 0;
  for (const auto &m : got.meshes) {
    auto wrong = meshes::malformed(*m, true);
    PBT_CHECK(c, wrong.empty(), "mesh " << m->name << ": " << wrong);
    ++count[m->name];
    vertices += m->vertices.size();
  }
  std::set<std::string> named, common = {"terrain_surface", "terrain_exterior", "mesh_earth", "mesh_water", "mesh_wood", "forest"};
  std::multiset<std::string> external;
  for (const auto &t : city.things) {
    for (const auto &n : t.meshes) {
      named.insert(n);
      PBT_CHECK(c, count[n] == 1 || (!t.always && count[n] == 0), count[n] << " meshes " << n << " for " << describe(*t.element));
    }
    if (t.builder == "import") external.insert(describe(*t.element));
    c.label(t.builder);
  }
  for (const auto &m : got.meshes) {
    PBT_CHECK(c, named.count(m->name) || (city.terrain && common.count(m->name)), "mesh " << m->name << " is named after no element");
  }
  PBT_CHECK(c, std::multiset<std::string>(got.elements.begin(), got.elements.end()) == external, got.elements.size() << " elements are passed to the application, not " << external.size());

  // meshes come from a pool: what is left of the first round does not show
  auto again = build(builder, q, *styles, ele);
  PBT_CHECK(c, again.meshes.size() == got.meshes.size(), again.meshes.size() << " meshes in the second build, " << got.meshes.size() << " in the first one");
  for (std::size_t i = 0; i < got.meshes.size(); ++i) {
    auto a = city::fingerprint(*got.meshes[i]), b = city::fingerprint(*again.meshes[i]);
    PBT_CHECK(c, a == b, "second build gives " << b << ", first one " << a);
  }
  if (city.things.size() > 1 && vertices > 0) c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C17", {
    {"tile", "tiles with up to six elements for all builders of meshes (surfaces, buildings of all roofs and facades, trees, lamps, barriers) with generated style; non-trivial: more than one element and a mesh with vertices", 12000, 400000, tile},
  }, {"What the meshes look like is decided by C11, C18, C19, C20 and C22."});
}
