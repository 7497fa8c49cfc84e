// C28: the C# library delivers what the engine delivers.
#include "library.hpp"

using namespace library;

namespace {

void history(Ctx &c) {
  Machine m(c);
  m.writeFiles();
  m.open();
  m.store("memory", false);
  c.repeat(4, 40, [&](std::size_t) {
    switch (c.draw(13)) {
      case 0: m.store(c.pick(std::vector<std::string>{"disk", "other"}), c.boolean()); break;
      case 1: case 2: case 3: m.addElement(); break;
      case 4: case 5: m.addFile(); break;
      case 6: m.presence(c.pick(m.tiles)); break;
      case 7: m.elevation(); break;
      case 8: case 9: m.load(); break;
      case 10: m.text(); break;
      case 11: m.toggle(); break;
      case 12: m.grid(); break;
      default: if (c.chance(1, 3)) m.open();
    }
  });
  m.load();
  m.text();
  if (m.failures) c.label("failures");
  if (m.cancelled) c.label("cancelled");
  if (m.delivered > 1 && m.meshes) c.nontrivial();
}

/// Tiles are requested from the store of the C# library: it imports what its provider of data names, then delivers.
void tilesFacet(Ctx &c) {
  Machine m(c);
  m.writeFiles();
  m.open();
  auto key = c.pick(std::vector<std::string>{"memory", "disk"});
  Command command("Requests");
  m.kinds[key] = key == "disk";
  received.clear();
  if (key == "disk") { ::registerPersistentStore("disk", (m.dir + "/disk-disk").c_str(), onDirectory); command.s(m.dir + "/library-disk"); }
  else { ::registerInMemoryStore("memory"); command.s(""); }
  struct Request { QuadKey tile; std::string style, file; };
  std::vector<Request> requests;
  c.repeat(1, 6, [&](std::size_t) {
    auto tile = c.pick(m.tiles);
    auto style = m.anyStyle();
    requests.push_back({tile, style, c.chance(2, 3) ? m.files[c.chance(1, 8) ? 2 + c.draw(1) : c.draw(1)].first : ""});
  });
  for (const auto &r : requests) command.q(r.tile).s(r.style).s(r.file);
  auto a = m.s.call(command);
  for (const auto &r : requests) {
    const auto &style = r.style;
    m.use(style);
    m.what = "request of tile " + Machine::show(r.tile) + " with " + style.substr(m.dir.size()) + (r.file.empty() ? "" : " for which there is " + r.file.substr(m.dir.size()));
    c.note() << m.what << "\n";
    utymap::CancellationToken token;
    std::vector<std::string> importErrors;
    if (!r.file.empty() && !::hasData(r.tile.tileX, r.tile.tileY, r.tile.levelOfDetail)) {
      m.engine([&] { ::addDataInQuadKey(key.c_str(), style.c_str(), r.file.c_str(), r.tile.tileX, r.tile.tileY, r.tile.levelOfDetail, onError, &token); });
      importErrors = received.errors;
      c.label("import");
    }
    m.engine([&] { ::getDataByQuadKey(1, style.c_str(), r.tile.tileX, r.tile.tileY, r.tile.levelOfDetail, 0, onMesh, onElement, onError, &token); });
    received.errors.insert(received.errors.begin(), importErrors.begin(), importErrors.end());
    // answer
    m.things.clear();
    m.errors.clear();
    auto events = m.read(a);
    for (auto n = a.i(); n > 0; --n) m.errors.push_back(a.s());
    PBT_CHECK(c, events == 1, m.what << ": observers of tiles get " << events << " events");
    m.compare();
  }
  if (m.delivered > 1) c.nontrivial();
}

}

int main(int argc, char **argv) {
  mono::Pool::get().start(8);
  return pbt::run(argc, argv, "C28", {
    {"history", "up to 40 operations of the library: stores, elements, files, presence, elevation, tiles, text search, cancelled ones and ones which fail, compared with the exported functions called directly; non-trivial: more than one thing and a mesh delivered", 2500, 60000, history},
    {"requests", "up to 6 tiles requested from the store of map data, with and without files which its provider has fetched; non-trivial: more than one thing delivered", 1200, 30000, tilesFacet},
  }, {"What the exported functions themselves do is decided by C24.", "The C# library is compiled with mono, Unity's own types are those of the packages in the repository."});
}
