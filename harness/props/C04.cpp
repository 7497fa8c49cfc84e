// C04: element stores against a model over histories.
#include "stores.hpp"

using namespace model;
using pbt::Ctx;

namespace {

const std::vector<std::string> Vocabulary = {"cafe", "name", "park", "x1", "Cafe", "highway"};

std::vector<QuadKey> genTiles(Ctx &c, std::size_t max) {
  std::vector<QuadKey> tiles;
  int lod = static_cast<int>(c.integer(1, 19));
  long long n = 1LL << lod;
  int x = static_cast<int>(c.integer(0, n - 1)), y = static_cast<int>(c.integer(0, n - 1));
  tiles.push_back(QuadKey(lod, x, y));
  c.repeat(0, max - 1, [&](std::size_t) {
    QuadKey q;
    switch (c.draw(2)) {
      case 0: q = QuadKey(lod, static_cast<int>(std::min<long long>(n - 1, x + c.integer(0, 3))), static_cast<int>(std::min<long long>(n - 1, y + c.integer(0, 3)))); break;
      case 1: { int l = std::min(19, lod + static_cast<int>(c.integer(0, 2))); q = QuadKey(l, x << (l - lod), y << (l - lod)); break; }
      default: { int l = static_cast<int>(c.integer(1, 19)); long long m = 1LL << l; q = QuadKey(l, static_cast<int>(c.integer(0, m - 1)), static_cast<int>(c.integer(0, m - 1))); }
    }
    if (std::find(tiles.begin(), tiles.end(), q) == tiles.end()) tiles.push_back(q);
  });
  return tiles;
}

void history(Ctx &c, std::size_t maxTiles, std::size_t maxSteps) {
  Stores s(c, 2);
  auto tiles = genTiles(c, maxTiles);
  std::uint64_t nextId = 1;
  int searchesThenSaves = 0, reopened = 0, erased = 0;
  bool searched = false;
  bool many = false;
  c.repeat(1, maxSteps, [&](std::size_t) {
    auto i = static_cast<std::size_t>(c.draw(s.stores.size() - 1));
    const auto &q = c.pick(tiles);
    auto log = [&](const std::string &what) { if (c.note().tellp() < 4000) c.note() << what << "(" << s.name(i) << " " << show(q) << ") "; };
    switch (c.draw(15)) {
      default: {
        log("save");
        TextTags tags;
        // the same identifier can be stored more than once
        auto id = c.chance(1, 6) ? nextId/2 : nextId++;
        auto e = genStored(c, *s.table, q, id, tags, Vocabulary);
        s.save(i, *e, tags, q);
        if (searched) ++searchesThenSaves;
        break;
      }
      case 7: case 8: log("search"); s.checkTile(i, q); searched = true; break;
      case 9: {
        auto it = s.models[i].find(q);
        auto n = it == s.models[i].end() ? 0 : it->second.size();
        auto at = static_cast<std::size_t>(c.draw(n));
        log("search cancelled at " + std::to_string(at));
        s.cancelledSearch(i, q, at);
        searched = true;
        break;
      }
      case 10: {
        log("text");
        TextQuery t;
        t.andTerms.push_back(c.pick(Vocabulary));
        auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
        t.box = BoundingBox(GeoCoordinate(b.minPoint.latitude + b.height()*0.2137, b.minPoint.longitude + b.width()*0.2139),
                            GeoCoordinate(b.minPoint.latitude + b.height()*0.8137, b.minPoint.longitude + b.width()*0.8139));
        t.from = t.to = q.levelOfDetail;
        s.checkText(i, t, 0);
        searched = true;
        break;
      }
      case 11:
        if (s.models[i].count(q)) { log("erase"); s.erase(i, q); ++erased; s.checkTile(i, q); }
        break;
      case 12:
        log("flush");
        if (i > 0) static_cast<utymap::index::PersistentElementStore *>(s.stores[i].get())->flush();
        break;
      case 13: log("reopen"); s.reopen(i); if (i) ++reopened; break;
      case 14: {
        bool has = s.stores[i]->hasData(q);
        PBT_CHECK(c, has == (s.models[i].count(q) > 0), s.name(i) << " reports presence of " << show(q) << " as " << has);
        break;
      }
      case 15: if (c.chance(1, 4)) { c.note() << "restart "; s.restart(); ++reopened; } break;
    }
  });
  for (std::size_t i = 0; i < s.stores.size(); ++i) for (const auto &q : tiles) s.checkTile(i, q);
  for (std::size_t i = 1; i < s.stores.size(); ++i) s.reopen(i);
  s.checkAll();
  for (auto &m : s.models) if (m.size() > 12) many = true;
  if (searchesThenSaves > 0 && (reopened > 0 || erased > 0)) c.nontrivial();
  if (erased) c.label("erased");
  if (reopened) c.label("reopened");
  if (many) c.label("more tiles than open files");
}

void few(Ctx &c) { history(c, 4, 60); }
void many(Ctx &c) { history(c, 40, 240); }

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C04", {
    {"few tiles", "up to 60 operations (save, search, cancelled search, text search, erase, flush, reopen, restart, presence) on one memory and two disk stores over up to 4 tiles; non-trivial: a save after a search, and a reopening or erasure", 24000, 500000, few},
    {"many tiles", "up to 240 operations over up to 40 tiles (12 are kept open)", 3000, 60000, many},
  }, {"Single-threaded use (the code says thread safety is to be improved).", "Folders of the levels exist, as the application creates them."});
}
