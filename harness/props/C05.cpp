// C05: text search against a naive evaluation.
#include "stores.hpp"

using namespace model;
using pbt::Ctx;

namespace {

void search(Ctx &c) {
  Stores s(c, 1);
  std::vector<std::string> vocabulary = {"cafe", "bar", "amenity", "name", "Mitte", "mitte", "12", "north-sea", "x"};
  int lod = static_cast<int>(c.integer(2, 18));
  long long n = 1LL << lod;
  int x = static_cast<int>(c.integer(0, n - 2)), y = static_cast<int>(c.integer(0, n - 2));
  std::vector<QuadKey> tiles = {QuadKey(lod, x, y), QuadKey(lod, x + 1, y), QuadKey(lod, x, y + 1), QuadKey(lod + 1, x*2, y*2), QuadKey(lod + 1, x*2 + 1, y*2 + 1)};
  auto used = static_cast<std::size_t>(c.draw(4)) + 1;
  tiles.resize(used);
  std::uint64_t id = 1;
  std::size_t matches = 0, queries = 0;
  bool reopened = false, big = false;
  auto whole = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(lod, x, y));
  auto steps = [&](std::size_t) {
    auto op = c.draw(10);
    if (op <= 4) {
      const auto &q = c.pick(tiles);
      TextTags tags;
      auto e = genStored(c, *s.table, q, id++, tags, vocabulary);
      for (std::size_t i = 0; i < 2; ++i) s.save(i, *e, tags, q);
      if (c.note().tellp() < 3000) { c.note() << "save " << show(q) << " {"; for (auto &t : tags) c.note() << t.first << "=" << t.second << ";"; c.note() << "} "; }
    } else if (op == 5 && c.chance(1, 3)) {
      // many elements of one tile, some words are rare
      const auto &q = c.pick(tiles);
      auto count = c.small(1, 300);
      auto period = static_cast<std::uint64_t>(c.small(1, 150));
      c.note() << "bulk " << show(q) << " " << count << "/" << period << " ";
      for (std::int64_t k = 0; k < count; ++k) {
        Node node;
        node.id = id++;
        auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
        node.coordinate = GeoCoordinate(b.minPoint.latitude + b.height()*0.3, b.minPoint.longitude + b.width()*0.4);
        TextTags tags;
        tags.emplace_back("bulk", static_cast<std::uint64_t>(k) % period == 0 ? "bar" : "b" + std::to_string(k % 3));
        addTags(node, *s.table, tags);
        for (std::size_t i = 0; i < 2; ++i) s.save(i, node, tags, q);
      }
      if (count > 64) big = true;
    } else if (op == 6) {
      c.note() << "reopen ";
      s.reopen(1);
      reopened = true;
    } else if (op == 10) {
      // what is erased is not found anymore, also after the tile is filled again
      const auto &q = c.pick(tiles);
      c.note() << "erase " << show(q) << " ";
      std::vector<std::size_t> which;
      for (std::size_t i = 0; i < 2; ++i) if (s.models[i].count(q)) which.push_back(i);
      if (which.empty()) return;
      for (auto i : which) s.erase(i, q);
      c.label("erased");
    } else if (op >= 7) {
      TextQuery t;
      auto term = [&] { return c.chance(1, 8) ? std::string("nowhere") : c.chance(1, 8) ? std::string("bulk") : c.pick(vocabulary); };
      c.repeat(0, 2, [&](std::size_t) { t.andTerms.push_back(term()); });
      c.repeat(0, 3, [&](std::size_t) { t.orTerms.push_back(term()); });
      c.repeat(0, 2, [&](std::size_t) { t.notTerms.push_back(term()); });
      if (t.andTerms.empty() && t.orTerms.empty()) t.andTerms.push_back(term());
      t.from = lod - static_cast<int>(c.draw(1));
      t.to = std::max(t.from, lod + static_cast<int>(c.draw(1)));
      double w = whole.width(), h = whole.height();
      double lat0 = whole.minPoint.latitude + h*c.real(-1.1001, 0.9), lon0 = whole.minPoint.longitude + w*c.real(-0.1001, 0.9);
      t.box = BoundingBox(GeoCoordinate(lat0, lon0), GeoCoordinate(lat0 + h*c.real(0.01, 2.2), lon0 + w*c.real(0.01, 2.2)));
      if (c.chance(1, 2)) t.box = BoundingBox(GeoCoordinate(whole.minPoint.latitude - h*1.5, whole.minPoint.longitude - w*0.7), GeoCoordinate(whole.maxPoint.latitude + h*0.7, whole.maxPoint.longitude + w*1.7));
      t.box.minPoint = GeoCoordinate(std::max(-85.0, t.box.minPoint.latitude), std::max(-179.9, t.box.minPoint.longitude));
      t.box.maxPoint = GeoCoordinate(std::min(85.0, t.box.maxPoint.latitude), std::min(179.9, t.box.maxPoint.longitude));
      if (!t.box.isValid()) return;
      int style = static_cast<int>(c.draw(5));
      c.note() << "query not[" << model::join(t.notTerms) << "] and[" << model::join(t.andTerms) << "] or[" << model::join(t.orTerms) << "] ";
      auto a = s.checkText(0, t, style);
      s.checkText(1, t, style);
      ++queries;
      if (a > 0) ++matches;
      c.label(a == 0 ? "query without match" : "query with match");
      c.label(std::string("query ") + (t.andTerms.empty() ? "" : "and ") + (t.orTerms.empty() ? "" : "or ") + (t.notTerms.empty() ? "" : "not"));
    }
  };
  c.repeat(3, 60, steps);
  if (matches > 0) c.nontrivial();
  if (reopened) c.label("reopened");
  if (big) c.label("more than 64 elements in a tile");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C05", {
    {"search", "elements with tags of a small vocabulary in up to 5 tiles of two zooms, in memory and on disk, with reopenings and erased tiles; queries with required, alternative and excluded words over random boxes; non-trivial: a query with matches", 18000, 400000, search},
  }, {"A query names at least one required or alternative word.", "Words are separated by the punctuation the index documents; letter case matters."});
}
