// Element stores against a model: used by C04 and C05.
#ifndef VERIF_STORES_HPP
#define VERIF_STORES_HPP

#include "model.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"

namespace model {

/// Words of a text as the documentation of the index defines them.
inline std::vector<std::string> words(const std::string &s) {
  static const std::string separators = " _:;!@#$%^&*(){}[],.?`\\/\"'";
  std::vector<std::string> r;
  std::string w;
  for (char ch : s) {
    if (separators.find(ch) != std::string::npos) { if (!w.empty()) r.push_back(w); w.clear(); }
    else w += ch;
  }
  if (!w.empty()) r.push_back(w);
  return r;
}

struct TextQuery {
  std::vector<std::string> notTerms, andTerms, orTerms;
  BoundingBox box;
  int from = 1, to = 1;
  bool matches(const std::set<std::string> &has) const {
    for (const auto &t : andTerms) if (!has.count(t)) return false;
    for (const auto &t : notTerms) if (has.count(t)) return false;
    if (orTerms.empty()) return true;
    for (const auto &t : orTerms) if (has.count(t)) return true;
    return false;
  }
};

inline BoundingBox boxOf(const Element &e) {
  BoundingBox b;
  LeafVisitor v;
  auto add = [&b](const GeoCoordinate &g) {
    b.minPoint.latitude = std::min(b.minPoint.latitude, g.latitude);
    b.minPoint.longitude = std::min(b.minPoint.longitude, g.longitude);
    b.maxPoint.latitude = std::max(b.maxPoint.latitude, g.latitude);
    b.maxPoint.longitude = std::max(b.maxPoint.longitude, g.longitude);
  };
  v.node = [&](const Node &n) { add(n.coordinate); };
  v.way = [&](const Way &w) { for (const auto &g : w.coordinates) add(g); };
  v.area = [&](const Area &w) { for (const auto &g : w.coordinates) add(g); };
  e.accept(v);
  return b;
}

inline bool overlap(const BoundingBox &a, const BoundingBox &b) {
  return std::max(a.minPoint.latitude, b.minPoint.latitude) <= std::min(a.maxPoint.latitude, b.maxPoint.latitude) &&
      std::max(a.minPoint.longitude, b.minPoint.longitude) <= std::min(a.maxPoint.longitude, b.maxPoint.longitude);
}

struct StoredEntry {
  std::string text;
  std::set<std::string> words;
  BoundingBox box;
};

typedef std::map<QuadKey, std::vector<StoredEntry>, QuadKey::Comparator> StoreModel;

/// Several stores (index 0 is in memory, others on disk) which share one dictionary.
struct Stores {
  pbt::Ctx &c;
  std::string tableDir;
  std::unique_ptr<StringTable> table;
  std::vector<std::string> dirs;
  std::vector<std::unique_ptr<utymap::index::ElementStore>> stores;
  std::vector<StoreModel> models;

  Stores(pbt::Ctx &c, std::size_t persistent) : c(c), tableDir(c.tmpDir()) {
    table.reset(new StringTable(tableDir));
    models.resize(persistent + 1);
    dirs.push_back("");
    stores.emplace_back(new utymap::index::InMemoryElementStore(*table));
    for (std::size_t i = 0; i < persistent; ++i) {
      dirs.push_back(storeDir(c));
      stores.emplace_back(new utymap::index::PersistentElementStore(dirs.back(), *table));
    }
  }

  std::string name(std::size_t i) const { return i == 0 ? "memory" : "disk" + std::to_string(i); }

  void reopen(std::size_t i) {
    if (i == 0) return;
    stores[i].reset();
    stores[i].reset(new utymap::index::PersistentElementStore(dirs[i], *table));
  }

  /// Closes everything, the dictionary too, and opens what is on disk again. The memory store is gone then.
  void restart() {
    for (auto &s : stores) s.reset();
    table.reset();
    table.reset(new StringTable(tableDir));
    models[0].clear();
    stores[0].reset(new utymap::index::InMemoryElementStore(*table));
    for (std::size_t i = 1; i < stores.size(); ++i) stores[i].reset(new utymap::index::PersistentElementStore(dirs[i], *table));
  }

  void save(std::size_t i, const Element &e, const TextTags &tags, const QuadKey &q) {
    stores[i]->save(e, q);
    StoredEntry s;
    s.text = describe(e);
    for (const auto &t : tags) {
      for (const auto &w : words(t.first)) s.words.insert(w);
      for (const auto &w : words(t.second)) s.words.insert(w);
    }
    s.box = boxOf(e);
    models[i][q].push_back(s);
  }

  void erase(std::size_t i, const QuadKey &q) {
    stores[i]->erase(q);
    models[i].erase(q);
  }

  void checkTile(std::size_t i, const QuadKey &q) {
    Collector v;
    utymap::CancellationToken token;
    auto it = models[i].find(q);
    PBT_CHECK(c, stores[i]->hasData(q) == (it != models[i].end()), name(i) << " reports presence of " << show(q) << " as " << stores[i]->hasData(q));
    pbt::noThrow("search", [&] { stores[i]->search(q, v, token); });
    std::vector<std::string> expected;
    if (it != models[i].end()) for (const auto &s : it->second) expected.push_back(s.text);
    PBT_CHECK(c, v.texts == expected, name(i) << " tile " << show(q) << ": " << difference(expected, v.texts));
    PBT_CHECK(c, stores[i]->hasData(q) == (it != models[i].end()), name(i) << " reports presence of " << show(q) << " as " << stores[i]->hasData(q) << " after a search");
  }

  /// Search which is cancelled while the n-th element is delivered.
  void cancelledSearch(std::size_t i, const QuadKey &q, std::size_t n) {
    auto it = models[i].find(q);
    Collector v;
    utymap::CancellationToken token;
    if (n == 0) token.cancel();
    v.after = [&] { if (v.texts.size() == n) token.cancel(); };
    pbt::noThrow("search", [&] { stores[i]->search(q, v, token); });
    std::vector<std::string> expected;
    if (it != models[i].end()) for (const auto &s : it->second) if (expected.size() < n) expected.push_back(s.text);
    PBT_CHECK(c, v.texts == expected, name(i) << " tile " << show(q) << " cancelled at " << n << ": " << difference(expected, v.texts));
  }

  std::string join(const std::vector<std::string> &terms, int style) const {
    static const char *seps[] = {" ", ",", "_", " ; ", "/", ":"};
    std::string s;
    for (const auto &t : terms) s += (s.empty() ? "" : seps[style % 6]) + t;
    if (style % 3 == 2) s = " " + s + ".";
    return s;
  }

  /// Returns number of matches.
  std::size_t checkText(std::size_t i, const TextQuery &q, int style) {
    std::vector<std::string> expected;
    for (const auto &p : models[i]) {
      if (p.first.levelOfDetail < q.from || p.first.levelOfDetail > q.to) continue;
      if (!overlap(utymap::utils::GeoUtils::quadKeyToBoundingBox(p.first), q.box)) continue;
      for (const auto &s : p.second)
        if (q.matches(s.words) && overlap(s.box, q.box)) expected.push_back(s.text);
    }
    Collector v;
    utymap::CancellationToken token;
    pbt::noThrow("text search", [&] {
      stores[i]->search(join(q.notTerms, style), join(q.andTerms, style + 1), join(q.orTerms, style + 2), q.box, LodRange(q.from, q.to), v, token);
    });
    std::sort(expected.begin(), expected.end());
    std::sort(v.texts.begin(), v.texts.end());
    PBT_CHECK(c, v.texts == expected, name(i) << " not[" << join(q.notTerms, 0) << "] and[" << join(q.andTerms, 0) << "] or[" << join(q.orTerms, 0)
        << "] zoom " << q.from << ".." << q.to << " box " << q.box.minPoint.latitude << "," << q.box.minPoint.longitude << ".." << q.box.maxPoint.latitude
        << "," << q.box.maxPoint.longitude << ": " << difference(expected, v.texts));
    return expected.size();
  }

  void checkAll() {
    for (std::size_t i = 0; i < stores.size(); ++i) {
      auto tiles = models[i];
      for (const auto &p : tiles) checkTile(i, p.first);
    }
  }
};

inline std::shared_ptr<Element> genStored(pbt::Ctx &c, const StringTable &st, const QuadKey &tile, std::uint64_t id, TextTags &tags,
                                          const std::vector<std::string> &vocabulary, int depth = 0) {
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile);
  auto coord = [&] {
    return GeoCoordinate(box.minPoint.latitude + box.height()*c.real(-0.3, 1.3), box.minPoint.longitude + box.width()*c.real(-0.3, 1.3));
  };
  TextTags own;
  c.repeat(0, 4, [&](std::size_t) {
    auto k = c.pick(vocabulary);
    auto v = c.pick(vocabulary);
    if (c.chance(1, 3)) v += c.pick<std::string>({" ", "_", ":", ";", "."}) + c.pick(vocabulary);
    own.emplace_back(k, v);
  });
  if (depth == 0) tags = own;
  std::shared_ptr<Element> e;
  switch (c.draw(depth < 2 ? 3 : 2)) {
    case 0: { auto n = std::make_shared<Node>(); n->coordinate = coord(); e = n; break; }
    case 1: { auto n = std::make_shared<Way>(); c.repeat(2, 6, [&](std::size_t) { n->coordinates.push_back(coord()); }); e = n; break; }
    case 2: { auto n = std::make_shared<Area>(); c.repeat(3, 6, [&](std::size_t) { n->coordinates.push_back(coord()); }); e = n; break; }
    default: {
      auto n = std::make_shared<Relation>();
      c.repeat(1, 3, [&](std::size_t k) { TextTags ignored; n->elements.push_back(genStored(c, st, tile, id*10 + k, ignored, vocabulary, depth + 1)); });
      e = n;
    }
  }
  e->id = id;
  addTags(*e, st, own);
  return e;
}

}

#endif
