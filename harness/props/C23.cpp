// C23: builders get elements of the tile.
#include "bench.hpp"
#include "stores.hpp"

#include "builders/ElementBuilder.hpp"
#include "builders/QuadKeyBuilder.hpp"
#include "index/GeoStore.hpp"

using namespace bench;
using namespace utymap::builders;
using namespace utymap::index;
using pbt::Ctx;

namespace {

struct Rule {
  std::string kind, key, value, builder;   // no value: any; no builder: another declaration
  int from, to;
};

/// What happened to builders of one name while one tile was built.
struct Log {
  int created = 0, prepared = 0, completed = 0, destroyed = 0;
  bool early = false, late = false;        // visited before it was prepared, after it was completed
  std::vector<std::string> visits;
};

struct Session {
  std::map<std::string, Log> logs;
  std::vector<std::string> external, meshes;
  const BuilderContext *context = nullptr;
  const QuadKey *tile = nullptr;
  const utymap::mapcss::StyleProvider *styles = nullptr;
  std::string wrongContext;
};
Session *session = nullptr;

class SpyBuilder final : public ElementBuilder {
 public:
  SpyBuilder(const std::string &name, const BuilderContext &context) : ElementBuilder(context), name_(name), log_(session->logs[name]) {
    ++log_.created;
    if (!(context.quadKey == *session->tile)) session->wrongContext = "tile " + show(context.quadKey);
    if (&context.styleProvider != session->styles) session->wrongContext = "style";
    auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(*session->tile);
    if (!(context.boundingBox.minPoint == box.minPoint) || !(context.boundingBox.maxPoint == box.maxPoint)) session->wrongContext = "bounding box";
  }
  ~SpyBuilder() override { ++log_.destroyed; }
  void prepare() override { ++log_.prepared; }
  void visitNode(const Node &n) override { visit(n); }
  void visitWay(const Way &n) override { visit(n); }
  void visitArea(const Area &n) override { visit(n); }
  void visitRelation(const Relation &n) override { visit(n); }
  void complete() override {
    ++log_.completed;
    Mesh m("complete " + name_);
    context_.meshCallback(m);
  }
 private:
  void visit(const Element &e) {
    if (log_.prepared == 0) log_.early = true;
    if (log_.completed > 0) log_.late = true;
    log_.visits.push_back(describe(e));
    Mesh m(name_ + " " + std::to_string(e.id));
    context_.meshCallback(m);
  }
  std::string name_;
  Log &log_;
};

struct Saved {
  std::shared_ptr<Element> element;
  TextTags tags;
  bool pieces = false;
  TextTags pieceTags;
};

/// Gives element tags of its own: each key once, as OSM has it.
void tagAgain(Ctx &c, const StringTable &table, const std::vector<std::string> &vocabulary, Element &e, TextTags &tags) {
  tags.clear();
  for (const auto &k : vocabulary) if (c.boolean()) tags.emplace_back(k, c.pick(vocabulary));
  e.tags.clear();
  addTags(e, table, tags);
}

void tile(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable table(dir);
  int lod = static_cast<int>(c.integer(1, 16));
  QuadKey q(lod, static_cast<int>(c.integer(0, (1 << lod) - 1)), static_cast<int>(c.integer(0, (1 << lod) - 1)));
  const std::vector<std::string> kinds = {"node", "way", "area", "relation"}, vocabulary = {"a", "b", "d"}, names = {"one", "two", "three"}, strangers = {"other", "unknown"};
  std::vector<Rule> rules;
  std::string css;
  c.repeat(1, 8, [&](std::size_t) {
    Rule r;
    r.kind = c.pick(kinds);
    r.key = c.pick(vocabulary);
    if (c.boolean()) r.value = c.pick(vocabulary);
    if (!c.chance(1, 6)) r.builder = c.chance(1, 4) ? c.pick(strangers) : c.pick(names);
    r.from = c.chance(1, 4) ? static_cast<int>(c.integer(1, 16)) : 1;
    r.to = static_cast<int>(c.chance(1, 4) ? c.integer(r.from, 16) : 16);
    rules.push_back(r);
    css += r.kind + "|z" + std::to_string(r.from) + "-" + std::to_string(r.to) + "[" + r.key + (r.value.empty() ? "" : "=" + r.value) + "] { " + (r.builder.empty() ? "width: 1" : "builder: " + r.builder) + "; }\n";
  });
  c.note() << css;
  auto styles = provider(css, table), otherStyles = provider("node|z1-16[a] { builder: three; }\n", table);
  GeoStore geoStore(table);
  std::vector<ElementStore *> stores;
  auto count = c.integer(1, 3);
  for (int i = 0; i < count; ++i) {
    std::unique_ptr<ElementStore> s;
    if (c.chance(1, 3)) s.reset(new PersistentElementStore(storeDir(c), table));
    else s.reset(new InMemoryElementStore(table));
    stores.push_back(s.get());
    geoStore.registerStore("store" + std::to_string(i), std::move(s));
  }

  // elements in the order in which they are in the stores
  std::vector<std::vector<Saved>> saved(stores.size());
  std::vector<Saved> pool;
  c.repeat(0, 12, [&](std::size_t i) {
    Saved s;
    if (!pool.empty() && c.chance(1, 4)) s = c.pick(pool);   // once more: in the same store or another one
    else {
      auto id = c.chance(1, 8) ? 0 : 100 + i;
      s.pieces = c.chance(1, 4);
      if (s.pieces) {
        // what clipping leaves of an element which crosses the border more than once
        auto r = std::make_shared<Relation>();
        r->id = id;
        std::shared_ptr<Element> whole;
        do {
          s.pieceTags.clear();
          whole = genStored(c, table, q, 0, s.pieceTags, vocabulary);
        } while (std::dynamic_pointer_cast<Relation>(whole));
        tagAgain(c, table, vocabulary, *whole, s.pieceTags);
        auto n = c.integer(1, 3);
        for (int k = 0; k < n; ++k) {
          std::shared_ptr<Element> piece = whole;
          if (k > 0) {
            piece = std::dynamic_pointer_cast<Area>(whole) ? std::shared_ptr<Element>(new Area(*std::dynamic_pointer_cast<Area>(whole))) : std::dynamic_pointer_cast<Way>(whole)
                ? std::shared_ptr<Element>(new Way(*std::dynamic_pointer_cast<Way>(whole))) : std::shared_ptr<Element>(new Node(*std::dynamic_pointer_cast<Node>(whole)));
          }
          r->elements.push_back(piece);
        }
        s.element = r;
      } else {
        s.element = genStored(c, table, q, id, s.tags, vocabulary);
        tagAgain(c, table, vocabulary, *s.element, s.tags);
        if (std::dynamic_pointer_cast<Relation>(s.element) && s.tags.empty()) { s.tags.emplace_back("a", "b"); addTags(*s.element, table, {{"a", "b"}}); }
      }
      // another version of an element: same id and kind
      if (!pool.empty() && c.chance(1, 6)) {
        const auto &older = c.pick(pool);
        auto kind = [](const Saved &x) { return kindOf(x.pieces ? *std::static_pointer_cast<Relation>(x.element)->elements[0] : *x.element); };
        if (kind(older) == kind(s)) s.element->id = older.element->id;
      }
      pool.push_back(s);
    }
    auto at = c.draw(stores.size() - 1);
    pbt::noThrow("save", [&] { stores[at]->save(*s.element, q); });
    saved[at].push_back(s);
    c.note() << "store" << at << ": " << describe(*s.element) << "\n";
  });
  // another tile has elements of its own
  if (c.boolean()) {
    TextTags ignored;
    QuadKey far(lod, q.tileX ^ 1, q.tileY);
    auto e = genStored(c, table, far, 99, ignored, vocabulary);
    if (!e->tags.empty()) stores[0]->save(*e, far);
  }

  QuadKeyBuilder builder(geoStore, table);
  for (const auto &n : names) builder.registerElementBuilder(n, [n](const BuilderContext &context) { return std::unique_ptr<ElementBuilder>(new SpyBuilder(n, context)); });
  Slope slope;
  utymap::CancellationToken token;

  auto buildersOf = [&](const Element &e, const TextTags &tags, bool &styled) {
    std::set<std::string> r;
    styled = false;
    for (const auto &rule : rules) {
      bool has = false;
      for (const auto &t : tags) has = has || (t.first == rule.key && (rule.value.empty() || t.second == rule.value));
      if (rule.kind != kindOf(e) || lod < rule.from || lod > rule.to || !has) continue;
      styled = true;
      if (!rule.builder.empty()) r.insert(rule.builder);
    }
    return r;
  };

  // twice: nothing is kept from one build to the other
  for (int round = 0; round < 2; ++round) {
    Session now;
    session = &now;
    now.tile = &q;
    now.styles = styles.get();
    pbt::noThrow("build", [&] {
      builder.build(q, *styles, slope, [&](const Mesh &m) { now.meshes.push_back(m.name); }, [&](const Element &e) { now.external.push_back(describe(e)); }, token);
    });
    PBT_CHECK(c, now.wrongContext.empty(), "builder is made for another " << now.wrongContext);

    std::map<std::string, std::vector<std::string>> want;
    std::multiset<std::string> external, got(now.external.begin(), now.external.end()), meshes;
    std::set<std::uint64_t> ids;
    int skipped = 0, pieces = 0;
    for (const auto &list : saved) {
      for (const auto &s : list) {
        auto hand = [&](const Element &e, const std::set<std::string> &to) {
          for (const auto &n : to) {
            if (std::find(names.begin(), names.end(), n) != names.end()) { want[n].push_back(describe(e)); meshes.insert(n + " " + std::to_string(e.id)); }
            else external.insert(describe(e));
          }
        };
        bool styled;
        if (s.element->id != 0 && ids.count(s.element->id)) { ++skipped; continue; }
        if (s.pieces) {
          ids.insert(s.element->id);
          ++pieces;
          for (const auto &p : std::static_pointer_cast<Relation>(s.element)->elements) hand(*p, buildersOf(*p, s.pieceTags, styled));
        } else {
          auto to = buildersOf(*s.element, s.tags, styled);
          if (styled) ids.insert(s.element->id);
          hand(*s.element, to);
        }
      }
    }
    for (const auto &n : names) {
      const auto &log = now.logs[n];
      const auto &w = want[n];
      PBT_CHECK(c, log.visits == w, "builder " << n << ": " << difference(w, log.visits));
      bool used = !w.empty();
      PBT_CHECK(c, log.created == used && log.prepared == used && log.completed == used && log.destroyed == used,
                "builder " << n << " is created " << log.created << ", prepared " << log.prepared << ", completed " << log.completed << ", destroyed " << log.destroyed << " times");
      PBT_CHECK(c, !log.early && !log.late, "builder " << n << " gets an element " << (log.early ? "before it is prepared" : "after it is completed"));
      if (used) meshes.insert("complete " + n);
    }
    PBT_CHECK(c, got == external, "elements of unknown builders: " << difference(std::vector<std::string>(external.begin(), external.end()), std::vector<std::string>(got.begin(), got.end())));
    PBT_CHECK(c, std::multiset<std::string>(now.meshes.begin(), now.meshes.end()) == meshes, now.meshes.size() << " meshes are passed, not " << meshes.size());
    if (want.size() > 0 && skipped > 0) c.label("seen more than once");
    if (pieces) c.label("pieces");
    if (!external.empty()) c.label("external");
    std::size_t handed = external.size();
    for (const auto &w : want) handed += w.second.size();
    if (handed > 1) c.nontrivial();
    session = nullptr;
  }
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C23", {
    {"tile", "tiles with up to 12 elements in up to three stores, some more than once or as clipped pieces, with up to eight rules which name known and unknown builders; non-trivial: more than one element handed to builders", 30000, 500000, tile},
  }, {"What stores deliver for the tile is decided by C04 and C05; which rules match is decided in general by C08."});
}
