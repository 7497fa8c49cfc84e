// C21: cache of what tiles deliver.
#include "bench.hpp"
#include "stores.hpp"

#include "builders/CacheBuilder.hpp"
#include "entities/Node.hpp"

#include <csignal>
#include <filesystem>
#include <sys/resource.h>

using namespace bench;
using namespace utymap::builders;
using pbt::Ctx;

namespace {

typedef std::shared_ptr<Mesh> MeshPtr;

/// What a builder hands over: a mesh or an element.
struct Item {
  MeshPtr mesh;
  std::shared_ptr<Element> element;
};
typedef std::vector<Item> Items;

/// A build: items for each visited element, and at the end.
struct Script {
  std::vector<Items> steps;
  Items last;
  bool created = false, prepared = false;
  Items all() const {
    Items r;
    for (const auto &s : steps) r.insert(r.end(), s.begin(), s.end());
    r.insert(r.end(), last.begin(), last.end());
    return r;
  }
};
Script *current = nullptr;   // of the builder which is going to be created

class ScriptBuilder final : public ElementBuilder {
 public:
  explicit ScriptBuilder(const BuilderContext &context) : ElementBuilder(context), script_(*current) { script_.created = true; }
  void visitNode(const Node &n) override { hand(n); }
  void visitWay(const Way &n) override { hand(n); }
  void visitArea(const Area &n) override { hand(n); }
  void visitRelation(const Relation &n) override { hand(n); }
  void complete() override { hand(script_.last); }
 private:
  void hand(const Element &e) { hand(script_.steps[e.id]); }
  void hand(const Items &items) {
    for (const auto &i : items) {
      if (i.mesh) context_.meshCallback(*i.mesh);
      else context_.elementCallback(*i.element);
    }
  }
  Script &script_;
};

std::string number(double v, bool rounded) {
  char s[64];
  if (rounded) std::snprintf(s, sizeof s, "%.9g", static_cast<double>(static_cast<float>(v)));
  else std::snprintf(s, sizeof s, "%.17g", v);
  return s;
}

/// Text of a mesh; the cache keeps real numbers in single precision.
std::string text(const Mesh &m, bool rounded) {
  std::ostringstream s;
  s << "mesh " << m.name << " v";
  for (auto v : m.vertices) s << " " << number(v, rounded);
  s << " t";
  for (auto v : m.triangles) s << " " << v;
  s << " c";
  for (auto v : m.colors) s << " " << v;
  s << " u";
  for (auto v : m.uvs) s << " " << number(v, rounded);
  s << " m";
  for (auto v : m.uvMap) s << " " << v;
  return s.str();
}

std::vector<std::string> texts(const Items &items, bool rounded) {
  std::vector<std::string> r;
  for (const auto &i : items) r.push_back(i.mesh ? text(*i.mesh, rounded) : "element " + describe(*i.element));
  return r;
}

MeshPtr genMesh(Ctx &c) {
  auto m = std::make_shared<Mesh>(c.chance(1, 8) ? "" : word(c, "ab :0123456789\n\t", 0, 12));
  auto value = [&] { return c.chance(1, 6) ? c.pick({0.0, -0.0, 1e-30, 180.0, -179.9999999, 8848.86}) : c.real(-180, 180); };
  auto vertices = c.chance(1, 20) ? c.integer(100, 3000) : c.integer(0, 6);
  for (long long i = 0; i < vertices; ++i) {
    for (int k = 0; k < 3; ++k) m->vertices.push_back(vertices > 6 ? 0.1*static_cast<double>(i) + k : value());
    m->colors.push_back(vertices > 6 ? static_cast<int>(i) : static_cast<int>(c.integer(-2147483648LL, 2147483647LL)));
    for (int k = 0; k < 2; ++k) m->uvs.push_back(vertices > 6 ? 0.5 : value());
  }
  c.repeat(0, 4, [&](std::size_t) { for (int k = 0; k < 3; ++k) m->triangles.push_back(static_cast<int>(c.integer(0, 70000))); });
  c.repeat(0, 2, [&](std::size_t) { for (int k = 0; k < 8; ++k) m->uvMap.push_back(static_cast<int>(c.integer(0, 70000))); });
  return m;
}

std::shared_ptr<Script> genScript(Ctx &c, const StringTable &table, const QuadKey &q) {
  auto s = std::make_shared<Script>();
  auto items = [&] {
    Items r;
    c.repeat(0, 3, [&](std::size_t) {
      Item i;
      if (c.boolean()) i.mesh = genMesh(c);
      else {
        TextTags tags;
        i.element = genStored(c, table, q, static_cast<std::uint64_t>(c.chance(1, 5) ? c.integer(0, 4000000000000000000LL) : c.integer(0, 40)), tags, {"cafe", "name", "x1"});
      }
      r.push_back(i);
    });
    return r;
  };
  c.repeat(0, 4, [&](std::size_t) { s->steps.push_back(items()); });
  s->last = items();
  return s;
}

/// A load of a tile which is not finished.
struct Load {
  std::string key;
  std::shared_ptr<Script> script;
  std::unique_ptr<utymap::CancellationToken> token;
  std::unique_ptr<BuilderContext> context;
  std::unique_ptr<CacheBuilder<ScriptBuilder>> builder;
  std::vector<std::string> delivered, rounded;
  Items scripted;              // what was delivered of the script until it was cancelled
  std::size_t step = 0;
  bool writes = false;         // what it delivers goes to the cache
  bool hit = false, damaged = false;
  std::shared_ptr<std::size_t> stop;
};

/// Limits the size of files for a while: writing fails as on a full disk.
struct FullDisk {
  explicit FullDisk(long long limit) {
    std::signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l = old;
    l.rlim_cur = static_cast<rlim_t>(limit);
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); }
  rlimit old;
};

void history(Ctx &c) {
  std::string dir = c.tmpDir();
  StringTable table(dir);
  MeshPool pool;
  Slope slope;

  // styles with different rules
  std::vector<std::unique_ptr<utymap::mapcss::StyleProvider>> styles;
  auto styleCount = c.integer(1, 3);
  for (int i = 0; i < styleCount; ++i) styles.push_back(provider("node|z1-16[any] { width: " + std::to_string(i) + "; }", table));
  std::vector<QuadKey> tiles;
  c.repeat(1, 3, [&](std::size_t) {
    int lod = static_cast<int>(c.integer(1, 3));
    tiles.push_back(QuadKey(lod, static_cast<int>(c.integer(0, 1)), static_cast<int>(c.integer(0, 1))));
  });
  bool folders = !c.chance(1, 12);
  if (folders)
    for (const auto &s : styles) for (int lod = 1; lod <= 3; ++lod) std::filesystem::create_directories(dir + "/cache/" + s->getTag() + "/" + std::to_string(lod));

  std::vector<std::unique_ptr<MeshCache>> caches;   // of two kinds of builders
  const std::vector<std::string> kinds = {"terrain", "forest"};
  auto open = [&] {
    caches.clear();
    for (const auto &k : kinds) caches.push_back(std::unique_ptr<MeshCache>(new MeshCache(dir, k)));
  };
  open();
  std::vector<bool> enabled(2, true);

  std::map<std::string, std::vector<std::string>> recorded;            // complete records
  std::map<std::string, std::vector<std::vector<std::string>>> maybe;  // what might be recorded: writing failed
  std::vector<std::unique_ptr<Load>> loads;
  std::map<std::string, std::size_t> writers;
  int hits = 0, afterCancel = 0, overlaps = 0;
  std::set<std::string> tainted;   // keys with a cancelled or failed build before

  auto start = [&](std::size_t kind, std::size_t style, const QuadKey &q) {
    std::unique_ptr<Load> l(new Load());
    l->key = kinds[kind] + "/" + std::to_string(style) + "/" + show(q);
    c.note() << "start " << l->key;
    l->script = genScript(c, table, q);
    l->token.reset(new utymap::CancellationToken());
    Load *raw = l.get();
    l->stop = std::make_shared<std::size_t>(c.chance(1, 5) ? c.draw(6) : 1000);
    c.note() << " with " << l->script->steps.size() << " steps, " << l->script->all().size() << " items" << (*l->stop < 1000 ? ", cancelled at item " + std::to_string(*l->stop) : "");
    auto deliver = [raw](const std::string &exact, const std::string &rounded) {
      raw->delivered.push_back(exact);
      raw->rounded.push_back(rounded);
      if (raw->delivered.size() == *raw->stop) raw->token->cancel();
    };
    l->context.reset(new BuilderContext(q, *styles[style], table, pool, slope,
        [deliver](const Mesh &m) { deliver(text(m, false), text(m, true)); },
        [deliver](const Element &e) { deliver("element " + describe(e), "element " + describe(e)); }, *l->token));
    if (*l->stop == 0) l->token->cancel();

    bool inProgress = writers.count(l->key) > 0;
    auto record = recorded.find(l->key);
    pbt::noThrow("start of a load", [&] {
      l->builder.reset(new CacheBuilder<ScriptBuilder>(*caches[kind], *l->context));
      current = l->script.get();
      l->builder->prepare();
      current = nullptr;
    });
    l->hit = !l->script->created;
    c.note() << (l->hit ? ", cached\n" : "\n");
    if (l->hit) {
      PBT_CHECK(c, enabled[kind], l->key << " is taken from a cache which is disabled");
      PBT_CHECK(c, record != recorded.end() || maybe.count(l->key), l->key << " is taken from the cache, but it was not built completely");
      // whole or up to cancellation
      auto same = [&](const std::vector<std::string> &r) {
        if (l->token->isCancelled()) return l->rounded.size() == std::min(r.size(), *l->stop) && std::equal(l->rounded.begin(), l->rounded.end(), r.begin());
        return l->rounded == r;
      };
      bool ok = record != recorded.end() && same(record->second);
      for (const auto &m : maybe[l->key]) ok = ok || same(m);
      PBT_CHECK(c, ok, l->key << ": from the cache " << difference(record != recorded.end() ? record->second : std::vector<std::string>(), l->rounded));
      ++hits;
      if (tainted.count(l->key)) ++afterCancel;
    } else {
      PBT_CHECK(c, l->delivered.empty(), "items delivered before the build: " << l->delivered[0]);
      PBT_CHECK(c, !(record != recorded.end() && enabled[kind] && !inProgress), l->key << " was built completely but is not taken from the cache");
      if (inProgress) ++overlaps;
      l->writes = enabled[kind] && folders && !inProgress && record == recorded.end();
      if (l->writes) writers[l->key] = 1;
      if (maybe.count(l->key) && l->writes) { maybe.erase(l->key); }
    }
    loads.push_back(std::move(l));
  };

  auto expectSame = [&](Load &l) {
    if (l.hit) return;
    // everything handed over until the load is cancelled is delivered at once
    Items items;
    for (std::size_t i = 0; i < l.step && i < l.script->steps.size(); ++i) items.insert(items.end(), l.script->steps[i].begin(), l.script->steps[i].end());
    if (l.step > l.script->steps.size()) items.insert(items.end(), l.script->last.begin(), l.script->last.end());
    auto want = texts(items, false);
    if (l.token->isCancelled()) {
      PBT_CHECK(c, l.delivered.size() >= std::min(want.size(), *l.stop) && l.delivered.size() <= want.size() && std::equal(l.delivered.begin(), l.delivered.end(), want.begin()),
                l.key << ", cancelled: " << difference(want, l.delivered));
    } else
      PBT_CHECK(c, l.delivered == want, l.key << ": " << difference(want, l.delivered));
  };

  auto advance = [&](Load &l) {
    if (l.step < l.script->steps.size()) {
      auto visit = [&](Element &e) { e.id = l.step; e.accept(*l.builder); };
      pbt::noThrow("build", [&] {
        switch (l.step % 4) {
          case 0: { Node n; visit(n); break; }
          case 1: { Way n; visit(n); break; }
          case 2: { Area n; visit(n); break; }
          default: { Relation n; visit(n); }
        }
      });
    } else
      pbt::noThrow("complete", [&] { l.builder->complete(); });
    ++l.step;
    expectSame(l);
  };

  auto finish = [&](std::size_t i, bool full) {
    auto &l = *loads[i];
    c.note() << "finish " << l.key << "\n";
    while (l.step <= l.script->steps.size()) {
      if (full) {
        FullDisk limit(c.integer(0, 400));
        advance(l);
        l.damaged = true;
      } else
        advance(l);
    }
    if (l.hit) PBT_CHECK(c, !l.script->created, "builder made for cached tile");
    if (l.writes) {
      writers.erase(l.key);
      if (l.token->isCancelled()) tainted.insert(l.key);
      else if (l.damaged) { maybe[l.key].push_back(texts(l.script->all(), true)); tainted.insert(l.key); }
      else recorded[l.key] = texts(l.script->all(), true);
    }
    loads.erase(loads.begin() + static_cast<std::ptrdiff_t>(i));
  };

  auto drop = [&](std::size_t i) {
    auto &l = *loads[i];
    c.note() << "drop " << l.key << "\n";
    if (l.writes) { writers.erase(l.key); tainted.insert(l.key); }
    loads.erase(loads.begin() + static_cast<std::ptrdiff_t>(i));
  };

  auto any = [&] { return static_cast<std::size_t>(c.draw(loads.size() - 1)); };
  c.repeat(2, 24, [&](std::size_t) {
    auto what = c.draw(15);
    if (loads.empty() && what > 2 && what < 13) what = 0;
    if (loads.size() > 3 && what < 3) what = 6;
    switch (what) {
      case 0: case 1: case 2:
        start(static_cast<std::size_t>(c.draw(c.chance(1, 3) ? 1 : 0)), static_cast<std::size_t>(c.draw(styles.size() - 1)), c.pick(tiles));
        break;
      case 3: case 4: case 5: {
        auto &l = *loads[any()];
        if (l.step < l.script->steps.size()) advance(l);
        break;
      }
      case 6: case 7: case 8: case 9: finish(any(), false); break;
      case 10: finish(any(), true); break;
      case 11: drop(any()); break;   // the build failed with an exception
      case 12: { auto &l = *loads[any()]; c.note() << "cancel " << l.key << "\n"; l.token->cancel(); *l.stop = std::min(*l.stop, l.delivered.size()); break; }
      case 13: {
        auto k = static_cast<std::size_t>(c.draw(1));
        enabled[k] = !enabled[k];
        c.note() << (enabled[k] ? "enable " : "disable ") << kinds[k] << "\n";
        if (enabled[k]) caches[k]->enable(); else caches[k]->disable();
        break;
      }
      case 14:   // the process ends and starts again: on files as they are, nothing of what is in progress is finished
        if (c.boolean()) {
          c.note() << "crash\n";
          auto copy = c.tmpDir();
          if (folders) std::filesystem::copy(dir + "/cache", copy + "/cache", std::filesystem::copy_options::recursive);
          while (!loads.empty()) drop(loads.size() - 1);
          dir = copy;
        } else {
          while (!loads.empty()) finish(loads.size() - 1, false);
          c.note() << "restart\n";
        }
        open();
        enabled.assign(2, true);
        break;
      default: {   // load again at once
        if (loads.empty()) break;
        auto i = any();
        auto key = loads[i]->key;
        auto kind = key[0] == 't' ? 0u : 1u;
        auto style = static_cast<std::size_t>(key[key.find('/') + 1] - '0');
        auto q = loads[i]->context->quadKey;
        if (c.boolean()) finish(i, false);
        start(kind, style, q);
      }
    }
  });
  while (!loads.empty()) finish(loads.size() - 1, false);
  // in the end each tile is what it was built to
  for (std::size_t k = 0; k < 2; ++k)
    for (std::size_t s = 0; s < styles.size(); ++s)
      for (const auto &q : tiles) { start(k, s, q); finish(0, false); }
  if (hits > 0) c.nontrivial();
  if (hits) c.label("served from cache");
  if (afterCancel) c.label("served after a failed build");
  if (overlaps) c.label("overlapping builds");
}

// ---- stylesheets have a cache of their own

struct Sheet {
  std::vector<std::array<std::string, 6>> rules;   // kind, zooms, key, op, value, declarations
  std::string atlas = "1,64,64\ngrass,0,0,10,10\n", lsystem;
  bool hasAtlas = false, hasLsystem = false;
  std::string write(const std::string &dir) const {
    std::string s;
    if (hasAtlas) { writeFile(dir + "atlas.txt", atlas); s += "@texture url(\"atlas.txt\");\n"; }
    if (hasLsystem) { writeFile(dir + "tree.lsys", lsystem); s += "@lsystem url(\"tree.lsys\");\n"; }
    for (const auto &r : rules) s += r[0] + "|z" + r[1] + "[" + r[2] + r[3] + r[4] + "] { " + r[5] + " }\n";
    return s;
  }
};

void tags(Ctx &c) {
  auto dir = c.tmpDir(), other = c.tmpDir();
  StringTable table(dir);
  Sheet s;
  auto declarations = [&] {
    std::string d;
    c.repeat(1, 3, [&](std::size_t) { d += c.pick(std::vector<std::string>{"height", "width", "color"}) + ": " + c.pick(std::vector<std::string>{"1", "2m", "3%", "red", "gradient(#000000 0%, #ffffff)", "eval(\"tag('a')\")"}) + "; "; });
    return d;
  };
  const std::vector<std::string> zooms = {"1", "1-2", "2", "3-16"}, keys = {"any", "building", "name"}, ops = {"", "=", "!=", "<", ">"}, values = {"1", "2", "x"}, kinds = {"node", "way", "area", "relation", "canvas"};
  c.repeat(1, 4, [&](std::size_t) {
    auto op = c.pick(ops);
    s.rules.push_back({c.pick(kinds), c.pick(zooms), c.pick(keys), op, op.empty() ? "" : c.pick(values), declarations()});
    if (s.rules.back()[0] == "canvas") { s.rules.back()[2] = s.rules.back()[3] = s.rules.back()[4] = ""; }
  });
  s.hasAtlas = c.chance(1, 3);
  s.hasLsystem = c.chance(1, 3);
  s.lsystem = "generations: 2\nangle: 30\nscale: 0.7\naxiom: F\nF -> F\n";
  auto fix = [](const std::string &sheet) {   // canvas has no condition
    std::string r = sheet;
    for (std::size_t at; (at = r.find("[]")) != std::string::npos;) r.erase(at, 2);
    return r;
  };
  auto first = fix(s.write(dir));
  c.note() << first;
  auto tag = [&](const std::string &sheet, const std::string &d) { return provider(sheet, table, d)->getTag(); };
  auto a = tag(first, dir);
  PBT_CHECK(c, !a.empty(), "no tag");
  PBT_CHECK(c, a == tag(fix(s.write(other)), other), "the same stylesheet has two tags");

  Sheet t = s;
  auto &r = t.rules[c.draw(t.rules.size() - 1)];
  auto change = [&](std::string &v, const std::vector<std::string> &of) {
    auto n = c.pick(of);
    if (n == v) c.discard();
    v = n;
  };
  switch (c.draw(8)) {
    case 0: change(r[0], {"node", "way", "area", "relation"}); if (s.rules[static_cast<std::size_t>(&r - t.rules.data())][0] == "canvas") c.discard(); break;
    case 1: change(r[1], zooms); break;
    case 2: if (r[2].empty()) c.discard(); change(r[2], keys); break;
    case 3: if (r[3].empty()) c.discard(); change(r[3], {"=", "!=", "<", ">"}); break;
    case 4: if (r[3].empty()) c.discard(); change(r[4], values); break;
    case 5: r[5] += "depth: 1;"; break;
    case 6: { auto n = declarations(); if (n == r[5]) c.discard(); r[5] = n; break; }
    case 7: if (!t.hasAtlas) c.discard(); t.atlas = c.pick(std::vector<std::string>{"2,64,64\ngrass,0,0,10,10\n", "1,64,64\ngrass,0,0,10,20\n", "1,64,64\ngrass,0,0,10,10\ngrass,20,0,10,10\n", "1,64,64\nrock,0,0,10,10\n"}); break;
    default:
      if (!t.hasLsystem) c.discard();
      t.lsystem = c.pick(std::vector<std::string>{"generations: 3\nangle: 30\nscale: 0.7\naxiom: F\nF -> F\n", "generations: 2\nangle: 31\nscale: 0.7\naxiom: F\nF -> F\n",
                                                 "generations: 2\nangle: 30\nscale: 0.7\naxiom: F\nF -> FF\n"});
  }
  auto second = fix(t.write(other));
  c.note() << "changed to\n" << second;
  c.nontrivial();
  PBT_CHECK(c, a != tag(second, other), "two stylesheets which differ have the same cache");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C21", {
    {"history", "up to 24 operations on the caches of two kinds of builders: loads of up to three tiles with up to three stylesheets, interleaved, finished, cancelled at any item, failing, with writing failing, "
                "caches switched off and on, restart and crash; builds hand over any meshes and elements; non-trivial: something was served from the cache", 6000, 100000, history},
    {"stylesheets", "pairs of stylesheets which differ in one rule, atlas or L-system; non-trivial: all", 8000, 100000, tags},
  }, {"The cache keeps real numbers of meshes in single precision, as its code says: they are compared after rounding to it.",
      "Content of a tile which changes after it was cached (an import) is out of scope: the cache does not watch stores."});
}
