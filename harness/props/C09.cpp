// C09: cascade of rules.
#include "style.hpp"

#include <thread>

using namespace model;
using pbt::Ctx;
using namespace utymap::mapcss;

namespace {

struct Cond { std::string key, op, value; };
struct Sel { std::vector<std::string> kinds; int from, to; std::vector<Cond> conditions; std::uint64_t id; };
struct RuleModel { std::vector<Sel> selectors; std::vector<std::pair<std::string, std::string>> declarations; };

struct StyleModel {
  bool applies = false;
  std::map<std::string, std::string> values;
  std::set<std::string> builders;
  void put(const RuleModel &r) {
    applies = true;
    for (const auto &d : r.declarations) {
      values[d.first] = d.second;
      if (d.first == "builder") builders.insert(d.second);
    }
  }
  bool operator==(const StyleModel &o) const { return applies == o.applies && values == o.values && builders == o.builders; }
  std::string show() const {
    std::string s = applies ? "" : "(none)";
    for (const auto &v : values) s += v.first + ":" + v.second + ";";
    return s + " builders: " + join(builders);
  }
};

double number(const std::string &s) {
  if (s.empty()) return 0;
  char *end;
  double v = std::strtod(s.c_str(), &end);
  return *end ? 0 : v;
}

bool holds(const Cond &k, const std::map<std::string, std::string> &tags) {
  auto it = tags.find(k.key);
  if (it == tags.end()) return false;
  if (k.op == "=") return it->second == k.value;
  if (k.op == "!=") return it->second != k.value;
  if (k.op == "<") return number(it->second) < number(k.value);
  if (k.op == ">") return number(it->second) > number(k.value);
  return true;
}

struct World {
  Ctx &c;
  StringTable st;
  std::vector<RuleModel> rules;
  std::string text;
  std::unique_ptr<StyleProvider> styles;
  std::vector<std::string> keys, values;
  int lo, hi;

  explicit World(Ctx &c) : c(c), st(c.tmpDir()) {
    for (int i = 0, n = static_cast<int>(c.integer(1, 7)); i < n; ++i) keys.push_back("k" + std::to_string(i));
    values = {"a", "b", "1", "2", "10", "1.5", "-3", "02", "x1", "9", "1e1", "0"};
    // numbers of words in another order than the one of the keys
    for (auto n = c.draw(6); n > 0; --n) st.getId(c.boolean() ? c.pick(keys) : c.pick(values));
    lo = static_cast<int>(c.integer(0, 18));
    hi = lo + static_cast<int>(c.integer(0, 3));
    c.repeat(1, 10, [&](std::size_t) { rules.push_back(rule()); });
    for (const auto &r : rules) text += render(r);
    c.note() << text;
    styles = pbt::noThrow("stylesheet", [&] { return provider(text, st); });
  }

  Sel selector() {
    Sel s{{}, 0, 0, {}, 0};
    s.from = static_cast<int>(c.integer(std::max(0, lo - 2), hi + 2));
    s.to = c.boolean() ? s.from : static_cast<int>(c.integer(s.from, hi + 4));
    switch (c.draw(9)) {
      case 8: s.kinds.push_back("canvas"); break;
      case 9: s.kinds.push_back("element"); s.id = id(); break;
      default:
        c.repeat(1, 4, [&](std::size_t) { s.kinds.push_back(c.pick<std::string>({"node", "way", "area", "relation"})); });
        c.repeat(1, 4, [&](std::size_t) { s.conditions.push_back({c.pick(keys), c.pick<std::string>({"", "=", "!=", "<", ">"}), ""});
          if (!s.conditions.back().op.empty()) s.conditions.back().value = c.pick(values); });
    }
    return s;
  }

  RuleModel rule() {
    RuleModel r;
    c.repeat(1, 3, [&](std::size_t) { r.selectors.push_back(selector()); });
    c.repeat(1, 5, [&](std::size_t) {
      auto key = c.pick<std::string>({"d0", "d1", "d2", "d3", "d4", "builder", "k0"});
      auto value = c.chance(1, 12) ? c.pick<std::string>({"#ff0000", "gradient(#ff0000, #00ff00 50%, #0000ff)", "red"})
                                   : "v" + std::to_string(c.draw(9));
      r.declarations.emplace_back(key, value);
    });
    return r;
  }

  std::uint64_t id() {
    return c.chance(1, 6) ? c.pick<std::uint64_t>({~std::uint64_t(0), std::uint64_t(1) << 63, std::uint64_t(1) << 32, 4294967297ull}) : c.draw(4);
  }

  std::string render(const RuleModel &r) const {
    std::string t;
    for (const auto &s : r.selectors) {
      if (!t.empty()) t += ",";
      t += join(s.kinds, ",") + "|z" + std::to_string(s.from) + (s.from == s.to ? "" : "-" + std::to_string(s.to));
      for (const auto &k : s.conditions) t += "[" + k.key + k.op + k.value + "]";
      if (s.kinds[0] == "element") t += "[id=" + std::to_string(s.id) + "]";
    }
    t += " { ";
    for (const auto &d : r.declarations) t += d.first + ": " + d.second + "; ";
    return t + "}\n";
  }

  StyleModel expected(const std::string &kind, std::uint64_t id, const std::map<std::string, std::string> &tags, int lod) const {
    StyleModel own, common;
    for (const auto &r : rules) for (const auto &s : r.selectors) {
      if (lod < s.from || lod > s.to) continue;
      for (const auto &k : s.kinds) {
        if (k == "element" && kind != "canvas" && s.id == id) own.put(r);
        if (k != kind) continue;
        bool all = true;
        for (const auto &cond : s.conditions) all = all && holds(cond, tags);
        if (all) common.put(r);
      }
    }
    return own.applies ? own : common;
  }

  StyleModel observe(const Style &style, bool applies) const {
    StyleModel m;
    m.applies = applies;
    for (const auto *d : style.declarations()) m.values[*st.getString(d->key())] = d->value();
    for (const auto &b : style.getBuilders()) m.builders.insert(b);
    if (style.declarations().size() != m.values.size()) throw pbt::Failure("a key is declared twice");
    if (style.getBuilders().size() != m.builders.size()) throw pbt::Failure("a builder is listed twice");
    if (style.empty() != m.values.empty()) throw pbt::Failure("empty()");
    for (const char *k : {"d0", "d1", "d2", "d3", "d4", "builder", "k0", "none"}) {
      auto keyId = st.getId(k);
      auto it = m.values.find(k);
      bool has = it != m.values.end();
      if (style.has(keyId) != has) throw pbt::Failure(std::string("has ") + k);
      if (style.getString(k) != (has ? it->second : "") || style.getString(keyId) != (has ? it->second : "")) throw pbt::Failure(std::string("getString ") + k);
      if (has && !style.has(keyId, it->second)) throw pbt::Failure("has key with value");
      if (style.has(keyId, "another")) throw pbt::Failure("has key with another value");
      bool threw = false;
      try { if (style.get(keyId).value() != style.getString(k)) throw pbt::Failure("get"); }
      catch (const utymap::MapCssException &) { threw = true; }
      if (threw == has) throw pbt::Failure(std::string("get of ") + (has ? "existing" : "missing") + " declaration");
    }
    return m;
  }
};

struct Query { std::string kind; std::shared_ptr<Element> element; std::map<std::string, std::string> tags; int lod; };

Query genQuery(World &w) {
  Ctx &c = w.c;
  Query q;
  q.kind = c.pick<std::string>({"node", "way", "area", "relation", "canvas"});
  q.lod = static_cast<int>(c.integer(std::max(0, w.lo - 1), w.hi + 1));
  if (q.kind == "canvas") return q;
  if (q.kind == "node") q.element = std::make_shared<Node>();
  else if (q.kind == "way") q.element = std::make_shared<Way>();
  else if (q.kind == "area") q.element = std::make_shared<Area>();
  else {
    auto r = std::make_shared<Relation>();
    auto member = std::make_shared<Node>();   // has nothing to do with the style of the relation
    addTags(*member, w.st, {{w.keys[0], "a"}});
    r->elements.push_back(member);
    q.element = r;
  }
  q.element->id = w.id();
  TextTags tags;
  for (const auto &k : w.keys) if (!c.chance(1, 3)) tags.emplace_back(k, c.pick(w.values));
  for (auto n = c.draw(2); n > 0; --n) tags.emplace_back("other" + std::to_string(n), c.pick(w.values));
  q.tags = std::map<std::string, std::string>(tags.begin(), tags.end());
  addTags(*q.element, w.st, tags);
  return q;
}

std::string show(const Query &q) {
  std::string s = q.kind + (q.element ? " " + std::to_string(q.element->id) : "") + " at " + std::to_string(q.lod) + " {";
  for (const auto &t : q.tags) s += t.first + "=" + t.second + " ";
  return s + "}";
}

StyleModel observe(const World &w, const Query &q) {
  if (q.kind == "canvas") {
    auto style = w.styles->forCanvas(q.lod);
    return w.observe(style, !style.empty());
  }
  auto style = w.styles->forElement(*q.element, q.lod);
  bool has = w.styles->hasStyle(*q.element, q.lod);
  return w.observe(style, has);
}

void cascade(Ctx &c) {
  World w(c);
  int applied = 0, overridden = 0;
  c.repeat(1, 12, [&](std::size_t) {
    auto q = genQuery(w);
    c.note() << show(q) << "\n";
    auto e = w.expected(q.kind, q.element ? q.element->id : 0, q.tags, q.lod);
    auto got = pbt::noThrow("style", [&] { return observe(w, q); });
    PBT_CHECK(c, e == got, show(q) << " gets " << got.show() << ", expected " << e.show());
    if (e.applies) ++applied; else c.label("no rule applies");
    if (e.applies && q.kind == "canvas") c.label("canvas");
    std::size_t matches = 0;
    for (const auto &r : w.rules) for (const auto &s : r.selectors) for (const auto &k : s.kinds) matches += k == q.kind && q.lod >= s.from && q.lod <= s.to;
    if (e.applies && matches > 1) ++overridden;
  });
  if (applied > 0 && overridden > 0) c.nontrivial();
}

/// The provider is used by the threads which load tiles.
void threads(Ctx &c) {
  World w(c);
  std::vector<Query> queries;
  std::vector<StyleModel> expected;
  c.repeat(4, 20, [&](std::size_t) {
    queries.push_back(genQuery(w));
    c.note() << show(queries.back()) << "\n";
    const auto &q = queries.back();
    expected.push_back(w.expected(q.kind, q.element ? q.element->id : 0, q.tags, q.lod));
  });
  std::vector<std::string> gradients;
  for (int i = 0; i < 40; ++i) gradients.push_back("gradient(#" + std::to_string(100000 + i*777) + ", #00ff00)");
  std::vector<std::string> failures(4);
  std::vector<std::thread> workers;
  for (std::size_t t = 0; t < failures.size(); ++t)
    workers.emplace_back([&, t] {
      try {
        for (std::size_t n = 0; n < 2*queries.size(); ++n) {
          std::size_t i = (n*(t + 1) + t)%queries.size();
          auto got = observe(w, queries[i]);
          if (!(got == expected[i])) { failures[t] = show(queries[i]) + " gets " + got.show() + ", expected " + expected[i].show(); return; }
          const auto &g = w.styles->getGradient(gradients[(n*7 + t)%gradients.size()]);
          if (static_cast<std::uint32_t>(g.evaluate(1)) != 0x00ff00ffu) { failures[t] = "gradient"; return; }
          for (int lod = 0; lod < 30; ++lod) w.styles->forCanvas(lod + static_cast<int>(t));
        }
      } catch (const std::exception &e) { failures[t] = std::string("exception: ") + e.what(); }
    });
  for (auto &t : workers) t.join();
  for (const auto &f : failures) PBT_CHECK(c, f.empty(), f);
  c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C09", {
    {"cascade", "up to 10 rules with up to 3 selectors over few keys, values and zooms, and up to 12 elements (any kind, identifiers up to 2^64-1, up to 9 tags) or the canvas, against a direct interpretation of the rules; non-trivial: some rule applies where several have kind and zoom in common", 60000, 2000000, cascade},
    {"threads", "the same with 4 threads asking the same provider; every case is non-trivial", 800, 30000, threads},
  }, {"order of threads is up to the operating system"});
}
