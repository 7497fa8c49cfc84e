// C08: stylesheet texts read back.
#include "style.hpp"

using namespace model;
using pbt::Ctx;
using namespace utymap::mapcss;

namespace {

/// One statement of a stylesheet text.
struct Item {
  enum Kind { RuleItem, Import, Texture, LSys } kind = RuleItem;
  Rule rule;
  std::string url;
  std::vector<Item> imported;
};

struct RegionModel { int w, h, x, y, rw, rh; };
typedef std::map<std::string, std::vector<RegionModel>> AtlasModel;

std::string show(const Rule &r) {
  std::string s;
  for (const auto &sel : r.selectors) {
    s += "(" + join(sel.names, ",") + "|" + std::to_string(sel.zoom.start) + "-" + std::to_string(sel.zoom.end);
    for (const auto &c : sel.conditions) s += "[" + c.key + "~" + c.operation + "~" + c.value + "]";
    s += ")";
  }
  s += "{";
  for (const auto &d : r.declarations) s += "<" + d.key + "~" + d.value + ">";
  return s + "}";
}

std::vector<std::string> show(const std::vector<Rule> &rules) {
  std::vector<std::string> v;
  for (const auto &r : rules) v.push_back(show(r));
  return v;
}

const char *const Printable = " !\"#$%&'()*+,-./0123456789:<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";

struct Gen {
  Ctx &c;
  std::string dir;
  bool plain;  // no odd characters
  bool strictComments = false;   // nothing in a comment could end a statement if the comment was not closed
  int files = 0;
  std::map<int, AtlasModel> atlases;
  std::vector<int> atlasOrder;
  std::set<std::string> lsystems;

  /// Optional white space and comments.
  std::string gap() {
    std::string s;
    if (c.chance(3, 5)) return s;
    c.repeat(0, 3, [&](std::size_t) {
      switch (c.draw(6)) {
        case 0: case 1: case 2: s += " "; break;
        case 3: s += c.pick<std::string>({"\n", "\t", "\r\n"}); break;
        case 4: case 5: {
          auto t = word(c, strictComments ? "ab {[|*/<!-\n\"" : "ab {}[];:|*/<!-\n\"", 0, 8);
          bool html = c.boolean();
          const std::string open = html ? "<!--" : "/*", close = html ? "-->" : "*/";
          // the text must not close the comment by itself
          auto all = t + close;
          if (all.find(close) != t.size()) t = "x";
          s += open + t + close;
          break;
        }
        default: s += "  ";
      }
    });
    return s;
  }

  std::string text(const std::string &alphabet, std::size_t max) {
    auto s = word(c, alphabet, 1, max);
    return s;
  }

  Condition condition() {
    Condition k;
    static const std::string odd = "abcdefgh:_-.0123456789 '\"(){};,|/*#@!";
    static const std::string simple = "abcdefgh:_";
    k.key = text(plain || !c.chance(1, 4) ? simple : odd, 6);
    if (c.chance(3, 4)) {
      k.operation = c.pick<std::string>({"=", "!=", "<", ">"});
      k.value = text(plain || !c.chance(1, 4) ? "abc0123456789_." : odd, 6);
    }
    return clean(k);
  }

  /// White space at the border of texts and texts which look like comments have another meaning.
  Condition clean(Condition k) {
    auto fix = [](std::string &s) {
      if (s.empty()) return;
      if (s[0] == ' ' || s.compare(0, 2, "/*") == 0 || s.compare(0, 4, "<!--") == 0) s[0] = 'x';
      for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '!') s[i] = 'n';   // "!" before "=" is part of the operator
    };
    fix(k.key);
    fix(k.value);
    return k;
  }

  int zoomValue() { return static_cast<int>(c.integer(0, 25)); }

  Selector selector() {
    Selector s;
    switch (c.draw(7)) {
      case 6: s.names.push_back("canvas"); break;
      case 7: {
        s.names.push_back("element");
        Condition k;
        k.key = "id"; k.operation = "="; k.value = std::to_string(c.draw(1u << 30));
        s.conditions.push_back(k);
        break;
      }
      default: {
        c.repeat(1, 4, [&](std::size_t) { s.names.push_back(c.pick<std::string>({"node", "way", "area", "relation"})); });
        c.repeat(1, 3, [&](std::size_t) { s.conditions.push_back(condition()); });
      }
    }
    s.zoom.start = static_cast<std::uint8_t>(zoomValue());
    s.zoom.end = c.boolean() ? s.zoom.start : static_cast<std::uint8_t>(c.integer(s.zoom.start, 30));
    return s;
  }

  Declaration declaration() {
    Declaration d;
    std::string keys = "abcdefghijklmnopqrstuvwxyz-_", values = "abcdefgh0123456789.%#_ ()";
    if (!plain && c.chance(1, 4)) {
      keys = values = "";
      for (const char *p = Printable; *p; ++p) {
        if (*p != ':' && *p != '}') keys += *p;
        if (*p != ';') values += *p;
      }
      values += "\n";
    }
    d.key = text(keys, 10);
    d.value = text(values, c.chance(1, 20) ? 300 : 12);
    auto fix = [](std::string &s) {
      if (std::isspace(static_cast<unsigned char>(s[0])) || s.compare(0, 2, "/*") == 0 || s.compare(0, 4, "<!--") == 0) s[0] = 'x';
    };
    fix(d.key);
    fix(d.value);
    return d;
  }

  Rule rule() {
    Rule r;
    c.repeat(1, 3, [&](std::size_t) { r.selectors.push_back(selector()); });
    c.repeat(1, 5, [&](std::size_t) { r.declarations.push_back(declaration()); });
    return r;
  }

  std::string render(const Condition &k) { return "[" + k.key + k.operation + k.value + "]"; }

  std::string renderZoom(const Zoom &z) {
    return "|z" + std::to_string(z.start) + (z.start == z.end && !c.chance(1, 4) ? "" : "-" + std::to_string(z.end));
  }

  std::string render(const Selector &s) {
    std::string t;
    for (const auto &n : s.names) t += (t.empty() ? "" : gap() + "," + gap()) + n;
    t += gap() + renderZoom(s.zoom);
    for (const auto &k : s.conditions) t += gap() + render(k);
    return t;
  }

  std::string render(const Rule &r) {
    std::string t;
    for (const auto &s : r.selectors) t += (t.empty() ? "" : gap() + "," + gap()) + render(s);
    t += gap() + "{";
    for (const auto &d : r.declarations) t += gap() + d.key + ":" + gap() + d.value + ";";
    return t + gap() + "}";
  }

  Item item(int depth) {
    Item i;
    auto kind = c.draw(11);
    if (kind == 9 && depth < 2) {
      i.kind = Item::Import;
      i.url = "f" + std::to_string(files++) + ".mapcss";
      std::string content = gap();
      c.repeat(0, 3, [&](std::size_t) {
        i.imported.push_back(item(depth + 1));
        content += render(i.imported.back()) + gap();
      });
      writeFile(dir + i.url, content);
      c.note() << "--- " << i.url << "\n" << content << "\n---\n";
    } else if (kind == 10) {
      i.kind = Item::Texture;
      i.url = "f" + std::to_string(files++) + ".txt";
      int index = static_cast<int>(c.small(0, 40000)), w = static_cast<int>(c.integer(1, 65535)), h = static_cast<int>(c.integer(1, 65535));
      if (atlases.count(index)) { i.kind = Item::RuleItem; i.rule = rule(); return i; }
      AtlasModel &m = atlases[index];
      atlasOrder.push_back(index);
      std::string content = std::to_string(index) + "," + std::to_string(w) + "," + std::to_string(h) + "\n";
      c.repeat(1, 6, [&](std::size_t) {
        auto name = c.pick<std::string>({"wood", "stone", "a b", "brick-1"});
        RegionModel r{w, h, 0, 0, 0, 0};
        r.x = static_cast<int>(c.integer(0, 30000)); r.y = static_cast<int>(c.integer(0, 30000));
        r.rw = static_cast<int>(c.integer(1, 30000)); r.rh = static_cast<int>(c.integer(1, 30000));
        m[name].push_back(r);
        auto sep = c.boolean() ? "," : ", ";
        content += name + sep + std::to_string(r.x) + sep + std::to_string(r.y) + sep + std::to_string(r.rw) + sep + std::to_string(r.rh) + "\n";
      });
      writeFile(dir + i.url, content);
      c.note() << "--- " << i.url << "\n" << content << "---\n";
    } else if (kind == 11) {
      i.kind = Item::LSys;
      auto name = "l" + std::to_string(files++);
      i.url = name + ".lsys";
      lsystems.insert(name);
      writeFile(dir + i.url, "generations: " + std::to_string(files) + "\nangle: 30\nscale: 0.5\naxiom: A F\nA -> F A\n");
    } else {
      i.rule = rule();
    }
    return i;
  }

  std::string render(const Item &i) {
    switch (i.kind) {
      case Item::Import: return "@import url(\"" + i.url + "\");";
      case Item::Texture: return "@texture url(\"" + i.url + "\");";
      case Item::LSys: return "@lsystem url(\"" + i.url + "\");";
      default: return render(i.rule);
    }
  }
};

void flatten(const std::vector<Item> &items, std::vector<Rule> &rules) {
  for (const auto &i : items) {
    if (i.kind == Item::RuleItem) rules.push_back(i.rule);
    flatten(i.imported, rules);
  }
}

void compare(Ctx &c, const std::vector<Rule> &expected, const StyleSheet &sheet) {
  PBT_CHECK(c, show(expected) == show(sheet.rules), "rules: " << difference(show(expected), show(sheet.rules)));
}

void readBack(Ctx &c) {
  Gen g{c, c.tmpDir(), false};
  std::vector<Item> items;
  std::string text = g.gap();
  c.repeat(0, 5, [&](std::size_t) {
    items.push_back(g.item(0));
    text += g.render(items.back()) + g.gap();
    if (items.back().kind == Item::RuleItem && c.chance(1, 10)) text += ";" + g.gap();   // tolerated
  });
  c.note() << text;
  std::vector<Rule> rules;
  flatten(items, rules);

  MapCssParser parser(g.dir);
  auto sheet = pbt::noThrow("parse", [&] {
    if (!c.boolean()) return parser.parse(text);
    std::istringstream stream(text);
    return parser.parse(stream);
  });
  compare(c, rules, sheet);

  // included files
  std::vector<std::string> expected, got;
  for (int i : g.atlasOrder) expected.push_back(std::to_string(i));
  for (const auto &t : sheet.textures) got.push_back(std::to_string(t.index()));
  std::sort(expected.begin(), expected.end());
  std::sort(got.begin(), got.end());
  PBT_CHECK(c, expected == got, "atlases: " << join(got) << " expected: " << join(expected));
  for (const auto &t : sheet.textures) {
    PBT_CHECK(c, t.get("no such texture").random(0).isEmpty(), "unknown texture has a region");
    for (const auto &group : g.atlases[t.index()]) {
      const auto &n = group.second;
      for (std::size_t i = 0; i < 2*n.size(); ++i) {
        const auto &e = n[i%n.size()];
        const auto &r = t.get(group.first).random(i);
        PBT_CHECK(c, r.atlasWidth == e.w && r.atlasHeight == e.h && r.x == e.x && r.y == e.y && r.width == e.rw && r.height == e.rh,
                  "region " << i << " of " << group.first << " in atlas " << t.index() << " is " << r.x << "," << r.y << "," << r.width << "," << r.height
                  << " of " << r.atlasWidth << "," << r.atlasHeight);
      }
    }
  }
  std::set<std::string> names;
  for (const auto &l : sheet.lsystems) names.insert(l.first);
  PBT_CHECK(c, names == g.lsystems, "lsystems: " << join(names) << " expected: " << join(g.lsystems));
  for (const auto &l : sheet.lsystems)
    PBT_CHECK(c, l.second.generations == 1 + std::stoi(l.first.substr(1)), "lsystem " << l.first << " has another content");

  // the provider hands the same out
  StringTable st(c.tmpDir());
  sheet.rules.clear();   // values which are no valid colours are not of interest here
  StyleProvider styles(sheet, st);
  for (const auto &a : g.atlases) for (const auto &group : a.second)
    PBT_CHECK(c, styles.getTexture(static_cast<std::uint16_t>(a.first), group.first).random(0).x == group.second[0].x, "texture of provider");
  for (const auto &l : g.lsystems)
    PBT_CHECK(c, pbt::noThrow("lsystem", [&] { return styles.getLsystem(l).generations; }) == 1 + std::stoi(l.substr(1)), "lsystem of provider");

  std::size_t conditions = 0, declarations = 0;
  for (const auto &r : rules) {
    declarations += r.declarations.size();
    for (const auto &s : r.selectors) conditions += s.conditions.size();
  }
  if (rules.size() > 1 && conditions > 1 && declarations > 2) c.nontrivial();
  if (text.find("/*") != std::string::npos || text.find("<!--") != std::string::npos) c.label("comments");
  if (!g.atlases.empty()) c.label("textures");
  if (!g.lsystems.empty()) c.label("lsystems");
  for (const auto &i : items) if (i.kind == Item::Import) c.label("imports");
}

bool rejects(const MapCssParser &parser, const std::string &text, StyleSheet &sheet) {
  try { sheet = parser.parse(text); } catch (const std::exception &) { return true; }
  return false;
}

/// A text cut anywhere is either accepted as what its complete statements say or rejected.
void truncated(Ctx &c) {
  Gen g{c, c.tmpDir(), false};
  g.strictComments = true;
  std::vector<Item> items;
  std::string text;
  std::vector<std::pair<std::size_t, std::size_t>> spans;
  c.repeat(1, 4, [&](std::size_t) {
    for (auto n = c.draw(2); n > 0; --n) text += c.pick<std::string>({" ", "\n"});
    items.push_back(g.item(0));
    std::size_t from = text.size();
    text += g.render(items.back());
    spans.emplace_back(from, text.size());
  });
  std::size_t cut = static_cast<std::size_t>(c.draw(text.size()));
  c.note() << text.substr(0, cut) << "\n^ cut from:\n" << text;
  std::vector<Item> whole;
  bool inside = false;
  for (std::size_t i = 0; i < spans.size(); ++i) {
    if (spans[i].second <= cut) whole.push_back(items[i]);
    else if (spans[i].first < cut) inside = true;
  }
  StyleSheet sheet;
  bool rejected = rejects(MapCssParser(g.dir), text.substr(0, cut), sheet);
  PBT_CHECK(c, rejected == inside, (inside ? "a statement which is cut off is accepted" : "complete statements are rejected"));
  if (!inside) { std::vector<Rule> rules; flatten(whole, rules); compare(c, rules, sheet); }
  if (inside) c.nontrivial();
  c.label(inside ? "cut inside" : "cut between");
}

/// A text with one violation of the grammar.
void violated(Ctx &c) {
  Gen g{c, c.tmpDir(), true};
  std::vector<std::string> texts;
  c.repeat(1, 4, [&](std::size_t) { texts.push_back(g.render(g.item(1))); });
  std::size_t at = static_cast<std::size_t>(c.draw(texts.size()));
  std::string bad, what;
  bool last = false;
  auto sel = [&](const std::string &s) { return s + "{a:b;}"; };
  switch (c.draw(17)) {
    case 0: what = "unknown kind"; bad = sel(c.pick<std::string>({"wax", "line", "Node", "AREA", "relations", "*", "w ay"}) + "|z1[a]"); break;
    case 1: what = "no zoom"; bad = sel(c.pick<std::string>({"way[a]", "node", "canvas", "element[id=1]"})); break;
    case 2: what = "no condition"; bad = sel(c.pick<std::string>({"way|z1", "node,way|z2-3", "element|z1", "relation|z1-2"})); break;
    case 3: what = "no opening brace"; bad = "way|z1[a] a:b;}"; break;
    case 4: what = "no declaration"; bad = "way|z1[a]{" + g.gap() + "}"; break;
    case 5: what = "no closing brace"; bad = "way|z1[a]{a:b;"; last = true; break;
    case 6: what = "no semicolon"; bad = "way|z1[a]{a:b}"; last = true; break;
    case 7: what = "no colon"; bad = "way|z1[a]{" + std::string(c.boolean() ? "a:b;" : "") + "c d;}"; last = true; break;
    case 8: what = "unknown directive"; bad = c.pick<std::string>({"@include url(\"f\");", "@import \"f\";", "@import url(f);", "@lsys url(\"f\");"}); break;
    case 9: what = "open comment"; bad = c.pick<std::string>({"/* ", "<!-- ", "/* way|z1[a]{a:b;}", "<!-- *" "/"}); last = true; break;
    case 10: what = "rest"; bad = c.pick<std::string>({"}", "{", "way", "way|z1", "way|z1[a]", "garbage", "way|z1[a]{a:b;}}"}); break;
    case 11: what = "condition not closed"; bad = sel("way|z1[a=b"); last = true; break;
    case 12: what = "empty condition"; bad = sel("way|z1[]"); break;
    case 13: what = "zoom is no number"; bad = sel(c.pick<std::string>({"way|z[a]", "way|zx[a]", "way|z-[a]", "canvas|z", "way|1[a]", "way z1[a]"})); break;
    case 14: what = "missing file"; bad = c.pick<std::string>({"@texture url(\"missing.txt\");", "@lsystem url(\"missing.lsys\");"}); break;
    case 15: what = "selector list"; bad = sel(c.pick<std::string>({"way|z1[a],", "way|z1[a],|z1[b]", ",way|z1[a]", "way,|z1[a]", "way|z1[a] node|z1[a]", "way|z1[a],wax|z1[a]"})); break;
    case 16: {
      what = "violation in an included file";
      auto content = c.pick<std::string>({"wax|z1[a]{a:b;}", "way|z1[a]{a:b;} garbage", "way|z1[a]{a:b;", "way|z1{a:b;}"});
      writeFile(g.dir + "bad.mapcss", content);
      c.note() << content << "\n";
      bad = "@import url(\"bad.mapcss\");";
      break;
    }
    default: {
      what = "violation in an atlas";
      auto content = c.pick<std::string>({"", "1,2\n", "x,1,2\na,1,2,3,4", "1,10,10\na,1,2,3", "1,10,10\na,1,2,3,4\nb", "1,10,10\na,1,2,3,4\nb,1,2,3,", "1,10,10"});
      writeFile(g.dir + "bad.txt", content);
      c.note() << content << "\n";
      bad = "@texture url(\"bad.txt\");";
    }
  }
  std::string text;
  for (std::size_t i = 0; i <= texts.size(); ++i) {
    if (i == (last ? texts.size() : at)) text += bad + "\n";
    if (i < texts.size()) text += texts[i] + "\n";
  }
  c.note() << what << ":\n" << text;
  c.label(what);
  StyleSheet sheet;
  PBT_CHECK(c, rejects(MapCssParser(g.dir), text, sheet), what << ": accepted as " << join(show(sheet.rules)));
  c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C08", {
    {"read back", "up to 5 statements: rules of up to 3 selectors with up to 4 kinds, 3 conditions (all operators), any zoom range and up to 5 declarations of any printable text, nested imports, texture atlases, L-systems; comments and white space at any place which allows them; non-trivial: two rules, two conditions, three declarations", 100000, 1500000, readBack},
    {"truncated", "a text of the same kind cut at any character; non-trivial: cut within a statement", 60000, 1000000, truncated},
    {"violated", "valid statements around one of 18 kinds of violations of the grammar; every case is non-trivial", 40000, 400000, violated},
  });
}
