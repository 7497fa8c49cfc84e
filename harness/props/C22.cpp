// C22: L-systems.
#include "bench.hpp"

#include "builders/generators/LSystemGenerator.hpp"
#include "entities/Node.hpp"
#include "lsys/LSystem.hpp"
#include "lsys/LSystemParser.hpp"
#include "lsys/Turtle3d.hpp"

using namespace bench;
using namespace utymap::lsys;
using pbt::Ctx;

namespace {

typedef std::vector<std::string> Tokens;

/// Records what it is told to do.
struct Recorder final : Turtle {
  Tokens all;
  void moveForward() override { all.push_back("F"); }
  void jumpForward() override { all.push_back("G"); }
  void turnLeft() override { all.push_back("+"); }
  void turnRight() override { all.push_back("-"); }
  void turnAround() override { all.push_back("|"); }
  void pitchUp() override { all.push_back("^"); }
  void pitchDown() override { all.push_back("&"); }
  void rollLeft() override { all.push_back("\\"); }
  void rollRight() override { all.push_back("/"); }
  void increment() override { all.push_back("$"); }
  void decrement() override { all.push_back("!"); }
  void scaleUp() override { all.push_back(">"); }
  void scaleDown() override { all.push_back("<"); }
  void switchStyle() override { all.push_back("@"); }
  void save() override { all.push_back("["); }
  void restore() override { all.push_back("]"); }
  void say(const std::string &word) override { all.push_back(word); }
};

Tokens recorded(const LSystem::Rules &rules) {
  Recorder r;
  for (const auto &rule : rules) rule->apply(r);
  return r.all;
}

std::string join(const Tokens &t) {
  std::string s;
  for (const auto &x : t) s += (s.empty() ? "" : " ") + x;
  return s;
}

struct System {
  int generations = 1;
  double angle = 45, scale = 2;
  Tokens axiom;
  typedef std::vector<std::pair<double, Tokens>> Choices;
  std::map<std::string, Choices> productions;
  std::vector<std::pair<std::string, std::size_t>> order;   // as written: predecessor, number of choice
};

const std::vector<std::string> symbols = {"F", "G", "+", "-", "|", "^", "&", "\\", "/", "$", "!", ">", "<", "@", "[", "]"};
const std::vector<std::string> words = {"a", "b", "root", "leaf", "Branch", "ab", "aF", "xG", "Tree", "rooty"};

std::string token(Ctx &c, int alphabet) {
  if (alphabet < 4) return c.pick(std::vector<std::string>{"F", "a", "+", "root"});
  return c.boolean() ? c.pick(symbols) : c.pick(words);
}

System genSystem(Ctx &c, bool random) {
  System s;
  int alphabet = static_cast<int>(c.integer(3, 4));
  auto tokens = [&](std::size_t min, std::size_t max) {
    Tokens t;
    c.repeat(min, max, [&](std::size_t) { t.push_back(token(c, alphabet)); });
    return t;
  };
  s.generations = static_cast<int>(c.integer(0, 4));
  s.angle = c.boolean() ? c.pick({0.0, 45.0, 90.0, 180.0, -30.0, 22.5}) : c.real(-360, 360);
  s.scale = c.boolean() ? c.pick({1.0, 2.0, 0.5}) : c.real(0.1, 5);
  s.axiom = tokens(1, 5);
  c.repeat(1, 4, [&](std::size_t) {
    auto p = token(c, alphabet);
    auto &choices = s.productions[p];
    if (!choices.empty()) return;
    auto n = c.chance(1, 2) ? 1 : c.integer(1, 4);
    auto chosen = c.draw(static_cast<std::uint64_t>(n - 1));
    for (long long i = 0; i < n; ++i) {
      double w = random ? c.pick({0.1, 0.25, 1.0, 3.0, 0.0}) : static_cast<std::uint64_t>(i) == chosen ? c.pick({1.0, 0.5, 7.0}) : 0.0;
      choices.emplace_back(w, tokens(1, 4));
    }
    bool any = false;
    for (const auto &x : choices) any = any || x.first > 0;
    if (!any) choices[chosen].first = 1;
  });
  for (const auto &p : s.productions)
    for (std::size_t i = 0; i < p.second.size(); ++i) s.order.emplace_back(p.first, i);
  // productions in any order, but these of one word in theirs
  for (std::size_t i = s.order.size(); i > 1; --i) std::swap(s.order[i - 1], s.order[c.draw(i - 1)]);
  std::map<std::string, std::size_t> next;
  for (auto &o : s.order) o.second = next[o.first]++;
  return s;
}

bool isWord(const std::string &t) { return t == "F" || t == "G" || std::isalpha(static_cast<unsigned char>(t[0])); }

/// Pieces of text: whether something which does not belong there can be put before the piece.
struct Text {
  std::vector<std::pair<std::string, bool>> pieces;
  Ctx &c;
  explicit Text(Ctx &c) : c(c) {}
  bool commented = false;   // in a comment until the line ends
  void add(const std::string &s) { pieces.emplace_back(s, !commented); }
  void spaces(long long min) { auto n = c.chance(1, 4) ? c.integer(min, 3) : min; if (n > 0) add(std::string(static_cast<std::size_t>(n), ' ')); }
  void comment() { spaces(0); add("#" + word(c, "abF#:->[] 09+\t%\"", 0, 10)); commented = true; }
  void end() { add("\n"); commented = false; }
  void newline() {
    if (c.chance(1, 8)) comment();
    end();
    while (c.chance(1, 8)) { if (c.boolean()) comment(); end(); }
    spaces(0);
  }
  void tokens(const Tokens &all) {
    for (std::size_t i = 0; i < all.size(); ++i) {
      spaces(i == 0 ? 0 : isWord(all[i]) && isWord(all[i - 1]) ? 1 : c.chance(1, 3) ? 0 : 1);
      add(all[i]);
    }
    spaces(0);
  }
  std::string str() const { std::string s; for (const auto &p : pieces) s += p.first; return s; }
};

Text write(Ctx &c, const System &s) {
  Text t(c);
  if (c.chance(1, 6)) { t.comment(); t.newline(); }
  auto number = [&](double v) {
    char b[64];
    std::snprintf(b, sizeof b, "%.15g", v);
    t.spaces(1);
    t.add(b);
    t.newline();
  };
  t.add("generations:");
  number(s.generations);
  t.add("angle:");
  number(s.angle);
  t.add("scale:");
  number(s.scale);
  t.add("axiom:");
  t.spaces(1);
  t.tokens(s.axiom);
  t.newline();
  for (std::size_t i = 0; i < s.order.size(); ++i) {
    if (i > 0) t.newline();
    const auto &choices = s.productions.at(s.order[i].first);
    const auto &choice = choices[s.order[i].second];
    t.add(s.order[i].first);
    t.spaces(0);
    if (choice.first != 1 || c.boolean()) {
      char b[64];
      std::snprintf(b, sizeof b, "%.15g", choice.first);
      t.add("(");
      t.spaces(0);
      t.add(b);
      t.spaces(0);
      t.add(")");
    }
    t.spaces(1);
    t.add("->");
    t.spaces(1);
    t.tokens(choice.second);
  }
  if (c.boolean()) { t.newline(); if (c.chance(1, 4)) t.comment(); }
  return t;
}

LSystem parsed(Ctx &c, const std::string &text) {
  LSystem r;
  pbt::noThrow("parse", [&] {
    if (c.boolean()) r = LSystemParser().parse(text);
    else { std::istringstream in(text); r = LSystemParser().parse(in); }
  });
  return r;
}

void parse(Ctx &c) {
  auto s = genSystem(c, true);
  auto written = write(c, s);
  auto text = written.str();
  c.note() << text << "\n";
  auto got = parsed(c, text);
  PBT_CHECK(c, got.generations == s.generations, got.generations << " generations, not " << s.generations);
  PBT_CHECK(c, std::fabs(got.angle - s.angle) <= 1e-9*(1 + std::fabs(s.angle)), "angle " << got.angle << ", not " << s.angle);
  PBT_CHECK(c, std::fabs(got.scale - s.scale) <= 1e-9*(1 + std::fabs(s.scale)), "scale " << got.scale << ", not " << s.scale);
  PBT_CHECK(c, recorded(got.axiom) == s.axiom, "axiom is " << join(recorded(got.axiom)));
  std::set<std::string> seen;
  for (const auto &p : got.productions) {
    auto name = join(recorded({p.first}));
    PBT_CHECK(c, s.productions.count(name) && seen.insert(name).second, "productions of " << name);
    const auto &want = s.productions[name];
    PBT_CHECK(c, p.second.size() == want.size(), p.second.size() << " productions of " << name << ", not " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i) {
      PBT_CHECK(c, std::fabs(p.second[i].first - want[i].first) < 1e-9, "probability of " << name << " is " << p.second[i].first << ", not " << want[i].first);
      PBT_CHECK(c, recorded(p.second[i].second) == want[i].second, name << " becomes " << join(recorded(p.second[i].second)) << ", not " << join(want[i].second));
    }
  }
  PBT_CHECK(c, seen.size() == s.productions.size(), seen.size() << " words with productions, not " << s.productions.size());
  c.nontrivial();

  // what does not belong there is not accepted
  std::vector<std::size_t> places;
  for (std::size_t i = 0; i < written.pieces.size(); ++i) if (written.pieces[i].second) places.push_back(i);
  auto bad = written;
  auto at = c.pick(places);
  auto junk = c.pick(std::vector<std::string>{"%", ";", "*", "=", "~", "?", "'"});
  bad.pieces[at].first = junk + bad.pieces[at].first;
  bool rejected = false;
  try { LSystemParser().parse(bad.str()); } catch (const std::exception &) { rejected = true; }
  PBT_CHECK(c, rejected, "text is accepted:\n" << bad.str());
}

const std::size_t MaxTokens = 4000;

/// Positions at which what `token` becomes in `g` generations may end, when it starts at `from`.
struct Derivation {
  const System &s;
  const Tokens &out;
  std::map<std::tuple<std::string, int, std::size_t>, std::set<std::size_t>> known;
  const std::set<std::size_t> &ends(const std::string &t, int g, std::size_t from) {
    auto key = std::make_tuple(t, g, from);
    auto found = known.find(key);
    if (found != known.end()) return found->second;
    std::set<std::size_t> r;
    auto p = s.productions.find(t);
    if (g == 0 || p == s.productions.end()) {
      if (from < out.size() && out[from] == t) r.insert(from + 1);
    } else {
      for (const auto &choice : p->second)
        if (choice.first > 0) for (auto e : all(choice.second, g - 1, from)) r.insert(e);
    }
    return known[key] = r;
  }
  std::set<std::size_t> all(const Tokens &tokens, int g, std::size_t from) {
    std::set<std::size_t> now = {from};
    for (const auto &t : tokens) {
      std::set<std::size_t> next;
      for (auto f : now) for (auto e : ends(t, g, f)) next.insert(e);
      now = next;
    }
    return now;
  }
};

void rewrite(Ctx &c) {
  bool any = c.boolean();
  auto s = genSystem(c, any);
  auto text = write(c, s).str();
  c.note() << text << "\n";
  // size of the longest result
  {
    std::map<std::string, double> size;
    auto len = [&](const Tokens &t) { double n = 0; for (const auto &x : t) n += size.count(x) ? size[x] : 1; return n; };
    for (int g = 0; g < s.generations; ++g) {
      std::map<std::string, double> next;
      for (const auto &p : s.productions) for (const auto &choice : p.second) if (choice.first > 0) next[p.first] = std::max(next[p.first], len(choice.second));
      size = next;
    }
    if (len(s.axiom) > (any ? 300 : MaxTokens)) c.discard();
  }
  auto system = parsed(c, text);
  Recorder r;
  pbt::noThrow("run", [&] { r.run(system); });
  if (!any) {
    auto want = s.axiom;
    for (int g = 0; g < s.generations; ++g) {
      Tokens next;
      for (const auto &t : want) {
        auto p = s.productions.find(t);
        if (p == s.productions.end()) { next.push_back(t); continue; }
        for (const auto &choice : p->second) if (choice.first > 0) next.insert(next.end(), choice.second.begin(), choice.second.end());
      }
      want = next;
    }
    PBT_CHECK(c, r.all == want, "turtle was told\n" << join(r.all) << "\nbut should be\n" << join(want));
    if (want != s.axiom) c.nontrivial();
  } else {
    Derivation d{s, r.all, {}};
    PBT_CHECK(c, d.all(s.axiom, s.generations, 0).count(r.all.size()), "turtle was told what cannot be derived:\n" << join(r.all));
    if (r.all != s.axiom) c.nontrivial();
  }
}

void chances(Ctx &c) {
  const int n = 3000;
  System s;
  s.generations = 1;
  s.axiom = Tokens(n, "a");
  auto &choices = s.productions["a"];
  std::vector<std::string> names = {"b", "d", "e", "f", "h"};
  double sum = 0;
  c.repeat(2, 5, [&](std::size_t i) { double w = c.boolean() ? c.pick({0.0, 1.0, 0.14}) : c.real(0.01, 4); choices.emplace_back(w, Tokens{names[i]}); sum += w; s.order.emplace_back("a", i); });
  if (sum == 0) c.discard();
  std::string text = "generations: 1\nangle: 0\nscale: 1\naxiom: " + join(s.axiom);
  for (const auto &x : choices) { char b[64]; std::snprintf(b, sizeof b, "\na(%.15g) -> ", x.first); text += b + join(x.second); c.note() << x.first << " "; }
  auto system = parsed(c, text);
  Recorder r;
  pbt::noThrow("run", [&] { r.run(system); });
  c.nontrivial();
  for (const auto &x : choices) {
    double p = x.first/sum, got = static_cast<double>(std::count(r.all.begin(), r.all.end(), x.second[0]));
    // eight standard deviations
    PBT_CHECK(c, std::fabs(got - n*p) <= (p == 0 ? 0 : 8*std::sqrt(n*p*(1 - p)) + 5), "production of probability " << p << " was taken " << got << " times of " << n);
  }
}

// ---- turtle

struct V {
  double x, y, z;
  V operator+(const V &o) const { return {x + o.x, y + o.y, z + o.z}; }
  V operator-(const V &o) const { return {x - o.x, y - o.y, z - o.z}; }
  V operator*(double k) const { return {x*k, y*k, z*k}; }
};
double dot(const V &a, const V &b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
double norm(const V &a) { return std::sqrt(dot(a, a)); }
V cross(const V &a, const V &b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
V rotated(const V &v, const V &around, double degrees) {
  V axis = around*(1/norm(around));
  double a = degrees*3.14159265358979323846/180;
  return v*std::cos(a) + cross(axis, v)*std::sin(a) + axis*(dot(axis, v)*(1 - std::cos(a)));
}

struct Pose {
  double length = 1, width = 1;
  std::size_t style = 0;
  V position{0, 0, 0}, heading{0, 1, 0}, right{1, 0, 0};
};

struct ModelTurtle {
  double angle = 0, scale = 1;
  Pose now;
  std::vector<Pose> saved;
  /// False when it cannot be done.
  bool act(const std::string &t) {
    auto turn = [&](double a) { auto axis = cross(now.heading, now.right); now.heading = rotated(now.heading, axis, a); now.right = rotated(now.right, axis, a); };
    auto pitch = [&](double a) { now.heading = rotated(now.heading, now.right, a); };
    auto roll = [&](double a) { now.right = rotated(now.right, now.heading, a); };
    if (t == "G") now.position = now.position + now.heading*now.length;
    else if (t == "+") turn(-angle);
    else if (t == "-") turn(angle);
    else if (t == "|") turn(180);
    else if (t == "^") pitch(angle);
    else if (t == "&") pitch(-angle);
    else if (t == "\\") roll(-angle);
    else if (t == "/") roll(angle);
    else if (t == "$") now.width *= scale;
    else if (t == "!") now.width /= scale;
    else if (t == ">") now.length *= scale;
    else if (t == "<") now.length /= scale;
    else if (t == "@") ++now.style;
    else if (t == "[") saved.push_back(now);
    else if (t == "]") {
      if (saved.empty()) return false;
      now = saved.back();
      saved.pop_back();
    }
    return true;
  }
};

struct Probe final : Turtle3d {
  std::vector<Pose> states;
  Probe(double length, double width) { state_.length = length; state_.width = width; }
  void say(const std::string &) override {
    auto v = [](const utymap::math::Vector3 &p) { return V{p.x, p.y, p.z}; };
    Pose s;
    s.length = state_.length;
    s.width = state_.width;
    s.style = state_.texture;
    s.position = v(state_.position);
    s.heading = v(state_.direction);
    s.right = v(state_.right);
    states.push_back(s);
  }
};

std::string shown(const Pose &s) {
  std::ostringstream o;
  o.precision(12);
  auto v = [&](const V &p) { o << "(" << p.x << "," << p.y << "," << p.z << ") "; };
  o << "length " << s.length << " width " << s.width << " style " << s.style << " at ";
  v(s.position);
  o << "heading ";
  v(s.heading);
  o << "right ";
  v(s.right);
  return o.str();
}

/// Moves of a turtle; brackets match unless said otherwise.
Tokens moves(Ctx &c, std::size_t max, const std::vector<std::string> &of, bool balanced, long long extent) {
  Tokens t;
  int depth = 0;
  long long size = 0;
  c.repeat(1, max, [&](std::size_t) {
    auto x = c.pick(of);
    if (x == "[") ++depth;
    else if (x == "]") { if (depth == 0 && balanced) return; --depth; }
    else if (x == ">" || x == "<" || x == "$" || x == "!") { if (std::llabs(size) >= extent) return; size += x == ">" || x == "$" ? 1 : -1; }
    t.push_back(x);
  });
  if (t.empty()) t.push_back("G");
  return t;
}

std::string source(double angle, double scale, const Tokens &axiom) {
  char b[160];
  std::snprintf(b, sizeof b, "generations: 0\nangle: %.15g\nscale: %.15g\naxiom: ", angle, scale);
  return b + join(axiom) + "\nunused -> F";
}

void turtle(Ctx &c) {
  ModelTurtle model;
  model.angle = c.boolean() ? c.pick({0.0, 45.0, 90.0, 180.0, 30.0, -60.0}) : c.real(-360, 360);
  model.scale = c.boolean() ? c.pick({1.0, 2.0, 0.5}) : c.real(0.3, 3);
  model.now.length = c.real(0.1, 10);
  model.now.width = c.real(0.1, 10);
  bool balanced = !c.chance(1, 8);
  auto tokens = moves(c, 40, {"G", "+", "-", "|", "^", "&", "\\", "/", "$", "!", ">", "<", "@", "[", "]"}, balanced, 12);
  Tokens axiom;
  for (const auto &t : tokens) { axiom.push_back(t); axiom.push_back("probe"); }
  auto text = source(model.angle, model.scale, axiom);
  c.note() << text << "\n";
  auto system = parsed(c, text);
  Probe probe(model.now.length, model.now.width);
  std::string failed;
  try { probe.run(system); } catch (const std::exception &e) { failed = e.what(); }
  bool ok = true, turned = false, saved = false;
  for (std::size_t i = 0; i < tokens.size() && ok; ++i) {
    ok = model.act(tokens[i]);
    if (!ok) {
      PBT_CHECK(c, !failed.empty() && probe.states.size() == i, "state is restored which was not saved");
      c.label("nothing to restore");
      break;
    }
    PBT_CHECK(c, i < probe.states.size(), "stopped after " << i << " moves: " << failed);
    const auto &got = probe.states[i];
    const auto &want = model.now;
    double eps = 1e-9, reach = 1 + norm(want.position);
    for (std::size_t k = 0; k <= i; ++k) reach = std::max(reach, norm(probe.states[k].position));
    bool same = std::fabs(got.length - want.length) <= eps*want.length && std::fabs(got.width - want.width) <= eps*want.width && got.style == want.style &&
        norm(got.position - want.position) <= eps*reach*100 && norm(got.heading - want.heading) <= eps && norm(got.right - want.right) <= eps;
    PBT_CHECK(c, same, "after " << i + 1 << " moves (" << tokens[i] << ") turtle has\n" << shown(got) << "\nbut should have\n" << shown(want));
    turned = turned || std::string("+-^&\\/").find(tokens[i]) != std::string::npos;
    saved = saved || tokens[i] == "]";
  }
  if (ok) PBT_CHECK(c, failed.empty(), "unexpected exception: " << failed);
  if (turned && tokens.size() > 3) c.nontrivial();
  if (saved) c.label("restored");
}

// ---- drawing

struct Figure {
  char kind;   // 'c'ylinder, co'n'e, 's'phere
  Pose s;
};

void drawing(Ctx &c) {
  auto q = anyTile(c, 14, 17);
  auto dir = c.tmpDir();
  StringTable table(dir);
  ModelTurtle model;
  model.angle = c.pick({20.0, 45.0, 90.0, 30.0, 180.0});
  model.scale = c.pick({1.5, 2.0, 0.7});
  double size = c.pick({0.5, 1.0, 2.0, 3.0});
  auto tokens = moves(c, 16, {"G", "+", "-", "|", "^", "&", "\\", "/", "$", "!", ">", "<", "@", "[", "]", "F", "F", "cylinder", "cylinder", "cone", "sphere", "sphere"}, true, 3);
  Atlas atlas;
  struct Look { int color, region; std::string scale; };
  std::vector<Look> looks;
  std::string colors, indices, types, scales;
  c.repeat(1, 4, [&](std::size_t i) {
    Look l{static_cast<int>(0x010101*(i + 1) + static_cast<std::size_t>(c.integer(0, 0x0fffff))), static_cast<int>(c.integer(0, 3)), c.pick(std::vector<std::string>{"1", "50", "200"})};
    std::string sep = i ? "," : "";
    colors += sep + hex(l.color);
    indices += sep + std::to_string(l.region == 3 ? 0 : atlas.regions[static_cast<std::size_t>(l.region)].second[0]);
    types += sep + (l.region == 3 ? "grass" : atlas.regions[static_cast<std::size_t>(l.region)].first);
    scales += sep + l.scale;
    looks.push_back(l);
  });
  bool named = c.boolean();
  auto text = source(model.angle, model.scale, tokens);
  std::ofstream(dir + "/tree.lsys") << text;
  std::string css = atlas.write(dir) + "@lsystem url(\"tree.lsys\");\nnode|z1-19[any] { lsys: tree; lsys-size: " + std::to_string(size) + "m; lsys-colors: " + colors + "; lsys-texture-indices: " + indices +
      "; lsys-texture-types: " + types + "; lsys-texture-scales: " + scales + "; }\n";
  c.note() << css << text << "\n";
  Slope flat;
  std::unique_ptr<Bench> bench;
  pbt::noThrow("stylesheet", [&] { bench.reset(new Bench(q, table, css, dir, flat)); });
  Node node;
  node.id = 7;
  node.tags = {utymap::entities::Tag(table.getId("any"), table.getId("1"))};
  node.coordinate = GeoCoordinate(bench->box.minPoint.latitude + bench->box.height()*c.real(0, 1), bench->box.minPoint.longitude + bench->box.width()*c.real(0, 1));
  double ground = c.boolean() ? 0 : c.real(-100, 3000);
  Mesh mesh("tree");
  pbt::noThrow("drawing", [&] {
    auto style = bench->styles->forElement(node, q.levelOfDetail);
    if (named) utymap::builders::LSystemGenerator::generate(bench->context, style, mesh, node.coordinate, ground);
    else { std::ifstream in(dir + "/tree.lsys"); utymap::builders::LSystemGenerator::generate(bench->context, style, LSystemParser().parse(in), mesh, node.coordinate, ground); }
  });

  model.now.length = model.now.width = size;
  std::vector<Figure> figures;
  for (const auto &t : tokens) {
    if (isWord(t) && t != "G") { figures.push_back({t == "sphere" ? 's' : t == "cone" ? 'n' : 'c', model.now}); model.act("G"); }
    else model.act(t);
  }
  PBT_CHECK(c, meshes::malformed(mesh, true).empty(), meshes::malformed(mesh, true));
  PBT_CHECK(c, figures.empty() == mesh.triangles.empty(), figures.size() << " figures, " << mesh.triangles.size()/3 << " triangles");
  if (figures.empty()) return;

  auto texs = textures(mesh);
  std::vector<V> vs;
  double perLat = 40008000.0/360, perLon = 40075160.0/360*std::cos(node.coordinate.latitude*3.14159265358979323846/180), far = 0;
  for (std::size_t i = 0; i + 2 < mesh.vertices.size(); i += 3) {
    vs.push_back({(mesh.vertices[i] - node.coordinate.longitude)*perLon, mesh.vertices[i + 2] - ground, (mesh.vertices[i + 1] - node.coordinate.latitude)*perLat});
    far = std::max(far, norm(vs.back()));
  }
  // distance of a point to the surface of figure, relative to its place along and around it
  double eps = 1e-3*(size + far) + 1e-4;
  auto on = [&](const Figure &f, const V &v, double &t) {
    auto d = v - f.s.position;
    if (f.kind == 's') {
      t = 0;
      V u{d.x/f.s.width, d.y/f.s.length, d.z/f.s.width};
      return std::fabs(norm(u) - 1)*std::min(f.s.width, f.s.length) < eps;
    }
    t = dot(d, f.s.heading)/f.s.length;
    double r = norm(d - f.s.heading*dot(d, f.s.heading));
    bool bottom = std::fabs(t)*f.s.length < eps, top = std::fabs(t - 1)*f.s.length < eps;
    double at = f.kind == 'n' ? f.s.width*(1 - t) : f.s.width;
    return (t*f.s.length > -eps && (t - 1)*f.s.length < eps) && (std::fabs(r - at) < eps || (r < eps && (bottom || top)));
  };
  std::vector<std::set<int>> ends(figures.size());
  std::vector<V> lo(figures.size(), V{1e9, 1e9, 1e9}), hi(figures.size(), V{-1e9, -1e9, -1e9});
  for (auto index : mesh.triangles) {
    auto i = static_cast<std::size_t>(index);
    bool found = false, looked = false;
    for (std::size_t k = 0; k < figures.size(); ++k) {
      double t;
      if (!on(figures[k], vs[i], t)) continue;
      found = true;
      const auto &look = looks[(figures[k].s.style + (figures[k].kind == 's' ? 1 : 0)) % looks.size()];
      Texture want = look.region == 3 ? Texture{{0, 0, 0, 0, 0, 0, 0}} : atlas.regions[static_cast<std::size_t>(look.region)].second;
      if (rgb(mesh.colors[i]) != look.color || !sameTexture(texs[i], want)) continue;
      looked = true;
      if (std::fabs(t)*figures[k].s.length < eps) ends[k].insert(0);
      if (std::fabs(t - 1)*figures[k].s.length < eps) {
        ends[k].insert(1);
        auto d = vs[i] - figures[k].s.position;
        if (std::fabs(norm(d - figures[k].s.heading*dot(d, figures[k].s.heading)) - figures[k].s.width) < eps) ends[k].insert(2);
      }
      auto d = vs[i] - figures[k].s.position;
      lo[k] = {std::min(lo[k].x, d.x), std::min(lo[k].y, d.y), std::min(lo[k].z, d.z)};
      hi[k] = {std::max(hi[k].x, d.x), std::max(hi[k].y, d.y), std::max(hi[k].z, d.z)};
    }
    PBT_CHECK(c, found, "vertex " << vs[i].x << "," << vs[i].y << "," << vs[i].z << " in meters is on none of the figures");
    PBT_CHECK(c, looked, "vertex " << vs[i].x << "," << vs[i].y << "," << vs[i].z << " has color " << hex(rgb(mesh.colors[i])) << " and texture of atlas " << texs[i][0] << " of none of the figures it is on");
  }
  for (std::size_t k = 0; k < figures.size(); ++k) {
    const auto &f = figures[k];
    if (f.kind == 's') {
      PBT_CHECK(c, hi[k].y - lo[k].y > f.s.length*1.6 && hi[k].x - lo[k].x > f.s.width*1.6 && hi[k].z - lo[k].z > f.s.width*1.6, "figure " << k << ": sphere is not drawn in whole");
    } else {
      PBT_CHECK(c, ends[k].count(0) && ends[k].count(1), "figure " << k << ": " << (f.kind == 'n' ? "cone" : "cylinder") << " is not drawn from its begin to its end");
      PBT_CHECK(c, f.kind == 'n' || ends[k].count(2), "figure " << k << ": cylinder is narrower at its end");
    }
  }
  // nothing is left open: each edge is shared
  std::vector<std::array<double, 3>> points;
  for (const auto &v : vs) points.push_back({{v.x, v.y, v.z}});
  int open = meshes::openEdges(points, mesh.triangles, eps/10);
  PBT_CHECK(c, open == 0, open << " edges belong to one triangle: figures are not closed");
  // all triangles look outside, and there is nothing else inside: volumes of figures add up, a little is missing for they are not round
  double volume = 0, most = 0, least = 0;
  for (std::size_t i = 0; i + 2 < mesh.triangles.size(); i += 3) {
    const auto &a = vs[static_cast<std::size_t>(mesh.triangles[i])], &b = vs[static_cast<std::size_t>(mesh.triangles[i + 1])], &d = vs[static_cast<std::size_t>(mesh.triangles[i + 2])];
    volume += dot(a, cross(b, d))/6;
  }
  for (const auto &f : figures) {
    double full = 3.14159265358979*f.s.width*f.s.width*f.s.length*(f.kind == 's' ? 4.0/3 : f.kind == 'n' ? 1.0/3 : 1);
    most += full*1.01;
    least += full*0.6;
  }
  PBT_CHECK(c, volume > least && volume < most, "figures have a volume of " << volume << ", not " << least << ".." << most);
  bool turned = false;
  for (const auto &f : figures) turned = turned || norm(f.s.heading - V{0, 1, 0}) > 0.1;
  if (figures.size() > 1 || turned) c.nontrivial();
  if (turned) c.label("turned");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C22", {
    {"parse", "L-systems with any symbols, words and weighted productions, written with any spaces, blank lines and comments, and the same text with one character which does not belong there; non-trivial: all", 60000, 600000, parse},
    {"rewrite", "L-systems of up to 4 generations with deterministic productions (compared with a reference) or weighted ones (result is derivable); non-trivial: rewritten at all", 40000, 600000, rewrite},
    {"chances", "sets of up to five weighted productions, applied 3000 times; non-trivial: all", 300, 3000, chances},
    {"turtle", "sequences of up to 40 moves, any angle and scale, state after each of them compared with a model; non-trivial: more than three moves with a turn", 40000, 600000, turtle},
    {"drawing", "trees of up to 16 moves and figures with any looks: each vertex is on a figure with its look, each figure is drawn in whole; non-trivial: more than one figure or a turned one", 15000, 200000, drawing},
  }, {"Words which begin with F or G are out of scope: these are symbols, written with or without spaces after them.",
      "Choice of weighted productions is random: what is derived is checked to be derivable, and its frequencies to eight standard deviations."});
}
