// C10: values of declarations.
#include "style.hpp"
#include "utils/GradientUtils.hpp"

using namespace model;
using pbt::Ctx;
using namespace utymap::mapcss;
using utymap::utils::GradientUtils;

namespace {

const double Pi = 3.14159265358979323846;

/// Metres to degrees by the ellipsoid's radius at the latitude.
double degrees(double latitude, double metres) {
  const double a = 6378137.0, b = 6356752.3, lat = latitude*Pi/180;
  double an = a*a*std::cos(lat), bn = b*b*std::sin(lat), ad = a*std::cos(lat), bd = b*std::sin(lat);
  return metres/std::sqrt((an*an + bn*bn)/(ad*ad + bd*bd))*180/Pi;
}

bool near(double x, double y, double scale = 0) {
  if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
  if (std::isinf(x) || std::isinf(y)) return x == y;
  return std::fabs(x - y) <= 1e-9*std::max({std::fabs(x), std::fabs(y), scale});
}

/// Decimal number without rounding surprises.
std::string decimal(Ctx &c, bool negative = true) {
  std::string s = negative && c.chance(1, 4) ? "-" : "";
  s += std::to_string(c.small(0, 1000000));
  if (c.chance(1, 2)) {
    s += ".";
    for (auto n = c.integer(1, 4); n > 0; --n) s += static_cast<char>('0' + c.draw(9));
  }
  return s;
}

struct Holder {
  StringTable st;
  std::vector<Tag> tags;
  std::unique_ptr<StyleDeclaration> declaration;
  Style style;
  Holder(Ctx &c, const std::string &key, const std::string &value, const TextTags &text) :
      st(c.tmpDir()), tags(make(st, text)),
      declaration(pbt::noThrow("declaration", [&] { return new StyleDeclaration(st.getId(key), value); })), style(tags, st) {
    style.put(*declaration);
  }
  static std::vector<Tag> make(StringTable &st, const TextTags &text) {
    Node n;
    addTags(n, st, text);
    return n.tags;
  }
};

void units(Ctx &c) {
  auto number = decimal(c);
  double v = std::strtod(number.c_str(), nullptr);
  auto unit = c.pick<std::string>({"", "m", "%"});
  double lat = c.real(-85, 85), lon = c.real(-180, 179), h = c.pick({0.0, 1e-5, 0.01, 1.0, 10.0})*c.real(0, 1), w = c.real(0, 1);
  h = std::min(h, 85 - lat);
  double relative = c.boolean() ? c.real(0, 10) : c.real(-5, 1000);
  c.note() << number << unit << " relative " << relative << " box " << lat << "," << lon << "+" << h << "," << w;
  Holder x(c, "width", number + unit, {});
  BoundingBox box(GeoCoordinate(lat, lon), GeoCoordinate(lat + h, lon + w));
  double e1 = unit == "%" ? v/100 : v;
  double e2 = unit == "%" ? relative*v/100 : v;
  double e3 = unit == "%" ? (box.maxPoint.latitude - box.minPoint.latitude)*v/100 : unit == "m" ? degrees((box.minPoint.latitude + box.maxPoint.latitude)/2, v) : v;
  double g1 = x.style.getValue("width"), g2 = x.style.getValue("width", relative), g3 = x.style.getValue("width", box);
  PBT_CHECK(c, near(g1, e1), "value is " << g1 << ", expected " << e1);
  PBT_CHECK(c, near(g2, e2), "value relative to " << relative << " is " << g2 << ", expected " << e2);
  PBT_CHECK(c, near(g3, e3), "value in box is " << g3 << ", expected " << e3);
  PBT_CHECK(c, x.style.getString("width") == number + unit, "text is " << x.style.getString("width"));
  PBT_CHECK(c, x.style.getValue("other") == 0 && x.style.getValue("other", box) == 0 && x.style.getString("other").empty(), "a value which is not there");
  if (v != 0) c.nontrivial();
  c.label(unit.empty() ? "plain" : unit);
}

void texts(Ctx &c) {
  std::string all;
  for (char ch = ' '; ch < 127; ++ch) if (ch != ';') all += ch;
  auto text = word(c, c.chance(1, 2) ? all : std::string("abcxyz()'\"+-"), 1, 30);
  if (text.compare(0, 4, "eval") == 0) text[0] = 'x';
  // a text which only begins with an expression
  if (c.chance(1, 6)) text = "eval(\"" + std::string(c.boolean() ? "tag('a')" : "12") + (c.boolean() ? " + 3" : "") + "\")" + (c.boolean() ? " " : "") + word(c, "am%(\"1", 1, 4);
  c.note() << text;
  Holder x(c, "k", text, {{"a", "1"}});
  PBT_CHECK(c, x.style.getString("k") == text, "text is " << x.style.getString("k"));
  PBT_CHECK(c, x.style.has(x.st.getId("k"), text), "has");
  PBT_CHECK(c, !x.declaration->isEval(), "text is taken for an expression");
  bool threw = false;
  try { x.declaration->evaluate<double>(x.tags, x.st); } catch (const utymap::MapCssException &) { threw = true; }
  PBT_CHECK(c, threw, "text is evaluated");
  if ((text[0] < '0' || text[0] > '9') && text[0] != '-') {
    auto lower = text;
    for (auto &ch : lower) ch = static_cast<char>(std::tolower(ch));
    if (text.back() != 'm' && text.back() != '%' && lower.find("nan") == std::string::npos && lower.find("inf") == std::string::npos && text[0] != '.' && text[0] != '+')
      PBT_CHECK(c, x.style.getValue("k") == 0, "value of text is " << x.style.getValue("k"));
    c.nontrivial();
  }
}

struct Operand {
  enum Kind { Number, TagValue, Text } kind;
  std::string text;  // number, key or text
};

void arithmetic(Ctx &c) {
  TextTags tags;
  std::map<std::string, std::string> has;
  static const std::vector<std::string> keys = {"height", "building:levels", "min height", "width", "k5", "k6"};
  for (const auto &k : keys)
    if (!c.chance(1, 6)) { auto v = c.chance(1, 8) ? std::string("many") : decimal(c); tags.emplace_back(k, v); has[k] = v; }
  std::vector<Operand> operands;
  std::vector<char> ops;
  c.repeat(1, 7, [&](std::size_t i) {
    if (i > 0) ops.push_back(c.pick({'+', '-', '*', '/'}));
    switch (c.draw(5)) {
      case 0: case 1: operands.push_back({Operand::Number, decimal(c)}); break;
      case 5: operands.push_back({Operand::Text, c.chance(1, 4) ? "text" : decimal(c)}); break;
      default: operands.push_back({Operand::TagValue, c.pick(keys)});
    }
  });
  auto space = [&] { return std::string(c.draw(3) == 3 ? 1 : 0, ' '); };
  std::string text = "eval(\"";
  double value = 0, scale = 0;
  bool missing = false;
  for (std::size_t i = 0; i < operands.size(); ++i) {
    const auto &o = operands[i];
    if (i > 0) text += space() + ops[i - 1] + space();
    text += o.kind == Operand::Number ? o.text : o.kind == Operand::Text ? "'" + o.text + "'" : "tag('" + o.text + "')";
    std::string t = o.text;
    if (o.kind == Operand::TagValue) { if (!has.count(o.text)) missing = true; t = has[o.text]; }
    char *end;
    double v = std::strtod(t.c_str(), &end);
    if (*end) v = 0;
    if (i == 0) value = v;
    else if (ops[i - 1] == '+') value += v;
    else if (ops[i - 1] == '-') value -= v;
    else if (ops[i - 1] == '*') { value *= v; scale *= std::fabs(v); }
    else { value /= v; scale /= std::fabs(v); }
    if (!std::isfinite(scale)) scale = 0;
    scale = std::max({scale, std::fabs(v), std::fabs(value)});
    if (!std::isfinite(scale)) scale = 0;
  }
  text += space() + "\")";
  c.note() << text << " with";
  for (const auto &t : tags) c.note() << " " << t.first << "=" << t.second;
  Holder x(c, "k", text, tags);
  PBT_CHECK(c, x.declaration->isEval(), "expression is not recognized");
  double got = 0;
  bool threw = false;
  try { got = x.style.getValue("k"); } catch (const std::exception &) { threw = true; }
  // the value of an expression over a missing tag is not specified
  PBT_CHECK(c, !threw || missing, "all tags are there, but there is no value");
  if (!missing) {
    PBT_CHECK(c, near(got, value, scale), "value is " << got << ", expected " << value);
    // the same expression for another element
    PBT_CHECK(c, near(x.declaration->evaluate<double>(x.tags, x.st), value, scale), "second evaluation differs");
    if (operands.size() > 2) c.nontrivial();
  } else c.label("missing tag");
}

void concatenation(Ctx &c) {
  TextTags tags;
  std::map<std::string, std::string> has;
  for (const char *k : {"name", "addr:street", "k3"}) {
    auto v = word(c, "ab c1-", 1, 8);
    tags.emplace_back(k, v);
    has[k] = v;
  }
  std::string text = "eval(\"", expected;
  bool bad = false;
  std::size_t n = 0;
  c.repeat(1, 6, [&](std::size_t i) {
    if (i > 0) { bool other = c.chance(1, 40); text += other ? " - " : c.boolean() ? "+" : " + "; bad = bad || other; }
    ++n;
    if (c.boolean()) {
      auto k = c.pick<std::string>({"name", "addr:street", "k3"});
      text += "tag('" + k + "')";
      expected += has[k];
    } else if (c.chance(1, 6)) {
      auto v = std::to_string(c.draw(1000));
      text += v;
      expected += v;
    } else {
      auto t = word(c, "xyz_:,.+-*/ 12", 1, 8);
      if (t[0] == ' ') t[0] = 'x';
      text += "'" + t + "'";
      expected += t;
    }
  });
  text += "\")";
  c.note() << text;
  for (const auto &t : tags) c.note() << " " << t.first << "=" << t.second;
  Holder x(c, "k", text, tags);
  std::string got;
  bool threw = false;
  try { got = x.style.getString("k"); } catch (const std::exception &) { threw = true; }
  PBT_CHECK(c, threw == bad, (bad ? "texts are subtracted" : "texts are not joined"));
  if (!bad) PBT_CHECK(c, got == expected, "text is '" << got << "', expected '" << expected << "'");
  if (n > 1) c.nontrivial();
}

struct Rgb { int r, g, b; };
const std::map<std::string, Rgb> &colors() {
  static const std::map<std::string, Rgb> m = {
#include "../colors.inc"
  };
  return m;
}

std::pair<std::string, Rgb> color(Ctx &c) {
  if (c.boolean()) {
    auto it = colors().begin();
    std::advance(it, c.draw(colors().size() - 1));
    return *it;
  }
  Rgb v{static_cast<int>(c.draw(255)), static_cast<int>(c.draw(255)), static_cast<int>(c.draw(255))};
  char buffer[16];
  std::snprintf(buffer, sizeof(buffer), c.boolean() ? "#%02x%02x%02x" : "#%02X%02X%02X", v.r, v.g, v.b);
  return {buffer, v};
}

void expectColor(Ctx &c, const Color &got, double r, double g, double b, double tolerance, double time) {
  PBT_CHECK(c, std::fabs(got.r - r) <= tolerance && std::fabs(got.g - g) <= tolerance && std::fabs(got.b - b) <= tolerance && std::fabs(got.a - 255) <= tolerance,
            "colour at " << time << " is " << int(got.r) << "," << int(got.g) << "," << int(got.b) << "," << int(got.a) << ", expected " << r << "," << g << "," << b);
}

void gradients(Ctx &c) {
  std::vector<std::pair<double, Rgb>> stops;
  std::string text;
  bool single = c.chance(1, 6);
  if (single) {
    auto k = color(c);
    text = k.first;
    stops.emplace_back(0, k.second);
    PBT_CHECK(c, GradientUtils::isGradient(text), "colour is not recognized");
    auto parsed = GradientUtils::parseColor(text);
    expectColor(c, parsed, k.second.r, k.second.g, k.second.b, 0, -1);
    auto packed = static_cast<std::uint32_t>(parsed);
    PBT_CHECK(c, packed == ((std::uint32_t(k.second.r) << 24) | (std::uint32_t(k.second.g) << 16) | (std::uint32_t(k.second.b) << 8) | 255u), "packed colour is " << packed);
    expectColor(c, Color(static_cast<int>(packed)), k.second.r, k.second.g, k.second.b, 0, -1);
  } else {
    std::set<int> times;
    int from = c.chance(1, 4) ? static_cast<int>(c.integer(0, 60)) : -1, to = c.chance(1, 4) ? static_cast<int>(c.integer(70, 100)) : -1;
    c.repeat(0, 5, [&](std::size_t) { times.insert(static_cast<int>(c.integer(std::max(1, from + 1), to < 0 ? 99 : to - 1))); });
    std::vector<std::pair<std::string, int>> parts;
    auto add = [&](int t, int implied) {
      auto k = color(c);
      stops.emplace_back((t < 0 ? implied : t)/100.0, k.second);
      text += (text.empty() ? "" : c.boolean() ? ", " : ",") + k.first + (t < 0 ? "" : " " + std::to_string(t) + "%");
    };
    add(from, 0);
    for (int t : times) add(t, t);
    add(to, 100);
    text = "gradient(" + text + ")";
    PBT_CHECK(c, GradientUtils::isGradient(text), "gradient is not recognized");
  }
  c.note() << text;
  auto gradient = pbt::noThrow("gradient", [&] { return GradientUtils::parseGradient(text); });
  PBT_CHECK(c, !gradient->empty(), "no colours");
  auto verify = [&](const ColorGradient &g, double t) {
    std::size_t i = 0;
    while (i < stops.size() && stops[i].first < t) ++i;
    if (i == stops.size()) return expectColor(c, g.evaluate(t), stops.back().second.r, stops.back().second.g, stops.back().second.b, 0, t);
    const auto &b = stops[i];
    if (i == 0 || b.first == t) return expectColor(c, g.evaluate(t), b.second.r, b.second.g, b.second.b, 0, t);
    const auto &a = stops[i - 1];
    double m = (t - a.first)/(b.first - a.first);
    auto mix = [m](int x, int y) { return x*(1 - m) + y*m; };
    expectColor(c, g.evaluate(t), mix(a.second.r, b.second.r), mix(a.second.g, b.second.g), mix(a.second.b, b.second.b), 2, t);
  };
  std::vector<double> at;
  for (const auto &s : stops) at.push_back(s.first);
  for (int i = 0; i < 12; ++i) at.push_back(c.real(0, 1));
  at.push_back(0);
  at.push_back(1);
  for (double t : at) verify(*gradient, t);
  // through a stylesheet
  Holder x(c, "color", text, {});
  auto styles = pbt::noThrow("stylesheet", [&] { return provider("node|z1[a]{ color: " + text + "; }", x.st); });
  const auto &g = GradientUtils::evaluateGradient(*styles, x.style, "color");
  for (double t : at) verify(g, t);
  if (stops.size() > 2) c.nontrivial();
  c.label(single ? "one colour" : "gradient");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C10", {
    {"units", "decimal numbers, plain, metres and percent, alone, relative to a size and in a box anywhere on the map; non-trivial: the number is not 0", 120000, 3000000, units},
    {"texts", "printable texts; non-trivial: the text does not start like a number", 60000, 1000000, texts},
    {"arithmetic", "expressions of up to 7 numbers, tags and texts with all operators, evaluated from left to right; non-trivial: at least two operators and all tags there", 150000, 4000000, arithmetic},
    {"concatenation", "texts, tags and whole numbers joined by +; non-trivial: at least one +", 80000, 1500000, concatenation},
    {"gradients", "single colours (all names, hexadecimal) and gradients of 2 to 7 colours with explicit or implied positions, evaluated at all positions and between; non-trivial: more than two colours", 150000, 2000000, gradients},
  });
}
