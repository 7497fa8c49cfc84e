// C13: import of GeoJSON tiles and shape files.
#include "model.hpp"

#include "formats/osm/OsmDataVisitor.hpp"
#include "formats/osm/json/OsmJsonParser.hpp"
#include "formats/shape/ShapeDataVisitor.hpp"
#include "formats/shape/ShapeParser.hpp"

using namespace model;
using pbt::Ctx;

namespace {

typedef std::pair<double, double> Point;   // latitude, longitude
typedef std::vector<Point> Line;

std::string tagsText(TextTags t) {
  std::sort(t.begin(), t.end());
  std::string s = "{";
  for (const auto &x : t) s += x.first + "=" + x.second + ";";
  return s + "}";
}

std::string pointText(double lat, double lon) { char b[80]; std::snprintf(b, sizeof b, "(%.17g %.17g)", lat, lon); return b; }

std::string lineText(const Line &l) { std::string s; for (const auto &p : l) s += pointText(p.first, p.second); return s; }

struct Renderer : utymap::entities::ElementVisitor {
  const StringTable &st;
  std::string out;
  explicit Renderer(const StringTable &st) : st(st) {}
  void head(const char *kind, const Element &e) {
    TextTags t;
    for (std::size_t i = 0; i < e.tags.size(); ++i) {
      if (i > 0 && e.tags[i].key < e.tags[i - 1].key) throw pbt::Failure("tags are not sorted by key");
      t.emplace_back(*st.getString(e.tags[i].key), *st.getString(e.tags[i].value));
    }
    out += kind + std::to_string(e.id) + tagsText(t);
  }
  void line(const std::vector<GeoCoordinate> &v) { for (const auto &g : v) out += pointText(g.latitude, g.longitude); }
  void visitNode(const Node &e) override { head("node", e); out += pointText(e.coordinate.latitude, e.coordinate.longitude); }
  void visitWay(const Way &e) override { head("way", e); line(e.coordinates); }
  void visitArea(const Area &e) override { head("area", e); line(e.coordinates); }
  void visitRelation(const Relation &e) override {
    head("relation", e);
    out += "[";
    for (const auto &m : e.elements) { m->accept(*this); out += " "; }
    out += "]";
  }
};

std::string rendered(const Element &e, const StringTable &st) { Renderer r(st); e.accept(r); return r.out; }

// ---- GeoJSON ---------------------------------------------------------------------------------------------------------
struct Json {
  Ctx &c;
  std::vector<std::string> expected;
  explicit Json(Ctx &c) : c(c) {}

  std::string ws() { return c.chance(1, 6) ? c.pick<std::string>({" ", "\n", "\t ", "  \r\n"}) : ""; }

  std::string quote(const std::string &text) {
    std::string s = "\"";
    for (std::size_t i = 0; i < text.size(); ++i) {
      unsigned char ch = static_cast<unsigned char>(text[i]);
      if (ch == '"' || ch == '\\') { s += '\\'; s += static_cast<char>(ch); }
      else if (ch == '/' && c.chance(1, 3)) s += "\\/";
      else if (ch == '\n') s += "\\n";
      else if (ch == '\t') s += "\\t";
      else if (ch < 0x80 && ch > ' ' && c.chance(1, 20)) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); s += b; }
      else s += static_cast<char>(ch);
    }
    return s + "\"";
  }

  /// Word with some characters which are not ASCII.
  std::string unicode(const std::string &alphabet, std::size_t min, std::size_t max) {
    std::string s;
    for (char ch : word(c, alphabet + "\x01\x02", min, max)) s += ch == 1 ? "\xc3\xa4" : ch == 2 ? "\xe2\x82\xac" : std::string(1, ch);
    return s;
  }

  std::string number(double *value, double limit) {
    std::string s;
    char b[60];
    switch (c.draw(4)) {
      case 0: std::snprintf(b, sizeof b, "%d", static_cast<int>(c.integer(static_cast<int>(-limit), static_cast<int>(limit)))); s = b; break;
      case 1: std::snprintf(b, sizeof b, "%.15g", c.real(-limit, limit)); s = b; break;
      case 2: std::snprintf(b, sizeof b, "%.3e", c.real(-limit, limit)); s = b; break;
      case 3: std::snprintf(b, sizeof b, "%.17g", c.real(-limit, limit)); s = b; break;
      default: std::snprintf(b, sizeof b, "%.6f", c.real(-limit, limit)); s = b;
    }
    *value = std::strtod(s.c_str(), nullptr);
    return s;
  }

  std::string point(Line &l) {
    Point p;
    std::string x = number(&p.second, 180), y = number(&p.first, 85);
    l.push_back(p);
    return "[" + ws() + x + ws() + "," + ws() + y + ws() + "]";
  }

  template<typename F>
  std::string list(std::size_t min, std::size_t max, F f) {
    std::string s = "[" + ws();
    c.repeat(min, max, [&](std::size_t i) { if (i) s += "," + ws(); s += f(); s += ws(); });
    return s + "]";
  }

  std::string line(Line &l, std::size_t min, bool closed) {
    std::string first;
    auto s = list(min, 8, [&] { auto t = point(l); if (first.empty()) first = t; return t; });
    if (closed && l.size() > 2) { s.pop_back(); s += "," + first + "]"; l.push_back(l[0]); }
    return s;
  }

  static Line reversed(Line l) { std::reverse(l.begin(), l.end()); return l; }

  /// What a list of lines or rings becomes.
  static std::vector<std::pair<std::string, Line>> parts(const std::vector<Line> &lines) {
    std::vector<std::pair<std::string, Line>> v;
    for (const auto &l : lines) v.emplace_back(l.size() > 3 && l.front() == l.back() ? "area" : "way", reversed(l));
    return v;
  }
  static std::string members(const std::vector<std::pair<std::string, Line>> &v) {
    std::string s = "[";
    for (const auto &p : v) s += p.first + "0{}" + lineText(p.second) + " ";
    return s + "]";
  }

  std::string feature(const std::string &layer) {
    std::string geometry, kind;
    std::string properties = "{" + ws();
    TextTags tags;
    std::uint64_t id = 0;
    std::set<std::string> keys;
    c.repeat(0, 6, [&](std::size_t i) {
      std::string key = c.chance(1, 4) ? unicode("abc.:_ /\"\\", 1, 6) : c.pick<std::string>({"kind", "name", "id", "height", "a.b", "k1"}), value, text;
      if (key == "feature" || !keys.insert(key).second) return;
      if (key == "id") {
        id = c.chance(1, 4) ? c.draw(~std::uint64_t(0)) : c.draw(100000);
        text = std::to_string(id);
        if (c.chance(1, 4)) text = "-" + text;
        if (c.chance(1, 6)) { text = "\"\""; id = 0; }
        else if (c.chance(1, 4)) text = quote(text);
      } else {
        switch (c.draw(3)) {
          case 0: value = unicode("abcXYZ 0123456789.:;,/\"\\{}[]\n", 0, 12); text = quote(value); break;
          case 1: value = text = std::to_string(c.integer(-100000, 100000)); break;
          case 2: { double d; value = text = number(&d, 1000); break; }
          default: value = text = c.pick<std::string>({"true", "false", "null"});
        }
        tags.emplace_back(key, value);
      }
      properties += (properties.find(':') != std::string::npos ? "," : "") + ws() + quote(key) + ws() + ":" + ws() + text + ws();
      (void) i;
    });
    properties += "}";
    if (tags.empty() && id == 0 && keys.empty() && c.chance(1, 3)) properties = "null";
    tags.emplace_back("feature", layer);
    auto head = std::to_string(id) + tagsText(tags);
    switch (c.draw(4)) {
      case 0: {
        kind = "Point";
        Line l;
        geometry = point(l);
        expected.push_back("node" + head + lineText(l));
        break;
      }
      case 1: {
        kind = "LineString";
        Line l;
        geometry = line(l, 1, c.chance(1, 4));
        expected.push_back("way" + head + lineText(reversed(l)));
        break;
      }
      case 2: case 3: {
        bool polygon = c.boolean();
        kind = polygon ? "Polygon" : "MultiLineString";
        std::vector<Line> lines;
        geometry = list(1, 4, [&] { lines.emplace_back(); return line(lines.back(), polygon ? 3 : 1, polygon || c.chance(1, 4)); });
        auto v = parts(lines);
        if (v.size() == 1) expected.push_back(v[0].first + head + lineText(v[0].second));
        else expected.push_back("relation" + head + members(v));
        break;
      }
      default: {
        kind = "MultiPolygon";
        std::string s;
        geometry = list(1, 4, [&] {
          std::vector<Line> lines;
          auto t = list(1, 3, [&] { lines.emplace_back(); return line(lines.back(), 3, true); });
          auto v = parts(lines);
          if (v.size() == 1) s += v[0].first + "0{}" + lineText(v[0].second) + " ";
          else s += "relation0{}" + members(v) + " ";
          return t;
        });
        expected.push_back("relation" + head + "[" + s + "]");
      }
    }
    c.label(kind);
    std::string g = "\"geometry\":" + ws() + (c.boolean() ? "{\"type\":\"" + kind + "\"," + ws() + "\"coordinates\":" + geometry + "}"
                                                          : "{\"coordinates\":" + geometry + ",\"type\":" + ws() + "\"" + kind + "\"}");
    std::string p = "\"properties\":" + ws() + properties;
    return "{\"type\":\"Feature\"," + (c.boolean() ? g + "," + p : p + "," + ws() + g) + (c.chance(1, 6) ? ",\"clipped\":true" : "") + "}";
  }

  std::string document() {
    std::string s = ws() + "{" + ws();
    std::set<std::string> names;
    c.repeat(1, 4, [&](std::size_t) {
      std::string name = c.chance(1, 3) ? word(c, "abc._- ", 1, 8) : c.pick<std::string>({"water", "roads", "buildings", "pois", "land.use"});
      if (!names.insert(name).second) return;
      if (names.size() > 1) s += "," + ws();
      s += quote(name) + ":" + ws() + "{\"type\":\"FeatureCollection\",\"features\":" + list(0, 5, [&] { return feature(name); }) + ws() + "}" + ws();
    });
    return s + "}" + ws();
  }
};

void json(Ctx &c) {
  Json g(c);
  auto text = g.document();
  c.note() << text;
  StringTable st(c.tmpDir());
  std::vector<std::string> got;
  utymap::CancellationToken token;
  pbt::noThrow("parse", [&] {
    utymap::formats::OsmDataVisitor visitor(st, [&](Element &e) { got.push_back(rendered(e, st)); return true; }, token);
    std::istringstream stream(text);
    utymap::formats::OsmJsonParser<utymap::formats::OsmDataVisitor>(st).parse(stream, visitor);
    visitor.complete();
  });
  PBT_CHECK(c, got == g.expected, difference(g.expected, got));
  if (got.size() > 1) c.nontrivial();
}

// ---- shape files -----------------------------------------------------------------------------------------------------
struct Bytes {
  std::string s;
  void le32(std::int64_t v) { for (int i = 0; i < 4; ++i) s += static_cast<char>((static_cast<std::uint32_t>(v) >> (8*i)) & 0xff); }
  void be32(std::int64_t v) { for (int i = 3; i >= 0; --i) s += static_cast<char>((static_cast<std::uint32_t>(v) >> (8*i)) & 0xff); }
  void le16(int v) { s += static_cast<char>(v & 0xff); s += static_cast<char>((v >> 8) & 0xff); }
  void f64(double v) { char b[8]; std::memcpy(b, &v, 8); s.append(b, 8); }
};

enum Base { PointType, ArcType, PolygonType, MultiPointType };
enum Suffix { Flat, WithZ, WithM };

struct Shape {
  Base base = PointType;
  Suffix suffix = Flat;
  bool null = false;
  std::vector<Line> parts;
};

int typeCode(const Shape &s) {
  static const int flat[] = {1, 3, 5, 8};
  return flat[s.base] + (s.suffix == WithZ ? 10 : s.suffix == WithM ? 20 : 0);
}

std::string record(Ctx &c, const Shape &s) {
  Bytes b;
  b.le32(s.null ? 0 : typeCode(s));
  if (s.null) return b.s;
  Line all;
  for (const auto &p : s.parts) all.insert(all.end(), p.begin(), p.end());
  if (s.base == PointType) {
    b.f64(all[0].second); b.f64(all[0].first);
    if (s.suffix == WithZ) { b.f64(12.5); if (c.boolean()) b.f64(3); }
    if (s.suffix == WithM) b.f64(7);
    return b.s;
  }
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (const auto &p : all) { lo[0] = std::min(lo[0], p.second); lo[1] = std::min(lo[1], p.first); hi[0] = std::max(hi[0], p.second); hi[1] = std::max(hi[1], p.first); }
  b.f64(lo[0]); b.f64(lo[1]); b.f64(hi[0]); b.f64(hi[1]);
  if (s.base != MultiPointType) b.le32(static_cast<std::int64_t>(s.parts.size()));
  b.le32(static_cast<std::int64_t>(all.size()));
  if (s.base != MultiPointType) {
    std::int64_t at = 0;
    for (const auto &p : s.parts) { b.le32(at); at += static_cast<std::int64_t>(p.size()); }
  }
  for (const auto &p : all) { b.f64(p.second); b.f64(p.first); }
  auto range = [&] { b.f64(-1); b.f64(1); for (std::size_t i = 0; i < all.size(); ++i) b.f64(static_cast<double>(i)); };
  if (s.suffix == WithZ) range();
  if (s.suffix == WithM || (s.suffix == WithZ && c.boolean())) range();
  return b.s;
}

std::string header(int type, std::size_t bytes) {
  Bytes b;
  b.be32(9994);
  for (int i = 0; i < 5; ++i) b.be32(0);
  b.be32(static_cast<std::int64_t>(bytes/2));
  b.le32(1000);
  b.le32(type);
  b.f64(-180); b.f64(-90); b.f64(180); b.f64(90);
  for (int i = 0; i < 4; ++i) b.f64(0);
  return b.s;
}

struct Field { std::string name; char type; int width, decimals; };

/// Attribute value as stored and as tag; absent when it is not given.
struct Value { std::string stored, text; bool given; double number; bool numeric; };

Value value(Ctx &c, const Field &f) {
  Value v{"", "", true, 0, false};
  auto pad = [&](const std::string &s, bool right) {
    return right ? std::string(static_cast<std::size_t>(f.width) - s.size(), ' ') + s : s + std::string(static_cast<std::size_t>(f.width) - s.size(), ' ');
  };
  if (c.chance(1, 6)) {
    v.given = false;
    v.stored = f.type == 'L' ? "?" : f.type == 'N' && c.boolean() ? std::string(static_cast<std::size_t>(f.width), '*') : std::string(static_cast<std::size_t>(f.width), f.type == 'D' ? '0' : ' ');
    return v;
  }
  switch (f.type) {
    case 'C': {
      auto s = word(c, "abcXYZ0123456789 .,:;-_/\"'=\xc3\xa4", 1, static_cast<std::size_t>(f.width));
      if (s.front() == ' ') s.front() = 'x';
      if (s.back() == ' ') s.back() = 'x';
      v.text = s;
      v.stored = pad(s, c.chance(1, 4));
      break;
    }
    case 'D': v.text = v.stored = "20181124"; break;
    case 'L': v.text = v.stored = c.pick<std::string>({"T", "F", "Y", "N"}); break;
    default: {
      v.numeric = true;
      std::string s;
      if (f.decimals == 0) {
        std::int64_t limit = 1;
        for (int i = 0; i < std::min(f.width, 15); ++i) limit *= 10;
        auto n = c.boolean() ? c.small(0, limit - 1) : c.integer(0, limit - 1);
        if (c.chance(1, 3) && f.width > 1) n = -(n/10);
        s = std::to_string(n);
      } else {
        char b[80];
        double limit = std::pow(10, f.width - f.decimals - 2);
        std::snprintf(b, sizeof b, "%.*f", f.decimals, c.real(-limit, limit)*0.99);
        s = b;
      }
      v.number = std::strtod(s.c_str(), nullptr);
      if (f.decimals == 0) v.text = s == "-0" ? "0" : s;
      v.stored = pad(s, true);
    }
  }
  return v;
}

void shapes(Ctx &c) {
  auto dir = c.tmpDir();
  Base base = c.pick({PointType, ArcType, PolygonType, PointType, ArcType, PolygonType, MultiPointType});
  Suffix suffix = c.pick({Flat, Flat, WithZ, WithM});
  std::vector<Field> fields;
  std::set<std::string> names;
  c.repeat(1, 5, [&](std::size_t) {
    Field f{c.chance(1, 3) ? word(c, "ABCabc_0123", 1, 10) : c.pick<std::string>({"NAME", "osm_id", "HEIGHT", "KIND", "FEATURECLA"}), c.pick({'C', 'N', 'N', 'F', 'D', 'L'}), 1, 0};
    if (!names.insert(f.name).second) return;
    if (f.type == 'C') f.width = static_cast<int>(c.chance(1, 6) ? c.integer(1, 254) : c.integer(1, 20));
    if (f.type == 'D') f.width = 8;
    if (f.type == 'N' || f.type == 'F') {
      f.width = static_cast<int>(c.integer(1, 19));
      if (f.width > 4 && c.boolean()) f.decimals = static_cast<int>(c.integer(1, std::min(f.width - 3, 12)));
    }
    fields.push_back(f);
  });
  std::vector<Shape> records;
  std::vector<std::vector<Value>> values;
  c.repeat(0, 8, [&](std::size_t) {
    Shape s;
    s.base = base;
    s.suffix = suffix;
    s.null = c.chance(1, 10);
    auto point = [&] { return Point(c.chance(1, 8) ? c.grid(-85, 85, 4) : c.real(-85, 85), c.chance(1, 8) ? c.grid(-180, 180, 4) : c.real(-180, 180)); };
    std::size_t parts = base == ArcType ? (c.chance(1, 5) ? 2 : 1) : base == PolygonType ? 1 + static_cast<std::size_t>(c.small(0, 5)) : 1;
    while (s.parts.size() < parts) {
      Line l;
      c.repeat(base == PolygonType ? 3 : base == ArcType ? 2 : 1, base == PointType ? 1 : 9, [&](std::size_t) { l.push_back(point()); });
      if (base == PolygonType || (base == ArcType && l.size() > 2 && c.chance(1, 4))) l.push_back(l[0]);
      s.parts.push_back(l);
    }
    records.push_back(s);
    values.emplace_back();
    for (const auto &f : fields) values.back().push_back(value(c, f));
  });

  // files
  Shape sample;
  sample.base = base;
  sample.suffix = suffix;
  std::string shp, shx;
  Bytes index;
  for (std::size_t i = 0; i < records.size(); ++i) {
    auto r = record(c, records[i]);
    Bytes h;
    h.be32(static_cast<std::int64_t>(i + 1));
    h.be32(static_cast<std::int64_t>(r.size()/2));
    index.be32(static_cast<std::int64_t>((100 + shp.size())/2));
    index.be32(static_cast<std::int64_t>(r.size()/2));
    shp += h.s + r;
  }
  writeFile(dir + "x.shp", header(typeCode(sample), 100 + shp.size()) + shp);
  writeFile(dir + "x.shx", header(typeCode(sample), 100 + index.s.size()) + index.s);
  Bytes d;
  int width = 1;
  for (const auto &f : fields) width += f.width;
  d.s += '\x03'; d.s += std::string("\x76\x0b\x13", 3);
  d.le32(static_cast<std::int64_t>(records.size()));
  d.le16(static_cast<int>(32*fields.size() + 33));
  d.le16(width);
  d.s.append(20, '\0');
  for (const auto &f : fields) {
    auto n = f.name;
    n.resize(11, '\0');
    d.s += n; d.s += f.type; d.le32(0);
    d.s += static_cast<char>(f.width); d.s += static_cast<char>(f.decimals);
    d.s.append(14, '\0');
  }
  d.s += '\x0d';
  for (const auto &r : values) { d.s += ' '; for (const auto &v : r) d.s += v.stored; }
  if (c.boolean()) d.s += '\x1a';
  writeFile(dir + "x.dbf", d.s);

  // expectation: numbers with a fraction are compared by value
  struct Expected { std::string geometry; std::vector<Value> values; };
  std::vector<Expected> expected;
  for (std::size_t i = 0; i < records.size(); ++i) {
    const auto &s = records[i];
    c.note() << (s.null ? "null" : std::to_string(typeCode(s)));
    for (const auto &p : s.parts) c.note() << " /" << lineText(p);
    for (std::size_t k = 0; k < fields.size(); ++k) c.note() << " " << fields[k].name << ":" << fields[k].type << fields[k].width << "." << fields[k].decimals << "'" << values[i][k].stored << "'";
    c.note() << "\n";
    if (s.null || base == MultiPointType || (base == ArcType && s.parts.size() > 1)) { c.label("skipped"); continue; }
    std::string g;
    switch (base) {
      case PointType: g = "node " + lineText(s.parts[0]); break;
      case ArcType: g = (s.parts[0].front() == s.parts[0].back() ? "area " : "way ") + lineText(s.parts[0]); break;
      default:
        g = "relation [";
        for (const auto &p : s.parts) g += "area0{}" + lineText(p) + " ";
        g += "]";
    }
    expected.push_back({g, values[i]});
  }

  StringTable st(dir);
  utymap::CancellationToken token;
  std::size_t n = 0;
  pbt::noThrow("parse", [&] {
    std::stringstream quiet;
    auto old = std::cerr.rdbuf(quiet.rdbuf());
    struct Restore { std::streambuf *b; ~Restore() { std::cerr.rdbuf(b); } } restore{old};
    utymap::formats::ShapeDataVisitor visitor(st, [&](Element &e) {
      PBT_CHECK(c, n < expected.size(), "more elements than records");
      const auto &x = expected[n];
      for (std::size_t i = 1; i < e.tags.size(); ++i) PBT_CHECK(c, !(e.tags[i].key < e.tags[i - 1].key), "tags are not sorted by key");
      std::map<std::string, std::string> got;
      for (const auto &t : e.tags) PBT_CHECK(c, got.emplace(*st.getString(t.key), *st.getString(t.value)).second, "attribute " << *st.getString(t.key) << " twice");
      std::size_t given = 0;
      for (std::size_t k = 0; k < fields.size(); ++k) {
        const auto &v = x.values[k];
        auto it = got.find(fields[k].name);
        PBT_CHECK(c, (it != got.end()) == v.given, "attribute " << fields[k].name << (v.given ? " is lost" : " is not given, but there is a tag"));
        if (!v.given) continue;
        ++given;
        bool same = v.numeric ? std::strtod(it->second.c_str(), nullptr) == v.number : it->second == v.text;
        PBT_CHECK(c, same, "attribute " << fields[k].name << " '" << v.stored << "' is " << it->second);
      }
      PBT_CHECK(c, given == got.size(), "there are other tags: " << got.size());
      e.tags.clear();
      auto text = rendered(e, st);
      PBT_CHECK(c, e.id == 0, "identifier " << e.id);
      auto k = text.find("0{}");
      text = text.substr(0, k) + " " + text.substr(k + 3);
      PBT_CHECK(c, text == x.geometry, difference({x.geometry}, {text}));
      ++n;
      return true;
    }, token);
    utymap::formats::ShapeParser<utymap::formats::ShapeDataVisitor>().parse(dir + "x.shp", visitor);
  });
  PBT_CHECK(c, n == expected.size(), n << " elements for " << expected.size() << " records");
  if (n > 1) c.nontrivial();
  c.label(std::to_string(typeCode(sample)));
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C13", {
    {"json", "documents of up to 4 collections of up to 5 features of all six geometry types with up to 6 properties (texts, numbers, literals, identifiers, escapes, dots in names), any layout; non-trivial: two features", 60000, 2000000, json},
    {"shapes", "shp, shx and dbf files written byte by byte: all point, polyline, polygon and multi point types with Z and M variants, null records, up to 5 attributes of all types and widths, also not given; non-trivial: two elements", 60000, 2000000, shapes},
  });
}
