// C15: malformed input.
#include "osm.hpp"
#include "style.hpp"

#include "formats/osm/json/OsmJsonParser.hpp"
#include "formats/shape/ShapeDataVisitor.hpp"
#include "formats/shape/ShapeParser.hpp"
#include "lsys/LSystemParser.hpp"
#include "mapcss/TextureAtlasParser.hpp"
#include "utils/GradientUtils.hpp"

#include <dirent.h>

using namespace osm;

namespace {

struct Quiet {
  std::stringstream sink;
  std::streambuf *err, *out;
  Quiet() : err(std::cerr.rdbuf(sink.rdbuf())), out(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(err); std::cout.rdbuf(out); }
};

/// Runs a parser: an ordinary error is fine.
template<typename F>
bool survives(Ctx &c, F f) {
  Quiet quiet;
  try {
    f();
    c.label("accepted");
    return true;
  } catch (const pbt::Failure &) {
    throw;
  } catch (const std::exception &) {
    c.label("rejected");
  }
  return false;
}

/// Number of open files of this process.
std::size_t descriptors() {
  std::size_t count = 0;
  if (auto *d = ::opendir("/proc/self/fd")) {
    while (::readdir(d)) ++count;
    ::closedir(d);
  }
  return count;
}

// ---- mutations -------------------------------------------------------------------------------------------------------
const std::vector<std::string> Numbers = {"0", "-1", "1", "65536", "2147483647", "-2147483648", "4294967296", "9223372036854775807", "18446744073709551615",
                                          "99999999999999999999999", "1e308", "1e999", "-1e999", "nan", "inf", "0.0000000001", "-0", ".", "-", "+", "1e", "0x10", "256", "1e9"};

std::string mutate(Ctx &c, std::string s, const std::vector<std::string> &tokens, std::size_t most = 6) {
  c.repeat(1, most, [&](std::size_t) {
    auto at = [&] { return static_cast<std::size_t>(c.draw(s.size())); };
    auto length = [&](std::size_t from) { return static_cast<std::size_t>(c.small(0, static_cast<std::int64_t>(s.size() - from))); };
    switch (c.draw(9)) {
      case 0: if (!s.empty()) s[c.draw(s.size() - 1)] = static_cast<char>(c.draw(255)); break;
      case 1: if (!s.empty()) s[c.draw(s.size() - 1)] ^= static_cast<char>(1 << c.draw(7)); break;
      case 2: { auto a = at(); s.erase(a, length(a)); break; }
      case 3: { auto a = at(); auto part = s.substr(a, length(a)); if (s.size() < 20000) s.insert(at(), part); break; }
      case 4: case 5: s.insert(at(), c.pick(tokens)); break;
      case 6: { auto a = at(); s.resize(a); break; }
      case 7: {
        // another number
        std::vector<std::size_t> digits;
        for (std::size_t i = 0; i < s.size(); ++i) if (std::isdigit(static_cast<unsigned char>(s[i])) && (i == 0 || !std::isdigit(static_cast<unsigned char>(s[i - 1])))) digits.push_back(i);
        if (digits.empty()) break;
        auto a = c.pick(digits), b = a;
        while (b < s.size() && (std::isdigit(static_cast<unsigned char>(s[b])) || s[b] == '.')) ++b;
        s.replace(a, b - a, c.pick(Numbers));
        break;
      }
      case 8: {
        // a token of the document elsewhere
        auto a = at();
        auto b = a;
        while (b < s.size() && b - a < 40 && s[b] != '>' && s[b] != ',' && s[b] != ';' && s[b] != '\n') ++b;
        auto t = s.substr(a, b - a + 1);
        s.insert(at(), t);
        break;
      }
      default: s.insert(at(), std::string(static_cast<std::size_t>(c.small(1, 500)), static_cast<char>(c.draw(255))));
    }
  });
  return s;
}

std::string noise(Ctx &c, const std::string &alphabet, std::size_t max) {
  std::string s;
  auto n = static_cast<std::size_t>(c.small(0, static_cast<std::int64_t>(max)));
  bool any = c.boolean();
  for (std::size_t i = 0; i < n; ++i) s += any ? static_cast<char>(c.draw(255)) : alphabet[c.draw(alphabet.size() - 1)];
  return s;
}

void show(Ctx &c, const std::string &s) {
  static const char *hex = "0123456789abcdef";
  std::string t;
  for (unsigned char ch : s) {
    if (ch == '\n' || (ch >= ' ' && ch < 127 && ch != '\\')) t += static_cast<char>(ch);
    else { t += "\\x"; t += hex[ch >> 4]; t += hex[ch & 15]; }
    if (t.size() > 6000) { t += "..."; break; }
  }
  c.note() << t << "\n";
}

template<typename Parse>
void osmImport(Ctx &c, Parse parse) {
  StringTable st(c.tmpDir());
  utymap::CancellationToken token;
  survives(c, [&] {
    utymap::formats::OsmDataVisitor visitor(st, [&](Element &e) { render(e, st); return true; }, token);
    parse(visitor);
    visitor.complete();
  });
}

/// Small data with relations of all kinds.
Data data(Ctx &c) {
  Generator g(c);
  g.nodes(8);
  if (g.d.nodes.size() < 4) for (int i = 0; i < 4; ++i) g.d.nodes.push_back({g.id(g.nodeIds), i%2*Unit, i/2*Unit, {}});
  g.ways(5, true);
  if (g.d.ways.empty()) g.d.ways.push_back({g.id(g.wayIds), {g.d.nodes[0].id, g.d.nodes[1].id, g.d.nodes[2].id, g.d.nodes[0].id}, {}});
  c.repeat(1, 4, [&](std::size_t) {
    R r{g.id(g.relationIds), {}, g.tags(1)};
    auto type = c.pick<std::string>({"multipolygon", "multipolygon", "building", ""});
    if (!type.empty()) r.tags.emplace_back("type", type);
    c.repeat(1, 6, [&](std::size_t) {
      M m{c.pick({'w', 'w', 'r', 'n'}), 0, c.pick<std::string>({"outer", "inner", "outer", "", "outline"})};
      m.id = m.type == 'w' ? c.pick(g.d.ways).id : m.type == 'n' ? c.pick(g.d.nodes).id : g.d.relations.empty() ? r.id : c.pick(g.d.relations).id;
      if (c.chance(1, 8)) m.id = c.draw(20);
      r.members.push_back(m);
    });
    g.d.relations.push_back(r);
  });
  return g.d;
}

const std::vector<std::string> XmlTokens = {"<", ">", "/>", "\"", "</", "&", "&amp;", "&#", "&#x;", "&#99999999999;", "&;", "<node", "<way", "<relation", "<tag k=\"a\" v=\"b\"/>", "</node>",
  "<nd ref=\"1\"/>", "<member type=\"way\" ref=\"1\" role=\"outer\"/>", "id=\"", "lat=\"", "<!-- -->", "<![CDATA[", "<osm>", "</osm>", "<?xml?>", std::string(1, '\0'), "\n", " "};

void xml(Ctx &c) {
  std::string text = c.chance(1, 10) ? noise(c, "<>/\"= abnode=12&;?osm", 300) : mutate(c, osm::write(c, Form::Xml, data(c)), XmlTokens);
  show(c, text);
  c.nontrivial();
  osmImport(c, [&](utymap::formats::OsmDataVisitor &v) { parse(Form::Xml, text, v); });
}

/// Data without mutation of the text, but odd: repeated members, degenerate rings, rings which touch or repeat.
void odd(Ctx &c) {
  Generator g(c);
  auto n = 3 + c.draw(6);
  bool flat = c.chance(1, 6);
  for (std::uint64_t i = 0; i < n; ++i) g.d.nodes.push_back({i, flat ? 0 : c.integer(-2, 2)*(c.boolean() ? Unit : 1), c.integer(-2, 2)*Unit, {}});
  c.repeat(1, 6, [&](std::size_t i) {
    W w{i, {}, g.tags(1)};
    c.repeat(1, 7, [&](std::size_t) { w.refs.push_back(c.draw(n - 1)); });
    if (c.boolean()) w.refs.push_back(w.refs[0]);
    g.d.ways.push_back(w);
  });
  auto k = 1 + c.draw(3);
  for (std::uint64_t i = 0; i < k; ++i) {
    R r{i, {}, {}};
    r.tags.emplace_back("type", c.pick<std::string>({"multipolygon", "multipolygon", "multipolygon", "building", "x"}));
    c.repeat(1, 8, [&](std::size_t) { r.members.push_back({c.pick({'w', 'w', 'w', 'r', 'n'}), c.draw(7), c.pick<std::string>({"outer", "inner", "outer", "outline", ""})}); });
    g.d.relations.push_back(r);
  }
  c.note() << osm::show(g.d);
  c.nontrivial();
  auto text = osm::write(c, Form::Xml, g.d);
  osmImport(c, [&](utymap::formats::OsmDataVisitor &v) { parse(Form::Xml, text, v); });
}

// ---- PBF -------------------------------------------------------------------------------------------------------------
struct Block { OSMPBF::BlobHeader header; OSMPBF::Blob blob; std::string content; };

std::vector<Block> blocks(const std::string &bytes) {
  std::vector<Block> v;
  std::size_t at = 0;
  while (at + 4 <= bytes.size()) {
    std::uint32_t n = 0;
    for (int i = 0; i < 4; ++i) n = n*256 + static_cast<unsigned char>(bytes[at + static_cast<std::size_t>(i)]);
    Block b;
    b.header.ParseFromString(bytes.substr(at + 4, n));
    at += 4 + n;
    b.blob.ParseFromString(bytes.substr(at, static_cast<std::size_t>(b.header.datasize())));
    at += static_cast<std::size_t>(b.header.datasize());
    if (b.blob.has_raw()) b.content = b.blob.raw();
    else {
      b.content.resize(static_cast<std::size_t>(b.blob.raw_size()));
      uLongf size = b.content.size();
      uncompress(reinterpret_cast<Bytef *>(&b.content[0]), &size, reinterpret_cast<const Bytef *>(b.blob.zlib_data().data()), b.blob.zlib_data().size());
    }
    v.push_back(b);
  }
  return v;
}

int oddIndex(Ctx &c) { return static_cast<int>(c.pick<std::int64_t>({0, 1, 2, 5, 100, 2147483647, -1, -2147483647, 65536, 20})); }

template<typename T> void shorten(Ctx &c, T *repeated) {
  if (!repeated->empty()) { auto n = c.draw(repeated->size()); while (static_cast<std::uint64_t>(repeated->size()) > n) repeated->RemoveLast(); }
}
template<typename T> void change(Ctx &c, T *repeated) {
  if (!repeated->empty()) repeated->Set(static_cast<int>(c.draw(repeated->size() - 1)), static_cast<std::decay_t<decltype(repeated->Get(0))>>(oddIndex(c)));
}
template<typename T> void either(Ctx &c, T *repeated) { if (c.boolean()) shorten(c, repeated); else change(c, repeated); }

void corrupt(Ctx &c, OSMPBF::PrimitiveBlock &b) {
  switch (c.draw(12)) {
    case 0: { auto s = b.mutable_stringtable()->mutable_s(); while (s->size() > 0 && !c.chance(1, 3)) s->RemoveLast(); return; }
    case 1: b.set_granularity(oddIndex(c)); return;
    case 2: b.set_lat_offset(c.pick<std::int64_t>({std::numeric_limits<std::int64_t>::max(), std::numeric_limits<std::int64_t>::min(), 1000000000000000000})); return;
    default: break;
  }
  if (b.primitivegroup_size() == 0) return;
  auto g = b.mutable_primitivegroup(static_cast<int>(c.draw(b.primitivegroup_size() - 1)));
  for (int i = 0; i < 3; ++i) {
    switch (c.draw(3)) {
      case 0: if (g->has_dense()) {
        auto d = g->mutable_dense();
        switch (c.draw(3)) {
          case 0: either(c, d->mutable_lat()); break;
          case 1: either(c, d->mutable_lon()); break;
          case 2: either(c, d->mutable_id()); break;
          default: if (c.boolean()) d->add_keys_vals(static_cast<int>(c.draw(3))); either(c, d->mutable_keys_vals());
        }
        return;
      } break;
      case 1: if (g->nodes_size()) {
        auto n = g->mutable_nodes(static_cast<int>(c.draw(g->nodes_size() - 1)));
        if (c.boolean()) either(c, n->mutable_keys()); else either(c, n->mutable_vals());
        return;
      } break;
      case 2: if (g->ways_size()) {
        auto w = g->mutable_ways(static_cast<int>(c.draw(g->ways_size() - 1)));
        switch (c.draw(2)) {
          case 0: either(c, w->mutable_keys()); break;
          case 1: either(c, w->mutable_vals()); break;
          default: either(c, w->mutable_refs());
        }
        return;
      } break;
      default: if (g->relations_size()) {
        auto r = g->mutable_relations(static_cast<int>(c.draw(g->relations_size() - 1)));
        switch (c.draw(4)) {
          case 0: either(c, r->mutable_keys()); break;
          case 1: either(c, r->mutable_vals()); break;
          case 2: either(c, r->mutable_memids()); break;
          case 3: either(c, r->mutable_roles_sid()); break;
          default: shorten(c, r->mutable_types());
        }
        return;
      }
    }
  }
}

void pbf(Ctx &c) {
  auto bytes = osm::write(c, Form::Pbf, data(c));
  std::string what;
  switch (c.draw(9)) {
    case 0: bytes = mutate(c, bytes, {std::string(4, '\0'), "OSMData", std::string(1, '\xff'), std::string("\0\0\0\x08", 4)}); what = "bytes"; break;
    case 1: bytes = noise(c, std::string("\0\x01\n\x12OSMDataHr\x18\x1a\"", 17), 200); what = "noise"; break;
    default: {
      auto v = blocks(bytes);
      bytes.clear();
      bool blob = c.chance(1, 3);
      std::size_t victim = c.draw(v.size() - 1);
      for (std::size_t i = 0; i < v.size(); ++i) {
        auto &b = v[i];
        std::int64_t dataSize = -1000000000000, headSize = -1000000000000;
        if (i == victim && !blob) {
          OSMPBF::PrimitiveBlock p;
          if (c.boolean() && b.header.type() == "OSMData" && p.ParseFromString(b.content)) {
            c.repeat(1, 3, [&](std::size_t) { corrupt(c, p); });
            b.content = p.SerializeAsString();
            what = p.ShortDebugString().substr(0, 0) + "fields";
          } else { b.content = mutate(c, b.content, {std::string(1, '\xff'), std::string("\0\0", 2), "\x0a\x7f", "\x12\xff\xff\xff\x0f"}, 3); what = "content"; }
        }
        OSMPBF::Blob o;
        if (c.boolean()) { o.set_raw(b.content); if (c.boolean()) o.set_raw_size(static_cast<int>(b.content.size())); }
        else { o.set_raw_size(static_cast<int>(b.content.size())); o.set_zlib_data(PbfWriter::deflate(b.content)); }
        if (i == victim && blob) {
          what = "blob";
          static const std::vector<std::int64_t> sizes = {0, -1, 1, 10, 2147483647, -2147483648LL, 33554432, 33554433, 40000000, 65536, 65537};
          switch (c.draw(7)) {
            case 0: o.set_raw_size(static_cast<int>(c.pick(sizes))); break;
            case 1: if (o.has_zlib_data()) { auto z = o.zlib_data(); z.resize(c.draw(z.size())); o.set_zlib_data(z); } break;
            case 2: if (o.has_zlib_data()) o.set_zlib_data(mutate(c, o.zlib_data(), {std::string(1, '\0')})); break;
            case 3: dataSize = c.pick(sizes); break;
            case 4: headSize = c.pick(sizes); break;
            case 5: o.clear_raw(); o.clear_zlib_data(); if (c.boolean()) o.set_lzma_data("x"); break;
            case 6: b.header.set_type(c.pick<std::string>({"", "OSMData", "x", "OSMHeader"})); break;
            default: {
              // an expansion to more than what is announced or allowed
              std::string big(c.pick<std::size_t>({1u << 16, 33u << 20, 40u << 20}), '\0');
              if (c.chance(1, 3)) o.set_raw(big.substr(0, 1u << 16));
              else { o.set_zlib_data(PbfWriter::deflate(big)); o.clear_raw(); o.set_raw_size(c.boolean() ? static_cast<int>(big.size()) : 100); }
            }
          }
        }
        auto body = o.SerializeAsString();
        b.header.set_datasize(dataSize < -3000000000LL ? static_cast<int>(body.size()) : static_cast<int>(dataSize));
        auto head = b.header.SerializeAsString();
        auto n = static_cast<std::uint32_t>(headSize < -3000000000LL ? static_cast<std::int64_t>(head.size()) : headSize);
        for (int k = 3; k >= 0; --k) bytes += static_cast<char>((n >> (8*k)) & 0xff);
        bytes += head + body;
      }
    }
  }
  c.note() << what << "\n";
  show(c, bytes.substr(0, 3000));
  c.label(what);
  c.nontrivial();
  osmImport(c, [&](utymap::formats::OsmDataVisitor &v) { parse(Form::Pbf, bytes, v); });
}

// ---- GeoJSON ---------------------------------------------------------------------------------------------------------
const std::vector<std::string> JsonTokens = {"{", "}", "[", "]", ",", ":", "\"", "null", "true", "\"type\":\"Point\"", "\"coordinates\":[]", "[[]]", "\\u0000", "\\ud800", "\\", "\"id\":-1", "\"id\":\"x\"", "1.5", std::string(1, '\0')};

void json(Ctx &c) {
  std::string text;
  if (c.chance(1, 10)) text = noise(c, "{}[],:\"\\ntrue0123456789.-e ", 300);
  else {
    text = "{\"water\":{\"type\":\"FeatureCollection\",\"features\":[";
    c.repeat(1, 4, [&](std::size_t i) {
      auto kind = c.draw(4);
      static const char *names[] = {"Point", "LineString", "Polygon", "MultiLineString", "MultiPolygon"};
      static const char *coords[] = {"[1.5,-2]", "[[1,2],[3,4],[5,6.25]]", "[[[0,0],[0,9],[9,9],[0,0]],[[1,1],[1,2],[2,2],[1,1]]]", "[[[1,2],[3,4]],[[5,6],[7,8]]]", "[[[[0,0],[0,9],[9,9],[0,0]]],[[[1,1],[1,2],[2,2],[1,1]],[[1,1],[1,2],[2,2],[1,1]]]]"};
      text += std::string(i ? "," : "") + "{\"geometry\":{\"type\":\"" + names[kind] + "\",\"coordinates\":" + coords[kind] + "},\"type\":\"Feature\",\"properties\":{\"name\":\"x\",\"id\":" + std::to_string(c.draw(1000)) + "}}";
    });
    text += "]}}";
    text = mutate(c, text, JsonTokens);
    if (c.chance(1, 20)) { auto n = c.draw(400); text = std::string(n, '[') + text; }
  }
  show(c, text);
  c.nontrivial();
  StringTable st(c.tmpDir());
  utymap::CancellationToken token;
  survives(c, [&] {
    utymap::formats::OsmDataVisitor visitor(st, [&](Element &e) { render(e, st); return true; }, token);
    std::istringstream stream(text);
    utymap::formats::OsmJsonParser<utymap::formats::OsmDataVisitor>(st).parse(stream, visitor);
    visitor.complete();
  });
}

// ---- shape files -----------------------------------------------------------------------------------------------------
void le32(std::string &s, std::int64_t v) { for (int i = 0; i < 4; ++i) s += static_cast<char>((static_cast<std::uint32_t>(v) >> (8*i)) & 0xff); }
void be32(std::string &s, std::int64_t v) { for (int i = 3; i >= 0; --i) s += static_cast<char>((static_cast<std::uint32_t>(v) >> (8*i)) & 0xff); }
void f64(std::string &s, double v) { char b[8]; std::memcpy(b, &v, 8); s.append(b, 8); }

std::string shapeHeader(int type, std::size_t bytes) {
  std::string s;
  be32(s, 9994);
  for (int i = 0; i < 5; ++i) be32(s, 0);
  be32(s, static_cast<std::int64_t>(bytes/2)); le32(s, 1000); le32(s, type);
  f64(s, -180); f64(s, -90); f64(s, 180); f64(s, 90);
  s.append(32, '\0');
  return s;
}

void shapes(Ctx &c) {
  auto dir = c.tmpDir();
  static const std::vector<int> types = {1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31, 0};
  int type = c.pick(types);
  std::string body, index;
  static const std::vector<std::int64_t> odd = {0, 1, -1, 2, 3, 5, 1000, 65536, 100000000, 2147483647, -2147483648LL, 50000000};
  auto count = [&](std::int64_t v) { return c.chance(1, 8) ? c.pick(odd) : v; };
  auto n = static_cast<std::int64_t>(c.draw(4));
  for (std::int64_t i = 0; i < n; ++i) {
    std::string r;
    int own = c.chance(1, 8) ? c.pick(types) : type;
    le32(r, own);
    int base = own%10;
    if (own == 0) {}
    else if (base == 1 && own != 31) { f64(r, 1); f64(r, 2); if (own > 10) f64(r, 3); if (own > 10 && c.boolean()) f64(r, 3); }
    else {
      auto parts = static_cast<std::int64_t>(base == 8 ? 0 : c.draw(3)), points = static_cast<std::int64_t>(c.draw(8));
      f64(r, 0); f64(r, 0); f64(r, 1); f64(r, 1);
      if (base != 8) le32(r, count(parts));
      le32(r, count(points));
      if (base != 8) for (std::int64_t k = 0; k < parts; ++k) le32(r, count(points*k/std::max<std::int64_t>(parts, 1)));
      if (own == 31) for (std::int64_t k = 0; k < parts; ++k) le32(r, count(2));
      for (std::int64_t k = 0; k < points; ++k) { f64(r, c.chance(1, 20) ? std::numeric_limits<double>::quiet_NaN() : static_cast<double>(k%3)); f64(r, static_cast<double>(k%2)); }
      if (own > 10) for (std::int64_t k = 0; k < (points + 2)*(c.boolean() ? 2 : 1); ++k) f64(r, 1);
    }
    if (c.chance(1, 10)) r.resize(c.draw(r.size()));
    be32(index, count(static_cast<std::int64_t>((100 + body.size())/2)));
    auto size = static_cast<std::int64_t>(r.size()/2);
    be32(index, count(size));
    be32(body, i + 1);
    be32(body, count(size));
    body += r;
  }
  auto shp = shapeHeader(c.chance(1, 10) ? c.pick(types) : type, 100 + body.size()) + body, shx = shapeHeader(type, 100 + index.size()) + index;
  std::string dbf("\x03\x76\x0b\x13", 4);
  le32(dbf, count(n));
  int fields = static_cast<int>(c.draw(3));
  auto le16 = [&](std::string &s, std::int64_t v) { s += static_cast<char>(v & 0xff); s += static_cast<char>((v >> 8) & 0xff); };
  le16(dbf, count(32*fields + 33));
  le16(dbf, count(1 + 8*fields));
  dbf.append(20, '\0');
  for (int i = 0; i < fields; ++i) {
    std::string name = c.chance(1, 8) ? std::string(11, 'A') : "F" + std::to_string(i);
    name.resize(11, '\0');
    dbf += name;
    dbf += c.chance(1, 8) ? static_cast<char>(c.draw(255)) : c.pick({'C', 'N', 'F', 'L', 'D'});
    dbf.append(4, '\0');
    dbf += static_cast<char>(count(8));
    dbf += static_cast<char>(count(0));
    dbf.append(14, '\0');
  }
  dbf += '\x0d';
  for (std::int64_t i = 0; i < n; ++i) {
    dbf += ' ';
    for (int k = 0; k < fields; ++k) dbf += c.pick<std::string>({"       1", "abcdefgh", "********", "   1e308", "     nan", "   -1e99", "20181124", "        ", "?       ", std::string(8, '\0')});
  }
  auto bytes = [&](std::string s) { return c.chance(1, 4) ? mutate(c, s, {std::string(4, '\0'), std::string(4, '\xff'), std::string("\x7f\xff\xff\xff", 4)}, 3) : s; };
  if (!c.chance(1, 20)) model::writeFile(dir + "x.shp", bytes(shp));
  if (!c.chance(1, 20)) model::writeFile(dir + "x.shx", bytes(shx));
  if (!c.chance(1, 20)) model::writeFile(dir + "x.dbf", bytes(dbf));
  c.note() << "shp:\n";
  show(c, model::readFile(dir + "x.shp"));
  c.note() << "shx:\n";
  show(c, model::readFile(dir + "x.shx"));
  c.note() << "dbf:\n";
  show(c, model::readFile(dir + "x.dbf"));
  c.nontrivial();
  StringTable st(dir);
  utymap::CancellationToken token;
  auto before = descriptors();
  survives(c, [&] {
    utymap::formats::ShapeDataVisitor visitor(st, [&](Element &e) { model::describe(e); return true; }, token);
    utymap::formats::ShapeParser<utymap::formats::ShapeDataVisitor>().parse(dir + "x.shp", visitor);
  });
  PBT_CHECK(c, descriptors() == before, "open files: " << before << " before, " << descriptors() << " after the import");
}

// ---- stylesheets and what belongs to them ----------------------------------------------------------------------------
const std::vector<std::string> CssTokens = {"{", "}", "[", "]", "|", "|z", "|z1-", ":", ";", ",", "/*", "*/", "<!--", "-->", "=", "!=", "<", ">", "way", "node|z1[a]", "element|z1[id=x]", "canvas|z1", "eval(\"", "\")",
  "tag('", "')", "gradient(", "#", "#12", "@import url(\"", "@texture url(\"a.txt\");", "@lsystem url(\"a.lsys\");", "\");", "1e999m", "%", "m", std::string(1, '\0'), "-"};

const std::vector<std::string> Values = {"10m", "5%", "1.5", "red", "gradient(red 0%, #00ff00 50%, blue)", "#abc", "#abcdef", "text", "eval(\"tag('height') * 2\")", "eval(\"1 + tag('x') / 0\")", "gradient()", "gradient(#12)", "rgb(1,2,3)", "-5", "0.1"};

void css(Ctx &c) {
  auto dir = c.tmpDir();
  model::writeFile(dir + "a.txt", mutate(c, "1,100,100\nwood,0,0,10,10\nstone,10,10,20,20", {",", "-1", "\n", "x", "99999999999"}, 2));
  model::writeFile(dir + "a.lsys", mutate(c, "generations: 2\nangle: 30\nscale: 0.5\naxiom: A F\nA -> F A\n", {"->", "(", ")", ":", "\n", "[", "]"}, 2));
  std::string text;
  if (c.chance(1, 10)) text = noise(c, "{}[]|:;,=<>way1z \"/*eval('", 300);
  else {
    static const std::vector<std::string> selectors = {"way|z1-16[highway]", "node,area|z1[a=b][c<5]", "relation|z1-19[a!=b],area|z1[c>1]", "element|z1[id=5]", "canvas|z1-3", "area|z1[height]"};
    c.repeat(1, 4, [&](std::size_t) {
      if (c.chance(1, 8)) { text += c.pick<std::string>({"@texture url(\"a.txt\");", "@lsystem url(\"a.lsys\");"}); return; }
      text += c.pick(selectors) + "{";
      c.repeat(1, 4, [&](std::size_t) { text += c.pick<std::string>({"width", "color", "height", "k"}) + ": " + c.pick(Values) + ";"; });
      text += "}\n";
    });
    text = mutate(c, text, CssTokens);
  }
  if (text.find("@import") != std::string::npos) model::writeFile(dir + "b.mapcss", "way|z1[a]{a:b;}");
  show(c, text);
  c.nontrivial();
  StringTable st(dir);
  survives(c, [&] {
    auto styles = model::provider(text, st, dir);
    for (const char *kind : {"w", "a", "n"}) {
      std::shared_ptr<Element> e;
      if (*kind == 'w') e = std::make_shared<Way>();
      else if (*kind == 'a') e = std::make_shared<Area>();
      else e = std::make_shared<Node>();
      e->id = 5;
      model::addTags(*e, st, {{"highway", "x"}, {"a", "b"}, {"c", "3"}, {"height", "7"}});
      for (int z : {1, 3, 16}) {
        auto style = styles->forElement(*e, z);
        if (style.empty()) continue;
        for (const char *key : {"width", "color", "height", "k"}) {
          if (!style.has(st.getId(key))) continue;
          survives(c, [&] { style.getValue(key); });
          survives(c, [&] { style.getValue(key, 100.); });
          survives(c, [&] { style.getString(key); });
          survives(c, [&] { styles->getGradient(style.getString(key)).evaluate(0.3); });
        }
      }
      survives(c, [&] { styles->forCanvas(1); });
    }
  });
}

void lsystems(Ctx &c) {
  auto text = c.chance(1, 10) ? noise(c, "generations:angle 1axiom->()F+-[]\n", 200)
                              : mutate(c, "generations: 3\nangle: 22.5\nscale: 0.7\naxiom: A F [ + F ]\nA -> F A\nA(0.5) -> [ A ] + A\nF -> F F\n",
                                       {"->", "(", ")", "(0.5)", ":", "\n", "[", "]", "#", "# x\n", "axiom:", "F", "@", " ", "angle: 1\n", std::string(1, '\0')});
  show(c, text);
  c.nontrivial();
  survives(c, [&] { utymap::lsys::LSystemParser().parse(text); });
}

void atlases(Ctx &c) {
  auto text = c.chance(1, 10) ? noise(c, "0123456789,ab\n -", 200)
                              : mutate(c, "1,100,100\nwood,0,0,10,10\nstone,10,10,20,20\nwood,50,50,5,5\n", {",", "-1", "\n", "x", " ", "99999999999", std::string(1, '\0')});
  show(c, text);
  c.nontrivial();
  survives(c, [&] {
    auto atlas = utymap::mapcss::TextureAtlasParser().parse(text);
    for (const char *n : {"wood", "stone", "x"}) for (std::uint32_t i = 0; i < 4; ++i) atlas.get(n).random(i);
  });
}

void colours(Ctx &c) {
  auto text = c.chance(1, 4) ? noise(c, "#abcdef0123456789 ,%()gradientrgb", 100)
                             : mutate(c, c.pick<std::string>({"gradient(red 0%, #00ff00 50%, blue)", "#abcdef", "#abc", "red", "rgb(1, 2, 3)", "gradient(#123456, rgb(10%,2,3) 30%, green 20%, white)"}),
                                      {"#", "%", "px", "gradient(", "(", ")", ",", " ", "rgb (", "#fff", "#12345", "red", "1000", std::string(1, '\0')});
  show(c, text);
  c.nontrivial();
  survives(c, [&] { utymap::utils::GradientUtils::isGradient(text); utymap::utils::GradientUtils::parseGradient(text)->evaluate(c.real(0, 1)); });
  survives(c, [&] { utymap::utils::GradientUtils::parseColor(text); });
}

// ---- what is recorded rather than repaired ----------------------------------------------------------------------------
void nestedJson(Ctx &c) {
  auto dir = c.tmpDir();
  StringTable st(dir);
  std::stringstream in("{\"a\":" + std::string(200000, '[') + std::string(200000, ']') + "}");
  utymap::CancellationToken token;
  survives(c, [&] {
    utymap::formats::OsmDataVisitor visitor(st, [&](Element &) { return true; }, token);
    utymap::formats::OsmJsonParser<utymap::formats::OsmDataVisitor>(st).parse(in, visitor);
  });
}

void longColour(Ctx &c) {
  survives(c, [&] { utymap::utils::GradientUtils::parseGradient("gradient(" + std::string(500000, 'a') + ")"); });
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C15", {
    {"xml", "valid OSM XML with relations of all kinds, changed by up to 6 mutations (bytes, ranges, tokens, numbers, truncation), or noise; every case is non-trivial", 60000, 3000000, xml, 20},
    {"odd data", "well formed OSM XML with degenerate content: few positions, repeated members, touching and repeated rings, any references; every case is non-trivial", 40000, 2000000, odd, 20},
    {"pbf", "valid PBF with one block corrupted: indices, lengths, sizes of blobs and headers, compressed data, bytes; every case is non-trivial", 4000, 150000, pbf, 20},
    {"json", "valid GeoJSON of all types, mutated; every case is non-trivial", 60000, 3000000, json, 20},
    {"shapes", "shp, shx and dbf of all types with odd counts, offsets, sizes and values, mutated, truncated, missing; every case is non-trivial", 60000, 2000000, shapes, 20},
    {"stylesheets", "valid stylesheets with atlases and L-systems, mutated; what is accepted is used for elements; every case is non-trivial", 30000, 1000000, css, 20},
    {"lsystems", "L-system texts, mutated; every case is non-trivial", 60000, 2000000, lsystems, 20},
    {"atlases", "texture atlases, mutated; every case is non-trivial", 60000, 2000000, atlases, 20},
    {"colours", "colour and gradient texts up to some hundred characters, mutated; every case is non-trivial", 100000, 3000000, colours, 20},
  }, {"imports of stylesheets are not recursive: the code leaves this to the caller", "JSON is not nested deeper than some hundred levels, colour texts have less than a thousand characters"},
  {{"nested json", nestedJson}, {"long colour", longColour}});
}
