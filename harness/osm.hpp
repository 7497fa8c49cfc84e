// OSM data: model, writers of the XML and PBF form, and the elements which an import has to deliver.
#ifndef VERIF_OSM_HPP
#define VERIF_OSM_HPP

#include "geometry.hpp"
#include "model.hpp"

#include "formats/osm/OsmDataVisitor.hpp"
#include "formats/osm/pbf/OsmPbfParser.hpp"
#include "formats/osm/xml/OsmXmlParser.hpp"

namespace osm {

using pbt::Ctx;
using namespace model;

const std::int64_t Unit = 10000000;  // coordinates are in 1e-7 degrees

struct N { std::uint64_t id; std::int64_t lat, lon; TextTags tags; };
struct W { std::uint64_t id; std::vector<std::uint64_t> refs; TextTags tags; };
struct M { char type; std::uint64_t id; std::string role; };
struct R { std::uint64_t id; std::vector<M> members; TextTags tags; };

struct Data {
  std::vector<N> nodes;
  std::vector<W> ways;
  std::vector<R> relations;
  bool bounds = false;
};

// ---- rendering of elements -------------------------------------------------------------------------------------------
inline std::string coordinate(double lat, double lon) {
  return "(" + std::to_string(std::llround(lat*Unit)) + "," + std::to_string(std::llround(lon*Unit)) + ")";
}

inline std::string tagsText(TextTags tags) {
  std::sort(tags.begin(), tags.end());
  std::string s = "{";
  for (const auto &t : tags) s += t.first + "=" + t.second + ";";
  return s + "}";
}

typedef std::vector<std::pair<std::int64_t, std::int64_t>> Ring;   // latitude and longitude in units

inline Ring ringOf(const std::vector<GeoCoordinate> &v) {
  Ring r;
  for (const auto &g : v) r.emplace_back(std::llround(g.latitude*Unit), std::llround(g.longitude*Unit));
  return r;
}

/// Positive for counter-clockwise.
inline double areaOf(const Ring &r) {
  __int128 sum = 0;
  for (std::size_t i = 0; i < r.size(); ++i) {
    const auto &a = r[i], &b = r[(i + 1)%r.size()];
    sum += static_cast<__int128>(a.second)*b.first - static_cast<__int128>(b.second)*a.first;
  }
  return static_cast<double>(sum);
}

/// Rings of a multipolygon: counter-clockwise ones are outlines, which the holes in them follow. The order of outlines, the
/// order of holes of one and the vertex where a ring starts are of no interest.
inline std::string ringsText(const std::vector<Ring> &rings) {
  std::vector<std::pair<std::string, std::vector<std::string>>> groups;
  for (auto r : rings) {
    bool outer = areaOf(r) > 0;
    std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end());
    std::string s = outer ? "outer" : "inner";
    for (const auto &p : r) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
    if (outer || groups.empty()) groups.push_back({"", {}});
    if (outer) groups.back().first = s; else groups.back().second.push_back(s);
  }
  std::vector<std::string> texts;
  for (auto &g : groups) {
    std::sort(g.second.begin(), g.second.end());
    std::string s = g.first;
    for (const auto &h : g.second) s += " " + h;
    texts.push_back(s);
  }
  std::sort(texts.begin(), texts.end());
  return join(texts, "; ");
}

inline std::string render(const Element &e, const StringTable &st, int depth = 0) {
  if (depth > 30) throw pbt::Failure("relations are nested without end");
  TextTags tags;
  bool ignored = false;
  for (std::size_t i = 0; i < e.tags.size(); ++i) {
    const auto &t = e.tags[i];
    if (i > 0 && t.key < e.tags[i - 1].key) throw pbt::Failure("tags of " + std::to_string(e.id) + " are not sorted by key");
    if (t.key == 0xffffffffu) ignored = true;
    else tags.emplace_back(*st.getString(t.key), *st.getString(t.value));
  }
  if (ignored) tags.emplace_back("!ignored", "");
  std::string s = " " + std::to_string(e.id) + tagsText(tags);
  if (auto n = dynamic_cast<const Node *>(&e)) return "node" + s + coordinate(n->coordinate.latitude, n->coordinate.longitude);
  if (auto w = dynamic_cast<const Way *>(&e)) { s = "way" + s; for (const auto &g : w->coordinates) s += coordinate(g.latitude, g.longitude); return s; }
  if (auto a = dynamic_cast<const Area *>(&e)) { s = "area" + s; for (const auto &g : a->coordinates) s += coordinate(g.latitude, g.longitude); return s; }
  auto r = dynamic_cast<const Relation *>(&e);
  s = "relation" + s + "[";
  for (const auto &t : tags) if (t.first == "type" && t.second == "multipolygon") {
    std::vector<Ring> rings;
    for (const auto &m : r->elements) {
      auto a = dynamic_cast<const Area *>(m.get());
      if (!a) throw pbt::Failure("multipolygon " + std::to_string(e.id) + " has an element which is no area");
      rings.push_back(ringOf(a->coordinates));
    }
    return s + ringsText(rings) + "]";
  }
  for (const auto &m : r->elements) s += render(*m, st, depth + 1) + " ";
  return s + "]";
}

// ---- import ----------------------------------------------------------------------------------------------------------
enum class Form { Xml, Pbf };

template<typename Visitor>
void parse(Form form, const std::string &bytes, Visitor &visitor) {
  std::istringstream stream(bytes, std::ios::in | std::ios::binary);
  if (form == Form::Xml) utymap::formats::OsmXmlParser<Visitor>().parse(stream, visitor);
  else utymap::formats::OsmPbfParser<Visitor>().parse(stream, visitor);
}

/// Delivered elements as sorted texts.
inline std::vector<std::string> import(Form form, const std::string &bytes, const StringTable &st,
                                       const std::function<void(Element &)> &extra = [](Element &) {}) {
  std::vector<std::string> v;
  utymap::CancellationToken token;
  utymap::formats::OsmDataVisitor visitor(st, [&](Element &e) { v.push_back(render(e, st)); extra(e); return true; }, token);
  parse(form, bytes, visitor);
  visitor.complete();
  std::sort(v.begin(), v.end());
  return v;
}

// ---- expectation -----------------------------------------------------------------------------------------------------
/// Rings of multipolygons are known to whoever generated them.
struct Expectation {
  const Data &data;
  std::map<std::uint64_t, const N *> nodes;
  std::map<std::uint64_t, const W *> ways;
  std::map<std::uint64_t, const R *> relations;
  std::set<std::pair<char, std::uint64_t>> ignored;
  std::map<std::uint64_t, std::vector<Ring>> rings;   // of multipolygons: each outline is followed by its holes
  std::map<std::uint64_t, TextTags> merged;                  // tags which come from members

  explicit Expectation(const Data &d) : data(d) {
    for (const auto &n : d.nodes) nodes[n.id] = &n;
    for (const auto &w : d.ways) ways[w.id] = &w;
    for (const auto &r : d.relations) relations[r.id] = &r;
    for (const auto &r : d.relations)
      if (typeOf(r) == "building")
        for (const auto &m : r.members) if (exists(m) && !(m.type == 'r' && reaches(m.id, r.id))) ignored.insert({m.type, m.id});
  }

  static std::string typeOf(const R &r) {
    for (const auto &t : r.tags) if (t.first == "type") return t.second;
    return "";
  }

  std::vector<GeoCoordinate> points(const W &w) const {
    std::vector<GeoCoordinate> v;
    for (auto id : w.refs) { auto it = nodes.find(id); if (it != nodes.end()) v.emplace_back(double(it->second->lat)/Unit, double(it->second->lon)/Unit); }
    return v;
  }
  bool known(const W &w) const { return !points(w).empty(); }

  bool exists(const M &m) const {
    if (m.type == 'n') return nodes.count(m.id);
    if (m.type == 'w') { auto it = ways.find(m.id); return it != ways.end() && known(*it->second); }
    return relations.count(m.id);
  }

  bool reaches(std::uint64_t from, std::uint64_t to) const {
    std::set<std::uint64_t> seen;
    std::vector<std::uint64_t> todo = {from};
    while (!todo.empty()) {
      auto id = todo.back();
      todo.pop_back();
      if (id == to) return true;
      auto it = relations.find(id);
      if (it == relations.end() || !seen.insert(id).second) continue;
      for (const auto &m : it->second->members) if (m.type == 'r') todo.push_back(m.id);
    }
    return false;
  }

  TextTags tagsOf(char type, std::uint64_t id, const TextTags &tags) const {
    auto t = tags;
    if (ignored.count({type, id})) t.emplace_back("!ignored", "");
    return t;
  }

  std::string show(const N &n) const {
    return "node " + std::to_string(n.id) + tagsText(tagsOf('n', n.id, n.tags)) + "(" + std::to_string(n.lat) + "," + std::to_string(n.lon) + ")";
  }

  /// Area when closed: counter-clockwise, without the closing point.
  std::string show(const W &w) const {
    auto v = points(w);
    std::string head = " " + std::to_string(w.id) + tagsText(tagsOf('w', w.id, w.tags)), s;
    if (v.size() > 3 && v.front() == v.back()) {
      v.pop_back();
      if (signedArea(v) < 0) std::reverse(v.begin(), v.end());
      s = "area" + head;
    } else s = "way" + head;
    for (const auto &g : v) s += coordinate(g.latitude, g.longitude);
    return s;
  }

  /// Twice the area, positive for counter-clockwise, exact for coordinates on the grid.
  static double signedArea(const std::vector<GeoCoordinate> &v) {
    __int128 sum = 0;
    for (std::size_t i = 0; i < v.size(); ++i) {
      const auto &a = v[i], &b = v[(i + 1)%v.size()];
      sum += static_cast<__int128>(std::llround(a.longitude*Unit))*std::llround(b.latitude*Unit) - static_cast<__int128>(std::llround(b.longitude*Unit))*std::llround(a.latitude*Unit);
    }
    return static_cast<double>(sum);
  }

  std::string show(const M &m) const {
    if (m.type == 'n') return show(*nodes.at(m.id));
    if (m.type == 'w') return show(*ways.at(m.id));
    return show(*relations.at(m.id));
  }

  std::string show(const R &r) const {
    auto type = typeOf(r);
    auto tags = r.tags;
    if (merged.count(r.id)) for (const auto &t : merged.at(r.id)) tags.push_back(t);
    std::string s = "relation " + std::to_string(r.id) + tagsText(tagsOf('r', r.id, tags)) + "[";
    if (type == "multipolygon") {
      auto it = rings.find(r.id);
      return s + (it == rings.end() ? "" : ringsText(it->second)) + "]";
    }
    std::set<std::pair<char, std::uint64_t>> done;
    for (const auto &m : r.members) {
      if (!exists(m) || (m.type == 'r' && reaches(m.id, r.id))) continue;
      if (type == "building") { if (m.role == "outline") continue; }
      else if (!done.insert({m.type, m.id}).second) continue;
      s += show(m) + " ";
    }
    return s + "]";
  }

  std::vector<std::string> all() const {
    std::vector<std::string> v;
    for (const auto &n : nodes) v.push_back(show(*n.second));
    for (const auto &w : ways) if (known(*w.second)) v.push_back(show(*w.second));
    for (const auto &r : relations) v.push_back(show(*r.second));
    std::sort(v.begin(), v.end());
    return v;
  }
};

// ---- XML -------------------------------------------------------------------------------------------------------------
inline std::string degrees(std::int64_t v) {
  char buffer[40];
  std::snprintf(buffer, sizeof(buffer), "%s%lld.%07lld", v < 0 ? "-" : "", static_cast<long long>(std::llabs(v)/Unit), static_cast<long long>(std::llabs(v)%Unit));
  std::string s = buffer;
  return s;
}

struct XmlWriter {
  Ctx &c;
  bool meta;
  explicit XmlWriter(Ctx &c) : c(c), meta(c.boolean()) {}

  std::string escape(const std::string &text) {
    std::string s;
    for (char ch : text) switch (ch) {
      case '&': s += c.chance(1, 4) ? "&#38;" : "&amp;"; break;
      case '<': s += "&lt;"; break;
      case '>': s += c.boolean() ? ">" : "&gt;"; break;
      case '"': s += c.chance(1, 4) ? "&#x22;" : "&quot;"; break;
      case '\'': s += c.boolean() ? "'" : "&apos;"; break;
      case '\n': s += "&#10;"; break;
      default: s += ch;
    }
    return s;
  }
  std::string nl() { return c.chance(1, 8) ? "" : c.chance(1, 8) ? "\r\n\t" : "\n  "; }
  std::string number(std::int64_t v) {
    auto s = degrees(v);
    if (c.boolean()) { while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); }
    return s;
  }
  std::string info() { return meta ? " visible=\"true\" version=\"" + std::to_string(c.draw(9)) + "\" changeset=\"12\" timestamp=\"2012-01-01T00:00:00Z\" user=\"Mr. id= lat= X\" uid=\"7\"" : ""; }
  std::string tags(const TextTags &t) {
    std::string s;
    for (const auto &x : t) s += "<tag k=\"" + escape(x.first) + "\" v=\"" + escape(x.second) + "\"" + (c.boolean() ? " " : "") + "/>" + nl();
    return s;
  }

  std::string write(const Data &d) {
    std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\" generator=\"some (thing) 0.1\" copyright=\"c\">" + nl();
    if (c.chance(1, 4)) s += "<note>The data included in this document is from www.openstreetmap.org.</note>\n<meta osm_base=\"2018\"/>\n";
    if (d.bounds) s += "<bounds minlat=\"-80\" minlon=\"-170.5\" maxlat=\"80.25\" maxlon=\"170\"/>" + nl();
    for (const auto &n : d.nodes) {
      s += "<node id=\"" + std::to_string(n.id) + "\"";
      bool after = c.boolean();
      if (!after) s += info();
      s += " lat=\"" + number(n.lat) + "\" lon=\"" + number(n.lon) + "\"";
      if (after) s += info();
      if (n.tags.empty() && !c.chance(1, 8)) s += std::string(c.boolean() ? " " : "") + "/>";
      else s += ">" + nl() + tags(n.tags) + "</node>";
      s += nl();
    }
    for (const auto &w : d.ways) {
      s += "<way id=\"" + std::to_string(w.id) + "\"" + info() + ">" + nl();
      for (auto r : w.refs) s += "<nd ref=\"" + std::to_string(r) + "\"/>" + nl();
      s += tags(w.tags) + "</way>" + nl();
    }
    for (const auto &r : d.relations) {
      s += "<relation id=\"" + std::to_string(r.id) + "\"" + info() + ">" + nl();
      for (const auto &m : r.members)
        s += std::string("<member type=\"") + (m.type == 'n' ? "node" : m.type == 'w' ? "way" : "relation") + "\" ref=\"" + std::to_string(m.id) + "\" role=\"" + escape(m.role) + "\"/>" + nl();
      s += tags(r.tags) + "</relation>" + nl();
    }
    return s + "</osm>\n";
  }
};

// ---- PBF -------------------------------------------------------------------------------------------------------------
struct PbfWriter {
  Ctx &c;
  std::string out;
  explicit PbfWriter(Ctx &c) : c(c) {}

  static std::string deflate(const std::string &data) {
    uLongf size = compressBound(data.size());
    std::string z(size, '\0');
    compress(reinterpret_cast<Bytef *>(&z[0]), &size, reinterpret_cast<const Bytef *>(data.data()), data.size());
    z.resize(size);
    return z;
  }

  void block(const std::string &type, const std::string &data) {
    OSMPBF::Blob blob;
    if (c.boolean()) { blob.set_raw(data); if (c.chance(1, 4)) blob.set_raw_size(static_cast<int>(data.size())); }
    else { blob.set_raw_size(static_cast<int>(data.size())); blob.set_zlib_data(deflate(data)); }
    auto body = blob.SerializeAsString();
    OSMPBF::BlobHeader header;
    header.set_type(type);
    header.set_datasize(static_cast<int>(body.size()));
    if (c.chance(1, 8)) header.set_indexdata("index");
    auto head = header.SerializeAsString();
    auto n = static_cast<std::uint32_t>(head.size());
    for (int i = 3; i >= 0; --i) out += static_cast<char>((n >> (8*i)) & 0xff);
    out += head + body;
  }

  struct Block {
    OSMPBF::PrimitiveBlock b;
    std::map<std::string, int> ids;
    int id(const std::string &s) {
      auto it = ids.find(s);
      if (it != ids.end()) return it->second;
      int n = b.stringtable().s_size();
      b.mutable_stringtable()->add_s(s);
      return ids[s] = n;
    }
  };

  template<typename T>
  void tags(Block &b, T *x, const TextTags &tags) {
    for (const auto &t : tags) { x->add_keys(static_cast<unsigned>(b.id(t.first))); x->add_vals(static_cast<unsigned>(b.id(t.second))); }
    if (c.chance(1, 6)) { auto i = x->mutable_info(); i->set_version(1); i->set_user_sid(static_cast<unsigned>(b.id("user"))); }
  }

  Block open(std::int64_t &granularity, std::int64_t &latOffset, std::int64_t &lonOffset) {
    Block b;
    b.b.mutable_stringtable()->add_s("");   // index 0 is reserved
    if (c.chance(1, 4)) b.id("unused");
    granularity = c.pick<std::int64_t>({100, 100, 1, 10, 20, 50});
    latOffset = lonOffset = 0;
    if (c.chance(1, 3)) latOffset = granularity*c.integer(-1000000000/granularity, 1000000000/granularity);
    if (c.chance(1, 3)) lonOffset = granularity*c.integer(-1000000000/granularity, 1000000000/granularity);
    if (granularity != 100 || c.chance(1, 4)) b.b.set_granularity(static_cast<int>(granularity));
    if (latOffset != 0 || c.chance(1, 8)) b.b.set_lat_offset(latOffset);
    if (lonOffset != 0 || c.chance(1, 8)) b.b.set_lon_offset(lonOffset);
    return b;
  }

  std::string write(const Data &d) {
    if (!c.chance(1, 6)) {
      OSMPBF::HeaderBlock h;
      h.add_required_features("OsmSchema-V0.6");
      h.add_required_features("DenseNodes");
      block("OSMHeader", h.SerializeAsString());
    }
    std::int64_t g, latO, lonO;
    Block b = open(g, latO, lonO);
    bool empty = true;
    auto close = [&] {
      if (!empty) block("OSMData", b.b.SerializeAsString());
      empty = true;
      b = open(g, latO, lonO);
    };
    std::size_t i = 0;
    while (i < d.nodes.size()) {
      std::size_t end = i + 1 + static_cast<std::size_t>(c.small(0, static_cast<std::int64_t>(d.nodes.size() - i - 1)));
      if (c.boolean()) end = d.nodes.size();
      auto pg = b.b.add_primitivegroup();
      empty = false;
      bool dense = c.boolean();
      std::int64_t id = 0, lat = 0, lon = 0;
      bool anyTags = false;
      for (std::size_t k = i; k < end; ++k) anyTags = anyTags || !d.nodes[k].tags.empty();
      if (dense && c.chance(1, 4)) { auto in = pg->mutable_dense()->mutable_denseinfo(); for (std::size_t k = i; k < end; ++k) in->add_version(1); }
      for (; i < end; ++i) {
        const auto &n = d.nodes[i];
        std::int64_t y = (n.lat*100 - latO)/g, x = (n.lon*100 - lonO)/g, nid = static_cast<std::int64_t>(n.id);
        if (dense) {
          auto dn = pg->mutable_dense();
          dn->add_id(nid - id); dn->add_lat(y - lat); dn->add_lon(x - lon);
          id = nid; lat = y; lon = x;
          if (anyTags) {
            for (const auto &t : n.tags) { dn->add_keys_vals(b.id(t.first)); dn->add_keys_vals(b.id(t.second)); }
            dn->add_keys_vals(0);
          }
        } else {
          auto p = pg->add_nodes();
          p->set_id(nid); p->set_lat(y); p->set_lon(x);
          tags(b, p, n.tags);
        }
      }
      if (c.chance(1, 3)) close();
    }
    OSMPBF::PrimitiveGroup *pg = nullptr;
    for (const auto &w : d.ways) {
      if (!pg || c.chance(1, 6)) { if (c.chance(1, 2)) close(); pg = b.b.add_primitivegroup(); empty = false; }
      auto p = pg->add_ways();
      p->set_id(static_cast<std::int64_t>(w.id));
      std::int64_t last = 0;
      for (auto r : w.refs) { p->add_refs(static_cast<std::int64_t>(r) - last); last = static_cast<std::int64_t>(r); }
      tags(b, p, w.tags);
    }
    if (c.boolean()) { close(); }
    pg = nullptr;
    for (const auto &r : d.relations) {
      if (!pg || c.chance(1, 6)) { if (c.chance(1, 2)) close(); pg = b.b.add_primitivegroup(); empty = false; }
      auto p = pg->add_relations();
      p->set_id(static_cast<std::int64_t>(r.id));
      std::int64_t last = 0;
      for (const auto &m : r.members) {
        p->add_memids(static_cast<std::int64_t>(m.id) - last);
        last = static_cast<std::int64_t>(m.id);
        p->add_types(m.type == 'n' ? OSMPBF::Relation::NODE : m.type == 'w' ? OSMPBF::Relation::WAY : OSMPBF::Relation::RELATION);
        p->add_roles_sid(b.id(m.role));
      }
      tags(b, p, r.tags);
    }
    close();
    return out;
  }
};

inline std::string write(Ctx &c, Form form, const Data &d) { return form == Form::Xml ? XmlWriter(c).write(d) : PbfWriter(c).write(d); }

// ---- generator -------------------------------------------------------------------------------------------------------
struct Generator {
  Ctx &c;
  Data d;
  std::set<std::uint64_t> nodeIds, wayIds, relationIds;
  explicit Generator(Ctx &c) : c(c) {}

  std::uint64_t id(std::set<std::uint64_t> &used) {
    std::uint64_t i = c.chance(1, 6) ? c.draw((std::uint64_t(1) << 62) - 1) : c.draw(60);   // the same numbers for all kinds
    while (!used.insert(i).second) ++i;
    return i;
  }

  TextTags tags(std::size_t max) {
    TextTags t;
    std::set<std::string> keys;
    c.repeat(0, max, [&](std::size_t) {
      auto k = c.chance(1, 4) ? word(c, "abc:_ &<>'\"\xc3\xa9", 1, 6) : c.pick<std::string>({"highway", "name", "building", "natural", "k1", "k2", "k3"});
      if (k == "type" || !keys.insert(k).second) return;
      t.emplace_back(k, c.chance(1, 3) ? word(c, "abcXYZ0123456789 &<>'\"=;#.,/\\\n\xc3\xa4\xe2\x82\xac", c.chance(1, 10) ? 0 : 1, 12) : c.pick<std::string>({"yes", "no", "primary", "5"}));
    });
    return t;
  }

  std::int64_t lat() { return c.chance(1, 10) ? c.pick<std::int64_t>({0, 85*Unit, -85*Unit, 1, -1}) : c.integer(-85*Unit, 85*Unit); }
  std::int64_t lon() { return c.chance(1, 10) ? c.pick<std::int64_t>({0, 180*Unit, -180*Unit, 1, -1}) : c.integer(-180*Unit, 180*Unit); }

  void nodes(std::size_t max) {
    c.repeat(0, max, [&](std::size_t) { d.nodes.push_back({id(nodeIds), lat(), lon(), c.chance(1, 2) ? tags(4) : TextTags()}); });
  }

  /// Ways over the nodes; also over missing ones when asked to.
  void ways(std::size_t max, bool missing) {
    if (d.nodes.empty()) return;
    c.repeat(0, max, [&](std::size_t) {
      W w{id(wayIds), {}, tags(4)};
      c.repeat(1, 8, [&](std::size_t) { w.refs.push_back(missing && c.chance(1, 4) ? c.draw(100) : c.pick(d.nodes).id); });
      if (c.chance(1, 3)) w.refs.push_back(w.refs[0]);
      Expectation e(d);
      auto v = e.points(w);
      if (v.size() > 3 && v.front() == v.back() && Expectation::signedArea(std::vector<GeoCoordinate>(v.begin(), v.end() - 1)) == 0) w.refs.pop_back();   // no orientation
      v = e.points(w);
      if (v.size() > 3 && v.front() == v.back() && Expectation::signedArea(std::vector<GeoCoordinate>(v.begin(), v.end() - 1)) == 0) w.refs = {w.refs[0]};
      if (w.refs.empty()) w.refs.push_back(d.nodes[0].id);
      d.ways.push_back(w);
    });
  }

  std::string role() { return c.chance(1, 3) ? "" : c.pick<std::string>({"outer", "inner", "outline", "part", "a&b", "stop"}); }
};

inline std::string show(const Data &d) {
  std::string s;
  for (const auto &n : d.nodes) s += "n" + std::to_string(n.id) + "(" + degrees(n.lat) + " " + degrees(n.lon) + ")" + tagsText(n.tags) + " ";
  for (const auto &w : d.ways) { s += "\nw" + std::to_string(w.id) + tagsText(w.tags) + ":"; for (auto r : w.refs) s += " " + std::to_string(r); }
  for (const auto &r : d.relations) {
    s += "\nr" + std::to_string(r.id) + tagsText(r.tags) + ":";
    for (const auto &m : r.members) s += std::string(" ") + m.type + std::to_string(m.id) + (m.role.empty() ? "" : "/" + m.role);
  }
  return s;
}

}

#endif
