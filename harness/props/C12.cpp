// C12: import of OSM data.
#include "osm.hpp"

using namespace osm;

namespace {

void generate(Generator &g, bool missing, std::size_t nodes) {
  Ctx &c = g.c;
  g.nodes(nodes);
  g.ways(8, missing);
  g.d.bounds = c.boolean();
  // plain relations; members of the same kind may be there before or after
  std::vector<std::uint64_t> ids;
  c.repeat(0, 4, [&](std::size_t) { ids.push_back(g.id(g.relationIds)); });
  for (std::size_t i = 0; i < ids.size(); ++i) {
    R r{ids[i], {}, g.tags(3)};
    if (c.boolean()) r.tags.emplace_back("type", c.pick<std::string>({"route", "site", "x"}));
    c.repeat(1, 6, [&](std::size_t) {
      M m{c.pick({'n', 'w', 'r'}), 0, g.role()};
      if (m.type == 'n' && !g.d.nodes.empty()) m.id = c.pick(g.d.nodes).id;
      else if (m.type == 'w' && !g.d.ways.empty()) m.id = c.pick(g.d.ways).id;
      else if (m.type == 'r' && i > 0) m.id = ids[c.draw(i - 1)];
      else if (!missing) return;
      if (missing && c.chance(1, 4)) m.id = c.draw(100);
      r.members.push_back(m);
    });
    if (r.members.empty()) { if (g.d.nodes.empty()) continue; r.members.push_back({'n', g.d.nodes[0].id, ""}); }
    g.d.relations.push_back(r);
  }
  // definitions may refer to later ones
  for (std::size_t i = 0; i + 1 < g.d.relations.size(); ++i) if (c.boolean()) std::swap(g.d.relations[i], g.d.relations[i + 1]);
  if (g.d.nodes.empty()) c.discard();   // the XML form without nodes is not supported
}

void verify(Ctx &c, Form form, const Data &d) {
  auto bytes = osm::write(c, form, d);
  if (form == Form::Xml) c.note() << "\n" << bytes;
  StringTable st(c.tmpDir());
  auto got = pbt::noThrow("import", [&] { return import(form, bytes, st); });
  auto expected = Expectation(d).all();
  PBT_CHECK(c, got == expected, difference(expected, got));
  if (d.nodes.size() > 2 && !d.ways.empty()) c.nontrivial();
  if (!d.relations.empty()) c.label("relations");
  for (const auto &t : expected) if (t[0] == 'a') { c.label("areas"); break; }
}

template<Form form, bool missing>
void imports(Ctx &c) {
  Generator g(c);
  generate(g, missing, 14);
  c.note() << osm::show(g.d);
  verify(c, form, g.d);
}

void both(Ctx &c) {
  Generator g(c);
  generate(g, true, c.chance(1, 4) ? 300 : 30);
  c.note() << osm::show(g.d);
  StringTable st(c.tmpDir());
  auto xml = osm::write(c, Form::Xml, g.d), pbf = osm::write(c, Form::Pbf, g.d);
  auto a = pbt::noThrow("xml", [&] { return import(Form::Xml, xml, st); });
  auto b = pbt::noThrow("pbf", [&] { return import(Form::Pbf, pbf, st); });
  PBT_CHECK(c, a == b, "forms differ: " << difference(a, b));
  verify(c, Form::Pbf, g.d);
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C12", {
    {"xml", "up to 14 nodes, 8 ways, 4 plain relations with identifiers up to 2^62 shared between kinds, tags with special characters, in XML with any layout and metadata; non-trivial: three nodes and a way", 12000, 400000, imports<Form::Xml, false>},
    {"pbf", "the same in PBF: dense or plain nodes, raw or compressed blobs, any granularity, offsets, partition into groups and blocks; non-trivial: three nodes and a way", 2500, 80000, imports<Form::Pbf, false>},
    {"xml incomplete", "XML with references to missing nodes and members; non-trivial: three nodes and a way", 8000, 300000, imports<Form::Xml, true>},
    {"pbf incomplete", "PBF with references to missing nodes and members; non-trivial: three nodes and a way", 2000, 60000, imports<Form::Pbf, true>},
    {"both", "up to 300 nodes: both forms give the same; non-trivial: three nodes and a way", 400, 12000, both},
  });
}
