// C03: elements read back from the storage format exactly as written.
#include "model.hpp"
#include "index/ElementStream.hpp"

using namespace model;
using pbt::Ctx;
using utymap::index::ElementStream;

namespace {

double genReal(Ctx &c, double limit) {
  switch (c.draw(5)) {
    case 0: return c.real(-limit, limit);
    case 1: return c.grid(-limit, limit, 360);
    case 2: return c.pick<double>({0.0, -0.0, limit, -limit, 1e-300, -1e-300, 5e-324, 52.5, 1.0/3});
    case 3: { std::uint64_t b = c.draw(UINT64_MAX); double d; memcpy(&d, &b, 8); return d == d ? d : 0; }
    case 4: return c.real(-1e-6, 1e-6);
    default: return std::numeric_limits<double>::infinity();
  }
}
GeoCoordinate genCoord(Ctx &c) { double a = genReal(c, 90); return GeoCoordinate(a, genReal(c, 180)); }
std::uint64_t genId(Ctx &c) { return c.boolean() ? c.draw(100) : c.draw(UINT64_MAX); }
std::uint32_t genKey(Ctx &c) {
  switch (c.draw(2)) {
    case 0: return static_cast<std::uint32_t>(c.draw(20));
    case 1: return static_cast<std::uint32_t>(c.draw(UINT32_MAX));
    default: return static_cast<std::uint32_t>(c.pick<std::uint64_t>({0x20202020u, 0x0a0d0920u, 0xffffffffu, 0x7fffffffu, 10, 32, 13, 26}));  // white space bytes
  }
}

void fillTags(Ctx &c, Element &e, std::size_t max) {
  e.id = genId(c);
  c.repeat(0, max, [&](std::size_t) { auto k = genKey(c); e.tags.push_back(Tag(k, genKey(c))); });
}

std::shared_ptr<Element> genElement(Ctx &c, int depth, int &maxDepth) {
  maxDepth = std::max(maxDepth, depth);
  switch (c.draw(depth < 5 ? 4 : 2)) {
    case 0: { auto e = std::make_shared<Node>(); fillTags(c, *e, 6); e->coordinate = genCoord(c); return e; }
    case 1: { auto e = std::make_shared<Way>(); fillTags(c, *e, 6); c.repeat(0, 10, [&](std::size_t) { e->coordinates.push_back(genCoord(c)); }); return e; }
    case 2: { auto e = std::make_shared<Area>(); fillTags(c, *e, 6); c.repeat(0, 10, [&](std::size_t) { e->coordinates.push_back(genCoord(c)); }); return e; }
    default: {
      auto e = std::make_shared<Relation>();
      fillTags(c, *e, 6);
      c.repeat(0, 5, [&](std::size_t) { e->elements.push_back(genElement(c, depth + 1, maxDepth)); });
      return e;
    }
  }
}

void roundTrip(Ctx &c, const std::vector<std::shared_ptr<Element>> &elements) {
  std::stringstream stream(std::ios::in | std::ios::out | std::ios::binary);
  std::vector<std::streamoff> ends, starts;
  for (const auto &e : elements) {
    auto before = describe(*e);
    starts.push_back(stream.tellp() == std::streampos(-1) ? std::streamoff(0) : std::streamoff(stream.tellp()));
    ElementStream::write(stream, *e);
    ends.push_back(stream.tellp());
    PBT_CHECK(c, describe(*e) == before, "writing changed the element");
  }
  auto check = [&](std::size_t i) {
    auto expected = describe(*elements[i]);
    auto got = pbt::noThrow("reading", [&] { return ElementStream::read(stream, elements[i]->id); });
    PBT_CHECK(c, got != nullptr, "nothing was read");
    PBT_CHECK(c, describe(*got) == expected, "element " << i << ": wrote " << expected.substr(0, 1500) << "\nread  " << describe(*got).substr(0, 1500));
    PBT_CHECK(c, static_cast<bool>(stream), "stream failed after element " << i);
    PBT_CHECK(c, std::streamoff(stream.tellg()) == ends[i], "reading element " << i << " ended at " << std::streamoff(stream.tellg()) << ", its end is " << ends[i]);
  };
  for (std::size_t i = 0; i < elements.size(); ++i) check(i);
  // any order
  for (std::size_t k = 0; k < elements.size(); ++k) {
    auto i = static_cast<std::size_t>(c.draw(elements.size() - 1));
    stream.seekg(starts[i]);
    check(i);
  }
}

void mixed(Ctx &c) {
  std::vector<std::shared_ptr<Element>> elements;
  int depth = 0;
  c.repeat(1, 6, [&](std::size_t) { elements.push_back(genElement(c, 0, depth)); });
  for (const auto &e : elements) c.note() << describe(*e) << "\n";
  roundTrip(c, elements);
  bool tagged = false;
  for (const auto &e : elements) tagged = tagged || !e->tags.empty();
  if (tagged && elements.size() > 1) c.nontrivial();
  c.label("depth " + std::to_string(depth));
}

/// Sizes up to the limit of the format.
void sizes(Ctx &c) {
  auto size = [&]() -> std::size_t {
    switch (c.draw(4)) {
      case 0: return static_cast<std::size_t>(c.pick<int>({65535, 65534, 32768, 32767, 256, 255, 257, 128, 127}));
      case 1: return static_cast<std::size_t>(c.integer(0, 65535));
      default: return static_cast<std::size_t>(c.small(0, 3000));
    }
  };
  std::vector<std::shared_ptr<Element>> elements;
  auto what = c.draw(3);
  auto n = size(), t = size();
  c.note() << "kind " << what << " size " << n << " tags " << t;
  auto coords = [&](std::vector<GeoCoordinate> &v) { for (std::size_t i = 0; i < n; ++i) v.push_back(GeoCoordinate(static_cast<double>(i)*0.001, -static_cast<double>(i)*0.002)); };
  std::shared_ptr<Element> e;
  if (what == 0) { auto w = std::make_shared<Way>(); coords(w->coordinates); e = w; }
  else if (what == 1) { auto w = std::make_shared<Area>(); coords(w->coordinates); e = w; }
  else if (what == 2) {
    auto r = std::make_shared<Relation>();
    for (std::size_t i = 0; i < n; ++i) { auto m = std::make_shared<Node>(); m->id = i*3; m->coordinate = GeoCoordinate(1, static_cast<double>(i)); r->elements.push_back(m); }
    e = r;
  } else e = std::make_shared<Node>();
  for (std::size_t i = 0; i < t; ++i) e->tags.push_back(Tag(static_cast<std::uint32_t>(i), static_cast<std::uint32_t>(i*7)));
  e->id = genId(c);
  elements.push_back(e);
  auto node = std::make_shared<Node>();
  node->id = 5;
  node->coordinate = GeoCoordinate(1, 2);
  elements.push_back(node);
  roundTrip(c, elements);
  if (n > 255 || t > 255) c.nontrivial();
}

/// Deep nesting.
void nesting(Ctx &c) {
  auto depth = static_cast<int>(c.small(1, 300));
  std::shared_ptr<Element> e;
  auto leaf = std::make_shared<Way>();
  leaf->id = genId(c);
  leaf->coordinates.push_back(genCoord(c));
  e = leaf;
  for (int i = 0; i < depth; ++i) {
    auto r = std::make_shared<Relation>();
    fillTags(c, *r, 2);
    auto at = c.draw(1);
    if (at == 1) { auto n = std::make_shared<Node>(); n->id = genId(c); n->coordinate = genCoord(c); r->elements.push_back(n); }
    r->elements.push_back(e);
    e = r;
  }
  c.note() << "depth " << depth;
  roundTrip(c, {e});
  if (depth > 5) c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C03", {
    {"mixed", "up to 6 elements of all kinds, nested relations, special coordinates, 64 bit identifiers, in one stream; non-trivial: 2 or more elements with tags", 60000, 1500000, mixed},
    {"sizes", "one element with up to 65535 vertices or members and tags, followed by another; non-trivial: more than 255 of either", 300, 8000, sizes},
    {"nesting", "relations nested up to 300 deep; non-trivial: deeper than 5", 2000, 50000, nesting},
  }, {"Counts stay within the 65535 the format can represent.", "Coordinates are not NaN."});
}
