// C14: assembly of multipolygons and relations.
#include "osm.hpp"

using namespace osm;

namespace {

const double Pi = 3.14159265358979323846;

/// One ring of a multipolygon with what is inside of it.
struct Node2 {
  Ring ring;                 // in any orientation
  bool outer;
  std::vector<Node2> inside;
};

struct Rings {
  Ctx &c;
  Generator &g;
  std::size_t count = 0;

  /// Star shaped ring around the centre, everything within half of the radius is inside of it.
  Ring star(std::int64_t y, std::int64_t x, std::int64_t r) {
    Ring ring;
    auto n = static_cast<std::size_t>(c.small(3, 12));
    // angles between neighbours stay small enough for the inner disc: at least 8 sectors
    std::size_t sectors = std::max<std::size_t>(n, 8);
    double turn = c.real(0, 1);
    for (std::size_t i = 0; i < sectors; ++i) {
      double a = 2*Pi*(static_cast<double>(i) + turn + c.real(0, 0.3))/static_cast<double>(sectors), d = static_cast<double>(r)*(c.chance(1, 3) ? 0.99 : c.real(0.7, 0.99));
      ring.emplace_back(y + std::llround(d*std::sin(a)), x + std::llround(d*std::cos(a)));
    }
    return ring;
  }

  /// Triangle or rectangle which has the disc of half of the radius inside only for the rectangle.
  Ring box(std::int64_t y, std::int64_t x, std::int64_t r) {
    auto d = [&] { return c.integer(r*3/5, r*99/100); };
    auto a = d(), b = d(), e = d(), f = d();
    return {{y - a, x - b}, {y - a, x + e}, {y + f, x + e}, {y + f, x - b}};
  }

  Node2 make(std::int64_t y, std::int64_t x, std::int64_t r, bool outer, int depth) {
    Node2 n;
    n.outer = outer;
    ++count;
    bool leaf = depth == 0 || !c.boolean();
    if (leaf && c.chance(1, 4)) n.ring = {{y - r/2, x - r/2}, {y - r/3, x + r/2}, {y + r/2, x}};
    else n.ring = c.chance(1, 3) ? box(y, x, r) : star(y, x, r);
    if (!leaf) fill(n.inside, y, x, r*45/100, !outer, depth - 1);
    return n;
  }

  /// Rings in some of the cells of a grid which is inside of the disc.
  void fill(std::vector<Node2> &v, std::int64_t y, std::int64_t x, std::int64_t r, bool outer, int depth) {
    if (c.boolean()) { v.push_back(make(y, x, r, outer, depth)); return; }
    std::int64_t h = r*2/5;   // half of a cell of the square in the disc, with space between
    for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2)
      if (v.empty() || c.chance(1, 3)) v.push_back(make(y + i*r/2, x + j*r/2, h/2 + h/3, outer, depth));
  }
};

struct Piece { std::vector<std::pair<std::int64_t, std::int64_t>> points; bool outer; };

/// Splits a ring to pieces which share their end points.
std::vector<Piece> split(Ctx &c, const Ring &ring, bool outer) {
  std::vector<Piece> v;
  std::size_t n = ring.size(), pieces = c.boolean() ? 1 : static_cast<std::size_t>(c.small(1, static_cast<std::int64_t>(n)));
  std::set<std::size_t> cuts;
  cuts.insert(static_cast<std::size_t>(c.draw(n - 1)));
  while (cuts.size() < pieces) { auto k = static_cast<std::size_t>(c.draw(n - 1)); while (!cuts.insert(k).second) k = (k + 1)%n; }
  std::vector<std::size_t> at(cuts.begin(), cuts.end());
  for (std::size_t i = 0; i < at.size(); ++i) {
    std::size_t from = at[i], to = at[(i + 1)%at.size()];
    Piece p{{ring[from]}, outer};
    std::size_t k = from;
    do { k = (k + 1)%n; p.points.push_back(ring[k]); } while (k != to);
    if (c.boolean()) std::reverse(p.points.begin(), p.points.end());
    v.push_back(p);
  }
  return v;
}

template<typename T>
void shuffle(Ctx &c, std::vector<T> &v) {
  for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - c.draw(i - 1)]);
}

struct World {
  Ctx &c;
  Generator g;
  std::map<std::pair<std::int64_t, std::int64_t>, std::uint64_t> at;
  std::map<std::uint64_t, std::vector<Ring>> rings;
  std::map<std::uint64_t, TextTags> merged;
  std::map<std::uint64_t, std::map<std::string, std::set<std::uint64_t>>> ids;   // relation, ring -> ways it is made of
  std::size_t pieces = 0, nested = 0, total = 0;
  explicit World(Ctx &c) : c(c), g(c) {}

  std::uint64_t node(const std::pair<std::int64_t, std::int64_t> &p) {
    auto it = at.find(p);
    if (it != at.end() && !c.chance(1, 12)) return it->second;
    auto id = g.id(g.nodeIds);
    g.d.nodes.push_back({id, p.first, p.second, c.chance(1, 10) ? g.tags(2) : TextTags()});
    return at[p] = id;
  }

  /// Adds a multipolygon in its own part of the map. How: 0 complete, 1 a piece is not there, 2 a piece is no member, 3 a way does not exist
  R multipolygon(int part, int how) {
    Rings r{c, g};
    std::vector<Node2> top;
    r.fill(top, (part/4)*20*Unit - 30*Unit, (part%4)*40*Unit - 60*Unit, c.chance(1, 6) ? Unit/1000 : 9*Unit, true, 3);
    R rel{g.id(g.relationIds), {}, {}};
    bool bare = how == 0 && c.chance(1, 3);
    if (!bare) { rel.tags = g.tags(3); if (rel.tags.empty()) rel.tags.emplace_back("natural", "water"); }
    rel.tags.emplace_back("type", "multipolygon");
    std::vector<Piece> all;
    std::vector<Ring> expected;
    std::vector<std::pair<std::size_t, Ring>> owner;   // of pieces
    std::function<void(const Node2 &)> visit = [&](const Node2 &n) {
      ++total;
      if (!n.inside.empty()) ++nested;
      auto p = split(c, n.ring, n.outer);
      all.insert(all.end(), p.begin(), p.end());
      for (const auto &i : n.inside) visit(i);
    };
    for (const auto &n : top) visit(n);
    std::function<void(const Node2 &)> outlines = [&](const Node2 &n) {
      auto oriented = [](Ring x, bool ccw) { if ((areaOf(x) > 0) != ccw) std::reverse(x.begin(), x.end()); return x; };
      if (n.outer) {
        expected.push_back(oriented(n.ring, true));
        for (const auto &i : n.inside) expected.push_back(oriented(i.ring, false));
      }
      for (const auto &i : n.inside) outlines(i);
    };
    for (const auto &n : top) outlines(n);
    if (how == 1) {
      // a hole in a ring: one of the ends of a piece is missing
      auto &p = c.pick(all);
      auto &q = const_cast<Piece &>(p);
      if (q.points.size() < 3) q.points.push_back({q.points.back().first + 1, q.points.back().second + 1});
      else q.points.pop_back();
    }
    pieces += all.size();
    std::size_t left = static_cast<std::size_t>(c.draw(all.size() - 1));
    for (std::size_t i = 0; i < all.size(); ++i) {
      W w{g.id(g.wayIds), {}, {}};
      for (const auto &p : all[i].points) w.refs.push_back(node(p));
      bool closed = all[i].points.size() > 3 && all[i].points.front() == all[i].points.back();
      if (bare ? all[i].outer : c.chance(1, 4)) {
        if (bare) { for (auto n = c.draw(2); n > 0; --n) w.tags.emplace_back("t" + std::to_string(w.id) + "_" + std::to_string(n), g.c.pick<std::string>({"yes", "no"})); }
        else w.tags = g.tags(2);
      }
      if (bare && closed && all[i].outer) for (const auto &t : w.tags) merged[rel.id].push_back(t);
      bool skip = i == left;
      if (how != 3 || !skip) g.d.ways.push_back(w);
      if (how == 2 && skip) continue;
      rel.members.push_back({'w', w.id, all[i].outer ? "outer" : "inner"});
    }
    if (how == 2 && all[left].points.front() == all[left].points.back()) how = 4;   // a whole ring less: not of interest
    shuffle(c, rel.members);
    if (c.chance(1, 4)) rel.members.insert(rel.members.begin() + static_cast<std::ptrdiff_t>(c.draw(rel.members.size())), M{'n', g.d.nodes[0].id, c.pick<std::string>({"label", "admin_centre", "outer", "inner"})});
    if (how == 0) rings[rel.id] = expected;
    if (how == 4) c.discard();
    return rel;
  }

  void verify(Form form) {
    shuffle(c, g.d.ways);
    shuffle(c, g.d.relations);
    c.note() << osm::show(g.d);
    auto bytes = osm::write(c, form, g.d);
    StringTable st(c.tmpDir());
    auto got = pbt::noThrow("import", [&] {
      return import(form, bytes, st);
    });
    Expectation e(g.d);
    e.rings = rings;
    e.merged = merged;
    auto expected = e.all();
    PBT_CHECK(c, got == expected, difference(expected, got));
  }
};

Form form(Ctx &c) { return c.chance(1, 40) ? Form::Pbf : Form::Xml; }

void multipolygons(Ctx &c) {
  World w(c);
  int part = 0;
  c.repeat(1, 3, [&](std::size_t) { auto r = w.multipolygon(part++, 0); w.g.d.relations.push_back(r); });
  if (w.pieces > 2) c.nontrivial();
  if (w.nested) c.label("nested");
  if (w.nested > 2) c.label("deep");
  if (w.pieces > w.total) c.label("split");
  w.verify(form(c));
}

void incomplete(Ctx &c) {
  World w(c);
  int part = 0;
  bool complete = false;
  c.repeat(1, 3, [&](std::size_t i) {
    int how = i == 0 ? static_cast<int>(c.integer(1, 3)) : static_cast<int>(c.draw(3));
    complete = complete || how == 0;
    auto r = w.multipolygon(part++, how);
    w.g.d.relations.push_back(r);
    c.label(how == 0 ? "complete" : how == 1 ? "gap" : how == 2 ? "member left out" : "way is missing");
  });
  if (w.pieces > 2) c.nontrivial();
  w.verify(form(c));
}

/// Any graph of relations.
void graphs(Ctx &c) {
  World w(c);
  auto &g = w.g;
  g.nodes(5);
  g.ways(5, false);
  if (g.d.nodes.empty()) g.d.nodes.push_back({g.id(g.nodeIds), 1, 2, {}});
  std::vector<std::uint64_t> ids;
  c.repeat(1, c.chance(1, 8) ? 20 : 7, [&](std::size_t) { ids.push_back(g.id(g.relationIds)); });
  bool cyclic = c.boolean();
  std::size_t refs = 0;
  for (std::size_t i = 0; i < ids.size(); ++i) {
    R r{ids[i], {}, g.tags(2)};
    auto type = c.pick<std::string>({"", "route", "building", "building", "site", "multipolygon"});
    if (!type.empty()) r.tags.emplace_back("type", type);
    if (type == "multipolygon" && r.tags.size() < 2) r.tags.emplace_back("k1", "v");
    c.repeat(1, 6, [&](std::size_t) {
      M m{c.pick({'r', 'r', 'n', 'w'}), 0, c.pick<std::string>({"", "part", "outline", "stop", "outer"})};
      if (type == "multipolygon") m.role = m.type == 'w' ? "label" : "outer";   // no rings
      if (m.type == 'n') m.id = c.pick(g.d.nodes).id;
      else if (m.type == 'w') { if (g.d.ways.empty()) return; m.id = c.pick(g.d.ways).id; }
      else {
        if (i == 0 && !cyclic) return;
        m.id = ids[c.draw(cyclic ? ids.size() - 1 : i - 1)];
        ++refs;
      }
      if (type != "multipolygon" && c.chance(1, 8)) { m.id = c.draw(100); }
      r.members.push_back(m);
    });
    if (r.members.empty()) r.members.push_back({'n', g.d.nodes[0].id, ""});
    g.d.relations.push_back(r);
  }
  if (refs > 1) c.nontrivial();
  c.label(cyclic ? "any references" : "no cycles");
  w.verify(form(c));
}

/// Everything together: multipolygons are members of other relations.
void together(Ctx &c) {
  World w(c);
  auto &g = w.g;
  int part = 0;
  std::vector<M> members;
  c.repeat(1, 3, [&](std::size_t) {
    auto r = w.multipolygon(part++, 0);
    g.d.relations.push_back(r);
    members.push_back({'r', r.id, g.role()});
    // tags of a multipolygon without own ones depend on its ways: these do not take part otherwise
    if (!w.merged.count(r.id) && r.tags.size() > 1) for (const auto &m : r.members) if (m.type == 'w') members.push_back({'w', m.id, g.role()});
  });
  for (const auto &n : g.d.nodes) if (members.size() < 40) members.push_back({'n', n.id, g.role()});
  c.repeat(1, 4, [&](std::size_t) {
    R r{g.id(g.relationIds), {}, g.tags(2)};
    r.tags.emplace_back("type", c.pick<std::string>({"building", "site", "building"}));
    c.repeat(1, 6, [&](std::size_t) { r.members.push_back(c.pick(members)); });
    g.d.relations.push_back(r);
    members.push_back({'r', r.id, g.role()});
  });
  c.nontrivial();
  w.verify(form(c));
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C14", {
    {"multipolygons", "up to 3 multipolygons of nested rings (up to 4 levels of outlines, holes and islands; triangles, boxes, stars), each ring split to any number of ways of any direction, members, ways and relations in any order, end points also as different nodes of the same position, with own tags or tags of the outer ways; non-trivial: at least three ways", 12000, 400000, multipolygons},
    {"incomplete", "the same with one ring which is not closed, one way which is no member or one way which is not there, next to complete ones; non-trivial: at least three ways", 8000, 300000, incomplete},
    {"graphs", "up to 20 relations (plain, building, multipolygon without rings) which refer to nodes, ways and each other in any way, with cycles, missing members, repeated members; non-trivial: two references between relations", 25000, 1000000, graphs},
    {"together", "multipolygons, their ways and nodes are members of buildings and other relations; every case is non-trivial", 8000, 300000, together},
  });
}
