// C07: clipping to tiles against independent length / area computations.
#include "geometry.hpp"
#include "model.hpp"
#include "index/ElementGeometryClipper.hpp"

using namespace model;
using geometry::Path;
using geometry::P;
using pbt::Ctx;

namespace {

const double Eps = 3e-7;  // coordinates are kept with seven digits

Path toPath(const std::vector<GeoCoordinate> &v) {
  Path p;
  for (const auto &g : v) p.push_back({g.longitude, g.latitude});
  return p;
}
geometry::Box toBox(const BoundingBox &b) { return {b.minPoint.longitude, b.minPoint.latitude, b.maxPoint.longitude, b.maxPoint.latitude}; }

std::string tagsOf(const Element &e) {
  std::string s;
  for (const auto &t : e.tags) s += std::to_string(t.key) + "=" + std::to_string(t.value) + ";";
  return s;
}

enum Expectation { No, Maybe, Yes };

struct Oracle {
  Ctx &c;
  geometry::Box box;
  std::string where;
  bool cut = false, holeCut = false, multi = false;

  bool strictlyInside(const P &p, double eps) const { return p.x > box.x0 + eps && p.x < box.x1 - eps && p.y > box.y0 + eps && p.y < box.y1 - eps; }
  bool allInside(const Path &p) const { for (const auto &q : p) if (!strictlyInside(q, Eps)) return false; return true; }
  bool within(const P &p) const { return p.x > box.x0 - Eps && p.x < box.x1 + Eps && p.y > box.y0 - Eps && p.y < box.y1 + Eps; }

  geometry::Box grown(double d) const { return {box.x0 - d, box.y0 - d, box.x1 + d, box.y1 + d}; }

  Expectation expected(const Element &e) const {
    if (auto *n = dynamic_cast<const Node *>(&e)) {
      P p{n->coordinate.longitude, n->coordinate.latitude};
      if (strictlyInside(p, 1e-12)) return Yes;
      return within(p) && !(p.x < box.x0 || p.x > box.x1 || p.y < box.y0 || p.y > box.y1) ? Maybe : No;
    }
    if (auto *w = dynamic_cast<const Way *>(&e)) {
      auto p = toPath(w->coordinates);
      if (allInside(p)) return Yes;
      if (geometry::lengthInBox(p, grown(-2*Eps)) > 8*Eps) return Yes;
      return geometry::lengthInBox(p, grown(2*Eps)) > 0 ? Maybe : No;
    }
    if (auto *a = dynamic_cast<const Area *>(&e)) {
      auto p = toPath(a->coordinates);
      if (allInside(p)) return Yes;
      double inner = geometry::areaInBox(p, grown(-3*Eps));
      if (inner > 4*Eps*(geometry::perimeter(p, true)*0.01 + 4*Eps) && inner > 1e-10) return Yes;
      return geometry::areaInBox(p, grown(2*Eps)) > 0 ? Maybe : No;
    }
    auto &r = static_cast<const Relation &>(e);
    Expectation x = No;
    for (const auto &m : r.elements) x = std::max(x, expected(*m));
    return x;
  }

  /// Checks the geometry, identifier and tags are checked against the given ones.
  void match(const Element &orig, const Element &got, std::uint64_t id, const std::string &tags) {
    if (auto *n = dynamic_cast<const Node *>(&orig)) {
      auto *g = dynamic_cast<const Node *>(&got);
      PBT_CHECK(c, g && g->coordinate.latitude == n->coordinate.latitude && g->coordinate.longitude == n->coordinate.longitude, where << ": node became " << describe(got));
      identity(got, id, tags);
    } else if (auto *w = dynamic_cast<const Way *>(&orig)) {
      matchLine(toPath(w->coordinates), false, orig, got, id, tags);
    } else if (auto *a = dynamic_cast<const Area *>(&orig)) {
      matchLine(toPath(a->coordinates), true, orig, got, id, tags);
    } else {
      auto &r = static_cast<const Relation &>(orig);
      std::vector<std::shared_ptr<Element>> reached;
      bool certain = true;
      for (const auto &m : r.elements) {
        auto x = expected(*m);
        if (x == Maybe) certain = false;
        if (x == Yes) reached.push_back(m);
      }
      if (!certain) c.discard();
      PBT_CHECK(c, !reached.empty(), where << ": nothing of the relation is here, got " << describe(got));
      if (reached.size() == 1) {
        // a single part stands for the relation
        match(*reached[0], got, id, tags);
        return;
      }
      identity(got, id, tags);
      auto *g = dynamic_cast<const Relation *>(&got);
      PBT_CHECK(c, g && g->elements.size() == reached.size(), where << ": relation has " << reached.size() << " members here, got " << describe(got));
      for (std::size_t i = 0; i < reached.size(); ++i) match(*reached[i], *g->elements[i], reached[i]->id, tagsOf(*reached[i]));
    }
  }

  void identity(const Element &got, std::uint64_t id, const std::string &tags) {
    PBT_CHECK(c, got.id == id, where << ": identifier " << id << " became " << got.id);
    PBT_CHECK(c, tagsOf(got) == tags, where << ": tags " << tags << " became " << tagsOf(got));
  }

  void matchLine(const Path &orig, bool closed, const Element &o, const Element &got, std::uint64_t id, const std::string &tags) {
    std::vector<Path> pieces;
    auto add = [&](const Element &e) {
      if (closed) {
        auto *a = dynamic_cast<const Area *>(&e);
        PBT_CHECK(c, a, where << ": part of area is " << describe(e));
        pieces.push_back(toPath(a->coordinates));
      } else {
        auto *w = dynamic_cast<const Way *>(&e);
        PBT_CHECK(c, w, where << ": part of way is " << describe(e));
        pieces.push_back(toPath(w->coordinates));
      }
    };
    PBT_CHECK(c, got.id == id, where << ": identifier " << id << " became " << got.id);
    if (auto *r = dynamic_cast<const Relation *>(&got)) {
      multi = true;
      PBT_CHECK(c, r->elements.size() > 1, where << ": relation of " << r->elements.size() << " parts");
      // tags are kept by the relation or by all of the parts
      bool onRelation = tagsOf(got) == tags;
      for (const auto &m : r->elements) {
        add(*m);
        PBT_CHECK(c, onRelation || tagsOf(*m) == tags, where << ": tags " << tags << " of a part became " << tagsOf(*m));
        PBT_CHECK(c, tagsOf(*m) == tagsOf(o) || tagsOf(*m) == tags || tagsOf(*m).empty(), where << ": tags of a part became " << tagsOf(*m));
      }
    } else {
      PBT_CHECK(c, tagsOf(got) == tags, where << ": tags " << tags << " became " << tagsOf(got));
      add(got);
    }
    if (allInside(orig)) {
      PBT_CHECK(c, pieces.size() == 1, where << ": geometry entirely inside was split");
      bool same = pieces[0].size() == orig.size();
      for (std::size_t i = 0; same && i < orig.size(); ++i) same = pieces[0][i].x == orig[i].x && pieces[0][i].y == orig[i].y;
      PBT_CHECK(c, same, where << ": geometry entirely inside was changed to " << geometry::show(pieces[0]));
      return;
    }
    cut = true;
    double sum = 0;
    std::size_t vertices = 0;
    for (const auto &p : pieces) {
      PBT_CHECK(c, p.size() >= (closed ? 3u : 2u), where << ": part with " << p.size() << " points");
      vertices += p.size();
      for (const auto &q : p) PBT_CHECK(c, within(q), where << ": part leaves the tile: " << geometry::show(p));
      if (closed) {
        sum += geometry::area(p);
        if (geometry::area(p) > 1e-9) {
          PBT_CHECK(c, (geometry::signedArea(p) > 0) == (geometry::signedArea(orig) > 0), where << ": orientation is lost, so an outline and a hole cannot be told: " << geometry::show(p));
          if (geometry::signedArea(orig) < 0) holeCut = true;
        }
        for (std::size_t i = 0; i < p.size(); ++i) {
          P m{(p[i].x + p[(i + 1) % p.size()].x)/2, (p[i].y + p[(i + 1) % p.size()].y)/2};
          PBT_CHECK(c, geometry::inside(m, orig) || geometry::distanceToPath(m, orig, true) < 4*Eps, where << ": part leaves the area at " << m.x << "," << m.y << ": " << geometry::show(p));
        }
      } else {
        sum += geometry::perimeter(p, false);
        for (std::size_t i = 0; i + 1 < p.size(); ++i)
          for (double t : {0.0, 0.3, 1.0}) {
            P m{p[i].x + (p[i + 1].x - p[i].x)*t, p[i].y + (p[i + 1].y - p[i].y)*t};
            PBT_CHECK(c, geometry::distanceToPath(m, orig, false) < 4*Eps, where << ": part leaves the way at " << m.x << "," << m.y << ": " << geometry::show(p));
          }
      }
    }
    auto measure = [&](double d) { return closed ? geometry::areaInBox(orig, grown(d)) : geometry::lengthInBox(orig, grown(d)); };
    double tol = closed ? 4*Eps*geometry::perimeter(orig, true) + 1e-11 : 4*Eps*static_cast<double>(vertices + orig.size());
    PBT_CHECK(c, sum >= measure(-2*Eps) - tol && sum <= measure(2*Eps) + tol, where << ": " << (closed ? "area" : "length") << " here is " << measure(0) << ", parts have " << sum << " of " << describe(o) << " in " << describe(got));
    if (!closed)
      for (const auto &q : orig) {
        if (!strictlyInside(q, Eps)) continue;
        double d = 1e300;
        for (const auto &p : pieces) d = std::min(d, geometry::distanceToPath(q, p, false));
        PBT_CHECK(c, d < 4*Eps, where << ": point " << q.x << "," << q.y << " of the way is missing");
      }
  }
};

struct Grid {
  int lod, x, y, nx, ny;
  BoundingBox box() const {
    auto a = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(lod, x, y + ny - 1)), b = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(lod, x + nx - 1, y));
    return BoundingBox(a.minPoint, b.maxPoint);
  }
};

Grid genGrid(Ctx &c) {
  Grid g;
  g.lod = static_cast<int>(c.integer(1, 16));
  g.nx = static_cast<int>(c.integer(1, 3));
  g.ny = static_cast<int>(c.integer(1, 3));
  int n = 1 << g.lod;
  g.nx = std::min(g.nx, n);
  g.ny = std::min(g.ny, n);
  g.x = static_cast<int>(c.integer(0, n - g.nx));
  g.y = static_cast<int>(c.integer(0, n - g.ny));
  return g;
}

struct Gen {
  Ctx &c;
  Grid g;
  BoundingBox box;
  std::uint64_t id = 100;
  Gen(Ctx &c, const Grid &g) : c(c), g(g), box(g.box()) {}

  // x, y in units of the grid
  P at(double u, double v) const { return {box.minPoint.longitude + u*box.width(), box.minPoint.latitude + v*box.height()}; }

  P point() {
    if (c.chance(1, 8)) {
      // a corner or a border of a tile
      auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(g.lod, g.x + static_cast<int>(c.integer(0, g.nx - 1)), g.y + static_cast<int>(c.integer(0, g.ny - 1))));
      P p = at(c.real(0.05, 0.95), c.real(0.05, 0.95));
      auto k = c.draw(2);
      if (k != 1) p.x = b.minPoint.longitude;
      if (k != 0) p.y = b.minPoint.latitude;
      return p;
    }
    if (c.chance(1, 6)) return at(c.grid(0.03, 0.97, 8), c.grid(0.03, 0.97, 8));
    return at(c.real(0.01, 0.99), c.real(0.01, 0.99));
  }

  static GeoCoordinate geo(const P &p) { return GeoCoordinate(p.y, p.x); }

  std::vector<Tag> tags() {
    std::vector<Tag> t;
    c.repeat(0, 3, [&](std::size_t i) { t.emplace_back(static_cast<std::uint32_t>(i*10 + 1), static_cast<std::uint32_t>(c.draw(5))); });
    return t;
  }

  std::shared_ptr<Element> node() { auto n = std::make_shared<Node>(); n->coordinate = geo(point()); return n; }

  std::shared_ptr<Element> way() {
    auto w = std::make_shared<Way>();
    c.repeat(2, 10, [&](std::size_t) { w->coordinates.push_back(geo(point())); });
    if (c.chance(1, 6) && w->coordinates.size() > 2) w->coordinates.push_back(w->coordinates[0]);
    return w;
  }

  std::shared_ptr<Element> area(bool ccw) {
    auto a = std::make_shared<Area>();
    double w = c.real(0.02, 0.96), h = c.real(0.02, 0.96);
    auto p = geometry::transform(geometry::polygon(c), c.real(0.02, 0.97 - w), c.real(0.02, 0.97 - h), w, h);
    for (auto &q : p) q = at(std::max(0.001, std::min(0.999, q.x)), std::max(0.001, std::min(0.999, q.y)));
    geometry::orient(p, ccw);
    std::rotate(p.begin(), p.begin() + static_cast<long>(c.draw(p.size() - 1)), p.end());
    for (const auto &q : p) a->coordinates.push_back(geo(q));
    return a;
  }

  std::shared_ptr<Element> element(int depth) {
    std::shared_ptr<Element> e;
    switch (c.draw(depth < 2 ? 4 : 3)) {
      case 0: e = node(); break;
      case 1: e = way(); break;
      case 2: e = area(true); break;
      case 3: e = area(false); break;
      default: {
        auto r = std::make_shared<Relation>();
        c.repeat(1, 4, [&](std::size_t) { r->elements.push_back(element(depth + 1)); });
        e = r;
      }
    }
    e->id = id++;
    e->tags = tags();
    return e;
  }
};

/// Discards geometry for which a fair answer is not defined.
void admit(Ctx &c, const Element &e, const Grid &g) {
  LeafVisitor v;
  double unit = std::min(g.box().width()/g.nx, g.box().height()/g.ny);
  v.area = [&](const Area &a) { if (!geometry::isSimple(toPath(a.coordinates), std::max(4*Eps, unit*1e-6))) c.discard(); };
  v.way = [&](const Way &w) {
    auto p = toPath(w.coordinates);
    for (std::size_t i = 0; i + 1 < p.size(); ++i) {
      // known finding: the way with a segment of constant latitude
      if (std::fabs(p[i].y - p[i + 1].y) < 2e-7) c.discard();
      if (geometry::dist(p[i], p[i + 1]) < 8*Eps) c.discard();
      // nobody owns a segment on a border
      for (int y = 0; y <= g.ny; ++y) {
        double b = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(g.lod, g.x, g.y + y)).maxPoint.latitude;
        if (std::fabs(p[i].y - b) < 8*Eps && std::fabs(p[i + 1].y - b) < 8*Eps) c.discard();
      }
      for (int x = 0; x <= g.nx; ++x) {
        double b = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(g.lod, g.x + x, g.y)).minPoint.longitude;
        if (std::fabs(p[i].x - b) < 8*Eps && std::fabs(p[i + 1].x - b) < 8*Eps) c.discard();
      }
    }
    // parts of the way which lie on each other are fine for the length, points shared by parts too
  };
  e.accept(v);
}

void clip(Ctx &c) {
  Grid g = genGrid(c);
  if (g.box().width() < 1e-3) c.label("deep zoom");
  Gen gen(c, g);
  std::vector<std::shared_ptr<Element>> elements;
  c.repeat(1, 3, [&](std::size_t) { elements.push_back(gen.element(0)); });
  c.note() << "grid " << g.lod << ":" << g.x << "+" << g.nx << ":" << g.y << "+" << g.ny << " ";
  for (const auto &e : elements) { admit(c, *e, g); c.note() << describe(*e) << " "; }
  bool cut = false;
  for (int ty = 0; ty < g.ny; ++ty)
    for (int tx = 0; tx < g.nx; ++tx) {
      QuadKey q(g.lod, g.x + tx, g.y + ty);
      auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
      std::vector<std::shared_ptr<Element>> got;
      Collector collect;
      bool foreign = false;
      utymap::index::ElementGeometryClipper clipper(q, box, [&](const Element &e, const QuadKey &k) {
        foreign |= !(k == q);
        e.accept(collect);
      });
      // one clipper serves many elements
      for (const auto &e : elements) {
        Oracle o{c, toBox(box), "tile " + show(q) + " element " + std::to_string(e->id)};
        collect.elements.clear();
        auto before = describe(*e);
        pbt::noThrow(o.where, [&] { clipper.clipAndCall(*e); });
        PBT_CHECK(c, describe(*e) == before, o.where << ": original was changed");
        PBT_CHECK(c, !foreign, o.where << ": delivered for another tile");
        PBT_CHECK(c, collect.elements.size() <= 1, o.where << ": delivered " << collect.elements.size() << " times");
        auto x = o.expected(*e);
        if (x == Yes) PBT_CHECK(c, collect.elements.size() == 1, o.where << ": a part is here, but nothing is delivered");
        if (x == No) PBT_CHECK(c, collect.elements.empty(), o.where << ": no part is here, but delivered is " << describe(*collect.elements[0]));
        if (x == Maybe || collect.elements.empty()) continue;
        o.match(*e, *collect.elements[0], e->id, tagsOf(*e));
        if (o.cut) cut = true;
        if (o.multi) c.label("several parts in a tile");
        if (o.holeCut) c.label("clockwise area cut");
      }
    }
  for (const auto &e : elements) c.label(dynamic_cast<Node *>(e.get()) ? "node" : dynamic_cast<Way *>(e.get()) ? "way" : dynamic_cast<Area *>(e.get()) ? "area" : "relation");
  if (cut) c.nontrivial();
}

/// The library loses track of an open path which ends with a horizontal segment.
void horizontal(Ctx &c) {
  Way way;
  way.id = 1;
  way.coordinates = {GeoCoordinate(1, -176), GeoCoordinate(40, 1), GeoCoordinate(40, -170)};
  QuadKey q(1, 0, 0);
  auto box = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  Collector collect;
  utymap::index::ElementGeometryClipper clipper(q, box, [&](const Element &e, const QuadKey &) { e.accept(collect); });
  clipper.clipAndCall(way);
  c.check(collect.elements.size() == 1, "nothing is delivered");
  Oracle o{c, toBox(box), "tile 1:0:0"};
  o.match(way, *collect.elements[0], 1, "");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C07", {
    {"clip", "up to 3 elements (nodes, ways also closed or self-crossing, simple convex and concave areas of both orientations, nested relations) against all tiles of a grid of up to 3x3 tiles of zoom 1..16, one clipper per tile; per tile: identity, containment, length/area, orientation; non-trivial: something is cut", 300000, 6000000, clip},
  }, {"Coordinates are kept with seven decimal digits; a tolerance of 3e-7 degrees per vertex is granted.", "Segments on a tile border and slivers below the tolerance belong to nobody; areas are simple polygons.",
     "Ways with a segment of constant latitude are left to the known finding."},
    {{"horizontal way segment", horizontal}});
}
