// C26: tiles, coordinates and data formats of the C# library (executed by mono, see csharp/Server.cs).
#include "model.hpp"
#include "mono.hpp"

#include <zlib.h>

#include <cmath>
#include <map>
#include <set>

using namespace model;
using namespace utymap::utils;
using mono::Command;
using mono::Session;
using pbt::Ctx;

namespace {

GeoCoordinate genPoint(Ctx &c, int lod) {
  switch (c.draw(3)) {
    case 0: return GeoCoordinate(c.real(-85, 85), c.real(-180, 180));
    case 1: return GeoCoordinate(c.grid(-80, 80, 160), c.grid(-180, 180, 360));
    case 2: {   // close to corners of tiles
      auto n = (1LL << lod);
      auto box = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, static_cast<int>(c.integer(0, n - 1)), static_cast<int>(c.integer(0, n - 1))));
      return GeoCoordinate(box.minPoint.latitude + c.grid(-1e-6, 1e-6, 5), box.minPoint.longitude + c.grid(-1e-6, 1e-6, 5));
    }
    default: return GeoCoordinate(c.grid(-90, 90, 36), c.grid(-180, 180, 16));
  }
}

QuadKey genKey(Ctx &c, int maxLod = 19) {
  int lod = static_cast<int>(c.integer(1, maxLod));
  auto n = (1LL << lod) - 1;
  auto axis = [&]() { return static_cast<int>(c.chance(1, 4) ? n - c.small(0, n) : c.integer(0, n)); };
  int x = axis();
  return QuadKey(lod, x, axis());
}

QuadKey key(mono::Answer &a) { int x = static_cast<int>(a.i()), y = static_cast<int>(a.i()); return QuadKey(static_cast<int>(a.i()), x, y); }
GeoCoordinate geo(mono::Answer &a) { double lat = a.d(); return GeoCoordinate(lat, a.d()); }
BoundingBox box(mono::Answer &a) { auto min = geo(a); return BoundingBox(min, geo(a)); }
bool same(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
bool same(const GeoCoordinate &a, const GeoCoordinate &b, double tol) { return same(a.latitude, b.latitude, tol) && same(a.longitude, b.longitude, tol); }
bool same(const BoundingBox &a, const BoundingBox &b, double tol) { return same(a.minPoint, b.minPoint, tol) && same(a.maxPoint, b.maxPoint, tol); }
std::string show(const GeoCoordinate &g) { std::ostringstream s; s.precision(17); s << "(" << g.latitude << ", " << g.longitude << ")"; return s.str(); }
std::string show(const BoundingBox &b) { return show(b.minPoint) + ".." + show(b.maxPoint); }
using model::show;

/// Distance of a coordinate to the next border of a tile, in tiles.
double toBorder(const GeoCoordinate &g, int lod) {
  double n = std::pow(2.0, lod);
  double x = (g.longitude + 180)/360*n, y = (1 - std::asinh(std::tan(g.latitude*M_PI/180))/M_PI)/2*n;
  return std::min(std::fabs(x - std::round(x)), std::fabs(y - std::round(y)));
}

// ---- tiles

void tileFacet(Ctx &c) {
  Session s(c);
  c.note().precision(17);
  {
    int lod = static_cast<int>(c.integer(1, 19));
    auto g = genPoint(c, lod);
    c.note() << show(g) << " lod " << lod << "\n";
    auto a = s.call(Command("Key").g(g).i(lod));
    auto got = key(a), want = GeoUtils::GeoCoordinateToQuadKey(g, lod);
    PBT_CHECK(c, got == want || (toBorder(g, lod) < 1e-7 && std::abs(got.tileX - want.tileX) <= 1 && std::abs(got.tileY - want.tileY) <= 1),
      "tile of " << show(g) << " is " << show(got) << ", of the engine " << show(want));
    if (lod > 8) c.nontrivial();
  }
  {
    auto q = genKey(c);
    c.note() << show(q) << "\n";
    auto a = s.call(Command("TileBox").q(q));
    auto got = box(a), want = GeoUtils::quadKeyToBoundingBox(q);
    PBT_CHECK(c, same(got, want, 1e-9), "box of tile " << show(q) << " is " << show(got) << ", of the engine " << show(want));
    a = s.call(Command("KeyText").q(q));
    auto text = a.s();
    PBT_CHECK(c, text == GeoUtils::quadKeyToString(q), "text of " << show(q) << " is " << text);
    a = s.call(Command("KeyParse").s(text));
    auto parsed = key(a);
    PBT_CHECK(c, parsed == q, text << " is parsed to " << show(parsed));
    if (c.chance(1, 3)) {
      auto bad = text;
      auto at = static_cast<std::size_t>(c.integer(0, static_cast<std::int64_t>(bad.size()) - 1));
      bad[at] = c.pick({'4', 'a', '/', ' ', '-', ':', '9'});
      auto r = s.tryCall(Command("KeyParse").s(bad));
      PBT_CHECK(c, !r.exception.empty() && r.exception.compare(0, 17, "ArgumentException") == 0, "invalid text '" << bad << "' of a tile is accepted, " << r.exception);
    }
    auto p = c.boolean() ? q : QuadKey(q.levelOfDetail + (c.boolean() ? 1 : 0), q.tileX + (c.boolean() ? 1 : 0), q.tileY + (c.boolean() ? 1 : 0));
    if (c.chance(1, 4)) std::swap(p.tileX, p.tileY);
    a = s.call(Command("KeyEquals").q(q).q(p));
    bool equal = p == q;
    bool e1 = a.i(), e2 = a.i(), hash = a.i(), set = a.i(), other = a.i();
    PBT_CHECK(c, e1 == equal && e2 == equal && set == equal && !other && (hash || !equal), "equality of " << show(q) << " and " << show(p) << ": " << e1 << e2 << hash << set << other);
  }
}

void tilesFacet(Ctx &c) {
  Session s(c);
  int lod = static_cast<int>(c.integer(1, 19));
  auto n = (1LL << lod);
  auto w = c.small(0, std::min<long long>(n, 14) - 1), h = c.small(0, std::min<long long>(n, 14) - 1);
  auto x = c.integer(0, n - 1 - w), y = c.integer(0, n - 1 - h);
  auto first = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, static_cast<int>(x), static_cast<int>(y + h)));
  auto last = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, static_cast<int>(x + w), static_cast<int>(y)));
  auto inside = [&](const BoundingBox &b) {
    return GeoCoordinate(b.minPoint.latitude + b.height()*c.grid(0.01, 0.99, 7), b.minPoint.longitude + b.width()*c.grid(0.01, 0.99, 7));
  };
  auto a = inside(first), b = inside(last);
  if (w == 0 && a.longitude > b.longitude) std::swap(a.longitude, b.longitude);
  if (h == 0 && a.latitude > b.latitude) std::swap(a.latitude, b.latitude);
  BoundingBox bbox(a, b);
  c.note() << show(bbox) << " lod " << lod << ": " << w + 1 << "x" << h + 1 << " tiles\n";
  std::set<std::pair<int, int>> want, got;
  GeoUtils::visitTileRange(bbox, lod, [&](const QuadKey &q, const BoundingBox &) { want.insert({q.tileX, q.tileY}); });
  auto r = s.call(Command("Tiles").box(bbox).i(lod));
  while (r.more()) {
    auto q = key(r);
    PBT_CHECK(c, q.levelOfDetail == lod, "tile " << show(q) << " for zoom " << lod);
    PBT_CHECK(c, got.insert({q.tileX, q.tileY}).second, "tile " << show(q) << " twice");
    PBT_CHECK(c, want.count({q.tileX, q.tileY}), "tile " << show(q) << " does not overlap the box");
  }
  for (const auto &t : want) PBT_CHECK(c, got.count(t), "tile " << t.first << ":" << t.second << " overlaps the box but is missing");
  if (w > 0 && h > 0) c.nontrivial();
  c.label(std::string(w % 2 ? "even" : "odd") + " width, " + (h % 2 ? "even" : "odd") + " height");
}

// ---- coordinates

struct Projection {
  std::string kind;
  GeoCoordinate zero;
  double radius = 0;
  std::vector<double> scales;   // outer ones first
  void put(Command &command) const {
    for (double scale : scales) command.s("scaled").d(scale);
    if (kind == "sphere") command.s(kind).d(radius);
    else command.s(kind).g(zero);
  }
  double scale() const { double r = 1; for (double s : scales) r *= s; return r; }
};

Projection genProjection(Ctx &c, bool plane) {
  Projection p;
  p.kind = plane || c.boolean() ? "plane" : "sphere";
  p.zero = GeoCoordinate(c.real(-80, 80), c.real(-170, 170));
  p.radius = c.pick({6371.0, 1.0, 100.5, 6378137.0});
  if (c.boolean()) p.scales.push_back(c.pick({0.01, 0.5, 2.0, 10.0}));
  if (c.chance(1, 4)) p.scales.push_back(c.pick({0.01, 0.5, 2.0, 10.0}));
  return p;
}

void projectionFacet(Ctx &c) {
  Session s(c);
  auto p = genProjection(c, false);
  bool sphere = p.kind == "sphere";
  auto g = sphere ? GeoCoordinate(c.real(-90, 90), c.real(-180, 180))
    : GeoCoordinate(p.zero.latitude + c.grid(-1, 1, 50)*c.pick({0.001, 0.1, 4.0}), p.zero.longitude + c.grid(-1, 1, 50)*c.pick({0.001, 0.1, 4.0}));
  double height = c.chance(1, 3) ? 0 : c.grid(-100, 9000, 91);
  c.note() << p.kind << " radius " << p.radius << " zero " << show(p.zero) << " scale " << p.scale() << " at " << show(g) << " height " << height << "\n";
  Command command("Project");
  p.put(command);
  auto a = s.call(command.g(g).d(height));
  double x = a.d(), y = a.d(), z = a.d();
  double k = p.scale();
  if (sphere) {
    double r = (p.radius + height)*k, lat = g.latitude*M_PI/180, lon = g.longitude*M_PI/180;
    double tol = std::fabs(r)*1e-6 + 1e-6;
    PBT_CHECK(c, same(x, r*std::cos(lat)*std::cos(lon), tol) && same(y, r*std::sin(lat), tol) && same(z, r*std::cos(lat)*std::sin(lon), tol),
      "is projected to " << x << " " << y << " " << z);
    PBT_CHECK(c, same(std::sqrt(x*x + y*y + z*z), std::fabs(r), tol), "is not at its height above the sphere");
    if (height != 0) c.nontrivial();
    return;
  }
  // metres to the east and to the north of the zero point
  double circle = 40075160*std::cos(p.zero.latitude*M_PI/180)/360;
  double east = (g.longitude - p.zero.longitude)*circle, north = (g.latitude - p.zero.latitude)*40008000/360;
  double tol = k*(2e-5 + 1e-6*std::max({std::fabs(east), std::fabs(north), std::fabs(height)}));
  PBT_CHECK(c, same(x, east*k, tol) && same(z, north*k, tol) && same(y, height*k, tol), "is projected to " << x << " " << y << " " << z << " instead of " << east*k << " " << height*k << " " << north*k);
  auto world = GeoUtils::worldToGeo(p.zero, east, north);
  PBT_CHECK(c, same(world, g, 1e-9), "the engine gives " << show(world));
  Command back("Unproject");
  p.put(back);
  a = s.call(back.d(x).d(y).d(z));
  auto r = geo(a);
  double degrees = (2e-5 + 1e-6*std::max(std::fabs(east), std::fabs(north)))/circle;
  PBT_CHECK(c, same(r, g, degrees), "and projected back to " << show(r));
  if (!p.scales.empty()) c.nontrivial();
  // plain functions
  a = s.call(Command("ToMap").g(p.zero).g(g));
  double mx = a.d(), my = a.d();
  PBT_CHECK(c, same(mx*k, x, tol) && same(my*k, z, tol), "map coordinate is " << mx << " " << my);
  a = s.call(Command("ToGeo").g(p.zero).d(east).d(north));
  r = geo(a);
  PBT_CHECK(c, same(r, world, 1e-11), "coordinate of the map coordinate is " << show(r) << ", of the engine " << show(world));
  a = s.call(Command("ToGeoVector").g(p.zero).d(mx).d(my));
  r = geo(a);
  PBT_CHECK(c, same(r, g, degrees), "coordinate of the map vector is " << show(r));
}

void distanceFacet(Ctx &c) {
  Session s(c);
  auto g = GeoCoordinate(c.grid(-84, 84, 336), c.grid(-179, 179, 400));
  {
    double size = c.pick({0.0001, 0.01, 1.0, 60.0});
    auto h = GeoCoordinate(std::max(-89.0, std::min(89.0, g.latitude + c.grid(-1, 1, 20)*size)), g.longitude + c.grid(-1, 1, 20)*size);
    auto a = s.call(Command("Distance").g(g).g(h));
    double got = a.d(), want = GeoUtils::distance(g, h);
    PBT_CHECK(c, same(got, want, 1e-6 + 1e-9*want), "distance of " << show(g) << " and " << show(h) << " is " << got << ", of the engine " << want);
    a = s.call(Command("Coordinates").g(g).g(c.boolean() ? g : h));
    bool e1 = a.i(), ne = a.i(), e2 = a.i(), other = a.i(), hash = a.i();
    PBT_CHECK(c, e1 == e2 && e1 != ne && !other && (!e1 || hash), "equality of coordinates: " << e1 << ne << e2 << other << hash);
  }
  {
    // a box of given size around a point
    double w = c.pick({1.0, 50.0, 3000.0, 20000.0})*c.grid(0.1, 1, 9), h = c.pick({1.0, 50.0, 3000.0, 20000.0})*c.grid(0.1, 1, 9);
    if (std::fabs(g.latitude) > 80) g.latitude /= 2;
    bool square = c.chance(1, 3);
    c.note() << show(g) << " " << w << " x " << h << (square ? " square" : "") << "\n";
    auto a = square ? s.call(Command("AroundSquare").g(g).d(w)) : s.call(Command("Around").g(g).d(w).d(h));
    auto b = box(a);
    if (square) h = w;
    PBT_CHECK(c, same(b.center(), g, 1e-9), "center is " << show(b.center()));
    double lat = g.latitude*M_PI/180;
    double an = 6378137.0*6378137.0*std::cos(lat), bn = 6356752.3*6356752.3*std::sin(lat), ad = 6378137.0*std::cos(lat), bd = 6356752.3*std::sin(lat);
    double radius = std::sqrt((an*an + bn*bn)/(ad*ad + bd*bd));
    double width = b.width()*M_PI/180*radius*std::cos(lat), height = b.height()*M_PI/180*radius;
    PBT_CHECK(c, same(width, w, w*1e-5) && same(height, h, h*1e-5), "box is " << width << " m wide and " << height << " m high");
    if (!square && w != h) c.nontrivial();
  }
}

void boxFacet(Ctx &c) {
  Session s(c);
  auto point = [&]() { return GeoCoordinate(c.grid(-80, 80, 16), c.grid(-180, 180, 16)); };
  auto boxOf = [&]() { auto a = point(), b = point(); return BoundingBox(GeoCoordinate(std::min(a.latitude, b.latitude), std::min(a.longitude, b.longitude)), GeoCoordinate(std::max(a.latitude, b.latitude), std::max(a.longitude, b.longitude))); };
  Command command("Box");
  BoundingBox m;
  std::vector<std::pair<std::string, std::function<void(mono::Answer &)>>> asked;
  std::string history;
  bool empty = false;
  switch (c.draw(2)) {
    case 0: m = boxOf(); command.s("box").box(m); history += "box " + show(m); break;
    case 1: command.s("new"); history += "new"; empty = true; break;
    default: command.s("empty"); history += "empty"; empty = true; break;
  }
  std::vector<std::pair<std::string, GeoCoordinate>> centers;
  std::vector<std::pair<std::string, bool>> flags;
  std::string order;
  int grown = 0;
  c.repeat(1, 8, [&](std::size_t) {
    auto op = c.draw(empty ? 2 : 5);
    if (op == 0) { auto g = point(); m.expand(g); command.s("extend").g(g); history += "; extend " + show(g); empty = false; ++grown; }
    else if (op == 1) { auto g = point(); m.expand(g); command.s("point").g(g); history += "; point " + show(g); empty = false; ++grown; }
    else if (op == 2) { auto b = boxOf(); m.expand(b); command.s("add").box(b); history += "; add " + show(b); empty = false; ++grown; }
    else if (op == 3) { auto g = point(); command.s("contains").g(g); flags.emplace_back("contains " + show(g) + " after " + history, m.contains(g)); order += 'f'; }
    else if (op == 4) { auto b = boxOf(); command.s("intersects").box(b); flags.emplace_back("intersects " + show(b) + " after " + history, m.intersects(b)); order += 'f'; }
    else { command.s("center"); centers.emplace_back(history, m.center()); order += 'c'; }
  });
  command.s("end");
  c.note() << history << "\n";
  if (empty) c.discard();
  auto a = s.call(command);
  std::size_t f = 0, k = 0;
  for (char o : order) {
    if (o == 'f') { bool got = a.i(); PBT_CHECK(c, got == flags[f].second, flags[f].first << ": " << got); ++f; }
    else { auto got = geo(a); PBT_CHECK(c, same(got, centers[k].second, 1e-9), "center " << show(got) << " after " << centers[k].first); ++k; }
  }
  auto got = box(a);
  PBT_CHECK(c, same(got, m, 0), "box is " << show(got) << ", want " << show(m));
  if (grown > 1 && !order.empty()) c.nontrivial();
}

void rectangleFacet(Ctx &c) {
  // a tile's rectangle on the map and back
  Session s(c);
  int lod = static_cast<int>(c.integer(12, 19));
  auto p = genProjection(c, true);
  auto g = GeoCoordinate(p.zero.latitude + c.grid(-0.05, 0.05, 20), p.zero.longitude + c.grid(-0.05, 0.05, 20));
  auto q = GeoUtils::GeoCoordinateToQuadKey(g, lod);
  auto want = GeoUtils::quadKeyToBoundingBox(q);
  c.note() << "zero " << show(p.zero) << " tile " << show(q) << " scale " << p.scale() << "\n";
  Command command("TileRect");
  p.put(command);
  auto a = s.call(command.q(q));
  double left = a.d(), bottom = a.d(), right = a.d(), top = a.d(), width = a.d(), height = a.d(), cx = a.d(), cy = a.d();
  double blx = a.d(), bly = a.d(), trx = a.d(), try_ = a.d(), tlx = a.d(), tly = a.d(), brx = a.d(), bry = a.d();
  auto back = box(a);
  double k = p.scale(), circle = 40075160*std::cos(p.zero.latitude*M_PI/180)/360, meridian = 40008000/360.0;
  auto x = [&](double lon) { return (lon - p.zero.longitude)*circle*k; };
  auto y = [&](double lat) { return (lat - p.zero.latitude)*meridian*k; };
  double tol = k*(1e-3 + 1e-6*10000);
  PBT_CHECK(c, same(left, x(want.minPoint.longitude), tol) && same(right, x(want.maxPoint.longitude), tol) && same(bottom, y(want.minPoint.latitude), tol) && same(top, y(want.maxPoint.latitude), tol),
    "rectangle is " << left << " " << bottom << " " << right << " " << top);
  PBT_CHECK(c, same(width, right - left, tol) && same(height, top - bottom, tol) && same(cx, (left + right)/2, tol) && same(cy, (bottom + top)/2, tol), "size or center of the rectangle");
  PBT_CHECK(c, blx == left && bly == bottom && trx == right && try_ == top && tlx == left && tly == top && brx == right && bry == bottom, "corners of the rectangle");
  PBT_CHECK(c, same(back, want, tol/k/std::min(circle, meridian)), "box of the rectangle is " << show(back) << ", of the tile " << show(want));
  if (!p.scales.empty()) c.nontrivial();
}

// ---- colours and animations

const std::map<std::string, std::array<int, 3>> Named = {
#include "colors.inc"
};

void colorFacet(Ctx &c) {
  Session s(c);
  std::array<int, 4> want = {{0, 0, 0, 255}};
  std::string text;
  mono::Answer a;
  switch (c.draw(2)) {
    case 0: {
      auto it = Named.begin();
      std::advance(it, c.draw(Named.size() - 1));
      text = it->first;
      std::copy(it->second.begin(), it->second.end(), want.begin());
      if (text == "transparent") want[3] = 0;
      break;
    }
    case 1:
      text = "#";
      for (int i = 0; i < 3; ++i) { want[i] = static_cast<int>(c.integer(0, 255)); char t[4]; std::snprintf(t, sizeof t, c.boolean() ? "%02x" : "%02X", want[i]); text += t; }
      break;
    default:
      for (auto &v : want) v = static_cast<int>(c.integer(0, 255));
  }
  if (text.empty()) {
    // as the engine passes colours of vertices
    auto value = static_cast<std::int32_t>((static_cast<std::uint32_t>(want[0]) << 24) | (want[1] << 16) | (want[2] << 8) | want[3]);
    c.note() << value;
    a = s.call(Command("ColorOfInt").i(value));
  } else {
    if (c.boolean()) for (auto &ch : text) if (c.chance(1, 4)) ch = static_cast<char>(std::toupper(ch));
    c.note() << text;
    if (c.chance(1, 4)) s.call(Command("Culture").s("tr-TR"));
    a = s.call(Command("Color").s(text));
  }
  for (int i = 0; i < 4; ++i) {
    double v = a.d();
    PBT_CHECK(c, same(v, want[i]/255.0, 1e-6), "component " << i << " of " << text << " is " << v*255 << ", want " << want[i]);
  }
  c.nontrivial();
}

typedef std::array<double, 3> V3;
V3 v3(mono::Answer &a) { V3 v; for (auto &x : v) x = a.d(); return v; }
double distance(const V3 &a, const V3 &b) { return std::sqrt((a[0] - b[0])*(a[0] - b[0]) + (a[1] - b[1])*(a[1] - b[1]) + (a[2] - b[2])*(a[2] - b[2])); }

void animationFacet(Ctx &c) {
  Session s(c);
  if (c.boolean()) {
    bool line = c.boolean();
    auto segments = c.small(1, 4);
    std::size_t n = line ? 2 : segments == 1 && c.boolean() ? 3 : static_cast<std::size_t>(3*segments + 1);
    Command command("Path");
    command.s(line ? "line" : "spline").i(static_cast<long long>(n));
    std::vector<V3> points;
    for (std::size_t i = 0; i < n; ++i) {
      points.push_back({{c.grid(-100, 100, 40), c.grid(-100, 100, 40), c.grid(-100, 100, 40)}});
      for (double v : points.back()) command.d(v);
    }
    std::vector<double> times = {0, 1};
    int inner = static_cast<int>(c.small(0, 4));
    for (int i = 0; i < inner; ++i) times.push_back(c.grid(0, 1, 64));
    for (double t : times) command.d(t);
    auto a = s.call(command);
    // de Casteljau's construction
    for (double t : times) {
      auto p = v3(a), d = v3(a);
      std::size_t degree = line ? 1 : n == 3 ? 2 : 3, from = 0;
      double u = t;
      if (degree == 3) {
        auto count = static_cast<double>((n - 1)/3);
        auto segment = std::min(std::floor(t*count), count - 1);
        u = t*count - segment;
        from = static_cast<std::size_t>(segment)*3;
      }
      std::vector<V3> level(points.begin() + static_cast<std::ptrdiff_t>(from), points.begin() + static_cast<std::ptrdiff_t>(from + degree + 1));
      V3 tangent = {{0, 0, 0}};
      while (level.size() > 1) {
        if (level.size() == 2) for (int i = 0; i < 3; ++i) tangent[i] = level[1][i] - level[0][i];
        for (std::size_t i = 0; i + 1 < level.size(); ++i) for (int k = 0; k < 3; ++k) level[i][k] = level[i][k]*(1 - u) + level[i + 1][k]*u;
        level.pop_back();
      }
      PBT_CHECK(c, distance(p, level[0]) < 0.01, "point at " << t << " of " << n << " points is " << p[0] << " " << p[1] << " " << p[2] << ", want " << level[0][0] << " " << level[0][1] << " " << level[0][2]);
      double length = distance(tangent, V3{{0, 0, 0}});
      if (length > 0.5) {
        for (auto &v : tangent) v /= length;
        PBT_CHECK(c, distance(d, tangent) < 0.01, "direction at " << t << " is " << d[0] << " " << d[1] << " " << d[2]);
      }
    }
    c.label(line ? "line" : "spline");
    if (n > 4) c.nontrivial();
    return;
  }
  std::string kind = c.pick({"linear", "accelerate", "decelerate", "both"});
  double factor = c.pick({1.0, 0.5, 2.0, 3.0});
  std::vector<double> times = {0, 1, 0.5};
  c.repeat(0, 5, [&](std::size_t) { times.push_back(c.grid(0, 1, 128)); });
  std::sort(times.begin(), times.end());
  Command command("Time");
  command.s(kind).d(factor);
  for (double t : times) command.d(t);
  auto a = s.call(command);
  double before = -1;
  c.note() << kind << " " << factor;
  for (double t : times) {
    double v = a.d();
    PBT_CHECK(c, v >= before - 1e-6 && v > -1e-5 && v < 1 + 1e-5, kind << " goes back or leaves its range: " << v << " at " << t);
    if (t == 0 || t == 1) PBT_CHECK(c, same(v, t, 1e-5), kind << " is " << v << " at " << t);
    if (kind == "linear") PBT_CHECK(c, same(v, t, 1e-5), kind << " is " << v << " at " << t);
    if (kind == "accelerate") PBT_CHECK(c, same(v, std::pow(t, 2*factor), 1e-5), kind << " is " << v << " at " << t);
    if (kind == "decelerate") PBT_CHECK(c, same(v, 1 - std::pow(1 - t, 2*factor), 1e-5), kind << " is " << v << " at " << t);
    if (kind == "both") PBT_CHECK(c, same(v, (1 - std::cos(t*M_PI))/2, 1e-5), kind << " is " << v << " at " << t);
    before = v;
  }
  c.label(kind);
  c.nontrivial();
}

// ---- ranges

struct Item { int from, to, value; bool operator==(const Item &o) const { return from == o.from && to == o.to && value == o.value; } };
std::string text(const Item &i) { return std::to_string(i.from) + ":" + std::to_string(i.to) + ":" + std::to_string(i.value); }

std::multiset<std::string> words(const std::string &s) {
  std::multiset<std::string> r;
  std::istringstream in(s);
  std::string w;
  while (in >> w) r.insert(w);
  return r;
}

void treeFacet(Ctx &c) {
  Session s(c);
  bool backwards = c.chance(1, 4);
  auto before = [&](int a, int b) { return backwards ? a > b : a < b; };   // strictly
  Command command("Tree");
  command.i(backwards ? 1 : 0);
  std::vector<Item> items, built;
  bool automatic = true, inSync = true;
  std::vector<std::pair<std::string, std::multiset<std::string>>> want;   // question and answer
  int span = c.pick({8, 30, 1000});
  auto number = [&]() { return static_cast<int>(c.integer(-span, span)); };
  auto gen = [&]() {
    Item i;
    i.from = number();
    i.to = c.chance(1, 3) ? i.from : i.from + static_cast<int>(c.small(0, span));
    if (backwards) std::swap(i.from, i.to);
    i.value = static_cast<int>(c.integer(0, 3));
    return i;
  };
  auto sync = [&]() { if (!inSync && automatic) { built = items; inSync = true; } };
  auto all = [&](const std::vector<Item> &v) { std::multiset<std::string> r; for (const auto &i : v) r.insert(text(i)); return r; };
  int queries = 0;
  std::size_t largest = 0;
  std::string history = backwards ? "backwards" : "";
  c.repeat(1, 60, [&](std::size_t) {
    auto op = c.draw(19);
    std::string what;
    if (op < 7) {
      auto i = gen();
      bool refused = c.chance(1, 8) && i.from != i.to;
      if (refused) std::swap(i.from, i.to);
      bool pair = !refused && c.chance(1, 4);
      what = (pair ? "pair " : "add ") + text(i);
      command.s(pair ? "pair" : "add").i(i.from).i(i.to).i(i.value);
      if (!pair) want.push_back({what, {refused ? "refused" : "added"}});
      if (!refused) { items.push_back(i); inSync = false; }
    } else if (op == 7 || op == 8) {
      auto i = items.empty() || c.chance(1, 3) ? gen() : c.pick(items);
      auto it = std::find(items.begin(), items.end(), i);
      if (op == 7) {
        what = "remove " + text(i);
        command.s("remove").i(i.from).i(i.to).i(i.value);
        want.push_back({what, {it == items.end() ? "0" : "1"}});
        if (it != items.end()) { items.erase(it); inSync = false; }
      } else {
        what = "contains " + text(i);
        command.s("contains").i(i.from).i(i.to).i(i.value);
        want.push_back({what, {it == items.end() ? "0" : "1"}});
      }
    } else if (op == 9) {
      if (!c.chance(1, 4)) return;
      what = "clear";
      command.s(what);
      items.clear();
      built.clear();
      inSync = true;
    } else if (op == 10) {
      what = "rebuild";
      command.s(what);
      want.push_back({what, {"1"}});
      built = items;
      inSync = true;
    } else if (op == 11) {
      if (!c.chance(1, 3)) return;
      automatic = c.boolean();
      what = std::string("auto ") + (automatic ? "on" : "off");
      command.s("auto").i(automatic);
    } else if (op < 15) {
      int at = items.empty() || c.boolean() ? number() : c.pick(items).to;
      what = "at " + std::to_string(at);
      sync();
      std::multiset<std::string> r;
      for (const auto &i : built) if (!before(at, i.from) && !before(i.to, at)) r.insert(text(i));
      command.s("at").i(at);
      want.push_back({what, r});
      if (!r.empty()) ++queries;
    } else if (op < 18) {
      auto i = gen();
      what = "between " + std::to_string(i.from) + " " + std::to_string(i.to);
      sync();
      std::multiset<std::string> r;
      for (const auto &o : built) if (!before(i.to, o.from) && !before(o.to, i.from)) r.insert(text(o));
      command.s("between").i(i.from).i(i.to);
      want.push_back({what, r});
      if (!r.empty()) ++queries;
    } else if (op == 18) {
      bool max = c.boolean();
      what = max ? "max" : "min";
      sync();
      command.s(what);
      int v = 0;
      for (std::size_t i = 0; i < built.size(); ++i) {
        int o = max ? built[i].to : built[i].from;
        if (i == 0 || (max ? before(v, o) : before(o, v))) v = o;
      }
      want.push_back({what, {std::to_string(v)}});
    } else {
      what = c.pick({"values", "all", "copy", "count"});
      command.s(what);
      if (what == "values") { std::multiset<std::string> r; for (const auto &i : items) r.insert(std::to_string(i.value)); want.push_back({what, r}); }
      else if (what == "count") want.push_back({what, {std::to_string(items.size())}});
      else { if (what == "all") sync(); want.push_back({what, all(items)}); }
    }
    largest = std::max(largest, items.size());
    history += "; " + what;
  });
  c.note() << history << "\n";
  auto a = s.call(command);
  for (const auto &w : want) {
    auto got = a.s();
    std::string expected;
    for (const auto &t : w.second) expected += t + " ";
    PBT_CHECK(c, words(got) == w.second, w.first << " gives '" << got << "', want '" << expected << "'");
  }
  if (queries > 1 && largest > 4) c.nontrivial();
  {
    auto x = gen(), y = gen();
    if (c.chance(1, 4)) std::swap(x.from, x.to);
    int v = number();
    auto r = s.call(Command("Range").i(x.from).i(x.to).i(y.from).i(y.to).i(v));
    bool valid = r.i(), value = r.i(), range = r.i(), inside = r.i();
    bool vx = x.from <= x.to, vy = y.from <= y.to;
    PBT_CHECK(c, valid == vx && value == (x.from <= v && v <= x.to) && range == (vx && vy && x.from <= y.from && y.to <= x.to) && inside == (vx && vy && y.from <= x.from && x.to <= y.to),
      "range " << x.from << ".." << x.to << " and " << y.from << ".." << y.to << ", " << v << ": " << valid << value << range << inside);
  }
}

// ---- JSON

struct Json {
  enum Kind { Text, Number, Real, Float, Bool, Array, Object } kind = Text;
  std::string text;              // of values
  double real = 0;
  std::vector<Json> items;
  std::vector<std::string> keys;
};

std::string quote(const std::string &s) {
  std::string r = "<";
  for (char ch : s) { if (ch == '\\' || ch == '<' || ch == '>') r += '\\'; r += ch; }
  return r + ">";
}
std::string dump(const Json &j) {
  std::string r;
  if (j.kind == Json::Array) { for (const auto &i : j.items) r += dump(i) + ","; return "[" + r + "]"; }
  if (j.kind == Json::Object) { for (std::size_t i = 0; i < j.items.size(); ++i) r += quote(j.keys[i]) + ":" + dump(j.items[i]) + ","; return "{" + r + "}"; }
  return quote(j.text);
}

std::string genText(Ctx &c, std::size_t min) {
  std::string r;
  c.repeat(min, 10, [&](std::size_t) {
    switch (c.draw(4)) {
      case 0: case 1: r += static_cast<char>('a' + c.draw(25)); break;
      case 2: r += c.pick({" ", ",", ":", "{", "}", "[", "]", "\"", "\\", "/", "'", "0", "1", "-", ".", "#"}); break;
      case 3: r += c.pick({"\n", "\r", "\t", "\b", "\f", "\\n", "\\\"", "  "}); break;
      default: r += c.pick({"é", "ß", "ж", "中", "İ", "😀", "\xc2\xa0"}); break;
    }
  });
  return r;
}

std::string genNumber(Ctx &c, double &value) {
  std::string r;
  if (c.chance(1, 3)) r += "-";
  r += std::to_string(c.small(0, 999999));
  if (c.boolean()) { r += "."; c.repeat(1, 8, [&](std::size_t) { r += static_cast<char>('0' + c.draw(9)); }); }
  if (c.chance(1, 6)) { r += c.pick({"e", "E"}); r += c.pick({"+", "-", ""}); r += std::to_string(c.small(0, 12)); }
  value = std::strtod(r.c_str(), nullptr);
  return r;
}

Json genJson(Ctx &c, int depth, bool top) {
  Json j;
  auto kind = top ? 5 + c.draw(1) : c.draw(depth > 0 ? 6 : 4);
  if (kind == 5 || kind == 6) {
    j.kind = kind == 5 ? Json::Array : Json::Object;
    c.repeat(0, 6, [&](std::size_t) {
      if (j.kind == Json::Object) {
        auto key = genText(c, 1);
        if (std::find(j.keys.begin(), j.keys.end(), key) != j.keys.end()) return;
        j.keys.push_back(key);
      }
      j.items.push_back(genJson(c, depth - 1, false));
    });
    return j;
  }
  switch (kind) {
    case 0: j.kind = Json::Text; j.text = c.chance(1, 6) ? "" : genText(c, 0); break;
    case 1: j.kind = Json::Number; j.text = std::to_string(c.chance(1, 4) ? c.integer(-2147483647, 2147483647) : c.integer(-1000, 1000)); j.real = std::strtod(j.text.c_str(), nullptr); break;
    case 2: j.kind = Json::Real; j.text = genNumber(c, j.real); break;
    case 3: j.kind = Json::Float; j.text = genNumber(c, j.real); break;
    default: j.kind = Json::Bool; j.text = c.boolean() ? "true" : "false"; break;
  }
  return j;
}

/// As other programs write it.
void write(Ctx &c, const Json &j, std::string &out) {
  auto space = [&]() { if (c.chance(1, 5)) out += c.pick({" ", "\n", "\t", "\r\n", "  "}); };
  auto string = [&](const std::string &s) {
    out += '"';
    for (std::size_t i = 0; i < s.size(); ++i) {
      auto ch = s[i];
      switch (ch) {
        case '"': out += "\\\""; break;
        case '\\': out += "\\\\"; break;
        case '\n': out += c.boolean() ? "\\n" : "\\u000a"; break;
        case '\r': out += "\\r"; break;
        case '\t': out += c.boolean() ? "\\t" : "\\u0009"; break;
        case '\b': out += "\\b"; break;
        case '\f': out += "\\f"; break;
        case '/': out += c.boolean() ? "\\/" : "/"; break;
        default:
          if (ch > 0 && c.chance(1, 20)) { char t[8]; std::snprintf(t, sizeof t, c.boolean() ? "\\u%04x" : "\\u%04X", ch); out += t; }
          else if (s.compare(i, 2, "é") == 0 && c.boolean()) { out += "\\u00e9"; ++i; }
          else if (s.compare(i, 4, "😀") == 0 && c.boolean()) { out += "\\ud83d\\ude00"; i += 3; }
          else out += ch;
      }
    }
    out += '"';
  };
  space();
  if (j.kind == Json::Array || j.kind == Json::Object) {
    bool object = j.kind == Json::Object;
    out += object ? '{' : '[';
    for (std::size_t i = 0; i < j.items.size(); ++i) {
      if (i) out += ',';
      if (object) { space(); string(j.keys[i]); space(); out += ':'; }
      write(c, j.items[i], out);
    }
    space();
    out += object ? '}' : ']';
  } else if (j.kind == Json::Text) string(j.text);
  else out += j.text;
  space();
}

void build(const Json &j, Command &command) {
  if (j.kind == Json::Array || j.kind == Json::Object) {
    command.s(j.kind == Json::Array ? "array" : "object").i(static_cast<long long>(j.items.size()));
    for (std::size_t i = 0; i < j.items.size(); ++i) { if (j.kind == Json::Object) command.s(j.keys[i]); build(j.items[i], command); }
  } else if (j.kind == Json::Number) command.s("int").i(std::strtoll(j.text.c_str(), nullptr, 10));
  else if (j.kind == Json::Bool) command.s("bool").i(j.text == "true");
  else command.s("string").s(j.text);
}

void values(const Json &j, std::vector<std::vector<std::string>> &paths, std::vector<const Json *> &found, std::vector<std::string> path) {
  if (j.kind == Json::Array || j.kind == Json::Object) {
    for (std::size_t i = 0; i < j.items.size(); ++i) {
      path.push_back(j.kind == Json::Array ? std::to_string(i) : j.keys[i]);
      values(j.items[i], paths, found, path);
      path.pop_back();
    }
  } else { paths.push_back(path); found.push_back(&j); }
}

void readFacet(Ctx &c) {
  Session s(c);
  auto j = genJson(c, 3, true);
  std::string text;
  write(c, j, text);
  c.note() << text << "\n";
  std::string culture = c.pick({"", "de-DE", "fr-FR", "tr-TR", "en-US", "sv-SE"});
  if (!culture.empty()) s.call(Command("Culture").s(culture));
  auto a = s.call(Command("JsonRead").s(text));
  auto got = a.s();
  PBT_CHECK(c, got == dump(j), "is read as " << got << ", want " << dump(j));
  std::vector<std::vector<std::string>> paths;
  std::vector<const Json *> found;
  values(j, paths, found, {});
  for (int n = 0; n < 3 && !found.empty(); ++n) {
    auto i = static_cast<std::size_t>(c.draw(found.size() - 1));
    const auto &v = *found[i];
    Command command("JsonValue");
    command.s(text).i(static_cast<long long>(paths[i].size()));
    std::string where;
    for (const auto &p : paths[i]) { command.s(p); where += "/" + p; }
    a = s.call(command);
    auto asInt = a.i();
    double asDouble = a.d(), asFloat = a.d();
    bool asBool = a.i();
    auto value = a.s();
    PBT_CHECK(c, value == v.text, where << " is " << value);
    if (v.kind == Json::Number) PBT_CHECK(c, static_cast<double>(asInt) == v.real, where << " as integer in culture '" << culture << "' is " << asInt << ", it is written " << v.text);
    if (v.kind == Json::Number || v.kind == Json::Real || v.kind == Json::Float) {
      PBT_CHECK(c, same(asDouble, v.real, std::fabs(v.real)*1e-15), where << " as number in culture '" << culture << "' is " << asDouble << ", it is written " << v.text);
      PBT_CHECK(c, same(asFloat, v.real, std::fabs(v.real)*1e-7), where << " as float in culture '" << culture << "' is " << asFloat << ", it is written " << v.text);
    }
    if (v.kind == Json::Bool) PBT_CHECK(c, asBool == (v.text == "true"), where << " as boolean is " << asBool << ", it is written " << v.text);
  }
  if (found.size() > 2) c.nontrivial();
}

void writeFacet(Ctx &c) {
  Session s(c);
  auto j = genJson(c, 3, true);
  c.note() << dump(j) << "\n";
  std::string culture = c.pick({"", "de-DE", "fr-FR", "tr-TR"});
  if (!culture.empty()) s.call(Command("Culture").s(culture));
  Command command("JsonWrite");
  build(j, command);
  auto a = s.call(command);
  auto want = dump(j);
  auto built = a.s(), text = a.s(), pretty = a.s(), read = a.s(), readPretty = a.s(), binary = a.s();
  PBT_CHECK(c, built == want, "is built as " << built);
  PBT_CHECK(c, read == want, "text " << text << " is read as " << read << ", want " << want);
  PBT_CHECK(c, readPretty == want, "text " << pretty << " is read as " << readPretty << ", want " << want);
  PBT_CHECK(c, binary == want, "binary form is read as " << binary << ", want " << want);
  if (j.items.size() > 1) c.nontrivial();
}

// ---- archives

std::string deflated(const std::string &data, int level, int strategy, int memory, bool flush) {
  z_stream z = {};
  if (deflateInit2(&z, level, Z_DEFLATED, -15, memory, strategy) != Z_OK) throw std::runtime_error("deflateInit2");
  std::string out;
  std::size_t at = 0;
  auto part = flush ? data.size()/3 + 1 : data.size() + 1;
  for (;;) {
    auto n = std::min(part, data.size() - at);
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data.data() + at));
    z.avail_in = static_cast<uInt>(n);
    at += n;
    bool last = at == data.size();
    int rc;
    do {
      char buffer[4096];
      z.next_out = reinterpret_cast<Bytef *>(buffer);
      z.avail_out = sizeof buffer;
      rc = deflate(&z, last ? Z_FINISH : Z_FULL_FLUSH);
      out.append(buffer, sizeof buffer - z.avail_out);
    } while (z.avail_out == 0);
    if (last) break;
  }
  deflateEnd(&z);
  return out;
}

void unzipFacet(Ctx &c) {
  Session s(c);
  auto u16 = [](std::string &o, std::size_t v) { o += static_cast<char>(v & 255); o += static_cast<char>((v >> 8) & 255); };
  auto u32 = [&](std::string &o, std::size_t v) { u16(o, v & 0xffff); u16(o, v >> 16); };
  std::map<std::string, std::string> files;
  std::string zip, directory;
  int count = 0;
  bool interesting = false;
  c.repeat(1, 4, [&](std::size_t i) {
    std::string name;
    c.repeat(1, 8, [&](std::size_t) { name += c.pick({'a', 'b', 'N', '5', '_', '.'}); });
    name += std::to_string(i) + ".hgt";
    std::string data;
    auto parts = c.small(0, 12);
    for (int k = 0; k < parts; ++k) {
      switch (c.draw(4)) {
        case 0: data.append(static_cast<std::size_t>(c.small(1, 70000)), static_cast<char>(c.draw(255))); break;   // runs
        case 1: { auto n = c.small(1, 3000); std::uint64_t x = c.draw(0xffffffff) | 1; for (int b = 0; b < n; ++b) { x = x*6364136223846793005ULL + 1442695040888963407ULL; data += static_cast<char>(x >> 56); } break; }   // noise
        case 2: { auto n = c.small(1, 6000); int h = static_cast<int>(c.integer(0, 3000)); for (int b = 0; b < n; ++b) { h += static_cast<int>((b*2654435761u >> 29)) - 3; data += static_cast<char>((h >> 8) & 255); data += static_cast<char>(h & 255); } break; }   // heights
        case 3: if (!data.empty()) { auto from = c.draw(data.size() - 1); data += data.substr(from, static_cast<std::size_t>(c.small(1, 40000))); } break;   // repetition at a distance
        default: data += "the quick brown fox jumps over the lazy dog "; break;
      }
    }
    bool stored = c.chance(1, 5);
    int level = static_cast<int>(c.integer(1, 9)), strategy = c.pick({Z_DEFAULT_STRATEGY, Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED, Z_FILTERED});
    if (!stored && c.chance(1, 8)) level = 0;
    bool flush = c.chance(1, 4);
    auto packed = stored ? data : deflated(data, level, strategy, static_cast<int>(c.integer(1, 9)), flush);
    c.note() << name << ": " << data.size() << " bytes, " << (stored ? "stored" : "deflated") << " level " << level << " strategy " << strategy << (flush ? " flushed" : "") << " to " << packed.size() << "\n";
    auto crc = crc32(0, reinterpret_cast<const Bytef *>(data.data()), static_cast<uInt>(data.size()));
    auto offset = zip.size();
    auto extra = c.chance(1, 4) ? static_cast<std::size_t>(c.pick({4, 9, 36})) : 0;
    u32(zip, 0x04034b50); u16(zip, 20); u16(zip, 0); u16(zip, stored ? 0 : 8); u32(zip, 0x4a214a21); u32(zip, crc); u32(zip, packed.size()); u32(zip, data.size()); u16(zip, name.size()); u16(zip, extra);
    zip += name + std::string(extra, 'x') + packed;
    auto comment = c.chance(1, 4) ? static_cast<std::size_t>(c.small(0, 20)) : 0;
    u32(directory, 0x02014b50); u16(directory, 20); u16(directory, 20); u16(directory, 0); u16(directory, stored ? 0 : 8); u32(directory, 0x4a214a21); u32(directory, crc); u32(directory, packed.size()); u32(directory, data.size());
    u16(directory, name.size()); u16(directory, extra); u16(directory, comment); u16(directory, 0); u16(directory, 0); u32(directory, 0); u32(directory, offset);
    directory += name + std::string(extra, 'y') + std::string(comment, 'z');
    files[name] = data;
    ++count;
    interesting |= !stored && data.size() > 1000;
  });
  auto offset = zip.size();
  auto end = c.chance(1, 4) ? static_cast<std::size_t>(c.small(0, 480)) : 0;
  zip += directory;
  u32(zip, 0x06054b50); u16(zip, 0); u16(zip, 0); u16(zip, static_cast<std::size_t>(count)); u16(zip, static_cast<std::size_t>(count)); u32(zip, directory.size()); u32(zip, offset); u16(zip, end);
  zip += std::string(end, 'c');
  auto a = s.call(Command("Unzip").b(zip));
  std::size_t got = 0;
  while (a.more()) {
    auto name = a.s(), data = mono::unhex(a.s());
    auto it = files.find(name);
    PBT_CHECK(c, it != files.end(), "file " << name << " is not in the archive");
    PBT_CHECK(c, data == it->second, name << ": " << data.size() << " bytes, which differ from the " << it->second.size() << " packed ones");
    ++got;
  }
  PBT_CHECK(c, got == files.size(), got << " of " << files.size() << " files");
  // a damaged byte of the data is noticed
  if (interesting && c.chance(1, 3)) {
    auto at = 30 + static_cast<std::size_t>(c.draw(offset - 31));
    zip[at] = static_cast<char>(zip[at] ^ (1 << c.draw(7)));
    auto r = s.tryCall(Command("Unzip").b(zip));
    if (r.exception.empty()) {
      // only names and fields which are not used may have been hit
      std::multiset<std::string> all, old;
      while (r.more()) { r.s(); all.insert(mono::unhex(r.s())); }
      for (const auto &f : files) old.insert(f.second);
      PBT_CHECK(c, all == old, "damaged archive (byte " << at << ") gives other data without an error");
    }
    c.label("damaged");
  }
  if (interesting) c.nontrivial();
}

}

int main(int argc, char **argv) {
  mono::Pool::get().start(8);
  return pbt::run(argc, argv, "C26",
    {
      {"tile", "zoom above 8", 16000, 1600000, tileFacet},
      {"tiles of a box", "more than one row and column", 12000, 800000, tilesFacet},
      {"projection", "scaled projection or height above the sphere", 12000, 1200000, projectionFacet},
      {"distance and box around a point", "width and height differ", 8000, 800000, distanceFacet},
      {"box", "grown twice and asked", 12000, 800000, boxFacet},
      {"rectangle of a tile", "scaled projection", 6000, 400000, rectangleFacet},
      {"colour", "every case", 8000, 200000, colorFacet},
      {"animation", "several segments, or a time function", 8000, 400000, animationFacet},
      {"range tree", "tree of five or more with answers to two queries", 20000, 1200000, treeFacet},
      {"json text", "three or more values", 16000, 1200000, readFacet},
      {"json round trip", "two or more items", 16000, 1200000, writeFacet},
      {"archive", "deflated file over 1000 bytes", 2400, 160000, unzipFacet},
    },
    {"mono executes the library as the application's runtime does",
     "coordinates within 1e-7 of a tile's border may be attributed to the tile on either side, as rounding decides",
     "JSON keys are not empty; archives have names in ASCII, no encryption, no data descriptors and no zip64"},
    {});
}
