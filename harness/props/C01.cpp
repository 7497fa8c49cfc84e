// C01: tile addressing.
#include "pbt.hpp"
#include "utils/GeoUtils.hpp"

#include <set>
#include <tuple>

using namespace utymap;
using namespace utymap::utils;
using pbt::Ctx;

namespace {

const long double Pi = 3.14159265358979323846264338327950288L;
const double MaxLat = 85.05112877;

long double refX(double lon, int lod) { return (static_cast<long double>(lon) + 180)/360*std::pow(2.0L, lod); }
long double refY(double lat, int lod) {
  long double r = static_cast<long double>(lat)*Pi/180;
  return (1 - std::asinh(std::tan(r))/Pi)/2*std::pow(2.0L, lod);
}
long double refLon(long long x, int lod) { return x/std::pow(2.0L, lod)*360 - 180; }
long double refLat(long long y, int lod) { return std::atan(std::sinh(Pi*(1 - 2*y/std::pow(2.0L, lod))))*180/Pi; }

const double Tol = 1e-9;  // degrees: rounding of doubles is about 1e-13

GeoCoordinate genPoint(Ctx &c, int lod) {
  switch (c.draw(3)) {
    case 0: return GeoCoordinate(c.real(-MaxLat, MaxLat), c.real(-180, 180));
    case 1: return GeoCoordinate(c.grid(-80, 80, 160), c.grid(-180, 180, 360));
    case 2: {  // close to borders of tiles
      auto n = (1LL << lod);
      double lat = static_cast<double>(refLat(c.integer(0, n), lod)) + c.grid(-1e-6, 1e-6, 4);
      double lon = static_cast<double>(refLon(c.integer(0, n), lod)) + c.grid(-1e-6, 1e-6, 4);
      return GeoCoordinate(std::max(-MaxLat, std::min(MaxLat, lat)), std::max(-180.0, std::min(180.0, lon)));
    }
    default: return GeoCoordinate(c.grid(-90, 90, 36), c.grid(-180, 180, 16));  // poles, date line
  }
}

std::string show(const QuadKey &q) { return pbt::str(q.levelOfDetail) + ":" + pbt::str(q.tileX) + ":" + pbt::str(q.tileY); }

void pointFacet(Ctx &c) {
  int lod = static_cast<int>(c.integer(1, 19));
  auto p = genPoint(c, lod);
  c.note().precision(17);
  c.note() << "lat " << p.latitude << " lon " << p.longitude << " lod " << lod;
  auto q = GeoUtils::GeoCoordinateToQuadKey(p, lod);
  long long n = 1LL << lod;
  PBT_CHECK(c, q.levelOfDetail == lod, "level of detail changed: " << show(q));
  PBT_CHECK(c, q.tileX >= 0 && q.tileX < n && q.tileY >= 0 && q.tileY < n, "tile does not exist: " << show(q));
  auto b = GeoUtils::quadKeyToBoundingBox(q);
  double lat = std::max(-MaxLat, std::min(MaxLat, p.latitude));
  double lon = std::max(-179.9999999, std::min(179.9999999, p.longitude));
  PBT_CHECK(c, b.minPoint.latitude - Tol <= lat && lat <= b.maxPoint.latitude + Tol && b.minPoint.longitude - Tol <= lon &&
      lon <= b.maxPoint.longitude + Tol, "tile " << show(q) << " does not contain the point: lat " << b.minPoint.latitude << ".."
      << b.maxPoint.latitude << " lon " << b.minPoint.longitude << ".." << b.maxPoint.longitude);
  // reference: anything within rounding of the border may be on either side
  long double x = refX(lon, lod), y = refY(lat, lod);
  long double eps = 1e-9L*n/360;
  PBT_CHECK(c, q.tileX >= std::floor(x - eps) && q.tileX <= std::floor(x + eps), "tile x " << q.tileX << " expected " << static_cast<double>(x));
  eps = 1e-8L*n/90;
  PBT_CHECK(c, q.tileY >= std::floor(y - eps) && q.tileY <= std::floor(y + eps), "tile y " << q.tileY << " expected " << static_cast<double>(y));
  // parent tile
  if (lod > 1) {
    auto parent = GeoUtils::GeoCoordinateToQuadKey(p, lod - 1);
    bool nearBorder = std::fabs(x - std::round(x)) < 1e-6 || std::fabs(y - std::round(y)) < 1e-6;
    if (!nearBorder)
      PBT_CHECK(c, parent.tileX == q.tileX/2 && parent.tileY == q.tileY/2, "parent of " << show(q) << " is " << show(parent));
    auto pb = GeoUtils::quadKeyToBoundingBox(QuadKey(lod - 1, q.tileX/2, q.tileY/2));
    PBT_CHECK(c, pb.minPoint.latitude <= b.minPoint.latitude + Tol && pb.maxPoint.latitude >= b.maxPoint.latitude - Tol &&
        pb.minPoint.longitude <= b.minPoint.longitude + Tol && pb.maxPoint.longitude >= b.maxPoint.longitude - Tol,
              "parent tile does not cover " << show(q));
  }
  c.nontrivial();
  c.label(std::fabs(p.latitude) > MaxLat ? "clamped latitude" : "regular latitude");
}

void tileFacet(Ctx &c) {
  int lod = static_cast<int>(c.integer(1, 19));
  long long n = 1LL << lod;
  auto coord = [&] { return static_cast<int>(c.chance(1, 4) ? (c.boolean() ? n - 1 : 0) : c.integer(0, n - 1)); };
  QuadKey q(lod, coord(), coord());
  c.note() << "tile " << show(q);
  auto b = GeoUtils::quadKeyToBoundingBox(q);
  PBT_CHECK(c, b.isValid() && b.width() > 0 && b.height() > 0, "empty extent");
  PBT_CHECK(c, std::fabs(b.minPoint.longitude - static_cast<double>(refLon(q.tileX, lod))) < Tol, "west border " << b.minPoint.longitude);
  PBT_CHECK(c, std::fabs(b.maxPoint.longitude - static_cast<double>(refLon(q.tileX + 1, lod))) < Tol, "east border " << b.maxPoint.longitude);
  PBT_CHECK(c, std::fabs(b.maxPoint.latitude - static_cast<double>(refLat(q.tileY, lod))) < Tol, "north border " << b.maxPoint.latitude);
  PBT_CHECK(c, std::fabs(b.minPoint.latitude - static_cast<double>(refLat(q.tileY + 1, lod))) < Tol, "south border " << b.minPoint.latitude);
  // every inner point belongs to the tile
  double u = c.grid(0.001, 0.999, 20), v = c.grid(0.001, 0.999, 20);
  GeoCoordinate inner(b.minPoint.latitude + b.height()*u, b.minPoint.longitude + b.width()*v);
  auto back = GeoUtils::GeoCoordinateToQuadKey(inner, lod);
  PBT_CHECK(c, back == q, "inner point belongs to " << show(back));
  auto center = GeoUtils::GeoCoordinateToQuadKey(b.center(), lod);
  PBT_CHECK(c, center == q, "center belongs to " << show(center));
  // neighbours share borders exactly: no gap
  if (q.tileX + 1 < n) {
    auto e = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, q.tileX + 1, q.tileY));
    PBT_CHECK(c, e.minPoint.longitude == b.maxPoint.longitude && e.minPoint.latitude == b.minPoint.latitude &&
        e.maxPoint.latitude == b.maxPoint.latitude, "gap between neighbours in x");
  }
  if (q.tileY + 1 < n) {
    auto s = GeoUtils::quadKeyToBoundingBox(QuadKey(lod, q.tileX, q.tileY + 1));
    PBT_CHECK(c, s.maxPoint.latitude == b.minPoint.latitude && s.minPoint.longitude == b.minPoint.longitude, "gap between neighbours in y");
  }
  // string form
  auto code = GeoUtils::quadKeyToString(q);
  PBT_CHECK(c, static_cast<int>(code.size()) == lod, "string form has length " << code.size());
  long long x = 0, y = 0;
  for (char ch : code) {
    PBT_CHECK(c, ch >= '0' && ch <= '3', "string form " << code);
    x = x*2 + ((ch - '0') & 1);
    y = y*2 + ((ch - '0') >> 1);
  }
  PBT_CHECK(c, x == q.tileX && y == q.tileY, "string form " << code << " means " << x << ":" << y);
  if (lod > 1) {
    auto parent = GeoUtils::quadKeyToString(QuadKey(lod - 1, q.tileX/2, q.tileY/2));
    PBT_CHECK(c, code.compare(0, parent.size(), parent) == 0, "string form of parent " << parent << " is no prefix of " << code);
  }
  c.nontrivial();
}

typedef std::tuple<int, int, int> Key;

void rangeFacet(Ctx &c) {
  int lod = static_cast<int>(c.integer(1, 19));
  double span = 360.0/static_cast<double>(1LL << lod);
  auto p = genPoint(c, lod);
  double w = c.boolean() ? span*c.grid(0, 5, 20) : span*c.real(0, 6);
  double h = c.boolean() ? span*c.grid(0, 5, 20)*0.6 : span*c.real(0, 4);
  GeoCoordinate maxP(std::min(90.0, p.latitude + h), std::min(180.0, p.longitude + w));
  if (c.chance(1, 5)) {  // borders exactly on tiles
    auto b1 = GeoUtils::quadKeyToBoundingBox(GeoUtils::GeoCoordinateToQuadKey(p, lod));
    auto b2 = GeoUtils::quadKeyToBoundingBox(GeoUtils::GeoCoordinateToQuadKey(maxP, lod));
    p = b1.minPoint; maxP = b2.maxPoint;
    c.label("on tile borders");
  }
  bool invalid = c.chance(1, 20);
  if (invalid) std::swap(p, maxP);
  BoundingBox box(p, maxP);
  c.note().precision(17);
  c.note() << "lat " << p.latitude << ".." << maxP.latitude << " lon " << p.longitude << ".." << maxP.longitude << " lod " << lod;
  std::set<Key> got;
  GeoUtils::visitTileRange(box, lod, [&](const QuadKey &q, const BoundingBox &b) {
    PBT_CHECK(c, q.levelOfDetail == lod, "level " << q.levelOfDetail);
    PBT_CHECK(c, got.insert(Key(q.levelOfDetail, q.tileX, q.tileY)).second, "tile visited twice: " << show(q));
    auto e = GeoUtils::quadKeyToBoundingBox(q);
    PBT_CHECK(c, e.minPoint == b.minPoint && e.maxPoint == b.maxPoint, "extent passed with tile " << show(q) << " is not its own");
    long double tol = 1e-9L;
    PBT_CHECK(c, refLon(q.tileX, lod) <= maxP.longitude + tol && refLon(q.tileX + 1, lod) >= p.longitude - tol &&
        refLat(q.tileY + 1, lod) <= maxP.latitude + tol && refLat(q.tileY, lod) >= p.latitude - tol, "tile is outside: " << show(q));
  });
  if (!(p.latitude <= maxP.latitude && p.longitude <= maxP.longitude)) {
    PBT_CHECK(c, got.empty(), "tiles of an invalid box");
    return;
  }
  // every tile which overlaps the box by more than rounding
  long long n = 1LL << lod;
  auto clampI = [n](long double v) { return std::max(0LL, std::min(n - 1, static_cast<long long>(std::floor(v)))); };
  auto x0 = clampI(refX(p.longitude, lod) - 1.5L), x1 = clampI(refX(maxP.longitude, lod) + 1.5L);
  auto lo = std::max(-MaxLat, std::min(MaxLat, p.latitude)), hi = std::max(-MaxLat, std::min(MaxLat, maxP.latitude));
  auto y0 = clampI(refY(hi, lod) - 1.5L), y1 = clampI(refY(lo, lod) + 1.5L);
  long double tol = 2e-7L;  // the clamped date line
  std::size_t required = 0;
  for (auto y = y0; y <= y1; ++y)
    for (auto x = x0; x <= x1; ++x) {
      // overlap of the interiors
      auto top = std::min<long double>(refLat(y, lod), maxP.latitude) - std::max<long double>(refLat(y + 1, lod), p.latitude);
      auto side = std::min<long double>(refLon(x + 1, lod), maxP.longitude) - std::max<long double>(refLon(x, lod), p.longitude);
      bool degenerateLat = maxP.latitude - p.latitude < 1e-6, degenerateLon = maxP.longitude - p.longitude < 1e-6;
      auto strictlyIn = [tol](long double v, long double a, long double b) { return v > a + tol && v < b - tol; };
      bool latOk = degenerateLat ? strictlyIn(p.latitude, refLat(y + 1, lod), refLat(y, lod)) : top > tol;
      bool lonOk = degenerateLon ? strictlyIn(p.longitude, refLon(x, lod), refLon(x + 1, lod)) : side > tol;
      if (latOk && lonOk) {
        ++required;
        PBT_CHECK(c, got.count(Key(lod, static_cast<int>(x), static_cast<int>(y))) == 1, "tile is missed: " << lod << ":" << x << ":" << y);
      }
    }
  if (required > 1) c.nontrivial();
  c.label(required == 0 ? "0 tiles" : required == 1 ? "1 tile" : required < 5 ? "2-4 tiles" : "5+ tiles");
}

/// Order of tiles: strict and total, so that they can be keys.
void orderFacet(Ctx &c) {
  auto gen = [&] { int lod = static_cast<int>(c.integer(1, 3)); return QuadKey(lod, static_cast<int>(c.integer(0, 3)), static_cast<int>(c.integer(0, 3))); };
  QuadKey a = gen(), b = gen(), d = gen();
  c.note() << show(a) << " " << show(b) << " " << show(d);
  QuadKey::Comparator less;
  PBT_CHECK(c, (a == b) == (a.levelOfDetail == b.levelOfDetail && a.tileX == b.tileX && a.tileY == b.tileY), "equality");
  PBT_CHECK(c, static_cast<int>(less(a, b)) + static_cast<int>(less(b, a)) + static_cast<int>(a == b) == 1, "order is not total");
  if (less(a, b) && less(b, d)) { PBT_CHECK(c, less(a, d), "order is not transitive"); c.nontrivial(); }
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C01", {
    {"point", "a coordinate (uniform, grid, within 1e-6 of tile borders, poles and date line) and a level 1..19; always non-trivial", 600000, 12000000, pointFacet},
    {"tile", "an existing tile of level 1..19, a quarter of them at the border of the map; always non-trivial", 600000, 12000000, tileFacet},
    {"range", "a box of up to 6x6 tiles anywhere, some aligned to tile borders, degenerate or inverted; non-trivial when 2 or more tiles overlap it", 300000, 6000000, rangeFacet},
    {"order", "three tiles from a space of 48; non-trivial when they form a chain", 50000, 500000, orderFacet},
  }, {"Reference projection is computed in 80 bit floating point; points within 1e-9 degrees of a tile border may belong to either tile."});
}
