// Meshes: what is well formed, and what they cover seen from above.
#ifndef VERIF_MESH_HPP
#define VERIF_MESH_HPP

#include "geometry.hpp"
#include "math/Mesh.hpp"
#include "math/Vector2.hpp"

#include <array>
#include <map>

namespace meshes {

using utymap::math::Mesh;
using geometry::P;
using geometry::Path;

/// Empty when the mesh is well formed, otherwise what is wrong.
inline std::string malformed(const Mesh &m, bool sections) {
  std::ostringstream s;
  if (m.vertices.size() % 3 != 0) s << m.vertices.size() << " vertex coordinates; ";
  if (m.triangles.size() % 3 != 0) s << m.triangles.size() << " triangle indices; ";
  auto count = m.vertices.size()/3;
  if (m.colors.size() != count) s << m.colors.size() << " colors for " << count << " vertices; ";
  if (m.uvs.size() != count*2) s << m.uvs.size() << " texture coordinates for " << count << " vertices; ";
  for (auto i : m.triangles) if (i < 0 || static_cast<std::size_t>(i) >= count) { s << "index " << i << " of " << count << " vertices; "; break; }
  for (auto v : m.vertices) if (!std::isfinite(v)) { s << "coordinate " << v << "; "; break; }
  for (auto v : m.uvs) if (!std::isfinite(v)) { s << "texture coordinate " << v << "; "; break; }
  if (sections) {
    if (m.uvMap.size() % 8 != 0) s << "uv map of " << m.uvMap.size() << "; ";
    else if (count == 0 && m.uvMap.empty()) {}
    else {
      int last = 0;
      for (std::size_t i = 0; i < m.uvMap.size(); i += 8) {
        if (m.uvMap[i] < last) s << "texture section ends at " << m.uvMap[i] << " but the one before at " << last << "; ";
        last = m.uvMap[i];
      }
      if (m.uvMap.empty()) s << "no texture sections; ";
      else if (last != static_cast<int>(m.uvs.size())) s << "texture sections end at " << last << " of " << m.uvs.size() << "; ";
    }
  }
  return s.str();
}

/// Count of edges which are not passed as often in one direction as in the other: none in a set of closed figures, each of which has
/// all its triangles facing outside (or all inside). Vertices closer than given are same.
inline int openEdges(const std::vector<std::array<double, 3>> &vs, const std::vector<int> &triangles, double near) {
  std::map<std::pair<std::size_t, std::size_t>, int> edges;
  std::map<std::array<long long, 3>, std::vector<std::size_t>> cells;
  auto place = [&](std::size_t i) {
    std::array<long long, 3> k;
    for (std::size_t j = 0; j < 3; ++j) k[j] = std::llround(vs[i][j]/near);
    for (int n = 0; n < 27; ++n) {
      auto it = cells.find({{k[0] + n % 3 - 1, k[1] + n/3 % 3 - 1, k[2] + n/9 - 1}});
      if (it == cells.end()) continue;
      for (auto other : it->second) {
        double d = 0;
        for (std::size_t j = 0; j < 3; ++j) d = std::max(d, std::fabs(vs[i][j] - vs[other][j]));
        if (d < near/2) return other;
      }
    }
    cells[k].push_back(i);
    return i;
  };
  for (std::size_t i = 0; i + 2 < triangles.size(); i += 3) {
    std::size_t k[3];
    for (std::size_t j = 0; j < 3; ++j) k[j] = place(static_cast<std::size_t>(triangles[i + j]));
    if (k[0] == k[1] || k[1] == k[2] || k[2] == k[0]) continue;
    for (std::size_t j = 0; j < 3; ++j) edges[{std::min(k[j], k[(j + 1) % 3]), std::max(k[j], k[(j + 1) % 3])}] += k[j] < k[(j + 1) % 3] ? 1 : -1;
  }
  int open = 0;
  for (const auto &e : edges) open += e.second != 0;
  return open;
}

struct Triangle {
  P a, b, c;
  double signedArea() const { return geometry::cross(a, b, c)/2; }
  P center() const { return {(a.x + b.x + c.x)/3, (a.y + b.y + c.y)/3}; }
  bool contains(const P &p) const {
    double d1 = geometry::cross(a, b, p), d2 = geometry::cross(b, c, p), d3 = geometry::cross(c, a, p);
    return (d1 >= 0 && d2 >= 0 && d3 >= 0) || (d1 <= 0 && d2 <= 0 && d3 <= 0);
  }
  double distanceToEdges(const P &p) const {
    return std::min(geometry::distanceToSegment(p, a, b), std::min(geometry::distanceToSegment(p, b, c), geometry::distanceToSegment(p, c, a)));
  }
};

/// Triangles seen from above, mapped by (v - origin)/scale to keep precision. Starts at given position in list of indices.
inline std::vector<Triangle> planar(const Mesh &m, const P &origin, double sx, double sy, std::size_t from = 0) {
  std::vector<Triangle> r;
  auto at = [&](int i) { return P{(m.vertices[static_cast<std::size_t>(i)*3] - origin.x)/sx, (m.vertices[static_cast<std::size_t>(i)*3 + 1] - origin.y)/sy}; };
  for (std::size_t i = from; i + 2 < m.triangles.size(); i += 3) r.push_back({at(m.triangles[i]), at(m.triangles[i + 1]), at(m.triangles[i + 2])});
  return r;
}

/// Whether triangles cover exactly the region in which `in` is true: the sum of areas is as expected and no sampled point
/// is covered other than by one triangle in the region and by none outside of it. Empty when they do.
inline std::string notExactCover(pbt::Ctx &c, const std::vector<Triangle> &triangles, double expectedArea, double areaTolerance,
                                 const std::function<bool(const P &)> &in, const std::function<double(const P &)> &distanceToBorder,
                                 const geometry::Box &box, int samples, double eps) {
  std::ostringstream s;
  s.precision(12);
  double sum = 0;
  for (const auto &t : triangles) sum += std::fabs(t.signedArea());
  if (std::fabs(sum - expectedArea) > areaTolerance) s << "area of triangles " << sum << " but of region " << expectedArea << "; ";
  auto probe = [&](const P &p) {
    if (distanceToBorder(p) < eps) return true;
    int covers = 0;
    for (const auto &t : triangles) {
      if (!t.contains(p)) continue;
      if (t.distanceToEdges(p) < eps) return true;
      ++covers;
    }
    int want = in(p) ? 1 : 0;
    if (covers == want) return true;
    // a point near to an edge of a triangle may be covered by its neighbour
    for (const auto &t : triangles) if (t.distanceToEdges(p) < eps) return true;
    s << "point " << p.x << "," << p.y << " is covered by " << covers << " triangles but should be by " << want << "; ";
    return false;
  };
  for (const auto &t : triangles) if (!probe(t.center())) return s.str();
  for (int i = 0; i < samples; ++i) {
    P p{box.x0 + (box.x1 - box.x0)*c.real(0, 1), box.y0 + (box.y1 - box.y0)*c.real(0, 1)};
    if (!probe(p)) return s.str();
  }
  return s.str();
}

inline std::vector<utymap::math::Vector2> vectors(const Path &p) {
  std::vector<utymap::math::Vector2> r;
  for (const auto &q : p) r.emplace_back(q.x, q.y);
  return r;
}

}

#endif
