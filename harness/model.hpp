// Generators and renderings shared by the harnesses.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP

#include "pbt.hpp"

#include "BoundingBox.hpp"
#include "CancellationToken.hpp"
#include "GeoCoordinate.hpp"
#include "LodRange.hpp"
#include "QuadKey.hpp"
#include "entities/Area.hpp"
#include "entities/ElementVisitor.hpp"
#include "entities/Node.hpp"
#include "entities/Relation.hpp"
#include "entities/Way.hpp"
#include "index/StringTable.hpp"
#include "utils/GeoUtils.hpp"

#include <memory>
#include <string>
#include <vector>

namespace model {

using utymap::BoundingBox;
using utymap::GeoCoordinate;
using utymap::LodRange;
using utymap::QuadKey;
using utymap::entities::Area;
using utymap::entities::Element;
using utymap::entities::Node;
using utymap::entities::Relation;
using utymap::entities::Tag;
using utymap::entities::Way;
using utymap::index::StringTable;

typedef std::vector<std::pair<std::string, std::string>> TextTags;

inline std::string show(const QuadKey &q) {
  return std::to_string(q.levelOfDetail) + ":" + std::to_string(q.tileX) + ":" + std::to_string(q.tileY);
}

/// Exact rendering of an element: kind, id, tags in order, geometry bit by bit.
std::string describe(const Element &e);

/// Collects copies of visited elements.
struct Collector : utymap::entities::ElementVisitor {
  std::vector<std::shared_ptr<Element>> elements;
  std::vector<std::string> texts;
  std::function<void()> after;
  void visitNode(const Node &e) override { add(std::make_shared<Node>(e)); }
  void visitWay(const Way &e) override { add(std::make_shared<Way>(e)); }
  void visitArea(const Area &e) override { add(std::make_shared<Area>(e)); }
  void visitRelation(const Relation &e) override { add(std::make_shared<Relation>(e)); }
 private:
  void add(std::shared_ptr<Element> e) {
    texts.push_back(describe(*e));
    elements.push_back(std::move(e));
    if (after) after();
  }
};

/// Visits the elements and all members of relations.
struct LeafVisitor : utymap::entities::ElementVisitor {
  std::function<void(const Node &)> node = [](const Node &) {};
  std::function<void(const Way &)> way = [](const Way &) {};
  std::function<void(const Area &)> area = [](const Area &) {};
  void visitNode(const Node &e) override { node(e); }
  void visitWay(const Way &e) override { way(e); }
  void visitArea(const Area &e) override { area(e); }
  void visitRelation(const Relation &e) override { for (const auto &m : e.elements) m->accept(*this); }
};

void addTags(Element &e, const StringTable &st, const TextTags &tags, bool sorted = true);

/// Text with given alphabet.
std::string word(pbt::Ctx &c, const std::string &alphabet, std::size_t min, std::size_t max);

/// "a", "b", ... joined.
template<typename T>
std::string join(const T &v, const std::string &sep = ", ") {
  std::string r;
  for (const auto &x : v) r += (r.empty() ? "" : sep) + x;
  return r;
}

/// First difference of two lists, for messages.
std::string difference(const std::vector<std::string> &expected, const std::vector<std::string> &got);

std::string readFile(const std::string &path);
void writeFile(const std::string &path, const std::string &data);
void makeDir(const std::string &path);
bool fileExists(const std::string &path);

/// A store directory with a folder for each level.
std::string storeDir(pbt::Ctx &c);

}

#endif
