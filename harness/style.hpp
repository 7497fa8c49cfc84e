// Stylesheets: generation as text, and the meaning of a rule set.
#ifndef VERIF_STYLE_HPP
#define VERIF_STYLE_HPP

#include "model.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"

namespace model {

inline std::unique_ptr<utymap::mapcss::StyleProvider> provider(const std::string &text, StringTable &st, const std::string &dir = "") {
  utymap::mapcss::StyleSheet sheet = utymap::mapcss::MapCssParser(dir).parse(text);
  return std::unique_ptr<utymap::mapcss::StyleProvider>(new utymap::mapcss::StyleProvider(sheet, st));
}

inline const char *kindOf(const Element &e) {
  return dynamic_cast<const Node *>(&e) ? "node" : dynamic_cast<const Way *>(&e) ? "way" : dynamic_cast<const Area *>(&e) ? "area" : "relation";
}

}

#endif
