From 0e6f668ac4b4bf61d084ee3d145a44d2cbf9458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 001/111] fix: do not cache the string of an id which is not
 issued yet

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..d59a2f1 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -76,6 +76,10 @@ class StringTable::StringTableImpl {
     if (cache_.exists(id))
       return cache_.get(id);
 
+    // NOTE id can be issued later, so its string should not be cached yet.
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>();
+
     std::string str;
     readString(id, str);
     cache_.put(id, std::move(str));
-- 
2.43.0


From d1c8fd48195f97494ad8d1779c99b286b6a00c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 002/111] fix: seek to the end of tile files before they are
 measured

---
 core/src/index/PersistentElementStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..abbe1ba 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,17 +116,18 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE previous search might leave position somewhere inside the files
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
     // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // write element search data
@@ -149,6 +150,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-- 
2.43.0


From 98aa3a249100fe9a97b1900cebbad7664601e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 003/111] fix: search of a tile without data should not create
 its files

---
 core/src/index/PersistentElementStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index abbe1ba..751dfd7 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -149,6 +149,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    // NOTE do not create files for tile without data
+    if (!hasData(quadKey)) return;
+
     const auto &quadKeyData = getQuadKeyData(quadKey);
     quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-- 
2.43.0


From b47fc5e659d94fd16437af4e2bf275d359cf2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 004/111] fix: text search ignores or terms in tiles where none
 of them is known

---
 core/src/index/BitmapIndex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..adea6ed 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -54,6 +54,9 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
           bitset = b.logicalor(bitset);
         }, [](){ return true; });
 
+        // none of "or" terms is present in this tile
+        if (!orTerms.empty() && bitset.sizeInBits() == 0) return;
+
         applyOperation(andTerms, bitmap, [&](const Bitset &b) {
           if (bitset.sizeInBits() == 0) {
             bitset = b;
-- 
2.43.0


From ec56d2f357e63511d185bafb65effb24889b8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 005/111] fix: restore the last marker of a bitmap which is
 read from a stream

---
 core/lib/ewah/ewah.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/lib/ewah/ewah.h b/core/lib/ewah/ewah.h
index 6b3d987..3bde939 100644
--- a/core/lib/ewah/ewah.h
+++ b/core/lib/ewah/ewah.h
@@ -1129,6 +1129,13 @@ void EWAHBoolArray<uword>::read(std::istream &in, const bool savesizeinbits) {
   if (buffersize > 0)
     in.read(reinterpret_cast<char *>(&buffer[0]),
             static_cast<std::streamsize>(sizeof(uword) * buffersize));
+  // position of the last marker word is not stored: restore it, otherwise
+  // the array is corrupted when it is extended.
+  lastRLW = 0;
+  for (size_t pos = 0; pos < buffer.size();
+       pos += 1 + static_cast<size_t>(
+           RunningLengthWord<uword>::getNumberOfLiteralWords(buffer[pos])))
+    lastRLW = pos;
 }
 
 template <class uword>
-- 
2.43.0


From fb93ff4e682c0aad5eeb1de92157bf70229cedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 006/111] fix: do not add an entry with garbage key when bitmap
 stream is empty

---
 core/src/index/BitmapStream.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..1251f4e 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -6,12 +6,11 @@ void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
   BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key)))
   {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
     bitset.read(in);
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
-- 
2.43.0


From 29748f52f09384291297f2a594a8a179f05e9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 007/111] fix: way can cross a tile even if all its points are
 outside

---
 core/src/index/ElementGeometryClipper.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 1668028..538dad7 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -19,26 +19,14 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
-template<typename T, typename std::enable_if<std::is_same<T, Way>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &, const BoundingBox &, bool allOutside) {
-  return !allOutside;
-}
-
-template<typename T, typename std::enable_if<std::is_same<T, Area>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &quadKeyBbox, const BoundingBox &elementBbox, bool allOutside) {
-  return quadKeyBbox.intersects(elementBbox);
-}
-
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
   bool allInside = true;
-  bool allOutside = true;
   BoundingBox elementBbox;
   for (const GeoCoordinate &coord : element.coordinates) {
     bool contains = quadKeyBbox.contains(coord);
     allInside &= contains;
-    allOutside &= !contains;
     elementBbox.expand(coord);
 
     auto x = static_cast<cInt>(coord.longitude*Scale);
@@ -47,7 +35,7 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
   }
 
   return allInside ? PointLocation::AllInside :
-         (areConnected<T>(quadKeyBbox, elementBbox, allOutside) ? PointLocation::Mixed : PointLocation::AllOutside);
+         (quadKeyBbox.intersects(elementBbox) ? PointLocation::Mixed : PointLocation::AllOutside);
 }
 
 template<typename T>
-- 
2.43.0


From c3fa0657bdb13210de9b17454e03e6dcd63fbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 008/111] fix: keep orientation of clipped area

---
 core/src/index/ElementGeometryClipper.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 538dad7..f494ed0 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -39,11 +39,13 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
 }
 
 template<typename T>
-void setCoordinates(T &t, const IntPath &path) {
+void setCoordinates(T &t, const IntPath &path, bool isReversed) {
   t.coordinates.reserve(path.size());
   for (const auto &c : path) {
     t.coordinates.push_back(GeoCoordinate(c.Y/Scale, c.X/Scale));
   }
+  if (isReversed)
+    std::reverse(t.coordinates.begin(), t.coordinates.end());
 }
 
 IntPath createPathFromBoundingBox(const BoundingBox &quadKeyBbox) {
@@ -87,13 +89,15 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
   clipper.removeSubject();
 
   std::size_t count = static_cast<std::size_t>(solution.Total());
+  // NOTE clipper makes all outlines counter clockwise, but orientation distinguishes holes from outer rings
+  bool isReversed = isClosed && !getOrientation(elementShape);
 
   // 3. way intersects border only once: store a copy with clipped geometry
   if (count==1) {
     auto clippedElement = std::make_shared<T>();
     clippedElement->id = element.id;
     clippedElement->tags = element.tags;
-    setCoordinates(*clippedElement, solution.GetFirst()->Contour);
+    setCoordinates(*clippedElement, solution.GetFirst()->Contour, isReversed);
     
     return clippedElement;
   }
@@ -107,7 +111,7 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
       auto clippedElement = std::make_shared<T>();
       clippedElement->id = 0;
       clippedElement->tags = element.tags;
-      setCoordinates(*clippedElement, polyNode->Contour);
+      setCoordinates(*clippedElement, polyNode->Contour, isReversed);
       relation->elements.push_back(clippedElement);
       polyNode = polyNode->GetNext();
     }
-- 
2.43.0


From 4418a72ba57a2c37165706dd312d17235329f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 009/111] fix: import restricted to bounding box should not
 fill tiles outside of it

---
 core/src/index/ElementStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/index/ElementStore.cpp b/core/src/index/ElementStore.cpp
index 269c0c4..d002095 100644
--- a/core/src/index/ElementStore.cpp
+++ b/core/src/index/ElementStore.cpp
@@ -53,7 +53,7 @@ bool ElementStore::store(const Element &element,
                range,
                styleProvider,
                [&](const BoundingBox &elementBoundingBox, const BoundingBox &quadKeyBbox) {
-                 return elementBoundingBox.intersects(bbox);
+                 return elementBoundingBox.intersects(bbox) && quadKeyBbox.intersects(bbox);
                });
 }
 
-- 
2.43.0


From 05962c64fbe27a0a9c27936b36a4a0f4150f654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 010/111] fix: reject stylesheets and atlases with input which
 is not understood

---
 core/src/mapcss/MapCssParser.cpp       | 4 ++++
 core/src/mapcss/TextureAtlasParser.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 759f7a3..dda5745 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -285,6 +285,10 @@ void parse(const std::string &directory, Iterator begin, Iterator end, StyleShee
 
   if (!phrase_parse(begin, end, grammar, skipper, stylesheet))
     throw utymap::MapCssException(grammar.error.str());
+
+  // NOTE skipping of the rest would hide an error in it.
+  if (begin!=end)
+    throw utymap::MapCssException("Error! Unexpected input: \"" + std::string(begin, end) + "\"");
 }
 }
 
diff --git a/core/src/mapcss/TextureAtlasParser.cpp b/core/src/mapcss/TextureAtlasParser.cpp
index ad94005..43e3163 100644
--- a/core/src/mapcss/TextureAtlasParser.cpp
+++ b/core/src/mapcss/TextureAtlasParser.cpp
@@ -84,7 +84,7 @@ TextureAtlas parse(Iterator begin, Iterator end) {
   auto atlas = Atlas();
   AtlasGrammar<Iterator> grammar;
 
-  if (!phrase_parse(begin, end, grammar, qi::space, atlas))
+  if (!phrase_parse(begin, end, grammar, qi::space, atlas) || begin!=end)
     throw utymap::MapCssException(std::string("Cannot parse texture atlas."));
 
   std::unordered_map<std::string, TextureGroup> groups;
-- 
2.43.0


From 8ff6206f5967fa9e0304ce89fba50a592431b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 011/111] fix: do not modify filters and gradients of style
 provider without synchronization

---
 core/src/mapcss/StyleProvider.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..4be0667 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -285,12 +285,12 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
       gradients.emplace(key, std::move(gradient));
       gradientPair = gradients.find(key);
     }
@@ -418,9 +418,13 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
-    for (const auto &declaration : filter.declarations) {
-      style.put(*declaration);
+  // NOTE the filters are shared between threads: they should not be changed here.
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters!=pimpl_->filters.canvases.end()) {
+    for (const auto &filter : filters->second) {
+      for (const auto &declaration : filter.declarations) {
+        style.put(*declaration);
+      }
     }
   }
   return std::move(style);
-- 
2.43.0


From d8264c570b27489a0c49aa4b9c6343759dfeddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 012/111] fix: apply all rules with the identifier of element,
 not only the first one

---
 core/src/mapcss/StyleProvider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 4be0667..8b62c4e 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -324,8 +324,10 @@ class StyleProvider::StyleProviderImpl {
     });
 
     for (int i = selector.zoom.start; i <= selector.zoom.end; ++i) {
-      for (const auto &filterPair : filter)
-        filters.elements[i].emplace(filterPair);
+      for (const auto &filterPair : filter) {
+        auto &declarations = filters.elements[i][filterPair.first];
+        declarations.insert(declarations.end(), filterPair.second.begin(), filterPair.second.end());
+      }
     }
   }
 
-- 
2.43.0


From 0d0ebe6458979b0896d30f84c7e1f33ee70091d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 013/111] fix: different stylesheets should not share the same
 cache tag

---
 core/src/mapcss/StyleProvider.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 8b62c4e..3b20b25 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -51,7 +51,9 @@ struct FilterCollection final {
 void addTo(std::string &tag, const StyleDeclarations &styles) {
   for (const auto &style :styles) {
     tag.append(utymap::utils::toString(style->key()));
+    tag.append(":");
     tag.append(utymap::utils::toString(style->value()));
+    tag.append(";");
   }
 }
 
@@ -71,27 +73,38 @@ void addTo(std::string &tag, const OpType &type) {
 }
 
 /// Alters tag with value specific for passed filter map.
-void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
+void addTo(std::string &tag, const std::string &name, const ConditionFilterMap &filterMap) {
+  tag.append(name);
   for (const auto &pair : filterMap) {
+    tag.append("|z");
     tag.append(utymap::utils::toString(pair.first));
     for (const auto &filter : pair.second) {
       for (const auto &cond : filter.conditions) {
+        tag.append("[");
         tag.append(utymap::utils::toString(cond.key));
         addTo(tag, cond.type);
         tag.append(utymap::utils::toString(cond.value));
+        tag.append("]");
       }
+      tag.append("{");
       addTo(tag, filter.declarations);
+      tag.append("}");
     }
   }
 }
 
 /// Alters tag with value specific for passed filter map.
-void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
+void addTo(std::string &tag, const std::string &name, const IdentifierFilterMap &filterMap) {
+  tag.append(name);
   for (const auto &pair : filterMap) {
+    tag.append("|z");
     tag.append(utymap::utils::toString(pair.first));
     for (const auto &id : pair.second) {
+      tag.append("[");
       tag.append(utymap::utils::toString(id.first));
+      tag.append("]{");
       addTo(tag, id.second);
+      tag.append("}");
     }
   }
 }
@@ -101,12 +114,12 @@ std::string getHashTag(const FilterCollection &filterCollection) {
   std::string tag;
   tag.reserve(64000);
 
-  addTo(tag, filterCollection.nodes);
-  addTo(tag, filterCollection.ways);
-  addTo(tag, filterCollection.areas);
-  addTo(tag, filterCollection.relations);
-  addTo(tag, filterCollection.canvases);
-  addTo(tag, filterCollection.elements);
+  addTo(tag, "node", filterCollection.nodes);
+  addTo(tag, "way", filterCollection.ways);
+  addTo(tag, "area", filterCollection.areas);
+  addTo(tag, "relation", filterCollection.relations);
+  addTo(tag, "canvas", filterCollection.canvases);
+  addTo(tag, "element", filterCollection.elements);
 
   return MD5(tag).hexdigest();
 }
-- 
2.43.0


From c84c60af25e228d45389b6199ac287e5b1b1345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 014/111] fix: gradient should not be extrapolated behind its
 last color

---
 core/src/mapcss/ColorGradient.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/mapcss/ColorGradient.hpp b/core/src/mapcss/ColorGradient.hpp
index 132e44b..77b13f9 100644
--- a/core/src/mapcss/ColorGradient.hpp
+++ b/core/src/mapcss/ColorGradient.hpp
@@ -3,6 +3,7 @@
 
 #include "mapcss/Color.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <vector>
 #include <utility>
@@ -47,7 +48,8 @@ class ColorGradient final {
 
     double timeA = pairA.first;
     double timeB = pairB.first;
-    double mu = index==0 ? 0 : (time - timeA)/(timeB - timeA);
+    // NOTE there is nothing to interpolate with behind the last color.
+    double mu = index==0 ? 0 : std::min(1., (time - timeA)/(timeB - timeA));
 
     return interpolate(pairA.second, pairB.second, mu);
   }
-- 
2.43.0


From 734c8e471a87dd00ebc675ed1314005ba62477a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 015/111] fix: do not read behind the end of short hex color

---
 core/src/utils/GradientUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index ae2b972..4e1ea83 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -229,6 +229,9 @@ inline Color fromName(const std::string &colorStr) {
 
 /// Gets integer representation of color from color string.
 inline Color fromHex(const std::string &colorStr) {
+  if (colorStr.size()!=7)
+    throw std::invalid_argument("Invalid color: " + colorStr);
+
   auto r = hexToInt(colorStr[2]) + hexToInt(colorStr[1])*16;
   auto g = hexToInt(colorStr[4]) + hexToInt(colorStr[3])*16;
   auto b = hexToInt(colorStr[6]) + hexToInt(colorStr[5])*16;
-- 
2.43.0


From 2fd860a204669049e3a26572749a7ab29163c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 016/111] fix: color which name starts with gradient is not a
 gradient

---
 core/src/utils/GradientUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index 4e1ea83..ddd15ac 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -245,9 +245,9 @@ const std::regex GradientUtils::gradientRegEx =
         "rgb ?\\([ 0-9.%,]+?\\)|#[0-9a-fA-F]{3,6}\\s[0-9]{1,3}[%|px]|#[0-9a-fA-F]{3,6}|([a-zA-Z]+){1}(\\s[0-9]{1,3}\\s*[%|px]?)?");
 
 std::unique_ptr<const ColorGradient> GradientUtils::parseGradient(const std::string &gradientStr) {
-  const static std::string prefix = "gradient";
+  // NOTE the bracket belongs to the prefix as there are colors which names start with "gradient".
   auto begin = std::sregex_iterator(
-      gradientStr.begin() + (gradientStr.compare(0, prefix.size(), prefix) ? 0 : prefix.size()),
+      gradientStr.begin() + (gradientStr.compare(0, GradientPrefix.size(), GradientPrefix) ? 0 : GradientPrefix.size()),
       gradientStr.end(),
       gradientRegEx);
   auto end = std::sregex_iterator();
-- 
2.43.0


From 276e8a721302928dd32fb8d86e5aec70812fb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 017/111] fix: way which refers to a missing node should not
 crash import

---
 core/src/formats/osm/OsmDataVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..efba01a 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,8 +31,13 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    auto nodePair = context_.nodeMap.find(nodeId);
+    // NOTE data can be incomplete: e.g. nodes outside of extract are missing.
+    if (nodePair!=context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
+  if (coordinates.empty()) return;
+
   auto size = coordinates.size();
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
-- 
2.43.0


From 49cfd95dfebce2c1830e9e8c42b294e243e84153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 018/111] fix: relation members of different types can have the
 same id

---
 core/src/formats/osm/RelationProcessor.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..5f70700 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -29,22 +29,22 @@ class RelationProcessor final {
   }
 
   void visit(OsmDataContext::NodeMapType::const_iterator node, const std::string &role) {
-    if (!isAlreadyProcessed(node->first))
+    if (!isAlreadyProcessed(*node->second))
       relation_.elements.push_back(node->second);
   }
 
   void visit(OsmDataContext::WayMapType::const_iterator way, const std::string &role) {
-    if (!isAlreadyProcessed(way->first))
+    if (!isAlreadyProcessed(*way->second))
       relation_.elements.push_back(way->second);
   }
 
   void visit(OsmDataContext::AreaMapType::const_iterator area, const std::string &role) {
-    if (!isAlreadyProcessed(area->first))
+    if (!isAlreadyProcessed(*area->second))
       relation_.elements.push_back(area->second);
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
+    if (isAlreadyProcessed(*rel->second) || hasReferenceToParent(*rel->second))
       return;
 
     resolve_(*rel->second);
@@ -53,10 +53,11 @@ class RelationProcessor final {
 
  private:
 
-  bool isAlreadyProcessed(std::uint64_t id) {
+  /// NOTE ids of elements of different types can be the same.
+  bool isAlreadyProcessed(const utymap::entities::Element &element) {
     auto it = std::find_if(relation_.elements.begin(), relation_.elements.end(),
-                           [&id](const std::shared_ptr<utymap::entities::Element> &e) {
-                             return e->id==id;
+                           [&element](const std::shared_ptr<utymap::entities::Element> &e) {
+                             return e.get()==&element;
                            });
 
     return it!=relation_.elements.end();
@@ -71,7 +72,7 @@ class RelationProcessor final {
     auto members = relationMembersMap_.find(rel.id)->second;
     auto it = std::find_if(members.begin(), members.end(),
                            [&parentId](const utymap::formats::RelationMember &m) {
-                             return m.refId==parentId;
+                             return m.refId==parentId && m.type!="n" && m.type!="w";
                            });
 
     return it!=members.end();
-- 
2.43.0


From 76661676c55d57542559c634a5db60f7c25a0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 019/111] fix: relations should be resolved once and without
 recursion

---
 core/src/formats/osm/OsmDataVisitor.cpp | 40 +++++++++++++++++++++----
 core/src/formats/osm/OsmDataVisitor.hpp |  7 +++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index efba01a..15b2d0a 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -85,20 +85,50 @@ bool OsmDataVisitor::hasTag(const std::string &key,
 void OsmDataVisitor::resolve(Relation &relation) {
   if (cancelToken_.isCancelled()) return;
 
-  auto membersPair = relationMembers_.find(relation.id);
   // already resolved
-  if (relation.elements.size()==membersPair->second.size())
+  if (!resolvedRelations_.insert(relation.id).second)
     return;
 
+  // NOTE relation cannot be a member of itself, even indirectly.
+  auto membersPair = relationMembers_.find(relation.id);
+  auto &members = membersPair->second;
+  RelationMembers resolvable;
+  std::copy_if(members.begin(), members.end(), std::back_inserter(resolvable), [&](const RelationMember &member) {
+    return !isRelation(member) || !hasReference(member.refId, relation.id);
+  });
+
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
   if (hasTag("type", "multipolygon", relation.tags))
-    MultipolygonProcessor(relation, membersPair->second, context_, resolveFunc).process();
+    MultipolygonProcessor(relation, resolvable, context_, resolveFunc).process();
   else if (hasTag("type", "building", relation.tags))
-    BuildingProcessor(relation, membersPair->second, context_, resolveFunc).process();
+    BuildingProcessor(relation, resolvable, context_, resolveFunc).process();
   else {
-    RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
+    RelationProcessor(relation, resolvable, context_, relationMembers_, resolveFunc).process();
+  }
+}
+
+bool OsmDataVisitor::isRelation(const RelationMember &member) {
+  return member.type!="n" && member.type!="w";
+}
+
+bool OsmDataVisitor::hasReference(std::uint64_t fromId, std::uint64_t toId) const {
+  std::unordered_set<std::uint64_t> visited;
+  std::vector<std::uint64_t> stack = {fromId};
+  while (!stack.empty()) {
+    auto id = stack.back();
+    stack.pop_back();
+    if (id==toId) return true;
+    if (!visited.insert(id).second) continue;
+
+    auto membersPair = relationMembers_.find(id);
+    if (membersPair==relationMembers_.end()) continue;
+    for (const auto &member : membersPair->second) {
+      if (isRelation(member))
+        stack.push_back(member.refId);
+    }
   }
+  return false;
 }
 
 utymap::BoundingBox OsmDataVisitor::complete() {
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..9c13a50 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -13,6 +13,7 @@
 #include <string>
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 
 namespace utymap {
 namespace formats {
@@ -41,12 +42,18 @@ class OsmDataVisitor final {
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
   void resolve(utymap::entities::Relation &relation);
 
+  /// Checks whether member is relation.
+  static bool isRelation(const utymap::formats::RelationMember &member);
+  /// Checks whether one relation is or contains, maybe indirectly, another one.
+  bool hasReference(std::uint64_t fromId, std::uint64_t toId) const;
+
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
   const utymap::CancellationToken &cancelToken_;
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  std::unordered_set<std::uint64_t> resolvedRelations_;
 };
 
 }
-- 
2.43.0


From fdbd720059d4ad6f29cd5a2eeb3bdf5fc7375cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 020/111] fix: decode entities of osm xml

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 67 +++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index ff50440..a21f601 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -12,6 +12,9 @@
 #include "formats/FormatTypes.hpp"
 #include "formats/osm/xml/OsmXmlParser.hpp"
 
+#include <cstdlib>
+#include <unordered_map>
+
 using namespace utymap;
 using namespace utymap::formats;
 
@@ -40,6 +43,66 @@ typedef boost::tuple<std::uint64_t, std::vector<std::uint64_t>, std::vector<TagT
 typedef RelationMember MemberType;
 typedef boost::tuple<std::uint64_t, std::vector<MemberType>, std::vector<TagType>> RelationType;
 
+/// Appends unicode code point encoded in utf-8.
+void appendCodePoint(std::string &str, unsigned long code) {
+  if (code < 0x80) {
+    str += static_cast<char>(code);
+  } else if (code < 0x800) {
+    str += static_cast<char>(0xc0 | (code >> 6));
+    str += static_cast<char>(0x80 | (code & 0x3f));
+  } else if (code < 0x10000) {
+    str += static_cast<char>(0xe0 | (code >> 12));
+    str += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    str += static_cast<char>(0x80 | (code & 0x3f));
+  } else {
+    str += static_cast<char>(0xf0 | ((code >> 18) & 0x07));
+    str += static_cast<char>(0x80 | ((code >> 12) & 0x3f));
+    str += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    str += static_cast<char>(0x80 | (code & 0x3f));
+  }
+}
+
+/// Replaces xml entities, unknown ones are kept.
+void decodeEntities(std::string &str) {
+  if (str.find('&')==std::string::npos) return;
+
+  static const std::unordered_map<std::string, char> entities =
+      {{"amp", '&'}, {"lt", '<'}, {"gt", '>'}, {"quot", '"'}, {"apos", '\''}};
+
+  std::string result;
+  for (std::size_t i = 0; i < str.size(); ++i) {
+    auto end = str[i]=='&' ? str.find(';', i) : std::string::npos;
+    if (end!=std::string::npos) {
+      auto name = str.substr(i + 1, end - i - 1);
+      auto entity = entities.find(name);
+      if (entity!=entities.end()) {
+        result += entity->second;
+        i = end;
+        continue;
+      }
+      if (name.size() > 1 && name[0]=='#') {
+        bool isHex = name[1]=='x';
+        char *last = nullptr;
+        auto code = std::strtoul(name.c_str() + (isHex ? 2 : 1), &last, isHex ? 16 : 10);
+        if (*last=='\0' && code > 0 && code < 0x110000) {
+          appendCodePoint(result, code);
+          i = end;
+          continue;
+        }
+      }
+    }
+    result += str[i];
+  }
+  str = std::move(result);
+}
+
+void decodeEntities(Tags &tags) {
+  for (auto &tag : tags) {
+    decodeEntities(tag.key);
+    decodeEntities(tag.value);
+  }
+}
+
 template <typename Iterator>
 struct AttributeSkipper : qi::grammar <Iterator> {
   AttributeSkipper() : AttributeSkipper::base_type(attributeSkipper, "attr_skipper") {
@@ -247,12 +310,14 @@ private:
   void onNode(NodeType& node) {
     utymap::GeoCoordinate coordinate(boost::get<1>(node), boost::get<2>(node));
     Tags& tags = boost::get<3>(node);
+    decodeEntities(tags);
     visitor.visitNode(boost::get<0>(node), coordinate, tags);
   }
 
   void onWay(WayType& way) {
     auto& ids = boost::get<1>(way);
     Tags& tags = boost::get<2>(way);
+    decodeEntities(tags);
     visitor.visitWay(boost::get<0>(way), ids, tags);
   }
 
@@ -260,8 +325,10 @@ private:
     auto& members = boost::get<1>(relation);
     for (auto& member : members) {
         member.type = mapType(member.type);
+        decodeEntities(member.role);
     }
     Tags& tags = boost::get<2>(relation);
+    decodeEntities(tags);
     visitor.visitRelation(boost::get<0>(relation), members, tags);
   }
 
-- 
2.43.0


From b6e2c839ce4e114939dc172751f39a7f7bb2d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 021/111] fix: read content of uncompressed pbf blob

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..828a99c 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -94,7 +94,7 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      memcpy(unpack_buffer_.data(), blob.raw().data(), blob.raw().size());
       return sz;
     }
 
-- 
2.43.0


From ba05a4d0542696e760101dba776ccaea626522b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 022/111] fix: add offset of pbf block to dense nodes only once

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 828a99c..ee98f65 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -153,15 +153,15 @@ class OsmPbfParser final {
       if (pg.has_dense()) {
         OSMPBF::DenseNodes dn = pg.dense();
         uint64_t id = 0;
-        double lon = 0;
-        double lat = 0;
+        int64_t lon = 0;
+        int64_t lat = 0;
 
         int current_kv = 0;
 
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
-          lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
-          lon += 0.000000001*(primblock.lon_offset() + (primblock.granularity()*dn.lon(i)));
+          lat += dn.lat(i);
+          lon += dn.lon(i);
 
           Tags tags;
           tags.reserve(2);
@@ -175,7 +175,9 @@ class OsmPbfParser final {
             tags.push_back(tag);
           }
           ++current_kv;
-          GeoCoordinate coordinate(lat, lon);
+          // NOTE only values are delta coded: offset should be added once.
+          GeoCoordinate coordinate(0.000000001*(primblock.lat_offset() + (primblock.granularity()*lat)),
+                                   0.000000001*(primblock.lon_offset() + (primblock.granularity()*lon)));
           visitor.visitNode(id, coordinate, tags);
         }
       }
-- 
2.43.0


From 9ecac7dc13e8b6d1f9a76d2fe06d66f028cb32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 023/111] fix: accept a semicolon after a rule of stylesheet as
 before

---
 core/src/mapcss/MapCssParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index dda5745..af12296 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -256,7 +256,7 @@ struct StyleSheetGrammar : qi::grammar<Iterator, StyleSheet(), CommentSkipper<It
       import(directory, stylesheet),
       texture(directory, stylesheet) {
     start = qi::eps
-        > *(rule | import | texture);
+        > *((rule | import | texture) >> *qi::lit(';'));
 
     start.name("stylesheet");
     qi::on_error<qi::fail>
-- 
2.43.0


From ac127e4cc11c03cdb408f5d0ee4ea9392fa3bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 024/111] fix: an island in a hole is not a hole of the
 surrounding outline

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..dfbf332 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -240,6 +240,11 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
             break;
           }
         }
+        // NOTE inner rings found so far are already removed from rings.
+        for (const auto &inner : inners) {
+          if (inner->containsRing((*ring)->coordinates))
+            containedInOthers = true;
+        }
         if (!containedInOthers) {
           inners.push_back(*ring);
           ring = rings.erase(ring);
-- 
2.43.0


From 416df58a0def1184861d1103ea548ac0941647cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 025/111] fix: multipolygon is incomplete when its last ring is
 not closed

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index dfbf332..d5d61f7 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -208,6 +208,10 @@ std::vector<std::shared_ptr<MultipolygonProcessor::CoordinateSequence>> Multipol
     }
   }
 
+  // NOTE the last ring could not be closed
+  if (currentRing!=nullptr)
+    return CoordinateSequences();
+
   return std::move(closedRings);
 }
 
-- 
2.43.0


From 320c4dde06b49d3913ced895f3398a5c44187772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 026/111] fix: a relation does not stand for a missing way of
 multipolygon

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index d5d61f7..9d262c0 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -117,11 +117,8 @@ void MultipolygonProcessor::process() {
         if (member.role=="outer" && hasNoTags)
           mergeTags(areaPair->second->tags);
       } else {
-        auto relationPair = context_.relationMap.find(member.refId);
-        if (relationPair==context_.relationMap.end())
-          return; //  NOTE cannot fill relation: incomplete data
-
-        resolve_(*relationPair->second);
+        // NOTE cannot fill relation: incomplete data. A relation with the same id is another element.
+        return;
       }
     }
 
-- 
2.43.0


From eebda3d8e9a89664af31407dfd5951baf49b56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 027/111] fix: name of json feature collection can have dots

---
 core/src/formats/osm/json/OsmJsonParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/formats/osm/json/OsmJsonParser.hpp b/core/src/formats/osm/json/OsmJsonParser.hpp
index 41a0ab4..cf2cecc 100644
--- a/core/src/formats/osm/json/OsmJsonParser.hpp
+++ b/core/src/formats/osm/json/OsmJsonParser.hpp
@@ -57,7 +57,7 @@ class OsmJsonParser {
     for (const ptree::value_type &feature : pt) {
       std::string featureName = feature.first;
       std::uint32_t featureId = stringTable_.getId(featureName);
-      for (const ptree::value_type &f : pt.get_child(featureName).get_child("features")) {
+      for (const ptree::value_type &f : feature.second.get_child("features")) {
         const auto &type = f.second.get_child("geometry.type").data();
         if (type=="Point")
           parsePoint(visitor, featureId, f.second);
-- 
2.43.0


From e38adf6989abcdc4fc73a52a873e52e31d9cd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:15 +0000
Subject: [PATCH 028/111] fix: do not read behind the end of polygon parts

---
 core/src/formats/shape/ShapeParser.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 914eb20..18d6656 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -132,21 +132,18 @@ class ShapeParser final {
   void visitPolygon(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
     PolygonMembers members;
     members.reserve(static_cast<std::size_t>(shape.nParts));
-    std::size_t coordIndex = 0;
-    for (std::size_t i = 0, partNum = 0; i < shape.nVertices; ++i) {
+    for (int partNum = 0; partNum < shape.nParts; ++partNum) {
       int startIndex = shape.panPartStart[partNum];
-      if (partNum < shape.nParts && startIndex==i) {
-        coordIndex = static_cast<std::size_t>(partNum);
-        members.push_back(PolygonMember());
-        // TODO check inner/outer? Check whether this flag is true for closed polygon only
-        members[partNum].isRing = shape.panPartType[partNum]==SHPP_RING;
-        int endIndex = partNum==shape.nParts - 1
-                       ? shape.nVertices
-                       : shape.panPartStart[partNum + 1];
-        members[coordIndex].coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
-        ++partNum;
+      int endIndex = partNum==shape.nParts - 1
+                     ? shape.nVertices
+                     : shape.panPartStart[partNum + 1];
+      PolygonMember member;
+      // TODO check inner/outer? Check whether this flag is true for closed polygon only
+      member.isRing = shape.panPartType[partNum]==SHPP_RING;
+      for (int i = startIndex; i < endIndex; ++i) {
+        member.coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
       }
-      members[coordIndex].coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
+      members.push_back(member);
     }
     visitor.visitRelation(members, tags);
   }
-- 
2.43.0


From 58be91eb1b634dc81494c5e58a3076f38de54bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 029/111] fix: value of logical attribute of shape is lost

---
 core/src/formats/shape/ShapeParser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 18d6656..c07b202 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -77,6 +77,8 @@ class ShapeParser final {
             break;
           case FTDouble:tag.value = utymap::utils::toString(DBFReadDoubleAttribute(dbfFile, k, i));
             break;
+          case FTLogical:tag.value = DBFReadLogicalAttribute(dbfFile, k, i);
+            break;
           default:break;
         }
       }
-- 
2.43.0


From a9343381fc2690cc3ee301ca4a00adf8b06e5bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:56 +0000
Subject: [PATCH 030/111] fix: integer attribute of shape can have ten digits

---
 core/src/formats/shape/ShapeParser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index c07b202..1e065d1 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -8,6 +8,7 @@
 
 #include "shapefile/shapefil.h"
 
+#include <cstdint>
 #include <iostream>
 #include <string>
 #include <stdexcept>
@@ -73,7 +74,8 @@ class ShapeParser final {
         switch (eType) {
           case FTString:tag.value = DBFReadStringAttribute(dbfFile, k, i);
             break;
-          case FTInteger:tag.value = utymap::utils::toString(DBFReadIntegerAttribute(dbfFile, k, i));
+          case FTInteger:tag.value = utymap::utils::toString(
+                static_cast<std::int64_t>(DBFReadDoubleAttribute(dbfFile, k, i)));
             break;
           case FTDouble:tag.value = utymap::utils::toString(DBFReadDoubleAttribute(dbfFile, k, i));
             break;
-- 
2.43.0


From dfb8aee2303eca859e391b3266b36891e7f81e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 031/111] fix: reject pbf blobs with sizes which do not fit
 into buffers

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index ee98f65..9170f80 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -64,7 +64,7 @@ class OsmPbfParser final {
     // little endian to big endian
     sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -82,7 +82,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -99,13 +99,16 @@ class OsmPbfParser final {
     }
 
     if (blob.has_zlib_data()) {
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Uncompressed blob size is bigger than allowed");
+
       sz = static_cast<std::int32_t>(blob.zlib_data().size());
 
       z_stream z;
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
       z.next_out = reinterpret_cast<unsigned char *>(unpack_buffer_.data());
-      z.avail_out = blob.raw_size();
+      z.avail_out = static_cast<uInt>(blob.raw_size());
       z.zalloc = Z_NULL;
       z.zfree = Z_NULL;
       z.opaque = Z_NULL;
@@ -113,8 +116,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
-- 
2.43.0


From faa97bfa52dc9d1de6c4a559190eb1a8ba587bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:57 +0000
Subject: [PATCH 032/111] fix: reject pbf blocks with indices which are out of
 range

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 26 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 9170f80..2b106b2 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -161,6 +161,9 @@ class OsmPbfParser final {
         int64_t lon = 0;
         int64_t lat = 0;
 
+        if (dn.lat_size() < dn.id_size() || dn.lon_size() < dn.id_size())
+          throw std::domain_error("Dense nodes have no coordinates");
+
         int current_kv = 0;
 
         for (int i = 0; i < dn.id_size(); ++i) {
@@ -171,11 +174,13 @@ class OsmPbfParser final {
           Tags tags;
           tags.reserve(2);
           while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+            if (current_kv + 1 == dn.keys_vals_size())
+              throw std::domain_error("Key has no value");
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
@@ -206,6 +211,8 @@ class OsmPbfParser final {
       for (int i = 0; i < pg.relations_size(); ++i) {
         OSMPBF::Relation rel = pg.relations(i);
         uint64_t id = 0;
+        if (rel.types_size() < rel.memids_size() || rel.roles_sid_size() < rel.memids_size())
+          throw std::domain_error("Relation members have no type or role");
         RelationMembers refs;
         refs.reserve(rel.memids_size());
         for (int l = 0; l < rel.memids_size(); ++l) {
@@ -213,7 +220,7 @@ class OsmPbfParser final {
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -234,15 +241,24 @@ class OsmPbfParser final {
     }
   }
 
+  /// Gets string from table of the block.
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("String is not in table of block");
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.vals_size() < object.keys_size())
+      throw std::domain_error("Key has no value");
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
-- 
2.43.0


From 12daa30d67eee24f11b7ec73af5a9243921b183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:57 +0000
Subject: [PATCH 033/111] fix: skip shapes without vertices

---
 core/src/formats/shape/ShapeParser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 1e065d1..f92f45e 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -119,6 +119,11 @@ class ShapeParser final {
   }
 
   void visitArc(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
+    if (shape.nVertices == 0) {
+      std::cerr << "Arc type has no vertices.";
+      return;
+    }
+
     if (shape.nParts > 1) {
       std::cerr << "Arc type has more than one part.";
       return;
@@ -134,6 +139,11 @@ class ShapeParser final {
   }
 
   void visitPolygon(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
+    if (shape.nVertices == 0) {
+      std::cerr << "Polygon type has no vertices.";
+      return;
+    }
+
     PolygonMembers members;
     members.reserve(static_cast<std::size_t>(shape.nParts));
     for (int partNum = 0; partNum < shape.nParts; ++partNum) {
-- 
2.43.0


From 2e953b656061b751f6ca0ea14bb0b278a7b69158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 034/111] fix: reject dbf file with fields outside of its
 records

---
 core/lib/shapefile/dbfopen.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/lib/shapefile/dbfopen.c b/core/lib/shapefile/dbfopen.c
index fbe7b06..ad89412 100644
--- a/core/lib/shapefile/dbfopen.c
+++ b/core/lib/shapefile/dbfopen.c
@@ -568,6 +568,17 @@ DBFOpenLL( const char * pszFilename, const char * pszAccess, SAHooks *psHooks )
 	      psDBF->panFieldOffset[iField-1] + psDBF->panFieldSize[iField-1];
     }
 
+/* -------------------------------------------------------------------- */
+/*  Fields should not be read behind the end of record buffer           */
+/* -------------------------------------------------------------------- */
+    if( nFields > 0
+        && psDBF->panFieldOffset[nFields-1] + psDBF->panFieldSize[nFields-1]
+           > psDBF->nRecordLength )
+    {
+        DBFClose( psDBF );
+        return NULL;
+    }
+
     return( psDBF );
 }
 
-- 
2.43.0


From 31a282901d5e886f509b813e8e18500d38a046db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 035/111] fix: do not search the whole value for the end of
 each xml entity

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index a21f601..4b646ff 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -71,9 +71,12 @@ void decodeEntities(std::string &str) {
 
   std::string result;
   for (std::size_t i = 0; i < str.size(); ++i) {
-    auto end = str[i]=='&' ? str.find(';', i) : std::string::npos;
+    // NOTE references are short: do not search the rest of string for the end of each one.
+    auto name = str[i]=='&' ? str.substr(i + 1, 32) : std::string();
+    auto end = name.find(';');
     if (end!=std::string::npos) {
-      auto name = str.substr(i + 1, end - i - 1);
+      name.resize(end);
+      end += i + 1;
       auto entity = entities.find(name);
       if (entity!=entities.end()) {
         result += entity->second;
-- 
2.43.0


From 512e3a9ab02c9602f0015217e02c73b08b9bad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 036/111] fix: reject negative size of shape record

---
 core/lib/shapefile/shpopen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/shapefile/shpopen.c b/core/lib/shapefile/shpopen.c
index ee9fce5..b12ea50 100644
--- a/core/lib/shapefile/shpopen.c
+++ b/core/lib/shapefile/shpopen.c
@@ -1589,6 +1589,11 @@ SHPReadObject( SHPHandle psSHP, int hEntity )
 /*      Ensure our record buffer is large enough.                       */
 /* -------------------------------------------------------------------- */
     nEntitySize = psSHP->panRecSize[hEntity]+8;
+    if( nEntitySize < 8 )
+    {
+        psSHP->sHooks.Error( "Corrupted .shx file : invalid size of record." );
+        return NULL;
+    }
     if( nEntitySize > psSHP->nBufSize )
     {
         psSHP->pabyRec = (uchar *) SfRealloc(psSHP->pabyRec,nEntitySize);
-- 
2.43.0


From 621c3e9016be89401569dd35aed2e436393dff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:12 +0000
Subject: [PATCH 037/111] fix: close files when import of shapes fails

---
 core/src/formats/shape/ShapeParser.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index f92f45e..a2f6f3d 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdint>
 #include <iostream>
+#include <memory>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -25,6 +26,7 @@ class ShapeParser final {
     SHPHandle shpFile = SHPOpen(path.c_str(), "rb");
     if (shpFile==NULL)
       throw std::domain_error("Cannot open shp file.");
+    std::unique_ptr<SHPInfo, decltype(&SHPClose)> shpGuard(shpFile, &SHPClose);
 
     int shapeType, entityCount;
     double adfMinBound[4], adfMaxBound[4];
@@ -33,6 +35,7 @@ class ShapeParser final {
     DBFHandle dbfFile = DBFOpen(path.c_str(), "rb");
     if (dbfFile==NULL)
       throw std::domain_error("Cannot open dbf file.");
+    std::unique_ptr<DBFInfo, decltype(&DBFClose)> dbfGuard(dbfFile, &DBFClose);
 
     if (DBFGetFieldCount(dbfFile)==0)
       throw std::domain_error("There are no fields in dbf table.");
@@ -44,15 +47,11 @@ class ShapeParser final {
       SHPObject *shape = SHPReadObject(shpFile, k);
       if (shape==NULL)
         throw std::domain_error("Unable to read shape:" + utymap::utils::toString(k));
+      std::unique_ptr<SHPObject, decltype(&SHPDestroyObject)> shapeGuard(shape, &SHPDestroyObject);
 
       Tags tags = parseTags(dbfFile, k);
       visitShape(*shape, tags, visitor);
-
-      SHPDestroyObject(shape);
     }
-
-    DBFClose(dbfFile);
-    SHPClose(shpFile);
   }
 
  private:
-- 
2.43.0


From b2609f96063174dc236781715665ed842cbb917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 038/111] fix: low byte of srtm height is unsigned

---
 core/src/heightmap/SrtmElevationProvider.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..f4fb9d5 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -142,7 +142,8 @@ class SrtmElevationProvider final : public ElevationProvider {
 
   static int readPx(const HgtCell &cell, int y, int x) {
     int pos = cell.offset + 2*(x - cell.totalPx*y);
-    return (cell.data[pos]) << 8 | (cell.data[pos + 1]);
+    // NOTE height is signed, but its low byte is not.
+    return cell.data[pos]*256 + static_cast<unsigned char>(cell.data[pos + 1]);
   }
 
   static HgtCell readCell(const std::string &path) {
-- 
2.43.0


From ec7f67fa48d6373155e9f5b41f709fd5e5b4c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 039/111] fix: lookup of elevation should not create missing
 srtm file

---
 core/src/heightmap/SrtmElevationProvider.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index f4fb9d5..70fa75a 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -147,7 +147,7 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   static HgtCell readCell(const std::string &path) {
-    std::fstream file(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::app);
+    std::fstream file(path, std::ios::in | std::ios::binary);
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
 
-- 
2.43.0


From ffe5eb93947f9f5d641e4974a8bf0ac4d961b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 040/111] fix: use srtm cell which contains coordinate on
 southern and western hemispheres

---
 core/src/heightmap/SrtmElevationProvider.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 70fa75a..6288920 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -66,10 +66,10 @@ class SrtmElevationProvider final : public ElevationProvider {
       return;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(bbox.minPoint.latitude);
-    int minLon = static_cast<int>(bbox.minPoint.longitude);
-    int maxLat = static_cast<int>(bbox.maxPoint.latitude);
-    int maxLon = static_cast<int>(bbox.maxPoint.longitude);
+    int minLat = static_cast<int>(std::floor(bbox.minPoint.latitude));
+    int minLon = static_cast<int>(std::floor(bbox.minPoint.longitude));
+    int maxLat = static_cast<int>(std::floor(bbox.maxPoint.latitude));
+    int maxLon = static_cast<int>(std::floor(bbox.maxPoint.longitude));
 
     int latDiff = maxLat - minLat;
     int lonDiff = maxLon - minLon;
@@ -88,8 +88,9 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
-    int latDec = static_cast<int>(latitude);
-    int lonDec = static_cast<int>(longitude);
+    // NOTE cell is named after its south west corner on both hemispheres.
+    int latDec = static_cast<int>(std::floor(latitude));
+    int lonDec = static_cast<int>(std::floor(longitude));
 
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
@@ -177,9 +178,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::ostringstream stream;
     stream << dataPath_
            << std::setfill('0')
-           << (key.lat > 0 ? 'N' : 'S')
+           << (key.lat >= 0 ? 'N' : 'S')
            << std::setw(2) << std::abs(key.lat) << std::setw(0)
-           << (key.lon > 0 ? 'E' : 'W')
+           << (key.lon >= 0 ? 'E' : 'W')
            << std::setw(3) << std::abs(key.lon)
            << ".hgt";
     return stream.str();
-- 
2.43.0


From f6d218eb44826b748d169a61b9e554d33ec1005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 041/111] fix: rounding should not move srtm lookup to the next
 sample

---
 core/src/heightmap/SrtmElevationProvider.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 6288920..43e0ae8 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -5,6 +5,7 @@
 #include "heightmap/ElevationProvider.hpp"
 #include "utils/GeoUtils.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <sstream>
@@ -116,8 +117,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     // (sec)    0        3   x  (lon)
 
     //both values are [0; totalPx - 1] (totalPx reserved for interpolating)
-    int y = static_cast<int>(secondsLat/cell.secondsPerPx);
-    int x = static_cast<int>(secondsLon/cell.secondsPerPx);
+    int y = std::min(static_cast<int>(secondsLat/cell.secondsPerPx), cell.totalPx - 2);
+    int x = std::min(static_cast<int>(secondsLon/cell.secondsPerPx), cell.totalPx - 2);
 
     //get norther and easter points
     int height2 = readPx(cell, y, x);
@@ -126,8 +127,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     int height1 = readPx(cell, y + 1, x + 1);
 
     //ratio where X lays
-    double dy = std::fmod(secondsLat, cell.secondsPerPx)/cell.secondsPerPx;
-    double dx = std::fmod(secondsLon, cell.secondsPerPx)/cell.secondsPerPx;
+    double dy = secondsLat/cell.secondsPerPx - y;
+    double dx = secondsLon/cell.secondsPerPx - x;
 
     // Bilinear interpolation
     // h0------------h1
-- 
2.43.0


From 0c89ecba07034462ec966e2d33a804b6dabb4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 042/111] fix: srtm lookup of coordinate outside of the tile
 should not crash

---
 core/src/heightmap/SrtmElevationProvider.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 43e0ae8..e710f4b 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -83,9 +83,12 @@ class SrtmElevationProvider final : public ElevationProvider {
           continue;
 
         std::string path = getFilePath(cellKey);
-        HgtCell cell = readCell(path);
         cells_.emplace(cellKey, readCell(path));
       }
+
+    // NOTE coordinate can be outside of the tile, e.g. geometry with width near its border.
+    if (cells_.find(hgtCellKey)==cells_.end())
+      cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey)));
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
-- 
2.43.0


From 094836d04e24ac8be78e041d2ed7c8ec1517e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 043/111] fix: srtm cells should not be read while another
 thread loads them

---
 core/src/heightmap/SrtmElevationProvider.hpp | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index e710f4b..1648d36 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -60,9 +60,8 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
+  /// NOTE should be called with lock.
   void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
-    std::lock_guard<std::mutex> lock(lock_);
-
     if (cells_.find(hgtCellKey)!=cells_.end())
       return;
 
@@ -91,6 +90,17 @@ class SrtmElevationProvider final : public ElevationProvider {
       cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey)));
   }
 
+  /// NOTE cells are never removed, so reference stays valid without lock.
+  const HgtCell &getCell(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
+    std::lock_guard<std::mutex> lock(lock_);
+    auto cellPtr = cells_.find(hgtCellKey);
+    if (cellPtr==cells_.end()) {
+      preload(quadKey, hgtCellKey);
+      cellPtr = cells_.find(hgtCellKey);
+    }
+    return cellPtr->second;
+  }
+
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
     // NOTE cell is named after its south west corner on both hemispheres.
     int latDec = static_cast<int>(std::floor(latitude));
@@ -100,13 +110,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLon = (longitude - lonDec)*3600;
 
     HgtCellKey hgtCellKey(latDec, lonDec);
-    auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
-      cellPtr = cells_.find(hgtCellKey);
-    }
-
-    const auto &cell = cellPtr->second;
+    const auto &cell = getCell(quadKey, hgtCellKey);
 
     // load tile
     //X corresponds to x/y values,
-- 
2.43.0


From 9cfbf8574aac4c7d852f05106e190268b7243d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 044/111] fix: grid heights should not be read while another
 thread loads them

---
 core/src/heightmap/GridElevationProvider.hpp | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..f11a972 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,11 +46,7 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    auto data = getData(quadKey);
 
     int resolution = data->second.resolution;
 
@@ -90,10 +86,21 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
+  /// Gets data for given quadkey.
+  /// NOTE data is never removed, so iterator stays valid without lock.
+  std::map<const QuadKey, EleData, QuadKey::Comparator>::const_iterator getData(const utymap::QuadKey &quadKey) const {
     std::lock_guard<std::mutex> lock(lock_);
+    auto data = data_.find(quadKey);
+    if (data==data_.end()) {
+      preload(quadKey);
+      data = data_.find(quadKey);
+    }
+    return data;
+  }
 
+  /// Preloads data for given quadkey.
+  /// NOTE should be called with lock.
+  void preload(const utymap::QuadKey &quadKey) const {
     if (data_.find(quadKey)!=data_.end())
       return;
 
-- 
2.43.0


From c92701cd8be03bfdd219f437521b46258fef3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 045/111] fix: grid with less than four heights has no cells

---
 core/src/heightmap/GridElevationProvider.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index f11a972..a4e8072 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -120,7 +120,8 @@ class GridElevationProvider final : public ElevationProvider {
 
     data.heights.shrink_to_fit();
 
-    if (data.heights.empty())
+    // NOTE at least one cell is needed for interpolation.
+    if (data.heights.size() < 4)
       throw std::domain_error("Cannot get elevation data from:" + filePath);
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-- 
2.43.0


From f1589a71d2430ebe884c94bb2a996a7d5c516dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 046/111] fix: position in grid of heights should not drift
 from west to east

---
 core/src/heightmap/GridElevationProvider.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index a4e8072..7099e9a 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -25,8 +25,8 @@ class GridElevationProvider final : public ElevationProvider {
   struct EleData {
     int xStart = 0;
     int yStart = 0;
-    int xStep = 0;
-    int yStep = 0;
+    double xStep = 0;
+    double yStep = 0;
     int resolution = 0;
 
     std::vector<int> heights;
@@ -53,14 +53,14 @@ class GridElevationProvider final : public ElevationProvider {
     int x = static_cast<int>(longitude*Scale) - data->second.xStart;
     int y = static_cast<int>(latitude*Scale) - data->second.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(static_cast<int>(x/data->second.xStep), 0, resolution);
+    int y0 = clamp(static_cast<int>(y/data->second.yStep), 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = (x - x0*data->second.xStep)/data->second.xStep;
+    double dy = (y - y0*data->second.yStep)/data->second.yStep;
 
     int cellSize = resolution + 1;
     int height2 = data->second.heights[x0 + y0*cellSize];
@@ -129,8 +129,9 @@ class GridElevationProvider final : public ElevationProvider {
     data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
     data.xStart = static_cast<int>(bbox.minPoint.longitude*Scale);
     data.yStart = static_cast<int>(bbox.minPoint.latitude*Scale);
-    data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
-    data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
+    // NOTE fraction of step is important: otherwise the error grows with each sample.
+    data.xStep = bbox.width()/data.resolution*Scale;
+    data.yStep = bbox.height()/data.resolution*Scale;
 
     data_.emplace(quadKey, std::move(data));
   }
-- 
2.43.0


From 6a6e6f44ec03b555fcbf4b21d719e323154aa4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:06 +0000
Subject: [PATCH 047/111] fix: name of srtm file on southern and western
 hemispheres

---
 .../Data/Providers/Elevation/SrtmElevationDataProvider.cs  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index fe22b65..e5d928e 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -92,9 +92,12 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetFileNamePrefix(GeoCoordinate coordinate)
         {
+            // NOTE cell is named after its south west corner on both hemispheres.
+            var latitude = (int) Math.Floor(coordinate.Latitude);
+            var longitude = (int) Math.Floor(coordinate.Longitude);
             return String.Format("{0}{1:00}{2}{3:000}",
-                coordinate.Latitude > 0 ? 'N' : 'S', Math.Abs((int)coordinate.Latitude),
-                coordinate.Longitude > 0 ? 'E' : 'W', Math.Abs((int)coordinate.Longitude));
+                latitude >= 0 ? 'N' : 'S', Math.Abs(latitude),
+                longitude >= 0 ? 'E' : 'W', Math.Abs(longitude));
         }
     }
 }
-- 
2.43.0


From 2459645b8c51826413497426c7aee4a132b641b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 048/111] fix: point of polygon's hole should be inside of the
 hole and outside of contours in it

---
 core/src/builders/MeshBuilder.cpp |   2 +
 core/src/math/Polygon.hpp         | 152 +++++++++++++++++++-----------
 2 files changed, 97 insertions(+), 57 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..3e663d7 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -119,6 +119,8 @@ void MeshBuilder::addPolygon(Mesh &mesh,
                              const AppearanceOptions &appearanceOptions) const {
   triangulateio in, mid;
 
+  polygon.resolveHoles();
+
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
   in.numberofholes = static_cast<int>(polygon.holes.size()/2);
   in.numberofpointattributes = 0;
diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..ee45880 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -37,6 +37,26 @@ class Polygon final {
     addContour(hole, true);
   }
 
+  /// Finds points inside of holes.
+  /// NOTE should be called once all contours are added: the point is used to remove everything till the nearest
+  /// segments, so it should be outside of contours which are inside of the hole.
+  void resolveHoles() {
+    holes.clear();
+    if (inners.empty())
+      return;
+
+    std::vector<Range> contours(inners);
+    contours.insert(contours.end(), outers.begin(), outers.end());
+    for (std::size_t i = 0; i < inners.size(); ++i) {
+      Vector2 point;
+      if (findPointInside(i, contours, point)) {
+        holes.push_back(point.x);
+        holes.push_back(point.y);
+      }
+      // TODO log error
+    }
+  }
+
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
     auto count = contour.size();
@@ -46,18 +66,10 @@ class Polygon final {
     auto startIndex = points.size();
     auto endIndex = startIndex + count*2;
 
-    if (isHole) {
-      Vector2 pointInside;
-      if (!findPointInPolygon(contour, pointInside)) {
-        // TODO log error
-        return;
-      }
-      holes.push_back(pointInside.x);
-      holes.push_back(pointInside.y);
+    if (isHole)
       inners.push_back(std::make_pair(startIndex, endIndex));
-    } else {
+    else
       outers.push_back(std::make_pair(startIndex, endIndex));
-    }
 
     auto offset = segments.size()/2;
     for (std::size_t i = 0; i < count; ++i) {
@@ -70,67 +82,93 @@ class Polygon final {
     }
   }
 
-  /// Tries to find point in polygon.
-  static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point) {
-    Rectangle bounds;
-    bounds.expand(contour);
-
-    auto length = contour.size();
-    int limit = 8;
-
-    Vector2 a, b; // Current edge.
-    if (contour.size()==3) {
-      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
-                      (contour[0].y + contour[1].y + contour[2].y)/3);
-      return true;
+  struct Crossing {
+    double x;
+    std::size_t contour;
+  };
+
+  /// Tries to find point which is inside of the contour but outside of any other contour which is inside of it.
+  bool findPointInside(std::size_t contour, const std::vector<Range> &contours, Vector2 &point) const {
+    const double area = getArea(contours[contour]);
+    double maxWidth = 0;
+    for (double y : getScanLines(contours[contour])) {
+      const auto crossings = getCrossings(contours, y);
+      // contours which the current position of scan line is inside of
+      std::vector<bool> entered(contours.size(), false);
+      for (std::size_t i = 0; i + 1 < crossings.size(); ++i) {
+        entered[crossings[i].contour] = !entered[crossings[i].contour];
+
+        double width = crossings[i + 1].x - crossings[i].x;
+        if (!entered[contour] || width <= maxWidth)
+          continue;
+
+        bool isNested = false;
+        for (std::size_t j = 0; j < contours.size() && !isNested; ++j)
+          isNested = entered[j] && j!=contour && getArea(contours[j]) < area;
+
+        if (!isNested) {
+          maxWidth = width;
+          point = Vector2((crossings[i].x + crossings[i + 1].x)/2, y);
+        }
+      }
     }
 
-    for (std::size_t i = 0; i < length; i++) {
-      a = contour[i];
-      b = contour[(i + 1)%length];
-
-      double cx = (a.x + b.x)/2;
-      double cy = (a.y + b.y)/2;
+    return maxWidth > 0;
+  }
 
-      double dx = (b.y - a.y)/1.374;
-      double dy = (a.x - b.x)/1.374;
+  /// Gets area of contour.
+  double getArea(const Range &range) const {
+    double area = 0;
+    const double x = points[range.first];
+    const double y = points[range.first + 1];
+    for (std::size_t i = range.first + 2; i + 2 < range.second; i += 2)
+      area += (points[i] - x)*(points[i + 3] - y) - (points[i + 2] - x)*(points[i + 1] - y);
 
-      for (int j = 1; j <= limit; j++) {
-        // Search to the right of the segment.
-        point.x = cx + dx/j;
-        point.y = cy + dy/j;
+    return std::abs(area/2);
+  }
 
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
+  /// Gets few y-coordinates between vertices of contour.
+  std::vector<double> getScanLines(const Range &range) const {
+    const std::size_t limit = 8;
 
-        // Search on the other side of the segment.
-        point.x = cx - dx/j;
-        point.y = cy - dy/j;
+    std::vector<double> ys;
+    for (std::size_t i = range.first; i < range.second; i += 2)
+      ys.push_back(points[i + 1]);
+    std::sort(ys.begin(), ys.end());
 
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-      }
+    std::vector<std::pair<double, double>> lines;
+    for (std::size_t i = 1; i < ys.size(); ++i) {
+      double y = (ys[i - 1] + ys[i])/2;
+      if (ys[i - 1] < y && y < ys[i])
+        lines.push_back(std::make_pair(ys[i - 1] - ys[i], y));
     }
+    std::sort(lines.begin(), lines.end());
+
+    std::vector<double> result;
+    for (std::size_t i = 0; i < std::min(lines.size(), limit); ++i)
+      result.push_back(lines[i].second);
 
-    return false;
+    return result;
   }
 
-  /// Checks whether point in polygon using ray casting algorithm
-  static bool isPointInPolygon(const Vector2 &point, const std::vector<Vector2> &poly) {
-    bool inside = false;
-    double x = point.x;
-    double y = point.y;
-    auto count = poly.size();
-
-    for (std::size_t i = 0, j = count - 1; i < count; i++) {
-      if (((poly[i].y < y && poly[j].y >= y) || (poly[j].y < y && poly[i].y >= y))
-          && (poly[i].x <= x || poly[j].x <= x)) {
-        inside ^= (poly[i].x + (y - poly[i].y)/(poly[j].y - poly[i].y)*(poly[j].x - poly[i].x) < x);
+  /// Gets crossings of all contours by the line.
+  std::vector<Crossing> getCrossings(const std::vector<Range> &contours, double y) const {
+    std::vector<Crossing> crossings;
+    for (std::size_t i = 0; i < contours.size(); ++i) {
+      for (std::size_t j = contours[i].first; j < contours[i].second; j += 2) {
+        const auto next = j + 2==contours[i].second ? contours[i].first : j + 2;
+        if ((points[j + 1] < y)==(points[next + 1] < y))
+          continue;
+
+        double ratio = (y - points[j + 1])/(points[next + 1] - points[j + 1]);
+        crossings.push_back(Crossing { points[j] + ratio*(points[next] - points[j]), i });
       }
-      j = i;
     }
+    std::sort(crossings.begin(), crossings.end(), [](const Crossing &lhs, const Crossing &rhs) {
+      return lhs.x < rhs.x;
+    });
 
-    return inside;
+    return crossings;
   }
 };
 
-- 
2.43.0


From 0820849cefcb8d49bee07be58e4acf38172208c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 049/111] fix: back side of triangle should have own vertices

---
 core/src/builders/MeshBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 3e663d7..a0bec19 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -249,8 +249,7 @@ void MeshBuilder::addTriangle(Mesh &mesh,
   addVertex(mesh, v2, color, ++startIndex, uv2);
 
   if (geometryOptions.hasBackSide) {
-    // TODO check indices
-    addVertex(mesh, v2, color, startIndex, uv0);
+    addVertex(mesh, v2, color, ++startIndex, uv0);
     addVertex(mesh, v1, color, ++startIndex, uv1);
     addVertex(mesh, v0, color, ++startIndex, uv2);
   }
-- 
2.43.0


From fb31b436c7b1b88a9ba7ab40122dc4c257a1658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 050/111] fix: triangulation should not read behind the end of
 expansion

---
 core/lib/triangle/triangle.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index 66af41a..b915928 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -5000,19 +5000,19 @@ REAL *h;
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -5021,10 +5021,10 @@ REAL *h;
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        enow = ++eindex < elen ? e[eindex] : 0.0;
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        fnow = ++findex < flen ? f[findex] : 0.0;
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -5034,7 +5034,7 @@ REAL *h;
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -5042,7 +5042,7 @@ REAL *h;
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From 98b7dbf6390114ed41f3fa95477cdff04f2aa2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 051/111] fix: terrain builder should not change elements of
 the store

---
 core/src/builders/terrain/TerraBuilder.cpp | 33 ++++++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index f51bb00..fc194c2 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -42,6 +42,29 @@ struct MoreThanSortOrder {
   }
 };
 
+/// Creates copy of element which has tags specified.
+struct TaggedCopyVisitor : public ElementVisitor {
+  const std::vector<Tag> &tags;
+  std::shared_ptr<Element> element;
+
+  explicit TaggedCopyVisitor(const std::vector<Tag> &tags) : tags(tags) {}
+
+  void visitNode(const utymap::entities::Node &n) override { copy(n); }
+
+  void visitWay(const utymap::entities::Way &w) override { copy(w); }
+
+  void visitArea(const utymap::entities::Area &a) override { copy(a); }
+
+  void visitRelation(const utymap::entities::Relation &r) override { copy(r); }
+
+ private:
+  template<typename T>
+  void copy(const T &source) {
+    element = std::make_shared<T>(source);
+    element->tags = tags;
+  }
+};
+
 /// Visits relation and fills region.
 struct RelationVisitor : public ElementVisitor {
   const Relation &relation;
@@ -129,10 +152,14 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     auto region = std::make_shared<Region>();
     RelationVisitor visitor(*this, rel, *region);
 
-    for (const auto &element : rel.elements) {
+    for (auto element : rel.elements) {
       // if there are no tags, then this element is result of clipping
-      if (element->tags.empty())
-        element->tags = rel.tags;
+      // NOTE original element belongs to store, so it should not be changed.
+      if (element->tags.empty()) {
+        TaggedCopyVisitor copyVisitor(rel.tags);
+        element->accept(copyVisitor);
+        element = copyVisitor.element;
+      }
 
       if (context_.styleProvider.hasStyle(*element, context_.quadKey.levelOfDetail))
         element->accept(visitor);
-- 
2.43.0


From 4f29168dd8d3899c66dc55b23c4a2b93ee8d8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 052/111] fix: orientation of area should not make hole in
 other areas of terrain

---
 core/src/builders/terrain/TerraBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index fc194c2..b6d6039 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -141,6 +141,10 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
   void visitArea(const utymap::entities::Area &area) override {
     Style style = context_.styleProvider.forElement(area, context_.quadKey.levelOfDetail);
     auto region = createRegion(style, area.coordinates);
+    // NOTE areas with different orientation should not cut holes in each other.
+    if (!utymap::math::getOrientation(region->geometry[0]))
+      std::reverse(region->geometry[0].begin(), region->geometry[0].end());
+
     std::string type = region->isLayer()
                        ? style.getString(StyleConsts::TerrainLayerKey())
                        : "";
-- 
2.43.0


From 9536e4df14124e1c588fe363daff4df129506377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 053/111] fix: line should not be split next to its ends

---
 core/src/builders/terrain/LineGridSplitter.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/terrain/LineGridSplitter.hpp b/core/src/builders/terrain/LineGridSplitter.hpp
index 2cbf368..96de0c8 100644
--- a/core/src/builders/terrain/LineGridSplitter.hpp
+++ b/core/src/builders/terrain/LineGridSplitter.hpp
@@ -147,9 +147,12 @@ class LineGridSplitter final {
       Point candidate = points[i];
       if (result.size() > 0) {
         Point last = result[result.size() - 1];
-        if (std::abs(last.x - candidate.x) < std::numeric_limits<double>::epsilon() &&
-            std::abs(last.y - candidate.y) < std::numeric_limits<double>::epsilon())
+        // NOTE position on the grid is calculated with rounding errors.
+        if (std::abs(last.x - candidate.x) < 1E-9 && std::abs(last.y - candidate.y) < 1E-9) {
+          // NOTE end of the line is exact.
+          if (i==points.size() - 1) result[result.size() - 1] = candidate;
           continue;
+        }
       }
 
       result.push_back(candidate);
-- 
2.43.0


From 65ee52e7082e2dcf690f36c76e7f640df7ae3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 054/111] fix: height offset of terrain region should have own
 texture

---
 core/src/builders/terrain/TerraGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index e9dbe44..3d4bb8a 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -81,6 +81,9 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
 
     context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
   }
+
+  // NOTE surface of the region might be added to different mesh.
+  context_.meshBuilder.writeTextureMappingInfo(mesh_, regionContext.appearanceOptions);
 }
 
 std::vector<Vector2> TerraGenerator::restoreGeometry(const IntPath &geometry) const {
-- 
2.43.0


From 284a7cb86c5ace1c6e7ac067b85316ec38358171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 055/111] fix: height offset of terrain should be closed next
 to tile border

---
 core/src/builders/terrain/TerraGenerator.cpp | 10 ++++------
 core/src/builders/terrain/TerraGenerator.hpp |  7 +++++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index 3d4bb8a..081ce25 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -18,10 +18,8 @@ TerraGenerator::TerraGenerator(const BuilderContext &context,
     context_(context), style_(style),
     tileRect_(tileRect),
     mesh_(std::move(mesh)),
-    rect_(context.boundingBox.minPoint.longitude,
-          context.boundingBox.minPoint.latitude,
-          context.boundingBox.maxPoint.longitude,
-          context.boundingBox.maxPoint.latitude) {
+    // NOTE geometry is restored with the same precision.
+    rect_(tileRect[0].X/Scale, tileRect[0].Y/Scale, tileRect[2].X/Scale, tileRect[2].Y/Scale) {
   // find relative size which fits for all quadkeys on given LOD
   auto relativeQuadKey =
       utymap::utils::GeoUtils::GeoCoordinateToQuadKey(GeoCoordinate(0, 0), context.quadKey.levelOfDetail);
@@ -76,8 +74,8 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
     const auto &p1 = points[i];
     const auto &p2 = points[i==(points.size() - 1) ? 0 : i + 1];
 
-    // check whether two points are on cell rect
-    if (isOnBorder(p1) && isOnBorder(p2)) continue;
+    // check whether line is on cell rect
+    if (isOnBorder(p1, p2)) continue;
 
     context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
   }
diff --git a/core/src/builders/terrain/TerraGenerator.hpp b/core/src/builders/terrain/TerraGenerator.hpp
index 6f7e004..888797d 100644
--- a/core/src/builders/terrain/TerraGenerator.hpp
+++ b/core/src/builders/terrain/TerraGenerator.hpp
@@ -49,8 +49,11 @@ class TerraGenerator {
 
  private:
 
-  /// Checks whether given point is on tile border.
-  inline bool isOnBorder(const utymap::math::Vector2 &p) const { return rect_.isOnBorder(p); }
+  /// Checks whether given line is on tile border.
+  inline bool isOnBorder(const utymap::math::Vector2 &p1, const utymap::math::Vector2 &p2) const {
+    return (p1.x==p2.x && (p1.x==rect_.xMin || p1.x==rect_.xMax)) ||
+        (p1.y==p2.y && (p1.y==rect_.yMin || p1.y==rect_.yMax));
+  }
 
   /// Builds height contour shape.
   void buildHeightOffset(const std::vector<utymap::math::Vector2> &points, const RegionContext &regionContext);
-- 
2.43.0


From 2863dbc563c00152c1f241a587e69d5a30b2ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 056/111] fix: triangulation should not cover what is enclosed
 by contours which touch each other

---
 core/src/math/Polygon.hpp | 201 ++++++++++++++++++++++----------------
 1 file changed, 116 insertions(+), 85 deletions(-)

diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index ee45880..b59220b 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -37,24 +37,37 @@ class Polygon final {
     addContour(hole, true);
   }
 
-  /// Finds points inside of holes.
+  /// Finds points inside of everything what should be removed from triangulation.
   /// NOTE should be called once all contours are added: the point is used to remove everything till the nearest
-  /// segments, so it should be outside of contours which are inside of the hole.
+  /// segments, so it should be outside of contours which are inside of the hole. Besides, contours which touch
+  /// each other might enclose something which is not part of polygon.
   void resolveHoles() {
     holes.clear();
-    if (inners.empty())
-      return;
-
-    std::vector<Range> contours(inners);
-    contours.insert(contours.end(), outers.begin(), outers.end());
-    for (std::size_t i = 0; i < inners.size(); ++i) {
-      Vector2 point;
-      if (findPointInside(i, contours, point)) {
-        holes.push_back(point.x);
-        holes.push_back(point.y);
-      }
-      // TODO log error
+
+    std::vector<double> ys;
+    for (std::size_t i = 1; i < points.size(); i += 2)
+      ys.push_back(points[i]);
+    std::sort(ys.begin(), ys.end());
+    ys.erase(std::unique(ys.begin(), ys.end()), ys.end());
+
+    // split everything outside of polygon to gaps between edges using horizontal strips between vertices.
+    const auto edges = getEdges();
+    std::size_t nextEdge = 0;
+    std::vector<Crossing> active;
+    std::vector<Gap> below;
+    for (std::size_t i = 1; i < ys.size(); ++i) {
+      for (; nextEdge < edges.size() && edges[nextEdge].bottom.y <= ys[i - 1]; ++nextEdge)
+        active.push_back(Crossing(0, &edges[nextEdge]));
+      active.erase(std::remove_if(active.begin(), active.end(), [&](const Crossing &crossing) {
+        return crossing.second->top.y < ys[i];
+      }), active.end());
+
+      auto gaps = getGaps(active, (ys[i - 1] + ys[i])/2, ys[i] - ys[i - 1]);
+      connectGaps(below, gaps);
+      below = std::move(gaps);
     }
+    std::vector<Gap> nothing;
+    connectGaps(below, nothing);
   }
 
  private:
@@ -82,93 +95,111 @@ class Polygon final {
     }
   }
 
-  struct Crossing {
-    double x;
-    std::size_t contour;
-  };
+  struct Edge {
+    Vector2 bottom;
+    Vector2 top;
+    /// Shows how much deeper we are when edge is crossed from left to right.
+    int depth;
 
-  /// Tries to find point which is inside of the contour but outside of any other contour which is inside of it.
-  bool findPointInside(std::size_t contour, const std::vector<Range> &contours, Vector2 &point) const {
-    const double area = getArea(contours[contour]);
-    double maxWidth = 0;
-    for (double y : getScanLines(contours[contour])) {
-      const auto crossings = getCrossings(contours, y);
-      // contours which the current position of scan line is inside of
-      std::vector<bool> entered(contours.size(), false);
-      for (std::size_t i = 0; i + 1 < crossings.size(); ++i) {
-        entered[crossings[i].contour] = !entered[crossings[i].contour];
-
-        double width = crossings[i + 1].x - crossings[i].x;
-        if (!entered[contour] || width <= maxWidth)
-          continue;
-
-        bool isNested = false;
-        for (std::size_t j = 0; j < contours.size() && !isNested; ++j)
-          isNested = entered[j] && j!=contour && getArea(contours[j]) < area;
-
-        if (!isNested) {
-          maxWidth = width;
-          point = Vector2((crossings[i].x + crossings[i + 1].x)/2, y);
-        }
-      }
+    double getX(double y) const {
+      return bottom.x + (top.x - bottom.x)*((y - bottom.y)/(top.y - bottom.y));
     }
 
-    return maxWidth > 0;
-  }
+    double getDistance(const Vector2 &point) const {
+      return std::abs(point.x - getX(point.y))*(top.y - bottom.y)/Vector2::distance(top, bottom);
+    }
+  };
 
-  /// Gets area of contour.
-  double getArea(const Range &range) const {
-    double area = 0;
-    const double x = points[range.first];
-    const double y = points[range.first + 1];
-    for (std::size_t i = range.first + 2; i + 2 < range.second; i += 2)
-      area += (points[i] - x)*(points[i + 3] - y) - (points[i + 2] - x)*(points[i + 1] - y);
+  typedef std::pair<double, const Edge *> Crossing;
 
-    return std::abs(area/2);
-  }
+  /// Part of horizontal strip between two edges which is outside of polygon.
+  struct Gap {
+    const Edge *left;
+    const Edge *right;
+    /// Point inside and its distance to the bounds.
+    Vector2 point;
+    double size;
+  };
 
-  /// Gets few y-coordinates between vertices of contour.
-  std::vector<double> getScanLines(const Range &range) const {
-    const std::size_t limit = 8;
+  /// Gets edges sorted from bottom to top.
+  std::vector<Edge> getEdges() const {
+    std::vector<Edge> edges;
+    edges.reserve(points.size()/2);
+    addEdges(outers, 1, edges);
+    addEdges(inners, -1, edges);
+    std::sort(edges.begin(), edges.end(), [](const Edge &lhs, const Edge &rhs) {
+      return lhs.bottom.y < rhs.bottom.y;
+    });
+    return edges;
+  }
 
-    std::vector<double> ys;
-    for (std::size_t i = range.first; i < range.second; i += 2)
-      ys.push_back(points[i + 1]);
-    std::sort(ys.begin(), ys.end());
+  void addEdges(const std::vector<Range> &contours, int depth, std::vector<Edge> &edges) const {
+    for (const auto &range : contours) {
+      double area = 0;
+      for (std::size_t i = range.first; i < range.second; i += 2) {
+        const auto next = i + 2==range.second ? range.first : i + 2;
+        area += (points[i] - points[range.first])*(points[next + 1] - points[range.first + 1]) -
+            (points[next] - points[range.first])*(points[i + 1] - points[range.first + 1]);
+      }
 
-    std::vector<std::pair<double, double>> lines;
-    for (std::size_t i = 1; i < ys.size(); ++i) {
-      double y = (ys[i - 1] + ys[i])/2;
-      if (ys[i - 1] < y && y < ys[i])
-        lines.push_back(std::make_pair(ys[i - 1] - ys[i], y));
+      for (std::size_t i = range.first; i < range.second; i += 2) {
+        const auto next = i + 2==range.second ? range.first : i + 2;
+        Vector2 start(points[i], points[i + 1]), end(points[next], points[next + 1]);
+        // NOTE contour which goes counterclockwise has its inner space on the left side.
+        if (start.y > end.y)
+          edges.push_back(Edge { end, start, area > 0 ? depth : -depth });
+        else if (start.y < end.y)
+          edges.push_back(Edge { start, end, area > 0 ? -depth : depth });
+      }
     }
-    std::sort(lines.begin(), lines.end());
+  }
 
-    std::vector<double> result;
-    for (std::size_t i = 0; i < std::min(lines.size(), limit); ++i)
-      result.push_back(lines[i].second);
+  /// Gets gaps on horizontal line.
+  static std::vector<Gap> getGaps(std::vector<Crossing> &crossings, double y, double height) {
+    for (auto &crossing : crossings)
+      crossing.first = crossing.second->getX(y);
+    std::sort(crossings.begin(), crossings.end(), [](const Crossing &lhs, const Crossing &rhs) {
+      return lhs.first < rhs.first;
+    });
 
-    return result;
+    std::vector<Gap> gaps;
+    int depth = 0;
+    for (std::size_t i = 1; i < crossings.size(); ++i) {
+      const auto &left = crossings[i - 1], &right = crossings[i];
+      depth += left.second->depth;
+      // NOTE hole which is outside of any contour is not a hole.
+      if (depth!=0) continue;
+
+      Vector2 point((left.first + right.first)/2, y);
+      double size = std::min(left.second->getDistance(point), right.second->getDistance(point));
+      gaps.push_back(Gap { left.second, right.second, point, std::min(size, height/2) });
+    }
+    return gaps;
   }
 
-  /// Gets crossings of all contours by the line.
-  std::vector<Crossing> getCrossings(const std::vector<Range> &contours, double y) const {
-    std::vector<Crossing> crossings;
-    for (std::size_t i = 0; i < contours.size(); ++i) {
-      for (std::size_t j = contours[i].first; j < contours[i].second; j += 2) {
-        const auto next = j + 2==contours[i].second ? contours[i].first : j + 2;
-        if ((points[j + 1] < y)==(points[next + 1] < y))
-          continue;
-
-        double ratio = (y - points[j + 1])/(points[next + 1] - points[j + 1]);
-        crossings.push_back(Crossing { points[j] + ratio*(points[next] - points[j]), i });
+  /// Connects gaps in strip with ones below and stores points of these which are not continued.
+  void connectGaps(const std::vector<Gap> &below, std::vector<Gap> &gaps) {
+    auto start = gaps.begin();
+    for (const auto &lower : below) {
+      auto upper = std::find_if(start, gaps.end(), [&](const Gap &gap) {
+        return isContinued(lower.left, gap.left) && isContinued(lower.right, gap.right);
+      });
+      if (upper!=gaps.end()) {
+        if (lower.size > upper->size) {
+          upper->size = lower.size;
+          upper->point = lower.point;
+        }
+        start = upper + 1;
+      } else if (lower.size > 1E-10) {
+        // NOTE smaller ones appear due to rounding errors.
+        holes.push_back(lower.point.x);
+        holes.push_back(lower.point.y);
       }
     }
-    std::sort(crossings.begin(), crossings.end(), [](const Crossing &lhs, const Crossing &rhs) {
-      return lhs.x < rhs.x;
-    });
+  }
 
-    return crossings;
+  static bool isContinued(const Edge *lower, const Edge *upper) {
+    return lower==upper || (lower->top.x==upper->bottom.x && lower->top.y==upper->bottom.y);
   }
 };
 
-- 
2.43.0


From 67eaa31b8713d61b0cd1f5fe4ff0f67261674e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 057/111] fix: contours of terrain which touch each other
 should have common vertices

---
 .../src/builders/terrain/LineGridSplitter.hpp | 17 ++++++--
 core/src/builders/terrain/TerraGenerator.cpp  | 43 +++++++++++++++++++
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/terrain/LineGridSplitter.hpp b/core/src/builders/terrain/LineGridSplitter.hpp
index 96de0c8..9cec108 100644
--- a/core/src/builders/terrain/LineGridSplitter.hpp
+++ b/core/src/builders/terrain/LineGridSplitter.hpp
@@ -46,8 +46,13 @@ class LineGridSplitter final {
   void split(const utymap::math::IntPoint &start,
              const utymap::math::IntPoint &end,
              Points &result) const {
-    Point s(start.X/scale_, start.Y/scale_);
-    Point e(end.X/scale_, end.Y/scale_);
+    // NOTE the same segments should be got in both directions.
+    bool isReversed = end.X < start.X || (end.X==start.X && end.Y < start.Y);
+    const auto &from = isReversed ? end : start;
+    const auto &to = isReversed ? start : end;
+
+    Point s(from.X/scale_, from.Y/scale_);
+    Point e(to.X/scale_, to.Y/scale_);
 
     Points points;
     points.reserve(2);
@@ -61,7 +66,13 @@ class LineGridSplitter final {
 
     points.push_back(e);
 
-    mergeResults(points, result);
+    Points segments;
+    segments.reserve(points.size());
+    mergeResults(points, segments);
+    if (isReversed)
+      std::reverse(segments.begin(), segments.end());
+
+    mergeResults(segments, result);
   }
 
  private:
diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index 081ce25..d03db22 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -9,6 +9,48 @@ namespace {
 const double AreaTolerance = 1000;
 /// Coordinate scale.
 const double Scale = 1E7;
+
+/// Adds vertices of contours which lie on edges of contours to these edges: touching contours should not have edges
+/// which overlap only due to rounding.
+void connectContours(IntPaths &contours) {
+  std::vector<IntPoint> vertices;
+  for (const auto &contour : contours)
+    vertices.insert(vertices.end(), contour.begin(), contour.end());
+  std::sort(vertices.begin(), vertices.end(), [](const IntPoint &lhs, const IntPoint &rhs) {
+    return lhs.X < rhs.X || (lhs.X==rhs.X && lhs.Y < rhs.Y);
+  });
+  vertices.erase(std::unique(vertices.begin(), vertices.end()), vertices.end());
+
+  for (auto &contour : contours) {
+    IntPath result;
+    result.reserve(contour.size());
+    for (std::size_t i = 0; i < contour.size(); ++i) {
+      const auto &start = contour[i], &end = contour[i + 1==contour.size() ? 0 : i + 1];
+      result.push_back(start);
+
+      const double dx = static_cast<double>(end.X - start.X), dy = static_cast<double>(end.Y - start.Y);
+      const double length = std::sqrt(dx*dx + dy*dy);
+      const auto bounds = std::minmax(start.X, end.X);
+      const auto lower = std::lower_bound(vertices.begin(), vertices.end(), bounds.first - 2,
+        [](const IntPoint &vertex, utymap::math::cInt x) { return vertex.X < x; });
+      std::vector<std::pair<double, IntPoint>> inserted;
+      for (auto vertex = lower; vertex!=vertices.end() && vertex->X <= bounds.second + 2; ++vertex) {
+        const double x = static_cast<double>(vertex->X - start.X), y = static_cast<double>(vertex->Y - start.Y);
+        const double position = (x*dx + y*dy)/length;
+        // NOTE two units are enough for any result of rounding.
+        if (position > 2 && position < length - 2 && std::abs(x*dy - y*dx)/length < 2)
+          inserted.push_back(std::make_pair(position, *vertex));
+      }
+      std::sort(inserted.begin(), inserted.end(), [](const std::pair<double, IntPoint> &lhs,
+                                                     const std::pair<double, IntPoint> &rhs) {
+        return lhs.first < rhs.first;
+      });
+      for (const auto &item : inserted)
+        result.push_back(item.second);
+    }
+    contour = std::move(result);
+  }
+}
 }
 
 TerraGenerator::TerraGenerator(const BuilderContext &context,
@@ -35,6 +77,7 @@ void TerraGenerator::addGeometry(int level,
                                  const std::function<void(const IntPath &)> &geometryVisitor) {
   utymap::math::simplifyPolygons(geometry);
   utymap::math::cleanPolygons(geometry);
+  connectContours(geometry);
 
   bool hasHeightOffset = std::abs(regionContext.geometryOptions.heightOffset) > 0;
   // calculate approximate size of overall points
-- 
2.43.0


From 2a22b05899bad941071983200bdc3f4e607b4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 058/111] fix: rectangle should be expanded by negative
 coordinates

---
 core/src/math/Rectangle.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/math/Rectangle.hpp b/core/src/math/Rectangle.hpp
index 1550dd7..d72c456 100644
--- a/core/src/math/Rectangle.hpp
+++ b/core/src/math/Rectangle.hpp
@@ -5,6 +5,7 @@
 #include "math/Vector2.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace utymap {
@@ -19,8 +20,8 @@ struct Rectangle final {
   Rectangle()
       : Rectangle(std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::max(),
-                  std::numeric_limits<double>::min(),
-                  std::numeric_limits<double>::min()) {
+                  std::numeric_limits<double>::lowest(),
+                  std::numeric_limits<double>::lowest()) {
   }
 
   Rectangle(double xMin, double yMin, double xMax, double yMax) :
-- 
2.43.0


From 664be3624b78b9d7dab521142aab1e31cab72f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 059/111] fix: round roof should be built only for outlines of
 four points

---
 core/src/builders/buildings/roofs/RoundRoofBuilder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
index 22a1c3c..ab622f4 100644
--- a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
@@ -45,6 +45,12 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     if (!polygon.inners.empty())
       return false;
 
+    // NOTE: shape is built around four points (two coordinates each).
+    for (const auto &range : polygon.outers) {
+      if (range.second - range.first!=8)
+        return false;
+    }
+
     for (const auto range : polygon.outers) {
       // detect side with maximum length
       double maxSideLength = 0;
-- 
2.43.0


From ce4883b60d846874a651861060f076d632710462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 060/111] fix: mansard roof should match its top with all
 points of outline

---
 core/src/builders/buildings/roofs/MansardRoofBuilder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2babcd0..2132019 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -119,7 +119,7 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
                              const utymap::math::Polygon &polygon) const {
     utymap::math::Vector2 point(p.X/Scale, p.Y/Scale);
 
-    std::size_t index = 0, size = polygon.points.size()/2;
+    std::size_t index = 0, size = polygon.points.size();
     double minDistance = std::numeric_limits<double>::max();
 
     for (std::size_t i = 0; i < size; i += 2) {
-- 
2.43.0


From b30ecff64a6d4e00c401d5e899a725bf9f1bf0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 061/111] fix: mansard roof should be built only for one
 contour without holes

---
 core/src/builders/buildings/roofs/MansardRoofBuilder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2132019..b63b4e1 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -22,6 +22,11 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
   }
 
   void build(utymap::math::Polygon &polygon) override {
+    // NOTE: algorithm below supports only one contour, fallback to flat roof.
+    if (polygon.outers.size()!=1 || !polygon.inners.empty()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
     utymap::math::ClipperOffset offset;
     utymap::math::IntPath path;
     path.reserve(polygon.points.size()/2);
-- 
2.43.0


From 9c4f0be0fb1191f0cc93b2123a258b17c72ead03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 062/111] fix: skillion roof should be built only for one
 contour without holes

---
 core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
index 6187fed..190ec82 100644
--- a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
@@ -48,6 +48,9 @@ class SkillionRoofBuilder : public FlatRoofBuilder {
 
   /// Tries to build skillion roof. So far we support only one simple polygon.
   bool buildSkillion(utymap::math::Polygon &polygon) const {
+    if (polygon.outers.size()!=1 || !polygon.inners.empty())
+      return false;
+
     // get direction vector
     const auto grad = utymap::utils::deg2Rad(direction_);
     const auto direction = utymap::math::Vector2(std::sin(grad), std::cos(grad)).normalized();
-- 
2.43.0


From 7ec6344c9bbfccfa760910d9d89a224c9b55729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 063/111] fix: round roof should have its sides at the outline

---
 .../buildings/roofs/RoundRoofBuilder.hpp      | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
index ab622f4..a994b34 100644
--- a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
@@ -95,8 +95,8 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     utymap::math::Vector2 u0(0, 0);
 
     // prepare data involved into rotation logic.
-    const auto direction2d = (p3 - p0).normalized();
-    const utymap::math::Vector3 direction(-direction2d.z, 0, direction2d.x);
+    const auto frontDirection = getRotationAxis(p0, p3);
+    const auto backDirection = getRotationAxis(p1, p2);
     // these points are rotation centers for front/back sides.
     const auto frontCenter = (p0 + p3)/2;
     const auto backCenter = (p1 + p2)/2;
@@ -107,17 +107,18 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     const double frontRadius = utymap::math::Vector3::distance(p0, frontCenter);
     const double backRadius = utymap::math::Vector3::distance(p1, backCenter);
     // quaternions between which spherical interpolation should be done.
-    const auto q0 = utymap::math::Quaternion::fromAngleAxis(0, direction);
-    const auto q1 = utymap::math::Quaternion::fromAngleAxis(-pi, direction);
+    const auto q0 = utymap::math::Quaternion::identity();
+    const auto frontQ = utymap::math::Quaternion::fromAngleAxis(-pi, frontDirection);
+    const auto backQ = utymap::math::Quaternion::fromAngleAxis(-pi, backDirection);
 
     for (int j = 0; j < RadialSegmentCount; j++) {
-      auto q0t = q0.slerp(q0, q1, j/static_cast<double>(RadialSegmentCount));
-      auto q1t = q1.slerp(q0, q1, (j + 1)/static_cast<double>(RadialSegmentCount));
+      const double t0 = j/static_cast<double>(RadialSegmentCount);
+      const double t1 = (j + 1)/static_cast<double>(RadialSegmentCount);
 
-      const auto front1 = restore(q0t*frontRot, frontRadius, frontCenter);
-      const auto front2 = restore(q1t*frontRot, frontRadius, frontCenter);
-      const auto back1 = restore(q0t*backRot, backRadius, backCenter);
-      const auto back2 = restore(q1t*backRot, backRadius, backCenter);
+      const auto front1 = restore(q0.slerp(q0, frontQ, t0)*frontRot, frontRadius, frontCenter);
+      const auto front2 = restore(q0.slerp(q0, frontQ, t1)*frontRot, frontRadius, frontCenter);
+      const auto back1 = restore(q0.slerp(q0, backQ, t0)*backRot, backRadius, backCenter);
+      const auto back2 = restore(q0.slerp(q0, backQ, t1)*backRot, backRadius, backCenter);
 
       addTriangle(frontCenter, front2, front1, u0, u0, u0);
       addTriangle(backCenter, back1, back2, u0, u0, u0);
@@ -131,6 +132,13 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     return (current += 2) > max ? min : current;
   }
 
+  /// Gets axis around which side is rotated: horizontal and perpendicular to the side.
+  utymap::math::Vector3 getRotationAxis(const utymap::math::Vector3 &start,
+                                        const utymap::math::Vector3 &end) const {
+    const auto direction = (end - start).normalized();
+    return utymap::math::Vector3(-direction.z, 0, direction.x);
+  }
+
   utymap::math::Vector3 restore(const utymap::math::Vector3 &v,
                                 double radius,
                                 const utymap::math::Vector3 &center) const {
-- 
2.43.0


From 6f82b01664a60d3f4145ec46f549d1f78f2e56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 064/111] fix: orientation of small areas should not be lost in
 rounding errors

---
 core/src/utils/GeometryUtils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/utils/GeometryUtils.hpp b/core/src/utils/GeometryUtils.hpp
index 213a907..4cd4457 100644
--- a/core/src/utils/GeometryUtils.hpp
+++ b/core/src/utils/GeometryUtils.hpp
@@ -18,8 +18,10 @@ template<typename T>
 double getArea(const T &coordinates) {
   auto size = coordinates.size();
   double area = 0.0;
+  // NOTE use coordinates relative to the first one: otherwise area of small polygon is lost in rounding errors.
   for (std::size_t p = size - 1, q = 0; q < size; p = q++)
-    area += coordinates[p].longitude*coordinates[q].latitude - coordinates[q].longitude*coordinates[p].latitude;
+    area += (coordinates[p].longitude - coordinates[0].longitude)*(coordinates[q].latitude - coordinates[0].latitude)
+        - (coordinates[q].longitude - coordinates[0].longitude)*(coordinates[p].latitude - coordinates[0].latitude);
   return area;
 }
 
-- 
2.43.0


From c2c2f5a054a28ebecabc9249203363e327288043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 065/111] fix: mansard roof should match its top with the
 outline when angles are acute

---
 .../buildings/roofs/MansardRoofBuilder.hpp    | 53 +++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index b63b4e1..2625283 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -56,7 +56,12 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
       return FlatRoofBuilder::build(polygon);
     }
 
-    build(polygon, solution[0], findFirstIndex(solution[0][0], polygon));
+    auto index = findFirstIndex(solution[0], min/10, polygon);
+    if (index==polygon.points.size()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
+    build(polygon, solution[0], index);
   }
 
  private:
@@ -120,24 +125,42 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
     }
   }
 
-  std::size_t findFirstIndex(const utymap::math::IntPoint &p,
+  /// Finds index of the point in polygon which corresponds to the first point of its offset shape: any side of
+  /// the shape should be at given distance from the same side of polygon. Returns size of polygon points if the
+  /// shape does not have the same sides.
+  /// NOTE it is not always the nearest point as points of acute angles are moved far away.
+  std::size_t findFirstIndex(const utymap::math::IntPath &offsetShape,
+                             double offset,
                              const utymap::math::Polygon &polygon) const {
-    utymap::math::Vector2 point(p.X/Scale, p.Y/Scale);
-
-    std::size_t index = 0, size = polygon.points.size();
-    double minDistance = std::numeric_limits<double>::max();
-
-    for (std::size_t i = 0; i < size; i += 2) {
-      double distance = utymap::math::Vector2::distance(point,
-                                                        utymap::math::Vector2(polygon.points[i],
-                                                                              polygon.points[i + 1]));
-      if (distance < minDistance) {
-        minDistance = distance;
-        index = i;
+    const auto size = polygon.points.size();
+    // NOTE coordinates of shape are rounded.
+    const double tolerance = 3/Scale;
+
+    for (std::size_t index = 0; index < size; index += 2) {
+      bool isMatched = true;
+      for (std::size_t i = 0; i < size && isMatched; i += 2) {
+        const auto start = getPoint(polygon, index + i), end = getPoint(polygon, index + i + 2);
+        isMatched = std::abs(getDistance(start, end, offsetShape[i/2]) - offset) < tolerance &&
+            std::abs(getDistance(start, end, offsetShape[(i + 2)%size/2]) - offset) < tolerance;
       }
+      if (isMatched)
+        return index;
     }
 
-    return index;
+    return size;
+  }
+
+  static utymap::math::Vector2 getPoint(const utymap::math::Polygon &polygon, std::size_t index) {
+    index %= polygon.points.size();
+    return utymap::math::Vector2(polygon.points[index], polygon.points[index + 1]);
+  }
+
+  /// Gets distance from the point to the line.
+  double getDistance(const utymap::math::Vector2 &start,
+                     const utymap::math::Vector2 &end,
+                     const utymap::math::IntPoint &p) const {
+    const auto direction = (end - start).normalized();
+    return std::abs(direction.x*(p.Y/Scale - start.y) - direction.y*(p.X/Scale - start.x));
   }
 };
 
-- 
2.43.0


From 7b5efc775a9b7f4a8945b3ee1253284b5fa7c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 066/111] fix: mesh cache should not mix up builds of the same
 tile

---
 core/src/builders/MeshCache.cpp | 100 +++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..2fb3191 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -4,6 +4,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <unordered_map>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -30,7 +31,7 @@ class MeshCache::MeshCacheImpl {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    return isInProgress(filePath) || isCacheHit(filePath) ? context : wrap(context, filePath);
   }
 
   bool fetch(const BuilderContext &context) {
@@ -38,7 +39,7 @@ class MeshCache::MeshCacheImpl {
 
     {
       std::lock_guard<std::mutex> lock(lock_);
-      if (!isCacheHit(context.quadKey, filePath))
+      if (isInProgress(filePath) || !isCacheHit(filePath))
         return false;
     }
 
@@ -50,35 +51,73 @@ class MeshCache::MeshCacheImpl {
   void unwrap(const BuilderContext &context) {
     std::lock_guard<std::mutex> lock(lock_);
 
-    auto entry = cachingQuads_.find(context.quadKey);
+    // NOTE context which does not have writer is not wrapped: data is written by other one or cached already.
+    auto writer = context.meshCallback.target<MeshWriter>();
 
-    if (entry==cachingQuads_.end()) return;
+    if (writer==nullptr) return;
 
-    if (entry->second->good()) {
+    auto &file = *writer->file;
+    auto filePath = getFilePath(context);
+
+    if (file.good()) {
       if (context.cancelToken.isCancelled()) {
         // NOTE no guarantee that all data was processed and saved.
         // So it is better to delete the whole file
-        entry->second->close();
+        file.close();
         // TODO any smarter option?
-        if (!entry->second->fail())
-          std::remove(getFilePath(context).c_str());
+        if (!file.fail())
+          std::remove(filePath.c_str());
       } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
+        file.seekg(0, std::ios::beg);
+        file << static_cast<char>(1);
+        file.close();
       }
     }
 
-    cachingQuads_.erase(entry);
+    cachingFiles_.erase(filePath);
   }
 
  private:
 
-  /// Checks whether the data associated with given context is already cached on disk.
-  bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
-    // NOTE if quadkey is preset in collection, then caching is in progress.
-    // in this case, we let app to behaviour as there is no cache at all
-    if (cachingQuads_.find(quadKey) != cachingQuads_.end()) return false;
+  /// Writes mesh to file before it is passed further.
+  struct MeshWriter final {
+    std::shared_ptr<std::fstream> file;
+    MeshCallback callback;
+    const CancellationToken &token;
+
+    void operator()(const Mesh &mesh) const {
+      if (token.isCancelled()) return;
+      *file << MeshType;
+      MeshStream::write(*file, mesh);
+      callback(mesh);
+    }
+  };
+
+  /// Writes element to file before it is passed further.
+  struct ElementWriter final {
+    std::shared_ptr<std::fstream> file;
+    ElementCallback callback;
+    const CancellationToken &token;
+
+    void operator()(const Element &element) const {
+      if (token.isCancelled()) return;
+      *file << ElementType;
+      file->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
+      ElementStream::write(*file, element);
+      callback(element);
+    }
+  };
+
+  /// Checks whether caching is in progress.
+  /// NOTE in this case, we let app to behaviour as there is no cache at all. Context which is gone
+  /// without being unwrapped does not write anymore.
+  bool isInProgress(const std::string &filePath) const {
+    auto entry = cachingFiles_.find(filePath);
+    return entry!=cachingFiles_.end() && !entry->second.expired();
+  }
+
+  /// Checks whether the data is already cached on disk.
+  bool isCacheHit(const std::string &filePath) const {
     // NOTE if file is on disk, it should be processed.
     std::ifstream file(filePath, std::ios::in | std::ios::binary | std::ios::ate);
     file.seekg(0, std::ios::beg);
@@ -100,7 +139,7 @@ class MeshCache::MeshCacheImpl {
     // NOTE marker that processing in progress
     *file << static_cast<char>(0);
 
-    cachingQuads_.insert({context.quadKey, file});
+    cachingFiles_[filePath] = file;
 
     return BuilderContext(
         context.quadKey,
@@ -108,30 +147,11 @@ class MeshCache::MeshCacheImpl {
         context.stringTable,
         context.meshPool,
         context.eleProvider,
-        wrap(*file, context.meshCallback, context.cancelToken),
-        wrap(*file, context.elementCallback, context.cancelToken),
+        MeshWriter { file, context.meshCallback, context.cancelToken },
+        ElementWriter { file, context.elementCallback, context.cancelToken },
         context.cancelToken);
   }
 
-  static MeshCallback wrap(std::ostream &stream, const MeshCallback &callback, const CancellationToken &token) {
-    return [&](const Mesh &mesh) {
-      if (token.isCancelled()) return;
-      stream << MeshType;
-      MeshStream::write(stream, mesh);
-      callback(mesh);
-    };
-  }
-
-  static ElementCallback wrap(std::ostream &stream, const ElementCallback &callback, const CancellationToken &token) {
-    return [&](const Element &element) {
-      if (token.isCancelled()) return;
-      stream << ElementType;
-      stream.write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-      ElementStream::write(stream, element);
-      callback(element);
-    };
-  }
-
   static void readCache(std::string &filePath, const BuilderContext &context) {
     std::fstream file;
     file.open(filePath, std::ios::in | std::ios::binary | std::ios::app | std::ios::ate);
@@ -165,7 +185,7 @@ class MeshCache::MeshCacheImpl {
   const std::string dataPath_;
   const std::string extension_;
   std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  std::unordered_map<std::string, std::weak_ptr<std::fstream>> cachingFiles_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
-- 
2.43.0


From ed72203c0e241d2bec64d409e1bea909f5b0c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 067/111] fix: cache builder should not leak its context

---
 core/src/builders/CacheBuilder.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..6c3de3a 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -49,10 +49,8 @@ class CacheBuilder final : public ElementBuilder {
 
   void complete() override {
     builder_->complete();
-    if (cacheContext_) {
+    if (cacheContext_)
       meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
-    }
   }
 
  private:
-- 
2.43.0


From b2e6f2ed7c1504a90b9b1bd7320136334dbd0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 068/111] fix: style tag should depend on textures and lsystems

---
 core/src/mapcss/MapCssParser.cpp  | 4 +++-
 core/src/mapcss/StyleProvider.cpp | 7 ++++---
 core/src/mapcss/StyleSheet.hpp    | 2 ++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index af12296..1c5b83e 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -233,7 +233,9 @@ struct ExtraImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator> > {
     std::ifstream file(directory + fileName);
     if (!file.good())
       throw utymap::MapCssException(std::string("Cannot find:") + directory + fileName);
-    return std::string((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    std::string content((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    stylesheet.resources.append(fileName).append(":").append(content).append(";");
+    return content;
   }
 
   qi::rule<Iterator, CommentSkipper<Iterator>> start;
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 3b20b25..3cb44b4 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -109,8 +109,8 @@ void addTo(std::string &tag, const std::string &name, const IdentifierFilterMap
   }
 }
 
-/// Gets hash for given filter collection.
-std::string getHashTag(const FilterCollection &filterCollection) {
+/// Gets hash for given filter collection and resources.
+std::string getHashTag(const FilterCollection &filterCollection, const std::string &resources) {
   std::string tag;
   tag.reserve(64000);
 
@@ -120,6 +120,7 @@ std::string getHashTag(const FilterCollection &filterCollection) {
   addTo(tag, "relation", filterCollection.relations);
   addTo(tag, "canvas", filterCollection.canvases);
   addTo(tag, "element", filterCollection.elements);
+  tag.append(resources);
 
   return MD5(tag).hexdigest();
 }
@@ -290,7 +291,7 @@ class StyleProvider::StyleProviderImpl {
       lsystems.emplace(lsystem.first, utymap::utils::make_unique<const utymap::lsys::LSystem>(lsystem.second));
     }
 
-    hashTag_ = getHashTag(filters);
+    hashTag_ = getHashTag(filters, stylesheet.resources);
   }
 
   const std::string &getTag() const {
diff --git a/core/src/mapcss/StyleSheet.hpp b/core/src/mapcss/StyleSheet.hpp
index fbb25da..640143d 100644
--- a/core/src/mapcss/StyleSheet.hpp
+++ b/core/src/mapcss/StyleSheet.hpp
@@ -128,6 +128,8 @@ struct StyleSheet final {
   std::vector<Rule> rules;
   std::vector<TextureAtlas> textures;
   std::unordered_map<std::string, utymap::lsys::LSystem> lsystems;
+  /// Names and content of files from which textures and lsystems are loaded.
+  std::string resources;
 };
 
 }
-- 
2.43.0


From da493afe2fe14fd61fc84654f88da3d2bc0393e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 069/111] fix: empty cache file should not be taken as complete

---
 core/src/builders/MeshCache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 2fb3191..ad9e2ad 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -177,9 +177,9 @@ class MeshCache::MeshCacheImpl {
   static bool isGood(std::istream& stream) {
     if (!stream.good()) return false;
 
-    char status;
-    stream >> status;
-    return status == 1;
+    // NOTE file can be empty if application was terminated before marker is written.
+    char status = 0;
+    return (stream >> status) && status == 1;
   }
 
   const std::string dataPath_;
-- 
2.43.0


From 079f96d4271d3f4fe91f88bd53b3138dbbf63ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 070/111] fix: turtle should pitch around its right and roll
 around its direction

---
 core/src/lsys/Turtle3d.cpp | 34 +++++++++++++++++++---------------
 core/src/lsys/Turtle3d.hpp |  8 ++++++--
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 34ea2d9..fa00e9e 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -13,37 +13,31 @@ void Turtle3d::jumpForward() {
 }
 
 void Turtle3d::turnLeft() {
-  auto rotation = createRotation(-angle_);
-  state_.direction = rotation*state_.direction;
-  state_.right = rotation*state_.right;
+  turn(-angle_);
 }
 
 void Turtle3d::turnRight() {
-  auto rotation = createRotation(angle_);
-  state_.direction = rotation*state_.direction;
-  state_.right = rotation*state_.right;
+  turn(angle_);
 }
 
 void Turtle3d::turnAround() {
-  auto rotation = createRotation(utymap::utils::deg2Rad(180));
-  state_.direction = rotation*state_.direction;
-  state_.right = rotation*state_.right;
+  turn(utymap::utils::deg2Rad(180));
 }
 
 void Turtle3d::pitchUp() {
-  state_.direction = createRotation(angle_)*state_.direction;
+  pitch(angle_);
 }
 
 void Turtle3d::pitchDown() {
-  state_.direction = createRotation(-angle_)*state_.direction;
+  pitch(-angle_);
 }
 
 void Turtle3d::rollLeft() {
-  state_.right = createRotation(-angle_)*state_.right;
+  roll(-angle_);
 }
 
 void Turtle3d::rollRight() {
-  state_.right = createRotation(angle_)*state_.right;
+  roll(angle_);
 }
 
 void Turtle3d::increment() {
@@ -82,6 +76,16 @@ void Turtle3d::run(const LSystem &lsystem) {
   Turtle::run(lsystem);
 }
 
-utymap::math::Quaternion Turtle3d::createRotation(double angle) const {
-  return Quaternion::fromAngleAxis(angle, Vector3::cross(state_.direction, state_.right));
+void Turtle3d::turn(double angle) {
+  auto rotation = Quaternion::fromAngleAxis(angle, Vector3::cross(state_.direction, state_.right));
+  state_.direction = rotation*state_.direction;
+  state_.right = rotation*state_.right;
+}
+
+void Turtle3d::pitch(double angle) {
+  state_.direction = Quaternion::fromAngleAxis(angle, state_.right)*state_.direction;
+}
+
+void Turtle3d::roll(double angle) {
+  state_.right = Quaternion::fromAngleAxis(angle, state_.direction)*state_.right;
 }
diff --git a/core/src/lsys/Turtle3d.hpp b/core/src/lsys/Turtle3d.hpp
index 7ec606d..5501920 100644
--- a/core/src/lsys/Turtle3d.hpp
+++ b/core/src/lsys/Turtle3d.hpp
@@ -66,8 +66,12 @@ class Turtle3d : public utymap::lsys::Turtle {
   State state_;
 
  private:
-  /// Creates rotation quaternion from current state.
-  utymap::math::Quaternion createRotation(double angle) const;
+  /// Rotates turtle in plane which it lies on.
+  void turn(double angle);
+  /// Rotates turtle around its right.
+  void pitch(double angle);
+  /// Rotates turtle around its direction.
+  void roll(double angle);
 
   /// Angle defined by lsystem.
   double angle_ = 0;
-- 
2.43.0


From 86bfd6914da8c89631bb0e2f789cde0304a3ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 071/111] fix: turtle should not restore state which is not
 saved

---
 core/src/lsys/Turtle3d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index fa00e9e..1f679c9 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -2,6 +2,8 @@
 #include "lsys/LSystem.hpp"
 #include "utils/MathUtils.hpp"
 
+#include <stdexcept>
+
 using namespace utymap::lsys;
 using namespace utymap::math;
 
@@ -65,6 +67,9 @@ void Turtle3d::save() {
 }
 
 void Turtle3d::restore() {
+  if (states_.empty())
+    throw std::domain_error("Cannot restore turtle state which is not saved.");
+
   state_ = states_.top();
   states_.pop();
 }
-- 
2.43.0


From ce5673827c76e25cf3879d84ff5ccff6ffef021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 072/111] fix: lsystem should restore style with turtle state

---
 core/src/builders/generators/LSystemGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/generators/LSystemGenerator.cpp b/core/src/builders/generators/LSystemGenerator.cpp
index 68c4ce0..ab29d5b 100644
--- a/core/src/builders/generators/LSystemGenerator.cpp
+++ b/core/src/builders/generators/LSystemGenerator.cpp
@@ -94,6 +94,11 @@ class DickTurtle : public Turtle3d {
     updateStyles();
   }
 
+  void restore() override {
+    Turtle3d::restore();
+    updateStyles();
+  }
+
  private:
   void addSphere() {
     icoSphereGenerator_
-- 
2.43.0


From 1f220d76be8c2c50c9244329fac95cacedc9fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 073/111] fix: lsystem parser should not drop productions
 silently

---
 core/src/lsys/LSystemParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/lsys/LSystemParser.cpp b/core/src/lsys/LSystemParser.cpp
index fe37c0e..ecf1275 100644
--- a/core/src/lsys/LSystemParser.cpp
+++ b/core/src/lsys/LSystemParser.cpp
@@ -87,7 +87,7 @@ template<typename Iterator>
 struct CommentSkipper : qi::grammar<Iterator> {
   CommentSkipper() : CommentSkipper::base_type(start, "comment") {
     start =
-        ' ' | '#' >> *(qi::char_ - '\n') >> '\n';
+        ' ' | '#' >> *(qi::char_ - '\n');
     start.name("comment");
   }
   qi::rule<Iterator> start;
@@ -120,7 +120,7 @@ struct ProductionGrammar : qi::grammar<Iterator, ProductionMap(), CommentSkipper
 
     start =
       (rule > probability > "->" >
-      +rule)[inserter(qi::_val, qi::_1, qi::_2, qi::_3)]%'\n';
+      +rule)[inserter(qi::_val, qi::_1, qi::_2, qi::_3)]%(+qi::lit('\n'));
   }
 
   boost::phoenix::function<ProductionInserter> inserter;
@@ -133,11 +133,11 @@ template<typename Iterator>
 struct LSystemGrammar : qi::grammar<Iterator, LSystem(), CommentSkipper<Iterator>> {
   LSystemGrammar() : LSystemGrammar::base_type(start, "lsystem") {
     start =
-      "generations:" > qi::int_ >> +ascii::space >
+      qi::omit[*ascii::space] >> "generations:" > qi::int_ >> +ascii::space >
         "angle:" > qi::double_ >> +ascii::space >
         "scale:" > qi::double_ >> +ascii::space >
-        "axiom:" > +rule > '\n' >
-        production;
+        "axiom:" > +rule > +qi::lit('\n') >
+        production > qi::omit[*ascii::space] > qi::eoi;
 
     start.name("lsystem");
     rule.name("rule");
-- 
2.43.0


From a4bf214df944f88522d8c56a4155ebf46f6c2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 074/111] fix: pieces of clipped element should be built once

The same element can be in more than one store: its clipped pieces were
built for each of them, as other elements are not.
---
 core/src/builders/QuadKeyBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index d41a915..ae89b84 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -37,7 +37,7 @@ class BuilderElementVisitor : public ElementVisitor {
   void visitRelation(const Relation &relation) override {
     if (relation.tags.empty()) {
       // processing clipped element
-      ids_.insert(relation.id);
+      if (relation.id!=0 && !ids_.insert(relation.id).second) return;
       for (const auto &element : relation.elements)
         visitElement(*element);
     } else
-- 
2.43.0


From 9399905d1cd15e6bfc57e9ad498eaee34d2d2aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 075/111] fix: elevation should be added to replicated pillars
 once

The pillar which is copied along the way was built on the ground
already, so that its copies stood at twice the elevation.
---
 core/src/builders/misc/BarrierBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 081898b..41c1cbe 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -97,10 +97,12 @@ void BarrierBuilder::buildPillar(const T &element, Iterator begin, Iterator end,
   auto height = meshContext.style.getValue(StyleConsts::HeightKey());
 
   Mesh mesh(utymap::utils::getMeshName(MeshNamePrefix, element));
+  // NOTE elevation is added later to each copy if pillar has to be replicated
+  auto elevation = size==1 ? context_.eleProvider.getElevation(context_.quadKey, *begin) : 0;
   CylinderGenerator generator(context_, meshContext);
   generator
       .setCenter(Vector3(begin->longitude,
-                         context_.eleProvider.getElevation(context_.quadKey, *begin),
+                         elevation,
                          begin->latitude))
       .setSize(Vector3(radius.x, height, radius.z))
       .setMaxSegmentHeight(5)
-- 
2.43.0


From cfb78b241773ab70a7fb217e52a4a4f341199d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 076/111] fix: barrier of area should be closed

The last side of the outline, back to its begin, was missing.
---
 core/src/builders/misc/BarrierBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 41c1cbe..aa928eb 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -30,7 +30,12 @@ void BarrierBuilder::visitWay(const Way &way) {
 }
 
 void BarrierBuilder::visitArea(const Area &area) {
-  build(area, area.coordinates.begin(), area.coordinates.end());
+  // barrier goes around the whole area
+  auto geometry = area.coordinates;
+  if (!geometry.empty() && !(geometry.front()==geometry.back()))
+    geometry.push_back(geometry.front());
+  const auto &outline = geometry;
+  build(area, outline.begin(), outline.end());
 }
 
 void BarrierBuilder::visitRelation(const Relation &relation) {
-- 
2.43.0


From e6e881de060ee5368602250e841bc86cf6a1a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 077/111] fix: nothing should be delivered once loading of
 quadkey is cancelled

---
 core/src/builders/QuadKeyBuilder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index ae89b84..1070910 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -111,9 +111,14 @@ class QuadKeyBuilder::QuadKeyBuilderImpl {
              const BuilderContext::MeshCallback &meshCallback,
              const BuilderContext::ElementCallback &elementCallback,
              const utymap::CancellationToken &cancelToken) {
-    auto context = BuilderContext(quadKey, styleProvider, stringTable_,
-                                  meshPool_, eleProvider, meshCallback,
-                                  elementCallback, cancelToken);
+    // NOTE builders are not aware of cancellation: make sure that nothing is delivered once it happens.
+    auto context = BuilderContext(quadKey, styleProvider, stringTable_, meshPool_, eleProvider,
+                                  [&](const Mesh &mesh) {
+                                    if (!cancelToken.isCancelled()) meshCallback(mesh);
+                                  },
+                                  [&](const Element &element) {
+                                    if (!cancelToken.isCancelled()) elementCallback(element);
+                                  }, cancelToken);
     auto visitor = BuilderElementVisitor(context, builderFactory_);
     geoStore_.search(quadKey, styleProvider, visitor, cancelToken);
     visitor.complete();
-- 
2.43.0


From 8790f71429503980dccfe1a482935bcaa4bb6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 078/111] fix: text search should stop once it is cancelled

---
 core/src/index/InMemoryElementStore.cpp   | 2 +-
 core/src/index/PersistentElementStore.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..c03a9ec 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -90,7 +90,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
     stringIndex_.search(query, filter);
   }
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 751dfd7..5589851 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -141,7 +141,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
     BitmapIndex::search(query, filter);
   }
-- 
2.43.0


From eb87321e765955cbdc964fa0ccafb354aeb15642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 079/111] fix: exceptions should not cross exported functions

---
 core/shared/ExportLib.cpp                     | 75 +++++++++++++++----
 .../Core/Interop/MapDataLibrary.Common.cs     |  5 +-
 .../UtyMap.Unity/Data/MapDataLibrary.cs       |  4 +-
 3 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..e5556a6 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -10,6 +10,22 @@
 
 static Application *applicationPtr = nullptr;
 
+// NOTE used by functions which have no error callback in their signature.
+static OnError *defaultErrorCallback = nullptr;
+
+/// Executes given action on application. No exception may leave exported functions.
+template <typename Action>
+static void execute(const Action &action, OnError *errorCallback) {
+  try {
+    if (applicationPtr == nullptr)
+      throw std::logic_error("Is not connected.");
+    action(*applicationPtr);
+  } catch (std::exception &ex) {
+    if (errorCallback != nullptr)
+      errorCallback(ex.what());
+  }
+}
+
 // Specifies export functions.
 // NOTE: see documentation comments in actual method implementation.
 extern "C"
@@ -18,9 +34,12 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  applicationPtr = nullptr;
 }
 
+/// NOTE passed callback should stay valid: it is used to report errors of functions which have no error callback.
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
+  defaultErrorCallback = errorCallback;
   try {
     applicationPtr = new Application(indexPath);
   } catch (std::exception &ex) {
@@ -30,66 +49,94 @@ void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
 
 /************* Configuration API *****************/
 void EXPORT_API registerStylesheet(const char *path, OnNewDirectory *directoryCallback) {
-  applicationPtr->getConfiguration().registerStylesheet(path, directoryCallback);
+  execute([&](Application &application) {
+    application.getConfiguration().registerStylesheet(path, directoryCallback);
+  }, defaultErrorCallback);
 }
 
 void EXPORT_API registerInMemoryStore(const char *key) {
-  applicationPtr->getConfiguration().registerInMemoryStore(key);
+  execute([&](Application &application) {
+    application.getConfiguration().registerInMemoryStore(key);
+  }, defaultErrorCallback);
 }
 
 void EXPORT_API registerPersistentStore(const char *key, const char *dataPath, OnNewDirectory *directoryCallback) {
-  applicationPtr->getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
+  execute([&](Application &application) {
+    application.getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
+  }, defaultErrorCallback);
 }
 
 void EXPORT_API enableMeshCache(int enabled) {
-  applicationPtr->getConfiguration().enableMeshCache(enabled);
+  execute([&](Application &application) {
+    application.getConfiguration().enableMeshCache(enabled);
+  }, defaultErrorCallback);
 }
 
 /************* Storage API *****************/
 void EXPORT_API addDataInRange(const char *key, const char *styleFile, const char *path, int startLod, int endLod,
                                OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, startLod, endLod, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getStorage().addToStore(key, styleFile, path, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInBoundingBox(const char *key, const char *styleFile, const char *path,
                                      double minLat, double minLon, double maxLat,  double maxLon, int startLod, int endLod,
                                      OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, minLat, minLon, maxLat, maxLon, startLod, endLod, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getStorage().addToStore(key, styleFile, path, minLat, minLon, maxLat, maxLon, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInQuadKey(const char *key, const char *styleFile, const char *path,
                                  int tileX, int tileY, int levelOfDetail,
                                  OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, tileX, tileY, levelOfDetail, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getStorage().addToStore(key, styleFile, path, tileX, tileY, levelOfDetail, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInElement(const char *key, const char *styleFile, std::uint64_t id, const double *vertices, int vertexLength,
                                  const char **tags, int tagLength, int startLod, int endLod,
                                  OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, id, vertices, vertexLength, tags, tagLength, startLod, endLod, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getStorage().addToStore(key, styleFile, id, vertices, vertexLength, tags, tagLength, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 bool EXPORT_API hasData(int tileX, int tileY, int levelOfDetail) {
-  return applicationPtr->getStorage().hasData(tileX, tileY, levelOfDetail);
+  bool isPresent = false;
+  execute([&](Application &application) {
+    isPresent = application.getStorage().hasData(tileX, tileY, levelOfDetail);
+  }, defaultErrorCallback);
+  return isPresent;
 }
 
 /************* Search API *****************/
 void EXPORT_API getDataByText(int tag, const char *notTerms, const char *andTerms, const char *orTerms,
                               double minLatitude, double minLongitude, double maxLatitude, double maxLongitude, int startLod, int endLod,
                               OnElementLoaded *elementCallback, OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getSearch().getDataByText(tag, notTerms, andTerms, orTerms, minLatitude, minLongitude,maxLatitude, maxLongitude,
-    startLod, endLod, elementCallback, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getSearch().getDataByText(tag, notTerms, andTerms, orTerms, minLatitude, minLongitude,maxLatitude, maxLongitude,
+      startLod, endLod, elementCallback, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API getDataByQuadKey(int tag, const char *styleFile, int tileX, int tileY, int levelOfDetail, int eleDataType,
                                  OnMeshBuilt *meshCallback, OnElementLoaded *elementCallback, OnError *errorCallback,
                                  utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getSearch().getDataByQuadKey(tag, styleFile, tileX, tileY, levelOfDetail, 
-    eleDataType, meshCallback, elementCallback, errorCallback, cancellationToken);
+  execute([&](Application &application) {
+    application.getSearch().getDataByQuadKey(tag, styleFile, tileX, tileY, levelOfDetail, 
+      eleDataType, meshCallback, elementCallback, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 double EXPORT_API getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, int eleDataType, double latitude, double longitude) {
-  return applicationPtr->getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
+  double elevation = 0;
+  execute([&](Application &application) {
+    elevation = application.getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
+  }, defaultErrorCallback);
+  return elevation;
 }
 
 }
diff --git a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
index 5833a6e..50cc928 100644
--- a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
+++ b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
@@ -20,6 +20,9 @@ namespace Assets.Scripts.Core.Interop
     {
         private const string TraceCategory = "library";
 
+        // NOTE native code keeps it after connect returns, so it should not be collected.
+        private static readonly OnError DefaultErrorHandler = OnErrorHandler;
+
         private static readonly object __lockObj = new object();
         private volatile bool _isConfigured;
         private readonly MaterialProvider _materialProvider;
@@ -49,7 +52,7 @@ namespace Assets.Scripts.Core.Interop
 
                 if (_isConfigured) return;
 
-                connect(indexPath, OnErrorHandler);
+                connect(indexPath, DefaultErrorHandler);
 
                 // NOTE Enable mesh caching mechanism for speed up tile loading.
                 enableMeshCache(1);
diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..f3b52fa 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -100,6 +100,8 @@ namespace UtyMap.Unity.Data
     internal class MapDataLibrary : IMapDataLibrary
     {
         private const string TraceCategory = "library";
+        // NOTE native code keeps it after connect returns, so it should not be collected.
+        private static readonly OnError DefaultErrorHandler = OnErrorHandler;
         private readonly object __lockObj = new object();
         private readonly IPathResolver _pathResolver;
         private readonly ITrace _trace;
@@ -145,7 +147,7 @@ namespace UtyMap.Unity.Data
                 // create directory for downloaded raw map data.
                 CreateDirectory(Path.Combine(indexPath, "import"));
 
-                connect(indexPath, OnErrorHandler);
+                connect(indexPath, DefaultErrorHandler);
                 _isConfigured = true;
             }
         }
-- 
2.43.0


From 977d9ac190b5854cfd99afb4a7bfb7cfdc52797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 080/111] fix: unknown store should be reported

---
 core/src/index/GeoStore.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..564481b 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,7 +31,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     elementStore->store(element, range, styleProvider);
   }
 
@@ -40,7 +40,7 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, quadKey, styleProvider);
     });
@@ -54,7 +54,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, range, styleProvider);
     });
@@ -69,7 +69,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, bbox, range, styleProvider);
     });
@@ -147,6 +147,14 @@ class GeoStore::GeoStoreImpl final {
   }
 
  private:
+  /// Gets registered store by its key.
+  const std::unique_ptr<ElementStore> &getStore(const std::string &storeKey) const {
+    auto pair = storeMap_.find(storeKey);
+    if (pair == storeMap_.end())
+      throw std::invalid_argument("Unknown store: " + storeKey);
+    return pair->second;
+  }
+
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
-- 
2.43.0


From d8d23b75211434142b86f0d0b18ef603e92a0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 081/111] fix: element should be added the same way as it is
 imported

---
 core/shared/Storage.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..4c7f346 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -1,6 +1,10 @@
 #ifndef STORAGE_HPP_DEFINED
 #define STORAGE_HPP_DEFINED
 
+#include "utils/GeometryUtils.hpp"
+
+#include <algorithm>
+
 /// Wraps Storage API.
 class Storage {
 public:
@@ -77,6 +81,8 @@ public:
       auto valueId = getStringId(tags[i + 1]);
       elementTags.push_back(utymap::entities::Tag(keyId, valueId));
     }
+    // NOTE: tags should be sorted to speed up mapcss styling
+    std::sort(elementTags.begin(), elementTags.end());
 
     // Node
     if (vertexLength / 2 == 1) {
@@ -95,7 +101,12 @@ public:
     }
 
     // Way or Area
-    if (coordinates[0] == coordinates[coordinates.size() - 1]) {
+    if (coordinates.size() > 3 && coordinates[0] == coordinates[coordinates.size() - 1]) {
+      // NOTE area is stored the same way as imported one: without closing point and counter clockwise.
+      coordinates.pop_back();
+      if (utymap::utils::isClockwise(coordinates))
+        std::reverse(coordinates.begin(), coordinates.end());
+
       utymap::entities::Area area;
       area.id = id;
       area.coordinates = coordinates;
-- 
2.43.0


From 51e4671098d91de8883e3c2492a348f6a595a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 082/111] fix: malformed element should be reported

---
 core/shared/Storage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 4c7f346..ce74e24 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -74,6 +74,11 @@ public:
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
     utymap::LodRange lod(startLod, endLod);
+    if (vertexLength < 2 || vertexLength % 2 != 0)
+      throw std::invalid_argument("Element should have coordinates as pairs of latitude and longitude.");
+    if (tagLength < 0 || tagLength % 2 != 0)
+      throw std::invalid_argument("Element should have tags as pairs of key and value.");
+
     std::vector<utymap::entities::Tag> elementTags;
     elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
     for (std::size_t i = 0; i < tagLength; i += 2) {
-- 
2.43.0


From 8e2f9ad6f5d9c310fa5a29eebcd4622a457cb655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 083/111] fix: unknown roof and facade types should be reported

---
 core/src/builders/buildings/BuildingBuilder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..5aeea4f 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -121,6 +121,15 @@ std::unordered_map<std::string, FacadeBuilderFactory> FacadeBuilderFactoryMap =
         }
     };
 
+/// Gets factory for builder with given type which is defined by style.
+template<typename Factory>
+const Factory &getFactory(const std::unordered_map<std::string, Factory> &factories, const std::string &type) {
+  auto pair = factories.find(type);
+  if (pair==factories.end())
+    throw std::domain_error("Unknown roof or facade type: " + type);
+  return pair->second;
+}
+
 /// Creates points for polygon
 std::vector<Vector2> toPoints(const std::vector<GeoCoordinate> &coordinates) {
   std::vector<Vector2> points;
@@ -295,7 +304,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     double roofHeight = roofMeshContext.style.getValue(RoofHeightKey);
     auto direction = roofMeshContext.style.getString(RoofDirectionKey);
 
-    auto roofBuilder = RoofBuilderFactoryMap.find(roofType)->second(context_, roofMeshContext);
+    auto roofBuilder = getFactory(RoofBuilderFactoryMap, roofType)(context_, roofMeshContext);
     roofBuilder->setHeight(roofHeight);
     roofBuilder->setMinHeight(elevation + height);
     roofBuilder->setColorNoiseFreq(0);
@@ -335,7 +344,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
                                                         id_);
 
     auto facadeType = facadeMeshContext.style.getString(FacadeTypeKey);
-    auto facadeBuilder = FacadeBuilderFactoryMap.find(facadeType)->second(context_, facadeMeshContext);
+    auto facadeBuilder = getFactory(FacadeBuilderFactoryMap, facadeType)(context_, facadeMeshContext);
 
     facadeBuilder->setHeight(height);
     facadeBuilder->setMinHeight(elevation);
-- 
2.43.0


From eaa326f7c157f6eb31d268c0238e0ebc9e5ee871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 084/111] fix: string table which cannot be opened should be
 reported

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index d59a2f1..fa3e381 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -5,6 +5,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <stdexcept>
 #include <unordered_map>
 
 using std::ios;
@@ -25,6 +26,9 @@ class StringTable::StringTableImpl {
       map_(),
       offsets_(),
       cache_(1024) {
+    if (!indexFile_.is_open() || !dataFile_.is_open())
+      throw std::domain_error("Cannot open string table: " + indexPath);
+
     nextId_ = static_cast<std::uint32_t>(indexFile_.tellg()/(sizeof(std::uint32_t)*2));
     if (nextId_ > 0) {
       std::uint32_t count = nextId_;
-- 
2.43.0


From 1f9cf50d926ffe6f810ed8178bcad73f5eb8b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 085/111] fix: element which cannot be written to persistent
 store should be reported

---
 core/src/index/PersistentElementStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 5589851..f30ea85 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,6 +116,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    if (!quadKeyData->dataFile->is_open() || !quadKeyData->indexFile->is_open())
+      throw std::domain_error("Cannot open data files of tile: " + GeoUtils::quadKeyToString(quadKey));
+
     // NOTE previous search might leave position somewhere inside the files
     quadKeyData->dataFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->seekg(0, std::ios::end);
-- 
2.43.0


From 53be3859d78580a9bcff52dbe01e2688f2169d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 086/111] fix: missing import of stylesheet should be reported

---
 core/src/mapcss/MapCssParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 1c5b83e..d8aca59 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -180,6 +180,8 @@ struct ImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator>> {
  private:
   void readImport(const std::string &url) const {
     std::ifstream importFile(directory + url);
+    if (!importFile.good())
+      throw utymap::MapCssException(std::string("Cannot find:") + directory + url);
     std::string content((std::istreambuf_iterator<char>(importFile)), std::istreambuf_iterator<char>());
     // NOTE indirected recursion: caller must ensure that there is no recursive import.
     ::parse(directory, content.begin(), content.end(), stylesheet);
-- 
2.43.0


From eb82a01edd16407404ae85c94bbb72b26a21c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 087/111] fix: error of malformed osm xml should have message

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index 4b646ff..273cfee 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -357,8 +357,11 @@ void OsmXmlParser<Visitor>::parse(std::istream& istream, Visitor& visitor) {
   AttributeSkipper<boost::spirit::istream_iterator> skipper;
   int result;
 
-  if (!phrase_parse(begin, end, grammar, skipper, result))
-      throw std::domain_error(grammar.error.str());
+  if (!phrase_parse(begin, end, grammar, skipper, result)) {
+      // NOTE there is no details when the very beginning is not matched.
+      auto message = grammar.error.str();
+      throw std::domain_error(message.empty() ? "Not an osm xml." : message);
+  }
 }
 
 template class OsmXmlParser<OsmDataVisitor>;
-- 
2.43.0


From 2ac79a85cb388a185cc64f1af64b0bf084499192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 088/111] fix: missing data file should be reported

---
 core/src/index/GeoStore.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 564481b..0d7039f 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -91,6 +91,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Xml: {
         OsmXmlParser<OsmDataVisitor> parser;
         std::ifstream xmlFile(path);
+        ensureOpen(xmlFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(xmlFile, visitor);
         return visitor.complete();
@@ -99,6 +100,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Pbf: {
         OsmPbfParser<OsmDataVisitor> parser;
         std::ifstream pbfFile(path, std::ios::in | std::ios::binary);
+        ensureOpen(pbfFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(pbfFile, visitor);
         return visitor.complete();
@@ -107,6 +109,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Json: {
         OsmJsonParser<OsmDataVisitor> parser(stringTable_);
         std::ifstream jsonFile(path);
+        ensureOpen(jsonFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(jsonFile, visitor);
         return visitor.complete();
@@ -147,6 +150,12 @@ class GeoStore::GeoStoreImpl final {
   }
 
  private:
+  /// Ensures that data file can be read.
+  static void ensureOpen(const std::ifstream &file, const std::string &path) {
+    if (!file.is_open())
+      throw std::invalid_argument("Cannot open data file: " + path);
+  }
+
   /// Gets registered store by its key.
   const std::unique_ptr<ElementStore> &getStore(const std::string &storeKey) const {
     auto pair = storeMap_.find(storeKey);
-- 
2.43.0


From 8fe083e4cd771cce2d706ecd22a56b988af62950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 089/111] fix: BoundingBoxToQuadKeys returns exactly tiles of
 bounding box

---
 unity/library/UtyMap.Unity/Utils/GeoUtils.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
index 97bc854..b1d5153 100644
--- a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
+++ b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
@@ -151,11 +151,12 @@ namespace UtyMap.Unity.Utils
             var yBase = maxQuadKey.TileY + halfHeight;
 
             int x = 0, y = 0, dx = 0, dy = -1;
-            int t = Math.Max(width, height);
+            // NOTE side is odd as spiral goes around the base tile
+            int t = 2*Math.Max(halfWidth, halfHeight) + 1;
             int maxI = t*t;
             for (int i = 0; i < maxI; i++)
             {
-                if ((-halfWidth <= x) && (x <= halfWidth) && (-halfHeight <= y) && (y <= halfHeight))
+                if ((-halfWidth <= x) && (x < width - halfWidth) && (halfHeight - height < y) && (y <= halfHeight))
                     yield return new QuadKey(xBase + x, yBase - y, levelOfDetails);
 
                 if ((x == y) || ((x < 0) && (x == -y)) || ((x > 0) && (x == 1 - y)))
-- 
2.43.0


From 88cd4f593b582c9ee8171f291436d7a4db965050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 090/111] fix: use width for longitude and height for latitude
 in BoundingBox.Create

---
 unity/library/UtyMap.Unity/BoundingBox.cs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unity/library/UtyMap.Unity/BoundingBox.cs b/unity/library/UtyMap.Unity/BoundingBox.cs
index 8919d0c..416d9f7 100644
--- a/unity/library/UtyMap.Unity/BoundingBox.cs
+++ b/unity/library/UtyMap.Unity/BoundingBox.cs
@@ -105,13 +105,13 @@ namespace UtyMap.Unity
             // Radius of the parallel at given latitude
             var pradius = radius*Math.Cos(lat);
 
-            var dWidth = width/(2*radius);
-            var dHeight = height/(2*pradius);
+            var dWidth = width/(2*pradius);
+            var dHeight = height/(2*radius);
 
-            var latMin = lat - dWidth;
-            var latMax = lat + dWidth;
-            var lonMin = lon - dHeight;
-            var lonMax = lon + dHeight;
+            var latMin = lat - dHeight;
+            var latMax = lat + dHeight;
+            var lonMin = lon - dWidth;
+            var lonMax = lon + dWidth;
 
             return new BoundingBox(
                 new GeoCoordinate(MathUtils.Rad2Deg(latMin), MathUtils.Rad2Deg(lonMin)),
-- 
2.43.0


From d00712eb2bff8c7c7bb0f6b9cfc76c87427332bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 091/111] fix: range tree's Min and Max consider all items of
 the tree

---
 .../Infrastructure/Primitives/RangeTree.cs    | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 274119e..8e452d3 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -62,7 +62,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Max
         {
-            get { return _root.Max; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Max;
+            }
         }
 
         /// <summary>
@@ -70,7 +76,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Min
         {
-            get { return _root.Min; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Min;
+            }
         }
 
         /// <summary>
@@ -292,11 +304,15 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_rightNode != null)
-                    return _rightNode.Max;
-                if (_items != null)
-                    return _items.Max(i => i.To);
-                return default(TKey);
+                if (_items == null)
+                    return default(TKey);
+
+                // NOTE items of the node overlap its center: they can end after items of the right node
+                var max = _items[0].To;
+                foreach (var item in _items)
+                    if (_comparer.Compare(item.To, max) > 0)
+                        max = item.To;
+                return _rightNode != null && _comparer.Compare(_rightNode.Max, max) > 0 ? _rightNode.Max : max;
             }
         }
 
@@ -304,11 +320,12 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_leftNode != null)
-                    return _leftNode.Min;
-                if (_items != null)
-                    return _items.Min(i => i.From);
-                return default(TKey);
+                if (_items == null)
+                    return default(TKey);
+
+                // NOTE items of the node overlap its center: they can start before items of the left node
+                var min = _items[0].From;
+                return _leftNode != null && _comparer.Compare(_leftNode.Min, min) < 0 ? _leftNode.Min : min;
             }
         }
 
-- 
2.43.0


From fce9b830e5f460e0bbee1fdbb9e3fc74443d6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 092/111] fix: range tree's Min and Max consider all items of
 the tree

---
 .../Infrastructure/Primitives/RangeTree.cs             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 8e452d3..51fc62c 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -312,7 +312,10 @@ namespace UtyMap.Unity.Infrastructure.Primitives
                 foreach (var item in _items)
                     if (_comparer.Compare(item.To, max) > 0)
                         max = item.To;
-                return _rightNode != null && _comparer.Compare(_rightNode.Max, max) > 0 ? _rightNode.Max : max;
+                if (_rightNode == null)
+                    return max;
+                var rightMax = _rightNode.Max;
+                return _comparer.Compare(rightMax, max) > 0 ? rightMax : max;
             }
         }
 
@@ -325,7 +328,10 @@ namespace UtyMap.Unity.Infrastructure.Primitives
 
                 // NOTE items of the node overlap its center: they can start before items of the left node
                 var min = _items[0].From;
-                return _leftNode != null && _comparer.Compare(_leftNode.Min, min) < 0 ? _leftNode.Min : min;
+                if (_leftNode == null)
+                    return min;
+                var leftMin = _leftNode.Min;
+                return _comparer.Compare(leftMin, min) < 0 ? leftMin : min;
             }
         }
 
-- 
2.43.0


From 205fad652b8e584d7b7457085a9bc6d318230c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 093/111] fix: range tree refuses invalid ranges with any
 comparer

---
 .../library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 51fc62c..8f32c76 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -192,7 +192,7 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public void Add(TKey from, TKey to, TValue value)
         {
-            if (_comparer.Compare(from, to) == 1)
+            if (_comparer.Compare(from, to) > 0)
                 throw new ArgumentOutOfRangeException();
 
             _isInSync = false;
-- 
2.43.0


From d71774c5c2730b8351b6cab30355e4a45a57df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 094/111] fix: keep empty values and spaces of names when json
 is parsed

---
 .../Infrastructure/Formats/SimpleJSON.cs           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
index 7e98c7f..84e3adf 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
@@ -236,6 +236,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             var Token = new StringBuilder(32);
             string TokenName = "";
             bool QuoteMode = false;
+            bool IsQuoted = false;
             while (i < aJSON.Length)
             {
                 switch (aJSON[i])
@@ -249,7 +250,6 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         stack.Push(new JSONClass());
                         if (ctx != null)
                         {
-                            TokenName = TokenName.Trim();
                             if (ctx is JSONArray)
                                 ctx.Add(stack.Peek());
                             else if (TokenName != "")
@@ -257,6 +257,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         }
                         TokenName = "";
                         Token.Length = 0;
+                        IsQuoted = false;
                         ctx = stack.Peek();
                     break;
  
@@ -270,7 +271,6 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         stack.Push(new JSONArray());
                         if (ctx != null)
                         {
-                            TokenName = TokenName.Trim();
                             if (ctx is JSONArray)
                                 ctx.Add(stack.Peek());
                             else if (TokenName != "")
@@ -278,6 +278,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         }
                         TokenName = "";
                         Token.Length = 0;
+                        IsQuoted = false;
                         ctx = stack.Peek();
                     break;
  
@@ -292,9 +293,8 @@ namespace UtyMap.Unity.Infrastructure.Formats
                             throw new Exception("JSON Parse: Too many closing brackets");
  
                         stack.Pop();
-                        if (Token.Length != 0)
+                        if (Token.Length != 0 || IsQuoted)
                         {
-                            TokenName = TokenName.Trim();
                             if (ctx is JSONArray)
                                 ctx.Add(Token.ToString());
                             else if (TokenName != "")
@@ -302,6 +302,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         }
                         TokenName = "";
                         Token.Length = 0;
+                        IsQuoted = false;
                         if (stack.Count>0)
                             ctx = stack.Peek();
                     break;
@@ -314,10 +315,12 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         }
                         TokenName = Token.ToString();
                         Token.Length = 0;
+                        IsQuoted = false;
                     break;
  
                     case '"':
                         QuoteMode ^= true;
+                        IsQuoted = true;
                     break;
  
                     case ',':
@@ -326,7 +329,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
                             Token.Append(aJSON[i]);
                             break;
                         }
-                        if (Token.Length != 0)
+                        if (Token.Length != 0 || IsQuoted)
                         {
                             if (ctx is JSONArray)
                                 ctx.Add(Token.ToString());
@@ -335,6 +338,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
                         }
                         TokenName = "";
                         Token.Length = 0;
+                        IsQuoted = false;
                     break;
  
                     case '\r':
-- 
2.43.0


From c0b314c0c47d8bec6719e22586aef09682e86d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 095/111] fix: read numbers of json in any culture

---
 .../UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
index 84e3adf..17db319 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
@@ -108,7 +108,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             get
             {
                 int v = 0;
-                if (int.TryParse(Value,out v))
+                if (int.TryParse(Value, NumberStyles.Integer, CultureInfo.InvariantCulture, out v))
                     return v;
                 return 0;
             }
@@ -122,7 +122,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             get
             {
                 float v = 0.0f;
-                if (float.TryParse(Value,out v))
+                if (float.TryParse(Value, NumberStyles.Float, CultureInfo.InvariantCulture, out v))
                     return v;
                 return 0.0f;
             }
@@ -136,7 +136,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             get
             {
                 double v = 0.0;
-                if (double.TryParse(Value,out v))
+                if (double.TryParse(Value, NumberStyles.Float, CultureInfo.InvariantCulture, out v))
                     return v;
                 return 0.0;
             }
-- 
2.43.0


From b9512cb523574c88ed1968dccab97b99f28ad182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:00 +0000
Subject: [PATCH 096/111] fix: search by text respects cancellation token of
 query

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index f3b52fa..a86be01 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -272,7 +272,7 @@ namespace UtyMap.Unity.Data
         private IObservable<int> Get(MapQuery query, int tag, OnElementLoaded elementLoadedHandler, OnError errorHandler)
         {
             _trace.Debug(TraceCategory, "Search elements");
-            WithCancelToken(new CancellationToken(), (cancelTokenHandle) => getDataByText(
+            WithCancelToken(query.CancelToken, (cancelTokenHandle) => getDataByText(
                 tag, query.NotTerms, query.AndTerms, query.OrTerms,
                 query.BoundingBox.MinPoint.Latitude, query.BoundingBox.MinPoint.Longitude,
                 query.BoundingBox.MaxPoint.Latitude, query.BoundingBox.MaxPoint.Longitude,
-- 
2.43.0


From 2fa5e2520d384d6f9b1ef94f7a052318a227caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 097/111] fix: notify about loaded tile when its data was
 imported

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..f9e8600 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -63,13 +63,11 @@ namespace UtyMap.Unity.Data
                 {
                     // We have map data in store.
                     if (String.IsNullOrEmpty(value.Item2))
-                        _mapDataLibrary
-                            .Get(value.Item1, _dataObservers)
-                            .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1)));
+                        Load(value.Item1);
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => Load(value.Item1));
                 });
         }
 
@@ -173,5 +171,13 @@ namespace UtyMap.Unity.Data
         }
 
         #endregion
+
+        /// <summary> Loads tile's data from library and notifies that tile is loaded. </summary>
+        private void Load(Tile tile)
+        {
+            _mapDataLibrary
+                .Get(tile, _dataObservers)
+                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(tile)));
+        }
     }
 }
-- 
2.43.0


From b367f388c819e8e279c694f78ea79ec55446e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 098/111] fix: error of stylesheet should not break loading of
 other tiles

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index a86be01..7e9e511 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -186,12 +186,11 @@ namespace UtyMap.Unity.Data
         public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, Range<int> levelOfDetails, CancellationToken cancellationToken)
         {
             var dataPath = _pathResolver.Resolve(path);
-            var stylePath = RegisterStylesheet(stylesheet);
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInRange(
-                    storageKey, stylePath, dataPath, levelOfDetails.Minimum,
+                    storageKey, RegisterStylesheet(stylesheet), dataPath, levelOfDetails.Minimum,
                     levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -201,12 +200,11 @@ namespace UtyMap.Unity.Data
         public IObservable<int> AddTo(string storageKey, string path, Stylesheet stylesheet, QuadKey quadKey, CancellationToken cancellationToken)
         {
             var dataPath = _pathResolver.Resolve(path);
-            var stylePath = RegisterStylesheet(stylesheet);
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInQuadKey(
-                    storageKey, stylePath, dataPath, quadKey.TileX, quadKey.TileY,
+                    storageKey, RegisterStylesheet(stylesheet), dataPath, quadKey.TileX, quadKey.TileY,
                     quadKey.LevelOfDetail, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -231,12 +229,10 @@ namespace UtyMap.Unity.Data
                 tags[i * 2 + 1] = element.Tags[tagKeys[i]];
             }
 
-            var stylePath = RegisterStylesheet(stylesheet);
-
             lock (__lockObj)
             {
                 WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInElement(
-                    storageKey, stylePath, element.Id, coordinates, coordinates.Length, tags, tags.Length,
+                    storageKey, RegisterStylesheet(stylesheet), element.Id, coordinates, coordinates.Length, tags, tags.Length,
                     levelOfDetails.Minimum, levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
@@ -259,10 +255,9 @@ namespace UtyMap.Unity.Data
         private IObservable<int> Get(Tile tile, int tag, OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, OnError errorHandler)
         {
             _trace.Debug(TraceCategory, "Get tile {0}", tile.ToString());
-            var stylePath = RegisterStylesheet(tile.Stylesheet);
             var quadKey = tile.QuadKey;
             WithCancelToken(tile.CancelationToken, (cancelTokenHandle) => getDataByQuadKey(
-                tag, stylePath, quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail,
+                tag, RegisterStylesheet(tile.Stylesheet), quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail,
                 (int)tile.ElevationType, meshBuiltHandler, elementLoadedHandler, errorHandler,
                 cancelTokenHandle.AddrOfPinnedObject())
             );
-- 
2.43.0


From 14300831870d28979a7e418b75688b20c5af4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 099/111] fix: store data of srtm cell where engine looks for
 it

---
 .../Data/Providers/Elevation/SrtmElevationDataProvider.cs      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index e5d928e..df33f99 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -79,7 +79,8 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         protected override string GetFilePath(QuadKey quadKey)
         {
             var prefix = GetFileNamePrefix(GeoUtils.QuadKeyToBoundingBox(quadKey).Center());
-            return Path.Combine(_elePath, prefix);
+            // NOTE engine looks for data of cell in file with this extension.
+            return Path.Combine(_elePath, prefix + ".hgt");
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 0eacd56282a930979ff5482801ba034d4e469110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 100/111] fix: completion of request should not overtake
 downloaded data

---
 unity/library/UtyMap.Unity/Data/MapDataProvider.cs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index f2be3bf..5cc0324 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -122,9 +122,9 @@ namespace UtyMap.Unity.Data
         {
             var uri = GetUri(value.QuadKey);
             _trace.Info(TraceCategory, Strings.NoPresistentElementSourceFound, value.ToString(), uri);
+            // NOTE thread pool does not keep order of notifications: completion should not overtake the data.
             _networkService.GetAndGetBytes(uri)
-                .ObserveOn(Scheduler.ThreadPool)
-                .Subscribe(bytes =>
+                .Subscribe(bytes => Scheduler.ThreadPool.Schedule(() =>
                 {
                     _trace.Debug(TraceCategory, "saving bytes: {0}", bytes.Length.ToString());
                     var filePath = GetFilePath(value.QuadKey);
@@ -135,7 +135,7 @@ namespace UtyMap.Unity.Data
                                 WriteBytes(stream, bytes);
                     }
                     Notify(new Tuple<Tile, string>(value, filePath));
-                });
+                }));
         }
     }
 }
-- 
2.43.0


From ea9b9478aca7c4789bbd824a0e8d87a6812fef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 101/111] fix: escape polyline in request of elevation

---
 .../Data/Providers/Elevation/MapzenElevationDataProvider.cs     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
index 806ed72..347b0bc 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
@@ -63,7 +63,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         private string GetJsonPayload(QuadKey quadkey)
         {
             return String.Format("{{\"range\":false,\"encoded_polyline\":\"{0}\"}}",
-                EncodePolyline(CreatePolyline(quadkey)));
+                EncodePolyline(CreatePolyline(quadkey)).Replace("\\", "\\\\"));
         }
 
         private IEnumerable<GeoCoordinate> CreatePolyline(QuadKey quadkey)
-- 
2.43.0


From 7c6094a3b35ace1561b04505bbe41744b16301b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 102/111] fix: do not escape separators of geocoding request

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 6698658..8c8ab4a 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -77,8 +77,8 @@ namespace UtyMap.Unity.Geocoding
             sb.Append(_searchPath);
             if (area != null)
             {
-                sb.Append(Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
-                    "viewbox={0:f4},{1:f4},{2:f4},{3:f4}&",
+                sb.AppendFormat("viewbox={0}&", Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
+                    "{0:f4},{1:f4},{2:f4},{3:f4}",
                     area.MinPoint.Longitude,
                     area.MinPoint.Latitude,
                     area.MaxPoint.Longitude,
-- 
2.43.0


From ca81b7bcdbccc7818af8fdcc07cd106aca5ab049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 103/111] fix: read bounding box of geocoding result

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 8c8ab4a..029db4c 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -111,11 +111,11 @@ namespace UtyMap.Unity.Geocoding
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
         {
             BoundingBox bbox = null;
-            string[] bboxArray = resultNode["boundingbox"].Value.Split(',');
-            if (bboxArray.Length == 4)
+            var bboxArray = resultNode["boundingbox"].AsArray;
+            if (bboxArray != null && bboxArray.Count == 4)
             {
-                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0], bboxArray[2]),
-                    ParseGeoCoordinate(bboxArray[1], bboxArray[3]));
+                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0].Value, bboxArray[2].Value),
+                    ParseGeoCoordinate(bboxArray[1].Value, bboxArray[3].Value));
             }
 
             var id = long.Parse(resultNode["osm_id"].Value);
-- 
2.43.0


From cb9255fb689df1fbc47fe06f2b8db65a95a45410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 104/111] fix: geocoding does not depend on culture

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 029db4c..82395be 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -98,7 +98,7 @@ namespace UtyMap.Unity.Geocoding
         public void OnNext(Tuple<GeoCoordinate, float> value)
         {
             var coordinate = value.Item1;
-            var url = String.Format("{0}format=json&lat={1}&lon={2}",
+            var url = String.Format(CultureInfo.InvariantCulture, "{0}format=json&lat={1}&lon={2}",
                 _reverseSearchPath, coordinate.Latitude, coordinate.Longitude);
 
             _networkService
@@ -132,7 +132,8 @@ namespace UtyMap.Unity.Geocoding
         private static GeoCoordinate ParseGeoCoordinate(string latStr, string lonStr)
         {
             double latitude, longitude;
-            if (double.TryParse(latStr, out latitude) && double.TryParse(lonStr, out longitude))
+            if (double.TryParse(latStr, NumberStyles.Float, CultureInfo.InvariantCulture, out latitude) &&
+                double.TryParse(lonStr, NumberStyles.Float, CultureInfo.InvariantCulture, out longitude))
                 return new GeoCoordinate(latitude, longitude);
             return default(GeoCoordinate);
         }
-- 
2.43.0


From 0ac678cd214d19e50bf6c44a0936e167d8be4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 105/111] fix: ignore reverse geocoding answer without result

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 82395be..bedc69f 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -104,7 +104,10 @@ namespace UtyMap.Unity.Geocoding
             _networkService
                 .Get(url, _headers)
                 .Take(1)
-                .Select(r => ParseGeocoderResult(JSON.Parse(r)))
+                .Select(r => JSON.Parse(r))
+                // NOTE server reports error if there is nothing near the coordinate.
+                .Where(json => json["error"] == null)
+                .Select(json => ParseGeocoderResult(json))
                 .Subscribe(r => _observers.ForEach(o => o.OnNext(r)));
         }
 
-- 
2.43.0


From 696aafe5d893da6542c903e563fdc6bba7fef06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 106/111] fix: do not lose requests of tiles which are made at
 start

---
 unity/library/UtyMap.Unity/Data/MapDataProvider.cs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index 5cc0324..08ea46b 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -71,7 +71,6 @@ namespace UtyMap.Unity.Data
             _requestBuffer = new Subject<Tile>();
             _requestBuffer
                 .Buffer(_limitThreshold)
-                .SubscribeOn(Scheduler.ThreadPool)
                 .Subscribe(tiles => MakeTileRequest(queue, tiles));
         }
 
-- 
2.43.0


From 8884b0838a5c422c22285a7316b98be04a7df91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 107/111] fix: composite animation should notify when it is
 finished

---
 unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
index 3508654..5ab4453 100644
--- a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
@@ -26,6 +26,8 @@ namespace UtyMap.Unity.Animations
         {
             foreach (var animation in _animations)
                 animation.Stop();
+
+            base.OnStopped(e);
         }
 
         /// <inheritdoc />
-- 
2.43.0


From fc1c60008333317fd4d15f43765cd91d7e681dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 108/111] fix: animation should end in its final state

---
 unity/library/UtyMap.Unity/Animations/TransformAnimation.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
index e3ef70e..3ce98d5 100644
--- a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
@@ -50,6 +50,8 @@ namespace UtyMap.Unity.Animations
                     _time = 0;
                 else
                 {
+                    // NOTE frame is not called exactly at the end.
+                    UpdateTransform(_transform, _timeInterpolator.GetTime(1));
                     Stop();
                     return;
                 }
-- 
2.43.0


From ab392b64355b0a9ac9ce67ad42c17bd0d87dc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 109/111] fix: make persistent store safe for work of several
 threads

---
 core/src/index/PersistentElementStore.cpp | 61 +++++++++++++----------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index f30ea85..d750ba6 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -55,7 +55,7 @@ struct QuadKeyData {
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
+      // NOTE should be called with lock
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
       BitmapStream::read(bitmapFile, bitmapData_->data);
@@ -104,7 +104,7 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
+/// NOTE file handlers and search data are shared, so access to them is synchronized.
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,6 +115,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     const auto &quadKeyData = getQuadKeyData(quadKey);
     if (!quadKeyData->dataFile->is_open() || !quadKeyData->indexFile->is_open())
       throw std::domain_error("Cannot open data files of tile: " + GeoUtils::quadKeyToString(quadKey));
@@ -143,6 +144,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const BitmapIndex::Query &query,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
@@ -156,18 +158,12 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     if (!hasData(quadKey)) return;
 
     const auto &quadKeyData = getQuadKeyData(quadKey);
-    quadKeyData->indexFile->seekg(0, std::ios::end);
-    auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
-
-    quadKeyData->indexFile->seekg(0, std::ios::beg);
+    auto count = getElementCount(*quadKeyData);
     for (std::uint32_t i = 0; i < count; ++i) {
       if (cancelToken.isCancelled()) break;
 
-      auto entry = readIndexEntry(*quadKeyData);
-      quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
+      // NOTE visitor is called without lock: several tiles can be built at the same time
+      readElement(*quadKeyData, i)->accept(visitor);
     }
   }
 
@@ -177,12 +173,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void erase(const utymap::QuadKey &quadKey) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    {
-      std::lock_guard<std::mutex> lock(lock_);
-      quadKeyData->erase();
-      cache_.clear();
-    }
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+    getQuadKeyData(quadKey)->erase();
+    cache_.clear();
   }
 
   void erase(const utymap::BoundingBox &bbox, const utymap::LodRange &range) {
@@ -190,6 +183,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -197,14 +191,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void notify(const utymap::QuadKey& quadKey,
               const std::uint32_t order,
               ElementVisitor &visitor) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
-
-    quadKeyData->indexFile->seekg(offset, std::ios::beg);
-    auto entry = readIndexEntry(*quadKeyData);
-    quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-    ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry))->accept(visitor);
+    readElement(*getQuadKeyData(quadKey), order)->accept(visitor);
   }
 
   Bitmap& getBitmap(const utymap::QuadKey& quadKey) override {
@@ -214,7 +201,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  private:
   /// Gets quad key data.
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
-    std::lock_guard<std::mutex> lock(lock_);
+    std::lock_guard<std::recursive_mutex> lock(lock_);
 
     if (cache_.exists(quadKey))
       return cache_.get(quadKey);
@@ -234,6 +221,26 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     return ss.str();
   }
 
+  /// Gets amount of elements stored in tile.
+  std::uint32_t getElementCount(const QuadKeyData &quadKeyData) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+    quadKeyData.indexFile->seekg(0, std::ios::end);
+    return static_cast<std::uint32_t>(quadKeyData.indexFile->tellg() /
+        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
+  }
+
+  /// Reads element by its order in tile.
+  std::unique_ptr<Element> readElement(const QuadKeyData &quadKeyData, std::uint32_t order) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
+
+    quadKeyData.indexFile->seekg(offset, std::ios::beg);
+    auto entry = readIndexEntry(quadKeyData);
+    quadKeyData.dataFile->seekg(std::get<1>(entry), std::ios::beg);
+
+    return ElementStream::read(*quadKeyData.dataFile, std::get<0>(entry));
+  }
+
   /// Reads element info from index.
   std::tuple<std::uint64_t, std::uint32_t> readIndexEntry(const QuadKeyData &quadKeyData) {
     std::uint64_t id;
@@ -244,7 +251,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   const std::string dataPath_;
-  std::mutex lock_;
+  std::recursive_mutex lock_;
   utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator> cache_;
 };
 
-- 
2.43.0


From 98de566241956cf8ef84010e8d8abe7a43abce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 110/111] fix: make in-memory store safe for work of several
 threads

---
 core/src/index/InMemoryElementStore.cpp | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index c03a9ec..580ddca 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -7,6 +7,8 @@
 #include "index/InMemoryElementStore.hpp"
 #include "index/BitmapIndex.hpp"
 
+#include <mutex>
+
 using namespace utymap;
 using namespace utymap::index;
 using namespace utymap::entities;
@@ -89,6 +91,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   void search(const BitmapIndex::Query &query,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
@@ -98,22 +101,20 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
-
-    for (const auto &element : it->second) {
+    // NOTE visitor is called without lock: several tiles can be built at the same time
+    for (const auto &element : getElements(quadKey)) {
       if (cancelToken.isCancelled()) break;
       element->accept(visitor);
     }
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
@@ -122,6 +123,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
@@ -131,15 +133,15 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
  private:
-  ElementMap::const_iterator begin(const utymap::QuadKey &quadKey) const {
-    return elementsMap_.find(quadKey);
-  }
-
-  ElementMap::const_iterator end() const {
-    return elementsMap_.cend();
+  /// Gets elements of given quad key: none if there is no data.
+  Elements getElements(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+    auto it = elementsMap_.find(quadKey);
+    return it == elementsMap_.end() ? Elements() : it->second;
   }
 
   const StringTable &stringTable_;
+  mutable std::recursive_mutex lock_;
   ElementMap elementsMap_;
   InMemoryStringIndex stringIndex_;
 };
-- 
2.43.0


From 5fbc490899e2153b087b131b917a8e48713574fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 111/111] fix: do not read stylesheets by several threads
 without lock

---
 core/shared/Application.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..a4c38d9 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,9 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    // NOTE can be called from different threads.
+    std::lock_guard<std::mutex> lock(lock_);
+
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -71,6 +76,7 @@ class Application {
   }
 
   Context context_;
+  std::mutex lock_;
 
   utymap::heightmap::FlatElevationProvider flatEleProvider_;
   utymap::heightmap::SrtmElevationProvider srtmEleProvider_;
-- 
2.43.0

