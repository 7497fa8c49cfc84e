#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Tile addressing is an exact partition of the map at every zoom",
 "For every coordinate and zoom 1..19 the tile computed for the coordinate exists, its geographic extent contains the coordinate, neighbouring extents share borders without gaps, and the parent tile at the previous zoom contains it. "
 "Enumerating the tiles of a bounding box yields each tile that overlaps the box exactly once and no tile outside it, nothing for an inverted box. "
 "The textual key of a tile has one base-4 digit per zoom, identifies the tile uniquely and has the parent's key as its prefix.",
 ["inputs"], "all coordinates (including poles, date line, points on tile borders), all tiles of zoom 1..19, all bounding boxes",
 "The tests check a handful of coordinates around Berlin; borders, the southern and western hemispheres, clamping and boxes of several tiles are never sampled.",
 ["core/src/utils/GeoUtils.hpp", "core/src/QuadKey.hpp", "core/src/BoundingBox.hpp"],
 [("Mercator tile arithmetic", "GeoUtils::GeoCoordinateToQuadKey / quadKeyToBoundingBox"), ("tile range enumeration", "GeoUtils::visitTileRange"), ("textual key", "GeoUtils::quadKeyToString")],
 observe=["return values"])

prop("C02", "The string dictionary is a stable bijection that survives reopening",
 "The same text always gets the same number, different texts get different numbers, and a number gives back exactly the text it was issued for. "
 "This holds in any interleaving of lookups in both directions, across any number of reopenings of the dictionary from disk, for any set of texts however large and whatever hash collisions or cache evictions occur. "
 "Numbers are issued consecutively from zero, and asking again issues nothing.",
 ["histories", "inputs"], "all sequences of text-to-number and number-to-text lookups and reopenings, all texts without NUL",
 "The tests look up fewer than ten strings; cache eviction, colliding hashes and reopening after interleaved reads and writes are never reached.",
 ["core/src/index/StringTable.cpp", "core/src/utils/LruCache.hpp"],
 [("hash to id multimap with text comparison", "StringTableImpl::getId"), ("append only files", "StringTableImpl::writeString"), ("LRU cache", "LruCache")],
 state=[("string.idx / string.dat", "hash-offset pairs and NUL terminated texts", "StringTableImpl")], observe=["getId / getString", "files on disk"])

prop("C03", "Stored elements read back exactly as written",
 "Any node, way, area or relation (nested to any depth, with any number of tags, vertices and members up to the format's limit of 65535) which is written in the storage format is read back with the same kind, identifiers, tags in order, coordinates bit for bit and members in order. "
 "Reading consumes exactly the bytes which were written, so elements can follow each other in one stream.",
 ["inputs"], "all elements within the format's limits",
 "The tests write one small element of each kind; nesting, limits, special coordinates and concatenation are not sampled.",
 ["core/src/index/ElementStream.cpp", "core/src/entities"],
 [("writer / reader pair", "ElementStream::write / ElementStream::read")], observe=["ElementStream::read result", "stream position"])

prop("C04", "A store returns for each tile exactly what was stored, across any history",
 "After any sequence of additions, searches, erasures, flushes, cancellations and reopenings of an on-disk store, a search of a tile returns exactly the elements placed there and not erased since, in the order of their addition, with identifiers, tags and geometry intact; the same holds for the in-memory store. "
 "Whether data is present for a tile is reported accordingly, erasing one tile leaves all others intact, and operations on one tile or one store never disturb another.",
 ["histories"], "all sequences of store operations over several tiles, zooms and stores",
 "The tests perform one or two fixed operations per store; sequences such as search then store, erase then reopen, or a cancelled search then store are not reached.",
 ["core/src/index/PersistentElementStore.cpp", "core/src/index/InMemoryElementStore.cpp", "core/src/index/ElementStore.cpp", "core/src/index/BitmapStream.cpp", "core/src/index/GeoStore.cpp"],
 [("index and data file per tile", "PersistentElementStore"), ("handle cache", "PersistentElementStoreImpl / LruCache"), ("map of elements", "InMemoryElementStore")],
 state=[("idf / dat / bmp files", "id-offset pairs, elements and text index per tile", "PersistentElementStore")], observe=["search results", "hasData"])

prop("C05", "Text search finds exactly the elements whose tags satisfy the query",
 "A text query with required, alternative and excluded terms over a bounding box and zoom range returns exactly the stored elements which lie in tiles of that range, overlap the box and whose tag words contain all required terms, at least one alternative term (if any is given) and no excluded term; a query names at least one required or alternative term. "
 "The result is the same for the in-memory store, the on-disk store and the on-disk store after reopening.",
 ["inputs", "histories"], "all sets of tagged elements and all queries",
 "The tests run a few queries on a few elements with single matching terms; combinations of the three lists, shared words, several tiles and reopening are not sampled.",
 ["core/src/index/BitmapIndex.cpp", "core/src/index/BitmapStream.cpp", "core/src/index/InMemoryElementStore.cpp", "core/src/index/PersistentElementStore.cpp"],
 [("compressed bitmap per word", "BitmapIndex"), ("bitmap file", "BitmapStream")], observe=["search results"])

prop("C06", "Import places each element in exactly the tiles and zooms its style admits",
 "An element with a matching style is stored once per tile, at each zoom of the requested range for which the style applies: whole in every tile its bounding box overlaps, or, when the style says to clip it, its part in every tile its geometry reaches; and in no other tile. "
 "An element without an applicable style at a zoom, or whose style says to skip it, is not stored at that zoom, and the store reports whether anything was admitted. "
 "When the import is restricted to a tile or a bounding box, only tiles of the restriction receive data. "
 "With several stores registered, only the addressed store receives the element and a search of a tile visits the data of all of them.",
 ["inputs", "configurations"], "all elements, stylesheets with zoom ranges, clip and skip, and all kinds of restriction",
 "The tests store one element per case with one rule at one or two zooms and look at one tile.",
 ["core/src/index/ElementStore.cpp", "core/src/index/GeoStore.cpp"],
 [("placement", "ElementStore::store"), ("restrictions", "ElementStore::store overloads")], observe=["tiles reported by a store", "search results"])

prop("C07", "Clipping keeps exactly the part of the geometry inside the tile",
 "Whatever part of an element is handed to a tile lies within the tile, keeps the identifier and tags of the original, and together with the parts of the other tiles amounts to the original: lengths of ways and areas of polygons (with holes of relations, told from outlines by orientation) add up, points go to the tile that contains them. "
 "Nothing is handed to a tile the geometry does not reach, and geometry entirely inside a tile is handed over unchanged.",
 ["inputs"], "all points, polylines, simple polygons (either orientation, concave) and relations of them, against all grids of tiles",
 "The tests clip about a dozen hand-made shapes against one box.",
 ["core/src/index/ElementGeometryClipper.cpp", "core/src/index/ElementGeometryVisitor.hpp", "core/src/math/PolyClip.hpp"],
 [("polygon clipping", "ElementGeometryClipper"), ("clipper library", "core/lib/clipper")], observe=["elements passed to the callback"])

prop("C08", "The stylesheet parser reads back any stylesheet that is written down",
 "Parsing a stylesheet text gives exactly the rules it spells out: selectors with their element kinds, zoom ranges and conditions with operators and values, declarations with keys and values in order, canvas rules, comments ignored and white space free, imports and textures and L-systems included from other files. "
 "A text which violates the grammar is rejected with an error and never partially accepted.",
 ["inputs"], "all stylesheets of the grammar, and mutations of them",
 "The tests parse some twenty fixed snippets.",
 ["core/src/mapcss/MapCssParser.cpp", "core/src/mapcss/StyleSheet.hpp"],
 [("grammar", "MapCssParser.cpp")], observe=["parsed stylesheet", "exceptions"])

prop("C09", "An element's style is the cascade of all matching rules and nothing else",
 "For any stylesheet, element and zoom, a rule applies exactly when element kind and zoom range match and all its conditions hold: each names a tag which the element has, and asks for nothing more, for a value, for another value, or for a number less or greater than the tag's value. "
 "The style has exactly the declarations of the applying rules, later rules override earlier ones, and it is absent when no rule applies; when the stylesheet has rules for the identifier of the element at the zoom, these alone make its style. "
 "Canvas declarations reach only the canvas and vice versa.",
 ["inputs", "configurations"], "all stylesheets, elements and zooms",
 "The tests have one or two rules and one element per case; interactions of several rules, overlapping zoom ranges and conditions are not sampled.",
 ["core/src/mapcss/StyleProvider.cpp", "core/src/mapcss/Style.hpp", "core/src/mapcss/StyleDeclaration.hpp"],
 [("filters by kind and zoom", "StyleProviderImpl"), ("cascade", "StyleBuilder")], observe=["Style queries"])

prop("C10", "Style values evaluate to what the stylesheet says for each element",
 "Numbers with units (metres, degrees, percent) and plain numbers are converted to the same value as defined for the tile and coordinate, text is given back verbatim, and expressions over tag values follow the arithmetic of the expression (evaluated from left to right) for every element which has these tags. "
 "Colours and gradients give exactly the colours listed at their positions and channel-wise interpolation between them, and the nearest colour outside of them, for all notations.",
 ["inputs"], "all values, units, tiles, expressions, colours and gradients",
 "The tests evaluate a handful of expressions and two gradients.",
 ["core/src/mapcss/StyleEvaluator.cpp", "core/src/mapcss/StyleEvaluator.hpp", "core/src/mapcss/Style.hpp", "core/src/mapcss/Color.hpp", "core/src/mapcss/ColorGradient.hpp", "core/src/utils/GradientUtils.cpp"],
 [("expression evaluation", "StyleEvaluator"), ("gradients", "ColorGradient / GradientUtils")], observe=["Style::getValue / getString / getGradient"])

prop("C11", "Barriers, trees and lamps stand on the ground where their elements are",
 "A wall along a way or around an area, its closing side too, consists of pieces of the style's length, at least the style's gap apart, as high and thick as the style says, whose feet follow the ground; a barrier of pillars, a row of trees or of lamps has one copy for each step along each segment of its way, and elements at a node have one copy there: each copy has the whole shape, colour and texture of a single one and stands on the ground at its own place. Lamps of a way with a width stand alternately at both its sides. "
 "A forest has one tree for each n-th triangle of its terrain, at its middle, delivered in chunks of the style's size. Surfaces are closed, look outside, and each mesh is named after its element.",
 ["inputs", "configurations"], "all ways, areas, nodes and relations, sizes, elevations",
 "The tests build one barrier, one tree, one row and one forest and count vertices.",
 ["core/src/builders/misc", "core/src/builders/poi", "core/src/builders/generators", "core/src/builders/terrain/TerraExtras.cpp", "core/src/utils/MeshUtils.hpp"],
 [("barriers", "BarrierBuilder / WallGenerator"), ("rows", "TreeBuilder / LampBuilder / copyMeshAlong"), ("forest", "TerraExtras::addForest")], observe=["meshes passed to the callback"])

prop("C12", "OSM data in XML and PBF form import to the same, complete set of elements",
 "For any set of nodes, ways and relations, parsing the XML form and parsing the PBF form (dense or plain, compressed or raw, any granularity and offset, any block partition) deliver the same elements as the data says: all nodes, ways and relations with identifiers, tags and coordinates; a way of more than three points which ends where it starts is an area, counter-clockwise and without the closing point. "
 "References to nodes and members which the data does not have are left out, and so are ways without any known node.",
 ["inputs"], "all well-formed OSM documents and their encodings",
 "The tests count elements of two fixed files.",
 ["core/src/formats/osm/xml/OsmXmlParser.cpp", "core/src/formats/osm/pbf/OsmPbfParser.hpp", "core/src/formats/osm/OsmDataVisitor.cpp"],
 [("XML grammar", "OsmXmlParser"), ("blob and block decoding", "OsmPbfParser"), ("element creation", "OsmDataVisitor")], observe=["elements passed to the sink"])

prop("C13", "GeoJSON and shape files import to the geometry and attributes they contain",
 "Each feature of a GeoJSON tile (points, lines and polygons with holes, multi lines, multi polygons) is delivered once, with exactly its positions (a line in either direction), all its properties as tags and the name of its collection as the tag 'feature'. "
 "Each record of a shape file with a point, a polyline of one part or a polygon is delivered once with its positions in order and all attributes which have a value as tags: integers as integers, texts without padding. "
 "Several lines, or the rings of a polygon with holes, are members of one relation; shape records of other types are skipped, GeoJSON geometries of other types are an error.",
 ["inputs"], "all documents of these formats",
 "The tests read one fixed file per format and geometry kind.",
 ["core/src/formats/osm/json/OsmJsonParser.hpp", "core/src/formats/shape/ShapeParser.hpp", "core/src/formats/shape/ShapeDataVisitor.hpp"],
 [("feature parsing", "OsmJsonParser"), ("record parsing", "ShapeParser")], observe=["elements passed to the sink"])

prop("C14", "Multipolygons and relations assemble completely from their members",
 "For any multipolygon whose member ways join into rings, whatever the split into ways, their order and direction, the assembled relation has exactly these rings with outer and inner ones distinguished, and each ring has exactly the vertices of its ways. "
 "A multipolygon whose ways do not join into rings has none. Building relations get their parts, other relations get all members that exist, whatever the order of definitions; missing members are left out, and so are references which lead back to the relation itself.",
 ["inputs"], "all partitions of ring sets into member ways, all relation graphs including dangling and cyclic references",
 "The tests assemble about ten hand-made multipolygons.",
 ["core/src/formats/osm/MultipolygonProcessor.cpp", "core/src/formats/osm/BuildingProcessor.hpp", "core/src/formats/osm/RelationProcessor.hpp", "core/src/formats/osm/OsmDataVisitor.cpp"],
 [("ring assembly", "MultipolygonProcessor"), ("relation resolution", "OsmDataVisitor")], observe=["elements passed to the sink"])

prop("C15", "Malformed input files are rejected or skipped, never crash the importer",
 "For any bytes given as an OSM XML, OSM PBF, GeoJSON, shape, stylesheet, L-system or colour input, parsing ends with a result or an ordinary error: no crash, no memory error, no endless loop, no files left open. "
 "(Stylesheets which import themselves are not covered: the code leaves this to the caller.)",
 ["inputs", "fault_sequences"], "all byte strings, in particular mutations and truncations of valid files",
 "The tests have only valid files.",
 ["core/src/formats/osm/xml/OsmXmlParser.cpp", "core/src/formats/osm/pbf/OsmPbfParser.hpp", "core/src/formats/osm/json/OsmJsonParser.hpp", "core/src/formats/shape/ShapeParser.hpp", "core/src/mapcss/MapCssParser.cpp", "core/src/lsys/LSystemParser.cpp"],
 [("validation in parsers", "formats/*")], observe=["exceptions", "sanitizer reports"])

prop("C16", "Elevation lookups agree with the elevation data at every coordinate",
 "The grid source gives the bilinear interpolation of the tile's samples for every coordinate of the tile, and the terrain-model source gives the bilinear interpolation of the file's cells for every coordinate of its degree cell, in all hemispheres and for negative heights; where no data exists the documented default applies. "
 "Results lie between the neighbouring samples, equal the sample at sample points, and do not depend on earlier lookups.",
 ["inputs", "histories"], "all grids and files, all coordinates, all sequences of lookups",
 "The tests sample one tile in each source.",
 ["core/src/heightmap/GridElevationProvider.hpp", "core/src/heightmap/SrtmElevationProvider.hpp", "core/src/heightmap/FlatElevationProvider.hpp"],
 [("interpolation", "GridElevationProvider / SrtmElevationProvider")], observe=["getElevation"])

prop("C17", "Every mesh handed to the application is well formed",
 "For any tile content, stylesheet and elevation, every mesh delivered has whole triangles, in-range indices, one colour per vertex, one texture coordinate pair per vertex, finite coordinates, and texture sections which cover it. "
 "A mesh is named after the element it was made for.",
 ["inputs", "configurations"], "all elements supported by the mesh builders and all style values for them",
 "The tests check index counts for a few fixed elements.",
 ["core/src/builders", "core/src/math/Mesh.hpp"],
 [("mesh builders", "core/src/builders/MeshBuilder.cpp")], observe=["meshes passed to the callback"])

prop("C18", "The terrain of a tile covers it exactly once",
 "For any tile and any land-use content the terrain meshes of a tile together cover the tile's area without gaps and overlaps (seen from above), stay inside the tile, and each layer covers exactly the area of the elements that make it, by layer priority. "
 "Heights on the terrain equal the elevation source's heights plus the layer's height offset, layers with a height offset are closed by walls at their outline, and every layer has the colour and texture its style gives. "
 "Building the terrain does not change the elements.",
 ["inputs", "configurations"], "all sets of surface elements in a tile",
 "The tests check that building a terrain does not fail.",
 ["core/src/builders/terrain"],
 [("layer clipping", "TerraGenerator / SurfaceGenerator"), ("grid splitting", "LineGridSplitter")], observe=["meshes passed to the callback"])

prop("C19", "Triangulation of a polygon covers exactly the polygon",
 "For any simple polygon with holes, the triangles produced cover its area and nothing outside of it or in its holes, all facing up, whatever the orientation and refinement asked for, with the polygon's elevation, colour and texture mapped at each vertex. ",
 ["inputs"], "all simple polygons with disjoint holes and all refinement options",
 "The tests count triangles of a few squares.",
 ["core/src/builders/MeshBuilder.cpp", "core/src/math/Polygon.hpp"],
 [("triangle library adapter", "MeshBuilder"), ("holes", "math/Polygon.hpp")], observe=["mesh content"])

prop("C20", "Buildings have the footprint and heights their style gives",
 "For any building outline (with holes and parts) and any roof and facade kind, the mesh stays within the outline's extent and between the building's minimum height and its height plus the roof height, reaches both; the walls close the outline and its holes completely and are seen from outside, the roof covers the outline (and a floor closes it when the building starts above the ground) so that nothing is open but the ground, and sloped roofs rise and slope as their style says. "
 "Spheres, domes and cylinders have the dimensions of the outline's extent. Roof and facade have their own colour and texture. All parts of a building relation are delivered as one mesh named after the relation, and several buildings do not affect each other.",
 ["inputs", "configurations"], "all outlines, roof kinds, facade kinds and heights",
 "The tests build one outline per kind and count triangles.",
 ["core/src/builders/buildings"],
 [("building assembly", "BuildingBuilder"), ("roofs", "buildings/roofs"), ("facades", "buildings/facades")], observe=["meshes passed to the callback"])

prop("C21", "Cached tiles replay exactly what a fresh build delivers",
 "For any tile content and style, loading a tile from the mesh cache delivers the same meshes and elements (names, values in single precision, order) as the build which was recorded, for each tile, zoom, builder and stylesheet separately; a stylesheet which differs has a cache of its own. "
 "A build which was cancelled, failed, ran at the same time as another one, or was in progress when the process ended, leaves nothing that is later served as complete, and caching changes nothing of what a build delivers.",
 ["inputs", "histories", "fault_sequences"], "all contents, all sequences of builds with and without cancellation over tiles and styles",
 "The tests replay one mesh.",
 ["core/src/builders/MeshCache.cpp", "core/src/builders/CacheBuilder.hpp", "core/src/index/MeshStream.cpp"],
 [("cache file per tile", "MeshCache"), ("mesh serialization", "MeshStream")], observe=["meshes and elements delivered"])

prop("C22", "L-systems parse, rewrite and draw as defined",
 "Parsing an L-system text gives its axiom, productions, angle, generation count and scale; generating rewrites all words of the axiom in parallel the given number of times by these productions, with words without production kept, and choices between productions follow their weights; a text which is not an L-system is rejected. The turtle performs the words in order: it turns in the plane of its heading and its right, pitches around its right, rolls around its heading, all by the given angle, moves along its heading, and scales length and width by the given factor. "
 "Its heading and right stay perpendicular unit vectors, and restoring gives back exactly the saved state, including its style. Trees consist of the cylinders, cones and spheres the turtle draws, at its position, in its orientation and size, in the colour and texture of its style.",
 ["inputs"], "all L-systems",
 "The tests parse three texts and draw one tree.",
 ["core/src/lsys", "core/src/builders/generators/LSystemGenerator.cpp"],
 [("grammar", "LSystemParser"), ("rewriting and drawing", "Turtle / Turtle3d")], observe=["calls on the turtle", "turtle state"])

prop("C23", "Building a tile hands each element once to exactly the builders its style names",
 "When a tile is built from any stores with any stylesheet, each element of the tile which has a style at this level of detail is handed once to each builder its matching rules name, in the order of the stores, also if it is in more than one store or more than once in one; of an element which was clipped into pieces all pieces are handed over, once; elements of builder names which are not registered are passed to the element callback. "
 "A builder is made only when it gets an element, for this tile and style, is prepared before its first element and completed once after its last, and what it builds reaches the mesh callback. Nothing is kept for the next build.",
 ["inputs", "configurations"], "all store contents, stylesheets and sets of registered builders",
 "The tests build a tile with one element and one builder.",
 ["core/src/builders/QuadKeyBuilder.cpp", "core/src/builders/ExternalBuilder.hpp", "core/src/index/GeoStore.cpp"],
 [("dispatch", "BuilderElementVisitor")], observe=["calls on registered builders", "element and mesh callbacks"])

prop("C24", "The C interface delivers what was imported; errors go to the callback",
 "Through the exported functions any sequence of connecting, registering styles and stores, importing elements, loading tiles, searching, querying presence and elevation, caching and disconnecting behaves like a simple model: a tile load delivers what was imported for it, and presence, search and elevation agree with it. "
 "Every failure is reported through the error callback with a message, and no exception or crash crosses the interface.",
 ["histories", "fault_sequences"], "all call sequences including invalid paths, stores, tiles and styles",
 "The tests run about fifteen fixed calls.",
 ["core/shared"],
 [("application facade", "Application.hpp / Configuration.hpp / Storage.hpp / Search.hpp"), ("exported functions", "ExportLib.cpp")], observe=["callbacks"])

prop("C25", "Cancelling an operation stops it and leaves consistent data",
 "When an import, search or tile load is cancelled at any point, it ends, delivers nothing afterwards, and the data of other tiles and stores is unaffected; the same operation repeated without cancellation gives the complete result. ",
 ["fault_sequences", "histories"], "all operations and all points of cancellation",
 "The tests cancel one import.",
 ["core/src/index/GeoStore.cpp", "core/src/builders/QuadKeyBuilder.cpp", "core/src/CancellationToken.hpp"],
 [("cancellation token", "CancellationToken")], observe=["callbacks", "store content"])

prop("C26", "The C# library agrees with the engine about tiles, coordinates and data",
 "The C# library's tile arithmetic agrees with the engine's for all coordinates, tiles and zooms, its projections are mutually inverse, distances, boxes around points and rectangles of tiles agree with them, and its box-to-tiles enumeration gives each overlapping tile once. "
 "Its range tree answers interval queries exactly after any operations, its JSON reader and writer round-trip any document, and archives are unpacked to exactly what was packed.",
 ["inputs"], "all coordinates, tiles, boxes, interval sets, JSON values, colours, animated paths and archives, in any culture",
 "The tests sample a few values each.",
 ["unity/library/UtyMap.Unity"],
 [("tile arithmetic", "Utils/GeoUtils.cs"), ("range tree", "Infrastructure/Primitives/RangeTree.cs"), ("json", "Infrastructure/Formats/SimpleJSON.cs"), ("archive", "Infrastructure/IO/Compression")], observe=["return values"])

prop("C27", "The LRU cache keeps exactly the most recently used entries",
 "After any sequence of insertions, lookups, promotions and clearing, the cache holds exactly the most recently used entries up to its capacity, each with its last value, and a lookup of an evicted entry says so. ",
 ["histories"], "all operation sequences, keys and capacities",
 "The tests insert a few entries in one order.",
 ["core/src/utils/LruCache.hpp"], [("list and map", "LruCache")], observe=["exists / get / peek"])

prop("C28", "The C# library delivers to the application exactly what the engine delivers",
 "Whatever is added, imported, searched and loaded through the C# library has the effect it has through the engine's exported functions: the same elements with identifiers, tags, styles, geometry and heights, the same meshes with vertices projected by the tile's projection, triangles and colours, the same answers about presence and elevation. "
 "Each failure is reported once and leaves the library usable, a cancelled tile or search stops at once, and for each requested tile observers get its data, imported before when its provider fetched some, and then one notification that it is loaded.",
 ["histories", "inputs"], "all histories of operations, all elements, files, stylesheets, projections and tiles",
 "The tests load a few tiles and count what arrives; geometry, tags, order of coordinates, failures and cancellation are not looked at.",
 ["unity/library/UtyMap.Unity/Data", "core/shared/ExportLib.cpp"],
 [("marshalling of calls and callbacks", "Data/MapDataLibrary.cs"), ("requests of tiles", "Data/MapDataStore.cs")], observe=["IObserver<MapData>, IObserver<Element>, IObserver<Tile>", "trace"])

prop("C29", "Data providers fetch what the engine reads, geocoders find what is asked",
 "For a requested tile the C# library asks the configured server for exactly the data of this tile (or of the documented coarser one), stores the answer once where the engine looks for it and names it for import; nothing is fetched again when it is there, however many tiles are requested at once, and no more often than the limit of requests allows. "
 "Elevation fetched for a tile, from the grid or SRTM server, is the elevation the engine then gives at the same coordinates. "
 "A place is searched by its name, restriction and coordinate as given, in any culture, and every place of an answer is reported with its position, extent and name.",
 ["inputs", "histories", "schedules"], "all tiles, orders of requests, configurations, cultures, names of places, answers of servers",
 "The tests look at one request and one answer per provider.",
 ["unity/library/UtyMap.Unity/Data/Providers", "unity/library/UtyMap.Unity/Geocoding"],
 [("requests and files", "Data/MapDataProvider.cs, Data/Providers"), ("geocoders", "Geocoding")], observe=["INetworkService requests", "files", "IObserver<Tuple<Tile, string>>, IObserver<GeocoderResult>"])

prop("C30", "Animations, tiles and services of the C# library follow their history",
 "An animation moves its object as its time function says, ends in its final state and tells once that it is finished, however it is composed, updated, stopped, replaced or started again; a loop goes on. "
 "A tile has exactly the elements which are registered by it or by another tile that is not disposed; disposing cancels it. "
 "Shared sets and dictionaries lose or double no entry, also when several threads use them. Subscribers of the message bus get exactly the messages of their type sent while they are subscribed, in order. "
 "Configuration, trace and file services give back what was put into them: the last value under a path in any section and culture, the records of the level set and above, the bytes written.",
 ["inputs", "histories", "schedules"], "all compositions and durations of animations and sequences of updates; all sequences of operations on tiles, sets, messages, configuration, trace and files; threads",
 "The tests update one animation once or twice and never look at how it ends; they have no test of tiles, sets, messages or configuration.",
 ["unity/library/UtyMap.Unity/Animations", "unity/library/UtyMap.Unity/Tile.cs", "unity/library/UtyMap.Unity/Infrastructure"],
 [("state of animations", "Animations/TransformAnimation.cs, CompositeAnimation.cs, Animator.cs"), ("registered elements", "Tile.cs"),
  ("locks", "Infrastructure/Primitives/SafeHashSet.cs, SafeDictionary.cs"), ("services", "Infrastructure/Config, Diagnostic, IO, MessageBus.cs")],
 observe=["calls of UpdateTransform", "Finished events", "return values", "files"])

prop("C31", "Work of several threads at once gives what each would give alone",
 "Tiles which are loaded by several threads at once, the same or different ones, get exactly what they get when they are loaded one after another: "
 "the same meshes, elements and elevations, whichever stores hold the data, with any stylesheets (also when they are read for the first time) and with the cache of meshes. "
 "So do searches, queries for data and for elevation made meanwhile, while loads of other tiles are cancelled and while one import adds data to another tile; all of them leave the data and the caches intact. "
 "No two threads access the same memory without order between them.",
 ["inputs", "schedules", "histories"], "all data, stylesheets and operations of two and more threads in all schedules; one import at a time, of tiles which are not being loaded",
 "The tests have one thread; the C# library loads tiles by all threads of the pool.",
 ["core/src/index", "core/src/builders", "core/src/mapcss", "core/shared"],
 [("locks of stores", "core/src/index/PersistentElementStore.cpp, InMemoryElementStore.cpp"), ("dictionary of strings", "core/src/index/StringTable.cpp"),
  ("stylesheets and gradients", "core/shared/Application.hpp, core/src/mapcss/StyleProvider.cpp"), ("pool and cache of meshes", "core/src/builders/MeshPool.hpp, MeshCache.cpp"),
  ("triangulation", "core/src/builders/MeshBuilder.cpp")],
 observe=["meshes and elements delivered to each thread", "reports of ThreadSanitizer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
