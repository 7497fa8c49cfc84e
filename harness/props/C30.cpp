// C30: objects of the C# library which have a state follow their history: animations, tiles, sets, messages, configuration,
// trace, files (executed by mono, see csharp/History.cs).
#include "model.hpp"
#include "mono.hpp"

#include <cmath>
#include <map>
#include <memory>
#include <set>

using namespace model;
using namespace utymap::utils;
using mono::Command;
using mono::Session;
using pbt::Ctx;

namespace {

// ---- animations

struct Node {
  std::vector<int> parts;   // of a composite
  bool leaf = true, loop = false, running = false;
  std::string kind;
  double factor = 1, duration = 0, time = 0, last = 0;
  int again = 0, finished = 0, count = 0;

  double at(double t) const {
    if (kind == "linear") return t;
    if (kind == "accelerate") return std::pow(t, 2*factor);
    if (kind == "decelerate") return 1 - std::pow(1 - t, 2*factor);
    return (1 - std::cos(t*M_PI))/2;
  }
};

struct Scene {
  std::vector<Node> nodes;
  std::vector<int> roots;
  int current = -1, updates = 0;

  void start(int i) {
    auto &n = nodes[static_cast<std::size_t>(i)];
    if (n.running) return;
    n.running = true;
    n.time = 0;
    for (int p : n.parts) start(p);
  }
  void stop(int i) {
    auto &n = nodes[static_cast<std::size_t>(i)];
    if (!n.running) return;
    n.running = false;
    for (int p : n.parts) stop(p);
    ++n.finished;
    if (n.again-- > 0) start(i);
  }
  void update(int i, double dt) {
    auto &n = nodes[static_cast<std::size_t>(i)];
    if (!n.leaf) {
      bool any = false;
      for (int p : n.parts) {
        if (!nodes[static_cast<std::size_t>(p)].running) continue;
        update(p, dt);
        any |= nodes[static_cast<std::size_t>(p)].running;
      }
      if (!any) stop(i);
      return;
    }
    ++n.count;
    n.time = n.duration == 0 ? 2 : n.time + dt/n.duration;
    if (n.time > 1 && n.loop) n.time = 0;
    n.last = n.at(std::min(n.time, 1.0));   // an animation ends where it should
    if (n.time > 1) stop(i);
  }
};

int genNode(Ctx &c, Scene &s, Command &command, int depth, bool root) {
  std::vector<int> parts;
  Node n;
  if (depth == 0 || c.chance(1, 2)) {
    n.kind = c.pick({"linear", "accelerate", "decelerate", "both"});
    n.factor = c.pick({1.0, 0.5, 2.0});
    n.duration = c.pick({1.0, 0.5, 2.0, 0.25, 4.0, 0.0});
    n.loop = n.duration > 0 && c.chance(1, 4);
    command.s("leaf").s(n.kind).d(n.factor).d(n.duration).i(n.loop);
    c.note() << n.kind << " " << n.duration << " s" << (n.loop ? " loop" : "");
  } else {
    n.leaf = false;
    auto count = static_cast<std::size_t>(c.small(0, 3));
    command.s("all").i(static_cast<long long>(count));
    c.note() << "(";
    for (std::size_t i = 0; i < count; ++i) { n.parts.push_back(genNode(c, s, command, depth - 1, false)); c.note() << ", "; }
    c.note() << ")";
  }
  if (root) n.again = c.chance(1, 4) ? static_cast<int>(c.small(1, 2)) : 0;
  if (n.again) c.note() << " restarted " << n.again << " times";
  command.i(n.again);
  s.nodes.push_back(n);
  return static_cast<int>(s.nodes.size()) - 1;
}

void animatorFacet(Ctx &c) {
  Session session(c);
  Scene s;
  Command command("Animate");
  auto roots = c.small(1, 3);
  command.i(roots);
  for (int i = 0; i < roots; ++i) { s.roots.push_back(genNode(c, s, command, 2, true)); c.note() << "\n"; }
  struct State { Scene scene; std::string op; };
  std::vector<State> want;
  int updates = 0, ended = 0;
  c.repeat(1, 24, [&](std::size_t i) {
    std::ostringstream op;
    auto kind = i == 0 ? 0 : c.draw(11);
    if (kind == 0 || kind == 1) {
      int r = static_cast<int>(c.draw(s.roots.size() - 1));
      command.s("set").i(r).s("start");
      op << "animation " << r << " set";
      if (s.current >= 0) s.stop(s.current);
      s.current = s.roots[static_cast<std::size_t>(r)];
      want.push_back({s, op.str()});
      op.str("");
      op << "started";
      s.start(s.current);
    } else if (kind == 2) {
      command.s("cancel");
      op << "cancelled";
      s.stop(s.current);
    } else if (kind == 3) {
      command.s("start");
      op << "started";
      s.start(s.current);
    } else if (kind == 4) {
      int n = static_cast<int>(c.draw(s.nodes.size() - 1));
      bool begin = c.boolean();
      command.s(begin ? "begin" : "stop").i(n);
      op << (begin ? "start of part " : "stop of part ") << n;
      if (begin) s.start(n);
      else s.stop(n);
    } else {
      if (updates == 15) return;
      ++updates;   // never the exact end
      double dt = c.pick({0.0625, 0.125, 0.5, 0.25, 1.0, 2.0, 0.015625, 0.0}) + 1.0/1024;
      command.s("update").d(dt);
      op << "updated by " << dt << " s";
      if (s.current >= 0 && s.nodes[static_cast<std::size_t>(s.current)].running) {
        ++s.updates;
        s.update(s.current, dt);
        if (!s.nodes[static_cast<std::size_t>(s.current)].running) ++ended;
      }
    }
    want.push_back({s, op.str()});
    c.note() << op.str() << "\n";
  });
  auto a = session.call(command);
  std::vector<int> counts(s.nodes.size(), 0), modelCounts(s.nodes.size(), 0);
  // the server numbers animations as they are written, which is how the model does it
  for (const auto &w : want) {
    bool running = w.scene.current >= 0 && w.scene.nodes[static_cast<std::size_t>(w.scene.current)].running;
    bool got = a.i() != 0;
    PBT_CHECK(c, got == running, "after " << w.op << " the animator " << (got ? "is" : "is not") << " running");
    auto n = a.i();
    PBT_CHECK(c, n == w.scene.updates, "after " << w.op << " the animator saw " << n << " updates, not " << w.scene.updates);
    for (std::size_t i = 0; i < w.scene.nodes.size(); ++i) {
      const auto &node = w.scene.nodes[i];
      got = a.i() != 0;
      PBT_CHECK(c, got == node.running, "after " << w.op << " animation " << i << (got ? " is" : " is not") << " running");
      auto finished = a.i();
      PBT_CHECK(c, finished == node.finished, "after " << w.op << " animation " << i << " finished " << finished << " times, not " << node.finished);
      if (!node.leaf) continue;
      int count = static_cast<int>(a.i());
      double last = a.d();
      PBT_CHECK(c, (count > counts[i]) == (node.count > modelCounts[i]), "after " << w.op << " animation " << i << " moved its object " << count - counts[i] << " times");
      PBT_CHECK(c, node.count == 0 || std::fabs(last - node.last) < 1e-5, "after " << w.op << " animation " << i << " is at " << last << ", not " << node.last);
      counts[i] = count;
      modelCounts[i] = node.count;
    }
  }
  if (ended) c.label("ended");
  if (updates > 2) c.nontrivial();
}

// ---- tiles

void tilesFacet(Ctx &c) {
  Session session(c);
  struct Tile { QuadKey q; int sheet, projection, elevation; bool disposed = false; std::set<long long> ids; };
  std::vector<Tile> tiles;
  Command command("TileHistory");
  std::vector<std::function<void(mono::Answer &)>> checks;
  std::set<long long> doubtful;   // registered in more than one tile at once
  static long long base = (static_cast<long long>(getpid()) << 24);   // registrations are shared by the whole process
  base += 16;
  std::vector<QuadKey> keys = {QuadKey(16, 35205, 21489), QuadKey(16, 35205, 21488), QuadKey(3, 1, 2), QuadKey(16, 21489, 35205)};
  int asked = 0;
  c.repeat(1, 30, [&](std::size_t i) {
    auto what = i == 0 ? 0 : c.draw(8);
    if (what == 0) {
      Tile t;
      t.q = c.pick(keys);
      t.sheet = static_cast<int>(c.draw(1));
      t.projection = static_cast<int>(c.draw(1));
      t.elevation = static_cast<int>(c.draw(2));
      command.s("new").i(static_cast<long long>(tiles.size())).q(t.q).i(t.sheet).i(t.projection).i(t.elevation);
      c.note() << "tile " << tiles.size() << " " << show(t.q) << " " << t.sheet << t.projection << t.elevation << "\n";
      auto q = t.q;
      checks.push_back([&c, q](mono::Answer &a) {
        auto want = GeoUtils::quadKeyToBoundingBox(q);
        for (double v : {want.minPoint.latitude, want.minPoint.longitude, want.maxPoint.latitude, want.maxPoint.longitude}) {
          double got = a.d();
          PBT_CHECK(c, std::fabs(got - v) < 1e-9, "box of the tile has " << got << ", not " << v);
        }
        std::string text = a.s(), key = GeoUtils::quadKeyToString(q);
        std::string wanted = "(" + std::to_string(q.tileX) + "," + std::to_string(q.tileY) + ":" + key + ")";
        PBT_CHECK(c, text == wanted, "tile is written " << text << ", not " << wanted);
      });
      tiles.push_back(t);
      return;
    }
    auto n = c.draw(tiles.size() - 1);
    auto &t = tiles[n];
    long long id = base + static_cast<long long>(c.draw(4));
    bool has = false;
    for (const auto &o : tiles) has |= o.ids.count(id) > 0;
    if (what <= 2) {
      if (has && c.boolean()) return;   // applications ask before
      if (has && !t.disposed && !t.ids.count(id)) doubtful.insert(id);
      command.s("register").i(static_cast<long long>(n)).i(id);
      c.note() << "tile " << n << " registers " << id - base << "\n";
      if (!t.disposed) t.ids.insert(id);
    } else if (what <= 5) {
      command.s("has").i(static_cast<long long>(n)).i(id);
      c.note() << "tile " << n << " has " << id - base << "?\n";
      bool own = t.ids.count(id) > 0, judged = own || !doubtful.count(id) || !has;
      ++asked;
      checks.push_back([&c, has, n, id, judged](mono::Answer &a) {
        bool got = a.i() != 0;
        PBT_CHECK(c, !judged || got == has, "tile " << n << (got ? " has " : " has not ") << id - base);
      });
    } else if (what == 6) {
      command.s("dispose").i(static_cast<long long>(n));
      c.note() << "tile " << n << " disposed\n";
      t.disposed = true;
      t.ids.clear();
    } else if (what == 7) {
      command.s("state").i(static_cast<long long>(n));
      bool disposed = t.disposed;
      checks.push_back([&c, n, disposed](mono::Answer &a) {
        bool d = a.i() != 0, cancelled = a.i() != 0;
        PBT_CHECK(c, d == disposed && cancelled == disposed, "tile " << n << " disposed " << d << " cancelled " << cancelled << ", want " << disposed);
      });
    } else {
      auto m = c.draw(tiles.size() - 1);
      const auto &o = tiles[m];
      command.s("same").i(static_cast<long long>(n)).i(static_cast<long long>(m));
      bool same = t.q == o.q && t.sheet == o.sheet && t.projection == o.projection && t.elevation == o.elevation;
      checks.push_back([&c, n, m, same](mono::Answer &a) {
        bool equal = a.i() != 0, hash = a.i() != 0, other = a.i() != 0;
        PBT_CHECK(c, equal == same, "tiles " << n << " and " << m << (equal ? " are equal" : " differ"));
        PBT_CHECK(c, !equal || hash, "equal tiles " << n << " and " << m << " have different hashes");
        PBT_CHECK(c, !other, "a tile is equal to a text");
      });
    }
  });
  auto a = session.call(command);
  for (const auto &check : checks) check(a);
  if (asked > 1 && tiles.size() > 1) c.nontrivial();
}

// ---- sets and dictionaries

void setsFacet(Ctx &c) {
  Session session(c);
  Command command("Sets");
  std::set<std::string> set;
  std::map<std::string, int> dictionary;
  std::vector<std::pair<std::string, std::string>> want;   // operation and answer
  auto bit = [](bool b) { return std::string(b ? "1" : "0"); };
  c.repeat(1, 30, [&](std::size_t) {
    std::string key = c.pick({"a", "b", "c", "long key", ""});
    switch (c.draw(9)) {
      case 0: case 1: command.s("add").s(key); want.push_back({"add " + key, bit(set.insert(key).second)}); break;
      case 2: command.s("remove").s(key); want.push_back({"remove " + key, bit(set.erase(key) > 0)}); break;
      case 3: command.s("contains").s(key); want.push_back({"contains " + key, bit(set.count(key) > 0)}); break;
      case 4: {
        command.s("count").s("all");
        want.push_back({"count", std::to_string(set.size())});
        std::string all;
        bool first = true;
        for (const auto &k : set) { all += (first ? "" : " ") + k; first = false; }
        want.push_back({"all", all});
        break;
      }
      case 5: if (c.chance(1, 4)) { command.s("clear"); set.clear(); } else if (c.chance(1, 3)) { command.s("empty"); dictionary.clear(); } break;
      case 6: case 7: {
        int v = static_cast<int>(c.integer(-3, 3));
        command.s("put").s(key).i(v);
        want.push_back({"put " + key, bit(dictionary.emplace(key, v).second)});
        break;
      }
      case 8: command.s("drop").s(key); want.push_back({"drop " + key, bit(dictionary.erase(key) > 0)}); break;
      default: {
        command.s("get").s(key);
        auto it = dictionary.find(key);
        want.push_back({"get " + key, bit(it != dictionary.end())});
        want.push_back({"value of " + key, std::to_string(it == dictionary.end() ? 0 : it->second)});
      }
    }
  });
  for (const auto &w : want) c.note() << w.first << " -> " << w.second << "\n";
  auto a = session.call(command);
  for (const auto &w : want) {
    auto got = a.s();
    PBT_CHECK(c, got == w.second, w.first << " gives " << got << ", not " << w.second);
  }
  if (want.size() > 4) c.nontrivial();
}

void threadsFacet(Ctx &c) {
  Session session(c);
  Command command("Threads");
  int keys = static_cast<int>(c.integer(1, 4));
  command.i(keys);
  auto threads = c.small(2, 6);
  for (int t = 0; t < threads; ++t) {
    std::string pattern, script;
    c.repeat(1, 6, [&](std::size_t) { pattern += c.pick({'+', '-', '?', '#', '>', '<', '='}); pattern += static_cast<char>('a' + c.draw(static_cast<std::uint64_t>(keys) - 1)); });
    int times = static_cast<int>(c.small(1, 300));
    for (int i = 0; i < times; ++i) script += pattern;
    command.s(script);
    c.note() << pattern << " " << times << " times\n";
  }
  auto a = session.call(command);
  auto errors = a.i();
  PBT_CHECK(c, errors == 0, errors << " errors");
  auto size = a.i();
  long long count = 0;
  for (int k = 0; k < keys; ++k) {
    auto balance = a.i();
    bool in = a.i() != 0;
    PBT_CHECK(c, balance == in, "key " << k << " was added " << balance << " times more than removed and is " << (in ? "" : "not ") << "in the set");
    count += in;
    balance = a.i();
    in = a.i() != 0;
    PBT_CHECK(c, balance == in, "key " << k << " was added " << balance << " times more than removed and is " << (in ? "" : "not ") << "in the dictionary");
  }
  PBT_CHECK(c, size == count, "set has " << size << " items, " << count << " are found");
  c.nontrivial();
}

// ---- messages

void messagesFacet(Ctx &c) {
  Session session(c);
  Command command("Messages");
  struct Subscription { std::string type, got; bool on = true; };
  std::vector<Subscription> all;
  int sent = 0;
  c.repeat(1, 20, [&](std::size_t i) {
    auto kind = i == 0 ? 0 : c.draw(6);
    if (kind <= 1) {
      Subscription s;
      s.type = c.pick({"string", "int", "object"});
      command.s("subscribe").s(s.type);
      c.note() << "subscribe to " << s.type << "\n";
      all.push_back(s);
    } else if (kind == 2) {
      auto n = c.draw(all.size() - 1);
      command.s("cancel").i(static_cast<long long>(n));
      c.note() << "cancel " << n << "\n";
      all[n].on = false;
    } else {
      bool text = c.boolean();
      std::string m = text ? c.pick({"x", "yy", ""}) : std::to_string(c.integer(-9, 9));
      if (text) command.s("text").s(m);
      else command.s("number").s(m);
      c.note() << "send " << (text ? "text " : "number ") << m << "\n";
      for (auto &s : all)
        if (s.on && (s.type == "object" || (s.type == "string") == text)) s.got += m + ";";
      ++sent;
    }
  });
  auto a = session.call(command);
  for (std::size_t i = 0; i < all.size(); ++i) {
    auto got = a.s();
    PBT_CHECK(c, got == all[i].got, "subscriber " << i << " to " << all[i].type << " got " << got << " not " << all[i].got);
  }
  if (sent > 1) c.nontrivial();
}

// ---- configuration

void configFacet(Ctx &c) {
  Session session(c);
  std::string culture = c.pick({"", "de-DE", "fr-FR", "tr-TR", "en-US"});
  session.call(Command("Culture").s(culture));
  Command command("Config");
  struct Value { std::string kind, text; double number = 0; };
  std::map<std::string, Value> stores[2];
  std::vector<std::function<void(mono::Answer &)>> checks;
  const std::vector<std::string> parts = {"data", "osm", "a", "b"};
  c.note() << culture << "\n";
  c.repeat(2, 20, [&](std::size_t i) {
    int builder = c.boolean();
    std::vector<std::string> path;
    c.repeat(1, 3, [&](std::size_t) { path.push_back(c.pick(parts)); });
    auto join = [](std::vector<std::string>::const_iterator from, std::vector<std::string>::const_iterator to) {
      std::string r;
      for (; from != to; ++from) r += (r.empty() ? "" : "/") + *from;
      return r;
    };
    auto full = join(path.begin(), path.end());
    auto &store = stores[builder];
    if (i < 2 || c.boolean()) {
      Value v;
      v.kind = c.pick({"string", "int", "float", "bool"});
      command.s(v.kind).i(builder).s(full);
      if (v.kind == "string") { v.text = c.pick({"index/data", "", "http://x?a={0}", "17", "true"}); command.s(v.text); }
      else if (v.kind == "int") { v.number = static_cast<double>(c.integer(-70000, 70000)); command.i(static_cast<long long>(v.number)); }
      else if (v.kind == "float") { v.number = c.grid(-100, 100, 1600); command.d(v.number); }
      else { v.number = c.boolean(); command.i(static_cast<long long>(v.number)); }
      c.note() << builder << " " << full << " = " << v.kind << " " << v.text << v.number << "\n";
      store[full] = v;
      return;
    }
    auto it = store.find(full);
    auto sections = static_cast<std::ptrdiff_t>(c.draw(path.size() - 1));
    std::string kind = it == store.end() ? c.pick({"string", "int", "float", "bool"}) : it->second.kind;
    command.s(kind == "string" ? "getString" : kind == "int" ? "getInt" : kind == "float" ? "getFloat" : "getBool").i(builder).i(sections);
    for (std::ptrdiff_t k = 0; k < sections; ++k) command.s(path[static_cast<std::size_t>(k)]);
    command.s(join(path.begin() + sections, path.end()));
    c.note() << builder << " " << full << " (" << sections << " sections)?\n";
    Value want;
    if (it != store.end()) { want = it->second; if (want.kind == "string") {} }
    if (kind == "string") { command.s("default"); if (it == store.end()) want.text = "default"; }
    else if (kind == "int") { command.i(-42); if (it == store.end()) want.number = -42; }
    else if (kind == "float") { command.d(2.5); if (it == store.end()) want.number = 2.5; }
    else { bool d = c.boolean(); command.i(d); if (it == store.end()) want.number = d; }
    checks.push_back([&c, kind, want, full](mono::Answer &a) {
      if (kind == "string") { auto got = a.s(); PBT_CHECK(c, got == want.text, full << " is " << got << ", not " << want.text); }
      else if (kind == "float") { auto got = a.d(); PBT_CHECK(c, std::fabs(got - want.number) < 1e-4, full << " is " << got << ", not " << want.number); }
      else { auto got = a.i(); PBT_CHECK(c, got == want.number, full << " is " << got << ", not " << want.number); }
    });
  });
  auto a = session.call(command);
  for (const auto &check : checks) check(a);
  if (checks.size() > 1) c.nontrivial();
}

void settingsFacet(Ctx &c) {
  Session session(c);
  Command command("Settings");
  std::map<std::string, std::string> want;
  bool standard = c.boolean();
  command.i(standard);
  if (standard)
    want = {{"data/elevation/local", "index/data"}, {"data/srtm/server", "http://dds.cr.usgs.gov/srtm/version2_1/SRTM3"}, {"data/srtm/schema", "config/srtm.schema.txt"},
            {"data/osm/format", "xml"}, {"data/mapzen/format", "json"}, {"data/mapzen/layers", "all"}, {"data/mapzen/ele_format", "ele"}, {"data/mapzen/ele_grid", "4"}, {"data/import", "index/import"}};
  const std::vector<std::pair<std::string, std::vector<std::string>>> setters = {
      {"srtm", {"data/srtm/server", "data/srtm/schema"}}, {"geocoding", {"geocoding"}}, {"elevation", {"data/elevation/local"}}, {"index", {"data/index"}},
      {"osm", {"data/osm/server", "data/osm/query", "data/osm/format"}}, {"mapzen", {"data/mapzen/server", "data/mapzen/layers", "data/mapzen/format", "data/mapzen/apikey"}},
      {"heights", {"data/mapzen/ele_server", "data/mapzen/ele_grid", "data/mapzen/ele_format", "data/mapzen/api_key"}}, {"import", {"data/import"}}};
  int n = 0;
  c.repeat(0, 10, [&](std::size_t) {
    const auto &s = c.pick(setters);
    command.s(s.first);
    c.note() << s.first;
    for (const auto &key : s.second) {
      std::string v = key == "data/mapzen/ele_grid" ? std::to_string(c.integer(0, 40)) : c.pick({"u", "v", "w"}) + std::to_string(n++);
      command.s(v);
      want[key] = v;
      c.note() << " " << v;
    }
    c.note() << "\n";
  });
  std::vector<std::string> keys;
  for (const auto &s : setters)
    for (const auto &k : s.second)
      if (!standard || want.count(k)) { keys.push_back(k); command.s("read").s(k); }
  auto a = session.call(command);
  for (const auto &k : keys) {
    auto got = a.s();
    auto wanted = want.count(k) ? want[k] : "none";
    PBT_CHECK(c, got == wanted, k << " is " << got << ", not " << wanted);
  }
  if (n > 1) c.nontrivial();
}

// ---- trace

void traceFacet(Ctx &c) {
  Session session(c);
  Command command("Trace");
  const std::vector<std::string> levels = {"Debug", "Info", "Warn", "Error", "None"};
  std::string level = c.chance(1, 4) ? "" : c.pick(levels);
  command.s(level);
  auto rank = [&](const std::string &l) { return std::find(levels.begin(), levels.end(), l.empty() ? "Error" : l) - levels.begin(); };
  std::vector<std::string> want;
  int calls = 0;
  c.note() << "level " << level << "\n";
  c.repeat(1, 16, [&](std::size_t) {
    if (c.chance(1, 5)) {
      level = c.pick(levels);
      command.s("level").s(level);
      c.note() << "level " << level << "\n";
      return;
    }
    std::string type = levels[c.draw(3)], category = c.pick({"file", "mapdata", ""});
    auto args = static_cast<std::size_t>(c.draw(2));
    std::string text = args == 0 ? c.pick({"plain", "{\"json\": 1}", ""}) : args == 1 ? c.pick({"<{0}>", "{0} {0}", "no"}) : c.pick({"{0}-{1}", "{1}{0}", "{1}"}), out = text;
    command.s(type).s(category).s(text).i(static_cast<long long>(args));
    std::vector<std::string> values;
    for (std::size_t i = 0; i < args; ++i) { values.push_back(c.pick({"a", "{7}", "", "b c"})); command.s(values.back()); }
    if (args) {
      out.clear();
      for (std::size_t i = 0; i < text.size(); ++i)
        if (text[i] == '{') { out += values[static_cast<std::size_t>(text[i + 1] - '0')]; i += 2; }
        else out += text[i];
    }
    c.note() << type << " " << text << "\n";
    ++calls;
    if (rank(type) >= rank(level)) want.push_back(type + "|" + category + "|" + out + "|" + (type == "Error" ? "e" : ""));
  });
  auto a = session.call(command);
  for (const auto &w : want) {
    PBT_CHECK(c, a.more(), "record " << w << " is missing");
    auto got = a.s();
    PBT_CHECK(c, got == w, "record " << got << ", not " << w);
  }
  PBT_CHECK(c, !a.more(), "more records than expected: " << a.s());
  if (calls > 2) c.nontrivial();
}

// ---- files

void filesFacet(Ctx &c) {
  Session session(c);
  Command command("Files");
  command.s(c.tmpDir());
  std::map<std::string, std::string> files;
  std::set<std::string> directories = {""};
  std::vector<std::pair<std::string, std::string>> want;
  auto parent = [](const std::string &p) { auto i = p.rfind('/'); return i == std::string::npos ? std::string() : p.substr(0, i); };
  auto name = [](const std::string &p) { auto i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); };
  const std::vector<std::string> names = {"a.txt", "b.ele", "d/a.txt", "d/c.txt", "d/e/b.ele"};
  int writes = 0;
  c.repeat(1, 20, [&](std::size_t) {
    std::string path = c.pick(names);
    switch (c.draw(7)) {
      case 0: case 1: {
        std::string data;
        c.repeat(0, 5, [&](std::size_t) { data += c.pick({"x", "line\n", "\r\n", "\xc3\xa9", "0123456789"}); });
        command.s("write").s(path).b(data);
        bool ok = directories.count(parent(path)) > 0;
        want.push_back({"write " + path, ok ? "" : "!"});
        if (ok) { files[path] = data; ++writes; }
        break;
      }
      case 2: { std::string how = c.pick({"bytes", "text", "stream"}); command.s(how).s(path); want.push_back({how + " " + path, files.count(path) ? mono::hex(files[path]) : "!"}); break; }
      case 3: command.s("exists").s(path); want.push_back({"exists " + path, files.count(path) ? "1" : "0"}); break;
      case 4: case 5: {
        path = c.pick({"d", "d/e", "f"});
        command.s("make").s(path);
        want.push_back({"make " + path, ""});
        for (auto p = path; !p.empty(); p = parent(p)) directories.insert(p);
        break;
      }
      case 6: {
        path = c.pick({"", "d", "d/e"});
        std::string pattern = c.pick({"*", "*.txt", "b*", "a.txt"});
        command.s("files").s(path).s(pattern);
        std::set<std::string> found;
        for (const auto &f : files)
          if (parent(f.first) == path) {
            auto n = name(f.first);
            if (pattern == "*" || (pattern == "*.txt" && n.size() > 4 && n.substr(n.size() - 4) == ".txt") || (pattern == "b*" && n[0] == 'b') || pattern == n) found.insert(n);
          }
        std::string all;
        for (const auto &n : found) all += (all.empty() ? "" : " ") + n;
        want.push_back({"files of " + path + " " + pattern, directories.count(path) ? all : "!"});
        break;
      }
      default: {
        path = c.pick({"", "d", "f"});
        std::string pattern = c.pick({"*", "d*"});
        command.s("directories").s(path).s(pattern);
        std::string all;
        for (const auto &d : directories)
          if (!d.empty() && parent(d) == path && (pattern == "*" || name(d)[0] == 'd')) all += (all.empty() ? "" : " ") + name(d);
        want.push_back({"directories of " + path, directories.count(path) ? all : "!"});
      }
    }
  });
  for (const auto &w : want) c.note() << w.first << " -> " << w.second << "\n";
  auto a = session.call(command);
  for (const auto &w : want) {
    auto got = a.s();
    PBT_CHECK(c, got == w.second, w.first << " gives " << got << ", not " << w.second);
  }
  if (writes > 1) c.nontrivial();
}

}

int main(int argc, char **argv) {
  mono::Pool::get().start(8);
  return pbt::run(argc, argv, "C30",
    {
      {"animation", "one to three animations, single or composed of others to a depth of two, with any duration, loop and time function, which an animator starts, updates, cancels, replaces, "
                    "and whose parts are stopped alone; non-trivial: three or more updates", 16000, 1200000, animatorFacet},
      {"tile", "tiles which register elements, are asked for them, compared and disposed; non-trivial: two tiles and two questions", 12000, 800000, tilesFacet},
      {"set and dictionary", "operations by one thread; non-trivial: five answers", 12000, 800000, setsFacet},
      {"threads", "two to six threads change the same set and dictionary at once; non-trivial: always", 1500, 60000, threadsFacet},
      {"messages", "subscribers by type which come and go, messages of two types; non-trivial: two messages", 12000, 800000, messagesFacet},
      {"configuration", "values of four types read back through sections, in several cultures; non-trivial: two reads", 12000, 800000, configFacet},
      {"settings", "settings made by ConfigBuilder as providers read them; non-trivial: two values", 6000, 200000, settingsFacet},
      {"trace", "records of each type at each level; non-trivial: three calls", 12000, 800000, traceFacet},
      {"files", "files and directories written, read and listed; non-trivial: two files written", 6000, 400000, filesFacet},
    },
    {"mono executes the library as the application's runtime does; objects of the scene are not moved (the engine of Unity is not present): what the animation asks for is observed",
     "an update which ends exactly at the duration may or may not finish the animation",
     "elements registered by two tiles at once are not asked for in a third one after one of them is gone"},
    {});
}
