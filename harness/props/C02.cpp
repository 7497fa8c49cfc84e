// C02: string dictionary.
#include "model.hpp"

#include <thread>

using namespace model;
using pbt::Ctx;

namespace {

/// Texts which have the same 32 bit hash in the current implementation.
const std::vector<std::vector<std::string>> Colliding = {
  // of different length
  {"fbmv", "ncgab"}, {"chwh", "eqgab"}, {"zjri", "xnhbb"}, {"ijyi", "kojbb"}, {"yddq", "jalbb"}, {"mcoi", "gvtbb"}, {"oypv", "rjocb"},
  {"hugv", "ehddb"}, {"nfrk", "ljhdb"}, {"mpcp", "hppdb"}, {"ybcv", "gqleb"}, {"prnx", "scmeb"}, {"vaiv", "dpreb"}, {"xizy", "cwweb"},
  {"smot", "xrdfb"}, {"deuu", "omhfb"}, {"twjy", "vzegb"}, {"rgki", "snwgb"}, {"tsto", "btwgb"},
  // of the same length, partly of the same letters
  {"eifgrf", "eifqce"}, {"mzuncb", "ozulcj"}, {"vfjpud", "wxjpuo"}, {"ukduav", "uvdjlv"}, {"ftsgxr", "htdger"}, {"hyuvxr", "jyfver"},
  {"pfvfgs", "ufvigj"}, {"tsshgd", "twsaud"}, {"dhebfz", "dwebxs"}, {"endqux", "eoyqqx"}, {"ccrlkt", "ncrgtt"}, {"hukykn", "huyyif"},
  {"jkepub", "jleewb"}, {"afodbq", "bfoxbo"}, {"qpwlmx", "qtmlmc"}, {"ldpwpf", "lkpwtb"}, {"pninck", "wkincm"}, {"aiylbu", "aqylxh"},
  {"ubxkyj", "uoxkmh"}, {"rbjmvt", "rhjmkm"}, {"ohcfpq", "ohhopz"}, {"uzhpvy", "uzvbvx"}, {"exfsph", "exjqpo"}, {"lsaywy", "lsmyev"},
  // three of the same length
  {"icelvu", "kozvlz", "mdnwpl"}, {"hvonoc", "noxcxv", "phxqzr"}, {"cniafv", "crvbdq", "ejxvdt"}, {"lxxujr", "tbeccm", "uadfde"},
  {"gnnfwl", "gxgdoj", "izcjds"}, {"fnabgp", "oojfeu", "povqzz"}, {"cksqwx", "fviokd", "tnnuui"}, {"etdzck", "sbxulc", "ujqxga"},
  {"gciqqz", "plrsis", "qsamzb"}, {"crjxiq", "rmbyjy", "uoqypk"}, {"aaqjgh", "ddgtki", "fwavzv"}, {"akiygs", "gmlykh", "jatiji"},
  {"ccdqha", "hdkvkn", "wkhwwg"}, {"bqdfwj", "rwqnfh", "vpymou"}, {"nvxxcx", "nyxpit", "rufnbh"}, {"krpkmo", "snkiok", "sxdggi"},
  {"jccfkx", "jsuvml", "nudann"}, {"abtuxt", "dsmkgd", "jdydry"}, {"aocvgu", "dzaunb", "rsltdu"}, {"fojpqt", "iaxouu", "pdumnd"},
  {"fhtgjm", "lgrlqs", "skmzgz"}, {"axxesg", "jtbipm", "sbijuy"}, {"fgrtae", "hwghwo", "ppwpwt"}, {"hmblao", "knmfjn", "pxjwlw"}};

std::string genText(Ctx &c) {
  switch (c.draw(6)) {
    case 0: return word(c, "ab", 0, 4);
    case 1: return word(c, "abcdefghijklmnopqrstuvwxyz_:-0123456789", 1, 12);
    case 2: return c.pick(c.pick(Colliding));
    case 3: {  // arbitrary bytes
      std::string s;
      c.repeat(0, 12, [&](std::size_t) { s += static_cast<char>(c.integer(1, 255)); });
      return s;
    }
    case 4: return std::string(static_cast<std::size_t>(c.small(0, 5000)), static_cast<char>(c.integer('a', 'c')));
    case 5: return c.pick<std::string>({"", " ", "\n", "a\n", "\ta", "building", "building:levels", "\xc3\x9f", "name=", "\"", "\\", "\r\n", "\x1a"});
    default: return std::to_string(c.integer(-20, 3000));
  }
}

std::string printable(const std::string &s) {
  std::string r;
  for (unsigned char ch : s.substr(0, 40)) { if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; } else r += static_cast<char>(ch); }
  return s.size() > 40 ? r + "...(" + std::to_string(s.size()) + ")" : r;
}

struct Machine {
  Ctx &c;
  std::string dir;
  std::unique_ptr<StringTable> table;
  std::map<std::string, std::uint32_t> ids;
  std::vector<std::string> texts;

  explicit Machine(Ctx &c) : c(c), dir(c.tmpDir()) { open(); }
  void open() { table.reset(); table.reset(new StringTable(dir)); }
  void getId(const std::string &s) {
    auto id = table->getId(s);
    auto it = ids.find(s);
    if (it != ids.end()) {
      PBT_CHECK(c, id == it->second, "text '" << printable(s) << "' had number " << it->second << ", now " << id);
    } else {
      PBT_CHECK(c, id == texts.size(), "new text '" << printable(s) << "' got number " << id << ", next free is " << texts.size());
      ids[s] = id;
      texts.push_back(s);
    }
  }
  void getString(std::uint32_t id) {
    auto s = table->getString(id);
    PBT_CHECK(c, s != nullptr, "no text for number " << id);
    PBT_CHECK(c, *s == texts[id], "number " << id << " was issued for '" << printable(texts[id]) << "', gives '" << printable(*s) << "'");
  }
  void verifyAll() {
    for (std::uint32_t i = 0; i < texts.size(); ++i) getString(i);
    for (const auto &p : ids) getId(p.first);
  }
};

void history(Ctx &c) {
  Machine m(c);
  int reopened = 0, collisions = 0, later = 0;
  std::vector<std::shared_ptr<std::string>> held;
  std::vector<std::string> heldText;
  c.repeat(1, 120, [&](std::size_t) {
    switch (c.draw(9)) {
      default: {
        auto s = genText(c);
        if (c.note().tellp() < 3000) c.note() << "id('" << printable(s) << "') ";
        if (m.ids.count(s)) ++later;
        m.getId(s);
        break;
      }
      case 5: case 6: {
        if (m.texts.empty()) break;
        auto id = static_cast<std::uint32_t>(c.draw(m.texts.size() - 1));
        if (c.note().tellp() < 3000) c.note() << "text(" << id << ") ";
        m.getString(id);
        held.push_back(m.table->getString(id));
        heldText.push_back(m.texts[id]);
        break;
      }
      case 7:
        if (m.texts.empty()) break;
        { auto s = m.texts[c.draw(m.texts.size() - 1)]; c.note() << "again('" << printable(s) << "') "; m.getId(s); ++later; }
        break;
      case 8:
        c.note() << "reopen ";
        m.open();
        ++reopened;
        break;
      case 9: {
        // texts of one hash: each in its turn, some of them read back or asked again in between
        auto group = c.pick(Colliding);
        std::size_t start = c.draw(group.size() - 1);
        for (std::size_t i = 0; i < group.size(); ++i) {
          auto text = group[(start + i) % group.size()];
          c.note() << "equal('" << text << "') ";
          m.getId(text);
          switch (c.draw(3)) {
            case 1: m.getString(m.ids[text]); break;
            case 2: m.getString(m.ids[group[start]]); break;
            case 3: m.getId(group[start]); break;
            default: break;
          }
        }
        ++collisions;
      }
    }
  });
  m.verifyAll();
  m.open();
  m.verifyAll();
  for (std::size_t i = 0; i < held.size(); ++i)
    PBT_CHECK(c, *held[i] == heldText[i], "a text which was handed out changed to '" << printable(*held[i]) << "'");
  if (later > 0 && reopened > 0) c.nontrivial();
  if (collisions) c.label("equal hashes");
  if (reopened) c.label("reopened");
}

/// More texts than are cached: ids and texts have to come from the files.
void large(Ctx &c) {
  Machine m(c);
  auto n = static_cast<std::size_t>(c.integer(1000, 3000));
  auto stride = c.integer(1, 97);
  c.note() << n << " texts";
  auto text = [&](std::size_t i) {
    if (i % 20 < 3 && i/20 < Colliding.size() && i % 20 < Colliding[i/20].size()) return Colliding[i/20][i % 20];
    return "t" + std::to_string(i*static_cast<std::size_t>(stride)) + std::string(i % 7, 'x');
  };
  for (std::size_t i = 0; i < n; ++i) {
    m.getId(text(i));
    if (i % 3 == 0) m.getString(static_cast<std::uint32_t>(i/2));
  }
  if (c.boolean()) { m.open(); c.note() << ", reopened"; }
  c.repeat(50, 400, [&](std::size_t) {
    auto i = static_cast<std::size_t>(c.draw(n + 20));
    if (c.boolean() && i < m.texts.size()) m.getString(static_cast<std::uint32_t>(i));
    else m.getId(text(i));
  });
  m.verifyAll();
  m.open();
  m.verifyAll();
  c.nontrivial();
}

/// A table is shared by threads of one process.
void threads(Ctx &c) {
  auto dir = c.tmpDir();
  int n = static_cast<int>(c.integer(2, 4)), count = static_cast<int>(c.integer(50, 400)), range = static_cast<int>(c.integer(10, 300));
  c.note() << n << " threads, " << count << " lookups of " << range << " texts, start " << c.draw(1000);
  std::vector<std::vector<std::pair<std::string, std::uint32_t>>> got(static_cast<std::size_t>(n));
  std::vector<std::string> errors(static_cast<std::size_t>(n));
  {
    StringTable table(dir);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        unsigned x = static_cast<unsigned>(t)*7919u + 17u;
        for (int i = 0; i < count; ++i) {
          x = x*1664525u + 1013904223u;
          auto s = "k" + std::to_string((x >> 8) % static_cast<unsigned>(range));
          auto id = table.getId(s);
          got[static_cast<std::size_t>(t)].emplace_back(s, id);
          auto back = table.getString(id);
          if (back == nullptr || *back != s) errors[static_cast<std::size_t>(t)] = s + " -> " + std::to_string(id) + " -> " + (back ? *back : "null");
        }
      });
    for (auto &t : ts) t.join();
  }
  std::map<std::string, std::uint32_t> ids;
  std::map<std::uint32_t, std::string> back;
  for (auto &e : errors) PBT_CHECK(c, e.empty(), "text is not given back: " << e);
  for (auto &g : got)
    for (auto &p : g) {
      auto it = ids.emplace(p.first, p.second).first;
      PBT_CHECK(c, it->second == p.second, "'" << p.first << "' has numbers " << it->second << " and " << p.second);
      auto b = back.emplace(p.second, p.first).first;
      PBT_CHECK(c, b->second == p.first, "number " << p.second << " means '" << b->second << "' and '" << p.first << "'");
    }
  StringTable again(dir);
  for (auto &p : ids) {
    PBT_CHECK(c, again.getId(p.first) == p.second, "number of '" << p.first << "' changed on reopening");
    PBT_CHECK(c, *again.getString(p.second) == p.first, "text of " << p.second << " changed on reopening");
  }
  c.nontrivial();
}

/// Asking for a number before it is issued does not harm it.
void premature(Ctx &c) {
  Machine m(c);
  std::vector<std::uint32_t> asked;
  c.repeat(1, 30, [&](std::size_t) {
    if (c.boolean()) {
      auto id = static_cast<std::uint32_t>(m.texts.size() + c.draw(5));
      c.note() << "text(" << id << ")? ";
      m.table->getString(id);
      asked.push_back(id);
    } else {
      m.getId("p" + std::to_string(c.draw(40)));
      c.note() << "id ";
    }
  });
  m.verifyAll();
  for (auto a : asked) if (a < m.texts.size()) c.nontrivial();
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C02", {
    {"history", "up to 120 lookups in both directions and reopenings, texts of arbitrary bytes including equal hashes; non-trivial: a text asked again and a reopening", 40000, 400000, history},
    {"large", "1000 to 3000 texts (cache holds 1024), then random lookups; always non-trivial", 60, 1500, large},
    {"threads", "2 to 4 threads over one table; always non-trivial", 400, 8000, threads},
    {"premature", "numbers asked for before they are issued; non-trivial when one of them is issued later", 3000, 60000, premature},
  }, {"Texts contain no NUL (they come from C strings and text files).", "Equal-hash pairs are equal for the hash function of the pinned commit."});
}
