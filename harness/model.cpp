#include "model.hpp"

#include <fstream>
#include <iterator>
#include <sys/stat.h>

namespace model {

namespace {
struct Describer : utymap::entities::ElementVisitor {
  std::ostringstream out;
  void head(const char *kind, const Element &e) {
    out << kind << e.id << "{";
    for (const auto &t : e.tags) out << t.key << "=" << t.value << ";";
    out << "}";
  }
  void coord(const GeoCoordinate &c) {
    std::uint64_t a, b;
    memcpy(&a, &c.latitude, 8);
    memcpy(&b, &c.longitude, 8);
    char buf[120];
    snprintf(buf, sizeof buf, "(%.9g,%.9g#%llx,%llx)", c.latitude, c.longitude, static_cast<unsigned long long>(a), static_cast<unsigned long long>(b));
    out << buf;
  }
  void visitNode(const Node &e) override { head("n", e); coord(e.coordinate); }
  void visitWay(const Way &e) override { head("w", e); for (const auto &c : e.coordinates) coord(c); }
  void visitArea(const Area &e) override { head("a", e); for (const auto &c : e.coordinates) coord(c); }
  void visitRelation(const Relation &e) override {
    head("r", e);
    out << "[";
    for (const auto &m : e.elements) { m->accept(*this); out << " "; }
    out << "]";
  }
};
}

std::string describe(const Element &e) {
  Describer d;
  e.accept(d);
  return d.out.str();
}

void addTags(Element &e, const StringTable &st, const TextTags &tags, bool sorted) {
  for (const auto &t : tags) e.tags.push_back(Tag(st.getId(t.first), st.getId(t.second)));
  if (sorted) std::sort(e.tags.begin(), e.tags.end());
}

std::string word(pbt::Ctx &c, const std::string &alphabet, std::size_t min, std::size_t max) {
  std::string s;
  c.repeat(min, max, [&](std::size_t) { s += alphabet[static_cast<std::size_t>(c.draw(alphabet.size() - 1))]; });
  return s;
}

std::string difference(const std::vector<std::string> &expected, const std::vector<std::string> &got) {
  std::ostringstream ss;
  ss << "expected " << expected.size() << ", got " << got.size() << " entries";
  for (std::size_t i = 0; i < std::max(expected.size(), got.size()); ++i) {
    std::string e = i < expected.size() ? expected[i] : "(nothing)", g = i < got.size() ? got[i] : "(nothing)";
    if (e == g) continue;
    ss << "; first difference at " << i << ": expected " << e.substr(0, 600) << " got " << g.substr(0, 600);
    break;
  }
  return ss.str();
}

std::string readFile(const std::string &path) {
  std::ifstream in(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

void writeFile(const std::string &path, const std::string &data) {
  std::ofstream out(path, std::ios::binary | std::ios::trunc);
  out.write(data.data(), static_cast<std::streamsize>(data.size()));
}

void makeDir(const std::string &path) { mkdir(path.c_str(), 0755); }

bool fileExists(const std::string &path) { struct stat st; return stat(path.c_str(), &st) == 0; }

std::string storeDir(pbt::Ctx &c) {
  auto d = c.tmpDir();
  for (int i = 1; i <= 19; ++i) makeDir(d + std::to_string(i));
  return d;
}

}
