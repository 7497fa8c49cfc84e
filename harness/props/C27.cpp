// C27: LRU cache against a list model.
#include "model.hpp"
#include "utils/LruCache.hpp"

using pbt::Ctx;

namespace {

struct Descending { bool operator()(int a, int b) const { return a > b; } };

template<typename Cmp>
void history(Ctx &c) {
  auto capacity = static_cast<std::size_t>(c.small(1, 12));
  auto keys = static_cast<int>(capacity) + static_cast<int>(c.small(0, 12));
  c.note() << "capacity " << capacity << ": ";
  utymap::utils::LruCache<int, std::string, Cmp> cache(capacity);
  std::vector<std::pair<int, std::string>> model;  // most recent first
  std::vector<std::pair<std::shared_ptr<std::string>, std::string>> held;
  bool evicted = false, promoted = false, replaced = false;
  int stamp = 0;
  auto find = [&](int k) { return std::find_if(model.begin(), model.end(), [k](const std::pair<int, std::string> &p) { return p.first == k; }); };
  auto front = [&](typename std::vector<std::pair<int, std::string>>::iterator it) { auto p = *it; model.erase(it); model.insert(model.begin(), p); };
  auto throws = [&](const std::function<void()> &f) { try { f(); return false; } catch (const std::exception &) { return true; } };
  c.repeat(1, 80, [&](std::size_t) {
    int k = static_cast<int>(c.draw(static_cast<std::uint64_t>(keys)));
    auto it = find(k);
    auto op = c.draw(11);
    if (op <= 4) {
      auto v = "v" + std::to_string(stamp++);
      c.note() << "put " << k << ", ";
      auto copy = v;
      cache.put(k, std::move(copy));
      if (it != model.end()) { model.erase(it); replaced = true; }
      model.insert(model.begin(), {k, v});
      if (model.size() > capacity) { model.pop_back(); evicted = true; }
    } else if (op <= 6) {
      c.note() << "get " << k << ", ";
      if (it == model.end()) { PBT_CHECK(c, throws([&] { cache.get(k); }), "get of absent key " << k << " does not fail"); }
      else {
        auto v = pbt::noThrow("get", [&] { return cache.get(k); });
        PBT_CHECK(c, v && *v == it->second, "get " << k << " gives " << (v ? *v : "null") << ", last value is " << it->second);
        held.emplace_back(v, it->second);
        if (it != model.begin()) promoted = true;
        front(it);
      }
    } else if (op == 7) {
      c.note() << "peek " << k << ", ";
      if (it == model.end()) { PBT_CHECK(c, throws([&] { cache.peek(k); }), "peek of absent key " << k << " does not fail"); }
      else { auto v = pbt::noThrow("peek", [&] { return cache.peek(k); }); PBT_CHECK(c, v && *v == it->second, "peek " << k); }
    } else if (op == 8) {
      c.note() << "promote " << k << ", ";
      if (it == model.end()) { PBT_CHECK(c, throws([&] { cache.promote(k); }), "promote of absent key " << k << " does not fail"); }
      else { pbt::noThrow("promote", [&] { cache.promote(k); }); if (it != model.begin()) promoted = true; front(it); }
    } else if (op == 9) {
      if (c.chance(1, 4)) { c.note() << "clear, "; cache.clear(); model.clear(); }
    }
    PBT_CHECK(c, cache.size() == model.size(), "size is " << cache.size() << ", expected " << model.size());
    for (int i = 0; i <= keys; ++i)
      PBT_CHECK(c, cache.exists(i) == (find(i) != model.end()), "key " << i << (cache.exists(i) ? " is kept" : " is lost"));
  });
  for (auto &p : model) {
    auto v = pbt::noThrow("peek", [&] { return cache.peek(p.first); });
    PBT_CHECK(c, v && *v == p.second, "value of " << p.first << " is " << (v ? *v : "null") << " expected " << p.second);
  }
  for (auto &h : held) PBT_CHECK(c, *h.first == h.second, "a value which was handed out changed");
  // order of eviction
  for (int i = 0; !model.empty() && i < static_cast<int>(capacity); ++i) {
    cache.put(1000 + i, std::string("new"));
    model.insert(model.begin(), {1000 + i, "new"});
    if (model.size() > capacity) model.pop_back();
    for (int k = 0; k <= keys; ++k)
      PBT_CHECK(c, cache.exists(k) == (find(k) != model.end()), "while filling: key " << k << (cache.exists(k) ? " is kept" : " is lost"));
  }
  if (evicted && promoted) c.nontrivial();
  if (replaced) c.label("replaced a value");
  if (evicted) c.label("evicted");
}

}

int main(int argc, char **argv) {
  return pbt::run(argc, argv, "C27", {
    {"history", "up to 80 operations over up to 41 keys with capacity 1..20; non-trivial: an eviction and a promotion happened", 80000, 3000000, history<std::less<int>>},
    {"custom order", "the same with another key order", 20000, 500000, history<Descending>},
  });
}
