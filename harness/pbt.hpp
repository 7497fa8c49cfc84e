// A small property-based testing engine.
//
// Every generated value is drawn from a "choice sequence" (a list of unsigned integers). A case is
// therefore completely described by its choice sequence: it is replayed by feeding the sequence back,
// and shrunk by making the sequence shorter / its entries smaller, whatever the generator looks like.
// Cases run in forked workers; the choices are recorded in shared memory while they are drawn, so that a
// crash (sanitizer report, signal) or a hang is a failing case like any other: replayed, shrunk, reported.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

/// Thrown when the property does not hold for the case.
struct Failure : std::runtime_error {
  explicit Failure(const std::string &what) : std::runtime_error(what) {}
};

/// Thrown when the generated case is outside of the property's domain.
struct Discard {};

struct Shared;

/// Text which is mirrored to memory shared with the parent process while it is written.
class NoteBuf : public std::streambuf {
 public:
  std::string text;
  char *mirror = nullptr;
  std::size_t capacity = 0;
 protected:
  int overflow(int ch) override { char x = static_cast<char>(ch); add(&x, 1); return ch; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { add(s, static_cast<std::size_t>(n)); return n; }
  std::streampos seekoff(std::streamoff, std::ios_base::seekdir, std::ios_base::openmode) override {
    return static_cast<std::streamoff>(text.size());
  }
 private:
  void add(const char *s, std::size_t n);
};

/// What a property sees: source of choices and sink of notes.
class Ctx {
 public:
  Ctx() : note_(&noteBuf_) { note_.precision(10); }
  Ctx(const Ctx &) = delete;
  Ctx &operator=(const Ctx &) = delete;

  // ---- choices -----------------------------------------------------------------------------
  /// Uniform in [0, bound]; the simplest value is 0.
  std::uint64_t draw(std::uint64_t bound);

  /// Uniform in [lo, hi]; simplest is lo.
  std::int64_t integer(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo)));
  }
  /// Integer in [lo, hi] whose distribution favours small distances from lo.
  std::int64_t small(std::int64_t lo, std::int64_t hi) {
    auto span = static_cast<std::uint64_t>(hi - lo);
    int bits = 0;
    while (bits < 63 && (span >> bits) != 0) ++bits;
    auto b = draw(static_cast<std::uint64_t>(bits));
    auto cap = b >= 63 ? span : std::min(span, (std::uint64_t(1) << b) - 1);
    return lo + static_cast<std::int64_t>(draw(cap));
  }
  /// True with probability num/den; simplest is false.
  bool chance(int num, int den) { return static_cast<int>(draw(static_cast<std::uint64_t>(den - 1))) >= den - num; }
  bool boolean() { return draw(1) == 1; }
  /// Real in [lo, hi], simplest is lo. Takes 2^40 values.
  double real(double lo, double hi) {
    const std::uint64_t n = std::uint64_t(1) << 40;
    return lo + (hi - lo)*(static_cast<double>(draw(n))/static_cast<double>(n));
  }
  /// Real on a coarse grid of given steps: makes coincidences likely.
  double grid(double lo, double hi, int steps) {
    return lo + (hi - lo)*static_cast<double>(draw(static_cast<std::uint64_t>(steps)))/steps;
  }
  template<typename T>
  const T &pick(const std::vector<T> &v) { return v[static_cast<std::size_t>(draw(v.size() - 1))]; }
  template<typename T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }

  /// Calls f between min and max times. One continue-choice is made before every optional element, so that
  /// deleting a block of choices deletes an element.
  template<typename F>
  void repeat(std::size_t min, std::size_t max, F f) {
    std::size_t n = 0;
    // expected length grows with max, but short ones stay likely
    int den = static_cast<int>(std::max<std::size_t>(2, (max - min)/2 + 1));
    for (; n < min; ++n) f(n);
    for (; n < max; ++n) {
      if (draw(static_cast<std::uint64_t>(den)) == 0) break;
      f(n);
    }
  }

  // ---- verdicts ----------------------------------------------------------------------------
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void discard() { throw Discard(); }
  [[noreturn]] void fail(const std::string &msg) { throw Failure(msg); }
  void check(bool cond, const std::string &msg) { if (!cond) throw Failure(msg); }

  // ---- notes -------------------------------------------------------------------------------
  /// Human readable rendering of the generated input.
  std::ostream &note() { return note_; }
  /// Classifies the case: counted in the evidence.
  void label(const std::string &l, std::uint64_t n = 1) { labels_[l] += n; }
  /// Fresh directory of this case (with trailing slash), removed afterwards.
  std::string tmpDir();

  // ---- engine ------------------------------------------------------------------------------
  bool nontrivial_ = false;
  NoteBuf noteBuf_;
  std::ostream note_;
  void share(Shared *shared);
  std::map<std::string, std::uint64_t> labels_;
  std::string tmp_;
  std::string scratch_;
  int tmpCount_ = 0;
  bool replay_ = false;
  std::vector<std::uint64_t> input_;   // replayed choices
  std::vector<std::uint64_t> drawn_;   // what was drawn
  std::uint64_t rng_[4] = {1, 2, 3, 4};
  Shared *shared_ = nullptr;
  void seed(std::uint64_t s);
  std::uint64_t next();
};

typedef std::function<void(Ctx &)> Prop;

struct Facet {
  std::string name;
  std::string rule;       // how cases are made and what makes one non-trivial
  std::uint64_t quick;    // number of cases in quick tier
  std::uint64_t thorough; // number of cases in thorough tier
  Prop prop;
  int timeoutS = 60;      // one case
  int schedules = 1;      // how often a case is repeated when it should fail again: its outcome depends on the schedule of threads
};

/// A genuine defect which is recorded rather than repaired: `prop` fails as long as the defect is there. It is reported
/// as KNOWN-FINDING only when /verif/known_findings.txt has a line "KNOWN-FINDING: property=<id> <key>: ...".
struct Known {
  std::string key;
  Prop prop;
};

/// Command line driver: runs facets, writes evidence, prints verdict. See pbt.cpp.
int run(int argc, char **argv, const std::string &property, const std::vector<Facet> &facets,
        const std::vector<std::string> &assumptions = {}, const std::vector<Known> &known = {});

/// Runs a callable and turns an escaping exception into a failure with given prefix.
template<typename F>
auto noThrow(const std::string &what, F f) -> decltype(f()) {
  try {
    return f();
  } catch (const Failure &) {
    throw;
  } catch (const Discard &) {
    throw;
  } catch (const std::exception &e) {
    throw Failure(what + ": unexpected exception: " + e.what());
  }
}

template<typename T>
std::string str(const T &t) {
  std::ostringstream ss;
  ss.precision(17);
  ss << t;
  return ss.str();
}

}

#define PBT_CHECK(c, cond, msg) do { if (!(cond)) { std::ostringstream pbt_ss; pbt_ss.precision(17); \
  pbt_ss << msg; (c).fail(pbt_ss.str()); } } while (0)

#endif
