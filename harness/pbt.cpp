#include "pbt.hpp"

#include <atomic>
#include <chrono>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:"
         "detect_stack_use_after_return=0:malloc_context_size=8:print_legend=0:strict_memcmp=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }

static bool quietCrash = false;
// Reports are expensive: not needed while shrinking.
extern "C" void __asan_on_error() { if (quietCrash) _exit(99); }

namespace pbt {

enum State : std::uint32_t { Idle = 0, Running = 1, Failed = 2, Done = 3, Passed = 4, Discarded = 5 };

struct Shared {
  static const std::size_t Max = 1u << 18;
  volatile std::uint32_t state;
  volatile std::uint32_t facet;
  volatile std::uint64_t index;
  volatile std::uint64_t startMs;
  volatile std::uint64_t done;
  volatile std::uint64_t n;
  char msg[4096];
  char note[65536];
  std::uint64_t choices[Max];
};

namespace {

std::uint64_t nowMs() {
  return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(
      std::chrono::steady_clock::now().time_since_epoch()).count());
}

std::uint64_t splitmix(std::uint64_t &x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27))*0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

std::uint64_t fnv(const void *data, std::size_t size, std::uint64_t h = 1469598103934665603ULL) {
  auto p = static_cast<const unsigned char *>(data);
  for (std::size_t i = 0; i < size; ++i) h = (h ^ p[i])*1099511628211ULL;
  return h;
}

Shared *newShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return static_cast<Shared *>(p);
}

void removeTree(const std::string &path) {
  // only ever called on directories which this engine created below its scratch directory
  if (DIR *d = opendir(path.c_str())) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = path + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p);
      else unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(path.c_str());
}

std::string jsonEscape(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
std::string quoted(const std::string &s) { return "\"" + jsonEscape(s) + "\""; }

std::string cut(const std::string &s, std::size_t n) { return s.size() <= n ? s : s.substr(0, n) + " ..."; }

std::string fileName(std::string s) {
  for (auto &ch : s) if (!isalnum(static_cast<unsigned char>(ch))) ch = '_';
  return s;
}

struct Outcome {
  enum Kind { Pass, Fail, Crash, Hang, Discard } kind = Pass;
  std::string msg, note;
  std::vector<std::uint64_t> choices;
  bool bad() const { return kind == Fail || kind == Crash || kind == Hang; }
};

const char *kindName(Outcome::Kind k) {
  switch (k) {
    case Outcome::Fail: return "property violated";
    case Outcome::Crash: return "crash";
    case Outcome::Hang: return "no termination";
    default: return "pass";
  }
}

struct Stats {
  std::uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::string> samples;
};

std::string scratchRoot;

/// Runs the property once within this process. Returns true when passed or discarded.
void runCase(const Facet &f, Ctx &c, State &state, std::string &msg) {
  state = Passed;
  try {
    f.prop(c);
  } catch (const Discard &) {
    state = Discarded;
  } catch (const Failure &e) {
    state = State::Failed;
    msg = e.what();
  } catch (const std::exception &e) {
    state = State::Failed;
    msg = std::string("unexpected exception escaped: ") + e.what();
  }
  if (!c.tmp_.empty()) removeTree(c.tmp_);
}

void copyText(char *dst, std::size_t cap, const std::string &s) {
  auto n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void redirect(const std::string &file) {
  int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

std::string tailOf(const std::string &file) {
  std::ifstream in(file);
  std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  auto p = all.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = all.find("runtime error:");
  if (p != std::string::npos) { p = all.rfind('\n', p); p = p == std::string::npos ? 0 : p + 1; return all.substr(p, 1800); }
  return all.size() > 600 ? all.substr(all.size() - 600) : all;
}

/// Executes one choice sequence in a child process, after the cases of given seeds.
Outcome execute(const Facet &f, Shared *sh, const std::vector<std::uint64_t> &choices, bool useSeed, std::uint64_t seed,
                int timeoutS, const std::vector<std::uint64_t> &before = {}, bool quiet = false) {
  static int counter = 0;
  std::string log = scratchRoot + "/exec" + std::to_string(counter++);
  sh->state = Running;
  sh->n = 0;
  sh->msg[0] = 0;
  sh->note[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    redirect(log);
    quietCrash = quiet;
    for (auto b : before) {
      Ctx c;
      c.scratch_ = log + ".d";
      c.seed(b);
      State st;
      std::string msg;
      runCase(f, c, st, msg);
    }
    for (int attempt = 0; attempt < f.schedules; ++attempt) {
      sh->n = 0;
      Ctx c;
      c.share(sh);
      c.scratch_ = log + ".d";
      if (useSeed) c.seed(seed);
      else { c.replay_ = true; c.input_ = choices; }
      State st;
      std::string msg;
      runCase(f, c, st, msg);
      if (st == Passed && attempt + 1 < f.schedules) continue;
      copyText(sh->msg, sizeof sh->msg, msg);
      copyText(sh->note, sizeof sh->note, c.noteBuf_.text);
      sh->state = st;
      break;
    }
    _exit(0);
  }
  std::uint64_t start = nowMs();
  int status = 0;
  bool hang = false;
  useconds_t nap = 300;
  while (waitpid(pid, &status, WNOHANG) == 0) {
    if (nowMs() - start > static_cast<std::uint64_t>(timeoutS)*1000) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    usleep(nap);
    if (nap < 20000) nap = nap*3/2;
  }
  Outcome o;
  o.choices.assign(sh->choices, sh->choices + std::min(std::uint64_t(sh->n), std::uint64_t(Shared::Max)));
  o.note = sh->note;
  if (hang) { o.kind = Outcome::Hang; o.msg = "case did not finish within " + std::to_string(timeoutS) + " s"; }
  else if (sh->state == Passed) o.kind = Outcome::Pass;
  else if (sh->state == Discarded) o.kind = Outcome::Discard;
  else if (sh->state == State::Failed) { o.kind = Outcome::Fail; o.msg = sh->msg; }
  else {
    o.kind = Outcome::Crash;
    o.msg = WIFSIGNALED(status) ? "killed by signal " + std::to_string(WTERMSIG(status))
                                : "exit status " + std::to_string(WEXITSTATUS(status));
    o.msg += "\n" + tailOf(log);
  }
  unlink(log.c_str());
  struct stat stt;
  if (stat((log + ".d").c_str(), &stt) == 0) removeTree(log + ".d");
  return o;
}

Outcome shrink(const Facet &f, Shared *sh, Outcome best, int budgetS) {
  auto deadline = nowMs() + static_cast<std::uint64_t>(budgetS)*1000;
  int execs = 0;
  auto timeLeft = [&] { return nowMs() < deadline && execs < 4000; };
  int tmo = best.kind == Outcome::Hang ? 10 : f.timeoutS;
  auto attempt = [&](const std::vector<std::uint64_t> &cand) {
    if (cand.size() > best.choices.size() || (cand.size() == best.choices.size() && cand >= best.choices)) return false;
    ++execs;
    auto o = execute(f, sh, cand, false, 0, tmo, {}, true);
    if (o.kind != best.kind) return false;
    // use what was really consumed when that is simpler
    if (o.choices.size() > cand.size()) o.choices = cand;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && timeLeft()) {
    progress = false;
    for (std::size_t size = std::max<std::size_t>(1, best.choices.size()/2); size >= 1 && timeLeft(); size /= 2) {
      for (std::size_t at = best.choices.size(); at-- > 0 && timeLeft();) {
        if (at + size > best.choices.size()) continue;
        auto cand = best.choices;
        cand.erase(cand.begin() + at, cand.begin() + at + size);
        if (attempt(cand)) { progress = true; at = std::min(at + 1, best.choices.size()); }
        else if (size > 1) at -= std::min(at, size/2);
      }
    }
    for (std::size_t size = std::max<std::size_t>(1, best.choices.size()/2); size >= 2 && timeLeft(); size /= 2) {
      for (std::size_t at = 0; at + size <= best.choices.size() && timeLeft(); at += size) {
        auto cand = best.choices;
        bool any = false;
        for (std::size_t i = at; i < at + size; ++i) { any = any || cand[i] != 0; cand[i] = 0; }
        if (any && attempt(cand)) progress = true;
      }
    }
    for (std::size_t at = 0; at < best.choices.size() && timeLeft(); ++at) {
      std::uint64_t lo = 0;
      if (best.choices[at] == 0) continue;
      auto cand = best.choices;
      cand[at] = 0;
      if (attempt(cand)) { progress = true; continue; }
      while (at < best.choices.size() && lo + 1 < best.choices[at] && timeLeft()) {
        auto mid = lo + (best.choices[at] - lo)/2;
        cand = best.choices;
        cand[at] = mid;
        if (attempt(cand)) progress = true;
        else lo = mid;
      }
    }
  }
  auto last = execute(f, sh, best.choices, false, 0, tmo);
  if (last.bad()) { last.choices = best.choices; return last; }
  return best;
}

void writeReplay(const std::string &path, const std::string &property, const Facet &f, const Outcome &o,
                 const std::vector<std::uint64_t> &before = {}) {
  std::ofstream out(path);
  out << "{\"property\": " << quoted(property) << ",\n \"facet\": " << quoted(f.name) << ",\n \"kind\": "
      << quoted(kindName(o.kind)) << ",\n \"message\": " << quoted(o.msg) << ",\n \"input\": " << quoted(o.note)
      << ",\n \"choices\": [";
  for (std::size_t i = 0; i < o.choices.size(); ++i) out << (i ? "," : "") << o.choices[i];
  out << "],\n \"after_cases\": [";
  for (std::size_t i = 0; i < before.size(); ++i) out << (i ? "," : "") << before[i];
  out << "]}\n";
}

bool readReplay(const std::string &path, std::string &facet, std::vector<std::uint64_t> &choices,
                std::vector<std::uint64_t> &before) {
  std::ifstream in(path);
  if (!in) return false;
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  auto p = s.find("\"facet\": \"");
  if (p == std::string::npos) return false;
  p += 10;
  facet = s.substr(p, s.find('"', p) - p);
  p = s.rfind("\"choices\": [");
  if (p == std::string::npos) return false;
  auto list = [&s](std::size_t at, std::vector<std::uint64_t> &to) {
    std::stringstream ss(s.substr(at));
    std::uint64_t v;
    while (ss >> v) { to.push_back(v); if (ss.peek() == ',') ss.get(); }
  };
  list(p + 12, choices);
  p = s.rfind("\"after_cases\": [");
  if (p != std::string::npos) list(p + 16, before);
  return true;
}

void writeStats(const std::string &file, const std::vector<Stats> &all) {
  std::ofstream out(file, std::ios::binary);
  for (const auto &s : all) {
    out << s.evaluations << ' ' << s.discarded << ' ' << s.nontrivial << ' ' << s.distinct.size() << '\n';
    for (auto h : s.distinct) out << h << ' ';
    out << '\n' << s.labels.size() << '\n';
    for (const auto &l : s.labels) out << l.second << ' ' << l.first << '\n';
    out << s.samples.size() << '\n';
    for (const auto &x : s.samples) { out << x.size() << '\n'; out.write(x.data(), static_cast<std::streamsize>(x.size())); out << '\n'; }
  }
}

void mergeStats(const std::string &file, std::vector<Stats> &all) {
  std::ifstream in(file, std::ios::binary);
  for (auto &s : all) {
    std::uint64_t e = 0, d = 0, nt = 0, n = 0, m = 0;
    if (!(in >> e >> d >> nt >> n)) return;
    s.evaluations += e; s.discarded += d; s.nontrivial += nt;
    for (; n > 0; --n) { std::uint64_t h; in >> h; s.distinct.insert(h); }
    in >> m;
    for (; m > 0; --m) { std::uint64_t c; std::string l; in >> c; in.get(); std::getline(in, l); s.labels[l] += c; }
    in >> m;
    for (; m > 0; --m) {
      std::size_t len; in >> len; in.get();
      std::string x(len, 0); in.read(&x[0], static_cast<std::streamsize>(len)); in.get();
      s.samples.push_back(x);
    }
  }
}

std::uint64_t caseSeed(std::uint64_t seed, const std::string &property, const std::string &facet, std::uint64_t index) {
  std::string key = property + "/" + facet;
  std::uint64_t h = fnv(key.data(), key.size()) ^ (seed*0x9e3779b97f4a7c15ULL);
  std::uint64_t x = h + index*0xd1342543de82ef95ULL;
  return splitmix(x);
}

}

// ---------------------------------------------------------------------------------------------------------------------

void NoteBuf::add(const char *s, std::size_t n) {
  if (mirror != nullptr && text.size() < capacity - 1) {
    auto k = std::min(n, capacity - 1 - text.size());
    memcpy(mirror + text.size(), s, k);
    mirror[text.size() + k] = 0;
  }
  text.append(s, n);
}

void Ctx::share(Shared *shared) {
  shared_ = shared;
  shared->note[0] = 0;
  noteBuf_.mirror = shared->note;
  noteBuf_.capacity = sizeof shared->note;
}

void Ctx::seed(std::uint64_t s) { for (auto &r : rng_) r = splitmix(s); }

std::uint64_t Ctx::next() {
  auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  const std::uint64_t result = rotl(rng_[1]*5, 7)*9;
  const std::uint64_t t = rng_[1] << 17;
  rng_[2] ^= rng_[0]; rng_[3] ^= rng_[1]; rng_[1] ^= rng_[2]; rng_[0] ^= rng_[3];
  rng_[2] ^= t;
  rng_[3] = rotl(rng_[3], 45);
  return result;
}

std::uint64_t Ctx::draw(std::uint64_t bound) {
  std::uint64_t v = 0;
  if (replay_) {
    if (drawn_.size() < input_.size()) v = std::min(input_[drawn_.size()], bound);
  } else if (bound == UINT64_MAX) {
    v = next();
  } else if (bound > 0) {
    // multiply-shift; the bias is irrelevant here
    v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(next())*(static_cast<unsigned __int128>(bound) + 1)) >> 64);
  }
  if (shared_ != nullptr && drawn_.size() < Shared::Max) {
    shared_->choices[drawn_.size()] = v;
    shared_->n = drawn_.size() + 1;
  }
  drawn_.push_back(v);
  if (drawn_.size() >= Shared::Max) throw Discard();
  return v;
}

std::string Ctx::tmpDir() {
  if (tmp_.empty()) {
    tmp_ = scratch_;
    mkdir(tmp_.c_str(), 0755);
  }
  std::string d = tmp_ + "/" + std::to_string(tmpCount_++);
  mkdir(d.c_str(), 0755);
  return d + "/";
}

int run(int argc, char **argv, const std::string &property, const std::vector<Facet> &facets,
        const std::vector<std::string> &assumptions, const std::vector<Known> &known) {
  auto env = [](const char *n, const std::string &d) { const char *v = getenv(n); return v != nullptr && *v ? std::string(v) : d; };
  std::uint64_t seed = std::strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
  std::string tier = env("VERIF_TIER", "quick");
  std::string verif = env("VERIF_DIR", "/verif");
  std::string only, replay;
  double scale = 1;
  std::uint64_t single = UINT64_MAX;
  int jobs = static_cast<int>(std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)));
  bool verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--facet") only = argv[++i];
    else if (a == "--replay") replay = argv[++i];
    else if (a == "--scale") scale = atof(argv[++i]);
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--case") single = std::strtoull(argv[++i], nullptr, 10);
    else if (a == "--verbose") verbose = true;
    else if (a == "quick" || a == "thorough") tier = a;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  bool quick = tier != "thorough";
  char tmpl[] = "/tmp/verif-pbt-XXXXXX";
  char shm[] = "/dev/shm/verif-pbt-XXXXXX";
  if (mkdtemp(shm) != nullptr) scratchRoot = shm;
  else if (mkdtemp(tmpl) != nullptr) scratchRoot = tmpl;
  else { perror("mkdtemp"); return 2; }
  struct Cleaner { ~Cleaner() { removeTree(scratchRoot); } } cleaner;

  Shared *probe = newShared();
  if (!replay.empty()) {
    std::string facet;
    std::vector<std::uint64_t> choices, before;
    if (!readReplay(replay, facet, choices, before)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    for (const auto &f : facets)
      if (f.name == facet) {
        auto o = execute(f, probe, choices, false, 0, f.timeoutS, before);
        printf("%s: %s\ninput:\n%s\n%s\n", facet.c_str(), kindName(o.kind), o.note.c_str(), o.msg.c_str());
        if (o.bad()) printf("VIOLATION property=%s replay=%s\n", property.c_str(), replay.c_str());
        return o.bad() ? 1 : 0;
      }
    fprintf(stderr, "no facet %s\n", facet.c_str());
    return 2;
  }
  if (single != UINT64_MAX) {
    for (const auto &f : facets)
      if (only.empty() || f.name == only) {
        auto o = execute(f, probe, {}, true, caseSeed(seed, property, f.name, single), f.timeoutS);
        printf("%s #%llu: %s\ninput:\n%s\n%s\n", f.name.c_str(), static_cast<unsigned long long>(single), kindName(o.kind),
               o.note.c_str(), o.msg.c_str());
      }
    return 0;
  }

  auto t0 = nowMs();
  // recorded findings: reported while they are there; one which is not recorded is a violation
  if (only.empty()) {
    std::vector<std::string> listed;
    std::ifstream kf(verif + "/known_findings.txt");
    for (std::string line; std::getline(kf, line);) listed.push_back(line);
    for (const auto &k : known) {
      Facet f{k.key, "", 1, 1, k.prop};
      auto o = execute(f, probe, {}, false, 0, f.timeoutS);
      if (!o.bad()) continue;
      std::string prefix = "KNOWN-FINDING: property=" + property + " " + k.key;
      bool isListed = false;
      for (const auto &line : listed)
        if (line.compare(0, prefix.size(), prefix) == 0) { isListed = true; printf("%s\n", cut(line, 600).c_str()); break; }
      if (isListed) continue;
      std::string dir = verif + "/replays";
      mkdir(dir.c_str(), 0755);
      std::string path = dir + "/" + property + "-" + k.key + ".json";
      writeReplay(path, property, f, o);
      printf("message: %s\nVIOLATION property=%s replay=%s\n", cut(o.msg, 3000).c_str(), property.c_str(), path.c_str());
      return 1;
    }
  }
  // a cap only: the number of cases decides
  auto deadline = t0 + static_cast<std::uint64_t>(std::stod(env("VERIF_BUDGET_S", quick ? "300" : "3000"))*1000);
  std::vector<Shared *> slots;
  std::vector<pid_t> pids;
  std::vector<bool> alive;
  for (int w = 0; w < jobs; ++w) {
    Shared *sh = newShared();
    slots.push_back(sh);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      redirect(scratchRoot + "/worker" + std::to_string(w));
      std::vector<Stats> stats(facets.size());
      for (std::size_t fi = 0; fi < facets.size(); ++fi) {
        const auto &f = facets[fi];
        if (!only.empty() && f.name != only) continue;
        auto total = static_cast<std::uint64_t>(std::ceil(static_cast<double>(quick ? f.quick : f.thorough)*scale));
        sh->facet = static_cast<std::uint32_t>(fi);
        for (std::uint64_t i = static_cast<std::uint64_t>(w); i < total && nowMs() < deadline; i += static_cast<std::uint64_t>(jobs)) {
          Ctx c;
          c.share(sh);
          c.scratch_ = scratchRoot + "/w" + std::to_string(w) + ".d";
          c.seed(caseSeed(seed, property, f.name, i));
          sh->n = 0;
          sh->index = i;
          sh->startMs = nowMs();
          sh->state = Running;
          State st;
          std::string msg;
          runCase(f, c, st, msg);
          auto &s = stats[fi];
          if (st == State::Failed) {
            copyText(sh->msg, sizeof sh->msg, msg);
            copyText(sh->note, sizeof sh->note, c.noteBuf_.text);
            sh->state = State::Failed;
            _exit(0);
          }
          sh->state = Idle;
          if (st == Discarded) { ++s.discarded; continue; }
          ++s.evaluations;
          std::string note = c.noteBuf_.text;
          for (const auto &l : c.labels_) s.labels[l.first] += l.second;
          if (c.nontrivial_) {
            ++s.nontrivial;
            s.distinct.insert(note.empty() ? fnv(c.drawn_.data(), c.drawn_.size()*8) : fnv(note.data(), note.size()));
            if (s.samples.empty() && i >= total/3 && !note.empty()) s.samples.push_back(cut(note, 900));
          }
        }
      }
      writeStats(scratchRoot + "/stats" + std::to_string(w), stats);
      sh->state = Done;
      _exit(0);
    }
    pids.push_back(pid);
    alive.push_back(true);
  }

  bool found = false;
  Outcome first;
  std::size_t foundFacet = 0;
  std::uint64_t foundIndex = 0;
  std::uint64_t foundWorker = 0;
  int running = jobs;
  while (running > 0 && !found) {
    for (int w = 0; w < jobs && !found; ++w) {
      if (!alive[w]) continue;
      int status = 0;
      Shared *sh = slots[w];
      bool ended = waitpid(pids[w], &status, WNOHANG) == pids[w];
      bool hang = !ended && sh->state == Running &&
          nowMs() - sh->startMs > static_cast<std::uint64_t>(facets[sh->facet].timeoutS)*1000 && nowMs() > sh->startMs;
      if (hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0); }
      if (!ended && !hang) continue;
      alive[w] = false;
      --running;
      if (!hang && sh->state == Done) continue;
      found = true;
      foundFacet = sh->facet;
      foundIndex = sh->index;
      foundWorker = static_cast<std::uint64_t>(w);
      first.choices.assign(sh->choices, sh->choices + std::min(std::uint64_t(sh->n), std::uint64_t(Shared::Max)));
      first.kind = hang ? Outcome::Hang : sh->state == State::Failed ? Outcome::Fail : Outcome::Crash;
      if (first.kind == Outcome::Fail) { first.msg = sh->msg; first.note = sh->note; }
      if (first.kind == Outcome::Crash) first.msg = tailOf(scratchRoot + "/worker" + std::to_string(w));
    }
    if (!found) usleep(3000);
  }
  for (int w = 0; w < jobs; ++w)
    if (alive[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }

  std::vector<Stats> stats(facets.size());
  for (int w = 0; w < jobs; ++w) mergeStats(scratchRoot + "/stats" + std::to_string(w), stats);

  int rc = 0;
  int violations = 0;
  std::string replayPath;
  if (found) {
    const auto &f = facets[foundFacet];
    fprintf(stderr, "%s/%s case %llu: %s\n%s\n", property.c_str(), f.name.c_str(), static_cast<unsigned long long>(foundIndex),
            kindName(first.kind), cut(first.msg, 1500).c_str());
    // A case counts only when it fails again, from its choice sequence alone.
    int again = 0;
    Outcome confirmed;
    for (int i = 0; i < 3; ++i) {
      auto o = execute(f, probe, first.choices, false, 0, f.timeoutS*(first.kind == Outcome::Hang ? 2 : 1));
      if (o.bad()) { ++again; confirmed = o; }
    }
    // State which outlives a case (a static, a cache) can make it depend on cases of the same worker before it.
    std::vector<std::uint64_t> before;
    if (again == 0 && first.kind != Outcome::Hang && f.schedules == 1) {
      std::vector<std::uint64_t> all;
      for (std::uint64_t i = foundWorker; i < foundIndex; i += static_cast<std::uint64_t>(jobs))
        all.push_back(caseSeed(seed, property, f.name, i));
      for (std::size_t n = 1; again == 0; n = std::min(n*4, all.size())) {
        if (n > all.size()) break;
        before.assign(all.end() - static_cast<std::ptrdiff_t>(n), all.end());
        auto o = execute(f, probe, first.choices, false, 0, 280, before);
        if (o.bad() && execute(f, probe, first.choices, false, 0, 280, before).bad()) { again = 1; confirmed = o; }
        if (n == all.size()) break;
      }
      for (std::size_t i = 0; again > 0 && i < before.size() && before.size() < 300; ) {
        auto less = before;
        less.erase(less.begin() + static_cast<std::ptrdiff_t>(i));
        if (execute(f, probe, first.choices, false, 0, f.timeoutS, less).bad()) before = less;
        else ++i;
      }
    }
    if (again == 0 && f.schedules > 1 && first.kind != Outcome::Hang) {
      // NOTE the schedule did not come again. What was seen is wrong all the same.
      again = 1;
      confirmed = first;
    }
    if (again == 0 || (first.kind == Outcome::Hang && again < 3)) {
      fprintf(stderr, "the failure does not reproduce (%d of 3)\n", again);
      rc = 2;
    } else {
      auto best = before.empty() ? shrink(f, probe, confirmed, quick ? 60 : 300) : confirmed;
      std::string dir = verif + "/replays";
      mkdir(dir.c_str(), 0755);
      replayPath = dir + "/" + property + "-" + fileName(f.name) + "-seed" + std::to_string(seed) + ".json";
      writeReplay(replayPath, property, f, best, before);
      printf("facet: %s (%s; shrunk from %zu to %zu choices)\n", f.name.c_str(), kindName(best.kind), first.choices.size(),
             best.choices.size());
      printf("input:\n%s\n", cut(best.note, 6000).c_str());
      printf("message: %s\n", cut(best.msg, 3000).c_str());
      printf("VIOLATION property=%s replay=%s\n", property.c_str(), replayPath.c_str());
      violations = 1;
      rc = 1;
    }
  }

  // evidence
  std::uint64_t evals = 0, distinct = 0;
  std::string rule, samples, detail;
  for (std::size_t i = 0; i < facets.size(); ++i) {
    const auto &s = stats[i];
    if (!only.empty() && facets[i].name != only) continue;
    evals += s.evaluations;
    distinct += s.distinct.size();
    rule += (rule.empty() ? "" : " | ") + facets[i].name + ": " + facets[i].rule;
    std::size_t k = 0;
    for (const auto &x : s.samples) {
      if (k++ >= 2) break;
      samples += (samples.empty() ? "" : ",\n   ") + quoted(facets[i].name + ": " + x);
    }
    std::string labels;
    for (const auto &l : s.labels) labels += (labels.empty() ? "" : ", ") + quoted(l.first) + ": " + std::to_string(l.second);
    detail += (detail.empty() ? "" : ",\n   ") + quoted(facets[i].name) + ": {\"evaluations\": " + std::to_string(s.evaluations)
        + ", \"nontrivial\": " + std::to_string(s.nontrivial) + ", \"distinct_nontrivial\": " + std::to_string(s.distinct.size())
        + ", \"discarded\": " + std::to_string(s.discarded) + ", \"classes\": {" + labels + "}}";
    if (verbose || !only.empty())
      fprintf(stderr, "%-28s eval %llu nontrivial %llu distinct %zu discarded %llu {%s}\n", facets[i].name.c_str(),
              static_cast<unsigned long long>(s.evaluations), static_cast<unsigned long long>(s.nontrivial), s.distinct.size(),
              static_cast<unsigned long long>(s.discarded), labels.c_str());
  }
  double wall = static_cast<double>(nowMs() - t0)/1000.0;
  std::string assume;
  for (const auto &a : assumptions) assume += (assume.empty() ? "" : ", ") + quoted(a);
  if (only.empty()) {
    std::string dir = verif + "/evidence";
    mkdir(dir.c_str(), 0755);
    std::ofstream out(dir + "/" + property + ".json");
    out << "{\"property\": " << quoted(property) << ",\n \"tier\": " << quoted(quick ? "quick" : "thorough") << ",\n \"seed\": " << seed
        << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": "
        << distinct << ",\n  \"rule\": " << quoted(rule) << ",\n  \"facets\": {\n   " << detail << "},\n  \"samples\": [\n   " << samples
        << "]},\n \"assumptions\": [" << assume << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "}\n";
  }
  printf("%s: %llu cases, %llu distinct non-trivial, %.1f s, seed %llu, %s\n", property.c_str(), static_cast<unsigned long long>(evals),
         static_cast<unsigned long long>(distinct), wall, static_cast<unsigned long long>(seed), tier.c_str());
  if (rc == 0 && distinct == 0) { fprintf(stderr, "nothing non-trivial was generated\n"); rc = 2; }
  return rc;
}

}
