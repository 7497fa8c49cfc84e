// Talks to processes which run the C# library (csharp/Server.cs).
#ifndef VERIF_MONO_HPP
#define VERIF_MONO_HPP

#include "pbt.hpp"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mono {

/// Processes are started before cases are; each is used by one case at a time and started again when it ends.
struct Pool {
  struct Server { int in[2], out[2]; std::string lock; volatile pid_t *pid; };
  std::vector<Server> servers;

  static Pool &get() { static Pool p; return p; }

  void start(int count) {
    std::string out = std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/.build/out/cs";
    auto pids = static_cast<volatile pid_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto parent = getpid();
    for (int i = 0; i < count; ++i) {
      Server s;
      if (pipe(s.in) || pipe(s.out)) { perror("pipe"); _exit(2); }
      s.lock = out + "/lock" + std::to_string(i);
      s.pid = pids + i;
      servers.push_back(s);
      fflush(nullptr);
      if (fork() == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(0);
        supervise(s, out, i);
      }
    }
  }

 private:
  static void supervise(const Server &s, const std::string &out, int i) {
    for (;;) {
      auto parent = getpid();
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(0);
        dup2(s.in[0], 0);
        int answers = dup(s.out[1]);   // this one may be 3 itself
        int log = open((out + "/log" + std::to_string(i)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(log, 1);
        dup2(log, 2);
        if (answers != 3) dup2(answers, 3);
        for (int fd = 4; fd < 256; ++fd) close(fd);
        setenv("LD_LIBRARY_PATH", out.c_str(), 1);
        setenv("MONO_REGISTRY_PATH", (out + "/registry").c_str(), 1);
        setenv("HOME", out.c_str(), 1);
        unsetenv("MONO_ENV_OPTIONS");
        execlp("mono", "mono", "--debug", (out + "/Server.exe").c_str(), static_cast<char *>(nullptr));
        _exit(127);
      }
      *s.pid = pid;
      int status = 0;
      waitpid(pid, &status, 0);
      std::string died = "\nDIED\t" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "status " + std::to_string(WEXITSTATUS(status))) + "\n";
      if (write(s.out[1], died.data(), died.size()) < 0) _exit(0);
      usleep(10000);
    }
  }
};

inline std::string escape(const std::string &s) {
  std::string r;
  for (char ch : s) {
    if (ch == '\\') r += "\\\\";
    else if (ch == '\t') r += "\\t";
    else if (ch == '\n') r += "\\n";
    else if (ch == '\r') r += "\\r";
    else r += ch;
  }
  return r;
}

inline std::string unescape(const std::string &s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') { r += s[i]; continue; }
    ++i;
    if (i >= s.size()) break;
    r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i] == 'r' ? '\r' : s[i];
  }
  return r;
}

inline std::string hex(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) { r += "0123456789abcdef"[ch >> 4]; r += "0123456789abcdef"[ch & 15]; }
  return r;
}

inline std::string unhex(const std::string &s) {
  std::string r;
  auto digit = [](char ch) { return ch <= '9' ? ch - '0' : ch - 'a' + 10; };
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>((digit(s[i]) << 4) | digit(s[i + 1]));
  return r;
}

/// A command under construction.
struct Command {
  std::string line;
  explicit Command(const std::string &name) : line(name) {}
  Command &s(const std::string &v) { line += "\t" + escape(v); return *this; }
  Command &i(long long v) { line += "\t" + std::to_string(v); return *this; }
  Command &d(double v) { std::int64_t b; memcpy(&b, &v, 8); return i(b); }
  Command &b(const std::string &v) { line += "\t" + hex(v); return *this; }
  template<typename G> Command &g(const G &v) { return d(v.latitude).d(v.longitude); }
  template<typename B> Command &box(const B &v) { return g(v.minPoint).g(v.maxPoint); }
  template<typename Q> Command &q(const Q &v) { return i(v.tileX).i(v.tileY).i(v.levelOfDetail); }
};

/// Its answer.
struct Answer {
  std::string exception;
  std::vector<std::string> fields;
  std::size_t at = 0;
  bool more() const { return at < fields.size(); }
  std::string s() { if (at >= fields.size()) throw pbt::Failure("answer of the C# library is too short"); return unescape(fields[at++]); }
  long long i() { return std::strtoll(s().c_str(), nullptr, 10); }
  double d() { std::int64_t b = i(); double v; memcpy(&v, &b, 8); return v; }
};

/// Exclusive use of one process during a case.
class Session {
 public:
  std::function<std::string(const std::string &)> network;   // answers requests made through the network service

  explicit Session(pbt::Ctx &c) : c_(c) {
    auto &all = Pool::get().servers;
    auto first = static_cast<std::size_t>(getpid()) % all.size();
    for (;;) {
      for (std::size_t k = 0; k < all.size() && lock_ < 0; ++k) {
        s_ = &all[(first + k) % all.size()];
        int fd = open(s_->lock.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
        if (flock(fd, LOCK_EX | LOCK_NB) == 0) lock_ = fd;
        else close(fd);
      }
      if (lock_ >= 0) break;
      usleep(2000);
    }
    static int count = 0;
    for (int attempt = 0; attempt < 5; ++attempt) {
      auto nonce = std::to_string(getpid()) + "." + std::to_string(count++);
      put("\nHello\t" + nonce + "\n");
      std::string line;
      while (get(line, 20000)) {
        if (line == "OK\t" + nonce) return;
        if (line.compare(0, 5, "DIED\t") == 0) break;   // it is started again: greet that one
      }
      if (line.compare(0, 5, "DIED\t") != 0) kill(*s_->pid, SIGKILL);
    }
    throw std::runtime_error("the C# process does not start");
  }
  ~Session() { if (lock_ >= 0) close(lock_); }
  Session(const Session &) = delete;

  /// Executes a command. An exception is in the answer.
  Answer tryCall(const Command &command, int timeoutMs = 20000) {
    put(command.line + "\n");
    std::string line;
    for (;;) {
      if (!get(line, timeoutMs)) {
        kill(*s_->pid, SIGKILL);
        c_.fail("no answer from the C# library: " + command.line.substr(0, 300));
      }
      if (line.compare(0, 5, "CALL\t") == 0) { put(hex(network ? network(unescape(line.substr(5))) : "") + "\n"); continue; }
      if (line.compare(0, 5, "DIED\t") == 0) c_.fail("the C# process ended (" + line.substr(5) + ") in " + command.line.substr(0, 300));
      break;
    }
    Answer a;
    std::size_t from = 0;
    std::vector<std::string> parts;
    for (;;) {
      auto to = line.find('\t', from);
      parts.push_back(line.substr(from, to - from));
      if (to == std::string::npos) break;
      from = to + 1;
    }
    if (parts[0] == "EX") a.exception = parts[1] + ": " + unescape(parts[2]);
    else a.fields.assign(parts.begin() + 1, parts.end());
    return a;
  }
  /// Executes a command which should not throw.
  Answer call(const Command &command) {
    auto a = tryCall(command);
    if (!a.exception.empty()) c_.fail("exception " + a.exception + " from " + command.line.substr(0, 300));
    return a;
  }

 private:
  void put(const std::string &s) {
    for (std::size_t n = 0; n < s.size();) {
      auto k = write(s_->in[1], s.data() + n, s.size() - n);
      if (k <= 0) throw std::runtime_error("cannot write to the C# process");
      n += static_cast<std::size_t>(k);
    }
  }
  bool get(std::string &line, int timeoutMs) {
    for (;;) {
      auto p = buffer_.find('\n');
      if (p != std::string::npos) {
        line = buffer_.substr(0, p);
        buffer_.erase(0, p + 1);
        if (line.empty()) continue;
        return true;
      }
      pollfd fd = {s_->out[0], POLLIN, 0};
      if (poll(&fd, 1, timeoutMs) <= 0) return false;
      char data[65536];
      auto k = read(s_->out[0], data, sizeof data);
      if (k <= 0) return false;
      buffer_.append(data, static_cast<std::size_t>(k));
    }
  }
  pbt::Ctx &c_;
  const Pool::Server *s_ = nullptr;
  int lock_ = -1;
  std::string buffer_;
};

}

#endif
