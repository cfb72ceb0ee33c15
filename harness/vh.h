// Common parts of the conformance harness: command registry, JSON output,
// hexadecimal case files, a seeded generator.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace vh {

using Args = std::vector<std::string>;
using Cmd = int (*)(const Args&);
std::map<std::string, Cmd>& registry();
struct Reg {
  Reg(const char* name, Cmd c) { registry()[name] = c; }
};
#define VH_COMMAND(name)                                   \
  static int vh_cmd_##name(const vh::Args& args);          \
  static vh::Reg vh_reg_##name(#name, &vh_cmd_##name);     \
  static int vh_cmd_##name(const vh::Args& args)

[[noreturn]] inline void die(const std::string& msg) {
  std::cerr << "HARNESS-ERROR: " << msg << std::endl;
  std::exit(3);
}

// the code under test refuses something it has to accept: counts as a finding, not as a failure of the harness
[[noreturn]] inline void refused(const std::string& msg) {
  std::cerr << "REFUSED: " << msg << std::endl;
  std::exit(4);
}

// ---- JSON -------------------------------------------------------------
inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      std::snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

// byte string -> JSON array of ints
template <typename It>
std::string jbytes(It b, It e) {
  std::string r = "[";
  bool first = true;
  for (; b != e; ++b) {
    if (!first) r += ',';
    first = false;
    r += std::to_string(static_cast<int>(static_cast<unsigned char>(*b)));
  }
  return r + "]";
}
inline std::string jbytes(const std::string& s) {
  return jbytes(s.begin(), s.end());
}

template <typename T>
std::string jints(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ',';
    r += std::to_string(static_cast<long long>(v[i]));
  }
  return r + "]";
}

inline std::string jarr(const std::vector<std::string>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) r += ',';
    r += v[i];
  }
  return r + "]";
}

class Obj {
  std::string s_ = "{";
  bool first_ = true;

 public:
  Obj& raw(const char* k, const std::string& v) {
    if (!first_) s_ += ',';
    first_ = false;
    s_ += '"';
    s_ += k;
    s_ += "\":";
    s_ += v;
    return *this;
  }
  Obj& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
  Obj& boolean(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  Obj& str(const char* k, const std::string& v) { return raw(k, jstr(v)); }
  Obj& bytes(const char* k, const std::string& v) { return raw(k, jbytes(v)); }
  std::string done() const { return s_ + "}"; }
};

// ---- case files: one case per line, fields separated by blanks ----------
inline std::string unhex(const std::string& h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  }
  return r;
}
inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  if (s.empty()) return "-";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
inline std::vector<std::string> words(const std::string& line) {
  std::vector<std::string> r;
  std::istringstream is{line};
  std::string w;
  while (is >> w) r.push_back(w);
  return r;
}
inline std::vector<std::vector<std::string>> readCases(const std::string& fn) {
  std::ifstream f{fn};
  if (!f) die("cannot open " + fn);
  std::vector<std::vector<std::string>> r;
  std::string l;
  while (std::getline(f, l)) r.push_back(words(l));
  return r;
}
inline std::string slurp(const std::string& fn) {
  std::ifstream f{fn, std::ios::binary};
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

// ---- seeded generator (same numbers on every platform) ------------------
class Rng {
  uint64_t s_;

 public:
  explicit Rng(uint64_t seed) : s_{seed * 0x9E3779B97F4A7C15ull + 0x1234567} {}
  uint64_t next() {
    s_ += 0x9E3779B97F4A7C15ull;
    uint64_t z = s_;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return static_cast<int>(next() % static_cast<uint64_t>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(static_cast<int>(v.size()))];
  }
};

// Terminates the process (exit 4) when a command makes no progress.
void watchdog(int seconds);
}  // namespace vh
#endif
