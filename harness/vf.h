// Shared runtime-monitoring framework: deterministic case RNG, violation reporting, observation counters.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // inclusive
  int64_t i(int64_t lo, int64_t hi) { return lo + int64_t(next() % uint64_t(hi - lo + 1)); }
  size_t idx(size_t n) { return size_t(next() % n); }
  double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double lo, double hi) { return lo + (hi - lo) * u(); }
  bool p(double prob) { return u() < prob; }
  template <typename C>
  auto& pick(C& c) {
    return c[idx(c.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + idx(l.size()));
  }
  template <typename C>
  void shuffle(C& c) {
    for (size_t k = c.size(); k > 1; --k) {
      using std::swap;
      swap(c[k - 1], c[idx(k)]);
    }
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x100000001b3ULL ^ b);
  r.next();
  return r.next();
}
struct Hash {
  uint64_t h = 1469598103934665603ULL;
  Hash& operator()(uint64_t v) {
    h = mix(h, v);
    return *this;
  }
  Hash& operator()(const std::string& v) {
    for (char c : v) h = (h ^ uint8_t(c)) * 1099511628211ULL;
    h = mix(h, v.size());
    return *this;
  }
  Hash& operator()(double v) {
    uint64_t b;
    std::memcpy(&b, &v, 8);
    return (*this)(b);
  }
};

struct CaseAbort : std::exception {};

struct Ctx {
  std::string prop;
  uint64_t seed{1};
  bool thorough{false};
  bool verbose{false};
  // per case
  uint64_t caseIdx{0};
  Rng rng;
  // accumulated
  uint64_t evaluations{0};
  std::unordered_set<uint64_t> sigs;
  std::map<std::string, uint64_t> events;
  std::vector<std::string> samples;
  struct V {
    std::string key, msg;
    uint64_t idx;
  };
  std::vector<V> violations;
  std::set<std::string> known;  // keys listed as known findings: reported but never abort the case
  std::map<std::string, int> perKey;

  void eval(uint64_t n = 1) { evaluations += n; }
  void sig(uint64_t h) {
    if (sigs.size() < 400000) sigs.insert(h);
  }
  void event(const std::string& e, uint64_t n = 1) { events[e] += n; }
  void sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s.substr(0, 1500));
  }
  bool wantSample() const { return samples.size() < 3; }
  // reports a violation. Aborts the case unless it is a known finding.
  void fail(const std::string& key, const std::string& msg) {
    int& n = perKey[key];
    if (n++ < 3) violations.push_back({key, msg, caseIdx});
    if (verbose) std::cerr << "case " << caseIdx << ": " << key << ": " << msg << std::endl;
    if (!known.count(key)) throw CaseAbort();
  }
  template <typename... A>
  void check(bool ok, const char* key, A&&... a) {
    ++evaluations;
    if (ok) return;
    std::ostringstream os;
    os.precision(17);
    (void)std::initializer_list<int>{(os << a, 0)...};
    fail(key, os.str());
  }
  bool close(double a, double b, double tol) const {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol;
  }
};

// Implemented by each harness
struct Harness {
  virtual ~Harness() = default;
  virtual uint64_t numCases(bool thorough) = 0;
  virtual void run(Ctx& c) = 0;
  virtual std::string rule() = 0;
};
using Registry = std::map<std::string, std::function<Harness*()>>;
inline Registry& registry() {
  static Registry r;
  return r;
}
template <typename T>
struct Reg {
  explicit Reg(const char* prop) {
    registry()[prop] = [] { return new T; };
  }
};
}  // namespace vf
#define VF_HARNESS(T, PROP) static ::vf::Reg<T> reg_##T(PROP)
