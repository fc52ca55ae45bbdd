// Bounded exhaustive exploration driver shared by all harnesses.
//
// A harness is a set of *families*. A family enumerates, deterministically and
// completely within its stated bounds, a sequence of cases; every case builds
// real libcommute objects, drives them, and compares what it observes with an
// independent reference model. Cases are numbered, so (family, number) is a
// replayable name of a case. The driver splits the numbering over forked
// workers; a worker that crashes, aborts (sanitizer) or hangs is attributed to
// the case it was executing, which is re-run alone before it is reported.
#pragma once

#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

// Thrown by a case when the implementation and the reference disagree
struct Failure {
  std::string msg;
};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix(h ^ mix(v)); }
inline uint64_t hstr(std::string const& s) {
  uint64_t h = 1469598103934665603ull;
  for(unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
inline uint64_t hdbl(double d) {
  if(d == 0) d = 0; // -0.0
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

// Thrown to leave an enumeration early (deadline passed, replay finished)
struct StopEnum {};

class Ctx {
public:
  // --- for harness authors -------------------------------------------------
  // One case. 'desc' is evaluated only when needed.
  template <typename D, typename F> void test(D&& desc, F&& body) {
    uint64_t idx = next_idx_++;
    if(!begin_case(idx)) return;
    // The body prints nothing; all reports go through Failure.
    std::string err;
    try {
      body();
    } catch(Failure const& f) {
      err = f.msg;
    } catch(std::exception const& e) {
      err = std::string("unexpected exception: ") + e.what();
    } catch(...) {
      err = "unexpected exception of unknown type";
    }
    if(!err.empty() || want_desc()) end_case(idx, desc(), err);
    else
      end_case(idx, std::string(), err);
  }
  // A distinct state of the explored space (deduplicated by hash)
  void state(uint64_t h);
  // Executed operations on the implementation
  void trans(uint64_t n = 1);
  // Executions compared with the reference
  void validated(uint64_t n = 1);
  bool thorough() const { return thorough_; }
  // pick(q, t): bound for the current tier
  template <typename T> T pick(T q, T t) const { return thorough_ ? t : q; }
  // True when the rest of the enumeration may be skipped (replay finished,
  // deadline passed)
  bool done() const;
  // Will the next test() call be executed by this worker? (lets enumerations
  // skip expensive construction)
  bool mine_next() const;
  // note in evidence
  void bound(std::string const& s);

  // --- driver internals ------------------------------------------------------
  bool begin_case(uint64_t idx);
  bool want_desc();
  void end_case(uint64_t idx, std::string const& desc, std::string const& err);
  uint64_t next_idx_ = 0;
  bool thorough_ = false;
  int fam_ = 0;
  struct Impl;
  Impl* impl_ = nullptr;
};

struct Registrar {
  Registrar(char const* name, void (*fn)(Ctx&));
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define FAMILY(NAME)                                                           \
  static void MC_CAT(fam_, NAME)(mc::Ctx & cx);                                \
  static mc::Registrar MC_CAT(reg_, NAME)(#NAME, MC_CAT(fam_, NAME));          \
  static void MC_CAT(fam_, NAME)(mc::Ctx & cx)

// --- assertion helpers --------------------------------------------------------
[[noreturn]] inline void fail(std::string const& m) { throw Failure{m}; }

template <typename... A> inline std::string str(A const&... a) {
  std::ostringstream os;
  os.precision(17);
  int dummy[] = {0, ((os << a), 0)...};
  (void)dummy;
  return os.str();
}
#define MC_CHECK(cond, ...)                                                    \
  do {                                                                         \
    if(!(cond)) mc::fail(mc::str(#cond, ": ", __VA_ARGS__));                   \
  } while(0)

// Expect an exception of type Exc
template <typename Exc, typename F> inline void expect_throw(F&& f, std::string const& what) {
  try {
    f();
  } catch(Exc const&) {
    return;
  } catch(std::exception const& e) {
    fail("wrong exception from " + what + ": " + e.what());
  }
  fail("no exception from " + what);
}

inline bool close(double a, double b, double tol = 1e-10) {
  return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b));
}
inline bool close(std::complex<double> a, std::complex<double> b, double tol = 1e-10) {
  return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b));
}

template <typename V> inline std::string vec_str(V const& v) {
  std::ostringstream os;
  os << "[";
  bool first = true;
  for(auto const& x : v) {
    if(!first) os << ",";
    first = false;
    os << x;
  }
  os << "]";
  return os.str();
}

// Enumerate all words over {0..k-1} with lengths lo..hi; f(word)
template <typename F> inline void words(int k, int lo, int hi, F&& f) {
  for(int len = lo; len <= hi; ++len) {
    if(k == 0 && len > 0) return;
    std::vector<int> w(len, 0);
    while(true) {
      f(w);
      int p = len - 1;
      while(p >= 0 && ++w[p] == k) {
        w[p] = 0;
        --p;
      }
      if(p < 0) break;
    }
  }
}

// Enumerate all tuples with given radices
template <typename F> inline void tuples(std::vector<int> const& radix, F&& f) {
  for(int r : radix)
    if(r <= 0) return;
  std::vector<int> w(radix.size(), 0);
  while(true) {
    f(w);
    int p = int(radix.size()) - 1;
    while(p >= 0 && ++w[p] == radix[p]) {
      w[p] = 0;
      --p;
    }
    if(p < 0) break;
  }
}

int run_main(int argc, char** argv);

} // namespace mc
