// A small property-based testing framework: cases are text-serialisable
// (header map + rows of integers), suites generate them from a seeded RNG and
// judge them with an oracle, the runner executes them in forked, isolated
// workers, attributes crashes/hangs/exits to the case that caused them, shrinks
// failures and writes replay files and evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) {
    uint64_t z = seed;
    for (int i = 0; i < 2; i++) {
      z += 0x9E3779B97F4A7C15ULL;
      uint64_t x = z;
      x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
      x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
      s[i] = x ^ (x >> 31);
    }
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t u64() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    const uint64_t r = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
  }
  // inclusive
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
    if (span == 0) return (int64_t)u64();
    return (int64_t)((uint64_t)lo + u64() % span);
  }
  bool chance(double p) { return (double)(u64() >> 11) / 9007199254740992.0 < p; }
  double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[(size_t)range(0, (int64_t)v.size() - 1)];
  }
  // log-uniform integer in [lo,hi], lo>=1
  int64_t logrange(int64_t lo, int64_t hi);
};

typedef std::vector<int64_t> Row;

struct Case {
  std::map<std::string, std::string> h;
  std::vector<Row> ops;
  int64_t geti(const std::string &k, int64_t d = 0) const;
  double getd(const std::string &k, double d = 0) const;
  std::string gets(const std::string &k, const std::string &d = "") const;
  void seti(const std::string &k, int64_t v);
  void sets(const std::string &k, const std::string &v) { h[k] = v; }
  std::string text() const;
};

enum Status { PASS = 0, FAIL = 1, DISCARD = 2 };

struct Outcome {
  Status st = PASS;
  std::string key;  // failure class; shrinking preserves it
  std::string msg;
  bool nontrivial = false;
  std::vector<std::string> labels;
  static Outcome fail(const std::string &key, const std::string &msg) {
    Outcome o;
    o.st = FAIL;
    o.key = key;
    o.msg = msg;
    return o;
  }
  static Outcome discard() {
    Outcome o;
    o.st = DISCARD;
    return o;
  }
  void label(const std::string &l) { labels.push_back(l); }
};

struct Ctx {
  std::string scratch;  // private scratch directory of the running case
  uint64_t seed = 0;    // per-case seed (deterministic)
  bool replay = false;
};

struct Suite {
  std::string name;
  std::string rule;  // how cases are made and what makes one non-trivial
  std::function<Case(Rng &, int size)> gen;
  std::function<Outcome(const Case &, Ctx &)> check;
  int64_t n_quick = 1000, n_thorough = 20000;
  int batch = 64;
  double cpu_limit_s = 20;    // per-case CPU limit
  double wall_limit_s = 120;  // per-case wall limit
  bool shrink_header = true;
  int workers = 8;
  int attempts = 1;  // schedule-dependent suites: how often a case is run until it fails
};

struct Property {
  std::string id;
  std::vector<Suite> suites;
  std::vector<std::string> assumptions;
};

// registered by the property sources
void register_property(const Property &p);
struct Reg {
  explicit Reg(const std::function<Property()> &f) { register_property(f()); }
};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool write_file(const std::string &path, const std::string &data);
bool read_file(const std::string &path, std::string &out);
void rm_rf_under(const std::string &root, const std::string &path);

struct ProcResult {
  int rc = -1;         // exit code, or 128+signal
  bool timeout = false;
  std::string out, err;
};
// run argv with cwd, capture output, kill after timeout_s
ProcResult run_proc(const std::vector<std::string> &argv, const std::string &cwd,
                    double timeout_s, const std::string &scratch, const std::vector<std::string> &env = {});

int pbt_main(int argc, char **argv);

}  // namespace pbt

#define PFAIL(key, ...) return pbt::Outcome::fail(key, pbt::strf(__VA_ARGS__))
