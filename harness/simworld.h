// Generated traces for simulations: few objects of fixed sizes, requested again and again.
#pragma once
#include "rworld.h"

namespace {

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ULL + b * 0xD1B54A32D192ED03ULL + 0x2545F4914F6CDD1DULL;
  z ^= z >> 29;
  z *= 0xBF58476D1CE4E5B9ULL;
  return z ^ (z >> 32);
}

inline void gen_trace(Rng &r, int size, Case &c, int maxn, bool oracle, bool cli = false, int64_t maxsize = 200) {
  std::vector<const Fmt *> pool;
  for (auto &f : fmts()) {
    if (oracle && !(f.mask & M_NEXT)) continue;
    if (cli && !f.cli) continue;
    pool.push_back(&f);
  }
  const Fmt *f = r.chance(0.4) ? find("oracleGeneral") : r.pick(pool);
  c.sets("format", f->name);
  int n = (int)r.range(1, std::max<int64_t>(4, (int64_t)maxn * (size + 5) / 105));
  int64_t nobj = r.range(1, std::max<int64_t>(2, n / 2));
  c.seti("idmode", r.range(0, 3));
  c.seti("t0", r.chance(0.3) ? 0 : r.range(1, 100000000));
  bool skew = r.chance(0.6);
  int64_t maxsz = r.chance(0.4) ? 1 : r.logrange(2, maxsize), salt = r.range(0, 1 << 20);
  for (int i = 0; i < n; i++) {
    int64_t id = skew ? r.logrange(1, nobj) - 1 : r.range(0, nobj - 1);
    c.ops.push_back({0, id, (int64_t)(mix((uint64_t)id, (uint64_t)salt) % (uint64_t)maxsz) + 1, r.chance(0.6) ? r.range(0, 2) : r.range(0, 300),
                     r.chance(0.5) ? 0 : r.range(1, 1 << 20)});
  }
  gen_shape(r, *f, c);
}

}  // namespace
