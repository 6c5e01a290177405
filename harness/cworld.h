// A live cache plus the shadow bookkeeping the contract checks need.
#pragma once
#include "cachelib.h"

namespace cl {

enum OpKind {
  K_GET = 0,      // request
  K_FINDU = 1,    // find, updating
  K_REMOVE = 2,   // user removal
  K_TOEVICT = 3,  // name the next victim
  K_EVICT = 4,    // user eviction
  K_PEEK = 5,     // find, not updating
  K_CANINS = 6,   // can_insert
  K_GETTERS = 7,  // get_n_obj / get_occupied_byte
  K_N = 8
};

inline int64_t clampi(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }

struct World {
  const Algo *a = nullptr;
  cache_t *c = nullptr;
  int64_t csize = 0, md = 0, idmode = 0, nidx = 0, t = 1, ngets = 0;
  std::vector<obj_id_t> ids;
  request_t req;
  ~World() {
    if (c) c->cache_free(c);
  }
  void init_ids(const Case &k) {
    idmode = k.geti("idmode");
    nidx = 0;
    ids.clear();
    for (auto &o : k.ops)
      if (o.size() > 1) nidx = std::max(nidx, clampi(o[1], 0, 8191) + 1);
    for (int64_t i = 0; i < nidx; i++) ids.push_back(map_id(i, idmode));
  }
  bool init(const Case &k) {
    a = find_algo(k.gets("algo", "LRU"));
    if (!a) return false;
    csize = clampi(k.geti("csize", 1), 1, (int64_t)1 << 40);
    init_ids(k);
    set_rand_seed((uint64_t)k.geti("rseed", 1));
    c = make_cache(a->name, csize, k.gets("params"), k.geti("md") != 0, (int)clampi(k.geti("hp", 6), 4, 20));
    if (!c) return false;
    md = c->obj_md_size;
    return true;
  }
  bool adopt(const Case &k, cache_t *cache) {  // a cache built elsewhere
    a = find_algo(k.gets("algo", "LRU"));
    if (!a || !cache) return false;
    init_ids(k);
    c = cache;
    csize = (int64_t)cache->cache_size;
    md = c->obj_md_size;
    return true;
  }
  int64_t idx_of(const Row &r) const { return clampi(r[1], 0, nidx - 1); }
  static int64_t size_of(const Row &r) { return clampi(r[2], 1, 1 << 30); }
  void fill(request_t *q, const Row &r, int64_t next) { fill_req(q, ids[(size_t)idx_of(r)], size_of(r), t, next); }
  cache_obj_t *peek(int64_t idx) {
    request_t q;
    fill_req(&q, ids[(size_t)idx], 1, t, INT64_MAX);
    return c->find(c, &q, false);
  }
  bool resident(int64_t idx) { return peek(idx) != nullptr; }
  std::set<int64_t> resident_set() {
    std::set<int64_t> s;
    for (int64_t i = 0; i < nidx; i++)
      if (resident(i)) s.insert(i);
    return s;
  }
  bool opaque() const { return a->flags & F_OPAQUE; }  // find() returns a token, not the object
  // a request an eviction is made for: it fits
  void fill_evict(const Row &r, int64_t next) {
    fill_req(&req, ids[(size_t)idx_of(r)], clampi(size_of(r), 1, std::max<int64_t>(1, csize - md)), t, next);
    // QDLP takes no objects larger than its FIFO queue, and its main cache need not expect them
    if (strncmp(a->name, "QDLP", 4) == 0 && !c->can_insert(c, &req)) req.obj_size = 1;
  }
  bool get(const Row &r, int64_t next) {
    t += clampi(r[3], 0, 1 << 20);
    ngets++;
    fill(&req, r, next);
    return c->get(c, &req);
  }
};

inline std::string show_set(const std::set<int64_t> &s) {
  std::string o = "{";
  for (auto x : s) o += strf("%lld ", (long long)x);
  return o + "}";
}
inline std::string show_map(const std::map<int64_t, int64_t> &m) {
  std::string o = "{";
  for (auto &x : m) o += strf("%lld:%lld ", (long long)x.first, (long long)x.second);
  return o + "}";
}
// a history of operations on one algorithm of the pool
struct HistOpt {
  int max_ops = 260;
  int forbid = 0;    // algorithms with any of these flags are not drawn
  bool large = false;  // also the algorithms that need large caches
  std::vector<std::string> names;  // only these, when not empty
  int require = 0;   // algorithms must have all of these flags
  std::vector<int> weights;  // weight of each OpKind (empty: only gets)
  double size_change = 0.25; // probability that a case lets object sizes change
};
Case gen_history(Rng &r, int size, const HistOpt &o);
}  // namespace cl
