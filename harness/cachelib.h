// Driving libCacheSim caches through their public interface.
#pragma once
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

#include "libCacheSim.h"
#include "libCacheSim/evictionAlgo.h"
#include "libCacheSim/admissionAlgo.h"
#include "libCacheSim/prefetchAlgo.h"
#undef MAX
#undef MIN
#include "pbt.h"

extern "C" void set_rand_seed(uint64_t seed);

namespace cl {
using pbt::Case;
using pbt::Ctx;
using pbt::Outcome;
using pbt::Rng;
using pbt::Row;
using pbt::strf;

enum Flags {
  F_TOEVICT = 2,      // to_evict names the object the next evict() removes
  F_ORACLE = 4,       // needs next_access_vtime
  F_EVICT1 = 8,       // evict() removes exactly one resident object
  F_EXACT = 16,       // one region: evicts only when and as much as the incoming object needs
  F_RANDOM = 64,      // randomised
  F_OPAQUE = 128,     // find() returns a token instead of the object
  F_NOMETA = 256,     // excluded when object metadata is charged (known findings)
  F_FIXEDSIZE = 512,  // excluded when object sizes change (known findings)
  F_COMPOSITE = 1024, // partitioned: wants caches of a sensible size
  F_MAYREFUSE = 2048, // admission of an object that fits is not promised
  F_DROPDEAD = 4096,  // forgets objects that are never requested again
  F_NOEVICTOP = 8192, // evict() cannot be called out of context
  F_HITEVICTS = 16384,// promotion on a hit may evict others
  F_NOFINDU = 32768,  // updating find() outside of get() is not supported
  F_GHOST = 65536,    // keeps ghosts
  F_NOCANINS = 131072, // can_insert() may reorganise the cache
  F_TIMED = 262144,     // decisions depend on the hash of ids or on time, not only on the order of requests
  F_LARGE = 1 << 19,      // needs caches of hundreds of objects of the same size: only in long histories
  F_NOREMOVE = 1 << 20,   // user removal is not implemented
  F_UNIFORM = 1 << 21,    // objects of one size only
  F_SPILL = 1 << 22,      // partitions that evict on their own although others have room
};
struct Algo {
  const char *name;
  cache_init_func_ptr init;
  int flags;
  std::vector<const char *> params;  // parameter strings tried besides NULL
};
const std::vector<Algo> &algos();
const Algo *find_algo(const std::string &name);
cache_t *make_cache(const std::string &algo, int64_t size, const std::string &params, bool md, int hashpower = 6,
                    int64_t ttl = 0);

// object ids used by cases: small index -> 64-bit id
obj_id_t map_id(int64_t idx, int64_t mode);

// fill a request for a get of (idx,size) at logical position i
void fill_req(request_t *req, obj_id_t id, int64_t size, int64_t time, int64_t next_vtime);

// generation of request streams -------------------------------------------
struct StreamOpt {
  int max_ops = 300;
  bool fixed_size_per_obj = true;
  std::vector<int> weights;  // of each operation kind, empty: only kind 0 (get)
  int max_obj = 60;
};
void gen_stream(Rng &r, int size, const StreamOpt &o, Case &c);
// next access (1-based index of the next GET of the same object, INT64_MAX when none) per op
std::vector<int64_t> next_access(const std::vector<Row> &ops, int get_kind = 0);

}  // namespace cl
