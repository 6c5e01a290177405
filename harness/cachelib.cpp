#include "cachelib.h"
#include "cworld.h"

#include "dataStructure/hashtable/hashtable.h"

namespace cl {

// composite algorithms around another main cache than the default one
template <cache_t *(*INIT)(common_cache_params_t, const char *)>
static cache_t *with_slru(common_cache_params_t cc, const char *p) { return INIT(cc, p ? p : "main-cache=SLRU"); }
template <cache_t *(*INIT)(common_cache_params_t, const char *)>
static cache_t *with_hyperbolic(common_cache_params_t cc, const char *p) { return INIT(cc, p ? p : "main-cache=Hyperbolic"); }

const std::vector<Algo> &algos() {
  static const std::vector<Algo> v = {
      {"LRU", LRU_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"FIFO", FIFO_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"Clock", Clock_init, F_TOEVICT|F_EVICT1|F_EXACT, {"n-bit-counter=2", "n-bit-counter=3"}},
      {"Sieve", Sieve_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"SLRU", SLRU_init, F_TOEVICT|F_EVICT1|F_HITEVICTS|F_COMPOSITE, {"n-seg=2", "n-seg=3", "seg-size=1:2:3", "seg-size=4:3:2:1", "n-seg=1"}},
      {"LFU", LFU_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"LFUCpp", LFUCpp_init, F_EVICT1|F_EXACT, {}},
      {"LFUDA", LFUDA_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"GDSF", GDSF_init, F_EVICT1|F_EXACT, {}},
      {"ARC", ARC_init, F_EVICT1|F_EXACT|F_GHOST, {}},
      {"TwoQ", TwoQ_init, F_COMPOSITE|F_GHOST|F_SPILL, {"Ain-size-ratio=0.5,Aout-size-ratio=0.5", "Ain-size-ratio=0.1,Aout-size-ratio=1", "Ain-size-ratio=0.75,Aout-size-ratio=0.2"}},
      {"S3FIFO", S3FIFO_init, F_COMPOSITE|F_GHOST, {"fifo-size-ratio=0.25,ghost-size-ratio=0.5,move-to-main-threshold=1", "fifo-size-ratio=0.5,move-to-main-threshold=2", "fifo-size-ratio=0.3,ghost-size-ratio=0,move-to-main-threshold=3"}},
      {"QDLP", QDLP_init, F_COMPOSITE|F_GHOST|F_SPILL, {"fifo-size-ratio=0.25,main-cache=LRU", "main-cache=FIFO,move-to-main-threshold=2", "main-cache=sieve", "fifo-size-ratio=0.3,ghost-size-ratio=0.4,main-cache=clock", "main-cache=clock2", "main-cache=clock3", "main-cache=ARC", "main-cache=twoQ,fifo-size-ratio=0.2"}},
      {"Belady", Belady_init, F_TOEVICT|F_EVICT1|F_EXACT|F_ORACLE, {}},
      {"BeladySize", BeladySize_init, F_EVICT1|F_EXACT|F_ORACLE|F_RANDOM|F_DROPDEAD, {"n-sample=8"}},
      {"Hyperbolic", Hyperbolic_init, F_TOEVICT|F_EVICT1|F_EXACT|F_RANDOM, {"n-sample=8"}},
      {"LeCaR", LeCaR_init, F_TOEVICT|F_EVICT1|F_EXACT|F_RANDOM, {"update-weight=0,lru-weight=0.8"}},
      {"Cacheus", Cacheus_init, F_COMPOSITE|F_RANDOM|F_NOMETA|F_MAYREFUSE|F_SPILL, {}},
      {"LHD", LHD_init, F_TOEVICT|F_EVICT1|F_EXACT|F_RANDOM|F_OPAQUE|F_FIXEDSIZE, {}},
      {"GLCache", GLCache_init, F_LARGE|F_NOREMOVE|F_RANDOM|F_TIMED, {}},
      {"WTinyLFU", WTinyLFU_init, F_COMPOSITE|F_TIMED|F_SPILL|F_HITEVICTS, {"main-cache=LRU,window-size=0.1", "main-cache=SLRU,window-size=0.3", "main-cache=LFU", "main-cache=FIFO", "main-cache=ARC", "main-cache=clock", "main-cache=SIEVE"}},
      {"LIRS", LIRS_init, F_LARGE|F_COMPOSITE|F_NOMETA|F_NOEVICTOP|F_NOCANINS|F_MAYREFUSE, {}},
      {"Random", Random_init, F_EVICT1|F_EXACT|F_RANDOM, {}},
      {"MRU", MRU_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"CR_LFU", CR_LFU_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"Size", Size_init, F_TOEVICT|F_EVICT1|F_EXACT, {}},
      {"RandomTwo", RandomTwo_init, F_EVICT1|F_EXACT|F_RANDOM, {}},
      {"RandomLRU", RandomLRU_init, F_EVICT1|F_EXACT|F_RANDOM, {"n-samples=4"}},
      {"LRU_Prob", LRU_Prob_init, F_TOEVICT|F_EVICT1|F_EXACT|F_RANDOM, {"prob=0.9","prob=0.05"}},
      {"FIFO_Merge", FIFO_Merge_init, F_EVICT1|F_RANDOM, {"n-exam=3,n-keep=1", "n-exam=8,n-keep=4", "n-exam=5,n-keep=2,retain-policy=recency", "n-exam=4,n-keep=3,retain-policy=none","n-exam=6,n-keep=1,retain-policy=belady"}},
      {"SFIFO", SFIFO_init, F_COMPOSITE|F_HITEVICTS, {"n-seg=2","n-seg=3","n-seg=1"}},
      {"S3LRU", S3LRU_init, F_NOMETA|F_COMPOSITE|F_GHOST|F_SPILL, {}},
      {"QDLP+SLRU", with_slru<QDLP_init>, F_COMPOSITE|F_GHOST|F_SPILL|F_HITEVICTS|F_MAYREFUSE, {"main-cache=SLRU,fifo-size-ratio=0.3"}},
      {"QDLP+random", with_hyperbolic<QDLP_init>, F_COMPOSITE|F_GHOST|F_SPILL|F_RANDOM, {"main-cache=LeCaR", "main-cache=Hyperbolic,fifo-size-ratio=0.3"}},
      {"WTinyLFU+random", with_hyperbolic<WTinyLFU_init>, F_COMPOSITE|F_TIMED|F_SPILL|F_HITEVICTS|F_RANDOM, {"main-cache=LeCaR", "main-cache=Hyperbolic,window-size=0.2"}},
      {"S3FIFOd", S3FIFOd_init, F_COMPOSITE|F_GHOST|F_SPILL, {}},
  };
  return v;
}
const Algo *find_algo(const std::string &name) {
  for (auto &a : algos())
    if (name == a.name) return &a;
  return nullptr;
}

cache_t *make_cache(const std::string &algo, int64_t size, const std::string &params, bool md, int hashpower,
                    int64_t ttl) {
  const Algo *a = find_algo(algo);
  if (!a) return nullptr;
  common_cache_params_t cc;
  memset(&cc, 0, sizeof cc);
  cc.cache_size = (uint64_t)size;
  cc.default_ttl = (uint64_t)ttl;
  cc.hashpower = hashpower;
  cc.consider_obj_metadata = md;
  return a->init(cc, params.empty() ? nullptr : params.c_str());
}

obj_id_t map_id(int64_t idx, int64_t mode) {
  uint64_t i = (uint64_t)idx;
  switch (mode) {
    case 0: return i;
    case 1: return (i + 1) * 0x9E3779B97F4A7C15ULL;  // spread over 64 bits
    case 2: return (i + 1) << 33;                    // only high bits differ
    default: return 0x7fffffff00000000ULL + i * 512; // big, block aligned
  }
}

void fill_req(request_t *req, obj_id_t id, int64_t size, int64_t time, int64_t next_vtime) {
  memset(req, 0, sizeof *req);
  req->obj_id = id;
  req->obj_size = size;
  req->clock_time = time;
  req->op = OP_GET;
  req->valid = true;
  req->hv = 0;
  req->ttl = 0;
  req->next_access_vtime = next_vtime;
}

std::vector<int64_t> next_access(const std::vector<Row> &ops, int get_kind) {
  std::vector<int64_t> nx(ops.size(), INT64_MAX);
  // position among GETs, 1-based
  std::vector<int64_t> pos(ops.size(), 0);
  int64_t p = 0;
  for (size_t i = 0; i < ops.size(); i++)
    if (ops[i].size() > 1 && ops[i][0] == get_kind) pos[i] = ++p;
  std::unordered_map<int64_t, int64_t> last;
  for (size_t i = ops.size(); i-- > 0;) {
    if (ops[i].size() < 2) continue;
    auto it = last.find(ops[i][1]);
    if (it != last.end()) nx[i] = it->second;
    if (pos[i]) last[ops[i][1]] = pos[i];
  }
  return nx;
}

void gen_stream(Rng &r, int size, const StreamOpt &o, Case &c) {
  int nops = (int)r.range(8, std::max<int64_t>(10, (int64_t)o.max_ops * (size + 5) / 105));
  int nobj = (int)r.range(2, std::max<int64_t>(4, std::min<int64_t>(o.max_obj, 4 + nops / 4)));
  // object sizes
  int kind = r.chance(0.35) ? 0 : (int)r.range(1, 4);
  std::vector<int64_t> osz((size_t)nobj);
  int64_t base = r.logrange(1, 2000);
  for (auto &s : osz) switch (kind) {
      case 0: s = 1; break;
      case 1: s = r.range(1, 10); break;
      case 2: s = base; break;
      case 3: s = r.logrange(1, 5000); break;
      default: s = r.chance(0.85) ? r.range(1, 8) : r.range(20, 120);
    }
  int64_t total = 0;
  for (auto s : osz) total += s;
  double frac = r.pick(std::vector<double>{0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1.1});
  int64_t cs = (int64_t)((double)total * frac * (0.6 + 0.8 * r.unit()));
  if (cs < 1) cs = 1;
  c.seti("csize", cs);
  c.seti("idmode", r.range(0, 3));
  int wsum = 0;
  for (int w : o.weights) wsum += w;
  // access pattern: phases
  std::vector<int64_t> perm((size_t)nobj);
  for (int i = 0; i < nobj; i++) perm[(size_t)i] = i;
  int64_t scan = 0, last = 0;
  int phase_left = 0, phase = 0;
  double skew = 1;
  int64_t lo = 0, hi = nobj - 1;
  for (int i = 0; i < nops; i++) {
    if (phase_left-- <= 0) {
      phase = (int)r.range(0, 4);
      phase_left = (int)r.range(5, 60);
      skew = 0.5 + 2.5 * r.unit();
      lo = r.range(0, nobj - 1);
      hi = r.range(lo, nobj - 1);
      if (r.chance(0.4)) {
        lo = 0;
        hi = nobj - 1;
      }
    }
    int64_t idx;
    switch (phase) {
      case 0: idx = r.range(0, nobj - 1); break;
      case 1: {  // skewed
        double u = r.unit();
        idx = (int64_t)((double)nobj * pow(u, skew + 1));
        if (idx >= nobj) idx = nobj - 1;
        break;
      }
      case 2: idx = lo + (scan++ % (hi - lo + 1)); break;  // loop / scan
      case 3: idx = r.chance(0.5) ? last : r.range(lo, hi); break;  // repeats
      default: idx = r.range(lo, hi);
    }
    last = idx;
    int64_t k = 0;
    if (wsum > 0) {
      int64_t w = r.range(0, wsum - 1);
      for (size_t q = 0; q < o.weights.size(); q++) {
        if (w < o.weights[q]) {
          k = (int64_t)q;
          break;
        }
        w -= o.weights[q];
      }
    }
    int64_t sz = osz[(size_t)idx];
    if (!o.fixed_size_per_obj && r.chance(0.25)) sz = kind == 0 ? 1 : r.range(1, std::max<int64_t>(1, 2 * sz));
    c.ops.push_back({k, idx, sz, r.chance(0.7) ? r.range(0, 2) : r.range(0, 400)});
  }
}

Case gen_history(Rng &r, int size, const HistOpt &o) {
  Case c;
  bool md = !(o.forbid & F_NOMETA) && r.chance(0.25);
  bool fixed = !r.chance(o.size_change);
  std::vector<const Algo *> pool;
  const char *only = getenv("PBT_ALGO");
  for (auto &a : algos()) {
    if (only && strcmp(only, a.name)) continue;
    if (a.flags & o.forbid) continue;
    if ((a.flags & F_LARGE) && !o.large) continue;
    if ((a.flags & o.require) != o.require) continue;
    if (!o.names.empty() && std::find(o.names.begin(), o.names.end(), a.name) == o.names.end()) continue;
    pool.push_back(&a);
  }
  if (pool.empty()) return c;
  const Algo *a = r.pick(pool);
  if (a->flags & F_NOMETA) md = false;
  if (a->flags & F_FIXEDSIZE) fixed = true;
  c.sets("algo", a->name);
  if (!a->params.empty() && r.chance(0.5)) c.sets("params", r.pick(a->params));
  c.seti("md", md);
  StreamOpt so;
  so.max_ops = o.max_ops;
  so.fixed_size_per_obj = fixed;
  so.weights = o.weights;
  gen_stream(r, size, so, c);
  int64_t cs = c.geti("csize");
  if (md) cs += r.range(0, 200);
  if ((a->flags & F_COMPOSITE) && r.chance(0.85)) {
    int64_t mx = 1;
    for (auto &op : c.ops) mx = std::max(mx, op[2]);
    int64_t f = r.range(2, 24);
    if (cs < mx * f) cs = mx * f + r.range(0, mx);
    if (cs < 20) cs = 20 + r.range(0, 20);
  }
  c.seti("csize", cs);
  c.seti("hp", r.range(4, 9));
  c.seti("rseed", r.range(1, 1000));
  return c;
}

}  // namespace cl

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=1:"
         "detect_odr_violation=0:quarantine_size_mb=16:handle_abort=1:handle_sigfpe=1:max_allocation_size_mb=3000";
}
