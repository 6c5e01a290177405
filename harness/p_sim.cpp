// P11: simulating several caches in parallel
#include <dlfcn.h>
#include <sched.h>
#include <unistd.h>

#include <map>
#include <mutex>

#include "libCacheSim/simulator.h"
#include "simworld.h"

// the simulator polls for its workers with sleep(2)
extern "C" unsigned int sleep(unsigned int) {
  usleep(200);
  return 0;
}

// schedules: the main thread dawdles after starting a task when the case asks for it
static int g_mainnap = 0;
extern "C" gboolean g_thread_pool_push(GThreadPool *pool, gpointer data, GError **error) {
  static gboolean (*real)(GThreadPool *, gpointer, GError **) =
      (gboolean(*)(GThreadPool *, gpointer, GError **))dlsym(RTLD_NEXT, "g_thread_pool_push");
  gboolean r = real(pool, data, error);
  if (g_mainnap > 0) usleep((useconds_t)g_mainnap);
  return r;
}

namespace {

struct Rec {
  uint64_t id;
  int64_t size, time, next, op;
  bool operator==(const Rec &o) const { return id == o.id && size == o.size && time == o.time && next == o.next && op == o.op; }
};
Rec rec(const request_t *q) { return {q->obj_id, q->obj_size, (int64_t)q->clock_time, q->next_access_vtime, (int64_t)q->op}; }
std::string show(const Rec &r) {
  return strf("id %llu size %lld time %lld next %lld op %lld", (unsigned long long)r.id, (long long)r.size, (long long)r.time, (long long)r.next,
              (long long)r.op);
}

// an "eviction algorithm" that records what it is given, answers by a fixed rule and dawdles
struct Log {
  std::vector<Rec> seen;
  int frees = 0, inits = 0;
};
std::mutex g_mtx;
std::map<uint64_t, Log> g_logs;  // by cache size
int64_t g_naps = 0;

bool answer(uint64_t size, size_t pos, uint64_t id) { return mix(size ^ id, pos) % 3 == 0; }

bool rec_get(cache_t *c, const request_t *q) {
  Log *l = (Log *)c->eviction_params;
  size_t pos = l->seen.size();
  l->seen.push_back(rec(q));
  if (g_naps) {
    uint64_t m = mix(c->cache_size, pos);
    if (m % 5 == 0) sched_yield();
    if ((int64_t)(m % 97) < g_naps) usleep((useconds_t)(m % 251));
  }
  c->n_obj = (int64_t)pos + 1;
  c->occupied_byte = (int64_t)(pos % 7) + 3;
  return answer(c->cache_size, pos, q->obj_id);
}
void rec_free(cache_t *c) {
  {
    std::lock_guard<std::mutex> g(g_mtx);
    ((Log *)c->eviction_params)->frees++;
  }
  c->eviction_params = nullptr;
  cache_struct_free(c);
}
cache_t *rec_init(const common_cache_params_t p, const char *params) {
  cache_t *c = cache_struct_init("recorder", p, params);
  c->cache_init = rec_init;
  c->cache_free = rec_free;
  c->get = rec_get;
  std::lock_guard<std::mutex> g(g_mtx);
  c->eviction_params = &g_logs[p.cache_size];
  ((Log *)c->eviction_params)->inits++;
  return c;
}

std::vector<Rec> read_all(reader_t *rd) {
  std::vector<Rec> v;
  request_t *q = new_request();
  while (read_one_req(rd, q) == 0) v.push_back(rec(q));
  free_request(q);
  return v;
}

// what each cache has to see: warm-up requests, then measured ones
struct Plan {
  std::vector<Rec> v;
  size_t warm = 0;
};
Plan plan(const std::vector<Rec> &warm, const std::vector<Rec> &main, uint64_t n_warm, int64_t warm_sec) {
  Plan p;
  p.v = warm;
  p.warm = warm.size();
  if (main.empty()) return p;
  int64_t t0 = main[0].time;
  size_t i = 0;
  if (n_warm > 0 || warm_sec > 0)
    while (i < main.size() && (i < n_warm || main[i].time - t0 < warm_sec)) i++;
  p.warm += i;
  for (auto r : main) {
    r.time -= t0;
    p.v.push_back(r);
  }
  return p;
}

struct Expect {
  int64_t warm = 0, req = 0, byte = 0, miss = 0, missb = 0, obj = 0, occ = 0, size = 0;
};
std::string judge(const cache_stat_t &s, const Expect &e, const char *name) {
#define CHK(f, x) \
  if (s.f != e.x) return strf(#f " is %lld, expected %lld", (long long)s.f, (long long)e.x);
  CHK(n_warmup_req, warm)
  CHK(n_req, req)
  CHK(n_req_byte, byte)
  CHK(n_miss, miss)
  CHK(n_miss_byte, missb)
  CHK(n_obj, obj)
  CHK(occupied_byte, occ)
  CHK(cache_size, size)
#undef CHK
  if (strncmp(s.cache_name, name, CACHE_NAME_ARRAY_LEN)) return strf("the name is '%.64s', expected '%s'", s.cache_name, name);
  return "";
}

void gen_warm(Rng &r, Case &c) {
  c.seti("wsel", r.chance(0.45) ? 0 : r.range(1, 5));  // 0 none 1 reader 2 fraction 3 seconds 4 reader+fraction 5 fraction+seconds
  c.seti("wfrac", r.chance(0.15) ? 100 : r.range(1, 99));
  c.seti("wsec", r.chance(0.5) ? r.range(1, 30) : r.range(1, 5000));
  c.seti("wn", r.range(1, 80));
  c.seti("mainnap", r.chance(0.5) ? 0 : r.logrange(1, 2000));
  c.seti("from", r.chance(0.3) ? r.range(1, 20) : 0);
  if (r.chance(0.15)) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
}

// everything a simulation is given
struct World {
  File x;
  reader_t *rd = nullptr, *warm = nullptr;
  request_t *q = nullptr;
  std::vector<Rec> main, wmain;
  double frac = 0;
  int sec = 0;
  uint64_t nwarm = 0;
  int64_t from = 0;
  Plan p;
};
bool open_world(const Case &c, Ctx &ctx, World &w) {
  if (c.geti("nullparams")) return false;
  g_mainnap = (int)std::min<int64_t>(3000, std::max<int64_t>(0, c.geti("mainnap")));
  if (!open_case(c, ctx, w.x)) return false;
  w.x.params.p.cap_at_n_req = c.geti("cap", -1);
  if (c.geti("igsize")) w.x.params.p.ignore_obj_size = true;
  w.rd = open_reader(c, w.x);
  w.main = read_all(w.rd);
  reset_reader(w.rd);
  w.from = std::min<int64_t>(std::max<int64_t>(0, c.geti("from")), (int64_t)w.main.size());
  int sel = (int)c.geti("wsel");
  if (sel == 1 || sel == 4) {
    // another trace
    std::string path = ctx.scratch + "/warm.oracleGeneral";
    Case d;
    d.sets("format", "oracleGeneral");
    d.seti("idmode", c.geti("idmode"));
    d.seti("t0", 5);
    int64_t n = std::min<int64_t>(std::max<int64_t>(1, c.geti("wn", 1)), 300);
    for (int64_t i = 0; i < n; i++) {
      const Row &o = c.ops[(size_t)(mix((uint64_t)i, 9) % c.ops.size())];
      if (o.size() < 5) return false;
      d.ops.push_back({0, o[1], o[2], i % 3, 0});
    }
    const Fmt *f = find("oracleGeneral");
    std::vector<TReq> v = requests(d);
    annotate_next(v);
    write_file(path, encode(*f, d, v));
    reader_init_param_t p = default_reader_init_params();
    w.warm = setup_reader(path.c_str(), ORACLE_GENERAL_TRACE, &p);
    w.wmain = read_all(w.warm);
    reset_reader(w.warm);
  }
  if (sel == 2 || sel == 4 || sel == 5) w.frac = (double)(c.geti("wfrac") % 101) / 100.0;
  if (w.frac < 0) w.frac = 0;
  if (sel == 3 || sel == 5) w.sec = (int)std::max<int64_t>(0, c.geti("wsec"));
  w.nwarm = (uint64_t)((double)get_num_of_req(w.rd) * w.frac);
  w.p = plan(w.wmain, w.main, w.nwarm, w.sec);
  // (a repeated request is returned in the request struct of its first occurrence)
  w.q = new_request();
  for (int64_t i = 0; i < w.from; i++) read_one_req(w.rd, w.q);
  return true;
}
// the given readers go on where they were
std::string readers_intact(World &w) {
  request_t *q = w.q;
  std::string bad;
  for (size_t i = (size_t)w.from; i < w.main.size() && bad.empty(); i++) {
    if (read_one_req(w.rd, q) != 0)
      bad = strf("the given reader ends before request %zu of %zu", i, w.main.size());
    else if (!(rec(q) == w.main[i]))
      bad = strf("the given reader returns %s as request %zu, expected %s", show(rec(q)).c_str(), i, show(w.main[i]).c_str());
  }
  if (bad.empty() && read_one_req(w.rd, q) == 0) bad = "the given reader returns more requests than before";
  if (bad.empty() && w.warm) {
    std::vector<Rec> v = read_all(w.warm);
    if (!(v == w.wmain)) bad = "the given warm-up reader does not return its requests any more";
  }
  free_request(q);
  close_reader(w.rd);
  if (w.warm) close_reader(w.warm);
  return bad;
}

std::vector<uint64_t> pick_sizes_sim(const Case &c, int n, int64_t lo, int64_t hi) {
  Rng r((uint64_t)c.geti("sizeseed") + 11);
  std::vector<uint64_t> v;
  for (int i = 0; i < n; i++) v.push_back((uint64_t)r.logrange(lo, hi));
  return v;
}

// ------------------------------------------------------------- recording caches
Case gen_record(Rng &r, int size) {
  Case c;
  gen_trace(r, size, c, 160, false);
  if (r.chance(0.2)) c.seti("back", r.logrange(1, 3000));
  gen_warm(r, c);
  c.seti("ncache", r.chance(0.2) ? 1 : r.range(2, 24));
  c.seti("threads", r.chance(0.3) ? 1 : r.range(2, 9));
  c.seti("api", r.range(0, 2));
  c.seti("keep", r.chance(0.4));
  c.seti("naps", r.chance(0.5) ? 0 : r.range(1, 8));
  return c;
}
Outcome check_record(const Case &c, Ctx &ctx) {
  World w;
  if (!open_world(c, ctx, w)) return Outcome::discard();
  int n = (int)std::min<int64_t>(std::max<int64_t>(1, c.geti("ncache", 1)), 32), th = (int)std::min<int64_t>(std::max<int64_t>(1, c.geti("threads", 1)), 16);
  int api = (int)(c.geti("api") % 3);
  g_naps = c.geti("naps");
  g_logs.clear();
  std::vector<uint64_t> sizes;
  uint64_t step = 10;
  for (int i = 0; i < n; i++) sizes.push_back(api == 2 ? step * (uint64_t)(i + 1) : 100 + (uint64_t)((i * 37) % 101));
  common_cache_params_t cc;
  memset(&cc, 0, sizeof cc);
  cc.hashpower = 3;
  cache_stat_t *res;
  std::vector<cache_t *> cs;
  cache_t *proto = nullptr;
  bool keep = c.geti("keep") != 0;
  if (api == 0) {
    for (auto s : sizes) {
      cc.cache_size = s;
      cs.push_back(rec_init(cc, nullptr));
    }
    res = simulate_with_multi_caches(w.rd, cs.data(), n, w.warm, w.frac, w.sec, th, !keep);
  } else {
    cc.cache_size = api == 1 ? 7 : step * (uint64_t)(n - 1) + (uint64_t)(1 + c.geti("wn") % 10);
    proto = cache_struct_init("recorder", cc, nullptr);
    proto->cache_init = rec_init;
    proto->get = rec_get;
    Log own;
    proto->eviction_params = &own;
    if (api == 1)
      res = simulate_at_multi_sizes(w.rd, proto, n, sizes.data(), w.warm, w.frac, w.sec, th);
    else
      res = simulate_at_multi_sizes_with_step_size(w.rd, proto, step, w.warm, w.frac, w.sec, th);
    if (!own.seen.empty()) PFAIL("given-cache", "the given cache is used for the simulation");
  }
  static const char *an[3] = {"simulate_with_multi_caches", "simulate_at_multi_sizes", "simulate_at_multi_sizes_with_step_size"};
  std::string what = strf("%s, %s, %d caches, %d threads, warm-up %lld", an[api], w.x.f->name, n, th, (long long)c.geti("wsel"));
  for (int i = 0; i < n; i++) {
    Log &l = g_logs[sizes[(size_t)i]];
    if (l.inits != 1) PFAIL("inits", "%s: cache %d is created %d times", what.c_str(), i, l.inits);
    for (size_t k = 0; k < std::max(l.seen.size(), w.p.v.size()); k++) {
      if (k >= l.seen.size()) PFAIL("stream", "%s: cache %d gets %zu of %zu requests", what.c_str(), i, l.seen.size(), w.p.v.size());
      if (k >= w.p.v.size()) PFAIL("stream", "%s: cache %d gets %zu requests instead of %zu", what.c_str(), i, l.seen.size(), w.p.v.size());
      if (!(l.seen[k] == w.p.v[k]))
        PFAIL("stream", "%s: request %zu of cache %d is %s, expected %s", what.c_str(), k, i, show(l.seen[k]).c_str(), show(w.p.v[k]).c_str());
    }
    Expect e;
    e.size = (int64_t)sizes[(size_t)i];
    e.warm = (int64_t)w.p.warm;
    for (size_t k = w.p.warm; k < w.p.v.size(); k++) {
      e.req++;
      e.byte += w.p.v[k].size;
      if (!answer(sizes[(size_t)i], k, w.p.v[k].id)) {
        e.miss++;
        e.missb += w.p.v[k].size;
      }
    }
    e.obj = (int64_t)w.p.v.size();
    e.occ = w.p.v.empty() ? 0 : (int64_t)((w.p.v.size() - 1) % 7) + 3;
    std::string bad = judge(res[i], e, "recorder");
    if (!bad.empty()) PFAIL("result", "%s: result %d: %s", what.c_str(), i, bad.c_str());
    int wantfree = api == 0 && keep ? 0 : 1;
    if (l.frees != wantfree) PFAIL("frees", "%s: cache %d is freed %d times, expected %d", what.c_str(), i, l.frees, wantfree);
  }
  if (api == 0 && keep)
    for (auto q : cs) q->cache_free(q);
  std::string bad = readers_intact(w);
  if (!bad.empty()) PFAIL("reader", "%s: %s", what.c_str(), bad.c_str());
  Outcome o;
  o.nontrivial = n > 1 && w.p.v.size() > 3 && w.p.warm < w.p.v.size();
  o.label(an[api]);
  if (w.p.warm) o.label("warm-up");
  if (th > 1 && n > 1) o.label("parallel");
  return o;
}

// ------------------------------------------------------------- real algorithms
bool simulable(const cl::Algo &a) { return !(a.flags & cl::F_LARGE); }

void decorate(cache_t *c, const Case &k, int64_t size) {
  switch (k.geti("deco")) {
    case 1: c->admissioner = create_admissioner("size", "size=50"); break;
    case 2: c->admissioner = create_admissioner("bloomfilter", nullptr); break;
    case 3: c->admissioner = create_admissioner("prob", "prob=0.5"); break;
    case 4: c->prefetcher = create_prefetcher("PG", "block-size=1", (uint64_t)size); break;
    default: break;
  }
}

Case gen_algos(Rng &r, int size) {
  Case c;
  std::vector<const cl::Algo *> pool;
  const char *only = getenv("PBT_ALGO");
  for (auto &a : cl::algos())
    if (simulable(a) && (!only || !strcmp(only, a.name))) pool.push_back(&a);
  int api = (int)r.range(0, 2);
  c.seti("api", api);
  int n = r.chance(0.15) ? 1 : (int)r.range(2, 7);
  c.seti("ncache", n);
  bool oracle = false, uniform = false;
  std::string names;
  for (int i = 0; i < (api == 0 ? n : 1); i++) {
    const cl::Algo *a = r.pick(pool);
    std::string p = a->params.empty() || r.chance(0.6) ? "" : r.pick(a->params);
    names += (i ? ";" : "") + std::string(a->name) + "|" + p;
    if (a->flags & cl::F_ORACLE) oracle = true;
    if (a->flags & cl::F_UNIFORM) uniform = true;
  }
  c.sets("algos", names);
  gen_trace(r, size, c, 300, oracle);
  if (uniform || r.chance(0.2)) c.seti("igsize", 1);
  gen_warm(r, c);
  c.seti("threads", r.chance(0.3) ? 1 : r.range(2, 9));
  c.seti("keep", r.chance(0.5));
  c.seti("sizeseed", r.range(0, 1 << 20));
  c.seti("hp", r.range(3, 10));
  c.seti("md", r.chance(0.15));
  c.seti("deco", r.chance(0.75) ? 0 : r.range(1, 4));
  return c;
}

Outcome check_algos(const Case &c, Ctx &ctx) {
  struct One {
    const cl::Algo *a;
    std::string params;
  };
  std::vector<One> as;
  {
    std::string s = c.gets("algos") + ";";
    size_t i = 0, j;
    while ((j = s.find(';', i)) != std::string::npos) {
      std::string t = s.substr(i, j - i);
      size_t b = t.find('|');
      if (b == std::string::npos) break;
      const cl::Algo *a = cl::find_algo(t.substr(0, b));
      if (!a || !simulable(*a)) return Outcome::discard();
      as.push_back({a, t.substr(b + 1)});
      i = j + 1;
    }
  }
  if (as.empty()) return Outcome::discard();
  const Fmt *f = find(c.gets("format"));
  bool md = c.geti("md") != 0;
  for (auto &a : as) {
    if ((a.a->flags & cl::F_ORACLE) && (!f || !(f->mask & M_NEXT) || c.geti("deco") == 4 || strncmp(f->name, "oracle", 6))) return Outcome::discard();
    if ((a.a->flags & cl::F_UNIFORM) && !c.geti("igsize")) return Outcome::discard();
    if ((a.a->flags & cl::F_NOMETA) && md) return Outcome::discard();
  }
  int api = (int)(c.geti("api") % 3);
  // Cacheus draws random numbers when it is created
  if (api != 0 && !strcmp(as[0].a->name, "Cacheus")) return Outcome::discard();
  World w;
  if (!open_world(c, ctx, w)) return Outcome::discard();
  int n = (int)std::min<int64_t>(std::max<int64_t>(1, c.geti("ncache", 1)), 12), th = (int)std::min<int64_t>(std::max<int64_t>(1, c.geti("threads", 1)), 16);
  if (api == 0) n = std::min<int>(n, (int)as.size());
  int64_t bytes = 0, maxobj = 1;
  std::unordered_map<uint64_t, int64_t> objs;
  for (auto &r : w.main) {
    objs[r.id] = r.size;
    maxobj = std::max(maxobj, r.size);
  }
  for (auto &kv : objs) bytes += kv.second;
  std::vector<uint64_t> sizes;
  uint64_t step = 0;
  int64_t lo = std::max<int64_t>(20, 4 * maxobj);
  if (md) lo *= 6;
  if (api == 2) {
    step = pick_sizes_sim(c, 1, lo, std::max(lo, bytes))[0];
    for (int i = 0; i < n; i++) sizes.push_back(step * (uint64_t)(i + 1));
  } else {
    sizes = pick_sizes_sim(c, n, lo, std::max(lo, 2 * bytes));
  }
  int hp = (int)std::min<int64_t>(std::max<int64_t>(2, c.geti("hp", 6)), 14);
  auto mk = [&](int i, int64_t size) {
    const One &o = as[api == 0 ? (size_t)i : 0];
    set_rand_seed(1234);
    return cl::make_cache(o.a->name, size, o.params, md, hp);
  };
  std::vector<cache_t *> cs;
  cache_t *proto = nullptr;
  cache_stat_t *res;
  bool keep = c.geti("keep") != 0;
  if (api == 0) {
    for (int i = 0; i < n; i++) {
      cs.push_back(mk(i, (int64_t)sizes[(size_t)i]));
      decorate(cs.back(), c, (int64_t)sizes[(size_t)i]);
    }
    std::vector<cache_t *> copy = cs;
    res = simulate_with_multi_caches(w.rd, copy.data(), n, w.warm, w.frac, w.sec, th, !keep);
  } else {
    int64_t psize = api == 1 ? lo : (int64_t)(step * (uint64_t)(n - 1)) + 1 + (int64_t)((uint64_t)c.geti("sizeseed") % step);
    proto = mk(0, psize);
    decorate(proto, c, psize);
    if (api == 1)
      res = simulate_at_multi_sizes(w.rd, proto, n, sizes.data(), w.warm, w.frac, w.sec, th);
    else
      res = simulate_at_multi_sizes_with_step_size(w.rd, proto, step, w.warm, w.frac, w.sec, th);
  }
  std::string what = strf("api %d, %s, %s, %d caches, %d threads, warm-up %lld", api, c.gets("algos").c_str(), w.x.f->name, n, th, (long long)c.geti("wsel"));
  request_t *q = new_request();
  int64_t someHit = 0, someMiss = 0;
  for (int i = 0; i < n; i++) {
    cache_t *ref = mk(i, (int64_t)sizes[(size_t)i]);
    decorate(ref, c, (int64_t)sizes[(size_t)i]);
    set_rand_seed(0);
    Expect e;
    e.size = (int64_t)sizes[(size_t)i];
    e.warm = (int64_t)w.p.warm;
    for (int phase = 0; phase < 2; phase++) {
      reader_t *rd = phase == 0 ? w.warm : open_reader(c, w.x);
      if (!rd) continue;
      free_request(q);
      q = new_request();
      reader_t *own = phase == 0 ? clone_reader(rd) : rd;
      int64_t t0 = 0;
      size_t pos = 0, warm = phase == 0 ? w.wmain.size() : w.p.warm - w.wmain.size();
      while (read_one_req(own, q) == 0) {
        if (phase == 1) {
          if (pos == 0) t0 = (int64_t)q->clock_time;
          q->clock_time -= t0;
        }
        bool hit = ref->get(ref, q);
        if (pos >= warm) {
          e.req++;
          e.byte += q->obj_size;
          if (!hit) {
            e.miss++;
            e.missb += q->obj_size;
          }
        }
        pos++;
      }
      close_reader(own);
    }
    e.obj = ref->get_n_obj(ref);
    e.occ = ref->get_occupied_byte(ref);
    std::string bad = judge(res[i], e, ref->cache_name);
    if (!bad.empty()) PFAIL("result", "%s: result %d (size %lld): %s", what.c_str(), i, (long long)sizes[(size_t)i], bad.c_str());
    someMiss += e.miss;
    someHit += e.req - e.miss;
    ref->cache_free(ref);
    if (api == 0 && keep) {
      // the caches belong to the caller
      if (cs[(size_t)i]->get_n_obj(cs[(size_t)i]) != e.obj || cs[(size_t)i]->get_occupied_byte(cs[(size_t)i]) != e.occ)
        PFAIL("kept", "%s: cache %d holds %lld objects of %lld bytes after the simulation, expected %lld of %lld", what.c_str(), i,
              (long long)cs[(size_t)i]->get_n_obj(cs[(size_t)i]), (long long)cs[(size_t)i]->get_occupied_byte(cs[(size_t)i]), (long long)e.obj,
              (long long)e.occ);
      cs[(size_t)i]->cache_free(cs[(size_t)i]);
    }
  }
  if (proto) {
    // the given cache is only a pattern
    if (proto->get_n_obj(proto) != 0 || proto->n_req != 0) PFAIL("given-cache", "%s: the given cache is used for the simulation", what.c_str());
    cache_t *ref = mk(0, (int64_t)proto->cache_size);
    decorate(ref, c, (int64_t)proto->cache_size);
    std::vector<bool> a, b;
    for (int k = 0; k < 2; k++) {
      set_rand_seed(0);
      reader_t *rd = open_reader(c, w.x);
      while (read_one_req(rd, q) == 0) (k ? b : a).push_back(k ? ref->get(ref, q) : proto->get(proto, q));
      close_reader(rd);
    }
    if (a != b) PFAIL("given-cache", "%s: the given cache behaves differently after the simulation", what.c_str());
    ref->cache_free(ref);
    proto->cache_free(proto);
  }
  free_request(q);
  free(res);
  std::string bad = readers_intact(w);
  if (!bad.empty()) PFAIL("reader", "%s: %s", what.c_str(), bad.c_str());
  Outcome o;
  o.nontrivial = n > 1 && someHit > 0 && someMiss > (int64_t)objs.size();
  o.label(strf("api%d", api));
  if (w.p.warm) o.label("warm-up");
  if (th > 1) o.label("parallel");
  return o;
}

Property p11() {
  Property p;
  p.id = "P11";
  Suite s;
  s.name = "recorder";
  s.rule = "up to 24 caches of an own algorithm that records every request it is given, answers by a fixed rule per cache and position and naps "
           "at random, through the three simulation functions, 1-9 threads, all kinds of warm-up, capped readers; non-trivial: more than one cache "
           "and measured requests";
  s.gen = gen_record;
  s.check = check_record;
  s.n_quick = 6000;
  s.n_thorough = 150000;
  s.batch = 16;
  s.workers = 12;
  s.attempts = 20;
  p.suites.push_back(s);
  s.name = "algorithms";
  s.rule = "1-7 caches of the real algorithms with admission and prefetching against one replay per cache; non-trivial: several caches, hits, and "
           "more misses than objects";
  s.workers = 8;
  s.gen = gen_algos;
  s.check = check_algos;
  s.n_quick = 6000;
  s.n_thorough = 150000;
  p.suites.push_back(s);
  p.assumptions = {"randomised algorithms are replayed from the seed the simulator sets", "the first request of a simulation is at time 0"};
  return p;
}
Reg r11(p11);
}  // namespace
