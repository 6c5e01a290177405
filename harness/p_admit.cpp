// P18: admission policies, alone and inside every cache.
#include <cmath>

#include "cachelib.h"
#include "cworld.h"
#include "models.h"

using namespace cl;
using namespace pbt;

// ------------------------------------------------------------------ policies alone
struct PolicyOracle {
  std::string kind;
  int64_t thr = INT64_MAX;
  double p = 0.5;
  std::set<int64_t> seen;
  // 0 reject, 1 admit, -1 either
  int expect(int64_t idx, int64_t size) {
    if (kind == "size") return size < thr;
    if (kind == "bloomfilter") {
      bool s = seen.count(idx);
      seen.insert(idx);
      return s;
    }
    return p >= 1 ? 1 : -1;
  }
};

static PolicyOracle oracle_of(const Case &k) {
  PolicyOracle o;
  o.kind = k.gets("policy", "size");
  o.thr = k.geti("default") ? INT64_MAX : k.geti("thr", 10);
  o.p = k.geti("default") ? 0.5 : (double)clampi(k.geti("p1000", 500), 1, 1000) / 1000;
  return o;
}
static admissioner_t *policy_of(const Case &k) {
  std::string kind = k.gets("policy", "size");
  bool def = k.geti("default");
  if (kind == "size") {
    std::string s = strf(k.geti("hex") ? "size=0x%llx" : "size=%lld", (long long)k.geti("thr", 10));
    return create_admissioner(k.geti("upper") ? "SIZE" : "size", def ? nullptr : s.c_str());
  }
  if (kind == "bloomfilter") return create_admissioner(k.geti("upper") ? "bloom-filter" : "bloomfilter", nullptr);
  std::string s = strf("prob=%.3f", (double)clampi(k.geti("p1000", 500), 1, 1000) / 1000);
  return create_admissioner("prob", def ? nullptr : s.c_str());
}
static void gen_policy(Rng &r, Case &c, bool with_prob) {
  int q = (int)r.range(0, with_prob ? 2 : 1);
  c.sets("policy", q == 0 ? "size" : q == 1 ? "bloomfilter" : "prob");
  c.seti("default", r.chance(0.1));
  c.seti("upper", r.chance(0.2));
  if (q == 0) {
    c.seti("thr", r.chance(0.1) ? r.pick(std::vector<int64_t>{1, 0, (int64_t)1 << 32, ((int64_t)1 << 31) + 5, (int64_t)1 << 40, 5000000000LL})
                                : r.logrange(1, 4000));
    c.seti("hex", r.chance(0.1));
  }
  if (q == 2) c.seti("p1000", r.chance(0.1) ? r.pick(std::vector<int64_t>{1, 999, 1000}) : r.range(1, 1000));
}

static Case gen_unit(Rng &r, int size) {
  Case c;
  gen_policy(r, c, true);
  c.seti("idmode", r.range(0, 3));
  int64_t n = r.range(5, 40 + 6 * size), nobj = r.range(1, 5 + n / 3), thr = c.geti("thr", 50);
  bool prob = c.gets("policy") == "prob";
  for (int64_t i = 0; i < n; i++) {
    int64_t sz = r.chance(0.4) ? std::max<int64_t>(0, thr + r.range(-2, 2)) : r.chance(0.1) ? thr + ((int64_t)1 << 32) : r.logrange(1, 10000);
    // 0: ask (so many times); 1: replace by a clone; 2: ask about so many objects in a row
    c.ops.push_back({(!prob && r.chance(0.03)) ? 1 : 0, r.range(0, nobj - 1), sz});
    if (!prob && r.chance(0.01)) {
      c.ops.back().push_back(r.chance(0.4) ? r.range(120, 300) : r.logrange(2, 2000));
      if (c.ops.back()[0] == 0 && r.chance(0.3)) c.ops.back()[0] = 2;
    }
  }
  if (!prob && r.chance(0.01)) c.ops.insert(c.ops.begin() + r.range(0, (int64_t)c.ops.size() - 1), {0, r.range(0, nobj - 1), thr - 1, r.range(32760, 70000)});
  c.seti("nprob", r.range(2000, 12000));
  c.seti("rseed", r.range(1, 100000));
  c.seti("nthreads", 0);
  return c;
}

static Outcome check_unit(const Case &k, Ctx &) {
  PolicyOracle o = oracle_of(k);
  admissioner_t *a = policy_of(k);
  if (!a) PFAIL("not-created", "the policy could not be created");
  set_rand_seed((uint64_t)k.geti("rseed", 1));
  int64_t mode = k.geti("idmode"), yes = 0, no = 0, clones = 0, bursts = 0;
  request_t q;
  Outcome out;
  if (o.kind == "prob") {
    if (k.geti("rseed") % 3 == 0) {  // a clone has the same probability
      admissioner_t *b = a->clone(a);
      a->free(a);
      a = b;
    }
    int64_t n = clampi(k.geti("nprob", 4000), 100, 100000), adm = 0, half = 0;
    for (int64_t i = 0; i < n; i++) {
      const Row &r = k.ops.empty() ? Row{0, 0, 1} : k.ops[(size_t)i % k.ops.size()];
      if (r.size() < 3) continue;
      fill_req(&q, map_id(clampi(r[1], 0, 1 << 20), mode), r[2], i, INT64_MAX);
      bool v = a->admit(a, &q);
      adm += v;
      if (i < n / 2) half += v;
    }
    a->free(a);
    double sd = sqrt((double)n * o.p * (1 - o.p));
    if (fabs((double)adm - (double)n * o.p) > 6.5 * sd + 2)
      PFAIL("prob-share", "%lld of %lld requests admitted with probability %.4f (expected %.0f +- %.0f)", (long long)adm, (long long)n, o.p,
            (double)n * o.p, sd);
    double sdh = sqrt((double)n / 2 * o.p * (1 - o.p));
    if (fabs((double)half - (double)(n / 2) * o.p) > 6.5 * sdh + 2)
      PFAIL("prob-share", "%lld of the first %lld requests admitted with probability %.4f", (long long)half, (long long)n / 2, o.p);
    out.nontrivial = true;
    out.label("policy:prob");
    return out;
  }
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 3) continue;
    int64_t idx = clampi(r[1], 0, 1 << 20);
    if (r[0] == 1) {
      admissioner_t *b = a->clone(a);
      if (!b) PFAIL("not-cloned", "op %zu: the policy could not be cloned", i);
      // the original goes on as before next to its clone; then it is dropped
      fill_req(&q, map_id(idx, mode), r[2], (int64_t)i, INT64_MAX);
      int e = o.expect(idx, r[2]);
      bool g = a->admit(a, &q);
      if (e >= 0 && g != (e == 1)) PFAIL("original-disturbed", "op %zu: after cloning, object %lld size %lld %s", i, (long long)idx, (long long)r[2], g ? "admitted" : "rejected");
      a->free(a);
      a = b;
      o.seen.clear();  // a clone of the Bloom filter policy starts with nothing seen
      clones++;
      continue;
    }
    int64_t reps = r.size() > 3 ? clampi(r[3], 1, 70000) : 1;
    bursts += reps > 200;
    for (int64_t j = 0; j < reps; j++) {
      int64_t id = r[0] == 2 ? clampi(idx + j % 4096, 0, 1 << 20) : idx;
      fill_req(&q, map_id(id, mode), r[2], (int64_t)i, INT64_MAX);
      int e = o.expect(id, r[2]);
      bool g = a->admit(a, &q);
      if (e >= 0 && g != (e == 1))
        PFAIL("decision", "op %zu (time %lld): object %lld of size %lld %s by policy %s (threshold %lld, %s)", i, (long long)j, (long long)id,
              (long long)r[2], g ? "admitted" : "rejected", o.kind.c_str(), (long long)o.thr, e ? "to be admitted" : "to be rejected");
      (g ? yes : no)++;
    }
  }
  a->free(a);
  out.nontrivial = yes > 0 && no > 0;
  out.label("policy:" + o.kind);
  if (clones) out.label("cloned");
  if (bursts) out.label("long-run");
  return out;
}

// ------------------------------------------------------------------ in a cache
// wraps the real policy and records what it was asked and what it answered
struct Spy {
  admissioner_t *inner = nullptr;
  int asked = 0, answer = -1, id_ok = 1;
  obj_id_t want = 0;
};
static bool spy_admit(admissioner_t *a, const request_t *req) {
  Spy *s = (Spy *)a->params;
  bool v = s->inner->admit(s->inner, req);
  s->asked++;
  s->answer = v;
  if (req->obj_id != s->want) s->id_ok = 0;
  return v;
}
static void spy_free(admissioner_t *a) {
  Spy *s = (Spy *)a->params;
  s->inner->free(s->inner);
  delete s;
  free(a);
}
static admissioner_t *spy(admissioner_t *inner) {
  admissioner_t *a = (admissioner_t *)calloc(1, sizeof(admissioner_t));
  Spy *s = new Spy;
  s->inner = inner;
  a->admit = spy_admit;
  a->params = s;
  a->free = spy_free;
  a->clone = nullptr;
  return a;
}

static Case gen_cache(Rng &r, int size) {
  HistOpt o;
  o.max_ops = 300;
  o.size_change = 0;
  o.forbid = F_LARGE;
  o.weights = {90, 0, 5, 0, 0, 3, 0, 1};
  if (r.chance(0.25)) o.names = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "SLRU"};
  Case c = gen_history(r, size, o);
  gen_policy(r, c, true);
  if (c.gets("policy") == "size") {  // a threshold that splits the objects
    int64_t i = r.range(0, (int64_t)c.ops.size() - 1);
    c.seti("thr", std::max<int64_t>(1, c.ops[(size_t)i][2] + r.range(0, 1)));
  }
  c.seti("born", r.range(0, 2));  // policy installed on the cache, inherited by clone, by re-sizing
  return c;
}

static Outcome check_cache(const Case &k, Ctx &) {
  World w;
  if (!w.init(k) || k.ops.empty()) return Outcome::discard();
  const Algo *a = w.a;
  PolicyOracle o = oracle_of(k);
  admissioner_t *pol = policy_of(k);
  if (!pol) PFAIL("not-created", "the policy could not be created");
  int64_t born = clampi(k.geti("born"), 0, 2);
  if (born) {
    w.c->admissioner = pol;
    cache_t *n = born == 1 ? clone_cache(w.c) : create_cache_with_new_size(w.c, (uint64_t)w.csize);
    if (!n->admissioner) PFAIL("policy-lost", "%s: the new cache has no admission policy", born == 1 ? "clone_cache" : "create_cache_with_new_size");
    w.c->cache_free(w.c);
    w.c = n;
    pol = n->admissioner;
  }
  w.c->admissioner = spy(pol);
  Spy *s = (Spy *)w.c->admissioner->params;
  std::unique_ptr<mdl::Model> m;
  if (!(a->flags & F_GHOST)) m = mdl::make_queue_model(a->name, k.gets("params"), w.csize, w.md);
  auto nx = next_access(k.ops);
  int64_t rejected = 0, admitted = 0, hits = 0, n = 0;
  std::set<int64_t> before = w.resident_set();
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t idx = w.idx_of(r), sz = World::size_of(r);
    int64_t kind = clampi(r[0], 0, K_N - 1);
    s->asked = 0;
    s->answer = -1;
    s->want = w.ids[(size_t)idx];
    if (kind == K_REMOVE) {
      w.c->remove(w.c, w.ids[(size_t)idx]);
      if (m) m->remove(idx);
    } else if (kind == K_PEEK || kind == K_GETTERS) {
      w.peek(idx);
      if (s->asked) PFAIL("peek-asks", "op %zu: a lookup consulted the admission policy", i);
    } else {
      n++;
      bool h = w.get(r, nx[i]);
      if (h != (before.count(idx) > 0))
        PFAIL("hit-truth", "op %zu: request for %lld reported %s, but it was %sresident", i, (long long)idx, h ? "a hit" : "a miss", before.count(idx) ? "" : "not ");
      std::set<int64_t> after = w.resident_set();
      bool fits = sz + w.md <= w.csize;
      if (!s->id_ok) PFAIL("wrong-request", "op %zu: the policy was asked about another object than %lld", i, (long long)idx);
      if (h) {
        hits++;
        if (s->asked) PFAIL("hit-asks", "op %zu: a hit consulted the admission policy", i);
        if (!after.count(idx) && !(a->flags & (F_DROPDEAD | F_HITEVICTS))) PFAIL("hit-lost", "op %zu: object %lld vanished on a hit", i, (long long)idx);
      } else {
        if (after.count(idx) && !s->asked) PFAIL("bypassed", "op %zu: object %lld admitted without asking the policy", i, (long long)idx);
        if (s->asked) {
          int e = o.expect(idx, sz);
          if (e >= 0 && (e == 1) != (s->answer == 1))
            PFAIL("decision", "op %zu: object %lld (size %lld) %s by policy %s", i, (long long)idx, (long long)sz, s->answer ? "admitted" : "rejected", o.kind.c_str());
          if (s->asked > 1) PFAIL("asked-twice", "op %zu: the policy was consulted %d times for one request", i, s->asked);
        }
        if (s->asked && !s->answer) {
          rejected++;
          if (after.count(idx)) PFAIL("rejected-resident", "op %zu: object %lld was rejected but is resident", i, (long long)idx);
          if (after != before && !(a->flags & (F_NOCANINS | F_DROPDEAD)))
            PFAIL("rejected-evicts", "op %zu: rejecting object %lld changed the residents from %s to %s", i, (long long)idx, show_set(before).c_str(), show_set(after).c_str());
        } else if (s->asked && fits) {
          admitted++;
          if (!after.count(idx) && !(a->flags & (F_MAYREFUSE | F_DROPDEAD | F_COMPOSITE)))
            PFAIL("admitted-absent", "op %zu: object %lld (size %lld in a cache of %lld) was admitted but is not resident", i, (long long)idx, (long long)sz, (long long)w.csize);
        } else if (!s->asked && fits && !(a->flags & (F_MAYREFUSE | F_COMPOSITE))) {
          PFAIL("never-asked", "op %zu: a miss on object %lld, which fits, did not consult the policy", i, (long long)idx);
        }
      }
      if (m) {
        mdl::Req q{idx, sz, nx[i], n};
        bool mh = m->hit(q);
        if (mh != h) PFAIL("model-hit", "op %zu: request for %lld %s, the model with the same admissions says %s", i, (long long)idx, h ? "hit" : "missed", mh ? "hit" : "miss");
        if (!mh && s->answer == 1 && m->admits(q)) {
          while (m->bytes() + sz + w.md > w.csize) m->evict(q);
          m->insert(q);
        }
      }
      before = after;
    }
    std::set<int64_t> now = w.resident_set();
    if (m) {
      std::set<int64_t> ms;
      m->collect(ms);
      if (ms != now) PFAIL("model-residents", "op %zu: cached %s, the model with the same admissions has %s", i, show_set(now).c_str(), show_set(ms).c_str());
    }
    before = now;
  }
  Outcome out;
  out.nontrivial = rejected > 0 && admitted > 1 && hits > 0;
  out.label(std::string("algo:") + a->name);
  out.label("policy:" + o.kind);
  if (born) out.label("inherited");
  return out;
}

static Reg r18([] {
  Property p;
  p.id = "P18";
  Suite u;
  u.name = "policy";
  u.rule = "5-640 requests with sizes around the threshold (including thresholds above 2^32) and 64-bit ids put to one policy, with runs of up to 70000 sightings of one object or of distinct ones, replaced by clones on the way; size and Bloom-filter policies against the exact rule, the probabilistic one within 6.5 standard deviations over 2000-12000 draws; non-trivial: both answers occurred (prob: always)";
  u.gen = gen_unit;
  u.check = check_unit;
  u.n_quick = 24000;
  u.n_thorough = 100000;
  Suite s;
  s.name = "in-cache";
  s.rule = "histories of gets, removals and lookups on every eviction algorithm with a recorded real policy (installed, or inherited by clone_cache/create_cache_with_new_size): hits never consult it, every insertion does, exactly once, the answer is the policy's rule, a rejected miss changes nothing, an admitted one is resident; FIFO, LRU, MRU, Clock, Sieve, SLRU also against the queue models given the same admissions; non-trivial: rejections, at least 2 admissions and hits";
  s.gen = gen_cache;
  s.check = check_cache;
  s.n_quick = 25000;
  s.n_thorough = 120000;
  p.suites = {u, s};
  return p;
});
