// P25: time to live (the library is built with SUPPORT_TTL)
#include <list>
#include <memory>

#include "cworld.h"

#ifndef SUPPORT_TTL
#error "this needs the build with TTL support"
#endif

using namespace pbt;
using namespace cl;

namespace {

// the algorithms that look objects up through cache_find_base, where expiry lives
const std::vector<const char *> &names() {
  static const std::vector<const char *> v = {"FIFO", "LRU",    "MRU",        "Clock", "Sieve",  "LFU",       "LFUCpp",    "LFUDA", "GDSF",  "S3FIFO",
                                              "ARC",  "Belady", "BeladySize", "Size",  "Random", "RandomTwo", "RandomLRU", "LeCaR", "Hyperbolic", "SLRU", "QDLP", "WTinyLFU"};
  return v;
}
// row: 0, object, time to live, time since the previous request, 1 when only looked up
int64_t size_of(const Case &c, int64_t idx) { return (int64_t)((((uint64_t)idx + 3) * 0x9e3779b97f4a7c15ull >> 20) % (uint64_t)clampi(c.geti("maxsize", 1), 1, 1000)) + 1; }

Case gen(Rng &r, int size, bool model) {
  Case c;
  c.sets("algo", model ? r.pick(std::vector<const char *>{"LRU", "FIFO", "MRU"}) : r.pick(names()));
  int64_t nobj = r.logrange(2, 40), maxsize = r.chance(0.5) ? 1 : r.range(2, 30);
  c.seti("maxsize", maxsize);
  c.seti("nobj", nobj);
  bool large = !model && r.chance(0.5);
  c.seti("csize", large ? 1000000 : r.range(std::max<int64_t>(1, maxsize), std::max<int64_t>(2, nobj * (maxsize + 1) / 2)));
  c.seti("md", r.chance(0.25));
  c.seti("ttl", r.chance(0.5) ? 0 : r.logrange(1, 60));
  c.seti("start", r.chance(0.5) ? r.range(0, 100) : r.range(1500000000, 1800000000));
  c.seti("idmode", r.range(0, 3));
  c.seti("rseed", r.range(1, 1000));
  int n = (int)r.range(1, 20 + 3 * size);
  int64_t step = r.chance(0.3) ? 0 : r.logrange(1, 20);
  for (int i = 0; i < n; i++) {
    int64_t ttl = r.chance(0.25) ? 0 : r.chance(0.15) ? -1 : r.logrange(1, r.chance(0.1) ? 10000000 : 80);
    int64_t dt = r.chance(0.5) ? 0 : r.chance(0.9) ? r.range(0, step) : r.range(0, 200);
    c.ops.push_back({0, r.range(0, nobj - 1), ttl, dt, r.chance(0.1)});
  }
  return c;
}
struct Req {
  int64_t idx, ttl, t;
  bool peek;
};
std::vector<Req> requests(const Case &c) {
  std::vector<Req> v;
  int64_t t = clampi(c.geti("start"), 0, 1800000000), nobj = clampi(c.geti("nobj", 2), 1, 1000);
  for (auto &o : c.ops) {
    if (o.size() < 5) continue;
    t += clampi(o[3], 0, 1000);
    v.push_back({clampi(o[1], 0, nobj - 1), clampi(o[2], -1, 100000000), t, o[4] != 0});
  }
  return v;
}
int64_t expiry(const Case &c, const Req &q) {
  int64_t ttl = q.ttl > 0 ? q.ttl : clampi(c.geti("ttl"), 0, 1000000);
  return ttl > 0 ? q.t + ttl : INT64_MAX;
}
void fill(request_t *r, const Case &c, const Req &q, int64_t next) {
  fill_req(r, map_id(q.idx, c.geti("idmode")), size_of(c, q.idx), q.t, next);
  r->ttl = (int32_t)q.ttl;
}

Outcome check_history(const Case &c, Ctx &) {
  const Algo *a = find_algo(c.gets("algo"));
  if (!a) return Outcome::discard();
  bool md = c.geti("md") != 0 && !(a->flags & F_NOMETA);
  int64_t csize = clampi(c.geti("csize", 1), 1, 1 << 30);
  set_rand_seed((uint64_t)c.geti("rseed", 1));
  cache_t *k = make_cache(a->name, csize, "", md, 6, clampi(c.geti("ttl"), 0, 1000000));
  std::unique_ptr<cache_t, void (*)(cache_t *)> guard(k, [](cache_t *x) { x->cache_free(x); });
  std::vector<Req> v = requests(c);
  std::vector<int64_t> next(v.size(), INT64_MAX);
  std::map<int64_t, int64_t> last;
  int64_t total = 0;
  for (size_t i = v.size(); i-- > 0;) {
    if (v[i].peek) continue;
    if (last.count(v[i].idx)) next[i] = last[v[i].idx];
    last[v[i].idx] = (int64_t)i + 1;
  }
  for (auto &p : last) total += size_of(c, p.first) + k->obj_md_size;
  bool room = total <= csize && !(a->flags & (F_COMPOSITE | F_SPILL | F_MAYREFUSE | F_DROPDEAD));  // nothing is ever evicted
  if (csize >= 100000 && total * 4 <= csize && !(a->flags & F_DROPDEAD)) room = true;
  std::map<int64_t, int64_t> exp;                     // expiry of the last insertion
  request_t q;
  memset(&q, 0, sizeof q);
  Outcome o;
  o.label(a->name);
  for (size_t i = 0; i < v.size(); i++) {
    const Req &x = v[i];
    fill(&q, c, x, next[i]);
    bool known = exp.count(x.idx) != 0, dead = known && exp[x.idx] < x.t;
    if (x.peek) {
      bool h = k->find(k, &q, false) != nullptr;
      if (h && !known) PFAIL("ghost", "%s: request %zu finds object %lld, which was never inserted", a->name, i, (long long)x.idx);
      if (h && dead) PFAIL("expired-found", "%s: request %zu at %lld finds object %lld, which expired at %lld", a->name, i, (long long)x.t, (long long)x.idx, (long long)exp[x.idx]);
      if (!h && known && !dead && room)
        PFAIL("early", "%s: request %zu at %lld does not find object %lld, which expires at %lld", a->name, i, (long long)x.t, (long long)x.idx, (long long)exp[x.idx]);
      continue;
    }
    bool h = k->get(k, &q);
    if (h && !known) PFAIL("ghost", "%s: request %zu hits object %lld, which was never inserted", a->name, i, (long long)x.idx);
    if (h && dead)
      PFAIL("expired-hit", "%s: request %zu at %lld hits object %lld, which expired at %lld", a->name, i, (long long)x.t, (long long)x.idx, (long long)exp[x.idx]);
    if (!h && known && !dead && room)
      PFAIL("early", "%s: request %zu at %lld misses object %lld, which expires at %lld", a->name, i, (long long)x.t, (long long)x.idx, (long long)exp[x.idx]);
    if (!h) {
      fill(&q, c, x, next[i]);
      bool in = k->find(k, &q, false) != nullptr;
      if (!in && room) PFAIL("not-inserted", "%s: object %lld is not in the cache after the miss of request %zu%s", a->name, (long long)x.idx, i, dead ? " (it had expired)" : "");
      if (in)
        exp[x.idx] = expiry(c, x);
      else
        exp.erase(x.idx);
      if (dead) o.nontrivial = true;
    }
    int64_t n = k->get_n_obj(k), b = k->get_occupied_byte(k);
    if (b > csize || b < 0) PFAIL("over-capacity", "%s: %lld of %lld bytes after request %zu", a->name, (long long)b, (long long)csize, i);
    if (room) {
      int64_t m = 0;
      for (auto &p : exp) m += size_of(c, p.first) + k->obj_md_size;
      if (n != (int64_t)exp.size() || b != m)
        PFAIL("not-reclaimed", "%s: %lld objects and %lld bytes after request %zu, inserted and not replaced: %zu objects, %lld bytes", a->name, (long long)n, (long long)b, i,
              exp.size(), (long long)m);
    } else if (n > (int64_t)exp.size())
      PFAIL("not-reclaimed", "%s: %lld objects after request %zu, %zu were ever inserted", a->name, (long long)n, i, exp.size());
  }
  if (room) o.label("room");
  return o;
}

// queues with expiry, exactly
Outcome check_model(const Case &c, Ctx &) {
  std::string name = c.gets("algo");
  const Algo *a = find_algo(name);
  if (!a || (name != "LRU" && name != "FIFO" && name != "MRU")) return Outcome::discard();
  int64_t csize = clampi(c.geti("csize", 1), 1, 1 << 30);
  cache_t *k = make_cache(name, csize, "", c.geti("md") != 0, 6, clampi(c.geti("ttl"), 0, 1000000));
  std::unique_ptr<cache_t, void (*)(cache_t *)> guard(k, [](cache_t *x) { x->cache_free(x); });
  struct Obj {
    int64_t idx, exp;
  };
  std::list<Obj> l;  // newest first
  int64_t used = 0;
  request_t q;
  memset(&q, 0, sizeof q);
  Outcome o;
  o.label(name);
  bool died = false, evicted = false;
  std::vector<Req> v = requests(c);
  for (size_t i = 0; i < v.size(); i++) {
    const Req &x = v[i];
    fill(&q, c, x, INT64_MAX);
    int64_t sz = size_of(c, x.idx) + k->obj_md_size;
    auto it = std::find_if(l.begin(), l.end(), [&](const Obj &b) { return b.idx == x.idx; });
    bool want = it != l.end() && it->exp >= x.t;
    if (x.peek) {
      bool h = k->find(k, &q, false) != nullptr;
      if (h != want) PFAIL("find", "%s: request %zu for object %lld: found %d, expected %d", name.c_str(), i, (long long)x.idx, h, want);
      continue;
    }
    if (it != l.end() && !want) {
      l.erase(it);
      used -= sz;
      died = true;
    } else if (want) {
      if (name != "FIFO") l.splice(l.begin(), l, it);
    }
    if (!want && sz <= csize) {
      while (used + sz > csize) {
        const Obj &b = name == "MRU" ? l.front() : l.back();
        used -= size_of(c, b.idx) + k->obj_md_size;
        if (name == "MRU")
          l.pop_front();
        else
          l.pop_back();
        evicted = true;
      }
      l.push_front({x.idx, expiry(c, x)});
      used += sz;
    }
    bool h = k->get(k, &q);
    if (h != want) PFAIL("hit", "%s: request %zu at %lld for object %lld: hit %d, expected %d", name.c_str(), i, (long long)x.t, (long long)x.idx, h, want);
    if (k->get_occupied_byte(k) != used || k->get_n_obj(k) != (int64_t)l.size())
      PFAIL("space", "%s: after request %zu %lld bytes and %lld objects, expected %lld and %zu", name.c_str(), i, (long long)k->get_occupied_byte(k), (long long)k->get_n_obj(k),
            (long long)used, l.size());
  }
  o.nontrivial = died;
  if (evicted) o.label("evicts");
  return o;
}

Property p25() {
  Property p;
  p.id = "P25";
  Suite s;
  s.name = "history";
  s.rule = "requests with times to live, a default time to live and arbitrary advances of time over every algorithm with expiry; non-trivial: an expired object "
           "is requested again";
  s.gen = [](Rng &r, int size) { return gen(r, size, false); };
  s.check = check_history;
  s.n_quick = 80000;
  s.n_thorough = 1500000;
  p.suites.push_back(s);
  s.name = "model";
  s.rule = "LRU, FIFO and MRU against queues with expiry, with evictions; non-trivial: an object expires";
  s.gen = [](Rng &r, int size) { return gen(r, size, true); };
  s.check = check_model;
  p.suites.push_back(s);
  return p;
}
Reg r25(p25);
}  // namespace
