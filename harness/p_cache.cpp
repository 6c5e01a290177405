// P01, P02, P03, P07, P08: the contract every eviction algorithm owes its
// caller, checked on generated operation histories.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include "cworld.h"
using namespace cl;
using namespace pbt;

namespace {

// ---------------------------------------------------------------- P01 --------
// bookkeeping: what the cache reports about itself is what it holds
Outcome check_accounting(const Case &k, Ctx &) {
  World w;
  if (!w.init(k)) return Outcome::discard();
  auto nx = next_access(k.ops);
  std::map<int64_t, int64_t> held;  // resident index -> size it was admitted with
  int64_t left = 0, came = 0, full = 0;
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t idx = w.idx_of(r), sz = World::size_of(r);
    int kind = (int)r[0];
    if (kind == K_GET) {
      w.get(r, nx[i]);
    } else if (kind == K_REMOVE) {
      w.c->remove(w.c, w.ids[(size_t)idx]);
    } else if (kind == K_EVICT && !(w.a->flags & F_NOEVICTOP)) {
      if (held.empty()) continue;
      w.fill_evict(r, nx[i]);
      w.c->evict(w.c, &w.req);
    } else {
      continue;
    }
    // what is resident now, and with which size
    int64_t sum = 0;
    size_t n = 0;
    for (int64_t x = 0; x < w.nidx; x++) {
      cache_obj_t *o = w.peek(x);
      auto it = held.find(x);
      if (!o) {
        if (it != held.end()) held.erase(it), left++;
        continue;
      }
      if (it == held.end()) {
        if (kind != K_GET || x != idx)
          PFAIL("appeared", "op %zu (%s %lld): object %lld became resident", i, kind == K_GET ? "get" : "other", (long long)idx,
                (long long)x);
        it = held.emplace(x, sz).first;
        came++;
      }
      if (!w.opaque()) {
        if (o->obj_id != w.ids[(size_t)x])
          PFAIL("wrong-object", "op %zu: find(%lld) returned the object with id %llu instead of %llu", i, (long long)x,
                (unsigned long long)o->obj_id, (unsigned long long)w.ids[(size_t)x]);
        if ((int64_t)o->obj_size != it->second)
          PFAIL("wrong-size", "op %zu: object %lld was admitted with size %lld but is held with size %lld", i, (long long)x,
                (long long)it->second, (long long)o->obj_size);
      }
      sum += it->second + w.md;
      n++;
    }
    int64_t occ = w.c->get_occupied_byte(w.c), nobj = w.c->get_n_obj(w.c);
    if (occ > w.csize)
      PFAIL("over-capacity", "op %zu: %lld bytes occupied in a cache of %lld", i, (long long)occ, (long long)w.csize);
    if (occ != sum)
      PFAIL("bytes-mismatch", "op %zu: the cache reports %lld bytes but the resident objects add up to %lld (metadata %lld): %s", i,
            (long long)occ, (long long)sum, (long long)w.md, show_map(held).c_str());
    if (nobj != (int64_t)n)
      PFAIL("count-mismatch", "op %zu: the cache reports %lld objects but %zu are resident: %s", i, (long long)nobj, n,
            show_map(held).c_str());
    if (occ * 10 > w.csize * 7) full++;
  }
  Outcome out;
  out.nontrivial = left > 0 && came > 1 && full > 0;
  out.label(std::string("algo:") + w.a->name);
  if (w.md) out.label("metadata");
  return out;
}

// long histories over many objects: the totals are compared with an
// independent count at the end of each leg only
Outcome check_accounting_long(const Case &k, Ctx &) {
  World w;
  if (!w.init(k)) return Outcome::discard();
  Rng r((uint64_t)k.geti("pseed", 1));
  int64_t nobj = clampi(k.geti("nobj", 100), 2, 20000), n = clampi(k.geti("n", 1000), 1, 200000), legs = clampi(k.geti("legs", 4), 1, 20);
  double skew = (double)clampi(k.geti("skew10", 10), 0, 50) / 10;
  int64_t mx = clampi(k.geti("maxsize", 1), 1, 100000);
  w.nidx = nobj;
  w.ids.clear();
  for (int64_t i = 0; i < nobj; i++) w.ids.push_back(map_id(i, w.idmode));
  std::vector<int64_t> osz((size_t)nobj), held((size_t)nobj, -1);
  for (auto &s : osz) s = r.range(1, mx);
  // the whole stream first, to know the next access of every request
  std::vector<int64_t> ids((size_t)n), nx((size_t)n);
  for (auto &x : ids) x = std::min<int64_t>(nobj - 1, (int64_t)((double)nobj * pow(r.unit(), skew + 1)));
  std::vector<int64_t> last((size_t)nobj, INT64_MAX);
  for (int64_t i = n; i-- > 0;) {
    nx[(size_t)i] = last[(size_t)ids[(size_t)i]];
    last[(size_t)ids[(size_t)i]] = i + 1;
  }
  int64_t hits = 0, misses = 0;
  for (int64_t i = 0; i < n; i++) {
    int64_t x = ids[(size_t)i];
    w.t += r.range(0, 1);
    fill_req(&w.req, w.ids[(size_t)x], osz[(size_t)x], w.t, nx[(size_t)i]);
    if (r.chance(0.01) && !(w.a->flags & F_NOREMOVE)) w.c->remove(w.c, w.ids[(size_t)x]);
    if (w.c->get(w.c, &w.req)) hits++; else misses++;
    int64_t occ = w.c->get_occupied_byte(w.c);
    if (occ > w.csize || occ < 0) PFAIL("over-capacity", "request %lld: %lld bytes occupied in a cache of %lld", (long long)i, (long long)occ, (long long)w.csize);
    if ((i + 1) % std::max<int64_t>(1, n / legs) == 0 || i + 1 == n) {
      int64_t sum = 0, cnt = 0;
      for (int64_t q = 0; q < nobj; q++) {
        cache_obj_t *o = w.peek(q);
        if (!o) continue;
        cnt++;
        sum += osz[(size_t)q] + w.md;
        if (!w.opaque() && (o->obj_id != w.ids[(size_t)q] || (int64_t)o->obj_size != osz[(size_t)q]))
          PFAIL("wrong-object", "after request %lld: find(%lld) returned id %llu size %lld", (long long)i, (long long)q,
                (unsigned long long)o->obj_id, (long long)o->obj_size);
      }
      if (sum != occ) PFAIL("bytes-mismatch", "after request %lld: reported %lld bytes, resident objects add up to %lld", (long long)i, (long long)occ, (long long)sum);
      if (cnt != w.c->get_n_obj(w.c)) PFAIL("count-mismatch", "after request %lld: reported %lld objects, %lld resident", (long long)i, (long long)w.c->get_n_obj(w.c), (long long)cnt);
    }
  }
  Outcome out;
  out.nontrivial = hits > n / 100 && misses > nobj / 2;
  out.label(std::string("algo:") + w.a->name);
  return out;
}

// ---------------------------------------------------------------- P02 --------
Outcome check_truth(const Case &k, Ctx &) {
  World w;
  if (!w.init(k)) return Outcome::discard();
  const Algo *a = w.a;
  auto nx = next_access(k.ops);
  int64_t evictions = 0, hits = 0;
  std::map<int64_t, int64_t> held;
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t idx = w.idx_of(r), sz = World::size_of(r);
    if (r[0] == K_REMOVE) {
      w.c->remove(w.c, w.ids[(size_t)idx]);
      std::set<int64_t> now = w.resident_set();
      for (auto it = held.begin(); it != held.end();) it = now.count(it->first) ? std::next(it) : held.erase(it);
      continue;
    }
    if (r[0] != K_GET) continue;
    bool res = held.count(idx) > 0;
    bool fits = sz + w.md <= w.csize;
    bool admissible = fits && !(a->flags & F_MAYREFUSE);
    if (!res && !(a->flags & F_NOCANINS)) {
      w.fill(&w.req, r, nx[i]);
      bool can = w.c->can_insert(w.c, &w.req);
      if (can && !fits && !(a->flags & F_MAYREFUSE))
        PFAIL("oversize-admissible", "op %zu: can_insert promises to take %lld bytes (+%lld) into a cache of %lld", i, (long long)sz,
              (long long)w.md, (long long)w.csize);
      if ((a->flags & F_EXACT) && can != fits)
        PFAIL("can-insert-wrong", "op %zu: can_insert said %d for %lld bytes (+%lld) in a cache of %lld", i, can, (long long)sz, (long long)w.md,
              (long long)w.csize);
      if (!can) admissible = false;
    }
    bool dead = (a->flags & F_DROPDEAD) && nx[i] == INT64_MAX;
    bool hit = w.get(r, nx[i]);
    std::set<int64_t> after = w.resident_set();
    if (hit != res)
      PFAIL("get-untruthful", "op %zu get(%lld) returned %s but the object was %s; resident before: %s", i, (long long)idx,
            hit ? "hit" : "miss", res ? "resident" : "not resident", show_map(held).c_str());
    int64_t nev = 0, maxev = 0, occ_b = 0;
    for (auto &b : held) {
      occ_b += b.second + w.md;
      if (!after.count(b.first) && !(b.first == idx && hit && dead)) nev++, maxev = std::max(maxev, b.second + w.md);
    }
    for (auto x : after)
      if (!held.count(x) && x != idx) PFAIL("appeared", "op %zu get(%lld): object %lld became resident", i, (long long)idx, (long long)x);
    evictions += nev;
    if (hit) {
      hits++;
      if (nev && !(a->flags & F_HITEVICTS))
        PFAIL("hit-evicts", "op %zu: the hit on %lld evicted %lld objects; before %s after %s", i, (long long)idx, (long long)nev,
              show_map(held).c_str(), show_set(after).c_str());
      if (!after.count(idx) && !dead)
        PFAIL("hit-vanishes", "op %zu: object %lld was hit and is not resident afterwards", i, (long long)idx);
    } else {
      if (!fits && (after.count(idx) || nev))
        PFAIL("oversize-changes", "op %zu: a request for %lld bytes (+%lld) changed the content of a cache of %lld bytes: before %s after %s", i,
              (long long)sz, (long long)w.md, (long long)w.csize, show_map(held).c_str(), show_set(after).c_str());
      if (admissible && !dead && !after.count(idx))
        PFAIL("miss-not-admitted", "op %zu: object %lld (size %lld) missed, fits (cache %lld) and is not resident afterwards", i, (long long)idx,
              (long long)sz, (long long)w.csize);
      if (nev && !(a->flags & F_SPILL) && occ_b + sz + w.md <= w.csize)
        PFAIL("needless-eviction", "op %zu get(%lld size %lld) evicted %lld although %lld of %lld bytes were free; before %s after %s", i,
              (long long)idx, (long long)sz, (long long)nev, (long long)(w.csize - occ_b), (long long)w.csize, show_map(held).c_str(),
              show_set(after).c_str());
      if ((a->flags & F_EXACT) && nev) {
        int64_t occ_a = dead ? sz + w.md : 0;
        for (auto x : after) occ_a += (x == idx ? sz : held[x]) + w.md;
        if (w.csize - occ_a >= maxev)
          PFAIL("over-eviction", "op %zu get(%lld size %lld) evicted more than it needed: before %s after %s, cache %lld", i, (long long)idx,
                (long long)sz, show_map(held).c_str(), show_set(after).c_str(), (long long)w.csize);
      }
    }
    for (auto it = held.begin(); it != held.end();) it = after.count(it->first) ? std::next(it) : held.erase(it);
    if (!hit && after.count(idx)) held[idx] = sz;
  }
  Outcome out;
  out.nontrivial = evictions > 0 && hits > 0;
  out.label(std::string("algo:") + a->name);
  if (w.md) out.label("metadata");
  return out;
}

// ---------------------------------------------------------------- P03 --------
Outcome check_remove(const Case &k, Ctx &) {
  World w;
  if (!w.init(k)) return Outcome::discard();
  const Algo *a = w.a;
  auto nx = next_access(k.ops);
  int64_t removed = 0, evicted = 0, absent = 0, named = 0;
  std::set<int64_t> gone;  // removed and not requested since
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t idx = w.idx_of(r);
    if (r[0] == K_GET) {
      bool hit = w.get(r, nx[i]);
      if (hit && gone.count(idx)) PFAIL("hit-after-remove", "op %zu: object %lld hits although it was removed", i, (long long)idx);
      gone.erase(idx);
    } else if (r[0] == K_REMOVE) {
      std::set<int64_t> before = w.resident_set();
      int64_t n0 = w.c->get_n_obj(w.c), b0 = w.c->get_occupied_byte(w.c);
      bool was = before.count(idx) > 0;
      int64_t sz = -1;
      if (was && !w.opaque()) sz = (int64_t)w.peek(idx)->obj_size;
      bool ok = w.c->remove(w.c, w.ids[(size_t)idx]);
      std::set<int64_t> after = w.resident_set();
      int64_t n1 = w.c->get_n_obj(w.c), b1 = w.c->get_occupied_byte(w.c);
      if (ok != was)
        PFAIL("remove-untruthful", "op %zu: remove(%lld) returned %d but the object was %sresident", i, (long long)idx, ok, was ? "" : "not ");
      before.erase(idx);
      if (after != before)
        PFAIL("remove-disturbs", "op %zu: remove(%lld) left %s resident, expected %s", i, (long long)idx, show_set(after).c_str(),
              show_set(before).c_str());
      if (n1 != n0 - (was ? 1 : 0) || (sz >= 0 && b1 != b0 - sz - w.md) || (!was && b1 != b0))
        PFAIL("remove-accounting", "op %zu: remove(%lld): objects %lld -> %lld, bytes %lld -> %lld (object size %lld, metadata %lld)", i,
              (long long)idx, (long long)n0, (long long)n1, (long long)b0, (long long)b1, (long long)sz, (long long)w.md);
      if (was) removed++, gone.insert(idx);
      else absent++;
    } else if (r[0] == K_EVICT || r[0] == K_TOEVICT) {
      if (a->flags & F_NOEVICTOP) continue;
      std::set<int64_t> before = w.resident_set();
      if (before.empty()) continue;
      w.fill_evict(r, nx[i]);
      obj_id_t victim = 0;
      bool have = false;
      if (r[0] == K_TOEVICT) {
        if (!(a->flags & F_TOEVICT)) continue;
        cache_obj_t *o = w.c->to_evict(w.c, &w.req);
        if (!o) PFAIL("no-victim", "op %zu: to_evict names no object although %zu are resident", i, before.size());
        victim = o->obj_id;
        have = true;
        std::set<int64_t> mid = w.resident_set();
        if (mid != before) PFAIL("to-evict-evicts", "op %zu: to_evict changed the content from %s to %s", i, show_set(before).c_str(), show_set(mid).c_str());
      }
      int64_t n0 = w.c->get_n_obj(w.c);
      w.c->evict(w.c, &w.req);
      std::set<int64_t> after = w.resident_set();
      for (auto x : after)
        if (!before.count(x)) PFAIL("evict-inserts", "op %zu: object %lld became resident during evict()", i, (long long)x);
      if ((a->flags & F_EVICT1) && after.size() + 1 != before.size())
        PFAIL("evict-count", "op %zu: evict() removed %zu objects: before %s after %s", i, before.size() - after.size(), show_set(before).c_str(),
              show_set(after).c_str());
      if (w.c->get_n_obj(w.c) != n0 - (int64_t)(before.size() - after.size()))
        PFAIL("evict-accounting", "op %zu: evict() removed %zu objects but the count went from %lld to %lld", i, before.size() - after.size(),
              (long long)n0, (long long)w.c->get_n_obj(w.c));
      if (have) {
        for (auto x : before)
          if (!after.count(x) && w.ids[(size_t)x] != victim)
            PFAIL("wrong-victim", "op %zu: to_evict named id %llu but evict() removed object %lld (id %llu)", i, (unsigned long long)victim,
                  (long long)x, (unsigned long long)w.ids[(size_t)x]);
        named++;
      }
      evicted += (int64_t)(before.size() - after.size());
    }
  }
  // a cache must be drainable
  if (!(a->flags & F_NOEVICTOP) && k.geti("drain")) {
    int64_t n = w.c->get_n_obj(w.c), budget = 8 * n + 64;
    Row r = {0, 0, 1, 0};
    while (w.c->get_n_obj(w.c) > 0 && budget-- > 0) {
      w.fill(&w.req, r, INT64_MAX);
      w.c->evict(w.c, &w.req);
    }
    if (w.c->get_n_obj(w.c) != 0 || w.c->get_occupied_byte(w.c) != 0 || !w.resident_set().empty())
      PFAIL("drain", "repeated evict() does not empty the cache: %lld objects, %lld bytes, resident %s", (long long)w.c->get_n_obj(w.c),
            (long long)w.c->get_occupied_byte(w.c), show_set(w.resident_set()).c_str());
    // and still works afterwards
    for (auto &op : k.ops)
      if (op.size() >= 4 && op[0] == K_GET) w.get(op, INT64_MAX);
    if (w.c->get_occupied_byte(w.c) > w.csize) PFAIL("drain", "over capacity after being drained and refilled");
  } else if (k.geti("drain")) {
    for (int64_t x = 0; x < w.nidx; x++) {
      bool was = w.resident(x);
      if (w.c->remove(w.c, w.ids[(size_t)x]) != was) PFAIL("remove-untruthful", "final remove(%lld): resident %d", (long long)x, was);
    }
    if (w.c->get_n_obj(w.c) != 0 || w.c->get_occupied_byte(w.c) != 0)
      PFAIL("drain", "after removing every object: %lld objects, %lld bytes", (long long)w.c->get_n_obj(w.c), (long long)w.c->get_occupied_byte(w.c));
  }
  Outcome out;
  out.nontrivial = removed > 0 && (evicted > 0 || absent > 0);
  out.label(std::string("algo:") + a->name);
  if (named) out.label("victim-named");
  return out;
}

// ---------------------------------------------------------------- P07 --------
struct Trace {
  std::vector<int> res;  // outcome of each mutating operation
  std::set<int64_t> residents;
  int64_t n = 0, b = 0;
  bool operator==(const Trace &o) const { return res == o.res && residents == o.residents && n == o.n && b == o.b; }
};
std::string diff_trace(const Trace &x, const Trace &y) {
  size_t m = std::min(x.res.size(), y.res.size());
  for (size_t i = 0; i < m; i++)
    if (x.res[i] != y.res[i]) return strf("operation %zu (of the mutating ones) differs: %d vs %d", i, x.res[i], y.res[i]);
  if (x.residents != y.residents) return "final residents differ: " + show_set(x.residents) + " vs " + show_set(y.residents);
  return strf("final objects/bytes differ: %lld/%lld vs %lld/%lld", (long long)x.n, (long long)x.b, (long long)y.n, (long long)y.b);
}
// one mutating operation: its observable outcome
int apply(World &w, const Row &r, int64_t nx) {
  switch (r[0]) {
    case K_GET: return w.get(r, nx);
    case K_REMOVE: return 10 + w.c->remove(w.c, w.ids[(size_t)w.idx_of(r)]);
    case K_EVICT:
      if ((w.a->flags & F_NOEVICTOP) || w.c->get_n_obj(w.c) == 0) return 20;
      w.fill_evict(r, nx);
      w.c->evict(w.c, &w.req);
      return 21 + (int)w.c->get_n_obj(w.c);
    default: return -1;
  }
}
void finish(World &w, Trace &t) {
  t.n = w.c->get_n_obj(w.c);
  t.b = w.c->get_occupied_byte(w.c);
  t.residents = w.resident_set();
}
bool run_plain(const Case &k, Trace &t, cache_t *adopt = nullptr) {
  World w;
  if (adopt ? !w.adopt(k, adopt) : !w.init(k)) return false;
  auto nx = next_access(k.ops);
  for (size_t i = 0; i < k.ops.size(); i++) {
    if (k.ops[i].size() < 4) continue;
    int o = apply(w, k.ops[i], nx[i]);
    if (o >= 0) t.res.push_back(o);
  }
  finish(w, t);
  return true;
}

Outcome check_readonly(const Case &k, Ctx &) {
  Trace plain, noisy;
  if (!run_plain(k, plain)) return Outcome::discard();
  World w;
  if (!w.init(k)) return Outcome::discard();
  auto nx = next_access(k.ops);
  int64_t ro = 0;
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int o = apply(w, r, nx[i]);
    if (o >= 0) {
      noisy.res.push_back(o);
      continue;
    }
    w.fill(&w.req, r, nx[i]);
    ro++;
    switch (r[0]) {
      case K_PEEK: {
        bool a1 = w.c->find(w.c, &w.req, false) != nullptr, a2 = w.c->find(w.c, &w.req, false) != nullptr;
        if (a1 != a2) PFAIL("peek-unstable", "op %zu: two read-only lookups of %lld in a row disagree", i, (long long)r[1]);
        break;
      }
      case K_CANINS:
        // asked the way a request path asks: for an object that missed
        if (!(w.a->flags & F_NOCANINS) && !w.c->find(w.c, &w.req, false)) {
          bool a1 = w.c->can_insert(w.c, &w.req), a2 = w.c->can_insert(w.c, &w.req);
          if (a1 != a2) PFAIL("can-insert-unstable", "op %zu: can_insert disagrees with itself", i);
        }
        break;
      case K_TOEVICT:
        if ((w.a->flags & F_TOEVICT) && !(w.a->flags & F_RANDOM) && w.c->get_n_obj(w.c) > 0) {
          cache_obj_t *v1 = w.c->to_evict(w.c, &w.req);
          obj_id_t id1 = v1 ? v1->obj_id : 0;
          cache_obj_t *v2 = w.c->to_evict(w.c, &w.req);
          if (!v1 || !v2 || v2->obj_id != id1) PFAIL("to-evict-unstable", "op %zu: two to_evict calls in a row name different victims", i);
        }
        break;
      default:
        (void)w.c->get_n_obj(w.c);
        (void)w.c->get_occupied_byte(w.c);
    }
  }
  finish(w, noisy);
  if (!(plain == noisy))
    PFAIL("not-neutral", "%s with %lld read-only operations interleaved: %s", w.a->name, (long long)ro, diff_trace(plain, noisy).c_str());
  Outcome out;
  int64_t h = 0, m = 0;
  for (int x : plain.res) h += x == 1, m += x == 0;
  out.nontrivial = ro > 2 && h > 0 && m > 2;
  out.label(std::string("algo:") + w.a->name);
  return out;
}

// ---------------------------------------------------------------- P08 --------
Outcome check_determinism(const Case &k, Ctx &) {
  const Algo *a = find_algo(k.gets("algo"));
  if (!a) return Outcome::discard();
  Trace base;
  if (!run_plain(k, base)) return Outcome::discard();
  int mode = (int)clampi(k.geti("mode"), 0, 5);
  if (mode == 0) {  // same seed, same history
    Trace t;
    run_plain(k, t);
    if (!(t == base)) PFAIL("not-deterministic", "%s: the same history run twice: %s", a->name, diff_trace(base, t).c_str());
  } else if (mode == 1) {  // a clone taken after some use is a fresh cache of the same configuration
    World w;
    if (!w.init(k)) return Outcome::discard();
    auto nx = next_access(k.ops);
    size_t cut = (size_t)clampi(k.geti("cut"), 0, (int64_t)k.ops.size());
    for (size_t i = 0; i < cut; i++)
      if (k.ops[i].size() >= 4) apply(w, k.ops[i], nx[i]);
    Trace o1, o2, t;
    finish(w, o1);
    set_rand_seed((uint64_t)k.geti("rseed", 1));
    cache_t *cl = clone_cache(w.c);
    if (!cl) PFAIL("clone-fails", "%s: clone_cache returned NULL", a->name);
    if ((int64_t)cl->cache_size != w.csize) PFAIL("clone-size", "%s: the clone has size %lld instead of %lld", a->name, (long long)cl->cache_size, (long long)w.csize);
    if (cl->get_n_obj(cl) != 0) PFAIL("clone-content", "%s: the clone holds objects", a->name);
    if ((int64_t)cl->obj_md_size != w.md) PFAIL("clone-metadata", "%s: the clone charges %lld instead of %lld metadata bytes", a->name, (long long)cl->obj_md_size, (long long)w.md);
    run_plain(k, t, cl);
    finish(w, o2);
    if (!(t == base)) PFAIL("clone-differs", "%s: a clone does not behave like a fresh cache: %s", a->name, diff_trace(base, t).c_str());
    if (!(o1 == o2)) PFAIL("clone-disturbs", "%s: using the clone changed the original: %s", a->name, diff_trace(o1, o2).c_str());
  } else if (mode == 2) {  // same, with another size
    Case k2 = k;
    int64_t s2 = clampi(k.geti("size2", 1), 1, (int64_t)1 << 40);
    k2.seti("csize", s2);
    Trace fresh, t;
    run_plain(k2, fresh);
    World w;
    if (!w.init(k)) return Outcome::discard();
    auto nx = next_access(k.ops);
    size_t cut = (size_t)clampi(k.geti("cut"), 0, (int64_t)k.ops.size());
    for (size_t i = 0; i < cut; i++)
      if (k.ops[i].size() >= 4) apply(w, k.ops[i], nx[i]);
    set_rand_seed((uint64_t)k.geti("rseed", 1));
    cache_t *c2 = create_cache_with_new_size(w.c, (uint64_t)s2);
    if (!c2) PFAIL("newsize-fails", "%s: create_cache_with_new_size returned NULL", a->name);
    if ((int64_t)c2->cache_size != s2) PFAIL("newsize-size", "%s: asked for size %lld, got %lld", a->name, (long long)s2, (long long)c2->cache_size);
    run_plain(k2, t, c2);
    if (!(t == fresh)) PFAIL("newsize-differs", "%s: a cache created with a new size (%lld) does not behave like a fresh one: %s", a->name, (long long)s2, diff_trace(fresh, t).c_str());
  } else if (mode == 3) {  // the hash table size is invisible
    if (a->flags & F_RANDOM) return Outcome::discard();
    Case k2 = k;
    k2.seti("hp", k.geti("hp") >= 6 ? 3 : 12);
    Trace t;
    run_plain(k2, t);
    if (!(t == base)) PFAIL("hashpower-visible", "%s: the initial hash table size changes the outcome: %s", a->name, diff_trace(base, t).c_str());
  } else if (mode == 4) {  // object names are only names
    if (a->flags & (F_RANDOM | F_TIMED)) return Outcome::discard();
    Case k2 = k;
    k2.seti("idmode", (k.geti("idmode") + 1) % 4);
    Trace t;
    run_plain(k2, t);
    if (!(t == base)) PFAIL("ids-matter", "%s: renaming the objects changes the outcome: %s", a->name, diff_trace(base, t).c_str());
  } else {  // two caches side by side do not influence each other
    if (a->flags & F_RANDOM) return Outcome::discard();
    Case k2 = k;
    k2.seti("csize", clampi(k.geti("size2", 1), 1, (int64_t)1 << 40));
    if (!k.gets("algo2").empty()) {
      k2.sets("algo", k.gets("algo2"));
      k2.h.erase("params");
    }
    World w1, w2;
    if (!w1.init(k) || !w2.init(k2)) return Outcome::discard();
    auto nx = next_access(k.ops);
    Trace t;
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 4) continue;
      apply(w2, k.ops[i], nx[i]);
      int o = apply(w1, k.ops[i], nx[i]);
      if (o >= 0) t.res.push_back(o);
    }
    finish(w1, t);
    if (!(t == base)) PFAIL("not-isolated", "%s next to %s (size %lld): %s", a->name, k2.gets("algo").c_str(), (long long)k2.geti("csize"), diff_trace(base, t).c_str());
  }
  Outcome out;
  int64_t h = 0, m = 0;
  for (int x : base.res) h += x == 1, m += x == 0;
  out.nontrivial = h > 0 && m > 2 && base.n < m;
  out.label(std::string("algo:") + a->name);
  out.label(strf("mode:%d", mode));
  return out;
}

const char *RULE_COMMON =
    "one of 29 algorithms, random parameters, object metadata on in 25%, unit / small / equal / log-uniform / bimodal sizes, cache from 5% to "
    "150% of the working set, phased access pattern (uniform, skewed, loop, repeats, hot range), 64-bit ids in 4 layouts; ";

Property p01() {
  Property p;
  p.id = "P01";
  Suite s;
  s.name = "history";
  s.rule = std::string(RULE_COMMON) + "gets, removals and user evictions; non-trivial: objects were admitted and left, and the cache filled above 70%";
  s.gen = [](Rng &r, int size) {
    HistOpt h;
    if (r.chance(0.6)) h.weights = {88, 0, 8, 0, 4};
    return gen_history(r, size, h);
  };
  s.check = check_accounting;
  s.n_quick = 60000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  Suite l;
  l.name = "long";
  l.rule = "as above with 2k-30k requests over up to 4000 objects (hash table growth, many evictions), totals recounted 2-8 times; non-trivial: >1% hits and misses for more than half of the objects";
  l.gen = [](Rng &r, int size) {
    HistOpt h;
    h.max_ops = 20;
    h.large = true;
    Case c = gen_history(r, 10, h);
    c.ops.clear();
    int64_t nobj = r.logrange(50, 40 * size + 50), mx = r.chance(0.4) ? 1 : r.logrange(2, 2000);
    c.seti("nobj", nobj);
    c.seti("n", r.range(2000, 2000 + 280 * size));
    c.seti("maxsize", mx);
    c.seti("skew10", r.range(0, 30));
    c.seti("legs", r.range(2, 8));
    c.seti("pseed", r.range(1, 1 << 30));
    c.seti("csize", std::max<int64_t>(40, (int64_t)((double)nobj * (double)(mx + 1) / 2 * (0.02 + 0.6 * r.unit()))));
    const Algo *a = find_algo(c.gets("algo"));
    if (a && (a->flags & F_LARGE)) {
      int64_t cs = (a->flags & F_NOREMOVE) ? r.range(3000, 6000) : r.range(250, 1500);
      c.seti("maxsize", 1);
      c.seti("md", 0);
      c.seti("csize", cs);
      c.seti("nobj", cs * 2);
      c.seti("n", cs * r.range(3, 12));
    }
    return c;
  };
  l.check = check_accounting_long;
  l.n_quick = 2500;
  l.n_thorough = 20000;
  l.batch = 8;
  p.suites.push_back(l);
  return p;
}
Property p02() {
  Property p;
  p.id = "P02";
  Suite s;
  s.name = "gets";
  s.rule = std::string(RULE_COMMON) + "gets with occasional removals; non-trivial: at least one hit and one eviction";
  s.gen = [](Rng &r, int size) {
    HistOpt h;
    if (r.chance(0.3)) h.weights = {92, 0, 8};
    return gen_history(r, size, h);
  };
  s.check = check_truth;
  s.n_quick = 60000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  return p;
}
Property p03() {
  Property p;
  p.id = "P03";
  Suite s;
  s.name = "remove-evict";
  s.rule = std::string(RULE_COMMON) + "gets mixed with removals (of resident, ghost and absent objects), user evictions and named victims, then the cache is drained; non-trivial: a resident object was removed, and an object was evicted by the user or an absent one removed";
  s.gen = [](Rng &r, int size) {
    HistOpt h;
    int mode = (int)r.range(0, 2);
    if (mode == 0) h.weights = {80, 0, 20};
    else if (mode == 1) h.weights = {70, 0, 10, 10, 10};
    else h.weights = {60, 0, 30, 5, 5};
    Case c = gen_history(r, size, h);
    c.seti("drain", r.chance(0.5));
    return c;
  };
  s.check = check_remove;
  s.n_quick = 60000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  return p;
}
Property p07() {
  Property p;
  p.id = "P07";
  Suite s;
  s.name = "neutral";
  s.rule = std::string(RULE_COMMON) + "the history is run with and without its read-only operations (non-updating lookups, can_insert, to_evict, size getters); non-trivial: more than 2 read-only operations, hits and misses";
  s.gen = [](Rng &r, int size) {
    HistOpt h;
    h.weights = {60, 0, 4, 8, 3, 15, 8, 2};
    return gen_history(r, size, h);
  };
  s.check = check_readonly;
  s.n_quick = 60000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  return p;
}
// whether the library refuses a parameter text as too long to be kept for clones (it does so with a diagnostic)
bool refused(const Case &k) {
  if (k.gets("params").size() < 200) return false;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    freopen("/dev/null", "w", stderr);
    freopen("/dev/null", "w", stdout);
    signal(SIGABRT, SIG_DFL);
    World w;
    w.init(k);
    _exit(0);
  }
  int st = 0;
  if (pid < 0 || waitpid(pid, &st, 0) != pid) return false;
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
Property p08() {
  Property p;
  p.id = "P08";
  Suite s;
  s.name = "equivalence";
  s.rule = std::string(RULE_COMMON) + "metamorphic relations: rerun, clone, new size, hash table size, renamed objects, neighbouring cache; non-trivial: hits and more misses than objects left";
  s.gen = [](Rng &r, int size) {
    HistOpt h;
    if (r.chance(0.4)) h.weights = {88, 0, 8, 0, 4};
    Case c = gen_history(r, size, h);
    int64_t mode = r.range(0, 5);
    const Algo *a = find_algo(c.gets("algo"));
    if (a && (a->flags & F_RANDOM) && mode >= 3) mode = r.range(0, 2);
    if (a && (a->flags & F_TIMED) && mode == 4) mode = 3;
    if (a && (a->flags & F_TIMED) && (a->flags & F_RANDOM)) mode = r.range(0, 2);
    c.seti("mode", mode);
    // a long parameter text: the same parameters given several times, the last ones count
    if (a && a->params.size() > 1 && (mode == 1 || mode == 2) && r.chance(0.25)) {
      std::string last = r.pick(a->params), t;
      for (int64_t n = r.range(1, 12); n > 0; n--) t += std::string(r.pick(a->params)) + ",";
      c.sets("params", t + last);
    }
    // randomised algorithms sample from the hash table, which the clone inherits in its grown size
    c.seti("cut", a && (a->flags & F_RANDOM) ? 0 : r.range(0, (int64_t)c.ops.size()));
    c.seti("size2", std::max<int64_t>(20, (int64_t)((double)c.geti("csize") * (0.3 + 2 * r.unit()))));
    if (mode == 5 && r.chance(0.5)) {
      std::vector<std::string> n;
      for (auto &x : algos())
        if (!(x.flags & (F_RANDOM | F_NOMETA | F_FIXEDSIZE))) n.push_back(x.name);
      c.sets("algo2", r.pick(n));
    }
    return c;
  };
  s.check = [](const Case &k, Ctx &x) {
    if (refused(k)) return Outcome::discard();
    return check_determinism(k, x);
  };
  s.n_quick = 36000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  return p;
}
Reg r01(p01), r02(p02), r03(p03), r07(p07), r08(p08);
}  // namespace
