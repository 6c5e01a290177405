// P20: the object hash tables against a map.
// P21: priority queue, splay tree, Bloom filter, counting filter against exact models.
#include <cmath>

#include "cachelib.h"
#include "cworld.h"
extern "C" {
#include "dataStructure/hash/hash.h"
#include "dataStructure/hashtable/chainedHashTable.h"
#include "dataStructure/hashtable/chainedHashTableV2.h"
bool chained_hashtable_delete_obj_id_v2(hashtable_t *hashtable, const obj_id_t obj_id);
#include "dataStructure/bloom.h"
#include "dataStructure/minimalIncrementCBF.h"
#include "dataStructure/pqueue.h"
#include "dataStructure/splay.h"
}
using namespace cl;
using namespace pbt;

// ------------------------------------------------------------------ P20
enum { H_INSERT, H_FIND, H_DELETE, H_TRYDEL, H_DELID, H_RAND, H_ITER, H_N };

// ids that share the low bits of their hash
static obj_id_t colliding(int64_t idx, int bits, int64_t group) {
  static std::map<std::pair<int, int64_t>, std::pair<uint64_t, std::vector<obj_id_t>>> memo;
  auto &m = memo[{bits, group}];
  uint64_t mask = ((uint64_t)1 << bits) - 1;
  while ((int64_t)m.second.size() <= idx) {
    uint64_t x = ++m.first;
    if ((get_hash_value_int_64(&x) & mask) == ((uint64_t)group & mask)) m.second.push_back(x);
  }
  return m.second[(size_t)idx];
}

static Case gen_hash(Rng &r, int size) {
  Case c;
  c.seti("version", r.chance(0.7) ? 2 : 1);
  c.seti("external", r.chance(0.25));
  c.seti("hp", r.range(1, 8));
  c.seti("idmode", r.range(0, 4));
  int style = (int)r.range(0, 5);  // 0-2 plain, 3: few buckets, 4,5: one long chain
  c.seti("bits", style < 3 ? 0 : style == 3 ? r.range(2, 6) : r.range(9, 12));
  c.seti("group", r.range(0, 4095));
  c.seti("rseed", r.range(1, 1000));
  int n = 10 + (int)r.range(0, 8 + size * 8);
  int nobj = (int)r.logrange(2, style >= 4 ? 150 : 400);
  int wi = (int)r.range(20, 70);
  bool grow = r.chance(0.3);
  for (int i = 0; i < n; i++) {
    int64_t k;
    if (r.chance(wi / 100.0)) k = H_INSERT;
    else k = r.range(H_FIND, H_N - 1);
    if (grow && k >= H_DELETE && k <= H_DELID && r.chance(0.8)) k = H_INSERT;
    if (k == H_ITER && r.chance(0.7)) k = H_FIND;
    c.ops.push_back({k, grow && k == H_INSERT ? i % nobj : r.range(0, nobj - 1), r.range(1, 100000), 0});
  }
  return c;
}
static void note_iter(cache_obj_t *o, void *u) { (*(std::map<obj_id_t, int> *)u)[o->obj_id]++; }

static Outcome check_hash(const Case &k, Ctx &) {
  bool v2 = k.geti("version", 2) == 2;
  bool ext = v2 && k.geti("external");
  int hp = (int)clampi(k.geti("hp", 4), 1, 12), bits = (int)clampi(k.geti("bits"), 0, 12);
  set_rand_seed((uint64_t)k.geti("rseed", 1));
  hashtable_t *t = v2 ? create_chained_hashtable_v2((uint16_t)hp) : create_chained_hashtable((uint16_t)hp);
  t->external_obj = ext;
  struct E {
    cache_obj_t *p;
    int64_t size;
  };
  std::map<int64_t, E> m;
  std::map<obj_id_t, int64_t> rev;
  auto id_of = [&](int64_t i) { return bits ? colliding(i, bits, k.geti("group")) : map_id(i, k.geti("idmode")); };
  // the objects of a version 1 table are also in a list, whose links the table maintains when it moves objects
  cache_obj_t *head = nullptr, *tail = nullptr;
  std::vector<int64_t> order;  // most recent first
  if (!v2) {
    chained_hashtable_add_ptr_to_monitoring(t, &head);
    chained_hashtable_add_ptr_to_monitoring(t, &tail);
  }
  std::vector<cache_obj_t *> own;
  auto find = [&](obj_id_t id) { return v2 ? chained_hashtable_find_obj_id_v2(t, id) : chained_hashtable_find(t, id); };
  int64_t grown = 0, deleted = 0, longest = 0;
  Outcome bad;
  auto run = [&]() -> Outcome {
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 3) continue;
      int64_t op = clampi(k.ops[i][0], 0, H_N - 1), x = clampi(k.ops[i][1], 0, 1023), sz = clampi(k.ops[i][2], 1, 1 << 30);
      obj_id_t id = id_of(x);
      bool in = m.count(x);
      request_t q;
      fill_req(&q, id, sz, (int64_t)i, INT64_MAX);
      switch (op) {
        case H_INSERT: {
          if (in) break;
          uint16_t before = t->hashpower;
          cache_obj_t *o;
          if (ext) {
            cache_obj_t *mine = create_cache_obj_from_request(&q);
            o = chained_hashtable_insert_obj_v2(t, mine);
            own.push_back(mine);
            if (o != mine) PFAIL("insert-obj", "op %zu: inserting a caller's object returned another one", i);
          } else {
            o = v2 ? chained_hashtable_insert_v2(t, &q) : chained_hashtable_insert(t, &q);
          }
          if (!o || o->obj_id != id || (int64_t)o->obj_size != sz)
            PFAIL("insert", "op %zu: insert of %lld returned %s", i, (long long)x, o ? "another object" : "nothing");
          grown += t->hashpower != before;
          m[x] = {o, sz};
          rev[id] = x;
          if (!v2) {
            prepend_obj_to_head(&head, &tail, o);
            order.insert(order.begin(), x);
          }
          break;
        }
        case H_FIND: {
          cache_obj_t *o = v2 ? chained_hashtable_find_v2(t, &q) : chained_hashtable_find_req(t, &q);
          if ((o != nullptr) != in) PFAIL("find", "op %zu: object %lld is %sin the table but lookup says otherwise", i, (long long)x, in ? "" : "not ");
          cache_obj_t probe;
          memset(&probe, 0, sizeof probe);
          probe.obj_id = id;
          cache_obj_t *o2 = v2 ? chained_hashtable_find_obj_v2(t, &probe) : chained_hashtable_find_obj(t, &probe);
          if (o2 != o) PFAIL("find-obj", "op %zu: lookup by request and by object differ", i);
          break;
        }
        case H_DELETE:
        case H_TRYDEL:
        case H_DELID: {
          if (!v2 && op != H_DELETE) break;
          bool was = in;
          if (op == H_DELETE) {
            if (!in) break;
            cache_obj_t *o = find(id);
            if (!o) PFAIL("find", "op %zu: object %lld is in the table but not found", i, (long long)x);
            if (!v2) {
              remove_obj_from_list(&head, &tail, o);
              chained_hashtable_delete(t, o);
              order.erase(std::find(order.begin(), order.end(), x));
            } else {
              chained_hashtable_delete_v2(t, o);
            }
          } else if (op == H_TRYDEL) {
            cache_obj_t probe;
            memset(&probe, 0, sizeof probe);
            probe.obj_id = id;
            bool ok = chained_hashtable_try_delete_v2(t, in ? m[x].p : &probe);
            if (ok != in) PFAIL("try-delete", "op %zu: deleting an object that is %sin the table returned %d", i, in ? "" : "not ", ok);
          } else {
            bool ok = chained_hashtable_delete_obj_id_v2(t, id);
            if (ok != in) PFAIL("delete-id", "op %zu: deleting id of an object that is %sin the table returned %d", i, in ? "" : "not ", ok);
          }
          if (was) {
            deleted++;
            m.erase(x);
            rev.erase(id);
          }
          break;
        }
        case H_RAND: {
          if (m.empty()) break;
          cache_obj_t *o = v2 ? chained_hashtable_rand_obj_v2(t) : chained_hashtable_rand_obj(t);
          if (!o || !rev.count(o->obj_id)) PFAIL("rand", "op %zu: random pick is not in the table", i);
          break;
        }
        case H_ITER: {
          std::map<obj_id_t, int> seen;
          if (v2) chained_hashtable_foreach_v2(t, note_iter, &seen);
          else chained_hashtable_foreach(t, note_iter, &seen);
          for (auto &s : seen) {
            if (s.second != 1) PFAIL("iterate-twice", "op %zu: object visited %d times", i, s.second);
            if (!rev.count(s.first)) PFAIL("iterate-ghost", "op %zu: visited an object that is not in the table", i);
          }
          if (seen.size() != m.size()) PFAIL("iterate-missing", "op %zu: visited %zu of %zu objects", i, seen.size(), m.size());
          longest++;
          break;
        }
      }
      if (t->n_obj != m.size()) PFAIL("count", "op %zu: table counts %lld objects, should be %zu", i, (long long)t->n_obj, m.size());
      bool full = i + 1 == k.ops.size() || i % 16 == 15 || op == H_ITER;
      for (auto &e : m) {
        if (!full && e.first % 7 != (int64_t)i % 7) continue;
        cache_obj_t *o = find(id_of(e.first));
        if (!o) PFAIL("lost", "op %zu: object %lld is no longer found", i, (long long)e.first);
        if (o->obj_id != id_of(e.first) || (int64_t)o->obj_size != e.second.size) PFAIL("corrupt", "op %zu: object %lld changed", i, (long long)e.first);
        if (v2 && o != e.second.p) PFAIL("moved", "op %zu: object %lld moved in memory", i, (long long)e.first);
      }
      if (!v2) {
        size_t n = 0;
        cache_obj_t *prev = nullptr;
        for (cache_obj_t *o = head; o; prev = o, o = o->queue.next, n++) {
          if (n >= order.size() || o->obj_id != id_of(order[n])) PFAIL("list", "op %zu: list broken at position %zu of %zu", i, n, order.size());
          if (o->queue.prev != prev) PFAIL("list", "op %zu: back link broken at position %zu", i, n);
        }
        if (n != order.size() || prev != tail) PFAIL("list", "op %zu: list ends after %zu of %zu", i, n, order.size());
      }
    }
    return Outcome();
  };
  Outcome o = run();
  if (o.st == FAIL) return o;
  if (v2) free_chained_hashtable_v2(t);
  else free_chained_hashtable(t);
  for (auto p : own) free_cache_obj(p);
  o.nontrivial = m.size() >= 2 && deleted >= 2 && (grown > 0 || bits > 0);
  o.label(strf("v%d%s%s%s", v2 ? 2 : 1, ext ? "-external" : "", bits ? "-colliding" : "", grown ? "-grown" : ""));
  return o;
}

// ------------------------------------------------------------------ P21
enum { Q_INSERT, Q_POP, Q_PEEK, Q_CHANGE, Q_REMOVE, Q_SIZE, Q_N };
static Case gen_pq(Rng &r, int size) {
  Case c;
  c.seti("cap", r.range(0, 20));
  c.seti("min", r.chance(0.5));
  int n = 5 + (int)r.range(0, 5 + size * 6);
  int nn = (int)r.logrange(2, 120);
  int prange = (int)r.logrange(2, 1000000);
  int wi = (int)r.range(30, 70);
  for (int i = 0; i < n; i++)
    c.ops.push_back({r.chance(wi / 100.0) ? (int64_t)Q_INSERT : r.range(Q_POP, Q_N - 1), r.range(0, nn - 1), r.range(-prange, prange)});
  return c;
}
static int cmp_min(pqueue_pri_t next, pqueue_pri_t curr) { return next.pri > curr.pri; }
static Outcome check_pq(const Case &k, Ctx &) {
  bool mn = k.geti("min");
  size_t cap = (size_t)clampi(k.geti("cap", 1), 0, 1000);
  // the default comparator ranks the largest priority first; a caller's comparator may reverse it
  pqueue_t *q = mn ? pqueue_init_full(cap, cmp_min, get_pri, set_pri, get_pos, set_pos) : pqueue_init(cap);
  std::map<int64_t, double> m;
  std::vector<pq_node_t> node(1024);
  int64_t pops = 0, changes = 0, removes = 0;
  auto best = [&]() {
    double b = 0;
    bool f = true;
    for (auto &x : m)
      if (f || (mn ? x.second < b : x.second > b)) b = x.second, f = false;
    return b;
  };
  auto run = [&]() -> Outcome {
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 3) continue;
      int64_t op = clampi(k.ops[i][0], 0, Q_N - 1), x = clampi(k.ops[i][1], 0, 1023);
      double p = (double)k.ops[i][2] / 4;
      bool in = m.count(x);
      if (op == Q_INSERT && !in) {
        node[(size_t)x].obj_id = (obj_id_t)x;
        node[(size_t)x].pri.pri = p;
        if (pqueue_insert(q, &node[(size_t)x]) != 0) PFAIL("insert", "op %zu: insert failed", i);
        m[x] = p;
      } else if (op == Q_POP || op == Q_PEEK) {
        pq_node_t *o = (pq_node_t *)(op == Q_POP ? pqueue_pop(q) : pqueue_peek(q));
        if ((o == nullptr) != m.empty()) PFAIL("empty", "op %zu: %zu items, got %s", i, m.size(), o ? "one" : "none");
        if (!o) continue;
        int64_t y = (int64_t)o->obj_id;
        if (!m.count(y)) PFAIL("ghost", "op %zu: item %lld is not in the queue", i, (long long)y);
        if (m[y] != best() || o->pri.pri != m[y]) PFAIL("not-best", "op %zu: %s priority %g, the best is %g", i, op == Q_POP ? "popped" : "peeked at", m[y], best());
        if (op == Q_POP) m.erase(y), pops++;
      } else if (op == Q_CHANGE && in) {
        pqueue_pri_t np = {p};
        pqueue_change_priority(q, np, &node[(size_t)x]);
        m[x] = p;
        changes++;
      } else if (op == Q_REMOVE && in) {
        if (pqueue_remove(q, &node[(size_t)x]) != 0) PFAIL("remove", "op %zu: remove failed", i);
        m.erase(x);
        removes++;
      }
      if (pqueue_size(q) != m.size()) PFAIL("size", "op %zu: size %zu, should be %zu", i, pqueue_size(q), m.size());
      if (!pqueue_is_valid(q)) PFAIL("invalid", "op %zu: the heap order is broken", i);
    }
    double last = 0;
    bool first = true;
    while (pq_node_t *o = (pq_node_t *)pqueue_pop(q)) {
      int64_t y = (int64_t)o->obj_id;
      if (!m.count(y) || m[y] != o->pri.pri) PFAIL("drain-ghost", "draining: item %lld is not in the queue", (long long)y);
      if (!first && (mn ? o->pri.pri < last : o->pri.pri > last)) PFAIL("drain-order", "draining: %g after %g", o->pri.pri, last);
      last = o->pri.pri;
      first = false;
      m.erase(y);
    }
    if (!m.empty()) PFAIL("drain-missing", "draining: %zu items never came out", m.size());
    return Outcome();
  };
  Outcome o = run();
  if (o.st == FAIL) return o;
  pqueue_free(q);
  o.nontrivial = pops >= 2 && changes >= 1 && removes >= 1;
  return o;
}

enum { T_INSERT, T_DELETE, T_SPLAY, T_N };
static Case gen_splay(Rng &r, int size) {
  Case c;
  int n = 5 + (int)r.range(0, 5 + size * 8);
  int64_t span = r.logrange(4, 2000);
  int64_t base = r.chance(0.7) ? -span / 2 : r.range(-((int64_t)1 << 40), (int64_t)1 << 40);
  int64_t mul = r.chance(0.6) ? 1 : r.logrange(1, (int64_t)1 << 40);
  c.seti("base", base);
  c.seti("mul", mul);
  int mode = (int)r.range(0, 2);  // random, ascending (as in the distance computation), mixed
  int64_t up = 0;
  for (int i = 0; i < n; i++) {
    int64_t x = r.range(0, span);
    int64_t op = r.chance(0.5) ? (int64_t)T_INSERT : r.range(0, T_N - 1);
    if (op == T_INSERT && (mode == 1 || (mode == 2 && r.chance(0.5)))) x = ++up;
    c.ops.push_back({op, x});
  }
  return c;
}
static bool walk(sTree *t, std::vector<long long> &keys, std::string &why, int depth) {
  if (!t) return true;
  if (depth > 5000) {
    why = "depth";
    return false;
  }
  if (!walk(t->left, keys, why, depth + 1)) return false;
  keys.push_back(t->key);
  if (!walk(t->right, keys, why, depth + 1)) return false;
  if (t->value != node_value(t->left) + node_value(t->right) + 1) {
    why = strf("subtree of %lld counts %ld, has %ld", t->key, t->value, node_value(t->left) + node_value(t->right) + 1);
    return false;
  }
  return true;
}
static Outcome check_splay(const Case &k, Ctx &) {
  sTree *t = nullptr;
  std::set<long long> m;
  int64_t dels = 0, ranks = 0;
  int64_t base = clampi(k.geti("base"), -((int64_t)1 << 41), (int64_t)1 << 41), mul = clampi(k.geti("mul", 1), 1, (int64_t)1 << 41);
  auto run = [&]() -> Outcome {
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 2) continue;
      int64_t op = clampi(k.ops[i][0], 0, T_N - 1);
      long long x = base + clampi(k.ops[i][1], 0, 100000) * mul;
      if (op == T_INSERT) {
        t = insert(x, t);
        m.insert(x);
        if (!t || t->key != x) PFAIL("insert-root", "op %zu: the inserted key is not at the root", i);
      } else if (op == T_DELETE) {
        t = splay_delete(x, t);
        dels += (int64_t)m.erase(x);
      } else {
        t = splay(x, t);
        if ((t == nullptr) != m.empty()) PFAIL("splay-empty", "op %zu", i);
        if (t && m.count(x)) {
          if (t->key != x) PFAIL("splay-root", "op %zu: key %lld is in the tree, the root is %lld", i, x, t->key);
          long rank = (long)std::distance(m.begin(), m.find(x));
          if (node_value(t->left) != rank || node_value(t->right) != (long)m.size() - rank - 1)
            PFAIL("rank", "op %zu: %ld keys below %lld by the tree, %ld in truth", i, (long)node_value(t->left), x, rank);
          ranks++;
        } else if (t) {  // a neighbour
          auto it = m.lower_bound(x);
          bool ok = it != m.end() && *it == t->key;
          if (it != m.begin()) ok = ok || *std::prev(it) == t->key;
          if (!ok) PFAIL("splay-neighbour", "op %zu: searching %lld brought %lld up, not a neighbour", i, x, t->key);
        }
      }
      std::vector<long long> keys;
      std::string why;
      if (!walk(t, keys, why, 0)) PFAIL("count", "op %zu: %s", i, why.c_str());
      if (keys.size() != m.size() || !std::equal(keys.begin(), keys.end(), m.begin()))
        PFAIL("content", "op %zu: the tree holds %zu keys, should hold %zu, or in the wrong order", i, keys.size(), m.size());
    }
    return Outcome();
  };
  Outcome o = run();
  if (o.st == FAIL) return o;
  free_sTree(t);
  o.nontrivial = dels >= 2 && ranks >= 2;
  return o;
}

enum { B_ADD, B_CHECK, B_SPECIAL, B_N };
static Case gen_filter(Rng &r, int size) {
  Case c;
  c.seti("entries", r.logrange(1, 3000));
  c.seti("err", r.range(0, 4));
  c.seti("len", r.chance(0.7) ? 8 : r.range(1, 40));
  c.seti("salt", r.range(0, 1 << 30));
  int n = 5 + (int)r.range(0, 20 + size * 20);
  int64_t span = r.logrange(2, 3000);
  for (int i = 0; i < n; i++) {
    int64_t op = r.chance(0.6) ? (int64_t)B_ADD : r.chance(0.97) ? (int64_t)B_CHECK : (int64_t)B_SPECIAL;
    c.ops.push_back({op, r.chance(0.3) ? r.range(0, std::min<int64_t>(span, 5)) : r.range(0, span)});
  }
  // one key added many times in a row (the counting filter): past 8 and 16 bits
  if (r.chance(0.04)) c.ops.push_back({(int64_t)B_ADD, r.range(0, span), r.pick(std::vector<int64_t>{100, 127, 128, 255, 256, 1000, 32768, 65534, 65535, 65536, 70000, 140000})});
  return c;
}
static const double kErr[] = {0.1, 0.01, 0.001, 1e-5, 0.5};
static std::string bytes_of(int64_t x, int64_t salt, int len) {
  std::string s((size_t)len, 0);
  Rng r((uint64_t)(x * 1000003 + salt));
  uint64_t v = (uint64_t)x;
  for (int i = 0; i < len; i++) s[(size_t)i] = len >= 8 && i < 8 ? (char)(v >> (8 * i)) : (char)r.u64();
  return s;
}
static Outcome check_bloom(const Case &k, Ctx &) {
  int64_t entries = clampi(k.geti("entries", 1), 1, 100000);
  double err = kErr[clampi(k.geti("err"), 0, 4)];
  int len = (int)clampi(k.geti("len", 8), 1, 64);
  struct bloom b;
  memset(&b, 0, sizeof b);
  int rc = bloom_init(&b, (int)entries, err);
  if (entries < 1000) {
    if (rc == 0) PFAIL("init-accepts", "fewer than 1000 entries are documented to be refused");
    entries += 1000;
    rc = bloom_init(&b, (int)entries, err);
  }
  if (rc != 0) PFAIL("init", "bloom_init(%lld, %g) failed", (long long)entries, err);
  std::set<std::string> m;
  std::set<std::string> negk, falsek;  // distinct keys: one key asked for again errs again
  int64_t negatives = 0, falsep = 0, hits = 0;
  auto run = [&]() -> Outcome {
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 2) continue;
      int64_t op = clampi(k.ops[i][0], 0, B_N - 1);
      std::string key = bytes_of(k.ops[i][1], k.geti("salt"), len);
      bool in = m.count(key);
      if (op == B_SPECIAL) {
        if (bloom_reset(&b) != 0) PFAIL("reset", "op %zu: reset failed", i);
        m.clear();
        continue;
      }
      int before = bloom_check(&b, key.data(), len);
      if (op == B_ADD) {
        int r = bloom_add(&b, key.data(), len);
        if (in && r != 1) PFAIL("forgets", "op %zu: adding a key again reports it as new", i);
        if (r != before) PFAIL("check-add", "op %zu: check says %d, add says %d", i, before, r);
        m.insert(key);
        if (bloom_check(&b, key.data(), len) != 1) PFAIL("forgets", "op %zu: an added key is not found", i);
        hits += in;
      } else if (in && before != 1) {
        PFAIL("forgets", "op %zu: an added key is not found", i);
      }
      if (!in && (int64_t)m.size() <= entries) {
        negatives++;
        negk.insert(key);
        if (before == 1) falsek.insert(key);
      }
      if (m.empty() && before == 1 && !in && op != B_ADD) PFAIL("empty-positive", "op %zu: an empty filter knows a key", i);
    }
    for (auto &s : m)
      if (bloom_check(&b, s.data(), len) != 1) PFAIL("forgets", "at the end an added key is not found");
    return Outcome();
  };
  Outcome o = run();
  if (o.st == FAIL) return o;
  falsep = (int64_t)falsek.size();
  // within its capacity the filter errs at about the configured rate
  if (len >= 8 && negk.size() >= 200 && (double)falsep > 12 + 3 * err * (double)negk.size())
    PFAIL("error-rate", "%lld false positives for %zu unknown keys at error rate %g", (long long)falsep, negk.size(), err);
  bloom_free(&b);
  o.nontrivial = m.size() >= 3 && hits >= 1 && negatives >= 3;
  return o;
}
static Outcome check_cbf(const Case &k, Ctx &) {
  int64_t entries = clampi(k.geti("entries", 1), 1, 100000);
  double err = kErr[clampi(k.geti("err"), 0, 4)];
  int len = (int)clampi(k.geti("len", 8), 1, 64);
  struct minimalIncrementCBF b;
  memset(&b, 0, sizeof b);
  if (minimalIncrementCBF_init(&b, (int)entries, err) != 0) PFAIL("init", "init(%lld, %g) failed", (long long)entries, err);
  std::map<std::string, int64_t> m;  // a lower bound of each key's count (halved by a decay)
  std::set<std::string> negk, overk;
  int64_t decays = 0, repeats = 0;
  auto run = [&]() -> Outcome {
    for (size_t i = 0; i < k.ops.size(); i++) {
      if (k.ops[i].size() < 2) continue;
      int64_t op = clampi(k.ops[i][0], 0, B_N - 1);
      std::string key = bytes_of(k.ops[i][1], k.geti("salt"), len);
      if (op == B_SPECIAL) {
        std::map<std::string, int> est;
        for (auto &e : m) est[e.first] = minimalIncrementCBF_estimate(&b, e.first.data(), len);
        if (minimalIncrementCBF_decay(&b) != 0) PFAIL("decay", "op %zu: decay failed", i);
        for (auto &e : m) {
          e.second /= 2;
          int now = minimalIncrementCBF_estimate(&b, e.first.data(), len);
          if (now != est[e.first] / 2) PFAIL("decay", "op %zu: an estimate of %d became %d, half is expected", i, est[e.first], now);
        }
        decays++;
        continue;
      }
      int64_t truth = m.count(key) ? m[key] : 0;
      int before = minimalIncrementCBF_estimate(&b, key.data(), len);
      if (before < truth) PFAIL("under", "op %zu: estimate %d, the key was added %lld times", i, before, (long long)truth);
      if (before != minimalIncrementCBF_estimate(&b, key.data(), len)) PFAIL("estimate-changes", "op %zu: two estimates differ", i);
      if (op == B_ADD) {
        int r = minimalIncrementCBF_add(&b, key.data(), len);
        if (r != before + 1) PFAIL("add-result", "op %zu: add returned %d after an estimate of %d", i, r, before);
        repeats += truth > 0;
        int64_t more = k.ops[i].size() > 2 ? clampi(k.ops[i][2], 1, 1 << 18) - 1 : 0;
        for (int64_t j = 0; j < more; j++) {
          int q = minimalIncrementCBF_add(&b, key.data(), len);
          // hash functions of a key may share a counter, which then grows faster
          if (q < r + 1) PFAIL("add-result", "op %zu: after %lld more additions add returned %d after %d", i, (long long)j, q, r);
          r = q;
        }
        m[key] = truth + 1 + more;
        if (minimalIncrementCBF_estimate(&b, key.data(), len) < r) PFAIL("under", "op %zu: the estimate is below what add reported", i);
      }
      if ((int64_t)m.size() <= entries && decays == 0) {
        negk.insert(key);
        if (before > truth) overk.insert(key);
      }
    }
    for (auto &e : m) {
      int est = minimalIncrementCBF_estimate(&b, e.first.data(), len);
      if (est < e.second) PFAIL("under", "at the end: estimate %d, the key counts at least %lld", est, (long long)e.second);
    }
    return Outcome();
  };
  Outcome o = run();
  if (o.st == FAIL) return o;
  if (len >= 8 && entries >= 500 && negk.size() >= 200 && (double)overk.size() > 12 + 3 * err * (double)negk.size())
    PFAIL("error-rate", "%zu keys over-estimated of %zu at error rate %g", overk.size(), negk.size(), err);
  minimalIncrementCBF_free(&b);
  o.nontrivial = m.size() >= 3 && repeats >= 3;
  o.label(decays ? "decay" : "no-decay");
  return o;
}

static Reg r20([] {
  Property p;
  p.id = "P20";
  Suite s;
  s.name = "hashtable";
  s.rule = "operation sequences on the chained tables (the one in use, with and without caller-owned objects, and the older one with its list links), initial sizes 2-256, ids free or sharing the low 2-12 bits of their hash; compared with a map after every operation; non-trivial: at least 2 objects left, 2 deletions, and growth or colliding ids";
  s.gen = gen_hash;
  s.check = check_hash;
  s.n_quick = 60000;
  s.n_thorough = 500000;
  p.suites = {s};
  return p;
});
static Reg r21([] {
  Property p;
  p.id = "P21";
  Suite q;
  q.name = "pqueue";
  q.rule = "insert/pop/peek/change/remove sequences with the default and a reversed comparator, initial capacities from 0, then drained; non-trivial: 2 pops, a priority change and a removal";
  q.gen = gen_pq;
  q.check = check_pq;
  q.n_quick = 60000;
  q.n_thorough = 400000;
  Suite t;
  t.name = "splay";
  t.rule = "insert/delete/splay sequences on keys up to 2^40 in size, whole tree compared with an ordered set after every operation, ranks checked; non-trivial: 2 deletions and 2 rank queries";
  t.gen = gen_splay;
  t.check = check_splay;
  t.n_quick = 30000;
  t.n_thorough = 300000;
  Suite b;
  b.name = "bloom";
  b.rule = "add/check/reset sequences; no added key is ever unknown, check agrees with add, error rate bounded within capacity; non-trivial: 3 keys, a repeated add, 3 negative queries";
  b.gen = gen_filter;
  b.check = check_bloom;
  b.n_quick = 18000;
  b.n_thorough = 100000;
  Suite c = b;
  c.name = "counting";
  c.rule = "add/estimate/decay sequences, one key up to 140000 times; never below the true count, decay halves; non-trivial: 3 keys, 3 repeated adds";
  c.check = check_cbf;
  p.suites = {q, t, b, c};
  return p;
});
