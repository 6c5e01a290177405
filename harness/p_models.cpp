// P04: queue-based algorithms against reference models.
// P05: ranking-based algorithms: every victim has the lowest rank.
// P06: Belady is optimal for equal sizes.
#include <cmath>

#include "cachelib.h"
#include "cworld.h"
#include "models.h"
#include "dataStructure/hash/hash.h"

using namespace cl;
using namespace pbt;

// ------------------------------------------------------------------ P04
static const std::vector<std::string> kQueue = {"FIFO", "LRU", "MRU", "Clock", "Sieve", "SLRU", "TwoQ", "S3FIFO", "ARC", "QDLP"};

static bool ghosty(const Algo *a) { return a->flags & F_GHOST; }

static Case gen_queue(Rng &r, int size) {
  HistOpt o;
  o.max_ops = 420;
  o.names = kQueue;
  o.weights = {92, 0, 4, 0, 2, 1, 0, 1};
  return gen_history(r, size, o);
}

static Outcome check_queue(const Case &k, Ctx &) {
  World w;
  if (!w.init(k) || k.ops.empty()) return Outcome::discard();
  std::unique_ptr<mdl::Model> m = mdl::make_queue_model(w.a->name, k.gets("params"), w.csize, w.md);
  if (!m) return Outcome::discard();
  bool g = ghosty(w.a);
  int64_t n = 0, hits = 0, evictions = 0;
  for (size_t i = 0; i < k.ops.size(); i++) {
    Row r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t kind = clampi(r[0], 0, K_N - 1);
    int64_t idx = w.idx_of(r);
    if (kind == K_REMOVE && !g) {
      bool a = w.c->remove(w.c, w.ids[(size_t)idx]);
      bool b = m->remove(idx);
      if (a != b) PFAIL("remove-result", "op %zu: remove(%lld) returned %d, expected %d", i, (long long)idx, a, b);
    } else if (kind == K_EVICT && !g && !(w.a->flags & F_COMPOSITE)) {
      if (m->bytes() == 0 || w.csize <= w.md) continue;
      w.fill_evict(r, INT64_MAX);
      w.c->evict(w.c, &w.req);
      m->evict({idx, w.req.obj_size, INT64_MAX, n});
    } else if (kind == K_PEEK || kind == K_GETTERS) {
      w.peek(idx);
    } else {
      n++;
      std::set<int64_t> before;
      m->collect(before);
      bool b = m->get({idx, World::size_of(r), INT64_MAX, n});
      bool a = w.get(r, INT64_MAX);
      if (a != b)
        PFAIL("hit-differs", "op %zu: request for %lld (size %lld) %s, the reference model says %s", i, (long long)idx,
              (long long)World::size_of(r), a ? "hit" : "missed", b ? "hit" : "miss");
      hits += a;
      std::set<int64_t> after;
      m->collect(after);
      for (auto x : before) evictions += !after.count(x);
    }
    std::set<int64_t> ms, cs = w.resident_set();
    m->collect(ms);
    if (ms != cs)
      PFAIL("resident-set", "op %zu (kind %lld, object %lld): cached %s, the reference model has %s", i, (long long)kind,
            (long long)idx, show_set(cs).c_str(), show_set(ms).c_str());
    if (m->bytes() != w.c->get_occupied_byte(w.c))
      PFAIL("occupied", "op %zu: %lld bytes occupied, the reference model has %lld", i,
            (long long)w.c->get_occupied_byte(w.c), (long long)m->bytes());
  }
  Outcome o;
  o.nontrivial = hits > 0 && evictions >= 5;
  o.label("algo:" + k.gets("algo"));
  return o;
}

// ------------------------------------------------------------------ P05
// An oracle knows, at every eviction, which residents the definition allows to go.
struct Rank {
  struct O {
    int64_t size = 0, freq = 0, seq = 0, t = 0, t_in = 0, next = 0, rsize = 0;
    double pri = 0;
  };
  std::map<int64_t, O> res;
  int64_t md = 0, cap = 0, bytes = 0, n = 0, seq = 0;
  std::vector<obj_id_t> *ids = nullptr;
  virtual ~Rank() {}
  virtual void on_hit(O &o, const mdl::Req &r) { (void)o, (void)r; }
  virtual void on_insert(O &o, const mdl::Req &r) { (void)o, (void)r; }
  virtual void on_evict(int64_t idx) { (void)idx; }
  virtual double save() { return 0; }
  virtual void restore(double) {}
  virtual std::set<int64_t> allowed(const mdl::Req &r) = 0;
  virtual bool stays(const mdl::Req &) { return true; }  // false: dropped right after the request
  void drop(int64_t idx) {
    bytes -= res[idx].size + md;
    res.erase(idx);
  }
  // residents with the least value of f
  template <class F>
  std::set<int64_t> least(F f) {
    std::set<int64_t> s;
    bool first = true;
    decltype(f(0, res.begin()->second)) best{};
    for (auto &x : res) {
      auto v = f(x.first, x.second);
      if (first || v < best) {
        best = v;
        s.clear();
        first = false;
      }
      if (v == best) s.insert(x.first);
    }
    return s;
  }
};
typedef const mdl::Req &RQ;
struct RLfu : Rank {  // least frequently used, oldest arrival in its frequency first
  void on_hit(O &o, RQ) override { o.freq++, o.seq = ++seq; }
  void on_insert(O &o, RQ) override { o.freq = 1, o.seq = ++seq; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return std::make_pair(o.freq, o.seq); });
  }
};
struct RLfuMru : RLfu {  // CR-LFU: among the least frequent, the most recent
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return std::make_pair(o.freq, -o.seq); });
  }
};
struct RLfuda : Rank {
  int64_t minf = 0;
  static int64_t add(int64_t a, int64_t b) { return a > INT64_MAX - b ? INT64_MAX : a + b; }
  int64_t at(int64_t f) {
    int64_t c = 0;
    for (auto &x : res) c += x.second.freq == f;
    return c;
  }
  void advance() {  // the age moves to the least frequency still in use above it
    int64_t best = -1;
    for (auto &x : res)
      if (x.second.freq > minf && (best < 0 || x.second.freq < best)) best = x.second.freq;
    if (best >= 0) minf = best;
  }
  void on_hit(O &o, RQ) override {
    int64_t old = o.freq;
    o.freq = add(o.freq, minf);
    o.seq = ++seq;
    if (old == minf && at(old) == 0) advance();
  }
  void on_insert(O &o, RQ) override { o.freq = add(minf, 1), o.seq = ++seq; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return std::make_pair(o.freq, o.seq); });
  }
  void on_evict(int64_t idx) override {
    minf = res[idx].freq;
    if (at(minf) == 1) {
      O keep = res[idx];
      res.erase(idx);
      advance();
      res[idx] = keep;
    }
  }
};
struct RLfuCpp : Rank {  // frequency, then time of the last request
  void on_hit(O &o, RQ r) override { o.freq++, o.t = r.n; }
  void on_insert(O &o, RQ r) override { o.freq = 1, o.t = r.n; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return std::make_pair(o.freq, o.t); });
  }
};
struct RGdsf : Rank {  // inflation + frequency / size
  double L = 0;
  void set(O &o, RQ r) { o.pri = L + (double)o.freq * 1.0e6 / (double)o.size, o.t = r.n; }
  void on_hit(O &o, RQ r) override { o.freq++, set(o, r); }
  void on_insert(O &o, RQ r) override { o.freq = 1, set(o, r); }
  std::set<int64_t> allowed(RQ) override {
    std::set<int64_t> s;
    double best = INFINITY;
    for (auto &x : res) best = std::min(best, x.second.pri);
    int64_t et = INT64_MAX;
    double tol = best * 1e-12;  // two ways to reach the same priority may differ in the last bits
    for (auto &x : res)
      if (x.second.pri == best) et = std::min(et, x.second.t);
    for (auto &x : res)
      if (x.second.pri <= best + tol && ((x.second.pri == best && x.second.t == et) || x.second.pri != best)) s.insert(x.first);
    return s;
  }
  void on_evict(int64_t idx) override { L = res[idx].pri; }
  double save() override { return L; }
  void restore(double s) override { L = s; }
};
struct RSize : Rank {  // the object with the largest last requested size
  void on_hit(O &o, RQ r) override { o.rsize = r.size; }
  void on_insert(O &o, RQ r) override { o.rsize = r.size; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return -o.rsize; });
  }
};
struct RBelady : Rank {  // furthest next request
  void on_hit(O &o, RQ r) override { o.next = r.next; }
  void on_insert(O &o, RQ r) override { o.next = r.next; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return -o.next; });
  }
};
struct RHyper : Rank {  // hits per age
  void on_hit(O &o, RQ) override { o.freq++; }
  void on_insert(O &o, RQ r) override { o.freq = 1, o.t_in = r.n; }
  std::set<int64_t> allowed(RQ r) override {
    return least([&](int64_t, const O &o) { return o.freq * 1.0e8 / (double)(r.n - o.t_in); });
  }
};
struct RBeladySize : RBelady {  // largest size x distance to the next request
  std::set<int64_t> allowed(RQ r) override {
    return least([&](int64_t, const O &o) { return -o.size * (o.next - r.n); });
  }
  bool stays(RQ r) override { return r.next != INT64_MAX; }  // never requested again: not kept
};
struct RLru : Rank {
  void on_hit(O &o, RQ) override { o.seq = ++seq; }
  void on_insert(O &o, RQ) override { o.seq = ++seq; }
  std::set<int64_t> allowed(RQ) override {
    return least([](int64_t, const O &o) { return o.seq; });
  }
};
struct RLecar : Rank {  // the victim of LRU or of LFU
  void on_hit(O &o, RQ) override { o.freq++, o.seq = ++seq; }
  void on_insert(O &o, RQ) override { o.freq = 1, o.seq = ++seq; }
  std::set<int64_t> allowed(RQ) override {
    auto s = least([](int64_t, const O &o) { return o.freq; });
    auto l = least([](int64_t, const O &o) { return o.seq; });
    s.insert(l.begin(), l.end());
    return s;
  }
};
struct RAny : Rank {
  std::set<int64_t> allowed(RQ) override {
    std::set<int64_t> s;
    for (auto &x : res) s.insert(x.first);
    return s;
  }
};
static std::unique_ptr<Rank> make_rank(const std::string &a) {
  Rank *r = nullptr;
  if (a == "LFU") r = new RLfu;
  else if (a == "CR_LFU") r = new RLfuMru;
  else if (a == "LFUDA") r = new RLfuda;
  else if (a == "LFUCpp") r = new RLfuCpp;
  else if (a == "GDSF") r = new RGdsf;
  else if (a == "Size") r = new RSize;
  else if (a == "Belady") r = new RBelady;
  else if (a == "BeladySize") r = new RBeladySize;
  else if (a == "Hyperbolic") r = new RHyper;
  else if (a == "LeCaR") r = new RLecar;
  else if (a == "RandomLRU") r = new RLru;
  else if (a == "Random" || a == "RandomTwo") r = new RAny;
  return std::unique_ptr<Rank>(r);
}

static Outcome run_rank(World &w, const Case &k, bool sampled) {
  std::unique_ptr<Rank> m = make_rank(w.a->name);
  if (!m) return Outcome::discard();
  m->md = w.md;
  m->cap = w.csize;
  m->ids = &w.ids;
  bool oracle = w.a->flags & F_ORACLE;
  bool lfuda = k.gets("algo") == "LFUDA";
  std::vector<int64_t> nx = next_access(k.ops);
  if (strcmp(w.a->name, "Belady") == 0) {
    int64_t vbase = clampi(k.geti("vbase"), 0, 1LL << 50);
    for (auto &x : nx)
      if (x != INT64_MAX) x += vbase;
  }
  int64_t hits = 0, evictions = 0, choices = 0;
  for (size_t i = 0; i < k.ops.size(); i++) {
    const Row &r = k.ops[i];
    if (r.size() < 4) continue;
    int64_t kind = clampi(r[0], 0, K_N - 1), idx = w.idx_of(r);
    if (kind == K_REMOVE && !lfuda) {
      bool had = m->res.count(idx);
      bool a = w.c->remove(w.c, w.ids[(size_t)idx]);
      if (a != had) PFAIL("remove-result", "op %zu: remove(%lld) returned %d, expected %d", i, (long long)idx, a, had);
      if (had) m->drop(idx);
    } else if (kind == K_EVICT && !sampled) {
      if (m->res.empty() || w.csize <= w.md) continue;
      w.fill_evict(r, INT64_MAX);
      mdl::Req q{idx, w.req.obj_size, INT64_MAX, m->n};
      auto al = m->allowed(q);
      w.c->evict(w.c, &w.req);
      int64_t gone = -1;
      for (auto &x : m->res)
        if (!w.resident(x.first)) {
          if (gone >= 0) PFAIL("evicts-two", "op %zu: one eviction removed objects %lld and %lld", i, (long long)gone, (long long)x.first);
          gone = x.first;
        }
      if (gone < 0) PFAIL("evicts-none", "op %zu: an eviction removed nothing", i);
      if (!al.count(gone)) PFAIL("wrong-victim", "op %zu: evicted %lld, lowest rank: %s", i, (long long)gone, show_set(al).c_str());
      m->on_evict(gone);
      m->drop(gone);
    } else {
      m->n++;
      mdl::Req q{idx, World::size_of(r), oracle ? nx[i] : INT64_MAX, m->n};
      bool had = m->res.count(idx);
      bool a = w.get(r, oracle ? (kind == K_GET ? nx[i] : nx[i]) : INT64_MAX);
      if (a != had) PFAIL("hit-differs", "op %zu: request for %lld %s, it was %scached", i, (long long)idx, a ? "hit" : "missed", had ? "" : "not ");
      hits += a;
      std::set<int64_t> now = w.resident_set();
      if (had) {
        m->on_hit(m->res[idx], q);
        if (!m->stays(q)) m->drop(idx);
      } else if (q.size + w.md <= w.csize) {
        std::set<int64_t> gone;
        for (auto &x : m->res)
          if (!now.count(x.first)) gone.insert(x.first);
        // is there an order of evictions, each allowed, each needed, that explains what left?
        std::string why;
        int budget = 20000;
        std::function<bool(int)> explain = [&](int depth) -> bool {
          if (m->bytes + q.size + w.md <= w.csize) {
            if (!gone.empty()) why = strf("needless-eviction|also evicted %s", show_set(gone).c_str());
            return gone.empty();
          }
          if (--budget < 0) return true;
          auto al = m->allowed(q);
          std::vector<int64_t> cand;
          for (auto x : al)
            if (gone.count(x)) cand.push_back(x);
          if (cand.empty()) {
            if (why.empty())
              why = strf("wrong-victim|should evict one of %s of %zu objects; still gone %s", show_set(al).c_str(), m->res.size(), show_set(gone).c_str());
            return false;
          }
          std::sort(cand.begin(), cand.end(), [&](int64_t x, int64_t y) { return m->res[x].size < m->res[y].size; });
          choices += al.size() < m->res.size();
          for (auto x : cand) {
            Rank::O keep = m->res[x];
            double st = m->save();
            m->on_evict(x);
            m->drop(x);
            gone.erase(x);
            if (explain(depth + 1)) return true;
            gone.insert(x);
            m->res[x] = keep;
            m->bytes += keep.size + m->md;
            m->restore(st);
          }
          return false;
        };
        int64_t ng = (int64_t)gone.size();
        if (!explain(0))
          PFAIL(why.substr(0, why.find('|')), "op %zu: making room for %lld (size %lld): %s", i, (long long)idx, (long long)q.size,
                why.substr(why.find('|') + 1).c_str());
        if (budget < 0) return Outcome::discard();
        evictions += ng;
        if (m->stays(q)) {
          Rank::O o;
          o.size = q.size;
          m->bytes += q.size + w.md;
          m->res[idx] = o;
          m->on_insert(m->res[idx], q);
        }
      }
    }
    std::set<int64_t> ms, cs = w.resident_set();
    for (auto &x : m->res) ms.insert(x.first);
    if (ms != cs)
      PFAIL("resident-set", "op %zu (kind %lld, object %lld): cached %s, expected %s", i, (long long)kind, (long long)idx,
            show_set(cs).c_str(), show_set(ms).c_str());
  }
  Outcome o;
  o.nontrivial = hits > 0 && evictions >= 5 && choices >= 3;
  o.label("algo:" + k.gets("algo"));
  return o;
}

static const std::vector<std::string> kRank = {"LFU", "CR_LFU", "LFUDA", "LFUCpp", "GDSF", "Size", "Belady", "LeCaR", "Random", "RandomTwo"};
static Case gen_rank(Rng &r, int size) {
  HistOpt o;
  o.max_ops = 420;
  o.names = kRank;
  o.weights = {93, 0, 4, 0, 3};
  Case c = gen_history(r, size, o);
  if (c.gets("algo") == "Belady" && r.chance(0.4)) c.seti("vbase", r.pick(std::vector<int64_t>{1LL << 16, 1LL << 31, 1LL << 32, 1LL << 33, 1LL << 40}) - r.range(0, 50));
  return c;
}
static Outcome check_rank(const Case &k, Ctx &) {
  World w;
  if (!w.init(k) || k.ops.empty()) return Outcome::discard();
  return run_rank(w, k, false);
}

// Sampling algorithms with so many samples that every object is considered.
static Case gen_sampled(Rng &r, int size) {
  HistOpt o;
  o.max_ops = 160;
  o.names = {"Hyperbolic", "BeladySize", "RandomLRU"};
  o.weights = {96, 0, 4};
  Case c = gen_history(r, size, o);
  std::string a = c.gets("algo");
  c.sets("params", a == "RandomLRU" ? "n-samples=400" : "n-sample=400");
  for (auto &op : c.ops) op[1] %= 10;
  // sizes stay consistent with the folded ids in half of the cases only: sizes may change anyway
  int64_t tot = 0;
  std::map<int64_t, int64_t> sz;
  for (auto &op : c.ops) {
    if (!sz.count(op[1])) sz[op[1]] = op[2], tot += op[2];
    if (c.geti("rseed") % 2) op[2] = sz[op[1]];
  }
  c.seti("csize", std::max<int64_t>(1, (int64_t)((double)tot * (0.2 + 0.7 * r.unit()))) + (c.geti("md") ? 60 : 0));
  c.seti("hp", 12);
  return c;
}
static Outcome check_sampled(const Case &k, Ctx &) {
  World w;
  if (!w.init(k) || k.ops.empty()) return Outcome::discard();
  // sampling sees the first object of a bucket: give every object its own bucket
  std::set<uint64_t> used;
  uint64_t next = (uint64_t)w.idmode * 100003 + 1;
  for (auto &id : w.ids) {
    for (;; next++) {
      uint64_t b = get_hash_value_int_64(&next) & 4095;
      if (used.insert(b).second) break;
    }
    id = next++;
  }
  if (w.ids.size() > 10) return Outcome::discard();
  return run_rank(w, k, true);
}

// ------------------------------------------------------------------ P06
static Case gen_opt(Rng &r, int size) {
  Case c;
  bool small = r.chance(0.5);
  int nobj = small ? (int)r.range(2, 8) : (int)r.range(5, 60);
  StreamOpt so;
  so.max_ops = small ? 40 : 500;
  so.max_obj = nobj;
  gen_stream(r, size, so, c);
  int64_t s = r.chance(0.5) ? 1 : r.range(2, 4000);
  for (auto &op : c.ops) op[1] %= nobj, op[2] = s, op[0] = 0;
  c.seti("unit", s);
  c.seti("slots", small ? r.range(1, 4) : r.range(1, std::max(2, nobj - 1)));
  c.seti("slack", r.range(0, s - 1));
  c.seti("hp", r.range(4, 9));
  c.seti("rseed", r.range(1, 1000));
  // the trace may be long: the next accesses are far from 0
  if (r.chance(0.4)) c.seti("vbase", r.pick(std::vector<int64_t>{1LL << 15, 1LL << 16, 1LL << 31, 1LL << 32, 1LL << 33, 1LL << 40, 1LL << 48}) - r.range(0, 50));
  return c;
}
static Outcome check_opt(const Case &k, Ctx &) {
  if (k.ops.empty()) return Outcome::discard();
  int64_t s = clampi(k.geti("unit", 1), 1, 1 << 20), slots = clampi(k.geti("slots", 1), 1, 1 << 12);
  std::vector<int64_t> seq;
  for (auto &op : k.ops)
    if (op.size() >= 4) seq.push_back(clampi(op[1], 0, 8191));
  std::vector<int64_t> nx = next_access(k.ops);
  int64_t vbase = clampi(k.geti("vbase"), 0, 1LL << 50);
  for (auto &x : nx)
    if (x != INT64_MAX) x += vbase;
  auto run = [&](const std::string &algo, int64_t &miss) {
    Case kk = k;
    kk.sets("algo", algo);
    kk.seti("csize", s * slots + k.geti("slack"));
    World w;
    if (!w.init(kk)) return false;
    miss = 0;
    bool oracle = w.a->flags & F_ORACLE;
    for (size_t i = 0; i < k.ops.size(); i++) {
      Row r = k.ops[i];
      if (r.size() < 4) continue;
      r[2] = s;
      miss += !w.get(r, oracle ? nx[i] : INT64_MAX);
    }
    return true;
  };
  int64_t belady;
  if (!run("Belady", belady)) return Outcome::discard();
  // furthest-in-future with plain sets
  int64_t mn = 0;
  {
    std::set<int64_t> cache;
    for (size_t i = 0; i < seq.size(); i++) {
      if (cache.count(seq[i])) continue;
      mn++;
      if ((int64_t)cache.size() == slots) {
        int64_t far = -1;
        size_t fd = 0;
        for (auto x : cache) {
          size_t j = i + 1;
          while (j < seq.size() && seq[j] != x) j++;
          if (far < 0 || j > fd) far = x, fd = j;
        }
        cache.erase(far);
      }
      cache.insert(seq[i]);
    }
  }
  if (belady != mn) PFAIL("not-optimal", "Belady misses %lld of %zu requests, furthest-in-future misses %lld", (long long)belady, seq.size(), (long long)mn);
  std::set<int64_t> distinct(seq.begin(), seq.end());
  bool exact = false;
  if (distinct.size() <= 8 && slots <= 4) {  // every strategy: dynamic programme over cache contents
    exact = true;
    std::map<int64_t, int> num;
    for (auto x : distinct) {
      int q = (int)num.size();
      num[x] = q;
    }
    std::map<unsigned, int64_t> cur{{0u, 0}}, nxt;
    for (auto x : seq) {
      unsigned b = 1u << num[x];
      nxt.clear();
      auto put = [&](unsigned st, int64_t c) {
        auto it = nxt.find(st);
        if (it == nxt.end() || it->second > c) nxt[st] = c;
      };
      for (auto &e : cur) {
        if (e.first & b) {
          put(e.first, e.second);
        } else {
          if (__builtin_popcount(e.first) < slots) put(e.first | b, e.second + 1);
          else
            for (unsigned v = 0; v < 8; v++)
              if (e.first & (1u << v)) put((e.first & ~(1u << v)) | b, e.second + 1);
        }
      }
      cur.swap(nxt);
    }
    int64_t best = INT64_MAX;
    for (auto &e : cur) best = std::min(best, e.second);
    if (belady != best) PFAIL("not-optimal-exact", "Belady misses %lld, the optimum over all strategies is %lld", (long long)belady, (long long)best);
  }
  // no algorithm of the pool does better
  static const std::vector<std::string> pool = {"LRU", "FIFO", "Clock", "Sieve", "LFU", "LFUDA", "GDSF", "ARC", "Hyperbolic", "LeCaR", "Random", "MRU", "BeladySize", "S3FIFO", "SLRU", "TwoQ"};
  Rng rr((uint64_t)k.geti("rseed", 1));
  for (int i = 0; i < 4; i++) {
    int64_t m;
    const std::string &a = rr.pick(pool);
    if (!run(a, m)) continue;
    if (m < belady) PFAIL("beaten", "%s misses %lld, Belady misses %lld of %zu requests", a.c_str(), (long long)m, (long long)belady, seq.size());
  }
  Outcome o;
  o.nontrivial = (int64_t)distinct.size() > slots && (size_t)mn < seq.size() && mn > (int64_t)distinct.size();
  o.label(exact ? "exact" : "large");
  return o;
}

static Reg r04([] {
  Property p;
  p.id = "P04";
  Suite s;
  s.name = "queues";
  s.rule = "one of 10 queue-based algorithms with random parameters, sizes and metadata; requests with some user removals and evictions (where the definition covers them); hit, resident set and occupied bytes are compared with the reference model after every operation; non-trivial: at least one hit and 5 evictions";
  s.gen = gen_queue;
  s.check = check_queue;
  s.n_quick = 60000;
  s.n_thorough = 400000;
  p.suites = {s};
  return p;
});
static Reg r05([] {
  Property p;
  p.id = "P05";
  Suite s;
  s.name = "rank";
  s.rule = "one of 10 ranking-based algorithms; every object that leaves must be one that the definition ranks lowest at that point, exactly as many leave as needed; non-trivial: a hit, 5 evictions, 3 of them with a real choice";
  s.gen = gen_rank;
  s.check = check_rank;
  s.n_quick = 50000;
  s.n_thorough = 300000;
  Suite t = s;
  t.name = "sampled";
  t.rule = "Hyperbolic, BeladySize and RandomLRU with at most 10 objects in separate buckets and 400 samples, so that all objects are considered (chance of missing one below 1e-17); same oracle";
  t.gen = gen_sampled;
  t.check = check_sampled;
  t.n_quick = 7000;
  t.n_thorough = 30000;
  p.suites = {s, t};
  return p;
});
static Reg r06([] {
  Property p;
  p.id = "P06";
  Suite s;
  s.name = "optimal";
  s.rule = "equal-size request sequences over 2-60 objects, 1-59 slots; Belady against furthest-in-future, against a dynamic programme over all strategies when at most 8 objects and 4 slots, and against 4 random other algorithms; non-trivial: more objects than slots, some hits and some capacity misses";
  s.gen = gen_opt;
  s.check = check_opt;
  s.n_quick = 20000;
  s.n_thorough = 150000;
  p.suites = {s};
  return p;
});
