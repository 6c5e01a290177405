// P09 LRU vs stack distances, P10 reuse distances
#include <fstream>
#include <sstream>

#include "libCacheSim/dist.h"
#include "libCacheSim/profilerLRU.h"
#include "rworld.h"

namespace {

// ids in the order in which a reader with the same parameters returns them
std::vector<uint64_t> stream(reader_t *rd) {
  std::vector<uint64_t> v;
  request_t *q = new_request();
  while (read_one_req(rd, q) == 0) v.push_back(q->obj_id);
  free_request(q);
  return v;
}

// a reader owns its sampler
void set_sampler(const Case &c, File &x) {
  static const double ratio[5] = {1, 0.5, 0.4, 0.25, 0.1};
  int64_t k = c.geti("sample");
  if (k > 0 && k < 5 && !c.geti("nullparams")) x.params.p.sampler = create_spatial_sampler(ratio[k]);
}

struct Dists {
  std::vector<int64_t> last, first, stack, future;
  int64_t max_stack = -1;
};

// by definition, over positions; a Fenwick tree counts the most recent accesses in between
Dists define(const std::vector<uint64_t> &v) {
  Dists d;
  size_t n = v.size();
  d.last.assign(n, -1);
  d.first.assign(n, -1);
  d.stack.assign(n, -1);
  d.future.assign(n, -1);
  std::vector<int32_t> bit(n + 2, 0);
  auto add = [&](size_t i, int x) {
    for (i++; i <= n; i += i & -i) bit[i] += x;
  };
  auto sum = [&](size_t i) {  // of [0,i)
    int64_t s = 0;
    for (; i > 0; i -= i & -i) s += bit[i];
    return s;
  };
  std::unordered_map<uint64_t, size_t> l, f;
  for (size_t i = 0; i < n; i++) {
    auto it = l.find(v[i]);
    if (it == l.end()) {
      f[v[i]] = i;
    } else {
      size_t p = it->second;
      d.last[i] = (int64_t)(i - p);
      d.first[i] = (int64_t)(i - f[v[i]]);
      d.stack[i] = sum(i) - sum(p + 1);
      d.future[p] = d.stack[i];
      d.max_stack = std::max(d.max_stack, d.stack[i]);
      add(p, -1);
    }
    add(i, 1);
    l[v[i]] = i;
  }
  return d;
}

// the same from the plain text of the definition, for short streams
bool agrees_naively(const std::vector<uint64_t> &v, const Dists &d) {
  for (size_t i = 0; i < v.size(); i++) {
    std::unordered_set<uint64_t> between;
    int64_t sd = -1, la = -1;
    for (size_t j = i; j-- > 0;) {
      if (v[j] == v[i]) {
        sd = (int64_t)between.size();
        la = (int64_t)(i - j);
        break;
      }
      between.insert(v[j]);
    }
    if (sd != d.stack[i] || la != d.last[i]) return false;
  }
  return true;
}

struct Kind {
  dist_type_e t;
  const char *name, *cli;
  const std::vector<int64_t> &(*pick)(const Dists &);
};
const Kind kKinds[4] = {
    {STACK_DIST, "STACK_DIST", "stack_dist", [](const Dists &d) -> const std::vector<int64_t> & { return d.stack; }},
    {FUTURE_STACK_DIST, "FUTURE_STACK_DIST", "future_stack_dist", [](const Dists &d) -> const std::vector<int64_t> & { return d.future; }},
    {DIST_SINCE_LAST_ACCESS, "DIST_SINCE_LAST_ACCESS", "dist_since_last_access", [](const Dists &d) -> const std::vector<int64_t> & { return d.last; }},
    {DIST_SINCE_FIRST_ACCESS, "DIST_SINCE_FIRST_ACCESS", "dist_since_first_access", [](const Dists &d) -> const std::vector<int64_t> & { return d.first; }},
};

std::string same(const int32_t *a, int64_t n, const std::vector<int64_t> &e, const std::vector<uint64_t> *ids = nullptr) {
  if (n != (int64_t)e.size()) return strf("%lld values for %zu requests", (long long)n, e.size());
  for (int64_t i = 0; i < n; i++)
    if (a[i] != e[(size_t)i])
      return strf("value %lld of %lld%s is %d, expected %lld", (long long)i, (long long)n,
                  ids ? strf(" (object %llu)", (unsigned long long)(*ids)[(size_t)i]).c_str() : "", a[i], (long long)e[(size_t)i]);
  return "";
}

// judges a file written for the expected values
std::string judge_file(const std::string &path, const std::string &how, const std::vector<int64_t> &e) {
  std::string data;
  if (!read_file(path, data)) return "there is no file " + path;
  if (how == "binary") {
    if (data.size() != e.size() * 4) return strf("the file has %zu bytes for %zu requests", data.size(), e.size());
    return same((const int32_t *)data.data(), (int64_t)e.size(), e);
  }
  std::vector<int64_t> got;
  if (how == "txt") {
    std::istringstream in(data);
    int64_t x;
    while (in >> x) got.push_back(x);
    if (!in.eof()) return "the file has something else than numbers";
    if (got.size() != e.size()) return strf("the file has %zu values for %zu requests", got.size(), e.size());
    for (size_t i = 0; i < e.size(); i++)
      if (got[i] != e[i]) return strf("line %zu is %lld, expected %lld", i, (long long)got[i], (long long)e[i]);
    return "";
  }
  std::map<int64_t, int64_t> want, have;
  for (auto x : e) want[x == -1 ? INT64_MAX : x]++;
  const char *p = data.c_str();
  while (*p) {
    long long k, c;
    int len = 0;
    if (sscanf(p, "%lld:%lld, %n", &k, &c, &len) != 2 || len == 0) return strf("cannot parse '%.40s'", p);
    if (k == -1) k = INT64_MAX;
    if (have.count(k)) return strf("distance %lld is listed twice", k);
    have[k] = c;
    p += len;
  }
  if (have != want) {
    for (auto &w : want)
      if (!have.count(w.first) || have[w.first] != w.second)
        return strf("distance %lld is counted %lld times, expected %lld", (long long)w.first,
                    have.count(w.first) ? (long long)have[w.first] : 0LL, (long long)w.second);
    return "distances are counted that do not occur";
  }
  return "";
}

// streams with reuse at all scales
void gen_reuse(Rng &r, int size, Case &c, int maxn) {
  int n = (int)r.range(1, std::max<int64_t>(4, (int64_t)maxn * (size + 5) / 105));
  int pat = (int)r.range(0, 4);
  int64_t nobj = r.range(1, std::max<int64_t>(2, pat == 3 ? n : n / 2));
  c.seti("idmode", r.range(0, 3));
  c.seti("t0", r.chance(0.5) ? 0 : r.range(1, 100000));
  std::vector<int64_t> recent;
  bool zeros = r.chance(0.2);
  for (int i = 0; i < n; i++) {
    int64_t id;
    switch (pat) {
      case 0: id = r.range(0, nobj - 1); break;
      case 1: id = i % nobj; break;                                             // loop
      case 2: id = r.logrange(1, nobj) - 1; break;                              // skew
      case 3: id = r.chance(0.5) || recent.empty() ? i : r.pick(recent); break;  // new ones in between
      default: {                                                                // LRU-stack like
        size_t k = (size_t)r.logrange(1, (int64_t)recent.size() + 2) - 1;
        id = k < recent.size() ? recent[recent.size() - 1 - k] : r.range(0, nobj - 1);
      }
    }
    recent.push_back(id);
    c.ops.push_back({0, id, zeros && r.chance(0.2) ? 0 : r.range(1, 100), r.range(0, 2), r.chance(0.5) ? 0 : r.range(1, 1 << 20)});
  }
}

Case gen_dist(Rng &r, int size, bool cli) {
  Case c;
  std::vector<const Fmt *> pool;
  for (auto &f : fmts())
    if (!cli || f.cli) pool.push_back(&f);
  const Fmt *f = r.pick(pool);
  if (r.chance(0.3)) f = find(r.chance(0.5) ? "txt" : "oracleGeneral");
  c.sets("format", f->name);
  gen_reuse(r, size, c, cli ? 120 : 260);
  gen_shape(r, *f, c);
  if (r.chance(0.3)) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
  if (f->zst && r.chance(0.15)) {
    c.seti("zst", 1);
    c.seti("zlevel", 3);
  }
  c.seti("kind", r.range(0, 3));
  if (!cli) {
    if (r.chance(0.15)) c.seti("sample", r.range(1, 4));
    c.seti("from", r.chance(0.2) ? r.range(1, 10) : 0);
  } else {
    c.seti("out", r.range(0, 2));
  }
  return c;
}

Outcome check_dist(const Case &c, Ctx &ctx) {
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  x.params.p.cap_at_n_req = c.geti("cap", -1);
  set_sampler(c, x);
  reader_t *ref = open_reader(c, x);
  std::vector<uint64_t> v = stream(ref);
  close_reader(ref);
  set_sampler(c, x);
  Dists d = define(v);
  if (v.size() < 200 && !agrees_naively(v, d)) PFAIL("harness", "the oracle disagrees with itself");
  reader_t *rd = open_reader(c, x);
  const Kind &k = kKinds[c.geti("kind") & 3];
  for (int pass = 0; pass < 2; pass++) {
    int64_t n = -7;
    int32_t *a = k.t == STACK_DIST || k.t == FUTURE_STACK_DIST ? get_stack_dist(rd, k.t, &n) : get_access_dist(rd, k.t, &n);
    std::string bad = same(a, n, k.pick(d), &v);
    if (!bad.empty()) PFAIL(pass ? "second" : "array", "%s %s: %s", x.f->name, k.name, bad.c_str());
    if (pass) {
      free(a);
      break;
    }
    // save, load
    std::string base = ctx.scratch + "/d";
    save_dist(rd, a, n, base.c_str(), k.t);
    save_dist_txt(rd, a, n, base.c_str(), k.t);
    save_dist_as_cnt_txt(rd, a, n, base.c_str(), k.t);
    std::string path = base + "." + k.name;
    int64_t m = -7;
    int32_t *b = load_dist(rd, path.c_str(), &m);
    bad = same(b, m, k.pick(d));
    if (!bad.empty()) PFAIL("load", "%s %s: after save and load: %s", x.f->name, k.name, bad.c_str());
    free(b);
    bad = judge_file(path, "binary", k.pick(d));
    if (bad.empty()) bad = judge_file(path + ".txt", "txt", k.pick(d));
    if (bad.empty()) bad = judge_file(path + ".cnt", "cnt", k.pick(d));
    if (!bad.empty()) PFAIL("file", "%s %s: %s", x.f->name, k.name, bad.c_str());
    free(a);
  }
  // the reader can be used again
  std::vector<uint64_t> w = stream(rd);
  if (w != v) PFAIL("reader", "%s: after computing distances the reader returns %zu requests, or others than before (%zu)", x.f->name, w.size(), v.size());
  close_reader(rd);
  Outcome o;
  o.nontrivial = d.max_stack >= 1 && v.size() >= 5;
  o.label(k.name);
  if (v.size() != x.all.size()) o.label("fewer-than-records");
  return o;
}

// many objects: the order statistics tree becomes deep
Case gen_deep(Rng &r, int size) {
  (void)size;
  Case c;
  c.seti("n", r.logrange(2000, 400000));
  c.seti("pat", r.range(0, 5));
  c.seti("seed", r.range(0, 1 << 30));
  c.seti("kind", r.range(0, 3));
  return c;
}
Outcome check_deep(const Case &c, Ctx &ctx) {
  int64_t n = std::min<int64_t>(std::max<int64_t>(c.geti("n"), 1), 500000), pat = c.geti("pat");
  Rng r((uint64_t)c.geti("seed"));
  std::vector<uint64_t> v;
  v.reserve((size_t)n);
  for (int64_t i = 0; i < n; i++) {
    int64_t id;
    switch (pat) {
      case 0: id = i; break;                                            // never reused
      case 1: id = i % (n / 2 + 1); break;                               // scan twice
      case 2: id = i < n / 2 ? i : n - 1 - i; break;                     // back and forth
      case 3: id = r.range(0, n - 1); break;                             // uniform
      case 4: id = r.logrange(1, n) - 1; break;                          // skew
      default: id = i % 1000 == 7 ? 3 : i; break;                        // one hot object
    }
    v.push_back((uint64_t)id + 1);
  }
  std::string data;
  for (auto x : v) data += strf("%llu\n", (unsigned long long)x);
  std::string path = ctx.scratch + "/t.txt";
  write_file(path, data);
  reader_init_param_t p = default_reader_init_params();
  p.obj_id_is_num = true;
  reader_t *rd = setup_reader(path.c_str(), PLAIN_TXT_TRACE, &p);
  Dists d = define(v);
  const Kind &k = kKinds[c.geti("kind") & 3];
  int64_t m = -7;
  int32_t *a = k.t == STACK_DIST || k.t == FUTURE_STACK_DIST ? get_stack_dist(rd, k.t, &m) : get_access_dist(rd, k.t, &m);
  std::string bad = same(a, m, k.pick(d), &v);
  if (!bad.empty()) PFAIL("array", "%lld requests, pattern %lld, %s: %s", (long long)n, (long long)pat, k.name, bad.c_str());
  free(a);
  close_reader(rd);
  unlink(path.c_str());
  Outcome o;
  o.nontrivial = n > 5000;
  return o;
}

// the command line tool
Outcome check_dist_cli(const Case &c0, Ctx &ctx) {
  Case c = c0;
  File x;
  const Fmt *f = find(c.gets("format"));
  if (!f || !f->cli) return Outcome::discard();
  if (!open_case(c, ctx, x)) return Outcome::discard();
  x.params.p.cap_at_n_req = c.geti("cap", -1);
  std::string params = cli_params(*f, c);
  reader_t *ref = open_reader(c, x);
  std::vector<uint64_t> v = stream(ref);
  close_reader(ref);
  Dists d = define(v);
  static const char *outs[3] = {"binary", "txt", "cntTxt"};
  static const char *ext[3] = {"", ".txt", ".cnt"};
  int64_t out = c.geti("out") % 3;
  if (out < 0) out = 0;
  const Kind &k = kKinds[c.geti("kind") & 3];
  std::vector<std::string> argv = {std::string(getenv("VERIF_DIR")) + "/build/rel/bin/distUtil", x.path, f->cli, k.cli, outs[out],
                                   ctx.scratch + "/out"};
  if (!params.empty()) {
    argv.push_back("-t");
    argv.push_back(params);
  }
  if (c.geti("cap", -1) > 0) {
    argv.push_back("-n");
    argv.push_back(strf("%lld", (long long)c.geti("cap")));
  }
  ProcResult pr = run_proc(argv, ctx.scratch, 60, ctx.scratch);
  std::string cmd = "distUtil";
  for (size_t i = 2; i < argv.size(); i++) cmd += " " + argv[i];
  if (pr.timeout) PFAIL("timeout", "%s does not end", cmd.c_str());
  if (pr.rc != 0) PFAIL("exit", "%s exits with %d: %.200s", cmd.c_str(), pr.rc, pr.err.c_str());
  std::string bad = judge_file(ctx.scratch + "/out." + k.name + ext[out], out == 0 ? "binary" : out == 1 ? "txt" : "cnt", k.pick(d));
  if (!bad.empty()) PFAIL("output", "%s: %s", cmd.c_str(), bad.c_str());
  Outcome o;
  o.nontrivial = d.max_stack >= 1 && v.size() >= 5;
  o.label(outs[out]);
  return o;
}

// ---------------------------------------------------------------- P09
Case gen_lru(Rng &r, int size) {
  Case c;
  const Fmt *f = r.chance(0.4) ? find("oracleGeneral") : &r.pick(fmts());
  c.sets("format", f->name);
  gen_reuse(r, size, c, 220);
  gen_shape(r, *f, c);
  if (r.chance(0.3)) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
  if (r.chance(0.1)) c.seti("sample", r.range(1, 4));
  c.seti("asksize", r.chance(0.3) ? r.range(0, 5) : r.range(0, 200));
  c.seti("hp", r.range(2, 8));
  return c;
}

Outcome check_lru(const Case &c, Ctx &ctx) {
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  x.params.p.cap_at_n_req = c.geti("cap", -1);
  x.params.p.ignore_obj_size = true;
  set_sampler(c, x);
  reader_t *rd = open_reader(c, x);
  std::vector<uint64_t> v = stream(rd);
  reset_reader(rd);
  if (v.empty()) return Outcome::discard();
  Dists d = define(v);
  int64_t S = std::min<int64_t>(std::max<int64_t>(c.geti("asksize"), 0), 400);
  if (c.geti("nullparams")) return Outcome::discard();
  std::vector<int64_t> hits((size_t)std::max<int64_t>(S, 1) + 1, 0);
  for (auto s : d.stack)
    if (s >= 0)
      for (int64_t z = s + 1; z <= S; z++) hits[(size_t)z]++;
  double *mr = get_lru_obj_miss_ratio(rd, S);
  for (int64_t z = 0; z <= S; z++) {
    double e = (double)((int64_t)v.size() - hits[(size_t)z]) / (double)v.size();
    if (std::abs(mr[z] - e) > 1e-12)
      PFAIL("profiler", "%s: the profiler gives miss ratio %.6f at size %lld, the stack distances give %.6f (%zu requests)", x.f->name, mr[z],
            (long long)z, e, v.size());
  }
  g_free(mr);
  double *mc = get_lru_obj_miss_ratio_curve(rd, S);
  guint64 *cnt = _get_lru_miss_cnt(rd, S);
  for (int64_t z = 0; z <= S; z++) {
    int64_t e = (int64_t)v.size() - hits[(size_t)z];
    if ((int64_t)cnt[z] != e) PFAIL("profiler-count", "%s: the profiler counts %lld misses at size %lld, expected %lld", x.f->name, (long long)cnt[z], (long long)z, (long long)e);
    if (std::abs(mc[z] - (double)e / (double)v.size()) > 1e-12) PFAIL("profiler-curve", "%s: the curve gives %.6f at size %lld", x.f->name, mc[z], (long long)z);
  }
  g_free(mc);
  g_free(cnt);
  // simulated caches
  Rng r(ctx.seed);
  std::vector<int64_t> sizes;
  if (S <= 12)
    for (int64_t z = 1; z <= S; z++) sizes.push_back(z);
  else
    for (int i = 0; i < 12; i++) sizes.push_back(r.logrange(1, S));
  if (d.max_stack >= 0) {
    sizes.push_back(d.max_stack + 1);
    sizes.push_back(std::max<int64_t>(d.max_stack, 1));
    sizes.push_back(r.pick(d.stack) + 1);
  }
  request_t *q = new_request();
  for (auto z : sizes) {
    if (z < 1) continue;
    cache_t *cache = cl::make_cache("LRU", z, "", false, (int)std::min<int64_t>(std::max<int64_t>(c.geti("hp", 6), 1), 12));
    reset_reader(rd);
    for (size_t i = 0; i < v.size(); i++) {
      if (read_one_req(rd, q) != 0) PFAIL("reader", "%s: the reader ends early after the profiler", x.f->name);
      bool hit = cache->get(cache, q), e = d.stack[i] >= 0 && d.stack[i] < z;
      if (hit != e)
        PFAIL("simulation", "%s: LRU of %lld objects %s request %zu of object %llu whose stack distance is %lld", x.f->name, (long long)z,
              hit ? "hits" : "misses", i, (unsigned long long)v[i], (long long)d.stack[i]);
    }
    cache->cache_free(cache);
  }
  free_request(q);
  close_reader(rd);
  Outcome o;
  o.nontrivial = d.max_stack >= 1 && S >= 2;
  if (d.max_stack > 20) o.label("deep");
  return o;
}

// inclusion of LRU caches of growing byte sizes over objects that fit all of them
Case gen_incl(Rng &r, int size) {
  Case c;
  gen_reuse(r, size, c, 220);
  c.seti("maxobj", r.logrange(1, 300));
  int k = (int)r.range(2, 6);
  c.seti("ncache", k);
  c.seti("grow", r.range(0, 2));
  c.seti("base", r.chance(0.4) ? 1 : r.logrange(1, 12));
  c.seti("md", r.chance(0.3));
  c.seti("hp", r.range(2, 8));
  return c;
}
Outcome check_incl(const Case &c, Ctx &ctx) {
  int64_t maxobj = std::max<int64_t>(1, c.geti("maxobj", 1));
  bool md = c.geti("md") != 0;
  int64_t base = maxobj * std::max<int64_t>(1, c.geti("base", 1)) + (md ? 64 : 0);
  int n = (int)std::min<int64_t>(std::max<int64_t>(2, c.geti("ncache", 2)), 8);
  std::vector<cache_t *> cs;
  std::vector<int64_t> sz;
  Rng r(ctx.seed);
  for (int i = 0; i < n; i++) {
    int64_t s = sz.empty() ? base : sz.back() + (c.geti("grow") == 0 ? 1 : c.geti("grow") == 1 ? maxobj : r.logrange(1, 10 * maxobj));
    sz.push_back(s);
    cs.push_back(cl::make_cache("LRU", s, "", md, (int)std::min<int64_t>(std::max<int64_t>(c.geti("hp", 6), 1), 12)));
  }
  request_t *q = new_request();
  std::unordered_map<int64_t, int64_t> osz;
  int64_t diff = 0, step = 0;
  for (auto &o : c.ops) {
    if (o.size() < 3) continue;
    auto it = osz.find(o[1]);
    if (it == osz.end()) it = osz.emplace(o[1], (((o[2] < 0 ? 0 : o[2]) * 2654435761LL + o[1]) & 0x7fffffff) % maxobj + 1).first;
    cl::fill_req(q, map_id(o[1], c.geti("idmode")), it->second, step, -2);
    bool small_hit = false;
    for (int i = 0; i < n; i++) {
      bool hit = cs[(size_t)i]->get(cs[(size_t)i], q);
      if (small_hit && !hit)
        PFAIL("inclusion", "step %lld: LRU of %lld bytes hits an object of %lld bytes that LRU of %lld bytes misses", (long long)step,
              (long long)sz[(size_t)i - 1], (long long)it->second, (long long)sz[(size_t)i]);
      if (i && hit && !small_hit) diff++;
      small_hit = hit;
    }
    step++;
  }
  // contents
  for (auto &kv : osz) {
    cl::fill_req(q, map_id(kv.first, c.geti("idmode")), kv.second, step, -2);
    bool in = false;
    for (int i = 0; i < n; i++) {
      bool has = cs[(size_t)i]->find(cs[(size_t)i], q, false) != nullptr;
      if (in && !has)
        PFAIL("contents", "an object of LRU of %lld bytes is not in LRU of %lld bytes", (long long)sz[(size_t)i - 1], (long long)sz[(size_t)i]);
      in = has;
    }
  }
  for (int i = 0; i < n; i++) cs[(size_t)i]->cache_free(cs[(size_t)i]);
  free_request(q);
  Outcome o;
  o.nontrivial = diff > 0;
  return o;
}

Property p09() {
  Property p;
  p.id = "P09";
  Suite s;
  s.name = "curve";
  s.rule = "traces of random formats with reuse at all scales (with caps and samplers), sizes ignored; profiler curve at all sizes up to the "
           "asked one, LRU simulated at about 15 sizes; non-trivial: some stack distance >= 1";
  s.gen = gen_lru;
  s.check = check_lru;
  s.n_quick = 40000;
  s.n_thorough = 300000;
  p.suites.push_back(s);
  s.name = "inclusion";
  s.rule = "2-6 LRU caches of growing byte sizes (from growth by 1 byte), objects of random sizes that all of them can hold; non-trivial: a "
           "larger one hits where a smaller one misses";
  s.gen = gen_incl;
  s.check = check_incl;
  s.n_quick = 45000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  p.assumptions = {"stack distances by definition (Fenwick tree, cross-checked against the quadratic definition on streams below 200)"};
  return p;
}
Property p10() {
  Property p;
  p.id = "P10";
  Suite s;
  s.name = "library";
  s.rule = "traces of every format with reuse at all scales, capped or sampled readers; arrays, second call, saved files and loaded arrays; "
           "non-trivial: some stack distance >= 1";
  s.gen = [](Rng &r, int size) { return gen_dist(r, size, false); };
  s.check = check_dist;
  s.n_quick = 45000;
  s.n_thorough = 400000;
  p.suites.push_back(s);
  s.name = "deep";
  s.rule = "traces of up to 400,000 requests in patterns that make deep trees; non-trivial: more than 5000 requests";
  s.gen = gen_deep;
  s.check = check_deep;
  s.n_quick = 160;
  s.n_thorough = 1500;
  s.batch = 2;
  s.cpu_limit_s = 60;
  p.suites.push_back(s);
  s.name = "distUtil";
  s.rule = "the command line tool on traces of all formats it names, all distance types and output types, with and without -n; non-trivial: some "
           "stack distance >= 1";
  s.gen = [](Rng &r, int size) { return gen_dist(r, size, true); };
  s.check = check_dist_cli;
  s.n_quick = 4000;
  s.n_thorough = 20000;
  s.batch = 16;
  p.suites.push_back(s);
  p.assumptions = {"the stream of ids is what the same reader returns when it is read sequentially (P12 decides that)"};
  return p;
}
Reg r09(p09), r10(p10);
}  // namespace
