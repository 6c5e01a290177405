// P15: the command line simulator against caches driven directly
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <map>

#include "simworld.h"

namespace {

struct CliAlgo {
  const char *cli, *algo;
};
const CliAlgo kCli[] = {{"lru", "LRU"}, {"fifo", "FIFO"}, {"clock", "Clock"}, {"fifo-reinsertion", "Clock"}, {"second-chance", "Clock"},
                        {"sieve", "Sieve"}, {"slru", "SLRU"}, {"lfu", "LFU"}, {"lfucpp", "LFUCpp"}, {"lfuda", "LFUDA"}, {"gdsf", "GDSF"},
                        {"arc", "ARC"}, {"twoq", "TwoQ"}, {"2q", "TwoQ"}, {"s3fifo", "S3FIFO"}, {"s3-fifo", "S3FIFO"}, {"qdlp", "QDLP"},
                        {"belady", "Belady"}, {"beladySize", "BeladySize"}, {"hyperbolic", "Hyperbolic"}, {"lecar", "LeCaR"},
                        {"cacheus", "Cacheus"}, {"lhd", "LHD"}, {"wtinyLFU", "WTinyLFU"}, {"random", "Random"}, {"size", "Size"},
                        {"randomTwo", "RandomTwo"}, {"randomLRU", "RandomLRU"}, {"tinyLFU", "WTinyLFU"}, {"fifo-merge", "FIFO_Merge"},
                        {"FIFOMERGE", "FIFO_Merge"}, {"sfifo", "SFIFO"}, {"lru-prob", "LRU_Prob"}, {"s3lru", "S3LRU"}, {"s3fifod", "S3FIFOd"},
                        {"LRU", "LRU"}, {"SIEVE", "Sieve"}};
const CliAlgo *find_cli(const std::string &s) {
  for (auto &a : kCli)
    if (s == a.cli) return &a;
  return nullptr;
}
std::vector<std::string> split(const std::string &s, char d) {
  std::vector<std::string> v;
  std::string cur;
  for (char ch : s) {
    if (ch == d) {
      v.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  }
  v.push_back(cur);
  return v;
}
std::string squeeze(const std::string &s) {
  std::string o;
  for (char ch : s) {
    if (isspace((unsigned char)ch)) {
      if (!o.empty() && o.back() != ' ') o += ' ';
    } else
      o += ch;
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}

Case gen(Rng &r, int size) {
  Case c;
  int na = r.chance(0.5) ? 1 : (int)r.range(2, 4);
  bool oracle = false, uniform = false;
  std::string names;
  std::vector<const CliAlgo *> as;
  for (int i = 0; i < na; i++) {
    const CliAlgo *a = &kCli[r.range(0, (int64_t)(sizeof kCli / sizeof *kCli) - 1)];
    if (r.chance(0.25)) a = &kCli[r.range(0, 2)];
    as.push_back(a);
    names += (i ? "," : "") + std::string(a->cli);
    const cl::Algo *g = cl::find_algo(a->algo);
    oracle |= (g->flags & cl::F_ORACLE) != 0;
    uniform |= (g->flags & cl::F_UNIFORM) != 0;
  }
  c.sets("algos", names);
  const cl::Algo *g = cl::find_algo(as[0]->algo);
  if (na == 1 && !g->params.empty() && r.chance(0.5)) {
    c.sets("eparams", !strcmp(as[0]->cli, "tinyLFU") && r.chance(0.5) ? r.pick(std::vector<std::string>{"main-cache=LRU", "main-cache=SLRU"}) : r.pick(g->params));
    c.seti("esep", r.range(0, 2));
  }
  gen_trace(r, size, c, 260, oracle, true, r.chance(0.5) ? 200 : 6000);
  // sizes
  int ns = r.chance(0.45) ? 1 : (int)r.range(2, 5);
  bool ig = uniform || r.chance(0.3);
  if (ig) c.seti("igsize", 1);
  std::string sz;
  c.seti("md", r.chance(0.2));
  bool composite = false;
  for (auto a : as) composite |= !(cl::find_algo(a->algo)->flags & cl::F_EXACT);
  int64_t lo = 1, maxobj = 1, wss = 0;
  std::map<int64_t, int64_t> objs;
  for (auto &o : c.ops) objs[o[1]] = ig ? 1 : o[2];
  for (auto &o : objs) wss += o.second, maxobj = std::max(maxobj, o.second);
  if (composite) lo = std::max<int64_t>(20, 4 * maxobj) * (c.geti("md") ? 6 : 1);
  for (int i = 0; i < ns; i++) {
    int k = (int)r.range(0, composite ? 7 : 9);
    int64_t pct = lo * 100 / std::max<int64_t>(wss, 1) + 2;
    if (k < 3 && pct > 98) k = 3;
    std::string t;
    if (k < 3)
      t = strf("0.%0*d", composite ? 2 : (int)r.range(2, 3), (int)r.range(pct, 99));
    else if (k < 7)
      t = strf("%lld", (long long)r.logrange(std::max<int64_t>(lo, ig ? 2 : 40), std::max<int64_t>(2 * lo, 2 * wss)));
    else if (k == 7)
      t = strf("%lld%s", (long long)r.logrange(1 + lo / 1024, 200 + lo / 1024), r.pick(std::vector<std::string>{"kb", "KB", "k", "K", "Kb"}).c_str());
    else if (k == 8)
      t = strf("%lld%s", (long long)r.range(1, 30), r.pick(std::vector<std::string>{"mb", "MB", "m", "M"}).c_str());
    else
      t = strf("%lld%s", (long long)r.range(1, 5), r.pick(std::vector<std::string>{"gb", "GB", "g", "G", "TB", "tb", "T"}).c_str());
    sz += (i ? (r.chance(0.2) ? ", " : ",") : "") + t;
  }
  if (!composite && r.chance(0.07)) {
    sz = r.chance(0.5) ? "auto" : "0";
    c.seti("igsize", 1);
  }
  c.sets("sizes", sz);
  if (r.chance(0.2)) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
  if (r.chance(0.3)) c.seti("warm", r.chance(0.3) ? 0 : r.chance(0.7) ? r.range(1, 60) : r.range(1, 4000));
  if (r.chance(0.15)) c.seti("sample", r.range(1, 4));
  c.seti("deco", r.chance(0.8) ? 0 : r.range(1, 4));
  bool random = c.geti("deco") == 3;
  for (auto a : as) random |= (cl::find_algo(a->algo)->flags & cl::F_RANDOM) != 0;
  c.seti("small", random || ns * na > 2 || r.chance(0.85));
  c.seti("threads", r.chance(0.5) ? 0 : r.range(1, 20));
  c.seti("interval", r.chance(0.5) ? 0 : r.logrange(1, 3000));
  if (c.geti("warm", -1) <= 0 && c.geti("interval") == 0 && r.chance(0.3)) c.seti("back", r.logrange(1, 3000));
  c.seti("prior", r.chance(0.25));
  c.seti("named", r.chance(0.5));
  return c;
}

struct Line {
  std::string name;
  uint64_t size;
  int64_t req = 0, byte = 0, miss = 0, missb = 0;
  std::vector<int64_t> t, cum;  // measured requests: time, misses up to and including
};

std::string ratio(int64_t a, int64_t b) { return strf("%.4lf", (double)a / (double)b); }

Outcome check(const Case &c0, Ctx &ctx0) {
  Case c = c0;
  Ctx ctx = ctx0;
  const Fmt *f = find(c.gets("format"));
  if (!f || !f->cli) return Outcome::discard();
  if (c.geti("nullparams")) return Outcome::discard();
  bool small = c.geti("small", 1) != 0, ig = c.geti("igsize") != 0;
  ctx.scratch += small ? "/data" : "/d";
  mkdir(ctx.scratch.c_str(), 0755);
  std::string work = ctx.scratch + "/w";
  mkdir(work.c_str(), 0755);
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  if (x.path.size() > 400) return Outcome::discard();
  x.params.p.ignore_obj_size = ig;
  x.params.p.cap_at_n_req = c.geti("cap", -1);
  x.params.p.ignore_size_zero_req = true;
  if (!c.geti("skipzero", 1)) return Outcome::discard();
  static const char *ratios[5] = {"1", "0.5", "0.3", "0.1", "0.05"};
  const char *ra = ratios[(c.geti("sample") % 5 + 5) % 5];
  auto open = [&]() {
    x.params.p.sampler = c.geti("sample") > 0 ? create_spatial_sampler(atof(ra)) : nullptr;
    return open_reader(c, x);
  };
  // algorithms
  std::vector<std::string> names = split(c.gets("algos"), ',');
  std::vector<const cl::Algo *> as;
  bool md = c.geti("md") != 0, random = false, init_random = false, composite = false;
  for (auto &n : names) {
    const CliAlgo *a = find_cli(n);
    if (!a) return Outcome::discard();
    as.push_back(cl::find_algo(a->algo));
    int fl = as.back()->flags;
    if ((fl & cl::F_ORACLE) && (!(f->mask & M_NEXT) || strncmp(f->name, "oracleGeneral", 13) || c.geti("deco") == 4)) return Outcome::discard();
    if ((fl & cl::F_UNIFORM) && !ig) return Outcome::discard();
    if (fl & cl::F_RANDOM) random = true;
    if (!strcmp(a->algo, "Cacheus")) init_random = true;
    if (!(fl & cl::F_EXACT)) composite = true;
    if ((fl & cl::F_NOMETA) && md) return Outcome::discard();
  }
  if (as.empty() || as.size() > 8) return Outcome::discard();
  std::string ep = c.gets("eparams");
  if (!ep.empty() && as.size() > 1) return Outcome::discard();
  int deco = (int)c.geti("deco");
  if (deco == 3) random = true;
  // ids of text objects depend on what the process has read before
  if (str_ids(x, c)) {
    bool timed = random || c.geti("sample") > 0 || deco > 1;
    for (auto a : as) timed |= (a->flags & cl::F_TIMED) != 0;
    if (timed) return Outcome::discard();
  }
  // the requests
  struct Rq {
    uint64_t id;
    int64_t size, time;
  };
  std::vector<Rq> v;
  std::unordered_map<uint64_t, int64_t> objs;
  int64_t wss_obj = 0, wss_byte = 0, maxobj = 1;
  bool all1 = true;
  {
    reader_t *rd = open();
    request_t *q = new_request();
    while (read_one_req(rd, q) == 0) {
      v.push_back({q->obj_id, q->obj_size, (int64_t)q->clock_time});
      if (objs.emplace(q->obj_id, q->obj_size).second) {
        wss_obj++;
        wss_byte += q->obj_size;
      }
      maxobj = std::max(maxobj, q->obj_size);
      if (q->obj_size > 1 && v.size() <= 1024) all1 = false;
    }
    free_request(q);
    close_reader(rd);
  }
  if (v.empty()) return Outcome::discard();
  if (all1) md = false;
  // sizes
  std::string sarg = c.gets("sizes");
  std::vector<uint64_t> sizes;
  bool autos = sarg == "auto" || sarg == "0";
  if (autos && !ig) return Outcome::discard();
  if (!autos)
    for (auto &t0 : split(sarg, ',')) {
      std::string t = t0;
      while (!t.empty() && t[0] == ' ') t.erase(0, 1);
      if (t.empty()) return Outcome::discard();
      if (t.find('.') != std::string::npos) {
        sizes.push_back((uint64_t)((double)(ig ? wss_obj : wss_byte) * atof(t.c_str())));
        continue;
      }
      char *e;
      uint64_t n = strtoull(t.c_str(), &e, 10), u = 1;
      switch (tolower(*e)) {
        case 'k': u = 1ULL << 10; break;
        case 'm': u = 1ULL << 20; break;
        case 'g': u = 1ULL << 30; break;
        case 't': u = 1ULL << 40; break;
        default: break;
      }
      sizes.push_back(n * u);
    }
  if (sizes.size() > 20) return Outcome::discard();
  int64_t lo = 1;
  if (composite) lo = std::max<int64_t>(20, 4 * maxobj) * (md ? 6 : 1);
  for (auto s : sizes)
    if ((int64_t)s < lo || (composite && s > (1ULL << 28))) return Outcome::discard();
  if (composite && autos) return Outcome::discard();
  if (!small && (sizes.size() * as.size() > 2 || random)) return Outcome::discard();
  // the command
  std::string trace = x.path;
  std::vector<std::string> argv = {std::string(getenv("VERIF_DIR")) + "/build/rel/bin/cachesim", trace, f->cli, c.gets("algos"), sarg};
  auto opt = [&](const std::string &a, const std::string &b) {
    if (c.geti("named") && a.compare(0, 2, "--") == 0) {
      argv.push_back(a + "=" + b);
      return;
    }
    argv.push_back(a);
    argv.push_back(b);
  };
  std::string tp = cli_params(*f, c);
  if (!tp.empty()) opt(c.geti("named") ? "--trace-type-params" : "-t", tp);
  if (ig) opt("--ignore-obj-size", c.geti("prior") ? "true" : "1");
  if (c.geti("cap", -1) > 0) opt(c.geti("named") ? "--num-req" : "-n", strf("%lld", (long long)c.geti("cap")));
  if (c.geti("sample") > 0) opt(c.geti("named") ? "--sample-ratio" : "-s", ra);
  int64_t warm = std::min<int64_t>(c.geti("warm", -1), 1000000);
  if (warm >= 0) opt("--warmup-sec", strf("%lld", (long long)warm));
  if (c.geti("md")) opt("--consider-obj-metadata", "1");
  if (c.geti("threads") > 0) opt("--num-thread", strf("%lld", (long long)std::min<int64_t>(c.geti("threads"), 64)));
  if (!ep.empty()) {
    std::string e2 = ep;
    if (c.geti("esep") >= 1)
      for (auto &ch : e2)
        if (ch == ',') ch = ';';
    if (c.geti("esep") >= 2)
      for (auto &ch : e2)
        if (ch == '-') ch = '_';
    opt("-e", e2);
  }
  switch (deco) {
    case 1: opt("--admission", "size"), opt("--admission-params", "size=50"); break;
    case 2: opt("-a", c.geti("named") ? "bloom-filter" : "bloomFilter"); break;
    case 3: opt("-a", "prob"), opt("--admission-params", "prob=0.5"); break;
    case 4: opt("-p", "PG"), opt("--prefetch-params", "block_size=1"); break;
    default: break;
  }
  int64_t interval = std::min<int64_t>(c.geti("interval"), 1000000);
  if (interval > 0) opt("--report-interval", strf("%lld", (long long)interval));
  bool single = !autos && sizes.size() * as.size() == 1;
  std::string ofile = "trace." + std::string(f->ext) + ".cachesim";
  if (x.path.size() > 4) ofile = x.path.substr(x.path.rfind('/') + 1) + ".cachesim";
  if (single && c.geti("threads") % 2 == 1) {
    ofile = "out.res";
    opt("-o", ofile);
  }
  std::string opath = work + "/" + ofile;
  if (!single) {
    mkdir((work + "/result").c_str(), 0755);
    opath = work + "/result/" + x.path.substr(x.path.rfind('/') + 1);
    if (!c.geti("prior")) rmdir((work + "/result").c_str());
  }
  if (c.geti("prior")) write_file(opath, "earlier line\n");
  ProcResult pr = run_proc(argv, work, 100, ctx0.scratch, {"LD_PRELOAD=" + std::string(getenv("VERIF_DIR")) + "/build/rel/fastsleep.so"});
  std::string cmd = "cachesim";
  for (size_t i = 2; i < argv.size(); i++) cmd += " '" + argv[i] + "'";
  if (pr.timeout) PFAIL("timeout", "%s does not end", cmd.c_str());
  Outcome o;
  // the printed results
  std::vector<std::string> got;
  for (auto &l : split(pr.out, '\n'))
    if (l.find(" cache size ") != std::string::npos && l.find("miss ratio") != std::string::npos) got.push_back(squeeze(l));
  if (autos) {
    if (pr.rc == 0 && got.empty() && pr.out.find("too small") != std::string::npos) {
      if (wss_obj > 100) PFAIL("auto", "%s: no size is found for %lld objects", cmd.c_str(), (long long)wss_obj);
      o.label("auto-too-small");
      return o;
    }
    if (pr.rc == 0) {
      for (auto &l : got) {
        size_t p = l.find(" cache size ");
        sizes.push_back(strtoull(l.c_str() + p + 12, nullptr, 10));
      }
      if (sizes.empty() || sizes.size() % as.size()) PFAIL("auto", "%s: prints %zu results for %zu algorithms", cmd.c_str(), sizes.size(), as.size());
      sizes.resize(sizes.size() / as.size());
      static const double fr[] = {0.0001, 0.0003, 0.001, 0.003, 0.01, 0.03, 0.1, 0.2, 0.3, 0.4, 0.8};
      for (size_t i = 0; i < sizes.size(); i++) {
        bool ok = false;
        for (double d : fr)
          if (std::llabs((long long)sizes[i] - (long long)((double)wss_obj * d)) <= 0) ok = true;
        if (!ok || sizes[i] == 0 || (i && sizes[i] <= sizes[i - 1]))
          PFAIL("auto", "%s: size %zu is %llu for a working set of %lld", cmd.c_str(), i, (unsigned long long)sizes[i], (long long)wss_obj);
      }
      single = sizes.size() * as.size() == 1;
      if (single) return Outcome::discard();
    }
  }
  if (pr.rc != 0) PFAIL("exit", "%s exits with %d: %.300s", cmd.c_str(), pr.rc, pr.err.c_str());
  // what has to be printed
  std::vector<Line> want;
  request_t *q = new_request();
  for (size_t i = 0; i < as.size(); i++)
    for (auto sz : sizes) {
      common_cache_params_t cc;
      memset(&cc, 0, sizeof cc);
      cc.cache_size = sz;
      cc.default_ttl = 86400 * 300;
      cc.hashpower = small && random ? 16 : 8;
      cc.consider_obj_metadata = md;
      if (!strcmp(as[i]->name, "Hyperbolic") || !strcmp(as[i]->name, "BeladySize")) cc.hashpower = random && small ? 16 : 8;
      set_rand_seed(77);
      std::string ep1 = ep;
      if (names[i] == "tinyLFU" && !ep.empty() && ep.find("window-size=") == std::string::npos) ep1 += ",window-size=0.01";
      cache_t *ch = as[i]->init(cc, ep1.empty() ? nullptr : ep1.c_str());
      if (deco == 1) ch->admissioner = create_admissioner("size", "size=50");
      if (deco == 2) ch->admissioner = create_admissioner("bloomfilter", nullptr);
      if (deco == 3) ch->admissioner = create_admissioner("prob", "prob=0.5");
      if (deco == 4) ch->prefetcher = create_prefetcher("PG", "block-size=1", sz);
      Line l;
      l.name = ch->cache_name;
      l.size = sz;
      reader_t *rd = open();
      set_rand_seed(0);
      bool warming = warm > 0;
      int64_t t0 = 0, pos = 0;
      while (read_one_req(rd, q) == 0) {
        if (pos++ == 0) t0 = (int64_t)q->clock_time;
        q->clock_time -= t0;
        if (warming && q->clock_time >= warm) warming = false;
        bool hit = ch->get(ch, q);
        if (warming) continue;
        l.req++;
        l.byte += q->obj_size;
        if (!hit) {
          l.miss++;
          l.missb += q->obj_size;
        }
        l.t.push_back((int64_t)q->clock_time);
        l.cum.push_back(l.miss);
      }
      close_reader(rd);
      ch->cache_free(ch);
      want.push_back(l);
    }
  free_request(q);
  if (got.size() != want.size()) PFAIL("results", "%s: prints %zu results for %zu caches", cmd.c_str(), got.size(), want.size());
  const uint64_t K = 1024, M = K * K, G = M * K, T = G * K;
  for (size_t i = 0; i < want.size(); i++) {
    Line &l = want[i];
    bool exact = single ? !random : !init_random;
    std::string w, s = got[i];
    if (single) {
      std::string sz = l.size >= T   ? strf("%.0lfTiB", (double)l.size / (double)T)
                       : l.size >= G ? strf("%.0lfGiB", (double)l.size / (double)G)
                       : l.size >= M ? strf("%.0lfMiB", (double)l.size / (double)M)
                       : l.size >= K ? strf("%.0lfKiB", (double)l.size / (double)K)
                                     : strf("%lluB", (unsigned long long)l.size);
      if (ig) sz = strf("%llu", (unsigned long long)l.size);
      w = trace + " " + l.name + " cache size " + sz + ", " + strf("%lld req, miss ratio ", (long long)l.req);
      if (exact && l.req > 0) w += ratio(l.miss, l.req) + ",";
    } else {
      uint64_t u = 1;
      std::string us = ig ? "" : "B";
      if (!ig && sizes[0] > G)
        u = G, us = "GiB";
      else if (!ig && sizes[0] > M)
        u = M, us = "MiB";
      else if (!ig && sizes[0] > K)
        u = K, us = "KiB";
      w = "result/" + x.path.substr(x.path.rfind('/') + 1) + " " + l.name + strf(" cache size %llu%s, %lld req, miss ratio ", (unsigned long long)(l.size / u), us.c_str(), (long long)l.req);
      if (exact && l.req > 0) w += ratio(l.miss, l.req) + ", byte miss ratio " + ratio(l.missb, l.byte);
    }
    w = squeeze(w);
    if (s.compare(0, w.size(), w) != 0 || (!single && exact && l.req > 0 && s != w))
      PFAIL(single ? "single" : "multi", "%s: prints '%s', a direct simulation gives '%s'", cmd.c_str(), s.substr(trace.size() > s.size() ? 0 : (single ? trace.size() : 0)).c_str(),
            w.substr(single ? trace.size() : 0).c_str());
  }
  // the output file
  std::string file;
  if (!read_file(opath, file)) PFAIL("file", "%s: no output file %s", cmd.c_str(), opath.c_str() + work.size() + 1);
  std::vector<std::string> fl;
  for (auto &l : split(file, '\n'))
    if (!squeeze(l).empty()) fl.push_back(squeeze(l));
  if (c.geti("prior")) {
    if (fl.empty() || fl[0] != "earlier line") PFAIL("file", "%s: the earlier contents of the output file are gone", cmd.c_str());
    fl.erase(fl.begin());
  }
  if (fl != got) PFAIL("file", "%s: the output file has %zu lines, the printed results are others: '%s'", cmd.c_str(), fl.size(), fl.empty() ? "" : fl[0].c_str());
  // periodic reports of a single simulation
  if (single && !random && interval > 0 && want[0].req > 0) {
    Line &l = want[0];
    size_t prev = 0;
    int64_t prevt = -1;
    size_t nrep = 0;
    for (auto &s0 : split(pr.err, '\n')) {
      size_t p = s0.find(" hour: ");
      if (p == std::string::npos || s0.find("interval miss ratio") == std::string::npos) continue;
      unsigned long n = strtoul(s0.c_str() + p + 7, nullptr, 10);
      if (n <= prev || n > (size_t)l.req) PFAIL("report", "%s: a report of %lu requests after one of %zu, of %lld", cmd.c_str(), n, prev, (long long)l.req);
      size_t b = s0.rfind(' ', p - 1);
      std::string hour = s0.substr(b + 1, p - b - 1);
      int64_t pm = prev ? l.cum[prev - 1] : 0;
      std::string w = strf("%.2lf", (double)l.t[n - 1] / 3600) + " hour: " + strf("%lu requests, miss ratio ", n) + ratio(l.cum[n - 1], (int64_t)n) + ", interval miss ratio " +
                      ratio(l.cum[n - 1] - pm, (int64_t)(n - prev));
      std::string g = squeeze(s0.substr(b + 1));
      if (g.compare(0, w.size(), w) != 0) PFAIL("report", "%s: reports '%s', expected '%s'", cmd.c_str(), g.c_str(), w.c_str());
      if (prev && l.t[n - 1] - prevt < interval) PFAIL("report", "%s: reports at %lld and %lld s, the interval is %lld s", cmd.c_str(), (long long)prevt, (long long)l.t[n - 1], (long long)interval);
      if (prev)
        for (size_t k = prev; k + 1 < n; k++)
          if (l.t[k] - prevt >= interval) PFAIL("report", "%s: no report at %lld s, %lld s after the last", cmd.c_str(), (long long)l.t[k], (long long)(l.t[k] - prevt));
      prev = n;
      prevt = l.t[n - 1];
      nrep++;
    }
    if (!nrep && l.t.back() - std::max<int64_t>(warm, 0) > interval) PFAIL("report", "%s: no report in %lld s", cmd.c_str(), (long long)l.t.back());
    if (nrep) o.label("reports");
  }
  int64_t hits = 0;
  for (auto &l : want) hits += l.req - l.miss;
  o.nontrivial = hits > 0 && want[0].req > 4 && want[0].miss > 1;
  o.label(single ? "single" : autos ? "auto" : "multi");
  if (warm > 0) o.label("warm-up");
  if (!small) o.label("large-table");
  return o;
}

Property p15() {
  Property p;
  p.id = "P15";
  Suite s;
  s.name = "cachesim";
  s.rule = "traces of every format the command line knows, 28 algorithm names, single and lists, sizes with units, fractions and automatic, all "
           "options; the printed and the written results and the periodic reports against caches driven directly; non-trivial: hits and misses";
  s.gen = gen;
  s.check = check;
  s.n_quick = 6000;
  s.n_thorough = 120000;
  s.batch = 16;
  s.workers = 12;
  p.suites.push_back(s);
  p.assumptions = {"randomised algorithms: results of a single run are not predictable (seeded with the time), request counts are checked",
                   "timestamps may decrease only without a warm-up and without periodic reports"};
  return p;
}
Reg r15(p15);
}  // namespace
