// P22: traceAnalyzer
#include <math.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <sstream>

#include "simworld.h"

namespace {

typedef std::vector<std::vector<int64_t>> Rows;

enum { T_RATE = 1, T_ACCESS = 2, T_SIZE = 4, T_REUSE = 8, T_POP = 16, T_DECAY = 32, T_TTL = 64 };

Case gen(Rng &r, int size) {
  Case c;
  bool big = r.chance(0.06);
  gen_trace(r, size, c, big ? 6000 : 400, false, true, r.chance(0.8) ? 300 : 4000000000LL);
  if (big && r.chance(0.7)) {
    // enough objects and requests for the fit of the popularity
    c.h.erase("f_op");
    int n = (int)r.range(1000, 3000);
    int64_t nobj = r.range(200, 700);
    std::vector<Row> v;
    for (int i = 0; i < n; i++) {
      int64_t id = i < nobj ? i : r.chance(0.3) ? 0 : r.logrange(1, nobj) - 1;
      v.push_back({0, id, id % 50 + 1, r.range(0, 1), 0});
    }
    c.ops = v;
  }
  if (r.chance(0.5)) {
    double pz = r.chance(0.3) ? 0.1 : 0;
    for (auto &o : c.ops) {
      if (r.chance(0.2)) o[2] = r.range(1, 400);
      if (r.chance(pz)) o[2] = 0;
    }
  }
  if (r.chance(0.3))
    for (auto &o : c.ops)
      if (r.chance(0.03)) o[3] = r.range(300, 4000);
  if (!big && r.chance(0.05)) {
    if (r.chance(0.6))
      for (auto &o : c.ops) o[2] = 0;
    else
      c.ops.clear();
  }
  const Fmt *f = find(c.gets("format"));
  if (f->zst && r.chance(0.1)) {
    c.seti("zst", 1);
    c.seti("zlevel", 3);
  }
  if (r.chance(0.2)) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
  c.seti("tasks", r.chance(0.35) ? -1 : r.chance(0.2) ? -2 : r.range(0, 127));
  c.seti("wttl", r.chance(0.3));
  static const std::vector<int64_t> wins = {1, 2, 5, 7, 10, 60, 100, 300, 1000};
  int64_t span = 0;
  for (auto &o : c.ops) span += o[3];
  int64_t win = r.chance(0.3) ? 300 : r.pick(wins);
  while (span / win > 1500) win *= 3;  // the output grows with the square of the windows
  c.seti("win", win == 300 ? 0 : win);
  c.seti("warm", r.chance(0.3) ? -1 : r.range(0, 12));
  c.seti("ratio", r.range(0, 5));
  c.seti("nhit", r.chance(0.6) ? 0 : r.range(1, 20));
  c.seti("npop", r.chance(0.6) ? 0 : r.range(1, 20));
  c.seti("named", r.chance(0.5));
  c.seti("out", r.range(0, 2));
  return c;
}

struct Txt {
  std::vector<std::string> lines;
  bool ok = false;
};
Txt lines(const std::string &path) {
  Txt t;
  std::string s;
  t.ok = read_file(path, s);
  std::stringstream ss(s);
  std::string l;
  while (std::getline(ss, l)) t.lines.push_back(l);
  return t;
}
bool numbers(const std::string &l, std::vector<int64_t> &v) {
  const char *p = l.c_str();
  v.clear();
  while (*p) {
    char *e;
    long long x = strtoll(p, &e, 10);
    if (e == p || *e != ',') return false;
    v.push_back(x);
    p = e + 1;
  }
  return true;
}
void trim(std::vector<int64_t> &v) {
  while (!v.empty() && v.back() == 0) v.pop_back();
}
std::string list(const std::vector<int64_t> &v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 40; i++) s += strf("%lld,", (long long)v[i]);
  return s;
}
// one line of counts per time window
std::string judge_rows(const std::string &path, const Rows &exp) {
  Txt t = lines(path);
  if (!t.ok) return "no file";
  Rows got;
  for (auto &l : t.lines) {
    if (!l.empty() && l[0] == '#') continue;
    std::vector<int64_t> v;
    if (!numbers(l, v)) return "odd line '" + l.substr(0, 80) + "'";
    trim(v);
    got.push_back(v);
  }
  for (size_t i = 0; i < got.size() && i < exp.size(); i++) {
    std::vector<int64_t> e = exp[i];
    trim(e);
    if (e != got[i]) return strf("window %zu: %s expected %s", i, list(got[i]).c_str(), list(e).c_str());
  }
  if (got.size() != exp.size()) return strf("%zu windows, expected %zu", got.size(), exp.size());
  return "";
}
// sections of value:count lines
std::string judge_maps(const std::string &path, const std::vector<std::map<int64_t, int64_t>> &exp) {
  Txt t = lines(path);
  if (!t.ok) return "no file";
  std::vector<std::map<int64_t, int64_t>> got;
  bool head = true;
  for (auto &l : t.lines) {
    if (head) {  // the name of the trace
      head = false;
      continue;
    }
    if (!l.empty() && l[0] == '#') {
      got.emplace_back();
      continue;
    }
    long long a, b;
    if (got.empty() || sscanf(l.c_str(), "%lld:%lld", &a, &b) != 2) return "odd line '" + l.substr(0, 80) + "'";
    if (got.back().count(a)) return strf("value %lld twice", a);
    got.back()[a] = b;
  }
  if (got.size() != exp.size()) return strf("%zu sections, expected %zu", got.size(), exp.size());
  for (size_t i = 0; i < got.size(); i++) {
    for (auto &e : exp[i]) {
      auto g = got[i].find(e.first);
      int64_t n = g == got[i].end() ? 0 : g->second;
      if (n != e.second)
        return strf("section %zu: %lld has count %lld, expected %lld", i, (long long)e.first, (long long)n, (long long)e.second);
    }
    for (auto &g : got[i])
      if (!exp[i].count(g.first)) return strf("section %zu: %lld has count %lld, expected none", i, (long long)g.first, (long long)g.second);
  }
  return "";
}
bool near(double a, double b) { return fabs(a - b) <= 0.51e-4 + 1e-5 * fabs(b); }

// the value after a text in a line
bool after(const Txt &t, const std::string &line, const std::string &key, double &v) {
  for (auto &l : t.lines) {
    if (l.compare(0, line.size(), line) != 0) continue;
    size_t p = l.find(key);
    if (p == std::string::npos) return false;
    return sscanf(l.c_str() + p + key.size(), "%lf", &v) == 1;
  }
  return false;
}
bool pairs(const Txt &t, const std::string &line, std::vector<std::pair<double, double>> &v) {
  for (auto &l : t.lines) {
    if (l.compare(0, line.size(), line) != 0) continue;
    const char *p = l.c_str() + line.size();
    v.clear();
    double a, b;
    int n;
    while (sscanf(p, " %lf(%lf),%n", &a, &b, &n) == 2) {
      v.push_back({a, b});
      p += n;
      while (*p == ' ') p++;
    }
    return true;
  }
  return false;
}

Outcome check(const Case &c, Ctx &ctx) {
  const Fmt *f = find(c.gets("format"));
  if (!f || !f->cli || c.geti("nullparams") || !c.geti("skipzero", 1) || c.geti("igsize")) return Outcome::discard();
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  if (x.f->type == BIN_TRACE) x.mask &= ~M_OP;  // no option for the column
  const std::vector<TReq> &v = x.exp;
  bool sid = str_ids(x, c);
  int64_t win = c.geti("win");
  if (win < 0 || win > 1000000) return Outcome::discard();
  if (!win) win = 300;
  int64_t warm = c.geti("warm", -1) < 0 ? 86400 : c.geti("warm") * win;
  if (warm % win) warm = 3 * win;
  if (warm > 1000000000) return Outcome::discard();
  int64_t nhit = c.geti("nhit"), npop = c.geti("npop");
  if (nhit < 0 || nhit > 1000 || npop < 0 || npop > 1000) return Outcome::discard();
  if (!v.empty() && (x.mask & M_TIME) && (v.back().time - v[0].time) / win > 2000) return Outcome::discard();
  // --- the command line
  std::vector<std::string> argv = {std::string(getenv("VERIF_DIR")) + "/build/rel/bin/traceAnalyzer", x.path, f->cli};
  std::string tp = cli_params(*f, c);
  if (!tp.empty()) {
    argv.push_back(c.geti("named") ? "--trace-type-params=" + tp : "-t");
    if (!c.geti("named")) argv.push_back(tp);
  }
  int64_t tasks = c.geti("tasks");
  if (tasks == -1) {
    argv.push_back("--all");
    tasks = 63;
    if (c.geti("wttl")) {
      argv.push_back("--ttl");
      tasks |= T_TTL;
    }
  } else if (tasks == -2) {
    argv.push_back("--common");
    tasks = 31;
  } else {
    tasks &= 127;
    static const char *names[7] = {"--reqRate", "--accessPattern", "--size", "--reuse", "--popularity", "--popularityDecay", "--ttl"};
    for (int i = 0; i < 7; i++)
      if (tasks & (1 << i)) argv.push_back(names[i]);
  }
  auto num = [&](const char *o, int64_t n) { argv.push_back(strf("%s=%lld", o, (long long)n)); };
  if (c.geti("win")) num("--time-window", win);
  if (c.geti("win") || warm != 86400) num("--warmup-sec", warm);
  if (nhit) num("--track-n-hit", nhit);
  if (npop) num("--track-n-popular", npop);
  if (c.geti("cap", -1) > 0) num("--num-req", c.geti("cap"));
  static const char *ratios[6] = {nullptr, "1", "0.5", "0.1", "0.05", "0.01"};
  const char *ra = ratios[(c.geti("ratio") % 6 + 6) % 6];
  if (ra) {
    argv.push_back("--access-pattern-sample-ratio");
    argv.push_back(ra);
  }
  std::string dir = ctx.scratch + "/run";
  rm_rf_under(ctx.scratch, dir);
  mkdir(dir.c_str(), 0755);
  std::string base;
  int64_t out = (c.geti("out") % 3 + 3) % 3;
  if (out == 0)
    base = dir + x.path.substr(x.path.rfind('/'));
  else {
    base = dir + "/analysis";
    argv.push_back(out == 1 ? "--output=analysis" : "-o");
    if (out == 2) argv.push_back(base);
  }
  ProcResult pr = run_proc(argv, dir, 60, ctx.scratch);
  std::string cmd = "traceAnalyzer";
  for (size_t i = 2; i < argv.size(); i++) cmd += " '" + argv[i] + "'";
  if (pr.timeout) PFAIL("timeout", "%s does not end", cmd.c_str());
  if (pr.rc != 0) PFAIL("exit", "%s exits with %d: %.300s", cmd.c_str(), pr.rc, pr.err.c_str());
  if (v.empty()) {
    for (auto *fn : {"/stat", "/traceStat"})
      for (auto &l : lines(dir + fn).lines) {
        size_t p = l.find("number of requests: ");
        if (p != std::string::npos && atoll(l.c_str() + p + 20) != 0) PFAIL("empty", "%s: %s: '%.100s' for a trace without requests", cmd.c_str(), fn + 1, l.c_str());
      }
    Outcome o;
    o.label("empty");
    return o;
  }
  // --- the statistics by definition
  struct Obj {
    int64_t freq = 0, vt = 0, rt = 0, born = 0, no = 0;
    std::vector<int64_t> rts, vts;
    uint64_t id = 0;
  };
  std::map<std::string, Obj> objs;
  bool times = x.mask & M_TIME;
  int64_t t0 = times ? v[0].time : 0, last = times ? v.back().time - t0 : 0, nwin = last / win;
  double breq = 0, bobj = 0;
  std::vector<double> w_req(nwin + 1), w_byte(nwin + 1), w_obj(nwin + 1), w_new(nwin + 1);
  Rows sz_req(nwin + 1), sz_obj(nwin + 1), re_rt(nwin + 1), re_vt(nwin + 1);
  std::vector<std::map<int64_t, int64_t>> sizes(2), reuse(2), ttls(1), pops(1);
  Rows decay;
  int64_t last_decay = -1, ops[OP_INVALID + 1] = {0}, writes = 0, dels = 0, over = 0;
  auto incr = [](std::vector<int64_t> &a, size_t i) {
    if (a.size() <= i) a.resize(i + 1);
    a[i]++;
  };
  for (size_t i = 0; i < v.size(); i++) {
    const TReq &q = v[i];
    int64_t rt = times ? q.time - t0 : 0, size = (x.mask & M_SIZE) ? q.size : 1, w = rt / win, vt = (int64_t)i + 1;
    if (rt < 0 || (i && times && q.time < v[i - 1].time)) return Outcome::discard();
    Obj &o = objs[sid ? q.sid : strf("%llu", (unsigned long long)q.id)];
    bool first = o.freq == 0, in_window = first || o.rt / win != w;
    breq += (double)size;
    if (first) {
      bobj += (double)size;
      o.born = rt;
      o.id = q.id;
    }
    o.freq++;
    w_req[w]++;
    w_byte[w] += (double)size;
    w_obj[w] += in_window;
    w_new[w] += first;
    sizes[0][size]++;
    if (first) sizes[1][size]++;
    size_t sb = size <= 1 ? 0 : (size_t)(log((double)size) / log(1.5));
    incr(sz_req[w], sb);
    if (in_window) incr(sz_obj[w], sb);
    if (first) {
      reuse[0][-1]++;
      reuse[1][-1]++;
    } else {
      int64_t rb = (rt - o.rt) / 5, vb = (int64_t)(log((double)(vt - o.vt)) / log(1.5));
      reuse[0][rb]++;
      reuse[1][vb]++;
      incr(re_rt[w], (size_t)rb);
      incr(re_vt[w], (size_t)vb);
    }
    if ((x.mask & M_TTL) && q.ttl > 0) ttls[0][q.ttl]++;
    if (x.mask & M_OP) {
      if (q.op < 0 || q.op > OP_INVALID) return Outcome::discard();
      ops[q.op]++;
      bool wr = q.op == OP_SET || q.op == OP_REPLACE || q.op == OP_CAS;
      writes += wr;
      over += wr && !first;
      dels += q.op == OP_DELETE;
    }
    if (rt >= warm && o.born >= warm) {
      size_t row = (size_t)(w - warm / win);
      if (decay.size() <= row) decay.resize(row + 1);
      if (in_window) incr(decay[row], (size_t)(o.born / win - warm / win));
      last_decay = w - warm / win;
    }
    o.rt = rt;
    o.vt = vt;
    o.rts.push_back(rt);
    o.vts.push_back(vt);
  }
  double n = (double)v.size(), no = (double)objs.size();
  // --- the summary
  Txt st = lines(dir + "/stat"), ts = lines(dir + "/traceStat");
  if (!st.ok || !ts.ok) PFAIL("summary", "%s writes no summary", cmd.c_str());
  while (!st.lines.empty() && st.lines.back().empty()) st.lines.pop_back();
  while (!ts.lines.empty() && ts.lines.back().empty()) ts.lines.pop_back();
  if (st.lines != ts.lines) PFAIL("summary", "%s: stat and traceStat differ", cmd.c_str());
  std::string all;
  for (auto &l : st.lines) all += l + "\n";
  if (pr.out.find(all) == std::string::npos) PFAIL("summary", "%s does not print the summary: %.200s", cmd.c_str(), pr.out.c_str());
  if (pr.out.size() > all.size() + 2)
    PFAIL("summary", "%s prints other things than the summary: %.200s", cmd.c_str(), pr.out.c_str());
#define SUM(line, key, want, exact)                                                                                      \
  {                                                                                                                      \
    double g;                                                                                                            \
    if (!after(st, line, key, g)) PFAIL("summary", "%s: the summary has no '%s%s': %.300s", cmd.c_str(), line, key, all.c_str()); \
    if ((exact) ? g != (want) : !near(g, want))                                                                          \
      PFAIL("summary", "%s: '%s' '%s' is %f, expected %f", cmd.c_str(), line, key, g, (double)(want));                   \
  }
  const double G = 1024.0 * 1024 * 1024;
  SUM("number of requests", "requests: ", n, true);
  SUM("number of requests", "objects: ", no, true);
  SUM("number of req GiB", "req GiB: ", breq / G, false);
  SUM("number of req GiB", "obj GiB: ", bobj / G, false);
  SUM("compulsory miss ratio", "(req/byte): ", no / n, false);
  if (breq > 0) {
    SUM("compulsory miss ratio", strf("%.4f/", no / n).c_str(), bobj / breq, false);
  }
  SUM("object size weighted", "req/obj: ", floor(breq / n), true);
  SUM("object size weighted", strf(" %.0f/", floor(breq / n)).c_str(), floor(bobj / no), true);
  SUM("frequency mean", "mean: ", n / no, false);
  SUM("time span", "span: ", (double)last, true);
  SUM("time span", "(", (double)last / 86400, false);
  if (x.mask & M_OP) {
    SUM("write: ", "write: ", (double)writes, true);
    SUM("write: ", "overwrite: ", (double)over, true);
    SUM("write: ", "del:", (double)dels, true);
    if ((double)ops[OP_INVALID] < floor(n / 2)) {
      for (int i = 0; i <= OP_INVALID; i++) {
        std::string key = strf(" %s:", req_op_str[i]);
        SUM("op: ", key.c_str(), (double)ops[i], true);
      }
    }
  }
  std::vector<int64_t> freqs;
  for (auto &o : objs) freqs.push_back(o.second.freq);
  std::sort(freqs.rbegin(), freqs.rend());
  std::vector<std::pair<double, double>> pv;
  int64_t nh = nhit ? nhit : 8, np = npop ? npop : 8;
  if (!pairs(st, "X-hit (number of obj accessed X times):", pv) || (int64_t)pv.size() != nh)
    PFAIL("xhit", "%s: %zu numbers of objects by accesses, expected %lld", cmd.c_str(), pv.size(), (long long)nh);
  for (int64_t i = 0; i < nh; i++) {
    double e = (double)std::count(freqs.begin(), freqs.end(), i + 1);
    if (pv[i].first != e || !near(pv[i].second, e / no))
      PFAIL("xhit", "%s: %.0f(%f) objects are accessed %lld times, expected %.0f", cmd.c_str(), pv[i].first, pv[i].second, (long long)i + 1, e);
  }
  if (tasks & T_POP) {
    if (!pairs(st, "freq (fraction) of the most popular obj:", pv) || (int64_t)pv.size() < std::min<int64_t>(np, (int64_t)no) ||
        (int64_t)pv.size() > np)
      PFAIL("popular", "%s: %zu frequencies of popular objects, expected %lld", cmd.c_str(), pv.size(), (long long)np);
    for (size_t i = 0; i < pv.size(); i++) {
      double e = i < freqs.size() ? (double)freqs[i] : 0;
      if (pv[i].first != e || !near(pv[i].second, e / n))
        PFAIL("popular", "%s: popular object %zu has %.0f(%f) requests, expected %.0f", cmd.c_str(), i + 1, pv[i].first, pv[i].second, e);
    }
    if (freqs.size() >= 200 && freqs[0] >= 200) {
      // least squares of log(frequency) over log(rank)
      double sx = 0, sy = 0, sxx = 0, sxy = 0, m = (double)freqs.size();
      for (size_t i = 0; i < freqs.size(); i++) {
        double a = log((double)i + 1), b = log((double)freqs[i]);
        sx += a, sy += b, sxx += a * a, sxy += a * b;
      }
      SUM("popularity: Zipf", "slope=", -(m * sxy - sx * sy) / (m * sxx - sx * sx), false);
    }
    for (auto fr : freqs) pops[0][fr]++;
    std::string bad = judge_maps(base + ".popularity", pops);
    if (!bad.empty()) PFAIL("popularity", "%s: popularity: %s", cmd.c_str(), bad.c_str());
  }
  auto cut = [&](Rows r) {  // windows which are complete
    r.resize((size_t)nwin);
    return r;
  };
  if (tasks & T_RATE) {
    Txt t = lines(base + strf(".reqRate_w%lld", (long long)win));
    if (!t.ok || t.lines.size() < 9) PFAIL("rate", "%s: no file with the request rate", cmd.c_str());
    const std::vector<double> *e[4] = {&w_req, &w_byte, &w_obj, &w_new};
    for (int k = 0; k < 4; k++) {
      std::vector<double> g;
      const char *p = t.lines[2 + 2 * k].c_str();
      while (*p) {
        char *q;
        double d = strtod(p, &q);
        if (q == p || *q != ',') PFAIL("rate", "%s: odd rate '%s'", cmd.c_str(), p);
        g.push_back(d);
        p = q + 1;
      }
      if ((int64_t)g.size() != nwin) PFAIL("rate", "%s: rates of %zu windows, %lld are complete", cmd.c_str(), g.size(), (long long)nwin);
      for (size_t i = 0; i < g.size(); i++)
        if (fabs(g[i] - (*e[k])[i] / (double)win) > 1e-4 + 2e-5 * g[i])
          PFAIL("rate", "%s: rate %d of window %zu is %f, expected %f", cmd.c_str(), k, i, g[i], (*e[k])[i] / (double)win);
    }
    if (nwin > 0)
      for (int k = 0; k < 2; k++) {
        const char *line = k ? "object rate" : "request rate";
        const std::vector<double> &a = k ? w_obj : w_req;
        SUM(line, "min ", *std::min_element(a.begin(), a.begin() + nwin) / (double)win, false);
        SUM(line, "max ", *std::max_element(a.begin(), a.begin() + nwin) / (double)win, false);
      }
  }
  std::string bad, what;
#define FILEJ(key, ext, call)                                                             \
  {                                                                                       \
    std::string path = base + ext;                                                        \
    bad = call;                                                                           \
    if (!bad.empty()) PFAIL(key, "%s: %s: %s", cmd.c_str(), path.substr(dir.size() + 1).c_str(), bad.c_str()); \
  }
  std::string W = strf("_w%lld", (long long)win);
  if (tasks & T_SIZE) {
    FILEJ("size", ".size", judge_maps(path, sizes));
    FILEJ("size-window", ".sizeWindow" + W + "_req", judge_rows(path, cut(sz_req)));
    FILEJ("size-window", ".sizeWindow" + W + "_obj", judge_rows(path, cut(sz_obj)));
  }
  if (tasks & T_REUSE) {
    FILEJ("reuse", ".reuse", judge_maps(path, reuse));
    FILEJ("reuse-window", ".reuseWindow" + W + "_rt", judge_rows(path, cut(re_rt)));
    FILEJ("reuse-window", ".reuseWindow" + W + "_vt", judge_rows(path, cut(re_vt)));
  }
  if (tasks & T_TTL) FILEJ("ttl", ".ttl", judge_maps(path, ttls));
  if (tasks & T_DECAY) {
    Rows e = decay;
    if (last_decay >= 0) {
      e.resize((size_t)last_decay);
      if (warm > 0) e.insert(e.begin(), std::vector<int64_t>());
    }
    FILEJ("decay", ".popularityDecay" + W + "_obj", judge_rows(path, e));
  }
  if (tasks & T_ACCESS) {
    int64_t inv = 101;
    if (ra) inv = atof(ra) >= 1 ? 1 : (int64_t)(1.0 / atof(ra)) + 1;
    for (int k = 0; k < 2; k++) {
      std::string path = base + (k ? ".accessVtime" : ".accessRtime");
      Txt t = lines(path);
      if (!t.ok) PFAIL("access", "%s: no access pattern", cmd.c_str());
      std::multiset<std::vector<int64_t>> want, got;
      for (auto &o : objs)
        if (sid || o.second.id % (uint64_t)inv == 0) want.insert(k ? o.second.vts : o.second.rts);
      int64_t prev = -1;
      int heads = 0;
      for (auto &l : t.lines) {
        if (l.empty()) continue;
        if (l[0] == '#') {
          heads++;
          continue;
        }
        std::vector<int64_t> a;
        if (!numbers(l, a) || a.empty()) PFAIL("access", "%s: odd line '%.80s'", cmd.c_str(), l.c_str());
        if (a[0] < prev) PFAIL("access", "%s: the objects are not sorted by their first request", cmd.c_str());
        prev = a[0];
        got.insert(a);
      }
      // the plotting script takes two lines off
      if (heads != 2) PFAIL("access", "%s: %d header lines in the access pattern", cmd.c_str(), heads);
      if (sid && inv > 1) {  // which objects are sampled depends on the ids given to the texts
        for (auto &g : got) {
          auto i = want.find(g);
          if (i == want.end()) PFAIL("access", "%s: no object has the accesses %s", cmd.c_str(), list(g).c_str());
          want.erase(i);
        }
      } else if (want != got) {
        for (auto &g : got)
          if (got.count(g) > want.count(g)) PFAIL("access", "%s: no sampled object has the accesses %s", cmd.c_str(), list(g).c_str());
        for (auto &g : want)
          if (got.count(g) < want.count(g)) PFAIL("access", "%s: the accesses %s are missing", cmd.c_str(), list(g).c_str());
      }
    }
  }
  // nothing that was not asked for
  Outcome o;
  o.nontrivial = nwin > 0 && n > no && no > 1;
  o.label(f->name);
  if (nwin > 0) o.label("windows");
  if (decay.size() > 2) o.label("decay");
  if (freqs.size() >= 200 && freqs[0] >= 200) o.label("zipf");
  return o;
}

Property p22() {
  Property p;
  p.id = "P22";
  Suite s;
  s.batch = 8;
  s.workers = 12;
  s.name = "analyze";
  s.rule = "traceAnalyzer on traces of every format of the command line with generated task selections, time windows, warm-up times, sampling "
           "ratios, caps and output paths; the summary and every output file against statistics computed from the requests written; "
           "non-trivial: several objects, reuse and at least one complete time window";
  s.gen = gen;
  s.check = check;
  s.n_quick = 3500;
  s.n_thorough = 60000;
  p.suites.push_back(s);
  p.assumptions = {"traces are sorted by time, as the program demands", "the last time window is reported only when a later request completes it"};
  return p;
}
Reg r22(p22);
}  // namespace
