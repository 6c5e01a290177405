// P17: traceConv, tracePrint and traceFilter
#include <sys/stat.h>
#include <unistd.h>

#include "simworld.h"

namespace {

#pragma pack(push, 1)
struct Og {
  uint32_t time;
  uint64_t id;
  uint32_t size;
  int64_t next;
};
#pragma pack(pop)

std::string bin(const char *n) { return std::string(getenv("VERIF_DIR")) + "/build/rel/bin/" + n; }

Case gen(Rng &r, int size, int tool) {
  Case c;
  gen_trace(r, size, c, 200, false, true, r.chance(0.8) ? 300 : 4200000000LL);
  if (tool != 2 || r.chance(0.3)) {
    // sizes change, some are zero
    if (r.chance(0.5)) {
      double pz = r.chance(0.5) ? 0.1 : 0;
      for (auto &o : c.ops) {
        if (r.chance(0.2)) o[2] = r.range(1, 400);
        if (r.chance(pz)) o[2] = 0;
      }
    }
  }
  c.seti("igsize", r.chance(0.15));
  if (tool != 2 && r.chance(0.2)) c.seti("back", r.logrange(1, 3000));
  if (r.chance(0.2)) c.seti("sample", r.range(1, 4));
  if (r.chance(0.25) && tool != 0) c.seti("cap", r.range(1, (int64_t)c.ops.size() + 3));
  const Fmt *f = find(c.gets("format"));
  if (tool != 0 && f->zst && r.chance(0.15)) {
    c.seti("zst", 1);
    c.seti("zlevel", 3);
  }
  c.seti("named", r.chance(0.5));
  c.seti("out", r.range(0, 3));
  c.seti("deep", r.chance(0.9) ? 0 : r.range(10, 500));
  if (tool == 0) {
    c.seti("txt", r.chance(0.5));
    c.seti("nochange", r.chance(0.4));
  } else if (tool == 1) {
    c.seti("idonly", r.chance(0.25));
    c.seti("id32", r.chance(0.25));
    c.seti("pdelim", r.chance(0.5) ? 0 : r.range(1, 4));
  } else {
    c.seti("ftype", r.range(0, 4));
    c.seti("fsize", r.chance(0.5) ? r.range(1, 99) : r.logrange(100, 20000));
  }
  return c;
}

struct Run {
  File x;
  std::vector<TReq> exp;  // what the tool has to see
  std::vector<std::string> argv;
  std::string cmd, out;   // output path
  ProcResult pr;
  bool sid = false;
};

// opens the trace, samples, builds the options all the tools know
bool prepare(const Case &c, Ctx &ctx, const char *tool, Run &w) {
  const Fmt *f = find(c.gets("format"));
  if (!f || !f->cli || c.geti("nullparams") || !c.geti("skipzero", 1)) return false;
  if (!open_case(c, ctx, w.x)) return false;
  w.sid = str_ids(w.x, c);
  static const char *ratios[5] = {"1", "0.5", "0.3", "0.1", "0.05"};
  const char *ra = ratios[(c.geti("sample") % 5 + 5) % 5];
  if (c.geti("sample") > 0 && w.sid) return false;
  sampler_t *s = c.geti("sample") > 0 ? create_spatial_sampler(atof(ra)) : nullptr;
  request_t *q = new_request();
  std::vector<TReq> all = w.x.all;
  if (strcmp(tool, "traceConv") == 0) {
    // every record of the file
    Case d = c;
    d.seti("skipzero", strcmp(f->name, "csv") == 0);
    d.seti("cap", -1);
    w.exp = deliver(*f, d, all);
  } else {
    Case d = c;
    d.seti("cap", -1);
    w.exp = deliver(*f, d, all);
  }
  int64_t cap = strcmp(tool, "traceConv") ? c.geti("cap", -1) : -1;
  std::vector<TReq> v;
  for (size_t i = 0; i < w.exp.size(); i++) {
    q->obj_id = w.exp[i].id;
    q->hv = 0;
    if (s && !s->sample(s, q)) continue;
    v.push_back(w.exp[i]);
  }
  if (s && cap > 0) return false;
  w.exp = v;
  if (cap > 0 && w.exp.size() > (size_t)cap) w.exp.resize((size_t)cap);
  free_request(q);
  if (s) s->free(s);
  int64_t deep = std::min<int64_t>(c.geti("deep"), 700);
  if (deep > 0) {
    // the file lies deep in the file system
    std::string dir = ctx.scratch, old = w.x.path;
    while (deep > 0) {
      dir += "/" + std::string((size_t)std::min<int64_t>(deep, 200), 'd');
      mkdir(dir.c_str(), 0755);
      deep -= 200;
    }
    w.x.path = dir + old.substr(old.rfind('/'));
    if (rename(old.c_str(), w.x.path.c_str()) != 0) return false;
  }
  w.argv = {bin(tool), w.x.path, f->cli};
  auto opt = [&](const char *sh, const char *lo, const std::string &b) {
    if (c.geti("named"))
      w.argv.push_back(std::string(lo) + "=" + b);
    else {
      w.argv.push_back(sh);
      w.argv.push_back(b);
    }
  };
  std::string tp = cli_params(*f, c);
  if (!tp.empty()) opt("-t", "--trace-type-params", tp);
  if (c.geti("igsize")) opt("--ignore-obj-size", "--ignore-obj-size", "1");
  if (s) opt("-s", "--sample-ratio", ra);
  if (cap > 0) opt("-n", "--num-req", strf("%lld", (long long)cap));
  return true;
}
void launch(const Case &c, Ctx &ctx, Run &w) {
  w.pr = run_proc(w.argv, ctx.scratch, 60, ctx.scratch);
  w.cmd = w.argv[0].substr(w.argv[0].rfind('/') + 1);
  for (size_t i = 2; i < w.argv.size(); i++) w.cmd += " '" + w.argv[i] + "'";
}
#define RAN                                                                        \
  if (w.pr.timeout) PFAIL("timeout", "%s does not end", w.cmd.c_str());            \
  if (w.pr.rc != 0) PFAIL("exit", "%s exits with %d: %.300s", w.cmd.c_str(), w.pr.rc, w.pr.err.c_str());

std::string id_judge(Run &w, Ids &ids, const TReq &e, uint64_t id, bool b32 = false) {
  if (w.sid) return ids.judge(e.sid, id);
  uint64_t want = b32 ? (uint32_t)e.id : e.id;
  if (want != id) return strf("object %llu, expected %llu", (unsigned long long)id, (unsigned long long)want);
  return "";
}

// ------------------------------------------------------------------ traceConv
Outcome check_conv(const Case &c, Ctx &ctx) {
  Run w;
  if (c.geti("zst")) return Outcome::discard();
  if (!prepare(c, ctx, "traceConv", w)) return Outcome::discard();
  std::string name = w.x.path + ".oracleGeneral";
  if (c.geti("out") > 0) {
    name = ctx.scratch + "/conv.out";
    w.argv.push_back("-o");
    w.argv.push_back(c.geti("out") == 1 ? "conv.out" : name);
  }
  if (c.geti("txt")) {
    w.argv.push_back("--output-txt");
    w.argv.push_back("true");
  }
  bool fixed = c.geti("nochange") != 0;
  if (fixed) {
    w.argv.push_back("--remove-size-change=1");
  }
  std::string before, after;
  read_file(w.x.path, before);
  launch(c, ctx, w);
  if (w.exp.empty()) {
    std::string data;
    if (w.pr.rc == 0 && read_file(name, data) && !data.empty())
      PFAIL("count", "%s writes %zu bytes although no request is selected", w.cmd.c_str(), data.size());
    return Outcome();
  }
  RAN
  read_file(w.x.path, after);
  if (before != after) PFAIL("input", "%s changes the trace it reads", w.cmd.c_str());
  std::string data;
  if (!read_file(name, data)) PFAIL("output", "%s writes no %s", w.cmd.c_str(), name.c_str());
  if (data.size() != w.exp.size() * sizeof(Og))
    PFAIL("count", "%s writes %zu bytes, the trace has %zu requests of %zu bytes", w.cmd.c_str(), data.size(), w.exp.size(), sizeof(Og));
  Ids ids;
  const Og *g = (const Og *)data.data();
  std::unordered_map<uint64_t, size_t> nextpos;
  size_t reuse = 0;
  for (size_t i = 0; i < w.exp.size(); i++) {
    std::string bad = id_judge(w, ids, w.exp[i], g[i].id);
    if (!bad.empty()) PFAIL("id", "%s: request %zu: %s", w.cmd.c_str(), i, bad.c_str());
    if ((w.x.mask & M_TIME) && g[i].time != (uint32_t)w.exp[i].time)
      PFAIL("time", "%s: request %zu has time %u, expected %lld", w.cmd.c_str(), i, g[i].time, (long long)w.exp[i].time);
  }
  std::unordered_map<uint64_t, int64_t> first;
  for (size_t i = 0; i < w.exp.size(); i++) {
    int64_t sz = (w.x.mask & M_SIZE) ? w.exp[i].size : g[i].size;
    if (fixed) sz = first.emplace(g[i].id, sz).first->second;
    if (g[i].size != (uint32_t)sz) PFAIL("size", "%s: request %zu has size %u, expected %lld", w.cmd.c_str(), i, g[i].size, (long long)sz);
  }
  for (size_t k = w.exp.size(); k-- > 0;) {
    auto it = nextpos.find(g[k].id);
    int64_t e = it == nextpos.end() ? -1 : (int64_t)it->second + 1;
    if (e > 0) reuse++;
    if (g[k].next != e)
      PFAIL("next", "%s: request %zu of %zu is annotated with %lld, its object is requested again at %lld", w.cmd.c_str(), k + 1, w.exp.size(), (long long)g[k].next, (long long)e);
    nextpos[g[k].id] = k;
  }
  if (c.geti("txt")) {
    std::string t, want;
    for (size_t i = 0; i < w.exp.size(); i++)
      want += strf("%u,%llu,%u,%lld\n", g[i].time, (unsigned long long)g[i].id, g[i].size, (long long)g[i].next);
    read_file(name + ".txt", t);
    if (t != want) PFAIL("txt", "%s: the text output differs from the binary output", w.cmd.c_str());
  }
  if (access((name + ".reverse").c_str(), F_OK) == 0) PFAIL("temporary", "%s leaves its temporary file behind", w.cmd.c_str());
  // the library reads it back
  reader_t *rd = setup_reader(name.c_str(), ORACLE_GENERAL_TRACE, nullptr);
  if (rd && (size_t)get_num_of_req(rd) != w.exp.size()) PFAIL("readback", "%s: the converted trace has %lld requests", w.cmd.c_str(), (long long)get_num_of_req(rd));
  if (rd) close_reader(rd);
  Outcome o;
  o.nontrivial = reuse > 0 && w.exp.size() >= 5;
  o.label(w.x.f->name);
  return o;
}

// ----------------------------------------------------------------- tracePrint
Outcome check_print(const Case &c, Ctx &ctx) {
  Run w;
  if (!prepare(c, ctx, "tracePrint", w)) return Outcome::discard();
  if (w.exp.empty()) return Outcome::discard();
  static const char delims[] = {',', ' ', ';', '|', '\t'};
  char d = delims[(c.geti("pdelim") % 5 + 5) % 5];
  if (c.geti("pdelim")) {
    w.argv.push_back("--field-delimiter");
    w.argv.push_back(std::string(1, d));
  }
  bool idonly = c.geti("idonly") != 0, b32 = c.geti("id32") != 0;
  if (idonly) w.argv.push_back("--obj-id-only=1");
  if (b32) w.argv.push_back("--obj-id-32bit=1");
  launch(c, ctx, w);
  RAN
  std::vector<std::vector<std::string>> rows;
  std::string cur;
  for (char ch : w.pr.out) {
    if (ch != '\n') {
      cur += ch;
      continue;
    }
    if (cur[0] != '#' && cur.find("sampler") == std::string::npos) {
      std::vector<std::string> v(1);
      for (char k : cur) {
        if (k == d)
          v.emplace_back();
        else
          v.back() += k;
      }
      rows.push_back(v);
    }
    cur.clear();
  }
  if (rows.size() != w.exp.size()) PFAIL("count", "%s prints %zu requests, the trace has %zu", w.cmd.c_str(), rows.size(), w.exp.size());
  Ids ids;
  for (size_t i = 0; i < rows.size(); i++) {
    auto &v = rows[i];
    const TReq &e = w.exp[i];
    size_t want = idonly ? 1 : (w.x.mask & M_NEXT) ? 4 : 3;
    if (v.size() != want) PFAIL("fields", "%s: request %zu is printed with %zu fields instead of %zu", w.cmd.c_str(), i, v.size(), want);
    std::string bad = id_judge(w, ids, e, strtoull(v[idonly ? 0 : 1].c_str(), nullptr, 10), b32);
    if (bad.empty() && !idonly) {
      if ((w.x.mask & M_TIME) && v[0] != strf("%lld", (long long)e.time)) bad = "time " + v[0] + strf(", expected %lld", (long long)e.time);
      if ((w.x.mask & M_SIZE) && v[2] != strf("%lld", (long long)e.size)) bad = "size " + v[2] + strf(", expected %lld", (long long)e.size);
      if (want == 4 && v[3] != strf("%lld", (long long)e.next) && !(e.next == -1 && v[3] == strf("%lld", (long long)INT64_MAX))) bad = "next " + v[3] + strf(", expected %lld", (long long)e.next);
    }
    if (!bad.empty()) PFAIL("row", "%s: request %zu: %s", w.cmd.c_str(), i, bad.c_str());
  }
  Outcome o;
  o.nontrivial = rows.size() >= 5;
  o.label(w.x.f->name);
  return o;
}

// ---------------------------------------------------------------- traceFilter
Outcome check_filter(const Case &c, Ctx &ctx) {
  Run w;
  if (!prepare(c, ctx, "traceFilter", w)) return Outcome::discard();
  if (w.exp.empty()) return Outcome::discard();
  bool ig = c.geti("igsize") != 0;
  int t = (int)((c.geti("ftype") % 5 + 5) % 5);
  static const char *types[5] = {"FIFO", "LRU", "fifo", "lru", ""};
  bool lru = t == 1 || t == 3;
  if (!(w.x.mask & M_SIZE) || (w.sid && false)) return Outcome::discard();
  int64_t wss = 0;
  {
    std::map<std::string, int> seen;
    for (auto &e : w.exp)
      if (seen.emplace(w.sid ? e.sid : strf("%llu", (unsigned long long)e.id), 1).second) wss += ig ? 1 : e.size;
  }
  int64_t fs = std::max<int64_t>(1, c.geti("fsize", 1)), size;
  std::string arg;
  if (fs < 100) {
    arg = strf("0.%02lld", (long long)fs);
    size = (int64_t)((double)wss * atof(arg.c_str()));
  } else {
    arg = strf("%lld", (long long)fs);
    size = fs;
  }
  std::string shown = "FIFO";
  if (t < 4) {
    w.argv.push_back("--filter-type");
    w.argv.push_back(types[t]);
    shown = types[t];
  }
  w.argv.push_back("--filter-size=" + arg);
  std::string name = w.x.path.substr(w.x.path.rfind('/') + 1);
  name = ctx.scratch + "/" + name + ".filter_" + shown + strf("_%lld.oracleGeneral", (long long)size);
  if (c.geti("out") > 0) {
    name = ctx.scratch + "/conv.out";
    w.argv.push_back("-o");
    w.argv.push_back(c.geti("out") == 1 ? "conv.out" : name);
  }
  launch(c, ctx, w);
  RAN
  // a list is cache enough
  cache_t *ch = cl::make_cache(lru ? "LRU" : "FIFO", size, "", false, 8, 86400 * 300);
  std::string data;
  if (!read_file(name, data)) PFAIL("output", "%s writes no %s", w.cmd.c_str(), name.c_str());
  if (data.size() % sizeof(Og)) PFAIL("count", "%s writes %zu bytes", w.cmd.c_str(), data.size());
  const Og *g = (const Og *)data.data();
  size_t n = data.size() / sizeof(Og), k = 0;
  Ids ids;
  std::unordered_map<std::string, uint64_t> sid;
  int64_t hits = 0;
  request_t *q = new_request();
  for (size_t i = 0; i < w.exp.size(); i++) {
    const TReq &e = w.exp[i];
    uint64_t id = w.sid ? sid.emplace(e.sid, sid.size() + 1).first->second : e.id;
    cl::fill_req(q, id, e.size, 0, -2);
    q->clock_time = (w.x.mask & M_TIME) ? e.time - w.exp[0].time : 0;
    if (ch->get(ch, q)) {
      hits++;
      continue;
    }
    if (k >= n) PFAIL("count", "%s writes %zu requests, request %zu of %zu misses too", w.cmd.c_str(), n, i, w.exp.size());
    std::string bad = id_judge(w, ids, e, g[k].id);
    if (bad.empty() && g[k].size != (uint32_t)e.size) bad = strf("size %u, expected %lld", g[k].size, (long long)e.size);
    if (bad.empty() && (w.x.mask & M_TIME) && g[k].time != (uint32_t)q->clock_time)
      bad = strf("time %u, expected %lld", g[k].time, (long long)q->clock_time);
    if (!bad.empty()) PFAIL("request", "%s: miss %zu (request %zu of %zu): %s", w.cmd.c_str(), k, i, w.exp.size(), bad.c_str());
    k++;
  }
  free_request(q);
  ch->cache_free(ch);
  if (k != n) PFAIL("count", "%s writes %zu requests, %zu miss", w.cmd.c_str(), n, k);
  Outcome o;
  o.nontrivial = hits > 0 && k > 3;
  o.label(w.x.f->name);
  return o;
}

Property p17() {
  Property p;
  p.id = "P17";
  Suite s;
  s.batch = 16;
  s.workers = 12;
  s.name = "conv";
  s.rule = "traceConv on traces of every format of the command line, with sampling, changing and zero sizes, text output and size fixing; the "
           "converted file record by record against the requests written; non-trivial: reused objects";
  s.gen = [](Rng &r, int size) { return gen(r, size, 0); };
  s.check = check_conv;
  s.n_quick = 15000;
  s.n_thorough = 150000;
  p.suites.push_back(s);
  s.name = "print";
  s.rule = "tracePrint with caps, sampling, delimiters and id options; every printed line against the requests written; non-trivial: at least 5 "
           "requests";
  s.gen = [](Rng &r, int size) { return gen(r, size, 1); };
  s.check = check_print;
  s.n_quick = 15000;
  s.n_thorough = 150000;
  p.suites.push_back(s);
  s.name = "filter";
  s.rule = "traceFilter with LRU and FIFO of relative and absolute sizes; the written requests against the misses of the same cache; non-trivial: "
           "hits and misses";
  s.gen = [](Rng &r, int size) { return gen(r, size, 2); };
  s.check = check_filter;
  s.n_quick = 15000;
  s.n_thorough = 100000;
  p.suites.push_back(s);
  return p;
}
Reg r17(p17);
}  // namespace
