// A generated trace file, the reader parameters that describe it and the requests it has to give.
#pragma once
#include "tracefmt.h"

using namespace pbt;
using namespace tf;
using cl::map_id;

namespace {

inline std::string pick_sizes(Rng &r) { return r.pick(std::vector<std::string>{"one", "small", "big", "zero"}); }

// rows {0, idx, size, dtime, aux}
inline void gen_rows(Rng &r, int size, Case &c, int maxn, bool zeros) {
  int n = (int)r.range(1, std::max<int64_t>(3, (int64_t)maxn * (size + 5) / 105));
  int nobj = (int)r.range(1, std::max<int64_t>(2, n));
  std::string sz = pick_sizes(r);
  c.seti("idmode", r.range(0, 3));
  c.seti("t0", r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(1, 100000) : r.range(1500000000, 4200000000LL));
  for (int i = 0; i < n; i++) {
    int64_t s = sz == "one" ? 1 : sz == "small" ? r.range(1, 300) : r.logrange(1, 4200000000LL);
    if (zeros && r.chance(0.15)) s = 0;
    c.ops.push_back({0, r.range(0, nobj - 1), s, r.chance(0.6) ? r.range(0, 3) : r.range(0, 5000),
                     r.chance(0.1) ? 0 : r.range(1, 1LL << 40)});
  }
}

struct File {
  const Fmt *f = nullptr;
  std::vector<TReq> all;  // records of the file
  std::string path;
  Params params;
  std::vector<TReq> exp;  // requests the reader returns
  int mask = 0;
  bool zst = false;
};

inline std::vector<TReq> deliver(const Fmt &f, const Case &c, const std::vector<TReq> &all) {
  std::vector<TReq> v;
  int64_t cap = c.geti("cap", -1);
  for (auto &r : all) {
    if (c.geti("skipzero", 1) && skipped(f, r)) continue;
    for (int64_t k = 0; k < r.cnt; k++) {
      if (cap > 0 && (int64_t)v.size() >= cap) return v;
      TReq q = r;
      if (c.geti("igsize")) q.size = 1;
      v.push_back(q);
    }
  }
  return v;
}

inline bool open_case(const Case &c, Ctx &ctx, File &x) {
  x.f = find(c.gets("format"));
  if (!x.f) return false;
  if (!valid_shape(*x.f, c)) return false;
  x.all = requests(c);
  if (x.all.empty()) return false;
  std::string data = encode(*x.f, c, x.all);
  if (x.f->type == VSCSI_TRACE && x.all.size() < 2 * 40 / 32 + 1) return false;
  x.zst = c.geti("zst") && x.f->zst;
  // bytes of an unfinished record at the end
  int64_t tail = c.geti("tail");
  x.path = ctx.scratch + "/trace." + x.f->ext;
  std::string name = x.f->name;
  if (tail > 0 && name != "csv" && name != "txt" && !x.zst) {
    size_t item = x.all.size() > 1 ? x.all[1].offset - x.all[0].offset : 0;
    if (item > 1) data += std::string((size_t)(tail % (int64_t)item), '\x5a');
  }
  if (x.zst) {
    data = zstd(data, (int)c.geti("zlevel", 3), (int)c.geti("zframes", 1));
    x.path += c.geti("zname") ? ".zst.22" : ".zst";
  }
  write_file(x.path, data);
  fill_params(*x.f, c, x.params);
  x.exp = deliver(*x.f, c, x.all);
  x.mask = x.f->mask;
  if (name == "binary" || name == "lcs") {
    if (!c.geti("f_time")) x.mask &= ~M_TIME;
    if (!c.geti("f_size")) x.mask &= ~M_SIZE;
    if (!c.geti("f_next")) x.mask &= ~M_NEXT;
    if (!c.geti("f_op")) x.mask &= ~M_OP;
  }
  if (name == "csv" && !c.geti("c_size", 3)) x.mask &= ~M_SIZE;
  if (c.geti("igsize")) x.mask |= M_SIZE;
  if (c.geti("igsize")) x.mask &= ~M_KV;
  return true;
}

inline reader_t *open_reader(const Case &c, File &x) {
  bool null = c.geti("nullparams") && x.f->type != CSV_TRACE && x.f->type != BIN_TRACE;
  return setup_reader(x.path.c_str(), x.f->type, null ? nullptr : &x.params.p);
}

// identity of hashed string ids: same text <=> same id
struct Ids {
  std::map<std::string, uint64_t> a;
  std::map<uint64_t, std::string> b;
  std::string judge(const std::string &s, uint64_t id) {
    auto i = a.find(s);
    if (i != a.end()) {
      if (i->second != id) return "object '" + s + "' has two different ids";
      return "";
    }
    auto j = b.find(id);
    if (j != b.end()) return "objects '" + s + "' and '" + j->second + "' have the same id";
    a[s] = id;
    b[id] = s;
    return "";
  }
};

inline bool str_ids(const File &x, const Case &c) {
  return (x.f->type == CSV_TRACE || x.f->type == PLAIN_TXT_TRACE) && (!c.geti("num", 1) || c.geti("nullparams"));
}

// reads everything from the current position, expecting exp[from..]
inline std::string read_rest(reader_t *rd, const File &x, const Case &c, size_t from, Ids &ids, const char *what,
                      int64_t limit = -1) {
  request_t *q = new_request();
  std::string bad;
  size_t i = from;
  bool sid = str_ids(x, c);
  while (bad.empty()) {
    if (limit >= 0 && (int64_t)(i - from) >= limit) break;
    int rc = read_one_req(rd, q);
    if (i == x.exp.size()) {
      if (rc == 0)
        bad = strf("%s: request %zu is returned although the trace has %zu: %s", what, i, x.exp.size(), show(q).c_str());
      else if (q->valid)
        bad = strf("%s: the request is still marked valid at the end of the trace", what);
      break;
    }
    if (rc != 0) {
      bad = strf("%s: the trace ends after %zu of %zu requests", what, i, x.exp.size());
      break;
    }
    std::string d = differs(*x.f, x.mask, x.exp[i], q, !sid);
    if (d.empty() && sid) d = ids.judge(x.exp[i].sid, q->obj_id);
    if (!d.empty()) bad = strf("%s: request %zu of %zu: %s", what, i, x.exp.size(), d.c_str());
    i++;
  }
  free_request(q);
  return bad;
}

}  // namespace
