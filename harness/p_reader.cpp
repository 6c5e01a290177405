// P12 reading trace files, P13 navigating them, P14 reader options, P16 samplers
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <unistd.h>

#include "rworld.h"

#include "bin/cli_reader_utils.h"

using namespace pbt;
using namespace tf;
using cl::map_id;

namespace {

int count_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

// ---------------------------------------------------------------- P12
Case gen_read(Rng &r, int size, bool zst, bool text) {
  Case c;
  std::vector<const Fmt *> pool;
  const char *only = getenv("PBT_FMT");
  for (auto &f : fmts()) {
    bool t = f.type == CSV_TRACE || f.type == PLAIN_TXT_TRACE;
    if (only && strcmp(only, f.name)) continue;
    if (t != text) continue;
    if (zst && !f.zst) continue;
    pool.push_back(&f);
  }
  if (pool.empty()) pool.push_back(&fmts()[0]);
  const Fmt *f = r.pick(pool);
  c.sets("format", f->name);
  gen_rows(r, size, c, 80, true);
  gen_shape(r, *f, c);
  c.seti("stop", r.range(0, 40));
  if (r.chance(0.3)) c.seti("tail", r.range(1, 50));
  if (r.chance(0.15) && !text) c.seti("nullparams", 1);
  if (zst) {
    c.seti("zst", 1);
    c.seti("zlevel", r.chance(0.5) ? r.range(1, 9) : r.range(10, 19));
    c.seti("zframes", r.chance(0.3) ? r.range(2, 5) : 1);
    c.seti("zname", r.chance(0.3));
    c.seti("tail", 0);
    // big enough for several decompression rounds
    if (r.chance(0.35)) c.seti("rep", r.range(1, 1 + 40000 / (int64_t)c.ops.size()));
    // constant records: nearly nothing to read, much to write
    if (r.chance(0.25)) {
      for (auto &o : c.ops) {
        o[1] = 0;
        o[3] = 0;
        o[4] = 0;
      }
      c.seti("rep", r.range(1, 1 + 60000 / (int64_t)c.ops.size()));
    }
  }
  // (long runs of zero-size records are skipped recursively)
  if (c.geti("rep", 1) > 1 && c.ops[0][2] == 0) c.ops[0][2] = 1;
  return c;
}

Outcome check_read(const Case &c, Ctx &ctx) {
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  int fd0 = count_fds();
  reader_t *rd = open_reader(c, x);
  Ids ids;
  std::string bad = read_rest(rd, x, c, 0, ids, "first pass");
  if (!bad.empty()) PFAIL("content", "%s: %s", x.f->name, bad.c_str());
  {
    request_t *q = new_request();
    if (read_one_req(rd, q) == 0) PFAIL("after-end", "%s: a request is returned after the end of the trace: %s", x.f->name, show(q).c_str());
    free_request(q);
  }
  reset_reader(rd);
  bad = read_rest(rd, x, c, 0, ids, "second pass", c.geti("stop"));
  if (!bad.empty()) PFAIL("second-pass", "%s: after reset_reader: %s", x.f->name, bad.c_str());
  reset_reader(rd);
  bad = read_rest(rd, x, c, 0, ids, "third pass");
  if (!bad.empty()) PFAIL("third-pass", "%s: after reset_reader in the middle: %s", x.f->name, bad.c_str());
  reader_t *cp = clone_reader(rd);
  bad = read_rest(cp, x, c, 0, ids, "clone");
  if (!bad.empty()) PFAIL("clone", "%s: %s", x.f->name, bad.c_str());
  uint64_t n = get_num_of_req(rd);
  bool text = x.f->type == CSV_TRACE || x.f->type == PLAIN_TXT_TRACE;
  uint64_t en = text || x.zst ? x.exp.size() : x.all.size();
  if (n != en)
    PFAIL("count", "%s: get_num_of_req gives %llu for a trace of %llu requests", x.f->name, (unsigned long long)n,
          (unsigned long long)en);
  close_reader(cp);
  close_reader(rd);
  int fd1 = count_fds();
  if (fd1 > fd0) PFAIL("fd-leak", "%s: %d file descriptors are open before and %d after using the reader", x.f->name, fd0, fd1);
  Outcome o;
  o.nontrivial = x.exp.size() >= 3;
  o.label(x.f->name);
  if (x.zst) o.label("zst");
  if (x.exp.size() < x.all.size()) o.label("zero-size-skipped");
  if (x.all.size() > 12000) o.label("large");
  return o;
}

// the way the command line tools open a trace: the type by its name or found from the file's name, the parameters as text
struct Tag {
  const char *format, *name;
  bool zst;
};
const std::vector<Tag> &tags() {
  static const std::vector<Tag> v = {{"oracleGeneral", "t.oracleGeneral", false}, {"oracleGeneral", "t.oracleGeneral.bin", false},
      {"oracleGeneral", "t.oracleGeneralBin", false}, {"oracleGeneral", "w.bin.oracleGeneral", false}, {"oracleGeneral", "t.oracleGeneral.zst", true},
      {"oracleGeneral", "t.oracleGeneral.x.zst.22", true}, {"oracleGeneral", "oracleGeneral", false}, {"oracleGeneralOpNS", "t.oracleGeneralOpNS", false},
      {"oracleGeneralOpNS", "t.oracleGeneralOpNS.zst", true},
      {"vscsi1", "t.vscsi", false}, {"vscsi2", "t.vscsi", false}, {"oracleCF1", "t.oracleCF1.bin", false}, {"oracleAkamai", "t.oracleAkamai", false},
      {"oracleWiki16u", "t.oracleWiki16u", false}, {"oracleWiki19u", "x_oracleWiki19u.1", false}, {"twr", "t.twr.1", false},
      {"oracleCF1", "oracleCF1", false}, {"vscsi2", "a.vscsi", false}, {"twr", ".twr.", false},
      {"twrNS", "t.twrNS.1", false}, {"oracleSysTwrNS", "t.oracleSysTwrNS", false}};
  return v;
}
Case gen_named(Rng &r, int size) {
  bool text = r.chance(0.35);
  Case c = gen_read(r, size, false, text);
  c.seti("nullparams", 0);
  c.seti("skipzero", 1);
  c.seti("f_op", 0);
  if (r.chance(0.5)) {
    int64_t t = r.range(0, (int64_t)tags().size() - 1);
    c.seti("tag", t + 1);
    c.sets("format", tags()[(size_t)t].format);
    if (tags()[(size_t)t].zst) c.seti("zst", 1);
  } else {
    std::vector<const Fmt *> pool;
    for (auto &f : fmts())
      if (f.cli && (f.type == CSV_TRACE || f.type == PLAIN_TXT_TRACE) == text) pool.push_back(&f);
    const Fmt *f = r.pick(pool);
    c.sets("format", f->name);
    if (!text) gen_shape(r, *f, c);
    c.seti("f_op", 0);
    c.seti("tag", 0);
  }
  c.seti("upper", r.range(0, 2));
  c.seti("rel", r.chance(0.3));
  c.seti("cap", r.chance(0.3) ? r.range(1, 60) : -1);
  c.seti("igsize", r.chance(0.3));
  return c;
}
Outcome check_named(const Case &c0, Ctx &ctx) {
  Case c = c0;
  int64_t t = c.geti("tag");
  const Tag *tag = t > 0 && t <= (int64_t)tags().size() ? &tags()[(size_t)t - 1] : nullptr;
  if (tag) c.sets("format", tag->format), c.seti("zst", tag->zst), c.seti("zname", 0);
  c.seti("nullparams", 0);
  c.seti("skipzero", 1);
  c.seti("f_op", 0);
  const Fmt *f = find(c.gets("format"));
  if (!f || (!tag && !f->cli)) return Outcome::discard();
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  if (str_ids(x, c) && c.geti("upper")) c.seti("upper", 0);
  auto flip = [&](std::string s) {
    int64_t u = c.geti("upper");
    for (auto &ch : s) ch = u == 1 ? (char)toupper(ch) : u == 2 ? (char)tolower(ch) : ch;
    return s;
  };
  std::string path = x.path, type = tag ? "auto" : flip(f->cli);
  if (tag) {
    std::string n = tag->name;
    if (!tag->zst) n = flip(n);
    path = ctx.scratch + "/" + n;
    if (rename(x.path.c_str(), path.c_str()) != 0) return Outcome::discard();
    if (c.geti("rel")) path = n;
  }
  std::string text = cli_params(*f, c);
  struct Dir {
    int fd = open(".", O_RDONLY | O_DIRECTORY);
    ~Dir() {
      if (fchdir(fd) != 0) _exit(97);
      close(fd);
    }
  } back;
  if (tag && c.geti("rel") && chdir(ctx.scratch.c_str()) != 0) return Outcome::discard();
  std::unique_ptr<char, void (*)(void *)> heap_path(strdup(path.c_str()), free);
  reader_t *rd = create_reader(type.c_str(), heap_path.get(), text.empty() ? nullptr : text.c_str(), c.geti("cap", -1), c.geti("igsize") != 0, 1);
  Ids ids;
  std::string bad = read_rest(rd, x, c, 0, ids, "first pass");
  if (!bad.empty()) PFAIL("content", "type '%s', file '%s', parameters '%s': %s", type.c_str(), path.substr(path.rfind('/') + 1).c_str(), text.c_str(), bad.c_str());
  reset_reader(rd);
  bad = read_rest(rd, x, c, 0, ids, "second pass");
  if (!bad.empty()) PFAIL("second-pass", "type '%s', parameters '%s': %s", type.c_str(), text.c_str(), bad.c_str());
  close_reader(rd);
  Outcome o;
  o.nontrivial = x.exp.size() >= 3;
  o.label(f->name);
  if (tag) o.label("detected");
  return o;
}

// ---------------------------------------------------------------- P13
enum { N_READ, N_RESET, N_SKIP, N_BACK, N_ABOVE, N_END, N_BEGIN, N_FRAC, N_FIRST, N_LAST, N_CLONE, N_NUM, N_KINDS };

Case gen_nav(Rng &r, int size, bool zst) {
  Case c = gen_read(r, size, zst, zst ? false : r.chance(0.35));
  for (auto &o : c.ops)
    if (o[2] == 0) o[2] = 1;  // zero-size objects are the subject of P12 and P14
  c.seti("c_cnt", 0);
  if (zst && c.geti("rep", 1) > 1 && r.chance(0.6)) c.seti("rep", 1);
  // a long line now and then
  if (c.gets("format") == "txt" && !c.geti("num", 1) && r.chance(0.2)) c.seti("longline", r.range(900, 3300));
  int n = (int)r.range(3, 60);
  for (int i = 0; i < n; i++) {
    int k = (int)r.range(0, 99);
    int64_t kind = k < 35 ? N_READ : k < 40 ? N_RESET : k < 50 ? N_SKIP : k < 60 ? N_BACK : k < 72 ? N_ABOVE : k < 77 ? N_END
                   : k < 79 ? N_BEGIN : k < 84 ? N_FRAC : k < 88 ? N_FIRST : k < 92 ? N_LAST : k < 97 ? N_CLONE : N_NUM;
    int64_t arg = kind == N_FRAC ? r.range(0, 1000) : r.chance(0.8) ? r.range(1, 6) : r.range(0, (int64_t)c.ops.size() + 5);
    c.ops.push_back({1, r.range(0, 2), kind, arg});
  }
  return c;
}

Outcome check_nav(const Case &c0, Ctx &ctx) {
  Case c = c0;
  for (auto &o : c.ops)
    if (o.size() >= 5 && o[0] == 0 && o[2] == 0) o[2] = 1;
  c.seti("c_cnt", 0);
  c.seti("skipzero", 0);
  // a key can fill the whole size, and a reader without parameters drops such requests
  const Fmt *pf = find(c.gets("format"));
  if (pf && pf->zero == Z_TWR) c.seti("nullparams", 0);
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  bool text = x.f->type == CSV_TRACE || x.f->type == PLAIN_TXT_TRACE;
  if (text && c.geti("blank")) {
    c.seti("blank", 0);
    if (!open_case(c, ctx, x)) return Outcome::discard();
  }
  if (int64_t len = c.geti("longline")) {
    // lines longer than the seek buffer
    std::string d;
    for (auto &r : x.all) {
      r.offset = d.size();
      r.sid += std::string((size_t)(r.aux % (uint64_t)(len + 1)), 'x');
      d += r.sid + "\n";
    }
    if (x.f->type == PLAIN_TXT_TRACE && !c.geti("num", 1)) {
      write_file(x.path, d);
      x.exp = x.all;
    }
  }
  std::string data;
  if (!read_file(x.path, data)) return Outcome::discard();
  const int64_t N = (int64_t)x.exp.size();
  reader_t *rd[3] = {open_reader(c, x), nullptr, nullptr};
  int64_t p[3] = {0, 0, 0};
  request_t *q = new_request();
  Ids ids;
  bool sid = str_ids(x, c);
  size_t item = x.zst || text || x.all.size() < 2 ? 0 : x.all[1].offset - x.all[0].offset;
  int back = 0, done = 0, step = 0, clones = 0;
  std::string hist;
  auto judge = [&](int64_t i, const char *what) -> std::string {
    if (i < 0 || i >= N) return "bad index";
    std::string d = differs(*x.f, x.mask, x.exp[(size_t)i], q, !sid);
    if (d.empty() && sid) d = ids.judge(x.exp[(size_t)i].sid, q->obj_id);
    if (!d.empty()) d = strf("%s: expected request %lld: %s", what, (long long)i, d.c_str());
    return d;
  };
  for (auto &o : c.ops) {
    if (o.size() < 4 || o[0] != 1) continue;
    step++;
    int s = (int)(o[1] % 3);
    if (s < 0) s = 0;
    if (!rd[s]) s = 0;
    int64_t kind = o[2], a = o[3];
    if (x.zst && (kind == N_BACK || kind == N_ABOVE || kind == N_END || kind == N_BEGIN || kind == N_FRAC || kind == N_LAST))
      continue;
    done++;
    std::string bad, ctxs = strf("%s step %d (reader %d at %lld of %lld)", x.f->name, step, s, (long long)p[s], (long long)N);
    int rc;
    switch (kind) {
      case N_READ:
        rc = read_one_req(rd[s], q);
        if (p[s] >= N) {
          if (rc == 0) bad = strf("read at the end returns %s", show(q).c_str());
        } else {
          if (rc != 0) bad = "read fails before the end";
          else bad = judge(p[s], "read");
          p[s]++;
        }
        break;
      case N_RESET:
        reset_reader(rd[s]);
        p[s] = 0;
        break;
      case N_SKIP: {
        if (a < 0) a = 0;
        int64_t e = std::min(a, N - p[s]);
        int64_t g = skip_n_req(rd[s], (int)a);
        if (g != e) bad = strf("skipping %lld requests reports %lld, expected %lld", (long long)a, (long long)g, (long long)e);
        p[s] += e;
        break;
      }
      case N_BACK:
        rc = go_back_one_req(rd[s]);
        if (p[s] > 0) {
          if (rc != 0) bad = "going back one request fails although there is one";
          p[s]--;
          back++;
        } else if (rc == 0) bad = "going back one request succeeds at the start of the trace";
        break;
      case N_ABOVE:
        rc = read_one_req_above(rd[s], q);
        if (p[s] >= 2) {
          if (rc != 0) bad = "reading the request above fails although there is one";
          else bad = judge(p[s] - 2, "read above");
          p[s]--;
          back++;
        } else {
          if (rc == 0) bad = strf("reading the request above the first one returns %s", show(q).c_str());
          reset_reader(rd[s]);
          p[s] = 0;
        }
        break;
      case N_END:
        reader_set_read_pos(rd[s], 1.0);
        p[s] = N;
        break;
      case N_BEGIN:
        reader_set_read_pos(rd[s], 0);
        p[s] = 0;
        break;
      case N_FRAC: {
        if (a < 0) a = -a;
        double fr = (double)(a % 1001) / 1000.0;
        reader_set_read_pos(rd[s], fr);
        // any request boundary near the asked position is fine: it is found by reading one
        int64_t off = (int64_t)((double)data.size() * fr), k = 0;
        while (k < N && (int64_t)x.all[(size_t)k].offset < off) k++;
        rc = read_one_req(rd[s], q);
        // the fraction may be of the bytes or of the records behind the header
        int64_t h = x.all.empty() ? 0 : (int64_t)x.all[0].offset;
        int64_t off2 = h + (int64_t)((double)((int64_t)data.size() - h) * fr), k2 = 0;
        while (k2 < N && (int64_t)x.all[(size_t)k2].offset < off2) k2++;
        int64_t found = -1;
        for (int64_t cand = std::min(k, k2) - 2; cand <= std::max(k, k2) + 1; cand++) {
          if (cand == N && rc != 0 && std::max(k, k2) >= N) found = N;
          if (cand < 0 || cand >= N || rc != 0) continue;
          if (sid ? x.exp[(size_t)cand].sid.size() && ids.a.count(x.exp[(size_t)cand].sid) &&
                        ids.a[x.exp[(size_t)cand].sid] == q->obj_id && differs(*x.f, x.mask, x.exp[(size_t)cand], q, false).empty()
                  : differs(*x.f, x.mask, x.exp[(size_t)cand], q, true).empty())
            found = cand;
          if (found >= 0) break;
        }
        if (found < 0 && sid) {
          reset_reader(rd[s]);
          p[s] = 0;
          break;
        }
        if (found < 0)
          bad = strf("jumping to %.3f of the trace (byte %lld, near request %lld) then reading gives %s", fr, (long long)off,
                     (long long)k, rc ? "end of trace" : show(q).c_str());
        // several equal requests may match: forget the position
        reset_reader(rd[s]);
        p[s] = 0;
        break;
      }
      case N_FIRST:
        read_first_req(rd[s], q);
        bad = judge(0, "read_first_req");
        break;
      case N_LAST:
        read_last_req(rd[s], q);
        bad = judge(N - 1, "read_last_req");
        break;
      case N_CLONE: {
        int t = 1 + (int)((a < 0 ? -a : a) % 2);
        if (t == s) break;
        if (rd[t]) close_reader(rd[t]);
        rd[t] = clone_reader(rd[s]);
        p[t] = 0;
        clones++;
        break;
      }
      default: {
        int64_t g = (int64_t)get_num_of_req(rd[s]);
        if (g != N) bad = strf("get_num_of_req gives %lld", (long long)g);
      }
    }
    if (!bad.empty()) PFAIL(strf("nav-%lld", (long long)kind), "%s: %s", ctxs.c_str(), bad.c_str());
  }
  (void)item;
  // every reader still delivers the rest of the trace
  for (int s = 2; s >= 0; s--) {
    if (!rd[s]) continue;
    std::string bad = read_rest(rd[s], x, c, (size_t)p[s], ids, "rest of the trace");
    if (!bad.empty()) PFAIL("rest", "%s: reader %d: %s", x.f->name, s, bad.c_str());
    close_reader(rd[s]);
  }
  free_request(q);
  Outcome o;
  o.nontrivial = done >= 5 && N >= 3;
  o.label(x.f->name);
  if (back > 2) o.label("backward");
  if (clones) o.label("clones");
  if (x.zst) o.label("zst");
  if (c.geti("longline")) o.label("long-lines");
  return o;
}

// ---------------------------------------------------------------- P14
Case gen_opt(Rng &r, int size) {
  Case c = gen_read(r, size, r.chance(0.15), r.chance(0.5));
  if (c.geti("zst") && !find(c.gets("format"))->zst) c.seti("zst", 0);
  if (c.geti("rep", 1) > 3) c.seti("rep", 3);
  c.seti("nullparams", 0);
  if (r.chance(0.6)) c.seti("cap", r.chance(0.3) ? r.range(1, 3) : r.range(1, (int64_t)c.ops.size() + 3));
  if (r.chance(0.1)) c.seti("cap", 0);
  c.seti("igsize", r.chance(0.35));
  c.seti("skipzero", r.chance(0.6));
  return c;
}

Outcome check_opt(const Case &c, Ctx &ctx) {
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  if (!strcmp(x.f->name, "oracleCF1") && 0) return Outcome::discard();
  reader_t *rd = open_reader(c, x);
  Ids ids;
  std::string bad = read_rest(rd, x, c, 0, ids, "first pass");
  if (!bad.empty()) PFAIL("options", "%s: %s", x.f->name, bad.c_str());
  reader_t *cp = clone_reader(rd);
  bad = read_rest(cp, x, c, 0, ids, "clone");
  if (!bad.empty()) PFAIL("options-clone", "%s: %s", x.f->name, bad.c_str());
  reset_reader(rd);
  bad = read_rest(rd, x, c, 0, ids, "second pass", c.geti("stop"));
  if (bad.empty()) {
    reset_reader(rd);
    bad = read_rest(rd, x, c, 0, ids, "third pass");
  }
  if (!bad.empty()) PFAIL("options-reset", "%s: %s", x.f->name, bad.c_str());
  close_reader(cp);
  close_reader(rd);
  Outcome o;
  o.label(x.f->name);
  if (c.geti("cap", -1) > 0 && c.geti("cap") < (int64_t)x.all.size()) o.label("capped");
  if (c.geti("igsize")) o.label("ignore-size");
  if (x.f->zero != Z_NONE && c.geti("skipzero")) o.label("skip-zero");
  if (x.f->type == CSV_TRACE && c.geti("autodelim")) o.label("auto-delimiter");
  if (x.f->type == CSV_TRACE && c.geti("autohead")) o.label("auto-header");
  if (str_ids(x, c)) o.label("string-ids");
  bool rep = false;
  for (auto &r : x.all) rep |= r.cnt > 1;
  if (rep) o.label("repeat-counts");
  o.nontrivial = x.all.size() >= 3 && o.labels.size() >= 2;
  return o;
}

// ---------------------------------------------------------------- P16
Case gen_samp(Rng &r, int size) {
  Case c = gen_read(r, size, false, r.chance(0.3));
  c.seti("nullparams", 0);
  c.seti("blank", 0);
  if (r.chance(0.3) && find(c.gets("format"))->zst) c.seti("zst", 1);
  c.seti("temporal", r.chance(0.35));
  c.seti("inv", r.chance(0.7) ? r.range(2, 12) : r.range(2, 100));
  c.seti("mult", r.range(1, 4));
  c.seti("igsize", r.chance(0.2));
  c.seti("rep", r.range(1, 3));
  // spread over many objects
  if (r.chance(0.6)) {
    int64_t k = 0, w = r.range(1, 4);
    for (auto &o : c.ops) o[1] = r.chance(0.7) ? k++ / w : r.range(0, k);
    c.seti("rep", r.range(1, 20));
    c.seti("grow", r.chance(0.5));
  }
  return c;
}

struct Got {
  uint64_t id;
  int64_t time, size;
};
std::vector<Got> drain(reader_t *rd, int64_t limit = -1) {
  std::vector<Got> v;
  request_t *q = new_request();
  while ((limit < 0 || (int64_t)v.size() < limit) && read_one_req(rd, q) == 0) v.push_back({q->obj_id, q->clock_time, q->obj_size});
  free_request(q);
  return v;
}
bool eq(const std::vector<Got> &a, const std::vector<Got> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (a[i].id != b[i].id || a[i].time != b[i].time || a[i].size != b[i].size) return false;
  return true;
}

Outcome check_samp(const Case &c0, Ctx &ctx) {
  Case c = c0;
  if (c.geti("grow")) {
    // as many different objects as there are requests
    Case d = c;
    d.ops.clear();
    int64_t rep = c.geti("rep", 1);
    for (int64_t k = 0; k < rep; k++)
      for (auto o : c.ops)
        if (o.size() >= 5) {
          o[1] += k * (int64_t)c.ops.size();
          d.ops.push_back(o);
        }
    d.seti("rep", 1);
    c = d;
  }
  File x;
  if (!open_case(c, ctx, x)) return Outcome::discard();
  int inv = (int)std::max<int64_t>(2, std::min<int64_t>(1000, c.geti("inv", 2)));
  int mult = (int)std::max<int64_t>(1, std::min<int64_t>(8, c.geti("mult", 1)));
  bool temporal = c.geti("temporal");
  auto mk = [&](int i) {
    double ratio = 1.0 / i;
    return temporal ? create_temporal_sampler(ratio) : create_spatial_sampler(ratio);
  };
  // the unsampled stream as the reader gives it (string ids are hashed)
  reader_t *full = open_reader(c, x);
  std::vector<Got> base = drain(full);
  close_reader(full);
  if (base.size() != x.exp.size()) PFAIL("full", "%s: %zu requests, expected %zu", x.f->name, base.size(), x.exp.size());
  x.params.p.sampler = mk(inv);
  if (sampler_t *one = temporal ? create_temporal_sampler(1.0) : create_spatial_sampler(1.0)) {
    (void)one;
    PFAIL("ratio-one", "a sampler is created for ratio 1");
  }
  int real_inv = x.params.p.sampler->sampling_ratio_inv;
  if (real_inv < inv - 1 || real_inv > inv) PFAIL("ratio", "sampler for ratio 1/%d keeps 1 in %d", inv, real_inv);
  reader_t *rd = open_reader(c, x);
  std::vector<Got> s = drain(rd);
  Outcome o;
  o.label(x.f->name);
  o.label(temporal ? "temporal" : "spatial");
  if (temporal) {
    std::vector<Got> e;
    for (size_t i = 0; i < base.size(); i++)
      if ((i + 1) % (size_t)real_inv == 0) e.push_back(base[i]);
    if (!eq(s, e)) PFAIL("temporal", "%s: temporal sampling 1/%d of %zu requests returns %zu requests, expected every %d-th (%zu)", x.f->name,
                         inv, base.size(), s.size(), real_inv, e.size());
    reader_t *cp = clone_reader(rd);
    std::vector<Got> t = drain(cp);
    close_reader(cp);
    if (!eq(t, e)) PFAIL("temporal-clone", "%s: a clone of a temporally sampled reader returns other requests", x.f->name);
    o.nontrivial = e.size() >= 2;
  } else {
    // subsequence that has all or none of the requests of every object
    std::unordered_set<uint64_t> kept, all;
    for (auto &g : s) kept.insert(g.id);
    for (auto &g : base) all.insert(g.id);
    std::vector<Got> e;
    for (auto &g : base)
      if (kept.count(g.id)) e.push_back(g);
    if (!eq(s, e)) PFAIL("spatial", "%s: the sample (%zu requests) is not the stream restricted to the sampled objects (%zu requests)",
                         x.f->name, s.size(), e.size());
    reset_reader(rd);
    std::vector<Got> part = drain(rd, (int64_t)s.size() / 2);
    reset_reader(rd);
    if (!eq(drain(rd), s)) PFAIL("spatial-pass", "%s: a second pass samples differently", x.f->name);
    reader_t *cp = clone_reader(rd);
    if (!eq(drain(cp), s)) PFAIL("spatial-clone", "%s: a clone samples differently", x.f->name);
    close_reader(cp);
    // nested
    File y = x;
    y.params.p.sampler = mk(inv * mult);
    if (y.params.p.sampler->sampling_ratio_inv % real_inv == 0) {
      reader_t *r2 = open_reader(c, y);
      for (auto &g : drain(r2))
        if (!kept.count(g.id)) PFAIL("spatial-nested", "%s: object %llu is in the sample of ratio 1/%d and not in that of 1/%d", x.f->name,
                                     (unsigned long long)g.id, inv * mult, inv);
      close_reader(r2);
    }
    double n = (double)all.size(), p = 1.0 / real_inv, m = n * p, sd = sqrt(n * p * (1 - p));
    if (fabs((double)kept.size() - m) > 7 * sd + 4)
      PFAIL("spatial-share", "%s: %zu of %zu objects sampled with ratio 1/%d", x.f->name, kept.size(), all.size(), real_inv);
    o.nontrivial = kept.size() >= 2 && kept.size() < all.size();
    if (all.size() > 300) o.label("many-objects");
  }
  // skip_n etc. are not sampled; peeking and counting leave the stream alone
  close_reader(rd);
  return o;
}

Property p12() {
  Property p;
  p.id = "P12";
  Suite s;
  s.name = "binary";
  s.rule = "trace files of every fixed and generic binary format from random records (including zero-size objects, extreme "
           "field values, unfinished last records); non-trivial: at least 3 requests delivered";
  s.gen = [](Rng &r, int size) { return gen_read(r, size, false, false); };
  s.check = check_read;
  s.n_quick = 50000;
  s.n_thorough = 200000;
  p.suites.push_back(s);
  s.name = "text";
  s.rule = "csv and txt files with random columns, delimiters, headers, quoting, padding, line ends, blank lines, string or numeric ids, "
           "repeat counts; non-trivial: at least 3 requests delivered";
  s.gen = [](Rng &r, int size) { return gen_read(r, size, false, true); };
  s.n_quick = 50000;
  s.n_thorough = 150000;
  p.suites.push_back(s);
  s.name = "zstd";
  s.rule = "zstd-compressed binary traces of up to 60,000 requests, random levels and frames, some nearly constant; non-trivial: at least 3 "
           "requests delivered";
  s.gen = [](Rng &r, int size) { return gen_read(r, size, true, false); };
  s.n_quick = 900;
  s.n_thorough = 20000;
  s.batch = 8;
  p.suites.push_back(s);
  Suite n;
  n.name = "by-name";
  n.rule = "the same files opened as the command line tools do: the format given by name in any case or found from the file's name ('auto'), "
           "field columns, delimiter, header and format as a parameter text, with request limits and ignored sizes; non-trivial: at least 3 "
           "requests delivered";
  n.gen = gen_named;
  n.check = check_named;
  n.n_quick = 20000;
  n.n_thorough = 100000;
  p.suites.push_back(n);
  p.assumptions = {"little-endian host", "numeric ids without leading zeros (the readers parse C-style prefixes)"};
  return p;
}
Property p13() {
  Property p;
  p.id = "P13";
  Suite s;
  s.name = "nav";
  s.rule = "random sequences of read, reset, skip, back, read-above, jumps, first/last peeks, clones over up to 3 readers of one random trace; "
           "non-trivial: 5 or more steps on 3 or more requests";
  s.gen = [](Rng &r, int size) { return gen_nav(r, size, false); };
  s.check = check_nav;
  s.n_quick = 70000;
  s.n_thorough = 300000;
  p.suites.push_back(s);
  s.name = "nav-zstd";
  s.rule = "the same on compressed traces with the operations a stream supports (read, reset, skip, first, clone, count)";
  s.gen = [](Rng &r, int size) { return gen_nav(r, size, true); };
  s.n_quick = 3000;
  s.n_thorough = 40000;
  s.batch = 16;
  p.suites.push_back(s);
  return p;
}
Property p14() {
  Property p;
  p.id = "P14";
  Suite s;
  s.name = "options";
  s.rule = "random traces read with random caps, ignored sizes, zero-size skipping, delimiter and header given or detected, numeric or string "
           "ids, repeat counts; non-trivial: 3 or more records and at least one option in effect";
  s.gen = gen_opt;
  s.check = check_opt;
  s.n_quick = 70000;
  s.n_thorough = 300000;
  p.suites.push_back(s);
  return p;
}
Property p16() {
  Property p;
  p.id = "P16";
  Suite s;
  s.name = "sampler";
  s.rule = "random traces read with spatial or temporal samplers of ratio 1/2 to 1/1000; non-trivial: some but not all objects sampled (spatial) "
           "or two or more requests kept (temporal)";
  s.gen = gen_samp;
  s.check = check_samp;
  s.n_quick = 50000;
  s.n_thorough = 150000;
  p.suites.push_back(s);
  return p;
}
Reg r12(p12), r13(p13), r14(p14), r16(p16);
}  // namespace
