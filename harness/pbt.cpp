#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <sstream>

namespace pbt {

int64_t Rng::logrange(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  double l = log((double)lo), h = log((double)hi + 1);
  int64_t v = (int64_t)floor(exp(l + (h - l) * unit()));
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}

std::string strf(const char *fmt, ...) {
  va_list ap, ap2;
  va_start(ap, fmt);
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, fmt, ap);
  va_end(ap);
  std::string s((size_t)(n < 0 ? 0 : n), '\0');
  if (n > 0) vsnprintf(&s[0], (size_t)n + 1, fmt, ap2);
  va_end(ap2);
  return s;
}

int64_t Case::geti(const std::string &k, int64_t d) const {
  auto it = h.find(k);
  if (it == h.end()) return d;
  return (int64_t)strtoll(it->second.c_str(), nullptr, 10);
}
double Case::getd(const std::string &k, double d) const {
  auto it = h.find(k);
  if (it == h.end()) return d;
  return strtod(it->second.c_str(), nullptr);
}
std::string Case::gets(const std::string &k, const std::string &d) const {
  auto it = h.find(k);
  return it == h.end() ? d : it->second;
}
void Case::seti(const std::string &k, int64_t v) { h[k] = std::to_string((long long)v); }

static std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    unsigned char c = (unsigned char)ch;
    if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += strf("\\x%02x", c);
    else o += ch;
  }
  return o;
}
static std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      if (s[i + 1] == '\\') { o += '\\'; i++; }
      else if (s[i + 1] == 'n') { o += '\n'; i++; }
      else if (s[i + 1] == 'x' && i + 3 < s.size()) {
        o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16);
        i += 3;
      } else o += s[i];
    } else o += s[i];
  }
  return o;
}
std::string Case::text() const {
  std::string t;
  for (auto &kv : h) t += "h " + kv.first + " " + esc(kv.second) + "\n";
  for (auto &r : ops) {
    t += "o";
    for (auto v : r) t += " " + std::to_string((long long)v);
    t += "\n";
  }
  return t;
}

bool write_file(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) return false;
  size_t n = fwrite(data.data(), 1, data.size(), f);
  fclose(f);
  return n == data.size();
}
bool read_file(const std::string &path, std::string &out) {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  out.clear();
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
  fclose(f);
  return true;
}
// remove path (file or directory tree) only when it lies strictly below root
void rm_rf_under(const std::string &root, const std::string &path) {
  if (root.size() < 6 || path.size() <= root.size() + 1 || path.compare(0, root.size(), root) != 0 ||
      path[root.size()] != '/' || path.find("..") != std::string::npos)
    return;
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    DIR *d = opendir(path.c_str());
    if (d) {
      std::vector<std::string> names;
      while (struct dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
      }
      closedir(d);
      for (auto &n : names) rm_rf_under(root, path + "/" + n);
    }
    rmdir(path.c_str());
  } else {
    unlink(path.c_str());
  }
}

static double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

ProcResult run_proc(const std::vector<std::string> &argv, const std::string &cwd, double timeout_s,
                    const std::string &scratch, const std::vector<std::string> &env) {
  ProcResult r;
  std::string of = scratch + "/.out", ef = scratch + "/.err";
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    struct itimerval zero;
    memset(&zero, 0, sizeof zero);
    setitimer(ITIMER_PROF, &zero, nullptr);
    int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(o, 1);
    dup2(e, 2);
    if (!cwd.empty() && chdir(cwd.c_str()) != 0) _exit(126);
    std::vector<char *> a;
    for (auto &s : argv) a.push_back(const_cast<char *>(s.c_str()));
    a.push_back(nullptr);
    for (auto &s : env) putenv(const_cast<char *>(s.c_str()));
    execv(a[0], a.data());
    _exit(127);
  }
  double t0 = now_s();
  int st = 0;
  useconds_t nap = 500;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (now_s() - t0 > timeout_s) {
      r.timeout = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap += 250;
  }
  kill(-pid, SIGKILL);
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  read_file(of, r.out);
  read_file(ef, r.err);
  unlink(of.c_str());
  unlink(ef.c_str());
  return r;
}

static std::vector<Property> &props() {
  static std::vector<Property> p;
  return p;
}
void register_property(const Property &p) { props().push_back(p); }

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6) + (a >> 2));
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}
static uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

// ---------------------------------------------------------------- shared state
static const int MAXW = 16;
static const size_t DISTINCT = 1 << 21;
static const int NLABEL = 1024;
struct FailRec {
  int64_t idx;
  char key[200];
};
struct LabelRec {
  char name[96];
  std::atomic<int64_t> n;
};
struct Shared {
  std::atomic<int64_t> next_batch;
  std::atomic<int64_t> evals, discards, nontrivial, distinct, batches_done;
  std::atomic<int> stop;
  std::atomic<int> nfail;
  FailRec fails[64];
  std::atomic<int> label_lock;
  int nlabels;
  LabelRec labels[NLABEL];
  struct Slot {
    std::atomic<int64_t> cur;        // case index being run, -1 idle
    std::atomic<int64_t> batch_pos;  // next index to run of the batch
    std::atomic<int64_t> batch_end;
    std::atomic<double> t0;
  } slot[MAXW];
  std::atomic<uint64_t> set[DISTINCT];
};
static Shared *sh;

static void add_label(const std::string &l, int64_t n = 1) {
  char nm[96];
  snprintf(nm, sizeof nm, "%s", l.c_str());
  int k = sh->nlabels;
  for (int i = 0; i < k; i++)
    if (strcmp(sh->labels[i].name, nm) == 0) {
      sh->labels[i].n += n;
      return;
    }
  int exp = 0;
  int spins = 0;
  while (!sh->label_lock.compare_exchange_weak(exp, 1)) {
    exp = 0;
    if (++spins > 100000000) return;
  }
  for (int i = 0; i < sh->nlabels; i++)
    if (strcmp(sh->labels[i].name, nm) == 0) {
      sh->labels[i].n += n;
      sh->label_lock = 0;
      return;
    }
  if (sh->nlabels < NLABEL) {
    strcpy(sh->labels[sh->nlabels].name, nm);
    sh->labels[sh->nlabels].n = n;
    sh->nlabels++;
  }
  sh->label_lock = 0;
}
static bool distinct_insert(uint64_t h) {
  if (h == 0) h = 1;
  size_t i = h & (DISTINCT - 1);
  for (size_t k = 0; k < 64; k++) {
    uint64_t cur = sh->set[i].load();
    if (cur == h) return false;
    if (cur == 0) {
      uint64_t e = 0;
      if (sh->set[i].compare_exchange_strong(e, h)) return true;
      if (e == h) return false;
    }
    i = (i + 1) & (DISTINCT - 1);
  }
  return false;
}

// ---------------------------------------------------------------- single case
static std::string g_scratch_root;
static uint64_t g_seed = 1;
static bool g_verbose = false;

static uint64_t case_seed(const std::string &prop, const Suite &s, int64_t idx) {
  return mix(mix(mix(g_seed, hash_str(prop)), hash_str(s.name)), (uint64_t)idx + 17);
}
static Case gen_case(const std::string &prop, const Suite &s, int64_t idx) {
  Rng r(case_seed(prop, s, idx));
  int size = (int)(idx % 101);
  Case c = s.gen(r, size);
  if (!c.h.count("rseed")) c.seti("rseed", (int64_t)(r.u64() % 1000000));
  return c;
}

static void set_cpu_timer(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (time_t)s;
  it.it_value.tv_usec = (suseconds_t)((s - floor(s)) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

static Outcome run_case_here(const Suite &s, const Case &c, const std::string &scratch, bool replay) {
  mkdir(scratch.c_str(), 0755);
  Ctx ctx;
  ctx.scratch = scratch;
  ctx.seed = (uint64_t)c.geti("rseed", 1);
  ctx.replay = replay;
  srand((unsigned)ctx.seed);
  srandom((unsigned)ctx.seed);
  set_cpu_timer(s.cpu_limit_s);
  Outcome o;
  try {
    o = s.check(c, ctx);
  } catch (const std::exception &e) {
    o = Outcome::fail("exception", std::string("C++ exception: ") + e.what());
  } catch (...) {
    o = Outcome::fail("exception", "unknown C++ exception");
  }
  set_cpu_timer(0);
  rm_rf_under(g_scratch_root, scratch);
  return o;
}

struct IsoResult {
  Status st = PASS;
  std::string key, msg, log;
};

static std::string crash_key(int st, const std::string &errtxt, bool timeout) {
  if (timeout) return "hang";
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU)) return "hang";
  size_t p = errtxt.find("SUMMARY: AddressSanitizer: ");
  if (p != std::string::npos) {
    std::string l = errtxt.substr(p + 27);
    l = l.substr(0, l.find('\n'));
    // "<type> <file>:<line> in <func>"
    std::string type = l.substr(0, l.find(' '));
    size_t q = l.rfind(" in ");
    std::string fn = q == std::string::npos ? "?" : l.substr(q + 4);
    return "asan:" + type + ":" + fn;
  }
  if (WIFSIGNALED(st)) return strf("signal:%d", WTERMSIG(st));
  return strf("exit:%d", WEXITSTATUS(st));
}

// run one case in a fresh child
static IsoResult run_isolated(const Suite &s, const Case &c, const std::string &tag) {
  IsoResult r;
  std::string base = g_scratch_root + "/iso" + tag;
  std::string lf = base + ".log", rf = base + ".res";
  unlink(lf.c_str());
  unlink(rf.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    int o = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    dup2(o, 1);
    dup2(o, 2);
    Outcome out = run_case_here(s, c, base + ".d", true);
    std::string t = strf("%d\n", (int)out.st) + out.key + "\n" + out.msg;
    write_file(rf, t);
    fflush(nullptr);
    _exit(0);
  }
  double t0 = now_s();
  int st = 0;
  bool to = false;
  useconds_t nap = 300;
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid || (w < 0 && errno != EINTR)) break;
    if (now_s() - t0 > s.wall_limit_s) {
      to = true;
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      break;
    }
    usleep(nap);
    if (nap < 5000) nap += 200;
  }
  kill(-pid, SIGKILL);
  read_file(lf, r.log);
  std::string t;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !to && read_file(rf, t) && !t.empty()) {
    r.st = (Status)atoi(t.c_str());
    size_t a = t.find('\n');
    size_t b = t.find('\n', a + 1);
    r.key = t.substr(a + 1, b - a - 1);
    r.msg = t.substr(b + 1);
  } else {
    r.st = FAIL;
    r.key = crash_key(st, r.log, to);
    std::string tail = r.log.size() > 3000 ? r.log.substr(0, 3000) : r.log;
    r.msg = "the process running the case ended abnormally (" + r.key + ")\n" + tail;
  }
  rm_rf_under(g_scratch_root, base + ".d");
  unlink(lf.c_str());
  unlink(rf.c_str());
  return r;
}

// a case of a schedule-dependent suite is run several times
static IsoResult run_tries(const Suite &s, const Case &c, const std::string &tag, int factor = 1) {
  IsoResult r = run_isolated(s, c, tag);
  for (int k = 1; k < s.attempts * factor && s.attempts > 1 && r.st == PASS; k++) r = run_isolated(s, c, tag);
  return r;
}

// ---------------------------------------------------------------- workers
static void worker_loop(const std::string &prop, const Suite &s, int w, int64_t ncases, int64_t resume_pos,
                        int64_t resume_end) {
  setpgid(0, 0);
  int dn = open("/dev/null", O_WRONLY);
  if (!g_verbose) {
    dup2(dn, 1);
    dup2(dn, 2);
  }
  int64_t done_batches = 0;
  std::string scratch = g_scratch_root + strf("/w%d", w);
  auto &slot = sh->slot[w];
  for (;;) {
    int64_t pos, end;
    if (resume_pos < resume_end) {
      pos = resume_pos;
      end = resume_end;
      resume_pos = resume_end = 0;
    } else {
      if (sh->stop.load()) break;
      int64_t b = sh->next_batch.fetch_add(1);
      pos = b * s.batch;
      end = std::min(ncases, pos + s.batch);
      if (pos >= ncases) break;
    }
    slot.batch_end = end;
    for (; pos < end; pos++) {
      if (sh->stop.load()) break;
      slot.batch_pos = pos + 1;
      Case c = gen_case(prop, s, pos);
      slot.t0 = now_s();
      slot.cur = pos;
      Outcome o = run_case_here(s, c, scratch, false);
      slot.cur = -1;
      sh->evals++;
      if (o.st == DISCARD) sh->discards++;
      for (auto &l : o.labels) add_label(l);
      if (o.nontrivial && o.st == PASS) {
        sh->nontrivial++;
        if (distinct_insert(hash_str(s.name + c.text()))) sh->distinct++;
      }
      if (o.st == FAIL) {
        if (const char *mf = getenv("PBT_MSGS"))
          if (FILE *mo = fopen(mf, "a")) fprintf(mo, "case %lld: [%s] %s\n", (long long)pos, o.key.c_str(), o.msg.c_str()), fclose(mo);
        int k = sh->nfail.fetch_add(1);
        if (k < 64) {
          sh->fails[k].idx = pos;
          snprintf(sh->fails[k].key, sizeof sh->fails[k].key, "%s", o.key.c_str());
        }
        if (k + 1 >= 24 && !getenv("PBT_ALL")) sh->stop = 1;
      }
    }
    slot.batch_pos = slot.batch_end.load();
    // a fresh process now and then bounds the memory the code under test leaks
    if (++done_batches >= 4) break;
  }
  fflush(nullptr);
  _exit(0);
}

struct SuiteStats {
  std::string name, rule;
  int64_t planned = 0, evals = 0, discards = 0, nontrivial = 0, distinct = 0;
  double wall = 0;
  bool truncated = false;
  std::map<std::string, int64_t> labels;
  std::vector<std::string> samples;
};

struct Failure {
  const Suite *suite;
  Case c;
  std::string key, msg, log;
  int64_t idx;
};

static void run_suite(const std::string &prop, const Suite &s, int64_t ncases, double deadline, SuiteStats &ss,
                      std::vector<std::pair<int64_t, std::string>> &fails) {
  double t0 = now_s();
  memset((void *)sh, 0, sizeof(Shared));
  ss.name = s.name;
  ss.rule = s.rule;
  ss.planned = ncases;
  int W = std::min(s.workers, MAXW);
  std::vector<pid_t> pid(W, 0);
  auto spawn = [&](int w, int64_t rp, int64_t re) {
    sh->slot[w].cur = -1;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      worker_loop(prop, s, w, ncases, rp, re);
      _exit(0);
    }
    pid[w] = p;
  };
  for (int w = 0; w < W; w++) {
    sh->slot[w].batch_pos = sh->slot[w].batch_end = 0;
    spawn(w, 0, 0);
  }
  int alive = W;
  std::vector<char> killed(W, 0);
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      double t = now_s();
      if (t > deadline && !sh->stop.load()) {
        sh->stop = 1;
        ss.truncated = true;
      }
      for (int w = 0; w < W; w++)
        if (pid[w] && sh->slot[w].cur.load() >= 0 && t - sh->slot[w].t0.load() > s.wall_limit_s) {
          killed[w] = 1;
          kill(-pid[w], SIGKILL);
          kill(pid[w], SIGKILL);
        }
      usleep(2000);
      continue;
    }
    int w = -1;
    for (int i = 0; i < W; i++)
      if (pid[i] == p) w = i;
    if (w < 0) continue;
    kill(-p, SIGKILL);
    pid[w] = 0;
    rm_rf_under(g_scratch_root, g_scratch_root + strf("/w%d", w));
    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slot[w].cur.load() < 0;
    int64_t rp = sh->slot[w].batch_pos.load(), re = sh->slot[w].batch_end.load();
    if (!clean) {
      int64_t cur = sh->slot[w].cur.load();
      sh->label_lock = 0;
      if (cur >= 0) {
        sh->evals++;
        int k = sh->nfail.fetch_add(1);
        if (k < 64) {
          sh->fails[k].idx = cur;
          snprintf(sh->fails[k].key, sizeof sh->fails[k].key, "%s", killed[w] ? "hang" : "crash");
        }
        if (k + 1 >= 24) sh->stop = 1;
      }
    }
    killed[w] = 0;
    bool more = !sh->stop.load() && (rp < re || sh->next_batch.load() * s.batch < ncases);
    if (more) spawn(w, rp, re);
    else alive--;
  }
  ss.evals = sh->evals;
  ss.discards = sh->discards;
  ss.nontrivial = sh->nontrivial;
  ss.distinct = sh->distinct;
  for (int i = 0; i < sh->nlabels; i++) ss.labels[sh->labels[i].name] = sh->labels[i].n;
  int nf = std::min(64, sh->nfail.load());
  for (int i = 0; i < nf; i++) fails.push_back({sh->fails[i].idx, sh->fails[i].key});
  std::sort(fails.begin(), fails.end());
  int taken = 0;
  for (int64_t i = 20; i < ncases && taken < 2; i += 37) {
    std::string t = gen_case(prop, s, i).text();
    if (t.size() > 600) t = t.substr(0, 600) + "... (" + std::to_string(t.size()) + " bytes)";
    ss.samples.push_back("suite " + s.name + " case " + std::to_string((long long)i) + ":\n" + t);
    taken++;
  }
  ss.wall = now_s() - t0;
}

// ---------------------------------------------------------------- shrinking
static Case shrink(const Suite &s, const Case &c0, const std::string &key, double budget_s, int &steps) {
  double t_end = now_s() + budget_s;
  Case best = c0;
  steps = 0;
  auto still = [&](const Case &c) {
    if (now_s() > t_end) return false;
    steps++;
    IsoResult r = run_tries(s, c, "s");
    return r.st == FAIL && r.key == key;
  };
  bool progress = true;
  int rounds = 0;
  while (progress && now_s() < t_end && rounds++ < 6) {
    progress = false;
    // cut the tail by bisection, then ddmin over rows
    for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = best.ops.size(); i > 0 && now_s() < t_end;) {
        size_t lo = i > chunk ? i - chunk : 0;
        Case t = best;
        t.ops.erase(t.ops.begin() + (long)lo, t.ops.begin() + (long)i);
        if (t.ops.size() < best.ops.size() && still(t)) {
          best = t;
          progress = true;
        }
        i = lo;
        if (i > best.ops.size()) i = best.ops.size();
      }
      if (chunk == 1) break;
    }
    // simplify integers
    if (best.ops.size() <= 400)
      for (size_t i = 0; i < best.ops.size() && now_s() < t_end; i++)
        for (size_t j = 0; j < best.ops[i].size() && now_s() < t_end; j++) {
          int64_t v = best.ops[i][j];
          std::vector<int64_t> cand;
          if (v != 0) cand.push_back(0);
          if (v != 1 && v != 0) cand.push_back(1);
          if (v / 2 != v && v / 2 != 0 && v / 2 != 1) cand.push_back(v / 2);
          if (v > 2) cand.push_back(v - 1);
          for (int64_t x : cand) {
            Case t = best;
            t.ops[i][j] = x;
            if (still(t)) {
              best = t;
              progress = true;
              break;
            }
          }
        }
    // simplify numeric headers
    if (s.shrink_header)
      for (auto &kv : c0.h) {
        if (now_s() > t_end) break;
        std::string cur = best.gets(kv.first);
        char *e;
        long long v = strtoll(cur.c_str(), &e, 10);
        if (cur.empty() || *e) continue;
        for (long long x : {0LL, 1LL, v / 2, v - 1}) {
          if (x == v || (x > v && v >= 0) || (x < 0 && v >= 0)) continue;
          Case t = best;
          t.seti(kv.first, x);
          if (still(t)) {
            best = t;
            progress = true;
            break;
          }
        }
      }
  }
  return best;
}

// ---------------------------------------------------------------- replay files
static std::string replay_text(const std::string &prop, const Suite &s, const Case &c, const std::string &key,
                               const std::string &msg) {
  std::string t = "property " + prop + "\nsuite " + s.name + "\nkey " + esc(key) + "\n";
  std::string m = msg.size() > 4000 ? msg.substr(0, 4000) : msg;
  t += "msg " + esc(m) + "\n" + c.text();
  return t;
}
struct Replay {
  std::string prop, suite, key, msg;
  Case c;
};
static bool parse_replay(const std::string &path, Replay &r) {
  std::string t;
  if (!read_file(path, t)) return false;
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "property") r.prop = v;
    else if (k == "suite") r.suite = v;
    else if (k == "key") r.key = unesc(v);
    else if (k == "msg") r.msg = unesc(v);
    else if (k == "h") {
      size_t q = v.find(' ');
      r.c.h[v.substr(0, q)] = q == std::string::npos ? "" : unesc(v.substr(q + 1));
    } else if (k == "o") {
      Row row;
      std::istringstream rs(v);
      long long x;
      while (rs >> x) row.push_back(x);
      r.c.ops.push_back(row);
    }
  }
  return !r.prop.empty() && !r.suite.empty();
}

// ---------------------------------------------------------------- known findings
// known_findings.txt lines:
//   known property=<id> case=<file under /verif> key=<key> what=<text to the end>
//   fixed: property=<id> <commit> <what failed>
struct Known {
  std::string prop, file, key, what;
};
static std::vector<Known> load_known(const std::string &dir, const std::string &prop) {
  std::vector<Known> v;
  std::string t;
  if (!read_file(dir + "/known_findings.txt", t)) return v;
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known ") != 0) continue;
    Known k;
    auto field = [&](const char *n) {
      size_t p = l.find(std::string(" ") + n + "=");
      if (p == std::string::npos) return std::string();
      p += strlen(n) + 2;
      if (strcmp(n, "what") == 0) return l.substr(p);
      return l.substr(p, l.find(' ', p) - p);
    };
    k.prop = field("property");
    k.file = field("case");
    k.key = field("key");
    k.what = field("what");
    if (k.prop == prop) v.push_back(k);
  }
  return v;
}

static std::string js(const std::string &s) {
  std::string o = "\"";
  for (char ch : s) {
    unsigned char c = (unsigned char)ch;
    if (c == '"') o += "\\\"";
    else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
    else o += ch;
  }
  return o + "\"";
}

int pbt_main(int argc, char **argv) {
  // fixed address space layout makes replays repeatable
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("PBT_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
  std::string prop, replay, only_suite, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  if (getenv("VERIF_SEED")) g_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
  double scale = 1, time_cap = 0;
  int64_t dump = -1;
  bool no_evidence = false;
  int max_viol = 4;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--replay") replay = nxt();
    else if (a == "--tier") tier = nxt();
    else if (a == "--seed") g_seed = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--suite") only_suite = nxt();
    else if (a == "--scale") scale = atof(nxt().c_str());
    else if (a == "--time") time_cap = atof(nxt().c_str());
    else if (a == "--dump") dump = atoll(nxt().c_str());
    else if (a == "--verbose") g_verbose = true;
    else if (a == "--no-evidence") no_evidence = true;
    else if (a == "--max-viol") max_viol = atoi(nxt().c_str());
    else prop = a;
  }
  if (tier != "thorough") tier = "quick";
  double t_start = now_s();
  char tmpl[] = "/tmp/pbt-XXXXXX";
  if (!mkdtemp(tmpl)) {
    fprintf(stderr, "cannot create scratch directory\n");
    return 2;
  }
  g_scratch_root = tmpl;
  struct Clean {
    ~Clean() {
      DIR *d = opendir(g_scratch_root.c_str());
      if (d) {
        std::vector<std::string> n;
        while (struct dirent *e = readdir(d))
          if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
        closedir(d);
        for (auto &x : n) rm_rf_under(g_scratch_root, g_scratch_root + "/" + x);
      }
      rmdir(g_scratch_root.c_str());
    }
  } clean;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) return 2;

  Replay rp;
  if (!replay.empty()) {
    if (!parse_replay(replay, rp)) {
      fprintf(stderr, "cannot read replay file %s\n", replay.c_str());
      return 2;
    }
    prop = rp.prop;
  }
  const Property *P = nullptr;
  for (auto &p : props())
    if (p.id == prop) P = &p;
  if (!P) {
    fprintf(stderr, "unknown property '%s'\n", prop.c_str());
    return 2;
  }
  if (!replay.empty()) {
    for (auto &s : P->suites)
      if (s.name == rp.suite) {
        IsoResult r = run_tries(s, rp.c, "r", 5);
        printf("replay %s suite %s: %s key=%s\n%s\n", prop.c_str(), s.name.c_str(),
               r.st == FAIL ? "FAIL" : r.st == PASS ? "PASS" : "DISCARD", r.key.c_str(), r.msg.c_str());
        if (g_verbose) printf("---- log\n%s\n", r.log.c_str());
        return r.st == FAIL ? 1 : 0;
      }
    fprintf(stderr, "unknown suite %s\n", rp.suite.c_str());
    return 2;
  }
  if (dump >= 0) {
    for (auto &s : P->suites)
      if (only_suite.empty() || s.name == only_suite)
        printf("property %s\nsuite %s\n%s", prop.c_str(), s.name.c_str(), gen_case(prop, s, dump).text().c_str());
    return 0;
  }

  if (time_cap <= 0) time_cap = tier == "quick" ? 300 : 780;
  double deadline = t_start + time_cap;
  std::vector<SuiteStats> stats;
  int64_t violations = 0;
  std::set<std::string> reported;
  std::string rdir = verif + "/replays";
  mkdir(rdir.c_str(), 0755);

  // 1. the listed findings
  std::vector<Known> known = load_known(verif, prop);
  int64_t known_seen = 0;
  for (auto &k : known) {
    Replay kr;
    if (!parse_replay(verif + "/" + k.file, kr)) {
      fprintf(stderr, "known finding %s unreadable\n", k.file.c_str());
      continue;
    }
    for (auto &s : P->suites)
      if (s.name == kr.suite) {
        IsoResult r = run_tries(s, kr.c, "k");
        if (r.st == FAIL && r.key == k.key) {
          printf("KNOWN-FINDING: property=%s %s (input %s)\n", prop.c_str(), k.what.c_str(), k.file.c_str());
          known_seen++;
        } else if (r.st == FAIL) {
          std::string f = verif + "/" + k.file;
          printf("  listed input %s now fails differently: %s\n%s\n", k.file.c_str(), r.key.c_str(), r.msg.c_str());
          printf("VIOLATION property=%s replay=%s\n", prop.c_str(), f.c_str());
          violations++;
        }
      }
  }
  fflush(stdout);

  // 2. the search
  double remaining_suites = (double)P->suites.size();
  for (auto &s : P->suites) {
    double share = (deadline - now_s()) / remaining_suites;
    remaining_suites -= 1;
    if (!only_suite.empty() && s.name != only_suite) continue;
    SuiteStats ss;
    std::vector<std::pair<int64_t, std::string>> fails;
    int64_t n = (int64_t)((double)(tier == "quick" ? s.n_quick : s.n_thorough) * scale);
    if (n < 1) n = 1;
    double dl = only_suite.empty() ? now_s() + std::max(share, 5.0) : deadline;
    run_suite(prop, s, n, dl, ss, fails);
    stats.push_back(ss);
    // 3. confirm, shrink, report; one report per distinct failure class
    std::set<std::string> raw_done;
    int unstable = 0, unreproduced = 0;
    for (auto &f : fails) {
      if (violations >= max_viol) break;
      Case c = gen_case(prop, s, f.first);
      IsoResult r = run_tries(s, c, "c");
      bool batchrep = false;
      if (r.st != FAIL) {
        // state left behind by earlier cases of the batch may be needed: rerun alone twice more
        for (int k = 0; k < 2 && r.st != FAIL; k++) r = run_tries(s, c, "c");
      }
      if (r.st != FAIL && s.attempts > 1 && f.second != "hang" && ++unreproduced == 3 && !reported.count(s.name + "|schedule")) {
        // the schedule that made three cases fail does not come back: report one as it is
        reported.insert(s.name + "|schedule");
        std::string file = rdir + "/" + prop + "-" + s.name + "-" + strf("%016llx", (unsigned long long)hash_str(c.text())) + ".case";
        write_file(file, replay_text(prop, s, c, f.second, "fails under some schedules only"));
        printf("  suite=%s case=%lld key=%s fails under some schedules only\n", s.name.c_str(), (long long)f.first, f.second.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
        violations++;
        continue;
      }
      if (r.st != FAIL) {
        unstable++;
        printf("  note: suite %s case %lld failed once (%s) and not again when run alone\n", s.name.c_str(),
               (long long)f.first, f.second.c_str());
        continue;
      }
      (void)batchrep;
      std::string cls = s.name + "|" + c.gets("algo") + "|" + r.key;
      if (reported.count(cls)) continue;
      // three agreeing runs before an alarm
      int agree = 1;
      for (int k = 0; k < 2; k++) {
        IsoResult r2 = run_tries(s, c, "c");
        if (r2.st == FAIL && (r2.key == r.key || s.attempts > 1)) agree++;
      }
      if (agree < 3) {
        unstable++;
        printf("  note: suite %s case %lld is unstable (%s, %d/3)\n", s.name.c_str(), (long long)f.first,
               r.key.c_str(), agree);
        continue;
      }
      reported.insert(cls);
      int steps = 0;
      // many classes of failure: the first ones are shrunk thoroughly
      static double spent = 0;
      double t_shrink = now_s();
      Case m = shrink(s, c, r.key, spent > 90 ? 4 : r.key == "hang" ? 60 : 40, steps);
      spent += now_s() - t_shrink;
      IsoResult fin = run_tries(s, m, "f");
      if (fin.st != FAIL) {
        m = c;
        fin = r;
      }
      std::string file = rdir + "/" + prop + "-" + s.name + "-" +
                         strf("%016llx", (unsigned long long)hash_str(m.text() + fin.key)) + ".case";
      write_file(file, replay_text(prop, s, m, fin.key, fin.msg));
      bool is_known = false;
      for (auto &k : known) {
        Replay kr;
        if (parse_replay(verif + "/" + k.file, kr) && kr.suite == s.name && kr.c.text() == m.text() && k.key == fin.key)
          is_known = true;
      }
      if (is_known) continue;
      std::string head = fin.msg.size() > 1500 ? fin.msg.substr(0, 1500) : fin.msg;
      printf("  suite=%s case=%lld key=%s shrunk from %zu to %zu rows in %d runs\n  %s\n", s.name.c_str(),
             (long long)f.first, fin.key.c_str(), c.ops.size(), m.ops.size(), steps, head.c_str());
      if (m.ops.size() <= 60) printf("%s", m.text().c_str());
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
      fflush(stdout);
      violations++;
    }
    printf("suite %-28s planned %lld run %lld nontrivial %lld distinct %lld discards %lld failures %zu unstable %d%s %.1fs\n",
           s.name.c_str(), (long long)ss.planned, (long long)ss.evals, (long long)ss.nontrivial, (long long)ss.distinct,
           (long long)ss.discards, fails.size(), unstable, ss.truncated ? " (time cap)" : "", ss.wall);
    if (g_verbose || getenv("PBT_LABELS"))
      for (auto &kv : ss.labels) printf("    %-40s %lld\n", kv.first.c_str(), (long long)kv.second);
    fflush(stdout);
    if (violations >= max_viol) break;
  }

  // 4. evidence
  double wall = now_s() - t_start;
  int64_t ev = 0, dis = 0;
  std::string rule, samples, sj;
  for (auto &s : stats) {
    ev += s.evals;
    dis += s.distinct;
    rule += (rule.empty() ? "" : " || ") + s.name + ": " + s.rule;
    for (auto &x : s.samples) samples += (samples.empty() ? "" : ",\n   ") + js(x);
    std::string lj;
    for (auto &kv : s.labels) lj += (lj.empty() ? "" : ", ") + js(kv.first) + ": " + std::to_string((long long)kv.second);
    sj += (sj.empty() ? "" : ",\n   ") +
          strf("{\"suite\": %s, \"planned\": %lld, \"run\": %lld, \"nontrivial\": %lld, \"distinct_nontrivial\": %lld, "
               "\"discarded\": %lld, \"stopped_by_time_cap\": %s, \"wall_s\": %.1f, \"classes\": {%s}}",
               js(s.name).c_str(), (long long)s.planned, (long long)s.evals, (long long)s.nontrivial,
               (long long)s.distinct, (long long)s.discards, s.truncated ? "true" : "false", s.wall, lj.c_str());
  }
  std::string as;
  for (auto &a : P->assumptions) as += (as.empty() ? "" : ", ") + js(a);
  std::string out = strf("{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n", js(prop).c_str(),
                         js(tier).c_str(), (unsigned long long)g_seed);
  out += strf(" \"coverage\": {\n  \"evaluations\": %lld,\n  \"distinct_nontrivial\": %lld,\n  \"rule\": %s,\n", (long long)ev,
              (long long)dis, js(rule).c_str());
  out += "  \"suites\": [" + sj + "],\n  \"samples\": [" + samples + "],\n";
  out += strf("  \"known_findings_replayed\": %lld\n },\n", (long long)known_seen);
  out += " \"assumptions\": [" + as + "],\n";
  out += strf(" \"violations\": %lld,\n \"wall_s\": %.2f\n}\n", (long long)violations, wall);
  if (!no_evidence && only_suite.empty()) {
    mkdir((verif + "/evidence").c_str(), 0755);
    write_file(verif + "/evidence/" + prop + ".json", out);
  }
  printf("property %s tier %s seed %llu: %lld cases, %lld distinct non-trivial, %lld violations, %.1fs\n", prop.c_str(),
         tier.c_str(), (unsigned long long)g_seed, (long long)ev, (long long)dis, (long long)violations, wall);
  return violations ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
