#include "models.h"

#include <algorithm>
#include <cstdlib>

namespace mdl {

Params parse_params(const std::string &s) {
  Params p;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find(',', i);
    if (e == std::string::npos) e = s.size();
    std::string kv = s.substr(i, e - i);
    size_t q = kv.find('=');
    if (q != std::string::npos) p[kv.substr(0, q)] = kv.substr(q + 1);
    i = e + 1;
  }
  return p;
}
static double num(const Params &p, const char *k, double d) {
  auto it = p.find(k);
  return it == p.end() ? d : atof(it->second.c_str());
}

struct OneQueue : Model {
  Q q;
  int64_t bytes() override { return q.bytes; }
  bool has(int64_t idx) override { return q.has(idx); }
  void collect(std::set<int64_t> &o) override {
    for (auto &n : q.l) o.insert(n.idx);
  }
  bool hit(const Req &r) override { return q.has(r.idx); }
  void evict(const Req &) override { q.pop_tail(); }
  void insert(const Req &r) override { q.push({r.idx, r.size, 0}); }
  bool remove(int64_t idx) override { return q.drop(idx); }
};
struct Fifo : OneQueue {};
struct Lru : OneQueue {
  bool hit(const Req &r) override {
    auto it = q.find(r.idx);
    if (it == q.l.end()) return false;
    q.to_front(it);
    return true;
  }
};
struct Mru : Lru {
  void evict(const Req &) override { q.take(q.l.begin()); }
};
// n-bit CLOCK: counters saturate at 2^n-1; the tail is reinserted at the head while its counter is positive
struct Clk : OneQueue {
  int64_t maxf = 1;
  bool hit(const Req &r) override {
    auto it = q.find(r.idx);
    if (it == q.l.end()) return false;
    if (it->freq < maxf) it->freq++;
    return true;
  }
  void evict(const Req &) override {
    for (;;) {
      auto t = std::prev(q.l.end());
      if (t->freq == 0) {
        q.take(t);
        return;
      }
      t->freq--;
      q.to_front(t);
    }
  }
};
// SIEVE: one visited bit, a hand that moves from tail to head, survivors stay where they are
struct Siv : OneQueue {
  bool hand_set = false;
  int64_t hand = 0;  // object under the hand
  bool hit(const Req &r) override {
    auto it = q.find(r.idx);
    if (it == q.l.end()) return false;
    it->freq = 1;
    return true;
  }
  void step_off(std::list<Node>::iterator it) {  // the hand leaves `it` towards the head
    if (it == q.l.begin())
      hand_set = false;
    else {
      hand_set = true;
      hand = std::prev(it)->idx;
    }
  }
  void evict(const Req &) override {
    auto it = hand_set ? q.find(hand) : std::prev(q.l.end());
    while (it->freq) {
      it->freq = 0;
      it = it == q.l.begin() ? std::prev(q.l.end()) : std::prev(it);
    }
    step_off(it);
    q.take(it);
  }
  bool remove(int64_t idx) override {
    auto it = q.find(idx);
    if (it == q.l.end()) return false;
    if (hand_set && hand == idx) step_off(it);
    q.take(it);
    return true;
  }
};
// SLRU: insert into the first segment with room, otherwise evict and insert into the lowest;
// a hit promotes one segment up, overflowing segments push their tail one segment down
struct Slru : Model {
  std::vector<Q> seg;
  std::vector<int64_t> mx;
  int64_t bytes() override {
    int64_t b = 0;
    for (auto &s : seg) b += s.bytes;
    return b;
  }
  bool has(int64_t idx) override {
    for (auto &s : seg)
      if (s.has(idx)) return true;
    return false;
  }
  void collect(std::set<int64_t> &o) override {
    for (auto &s : seg)
      for (auto &n : s.l) o.insert(n.idx);
  }
  bool admits(const Req &r) override { return r.size + md <= cap && r.size + md <= mx[0]; }
  void evict(const Req &) override {
    for (auto &s : seg)
      if (!s.l.empty()) {
        s.pop_tail();
        return;
      }
  }
  void overflow(size_t i) {
    while (seg[i].bytes > mx[i]) {
      if (i == 0) {
        evict(Req());
      } else {
        seg[i - 1].push(seg[i].pop_tail());
        overflow(i - 1);
      }
    }
  }
  bool hit(const Req &r) override {
    for (size_t i = 0; i < seg.size(); i++) {
      auto it = seg[i].find(r.idx);
      if (it == seg[i].l.end()) continue;
      if (i + 1 == seg.size()) {
        seg[i].to_front(it);
      } else {
        seg[i + 1].push(seg[i].take(it));
        overflow(i + 1);
      }
      return true;
    }
    return false;
  }
  void insert(const Req &r) override {
    for (size_t i = 0; i < seg.size(); i++)
      if (seg[i].bytes + r.size + md <= mx[i]) {
        seg[i].push({r.idx, r.size, 0});
        return;
      }
    while (bytes() + r.size + md > cap) evict(r);
    seg[0].push({r.idx, r.size, 0});
  }
  bool remove(int64_t idx) override {
    for (auto &s : seg)
      if (s.drop(idx)) return true;
    return false;
  }
};
// the ghost queues of 2Q, S3-FIFO and QDLP: FIFO of at most `cap` bytes
struct Ghost {
  Q q;
  int64_t cap = 0;
  void add(const Node &n) {
    if (q.has(n.idx) || n.size > cap) return;
    while (q.bytes + n.size > cap) q.pop_tail();
    q.push({n.idx, n.size, 0});
  }
};
// 2Q (full version): A1in FIFO, A1out ghosts, Am LRU
struct TwoQ : Model {
  Q in;
  Lru am;
  Ghost out;
  int64_t in_max = 0;
  bool ghost = false;
  int64_t bytes() override { return in.bytes + am.q.bytes; }
  bool has(int64_t i) override { return in.has(i) || am.has(i); }
  void collect(std::set<int64_t> &o) override {
    for (auto &n : in.l) o.insert(n.idx);
    am.collect(o);
  }
  bool admits(const Req &r) override { return r.size <= cap && r.size <= in_max && r.size <= am.cap; }
  bool hit(const Req &r) override {
    ghost = false;
    if (in.has(r.idx)) return true;
    ghost = out.q.drop(r.idx);
    return am.hit(r);
  }
  void evict(const Req &r) override {
    if (in.bytes > in_max || am.q.l.empty()) {
      out.add(in.pop_tail());
    } else {
      am.evict(r);
    }
  }
  void insert(const Req &r) override {
    if (ghost)
      am.get(r);
    else
      in.push({r.idx, r.size, 0});
    ghost = false;
  }
};
// S3-FIFO: small FIFO, main FIFO with reinsertion, ghost FIFO
struct S3 : Model {
  Q small, main;
  Ghost gh;
  int64_t small_max = 0, main_max = 0, thr = 2;
  bool ghost = false;
  int64_t bytes() override { return small.bytes + main.bytes; }
  bool has(int64_t i) override { return small.has(i) || main.has(i); }
  void collect(std::set<int64_t> &o) override {
    for (auto &n : small.l) o.insert(n.idx);
    for (auto &n : main.l) o.insert(n.idx);
  }
  bool admits(const Req &r) override { return r.size <= cap && r.size <= small_max; }
  bool hit(const Req &r) override {
    ghost = false;
    auto it = small.find(r.idx);
    if (it != small.l.end()) {
      it->freq++;
      return true;
    }
    ghost = gh.q.drop(r.idx);
    it = main.find(r.idx);
    if (it == main.l.end()) return false;
    it->freq++;
    return true;
  }
  void evict(const Req &) override {
    if (main.bytes > main_max || small.l.empty()) {
      while (!main.l.empty()) {
        Node n = main.pop_tail();
        if (n.freq == 0) return;
        n.freq = std::min<int64_t>(n.freq, 3) - 1;
        main.push(n);
      }
    } else {
      while (!small.l.empty()) {
        Node n = small.pop_tail();
        if (n.freq < thr) {
          gh.add(n);
          return;
        }
        n.freq = 0;
        main.push(n);
      }
    }
  }
  void insert(const Req &r) override {
    (ghost ? main : small).push({r.idx, r.size, 0});
    ghost = false;
  }
};
// QDLP: probationary FIFO with a ghost in front of another cache
struct Qdlp : Model {
  Q small;
  std::unique_ptr<Model> main;
  Ghost gh;
  int64_t small_max = 0, thr = 1;
  bool ghost = false;
  int64_t bytes() override { return small.bytes + main->bytes(); }
  bool has(int64_t i) override { return small.has(i) || main->has(i); }
  void collect(std::set<int64_t> &o) override {
    for (auto &n : small.l) o.insert(n.idx);
    main->collect(o);
  }
  bool admits(const Req &r) override { return r.size <= cap && r.size <= small_max; }
  bool hit(const Req &r) override {
    ghost = false;
    auto it = small.find(r.idx);
    if (it != small.l.end()) {
      it->freq++;
      return true;
    }
    ghost = gh.q.drop(r.idx);
    return main->hit(r);
  }
  void evict(const Req &r) override {
    if (small.l.empty()) {
      main->evict(r);
      return;
    }
    Node n = small.pop_tail();
    if (n.freq >= thr)
      main->get({n.idx, n.size, INT64_MAX, r.n});
    else
      gh.add(n);
  }
  void insert(const Req &r) override {
    if (ghost)
      main->get(r);
    else
      small.push({r.idx, r.size, 0});
    ghost = false;
  }
};
// ARC (Megiddo & Modha), with byte-weighted lists
struct Arc : Model {
  Q t1, t2, b1, b2;
  double p = 0;
  bool in_b1 = false, in_b2 = false;
  void set_md() { t1.md = t2.md = b1.md = b2.md = md; }
  int64_t bytes() override { return t1.bytes + t2.bytes; }
  bool has(int64_t i) override { return t1.has(i) || t2.has(i); }
  void collect(std::set<int64_t> &o) override {
    for (auto &n : t1.l) o.insert(n.idx);
    for (auto &n : t2.l) o.insert(n.idx);
  }
  bool hit(const Req &r) override {
    in_b1 = in_b2 = false;
    auto it = t1.find(r.idx);
    if (it != t1.l.end()) {
      t2.push(t1.take(it));
      return true;
    }
    it = t2.find(r.idx);
    if (it != t2.l.end()) {
      t2.to_front(it);
      return true;
    }
    if (b1.has(r.idx)) {
      in_b1 = true;
      p = std::min(p + std::max((double)b2.bytes / (double)b1.bytes, 1.0), (double)cap);
      b1.drop(r.idx);
    } else if (b2.has(r.idx)) {
      in_b2 = true;
      p = std::max(p - std::max((double)b1.bytes / (double)b2.bytes, 1.0), 0.0);
      b2.drop(r.idx);
    }
    return false;
  }
  void replace() {
    bool from1 = !t1.l.empty() && ((double)t1.bytes > p || ((double)t1.bytes == p && in_b2));
    if (from1 || t2.l.empty())
      b1.push(t1.pop_tail());
    else
      b2.push(t2.pop_tail());
  }
  void evict(const Req &r) override {
    if (in_b1 || in_b2) return replace();
    if (t1.bytes + b1.bytes + r.size + md > cap) {
      if (!b1.l.empty()) {
        b1.pop_tail();
        replace();
      } else {
        t1.pop_tail();
      }
    } else {
      if (t1.bytes + t2.bytes + b1.bytes + b2.bytes >= 2 * cap && !b2.l.empty()) b2.pop_tail();
      replace();
    }
  }
  void insert(const Req &r) override {
    (in_b1 || in_b2 ? t2 : t1).push({r.idx, r.size, 0});
    in_b1 = in_b2 = false;
  }
};

std::unique_ptr<Model> make_queue_model(const std::string &algo, const std::string &params, int64_t cap, int64_t md) {
  Params p = parse_params(params);
  std::unique_ptr<Model> m;
  auto one = [&](OneQueue *q) {
    q->q.md = md;
    m.reset(q);
  };
  if (algo == "FIFO") one(new Fifo);
  else if (algo == "LRU") one(new Lru);
  else if (algo == "MRU") one(new Mru);
  else if (algo == "Clock") {
    Clk *c = new Clk;
    c->maxf = ((int64_t)1 << (int)num(p, "n-bit-counter", 1)) - 1;
    one(c);
  } else if (algo == "Sieve") one(new Siv);
  else if (algo == "SLRU") {
    Slru *s = new Slru;
    if (p.count("seg-size")) {
      std::vector<int64_t> w;
      std::string v = p["seg-size"];
      size_t i = 0;
      int64_t sum = 0;
      while (i <= v.size()) {
        size_t e = v.find(':', i);
        if (e == std::string::npos) e = v.size();
        w.push_back(atoll(v.substr(i, e - i).c_str()));
        sum += w.back();
        i = e + 1;
      }
      for (auto x : w) s->mx.push_back((int64_t)((double)x / (double)sum * (double)cap));
    } else {
      int64_t n = (int64_t)num(p, "n-seg", 4);
      for (int64_t i = 0; i < n; i++) s->mx.push_back(cap / n);
    }
    s->seg.resize(s->mx.size());
    for (auto &q : s->seg) q.md = md;
    m.reset(s);
  } else if (algo == "ARC") {
    Arc *a = new Arc;
    a->md = md;
    a->set_md();
    m.reset(a);
  } else if (algo == "TwoQ") {
    TwoQ *t = new TwoQ;
    t->in_max = (int64_t)((double)cap * num(p, "Ain-size-ratio", 0.25));
    t->out.cap = (int64_t)((double)cap * num(p, "Aout-size-ratio", 0.5));
    t->am.cap = cap - t->in_max;
    m.reset(t);
  } else if (algo == "S3FIFO") {
    S3 *s = new S3;
    s->small_max = (int64_t)((double)cap * num(p, "fifo-size-ratio", 0.10));
    s->gh.cap = (int64_t)((double)cap * num(p, "ghost-size-ratio", 0.90));
    s->main_max = cap - s->small_max;
    s->thr = (int64_t)num(p, "move-to-main-threshold", 2);
    m.reset(s);
  } else if (algo == "QDLP") {
    Qdlp *q = new Qdlp;
    q->small_max = (int64_t)((double)cap * num(p, "fifo-size-ratio", 0.10));
    q->gh.cap = (int64_t)((double)cap * num(p, "ghost-size-ratio", 0.9));
    q->thr = (int64_t)num(p, "move-to-main-threshold", 1);
    std::string t = p.count("main-cache") ? p["main-cache"] : "Clock2";
    std::string sub, subp;
    for (auto &ch : t) ch = (char)tolower(ch);
    if (t == "clock") sub = "Clock";
    else if (t == "clock2") sub = "Clock", subp = "n-bit-counter=2";
    else if (t == "clock3") sub = "Clock", subp = "n-bit-counter=3";
    else if (t == "sieve") sub = "Sieve";
    else if (t == "lru") sub = "LRU";
    else if (t == "fifo") sub = "FIFO";
    else if (t == "slru") sub = "SLRU";
    else if (t == "arc") sub = "ARC";
    else if (t == "twoq") sub = "TwoQ";
    q->main = make_queue_model(sub, subp, cap - q->small_max, 0);
    if (!q->main) {
      delete q;
      return nullptr;
    }
    m.reset(q);
  }
  if (m) {
    m->cap = cap;
    m->md = md;
  }
  return m;
}

}  // namespace mdl
