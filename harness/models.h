// Reference models of the eviction algorithms, written from their definitions.
// Objects are small indices; sizes in bytes; md is the metadata charged per object.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace mdl {

struct Req {
  int64_t idx, size;
  int64_t next;  // position of the next request of the object, INT64_MAX when none
  int64_t n;     // 1-based request number
};

struct Node {
  int64_t idx, size;
  int64_t freq = 0;
};

// a doubly ended queue of objects; front = most recently inserted / used
struct Q {
  std::list<Node> l;
  int64_t bytes = 0;
  int64_t md = 0;
  std::list<Node>::iterator find(int64_t idx) {
    for (auto it = l.begin(); it != l.end(); ++it)
      if (it->idx == idx) return it;
    return l.end();
  }
  bool has(int64_t idx) { return find(idx) != l.end(); }
  void push(const Node &n) {
    l.push_front(n);
    bytes += n.size + md;
  }
  Node take(std::list<Node>::iterator it) {
    Node n = *it;
    bytes -= n.size + md;
    l.erase(it);
    return n;
  }
  Node pop_tail() { return take(std::prev(l.end())); }
  bool drop(int64_t idx) {
    auto it = find(idx);
    if (it == l.end()) return false;
    take(it);
    return true;
  }
  void to_front(std::list<Node>::iterator it) { l.splice(l.begin(), l, it); }
};

struct Model {
  int64_t cap = 0, md = 0;
  virtual ~Model() {}
  virtual int64_t bytes() = 0;
  virtual bool has(int64_t idx) = 0;
  virtual void collect(std::set<int64_t> &out) = 0;
  virtual bool hit(const Req &r) = 0;  // true when resident; updates the state on hit and on ghost hits
  virtual bool admits(const Req &r) { return r.size + md <= cap; }
  virtual void evict(const Req &r) = 0;
  virtual void insert(const Req &r) = 0;
  virtual bool remove(int64_t) { return false; }
  bool get(const Req &r) {
    if (hit(r)) return true;
    if (!admits(r)) return false;
    while (bytes() + r.size + md > cap) evict(r);
    insert(r);
    return false;
  }
};

typedef std::map<std::string, std::string> Params;
Params parse_params(const std::string &s);
// nullptr when there is no model for the algorithm
std::unique_ptr<Model> make_queue_model(const std::string &algo, const std::string &params, int64_t cap, int64_t md);

}  // namespace mdl
