#include "tracefmt.h"

#include <zstd.h>

#include "traceReader/generalReader/lcs.h"

namespace tf {
using pbt::Rng;
using pbt::strf;

static const std::vector<Fmt> kFmts = {
    {"oracleGeneral", ORACLE_GENERAL_TRACE, M_TIME | M_SIZE | M_NEXT, Z_SIZE, true, "oracleGeneral", "oracleGeneral"},
    {"oracleGeneralOpNS", ORACLE_GENERALOPNS_TRACE, M_TIME | M_SIZE | M_NEXT | M_OP | M_NS, Z_SIZE, true,
     "oracleGeneralOpNS", "oracleGeneralOpNS"},
    {"csv", CSV_TRACE, M_TIME | M_SIZE, Z_SIZE, false, "csv", "csv"},
    {"txt", PLAIN_TXT_TRACE, 0, Z_NONE, false, "txt", "txt"},
    {"binary", BIN_TRACE, M_TIME | M_SIZE | M_NEXT | M_OP, Z_NONE, true, "binary", "bin"},
    {"lcs", LCS_TRACE, M_TIME | M_SIZE | M_NEXT | M_OP, Z_NONE, true, "lcs", "lcs"},
    {"twr", TWR_TRACE, M_TIME | M_SIZE | M_OP | M_TTL | M_KV, Z_TWR, true, "twr", "twr"},
    {"twrNS", TWRNS_TRACE, M_TIME | M_SIZE | M_OP | M_TTL | M_KV | M_NS, Z_TWR, true, "twrNS", "twrNS"},
    {"vscsi1", VSCSI_TRACE, M_TIME | M_SIZE, Z_NONE, false, "vscsi", "vscsi"},
    {"vscsi2", VSCSI_TRACE, M_TIME | M_SIZE, Z_NONE, false, "vscsi", "vscsi"},
    {"cf1", CF1_TRACE, M_TIME | M_SIZE | M_TTL | M_CTYPE | M_CF, Z_SIZE, true, "CF1", "cf1"},
    {"akamai", AKAMAI_TRACE, M_TIME | M_SIZE | M_TENANT | M_CTYPE, Z_SIZE, true, nullptr, "akamai"},
    {"wiki16u", WIKI16u_TRACE, M_SIZE | M_CTYPE, Z_SIZE, true, nullptr, "wiki16u"},
    {"wiki19u", WIKI19u_TRACE, M_TIME | M_SIZE | M_CTYPE, Z_SIZE, true, nullptr, "wiki19u"},
    {"wiki19t", WIKI19t_TRACE, M_TIME | M_SIZE, Z_SIZE, true, nullptr, "wiki19t"},
    {"stdIQI", STANDARD_IQI_TRACE, M_TIME | M_SIZE, Z_NONE, true, nullptr, "iqi"},
    {"stdIQQ", STANDARD_IQQ_TRACE, M_TIME | M_SIZE, Z_NONE, true, nullptr, "iqq"},
    {"stdIII", STANDARD_III_TRACE, M_TIME | M_SIZE, Z_NONE, true, nullptr, "iii"},
    {"stdIQIBH", STANDARD_IQIBH_TRACE, M_TIME | M_SIZE | M_OP | M_NS, Z_NONE, true, nullptr, "iqibh"},
    {"oracleSysTwrNS", ORACLE_SYS_TWRNS_TRACE, M_TIME | M_SIZE | M_OP | M_TTL | M_KV | M_NS | M_NEXT, Z_NONE, true,
     "oracleSysTwrNS", "oracleSysTwrNS"},
    {"oracleSimTwrNS", ORACLE_SIM_TWRNS_TRACE, M_TIME | M_SIZE | M_TTL | M_NS | M_NEXT, Z_NONE, true, nullptr,
     "oracleSimTwrNS"},
    {"oracleCF1", ORACLE_CF1_TRACE, M_TIME | M_SIZE | M_TTL | M_CTYPE | M_CF | M_NEXT, Z_SIZE, true, "oracleCF1",
     "oracleCF1"},
    {"oracleAkamai", ORACLE_AKAMAI_TRACE, M_TIME | M_SIZE | M_TENANT | M_CTYPE | M_NEXT, Z_SIZE, true, "oracleAkamai",
     "oracleAkamai"},
    {"oracleWiki16u", ORACLE_WIKI16u_TRACE, M_SIZE | M_CTYPE | M_NEXT, Z_SIZE, true, "oracleWiki16u", "oracleWiki16u"},
    {"oracleWiki19u", ORACLE_WIKI19u_TRACE, M_TIME | M_SIZE | M_CTYPE | M_NEXT, Z_SIZE, true, "oracleWiki19u",
     "oracleWiki19u"},
    {"valpin", VALPIN_TRACE, M_SIZE, Z_NONE, true, "valpinTrace", "valpin"},
};
const std::vector<Fmt> &fmts() { return kFmts; }
const Fmt *find(const std::string &name) {
  for (auto &f : kFmts)
    if (name == f.name) return &f;
  return nullptr;
}

template <class T>
static void put(std::string &o, T v) {
  o.append((const char *)&v, sizeof v);
}

std::vector<TReq> requests(const Case &c) {
  std::vector<TReq> v;
  int64_t idmode = c.geti("idmode"), rep = c.geti("rep", 1), t = c.geti("t0", 0), back = c.geti("back", 0);
  for (int64_t k = 0; k < rep; k++)
    for (auto &o : c.ops) {
      if (o.size() < 5 || o[0] != 0) continue;
      TReq r;
      r.id = cl::map_id(o[1], idmode);
      r.size = o[2] < 0 ? 0 : o[2];
      t += o[3] < 0 ? 0 : o[3];
      // times that go back now and then, as in traces merged from several sources
      r.time = back > 0 && v.size() % 3 == 1 ? std::max<int64_t>(0, t - (int64_t)(v.size() * 2654435761u % 65536) % (back + 1)) : t;
      r.aux = (uint64_t)o[4];
      v.push_back(r);
    }
  return v;
}

void annotate_next(std::vector<TReq> &v) {
  std::unordered_map<uint64_t, int64_t> nx;
  for (size_t i = v.size(); i-- > 0;) {
    auto it = nx.find(v[i].id);
    v[i].next = it == nx.end() ? -1 : it->second;
    nx[v[i].id] = (int64_t)i + 1;
  }
}

// spreads the aux word into the less common fields
static void derive(TReq &r) {
  pbt::Rng a(r.aux * 2 + 1);
  bool zero = r.aux == 0;
  r.op = zero ? 1 : a.range(1, 11);
  r.ttl = zero ? 0 : a.range(0, 0xffffff);
  r.ns = zero ? 0 : a.range(0, 65535);
  r.ctype = zero ? 0 : a.range(0, 65535);
  r.tenant = zero ? 0 : a.range(0, 65535);
  r.bucket = zero ? 0 : a.range(0, 65535);
  r.age = zero ? 0 : a.range(0, INT32_MAX);
  r.host = zero ? 0 : a.range(0, INT32_MAX);
  r.ext = zero ? 0 : a.range(0, 32767);
  r.nlevel = zero ? 0 : a.range(0, 32767);
  r.nparam = zero ? 0 : a.range(0, 255);
  r.method = zero ? 0 : a.range(0, 127);
  r.colo = zero ? 0 : a.range(0, 255);
  r.key = zero ? 0 : a.range(0, 1023);
}

static int fsize(char ch) {
  switch (ch) {
    case 'c': case 'b': case 'B': return 1;
    case 'h': case 'H': return 2;
    case 'i': case 'I': case 'l': case 'L': case 'f': return 4;
    default: return 8;
  }
}
// writes v (already within range) and returns what reading it back as an integer gives
static int64_t put_fmt(std::string &o, char ch, int64_t v) {
  switch (ch) {
    case 'c': case 'b': put<int8_t>(o, (int8_t)v); return (int8_t)v;
    case 'B': put<uint8_t>(o, (uint8_t)v); return (uint8_t)v;
    case 'h': put<int16_t>(o, (int16_t)v); return (int16_t)v;
    case 'H': put<uint16_t>(o, (uint16_t)v); return (uint16_t)v;
    case 'i': case 'l': put<int32_t>(o, (int32_t)v); return (int32_t)v;
    case 'I': case 'L': put<uint32_t>(o, (uint32_t)v); return (uint32_t)v;
    case 'f': {
      float x = (float)(v & 0xffffff);
      put<float>(o, x);
      return (int64_t)x;
    }
    case 'd': {
      double x = (double)(v & 0xffffffffffffLL);
      put<double>(o, x);
      return (int64_t)x;
    }
    default: put<int64_t>(o, v); return v;
  }
}

static int64_t nextcode(const TReq &r, const Case &c) {
  // both ways of saying "never again" appear in traces
  if (r.next == -1 && c.geti("nextmax")) return INT64_MAX;
  return r.next;
}

static std::string generic_binary(const Case &c, std::vector<TReq> &v, const std::string &fmt, bool &has_time,
                                  bool &has_size, bool &has_next, bool &has_op) {
  std::string o;
  int fi = (int)c.geti("f_id"), ft = (int)c.geti("f_time"), fs = (int)c.geti("f_size"), fn = (int)c.geti("f_next"),
      fo = (int)c.geti("f_op");
  has_time = ft > 0;
  has_size = fs > 0;
  has_next = fn > 0;
  has_op = fo > 0;
  for (auto &r : v) {
    r.offset = o.size();
    for (int i = 1; i <= (int)fmt.size(); i++) {
      char ch = fmt[(size_t)i - 1];
      if (i == fi) r.id = (uint64_t)put_fmt(o, ch, (int64_t)r.id);
      else if (i == ft) r.time = put_fmt(o, ch, r.time);
      else if (i == fs) {
        // sizes are not negative
        int64_t s = r.size;
        if (ch == 'b' || ch == 'c') s &= 127;
        if (ch == 'h') s &= 32767;
        if (ch == 'i' || ch == 'l') s &= 0x7fffffff;
        r.size = put_fmt(o, ch, s);
      } else if (i == fn) r.next = put_fmt(o, ch, nextcode(r, c));
      else if (i == fo) r.op = put_fmt(o, ch, r.op);
      else put_fmt(o, ch, (int64_t)(r.aux * 0x9E3779B97F4A7C15ULL + (uint64_t)i));
    }
  }
  return o;
}

static std::string text_id(const Case &c, const TReq &r) {
  static const char *pre[] = {"", "obj", "/a/b.c?x=", "k-", "Z_9.", "#", "user@"};
  int64_t m = c.geti("sidmode") % 7;
  return strf("%s%llu", pre[m], (unsigned long long)r.id) + (m == 2 ? "/y" : "");
}

std::string encode(const Fmt &f, const Case &c, std::vector<TReq> &v) {
  std::string o;
  std::string n = f.name;
  for (auto &r : v) {
    derive(r);
    r.time &= 0xffffffff;
    if (n != "csv" && n != "binary" && n != "lcs" && n != "stdIQQ" && n != "cf1" && n != "oracleCF1")
      r.size &= 0xffffffff;
    if (n == "csv") r.size &= 0xffffffff;
    if (n == "txt" || n == "valpin") r.size = 1;
  }
  if (n == "stdIII")
    for (auto &r : v) r.id = (uint32_t)((r.id ^ (r.id >> 32)) * (c.geti("idmode") ? 2654435761u : 1u));
  if (f.mask & M_NEXT) annotate_next(v);
  if (n == "txt") {
    bool num = c.geti("num", 1);
    bool crlf = false;
    for (size_t i = 0; i < v.size(); i++) {
      auto &r = v[i];
      r.time = 0;
      r.offset = o.size();
      std::string s = num ? (c.geti("hex") ? strf("0x%llx", (unsigned long long)r.id)
                                           : strf("%llu", (unsigned long long)r.id))
                          : text_id(c, r);
      r.sid = s;
      o += s;
      bool last = i + 1 == v.size();
      if (!(last && c.geti("nonl"))) o += crlf ? "\r\n" : "\n";
      if (c.geti("blank") && r.aux % 5 == 1) o += "\n";
    }
    return o;
  }
  if (n == "csv") {
    bool num = c.geti("num", 1);
    int ci = (int)c.geti("c_id", 2), ct = (int)c.geti("c_time", 1), cs = (int)c.geti("c_size", 3),
        cc = (int)c.geti("c_cnt", 0), ncol = (int)c.geti("ncol", 3);
    static const char delims[] = {',', '\t', '|', ';', ':', ' '};
    char d = delims[c.geti("delim") % 6];
    const char *nl = c.geti("crlf") ? "\r\n" : "\n";
    if (c.geti("header")) {
      for (int i = 1; i <= ncol; i++) {
        if (i > 1) o += d;
        o += i == ci ? "obj_id" : i == ct ? "time" : i == cs ? "size" : i == cc ? "repeat" : "other";
      }
      o += nl;
    }
    for (size_t k = 0; k < v.size(); k++) {
      auto &r = v[k];
      r.offset = o.size();
      r.cnt = cc ? 1 + (int64_t)(r.aux % 4) : 1;
      if (!ct) r.time = 0;
      if (!cs) r.size = 1;
      for (int i = 1; i <= ncol; i++) {
        if (i > 1) o += d;
        std::string s;
        if (i == ci) {
          s = num ? strf("%llu", (unsigned long long)r.id) : text_id(c, r);
          r.sid = s;
        } else if (i == ct) {
          s = strf("%lld", (long long)r.time);
          if (c.geti("frac")) s += strf(".%d", (int)(r.aux % 10));
        } else if (i == cs) s = strf("%lld", (long long)r.size);
        else if (i == cc) s = strf("%lld", (long long)r.cnt);
        else s = (r.aux % 3 == 0) ? "" : strf("7%d", (int)(r.aux % 1000));
        if (c.geti("quote") && (r.aux + (uint64_t)i) % 3 == 0) {
          if (i != ci && i != ct && i != cs && i != cc) s += d;  // the delimiter is data inside quotes
          s = "\"" + s + "\"";
        } else if (c.geti("pad") && d != ' ' && (r.aux + (uint64_t)i) % 4 == 0) s = " " + s + " ";
        o += s;
      }
      bool last = k + 1 == v.size();
      if (!(last && c.geti("nonl"))) o += nl;
      if (c.geti("blank") && r.aux % 5 == 1) o += nl;
    }
    return o;
  }
  if (n == "binary" || n == "lcs") {
    bool ht, hs, hn, ho;
    std::string fmt = c.gets("fmtstr", "IQI");
    std::string body = generic_binary(c, v, fmt, ht, hs, hn, ho);
    if (n == "binary") return body;
    lcs_trace_header_t h;
    memset(&h, 0, sizeof h);
    h.start_magic = LCS_TRACE_START_MAGIC;
    h.end_magic = LCS_TRACE_END_MAGIC;
    snprintf(h.format, sizeof h.format, "<%s", fmt.c_str());
    h.obj_id_field = (unsigned char)c.geti("f_id");
    h.obj_size_field = (unsigned char)c.geti("f_size");
    h.time_field = (unsigned char)c.geti("f_time");
    h.next_access_vtime_field = (unsigned char)c.geti("f_next");
    h.op_field = (unsigned char)c.geti("f_op");
    h.n_fields = (uint32_t)fmt.size();
    h.n_req = (int64_t)v.size();
    for (char ch : fmt) h.item_size += (uint32_t)fsize(ch);
    for (auto &r : v) r.offset += sizeof h;
    return std::string((const char *)&h, sizeof h) + body;
  }
  for (size_t i = 0; i < v.size(); i++) {
    auto &r = v[i];
    r.offset = o.size();
    if (n == "oracleGeneral") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<int64_t>(o, nextcode(r, c));
    } else if (n == "oracleGeneralOpNS") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint8_t>(o, (uint8_t)r.op);
      put<uint16_t>(o, (uint16_t)r.ns);
      put<int64_t>(o, nextcode(r, c));
    } else if (n == "twr" || n == "twrNS") {
      if (r.size < r.key) r.key = 0;
      r.val = (r.size - r.key) & 0x3fffff;
      r.size = r.key + r.val;
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)((r.key << 22) | r.val));
      put<uint32_t>(o, (uint32_t)((r.op << 24) | r.ttl));
      if (n == "twrNS") put<uint16_t>(o, (uint16_t)r.ns);
    } else if (n == "vscsi1") {
      put<uint32_t>(o, (uint32_t)i);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint32_t>(o, 1);
      put<uint16_t>(o, (uint16_t)r.op);
      put<uint16_t>(o, (uint16_t)(1 << 8 | (r.aux & 127)));
      put<uint64_t>(o, r.id);
      put<uint64_t>(o, (uint64_t)r.time * 1000000 + r.aux % 1000000);
    } else if (n == "vscsi2") {
      put<uint16_t>(o, (uint16_t)r.op);
      put<uint16_t>(o, (uint16_t)(2 << 8 | (r.aux & 127)));
      put<uint32_t>(o, (uint32_t)i);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint32_t>(o, 1);
      put<uint64_t>(o, r.id);
      put<uint64_t>(o, (uint64_t)r.time * 1000000 + r.aux % 1000000);
      put<uint64_t>(o, r.aux);
    } else if (n == "cf1") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint64_t>(o, (uint64_t)r.size);
      put<int32_t>(o, (int32_t)r.ttl);
      put<uint32_t>(o, (uint32_t)r.age);
      put<uint32_t>(o, (uint32_t)r.host);
      put<uint16_t>(o, (uint16_t)r.ctype);
      put<uint16_t>(o, (uint16_t)r.ext);
      put<uint16_t>(o, (uint16_t)r.nlevel);
      put<uint8_t>(o, (uint8_t)r.nparam);
      put<uint8_t>(o, (uint8_t)r.method);
      put<uint8_t>(o, (uint8_t)r.colo);
    } else if (n == "oracleCF1") {
      r.size &= 0xffffffff;
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint64_t>(o, (uint64_t)r.size);
      put<int32_t>(o, (int32_t)r.ttl);
      put<uint32_t>(o, (uint32_t)r.age);
      put<uint32_t>(o, (uint32_t)r.host);
      put<int64_t>(o, nextcode(r, c));
      put<uint16_t>(o, (uint16_t)r.ctype);
      put<uint16_t>(o, (uint16_t)r.ext);
      put<uint16_t>(o, (uint16_t)r.nlevel);
      put<uint8_t>(o, (uint8_t)r.nparam);
      put<uint8_t>(o, (uint8_t)r.method);
      put<uint8_t>(o, (uint8_t)r.colo);
    } else if (n == "akamai" || n == "oracleAkamai") {
      bool orc = n == "oracleAkamai";
      if (orc) {
        r.tenant &= 16383;
        r.bucket &= 16383;
        r.ctype &= 16383;
      }
      int d = orc ? 1 : 0;
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint16_t>(o, (uint16_t)(r.tenant + d));
      put<uint16_t>(o, (uint16_t)(r.bucket + d));
      put<uint16_t>(o, (uint16_t)(r.ctype + d));
      if (orc) put<int64_t>(o, nextcode(r, c));
    } else if (n == "wiki16u" || n == "oracleWiki16u") {
      r.time = 0;
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint16_t>(o, (uint16_t)r.ctype);
      if (n[0] == 'o') put<int64_t>(o, nextcode(r, c));
    } else if (n == "wiki19u" || n == "oracleWiki19u") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint16_t>(o, (uint16_t)r.ctype);
      if (n[0] == 'o') put<int64_t>(o, nextcode(r, c));
    } else if (n == "wiki19t" || n == "stdIQI") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
    } else if (n == "stdIQQ") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint64_t>(o, (uint64_t)r.size);
    } else if (n == "stdIII") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint32_t>(o, (uint32_t)r.id);
      put<uint32_t>(o, (uint32_t)r.size);
    } else if (n == "stdIQIBH") {
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<uint8_t>(o, (uint8_t)r.op);
      put<uint16_t>(o, (uint16_t)r.ns);
    } else if (n == "oracleSysTwrNS") {
      if (r.size < 1) r.size = 1;
      if (r.size <= r.key) r.key = 0;
      r.val = r.size - r.key;
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint16_t>(o, (uint16_t)r.key);
      put<uint32_t>(o, (uint32_t)r.val);
      put<uint16_t>(o, (uint16_t)r.op);
      put<uint16_t>(o, (uint16_t)r.ns);
      put<int32_t>(o, (int32_t)r.ttl);
      put<int64_t>(o, nextcode(r, c));
    } else if (n == "oracleSimTwrNS") {
      if (r.size < 1) r.size = 1;
      put<uint32_t>(o, (uint32_t)r.time);
      put<uint64_t>(o, r.id);
      put<uint32_t>(o, (uint32_t)r.size);
      put<int32_t>(o, (int32_t)r.ttl);
      put<uint16_t>(o, (uint16_t)r.ns);
      put<int64_t>(o, nextcode(r, c));
    } else if (n == "valpin") {
      put<uint64_t>(o, r.id);
    }
  }
  return o;
}

void fill_params(const Fmt &f, const Case &c, Params &out) {
  set_default_reader_init_params(&out.p);
  std::string n = f.name;
  out.p.ignore_size_zero_req = c.geti("skipzero", 1);
  out.p.ignore_obj_size = c.geti("igsize", 0);
  out.p.obj_id_is_num = c.geti("num", 1);
  out.p.cap_at_n_req = c.geti("cap", -1);
  if (n == "csv") {
    static const char delims[] = {',', '\t', '|', ';', ':', ' '};
    out.p.time_field = (int)c.geti("c_time", 1);
    out.p.obj_id_field = (int)c.geti("c_id", 2);
    out.p.obj_size_field = (int)c.geti("c_size", 3);
    out.p.cnt_field = (int)c.geti("c_cnt", 0);
    out.p.delimiter = c.geti("autodelim") ? '\0' : delims[c.geti("delim") % 6];
    out.p.has_header = c.geti("autohead") ? false : c.geti("header");
    out.p.has_header_set = !c.geti("autohead");
  }
  if (n == "binary") {
    out.fmtstr = "<" + c.gets("fmtstr", "IQI");
    out.p.binary_fmt_str = (char *)out.fmtstr.c_str();
    out.p.obj_id_field = (int)c.geti("f_id");
    out.p.time_field = (int)c.geti("f_time");
    out.p.obj_size_field = (int)c.geti("f_size");
    out.p.next_access_vtime_field = (int)c.geti("f_next");
    out.p.op_field = (int)c.geti("f_op");
  }
}

std::string cli_params(const Fmt &f, const Case &c) {
  std::string n = f.name, o;
  auto add = [&](const std::string &s) { o += (o.empty() ? "" : ", ") + s; };
  if (n == "csv") {
    static const char *delims[] = {",", "\\t", "|", ";", ":", " "};
    if (c.geti("c_time", 1)) add(strf("time-col=%d", (int)c.geti("c_time", 1)));
    add(strf("obj-id-col=%d", (int)c.geti("c_id", 2)));
    if (c.geti("c_size", 3)) add(strf("obj-size-col=%d", (int)c.geti("c_size", 3)));
    if (c.geti("c_cnt", 0)) add(strf("cnt-col=%d", (int)c.geti("c_cnt")));
    if (!c.geti("autodelim")) add(strf("delimiter=%s", delims[c.geti("delim") % 6]));
    if (!c.geti("autohead")) add(strf("has-header=%s", c.geti("header") ? "true" : "false"));
    add(strf("obj-id-is-num=%s", c.geti("num", 1) ? "true" : "false"));
  }
  if (n == "txt") add(strf("obj-id-is-num=%s", c.geti("num", 1) ? "true" : "false"));
  if (n == "binary") {
    add("format=<" + c.gets("fmtstr", "IQI"));
    add(strf("obj-id-col=%d", (int)c.geti("f_id")));
    if (c.geti("f_time")) add(strf("time-col=%d", (int)c.geti("f_time")));
    if (c.geti("f_size")) add(strf("obj-size-col=%d", (int)c.geti("f_size")));
    if (c.geti("f_next")) add(strf("next-access-col=%d", (int)c.geti("f_next")));
  }
  return o;
}

bool skipped(const Fmt &f, const TReq &r) {
  if (f.zero == Z_SIZE) return r.size == 0;
  if (f.zero == Z_TWR) return r.val == 0 && (r.op == OP_GET || r.op == OP_GETS);
  return false;
}

std::string show(const request_t *q) {
  return strf("time %lld id %llu size %lld next %lld op %d ttl %d ns %d valid %d", (long long)q->clock_time,
              (unsigned long long)q->obj_id, (long long)q->obj_size, (long long)q->next_access_vtime, (int)q->op,
              (int)q->ttl, (int)q->ns, (int)q->valid);
}
std::string show(const TReq &q) {
  return strf("time %lld id %llu size %lld next %lld op %d ttl %d ns %d", (long long)q.time, (unsigned long long)q.id,
              (long long)q.size, (long long)q.next, (int)q.op, (int)q.ttl, (int)q.ns);
}

std::string differs(const Fmt &f, int mask, const TReq &r, const request_t *q, bool ids) {
  (void)f;
#define CMP(bit, name, a, b)                                                                                    \
  if ((mask & (bit)) && (int64_t)(a) != (int64_t)(b))                                                           \
    return strf("%s is %lld, the file records %lld", name, (long long)(b), (long long)(a));
  if (!q->valid) return "the request is marked invalid";
  if (ids && r.id != q->obj_id)
    return strf("object id is %llu, the file records %llu", (unsigned long long)q->obj_id, (unsigned long long)r.id);
  CMP(M_TIME, "time", r.time, q->clock_time)
  CMP(M_SIZE, "size", r.size, q->obj_size)
  if (mask & M_NEXT) {
    bool none = r.next == -1 || r.next == INT64_MAX;
    bool got = q->next_access_vtime == -1 || q->next_access_vtime == INT64_MAX;
    if (none ? !got : q->next_access_vtime != r.next)
      return strf("next access is %lld, the file records %lld", (long long)q->next_access_vtime, (long long)r.next);
  }
  CMP(M_OP, "op", r.op, q->op)
  CMP(M_TTL, "ttl", r.ttl, q->ttl)
  CMP(M_NS, "ns", r.ns, q->ns)
  CMP(M_KV, "key size", r.key, q->key_size)
  CMP(M_KV, "value size", r.val, q->val_size)
  CMP(M_CTYPE, "content type", r.ctype, q->content_type)
  CMP(M_TENANT, "tenant", r.tenant, q->tenant_id)
  CMP(M_TENANT, "bucket", r.bucket, q->bucket_id)
  CMP(M_CF, "age", r.age, q->age)
  CMP(M_CF, "hostname", r.host, q->hostname)
  CMP(M_CF, "extension", r.ext, q->extension)
  CMP(M_CF, "n_level", r.nlevel, q->n_level)
  CMP(M_CF, "n_param", r.nparam, q->n_param)
  CMP(M_CF, "method", r.method, q->method)
  CMP(M_CF, "colo", r.colo, q->colo)
#undef CMP
  return "";
}

std::string zstd(const std::string &data, int level, int frames) {
  std::string o;
  if (frames < 1) frames = 1;
  size_t per = data.size() / (size_t)frames + 1;
  for (size_t off = 0; off < data.size() || off == 0; off += per) {
    size_t len = std::min(per, data.size() - off);
    std::string b(ZSTD_compressBound(len) + 64, '\0');
    size_t k = ZSTD_compress(&b[0], b.size(), data.data() + off, len, level);
    o.append(b.data(), k);
    if (data.empty()) break;
  }
  return o;
}

bool valid_shape(const Fmt &f, const Case &c) {
  std::string n = f.name;
  std::vector<const char *> k;
  int64_t mx = 0;
  if (n == "csv") {
    k = {"c_id", "c_time", "c_size", "c_cnt"};
    mx = c.geti("ncol", 3);
    if (mx < 2) return false;
    if (c.geti("autodelim") && (c.geti("delim") % 6 > 2 || c.geti("quote") || !c.geti("num", 1))) return false;
    if (c.geti("autohead") && (c.geti("quote") || !c.geti("num", 1))) return false;
  } else if (n == "binary" || n == "lcs") {
    k = {"f_id", "f_time", "f_size", "f_next", "f_op"};
    std::string s = c.gets("fmtstr", "IQI");
    mx = (int64_t)s.size();
    for (char ch : s)
      if (!strchr("cbBhHiIlLqQfd", ch)) return false;
    const char *allow[] = {"qQIQQiL", "iIlLqQd", "bBhHiIlLqQfd", "q", "bBhHiIcq"};
    for (size_t i = 0; i < 5; i++) {
      int64_t v = c.geti(k[i]);
      if (v > 0 && v <= mx && !strchr(allow[i], s[(size_t)v - 1])) return false;
    }
  } else return true;
  std::set<int64_t> seen;
  for (size_t i = 0; i < k.size(); i++) {
    int64_t v = n == "csv" ? c.geti(k[i], i < 3 ? (i == 0 ? 2 : i == 1 ? 1 : 3) : 0) : c.geti(k[i]);
    if (v < 0 || v > mx || (i == 0 && v == 0)) return false;
    if (v && !seen.insert(v).second) return false;
  }
  return true;
}

void gen_shape(Rng &r, const Fmt &f, Case &c) {
  std::string n = f.name;
  if (r.chance(0.5)) c.seti("nextmax", r.range(0, 1));
  if (n == "txt") {
    c.seti("num", r.chance(0.6));
    c.seti("hex", r.chance(0.2));
    c.seti("sidmode", r.range(0, 6));
    c.seti("nonl", r.chance(0.25));
    c.seti("blank", r.chance(0.2));
  }
  if (n == "csv") {
    int ncol = (int)r.range(2, 7);
    c.seti("ncol", ncol);
    std::vector<int> cols;
    for (int i = 1; i <= ncol; i++) cols.push_back(i);
    auto take = [&]() {
      size_t k = (size_t)r.range(0, (int64_t)cols.size() - 1);
      int v = cols[k];
      cols.erase(cols.begin() + (long)k);
      return v;
    };
    c.seti("c_id", take());
    c.seti("c_time", cols.size() && r.chance(0.85) ? take() : 0);
    c.seti("c_size", cols.size() && r.chance(0.85) ? take() : 0);
    c.seti("c_cnt", cols.size() && r.chance(0.2) ? take() : 0);
    c.seti("num", r.chance(0.6));
    c.seti("sidmode", r.range(0, 6));
    c.seti("delim", r.chance(0.5) ? 0 : r.range(0, 5));
    c.seti("crlf", r.chance(0.2));
    c.seti("header", r.chance(0.5));
    c.seti("nonl", r.chance(0.25));
    c.seti("blank", r.chance(0.15));
    c.seti("frac", r.chance(0.2));
    c.seti("quote", r.chance(0.15));
    c.seti("pad", r.chance(0.15));
    // the heuristics are only promised for clear-cut files
    if (c.geti("delim") <= 2 && ncol >= 2 && !c.geti("quote") && c.geti("num", 1) && r.chance(0.3)) c.seti("autodelim", 1);
    if (c.geti("num", 1) && !c.geti("quote") && r.chance(0.3)) c.seti("autohead", 1);
  }
  if (n == "binary" || n == "lcs") {
    static const char kinds[] = "cbBhHiIlLqQfd";
    int nf = r.chance(n == "lcs" ? 0.15 : 0.03) ? (int)r.range(60, n == "lcs" ? 230 : 120) : (int)r.range(1, 9);
    std::string s;
    for (int i = 0; i < nf; i++) s += kinds[r.range(0, 12)];
    std::vector<int> cols;
    for (int i = 1; i <= nf; i++) cols.push_back(i);
    auto take = [&](const char *allowed) {
      if (cols.empty()) return 0;
      size_t k = (size_t)r.range(0, (int64_t)cols.size() - 1);
      int v = cols[k];
      cols.erase(cols.begin() + (long)k);
      if (!strchr(allowed, s[(size_t)v - 1])) s[(size_t)v - 1] = allowed[r.range(0, (int64_t)strlen(allowed) - 1)];
      return v;
    };
    c.seti("f_id", take("qQIQQiL"));
    c.seti("f_time", r.chance(0.8) ? take("iIlLqQqQd") : 0);
    c.seti("f_size", r.chance(0.8) ? take("bBhHiIlLqQfd") : 0);
    c.seti("f_next", r.chance(0.5) ? take("q") : 0);
    c.seti("f_op", r.chance(0.3) ? take("bBhHiIcq") : 0);
    c.sets("fmtstr", s);
  }
}
}  // namespace tf
