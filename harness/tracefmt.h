// Writing trace files in every format the readers support, together with the
// requests a reader has to return for them.
#pragma once
#include <string>
#include <vector>

#include "cachelib.h"

namespace tf {
using pbt::Case;

enum Mask {
  M_TIME = 1, M_SIZE = 2, M_NEXT = 4, M_OP = 8, M_TTL = 16, M_NS = 32, M_KV = 64,
  M_CTYPE = 128, M_TENANT = 256, M_CF = 512, M_STRID = 1024
};
enum Zero { Z_NONE, Z_SIZE, Z_TWR };

struct TReq {
  uint64_t id = 0;
  std::string sid;  // text identity of string ids
  int64_t time = 0, size = 1, next = -2;
  int64_t op = 0, ttl = 0, ns = 0, key = 0, val = 0, ctype = 0, tenant = 0, bucket = 0;
  int64_t age = 0, host = 0, ext = 0, nlevel = 0, nparam = 0, method = 0, colo = 0;
  int64_t cnt = 1;
  uint64_t aux = 0;
  size_t offset = 0;  // byte offset of the record in the file
};

struct Fmt {
  const char *name;
  trace_type_e type;
  int mask;
  Zero zero;
  bool zst;         // compressed variant readable
  const char *cli;  // name on the command line, NULL when none
  const char *ext;
};
const std::vector<Fmt> &fmts();
const Fmt *find(const std::string &name);

// the requests described by the rows {0, idx, size, dtime, aux}; header: idmode, rep
std::vector<TReq> requests(const Case &c);
// file contents; adjusts the requests to what the format can record
std::string encode(const Fmt &f, const Case &c, std::vector<TReq> &v);
// fills next (1-based position of the next request of the same object, -1 when none)
void annotate_next(std::vector<TReq> &v);
// reader parameters that describe the file
struct Params {
  reader_init_param_t p;
  std::string fmtstr;
};
void fill_params(const Fmt &f, const Case &c, Params &out);
std::string cli_params(const Fmt &f, const Case &c);
bool skipped(const Fmt &f, const TReq &r);
// NULL-like empty string when the fields recorded by the format agree
std::string differs(const Fmt &f, int mask, const TReq &r, const request_t *q, bool ids = true);
std::string zstd(const std::string &data, int level, int frames);
std::string show(const request_t *q);
std::string show(const TReq &q);
// chooses the header fields that shape text and generic binary formats
bool valid_shape(const Fmt &f, const Case &c);
void gen_shape(pbt::Rng &r, const Fmt &f, Case &c);
}  // namespace tf
