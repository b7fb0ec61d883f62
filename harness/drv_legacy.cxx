// Conformance driver for the C interface.
//   drv_legacy random PROFILE SEED HISTORIES OPS OUT.ndjson
//   drv_legacy cmp SEED EVENTS OUT.ndjson
// Profiles: roomy, tight, coll, types.
#include "vh.h"
#include <sanitizer/asan_interface.h>
using namespace vh;

static FILE *out;
static bool want_q = true, want_rd = true;

// the types of the C interface
static const int G[] = {7, 4, 8, 9, 12, 13, 10, 14, 16, 17, 18, 19, 22, 0, 1, 2};
static const int NG = 16;
static const unsigned MAXC = fptu_max_cols;

static fptu_type type_of(int g) {
  return fptu_type(fptu::details::make_tag(fptu::genus(g), 0, true, true, false));
}
static int genus_of(fptu_type t) { return int(fptu::details::tag2genus(fptu::details::tag_t(t))); }

static const char *code(int e) {
  switch (e) {
  case FPTU_OK: return "ok";
  case FPTU_ENOFIELD: return "nofield";
  case FPTU_EINVAL: return "inval";
  case FPTU_ENOSPACE: return "space";
  case FPTU_ENOMEM: return "nomem";
  }
  return "other";
}

static fptu_ro as_ro(const heap_copy &h) {
  fptu_ro r;
  r.sys.iov_base = h.p;
  r.sys.iov_len = h.n;
  return r;
}

#define PUT(OP)                                                                \
  static fptu_error put_##OP(fptu_rw *pt, unsigned c, int g, const std::string &v, int var) { \
    heap_copy h(v);                                                            \
    switch (g) {                                                               \
    case 7: return fptu_##OP##_uint16(pt, c, from_bytes<uint16_t>(v));         \
    case 4: return fptu_##OP##_bool(pt, c, v[0] != 0);                         \
    case 8: return fptu_##OP##_int32(pt, c, from_bytes<int32_t>(v));           \
    case 9: return fptu_##OP##_uint32(pt, c, from_bytes<uint32_t>(v));         \
    case 12: return fptu_##OP##_int64(pt, c, from_bytes<int64_t>(v));          \
    case 13: return fptu_##OP##_uint64(pt, c, from_bytes<uint64_t>(v));        \
    case 10: return fptu_##OP##_fp32(pt, c, from_bytes<float>(v));             \
    case 14: return fptu_##OP##_fp64(pt, c, from_bytes<double>(v));            \
    case 16: return fptu_##OP##_datetime(pt, c, fptu_datetime_t(fptu::datetime_t::from_fixedpoint_32dot32(from_bytes<uint64_t>(v)))); \
    case 17: return fptu_##OP##_96(pt, c, h.p);                                \
    case 18: return fptu_##OP##_128(pt, c, h.p);                               \
    case 19: return fptu_##OP##_160(pt, c, h.p);                               \
    case 22: return fptu_##OP##_256(pt, c, h.p);                               \
    case 0:                                                                    \
      if (var && v.find('\0') == std::string::npos)                            \
        return fptu_##OP##_cstr(pt, c, v.c_str());                             \
      return fptu_##OP##_string(pt, c, h.p, h.n);                              \
    case 1:                                                                    \
      if (var) {                                                               \
        struct iovec iov;                                                      \
        iov.iov_base = h.p;                                                    \
        iov.iov_len = h.n;                                                     \
        return fptu_##OP##_opaque_iov(pt, c, iov);                             \
      }                                                                        \
      return fptu_##OP##_opaque(pt, c, h.p, h.n);                              \
    case 2: return fptu_##OP##_nested(pt, c, as_ro(h));                        \
    }                                                                          \
    abort();                                                                   \
  }
PUT(upsert)
PUT(insert)
PUT(update)

static std::string iov_bytes(const struct iovec &v) { return std::string((const char *)v.iov_base, v.iov_len); }
static std::string ptr_bytes(const void *p, size_t n) { return p ? std::string((const char *)p, n) : std::string("!"); }
static std::string cstr_bytes(const char *p) { return p ? std::string(p) : std::string(); }

// value of a field by its typed accessor
static std::string field_value(const fptu_field *pf, int g) {
  switch (g) {
  case 7: return to_bytes<uint16_t>(fptu_field_uint16(pf));
  case 4: return std::string(1, char(fptu_field_bool(pf)));
  case 8: return to_bytes<int32_t>(fptu_field_int32(pf));
  case 9: return to_bytes<uint32_t>(fptu_field_uint32(pf));
  case 12: return to_bytes<int64_t>(fptu_field_int64(pf));
  case 13: return to_bytes<uint64_t>(fptu_field_uint64(pf));
  case 10: return to_bytes<float>(fptu_field_fp32(pf));
  case 14: return to_bytes<double>(fptu_field_fp64(pf));
  case 16: return to_bytes<uint64_t>(fptu_field_datetime(pf).fixedpoint);
  case 17: return ptr_bytes(fptu_field_96(pf), 12);
  case 18: return ptr_bytes(fptu_field_128(pf), 16);
  case 19: return ptr_bytes(fptu_field_160(pf), 20);
  case 22: return ptr_bytes(fptu_field_256(pf), 32);
  case 0: return cstr_bytes(fptu_field_cstr(pf));
  case 1: return iov_bytes(fptu_field_opaque(pf));
  case 2: return iov_bytes(fptu_field_nested(pf).sys);
  }
  return "?";
}

static std::string get_of(const fptu_ro &ro, unsigned c, int g, int *err) {
  switch (g) {
  case 7: return to_bytes<uint16_t>(fptu_get_uint16(ro, c, err));
  case 4: return std::string(1, char(fptu_get_bool(ro, c, err)));
  case 8: return to_bytes<int32_t>(fptu_get_int32(ro, c, err));
  case 9: return to_bytes<uint32_t>(fptu_get_uint32(ro, c, err));
  case 12: return to_bytes<int64_t>(fptu_get_int64(ro, c, err));
  case 13: return to_bytes<uint64_t>(fptu_get_uint64(ro, c, err));
  case 10: return to_bytes<float>(fptu_get_fp32(ro, c, err));
  case 14: return to_bytes<double>(fptu_get_fp64(ro, c, err));
  case 16: return to_bytes<uint64_t>(fptu_get_datetime(ro, c, err).fixedpoint);
  case 17: return ptr_bytes(fptu_get_96(ro, c, err), 12);
  case 18: return ptr_bytes(fptu_get_128(ro, c, err), 16);
  case 19: return ptr_bytes(fptu_get_160(ro, c, err), 20);
  case 22: return ptr_bytes(fptu_get_256(ro, c, err), 32);
  case 0: return cstr_bytes(fptu_get_cstr(ro, c, err));
  case 1: return iov_bytes(fptu_get_opaque(ro, c, err));
  case 2: return iov_bytes(fptu_get_nested(ro, c, err).sys);
  }
  return "?";
}

// value of type g for the history: small alphabet, all sizes
static std::string value_for(rng &r, int g, unsigned maxlen) {
  if (g == 4)
    return std::string(1, char(r(2)));
  if (g == NESTED)
    return nested_image(r(32));
  if (is_stretchy(g)) {
    const unsigned len = r(4) ? r(maxlen + 1) : r(9);
    std::string v;
    for (unsigned i = 0; i < len; ++i)
      v.push_back(char(g == TEXT && (r(8) || len > 40) ? 1 + r(255) : r(256)));
    return v;
  }
  std::string v = make_value(g, r(3) ? 3 + r(1000) : r(3));
  if (g == 10 || g == 14) // not-a-number values are excluded
    if ((unsigned char)v.back() == 0xff || v == make_value(g, 1))
      return make_value(g, 5);
  return v;
}

struct custom {
  uint32_t genera;
  unsigned lo, hi;
  unsigned calls;
};
static bool custom_filter(const fptu_field *pf, void *context, void *param) noexcept {
  custom *c = (custom *)context;
  c->calls++;
  if (param != (void *)&out)
    abort();
  if (fptu_field_is_dead(pf)) // an erased field is nobody's: to be asked about one is a defect, shown by taking it
    return true;
  const unsigned col = unsigned(fptu_field_column(pf));
  return (c->genera >> genus_of(fptu_field_type(pf)) & 1) && col >= c->lo && col <= c->hi;
}

struct history {
  rng r;
  fptu_rw *pt = nullptr;
  void *buf = nullptr;
  unsigned ncols, ntypes;
  unsigned cols[6];
  int types[16];
  unsigned maxlen;
  explicit history(uint64_t seed) : r(seed) {}

  unsigned col() { return r(40) ? cols[r(ncols)] : MAXC + 1 + (r(2) ? r(3) : MAXC + r(140000)); }
  int type() { return types[r(ntypes)]; }

  void listing(json &j, const fptu_field *b, const fptu_field *e) {
    j.open('[');
    for (const fptu_field *p = b; p < e; ++p) {
      j.open('[');
      if (fptu_field_is_dead(p)) {
        j.item(fptu_field_column(p) < 0 ? -1 : 0);
        j.item(31);
        j.item((long long)fptu_field_as_iovec(p).iov_len);
      } else {
        const int g = genus_of(fptu_field_type(p));
        j.item(fptu_field_column(p));
        j.item(g);
        emit_value(j, iov_bytes(fptu_field_as_iovec(p)));
        if (g == 6)
          emit_value(j, iov_bytes(fptu_field_as_iovec(p)));
        else
          emit_value(j, field_value(p, g));
      }
      j.close(']');
    }
    j.close(']');
  }

  void state(json &j) {
    const fptu_field *b = fptu_begin_rw(pt), *e = fptu_end_rw(pt);
    j.key("ix");
    listing(j, b, e);
    j.kv("h", (long long)fptu_space4items(pt));
    j.kv("t", (long long)fptu_space4data(pt) / 4);
    j.kv("j", (long long)fptu_junkspace(pt) / 4);
    j.kv("em", fptu_is_empty_rw(pt));
    const fptu_ro ro = fptu_take_noshrink(pt);
    j.kv("emr", fptu_is_empty_ro(ro));
    j.kv("ck", fptu_check_rw(pt) == nullptr && fptu_check_ro(ro) == nullptr);
    j.kv("sz", (long long)ro.total_bytes);
    emit_holes(j, ro.units, ro.total_bytes);
    if (want_q) {
      j.key("q");
      j.open('[');
      for (int k = 0; k < 3; ++k)
        query(j, b, e, ro);
      j.close(']');
    }
    if (want_rd) {
      j.key("rd");
      j.open('[');
      for (int k = 0; k < 4; ++k) {
        // an exactly sized copy
        heap_copy h(std::string((const char *)ro.units, ro.total_bytes));
        const unsigned c = col();
        const int g = type();
        int err = 12345;
        fptu_clear_error();
        int *const perr = r(6) ? &err : nullptr;
        const std::string v = get_of(as_ro(h), c, g, perr);
        j.open('[');
        j.item(c > 2000000 ? 2000000 : c);
        j.item(g);
        j.sep();
        j.b += std::string("\"") + (!perr ? "none" : err == 12345 ? "unset" : code(err)) + "\"";
        emit_value(j, v);
        j.close(']');
      }
      j.close(']');
      j.key("cmp");
      j.open('[');
      for (int k = 0; k < 2; ++k) {
        static const int CG[] = {17, 18, 19, 22, 1, 1};
        const int g = CG[r(6)];
        const unsigned c = cols[r(ncols)];
        std::string v = value_for(r, g, maxlen);
        // often: close to the stored one
        const fptu_field *pf = fptu_lookup_ro(ro, c, fptu_type_or_filter(type_of(g)));
        if (pf && r(5)) {
          v = iov_bytes(fptu_field_as_iovec(pf));
          if (!v.empty() && r(3))
            v[r(unsigned(v.size()))] ^= char(1 + r(255));
          if (g == 1 && r(3) == 0)
            v.resize(r(unsigned(v.size()) + 3));
        }
        heap_copy h(v);
        fptu_lge x;
        switch (g) {
        case 17: x = fptu_cmp_96(ro, c, (uint8_t *)h.p); break;
        case 18: x = fptu_cmp_128(ro, c, (uint8_t *)h.p); break;
        case 19: x = fptu_cmp_160(ro, c, (uint8_t *)h.p); break;
        case 22: x = fptu_cmp_256(ro, c, (uint8_t *)h.p); break;
        default: {
          struct iovec iov;
          iov.iov_base = h.p;
          iov.iov_len = h.n;
          x = r(2) ? fptu_cmp_opaque(ro, c, h.p, h.n) : fptu_cmp_opaque_iov(ro, c, iov);
        }
        }
        j.open('[');
        j.item(c);
        j.item(g);
        raw(j, v);
        j.item(x);
        j.close(']');
      }
      j.close(']');
    }
  }

  static void raw(json &j, const std::string &v) {
    j.open('[');
    for (unsigned char c : v)
      j.item(c);
    j.close(']');
  }

  uint32_t mask() {
    switch (r(8)) {
    case 0: return fptu_any;
    case 1: return fptu_any_int;
    case 2: return fptu_any_uint;
    case 3: return fptu_any_fp;
    case 4: return fptu_any_number;
    case 5: return fptu_filter_mask(type_of(type()));
    case 6: return fptu_filter_mask(type_of(type())) | fptu_filter_mask(type_of(type()));
    }
    return uint32_t(r.next()) & 0x7fffffff;
  }

  static void emit_mask(json &j, uint32_t m) {
    j.open('[');
    for (int k = 0; k < 31; ++k)
      if (m >> k & 1)
        j.item(k);
    j.close(']');
  }

  // [kind, column or lo, hi, genera, lookup rw, lookup ro, positions, positions in ro, count rw, count ro]
  void query(json &j, const fptu_field *b, const fptu_field *e, const fptu_ro &ro) {
    j.open('[');
    const unsigned kind = r(3);
    const fptu_field *rb = fptu_begin_ro(ro), *re = fptu_end_ro(ro);
    if (kind < 2) {
      const unsigned c = col();
      const int g = type();
      const uint32_t m = kind ? mask() : uint32_t(1) << g;
      const fptu_type_or_filter tf = kind ? fptu_type_or_filter(m) : fptu_type_or_filter(type_of(g));
      j.item(kind);
      j.item(c > 2000000 ? 2000000 : c);
      j.item(c > 2000000 ? 2000000 : c);
      emit_mask(j, m);
      const fptu_field *p = fptu_lookup_rw(pt, c, tf);
      j.item(p ? p - b : -1);
      p = fptu_lookup_ro(ro, c, tf);
      j.item(p ? p - rb : -1);
      j.open('[');
      for (p = fptu_first(b, e, c, tf); p != e; p = fptu_next(p, e, c, tf))
        j.item(p - b);
      j.close(']');
      j.open('[');
      for (p = fptu_first(rb, re, c, tf); p != re; p = fptu_next(p, re, c, tf))
        j.item(p - rb);
      j.close(']');
      j.item((long long)fptu_field_count_rw(pt, c, tf));
      j.item((long long)fptu_field_count_ro(ro, c, tf));
    } else {
      custom cu{mask(), cols[r(ncols)], cols[r(ncols)], 0};
      if (cu.lo > cu.hi)
        std::swap(cu.lo, cu.hi);
      j.item(2);
      j.item(cu.lo);
      j.item(cu.hi);
      emit_mask(j, cu.genera);
      const fptu_field *p = fptu_first_ex(b, e, custom_filter, &cu, &out);
      j.item(p != e ? p - b : -1);
      p = fptu_first_ex(rb, re, custom_filter, &cu, &out);
      j.item(p != re ? p - rb : -1);
      j.open('[');
      for (p = fptu_first_ex(b, e, custom_filter, &cu, &out); p != e; p = fptu_next_ex(p, e, custom_filter, &cu, &out))
        j.item(p - b);
      j.close(']');
      j.open('[');
      for (p = fptu_first_ex(rb, re, custom_filter, &cu, &out); p != re; p = fptu_next_ex(p, re, custom_filter, &cu, &out))
        j.item(p - rb);
      j.close(']');
      j.item((long long)fptu_field_count_rw_ex(pt, custom_filter, &cu, &out));
      j.item((long long)fptu_field_count_ro_ex(ro, custom_filter, &cu, &out));
    }
    j.close(']');
  }

  void emit(json &j) {
    state(j);
    j.close('}');
    fprintf(out, "%s\n", j.b.c_str());
  }

  void head(json &j, const char *e, unsigned c, int g, const std::string &v, const char *res, const char *le) {
    j.open('{');
    j.str("e", e);
    j.kv("c", c > 2000000 ? 2000000 : c);
    j.kv("g", g);
    j.key("v");
    emit_value(j, v);
    j.str("r", res);
    j.str("le", le);
  }

  void start(const std::string &profile) {
    unsigned items, bytes;
    ncols = 1 + r(4);
    ntypes = 1 + r(7);
    maxlen = 40;
    if (profile == "tight") {
      items = 1 + r(6);
      bytes = r(100);
      maxlen = 24;
    } else if (profile == "coll") {
      items = 6 + r(12);
      bytes = 40 + r(300);
      ncols = 1 + r(2);
      ntypes = 1 + r(3);
      maxlen = 20;
    } else if (profile == "types") {
      items = 8 + r(12);
      bytes = 100 + r(500);
      ntypes = 10;
      ncols = 3;
    } else {
      items = 6 + r(12);
      bytes = 200 + r(1000);
      maxlen = r(3) ? 40 : 300;
    }
    static const unsigned C[] = {0, 1, 2, 3, 31, 32, 63, 64, 511, 512, MAXC - 1, MAXC, 5, 7};
    for (unsigned k = 0; k < ncols; ++k)
      cols[k] = r(4) ? C[r(14)] : r(MAXC + 1);
    for (unsigned k = 0; k < ntypes; ++k)
      types[k] = G[r(NG)];
    if (r(2)) {
      pt = fptu_alloc(items, bytes);
      buf = pt;
    } else {
      const size_t n = fptu_space(items, bytes);
      buf = malloc(n);
      pt = fptu_init(buf, n, items);
    }
    json j;
    head(j, "new", 0, 0, "", pt ? "ok" : "fail", "ok");
    j.kv("items", items);
    j.kv("bytes", bytes);
    if (!pt)
      exit(4);
    emit(j);
  }

  void finish() {
    void *b = buf;
    fptu_destroy(pt);
    const bool freed = __asan_address_is_poisoned(b);
    json j;
    j.open('{');
    j.str("e", "end");
    j.kv("fr", freed);
    j.close('}');
    fprintf(out, "%s\n", j.b.c_str());
    pt = nullptr;
  }

  void step() {
    json j;
    const unsigned op = r(100);
    const unsigned c = col();
    const int g = type();
    fptu_clear_error();
    if (op < 26 || op >= 95) {
      const std::string v = value_for(r, g, maxlen);
      const int rc = put_upsert(pt, c, g, v, r(2));
      head(j, "ups", c, g, v, code(rc), code(fptu_last_error_code()));
    } else if (op < 48) {
      const std::string v = value_for(r, g, maxlen);
      const int rc = put_insert(pt, c, g, v, r(2));
      head(j, "ins", c, g, v, code(rc), code(fptu_last_error_code()));
    } else if (op < 68) {
      const std::string v = value_for(r, g, maxlen);
      const int rc = put_update(pt, c, g, v, r(2));
      head(j, "upd", c, g, v, code(rc), code(fptu_last_error_code()));
    } else if (op < 70) {
      const int rc = fptu_upsert_null(pt, c);
      head(j, "ups", c, 6, std::string("\0\x80", 2), code(rc), code(fptu_last_error_code()));
    } else if (op < 79) {
      const bool filter = r(2);
      const uint32_t m = filter ? mask() : uint32_t(1) << g;
      const int rc = fptu_erase(pt, c, filter ? fptu_type_or_filter(m) : fptu_type_or_filter(type_of(g)));
      head(j, filter ? "erm" : "era", c, g, "", rc < 0 ? code(-rc) : "ok", "ok");
      j.kv("n", rc < 0 ? -1 : rc);
      j.key("m");
      emit_mask(j, m);
    } else if (op < 85) {
      const unsigned n = unsigned(fptu_end_rw(pt) - fptu_begin_rw(pt));
      const unsigned k = n ? r(n) : 0;
      fptu_erase_field(pt, n ? const_cast<fptu_field *>(fptu_begin_rw(pt) + k) : nullptr);
      head(j, "erf", 0, 0, "", "ok", code(fptu_last_error_code()));
      j.kv("n", n ? int(k) : -1);
    } else if (op < 89) {
      const bool had = fptu_junkspace(pt) > 0;
      const int kind = r(3);
      bool rc = had;
      if (kind == 0)
        rc = fptu_shrink(pt);
      else if (kind == 1)
        rc = fptu_cond_shrink(pt);
      else
        fptu_take(pt);
      head(j, "shr", 0, 0, "", "ok", code(fptu_last_error_code()));
      j.kv("n", rc);
      j.kv("had", had);
    } else if (op < 90) {
      const int rc = fptu_clear(pt);
      head(j, "clr", 0, 0, "", code(rc), code(fptu_last_error_code()));
    } else if (op < 94) {
      fetch();
      return;
    } else { // misuse: a broken image to be nested
      std::string v = nested_image(1 + r(31));
      switch (r(3)) {
      case 0: v.resize(v.size() - 1); break;
      case 1: v.push_back('\0'); break;
      default: v.resize(r(4));
      }
      const unsigned cc = cols[r(ncols)];
      const int w = r(3);
      const int rc = w == 0 ? put_upsert(pt, cc, 2, v, 0) : w == 1 ? put_insert(pt, cc, 2, v, 0) : put_update(pt, cc, 2, v, 0);
      head(j, "mis", cc, 2, v, code(rc), code(fptu_last_error_code()));
    }
    emit(j);
  }

  void fetch() {
    json j;
    if (r(3) == 0)
      fptu_shrink(pt);
    const fptu_ro live = fptu_take_noshrink(pt);
    heap_copy h(std::string((const char *)live.units, live.total_bytes));
    const fptu_ro ro = as_ro(h);
    const unsigned mi = r(5), mp = r(60);
    const unsigned way = r(3);
    const char *err = "unset";
    fptu_cbfs_result cb;
    memset((void *)&cb, 0xee, sizeof cb);
    size_t n = way == 0   ? fptu_get_buffer_size(ro, mi, mp)
               : way == 1 ? fptu_check_and_get_buffer_size(ro, mi, mp, &err)
                          : fptu_check_and_get_buffer_size_ex(ro, mi, mp, &cb);
    const bool fine = way == 0 || (way == 1 && err == nullptr) || (way == 2 && cb.err == FPTU_OK);
    void *nb = malloc(n ? n : 1);
    fptu_rw *np = way == 2 ? fptu_fetch_ex(ro, nb, n, mi, &cb) : fptu_fetch(ro, nb, n, mi);
    head(j, "fet", 0, 0, "", np && fine ? "ok" : "fail", code(fptu_last_error_code()));
    j.kv("items", mi);
    j.kv("bytes", mp);
    if (np) {
      fptu_destroy(pt);
      pt = np;
      buf = nb;
    }
    emit(j);
  }
};

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "random" && argc == 7) {
    out = fopen(argv[6], "w");
    const std::string profile = argv[2];
    const uint64_t seed = strtoull(argv[3], nullptr, 10);
    const int H = atoi(argv[4]), O = atoi(argv[5]);
    for (int k = 0; k < H; ++k) {
      history h(seed * 100003 + k);
      h.start(profile);
      const int n = O / 2 + h.r(O);
      for (int i = 0; i < n; ++i)
        h.step();
      h.finish();
    }
    fclose(out);
    return 0;
  }
  if (mode == "cmp" && argc == 5) {
    rng r(strtoull(argv[2], nullptr, 10));
    out = fopen(argv[4], "w");
    for (int k = atoi(argv[3]); k > 0; --k) {
      // three strings, close to each other
      std::string s[3];
      const unsigned base = r(12);
      for (unsigned i = 0; i < base; ++i)
        s[0].push_back(char(r(3) ? r(2) * 255 : r(256)));
      for (int q = 1; q < 3; ++q) {
        s[q] = s[r(q)];
        if (!s[q].empty() && r(3))
          s[q][r(unsigned(s[q].size()))] = char(r(3) ? r(2) * 128 : r(256));
        if (r(3) == 0)
          s[q].resize(r(unsigned(s[q].size()) + 4), char(r(256)));
      }
      json j;
      j.open('{');
      j.str("e", "cb");
      j.key("s");
      j.open('[');
      for (auto &x : s)
        history::raw(j, x);
      j.close(']');
      j.key("m");
      j.open('[');
      for (auto &a : s)
        for (auto &b : s) {
          heap_copy ha(a), hb(b);
          j.item(fptu_cmp_binary(ha.p, ha.n, hb.p, hb.n));
        }
      j.close(']');
      j.close('}');
      fprintf(out, "%s\n", j.b.c_str());
    }
    fclose(out);
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 3;
}
