// Conformance driver for numeric conversions.
//   drv_num random SEED EVENTS OUT.ndjson
#include "vh.h"
#include <cfloat>
#include <cmath>
using namespace vh;
using namespace fptu;

static FILE *out;
static const int G[] = {4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 18};
static const int NG = 11;

struct fields {
  std::unique_ptr<fptu::schema> sc;
  token loose[NG], loose_raw[NG], pre[NG], coll[NG];
  fields() : sc(fptu::schema::create()) {
    for (int i = 0; i < NG; ++i) {
      char n[32];
      snprintf(n, sizeof n, "p%d", i);
      pre[i] = sc->define_preplaced(n, genus(G[i]), false, false, nullptr);
      snprintf(n, sizeof n, "l%d", i);
      loose[i] = sc->define_loose(n, genus(G[i]), false, false, false);
      loose_raw[i] = loose[i];
      loose_raw[i].enforce_discernible_null(true);
      snprintf(n, sizeof n, "c%d", i);
      coll[i] = sc->define_loose(n, genus(G[i]), true, true, false);
    }
  }
};

// ------------------------------------------------------------------ values
static int64_t edge_int(rng &r) {
  int64_t v;
  switch (r(7)) {
  case 0: { // around powers of two
    v = int64_t(uint64_t(1) << r(64));
    v += int(r(5)) - 2;
    break;
  }
  case 1:
    v = int64_t(r.next() >> r(64));
    break;
  case 2:
    v = int(r(600)) - 300;
    break;
  case 3: {
    static const int64_t L[] = {INT8_MIN, INT8_MAX, UINT8_MAX, INT16_MIN, INT16_MAX, UINT16_MAX, INT32_MIN, INT32_MAX, UINT32_MAX, INT64_MIN, INT64_MAX, 0x1FFFFF, 0x1FFFFFFFFFFFFF, 1 << 24, 1ll << 53};
    v = int64_t(uint64_t(L[r(15)]) + uint64_t(int64_t(r(5)) - 2));
    break;
  }
  case 4:
    v = int64_t(uint64_t(0) - (uint64_t(1) << r(64)));
    v = int64_t(uint64_t(v) + uint64_t(int64_t(r(5)) - 2));
    break;
  default:
    v = int64_t(r.next());
  }
  return r(3) ? v : int64_t(0 - uint64_t(v));
}

static bool normal(double d) {
  return d == 0 || (std::fabs(d) >= 1e-290 && std::fabs(d) <= 1e300);
}

static double edge_double(rng &r) {
  double d;
  switch (r(8)) {
  case 0:
    d = double(edge_int(r));
    break;
  case 1:
    d = double(edge_int(r)) + (int(r(5)) - 2) / 4.0;
    break;
  case 2:
    d = std::ldexp(1.0, int(r(70)) - 3);
    d = std::nextafter(d, r(2) ? 1e300 : -1e300);
    break;
  case 3: {
    static const double L[] = {-128, 127, 255, -32768, 32767, 65535, -2147483648.0, 2147483647.0, 4294967295.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0, FLT_MAX, -FLT_MAX};
    d = L[r(14)];
    switch (r(6)) {
    case 0:
      d = std::nextafter(d, 1e300);
      break;
    case 1:
      d = std::nextafter(d, -1e300);
      break;
    case 2:
      d += 0.5;
      break;
    case 3:
      d -= 0.5;
      break;
    case 4:
      d += 1;
      break;
    }
    break;
  }
  case 4: { // halves between two floats
    float f = std::ldexp(float(1 + r(1 << 24)), int(r(100)) - 60);
    double a = f, b = std::nextafterf(f, FLT_MAX);
    d = a + (b - a) * (r(3) ? 0.5 : 0.5 + (int(r(3)) - 1) * 1e-7);
    break;
  }
  case 5:
    d = std::ldexp(double(r.next() >> 11), int(r(1900)) - 1000);
    break;
  case 6: { // close to the ends of float
    d = double(FLT_MAX) * (1 + (int(r(7)) - 3) * std::ldexp(1.0, -int(20 + r(33))));
    break;
  }
  default:
    d = double(int(r(4000)) - 2000) / (1 + r(16));
  }
  if (r(2))
    d = -d;
  return normal(d) ? d : 1.5;
}

static bool fnormal(float f) { return f == 0 || (std::fabs(f) >= 1e-36f && std::fabs(f) <= FLT_MAX); }

// ------------------------------------------------------------------ events
struct one {
  json j;
  void bytes(const std::string &s) {
    j.open('[');
    for (unsigned char c : s)
      j.item(c);
    j.close(']');
  }
};

static std::string raw(const fields &f, tuple_rw_fixed &t, int kind, int gi, bool &has) {
  const int g = G[gi];
  has = true;
  try {
    if (kind == 0)
      return get_value(t, f.loose_raw[gi], g);
    if (kind == 1)
      return get_value(t, f.pre[gi], g);
    for (auto it : t.collection(f.coll[gi]))
      return get_value_acc(it, g);
  } catch (const field_absent &) {
  }
  has = false;
  return std::string();
}

template <typename T> struct boxed {
  std::unique_ptr<T> p;
  explicit boxed(T v) : p(new T(v)) {}
};

// all the ways of writing; ACC is an accessor
template <typename T> struct put_number {
  template <typename X> static void acc(X &&a, T v) { a.set_number(v); }
  template <typename X> static void tup(X &t, const token &k, T v) { t.set_number(k, v); }
  template <typename X> static void ins(X &t, const token &k, T v) { t.insert_number(k, v); }
};

#define WAY(NAME, TYPE)                                                        \
  struct put_##NAME {                                                          \
    template <typename X> static void acc(X &&a, TYPE v) { a.set_##NAME(v); }   \
    template <typename X> static void tup(X &t, const token &k, TYPE v) { t.set_##NAME(k, v); } \
    template <typename X> static void ins(X &t, const token &k, TYPE v) { t.insert_##NAME(k, v); } \
  };
WAY(i8, int8_t)
WAY(u8, uint8_t)
WAY(i16, int16_t)
WAY(u16, uint16_t)
WAY(i32, int32_t)
WAY(u32, uint32_t)
WAY(i64, int64_t)
WAY(u64, uint64_t)
WAY(f32, float)
WAY(f64, double)
WAY(float, double)
WAY(bool, bool)
WAY(enum, short)
struct put_integer_s { // overloads
  template <typename X> static void acc(X &&a, int64_t v) { a.set_integer(v); }
  template <typename X> static void tup(X &t, const token &k, int64_t v) { t.set_integer(k, v); }
  template <typename X> static void ins(X &t, const token &k, int64_t v) { t.insert_integer(k, v); }
};
struct put_integer_u {
  template <typename X> static void acc(X &&a, uint64_t v) { a.set_integer(v); }
  template <typename X> static void tup(X &t, const token &k, uint64_t v) { t.set_integer(k, v); }
  template <typename X> static void ins(X &t, const token &k, uint64_t v) { t.insert_integer(k, v); }
};
struct put_unsigned_s {
  template <typename X> static void acc(X &&a, int64_t v) { a.set_unsigned(v); }
  template <typename X> static void tup(X &t, const token &k, int64_t v) { t.set_unsigned(k, v); }
  template <typename X> static void ins(X &t, const token &k, int64_t v) { t.insert_unsigned(k, v); }
};
struct put_unsigned_u {
  template <typename X> static void acc(X &&a, uint64_t v) { a.set_unsigned(v); }
  template <typename X> static void tup(X &t, const token &k, uint64_t v) { t.set_unsigned(k, v); }
  template <typename X> static void ins(X &t, const token &k, uint64_t v) { t.insert_unsigned(k, v); }
};
struct put_int128 {
  template <typename X> static void acc(X &&a, const int128_t &v) { a.set_int128(v); }
  template <typename X> static void tup(X &t, const token &k, const int128_t &v) { t.set_int128(k, v); }
  template <typename X> static void ins(X &t, const token &k, const int128_t &v) { t.insert_int128(k, v); }
};
struct put_uint128 {
  template <typename X> static void acc(X &&a, const uint128_t &v) { a.set_uint128(v); }
  template <typename X> static void tup(X &t, const token &k, const uint128_t &v) { t.set_uint128(k, v); }
  template <typename X> static void ins(X &t, const token &k, const uint128_t &v) { t.insert_uint128(k, v); }
};

static tuple_rw_managed *managed;

template <typename PUT, typename T>
static void perform(const fields &f, tuple_rw_fixed &t, int kind, int gi, unsigned via, T v) {
  if (kind == 2) {
    if (via == 0) {
      if (managed)
        PUT::ins(*managed, f.coll[gi], v);
      else
        PUT::ins(t, f.coll[gi], v);
    } else { // update of the first item
      auto it = t.collection(f.coll[gi]).begin();
      PUT::acc(*it, v);
    }
    return;
  }
  const token &k = kind ? f.pre[gi] : f.loose[gi];
  if (via == 0) {
    if (managed)
      PUT::tup(*managed, k, v);
    else
      PUT::tup(t, k, v);
  } else
    PUT::acc(t[k], v);
}

template <typename RO> static void reads(json &j, const RO &t, const token &k, rng &r, bool item) {
  j.key("rd");
  j.open('[');
  auto rec = [&](const char *way, const char *ty, auto fn) {
    std::string b;
    const char *res = "ok";
    try {
      b = fn();
    } catch (...) {
      res = classify_current();
    }
    j.open('[');
    j.b += std::string("\"") + way + "\",\"" + res + "\",\"" + ty + "\",[";
    for (unsigned char c : b)
      j.item(c);
    j.b += "]]";
  };
#define RD(WAY, TY, CALL) rec(WAY, TY, [&] { auto v = CALL; return to_bytes(v); })
#define READS(X)                                                               \
  RD("integer", "i64", X get_integer());                                       \
  RD("unsigned", "u64", X get_unsigned());                                     \
  RD("float", "f64", X get_float());                                           \
  RD("double", "f64", X get_number_as_ieee754double());                        \
  RD("int128", "i128", X get_int128());                                        \
  RD("uint128", "u128", X get_uint128());                                      \
  RD("bool", "u8", X get_bool());                                              \
  RD("enum", "i16", X get_enum());                                             \
  RD("i8", "i8", X get_i8());                                                  \
  RD("u8", "u8", X get_u8());                                                  \
  RD("i16", "i16", X get_i16());                                               \
  RD("u16", "u16", X get_u16());                                               \
  RD("i32", "i32", X get_i32());                                               \
  RD("u32", "u32", X get_u32());                                               \
  RD("i64", "i64", X get_i64());                                               \
  RD("u64", "u64", X get_u64());                                               \
  RD("f32", "f32", X get_f32());                                               \
  RD("f64", "f64", X get_f64());
  if (item) {
    auto it = t.collection(k).begin();
    if (it != t.collection(k).end()) {
      READS((*it).)
    }
  } else if (r(2)) {
    RD("integer", "i64", t.get_integer(k));
    RD("unsigned", "u64", t.get_unsigned(k));
    RD("float", "f64", t.get_float(k));
    RD("double", "f64", t.get_number_as_ieee754double(k));
    RD("int128", "i128", t.get_int128(k));
    RD("uint128", "u128", t.get_uint128(k));
    RD("bool", "u8", t.get_bool(k));
    RD("enum", "i16", t.get_enum(k));
    RD("i8", "i8", t.get_i8(k));
    RD("u64", "u64", t.get_u64(k));
    RD("f32", "f32", t.get_f32(k));
  } else {
    READS(t[k].)
  }
  j.close(']');
}

template <typename PUT, typename T>
static void event(const fields &f, tuple_rw_fixed &t, rng &r, int kind, int gi, unsigned via, const char *how,
                  const char *src, T v) {
  one o;
  json &j = o.j;
  j.open('{');
  j.str("e", "num");
  j.str("how", how);
  j.str("src", src);
  j.key("in");
  o.bytes(to_bytes(v));
  j.kv("g", G[gi]);
  j.kv("kind", kind);
  j.kv("via", via);
  bool has;
  std::string b = raw(f, t, kind, gi, has);
  j.key("pre");
  j.open('[');
  if (has)
    o.bytes(b);
  j.close(']');
  const char *res = "ok";
  try {
    perform<PUT, T>(f, t, kind, gi, via, v);
  } catch (...) {
    res = classify_current();
  }
  j.str("r", res);
  b = raw(f, t, kind, gi, has);
  j.key("post");
  j.open('[');
  if (has)
    o.bytes(b);
  j.close(']');
  const token &k = kind == 2 ? f.coll[gi] : kind ? f.pre[gi] : f.loose[gi];
  if (r(2))
    reads(j, static_cast<const tuple_rw_fixed &>(t).take_weak_asis(), k, r, kind == 2);
  else
    reads(j, t.take_managed_clone_asis(), k, r, kind == 2);
  j.close('}');
  j.b += '\n';
  fwrite(j.b.data(), 1, j.b.size(), out);
}

int main(int argc, char **argv) {
  if (argc != 5 || strcmp(argv[1], "random"))
    return 3;
  rng r(strtoull(argv[2], nullptr, 10));
  const long n = atol(argv[3]);
  out = fopen(argv[4], "w");
  if (!out)
    return 3;
  fields f;
  std::unique_ptr<tuple_rw_fixed> t;
  for (long i = 0; i < n; ++i) {
    if (i % 64 == 0) {
      managed = nullptr;
      if (i / 64 % 2) {
        t.reset(managed = new tuple_rw_managed(64, 4000, f.sc.get()));
      } else
        t.reset(new tuple_rw_fixed(64, 4000, f.sc.get()));
    }
    int kind = int(r(3));
    int gi = int(r(NG));
    unsigned via = r(2);
    if (kind == 2) {
      t->erase(t->collection(f.coll[gi]));
      if (via) {
        std::string v = make_value(G[gi], 3 + r(40));
        insert_value(*t, f.coll[gi], G[gi], v);
      }
    }
    auto target_near = [&](int64_t v) { return v; };
    (void)target_near;
    const unsigned w = r(26);
    int64_t s = edge_int(r);
    double d = edge_double(r);
    float fl = float(d);
    if (!fnormal(fl))
      fl = 2.5f;
#define EV(PUT, T, HOW, SRC, V) event<PUT, T>(f, *t, r, kind, gi, via, HOW, SRC, V)
    switch (w) {
    case 0:
    case 1:
      EV(put_number<int32_t>, int32_t, "number", "i32", int32_t(s));
      break;
    case 2:
    case 3:
      EV(put_number<uint32_t>, uint32_t, "number", "u32", uint32_t(s));
      break;
    case 4:
    case 5:
      EV(put_number<int64_t>, int64_t, "number", "i64", s);
      break;
    case 6:
    case 7:
      EV(put_number<uint64_t>, uint64_t, "number", "u64", uint64_t(s));
      break;
    case 8:
    case 9:
      EV(put_number<float>, float, "number", "f32", fl);
      break;
    case 10:
    case 11:
    case 12:
      EV(put_number<double>, double, "number", "f64", d);
      break;
    case 13:
      EV(put_integer_s, int64_t, "integer", "i64", s);
      break;
    case 14:
      EV(put_integer_u, uint64_t, "integer", "u64", uint64_t(s));
      break;
    case 15:
      EV(put_unsigned_s, int64_t, "unsigned", "i64", s);
      break;
    case 16:
      EV(put_unsigned_u, uint64_t, "unsigned", "u64", uint64_t(s));
      break;
    case 17:
    case 18:
      EV(put_float, double, "float", "f64", d);
      break;
    case 19: {
      int128_t x = int128_t(s);
      if (!r(3)) {
        uint64_t h = r.next() >> r(64);
        memcpy((char *)&x + 8, &h, 8);
      }
      EV(put_int128, int128_t, "int128", "i128", x);
      break;
    }
    case 20: {
      uint128_t x = uint128_t(uint64_t(s));
      if (!r(3)) {
        uint64_t h = r.next() >> r(64);
        memcpy((char *)&x + 8, &h, 8);
      }
      EV(put_uint128, uint128_t, "uint128", "u128", x);
      break;
    }
    case 21:
      EV(put_bool, bool, "bool", "u8", bool(s & 1));
      break;
    case 22:
      EV(put_enum, short, "enum", "i16", short(s));
      break;
    case 23:
      switch (r(4)) {
      case 0: EV(put_i8, int8_t, "i8", "i8", int8_t(s)); break;
      case 1: EV(put_u8, uint8_t, "u8", "u8", uint8_t(s)); break;
      case 2: EV(put_i16, int16_t, "i16", "i16", int16_t(s)); break;
      case 3: EV(put_u16, uint16_t, "u16", "u16", uint16_t(s)); break;
      }
      break;
    case 24:
      switch (r(4)) {
      case 0: EV(put_i32, int32_t, "i32", "i32", int32_t(s)); break;
      case 1: EV(put_u32, uint32_t, "u32", "u32", uint32_t(s)); break;
      case 2: EV(put_i64, int64_t, "i64", "i64", s); break;
      case 3: EV(put_u64, uint64_t, "u64", "u64", uint64_t(s)); break;
      }
      break;
    case 25:
      if (r(2))
        EV(put_f32, float, "f32", "f32", fl);
      else
        EV(put_f64, double, "f64", "f64", d);
      break;
    }
  }
  fclose(out);
  return 0;
}
