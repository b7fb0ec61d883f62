// Common helpers of the conformance drivers: deterministic values, JSON
// emission, classification of outcomes.  The drivers only *record* what the
// library does; all judgements are made by TLC against the specification.
#pragma once
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/details/legacy_compat.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vh {

struct rng {
  uint64_t s;
  explicit rng(uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567) {
    // streams of different seeds must not be shifts of each other
    uint64_t x = 0;
    for (int i = 0; i < 3; ++i)
      x = x * 0xDA942042E4DD58B5ull + next();
    s = x ^ (x >> 29);
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  unsigned operator()(unsigned n) { return unsigned(next() % n); }
  bool chance(unsigned num, unsigned den) { return operator()(den) < num; }
};

// ------------------------------------------------------------------ JSON out
struct json {
  std::string b;
  void raw(const char *s) { b += s; }
  void num(long long v) {
    char t[32];
    snprintf(t, sizeof t, "%lld", v);
    b += t;
  }
  void sep() {
    if (!b.empty() && b.back() != '[' && b.back() != '{' && b.back() != ':')
      b += ',';
  }
  void key(const char *k) {
    sep();
    b += '"';
    b += k;
    b += "\":";
  }
  void str(const char *k, const std::string &v) {
    key(k);
    b += '"';
    b += v;
    b += '"';
  }
  void kv(const char *k, long long v) {
    key(k);
    num(v);
  }
  void open(char c) {
    sep();
    b += c;
  }
  void close(char c) { b += c; }
  void item(long long v) {
    sep();
    num(v);
  }
};

// A value is recorded as the sequence of its bytes; long ones as
// <<-1, length, digest...>>.
inline void emit_value(json &j, const std::string &v) {
  j.open('[');
  if (v.size() <= 64) {
    for (unsigned char c : v)
      j.item(c);
  } else {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : v)
      h = (h ^ c) * 1099511628211ull;
    j.item(-1);
    j.item((long long)v.size());
    j.item(h & 0xffffff);
    j.item((h >> 24) & 0xffffff);
    j.item((h >> 48) & 0xffff);
  }
  j.close(']');
}

// sizes (in units) of the released places, from the raw index
inline void emit_holes(json &j, const void *p, size_t n) {
  const uint16_t *h = (const uint16_t *)p;
  j.key("hl");
  j.open('[');
  const size_t cnt = h[1] >> 3;
  for (size_t i = 0; i < cnt && 4 * (i + 2) <= n; ++i) {
    const uint16_t lo = h[2 * i + 2], hi = h[2 * i + 3];
    if (hi >> 11 != 31)
      continue;
    long units = lo ? hi & 2047 : 0;
    if (lo && units == 2047) {
      uint32_t x = 0;
      if (4 * (i + 1 + lo) + 4 <= n)
        memcpy(&x, (const char *)p + 4 * (i + 1 + lo), 4);
      units = long(x & 0x7fffffff);
    }
    j.item(units);
  }
  j.close(']');
}

// ------------------------------------------------------------------ outcomes
inline const char *classify_current() {
  using namespace fptu;
  try {
    throw;
  } catch (const insufficient_space &) {
    return "space";
  } catch (const tuple_too_large &) {
    return "large";
  } catch (const value_too_long &) {
    return "long";
  } catch (const field_absent &) {
    return "absent";
  } catch (const type_mismatch &) {
    return "type";
  } catch (const value_out_of_range &) {
    return "range";
  } catch (const value_is_denil &) {
    return "denil";
  } catch (const collection_unallowed &) {
    return "unallowed";
  } catch (const collection_required &) {
    return "required";
  } catch (const schema_no_such_field &) {
    return "nofield";
  } catch (const schema_definition_error &) {
    return "schemadef";
  } catch (const index_corrupted &) {
    return "corrupted";
  } catch (const schema_mismatch &) {
    return "schemamismatch";
  } catch (const tuple_hollow &) {
    return "hollow";
  } catch (const invalid_schema &) {
    return "badschema";
  } catch (const fptu::invalid_argument &) {
    return "argument";
  } catch (const managed_buffer_required &) {
    return "unmanaged";
  } catch (const bad_tuple &) {
    return "badtuple";
  } catch (const tuple_overflow &) {
    return "overflow";
  } catch (const std::bad_alloc &) {
    return "nomem";
  } catch (const std::exception &) {
    return "exception";
  } catch (...) {
    return "unknown";
  }
}

// ------------------------------------------------------------------ genera
enum { TEXT = 0, VARBIN = 1, NESTED = 2, PROPERTY = 3 };
inline bool is_stretchy(int g) { return g <= 3; }
inline unsigned fixed_bytes(int g) {
  switch (g) {
  case 4: case 5: return 1;
  case 6: case 7: return 2;
  case 8: case 9: case 10: case 11: return 4;
  case 12: case 13: case 14: case 15: case 16: return 8;
  case 17: return 12;
  case 18: return 16;
  case 19: return 20;
  case 20: return 24;
  case 21: return 28;
  case 22: return 32;
  case 23: return 40;
  case 24: return 48;
  case 25: return 64;
  case 26: return 8;
  case 27: return 16;
  case 28: return 8;
  case 29: return 16;
  case 30: return 17;
  }
  return 0;
}

inline uint64_t mix(uint64_t a, uint64_t b) {
  rng r(a * 1000003 + b);
  return r.next();
}

// Images of small tuples to be nested.
inline const std::string &nested_image(unsigned n) {
  static std::map<unsigned, std::string> cache;
  auto it = cache.find(n);
  if (it != cache.end())
    return it->second;
  std::string &out = cache[n];
  // column/type pairs through the schema-less loose tokens
  fptu::tuple_rw_fixed t(24, 9000, nullptr);
  rng r(n * 77 + 5);
  if (n != 0) {
    const unsigned items = 1 + r(4);
    for (unsigned i = 0; i < items; ++i) {
      switch (r(4)) {
      case 0:
        t.set_u16(fptu::token(fptu::genus::u16, i + 1), uint16_t(1 + r(60000)));
        break;
      case 1:
        t.set_u32(fptu::token(fptu::genus::u32, i + 1), 1 + r(1000000));
        break;
      case 2:
        t.set_string(fptu::token(fptu::genus::text, i + 1),
                     fptu::string_view(std::string(1 + r(n % 7 == 3 ? 900 : 12), char('a' + i))));
        break;
      default:
        t.set_u64(fptu::token(fptu::genus::u64, i + 1), 1 + r.next() / 2);
        break;
      }
    }
  }
  auto w = t.take_weak_asis();
  out.assign((const char *)w.data(), w.size());
  return out;
}

inline const std::vector<unsigned> &length_table() {
  static const std::vector<unsigned> L = {
      0,  1,  2,  3,  4,  5,  6,  7,  8,   9,   10,  11,  12,  13,  14,  15,
      16, 17, 19, 20, 23, 24, 27, 28, 31,  32,  33,  36,  39,  40,  41,  47,
      48, 60, 63, 64, 65, 96, 100, 127, 128, 200, 250, 251, 252, 253, 254, 255,
      256, 257, 258, 259, 260, 300, 507, 508, 509, 510, 511, 512, 1000, 1023, 1024, 2000};
  return L;
}

// Value of genus g and class c: deterministic.
//   fixed:    c = 0 natural zero, c = 1 designated null, c = 2 the same with a
//             twist (negative zero...), otherwise pseudo-random
//   stretchy: c & 63 selects the length, the rest the content
inline std::string make_value(int g, unsigned c) {
  rng r(mix(g + 1, c));
  std::string v;
  if (g == NESTED)
    return nested_image(c & 31);
  if (is_stretchy(g)) {
    unsigned len = length_table()[c & 63];
    if (c >= 2000000) // explicit short length, any of contents
      len = (c - 2000000) % 1000;
    else if (c >= 1000000) // explicit length
      len = c - 1000000;
    else if (g == PROPERTY && len > 255)
      len = len % 256;
    if (g == PROPERTY)
      v.push_back(char(c == 0 ? 0 : 1 + r(255)));
    for (unsigned i = 0; i < len; ++i)
      v.push_back(char(r(7) ? r(256) : 0));
    return v;
  }
  const unsigned n = fixed_bytes(g);
  v.assign(n, '\0');
  if (c == 0)
    return v;
  if (c == 1) { // designated null
    switch (g) {
    case 4: case 6: case 8: case 12:
      v[n - 1] = char(0x80);
      break;
    case 10: case 14: case 15:
      v.assign(n, '\xff');
      break;
    }
    return v;
  }
  if (g == 10) {
    float f;
    if (c == 2)
      f = -0.0f;
    else
      f = float(int(r(2000001)) - 1000000) / float(1 + r(1000));
    memcpy(&v[0], &f, 4);
    return v;
  }
  if (g == 14) {
    double f;
    if (c == 2)
      f = -0.0;
    else
      f = double(int64_t(r.next() >> 4) - (int64_t(1) << 59)) / double(1 + r(100000));
    memcpy(&v[0], &f, 8);
    return v;
  }
  if (g == 15) {
    fptu::decimal64 d(short(0));
    uint64_t bits = 0x31C0000000000000ull + (c == 2 ? 0 : 1 + r(1000000));
    memcpy((void *)&d, &bits, 8);
    memcpy(&v[0], &d, 8);
    return v;
  }
  do
    for (unsigned i = 0; i < n; ++i) {
      unsigned x = r(8);
      v[i] = char(x == 0 ? 0 : x == 1 ? 255 : r(256));
    }
  while (v.find_first_not_of('\0') == std::string::npos);
  if (g == 28)
    v[6] = v[7] = 0;
  return v;
}

template <typename T> T from_bytes(const std::string &v) {
  T x;
  memset((void *)&x, 0, sizeof(T));
  if (v.size() != sizeof(T)) {
    fprintf(stderr, "harness: bad value size %zu vs %zu\n", v.size(), sizeof(T));
    abort();
  }
  memcpy((void *)&x, v.data(), sizeof(T));
  return x;
}
template <typename T> std::string to_bytes(const T &x) {
  return std::string((const char *)&x, sizeof(T));
}

// exactly sized heap copy: AddressSanitizer guards both ends
struct heap_copy {
  char *p;
  size_t n;
  explicit heap_copy(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), s.size());
  }
  ~heap_copy() { free(p); }
  heap_copy(const heap_copy &) = delete;
};

using fptu::genus;
using fptu::token;

#define VH_FIXED(X)                                                            \
  X(4, int8_t, i8)                                                             \
  X(5, uint8_t, u8)                                                            \
  X(6, int16_t, i16)                                                           \
  X(7, uint16_t, u16)                                                          \
  X(8, int32_t, i32)                                                           \
  X(9, uint32_t, u32)                                                          \
  X(10, float, f32)                                                            \
  X(12, int64_t, i64)                                                          \
  X(13, uint64_t, u64)                                                         \
  X(14, double, f64)                                                           \
  X(15, fptu::decimal64, decimal)                                              \
  X(17, fptu::binary96_t, bin96)                                               \
  X(18, fptu::binary128_t, bin128)                                             \
  X(19, fptu::binary160_t, bin160)                                             \
  X(20, fptu::binary192_t, bin192)                                             \
  X(21, fptu::binary224_t, bin224)                                             \
  X(22, fptu::binary256_t, bin256)                                             \
  X(23, fptu::binary320_t, bin320)                                             \
  X(24, fptu::binary384_t, bin384)                                             \
  X(25, fptu::binary512_t, bin512)                                             \
  X(28, fptu::mac_address_t, mac_address)                                      \
  X(29, fptu::ip_address_t, ip_address)                                        \
  X(30, fptu::ip_net_t, ip_net)

inline const std::vector<int> &all_genera() {
  static const std::vector<int> g = {0,  1,  2,  3,  4,  5,  6,  7,  8,  9,
                                     10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
                                     20, 21, 22, 23, 24, 25, 28, 29, 30};
  return g;
}

// tuple.set_*(token, value)
template <typename TUPLE, typename TOKEN>
void set_value(TUPLE &t, const TOKEN &tok, int g, const std::string &v) {
  heap_copy h(v);
  switch (g) {
  case TEXT:
    return t.set_string(tok, fptu::string_view(h.p, h.n));
  case VARBIN:
    return t.set_varbinary(tok, fptu::string_view(h.p, h.n));
  case NESTED:
    return t.set_nested(tok, fptu::tuple_ro_weak(h.p, h.n, nullptr));
  case PROPERTY:
    return t.set_property(tok, fptu::property_pair(
                                   fptu::string_view(h.p + 1, h.n - 1), h.p[0]));
  case 11:
    return t.set_datetime(tok, fptu::datetime_t::from_seconds(from_bytes<uint32_t>(v)));
  case 16:
    return t.set_datetime(tok, fptu::datetime_t::from_fixedpoint_32dot32(from_bytes<uint64_t>(v)));
#define X(G, TYPE, NAME)                                                       \
  case G: {                                                                    \
    std::unique_ptr<TYPE> p(new TYPE(from_bytes<TYPE>(v)));                     \
    return t.set_##NAME(tok, *p);                                              \
  }
    VH_FIXED(X)
#undef X
  }
  abort();
}

// accessor.set_*(value)
template <typename ACC> void set_value_acc(ACC &&a, int g, const std::string &v) {
  heap_copy h(v);
  switch (g) {
  case TEXT:
    return a.set_string(fptu::string_view(h.p, h.n));
  case VARBIN:
    return a.set_varbinary(fptu::string_view(h.p, h.n));
  case NESTED:
    return a.set_nested(fptu::tuple_ro_weak(h.p, h.n, nullptr).get_impl());
  case PROPERTY:
    return a.set_property(fptu::property_pair(fptu::string_view(h.p + 1, h.n - 1), h.p[0]));
  case 11:
    return a.set_datetime(fptu::datetime_t::from_seconds(from_bytes<uint32_t>(v)));
  case 16:
    return a.set_datetime(fptu::datetime_t::from_fixedpoint_32dot32(from_bytes<uint64_t>(v)));
#define X(G, TYPE, NAME)                                                       \
  case G: {                                                                    \
    std::unique_ptr<TYPE> p(new TYPE(from_bytes<TYPE>(v)));                     \
    return a.set_##NAME(*p);                                                   \
  }
    VH_FIXED(X)
#undef X
  }
  abort();
}

template <typename TUPLE>
auto insert_value(TUPLE &t, const token &tok, int g, const std::string &v) {
  heap_copy h(v);
  switch (g) {
  case TEXT:
    return t.insert_string(tok, fptu::string_view(h.p, h.n));
  case VARBIN:
    return t.insert_varbinary(tok, fptu::string_view(h.p, h.n));
  case NESTED:
    return t.insert_nested(tok, fptu::tuple_ro_weak(h.p, h.n, nullptr));
  case PROPERTY:
    return t.insert_property(tok, fptu::property_pair(
                                      fptu::string_view(h.p + 1, h.n - 1), h.p[0]));
  case 11:
    return t.insert_datetime(tok, fptu::datetime_t::from_seconds(from_bytes<uint32_t>(v)));
  case 16:
    return t.insert_datetime(tok, fptu::datetime_t::from_fixedpoint_32dot32(from_bytes<uint64_t>(v)));
#define X(G, TYPE, NAME)                                                       \
  case G: {                                                                    \
    std::unique_ptr<TYPE> p(new TYPE(from_bytes<TYPE>(v)));                     \
    return t.insert_##NAME(tok, *p);                                           \
  }
    VH_FIXED(X)
#undef X
  }
  abort();
}

inline std::string nested_bytes(const fptu::details::tuple_ro *ro) {
  return ro ? std::string((const char *)ro->data(), ro->size()) : std::string();
}
inline std::string property_bytes(const fptu::property_pair &p) {
  std::string s(1, char(p.second));
  return s.append(p.first.data(), p.first.size());
}

template <typename TUPLE, typename TOKEN>
std::string get_value(const TUPLE &t, const TOKEN &tok, int g) {
  switch (g) {
  case TEXT: {
    auto s = t.get_string(tok);
    return std::string(s.data(), s.size());
  }
  case VARBIN: {
    auto s = t.get_varbinary(tok);
    return std::string(s.data(), s.size());
  }
  case NESTED:
    return nested_bytes(t.get_nested_weak(tok).get_impl());
  case PROPERTY:
    return property_bytes(t.get_property(tok));
  case 11:
    return to_bytes(uint32_t(t.get_datetime(tok).utc_seconds()));
  case 16:
    return to_bytes(uint64_t(t.get_datetime(tok).fixedpoint_32dot32()));
#define X(G, TYPE, NAME)                                                       \
  case G:                                                                      \
    return to_bytes<TYPE>(t.get_##NAME(tok));
    VH_FIXED(X)
#undef X
  }
  abort();
}

template <typename ACC> std::string get_value_acc(const ACC &a, int g) {
  switch (g) {
  case TEXT: {
    auto s = a.get_string();
    return std::string(s.data(), s.size());
  }
  case VARBIN: {
    auto s = a.get_varbinary();
    return std::string(s.data(), s.size());
  }
  case NESTED:
    return nested_bytes(a.get_nested());
  case PROPERTY:
    return property_bytes(a.get_property());
  case 11:
    return to_bytes(uint32_t(a.get_datetime().utc_seconds()));
  case 16:
    return to_bytes(uint64_t(a.get_datetime().fixedpoint_32dot32()));
#define X(G, TYPE, NAME)                                                       \
  case G:                                                                      \
    return to_bytes<TYPE>(a.get_##NAME());
    VH_FIXED(X)
#undef X
  }
  abort();
}

} // namespace vh
