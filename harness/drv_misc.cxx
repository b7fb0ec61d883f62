// Conformance driver of the auxiliary parts: tokens, string views, date-time,
// numbers to text.
//   drv_misc MODE SEED EVENTS OUT.ndjson      MODE: token view time itoa dtoa stamp
#include "fast_positive/erthink/erthink_d2a.h"
#include "fast_positive/erthink/erthink_u2a.h"
#include "vh.h"
#include <algorithm>
#include <cmath>
#include <string_view>
#include <sys/time.h>
#include <time.h>
using namespace vh;
using fptu::token;

static FILE *out;
static rng *rp;
static void put(json &j) {
  j.close('}');
  fprintf(out, "%s\n", j.b.c_str());
}
static void bytes(json &j, const char *k, const void *p, size_t n) {
  j.key(k);
  j.open('[');
  for (size_t i = 0; i < n; ++i)
    j.item(((const unsigned char *)p)[i]);
  j.close(']');
}
static void u64(json &j, const char *k, uint64_t v) { bytes(j, k, &v, 8); }
static int sign(long long x) { return (x > 0) - (x < 0); }

// ------------------------------------------------------------------ tokens
struct want { int k, g, x, c, d, s; };

static void attrs(json &j, const want &w) {
  j.kv("k", w.k);
  j.kv("g", w.g);
  j.kv("x", w.x);
  j.kv("c", w.c);
  j.kv("d", w.d);
  j.kv("s", w.s);
}

template <typename T> static void report(json &j, const char *key, const T &t) {
  j.key(key);
  j.open('{');
  j.kv("valid", t.is_valid());
  j.kv("type", t.type());
  j.kv("pre", t.is_preplaced());
  j.kv("loose", t.is_loose());
  j.kv("coll", t.is_collection());
  j.kv("inlay", t.is_inlay());
  j.kv("disc", t.is_discernible_null());
  j.kv("sat", t.is_saturated());
  j.kv("range", t.is_rangechecking());
  if (t.is_preplaced()) {
    j.kv("off", t.preplaced_offset());
    j.kv("size", (long long)t.preplaced_size());
  } else
    j.kv("id", t.id());
  j.kv("stretchy", t.is_stretchy());
  j.kv("bool", t.is_bool());
  j.kv("enum", t.is_enum());
  j.kv("text", t.is_text());
  j.kv("number", t.is_number());
  j.kv("integer", t.is_integer());
  j.kv("signed", t.is_signed());
  j.kv("unsigned", t.is_unsigned());
  j.kv("float", t.is_float());
  j.kv("decimal", t.is_decimal());
  j.close('}');
}

static want any_want(bool valid) {
  rng &r = *rp;
  want w;
  w.k = r(2);
  w.g = r(31);
  w.d = r(2);
  w.s = r(2);
  w.c = w.k ? 0 : r(2);
  static const int ids[] = {0, 1, 2, 1023, 1024, 1025, 2046, 2047, 5, 255, 256};
  static const int offs[] = {0, 1, 2, 3, 4, 8, 16380, 16381, 8191, 8192, 16384 - 4, 255, 256};
  if (w.k)
    w.x = r(2) ? offs[r(sizeof offs / sizeof *offs)] : int(r(16382));
  else
    w.x = r(2) ? ids[r(sizeof ids / sizeof *ids)] : int(r(2048));
  if (!valid)
    switch (r(5)) {
    case 0: w.g = 31 + r(3); break;
    case 1: w.x = w.k ? 16382 + int(r(3)) : 2048 + int(r(3)); break;
    case 2: w.x = w.k ? int(16382 + r(1000000000)) : int(2048 + r(1000000000)); break;
    case 3:
      if (w.k)
        w.x = -1 - int(r(70000));
      break;
    default: w.g = 32 + r(300); break;
    }
  return w;
}

static token make(const want &w) {
  return w.k ? token(ptrdiff_t(w.x), fptu::genus(w.g), w.d != 0, w.s != 0)
             : token(fptu::genus(w.g), unsigned(w.x), w.c != 0, w.d != 0, w.s != 0);
}

struct natives {
  int8_t i8;
  uint8_t u8;
  int16_t i16;
  uint16_t u16;
  int32_t i32;
  uint32_t u32;
  float f32;
  int64_t i64;
  uint64_t u64;
  double f64;
  fptu::preplaced_string text;
  fptu::preplaced_varbin bin;
  fptu::preplaced_nested nested;
  fptu::preplaced_property prop;
};
template <typename TOK> static void native(const TOK &t, int g, size_t off) {
  json j;
  j.open('{');
  j.str("e", "make");
  attrs(j, want{1, g, int(off), 0, 0, 0});
  j.kv("native", 1);
  j.str("r", "ok");
  report(j, "a", t);
  put(j);
  json q;
  q.open('{');
  q.str("e", "make");
  attrs(q, want{1, g, int(off), 0, 0, 0});
  q.kv("native", 1);
  q.str("r", "ok");
  report(q, "a", token(t));
  put(q);
}

static void tokens(unsigned events) {
  rng &r = *rp;
#define N(F, G) native(FPTU_TOKEN(natives, F)(), G, offsetof(natives, F))
  N(i8, 4); N(u8, 5); N(i16, 6); N(u16, 7); N(i32, 8); N(u32, 9); N(f32, 10);
  N(i64, 12); N(u64, 13); N(f64, 14); N(text, 0); N(bin, 1); N(nested, 2); N(prop, 3);
#undef N
  for (unsigned n = 0; n < events; ++n) {
    json j;
    j.open('{');
    const unsigned what = r(10);
    if (what < 4) {
      const want w = any_want(r(5) != 0);
      j.str("e", "make");
      attrs(j, w);
      try {
        const token t = make(w);
        j.str("r", "ok");
        if (w.g < 31) // the attributes of holes are an internal matter
          report(j, "a", t);
      } catch (...) {
        j.str("r", classify_current());
      }
    } else if (what < 7) {
      want a = any_want(true), b = any_want(true);
      if (r(3)) {
        b = a;
        switch (r(7)) {
        case 0: b.g = int((b.g + 1) % 31); break;
        case 1: b.x = b.x ? b.x - 1 : 1; break;
        case 2: if (!b.k) b.c = !b.c; break;
        case 3: b.d = !b.d; break;
        case 4: b.s = !b.s; break;
        case 5: b.d = r(2); b.s = r(2); b.c = b.k ? 0 : int(r(2)); break;
        default: break;
        }
      }
      const token p = make(a), q = make(b);
      token::hash h;
      token::same same;
      j.str("e", "pair");
      j.key("a");
      j.open('{'); attrs(j, a); j.close('}');
      j.key("b");
      j.open('{'); attrs(j, b); j.close('}');
      j.kv("same", token::is_same(p, q));
      j.kv("same2", same(p, q));
      j.kv("ntag", p.normalized_tag() == q.normalized_tag());
      j.kv("hash", h(p) == h(q));
      j.kv("eq", p == q);
      j.kv("ne", p != q);
      j.kv("lt", p < q);
      j.kv("gt", p > q);
      j.kv("le", p <= q);
      j.kv("ge", p >= q);
    } else if (what < 9) {
      want w = any_want(true);
      token t = make(w);
      const int v = r(2);
      if (r(2)) {
        t.enforce_discernible_null(v);
        w.d = v;
      } else {
        t.enforce_saturation(v);
        w.s = v;
      }
      j.str("e", "make");
      attrs(j, w);
      j.str("r", "ok");
      report(j, "a", t);
    } else {
      const want w = any_want(true);
      const token t = make(w);
      j.str("e", "cast");
      attrs(j, w);
      auto attempt = [&](const char *k, auto f) {
        try {
          f();
          j.str(k, "ok");
        } catch (...) {
          j.str(k, classify_current());
        }
      };
      attempt("pre", [&] { fptu::token_preplaced x(t); if (!x.is_preplaced() || x.is_loose() || x.tag() != t.tag()) throw 1; });
      attempt("loose", [&] { fptu::token_loose x(t); if (x.is_preplaced() || !x.is_loose() || x.tag() != t.tag()) throw 1; });
      attempt("t_text", [&] { fptu::cast_typecheck<fptu::genus::text, token> x(t); (void)x; });
      attempt("t_u16", [&] { fptu::cast_typecheck<fptu::genus::u16, token> x(t); (void)x; });
      attempt("t_u64", [&] { fptu::cast_typecheck<fptu::genus::u64, token> x(t); (void)x; });
    }
    put(j);
  }
}

// ------------------------------------------------------------------ string views
using fptu::string_view;
static void view_value(json &j, const char *k, const std::string *s) {
  j.key(k);
  if (!s) {
    j.open('[');
    j.item(-1);
    j.close(']');
  } else {
    j.open('[');
    for (unsigned char c : *s)
      j.item(c);
    j.close(']');
  }
}
// content in an exactly sized block
struct block {
  char *p;
  size_t n;
  explicit block(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) {
    memcpy(p, s.data(), n);
  }
  ~block() { free(p); }
};

static void view_pair(const std::string *a, const std::string *b, bool alias) {
  json j;
  j.open('{');
  j.str("e", "pair");
  view_value(j, "a", a);
  view_value(j, "b", b);
  block ba(a ? *a : std::string()), bb(b ? *b : std::string());
  const string_view x = a ? string_view(ba.p, ba.n) : string_view();
  const string_view y = b ? (alias && a && *a == *b ? string_view(ba.p, ba.n) : string_view(bb.p, bb.n)) : string_view();
  std::hash<string_view> h;
  j.kv("cmp", sign(string_view::compare(x, y)));
  j.kv("eq", x == y);
  j.kv("ne", x != y);
  j.kv("lt", x < y);
  j.kv("gt", x > y);
  j.kv("le", x <= y);
  j.kv("ge", x >= y);
  j.kv("hash", x.hash_value() == y.hash_value() && h(x) == h(y));
  if (b) { // with std::string at the right side
    const std::string s(*b);
    j.kv("scmp", sign(string_view::compare(x, s)));
    // by members and by global ones (an infix notation is ambiguous)
    j.kv("sops", x.operator==(s) | x.operator!=(s) << 1 | x.operator<(s) << 2 | x.operator>(s) << 3 | x.operator<=(s) << 4 | x.operator>=(s) << 5);
    j.kv("gops", ::operator==(x, s) | ::operator!=(x, s) << 1 | ::operator<(x, s) << 2 | ::operator>(x, s) << 3 | ::operator<=(x, s) << 4 | ::operator>=(x, s) << 5);
  }
  if (a) { // and at the left one
    const std::string s(*a);
    j.kv("lcmp", sign(string_view::compare(s, y)));
    j.kv("lops", ::operator==(s, y) | ::operator!=(s, y) << 1 | ::operator<(s, y) << 2 | ::operator>(s, y) << 3 | ::operator<=(s, y) << 4 | ::operator>=(s, y) << 5);
  }
  put(j);
}

static void view_one(const std::string *a, int how) {
  rng &r = *rp;
  json j;
  j.open('{');
  j.str("e", "one");
  j.kv("how", how);
  view_value(j, "a", a);
  block b(a ? *a : std::string());
  std::string z = a ? *a : std::string(); // zero terminated
  std::string_view sv(b.p, b.n), nilsv;
  string_view v;
  switch (how) {
  case 0: v = a ? string_view(b.p, b.n) : string_view(nullptr, size_t(0)); break;
  case 1: v = a ? string_view((const char *)b.p, (const char *)b.p + b.n) : string_view(nullptr, (const char *)nullptr); break;
  case 2: v = a ? string_view(z.c_str()) : string_view((const char *)nullptr); break;
  case 3: v = string_view(z); break;
  case 4: v = a ? string_view(sv) : string_view(nilsv); break;
  case 5: { string_view t(a ? string_view(b.p, b.n) : string_view()); v = "other"; v.swap(t); break; }
  case 6: { v = string_view(b.p, b.n); std::string_view t("other"); v.swap(t);
            j.kv("swapped", t.size() == b.n && (!b.n || t.data() == b.p) && std::string(v) == "other");
            v.swap(t); break; }
  default: { const string_view t = a ? string_view(b.p, b.n) : string_view(); v = t; }
  }
  std::string seq;
  for (size_t i = 0; i < v.length(); ++i)
    seq.push_back(v[i]);
  view_value(j, "idx", &seq);
  seq.clear();
  for (size_t i = 0; i < v.length(); ++i)
    seq.push_back(v.at(i));
  view_value(j, "at", &seq);
  seq.clear();
  for (auto c : v)
    seq.push_back(c);
  view_value(j, "fwd", &seq);
  seq.assign(v.rbegin(), v.rend());
  std::reverse(seq.begin(), seq.end());
  view_value(j, "bwd", &seq);
  seq = std::string(v);
  view_value(j, "str", &seq);
  {
    const std::string_view t = v;
    seq.assign(t.begin(), t.end());
    view_value(j, "sv", &seq);
  }
  j.kv("len", (long long)v.length());
  j.kv("size", (long long)v.size());
  j.kv("empty", v.empty());
  j.kv("nil", v.nil());
  if (v.length()) {
    j.kv("front", (unsigned char)v.front());
    j.kv("back", (unsigned char)v.back());
  }
  int thrown = 1;
  for (size_t pos : {v.length(), v.length() + 1, v.length() + r(1000), ~size_t(0), size_t(1) << 63})
    try {
      (void)v.at(pos);
      thrown = 0;
    } catch (const std::out_of_range &) {
    }
  j.kv("oor", thrown);
  put(j);
}

static void views(unsigned events) {
  rng &r = *rp;
  std::vector<std::string> small;
  const char abc[] = {0, 0x7f, char(0x80)};
  small.push_back("");
  for (size_t k = 0; k < 40 && small.size() < 40; ++k)
    for (char c : abc)
      small.push_back(small[k] + c);
  small.resize(40);
  const unsigned part = r(8);
  for (size_t a = 0; a <= small.size(); ++a)
    for (size_t b = 0; b <= small.size(); ++b)
      if ((a * 41 + b) % 8 == part)
        view_pair(a ? &small[a - 1] : nullptr, b ? &small[b - 1] : nullptr, r(2));
  for (size_t a = 0; a <= small.size(); ++a)
    view_one(a ? &small[a - 1] : nullptr, r(8));
  auto random = [&] {
    static const unsigned L[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257};
    std::string s(r(4) ? L[r(sizeof L / sizeof *L)] : r(70), 0);
    for (auto &c : s)
      c = char(r(3) ? r(256) : r(2) ? 0 : 255);
    return s;
  };
  for (unsigned n = 0; n < events; ++n) {
    std::string a = random(), b = random();
    if (r(2)) {
      b = a;
      if (!b.empty() && r(4))
        switch (r(4)) {
        case 0: b[r(unsigned(b.size()))] ^= char(1 << r(8)); break;
        case 1: b.pop_back(); break;
        case 2: b.back() = char(b.back() ^ 0x80); break;
        default: b.push_back(0);
        }
    }
    if (r(4))
      view_pair(r(20) ? &a : nullptr, r(20) ? &b : nullptr, r(2));
    else
      view_one(r(10) ? &a : nullptr, r(8));
  }
}

// ------------------------------------------------------------------ date and time
using fptu::datetime_t;
static uint64_t fixed_of(const timespec &ts) {
  return uint64_t((((unsigned __int128)ts.tv_sec * 1000000000u + (unsigned __int128)ts.tv_nsec) << 32) / 1000000000u);
}
static void times(unsigned events) {
  rng &r = *rp;
  auto sec = [&]() -> uint32_t {
    switch (r(6)) {
    case 0: return r(3);
    case 1: return 0xffffffffu - r(3);
    case 2: return 0x7fffffffu + r(3);
    case 3: return 1500000000u + r(1000000000);
    default: return uint32_t(r.next());
    }
  };
  auto sub = [&](uint32_t f) -> uint32_t {
    if (f < 8)
      return r(f);
    switch (r(5)) {
    case 0: return r(3);
    case 1: return f - 1 - r(3);
    case 2: return f / 2 + r(3) - 1;
    case 3: return uint32_t((uint64_t(f) << r(16)) >> 16);
    default: return r(f);
    }
  };
  auto frac = [&]() -> uint32_t {
    switch (r(6)) {
    case 0: return r(5);
    case 1: return 0xffffffffu - r(5);
    case 2: return 1u << r(32);
    case 3: return uint32_t((uint64_t(r(1000)) << 32) / 1000) + r(3) - 1;
    case 4: return uint32_t((uint64_t(r(1000000000)) << 32) / 1000000000) + r(3) - 1;
    default: return uint32_t(r.next());
    }
  };
  for (unsigned n = 0; n < events; ++n) {
    json j;
    j.open('{');
    static const uint32_t F[] = {1000, 1000000, 1000000000, 10000000};
    switch (r(10)) {
    case 0: case 1: { // from a count of units
      const unsigned k = r(5);
      const uint32_t f = k < 4 ? F[k] : 1 + r(4) * 12345 + uint32_t(r.next() >> (33 + r(31)));
      const uint64_t u = uint64_t(sec()) * f + sub(f);
      const datetime_t t = k == 0 ? datetime_t::from_milliseconds(u) : k == 1 ? datetime_t::from_usec(u)
                         : k == 2 ? datetime_t::from_nsec(u) : k == 3 ? datetime_t::from_100ns(u) : datetime_t(u, f);
      j.str("e", "from");
      j.kv("k", k);
      u64(j, "v", u);
      u64(j, "f", f);
      u64(j, "r", t.fixedpoint_32dot32());
      break;
    }
    case 2: { // from structures of seconds and parts
      const unsigned k = r(3);
      const uint32_t s = sec(), f = k == 0 ? 1000000000 : 1000000, p = k == 2 ? 0 : sub(f);
      datetime_t t;
      if (k == 0) {
        timespec ts;
        ts.tv_sec = time_t(s);
        ts.tv_nsec = long(p);
        t = r(2) ? datetime_t::from_timespec(ts) : datetime_t(ts);
      } else if (k == 1) {
        timeval tv;
        tv.tv_sec = time_t(s);
        tv.tv_usec = long(p);
        t = r(2) ? datetime_t::from_timeval(tv) : datetime_t(tv);
      } else {
        time_t x = time_t(s);
        t = r(2) ? datetime_t(&x) : datetime_t::from_seconds(s);
      }
      j.str("e", "parts");
      u64(j, "s", s);
      u64(j, "p", p);
      u64(j, "f", f);
      u64(j, "r", t.fixedpoint_32dot32());
      break;
    }
    case 3: case 4: { // sub-second parts
      const unsigned k = r(6);
      const uint32_t f = F[k % 3];
      const uint32_t v = k < 3 ? sub(f) : frac();
      uint64_t x = 0;
      switch (k) {
      case 0: x = datetime_t::ms2fractional(v); break;
      case 1: x = datetime_t::us2fractional(v); break;
      case 2: x = datetime_t::ns2fractional(v); break;
      case 3: x = datetime_t::fractional2ms(v); break;
      case 4: x = datetime_t::fractional2us(v); break;
      default: x = datetime_t::fractional2ns(v);
      }
      j.str("e", k < 3 ? "tofrac" : "fromfrac");
      u64(j, "v", v);
      u64(j, "f", f);
      u64(j, "r", x);
      break;
    }
    case 5: case 6: { // parts of a stamp
      const uint64_t v = uint64_t(sec()) << 32 | frac();
      const datetime_t t = datetime_t::from_fixedpoint_32dot32(v);
      j.str("e", "stamp");
      u64(j, "v", v);
      u64(j, "back", t.fixedpoint_32dot32());
      u64(j, "utc", t.utc_seconds());
      u64(j, "frac", t.fractional());
      const double a = t.seconds(), b = t.fractional_seconds();
      bytes(j, "dsec", &a, 8);
      bytes(j, "dfrac", &b, 8);
      const fptu_datetime_C &c = t;
      const datetime_t again(c);
      u64(j, "again", again.fixedpoint_32dot32());
      break;
    }
    case 7: case 8: { // order
      uint64_t a = uint64_t(sec()) << 32 | frac(), b = uint64_t(sec()) << 32 | frac();
      switch (r(4)) {
      case 0: b = a; break;
      case 1: b = a + 1 - r(3); break;
      case 2: b = (a & 0xffffffff00000000ull) | frac(); break;
      }
      const datetime_t x = datetime_t::from_fixedpoint_32dot32(a), y = datetime_t::from_fixedpoint_32dot32(b);
      j.str("e", "order");
      u64(j, "a", a);
      u64(j, "b", b);
      j.kv("eq", x == y);
      j.kv("ne", x != y);
      j.kv("lt", x < y);
      j.kv("gt", x > y);
      j.kv("le", x <= y);
      j.kv("ge", x >= y);
      break;
    }
    default: { // the current time
      static const int G[] = {0, 1, 1000, 1000000, 1000000000, 2147483647, -2147483647 - 1};
      const int grain = r(2) ? -int(r(36)) : G[r(sizeof G / sizeof *G)];
      timespec before, after;
      clock_gettime(CLOCK_REALTIME_COARSE, &before);
      const unsigned k = r(4);
      const datetime_t t = k == 0 ? datetime_t::now_fine() : k == 1 ? datetime_t::now_coarse()
                         : k == 2 ? datetime_t::now(grain) : datetime_t(fptu_now(grain));
      clock_gettime(CLOCK_REALTIME, &after);
      j.str("e", "now");
      j.kv("bits", k < 2 || grain >= 0 ? 0 : grain > -32 ? -grain : 32);
      u64(j, "lo", fixed_of(before));
      u64(j, "hi", fixed_of(after));
      u64(j, "r", t.fixedpoint_32dot32());
    }
    }
    put(j);
  }
}

// ------------------------------------------------------------------ numbers to text
static void chars(json &j, const char *k, const char *b, const char *e) {
  j.key(k);
  j.open('[');
  for (; b < e; ++b)
    j.item((unsigned char)*b);
  j.close(']');
}
static uint64_t interesting(unsigned bits) {
  rng &r = *rp;
  const uint64_t mask = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
  uint64_t p10 = 1;
  for (unsigned k = r(20); k; --k)
    p10 *= 10;
  switch (r(7)) {
  case 0: return (p10 + r(3) - 1) & mask;
  case 1: return (p10 * (1 + r(9)) + r(3) - 1) & mask;
  case 2: return ((uint64_t(1) << r(64)) + r(3) - 1) & mask;
  case 3: return r.next() & mask & (mask >> r(bits));
  case 4: return (uint64_t(0) - p10 + r(3) - 1) & mask;
  case 5: return (p10 * r(100000) + r(20)) & mask; // runs of zeros
  default: return r.next() & mask;
  }
}
static void itoa(unsigned events) {
  rng &r = *rp;
  for (unsigned n = 0; n < events; ++n) {
    json j;
    j.open('{');
    const unsigned k = r(4);
    static const unsigned room[] = {10, 20, 11, 20};
    char *b = (char *)malloc(room[k]), *e;
    memset(b, '#', room[k]);
    j.str("e", "int");
    const uint64_t v = interesting(k & 1 ? 64 : 32);
    switch (k) {
    case 0: e = erthink::u2a(uint32_t(v), b); break;
    case 1: e = erthink::u2a(uint64_t(v), b); break;
    case 2: e = erthink::i2a(int32_t(uint32_t(v)), b); break;
    default: e = erthink::i2a(int64_t(v), b);
    }
    const bool sane = e >= b && e <= b + room[k];
    uint64_t mag = v;
    bool neg = false;
    if (k == 2 && (v >> 31 & 1)) {
      neg = true;
      mag = (0x100000000ull - v);
    } else if (k == 3 && (v >> 63)) {
      neg = true;
      mag = 0 - v;
    }
    j.kv("neg", neg);
    u64(j, "v", mag);
    j.kv("room", sane);
    chars(j, "t", b, sane ? e : b);
    free(b);
    put(j);
  }
}

static void dtoa(unsigned events) {
  rng &r = *rp;
  for (unsigned n = 0; n < events; ++n) {
    uint64_t u = r.next();
    switch (r(12)) {
    case 0: u = uint64_t(r(2)) << 63 | uint64_t(r(2047)) << 52; u += r(3) - 1; break; // powers of two
    case 1: { // powers of ten
      const double d = std::pow(10.0, int(r(632)) - 323);
      memcpy(&u, &d, 8);
      u += r(5) - 2;
      break;
    }
    case 2: u = r.next() >> (12 + r(52)); break; // subnormal
    case 3: { const double d = double(int64_t(interesting(64))); memcpy(&u, &d, 8); break; }
    case 4: { const double d = double(int64_t(interesting(32))) / double(1 + r(1000)); memcpy(&u, &d, 8); break; }
    case 5: { // short decimals
      const double d = double(r(100000)) * std::pow(10.0, int(r(40)) - 20);
      memcpy(&u, &d, 8);
      break;
    }
    case 6: u = r(2) ? 0x7fefffffffffffffull - r(4) : 0x0010000000000000ull + r(5) - 2; break;
    case 7: { static const uint64_t S[] = {0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000001ull, 1, 0x8000000000000001ull, 0x000fffffffffffffull};
              u = S[r(9)]; break; }
    case 8: u = (u & 0x800fffffffffffffull) | uint64_t(1023 - 40 + r(110)) << 52; break;
    }
    double d;
    memcpy(&d, &u, 8);
    json j;
    j.open('{');
    j.str("e", "dbl");
    j.kv("neg", u >> 63);
    const unsigned ex = unsigned(u >> 52) & 2047;
    const uint64_t m = u & 0xfffffffffffffull;
    j.kv("cls", ex == 2047 ? (m ? 2 : 1) : 0); // finite, inf, nan
    j.kv("x", ex ? int(ex) - 1075 : -1074);
    u64(j, "m", ex ? m | 1ull << 52 : m);
    j.kv("edge", ex > 1 && m == 0); // the gap below is twice as short
    const unsigned k = r(4);
    j.kv("k", k);
    bool sane;
    if (k < 2) {
      const size_t room = erthink::d2a_max_chars;
      char *b = (char *)malloc(room);
      char *e = k ? erthink::d2a_accurate(d, b) : erthink::d2a_fast(d, b);
      sane = e >= b && e <= b + room;
      chars(j, "t", b, sane ? e : b);
      free(b);
    } else {
      using fast = erthink::grisu::shodan_printer<false>;
      using accurate = erthink::grisu::shodan_printer<true>;
      const size_t room = fast::buffer_size;
      char *b = (char *)malloc(room);
      std::pair<char *, char *> p;
      if (k == 2) {
        fast x(b, b + room);
        erthink::grisu::convert(x, d);
        p = x.finalize_and_get();
      } else {
        accurate x(b, b + room);
        erthink::grisu::convert(x, d);
        p = x.finalize_and_get();
      }
      sane = p.first >= b && p.first <= p.second && p.second <= b + room;
      chars(j, "t", p.first, sane ? p.second : p.first);
      free(b);
    }
    j.kv("room", sane);
    put(j);
  }
}

// ------------------------------------------------ stamps and bytes as text
static void stamps(unsigned events) {
  rng &r = *rp;
  {
    json j;
    j.open('{');
    j.str("e", "types");
    j.key("names");
    j.open('[');
    for (unsigned g = 0; g < 32; ++g) {
      const fptu::string_view name = std::to_string(fptu::genus(g));
      j.open('[');
      for (size_t k = 0; k < name.size(); ++k)
        j.item((unsigned char)name[k]);
      j.close(']');
    }
    j.close(']');
    put(j);
  }
  for (unsigned n = 0; n < events; ++n) {
    json j;
    j.open('{');
    if (r(8) == 0) {
      const size_t len = r(4) ? r(20) : r(200);
      uint8_t *b = (uint8_t *)malloc(len);
      for (size_t k = 0; k < len; ++k)
        b[k] = r(3) ? uint8_t(r(256)) : uint8_t("\x00\x09\x0a\x0f\x90\x99\x9a\xa0\xaf\xf0\xff\x7f\x80"[r(13)]);
      const std::string t = fptu::hexadecimal(b, len);
      j.str("e", "hex");
      bytes(j, "v", b, len);
      bytes(j, "t", t.data(), t.size());
      free(b);
      put(j);
      continue;
    }
    uint64_t sec = uint32_t(r.next()), frac = uint32_t(r.next());
    switch (r(6)) {
    case 0: sec = uint64_t(r(49711)) * 86400 + r(3) - 1; break; // edges of days
    case 1: { // edges of years, of Februaries and Marches
      struct tm tm;
      memset(&tm, 0, sizeof tm);
      tm.tm_year = 70 + int(r(137));
      tm.tm_mon = r(2) ? 0 : r(2) ? 1 + int(r(2)) : int(r(12));
      tm.tm_mday = 1;
      sec = uint64_t(timegm(&tm)) + r(3) - 1;
      break;
    }
    case 2: sec = r(2) ? r(100) : 0xFFFFFFFFu - r(100); break;
    case 3: sec = 0x7FFFFFFFu + r(4); break;
    default: break;
    }
    sec = sec > 0xFFFFFFFFu ? uint32_t(r.next()) : sec;
    switch (r(6)) {
    case 0: frac = r(2) ? r(8) : 0xFFFFFFFFu - r(8); break;
    case 1: frac = uint64_t(r(1024)) << 22; break; // halves of nanoseconds
    case 2: frac = (uint64_t(r(1000000000)) << 32) / 1000000000 + r(2); break;
    case 3: frac = (uint64_t(r(10)) << 32) / 10 + r(3); break;
    default: break;
    }
    const uint64_t v = sec << 32 | uint32_t(frac);
    const datetime_t d = datetime_t::from_fixedpoint_32dot32(v);
    const std::string t = std::to_string(d);
    j.str("e", "stamp");
    u64(j, "v", v);
    bytes(j, "t", t.data(), t.size());
    put(j);
  }
}

int main(int argc, char **argv) {
  if (argc != 5)
    return 3;
  rng r(strtoull(argv[2], 0, 10));
  rp = &r;
  out = fopen(argv[4], "w");
  if (!out)
    return 3;
  const std::string m(argv[1]);
  const unsigned n = unsigned(atoi(argv[3]));
  if (m == "token")
    tokens(n);
  else if (m == "view")
    views(n);
  else if (m == "time")
    times(n);
  else if (m == "itoa")
    itoa(n);
  else if (m == "dtoa")
    dtoa(n);
  else if (m == "stamp")
    stamps(n);
  else
    return 3;
  fclose(out);
  return 0;
}
