// Conformance driver for declared capacities and estimates of space.
//   drv_cap SEED EVENTS OUT.ndjson
#include "vh.h"
#include <array>
using namespace vh;
using fptu::tuple_rw_fixed;
using fptu::tuple_rw_managed;

static FILE *out;
static const unsigned NETTO = 65534; // units
static long long clamp(unsigned long long x) { return x > 1000000000ull ? 1000000000ll : (long long)x; }

struct attempt {
  rng r;
  std::unique_ptr<fptu::schema> schema;
  std::vector<std::pair<token, int>> pre;
  json j;
  std::vector<std::array<long long, 5>> f; // genus, length, preplaced, tried, done
  explicit attempt(uint64_t s) : r(s) {}

  size_t items() {
    switch (r(9)) {
    case 0: return 8189 + r(5);
    case 1: return r(9000);
    case 2: return r(3) ? 8192 + r(100000) : ~size_t(0) - r(3);
    case 3: return 0;
    default: return r(40);
    }
  }
  size_t bytes() {
    switch (r(9)) {
    case 0: return 262136 - 12 + r(20);
    case 1: return r(262136);
    case 2: return r(3) ? 262136 + r(200000) : ~size_t(0) - r(9);
    case 3: return r(3000);
    case 4: return 0;
    default: return r(300);
    }
  }
  std::string value(int g, size_t len) {
    if (g == NESTED)
      return nested_image(unsigned(len));
    if (is_stretchy(g)) {
      std::string v(len, 'x');
      for (auto &c : v)
        c = char(1 + r(255));
      return v;
    }
    return make_value(g, 3 + r(1000));
  }
  static unsigned units(int g, const std::string &v) {
    const size_t n = v.size();
    switch (g) {
    case TEXT: return unsigned((n + (n < 254 ? 1 : 3) + 3) / 4);
    case VARBIN: return unsigned((n + 3) / 4 + 1);
    case NESTED: return unsigned((n + 3) / 4);
    case PROPERTY: return unsigned((n + 1 + 3) / 4);
    }
    return g <= 7 ? 0 : (fixed_bytes(g) + 3) / 4;
  }

  // put(genus, value, preplaced or -1) -> done
  template <typename PUT> void fill(size_t items, size_t bytes, const std::vector<int> &genera, PUT put) {
    size_t left_items = items, left_units = bytes / 4;
    int guard = 0;
    for (size_t k = 0; k < pre.size(); ++k) {
      if (!is_stretchy(pre[k].second) || pre[k].second == NESTED || r(3) == 0)
        continue;
      const std::string v = value(pre[k].second, 1 + r(60));
      const unsigned u = units(pre[k].second, v);
      if (u > left_units)
        continue;
      add(pre[k].second, v.size(), 1, put(pre[k].second, v, int(k)));
      left_units -= u;
    }
    const bool hasty = r(3) == 0;
    while (left_items && guard++ < 60) {
      int g = genera[r(unsigned(genera.size()))];
      size_t len = r(3) ? r(30) : r(3) ? r(1000) : r(70000);
      if ((hasty || left_items == 1) && left_units && r(4)) { // whole rest by one value
        if (r(2) && left_units < 32000) {
          g = TEXT;
          len = left_units * 4 - (left_units * 4 <= 254 ? 1 : 3);
        } else {
          g = VARBIN;
          len = (left_units - 1) * 4 - (left_units > 1 ? r(4) : 0);
        }
      }
      if (g == PROPERTY)
        len = 1 + len % 200;
      if (g == NESTED)
        len = 1 + len % 31;
      if (!is_stretchy(g) && fixed_bytes(g) <= 2 && r(left_items > 300 ? 60 : 4) == 0) { // all the rest
        const std::string v = value(g, 0);
        size_t done = 0;
        for (size_t k = 0; k < left_items; ++k)
          done += put(g, v, -1);
        f.push_back({g, (long long)v.size(), 0, (long long)left_items, (long long)done});
        left_items = 0;
        break;
      }
      const std::string v = value(g, len);
      const unsigned u = units(g, v);
      if (u > left_units)
        continue;
      left_units -= u;
      left_items -= 1;
      add(g, v.size(), 0, put(g, v, -1));
    }
  }
  void add(int g, size_t len, int p, bool done) { f.push_back({g, (long long)len, p, 1, done}); }

  void emit_fill() {
    j.key("f");
    j.open('[');
    for (auto &x : f) {
      j.open('[');
      for (auto y : x)
        j.item(y);
      j.close(']');
    }
    j.close(']');
    j.close('}');
    fprintf(out, "%s\n", j.b.c_str());
  }
  void begin(const char *kind, size_t I, size_t B) {
    j.open('{');
    j.str("e", kind);
    j.kv("items", clamp(I));
    j.kv("bytes", clamp(B));
  }
  void after(fptu_rw *pt, bool dofill, size_t I, size_t B) {
    j.str("r", pt ? "ok" : "null");
    j.kv("h", pt ? (long long)fptu_space4items(pt) : -1);
    j.kv("t", pt ? (long long)fptu_space4data(pt) / 4 : -1);
    if (pt && dofill) {
      static const std::vector<int> G = {7, 8, 9, 12, 13, 14, 17, 18, 19, 22, 0, 1, 2};
      fill(I, B, G, [&](int g, const std::string &v, int) {
        heap_copy h(v);
        const unsigned c = r(2047);
        fptu_ro n;
        n.sys.iov_base = h.p;
        n.sys.iov_len = h.n;
        switch (g) {
        case 7: return fptu_insert_uint16(pt, c, 77) == FPTU_OK;
        case 8: return fptu_insert_int32(pt, c, -42) == FPTU_OK;
        case 9: return fptu_insert_uint32(pt, c, 42) == FPTU_OK;
        case 12: return fptu_insert_int64(pt, c, -1) == FPTU_OK;
        case 13: return fptu_insert_uint64(pt, c, 1) == FPTU_OK;
        case 14: return fptu_insert_fp64(pt, c, 0.5) == FPTU_OK;
        case 17: return fptu_insert_96(pt, c, h.p) == FPTU_OK;
        case 18: return fptu_insert_128(pt, c, h.p) == FPTU_OK;
        case 19: return fptu_insert_160(pt, c, h.p) == FPTU_OK;
        case 22: return fptu_insert_256(pt, c, h.p) == FPTU_OK;
        case 0: return fptu_insert_string(pt, c, h.p, h.n) == FPTU_OK;
        case 1: return fptu_insert_opaque(pt, c, h.p, h.n) == FPTU_OK;
        default: return fptu_insert_nested(pt, c, n) == FPTU_OK;
        }
      });
    }
    j.kv("ck", !pt || fptu_check_rw(pt) == nullptr);
    emit_fill();
    fptu_destroy(pt);
  }

  void alloc() {
    const size_t I = items(), B = bytes();
    begin("alloc", I, B);
    after(fptu_alloc(I, B), true, I, B);
  }
  void init() {
    const size_t I = items(), B = bytes();
    const bool sane = I <= 8191 && B <= 262136;
    const size_t s0 = fptu_space(I, 0), sb = fptu_space(I, B);
    size_t n;
    switch (r(7)) {
    case 0: n = s0 - r(9); break;
    case 1: n = r(unsigned(s0) + 1); break;
    case 2: n = s0 + r(unsigned(sb - s0) + 1); break;
    case 3: n = sane ? size_t(fptu_buffer_enough) : sb; break;
    case 4: n = size_t(fptu_buffer_limit) + r(20) - 10; break;
    default: n = sb;
    }
    begin("init", I, B);
    j.kv("s0", clamp(s0));
    j.kv("sb", clamp(sb));
    j.kv("n", clamp(n));
    j.kv("enough", n == size_t(fptu_buffer_enough));
    void *p = malloc(n ? n : 1);
    fptu_rw *pt = fptu_init(p, n, I);
    if (!pt)
      free(p);
    after(pt, n >= sb && sane, I, B);
  }

  void make_schema() {
    if (r(3) == 0)
      return;
    schema = fptu::schema::create();
    const int n = 1 + r(6);
    for (int k = 0; k < n; ++k) {
      const int g = r(3) ? int(r(2)) : all_genera()[r(unsigned(all_genera().size()))];
      std::string name = "f" + std::to_string(k);
      pre.push_back({schema->define_preplaced(std::string(name), genus(g), true, false), g});
    }
  }
  unsigned pu() const { return schema ? unsigned(schema->preplaced_units()) : 0; }

  void after(tuple_rw_fixed *t, const char *trouble, size_t I, size_t B, size_t n0 = 0, size_t p0 = 0) {
    j.str("r", t ? "ok" : trouble);
    j.kv("pre", pu());
    j.kv("n0", (long long)n0);
    j.kv("p0", (long long)p0);
    j.kv("h", t ? (long long)t->head_space() : -1);
    j.kv("t", t ? (long long)t->tail_space_units() : -1);
    if (t)
      fill(I, B, all_genera(), [&](int g, const std::string &v, int p) {
        try {
          if (p >= 0)
            set_value(*t, pre[unsigned(p)].first, g, v);
          else
            insert_value(*t, token(genus(g), r(2047), true, true, false), g, v);
          return true;
        } catch (...) {
          return false;
        }
      });
    j.kv("ck", !t || t->validate() == nullptr);
    emit_fill();
  }

  void create() {
    make_schema();
    const size_t I = items(), B = bytes();
    const int how = r(2);
    begin(how ? "managed" : "fixed", I, B);
    std::unique_ptr<tuple_rw_fixed> t;
    const char *trouble = "?";
    try {
      if (how)
        t.reset(new tuple_rw_managed(I, B, schema.get()));
      else
        t.reset(new tuple_rw_fixed(I, B, schema.get()));
    } catch (...) {
      trouble = classify_current();
    }
    after(t.get(), trouble, I, B);
  }
  void scaled() {
    make_schema();
    const unsigned s = r(5);
    static const size_t SI[] = {32, 128, 512, 2028, 8191};
    const size_t I = SI[s], B = s == 4 ? 262136 : size_t(1000) << (2 * s);
    const int how = r(2);
    begin("scale", I, B);
    j.kv("est", (long long)fptu::estimate_space_for_tuple(fptu::initiation_scale(s), schema.get()));
    std::unique_ptr<tuple_rw_fixed> t;
    const char *trouble = "?";
    try {
      if (how)
        t.reset(new tuple_rw_managed(fptu::initiation_scale(s), schema.get()));
      else
        t.reset(new tuple_rw_fixed(fptu::initiation_scale(s), schema.get()));
    } catch (...) {
      trouble = classify_current();
    }
    const size_t room = (NETTO - I - pu()) * 4;
    const size_t declared = B - std::min(B, size_t(pu()) * 4);
    after(t.get(), trouble, I, std::min(room, declared));
  }

  // a source with contents and holes
  std::unique_ptr<tuple_rw_fixed> source() {
    std::unique_ptr<tuple_rw_fixed> t(new tuple_rw_managed(fptu::initiation_scale(r(4)), schema.get()));
    std::vector<std::pair<token, int>> done;
    const int n = r(30);
    for (int k = 0; k < n; ++k) {
      const int g = all_genera()[r(unsigned(all_genera().size()))];
      const token tok(genus(g), r(2047), false, true, false);
      size_t len = r(4) ? r(30) : r(3000);
      if (g == PROPERTY)
        len = 1 + len % 200;
      if (g == NESTED)
        len = 1 + len % 31;
      try {
        set_value(static_cast<tuple_rw_managed &>(*t), tok, g, value(g, len));
        done.push_back({tok, g});
      } catch (...) {
      }
    }
    for (auto &x : done)
      if (r(3) == 0)
        t->erase(x.first);
    return t;
  }
  void clone() {
    make_schema();
    auto src = source();
    const size_t I = items(), B = bytes();
    const unsigned how = r(schema ? 2 : 4);
    fptu::tuple_ro_weak weak = src->take_weak_asis();
    heap_copy h(std::string((const char *)weak.data(), weak.size()));
    const size_t n0 = src->index_size(), p0 = src->payload_size_bytes() / 4;
    begin(how == 0 ? "clone" : how == 1 ? "frombuf" : "fetch", I, B);
    if (how < 2) {
      std::unique_ptr<tuple_rw_fixed> t;
      const char *trouble = "?";
      try {
        if (how == 0)
          t.reset(new tuple_rw_fixed(tuple_rw_fixed::clone(*src, I, B)));
        else
          t.reset(new tuple_rw_fixed(h.p, h.n, I, B, schema.get()));
      } catch (...) {
        trouble = classify_current();
      }
      after(t.get(), trouble, I, B, n0, p0);
      return;
    }
    fptu_ro ro;
    ro.sys.iov_base = h.p;
    ro.sys.iov_len = h.n;
    const unsigned mi = unsigned(std::min(I, size_t(0xffffffffu))), mb = unsigned(std::min(B, size_t(0xffffffffu)));
    const char *err = nullptr;
    size_t n = how == 2 ? fptu_get_buffer_size(ro, mi, mb) : fptu_check_and_get_buffer_size(ro, mi, mb, &err);
    const size_t estimated = n;
    if (n && r(3) == 0)
      n -= std::min(n, size_t(r(20)));
    void *p = malloc(n ? n : 1);
    fptu_rw *pt = estimated ? fptu_fetch(ro, p, n, mi) : nullptr;
    if (!pt)
      free(p);
    j.kv("pre", 0);
    j.kv("n0", (long long)n0);
    j.kv("p0", (long long)p0);
    j.kv("n", (long long)n);
    j.kv("sb", (long long)estimated);
    after(pt, n >= estimated, I, B);
  }

  // the estimate of a size for a set of tokens
  void tsize() {
    schema = fptu::schema::create();
    const int n = 1 + r(r(4) ? 8 : 40), kinds = r(4);
    std::vector<std::pair<token, int>> all;
    for (int k = 0; k < n; ++k) {
      const int g = all_genera()[r(unsigned(all_genera().size()))];
      if (kinds == 0 && is_stretchy(g))
        continue;
      const bool loose = kinds == 1 || (kinds != 2 && r(2));
      try {
        const std::string name = "f" + std::to_string(k);
        all.push_back({loose ? schema->define_loose(std::string(name), genus(g), true) : schema->define_preplaced(std::string(name), genus(g), true), g});
      } catch (const std::exception &) {
      }
    }
    const size_t L = r(3) ? r(200) : 42;
    begin("tsize", n, L);
    j.kv("ck", 1);
    j.kv("est", (long long)(L == 42 && r(2) ? fptu::schema::estimate_tuple_size(schema->tokens()) : fptu::schema::estimate_tuple_size(schema->tokens(), L)));
    tuple_rw_managed t(fptu::initiation_scale(1), schema.get());
    for (auto &x : all) {
      const int g = x.second;
      std::string v;
      if (is_stretchy(g)) {
        // longest value which takes no more than L bytes as a whole
        size_t len = L;
        do
          v = value(g, g == NESTED ? 1 + std::min(len, size_t(30)) : g == PROPERTY ? 1 + len % 200 : len);
        while (4 * units(g, v) > L && len-- > 0);
        if (4 * units(g, v) > L)
          continue;
      } else
        v = value(g, 0);
      bool done = true;
      try {
        if (x.first.is_collection())
          insert_value(t, x.first, g, v);
        else
          set_value(t, x.first, g, v);
      } catch (...) {
        done = false;
      }
      add(g, v.size(), !x.first.is_loose(), done);
    }
    j.kv("pre", (long long)(schema->preplaced_bytes() + 3) / 4);
    j.kv("size", (long long)t.take_weak_optimized().first.size());
    emit_fill();
  }
};

int main(int argc, char **argv) {
  if (argc != 4)
    return 3;
  out = fopen(argv[3], "w");
  const uint64_t seed = strtoull(argv[1], nullptr, 10);
  for (int k = 0; k < atoi(argv[2]); ++k) {
    attempt a(seed * 1000033 + k);
    switch (a.r(7)) {
    case 0: a.alloc(); break;
    case 1: a.init(); break;
    case 2: a.scaled(); break;
    case 3: a.create(); break;
    case 4: a.tsize(); break;
    default: a.clone();
    }
  }
  fclose(out);
  return 0;
}
