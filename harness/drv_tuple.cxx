// Conformance driver for tuples: executes scripts of operations (given or
// pseudo-randomly generated) on the real library and records, after each
// operation, its outcome and the complete observable state.
//
//   drv_tuple script IN OUT.ndjson
//   drv_tuple random PROFILE SEED HISTORIES OPS OUT.ndjson SCRIPT.out
#include "vh.h"
using namespace vh;
using namespace fptu;

struct field {
  int kind; // 0 loose, 1 preplaced, 2 collection
  int g;
  bool d;
  std::string init;
  token tok[2]; // declared null-discernibility and the alias with the opposite
};

struct world {
  FILE *out = nullptr;
  std::unique_ptr<fptu::schema> schema;
  std::vector<field> f;
  std::unique_ptr<tuple_rw_fixed> t;
  bool managed = false;
  bool emit_w = true;
  unsigned wlimit = 420; // units
  bool emit_it = false;
  bool quiet = false; // record images only
  long events = 0;

  tuple_rw_managed &m() { return *static_cast<tuple_rw_managed *>(t.get()); }

  void clear() {
    t.reset();
    f.clear();
    schema = fptu::schema::create();
  }

  void define(int kind, int g, bool d, int init) {
    field x;
    x.kind = kind;
    x.g = g;
    x.d = d;
    if (init >= 0 && kind == 1 && !is_stretchy(g))
      x.init = make_value(g, unsigned(init));
    else if (kind == 1 && !is_stretchy(g))
      x.init = make_value(g, d ? 1 : 0); // designated null or zero
    char name[16];
    snprintf(name, sizeof name, "f%zu", f.size());
    heap_copy h(x.init);
    const void *iv = (init >= 0 && kind == 1 && !is_stretchy(g)) ? h.p : nullptr;
    // doesn't matter for values of the field's own type, if they are valid
    const bool sat = (f.size() + unsigned(g)) % 3 == 1 && (kind != 1 || is_stretchy(g));
    if (kind == 1)
      x.tok[0] = schema->define_preplaced(name, genus(g), d, sat, iv);
    else
      x.tok[0] = schema->define_loose(name, genus(g), kind == 2, d, sat);
    x.tok[1] = x.tok[0];
    x.tok[1].enforce_discernible_null(!d);
    f.push_back(x);
  }
  const field &F(unsigned ti) const { return f[ti / 2]; }
  const token &T(unsigned ti) const { return f[ti / 2].tok[ti & 1]; }
  bool D(unsigned ti) const { return f[ti / 2].d != bool(ti & 1); }

  void emit_cfg(json &j) {
    j.key("toks");
    j.open('[');
    for (unsigned i = 0; i < f.size() * 2; ++i) {
      const auto &x = F(i);
      j.open('{');
      j.kv("f", i / 2 + 1);
      j.str("k", x.kind == 0 ? "L" : x.kind == 1 ? "P" : "C");
      j.kv("g", x.g);
      j.kv("d", D(i));
      j.kv("off", x.kind == 1 ? long(x.tok[0].preplaced_offset()) : -1);
      j.kv("id", x.kind == 1 ? -1 : long(x.tok[0].id()));
      j.key("init");
      emit_value(j, x.init);
      j.close('}');
    }
    j.close(']');
  }

  template <typename R> void emit_obs(json &j, const char *key, R &r, int via) {
    j.key(key);
    j.open('[');
    for (unsigned i = 0; i < f.size() * 2; ++i) {
      const auto &x = F(i);
      const token &k = T(i);
      j.open('{');
      int p = -1;
      try {
        p = r.is_present(k);
      } catch (...) {
        p = -2;
      }
      j.kv("p", p);
      if (x.kind == 2) {
        j.key("v");
        j.raw("[]");
        j.key("c");
        j.open('[');
        try {
          for (auto it : r.collection(k))
            emit_value(j, get_value_acc(it, x.g));
        } catch (...) {
          j.open('[');
          j.item(-9);
          j.close(']');
        }
        j.close(']');
      } else {
        j.key("v");
        j.open('[');
        try {
          const std::string v =
              via ? get_value_acc(r[k], x.g) : get_value(r, k, x.g);
          emit_value(j, v);
        } catch (const field_absent &) {
        } catch (...) {
          j.open('[');
          j.item(-9);
          j.close(']');
        }
        j.close(']');
        j.key("c");
        j.raw("[]");
      }
      j.close('}');
    }
    j.close(']');
  }

  void emit_stats(json &j) {
    const auto &r = *t;
    j.key("s");
    j.open('{');
    j.kv("h", r.head_space());
    j.kv("t", r.tail_space_units());
    j.kv("tb", r.tail_space_bytes());
    j.kv("j", r.junk_units());
    j.kv("jb", r.junk_bytes());
    j.kv("n", r.loose_count());
    j.kv("i", r.index_size());
    j.kv("pb", r.payload_size_bytes());
    j.kv("nb", r.netto_size());
    j.kv("bb", r.brutto_size());
    j.kv("cap", r.capacity());
    j.kv("ok", r.validate() == nullptr);
    j.kv("em", r.empty());
    j.close('}');
  }

  static void emit_image(json &j, const char *key, const void *p, size_t n) {
    j.key(key);
    j.open('[');
    for (size_t i = 0; i + 1 < n; i += 2) {
      uint16_t h;
      memcpy(&h, (const char *)p + i, 2);
      j.item(h);
    }
    j.close(']');
  }


  // visited positions: <<kind, field, value>>, kind 0 = released position
  template <typename IT> void emit_pos(json &j, const IT &it) {
    emit_pos_by(j, it, [&] { return *it; });
  }
  template <typename IT, typename ACC> void emit_pos_by(json &j, const IT &it, const ACC &acc) {
    j.open('{');
    int g = -1, fi = 0;
    try {
      g = it.field_type();
    } catch (...) {
    }
    if (g == genus::hole) {
      j.kv("f", 0);
      j.key("v");
      j.raw("[]");
      j.close('}');
      return;
    }
    for (unsigned i = 0; i < f.size(); ++i)
      if (it == f[i].tok[0])
        fi = fi ? -7 : int(i + 1);
    token tt;
    bool named = false;
    try {
      tt = name_of(it);
      named = true;
    } catch (...) {
    }
    j.kv("f", fi);
    int tf = 0;
    if (named)
      for (unsigned i = 0; i < f.size(); ++i)
        if (tt == f[i].tok[0])
          tf = int(i + 1);
    j.kv("tf", tf);
    j.key("v");
    j.open('[');
    if (g >= 0)
      try {
        emit_value(j, get_value_acc(acc(), g));
      } catch (const field_absent &) {
      } catch (...) {
        j.open('[');
        j.item(-9);
        j.close(']');
      }
    j.close(']');
    j.close('}');
  }
  token name_of(const field_iterator_ro &it) { return it.field_token(); }
  token name_of(const loose_iterator_ro &it) { return it.field_token(schema.get()); }

  template <typename IT>
  void emit_walk(json &j, const char *k1, const char *k2, const IT &b, const IT &e, bool post) {
    const long cap = 20000;
    long n = 0;
    j.key(k1);
    j.open('[');
    for (auto it = b; it != e && n < cap; ++n) {
      emit_pos(j, it);
      if (post)
        it++;
      else
        ++it;
    }
    j.close(']');
    j.key(k2);
    j.open('[');
    if (b != e) {
      auto it = e;
      n = 0;
      do {
        if (post)
          it--;
        else
          --it;
        emit_pos(j, it);
      } while (it != b && ++n < cap);
    }
    j.close(']');
  }

  // the same by jumps of a random access iterator
  void emit_jumps(json &j, const char *k1, const char *k2, const loose_iterator_ro &b,
                  const loose_iterator_ro &e) {
    const long n = e - b, mid = n / 2;
    bool order = n >= 0 && (n == 0) == (b == e) && b <= e && e >= b && (n > 0) == (b < e) && (n > 0) == (e > b);
    j.key(k1);
    j.open('[');
    for (long k = 0; k < n; ++k) {
      loose_iterator_ro it = b;
      switch (k % 5) {
      case 0:
        it = b + k;
        break;
      case 1:
        it = k + b;
        break;
      case 2:
        it = e - (n - k);
        break;
      case 3:
        it += k;
        break;
      case 4:
        it = e;
        it -= n - k;
        break;
      }
      order &= it - b == k && e - it == n - k && it < e && it >= b && (it > b) == (k > 0) && it != e &&
               !(it < b) && !(it >= e) && (it <= b) == (k == 0);
      emit_pos_by(j, it, [&] { return (b + mid)[k - mid]; });
    }
    j.close(']');
    j.kv(k2, order);
  }

  void flush(json &j) {
    j.close('}');
    j.b += '\n';
    fwrite(j.b.data(), 1, j.b.size(), out);
    ++events;
  }

  // ---------------------------------------------------------------- images
  static const char *ro_ctor(const heap_copy &h, const fptu::schema *sc, int how) {
    try {
      switch (how) {
      case 0: {
        tuple_ro_weak x(h.p, h.n, sc);
        (void)x;
        break;
      }
      case 1: {
        tuple_ro_managed x(h.p, h.n, sc);
        (void)x;
        break;
      }
      case 2: {
        tuple_rw_managed x(h.p, h.n, 1, 8, sc);
        (void)x;
        break;
      }
      }
    } catch (...) {
      return classify_current();
    }
    return "ok";
  }

  void emit_bag(json &j, const char *key, tuple_rw_fixed &x) {
    emit_obs(j, key, x, 0);
  }

  void probe_image(const std::string &img) {
    heap_copy h(img);
    json j;
    j.open('{');
    j.str("e", "img");
    j.kv("b", (long)img.size());
    emit_image(j, "w", img.data(), img.size());
    const fptu::schema *sc = schema.get();
    const bool v = tuple_ro_weak::validate(h.p, h.n, sc) == nullptr;
    const bool vh = tuple_ro_weak::validate(h.p, h.n, sc, true) == nullptr;
    const bool vn = tuple_ro_weak::validate(h.p, h.n, nullptr) == nullptr;
    j.kv("v", v);
    j.kv("vh", vh);
    j.kv("vn", vn);
    j.str("c0", ro_ctor(h, sc, 0));
    j.str("c1", ro_ctor(h, sc, 1));
    j.str("c2", ro_ctor(h, sc, 2));
    if (v) {
      tuple_ro_weak x(h.p, h.n, sc);
      j.kv("vv", x.validate(sc) == nullptr);
      emit_obs(j, "o", x, int(events & 1));
      // touch everything
      unsigned long n = 0;
      for (auto it = x.cbegin_loose(); it != x.cend_loose(); ++it) {
        const int g = it.field_type();
        if (g == genus::hole || g == 26 || g == 27)
          continue;
        try {
          n += get_value_acc(*it, g).size();
        } catch (const std::exception &) {
        }
        n += 1;
      }
      j.kv("tn", (long)(n > 0));
      // writable copies
      const char *r = "ok";
      size_t mark = j.b.size();
      try {
        tuple_rw_fixed y(h.p, h.n, 2, 16, sc);
        emit_obs(j, "o3", y, 0);
        j.key("s");
        j.open('[');
        j.item(y.loose_count());
        j.item(y.index_size());
        j.item(y.junk_units());
        j.item(y.brutto_size());
        j.close(']');
        y.optimize();
        emit_obs(j, "o4", y, 0);
        j.key("s4");
        j.open('[');
        j.item(y.loose_count());
        j.item(y.index_size());
        j.item(y.junk_units());
        j.item(y.validate() == nullptr);
        j.close(']');
      } catch (...) {
        r = classify_current();
        j.b.resize(mark);
      }
      j.str("c3", r);
    }
    flush(j);
  }

  static uint16_t get16(const std::string &s, size_t half) {
    uint16_t x = 0;
    if (2 * half + 2 <= s.size())
      memcpy(&x, s.data() + 2 * half, 2);
    return x;
  }
  static void put16(std::string &s, size_t half, unsigned v) {
    uint16_t x = uint16_t(v);
    if (2 * half + 2 <= s.size())
      memcpy(&s[2 * half], &x, 2);
  }

  std::string mutate(const std::string &base, rng &r) {
    std::string s = base;
    unsigned times = 1 + (r.chance(1, 3) ? r(3) : 0);
    while (times--) {
      const unsigned units = unsigned(s.size() / 4);
      const unsigned halves = unsigned(s.size() / 2);
      const unsigned cnt = get16(s, 1) >> 3;
      if (units < 1)
        return s;
      const unsigned du = cnt ? 1 + r(std::min(cnt, units)) : 0; // some descriptor
      switch (r(21)) {
      case 0: // flip a bit
        if (halves) {
          unsigned k = r(halves);
          put16(s, k, get16(s, k) ^ (1u << r(16)));
        }
        break;
      case 1: // plus or minus one
      case 2:
        if (halves) {
          unsigned k = r(halves);
          put16(s, k, get16(s, k) + (r(2) ? 1 : -1));
        }
        break;
      case 3: // a special value
        if (halves) {
          static const unsigned S[] = {0, 1, 2, 3, 253, 254, 255, 256, 0x7fff, 0x8000, 0xffff, 0xfffe, 0xf800, 0xffff, 0x00ff, 0xff00};
          put16(s, r(halves), S[r(16)]);
        }
        break;
      case 4: // truncate, header as it was
        s.resize(s.size() - std::min<size_t>(s.size(), 1 + r(9)));
        break;
      case 5: // extend, header as it was
        s.append(1 + r(9), char(r(256)));
        break;
      case 6: // truncate with a right header
        if (units > 1) {
          s.resize(s.size() - 4);
          put16(s, 0, units - 1);
        }
        break;
      case 7: // extend with a right header
        s.append(4, '\0');
        put16(s, 0, units + 1);
        break;
      case 8: // flags
        put16(s, 1, get16(s, 1) ^ (1u << r(3)));
        break;
      case 9: // count
        put16(s, 1, get16(s, 1) + (r(2) ? 8 : -8));
        break;
      case 10: // change a genus
        if (du)
          put16(s, 2 * du + 1, (get16(s, 2 * du + 1) & 2047) | (r(32) << 11));
        break;
      case 11: // swap descriptors, offsets are as they were
        if (cnt > 1) {
          unsigned a = 1 + r(std::min(cnt, units)), b = 1 + r(std::min(cnt, units));
          unsigned x = get16(s, 2 * a + 1), y = get16(s, 2 * b + 1);
          put16(s, 2 * a + 1, y);
          put16(s, 2 * b + 1, x);
        }
        break;
      case 12: // alias: two descriptors share a chunk
        if (cnt > 1) {
          unsigned a = 1 + r(std::min(cnt, units)), b = 1 + r(std::min(cnt, units));
          put16(s, 2 * a, get16(s, 2 * b) + b - a);
        }
        break;
      case 13: // turn into a hole of the given size
        if (du)
          put16(s, 2 * du + 1, (31u << 11) | (r(4) ? r(8) : 2047));
        break;
      case 14: // move the payload of a descriptor
        if (du)
          put16(s, 2 * du, get16(s, 2 * du) + (r(2) ? 1 + r(3) : -int(1 + r(3))));
        break;
      case 15: // drop the payload
        if (du)
          put16(s, 2 * du, 0);
        break;
      case 16: { // insert a hole over an appended chunk: mostly well-formed
        const unsigned k = r(4);
        std::string d(4, '\0');
        std::string body = s.substr(4);
        // the new descriptor comes first in the index
        unsigned nunits = units + 1 + k;
        if (k) {
          d[0] = char(nunits - k - 1);
          d[1] = char((nunits - k - 1) >> 8);
        }
        d[2] = char(k);
        d[3] = char(31 << 3);
        std::string t = s.substr(0, 4) + d + body + std::string(4 * k, char(r(256)));
        s = t;
        put16(s, 0, nunits);
        put16(s, 1, get16(s, 1) + 8);
        break;
      }
      case 17: { // an empty variable-size field without a payload
        std::string d(4, '\0');
        d[3] = char(r(4) << 3);
        d[2] = char(1 + r(20));
        s = s.substr(0, 4) + d + s.substr(4);
        put16(s, 0, units + 1);
        put16(s, 1, get16(s, 1) + 8);
        break;
      }
      case 18: { // an in-placed field
        std::string d(4, '\0');
        d[0] = char(r(256));
        d[1] = char(r(256));
        d[3] = char((4 + r(4)) << 3);
        d[2] = char(r(20));
        s = s.substr(0, 4) + d + s.substr(4);
        put16(s, 0, units + 1);
        put16(s, 1, get16(s, 1) + 8);
        break;
      }
      case 20: // a chunk, which ends beyond of the image, maybe by wrapping around
        if (du) {
          const unsigned v = get16(s, 2 * du + 1), p = du + get16(s, 2 * du);
          const unsigned pivot = 1 + cnt, begin = p - pivot;
          unsigned len = units - p + r(3);
          if (r(2)) {
            const unsigned other = 1 + r(std::min(cnt, units));
            len = 65536 + other + get16(s, 2 * other) - pivot - begin;
            if (r.chance(1, 4))
              len = 65536 + r(4) - begin;
          }
          if ((v >> 11) == 0 || (v >> 11) == 3 || r(2))
            put16(s, 2 * du + 1, (v & 2047) | ((1 + r(2)) << 11));
          put16(s, 2 * p, len);
          if (r(2))
            put16(s, 2 * p + 1, r(8));
        }
        break;
      case 19: // declared length of some stretchy chunk
        if (du) {
          unsigned p = du + get16(s, 2 * du);
          put16(s, 2 * p, get16(s, 2 * p) + (r(2) ? 1 + r(4) : -int(1 + r(4))));
        }
        break;
      }
    }
    return s;
  }

  // few units, few values: often almost well-formed
  std::string synth(rng &r) {
    const unsigned pu = unsigned(schema->preplaced_units());
    const unsigned cnt = r(4);
    const unsigned pay = pu + r(7);
    const unsigned units = 1 + cnt + pay;
    std::string s(4 * units, '\0');
    put16(s, 0, units);
    put16(s, 1, cnt * 8 + (pu ? 2 : 0));
    const unsigned lo = 1 + cnt + pu;
    unsigned next = lo;
    for (unsigned u = cnt; u >= 1; --u) {
      unsigned g = r(3) ? r(4) : r(32);
      if (!f.empty() && r(2))
        g = unsigned(f[r(unsigned(f.size()))].g);
      if (r.chance(1, 5))
        g = 31;
      unsigned id = 1 + r(4);
      if (g == 31)
        id = r(4);
      unsigned need = g == 31 ? id : g < 4 ? 1 + r(3) : (g < 8 ? 0 : (fixed_bytes(int(g)) + 3) / 4);
      put16(s, 2 * u + 1, g * 2048 + id);
      if (need && next < units) {
        put16(s, 2 * u, next - u);
        if (g == 0)
          put16(s, 2 * next, (r.chance(1, 6) ? 254 + r(2) : 4 * need - 1 - r(4)) + 256 * r(3));
        else if (g == 1 || g == 2) {
          put16(s, 2 * next, need);
          if (g == 1)
            put16(s, 2 * next + 1, r(5));
        } else if (g == 3)
          put16(s, 2 * next, (4 * need - 2 - r(std::min(4u, 4 * need - 2 + 1))) + 256 * r(3));
        next += need;
      } else if (g >= 4 && g < 8)
        put16(s, 2 * u, r(65536));
    }
    // slots of preplaced stretchy fields
    for (auto &x : f)
      if (x.kind == 1 && is_stretchy(x.g) && r(2) && next < units) {
        const unsigned su = 1 + cnt + unsigned(x.tok[0].preplaced_offset()) / 4;
        put16(s, 2 * su, next - su);
        const unsigned need = 1 + r(2);
        put16(s, 2 * next, x.g == 0 ? 4 * need - 1 : x.g == 3 ? 4 * need - 2 : need);
        next += need;
      }
    if (r.chance(2, 3)) { // exact size
      s.resize(4 * next, '\0');
      put16(s, 0, next);
    }
    if (r.chance(1, 3))
      s = mutate(s, r);
    return s;
  }

  void images(rng &r, unsigned n) {
    auto weak = t->take_weak_asis();
    const std::string base((const char *)weak.data(), weak.size());
    if (base.size() / 4 > 150)
      return;
    probe_image(base);
    for (unsigned k = 0; k < n; ++k)
      probe_image(r(3) ? mutate(base, r) : synth(r));
    // every truncation of a small one
    if (base.size() <= 40 && r.chance(1, 4))
      for (size_t k = 0; k < base.size(); ++k)
        probe_image(base.substr(0, k));
  }

  void finish(json &j) {
    if (quiet)
      return;
    j.kv("pu", schema->preplaced_units());
    j.kv("mg", managed);
    emit_obs(j, "o", *t, 0);
    emit_stats(j);
    auto weak = t->take_weak_asis();
    emit_holes(j, weak.data(), weak.size());
    if (emit_w && weak.size() / 4 <= wlimit)
      emit_image(j, "w", weak.data(), weak.size());
    else {
      j.key("w");
      j.raw("[]");
    }
    if (emit_it) {
      const bool post = events & 1;
      emit_walk(j, "if", "ib", t->cbegin(), t->cend(), post);
      emit_walk(j, "lf", "lb", t->cbegin_loose(), t->cend_loose(), post);
      emit_jumps(j, "lj", "lo", t->cbegin_loose(), t->cend_loose());
      emit_walk(j, "rf", "rb", weak.cbegin(schema.get()), weak.cend(schema.get()), !post);
    }
    flush(j);
  }

  struct ctx {
    json j;
    explicit ctx(const char *e, long t = 0, long n = 0, long m = 0) {
      j.open('{');
      j.str("e", e);
      j.kv("t", t);
      j.kv("n", n);
      j.kv("m", m);
    }
  };

  template <typename FN> void run(ctx &c, const std::string &v, FN &&fn) {
    c.j.key("v");
    emit_value(c.j, v);
    const char *r = "ok";
    long k = 0;
    try {
      k = fn();
    } catch (...) {
      r = classify_current();
    }
    c.j.str("r", r);
    c.j.kv("k", k);
    finish(c.j);
  }

  dynamic_collection_iterator_rw nth(unsigned ti, unsigned n) {
    auto col = t->collection(T(ti));
    auto it = col.begin();
    const auto e = col.end();
    for (unsigned i = 0; i < n && it != e; ++i)
      ++it;
    return it;
  }

  // NaN is not a value for loose floats, since the library is built with
  // -ffast-math
  unsigned cls(const field &x, long c) {
    return (c == 1 && x.kind != 1 && (x.g == 10 || x.g == 14)) ? 3 : unsigned(c);
  }

  // ---------------------------------------------------------------- commands
  bool exec(const std::vector<long> &a, const std::string &op) {
    auto A = [&](size_t i) { return i < a.size() ? a[i] : 0l; };
    const unsigned ti = unsigned(A(0));
    if (op == "clear") {
      clear();
      return true;
    }
    if (op == "F") {
      define(int(A(0)), int(A(1)), A(2) != 0, int(A(3)));
      return true;
    }
    if (op == "wlimit") {
      wlimit = unsigned(A(0));
      return true;
    }
    if (op == "it") {
      emit_it = A(0) != 0;
      return true;
    }
    if (op == "quiet") {
      quiet = A(0) != 0;
      return true;
    }
    if (op == "B") { // seed number
      rng r((uint64_t)A(0));
      images(r, unsigned(A(1)));
      return true;
    }
    if (op == "W") { // bytes halves...
      std::string s;
      for (size_t i = 1; i < a.size(); ++i) {
        s.push_back(char(a[i] & 255));
        s.push_back(char(a[i] >> 8));
      }
      s.resize(size_t(A(0)), char(0));
      probe_image(s);
      return true;
    }
    if (op == "N") { // items bytes managed
      t.reset();
      managed = A(2) != 0;
      ctx c("new", 0, A(0), A(1));
      emit_cfg(c.j);
      if (managed)
        t.reset(new tuple_rw_managed(size_t(A(0)), size_t(A(1)), schema.get()));
      else
        t.reset(new tuple_rw_fixed(size_t(A(0)), size_t(A(1)), schema.get()));
      if (quiet) {
        json j;
        j.open('{');
        j.str("e", "cfg");
        emit_cfg(j);
        j.kv("pu", schema->preplaced_units());
        flush(j);
      }
      run(c, "", [&] { return 0; });
      return true;
    }
    if (!t || (op != "Z" && op != "O" && op != "L" && op != "T" && ti >= f.size() * 2)) {
      fprintf(stderr, "harness: bad script op %s\n", op.c_str());
      exit(3);
    }
    if (op == "S") { // token class via
      const auto &x = F(ti);
      const std::string v = make_value(x.g, cls(x, A(1)));
      ctx c("set", ti + 1, A(2), 0);
      run(c, v, [&] {
        if (A(2) && !managed)
          set_value_acc((*t)[T(ti)], x.g, v);
        else if (managed)
          set_value(m(), T(ti), x.g, v);
        else
          set_value(*t, T(ti), x.g, v);
        return 0;
      });
    } else if (op == "I") {
      const auto &x = F(ti);
      const std::string v = make_value(x.g, cls(x, A(1)));
      ctx c("ins", ti + 1);
      run(c, v, [&] {
        if (managed)
          insert_value(m(), T(ti), x.g, v);
        else
          insert_value(*t, T(ti), x.g, v);
        return 0;
      });
    } else if (op == "E") {
      ctx c("era", ti + 1);
      run(c, "", [&] { return t->erase(T(ti)) ? 1 : 0; });
    } else if (op == "X") { // erase n-th item
      ctx c("erx", ti + 1, A(1));
      run(c, "", [&] { return t->erase(nth(ti, unsigned(A(1)))) ? 1 : 0; });
    } else if (op == "R") { // erase a range of items
      ctx c("err", ti + 1, A(1), A(2));
      run(c, "", [&] {
        auto from = nth(ti, unsigned(A(1)));
        auto to = nth(ti, unsigned(std::max(A(1), A(2))));
        return long(t->erase(from, to));
      });
    } else if (op == "A") {
      ctx c("erc", ti + 1);
      run(c, "", [&] { return long(t->erase(t->collection(T(ti)))); });
    } else if (op == "U") { // update n-th item
      const auto &x = F(ti);
      const std::string v = make_value(x.g, cls(x, A(2)));
      ctx c("upd", ti + 1, A(1));
      run(c, v, [&] {
        auto it = nth(ti, unsigned(A(1)));
        if (it == t->collection(T(ti)).end())
          return 0;
        set_value_acc(*it, x.g, v);
        return 1;
      });
    } else if (op == "Z") {
      ctx c("rst");
      run(c, "", [&] {
        t->reset();
        return 0;
      });
    } else if (op == "O") { // 0 all, 1 compactify, 2 sort, 3 forced sort, 4 take_weak_optimized, 5 take_weak, 6 compact+force
      ctx c("opt", 0, A(0));
      run(c, "", [&] {
        using of = details::tuple_rw::optimize_flags;
        switch (A(0)) {
        case 0:
          t->optimize();
          break;
        case 1:
          t->compactify();
          break;
        case 2:
          t->sort_index();
          break;
        case 3:
          t->sort_index(true);
          break;
        case 4:
          t->take_weak_optimized();
          break;
        case 5:
          t->take_weak();
          break;
        case 6:
          t->optimize(of::compactify | of::enforce_sort_index);
          break;
        }
        return 0;
      });
    } else if (op == "L") { // how more_items more_bytes : replace the tuple by its reloaded copy
      ctx c("rel", 0, A(0), A(1));
      c.j.kv("mb", A(2));
      run(c, "", [&] {
        const size_t mi = size_t(A(1)), mb = size_t(A(2));
        auto weak = t->take_weak_asis();
        std::unique_ptr<tuple_rw_fixed> n;
        auto put = [&](tuple_rw_fixed &&r) {
          if (managed)
            n.reset(new tuple_rw_managed(std::move(r)));
          else
            n.reset(new tuple_rw_fixed(std::move(r)));
        };
        switch (A(0)) {
        case 0: {
          heap_copy h(std::string((const char *)weak.data(), weak.size()));
          put(tuple_rw_fixed(h.p, h.n, mi, mb, schema.get()));
          break;
        }
        case 1:
          put(tuple_rw_fixed::clone(weak, mi, mb, schema.get()));
          break;
        case 2:
          put(tuple_rw_fixed::clone(*t, mi, mb));
          break;
        case 3: {
          tuple_ro_managed ro = t->move_to_ro(A(1) & 1);
          put(tuple_rw_fixed(std::move(ro)));
          break;
        }
        case 4: {
          tuple_ro_managed ro = t->take_managed_clone_asis();
          put(tuple_rw_fixed::clone(ro, mi, mb, schema.get()));
          break;
        }
        case 5: {
          tuple_ro_managed ro = tuple_ro_managed::clone(*t);
          put(tuple_rw_fixed(std::move(ro)));
          break;
        }
        }
        t = std::move(n);
        return 0;
      });
    } else if (op == "T") { // observe through a read-only form
      ctx c("tak", 0, A(0));
      c.j.key("v");
      c.j.raw("[]");
      const char *r = "ok";
      size_t mark = c.j.b.size();
      try {
        switch (A(0)) {
        case 0: {
          auto w = t->take_weak_asis();
          emit_obs(c.j, "o2", w, 0);
          emit_image(c.j, "w2", w.data(), w.size() / 4 <= wlimit ? w.size() : 0);
          break;
        }
        case 1: {
          auto w = t->take_weak_asis();
          heap_copy h(std::string((const char *)w.data(), w.size()));
          tuple_ro_weak x(h.p, h.n, schema.get());
          emit_obs(c.j, "o2", x, 1);
          emit_image(c.j, "w2", x.data(), x.size() / 4 <= wlimit ? x.size() : 0);
          break;
        }
        case 2: {
          auto x = t->take_managed_clone_asis();
          emit_obs(c.j, "o2", x, 0);
          emit_image(c.j, "w2", x.data(), x.size() / 4 <= wlimit ? x.size() : 0);
          break;
        }
        case 3: {
          auto x = t->take_managed_clone_optimized().first;
          emit_obs(c.j, "o2", x, 1);
          emit_image(c.j, "w2", x.data(), x.size() / 4 <= wlimit ? x.size() : 0);
          break;
        }
        case 4: { // copy at an odd-unit address inside a larger block
          auto w = t->take_weak_asis();
          std::string pad(4 * (1 + size_t(A(1)) % 15), 'Z');
          heap_copy h(pad + std::string((const char *)w.data(), w.size()));
          tuple_ro_weak x(h.p + pad.size(), w.size(), schema.get());
          emit_obs(c.j, "o2", x, 0);
          emit_image(c.j, "w2", x.data(), x.size() / 4 <= wlimit ? x.size() : 0);
          break;
        }
        default: { // through the C++ accessor of the writable form
          emit_obs(c.j, "o2", *t, 1);
          emit_image(c.j, "w2", nullptr, 0);
          break;
        }
        }
      } catch (...) {
        c.j.b.resize(mark);
        r = classify_current();
        c.j.key("o2");
        c.j.raw("[]");
        emit_image(c.j, "w2", nullptr, 0);
      }
      c.j.str("r", r);
      c.j.kv("k", 0);
      finish(c.j);
    } else if (op == "M") { // misuse: token kind arg
      const auto &x = F(ti);
      ctx c("mis", ti + 1, A(1), A(2));
      std::string v;
      int wg = 0;
      if (A(1) == 0 || A(1) == 4) { // wrong type
        wg = int(A(2));
        v = make_value(wg, 5);
      } else if (A(1) == 1)
        v = make_value(x.g, cls(x, A(2)));
      else if (A(1) == 3)
        v = std::string();
      c.j.kv("wg", wg);
      run(c, v, [&] {
        switch (A(1)) {
        case 0: // set/insert of another type
          if (x.kind == 2)
            managed ? (void)insert_value(m(), T(ti), wg, v) : (void)insert_value(*t, T(ti), wg, v);
          else
            managed ? set_value(m(), T(ti), wg, v) : set_value(*t, T(ti), wg, v);
          break;
        case 1: // single-field write to a collection or insert into a single field
          if (x.kind == 2)
            managed ? set_value(m(), T(ti), x.g, v) : set_value(*t, T(ti), x.g, v);
          else
            managed ? (void)insert_value(m(), T(ti), x.g, v) : (void)insert_value(*t, T(ti), x.g, v);
          break;
        case 2: // read of a collection as a single field, iteration of a single one
          if (x.kind == 2)
            get_value(*t, T(ti), x.g);
          else
            t->collection(T(ti));
          break;
        case 3: { // too long value
          const size_t len = size_t(A(2));
          std::string big(len, 'x');
          if (x.g == TEXT)
            x.kind == 2 ? (void)t->insert_string(T(ti), string_view(big.data(), len))
                        : t->set_string(T(ti), string_view(big.data(), len));
          else if (x.g == VARBIN)
            x.kind == 2 ? (void)t->insert_varbinary(T(ti), string_view(big.data(), len))
                        : t->set_varbinary(T(ti), string_view(big.data(), len));
          else if (x.g == PROPERTY)
            x.kind == 2 ? (void)t->insert_property(T(ti), property_pair(string_view(big.data(), len), 3))
                        : t->set_property(T(ti), property_pair(string_view(big.data(), len), 3));
          break;
        }
        case 4: // read of another type
          if (x.kind == 2) {
            for (auto it : t->collection(T(ti)))
              get_value_acc(it, wg);
          } else
            get_value(*t, T(ti), wg);
          break;
        }
        return 0;
      });
    } else {
      fprintf(stderr, "harness: unknown op %s\n", op.c_str());
      exit(3);
    }
    return true;
  }
};

static void line(world &w, FILE *script, const std::string &op, std::vector<long> a) {
  if (script) {
    fputs(op.c_str(), script);
    for (long x : a)
      fprintf(script, " %ld", x);
    fputc('\n', script);
    fflush(script);
  }
  w.exec(a, op);
}

// ------------------------------------------------------------------- random
struct profile {
  int maxfields = 4;
  int wp = 3, wl = 4, wc = 2; // weights of preplaced, loose, collections
  int stretchy = 60;          // percent of stretchy fields
  int small = 70;             // percent of short values
  int op_set = 40, op_ins = 18, op_era = 12, op_item = 8, op_upd = 6, op_opt = 5, op_rel = 3,
      op_take = 4, op_mis = 3, op_rst = 1, op_zero = 6;
  int managed = 0; // percent
  int tight = 60;  // percent of histories with a tight capacity
  int it = 0;
  int biglen = 0; // percent of histories with huge values
  int audit = 0;  // record images only
};

static unsigned pick_class(rng &r, const profile &p, int g, bool big) {
  if (is_stretchy(g)) {
    if (g == NESTED)
      return r(32);
    if (big && r.chance(1, 6)) {
      if (g == PROPERTY)
        return 1000000 + r(256);
      static const unsigned B[] = {65535, 65536, 65534, 8000, 8188, 8189, 16000, 40000, 131325, 131324, 131000, 2044 * 4, 2046 * 4, 2047 * 4, 2048 * 4, 2043 * 4};
      return 1000000 + B[r(16)] - (r.chance(1, 4) ? r(9) : 0);
    }
    unsigned c = r.chance(unsigned(p.small), 100) ? r(20) : r(64);
    return c + 64 * r(5);
  }
  return r.chance(1, 6) ? r(3) : 3 + r(40);
}

// a length, which takes about all of the free space, of the junk, or of what
// the format allows
static long fitting_class(rng &r, world &w, int g, bool managed, long cls) {
  const long tail = long(w.t->tail_space_units()), head = long(w.t->head_space());
  const long junk = long(w.t->junk_units());
  long units;
  switch (r(managed ? 6 : 4)) {
  case 0:
    units = tail;
    break;
  case 1:
  case 2:
    units = tail + head;
    break;
  case 3:
    units = r(2) ? junk : tail + junk;
    break;
  default:
    units = (239000 - long(w.t->netto_size())) / 4 - long(r(r(2) ? 20000 : 200));
    break;
  }
  units -= long(r(4)) - 1;
  long bytes = 4 * units - (g == TEXT ? 1 : g == PROPERTY ? 3 : 4) - long(r(4));
  if (g == PROPERTY && bytes > 255)
    return cls;
  if (bytes < 0)
    return cls;
  const long top = g == TEXT ? 131325 : 262132;
  return 1000000 + std::min(bytes, top);
}

static void random_history(world &w, FILE *sc, rng &r, const profile &p, unsigned ops) {
  line(w, sc, "clear", {});
  line(w, sc, "it", {p.it});
  line(w, sc, "quiet", {p.audit});
  const unsigned nf = 2 + r(unsigned(p.maxfields - 1));
  const auto &G = all_genera();
  bool any = false;
  for (unsigned i = 0; i < nf; ++i) {
    unsigned k = r(unsigned(p.wp + p.wl + p.wc));
    int kind = k < unsigned(p.wp) ? 1 : k < unsigned(p.wp + p.wl) ? 0 : 2;
    int g = r.chance(unsigned(p.stretchy), 100) ? int(r(4)) : G[4 + r(unsigned(G.size() - 4))];
    while (p.audit && (g == 10 || g == 14 || g == 15))
      g = G[r(unsigned(G.size()))];
    if (r.chance(1, 4) && i) { // repeat a genus
      g = w.f[r(unsigned(w.f.size()))].g;
    }
    line(w, sc, "F", {kind, g, r(2), kind == 1 && !is_stretchy(g) && r.chance(1, 2) ? long(r(30)) : -1});
    any = true;
  }
  (void)any;
  const bool managed = r.chance(unsigned(p.managed), 100);
  const bool big = r.chance(unsigned(p.biglen), 100);
  long items, bytes;
  if (big) {
    items = 4 + r(12);
    bytes = long(20000 + r(220000));
    line(w, sc, "wlimit", {0});
  } else {
    line(w, sc, "wlimit", {420});
    if (r.chance(unsigned(p.tight), 100)) {
      items = long(r(7));
      bytes = long(4 * r(40));
    } else {
      items = long(4 + r(20));
      bytes = long(100 + r(1200));
    }
  }
  line(w, sc, "N", {items, bytes, managed});
  const unsigned nt = unsigned(w.f.size() * 2);
  for (unsigned n = 0; n < ops; ++n) {
    if (p.audit && n % 4 == 3)
      line(w, sc, "B", {long(r(1000000000)), 16});
    unsigned total = unsigned(p.op_set + p.op_ins + p.op_era + p.op_item + p.op_upd + p.op_opt +
                              p.op_rel + p.op_take + p.op_mis + p.op_rst + p.op_zero);
    unsigned x = r(total);
    unsigned ti = r(nt);
    const auto &F = w.F(ti);
    auto in = [&](int weight) {
      if (x < unsigned(weight))
        return true;
      x -= unsigned(weight);
      return false;
    };
    long cls = long(pick_class(r, p, F.g, big));
    if (is_stretchy(F.g) && F.g != NESTED && r.chance(1, big ? 3 : 5))
      cls = fitting_class(r, w, F.g, managed, cls);
    if (in(p.op_set) || (F.kind != 2 && in(p.op_ins))) {
      if (F.kind == 2)
        line(w, sc, "I", {long(ti), cls});
      else
        line(w, sc, "S", {long(ti), cls, r(2)});
    } else if (F.kind == 2 && in(p.op_ins)) {
      line(w, sc, "I", {long(ti), cls});
    } else if (in(p.op_zero)) {
      if (F.kind == 2)
        line(w, sc, "I", {long(ti), 0});
      else
        line(w, sc, "S", {long(ti), long(is_stretchy(F.g) ? 0 : r(3)), r(2)});
    } else if (in(p.op_era)) {
      line(w, sc, "E", {long(ti)});
    } else if (in(p.op_item)) {
      if (F.kind == 2) {
        unsigned y = r(6);
        if (y < 4)
          line(w, sc, "X", {long(ti), long(r(5))});
        else if (y == 4) {
          unsigned a = r(4);
          line(w, sc, "R", {long(ti), long(a), long(a + r(4))});
        } else
          line(w, sc, "A", {long(ti)});
      } else
        line(w, sc, "E", {long(ti)});
    } else if (in(p.op_upd)) {
      if (F.kind == 2)
        line(w, sc, "U", {long(ti), long(r(5)), cls});
      else
        line(w, sc, "S", {long(ti), cls, 0});
    } else if (in(p.op_opt)) {
      line(w, sc, "O", {long(r(7))});
    } else if (in(p.op_rel)) {
      line(w, sc, "L", {long(r(6)), long(r(4)), long(r(60))});
    } else if (in(p.op_take)) {
      line(w, sc, "T", {long(r(6)), long(r(16))});
    } else if (in(p.op_mis)) {
      unsigned k = r(5);
      long arg = 0;
      if (k == 0 || k == 4) {
        int g;
        do
          g = G[r(unsigned(G.size()))];
        while (g == F.g || (g == 11 && F.g == 16) || (g == 16 && F.g == 11));
        arg = g;
      } else if (k == 1)
        arg = cls;
      else if (k == 3) {
        if (F.g == TEXT)
          arg = 131326 + long(r(3) * r(100000));
        else if (F.g == VARBIN)
          arg = 262133 + long(r(3) * r(100000));
        else if (F.g == PROPERTY)
          arg = 256 + long(r(3) * r(1000));
        else
          k = 2;
      }
      line(w, sc, "M", {long(ti), long(k), arg});
    } else {
      line(w, sc, "Z", {});
    }
  }
}

static profile make_profile(const std::string &n) {
  profile p;
  if (n == "mixed") {
  } else if (n == "stretchy") {
    p.stretchy = 92;
    p.wc = 3;
    p.tight = 50;
  } else if (n == "fixed") {
    p.stretchy = 8;
  } else if (n == "tight") {
    p.tight = 100;
    p.stretchy = 75;
    p.maxfields = 4;
  } else if (n == "coll") {
    p.wc = 6;
    p.wl = 2;
    p.wp = 1;
    p.op_ins = 40;
    p.op_item = 26;
    p.op_upd = 14;
    p.tight = 30;
  } else if (n == "null") {
    p.op_zero = 40;
    p.op_era = 20;
    p.wp = 4;
    p.wl = 4;
    p.wc = 1;
    p.stretchy = 35;
    p.maxfields = 5;
  } else if (n == "opt") {
    p.op_opt = 30;
    p.op_era = 20;
    p.stretchy = 70;
  } else if (n == "wire") {
    p.op_rel = 18;
    p.op_take = 22;
  } else if (n == "misuse") {
    p.op_mis = 45;
  } else if (n == "init") {
    p.op_rst = 14;
    p.wp = 8;
    p.wl = 2;
    p.wc = 1;
    p.stretchy = 30;
    p.maxfields = 6;
  } else if (n == "iter") {
    p.it = 1;
    p.maxfields = 5;
    p.op_opt = 4;
  } else if (n == "wide") {
    p.it = 1;
    p.maxfields = 14;
    p.tight = 20;
  } else if (n == "managed") {
    p.managed = 100;
    p.tight = 90;
  } else if (n == "nested") {
    p.stretchy = 100;
  } else if (n == "audit") {
    p.audit = 1;
    p.maxfields = 4;
    p.small = 90;
  } else if (n == "big") {
    p.biglen = 100;
    p.stretchy = 85;
  } else if (n == "bigmanaged") {
    p.biglen = 100;
    p.stretchy = 85;
    p.managed = 100;
  } else {
    fprintf(stderr, "harness: unknown profile %s\n", n.c_str());
    exit(3);
  }
  return p;
}

int main(int argc, char **argv) {
  world w;
  w.emit_w = !getenv("VH_NOW");
  if (argc == 4 && !strcmp(argv[1], "script")) {
    FILE *in = fopen(argv[2], "r");
    w.out = fopen(argv[3], "w");
    if (!in || !w.out)
      return 3;
    char buf[4096];
    while (fgets(buf, sizeof buf, in)) {
      std::vector<long> a;
      char *save;
      char *p = strtok_r(buf, " \n", &save);
      if (!p || *p == '#')
        continue;
      std::string op = p;
      while ((p = strtok_r(nullptr, " \n", &save)))
        a.push_back(atol(p));
      w.exec(a, op);
    }
    fclose(w.out);
    return 0;
  }
  if (argc == 8 && !strcmp(argv[1], "random")) {
    profile p = make_profile(argv[2]);
    const uint64_t seed = strtoull(argv[3], nullptr, 10);
    const unsigned hist = unsigned(atoi(argv[4])), ops = unsigned(atoi(argv[5]));
    w.out = fopen(argv[6], "w");
    FILE *sc = fopen(argv[7], "w");
    if (!w.out || !sc)
      return 3;
    rng r(seed);
    const bool nested = !strcmp(argv[2], "nested");
    (void)nested;
    for (unsigned i = 0; i < hist; ++i)
      random_history(w, sc, r, p, ops);
    fclose(w.out);
    fclose(sc);
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 3;
}
