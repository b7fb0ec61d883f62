// Conformance driver of schemas.
//   drv_schema random SEED HISTORIES OPS OUT.ndjson
//   drv_schema script IN OUT.ndjson
// Script: "H" starts a schema, "D op k g x c d s ren NAME" defines, where NAME
// is hex digits prefixed by 'n', and "L" looks everything up.
#include "vh.h"
using namespace vh;
using fptu::schema;
using fptu::token;
namespace fd = fptu::details;

static FILE *out;
static rng *rp;
static std::unique_ptr<schema> sch;
static std::vector<std::string> known; // names defined or attempted
static void put(json &j) {
  j.close('}');
  j.b += '\n';
  fwrite(j.b.data(), 1, j.b.size(), out);
}

static void bytes(json &j, const char *k, const std::string &v) {
  j.key(k);
  j.open('[');
  for (unsigned char c : v)
    j.item(c);
  j.close(']');
}
static void tok_body(json &j, const token &t) {
  if (!t.is_valid()) {
    j.b += "[]";
    return;
  }
  j.b += '{';
  j.kv("k", t.is_preplaced());
  j.kv("g", int(t.type()));
  j.kv("x", t.is_preplaced() ? (long long)t.preplaced_offset() : (long long)t.id());
  j.kv("c", t.is_collection());
  j.kv("d", t.is_discernible_null());
  j.kv("s", t.is_saturated());
  j.kv("z", t.is_preplaced() ? (long long)t.preplaced_size() : 0);
  j.close('}');
}
static void tok(json &j, const char *k, const token &t) {
  j.key(k);
  tok_body(j, t);
}

struct req {
  std::string op = "pre", name, init;
  int k = 1, g = 0, x = 0, c = 0, d = 0, s = 0, ren = 0, helper = 0, native = 0;
};

struct natives {
  int8_t a;
  fptu::preplaced_string text;
  uint16_t b;
  fptu::preplaced_varbin bin;
  uint32_t c;
  fptu::preplaced_property prop;
  uint8_t d;
  double e;
};
static token native(int n) {
  switch (n) {
  case 1: return token(FPTU_TOKEN(natives, a)());
  case 2: return token(FPTU_TOKEN(natives, text)());
  case 3: return token(FPTU_TOKEN(natives, b)());
  case 4: return token(FPTU_TOKEN(natives, bin)());
  case 5: return token(FPTU_TOKEN(natives, c)());
  case 6: return token(FPTU_TOKEN(natives, prop)());
  case 7: return token(FPTU_TOKEN(natives, d)());
  default: return token(FPTU_TOKEN(natives, e)());
  }
}

static bool define(const req &q) {
  json j;
  j.open('{');
  j.str("e", "def");
  std::string name = q.name, r = "ok";
  known.push_back(name);
  const fptu::genus g = fptu::genus(q.g);
  // exactly as many bytes as the value has
  std::unique_ptr<char[]> init;
  if (!q.init.empty()) {
    init.reset(new char[q.init.size()]);
    memcpy(init.get(), q.init.data(), q.init.size());
  }
  token imported, t;
  int k = q.k, gg = q.g, x = q.x, c = q.c, d = q.d, s = q.s, z = 0;
  if (q.op == "import") {
    imported = q.native ? native(q.native)
               : k      ? token(ptrdiff_t(q.x), g, d != 0, s != 0)
                        : token(g, unsigned(q.x), c != 0, d != 0, s != 0);
    k = imported.is_preplaced(), gg = int(imported.type()), c = imported.is_collection();
    d = imported.is_discernible_null(), s = imported.is_saturated();
    x = k ? int(imported.preplaced_offset()) : int(imported.id());
    z = k ? int(imported.preplaced_size()) : 0;
  }
  try {
    if (q.op == "void")
      t = sch->import_definition(std::move(name), token(), nullptr, q.ren != 0);
    else if (q.op == "import")
      t = sch->import_definition(std::move(name), imported, init.get(), q.ren != 0);
    else if (q.op == "pre")
      t = q.helper ? sch->define_field(true, std::move(name), g, d != 0, s != 0)
                   : sch->define_preplaced(std::move(name), g, d != 0, s != 0, init.get());
    else if (!q.helper)
      t = sch->define_loose(std::move(name), g, c != 0, d != 0, s != 0);
    else if (c)
      t = sch->define_collection(std::move(name), g, d != 0, s != 0);
    else
      t = sch->define_field(false, std::move(name), g, d != 0, s != 0);
  } catch (...) {
    r = classify_current();
  }
  j.key("q");
  j.b += '{';
  j.str("op", q.op);
  bytes(j, "n", q.name);
  bytes(j, "v", q.op == "pre" && q.helper ? "" : q.init);
  j.kv("ren", q.ren);
  j.key("t");
  j.b += '{';
  j.kv("k", k), j.kv("g", gg), j.kv("x", x), j.kv("c", c), j.kv("d", d), j.kv("s", s), j.kv("z", z);
  j.b += "}}";
  j.str("r", r);
  if (r == "ok")
    tok(j, "t", t);
  put(j);
  return r == "ok";
}

static void all() {
  json j;
  j.open('{');
  j.str("e", "all");
  j.key("ts");
  j.open('[');
  for (const auto &t : sch->tokens()) {
    j.sep();
    tok_body(j, t);
  }
  j.close(']');
  j.kv("bytes", (long long)sch->preplaced_bytes());
  j.kv("units", (long long)sch->preplaced_units());
  j.kv("np", (long long)sch->number_of_preplaced());
  j.kv("ns", (long long)sch->number_of_stretchy_preplaced());
  j.kv("have", sch->have_preplaced());
  const char *p = (const char *)sch->preplaced_init_image();
  if (sch->preplaced_bytes() <= 300)
    bytes(j, "image", std::string(p, sch->preplaced_bytes()));
  else {
    j.key("slices");
    j.open('[');
    for (const auto &t : sch->tokens())
      if (t.is_preplaced()) {
        j.open('{');
        j.kv("x", (long long)t.preplaced_offset());
        bytes(j, "v", std::string(p + t.preplaced_offset(), t.preplaced_size()));
        j.close('}');
      }
    j.close(']');
  }
  put(j);
}

static void get(const std::string &name, int d, int s) {
  json j;
  j.open('{');
  j.str("e", "get");
  bytes(j, "n", name);
  j.kv("d", d), j.kv("s", s);
  using opt = schema::boolean_option;
  std::unique_ptr<char[]> copy(new char[name.size() + 1]);
  memcpy(copy.get(), name.data(), name.size());
  const fptu::string_view v(copy.get(), name.size());
  try {
    token t;
    if (d == 0 && s == 0 && name.size() % 2)
      t = (*sch)[name];
    else if (d == 0 && s == 0 && name.size() % 3 == 0)
      t = (*sch)[v];
    else
      t = sch->get_token(v, opt(d), opt(s));
    tok(j, "t", t);
    j.str("r", "ok");
  } catch (...) {
    j.str("r", classify_current());
  }
  tok(j, "nt", sch->get_token_nothrow(v, opt(d), opt(s)));
  put(j);
}

static void name_of(const token &t) {
  json j;
  j.open('{');
  j.str("e", "name");
  tok(j, "t", t);
  try {
    const fptu::string_view a = sch->get_name(t), b = (*sch)[t];
    bytes(j, "n", std::string(a.data() ? a.data() : "", a.length()));
    bytes(j, "n2", std::string(b.data() ? b.data() : "", b.length()));
    j.str("r", "ok");
  } catch (...) {
    j.str("r", classify_current());
  }
  j.kv("nil", sch->get_name_nothrow(t).nil());
  put(j);
}

static void offset(long o) {
  json j;
  j.open('{');
  j.str("e", "off");
  j.kv("o", o);
  tok(j, "by", sch->by_offset(o));
  tok(j, "next", sch->next_by_offset(o));
  tok(j, "prev", sch->prev_by_offset(o));
  put(j);
}

static void loose(int g, int x) {
  json j;
  j.open('{');
  j.str("e", "loose");
  j.kv("g", g), j.kv("x", x);
  uint32_t mem = 0;
  auto f = (fd::field_loose *)&mem;
  f->genus_and_id = uint16_t(g << 11 | x);
  tok(j, "by", sch->by_loose(f));
  put(j);
}

// looks up everything (of a small schema) or some of it
static void lookups(unsigned limit) {
  rng &r = *rp;
  all();
  const auto &ts = sch->tokens();
  for (unsigned n = 0; n < limit && n < known.size(); ++n) {
    const std::string &k = known[known.size() <= limit ? n : r(known.size())];
    get(k, r(3), r(3));
    if (r(4) == 0) {
      std::string near = k;
      switch (r(4)) {
      case 0: near += '\0'; break;
      case 1: if (!near.empty()) near.pop_back(); break;
      case 2: if (!near.empty()) near[r(near.size())] ^= 0x20; break;
      default: near.insert(near.begin(), 'A'); break;
      }
      get(near, 0, 0);
    }
  }
  for (unsigned n = 0; n < limit && n < ts.size(); ++n) {
    const token t = ts[ts.size() <= limit ? n : r(ts.size())];
    token v = t.is_preplaced() ? token(t.preplaced_offset(), t.type(), r(2) != 0, r(2) != 0)
                               : token(t.type(), t.id(), r(2) != 0, r(2) != 0, r(2) != 0);
    if (t.is_preplaced() && t.preplaced_size() != v.preplaced_size())
      v = t; // of a C++ member
    name_of(v);
    if (r(3) == 0) {
      if (t.is_preplaced())
        name_of(token(ptrdiff_t(r(2) ? t.preplaced_offset() + 1 : t.preplaced_offset()) % 16000, fptu::genus(r(31)), r(2) != 0, false));
      else
        name_of(token(fptu::genus(r(31)), r(2) ? t.id() : r(1024), r(2) != 0, r(2) != 0, false));
    }
    if (!t.is_preplaced())
      loose(int(t.type()), int(t.id()));
  }
  loose(r(31), r(3));
  loose(r(31), r(2) ? 1023 : r(2048));
  const long end = long(sch->preplaced_bytes());
  if (end <= long(2 * limit))
    for (long o = -1; o <= end + 2; ++o)
      offset(o);
  else
    for (unsigned n = 0; n < limit; ++n) {
      long o = long(r(unsigned(end + 4))) - 2;
      if (!ts.empty() && ts[0].is_preplaced() && r(3)) {
        const token &t = ts[r(unsigned(sch->number_of_preplaced()))];
        o = long(t.preplaced_offset()) + (r(3) ? long(r(3)) - 1 : long(t.preplaced_size()));
      }
      offset(o);
    }
}

static std::string some_name() {
  rng &r = *rp;
  if (!known.empty() && r(8) == 0)
    return known[r(unsigned(known.size()))];
  static const unsigned lens[] = {0, 1, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 41, 42, 42, 43, 44, 100};
  std::string s(lens[r(sizeof(lens) / sizeof(*lens))], 'a');
  for (auto &c : s)
    c = r(4) ? "ab\0A"[r(4)] : char(r(256));
  return s;
}

static req random_req(int bias) {
  rng &r = *rp;
  req q;
  q.name = some_name();
  q.d = r(2), q.s = r(4) == 0;
  const unsigned kind = bias == 1 ? r(4) : bias == 2 ? 4 + r(4) : r(12);
  if (kind < 4) {
    q.op = "pre", q.k = 1;
    q.helper = r(3) == 0;
  } else if (kind < 8) {
    q.op = "loose", q.k = 0, q.c = r(2);
    q.helper = r(2);
  } else {
    q.op = "import", q.k = r(2), q.ren = r(3) == 0;
    if (q.k && !q.ren && r(4) == 0)
      q.native = 1 + r(8);
  }
  q.g = r(6) ? int(r(31)) : int(r(8));
  if (kind >= 8 && r(12) == 0) {
    q.op = "void", q.native = 0, q.k = 0;
    return q;
  }
  if (bias == 2)
    q.g = int(r(3));
  if (q.op == "import" && !q.native) {
    const auto &ts = sch->tokens();
    if (q.k)
      q.x = r(3) ? r(unsigned(sch->preplaced_bytes()) + 12) : r(10) ? r(100) : 16381 - r(20);
    else
      q.x = r(20) ? r(6) : r(5) ? r(1024) : 1020 + r(10);
    if (!ts.empty() && r(5) == 0) {
      const token &t = ts[r(unsigned(ts.size()))];
      q.k = t.is_preplaced(), q.g = int(t.type()), q.x = q.k ? int(t.preplaced_offset()) : int(t.id());
    }
    if (q.k)
      q.c = 0, q.x = q.x > 16381 ? 16381 : q.x;
    else
      q.c = r(2);
  } else if (!q.native && r(20) == 0)
    q.g = 31 + int(r(3)) * int(r(40)); // not a type of fields
  if (q.k && !q.native && !q.helper && q.g > 3 && q.g < 31 && r(2)) {
    q.init.resize(fixed_bytes(q.g));
    for (auto &c : q.init)
      c = char(r(256));
  }
  return q;
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 3;
  const std::string m = argv[1];
  rng r(m == "random" ? strtoull(argv[2], 0, 10) : 7);
  rp = &r;
  out = fopen(argv[argc - 1], "w");
  if (!out)
    return 3;
  auto fresh = [&] {
    sch = schema::create();
    known.clear();
    json j;
    j.open('{');
    j.str("e", "new");
    put(j);
  };
  if (m == "random") {
    const unsigned hs = atoi(argv[3]), ops = atoi(argv[4]);
    for (unsigned h = 0; h < hs; ++h) {
      fresh();
      const int bias = int(r(6));
      const unsigned n = bias == 1 && r(4) == 0 ? ops * 4 : 2 + r(ops);
      for (unsigned k = 0; k < n; ++k) {
        if (!define(random_req(bias))) {
          if (r(3))
            all();
        } else if (r(8) == 0)
          lookups(12);
      }
      lookups(24);
    }
  } else if (m == "long") {
    // up to the limits of identifiers and of places
    r = rng(strtoull(argv[2], 0, 10));
    fresh();
    const bool ids = r(2);
    const unsigned total = ids ? 1040 : 600;
    const int g = int(r(31));
    for (unsigned k = 0; k < total; ++k) {
      req q;
      q.name = "f" + std::to_string(k);
      if (ids)
        q.op = "loose", q.k = 0, q.g = g;
      else
        q.g = r(3) ? 25 : int(r(31));
      define(q);
      if (k % 200 == 199)
        lookups(30);
    }
    lookups(60);
  } else {
    FILE *in = fopen(argv[2], "r");
    if (!in)
      return 3;
    char op[16], nm[128];
    char line[512];
    bool any = false;
    while (fgets(line, sizeof line, in)) {
      if (line[0] == 'H') {
        if (any)
          lookups(12);
        fresh();
        any = true;
      } else if (line[0] == 'D') {
        req q;
        if (sscanf(line, "D %15s %d %d %d %d %d %d %d %127s", op, &q.k, &q.g, &q.x, &q.c, &q.d, &q.s, &q.ren, nm) != 9)
          return 3;
        q.op = op;
        for (const char *p = nm + 1; *p && p[1]; p += 2) {
          unsigned c;
          sscanf(p, "%2x", &c);
          q.name += char(c);
        }
        if (!define(q))
          all();
      }
    }
    if (any)
      lookups(12);
    fclose(in);
  }
  fclose(out);
  return 0;
}
