// Conformance driver of managed tuples: handles, sharing and release of
// buffers.
//   drv_handles random SEED HISTORIES OPS OUT.ndjson
//   drv_handles script IN OUT.ndjson      lines: "B" or "op a b"
#include "vh.h"
#include <set>
using namespace vh;
using namespace fptu;

// ------------------------------------------------- an allocator which counts
static std::map<const void *, int> ids; // live buffers
static int next_id = 1, allocated = 0, twice = 0;
static std::set<const void *> gone;
static hippeus_buffer_t *my_borrow(hippeus_allot_t *self, std::size_t wanna, bool, hippeus_actor_t);
static void my_repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  auto it = ids.find(b);
  if (it == ids.end()) {
    ++twice;
    return;
  }
  ids.erase(it);
  free(b); // ASan notices every access since that
}
static bool my_validate(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t my_allot = {4096, 0, my_borrow, my_repay, my_validate};
static hippeus_buffer_t *my_borrow(hippeus_allot_t *self, std::size_t wanna, bool, hippeus_actor_t) {
  const size_t gross = (wanna + hippeus::buffer_solid::space_overhead() + 7) / 8 * 8;
  void *p = malloc(gross);
  memset(p, 0xCD, gross);
  auto b = new (p) hippeus::buffer_solid(hippeus::buffer_tag(self, false), gross);
  ids[b] = next_id++;
  ++allocated;
  return b;
}

// ------------------------------------------------------------------ contents
static const token tv(genus::i32, 0, false, false, false), tf(genus::text, 1, false, false, false),
    tn(genus::nested, 2, false, false, false);
static std::unique_ptr<schema> shared_schema;
static const schema *use_schema;
static std::unique_ptr<schema> twin_schema, alien_schema; // the same fields, other ones
static unsigned steps;

static FILE *out;
static tuple_ro_managed R[3];
static tuple_rw_fixed W0((std::size_t)4, 64, nullptr);
static tuple_rw_managed W1((std::size_t)1, 8, nullptr), W2((std::size_t)1, 8, nullptr);
static tuple_rw_fixed &W(int i) { return i == 0 ? W0 : i == 1 ? (tuple_rw_fixed &)W1 : (tuple_rw_fixed &)W2; }

static int filler(const string_view &s) {
  for (size_t k = 0; k < s.length(); ++k)
    if (s.data()[k] != char('a' + s.length() % 26))
      return -1;
  return int(s.length());
}
static void contents(json &j, const tuple_ro_weak &t) {
  j.open('[');
  for (tuple_ro_weak w = t; w;) {
    j.open('[');
    j.item(w.get_i32(tv));
    j.item(w.validate(nullptr) ? -2 : filler(w.get_string(tf)));
    j.close(']');
    w = w.get_nested_weak(tn);
  }
  j.close(']');
}

static int id_of(const hippeus::buffer *b) {
  if (!b)
    return 0;
  auto it = ids.find(b);
  return it == ids.end() ? -1 : it->second;
}

static void put(json &j) {
  j.close('}');
  j.b += '\n';
  fwrite(j.b.data(), 1, j.b.size(), out);
}
static void live(json &j) {
  j.key("live");
  j.open('[');
  for (auto &x : ids)
    j.item(x.second);
  j.close(']');
  j.kv("twice", twice);
}

static std::vector<std::unique_ptr<std::string>> keep;

static bool bare(const tuple_ro_weak &t) { return !t.is_present(tv) && !t.is_present(tf) && !t.is_present(tn); }
static bool enabled(const std::string &o, int a, int b) {
  if (o == "write" || o == "fill" || o == "drop" || o == "reset" || o == "opt")
    return bool(W(a));
  if (o == "put")
    return W(a) && R[b] && !bare(R[b].take_weak());
  if (o == "putw")
    return a != b && W(a) && W(b) && !bare(W(b).take_weak_asis());
  if (o == "movec" || o == "movea" || o == "swap" || o == "wmovec" || o == "wmovea" || o == "wswap")
    return a != b;
  if (o == "w2ro" || o == "take" || o == "takeopt" || o == "ext" || o == "roclonew" || o == "nestw")
    return bool(W(b));
  if (o == "nest" || o == "nest2")
    return bool(R[b]);
  return true;
}

// the calls for the growing tuples are their own
#define ON(A, CALL) (A == 0 ? (void)(W0.CALL) : A == 1 ? (void)(W1.CALL) : (void)(W2.CALL))

static void act(const std::string &o, int a, int b) {
  if (o == "new") {
    if (a == 0)
      W0 = tuple_rw_fixed(std::size_t(b % 2 ? 8 : 4), b % 2 ? 700 : 64, use_schema);
    else
      (a == 1 ? W1 : W2) = tuple_rw_managed(std::size_t(1), 8, use_schema);
  } else if (o == "write")
    ON(a, set_i32(tv, b));
  else if (o == "fill") {
    const std::string s(b, char('a' + b % 26));
    ON(a, set_string(tf, string_view(s)));
  } else if (o == "put") {
    const tuple_ro_weak w = R[b].take_weak();
    ON(a, set_nested(tn, w));
  } else if (o == "putw") {
    const tuple_ro_weak w = W(b).take_weak_asis();
    ON(a, set_nested(tn, w));
  } else if (o == "drop")
    W(a).erase(tn);
  else if (o == "reset")
    W(a).reset();
  else if (o == "opt")
    W(a).optimize();
  else if (o == "copy") {
    tuple_ro_managed x(R[b]);
    R[a].swap(x);
  } else if (o == "assign")
    R[a] = R[b];
  else if (o == "movec") {
    tuple_ro_managed x(std::move(R[b]));
    R[a].swap(x);
  } else if (o == "movea")
    R[a] = std::move(R[b]);
  else if (o == "swap")
    R[a].swap(R[b]);
  else if (o == "wmovec") {
    tuple_rw_fixed x(std::move(W(b)));
    W(a).swap(x);
  } else if (o == "wmovea") {
    if (a && b)
      (a == 1 ? W1 : W2) = std::move(b == 1 ? W1 : W2);
    else
      W(a) = std::move(W(b));
  } else if (o == "wswap")
    W(a).swap(W(b));
  else if (o == "purge")
    R[a].purge();
  else if (o == "wpurge")
    W(a).purge();
  else if (o == "w2r")
    R[a] = std::move(W(b));
  else if (o == "w2rc") {
    tuple_ro_managed x(std::move(W(b)));
    R[a].swap(x);
  } else if (o == "w2ro")
    R[a] = W(b).move_to_ro();
  else if (o == "r2w") {
    if (a == 0)
      W0 = std::move(R[b]);
    else
      (a == 1 ? W1 : W2) = std::move(R[b]);
  } else if (o == "r2wc") {
    if (a == 0) {
      tuple_rw_fixed x(std::move(R[b]));
      W0.swap(x);
    } else {
      tuple_rw_managed x(std::move(R[b]));
      W(a).swap(x);
    }
  } else if (o == "rwclone")
    W(a) = tuple_rw_fixed::clone(W(b));
  else if (o == "rwcloner")
    W(a) = tuple_rw_fixed::clone(R[b], std::size_t(2), std::size_t(40), use_schema);
  else if (o == "roclone")
    R[a] = tuple_ro_managed::clone(R[b], R[b] ? use_schema : nullptr);
  else if (o == "roclonew")
    R[a] = tuple_ro_managed::clone(W(b));
  else if (o == "take")
    R[a] = W(b).take_managed_clone_asis();
  else if (o == "takeopt")
    R[a] = W(b).take_managed_clone().first;
  else if (o == "ext") {
    const auto w = W(b).take_weak_asis();
    std::unique_ptr<char[]> copy(new char[w.size()]);
    memcpy(copy.get(), w.data(), w.size());
    R[a] = tuple_ro_managed(copy.get(), w.size(), use_schema);
    memset(copy.get(), 0xAA, w.size());
  } else if (o == "nest")
    R[a] = R[b].get_nested_managed(tn);
  else if (o == "nest2")
    R[a] = tuple_ro_managed(R[b].get_nested_weak(tn), R[b]);
  else if (o == "nestw")
    R[a] = W(b).get_nested_managed(tn);
  else
    exit(3);
}

static void purge_all() {
  for (int k = 0; k < 3; ++k)
    R[k].purge(), W(k).purge();
}

// copies by schemas other than the tuple has: with the same fields, and with
// fields which the tuple can't have
static void by_others(json &j) {
  const tuple_ro_managed &x = R[steps % 3];
  j.kv("ox", x ? int(steps % 3) + 1 : 0);
  j.key("oa");
  j.open('[');
  if (x)
    for (int k = 0; k < 4; ++k) {
      const schema *s = k & 1 ? alien_schema.get() : twin_schema.get();
      const char *r = "ok";
      size_t mark = j.b.size();
      j.open('{');
      try {
        if (k < 2) {
          tuple_ro_managed y = tuple_ro_managed::clone(x, s);
          const schema *got = y.peek_schema();
          // a tuple without a writable basis doesn't remember of a schema
          j.kv("s", got == s || !got);
          j.key("c");
          contents(j, y.take_weak());
        } else {
          tuple_rw_fixed y = tuple_rw_fixed::clone(x, std::size_t(2), std::size_t(40), s);
          j.kv("s", y.schema() == s);
          j.key("c");
          contents(j, y.take_weak_asis());
        }
      } catch (...) {
        r = classify_current();
        j.b.resize(mark);
        j.open('{');
        j.kv("s", 1);
        j.key("c");
        j.raw("[]");
      }
      j.str("r", r);
      j.close('}');
    }
  j.close(']');
}

static void step(const std::string &o, int a, int b, bool b_is_value) {
  if (!enabled(o, a, b))
    return;
  allocated = 0;
  std::string r = "ok";
  try {
    act(o, a, b);
  } catch (...) {
    r = classify_current();
  }
  json j;
  j.open('{');
  j.str("e", "do");
  j.key("o");
  j.b += "[\"" + o + "\",";
  j.num(a + 1);
  j.b += ',';
  j.num(b_is_value ? b : b + 1);
  j.b += ']';
  j.str("r", r);
  j.kv("al", allocated);
  j.key("ro");
  j.open('[');
  for (int k = 0; k < 3; ++k)
    contents(j, R[k].take_weak());
  j.close(']');
  j.key("rw");
  j.open('[');
  for (int k = 0; k < 3; ++k)
    contents(j, W(k) ? W(k).take_weak_asis() : tuple_ro_weak());
  j.close(']');
  std::string rb, rn, wb, wn;
  j.key("rb"), j.open('[');
  for (int k = 0; k < 3; ++k)
    j.item(id_of(R[k].get_buffer()));
  j.close(']');
  j.key("wb"), j.open('[');
  for (int k = 0; k < 3; ++k)
    j.item(W(k) ? id_of(W(k).get_buffer()) : 0);
  j.close(']');
  j.key("rn"), j.open('[');
  for (int k = 0; k < 3; ++k)
    j.item(R[k] ? R[k].get_buffer()->ref_counter : 0);
  j.close(']');
  j.key("wn"), j.open('[');
  for (int k = 0; k < 3; ++k)
    j.item(W(k) ? W(k).get_buffer()->ref_counter : 0);
  j.close(']');
  if (++steps % 4 == 0)
    by_others(j);
  live(j);
  put(j);
}

static bool value_op(const std::string &o) { return o == "write" || o == "fill"; }

int main(int argc, char **argv) {
  if (argc < 4)
    return 3;
  const std::string m = argv[1];
  out = fopen(argv[argc - 1], "w");
  if (!out)
    return 3;
  purge_all();
  defaults::setup(initiation_scale::tiny, std::unique_ptr<schema>(), hippeus::buffer_tag(&my_allot, false));
  shared_schema = schema::create();
  shared_schema->define_loose("v", genus::i32);
  shared_schema->import_definition("f", tf);
  shared_schema->import_definition("n", tn);
  twin_schema = schema::create();
  twin_schema->define_loose("v", genus::i32);
  twin_schema->import_definition("f", tf);
  twin_schema->import_definition("n", tn);
  alien_schema = schema::create();
  alien_schema->define_loose("v", genus::i32);
  alien_schema->import_definition("f", tf);
  alien_schema->import_definition("n", tn);
  alien_schema->define_preplaced("p", genus::i64);
  auto begin = [&](bool with) {
    purge_all();
    use_schema = with ? shared_schema.get() : nullptr;
    json j;
    j.open('{');
    j.str("e", "begin");
    put(j);
  };
  auto end = [&] {
    purge_all();
    json j;
    j.open('{');
    j.str("e", "end");
    live(j);
    put(j);
  };
  if (m == "random") {
    rng r(strtoull(argv[2], 0, 10));
    const unsigned hs = atoi(argv[3]), ops = atoi(argv[4]);
    static const char *names[] = {"new", "new", "write", "write", "fill", "put", "put", "putw", "drop", "reset", "opt", "copy", "assign",
                                  "movec", "movea", "swap", "wmovec", "wmovea", "wswap", "purge", "wpurge", "w2r", "w2rc", "w2ro",
                                  "r2w", "r2wc", "r2w", "r2wc", "rwclone", "rwcloner", "roclone", "roclonew", "take", "takeopt", "ext", "nest",
                                  "nest", "nest2", "nestw"};
    for (unsigned h = 0; h < hs; ++h) {
      begin(r(2));
      for (unsigned k = 0; k < ops; ++k) {
        const std::string o = names[r(sizeof(names) / sizeof(*names))];
        int a = int(r(3)), b = int(r(3));
        if (o == "write")
          b = 1 + int(r(1000));
        else if (o == "fill")
          b = r(3) ? int(r(40)) : int(r(2000));
        // nesting is kept within reason
        if ((o == "put" && R[b] && R[b].take_weak().size() > 3000) || (o == "putw" && W(b) && W(b).brutto_size() > 3000))
          continue;
        step(o, a, b, value_op(o));
      }
      end();
    }
  } else {
    FILE *in = fopen(argv[2], "r");
    if (!in)
      return 3;
    char line[128], o[32];
    int a, b;
    bool any = false;
    while (fgets(line, sizeof line, in)) {
      if (line[0] == 'B') {
        if (any)
          end();
        begin(line[2] == '1');
        any = true;
      } else if (sscanf(line, "%31s %d %d", o, &a, &b) == 3)
        step(o, a, b, value_op(o));
    }
    if (any)
      end();
    fclose(in);
  }
  fclose(out);
  return 0;
}
