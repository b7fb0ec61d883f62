// Conformance driver of managed tuples shared between threads.
//   drv_threads sched SEED SCENARIOS SCHEDULES PREEMPTIONS OUT.ndjson
//       own scheduler: all interleavings of accesses to headers of buffers with
//       at most PREEMPTIONS preemptions (up to SCHEDULES, then random ones);
//       needs the stand-in runtime sched_rt.cxx (-DSCHED)
//   drv_threads free SEED ROUNDS OPS OUT.ndjson
//       real threads (under the thread sanitizer)
#include "vh.h"
#include "fast_positive/tuples/legacy.h"
#include <unordered_set>
#ifdef SCHED
#include <ucontext.h>
#else
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#endif
using namespace vh;
using namespace fptu;

static const token tv(genus::i32, 0, false, false, false), tf(genus::text, 1, false, false, false),
    tn(genus::nested, 2, false, false, false);

enum kind { NEW, ACQ, REL, DONE, FREE, READ, TAKE, WRITE, SHARE, BAD };
static const char *const kinds[] = {"new", "acq", "rel", "done", "free", "read", "take", "write", "share", "bad"};

// value seen through a handle: v*1000 + length of the text, -1 when damaged
static int peek(const tuple_ro_weak &w) {
  const int v = w.get_i32(tv);
  const string_view s = w.get_string(tf);
  for (size_t k = 0; k < s.length(); ++k)
    if (s.data()[k] != char('a' + v % 26))
      return -1;
  return v * 1000 + int(s.length());
}

#ifdef SCHED
// ==================================================================== fibers
extern "C" void (*sched_access)(const volatile void *, size_t, int);
#define PLAIN __attribute__((no_sanitize_thread))

static const size_t SLOT = 2048, SLOTS = 256;
alignas(64) static char arena[SLOT * SLOTS];
static unsigned used;
static bool freed[SLOTS];

struct event {
  uint8_t k, t;
  int16_t b;
  int32_t v;
};
static event log_[4096];
static unsigned nlog;
static int cur;
PLAIN static void note(kind k, int b, int v = 0) {
  if (nlog < 4095)
    log_[nlog++] = event{uint8_t(k), uint8_t(cur), int16_t(b), v};
}

static const int FIBERS = 5;
static const size_t STACK = 256 * 1024;
static char *stacks[FIBERS];
static ucontext_t mainctx, fctx[FIBERS];
static int nfib;
static bool finished[FIBERS], waits[FIBERS];
static int copying; // fibers which still copy from the shared handles
static volatile bool in_fiber;

// the path through the tree of choices
struct choice {
  uint8_t at, of, preempt;
};
static std::vector<choice> path;
static size_t depth;
static int preemptions, bound;
static bool randomly;
static rng *rnd;

PLAIN static bool runnable(int f) { return !finished[f] && !(waits[f] && copying > 0); }
PLAIN static int choose_next(bool can_stay) {
  int opt[FIBERS], n = 0;
  if (can_stay)
    opt[n++] = cur;
  if (!can_stay || preemptions < bound)
    for (int f = 0; f < nfib; ++f)
      if (f != cur && runnable(f))
        opt[n++] = f;
  if (n == 0)
    return -1;
  int c = 0;
  if (randomly)
    c = n > 1 ? (can_stay && (*rnd)(3) ? 0 : int((*rnd)(n))) : 0;
  else {
    if (depth < path.size())
      c = path[depth].at;
    else
      path.push_back(choice{0, uint8_t(n), 0});
    ++depth;
  }
  if (can_stay && c)
    ++preemptions;
  return opt[c];
}
PLAIN static void point() {
  const int next = choose_next(true);
  if (next == cur)
    return;
  const int me = cur;
  cur = next;
  swapcontext(&fctx[me], &fctx[next]);
}
PLAIN static void blocked() {
  while (waits[cur] && copying > 0) {
    const int next = choose_next(false);
    if (next < 0)
      exit(3);
    const int me = cur;
    cur = next;
    swapcontext(&fctx[me], &fctx[next]);
  }
}
PLAIN static void on_access(const volatile void *p, size_t n, int) {
  const uintptr_t a = (uintptr_t)p - (uintptr_t)arena;
  if (a >= sizeof(arena) || !in_fiber)
    return;
  const unsigned slot = unsigned(a / SLOT);
  if (slot >= used)
    return;
  if (a % SLOT < sizeof(hippeus_buffer_C))
    point();
  if (freed[slot])
    note(BAD, int(slot));
}

PLAIN static hippeus_buffer_t *my_borrow(hippeus_allot_t *self, std::size_t wanna, bool, hippeus_actor_t) {
  if (used >= SLOTS || wanna + 64 > SLOT)
    exit(3);
  void *p = arena + SLOT * used;
  freed[used] = false;
  const bool save = in_fiber;
  in_fiber = false;
  auto b = new (p) hippeus::buffer_solid(hippeus::buffer_tag(self, false), std::min(SLOT - 32, (wanna + hippeus::buffer_solid::space_overhead() + 7) / 8 * 8));
  in_fiber = save;
  note(NEW, int(used));
  ++used;
  return b;
}
PLAIN static void my_repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  const int slot = int(((char *)b - arena) / SLOT);
  note(FREE, slot);
  freed[slot] = true;
  const bool save = in_fiber;
  in_fiber = false;
  volatile char *p = arena + SLOT * slot + sizeof(hippeus_buffer_C);
  for (size_t k = 0; k + sizeof(hippeus_buffer_C) < 512; ++k)
    p[k] = char(0xEE);
  in_fiber = save;
}
static bool my_validate(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t my_allot = {1024, 0, my_borrow, my_repay, my_validate};

PLAIN static int idx(const void *b) { return b ? int(((const char *)b - arena) / SLOT) : -1; }

// ------------------------------------------------------------------ scenario
struct op {
  char o;
  uint8_t a, b;
};
static std::vector<op> prog[FIBERS];
static const int SH = 2, OWN = 2;
struct world {
  tuple_ro_managed shared[SH];
  tuple_ro_managed r[FIBERS][OWN];
  std::unique_ptr<tuple_rw_fixed> w[FIBERS];
};
static world *W;
static int base_value;

#define BUF(H) ((H) ? idx((H).get_buffer()) : -1)
static void give_up(int b) {
  if (b >= 0)
    note(REL, b);
}
static void given_up(int b) {
  if (b >= 0)
    note(DONE, b);
}
static void got(int b) {
  if (b >= 0)
    note(ACQ, b);
}

static void perform(const op &x) {
  auto &r = W->r[cur];
  auto &w = W->w[cur];
  tuple_ro_managed &a = r[x.a % OWN];
  const int me = cur;
  (void)me;
  switch (x.o) {
  case 'C': { // a copy of a shared handle, which replaces an own one
    const tuple_ro_managed &s = W->shared[x.b % SH];
    const int was = BUF(a);
    give_up(was);
    if (x.b & 4) {
      tuple_ro_managed t(s);
      a.swap(t);
    } else
      a = s;
    got(BUF(a));
    given_up(was);
    break;
  }
  case 'R': { // read of a shared handle
    const tuple_ro_managed &s = W->shared[x.b % SH];
    const int v = peek(s.take_weak());
    note(READ, BUF(s), v);
    break;
  }
  case 'c': { // the same by an own handle
    const tuple_ro_managed &s = r[(x.a + 1) % OWN];
    const int was = BUF(a);
    give_up(was);
    a = s;
    got(BUF(a));
    given_up(was);
    break;
  }
  case 'n': { // a nested view
    if (!a)
      break;
    const int was = BUF(r[(x.a + 1) % OWN]);
    give_up(was);
    r[(x.a + 1) % OWN] = a.get_nested_managed(tn);
    got(BUF(r[(x.a + 1) % OWN]));
    given_up(was);
    break;
  }
  case 'm': {
    const int was = BUF(a);
    give_up(was);
    a = std::move(r[(x.a + 1) % OWN]);
    given_up(was);
    break;
  }
  case 's':
    a.swap(r[(x.a + 1) % OWN]);
    break;
  case 'r':
    if (a) {
      const int v = peek(a.take_weak());
      note(READ, BUF(a), v);
    }
    break;
  case 'd': {
    const int was = BUF(a);
    give_up(was);
    a.purge();
    given_up(was);
    break;
  }
  case 't': { // temporary copy
    if (!a)
      break;
    const int was = BUF(a);
    {
      tuple_ro_managed t(a);
      got(BUF(t));
      tuple_ro_managed u(std::move(t));
      note(READ, BUF(u), peek(u.take_weak()));
      give_up(was);
    }
    given_up(was);
    break;
  }
  case 'k': { // own clone
    if (!a)
      break;
    const int was = BUF(a);
    give_up(was);
    a = tuple_ro_managed::clone(a, nullptr);
    got(BUF(a));
    given_up(was);
    break;
  }
  case 'w': { // to a writable tuple, and a change of it
    if (!a || w)
      break;
    const int was = BUF(a);
    const int v = peek(a.take_weak());
    note(READ, was, v);
    give_up(was);
    w.reset(new tuple_rw_fixed(std::move(a)));
    const int now = idx(w->get_buffer());
    if (now == was)
      note(TAKE, now);
    else {
      got(now);
      given_up(was);
    }
    w->erase(tn);
    w->set_i32(tv, x.b % 7 + 11);
    const std::string f(size_t(v % 1000), char('a' + (x.b % 7 + 11) % 26));
    w->set_string(tf, string_view(f));
    note(WRITE, now, (x.b % 7 + 11) * 1000 + v % 1000);
    break;
  }
  case 'h': { // back to a read-only one
    if (!w)
      break;
    const int was = BUF(a);
    give_up(was);
    a = std::move(*w);
    w.reset();
    note(SHARE, BUF(a));
    given_up(was);
    break;
  }
  }
}
static void finish() {
  for (int k = 0; k < OWN; ++k) {
    const int was = BUF(W->r[cur][k]);
    give_up(was);
    W->r[cur][k].purge();
    given_up(was);
  }
  if (W->w[cur]) {
    const int was = idx(W->w[cur]->get_buffer());
    give_up(was);
    W->w[cur].reset();
    given_up(was);
  }
}
static void body() {
  const int me = cur;
  if (me == 0) { // the main one
    for (auto &x : prog[0])
      perform(x);
    waits[0] = true;
    blocked();
    for (int k = 0; k < SH; ++k) {
      const int was = BUF(W->shared[k]);
      give_up(was);
      W->shared[k].purge();
      given_up(was);
    }
    waits[0] = false;
  } else {
    bool still = true;
    int last = -1;
    for (size_t k = 0; k < prog[me].size(); ++k)
      if (prog[me][k].o == 'C' || prog[me][k].o == 'R')
        last = int(k);
    for (int k = 0; k < int(prog[me].size()); ++k) {
      if (k > last && still)
        --copying, still = false;
      perform(prog[me][k]);
    }
    if (still)
      --copying;
  }
  finish();
}
PLAIN static void entry() {
  body();
  finished[cur] = true;
  const int next = choose_next(false);
  if (next < 0) {
    in_fiber = false;
    setcontext(&mainctx);
  }
  cur = next;
  setcontext(&fctx[next]);
}

static bool run_once() {
  used = 0;
  nlog = 0;
  depth = 0;
  preemptions = 0;
  W = new world;
  cur = 0;
  in_fiber = false;
  for (int k = 0; k < SH; ++k) {
    if (k == 1 && base_value % 2) {
      W->shared[1] = W->shared[0];
      note(ACQ, BUF(W->shared[1]));
      continue;
    }
    // with a nested one
    tuple_rw_fixed in(std::size_t(3), 64, nullptr);
    note(ACQ, idx(in.get_buffer()));
    const int v = 2 + (base_value + k * 5) % 9;
    const std::string s(v, char('a' + v % 26));
    in.set_i32(tv, v);
    in.set_string(tf, string_view(s));
    note(WRITE, idx(in.get_buffer()), v * 1000 + v);
    const auto img = in.take_weak_asis();
    tuple_rw_fixed t(std::size_t(4), 200, nullptr);
    const int b = idx(t.get_buffer());
    note(ACQ, b);
    t.set_i32(tv, v);
    t.set_string(tf, string_view(s));
    t.set_nested(tn, img);
    note(WRITE, b, v * 1000 + v);
    W->shared[k] = std::move(t);
    note(SHARE, b);
    const int ib = idx(in.get_buffer());
    note(REL, ib);
    in.purge();
    note(DONE, ib);
  }
  copying = nfib - 1;
  for (int f = 0; f < nfib; ++f) {
    finished[f] = waits[f] = false;
    getcontext(&fctx[f]);
    fctx[f].uc_stack.ss_sp = stacks[f];
    fctx[f].uc_stack.ss_size = STACK;
    fctx[f].uc_link = nullptr;
    makecontext(&fctx[f], entry, 0);
  }
  cur = -1;
  int first = choose_next(false);
  volatile bool back = false;
  getcontext(&mainctx);
  if (!back) {
    back = true;
    cur = first;
    in_fiber = true;
    setcontext(&fctx[first]);
  }
  delete W;
  return true;
}
// next path of the tree
static bool advance() {
  while (!path.empty()) {
    if (path.back().at + 1 < path.back().of) {
      ++path.back().at;
      return true;
    }
    path.pop_back();
  }
  return false;
}

int main(int argc, char **argv) {
  if (argc != 7)
    return 3;
  FILE *out = fopen(argv[6], "w");
  if (!out)
    return 3;
  rng r(strtoull(argv[2], 0, 10));
  rnd = &r;
  const unsigned scenarios = atoi(argv[3]), limit = atoi(argv[4]);
  bound = atoi(argv[5]);
  defaults::setup(initiation_scale::tiny, std::unique_ptr<schema>(), hippeus::buffer_tag(&my_allot, false));
  sched_access = on_access;
  for (int f = 0; f < FIBERS; ++f)
    stacks[f] = (char *)malloc(STACK);
  unsigned long long total = 0, complete = 0, distinct = 0;
  for (unsigned sc = 0; sc < scenarios; ++sc) {
    nfib = 3 + int(r(4) == 0);
    base_value = int(r(1000));
    static const char early[] = "CCCCRt", late[] = "cnmsrrdtkwwh";
    for (int f = 0; f < nfib; ++f) {
      prog[f].clear();
      const unsigned n1 = 1 + r(2), n2 = 1 + r(nfib > 3 ? 2 : 4);
      for (unsigned k = 0; k < n1; ++k)
        prog[f].push_back(op{early[r(sizeof(early) - 1)], uint8_t(r(2)), uint8_t(r(8))});
      for (unsigned k = 0; k < n2; ++k)
        prog[f].push_back(op{late[r(sizeof(late) - 1)], uint8_t(r(2)), uint8_t(r(8))});
    }
    std::unordered_set<std::string> seen;
    path.clear();
    bool more = true;
    for (unsigned n = 0; n < limit; ++n) {
      randomly = !more;
      run_once();
      ++total;
      bool last = false;
      if (more && !advance()) {
        ++complete;
        last = true;
      }
      if (n * 2 >= limit)
        more = false;
      std::string key((const char *)log_, nlog * sizeof(event));
      if (!seen.insert(key).second) {
        if (last)
          break;
        continue;
      }
      ++distinct;
      json j;
      j.open('{');
      j.str("e", "run");
      j.kv("sc", (int)sc);
      j.key("ev");
      j.open('[');
      for (unsigned k = 0; k < nlog; ++k) {
        j.open('[');
        j.b += '"', j.b += kinds[log_[k].k], j.b += '"';
        j.item(log_[k].t);
        j.item(log_[k].b);
        j.item(log_[k].v);
        j.close(']');
      }
      j.close(']');
      j.close('}');
      j.b += '\n';
      fwrite(j.b.data(), 1, j.b.size(), out);
      if (last)
        break;
    }
  }
  fclose(out);
  printf("schedules %llu distinct %llu exhausted %llu of %u\n", total, distinct, complete, scenarios);
  return 0;
}
#else
// ============================================================== real threads
struct account {
  std::atomic<int> acq{0}, rel{0}, freed{0}, wrong{0};
  int want = 0;
};
static const int BUFFERS = 100000;
static account *acc;
static std::atomic<int> next_buf{0};
static std::mutex names_lock;
static std::map<const void *, int> names;
static int name_of(const void *b) {
  std::lock_guard<std::mutex> l(names_lock);
  auto it = names.find(b);
  return it == names.end() ? 0 : it->second;
}
static hippeus_buffer_t *my_borrow(hippeus_allot_t *self, std::size_t wanna, bool, hippeus_actor_t) {
  const size_t gross = (wanna + hippeus::buffer_solid::space_overhead() + 7) / 8 * 8;
  void *p = malloc(gross);
  auto b = new (p) hippeus::buffer_solid(hippeus::buffer_tag(self, false), gross);
  const int id = ++next_buf;
  if (id >= BUFFERS)
    exit(3);
  std::lock_guard<std::mutex> l(names_lock);
  names[b] = id;
  return b;
}
static void my_repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  {
    std::lock_guard<std::mutex> l(names_lock);
    auto it = names.find(b);
    if (it == names.end())
      abort();
    acc[it->second].freed.fetch_add(1, std::memory_order_relaxed);
    names.erase(it);
  }
  free(b);
}
static bool my_validate(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t my_allot = {1024, 0, my_borrow, my_repay, my_validate};

static std::atomic<int> failures{0};
static std::mutex errs_lock;
static std::vector<std::pair<int, int>> errs;
static std::unique_ptr<schema> sch;

static void worker(const tuple_ro_managed *shared, const int *want, int nshared, uint64_t seed, unsigned ops, std::atomic<int> *copied) {
  rng r(seed);
  tuple_ro_managed h[3];
  int w[3] = {0, 0, 0}, id[3] = {0, 0, 0};
  auto lose = [&](int k) {
    if (id[k])
      acc[id[k]].rel.fetch_add(1, std::memory_order_relaxed);
    id[k] = 0;
  };
  auto gain = [&](int k, int from, int value) {
    id[k] = from;
    w[k] = value;
    if (from)
      acc[from].acq.fetch_add(1, std::memory_order_relaxed);
  };
  static const int sids_max = 8;
  int sid[sids_max];
  for (int k = 0; k < nshared; ++k)
    sid[k] = name_of(shared[k].get_buffer());
  bool early = true;
  for (unsigned n = 0; n < ops; ++n) {
    if (early && n * 2 >= ops)
      early = false, copied->fetch_sub(1);
    const int a = int(r(3)), b = int(r(3)), s = int(r(nshared));
    switch (r(early ? 12 : 9)) {
    case 0: {
      const int f = id[b], v = w[b];
      if (a == b)
        break;
      lose(a);
      h[a] = h[b];
      gain(a, f, v);
      break;
    }
    case 1:
      if (a != b) {
        lose(a);
        h[a] = std::move(h[b]);
        id[a] = id[b], w[a] = w[b], id[b] = 0;
      }
      break;
    case 2:
      h[a].swap(h[b]);
      std::swap(id[a], id[b]), std::swap(w[a], w[b]);
      break;
    case 3:
    case 4:
      if (h[a] && (peek(h[a].take_weak()) != w[a] || h[a].take_weak().validate(sch.get())))
        acc[id[a]].wrong.fetch_add(1, std::memory_order_relaxed);
      break;
    case 5:
      lose(a);
      h[a].purge();
      break;
    case 6:
      if (h[a] && a != b && id[a]) {
        const int f = id[a], v = w[a];
        tuple_ro_managed x = h[a].get_nested_managed(tn);
        lose(b);
        h[b] = std::move(x);
        gain(b, h[b] ? f : 0, v);
      }
      break;
    case 7:
      if (h[a] && id[a]) { // a writable tuple of it: the same buffer or a copy
        const int f = id[a], v = w[a];
        lose(a);
        tuple_rw_managed t(std::move(h[a]));
        if (peek(t.take_weak_asis()) != v)
          acc[f].wrong.fetch_add(1, std::memory_order_relaxed);
        t.set_i32(tv, v / 1000);
        t.erase(tn);
      }
      break;
    case 8: { // own errors of the C interface
      char place[fptu_buffer_enough > 4096 ? 4096 : fptu_buffer_enough];
      fptu_rw *pt = fptu_init(place, sizeof(place), fptu_max_fields > 100 ? 100 : fptu_max_fields);
      fptu_clear_error();
      int want_code = FPTU_OK;
      if (r(2)) {
        want_code = FPTU_ENOFIELD;
        fptu_update_uint32(pt, 3, 1);
      }
      std::this_thread::yield();
      const int got = fptu_last_error_code();
      if (got != want_code || r(4000) == 0) {
        std::lock_guard<std::mutex> l(errs_lock);
        if (errs.size() < 50)
          errs.emplace_back(got, want_code);
      }
      break;
    }
    case 9:
    case 10:
      lose(a);
      h[a] = shared[s];
      gain(a, sid[s], want[s]);
      break;
    case 11:
      if (peek(shared[s].take_weak()) != want[s])
        acc[sid[s]].wrong.fetch_add(1, std::memory_order_relaxed);
      break;
    }
  }
  if (early)
    copied->fetch_sub(1);
  for (int k = 0; k < 3; ++k)
    lose(k), h[k].purge();
}

int main(int argc, char **argv) {
  if (argc != 6)
    return 3;
  FILE *out = fopen(argv[5], "w");
  if (!out)
    return 3;
  rng r(strtoull(argv[2], 0, 10));
  const unsigned rounds = atoi(argv[3]), ops = atoi(argv[4]);
  acc = new account[BUFFERS];
  defaults::setup(initiation_scale::tiny, std::unique_ptr<schema>(), hippeus::buffer_tag(&my_allot, false));
  sch = schema::create();
  sch->define_loose("v", genus::i32);
  sch->import_definition("f", tf);
  sch->import_definition("n", tn);
  std::set<int> tracked;
  for (unsigned n = 0; n < rounds; ++n) {
    const int ns = 1 + int(r(3)), nt = 2 + int(r(3));
    tuple_ro_managed shared[4];
    int want[4];
    std::atomic<int> copied{nt};
    for (int k = 0; k < ns; ++k) {
      const int v = 2 + int(r(9));
      const std::string s(v, char('a' + v % 26));
      tuple_rw_managed in(std::size_t(1), 8, nullptr), t(std::size_t(1), 8, nullptr);
      in.set_i32(tv, v), in.set_string(tf, string_view(s));
      t.set_i32(tv, v), t.set_string(tf, string_view(s));
      const auto img = in.take_weak_asis();
      t.set_nested(tn, img);
      shared[k] = std::move(t);
      want[k] = v * 1000 + v;
      const int id = name_of(shared[k].get_buffer());
      acc[id].acq.fetch_add(1);
      tracked.insert(id);
    }
    std::vector<std::thread> ts;
    for (int k = 0; k < nt; ++k)
      ts.emplace_back(worker, shared, want, ns, r(1u << 30) * 77 + k, ops, &copied);
    // the originals go while others still work with copies
    while (copied.load() > 0)
      std::this_thread::yield();
    for (int k = 0; k < ns; ++k) {
      acc[name_of(shared[k].get_buffer())].rel.fetch_add(1);
      shared[k].purge();
    }
    for (auto &t : ts)
      t.join();
  }
  for (int id : tracked) {
    json j;
    j.open('{');
    j.str("e", "sum");
    j.kv("b", id);
    j.kv("acq", acc[id].acq.load());
    j.kv("rel", acc[id].rel.load());
    j.kv("freed", acc[id].freed.load());
    j.kv("wrong", acc[id].wrong.load());
    j.close('}');
    j.b += '\n';
    fwrite(j.b.data(), 1, j.b.size(), out);
  }
  for (auto &e : errs) {
    json j;
    j.open('{');
    j.str("e", "err");
    j.kv("got", e.first);
    j.kv("want", e.second);
    j.close('}');
    j.b += '\n';
    fwrite(j.b.data(), 1, j.b.size(), out);
  }
  fclose(out);
  return 0;
}
#endif
