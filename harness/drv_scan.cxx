// Conformance driver for the searches of the index: every variant of the scan
// which the processor is able to run, on an index placed at edges of
// accessible memory, surrounded by decoys.
//   drv_scan SEED MAXN SPREAD OUT.ndjson
// For each length n of the index and set of matching positions (the first at
// each possible place, the rest random) one event with the results of each
// variant over SPREAD placements, needles and modes of the FPU.
#include "vh.h"
#include "fast_positive/tuples/details/scan.h"
#include <immintrin.h>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace vh;
using fptu::details::field_loose;
using fptu::details::scan_func_t;

static sigjmp_buf env;
static void on_fault(int) { siglongjmp(env, 1); }

int main(int argc, char **argv) {
  if (argc != 5)
    return 3;
  rng r(strtoull(argv[1], 0, 10));
  const unsigned maxn = unsigned(atoi(argv[2])), spread = unsigned(atoi(argv[3]));
  FILE *out = fopen(argv[4], "w");
  if (!out)
    return 3;
  struct sigaction sa {};
  sa.sa_handler = on_fault;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);

  std::vector<std::pair<const char *, scan_func_t>> fn;
  fn.push_back({"referential", fptu::details::fptu_scan_referential});
  fn.push_back({"unroll", fptu::details::fptu_scan_unroll});
  fn.push_back({"default", [](const field_loose *b, const field_loose *e, const uint16_t x) -> const field_loose * {
                  return fptu::details::fptu_scan(b, e, x);
                }});
#if defined(__ia32__)
  if (__builtin_cpu_supports("sse2"))
    fn.push_back({"SSE2", fptu::details::fptu_scan_SSE2});
  if (__builtin_cpu_supports("avx"))
    fn.push_back({"AVX", fptu::details::fptu_scan_AVX});
  if (__builtin_cpu_supports("avx2"))
    fn.push_back({"AVX2", fptu::details::fptu_scan_AVX2});
#endif

  const size_t page = size_t(sysconf(_SC_PAGESIZE));
  const size_t room = ((size_t(maxn) * 4 + page - 1) / page + 2) * page;
  char *base = (char *)mmap(nullptr, room + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (base == MAP_FAILED || mprotect(base + page, room, PROT_READ | PROT_WRITE))
    return 3;
  char *area = base + page;
  const unsigned csr = _mm_getcsr();

  static const uint16_t special[] = {0, 0xffff, 0x8000, 0x7f80, 0x7fc0, 0xff80, 1, 0xf800, 0x0800, 0x0080, 0x00ff, 0xff00};
  std::vector<std::pair<unsigned, int>> plan; // length, the first match
  if (maxn <= 256) {
    for (unsigned n = 0; n <= maxn; ++n)
      for (int first = -1; first < int(n); ++first)
        plan.push_back({n, first});
  } else
    for (unsigned k = 0; k < 400; ++k) {
      const unsigned n = 1 + r(maxn);
      plan.push_back({n, r(4) ? int(r(n)) : int(n - 1 - r(n < 70 ? n : 70))});
      plan.push_back({n, -1});
    }

  for (const auto &pl : plan) {
    const unsigned n = pl.first;
    std::vector<char> is(n, 0);
    if (pl.second >= 0) {
      is[unsigned(pl.second)] = 1;
      if (r(2))
        for (unsigned k = unsigned(pl.second) + 1; k < n; ++k)
          is[k] = r(8) == 0;
    }
    std::vector<std::set<long>> res(fn.size());
    for (unsigned s = 0; s < spread; ++s) {
      const uint16_t needle = s % 4 == 3 ? uint16_t(r.next()) : special[r(sizeof special / 2)];
      // where
      size_t at;
      switch (s % 5) {
      case 0:
        at = room - 4 * n;
        if (r(2) && at > 64)
          at -= 4 * r(16);
        break;
      case 1: at = r(2) ? 4 * r(16) : 0; break;
      case 2: at = page + 4 * r(16); break;
      case 3: at = page - (n > 1 ? 4 * r(n < 1000 ? n : 1000) : 0); break;
      default: at = 4 * r(unsigned((room - 4 * n) / 4 + 1)); break;
      }
      const bool decoy = s % 3 != 2;
      const size_t span = 256;
      char *lo = area + (at > span ? at - span : 0);
      char *hi = area + (at + 4 * n + span < room ? at + 4 * n + span : room);
      for (char *p = lo; p < hi; p += 2)
        *(uint16_t *)p = decoy ? needle : uint16_t(~needle);
      uint16_t *f = (uint16_t *)(area + at);
      for (unsigned k = 0; k < n; ++k) {
        f[2 * k] = r(2) ? needle : uint16_t(r.next());
        uint16_t x = needle;
        if (!is[k])
          switch (r(4)) {
          case 0: x = uint16_t(needle ^ (1u << r(16))); break;
          case 1: x = uint16_t(~needle); break;
          case 2: x = uint16_t((needle >> 8) | (needle << 8)); break;
          default: x = uint16_t(r.next());
          }
        if (!is[k] && x == needle)
          x = uint16_t(needle ^ 0x8000);
        f[2 * k + 1] = x;
      }
      const field_loose *b = (const field_loose *)f, *e = b + n;
      if (s % 2)
        _mm_setcsr(csr | 0x8040 /* FTZ + DAZ */);
      for (size_t v = 0; v < fn.size(); ++v) {
        volatile long got = -3;
        if (!sigsetjmp(env, 1)) {
          const field_loose *p = fn[v].second(b, e, needle);
          got = !p ? -1 : p >= b && p < e && ((char *)p - (char *)b) % 4 == 0 ? long(p - b) : -2;
        }
        res[v].insert(long(got));
      }
      _mm_setcsr(csr);
      for (char *p = lo; p < hi; p += 4)
        *(uint32_t *)p = 0;
    }
    json j;
    j.open('{');
    j.kv("n", n);
    j.key("m");
    j.open('[');
    for (unsigned k = 0, c = 0; k < n && c < 8; ++k)
      if (is[k]) {
        j.item(k);
        ++c;
      }
    j.close(']');
    j.key("r");
    j.open('[');
    for (size_t v = 0; v < fn.size(); ++v) {
      j.open('{');
      j.str("v", fn[v].first);
      j.key("g");
      j.open('[');
      for (long g : res[v])
        j.item(g);
      j.close(']');
      j.close('}');
    }
    j.close(']');
    j.close('}');
    fprintf(out, "%s\n", j.b.c_str());
  }
  fclose(out);
  return 0;
}
