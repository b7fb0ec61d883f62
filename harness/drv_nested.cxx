// Conformance driver of nested tuples.
//   drv_nested SEED HISTORIES OPS LIMIT OUT.ndjson
// LIMIT: images up to that many bytes are nested.
#include "vh.h"
#include "fast_positive/tuples/legacy.h"
#include <set>
using namespace vh;
using namespace fptu;

static std::unique_ptr<schema> sch;
static token tv, tf, ta, tp, tc, tx;

static std::string tree(const tuple_ro_weak &w, int via, int depth);
static std::string joined(const std::vector<std::string> &v) {
  std::string s = "[";
  for (auto &x : v)
    s += (s.size() > 1 ? "," : "") + x;
  return s + "]";
}
static tuple_ro_weak weak_of(const details::tuple_ro *ro) {
  // with validation, by the announced size
  return ro ? tuple_ro_weak(ro->data(), ro->size(), sch.get()) : tuple_ro_weak();
}
static std::string text_of(const string_view &s) {
  for (size_t k = 0; k < s.length(); ++k)
    if (s.data()[k] != char('a' + (s.length() + k) % 26))
      return "-1";
  return std::to_string(s.length());
}
static tuple_ro_weak weak_of_iov(const fptu_ro &ro) {
  return ro.sys.iov_len ? tuple_ro_weak(ro.sys.iov_base, ro.sys.iov_len, sch.get()) : tuple_ro_weak();
}

// The contents through one of the ways to read.
template <typename T> static std::string contents(T &t, int via, int depth) {
  std::vector<std::string> part(5), coll;
  part[0] = std::to_string(t.get_i32(tv));
  part[1] = t.is_present(tf) ? text_of(t.get_string(tf)) : "0";
  part[2] = t.is_present(ta) ? tree(t.get_nested_weak(ta), via, depth + 1) : "[]";
  part[3] = t.is_present(tp) ? tree(t.get_nested_weak(tp), via, depth + 1) : "[]";
  for (auto x : t.collection(tc))
    coll.push_back(tree(weak_of(x.get_nested()), via, depth + 1));
  part[4] = joined(coll);
  return joined(part);
}
static std::string tree(const tuple_ro_weak &w, int via, int depth) {
  if (!w)
    return "[]";
  if (w.validate(sch.get()))
    return "[-7]";
  if (uintptr_t(w.data()) % 4)
    return "[-8]";
  if (via == 0)
    return contents(w, via, depth);
  if (via == 1) { // by accessors, from an own copy
    std::unique_ptr<uint32_t[]> copy(new uint32_t[w.size() / 4]);
    memcpy(copy.get(), w.data(), w.size());
    const tuple_ro_weak c(copy.get(), w.size(), sch.get());
    std::vector<std::string> part(5), coll;
    part[0] = std::to_string(c[tv].get_i32());
    part[1] = c.is_present(tf) ? text_of(c[tf].get_string()) : "0";
    part[2] = c.is_present(ta) ? tree(weak_of(c[ta].get_nested()), via, depth + 1) : "[]";
    part[3] = c.is_present(tp) ? tree(weak_of(c[tp].get_nested()), via, depth + 1) : "[]";
    for (auto x : c.collection(tc))
      coll.push_back(tree(weak_of(x.get_nested()), via, depth + 1));
    part[4] = joined(coll);
    return joined(part);
  }
  if (via == 2) { // by managed views, the outer ones are gone meanwhile
    tuple_ro_managed m(w.data(), w.size(), sch.get());
    std::vector<std::string> part(5), coll;
    part[0] = std::to_string(m.get_i32(tv));
    part[1] = m.is_present(tf) ? text_of(m.get_string(tf)) : "0";
    for (auto x : m.collection(tc))
      coll.push_back(tree(weak_of(x.get_nested()), via, depth + 1));
    part[4] = joined(coll);
    tuple_ro_managed a = m.get_nested_managed(ta), p = m.get_nested_managed(tp);
    m.purge();
    part[2] = a ? tree(a.take_weak(), via, depth + 1) : "[]";
    a.purge();
    part[3] = p ? tree(p.take_weak(), via, depth + 1) : "[]";
    return joined(part);
  }
  // by iterators over all of fields, the C interface for nested ones
  std::vector<std::string> part(5), coll;
  part[0] = "0", part[1] = "0", part[2] = part[3] = "[]";
  for (auto it = w.cbegin(sch.get()); it != w.cend(sch.get()); ++it) {
    if (it.field_type() == genus::hole)
      continue;
    const auto f = *it;
    const token k = f.token();
    if (k == tv)
      part[0] = std::to_string(f.get_i32());
    else if (k == tf)
      part[1] = text_of(f.get_string());
    else if (k == ta)
      part[2] = tree(weak_of(f.get_nested()), via, depth + 1);
    else if (k == tp) {
      if (w.is_present(tp))
        part[3] = tree(weak_of(f.get_nested()), via, depth + 1);
    } else if (k.is_loose() && k.type() == tc.type() && k.id() == tc.id())
      coll.insert(coll.begin(), tree(weak_of(f.get_nested()), via, depth + 1));
  }
  fptu_ro ro;
  ro.sys.iov_base = (void *)w.data(), ro.sys.iov_len = w.size();
  int err = -1;
  const fptu_ro na = fptu_get_nested(ro, ta.id(), &err);
  const tuple_ro_weak by_c = err == 0 ? weak_of_iov(na) : tuple_ro_weak();
  const tuple_ro_weak same = w.is_present(ta) ? w.get_nested_weak(ta) : tuple_ro_weak();
  if (bool(by_c) != bool(same) || (same && (by_c.data() != same.data() || by_c.size() != same.size())))
    part[2] = "[-6]";
  // the order of iteration of everything is that of a collection reversed
  part[4] = joined(coll);
  return joined(part);
}

static std::unique_ptr<tuple_rw_fixed> F[2];
static std::unique_ptr<tuple_rw_managed> M;
static tuple_rw_fixed &W(int k) { return k < 2 ? *F[k] : *M; }
#define ON(A, CALL) (A < 2 ? (void)(F[A]->CALL) : (void)(M->CALL))
static FILE *out;

int main(int argc, char **argv) {
  if (argc != 6)
    return 3;
  rng r(strtoull(argv[1], 0, 10));
  const unsigned hs = atoi(argv[2]), ops = atoi(argv[3]), limit = atoi(argv[4]);
  out = fopen(argv[5], "w");
  if (!out)
    return 3;
  sch = schema::create();
  sch->define_preplaced("w", genus::i16);
  sch->define_preplaced("p", genus::nested);
  sch->define_loose("v", genus::i32);
  sch->define_loose("f", genus::text);
  sch->define_loose("a", genus::nested);
  sch->define_collection("c", genus::nested);
  sch->define_loose("x", genus::varbin);
  defaults::setup(initiation_scale::tiny, std::unique_ptr<schema>(), hippeus::buffer_tag(&hippeus_allot_stdcxx, false));
  tv = sch->get_token("v"), tf = sch->get_token("f"), ta = sch->get_token("a"), tp = sch->get_token("p"), tc = sch->get_token("c"),
  tx = sch->get_token("x");
  std::vector<uint32_t> image;
  for (unsigned h = 0; h < hs; ++h) {
    F[0].reset(new tuple_rw_fixed(std::size_t(5 + r(4)), 100 + r(600), sch.get()));
    F[1].reset(new tuple_rw_fixed(std::size_t(24), std::min<size_t>(limit * 3, 200000), sch.get()));
    M.reset(new tuple_rw_managed(std::size_t(1), 8, sch.get()));
    for (int k = 0; k < 3; ++k)
      ON(k, set_i32(tv, 1));
    fprintf(out, "{\"e\":\"begin\"}\n");
    int level[3] = {1, 1, 1};
    for (unsigned n = 0; n < ops; ++n) {
      static const char *const names[] = {"setv", "fill", "fill", "puta", "puta", "puta", "putp", "putp", "insc", "insc", "eraa", "erap",
                                          "erc1", "opt", "cmp", "rst", "ext", "ext", "junk", "junk"};
      std::string o = names[r(sizeof(names) / sizeof(*names))], res = "ok";
      if (o == "rst" && r(4))
        continue;
      int a = int(r(3)), b = int(r(3)), arg = 0;
      if (h % 4 == 3 && r(2)) // into the depth
        o = "puta", a = 1 + int(r(2)), b = 1 + int(r(2));
      const int how = int(r(5));
      const bool puts = o == "puta" || o == "putp" || o == "insc";
      // an image of another (or the same) tuple, in an own place
      if (puts) {
        tuple_ro_weak w = W(b).take_weak_asis();
        tuple_ro_managed keep;
        if (how == 1) { // of its optimized clone
          tuple_rw_fixed c = tuple_rw_fixed::clone(W(b));
          keep = tuple_ro_managed::clone(c);
          w = keep.take_weak();
        } else if (how == 2) {
          keep = W(b).take_managed_clone_asis();
          w = keep.take_weak();
        } else if (how == 3) {
          keep = tuple_ro_managed(w.data(), w.size(), sch.get());
          w = keep.take_weak();
        }
        if (w.size() > limit)
          continue;
        image.assign((const uint32_t *)w.data(), (const uint32_t *)((const char *)w.data() + w.size()));
      }
      if (o == "ext" && !W(b).is_present(ta))
        continue;
      if (puts && level[b] >= 50)
        continue;
      if (puts)
        level[a] = std::max(level[a], level[b] + 1);
      else if (o == "ext")
        level[a] = level[b];
      else if (o == "rst")
        level[a] = 1;
      if (o == "setv" || o == "rst")
        arg = 1 + int(r(100));
      else if (o == "fill")
        arg = r(4) ? int(r(40)) : int(r(400));
      else if (o == "junk")
        arg = r(3) ? int(r(60)) : 0;
      try {
        if (o == "setv")
          ON(a, set_i32(tv, arg));
        else if (o == "fill") {
          std::string s(arg, 'a');
          for (int k = 0; k < arg; ++k)
            s[k] = char('a' + (arg + k) % 26);
          ON(a, set_string(tf, string_view(s)));
        } else if (o == "junk") { // other data, to be moved around
          const std::string s(arg, 'z');
          if (arg)
            ON(a, set_varbinary(tx, string_view(s)));
          else
            W(a).erase(tx);
        } else if (puts) {
          // right at the end of the block
          std::unique_ptr<uint32_t[]> place(new uint32_t[image.size()]);
          memcpy(place.get(), image.data(), image.size() * 4);
          const tuple_ro_weak w(place.get(), image.size() * 4, sch.get());
          if (o == "puta")
            ON(a, set_nested(ta, w));
          else if (o == "putp")
            ON(a, set_nested(tp, w));
          else
            ON(a, insert_nested(tc, w));
        } else if (o == "eraa")
          W(a).erase(ta);
        else if (o == "erap")
          W(a).erase(tp);
        else if (o == "erc1") {
          auto c = W(a).collection(tc);
          if (c.begin() != c.end())
            W(a).erase(c.begin());
        } else if (o == "opt")
          W(a).optimize();
        else if (o == "cmp")
          W(a).compactify();
        else if (o == "rst")
          W(a).reset(), ON(a, set_i32(tv, arg));
        else if (o == "ext") {
          // a nested one as a tuple of its own
          tuple_rw_fixed c = tuple_rw_fixed::clone(W(b).get_nested_weak(ta), std::size_t(r(10)), std::size_t(r(1000)), sch.get());
          if (a < 2)
            *F[a] = std::move(c);
          else
            *M = tuple_rw_managed::clone(W(b).get_nested_weak(ta), std::size_t(0), std::size_t(0), sch.get());
        }
      } catch (...) {
        res = classify_current();
      }
      std::set<std::string> seen, other;
      const int q = (a + 1 + int(r(2))) % 3;
      try {
        const tuple_ro_weak w = W(a).take_weak_asis();
        for (int via = 0; via < 4; ++via)
          seen.insert(tree(w, via, 0));
        seen.insert(contents(W(a), 0, 0));
      } catch (...) {
        seen.insert("[-9]");
      }
      try {
        other.insert(tree(W(q).take_weak_asis(), int(r(4)), 0));
      } catch (...) {
        other.insert("[-9]");
      }
      fprintf(out, "{\"e\":\"do\",\"o\":\"%s\",\"a\":%d,\"b\":%d,\"x\":%d,\"r\":\"%s\",\"q\":%d,\"mg\":%d,\"seen\":%s,\"other\":%s}\n", o.c_str(), a + 1, b + 1,
              arg, res.c_str(), q + 1, int(a == 2), joined(std::vector<std::string>(seen.begin(), seen.end())).c_str(),
              joined(std::vector<std::string>(other.begin(), other.end())).c_str());
    }
  }
  fclose(out);
  return 0;
}
