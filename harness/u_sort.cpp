// P12: comparison sorting, merging, order selection against std::stable_sort.
#include "gen.h"
#include <deque>
#include <parlay/primitives.h>
#include <parlay/internal/merge_sort.h>
#include <parlay/internal/quicksort.h>
#include <parlay/internal/bucket_sort.h>
#include <parlay/internal/sample_sort.h>
using namespace vf;

namespace {
// The order used: keys compared after a coarsening, possibly reversed
struct Ord { uint64_t div; bool rev; int64_t key(int64_t k) const { int64_t x = div ? k / static_cast<int64_t>(div) : k; return rev ? -x : x; } };

struct Input {
  size_t n; std::vector<int64_t> keys; Ord o; std::vector<size_t> perm;   // perm: stable sorted order
  std::string desc;
  bool expect(size_t i, size_t j) const { return o.key(keys[i]) < o.key(keys[j]); }
};
Input make_input(Rng& r, size_t n, uint64_t cap) {
  Input in; in.n = n;
  KeyGen g = pick_keys(r, n, cap);
  in.keys.resize(n); for (size_t i = 0; i < n; i++) in.keys[i] = static_cast<int64_t>(g(r, i, n));
  if (r.chance(1, 8)) for (size_t i = 0; i < n; i++) in.keys[i] = std::min<uint64_t>(i < n / 2 ? i : n - i, cap - 1);   // organ pipe
  if (r.chance(1, 8) && n > 4) { std::sort(in.keys.begin(), in.keys.end()); for (int k = 0; k < 3; k++) std::swap(in.keys[r.below(n)], in.keys[r.below(n)]); }
  in.o = Ord{r.chance(1, 3) ? 2 + r.below(20) : 0, r.chance(1, 4)};
  in.perm.resize(n); std::iota(in.perm.begin(), in.perm.end(), size_t{0});
  std::stable_sort(in.perm.begin(), in.perm.end(), [&](size_t a, size_t b) { return in.expect(a, b); });
  char b[120]; snprintf(b, sizeof b, "n=%zu keys kind %d range %llu div %llu rev %d", n, g.kind, static_cast<unsigned long long>(g.range), static_cast<unsigned long long>(in.o.div), in.o.rev);
  in.desc = b;
  return in;
}

template <class T> struct Less {   // also monitors that what is compared is an element of the input
  const Input* in;
  bool operator()(const T& a, const T& b) const { chk(a); chk(b); return in->o.key(a.k) < in->o.key(b.k); }
  void chk(const T& a) const {
    if (static_cast<uint64_t>(a.id) >= in->n || in->keys[static_cast<size_t>(a.id)] != a.k) fail("sort:compares-non-element", "comparison of a value that is no input element (key %lld id %lld) %s", static_cast<long long>(a.k), static_cast<long long>(a.id), in->desc.c_str());
  }
};
template <class T> std::vector<T> elements(const Input& in) { std::vector<T> v; v.reserve(in.n); for (size_t i = 0; i < in.n; i++) v.push_back(make_kv<T>(in.keys[i], static_cast<int64_t>(i))); return v; }

template <class R> void check_result(const Input& in, const R& out, bool stable, const char* what) {
  size_t n = static_cast<size_t>(std::end(out) - std::begin(out));
  if (n != in.n) { fail(std::string("sort:length:") + what, "%zu elements from %s", n, in.desc.c_str()); return; }
  std::vector<char> seen(in.n, 0); auto it = std::begin(out);
  for (size_t i = 0; i < n; i++) {
    const auto& e = it[i];
    if (!(e == make_kv<std::decay_t<decltype(e)>>(static_cast<uint64_t>(e.id) < in.n ? in.keys[static_cast<size_t>(e.id)] : -1, e.id)) || static_cast<uint64_t>(e.id) >= in.n || seen[static_cast<size_t>(e.id)]++) { fail(std::string("sort:permutation:") + what, "output %zu is not a fresh input element, %s", i, in.desc.c_str()); return; }
    if (i && in.o.key(it[i].k) < in.o.key(it[i - 1].k)) { fail(std::string("sort:order:") + what, "output %zu less than its predecessor, %s", i, in.desc.c_str()); return; }
    if (stable && static_cast<size_t>(e.id) != in.perm[i]) { fail(std::string("sort:stability:") + what, "output %zu is input %lld instead of %zu, %s", i, static_cast<long long>(e.id), in.perm[i], in.desc.c_str()); return; }
  }
}
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }

template <class T> void copying(Rng& rng, const Input& in) {
  auto v = elements<T>(in); const auto orig = v; Less<T> less{&in};
  int k = static_cast<int>(rng.below(4));
  if (k == 0) { check_result(in, parlay::sort(v, less), false, "sort"); check_result(in, parlay::stable_sort(v, less), true, "stable_sort"); }
  else if (k == 1) { std::deque<T> d(v.begin(), v.end()); check_result(in, parlay::sort(d, less), false, "sort-deque"); check_result(in, parlay::stable_sort(d, less), true, "stable_sort-deque"); }
  else if (k == 2) { auto d = parlay::delayed_tabulate(in.n, [&](size_t i) { return v[i]; }); check_result(in, parlay::sort(d, less), false, "sort-delayed"); check_result(in, parlay::stable_sort(d, less), true, "stable_sort-delayed"); }
  else { const auto& cv = v; check_result(in, parlay::internal::merge_sort(parlay::make_slice(cv), less), true, "merge_sort"); const parlay::sequence<T> cs(v.begin(), v.end()); check_result(in, parlay::sort(cs, less), false, "sort-const"); }
  if (!same(v, orig)) fail("sort:input-changed", "copying sort changed its input, %s", in.desc.c_str());
  event("copying_sorts", 2);
}
template <class T> void inplace(Rng& rng, const Input& in) {
  Less<T> less{&in};
  for (int form = 0; form < 2; form++) {
    // the range to sort lies between two guard zones
    size_t lo = rng.below(5), hi = rng.below(5);
    std::vector<T> buf; buf.reserve(lo + in.n + hi);
    for (size_t i = 0; i < lo; i++) buf.push_back(make_kv<T>(-5, static_cast<int64_t>(i)));
    { auto v = elements<T>(in); for (auto& x : v) buf.push_back(std::move(x)); }
    for (size_t i = 0; i < hi; i++) buf.push_back(make_kv<T>(-6, static_cast<int64_t>(i)));
    auto sl = parlay::make_slice(buf.begin() + lo, buf.begin() + lo + in.n);
    const char* what;
    if (form == 0) { parlay::sort_inplace(sl, less); what = "sort_inplace"; }
    else { parlay::stable_sort_inplace(sl, less); what = "stable_sort_inplace"; }
    if constexpr (std::is_copy_constructible_v<T>) { std::vector<T> out(buf.begin() + lo, buf.begin() + lo + in.n); check_result(in, out, form == 1, what); }
    else check_result(in, parlay::make_slice(buf.begin() + lo, buf.begin() + lo + in.n), form == 1, what);
    for (size_t i = 0; i < lo; i++) if (buf[i].k != -5 || buf[i].id != static_cast<int64_t>(i)) fail("sort:guard", "%s wrote before its range", what);
    for (size_t i = 0; i < hi; i++) if (buf[lo + in.n + i].k != -6 || buf[lo + in.n + i].id != static_cast<int64_t>(i)) fail("sort:guard", "%s wrote past its range", what);
    event("inplace_sorts");
  }
  if (rng.chance(1, 2)) {
    std::vector<T> v = elements<T>(in);
    int k = static_cast<int>(rng.below(5));
    auto sl = parlay::make_slice(v);
    const char* what = "?"; bool st = false;
    if (k == 0) { parlay::internal::quicksort(sl, less); what = "quicksort"; }
    else if (k == 1) { parlay::internal::bucket_sort(sl, less, true); what = "bucket_sort-stable"; st = true; }
    else if (k == 2) { parlay::internal::bucket_sort(sl, less, false); what = "bucket_sort"; }
    else if (k == 3) { parlay::internal::merge_sort_inplace(sl, less); what = "merge_sort_inplace"; st = true; }
    else { parlay::internal::quicksort(v.begin(), v.size(), less); what = "quicksort-it"; }
    check_result(in, parlay::make_slice(v), st, what);
  }
}
size_t sortn(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(12);
    case 1: return std::min<size_t>(maxn(50000, 200000), 16384 + r.below(5) - 2);
    case 2: return std::min<size_t>(maxn(50000, 200000), 128 + r.below(5) - 2 + (r.below(3) << 7));
    default: return pick_size(r, maxn(50000, 200000));
  }
}
template <class T, bool Copy = true> void run_type(Rng& rng, size_t q, const char* name) {
  size_t R = rounds(q), big = 0;
  for (size_t k = 0; k < R; k++) {
    Input in = make_input(rng, sortn(rng), ~uint64_t{0} >> 2);
    if constexpr (Copy) copying<T>(rng, in);
    inplace<T>(rng, in);
    eval(H(k, in.n, in.n ? in.keys[in.n / 2] : 0, hash_str(in.desc)), in.n > 1);
    if (in.n > 1) big++;
  }
  sample("%s: %zu inputs", name, R);
}
}  // namespace

#if VF_PART == 0 || VF_PART == 1
CASE("16-byte pairs") { run_type<KV>(rng, 120, "KV"); }
CASE("128-byte elements") { run_type<KVBig>(rng, 50, "KVBig"); }
CASE("strings") { run_type<KVStr>(rng, 30, "KVStr"); }
CASE("move-only") { run_type<KVMove, false>(rng, 30, "KVMove"); }

#endif
#if VF_PART == 0 || VF_PART == 2 || VF_PART == 4
template <class T> static void plain(Rng& rng, size_t q, uint64_t cap, T off) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = sortn(rng); Input in = make_input(rng, n, cap);
    std::vector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = static_cast<T>(static_cast<T>(in.keys[i]) - off);
    auto e = v; std::sort(e.begin(), e.end()); auto g = e; std::reverse(g.begin(), g.end()); const auto orig = v;
    auto a = parlay::sort(v); VF_SAME(a, e, "sort:plain:sort", "%s", in.desc.c_str());
    auto b = parlay::stable_sort(v, std::greater<>()); VF_SAME(b, g, "sort:plain:greater", "%s", in.desc.c_str());
    VF_SAME(v, orig, "sort:input-changed", "%s", in.desc.c_str());
    auto c = v; parlay::sort_inplace(c); VF_SAME(c, e, "sort:plain:sort_inplace", "%s", in.desc.c_str());
    auto d = v; parlay::stable_sort_inplace(d, std::greater<>()); VF_SAME(d, g, "sort:plain:stable_inplace", "%s", in.desc.c_str());
    auto f = parlay::stable_sort(parlay::make_slice(v)); VF_SAME(f, e, "sort:plain:stable", "%s", in.desc.c_str());
    auto h = parlay::to_sequence(v); parlay::stable_sort_inplace(h); VF_SAME(h, e, "sort:plain:stable_inplace", "%s", in.desc.c_str());
    auto w = parlay::to_sequence(v); parlay::sort_inplace(parlay::make_slice(w), std::greater<T>()); VF_SAME(w, g, "sort:plain:inplace-greater", "%s", in.desc.c_str());
    // the same element values through a pointer comparator
    if (rng.chance(1, 3)) {
      std::vector<const T*> p(n); for (size_t i = 0; i < n; i++) p[i] = &v[i];
      auto cmp = [](const T* x, const T* y) { return *x < *y; };
      auto s1 = parlay::sort(p, cmp); auto s2 = parlay::stable_sort(p, cmp); auto s3 = p; parlay::sort_inplace(s3, cmp); auto s4 = p; parlay::stable_sort_inplace(s4, cmp);
      auto ep = p; std::stable_sort(ep.begin(), ep.end(), cmp);
      VF_SAME(s2, ep, "sort:pointers:stable", "%s", in.desc.c_str()); VF_SAME(s4, ep, "sort:pointers:stable_inplace", "%s", in.desc.c_str());
      auto perm_ok = [&](auto& s) { std::set<const T*> q2(s.begin(), s.end()); if (q2.size() != n) return false; for (size_t i = 0; i < n; i++) if (*s[i] != e[i]) return false; return true; };
      VF_CHECK(perm_ok(s1) && perm_ok(s3), "sort:pointers:unstable", "%s", in.desc.c_str());
    }
    event("plain_sorts", 7);
    eval(H(k, n, hash_str(in.desc), n ? v[0] : 0), n > 1);
  }
}
#if VF_PART != 4
CASE("int64") { plain<int64_t>(rng, 100, ~uint64_t{0} >> 1, 1000); sample("int64 keys of all distributions"); }
CASE("uint32") { plain<uint32_t>(rng, 80, 1ull << 32, 0); }
#endif
#if VF_PART != 2
CASE("uint8") { plain<uint8_t>(rng, 60, 256, 0); }
CASE("int16") { plain<int16_t>(rng, 60, 32768, 100); }
CASE("double") { plain<double>(rng, 60, 1ull << 50, 0.5); }
#endif
#endif
#if VF_PART == 0 || VF_PART == 5
CASE("std::string") {
  for (size_t k = 0, R = rounds(30); k < R; k++) {
    size_t n = std::min<size_t>(sortn(rng), 20000); auto keys = gen_keys<uint64_t>(rng, n);
    std::vector<std::string> v(n); for (size_t i = 0; i < n; i++) v[i] = (keys[i] % 3 ? "" : "a common prefix longer than small strings ") + std::to_string(keys[i]);
    auto e = v; std::sort(e.begin(), e.end());
    auto a = parlay::sort(v); VF_SAME(a, e, "sort:string", "n=%zu", n);
    auto b = parlay::stable_sort(v); VF_SAME(b, e, "sort:string", "n=%zu", n);
    auto c = v; parlay::sort_inplace(c); VF_SAME(c, e, "sort:string", "n=%zu", n);
    auto d = v; parlay::stable_sort_inplace(d); VF_SAME(d, e, "sort:string", "n=%zu", n);
    eval(H(k, n, n ? keys[0] : 0), n > 1);
  }
  // sequences of sequences (library type as element)
  for (size_t k = 0, R = rounds(15); k < R; k++) {
    size_t n = std::min<size_t>(sortn(rng), 6000); auto keys = gen_keys<uint64_t>(rng, n);
    auto mkseq = [&](size_t i) { parlay::chars c; auto s = std::to_string(keys[i] % 5000 * (keys[i] % 7 ? 1 : 12345678901ull)); c.append(s.begin(), s.end()); return c; };
    auto v = parlay::tabulate(n, mkseq);
    std::vector<std::string> e(n); for (size_t i = 0; i < n; i++) e[i] = std::string(v[i].begin(), v[i].end()); std::sort(e.begin(), e.end());
    auto chk = [&](auto& s, const char* w) { bool ok = s.size() == n; for (size_t i = 0; ok && i < n; i++) ok = std::string(s[i].begin(), s[i].end()) == e[i]; VF_CHECK(ok, "sort:chars", "%s n=%zu", w, n); };
    auto a = parlay::sort(v); chk(a, "sort"); auto b = parlay::stable_sort(v); chk(b, "stable_sort"); auto c = v; parlay::sort_inplace(c); chk(c, "sort_inplace"); auto d = v; parlay::stable_sort_inplace(d); chk(d, "stable_sort_inplace");
    eval(H(k, n, 77, n ? keys[0] : 0), n > 1);
  }
}

#endif
#if VF_PART == 0 || VF_PART == 3
template <class T> static void merge_case(Rng& rng, size_t q) {
  for (size_t k = 0, R = rounds(q); k < R; k++) {
    size_t n = sortn(rng), m = rng.chance(1, 4) ? rng.below(5) : sortn(rng); if (rng.chance(1, 2)) std::swap(n, m);
    KeyGen g = pick_keys(rng, n + m); uint64_t div = rng.chance(1, 3) ? 2 + rng.below(9) : 1;
    auto key = [&](const T& x) { return x.k / static_cast<int64_t>(div); };
    auto less = [&](const T& x, const T& y) { return key(x) < key(y); };
    std::vector<T> a, b; for (size_t i = 0; i < n; i++) a.push_back(make_kv<T>(static_cast<int64_t>(g(rng, i, n)), static_cast<int64_t>(i)));
    for (size_t i = 0; i < m; i++) b.push_back(make_kv<T>(static_cast<int64_t>(g(rng, i, m)), static_cast<int64_t>(1000000 + i)));
    if (rng.chance(1, 6)) for (auto& x : b) x.k += 1000000000; else if (rng.chance(1, 6)) for (auto& x : a) x.k += 1000000000;   // disjoint ranges
    std::stable_sort(a.begin(), a.end(), less); std::stable_sort(b.begin(), b.end(), less);
    std::vector<T> e(n + m); std::merge(a.begin(), a.end(), b.begin(), b.end(), e.begin(), less);
    const auto oa = a, ob = b;
    parlay::sequence<T> r;
    if (rng.chance(1, 2)) r = parlay::merge(a, b, less); else { std::deque<T> d(a.begin(), a.end()); r = parlay::merge(d, parlay::make_slice(b), less); }
    VF_SAME(r, e, "merge:stable", "n=%zu m=%zu range %llu div %llu", n, m, static_cast<unsigned long long>(g.range), static_cast<unsigned long long>(div));
    VF_CHECK(same(a, oa) && same(b, ob), "merge:input-changed", "n=%zu m=%zu", n, m);
    if (rng.chance(1, 3)) { auto mv = parlay::internal::merge_move(parlay::make_slice(a), parlay::make_slice(b), less); VF_SAME(mv, e, "merge:move", "n=%zu m=%zu", n, m); }
    event("merges"); eval(H(k, n, m, g.kind, g.range), n + m > 1);
  }
}
CASE("merge") { merge_case<KV>(rng, 160); merge_case<KVStr>(rng, 30);
  for (size_t k = 0, R = rounds(80); k < R; k++) { size_t n = sortn(rng), m = sortn(rng); auto a = gen_keys<int64_t>(rng, n), b = gen_keys<int64_t>(rng, m); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    std::vector<int64_t> e(n + m); std::merge(a.begin(), a.end(), b.begin(), b.end(), e.begin()); auto r = parlay::merge(a, b); VF_SAME(r, e, "merge:plain", "n=%zu m=%zu", n, m); eval(H(3, k, n, m)); }
  sample("merges of two sorted ranges, lengths 0 to 50000, few and many equal keys"); }

CASE("kth_smallest and rank") {
  for (size_t k = 0, R = rounds(160); k < R; k++) {
    size_t n = std::max<size_t>(1, sortn(rng)); Input in = make_input(rng, n, ~uint64_t{0} >> 2); auto v = elements<KV>(in); Less<KV> less{&in}; const auto orig = v;
    for (int t = 0; t < 4; t++) {
      size_t p = t == 0 ? 0 : t == 1 ? n - 1 : rng.below(n);
      int64_t want = in.o.key(in.keys[in.perm[p]]);
      auto c = parlay::kth_smallest_copy(v, p, less); VF_CHECK(in.o.key(c.k) == want && static_cast<uint64_t>(c.id) < n && in.keys[static_cast<size_t>(c.id)] == c.k, "kth:copy", "k=%zu %s", p, in.desc.c_str());
      auto it = parlay::kth_smallest(v, p, less); bool ok = it >= v.begin() && it < v.end() && in.o.key(it->k) == want; VF_CHECK(ok, "kth:iterator", "k=%zu %s", p, in.desc.c_str());
      if (t == 3) { auto s = parlay::kth_smallest_copy(in.keys, p); auto sk = in.keys; std::nth_element(sk.begin(), sk.begin() + static_cast<long>(p), sk.end()); VF_CHECK(s == sk[p], "kth:plain", "k=%zu %s", p, in.desc.c_str()); }
      event("selections", 2);
    }
    auto rk = parlay::rank(v, less); auto rk2 = parlay::rank<uint32_t>(v, less); bool ok = rk.size() == n && rk2.size() == n; size_t bad = 0;
    for (size_t i = 0; ok && i < n; i++) { if (rk[in.perm[i]] != i || rk2[in.perm[i]] != i) { ok = false; bad = i; } }
    VF_CHECK(ok, "rank:position", "at %zu, %s", bad, in.desc.c_str());
    VF_CHECK(same(v, orig), "sort:input-changed", "kth/rank changed their input %s", in.desc.c_str());
    event("ranks", 2); eval(H(k, n, hash_str(in.desc)), n > 1);
  }
  auto e = parlay::rank(std::vector<int>{}); VF_CHECK(e.size() == 0, "rank:position", "empty");
  sample("selection at first, last and random positions; ranks of every element");
}
CASE("remove_duplicates_ordered") {
  for (size_t k = 0, R = rounds(120); k < R; k++) {
    size_t n = sortn(rng); Input in = make_input(rng, n, ~uint64_t{0} >> 2); auto v = elements<KV>(in); Less<KV> less{&in}; const auto orig = v;
    auto r = parlay::remove_duplicates_ordered(v, less);
    std::set<int64_t> ks; for (auto x : in.keys) ks.insert(in.o.key(x));
    bool ok = r.size() == ks.size(); auto it = ks.begin();
    for (size_t i = 0; ok && i < r.size(); i++, ++it) ok = in.o.key(r[i].k) == *it && static_cast<uint64_t>(r[i].id) < n && in.keys[static_cast<size_t>(r[i].id)] == r[i].k;
    VF_CHECK(ok, "remove_duplicates_ordered", "%zu of %zu classes, %s", r.size(), ks.size(), in.desc.c_str());
    auto p = parlay::remove_duplicates_ordered(in.keys); std::set<int64_t> pk(in.keys.begin(), in.keys.end()); VF_SAME(p, pk, "remove_duplicates_ordered:plain", "%s", in.desc.c_str());
    VF_CHECK(same(v, orig), "sort:input-changed", "remove_duplicates_ordered %s", in.desc.c_str());
    eval(H(k, n, hash_str(in.desc)), n > 1);
  }
}
CASE("inside parallel work") {   // sorts called from tasks that run concurrently
  for (size_t k = 0, R = rounds(12); k < R; k++) {
    std::vector<Input> ins; for (int i = 0; i < 6; i++) ins.push_back(make_input(rng, std::min<size_t>(sortn(rng), 30000), ~uint64_t{0} >> 2));
    uint64_t s = rng.next();
    parlay::parallel_for(0, 6, [&](size_t i) { Rng r2(s + i); copying<KV>(r2, ins[i]); inplace<KVStr>(r2, ins[i]); }, 1);
    eval(H(k, s));
  }
}
#endif
#if VF_PART == 0 || VF_PART == 2
CASE("very large") {
  if (scale() < 1) return;
  for (size_t k = 0, R = thorough() ? 4 : 1; k < R; k++) {
    size_t n = 5000000 + rng.below(1000000); Input in; 
    std::vector<uint32_t> v(n); uint64_t range = k % 2 ? 1000 : ~0u; for (auto& x : v) x = static_cast<uint32_t>(rng.below(range));
    auto e = v; std::sort(e.begin(), e.end());
    auto a = parlay::sort(v); VF_SAME(a, e, "sort:large", "n=%zu", n);
    auto b = v; parlay::sort_inplace(b); VF_SAME(b, e, "sort:large-inplace", "n=%zu", n);
    std::vector<std::pair<uint32_t, uint32_t>> p(n), pe; for (size_t i = 0; i < n; i++) p[i] = {v[i], static_cast<uint32_t>(i)};
    pe = p; std::sort(pe.begin(), pe.end());
    auto c = parlay::stable_sort(p, [](auto& x, auto& y) { return x.first < y.first; }); VF_SAME(c, pe, "sort:large-stable", "n=%zu", n);
    parlay::stable_sort_inplace(p, [](auto& x, auto& y) { return x.first < y.first; }); VF_SAME(p, pe, "sort:large-stable-inplace", "n=%zu", n);
    eval(H(k, n)); event("large_sorts", 4);
  }
  sample("5-6 million elements");
}
#endif
