// P07: blocks are exclusive, aligned, large enough and keep their content until freed.
#include "gen.h"
#include <parlay/alloc.h>
#include <parlay/primitives.h>
#include <parlay/internal/block_allocator.h>
#include <parlay/internal/pool_allocator.h>
#include <list>

using namespace vf;

// Live base addresses, sharded
struct Live {
  static constexpr size_t S = 256;
  struct alignas(64) Sh { std::atomic_flag l = ATOMIC_FLAG_INIT; std::unordered_map<void*, size_t> m; };
  Sh sh[S];
  Sh& of(void* p) { return sh[mix(reinterpret_cast<uintptr_t>(p)) % S]; }
  void add(void* p, size_t n) { if (!n) return; Sh& s = of(p); LifeMon::G g(s.l); if (!s.m.emplace(p, n).second) fail("alloc:twice", "block %p of %zu bytes handed out while it is live", p, n); }
  void del(void* p) { Sh& s = of(p); LifeMon::G g(s.l); s.m.erase(p); }
};
static Live& live() { static Live* l = new Live; return *l; }

struct Blk { unsigned char* p = nullptr; size_t n = 0; uint64_t key = 0; int api = 0; size_t align = 1; void* owner = nullptr; };
static std::atomic<uint64_t> g_key{1};

// every byte of small blocks, both ends and a stride of large ones
template <class F> static void bytes(size_t n, F f) {
  if (n <= 2048) { for (size_t i = 0; i < n; i++) f(i); return; }
  for (size_t i = 0; i < 256; i++) f(i);
  for (size_t i = 256; i + 256 < n; i += 509) f(i);
  for (size_t i = n - 256; i < n; i++) f(i);
}
static void fill(Blk& b) { b.key = mix(g_key++); bytes(b.n, [&](size_t i) { b.p[i] = static_cast<unsigned char>(b.key + i * 131); }); }
static void verify(const Blk& b, const char* when) {
  size_t badi = ~size_t{0};
  bytes(b.n, [&](size_t i) { if (b.p[i] != static_cast<unsigned char>(b.key + i * 131) && badi == ~size_t{0}) badi = i; });
  if (badi != ~size_t{0}) fail("alloc:content", "byte %zu of a live block of %zu bytes (api %d align %zu) changed, seen %s", badi, b.n, b.api, b.align, when);
}
template <size_t S, size_t A> struct alignas(A) Obj { unsigned char c[S]; };
template <class T> static void talloc(Blk& b) { b.p = reinterpret_cast<unsigned char*>(parlay::type_allocator<T>::alloc()); b.n = sizeof(T); b.align = alignof(T); }
template <class T> static void aalloc(Blk& b, size_t n) { parlay::allocator<T> a; b.p = reinterpret_cast<unsigned char*>(a.allocate(n)); b.n = n * sizeof(T); b.align = alignof(T); }
template <class T> static void afree(Blk& b) { parlay::allocator<T> a; a.deallocate(reinterpret_cast<T*>(b.p), b.n / sizeof(T)); }

static size_t pick_bytes(Rng& r, size_t cap) {
  size_t n;
  switch (r.below(8)) {
    case 0: n = r.below(20); break;
    case 1: case 2: n = (size_t{1} << r.below(12)) + r.below(3) - 1; break;
    case 3: n = r.below(3000); break;
    case 4: n = (size_t{1} << (10 + r.below(12))) + r.below(5) - 2; break;
    case 5: n = (size_t{1} << r.below(20)) - 64 + r.below(130); if (n > (size_t{1} << 21)) n = 100; break;  // near the size with p_malloc's padding
    case 6: n = r.below(300000); break;
    default: n = 1 + r.below(200);
  }
  return std::min(n, cap);
}
static Blk get(Rng& r, size_t cap, std::vector<parlay::internal::block_allocator*>* bas, std::vector<parlay::internal::pool_allocator*>* pas) {
  Blk b; b.api = static_cast<int>(r.below(15));
  size_t n = pick_bytes(r, cap);
  switch (b.api) {
    case 0: case 1: b.n = n; b.align = alignof(std::max_align_t); b.p = static_cast<unsigned char*>(parlay::p_malloc(n)); break;
    case 2: b.n = n; b.align = size_t{1} << r.below(13); b.p = static_cast<unsigned char*>(parlay::p_malloc(n, b.align)); break;
    case 3: aalloc<char>(b, n); break;
    case 4: aalloc<long>(b, n / 8); break;
    case 5: aalloc<Obj<64, 64>>(b, n / 64); break;
    case 6: aalloc<Obj<256, 256>>(b, n / 256); break;     // over-aligned
    case 7: aalloc<Obj<24, 8>>(b, n / 24); break;
    case 8: talloc<Obj<1, 1>>(b); break;
    case 9: talloc<Obj<40, 8>>(b); break;
    case 10: talloc<Obj<256, 128>>(b); break;
    case 11: talloc<Obj<1024, 512>>(b); break;
    case 12: if (cap > 200000) { talloc<Obj<140000, 8>>(b); } else talloc<Obj<96, 32>>(b), b.api = 112; break;
    case 13: { auto* a = (*bas)[r.below(bas->size())]; b.owner = a; b.p = static_cast<unsigned char*>(a->alloc()); b.n = a->get_block_size(); b.align = 8; break; }
    default: { auto* a = (*pas)[r.below(pas->size())]; b.owner = a; b.n = std::min<size_t>(n, 700000); b.align = 8; b.p = static_cast<unsigned char*>(a->allocate(b.n)); }
  }
  if (b.p == nullptr) { fail("alloc:null", "allocation of %zu bytes returned null (api %d)", b.n, b.api); b.n = 0; return b; }
  if (reinterpret_cast<uintptr_t>(b.p) % b.align) fail("alloc:align", "block %p of %zu bytes is not aligned to %zu (api %d)", static_cast<void*>(b.p), b.n, b.align, b.api);
  live().add(b.p, b.n);
  fill(b);
  return b;
}
static void put(Blk& b) {
  if (!b.p) return;
  verify(b, "at free");
  if (b.n) live().del(b.p);
  switch (b.api) {
    case 0: case 1: case 2: parlay::p_free(b.p); break;
    case 3: afree<char>(b); break;
    case 4: afree<long>(b); break;
    case 5: afree<Obj<64, 64>>(b); break;
    case 6: afree<Obj<256, 256>>(b); break;
    case 7: afree<Obj<24, 8>>(b); break;
    case 8: parlay::type_allocator<Obj<1, 1>>::free(reinterpret_cast<Obj<1, 1>*>(b.p)); break;
    case 9: parlay::type_allocator<Obj<40, 8>>::free(reinterpret_cast<Obj<40, 8>*>(b.p)); break;
    case 10: parlay::type_allocator<Obj<256, 128>>::free(reinterpret_cast<Obj<256, 128>*>(b.p)); break;
    case 11: parlay::type_allocator<Obj<1024, 512>>::free(reinterpret_cast<Obj<1024, 512>*>(b.p)); break;
    case 12: parlay::type_allocator<Obj<140000, 8>>::free(reinterpret_cast<Obj<140000, 8>*>(b.p)); break;
    case 112: parlay::type_allocator<Obj<96, 32>>::free(reinterpret_cast<Obj<96, 32>*>(b.p)); break;
    case 13: static_cast<parlay::internal::block_allocator*>(b.owner)->free(b.p); break;
    default: static_cast<parlay::internal::pool_allocator*>(b.owner)->deallocate(b.p, b.n);
  }
  b.p = nullptr;
}

struct Own {   // allocators made just for the run, with unusual shapes
  std::vector<std::unique_ptr<parlay::internal::block_allocator>> b; std::vector<parlay::internal::block_allocator*> bp;
  std::vector<std::unique_ptr<parlay::internal::pool_allocator>> p; std::vector<parlay::internal::pool_allocator*> pp;
  Own() {
    for (size_t ll : {1, 2, 3, 5, 64}) for (size_t bs : {1, 24, 200}) b.emplace_back(new parlay::internal::block_allocator(bs, 16, 0, ll));
    b.emplace_back(new parlay::internal::block_allocator(100000)); b.emplace_back(new parlay::internal::block_allocator(300000));
    p.emplace_back(new parlay::internal::pool_allocator(std::vector<size_t>{8, 16, 64, 72, 1000, 4096}));
    p.emplace_back(new parlay::internal::pool_allocator(std::vector<size_t>{32, 4096, 300000, 500000}));
    for (auto& x : b) bp.push_back(x.get()); for (auto& x : p) pp.push_back(x.get());
  }
};
static std::string apis = "p_malloc with and without alignment, allocator<T>, type_allocator<T>, block_allocator, pool_allocator";

// one thread, every API, clears in between
// Types of one size and different alignments: each must get blocks of its own alignment, whichever was used first
template <class A, class B> static void same_size(size_t n) {
  std::vector<std::pair<Blk, bool>> v;
  auto one = [&](bool first) {
    Blk b; if (first) talloc<A>(b); else talloc<B>(b);
    if (b.p == nullptr) { fail("alloc:null", "type_allocator of a type of %zu bytes returned null", b.n); return; }
    if (reinterpret_cast<uintptr_t>(b.p) % b.align) fail("alloc:align", "block %p of a type of %zu bytes with alignment %zu is not aligned to it (other type of that size: %zu)", static_cast<void*>(b.p), b.n, b.align, first ? alignof(B) : alignof(A));
    live().add(b.p, b.n); fill(b); v.emplace_back(b, first);
    eval(H(b.n, b.align, first ? alignof(B) : alignof(A)));
  };
  for (size_t i = 0; i < n; i++) one(true);
  for (size_t i = 0; i < n; i++) one(false);
  for (size_t i = 0; i < 2 * n; i++) one(i % 3 == 0);
  for (auto& x : v) {
    verify(x.first, "with two types of one size"); live().del(x.first.p);
    if (x.second) parlay::type_allocator<A>::free(reinterpret_cast<A*>(x.first.p)); else parlay::type_allocator<B>::free(reinterpret_cast<B*>(x.first.p));
  }
  event("same_size_blocks", v.size());
}
CASE("same-size-alignments") {
  (void)rng;
  same_size<Obj<512, 8>, Obj<512, 512>>(200);
  same_size<Obj<1024, 1024>, Obj<1024, 16>>(200);
  same_size<Obj<2048, 64>, Obj<2048, 2048>>(150);
  same_size<Obj<4096, 16>, Obj<4096, 4096>>(100);
  same_size<Obj<192, 1>, Obj<192, 64>>(300);
  same_size<Obj<256, 32>, Obj<256, 128>>(300);
  same_size<Obj<32, 1>, Obj<32, 32>>(300);
}

CASE("one-thread") {
  Own own; std::vector<Blk> v; uint64_t bytes_ = 0;
  for (size_t it = 0, R = rounds(30000, 10); it < R; it++) {
    if (v.size() < 300 && rng.chance(5, 9)) { v.push_back(get(rng, rng.chance(1, 10) ? size_t{1} << 22 : 100000, &own.bp, &own.pp)); bytes_ += v.back().n; eval(H(v.back().api, v.back().n, v.back().align)); }
    else if (!v.empty()) { size_t i = rng.below(v.size()); if (rng.chance(1, 3)) i = v.size() - 1; put(v[i]); v[i] = v.back(); v.pop_back(); }
    if (rng.chance(1, 1000)) { parlay::internal::memory_clear(); for (auto* a : own.pp) a->clear(); event("clears_with_live_blocks"); }
    if (rng.chance(1, 1000)) for (auto& b : v) verify(b, "between operations");
  }
  event("blocks", rounds(30000, 10) / 2); for (auto& b : v) put(b);
  sample("%s: %llu bytes allocated", apis.c_str(), static_cast<unsigned long long>(bytes_));
}

// threads that pass their blocks to each other
static void exchange(Rng& rng, int T, size_t ops, size_t cap, bool churn) {
  Own own;
  struct Box { std::mutex m; std::vector<Blk> v; };
  std::vector<Box> box(static_cast<size_t>(T)); std::atomic<uint64_t> crossed{0}, made{0}; uint64_t sd = rng.next();
  auto body = [&](int t, size_t nops, uint64_t s) {
    Rng r(mix(s)); std::vector<Blk> mine;
    for (size_t i = 0; i < nops; i++) {
      uint64_t c = r.below(10);
      if (c < 5 && mine.size() < 200) { mine.push_back(get(r, r.chance(1, 60) ? 400000 : cap, &own.bp, &own.pp)); made++; }
      else if (c < 7 && !mine.empty()) { size_t k = r.below(mine.size()); put(mine[k]); mine[k] = mine.back(); mine.pop_back(); }
      else if (c == 7 && !mine.empty()) { auto& b = box[r.below(static_cast<uint64_t>(T))]; std::lock_guard<std::mutex> g(b.m); b.v.push_back(mine.back()); mine.pop_back(); }
      else if (c == 8) { std::vector<Blk> got; { auto& b = box[static_cast<size_t>(t)]; std::lock_guard<std::mutex> g(b.m); got.swap(b.v); } for (auto& b : got) { put(b); crossed++; } }
      else if (r.chance(1, 20)) for (auto& b : mine) verify(b, "while live");
    }
    for (auto& b : mine) { auto& x = box[r.below(static_cast<uint64_t>(T))]; std::lock_guard<std::mutex> g(x.m); x.v.push_back(b); }
  };
  if (!churn) { std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back(body, t, ops, sd + static_cast<uint64_t>(t)); for (auto& x : th) x.join(); }
  else for (int w = 0; w < 8; w++) { std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back(body, t, ops / 8, sd + static_cast<uint64_t>(t + 100 * w)); for (auto& x : th) x.join(); }
  for (auto& b : box) for (auto& x : b.v) put(x);
  event("blocks", made); event("cross_thread_frees", crossed); eval(H(sd, crossed.load()));
  sample("%d threads, %llu blocks, %llu freed by another thread", T, static_cast<unsigned long long>(made.load()), static_cast<unsigned long long>(crossed.load()));
}
CASE("exchange") { for (size_t it = 0, R = rounds(6, 8); it < R; it++) exchange(rng, 8, 8000, 3000, false); }
CASE("exchange-large") { for (size_t it = 0, R = rounds(3, 8); it < R; it++) exchange(rng, 6, 1500, 2000000, false); }
CASE("exchange-churn") { for (size_t it = 0, R = rounds(5, 8); it < R; it++) exchange(rng, 8, 4000, 2000, true); }

// the same few size classes hammered by all threads: refills and returns of whole lists collide
CASE("list-transfer") {
  for (size_t it = 0, R = rounds(30, 8); it < R; it++) {
    size_t ll = 1 + rng.below(6), bs = 8 + 8 * rng.below(12); int T = static_cast<int>(2 + rng.below(7));
    parlay::internal::block_allocator ba(bs, 16, 0, ll); std::vector<std::thread> th; std::atomic<uint64_t> n{0}; SpinBarrier bar(T); uint64_t sd = rng.next();
    std::vector<std::vector<Blk>> hand(static_cast<size_t>(T));
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
      Rng r(mix(sd + static_cast<uint64_t>(t)));
      for (int ph = 0; ph < 6; ph++) {
        auto& h = hand[static_cast<size_t>(t)];
        size_t k = 1 + r.below(12 * ll + 40);
        for (size_t i = 0; i < k; i++) { Blk b; b.p = static_cast<unsigned char*>(ba.alloc()); b.n = bs; b.api = 13; b.owner = &ba; live().add(b.p, bs); fill(b); h.push_back(b); n++; if (r.chance(1, 3) && !h.empty()) { put(h.back()); h.pop_back(); } }
        bar.wait();
        auto& o = hand[static_cast<size_t>((t + 1) % T)];
        for (auto& b : o) put(b); o.clear();
        bar.wait();
      }
    });
    for (auto& x : th) x.join();
    VF_CHECK(ba.num_used_blocks() == 0, "alloc:used", "%zu blocks counted as used after all were freed (list length %zu)", ba.num_used_blocks(), ll);
    event("list_transfer_blocks", n); eval(H(ll, bs, T, sd));
    sample("%d threads, lists of %zu blocks of %zu bytes, freed by the neighbour", T, ll, bs);
  }
}

// tasks on a work-stealing pool: allocation and free of one block may run on different workers
CASE("tasks") {
  Own own;
  for (size_t it = 0, R = rounds(30, 8); it < R; it++) {
    size_t n = 2000; std::vector<Blk> v(n); uint64_t sd = rng.next();
    parlay::parallel_for(0, n, [&](size_t i) { Rng r(mix(sd + i)); v[i] = get(r, 4000, &own.bp, &own.pp); }, 1);
    parlay::parallel_for(0, n, [&](size_t i) { size_t j = (i * 7919) % n; if (mix(j + sd) % 2) put(v[j]); }, 1);
    parlay::parallel_for(0, n, [&](size_t i) { Rng r(mix(sd - i)); if (!v[i].p) v[i] = get(r, 2000, &own.bp, &own.pp); else verify(v[i], "in a task"); }, 1);
    parlay::parallel_for(0, n, [&](size_t i) { put(v[(i * 31) % n]); }, 1);
    event("task_blocks", n); eval(H(sd));
  }
  sample("2000 blocks allocated and freed in different tasks");
}

// as an allocator of standard containers, and create/destroy of objects
CASE("containers") {
  for (size_t it = 0, R = rounds(60, 8); it < R; it++) {
    std::vector<int, parlay::allocator<int>> v; std::list<std::string, parlay::allocator<std::string>> l; std::map<int, int, std::less<int>, parlay::allocator<std::pair<const int, int>>> m;
    std::vector<int> rv; std::list<std::string> rl; std::map<int, int> rm;
    for (size_t k = 0, n = rng.below(3000); k < n; k++) { int x = static_cast<int>(rng.next()); v.push_back(x); rv.push_back(x); l.push_back(std::to_string(x)); rl.push_back(std::to_string(x)); m[x % 100] = x; rm[x % 100] = x; if (k % 3 == 0) { l.pop_front(); rl.pop_front(); } }
    VF_SAME(v, rv, "alloc:container", "vector"); VF_SAME(l, rl, "alloc:container", "list"); VF_SAME(m, rm, "alloc:container", "map");
    { using TA = parlay::type_allocator<TrackedCopy>; std::vector<TrackedCopy*> ps; for (int i = 0; i < 200; i++) ps.push_back(TA::create(int64_t{i})); for (int i = 0; i < 200; i++) { VF_CHECK(ps[static_cast<size_t>(i)]->get() == i, "alloc:create", "created object holds %lld", static_cast<long long>(ps[static_cast<size_t>(i)]->v)); TA::destroy(ps[static_cast<size_t>(i)]); } }
    LifeMon::get().expect_none("create/destroy");
    eval(H(rv.size())); event("container_elements", rv.size());
  }
  sample("std::vector, list and map on parlay::allocator against the default allocator");
}

// p_malloc sizes around every power of two and every alignment, kept live together
CASE("p_malloc-grid") {
  std::vector<Blk> v;
  for (size_t lg = 0; lg <= (thorough() ? 24u : 21u); lg++) for (int d = -66; d <= 66; d += (lg > 12 ? 11 : 3)) for (size_t la : {0, 3, 4, 6, 7, 8, 12, 16}) {
    int64_t n = (int64_t{1} << lg) + d; if (n < 0) continue;
    Blk b; b.n = static_cast<size_t>(n); b.align = size_t{1} << la; b.api = 2; b.p = static_cast<unsigned char*>(parlay::p_malloc(b.n, b.align));
    if (reinterpret_cast<uintptr_t>(b.p) % b.align) fail("alloc:align", "p_malloc(%zu, %zu) gave %p", b.n, b.align, static_cast<void*>(b.p));
    live().add(b.p, b.n); fill(b); v.push_back(b); eval(H(n, la)); event("grid_blocks");
    if (v.size() > 400 || (b.n > 100000 && v.size() > 30)) { for (auto& x : v) put(x); v.clear(); }
  }
  for (auto& x : v) put(x);
  sample("all powers of two -66..+66 bytes, alignments 1 to 65536");
}
