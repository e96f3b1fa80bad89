// P21: the phase-concurrent hash table against an ordered map; the user-supplied hashing structure injects
// collisions, delays and forced retries.
#include "gen.h"
#include <map>
#include <parlay/hash_table.h>
#include <parlay/primitives.h>
using namespace vf;

namespace {
std::atomic<uint64_t> g_cas{0}, g_cas_lost{0}, g_displaced{0};
thread_local uint64_t t_rng = 0;
std::atomic<uint64_t> t_seed{1};
uint64_t trnd() { if (!t_rng) t_rng = mix(t_seed++); return t_rng = mix(t_rng); }

struct Mode { int hash = 0; size_t m = 0; uint64_t span = 1; uint64_t salt = 0; int order = 0; unsigned delay = 0; };
// where the probe of a key starts
size_t place(const Mode& o, uint64_t k) {
  switch (o.hash) {
    case 0: return mix(k ^ o.salt);
    case 1: return o.salt % o.m;                              // all at one place
    case 2: return o.m - 1 - k % std::min<uint64_t>(o.span, o.m);   // around the end of the table
    case 3: return (mix(k ^ o.salt) % o.span) * 7 % o.m;      // few places
    case 4: return k;                                         // identity
    case 5: return o.m - o.span + mix(k ^ o.salt) % (2 * o.span);    // a window across the end (o.span <= o.m)
    case 6: return k / 4 + o.salt;                            // runs of four
    default: return mix(k ^ o.salt) % (o.m / 2 + 1);          // half the table
  }
}
int ordered(const Mode& o, uint64_t a, uint64_t b) {          // any total order of the keys will do
  if (a == b) return 0;
  switch (o.order) { case 0: return a > b ? 1 : -1; case 1: return a < b ? 1 : -1; default: { auto x = mix(a ^ 77), y = mix(b ^ 77); return x > y ? 1 : -1; } }
}
template <class E> bool real_cas(E* p, E o, E n, const Mode& md) {
  g_cas.fetch_add(1, std::memory_order_relaxed);
  auto pause = [&] { if (md.delay && trnd() % md.delay == 0) { if (trnd() % 8 == 0) std::this_thread::yield(); else spin_ns(trnd() % 3000); } };
  pause();
  bool ok = __atomic_compare_exchange(p, &o, &n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (!ok) g_cas_lost.fetch_add(1, std::memory_order_relaxed);
  pause();
  return ok;
}
// plain keys
struct KeyH {
  using eType = uint64_t; using kType = uint64_t; Mode o;
  eType empty() { return ~uint64_t{0}; }
  kType getKey(eType v) { return v; }
  size_t hash(kType k) { return place(o, k); }
  int cmp(kType a, kType b) { return ordered(o, a, b); }
  bool replaceQ(eType, eType) { return false; }
  eType update(eType c, eType) { return c; }
  bool cas(eType* p, eType a, eType b) { return real_cas(p, a, b, o); }
  static eType mk(uint64_t k, uint32_t) { return k; }
  static uint64_t key(eType e) { return e; } static uint32_t val(eType) { return 0; }
};
// key and value in one word; equal keys are resolved to the smaller value by insert and summed by update
struct alignas(8) KVe { uint32_t k, v; friend bool operator==(KVe a, KVe b) { return a.k == b.k && a.v == b.v; } friend bool operator!=(KVe a, KVe b) { return !(a == b); } };
enum Rule { kKeepFirst, kMin, kSum };
struct PairH {
  using eType = KVe; using kType = uint32_t; Mode o; Rule rule = kMin;
  eType empty() { return {~0u, ~0u}; }
  kType getKey(eType e) { return e.k; }
  size_t hash(kType k) { return place(o, k); }
  int cmp(kType a, kType b) { return ordered(o, a, b); }
  bool replaceQ(eType n, eType c) { return rule == kMin ? n.v < c.v : rule == kSum; }
  eType update(eType c, eType n) { return {c.k, rule == kSum ? c.v + n.v : n.v}; }
  bool cas(eType* p, eType a, eType b) { return real_cas(p, a, b, o); }
};
// pointers to records
struct Recd { uint64_t k, v; };
struct PtrH {
  using eType = Recd*; using kType = uint64_t; Mode o;
  eType empty() { return nullptr; }
  kType getKey(eType e) { return e->k; }
  size_t hash(kType k) { return place(o, k); }
  int cmp(kType a, kType b) { return ordered(o, a, b); }
  bool replaceQ(eType n, eType c) { return n->v > c->v; }
  eType update(eType c, eType n) { return n->v > c->v ? n : c; }
  bool cas(eType* p, eType a, eType b) { return real_cas(p, a, b, o); }
};

Mode pick_mode(Rng& r, size_t size, double load, bool contended) {
  Mode o; o.m = 100 + static_cast<size_t>(load * static_cast<double>(size));
  o.hash = static_cast<int>(r.below(8)); o.salt = r.next() >> r.below(40); o.span = 1 + r.below(std::min<uint64_t>(o.m / 2, 1 + 3 * size)); o.order = static_cast<int>(r.below(3));
  if (o.hash == 1 || o.hash == 3) { if (size > 600) o.hash = 0; else if (o.hash == 3) o.span = 1 + r.below(8); }
  if (o.hash == 2 && size > 600) o.span = std::max<uint64_t>(o.span, size / 4);
  if (o.hash == 5 && size > 600) o.span = std::max<uint64_t>(o.span, size / 4);
  if (contended) { o.delay = r.chance(1, 3) ? 0 : static_cast<unsigned>(1 + r.below(12)); }
  return o;
}
// run ops on `threads` threads released together (or with the library's own parallel loop)
template <class F> void phase(Rng& r, size_t n, bool own_threads, F&& f) {
  if (!n) return;
  if (!own_threads) { parlay::parallel_for(0, n, [&](size_t i) { f(i); }, r.chance(1, 2) ? 1 : 0); return; }
  size_t T = 2 + r.below(6); SpinBarrier b(static_cast<int>(T)); std::vector<std::thread> th; std::atomic<size_t> next{0}; bool dealt = r.chance(1, 2);
  for (size_t t = 0; t < T; t++) th.emplace_back([&, t] {
    b.wait();
    if (dealt) for (size_t i = t; i < n; i += T) f(i);
    else for (size_t i; (i = next++) < n;) f(i);
  });
  for (auto& t : th) t.join();
}
// everything that can be seen of the table at rest
template <class Tab, class Map, class Key, class Same, class Fresh>
void inspect(Tab& t, const Map& model, uint64_t universe, Key key, Same same, Fresh fresh, bool own, Rng& r, const char* what) {
  size_t c = t.count();
  VF_CHECK(c == model.size(), "hash:count", "%s: count %zu, expected %zu", what, c, model.size());
  auto e = t.entries();
  VF_CHECK(e.size() == model.size(), "hash:entries-size", "%s: %zu entries, expected %zu", what, static_cast<size_t>(e.size()), model.size());
  std::set<uint64_t> seen;
  for (auto x : e) {
    auto it = model.find(key(x));
    if (it == model.end()) fail("hash:entries-foreign", "%s: an entry with key %llu, which is not in the table", what, static_cast<unsigned long long>(key(x)));
    else if (!same(x, it->second)) fail("hash:entries-value", "%s: wrong value for key %llu among the entries", what, static_cast<unsigned long long>(key(x)));
    if (!seen.insert(key(x)).second) fail("hash:entries-twice", "%s: key %llu is there twice", what, static_cast<unsigned long long>(key(x)));
  }
  // the order of the entries is a function of the content
  auto f = fresh(model);
  auto fe = f.entries();
  bool eq = fe.size() == e.size();
  for (size_t i = 0; eq && i < e.size(); i++) eq = key(fe[i]) == key(e[i]);
  VF_CHECK(eq, "hash:history", "%s: the order of the %zu entries differs from that of a table filled with the same content in key order", what, static_cast<size_t>(e.size()));
  auto ix = t.get_index();
  // search phase: present and absent keys
  std::atomic<uint64_t> bad_find{0}, bad_absent{0}, bad_index{0}; std::atomic<uint64_t> ex{0};
  size_t Q = std::min<uint64_t>(universe, 3000); uint64_t off = universe > Q ? r.below(universe - Q) : 0;
  phase(r, Q, own, [&](size_t q) {
    uint64_t k = off + q; auto it = model.find(static_cast<typename Map::key_type>(k));
    auto got = t.find(static_cast<typename Map::key_type>(k)); auto pos = t.findIndex(static_cast<typename Map::key_type>(k));
    if (it == model.end()) { if (got != t_empty(t, got)) { bad_absent++; ex = k; } if (pos != static_cast<size_t>(-1)) { bad_index++; ex = k; } }
    else {
      if (got == t_empty(t, got) || !same(got, it->second)) { bad_find++; ex = k; }
      else if (pos >= ix.size()) { bad_index++; ex = k; }
      else if (ix[pos] >= e.size() || !(e[ix[pos]] == got)) { bad_index++; ex = k; }
    }
  });
  VF_CHECK(!bad_find, "hash:find", "%s: %llu keys present were not found (or with a wrong value), such as %llu", what, static_cast<unsigned long long>(bad_find.load()), static_cast<unsigned long long>(ex.load()));
  VF_CHECK(!bad_absent, "hash:find-absent", "%s: %llu absent keys were found, such as %llu", what, static_cast<unsigned long long>(bad_absent.load()), static_cast<unsigned long long>(ex.load()));
  VF_CHECK(!bad_index, "hash:index", "%s: findIndex / get_index do not lead to the entry of %llu keys, such as %llu", what, static_cast<unsigned long long>(bad_index.load()), static_cast<unsigned long long>(ex.load()));
  event("searches", Q); event("inspections");
}
template <class Tab> uint64_t t_empty(Tab&, uint64_t) { return ~uint64_t{0}; }
template <class Tab> KVe t_empty(Tab&, KVe) { return {~0u, ~0u}; }
template <class Tab> Recd* t_empty(Tab&, Recd*) { return nullptr; }
void flush_counts() { event("cas", g_cas.exchange(0)); event("cas_lost", g_cas_lost.exchange(0)); }

size_t pick_table(Rng& r, size_t cap) { return std::min<size_t>(cap, r.chance(1, 2) ? 1 + r.below(40) : r.chance(1, 2) ? r.below(400) : r.below(cap + 1)); }

void key_history(Rng& rng, size_t cap, bool own) {
  size_t size = pick_table(rng, cap); double load = rng.chance(1, 2) ? 1.5 : 1.1 + static_cast<double>(rng.below(20)) / 10;
  KeyH h; h.o = pick_mode(rng, size, load, own || rng.chance(1, 3));
  size_t room = size;
  uint64_t universe = std::max<uint64_t>(1, rng.chance(1, 2) ? room : room * (1 + rng.below(4)));
  parlay::hashtable<KeyH> t(size, h, load);
  std::map<uint64_t, uint32_t> model;
  auto fresh = [&](auto& mo) { KeyH q = h; q.o.delay = 0; parlay::hashtable<KeyH> f(size, q, load); for (auto& [k, v] : mo) f.insert(k); return f; };
  char what[160]; size_t phases = 2 + rng.below(7);
  for (size_t ph = 0; ph < phases; ph++) {
    int kind = static_cast<int>(rng.below(5)); if (ph == 0) kind = 0;
    size_t n0 = model.size();
    if (kind <= 2) {   // insertions, with repetitions
      size_t space = room - std::min(room, model.size());
      std::vector<uint64_t> ks; std::set<uint64_t> fresh_keys;
      size_t want = rng.chance(1, 3) ? 2 * room : rng.below(room + 1); bool runs = rng.chance(1, 3); uint64_t start = rng.below(universe);
      for (size_t i = 0; i < want; i++) { uint64_t k = runs ? (start + i) % universe : rng.below(universe); if (!model.count(k) && !fresh_keys.count(k)) { if (fresh_keys.size() >= space) continue; fresh_keys.insert(k); } size_t rep = rng.chance(1, 4) ? 1 + rng.below(8) : 1; while (rep--) ks.push_back(k); }
      if (rng.chance(1, 2)) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.below(i)]);
      std::atomic<uint64_t> ok{0};
      phase(rng, ks.size(), own, [&](size_t i) { if (trnd() % 4 == 0 ? t.update(ks[i]) : t.insert(ks[i])) ok++; });
      for (auto k : fresh_keys) model[k] = 0;
      snprintf(what, sizeof what, "%zu insertions (%zu new) into %zu keys, size %zu, hash %d span %llu, phase %zu", ks.size(), fresh_keys.size(), n0, size, h.o.hash, static_cast<unsigned long long>(h.o.span), ph);
      VF_CHECK(ok == fresh_keys.size(), "hash:successes", "%s: %llu insertions reported success", what, static_cast<unsigned long long>(ok.load()));
      event("insertions", ks.size());
    } else {           // deletions, of present and absent keys, with repetitions
      std::vector<uint64_t> ks; std::vector<uint64_t> in; for (auto& [k, v] : model) in.push_back(k);
      size_t pct = rng.chance(1, 4) ? 100 : rng.below(101); bool rep = rng.chance(1, 2);
      for (auto k : in) if (rng.below(100) < pct) { ks.push_back(k); while (rep && rng.chance(1, 3)) ks.push_back(k); }
      for (size_t i = 0, A = rng.below(ks.size() / 3 + 3); i < A; i++) ks.push_back(rng.below(2 * universe));
      if (rng.chance(1, 2)) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.below(i)]);
      phase(rng, ks.size(), own, [&](size_t i) { t.deleteVal(ks[i]); });
      for (auto k : ks) model.erase(k);
      snprintf(what, sizeof what, "%zu deletions from %zu keys (%zu left), size %zu, hash %d span %llu, phase %zu", ks.size(), n0, model.size(), size, h.o.hash, static_cast<unsigned long long>(h.o.span), ph);
      event("deletions", ks.size());
    }
    inspect(t, model, universe + 5, [](uint64_t e) { return e; }, [](uint64_t, uint32_t) { return true; }, fresh, own, rng, what);
    eval(H(size, h.o.hash, h.o.salt, ph, model.size(), n0), n0 + model.size() > 1);
  }
  sample("%s", what);
}

void pair_history(Rng& rng, size_t cap, bool own, Rule rule) {
  size_t size = pick_table(rng, cap); double load = rng.chance(1, 2) ? 1.5 : 1.1;
  PairH h; h.rule = rule; h.o = pick_mode(rng, size, load, own || rng.chance(1, 3));
  size_t room = size; uint64_t universe = std::max<uint64_t>(1, rng.chance(1, 2) ? room : room * 3);
  parlay::hashtable<PairH> t(size, h, load);
  std::map<uint32_t, std::set<uint32_t>> model;    // acceptable values
  auto fresh = [&](auto& mo) { PairH q = h; q.o.delay = 0; parlay::hashtable<PairH> f(size, q, load); for (auto& [k, v] : mo) f.insert(KVe{k, *v.begin()}); return f; };
  char what[160]; size_t phases = 2 + rng.below(6); what[0] = 0;
  for (size_t ph = 0; ph < phases; ph++) {
    size_t n0 = model.size();
    if (ph == 0 || rng.chance(2, 3)) {
      size_t space = room - std::min(room, model.size()); bool by_update = rule == kSum || rng.chance(1, 2);
      std::vector<KVe> ks; std::set<uint32_t> fresh_keys;
      for (size_t i = 0, want = rng.below(2 * room + 2); i < want; i++) {
        uint32_t k = static_cast<uint32_t>(rng.below(universe));
        if (!model.count(k) && !fresh_keys.count(k)) { if (fresh_keys.size() >= space) continue; fresh_keys.insert(k); }
        size_t rep = rng.chance(1, 3) ? 1 + rng.below(8) : 1; while (rep--) ks.push_back({k, static_cast<uint32_t>(rng.below(1000))});
      }
      if (rng.chance(1, 2)) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.below(i)]);
      std::atomic<uint64_t> ok{0};
      phase(rng, ks.size(), own, [&](size_t i) { if (by_update ? t.update(ks[i]) : t.insert(ks[i])) ok++; });
      std::map<uint32_t, std::vector<uint32_t>> ins; for (auto e : ks) ins[e.k].push_back(e.v);
      for (auto& [k, v] : ins) {
        auto it = model.find(k);
        if (rule == kSum) { uint32_t s = it == model.end() ? 0 : *it->second.begin(); for (auto x : v) s += x; model[k] = {s}; }
        else if (rule == kMin) { uint32_t mn = it == model.end() ? ~0u : *it->second.begin(); for (auto x : v) mn = std::min(mn, x); model[k] = {mn}; }
        else for (auto x : v) model[k].insert(x);   // an earlier value can be lost too: the staged case below shows and judges that
      }
      snprintf(what, sizeof what, "%zu %s with rule %d (%zu new keys) into %zu, size %zu, hash %d, phase %zu", ks.size(), by_update ? "updates" : "insertions", rule, fresh_keys.size(), n0, size, h.o.hash, ph);
      if (rule == kSum) VF_CHECK(ok == ks.size(), "hash:update-successes", "%s: %llu reported success", what, static_cast<unsigned long long>(ok.load()));
      else if (rule == kKeepFirst) VF_CHECK(ok == fresh_keys.size(), "hash:successes", "%s: %llu reported success", what, static_cast<unsigned long long>(ok.load()));
      else VF_CHECK(ok >= fresh_keys.size() && ok <= ks.size(), "hash:successes", "%s: %llu reported success", what, static_cast<unsigned long long>(ok.load()));
      event("pair_insertions", ks.size());
    } else {
      std::vector<uint32_t> ks; size_t pct = rng.below(101);
      for (auto& [k, v] : model) if (rng.below(100) < pct) { ks.push_back(k); if (rng.chance(1, 4)) ks.push_back(k); }
      for (size_t i = 0, A = rng.below(ks.size() / 3 + 3); i < A; i++) ks.push_back(static_cast<uint32_t>(rng.below(2 * universe)));
      if (rng.chance(1, 2)) for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[rng.below(i)]);
      phase(rng, ks.size(), own, [&](size_t i) { t.deleteVal(ks[i]); });
      for (auto k : ks) model.erase(k);
      snprintf(what, sizeof what, "%zu deletions from %zu pairs (%zu left), rule %d, size %zu, hash %d, phase %zu", ks.size(), n0, model.size(), rule, size, h.o.hash, ph);
      event("deletions", ks.size());
    }
    inspect(t, model, universe + 5, [](KVe e) { return e.k; }, [](KVe e, const std::set<uint32_t>& ok) { return ok.count(e.v) > 0; }, fresh, own, rng, what);
    if (rule == kKeepFirst) for (auto e : t.entries()) model[e.k] = {e.v};   // whichever came first is the value from now on
    eval(H(size, h.o.hash, h.o.salt, ph, model.size(), n0, rule), n0 + model.size() > 1);
  }
  sample("%s", what);
}
void pointer_history(Rng& rng, size_t cap, bool own) {
  size_t size = pick_table(rng, cap); PtrH h; h.o = pick_mode(rng, size, 1.5, own);
  parlay::hashtable<PtrH> t(size, h);
  std::vector<std::unique_ptr<Recd>> store; std::map<uint64_t, Recd*> model; uint64_t universe = size + 1;
  auto fresh = [&](auto& mo) { PtrH q = h; q.o.delay = 0; parlay::hashtable<PtrH> f(size, q); for (auto& [k, v] : mo) f.insert(v); return f; };
  char what[120]; what[0] = 0;
  for (size_t ph = 0; ph < 4; ph++) {
    size_t n0 = model.size();
    if (ph % 2 == 0) {
      std::vector<Recd*> ks;
      for (size_t i = 0, want = rng.below(2 * size + 2); i < want; i++) {
        uint64_t k = rng.below(universe); if (!model.count(k) && model.size() >= size) continue;
        store.push_back(std::make_unique<Recd>(Recd{k, rng.next()})); Recd* p = store.back().get(); ks.push_back(p);
        auto [it, nu] = model.emplace(k, p); if (!nu && p->v > it->second->v) it->second = p;
      }
      phase(rng, ks.size(), own, [&](size_t i) { if (i % 3) t.insert(ks[i]); else t.update(ks[i]); });
      snprintf(what, sizeof what, "%zu pointer insertions into %zu, size %zu, hash %d", ks.size(), n0, size, h.o.hash);
    } else {
      std::vector<uint64_t> ks; for (auto& [k, v] : model) if (rng.chance(1, 2)) ks.push_back(k);
      phase(rng, ks.size(), own, [&](size_t i) { t.deleteVal(ks[i]); }); for (auto k : ks) model.erase(k);
      snprintf(what, sizeof what, "%zu pointer deletions from %zu, size %zu, hash %d", ks.size(), n0, size, h.o.hash);
    }
    inspect(t, model, universe + 5, [](Recd* e) { return e->k; }, [](Recd* e, Recd* w) { return e == w; }, fresh, own, rng, what);
    event("pointer_phases"); eval(H(size, h.o.hash, ph, model.size(), n0), n0 + model.size() > 1);
  }
}
template <class T> void numeric(Rng& rng, const char* type, size_t cap) {
  size_t size = 1 + rng.below(cap); parlay::hashtable<parlay::hash_numeric<T>> t(size, parlay::hash_numeric<T>{}); std::set<T> model;
  auto draw = [&] { T k = rng.chance(1, 2) ? static_cast<T>(rng.next()) : static_cast<T>(rng.below(2 * size)); return k == static_cast<T>(-1) ? static_cast<T>(0) : k; };
  for (size_t ph = 0; ph < 5; ph++) {
    std::vector<T> ks; size_t n0 = model.size();
    if (ph % 2 == 0) {
      for (size_t i = 0; i < size; i++) { T k = draw(); if (model.count(k) || model.size() < size) { model.insert(k); ks.push_back(k); if (rng.chance(1, 8)) ks.push_back(k); } }
      std::atomic<size_t> ok{0};
      parlay::parallel_for(0, ks.size(), [&](size_t i) { if (t.insert(ks[i])) ok++; });
      VF_CHECK(ok == model.size() - n0, "hash:successes", "%s: %zu insertions succeeded, %zu keys are new", type, ok.load(), model.size() - n0);
    } else {
      for (auto k : model) if (rng.chance(2, 3)) ks.push_back(k);
      for (size_t i = 0; i < 10; i++) ks.push_back(draw());
      parlay::parallel_for(0, ks.size(), [&](size_t i) { t.deleteVal(ks[i]); });
      for (auto k : ks) model.erase(k);
    }
    auto e = t.entries(); std::vector<T> a(e.begin(), e.end()), b(model.begin(), model.end()); std::sort(a.begin(), a.end());
    VF_SAME(a, b, "hash:numeric-entries", "%s: wrong entries after phase %zu (%zu operations)", type, ph, ks.size());
    VF_CHECK(t.count() == model.size(), "hash:count", "%s: count %zu, expected %zu", type, t.count(), model.size());
    std::atomic<size_t> bad{0};
    parlay::parallel_for(0, b.size(), [&](size_t i) { if (t.find(b[i]) != b[i]) bad++; });
    parlay::parallel_for(0, ks.size(), [&](size_t i) { if (!model.count(ks[i]) && t.find(ks[i]) != static_cast<T>(-1)) bad++; });
    VF_CHECK(!bad, "hash:numeric-find", "%s: %zu wrong searches after phase %zu", type, bad.load(), ph);
    event("numeric_phases"); eval(H(size, ph, n0, hash_str(type)), model.size() > 1);
  }
}
}  // namespace

CASE("phases of keys on own threads") { for (size_t k = 0, R = rounds(60); k < R; k++) key_history(rng, maxn(300, 600), true); flush_counts(); }
CASE("phases of keys in parallel loops") { for (size_t k = 0, R = rounds(40); k < R; k++) key_history(rng, maxn(3000, 20000), false); flush_counts(); }
CASE("few keys, much contention") { for (size_t k = 0, R = rounds(150); k < R; k++) key_history(rng, 12, true); flush_counts(); }
CASE("pairs resolved by a rule") { for (size_t k = 0, R = rounds(60); k < R; k++) for (Rule r : {kMin, kSum, kKeepFirst}) pair_history(rng, k % 2 ? 30 : maxn(400, 3000), rng.chance(2, 3), r); flush_counts(); }
CASE("pointers") { for (size_t k = 0, R = rounds(40); k < R; k++) pointer_history(rng, maxn(300, 2000), rng.chance(1, 2)); flush_counts(); }
CASE("numeric keys") { for (size_t k = 0, R = rounds(6); k < R; k++) { numeric<int>(rng, "int", maxn(20000, 200000)); numeric<int64_t>(rng, "int64", maxn(5000, 50000)); numeric<uint32_t>(rng, "uint32", maxn(5000, 50000)); numeric<uint64_t>(rng, "uint64", maxn(500, 5000)); numeric<int16_t>(rng, "int16", maxn(2000, 5000)); } }

// An insertion in progress that has displaced another key holds that key outside of the table for a moment.
// When the displaced key is inserted in that moment, success is attributed to the wrong insertion.
namespace {
std::atomic<int> stage{0};
struct StagedH {
  using eType = uint64_t; using kType = uint64_t; bool pairs = false;
  eType empty() { return 0; } kType getKey(eType v) { return pairs ? v % 100 : v; } size_t hash(kType) { return 5; }
  int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; }
  bool replaceQ(eType, eType) { return false; } eType update(eType c, eType) { return c; }
  bool cas(eType* p, eType a, eType b) {
    bool ok = __atomic_compare_exchange(p, &a, &b, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    if (ok && getKey(a) == 1 && b == 2 && stage.load() == 0) { stage = 1; for (double t = now(); stage.load() == 1 && now() - t < 10;) std::this_thread::yield(); }
    return ok;
  }
};
}  // namespace
CASE("success of an insertion that displaced the inserted key") {
  stage = 0; parlay::hashtable<StagedH> t(10, StagedH{});
  VF_CHECK(t.insert(1), "hash:first", "the first insertion failed");
  bool ok2 = false, ok1 = true;
  std::thread a([&] { ok2 = t.insert(2); });
  for (double s = now(); stage.load() != 1 && now() - s < 10;) std::this_thread::yield();
  if (stage.load() == 1) { ok1 = t.insert(1); stage = 2; event("staged"); }
  a.join();
  VF_CHECK(ok2 && !ok1, "hash:success-attribution", "1 was in the table; insert(2) returned %d and a concurrent insert(1) returned %d", ok2, ok1);
  {  // the same with values: the pair that was there first gives way although the rule says to keep it
    stage = 0; parlay::hashtable<StagedH> q(10, StagedH{true});
    q.insert(1 + 100); std::thread b([&] { q.insert(2); });
    for (double s = now(); stage.load() != 1 && now() - s < 10;) std::this_thread::yield();
    if (stage.load() == 1) { q.insert(1 + 200); stage = 2; event("staged"); }
    b.join();
    VF_CHECK(q.find(1) == 1 + 100, "hash:kept-value", "key 1 with value 100 was in the table and equal keys are never replaced; after concurrent insertions of keys 2 and 1 (value 200) it has value %llu", static_cast<unsigned long long>(q.find(1) / 100 * 100));
    VF_CHECK(q.count() == 2 && q.find(2) == 2, "hash:staged-content", "wrong content");
  }
  VF_CHECK(t.count() == 2 && t.find(1) == 1 && t.find(2) == 2, "hash:staged-content", "wrong content");
  eval(1, false);
}
