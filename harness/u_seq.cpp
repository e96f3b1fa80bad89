// P10/P11: histories of sequence operations mirrored on std::vector.
#include "gen.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <mutex>
#include <parlay/delayed_sequence.h>
#include <parlay/parallel.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>

using namespace vf;

namespace {

struct alignas(64) Over64 { int64_t v; friend bool operator==(const Over64& a, const Over64& b) { return a.v == b.v; } friend bool operator<(const Over64& a, const Over64& b) { return a.v < b.v; } };
struct Huge { int64_t v; std::array<char, 9000> pad{}; Huge(int64_t x = 0) : v(x) { pad[8999] = static_cast<char>(x); } friend bool operator==(const Huge& a, const Huge& b) { return a.v == b.v && a.pad == b.pad; } friend bool operator<(const Huge& a, const Huge& b) { return a.v < b.v; } };
struct Three { char a, b, c; friend bool operator==(const Three& x, const Three& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } friend bool operator<(const Three& x, const Three& y) { return x.a < y.a; } };
// refers to itself: a bitwise move breaks it
struct SelfRef {
  int64_t v; SelfRef* me;
  SelfRef(int64_t x = 0) : v(x), me(this) {}
  SelfRef(const SelfRef& o) : v(o.get()), me(this) {}
  SelfRef(SelfRef&& o) noexcept : v(o.get()), me(this) {}
  SelfRef& operator=(const SelfRef& o) { v = o.get(); return *this; }
  ~SelfRef() { if (me != this) vf::fail("seq:self-reference", "destruction of an object moved bitwise"); me = nullptr; }
  int64_t get() const { if (me != this) vf::fail("seq:self-reference", "object at %p was moved bitwise or is dead", static_cast<const void*>(this)); return v; }
  friend bool operator==(const SelfRef& a, const SelfRef& b) { return a.get() == b.get(); }
  friend bool operator<(const SelfRef& a, const SelfRef& b) { return a.get() < b.get(); }
};
using Uniq = std::unique_ptr<int64_t>;

template <class T> struct Ops {   // T <-> value
  static constexpr int64_t range = 1000000;
  static T mk(int64_t v) { return T(v); }
  static int64_t val(const T& t) { return static_cast<int64_t>(t); }
  static constexpr int64_t dflt = 0;
};
template <> struct Ops<char> { static constexpr int64_t range = 100; static char mk(int64_t v) { return static_cast<char>(v); } static int64_t val(char c) { return c; } static constexpr int64_t dflt = 0; };
template <> struct Ops<Three> { static constexpr int64_t range = 100; static Three mk(int64_t v) { return Three{static_cast<char>(v), static_cast<char>(v + 1), static_cast<char>(v + 2)}; } static int64_t val(Three c) { if (c.a == 0 && c.b == 0 && c.c == 0) return 0; if (c.b != static_cast<char>(c.a + 1) || c.c != static_cast<char>(c.a + 2)) return -99; return c.a; } static constexpr int64_t dflt = 0; };
template <> struct Ops<Over64> { static constexpr int64_t range = 1000000; static Over64 mk(int64_t v) { return Over64{v}; } static int64_t val(const Over64& c) { if (reinterpret_cast<uintptr_t>(&c) % 64) vf::fail("seq:alignment", "over-aligned element at %p", static_cast<const void*>(&c)); return c.v; } static constexpr int64_t dflt = 0; };
template <> struct Ops<Huge> { static constexpr int64_t range = 1000000; static Huge mk(int64_t v) { return Huge(v); } static int64_t val(const Huge& c) { return c.v; } static constexpr int64_t dflt = 0; };
template <> struct Ops<SelfRef> { static constexpr int64_t range = 1000000; static SelfRef mk(int64_t v) { return SelfRef(v); } static int64_t val(const SelfRef& c) { return c.get(); } static constexpr int64_t dflt = 0; };
template <> struct Ops<std::string> { static constexpr int64_t range = 1000000; static std::string mk(int64_t v) { return v % 2 ? std::to_string(v) : "a long string so that it is on the heap " + std::to_string(v); }
  static int64_t val(const std::string& s) { if (s.empty()) return 0; auto p = s.rfind(' '); return std::stoll(p == std::string::npos ? s : s.substr(p + 1)); } static constexpr int64_t dflt = 0; };
template <> struct Ops<Uniq> { static constexpr int64_t range = 1000000; static Uniq mk(int64_t v) { return Uniq(new int64_t(v)); } static int64_t val(const Uniq& u) { return u ? *u : 0; } static constexpr int64_t dflt = 0; };
template <int A, bool B, size_t C> struct Ops<Tracked<A, B, C>> { using T = Tracked<A, B, C>; static constexpr int64_t range = 1000000; static T mk(int64_t v) { return T(v); } static int64_t val(const T& t) { return t.get(); } static constexpr int64_t dflt = 0; };
template <class U> struct Ops<parlay::sequence<U>> { using T = parlay::sequence<U>; static constexpr int64_t range = 100;
  static T mk(int64_t v) { T t; for (int64_t i = 0; i < v % 7 + 1; i++) t.push_back(Ops<U>::mk(v)); return t; }
  static int64_t val(const T& t) { if (t.empty()) return 0; int64_t v = Ops<U>::val(t[0]); if (static_cast<int64_t>(t.size()) != v % 7 + 1) return -98; return v; } static constexpr int64_t dflt = 0; };

// single-pass iterator over values, making elements on the fly
template <class T> struct InputIt {
  using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
  const std::vector<int64_t>* v; size_t i; size_t* furthest;
  T operator*() const { return Ops<T>::mk((*v)[i]); }
  InputIt& operator++() { if (i < *furthest) vf::fail("seq:input-iterator-twice", "a single-pass iterator was advanced twice over position %zu", i); i++; *furthest = i; return *this; }
  InputIt operator++(int) { InputIt t = *this; ++*this; return t; }
  friend bool operator==(const InputIt& a, const InputIt& b) { return a.i == b.i; }
  friend bool operator!=(const InputIt& a, const InputIt& b) { return a.i != b.i; }
};

template <class S> struct Hist {
  using T = typename S::value_type;
  using O = Ops<T>;
  static constexpr bool copyable = std::is_copy_constructible_v<T>;
  Rng r; std::string trace; std::string name;
  size_t cap;
  int64_t nv() { return r.range(1, O::range - 1); }
  std::vector<int64_t> vals(size_t n) { std::vector<int64_t> v(n); for (auto& x : v) x = nv(); return v; }
  size_t len() { size_t n = r.chance(1, 5) ? r.below(cap + 1) : r.chance(1, 2) ? r.below(20) : r.below(4); return n; }
  void note(const char* op, int64_t a = -1, int64_t b = -1) { char buf[80]; snprintf(buf, sizeof buf, " %s(%lld,%lld)", op, static_cast<long long>(a), static_cast<long long>(b)); trace += buf; if (trace.size() > 500) trace.erase(0, trace.size() - 400); }

  void check(const S& s, const std::vector<int64_t>& m, const char* what) {
    if (s.size() != m.size()) { fail("seq:length", "%s: after%s length %zu instead of %zu (%s)", name.c_str(), trace.c_str(), s.size(), m.size(), what); return; }
    if (s.empty() != m.empty() || s.capacity() < s.size()) fail("seq:length", "%s: after%s empty/capacity inconsistent", name.c_str(), trace.c_str());
    const T* p = s.data();
    if (s.begin() != p || s.end() != p + s.size() || s.cbegin() != p || s.cend() != p + s.size()) fail("seq:iterators", "%s: begin/end/data disagree after%s", name.c_str(), trace.c_str());
    if (p && s.size() && reinterpret_cast<uintptr_t>(p) % alignof(T)) fail("seq:alignment", "%s: buffer %p misaligned for %zu", name.c_str(), static_cast<const void*>(p), alignof(T));
    for (size_t i = 0; i < m.size(); i++) { int64_t v = O::val(s[i]); if (v != m[i]) { fail("seq:content", "%s: after%s element %zu of %zu is %lld instead of %lld (%s)", name.c_str(), trace.c_str(), i, m.size(), static_cast<long long>(v), static_cast<long long>(m[i]), what); return; } }
  }
  template <class It> void check_pos(S& s, It it, size_t pos, const char* op) {
    if (static_cast<size_t>(it - s.begin()) != pos) fail("seq:returned-position", "%s: %s returned position %lld instead of %zu after%s", name.c_str(), op, static_cast<long long>(it - s.begin()), pos, trace.c_str());
  }
  S fresh(std::vector<int64_t>& m) {
    size_t n = len();
    switch (r.below(7)) {
      case 0: { m.assign(n, O::dflt); note("ctor-n", n); return S(n); }
      case 1: if constexpr (copyable) { int64_t v = nv(); m.assign(n, v); note("ctor-fill", n); return S(n, O::mk(v)); } [[fallthrough]];
      case 2: { m = vals(n); note("from_function", n); auto& mm = m; return S::from_function(n, [&](size_t i) { return O::mk(mm[i]); }); }
      case 3: { m = vals(n); size_t f = 0; note("ctor-input", n); return S(InputIt<T>{&m, 0, &f}, InputIt<T>{&m, n, &f}); }
      case 4: if constexpr (copyable) { m = vals(n); std::forward_list<T> l; for (size_t i = n; i-- > 0;) l.push_front(O::mk(m[i])); note("ctor-forward", n); return S(l.begin(), l.end()); } [[fallthrough]];
      case 5: if constexpr (copyable) { m = vals(n); std::deque<T> l; for (auto v : m) l.push_back(O::mk(v)); note("ctor-ra", n); return S(l.begin(), l.end()); } [[fallthrough]];
      default: if constexpr (copyable) { m = vals(3); note("ctor-il"); return S{O::mk(m[0]), O::mk(m[1]), O::mk(m[2])}; } else { m.clear(); note("ctor"); return S(); }
    }
  }

  void run(size_t steps) {
    std::vector<int64_t> m, m2; 
    S s = fresh(m), s2 = fresh(m2);
    check(s, m, "construction");
    for (size_t st = 0; st < steps; st++) {
      const T* before = s.data(); size_t bcap = s.capacity(), bsize = s.size();
      bool grows = false;    // the capacity must not shrink
        bool stable = false;   // op after which the buffer may only move when capacity was exceeded
      size_t n = s.size();
      size_t pos = r.below(n + 1);
      int op = static_cast<int>(r.below(46));
      switch (op) {
        case 0: { int64_t v = nv(); note("push_back&&", v); check_pos(s, s.push_back(O::mk(v)), n, "push_back"); m.push_back(v); stable = true; break; }
        case 1: { int64_t v = nv(); note("emplace_back", v); check_pos(s, s.emplace_back(O::mk(v)), n, "emplace_back"); m.push_back(v); stable = true; break; }
        case 2: if constexpr (copyable) { int64_t v = nv(); const T t = O::mk(v); note("push_back", v); check_pos(s, s.push_back(t), n, "push_back"); m.push_back(v); stable = true; } break;
        case 3: if constexpr (copyable) if (n) { size_t i = r.below(n); note("push_back-own", i); check_pos(s, s.push_back(s[i]), n, "push_back own"); m.push_back(m[i]); stable = true; } break;
        case 4: if constexpr (copyable) if (n) { size_t i = r.below(n); note("insert-own", pos, i); check_pos(s, s.insert(s.begin() + pos, s[i]), pos, "insert own"); m.insert(m.begin() + pos, int64_t(m[i])); stable = pos > 0; } break;
        case 5: if constexpr (copyable) if (n) { size_t i = r.below(n), k = r.below(6); note("insert_n-own", pos, i); check_pos(s, s.insert(s.begin() + pos, k, s[i]), pos, "insert n own"); m.insert(m.begin() + pos, k, int64_t(m[i])); stable = pos > 0; } break;
        case 6: if constexpr (copyable) if (n) { size_t i = r.below(n), k = len(); note("append_n-own", k, i); check_pos(s, s.append(k, s[i]), n, "append n own"); m.insert(m.end(), k, int64_t(m[i])); stable = true; } break;
        case 7: if constexpr (copyable) if (n) { size_t i = r.below(n), k = n + r.below(9); note("resize-own", k, i); s.resize(k, s[i]); m.resize(k, int64_t(m[i])); stable = true; } break;
        case 8: if constexpr (copyable) if (n) { size_t i = r.below(n); note("emplace-own", pos, i); check_pos(s, s.emplace(s.begin() + pos, s[i]), pos, "emplace own"); m.insert(m.begin() + pos, int64_t(m[i])); stable = pos > 0; } break;
        case 9: { int64_t v = nv(); note("insert&&", pos); check_pos(s, s.insert(s.begin() + pos, O::mk(v)), pos, "insert"); m.insert(m.begin() + pos, v); stable = pos > 0; break; }
        case 10: { int64_t v = nv(); note("emplace", pos); check_pos(s, s.emplace(s.begin() + pos, O::mk(v)), pos, "emplace"); m.insert(m.begin() + pos, v); stable = pos > 0; break; }
        case 11: if constexpr (copyable) { int64_t v = nv(); size_t k = len(); note("insert_n", pos, k); check_pos(s, s.insert(s.begin() + pos, k, O::mk(v)), pos, "insert n"); m.insert(m.begin() + pos, k, v); stable = pos > 0; } break;
        case 12: { auto v = vals(len()); size_t f = 0; note("insert-input", pos, v.size()); check_pos(s, s.insert(s.begin() + pos, InputIt<T>{&v, 0, &f}, InputIt<T>{&v, v.size(), &f}), pos, "insert input"); m.insert(m.begin() + pos, v.begin(), v.end()); stable = pos > 0; break; }
        case 13: if constexpr (copyable) { auto v = vals(len()); std::list<T> l; for (auto x : v) l.push_back(O::mk(x)); note("insert-bidir", pos, v.size()); check_pos(s, s.insert(s.begin() + pos, l.begin(), l.end()), pos, "insert bidir"); m.insert(m.begin() + pos, v.begin(), v.end()); stable = pos > 0; } break;
        case 14: if constexpr (copyable) { auto v = vals(len()); std::deque<T> l; for (auto x : v) l.push_back(O::mk(x)); note("insert-ra", pos, v.size()); check_pos(s, s.insert(s.begin() + pos, l.begin(), l.end()), pos, "insert ra"); m.insert(m.begin() + pos, v.begin(), v.end()); stable = pos > 0; } break;
        case 15: { auto v = vals(len()); S o = S::from_function(v.size(), [&](size_t i) { return O::mk(v[i]); }); note("insert-seq&&", pos, v.size()); check_pos(s, s.insert(s.begin() + pos, std::move(o)), pos, "insert seq"); m.insert(m.begin() + pos, v.begin(), v.end()); break; }
        case 16: if constexpr (copyable) { auto v = vals(2); note("insert-il", pos); check_pos(s, s.insert(s.begin() + pos, {O::mk(v[0]), O::mk(v[1])}), pos, "insert il"); m.insert(m.begin() + pos, v.begin(), v.end()); stable = pos > 0; } break;
        case 17: if constexpr (copyable) { auto v = vals(len()); std::vector<T> l; for (auto x : v) l.push_back(O::mk(x)); note("insert-range", pos, v.size()); check_pos(s, s.insert(s.begin() + pos, l), pos, "insert range"); m.insert(m.begin() + pos, v.begin(), v.end()); stable = pos > 0; } break;
        case 18: if constexpr (copyable) { int64_t v = nv(); size_t k = len(); note("append_n", k); check_pos(s, s.append(k, O::mk(v)), n, "append n"); m.insert(m.end(), k, v); stable = true; } break;
        case 19: { auto v = vals(len()); note("append-tabulate", v.size()); auto d = parlay::delayed_tabulate(v.size(), [&](size_t i) { return O::mk(v[i]); }); check_pos(s, s.append(d), n, "append range"); m.insert(m.end(), v.begin(), v.end()); stable = true; break; }
        case 20: { auto v = vals(len()); size_t f = 0; note("append-input", v.size()); check_pos(s, s.append(InputIt<T>{&v, 0, &f}, InputIt<T>{&v, v.size(), &f}), n, "append input"); m.insert(m.end(), v.begin(), v.end()); stable = true; break; }
        case 21: if constexpr (copyable) { auto v = vals(len()); std::forward_list<T> l; for (size_t i = v.size(); i-- > 0;) l.push_front(O::mk(v[i])); note("append-forward", v.size()); check_pos(s, s.append(l.begin(), l.end()), n, "append forward"); m.insert(m.end(), v.begin(), v.end()); stable = true; } break;
        case 22: { auto v = vals(len()); S o = S::from_function(v.size(), [&](size_t i) { return O::mk(v[i]); }); note("append-seq&&", v.size()); check_pos(s, s.append(std::move(o)), n, "append seq"); m.insert(m.end(), v.begin(), v.end()); stable = n > 0; grows = true; break; }
        case 23: if (n) { size_t i = r.below(n); note("erase", i); check_pos(s, s.erase(s.begin() + i), i, "erase"); m.erase(m.begin() + i); } break;
        case 24: case 25: { size_t a = r.below(n + 1), b = a + r.below(n - a + 1); note("erase-range", a, b); check_pos(s, s.erase(s.begin() + a, s.begin() + b), a, "erase range"); m.erase(m.begin() + a, m.begin() + b); } break;
        case 26: if (n) { note("pop_back"); s.pop_back(); m.pop_back(); } break;
        case 27: if constexpr (copyable) { size_t k = len(); note("resize", k); s.resize(k); m.resize(k, O::dflt); } break;
        case 28: if constexpr (copyable) { size_t k = len(); int64_t v = nv(); note("resize-v", k); s.resize(k, O::mk(v)); m.resize(k, v); } break;
        case 29: { size_t k = r.below(2 * cap + 1); note("reserve", k); s.reserve(k); if (s.capacity() < k) fail("seq:reserve", "%s: capacity %zu after reserve(%zu)", name.c_str(), s.capacity(), k); break; }
        case 30: if (r.chance(1, 3)) { note("clear"); s.clear(); m.clear(); } break;
        case 31: if constexpr (copyable) { size_t k = len(); int64_t v = nv(); note("assign-n", k); s.assign(k, O::mk(v)); m.assign(k, v); } break;
        case 32: { auto v = vals(len()); size_t f = 0; note("assign-input", v.size()); s.assign(InputIt<T>{&v, 0, &f}, InputIt<T>{&v, v.size(), &f}); m = v; break; }
        case 33: if constexpr (copyable) { auto v = vals(len()); std::deque<T> l; for (auto x : v) l.push_back(O::mk(x)); note("assign-ra", v.size()); if (r.chance(1, 2)) s.assign(l.begin(), l.end()); else s.assign(l); m = v; } break;
        case 34: if constexpr (copyable) { auto v = vals(3); note("assign-il"); if (r.chance(1, 2)) s.assign({O::mk(v[0]), O::mk(v[1]), O::mk(v[2])}); else s = {O::mk(v[0]), O::mk(v[1]), O::mk(v[2])}; m = v; } break;
        case 35: if constexpr (copyable) { note("self-assign"); S& alias = s; s = alias; } break;
        case 36: if constexpr (copyable) { note("copy-to-2"); s2 = s; m2 = m; check(s2, m2, "copy"); if (!(s2 == s) || s2 != s || s < s2) fail("seq:comparison", "%s: copy not equal after%s", name.c_str(), trace.c_str()); } break;
        case 37: { note("swap"); if (r.chance(1, 2)) s.swap(s2); else { using std::swap; swap(s, s2); } m.swap(m2); check(s2, m2, "swap"); break; }
        case 38: { note("move-assign"); const T* p = s2.data(); size_t k = s2.size(); s = std::move(s2); m = std::move(m2); m2.clear(); if (s2.size() != 0) fail("seq:moved-from", "%s: moved-from sequence has %zu elements", name.c_str(), s2.size()); if (sizeof(T) * k > 15 && s.data() != p) fail("seq:move-reallocates", "%s: move assignment changed the buffer", name.c_str()); break; }
        case 39: { note("move-construct"); S o(std::move(s)); if (s.size() != 0) fail("seq:moved-from", "%s: moved-from sequence has %zu elements", name.c_str(), s.size()); check(o, m, "move construction"); s = std::move(o); break; }
        case 40: { size_t i = r.below(n + 1); note("pop_tail", i); S t = r.chance(1, 2) ? s.pop_tail(s.begin() + i) : s.pop_tail(n - i); std::vector<int64_t> tm(m.begin() + i, m.end()); m.resize(i); check(t, tm, "pop_tail"); if (r.chance(1, 2)) { s2 = std::move(t); m2 = tm; } break; }
        case 41: { // views and element access
          size_t a = r.below(n + 1), b = a + r.below(n - a + 1); note("views", a, b); const S& cs = s;
          auto c1 = s.cut(a, b); auto c2 = cs.cut(a, b); auto h1 = s.head(b); auto h2 = cs.head(cs.begin() == nullptr ? size_t{0} : b); auto t1 = s.tail(n - a); auto t2 = cs.tail(n - a);
          bool okv = c1.size() == b - a && c2.size() == b - a && h1.size() == b && h2.size() == b && t1.size() == n - a && t2.size() == n - a;
          for (size_t i = a; okv && i < b; i++) okv = O::val(c1[i - a]) == m[i] && O::val(c2[i - a]) == m[i] && O::val(h1[i]) == m[i] && O::val(h2[i]) == m[i] && O::val(t1[i - a]) == m[i] && O::val(t2[i - a]) == m[i];
          if (!okv) fail("seq:views", "%s: head/tail/cut wrong for [%zu,%zu) of %zu", name.c_str(), a, b, n);
          if constexpr (copyable) {
            auto q1 = cs.subseq(a, b); auto q2 = cs.substr(a, b - a); auto q3 = cs.substr(a); auto q4 = cs.to_vector();
            bool k = q1.size() == b - a && q2.size() == b - a && q3.size() == n - a && q4.size() == n;
            for (size_t i = a; k && i < n; i++) k = (i >= b || (O::val(q1[i - a]) == m[i] && O::val(q2[i - a]) == m[i])) && O::val(q3[i - a]) == m[i] && O::val(q4[i]) == m[i];
            if (!k) fail("seq:views", "%s: subseq/substr wrong for [%zu,%zu) of %zu", name.c_str(), a, b, n);
          }
          if (n && (O::val(s.front()) != m.front() || O::val(s.back()) != m.back() || O::val(cs.front()) != m.front() || O::val(cs.back()) != m.back())) fail("seq:views", "%s: front/back", name.c_str());
          break; }
        case 42: { // bounds-checked access
          size_t i = r.chance(1, 2) ? r.below(n + 1) : n + r.below(3); const S& cs = s; note("at", i);
          bool threw = false, threw2 = false; int64_t v = 0, v2 = 0;
          try { v = O::val(s.at(i)); } catch (const std::out_of_range&) { threw = true; }
          try { v2 = O::val(cs.at(i)); } catch (const std::out_of_range&) { threw2 = true; }
          if (threw != (i >= n) || threw2 != (i >= n) || (i < n && (v != m[i] || v2 != m[i]))) fail("seq:at", "%s: at(%zu) of %zu elements", name.c_str(), i, n);
          break; }
        case 43: { // comparisons
          note("compare"); bool eq = m == m2; bool lt = std::lexicographical_compare(m.begin(), m.end(), m2.begin(), m2.end());
          if constexpr (!std::is_same_v<T, Uniq>) {
            if ((s == s2) != eq || (s != s2) == eq) fail("seq:comparison", "%s: == wrong after%s", name.c_str(), trace.c_str());
            if constexpr (std::is_arithmetic_v<T>) if ((s < s2) != lt) fail("seq:comparison", "%s: < wrong after%s", name.c_str(), trace.c_str());
            if constexpr (copyable) if (n) {  // equal but for one element
              S o = s; if (!(o == s)) fail("seq:comparison", "%s: copy differs", name.c_str());
              size_t i = r.below(n); o[i] = O::mk(m[i] == 5 ? 6 : 5); if (o == s || !(o != s)) fail("seq:comparison", "%s: difference at %zu of %zu not seen", name.c_str(), i, n);
            }
          }
          (void)lt; break; }
        case 44: if (n) { size_t i = r.below(n); int64_t v = nv(); note("write", i); s[i] = O::mk(v); m[i] = v; } break;
        default: { note("replace"); m2.clear(); s2 = fresh(m2); check(s2, m2, "construction"); break; }
      }
      check(s, m, "operation");
      if ((stable || grows) && s.capacity() < bcap) fail("seq:capacity", "%s: capacity fell from %zu to %zu by adding elements after%s", name.c_str(), bcap, s.capacity(), trace.c_str());
      if (stable && bsize > 0 && s.size() <= bcap && s.data() != before) fail("seq:reallocation", "%s: buffer moved although capacity %zu was enough for %zu after%s", name.c_str(), bcap, s.size(), trace.c_str());
      if (s.size() > 4 * cap + 50) { note("shrink"); while (s.size() > cap / 2) { s.pop_back(); m.pop_back(); } }
      event("operations");
      if (stable && bsize && s.data() != before) event("growths");
    }
  }
};

template <class S> void histories(Rng& rng, const char* name, size_t q, size_t steps, size_t big) {
  size_t R = rounds(q);
  for (size_t k = 0; k < R; k++) {
    size_t cap = rng.chance(1, 6) ? big : rng.chance(1, 2) ? 40 : 6;
    uint64_t sd = rng.next();
    size_t stp = cap >= big && big > 500 ? std::max<size_t>(8, steps / 8) : steps;
    int par = rng.chance(1, 4) ? 4 : 1;
    auto one = [&](uint64_t s2) {
      Hist<S> h{Rng(s2), "", name, cap}; h.run(stp); eval(H(s2, cap, stp), true);
    };
    if (par == 1) one(sd);
    else parlay::parallel_for(0, par, [&](size_t i) { one(sd + i); }, 1);
    LifeMon::get().expect_none(name);
  }
  sample("%s: %zu histories of %zu operations mirrored on std::vector", name, R, steps);
}
}  // namespace

#if VF_PART == 4
namespace {
// an allocator that is told of every construction and destruction and checks what it is given back
struct MonState {
  std::mutex mx; std::map<void*, size_t> blocks; std::atomic<long> built{0}, destroyed{0}, allocs{0};
  static MonState& get() { static MonState m; return m; }
  void add(void* p, size_t b) { std::lock_guard<std::mutex> l(mx); allocs++; blocks[p] = b; }
  void del(void* p, size_t b) { std::lock_guard<std::mutex> l(mx); auto it = blocks.find(p); if (it == blocks.end()) { fail("seq:allocator", "a block that was not allocated is given back"); return; } if (it->second != b) fail("seq:allocator", "a block of %zu bytes is given back as one of %zu", it->second, b); blocks.erase(it); }
};
template <class T> struct MonAlloc {
  using value_type = T;
  MonAlloc() = default; template <class U> MonAlloc(const MonAlloc<U>&) noexcept {}
  static constexpr size_t al = alignof(T) > 16 ? alignof(T) : 16;
  T* allocate(size_t n) { void* p = ::operator new(n * sizeof(T), std::align_val_t{al}); MonState::get().add(p, n * sizeof(T)); return static_cast<T*>(p); }
  void deallocate(T* p, size_t n) { MonState::get().del(p, n * sizeof(T)); ::operator delete(p, std::align_val_t{al}); }
  template <class U, class... A> void construct(U* p, A&&... a) { ::new (static_cast<void*>(p)) U(std::forward<A>(a)...); MonState::get().built++; }
  template <class U> void destroy(U* p) { p->~U(); MonState::get().destroyed++; }
  template <class U> friend bool operator==(const MonAlloc&, const MonAlloc<U>&) { return true; }
  template <class U> friend bool operator!=(const MonAlloc&, const MonAlloc<U>&) { return false; }
};
static void none_left(const char* what) {
  auto& m = MonState::get(); size_t left; { std::lock_guard<std::mutex> l(m.mx); left = m.blocks.size(); }
  VF_CHECK(left == 0, "seq:allocator", "%s: %zu blocks were never given back", what, left);
  event("allocator_blocks", static_cast<uint64_t>(m.allocs.exchange(0))); event("allocator_elements", static_cast<uint64_t>(m.built.exchange(0)));
}
}  // namespace
CASE("own allocator, tracked") { histories<parlay::sequence<TrackedCopy, MonAlloc<TrackedCopy>>>(rng, "sequence<tracked> with its own allocator", 700, 80, 2500); none_left("tracked"); }
CASE("own allocator, move-only") { histories<parlay::sequence<TrackedMove, MonAlloc<TrackedMove>>>(rng, "sequence<move-only> with its own allocator", 500, 80, 2500); none_left("move-only"); }
CASE("own allocator, self-referential") { histories<parlay::sequence<SelfRef, MonAlloc<SelfRef>>>(rng, "sequence<self-referential> with its own allocator", 500, 80, 2500); none_left("self-referential"); }
CASE("own allocator, 3-byte") { histories<parlay::sequence<Three, MonAlloc<Three>, true>>(rng, "short sequence<3 bytes> with its own allocator", 500, 80, 9000); none_left("3-byte"); }
CASE("own allocator, over-aligned") { histories<parlay::sequence<Over64, MonAlloc<Over64>>>(rng, "sequence<align 64> with its own allocator", 500, 80, 3000); none_left("over-aligned"); }
#elif VF_PART == 1 || VF_PART == 0
CASE("int64 sequence") { histories<parlay::sequence<int64_t>>(rng, "sequence<int64>", 1500, 80, 20000); }
CASE("char chars") { histories<parlay::chars>(rng, "chars", 1500, 80, 20000); }
CASE("char long sequence") { histories<parlay::sequence<char, parlay::internal::sequence_default_allocator<char>, false>>(rng, "sequence<char>", 600, 80, 20000); }
CASE("short int32") { histories<parlay::short_sequence<int32_t>>(rng, "short_sequence<int32>", 1200, 80, 9000); }
CASE("short 3-byte") { histories<parlay::short_sequence<Three>>(rng, "short_sequence<3 bytes>", 1000, 80, 9000); }
CASE("short int64") { histories<parlay::short_sequence<int64_t>>(rng, "short_sequence<int64>", 600, 80, 3000); }

CASE("free functions and hashing") {
  for (size_t k = 0, R = rounds(400); k < R; k++) {
    size_t n = pick_size(rng, maxn(20000, 60000));
    auto v = gen_keys<int64_t>(rng, n, 1000000);
    auto d = parlay::delayed_tabulate(n, [&](size_t i) { return v[i]; });
    auto a = parlay::to_sequence(v); auto b = parlay::to_short_sequence(v); auto c = parlay::to_sequence<double>(v); auto e = parlay::to_short_sequence<int32_t>(d);
    VF_SAME(a, v, "seq:to_sequence", "n=%zu", n); VF_SAME(b, v, "seq:to_sequence", "short n=%zu", n);
    VF_CHECK(c.size() == n && e.size() == n, "seq:to_sequence", "n=%zu", n);
    for (size_t i = 0; i < n; i++) if (c[i] != static_cast<double>(v[i]) || e[i] != static_cast<int32_t>(v[i])) { fail("seq:to_sequence", "converted n=%zu at %zu", n, i); break; }
    std::hash<parlay::sequence<int64_t>> h; auto a2 = a;
    VF_CHECK(h(a) == h(a2), "seq:hash", "equal sequences hash differently n=%zu", n);
    std::hash<parlay::chars> hc; parlay::chars x, y; for (size_t i = 0; i < n % 40; i++) { x.push_back(static_cast<char>('a' + v[i] % 26)); }
    y.reserve(100); y.append(x.begin(), x.end());
    VF_CHECK(x == y && hc(x) == hc(y), "seq:hash", "inline and heap instances of the same characters differ");
    eval(H(k, n, n ? v[0] : 0));
  }
  sample("to_sequence/to_short_sequence conversions and hashes");
}
#elif VF_PART == 2
CASE("over-aligned") { histories<parlay::sequence<Over64>>(rng, "sequence<align 64>", 800, 80, 3000); }
CASE("huge elements") { histories<parlay::sequence<Huge>>(rng, "sequence<9000 bytes>", 250, 40, 60); }
CASE("strings") { histories<parlay::sequence<std::string>>(rng, "sequence<string>", 600, 80, 3000); }
CASE("self-referential") { histories<parlay::sequence<SelfRef>>(rng, "sequence<self-referential>", 800, 80, 3000); }
#else
CASE("tracked copyable") { histories<parlay::sequence<TrackedCopy>>(rng, "sequence<tracked>", 800, 80, 2500); }
CASE("tracked big") { histories<parlay::sequence<TrackedBig>>(rng, "sequence<tracked big>", 400, 80, 1500); }
CASE("tracked move-only") { histories<parlay::sequence<TrackedMove>>(rng, "sequence<tracked move-only>", 800, 80, 2500); }
CASE("unique_ptr") { histories<parlay::sequence<Uniq>>(rng, "sequence<unique_ptr>", 600, 80, 2500); }
CASE("nested sequences") { histories<parlay::sequence<parlay::sequence<TrackedCopy>>>(rng, "sequence<sequence<tracked>>", 400, 60, 1000); }
CASE("nested chars") { histories<parlay::sequence<parlay::sequence<int64_t>>>(rng, "sequence<sequence<int64>>", 400, 60, 1000); }
#endif
