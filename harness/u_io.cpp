// P19: tokens, splitting, parsing, formatting and files.
#if VF_PART == 4
#define PARLAY_USE_FALLBACK_FILE_MAP
#endif
#include "gen.h"
#include <cmath>
#include <deque>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <parlay/primitives.h>
#include <parlay/io.h>
using namespace vf;
namespace {
std::string str(const parlay::chars& c) { return std::string(c.begin(), c.end()); }
parlay::chars chs(const std::string& s) { return parlay::chars(s.begin(), s.end()); }
std::string text(Rng& r, size_t n) {
  // alphabets: words and spaces in several densities, all spaces, no spaces, high bytes
  std::string s(n, 'x'); int kind = static_cast<int>(r.below(8)); u_int64_t dens = 1 + r.below(20);
  static const char ws[] = " \t\n\v\f\r";
  bool in = r.chance(1, 2);
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: s[i] = ' '; break;
      case 1: s[i] = static_cast<char>('a' + i % 26); break;
      case 2: s[i] = i % 2 ? ' ' : 'q'; break;
      case 3: s[i] = static_cast<char>(r.below(256)); break;
      case 4: if (r.chance(1, 700)) in = !in; s[i] = in ? 'w' : ws[r.below(6)]; break;     // long tokens and long gaps
      default: s[i] = r.below(dens + 1) == 0 ? ws[r.below(6)] : static_cast<char>('a' + r.below(26)); break;
    }
  }
  if (n && r.chance(1, 3)) s[0] = r.chance(1, 2) ? ' ' : 'z';
  if (n && r.chance(1, 3)) s[n - 1] = r.chance(1, 2) ? ' ' : 'z';
  return s;
}
template <class P> std::vector<std::pair<size_t, size_t>> token_ranges(const std::string& s, P sp) {
  std::vector<std::pair<size_t, size_t>> v; size_t i = 0, n = s.size();
  while (i < n) { while (i < n && sp(static_cast<unsigned char>(s[i]))) i++; size_t b = i; while (i < n && !sp(static_cast<unsigned char>(s[i]))) i++; if (i > b) v.push_back({b, i}); }
  return v;
}
size_t iosize(Rng& r) { return r.chance(1, 3) ? std::min(maxn(30000, 200000), 2000 * r.below(5) + r.below(4) - (r.chance(1, 2) ? 1 : 0)) % 1000000 : pick_size(r, maxn(30000, 200000)); }
}

#if VF_PART == 0 || VF_PART == 1
CASE("tokens and map_tokens") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    size_t n = iosize(rng); std::string s = text(rng, n);
    int which = static_cast<int>(rng.below(3));
    auto dflt = [](unsigned char c) { return std::isspace(c) != 0; };
    auto vowel = [](char c) { return c == 'a' || c == 'e' || c == ' '; };
    std::vector<std::pair<size_t, size_t>> want = which == 2 ? token_ranges(s, vowel) : token_ranges(s, dflt);
    std::vector<std::string> wt; for (auto [b, e] : want) wt.push_back(s.substr(b, e - b));
    parlay::sequence<char> seq(s.begin(), s.end());
    auto got = which == 0 ? parlay::tokens(seq) : which == 1 ? parlay::tokens(s) : parlay::tokens(seq, vowel);
    std::vector<std::string> gt; for (auto& t : got) gt.push_back(str(t));
    VF_SAME(gt, wt, "tokens", "text of %zu, %zu tokens", n, wt.size());
    // map_tokens sees slices of the very text
    const char* base = seq.data();
    auto pos = [&](auto sl) { return std::pair<size_t, size_t>(static_cast<size_t>(&*sl.begin() - base), static_cast<size_t>(&*sl.begin() - base) + sl.size()); };
    auto gm = which == 2 ? parlay::map_tokens(seq, pos, vowel) : parlay::map_tokens(seq, pos);
    VF_SAME(gm, want, "map_tokens", "text of %zu, %zu tokens", n, want.size());
    auto gs = which == 2 ? parlay::internal::map_tokens_small(seq, pos, vowel) : parlay::internal::map_tokens_small(seq, pos);
    VF_SAME(gs, want, "map_tokens_small", "text of %zu, %zu tokens", n, want.size());
    // results with storage of their own, built in place
    auto strs = parlay::map_tokens(seq, [](auto sl) { return std::string(sl.begin(), sl.end()); }, [&](char c) { return which == 2 ? vowel(c) : dflt(static_cast<unsigned char>(c)); });
    VF_SAME(strs, wt, "map_tokens-strings", "text of %zu, %zu tokens", n, wt.size());
    // no result: applied once to each token
    std::vector<std::atomic<int>> hit(n + 1); std::atomic<size_t> calls{0}, wrong{0};
    auto visit = [&](auto sl) { auto [b, e] = pos(sl); hit[b]++; calls++; auto it = std::lower_bound(want.begin(), want.end(), std::make_pair(b, e)); if (it == want.end() || *it != std::make_pair(b, e)) wrong++; };
    if (which == 2) parlay::map_tokens(seq, visit, vowel); else parlay::map_tokens(seq, visit);
    bool once = calls == want.size() && wrong == 0; for (auto [b, e] : want) once = once && hit[b] == 1;
    VF_CHECK(once, "map_tokens-void", "text of %zu: %zu calls for %zu tokens, %zu on other pieces", n, calls.load(), want.size(), wrong.load());
    calls = 0; wrong = 0; for (auto& h : hit) h = 0;
    if (which == 2) parlay::internal::map_tokens_small(seq, visit, vowel); else parlay::internal::map_tokens_small(seq, visit);
    once = calls == want.size() && wrong == 0; for (auto [b, e] : want) once = once && hit[b] == 1;
    VF_CHECK(once, "map_tokens_small-void", "text of %zu", n);
    // tokens of a delayed range and of a deque
    auto dl = parlay::delayed_tabulate(n, [&](size_t i) { return s[i]; });
    auto g3 = parlay::map_tokens(dl, [](auto sl) { return sl.size(); }, [&](char c) { return which == 2 ? vowel(c) : dflt(static_cast<unsigned char>(c)); });
    bool ok = g3.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = g3[i] == want[i].second - want[i].first;
    VF_CHECK(ok, "map_tokens-delayed", "text of %zu", n);
    event("tokens", want.size()); if (n >= 2000) event("parallel_tokenisings");
    eval(H(k, n, want.size()), !want.empty());
  }
}
CASE("split_at and map_split_at") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    size_t n = iosize(rng); unsigned den = 1 + static_cast<unsigned>(rng.below(40));
    std::string s(n, 0); for (auto& c : s) c = static_cast<char>(rng.below(256));
    std::vector<char> fl(n); for (auto& f : fl) f = rng.below(den) == 0;
    if (n && rng.chance(1, 2)) fl[n - 1] = rng.chance(1, 2); if (n && rng.chance(1, 2)) fl[0] = rng.chance(1, 2);
    std::vector<std::pair<size_t, size_t>> want; size_t b = 0; for (size_t i = 0; i < n; i++) if (fl[i]) { want.push_back({b, i + 1}); b = i + 1; } want.push_back({b, n});
    parlay::sequence<char> seq(s.begin(), s.end()); parlay::sequence<bool> bf(fl.begin(), fl.end());
    auto got = parlay::split_at(seq, bf);
    bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = str(got[i]) == s.substr(want[i].first, want[i].second - want[i].first);
    VF_CHECK(ok, "split_at", "%zu elements, %zu pieces of %zu", n, got.size(), want.size());
    std::vector<int> ints(n); for (size_t i = 0; i < n; i++) ints[i] = fl[i] ? 1 + static_cast<int>(rng.below(5)) : 0;    // flags that convert to bool
    parlay::sequence<std::string> ss; for (size_t i = 0; i < n; i++) ss.push_back(std::to_string(i));
    auto g2 = parlay::split_at(ss, parlay::delayed_map(ints, [](int x) { return x != 0; }));
    ok = g2.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) { ok = g2[i].size() == want[i].second - want[i].first; for (size_t j = 0; ok && j < g2[i].size(); j++) ok = g2[i][j] == ss[want[i].first + j]; }
    VF_CHECK(ok, "split_at-strings", "%zu elements", n);
    auto g3 = parlay::map_split_at(seq, bf, [&](auto sl) { return std::pair<size_t, size_t>(static_cast<size_t>(sl.begin() - seq.begin()), static_cast<size_t>(sl.end() - seq.begin())); });
    VF_SAME(g3, want, "map_split_at", "%zu elements", n);
    auto g4 = parlay::map_split_at(s, ints, [&](auto sl) { return sl.size(); });
    ok = g4.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = g4[i] == want[i].second - want[i].first;
    VF_CHECK(ok, "map_split_at-int-flags", "%zu elements, %zu pieces of %zu", n, g4.size(), want.size());
    event("pieces", want.size()); eval(H(k, n, want.size()), n > 1);
  }
}
#endif
#if VF_PART == 0 || VF_PART == 2
namespace {
template <class T> T pick_int(Rng& r) {
  using L = std::numeric_limits<T>;
  switch (r.below(6)) {
    case 0: return static_cast<T>(L::max() - static_cast<T>(r.below(12)));
    case 1: return static_cast<T>(L::min() + static_cast<T>(r.below(12)));
    case 2: return static_cast<T>(r.below(12)) - static_cast<T>(std::is_signed_v<T> ? 6 : 0);
    case 3: { T p = 1; for (u_int64_t i = r.below(static_cast<u_int64_t>(L::digits10) + 1); i > 0; i--) p = static_cast<T>(p * 10); p = static_cast<T>(p - static_cast<T>(r.below(2))); return std::is_signed_v<T> && r.chance(1, 2) ? static_cast<T>(-p) : p; }
    default: { T v = static_cast<T>(r.next() >> r.below(64)); return v; }
  }
}
template <class T, class F> void ints(Rng& rng, const char* name, F parse) {
  for (size_t k = 0, R = rounds(3000); k < R; k++) {
    T v = pick_int<T>(rng); std::string ref = std::to_string(v);
    auto c = parlay::to_chars(v);
    VF_CHECK(str(c) == ref, std::string("format:") + name, "%s formatted as %s", ref.c_str(), str(c).c_str());
    T back = parse(c); VF_CHECK(back == v, std::string("round-trip:") + name, "%s came back as %s", ref.c_str(), std::to_string(back).c_str());
    // other spellings: sign, leading zeros, trailing characters that are not digits
    std::string z = ref; bool neg = z[0] == '-'; if (neg) z.erase(0, 1); z = std::string(rng.below(30), '0') + z; z = neg ? "-" + z : rng.chance(1, 2) ? "+" + z : z;
    T b2 = parse(chs(z)); VF_CHECK(b2 == v, std::string("spelling:") + name, "%s parsed as %s", z.c_str(), std::to_string(b2).c_str());
    eval(H(1, hash_str(ref), hash_str(name)));
  }
  event("integers", rounds(3000));
}
}
CASE("integers: format and parse") {
  ints<int>(rng, "int", [](const parlay::chars& c) { return parlay::chars_to_int(c); });
  ints<long>(rng, "long", [](const parlay::chars& c) { return parlay::chars_to_long(c); });
  ints<long long>(rng, "long long", [](const parlay::chars& c) { return parlay::chars_to_long_long(c); });
  ints<unsigned>(rng, "unsigned", [](const parlay::chars& c) { return parlay::chars_to_uint(c); });
  ints<unsigned long>(rng, "unsigned long", [](const parlay::chars& c) { return parlay::chars_to_ulong(c); });
  ints<unsigned long long>(rng, "unsigned long long", [](const parlay::chars& c) { return parlay::chars_to_ulong_long(c); });
}
namespace {
std::string digits(Rng& r, size_t n) { std::string s(n, '0'); for (auto& c : s) c = static_cast<char>('0' + (r.chance(1, 6) ? 9 : r.below(10))); return s; }
std::string float_text(Rng& r) {
  char buf[400];
  switch (r.below(11)) {
    case 9: {    // the lengths and powers of ten at which a fast path would stop being exact
      size_t L = 1 + r.below(r.chance(1, 2) ? 8 : 17); std::string s = digits(r, L); if (s[0] == '0') s[0] = '7';
      size_t frac = r.chance(1, 2) ? 0 : r.below(L + 1); if (frac) s.insert(L - frac, ".");
      static const int top[] = {7, 8, 9, 10, 11, 12, 17, 18, 21, 22, 23, 24, 27, 28};
      int e = top[r.below(sizeof top / sizeof *top)] + static_cast<int>(r.chance(1, 2) ? frac : 0);
      s += (r.chance(1, 2) ? "e" : "E") + std::string(r.chance(1, 2) ? "-" : "") + std::to_string(e);
      return r.chance(1, 4) ? "-" + s : s; }
    case 10: {   // exponents around the ends of the integer types
      static const unsigned long long w[] = {255, 256, 32768, 65536, 2147483648ull, 4294967296ull, 8589934592ull, 1099511627776ull};
      std::string s = digits(r, 1 + r.below(3)); if (r.chance(1, 3)) s += "." + digits(r, 1 + r.below(2));
      s += (r.chance(1, 2) ? "e" : "E") + std::string(r.chance(1, 2) ? "-" : "") + std::to_string(w[r.below(8)] + r.below(24) - r.below(24));
      return r.chance(1, 4) ? "-" + s : s; }
    case 7: case 8: {    // digit strings whose value is near a power of two (or wraps around one), with a point and an exponent anywhere
      static const int pw[] = {23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64, 65, 66, 96, 120};
      unsigned __int128 v = static_cast<unsigned __int128>(1) << pw[r.below(sizeof pw / sizeof *pw)];
      v *= 1 + r.below(r.chance(1, 2) ? 1 : 9); v += r.below(20); v -= r.below(20); if (r.chance(1, 3)) v += r.below(1u << 20);
      std::string s; while (v) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; }
      if (r.chance(1, 4)) s.insert(0, std::string(1 + r.below(4), '0'));
      if (r.chance(1, 2)) s.insert(r.below(s.size() + 1), ".");
      if (r.chance(1, 3)) s += (r.chance(1, 2) ? "e" : "E") + std::string(r.chance(1, 2) ? "-" : "") + std::to_string(r.below(26));
      return r.chance(1, 4) ? "-" + s : s; }
    case 0: { double d; u_int64_t b = r.next(); memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 1.25; static const char* f[] = {"%.17g", "%.16e", "%.6g", "%.3f", "%g", "%.1e"}; double m = std::fabs(d) < 1e60 ? d : std::fmod(d, 1e20); snprintf(buf, sizeof buf, f[r.below(6)], r.chance(1, 3) ? d : m); return buf; }
    case 1: { float d; uint32_t b = static_cast<uint32_t>(r.next()); memcpy(&d, &b, 4); if (!std::isfinite(d)) d = 0.1f; snprintf(buf, sizeof buf, r.chance(1, 2) ? "%.9g" : "%.7g", static_cast<double>(d)); return buf; }
    case 2: { static const char* sp[] = {"inf", "-inf", "INF", "nan", "NAN", "Infinity", "+inf", "0", "-0", "+0", "0.0", "-0.0", "0e0", "1e22", "1e23", "1e-22", "9007199254740992", "9007199254740993", "16777216", "16777217", "33554431", "9007199254740991e22", "1e10", "1e11", "1e-10", "1.", ".5", "-.5", "5.e3", ".5e-3", "1e+5", "1E5", "1E-5", "00001", "1e00005", "123456789012345678", "999999999999999999", "1234567890", "9999999999", "0.1e1", "4503599627370497.5", "1.7976931348623157e308", "2.2250738585072014e-308", "3.4028235e38", "1.17549435e-38"}; return sp[r.below(sizeof sp / sizeof *sp)]; }
    default: {
      std::string s; if (r.chance(1, 10)) s += std::string(1 + r.below(3), ' '); if (r.chance(1, 3)) s += "-"; else if (r.chance(1, 6)) s += "+";
      size_t a = r.below(12), b = r.below(12); if (r.chance(1, 8)) a += r.below(25); if (a + b == 0) a = 1;
      bool dot = b > 0 || r.chance(1, 5); if (a == 0 && b == 0) a = 1;
      s += digits(r, a); if (dot) { s += "."; s += digits(r, b); }
      if (r.chance(1, 2)) { s += r.chance(1, 2) ? "e" : "E"; int e = static_cast<int>(r.below(r.chance(1, 3) ? 300 : 26)); s += r.chance(1, 2) ? "-" : r.chance(1, 3) ? "+" : ""; s += std::to_string(e); }
      return s; }
  }
}
template <class F, class P, class L> void floats(Rng& rng, const char* name, P parse, L lib) {
  size_t oor = 0, R = rounds(25000);
  for (size_t k = 0; k < R; k++) {
    std::string t = float_text(rng);
    F want{}, got{}; bool wt = false, gt = false;
    try { want = lib(t); } catch (const std::out_of_range&) { wt = true; }
    parlay::chars c = chs(t);
    try { got = parse(c); } catch (const std::out_of_range&) { gt = true; }
    bool same = wt == gt && (wt || (std::isnan(want) ? std::isnan(got) : want == got && std::signbit(want) == std::signbit(got)));
    VF_CHECK(same, std::string("parse:") + name, "\"%s\" parsed as %.20Lg%s, not %.20Lg%s", t.c_str(), static_cast<long double>(got), gt ? " (throws)" : "", static_cast<long double>(want), wt ? " (throws)" : "");
    if (wt) oor++;
    eval(H(hash_str(t), hash_str(name)));
  }
  event("floats", R); event("out_of_range_floats", oor);
}
}
CASE("floating point: parse") {
  floats<float>(rng, "float", [](const parlay::chars& c) { return parlay::chars_to_float(c); }, [](const std::string& s) { return std::stof(s); });
  floats<double>(rng, "double", [](const parlay::chars& c) { return parlay::chars_to_double(c); }, [](const std::string& s) { return std::stod(s); });
  floats<long double>(rng, "long double", [](const parlay::chars& c) { return parlay::chars_to_long_double(c); }, [](const std::string& s) { return std::stold(s); });
}
CASE("formatting of other types") {
  for (size_t k = 0, R = rounds(200); k < R; k++) {
    double d; u_int64_t b = rng.next(); memcpy(&d, &b, 8); if (!std::isfinite(d)) d = -1.7976931348623157e308;
    char buf[64]; snprintf(buf, sizeof buf, "%.11e", d);
    VF_CHECK(str(parlay::to_chars(d)) == buf, "format:double", "%s as %s", buf, str(parlay::to_chars(d)).c_str());
    float f = static_cast<float>(std::fmod(d, 1e30)); snprintf(buf, sizeof buf, "%.11e", static_cast<double>(f)); VF_CHECK(str(parlay::to_chars(f)) == buf, "format:float", "%s", buf);
    VF_CHECK(str(parlay::to_chars(true)) == "1" && str(parlay::to_chars(false)) == "0" && str(parlay::to_chars('q')) == "q", "format:bool-char", "%zu", k);
    size_t n = rng.below(rng.chance(1, 4) ? 3000 : 30); std::string s = text(rng, n); VF_CHECK(str(parlay::to_chars(s)) == s, "format:string", "%zu", n);
    std::string s0 = s; s0.erase(std::remove(s0.begin(), s0.end(), '\0'), s0.end()); VF_CHECK(str(parlay::to_chars(s0.c_str())) == s0, "format:c-string", "%zu", s0.size());
    parlay::sequence<int> v = parlay::tabulate(n, [&](size_t i) { return static_cast<int>(mix(i)); });
    std::string w = "["; for (size_t i = 0; i < n; i++) { if (i) w += ", "; w += std::to_string(v[i]); } w += "]";
    VF_CHECK(str(parlay::to_chars(v)) == w, "format:sequence", "%zu elements", n);
    parlay::sequence<std::pair<long, unsigned>> pv = parlay::tabulate(n % 40, [&](size_t i) { return std::pair<long, unsigned>(-static_cast<long>(i), i * 7); });
    w = "["; for (size_t i = 0; i < pv.size(); i++) { if (i) w += ", "; w += "(" + std::to_string(pv[i].first) + ", " + std::to_string(pv[i].second) + ")"; } w += "]";
    VF_CHECK(str(parlay::to_chars(pv)) == w, "format:pairs", "%zu elements", n);
    std::array<long, 3> ar{1, -2, static_cast<long>(k)}; VF_CHECK(str(parlay::to_chars(ar)) == "[1, -2, " + std::to_string(k) + "]", "format:array", "%zu", k);
    parlay::sequence<parlay::sequence<int>> nest(n % 5, parlay::sequence<int>(n % 3, 4)); std::string row = "["; for (size_t i = 0; i < n % 3; i++) row += i ? ", 4" : "4"; row += "]"; w = "["; for (size_t i = 0; i < n % 5; i++) w += (i ? ", " : "") + row; w += "]";
    VF_CHECK(str(parlay::to_chars(nest)) == w, "format:nested", "%zu", n);
    parlay::chars c = chs(s); const char* p = c.data(); auto c2 = parlay::to_chars(c); VF_CHECK(str(c2) == s && str(c) == s, "format:chars", "%zu", n); (void)p;
    auto c3 = parlay::to_chars(std::move(c)); VF_CHECK(str(c3) == s, "format:chars-move", "%zu", n);
    std::ostringstream os; os << c3; VF_CHECK(os.str() == s, "stream", "%zu", n);
    eval(H(k, n, b));
  }
}
#endif
#if VF_PART == 0 || VF_PART == 3 || VF_PART == 4
namespace {
struct Dir { std::string d; Dir() { char t[] = "/tmp/vf_io_XXXXXX"; d = mkdtemp(t); } ~Dir() { DIR* p = opendir(d.c_str()); if (p) { while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); } rmdir(d.c_str()); } };
size_t open_fds() { size_t n = 0; DIR* p = opendir("/proc/self/fd"); if (p) { while (readdir(p)) n++; closedir(p); } return n; }
size_t maps_of(const std::string& f) { std::ifstream in("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(in, l)) if (l.find(f) != std::string::npos) n++; return n; }
void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), static_cast<std::streamsize>(s.size())); }
std::string get(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
size_t fsize(Rng& r) { switch (r.below(5)) { case 0: return r.below(3); case 1: return r.below(40); case 2: return 4096 * (1 + r.below(4)) + r.below(3) - 1; case 3: return r.below(maxn(300000, 3000000)); default: return pick_size(r, 20000); } }
}
CASE("files: reading ranges, writing") {
  Dir dir; size_t f0 = open_fds();
  for (size_t k = 0, R = rounds(150); k < R; k++) {
    size_t n = fsize(rng); std::string s(n, 0); for (auto& c : s) c = static_cast<char>(rng.next()); std::string f = dir.d + "/a";
    put(f, s);
    for (int q = 0; q < 6; q++) {
      long st, en; 
      auto pos = [&]() -> long { switch (rng.below(5)) { case 0: return 0; case 1: return static_cast<long>(n); case 2: return static_cast<long>(n + 1 + rng.below(5000)); case 3: return static_cast<long>(rng.below(n + 1)); default: return static_cast<long>(n) - static_cast<long>(rng.below(std::min<size_t>(n, 3) + 1)); } };
      st = pos(); en = pos(); if (en != 0 && en < st) std::swap(st, en);
      bool nt = rng.chance(1, 2);
      auto c = st == 0 && en == 0 && rng.chance(1, 2) ? parlay::chars_from_file(f, nt) : parlay::chars_from_file(f, nt, st, en);
      size_t e = en == 0 ? n : std::min<size_t>(static_cast<size_t>(en), n), b = std::min<size_t>(static_cast<size_t>(st), n);
      std::string want = b < e ? s.substr(b, e - b) : std::string(); if (nt) want.push_back('\0');
      VF_CHECK(str(c) == want, "chars_from_file", "file of %zu, range [%ld, %ld): %zu characters of %zu%s", n, st, en, c.size(), want.size(), nt ? " (terminated)" : "");
      event("ranges_read"); if (static_cast<size_t>(en) > n || static_cast<size_t>(st) > n) event("ranges_past_the_end");
      eval(H(n, st, en, nt), n > 0);
    }
    std::string g = dir.d + "/b"; if (rng.chance(1, 2)) put(g, std::string(rng.below(100000), 'o'));    // an older, maybe longer, file there
    parlay::chars_to_file(chs(s), g); VF_CHECK(get(g) == s, "chars_to_file", "%zu characters", n);
    VF_CHECK(str(parlay::chars_from_file(g)) == s, "write-read", "%zu characters", n);
    event("files"); if (n == 0) event("empty_files");
  }
  VF_CHECK(open_fds() == f0, "fd-leak", "%zu descriptors open, %zu before", open_fds(), f0);
}
CASE("files: mapping") {
  Dir dir; size_t f0 = open_fds();
  for (size_t k = 0, R = rounds(150); k < R; k++) {
    auto mk = [&](const char* nm, std::string& s) { size_t n = fsize(rng); s.assign(n, 0); for (auto& c : s) c = static_cast<char>(rng.next()); put(dir.d + nm, s); return dir.d + nm; };
    std::string s1, s2; auto f1 = mk("/m1", s1), f2 = mk("/m2", s2);
    {
      auto same = [&](const parlay::file_map& m, const std::string& s, const char* how) {
        bool ok = m.size() == s.size() && m.empty() == s.empty() && std::equal(m.begin(), m.end(), s.begin(), s.end()); for (size_t i = 0; ok && i < s.size(); i += 1 + s.size() / 7) ok = m[i] == s[i];
        VF_CHECK(ok, std::string("file_map:") + how, "file of %zu mapped with %zu", s.size(), m.size()); };
      parlay::file_map a(f1), b(f2); same(a, s1, "open"); same(b, s2, "open");
      auto par = parlay::count_if(parlay::make_slice(a.begin(), a.end()), [](char c) { return c == 'x'; }); VF_CHECK(static_cast<size_t>(par) == static_cast<size_t>(std::count(s1.begin(), s1.end(), 'x')), "file_map:parallel read", "%zu", s1.size());
      parlay::file_map c(std::move(a)); same(c, s1, "moved"); VF_CHECK(a.empty() && a.size() == 0, "file_map:moved-from", "%zu", s1.size());
      switch (rng.below(3)) { case 0: std::swap(c, b); break; case 1: c.swap(b); break; default: { parlay::file_map t(std::move(c)); c = std::move(b); b = std::move(t); } }
      same(c, s2, "swapped"); same(b, s1, "swapped");
      b = std::move(c); same(b, s2, "move-assigned"); VF_CHECK(maps_of(f1) == 0, "file_map:replaced mapping kept", "%zu", s1.size());
      // the content is that of the file after it has been renamed away
      if (rng.chance(1, 2)) { unlink(f2.c_str()); same(b, s2, "unlinked"); }
      eval(H(s1.size(), s2.size(), k), s1.size() > 0);
    }
    VF_CHECK(maps_of(dir.d) == 0, "file_map:mapping-leak", "files of %zu and %zu", s1.size(), s2.size());
    event("mappings", 2);
  }
  VF_CHECK(open_fds() == f0, "fd-leak", "%zu descriptors open, %zu before", open_fds(), f0);
}
#endif
