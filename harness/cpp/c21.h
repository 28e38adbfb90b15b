// Slices, iterator adapters and sized integers: every operation of the bounds against array models.
#include <array>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <list>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <vector>
#include "vmc.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/int.h"
#include "support/rs_std/iterator_adapter.h"
using rs_std::SliceRef;
using std::string;
using vmc::Ex;
static string N(long x) { return std::to_string(x); }
static void ev(long n = 1) { vmc::stat("evaluations", n); vmc::stat("distinct_nontrivial", n); }
template <typename T> struct TP {};
// A: T, make(i), id(const T&), and the Rust functions of its module
template <typename A> struct Slices {
  using T = typename A::T;
  using SM = SliceRef<T>;
  using SC = SliceRef<const T>;
  static string show(SC s) { string r = "["; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + N(A::id(s.data()[i])); return r + "]"; }
  static uint64_t hash(const std::vector<uint32_t>& v) { uint64_t h = v.size(); for (uint32_t x : v) h = h * 31 + x; return h; }
  static void fail(const string& key, const string& text) { vmc::viol(string(A::name()) + ": " + key, string(A::name()) + ": " + text); }
  // what C++ and Rust see of a slice that should be the elements want at address at
  template <typename S> static bool is(S s, const T* at, const std::vector<uint32_t>& want, const string& what) {
    ev();
    string k = what + " of length " + N(want.size());
    std::span<std::remove_pointer_t<decltype(s.data())>> sp = s, sp2 = s.to_span();
    if (s.size() != want.size() || sp.size() != want.size() || sp2.size() != want.size()) { fail(k, "a slice " + k + " has size " + N(s.size()) + ", as span " + N(sp.size()) + ", " + N(sp2.size())); return false; }
    if (!want.empty() && (s.data() != at || sp.data() != at || sp2.data() != at)) { fail(k + " address", "a slice " + k + " starts at another address, by " + N((const char*)s.data() - (const char*)at) + " bytes"); return false; }
    for (size_t i = 0; i < want.size(); i++) if (A::id(s.data()[i]) != want[i] || &sp[i] != at + i) { fail(k + " element", "a slice " + k + " is " + show(s)); return false; }
    uint64_t h = A::hash(s);
    if (h == ~0ull) { fail(k + " null", "Rust receives a null or unaligned pointer for a slice " + k); return false; }
    if (h != hash(want)) { fail(k + " rust", "Rust sees other elements or another length for a slice " + k + " " + show(s)); return false; }
    return true;
  }
  static std::vector<uint32_t> ids(size_t n, uint32_t first = 1) { std::vector<uint32_t> v; for (size_t i = 0; i < n; i++) v.push_back(first + i); return v; }
  static std::vector<T> vec(const std::vector<uint32_t>& v) { std::vector<T> r; r.reserve(v.size()); for (uint32_t x : v) r.push_back(A::make(x)); return r; }
  template <size_t kN> static void arrays() {
    if constexpr (kN > 0) {
      auto f = []<size_t... I>(std::index_sequence<I...>) {
        std::array<T, kN> a = {A::make(I + 1)...};
        const std::array<T, kN>& ca = a;
        T b[kN] = {A::make(I + 1)...};
        const T c[kN] = {A::make(I + 1)...};
        is(SM(a), a.data(), ids(kN), "from std::array"); is(SC(a), a.data(), ids(kN), "const from std::array"); is(SC(ca), a.data(), ids(kN), "const from const std::array");
        is(SM(b), b, ids(kN), "from an array"); is(SC(b), b, ids(kN), "const from an array"); is(SC(c), c, ids(kN), "const from a const array");
        is(SM(std::span<T, kN>(b)), b, ids(kN), "from a span of fixed extent"); is(SC(std::span<T, kN>(b)), b, ids(kN), "const from a span of fixed extent"); is(SC(std::span<const T, kN>(c)), c, ids(kN), "const from a const span of fixed extent");
        SC imp = a; is(imp, a.data(), ids(kN), "implicitly from std::array"); SC imp2 = b; is(imp2, b, ids(kN), "implicitly from an array");
      };
      f(std::make_index_sequence<kN>());
    }
  }
  static void sources(size_t maxn) {
    arrays<1>(); arrays<2>(); arrays<3>(); arrays<7>();
    for (size_t n = 0; n <= maxn; n++) {
      std::vector<T> v = vec(ids(n));
      const std::vector<T>& cv = v;
      T* p = v.data();
      auto w = ids(n);
      is(SM(p, n), p, w, "from pointer and size"); is(SC(p, n), p, w, "const from pointer and size");
      is(SM(v), p, w, "from std::vector"); is(SC(v), p, w, "const from std::vector"); is(SC(cv), p, w, "const from const std::vector");
      SC imp = v; is(imp, p, w, "implicitly from std::vector"); SC imp1 = cv; is(imp1, p, w, "implicitly from const std::vector");
      SM isp = std::span<T>(v); is(isp, p, w, "implicitly from a span"); SC icsp = std::span<const T>(cv); is(icsp, p, w, "implicitly from a const span"); SC ics2 = std::span<T>(v); is(ics2, p, w, "const implicitly from a span");
      SM m(v); SC c = m; is(c, p, w, "const from a mutable slice");
      SC c2; c2 = m; is(c2, p, w, "const assigned from a mutable slice");
      SM m2(m); SM m3(std::move(m2)); SM m4; m4 = m3; is(m4, p, w, "copied"); SC c3(c), c4; c4 = std::move(c3); is(c4, p, w, "const copied");
      is(SM(std::ranges::subrange(p, p + n)), p, w, "from a subrange"); is(SC(std::ranges::subrange(p, p + n)), p, w, "const from a subrange");
      is(SC(std::views::all(cv)), p, w, "const from a view of a vector"); is(SM(std::views::all(v)), p, w, "from a view of a vector");
      is(SM(std::views::take(v, n)), p, w, "from a take view");
      is(SM(std::span<T>(m)), p, w, "through a span and back"); is(SC(c.to_span()), p, w, "const through a span and back");
      for (size_t i = 0; i <= n; i++)
        for (size_t j = i; j <= n; j++) {
          auto part = ids(j - i, i + 1);
          string wh = "sub-slice [" + N(i) + ".." + N(j) + "] of " + N(n);
          is(A::sub(c, i, j), p + i, part, "of Rust's " + wh);
          is(A::sub_mut(m, i, j), p + i, part, "of Rust's mutable " + wh);
          is(SM(std::span<T>(v).subspan(i, j - i)), p + i, part, "of a subspan, " + wh);
          is(SC(p + i, j - i), p + i, part, "of pointer and size, " + wh);
          // writes on one side are seen by the other
          if (i < j) {
            A::put(A::sub_mut(m, i, j), j - i - 1, 90); auto now = w; now[j - 1] = 90; is(m, p, now, "after a write by Rust into " + wh);
            A::sub_mut(m, i, j).data()[0] = A::make(91); now[i] = 91; is(c, p, now, "after a write by C++ into " + wh);
            for (size_t k = 0; k < n; k++) v[k] = A::make(k + 1);
          }
        }
      is(A::fixed(n), A::fixed(n).data(), ids(n), "from Rust");
    }
    std::vector<T> some = vec(ids(3));
    static SM gm; static SC gc;
    is(SM(), nullptr, {}, "default"); is(SC(), nullptr, {}, "const default"); is(gm, nullptr, {}, "static default"); is(gc, nullptr, {}, "const static default");
    is(SM(nullptr, 0), nullptr, {}, "null"); is(SM(nullptr, 3), nullptr, {}, "null with a size"); is(SC(nullptr, size_t(-1)), nullptr, {}, "const null with a size"); is(SM(some.data(), 0), nullptr, {}, "pointer without elements"); is(SM(some.data() + 3, 0), nullptr, {}, "end pointer without elements");
    is(SM(std::span<T>()), nullptr, {}, "empty span"); is(SC(std::span<const T>()), nullptr, {}, "const empty span"); is(SM(std::span<T>(some.data() + 1, size_t(0))), nullptr, {}, "empty span into elements"); is(SC(std::ranges::empty_view<T>()), nullptr, {}, "empty view"); is(SM(std::span<T, 0>()), nullptr, {}, "span of extent 0");
    is(SC(std::vector<T>()), nullptr, {}, "temporary empty vector"); std::array<T, 0> a0 = {}; is(SM(a0), nullptr, {}, "array of no elements"); is(SC(SM()), nullptr, {}, "const from default");
    SM z(some); z = SM(); is(z, nullptr, {}, "assigned empty"); if (z.data() != nullptr) fail("data of empty", "data() of an empty slice is not null");
  }
  static void compare(int maxn) {
    std::vector<std::vector<uint32_t>> all{{}};
    for (size_t i = 0, k = 0; k < size_t(maxn); k++) for (size_t e = all.size(); i < e; i++) for (uint32_t x : {1, 2}) { auto y = all[i]; y.push_back(x); all.push_back(y); }
    for (auto& x : all)
      for (auto& y : all) {
        std::vector<T> a = vec(x), b = vec(y);
        const std::vector<T>& cb = b;
        SM m(a), n(b); SC c(a), d(b);
        bool w = x == y;
        auto bad = [&](const char* what, bool eq, bool ne) { ev(); if (eq != w || ne == w) fail(string("compare ") + what, show(c) + " == " + show(d) + " (" + what + ") is " + (eq ? "true" : "false") + ", != is " + (ne ? "true" : "false")); };
        bad("mutable, mutable", m == n, m != n); bad("const, const", c == d, c != d); bad("mutable, const", m == d, m != d); bad("const, mutable", c == n, c != n);
        bad("slice, vector", c == b, c != b); bad("vector, slice", a == d, a != d); bad("mutable, const vector", m == cb, m != cb);
        bad("slice, span", c == std::span<const T>(b), c != std::span<const T>(b)); bad("span, slice", std::span<T>(a) == d, std::span<T>(a) != d); bad("mutable, span", m == std::span<T>(b), m != std::span<T>(b));
        // overlapping views into the same elements
        if (x.size() > 1) { std::vector<uint32_t> l(x.begin(), x.end() - 1), r(x.begin() + 1, x.end()); w = l == r; bad("overlapping", SC(a.data(), l.size()) == SC(a.data() + 1, r.size()), SM(a.data(), l.size()) != SM(a.data() + 1, r.size())); }
      }
  }
  // histories over two mutable slices and a const one that view two buffers
  static void histories(int depth) {
    std::vector<uint32_t> i0 = ids(3), i1 = ids(2, 10);
    vmc::explore([&](Ex& x) {
      std::vector<T> buf[2] = {vec(i0), vec(i1)};
      std::vector<uint32_t> model[2] = {i0, i1};
      struct V { int b = 0; size_t off = 0, len = 0; } mv[3];
      SM s[2]; SC c;
      string h;
      uint32_t next = 20;
      auto at = [&](V v) { return v.len ? buf[v.b].data() + v.off : nullptr; };
      auto want = [&](V v) { return std::vector<uint32_t>(model[v.b].begin() + v.off, model[v.b].begin() + v.off + v.len); };
      for (int t = 0; t < depth; t++) {
        int op = x.pick(12);
        int k = op & 1;
        if (op < 2) { int b = x.pick(2); s[k] = SM(buf[b]); mv[k] = {b, 0, buf[b].size()}; h += " s" + N(k) + "=all of buffer " + N(b); }
        else if (op < 4) { s[k] = s[1 - k]; mv[k] = mv[1 - k]; h += " s" + N(k) + "=s" + N(1 - k); }
        else if (op < 6) { size_t i = x.pick(mv[k].len + 1), j = i + x.pick(mv[k].len - i + 1); s[k] = A::sub_mut(s[k], i, j); mv[k].off += i; mv[k].len = j - i; h += " s" + N(k) + "=Rust s[" + N(i) + ".." + N(j) + "]"; }
        else if (op < 8) { if (!mv[k].len) return; size_t i = x.pick(mv[k].len); s[k].data()[i] = A::make(next); model[mv[k].b][mv[k].off + i] = next++; h += " s" + N(k) + "[" + N(i) + "]="; }
        else if (op < 10) { if (!mv[k].len) return; size_t i = x.pick(mv[k].len); A::put(s[k], i, next); model[mv[k].b][mv[k].off + i] = next++; h += " Rust s" + N(k) + "[" + N(i) + "]="; }
        else if (op == 10) { int b = x.pick(2); c = s[b]; mv[2] = mv[b]; h += " c=s" + N(b); }
        else { if (!mv[2].len) return; c = A::sub(c, 1, mv[2].len); mv[2].off++; mv[2].len--; h += " c=Rust c[1..]"; }
        for (int q = 0; q < 2; q++) if (!is(s[q], at(mv[q]), want(mv[q]), "s" + N(q) + " after" + h)) return;
        if (!is(c, at(mv[2]), want(mv[2]), "c after" + h)) return;
        if ((s[0] == s[1]) != (want(mv[0]) == want(mv[1])) || (c == s[0]) != (want(mv[2]) == want(mv[0]))) { fail("compare after" + h, "comparison after" + h + " is wrong"); return; }
      }
      static int n; if (n++ % 5000 == 77) vmc::sample(string(A::name()) + ":" + h);
    });
  }
  static void all(int depth) { sources(9); compare(3); histories(depth); }
};

// ---- conversions the documentation allows
struct Conv { const char* from; const char* to; bool implicit, explicit_; bool want_implicit, want_explicit; };
static void conv(const Conv& c) {
  ev();
  if (c.implicit != c.want_implicit) vmc::viol(string("implicit ") + c.from + " -> " + c.to, string("implicit conversion from ") + c.from + " to " + c.to + (c.implicit ? " is possible" : " is not possible"));
  if (c.explicit_ != c.want_explicit) vmc::viol(string("explicit ") + c.from + " -> " + c.to, string("explicit conversion from ") + c.from + " to " + c.to + (c.explicit_ ? " is possible" : " is not possible"));
}
// ---- sized integers
template <typename X, typename I> static void ints(const char* name) {
  using U = uintptr_t;
  std::vector<U> vs = {0, 1, 2, 7, U(-1), U(-2), U(1) << 63, (U(1) << 63) - 1, (U(1) << 63) + 1, U(1) << 32, (U(1) << 32) - 1, 0x0123456789abcdef};
  auto bad = [&](const char* w, U a, U b) { vmc::viol(string(name) + " " + w, string(name) + ": " + w + " of " + std::to_string(I(a)) + " and " + std::to_string(I(b)) + " is wrong"); };
  if (I(X()) != 0) bad("default", 0, 0);
  for (U a : vs)
    for (U b : vs) {
      ev();
      X x = I(a), y(static_cast<I>(b));
      I p = I(a), q = I(b);
      if (I(x) != p || x != X(p)) bad("value", a, b);
      if ((x == y) != (p == q) || (x != y) != (p != q)) bad("==", a, b);
      if ((x < y) != (p < q) || (x <= y) != (p <= q) || (x > y) != (p > q) || (x >= y) != (p >= q)) bad("order", a, b);
      I s, d;
      bool so = __builtin_add_overflow(p, q, &s), dо = __builtin_sub_overflow(p, q, &d);
      if (std::is_unsigned_v<I> || !so) { if (I(x + y) != s) bad("+", a, b); X z = x; if (I(z += y) != s || I(z) != s) bad("+=", a, b); }
      if (std::is_unsigned_v<I> || !dо) { if (I(x - y) != d) bad("-", a, b); X z = x; if (I(z -= y) != d || I(z) != d) bad("-=", a, b); }
      X z; z = x; X w2(z); if (I(w2) != p) bad("copy", a, b);
    }
}
