// Strings and characters: every byte string of the bounds through FromUtf8, to Rust and back; every code point.
#include <csignal>
#include <csetjmp>
#include <cstdint>
#include <limits>
#include <optional>
#include <ostream>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "vmc.h"
#include "support/rs_std/char.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"
using rs_std::StrRef;
using std::string;
using std::string_view;
static string hex(string_view s) { string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); r += b; } return r.empty() ? "<empty>" : r; }
// The oracle: split into code points by arithmetic, accept iff each is a scalar value in its shortest form.
static bool scalar(uint32_t c) { return c < 0xd800 || (c > 0xdfff && c < 0x110000); }
static int enc(uint32_t c, unsigned char* o) {
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xc0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { o[0] = 0xe0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; }
  o[0] = 0xf0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4;
}
static bool valid(const unsigned char* p, size_t n) {
  while (n) {
    unsigned b = p[0];
    size_t k = b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0;
    if (!k || k > n) return false;
    uint32_t c = k == 1 ? b : b & (0xff >> (k + 1));
    for (size_t i = 1; i < k; i++) { if (p[i] / 64 != 2) return false; c = c * 64 + p[i] % 64; }
    unsigned char o[4];
    if (!scalar(c) || enc(c, o) != int(k)) return false;
    p += k; n -= k;
  }
  return true;
}
static long long evals, accepted;
static void one(const unsigned char* b, size_t n, bool rust) {
  string_view s(reinterpret_cast<const char*>(b), n);
  bool want = valid(b, n);
  evals++;
  std::optional<StrRef> r = StrRef::FromUtf8(s);
  if (r.has_value() != want) { vmc::viol("FromUtf8 " + hex(s), "StrRef::FromUtf8 of the bytes " + hex(s) + (want ? "rejects valid UTF-8" : "accepts invalid UTF-8")); return; }
  if (!want) return;
  accepted++;
  string_view v = *r;
  if (v != s || r->size() != n || r->len() != n || r->empty() != (n == 0) || r->to_string_view() != s || (n && (r->data() != s.data() || v.data() != s.data())))
    vmc::viol("view " + hex(s), "the StrRef of " + hex(s) + " views " + hex(v) + "size " + std::to_string(r->size()));
  if (!rust) return;
  // bit 0: same bytes (sum), bit 1: valid there too
  uint64_t h = n;
  for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
  if (h::hash(*r) != h) vmc::viol("rust " + hex(s), "Rust sees a string other than " + hex(s));
}
static void strings(int lo, int hi) {   // all strings of up to 3 bytes with first byte in [lo, hi)
  unsigned char b[8];
  if (lo == 0) one(b, 0, true);
  for (int i = lo; i < hi; i++) {
    b[0] = i; one(b, 1, true);
    for (int j = 0; j < 256; j++) {
      b[1] = j; one(b, 2, true);
      for (int k = 0; k < 256; k++) { b[2] = k; one(b, 3, (j * 7 + k) % 5 == 0);
        for (int l = 0; l < 256; l++) { b[3] = l; one(b, 4, false); } }
    }
  }
  // class representatives
  static const unsigned char R[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff};
  int nr = sizeof(R), depth = vmc::thorough() ? 7 : 6;
  for (int f = 0; f < nr; f++) {
    if (R[f] < lo || R[f] >= hi) continue;
    for (int n = 4; n <= depth; n++) {
      int idx[8] = {f};
      while (true) {
        for (int i = 0; i < n; i++) b[i] = R[idx[i]];
        one(b, n, n < 6);
        int i = n - 1;
        while (i > 0 && ++idx[i] == nr) idx[i--] = 0;
        if (!i) break;
      }
    }
  }
  // sequences of whole characters and broken ones, longer than one character's bytes
  static const string P[] = {"a", string("\0", 1), "\u00e9", "\u20ac", "\U0001f600", "\x80", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80"};
  if (lo == 0) {
    int np = 10, n = vmc::thorough() ? 7 : 6;
    long total = 1;
    for (int i = 0; i < n; i++) total *= np;
    for (long x = 0; x < total; x++) { string s; long y = x; for (int i = 0; i < n; i++) { s += P[y % np]; y /= np; } one(reinterpret_cast<const unsigned char*>(s.data()), s.size(), true); }
    // every length up to 70, one bad byte at every place; the bytes end where the string ends
    for (int len = 0; len <= 70; len++)
      for (int at = -1; at < len; at++)
        for (unsigned char bad : {0x80, 0xc3, 0xe2, 0xf0, 0xff, 0x7f, 0x00}) {
          std::vector<unsigned char> v(len, 'x');
          if (at >= 0) v[at] = bad;
          unsigned char* heap = static_cast<unsigned char*>(malloc(len ? len : 1));
          memcpy(heap, v.data(), len);
          one(heap, len, true);
          free(heap);
        }
  }
}
struct Sink { string s; void Append(string_view v) { s += v; } };
static sigjmp_buf jb;
static void on_abort(int) { siglongjmp(jb, 1); }
template <typename F> static bool aborts(F f) {
  struct sigaction a = {}, o;
  a.sa_handler = on_abort; a.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &a, &o);
  bool r = false;
  if (sigsetjmp(jb, 1) == 0) f(); else r = true;
  sigaction(SIGABRT, &o, nullptr);
  return r;
}
static string U(uint32_t c) { char b[16]; snprintf(b, 16, "U+%04X", c); return b; }
static void chars(uint64_t lo, uint64_t hi, bool deep) {
  for (uint64_t c = lo; c < hi; c++) {
    evals++;
    auto r = rs_std::char_::from_u32(static_cast<char32_t>(c));
    if (r.has_value() != scalar(c)) { vmc::viol("from_u32 " + U(c), "char_::from_u32(" + U(c) + (r ? ") accepts" : ") rejects") + " it"); continue; }
    if (!r) continue;
    accepted++;
    if (uint32_t(*r) != c) vmc::viol("value " + U(c), U(c) + " became " + U(uint32_t(*r)));
    if (!deep) continue;
    unsigned char want[4], buf[6];
    int n = enc(c, want);
    if (r->len_utf8() != size_t(n)) vmc::viol("len_utf8 " + U(c), "len_utf8 of " + U(c) + " is " + std::to_string(r->len_utf8()));
    for (int room = n; room <= 5; room++) {
      memset(buf, 0xee, sizeof(buf));
      StrRef s = r->encode_utf8(std::span<uint8_t>(buf, room));
      if (s.size() != size_t(n) || s.data() != reinterpret_cast<char*>(buf) || memcmp(buf, want, n) || buf[n] != 0xee || buf[5] != 0xee)
        vmc::viol("encode " + U(c), "encode_utf8 of " + U(c) + " into " + std::to_string(room) + " bytes gives " + hex(s));
    }
    Sink k;
    AbslStringify(k, *r);
    if (k.s != string_view(reinterpret_cast<char*>(want), n)) vmc::viol("AbslStringify " + U(c), "AbslStringify of " + U(c) + " gives " + hex(k.s));
    if (h::code(*r) != c) vmc::viol("rust char " + U(c), "Rust sees " + U(h::code(*r)) + " for " + U(c));
    if (uint32_t(h::make(c)) != c) vmc::viol("char from rust " + U(c), "C++ sees " + U(uint32_t(h::make(c))) + " for " + U(c));
    if (!StrRef::FromUtf8(string_view(reinterpret_cast<char*>(want), n))) vmc::viol("FromUtf8 char " + U(c), "the encoding of " + U(c) + " is not accepted as UTF-8");
  }
}
static void char_ops() {
  std::vector<uint32_t> cs;
  for (uint32_t b : {0u, 0x41u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xfffdu, 0xffffu, 0x10000u, 0x10ffffu}) cs.push_back(b);
  for (uint32_t a : cs)
    for (uint32_t b : cs) {
      auto x = *rs_std::char_::from_u32(a), y = *rs_std::char_::from_u32(b);
      evals++; accepted++;
      auto z = x; z = y; rs_std::char_ w(z);
      if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) || !(w == y))
        vmc::viol("compare chars " + U(a) + " " + U(b), "comparison of " + U(a) + " and " + U(b) + " is wrong");
      if (h::lt(x, y) != (a < b)) vmc::viol("compare rust chars", "Rust compares " + U(a) + " and " + U(b) + " otherwise");
    }
  if (uint32_t(rs_std::char_()) != 0 || uint32_t(rs_std::char_::MAX) != 0x10ffff) vmc::viol("char constants", "default or MAX of char_ is wrong");
  for (uint32_t c : {0x41u, 0xe9u, 0x20acu, 0x1f600u}) {
    unsigned char want[4], buf[4];
    int n = enc(c, want);
    for (int room = 0; room < n; room++) {
      evals++;
      memset(buf, 0xee, 4);
      auto ch = *rs_std::char_::from_u32(c);
      bool ab = aborts([&] { ch.encode_utf8(std::span<uint8_t>(buf, room)); });
      bool wrote = buf[room] != 0xee;
      if (!ab || wrote) vmc::viol("short buffer", "encode_utf8 of " + U(c) + " into " + std::to_string(room) + " bytes " + (ab ? "wrote past the end before it aborted" : "did not abort"));
    }
  }
}
template <typename X> static int sgn(X o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static void pairs() {
  static const string P[] = {"a", "b", string("\0", 1), "\u00e9", "\U0001f600"};
  std::vector<string> v{""};
  for (size_t i = 0, k = 0; k < 3; k++) { size_t e = v.size(); for (; i < e; i++) for (auto& p : P) v.push_back(v[i] + p); }
  auto F = [](const string& s) { return *StrRef::FromUtf8(s); };
  for (auto& a : v) {
    StrRef x = F(a);
    std::ostringstream os; os << x;
    Sink k; AbslStringify(k, x);
    evals++;
    if (os.str() != a || k.s != a) vmc::viol("print " + hex(a), "printing the string " + hex(a) + " gives " + hex(os.str()) + " or " + hex(k.s));
    StrRef y = x, z; z = y; StrRef w(std::move(z));
    if (w.to_string_view().data() != x.data() || !(w == x)) vmc::viol("copy " + hex(a), "copying a StrRef changes it");
    StrRef un = StrRef::FromUtf8Unchecked(a);
    if (un.to_string_view() != a || un.data() != x.data()) vmc::viol("unchecked " + hex(a), "FromUtf8Unchecked changes the string " + hex(a));
    rs_std::SliceRef<const char> sl(a.data(), a.size());
    for (auto& b : v) {
      StrRef q = F(b);
      string_view sv = b;
      const char* cp = b.c_str();
      string_view cut(cp);
      evals++; accepted++;
      auto bad = [&](const char* w, bool got, bool want) { if (got != want) vmc::viol(string("compare ") + w + " " + hex(a) + "/ " + hex(b), string("StrRef ") + w + " of " + hex(a) + "and " + hex(b) + "is " + (got ? "true" : "false")); };
      int c = sgn(string_view(a).compare(sv)), d = sgn(string_view(a).compare(cut));
      // the byte order, by hand
      { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; int e = i < a.size() && i < b.size() ? (static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1) : a.size() < b.size() ? -1 : a.size() > b.size(); c = e; }
      bad("==", x == q, c == 0); bad("!=", x != q, c != 0); bad("<", x < q, c < 0); bad("<=", x <= q, c <= 0); bad(">", x > q, c > 0); bad(">=", x >= q, c >= 0);
      bad("== view", x == sv, c == 0); bad("!= view", x != sv, c != 0); bad("< view", x < sv, c < 0); bad("<= view", x <= sv, c <= 0); bad("> view", x > sv, c > 0); bad(">= view", x >= sv, c >= 0);
      bad("view ==", sv == x, c == 0); bad("view !=", sv != x, c != 0); bad("view <", sv < x, c > 0); bad("view <=", sv <= x, c >= 0); bad("view >", sv > x, c < 0); bad("view >=", sv >= x, c <= 0);
      bad("== cstr", x == cp, d == 0); bad("!= cstr", x != cp, d != 0); bad("< cstr", x < cp, d < 0); bad("<= cstr", x <= cp, d <= 0); bad("> cstr", x > cp, d > 0); bad(">= cstr", x >= cp, d >= 0);
      bad("cstr ==", cp == x, d == 0); bad("cstr !=", cp != x, d != 0); bad("cstr <", cp < x, d > 0); bad("cstr <=", cp <= x, d >= 0); bad("cstr >", cp > x, d < 0); bad("cstr >=", cp >= x, d <= 0);
      bad("== (Rust)", h::eq(x, q), c == 0); bad("< (Rust)", h::slt(x, q), c < 0);
    }
    // to Rust and back: every substring at character boundaries is a view into the same bytes
    for (size_t i = 0; i <= a.size(); i++)
      for (size_t j = i; j <= a.size(); j++) {
        auto boundary = [&](size_t t) { return t == a.size() || (static_cast<unsigned char>(a[t]) & 0xc0) != 0x80; };
        if (!boundary(i) || !boundary(j)) continue;
        evals++; accepted++;
        StrRef s = h::sub(x, i, j);
        if (s.size() != j - i || (j > i && s.data() != a.data() + i) || s.to_string_view() != string_view(a).substr(i, j - i))
          vmc::viol("substring " + hex(a), "Rust's &s[" + std::to_string(i) + ".." + std::to_string(j) + "] of " + hex(a) + "is " + hex(s) + "in C++");
        if (h::is_null(s)) vmc::viol("null", "Rust receives a null string pointer after &s[" + std::to_string(i) + ".." + std::to_string(j) + "]");
      }
  }
  static StrRef glob;                      // zero-initialised or default
  StrRef dflt;
  StrRef e1 = *StrRef::FromUtf8(string_view());
  StrRef e2 = *StrRef::FromUtf8(string_view("x", size_t(0)));
  constexpr StrRef e3 = "";
  constexpr StrRef e4 = string_view();
  StrRef e5 = StrRef::FromUtf8Unchecked(string_view());
  int n = 0;
  for (StrRef s : {dflt, e1, e2, e3, e4, e5, glob}) {
    evals++; accepted++;
    if (h::is_null(s) || h::hash(s) != 0 || !s.empty() || s.size() || !(s == "")) vmc::viol("empty " + std::to_string(n), "empty StrRef number " + std::to_string(n) + " is not an empty string with a non-null pointer in Rust");
    n++;
  }
}
