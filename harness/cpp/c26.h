// Values by index for every bridged type, and the round trips between the two languages' encodings (see checks/c26.py).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include "support/bridge.h"
#include "support/rs_std/slice_ref.h"
#include "vmc.h"
namespace c26 {
// The ledger of owned payloads: tokens that may lie anywhere, and objects that live at one address.
inline std::map<uint64_t, int>& toks() { static std::map<uint64_t, int> m; return m; }
inline std::set<const void*>& objs() { static std::set<const void*> m; return m; }
inline std::string& err() { static std::string e; return e; }
inline uint64_t born() { static uint64_t n = 0x1111; toks()[++n] = 1; return n; }
inline void died(uint64_t t) { if (!toks().erase(t)) err() = "an owned payload was released twice or never existed"; }
struct Own {  // bitwise relocatable owner; layout shared with the Rust struct Own
  uint64_t id, tok;
  explicit Own(uint64_t i) : id(i), tok(born()) {}
  Own(Own&& o) : id(o.id), tok(o.tok) { o.tok = 0; o.id = 99; }
  Own& operator=(Own&&) = delete;
  ~Own() { if (tok) died(tok); tok = 0; id = 98; }
};
struct Obj {  // lives at one address; crosses the boundary in a box
  uint64_t id; const Obj* self; uint64_t tok;
  explicit Obj(uint64_t i) : id(i), self(this), tok(born()) { objs().insert(this); }
  Obj(Obj&& o) : id(o.id), self(this), tok(o.tok) { o.ok(); objs().insert(this); o.tok = 0; o.id = 99; }
  Obj& operator=(Obj&&) = delete;
  ~Obj() { ok(); if (!objs().erase(this)) err() = "an object was destroyed where nothing lives"; if (tok) died(tok); self = nullptr; }
  void ok() const { if (self != this) err() = "the bytes of an object that lives at one address were moved"; }
};
struct Mix { uint8_t a; uint32_t b; uint16_t c; };

template <typename V> struct G;
#define C26_LEAF(T, A, B) template <> struct G<T> { \
  static constexpr uint64_t n = 2; static T make(uint64_t i) { return i ? (T)(B) : (T)(A); } \
  static bool eq(T const& v, uint64_t i) { T w = make(i); return memcmp(&v, &w, sizeof(T)) == 0; } };
C26_LEAF(uint8_t, 0, 0xA5) C26_LEAF(int8_t, -1, 0x5A) C26_LEAF(uint16_t, 0x0102, 0xFFFE) C26_LEAF(int32_t, -2, 0x01020304)
C26_LEAF(uint32_t, 7, 0xFEDCBA98u) C26_LEAF(uint64_t, 0x0102030405060708ull, 0x8000000000000001ull) C26_LEAF(int64_t, INT64_MIN, 77)
C26_LEAF(float, 1.5f, -0.0f) C26_LEAF(double, -3.25, 1e300) C26_LEAF(bool, false, true)
C26_LEAF(const int32_t*, nullptr, 0x1234) C26_LEAF(uint8_t*, 0x77, 0xFFFFFFFFFFFFFFFFull)
template <typename T> struct G<rs_std::SliceRef<T>> {
  static constexpr uint64_t n = 2;
  static rs_std::SliceRef<T> make(uint64_t i) { return i ? rs_std::SliceRef<T>(reinterpret_cast<T*>(0x5670), 3) : rs_std::SliceRef<T>(reinterpret_cast<T*>(0x4440), 1); }
  static bool eq(const rs_std::SliceRef<T>& v, uint64_t i) { return v.data() == make(i).data() && v.size() == make(i).size(); }
};
template <> struct G<Mix> {
  static constexpr uint64_t n = 2;
  static Mix make(uint64_t i) { return i ? Mix{1, 0x02030405, 0x0607} : Mix{255, 0, 9}; }
  static bool eq(const Mix& v, uint64_t i) { Mix w = make(i); return v.a == w.a && v.b == w.b && v.c == w.c; }
};
template <> struct G<Own> {
  static constexpr uint64_t n = 2;
  static Own make(uint64_t i) { return Own(i + 40); }
  static bool eq(const Own& v, uint64_t i) { return v.id == i + 40 && toks().count(v.tok); }
};
template <> struct G<Obj> {
  static constexpr uint64_t n = 2;
  static Obj make(uint64_t i) { return Obj(i + 60); }
  static bool eq(const Obj& v, uint64_t i) { v.ok(); return v.id == i + 60 && toks().count(v.tok); }
};
template <> struct G<std::string> {
  static constexpr uint64_t n = 2;
  static std::string make(uint64_t i) { return i ? std::string("a string too long to be stored inline \0 x", 41) : ""; }
  static bool eq(const std::string& v, uint64_t i) { return v == make(i); }
};
template <typename V> struct G<std::optional<V>> {
  static constexpr uint64_t n = 1 + G<V>::n;
  static std::optional<V> make(uint64_t i) { if (i == 0) return std::nullopt; return std::optional<V>(G<V>::make(i - 1)); }
  static bool eq(const std::optional<V>& v, uint64_t i) { return v.has_value() == (i != 0) && (i == 0 || G<V>::eq(*v, i - 1)); }
};
template <typename A, typename B> struct G<std::pair<A, B>> {
  static constexpr uint64_t n = G<A>::n * G<B>::n;
  static std::pair<A, B> make(uint64_t i) { return {G<A>::make(i / G<B>::n), G<B>::make(i % G<B>::n)}; }
  static bool eq(const std::pair<A, B>& v, uint64_t i) { return G<A>::eq(v.first, i / G<B>::n) && G<B>::eq(v.second, i % G<B>::n); }
};
template <typename... T> struct G<std::tuple<T...>> {
  static constexpr uint64_t n = (1 * ... * G<T>::n);
  // the last element is the fastest digit
  template <size_t I> static uint64_t digit(uint64_t i) {
    uint64_t ns[] = {G<T>::n..., 1};
    for (size_t k = sizeof...(T); k-- > I + 1;) i /= ns[k];
    return i % ns[I];
  }
  static std::tuple<T...> make(uint64_t i) { return [&]<size_t... I>(std::index_sequence<I...>) { return std::tuple<T...>(G<T>::make(digit<I>(i))...); }(std::index_sequence_for<T...>()); }
  static bool eq(const std::tuple<T...>& v, uint64_t i) { return [&]<size_t... I>(std::index_sequence<I...>) { return (true && ... && G<T>::eq(std::get<I>(v), digit<I>(i))); }(std::index_sequence_for<T...>()); }
};

// Bridges of a user's: an option with its own tag, a pair in the other order, and a box without type arguments.
using ObjAbi = crubit::BoxedAbi<Obj>;
template <typename Abi> struct UOpt {
  using Value = std::optional<typename Abi::Value>;
  static constexpr size_t kSize = 1 + Abi::kSize;
  explicit UOpt(Abi a) : abi(a) {}
  void Encode(Value v, crubit::Encoder& e) && {
    crubit::TransmuteAbi<uint8_t>().Encode(v.has_value() ? 8 : 7, e);
    if (v.has_value()) std::move(abi).Encode(*std::move(v), e);
  }
  Value Decode(crubit::Decoder& d) && {
    if (crubit::TransmuteAbi<uint8_t>().Decode(d) != 8) return std::nullopt;
    return std::move(abi).Decode(d);
  }
  Abi abi;
};
template <typename A, typename B> struct UPair {
  using Value = std::pair<typename A::Value, typename B::Value>;
  static constexpr size_t kSize = A::kSize + B::kSize;
  UPair(A x, B y) : a(x), b(y) {}
  void Encode(Value v, crubit::Encoder& e) && { std::move(b).Encode(std::move(v.second), e); std::move(a).Encode(std::move(v.first), e); }
  Value Decode(crubit::Decoder& d) && { auto y = std::move(b).Decode(d); auto x = std::move(a).Decode(d); return Value(std::move(x), std::move(y)); }
  A a; B b;
};

struct Buf {  // exactly n bytes at a chosen misalignment between guard bytes
  unsigned char* m; size_t n, off;
  Buf(size_t n, size_t off) : m(static_cast<unsigned char*>(malloc(n + off + 24))), n(n), off(off) { memset(m, 0xC3, n + off + 24); }
  ~Buf() { free(m); }
  unsigned char* p() { return m + off + 8; }
  bool guarded() const {
    for (size_t i = 0; i < n + off + 24; i++) if ((i < off + 8 || i >= off + 8 + n) && m[i] != 0xC3) return false;
    return true;
  }
};
using REnc = void (*)(uint64_t, unsigned char*);
using RDec = int (*)(uint64_t, const unsigned char*);
template <typename Abi, typename Mk>
void tree(const char* name, bool bytes, uint64_t rsize, uint64_t rn, REnc renc, RDec rdec, Mk mk) {
  using V = typename Abi::Value;
  auto bad = [&](const std::string& t) { vmc::viol(std::string(name) + ": " + t, std::string(name) + ": " + t); };
  vmc::stat("trees", 1);
  vmc::sample(name);
  if (Abi::kSize != rsize) return bad("the encoded size is " + std::to_string(Abi::kSize) + " bytes in C++ and " + std::to_string(rsize) + " in Rust");
  if (G<V>::n != rn) return bad("the two languages do not agree on the type (harness)");
  auto enc = [&](bool rust, uint64_t i, unsigned char* b) { if (rust) renc(i, b); else crubit::internal::Encode<Abi>(mk(), b, G<V>::make(i)); };
  auto dec = [&](bool rust, uint64_t i, const unsigned char* b) -> bool {
    if (rust) return rdec(i, b);
    V v = crubit::internal::Decode<Abi>(mk(), b);
    return G<V>::eq(v, i);
  };
  for (uint64_t i = 0; i < rn; i++)
    for (size_t off : {0, 1, 6}) {
      for (int how = 0; how < 4; how++) {
        Buf b(Abi::kSize, off), c(Abi::kSize, off);
        const char* from = how & 1 ? "Rust" : "C++"; const char* to = how & 2 ? "Rust" : "C++";
        std::string at = "value #" + std::to_string(i) + " encoded in " + from + ", decoded in " + to;
        err().clear();
        enc(how & 1, i, b.p());
        if (!b.guarded()) bad(at + ": bytes outside the buffer were written");
        memcpy(c.p(), b.p(), Abi::kSize);  // the receiver's copy: handing over is a copy of the bytes
        if (!dec(how & 2, i, c.p())) bad(at + ": another value arrived");
        if (!err().empty()) bad(at + ": " + err());
        if (!toks().empty() || !objs().empty()) { bad(at + ": an owned payload was never released"); toks().clear(); objs().clear(); }
        vmc::stat("evaluations", 1);
        vmc::stat("distinct_nontrivial", how == 1 || how == 2 ? 1 : 0);
      }
      if (bytes) {
        Buf b(Abi::kSize, off), c(Abi::kSize, off);
        enc(false, i, b.p()); enc(true, i, c.p());
        if (memcmp(b.p(), c.p(), Abi::kSize)) bad("value #" + std::to_string(i) + ": the two languages encode it as different bytes");
      }
    }
}
}  // namespace c26
extern "C" {
uint64_t c26_born(); void c26_died(uint64_t); int c26_live(uint64_t);
void* c26_obj_new(uint64_t); void c26_obj_del(void*); uint64_t c26_obj_id(const void*);
void* c26_str_new(uint64_t); void c26_str_del(void*); int c26_str_eq(const void*, uint64_t);
}
