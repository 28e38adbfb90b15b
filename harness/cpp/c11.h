// rs_std::Option and rs_std::Result: every history of operations on two objects and a std::optional, compared after
// every operation with a model and with what Rust sees in the same memory.
#include <csetjmp>
#include <csignal>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include "vmc.h"
#include "support/rs_std/option.h"
#include "support/rs_std/result.h"
using std::string;
using vmc::Ex;
static string N(long x) { return std::to_string(x); }
static void ev(long n = 1) { vmc::stat("evaluations", n); }
static sigjmp_buf g_j;
static volatile bool g_in;
static void on_abort(int) { if (g_in) siglongjmp(g_j, 1); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
template <typename F> static bool aborts(F f) {
  static auto once = signal(SIGABRT, on_abort);
  (void)once;
  volatile bool r = true;
  g_in = true;
  if (!sigsetjmp(g_j, 0)) { f(); r = false; }
  g_in = false;
  return r;
}
template <typename T> static constexpr bool kUnit = rs_std::is_unit_t_v<T>;

// A: T, O, name(), make(i), id(const T&), norm(i), look(const O&), set(O&, i), none(O&), take(O&), swap(O&, O&), insert(O&, i), eat(O&&), ret(i), kEat
template <typename A> static void options(int depth) {
  using T = typename A::T;
  using O = typename A::O;
  static_assert(std::is_same_v<typename O::value_type, T>);
  auto fail = [&](const string& key, const string& text) { vmc::viol(string(A::name()) + ": " + key, string(A::name()) + ": " + text); };
  struct M { bool some = false; uint32_t id = 0; };
  static constexpr bool kMove = std::is_move_constructible_v<T>, kCopyT = std::is_copy_constructible_v<T>, kCopy = std::is_copy_constructible_v<O>;
  static const char* names[] = {"={}", "=T&&", "=const T&", "=T moved", "=copy", "=move", "swap", "=optional{v}", "=optional{}", "to optional", "=that optional", "O()", "O(nullopt)", "O(in_place)", "O(T)", "O(optional{v})", "O(optional{})", "O(copy)", "O(move)", "*o=", "o->", "T(*move(o))", "Rust set", "Rust none", "Rust take", "Rust swap", "Rust eats", "=Rust value", "Rust insert", "bad access", "=self", "O(const T&)", "=Rust none", "in_place of a lvalue", "=optional lvalue", "O(optional lvalue)", "O(const optional)"};
  constexpr int kOps = 37;
  vmc::explore([&](Ex& x) {
    A::reset();
    alignas(O) unsigned char st[2][sizeof(O)];
    memset(st, x.pick(2) ? 0xff : 0x00, sizeof st);
    int seed = x.pick(2);
    M m[2];
    std::optional<T>* c = nullptr;
    M mc;
    string h;
    auto at = [&](int k) -> O& { return *std::launder(reinterpret_cast<O*>(st[k])); };
    std::construct_at(&at(0));
    ::new (static_cast<void*>(st[1])) O(std::nullopt);
    bool ok = true;
    auto sync = [&](int k) { long l = A::look(at(k)); m[k].some = l >= 0; m[k].id = l >= 0 ? l : 0; };
    auto check = [&](int k) {
      O& o = at(k);
      const O& co = o;
      long l = A::look(o);
      bool hv = co.has_value();
      if (hv != m[k].some || (l >= 0) != m[k].some) { fail("state after" + h, string("after") + h + " o" + N(k) + " has_value() is " + (hv ? "true" : "false") + ", Rust sees " + (l >= 0 ? "Some" : "None") + ", expected " + (m[k].some ? "a value" : "none")); ok = false; return; }
      if (!hv) return;
      if (l != long(m[k].id)) { fail("value after" + h, "after" + h + " Rust sees " + N(l) + " in o" + N(k) + ", expected " + N(m[k].id)); ok = false; return; }
      if constexpr (!kUnit<T>) {
        if (A::id(*o) != m[k].id || A::id(*co) != m[k].id || A::id(*co.operator->()) != m[k].id || A::id(*o.operator->()) != m[k].id || &*o != o.operator->() || &*co != &*o || co.operator->() != &*o) { fail("C++ value after" + h, "after" + h + " C++ reads " + N(A::id(*co)) + " in o" + N(k) + ", expected " + N(m[k].id)); ok = false; }
        if ((const char*)&*co < (const char*)&co || (const char*)(&*co + 1) > (const char*)(&co + 1) || reinterpret_cast<uintptr_t>(&*co) % alignof(T)) { fail("place", "the payload lies outside of the object or unaligned"); ok = false; }
      }
    };
    check(0); check(1);
    bool cut = false;
    for (int t = 0; t < depth && ok && !cut; t++) {
      int op = x.pick(kOps), k = x.pick(2), j = 1 - k;
      uint32_t v = seed + t + 1;
      O& o = at(k);
      M val{true, A::norm(v)};
      h += string(" ") + names[op] + " o" + N(k);
      cut = true;
      auto re = [&] { std::destroy_at(&o); memset(st[k], t % 2 ? 0x00 : 0xff, sizeof(O)); return static_cast<void*>(st[k]); };
      switch (op) {
        case 0: o = std::nullopt; m[k] = {}; cut = false; break;
        case 1: if constexpr (kMove && std::is_assignable_v<O&, T&&>) { o = A::make(v); m[k] = val; cut = false; } break;
        case 2: if constexpr (kCopyT && std::is_assignable_v<O&, const T&>) { const T w = A::make(v); o = w; m[k] = val; cut = false; if (A::id(w) != val.id) fail("source of a copy", "assigning a const value changes it"); } break;
        case 3: if constexpr (kMove && std::is_assignable_v<O&, T&&>) { T w = A::make(v); o = std::move(w); m[k] = val; cut = false; } break;
        case 4: if constexpr (std::is_copy_assignable_v<O>) { o = static_cast<const O&>(at(j)); m[k] = m[j]; cut = false; } break;
        case 5: if constexpr (std::is_move_assignable_v<O>) { o = std::move(at(j)); m[k] = m[j]; cut = false; sync(j); } break;
        case 6: if constexpr (std::is_move_assignable_v<O> && std::is_move_constructible_v<O>) { if (k) return; std::swap(at(0), at(1)); std::swap(m[0], m[1]); cut = false; } break;
        case 7: if constexpr (kMove) { o = std::optional<T>(A::make(v)); m[k] = val; cut = false; } break;
        case 8: o = std::optional<T>(); m[k] = {}; cut = false; break;
        case 9: if (c) break; if constexpr (!kUnit<T>) { auto conv = [](O&& q) -> std::optional<T> { return std::move(q); }; c = new std::optional<T>(conv(std::move(o))); mc = m[k]; sync(k); cut = false;
            if (c->has_value() != mc.some || (mc.some && A::id(**c) != mc.id)) { fail("optional" + h, "after" + h + " the std::optional holds " + (c->has_value() ? N(A::id(**c)) : string("nothing")) + ", expected " + (mc.some ? N(mc.id) : string("nothing"))); ok = false; } } break;
        case 10: if (!c) break; o = std::move(*c); m[k] = mc; mc.some = c->has_value(); if (mc.some) mc.id = A::id(**c); cut = false; break;
        case 11: ::new (re()) O(); m[k] = {}; cut = false; break;
        case 12: ::new (re()) O(std::nullopt); m[k] = {}; cut = false; break;
        case 13: if constexpr (kMove) { ::new (re()) O(std::in_place, A::make(v)); m[k] = val; cut = false; } break;
        case 14: if constexpr (kMove && std::is_constructible_v<O, T&&>) { ::new (re()) O(A::make(v)); m[k] = val; cut = false; } break;
        case 15: if constexpr (kMove) { ::new (re()) O(std::optional<T>(A::make(v))); m[k] = val; cut = false; } break;
        case 16: ::new (re()) O(std::optional<T>()); m[k] = {}; cut = false; break;
        case 17: if constexpr (kCopy) { ::new (re()) O(static_cast<const O&>(at(j))); m[k] = m[j]; cut = false; } break;
        case 18: if constexpr (std::is_move_constructible_v<O>) { ::new (re()) O(std::move(at(j))); m[k] = m[j]; sync(j); cut = false; } break;
        case 19: if constexpr (!kUnit<T> && kMove && std::is_move_assignable_v<T>) { if (!m[k].some) break; *o = A::make(v); m[k] = val; cut = false; } break;
        case 20: if constexpr (!kUnit<T> && kMove && std::is_move_assignable_v<T>) { if (!m[k].some) break; *o.operator->() = A::make(v); m[k] = val; cut = false; } break;
        case 21: if constexpr (!kUnit<T> && kMove) { if (!m[k].some) break; T w(*std::move(o)); if (A::id(w) != m[k].id) { fail("moved out" + h, "after" + h + " the value is " + N(A::id(w))); ok = false; } sync(k); cut = false; if (!m[k].some) { fail("moved out state" + h, "after" + h + " the option is empty"); ok = false; } } break;
        case 22: A::set(o, v); m[k] = val; cut = false; break;
        case 23: A::none(o); m[k] = {}; cut = false; break;
        case 24: { long l = A::take(o); if (l != (m[k].some ? long(m[k].id) : -1)) { fail("take" + h, "after" + h + " Rust took " + N(l)); ok = false; } m[k] = {}; cut = false; break; }
        case 25: if (k) return; A::swap(at(0), at(1)); std::swap(m[0], m[1]); cut = false; break;
        case 26: if constexpr (A::kEat) { long l = A::eat(std::move(o)); if (l != (m[k].some ? long(m[k].id) : -1)) { fail("eat" + h, "after" + h + " Rust received " + N(l)); ok = false; } sync(k); cut = false; } break;
        case 27: if constexpr (A::kEat && (std::is_move_assignable_v<O> || kMove)) { o = A::ret(v); m[k] = val; cut = false; } break;
        case 28: { long l = A::insert(o, v); if (!m[k].some) m[k] = val; if (l != long(m[k].id)) { fail("insert" + h, "after" + h + " Rust sees " + N(l)); ok = false; } cut = false; break; }
        case 29: if constexpr (!kUnit<T>) { if (m[k].some) break; const O& co = o; ev(5); cut = false;
            if (!aborts([&] { (void)*o; }) || !aborts([&] { (void)*co; }) || !aborts([&] { (void)*std::move(o); }) || !aborts([&] { (void)o.operator->(); }) || !aborts([&] { (void)co.operator->(); })) { fail("bad access" + h, "after" + h + " reading the value of an empty option does not abort"); ok = false; } } break;
        case 30: if constexpr (std::is_copy_assignable_v<O>) { const O& me = o; o = me; cut = false; } break;
        case 31: if constexpr (kCopyT && std::is_constructible_v<O, const T&>) { const T w = A::make(v); ::new (re()) O(w); m[k] = val; cut = false; } break;
        case 32: if constexpr (A::kEat && (std::is_move_assignable_v<O> || kMove)) { o = A::ret(-1); m[k] = {}; cut = false; } break;
        case 33: if constexpr (kCopyT) { T w = A::make(v); ::new (re()) O(std::in_place, w); m[k] = val; cut = false; if (A::id(w) != val.id) fail("in_place source", "constructing in place changes the argument"); } break;
        case 34: if constexpr (kCopyT && std::is_assignable_v<O&, std::optional<T>&>) { std::optional<T> w(A::make(v)); if (k) w.reset(); o = w; m[k] = k ? M() : val; cut = false; } break;
        case 35: if constexpr (kCopyT && std::is_constructible_v<O, std::optional<T>&>) { std::optional<T> w(A::make(v)); if (k) w.reset(); ::new (re()) O(w); m[k] = k ? M() : val; cut = false; } break;
        case 36: if constexpr (kCopyT && std::is_constructible_v<O, const std::optional<T>&>) { const std::optional<T> w = k ? std::optional<T>() : std::optional<T>(A::make(v)); ::new (re()) O(w); m[k] = k ? M() : val; cut = false; } break;
      }
      if (!cut && ok) { check(0); check(1); }
    }
    delete c;
    std::destroy_at(&at(0)); std::destroy_at(&at(1));
    long live = A::live();
    if (ok && live) fail("live" + h, "after" + h + " and the destruction of everything " + N(live) + " values are left over (dropped twice if negative)");
    ev();
    if (!cut) { vmc::stat("distinct_nontrivial", 1); static long n; if (n++ % 30000 == 777) vmc::sample(string(A::name()) + h); }
  });
}

// A: T, E, R, name(), make(i), makeE(i), id, idE, norm, normE, look(const R&) = 2*id + (is error), set(R&, i), sete(R&, i), swap(R&, R&), eat(R), ret(i, err)
template <typename A> static void results(int depth) {
  using T = typename A::T;
  using E = typename A::E;
  using R = typename A::R;
  static_assert(std::is_same_v<typename R::OkType, T> && std::is_same_v<typename R::ErrType, E>);
  auto fail = [&](const string& key, const string& text) { vmc::viol(string(A::name()) + ": " + key, string(A::name()) + ": " + text); };
  struct M { bool ok = false; uint32_t id = 0; bool operator==(const M&) const = default; };
  auto show = [](M m) { return string(m.ok ? "Ok(" : "Err(") + N(m.id) + ")"; };
  static constexpr bool kMove = std::is_move_constructible_v<T>, kMoveE = std::is_move_constructible_v<E>, kCopyT = std::is_copy_constructible_v<T>, kCopyE = std::is_copy_constructible_v<E>, kCopy = std::is_copy_constructible_v<R>;
  static const char* names[] = {"=T&&", "=const T&", "=T moved", "=unexpected(E)", "=unexpected(const E&)", "=copy", "=move", "=self", "R(T)", "R(const T&)", "R(in_place)", "R(unexpected)", "R(unexpect)", "R(copy)", "R(move)", "value()=", "*r=", "r->=", "error()=", "err()=", "T(*move(r))", "T(move(r).value())", "E(move(r).error())", "E(move(r).err())", "Rust ok", "Rust err", "Rust swap", "Rust eats", "=Rust ok", "=Rust err", "bad access", "swap", "=unexpected moved"};
  constexpr int kOps = 33;
  vmc::explore([&](Ex& x) {
    A::reset();
    alignas(R) unsigned char st[2][sizeof(R)];
    memset(st, x.pick(2) ? 0xff : 0x00, sizeof st);
    int seed = x.pick(2);
    M m[2];
    string h;
    auto at = [&](int k) -> R& { return *std::launder(reinterpret_cast<R*>(st[k])); };
    for (int k = 0; k < 2; k++) { A::init(static_cast<void*>(st[k]), seed + k, k == 1); m[k] = {k == 0, k == 0 ? A::norm(seed) : A::normE(seed + 1)}; }
    bool ok = true;
    auto rust = [&](int k) { long l = A::look(at(k)); return M{!(l & 1), uint32_t(l >> 1)}; };
    auto sync = [&](int k) { m[k] = rust(k); };
    auto check = [&](int k) {
      R& r = at(k);
      const R& cr = r;
      M l = rust(k);
      if (cr.has_value() != m[k].ok || bool(cr) != m[k].ok || !(l == m[k])) { fail("state after" + h, "after" + h + " r" + N(k) + " has_value() is " + (cr.has_value() ? "true" : "false") + ", Rust sees " + show(l) + ", expected " + show(m[k])); ok = false; return; }
      const void* p = nullptr; size_t sz = 0, al = 1;
      if (m[k].ok) {
        if constexpr (!kUnit<T>) {
          p = &cr.value(); sz = sizeof(T); al = alignof(T);
          if (A::id(r.value()) != m[k].id || A::id(cr.value()) != m[k].id || A::id(*r) != m[k].id || A::id(*cr) != m[k].id || A::id(*r.operator->()) != m[k].id || A::id(*cr.operator->()) != m[k].id || &r.value() != p || &*r != p || r.operator->() != p || &*cr != p || cr.operator->() != p || A::id(std::as_const(r).value()) != m[k].id || &static_cast<const T&>(static_cast<const T&&>(*std::move(cr))) != p || &static_cast<const T&>(static_cast<const T&&>(std::move(cr).value())) != p) { fail("C++ value after" + h, "after" + h + " C++ reads " + N(A::id(cr.value())) + " in r" + N(k) + ", expected " + show(m[k])); ok = false; }
        }
      } else {
        if constexpr (!kUnit<E>) {
          p = &cr.error(); sz = sizeof(E); al = alignof(E);
          if (A::idE(r.error()) != m[k].id || A::idE(cr.error()) != m[k].id || A::idE(r.err()) != m[k].id || A::idE(cr.err()) != m[k].id || &r.error() != p || &r.err() != p || &cr.err() != p || &static_cast<const E&>(static_cast<const E&&>(std::move(cr).error())) != p || &static_cast<const E&>(static_cast<const E&&>(std::move(cr).err())) != p) { fail("C++ error after" + h, "after" + h + " C++ reads the error " + N(A::idE(cr.error())) + " in r" + N(k) + ", expected " + show(m[k])); ok = false; }
        }
      }
      if (p && ((const char*)p < (const char*)&cr || (const char*)p + sz > (const char*)(&cr + 1) || reinterpret_cast<uintptr_t>(p) % al)) { fail("place", "the payload lies outside of the object or unaligned"); ok = false; }
    };
    check(0); check(1);
    bool cut = false;
    for (int t = 0; t < depth && ok && !cut; t++) {
      int op = x.pick(kOps), k = x.pick(2), j = 1 - k;
      uint32_t v = seed + t + 3;
      R& r = at(k);
      M val{true, A::norm(v)}, er{false, A::normE(v)};
      h += string(" ") + names[op] + " r" + N(k);
      cut = true;
      auto re = [&] { std::destroy_at(&r); memset(st[k], t % 2 ? 0x00 : 0xff, sizeof(R)); return static_cast<void*>(st[k]); };
      switch (op) {
        case 0: if constexpr (kMove && std::is_assignable_v<R&, T&&>) { r = A::make(v); m[k] = val; cut = false; } break;
        case 1: if constexpr (kCopyT && std::is_assignable_v<R&, const T&>) { const T w = A::make(v); r = w; m[k] = val; cut = false; if (A::id(w) != val.id) fail("source", "assigning a const value changes it"); } break;
        case 2: if constexpr (kMove && std::is_assignable_v<R&, T&&>) { T w = A::make(v); r = std::move(w); m[k] = val; cut = false; } break;
        case 3: if constexpr (kMoveE) { r = rs_std::unexpected<E>(A::makeE(v)); m[k] = er; cut = false; } break;
        case 4: if constexpr (kCopyE) { const E w = A::makeE(v); r = rs_std::unexpected<E>(w); m[k] = er; cut = false; if (A::idE(w) != er.id) fail("source of error", "assigning a const error changes it"); } break;
        case 5: if constexpr (std::is_copy_assignable_v<R>) { r = static_cast<const R&>(at(j)); m[k] = m[j]; cut = false; } break;
        case 6: if constexpr (std::is_move_assignable_v<R>) { r = std::move(at(j)); m[k] = m[j]; sync(j); cut = false; } break;
        case 7: if constexpr (std::is_copy_assignable_v<R>) { const R& me = r; r = me; cut = false; } break;
        case 8: if constexpr (kMove && std::is_constructible_v<R, T&&>) { ::new (re()) R(A::make(v)); m[k] = val; cut = false; } break;
        case 9: if constexpr (kCopyT && std::is_constructible_v<R, const T&>) { const T w = A::make(v); ::new (re()) R(w); m[k] = val; cut = false; } break;
        case 10: if constexpr (kMove) { ::new (re()) R(std::in_place, A::make(v)); m[k] = val; cut = false; } break;
        case 11: if constexpr (kMoveE) { ::new (re()) R(rs_std::unexpected<E>(A::makeE(v))); m[k] = er; cut = false; } break;
        case 12: if constexpr (kMoveE) { ::new (re()) R(rs_std::unexpect, A::makeE(v)); m[k] = er; cut = false; } break;
        case 13: if constexpr (kCopy) { ::new (re()) R(static_cast<const R&>(at(j))); m[k] = m[j]; cut = false; } break;
        case 14: if constexpr (std::is_move_constructible_v<R>) { ::new (re()) R(std::move(at(j))); m[k] = m[j]; sync(j); cut = false; } break;
        case 15: if constexpr (!kUnit<T> && kMove && std::is_move_assignable_v<T>) { if (!m[k].ok) break; r.value() = A::make(v); m[k] = val; cut = false; } break;
        case 16: if constexpr (!kUnit<T> && kMove && std::is_move_assignable_v<T>) { if (!m[k].ok) break; *r = A::make(v); m[k] = val; cut = false; } break;
        case 17: if constexpr (!kUnit<T> && kMove && std::is_move_assignable_v<T>) { if (!m[k].ok) break; *r.operator->() = A::make(v); m[k] = val; cut = false; } break;
        case 18: if constexpr (!kUnit<E> && kMoveE && std::is_move_assignable_v<E>) { if (m[k].ok) break; r.error() = A::makeE(v); m[k] = er; cut = false; } break;
        case 19: if constexpr (!kUnit<E> && kMoveE && std::is_move_assignable_v<E>) { if (m[k].ok) break; r.err() = A::makeE(v); m[k] = er; cut = false; } break;
        case 20: case 21: if constexpr (!kUnit<T> && kMove) { if (!m[k].ok) break; auto go = [&](T&& q) { T w(std::move(q)); if (A::id(w) != m[k].id) { fail("moved out" + h, "after" + h + " the value is " + N(A::id(w))); ok = false; } }; if (op == 20) go(*std::move(r)); else go(std::move(r).value()); sync(k); cut = false; if (!m[k].ok) { fail("moved out state" + h, "after" + h + " the result is an error"); ok = false; } } break;
        case 22: case 23: if constexpr (!kUnit<E> && kMoveE) { if (m[k].ok) break; auto go = [&](E&& q) { E w(std::move(q)); if (A::idE(w) != m[k].id) { fail("moved out error" + h, "after" + h + " the error is " + N(A::idE(w))); ok = false; } }; if (op == 22) go(std::move(r).error()); else go(std::move(r).err()); sync(k); cut = false; if (m[k].ok) { fail("moved out state" + h, "after" + h + " the result is ok"); ok = false; } } break;
        case 24: A::set(r, v); m[k] = val; cut = false; break;
        case 25: A::sete(r, v); m[k] = er; cut = false; break;
        case 26: if (k) return; A::swap(at(0), at(1)); std::swap(m[0], m[1]); cut = false; break;
        case 27: if constexpr (A::kEat && std::is_move_constructible_v<R>) { long l = A::eat(std::move(r)); if (!(M{!(l & 1), uint32_t(l >> 1)} == m[k])) { fail("eat" + h, "after" + h + " Rust received " + N(l)); ok = false; } sync(k); cut = false; } break;
        case 28: case 29: if constexpr (A::kEat && std::is_move_assignable_v<R>) { r = A::ret(v, op == 29); m[k] = op == 29 ? er : val; cut = false; } break;
        case 30: { const R& cr = r; ev(4); cut = false; bool good = true;
            if (m[k].ok) { if constexpr (!kUnit<E>) good = aborts([&] { (void)r.error(); }) && aborts([&] { (void)cr.error(); }) && aborts([&] { (void)std::move(r).error(); }) && aborts([&] { (void)r.err(); }) && aborts([&] { (void)cr.err(); }); }
            else if constexpr (!kUnit<T>) good = aborts([&] { (void)r.value(); }) && aborts([&] { (void)cr.value(); }) && aborts([&] { (void)std::move(r).value(); }) && aborts([&] { (void)*r; }) && aborts([&] { (void)*cr; }) && aborts([&] { (void)r.operator->(); }) && aborts([&] { (void)cr.operator->(); });
            if (!good) { fail("bad access" + h, "after" + h + " reading the absent side of a result does not abort"); ok = false; } break; }
        case 31: if constexpr (std::is_move_assignable_v<R> && std::is_move_constructible_v<R>) { if (k) return; std::swap(at(0), at(1)); std::swap(m[0], m[1]); cut = false; } break;
        case 32: if constexpr (kMoveE) { E w = A::makeE(v); r = rs_std::unexpected<E>(std::in_place, std::move(w)); m[k] = er; cut = false; } break;
      }
      if (!cut && ok) { check(0); check(1); }
    }
    std::destroy_at(&at(0)); std::destroy_at(&at(1));
    long live = A::live();
    if (ok && live) fail("live" + h, "after" + h + " and the destruction of everything " + N(live) + " values are left over (dropped twice if negative)");
    ev();
    if (!cut) { vmc::stat("distinct_nontrivial", 1); static long n; if (n++ % 30000 == 777) vmc::sample(string(A::name()) + h); }
  });
}

// A conversion from another std::optional, where there is one, converts the value, not whether there is one.
template <typename O, typename S> static void bools(const char* what, std::initializer_list<std::pair<S, long>> cases) {
  for (auto& [s, want] : cases) {
    ev();
    auto see = [](const O& o) -> long { if (!o.has_value()) return -1; if constexpr (requires { (*o).has_value(); }) return (*o).has_value() ? 10 + long(**o) : -2; else return long(*o); };
    auto test = [&](long got) { vmc::stat("distinct_nontrivial", 1); if (got != want) vmc::viol(what, string("converting ") + what + " gives " + N(got) + ", expected " + N(want) + " (-1 none, -2 some none)"); };
    if constexpr (std::is_constructible_v<O, S>) { S c(s); test(see(O(std::move(c)))); }
    if constexpr (std::is_constructible_v<O, S&>) { S c(s); test(see(O(c))); }
    if constexpr (std::is_constructible_v<O, const S&>) test(see(O(s)));
    if constexpr (std::is_convertible_v<S, O>) { S c(s); O o = std::move(c); test(see(o)); }
    if constexpr (std::is_assignable_v<O&, S>) { S c(s); O o(true); o = std::move(c); test(see(o)); O p(std::nullopt); c = s; p = std::move(c); test(see(p)); }
    if constexpr (std::is_assignable_v<O&, S&>) { S c(s); O o(true); o = c; test(see(o)); }
  }
}
template <typename Ob, typename Oob> static void bool_conversions() {
  using std::optional;
  bools<Ob, optional<bool>>("optional<bool> to Option<bool>", {{std::nullopt, -1}, {false, 0}, {true, 1}});
  bools<Ob, optional<int>>("optional<int> to Option<bool>", {{std::nullopt, -1}, {0, 0}, {1, 1}});
  bools<Ob, optional<optional<bool>>>("optional<optional<bool>> to Option<bool>", {{optional<optional<bool>>(optional<bool>(false)), 0}});
  bools<Oob, optional<bool>>("optional<bool> to Option<Option<bool>>", {{std::nullopt, -2}, {false, 10}, {true, 11}});
  bools<Oob, optional<Ob>>("optional<Option<bool>> to Option<Option<bool>>", {{std::nullopt, -1}, {Ob(false), 10}, {Ob(std::nullopt), -2}, {Ob(true), 11}});
  bools<Oob, optional<optional<bool>>>("optional<optional<bool>> to Option<Option<bool>>", {{std::nullopt, -1}, {optional<bool>(false), 10}, {optional<bool>(true), 11}, {optional<optional<bool>>(optional<bool>()), -2}});
  bools<Ob, Oob>("Option<Option<bool>> to Option<bool>", {{Oob(Ob(false)), 0}});
  bools<Oob, Ob>("Option<bool> to Option<Option<bool>>", {{Ob(false), 10}, {Ob(true), 11}, {Ob(std::nullopt), -2}});
}
