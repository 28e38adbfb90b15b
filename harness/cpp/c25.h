// Histories over rs::Movable, crubit::Slot and crubit::MemSwap for any value type, against a model.
// A type is described by an adapter: T, make(p, id) constructs at p, id(const T&), set(T&, id), live() = number of
// live values that own something, counted(id) = whether such a value is counted by live().
#pragma once
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include "vmc.h"
#include "support/internal/memswap.h"
#include "support/internal/slot.h"
#include "support/movable.h"
namespace c25 {
using vmc::Ex;
inline std::string str(long x) { return std::to_string(x); }
// A place for a wrapper that may or may not exist, filled with a pattern before construction.
template <typename W> struct Place {
  alignas(W) unsigned char raw[sizeof(W)];
  bool on = false;
  W* p() { return reinterpret_cast<W*>(raw); }
  void dirty(int b) { memset(raw, b, sizeof(W)); }
};
enum { EMPTY = -1000, NONE = -2000 };

template <typename A> void movable(int depth, int pool) {
  using T = typename A::T;
  using M = rs::Movable<T>;
  std::string name = A::name();
  auto fact = [&](const char* what, bool got, bool want) {
    vmc::stat("evaluations", 1);
    if (got != want) vmc::viol(name + " " + what, name + ": " + what + " is " + (got ? "true" : "false"));
  };
  fact("is_default_constructible<Movable>", std::is_default_constructible_v<M>, std::is_default_constructible_v<T>);
  fact("is_nothrow_move_constructible<Movable>", std::is_nothrow_move_constructible_v<M>, true);
  fact("is_nothrow_move_assignable<Movable>", std::is_nothrow_move_assignable_v<M>, true);
  fact("is_copy_constructible<Movable>", std::is_copy_constructible_v<M>, std::is_copy_constructible_v<T>);
  fact("is_copy_assignable<Movable>", std::is_copy_assignable_v<M>, std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>);
  fact("is_constructible<Movable, T&&>", std::is_constructible_v<M, T&&>, std::is_move_constructible_v<T>);
  fact("is_swappable<Movable>", std::is_swappable_v<M>, true);
  constexpr bool kMove = std::is_move_constructible_v<T>, kCopy = std::is_copy_constructible_v<T>, kCopyA = kCopy && std::is_copy_assignable_v<T>, kDef = std::is_default_constructible_v<T>;
  long base = A::live();
  long long runs = vmc::explore([&](Ex& x) {
    Place<M> w[4];
    int model[4];
    std::string h;
    int next = 1;
    for (int i = 0; i < pool; i++) { model[i] = NONE; w[i].dirty(i % 2 ? 0xff : 0x5a); }
    bool bad = false;
    auto fail = [&](const std::string& what) {
      if (!bad) vmc::viol(name + " Movable:" + h, name + ", rs::Movable: after" + h + ": " + what);
      bad = true;
    };
    auto check = [&]() {
      long live = base;
      for (int i = 0; i < pool; i++) {
        if (model[i] == NONE) continue;
        M& m = *w[i].p();
        bool full = model[i] != EMPTY;
        if (m.valueless_after_move() == full || static_cast<bool>(m) != full) { fail("wrapper " + str(i) + " says it is " + (static_cast<bool>(m) ? "full" : "empty") + (m.valueless_after_move() ? " (valueless)" : "") + ", expected " + (full ? "full" : "empty")); return; }
        if (full) {
          const M& c = m;
          if (A::id(*m) != model[i] || A::id(*c) != model[i] || &*m != m.operator->() || &*c != c.operator->()) { fail("wrapper " + str(i) + " holds " + str(A::id(*m)) + ", expected " + str(model[i])); return; }
          live += A::counted(model[i]);
        }
      }
      if (A::live() != live) fail(str(A::live() - base) + " live values, expected " + str(live - base));
    };
    for (int t = 0; t < depth && !bad; t++) {
      int i = x.pick(pool);
      M& m = *w[i].p();
      std::string I = str(i);
      if (model[i] == NONE) {
        int j = -1;
        // 0 default, 1 from a value, 2 in place, 3 from a slot, 4.. from wrapper j (move / copy)
        int op = x.pick(4 + 2 * pool);
        if (op == 0) {
          if constexpr (kDef) { new (w[i].raw) M(); model[i] = A::kDefault; } else { x.cut = true; break; }
          h += " w" + I + "{}";
        } else if (op == 1) {
          if constexpr (kMove) { alignas(T) unsigned char tmp[sizeof(T)]; T* p = A::make(tmp, next); new (w[i].raw) M(std::move(*p)); p->~T(); model[i] = next++; } else { x.cut = true; break; }
          h += " w" + I + "{value}";
        } else if (op == 2) {
          if constexpr (kDef) { new (w[i].raw) M(std::in_place); model[i] = A::kDefault; } else { x.cut = true; break; }
          h += " w" + I + "{in_place}";
        } else if (op == 3) {
          crubit::Slot<T> s;
          A::make(s.Get(), next);
          new (w[i].raw) M(M::TakeFromSlot(std::move(s)));
          model[i] = next++;
          h += " w" + I + "=TakeFromSlot";
        } else {
          j = (op - 4) % pool;
          if (model[j] == NONE) { x.cut = true; break; }
          if (op - 4 < pool) { new (w[i].raw) M(std::move(*w[j].p())); model[i] = model[j]; model[j] = EMPTY; h += " w" + I + "{move w" + str(j) + "}"; }
          else if constexpr (kCopy) { new (w[i].raw) M(*const_cast<const M*>(w[j].p())); model[i] = model[j]; h += " w" + I + "{copy w" + str(j) + "}"; }
          else { x.cut = true; break; }
        }
        w[i].on = true;
      } else {
        int op = x.pick(4 + 3 * pool);
        if (op == 0) { m.~M(); model[i] = NONE; w[i].dirty(0xa5); h += " ~w" + I; }
        else if (op == 1) {
          if (model[i] == EMPTY) { x.cut = true; break; }
          A::set(*m, next); model[i] = next++; h += " *w" + I + "=";
        } else if (op == 2) {  // the value is moved out of the wrapper's reference
          if (model[i] == EMPTY || !kMove) { x.cut = true; break; }
          if constexpr (kMove) { T out(*std::move(m)); if (A::id(out) != model[i]) fail("the value moved out is " + str(A::id(out))); h += " take(*move(w" + I + "))"; model[i] = A::moved(model[i]); }
        } else if (op == 3) {  // refilled from a fresh wrapper
          crubit::Slot<T> s;
          A::make(s.Get(), next);
          m = M::TakeFromSlot(std::move(s));
          model[i] = next++; h += " w" + I + "=fresh";
        } else {
          int j = (op - 4) % pool, k = (op - 4) / pool;
          if (model[j] == NONE) { x.cut = true; break; }
          M& o = *w[j].p();
          if (k == 0) { m = std::move(o); if (i != j) { model[i] = model[j]; model[j] = EMPTY; } h += " w" + I + "=move(w" + str(j) + ")"; }
          else if (k == 1) { if constexpr (kCopyA) { m = *const_cast<const M*>(&o); model[i] = model[j]; h += " w" + I + "=w" + str(j); } else { x.cut = true; break; } }
          else { if (j < i) { x.cut = true; break; } using std::swap; swap(m, o); std::swap(model[i], model[j]); h += " swap(w" + I + ",w" + str(j) + ")"; }
        }
      }
      check();
    }
    for (int i = 0; i < pool; i++) if (model[i] != NONE) w[i].p()->~M();
    h += " end";
    if (A::live() != base) fail(str(A::live() - base) + " values left over");
    if (bad) { A::reset(); base = A::live(); }
    vmc::stat("evaluations", 1);
    if (!x.cut) { vmc::stat("distinct_nontrivial", 1); if (!bad && x.s.size() > 3 && x.s[0].first % 3 == 1 && x.s.back().first == 2) vmc::sample(name + ":" + h); }
    x.cut = false;
  });
  (void)runs;
}

// crubit::Slot: fill in place or from a value, take, move to another slot (the source keeps a moved-from value).
template <typename A> void slot(int depth) {
  using T = typename A::T;
  using S = crubit::Slot<T>;
  constexpr bool kMove = std::is_move_constructible_v<T>;
  std::string name = A::name();
  long base = A::live();
  vmc::explore([&](Ex& x) {
    Place<S> w[3];
    int model[3] = {NONE, NONE, NONE};
    std::string h;
    int next = 1;
    bool bad = false;
    auto fail = [&](const std::string& what) {
      if (!bad) vmc::viol(name + " Slot:" + h, name + ", crubit::Slot: after" + h + ": " + what);
      bad = true;
    };
    for (int i = 0; i < 2; i++) w[i].dirty(i ? 0xff : 0x5a);
    for (int t = 0; t < depth && !bad; t++) {
      int i = x.pick(2), j = 1 - i;
      S& s = *w[i].p();
      std::string I = str(i);
      int op = x.pick(6);
      if (op == 0) {
        if (model[i] != NONE) { x.cut = true; break; }
        new (w[i].raw) S(); model[i] = EMPTY; h += " s" + I + "{}";
      } else if (op == 1) {
        if (model[i] != NONE) { x.cut = true; break; }
        if constexpr (kMove || A::kArray) {
          alignas(T) unsigned char tmp[sizeof(T)]; T* p = A::make(tmp, next); new (w[i].raw) S(std::move(*p)); if (kMove) p->~T(); model[i] = next++;
        } else { x.cut = true; break; }
        h += " s" + I + "{value}";
      } else if (op == 2) {
        if (model[i] != EMPTY) { x.cut = true; break; }
        if (reinterpret_cast<unsigned char*>(s.Get()) != w[i].raw) fail("Get() is not inside the slot's storage at its start");
        A::make(s.Get(), next); model[i] = next++; h += " fill s" + I;
      } else if (op == 3) {
        if (model[i] == EMPTY || model[i] == NONE) { x.cut = true; break; }
        if constexpr (A::kTake) { T out = std::move(s).AssumeInitAndTakeValue(); h += " take s" + I; if (A::id(out) != model[i]) fail("took " + str(A::id(out)) + ", expected " + str(model[i])); model[i] = EMPTY;
          long live = base + A::counted(A::id(out)); for (int k = 0; k < 2; k++) if (model[k] >= -1) live += A::counted(model[k]);
          if (A::live() != live) fail(str(A::live() - base) + " live values next to the one taken, expected " + str(live - base)); }
        else { x.cut = true; break; }
      } else if (op == 4) {
        if (model[i] != NONE || model[j] == EMPTY || model[j] == NONE) { x.cut = true; break; }
        if constexpr (kMove) { new (w[i].raw) S(std::move(*w[j].p())); model[i] = model[j]; model[j] = A::moved(model[j]); h += " s" + I + "{move s" + str(j) + "}"; }
        else { x.cut = true; break; }
      } else {
        if (model[i] == NONE) { x.cut = true; break; }
        if (model[i] != EMPTY) std::destroy_at(s.Get());
        s.~S(); model[i] = NONE; w[i].dirty(0xa5); h += " ~s" + I;
      }
      long live = base;
      for (int k = 0; k < 2; k++)
        if (model[k] != NONE && model[k] != EMPTY) {
          if (A::id(*w[k].p()->Get()) != model[k]) { fail("slot " + str(k) + " holds " + str(A::id(*w[k].p()->Get())) + ", expected " + str(model[k])); break; }
          live += A::counted(model[k]);
        }
      if (!bad && A::live() != live) fail(str(A::live() - base) + " live values, expected " + str(live - base));
    }
    for (int i = 0; i < 2; i++) if (model[i] != NONE && model[i] != EMPTY) std::destroy_at(w[i].p()->Get());
    if (A::live() != base) fail(str(A::live() - base) + " values left over");
    if (bad) { A::reset(); base = A::live(); }
    vmc::stat("evaluations", 1);
    if (!x.cut) vmc::stat("distinct_nontrivial", 1);
    x.cut = false;
  });
}

// crubit::MemSwap over an array of values
template <typename A> void memswap(int depth) {
  using T = typename A::T;
  std::string name = A::name();
  long base = A::live();
  vmc::explore([&](Ex& x) {
    alignas(T) unsigned char raw[3 * sizeof(T)];
    T* a = reinterpret_cast<T*>(raw);
    int model[3];
    std::string h;
    for (int i = 0; i < 3; i++) { A::make(raw + i * sizeof(T), i + 1); model[i] = i + 1; }
    bool bad = false;
    for (int t = 0; t < depth; t++) {
      int i = x.pick(3), j = x.pick(3);
      crubit::MemSwap(a[i], a[j]);
      std::swap(model[i], model[j]);
      h += " (" + str(i) + "," + str(j) + ")";
      for (int k = 0; k < 3; k++)
        if (!bad && A::id(a[k]) != model[k]) { bad = true; vmc::viol(name + " MemSwap" + h, name + ": after MemSwap" + h + " element " + str(k) + " is " + str(A::id(a[k])) + ", expected " + str(model[k])); }
    }
    for (int i = 0; i < 3; i++) a[i].~T();
    if (!bad && A::live() != base) vmc::viol(name + " MemSwap live", name + ": after MemSwap" + h + " " + str(A::live() - base) + " values left over");
    vmc::stat("evaluations", 1);
    vmc::stat("distinct_nontrivial", 1);
  });
}
}  // namespace c25
