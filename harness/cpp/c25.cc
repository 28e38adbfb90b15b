#include <utility>
#include "c25.h"
using namespace c25;
static long g_live = 0;
static std::map<const void*, int> g_at;
static std::string g_err;
static void born(const void* p, int id) { if (g_at.count(p)) g_err = "constructed over a live value"; g_at[p] = id; g_live++; }
static void died(const void* p) { if (!g_at.erase(p)) g_err = "destroyed where nothing lives"; else g_live--; }
static void use(const void* p) { if (!g_at.count(p)) g_err = "used where nothing lives"; }
// NT: knows its address (relocating its bytes is an error). Variants by what it offers.
template <bool kMove, bool kCopy, bool kAssign, bool kDefault, size_t kAlign = 8, size_t kPad = 1> struct alignas(kAlign) NT {
  static constexpr bool kMoves = kMove;
  int id; const NT* self; char pad[kPad];
  NT() requires(kDefault) : id(0), self(this) { born(this, 0); }
  explicit NT(int i, int) : id(i), self(this) { born(this, i); }
  NT(NT&& o) requires(kMove) : id(o.id), self(this) { use(&o); o.ok(); born(this, id); o.id = -1; }
  NT(const NT& o) requires(kCopy) : id(o.id), self(this) { use(&o); o.ok(); born(this, id); }
  NT& operator=(NT&& o) requires(kMove && kAssign) { use(this); use(&o); ok(); o.ok(); if (this != &o) { id = o.id; o.id = -1; } return *this; }
  NT& operator=(const NT& o) requires(kCopy && kAssign) { use(this); use(&o); ok(); o.ok(); id = o.id; return *this; }
  ~NT() { ok(); died(this); self = nullptr; id = -77; }
  void ok() const { if (self != this) g_err = "its bytes were relocated although it is not relocatable"; }
};
// RL: bitwise relocatable, tagged constructor; the ledger is kept by identity of the value (a token), not by address.
static std::map<long, int> g_tok;
static long g_next = 1;
template <bool kMove, bool kCopy, bool kDefault, size_t kAlign = 8, size_t kPad = 1> struct alignas(kAlign) RL {
  static constexpr bool kMoves = kMove;
  int id; long tok; char pad[kPad];
  static long token() { g_tok[g_next] = 1; g_live++; return g_next++; }
  RL() requires(kDefault) : id(0), tok(token()) {}
  explicit RL(int i, int) : id(i), tok(token()) {}
  RL(crubit::UnsafeRelocateTag, RL&& o) { memcpy(static_cast<void*>(this), static_cast<void*>(&o), sizeof(RL)); }
  RL(RL&& o) requires(kMove) : id(0), tok(token()) { crubit::MemSwap(*this, o); o.id = -1; }
  RL& operator=(RL&& o) requires(kMove) { crubit::MemSwap(*this, o); return *this; }
  RL(const RL& o) requires(kCopy) : id(o.id), tok(token()) {}
  RL& operator=(const RL& o) requires(kCopy) { id = o.id; return *this; }
  ~RL() { auto it = g_tok.find(tok); if (it == g_tok.end()) g_err = "destroyed twice"; else { g_tok.erase(it); g_live--; } id = -77; }
};
template <typename X, const char* N, bool kTk> struct Ad {
  using T = X;
  static constexpr int kDefault = 0;
  static constexpr bool kArray = false, kTake = kTk;
  static std::string name() { return N; }
  static T* make(void* p, int id) { return new (p) T(id, 0); }
  static int id(const T& t) { if (!g_err.empty()) { vmc::viol(std::string(N) + ": " + g_err, std::string(N) + ": " + g_err); } return t.id; }
  static void set(T& t, int v) { t.id = v; }
  static int moved(int m) { return T::kMoves ? -1 : m; }
  static long live() { return g_live; }
  static int counted(int) { return 1; }
  static void reset() { g_at.clear(); g_tok.clear(); g_live = 0; g_err.clear(); }
};
struct Pod { int id; char c[9]; Pod(int i, int) : id(i) { for (char& x : c) x = i; } };
struct PodD { long id; };
template <typename X, const char* N> struct AdPod {
  using T = X;
  static constexpr int kDefault = 0;
  static constexpr bool kArray = false, kTake = true;
  static std::string name() { return N; }
  static T* make(void* p, int id) { if constexpr (requires { T(1, 0); }) return new (p) T(id, 0); else return new (p) T{id}; }
  static int id(const T& t) { return t.id; }
  static void set(T& t, int v) { t.id = v; }
  static int moved(int m) { return m; }
  static long live() { return 0; }
  static int counted(int) { return 0; }
  static void reset() {}
};
// arrays: the identity of an array is that of its elements, 10 * id + index
template <typename E, size_t kN, const char* N, bool kTk> struct AdArr {
  using T = std::array<E, kN>;
  static constexpr int kDefault = 0;
  static constexpr bool kArray = true, kTake = kTk;
  static std::string name() { return N; }
  static T* make(void* p, int id) { for (size_t i = 0; i < kN; i++) new (static_cast<char*>(p) + i * sizeof(E)) E(id < 0 ? id : 10 * id + int(i), 0); return static_cast<T*>(p); }
  static int id(const T& t) {
    if (!g_err.empty()) vmc::viol(std::string(N) + ": " + g_err, std::string(N) + ": " + g_err);
    int r = t[0].id < 0 ? t[0].id : t[0].id / 10;
    for (size_t i = 0; i < kN; i++) if (r < 0 ? t[i].id != r : t[i].id != 10 * r + int(i)) return -99;
    return r;
  }
  static void set(T& t, int v) { for (size_t i = 0; i < kN; i++) t[i].id = 10 * v + i; }
  static int moved(int) { return -1; }
  static long live() { return g_live; }
  static int counted(int) { return kN; }
  static void reset() { g_at.clear(); g_tok.clear(); g_live = 0; g_err.clear(); }
};
template <size_t kSize, size_t kAlign> struct alignas(kAlign) Bytes { unsigned char b[kSize]; };
static void bytes_at(size_t sz, size_t align, void* raw, void (*swap)(void*, int, int)) {
  unsigned char* v = static_cast<unsigned char*>(raw);
  std::vector<unsigned char> w(4 * sz);
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      for (size_t m = 0; m < 4 * sz; m++) w[m] = v[m] = (m / sz) * 40 + m % sz * 3 + 1;
      swap(raw, i, j);
      vmc::stat("evaluations", 1); vmc::stat("distinct_nontrivial", 1);
      for (int k = 0; k < 4; k++) {
        int src = k == i ? j : k == j ? i : k;
        if (memcmp(v + k * sz, &w[src * sz], sz)) vmc::viol("MemSwap bytes " + str(sz), "MemSwap(" + str(i) + "," + str(j) + ") of " + str(sz) + " byte objects (alignment " + str(align) + "): object " + str(k) + " is wrong");
      }
    }
}
template <size_t kSize, size_t kAlign> static void bytes() {
  using B = Bytes<kSize, kAlign>;
  B v[4];
  bytes_at(sizeof(B), kAlign, v, [](void* p, int i, int j) { B* b = static_cast<B*>(p); crubit::MemSwap(b[i], b[j]); });
}
template <size_t... I> static void all_bytes(std::index_sequence<I...>) { (bytes<I + 1, 1>(), ...); (bytes<I + 1, 16>(), ...); (bytes<I + 1, 64>(), ...); }

#define N(x) static const char n_##x[] = #x
N(pod); N(pod_default); N(move_copy_assign_default); N(move_only); N(move_no_assign); N(copy_only); N(pinned); N(pinned_default); N(move_copy_noassign); N(aligned); N(big); N(reloc_all); N(reloc_only); N(reloc_copy); N(reloc_default); N(reloc_move); N(reloc_aligned); N(arr_reloc); N(arr_reloc3); N(arr_reloc_only); N(arr_move); N(arr_copy);
template <typename A> static void all(int d, int ds) { movable<A>(d, 2); movable<A>(d - 1, 3); slot<A>(ds); }
int main() {
  bool t = vmc::thorough();
  int d = t ? 6 : 5, ds = t ? 9 : 7;
  all<AdPod<Pod, n_pod>>(d, ds);
  all<AdPod<PodD, n_pod_default>>(d, ds);
  all<Ad<NT<1, 1, 1, 1>, n_move_copy_assign_default, true>>(d, ds);
  all<Ad<NT<1, 0, 1, 0>, n_move_only, true>>(d, ds);
  all<Ad<NT<1, 0, 0, 1>, n_move_no_assign, true>>(d, ds);
  all<Ad<NT<1, 1, 0, 1>, n_move_copy_noassign, true>>(d, ds);
  all<Ad<NT<1, 1, 1, 1, 64>, n_aligned, true>>(d, ds);
  all<Ad<NT<1, 0, 1, 1, 8, 200>, n_big, true>>(d, ds);
  all<Ad<RL<1, 1, 1>, n_reloc_all, true>>(d, ds);
  all<Ad<RL<0, 0, 0>, n_reloc_only, true>>(d, ds);
  all<Ad<RL<0, 1, 0>, n_reloc_copy, true>>(d, ds);
  all<Ad<RL<0, 0, 1>, n_reloc_default, true>>(d, ds);
  all<Ad<RL<1, 0, 0>, n_reloc_move, true>>(d, ds);
  all<Ad<RL<1, 0, 1, 32>, n_reloc_aligned, true>>(d, ds);
  slot<AdArr<RL<1, 1, 1>, 1, n_arr_reloc, true>>(ds);
  slot<AdArr<RL<1, 0, 1>, 3, n_arr_reloc3, true>>(ds);
  slot<AdArr<RL<0, 0, 0>, 2, n_arr_reloc_only, true>>(ds);
  slot<AdArr<NT<1, 0, 1, 1>, 2, n_arr_move, true>>(ds);
  slot<AdArr<NT<1, 1, 1, 1>, 2, n_arr_copy, true>>(ds);
  memswap<AdPod<Pod, n_pod>>(4);
  memswap<Ad<RL<1, 1, 1>, n_reloc_all, true>>(4);
  memswap<Ad<RL<0, 0, 0, 32>, n_reloc_only, true>>(4);
  memswap<AdArr<RL<1, 0, 1>, 3, n_arr_reloc3, true>>(4);
  all_bytes(std::make_index_sequence<130>());
  return vmc::done();
}
