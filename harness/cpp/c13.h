// Histories of futures and wakers against a model (checks/c13.py).
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
#include "support/rs_std/cpp_waker.h"
#include "support/rs_std/waker.h"
#include "vmc.h"
extern "C" {
uint32_t c13_op(uint32_t op, uint32_t k);  // 0 wake_by_ref, 1 wake, 2 drop, 3 clone to the other slot
uint64_t c13_blocks();
}
namespace c13 {
enum { kPending, kReady, kWake, kStore, kCloneWake, kCloneDrop, kSlotWakeRef, kSlotWake = 8, kSlotDrop = 10, kSlotClone = 12, kCloneFrom = 14, kOverwrite = 16, kWakePollOther = 18,
       kWakeDropOther, kOwn, kOwnWake, kThreadWake, kTwice };
struct G {
  vmc::Ex* x = nullptr;
  int left = 0;
  bool threads = false;
  long wakes[2] = {}, want[2] = {};
  int slot[2] = {-1, -1};  // task of the waker that Rust keeps in a static, or -1
  int refs[2] = {};        // references to wakers of a task that exist beyond the task's own
  std::string err, log;
  std::function<void()> hook;
  std::vector<std::pair<int, int>> cur;  // running polls: slot of the future, task
  std::function<void(int)> poll_other, drop_other;
  std::function<int()> other;  // a slot whose future can be polled now, or -1
  std::function<int*(int)> own;
  int live[64] = {};
  void fail(const std::string& e) { if (err.empty()) err = e; }
  void say(const char* s, int a = -1) { if (log.size() < 2000) { log += s; if (a >= 0) log += std::to_string(a); log += ' '; } }
};
inline G& g() { static G v; return v; }
template <class Base> struct Obj final : Base {
  int task, n = 1;
  bool home;
  Obj(int t, bool h) : task(t), home(h) {}
  static std::vector<std::unique_ptr<Obj>>& all() { static std::vector<std::unique_ptr<Obj>> v; return v; }
  void use(const char* w) { if (n <= 0) g().fail(std::string(w) + " on a waker that was destroyed"); }
  void drop() { n--; g().refs[task]--; if (home && n < 1) g().fail("the task's own reference to its waker was destroyed"); }
  void fire() { if (auto h = std::exchange(g().hook, nullptr)) h(); }
  void WakeByRef() override { use("wake_by_ref"); g().wakes[task]++; fire(); }
  void WakeAndDestroy() override { use("wake"); g().wakes[task]++; drop(); fire(); }
  Base* Clone() override {
    use("clone");
    g().refs[task]++;
    if (task == 0) { n++; return this; }  // task 0 counts references, task 1 makes an object per clone
    all().push_back(std::make_unique<Obj>(task, false));
    return all().back().get();
  }
  void Destroy() override { use("drop"); drop(); }
};
struct Helper {  // a second thread that runs what it is given while the first one waits
  std::atomic<std::function<void()>*> job{nullptr};
  std::atomic<bool> quit{false};
  std::thread t;
  void run(std::function<void()> f) {
    if (!t.joinable()) t = std::thread([this] {
      while (!quit) if (auto* j = job.load(std::memory_order_acquire)) { (*j)(); job.store(nullptr, std::memory_order_release); } else std::this_thread::yield();
    });
    job.store(&f, std::memory_order_release);
    while (job.load(std::memory_order_acquire)) std::this_thread::yield();
  }
  ~Helper() { quit = true; if (t.joinable()) t.join(); }
};
inline Helper& helper() { static Helper h; return h; }
inline Helper& third() { static Helper h; return h; }

template <class A> struct World {
  using F = typename A::Fut;
  using T = typename A::T;
  using O = Obj<typename A::Waker>;
  static constexpr size_t kOut = A::out_size, kAlign = A::out_align;
  enum St { None, Fresh, Started, Done, Moved };
  struct Slot { St st = None; int id = 0; int mine = -1; bool busy = false; alignas(void*) unsigned char b[16 + sizeof(F) + 16]; F* f() { return reinterpret_cast<F*>(b + 16); } } s[2];
  O* task[2];
  int made = 0;
  G& m = g();
  bool ok() { return m.err.empty(); }
  static bool pattern(const unsigned char* p, size_t n, int v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return false; return true; }
  void create(int i) {
    m.say("create", i);
    s[i].id = ++made; s[i].st = Fresh; s[i].mine = -1;
    memset(s[i].b, 0x5a, sizeof s[i].b);
    A::make(s[i].f(), made);
  }
  void destroy(int i) {
    m.say("destroy", i);
    if (s[i].st == Started && s[i].mine >= 0) s[i].mine = -1;
    s[i].f()->~F();
    s[i].st = None;
  }
  void move(int i) {
    m.say("move", i);
    Slot& d = s[1 - i];
    memset(d.b, 0x5a, sizeof d.b);
    new (d.f()) F(std::move(*s[i].f()));
    d.st = s[i].st; d.id = s[i].id; d.mine = s[i].mine;
    s[i].st = Moved; s[i].mine = -1;
  }
  void poll(int i, int t) {
    m.say(t ? "poll/cloning" : "poll/counting", i);
    alignas(64) unsigned char out[64 + 256 + 64];
    memset(out, 0xa5, sizeof out);
    unsigned char* p = out + 64;
    s[i].st = Started; s[i].busy = true;
    m.cur.push_back({i, t});
    bool r = A::poll(s[i].f(), task[t], p);
    m.cur.pop_back();
    s[i].busy = false;
    if (r != (s[i].st == Done)) m.fail(r ? "poll reports completion of a pending future" : "poll does not report completion");
    if (!r) { if (!pattern(out, sizeof out, 0xa5)) m.fail("a pending poll writes to the output"); }
    else {
      if (!pattern(out, 64, 0xa5) || !pattern(p + kOut, sizeof out - 64 - kOut, 0xa5)) m.fail("memory beside the output was written");
      int tok = m.live[(s[i].id & 15) * 4 + 2];
      if (tok != (A::out_token ? 1 : 0)) m.fail("the output owns " + std::to_string(tok) + " values");
      else if (!A::take(p, s[i].id)) m.fail("the output is not what the function returned");
      if (m.live[(s[i].id & 15) * 4 + 2]) m.fail("the output is still owned by someone after it was destroyed");
    }
  }
  void check() {
    int want[64] = {}, refs[2] = {};
    for (auto& f : s) {
      if (f.st == Fresh || f.st == Started) { want[(f.id & 15) * 4] += A::owns; if (f.mine >= 0) refs[f.mine]++; }
      if (f.st == Started) want[(f.id & 15) * 4 + 1]++;
      if (f.st != None) {
        if (!pattern(f.b, 16, 0x5a) || !pattern(f.b + 16 + sizeof(F), 16, 0x5a)) m.fail("memory beside the future was written");
        if (!A::state(f.f(), f.st == Done || f.st == Moved)) m.fail("the future does not report whether it is completed");
      }
    }
    for (int k : m.slot) if (k >= 0) refs[k]++;
    for (int i = 0; i < 64; i++)
      if (m.live[i] != want[i]) m.fail(std::string(i % 4 == 0 ? "an argument" : i % 4 == 1 ? "a local" : "an output") + " of future " + std::to_string(i / 4) + " exists " + std::to_string(m.live[i]) + " times, not " + std::to_string(want[i]));
    for (int t = 0; t < 2; t++) {
      if (m.refs[t] != refs[t]) m.fail("Rust holds " + std::to_string(refs[t]) + " wakers of a task, but " + std::to_string(m.refs[t]) + " clones were not destroyed");
      if (m.wakes[t] != m.want[t]) m.fail("a task was woken " + std::to_string(m.wakes[t]) + " times, not " + std::to_string(m.want[t]));
    }
  }
  static void slot_op(int op, int k) {
    G& m = g();
    static const char* n[] = {"wake_by_ref#", "wake#", "drop#", "clone#"};
    m.say(n[op], k);
    int t = m.slot[k];
    if (op < 2) m.want[t]++;
    if (op == 1 || op == 2) m.slot[k] = -1;
    if (op == 3) m.slot[1 - k] = t;
    c13_op(op, k);
  }
  void run(vmc::Ex& x, int budget, int mode) {
    m = G();
    m.x = &x; m.left = budget; m.threads = mode;
    O::all().clear();
    for (int t = 0; t < 2; t++) { O::all().push_back(std::make_unique<O>(t, true)); task[t] = O::all().back().get(); }
    uint64_t blocks = c13_blocks();
    made = 0;
    s[0].st = s[1].st = None;
    m.other = [&] { for (int i = 0; i < 2; i++) if (!s[i].busy && (s[i].st == Fresh || s[i].st == Started)) return i; return -1; };
    m.poll_other = [&](int i) { poll(i, 1); };
    m.drop_other = [&](int i) { destroy(i); };
    m.own = [&](int i) { return &s[i].mine; };
    done_ = [&](int i) { s[i].st = Done; s[i].mine = -1; };
    int step = 0;
    while (m.left-- > 0 && ok()) {
      struct E { int op, i; } menu[24];
      int n = 0;
      int e = s[0].st == None ? 0 : s[1].st == None ? 1 : -1;
      if (e >= 0) menu[n++] = {0, e};
      for (int i = 0; i < 2; i++) {
        if (s[i].st == None) continue;
        if (s[i].st == Fresh || s[i].st == Started) { menu[n++] = {1, i}; menu[n++] = {2, i}; if (A::discards) menu[n++] = {3, i}; }
        menu[n++] = {4, i};
        if (s[1 - i].st == None) menu[n++] = {5, i};
      }
      for (int k = 0; k < 2; k++) if (m.slot[k] >= 0) {
        for (int o = 0; o < 3; o++) menu[n++] = {10 + o, k};
        if (m.slot[1 - k] < 0) menu[n++] = {13, k};
      }
      E ev = menu[x.pick(n)];
      auto act = [&] {
        switch (ev.op) {
          case 0: create(ev.i); break;
          case 1: poll(ev.i, 0); break;
          case 2: poll(ev.i, 1); break;
          case 3: m.say("discard", ev.i); s[ev.i].st = Done; s[ev.i].mine = -1; A::discard(s[ev.i].f()); break;
          case 4: destroy(ev.i); break;
          case 5: move(ev.i); break;
          default: slot_op(ev.op - 10, ev.i);
        }
      };
      if (mode && step++ % 2) { m.say("[thread]"); helper().run(act); } else act();
      check();
    }
    auto finish = [&] {
      bool late = mode || x.pick(2);
      for (int r = 0; r < 2; r++) {
        if (late == (r == 0)) { for (int k = 0; k < 2; k++) if (m.slot[k] >= 0) slot_op(2, k); }
        else for (int i = 0; i < 2; i++) if (s[i].st != None) destroy(i);
        if (ok()) check();
      }
    };
    if (ok()) finish(); else { for (int k = 0; k < 2; k++) if (m.slot[k] >= 0) c13_op(2, k); }
    if (ok() && c13_blocks() != blocks) m.fail("memory of a future is not freed, or freed twice");
    vmc::stat("evaluations", 1);
    if (!ok()) vmc::viol(std::string(A::name) + ": " + m.err, std::string("async function returning ") + A::name + ": " + m.err + " after: " + m.log);
    static int shown = 0;
    if (shown++ % 4001 == 17 && shown < 40000) vmc::sample(std::string(A::name) + ": " + m.log);
  }
  static inline std::function<void(int)> done_;
};
inline std::function<void(int)>& done_hook() { static std::function<void(int)> f; return f; }

// The next thing the Rust future that is being polled does.
inline uint32_t act() {
  G& m = g();
  if (m.left <= 0 || !m.err.empty()) return kPending;
  auto [fi, t] = m.cur.back();
  int menu[40], n = 0;
  menu[n++] = kPending; menu[n++] = kReady;
  if (m.left-- > 1) {
    menu[n++] = kWake; menu[n++] = kCloneWake; menu[n++] = kCloneDrop; menu[n++] = kOwn; menu[n++] = kTwice;
    if (*m.own(fi) >= 0) menu[n++] = kOwnWake;
    if (m.slot[0] < 0 || m.slot[1] < 0) menu[n++] = kStore;
    for (int k = 0; k < 2; k++) if (m.slot[k] >= 0) {
      menu[n++] = kSlotWakeRef + k; menu[n++] = kSlotWake + k; menu[n++] = kSlotDrop + k; menu[n++] = kCloneFrom + k; menu[n++] = kOverwrite + k;
      if (m.slot[1 - k] < 0) menu[n++] = kSlotClone + k;
    }
    if (m.other() >= 0) { menu[n++] = kWakePollOther; menu[n++] = kWakeDropOther; }
    if (m.threads) menu[n++] = kThreadWake;
  }
  int a = menu[m.x->pick(n)];
  static const char* names[] = {"pending", "ready", "wake_by_ref", "store", "clone-wake", "clone-drop", "#0wake_by_ref", "#1wake_by_ref", "#0wake", "#1wake", "#0drop", "#1drop", "#0clone", "#1clone",
    "#0clone_from", "#1clone_from", "#0overwrite", "#1overwrite", "wake>poll-other", "wake>drop-other", "own", "own-wake", "wake-from-thread", "clone-of-clone"};
  m.say("  "); m.say(names[a]);
  switch (a) {
    case kReady: done_hook()(fi); break;
    case kWake: m.want[t]++; break;
    case kStore: { int k = m.slot[0] < 0 ? 0 : 1; m.slot[k] = t; a |= k << 8; break; }
    case kCloneWake: case kThreadWake: m.want[t]++; break;
    case kSlotWakeRef: case kSlotWakeRef + 1: m.want[m.slot[a - kSlotWakeRef]]++; break;
    case kSlotWake: case kSlotWake + 1: m.want[m.slot[a - kSlotWake]]++; m.slot[a - kSlotWake] = -1; break;
    case kSlotDrop: case kSlotDrop + 1: m.slot[a - kSlotDrop] = -1; break;
    case kSlotClone: case kSlotClone + 1: m.slot[1 - (a - kSlotClone)] = m.slot[a - kSlotClone]; break;
    case kCloneFrom: case kCloneFrom + 1: m.slot[a - kCloneFrom] = t; break;
    case kOverwrite: case kOverwrite + 1: m.slot[a - kOverwrite] = t; break;
    case kWakePollOther: { m.want[t]++; int o = m.other(); m.hook = [o, &m] { m.poll_other(o); }; break; }
    case kWakeDropOther: { m.want[t]++; int o = m.other(); m.hook = [o, &m] { m.drop_other(o); }; break; }
    case kOwn: *m.own(fi) = t; break;
    case kOwnWake: m.want[*m.own(fi)]++; *m.own(fi) = -1; break;
    case kTwice: m.want[t] += 2; break;
  }
  return a;
}
template <class A> void run(int budget, int tbudget) {
  World<A> w;
  auto go = [&](int b, int mode) {
    long long n = vmc::explore([&](vmc::Ex& x) {
      done_hook() = [&w](int i) { World<A>::done_(i); };
      w.run(x, b, mode);
    });
    vmc::stat("distinct_nontrivial", n);
  };
  go(budget, 0);
  go(tbudget, 1);
}
}  // namespace c13

#define C13_MAIN                                                                                                     \
  extern "C" void c13_born(uint64_t k) { c13::g().live[k & 63]++; }                                                   \
  extern "C" void c13_died(uint64_t k) { if (--c13::g().live[k & 63] < 0) c13::g().fail("a value of a future was destroyed twice"); } \
  extern "C" void c13_elsewhere(void (*f)(void*), void* w) { c13::third().run([&] { f(w); }); }                             \
  extern "C" uint32_t c13_act() { return c13::act(); }                                                                 \
  extern "C" void c13_check() { auto& m = c13::g(); for (int t = 0; t < 2; t++) if (m.wakes[t] != m.want[t]) m.fail("a task was woken " + std::to_string(m.wakes[t]) + " times, not " + std::to_string(m.want[t])); }
