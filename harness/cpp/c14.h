// Histories over a pool of rs_std::DynCallable and the Rust side that makes, receives, calls and sends them (checks/c14.py).
#pragma once
#include <csetjmp>
#include <csignal>
#include <map>
#include <string>
#include <utility>
#include "support/rs_std/dyn_callable.h"
#include "vmc.h"
extern "C" {
uint64_t c14_born(uint64_t id); void c14_died(uint64_t id);
}
namespace c14 {
using absl::internal_any_invocable::FunctionToCall;
using absl::internal_any_invocable::TypeErasedState;
inline std::map<uint64_t, long>& live() { static std::map<uint64_t, long> m; return m; }
inline std::string& err() { static std::string e; return e; }
struct Own {  // a relocatable owner that is passed by value; layout shared with the Rust struct
  uint64_t id, tok;
  explicit Own(uint64_t i) : id(i), tok(c14_born(1)) {}
  Own(Own&& o) : id(o.id), tok(o.tok) { o.tok = 0; }
  Own(void*, const Own& o) : id(o.id), tok(o.tok) {}
  ~Own() { if (tok) c14_died(tok); tok = 0; id = 77; }
};
struct M { bool full = false, consumed = false; uint64_t id = 0; long count = 0; };
// Ad: D (the DynCallable), once/mut flags, call(D&, M&) checking result, make/back/...
template <typename Ad> struct Run {
  using D = typename Ad::D;
  vmc::Ex& x;
  D s[2];
  M m[2];
  void* h = nullptr;   // what Rust holds
  M hm;
  uint64_t next = 100;
  std::map<uint64_t, long> want;
  std::string log;
  explicit Run(vmc::Ex& x) : x(x) {}
  void bad(const std::string& t) { vmc::viol(std::string(Ad::name) + ": " + t.substr(0, t.find('@')), std::string(Ad::name) + ", after " + log + ": " + t); x.cut = true; }
  D fresh(M& to) {
    int variant = next % 3;
    to = M{true, false, variant == 2 ? 9 : next, 0};
    next++;
    want[to.id]++;
    alignas(16) unsigned char buf[24];
    Ad::make(variant, to.id, buf);
    crubit::Decoder d(24, buf);
    return Ad::abi().Decode(d);
  }
  void lose(M& a) { if (a.full && !a.consumed) want[a.id]--; a = M{}; }
  void move(M& from, M& to) { M t = from; lose_if_other(from, to); to = t; }
  void lose_if_other(M& from, M& to) { M t = from; from = M{}; lose(to); to = t; }
  void check(const char* after) {
    for (int i = 0; i < 2; i++) {
      bool f = m[i].full && !m[i].consumed;
      if (static_cast<bool>(s[i]) != f || (s[i] == nullptr) == f || (nullptr == s[i]) == f || (s[i] != nullptr) != f || (nullptr != s[i]) != f)
        bad(std::string(after) + (f ? ": a callable that holds something reports to be empty" : ": a callable that holds nothing reports not to be empty"));
    }
    for (auto& [id, n] : want)
      if (live()[id] != n) bad(std::string(after) + ": captured state @" + std::to_string(id) + (live()[id] < n ? " was destroyed too early" : " was not destroyed"));
    for (auto& [id, n] : live())
      if (n != 0 && !want.count(id)) bad(std::string(after) + ": something is kept alive");
    if (!err().empty()) bad(std::string(after) + ": " + err());
  }
  bool step() {
    int op = x.pick(27);
    auto say = [&](std::string t) { log += (log.empty() ? "" : "; ") + t; };
    const char* names[] = {"receive", "receive", "reset", "reset", "assign empty", "assign empty", "move-assign", "move-assign", "self-move", "self-move", "swap", "swap(a,b)", "self-swap",
                           "move out and drop", "move out and drop", "move out and into the other", "move out and into the other", "call", "call", "send to Rust", "send to Rust",
                           "call in Rust", "drop in Rust", "send back to slot 0", "as AnyInvocable", "as AnyInvocable", "send back to slot 1"};
    int i = op < 10 ? op % 2 : op < 13 ? 0 : (op - 13) % 2;
    if (op == 24 || op == 25) i = op - 24;
    auto mine = [&](int k) { return std::to_string(k); };
    say(std::string(names[op]) + (op < 10 || (op >= 13 && op < 21) || op == 24 || op == 25 ? " " + mine(i) : ""));
    switch (op) {
      case 0: case 1: { M t; D d = fresh(t); s[i] = std::move(d); if (d) bad("a callable that was moved from reports not to be empty"); lose(m[i]); m[i] = t; break; }
      case 2: case 3: s[i] = nullptr; lose(m[i]); break;
      case 4: case 5: { D e; s[i] = std::move(e); lose(m[i]); break; }
      case 6: case 7: s[i] = std::move(s[1 - i]); move(m[1 - i], m[i]); break;
      case 8: case 9: {
        // Either outcome is a valid state: unchanged, or empty with the state destroyed.
        D& r = s[i];
        s[i] = std::move(r);
        if (m[i].full && !m[i].consumed && !s[i]) lose(m[i]);
        break;
      }
      case 10: s[0].swap(s[1]); std::swap(m[0], m[1]); break;
      case 11: swap(s[1], s[0]); std::swap(m[0], m[1]); break;
      case 12: s[0].swap(s[0]); break;
      case 13: case 14: {
        M t = m[i];
        {
          D d(std::move(s[i]));
          m[i] = M{};
          check("move construction");
          if (static_cast<bool>(d) != (t.full && !t.consumed)) bad("a move-constructed callable does not hold what it was made from");
        }
        lose(t);
        break;
      }
      case 15: case 16: { M t = m[i]; m[i] = M{}; D d(std::move(s[i])); s[1 - i] = std::move(d); lose(m[1 - i]); m[1 - i] = t; break; }
      case 17: case 18: if (!m[i].full || m[i].consumed) return false; if (Ad::once) { want[m[i].id]--; } if (!Ad::call(s[i], m[i])) bad("a call from C++ gives another result or argument"); if (Ad::once) m[i].consumed = true; break;
      case 19: case 20: {
        if (h) return false;
        alignas(16) unsigned char buf[24];
        crubit::Encoder e(24, buf);
        hm = m[i];
        m[i] = M{};
        auto abi = Ad::abi();
        std::move(abi).Encode(std::move(s[i]), e);
        if (!hm.full || hm.consumed) { hm = M{}; }
        check("encoding");
        h = Ad::back(buf);
        if (!hm.full) want[2] = 1;  // Rust got the fallback
        break;
      }
      case 21: if (!h) return false; if (Ad::once) { want[hm.full ? hm.id : 2]--; } if (!Ad::hcall(h, hm)) bad("a call from Rust gives another result or argument"); if (Ad::once) { h = nullptr; hm = M{}; } break;
      case 22: if (!h) return false; Ad::hdrop(h); h = nullptr; if (!hm.full) want[2]--; lose(hm); break;
      case 23: case 26: {
        if (!h || !hm.full) return false;
        int k = op == 26;
        alignas(16) unsigned char buf[24];
        Ad::hsend(h, buf);
        h = nullptr;
        crubit::Decoder d(24, buf);
        s[k] = Ad::abi().Decode(d);
        lose(m[k]);
        m[k] = hm;
        hm = M{};
        break;
      }
      case 24: case 25: {
        if (m[i].consumed) return false;
        int what = x.pick(3);
        M t = m[i];
        m[i] = M{};
        {
          absl::AnyInvocable<typename Ad::Sig> a(std::move(s[i]));
          if (static_cast<bool>(a) != t.full) bad("conversion to AnyInvocable: emptiness differs");
          check("conversion to AnyInvocable");
          if (what == 2) { absl::AnyInvocable<typename Ad::Sig> b(std::move(a)); check("moving the AnyInvocable"); if (t.full) { if (!Ad::acall(b, t)) bad("a call through AnyInvocable gives another result or argument"); if (Ad::once) t.consumed = true, want[t.id]--; } }
          else if (what == 1 && t.full) { if (!Ad::acall(a, t)) bad("a call through AnyInvocable gives another result or argument"); if (Ad::once) t.consumed = true, want[t.id]--; }
          if (what == 2) lose(t);
          check("use of the AnyInvocable");
        }
        lose(t);
        break;
      }
    }
    check(names[op]);
    return true;
  }
  void finish() {
    if (h) Ad::hdrop(h);
    h = nullptr; lose(hm);
    lose(m[0]); lose(m[1]);
  }
};
static sigjmp_buf g_j;
static volatile bool g_in;
static void on_abort(int) { if (g_in) siglongjmp(g_j, 1); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
template <typename F> static bool aborts(F f) {
  signal(SIGABRT, on_abort);
  volatile bool r = true;
  g_in = true;
  if (!sigsetjmp(g_j, 1)) { f(); r = false; }
  g_in = false;
  return r;
}
// A consumed callable does not run its state again: the program ends, wherever the callable was moved to since.
template <typename Ad> void consumed() {
  for (int how = 0; how < 4; how++) {
    vmc::Ex x;
    static typename Ad::D* a; static typename Ad::D* b; static M* m;  // what an abort jumps over is left alone
    a = new typename Ad::D; b = new typename Ad::D; m = new M;
    Run<Ad> r(x);
    *a = r.fresh(*m);
    Ad::call(*a, *m);
    if (how == 1) *b = std::move(*a); else if (how == 2) a->swap(*b); else if (how == 3) { delete b; b = new typename Ad::D(std::move(*a)); }
    typename Ad::D* c = how ? b : a;
    vmc::stat("evaluations", 1); vmc::stat("distinct_nontrivial", 1);
    if (!aborts([&] { Ad::call(*c, *m); })) vmc::viol(std::string(Ad::name) + ": called twice", std::string(Ad::name) + ": a second call of a consumed callable returns");
  }
}
template <typename Ad> void run(int depth) {
  long long n = vmc::explore([&](vmc::Ex& x) {
    live().clear();
    err().clear();
    bool whole = true;
    std::map<uint64_t, long> want;
    std::string log;
    {
      Run<Ad> r(x);
      for (int i = 0; i < depth && whole && !x.cut; i++) whole = r.step();
      r.finish();
      want = r.want;
      log = r.log;
    }
    bool leak = !err().empty();
    for (auto& [id, c] : live()) leak |= c != 0;
    if (leak && !x.cut) vmc::viol(std::string(Ad::name) + ": end", std::string(Ad::name) + ", at the end of " + log + ": " + (err().empty() ? "captured state is not destroyed exactly once" : err()));
    if (whole) { vmc::stat("distinct_nontrivial", 1); if (x.pos > 2) vmc::sample(std::string(Ad::name) + ": " + log); }
    x.cut = false;
  });
  vmc::stat("evaluations", n);
}
}  // namespace c14
