// C05: scope guards run their action exactly once, wherever the guard is moved to.
#include "common.h"

#include <sup/oac-tree/scope_guard.h>

#include <memory>
#include <mutex>
#include <new>
#include <optional>

using namespace hx;
using sup::oac_tree::ScopeGuard;

namespace
{
enum { MAKE, MOVE_CTOR, MOVE_ASSIGN, SWAP, DESTROY, QUERY, MAKE_EMPTY, GIVE, TAKE, OPS };

struct Tracker
{
  std::vector<int> made, run;   // per action id
};
// Each thread owns slots with guards; a model slot holds the id of the action the guard must hold.
struct Owner
{
  std::optional<ScopeGuard> g[3];
  int m[3] = {-1, -1, -1};      // -1 no guard, 0 empty guard, else action id
};
struct Mail
{
  std::mutex mtx;
  std::optional<ScopeGuard> g;
  int m = -1;
};

void gen05(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  p.p["f.stall"] = 0;
  if (r.chance(2, 3)) p.p["f.alloc"] = r.chance(1, 2) ? 50000 : 200000;
  int nt = r.range(1, 3);
  for (int i = 0; i < nt; ++i) {
    p.th.emplace_back();
    for (int k = r.range(3, 12); k > 0; --k) {
      Op o;
      int d = r.range(0, 99);
      o.code = d < 25 ? MAKE : d < 40 ? MOVE_CTOR : d < 60 ? MOVE_ASSIGN : d < 70 ? SWAP : d < 78 ? DESTROY : d < 83 ? QUERY : d < 88 ? MAKE_EMPTY : d < 94 ? GIVE : TAKE;
      o.a[0] = r.range(0, 2);
      o.a[1] = r.range(0, 2);
      p.th.back().push_back(o);
    }
  }
}
void run05(const Prog& p)
{
  auto tr = std::make_unique<Tracker>();
  auto mail = std::make_unique<Mail>();
  bool moved = false, threw = false;
  auto check = [&](const char* where) {
    Quiet z;
    for (size_t i = 0; i < tr->run.size(); ++i)
      if (tr->run[i] > 1) sim::fail("guard:run-twice", sim::format("the action of a scope guard ran %d times (%s)", tr->run[i], where));
  };
  // What must have happened to action 'id' when a guard holding it lets go of it.
  auto expect_run = [&](int id, const char* where) {
    Quiet z;
    if (id > 0 && tr->run[static_cast<size_t>(id)] != 1)
      sim::fail("guard:not-run", sim::format("%s: the action held by the guard ran %d times (expected 1)", where, tr->run[static_cast<size_t>(id)]));
  };
  auto expect_held = [&](int id, const char* where) {
    Quiet z;
    if (id > 0 && tr->run[static_cast<size_t>(id)] != 0)
      sim::fail("guard:run-early", sim::format("%s: the action of a guard that is still alive has already run", where));
  };
  auto valid = [&](ScopeGuard& g, int m, const char* where) {
    bool v = g.IsValid();
    Quiet z;
    if (v != (m > 0)) sim::fail("guard:validity", sim::format("%s: IsValid() is %s for a guard that %s an action", where, v ? "true" : "false", m > 0 ? "holds" : "does not hold"));
  };
  Threads th;
  for (auto& ops : p.th)
    th.Start([&] {
      auto own = std::make_unique<Owner>();
      Owner& w = *own;
      for (auto& o : ops) {
        int i = static_cast<int>(o.a[0]) % 3, k = static_cast<int>(o.a[1]) % 3;
        try {
          sim::MayFail may;
          switch (o.code) {
          case MAKE: {
            if (w.m[i] >= 0) break;
            int id;
            {
              Quiet z;
              if (tr->made.empty()) { tr->made.push_back(0); tr->run.push_back(0); }
              id = static_cast<int>(tr->made.size());
              tr->made.push_back(0); tr->run.push_back(0);
            }
            Tracker* t = tr.get();
            std::function<void()> f;
            char big[48] = {1};  // too large for the small-object buffer: copying it allocates
            { Quiet z; if (o.a[1] & 1) f = [t, id, big] { Quiet q; (void)big; t->run[static_cast<size_t>(id)]++; }; else f = [t, id] { Quiet q; t->run[static_cast<size_t>(id)]++; }; }
            w.g[i].emplace(std::move(f));
            w.m[i] = id;
            valid(*w.g[i], id, "constructed");
            break; }
          case MAKE_EMPTY: if (w.m[i] < 0) { w.g[i].emplace(); w.m[i] = 0; valid(*w.g[i], 0, "default constructed"); } break;
          case MOVE_CTOR:
            if (w.m[i] < 0 || w.m[k] >= 0) break;
            w.g[k].emplace(std::move(*w.g[i]));
            w.m[k] = w.m[i]; w.m[i] = 0;
            { Quiet z; moved = true; }
            expect_held(w.m[k], "move construction");
            valid(*w.g[k], w.m[k], "move-constructed guard");
            valid(*w.g[i], 0, "moved-from guard");
            break;
          case MOVE_ASSIGN: {
            if (w.m[i] < 0 || w.m[k] < 0 || i == k) break;
            int old = w.m[k];
            *w.g[k] = std::move(*w.g[i]);
            w.m[k] = w.m[i]; w.m[i] = 0;
            { Quiet z; moved = true; }
            expect_run(old, "move assignment to a guard");
            expect_held(w.m[k], "move assignment");
            valid(*w.g[k], w.m[k], "move-assigned guard");
            valid(*w.g[i], 0, "moved-from guard");
            break; }
          case SWAP:
            if (w.m[i] < 0 || w.m[k] < 0) break;
            w.g[i]->Swap(*w.g[k]);
            std::swap(w.m[i], w.m[k]);
            { Quiet z; moved = true; }
            expect_held(w.m[i], "swap"); expect_held(w.m[k], "swap");
            valid(*w.g[i], w.m[i], "swapped guard"); valid(*w.g[k], w.m[k], "swapped guard");
            break;
          case DESTROY:
            if (w.m[i] < 0) break;
            { int id = w.m[i]; w.m[i] = -1; w.g[i].reset(); expect_run(id, "destruction"); }
            break;
          case QUERY: if (w.m[i] >= 0) valid(*w.g[i], w.m[i], "query"); break;
          case GIVE: {
            std::lock_guard<std::mutex> lk(mail->mtx);
            if (w.m[i] < 0 || mail->m >= 0) break;
            mail->g.emplace(std::move(*w.g[i]));
            mail->m = w.m[i]; w.m[i] = 0;
            { Quiet z; moved = true; sim::count("handed_to_another_thread"); }
            break; }
          case TAKE: {
            std::lock_guard<std::mutex> lk(mail->mtx);
            if (w.m[i] >= 0 || mail->m < 0) break;
            w.g[i].emplace(std::move(*mail->g));
            w.m[i] = mail->m;
            mail->m = 0;   // the moved-from guard stays behind, empty
            mail->g.reset();
            mail->m = -1;
            break; }
          default: break;
          }
        } catch (const std::bad_alloc&) {
          Quiet z;
          threw = true;
          sim::count("operation_failed_by_allocation");
          // The operation failed: what the guards hold now is unchanged.  Guards under construction
          // never came to exist.
          if (o.code == MAKE) { if (!w.g[i].has_value()) w.m[i] = -1; }
        }
        { Quiet z; sim::ev(static_cast<u64>(o.code)); }
        check("during the run");
      }
      for (int i = 0; i < 3; ++i)
        if (w.m[i] >= 0) { int id = w.m[i]; w.g[i].reset(); expect_run(id, "destruction"); }
    });
  th.Join();
  if (mail->m >= 0) { int id = mail->m; mail->g.reset(); expect_run(id, "destruction"); }
  check("at the end");
  Quiet z;
  if (moved || threw) sim::nontrivial();
}
sim::Reg r5({"C05", "1-3 threads construct, move, assign, swap, hand over and destroy scope guards, with allocation failures injected into the operations on guards; every action must run exactly once, when its last guard dies.",
             "a guard is moved, swapped or handed over, or an operation on it fails.", gen05, run05, {"ScopeGuard", "std::function"}, {}});
}  // namespace
