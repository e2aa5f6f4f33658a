// C03, C04: the named callback manager.
#include "common.h"

#include <sup/oac-tree/named_callback_manager.h>

#include <map>
#include <memory>

using namespace hx;
using sup::oac_tree::NamedCallbackManager;
using sup::oac_tree::ScopeGuard;

namespace
{
// What is passed to the callbacks: a value that is lost for everybody else if somebody takes it.
struct Payload
{
  int v = 0;
  Payload(int x) : v{x} {}
  Payload(const Payload&) = default;
  Payload(Payload&& o) noexcept : v{o.v} { o.v = -1; }
  Payload& operator=(const Payload&) = default;
  Payload& operator=(Payload&& o) noexcept { v = o.v; if (this != &o) o.v = -1; return *this; }
};
const char* names[] = {"a", "b", "ab", ""};
enum { REG_GENERIC, REG_NAMED, REG_NULL_GENERIC, REG_NULL_NAMED, UNREG, EXEC, GUARD };
struct Call { int cb; std::string name; bool generic; int arg; bool flag; };
struct Rec
{
  Interval t;
  int op, listener, name, id;
  bool res;
  std::vector<Call> calls;
};
struct CModel
{
  struct E { int listener, name, id; };
  std::vector<E> gen, spec;
  bool apply(const Rec& r)
  {
    switch (r.op) {
    case REG_GENERIC: if (!r.res) return false; gen.push_back({r.listener, -1, r.id}); return true;
    case REG_NAMED: if (!r.res) return false; spec.push_back({r.listener, r.name, r.id}); return true;
    case REG_NULL_GENERIC: case REG_NULL_NAMED: return !r.res;
    case UNREG: case GUARD: {
      if (r.op == GUARD && r.listener < 0) return true;  // a guard for no listener removes nothing
      size_t n = gen.size() + spec.size();
      auto drop = [&](std::vector<E>& v) { for (size_t i = 0; i < v.size();) if (v[i].listener == r.listener) v.erase(v.begin() + static_cast<long>(i)); else ++i; };
      drop(gen); drop(spec);
      return r.op == GUARD || r.res == (n != gen.size() + spec.size()); }
    case EXEC: {
      std::vector<int> want;
      for (auto& e : gen) want.push_back(e.id);
      for (auto& e : spec) if (e.name == r.name) want.push_back(e.id);
      if (want.size() != r.calls.size()) return false;
      for (size_t i = 0; i < want.size(); ++i) if (want[i] != r.calls[i].cb) return false;
      return true; }
    }
    return false;
  }
  u64 hash() const
  {
    u64 h = 3;
    for (auto& e : gen) h = mixh(h, static_cast<u64>(e.id));
    h = mixh(h, 999);
    for (auto& e : spec) h = mixh(h, static_cast<u64>(e.id));
    return h;
  }
};
std::string show(const std::vector<Rec>& h)
{
  static const char* on[] = {"RegisterGenericCallback", "RegisterCallback", "RegisterGenericCallback(null)", "RegisterCallback(null)", "UnregisterListener", "ExecuteCallbacks", "~guard"};
  std::string s;
  for (auto& r : h) {
    s += sim::format("    [%llu..%llu] %s", static_cast<unsigned long long>(r.t.inv), static_cast<unsigned long long>(r.t.ret), on[r.op]);
    if (r.op != EXEC) s += sim::format(" listener %d", r.listener);
    if (r.op == REG_NAMED || r.op == EXEC) s += sim::format(" name \"%s\"", names[r.name]);
    if (r.op <= REG_NAMED) s += sim::format(" as callback #%d", r.id);
    if (r.op == EXEC) { s += " ->"; for (auto& c : r.calls) s += sim::format(" #%d", c.cb); }
    else s += r.res ? " -> true" : " -> false";
    s += "\n";
  }
  return s;
}
thread_local std::vector<Call>* tl_calls;

// A listener owns state that its callbacks use; it is deleted right after it was unregistered.
struct Listener { int value = 0; int in_callback = 0; };

struct CRun
{
  NamedCallbackManager<Payload, bool> mgr;
  std::vector<Rec> hist;
  int next_id = 1;
  long yields = 0;
  bool lifetime = false;   // C04: callbacks use the listener's memory
  std::map<int, Listener*> listeners;
  std::map<int, int> gone; // listener -> unregistration returned

  // Callbacks are told whom they belong to; 'slot' is the listener's address.
  void OnCall(int id, Listener* l, int lid, bool generic, const std::string& name, int arg, bool flag)
  {
    {
      Quiet z;
      sim::trace("callback #%d of listener %d", id, lid);
      if (tl_calls) tl_calls->push_back(Call{id, name, generic, arg, flag});
      if (gone.count(lid) && gone[lid])
        sim::fail("callback-after-unregister", sim::format("a callback of listener %d started after its unregistration had returned", lid));
    }
    if (lifetime && l) {
      ++l->in_callback;
      for (long k = 0; k < yields; ++k) sim::yield_point();
      ++l->value;
      --l->in_callback;
    } else
      for (long k = 0; k < yields; ++k) sim::yield_point();
    Quiet z;
    if (gone.count(lid) && gone[lid])
      sim::fail("callback-after-unregister", sim::format("a callback of listener %d was still running after its unregistration had returned", lid));
  }
};

void do_exec(CRun& c, int name, int arg, bool flag, Rec& r)
{
  std::vector<Call> calls;
  { Quiet z; tl_calls = &calls; r.t.inv = tick(); }
  {
    Quiet* z = new Quiet;
    std::string n = names[name];
    delete z;
    c.mgr.ExecuteCallbacks(n, Payload{arg}, flag);
  }
  Quiet z;
  tl_calls = nullptr;
  r.t.ret = tick();
  for (auto& k : calls) {
    if (k.arg != arg || k.flag != flag) sim::fail("callback:arguments", "a callback received other arguments than those given to ExecuteCallbacks");
    if (k.generic && k.name != names[name]) sim::fail("callback:name", "a generic callback received another name than the one given to ExecuteCallbacks");
  }
  r.calls = calls;
}

void gen03(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  p.p["f.stall"] = 0;
  int nt = r.range(2, 4), n = r.range(5, 16);
  p.p["yields"] = r.range(0, 2);
  p.th.resize(static_cast<size_t>(nt) + 1);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, 99);
    o.code = d < 15 ? REG_GENERIC : d < 40 ? REG_NAMED : d < 43 ? REG_NULL_GENERIC : d < 46 ? REG_NULL_NAMED : d < 60 ? UNREG : d < 66 ? GUARD : EXEC;
    o.a[0] = r.range(0, 2);      // listener (address only); -1 is the null listener
    if (r.chance(1, 10)) o.a[0] = -1;
    o.a[1] = r.range(0, 3);      // name
    o.a[2] = r.range(0, 1000);
    // thread 0 is the sequential prologue
    p.th[i < 3 ? 0 : 1 + r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
}
void run03(const Prog& p)
{
  sim::set_step_cap(200000);
  auto c = std::make_unique<CRun>();
  c->yields = p.get("yields");
  static char addr[8];
  auto ptr = [](long l) -> void* { return l < 0 ? nullptr : &addr[l]; };
  auto exec = [&](const Op& o) {
    Rec r{};
    r.op = o.code; r.listener = static_cast<int>(o.a[0]); r.name = static_cast<int>(o.a[1] & 3);
    int lid = r.listener;
    CRun* cr = c.get();
    if (o.code == EXEC) do_exec(*c, r.name, static_cast<int>(o.a[2]), (o.a[2] & 1) != 0, r);
    else {
      int id = 0;
      { Quiet z; id = r.id = c->next_id++; r.t.inv = tick(); }
      switch (o.code) {
      case REG_GENERIC:
        r.res = c->mgr.RegisterGenericCallback([cr, id, lid](const std::string& n, Payload a, bool f) { cr->OnCall(id, nullptr, lid, true, n, a.v, f); }, ptr(o.a[0]));
        break;
      case REG_NAMED: {
        std::string n;
        { Quiet z; n = names[r.name]; }
        r.res = c->mgr.RegisterCallback(n, [cr, id, lid](Payload a, bool f) { cr->OnCall(id, nullptr, lid, false, {}, a.v, f); }, ptr(o.a[0]));
        break; }
      case REG_NULL_GENERIC: r.res = c->mgr.RegisterGenericCallback({}, ptr(o.a[0])); break;
      case REG_NULL_NAMED: r.res = c->mgr.RegisterCallback("a", {}, ptr(o.a[0])); break;
      case UNREG: r.res = c->mgr.UnregisterListener(ptr(o.a[0])); break;
      default: { ScopeGuard g = c->mgr.GetCallbackGuard(ptr(o.a[0])); sim::yield_point(); } break;
      }
      Quiet z;
      r.t.ret = tick();
    }
    Quiet z;
    if (o.code == UNREG && lid == -1) sim::count("null_listener_unregistered");
    if (r.calls.size() > 1) sim::count("executions_with_several_callbacks");
    sim::ev(mixh(static_cast<u64>(r.op) * 8 + r.res, r.calls.size()));
    c->hist.push_back(r);
  };
  for (auto& o : p.th[0]) exec(o);
  Threads th;
  for (size_t i = 1; i < p.th.size(); ++i) th.Start([&, i] { for (auto& o : p.th[i]) exec(o); });
  th.Join();
  Op o;
  o.code = EXEC;
  for (int n = 0; n < 4; ++n) { o.a[1] = n; o.a[2] = n; exec(o); }
  Quiet z;
  int ov = 0;
  for (size_t i = 0; i < c->hist.size(); ++i)
    for (size_t k = 0; k < i; ++k)
      if (c->hist[i].t.inv < c->hist[k].t.ret && c->hist[k].t.inv < c->hist[i].t.ret) ++ov;
  if (ov) sim::nontrivial();
  if (!linearizable(c->hist, CModel{}))
    sim::fail("callbacks:not-linearizable", "no sequential order of these operations explains which callbacks ran ([call..return] event numbers):\n" + show(c->hist));
}

// C04: threads execute callbacks while listeners come, go and are destroyed.
enum { L_EXEC, L_LIFE, L_LIFE_GUARD, L_NULLGUARD };
void gen04(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  int ne = r.range(1, 2), nl = r.range(1, 3);
  p.p["yields"] = r.range(0, 3);
  for (int i = 0; i < ne; ++i) {
    p.th.emplace_back();
    for (int k = r.range(1, 4); k > 0; --k) { Op o; o.code = L_EXEC; o.a[0] = r.range(0, 3); p.th.back().push_back(o); }
  }
  for (int i = 0; i < nl; ++i) {
    p.th.emplace_back();
    for (int k = r.range(1, 3); k > 0; --k) {
      Op o;
      int d = r.range(0, 9);
      o.code = d < 5 ? L_LIFE : d < 9 ? L_LIFE_GUARD : L_NULLGUARD;
      o.a[0] = r.range(1, 3);  // number of callbacks
      o.a[1] = r.range(0, 1);
      o.a[2] = r.range(0, 2);  // pause while registered
      o.a[3] = r.range(0, 3);
      p.th.back().push_back(o);
    }
  }
}
void run04(const Prog& p)
{
  sim::set_step_cap(200000);
  auto c = std::make_unique<CRun>();
  c->lifetime = true;
  c->yields = p.get("yields");
  CRun* cr = c.get();
  int nlid = 1;
  int kept = 0;
  bool overlap = false;
  int active_exec = 0;
  // A listener that stays: it must survive every other listener's removal.
  auto keeper = std::make_unique<Listener>();
  Listener* kp = keeper.get();
  c->mgr.RegisterGenericCallback([kp, &kept](const std::string&, Payload, bool) { Quiet z; ++kept; ++kp->value; }, keeper.get());
  int null_calls = 0;
  c->mgr.RegisterCallback("a", [&null_calls](Payload, bool) { Quiet z; ++null_calls; }, nullptr);
  int executions = 0, executions_a = 0;
  Threads th;
  for (auto& ops : p.th)
    th.Start([&] {
      for (auto& o : ops) {
        if (o.code == L_EXEC) {
          { Quiet z; ++active_exec; ++executions; if ((o.a[0] & 3) == 0) ++executions_a; }
          Rec r{};
          do_exec(*c, static_cast<int>(o.a[0] & 3), 7, true, r);
          Quiet z;
          --active_exec;
        } else if (o.code == L_NULLGUARD) {
          ScopeGuard g = c->mgr.GetCallbackGuard(nullptr);
        } else {
          int lid;
          { Quiet z; lid = nlid++; }
          auto l = std::make_unique<Listener>();
          Listener* lp = l.get();
          for (long k = 0; k < o.a[0]; ++k) {
            int id;
            { Quiet z; id = c->next_id++; }
            if ((k + o.a[1]) & 1) c->mgr.RegisterGenericCallback([cr, id, lid, lp](const std::string& n, Payload a, bool f) { cr->OnCall(id, lp, lid, true, n, a.v, f); }, lp);
            else {
              std::string n;
              { Quiet z; n = names[(o.a[3] + k) & 3]; }
              c->mgr.RegisterCallback(n, [cr, id, lid, lp](Payload a, bool f) { cr->OnCall(id, lp, lid, false, {}, a.v, f); }, lp);
            }
          }
          if (o.code == L_LIFE_GUARD) {
            ScopeGuard outer;
            {
              ScopeGuard g = c->mgr.GetCallbackGuard(lp);
              if (o.a[1]) outer = std::move(g);
              for (long k = 0; k < o.a[2]; ++k) sim::yield_point();
            }
          } else {
            for (long k = 0; k < o.a[2]; ++k) sim::yield_point();
            c->mgr.UnregisterListener(lp);
          }
          {
            Quiet z;
            c->gone[lid] = 1;
            if (active_exec) overlap = true;
            sim::trace("listener %d unregistered and destroyed", lid);
          }
          l->value = -1;
          l.reset();  // the callbacks' data is gone now
        }
      }
    });
  th.Join();
  Quiet z;
  if (overlap) { sim::nontrivial(); sim::count("unregistration_during_execution"); }
  if (kept != executions) sim::fail("callback:other-listener", sim::format("a listener that was never unregistered got %d of %d notifications", kept, executions));
  if (null_calls != executions_a) sim::fail("callback:null-guard", sim::format("the callback registered without listener got %d of %d notifications: a guard for no listener removed it", null_calls, executions_a));
}
sim::Reg r3({"C03", "2-4 threads register, unregister (directly and through guards) and execute callbacks on one NamedCallbackManager; the history of which callback ran in which order is checked for linearizability against a list model.",
             "at least two operations of different threads overlap in time.", gen03, run03, {"NamedCallbackManager", "ScopeGuard"}, {}});
sim::Reg r4({"C04", "1-2 threads execute callbacks while 1-3 threads register listeners, unregister them (directly, by guard or by a moved guard) and at once destroy the data their callbacks use.",
             "a listener is unregistered while another thread is executing callbacks.", gen04, run04, {"NamedCallbackManager", "ScopeGuard"}, {"listener objects"}});
}  // namespace
