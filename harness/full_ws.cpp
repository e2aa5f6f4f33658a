// C19-C21, C23: variables and workspaces.
#include "rig.h"

#include <sup/dto/anyvalue_helper.h>
#include <sup/oac-tree/scope_guard.h>

#include <unistd.h>

using namespace rig;
using dto::AnyValue;
using sup::oac_tree::Variable;

namespace
{
// ---- C19, C20: concurrent access ---------------------------------------------------------------
// A value as the harness sees it: type 0 empty, 1 number, 2 structure of two numbers, 3 string.
struct Val
{
  int t = 0; long a = 0, b = 0;
  bool operator==(const Val& o) const { return t == o.t && a == o.a && b == o.b; }
};
std::string str(const Val& v)
{
  switch (v.t) {
  case 0: return "empty";
  case 1: return sim::format("%ld", v.a);
  case 2: return sim::format("{%ld,%ld}", v.a, v.b);
  case 3: return sim::format("\"%ld\"", v.a);
  }
  return "?";
}
Val val(const AnyValue& v)
{
  Val r;
  if (dto::IsEmptyValue(v)) return r;
  if (v.HasField("a") && v.HasField("b")) { r.t = 2; v["a"].As(r.a); v["b"].As(r.b); return r; }
  std::string s;
  if (v.GetTypeCode() == dto::TypeCode::String) { v.As(s); r.t = 3; r.a = std::atol(s.c_str()); return r; }
  if (v.IsScalar()) { r.t = 1; v.As(r.a); return r; }
  r.t = 9;
  return r;
}
enum { GET, GETFIELD, SET, SETFIELD, RESETV, SETWRONG, GETTYPED, SETSTR, SETFIELDWRONG, N_OPS };
const char* const oname[] = {"get", "get field", "set", "set field", "reset", "set(wrong type)", "get as float", "set(string)", "set field(wrong type)"};
const char* const vname[] = {"s", "t", "d", "e", "none"};
const char* const fname[] = {".a", ".b", ".c"};   // the last one does not exist
constexpr int kVars = 4;
Val initial(int v) { Val r; if (v == 0) { r.t = 1; r.a = 5; } if (v == 1) { r.t = 2; r.a = 6; r.b = 7; } if (v == 2) { r.t = 1; r.a = 8; } return r; }
struct Rec { Interval t; int var, op, field; long arg; int ok; Val got; int thr; };
struct VModel
{
  int var = 0;
  Val v;
  const std::vector<Val>* notes = nullptr;   // order of the notifications, for C20
  size_t pos = 0;
  bool note(const Val& x) { if (!notes) return true; if (pos >= notes->size() || !((*notes)[pos] == x)) return false; ++pos; return true; }
  bool apply(const Rec& r)
  {
    bool ok = false;
    Val out;
    switch (r.op) {
    case GET: ok = v.t != 0; out = v; break;
    case GETTYPED: ok = v.t == 1; out = v; break;
    case GETFIELD: ok = v.t == 2 && r.field < 2; if (ok) { out.t = 1; out.a = r.field ? v.b : v.a; } break;
    case SET: case SETWRONG: case SETSTR: {
      Val n;
      bool s = r.op == SETWRONG;          // the other kind of value
      bool structure = (var == 1) != s;
      if (r.op == SETSTR) { n.t = 3; n.a = r.arg; }
      else if (structure) { n.t = 2; n.a = r.arg; n.b = r.arg + 1; }
      else { n.t = 1; n.a = r.arg; }
      ok = var == 2 || v.t == 0 || v.t == n.t;
      if (ok) { v = n; if (r.ok == 1 && !note(n)) return false; }
      break; }
    case SETFIELD:
      ok = v.t == 2 && r.field < 2;
      if (ok) { (r.field ? v.b : v.a) = r.arg; if (r.ok == 1 && !note(v)) return false; }
      break;
    case SETFIELDWRONG: break;           // a structure is no number
    case RESETV: ok = true; v = initial(var); if (!note(v)) return false; break;
    }
    if (ok != (r.ok == 1)) return false;
    if (ok && (r.op == GET || r.op == GETTYPED || r.op == GETFIELD) && !(out == r.got)) return false;
    return true;
  }
  u64 hash() const { return mixh(mixh(mixh(static_cast<u64>(v.t), static_cast<u64>(v.a)), static_cast<u64>(v.b)), pos); }
};
std::string show(const std::vector<Rec>& h)
{
  std::string s;
  for (auto& r : h)
    s += sim::format("    [%llu..%llu] client %d: %s %s%s %ld -> %s\n", static_cast<unsigned long long>(r.t.inv), static_cast<unsigned long long>(r.t.ret), r.thr, oname[r.op], vname[r.var],
                     r.op == GETFIELD || r.op == SETFIELD || r.op == SETFIELDWRONG ? fname[r.field] : "", r.arg, !r.ok ? "refused" : r.op == GET || r.op == GETTYPED || r.op == GETFIELD ? str(r.got).c_str() : "done");
  return s;
}
struct Note { int var; Val v; bool connected; u64 t; };
struct Listener
{
  std::vector<Note> notes;
  int name = -1;                 // -1: all variables
  u64 from = 0, to = ~0ull;      // registered, unregistered
  void add(const std::string& n, const AnyValue& v, bool c)
  {
    Quiet z;
    int k = 0;
    while (k < kVars && n != vname[k]) ++k;
    notes.push_back({k, val(v), c, tick()});
    sim::ev(mixh(static_cast<u64>(k), static_cast<u64>(val(v).a)));
  }
};
struct WsRun
{
  std::unique_ptr<Workspace> ws;
  std::vector<std::vector<Rec>> hist;
  std::vector<std::unique_ptr<Listener>> ls;
  explicit WsRun(size_t n) : ws(new Workspace), hist(n)
  {
    auto add = [&](const char* n, const char* type, const char* value, bool dyn) {
      auto v = sup::oac_tree::GlobalVariableRegistry().Create("Local");
      v->SetName(n);
      if (type) v->AddAttribute("type", type);
      if (value) v->AddAttribute("value", value);
      if (dyn) v->AddAttribute("dynamicType", "true");
      ws->AddVariable(n, std::move(v));
    };
    add("s", R"({"type":"int32"})", "5", false);
    add("t", R"({"type":"","attributes":[{"a":{"type":"int32"}},{"b":{"type":"int32"}}]})", R"({"a":6,"b":7})", false);
    add("d", R"({"type":"int32"})", "8", true);
    add("e", nullptr, nullptr, false);
  }
  void Do(const Op& o, int thr)
  {
    Rec r{};
    std::string name;
    AnyValue v, out;
    {
      Quiet z;
      r.thr = thr;
      r.op = o.code % N_OPS; r.var = static_cast<int>(o.a[0] % kVars); r.field = static_cast<int>(o.a[1] >= 0 ? o.a[1] % 3 : 0); r.arg = o.a[2];
      if (r.op == SETFIELDWRONG) r.var = 1;
      name = vname[r.var];
      if (r.op == GETFIELD || r.op == SETFIELD || r.op == SETFIELDWRONG) name += fname[r.field];
      if (r.op == SET || r.op == SETWRONG) {
        if ((r.var == 1) != (r.op == SETWRONG)) v = AnyValue({{"a", AnyValue(static_cast<dto::int32>(r.arg))}, {"b", AnyValue(static_cast<dto::int32>(r.arg + 1))}});
        else if (o.a[3]) v = AnyValue(static_cast<dto::int64>(r.arg));
        else v = AnyValue(static_cast<dto::int32>(r.arg));
      }
      if (r.op == SETFIELDWRONG) v = AnyValue({{"a", AnyValue(static_cast<dto::int32>(r.arg))}, {"b", AnyValue(static_cast<dto::int32>(r.arg + 1))}});
      if (r.op == SETSTR) v = AnyValue(std::to_string(r.arg));
      if (r.op == SETFIELD) v = AnyValue(static_cast<dto::int32>(r.arg));
      if (r.op == GETTYPED) out = AnyValue(static_cast<dto::float64>(0.0));
      sim::trace("%s %s %ld", oname[r.op], name.c_str(), r.arg);
      r.t.inv = tick();
    }
    switch (r.op) {
    case GET: case GETFIELD: case GETTYPED: r.ok = ws->GetValue(name, out) ? 1 : 0; break;
    case RESETV: r.ok = ws->ResetVariable(name) ? 1 : 0; break;
    default: r.ok = ws->SetValue(name, v) ? 1 : 0; break;
    }
    Quiet z;
    r.t.ret = tick();
    r.got = val(out);
    if (r.op == GETTYPED && r.got.t == 1) { double d = 0; out.As(d); r.got.a = static_cast<long>(d); }
    sim::trace("-> %s %s", r.ok ? "done" : "refused", r.op == GET || r.op == GETFIELD || r.op == GETTYPED ? str(r.got).c_str() : "");
    hist[static_cast<size_t>(thr)].push_back(r);
    out = AnyValue(); v = AnyValue(); name = std::string();
  }
  std::vector<Rec> of(int var)
  {
    std::vector<Rec> h;
    for (auto& t : hist) for (auto& r : t) if (r.var == var) h.push_back(r);
    std::sort(h.begin(), h.end(), [](const Rec& a, const Rec& b) { return a.t.inv < b.t.inv; });
    return h;
  }
};
void gen_ops(Prog& p, Rng& r, int max_ops, bool listeners)
{
  sim::gen_strategy(p, r);
  p.p["f.stall"] = 0;
  int nt = r.range(2, 4), n = r.range(4, max_ops);
  p.th.resize(static_cast<size_t>(nt));
  int vars = r.range(1, kVars);
  int base = r.range(0, kVars - 1);
  bool same = r.chance(1, 4);
  static const int w[] = {GET, GET, GET, GETFIELD, GETFIELD, SET, SET, SET, SETFIELD, SETFIELD, RESETV, SETWRONG, GETTYPED, SETSTR, SETFIELDWRONG};
  for (int i = 0; i < n; ++i) {
    Op o;
    o.code = w[r.below(sizeof w / sizeof *w)];
    o.a[0] = (base + r.range(0, vars - 1)) % kVars;
    o.a[1] = r.chance(1, 12) ? 2 : r.range(0, 1);
    // sometimes the same few values again and again: a write that changes nothing is a write all the same
    static const int again[] = {5, 6, 7, 8};
    o.a[2] = same ? again[r.below(4)] : 100 + 10 * i;
    o.a[3] = r.range(0, 1);
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
  if (listeners) {
    p.p["listeners"] = r.range(1, 3);
    p.p["lseed"] = r.range(0, 1000000);
  }
}
void gen19(Prog& p, Rng& r) { gen_ops(p, r, 14, false); }
void run19(const Prog& p)
{
  sim::set_step_cap(400000);
  WsRun* w;
  { Quiet z; w = new WsRun(p.th.size()); }
  w->ws->Setup();
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] { for (auto& o : p.th[t]) w->Do(o, static_cast<int>(t)); });
    th.Join();
  }
  sim::faults_off();
  {
    Quiet z;
    int overlapping = 0;
    for (int v = 0; v < kVars; ++v) {
      auto h = w->of(v);
      VModel m; m.var = v; m.v = initial(v);
      for (size_t i = 1; i < h.size(); ++i) if (h[i].t.inv < h[i - 1].t.ret && h[i].thr != h[i - 1].thr) ++overlapping;
      if (!linearizable(h, m)) sim::fail("variable:not-linearizable", sim::format("no order of the operations on variable '%s' explains their results:\n", vname[v]) + show(h));
    }
    if (overlapping) sim::nontrivial();
  }
  w->ws->Teardown();
  Quiet z;
  delete w;
}
sim::Reg r19({"C19",
  "a workspace with a number, a structure, a dynamically typed and an untyped variable; two to four clients read and write whole variables and fields, with matching, convertible and wrong types, and reset them; the history of each variable is checked for linearizability against a reference variable",
  "operations on the same variable overlapped in time",
  gen19, run19,
  {"Workspace, Variable, LocalVariable, NamedCallbackManager, SplitFieldName, attribute handling"},
  {"sup-dto (stand-in)", "clients (scripted)", "scheduler, heap (simulated)"},
  {}, nullptr, rig::prepare});

void gen20(Prog& p, Rng& r) { gen_ops(p, r, 14, true); }
void run20(const Prog& p)
{
  sim::set_step_cap(400000);
  WsRun* w;
  Listener* all;
  { Quiet z; w = new WsRun(p.th.size()); w->ls.emplace_back(new Listener); all = w->ls.back().get(); }
  // the first listener sees everything; initial values are announced by the set-up
  bool reg = w->ws->RegisterGenericCallback([all](const std::string& n, const AnyValue& v, bool c) { all->add(n, v, c); }, all);
  if (!reg) sim::fail("notify:refused", "a callback is refused");
  w->ws->Setup();
  size_t n0;
  {
    Quiet z;
    n0 = all->notes.size();
    std::set<int> seen;
    for (auto& n : all->notes) { seen.insert(n.var); if (!(n.v == initial(n.var)) || !n.connected) sim::fail("notify:initial", sim::format("the set-up announces %s for variable %d instead of its initial value", str(n.v).c_str(), n.var)); }
    if (n0 != static_cast<size_t>(kVars) || seen.size() != static_cast<size_t>(kVars)) sim::fail("notify:initial", sim::format("the set-up of %d variables makes %zu notifications", kVars, n0));
  }
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] { for (auto& o : p.th[t]) w->Do(o, static_cast<int>(t)); });
    for (long k = 0; k < p.get("listeners"); ++k)
      th.Start([&, k] {
        Rng r(static_cast<u64>(p.get("lseed") * 10 + k));
        for (int i = 0; i < 2; ++i) {
          Listener* l;
          std::string nm;
          { Quiet z; w->ls.emplace_back(new Listener); l = w->ls.back().get(); l->name = r.range(-1, kVars - 1); if (l->name >= 0) nm = vname[l->name]; }
          for (int n = r.range(0, 3); n > 0; --n) sim::yield_point();
          {
            auto guard = w->ws->GetCallbackGuard(l);
            if (l->name < 0) w->ws->RegisterGenericCallback([l](const std::string& n, const AnyValue& v, bool c) { l->add(n, v, c); }, l);
            else w->ws->RegisterCallback(nm, [l](const AnyValue& v, bool c) { l->add(vname[l->name], v, c); }, l);
            { Quiet z; l->from = tick(); }
            for (int n = r.range(1, 12); n > 0; --n) sim::yield_point();
            { Quiet z; l->to = tick(); }
          }
          Quiet z;
          l->notes.push_back({-1, {}, false, tick()});   // nothing may come after this
          nm = std::string();
        }
      });
    th.Join();
  }
  sim::faults_off();
  {
    Quiet z;
    for (int v = 0; v < kVars; ++v) {
      auto h = w->of(v);
      std::vector<Val> notes;
      for (size_t i = n0; i < all->notes.size(); ++i) if (all->notes[i].var == v) { if (!all->notes[i].connected) sim::fail("notify:connected", "a new value is announced as disconnected"); notes.push_back(all->notes[i].v); }
      size_t writes = 0;
      for (auto& r : h) if (r.ok && r.op != GET && r.op != GETFIELD && r.op != GETTYPED) ++writes;
      std::string s = "    announced:";
      for (auto& n : notes) s += " " + str(n);
      s += "\n" + show(h);
      if (notes.size() != writes) sim::fail("notify:count", sim::format("%zu successful changes of variable '%s' were announced %zu times\n", writes, vname[v], notes.size()) + s);
      VModel m; m.var = v; m.v = initial(v);
      if (!linearizable(h, m)) sim::fail("variable:not-linearizable", sim::format("no order of the operations on variable '%s' explains their results:\n", vname[v]) + s);
      m.notes = &notes;
      if (!linearizable(h, m)) sim::fail("notify:order", sim::format("the changes of variable '%s' are announced in an order, or with values, that no order of the operations explains\n", vname[v]) + s);
      if (writes > 1) sim::nontrivial();
    }
    // the other listeners: a contiguous part of it, at least everything between registration and removal
    for (size_t k = 1; k < w->ls.size(); ++k) {
      auto& l = *w->ls[k];
      std::vector<size_t> seen, must;
      for (size_t i = 0; i < l.notes.size(); ++i) {
        auto& n = l.notes[i];
        if (n.var < 0) { if (i + 1 != l.notes.size()) sim::fail("notify:after-removal", "a listener is notified after its removal"); continue; }
        size_t m = all->notes.size();
        for (size_t j = 0; j < all->notes.size(); ++j) if (all->notes[j].t < n.t) m = j;
        if (m == all->notes.size() || all->notes[m].var != n.var || !(all->notes[m].v == n.v)) sim::fail("notify:different", sim::format("two listeners are told different things: %s of variable %d", str(n.v).c_str(), n.var));
        seen.push_back(m);
        sim::count("notifications_to_temporary_listeners");
      }
      std::vector<size_t> mine;
      for (size_t j = 0; j < all->notes.size(); ++j) if (l.name < 0 || all->notes[j].var == l.name) mine.push_back(j);
      size_t at = 0;
      while (at < mine.size() && (seen.empty() || mine[at] != seen[0])) ++at;
      for (size_t j = 0; j < seen.size(); ++j) if (at + j >= mine.size() || mine[at + j] != seen[j]) sim::fail("notify:gap", "a registered listener misses a notification");
      for (size_t j : mine) if (all->notes[j].t > l.from && all->notes[j].t < l.to && j + 1 < all->notes.size() && all->notes[j + 1].t < l.to)
        if (std::find(seen.begin(), seen.end(), j) == seen.end()) sim::fail("notify:missed", "a registered listener is not notified");
    }
  }
  w->ws->Teardown();
  Quiet z;
  delete w;
}
sim::Reg r20({"C20",
  "as C19, with a permanent listener and listeners that come and go while two to four clients change variables; every listener's notifications are compared with the successful changes, their values and a linearization order",
  "one variable was changed more than once",
  gen20, run20,
  {"Workspace, Variable, LocalVariable, NamedCallbackManager, ScopeGuard"},
  {"sup-dto (stand-in)", "clients and listeners (scripted)", "scheduler, heap (simulated)"},
  {}, nullptr, rig::prepare});

// ---- C21: waiting for a variable ----------------------------------------------------------------
// A variable whose availability changes by itself, as those that are connected over a network.
class Plug : public Variable
{
public:
  Plug() : Variable("Plug") {}
  struct State { u64 at, time; bool avail, told; };
  std::vector<State> hist{{0, 0, false, true}};
  void Change(bool avail, bool notify = true)
  {
    { std::lock_guard<std::mutex> lk(m_mx); Put(avail, notify); }
    if (notify) Notify(AnyValue(static_cast<dto::int32>(1)), avail);
  }
private:
  bool GetValueImpl(AnyValue& v) const override { v = AnyValue(static_cast<dto::int32>(1)); std::lock_guard<std::mutex> lk(m_mx); return m_avail; }
  bool SetValueImpl(const AnyValue&) override
  {
    bool a;
    { std::lock_guard<std::mutex> lk(m_mx); Put(a = !m_avail); }
    Notify(AnyValue(static_cast<dto::int32>(1)), a);
    return true;
  }
  bool IsAvailableImpl() const override { std::lock_guard<std::mutex> lk(m_mx); return m_avail; }
  void Put(bool avail, bool told = true) { Quiet z; m_avail = avail; hist.push_back({tick(), sim::now(), avail, told}); }
  mutable std::mutex m_mx;
  bool m_avail = false;
};
enum { WAITV, AVAIL, UNAVAIL, TOGGLE, WAITUNKNOWN, SILENT };
struct Wait { u64 inv, ret; u64 t0, t1; int var; bool want, res; double timeout; };
void gen21(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  int nw = r.range(1, 3), nc = r.range(1, 2);
  p.th.resize(static_cast<size_t>(nw + nc));
  for (int t = 0; t < nw + nc; ++t)
    for (int n = r.range(1, t < nw ? 3 : 5); n > 0; --n) {
      Op o;
      if (t < nw) { o.code = r.chance(1, 12) ? WAITUNKNOWN : WAITV; o.a[1] = r.range(0, 1); o.a[2] = r.chance(1, 2) ? r.range(0, 60) : 1000000; }
      else { o.code = r.chance(1, 5) ? SILENT : r.range(AVAIL, TOGGLE); o.a[1] = r.range(0, 1); o.a[2] = r.chance(1, 2) ? 0 : r.range(1, 60); }
      o.a[0] = r.range(0, 1);
      p.th[static_cast<size_t>(t)].push_back(o);
    }
}
void run21(const Prog& p)
{
  sim::set_step_cap(1000000);
  std::unique_ptr<Workspace> ws;
  Plug* v[2];
  struct Change { u64 before, after; bool now; };
  std::vector<Change> ch[2];     // when the availability may have changed
  std::vector<Wait> done;
  int waiting = 0, left = 0;
  {
    Quiet z;
    ws.reset(new Workspace);
    for (int i = 0; i < 2; ++i) { auto u = std::make_unique<Plug>(); v[i] = u.get(); u->SetName(i ? "y" : "x"); ws->AddVariable(i ? "y" : "x", std::move(u)); }
  }
  ws->Setup();
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t) {
      bool w = false;
      for (auto& o : p.th[t]) if (o.code == WAITV) w = true;
      { Quiet z; if (w) ++waiting; else ++left; }
      th.Start([&, t, w] {
        for (auto& o : p.th[t]) {
          int k = static_cast<int>(o.a[0] & 1);
          if (o.code == WAITV || o.code == WAITUNKNOWN) {
            Wait x{};
            std::string nm;
            { Quiet z; nm = o.code == WAITV ? (k ? "y" : "x") : "unknown"; x.var = k; x.want = o.a[1] != 0; x.timeout = static_cast<double>(o.a[2]) / 1000.0; x.inv = tick(); x.t0 = sim::now(); sim::trace("wait for %s %s, %.3f s", nm.c_str(), x.want ? "available" : "unavailable", x.timeout); }
            x.res = ws->WaitForVariable(nm, x.timeout, x.want);
            Quiet z;
            x.ret = tick(); x.t1 = sim::now();
            sim::trace("wait for %s returns %d", nm.c_str(), x.res);
            if (o.code == WAITUNKNOWN) { if (x.res) sim::fail("waitvar:unknown", "waiting for an unknown variable succeeds"); }
            else done.push_back(x);
            nm = std::string();
            sim::ev(static_cast<u64>(x.res) + 10);
            continue;
          }
          if (o.a[2]) sim::sleep_ns(static_cast<u64>(o.a[2]) * 1000000ull);
          bool now = o.code == AVAIL;
          u64 b;
          { Quiet z; b = tick(); ch[k].push_back({b, ~0ull, false}); sim::trace("%s variable %d", o.code == AVAIL ? "connect" : o.code == UNAVAIL ? "disconnect" : o.code == SILENT ? "silently change" : "write", k); }
          if (o.code == TOGGLE) ws->SetValue(k ? "y" : "x", AnyValue(static_cast<dto::int32>(3)));
          else if (o.code == SILENT) v[k]->Change(o.a[1] != 0, false);
          else v[k]->Change(now);
          Quiet z;
          for (auto& c : ch[k]) if (c.before == b) c.after = tick();
        }
        Quiet z;
        if (w) --waiting; else --left;
      });
    }
    wait_until([&] { return left == 0; }, 100000000000ull);
    sim::faults_off();
    sim::sleep_ns(7000000000ull);
    // Each of the waits still going on must now end promptly once its condition holds.
    for (int round = 0; round < 24; ++round) {
      bool want = round % 2 == 0;
      u64 b[2];
      for (int k = 0; k < 2; ++k) {
        { Quiet z; b[k] = tick(); ch[k].push_back({b[k], ~0ull, want}); }
        v[k]->Change(want);
        Quiet z;
        for (auto& c : ch[k]) if (c.before == b[k]) c.after = tick();
      }
      sim::sleep_ns(1000000000ull);
      Quiet z;
      if (waiting == 0) break;
    }
    { Quiet z; if (waiting) sim::fail("waitvar:lost-wakeup", "a wait for a variable does not return although the variable has reached the state waited for and stayed there for a second"); }
    th.Join();
  }
  {
    Quiet z;
    for (auto& x : done) {
      double dt = static_cast<double>(x.t1 - x.t0) / 1e9;
      if (!x.res && dt < x.timeout - 1e-6) sim::fail("waitvar:early", sim::format("a wait of %.3f s gives up after %.3f s", x.timeout, dt));
      sim::count(x.res ? "waits_successful" : "waits_timed_out");
      // the states the variable was in during the call, and between the end of the time-out and the return
      bool during = false, after = true;
      auto& hs = v[x.var]->hist;
      for (size_t i = 0; i < hs.size(); ++i) {
        if (hs[i].at > x.ret) break;
        bool last = i + 1 == hs.size();
        if (hs[i].avail == x.want && (last || hs[i + 1].at >= x.inv)) during = true;
        if (hs[i].avail != x.want && (last || static_cast<double>(hs[i + 1].time - std::min(x.t0, hs[i + 1].time)) / 1e9 >= x.timeout)) after = false;
      }
      // without stalls, it ends soon after the variable has come to that state to stay
      if (x.res && p.get("f.stall") == 0)
        for (size_t i = hs.size(); i-- > 0;) {
          if (hs[i].time >= x.t1) continue;
          if (hs[i].avail == x.want && (hs[i].told || hs[i].time < x.t0) && x.t1 > std::max<u64>(hs[i].time, x.t0) + 300000000ull)
            sim::fail("waitvar:late", sim::format("a wait ends %.3f s after the variable has reached the state waited for", static_cast<double>(x.t1 - std::max<u64>(hs[i].time, x.t0)) / 1e9));
          break;
        }
      if (x.res && !during) sim::fail("waitvar:wrong", "a wait succeeds although the variable was never in that state");
      if (!x.res && after) sim::fail("waitvar:gave-up", "a wait gives up although the variable was in the state waited for when the time was over, and stayed there");
    }
    for (auto& x : done) if (x.res && x.t1 > x.t0) sim::nontrivial();
    done = {}; 
  }
  ws->Teardown();
  Quiet z;
  ws.reset();
  done.shrink_to_fit(); ch[0].clear(); ch[0].shrink_to_fit(); ch[1].clear(); ch[1].shrink_to_fit();
}
sim::Reg r21({"C21",
  "clients wait, with short or very long time-outs, for variables to become available or unavailable while others connect, disconnect and write them; once the changes are over, every wait whose condition holds must have returned within a second of simulated time",
  "a wait succeeded that had to wait",
  gen21, run21,
  {"Workspace, Variable, NamedCallbackManager, ScopeGuard"},
  {"variables with changing availability (plug-in of the harness)", "sup-dto (stand-in)", "scheduler, clock, heap (simulated)"},
  {}, nullptr, rig::prepare});
}  // namespace
