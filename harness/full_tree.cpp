// C09 pausing and stepping, C10 breakpoints, C11 reset, C13 behaviour tree semantics: whole jobs against the
// reference interpreter.
#include "jobrig.h"

using namespace rig;

namespace
{
constexpr u64 kEnd = 4000000000000ull;
void gen_seq_tree(Prog& p, Rng& r, int max_nodes, bool loops)
{
  TreeOpts o;
  o.inner = {SEQ, FALLBACK, SEQ, REPEAT, INVERT, FORCE, RSEQ, RFALLBACK, FOR, CHOICE};
  if (loops) { o.inner.push_back(REPEAT); o.inner.push_back(FOR); o.inner.push_back(LISTEN); }
  o.leaf = {PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, INCR, COPY, EQUALS, RESETVAR, SUCCEED, FAIL_, OUTPUT, MESSAGE};
  if (r.chance(1, 2)) { for (int k : {DECR, LESS, LESSEQ, GREATER, GREATEREQ, VAREXISTS, CONDITION, LOGI, ADDELEM, ADDMEMBER, PROBE, PROBE}) o.leaf.push_back(k); o.refs = 10; }
  o.missing = 5;
  o.max_nodes = max_nodes;
  o.max_depth = 5;
  o.modes = 3;
  gen_tree(p, r, o);
  for (auto& n : p.tree) if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 60) n.a[3] = r.range(1, 60);
  static const long ticks[] = {0, 0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(5)];
  fix_ending_tree(p);
}
// Makes a procedure take many execution steps, and time.
void slow_down(Prog& p, Rng& r)
{
  for (auto& n : p.tree) {
    if (n.kind == REPEAT && n.a[0] < 2 && r.chance(1, 2)) n.a[0] = r.range(2, 4);
    if (n.kind != PROBE || r.chance(1, 3)) continue;
    long res = n.a[0] & 3;
    n.a[1] = r.range(2, 4);
    n.a[0] = 0;
    for (long i = 0; i < n.a[1]; ++i) n.a[0] |= (i == n.a[1] - 1 ? res == F_ ? F_ : S_ : r.chance(1, 2) ? R_ : N_) << (2 * i);
    if (r.chance(1, 2)) { n.a[2] = SLEEP; n.a[3] = r.range(1, 60); }
  }
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  fix_ending_tree(p);
}
void caps() { sim::set_step_cap(2000000); sim::set_time_cap(40000000000000ull); }
int want_state(Model& m) { return m.at(0).st == Model::SU ? 4 : 5; }

// ---- C13 ----------------------------------------------------------------------------------------
void gen13(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  gen_seq_tree(p, r, r.chance(1, 2) ? 8 : 16, true);
}
void run13(const Prog& p)
{
  caps();
  JobRig r(p);
  size_t from;
  { Quiet z; from = r.log.size(); }
  r.command(START);
  bool done = r.wait_state({4, 5, 6}, kEnd, 1000000000ull);
  sim::faults_off();
  sim::sleep_ns(10000000000ull);
  {
    Quiet z;
    Model m(p);
    auto c = compare_run(r, m, from, done);
    if (!c.cls.empty()) sim::fail(c.cls, c.msg + show_tree(p) + r.show(c.at));
    if (!done) sim::fail("tree:does-not-end", "the procedure does not end\n" + show_tree(p) + r.show(r.log.size()));
    if (r.obs.state != want_state(m)) sim::fail("tree:job-state", sim::format("the job ends as %s, the root instruction as %s\n", jname(r.obs.state), sname(m.at(0).st)) + show_tree(p));
    for (size_t i = 0; i < p.tree.size(); ++i)
      if (code(r.hub.node[i]->GetStatus()) != m.at(static_cast<int>(i)).st)
        sim::fail("tree:final-status", sim::format("instruction %zu is %s at the end instead of %s\n", i, sname(code(r.hub.node[i]->GetStatus())), sname(m.at(static_cast<int>(i)).st)) + show_tree(p));
    auto& ws = r.proc->GetWorkspace();
    for (int k = 0; k < 4; ++k) {
      dto::AnyValue v;
      long x = -1;
      std::string name = "v" + std::to_string(k);
      if (!ws.HasVariable(name)) continue;
      if (!ws.GetValue(name, v) || !v.As(x) || x != m.var[k]) sim::fail("tree:variable", sim::format("variable %s is %ld at the end instead of %ld\n", name.c_str(), x, m.var[k]) + show_tree(p));
      sim::count("variables_compared");
    }
    if (m.ev.size() > 6) sim::nontrivial();
    std::set<int> kinds;
    for (auto& n : p.tree) kinds.insert(n.kind);
    for (int k : kinds) sim::count((std::string("procedures_with_") + kTypeName[k]).c_str());
    sim::count("execution_steps", r.n_ticks);
  }
  r.job.reset();
}
sim::Reg r13({"C13",
  "one job with a random procedure over the sequential control instructions (sequences, fallbacks, their reactive forms, repeats, for loops, listen, choice, decorators) with scripted leaves and variable instructions is started and runs to its end; every leaf execution, status notification, set of next instructions, final status and variable is compared with a reference interpreter",
  "more than six status changes",
  gen13, run13,
  {"LocalJob, AsyncRunner, Runner, JobInterfaceAdapter, Procedure, Workspace, LocalVariable, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix_ending_tree(p); }, rig::prepare});

// ---- C09 ----------------------------------------------------------------------------------------
int delay(Rng& r)
{
  int w = r.range(0, 8);
  if (w >= 7) return -(w == 7 ? r.range(1, 6) : r.range(1, 60));
  return w < 3 ? 0 : w == 3 ? r.range(1, 20) : w == 4 ? r.range(1, 100) : w == 5 ? r.range(1, 400) : r.range(1, 2000);
}
void gen09(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  gen_seq_tree(p, r, r.chance(1, 2) ? 7 : 12, true);
  slow_down(p, r);
  int nt = r.range(1, 2);
  p.th.resize(static_cast<size_t>(nt));
  int n = r.range(1, 10);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, 9);
    o.code = i == 0 && r.chance(3, 4) ? START : d < 3 ? START : d < 5 ? STEP : PAUSE;
    o.a[0] = i == 0 ? 0 : delay(r);
    o.a[1] = i && r.chance(1, 2) ? r.range(1, 4) : 0;   // wait for that many leaf executions instead
    p.th[i < 2 ? 0 : r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
}
void run09(const Prog& p)
{
  caps();
  JobRig r(p);
  size_t from;
  { Quiet z; from = r.log.size(); }
  struct Pd { size_t at; u64 ticks, calls; };
  std::vector<Pd> pauses;
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] {
        for (auto& o : p.th[t]) {
          if (o.a[1]) { u64 n; { Quiet z; n = r.n_leaf + static_cast<u64>(o.a[1]); } wait_until([&] { return r.n_leaf >= n; }, 500000000ull, 1000000ull); }
          else pause_for(o.a[0]);
          int cmd = o.code % 3;
          u64 ns; int st0;
          { Quiet z; ns = r.obs.ev.size(); st0 = r.obs.state; }
          r.command(cmd);
          // running when it was called, and all the time since
          if (cmd == PAUSE) { Quiet z; bool same = st0 == 3; for (size_t k = ns; k < r.obs.ev.size(); ++k) if (r.obs.ev[k].t == Ev::STATE) same = false; if (same) pauses.push_back({r.log.size(), r.n_ticks, r.n_calls}); }
        }
      });
    th.Join();
  }
  sim::faults_off();
  // Run it to its end. A command given earlier may still be queued, so that it may pause once more.
  bool done = false;
  for (int k = 0; k < 30 && !done; ++k) {
    r.command(START);
    sim::sleep_ns(10000000000ull);
    done = r.wait_state({1, 4, 5, 6}, kEnd, 1000000000ull) && r.state() >= 4;
  }
  sim::sleep_ns(10000000000ull);
  Quiet z;
  Model m(p);
  auto c = compare_run(r, m, from, done);
  if (!c.cls.empty()) sim::fail(c.cls, c.msg + show_tree(p) + r.show(c.at));
  if (!done) sim::fail("pause:does-not-end", "the procedure does not end although it is started again and again\n" + show_tree(p) + r.show(r.log.size()));
  if (r.obs.state != want_state(m)) sim::fail("tree:job-state", sim::format("the job ends as %s, the root instruction as %s\n", jname(r.obs.state), sname(m.at(0).st)) + show_tree(p));
  // nothing is executed unless running or stepping; a step is one execution step
  int st = 0, ticks = 0;
  for (size_t i = 0; i < r.log.size(); ++i) {
    auto& e = r.log[i];
    if (e.t == Item::STATE) {
      if (st == 2 && ticks != 1) sim::fail("step:ticks", sim::format("a step consists of %d execution steps\n", ticks) + show_tree(p) + r.show(i));
      if (st == 3 && e.a == 1) sim::count("paused_while_running");
      if (e.a == 2) sim::count("steps");
      if (e.a == 2 || e.a == 3) ticks = 0;
      st = e.a;
    } else if (e.t == Item::NEXT) ++ticks;
    else if (e.t == Item::LEAF && st != 2 && st != 3) sim::fail("pause:executes", sim::format("instruction %d is executed while the job is %s\n", e.a, jname(st)) + show_tree(p) + r.show(i));
  }
  // a pause is honoured at the end of the step that is under way, after the commands given before it
  for (auto& pd : pauses) {
    u64 t = 0;
    bool left = false;
    for (size_t i = pd.at; i < r.log.size() && !left; ++i) {
      if (r.log[i].t == Item::STATE) left = true;
      if (r.log[i].t == Item::NEXT) ++t;
    }
    if (t > pd.calls + 2) sim::fail("pause:late", sim::format("%llu execution steps are done after Pause() has returned, although at most %llu commands were given before\n", static_cast<unsigned long long>(t), static_cast<unsigned long long>(pd.calls)) + show_tree(p) + r.show(pd.at));
    sim::count("pauses_while_running");
  }
  if (!pauses.empty()) sim::nontrivial();
  pauses = {};
}
sim::Reg r09({"C09",
  "one job with a random sequential procedure; one or two clients give Start, Step and Pause at random times (also while instructions execute); afterwards it is started until it ends, and everything it did is compared with an uninterrupted execution by the reference interpreter",
  "a Pause was given while the job was running",
  gen09, run09,
  {"LocalJob, AsyncRunner, Runner, JobCommandQueue, JobInterfaceAdapter, Procedure, Workspace, LocalVariable, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix_ending_tree(p); }, rig::prepare});

// ---- C10 ----------------------------------------------------------------------------------------
void gen10(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  gen_seq_tree(p, r, r.chance(1, 2) ? 6 : 11, true);
  p.th.resize(1);
  int n = r.range(2, 16);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, 99);
    o.code = i < 2 && r.chance(2, 3) ? SETBP : d < 40 ? START : d < 55 ? STEP : d < 78 ? SETBP : d < 86 ? REMBP : d < 92 ? HALT : d < 97 ? RESET : PAUSE;
    o.a[0] = r.range(0, static_cast<int>(p.tree.size()) + (r.chance(1, 10) ? 3 : -1));
    p.th[0].push_back(o);
  }
  p.p["finish"] = r.range(0, 1);
}
void run10(const Prog& p)
{
  caps();
  JobRig r(p);
  Model* m;
  size_t from;
  std::map<int, bool>* bp;    // breakpoints by node; true when it has just been hit
  { Quiet z; m = new Model(p); bp = new std::map<int, bool>; from = r.log.size(); }
  size_t N = p.tree.size();
  int st = 0;
  // The reference: what the job must do for one command given while it is quiet.
  std::vector<int> states;
  auto tick = [&] { m->exec(0); for (auto& b : *bp) b.second = false; };
  auto expect = [&](int cmd, int arg) {
    states.clear();
    if (cmd == SETBP) { if (arg < static_cast<int>(N)) bp->emplace(r.node_of[static_cast<size_t>(arg)], false); return; }
    if (cmd == REMBP) { if (arg < static_cast<int>(N)) bp->erase(r.node_of[static_cast<size_t>(arg)]); return; }
    if (cmd == PAUSE) return;
    if (st >= 4) { if (cmd == RESET) { m->reset_all(); for (auto& b : *bp) b.second = false; states.push_back(st = 0); } return; }
    if (cmd == RESET) return;
    if (cmd == HALT) { states.push_back(st = 6); return; }
    auto end = [&] { if (!Model::fin(m->at(0).st)) return false; states.push_back(st = want_state(*m)); return true; };
    if (cmd == STEP) { states.push_back(2); tick(); if (!end()) states.push_back(st = 1); return; }
    states.push_back(3);
    for (;;) {
      std::vector<int> nx;
      if (m->at(0).st == Model::NS || m->at(0).st == Model::NF) m->next(0, nx);
      bool hit = false;
      for (auto& b : *bp) if (!b.second && std::find(nx.begin(), nx.end(), b.first) != nx.end()) { b.second = true; hit = true; }
      if (hit) { states.push_back(st = 1); sim::count("breakpoints_hit"); sim::nontrivial(); return; }
      tick();
      if (end()) return;
    }
  };
  auto one = [&](int cmd, int arg) {
    size_t at, want_leaf;
    int s0;
    { Quiet z; at = r.log.size(); s0 = st; expect(cmd, arg); want_leaf = m->runs.size(); }
    r.command(cmd, arg);
    if (cmd != SETBP && cmd != REMBP) {
      int target = st;
      u64 n;
      { Quiet z; n = states.size(); }
      auto there = [&] { u64 k = 0; for (size_t i = at; i < r.log.size(); ++i) if (r.log[i].t == Item::STATE) ++k; return k >= n && r.obs.state == target; };
      bool ok = wait_until(there, kEnd / 40, 50000000ull);
      sim::faults_off();
      if (!ok) wait_until(there, kEnd / 10, 100000000ull);
      sim::sleep_ns(10000000000ull);   // stalls that have already begun
      sim::faults_on();
    }
    Quiet z;
    std::vector<int> got;
    for (size_t i = at; i < r.log.size(); ++i) if (r.log[i].t == Item::STATE) got.push_back(r.log[i].a);
    if (got != states) {
      std::string s = "states announced:";
      for (int x : got) s += std::string(" ") + jname(x);
      s += "; expected:";
      for (int x : states) s += std::string(" ") + jname(x);
      std::string b;
      for (auto& x : *bp) b += sim::format(" %d%s", x.first, x.second ? "(hit)" : "");
      bool want_pause = !states.empty() && states.back() == 1 && cmd == START;
      bool got_pause = !got.empty() && got.back() == 1 && cmd == START;
      sim::fail(want_pause && !got_pause ? "breakpoint:missed" : got_pause && !want_pause ? "breakpoint:spurious-pause" : "breakpoint:states",
                sim::format("after %s(%d) in state %s: ", cname[cmd], arg, jname(s0)) + s + "; breakpoints on:" + b + "\n" + show_tree(p) + r.show(r.log.size()));
    }
    size_t leaves = 0;
    for (size_t i = 0; i < r.log.size(); ++i) if (r.log[i].t == Item::LEAF) ++leaves;
    if (leaves != want_leaf) sim::fail("breakpoint:wrong-place", sim::format("%zu leaf executions when the job becomes quiet after %s(%d), expected %zu\n", leaves, cname[cmd], arg, want_leaf) + show_tree(p) + r.show(r.log.size()));
    // the breakpoint flag of every instruction that was reported since
    std::map<int, int> flag;
    for (size_t i = from; i < r.log.size(); ++i) if (r.log[i].t == Item::INSTR) flag[r.node_of[static_cast<size_t>(r.log[i].a)]] = r.log[i].c;
    for (size_t k = 0; k < N; ++k) {
      bool has = bp->count(static_cast<int>(k)) != 0;
      auto f = flag.find(static_cast<int>(k));
      if ((f == flag.end() ? 0 : f->second) != (has ? 1 : 0)) sim::fail("breakpoint:flag", sim::format("instruction %zu %s a breakpoint, but is reported %s one\n", k, has ? "has" : "does not have", has ? "without" : "with") + show_tree(p) + r.show(r.log.size()));
    }
  };
  for (auto& o : p.th[0]) one(o.code % N_CMD, static_cast<int>(o.a[0]));
  sim::faults_off();
  if (p.get("finish")) {
    for (int k = 0; k < 60 && st < 4; ++k) one(START, 0);
  }
  Quiet z;
  delete m; delete bp;
  states = {};
}
sim::Reg r10({"C10",
  "one job with a random sequential procedure; one client sets and removes breakpoints on any instructions (also unknown ones) while the job is quiet and runs, steps, halts and resets it; states, leaf executions and reported breakpoint flags are compared with a reference model of breakpoints on top of the reference interpreter",
  "a breakpoint was hit",
  gen10, run10,
  {"LocalJob, AsyncRunner, Runner, BreakpointManager, JobCommandQueue, JobInterfaceAdapter, Procedure, Workspace, LocalVariable, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix_ending_tree(p); if (p.th.empty()) p.th.resize(1); }, rig::prepare});

// ---- C11 ----------------------------------------------------------------------------------------
void gen11(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  gen_seq_tree(p, r, r.chance(1, 2) ? 7 : 12, true);
  if (r.chance(2, 3)) slow_down(p, r);
  p.th.resize(1);
  int n = r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, 9);
    o.code = i == 0 ? (r.chance(3, 4) ? START : STEP) : d < 4 ? START : d < 6 ? STEP : d < 7 ? PAUSE : d < 9 ? HALT : RESET;
    o.a[0] = i == 0 ? 0 : delay(r);
    o.a[1] = i && r.chance(1, 2) ? r.range(1, 4) : 0;
    p.th[0].push_back(o);
  }
  p.p["rounds"] = r.range(1, 2);
  p.p["bp"] = r.range(0, 3) ? -1 : r.range(0, static_cast<int>(p.tree.size()) - 1);
}
void run11(const Prog& p)
{
  caps();
  JobRig r(p);
  for (long round = 0; round < p.get("rounds", 1); ++round) {
    if (p.get("bp", -1) >= 0) r.command(SETBP, static_cast<int>(p.get("bp")));
    for (auto& o : p.th[0]) {
      if (o.a[1]) { u64 n; { Quiet z; n = r.n_leaf + static_cast<u64>(o.a[1]); } wait_until([&] { return r.n_leaf >= n; }, 500000000ull, 1000000ull); }
      else pause_for(o.a[0]);
      r.command(o.code % 5);
    }
    if (p.get("bp", -1) >= 0) { sim::sleep_ns(20000000000ull); r.command(REMBP, static_cast<int>(p.get("bp"))); }
    bool halted;
    { Quiet z; halted = r.obs.state < 4; }
    if (halted) r.command(HALT);
    // be sure that the job is finished and nothing is queued
    sim::sleep_ns(40000000000ull);
    for (int k = 0; k < 4 && r.state() < 4; ++k) { r.command(HALT); sim::sleep_ns(20000000000ull); }
    { Quiet z; if (r.obs.state < 4) sim::fail("reset:not-finished", "the job is not finished long after Halt()\n" + show_tree(p) + r.show(r.log.size())); sim::count((std::string("reset_from_") + jname(r.obs.state)).c_str()); if (r.n_ticks) sim::nontrivial(); }
    r.command(RESET);
    bool init = r.wait_state({0});
    sim::sleep_ns(2000000000ull);
    Quiet z;
    if (!init) sim::fail("reset:ignored", "the job does not become Initial after Reset()\n" + show_tree(p) + r.show(r.log.size()));
    std::vector<int> last(p.tree.size(), 0);
    for (auto& e : r.log) if (e.t == Item::INSTR) last[static_cast<size_t>(r.node_of[static_cast<size_t>(e.a)])] = e.b;
    for (size_t i = 0; i < p.tree.size(); ++i) {
      if (code(r.hub.node[i]->GetStatus()) != 0) sim::fail("reset:status", sim::format("instruction %zu is %s after the reset\n", i, sname(code(r.hub.node[i]->GetStatus()))) + show_tree(p));
      if (last[i] != 0) sim::fail("reset:unreported", sim::format("instruction %zu was last reported as %s although it has been reset\n", i, sname(last[i])) + show_tree(p));
      if (r.hub.node[i]->IsHaltRequested()) sim::fail("reset:halt-flag", sim::format("instruction %zu still has its halt flag after the reset\n", i) + show_tree(p));
    }
    auto& ws = r.proc->GetWorkspace();
    for (int k = 0; k < 4; ++k) {
      dto::AnyValue v;
      long x = -1;
      std::string name = "v" + std::to_string(k);
      if (!ws.HasVariable(name)) continue;
      if (!ws.GetValue(name, v) || !v.As(x) || x != k) sim::fail("reset:variable", sim::format("variable %s is %ld after the reset instead of its initial value %d\n", name.c_str(), x, k) + show_tree(p));
    }
    r.hub.restart();
  }
  sim::faults_off();
  size_t from;
  { Quiet z; from = r.log.size(); }
  r.command(START);
  bool done = r.wait_state({4, 5, 6}, kEnd, 1000000000ull);
  sim::faults_off();
  sim::sleep_ns(10000000000ull);
  Quiet z;
  Model m(p);
  auto c = compare_run(r, m, from, done);
  if (!c.cls.empty()) sim::fail("reset:" + c.cls, "after the reset the procedure is not executed like a new one: " + c.msg + show_tree(p) + r.show(c.at, from));
  if (!done) sim::fail("reset:does-not-end", "the procedure does not end after a reset\n" + show_tree(p) + r.show(r.log.size(), from));
  if (r.obs.state != want_state(m)) sim::fail("reset:job-state", sim::format("the job ends as %s, the root instruction as %s\n", jname(r.obs.state), sname(m.at(0).st)) + show_tree(p));
}
sim::Reg r11({"C11",
  "one job with a random sequential procedure with variables is run, stepped, paused and halted in the middle of things, reset once or twice, checked to be as new (statuses, halt flags, variables), and then run to its end; that run is compared with the reference interpreter started from scratch",
  "execution steps had been done before the reset",
  gen11, run11,
  {"LocalJob, AsyncRunner, Runner, BreakpointManager, JobCommandQueue, JobInterfaceAdapter, Procedure, Workspace, LocalVariable, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {"rounds"}, [](Prog& p) { Quiet z; fix_ending_tree(p); if (p.th.empty()) p.th.resize(1); if (p.get("bp", -1) >= static_cast<long>(p.tree.size())) p.p["bp"] = -1; }, rig::prepare});
}  // namespace
