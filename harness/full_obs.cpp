// C12: exclusive execution and lasting control.  C15: what observers know in the end.  C16: the life of instructions.
#include "anytree.h"
#include "jobrig.h"

#include <sup/oac-tree/variable_info.h>

using namespace rig;

namespace par14 { void gen(Prog& p, Rng& r); void run(const Prog& p); void fix(Prog& p); }   // C14
namespace
{
constexpr u64 s1 = 1000000000ull;
constexpr u64 kBound = 40 * s1;

void gen_clients(Prog& p, Rng& r, int max_clients)
{
  int nt = r.range(1, max_clients);
  p.th.resize(static_cast<size_t>(nt));
  int n = r.range(2, 14);
  int bp = r.range(0, 3);
  for (int i = 0; i < n; ++i) {
    Op op;
    int d = r.range(0, 99);
    op.code = d < 33 ? START : d < 52 ? STEP : d < 66 ? PAUSE : d < 71 ? HALT : d < 81 ? RESET : d < 92 ? SETBP : REMBP;
    const bool first = i == 0 && r.chance(5, 6);
    if (first) op.code = START;
    if (bp == 0 && op.code >= SETBP) op.code = START;
    if (bp == 2 && r.chance(1, 3)) op.code = r.chance(2, 3) ? SETBP : REMBP;
    op.a[0] = delay(r);
    if (bp == 3 && i) { op.code = r.chance(1, 2) ? SETBP : REMBP; op.a[0] = 0; op.a[1] = r.chance(9, 10) ? 0 : 1; p.th[r.below(static_cast<sim::u32>(nt))].push_back(op); continue; }
    if (first) op.a[0] = 0;
    op.a[1] = bp == 2 ? r.range(0, 3) : r.range(0, static_cast<int>(p.tree.size()));
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(op);
  }
}
void gen12(Prog& p, Rng& r) { gen_any(p, r); gen_clients(p, r, 3); p.p["again"] = r.range(0, 1); }
void gen15(Prog& p, Rng& r)
{
  gen_any(p, r);
  if (r.chance(1, 2)) for (auto& n : p.tree) if (n.kind == PROBE && n.a[2] == BLOCK) { n.a[2] = SLEEP; n.a[3] = r.range(1, 400); }
  fix_endless(p);
  gen_clients(p, r, 3);
  p.p["vars"] = 1;
  if (r.chance(1, 3)) { p.p["free"] = 1; for (auto& n : p.tree) if ((n.kind == COPY || n.kind == RESETVAR) && r.chance(2, 3)) n.a[5] = 3; else if ((n.kind == INCR || n.kind == EQUALS || n.kind == SUCCEED) && r.chance(1, 2)) { n.kind = r.chance(2, 3) ? COPY : RESETVAR; n.a[5] = 3; } }
  p.p["final"] = r.range(0, 2);
}
void fix(Prog& p) { Quiet z; fix_endless(p); if (p.th.empty()) p.th.resize(1); }
void run_clients(JobRig& r, const Prog& p)
{
  Threads th;
  for (size_t t = 0; t < p.th.size(); ++t)
    th.Start([&, t] {
      for (auto& o : p.th[t]) {
        pause_for(o.a[0]);
        r.command(o.code % N_CMD, static_cast<int>(o.a[1]));
      }
    });
  th.Join();
}
void commands(JobRig& r)
{
  Quiet z;
  for (auto& e : r.log) if (e.t == Item::CALL) { static const char* n[] = {"commands_start", "commands_step", "commands_pause", "commands_reset", "commands_halt", "breakpoints_set", "breakpoints_removed"}; sim::count(n[e.a]); }
}

// ---- C12 ----------------------------------------------------------------------------------------
// A running job goes on from one execution step to the next, unless a leaf it executes itself takes so long.
void still_ticking(JobRig& r, const Prog& p)
{
  for (auto& n : p.tree) if (n.kind == LISTEN || (n.kind == WAIT && n.a[0] > 20000)) return;
  sim::sleep_ns(20 * s1);
  u64 t0;
  { Quiet z; t0 = r.n_ticks; if (r.obs.state != 3) return; }
  sim::sleep_ns(kBound);
  Quiet z;
  if (r.obs.state != 3 || r.n_ticks != t0) { sim::count("seen_ticking"); return; }
  int job = -1, busy = -1;
  for (auto& e : r.log) {
    if (e.t == Item::STATE && e.a == 3) job = e.c;
    if (e.t == Item::LEAF && e.b == job) busy = e.a;
    if (e.t == Item::LEAFEND && e.b == job) busy = -1;
  }
  if (busy < 0) sim::fail("control:stuck", sim::format("the job is running, but for %.0f s there has been no execution step, and no leaf is being executed by it\n", static_cast<double>(kBound) / 1e9) + show_tree(p) + r.show(r.log.size(), r.log.size() > 60 ? r.log.size() - 60 : 0));
  sim::count("seen_busy_with_a_leaf");
}
void run12(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(40000 * s1);
  auto* r = new JobRig(p, static_cast<int>(p.get("user")));
  run_clients(*r, p);
  sim::faults_off();
  { Quiet z; if (p.get("f.thr") ? sim::faults_seen(sim::K_THREADFAIL) != 0 : r->n_leaf != 0) sim::nontrivial(); }
  still_ticking(*r, p);
  // whatever has happened, the job still does what it is told
  for (int round = 0; round < 1 + static_cast<int>(p.get("again")); ++round) {
    // commands given before may still be waiting behind the one that is being carried out
    auto repeat = [&](int cmd, std::function<bool(int)> reached, const char* cls) {
      for (int k = 0; k < 18; ++k) {
        sim::sleep_ns(10 * s1);
        if (reached(r->state())) return;
        size_t n0;
        { Quiet z; n0 = r->log.size(); }
        r->command(cmd);
        if (!wait_until([&] { for (size_t i = n0; i < r->log.size(); ++i) if (r->log[i].t == Item::STATE) return true; return false; }, kBound)) break;
      }
      sim::sleep_ns(10 * s1);
      if (!reached(r->state())) { Quiet z; sim::fail(cls, sim::format("the job is still %s %.0f s after %s()\n", jname(r->obs.state), static_cast<double>(kBound) / 1e9, cname[cmd]) + show_tree(p) + r->show(r->log.size(), r->log.size() > 60 ? r->log.size() - 60 : 0)); }
    };
    repeat(HALT, [](int s) { return s >= 4; }, "control:halt");
    repeat(RESET, [](int s) { return s == 0; }, "control:reset");
    {
      Quiet z;
      if (r->hub.executing) sim::fail("exclusive:executing-when-initial", "an instruction is being executed although the job has been reset\n" + show_tree(p) + r->show(r->log.size()));
      for (size_t i = 0; i < p.tree.size(); ++i)
        if (code(r->hub.node[i]->GetStatus()) != 0 || r->hub.node[i]->IsHaltRequested())
          sim::fail("control:not-reset", sim::format("instruction %zu is %s%s although the job has been reset\n", i, sname(code(r->hub.node[i]->GetStatus())), r->hub.node[i]->IsHaltRequested() ? " and halted" : "") + show_tree(p) + r->show(r->log.size()));
    }
    u64 t0;
    size_t n0;
    { Quiet z; n0 = r->log.size(); t0 = sim::now(); (void)t0; }
    r->command(START);
    auto started = [&] { for (size_t i = n0; i < r->log.size(); ++i) if (r->log[i].t == Item::STATE && r->log[i].a == 3) return true; return false; };
    if (!wait_until(started, kBound)) { Quiet z; sim::fail("control:start", sim::format("the job does not run %.0f s after being started\n", static_cast<double>(kBound) / 1e9) + show_tree(p) + r->show(r->log.size())); }
  }
  commands(*r);
  r->job.reset();
  Quiet z;
  if (r->hub.executing) sim::fail("exclusive:executing-when-destroyed", "an instruction is being executed although the job has been destroyed\n" + show_tree(p));
  delete r;
}
sim::Reg r12({"C12",
  "one job with a random procedure over all instruction kinds and one to three clients that give all commands and set and remove breakpoints at any time, with a user who answers, hesitates or is silent; every leaf checks that it is alone, and afterwards the job is halted, reset and started again",
  "a leaf was executed",
  gen12, run12,
  {"LocalJob, AsyncRunner, Runner, BreakpointManager, JobCommandQueue, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {}, fix, rig::prepare});

// ---- C26: failures to start a thread ------------------------------------------------------------
void gen26(Prog& p, Rng& r)
{
  if (r.chance(1, 3)) { par14::gen(p, r); p.p["ends"] = 1; }
  else gen12(p, r);
  static const long rate[] = {50000, 200000, 500000};
  p.p["f.thr"] = rate[r.below(3)];
}
void run26(const Prog& p) { if (p.get("ends")) par14::run(p); else run12(p); }
void fix26(Prog& p) { if (p.get("ends")) par14::fix(p); else fix(p); }
sim::Reg r26({"C26",
  "as C12, and the operating system often refuses to start a thread, when a job is created and when parallel and asynchronous children are started; afterwards, when threads can be started again, the job is halted, reset and started again. In a third of the runs, as C14: the procedure has to end as its thresholds say, however often threads were refused",
  "a thread could not be started (or, as C14, children were executed in parallel)",
  gen26, run26,
  {"LocalJob, AsyncRunner, Runner, BreakpointManager, JobCommandQueue, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "thread creation failures (injected)", "scheduler, clock, heap (simulated)"},
  {"f.thr", "ends"}, fix26, rig::prepare});

// ---- C15 ----------------------------------------------------------------------------------------
// Brings the job to rest.
void settle(JobRig& r, const Prog& p)
{
  sim::faults_off();
  sim::sleep_ns(30 * s1);
  const long fin = p.get("final");
  // commands may be waiting behind one that takes effect now
  for (int k = 0; k < 14 && (r.state() == 3 || r.state() == 2); ++k) {
    if (fin == 1 && k == 0) { r.command(PAUSE); r.wait_state({1, 4, 5, 6}, kBound); }
    if (r.state() == 3 || r.state() == 2) { r.command(HALT); r.wait_state({4, 5, 6}, kBound); }
    sim::sleep_ns(10 * s1);
  }
  if (fin == 2) { r.command(RESET); sim::sleep_ns(10 * s1); }
  sim::sleep_ns(20 * s1);
}
void run15(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(40000 * s1);
  auto* r = new JobRig(p, static_cast<int>(p.get("user")));
  run_clients(*r, p);
  settle(*r, p);
  {
    Quiet z;
    size_t ni = r->node_of.size();
    if (r->obs.n_instr != ni) sim::fail("observer:count", sim::format("the observer is told of %llu instructions, but there are %zu", static_cast<unsigned long long>(r->obs.n_instr), ni));
    std::vector<int> st(ni, 0), bp(ni, 0);
    std::map<int, std::pair<int, int>> var;
    int bps = 0;
    for (auto& e : r->log) {
      if (e.t == Item::INSTR) {
        if (e.a < 0 || e.a >= static_cast<int>(ni)) sim::fail("observer:index", sim::format("the observer is told of an instruction with index %d\n", e.a) + show_tree(p));
        st[static_cast<size_t>(e.a)] = e.b; bp[static_cast<size_t>(e.a)] = e.c;
        if (e.c) ++bps;
      }
      if (e.t == Item::VAR) var[e.a] = {e.b, e.c};
    }
    for (size_t i = 0; i < ni; ++i) {
      int now = code(r->hub.node[static_cast<size_t>(r->node_of[i])]->GetStatus());
      if (st[i] != now) sim::fail("observer:status", sim::format("instruction %d is %s, but the last report says %s\n", r->node_of[i], sname(now), sname(st[i])) + show_tree(p) + r->show(r->log.size()));
      // the last of the changes of this breakpoint, in any order that is compatible with their overlap
      struct Ch { u64 call, ret; bool set; };
      std::vector<Ch> ch;
      std::map<int, Ch> open;
      for (size_t k = 0; k < r->log.size(); ++k) {
        auto& e = r->log[k];
        if (e.t == Item::CALL && (e.a == SETBP || e.a == REMBP) && e.b == static_cast<int>(i)) open[e.c] = {k, 0, e.a == SETBP};
        if (e.t == Item::RET && (e.a == SETBP || e.a == REMBP) && e.b == static_cast<int>(i)) { Ch c = open[e.c]; c.ret = k; ch.push_back(c); }
      }
      bool can[2] = {ch.empty(), false};
      for (auto& c : ch) {
        bool last = true;
        for (auto& o : ch) if (o.call > c.ret) last = false;
        if (last) can[c.set ? 1 : 0] = true;
      }
      if (!can[bp[i]]) sim::fail("observer:breakpoint", sim::format("the breakpoint at instruction %d is %s, but the last report says that it is %s\n", r->node_of[i], bp[i] ? "not set" : "set", bp[i] ? "set" : "not set") + show_tree(p) + r->show(r->log.size()));
      // reports between two changes show what was set
      for (auto& c : ch) {
        u64 until = r->log.size();
        bool alone = true;
        for (auto& o : ch) { if (&o == &c) continue; if (o.call > c.ret) until = o.call < until ? o.call : until; else if (o.ret > c.call) alone = false; }
        if (!alone) continue;
        for (u64 k = c.ret; k < until; ++k) {
          auto& e = r->log[k];
          if (e.t == Item::INSTR && e.a == static_cast<int>(i) && (e.c != 0) != c.set)
            sim::fail("observer:breakpoint-stale", sim::format("instruction %d is reported %s breakpoint after its breakpoint has been %s\n", r->node_of[i], e.c ? "with a" : "without", c.set ? "set" : "removed") + show_tree(p) + r->show(k));
        }
      }
    }
    for (auto& v : r->job->GetInfo().GetWorkspaceInfo().GetVariableInfos()) {
      int idx = static_cast<int>(v.second.GetIndex());
      dto::AnyValue val;
      int x = -1;
      long k;
      bool ok = r->proc->GetVariableValue(v.first, val);
      if (ok && val.As(k)) x = static_cast<int>(k);
      if (!var.count(idx)) sim::fail("observer:variable-missing", "nothing was reported about variable " + v.first);
      if (var[idx].first != x || ((var[idx].second != 0) != ok && v.first != "free")) sim::fail("observer:variable", sim::format("variable %s has the value %d%s, but the last report says %d%s\n", v.first.c_str(), x, ok ? "" : " (unavailable)", var[idx].first, var[idx].second ? "" : " (unavailable)") + show_tree(p) + r->show(r->log.size()));
    }
    if (r->n_leaf || bps) sim::nontrivial();
    sim::count("reports", r->log.size());
    sim::count("reports_with_breakpoint", static_cast<u64>(bps));
    sim::count((std::string("rest_") + jname(r->obs.state)).c_str());
  }
  commands(*r);
  r->job.reset();
  Quiet z;
  delete r;
}
sim::Reg r15({"C15",
  "one job with a random procedure over all instruction kinds, with variables that it changes, and one to three clients that give all commands and set and remove breakpoints at any time; when all has come to rest the last reports are compared with the instructions, breakpoints and variables themselves",
  "a leaf was executed or a breakpoint was set",
  gen15, run15,
  {"LocalJob, AsyncRunner, Runner, BreakpointManager, JobInterfaceAdapter, JobMap, JobInfo, Procedure, Workspace, Variable, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {}, fix, rig::prepare});

// ---- C16 ----------------------------------------------------------------------------------------
void run16(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(40000 * s1);
  auto* r = new JobRig(p, static_cast<int>(p.get("user")));
  { Quiet z; r->track_halts = true; }
  run_clients(*r, p);
  settle(*r, p);
  {
    Quiet z;
    enum { NS, NF, RU, SU, FA };
    size_t n = p.tree.size();
    std::vector<int> st(n, NS), bp(n, 0), due(n, -1);
    std::vector<std::vector<int>> kids(n);
    for (size_t i = 0; i < n; ++i) if (p.tree[i].parent >= 0) kids[static_cast<size_t>(p.tree[i].parent)].push_back(static_cast<int>(i));
    u64 outputs = 0, messages = 0;
    static const int map[] = {SU, FA, RU, NF};
    auto count = [&](size_t i, int s) { int c = 0; for (int k : kids[i]) if (st[static_cast<size_t>(k)] == s) ++c; return c; };
    for (size_t k = 0; k < r->log.size(); ++k) {
      auto& e = r->log[k];
      auto bad = [&](const char* cls, const std::string& m) { sim::fail(cls, m + "\n" + show_tree(p) + r->show(k, k > 60 ? k - 60 : 0)); };
      if (e.t == Item::LEAF) {
        size_t i = static_cast<size_t>(e.a);
        if (due[i] >= 0 && due[i] != st[i]) bad("life:lost-result", sim::format("instruction %d returned %s, which was not reported before it is executed again", e.a, sname(due[i])));
        due[i] = -1;
        if (st[i] != NF && st[i] != RU) bad("life:executed", sim::format("instruction %d is executed while it is reported as %s", e.a, sname(st[i])));
        for (int a = p.tree[i].parent; a >= 0 && !e.halting; a = p.tree[static_cast<size_t>(a)].parent)
          if (st[static_cast<size_t>(a)] != NF && st[static_cast<size_t>(a)] != RU) bad("life:executed-under", sim::format("instruction %d is executed while instruction %d around it is reported as %s", e.a, a, sname(st[static_cast<size_t>(a)])));
      } else if (e.t == Item::LEAFEND) {
        due[static_cast<size_t>(e.a)] = map[e.res];
        for (int a = p.tree[static_cast<size_t>(e.a)].parent; a >= 0 && !e.halting; a = p.tree[static_cast<size_t>(a)].parent)
          if (st[static_cast<size_t>(a)] == SU || st[static_cast<size_t>(a)] == FA) bad("life:not-told", sim::format("instruction %d ends without having been told to stop although instruction %d around it is reported as %s", e.a, a, sname(st[static_cast<size_t>(a)])));
      } else if (e.t == Item::INSTR) {
        int node = r->node_of[static_cast<size_t>(e.a)];
        size_t i = static_cast<size_t>(node);
        int from = st[i], to = e.b;
        if (from == to) {
          if (e.c == bp[i]) bad("life:repeated", sim::format("instruction %d is reported as %s again", node, sname(to)));
          bp[i] = e.c;
          continue;
        }
        bp[i] = e.c;
        const int pkind = p.tree[i].kind;
        const bool asks = pkind == USERCHOICE || pkind == INPUT || pkind == CONFIRM;   // fail at once when halted before they can ask
        bool ok = to == NS || (from == NS ? to == NF || (asks && to == FA) : from == NF || from == RU);
        if (!ok) bad("life:transition", sim::format("instruction %d changes from %s to %s", node, sname(from), sname(to)));
        if (due[i] >= 0 && to != NS) { if (to != due[i]) bad("life:wrong-result", sim::format("instruction %d returned %s but is reported as %s", node, sname(due[i]), sname(to))); }
        if (to == NS && due[i] >= 0 && due[i] != from) bad("life:lost-result", sim::format("instruction %d returned %s, which was not reported before it was reset", node, sname(due[i])));
        due[i] = -1;
        int par = p.tree[i].parent;
        if (from == NS && par >= 0 && !e.halting) {
          size_t q = static_cast<size_t>(par);
          if (st[q] != NF && st[q] != RU) bad("life:started-under", sim::format("instruction %d starts while its parent %d is reported as %s", node, par, sname(st[q])));
          int pk = p.tree[q].kind, want = pk == SEQ || pk == RSEQ ? SU : pk == FALLBACK || pk == RFALLBACK ? FA : -1;
          if (want >= 0) for (int c : kids[q]) { if (c == node) break; if (st[static_cast<size_t>(c)] != want) bad("life:started-early", sim::format("instruction %d starts although its predecessor %d is reported as %s", node, c, sname(st[static_cast<size_t>(c)]))); }
        }
        if (to == NS && par >= 0) {}
        st[i] = to;
        if (to == SU || to == FA) {
          const int all = static_cast<int>(kids[i].size());
          int s = count(i, SU), f = count(i, FA);
          int kind = p.tree[i].kind;
          bool good = true;
          switch (kind) {
          case SEQ: case RSEQ: good = to == SU ? s == all : f >= 1; break;
          case FALLBACK: case RFALLBACK: good = to == FA ? f == all : s >= 1; break;
          case INVERT: good = to == SU ? f == 1 : s == 1; break;
          case FORCE: good = to == SU && s + f == 1; break;
          case ASYNC: good = to == SU ? s == 1 : f == 1; break;
          case REPEAT: good = (to == FA && e.halting) || (to == SU ? s == 1 || p.tree[i].a[0] == 0 : f == 1); break;
          case FOR: good = (to == FA && e.halting) || (to == SU ? s == 1 || (p.tree[i].a[0] & 3) == 0 : f == 1); break;
          default: break;
          }
          if (!good) bad("life:unjustified", sim::format("instruction %d is reported as %s although of its %d children %d have succeeded and %d have failed", node, sname(to), all, s, f));
          if (to == SU && kind == OUTPUT) ++outputs;
          if (to == SU && kind == MESSAGE) ++messages;
        }
      } else if (e.t == Item::STATE) {
        if (e.a == 4 && st[0] != SU) bad("life:job-succeeded", sim::format("the job has succeeded, but its root is reported as %s", sname(st[0])));
        if (e.a == 5 && st[0] != FA && !r->hub.node[0]->IsHaltRequested()) {}
        if (e.a == 0) for (size_t i = 0; i < n; ++i) if (st[i] != NS) bad("life:not-reset", sim::format("the job is back in its initial state, but instruction %zu is reported as %s", i, sname(st[i])));
        if ((e.a == 3 || e.a == 2 || e.a == 1 || e.a == 6) && (st[0] == SU || st[0] == FA)) bad("life:root-finished", sim::format("the job is announced as %s although its root is reported as %s", jname(e.a), sname(st[0])));
      }
    }
    for (size_t i = 0; i < n; ++i) if (due[i] >= 0 && due[i] != st[i]) sim::fail("life:lost-result", sim::format("instruction %zu returned %s, which was never reported\n", i, sname(due[i])) + show_tree(p) + r->show(r->log.size()));
    if (outputs != r->n_put) sim::fail("life:output", sim::format("%llu successes of output instructions, but %llu values were put out\n", static_cast<unsigned long long>(outputs), static_cast<unsigned long long>(r->n_put)) + show_tree(p));
    if (messages != r->n_msg) sim::fail("life:message", sim::format("%llu successes of message instructions, but there were %llu messages\n", static_cast<unsigned long long>(messages), static_cast<unsigned long long>(r->n_msg)) + show_tree(p));
    if (r->n_leaf >= 2) sim::nontrivial();
    sim::count("reports", r->log.size());
  }
  commands(*r);
  r->job.reset();
  Quiet z;
  delete r;
}
sim::Reg r16({"C16",
  "one job with a random procedure over all instruction kinds and one to three clients that give all commands and set and remove breakpoints at any time; every report about an instruction is checked against its previous ones, the executions of the leaves and the reports about its parent, siblings and children",
  "at least two leaves were executed",
  gen15, run16,
  {"LocalJob, AsyncRunner, Runner, JobInterfaceAdapter, JobMap, Procedure, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {}, fix, rig::prepare});
}  // namespace
