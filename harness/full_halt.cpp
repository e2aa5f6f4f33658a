// C07: Halt is effective in bounded time. C08: destruction of a job is bounded, final and safe.
#include "anytree.h"

using namespace rig;
using sup::oac_tree::LocalJob;

namespace
{
enum Cmd { START = 0, STEP, PAUSE, RESET, HALT, SETBP, REMBP };
const char* const cname[] = {"Start", "Step", "Pause", "Reset", "Halt", "SetBreakpoint", "RemoveBreakpoint"};
constexpr u64 kBound = 40000000000ull;  // stalls that are under way when faults stop last six seconds at most

void command(LocalJob& job, const Op& o)
{
  switch (o.code % 7) {
  case START: job.Start(); break;
  case STEP: job.Step(); break;
  case PAUSE: job.Pause(); break;
  case RESET: job.Reset(); break;
  case HALT: job.Halt(); break;
  case SETBP: job.SetBreakpoint(static_cast<u64>(o.a[1])); break;
  default: job.RemoveBreakpoint(static_cast<u64>(o.a[1])); break;
  }
}
void gen07(Prog& p, Rng& r)
{
  gen_any(p, r);
  p.th.resize(2);
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Op op;
    op.code = i == 0 || r.chance(1, 2) ? START : r.chance(1, 2) ? STEP : PAUSE;
    op.a[0] = i == 0 ? 0 : delay(r);
    p.th[0].push_back(op);
  }
  Op op;
  op.code = HALT;
  op.a[0] = delay(r);
  if (r.chance(1, 3)) { op.a[1] = 1; op.a[2] = r.range(1, 6); }  // at the start of a given leaf execution instead
  p.th[1].push_back(op);
  if (r.chance(1, 4)) { op.a[1] = 0; op.a[0] = delay(r); p.th[1].push_back(op); }
}
struct Run
{
  Hub hub;
  Observer obs;
  std::vector<u64> starts_after;
  u64 n_starts = 0;
  bool halted = false;
  bool stop_counting = false;
};
void run07(const Prog& p)
{
  sim::set_step_cap(1500000);
  sim::set_time_cap(40000000000000ull);
  auto* c = new Run;
  {
    Quiet z;
    c->hub.user = c;
    c->starts_after.assign(p.tree.size(), 0);
    c->obs.user_mode = static_cast<int>(p.get("user"));
    c->obs.salt = static_cast<u64>(p.get("answers"));
    c->hub.on_start = [](Hub& h, int i) {
      auto* r = static_cast<Run*>(h.user);
      ++r->n_starts;
      if (r->halted && !r->stop_counting && ++r->starts_after[static_cast<size_t>(i)] > 1)
        sim::fail("halt:keeps-executing", sim::format("instruction %d is started again and again after Halt() has returned\n", i) + show_tree(sim::prog()));
    };
  }
  std::unique_ptr<LocalJob> job = make_job(c->hub, c->obs, p);
  Threads th;
  th.Start([&] { for (auto& o : p.th[0]) { pause_for(o.a[0]); sim::trace("%s()", cname[o.code % 7]); command(*job, o); } });
  // wait for the first client's commands, except when the halt comes early
  bool early = p.get("pmaj") % 2 != 0;
  if (!early) th.Join();
  for (auto& o : p.th[1]) {
    if (o.a[1] == 1) wait_until([&] { return c->n_starts >= static_cast<u64>(o.a[2]); }, 3000000000ull, 1000000ull);
    else pause_for(o.a[0]);
    int st;
    { Quiet z; st = c->obs.state; }
    if (st == 3) { Quiet z; sim::count("halted_while_running"); sim::nontrivial(); }
    if (c->hub.executing) { Quiet z; sim::count("halted_while_a_leaf_was_executing"); }
    sim::trace("Halt()");
    job->Halt();
    sim::trace("Halt() returned");
  }
  th.Join();
  sim::faults_off();
  // commands given by the first client after the halt cannot start anything: the job needs a reset first
  { Quiet z; c->halted = true; }
  bool done = wait_until([&] { return c->obs.state >= 4 && c->hub.executing == 0; }, kBound);
  {
    Quiet z;
    if (!done)
      sim::fail(c->hub.executing ? "halt:leaf-keeps-running" : "halt:not-effective",
                sim::format("%.0f s after Halt() the job is still in state %s, with %llu instructions executing\n", static_cast<double>(kBound) / 1e9, jname(c->obs.state), static_cast<unsigned long long>(c->hub.executing)) + show_tree(p));
  }
  u64 n;
  int st;
  { Quiet z; n = c->n_starts; st = c->obs.state; }
  sim::sleep_ns(3000000000ull);
  {
    Quiet z;
    if (c->n_starts != n || c->obs.state != st) sim::fail("halt:executes-afterwards", "instructions are executed or the state changes after the job has been halted\n" + show_tree(p));
    sim::count((std::string("ended_") + jname(st)).c_str());
    c->stop_counting = true;
  }
  // a reset brings a halted job back
  job->Reset();
  bool init = wait_until([&] { return c->obs.state == 0; }, kBound);
  {
    Quiet z;
    if (!init) sim::fail("halt:no-reset", sim::format("a halted job does not become Initial after Reset(): its state is %s\n", jname(c->obs.state)) + show_tree(p));
    for (size_t i = 0; i < p.tree.size(); ++i) {
      if (code(c->hub.node[i]->GetStatus()) != 0) sim::fail("halt:reset-status", sim::format("instruction %zu is %s after a reset\n", i, sname(code(c->hub.node[i]->GetStatus()))) + show_tree(p));
      if (c->hub.node[i]->IsHaltRequested()) sim::fail("halt:flag-survives-reset", sim::format("instruction %zu still has its halt flag set after a reset\n", i) + show_tree(p));
    }
  }
  job.reset();
  delete c;
}
sim::Reg r07({"C07",
  "one job with a random procedure over all concurrent and blocking instruction kinds (endless repeats, blocking waits, leaf instructions that block until halted, unanswered user input, parallel and asynchronous children); it is halted at a random moment or exactly when a given leaf execution starts",
  "Halt() was called while the job was running",
  gen07, run07,
  {"LocalJob, AsyncRunner, Runner, JobCommandQueue, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix_endless(p); if (p.th.size() < 2) p.th.resize(2); if (p.th[1].empty()) { Op o; o.code = HALT; p.th[1].push_back(o); } }, rig::prepare});

// ---- C08 ------------------------------------------------------------------------------------------
void gen08(Prog& p, Rng& r)
{
  gen_any(p, r);
  p.th.resize(2);
  int n = r.range(0, 5);
  for (int i = 0; i < n; ++i) {
    Op op;
    op.code = i == 0 ? START : r.range(0, 6);
    op.a[0] = i == 0 ? 0 : delay(r);
    op.a[1] = r.range(0, static_cast<int>(p.tree.size()));
    p.th[0].push_back(op);
  }
  Op op;
  op.a[0] = delay(r);
  if (r.chance(1, 3)) { op.a[1] = 1; op.a[2] = r.range(1, 6); }
  p.th[1].push_back(op);
  p.p["move"] = r.range(0, 5) ? 0 : r.range(1, 2);
}
void run08(const Prog& p)
{
  sim::set_step_cap(1500000);
  sim::set_time_cap(40000000000000ull);
  auto* c = new Run;
  {
    Quiet z;
    c->hub.user = c;
    c->obs.user_mode = static_cast<int>(p.get("user"));
    c->obs.salt = static_cast<u64>(p.get("answers"));
    c->hub.on_start = [](Hub& h, int) { ++static_cast<Run*>(h.user)->n_starts; };
  }
  std::unique_ptr<LocalJob> job = make_job(c->hub, c->obs, p);
  c->obs.proc = nullptr;
  {
    Threads th;
    th.Start([&] { for (auto& o : p.th[0]) { pause_for(o.a[0]); sim::trace("%s()", cname[o.code % 7]); command(*job, o); } });
  }
  if (p.get("move") == 1) job.reset(new LocalJob(std::move(*job)));
  if (p.get("move") == 2) { LocalJob other(std::move(*job)); *job = std::move(other); }
  for (auto& o : p.th[1]) {
    if (o.a[1] == 1) wait_until([&] { return c->n_starts >= static_cast<u64>(o.a[2]); }, 3000000000ull, 1000000ull);
    else pause_for(o.a[0]);
  }
  {
    Quiet z;
    if (c->obs.state == 3) { sim::count("destroyed_while_running"); sim::nontrivial(); }
    if (c->hub.executing) { sim::count("destroyed_while_a_leaf_was_executing"); sim::nontrivial(); }
    if (c->obs.asked.size() > c->obs.interrupted.size()) sim::count("destroyed_after_user_was_asked");
  }
  sim::trace("the job is destroyed");
  sim::faults_off();
  u64 t0 = sim::now();
  job.reset();
  {
    Quiet z;
    sim::trace("the destructor returned");
    u64 dt = sim::now() - t0;
    if (dt > kBound) sim::fail("destroy:slow", sim::format("destroying the job took %.1f s of simulated time\n", static_cast<double>(dt) / 1e9) + show_tree(p));
    c->hub.dead = c->obs.dead = true;
    if (c->hub.executing) sim::fail("destroy:execution-after", "an instruction is still being executed after the job has been destroyed\n" + show_tree(p));
  }
  delete c;   // the observer goes with the job: any later use is a use after free
  sim::sleep_ns(2000000000ull);
  Quiet z;
  if (sim::live_threads()) sim::fail("destroy:thread-survives", sim::format("%d threads of the job are left after its destruction\n", sim::live_threads()) + show_tree(p));
}
sim::Reg r08({"C08",
  "one job with a random procedure over all instruction kinds; after a few commands it is destroyed at a random moment (in the middle of executing leaves, waits, parallel branches or unanswered user requests), with its observer right after it",
  "the job was running or a leaf was executing when the job was destroyed",
  gen08, run08,
  {"LocalJob, AsyncRunner, Runner, JobCommandQueue, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {"move"}, [](Prog& p) { Quiet z; fix_endless(p); if (p.th.size() < 2) p.th.resize(2); }, rig::prepare});
}  // namespace
