// C18 included instructions and procedures: procedures spread over several files.
#include "jobrig.h"

#include <exception>

using namespace rig;

namespace
{
constexpr u64 kEnd = 4000000000000ull;
int want_state(Model& m) { return m.at(0).st == Model::SU ? 4 : 5; }
void gen18(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  TreeOpts o;
  o.inner = {SEQ, SEQ, FALLBACK, REPEAT, INCLUDE, INCLUDE, INCLUDE, INCLUDE, INCPROC, INCPROC, INCPROC, INCPROC, INCPROC, INCPROC, INVERT, RSEQ, FOR, CHOICE, FORCE, LISTEN};
  o.leaf = {PROBE, PROBE, PROBE, INCR, INCR, COPY, COPY, EQUALS, RESETVAR, COPYFROM, COPYFROM, COPYTO, COPYTO, SUCCEED, FAIL_, OUTPUT, DECR, LESSEQ, ADDELEM, ADDMEMBER, MESSAGE};
  o.refs = 10;
  o.missing = 5;
  o.max_nodes = r.chance(1, 2) ? 12 : 20;
  o.min_nodes = 8;
  o.max_depth = 7;
  o.modes = 3;
  p.p["xml"] = 1;
  gen_tree(p, r, o);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 60) n.a[3] = r.range(1, 60);
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) { n.a[4] = r.range(0, 7); if (n.kind == INCPROC && n.a[0] == 0 && r.chance(2, 3)) n.a[0] = r.range(1, 3); }
  }
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  p.p["ph"] = r.chance(1, 3) ? 0 : r.range(1, 1000000);
  p.p["jobs"] = r.chance(1, 3) ? 2 : 1;
  if (r.chance(1, 5)) { p.p["broken"] = r.range(1, N_BROKEN - 1); p.p["bi"] = r.range(0, 7); }
  fix_ending_tree(p);
  p.th.resize(static_cast<size_t>(p.get("jobs")));
  for (auto& t : p.th) {
    int n = r.chance(1, 2) ? 0 : r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      Op x;
      int d = r.range(0, 5);
      x.code = i == 0 ? START : d < 2 ? START : d < 3 ? STEP : d < 4 ? PAUSE : HALT;
      x.a[0] = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 300) : -r.range(1, 40);
      t.push_back(x);
    }
  }
}
long value_of(Workspace& ws, int k)
{
  dto::AnyValue v;
  long x = -1;
  if (!ws.GetValue("v" + std::to_string(k), v) || !v.As(x)) return -999;
  return x;
}
std::string files(const Prog& p) { return show_tree(p) + XmlFiles(p).show(); }
// Variables of the main file and of the included procedures
void check_vars(const Prog& p, JobRig& r, Model& m, const char* when)
{
  bool sub[4] = {true, false, false, false};
  for (auto& n : p.tree) { if (n.kind == INCPROC) sub[n.a[0] & 3] = true; if (n.kind == COPYFROM || n.kind == COPYTO) sub[n.a[2] & 3] = true; }
  for (int f = 0; f < 4; ++f) {
    if (!sub[f]) continue;
    auto& ws = r.proc->GetContext().GetWorkspace(XmlFiles::name(f));
    if (f && &ws == &r.proc->GetWorkspace()) sim::fail("include:shared-workspace", "an included procedure has the workspace of the main procedure\n" + files(p));
    for (int k = 0; k < 4; ++k) {
      long x = value_of(ws, k), w = m.vars(f)[k];
      if (x != w) sim::fail(f ? "include:variable-included" : "include:variable-main", sim::format("variable v%d of file %d is %ld %s instead of %ld\n", k, f, x, when, w) + files(p));
      if (f) sim::count("variables_of_included_procedures_compared");
    }
  }
}
void drive(const Prog& p, JobRig& r, const std::vector<Op>& ops)
{
  for (auto& o : ops) {
    pause_for(o.a[0]);
    r.command(o.code % 5);
  }
  if (!ops.empty()) {
    sim::sleep_ns(10000000000ull);
    for (int k = 0; k < 6 && r.state() < 4; ++k) { r.command(HALT); sim::sleep_ns(20000000000ull); }
    { Quiet z; if (r.obs.state < 4) sim::fail("include:not-finished", "the job is not finished long after Halt()\n" + files(p) + r.show(r.log.size())); }
    r.command(RESET);
    bool init = r.wait_state({0});
    sim::sleep_ns(10000000000ull);
    Quiet z;
    if (!init) sim::fail("include:reset-ignored", "the job does not become Initial after Reset()\n" + files(p) + r.show(r.log.size()));
    Model m(p);
    check_vars(p, r, m, "after the reset");
    r.hub.restart();
  }
  size_t from;
  { Quiet z; from = r.log.size(); }
  r.command(START);
  bool done = r.wait_state({4, 5, 6}, kEnd, 1000000000ull);
  sim::faults_off();
  sim::sleep_ns(10000000000ull);
  Quiet z;
  Model m(p);
  auto c = compare_run(r, m, from, done);
  if (!c.cls.empty()) sim::fail("include:" + c.cls, "a procedure with included parts is not executed like one with these parts in their place: " + c.msg + files(p) + r.show(c.at, from));
  if (!done) sim::fail("include:does-not-end", "the procedure does not end\n" + files(p) + r.show(r.log.size(), from));
  if (r.obs.state != want_state(m)) sim::fail("include:job-state", sim::format("the job ends as %s, the root instruction as %s\n", jname(r.obs.state), sname(m.at(0).st)) + files(p));
  check_vars(p, r, m, "at the end");
  sim::count("executions_compared");
}
void run18(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(80000000000000ull);
  size_t jobs = static_cast<size_t>(p.get("jobs", 1));
  bool intact = true;
  if (p.get("broken")) {
    Hub h;
    Observer o;
    bool thrown = false;
    int live = sim::live_threads();
    {
      Quiet z;
      XmlFiles f(p, static_cast<int>(p.get("broken")));
      intact = f.ok;
      if (!intact) f.write();
      h.files_written = true;
    }
    if (!intact) {
      try { auto j = make_job(h, o, p); }
      catch (const std::exception& e) { Quiet z; thrown = true; sim::trace("creation refused: %s", e.what()); }
      Quiet z;
      if (!thrown) sim::fail("include:broken-accepted", sim::format("a job was created although an including instruction cannot be set up (kind %ld)\n", p.get("broken")) + XmlFiles(p, static_cast<int>(p.get("broken"))).show());
      if (sim::live_threads() != live) sim::fail("include:threads-left", "the creation of a job failed, but one of its threads still exists\n" + files(p));
      for (auto& s : h.ps) if (s.runs) sim::fail("include:broken-executed", "an instruction was executed although the creation of the job failed\n" + files(p));
      for (auto& e : o.ev) if (e.t == Ev::STATE && e.a > 0) sim::fail("include:broken-started", "a job that could not be created reports a state\n" + files(p));
      sim::count("broken_files_refused");
    }
  }
  std::vector<std::unique_ptr<JobRig>> r;
  for (size_t k = 0; k < jobs; ++k) { std::unique_ptr<JobRig> j(new JobRig(p)); Quiet z; r.push_back(std::move(j)); }
  {
    // another job of the process does not need the files any more
    Quiet z;
    for (int f = 0; f < 4; ++f) ::unlink(XmlFiles::name(f).c_str());
    int incs = 0;
    for (auto& n : p.tree) if (n.kind == INCLUDE || n.kind == INCPROC) ++incs;
    if (incs) sim::nontrivial();
    sim::count("including_instructions", static_cast<u64>(incs));
    XmlFiles f(p);
    size_t deep = 0;
    for (auto& o : f.over) deep = std::max(deep, o.size());
    if (deep > 1) sim::count("nested_including_instructions", deep);
    u64 ph = 0;
    for (auto& e : f.extra) ph += e.size();
    sim::count("placeholder_attributes", ph);
    if (jobs > 1) sim::count("two_jobs_of_the_same_files");
  }
  if (jobs == 1) drive(p, *r[0], p.th.empty() ? std::vector<Op>() : p.th[0]);
  else {
    hx::Threads t;
    for (size_t k = 0; k < jobs; ++k) t.Start([&p, &r, k] { drive(p, *r[k], k < p.th.size() ? p.th[k] : std::vector<Op>()); });
    t.Join();
  }
  r.clear();
}
void fix18(Prog& p)
{
  Quiet z;
  p.p["xml"] = 1;
  fix_ending_tree(p);
  if (p.get("jobs") < 1 || p.get("jobs") > 2) p.p["jobs"] = 1;
}
sim::Reg r18({"C18",
  "a random procedure spread over up to four files (instructions included from the same and from other files, nested, with placeholder attributes; procedures included with their own workspace; copies between workspaces) is loaded, run, stopped, reset and run to its end, in one job or two at once; executions, statuses and all variables are compared with the reference interpreter, which knows no files; creation from broken files must fail cleanly",
  "at least one including instruction",
  gen18, run18,
  {"LocalJob, AsyncRunner, Runner, procedure parser, ProcedureStore, ProcedureContext, Include, IncludeProcedure, CopyFromProcedure, CopyToProcedure, Workspace, LocalVariable, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {"xml", "jobs"}, fix18, rig::prepare});
}  // namespace
