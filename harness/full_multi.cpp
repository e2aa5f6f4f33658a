// C29 several jobs in one process.
#include "jobrig.h"

#include <exception>

using namespace rig;

namespace
{
constexpr u64 kEnd = 4000000000000ull;
constexpr int RENEW = 7;   // destroy the job and create another one
// With questions, how often a status is reported depends on when the user answers.
void plain(Prog& p)
{
  for (auto& n : p.tree) {
    if (n.kind == INPUT) n.a[2] = 0;
    if (p.get("ask")) { if (n.kind == RSEQ) n.kind = SEQ; if (n.kind == RFALLBACK) n.kind = FALLBACK; if (n.kind == LISTEN) n.kind = FORCE; }
    else { if (n.kind == INPUT || n.kind == CONFIRM) n.kind = SUCCEED; if (n.kind == USERCHOICE) n.kind = SEQ; }
  }
  if (p.get("ask") && p.get("tick") < 20) p.p["tick"] = 20;
}
void sequential(Prog& p, Rng& r, bool files, int max_nodes)
{
  TreeOpts o;
  o.inner = {SEQ, FALLBACK, SEQ, REPEAT, INVERT, FORCE, RSEQ, RFALLBACK, FOR, CHOICE, LISTEN};
  o.leaf = {PROBE, PROBE, PROBE, PROBE, PROBE, INCR, INCR, COPY, COPY, EQUALS, RESETVAR, SUCCEED, FAIL_, OUTPUT, MESSAGE};
  if (p.get("ask")) {
    o.inner = {SEQ, FALLBACK, SEQ, REPEAT, INVERT, FORCE, FOR, CHOICE, USERCHOICE, USERCHOICE};
    for (int k : {INPUT, INPUT, INPUT, CONFIRM, CONFIRM, INPUT, CONFIRM}) o.leaf.push_back(k);
  }
  if (files) { for (int k = 0; k < 3; ++k) { o.inner.push_back(INCLUDE); o.inner.push_back(INCPROC); } o.leaf.push_back(COPYFROM); o.leaf.push_back(COPYTO); }
  o.missing = 5;
  o.max_nodes = max_nodes;
  o.min_nodes = 3;
  o.max_depth = 5;
  o.modes = 3;
  gen_tree(p, r, o);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 60) n.a[3] = r.range(1, 60);
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) n.a[4] = r.range(0, 7);
  }
  plain(p);
  fix_ending_tree(p);
}
void gen29(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  p.p["f.thr"] = 0;
  bool files = r.chance(1, 2);
  p.p["ask"] = r.chance(1, 3) ? 1 : 0;
  p.p["user"] = r.range(0, 1);
  p.p["answers"] = r.range(0, 1000000);
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  if (files) { p.p["xml"] = 1; p.p["ph"] = r.chance(1, 2) ? 0 : r.range(1, 1000000); }
  p.p["loud"] = 1;
  p.p["vars"] = 1;
  p.p["voff"] = r.chance(1, 2) ? 0 : r.range(1, 9);
  int nt = r.range(2, 3);
  if (!files && r.chance(2, 3)) p.p["other"] = r.range(1, 1000000000);
  sequential(p, r, files, r.chance(1, 2) ? 7 : 14);
  p.th.resize(static_cast<size_t>(nt));
  for (auto& t : p.th) {
    int n = r.range(0, 5);
    for (int i = 0; i < n; ++i) {
      Op x;
      int d = r.range(0, 9);
      x.code = i == 0 && r.chance(2, 3) ? static_cast<int>(START) : d < 3 ? START : d < 4 ? STEP : d < 5 ? PAUSE : d < 7 ? HALT : d < 8 ? RESET : RENEW;
      x.a[0] = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 300) : -r.range(1, 40);
      t.push_back(x);
    }
  }
}
void check_vars(const Prog& p, JobRig& r, Model& m, const char* when)
{
  bool sub[4] = {true, false, false, false};
  for (auto& n : p.tree) { if (n.kind == INCPROC) sub[n.a[0] & 3] = true; if (n.kind == COPYFROM || n.kind == COPYTO) sub[n.a[2] & 3] = true; }
  for (int f = 0; f < 4; ++f) {
    if (!sub[f]) continue;
    auto& ws = f ? r.proc->GetContext().GetWorkspace(XmlFiles::name(f)) : r.proc->GetWorkspace();
    for (int k = 0; k < 4; ++k) {
      dto::AnyValue v;
      long x = -1;
      if (!ws.GetValue("v" + std::to_string(k), v) || !v.As(x)) x = -999;
      if (x != m.vars(f)[k]) sim::fail("jobs:variable", sim::format("variable v%d of file %d is %ld %s instead of %d\n", k, f, x, when, static_cast<int>(m.vars(f)[k])) + show_tree(p));
    }
  }
}
void reset(const Prog& p, JobRig& r)
{
  for (int k = 0; k < 8 && (k == 0 || r.state() < 4); ++k) { r.command(HALT); sim::sleep_ns(20000000000ull); }
  { Quiet z; if (r.obs.state < 4) sim::fail("jobs:not-finished", "the job is not finished long after Halt()\n" + show_tree(p) + r.show(r.log.size())); }
  r.command(RESET);
  bool init = r.wait_state({0});
  Quiet z;
  if (!init) sim::fail("jobs:reset-ignored", "the job does not become Initial after Reset()\n" + show_tree(p) + r.show(r.log.size()));
  Model m(p);
  check_vars(p, r, m, "after the reset");
  r.hub.restart();
}
// The answers the user gave to this job, in the order of the questions.
struct Answers : Model::Env
{
  Model& m;
  std::vector<std::pair<int, int>> given;
  size_t asked = 0;
  std::string wrong;
  Answers(Model& x, const JobRig& r, size_t from) : m(x) { m.env = this; for (size_t k = from; k < r.obs.ev.size(); ++k) if (r.obs.ev[k].t == Ev::ANSWER) given.emplace_back(r.obs.ev[k].c, r.obs.ev[k].b); }
  ~Answers() override { m.env = nullptr; }
  int ask(int i) override
  {
    size_t k = asked++;
    const bool input = m.at(i).kind == INPUT;
    if (k >= given.size() || given[k].first != i) { if (wrong.empty()) wrong = sim::format("question %zu should be the one of instruction %d\n", k, i); return input ? static_cast<int>(Model::FA) : -1; }
    if (!input) return given[k].second;
    if (given[k].second < 0) return Model::FA;
    m.put(m.at(i).ws, static_cast<int>(m.at(i).a[0] & 3), given[k].second);
    return Model::SU;
  }
};
// Leaf executions and ends of instructions only.
Compare compare_coarse(JobRig& r, Model& m, size_t from, size_t ev_from)
{
  Answers a(m, r, ev_from);
  for (int k = 0; k < 400 && !Model::fin(m.at(0).st); ++k) m.exec(0);
  if (!Model::fin(m.at(0).st)) return {};
  std::vector<std::pair<int, int>> want, got;
  std::vector<size_t> at;
  for (auto& e : m.ev) if (Model::fin(e.second)) want.push_back(e);
  size_t runs = 0;
  for (size_t i = from; i < r.log.size(); ++i) {
    auto& e = r.log[i];
    if (e.t == Item::LEAF) {
      if (runs >= m.runs.size() || m.runs[runs] != e.a) return {"wrong-execution", sim::format("instruction %d is executed where it should not be\n", e.a), i};
      ++runs;
    }
    if (e.t == Item::INSTR && Model::fin(e.b)) { got.emplace_back(r.node_of[static_cast<size_t>(e.a)], e.b); at.push_back(i); }
  }
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    if (i >= got.size()) return {"incomplete", sim::format("instruction %d should become %s\n", want[i].first, sname(want[i].second)), r.log.size()};
    if (i >= want.size() || got[i] != want[i]) return {"wrong-status", sim::format("instruction %d is reported as %s where it should not be\n", got[i].first, sname(got[i].second)), at[i]};
  }
  if (!a.wrong.empty() || a.asked != a.given.size()) return {"question", a.wrong + "the user was not asked what he should have been\n", r.log.size()};
  sim::count("questions_compared", a.asked);
  return {};
}
void life(const Prog& p, const std::vector<Op>& ops, size_t& pos, int who)
{
  std::unique_ptr<JobRig> r;
  sim::trace("client %d creates a job", who);
  std::unique_ptr<JobRig> fresh(new JobRig(p, p.get("ask") ? static_cast<int>(p.get("user")) : 0));
  { Quiet z; r = std::move(fresh); sim::count("jobs_created"); }
  bool any = false;
  for (; pos < ops.size() && ops[pos].code != RENEW; ++pos) {
    pause_for(ops[pos].a[0]);
    // Reset is given in a finished state only: then all earlier commands have been handled when it takes effect
    if (ops[pos].code % 5 == RESET) reset(p, *r);
    else r->command(ops[pos].code % 5);
    any = true;
  }
  if (pos < ops.size()) {   // destroyed at this moment
    pause_for(ops[pos].a[0]);
    ++pos;
    { Quiet z; sim::trace("client %d destroys its job", who); if (r->obs.state == 3) sim::count("destroyed_while_running"); r->obs.proc = nullptr; }
    r->job.reset();
    Quiet z;
    if (r->hub.executing) sim::fail("jobs:execution-after", "an instruction is still executed after its job has been destroyed\n" + show_tree(p));
    r.reset();
    return;
  }
  if (any) reset(p, *r);
  size_t from;
  size_t ev_from;
  { Quiet z; from = r->log.size(); ev_from = r->obs.ev.size(); }
  r->command(START);
  bool done = r->wait_state({4, 5, 6}, kEnd, 1000000000ull);
  sim::sleep_ns(20000000000ull);
  {
    Quiet z;
    Model m(p);
    auto c = p.get("ask") && done ? compare_coarse(*r, m, from, ev_from) : p.get("ask") ? Compare{} : compare_run(*r, m, from, done);
    if (!c.cls.empty()) sim::fail("jobs:" + c.cls, sim::format("job %d is not executed as it would be alone: ", who) + c.msg + show_tree(p) + r->show(c.at, from));
    if (!done) sim::fail("jobs:does-not-end", "the procedure does not end\n" + show_tree(p) + r->show(r->log.size(), from));
    int want = m.at(0).st == Model::SU ? 4 : 5;
    if (r->obs.state != want) sim::fail("jobs:job-state", sim::format("the job ends as %s, the root instruction as %s\n", jname(r->obs.state), sname(m.at(0).st)) + show_tree(p));
    check_vars(p, *r, m, "at the end");
    sim::count("executions_compared");
    sim::nontrivial();
  }
  { Quiet z; r->obs.proc = nullptr; }
  r->job.reset();
  Quiet z;
  r.reset();
}
void run29(const Prog& p)
{
  sim::set_step_cap(4000000);
  sim::set_time_cap(80000000000000ull);
  std::vector<Prog> ps;
  {
    Quiet z;
    for (size_t k = 0; k < p.th.size(); ++k) {
      ps.push_back(p);
      if (k && p.get("other")) { Prog& q = ps.back(); q.tree.clear(); Rng rr(static_cast<u64>(p.get("other")) + k); q.p["voff"] = static_cast<long>((static_cast<u64>(p.get("other")) + 3 * k) % 7 * 10); sequential(q, rr, false, 8); }
    }
    if (p.get("xml")) XmlFiles(p).write();
  }
  {
    hx::Threads t;
    for (size_t k = 0; k < p.th.size(); ++k) t.Start([&ps, &p, k] { size_t pos = 0; do life(ps[k], p.th[k], pos, static_cast<int>(k)); while (pos < p.th[k].size()); });
    t.Join();
  }
  Quiet z;
  if (sim::live_threads()) sim::fail("jobs:threads-left", sim::format("%d threads are left after all jobs have been destroyed\n", sim::live_threads()));
  ps.clear();
}
void fix29(Prog& p)
{
  Quiet z;
  p.p["f.thr"] = 0;
  plain(p);
  fix_ending_tree(p);
  if (p.th.empty()) p.th.resize(1);
  if (p.th.size() > 4) p.th.resize(4);
}
sim::Reg r29({"C29",
  "two or three clients, each with jobs of its own, in one process: jobs of random sequential procedures (the same or different ones, from the same files or from none) are created, run, stopped, reset, run to their end and destroyed at the same time; each must behave as the reference interpreter says it does alone",
  "an execution was compared",
  gen29, run29,
  {"LocalJob, AsyncRunner, Runner, procedure parser, instruction and variable registries, ProcedureStore, Procedure, Workspace, all sequential instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real variable instructions)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {"xml", "other", "ask"}, fix29, rig::prepare});
}  // namespace
