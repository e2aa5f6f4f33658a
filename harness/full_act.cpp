// C30 global set-up and tear-down actions of workspaces.
#include "jobrig.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/setup_teardown_actions.h>
#include <sup/oac-tree/variable.h>

#include <exception>
#include <map>
#include <set>

using namespace rig;

namespace
{
using sup::oac_tree::SetupTeardownActions;
using sup::oac_tree::Variable;
constexpr int kRes = 5;
constexpr u64 kEnd = 4000000000000ull;
enum Phase { CREATE, LIVE, RESETTING, DESTROY };
const char* const phname[] = {"being created", "live", "being reset", "being destroyed"};
struct Space
{
  int job = 0, file = 0;
  bool up[kRes] = {};
  std::set<char> active;
  bool renewed[kRes] = {};  // set up again by the reset
  bool failing = false;     // the set-up of a variable failed
  bool may_be_last = false; // ... or the job did
  int resetting_var = -1;   // the ResetVariable instruction has torn down a variable
};
// What variables and their actions report, and what that must look like.
struct Recorder
{
  const Prog& p;
  std::map<const Workspace*, Space> ws;
  int creating = 0;
  std::vector<Phase> phase;
  std::string log;
  int fail_at = -1;         // index of the variable whose set-up fails (once)
  std::map<const Hub*, int> job_of;
  void (*old_start)(Hub&, int) = nullptr;
  explicit Recorder(const Prog& prog) : p(prog) {}
  XmlFiles::Res var(const Space& s, int k) const { return XmlFiles::res_var(p, s.file, k); }
  bool has(const Space& s, char id, bool setup) const
  {
    for (int k = 0; k < kRes; ++k) { auto r = var(s, k); if (r.used && r.id == id && (setup ? r.setup : r.teardown)) return true; }
    return false;
  }
  bool all_up(const Space& s) const { for (int k = 0; k < kRes; ++k) if (var(s, k).used && !s.up[k]) return false; return true; }
  void note(const Space& s, const std::string& what)
  {
    std::string l = sim::format("%9.3fs job %d file %d (%s): ", static_cast<double>(sim::now() - 1000000000ull) / 1e9, s.job, s.file, phname[phase[static_cast<size_t>(s.job)]]) + what + "\n";
    sim::trace("job %d file %d: %s", s.job, s.file, what.c_str());
    log += "    " + l;
    sim::bump();
  }
  void bad(const char* cls, const std::string& msg)
  {
    std::string l = log.size() > 3000 ? "    ...\n" + log.substr(log.size() - 3000) : log;
    sim::fail(cls, msg + "\n" + l + show_tree(p) + XmlFiles(p).show());
  }
  Phase ph(const Space& s) const { return phase[static_cast<size_t>(s.job)]; }
  Space& space(const Workspace* w, int file)
  {
    auto it = ws.find(w);
    if (it == ws.end()) {
      for (auto& o : ws) if (o.second.job == creating && o.second.file == file) { note(o.second, "another workspace"); bad("actions:two-workspaces", "a job has two workspaces for the same file"); }
      if (phase[static_cast<size_t>(creating)] != CREATE) bad("actions:late-workspace", sim::format("a workspace (file %d) is set up that was not when the job was created", file));
      Space s; s.job = creating; s.file = file;
      it = ws.emplace(w, s).first;
    }
    return it->second;
  }
  void setup_var(const Workspace* w, int file, int k)
  {
    Space& s = space(w, file);
    note(s, sim::format("set-up of variable %d", k));
    if (s.up[k]) bad("actions:set-up-twice", sim::format("variable %d of file %d is set up twice", k, file));
    const bool again = s.resetting_var == k;
    if (again) s.resetting_var = -1;
    settled(s);
    if (again) { s.up[k] = true; return; }
    if (ph(s) == LIVE) { bad("actions:set-up-live", sim::format("variable %d of file %d is set up while the job is not created or reset", k, file)); }
    else if (ph(s) == DESTROY) bad("actions:set-up-destroy", "a variable is set up while the job is destroyed");
    else if (!s.active.empty()) bad("actions:set-up-late", sim::format("variable %d of file %d is set up after the set-up actions of its workspace", k, file));
    s.up[k] = true;
    s.renewed[k] = true;
    sim::count("variables_set_up");
    if (all_up(s) && ph(s) != LIVE) for (int j = 0; j < kRes; ++j) { auto r = var(s, j); if (r.used && r.id && !has(s, r.id, true)) s.active.insert(r.id); }
  }
  void teardown_var(const Workspace* w, int file, int k)
  {
    Space& s = space(w, file);
    note(s, sim::format("tear-down of variable %d", k));
    settled(s);
    if (ph(s) == LIVE && k != 4) bad("actions:tear-down-live", sim::format("variable %d of file %d is torn down while the job is not reset or destroyed", k, file));
    // in a job that is being destroyed, this can still be a ResetVariable instruction
    bool owed = false;
    for (char id : s.active) if (has(s, id, false)) owed = true;
    if (ph(s) == LIVE || (ph(s) == DESTROY && k == 4)) { s.resetting_var = k; s.may_be_last = ph(s) == DESTROY && !owed; s.up[k] = false; return; }
    if (ph(s) == CREATE && !failing(s.job)) bad("actions:tear-down-create", sim::format("variable %d of file %d is torn down while the job is created", k, file));
    for (char id : std::set<char>(s.active)) { if (has(s, id, false)) bad("actions:tear-down-early", sim::format("variable %d of file %d is torn down before the tear-down action '%c' of its workspace has run", k, file, id)); s.active.erase(id); }
    s.up[k] = false;
  }
  void settled(Space& s)
  {
    if (s.resetting_var >= 0 && s.may_be_last) { s.resetting_var = -1; s.active.clear(); return; }
    if (s.resetting_var >= 0) bad("actions:tear-down-early", sim::format("variable %d of file %d has been torn down before the tear-down actions of its workspace, and was not set up again", s.resetting_var, s.file));
  }
  bool failing(int job) const { for (auto& x : ws) if (x.second.job == job && x.second.failing) return true; return false; }
  void available(const Workspace* w, const Space& s, const char* what)
  {
    if (!all_up(s)) bad("actions:variables-down", std::string(what) + " runs while variables of its workspace are not set up");
    for (auto& n : w->VariableNames()) if (!w->GetVariable(n)->IsAvailable()) bad("actions:variables-down", std::string(what) + " runs while variable " + n + " of its workspace is not available");
  }
  void setup_action(const Workspace* w, int file, char id)
  {
    Space& s = space(w, file);
    note(s, sim::format("set-up action '%c'", id));
    settled(s);
    if (!id) bad("actions:no-identifier", "a set-up action without identifier is executed");
    if (ph(s) == LIVE || ph(s) == DESTROY) bad("actions:set-up-action-live", sim::format("the set-up action '%c' of file %d runs while the job is not created or reset", id, file));
    available(w, s, "a set-up action");
    if (!s.active.insert(id).second) bad("actions:set-up-action-twice", sim::format("the set-up action '%c' of file %d runs twice", id, file));
    sim::count("set_up_actions");
  }
  void teardown_action(const Workspace* w, int file, char id)
  {
    Space& s = space(w, file);
    note(s, sim::format("tear-down action '%c'", id));
    settled(s);
    if (!id) bad("actions:no-identifier", "a tear-down action without identifier is executed");
    if (ph(s) == LIVE || (ph(s) == CREATE && !failing(s.job))) bad("actions:tear-down-action-live", sim::format("the tear-down action '%c' of file %d runs while the job is not reset or destroyed", id, file));
    available(w, s, "a tear-down action");
    if (!s.active.erase(id)) bad("actions:tear-down-action-unpaired", sim::format("the tear-down action '%c' of file %d runs without its set-up action before, or twice", id, file));
    sim::count("tear_down_actions");
  }
  // The workspaces that belong to a job: of the main file, of included procedures, and of files variables are copied from or to
  void check_up(int job, const char* when)
  {
    bool want[4] = {true, false, false, false};
    for (auto& n : p.tree) { if (n.kind == INCPROC) want[n.a[0] & 3] = true; if (n.kind == COPYFROM || n.kind == COPYTO) want[n.a[2] & 3] = true; }
    for (int f = 0; f < 4; ++f) {
      Space* s = nullptr;
      for (auto& x : ws) if (x.second.job == job && x.second.file == f) s = &x.second;
      if (!s) { if (want[f]) bad("actions:workspace-down", sim::format("the workspace of file %d has not been set up %s", f, when)); continue; }
      if (!want[f]) bad("actions:workspace-foreign", sim::format("the workspace of file %d has been set up although no instruction uses it", f));
      if (!all_up(*s)) bad("actions:workspace-down", sim::format("variables of file %d are not set up %s", f, when));
      for (int k = 0; k < kRes; ++k) { auto r = var(*s, k); if (r.used && r.id && !s->active.count(r.id) && (r.setup || r.teardown)) bad("actions:set-up-action-missing", sim::format("the set-up action '%c' of file %d has not run %s", r.id, f, when)); }
    }
  }
  void leaf(int job)
  {
    if (phase[static_cast<size_t>(job)] != LIVE && phase[static_cast<size_t>(job)] != DESTROY) bad("actions:executed", "an instruction is executed while its job is created or reset");
    check_up(job, "when an instruction is executed");
  }
  void check_down(int job, const char* when)
  {
    for (auto& x : ws) {
      auto& s = x.second;
      if (s.job != job) continue;
      settled(s);
      for (int k = 0; k < kRes; ++k) if (var(s, k).used && s.up[k]) bad("actions:left-up", sim::format("variable %d of file %d is still set up %s", k, s.file, when));
      if (!s.active.empty()) bad("actions:left-active", sim::format("the set-up action '%c' of file %d ran, but not its tear-down action %s", *s.active.begin(), s.file, when));
    }
  }
};
Recorder* g_rec = nullptr;
class ResVariable : public Variable
{
public:
  ResVariable() : Variable("SimRes")
  {
    AddAttributeDefinition("file", sup::dto::SignedInteger32Type);
    AddAttributeDefinition("index", sup::dto::SignedInteger32Type);
  }
private:
  bool GetValueImpl(dto::AnyValue& v) const override { v = dto::AnyValue(dto::SignedInteger32Type, 1); return true; }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace& ws) override
  {
    Quiet z;
    sup::dto::int32 f = 0, k = 0;
    (void)GetAttributeValue("file", f);
    (void)GetAttributeValue("index", k);
    m_file = f; m_index = k;
    m_ws = &ws;
    auto* rec = g_rec;
    if (rec->fail_at == f * kRes + k) {
      rec->fail_at = -1;
      Space& s = rec->space(&ws, f);
      rec->note(s, sim::format("set-up of variable %d fails", k));
      s.failing = true;
      throw sup::oac_tree::VariableSetupException("no such device");
    }
    rec->setup_var(&ws, m_file, m_index);
    auto r = XmlFiles::res_var(rec->p, m_file, m_index);
    SetupTeardownActions a;
    if (r.id) a.m_identifier = std::string(1, r.id);
    const Workspace* w = &ws;
    char id = r.id;
    if (r.setup) a.m_setup = [w, f, id] { Quiet q; g_rec->setup_action(w, f, id); };
    if (r.teardown) a.m_teardown = [w, f, id] { Quiet q; g_rec->teardown_action(w, f, id); };
    return a;
  }
  void TeardownImpl() override
  {
    Quiet z;
    if (!m_ws) return;   // never set up
    g_rec->teardown_var(m_ws, m_file, m_index);
    m_ws = nullptr;
  }
  const Workspace* m_ws = nullptr;
  int m_file = 0, m_index = 0;
};

void gen30(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  TreeOpts o;
  o.inner = {SEQ, SEQ, FALLBACK, REPEAT, INCLUDE, INCLUDE, INCPROC, INCPROC, INCPROC, INVERT, RSEQ, FORCE};
  o.leaf = {PROBE, PROBE, PROBE, PROBE, RESETVAR, RESETVAR, COPYFROM, COPYTO, SUCCEED, INCR};
  o.max_nodes = r.chance(1, 2) ? 5 : 12;
  o.min_nodes = 2;
  o.max_depth = 6;
  o.modes = 3;
  p.p["xml"] = 1;
  gen_tree(p, r, o);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 60) n.a[3] = r.range(1, 60);
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) { n.a[4] = r.range(0, 7); if (n.a[0] == 0 && r.chance(2, 3)) n.a[0] = r.range(1, 3); }
    if (n.kind == RESETVAR) n.a[3] = r.range(0, 1);
  }
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  p.p["res"] = r.range(1, 1000000000);
  p.p["jobs"] = r.chance(1, 4) ? 2 : 1;
  p.p["throw"] = r.chance(1, 4) ? r.range(1, 4 * kRes) : 0;
  p.p["late"] = r.range(0, 2);
  fix_ending_tree(p);
  p.th.resize(static_cast<size_t>(p.get("jobs")));
  for (auto& t : p.th) {
    int n = r.range(0, 5);
    for (int i = 0; i < n; ++i) {
      Op x;
      int d = r.range(0, 9);
      x.code = d < 3 ? START : d < 5 ? STEP : d < 6 ? PAUSE : d < 7 ? HALT : RESET;
      x.a[0] = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 300) : -r.range(1, 40);
      t.push_back(x);
    }
  }
}
// Runs an op list; Reset is given in a finished state only, so that it is known when the job is being reset.
void drive(const Prog& p, JobRig& r, Recorder& rec, int job, const std::vector<Op>& ops)
{
  for (auto& o : ops) {
    pause_for(o.a[0]);
    if (o.code % 5 != RESET) { r.command(o.code % 5); continue; }
    bool fin;
    { Quiet z; fin = r.obs.state >= 4; }
    for (int k = 0; !fin && k < 6; ++k) { r.command(HALT); fin = r.wait_state({4, 5, 6}, 20000000000ull); }
    { Quiet z; if (!fin) rec.bad("actions:not-finished", "the job is not finished long after Halt()"); rec.phase[static_cast<size_t>(job)] = RESETTING; for (auto& x : rec.ws) if (x.second.job == job) for (bool& b : x.second.renewed) b = false; }
    r.command(RESET);
    bool init = r.wait_state({0});
    Quiet z;
    if (!init) rec.bad("actions:reset-ignored", "the job does not become Initial after Reset()");
    rec.phase[static_cast<size_t>(job)] = LIVE;
    rec.check_up(job, "after the reset");
    for (auto& x : rec.ws) if (x.second.job == job) for (int k = 0; k < kRes; ++k) if (rec.var(x.second, k).used && !x.second.renewed[k]) rec.bad("actions:not-renewed", sim::format("variable %d of file %d has not been set up by the reset", k, x.second.file));
    sim::count("resets");
    sim::nontrivial();
  }
  if (p.get("late")) {
    r.command(START);
    r.wait_state({4, 5, 6}, p.get("late") == 1 ? kEnd : 200000000ull, 10000000ull);
  }
}
void run30(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(80000000000000ull);
  size_t jobs = static_cast<size_t>(p.get("jobs", 1));
  std::unique_ptr<Recorder> rec;
  { Quiet z; rec.reset(new Recorder(p)); g_rec = rec.get(); }
  std::vector<std::unique_ptr<JobRig>> r;
  { Quiet z; rec->fail_at = static_cast<int>(p.get("throw")) - 1; }
  int job = 0;
  for (size_t k = 0; k < jobs; ++job) {
    { Quiet z; rec->creating = job; rec->phase.push_back(CREATE); }
    std::unique_ptr<JobRig> j;
    bool thrown = false;
    try { j.reset(new JobRig(p)); }
    catch (const std::exception& e) { Quiet z; thrown = true; sim::trace("creation refused: %s", e.what()); }
    Quiet z;
    bool failing = rec->failing(job);
    if (thrown != failing) rec->bad(thrown ? "actions:creation-refused" : "actions:failed-set-up-accepted", thrown ? "the job could not be created" : "the job was created although the set-up of a variable failed");
    if (thrown) { rec->check_down(job, "after the creation of the job has failed"); sim::count("creations_failed"); sim::nontrivial(); continue; }
    rec->phase[static_cast<size_t>(job)] = LIVE;
    rec->check_up(job, "when the job has been created");
    rec->job_of[&j->hub] = job;
    rec->old_start = j->hub.on_start;
    j->hub.on_start = [](Hub& h, int i) { g_rec->leaf(g_rec->job_of[&h]); g_rec->old_start(h, i); };
    r.push_back(std::move(j));
    ++k;
  }
  int first = job - static_cast<int>(jobs);
  auto finish = [&](size_t k) {
    { Quiet z; rec->phase[static_cast<size_t>(first) + k] = DESTROY; }
    r[k]->job.reset();
    Quiet z;
    rec->check_down(first + static_cast<int>(k), "after the job has been destroyed");
    sim::count("jobs_destroyed");
  };
  if (jobs == 1) { drive(p, *r[0], *rec, first, p.th.empty() ? std::vector<Op>() : p.th[0]); finish(0); }
  else {
    hx::Threads t;
    for (size_t k = 0; k < jobs; ++k) t.Start([&, k] { drive(p, *r[k], *rec, first + static_cast<int>(k), k < p.th.size() ? p.th[k] : std::vector<Op>()); finish(k); });
    t.Join();
  }
  r.clear();
  Quiet z;
  rec.reset();
  g_rec = nullptr;
}
void fix30(Prog& p)
{
  Quiet z;
  p.p["xml"] = 1;
  if (!p.get("res")) p.p["res"] = 1;
  fix_ending_tree(p);
  if (p.get("jobs") < 1 || p.get("jobs") > 2) p.p["jobs"] = 1;
}
void prepare30()
{
  rig::prepare();
  sup::oac_tree::GlobalVariableRegistry().RegisterVariable("SimRes", []() -> Variable* { return new ResVariable(); });
}
sim::Reg r30({"C30",
  "a random procedure spread over up to four files whose workspaces hold variables with global set-up and tear-down actions (shared identifiers, no identifier, only one of the two actions) is created, run, stopped, reset and destroyed at a random moment, in one job or two at once; the set-up of a variable may fail; every set-up and tear-down is checked as it happens",
  "a reset, or a creation that failed",
  gen30, run30,
  {"LocalJob, AsyncRunner, Runner, procedure parser, ProcedureStore, ProcedureContext, Workspace (set-up and tear-down), Variable, Include, IncludeProcedure, CopyFromProcedure, CopyToProcedure, ResetVariable"},
  {"sup-dto/log/xml (stand-ins)", "variables with actions (recording)", "leaf instructions (scripted)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {"xml", "jobs"}, fix30, prepare30});
}  // namespace
