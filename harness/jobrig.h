// A whole job with everything it does recorded in one list.
#ifndef VERIF_HARNESS_JOBRIG_H_
#define VERIF_HARNESS_JOBRIG_H_
#include "rig.h"

namespace rig
{
using sup::oac_tree::LocalJob;
enum Cmd { START = 0, STEP, PAUSE, RESET, HALT, SETBP, REMBP, N_CMD };
const char* const cname[] = {"Start", "Step", "Pause", "Reset", "Halt", "SetBreakpoint", "RemoveBreakpoint"};
struct Item
{
  enum T { STATE, INSTR, NEXT, LEAF, LEAFEND, CALL, RET, VAR } t;
  int a = 0, b = 0, c = 0;
  u64 time = 0;
  bool halting = false;   // the instruction or one around it has been told to stop
  int res = -1;           // LEAFEND: result
};
struct JobRig
{
  Hub hub;
  Observer obs;
  std::vector<Item> log;
  std::vector<std::vector<int>> next;      // by Item::a of NEXT items, job indices
  std::unique_ptr<LocalJob> job;
  Procedure* proc = nullptr;
  std::vector<int> node_of;                // tree index by job index
  std::vector<int> index_of;
  std::vector<int> parent_of;
  bool track_halts = false;
  const Prog* prog;
  u64 n_calls = 0, n_ticks = 0, n_leaf = 0, n_put = 0, n_msg = 0;
  void map(const sup::oac_tree::InstructionInfo& i)
  {
    for (auto& a : i.GetAttributes())
      if (a.first == "name" && a.second.size() > 1) {
        int k = std::atoi(a.second.c_str() + 1);
        size_t x = i.GetIndex();
        if (x >= node_of.size()) sim::fail("info:index", sim::format("an instruction of the job description has index %zu, but there are only %zu instructions", x, node_of.size()));
        node_of[x] = k;
        index_of[static_cast<size_t>(k)] = static_cast<int>(x);
      }
    for (auto c : i.Children()) map(*c);
  }
  explicit JobRig(const Prog& p, int user_mode = 0, bool texts = false) : prog(&p)
  {
    {
      Quiet z;
      obs.keep_texts = texts;
      hub.user = this;
      obs.user_mode = user_mode;
      obs.salt = static_cast<u64>(p.get("answers"));
      hub.on_start = [](Hub& h, int i) { auto* r = static_cast<JobRig*>(h.user); ++r->n_leaf; r->log.push_back({Item::LEAF, i, sim::tid(), 0, sim::now()}); r->mark_halting(i); };
      hub.on_end = [](Hub& h, int i) { auto& q = h.ps[static_cast<size_t>(i)]; static_cast<JobRig*>(h.user)->log.push_back({Item::LEAFEND, i, sim::tid(), q.ever_halted ? 1 : 0, sim::now()});
        static_cast<JobRig*>(h.user)->log.back().res = q.ever_halted ? static_cast<int>(F_) : ProbeArgs::at(static_cast<JobRig*>(h.user)->prog->tree[static_cast<size_t>(i)], q.pos - 1);
        q.ever_halted = false;
        static_cast<JobRig*>(h.user)->mark_halting(i); };
      obs.on_clear = [this] { log.clear(); next.clear(); n_ticks = n_leaf = n_put = n_msg = 0; };
      obs.hook = [this](Ev& e) {
        switch (e.t) {
        case Ev::STATE: log.push_back({Item::STATE, e.a, e.b, e.tid, e.time}); break;
        case Ev::INSTR:
          log.push_back({Item::INSTR, e.a, e.b, e.c, e.time});
          if (e.a < static_cast<int>(node_of.size())) mark_halting(node_of[static_cast<size_t>(e.a)]);
          break;
        case Ev::VAR: log.push_back({Item::VAR, e.a, e.b, e.c, e.time}); break;
        case Ev::PUT: ++n_put; break;
        case Ev::MSG: ++n_msg; break;
        case Ev::NEXT: {
          ++n_ticks;
          auto& v = obs.nexts[static_cast<size_t>(e.b)];
          next.emplace_back(v.begin(), v.end());
          log.push_back({Item::NEXT, static_cast<int>(next.size()) - 1, e.a, 0, e.time});
          break; }
        default: break;
        }
      };
    }
    job = make_job(hub, obs, p);
    proc = obs.proc;
    Quiet z;
    for (auto& n : p.tree) parent_of.push_back(n.parent);
    node_of.assign(p.tree.size(), -1);
    index_of.assign(p.tree.size(), -1);
    if (job->GetInfo().GetRootInstructionInfo()) map(*job->GetInfo().GetRootInstructionInfo());
    for (size_t i = 0; i < node_of.size(); ++i) if (node_of[i] < 0) sim::fail("info:incomplete", sim::format("no instruction of the job description has index %zu", i) + "\n" + show_tree(p));
  }
  void mark_halting(int k)
  {
    if (!track_halts) return;
    for (; k >= 0; k = parent_of[static_cast<size_t>(k)]) if (hub.node[static_cast<size_t>(k)] && hub.node[static_cast<size_t>(k)]->IsHaltRequested()) log.back().halting = true;
  }
  void command(int cmd, int arg = 0)
  {
    { Quiet z; ++n_calls; log.push_back({Item::CALL, cmd, arg, sim::tid(), sim::now()}); }
    sim::trace("%s(%d)", cname[cmd], arg);
    switch (cmd) {
    case START: job->Start(); break;
    case STEP: job->Step(); break;
    case PAUSE: job->Pause(); break;
    case RESET: job->Reset(); break;
    case HALT: job->Halt(); break;
    case SETBP: job->SetBreakpoint(static_cast<sup::dto::uint32>(arg)); break;
    default: job->RemoveBreakpoint(static_cast<sup::dto::uint32>(arg)); break;
    }
    Quiet z;
    log.push_back({Item::RET, cmd, arg, sim::tid(), sim::now()});
  }
  int state() { Quiet z; return obs.state; }
  bool wait_state(std::initializer_list<int> l, u64 ns = 400000000000ull, u64 poll = 20000000ull)
  {
    std::vector<int> v;
    { Quiet z; v = l; }
    bool r = wait_until([&] { for (int s : v) if (obs.state == s) return true; return false; }, ns, poll);
    { Quiet z; v = {}; }
    return r;
  }
  std::string show(size_t upto, size_t from = 0)
  {
    std::string s;
    for (size_t i = from; i < log.size() && i <= upto; ++i) {
      auto& e = log[i];
      s += i == upto ? "  > " : "    ";
      s += sim::format("%9.3fs ", static_cast<double>(e.time - 1000000000ull) / 1e9);
      auto nd = [&](int x) { return x >= 0 && x < static_cast<int>(node_of.size()) ? node_of[static_cast<size_t>(x)] : -1; };
      switch (e.t) {
      case Item::STATE: s += sim::format("job state %s\n", jname(e.a)); break;
      case Item::INSTR: s += sim::format("instruction %d reported as %s%s\n", nd(e.a), sname(e.b), e.c ? " (breakpoint)" : ""); break;
      case Item::NEXT: { s += "next leaves reported:"; for (int x : next[static_cast<size_t>(e.a)]) s += sim::format(" %d", nd(x)); s += "\n"; break; }
      case Item::LEAF: s += sim::format("leaf %d starts\n", e.a); break;
      case Item::LEAFEND: s += sim::format("leaf %d ends\n", e.a); break;
      case Item::CALL: s += sim::format("%s(%d) called\n", cname[e.a], e.b); break;
      case Item::RET: s += sim::format("%s(%d) returned\n", cname[e.a], e.b); break;
      case Item::VAR: s += sim::format("variable %d reported as %d%s\n", e.a, e.b, e.c ? "" : " (disconnected)"); break;
      }
      if (s.size() > 3500) { s += "    ...\n"; break; }
    }
    return s;
  }
};

// What one tick (execution of the root) of the reference interpreter did.
struct ModelTick { size_t runs_to, ev_to; std::vector<int> next; };
inline void model_next_leaves(Model& m, std::vector<int>& out)
{
  // leaves of the tree of next instructions
  out.clear();
  if (m.at(0).st != Model::NS && m.at(0).st != Model::NF) return;
  std::vector<int> all;
  m.next(0, all);
  std::vector<int> par(m.n.size(), -1);
  for (size_t i = 0; i < m.n.size(); ++i) for (int c : m.n[i].ch) par[static_cast<size_t>(c)] = static_cast<int>(i);
  for (int i : all) { bool leaf = true; for (int k : all) if (par[static_cast<size_t>(k)] == i) leaf = false; if (leaf) out.push_back(i); }
}
inline ModelTick model_tick(Model& m)
{
  m.exec(0);
  ModelTick t;
  t.runs_to = m.runs.size();
  t.ev_to = m.ev.size();
  model_next_leaves(m, t.next);
  return t;
}
// Compares the recorded items from 'from' on (one uninterrupted or interrupted execution up to its end) with the
// reference interpreter; returns a class and fills 'why' with the item at which they differ, or "" if they agree.
struct Compare { std::string cls, msg; size_t at = 0; };
inline Compare compare_run(JobRig& r, Model& m, size_t from, bool must_end, int max_ticks = 400)
{
  Compare c;
  size_t ev0 = m.ev.size(), run0 = m.runs.size();
  std::vector<ModelTick> ticks;
  size_t ev_next = ev0, run_next = run0, tick_seen = 0;
  bool capped = false;   // longer than anybody wants to know
  auto more = [&] { if (Model::fin(m.at(0).st)) return false; if (static_cast<int>(ticks.size()) >= max_ticks) { capped = true; return false; } ticks.push_back(model_tick(m)); return true; };
  for (size_t i = from; i < r.log.size(); ++i) {
    auto& e = r.log[i];
    if (e.t == Item::LEAF) {
      while (run_next >= m.runs.size() && more()) {}
      if (capped) return c;
      if (run_next >= m.runs.size()) { c = {"tree:extra-execution", sim::format("instruction %d is executed although the procedure should have ended\n", e.a), i}; return c; }
      if (m.runs[run_next] != e.a) { c = {"tree:wrong-execution", sim::format("instruction %d is executed where instruction %d should be\n", e.a, m.runs[run_next]), i}; return c; }
      ++run_next;
    } else if (e.t == Item::INSTR) {
      // a repetition of the last status is a breakpoint notification
      while (ev_next >= m.ev.size() && more()) {}
      if (capped) return c;
      int node = r.node_of[static_cast<size_t>(e.a)];
      if (ev_next >= m.ev.size()) { c = {"tree:extra-notification", sim::format("instruction %d is reported as %s although the procedure should have ended\n", node, sname(e.b)), i}; return c; }
      if (m.ev[ev_next] != std::make_pair(node, e.b)) { c = {"tree:wrong-status", sim::format("instruction %d is reported as %s, but the next status change should be that instruction %d becomes %s\n", node, sname(e.b), m.ev[ev_next].first, sname(m.ev[ev_next].second)), i}; return c; }
      ++ev_next;
    } else if (e.t == Item::NEXT) {
      while (tick_seen >= ticks.size() && more()) {}
      if (capped) return c;
      if (tick_seen >= ticks.size()) { c = {"tree:extra-tick", "there is an execution step after the procedure should have ended\n", i}; return c; }
      auto& t = ticks[tick_seen++];
      if (run_next != t.runs_to || ev_next != t.ev_to) { c = {"tree:tick", "an execution step ended too early or too late\n", i}; return c; }
      std::vector<int> got;
      for (int x : r.next[static_cast<size_t>(e.a)]) got.push_back(r.node_of[static_cast<size_t>(x)]);
      std::vector<int> want = t.next;
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
      if (got != want) {
        std::string s = "the instructions reported as next after an execution step are wrong; expected:";
        for (int x : want) s += sim::format(" %d", x);
        c = {"tree:next", s + "\n", i};
        return c;
      }
    }
  }
  if (must_end) {
    if (!Model::fin(m.at(0).st) || run_next != m.runs.size() || ev_next != m.ev.size() || tick_seen != ticks.size())
      { while (more()) {} if (capped) return c; if (run_next != m.runs.size() || ev_next != m.ev.size() || tick_seen != ticks.size()) c = {"tree:incomplete", sim::format("the procedure has ended after %zu steps, but there should be %zu\n", tick_seen, ticks.size()), r.log.size()}; }
  }
  return c;
}
}  // namespace rig
#endif
