// C14: parallel sequences and asynchronous children.
#include "jobrig.h"

using namespace rig;

namespace
{
// What a tree can come to: bits of S, F and H (does not end by itself).
enum { CS = 1, CF = 2, CH = 4 };
std::vector<int> kids(const Prog& p, int i)
{
  std::vector<int> r;
  for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c) if (p.tree[c].parent == i) r.push_back(static_cast<int>(c));
  return r;
}
void thresholds(const Prog& p, int i, long& st, long& ft)
{
  // as documented: the default is success of all; the second threshold follows from the first one given
  const auto& n = p.tree[static_cast<size_t>(i)];
  long N = static_cast<long>(kids(p, i).size());
  bool hs = n.a[0] >= 0, hf = n.a[1] >= 0;
  st = hs ? std::min(N, n.a[0]) : N;
  ft = hf ? std::min(N, n.a[1]) : 1;
  if (hs) ft = std::min(ft, N - st + 1);
  else if (hf) st = N + 1 - ft;
}
int outcome(const Prog& p, int i, bool again)
{
  const auto& n = p.tree[static_cast<size_t>(i)];
  auto ch = kids(p, i);
  switch (n.kind) {
  case PROBE: {
    if (n.a[2] == BLOCK && n.a[3] == 0) return CH;
    int s = 0;
    for (u64 k = 0; k < static_cast<u64>(n.a[1] < 1 ? 1 : n.a[1]); ++k) {
      int v = ProbeArgs::at(n, k);
      if (v == S_ || v == F_) { s |= v == S_ ? CS : CF; if (!again) return s; }
    }
    return s ? s : static_cast<int>(CH); }
  case SUCCEED: return CS;
  case FAIL_: return CF;
  case SEQ: case FALLBACK: {
    int go = n.kind == SEQ ? CS : CF, stop = n.kind == SEQ ? CF : CS, r = 0;
    for (int c : ch) { int o = outcome(p, c, again); r |= o & (stop | CH); if (!(o & go)) return r; }
    return r | go; }
  case INVERT: { int o = outcome(p, ch[0], again); return (o & CH) | (o & CS ? static_cast<int>(CF) : 0) | (o & CF ? static_cast<int>(CS) : 0); }
  case FORCE: { int o = outcome(p, ch[0], again); return (o & CH) | (o & (CS | CF) ? static_cast<int>(CS) : 0); }
  case ASYNC: return outcome(p, ch[0], again);
  case REPEAT: {
    if (n.a[0] == 0) return CS;
    int o = outcome(p, ch[0], again || n.a[0] != 1);
    if (n.a[0] < 0) return (o & (CF | CH)) | (o & CS ? static_cast<int>(CH) : 0);
    return o; }
  case PAR: {
    long st, ft;
    thresholds(p, i, st, ft);
    std::set<std::pair<int, int>> sums{{0, 0}};
    for (int c : ch) {
      int o = outcome(p, c, again);
      std::set<std::pair<int, int>> t;
      for (auto& s : sums) { if (o & CS) t.insert({s.first + 1, s.second}); if (o & CF) t.insert({s.first, s.second + 1}); if (o & CH) t.insert(s); }
      sums = t;
    }
    int r = 0;
    for (auto& s : sums) { bool a = s.first >= st, b = s.second >= ft; r |= (a ? CS : 0) | (b ? CF : 0) | (!a && !b ? CH : 0); }
    return r; }
  default: return CS | CF | CH;
  }
}
bool below(const Prog& p, int i, int top) { for (; i >= 0; i = p.tree[static_cast<size_t>(i)].parent) if (i == top) return true; return false; }
bool parallel_below(const Prog& p, int top) { for (size_t k = 0; k < p.tree.size(); ++k) if ((p.tree[k].kind == PAR || p.tree[k].kind == ASYNC) && below(p, static_cast<int>(k), top)) return true; return false; }
// threads that can be executing something below 'top' (not counting the one that executes 'top')
int threads_below(const Prog& p, int top)
{
  int n = 0;
  for (size_t k = 0; k < p.tree.size(); ++k) if (p.tree[k].parent >= 0 && (p.tree[static_cast<size_t>(p.tree[k].parent)].kind == PAR || p.tree[static_cast<size_t>(p.tree[k].parent)].kind == ASYNC) && below(p, p.tree[k].parent, top)) ++n;
  return n;
}
// where the execution of parallel sequence 'k' that was under way at 'x' began
size_t begun_at(JobRig& r, int k, size_t x)
{
  size_t b = 0;
  bool fresh = true;
  for (size_t y = 0; y < x && y < r.log.size(); ++y)
    if (r.log[y].t == Item::INSTR && r.node_of[static_cast<size_t>(r.log[y].a)] == k) { if (fresh) b = y; fresh = r.log[y].b == 0; }
  return b;
}
void fix14(Prog& p)
{
  fix_tree(p);
  if (p.th.empty()) p.th.resize(1);
  if (p.get("tick") < 20) p.p["tick"] = 20;
  for (auto& n : p.tree) {
    if (n.kind == PAR) for (int k = 0; k < 2; ++k) { if (n.a[k] == 0) n.a[k] = 1; if (n.a[k] < -1) n.a[k] = -1; }
    if (n.kind == PROBE) {
      if (n.a[1] < 1) n.a[1] = 1;
      // the last result is a final one
      long last = ProbeArgs::at(n, static_cast<u64>(n.a[1] - 1));
      if (last != S_ && last != F_) n.a[0] &= ~(3l << (2 * (n.a[1] - 1)));
    }
    if (n.kind == REPEAT && n.a[0] < -1) n.a[0] = 2;
  }
  // loops without end need something that takes time
  for (size_t i = 0; i < p.tree.size(); ++i) if (p.tree[i].kind == REPEAT && p.tree[i].a[0] < 0) p.tree[i].a[0] = 3;
}
void gen14(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 8)) p.p["f.thr"] = r.chance(1, 2) ? 50000 : 300000;
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  static const long ticks[] = {20, 50, 100, 250};
  p.p["tick"] = ticks[r.below(4)];
  TreeOpts o;
  o.max_nodes = r.chance(1, 2) ? 7 : 12;
  o.inner = {PAR, PAR, PAR, ASYNC, SEQ, FALLBACK, INVERT, FORCE, REPEAT};
  o.leaf = {PROBE, PROBE, PROBE, PROBE, SUCCEED, FAIL_};
  o.modes = 3;
  o.block = r.chance(1, 3) ? 30 : 0;
  gen_tree(p, r, o);
  if (r.chance(1, 2)) p.tree[0].kind = PAR;
  p.p["rounds"] = r.range(1, 2);
  p.th.resize(1);
  if (r.chance(1, 3)) {
    int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) { Op c; int d = r.range(0, 4); c.code = d < 2 ? PAUSE : d == 2 ? STEP : START; c.a[0] = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 600) : -r.range(1, 30); p.th[0].push_back(c); }
  }
  fix14(p);
}
void run14(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(20000000000000ull);
  JobRig r(p);
  const size_t N = p.tree.size();
  const bool calm = p.get("f.stall") == 0;
  const u64 ms = 1000000ull, tick = static_cast<u64>(p.get("tick")) * ms;
  size_t from;
  { Quiet z; from = r.log.size(); r.track_halts = true; }
  int job_tid = -1;
  for (int round = 0; round < (p.get("rounds") > 1 ? 2 : 1); ++round) {
    int can;
    { Quiet z; can = outcome(p, 0, round > 0); }
    r.command(START);
    if (round == 0)
      for (auto& o : p.th[0]) {
        pause_for(o.a[0]);
        bool fin; { Quiet z; fin = r.obs.state >= 4; }
        if (fin) break;
        int cmd = o.code % 3;
        r.command(cmd);
      }
    bool done = r.wait_state({4, 5}, 1000000ull, 1000ull);
    for (int k = 0; k < 4000 && !done; ++k) {
      bool paused; { Quiet z; paused = r.obs.state == 1; }
      if (paused) r.command(START);
      if ((can & CH) && k > 300) break;
      done = r.wait_state({4, 5}, 200 * ms, 5 * ms);
    }
    bool stopped = false;
    if (!done) {
      if (!(can & CH)) { Quiet z; sim::fail("parallel:does-not-end", "a procedure that has to end does not\n" + show_tree(p) + r.show(r.log.size(), r.log.size() > 40 ? r.log.size() - 40 : 0)); }
      r.command(HALT);
      stopped = true;
      if (!r.wait_state({4, 5, 6}, 400000000000ull, 10 * ms)) { Quiet z; sim::fail("parallel:does-not-halt", "a parallel procedure does not halt\n" + show_tree(p)); }
    }
    // leave the children that were told to stop the time to do so
    sim::faults_off();
    sim::sleep_ns(10000000000ull);
    {
      Quiet z;
      if (r.hub.executing) sim::fail("parallel:child-goes-on", sim::format("%llu children are still executing ten seconds after the procedure ended\n", static_cast<unsigned long long>(r.hub.executing)) + show_tree(p) + r.show(r.log.size()));
      auto bad = [&](const char* cls, const std::string& m, size_t at) { sim::fail(cls, m + "\n" + show_tree(p) + r.show(at, at > 60 ? at - 60 : 0)); };
      if (!stopped) {
        int root = code(r.hub.node[0]->GetStatus());
        if (root != 3 && root != 4) bad("parallel:root", "the job has ended but its root instruction has not", r.log.size());
        if ((root == 3 && !(can & CS)) || (root == 4 && !(can & CF))) bad("parallel:outcome", sim::format("the procedure ends with %s, which no order of events explains", sname(root)), r.log.size());
        if (r.obs.state != (root == 3 ? 4 : 5)) bad("parallel:job-state", "the state of the job does not agree with its root instruction", r.log.size());
        if (can == CS || can == CF) sim::count("determined_outcomes");
      }
      // the history
      std::vector<int> st(N, 0), started_after(N, 0);
      std::vector<u64> since(N, 0), leaf_at(N, 0);
      std::vector<size_t> begun(N, 0), pos(N, 0), epos(N, 0);
      std::vector<std::unique_ptr<Model>> model(N);
      std::vector<char> over(N, 0);                 // finished parallel node (until it is reset)
      // sequential children of parallel nodes that are executed once only
      std::vector<int> top(N, -1);
      if (round == 0)
        for (size_t i = 0; i < N; ++i) {
          int pa = p.tree[i].parent;
          if (pa < 0 || (p.tree[static_cast<size_t>(pa)].kind != PAR && p.tree[static_cast<size_t>(pa)].kind != ASYNC)) continue;
          bool once = !parallel_below(p, static_cast<int>(i));
          for (int k = pa; k >= 0; k = p.tree[static_cast<size_t>(k)].parent) if (p.tree[static_cast<size_t>(k)].kind == REPEAT) once = false;
          if (!once) continue;
          model[i].reset(new Model(p));
          int lim = 400;
          while (!Model::fin(model[i]->at(static_cast<int>(i)).st) && --lim) model[i]->exec(static_cast<int>(i));
          if (!lim) { model[i].reset(); continue; }
          for (size_t k = 0; k < N; ++k) if (below(p, static_cast<int>(k), static_cast<int>(i))) top[k] = static_cast<int>(i);
        }
      u64 last_next = 0, running_since = 0;
      bool halted = false;
      std::vector<std::pair<int, size_t>> stops, finished;
      // only leaves below parallel nodes: the job's thread never stays long in one execution step
      bool all_parallel = true;
      for (size_t i = 0; i < N; ++i) {
        if (p.tree[i].kind != PROBE || p.tree[i].a[2] < SLEEP) continue;
        bool in = false;
        for (int k = p.tree[i].parent; k >= 0; k = p.tree[static_cast<size_t>(k)].parent) if (p.tree[static_cast<size_t>(k)].kind == PAR || p.tree[static_cast<size_t>(k)].kind == ASYNC) in = true;
        if (!in) all_parallel = false;
      }
      if (has_kind(p, REPEAT)) all_parallel = false;   // a loop waits for children that are left over
      // children have been told to stop by a parallel ancestor that is finished
      auto told = [&](int i) { for (int k = p.tree[static_cast<size_t>(i)].parent; k >= 0; k = p.tree[static_cast<size_t>(k)].parent) if (over[static_cast<size_t>(k)]) return true; return halted; };
      for (size_t x = from; x < r.log.size(); ++x) {
        auto& e = r.log[x];
        if (e.t == Item::CALL && e.a == HALT) halted = true;
        if (e.t == Item::STATE) {
          if (e.a == 3) { running_since = e.time; job_tid = e.c; } else running_since = 0;
          last_next = e.time;
        }
        if (e.t == Item::NEXT) {
          if (calm && all_parallel && running_since && !halted && e.time - last_next > tick + 150 * ms) bad("parallel:blocks", sim::format("an execution step takes %.3f s, although only parallel children do anything", static_cast<double>(e.time - last_next) / 1e9), x);
          last_next = e.time;
        }
        if (e.t == Item::LEAFEND && e.c) {
          int t = top[static_cast<size_t>(e.a)];
          if (t >= 0) model[static_cast<size_t>(t)].reset();
          stops.emplace_back(e.a, x);
          sim::count("leaves_halted");
        }
        if (e.t == Item::LEAF || e.t == Item::INSTR) {
          int i = e.t == Item::LEAF ? e.a : r.node_of[static_cast<size_t>(e.a)];
          int t = top[static_cast<size_t>(i)];
          if (e.t == Item::LEAF) {
            int pa = -1;
            for (int k = p.tree[static_cast<size_t>(i)].parent; k >= 0 && pa < 0; k = p.tree[static_cast<size_t>(k)].parent) if (p.tree[static_cast<size_t>(k)].kind == PAR || p.tree[static_cast<size_t>(k)].kind == ASYNC) pa = k;
            if (pa >= 0 && e.b == job_tid) bad("parallel:not-parallel", sim::format("instruction %d, which is below a parallel one, is executed in the job's own thread", i), x);
            for (int k = p.tree[static_cast<size_t>(i)].parent; k >= 0; k = p.tree[static_cast<size_t>(k)].parent)
              if (over[static_cast<size_t>(k)] && ++started_after[static_cast<size_t>(k)] > threads_below(p, k)) bad("parallel:not-halted", sim::format("instruction %d is executed long after the parallel sequence %d has finished", i, k), x);
          }
          if (t >= 0 && model[static_cast<size_t>(t)]) {
            auto& m = *model[static_cast<size_t>(t)];
            if (e.t == Item::LEAF) {
              size_t& k = pos[static_cast<size_t>(t)];
              if (k >= m.runs.size() || m.runs[k] != i) bad("parallel:child-order", sim::format("instruction %d is executed out of order", i), x);
              ++k;
            } else if (told(i) || e.halting) {
              model[static_cast<size_t>(t)].reset();
            } else {
              size_t& k = epos[static_cast<size_t>(t)];
              if (k >= m.ev.size() || m.ev[k] != std::make_pair(i, e.b)) bad("parallel:child-status", sim::format("instruction %d becomes %s out of order", i, sname(e.b)), x);
              ++k;
              if (i == t && Model::fin(e.b) && (k != m.ev.size() || pos[static_cast<size_t>(t)] != m.runs.size())) bad("parallel:child-incomplete", sim::format("instruction %d ends too early", i), x);
            }
          }
        }
        if (e.t == Item::INSTR) {
          size_t i = static_cast<size_t>(r.node_of[static_cast<size_t>(e.a)]);
          st[i] = e.b;
          if (p.tree[i].kind == PAR) {
            auto ch = kids(p, static_cast<int>(i));
            if (e.b == 1 && !begun[i]) begun[i] = x;
            if (e.b == 0) { over[i] = 0; begun[i] = 0; started_after[i] = 0; }
            if (e.b == 3 || e.b == 4) {
              long sth, fth, ns = 0, nf = 0, seen = 0;
              thresholds(p, static_cast<int>(i), sth, fth);
              for (int c : ch) { ns += st[static_cast<size_t>(c)] == 3; nf += st[static_cast<size_t>(c)] == 4; seen += st[static_cast<size_t>(c)] != 0; }
              (void)seen;
              if (!told(static_cast<int>(i))) {
                if (e.b == 3 && ns < sth) bad("parallel:early-success", sim::format("parallel sequence %zu succeeds after success of %ld of its children, but %ld are needed", i, ns, sth), x);
                if (e.b == 4 && nf < fth) bad("parallel:early-failure", sim::format("parallel sequence %zu fails after failure of %ld of its children, but it takes %ld", i, nf, fth), x);
              }
              over[i] = 1;
              finished.emplace_back(static_cast<int>(i), x);
              sim::count(e.b == 3 ? "parallel_success" : "parallel_failure");
              long open = 0;
              for (int c : ch) open += st[static_cast<size_t>(c)] < 3;
              if (open) sim::count("finished_with_children_executing");
              if (ch.size() > 1) sim::nontrivial();
            }
          }
        }
      }
      for (auto& s : stops) {
        // told to stop by someone who was or is about to be finished
        bool reason = false;
        for (int k = s.first; k >= 0; k = p.tree[static_cast<size_t>(k)].parent) {
          if (p.tree[static_cast<size_t>(k)].kind != PAR) continue;
          for (auto& o : finished) if (o.first == k && (o.second > s.second || o.second >= begun_at(r, k, s.second))) reason = true;
        }
        if (!reason && !halted) bad("parallel:halted-without-reason", sim::format("instruction %d was told to stop, but no parallel sequence around it has finished", s.first), s.second);
      }
      // every child of a parallel sequence is started, whatever the others do
      if (calm && !sim::faults_seen(sim::K_THREADFAIL))
        for (size_t i = 0; i < N; ++i) {
          if (p.tree[i].kind != PAR) continue;
          std::set<int> waiting;
          u64 t0 = 0;
          bool fresh = true;
          for (size_t x = from; x < r.log.size(); ++x) {
            auto& e = r.log[x];
            if (!waiting.empty() && e.time > t0 + 1000 * ms) bad("parallel:child-not-started", sim::format("instruction %d has not been started a second after its parallel parent", *waiting.begin()), x);
            if (e.t == Item::CALL && e.a == HALT) waiting.clear();
            if (e.t != Item::INSTR) continue;
            int k = r.node_of[static_cast<size_t>(e.a)];
            if (k == static_cast<int>(i) && e.b == 1 && fresh) {
              fresh = false;
              bool in = false;   // below another parallel node it may have been told to stop at once
              for (int a = p.tree[i].parent; a >= 0; a = p.tree[static_cast<size_t>(a)].parent) if (p.tree[static_cast<size_t>(a)].kind == PAR || p.tree[static_cast<size_t>(a)].kind == ASYNC) in = true;
              if (!in) { for (int c : kids(p, k)) waiting.insert(c); t0 = e.time; }
            } else waiting.erase(k);
            if (k == static_cast<int>(i) && e.b == 0) { waiting.clear(); fresh = true; }
          }
        }
      if (stopped) sim::count("halted_rounds");
    }
    if (round + 1 < (p.get("rounds") > 1 ? 2 : 1)) {
      { Quiet z; from = r.log.size(); }
      r.command(RESET);
      if (!r.wait_state({0}, 400000000000ull, 10 * ms)) { Quiet z; sim::fail("parallel:reset", "a reset does not bring the job back to its initial state\n" + show_tree(p)); }
      Quiet z;
      if (r.hub.executing) sim::fail("parallel:reset-while-executing", "children are executing although the job has been reset\n" + show_tree(p));
      for (size_t i = 0; i < N; ++i) if (code(r.hub.node[i]->GetStatus()) != 0 || r.hub.node[i]->IsHaltRequested()) sim::fail("parallel:reset", sim::format("instruction %zu is not in its initial state after a reset\n", i) + show_tree(p));
      from = r.log.size();
      sim::count("second_rounds");
    }
  }
  r.job.reset();
}
sim::Reg r14({"C14",
  "one job with a random procedure of parallel sequences (with thresholds), asynchronous children, sequences, fallbacks, loops and decorators over leaves that take any time or block until they are halted; it is started, sometimes paused and stepped, and run again after a reset; outcome, thresholds, the executions and statuses of each child, and what happens to children that are left over are checked",
  "a parallel sequence with several children finished",
  gen14, run14,
  {"LocalJob, AsyncRunner, Runner, Procedure, ParallelSequence, Async, AsyncWrapper, Sequence, Fallback, Inverter, ForceSuccess, Repeat, Succeed, Fail"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix14(p); }, rig::prepare});
}  // namespace
namespace par14
{
void gen(Prog& p, Rng& r) { gen14(p, r); }
void run(const Prog& p) { run14(p); }
void fix(Prog& p) { fix14(p); }
}  // namespace par14
