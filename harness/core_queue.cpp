// C01, C02: the job command queue.
#include "common.h"

#include <sup/oac-tree/job_command_queue.h>

#include <memory>
#include <new>

using namespace hx;
using sup::oac_tree::JobCommand;
using sup::oac_tree::JobCommandQueue;

namespace
{
const char* cname[] = {"Start", "Step", "Pause", "Reset", "Halt", "Terminate"};
const JobCommand cmds[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset, JobCommand::kHalt, JobCommand::kTerminate};
int rank_of(JobCommand c)
{
  for (int i = 0; i < 6; ++i) if (cmds[i] == c) return i;
  return -1;
}
enum { PUSH, PPUSH, PPUSH_NULL, TRYPOP, WAITPOP, EMPTY, SIZE };
struct Rec
{
  Interval t;
  int op, arg, res;      // res: popped command, flag or size; -2: threw
};
struct QModel
{
  std::vector<char> q;
  bool apply(const Rec& r)
  {
    if (r.res == -2) return true;  // failed operations have no effect
    switch (r.op) {
    case PUSH: q.push_back(static_cast<char>(r.arg)); return true;
    case PPUSH: case PPUSH_NULL: {
      bool ok = q.empty() || r.arg > q.front();
      if (ok != (r.res == 1)) return false;
      if (ok) q.insert(q.begin(), static_cast<char>(r.arg));
      return true; }
    case TRYPOP:
      if (q.empty()) return r.res == -1;
      if (r.res != q.front()) return false;
      q.erase(q.begin());
      return true;
    case WAITPOP:
      if (q.empty() || r.res != q.front()) return false;
      q.erase(q.begin());
      return true;
    case EMPTY: return (r.res == 1) == q.empty();
    case SIZE: return r.res == static_cast<int>(q.size());
    }
    return false;
  }
  u64 hash() const { u64 h = 1; for (char c : q) h = mixh(h, static_cast<u64>(c) + 1); return h; }
};
std::string show(const std::vector<Rec>& h)
{
  static const char* on[] = {"Push", "PriorityPush", "PriorityPush(no function)", "TryPop", "WaitForNextCommand", "IsEmpty", "GetSize"};
  std::string s;
  for (auto& r : h) {
    std::string res;
    if (r.res == -2) res = "threw bad_alloc";
    else if (r.op == TRYPOP || r.op == WAITPOP) res = r.res < 0 ? "nothing" : cname[r.res];
    else res = std::to_string(r.res);
    s += sim::format("    [%llu..%llu] %s %s -> %s\n", static_cast<unsigned long long>(r.t.inv), static_cast<unsigned long long>(r.t.ret), on[r.op], r.op <= PPUSH_NULL ? cname[r.arg] : "", res.c_str());
  }
  return s;
}

struct QRun
{
  JobCommandQueue q;
  std::vector<Rec> hist;
  void Do(const Op& o)
  {
    Rec r{};
    r.op = o.code;
    r.arg = static_cast<int>(o.a[0] % 6);
    int calls = 0;
    u64 fend = 0;
    { Quiet z; r.t.inv = tick(); sim::trace("call op %d %s", r.op, cname[r.arg]); }
    try {
      sim::MayFail may;
      switch (o.code) {
      case PUSH: q.Push(cmds[r.arg]); r.res = 1; break;
      case PPUSH: {
        auto f = [&] {
          { Quiet z; ++calls; }
          for (long k = 0; k < o.a[1]; ++k) sim::yield_point();
          if (o.a[2]) throw std::bad_alloc{};   // the function itself has no memory left
          { Quiet z; fend = tick(); }
        };
        r.res = q.PriorityPush(cmds[r.arg], f) ? 1 : 0;
        break; }
      case PPUSH_NULL: r.res = q.PriorityPush(cmds[r.arg], {}) ? 1 : 0; break;
      case TRYPOP: {
        JobCommand c = JobCommand::kTerminate;
        r.res = q.TryPop(c) ? rank_of(c) : -1;
        break; }
      case WAITPOP: r.res = rank_of(q.WaitForNextCommand()); break;
      case EMPTY: r.res = q.IsEmpty() ? 1 : 0; break;
      default: r.res = static_cast<int>(q.GetSize()); break;
      }
    } catch (const std::bad_alloc&) { r.res = -2; }
    Quiet z;
    r.t.ret = tick();
    sim::trace("return op %d -> %d", r.op, r.res);
    sim::ev(static_cast<u64>(r.op * 64 + r.res + 3));
    if (o.code == PPUSH && r.res != -2) {
      if (r.res == 1 && calls != 1) sim::fail("queue:function-count", sim::format("an accepted priority command ran its function %d times (expected once)", calls));
      if (r.res == 0 && calls != 0) sim::fail("queue:function-on-reject", "a rejected priority command ran its function");
      if (r.res == 1) r.t.inv = fend;  // the command may be seen only once the function has run
      sim::count(r.res ? "priority_accepted" : "priority_rejected");
    }
    if (r.res == -2) sim::count("operation_failed_by_allocation");
    if (o.code == TRYPOP && r.res < 0) sim::count("trypop_empty");
    hist.push_back(r);
  }
};

void gen01(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  p.p["f.stall"] = 0;
  if (r.chance(1, 6)) p.p["f.alloc"] = 60000;
  int nt = r.range(2, 4), budget = r.range(6, 18);
  p.th.resize(static_cast<size_t>(nt));
  int style = r.range(0, 2);
  for (int i = 0; i < budget; ++i) {
    Op o;
    int d = r.range(0, 99);
    if (style == 1) d = d < 60 ? r.range(0, 54) : d;
    if (d < 25) o.code = PUSH;
    else if (d < 45) o.code = PPUSH;
    else if (d < 52) o.code = PPUSH_NULL;
    else if (d < 75) o.code = TRYPOP;
    else if (d < 80) o.code = WAITPOP;
    else if (d < 90) o.code = EMPTY;
    else o.code = SIZE;
    o.a[0] = r.range(0, 5);
    o.a[1] = r.range(0, 2);
    o.a[2] = o.code == PPUSH && p.p["f.alloc"] && r.chance(1, 3);
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
}
// Blocking pops need a supplier: the main thread feeds the queue while someone is blocked.
void run01(const Prog& p)
{
  sim::set_step_cap(200000);
  auto run = std::make_unique<QRun>();
  int pending = 0;
  for (auto& t : p.th) for (auto& o : t) if (o.code == WAITPOP) ++pending;
  Threads th;
  int finished = 0;
  for (auto& ops : p.th)
    th.Start([&] {
      for (auto& o : ops) run->Do(o);
      Quiet z;
      ++finished;
    });
  if (pending) {
    // supply: enough commands that every blocking pop can be served
    int total = 0;
    for (auto& t : p.th) for (auto& o : t) if (o.code == TRYPOP || o.code == WAITPOP) ++total;
    for (int i = 0; i < total; ++i) {
      Op o;
      o.code = PUSH;
      o.a[0] = i % 6;
      for (;;) {
        run->Do(o);
        Quiet z;
        if (run->hist.back().res != -2) break;
      }
    }
  }
  th.Join();
  sim::faults_off();
  // what is left comes out in order, exactly once
  for (;;) {
    Op o;
    o.code = TRYPOP;
    run->Do(o);
    Quiet z;
    if (run->hist.back().res == -1) break;
    if (run->hist.size() > 400) sim::fail("queue:unbounded", "draining the queue does not end");
  }
  Quiet z;
  if (p.th.size() >= 2) {
    int ov = 0;
    for (size_t i = 0; i < run->hist.size(); ++i)
      for (size_t k = 0; k < i; ++k)
        if (run->hist[i].t.inv < run->hist[k].t.ret && run->hist[k].t.inv < run->hist[i].t.ret) ++ov;
    if (ov) { sim::nontrivial(); sim::count("overlapping_operation_pairs", static_cast<u64>(ov)); }
  }
  if (!linearizable(run->hist, QModel{}))
    sim::fail("queue:not-linearizable", "no sequential order of these operations on a priority-front FIFO queue explains the results ([call..return] event numbers):\n" + show(run->hist));
}

void gen02(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  int np = r.range(1, 3), nc = r.range(1, 3);
  p.p["np"] = np;
  p.th.resize(static_cast<size_t>(np + nc));
  for (int i = 0; i < np; ++i)
    for (int k = r.range(1, 4); k > 0; --k) {
      Op o;
      int d = r.range(0, 9);
      o.code = d < 5 ? PUSH : d < 8 ? PPUSH : PPUSH_NULL;
      o.a[0] = r.range(0, 5);
      o.a[1] = r.range(0, 1);
      p.th[static_cast<size_t>(i)].push_back(o);
    }
  for (int i = np; i < np + nc; ++i)
    for (int k = r.range(1, 4); k > 0; --k) { Op o; o.code = WAITPOP; p.th[static_cast<size_t>(i)].push_back(o); }
}
void run02(const Prog& p)
{
  sim::set_step_cap(200000);
  auto run = std::make_unique<QRun>();
  size_t np = static_cast<size_t>(p.get("np"));
  int want = 0;
  for (size_t i = np; i < p.th.size(); ++i) want += static_cast<int>(p.th[i].size());
  Threads prod, cons;
  for (size_t i = np; i < p.th.size(); ++i) cons.Start([&, i] { for (auto& o : p.th[i]) run->Do(o); });
  for (size_t i = 0; i < np && i < p.th.size(); ++i) prod.Start([&, i] { for (auto& o : p.th[i]) run->Do(o); });
  prod.Join();
  int accepted = 0;
  { Quiet z; for (auto& r : run->hist) if (r.op <= PPUSH_NULL && r.res == 1) ++accepted; }
  Op o;
  o.code = PUSH;
  for (; accepted < want; ++accepted) { o.a[0] = accepted % 6; run->Do(o); }
  // Every consumer can be served now; a consumer that sleeps on shows up as a deadlock.
  cons.Join();
  Quiet z;
  if (want > 0 && p.th.size() - np >= 1) sim::nontrivial();
  for (int c = 0; c < 6; ++c) {
    int in = 0, out = 0;
    for (auto& r : run->hist) {
      if (r.op <= PPUSH_NULL && r.res == 1 && r.arg == c) ++in;
      if (r.op == WAITPOP && r.res == c) ++out;
    }
    JobCommand k;
    (void)k;
    if (out > in) sim::fail("queue:duplicated", sim::format("command %s was delivered %d times but accepted %d times", cname[c], out, in));
  }
  if (run->q.GetSize() != static_cast<size_t>(accepted - want)) sim::fail("queue:lost", "accepted commands were lost");
}
sim::Reg r1({"C01", "2-4 client threads run a random mix of Push, PriorityPush, TryPop, WaitForNextCommand, IsEmpty and GetSize on one JobCommandQueue; the recorded history is checked for linearizability against a sequential model.",
             "at least two operations of different threads overlap in time.", gen01, run01,
             {"JobCommandQueue", "JobCommand priority order", "libstdc++ threading primitives (on the simulated scheduler)"}, {}});
sim::Reg r2({"C02", "1-3 producers and 1-3 blocked consumers share one JobCommandQueue; total supply covers total demand, so every consumer must return.",
             "at least one consumer blocks for a command.", gen02, run02, {"JobCommandQueue", "libstdc++ condition variable (on the simulated scheduler)"}, {}});
}  // namespace
