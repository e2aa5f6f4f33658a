// C27 waiting for the state of a job.
#include "rig.h"

#include <sup/oac-tree/application_utils.h>

using namespace rig;
using sup::oac_tree::utils::SimpleJobStateMonitor;

namespace
{
const JobState kState[] = {JobState::kInitial, JobState::kPaused, JobState::kStepping, JobState::kRunning, JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
enum { W_FINISHED = 0, W_STATE, W_GET, N_W };
struct Ann { int s; u64 inv, ret, t_inv, t_ret; };
struct Wait { int op, s; long ms; bool over; bool res; int got; u64 inv, ret, t_inv, t_ret; };
struct MRun
{
  SimpleJobStateMonitor mon;
  std::vector<Ann> ann;
  std::vector<Wait> waits;
};
std::string show(MRun& m)
{
  std::string s;
  auto t = [](u64 x) { return x == ~0ull ? std::string("...") : sim::format("%.3fs", static_cast<double>(x - 1000000000ull) / 1e9); };
  for (auto& a : m.ann) s += "    " + t(a.t_inv) + " .. " + t(a.t_ret) + " state " + jname(a.s) + " announced\n";
  for (auto& w : m.waits) {
    s += "    " + t(w.t_inv) + " .. " + t(w.t_ret);
    if (w.op == W_FINISHED) s += " WaitForFinished()";
    else if (w.op == W_STATE) s += sim::format(" WaitForState(%s, %ld ms)", jname(w.s), w.ms);
    else s += " GetCurrentState()";
    s += !w.over ? " has not returned\n" : w.op == W_STATE ? w.res ? " -> true\n" : " -> false\n" : sim::format(" -> %s\n", jname(w.got));
  }
  return s;
}
void announce(MRun& m, int s)
{
  size_t k;
  { Quiet z; k = m.ann.size(); m.ann.push_back({s, tick(), ~0ull, sim::now(), ~0ull}); sim::trace("%s is announced", jname(s)); }
  m.mon.OnStateChange(kState[s]);
  Quiet z;
  m.ann[k].ret = tick(); m.ann[k].t_ret = sim::now();
  sim::ev(static_cast<u64>(s) + 40);
}
void gen27(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  if (r.chance(1, 3)) p.p["f.clock"] = r.chance(1, 2) ? 2000 : 30000;
  int n = r.range(2, 5);
  p.th.resize(static_cast<size_t>(n));
  auto pause = [&] { int d = r.range(0, 3); return static_cast<long>(d == 0 ? 0 : d == 1 ? r.range(1, 5) : r.range(1, 300)); };
  for (int i = r.range(1, 8); i > 0; --i) { Op o; o.code = r.range(0, 6); o.a[0] = pause(); p.th[0].push_back(o); }
  for (int t = 1; t < n; ++t)
    for (int i = r.range(1, 4); i > 0; --i) {
      Op o;
      int d = r.range(0, 9);
      o.code = d < 4 ? W_FINISHED : d < 9 ? W_STATE : W_GET;
      o.a[0] = pause();
      o.a[1] = r.range(0, 6);
      int k = r.range(0, 4);
      o.a[2] = k == 0 ? 0 : k == 1 ? r.range(1, 10) : k == 2 ? r.range(10, 500) : k == 3 ? r.range(500, 5000) : 1000000;
      p.th[static_cast<size_t>(t)].push_back(o);
    }
  p.p["end"] = r.range(4, 6);
}
void run27(const Prog& p)
{
  sim::set_step_cap(400000);
  sim::set_time_cap(40000000000000ull);
  bool calm = p.get("f.stall") == 0;
  MRun m;
  { Quiet z; m.ann.push_back({0, tick(), tick(), sim::now(), sim::now()}); m.waits.reserve(64); m.ann.reserve(64); }
  hx::Threads th;
  for (size_t t = 1; t < p.th.size(); ++t)
    th.Start([&p, &m, t] {
      for (auto& o : p.th[t]) {
        if (o.a[0]) sim::sleep_ns(static_cast<u64>(o.a[0]) * 1000000ull);
        size_t k;
        int op = o.code % N_W, s = static_cast<int>(o.a[1] % 7), got = -1;
        bool res = false;
        { Quiet z; k = m.waits.size(); m.waits.push_back({op, s, o.a[2], false, false, -1, tick(), ~0ull, sim::now(), ~0ull}); }
        if (op == W_FINISHED) got = jcode(m.mon.WaitForFinished());
        else if (op == W_STATE) res = m.mon.WaitForState(kState[s], static_cast<double>(o.a[2]) / 1000.0);
        else got = jcode(m.mon.GetCurrentState());
        Quiet z;
        auto& w = m.waits[k];
        w.over = true; w.res = res; w.got = got; w.ret = tick(); w.t_ret = sim::now();
        sim::trace("wait %zu is over: %d", k, op == W_STATE ? static_cast<int>(res) : got);
        sim::ev(k * 16 + static_cast<u64>(got + 1) + res);
      }
    });
  if (!p.th.empty())
    for (auto& o : p.th[0]) {
      if (o.a[0]) sim::sleep_ns(static_cast<u64>(o.a[0]) * 1000000ull);
      announce(m, o.code % 7);
    }
  // the state does not change any more, then a final one comes
  sim::faults_off();
  auto check = [&] {
    Quiet z;
    const u64 ms = 1000000ull, slack = (calm ? 100 : 14000) * ms;
    auto next = [&](size_t i, bool inv) { return i + 1 < m.ann.size() ? (inv ? m.ann[i + 1].inv : m.ann[i + 1].ret) : ~0ull; };
    auto tnext = [&](size_t i) { return i + 1 < m.ann.size() ? m.ann[i + 1].t_inv : ~0ull; };
    auto fin = [](int s) { return s >= 4; };
    for (auto& w : m.waits) {
      auto wanted = [&](int s) { return w.op == W_FINISHED ? fin(s) : s == w.s; };
      auto say = [&](const char* c, const char* t) { sim::fail(c, std::string(t) + "\n" + show(m)); };
      if (w.over) {
        bool possible = false;
        for (size_t i = 0; i < m.ann.size(); ++i)
          if (m.ann[i].inv <= w.ret && next(i, false) >= w.inv && (w.op == W_STATE ? m.ann[i].s == w.s : m.ann[i].s == w.got)) possible = true;
        if (w.op == W_FINISHED && !fin(w.got)) say("state:not-finished", "WaitForFinished returns a state that is not an end state");
        if (w.op != W_STATE && !possible) say("state:wrong", "a state is returned that the job did not have at any moment of the call");
        if (w.op == W_STATE && w.res && !possible) say("state:never", "WaitForState is true although the job did not have that state at any moment of the call");
        if (w.op == W_STATE && !w.res) {
          u64 end = w.t_inv + static_cast<u64>(w.ms) * ms;
          if (w.t_ret < end) say("state:early", "WaitForState gives up too early");
          if (w.t_ret > end + slack) say("state:late", "WaitForState gives up too late");
          for (size_t i = 0; i < m.ann.size(); ++i)
            if (m.ann[i].s == w.s && m.ann[i].ret < w.ret && m.ann[i].t_ret < end && next(i, true) > w.ret) say("state:missed", "WaitForState is false although the job has had that state since before the time was over");
        }
      }
      if (w.op == W_GET) continue;
      // once the awaited state is there and stays, the wait ends soon
      for (size_t i = 0; i < m.ann.size(); ++i) {
        if (!wanted(m.ann[i].s) || m.ann[i].ret == ~0ull) continue;
        u64 from = std::max(m.ann[i].t_ret, w.t_inv);
        u64 to = std::min<u64>(w.over ? w.t_ret : static_cast<u64>(sim::now()), static_cast<u64>(tnext(i)));
        if (to > from && to - from > slack && (!w.over || next(i, true) > w.inv)) {
          if (m.ann[i].ret < w.inv || w.inv < next(i, true)) say("state:lost-wakeup", "a call goes on waiting although the job has long had the awaited state");
        }
      }
    }
  };
  sim::sleep_ns(30000000000ull);
  check();
  if (m.waits.size() > 1) sim::nontrivial();
  // release whoever still waits, as often as needed
  for (int k = 0; k < 12; ++k) {
    int s = static_cast<int>(p.get("end", 4));
    announce(m, s);
    sim::sleep_ns(30000000000ull);
    check();
  }
  sim::sleep_ns(6000000000000ull);
  check();
  {
    Quiet z;
    size_t n = 0;
    for (size_t t = 1; t < p.th.size(); ++t) n += p.th[t].size();
    if (m.waits.size() != n) sim::fail("state:stuck", "not all calls have returned\n" + show(m));
    for (auto& w : m.waits) if (!w.over) sim::fail("state:stuck", "not all calls have returned\n" + show(m));
    for (auto& w : m.waits) sim::count(w.op == W_FINISHED ? "waits_for_the_end" : w.op == W_STATE ? w.res ? "waits_for_a_state_fulfilled" : "waits_for_a_state_timed_out" : "queries");
  }
  th.Join();
}
sim::Reg r27({"C27",
  "one thread announces states of a job to a SimpleJobStateMonitor while up to four others wait for its end, wait for given states with time-outs, and query it",
  "more than one call was waiting",
  gen27, run27,
  {"SimpleJobStateMonitor"},
  {"job (a thread that announces states)", "scheduler, clock (simulated)"},
  {"end"}, nullptr, rig::prepare});
}  // namespace
