// C22: instructions that wait.
#include "jobrig.h"

using namespace rig;

namespace
{
int add(Prog& p, int parent, int kind, long a0 = 0, long a1 = 0, long a2 = 0)
{
  sim::Node n;
  n.parent = parent; n.kind = kind; n.a[0] = a0; n.a[1] = a1; n.a[2] = a2;
  p.tree.push_back(n);
  return static_cast<int>(p.tree.size()) - 1;
}
long duration(Rng& r) { int d = r.range(0, 9); return d < 1 ? 0 : d < 4 ? r.range(1, 60) : d < 8 ? r.range(60, 1500) : r.range(1500, 30000); }
void gen22(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  if (r.chance(1, 2)) p.p["f.clock"] = r.chance(1, 2) ? 2000 : 30000;
  static const long ticks[] = {20, 50, 100, 250};
  p.p["tick"] = ticks[r.below(4)];
  p.p["vars"] = 1;
  bool par = r.chance(3, 4);
  if (par) add(p, -1, PAR, -1, -1); else add(p, -1, SEQ);
  int n = r.range(1, 4);
  long k = r.range(0, 2);
  for (int i = 0; i < n; ++i) {
    int f = add(p, 0, FORCE);
    int d = r.range(0, 9);
    if (d < 4) { add(p, f, WAIT, duration(r), r.range(0, 1)); continue; }
    if (d == 4 || (d < 7 && r.chance(1, 3))) { add(p, f, WAITVARS, r.chance(1, 12), duration(r)); p.p["avn"] = 1; continue; }
    if (d < 7) { add(p, f, WAITVAR, k, duration(r), 1); continue; }
    int s = add(p, f, SEQ);
    add(p, s, WAIT, duration(r), r.range(0, 1));
    if (d < 9) add(p, s, COPY, k);
    else add(p, s, WAIT, duration(r), r.range(0, 1));
  }
  if (p.get("avn")) {
    int nv = r.range(0, 5);
    p.p["avn"] = nv;
    const bool spans = r.chance(1, 3);
    for (int k = 0; k < nv; ++k) {
      long from = r.chance(1, 12) ? -1 : r.chance(1, 3) ? 0 : duration(r);
      p.p["av" + std::to_string(k)] = from;
      if (spans && from >= 0 && r.chance(1, 2)) p.p["au" + std::to_string(k)] = from + r.range(1, 3000);
    }
  }
}
void fix22(Prog& p)
{
  for (auto& n : p.tree) if (n.kind == PROBE) n.kind = SUCCEED;
  fix_tree(p);
  for (auto& n : p.tree) if (n.kind == PROBE) n.kind = SUCCEED;
  if (!p.tree.empty() && p.tree[0].kind == PAR) p.tree[0].a[0] = p.tree[0].a[1] = -1;
  if (p.get("tick") < 20) p.p["tick"] = 20;
  p.p["vars"] = 1;
}
void run22(const Prog& p)
{
  sim::set_step_cap(2000000);
  sim::set_time_cap(4000000000000ull);
  JobRig r(p);
  r.command(START);
  bool done = r.wait_state({4, 5, 6}, 1000000000000ull, 100000000ull);
  sim::faults_off();
  sim::sleep_ns(10000000000ull);
  {
    Quiet z;
    if (!done) sim::fail("wait:does-not-end", "a procedure whose waits all have time-outs does not end\n" + show_tree(p) + r.show(r.log.size()));
    size_t N = p.tree.size();
    std::vector<u64> t0(N, 0), t1(N, 0);
    std::vector<int> res(N, 0);
    for (auto& e : r.log)
      if (e.t == Item::INSTR) {
        size_t k = static_cast<size_t>(r.node_of[static_cast<size_t>(e.a)]);
        if (!t0[k]) t0[k] = e.time;
        if (e.b >= 3) { t1[k] = e.time; res[k] = e.b; }
      }
    bool calm = p.get("f.stall") == 0;
    const u64 ms = 1000000ull, slack = (static_cast<u64>(p.get("tick")) + 50 + 30) * ms;
    for (size_t i = 0; i < N; ++i) {
      auto& n = p.tree[i];
      if (!t1[i]) continue;
      u64 dt = t1[i] - t0[i];
      // the wait begins some time before its start is announced
      u64 from = t0[i];
      if (n.parent >= 0) {
        from = t0[static_cast<size_t>(n.parent)];
        for (size_t j = 0; j < i; ++j) if (p.tree[j].parent == n.parent && p.tree[static_cast<size_t>(n.parent)].kind == SEQ) from = t1[j];
      }
      const u64 atmost = t1[i] - std::min(from, t1[i]);
      auto bad = [&](const char* cls, const std::string& m) { sim::fail(cls, m + sim::format(" (instruction %zu, from %.4f s to %.4f s)\n", i, static_cast<double>(t0[i]) / 1e9, static_cast<double>(t1[i]) / 1e9) + show_tree(p) + r.show(r.log.size())); };
      if (n.kind == WAIT) {
        u64 want = static_cast<u64>(n.a[0]) * ms;
        if (res[i] != 3) bad("wait:fails", "a wait that is not halted fails");
        if (atmost + 1000 < want) bad("wait:early", sim::format("a wait of %.3f s ends after %.4f s", static_cast<double>(want) / 1e9, static_cast<double>(dt) / 1e9));
        if (calm && dt > want + slack) bad("wait:late", sim::format("a wait of %.3f s ends only after %.4f s", static_cast<double>(want) / 1e9, static_cast<double>(dt) / 1e9));
        if (want > 0) sim::nontrivial();
        sim::count(n.a[1] ? "waits_blocking" : "waits_polled");
      }
      if (n.kind == WAITVARS) {
        const u64 limit = static_cast<u64>(n.a[1]) * ms;
        // whether all were available at some time of a span, and whether they were all of the time
        auto all = [&](u64 a, u64 b, bool& some, bool& always) {
          some = always = true;
          if (n.a[0] & 1) return;
          u64 z0 = 0, z1 = ~0ull;
          for (int k = 0; k < static_cast<int>(p.get("avn")); ++k) {
            long f = p.get(("av" + std::to_string(k)).c_str()), u = p.get(("au" + std::to_string(k)).c_str());
            z0 = std::max<u64>(z0, f < 0 ? ~0ull : static_cast<u64>(f) * ms + 1000000000ull);
            if (u) z1 = std::min<u64>(z1, static_cast<u64>(u) * ms + 1000000000ull);
          }
          some = z0 <= b && z1 > a && z0 < z1;
          if (!calm) {
            // a look at all of them may take long
            some = true;
            for (int k = 0; k < static_cast<int>(p.get("avn")); ++k) {
              long f = p.get(("av" + std::to_string(k)).c_str()), u = p.get(("au" + std::to_string(k)).c_str());
              if (f < 0 || static_cast<u64>(f) * ms + 1000000000ull > b || (u && static_cast<u64>(u) * ms + 1000000000ull < a)) some = false;
            }
          }
          always = z0 <= a && z1 > b;
        };
        bool some, always;
        all(from, t1[i], some, always);
        if (res[i] == 3 && !some) bad("waitvars:wrong", "waiting for all variables to be available succeeds although they were not, all at once");
        if (res[i] == 4 && always) bad("waitvars:missed", "waiting for all variables to be available fails although they were all of the time");
        if (calm) {
          all(t1[i] - std::min<u64>(t1[i], 2 * ms), t1[i], some, always);
          if (res[i] == 3 && !some) bad("waitvars:wrong", "waiting for all variables to be available succeeds when they are not");
          if (res[i] == 4 && always) bad("waitvars:missed", "waiting for all variables to be available fails when they are");
          if (dt > slack) { all(t1[i] - slack, t1[i] - ms, some, always); if (always) bad("waitvars:late", "waiting for all variables to be available ends late"); }
        }
        if (res[i] == 4 && atmost + 1000 < limit) bad("waitvars:early", sim::format("a wait of %.3f s for variables fails after %.4f s", static_cast<double>(limit) / 1e9, static_cast<double>(dt) / 1e9));
        if (calm && dt > limit + slack) bad("waitvars:late", sim::format("a wait of %.3f s for variables ends only after %.4f s", static_cast<double>(limit) / 1e9, static_cast<double>(dt) / 1e9));
        sim::count(res[i] == 3 ? "variables_waits_successful" : "variables_waits_timed_out");
        if (res[i] == 3 && dt > 1000) sim::count("variables_waits_that_took_time");
      }
      if (n.kind == WAITVAR) {
        u64 limit = static_cast<u64>(n.a[1]) * ms;
        // when the copies that make the two variables equal were made
        u64 first_start = ~0ull, first_end = ~0ull;
        for (size_t c = 0; c < N; ++c) if (p.tree[c].kind == COPY && p.tree[c].a[0] == n.a[0] && t1[c]) { first_start = std::min(first_start, t0[c]); first_end = std::min(first_end, t1[c]); }
        if (res[i] == 3 && t1[i] < first_start) bad("waitvar:wrong", "waiting for two variables to be equal succeeds before they can be");
        if (res[i] == 4 && atmost + 1000 < limit) bad("waitvar:early", sim::format("a wait of %.3f s for a variable fails after %.4f s", static_cast<double>(limit) / 1e9, static_cast<double>(dt) / 1e9));
        if (calm && res[i] == 4 && dt > limit + slack) bad("waitvar:late", sim::format("a wait of %.3f s for a variable fails only after %.4f s", static_cast<double>(limit) / 1e9, static_cast<double>(dt) / 1e9));
        const bool made = first_end != ~0ull;
        if (res[i] == 4 && made && first_end < t0[i]) bad("waitvar:missed", "waiting for two variables to be equal fails although they are");
        if (calm && made && res[i] == 4 && first_end + 1000 < t1[i] - std::min(dt, slack)) bad("waitvar:missed", "waiting for two variables to be equal fails although they have been for long enough");
        if (calm && made && res[i] == 3 && t1[i] > std::max(t0[i], first_end) + slack) bad("waitvar:late", "waiting for two variables to be equal succeeds late");
        sim::count(res[i] == 3 ? "variable_waits_successful" : "variable_waits_timed_out");
      }
    }
  }
  r.job.reset();
}
sim::Reg r22({"C22",
  "one job with waits (blocking and polled), waits for two variables to become equal or for several to become available, and copies that make them so, in parallel or in sequence; the wall clock is set forwards and backwards while it runs; the simulated times from start to end of each wait are checked",
  "a wait of more than no time ended",
  gen22, run22,
  {"LocalJob, AsyncRunner, Runner, Procedure, Workspace, ParallelSequence, AsyncWrapper, Wait, WaitForVariable, WaitForVariables, Copy, ForceSuccess, Sequence"},
  {"sup-dto/log/xml (stand-ins)", "observer (recording)", "scheduler, clocks, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix22(p); }, rig::prepare});
}  // namespace
