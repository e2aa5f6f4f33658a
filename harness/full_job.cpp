// C06: the job command state machine, checked against a nondeterministic reference automaton.
#include "rig.h"

using namespace rig;
using sup::oac_tree::LocalJob;

namespace
{
enum Cmd { START = 0, STEP, PAUSE, RESET, HALT };
const char* const cname[] = {"Start", "Step", "Pause", "Reset", "Halt"};
enum { E_STATE, E_PROBE, E_INV, E_RET };
struct E { int t; int a; int b; u64 time; };

// ---- the automaton ----------------------------------------------------------------------------
enum Pc { IDLE = 0, EMIT_IDLE, EMIT_RUN, EMIT_STEPPING, RESETTING, RENTER, RLOOP, RTICK, RFIN, EMIT_RPOST, RPOST, STICK, SFIN, EMIT_FIN_IDLE };
struct S
{
  int pc = IDLE, st = 0, em = 0; bool rh = false, mh = false;
  int pend[4] = {0, 0, 0, 0};   // 0 none, 1 called, 2 taken effect
  int qn = 0; int q[13] = {};
  u64 key() const
  {
    u64 k = static_cast<u64>(pc) | static_cast<u64>(st) << 4 | static_cast<u64>(em) << 7 | static_cast<u64>(rh) << 10 | static_cast<u64>(mh) << 11;
    for (int i = 0; i < 4; ++i) k |= static_cast<u64>(pend[i]) << (12 + 2 * i);
    k |= static_cast<u64>(qn) << 20;
    for (int i = 0; i < qn; ++i) k |= static_cast<u64>(q[i]) << (24 + 3 * i);
    return k;
  }
};
bool fin(int st) { return st >= 4; }
struct Nfa
{
  std::map<u64, S> cur;
  int call[4] = {0, 0, 0, 0};
  Nfa() { S s; cur[s.key()] = s; close(); }
  static int pop(S& s) { int c = s.q[0]; for (int i = 1; i < s.qn; ++i) s.q[i - 1] = s.q[i]; --s.qn; return c; }
  void successors(const S& s, std::vector<S>& out)
  {
    for (int c = 0; c < 4; ++c) {
      if (s.pend[c] != 1) continue;
      S n = s;
      n.pend[c] = 2;
      int cmd = call[c];
      if (cmd == HALT) {
        if (n.qn == 0 || n.q[0] < HALT) {
          for (int i = n.qn; i > 0; --i) n.q[i] = n.q[i - 1];
          n.q[0] = HALT; ++n.qn;
          n.rh = n.mh = true;
        }
      } else if (n.qn < 13) n.q[n.qn++] = cmd;
      out.push_back(n);
    }
    S n = s;
    auto to = [&](int pc) { n.pc = pc; out.push_back(n); n = s; };
    auto emit = [&](int pc, int st) { n.em = st; to(pc); };
    switch (s.pc) {
    case IDLE:
      if (s.qn == 0) break;
      { int c = pop(n);
        if (fin(s.st)) { to(c == RESET ? RESETTING : IDLE); break; }
        if (s.st == 3) {  // the loop ended because of a halt that is still queued
          if (c == HALT) emit(EMIT_IDLE, 6); else if (c == STEP || c == PAUSE) { n.mh = true; emit(EMIT_IDLE, 1); } else to(IDLE);
          break;
        }
        if (c == START) emit(EMIT_RUN, 3); else if (c == STEP) emit(EMIT_STEPPING, 2); else if (c == HALT) emit(EMIT_IDLE, 6); else to(IDLE); }
      break;
    case RESETTING: n.rh = false; emit(EMIT_IDLE, 0); break;
    case RENTER: n.mh = false; to(RLOOP); break;
    case RLOOP: if (s.rh || s.mh || fin(s.st)) to(IDLE); else to(RTICK); break;
    case RTICK: to(RFIN); break;
    case RFIN:
      emit(EMIT_RPOST, 4); emit(EMIT_RPOST, 5);
      to(RPOST);
      if (s.qn) { int c = pop(n);
        if (c == HALT) emit(EMIT_RPOST, 6); else if (c == STEP || c == PAUSE) { n.mh = true; emit(EMIT_RPOST, 1); } else to(RPOST); }
      break;
    case RPOST: to(RLOOP); break;
    case STICK: to(SFIN); break;
    case SFIN: emit(EMIT_IDLE, 4); emit(EMIT_IDLE, 5); emit(EMIT_IDLE, 1); break;
    default: break;
    }
  }
  void close()
  {
    std::vector<S> todo;
    for (auto& k : cur) todo.push_back(k.second);
    std::vector<S> out;
    while (!todo.empty()) {
      S s = todo.back();
      todo.pop_back();
      out.clear();
      successors(s, out);
      for (auto& n : out) if (cur.emplace(n.key(), n).second) todo.push_back(n);
    }
  }
  bool feed(const E& e)
  {
    std::map<u64, S> next;
    for (auto& k : cur) {
      S s = k.second;
      bool ok = false;
      switch (e.t) {
      case E_INV: s.pend[e.a] = 1; ok = true; break;
      case E_RET: ok = s.pend[e.a] == 2; s.pend[e.a] = 0; break;
      case E_PROBE: ok = s.pc == RTICK || s.pc == STICK; break;
      case E_STATE:
        if (s.em != e.a) break;
        switch (s.pc) {
        case EMIT_IDLE: ok = true; s.pc = IDLE; break;
        case EMIT_RUN: ok = true; s.pc = RENTER; break;
        case EMIT_STEPPING: ok = true; s.pc = STICK; break;
        case EMIT_RPOST: ok = true; s.pc = RPOST; break;
        default: break;
        }
        if (ok) { s.st = s.em; s.em = 0; }
        break;
      }
      if (ok) next[s.key()] = s;
    }
    if (e.t == E_INV) call[e.a] = e.b;
    cur.swap(next);
    if (cur.empty()) return false;
    close();
    return true;
  }
  std::string show() const
  {
    std::set<std::string> r;
    for (auto& k : cur) {
      std::string s = sim::format("%s, queue [", jname(k.second.st));
      for (int i = 0; i < k.second.qn; ++i) s += sim::format("%s%s", i ? " " : "", cname[k.second.q[i]]);
      r.insert(s + "]");
    }
    std::string s;
    int n = 0;
    for (auto& k : r) if (n++ < 6) s += "    " + k + "\n";
    return s;
  }
};

std::string show(const std::vector<E>& ev, size_t upto)
{
  std::string s;
  for (size_t i = 0; i < ev.size() && i <= upto; ++i) {
    auto& e = ev[i];
    s += i == upto ? "  > " : "    ";
    s += sim::format("%8.3fs ", static_cast<double>(e.time) / 1e9);
    switch (e.t) {
    case E_STATE: s += sim::format("job state %s (root %s)\n", jname(e.a), sname(e.b)); break;
    case E_PROBE: s += sim::format("instruction %d executed\n", e.a); break;
    case E_INV: s += sim::format("client %d calls %s()\n", e.a, cname[e.b]); break;
    case E_RET: s += sim::format("client %d: %s() returned\n", e.a, cname[e.b]); break;
    }
  }
  return s;
}

void gen(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  TreeOpts o;
  o.inner = {SEQ, FALLBACK, SEQ, REPEAT, INVERT, FORCE, RSEQ, RFALLBACK};
  o.leaf = {PROBE, PROBE, PROBE, WAIT};
  o.max_nodes = 7;
  o.modes = 3;
  gen_tree(p, r, o);
  for (auto& n : p.tree) if (n.kind == WAIT) n.a[0] = r.range(0, 1200);
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  fix_ending_tree(p);
  int nt = r.range(1, 3);
  p.th.resize(static_cast<size_t>(nt));
  int n = r.range(2, 12);
  int focus = r.range(0, 3);
  for (int i = 0; i < n; ++i) {
    Op op;
    int d = r.range(0, 99);
    if (focus == 0) op.code = d < 35 ? START : d < 60 ? STEP : d < 80 ? PAUSE : d < 90 ? RESET : HALT;
    else if (focus == 1) op.code = d < 30 ? START : d < 35 ? STEP : d < 40 ? PAUSE : d < 70 ? RESET : HALT;
    else op.code = r.range(0, 4);
    if (i == 0 && r.chance(2, 3)) op.code = START;
    int w = r.range(0, 7);
    op.a[0] = w == 6 ? -r.range(1, 6) : w == 7 ? -r.range(1, 40) : w < 3 ? 0 : w == 3 ? r.range(1, 20) : w == 4 ? r.range(1, 400) : r.range(1, 3000);
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(op);
  }
}

struct R06 { std::vector<E> ev; };

void run(const Prog& p)
{
  sim::set_step_cap(600000);
  sim::set_time_cap(4000000000000ull);
  auto* h = new Hub;
  auto* rec = new R06;
  auto* obs = new Observer;
  {
    Quiet z;
    h->user = rec;
    h->on_start = [](Hub& hub, int i) { static_cast<R06*>(hub.user)->ev.push_back({E_PROBE, i, 0, sim::now()}); };
    obs->hook = [rec](Ev& e) { if (e.t == Ev::STATE) rec->ev.push_back({E_STATE, e.a, e.b, e.time}); };
  }
  auto proc = make_procedure(*h, p, p.get("tick", 100));
  obs->proc = proc.get();
  std::unique_ptr<LocalJob> job(new LocalJob(std::move(proc), *obs));
  {
    Threads th;
    for (size_t c = 0; c < p.th.size() && c < 4; ++c)
      th.Start([&, c] {
        for (auto& o : p.th[c]) {
          pause_for(o.a[0]);
          int cmd = static_cast<int>(o.code % 5);
          { Quiet z; rec->ev.push_back({E_INV, static_cast<int>(c), cmd, sim::now()}); sim::trace("client %d: %s()", static_cast<int>(c), cname[cmd]); }
          switch (cmd) {
          case START: job->Start(); break;
          case STEP: job->Step(); break;
          case PAUSE: job->Pause(); break;
          case RESET: job->Reset(); break;
          default: job->Halt(); break;
          }
          Quiet z;
          rec->ev.push_back({E_RET, static_cast<int>(c), cmd, sim::now()});
          sim::trace("client %d: %s() returned", static_cast<int>(c), cname[cmd]);
        }
      });
    th.Join();
  }
  sim::faults_off();
  // everything in these trees ends by itself: give it ample virtual time to become quiet
  size_t seen = 0;
  int calm = 0;
  for (int i = 0; i < 400 && calm < 3; ++i) {
    sim::sleep_ns(20000000000ull);
    Quiet z;
    if (rec->ev.size() == seen) ++calm; else calm = 0;
    seen = rec->ev.size();
  }
  {
    Quiet z;
    if (rec->ev.empty() || rec->ev[0].t != E_STATE || rec->ev[0].a != 0)
      sim::fail("state:no-initial", "a new job does not announce the state Initial first\n" + show(rec->ev, rec->ev.size()));
    Nfa m;
    int st = 0, distinct = 0;
    for (size_t i = 1; i < rec->ev.size(); ++i) {
      auto& e = rec->ev[i];
      if (e.t == E_STATE) {
        bool rootfin = e.b >= 3;
        if ((e.a == 4 && e.b != 3) || (e.a == 5 && e.b != 4) || (e.a == 0 && e.b != 0) || ((e.a == 1 || e.a == 2 || e.a == 3 || e.a == 6) && rootfin))
          sim::fail("state:root-status", sim::format("the job announces the state %s while its root instruction is %s\n", jname(e.a), sname(e.b)) + show(rec->ev, i));
        if (e.a != st) ++distinct;
        st = e.a;
      }
      sim::ev(mixh(static_cast<u64>(e.t) * 16 + static_cast<u64>(e.a), static_cast<u64>(e.b)));
      if (!m.feed(e)) {
        const char* cls = e.t == E_STATE ? "state:illegal-transition" : e.t == E_PROBE ? "state:execution-when-not-running" : "state:command-without-effect";
        Nfa m2;
        for (size_t k = 1; k < i; ++k) m2.feed(rec->ev[k]);
        sim::fail(cls, "no order of the commands given explains what the job did:\n" + show(rec->ev, i) + "  possible before the marked event:\n" + m2.show());
      }
    }
    bool ok = false;
    for (auto& k : m.cur) if (k.second.pc == IDLE && k.second.qn == 0 && k.second.st != 3 && k.second.st != 2) ok = true;
    if (!ok)
      sim::fail("state:stuck", "the job does not process the commands given to it, or stays in a transient state\n" + show(rec->ev, rec->ev.size()) + "  possible now:\n" + m.show());
    if (distinct >= 2) sim::nontrivial();
    for (auto& e : rec->ev) if (e.t == E_INV) sim::count(e.b == START ? "commands_start" : e.b == STEP ? "commands_step" : e.b == PAUSE ? "commands_pause" : e.b == RESET ? "commands_reset" : "commands_halt");
    for (auto& e : rec->ev) if (e.t == E_STATE) sim::count((std::string("state_") + jname(e.a)).c_str());
  }
  job.reset();
}
sim::Reg r06({"C06",
  "one job with a random procedure (scripted leaf instructions, waits) and one to three clients that give Start, Step, Pause, Reset and Halt at random times; every job-state notification, leaf execution and command call is checked against a nondeterministic reference automaton of the job, which must also be idle with an empty queue at the end",
  "the job changed state at least twice",
  gen, run,
  {"LocalJob, AsyncRunner, Runner, JobCommandQueue, JobInterfaceAdapter, Procedure, instructions"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix_ending_tree(p); }, rig::prepare});
}  // namespace
