// C17: instructions that ask the user.  C25: the queue of requests for user input.
#include "jobrig.h"

#include <sup/oac-tree/variable_info.h>

#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/exceptions.h>

using namespace rig;

namespace
{
using sup::oac_tree::AsyncInputAdapter;
using sup::oac_tree::IUserInputFuture;
using sup::oac_tree::UserInputReply;
using sup::oac_tree::UserInputRequest;
const u64 ms = 1000000ull;

// ---- C25 ----------------------------------------------------------------------------------------
enum { ADD, WAITF, READYF, GETF, DROPF, N_OPS };
void gen25(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  int nt = r.range(1, 4);
  p.th.resize(static_cast<size_t>(nt));
  for (int t = 0; t < nt; ++t) {
    int n = r.range(1, 8);
    for (int i = 0; i < n; ++i) {
      Op o;
      int d = i == 0 ? 0 : r.range(0, 11);
      o.code = d < 3 ? ADD : d < 6 ? WAITF : d < 8 ? READYF : d < 10 ? GETF : DROPF;
      o.a[0] = r.range(0, 2);                                                  // which of the client's requests
      if (o.code == ADD) { o.a[1] = r.range(0, 3); o.a[2] = r.range(1, 500); } // 0 at once, 1, 2 after a while, 3 when interrupted
      if (o.code == WAITF) o.a[1] = r.chance(1, 2) ? r.range(0, 300) : 1000000;
      o.a[3] = r.chance(1, 3) ? r.range(1, 300) : 0;                          // pause before it
      p.th[static_cast<size_t>(t)].push_back(o);
    }
  }
}
struct Req
{
  int mode = 0;
  u64 dur = 0;
  u64 id = 0;
  u64 add_call = 0, add_ret = 0, start = 0, end = 0, drop_call = 0, drop_ret = 0, got = 0, intr = 0;
  u64 end_time = 0;
  int starts = 0, intrs = 0, answer = -1;
};
struct Adapter
{
  std::vector<Req> req;                    // by tag
  std::map<u64, int> tag_of;               // by id
  std::set<u64> interrupted;
  bool answer_all = false, dead = false;
  int inside = 0;
  UserInputReply Ask(const UserInputRequest& rq, u64 id)
  {
    size_t k;
    int mode, v = 0;
    u64 dur;
    {
      Quiet z;
      dto::AnyValue val;
      std::string d;
      if (!sup::oac_tree::ParseUserValueRequest(rq, val, d)) sim::fail("input:request", "a request reaches the user damaged");
      k = static_cast<size_t>(Observer::node_in(d));
      if (k >= req.size()) sim::fail("input:request", "an unknown request reaches the user");
      auto& q = req[k];
      if (dead) sim::fail("input:after-destruction", "the user is asked after the queue has been destroyed");
      if (inside++) sim::fail("input:overlap", sim::format("the user is asked for request %zu while still busy with another one", k));
      if (q.starts++) sim::fail("input:twice", sim::format("the user is asked twice for request %zu", k));
      if (q.drop_ret && !interrupted.count(id)) sim::fail("input:cancelled", sim::format("the user is asked for request %zu, which had been cancelled", k));
      for (size_t o = 0; o < req.size(); ++o)
        if (o != k && req[o].add_call > q.add_ret && q.add_ret && req[o].starts) sim::fail("input:order", sim::format("the user is asked for request %zu after request %zu, which was made later", k, o));
      q.start = tick();
      q.id = id;
      tag_of[id] = static_cast<int>(k);
      mode = q.mode; dur = q.dur;
      sim::trace("user is asked for request %zu", k);
    }
    u64 t0 = sim::now();
    bool refused = false;
    for (;;) {
      { Quiet z; if (interrupted.count(id)) { refused = true; break; } if (mode == 0 || (mode < 3 && sim::now() - t0 >= dur) || (mode == 3 && answer_all)) break; }
      sim::sleep_ns(5 * ms);
    }
    Quiet z;
    auto& q = req[k];
    q.end = tick();
    q.end_time = sim::now();
    v = refused ? -1 : static_cast<int>(k) * 10 + 3;
    q.answer = v;
    --inside;
    sim::trace("user answers request %zu with %d", k, v);
    sim::ev(mixh(k, static_cast<u64>(v + 1)));
    return sup::oac_tree::CreateUserValueReply(!refused, refused ? dto::AnyValue() : dto::AnyValue(static_cast<dto::int32>(v)));
  }
  void Interrupt(u64 id)
  {
    Quiet z;
    interrupted.insert(id);
    sim::trace("request with id %llu is interrupted", static_cast<unsigned long long>(id));
    ints.push_back({id, tick()});
  }
  struct I { u64 id, at; };
  std::vector<I> ints;
};
void run25(const Prog& p)
{
  sim::set_step_cap(2000000);
  sim::set_time_cap(40000000000000ull);
  const bool calm = p.get("f.stall") == 0;
  Adapter* a;
  {
    Quiet z;
    a = new Adapter;
    size_t n = 0;
    for (auto& t : p.th) for (auto& o : t) if (o.code % N_OPS == ADD) ++n;
    a->req.resize(n);
  }
  auto* ad = new AsyncInputAdapter([a](const UserInputRequest& r, u64 id) { return a->Ask(r, id); }, [a](u64 id) { a->Interrupt(id); });
  size_t next_tag = 0;
  int left = 0;
  {
    Threads th;
    { Quiet z; left = static_cast<int>(p.th.size()); }
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] {
        struct Slot { std::unique_ptr<IUserInputFuture> f; size_t tag = 0; bool ready = false; };
        Slot slot[3];
        auto drop = [&](Slot& s) {
          if (!s.f) return;
          { Quiet z; a->req[s.tag].drop_call = tick(); sim::trace("request %zu is dropped", s.tag); }
          s.f.reset();
          Quiet z;
          a->req[s.tag].drop_ret = tick();
        };
        auto get = [&](Slot& s) {
          bool ended, got = false, valid = s.f->IsValid();
          { Quiet z; ended = a->req[s.tag].end != 0; }
          (void)ended;
          int ok = 0;
          UserInputReply rep{};
          try { rep = s.f->GetValue(); ok = 1; } catch (const sup::oac_tree::InvalidOperationException&) { ok = 2; }
          bool after = s.f->IsValid();
          Quiet z;
          auto& q = a->req[s.tag];
          got = ok == 1;
          if (got && q.got) sim::fail("input:reply-twice", sim::format("the reply to request %zu can be taken twice", s.tag));
          if (got && !q.end) sim::fail("input:reply", sim::format("a reply to request %zu is given although the user has not answered", s.tag));
          if (!got && s.ready && !q.got) sim::fail("input:reply-lost", sim::format("the reply to request %zu cannot be taken although it is ready", s.tag));
          if (got) {
            auto pr = sup::oac_tree::ParseUserValueReply(rep);
            long v = -1;
            if (pr.first && !pr.second.As(v)) v = -2;
            if (!pr.first) v = -1;
            if (v != q.answer) sim::fail("input:reply", sim::format("the reply to request %zu is %ld instead of %d", s.tag, v, q.answer));
            if (after) sim::fail("input:reply-twice", sim::format("the token of request %zu is still valid after the reply has been taken", s.tag));
            q.got = tick();
            sim::count("replies");
          } else if (valid != after) sim::fail("input:token", sim::format("the token of request %zu becomes invalid although there was no reply", s.tag));
        };
        auto wait = [&](Slot& s, u64 lim) {
          u64 t0 = sim::now();
          bool got;
          { Quiet z; got = a->req[s.tag].got != 0; }
          bool ok = s.f->WaitFor(static_cast<double>(lim) / 1000.0);
          Quiet z;
          u64 t1 = sim::now();
          auto& q = a->req[s.tag];
          sim::trace("wait for request %zu: %d", s.tag, ok);
          if (ok && (!q.end || got)) sim::fail("input:ready", sim::format("request %zu is ready although there is no reply", s.tag));
          if (!ok && s.ready && !got) sim::fail("input:reply-lost", sim::format("request %zu is not ready any more", s.tag));
          if (!ok && !got && t1 + 1000 < t0 + lim * ms) sim::fail("input:wait-early", sim::format("waiting for request %zu ends before its time", s.tag));
          if (calm && !got && ok && t1 > std::max(t0, q.end_time) + 300 * ms) sim::fail("input:wait-late", sim::format("waiting for request %zu goes on for %.3f s after the user has answered", s.tag, static_cast<double>(t1 - std::max(t0, q.end_time)) / 1e9));
          if (calm && !got && !ok && q.end && q.end_time + 300 * ms < t1) sim::fail("input:wait-missed", sim::format("waiting for request %zu fails although the user has answered", s.tag));
          if (ok) { s.ready = true; sim::count("waits"); if (t1 > t0 + 10 * ms) sim::count("waits_that_waited"); }
          sim::ev(static_cast<u64>(ok) + 5);
        };
        for (auto& o : p.th[t]) {
          if (o.a[3] > 0) sim::sleep_ns(static_cast<u64>(o.a[3]) * ms);
          Slot& s = slot[o.a[0] % 3 < 0 ? 0 : o.a[0] % 3];
          switch (o.code % N_OPS) {
          case ADD: {
            drop(s);
            UserInputRequest rq{};
            { Quiet z; s.tag = next_tag++; s.ready = false; auto& q = a->req[s.tag]; q.mode = static_cast<int>(o.a[1] & 3); q.dur = static_cast<u64>(o.a[2]) * ms; q.add_call = tick(); rq = sup::oac_tree::CreateUserValueRequest(dto::AnyValue(dto::SignedInteger32Type), sim::format("request n%zu", s.tag)); sim::trace("request %zu is made", s.tag); }
            s.f = ad->AddUserInputRequest(rq);
            Quiet z;
            auto& q = a->req[s.tag];
            q.add_ret = tick();
            rq = UserInputRequest{};
            u64 id = s.f->GetId();
            if (q.id && q.id != id) sim::fail("input:id", "the user is asked under another number than the one of the token");
            q.id = id;
            for (size_t k = 0; k < a->req.size(); ++k) if (k != s.tag && a->req[k].id == id) sim::fail("input:id", "two requests have the same number");
            break; }
          case WAITF: if (s.f) wait(s, static_cast<u64>(o.a[1] < 0 ? 0 : o.a[1] > 2000 ? 20000 : o.a[1])); break;
          case READYF: if (s.f) {
            bool got; { Quiet z; got = a->req[s.tag].got != 0; }
            bool ok = s.f->IsReady();
            Quiet z;
            auto& q = a->req[s.tag];
            if (ok && (!q.end || got)) sim::fail("input:ready", sim::format("request %zu is ready although there is no reply", s.tag));
            if (!ok && s.ready && !got) sim::fail("input:reply-lost", sim::format("request %zu is not ready any more", s.tag));
            if (ok) s.ready = true;
            break; }
            break;
          case GETF: if (s.f) get(s); break;
          default: drop(s); break;
          }
        }
        // At the end the user answers everything; each client waits for its requests in turn.
        { Quiet z; if (--left == 0) { a->answer_all = true; } }
        wait_until([&] { return left == 0; }, 4000000000000ull, 100 * ms);
        sim::faults_off();
        for (auto& s : slot) {
          bool pending;
          { Quiet z; pending = s.f && !a->req[s.tag].got && a->req[s.tag].drop_call == 0; }
          if (!pending) continue;
          u64 t0 = sim::now();
          bool ok = s.f->WaitFor(20000.0);
          {
            Quiet z;
            auto& q = a->req[s.tag];
            if (!ok) sim::fail("input:unanswered", sim::format("request %zu never becomes ready although the user answers everything", s.tag));
            if (sim::now() > std::max(t0, q.end_time) + 15000 * ms) sim::fail("input:wait-late", sim::format("waiting for request %zu goes on for %.3f s after the user has answered", s.tag, static_cast<double>(sim::now() - q.end_time) / 1e9));
            sim::nontrivial();
          }
          get(s);
        }
        for (auto& s : slot) drop(s);
      });
    th.Join();
  }
  u64 t0 = sim::now();
  delete ad;
  Quiet z;
  a->dead = true;
  if (a->inside) sim::fail("input:after-destruction", "the user is still being asked although the queue has been destroyed");
  if (sim::now() > t0 + 10000 * ms) sim::fail("input:destruction", "destroying the queue takes more than ten seconds");
  // interruptions
  for (auto& i : a->ints) {
    Req* q = nullptr;
    for (auto& x : a->req) if (x.id == i.id) q = &x;
    if (!q) sim::fail("input:interrupt", "a request that does not exist is interrupted");
    q->intr = i.at;
    if (++q->intrs > 1) sim::fail("input:interrupt", "a request is interrupted twice");
    if (!q->drop_call || i.at < q->drop_call || i.at > q->drop_ret) sim::fail("input:interrupt", "a request is interrupted that was not being cancelled");
    sim::count("interrupted");
  }
  for (size_t k = 0; k < a->req.size(); ++k) {
    auto& q = a->req[k];
    if (q.drop_call && q.start && q.start < q.drop_call && q.end > q.drop_ret && !q.intrs) sim::fail("input:no-interrupt", sim::format("request %zu was cancelled while the user was being asked, but the user was not told", k));
    if (q.drop_call && !q.start) sim::count("cancelled_in_queue");
  }
  delete a;
}
sim::Reg r25({"C25",
  "one request queue; one to four clients make requests, wait for replies, poll, take and drop them, while the simulated user answers at once, after a while or only when interrupted; in the end all is answered and the queue is destroyed",
  "a request was waited for",
  gen25, run25,
  {"AsyncInputAdapter, its futures, UserInputRequest, UserInputReply"},
  {"user (scripted)", "sup-dto (stand-in)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; if (p.th.empty()) p.th.resize(1); }, rig::prepare});

// ---- C17 ----------------------------------------------------------------------------------------
void fix17(Prog& p)
{
  for (auto& n : p.tree) if (n.kind == PROBE) { n.a[2] = n.a[2] == SLEEP ? SLEEP : PLAIN; if (n.a[1] < 1) n.a[1] = 1; if (ProbeArgs::at(n, static_cast<u64>(n.a[1] - 1)) > F_) n.a[0] = 0; }
  fix_tree(p);
  for (auto& n : p.tree) {
    if (n.kind == PAR) for (int k = 0; k < 2; ++k) if (n.a[k] == 0) n.a[k] = 1;
    if (n.kind == REPEAT && n.a[0] < 0) n.a[0] = 2;
  }
  if (p.get("tick") < 20) p.p["tick"] = 20;
  if (p.th.empty()) p.th.resize(1);
}
void gen17(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 8)) p.p["f.thr"] = r.chance(1, 2) ? 50000 : 300000;
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  static const long ticks[] = {20, 50, 100, 250};
  p.p["tick"] = ticks[r.below(4)];
  TreeOpts o;
  o.max_nodes = r.chance(1, 2) ? 6 : 10;
  o.inner = {PAR, PAR, SEQ, FALLBACK, USERCHOICE, INVERT, FORCE, REPEAT};
  o.leaf = {INPUT, INPUT, CONFIRM, CONFIRM, PROBE, SUCCEED};
  o.modes = 3;
  gen_tree(p, r, o);
  p.p["user"] = r.chance(1, 4) ? 2 : r.range(0, 1);
  p.p["answers"] = r.range(0, 1000000);
  p.p["halt"] = p.p["user"] == 2 || r.chance(1, 4) ? r.range(0, 1500) : -1;
  p.th.resize(1);
  int n = r.chance(1, 3) ? r.range(1, 5) : 0;
  for (int i = 0; i < n; ++i) { Op c; int d = r.range(0, 4); c.code = d < 2 ? PAUSE : d == 2 ? STEP : START; c.a[0] = r.chance(1, 3) ? 0 : r.range(1, 600); p.th[0].push_back(c); }
  fix17(p);
}
void run17(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(20000000000000ull);
  const long halt = p.get("user") == 2 && p.get("halt") < 0 ? 100 : p.get("halt", -1);
  JobRig r(p, static_cast<int>(p.get("user")));
  const size_t N = p.tree.size();
  size_t ev0, from;
  int first_var = 0;
  { Quiet z; for (auto& v : r.job->GetInfo().GetWorkspaceInfo().GetVariableInfos()) if (v.first == "v0") first_var = static_cast<int>(v.second.GetIndex()); }
  { Quiet z; ev0 = r.obs.ev.size(); from = r.log.size(); r.track_halts = true; }
  r.command(START);
  if (halt >= 0) sim::sleep_ns(static_cast<u64>(halt) * ms);
  else
    for (auto& o : p.th[0]) {
      if (o.a[0] > 0) sim::sleep_ns(static_cast<u64>(o.a[0]) * ms);
      bool fin; { Quiet z; fin = r.obs.state >= 4; }
      if (fin) break;
      r.command(o.code % 3);
    }
  bool done = false;
  if (halt >= 0) {
    r.command(HALT);
    done = r.wait_state({4, 5, 6}, 400000000000ull, 10 * ms);
  } else {
    for (int k = 0; k < 8000 && !done; ++k) {
      bool paused; { Quiet z; paused = r.obs.state == 1; }
      if (paused) r.command(START);
      done = r.wait_state({4, 5, 6}, 200 * ms, 5 * ms);
    }
  }
  sim::faults_off();
  sim::sleep_ns(10000000000ull);
  {
    Quiet z;
    auto all = [&] {
      std::string s = show_tree(p);
      size_t k = 0;
      for (size_t i = from; i < r.obs.ev.size() && k < 60; ++i) {
        auto& e = r.obs.ev[i];
        if (e.t == Ev::ASK) s += sim::format("    %9.3fs asked (id %d, instruction %d)\n", static_cast<double>(e.time - 1000000000ull) / 1e9, e.a, e.b), ++k;
        if (e.t == Ev::ANSWER) s += sim::format("    %9.3fs answered (id %d, instruction %d) with %d\n", static_cast<double>(e.time - 1000000000ull) / 1e9, e.a, e.c, e.b), ++k;
        if (e.t == Ev::INTERRUPT) s += sim::format("    %9.3fs interrupted (id %d)\n", static_cast<double>(e.time - 1000000000ull) / 1e9, e.a), ++k;
        if (e.t == Ev::INSTR) s += sim::format("    %9.3fs instruction %d is %s\n", static_cast<double>(e.time - 1000000000ull) / 1e9, r.node_of[static_cast<size_t>(e.a)], sname(e.b)), ++k;
        if (e.t == Ev::STATE) s += sim::format("    %9.3fs job is %s\n", static_cast<double>(e.time - 1000000000ull) / 1e9, jname(e.a)), ++k;
        if (e.t == Ev::VAR) s += sim::format("    %9.3fs variable %d is %d\n", static_cast<double>(e.time - 1000000000ull) / 1e9, e.a, e.b), ++k;
      }
      return s;
    };
    auto bad = [&](const char* cls, const std::string& m) { sim::fail(cls, m + "\n" + all()); };
    from = ev0;
    if (!done) bad(halt >= 0 ? "ask:does-not-halt" : "ask:does-not-end", halt >= 0 ? "a job that asks the user does not halt" : "a job whose questions are all answered does not end");
    int open = -1;
    std::map<int, int> ans;                          // last answer by node; -9 while it is open
    std::vector<int> st(N, 0), chosen(N, -9);
    std::map<int, std::multiset<int>> given, written; // by variable
    std::map<int, int> asked_node;
    std::set<int> ids;
    std::vector<char> asked_once(N, 0);
    bool halted = false;
    size_t li = 0;                                    // position in the combined list (for halting marks)
    std::vector<char> mark(r.obs.ev.size(), 0);
    for (size_t i = 0; i < r.log.size(); ++i) if (r.log[i].t == Item::INSTR && r.log[i].halting) {
      // the corresponding observer event: the n-th INSTR event
      size_t n = 0;
      for (size_t k = 0; k <= i; ++k) if (r.log[k].t == Item::INSTR) ++n;
      size_t m = 0;
      for (li = 0; li < r.obs.ev.size(); ++li) if (r.obs.ev[li].t == Ev::INSTR && ++m == n) { mark[li] = 1; break; }
    }
    for (size_t i = ev0; i < r.obs.ev.size(); ++i) {
      auto& e = r.obs.ev[i];
      if (e.t == Ev::ASK) {
        if (open >= 0) bad("ask:overlap", sim::format("the user is asked by instruction %d while still busy with another question", e.b));
        if (e.b < 0 || e.b >= static_cast<int>(N)) bad("ask:unknown", "the user is asked a question that no instruction asks");
        if (!ids.insert(e.a).second) bad("ask:twice", "the user is asked twice under the same number");
        if (asked_once[static_cast<size_t>(e.b)]++) bad("ask:twice", sim::format("instruction %d asks twice in one execution", e.b));
        auto& n = p.tree[static_cast<size_t>(e.b)];
        int want = n.kind == CONFIRM ? 2 : 0;
        if (n.kind == USERCHOICE) { for (auto& c : p.tree) if (c.parent == e.b) ++want; }
        if (e.c != want) bad("ask:options", sim::format("instruction %d offers %d options instead of %d", e.b, e.c, want));
        if (halted && e.time > r.obs.ev.back().time) bad("ask:after-end", "never");
        open = e.a;
        ans[e.b] = -9;
        asked_node[e.a] = e.b;
        sim::count("questions");
      }
      if (e.t == Ev::ANSWER) { sim::count(e.b >= 0 ? "answers" : "refusals"); open = -1; ans[e.c] = e.b; if (r.obs.interrupted.count(static_cast<u64>(e.a))) ans[e.c] = -2; else if (e.b >= 0) sim::nontrivial(); }
      if (e.t == Ev::INTERRUPT) sim::count("interrupts");
      if (e.t == Ev::VAR && e.a >= first_var) written[e.a - first_var].insert(e.b);
      if (e.t == Ev::INSTR) {
        int k = r.node_of[static_cast<size_t>(e.a)];
        size_t u = static_cast<size_t>(k);
        auto& n = p.tree[u];
        if (e.b >= 3 && (n.kind == INPUT || n.kind == CONFIRM || n.kind == USERCHOICE)) sim::count(mark[i] ? "marked_ends" : "ends");
        st[u] = e.b;
        if (mark[i]) { if (e.b == 0) { asked_once[u] = 0; ans.erase(k); chosen[u] = -9; } if (n.kind == INPUT && e.b == 3) given[static_cast<int>(n.a[0] & 3)].insert(ans.count(k) ? ans[k] : -7); continue; }
        if (e.b == 0) { asked_once[u] = 0; ans.erase(k); chosen[u] = -9; continue; }
        if (n.kind == INPUT || n.kind == CONFIRM || n.kind == USERCHOICE) {
          int got = ans.count(k) ? ans[k] : -7;   // -7 not asked, -9 open, -2 interrupted, -1 refused
          if (e.b == 3 || e.b == 4) {
            if (got == -7 || got == -9) bad("ask:no-answer", sim::format("instruction %d ends with %s although the user has not answered", k, sname(e.b)));
            if (got == -2) bad("ask:interrupted", sim::format("the question of instruction %d was interrupted without reason", k));
          }
          if (n.kind == INPUT && e.b == 3) { if (got < 0) bad("ask:result", sim::format("instruction %d succeeds although the user has refused", k)); given[static_cast<int>(n.a[0] & 3)].insert(got); }
          if (n.kind == INPUT && e.b == 4 && got >= 0) bad("ask:result", sim::format("instruction %d fails although the user has answered", k));
          if (n.kind == CONFIRM && (e.b == 3 || e.b == 4) && (e.b == 3) != (got == 0)) bad("ask:result", sim::format("instruction %d ends with %s after the answer %d", k, sname(e.b), got));
          if (n.kind == USERCHOICE && (e.b == 3 || e.b == 4)) {
            std::vector<int> ch;
            for (size_t c = 0; c < N; ++c) if (p.tree[c].parent == k) ch.push_back(static_cast<int>(c));
            if (got < 0 || got >= static_cast<int>(ch.size())) { if (e.b == 3) bad("ask:result", sim::format("instruction %d succeeds after the answer %d", k, got)); }
            else {
              if (st[static_cast<size_t>(ch[static_cast<size_t>(got)])] != e.b) bad("ask:choice", sim::format("instruction %d ends with %s, but the chosen instruction is %s", k, sname(e.b), sname(st[static_cast<size_t>(ch[static_cast<size_t>(got)])])));
              for (int c : ch) if (c != ch[static_cast<size_t>(got)] && st[static_cast<size_t>(c)] != 0) bad("ask:choice", sim::format("instruction %d has been executed although %d was chosen", c, ch[static_cast<size_t>(got)]));
            }
          }
        }
      }
      if (e.t == Ev::STATE && e.a >= 4) halted = true;
    }
    if (open >= 0) bad("ask:left-open", "the job has ended, but the user is still being asked");
    for (int v = 0; v < 4; ++v) {
      // a request that was being answered while it was halted may or may not have been stored
      if (given[v] != written[v]) {
        bool any = false;
        for (size_t i = 0; i < N; ++i) if (p.tree[i].kind == INPUT && (p.tree[i].a[0] & 3) == v) any = true;
        if (any) {
          std::string s;
          for (int x : given[v]) s += sim::format(" %d", x);
          s += " were answered,";
          for (int x : written[v]) s += sim::format(" %d", x);
          bad("ask:variable", sim::format("variable %d:", v) + s + " were stored");
        }
      }
    }
    if (halt >= 0 && r.obs.state == 6) sim::count("halted");
    for (auto& e : r.obs.ev) if (e.t == Ev::INTERRUPT && !ids.count(e.a)) bad("ask:interrupt", "a question is interrupted that has never been asked");
  }
  r.job.reset();
}
sim::Reg r17({"C17",
  "one job with inputs, confirmations and choices in parallel and in sequence; the simulated user answers at once, after a while, sometimes refuses, or never; the job is paused, stepped and halted; questions, answers, stored values, chosen instructions and interruptions are compared",
  "the user answered a question",
  gen17, run17,
  {"LocalJob, AsyncRunner, Runner, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, Input, UserConfirmation, UserChoice, ParallelSequence, AsyncWrapper, sequential control instructions"},
  {"sup-dto/log/xml (stand-ins)", "user (scripted)", "leaf instructions (scripted)", "observer (recording)", "scheduler, clock, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; fix17(p); }, rig::prepare});
}  // namespace
