// C31: what the instructions do for others to see - values put out, messages, log entries, changed variables, questions.
#include "anytree.h"
#include "jobrig.h"

#include <sup/oac-tree/variable_info.h>

using namespace rig;

namespace
{
constexpr u64 s1 = 1000000000ull;
enum { SEQUENTIAL = 0, ASKING, PARALLEL };
bool asking(int k) { return k == INPUT || k == CONFIRM || k == USERCHOICE; }
bool delays(const Prog& p) { for (auto& n : p.tree) if (asking(n.kind) || n.kind == WAIT) return true; return false; }
void fix31(Prog& p);
void gen31(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  const int style = r.range(0, 4) < 2 ? SEQUENTIAL : r.chance(1, 3) ? ASKING : PARALLEL;
  p.p["style"] = style;
  TreeOpts o;
  o.inner = {SEQ, SEQ, SEQ, FALLBACK, REPEAT, REPEAT, FOR, INVERT, FORCE, CHOICE, FALLBACK, SEQ};
  o.leaf = {PROBE, PROBE, INCR, DECR, COPY, EQUALS, LESS, LESSEQ, GREATER, GREATEREQ, VAREXISTS, CONDITION, LOGI, LOGI, LOGI, OUTPUT, OUTPUT, OUTPUT, MESSAGE, MESSAGE, RESETVAR, ADDELEM, ADDMEMBER, ADDMEMBER, SUCCEED, FAIL_};
  if (style == SEQUENTIAL) for (int k : {RSEQ, RFALLBACK, LISTEN}) o.inner.push_back(k);
  if (style != PARALLEL && r.chance(1, 2)) { p.p["xml"] = 1; p.p["ph"] = r.chance(1, 2) ? 0 : r.range(1, 1000000); for (int k : {INCLUDE, INCPROC, INCPROC}) o.inner.push_back(k); o.leaf.push_back(COPYFROM); o.leaf.push_back(COPYTO); }
  if (style == ASKING) { o.inner.push_back(USERCHOICE); for (int k : {INPUT, INPUT, INPUT, CONFIRM, CONFIRM, WAIT}) o.leaf.push_back(k); }
  if (style == PARALLEL) for (int k : {PAR, PAR, PAR, PAR, PAR, ASYNC, ASYNC, RSEQ, RFALLBACK}) o.inner.push_back(k);
  o.max_nodes = r.chance(1, 2) ? 9 : 16;
  o.min_nodes = 4;
  o.modes = 3;
  o.refs = style == PARALLEL ? 0 : 15;
  o.missing = style == PARALLEL ? 0 : 5;
  gen_tree(p, r, o);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 60) n.a[3] = r.range(1, 60);
    if (n.kind == WAIT) n.a[0] = r.range(1, 300);
    if ((n.kind == LOGI || n.kind == OUTPUT) && style != PARALLEL && r.chance(1, 4)) n.a[3] = 1;
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) { n.a[4] = r.range(0, 7); if (n.kind == INCPROC && n.a[0] == 0 && r.chance(2, 3)) n.a[0] = r.range(1, 3); }
  }
  p.p["user"] = r.range(0, 1);
  p.p["answers"] = r.range(0, 1000000);
  p.p["rounds"] = r.range(1, 3);
  static const long ticks[] = {0, 1, 20, 100};
  p.p["tick"] = ticks[r.below(4)];
  p.th.resize(1);
  for (int i = r.chance(1, 2) ? 0 : r.range(1, 8); i > 0; --i) {
    Op op;
    int d = r.range(0, 9);
    op.code = d < 4 ? STEP : d < 7 ? PAUSE : d < 9 || style != PARALLEL ? START : r.chance(1, 2) ? HALT : RESET;
    op.a[0] = delay(r);
    p.th[0].push_back(op);
  }
  fix31(p);
}
void fix31(Prog& p)
{
  Quiet z;
  if (p.th.empty()) p.th.resize(1);
  const long style = p.get("style");
  if (style != ASKING) for (auto& n : p.tree) { if (n.kind == INPUT || n.kind == CONFIRM || n.kind == WAIT) n.kind = SUCCEED; if (n.kind == USERCHOICE) n.kind = SEQ; }
  if (style == PARALLEL) {
    for (auto& n : p.tree) {
      if (n.kind == LOGI || n.kind == OUTPUT) n.a[3] = 0;
      if (n.kind == REPEAT) { n.a[2] = 0; if (n.a[0] < 0) n.a[0] = 3; }
      if (n.kind == ADDELEM || n.kind == ADDMEMBER) n.kind = INCR;
      if (n.kind == LISTEN) n.kind = FORCE;
    }
    p.p.erase("xml");
    fix_tree(p);
    if (p.get("tick") < 20) p.p["tick"] = 20;
    return;
  }
  for (auto& n : p.tree) {
    if (n.kind == PAR) n.kind = SEQ;
    if (n.kind == ASYNC) n.kind = FORCE;
    if (n.kind == REPEAT && n.a[0] < 0) n.a[0] = 2;
    if (n.kind == INPUT) n.a[2] = 0;
    if (style == ASKING) { if (n.kind == RSEQ) n.kind = SEQ; if (n.kind == RFALLBACK) n.kind = FALLBACK; if (n.kind == LISTEN) n.kind = FORCE; }
  }
  if (style == ASKING) { int k = 0; for (auto& n : p.tree) if (n.kind == REPEAT && n.a[2] == 1 && k++) n.a[2] = 0; }   // what the user answers may be repeated once
  if (style == ASKING && p.get("tick") < 20) p.p["tick"] = 20;
  fix_ending_tree(p);
}
// What the reference interpreter does for others to see.
struct Effects : Model::Env
{
  Model m;
  std::vector<std::string> seen;
  std::vector<int> asks;                               // instructions, in order
  std::vector<std::pair<int, int>> answers;            // instruction, answer
  const bool coarse;
  explicit Effects(const Prog& p) : m(p), coarse(delays(p)) { m.env = this; }
  void status(int i, int s) override { if (!coarse || s == Model::SU || s == Model::FA) seen.push_back(sim::format("instruction %d %s", i, sname(s))); }
  void variable(int w, const std::string& name, long v) override { if (w == 0 && !(coarse && name == "elem")) seen.push_back(name + ": " + std::to_string(v)); }
  void record(int w, const std::string& name, const Record& v) override { if (w == 0) seen.push_back(name + ": " + json(v)); }
  void array(int w, const std::string& name, const std::vector<long>& v) override { if (w == 0) seen.push_back(name + ": " + json(v)); }
  void output(int, const std::string& d, long v) override { seen.push_back("output " + d + " = " + std::to_string(v)); }
  void message(int, const std::string& t) override { seen.push_back("message " + t); }
  void log(int, int sev, const std::string& t) override { seen.push_back(sim::format("log %d ", sev) + t); }
  int ask(int i) override
  {
    size_t k = asks.size();
    asks.push_back(i);
    if (k >= answers.size() || answers[k].first != i) return at_kind(i) == INPUT ? static_cast<int>(Model::FA) : -1;
    int a = answers[k].second;
    if (at_kind(i) != INPUT) return a;
    if (a < 0) return Model::FA;
    m.put(m.at(i).ws, static_cast<int>(m.at(i).a[0] & 3), a);
    return Model::SU;
  }
  int at_kind(int i) { return m.at(i).kind; }
};
struct Eff
{
  JobRig r;
  std::map<int, std::string> var_name;
  explicit Eff(const Prog& p) : r(p, static_cast<int>(p.get("user")), true)
  {
    Quiet z;
    for (auto& v : r.job->GetInfo().GetWorkspaceInfo().GetVariableInfos()) var_name[static_cast<int>(v.second.GetIndex())] = v.first;
  }
  int node(int x) const { return x >= 0 && x < static_cast<int>(r.node_of.size()) ? r.node_of[static_cast<size_t>(x)] : -1; }
  const std::string& text(const Ev& e) const { static const std::string none; return e.text < 0 ? none : r.obs.texts[static_cast<size_t>(e.text)]; }
  // the library's own warnings and errors are not effects
  static bool mine(const std::string& t) { return t.compare(0, 2, "L:") == 0 || t.find_first_not_of("-0123456789") == std::string::npos; }
  std::string line(const Ev& e) const
  {
    switch (e.t) {
    case Ev::INSTR: return sim::format("instruction %d %s", node(e.a), sname(e.b));
    case Ev::VAR: { auto it = var_name.find(e.a); return (it == var_name.end() ? std::string("?") : it->second) + ": " + text(e) + (e.c ? "" : " (unavailable)"); }
    case Ev::PUT: return "output " + text(e);
    case Ev::MSG: return "message " + text(e);
    case Ev::LOG: return mine(text(e)) ? sim::format("log %d ", e.a) + text(e) : "";
    default: return "";
    }
  }
  std::string show(size_t from, size_t to) const
  {
    std::string s;
    for (size_t k = from; k < to && k < r.obs.ev.size(); ++k) { auto l = line(r.obs.ev[k]); if (r.obs.ev[k].t == Ev::STATE) l = sim::format("job state %s", jname(r.obs.ev[k].a)); if (!l.empty()) s += "    " + l + "\n"; if (s.size() > 3000) { s += "    ...\n"; break; } }
    return s;
  }
};
// All the variables are reported with the values they begin with, each once, and nothing else is.
void check_initial(Eff& e, const Prog& p, size_t from, size_t to, const char* when)
{
  std::map<std::string, int> n;
  for (size_t k = from; k < to; ++k) {
    auto& x = e.r.obs.ev[k];
    if (x.t == Ev::PUT || x.t == Ev::MSG || (x.t == Ev::LOG && Eff::mine(e.text(x)))) sim::fail("effects:idle", sim::format("%s, nothing is executed, but there is something to see: ", when) + e.line(x) + "\n" + show_tree(p) + e.show(from, to));
    if (x.t == Ev::VAR && x.c) ++n[e.line(x)];
  }
  Model m(p);
  for (auto& v : e.var_name) {
    std::string want = v.second + ": ";
    if (v.second[0] == 'v') want += std::to_string(m.var[v.second[1] - '0']);
    else if (v.second.rfind("rec", 0) == 0) want += json(record_at_start());
    else if (v.second.rfind("arr", 0) == 0) want += json(array_at_start(v.second[3] - '0'));
    else continue;
    if (n[want] != 1) sim::fail("effects:initial", sim::format("%s, the value of a variable is reported %d times: ", when, n[want]) + want + "\n" + show_tree(p) + e.show(from, to));
  }
}
void compare(Eff& e, Effects& x, const Prog& p, size_t from, size_t to)
{
  x.seen.clear();
  x.asks.clear();
  x.answers.clear();
  for (size_t k = from; k < to; ++k) if (e.r.obs.ev[k].t == Ev::ANSWER) x.answers.emplace_back(e.r.obs.ev[k].c, e.r.obs.ev[k].b);
  int k = 0;
  std::vector<std::vector<int>> want_next, next;      // what is said to be executed next, whenever that changes
  auto put_next = [](std::vector<std::vector<int>>& v, std::vector<int> n) { std::sort(n.begin(), n.end()); if (!n.empty() && (v.empty() || v.back() != n)) v.push_back(std::move(n)); };
  while (!Model::fin(x.m.at(0).st) && ++k < 400) { std::vector<int> n = model_tick(x.m).next; put_next(want_next, n); }
  if (k >= 400) return;
  std::vector<std::string> got;
  std::vector<size_t> at;
  for (size_t i = from; i < to; ++i) {
    auto& o = e.r.obs.ev[i];
    auto l = e.line(o);
    if (l.empty()) continue;
    if (x.coarse && o.t == Ev::INSTR && o.b != Model::SU && o.b != Model::FA) continue;
    if (x.coarse && o.t == Ev::VAR && l.rfind("elem:", 0) == 0) continue;
    got.push_back(l);
    at.push_back(i);
  }
  for (size_t i = 0; i < std::max(got.size(), x.seen.size()); ++i) {
    if (i < got.size() && i < x.seen.size() && got[i] == x.seen[i]) continue;
    sim::fail("effects:differ", "what the procedure shows is not what it should\n  expected: " + (i < x.seen.size() ? x.seen[i] : "(nothing)") + "\n  shown:    " + (i < got.size() ? got[i] : "(nothing)") + "\n" + show_tree(p) + e.show(i < at.size() && at[i] > from + 40 ? at[i] - 40 : from, i < at.size() ? at[i] + 1 : to));
  }
  for (size_t i = from; i < to; ++i) {
    if (e.r.obs.ev[i].t != Ev::NEXT) continue;
    std::vector<int> n;
    for (unsigned a : e.r.obs.nexts[static_cast<size_t>(e.r.obs.ev[i].b)]) n.push_back(e.node(static_cast<int>(a)));
    put_next(next, n);
    if (next.empty() || next.size() > want_next.size() || next.back() != want_next[next.size() - 1]) {
      if (next.empty()) continue;
      auto list = [](const std::vector<int>& v) { std::string s; for (int a : v) s += sim::format(" %d", a); return s + "\n"; };
      sim::fail("effects:next", "the instructions reported as next are wrong\n  expected:" + (next.size() > want_next.size() ? std::string(" (nothing)\n") : list(want_next[next.size() - 1])) + "  reported:" + list(next.back()) + show_tree(p) + e.show(i > 60 ? i - 60 : 0, i + 1));
    }
  }
  if (next.size() < want_next.size()) sim::fail("effects:next", sim::format("of %zu changes of the instructions executed next %zu are reported\n", want_next.size(), next.size()) + show_tree(p) + e.show(from, to));
  sim::count("nexts_compared", next.size());
  if (x.asks.size() != x.answers.size()) sim::fail("effects:questions", sim::format("the user was asked %zu times instead of %zu\n", x.answers.size(), x.asks.size()) + show_tree(p));
  sim::count("effects_compared", got.size());
}
// Parallel parts: every instruction on its own.
void check_each(Eff& e, const Prog& p)
{
  struct St { int st = 0, effects = 0; std::set<std::string> values; };
  std::map<int, St> st;
  std::map<std::string, std::string> cur;
  for (size_t k = 0; k < e.r.obs.ev.size(); ++k) {
    auto& o = e.r.obs.ev[k];
    auto bad = [&](const char* c, const std::string& m) { sim::fail(std::string("effects:") + c, m + "\n" + show_tree(p) + e.show(k > 60 ? k - 60 : 0, k + 1)); };
    if (o.t == Ev::VAR) {
      auto& n = e.var_name[o.a];
      cur[n] = e.text(o);
      for (auto& s : st) if (s.second.st == 1) s.second.values.insert(n + "=" + e.text(o));
      continue;
    }
    int i = -1;
    if (o.t == Ev::INSTR) i = e.node(o.a);
    else if (o.t == Ev::PUT || o.t == Ev::MSG || (o.t == Ev::LOG && Eff::mine(e.text(o)))) {
      auto& t = e.text(o);
      size_t f = o.t == Ev::LOG ? t.find("L:n") : t.find(" n");
      if (f == std::string::npos) { if (o.t == Ev::LOG) continue; bad("nobody", "nobody shows this: " + e.line(o)); }
      i = std::atoi(t.c_str() + f + (o.t == Ev::LOG ? 3 : 2));
    }
    if (i < 0 || i >= static_cast<int>(p.tree.size())) continue;
    auto& n = p.tree[static_cast<size_t>(i)];
    auto& s = st[i];
    const bool shows = n.kind == OUTPUT || n.kind == MESSAGE || (n.kind == LOGI && n.a[2] < 2);
    if (o.t != Ev::INSTR) {
      if (!shows) bad("nobody", "nobody shows this: " + e.line(o));
      if (s.st != 1) bad("when", sim::format("instruction %d shows something although it is %s: ", i, sname(s.st)) + e.line(o));
      if (++s.effects > 1) bad("twice", sim::format("instruction %d shows the same twice: ", i) + e.line(o));
      if (n.kind == LOGI) { int v = static_cast<int>(n.a[1] % kSeverities); if (v == kSeverities - 1 || o.a != (v ? v - 1 : 6)) bad("severity", sim::format("instruction %d writes to the log with severity %d: ", i, o.a) + e.line(o)); }
      if (n.kind == OUTPUT || (n.kind == LOGI && n.a[2] == 1)) {
        std::string v = "v" + std::to_string(n.a[0] & 3), val = n.kind == OUTPUT ? e.text(o).substr(e.text(o).rfind(" = ") + 3) : e.text(o).substr(e.text(o).find("=") + 1);
        if (!s.values.count(v + "=" + val)) bad("value", sim::format("instruction %d shows a value of %s that the variable does not have while it is being executed: ", i, v.c_str()) + e.line(o));
        sim::count("values_checked");
      }
      continue;
    }
    if (!shows) continue;
    if (o.b == 1) { s.effects = 0; s.values.clear(); for (auto& c : cur) s.values.insert(c.first + "=" + c.second); }
    if (o.b == 3 && s.effects != 1) bad("missing", sim::format("instruction %d succeeds, but has shown nothing", i));
    if (o.b == 4 && s.effects) bad("failure", sim::format("instruction %d fails, but has shown what it should", i));
    if (o.b == 3) sim::count("effects_checked");
    s.st = o.b;
  }
}
void run31(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(40000 * s1);
  auto* e = new Eff(p);
  JobRig& r = e->r;
  size_t mark;
  { Quiet z; check_initial(*e, p, 0, r.obs.ev.size(), "before the start"); mark = r.obs.ev.size(); }
  const bool par = p.get("style") == PARALLEL;
  Effects x(p);
  for (int round = 0; round < static_cast<int>(p.get("rounds", 1)); ++round) {
    if (par || round == 0) for (auto& o : p.th[0]) { pause_for(o.a[0]); { Quiet z; if (!par && r.obs.state >= 4) break; } r.command(o.code % SETBP); if (par && o.code % SETBP == RESET) r.wait_state({0}, 5 * s1); }
    for (int k = 0; k < (par ? 2 : 400); ++k) {
      r.command(START);
      if (r.wait_state({4, 5, 6}, par ? 10 * s1 : 400 * s1, 200000000ull)) break;
    }
    { Quiet z; if (r.obs.state < 4) { if (par) break; sim::fail("effects:does-not-end", "the procedure does not end\n" + show_tree(p) + r.show(r.log.size())); } }
    if (!par) {
      Quiet z;
      compare(*e, x, p, mark, r.obs.ev.size());
      mark = r.obs.ev.size();
      sim::nontrivial();
    }
    if (round + 1 == static_cast<int>(p.get("rounds", 1))) break;
    r.command(RESET);
    if (!r.wait_state({0}, 400 * s1, 200000000ull)) break;
    if (!par) {
      Quiet z;
      check_initial(*e, p, mark, r.obs.ev.size(), "while the job is reset");
      mark = r.obs.ev.size();
      x.m.reset_all();
    }
  }
  if (par) { sim::faults_off(); r.command(HALT); sim::sleep_ns(30 * s1); }
  if (par) { Quiet z; check_each(*e, p); if (r.obs.texts.size() > 14) sim::nontrivial(); }
  r.job.reset();
  Quiet z;
  if (par) check_each(*e, p);
  delete e;
}
sim::Reg r31({"C31",
  "one job with a random procedure (sequential, with questions, or with parallel parts; from one or several files) whose instructions put out values, write messages and log entries and change variables; it is paused, stepped, reset and started again; everything its observer is told is compared, in order and with its text and value, with what the reference interpreter shows, and with parallel parts instruction by instruction",
  "the procedure ended, or showed something",
  gen31, run31,
  {"LocalJob, AsyncRunner, Runner, JobInterfaceAdapter, AsyncInputAdapter, Procedure, Workspace, LocalVariable, all instructions used"},
  {"sup-dto/log/xml (stand-ins)", "leaf instructions (scripted, and real ones)", "observer and user (scripted)", "scheduler, clock, heap (simulated)"},
  {"xml", "style"}, fix31, rig::prepare});
}  // namespace
