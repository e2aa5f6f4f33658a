// C28 the command-line program and the daemon: what a user sees of a procedure that is executed from a file.
#include "rig.h"

#include <sup/log/default_loggers.h>

#include <iostream>
#include <locale>
#include <streambuf>

int cli_main(int argc, char* argv[]);
int daemon_main(int argc, char* argv[]);

using namespace rig;

namespace
{
enum { CLI = 0, DAEMON };
enum { SEQUENTIAL = 0, ASKING, PARALLEL };
enum { RUN = 0, VALIDATE, NO_OPTION, MISSING_FILE };
// What the user types when instruction 'node' asks for the k-th time.
struct Typed { std::string line, json; bool ok = false; int option = -1; };
Typed typed(const Prog& p, int node, int k)
{
  const auto& n = p.tree[static_cast<size_t>(node)];
  u64 h = mixh(mixh(mixh(static_cast<u64>(p.get("salt")), 0x99), static_cast<u64>(node)), static_cast<u64>(k));
  h ^= h >> 31;
  Typed t;
  if (n.kind != INPUT) {
    int nc = 2;
    if (n.kind == USERCHOICE) { nc = 0; for (auto& c : p.tree) if (c.parent == node) ++nc; }
    int d = static_cast<int>(h % 12);
    if (d == 0) t.line = "";
    else if (d == 1) t.line = "zzz";
    else if (d == 2) t.line = "0";
    else if (d == 3) t.line = std::to_string(nc + 1);
    else if (d == 4) t.line = "-1";
    else { t.option = static_cast<int>((h >> 8) % static_cast<u64>(nc)); t.line = std::to_string(t.option + 1); t.ok = true; }
    return t;
  }
  int type = static_cast<int>(n.a[2] % kInputTypes);
  struct Good { const char* line; const char* json; };
  static const std::vector<Good> good[kInputTypes] = {
    {{"5", "5"}, {"-17", "-17"}, {"2147480000", "2147480000"}, {"-2147483648", "-2147483648"}},
    {{"5", "5"}, {"-17", "-17"}, {"127", "127"}, {"-128", "-128"}},
    {{"5", "5"}, {"0", "0"}, {"255", "255"}},
    {{"5", "5"}, {"-17", "-17"}, {"32767", "32767"}, {"-32768", "-32768"}},
    {{"5", "5"}, {"65535", "65535"}},
    {{"5", "5"}, {"-17", "-17"}, {"2147483647", "2147483647"}, {"-2147483648", "-2147483648"}},
    {{"5", "5"}, {"4294967295", "4294967295"}},
    {{"5", "5"}, {"-17", "-17"}, {"9223372036854775807", "9223372036854775807"}, {"-9223372036854775808", "-9223372036854775808"}},
    {{"5", "5"}, {"18446744073709551615", "18446744073709551615"}},
    {{"true", "true"}, {"false", "false"}},
    {{"2.5", "2.5"}, {"-0.25", "-0.25"}},
    {{"abc", "\"abc\""}, {"a b", "\"a b\""}, {"5", "\"5\""}},
  };
  static const char* big[kInputTypes] = {"2147483648", "128", "256", "32768", "65536", "-2147483649", "4294967296", "9223372036854775808", "18446744073709551616", "maybe", "x1", nullptr};
  int d = static_cast<int>(h % 10);
  if (d < 3 && type != 11) { t.line = d == 0 ? "" : d == 1 ? "x" : big[type]; return t; }
  auto& g = good[type][(h >> 8) % good[type].size()];
  t.line = g.line; t.json = g.json; t.ok = true;
  return t;
}
// The user's terminal, or the system's log.
struct Terminal
{
  const Prog* p = nullptr;
  std::map<int, std::string> part;              // unfinished lines, by thread
  std::map<int, std::vector<std::string>> seen; // lines, by thread
  std::vector<std::string> lines;
  std::map<int, int> asked;                     // how often an instruction has asked
  int prompts = 0, eof_after = -1, eofs = 0;
  u64 wait_salt = 0;
  void put(const char* s, size_t n)
  {
    Quiet z;
    auto& x = part[sim::tid()];
    // at the end of the input the stream is not even asked for more
    if (n && eofs) for (auto& y : part) if (y.second.rfind("value? n", 0) == 0 && y.second.size() > 3 && y.second.compare(y.second.size() - 3, 3, "): ") == 0) end_line(y.first);
    for (size_t i = 0; i < n; ++i) {
      if (s[i] != '\n') { x += s[i]; continue; }
      end_line();
    }
  }
  void end_line() { end_line(sim::tid()); }
  void end_line(int tid)
  {
    auto& x = part[tid];
    sim::trace("| %s", x.c_str());
    if (x.find(sim::scratch_dir()) == std::string::npos) sim::ev(std::hash<std::string>()(x));
    lines.push_back(x);
    seen[tid].push_back(x);
    x.clear();
  }
  // the instruction whose question is the last thing this thread wrote
  int question()
  {
    auto& x = part[sim::tid()];
    if (!x.empty()) return node_of(x);
    auto& s = seen[sim::tid()];
    for (size_t k = s.size(); k-- > 0;) {
      if (s[k].find("sure? n") == 0 || s[k].find("choose n") == 0) return node_of(s[k]);
      if (s[k].empty() || !std::isdigit(static_cast<unsigned char>(s[k][0]))) break;
    }
    return -1;
  }
  static int node_of(const std::string& s) { size_t k = s.find(" n"); return k == std::string::npos ? -1 : std::atoi(s.c_str() + k + 2); }
};
Terminal* the_terminal;
class OutBuf : public std::streambuf
{
  int overflow(int c) override { if (c != EOF) { char b = static_cast<char>(c); the_terminal->put(&b, 1); } return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { the_terminal->put(s, static_cast<size_t>(n)); return n; }
};
class InBuf : public std::streambuf
{
  std::string m_line;
  int underflow() override
  {
    u64 ms = 0;
    {
      Quiet z;
      auto& t = *the_terminal;
      int n = t.question();
      if (n < 0 || n >= static_cast<int>(t.p->tree.size())) sim::fail("app:no-question", "the program reads what the user types without a question\n");
      u64 h = mixh(t.wait_salt, static_cast<u64>(t.prompts));
      if (t.eof_after >= 0 && t.prompts >= t.eof_after) { ++t.eofs; ++t.prompts; ++t.asked[n]; sim::count("ends_of_input"); sim::trace("(end of input)"); if (!t.part[sim::tid()].empty()) t.end_line(); return EOF; }
      ++t.prompts;
      m_line = typed(*t.p, n, t.asked[n]++).line;
      sim::count("answers_typed");
      ms = h % 3 == 0 ? 0 : (h >> 8) % 700;
    }
    if (ms) sim::sleep_ns(ms * 1000000ull);
    Quiet z;
    sim::trace("(the user types '%s')", m_line.c_str());
    if (!the_terminal->part[sim::tid()].empty()) the_terminal->end_line();
    m_line += "\n";
    setg(&m_line[0], &m_line[0], &m_line[0] + m_line.size());
    return static_cast<unsigned char>(m_line[0]);
  }
};
void syslog_line(int sev, const std::string& src, const std::string& m)
{
  Quiet z;
  std::string s = "[" + std::to_string(sev) + "] " + src + ": " + m + "\n";
  the_terminal->put(s.data(), s.size());
}
const char* shown(int s) { static const char* n[] = {"Not started", "Not finished", "Running", "Success", "Failure"}; return n[s]; }
bool asking(int k) { return k == INPUT || k == CONFIRM || k == USERCHOICE; }
std::vector<std::pair<std::string, std::string>> initial()
{
  std::vector<std::pair<std::string, std::string>> v;
  for (int i = 0; i < 4; ++i) v.emplace_back("v" + std::to_string(i), std::to_string(i));
  for (int i = 1; i < kInputTypes; ++i) v.emplace_back("t" + std::to_string(i), i == 9 ? "false" : i == 10 ? "0.0" : i == 11 ? "\"\"" : "0");
  v.emplace_back("elem", "0");
  v.emplace_back("arr0", "[]"); v.emplace_back("arr1", "[7]"); v.emplace_back("arr2", "[7,8]");
  v.emplace_back("arr3", "[7,8,9,10,11]"); v.emplace_back("rec0", json(record_at_start())); v.emplace_back("rec1", json(record_at_start())); v.emplace_back("yes", "true"); v.emplace_back("no", "false"); v.emplace_back("str0", "\"alpha\""); v.emplace_back("str1", "\"beta\"");
  v.emplace_back("sel0", "0"); v.emplace_back("sel1", "1"); v.emplace_back("sel2", "[1,0]"); v.emplace_back("sel3", "[0,0]");
  return v;
}
// Lines expected of a sequential procedure.
struct Expect : Model::Env
{
  const Prog& p;
  Model m;
  int app, level;
  bool info;
  std::vector<std::string> lines;
  std::map<int, int> asked;
  int prompts = 0;
  std::string pre() const { return app == CLI ? "[6] oac-tree-cli: " : "[6] oac-tree-daemon: "; }
  void log(const std::string& s) { if (info) lines.push_back(pre() + s); }
  Expect(const Prog& prog, int a, int l) : p(prog), m(prog), app(a), level(l), info(l >= 6) { m.env = this; }
  bool init(int) override { return app == CLI; }
  void status(int i, int s) override
  {
    if (s != Model::SU && s != Model::FA && delays()) return;
    log(sim::format("Instruction (%s:n%d) : %s", kTypeName[m.at(i).kind], i, shown(s)));
  }
  bool delays() const { for (auto& n : p.tree) if (asking(n.kind) || n.kind == WAIT) return true; return false; }
  void variable(int w, const std::string& name, long v) override { if (app == CLI && w == 0 && !(name == "elem" && delays())) log("Variable (" + name + ") updated:" + std::to_string(v)); }
  void record(int w, const std::string& name, const Record& v) override { if (app == CLI && w == 0) log("Variable (" + name + ") updated:" + json(v)); }
  void array(int w, const std::string& name, const std::vector<long>& v) override { if (app == CLI && w == 0) log("Variable (" + name + ") updated:" + json(v)); }
  void output(int, const std::string& d, long v) override
  {
    if (app == CLI) { lines.push_back(d); lines.push_back(std::to_string(v)); }
    else log(d + " (int32):" + std::to_string(v));
  }
  void message(int, const std::string& t) override { if (app == CLI) lines.push_back(t); else log(t); }
  void log(int, int sev, const std::string& t) override { if (sev <= level) lines.push_back(sim::format("[%d]", sev) + pre().substr(3) + t); }
  int ask(int i) override
  {
    auto& x = m.at(i);
    int eof = static_cast<int>(p.get("eof", -1));
    bool end = eof >= 0 && prompts >= eof;
    ++prompts;
    Typed t = typed(p, i, asked[i]++);
    if (end) { t = {}; }
    if (x.kind == INPUT) {
      int type = static_cast<int>(p.tree[static_cast<size_t>(i)].a[2] % kInputTypes);
      lines.push_back(sim::format("value? n%d (%s): ", i, kInputType[type]));
      if (!t.ok) return Model::FA;
      if (type) { if (app == CLI && x.ws == 0) log("Variable (t" + std::to_string(type) + ") updated:" + t.json); }
      else m.put(x.ws, static_cast<int>(p.tree[static_cast<size_t>(i)].a[0] & 3), std::atol(t.line.c_str()));
      return Model::SU;
    }
    lines.push_back(sim::format(x.kind == CONFIRM ? "sure? n%d" : "choose n%d", i));
    auto o = options_of(p, i);
    for (size_t k = 0; k < o.size(); ++k) lines.push_back(sim::format("%zu: ", k + 1) + o[k]);
    if (t.option >= 0) lines.push_back(o[static_cast<size_t>(t.option)] + " selected");
    return t.option;
  }
};
void fix28(Prog& p);
void gen28(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.stall"] = 0;
  p.p["app"] = r.range(0, 3) ? CLI : DAEMON;
  p.p["style"] = r.range(0, 2);
  p.p["level"] = r.chance(2, 3) ? 6 : r.range(-1, 8);
  int d = r.range(0, 29);
  p.p["what"] = d == 0 ? NO_OPTION : d == 1 ? MISSING_FILE : d < 5 && p.get("app") == CLI ? VALIDATE : RUN;
  p.p["salt"] = r.range(0, 1000000);
  p.p["xml"] = 1;
  p.p["ph"] = r.chance(1, 2) ? 0 : r.range(1, 1000000);
  if (r.chance(1, 12)) { p.p["broken"] = r.range(1, N_BROKEN - 1); p.p["bi"] = r.range(0, 7); }
  TreeOpts o;
  long style = p.get("style");
  o.inner = {SEQ, SEQ, SEQ, FALLBACK, REPEAT, REPEAT, FOR, INVERT, FORCE, CHOICE, INCLUDE, INCPROC, SEQ, FALLBACK};
  o.leaf = {PROBE, PROBE, INCR, COPY, EQUALS, RESETVAR, OUTPUT, MESSAGE, OUTPUT, MESSAGE, SUCCEED, FAIL_, COPYFROM, COPYTO, WAIT, LOGI, LOGI, LOGI, DECR, LESS, LESSEQ, GREATER, GREATEREQ, VAREXISTS, CONDITION, ADDELEM, ADDMEMBER};
  o.refs = 15;
  o.missing = style == PARALLEL ? 0 : 5;
  if (style == ASKING) { o.inner.push_back(USERCHOICE); o.inner.push_back(USERCHOICE); o.leaf = {INPUT, INPUT, INPUT, INPUT, INPUT, CONFIRM, CONFIRM, INCR, COPY, EQUALS, OUTPUT, MESSAGE, SUCCEED, PROBE, PROBE, WAIT, LOGI, DECR, GREATER}; }
  if (style == PARALLEL) { for (int k : {PAR, PAR, PAR, ASYNC, ASYNC}) o.inner.push_back(k); }
  o.max_nodes = r.chance(1, 2) ? 9 : 16;
  o.modes = 3;
  gen_tree(p, r, o);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == SLEEP && n.a[3] > 100) n.a[3] = r.range(1, 100);
    if (n.kind == WAIT) n.a[0] = r.range(1, 300);
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) { n.a[4] = r.range(0, 7); if (n.kind == INCPROC && n.a[0] == 0 && r.chance(2, 3)) n.a[0] = r.range(1, 3); }
    if (n.kind == INPUT) n.a[2] = r.chance(1, 4) ? 0 : r.range(1, kInputTypes - 1);
  }
  static const long ticks[] = {1, 20, 100};
  p.p["tick"] = ticks[r.below(3)];
  if (style == ASKING && r.chance(1, 6)) p.p["eof"] = r.range(0, 3);
  fix28(p);
}
std::string listing(const std::vector<std::string>& v, size_t from, size_t to) { std::string s; for (size_t k = from; k < to && k < v.size(); ++k) s += "    | " + v[k] + "\n"; return s; }
void run28(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(80000000000000ull);
  Hub hub;
  Terminal term;
  OutBuf ob;
  InBuf ib;
  int app = static_cast<int>(p.get("app")), what = static_cast<int>(p.get("what")), rc = -1;
  const int level = p.get("level", 6) < 0 ? 4 : static_cast<int>(p.get("level", 6));
  bool info = level >= 6, over = false, broken = false;
  std::streambuf* oldo;
  std::streambuf* oldi;
  std::vector<std::string> args;
  int live = sim::live_threads();
  {
    Quiet z;
    XmlFiles f(p, static_cast<int>(p.get("broken")));
    broken = !f.ok;
    f.write();
    hub.ps.assign(p.tree.size(), {});
    hub.node.assign(p.tree.size(), nullptr);
    term.p = &p;
    term.eof_after = static_cast<int>(p.get("eof", -1));
    term.wait_salt = static_cast<u64>(p.get("salt"));
    the_terminal = &term;
    oldo = std::cout.rdbuf(&ob);
    oldi = std::cin.rdbuf(&ib);
    std::cin.clear();
    sup::log::stub_syslog = syslog_line;
    args.push_back("oac-tree");
    if (what != NO_OPTION) { args.push_back(p.get("salt") & 1 ? "-f" : "--file"); args.push_back(what == MISSING_FILE ? XmlFiles::name(0) + ".no" : XmlFiles::name(0)); }
    static const char* const levels[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
    if (p.get("level", 6) >= 0) { args.push_back(p.get("salt") & 2 ? "-v" : "--verbose"); args.push_back(levels[level % 9]); }
    if (what == VALIDATE) args.push_back(p.get("salt") & 4 ? "-V" : "--validate");
    std::string s;
    for (auto& a : args) s += " " + a;
    sim::trace("$%s", s.c_str());
  }
  {
    hx::Threads th;
    th.Start([&] {
      std::vector<char*> av;
      { Quiet z; Probe::hub() = &hub; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr); }
      int n = static_cast<int>(args.size());
      rc = app == CLI ? cli_main(n, av.data()) : daemon_main(n, av.data());
      Quiet z;
      over = true;
    });
    wait_until([&] { return over; }, 4000000000000ull, 1000000000ull);
    Quiet z;
    if (!over) { std::cout.rdbuf(oldo); std::cin.rdbuf(oldi); sim::fail("app:does-not-end", "the program does not end\n" + show_tree(p) + listing(term.lines, 0, term.lines.size())); }
    th.Join();
  }
  Quiet z;
  std::cout.rdbuf(oldo);
  std::cin.rdbuf(oldi);
  std::cin.clear();
  the_terminal = nullptr;
  sup::log::stub_syslog = nullptr;
  for (auto& x : term.part) if (!x.second.empty()) term.lines.push_back(x.second);
  auto say = [&](const char* c, const std::string& t) { sim::fail(std::string("app:") + c, t + "\n" + show_tree(p) + (p.get("broken") ? XmlFiles(p, static_cast<int>(p.get("broken"))).show() : std::string()) + "  output:\n" + listing(term.lines, 0, term.lines.size())); };
  u64 runs = 0;
  for (auto& s : hub.ps) runs += s.runs;
  if (sim::live_threads() != live) say("threads-left", "the program has ended, but one of its threads still exists");
  std::vector<std::string> got;
  size_t errors = 0;
  // warnings and errors of the library; what a Log instruction writes begins with "L:" or is a number
  for (auto& l : term.lines) {
    size_t k = l.find(": ");
    bool mine = k == std::string::npos || l.compare(k + 2, 2, "L:") == 0 || l.find_first_not_of("-0123456789", k + 2) == std::string::npos;
    if (!mine && (l.rfind("[3]", 0) == 0 || l.rfind("[4]", 0) == 0)) errors += l[1] == '3'; else got.push_back(l);
  }
  if (what == NO_OPTION) {
    if (rc != (app == CLI ? 0 : 1)) say("exit-code", sim::format("exit code %d without a file", rc));
    if (runs || got.empty()) say("usage", "without a file, the program shows how to use it");
    return;
  }
  if (what == MISSING_FILE || broken) {
    sim::count(what == MISSING_FILE ? "missing_files" : "broken_files");
    if (rc != 1) say("exit-code", sim::format("exit code %d although the procedure cannot be set up", rc));
    if (!errors && level >= 3) say("no-error", "no error is shown although the procedure cannot be set up");
    if (runs) say("executed", "an instruction was executed although the procedure cannot be set up");
    for (auto& l : got) if (l.find("ended with state") != std::string::npos || l.find("successful") != std::string::npos) say("claims-success", "the procedure cannot be set up, but the program says: " + l);
    return;
  }
  // the values of the variables at the setup, in whatever order
  if (app == CLI && info) {
    std::vector<std::string> want, have;
    for (auto& v : initial()) want.push_back("[6] oac-tree-cli: Variable (" + v.first + ") updated:" + v.second);
    size_t k = std::min(got.size(), want.size());
    have.assign(got.begin(), got.begin() + static_cast<long>(k));
    got.erase(got.begin(), got.begin() + static_cast<long>(k));
    std::sort(want.begin(), want.end());
    std::sort(have.begin(), have.end());
    if (have != want) say("initial", "the first lines of the output do not show the initial values of the variables");
  }
  if (rc != 0) say("exit-code", sim::format("exit code %d", rc));
  const std::string fin = "Procedure ended with state: ";
  if (what == VALIDATE) {
    sim::count("validations");
    if (runs) say("executed", "an instruction was executed although the procedure is only to be validated");
    if (got.size() != 1 || got[0] != "Procedure parsing and setup successful: " + XmlFiles::name(0)) say("validate", "only the success of the validation is to be shown");
    return;
  }
  sim::nontrivial();
  if (p.get("style") == PARALLEL) {
    // the last line tells how the root instruction ended
    if (app == DAEMON && !info) return;
    std::string last, pre = app == DAEMON ? "[6] oac-tree-daemon: " : "";
    // instructions that a ParallelSequence has left behind may still say something
    while (!got.empty() && has_kind(p, PAR) && got.back().find(fin) == std::string::npos) got.pop_back();
    if (!got.empty()) last = got.back();
    if (last != pre + fin + "Success" && last != pre + fin + "Failure") say("last-line", "the last line does not tell the end of the procedure");
    size_t n = 0;
    std::string root;
    for (auto& l : got) {
      if (l.find(fin) != std::string::npos) ++n;
      size_t k = l.find(sim::format("(%s:n0) : ", kTypeName[p.tree[0].kind]));
      if (k != std::string::npos) root = l.substr(l.rfind(' ') + 1);
    }
    if (n != 1) say("last-line", "the end of the procedure is told more than once");
    if (info && root != (last.find("Success") != std::string::npos ? "Success" : "Failure")) say("root", "the end that is told is not the one of the root instruction, which is " + root);
    // executions of probes: every one is shown
    if (info) for (size_t i = 0; i < p.tree.size(); ++i) {
      std::string t = sim::format("(%s:n%zu) : ", kTypeName[p.tree[i].kind], i);
      u64 ends = 0;
      for (auto& l : got) if (l.find(t) != std::string::npos && (l.find(": Success") != std::string::npos || l.find(": Failure") != std::string::npos)) ++ends;
      if (p.tree[i].kind == PROBE && ends > hub.ps[i].runs) say("status", sim::format("instruction %zu is said to have ended %llu times, but was executed %llu times", i, static_cast<unsigned long long>(ends), static_cast<unsigned long long>(hub.ps[i].runs)));
      if (p.tree[i].kind == PROBE && hub.ps[i].runs && !ends && hub.ps[i].runs > static_cast<u64>(p.tree[i].a[1]) * 4 + 4) say("status", "an instruction was executed, but none of its ends is shown");
    }
    sim::count("parallel_procedures");
    return;
  }
  Expect e(p, app, level);
  int k = 0;
  while (!Model::fin(e.m.at(0).st) && ++k < 400) e.m.exec(0);
  if (k >= 400) return;
  std::string end = fin + (e.m.at(0).st == Model::SU ? "Success" : "Failure");
  if (app == CLI) e.lines.push_back(end); else e.log(end);
  if (e.delays()) {
    std::vector<std::string> g;
    for (auto& l : got) if (!(l.find("Instruction (") != std::string::npos && (l.find(" : Not finished") != std::string::npos || l.find(" : Running") != std::string::npos || l.find(" : Not started") != std::string::npos))) if (l.find("Variable (elem)") == std::string::npos) g.push_back(l);
    got = g;
    sim::count("asking_procedures");
  }
  for (size_t i = 0; i < std::max(got.size(), e.lines.size()); ++i) {
    if (i < got.size() && i < e.lines.size() && got[i] == e.lines[i]) continue;
    say("output", sim::format("line %zu of the output (without warnings and errors) is not the expected one", i + 1) + "\n  expected: " + (i < e.lines.size() ? e.lines[i] : "(nothing)") + "\n  shown:    " + (i < got.size() ? got[i] : "(nothing)"));
  }
  std::vector<int> want;
  for (int i : e.m.runs) if (e.m.at(i).kind == PROBE) want.push_back(i);
  if (hub.starts != want) say("executions", sim::format("%zu instructions were executed instead of %zu, or in another order", hub.starts.size(), want.size()));
  sim::count("lines_compared", got.size());
}
void fix28(Prog& p)
{
  Quiet z;
  p.p["xml"] = 1;
  long style = p.get("style");
  if (style < 0 || style > 2) p.p["style"] = style = 0;
  if (p.get("tick") < 1) p.p["tick"] = 1;
  if (style != ASKING) for (auto& n : p.tree) { if (n.kind == INPUT || n.kind == CONFIRM) n.kind = SUCCEED; if (n.kind == USERCHOICE) n.kind = SEQ; }
  fix_tree(p);
  if (style == PARALLEL) {
    for (auto& n : p.tree) {
      if (n.kind == RSEQ) n.kind = SEQ;
      if (n.kind == RFALLBACK) n.kind = FALLBACK;
      if (n.kind == LISTEN) n.kind = FORCE;
      if (n.kind == REPEAT && n.a[0] < 0) n.a[0] = 2;
      if (n.kind == REPEAT) n.a[2] = 0;
      if (n.kind == ADDELEM || n.kind == ADDMEMBER) n.kind = INCR;
      if (n.kind == PROBE && n.a[1] > 0) { int last = ProbeArgs::at(n, static_cast<u64>(n.a[1] - 1)); if (last > 1) { n.a[0] &= 1; n.a[1] = 1; } }
    }
    return;
  }
  for (auto& n : p.tree) { if (n.kind == PAR || n.kind == RSEQ) n.kind = SEQ; if (n.kind == ASYNC || n.kind == LISTEN) n.kind = FORCE; if (n.kind == RFALLBACK) n.kind = FALLBACK; if (n.kind == REPEAT && n.a[0] < 0) n.a[0] = 2; }
  // the user may type any number
  if (has_kind(p, INPUT)) for (auto& n : p.tree) if (n.kind == REPEAT) n.a[2] = 0;
  // questions about included variables and ends of the input are kept simple
  for (auto& n : p.tree) if (n.kind == INPUT && p.get("eof", -1) >= 0 && n.a[2] % kInputTypes == 11) n.a[2] = 5;
  fix_ending_tree(p);
}
void prepare28()
{
  rig::prepare();
  // tables that the stream library fills at their first use
  auto& f = std::use_facet<std::ctype<char>>(std::locale());
  (void)f.widen('a');
  (void)f.narrow('a', '?');
}
sim::Reg r28({"C28",
  "oac-tree-cli or oac-tree-daemon is run with a random procedure from files (sequential, with questions that a simulated user answers well, badly or not at all, or with parallel parts), to execute or to validate it, or with missing or broken files; the output is compared with that of the reference interpreter",
  "the procedure is executed",
  gen28, run28,
  {"main() of oac-tree-cli and oac-tree-daemon, CLInterface, DaemonInterface, AsyncRunner, SimpleJobStateMonitor, AsyncInputAdapter, procedure parser, all instructions used"},
  {"sup-dto/log/cli/xml (stand-ins)", "terminal, system log, user (simulated)", "leaf instructions (scripted, and real ones)", "scheduler, clock, heap (simulated)"},
  {"xml", "app", "style", "what", "eof", "level"}, fix28, prepare28});
}  // namespace
