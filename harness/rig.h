// Shared pieces of the full-system harnesses: random procedures, scripted leaf instructions,
// a recording observer, and a reference interpreter for behaviour trees.
#ifndef VERIF_HARNESS_RIG_H_
#define VERIF_HARNESS_RIG_H_
#include "common.h"

#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <sup/dto/anyvalue_helper.h>

#include <map>
#include <memory>
#include <system_error>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>

namespace rig
{
using namespace hx;
using sup::oac_tree::ExecutionStatus;
using sup::oac_tree::Instruction;
using sup::oac_tree::InstructionState;
using sup::oac_tree::JobState;
using sup::oac_tree::Procedure;
using sup::oac_tree::UserInterface;
using sup::oac_tree::Workspace;
namespace dto = sup::dto;

enum NodeKind
{
  PROBE = 0, SEQ, FALLBACK, RSEQ, RFALLBACK, PAR, ASYNC, REPEAT, INVERT, FORCE, FOR, LISTEN, CHOICE, USERCHOICE,
  WAIT, INPUT, CONFIRM, WAITVAR, INCR, COPY, EQUALS, SUCCEED, FAIL_, RESETVAR, OUTPUT, MESSAGE,
  INCLUDE, INCPROC, COPYFROM, COPYTO,
  DECR, LESS, LESSEQ, GREATER, GREATEREQ, VAREXISTS, CONDITION, LOGI, ADDELEM, WAITVARS, ADDMEMBER, N_KINDS
};
const char* const kTypeName[N_KINDS] = {"Probe", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "ParallelSequence", "Async",
  "Repeat", "Inverter", "ForceSuccess", "For", "Listen", "Choice", "UserChoice", "Wait", "Input", "UserConfirmation", "WaitForVariable",
  "Increment", "Copy", "Equals", "Succeed", "Fail", "ResetVariable", "Output", "Message", "Include", "IncludeProcedure", "CopyFromProcedure",
  "CopyToProcedure", "Decrement", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "VarExists", "Condition", "Log", "AddElement", "WaitForVariables", "AddMember"};
inline int compares(int k) { return k == EQUALS || (k >= LESS && k <= GREATEREQ); }
// severities of Log (argument a[1]); 0: not given, the last one does not exist
const char* const kSeverity[] = {nullptr, "emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "Info"};
constexpr int kSeverities = 11;
// the arrays arr0..arr3
inline std::vector<long> array_at_start(int k) { static const int len[] = {0, 1, 2, 5}; std::vector<long> r; for (int i = 0; i < len[k & 3]; ++i) r.push_back(i + 7); return r; }
inline std::string json(const std::vector<long>& v) { std::string s = "["; for (size_t k = 0; k < v.size(); ++k) s += (k ? "," : "") + std::to_string(v[k]); return s + "]"; }
// the structures rec0 (its type is fixed) and rec1 begin with one member, m0
// the variables v0..v3
inline long value_at_start(const Prog& p, int k) { return k + static_cast<long>(p.get("voff")); }
using Record = std::vector<std::pair<std::string, long>>;
inline Record record_at_start() { return {{"m0", 5}}; }
inline std::string json(const Record& v) { std::string s = "{"; for (size_t k = 0; k < v.size(); ++k) s += (k ? ",\"" : "\"") + v[k].first + "\":" + std::to_string(v[k].second); return s + "}"; }
// where AddMember (argument a[1]) adds to
const char* const kRecord[] = {"rec1", "rec1", "rec0", "arr1"};
inline bool is_compound(int k) { return (k >= SEQ && k <= PAR) || k == CHOICE || k == USERCHOICE; }
inline bool is_decorator(int k) { return (k >= ASYNC && k <= LISTEN) || k == INCLUDE || k == INCPROC; }
inline bool is_leaf(int k) { return !is_compound(k) && !is_decorator(k); }

// types of the variables t1.. that Input asks for when its a[2] says so
const char* const kInputType[] = {"int32", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", "float64", "string"};
constexpr int kInputTypes = 12;
enum Script { S_ = 0, F_ = 1, R_ = 2, N_ = 3 };
// Modes of probes (argument a[3])
enum Mode { PLAIN = 0, YIELD, SLEEP, BLOCK };
struct ProbeArgs
{
  // a[0]: results, two bits each, first one lowest; a[1]: number of results; a[2]: mode; a[3]: amount
  static int at(const sim::Node& n, u64 i) { long len = n.a[1] < 1 ? 1 : n.a[1]; return static_cast<int>(n.a[0] >> (2 * (i % static_cast<u64>(len)))) & 3; }
};
inline const char* sname(int s) { static const char* n[] = {"NOT_STARTED", "NOT_FINISHED", "RUNNING", "SUCCESS", "FAILURE"}; return s >= 0 && s < 5 ? n[s] : "?"; }
inline int code(ExecutionStatus s)
{
  switch (s) {
  case ExecutionStatus::NOT_STARTED: return 0;
  case ExecutionStatus::NOT_FINISHED: return 1;
  case ExecutionStatus::RUNNING: return 2;
  case ExecutionStatus::SUCCESS: return 3;
  case ExecutionStatus::FAILURE: return 4;
  }
  return 9;
}
inline int jcode(JobState s)
{
  switch (s) {
  case JobState::kInitial: return 0;
  case JobState::kPaused: return 1;
  case JobState::kStepping: return 2;
  case JobState::kRunning: return 3;
  case JobState::kSucceeded: return 4;
  case JobState::kFailed: return 5;
  case JobState::kHalted: return 6;
  }
  return 9;
}
inline const char* jname(int s) { static const char* n[] = {"Initial", "Paused", "Stepping", "Running", "Succeeded", "Failed", "Halted"}; return s >= 0 && s < 7 ? n[s] : "?"; }

// What the instructions of a run report to the harness.
struct Hub
{
  struct PS { u64 runs = 0; u64 pos = 0; int inside = 0; int inside_tid = -1; u64 resets = 0; bool ever_halted = false; int last_tid = -1; };
  std::vector<PS> ps;
  std::vector<Instruction*> node;               // by index in the program's tree
  std::map<const Instruction*, int> index;
  std::vector<int> starts;                      // probe executions, in order
  u64 executing = 0;
  bool dead = false;                            // job destroyed: nothing may run any more
  u64 block_cap = 0;                            // virtual ns after which a BLOCK probe gives up (0: never)
  void (*on_start)(Hub&, int) = nullptr;
  void (*on_end)(Hub&, int) = nullptr;
  void* user = nullptr;
  bool files_written = false;                   // do not write the procedure's files (again)
  void restart() { for (auto& p : ps) p.pos = 0; }
};

class Probe : public Instruction
{
public:
  static const std::string Type;
  static Hub*& hub() { static Hub* h[64]; return h[sim::tid() & 63]; }   // of the job that this thread creates from a file
  Probe() : Instruction(Type), m_hp(nullptr), m_idx(-1) { Quiet z; AddAttributeDefinition("zz"); }
  Probe(Hub& h, int idx, const sim::Node& n) : Instruction(Type), m_hp(&h), m_idx(idx), m_n(n) {}
private:
  void SetupImpl(const Procedure&) override
  {
    Quiet z;
    if (m_hp) return;
    m_hp = hub();
    m_idx = std::atoi(GetName().c_str() + 1);
    m_n = sim::prog().tree[static_cast<size_t>(m_idx)];
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    int res;
    Hub& m_h = *m_hp;
    {
      Quiet z;
      auto& p = m_h.ps[static_cast<size_t>(m_idx)];
      if (m_h.dead) sim::fail("destroy:execution-after", sim::format("instruction %d is executed although its job has been destroyed", m_idx));
      if (p.inside) sim::fail("exclusive:two-threads", sim::format("instruction %d is executed by two threads at once (threads %d and %d)", m_idx, p.inside_tid, sim::tid()));
      p.inside = 1; p.inside_tid = sim::tid(); p.last_tid = sim::tid();
      ++p.runs; ++m_h.executing;
      m_h.starts.push_back(m_idx);
      res = ProbeArgs::at(m_n, p.pos++);
      sim::trace("instruction %d starts (run %llu)", m_idx, static_cast<unsigned long long>(p.runs));
      sim::ev(mixh(static_cast<u64>(m_idx), 77));
      if (m_h.on_start) m_h.on_start(m_h, m_idx);
      sim::bump();
    }
    ++m_state;  // not synchronised: a second thread in here without ordering is a data race
    switch (m_n.a[2]) {
    case YIELD: for (long k = 0; k < m_n.a[3]; ++k) sim::yield_point(); break;
    case SLEEP: sim::sleep_ns(static_cast<u64>(m_n.a[3]) * 1000000ull); break;
    case BLOCK: {
      u64 t0 = sim::now();
      while (!IsHaltRequested() && (m_n.a[3] == 0 || sim::now() - t0 < static_cast<u64>(m_n.a[3]) * 1000000ull)) sim::sleep_ns(10000000ull);
      if (IsHaltRequested()) { Quiet z; m_h.ps[static_cast<size_t>(m_idx)].ever_halted = true; res = F_; }
      break; }
    default: break;
    }
    ++m_state;
    Quiet z;
    auto& p = m_h.ps[static_cast<size_t>(m_idx)];
    p.inside = 0; --m_h.executing;
    if (m_h.dead) sim::fail("destroy:execution-after", sim::format("instruction %d was still executing after its job had been destroyed", m_idx));
    sim::trace("instruction %d ends with %d", m_idx, res);
    if (m_h.on_end) m_h.on_end(m_h, m_idx);
    sim::bump();
    static const ExecutionStatus st[] = {ExecutionStatus::SUCCESS, ExecutionStatus::FAILURE, ExecutionStatus::RUNNING, ExecutionStatus::NOT_FINISHED};
    return st[res];
  }
  void ResetHook(UserInterface&) override
  {
    ++m_state;
    Quiet z;
    if (!m_hp) return;
    auto& p = m_hp->ps[static_cast<size_t>(m_idx)];
    ++p.resets;
    if (p.inside) sim::fail("exclusive:reset-while-executing", sim::format("instruction %d is reset while it is being executed", m_idx));
  }
  Hub* m_hp;
  int m_idx;
  sim::Node m_n;
  long m_state = 0;
};
inline const std::string Probe::Type = "Probe";

// Attributes given to nodes: a[0], a[1] by kind.
using Attrs = std::vector<std::pair<std::string, std::string>>;
inline Attrs attributes(const sim::Node& n, int i)
{
  Attrs r;
  auto add = [&](const char* k, const std::string& v) { r.emplace_back(k, v); };
  char nm[16];
  std::snprintf(nm, sizeof nm, "n%d", i);
  add("name", nm);
  auto var = [&](long k) { char b[8]; std::snprintf(b, sizeof b, "v%ld", k % 4 < 0 ? 0 : k % 4); return std::string(b); };
  auto text = [](const sim::Node& x, const std::string& s) { return x.a[2] == 1 ? std::string(x.a[1] & 1 ? "@str1" : "@str0") : x.a[2] == 2 ? std::string("@nosuch") : s; };
  auto secs = [&](long ms) { char b[32]; std::snprintf(b, sizeof b, "%.3f", static_cast<double>(ms) / 1000.0); return std::string(b); };
  switch (n.kind) {
  case PAR:
    if (n.a[0] >= 0) add("successThreshold", std::to_string(n.a[0]));
    if (n.a[1] >= 0) add("failureThreshold", std::to_string(n.a[1]));
    break;
  case REPEAT: if (n.a[2] == 1) add("maxCount", "@" + var(n.a[0])); else if (n.a[0] != 0) add("maxCount", std::to_string(n.a[0])); break;
  case FOR: add("arrayVar", "arr" + std::to_string(n.a[0] & 3)); add("elementVar", "elem"); break;
  case LISTEN: add("varNames", var(n.a[0]) + "," + var(n.a[0] + 1)); if (n.a[1]) add("forceSuccess", "true"); break;
  case CHOICE: add("varName", "sel" + std::to_string(n.a[0] & 3)); break;
  case USERCHOICE: add("description", std::string("choose ") + nm); break;
  case WAIT: add("timeout", secs(n.a[0])); if (n.a[1]) add("blocking", "true"); break;
  case INPUT: add("outputVar", n.a[2] % kInputTypes > 0 ? "t" + std::to_string(n.a[2] % kInputTypes) : var(n.a[0])); add("description", std::string("value? ") + nm); break;
  case CONFIRM:
    add("description", std::string("sure? ") + nm);
    if (n.a[1] & 1) add("okText", std::string("yes") + nm);
    if (n.a[1] & 2) add("cancelText", n.a[0] & 1 ? "@str0" : "no");
    break;
  case WAITVAR: add("varName", var(n.a[0])); add("timeout", secs(n.a[1])); if (n.a[2]) add("equalsVar", var(n.a[0] + 1)); break;
  case INCR: case DECR: add("varName", var(n.a[0])); break;
  case COPY: add("inputVar", var(n.a[0])); add("outputVar", var(n.a[0] + 1 + (n.a[1] & 1))); break;
  case EQUALS: case LESS: case LESSEQ: case GREATER: case GREATEREQ: add("leftVar", var(n.a[0])); add("rightVar", var(n.a[1])); break;
  case RESETVAR: add("varName", n.a[3] == 1 ? std::string("mres4") : var(n.a[0])); break;
  case OUTPUT: add("fromVar", n.a[2] == 3 ? std::string("nosuch") : var(n.a[0])); if (n.a[3] != 1) add("description", text(n, std::string("out ") + nm)); break;
  case MESSAGE: add("text", text(n, std::string("hello ") + nm)); break;
  case VAREXISTS: add("varName", n.a[1] == 3 ? std::string("nosuch") : var(n.a[0])); break;
  case CONDITION: add("varName", n.a[0] & 1 ? "yes" : "no"); break;
  case LOGI:
    if (n.a[2] < 2) add("message", n.a[3] == 1 ? std::string() : std::string("L:") + nm + "=");
    if (n.a[2] > 0) add("inputVar", var(n.a[0]));
    if (kSeverity[n.a[1] % kSeverities]) add("severity", kSeverity[n.a[1] % kSeverities]);
    break;
  case WAITVARS: add("varType", n.a[0] & 1 ? "SimNone" : "SimTimed"); add("timeout", secs(n.a[1])); break;
  case ADDMEMBER: add("inputVar", n.a[3] == 1 ? "nothing" : var(n.a[0])); add("outputVar", kRecord[n.a[1] & 3]); add("memberName", "m" + std::to_string(n.a[2] % 5)); break;
  case ADDELEM: add("inputVar", var(n.a[0])); add("outputVar", "arr" + std::to_string(n.a[1] & 3)); break;
  case COPYFROM: case COPYTO: add("inputVar", var(n.a[0])); add("outputVar", var(n.a[1])); break;
  default: break;
  }
  if (n.a[5]) {
    const char* first[] = {"inputVar", "leftVar", "varName"}; const char* second[] = {"outputVar", "rightVar", "varName", "inputVar"};
    bool done = false;
    auto spoil = [&](const char* k) { for (auto& a : r) if (!done && a.first == k) { a.second = "nosuch"; done = true; } };
    if (n.a[5] == 3) { for (auto& a : r) if (a.first == (n.kind == COPY ? "outputVar" : "varName")) a.second = "free"; }   // a variable without a type
    else if (n.kind == INPUT) spoil("outputVar");
    else if (n.a[5] == 1) for (auto k : first) spoil(k); else for (auto k : second) spoil(k);
  }
  return r;
}
inline std::unique_ptr<Instruction> make_node(Hub& h, const Prog& p, int i)
{
  const sim::Node& n = p.tree[static_cast<size_t>(i)];
  std::unique_ptr<Instruction> r;
  if (n.kind == PROBE) r.reset(new Probe(h, i, n));
  else r = sup::oac_tree::GlobalInstructionRegistry().Create(kTypeName[n.kind]);
  for (auto& a : attributes(n, i)) r->AddAttribute(a.first, a.second);
  for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c)
    if (p.tree[c].parent == i) sup::oac_tree::AppendChildInstruction(*r, make_node(h, p, static_cast<int>(c)));
  h.node[static_cast<size_t>(i)] = r.get();
  h.index[r.get()] = i;
  return r;
}
inline void add_var(Procedure& proc, const std::string& name, const char* type, const std::string& value, const char* kind = "Local")
{
  auto v = sup::oac_tree::GlobalVariableRegistry().Create(kind);
  v->SetName(name);
  v->AddAttribute("type", type);
  v->AddAttribute("value", value);
  if (name == "arr1" || name == "arr3" || name == "rec1") v->AddAttribute("dynamicType", "true");   // elements can be added to these
  proc.AddVariable(name, std::move(v));
}
// A variable that is available in a given span of time. p["av<k>"] and p["au<k>"]: from and until (ms after the start
// of the run); from -1: never, until 0: for ever.
class Timed : public sup::oac_tree::Variable
{
public:
  static const std::string Type;
  Timed() : Variable(Type) {}
  long m_from = 0, m_until = 0;
  static bool at(long from, long until, u64 ns) { return from >= 0 && ns >= static_cast<u64>(from) * 1000000ull && (until == 0 || ns < static_cast<u64>(until) * 1000000ull); }
private:
  bool GetValueImpl(dto::AnyValue& v) const override { v = dto::AnyValue(static_cast<dto::int32>(1)); return IsAvailableImpl(); }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return at(m_from, m_until, sim::now() - 1000000000ull); }
};
inline const std::string Timed::Type = "SimTimed";
// Variables v0..v3 (int32), arr0..arr3 (int32 arrays of 0..3 elements), elem, sel0..3.
inline void add_vars(Procedure& proc, const Prog& p)
{
  for (auto& n : p.tree)
    if (n.kind == INPUT && n.a[2] % kInputTypes > 0) {
      std::string name = "t" + std::to_string(n.a[2] % kInputTypes);
      if (!proc.GetWorkspace().HasVariable(name)) add_var(proc, name, ("{\"type\":\"" + std::string(kInputType[n.a[2] % kInputTypes]) + "\"}").c_str(), n.a[2] % kInputTypes == 9 ? "false" : n.a[2] % kInputTypes == 11 ? "\"\"" : "0");
    }
  if (p.get("free")) { auto v = sup::oac_tree::GlobalVariableRegistry().Create("Local"); v->SetName("free"); proc.AddVariable("free", std::move(v)); }
  for (int k = 0; k < static_cast<int>(p.get("avn")); ++k) {
    auto v = std::make_unique<Timed>();
    auto name = "av" + std::to_string(k);
    v->SetName(name);
    v->m_from = p.get(name.c_str());
    v->m_until = p.get(("au" + std::to_string(k)).c_str());
    proc.AddVariable(name, std::move(v));
  }
  bool used = false, loops = false, words = false, recs = false;
  for (auto& n : p.tree) {
    if (n.kind == FOR || n.kind == CHOICE || n.kind == ADDELEM) loops = true;
    if (n.kind == ADDMEMBER) loops = recs = true;
    if (n.kind == LISTEN || n.kind >= INPUT || (n.kind == REPEAT && n.a[2] == 1)) used = true;
    if (n.kind == CONDITION || n.kind == CONFIRM || ((n.kind == OUTPUT || n.kind == MESSAGE) && n.a[2] == 1)) words = true;
  }
  if (used || p.get("vars")) for (int i = 0; i < 4; ++i) add_var(proc, "v" + std::to_string(i), R"({"type":"int32"})", std::to_string(value_at_start(p, i)));
  if (words) {
    add_var(proc, "yes", R"({"type":"bool"})", "true");
    add_var(proc, "no", R"({"type":"bool"})", "false");
    add_var(proc, "str0", R"({"type":"string"})", "\"alpha\"");
    add_var(proc, "str1", R"({"type":"string"})", "\"beta\"");
  }
  if (loops) {
    add_var(proc, "elem", R"({"type":"int32"})", "0");
    for (int i = 0; i < 4; ++i) add_var(proc, "arr" + std::to_string(i), R"({"type":"","element":{"type":"int32"}})", json(array_at_start(i)));
    for (int i = 0; recs && i < 2; ++i) add_var(proc, "rec" + std::to_string(i), R"({"type":"","attributes":[{"m0":{"type":"int32"}}]})", json(record_at_start()));
    add_var(proc, "sel0", R"({"type":"uint32"})", "0");
    add_var(proc, "sel1", R"({"type":"uint32"})", "1");
    add_var(proc, "sel2", R"({"type":"","element":{"type":"uint32"}})", "[1,0]");
    add_var(proc, "sel3", R"({"type":"","element":{"type":"uint32"}})", "[0,0]");
  }
}
inline std::unique_ptr<Procedure> make_procedure(Hub& h, const Prog& p, long tick_ms)
{
  Quiet z;
  h.ps.assign(p.tree.size(), {});
  h.node.assign(p.tree.size(), nullptr);
  std::unique_ptr<Procedure> proc(new Procedure("sim.xml"));
  add_vars(*proc, p);
  char b[32];
  std::snprintf(b, sizeof b, "%.3f", static_cast<double>(tick_ms) / 1000.0);
  proc->AddAttribute("tickTimeout", b);
  proc->PushInstruction(make_node(h, p, 0));
  return proc;
}

// ---- procedures in files -------------------------------------------------------------------------
// The same tree written as XML files: the children of Include and IncludeProcedure are top-level instructions (or parts
// of such) of the same or another file. a[0] & 3 of an including node is the file (0: the same file for Include, the main file for
// IncludeProcedure); a[4] holds flags: 1 use the root instruction of the file (IncludeProcedure), 2 inside another
// instruction, 4 absolute file name.
enum Broken { INTACT = 0, NO_INSTRUCTION, NO_FILE, NO_PLACEHOLDER, TRUNCATED, UNKNOWN_TYPE, N_BROKEN };
struct XmlFiles
{
  const Prog& p;
  std::vector<int> file_of;            // file in which an instruction is written
  std::vector<bool> own_root;          // included by being the root instruction of its file
  std::vector<std::vector<int>> over;  // including instructions around an instruction, nearest first
  std::vector<Attrs> extra;            // attributes for placeholders
  std::vector<Attrs> attrs;
  std::string text[4];
  bool used[4] = {true, false, false, false};
  int broken, at;                      // the including instruction that is broken, or -1
  bool ok = true;                      // nothing was broken
  static std::string name(int f)
  {
    static const char* n[] = {"/d/main.xml", "/d/sub/f1.xml", "/d/sub/deep/f2.xml", "/d/other/f3.xml"};
    return std::string(sim::scratch_dir()) + n[f];
  }
  static std::string ref(int from, int to, bool absolute)
  {
    if (!absolute) {
      if (from == 0 && to == 1) return "sub/f1.xml";
      if (from == 0 && to == 2) return "sub/deep/f2.xml";
      if (from == 1 && to == 2) return "deep/f2.xml";
    }
    return name(to);
  }
  static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"') r += "&quot;"; else if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else r += c; } return r; }
  static bool including(int k) { return k == INCLUDE || k == INCPROC; }
  explicit XmlFiles(const Prog& prog, int brk = INTACT) : p(prog), broken(brk), at(-1)
  {
    const size_t n = p.tree.size();
    file_of.assign(n, 0); own_root.assign(n, false); over.assign(n, {}); extra.assign(n, {}); attrs.assign(n, {});
    bool has_root[4] = {true, false, false, false};
    std::vector<int> inc;
    for (size_t i = 0; i < n; ++i) {
      auto& x = p.tree[i];
      if (including(x.kind)) inc.push_back(static_cast<int>(i));
      if (x.kind == COPYFROM || x.kind == COPYTO) used[x.a[2] & 3] = true;
      if (x.parent < 0) continue;
      auto& q = p.tree[static_cast<size_t>(x.parent)];
      file_of[i] = file_of[static_cast<size_t>(x.parent)];
      over[i] = over[static_cast<size_t>(x.parent)];
      if (!including(q.kind)) continue;
      over[i].insert(over[i].begin(), x.parent);
      int f = static_cast<int>(q.a[0] & 3);
      if (q.kind == INCPROC || f) file_of[i] = f;
      used[file_of[i]] = true;
      if (q.kind == INCPROC && (q.a[4] & 1) && !has_root[f]) own_root[i] = has_root[f] = true;
    }
    if (broken && !inc.empty()) {
      at = inc[static_cast<size_t>(p.get("bi")) % inc.size()];
      if ((broken == NO_FILE || broken == TRUNCATED || broken == UNKNOWN_TYPE) && file_of[static_cast<size_t>(child(at))] == 0) broken = NO_INSTRUCTION;
    }
    // attributes, some of them given by the including instructions
    for (size_t i = 0; i < n; ++i) {
      auto& x = p.tree[i];
      attrs[i] = attributes(x, static_cast<int>(i));
      if (including(x.kind)) {
        int c = child(static_cast<int>(i));
        char b[32];
        std::snprintf(b, sizeof b, (x.a[4] & 2) ? "w%d.n%d" : "n%d", c, c);
        if (!own_root[static_cast<size_t>(c)]) attrs[i].emplace_back("path", static_cast<int>(i) == at && broken == NO_INSTRUCTION ? std::string("nowhere") : b);
        if (x.kind == INCPROC || (x.a[0] & 3)) attrs[i].emplace_back("file", ref(file_of[i], static_cast<int>(x.a[0] & 3), (x.a[4] & 4) != 0));
        if (static_cast<int>(i) == at && broken == NO_INSTRUCTION && own_root[static_cast<size_t>(c)]) attrs[i].emplace_back("path", "nowhere");
      }
      if (x.kind == COPYFROM || x.kind == COPYTO) attrs[i].emplace_back("file", ref(file_of[i], static_cast<int>(x.a[2] & 3), (x.a[4] & 4) != 0));
      for (size_t k = 1; p.get("ph") && k < attrs[i].size() && !over[i].empty(); ++k) {
        u64 h = mixh(mixh(static_cast<u64>(p.get("ph")), i), k);
        h ^= h >> 29;
        if (h % 3) continue;
        size_t t = (h >> 8) % over[i].size();
        std::string v = attrs[i][k].second, s = std::to_string(i) + "_" + attrs[i][k].first;
        attrs[i][k].second = "$x" + s;
        if (t + 1 < over[i].size() && (h >> 16) % 3 == 0) {
          extra[static_cast<size_t>(over[i][t])].emplace_back("x" + s, "$y" + s);
          extra[static_cast<size_t>(over[i][t + 1 + (h >> 24) % (over[i].size() - t - 1)])].emplace_back("y" + s, v);
        } else extra[static_cast<size_t>(over[i][t])].emplace_back("x" + s, v);
        if (t + 1 < over[i].size() && (h >> 20) % 3 == 0) extra[static_cast<size_t>(over[i].back())].emplace_back("x" + s, "not this one");
      }
    }
    if (at >= 0 && broken == NO_PLACEHOLDER) attrs[static_cast<size_t>(child(at))].emplace_back("zz", "$nosuch");
    ok = broken == INTACT || at < 0;
    // the texts
    std::string body[4];
    for (size_t i = 0; i < n; ++i) {
      bool top = p.tree[i].parent < 0 || including(p.tree[static_cast<size_t>(p.tree[i].parent)].kind);
      if (!top) continue;
      int f = file_of[i];
      bool in = p.tree[i].parent >= 0 && (p.tree[static_cast<size_t>(p.tree[i].parent)].a[4] & 2) && !own_root[i];
      std::string e = element(static_cast<int>(i), (p.tree[i].parent < 0 || own_root[i]) ? " isRoot=\"true\"" : "");
      if (in) e = sim::format("<Sequence name=\"w%zu\"><Succeed name=\"other\"/>", i) + e + "</Sequence>\n";
      if (i & 1) body[f] += e; else body[f] = e + body[f];
    }
    for (int f = 0; f < 4; ++f) {
      std::string t = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
      char tk[32];
      std::snprintf(tk, sizeof tk, "%.3f", static_cast<double>(p.get("tick", 100)) / 1000.0);
      t += sim::format("<Procedure name=\"f%d\" tickTimeout=\"%s\">\n", f, tk) + body[f];
      if (at >= 0 && broken == UNKNOWN_TYPE && f == file_of[static_cast<size_t>(child(at))]) t += "<NoSuchInstruction name=\"q\"/>\n";
      t += "<Workspace>\n" + vars(p) + res(p, f) + "</Workspace>\n</Procedure>\n";
      if (at >= 0 && broken == TRUNCATED && f == file_of[static_cast<size_t>(child(at))]) t.resize(t.size() / 2);
      text[f] = t;
    }
  }
  int child(int i) const { for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c) if (p.tree[c].parent == i) return static_cast<int>(c); return 0; }
  std::string element(int i, const std::string& more = "")
  {
    const auto& x = p.tree[static_cast<size_t>(i)];
    std::string s = std::string("<") + kTypeName[x.kind] + more;
    for (auto& a : attrs[static_cast<size_t>(i)]) s += " " + a.first + "=\"" + esc(a.second) + "\"";
    for (auto& a : extra[static_cast<size_t>(i)]) s += " " + a.first + "=\"" + esc(a.second) + "\"";
    if (is_leaf(x.kind) || including(x.kind)) return s + "/>\n";
    s += ">\n";
    for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c) if (p.tree[c].parent == i) s += element(static_cast<int>(c));
    return s + std::string("</") + kTypeName[x.kind] + ">\n";
  }
  static std::string local(const std::string& n, const char* type, const std::string& value) { return "<Local name=\"" + n + "\" type=\"" + esc(type) + "\" value=\"" + esc(value) + "\"" + (n == "arr1" || n == "arr3" || n == "rec1" ? " dynamicType=\"true\"" : "") + "/>\n"; }
  static std::string vars(const Prog& p)
  {
    std::string s;
    for (int i = 0; i < 4; ++i) s += local("v" + std::to_string(i), R"({"type":"int32"})", std::to_string(value_at_start(p, i)));
    for (int i = 1; i < kInputTypes; ++i) s += local("t" + std::to_string(i), ("{\"type\":\"" + std::string(kInputType[i]) + "\"}").c_str(), i == 9 ? "false" : i == 11 ? "\"\"" : "0");
    s += local("elem", R"({"type":"int32"})", "0");
    for (int i = 0; i < 4; ++i) s += local("arr" + std::to_string(i), R"({"type":"","element":{"type":"int32"}})", json(array_at_start(i)));
    for (int i = 0; i < 2; ++i) s += local("rec" + std::to_string(i), R"({"type":"","attributes":[{"m0":{"type":"int32"}}]})", json(record_at_start()));
    s += local("yes", R"({"type":"bool"})", "true") + local("no", R"({"type":"bool"})", "false");
    s += local("str0", R"({"type":"string"})", "\"alpha\"") + local("str1", R"({"type":"string"})", "\"beta\"");
    s += local("sel0", R"({"type":"uint32"})", "0") + local("sel1", R"({"type":"uint32"})", "1");
    s += local("sel2", R"({"type":"","element":{"type":"uint32"}})", "[1,0]") + local("sel3", R"({"type":"","element":{"type":"uint32"}})", "[0,0]");
    return s;
  }
  // Variables of a type with global set-up and tear-down actions (C30): of file f the k-th, by a hash of the program.
  struct Res { bool used = false; char id = 0; bool setup = false, teardown = false; std::string name; };
  static Res res_var(const Prog& p, int f, int k)
  {
    Res r;
    u64 h = mixh(mixh(static_cast<u64>(p.get("res")), static_cast<u64>(f) + 77), static_cast<u64>(k));
    h ^= h >> 31;
    r.used = p.get("res") != 0 && (k == 4 || h % 4 != 0);
    r.id = (h >> 3) % 7 == 0 ? 0 : static_cast<char>('A' + (h >> 3) % 7 % 3);
    u64 g = mixh(mixh(static_cast<u64>(p.get("res")), static_cast<u64>(f) + 99), static_cast<u64>(r.id));
    g ^= g >> 29;
    r.setup = g % 5 != 0;
    r.teardown = (g >> 4) % 5 != 0;
    r.name = k == 4 ? "mres4" : std::string((h >> 16) % 2 ? "a" : "z") + "res" + std::to_string(k);
    return r;
  }
  static std::string res(const Prog& p, int f)
  {
    std::string s;
    for (int k = 0; k < 5; ++k) {
      auto r = res_var(p, f, k);
      if (r.used) s += sim::format("<SimRes name=\"%s\" file=\"%d\" index=\"%d\"/>\n", r.name.c_str(), f, k);
    }
    return s;
  }
  void write() const;
  std::string show() const
  {
    std::string s;
    for (int f = 0; f < 4; ++f) if (used[f]) {
      std::string t = text[f];
      size_t k = t.find("<Workspace>");
      if (k != std::string::npos) t.resize(k);
      s += "  file " + name(f).substr(std::strlen(sim::scratch_dir())) + ":\n" + t;
    }
    return s;
  }
};

// ---- random trees ------------------------------------------------------------------------------
struct TreeOpts
{
  int min_nodes = 2;
  int max_nodes = 10;
  int max_depth = 4;
  std::vector<int> inner;
  std::vector<int> leaf = {PROBE};
  int modes = 1;            // how many probe modes may be used: 1 PLAIN, 2 +YIELD, 3 +SLEEP
  int block = 0;            // percent of probes that block until halted
  int endless = 0;          // percent of repeats without bound
  int refs = 0;             // percent of attributes that are given by a variable
  int missing = 0;          // percent of instructions that name a variable that is not there
};
// a[5] of these: 1, 2: (one of) the variable(s) named is not there
inline bool names_variables(int k)
{
  static const int kinds[] = {INCR, DECR, COPY, EQUALS, LESS, LESSEQ, GREATER, GREATEREQ, RESETVAR, CONDITION, LOGI, ADDMEMBER, ADDELEM, COPYFROM, COPYTO, INPUT};
  for (int x : kinds) if (x == k) return true;
  return false;
}
inline void gen_args(sim::Node& n, Rng& r, const TreeOpts& o)
{
  for (auto& a : n.a) a = 0;
  switch (n.kind) {
  case PROBE: {
    int len = r.range(1, 4);
    long s = 0;
    for (int i = 0; i < len; ++i) {
      int d = r.range(0, 9);
      long v = i == len - 1 ? (d < 7 ? S_ : F_) : d < 3 ? S_ : d < 4 ? F_ : d < 7 ? R_ : N_;
      s |= v << (2 * i);
    }
    n.a[0] = s; n.a[1] = len;
    n.a[2] = r.range(0, o.modes - 1);
    n.a[3] = n.a[2] == YIELD ? r.range(1, 4) : n.a[2] == SLEEP ? r.range(1, 400) : 0;
    if (r.range(0, 99) < o.block) { n.a[2] = BLOCK; n.a[3] = r.chance(1, 2) ? 0 : r.range(1, 3000); }
    break; }
  case PAR: n.a[0] = r.chance(1, 2) ? -1 : r.range(0, 4); n.a[1] = r.chance(1, 2) ? -1 : r.range(0, 4); break;
  case REPEAT: n.a[0] = r.range(0, 99) < o.endless ? -1 : r.range(0, 3); break;
  case FOR: n.a[0] = r.range(0, 3); break;
  case LISTEN: n.a[0] = r.range(0, 3); n.a[1] = r.range(0, 1); break;
  case CHOICE: n.a[0] = r.range(0, 3); break;
  case WAIT: n.a[0] = r.range(0, 3) ? r.range(1, 500) : r.range(0, 20000); n.a[1] = r.range(0, 1); break;
  case WAITVAR: n.a[0] = r.range(0, 3); n.a[1] = r.range(0, 2000); n.a[2] = r.range(0, 1); break;
  case LOGI: n.a[0] = r.range(0, 3); n.a[1] = r.range(0, kSeverities - 1); n.a[2] = r.range(0, 2); break;
  case ADDMEMBER: n.a[0] = r.range(0, 3); n.a[1] = r.chance(2, 3) ? 0 : r.range(0, 3); n.a[2] = r.range(0, 4); n.a[3] = r.chance(1, 12); break;
  default: n.a[0] = r.range(0, 3); n.a[1] = r.range(0, 3); break;
  }
  if (o.missing && names_variables(n.kind) && r.range(0, 99) < o.missing) n.a[5] = r.range(1, 2);
  if (o.refs && (n.kind == REPEAT || n.kind == OUTPUT || n.kind == MESSAGE) && r.range(0, 99) < o.refs) {
    n.a[2] = 1;
    if (n.kind == REPEAT) n.a[0] = r.range(0, 3);
    else if (r.chance(1, 4)) n.a[2] = n.kind == OUTPUT ? r.range(2, 3) : 2;
  }
}
// Makes any (shrunk) tree well formed again.
inline void fix_tree(Prog& p)
{
  if (p.tree.empty()) { sim::Node n; n.a[1] = 1; p.tree.push_back(n); }
  for (size_t i = 0; i < p.tree.size(); ++i) {
    int nc = 0;
    for (auto& n : p.tree) if (n.parent == static_cast<int>(i)) ++nc;
    auto& n = p.tree[i];
    if (nc == 0 && !is_leaf(n.kind)) { n.kind = PROBE; for (auto& a : n.a) a = 0; n.a[1] = 1; }
    if (nc > 1 && is_decorator(n.kind)) { n.kind = SEQ; }
    if (!p.get("xml")) { if (n.kind == INCLUDE || n.kind == INCPROC) n.kind = SEQ; if (n.kind == COPYFROM || n.kind == COPYTO) n.kind = SUCCEED; }
    if (n.kind == CHOICE && nc < 2) n.a[0] = 0;
    if (n.kind == CHOICE && n.a[0] == 3) n.a[0] = 3;
  }
}
inline void gen_tree(Prog& p, Rng& r, const TreeOpts& o)
{
  p.tree.clear();
  int target = r.range(o.min_nodes, o.max_nodes);
  std::vector<int> depth;
  auto add = [&](int parent, int kind) {
    sim::Node n;
    n.parent = parent; n.kind = kind;
    gen_args(n, r, o);
    p.tree.push_back(n);
    depth.push_back(parent < 0 ? 0 : depth[static_cast<size_t>(parent)] + 1);
    return static_cast<int>(p.tree.size()) - 1;
  };
  add(-1, o.inner[r.below(static_cast<sim::u32>(o.inner.size()))]);
  while (static_cast<int>(p.tree.size()) < target) {
    // pick an inner node that can take another child
    std::vector<int> cand;
    for (size_t i = 0; i < p.tree.size(); ++i) {
      if (is_leaf(p.tree[i].kind) || depth[i] >= o.max_depth) continue;
      int nc = 0;
      for (auto& n : p.tree) if (n.parent == static_cast<int>(i)) ++nc;
      if (is_decorator(p.tree[i].kind) && nc) continue;
      if (nc >= 4) continue;
      cand.push_back(static_cast<int>(i));
      if (nc == 0) { cand.push_back(static_cast<int>(i)); cand.push_back(static_cast<int>(i)); }
    }
    if (cand.empty()) break;
    int par = cand[r.below(static_cast<sim::u32>(cand.size()))];
    bool leaf = depth[static_cast<size_t>(par)] + 1 >= o.max_depth || r.chance(1, 2);
    add(par, leaf ? o.leaf[r.below(static_cast<sim::u32>(o.leaf.size()))] : o.inner[r.below(static_cast<sim::u32>(o.inner.size()))]);
  }
  size_t n = p.tree.size();
  for (size_t i = 0; i < n; ++i) {
    bool any = is_leaf(p.tree[i].kind);
    for (auto& c : p.tree) if (c.parent == static_cast<int>(i)) any = true;
    if (!any) add(static_cast<int>(i), o.leaf[r.below(static_cast<sim::u32>(o.leaf.size()))]);
  }
  fix_tree(p);
}
inline std::string show_tree(const Prog& p, int i = 0, int d = 2)
{
  if (p.tree.empty()) return "";
  const auto& n = p.tree[static_cast<size_t>(i)];
  std::string s(static_cast<size_t>(2 * d), ' ');
  s += sim::format("%d %s", i, kTypeName[n.kind]);
  if (n.kind == PROBE) {
    s += " [";
    for (long k = 0; k < n.a[1]; ++k) s += "SFRN"[ProbeArgs::at(n, static_cast<u64>(k))];
    s += "]";
    static const char* mn[] = {"", " yields", " sleeps(ms)", " blocks"};
    if (n.a[2]) s += sim::format("%s %ld", mn[n.a[2] & 3], n.a[3]);
  } else s += sim::format(" (%ld, %ld)", n.a[0], n.a[1]);
  s += "\n";
  for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c) if (p.tree[c].parent == i) s += show_tree(p, static_cast<int>(c), d + 1);
  return s;
}

// ---- reference interpreter (sequential kinds only) ---------------------------------------------
struct Model
{
  struct N { int kind; int ws = 0; long a[6]; std::vector<int> ch; int st = 0; long count = 0; bool started = false; std::vector<int> sel; u64 pos = 0; long max = 0; std::vector<long> arr; };
  // what happens outside of the tree of statuses, for those who want to know
  struct Env
  {
    virtual ~Env() {}
    virtual bool init(int) { return true; }               // an asking instruction begins; false: it cannot
    virtual int ask(int) { return -1; }                   // Input: status; UserConfirmation, UserChoice: option or -1
    virtual void status(int, int) {}
    virtual void variable(int, const std::string&, long) {}
    virtual void array(int, const std::string&, const std::vector<long>&) {}
    virtual void record(int, const std::string&, const Record&) {}
    virtual void output(int, const std::string&, long) {}
    virtual void message(int, const std::string&) {}
    virtual void log(int, int, const std::string&) {}
  };
  Env* env = nullptr;
  std::vector<N> n;
  long var[4] = {0, 1, 2, 3};
  long sub[4][4];                        // workspaces of included procedures (from 1)
  Record rec[4];                         // rec1, by workspace
  std::vector<long> arr[4][4];           // arrays, by workspace
  std::map<int, std::map<int, long>> seen;   // what each Listen saw last
  std::vector<std::pair<int, int>> ev;   // status notifications
  std::vector<int> runs;                 // executed leaves
  long at_start[4];
  explicit Model(const Prog& p)
  {
    for (int k = 0; k < 4; ++k) at_start[k] = value_at_start(p, k);
    n.resize(p.tree.size());
    for (size_t i = 0; i < n.size(); ++i) {
      n[i].kind = p.tree[i].kind;
      for (int k = 0; k < 6; ++k) n[i].a[k] = p.tree[i].a[k];
      if (p.tree[i].parent >= 0) n[static_cast<size_t>(p.tree[i].parent)].ch.push_back(static_cast<int>(i));
      if (p.tree[i].parent >= 0) { auto& q = n[static_cast<size_t>(p.tree[i].parent)]; n[i].ws = q.kind == INCPROC ? static_cast<int>(q.a[0] & 3) : q.ws; }
    }
    reset_vars();
  }
  void reset_vars() { for (int k = 0; k < 4; ++k) { var[k] = at_start[k]; for (auto& s : sub) s[k] = at_start[k]; for (auto& a : arr) a[k] = array_at_start(k); rec[k] = record_at_start(); } }
  long* vars(int w) { return w ? sub[w] : var; }
  enum { NS, NF, RU, SU, FA };
  static bool fin(int s) { return s == SU || s == FA; }
  N& at(int i) { return n[static_cast<size_t>(i)]; }
  void note(int i, int s) { ev.emplace_back(i, s); if (env) env->status(i, s); }
  void set(int i, int s) { if (at(i).st != s) { at(i).st = s; note(i, s); } }
  void put(int w, int k, long v) { vars(w)[k] = v; if (env) env->variable(w, "v" + std::to_string(k), v); }
  void reset(int i)
  {
    for (int c : at(i).ch) reset(c);
    at(i).count = 0; at(i).started = false; at(i).sel.clear();
    seen.erase(i);
    set(i, NS);
  }
  void reset_all() { reset(0); reset_vars(); }
  void restart() { for (auto& x : n) x.pos = 0; }
  static int vi(long k) { return static_cast<int>(k % 4 < 0 ? 0 : k % 4); }
  bool look(int i)
  {
    bool changed = false;
    long* var = vars(at(i).ws);
    for (long k = at(i).a[0]; k <= at(i).a[0] + 1; ++k) {
      auto r = seen[i].emplace(vi(k), 0);
      if (!r.second && r.first->second == var[vi(k)]) continue;
      r.first->second = var[vi(k)];
      changed = true;
    }
    return changed;
  }
  static std::string text(const N& x, const char* s, int i) { return x.a[2] == 1 ? x.a[1] & 1 ? "beta" : "alpha" : s + std::string(" n") + std::to_string(i); }
  void exec(int i)
  {
    N& x = at(i);
    if (x.st == NS && x.kind == INPUT && x.a[5]) { set(i, FA); return; }
    if (x.st == NS && env && (x.kind == INPUT || x.kind == CONFIRM || x.kind == USERCHOICE) && !env->init(i)) { set(i, FA); return; }
    if (x.st == NS) {
      x.count = 0;
      if (x.kind == REPEAT) x.max = x.a[2] == 1 ? vars(x.ws)[vi(x.a[0])] : x.a[0];
      if (x.kind == FOR) x.arr = arr[x.ws][x.a[0] & 3];
      x.st = NF;
      note(i, NF);
    }
    if (fin(x.st)) return;
    int r = impl(i);
    set(i, r);
  }
  int loop(int i, long max)
  {
    N& x = at(i);
    int c = x.ch[0];
    if (x.kind == FOR && env) env->variable(x.ws, "elem", x.arr[static_cast<size_t>(x.count)]);
    if (at(c).st == SU) reset(c);
    exec(c);
    if (max > 0 && fin(at(c).st)) ++x.count;
    if (at(c).st == SU) return x.count == max ? SU : NF;
    return at(c).st;
  }
  // first child that is not yet done in the sense of 'skip' status, and what the parent makes of it
  int chain(int i, int skip, bool reactive)
  {
    N& x = at(i);
    const std::vector<int>& ch = x.kind == CHOICE ? x.sel : x.ch;
    for (int c : ch) {
      if (at(c).st == skip) continue;
      exec(c);
      if (reactive && at(c).st == RU) {
        for (int o : ch) if (o != c) reset(o);
        return RU;
      }
      break;
    }
    for (int c : ch) {
      int s = at(c).st;
      if (s == skip) continue;
      if (s == NS || s == NF) return NF;
      return s;
    }
    return skip;
  }
  int impl(int i)
  {
    N& x = at(i);
    long* var = vars(x.ws);
    if (x.a[5] && names_variables(x.kind) && !(x.kind == LOGI && x.a[2] == 0)) return FA;
    switch (x.kind) {
    case PROBE: {
      runs.push_back(i);
      sim::Node t; t.a[0] = x.a[0]; t.a[1] = x.a[1];
      static const int m[] = {SU, FA, RU, NF};
      return m[ProbeArgs::at(t, x.pos++)]; }
    case OUTPUT: if (x.a[2] == 3 || (x.a[2] == 2 && x.a[3] != 1)) return FA; if (env) env->output(i, x.a[3] == 1 ? std::string() : text(x, "out", i), var[vi(x.a[0])]); return SU;
    case MESSAGE: if (x.a[2] == 2) return FA; if (env) env->message(i, text(x, "hello", i)); return SU;
    case LOGI: {
      int sev = static_cast<int>(x.a[1] % kSeverities);
      if (sev == kSeverities - 1) return FA;
      std::string t;
      if (x.a[2] < 2 && x.a[3] != 1) t = "L:n" + std::to_string(i) + "=";
      if (x.a[2] > 0) t += std::to_string(var[vi(x.a[0])]);
      if (env) env->log(i, sev ? sev - 1 : 6, t);
      return SU; }
    case VAREXISTS: return x.a[1] == 3 ? FA : SU;
    case CONDITION: return x.a[0] & 1 ? SU : FA;
    case LESS: return var[vi(x.a[0])] < var[vi(x.a[1])] ? SU : FA;
    case LESSEQ: return var[vi(x.a[0])] <= var[vi(x.a[1])] ? SU : FA;
    case GREATER: return var[vi(x.a[0])] > var[vi(x.a[1])] ? SU : FA;
    case GREATEREQ: return var[vi(x.a[0])] >= var[vi(x.a[1])] ? SU : FA;
    case DECR: put(x.ws, vi(x.a[0]), static_cast<std::int32_t>(static_cast<std::uint32_t>(var[vi(x.a[0])]) - 1u)); return SU;
    case ADDELEM: {
      if ((x.a[1] & 1) == 0) return FA;
      auto& a = arr[x.ws][x.a[1] & 3];
      a.push_back(var[vi(x.a[0])]);
      if (env) env->array(x.ws, "arr" + std::to_string(x.a[1] & 3), a);
      return SU; }
    case ADDMEMBER: {
      if ((x.a[1] & 3) > 1 || x.a[3] == 1) return FA;
      auto& a = rec[x.ws];
      std::string name = "m" + std::to_string(x.a[2] % 5);
      for (auto& m : a) if (m.first == name) return FA;
      a.emplace_back(name, var[vi(x.a[0])]);
      if (env) env->record(x.ws, "rec1", a);
      return SU; }
    case SUCCEED: case WAIT: case WAITVARS: return SU;
    case INPUT: return env ? env->ask(i) : static_cast<int>(FA);
    case CONFIRM: return env && env->ask(i) == 0 ? SU : FA;
    case USERCHOICE:
      if (!x.started) {
        x.started = true;
        int k = env ? env->ask(i) : -1;
        if (k < 0 || k >= static_cast<int>(x.ch.size())) return FA;
        x.sel = {x.ch[static_cast<size_t>(k)]};
        return NF;
      }
      exec(x.sel[0]);
      return at(x.sel[0]).st;
    case FAIL_: return FA;
    case INCR: put(x.ws, vi(x.a[0]), static_cast<std::int32_t>(static_cast<std::uint32_t>(var[vi(x.a[0])]) + 1u)); return SU;
    case COPY: put(x.ws, vi(x.a[0] + 1 + (x.a[1] & 1)), var[vi(x.a[0])]); return SU;
    case EQUALS: return var[vi(x.a[0])] == var[vi(x.a[1])] ? SU : FA;
    case RESETVAR: put(x.ws, vi(x.a[0]), at_start[vi(x.a[0])]); return SU;
    case COPYFROM: put(x.ws, vi(x.a[1]), vars(static_cast<int>(x.a[2] & 3))[vi(x.a[0])]); return SU;
    case COPYTO: put(static_cast<int>(x.a[2] & 3), vi(x.a[1]), var[vi(x.a[0])]); return SU;
    case INCLUDE: case INCPROC: { int c = x.ch[0]; if (!fin(at(c).st)) exec(c); return at(c).st; }
    case LISTEN: {
      int c = x.ch[0];
      auto calc = [&] { int s = at(c).st; return s == SU || (x.a[1] && s == FA) ? static_cast<int>(NF) : s; };
      if (at(c).st == NF || at(c).st == RU) { exec(c); return calc(); }
      if (fin(at(c).st)) reset(c);
      if (!look(i)) return RU;
      exec(c);
      return calc(); }
    case SEQ: return chain(i, SU, false);
    case FALLBACK: return chain(i, FA, false);
    case RSEQ: return chain(i, SU, true);
    case RFALLBACK: return chain(i, FA, true);
    case CHOICE:
      if (!x.started) {
        x.started = true;
        const int v = static_cast<int>(x.a[0] & 3);
        std::vector<int> l;
        for (int k : v == 0 ? std::vector<int>{0} : v == 1 ? std::vector<int>{1} : v == 2 ? std::vector<int>{1, 0} : std::vector<int>{0, 0}) { if (k >= static_cast<int>(x.ch.size())) return FA; l.push_back(x.ch[static_cast<size_t>(k)]); }
        x.sel = l;
        return NF;
      }
      return chain(i, SU, false);
    case REPEAT: return x.max == 0 ? SU : loop(i, x.max);
    case FOR: return x.arr.empty() ? SU : loop(i, static_cast<long>(x.arr.size()));
    case INVERT: case FORCE: {
      int c = x.ch[0];
      if (!fin(at(c).st)) exec(c);
      int s = at(c).st;
      if (x.kind == INVERT) return s == SU ? FA : s == FA ? SU : s;
      return s == FA ? SU : s; }
    default: return FA;
    }
  }
  // Instructions that are executed next, as reported to the user
  void next(int i, std::vector<int>& out)
  {
    out.push_back(i);
    N& x = at(i);
    auto first = [&](const std::vector<int>& ch, int skip) {
      for (int c : ch) {
        if (at(c).st == skip) continue;
        if (at(c).st == NS || at(c).st == NF) next(c, out);
        return;
      }
    };
    switch (x.kind) {
    case SEQ: case RSEQ: first(x.ch, SU); break;
    case FALLBACK: case RFALLBACK: first(x.ch, FA); break;
    case CHOICE: first(x.sel, SU); break;
    case USERCHOICE: if (x.started) first(x.sel, -1); break;
    case REPEAT: case FOR: case INVERT: case FORCE: case LISTEN: case INCLUDE: case INCPROC: next(x.ch[0], out); break;
    default: break;
    }
  }
};

// Number of executions of the root until the (sequential) procedure ends, or -1 when that takes more than 'max',
// from a fresh start and once more after a reset.
inline int ends(const Prog& p, int max = 80)
{
  Model m(p);
  int worst = 0;
  for (int round = 0; round < 3; ++round) {
    int k = 0;
    while (!Model::fin(m.at(0).st)) { if (++k > max) return -1; m.exec(0); }
    if (k > worst) worst = k;
    m.reset_all();
  }
  return worst;
}
inline bool has_kind(const Prog& p, int a, int b = -1) { for (auto& n : p.tree) if (n.kind == a || n.kind == b) return true; return false; }
// Makes a tree of sequential kinds one that always ends: waits do not occur together with reactive nodes.
inline void fix_ending_tree(Prog& p)
{
  fix_tree(p);
  if (has_kind(p, RSEQ, RFALLBACK)) for (auto& n : p.tree) if (n.kind == WAIT) { n.kind = SUCCEED; }
  if (has_kind(p, WAIT) && p.get("tick") < 20) p.p["tick"] = 20;
  if (ends(p) < 0) for (auto& n : p.tree) if (n.kind == PROBE) { n.a[0] &= 1; n.a[1] = 1; }
  if (ends(p) < 0) for (auto& n : p.tree) { if (n.kind == LISTEN) n.kind = FORCE; if (n.kind == REPEAT && n.a[0] < 0) n.a[0] = 2; if (n.kind == DECR) n.kind = INCR; }
  if (ends(p) < 0) for (auto& n : p.tree) { if (n.kind == ADDELEM) n.kind = VAREXISTS; if (n.kind == REPEAT) n.a[2] = 0; }
  if (ends(p) < 0) for (auto& n : p.tree) if (n.kind == RSEQ) n.kind = SEQ; else if (n.kind == RFALLBACK) n.kind = FALLBACK;
  for (int most : {2, 1}) if (ends(p) < 0) for (auto& n : p.tree) { if (n.kind == FOR && n.a[0] % 4 > most) n.a[0] = most; if (n.kind == REPEAT && n.a[0] > most) n.a[0] = most; }
}

// What a user who is asked by an instruction can choose from.
inline std::vector<std::string> options_of(const Prog& p, int i)
{
  auto& n = p.tree[static_cast<size_t>(i)];
  std::vector<std::string> o;
  if (n.kind == CONFIRM) {
    o.push_back(n.a[1] & 1 ? "yesn" + std::to_string(i) : "Ok");
    o.push_back(n.a[1] & 2 ? n.a[0] & 1 ? "alpha" : "no" : "Cancel");
  }
  else for (size_t c = static_cast<size_t>(i) + 1; c < p.tree.size(); ++c) if (p.tree[c].parent == i) o.push_back(sim::format("n%zu (type:%s)", c, kTypeName[p.tree[c].kind]));
  return o;
}
// ---- observer -------------------------------------------------------------------------------------
struct Ev
{
  enum T { STATE, INSTR, VAR, NEXT, MSG, LOG, PUT, ASK, ANSWER, INTERRUPT } t;
  u64 at;
  int a = 0, b = 0, c = 0;
  u64 time = 0;
  int tid = 0;
  int text = -1;               // in Observer::texts
};
class Observer : public sup::oac_tree::IJobInfoIO
{
public:
  std::vector<Ev> ev;
  Procedure* proc = nullptr;
  bool dead = false;             // job destroyed
  bool finished_called = false;
  int state = -1;
  int root_at_state = -1;
  u64 n_instr = 0;
  std::vector<std::vector<unsigned>> nexts;
  bool keep_texts = false;
  std::vector<std::string> texts;
  const Prog* prog = nullptr;    // the program whose instructions ask
  bool free_questions = false;   // do not check the options
  // behaviour of the simulated user
  Rng* user = nullptr;
  u64 salt = 0;                  // makes the answers different
  int user_mode = 0;             // 0 answers at once, 1 after a delay, 2 never
  std::set<u64> interrupted;
  std::set<u64> asked;
  std::function<void(Ev&)> hook;
  void InitNumberOfInstructions(dto::uint32 n) override { Quiet z; n_instr = n; }
  void InstructionStateUpdated(dto::uint32 i, InstructionState s) override { rec(Ev::INSTR, static_cast<int>(i), code(s.m_execution_status), s.m_breakpoint_set ? 1 : 0); }
  void VariableUpdated(dto::uint32 i, const dto::AnyValue& v, bool connected) override { Quiet z; int x = -1; long k; if (v.As(k)) x = static_cast<int>(k); rec(Ev::VAR, static_cast<int>(i), x, connected, keep_texts ? keep(sup::dto::ValuesToJSONString(v)) : -1); }
  void JobStateUpdated(JobState s) override
  {
    int root = -1;
    { Quiet z; state = jcode(s); if (proc) root = code(proc->GetStatus()); root_at_state = root; }
    sim::trace("job state %s", jname(jcode(s)));
    rec(Ev::STATE, jcode(s), root, 0);
  }
  void PutValue(const dto::AnyValue& v, const std::string& d) override { Quiet z; rec(Ev::PUT, 0, 0, 0, keep_texts ? keep(d + " = " + sup::dto::ValuesToJSONString(v)) : -1); }
  bool GetUserValue(dto::uint64 id, dto::AnyValue& value, const std::string& description) override
  {
    int node;
    { Quiet z; node = node_in(description); }
    int k = ask(id, node, 0);
    if (k < 0) return false;
    Quiet z;
    value = dto::AnyValue(dto::SignedInteger32Type, k);
    return true;
  }
  int GetUserChoice(dto::uint64 id, const std::vector<std::string>& options, const dto::AnyValue& metadata) override
  {
    int node = -1, n;
    { Quiet z; n = static_cast<int>(options.size()); if (metadata.HasField("text")) node = node_in(metadata["text"].As<std::string>()); check_question(node, options, metadata); }
    return ask(id, node, n);
  }
  void check_question(int node, const std::vector<std::string>& options, const dto::AnyValue& metadata)
  {
    if (!prog) return;
    if (node < 0 || node >= static_cast<int>(prog->tree.size())) sim::fail("ask:nobody", "the user is asked a question that no instruction asks\n");
    auto want = options_of(*prog, node);
    std::string s;
    for (auto& o : options) s += " '" + o + "'";
    if (options != want) sim::fail("ask:options", sim::format("instruction %d offers the user the wrong options:", node) + s + "\n");
    unsigned t = prog->tree[static_cast<size_t>(node)].kind == CONFIRM ? 2u : 1u;
    if (!metadata.HasField("dialog_type") || metadata["dialog_type"].As<dto::uint32>() != t) sim::fail("ask:dialog", sim::format("instruction %d asks with the wrong kind of dialog", node));
  }
  static int node_in(const std::string& s) { size_t k = s.rfind(" n"); return k == std::string::npos ? -1 : std::atoi(s.c_str() + k + 2); }
  void Interrupt(dto::uint64 id) override { rec(Ev::INTERRUPT, static_cast<int>(id), 0, 0); Quiet z; interrupted.insert(id); }
  void Message(const std::string& m) override { Quiet z; rec(Ev::MSG, 0, 0, 0, keep_texts ? keep(m) : -1); }
  void Log(int severity, const std::string& m) override { Quiet z; rec(Ev::LOG, severity, 0, 0, keep_texts ? keep(m) : -1); }
  void NextInstructionsUpdated(const std::vector<dto::uint32>& v) override
  {
    { Quiet z; std::vector<unsigned> c(v.begin(), v.end()); nexts.push_back(c); }
    int root = -1;
    { Quiet z; if (proc) root = code(proc->GetStatus()); }
    rec(Ev::NEXT, root, static_cast<int>(nexts.size()) - 1, 0);
  }
  std::function<void()> on_clear;
  void clear() { if (on_clear) on_clear(); ev.clear(); nexts.clear(); texts.clear(); state = root_at_state = -1; n_instr = 0; proc = nullptr; }
private:
  // the answer is a non-negative number (the index of an option, if there are any, or one too many), or -1
  int ask(u64 id, int node, int options)
  {
    rec(Ev::ASK, static_cast<int>(id), node, options);
    int mode, res;
    u64 wait;
    {
      Quiet z;
      asked.insert(id);
      u64 h = mixh(mixh(0x1234, salt), id * 977 + static_cast<u64>(user_mode));
      mode = user_mode; res = static_cast<int>(h % 16) == 0 ? -1 : static_cast<int>((h >> 8) % 16);
      if (res >= 0 && options) res = res == 13 ? options : res % options;
      wait = mode == 1 ? ((h >> 16) % 800 + 1) * 1000000ull : 0;
    }
    u64 t0 = sim::now();
    for (;;) {
      { Quiet z; if (interrupted.count(id)) { res = -1; break; } if (mode != 2 && sim::now() - t0 >= wait) break; }
      sim::sleep_ns(5000000);
    }
    rec(Ev::ANSWER, static_cast<int>(id), res, node);
    return res;
  }
  int keep(std::string s) { texts.push_back(std::move(s)); return static_cast<int>(texts.size()) - 1; }
  void rec(Ev::T t, int a, int b, int c, int text = -1)
  {
    Quiet z;
    if (dead) sim::fail("destroy:callback-after", "the observer was notified after the job had been destroyed");
    Ev e;
    e.t = t; e.at = tick(); e.a = a; e.b = b; e.c = c; e.time = sim::now(); e.tid = sim::tid(); e.text = text;
    sim::ev(mixh(static_cast<u64>(t) * 64 + static_cast<u64>(a), static_cast<u64>(b) * 4 + static_cast<u64>(c)));
    ev.push_back(e);
    if (hook) hook(ev.back());
    sim::bump();
  }
};
inline void XmlFiles::write() const
{
  Quiet z;
  std::string d = sim::scratch_dir();
  for (const char* s : {"/d", "/d/sub", "/d/sub/deep", "/d/other"}) ::mkdir((d + s).c_str(), 0755);
  for (int f = 0; f < 4; ++f) {
    ::unlink(name(f).c_str());
    if (!used[f] || (at >= 0 && broken == NO_FILE && f == file_of[static_cast<size_t>(child(at))])) continue;
    FILE* o = std::fopen(name(f).c_str(), "w");
    if (!o) continue;
    std::fputs(text[f].c_str(), o);
    std::fclose(o);
  }
}
// The procedure of a run, from its files.
inline std::unique_ptr<Procedure> parse_procedure(Hub& h, const Prog& p)
{
  std::unique_ptr<Quiet> quiet;
  std::string name;
  {
    Quiet z;
    h.ps.assign(p.tree.size(), {});
    h.node.assign(p.tree.size(), nullptr);
    h.index.clear();
    Probe::hub() = &h;
    if (!h.files_written && !p.get("loud")) XmlFiles(p).write();
    if (!p.get("loud")) quiet.reset(new Quiet);
    name = XmlFiles::name(0);
  }
  return sup::oac_tree::ParseProcedureFile(name);
}
inline void find_nodes(Hub& h, Instruction& i)
{
  Quiet z;
  auto n = i.GetName();
  if (n.size() > 1 && n[0] == 'n') { size_t k = static_cast<size_t>(std::atoi(n.c_str() + 1)); if (k < h.node.size()) h.node[k] = &i; h.index[&i] = static_cast<int>(k); }
  for (auto c : i.ChildInstructions()) find_nodes(h, *c);
}
// Creates the job of a run; when the system refuses to start a thread, the creation must leave nothing behind, and is
// tried again.
inline std::unique_ptr<sup::oac_tree::LocalJob> make_job(Hub& hub, Observer& obs, const Prog& p)
{
  for (;;) {
    if (!obs.free_questions) obs.prog = &p;
    auto pr = p.get("xml") ? parse_procedure(hub, p) : make_procedure(hub, p, p.get("tick", 100));
    obs.proc = pr.get();
    int live = sim::live_threads();
    try {
      std::unique_ptr<sup::oac_tree::LocalJob> job(new sup::oac_tree::LocalJob(std::move(pr), obs));
      if (p.get("xml")) find_nodes(hub, *obs.proc->RootInstruction());
      return job;
    }
    catch (const std::system_error&) {
      if (p.get("f.thr") == 0) throw;
      Quiet z;
      pr.reset();
      if (sim::live_threads() != live) sim::fail("create:threads-left", "the creation of a job failed, but one of its threads still exists\n");
      obs.clear();
      sim::count("job_creation_failed");
    }
  }
}
// Waits (in virtual time) until 'cond' holds or 'ns' have passed; the condition is checked without
// disturbing the schedule.
template <class C>
inline bool wait_until(C cond, u64 ns, u64 poll = 20000000ull)
{
  u64 t0 = sim::now();
  for (;;) {
    { Quiet z; if (cond()) return true; }
    if (sim::now() - t0 >= ns) return false;
    sim::sleep_ns(poll);
  }
}
// Waits before a client's next operation: so many milliseconds, or (if negative) so many events.
inline void pause_for(long d)
{
  if (d > 0) sim::sleep_ns(static_cast<u64>(d) * 1000000ull);
  else if (d < 0) sim::wait_bumps(static_cast<u64>(-d), 3000000000ull);
}
inline void prepare()
{
  sup::oac_tree::GlobalInstructionRegistry().RegisterInstruction("Probe", [] { return static_cast<Instruction*>(new Probe()); });
  for (int k = 1; k < N_KINDS; ++k) (void)sup::oac_tree::GlobalInstructionRegistry().Create(kTypeName[k]);
  sup::oac_tree::GlobalVariableRegistry().RegisterVariable(Timed::Type, [] { return static_cast<sup::oac_tree::Variable*>(new Timed()); });
  (void)sup::oac_tree::GlobalVariableRegistry().Create("Local");
}
}  // namespace rig
#endif
