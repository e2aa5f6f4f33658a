// C32 plugins and registered types.
#include "rig.h"

#include <sup/oac-tree/exceptions.h>

#include <dlfcn.h>

#include <exception>
#include <mutex>

using namespace rig;

namespace
{
using sup::oac_tree::GlobalInstructionRegistry;
using sup::oac_tree::GlobalVariableRegistry;
using sup::oac_tree::Variable;
constexpr int kPlugs = 4;      // plugins: an instruction and a variable type each
constexpr int kOwn = 3;        // types that clients register themselves
constexpr u64 kEnd = 4000000000000ull;
enum { MAKE, REGISTER, LIST, CREATE, N_OPS };
// Type registrations of a procedure
enum { NONE, ONE, OTHER, NESTED, SAME_TWICE, DIFFERENT_TWICE, UNKNOWN, FROM_FILE, NO_FILE, BOTH, NEITHER, N_TYPES };
const char* const tyname[] = {"no type", "a type", "another type of that name", "a type that uses a type", "a type twice", "two types of the same name", "a type that is not registered", "a type from a file", "a type from a file that does not exist", "a type both from a file and from text", "a type from nowhere"};
enum { INCLUDED = 1, KEEP = 2, REPEATED = 4, LATE = 8, FILED = 16, OTHER_FILE = 32, ALL_FLAGS = 63 };
struct Job
{
  int ran[kPlugs] = {};
  int peeked = 0;
  std::string bad, seen;
};
struct Plug { u64 begun = 0, done = 0; bool open = false; };
struct World
{
  Plug plug[kPlugs];
  std::map<int, Job> jobs;
  int failed[64] = {};           // by thread: a plugin could not be loaded
  int tries[kOwn] = {}, taken[kOwn] = {}, which[kOwn] = {};
  u64 own_done[kOwn] = {}, own_begun[kOwn] = {};
};
World* g_w = nullptr;
std::mutex* g_loader = nullptr;  // the dynamic loader does one thing at a time
std::set<std::string> g_builtin_i, g_builtin_v;
int job_of(const std::string& name) { return std::atoi(name.c_str() + 1); }
std::string iname(int k) { return sim::format("PlugInstr%d", k); }
std::string vname(int k) { return sim::format("PlugVar%d", k); }
template <int N> class PInstr : public Instruction
{
public:
  PInstr() : Instruction(Name()) {}
  static std::string Name() { Quiet z; return iname(N); }
private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    dto::AnyValue v;
    const bool there = ws.GetValue(sim::format("v%d", N), v);
    Quiet z;
    Job& j = g_w->jobs[job_of(GetName())];
    ++j.ran[N];
    long x = 0;
    if (there && (!v.As(x) || x != 100 + N)) j.bad = sim::format("variable v%d, of a plugin, has the value %ld", N, x);
    v = dto::AnyValue();
    return ExecutionStatus::SUCCESS;
  }
};
template <int N> class PVar : public Variable
{
public:
  PVar() : Variable(Name()) {}
  static std::string Name() { Quiet z; return vname(N); }
private:
  bool GetValueImpl(dto::AnyValue& v) const override { v = dto::AnyValue(dto::SignedInteger32Type, 100 + N); return true; }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
};
class Peek : public Instruction
{
public:
  Peek() : Instruction("SimPeek") {}
private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    dto::AnyValue v;
    const bool there = ws.GetValue("t", v);
    Quiet z;
    Job& j = g_w->jobs[job_of(GetName())];
    ++j.peeked;
    j.seen = there ? sup::dto::ValuesToJSONString(v) : "nothing";
    v = dto::AnyValue();
    return ExecutionStatus::SUCCESS;
  }
};
template <int N> class OwnInstr : public Instruction
{
public:
  OwnInstr() : Instruction(Name()) {}
  static std::string Name() { Quiet z; return sim::format("SimOwn%d", N); }
private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
template <int N> void constructor()
{
  auto i = [] { return static_cast<Instruction*>(new PInstr<N>()); };
  auto v = [] { return static_cast<Variable*>(new PVar<N>()); };
  GlobalInstructionRegistry().RegisterInstruction(PInstr<N>::Name(), i);
  sim::yield_point();
  GlobalVariableRegistry().RegisterVariable(PVar<N>::Name(), v);
}
void* load(int k)
{
  std::lock_guard<std::mutex> lk(*g_loader);
  Plug& pl = g_w->plug[k];
  if (pl.open) { sim::count("plugins_loaded_again"); return &pl; }
  if (sim::fault(sim::K_USER0, 200000)) { Quiet z; g_w->failed[sim::tid() & 63] = 1; sim::trace("plugin %d cannot be loaded", k); return nullptr; }
  { Quiet z; if (!pl.begun) pl.begun = tick(); sim::trace("plugin %d is being loaded", k); sim::count("plugins_loaded"); }
  for (u64 n = sim::steps() % 3; n > 0; --n) sim::yield_point();
  switch (k) { case 0: constructor<0>(); break; case 1: constructor<1>(); break; case 2: constructor<2>(); break; default: constructor<3>(); break; }
  Quiet z;
  pl.done = tick();
  pl.open = true;
  sim::trace("plugin %d is loaded", k);
  return &pl;
}
}  // namespace
// Plugins are simulated: loading one runs the registrations that its static initialisers would do.
extern "C" void* sim_dlopen(const char* name, int mode) asm("dlopen");
extern "C" void* sim_dlopen(const char* name, int mode)
{
  if (name && sim::active() && g_w && std::strncmp(name, "libsimplug", 10) == 0) {
    int k = name[10] - '0';
    if (k >= 0 && k < kPlugs) return load(k);
    return nullptr;
  }
  using F = void* (*)(const char*, int);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "dlopen"));
  return real(name, mode);
}
namespace
{
struct Spec
{
  int id, named, used, types, flags;
  Spec(const Op& o, int n) : id(n), named(static_cast<int>(o.a[0] & 15)), used(static_cast<int>(o.a[1] & 15)), types(static_cast<int>(o.a[2] >= 0 ? o.a[2] % N_TYPES : 0)), flags(static_cast<int>(o.a[3] & ALL_FLAGS)) {}
  int rounds() const { return flags & REPEATED ? 3 : 1; }
  bool in_file() const { return flags & (INCLUDED | FILED); }
  // a directory for the procedure, with one below it for the file that it includes; both have a file t.json
  std::string dir() const { return std::string(sim::scratch_dir()) + sim::format("/p/d%d", id); }
  std::string main_file() const { return dir() + "/m.xml"; }
  std::string body_dir() const { return flags & INCLUDED ? dir() + "/s" : dir(); }
  int in_type_file() const { return flags & OTHER_FILE ? OTHER : ONE; }
  static const char* def(int t)
  {
    switch (t) {
    case OTHER: return R"({"type":"T","attributes":[{"b":{"type":"int64"}},{"c":{"type":"string"}}]})";
    default: return R"({"type":"T","attributes":[{"a":{"type":"int32"}}]})";
    }
  }
  std::string value() const { return (types == FROM_FILE ? in_type_file() : types) == OTHER ? R"({"b":2,"c":"x"})" : types == NESTED ? R"({"t":{"a":3}})" : R"({"a":1})"; }
  bool types_ok() const { return types != DIFFERENT_TWICE && types != UNKNOWN && types != NO_FILE && types != BOTH && types != NEITHER; }
  std::string body() const
  {
    std::string s;
    std::string plugins;
    for (int k = 0; k < kPlugs; ++k) if (named >> k & 1) plugins += sim::format(" <Plugin>libsimplug%d.so</Plugin>\n", k);
    if (!(flags & LATE)) s += plugins;
    auto reg = [&](const char* d) { s += sim::format(" <RegisterType jsontype='%s'/>\n", d); };
    switch (types) {
    case ONE: case OTHER: reg(def(types)); break;
    case NESTED: reg(def(ONE)); reg(R"({"type":"U","attributes":[{"t":{"type":"T"}}]})"); break;
    case SAME_TWICE: reg(def(ONE)); reg(def(ONE)); break;
    case DIFFERENT_TWICE: reg(def(ONE)); reg(def(OTHER)); break;
    case FROM_FILE: case NO_FILE: s += " <RegisterType jsonfile=\"" + (in_file() ? std::string() : body_dir() + "/") + (types == FROM_FILE ? "t" : "none") + ".json\"/>\n"; break;
    case BOTH: s += sim::format(" <RegisterType jsonfile=\"%s/t.json\" jsontype='%s'/>\n", body_dir().c_str(), def(in_type_file())); break;
    case NEITHER: s += " <RegisterType/>\n"; break;
    }
    s += " <Sequence name=\"in\" isRoot=\"true\">\n";
    if (rounds() > 1) s += sim::format("  <Repeat maxCount=\"%d\"><Sequence>\n", rounds());
    for (int k = 0; k < kPlugs; ++k) if (used >> k & 1) s += sim::format("  <PlugInstr%d name=\"j%d\"/>\n", k, id);
    s += sim::format("  <SimPeek name=\"j%d\"/>\n", id);
    if (rounds() > 1) s += "  </Sequence></Repeat>\n";
    s += " </Sequence>\n <Workspace>\n";
    for (int k = 0; k < kPlugs; ++k) if (used >> k & 1) s += sim::format("  <PlugVar%d name=\"v%d\"/>\n", k, k);
    if (types) s += sim::format("  <Local name=\"t\" type='{\"type\":\"%s\"}' value='%s'/>\n", types == NESTED ? "U" : "T", value().c_str());
    return s + " </Workspace>\n" + (flags & LATE ? plugins : std::string());
  }
  static std::string procedure(const std::string& b) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\" tickTimeout=\"0.02\">\n" + b + "</Procedure>\n"; }
  std::string main() const
  {
    if (!(flags & INCLUDED)) return procedure(body());
    // the including procedure has a type of its own of the same name
    return procedure(sim::format(" <RegisterType jsontype='%s'/>\n <IncludeProcedure name=\"inc\" file=\"s/i.xml\" path=\"in\"/>\n <Workspace><Local name=\"t\" type='{\"type\":\"T\"}' value='{\"b\":7,\"c\":\"y\"}'/></Workspace>\n", def(OTHER)));
  }
  static void put(const std::string& name, const std::string& text)
  {
    FILE* f = std::fopen(name.c_str(), "w");
    if (!f) { sim::fail("harness", "cannot write " + name); }
    std::fputs(text.c_str(), f);
    std::fclose(f);
  }
  void write() const
  {
    ::mkdir(dir().c_str(), 0755);
    ::mkdir((dir() + "/s").c_str(), 0755);
    put(body_dir() + "/t.json", def(in_type_file()));
    if (flags & INCLUDED) { put(dir() + "/t.json", def(in_type_file() == ONE ? OTHER : ONE)); put(dir() + "/s/i.xml", procedure(body())); }
    if (in_file()) put(main_file(), main());
  }
  std::string show() const
  {
    std::string s = sim::format("  procedure %d%s: names plugins", id, flags & INCLUDED ? " (in an included file)" : "");
    for (int k = 0; k < kPlugs; ++k) if (named >> k & 1) s += sim::format(" %d", k);
    s += ", uses";
    for (int k = 0; k < kPlugs; ++k) if (used >> k & 1) s += sim::format(" %d", k);
    return s + ", registers " + tyname[types] + "\n";
  }
};
class Quietly : public sup::oac_tree::IJobInfoIO
{
public:
  int state = -1;
  void InitNumberOfInstructions(dto::uint32) override {}
  void InstructionStateUpdated(dto::uint32, InstructionState) override {}
  void VariableUpdated(dto::uint32, const dto::AnyValue&, bool) override {}
  void JobStateUpdated(JobState s) override { Quiet z; state = jcode(s); sim::trace("job state %s", jname(state)); sim::bump(); }
  void PutValue(const dto::AnyValue&, const std::string&) override {}
  bool GetUserValue(dto::uint64, dto::AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(dto::uint64, const std::vector<std::string>&, const dto::AnyValue&) override { return -1; }
  void Interrupt(dto::uint64) override {}
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
  void NextInstructionsUpdated(const std::vector<dto::uint32>&) override {}
};
struct Live { std::unique_ptr<sup::oac_tree::LocalJob> job; std::unique_ptr<Quietly> io; Spec spec; };
void finish(Live& l)
{
  bool done = wait_until([&] { Quiet z; return l.io->state == 4 || l.io->state == 5; }, kEnd);
  {
    Quiet z;
    Job& j = g_w->jobs[l.spec.id];
    std::string s = "\n" + l.spec.show();
    if (!done || l.io->state != 4) sim::fail("plugins:does-not-succeed", sim::format("the job ends as %s", jname(l.io->state)) + s);
    for (int k = 0; k < kPlugs; ++k) if (j.ran[k] != (l.spec.used >> k & 1 ? l.spec.rounds() : 0)) sim::fail("plugins:executions", sim::format("the instruction of plugin %d was executed %d times", k, j.ran[k]) + s);
    if (!j.bad.empty()) sim::fail("plugins:variable", j.bad + s);
    if (j.peeked != l.spec.rounds()) sim::fail("plugins:executions", sim::format("the last instruction was executed %d times", j.peeked) + s);
    std::string want = l.spec.types ? l.spec.value() : "nothing";
    if (j.seen != want) sim::fail("plugins:type", "the variable of the registered type has the value " + j.seen + " instead of " + want + s);
    sim::count("jobs_executed");
  }
  l.job.reset();
  Quiet z;
  l.io.reset();
}
void make(const Spec& s, std::vector<Live>& kept, int who)
{
  std::string text, file;
  Live l{nullptr, nullptr, s};
  u64 t0;
  bool known[kPlugs], never[kPlugs];
  {
    Quiet z;
    text = s.main(); file = s.main_file();
    l.io.reset(new Quietly);
    g_w->failed[sim::tid() & 63] = 0;
    sim::trace("client %d creates procedure %d", who, s.id);
    t0 = tick();
    for (int k = 0; k < kPlugs; ++k) known[k] = g_w->plug[k].done != 0;
  }
  bool thrown = false, odd = false;
  std::string what;
  try {
    auto proc = s.in_file() ? sup::oac_tree::ParseProcedureFile(file) : sup::oac_tree::ParseProcedureString(text);
    l.job.reset(new sup::oac_tree::LocalJob(std::move(proc), *l.io));
  }
  catch (const sup::oac_tree::MessageException& e) { Quiet z; thrown = true; what = e.what(); }
  catch (const std::exception& e) { Quiet z; thrown = odd = true; what = e.what(); }
  {
    Quiet z;
    (void)t0;
    bool must_fail = g_w->failed[sim::tid() & 63] != 0, must_work = !must_fail && s.types_ok();
    if (!s.types_ok()) must_fail = true;
    for (int k = 0; k < kPlugs; ++k) {
      never[k] = g_w->plug[k].begun == 0;
      if (!(s.used >> k & 1) || (s.named >> k & 1)) continue;
      if (!known[k]) must_work = false;
      if (never[k]) must_fail = true;
    }
    sim::trace("procedure %d: %s", s.id, thrown ? what.c_str() : "created");
    if (odd) sim::fail("plugins:exception", "creating a procedure ends with an unexpected exception: " + what + "\n" + s.show());
    if (thrown && must_work) sim::fail("plugins:refused", "a procedure that is right is refused: " + what + "\n" + s.show());
    if (!thrown && must_fail) sim::fail("plugins:accepted", "a procedure is accepted although a plugin could not be loaded, or a type is unknown or ambiguous\n" + s.show());
    sim::count(thrown ? "procedures_refused" : "procedures_created");
    text = std::string(); file = std::string(); what = std::string();
    if (thrown) { l.io.reset(); return; }
  }
  l.job->Start();
  if (s.flags & KEEP) { Quiet z; kept.push_back(std::move(l)); }
  else finish(l);
}
template <class R> void check_names(const R& names, bool instr, const bool* must, const bool* own_must)
{
  std::set<std::string> got;
  for (auto& n : names) if (!got.insert(n).second) sim::fail("plugins:names", "a registered type is listed twice: " + n);
  for (auto& n : instr ? g_builtin_i : g_builtin_v) if (!got.count(n)) sim::fail("plugins:names", "a built-in type is not listed: " + n);
  for (int k = 0; k < kPlugs; ++k) {
    bool there = got.count(instr ? iname(k) : vname(k)) != 0;
    if (must[k] && !there) sim::fail("plugins:names", sim::format("the types of plugin %d, which has been loaded, are not listed", k));
    if (!g_w->plug[k].begun && there) sim::fail("plugins:names", sim::format("the types of plugin %d, which has not been loaded, are listed", k));
  }
  if (instr) for (int k = 0; k < kOwn; ++k) {
    bool there = got.count(sim::format("Own%d", k)) != 0;
    if (own_must[k] && !there) sim::fail("plugins:names", sim::format("the type Own%d, which has been registered, is not listed", k));
    if (!g_w->own_begun[k] && there) sim::fail("plugins:names", sim::format("the type Own%d, which has not been registered, is listed", k));
  }
}
void run32(const Prog& p)
{
  sim::set_step_cap(3000000);
  sim::set_time_cap(80000000000000ull);
  std::vector<std::vector<Spec>> specs;
  {
    Quiet z;
    g_w = new World;
    g_loader = new std::mutex;
    auto d = std::string(sim::scratch_dir()) + "/p";
    ::mkdir(d.c_str(), 0755);
    int id = 0;
    for (auto& t : p.th) { specs.emplace_back(); for (auto& o : t) { specs.back().emplace_back(o, ++id); if (o.code % N_OPS == MAKE) specs.back().back().write(); } }
  }
  {
    hx::Threads t;
    for (size_t k = 0; k < p.th.size(); ++k) t.Start([&, k] {
      std::vector<Live> kept;
      for (size_t i = 0; i < p.th[k].size(); ++i) {
        const Op& o = p.th[k][i];
        bool must[kPlugs], own_must[kOwn];
        { Quiet z; for (int n = 0; n < kPlugs; ++n) must[n] = g_w->plug[n].done != 0; for (int n = 0; n < kOwn; ++n) own_must[n] = g_w->own_done[n] != 0; }
        switch (o.code % N_OPS) {
        case MAKE: make(specs[k][i], kept, static_cast<int>(k)); break;
        case REGISTER: {
          const int n = static_cast<int>(o.a[0] & 3) % kOwn;
          std::string name;
          { Quiet z; name = sim::format("Own%d", n); ++g_w->tries[n]; if (!g_w->own_begun[n]) g_w->own_begun[n] = tick(); sim::trace("client %zu registers %s", k, name.c_str()); }
          bool ok = false;
          const int c = static_cast<int>(o.a[1] & 1);
          try {
            if (c) ok = GlobalInstructionRegistry().RegisterInstruction(name, [] { return static_cast<Instruction*>(new OwnInstr<1>()); });
            else ok = GlobalInstructionRegistry().RegisterInstruction(name, [] { return static_cast<Instruction*>(new OwnInstr<0>()); });
          }
          catch (const sup::oac_tree::MessageException&) {}
          Quiet z;
          if (ok && own_must[n]) sim::fail("plugins:registered-twice", "the type " + name + " has been registered before, and is registered again");
          if (ok) { ++g_w->taken[n]; g_w->which[n] = c; g_w->own_done[n] = tick(); }
          sim::count(ok ? "types_registered" : "registrations_refused");
          name = std::string();
          break; }
        case LIST: {
          auto a = GlobalInstructionRegistry().RegisteredInstructionNames();
          auto b = GlobalVariableRegistry().RegisteredVariableNames();
          Quiet z;
          check_names(a, true, must, own_must);
          check_names(b, false, must, own_must);
          sim::count("lists");
          a.clear(); b.clear(); a.shrink_to_fit(); b.shrink_to_fit();
          break; }
        case CREATE: {
          const int n = static_cast<int>(o.a[0] & 3);
          std::string name, vn;
          { Quiet z; name = iname(n); vn = vname(n); }
          for (int what = 0; what < 2; ++what) {
            bool there = what ? GlobalVariableRegistry().IsRegisteredVariableName(vn) : GlobalInstructionRegistry().IsRegisteredInstructionName(name);
            bool made = false, right = true;
            try {
              if (what) { auto v = GlobalVariableRegistry().Create(vn); made = true; right = v && v->GetType() == vn; }
              else { auto v = GlobalInstructionRegistry().Create(name); made = true; right = v && v->GetType() == name; }
            }
            catch (const sup::oac_tree::MessageException&) {}
            Quiet z;
            bool never = g_w->plug[n].begun == 0;
            if (!right) sim::fail("plugins:wrong-type", "another type than the one asked for is created");
            if (must[n] && (!there || !made)) sim::fail("plugins:not-registered", sim::format("plugin %d has been loaded, but its types are not known", n));
            if (never && (there || made)) sim::fail("plugins:registered", sim::format("plugin %d has not been loaded, but its types are known", n));
            if (there && !made) sim::fail("plugins:not-created", sim::format("a registered type of plugin %d cannot be created", n));
          }
          if (n < kOwn && own_must[n]) {
            { Quiet z; name = sim::format("Own%d", n); }
            bool right = false;
            try { auto v = GlobalInstructionRegistry().Create(name); Quiet z; right = v && v->GetType() == sim::format("SimOwn%d", g_w->which[n]); }
            catch (const sup::oac_tree::MessageException&) {}
            Quiet z;
            if (!right) sim::fail("plugins:own-type", "an instruction of the registered type " + name + " cannot be created, or is another one than was registered");
          }
          Quiet z;
          name = std::string(); vn = std::string();
          break; }
        }
      }
      for (auto& l : kept) finish(l);
      Quiet z;
      kept.clear(); kept.shrink_to_fit();
    });
    t.Join();
  }
  sim::faults_off();
  Quiet z;
  for (int n = 0; n < kOwn; ++n) if (g_w->tries[n] && g_w->taken[n] != 1) sim::fail("plugins:registered-twice", sim::format("%d of %d registrations of the same type succeed", g_w->taken[n], g_w->tries[n]));
  int overlap = 0;
  for (auto& x : g_w->plug) if (x.done) ++overlap;
  if (overlap && p.th.size() > 1) sim::nontrivial();
  if (sim::live_threads()) sim::fail("plugins:threads-left", "threads are left after all jobs have been destroyed");
  specs.clear();
  delete g_w;
  g_w = nullptr;
}
void fix32(Prog& p)
{
  Quiet z;
  if (p.th.empty()) p.th.resize(1);
  if (p.th.size() > 4) p.th.resize(4);
  for (auto& t : p.th) if (t.size() > 6) t.resize(6);
  p.p["f.thr"] = 0;
}
void gen32(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  p.th.resize(static_cast<size_t>(r.range(2, 4)));
  const int mask = r.chance(1, 2) ? 15 : r.range(1, 15);
  for (auto& t : p.th) {
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      Op o;
      static const int w[] = {MAKE, MAKE, MAKE, REGISTER, LIST, CREATE};
      o.code = w[r.below(6)];
      if (o.code == MAKE) {
        o.a[0] = r.range(0, 15) & mask;
        o.a[1] = r.chance(1, 4) ? r.range(0, 15) & mask : o.a[0];
        o.a[2] = r.chance(1, 2) ? r.range(0, NESTED) : r.range(0, N_TYPES - 1);
        o.a[3] = r.range(0, ALL_FLAGS);
        if (r.chance(1, 3)) o.a[2] = FROM_FILE;
      }
      else { o.a[0] = r.range(0, 3); o.a[1] = r.range(0, 1); }
      t.push_back(o);
    }
  }
  fix32(p);
}
void prepare32()
{
  rig::prepare();
  sim::name_kind(sim::K_USER0, "plugin-load-fails");
  GlobalInstructionRegistry().RegisterInstruction("SimPeek", [] { return static_cast<Instruction*>(new Peek()); });
  for (auto& n : GlobalInstructionRegistry().RegisteredInstructionNames()) g_builtin_i.insert(n);
  for (auto& n : GlobalVariableRegistry().RegisteredVariableNames()) g_builtin_v.insert(n);
}
sim::Reg r32({"C32",
  "two to four clients at once create procedures, from text and from files that include others, that name plugins and register types of the same name differently, run them, register instruction types, list the registries and create instructions and variables; loading a plugin sometimes fails",
  "a plugin was loaded while other clients were at work",
  gen32, run32,
  {"procedure parser (plugins, type registrations), LoadPlugin, InstructionRegistry, VariableRegistry, ProcedurePreamble, Procedure::SetupPreamble, Workspace type registry, ProcedureStore, LocalJob"},
  {"dynamic loader and plugins (simulated: dlopen runs a plugin's registrations, or fails)", "sup-dto/log/xml (stand-ins)", "scheduler, clock, heap (simulated)"},
  {}, fix32, prepare32});
}  // namespace
