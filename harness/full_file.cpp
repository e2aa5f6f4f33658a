// C23: variables kept in files.  C24: creating directories.
#include "rig.h"

#include <sup/oac-tree/generic_utils.h>

#include <sup/dto/anyvalue_helper.h>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace rig;
using dto::AnyValue;

namespace
{
// ---- C23 ----------------------------------------------------------------------------------------
enum { GET, GETFIELD, SET, SETFIELD, RESETV, AVAIL, EXTWRITE, EXTDELETE, EXTTEAR, N_OPS };
const char* const oname[] = {"get", "get field", "set", "set field", "reset", "is available", "another program writes", "another program deletes", "another program damages"};
constexpr long MISSING = -1, TORN = -2;     // contents that cannot be read; anything else is {a, b} as a * 1000 + b
struct Rec { Interval t; int var, op, field; long arg; int ok; long got; bool fault; int thr; std::vector<long> notes; u64 at; };
long pack(long a, long b) { return a * 1000 + b; }
std::string str(long v) { return v == MISSING ? "missing" : v == TORN ? "damaged" : sim::format("{%ld,%ld}", v / 1000, v % 1000); }
AnyValue make(long v)
{
  AnyValue r = {{{"a", AnyValue(static_cast<dto::int32>(v / 1000))}, {"b", AnyValue(static_cast<dto::int32>(v % 1000))}}};
  return r;
}
long val(const AnyValue& v)
{
  if (!v.HasField("a") || !v.HasField("b")) return -9;
  long a = -1, b = -1;
  v["a"].As(a); v["b"].As(b);
  return pack(a, b);
}
// The possible contents of the file
struct FModel
{
  std::set<long> can;
  bool apply(const Rec& r)
  {
    std::set<long> n;
    for (long c : can) {
      const bool readable = c >= 0;
      switch (r.op) {
      case GET: if (r.ok ? readable && c == r.got : !readable || r.fault) n.insert(c); break;
      case GETFIELD: if (r.ok ? readable && (r.field ? c % 1000 : c / 1000) == r.got : !readable || r.fault) n.insert(c); break;
      case AVAIL: if (r.ok ? readable : !readable || r.fault) n.insert(c); break;
      case SET: case SETFIELD: {
        long v = r.op == SET ? r.arg : r.field ? pack(c / 1000, r.arg) : pack(r.arg, c % 1000);
        if (r.op == SETFIELD && !readable) { if (!r.ok && r.notes.empty()) n.insert(c); break; }
        if (r.ok) { if (r.notes.size() == 1 && r.notes[0] == v) n.insert(v); break; }
        if (!r.fault || !r.notes.empty()) break;
        n.insert(c); n.insert(v); n.insert(TORN);
        break; }
      case RESETV: if (r.notes.size() == 1 && (r.notes[0] == (readable ? c : MISSING) || (r.fault && r.notes[0] == MISSING))) n.insert(c); break;
      case EXTWRITE: n.insert(r.arg); break;
      case EXTDELETE: n.insert(MISSING); break;
      default: n.insert(TORN); break;
      }
    }
    can = n;
    return !can.empty();
  }
  u64 hash() const { u64 h = 7; for (long c : can) h = mixh(h, static_cast<u64>(c + 5)); return h; }
};
void gen23(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(2, 3)) { static const long q[] = {3000, 20000, 100000, 300000}; p.p["f.io"] = q[r.below(4)]; if (r.chance(1, 2)) p.p["f.short"] = q[r.below(4)]; }
  p.p["exists"] = r.range(0, 1);
  int nt = r.range(1, 4);
  p.th.resize(static_cast<size_t>(nt));
  int n = r.range(2, 12);
  bool ext = r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, ext ? 13 : 10);
    o.code = d < 2 ? GET : d < 4 ? GETFIELD : d < 7 ? SET : d < 9 ? SETFIELD : d < 10 ? RESETV : d < 11 ? AVAIL : d < 12 ? EXTWRITE : d < 13 ? EXTDELETE : EXTTEAR;
    o.a[0] = r.range(0, 9) < 7 ? 0 : 1;
    o.a[1] = r.range(0, 1);
    o.a[2] = r.range(1, 400);
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
}
std::string path_of(int v) { return std::string(sim::scratch_dir()) + (v ? "/g.json" : "/f.json"); }
// What another program does happens at once: it writes a new file and puts it in place.
void place(int v, const std::string& text)
{
  std::string t = path_of(v) + ".new";
  int fd = ::open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ::write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size())) sim::fail("harness:file", "cannot write " + t);
  ::close(fd);
  if (::rename(t.c_str(), path_of(v).c_str())) sim::fail("harness:file", "cannot rename " + t);
}
struct Note { long v; int tid; int var; };
void run23(const Prog& p)
{
  sim::set_step_cap(1000000);
  Workspace* ws;
  std::vector<Note> notes;
  std::vector<Rec> h;
  int setting[2] = {0, 0};      // field writes in progress: another program cannot take part in those
  struct Guard { Guard() { Quiet z; for (int v = 0; v < 2; ++v) { ::unlink(path_of(v).c_str()); } } ~Guard() { Quiet z; for (int v = 0; v < 2; ++v) { ::unlink(path_of(v).c_str()); ::unlink((path_of(v) + ".new").c_str()); } } } guard;
  {
    Quiet z;
    ws = new Workspace(std::string(sim::scratch_dir()) + "/proc.xml");
    for (int v = 0; v < 2; ++v) {
      auto u = sup::oac_tree::GlobalVariableRegistry().Create("File");
      u->SetName(v ? "g" : "f");
      u->AddAttribute("file", v ? path_of(v) : "f.json");     // the second one by its full path
      if (v) u->AddAttribute("pretty", "true");
      ws->AddVariable(v ? "g" : "f", std::move(u));
      if (p.get("exists")) place(v, dto::AnyValueToJSONString(make(pack(1 + v, 5))));
    }
    ws->RegisterGenericCallback([&notes](const std::string& name, const AnyValue& v, bool connected) { Quiet q; notes.push_back({connected ? val(v) : MISSING, sim::tid(), name == "g" ? 1 : 0}); });
  }
  u64 f0;
  { Quiet z; f0 = sim::faults_seen(sim::K_IOFAIL); }
  ws->Setup();
  {
    Quiet z;
    bool fault = sim::faults_seen(sim::K_IOFAIL) != f0;
    if (notes.size() != 2) sim::fail("file:setup", sim::format("setting up two variables announces %zu values", notes.size()));
    for (auto& n : notes) {
      long want = p.get("exists") ? pack(1 + n.var, 5) : MISSING;
      if (n.v != want && !(fault && n.v == MISSING)) sim::fail("file:setup", "setting up a variable announces " + str(n.v) + " instead of " + str(want));
    }
  }
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] {
        for (auto& o : p.th[t]) {
          Rec r{};
          std::string nm;
          AnyValue v;
          size_t n0 = 0;
          u64 fc;
          while (o.code % N_OPS >= EXTWRITE) { { Quiet z; if (!setting[o.a[0] & 1]) break; } sim::sleep_ns(20000); }
          {
            Quiet z;
            r.op = o.code % N_OPS; r.var = static_cast<int>(o.a[0] & 1); r.field = static_cast<int>(o.a[1] & 1); r.arg = r.op == SETFIELD ? o.a[2] % 1000 : pack(o.a[2] % 1000, o.a[2] % 7); r.thr = static_cast<int>(t);
            nm = r.var ? "g" : "f";
            if (r.op == GETFIELD || r.op == SETFIELD) nm += r.field ? ".b" : ".a";
            if (r.op == SET) v = make(r.arg);
            if (r.op == SETFIELD) v = AnyValue(static_cast<dto::int32>(r.arg));
            n0 = notes.size();
            fc = sim::faults_seen(sim::K_IOFAIL) + sim::faults_seen(sim::K_IOSHORT);
            r.t.inv = tick();
            if (r.op == SETFIELD) ++setting[r.var];
            sim::trace("%s %s %ld", oname[r.op], nm.c_str(), r.arg);
          }
          switch (r.op) {
          case GET: case GETFIELD: { AnyValue g; r.ok = ws->GetValue(nm, g); Quiet z; if (r.ok) { if (r.op == GET) r.got = val(g); else g.As(r.got); } g = AnyValue(); break; }
          case SET: case SETFIELD: r.ok = ws->SetValue(nm, v); break;
          case RESETV: ws->ResetVariable(nm); r.ok = 1; break;
          case AVAIL: r.ok = ws->GetVariable(nm)->IsAvailable(); break;
          case EXTWRITE: { Quiet z; place(r.var, dto::AnyValueToJSONString(make(r.arg))); r.ok = 1; break; }
          case EXTDELETE: { Quiet z; ::unlink(path_of(r.var).c_str()); r.ok = 1; break; }
          default: { Quiet z; std::string s = dto::AnyValueToJSONString(make(r.arg)); place(r.var, s.substr(0, s.size() / 2)); r.ok = 1; break; }
          }
          Quiet z;
          r.t.ret = tick();
          if (r.op == SETFIELD) --setting[r.var];
          r.fault = sim::faults_seen(sim::K_IOFAIL) + sim::faults_seen(sim::K_IOSHORT) != fc;
          for (size_t i = n0; i < notes.size(); ++i) if (notes[i].tid == sim::tid()) r.notes.push_back(notes[i].v);
          for (size_t i = 0; i < h.size(); ++i) if (h[i].var == r.var && h[i].t.ret > r.t.inv && h[i].thr != r.thr) sim::nontrivial();
          sim::trace("  -> %d %ld", r.ok, r.got);
          sim::ev(mixh(static_cast<u64>(r.op * 2 + r.ok), static_cast<u64>(r.got)));
          if (r.fault) sim::nontrivial();
          if (!r.ok) sim::count("operations_failed");
          h.push_back(r);
          v = AnyValue(); nm = std::string();
        }
      });
    th.Join();
  }
  sim::faults_off();
  // what is in the files at the end is what reading gives
  for (int k = 0; k < 2; ++k) {
    AnyValue g;
    Rec r{};
    { Quiet z; r.t.inv = tick(); r.op = GET; r.var = k; r.thr = 99; }
    r.ok = ws->GetValue(k ? "g" : "f", g);
    Quiet z;
    if (r.ok) r.got = val(g);
    r.t.ret = tick();
    g = AnyValue();
    h.push_back(r);
    // and it can be written again
    Rec s{};
    s.t.inv = tick(); s.op = SET; s.var = k; s.thr = 99; s.arg = pack(77, 1);
    size_t n0 = notes.size();
    sim::quiet(-1);
    s.ok = ws->SetValue(k ? "g" : "f", make(pack(77, 1)));
    sim::quiet(1);
    for (size_t i = n0; i < notes.size(); ++i) s.notes.push_back(notes[i].v);
    s.t.ret = tick();
    h.push_back(s);
  }
  {
    Quiet z;
    for (int k = 0; k < 2; ++k) {
      std::vector<Rec> m;
      for (auto& r : h) if (r.var == k) m.push_back(r);
      std::sort(m.begin(), m.end(), [](const Rec& a, const Rec& b) { return a.t.inv < b.t.inv; });
      FModel f;
      f.can = {p.get("exists") ? pack(1 + k, 5) : MISSING};
      if (!linearizable(m, f)) {
        std::string s;
        for (auto& r : m) {
          s += sim::format("  client %d: %s%s %s", r.thr, oname[r.op], r.op == GETFIELD || r.op == SETFIELD ? (r.field ? " b" : " a") : "", r.op == SET || r.op == EXTWRITE ? str(r.arg).c_str() : r.op == SETFIELD ? sim::format("%ld", r.arg).c_str() : "");
          s += sim::format(" -> %s", r.ok ? "ok" : "fails");
          if (r.ok && r.op == GET) s += " " + str(r.got);
          if (r.ok && r.op == GETFIELD) s += sim::format(" %ld", r.got);
          for (long n : r.notes) s += ", announced " + str(n);
          if (r.fault) s += " (I/O error)";
          s += sim::format("   [%llu, %llu]\n", static_cast<unsigned long long>(r.t.inv), static_cast<unsigned long long>(r.t.ret));
        }
        sim::fail("file:history", sim::format("no order of the operations on the variable in file %s explains their results:\n", k ? "g" : "f") + s);
      }
    }
  }
  ws->Teardown();
  Quiet z;
  delete ws;
}
sim::Reg r23({"C23",
  "a workspace with two variables kept in files; one to four clients read, write, reset and query them as wholes and by field while another program replaces, deletes and damages the files, and reads and writes of files fail or are cut short; the history with its announcements is checked against a model of the possible contents",
  "operations overlapped, or an I/O error occurred during one",
  gen23, run23,
  {"Workspace, Variable, FileVariable, path functions, attribute handling"},
  {"sup-dto (stand-in; reads and writes real files)", "clients and the other program (scripted)", "file system errors (injected)", "scheduler, heap (simulated)"},
  {}, [](Prog& p) { Quiet z; if (p.th.empty()) p.th.resize(1); }, [] { rig::prepare(); (void)sup::oac_tree::GlobalVariableRegistry().Create("File"); }});

// ---- C24 ----------------------------------------------------------------------------------------
enum { MK, RMDIR, MKFILE, N_DOPS };
void gen24(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  if (r.chance(1, 2)) p.p["f.mkdir"] = r.chance(1, 2) ? 20000 : 200000;
  int nt = r.range(1, 4);
  p.th.resize(static_cast<size_t>(nt));
  int n = r.range(1, 8);
  for (int i = 0; i < n; ++i) {
    Op o;
    int d = r.range(0, 9);
    o.code = d < 8 ? MK : d < 9 ? MKFILE : RMDIR;
    o.a[0] = r.range(0, 7);      // which names: bits choose a or b at each level
    o.a[1] = r.range(1, 3);      // depth
    o.a[2] = r.range(0, 5);      // 0 trailing slash, 1 double slash
    p.th[r.below(static_cast<sim::u32>(nt))].push_back(o);
  }
  p.p["remove"] = r.chance(1, 3);
}
std::string rel(const Op& o, int depth)
{
  std::string s;
  for (int k = 0; k < depth; ++k) s += (o.a[0] >> k) & 1 ? "/b" : "/a";
  return s;
}
void wipe(const std::string& d, int depth)
{
  if (depth < 3) for (const char* n : {"/a", "/b"}) wipe(d + n, depth + 1);
  if (depth) if (::rmdir(d.c_str())) ::unlink(d.c_str());
}
void run24(const Prog& p)
{
  sim::set_step_cap(200000);
  std::string base;
  { Quiet z; base = std::string(sim::scratch_dir()) + "/dirs"; wipe(base, 0); ::mkdir(base.c_str(), 0755); }
  bool removing = false, files = false;
  { Quiet z; for (auto& t : p.th) for (auto& o : t) { if (o.code % N_DOPS == RMDIR && p.get("remove")) removing = true; if (o.code % N_DOPS == MKFILE) files = true; } }
  {
    Threads th;
    for (size_t t = 0; t < p.th.size(); ++t)
      th.Start([&, t] {
        for (auto& o : p.th[t]) {
          int depth = static_cast<int>(o.a[1] < 1 ? 1 : o.a[1] > 3 ? 3 : o.a[1]);
          std::string path, name;
          u64 fc;
          bool was;
          { Quiet z; path = base + rel(o, depth); name = path; if (o.a[2] == 0) name += "/"; if (o.a[2] == 1) name.insert(base.size(), "/"); fc = sim::faults_seen(sim::K_IOFAIL); struct stat st; was = ::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
          if (o.code % N_DOPS == RMDIR) { if (p.get("remove")) ::rmdir(path.c_str()); continue; }
          if (o.code % N_DOPS == MKFILE) { Quiet z; int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) ::close(fd); continue; }
          bool ok = sup::oac_tree::utils::CreateDir(name, 0755);
          {
            Quiet z;
            struct stat st;
            bool is = ::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
            bool fault = sim::faults_seen(sim::K_IOFAIL) != fc;
            sim::trace("CreateDir(%s) -> %d", name.c_str() + base.size(), ok);
            sim::ev(static_cast<u64>(ok) + 3);
            if (ok && !is && !removing) sim::fail("dir:missing", sim::format("creating directory '%s' reports success, but there is no such directory", name.c_str() + base.size()));
            if (!ok && !fault && !removing && !files) sim::fail("dir:refused", sim::format("creating directory '%s' fails although nothing is in its way", name.c_str() + base.size()));
            if (!ok && is && !fault && !removing) sim::fail("dir:refused", sim::format("creating directory '%s' fails although it exists", name.c_str() + base.size()));
            if (ok && !was) sim::nontrivial();
            sim::count(ok ? "created" : "refused");
          }
          Quiet z;
          path = name = std::string();
        }
      });
    th.Join();
  }
  Quiet z;
  wipe(base, 0);
  ::rmdir(base.c_str());
  base = std::string();
}
sim::Reg r24({"C24",
  "one to four threads create nested directories with common parents while others create files or remove directories in their place and the file system reports errors; results are compared with what is there",
  "a directory was created",
  gen24, run24,
  {"utils::CreateDir"},
  {"file system errors (injected)", "scheduler (simulated)"},
  {}, [](Prog& p) { Quiet z; if (p.th.empty()) p.th.resize(1); }, rig::prepare});
}  // namespace
