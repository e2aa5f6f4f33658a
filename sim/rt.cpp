// Deterministic simulation runtime.
//
// Exactly one simulated thread runs at any time; every synchronisation operation, every clock read
// or sleep, every memory access of instrumented code and every injected fault is a point at which
// this file decides what happens next, from one seeded generator (or from a recorded trace).
// Built without instrumentation. See /verif/DESIGN.md.
#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>
#include <typeinfo>

// The interposed memset/memcpy are scheduling points; the runtime itself must not use them.
static inline void rt_set(void* d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
static inline void rt_cpy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

extern "C" char __data_start, _end;
extern "C" char __libc_single_threaded;

namespace sim
{
const char* kind_name[K_COUNT] = {"context_switch", "thread_stall", "spurious_wakeup", "notify_choice",
  "cas_weak_failure", "thread_creation_failure", "allocation_failure", "wall_clock_jump",
  "io_failure", "io_short_write", "user0", "user1", "user2", "user3", "user4", "user5", "user6",
  "user7", "user8", "user9"};
void name_kind(int k, const char* n) { kind_name[k] = n; }

namespace
{
constexpr int MAXT = 96;
constexpr u64 INF = ~0ull;
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SZ = 224ull << 20;
constexpr size_t STACK_SZ = 256ull << 10;
constexpr uintptr_t STACKS = ARENA + ARENA_SZ;
constexpr size_t REGION_SZ = ARENA_SZ + MAXT * STACK_SZ;

long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

enum St : u8 { RUN, B_MUTEX, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_EVENT, B_ONCE, B_RW, FIN };
const char* st_name[] = {"runnable", "waiting for a mutex", "waiting on a condition variable",
  "waiting on a future/atomic", "joining a thread", "sleeping", "waiting for an event", "waiting for one-time initialisation",
  "waiting for a shared mutex", "finished"};

struct VC
{
  u32 c[MAXT];
};
inline void vc_join(VC& a, const VC& b)
{
  for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

constexpr int MAXDEPTH = 1024;
struct Thr
{
  int id;
  St st;
  bool detached, joined, timed_out, signaled, starved;
  int go;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  u64 deadline;
  u64 stall_until;
  uintptr_t wait_obj;
  u64 ev;
  u64 kcnt[K_COUNT];
  int quiet;
  int may_fail;
  i64 prio;
  u64 consec;
  u32 cct;
  int depth;
  u32 stack[MAXDEPTH];
  VC vc;
};

struct Slot { u32 clk; u8 tid, mask, fl, used; u32 cct, pc; };
struct Cell { Slot s[4]; };
struct Cct { u32 parent; u32 pc; };

// ---- state -----------------------------------------------------------------------------------------
bool g_active = false;
bool g_tracing = false;
bool g_race_on = true;
bool g_faults_on = true;
Mode g_mode = M_SEARCH;
Rng g_rng;
Thr* g_thr = nullptr;     // mmap'd [MAXT]
int g_nthr = 0;
Thr* cur = nullptr;
u64 g_now = 1000000000ull;  // virtual monotonic time
i64 g_wall_off = 1700000000ll * 1000000000ll;
u64 g_steps = 0, g_minor = 0;
u64 g_step_cap = 400000, g_time_cap = INF;
u64 g_minor_cap = 60000000ull;
i64 g_countdown = 0;
Result* g_res = nullptr;
const Prog* g_prog = nullptr;
const Harness* g_h = nullptr;
u64 g_hist = 0, g_inter = 0;
void (*g_dl_hook)() = nullptr;
// strategy
int st_kind = 0;          // 0 random walk, 1 pct, 2 round-robin-ish (stay), 
u32 st_pmaj = 0, st_pmin = 0;  // ppm
int st_ncp = 0;
u64 st_cp[16];
i64 st_low = -1;
u32 pr_stall = 0, pr_spur = 0, pr_cas = 0, pr_thr = 0, pr_alloc = 0, pr_clock = 0;
// overrides for replay
struct OvEnt { u64 idx, val; };
OvEnt* g_ov[K_COUNT][MAXT];
u32 g_ovn[K_COUNT][MAXT], g_ovp[K_COUNT][MAXT];
// shadow
Cell* g_cell = nullptr;     // in order of first use; those of freed memory are used again
u32* g_cellidx = nullptr;   // by word
u32 g_ncell = 1, g_cellfree = 0;
u32* g_syncidx = nullptr;
u8* g_astate = nullptr;
size_t g_words_region = REGION_SZ >> 3, g_words_exe = 0;
VC* g_sync = nullptr;
u32 g_nsync = 1;
constexpr u32 MAXSYNC = 1u << 18;
VC g_fence;
Cct* g_cct = nullptr;
u32* g_ccth = nullptr;
u32 g_ncct = 1, g_cctmask = 2047;
constexpr u32 CCTN = 1u << 20;
// arena
bool g_driver_heap = false;
uintptr_t g_brk = ARENA + 4096;
// known findings
std::vector<std::string>* g_known = nullptr;
char g_scratch[256] = "/tmp";

// ---- mutex/cond side tables --------------------------------------------------------------------------
struct Mtx { uintptr_t addr; int owner; u32 count; int kind; u32 nwait; VC vc; };
struct Cnd { uintptr_t addr; int nw; int w[MAXT]; };
struct Rw { uintptr_t addr; int writer; int readers; u32 nwait; VC vc; VC rvc; };
constexpr u32 MAXOBJ = 1u << 16;
Mtx* g_mtx; u32 g_nmtx = 1;
Cnd* g_cnd; u32 g_ncnd = 1;
Rw* g_rw; u32 g_nrw = 1;

void* mm(size_t n, uintptr_t fixed = 0)
{
  long r = raw_syscall6(SYS_mmap, static_cast<long>(fixed), static_cast<long>(n), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (fixed ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (r < 0 && r > -4096) { const char m[] = "sim: mmap failed\n"; raw_syscall6(SYS_write, 2, reinterpret_cast<long>(m), sizeof m - 1, 0, 0, 0); _exit(99); }
  return reinterpret_cast<void*>(r);
}

inline size_t widx(uintptr_t a)  // word index, or -1
{
  size_t d = a - ARENA;
  if (d < REGION_SZ) return d >> 3;
  size_t e = a - reinterpret_cast<uintptr_t>(&__data_start);
  if (e < (g_words_exe << 3)) return g_words_region + (e >> 3);
  return static_cast<size_t>(-1);
}

void futex_wait_raw(int* a, int v) { raw_syscall6(SYS_futex, reinterpret_cast<long>(a), FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void futex_wake_raw(int* a, int n) { raw_syscall6(SYS_futex, reinterpret_cast<long>(a), FUTEX_WAKE_PRIVATE, n, 0, 0, 0); }

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ---- symbolisation (only when something is reported) ---------------------------------------------------
struct Sym { u64 a, n; const char* s; };
std::vector<Sym>* g_syms;
void load_syms()
{
  if (g_syms) return;
  g_syms = new std::vector<Sym>;
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st) != 0) return;
  char* b = static_cast<char*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
  close(fd);
  if (b == MAP_FAILED) return;
  auto eh = reinterpret_cast<Elf64_Ehdr*>(b);
  auto sh = reinterpret_cast<Elf64_Shdr*>(b + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) continue;
    auto sy = reinterpret_cast<Elf64_Sym*>(b + sh[i].sh_offset);
    const char* str = b + sh[sh[i].sh_link].sh_offset;
    for (u64 k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
      if (ELF64_ST_TYPE(sy[k].st_info) == STT_FUNC && sy[k].st_size)
        g_syms->push_back({sy[k].st_value, sy[k].st_size, str + sy[k].st_name});
  }
}
std::string sym(u64 pc)
{
  load_syms();
  for (auto& s : *g_syms)
    if (pc >= s.a && pc < s.a + s.n) {
      int st = 0;
      char* d = abi::__cxa_demangle(s.s, nullptr, nullptr, &st);
      std::string r = st == 0 && d ? d : s.s;
      if (r.size() > 160) r = r.substr(0, 160);
      return r;
    }
  return "?";
}
bool is_std(const std::string& n)
{
  static const char* pre[] = {"std::", "__gnu_cxx::", "void std::", "bool std::", "decltype", "operator "};
  for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) return true;
  // return type followed by std::
  auto sp = n.find(' ');
  if (sp != std::string::npos && n.find("sup::") > sp && (n.compare(sp + 1, 5, "std::") == 0)) return true;
  if (n == "?") return true;
  return n.find("sup::") == std::string::npos && n.find("std::") != std::string::npos;
}
std::vector<std::string> frames(u32 pc, u32 cct, int maxn = 12)
{
  std::vector<std::string> r;
  if (pc) r.push_back(sym(pc));
  while (cct && static_cast<int>(r.size()) < maxn) { r.push_back(sym(g_cct[cct].pc)); cct = g_cct[cct].parent; }
  return r;
}
std::string strip(std::string n)
{
  // function name without the argument list
  int depth = 0;
  for (size_t i = 0; i < n.size(); ++i) {
    if (n[i] == '<') ++depth; else if (n[i] == '>') --depth;
    else if (n[i] == '(' && depth == 0 && n.compare(i, 11, "(anonymous ") != 0) { n = n.substr(0, i); break; }
    else if (n[i] == '(' && n.compare(i, 11, "(anonymous ") == 0) { i = n.find(')', i); if (i == std::string::npos) break; }
  }
  return n;
}
std::string site(u32 pc, u32 cct)
{
  auto f = frames(pc, cct, 24);
  for (auto& n : f) if (!is_std(n)) return strip(n);
  return f.empty() ? "?" : strip(f[0]);
}
std::string stack_text(u32 pc, u32 cct)
{
  std::string r;
  for (auto& n : frames(pc, cct, 10)) r += "      at " + n + "\n";
  return r;
}
}  // namespace

std::string format(const char* fmt, ...)
{
  char b[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  return b;
}
long Prog::get(const char* k, long d) const
{
  Quiet q;  // how the map is searched must not influence the run
  auto it = p.find(k);
  return it == p.end() ? d : it->second;
}
bool active() { return g_active; }
const Prog& prog() { return *g_prog; }
const char* scratch_dir() { return g_scratch; }
void set_scratch(const char* d) { snprintf(g_scratch, sizeof g_scratch, "%s", d); }
int tid() { return cur ? cur->id : 0; }
u64 now() { return g_now; }
u64 steps() { return g_steps; }
void ev(u64 h) { g_hist = mix(g_hist, h); }
void quiet(int d) { if (cur) cur->quiet += d; }
void may_fail(int d) { if (cur) cur->may_fail += d; }
void nontrivial() { if (g_res) g_res->nontrivial = 1; }
void set_step_cap(u64 n) { g_step_cap = n; }
void set_time_cap(u64 n) { g_time_cap = g_now + n; }
u64 faults_seen(int kind) { return g_res ? g_res->faults[kind] : 0; }
void faults_off() { g_faults_on = false; }
void faults_on() { g_faults_on = true; }
void race_detection(bool on) { g_race_on = on; }
bool deadlock_hook(void (*fn)()) { g_dl_hook = fn; return true; }
void set_known(const std::vector<std::string>& k) { g_known = new std::vector<std::string>(k); }
int live_threads()
{
  int n = 0;
  for (int i = 1; i < g_nthr; ++i) if (g_thr[i].st != FIN) ++n;
  return n;
}
void count(const char* name, u64 n)
{
  if (!g_res) return;
  for (u32 i = 0; i < g_res->n_counters; ++i)
    if (strcmp(g_res->counters[i].name, name) == 0) { g_res->counters[i].v += n; return; }
  if (g_res->n_counters < 48) {
    auto& c = g_res->counters[g_res->n_counters++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.v = n;
  }
}
void trace(const char* fmt, ...)
{
  if (!g_tracing || !g_res) return;
  char b[512];
  int n = snprintf(b, sizeof b, "[%9.3fms t%d] ", static_cast<double>(g_now - 1000000000ull) / 1e6, cur ? cur->id : -1);
  va_list ap; va_start(ap, fmt);
  int m = vsnprintf(b + n, sizeof b - static_cast<size_t>(n) - 2, fmt, ap);
  va_end(ap);
  n += m; if (n > static_cast<int>(sizeof b) - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (g_res->trace_len + static_cast<u32>(n) < sizeof g_res->trace) {
    rt_cpy(g_res->trace + g_res->trace_len, b, static_cast<size_t>(n));
    g_res->trace_len += static_cast<u32>(n);
  }
}
static bool glob(const char* p, const char* s)
{
  if (*p == 0) return *s == 0;
  if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (*s == 0) return false; } }
  return *s == *p && glob(p + 1, s + 1);
}
bool known_match(const char* cls)
{
  if (!g_known) return false;
  for (auto& k : *g_known) if (glob(k.c_str(), cls)) return true;
  return false;
}
static void finish_result(int verdict)
{
  Result* r = g_res;
  r->hist_hash = g_hist;
  r->inter_hash = g_inter;
  r->steps = g_steps;
  r->minor = g_minor;
  r->vtime = g_now - 1000000000ull;
  r->n_threads = static_cast<u32>(g_nthr);
  __sync_synchronize();
  r->verdict = verdict;
}
[[noreturn]] static void die() { raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0); __builtin_unreachable(); }
static void report(const std::string& cls, const std::string& msg)
{
  Result* r = g_res;
  snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
  std::string m = msg;
  m += format("\n  threads at this point (virtual time %.3f ms, step %llu):\n",
              static_cast<double>(g_now - 1000000000ull) / 1e6, static_cast<unsigned long long>(g_steps));
  for (int i = 0; i < g_nthr && m.size() < 4500; ++i) {
    Thr& t = g_thr[i];
    if (t.st == FIN) continue;
    m += format("    t%d %s%s\n", i, st_name[t.st], &t == cur ? " (current)" : "");
    m += stack_text(0, t.cct);
  }
  snprintf(r->msg, sizeof r->msg, "%s", m.c_str());
}
[[noreturn]] static void violation(const std::string& cls, const std::string& msg)
{
  g_active = false;
  report(cls, msg);
  bool known = known_match(g_res->cls);
  if (known && g_res->n_known < 8) snprintf(g_res->known[g_res->n_known++], 256, "%s", g_res->cls);
  finish_result(known ? 3 : 2);
  die();
}
// Arguments of a report are built with the simulation already stopped.
#define VIOLATION(...) (g_active = false, violation(__VA_ARGS__))

void fail(const std::string& cls, const std::string& msg)
{
  g_active = false;
  trace("VIOLATION %s: %s", cls.c_str(), msg.c_str());
  VIOLATION(cls, msg);
}

// ---- decisions -----------------------------------------------------------------------------------------
static void record(int kind, int tid, u64 idx, u64 val)
{
  Result* r = g_res;
  if (r->n_over < sizeof r->over / sizeof r->over[0])
    r->over[r->n_over++] = Override{static_cast<u8>(kind), static_cast<u8>(tid), {}, idx, val};
  else r->over_lost++;
}
static bool lookup(int kind, int tid, u64 idx, u64& val)
{
  u32& p = g_ovp[kind][tid];
  OvEnt* e = g_ov[kind][tid];
  u32 n = g_ovn[kind][tid];
  while (p < n && e[p].idx < idx) ++p;
  if (p < n && e[p].idx == idx) { val = e[p].val; return true; }
  return false;
}
u32 decide(int kind, u32 n, u32 prob_ppm)
{
  if (!g_active || !cur) return 0;
  u64 idx = cur->kcnt[kind]++;
  u64 v = 0;
  if (g_mode == M_REPLAY) {
    if (!lookup(kind, cur->id, idx, v) || v >= n) return 0;
  } else {
    if (!g_faults_on || prob_ppm == 0) return 0;
    if (g_rng.below(1000000) >= prob_ppm) return 0;
    v = n <= 2 ? 1 : 1 + g_rng.below(n - 1);
    if (v == 0) return 0;
  }
  if (v) {
    record(kind, cur->id, idx, v);
    g_res->faults[kind]++;
    g_hist = mix(g_hist, (static_cast<u64>(kind) << 32) | v);
    trace("FAULT %s value=%llu", kind_name[kind], static_cast<unsigned long long>(v));
  }
  return static_cast<u32>(v);
}

// ---- scheduling ------------------------------------------------------------------------------------------
namespace
{
void cond_remove(Thr* t);
[[noreturn]] void deadlock()
{
  if (g_dl_hook) { auto h = g_dl_hook; g_dl_hook = nullptr; h(); }
  std::string m = "no thread can make progress: every thread is blocked and no timer is pending";
  // class by what the blocked threads wait for, outermost non-std frames
  std::string cls = "deadlock";
  VIOLATION(cls, m);
}
void switch_to(Thr* n)
{
  Thr* me = cur;
  if (n == me) return;
  g_res->switches++;
  cur = n;
  __atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
  futex_wake_raw(&n->go, 1);
  while (__atomic_load_n(&me->go, __ATOMIC_SEQ_CST) == 0) futex_wait_raw(&me->go, 0);
  me->go = 0;
}
inline bool runnable(const Thr& t) { return t.st == RUN && t.stall_until <= g_now; }
// Makes timed-out waiters runnable; returns number of runnable threads in list.
int collect(Thr** list)
{
  for (;;) {
    int n = 0;
    u64 tmin = INF;
    for (int i = 0; i < g_nthr; ++i) {
      Thr& t = g_thr[i];
      if (t.st == FIN) continue;
      if (t.st != RUN && t.deadline != INF) {
        if (t.deadline <= g_now) {
          if (t.st == B_COND) cond_remove(&t);
          t.timed_out = true;
          t.st = RUN;
          t.deadline = INF;
        } else if (t.deadline < tmin) tmin = t.deadline;
      }
      if (t.st == RUN) {
        if (t.stall_until <= g_now) list[n++] = &t;
        else if (t.stall_until < tmin) tmin = t.stall_until;
      }
    }
    if (n) return n;
    if (tmin == INF) deadlock();
    g_now = tmin;
    if (g_now > g_time_cap) VIOLATION("no-progress", "the run did not finish within its bound of virtual time");
  }
}
// The threads that can run now, without letting any time-out take effect (a replay does not look at each of the
// points at which a search may look).
int peek(Thr** list)
{
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) if (runnable(g_thr[i])) list[n++] = &g_thr[i];
  return n;
}
void pct_points(u64 upto)
{
  for (int i = 0; i < st_ncp; ++i)
    if (st_cp[i] != 0 && st_cp[i] <= upto) { st_cp[i] = 0; cur->prio = st_low--; }
}
// Events: a harness thread can wait for the k-th event from now on; the scheduler then lets it run at a random one
// of the next points, and may come back to the thread that caused the event in the middle of what it does then.
u64 g_bumps = 0, g_boost_at = 0;
Thr* g_boost = nullptr;
int g_boost_left = 0;
void set_boost(Thr* t, u32 bits)
{
  u64 d = g_rng.below(1u << g_rng.below(bits));
  g_boost = t;
  g_boost_at = g_steps + g_minor + d;
  if (g_countdown > static_cast<i64>(d)) g_countdown = static_cast<i64>(d);
}
// The boosted thread, if it is its turn now.
Thr* boosted()
{
  if (!g_boost || g_steps + g_minor < g_boost_at) return nullptr;
  Thr* b = g_boost;
  g_boost = nullptr;
  if (b == cur || !runnable(*b)) return nullptr;
  if (st_kind == 1) { b->prio = cur->prio + 1; for (int i = 0; i < g_nthr; ++i) if (g_thr[i].prio >= b->prio) b->prio = g_thr[i].prio + 1; }
  if (g_boost_left > 0) { --g_boost_left; set_boost(cur, 9); }
  return b;
}
void countdown(i64 n)
{
  i64 left = static_cast<i64>(g_boost_at - g_steps - g_minor);
  g_countdown = g_boost && left < n ? left : n;
}
Thr* choose(Thr** l, int n, bool cur_ok)
{
  Thr* def = nullptr;
  if (cur_ok) def = cur;
  else {
    for (int i = 0; i < n; ++i) if (l[i]->id > cur->id) { def = l[i]; break; }
    if (!def) def = l[0];
  }
  Thr* pick = def;
  if (g_mode == M_REPLAY) {
    u64 v;
    if (lookup(K_SWITCH, cur->id, cur->ev, v))
      for (int i = 0; i < n; ++i) if (l[i]->id == static_cast<int>(v)) pick = l[i];
  } else if (Thr* b = boosted()) {
    pick = b;
  } else if (st_kind == 1) {
    pct_points(g_steps + g_minor);
    pick = l[0];
    for (int i = 1; i < n; ++i) if (l[i]->prio > pick->prio) pick = l[i];
  } else {
    bool sw = !cur_ok || g_rng.below(1000000) < st_pmaj || cur->consec > 3000;
    if (sw) pick = l[g_rng.below(static_cast<u32>(n))];
  }
  if (pick != def) record(K_SWITCH, cur->id, cur->ev, static_cast<u64>(pick->id));
  if (cur_ok && pick != cur) g_res->preempts++;
  return pick;
}
void go(Thr* n)
{
  if (n != cur) {
    g_inter = mix(g_inter, (static_cast<u64>(cur->id) << 8) | static_cast<u64>(n->id));
    cur->consec = 0;
    switch_to(n);
  }
}
void check_caps()
{
  if (g_steps > g_step_cap || g_minor > g_minor_cap)
    VIOLATION("no-progress", "the run did not finish within its bound of scheduling steps (livelock or busy loop)");
}
constexpr u64 kStall[] = {0, 1000, 20000, 500000, 3000000, 20000000, 150000000, 1200000000, 6000000000ull};
// Called by the current, runnable thread before a synchronisation operation.
void major(u32 op, u64 obj)
{
  Thr* t = cur;
  ++t->ev;
  ++g_steps;
  ++t->consec;
  g_now += 150;
  g_hist = mix(g_hist, (static_cast<u64>(t->id) << 56) | (static_cast<u64>(op) << 48) | (obj & 0xffffffffffffull));
  g_inter = mix(g_inter, (static_cast<u64>(t->id) << 16) | op);
  check_caps();
  if (g_now > g_time_cap) VIOLATION("no-progress", "the run did not finish within its bound of virtual time");
  if (pr_stall || g_mode == M_REPLAY) {
    u32 v = decide(K_STALL, 9, pr_stall);
    if (v) t->stall_until = g_now + kStall[v];
  }
  if (pr_clock || g_mode == M_REPLAY) {
    u32 v = decide(K_CLOCKJUMP, 7, pr_clock);
    static const i64 j[] = {0, 1000000000ll, -1000000000ll, 3600000000000ll, -3600000000000ll, 100000000ll, -100000000ll};
    g_wall_off += j[v];
  }
  if (st_kind == 1 && t->consec > 4000) { t->prio = st_low--; t->consec = 0; }
  if (g_nthr == 1 && t->stall_until <= g_now) return;
  Thr* l[MAXT];
  int n = collect(l);
  bool ok = runnable(*t);
  if (n == 1 && ok) return;
  go(choose(l, n, ok));
}
// The current thread is blocked (st set by the caller): run something else until it is runnable.
void block(u64 deadline)
{
  Thr* t = cur;
  t->deadline = deadline;
  t->timed_out = false;
  ++t->ev;
  ++g_steps;
  check_caps();
  Thr* l[MAXT];
  int n = collect(l);
  if (runnable(*t) && n == 1) { t->deadline = INF; return; }
  go(choose(l, n, runnable(*t)));
  t->deadline = INF;
}
void minor_slow()
{
  Thr* t = cur;
  if (g_mode == M_REPLAY) {
    g_countdown = 0;
    u64 v;
    if (!lookup(K_SWITCH, t->id, t->ev, v)) return;
    Thr* l[MAXT];
    int n = peek(l);
    for (int i = 0; i < n; ++i)
      if (l[i]->id == static_cast<int>(v) && l[i] != t) {
        record(K_SWITCH, t->id, t->ev, v);
        g_res->preempts++;
        go(l[i]);
        return;
      }
    return;
  }
  check_caps();
  if (g_boost) {
    if (Thr* b = boosted()) {
      countdown(0);
      record(K_SWITCH, t->id, t->ev, static_cast<u64>(b->id));
      g_res->preempts++;
      go(b);
      return;
    }
  }
  if (st_kind == 1) {
    // next event of interest
    i64 next = 20000;
    u64 at = g_steps + g_minor;
    for (int i = 0; i < st_ncp; ++i)
      if (st_cp[i] > at && static_cast<i64>(st_cp[i] - at) < next) next = static_cast<i64>(st_cp[i] - at);
    countdown(next);
    bool due = false;
    for (int i = 0; i < st_ncp; ++i) if (st_cp[i] != 0 && st_cp[i] <= at) due = true;
    if (!due) { if (t->consec++ > 50) { t->prio = st_low--; t->consec = 0; } else return; }
  } else {
    if (st_pmin == 0) { countdown(20000); if (t->consec++ < 20) return; }
    else { // geometric
      countdown(1 + g_rng.below(2 * (1000000 / st_pmin)));
    }
  }
  if (g_nthr == 1) return;
  Thr* l[MAXT];
  int n = peek(l);
  bool ok = runnable(*t);
  if (n == 1 && ok) return;
  Thr* pick;
  if (st_kind == 1) pick = choose(l, n, ok);
  else {
    pick = l[g_rng.below(static_cast<u32>(n))];
    if (pick != t) { record(K_SWITCH, t->id, t->ev, static_cast<u64>(pick->id)); g_res->preempts++; }
  }
  go(pick);
}
inline bool live() { return g_active && cur != nullptr; }

// ---- happens-before ------------------------------------------------------------------------------------
inline void tick(Thr* t) { ++t->vc.c[t->id]; }
void vc_acquire(const VC& v) { vc_join(cur->vc, v); }
void vc_release(VC& v) { vc_join(v, cur->vc); tick(cur); }
VC* sync_at(uintptr_t a, bool create)
{
  size_t w = widx(a);
  if (w == static_cast<size_t>(-1)) return nullptr;
  u32& i = g_syncidx[w];
  if (i == 0) {
    if (!create) return nullptr;
    if (g_nsync >= MAXSYNC) return nullptr;
    i = g_nsync++;
  }
  return &g_sync[i];
}
[[noreturn]] void report_race(uintptr_t a, u32 fl, u32 pc, const Slot& s, const char* what = nullptr)
{
  g_active = false;
  std::string s1 = site(pc, cur->cct), s2 = site(s.pc, s.cct);
  std::string k1 = s1, k2 = s2;
  if (k2 < k1) std::swap(k1, k2);
  std::string cls = std::string(what ? what : "race") + ":" + k1 + "|" + k2;
  std::string m = format("conflicting unsynchronised accesses to the same memory (undefined behaviour) at %#lx:\n", static_cast<unsigned long>(a));
  m += format("    t%d %s%s in %s\n", cur->id, fl & 2 ? "atomic " : "", what ? what : fl & 1 ? "write" : "read", s1.c_str());
  m += stack_text(pc, cur->cct);
  m += format("    t%d earlier %s%s in %s\n", s.tid, s.fl & 2 ? "atomic " : "", s.fl & 1 ? "write" : "read", s2.c_str());
  m += stack_text(s.pc, s.cct);
  g_active = true;
  VIOLATION(cls, m);
}
[[noreturn]] void report_uaf(uintptr_t a, u32 fl, u32 pc)
{
  g_active = false;
  std::string s1 = site(pc, cur->cct);
  std::string m = format("%s of freed memory at %#lx in t%d, %s\n", fl & 1 ? "write" : "read", static_cast<unsigned long>(a), cur->id, s1.c_str());
  m += stack_text(pc, cur->cct);
  g_active = true;
  VIOLATION("use-after-free:" + s1, m);
}
inline void shadow_word(uintptr_t a, size_t w, u32 mask, u32 fl, u32 pc)
{
  Thr* t = cur;
  u32& ci = g_cellidx[w];
  if (!ci) {
    if (g_cellfree) { ci = g_cellfree; g_cellfree = g_cell[ci].s[0].clk; g_cell[ci].s[0].clk = 0; }
    else ci = g_ncell++;
  }
  Cell& c = g_cell[ci];
  int put = -1, ordered = -1;
  for (int i = 0; i < 4; ++i) {
    Slot& s = c.s[i];
    if (!s.used) { if (put < 0) put = i; continue; }
    if (s.tid == t->id) {
      if (s.mask == mask && (s.fl & 1) <= (fl & 1) && ((s.fl & 2) >= (fl & 2))) { put = i; }
      if (s.mask == mask && s.fl == fl) put = i;
      continue;
    }
    bool hb = s.clk <= t->vc.c[s.tid];
    if (!hb) {
      if ((s.mask & mask) && ((s.fl | fl) & 1) && !((s.fl & fl) & 2)) report_race(a, fl, pc, s);
    } else if ((fl & 1) || !(s.fl & 1)) ordered = i;
  }
  if (put < 0) put = ordered >= 0 ? ordered : static_cast<int>(t->vc.c[t->id] & 3);
  c.s[put] = Slot{t->vc.c[t->id], static_cast<u8>(t->id), static_cast<u8>(mask), static_cast<u8>(fl), 1, t->cct, pc};
}
inline void shadow(uintptr_t a, size_t n, u32 fl, u32 pc)
{
  size_t w = widx(a);
  if (w == static_cast<size_t>(-1)) return;
  if (a - ARENA < ARENA_SZ && g_astate[(a - ARENA) >> 3] == 2) report_uaf(a, fl, pc);
  if (!g_race_on) return;
  u32 off = a & 7;
  if (off + n <= 8) { shadow_word(a, w, ((1u << n) - 1) << off, fl, pc); return; }
  // spans words
  size_t left = n;
  while (left) {
    size_t k = 8 - off < left ? 8 - off : left;
    shadow_word(a, w, ((1u << k) - 1) << off, fl, pc);
    a += k; left -= k; off = 0; ++w;
    if (w >= g_words_region + g_words_exe) return;
  }
}
inline void access(const void* p, size_t n, u32 fl, const void* pc)
{
  if (!live()) return;
  Thr* t = cur;
  if (t->quiet) return;
  ++t->ev;
  ++g_minor;
  if (--g_countdown < 0) { minor_slow(); }
  shadow(reinterpret_cast<uintptr_t>(p), n, fl, static_cast<u32>(reinterpret_cast<uintptr_t>(pc)));
}
u32 cct_slot(u32 parent, u32 pc)
{
  u32 i = static_cast<u32>(mix(parent * 0x9E3779B1ull, pc)) & g_cctmask;
  while (g_ccth[i] && (g_cct[g_ccth[i]].parent != parent || g_cct[g_ccth[i]].pc != pc)) i = (i + 1) & g_cctmask;
  return i;
}
u32 cct_child(u32 parent, u32 pc)
{
  u32 i = cct_slot(parent, pc);
  if (g_ccth[i]) return g_ccth[i];
  if (g_ncct >= CCTN - 1) return parent;
  if (g_ncct * 2 > g_cctmask) {  // the next table, twice as large, follows this one
    g_ccth += g_cctmask + 1;
    g_cctmask = g_cctmask * 2 + 1;
    for (u32 k = 1; k < g_ncct; ++k) g_ccth[cct_slot(g_cct[k].parent, g_cct[k].pc)] = k;
    i = cct_slot(parent, pc);
  }
  g_cct[g_ncct] = Cct{parent, pc};
  return g_ccth[i] = g_ncct++;
}
}  // namespace

void yield_point() { if (live()) major(1, 0); }
void release_mark(const void* a) { if (live()) if (VC* v = sync_at(reinterpret_cast<uintptr_t>(a), true)) vc_release(*v); }
void acquire_mark(const void* a) { if (live()) if (VC* v = sync_at(reinterpret_cast<uintptr_t>(a), false)) vc_acquire(*v); }
void sleep_ns(u64 ns)
{
  if (!live()) return;
  major(2, 0);
  cur->st = B_SLEEP;
  block(g_now + (ns ? ns : 1));
}

void bump()
{
  if (!live()) return;
  ++g_bumps;
  for (int i = 0; i < g_nthr; ++i) {
    Thr& t = g_thr[i];
    if (t.st != B_EVENT || t.wait_obj > g_bumps) continue;
    t.st = RUN;
    t.deadline = INF;
    if (g_mode == M_SEARCH && !g_boost) { g_boost_left = static_cast<int>(g_rng.below(4)); set_boost(&t, 12); }
  }
}
bool wait_bumps(u64 n, u64 ns)
{
  if (!live()) return false;
  major(2, 0);
  cur->wait_obj = g_bumps + n;
  cur->st = B_EVENT;
  block(g_now + (ns ? ns : 1));
  return !cur->timed_out;
}

// ---- real functions -----------------------------------------------------------------------------------------
namespace
{
int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_pthread_join)(pthread_t, void**);
template <class F> void real(F& f, const char* n) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

char* g_altstacks;
void install_altstack(int id)
{
  stack_t ss{};
  ss.ss_size = 65536;
  ss.ss_sp = g_altstacks + static_cast<size_t>(id) * ss.ss_size;
  sigaltstack(&ss, nullptr);
}
void* trampoline(void* a)
{
  Thr* t = static_cast<Thr*>(a);
  install_altstack(t->id);
  while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait_raw(&t->go, 0);
  t->go = 0;
  for (;;) {
    t->ret = t->fn(t->arg);
    // finished
    t->quiet = 0;
    major(3, static_cast<u64>(t->id));
    t->st = FIN;
    tick(t);
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].st == B_JOIN && g_thr[i].wait_obj == static_cast<uintptr_t>(t->id)) g_thr[i].st = RUN;
    trace("thread t%d finished", t->id);
    ++t->ev;
    Thr* l[MAXT];
    int n = collect(l);
    go(choose(l, n, false));
    // here again: new_thr has given this thread a new function to run
  }
}
// A joined thread whose end the creating thread knows about is used again: the accesses of the old and
// the new thread are ordered, so that they can share a clock.
Thr* new_thr(void* (*fn)(void*), void* arg, bool& reused)
{
  Thr* t = nullptr;
  reused = false;
  for (int i = 1; cur && i < g_nthr; ++i)
    if (g_thr[i].st == FIN && g_thr[i].joined && cur->vc.c[i] >= g_thr[i].vc.c[i]) { t = &g_thr[i]; break; }
  if (t) {
    reused = true;
    u32 clk = t->vc.c[t->id];
    rt_set(&t->vc, 0, sizeof t->vc);
    t->vc.c[t->id] = clk + 1;
    t->joined = t->timed_out = t->signaled = t->starved = false;
    t->ret = nullptr;
    t->stall_until = 0;
    t->wait_obj = 0;
    t->quiet = t->may_fail = t->depth = 0;
    t->consec = 0;
  } else {
    if (g_nthr >= MAXT) VIOLATION("harness:too-many-threads", "more simulated threads than supported");
    t = &g_thr[g_nthr];
    rt_set(static_cast<void*>(t), 0, sizeof *t);
    t->id = g_nthr;
    t->vc.c[t->id] = 1;
    ++g_nthr;
  }
  t->st = RUN;
  t->fn = fn;
  t->arg = arg;
  t->deadline = INF;
  t->prio = g_mode == M_SEARCH ? static_cast<i64>(g_rng.below(1000000)) + 100 : 0;
  return t;
}
void start_real(Thr* t)
{
  mprotect(reinterpret_cast<void*>(STACKS + static_cast<size_t>(t->id) * STACK_SZ), 4096, PROT_NONE);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(STACKS + static_cast<size_t>(t->id) * STACK_SZ + 4096), STACK_SZ - 4096);
  bool a = g_active;
  g_active = false;
  int rc = real_pthread_create(&t->real, &at, trampoline, t);
  g_active = a;
  if (rc != 0) { g_active = false; VIOLATION("harness:pthread_create", "real pthread_create failed"); }
}

void on_signal(int sig, siginfo_t* si, void*)
{
  static volatile int once = 0;
  if (!g_res || once) { raw_syscall6(SYS_exit_group, 98, 0, 0, 0, 0, 0); }
  once = 1;
  bool was = g_active;
  g_active = false;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
  if (!was || !cur) { snprintf(g_res->cls, sizeof g_res->cls, "harness:crash %s outside simulation", n); g_res->verdict = 4; die(); }
  std::string s = site(0, cur->cct);
  VIOLATION(format("crash:%s:%s", n, s.c_str()), format("the process crashed with %s (address %p) in t%d, %s\n%s", n, si->si_addr, cur->id, s.c_str(), stack_text(0, cur->cct).c_str()));
}
[[noreturn]] void on_terminate()
{
  g_active = false;
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception& x) {
      int st; char* d = abi::__cxa_demangle(typeid(x).name(), nullptr, nullptr, &st);
      what = std::string("uncaught ") + (d ? d : "exception") + ": " + x.what(); }
    catch (...) { what = "uncaught exception of unknown type"; }
  } else what = "std::terminate without exception (joinable thread destroyed, or exception thrown from a noexcept function)";
  if (!g_res || !cur) _exit(97);
  std::string s = site(0, cur->cct);
  VIOLATION("terminate:" + s, "process terminated: " + what + format(" in t%d\n", cur->id) + stack_text(0, cur->cct));
}
bool g_inited = false;
void ensure_tables()
{
  if (g_cell) return;
  g_words_exe = (static_cast<size_t>(&_end - &__data_start) + 63) >> 3;
  size_t words = g_words_region + g_words_exe + 8;
  g_cell = static_cast<Cell*>(mm(words * sizeof(Cell)));
  g_cellidx = static_cast<u32*>(mm(words * 4));
  g_syncidx = static_cast<u32*>(mm(words * 4));
  g_sync = static_cast<VC*>(mm(sizeof(VC) * MAXSYNC));
  g_cct = static_cast<Cct*>(mm(sizeof(Cct) * CCTN));
  g_ccth = static_cast<u32*>(mm(sizeof(u32) * CCTN * 4));
  g_thr = static_cast<Thr*>(mm(sizeof(Thr) * MAXT));
  g_mtx = static_cast<Mtx*>(mm(sizeof(Mtx) * MAXOBJ));
  g_cnd = static_cast<Cnd*>(mm(sizeof(Cnd) * MAXOBJ));
  g_rw = static_cast<Rw*>(mm(sizeof(Rw) * 1024));
  g_altstacks = static_cast<char*>(mm(MAXT * 65536));
}
void* dummy(void*) { return nullptr; }
}  // namespace

void init_runtime()
{
  if (g_inited) return;
  g_inited = true;
  ensure_tables();
  real(real_pthread_create, "pthread_create");
  real(real_pthread_join, "pthread_join");
  pthread_t p;
  real_pthread_create(&p, nullptr, dummy, nullptr);
  real_pthread_join(p, nullptr);
}

void driver_heap(bool on) { g_driver_heap = on; }

static void* t0_main(void* a)
{
  const Harness* h = static_cast<const Harness*>(a);
  h->run(*g_prog);
  // Only reached when every oracle was satisfied.
  g_active = false;
  finish_result(1);
  die();
}

// Every ten seconds of wall-clock time: a run without any progress hangs; one that is only slow, because the machine
// is busy, is given up after some minutes without a verdict.
void on_alarm(int, siginfo_t*, void*)
{
  static u64 last = ~0ull;
  static int same = 0, n = 0;
  u64 at = g_steps + g_minor;
  same = at == last ? same + 1 : 0;
  last = at;
  ++n;
  if (same >= 3 && g_res->verdict == 0) {
    snprintf(g_res->cls, sizeof g_res->cls, "no-progress:hangs");
    snprintf(g_res->msg, sizeof g_res->msg, "the run does not go on: for 30 s of wall-clock time nothing was executed that the simulator could see");
    g_res->verdict = 2;
    _exit(0);
  }
  if (n >= 24) { if (g_res->verdict == 0) g_res->verdict = 5; _exit(0); }
  alarm(10);
}
void run_in_child(const Harness& h, const Prog& pin, u64 seed, Mode mode, const std::vector<Override>& ov, Result* res, bool tracing)
{
  __libc_single_threaded = 0;
  g_res = res;
  g_h = &h;
  static Prog pr;
  pr = pin;
  g_prog = &pr;
  std::string ser = pr.serialize();
  res->prog_len = 0;
  if (ser.size() < sizeof res->prog) { rt_cpy(res->prog, ser.c_str(), ser.size()); res->prog_len = static_cast<u32>(ser.size()); }
  g_rng = Rng(seed);
  g_mode = mode;
  g_tracing = tracing;
  st_kind = static_cast<int>(pr.get("strat", 0));
  st_pmaj = static_cast<u32>(pr.get("pmaj", 250000));
  st_pmin = static_cast<u32>(pr.get("pmin", 0));
  st_ncp = static_cast<int>(pr.get("pctd", 0));
  if (st_ncp > 16) st_ncp = 16;
  u64 len = static_cast<u64>(pr.get("pctlen", 1000));
  for (int i = 0; i < st_ncp; ++i) st_cp[i] = 1 + g_rng.next() % (len ? len : 1);
  pr_stall = static_cast<u32>(pr.get("f.stall"));
  pr_spur = static_cast<u32>(pr.get("f.spur"));
  pr_cas = static_cast<u32>(pr.get("f.cas"));
  pr_thr = static_cast<u32>(pr.get("f.thr"));
  pr_alloc = static_cast<u32>(pr.get("f.alloc"));
  pr_clock = static_cast<u32>(pr.get("f.clock"));
  g_race_on = pr.get("norace", 0) == 0;
  if (mode == M_REPLAY) {
    for (auto& o : ov) if (o.kind < K_COUNT && o.tid < MAXT) g_ovn[o.kind][o.tid]++;
    for (int k = 0; k < K_COUNT; ++k) for (int t = 0; t < MAXT; ++t)
      if (g_ovn[k][t]) { g_ov[k][t] = static_cast<OvEnt*>(malloc(sizeof(OvEnt) * g_ovn[k][t])); g_ovn[k][t] = 0; }
    for (auto& o : ov) if (o.kind < K_COUNT && o.tid < MAXT) g_ov[o.kind][o.tid][g_ovn[o.kind][o.tid]++] = OvEnt{o.idx, o.val};
  }
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_alarm;
  sa.sa_flags |= SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  std::set_terminate(on_terminate);
  g_nthr = 0;
  g_driver_heap = false;  // from here on memory comes from the arena, at the same addresses in every process
  Prog* sp = new Prog(pr);
  g_prog = sp;
  bool reused;
  Thr* t = new_thr(t0_main, const_cast<Harness*>(&h), reused);
  cur = t;
  start_real(t);
  g_active = true;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  futex_wake_raw(&t->go, 1);
  static int never;
  for (;;) futex_wait_raw(&never, 0);
}

namespace
{
// ---- synchronisation objects ------------------------------------------------------------------------------
struct MRaw { u32 id; u32 magic; u32 a, b; int kind; };
constexpr u32 MAGIC = 0x51D05EED;
Mtx* mtx_of(pthread_mutex_t* m)
{
  auto r = reinterpret_cast<MRaw*>(m);
  if (r->magic != MAGIC || r->id == 0 || r->id >= g_nmtx || g_mtx[r->id].addr != reinterpret_cast<uintptr_t>(m)) {
    if (g_nmtx >= MAXOBJ) VIOLATION("harness:objects", "too many mutexes");
    r->id = g_nmtx++;
    r->magic = MAGIC;
    Mtx& x = g_mtx[r->id];
    rt_set(static_cast<void*>(&x), 0, sizeof x);
    x.addr = reinterpret_cast<uintptr_t>(m);
    x.owner = -1;
    x.kind = r->kind & 3;
  }
  return &g_mtx[r->id];
}
void check_freed(const void* p, const char* what)
{
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a - ARENA < ARENA_SZ && g_astate[(a - ARENA) >> 3] == 2) {
    g_active = false;
    std::string s = site(0, cur->cct);
    g_active = true;
    VIOLATION("use-after-free:" + s, format("%s on freed memory in t%d, %s\n%s", what, cur->id, s.c_str(), stack_text(0, cur->cct).c_str()));
  }
}
u64 oid(Mtx* m) { return static_cast<u64>(m - g_mtx); }
void lock_loop(Mtx* m)
{
  while (m->owner != -1) {
    m->nwait++;
    cur->st = B_MUTEX;
    cur->wait_obj = reinterpret_cast<uintptr_t>(m);
    block(INF);
    m->nwait--;
  }
  m->owner = cur->id;
  m->count = 1;
  vc_acquire(m->vc);
}
bool lock_until(Mtx* m, u64 dl)
{
  while (m->owner != -1) {
    if (g_now >= dl) return false;
    m->nwait++;
    cur->st = B_MUTEX;
    cur->wait_obj = reinterpret_cast<uintptr_t>(m);
    block(dl);
    m->nwait--;
  }
  m->owner = cur->id;
  m->count = 1;
  vc_acquire(m->vc);
  return true;
}
void wake_mutex(Mtx* m)
{
  if (!m->nwait) return;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == B_MUTEX && g_thr[i].wait_obj == reinterpret_cast<uintptr_t>(m)) g_thr[i].st = RUN;
}
void unlock(Mtx* m)
{
  if (m->owner != cur->id) VIOLATION("mutex-misuse", "a mutex was unlocked by a thread that does not hold it");
  if (--m->count) return;
  vc_release(m->vc);
  m->owner = -1;
  wake_mutex(m);
}
Cnd* cnd_of(pthread_cond_t* c)
{
  auto r = reinterpret_cast<MRaw*>(c);
  if (r->magic != MAGIC || r->id == 0 || r->id >= g_ncnd || g_cnd[r->id].addr != reinterpret_cast<uintptr_t>(c)) {
    if (g_ncnd >= MAXOBJ) VIOLATION("harness:objects", "too many condition variables");
    r->id = g_ncnd++;
    r->magic = MAGIC;
    Cnd& x = g_cnd[r->id];
    x.addr = reinterpret_cast<uintptr_t>(c);
    x.nw = 0;
  }
  return &g_cnd[r->id];
}
void cond_remove(Thr* t)
{
  Cnd* c = reinterpret_cast<Cnd*>(t->wait_obj);
  for (int i = 0; i < c->nw; ++i)
    if (c->w[i] == t->id) { for (int k = i + 1; k < c->nw; ++k) c->w[k - 1] = c->w[k]; c->nw--; return; }
}
u64 abs_mono(const timespec* ts, bool wall)
{
  i64 t = static_cast<i64>(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
  if (wall) t -= g_wall_off;
  return t < 0 ? 0 : static_cast<u64>(t);
}
int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
{
  check_freed(c, "condition variable wait");
  Cnd* cv = cnd_of(c);
  Mtx* mx = mtx_of(m);
  major(10, static_cast<u64>(cv - g_cnd));
  if (mx->owner != cur->id) VIOLATION("mutex-misuse", "condition variable wait without holding the mutex");
  u32 cnt = mx->count;
  u64 spur = INF;
  if (pr_spur || g_mode == M_REPLAY) {
    u32 v = decide(K_SPURIOUS, 6, pr_spur);
    static const u64 d[] = {0, 1, 1000, 300000, 5000000, 60000000};
    if (v) spur = g_now + d[v];
  }
  cur->wait_obj = reinterpret_cast<uintptr_t>(cv);
  cv->w[cv->nw++] = cur->id;
  mx->count = 1;
  unlock(mx);
  cur->signaled = false;
  cur->st = B_COND;
  block(spur < deadline ? spur : deadline);
  bool to = cur->timed_out && !(spur < deadline) && !cur->signaled;
  if (cur->timed_out && spur < deadline && g_now >= deadline) to = true;
  lock_loop(mx);
  mx->count = cnt;
  g_hist = mix(g_hist, to ? 7 : 8);
  return to ? ETIMEDOUT : 0;
}
int cond_wake(pthread_cond_t* c, bool all)
{
  check_freed(c, "condition variable notification");
  Cnd* cv = cnd_of(c);
  major(all ? 12 : 11, static_cast<u64>(cv - g_cnd));
  while (cv->nw) {
    u32 k = 0;
    if (!all && cv->nw > 1) k = decide(K_SIGNAL_PICK, static_cast<u32>(cv->nw), 500000);
    Thr& t = g_thr[cv->w[k]];
    cond_remove(&t);
    t.st = RUN;
    t.signaled = true;
    t.deadline = INF;
    t.timed_out = false;
    if (!all) break;
  }
  return 0;
}
Rw* rw_of(pthread_rwlock_t* c)
{
  auto r = reinterpret_cast<MRaw*>(c);
  if (r->magic != MAGIC || r->id == 0 || r->id >= g_nrw || g_rw[r->id].addr != reinterpret_cast<uintptr_t>(c)) {
    if (g_nrw >= 1024) VIOLATION("harness:objects", "too many rwlocks");
    r->id = g_nrw++;
    r->magic = MAGIC;
    Rw& x = g_rw[r->id];
    rt_set(static_cast<void*>(&x), 0, sizeof x);
    x.addr = reinterpret_cast<uintptr_t>(c);
    x.writer = -1;
  }
  return &g_rw[r->id];
}
int rw_lock(pthread_rwlock_t* l, bool wr, bool tr, u64 dl = INF)
{
  Rw* r = rw_of(l);
  major(wr ? 31 : 30, static_cast<u64>(r - g_rw));
  while (r->writer != -1 || (wr && r->readers)) {
    if (tr) return EBUSY;
    if (g_now >= dl) return ETIMEDOUT;
    cur->st = B_RW;
    cur->wait_obj = reinterpret_cast<uintptr_t>(r);
    block(dl);
  }
  vc_acquire(r->vc);
  if (wr) { r->writer = cur->id; vc_acquire(r->rvc); } else r->readers++;
  return 0;
}
void wake_obj(St st, uintptr_t o)
{
  for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == st && g_thr[i].wait_obj == o) g_thr[i].st = RUN;
}

// ---- heap ---------------------------------------------------------------------------------------------------
struct Hdr { u64 size; u64 pad; };
// The driver's own memory (outside simulated runs): a simple size-class allocator elsewhere, so that
// simulated runs always start from the same arena state.
constexpr uintptr_t DHEAP = 0x200000000000ull;
constexpr size_t DHEAP_SZ = 4ull << 30;
uintptr_t g_dbrk = 0;
void* g_dfree[64];
void* dheap_alloc(size_t n, size_t al)
{
  if (!g_dbrk) { mm(DHEAP_SZ, DHEAP); g_dbrk = DHEAP + 64; }
  if (al < 16) al = 16;
  size_t need = n + al + sizeof(Hdr);
  int c = 6;
  while ((1ull << c) < need) ++c;
  uintptr_t blk;
  if (g_dfree[c]) { blk = reinterpret_cast<uintptr_t>(g_dfree[c]); g_dfree[c] = *static_cast<void**>(g_dfree[c]); }
  else {
    if (g_dbrk + (1ull << c) > DHEAP + DHEAP_SZ) return nullptr;
    blk = g_dbrk;
    g_dbrk += 1ull << c;
  }
  uintptr_t p = (blk + sizeof(Hdr) + al - 1) & ~(al - 1);
  reinterpret_cast<Hdr*>(p)[-1] = Hdr{n, (blk << 8) | static_cast<u64>(c)};
  return reinterpret_cast<void*>(p);
}
void dheap_free(void* q)
{
  Hdr h = static_cast<Hdr*>(q)[-1];
  void* blk = reinterpret_cast<void*>(h.pad >> 8);
  int c = static_cast<int>(h.pad & 0xff);
  *static_cast<void**>(blk) = g_dfree[c];
  g_dfree[c] = blk;
}
void* arena_alloc(size_t n, size_t al)
{
  if (g_driver_heap) return dheap_alloc(n, al);
  if (!g_astate) {
    mm(REGION_SZ, ARENA);
    g_astate = static_cast<u8*>(mm(ARENA_SZ >> 3));
  }
  if (al < 16) al = 16;
  uintptr_t p = (g_brk + sizeof(Hdr) + al - 1) & ~(al - 1);
  size_t sz = (n + 15) & ~static_cast<size_t>(15);
  if (sz == 0) sz = 16;
  if (p + sz > ARENA + ARENA_SZ) {
    if (g_active && cur) { VIOLATION("no-progress", "the run exceeded its bound of allocated memory"); }
    return nullptr;
  }
  g_brk = p + sz;
  reinterpret_cast<Hdr*>(p)[-1] = Hdr{n, 0x55};
  return reinterpret_cast<void*>(p);
}
void arena_free(void* q, bool racecheck)
{
  uintptr_t p = reinterpret_cast<uintptr_t>(q);
  if (p - DHEAP < DHEAP_SZ) { if (g_driver_heap) dheap_free(q); return; }
  if (p - ARENA >= ARENA_SZ) return;
  Hdr* h = &reinterpret_cast<Hdr*>(p)[-1];
  if (h->pad == 0xF5) {
    if (live()) VIOLATION("double-free:" + site(0, cur->cct), "memory freed twice\n" + stack_text(0, cur->cct));
    return;
  }
  if (h->pad != 0x55) { if (live()) VIOLATION("bad-free:" + site(0, cur->cct), "free of a pointer that was not allocated\n" + stack_text(0, cur->cct)); return; }
  h->pad = 0xF5;
  if (!live()) return;
  size_t words = (h->size + 7) >> 3;
  if (cur->quiet == 0) {
    // freeing conflicts with every unordered access
    size_t w0 = (p - ARENA) >> 3;
    size_t lim = words < 128 ? words : 128;
    if (g_race_on && racecheck)
      for (size_t w = 0; w < lim; ++w)
        if (g_cellidx[w0 + w]) for (auto& s : g_cell[g_cellidx[w0 + w]].s)
          if (s.used && s.tid != cur->id && s.clk > cur->vc.c[s.tid]) report_race(p + w * 8, 1, 0, s, "free-race");
    // locked mutexes or waited-on condition variables inside the block
    for (u32 i = 1; i < g_nmtx; ++i)
      if (g_mtx[i].addr >= p && g_mtx[i].addr < p + h->size) {
        if (g_mtx[i].owner != -1 || g_mtx[i].nwait) {
          VIOLATION("destroyed-in-use:mutex:" + site(0, cur->cct), "memory holding a mutex was freed while the mutex was held or waited for\n" + stack_text(0, cur->cct));
        }
        g_mtx[i].addr = 0;
      }
    for (u32 i = 1; i < g_ncnd; ++i)
      if (g_cnd[i].addr >= p && g_cnd[i].addr < p + h->size && g_cnd[i].nw)
        VIOLATION("destroyed-in-use:cond:" + site(0, cur->cct), "memory holding a condition variable was freed while a thread waits on it\n" + stack_text(0, cur->cct));
  }
  rt_set(g_astate + ((p - ARENA) >> 3), 2, words);
  for (size_t w = (p - ARENA) >> 3, e = w + words; w < e; ++w)
    if (u32 ci = g_cellidx[w]) {
      g_cellidx[w] = 0;
      for (auto& sl : g_cell[ci].s) sl.used = 0;
      g_cell[ci].s[0].clk = g_cellfree;
      g_cellfree = ci;
    }
}
bool alloc_fault()
{
  if (!live() || cur->quiet || cur->may_fail == 0) return false;
  if (!pr_alloc && g_mode != M_REPLAY) return false;
  return decide(K_ALLOCFAIL, 2, pr_alloc) != 0;
}
}  // namespace

void gen_strategy(Prog& p, Rng& r)
{
  static const long pm[] = {1000000, 500000, 250000, 100000, 30000};
  static const long pn[] = {0, 0, 300, 3000, 20000, 100000};
  if (r.chance(2, 5)) {
    p.p["strat"] = 1;
    p.p["pctd"] = r.range(1, 5);
    p.p["pctlen"] = 1l << r.range(5, 15);
  } else {
    p.p["strat"] = 0;
    p.p["pmaj"] = pm[r.below(5)];
    p.p["pmin"] = pn[r.below(6)];
  }
  if (r.chance(1, 3)) p.p["f.stall"] = r.chance(1, 2) ? 3000 : 30000;
  if (r.chance(1, 3)) p.p["f.spur"] = r.chance(1, 2) ? 50000 : 300000;
  if (r.chance(1, 3)) p.p["f.cas"] = 100000;
}
}  // namespace sim

using namespace sim;

// ================================================================================================
// Interposed C library functions
// ================================================================================================
#define EXP extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

EXP void* malloc(size_t n)
{
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  return arena_alloc(n, 16);
}
// Blocks freed by libstdc++ itself (exception objects: reference counted inside the library, where
// the simulator sees no synchronisation) are not subject to the free/access race check.
EXP void free(void* p) { if (p) arena_free(p, reinterpret_cast<uintptr_t>(PC) < 0x80000000ull); }
void operator delete(void* p) noexcept { if (p) arena_free(p, true); }
void operator delete(void* p, std::size_t) noexcept { if (p) arena_free(p, true); }
void operator delete[](void* p) noexcept { if (p) arena_free(p, true); }
void operator delete[](void* p, std::size_t) noexcept { if (p) arena_free(p, true); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) arena_free(p, true); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { if (p) arena_free(p, true); }
EXP void* calloc(size_t a, size_t b)
{
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  void* p = arena_alloc(a * b, 16);  // arena memory is never reused: still zero
  if (g_driver_heap && p) rt_set(p, 0, a * b);
  return p;
}
EXP void* realloc(void* p, size_t n)
{
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  void* q = arena_alloc(n, 16);
  if (p && q) {
    size_t o = static_cast<Hdr*>(p)[-1].size;
    char* d = static_cast<char*>(q);
    const char* s = static_cast<const char*>(p);
    for (size_t i = 0; i < (o < n ? o : n); ++i) d[i] = s[i];
    arena_free(p, false);
  }
  return q;
}
EXP void* memalign(size_t al, size_t n) { return arena_alloc(n, al); }
EXP void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al); }
EXP int posix_memalign(void** r, size_t al, size_t n) { *r = arena_alloc(n, al); return *r ? 0 : ENOMEM; }
EXP size_t malloc_usable_size(void* p) { return p ? static_cast<Hdr*>(p)[-1].size : 0; }

EXP int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  if (!live()) { real(real_pthread_create, "pthread_create"); return real_pthread_create(out, at, fn, arg); }
  major(20, static_cast<u64>(g_nthr));
  if (cur->quiet == 0 && (pr_thr || g_mode == M_REPLAY) && decide(K_THREADFAIL, 2, pr_thr)) return EAGAIN;
  bool reused;
  Thr* t = new_thr(fn, arg, reused);
  u32 own = t->vc.c[t->id];
  vc_join(t->vc, cur->vc);
  t->vc.c[t->id] = own;
  t->cct = cct_child(0, static_cast<u32>(reinterpret_cast<uintptr_t>(PC)));
  tick(cur);
  if (!reused) start_real(t);
  *out = t->real;
  trace("thread t%d created", t->id);
  major(21, static_cast<u64>(t->id));
  return 0;
}
static Thr* find_thr(pthread_t p)
{
  for (int i = 0; i < g_nthr; ++i) if (g_thr[i].real == p) return &g_thr[i];
  return nullptr;
}
EXP int pthread_join(pthread_t p, void** ret)
{
  if (!live()) { real(real_pthread_join, "pthread_join"); return real_pthread_join(p, ret); }
  Thr* t = find_thr(p);
  if (!t || t->joined || t->detached) return EINVAL;
  if (t == cur) return EDEADLK;
  major(22, static_cast<u64>(t->id));
  while (t->st != FIN) {
    cur->st = B_JOIN;
    cur->wait_obj = static_cast<uintptr_t>(t->id);
    block(INF);
  }
  vc_acquire(t->vc);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
EXP int pthread_detach(pthread_t p)
{
  if (!live()) return 0;
  Thr* t = find_thr(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
EXP int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  rt_set(m, 0, sizeof *m);
  int type = 0;
  if (a) pthread_mutexattr_gettype(a, &type);
  reinterpret_cast<MRaw*>(m)->kind = type;
  return 0;
}
EXP int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (!live()) return 0;
  Mtx* x = mtx_of(m);
  if (x->owner != -1 || x->nwait) VIOLATION("destroyed-in-use:mutex", "a mutex was destroyed while held or waited for");
  return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!live()) return 0;
  check_freed(m, "mutex lock");
  Mtx* x = mtx_of(m);
  major(5, oid(x));
  if (x->owner == cur->id) {
    if (x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    std::string s = site(0, cur->cct);
    VIOLATION("self-deadlock:" + s, "a thread locks a mutex that it already holds\n" + stack_text(0, cur->cct));
  }
  lock_loop(x);
  return 0;
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!live()) return 0;
  Mtx* x = mtx_of(m);
  major(6, oid(x));
  if (x->owner == cur->id && x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
  if (x->owner != -1) return EBUSY;
  x->owner = cur->id;
  x->count = 1;
  vc_acquire(x->vc);
  return 0;
}
static int timedlock(pthread_mutex_t* m, u64 dl)
{
  Mtx* x = mtx_of(m);
  major(6, oid(x));
  if (x->owner == cur->id && x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
  return lock_until(x, dl) ? 0 : ETIMEDOUT;
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { if (!live()) return 0; return timedlock(m, abs_mono(ts, true)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { if (!live()) return 0; return timedlock(m, abs_mono(ts, c == CLOCK_REALTIME)); }
EXP int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if (!live()) return 0;
  check_freed(m, "mutex unlock");
  Mtx* x = mtx_of(m);
  unlock(x);
  major(7, oid(x));
  return 0;
}
EXP int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { rt_set(c, 0, sizeof *c); return 0; }
EXP int pthread_cond_destroy(pthread_cond_t* c)
{
  if (!live()) return 0;
  auto r = reinterpret_cast<MRaw*>(c);
  if (r->magic == MAGIC) {
    Cnd* cv = cnd_of(c);
    if (cv->nw) {
      std::string s = site(0, cur->cct);
      VIOLATION("destroyed-in-use:cond:" + s, "a condition variable was destroyed while a thread waits on it\n" + stack_text(0, cur->cct));
    }
    r->magic = 0;
  }
  return 0;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!live()) return 0; return cond_wait_impl(c, m, INF); }
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{ if (!live()) return 0; return cond_wait_impl(c, m, abs_mono(ts, true)); }
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts)
{ if (!live()) return 0; return cond_wait_impl(c, m, abs_mono(ts, ck == CLOCK_REALTIME)); }
EXP int pthread_cond_signal(pthread_cond_t* c) { if (!live()) return 0; return cond_wake(c, false); }
EXP int pthread_cond_broadcast(pthread_cond_t* c) { if (!live()) return 0; return cond_wake(c, true); }

EXP int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { rt_set(l, 0, sizeof *l); return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return live() ? rw_lock(l, false, false) : 0; }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return live() ? rw_lock(l, true, false) : 0; }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return live() ? rw_lock(l, false, true) : 0; }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return live() ? rw_lock(l, true, true) : 0; }
EXP int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { return live() ? rw_lock(l, false, false, abs_mono(t, true)) : 0; }
EXP int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { return live() ? rw_lock(l, true, false, abs_mono(t, true)) : 0; }
EXP int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { return live() ? rw_lock(l, false, false, abs_mono(t, c == CLOCK_REALTIME)) : 0; }
EXP int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { return live() ? rw_lock(l, true, false, abs_mono(t, c == CLOCK_REALTIME)) : 0; }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if (!live()) return 0;
  Rw* r = rw_of(l);
  if (r->writer == cur->id) { vc_release(r->vc); r->writer = -1; }
  else if (r->readers > 0) { vc_release(r->rvc); r->readers--; }
  else VIOLATION("mutex-misuse", "shared mutex unlocked but not held");
  wake_obj(B_RW, reinterpret_cast<uintptr_t>(r));
  major(32, static_cast<u64>(r - g_rw));
  return 0;
}
EXP int pthread_once(pthread_once_t* o, void (*fn)())
{
  int* s = reinterpret_cast<int*>(o);
  if (!live()) { if (*s == 2) return 0; *s = 1; try { fn(); } catch (...) { *s = 0; throw; } *s = 2; return 0; }
  major(25, 0);
  while (*s == 1) {
    cur->st = B_ONCE;
    cur->wait_obj = reinterpret_cast<uintptr_t>(o);
    block(INF);
  }
  VC* v = sync_at(reinterpret_cast<uintptr_t>(o), true);
  if (*s == 2) { if (v) vc_acquire(*v); return 0; }
  *s = 1;
  try { fn(); }
  catch (...) { *s = 0; wake_obj(B_ONCE, reinterpret_cast<uintptr_t>(o)); throw; }
  *s = 2;
  if (v) vc_release(*v);
  wake_obj(B_ONCE, reinterpret_cast<uintptr_t>(o));
  return 0;
}
EXP int __cxa_guard_acquire(long long int* g)
{
  u8* b = reinterpret_cast<u8*>(g);
  if (!live()) { if (b[0]) return 0; b[1] = 1; return 1; }
  if (!cur->quiet) major(26, 0);
  VC* v = sync_at(reinterpret_cast<uintptr_t>(g), true);
  while (b[1] && !b[0]) {
    if (static_cast<int>(b[2]) == cur->id + 1) VIOLATION("recursive-init", "recursive initialisation of a function-local static");
    cur->st = B_ONCE;
    cur->wait_obj = reinterpret_cast<uintptr_t>(g);
    block(INF);
  }
  if (b[0]) { if (v) vc_acquire(*v); return 0; }
  b[1] = 1;
  b[2] = static_cast<u8>(cur->id + 1);
  return 1;
}
EXP void __cxa_guard_release(long long int* g)
{
  u8* b = reinterpret_cast<u8*>(g);
  b[0] = 1; b[1] = 0; b[2] = 0;
  if (!live()) return;
  if (VC* v = sync_at(reinterpret_cast<uintptr_t>(g), true)) vc_release(*v);
  wake_obj(B_ONCE, reinterpret_cast<uintptr_t>(g));
}
EXP void __cxa_guard_abort(long long int* g)
{
  u8* b = reinterpret_cast<u8*>(g);
  b[1] = 0; b[2] = 0;
  if (live()) wake_obj(B_ONCE, reinterpret_cast<uintptr_t>(g));
}
static void fill(timespec* ts, i64 ns) { ts->tv_sec = ns / 1000000000ll; ts->tv_nsec = ns % 1000000000ll; }
EXP int clock_gettime(clockid_t c, timespec* ts)
{
  if (!live()) return static_cast<int>(raw_syscall6(SYS_clock_gettime, c, reinterpret_cast<long>(ts), 0, 0, 0, 0));
  major(27, 0);
  bool wall = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  fill(ts, static_cast<i64>(g_now) + (wall ? g_wall_off : 0));
  return 0;
}
EXP int gettimeofday(timeval* tv, void*)
{
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXP time_t time(time_t* t)
{
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
EXP int nanosleep(const timespec* ts, timespec*)
{
  if (!live()) return static_cast<int>(raw_syscall6(SYS_nanosleep, reinterpret_cast<long>(ts), 0, 0, 0, 0, 0));
  sim::sleep_ns(static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec));
  return 0;
}
EXP int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* r)
{
  if (!live()) return static_cast<int>(raw_syscall6(SYS_clock_nanosleep, c, flags, reinterpret_cast<long>(ts), reinterpret_cast<long>(r), 0, 0));
  if (flags & TIMER_ABSTIME) {
    u64 d = abs_mono(ts, c == CLOCK_REALTIME);
    sim::sleep_ns(d > g_now ? d - g_now : 1);
  } else sim::sleep_ns(static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec));
  return 0;
}
EXP int usleep(useconds_t us) { if (!live()) return 0; sim::sleep_ns(static_cast<u64>(us) * 1000); return 0; }
EXP unsigned sleep(unsigned s) { if (!live()) return 0; sim::sleep_ns(static_cast<u64>(s) * 1000000000ull); return 0; }
EXP int sched_yield()
{
  if (!live()) return 0;
  Thr* t = cur;
  ++t->ev; ++g_steps; g_now += 1000;
  check_caps();
  if (g_now > g_time_cap) VIOLATION("no-progress", "the run did not finish within its bound of virtual time");
  Thr* l[MAXT];
  int n = collect(l);
  if (n == 1) return 0;
  if (st_kind == 1) t->prio = st_low--;
  else if (g_mode == M_SEARCH) {
    Thr* o = l[g_rng.below(static_cast<u32>(n))];
    if (o != t) { record(K_SWITCH, t->id, t->ev, static_cast<u64>(o->id)); go(o); }
    return 0;
  }
  go(choose(l, n, true));
  return 0;
}
EXP long syscall(long n, ...)
{
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && live()) {
    int op = static_cast<int>(b) & FUTEX_CMD_MASK;
    int* addr = reinterpret_cast<int*>(a);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      u64 dl = INF;
      auto ts = reinterpret_cast<const timespec*>(d);
      if (ts) {
        if (op == FUTEX_WAIT) dl = g_now + static_cast<u64>(ts->tv_sec) * 1000000000ull + static_cast<u64>(ts->tv_nsec);
        else dl = abs_mono(ts, (static_cast<int>(b) & FUTEX_CLOCK_REALTIME) != 0);
      }
      major(40, 0);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(c)) { errno = EAGAIN; return -1; }
      cur->st = B_FUTEX;
      cur->wait_obj = static_cast<uintptr_t>(a);
      cur->timed_out = false;
      block(dl);
      if (cur->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      major(41, 0);
      int k = 0;
      for (int i = 0; i < g_nthr && k < c; ++i)
        if (g_thr[i].st == B_FUTEX && g_thr[i].wait_obj == static_cast<uintptr_t>(a)) { g_thr[i].st = RUN; g_thr[i].deadline = INF; g_thr[i].timed_out = false; ++k; }
      return k;
    }
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}
// ---- semaphores (for completeness) -------------------------------------------------------------
EXP int sem_init(sem_t* s, int, unsigned v) { *reinterpret_cast<int*>(s) = static_cast<int>(v); return 0; }
EXP int sem_destroy(sem_t*) { return 0; }
EXP int sem_post(sem_t* s)
{
  ++*reinterpret_cast<int*>(s);
  if (!live()) return 0;
  if (VC* v = sync_at(reinterpret_cast<uintptr_t>(s), true)) vc_release(*v);
  wake_obj(B_FUTEX, reinterpret_cast<uintptr_t>(s));
  major(42, 0);
  return 0;
}
EXP int sem_wait(sem_t* s)
{
  if (!live()) return 0;
  major(43, 0);
  while (*reinterpret_cast<int*>(s) == 0) { cur->st = B_FUTEX; cur->wait_obj = reinterpret_cast<uintptr_t>(s); block(INF); }
  --*reinterpret_cast<int*>(s);
  if (VC* v = sync_at(reinterpret_cast<uintptr_t>(s), true)) vc_acquire(*v);
  return 0;
}

// ---- memory functions called out of line (also from libstdc++) -----------------------------------
namespace
{
inline void range(const void* p, size_t n, u32 fl, void* pc)
{
  if (!live() || cur->quiet || n == 0) return;
  ++cur->ev; ++g_minor;
  if (--g_countdown < 0) minor_slow();
  shadow(reinterpret_cast<uintptr_t>(p), n > 512 ? 512 : n, fl, static_cast<u32>(reinterpret_cast<uintptr_t>(pc)));
}
inline void rep_movsb(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
inline void rep_stosb(void* d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
inline bool from_exe(void* pc) { return reinterpret_cast<uintptr_t>(pc) < 0x80000000ull; }
}
EXP void* memcpy(void* d, const void* s, size_t n)
{
  if (__builtin_expect(g_active, 0)) { range(s, n, 0, PC); range(d, n, 1, PC); }
  rep_movsb(d, s, n);
  return d;
}
EXP void* memmove(void* d, const void* s, size_t n)
{
  if (__builtin_expect(g_active, 0)) { range(s, n, 0, PC); range(d, n, 1, PC); }
  if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) rep_movsb(d, s, n);
  else {
    char* dd = static_cast<char*>(d); const char* ss = static_cast<const char*>(s);
    while (n--) { dd[n] = ss[n]; __asm__ volatile("" ::: "memory"); }
  }
  return d;
}
EXP void* memset(void* d, int c, size_t n)
{
  if (__builtin_expect(g_active, 0)) range(d, n, 1, PC);
  rep_stosb(d, c, n);
  return d;
}
EXP int memcmp(const void* a, const void* b, size_t n)
{
  if (__builtin_expect(g_active, 0)) { range(a, n, 0, PC); range(b, n, 0, PC); }
  auto x = static_cast<const unsigned char*>(a), y = static_cast<const unsigned char*>(b);
  for (size_t i = 0; i < n; ++i) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; __asm__ volatile("" ::: "memory"); }
  return 0;
}
// what clang calls instead of these in instrumented code
EXP void* __tsan_memcpy(void* d, const void* s, size_t n) __attribute__((alias("memcpy")));
EXP void* __tsan_memmove(void* d, const void* s, size_t n) __attribute__((alias("memmove")));
EXP void* __tsan_memset(void* d, int c, size_t n) __attribute__((alias("memset")));
// red-black tree and list primitives live in libstdc++.so: make their writes visible
namespace std
{
struct _Rb_tree_node_base;
namespace
{
void (*r_ins)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
_Rb_tree_node_base* (*r_era)(_Rb_tree_node_base*, _Rb_tree_node_base&);
}
__attribute__((visibility("default"))) void _Rb_tree_insert_and_rebalance(const bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  if (!r_ins) r_ins = reinterpret_cast<decltype(r_ins)>(dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"));
  if (g_active) { range(&h, 32, 1, PC); range(p, 32, 1, PC); }
  r_ins(l, x, p, h);
}
__attribute__((visibility("default"))) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  if (!r_era) r_era = reinterpret_cast<decltype(r_era)>(dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"));
  if (g_active) range(&h, 32, 1, PC);
  return r_era(z, h);
}
}

// ---- files -----------------------------------------------------------------------------------------
namespace
{
bool loud() { return live() && cur->quiet == 0; }
bool io_fault(int kind)
{
  if (!loud()) return false;
  u32 p = static_cast<u32>(g_prog->get(kind == K_IOFAIL ? "f.io" : "f.short"));
  if (!p && g_mode != M_REPLAY) return false;
  return decide(kind, 2, p) != 0;
}
bool in_scratch(const char* p) { return p && (strncmp(p, g_scratch, strlen(g_scratch)) == 0 || p[0] != '/'); }
}
EXP FILE* fopen64(const char* p, const char* m)
{
  static FILE* (*r)(const char*, const char*); real(r, "fopen64");
  if (loud() && in_scratch(p)) {
    major(50, 0);
    if (io_fault(K_IOFAIL)) { errno = (m[0] == 'r') ? EIO : ENOSPC; return nullptr; }
  }
  return r(p, m);
}
EXP FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
EXP ssize_t write(int fd, const void* b, size_t n)
{
  if (loud() && fd > 2) {
    major(51, 0);
    if (io_fault(K_IOSHORT) && n > 1) {
      size_t k = n / 2;
      long r = raw_syscall6(SYS_write, fd, reinterpret_cast<long>(b), static_cast<long>(k), 0, 0, 0);
      if (r < 0) { errno = static_cast<int>(-r); return -1; }
      return r;
    }
    if (io_fault(K_IOFAIL)) { errno = ENOSPC; return -1; }
  }
  long r = raw_syscall6(SYS_write, fd, reinterpret_cast<long>(b), static_cast<long>(n), 0, 0, 0);
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return r;
}
EXP ssize_t writev(int fd, const iovec* v, int n)
{
  if (loud() && fd > 2) {
    major(51, 0);
    if (io_fault(K_IOFAIL)) { errno = ENOSPC; return -1; }
  }
  long r = raw_syscall6(SYS_writev, fd, reinterpret_cast<long>(v), n, 0, 0, 0);
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return r;
}
EXP ssize_t read(int fd, void* b, size_t n)
{
  if (loud() && fd > 2) {
    major(52, 0);
    if (io_fault(K_IOFAIL)) { errno = EIO; return -1; }
  }
  long r = raw_syscall6(SYS_read, fd, reinterpret_cast<long>(b), static_cast<long>(n), 0, 0, 0);
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return r;
}
EXP int mkdir(const char* p, mode_t m)
{
  if (live() && !in_scratch(p)) VIOLATION("harness:mkdir-outside-scratch", format("mkdir(%s) outside the scratch directory", p));
  if (loud()) {
    major(53, 0);
    u32 pf = static_cast<u32>(g_prog->get("f.mkdir"));
    u32 v = decide(K_IOFAIL, 4, pf);
    if (v == 1) { errno = EACCES; return -1; }
    if (v == 2) { errno = ENOSPC; return -1; }
    if (v == 3) { errno = EIO; return -1; }
  }
  long r = raw_syscall6(SYS_mkdir, reinterpret_cast<long>(p), m, 0, 0, 0, 0);
  if (loud()) { trace("mkdir(%s) = %ld", p, r); major(54, 0); }
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return 0;
}
EXP int rmdir(const char* p)
{
  if (live() && !in_scratch(p)) VIOLATION("harness:rmdir-outside-scratch", format("rmdir(%s)", p));
  if (loud()) major(55, 0);
  long r = raw_syscall6(SYS_rmdir, reinterpret_cast<long>(p), 0, 0, 0, 0, 0);
  if (r < 0) { errno = static_cast<int>(-r); return -1; }
  return 0;
}

// ================================================================================================
// Instrumentation runtime
// ================================================================================================
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void* pc)
{
  if (!live()) return;
  Thr* t = cur;
  if (t->depth < MAXDEPTH) t->stack[t->depth] = t->cct;
  t->depth++;
  t->cct = cct_child(t->cct, static_cast<u32>(reinterpret_cast<uintptr_t>(pc)) - 1);
}
EXP void __tsan_func_exit()
{
  if (!live()) return;
  Thr* t = cur;
  if (t->depth > 0) { t->depth--; if (t->depth < MAXDEPTH) t->cct = t->stack[t->depth]; }
}
#define RW(N) \
  EXP void __tsan_read##N(void* a) { access(a, N, 0, PC); } \
  EXP void __tsan_write##N(void* a) { access(a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N) \
  EXP void __tsan_unaligned_read##N(void* a) { access(a, N, 0, PC); } \
  EXP void __tsan_unaligned_write##N(void* a) { access(a, N, 1, PC); }
URW(2) URW(4) URW(8) URW(16)
EXP void __tsan_read_range(void* a, unsigned long n) { range(a, n, 0, PC); }
EXP void __tsan_write_range(void* a, unsigned long n) { range(a, n, 1, PC); }
EXP void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, 1, PC); else access(a, 8, 0, PC); }
EXP void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
namespace
{
inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
inline void atomic_pre(const volatile void* a, size_t n, u32 fl, void* pc)
{
  if (!live() || cur->quiet) return;
  major(60, 0);
  shadow(reinterpret_cast<uintptr_t>(a), n, fl | 2, static_cast<u32>(reinterpret_cast<uintptr_t>(pc)));
}
inline void hb_load(const volatile void* a, int mo)
{
  if (!live()) return;
  if (acq(mo)) if (VC* v = sync_at(reinterpret_cast<uintptr_t>(a), false)) vc_acquire(*v);
}
inline void hb_store(const volatile void* a, int mo)
{
  if (!live()) return;
  if (rel(mo)) { if (VC* v = sync_at(reinterpret_cast<uintptr_t>(a), true)) vc_release(*v); }
}
inline void hb_rmw(const volatile void* a, int mo)
{
  if (!live()) return;
  hb_load(a, mo);
  hb_store(a, mo);
}
}
#define ATOMIC(N, T) \
  EXP T __tsan_atomic##N##_load(const volatile T* a, int mo) \
  { atomic_pre(a, sizeof(T), 0, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); hb_load(a, mo); return v; } \
  EXP void __tsan_atomic##N##_store(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) \
  { atomic_pre(a, sizeof(T), 1, PC); hb_rmw(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXP int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
  { atomic_pre(a, sizeof(T), 1, PC); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) hb_rmw(a, mo); else hb_load(a, fmo); return ok; } \
  EXP int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) \
  { atomic_pre(a, sizeof(T), 1, PC); \
    if (live() && (pr_cas || g_mode == M_REPLAY) && decide(K_CASWEAK, 2, pr_cas)) { *e = __atomic_load_n(a, __ATOMIC_SEQ_CST); hb_load(a, fmo); return 0; } \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) hb_rmw(a, mo); else hb_load(a, fmo); return ok; } \
  EXP T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) \
  { atomic_pre(a, sizeof(T), 1, PC); T x = e; bool ok = __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) hb_rmw(a, mo); else hb_load(a, fmo); return x; }
ATOMIC(8, u8)
ATOMIC(16, unsigned short)
ATOMIC(32, u32)
ATOMIC(64, unsigned long)
EXP void __tsan_atomic_thread_fence(int mo)
{
  if (!live()) return;
  major(61, 0);
  if (acq(mo)) vc_acquire(g_fence);
  if (rel(mo)) vc_release(g_fence);
}
EXP void __tsan_atomic_signal_fence(int) {}
