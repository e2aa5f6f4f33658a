// Deterministic simulation runtime: public interface for harnesses and driver.
#ifndef VERIF_SIM_RT_H_
#define VERIF_SIM_RT_H_
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---- PRNG: the only source of randomness in a run --------------------------------------------
struct Rng
{
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next()
  {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n == 0 ? 0 : static_cast<u32>((next() >> 32) * n >> 32); }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<u32>(hi - lo + 1))); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---- Programs: what a run executes, generated before the run and shrinkable --------------------
struct Op
{
  int code = 0;
  long a[4] = {0, 0, 0, 0};
};
struct Node  // generic tree node (behaviour trees)
{
  int parent = -1;
  int kind = 0;
  long a[6] = {0, 0, 0, 0, 0, 0};
};
struct Prog
{
  std::map<std::string, long> p;          // parameters (including strategy and enabled faults)
  std::vector<std::vector<Op>> th;        // operations per client thread
  std::vector<Node> tree;
  long get(const char* k, long d = 0) const;
  std::string serialize() const;
  static bool parse(const std::string& s, Prog& out);
};

// ---- Fault / decision kinds ---------------------------------------------------------------------
enum Kind : int
{
  K_SWITCH = 0,    // context switch away from the default choice
  K_STALL,         // thread stalled for a virtual time
  K_SPURIOUS,      // spurious condition variable wake-up
  K_SIGNAL_PICK,   // which waiter a notify_one wakes
  K_CASWEAK,       // spurious failure of a weak compare-exchange
  K_THREADFAIL,    // thread creation fails (EAGAIN)
  K_ALLOCFAIL,     // allocation fails
  K_CLOCKJUMP,     // wall clock jump
  K_IOFAIL,        // file operation fails
  K_IOSHORT,       // short/torn write
  K_USER0,         // harness-defined faults from here
  K_USER1, K_USER2, K_USER3, K_USER4, K_USER5, K_USER6, K_USER7, K_USER8, K_USER9,
  K_COUNT
};
extern const char* kind_name[K_COUNT];
void name_kind(int kind, const char* name);

struct Override { u8 kind; u8 tid; u8 pad[6]; u64 idx; u64 val; };

// ---- In-run interface -----------------------------------------------------------------------------
// Decide a fault: default is 0 (no fault). prob_ppm is the probability per decision of a nonzero
// value, which is then uniform in [1, n).
u32 decide(int kind, u32 n, u32 prob_ppm);
inline bool fault(int kind, u32 prob_ppm) { return decide(kind, 2, prob_ppm) != 0; }
[[noreturn]] void fail(const std::string& cls, const std::string& msg);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(u64 h);                 // mix into the history hash
u64 now();                      // virtual monotonic nanoseconds
u64 steps();                    // major scheduling points so far
int tid();                      // current simulated thread, 0 is the harness main thread
bool active();
void yield_point();             // explicit scheduling point
void sleep_ns(u64 ns);          // virtual sleep
// Events are what a run makes known about its progress (a report, the start or end of an instruction). A thread can
// wait for the n-th event from now; it is true if that came before the time was over.
void bump();
bool wait_bumps(u64 n, u64 ns);
void quiet(int delta);
void nontrivial();              // this run exercised what the property is about
void count(const char* name, u64 n = 1);  // coverage counter
u64 faults_seen(int kind);      // faults of that kind injected so far
void set_step_cap(u64 n);
void set_time_cap(u64 ns);
void faults_on();
void faults_off();              // stop injecting faults (for liveness phases)
void race_detection(bool on);
bool deadlock_hook(void (*fn)()); // called on deadlock before it is reported
int live_threads();             // created, not finished (excluding the harness main thread)
bool thread_blocked_forever(int tid);
void release_mark(const void* a);  // manual happens-before edges for harness plumbing
void acquire_mark(const void* a);
struct Quiet { Quiet() { quiet(1); } ~Quiet() { quiet(-1); } Quiet(const Quiet&) = delete; };
// Allocations may be made to fail only inside such a scope (and outside Quiet ones).
void may_fail(int delta);
struct MayFail { MayFail() { may_fail(1); } ~MayFail() { may_fail(-1); } MayFail(const MayFail&) = delete; };
std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
const char* scratch_dir();      // private scratch directory of this worker
const Prog& prog();

// ---- Harness registry ----------------------------------------------------------------------------
struct Harness
{
  const char* id;               // property
  const char* what;             // one line: what a run does
  const char* rule;             // what makes a run non-trivial
  void (*gen)(Prog&, Rng&);
  void (*run)(const Prog&);
  std::vector<std::string> real;  // components that run real code
  std::vector<std::string> stub;  // components that are stand-ins
  std::vector<std::string> keep = {};  // params that the shrinker must not touch
  void (*fixup)(Prog&) = nullptr;      // repairs a shrunk program
  void (*prepare)() = nullptr;         // once, before the first run
};
void register_harness(const Harness& h);
const std::vector<Harness>& harnesses();
struct Reg { explicit Reg(const Harness& h) { register_harness(h); } };

// Standard swarm: scheduler strategy and generic faults.
void gen_strategy(Prog& p, Rng& r);

// ---- Driver side -------------------------------------------------------------------------------------
struct Result
{
  volatile int verdict;          // 0 none, 1 pass, 2 fail, 3 known (recorded and passed on)
  char cls[256];
  char msg[6144];
  char trace[49152];
  u32 trace_len;
  u64 hist_hash, inter_hash, steps, minor, vtime, switches, preempts;
  u64 faults[K_COUNT];
  u32 n_threads, nontrivial;
  u32 n_over;
  u32 over_lost;
  Override over[16384];
  u32 n_counters;
  struct { char name[40]; u64 v; } counters[48];
  u32 n_known;
  char known[8][256];
  u32 prog_len;
  char prog[16384];
};
enum Mode { M_SEARCH, M_REPLAY };
void set_known(const std::vector<std::string>& cls_patterns);
bool known_match(const char* cls);
extern const char* g_prop;
// Runs one simulation in the calling (forked) process; never returns.
[[noreturn]] void run_in_child(const Harness& h, const Prog& p, u64 seed, Mode mode,
                               const std::vector<Override>& ov, Result* res, bool tracing);
void init_runtime();            // once, in the template process
void set_scratch(const char* dir);
void driver_heap(bool on);     // memory of the driver itself, apart from the simulated heap
}  // namespace sim
#endif
