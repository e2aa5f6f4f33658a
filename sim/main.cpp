// Driver: searches seeds in parallel worker processes, gates and minimises what it finds, replays.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <set>
#include <sstream>

using namespace sim;

namespace sim
{
const char* g_prop = "";
static std::vector<Harness>& reg() { static std::vector<Harness> v; return v; }
void register_harness(const Harness& h) { reg().push_back(h); }
const std::vector<Harness>& harnesses() { return reg(); }

std::string Prog::serialize() const
{
  std::string s;
  char b[256];
  for (auto& kv : p) { snprintf(b, sizeof b, "param %s %ld\n", kv.first.c_str(), kv.second); s += b; }
  for (auto& t : th) {
    s += "thread\n";
    for (auto& o : t) { snprintf(b, sizeof b, "op %d %ld %ld %ld %ld\n", o.code, o.a[0], o.a[1], o.a[2], o.a[3]); s += b; }
  }
  for (auto& n : tree) {
    snprintf(b, sizeof b, "node %d %d %ld %ld %ld %ld %ld %ld\n", n.parent, n.kind, n.a[0], n.a[1], n.a[2], n.a[3], n.a[4], n.a[5]);
    s += b;
  }
  return s;
}
bool Prog::parse(const std::string& s, Prog& out)
{
  out = Prog{};
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) {
    char name[128];
    long v;
    if (line.empty()) continue;
    if (sscanf(line.c_str(), "param %127s %ld", name, &v) == 2) out.p[name] = v;
    else if (line == "thread") out.th.emplace_back();
    else if (line.compare(0, 3, "op ") == 0) {
      Op o;
      if (out.th.empty() || sscanf(line.c_str(), "op %d %ld %ld %ld %ld", &o.code, &o.a[0], &o.a[1], &o.a[2], &o.a[3]) != 5) return false;
      out.th.back().push_back(o);
    } else if (line.compare(0, 5, "node ") == 0) {
      Node n;
      if (sscanf(line.c_str(), "node %d %d %ld %ld %ld %ld %ld %ld", &n.parent, &n.kind, &n.a[0], &n.a[1], &n.a[2], &n.a[3], &n.a[4], &n.a[5]) != 8) return false;
      out.tree.push_back(n);
    } else return false;
  }
  return true;
}
}  // namespace sim

namespace
{
double wall()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}
u64 mix64(u64 a, u64 b)
{
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x2545F4914F6CDD1Dull));
  r.next();
  return r.next() ^ (b << 1);
}
u64 hash_str(const std::string& s)
{
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
std::vector<int> g_cpus;
void pin(int slot)
{
  if (g_cpus.empty()) return;
  cpu_set_t s;
  CPU_ZERO(&s);
  CPU_SET(g_cpus[static_cast<size_t>(slot) % g_cpus.size()], &s);
  sched_setaffinity(0, sizeof s, &s);
}
template <class T> T* shm(size_t n = 1)
{
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<T*>(p);
}
void reset(Result* r)
{
  r->verdict = 0; r->cls[0] = 0; r->msg[0] = 0; r->trace_len = 0;
  r->hist_hash = r->inter_hash = r->steps = r->minor = r->vtime = r->switches = r->preempts = 0;
  memset(r->faults, 0, sizeof r->faults);
  r->n_threads = r->nontrivial = 0; r->n_over = 0; r->over_lost = 0; r->n_counters = 0; r->n_known = 0; r->prog_len = 0;
}
const Harness* g_h;
u64 g_seed = 1;
std::string g_scratch_root;

void wipe_scratch(const char* d)  // removes the files a run left in its private scratch directory
{
  std::string cmd = d;
  pid_t p = fork();
  if (p == 0) { execl("/usr/bin/find", "find", d, "-mindepth", "1", "-delete", static_cast<char*>(nullptr)); _exit(1); }
  int st;
  waitpid(p, &st, 0);
}
u64 run_seed(u64 index) { return mix64(mix64(g_seed, hash_str(g_h->id)), index); }

// Forks one simulated run. gen: generate from seed (prog ignored) or use the program given.
pid_t launch(const Prog* prog, u64 seed, Mode mode, const std::vector<Override>* ov, Result* res, bool tracing, int slot)
{
  reset(res);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    alarm(10);
    pin(slot);
    char d[300];
    snprintf(d, sizeof d, "%s/w%02d", g_scratch_root.c_str(), slot);
    set_scratch(d);
    Prog pr;
    Rng g(seed);
    if (prog) pr = *prog;
    else g_h->gen(pr, g);
    static const std::vector<Override> none;
    run_in_child(*g_h, pr, mix64(seed, 77), mode, ov ? *ov : none, res, tracing);
  }
  return p;
}
void settle(Result* r, int st)
{
  if (r->verdict != 0) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r->verdict = 5;
  else {
    snprintf(r->cls, sizeof r->cls, "harness:child-died");
    snprintf(r->msg, sizeof r->msg, "the simulated process ended without a verdict (wait status %#x)", st);
    r->verdict = 4;
  }
}
void run_one(const Prog* prog, u64 seed, Mode mode, const std::vector<Override>* ov, Result* res, bool tracing, int slot)
{
  pid_t p = launch(prog, seed, mode, ov, res, tracing, slot);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  settle(res, st);
}
struct Job { Prog prog; u64 seed; Mode mode; std::vector<Override> ov; };
Result* g_pool;
int g_workers = 8;
// Runs jobs in parallel until one has the class wanted; returns the lowest such index, or -1.
// The result is left in *out.
int first_match(const std::vector<Job>& jobs, const std::string& cls, Result* out, double until)
{
  size_t next = 0;
  int found = -1;
  std::vector<std::pair<pid_t, size_t>> slot(static_cast<size_t>(g_workers), {0, 0});
  int live = 0;
  while (true) {
    for (size_t i = 0; i < slot.size(); ++i)
      if (slot[i].first == 0 && next < jobs.size() && found < 0 && wall() < until) {
        auto& j = jobs[next];
        pid_t p = launch(&j.prog, j.seed, j.mode, &j.ov, &g_pool[i], false, static_cast<int>(i));
        slot[i] = {p, next++};
        ++live;
      }
    if (live == 0) break;
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (size_t i = 0; i < slot.size(); ++i)
      if (slot[i].first == p) {
        settle(&g_pool[i], st);
        if (g_pool[i].verdict == 2 && cls == g_pool[i].cls && (found < 0 || static_cast<int>(slot[i].second) < found)) {
          found = static_cast<int>(slot[i].second);
          memcpy(static_cast<void*>(out), &g_pool[i], sizeof(Result));
        }
        slot[i].first = 0;
        --live;
      }
  }
  return found;
}
std::vector<Override> overrides(const Result* r) { return {r->over, r->over + r->n_over}; }

// ---- minimisation ---------------------------------------------------------------------------------------
struct Failure { Prog prog; u64 seed; std::vector<Override> ov; std::string cls, msg; u64 hist; };

bool replays(const Failure& f, const std::vector<Override>& ov, Result* r)
{
  run_one(&f.prog, f.seed, M_REPLAY, &ov, r, false, 0);
  return r->verdict == 2 && f.cls == r->cls;
}
std::vector<Prog> candidates(const Prog& p)
{
  std::vector<Prog> c;
  for (size_t i = 0; i < p.th.size(); ++i)
    if (p.th.size() > 1 && !p.th[i].empty()) { Prog q = p; q.th[i].clear(); c.push_back(q); }
  for (size_t i = 0; i < p.th.size(); ++i) {
    size_t n = p.th[i].size();
    if (n > 2) {
      Prog q = p; q.th[i].resize(n / 2); c.push_back(q);
      q = p; q.th[i].erase(q.th[i].begin(), q.th[i].begin() + static_cast<long>(n / 2)); c.push_back(q);
    }
    for (size_t k = n; k-- > 0;) { Prog q = p; q.th[i].erase(q.th[i].begin() + static_cast<long>(k)); c.push_back(q); }
  }
  // remove a subtree
  for (size_t i = p.tree.size(); i-- > 1;) {
    std::vector<bool> dead(p.tree.size(), false);
    dead[i] = true;
    for (size_t k = i + 1; k < p.tree.size(); ++k) if (p.tree[k].parent >= 0 && dead[static_cast<size_t>(p.tree[k].parent)]) dead[k] = true;
    Prog q = p;
    q.tree.clear();
    std::vector<int> map(p.tree.size(), -1);
    for (size_t k = 0; k < p.tree.size(); ++k)
      if (!dead[k]) { map[k] = static_cast<int>(q.tree.size()); Node n = p.tree[k]; if (n.parent >= 0) n.parent = map[static_cast<size_t>(n.parent)]; q.tree.push_back(n); }
    c.push_back(q);
  }
  for (auto& kv : p.p)
    if (kv.first.compare(0, 2, "f.") == 0 && kv.second) { Prog q = p; q.p[kv.first] = 0; c.push_back(q); }
  for (auto& kv : p.p) {
    if (kv.first.compare(0, 2, "n.") != 0 || kv.second <= 0) continue;
    for (long v : {kv.second / 2, kv.second - 1}) { Prog q = p; q.p[kv.first] = v; c.push_back(q); }
  }
  return c;
}
void minimise(Failure& f, Result* r, double until)
{
  // 1. the program: keep a smaller one whenever some schedule of it still fails the same way
  bool progress = true;
  while (progress && wall() < until) {
    progress = false;
    for (auto& c : candidates(f.prog)) {
      if (wall() > until) break;
      Prog q = c;
      if (g_h->fixup) g_h->fixup(q);
      if (q.serialize() == f.prog.serialize()) continue;
      std::vector<Job> jobs;
      jobs.push_back(Job{q, f.seed, M_REPLAY, f.ov});
      for (u64 k = 0; k < 48; ++k) jobs.push_back(Job{q, mix64(f.seed, 1000 + k), M_SEARCH, {}});
      int i = first_match(jobs, f.cls, r, until);
      if (i < 0) continue;
      f.prog = q;
      f.ov = overrides(r);
      f.msg = r->msg;
      progress = true;
      break;
    }
  }
  // 2. the schedule and fault trace: delta debugging over the recorded deviations
  if (!replays(f, f.ov, r)) return;
  size_t chunk = f.ov.size() / 2;
  if (chunk == 0) chunk = 1;
  while (!f.ov.empty() && wall() < until) {
    bool removed = false;
    for (size_t i = 0; i < f.ov.size() && wall() < until;) {
      std::vector<Job> jobs;
      std::vector<size_t> at;
      for (size_t k = i; k < f.ov.size() && jobs.size() < static_cast<size_t>(g_workers); k += chunk) {
        auto ov = f.ov;
        ov.erase(ov.begin() + static_cast<long>(k), ov.begin() + static_cast<long>(std::min(k + chunk, ov.size())));
        jobs.push_back(Job{f.prog, f.seed, M_REPLAY, ov});
        at.push_back(k);
      }
      int m = first_match(jobs, f.cls, r, until);
      if (m >= 0) { f.ov = jobs[static_cast<size_t>(m)].ov; i = at[static_cast<size_t>(m)]; removed = true; }
      else i += chunk * jobs.size();
    }
    if (chunk == 1) { if (!removed) break; }
    else chunk /= 2;
  }
}
bool write_replay(const std::string& path, const Failure& f, const Result* r)
{
  FILE* o = fopen(path.c_str(), "w");
  if (!o) return false;
  fprintf(o, "# Replay of a violation found by deterministic simulation; run: /verif/check --replay %s\n", path.c_str());
  fprintf(o, "property %s\nclass %s\nhash %016llx\n", g_h->id, f.cls.c_str(), static_cast<unsigned long long>(r->hist_hash));
  fprintf(o, "--- program\n%s--- decisions (kind thread index value): everything else is the default choice\n", f.prog.serialize().c_str());
  for (auto& v : f.ov) fprintf(o, "%s %d %llu %llu\n", kind_name[v.kind], v.tid, static_cast<unsigned long long>(v.idx), static_cast<unsigned long long>(v.val));
  fprintf(o, "--- message\n%s\n--- trace\n%.*s", r->msg, static_cast<int>(r->trace_len), r->trace);
  fclose(o);
  return true;
}
// What every run needs (e.g. the library's registries of built-in types) is made once, before the first run, without
// faults. Tries that in a process of its own; what goes wrong, if anything.
std::string start_up()
{
  if (!g_h->prepare) return "";
  int fd[2];
  if (pipe(fd) != 0) return "";
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { close(fd[0]); close(fd[1]); return ""; }
  if (pid == 0) {
    alarm(100);
    driver_heap(false);
    std::string what;
    try { g_h->prepare(); }
    catch (const std::exception& e) { what = std::string("an exception leaves it: ") + e.what(); }
    catch (...) { what = "an exception leaves it"; }
    if (!what.empty() && write(fd[1], what.data(), what.size()) < 0) _exit(8);
    _exit(what.empty() ? 0 : 7);
  }
  close(fd[1]);
  std::string what;
  char b[512];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) what.append(b, static_cast<size_t>(n));
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFSIGNALED(st)) return std::string("it ends by signal ") + strsignal(WTERMSIG(st));
  return what.empty() ? "it ends the process" : what;
}
int replay_file(const char* path)
{
  FILE* in = fopen(path, "r");
  if (!in) { fprintf(stderr, "cannot open %s\n", path); return 2; }
  std::string all;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, in)) > 0) all.append(b, n);
  fclose(in);
  std::istringstream s(all);
  std::string line, prop, cls, progtext, hash;
  std::vector<Override> ov;
  int sec = 0;
  while (std::getline(s, line)) {
    if (line.compare(0, 4, "--- ") == 0) { ++sec; if (sec == 3) break; continue; }
    if (sec == 0) {
      if (line.compare(0, 9, "property ") == 0) prop = line.substr(9);
      if (line.compare(0, 6, "class ") == 0) cls = line.substr(6);
      if (line.compare(0, 5, "hash ") == 0) hash = line.substr(5);
    } else if (sec == 1) progtext += line + "\n";
    else {
      char k[64]; int t; unsigned long long i, v;
      if (sscanf(line.c_str(), "%63s %d %llu %llu", k, &t, &i, &v) != 4) continue;
      for (int q = 0; q < K_COUNT; ++q) if (strcmp(kind_name[q], k) == 0) { ov.push_back(Override{static_cast<u8>(q), static_cast<u8>(t), {}, i, v}); break; }
    }
  }
  for (auto& h : harnesses()) if (prop == h.id) g_h = &h;
  if (!g_h) return 3;  // not in this binary
  Prog p;
  if (!Prog::parse(progtext, p)) { fprintf(stderr, "bad program in %s\n", path); return 2; }
  if (std::string what = start_up(); !what.empty()) {
    printf("before the first run, the library cannot be set up: %s\nclass: start-up\n%s\n", what.c_str(), cls == "start-up" ? "REPRODUCED exactly" : "DIFFERENT violation");
    return 1;
  }
  driver_heap(false);
  if (g_h->prepare) g_h->prepare();
  driver_heap(true);
  Result* r = shm<Result>();
  run_one(&p, 0, M_REPLAY, &ov, r, true, 0);
  printf("%.*s", static_cast<int>(r->trace_len), r->trace);
  if (r->verdict == 2) {
    char h[32];
    snprintf(h, sizeof h, "%016llx", static_cast<unsigned long long>(r->hist_hash));
    printf("%s\nclass: %s\nhistory hash: %s\n%s\n", r->msg, r->cls, h,
           cls == r->cls && hash == h ? "REPRODUCED exactly" : cls == r->cls ? "REPRODUCED (same class)" : "DIFFERENT violation");
    return 1;
  }
  printf("no violation on this tree (verdict %d %s)\n", r->verdict, r->cls);
  return 0;
}

// ---- search ----------------------------------------------------------------------------------------------
struct Shared
{
  u64 next;
  u64 runs, nontrivial, distinct, distinct_all, steps, minor, vtime_us, switches, preempts, threads, failures;
  u64 gate_runs, gate_bad;
  u64 faults[K_COUNT], fault_runs[K_COUNT];
  int stop;
  int harness_error;
  char herr[8192];
  u64 fail_idx[64];
  u64 slow;                    // runs given up without a verdict, because the machine is too busy
  u32 n_fail;
  u64 n_known;
  struct { char cls[256]; u64 n; u64 idx; } known[32];
  struct { char name[40]; u64 v; u64 runs; } counters[96];
  u32 n_counters;
  u32 n_samples;
  struct { u64 idx; u64 steps; u64 vtime; u32 threads, over; u32 len; char prog[1500]; } samples[3];
  int lock;
};
Shared* g_sh;
constexpr u64 HT = 1ull << 23;
u64* g_ht;
u64* g_ht2;
bool ht_add(u64* t, u64 h)
{
  if (h == 0) h = 1;
  u64 i = h & (HT - 1);
  for (int k = 0; k < 256; ++k, i = (i + 1) & (HT - 1)) {
    u64 e = 0;
    if (__atomic_compare_exchange_n(&t[i], &e, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) return true;
    if (e == h) return false;
  }
  return false;
}
void add(u64& a, u64 v) { __atomic_fetch_add(&a, v, __ATOMIC_SEQ_CST); }
void spin() { while (__atomic_exchange_n(&g_sh->lock, 1, __ATOMIC_SEQ_CST)) sched_yield(); }
void unspin() { __atomic_store_n(&g_sh->lock, 0, __ATOMIC_SEQ_CST); }

void worker(int w, u64 target, double until, bool verbose)
{
  pin(w);
  Result* r = shm<Result>();
  Result* r2 = shm<Result>();
  char d[300];
  snprintf(d, sizeof d, "%s/w%02d", g_scratch_root.c_str(), w);
  for (;;) {
    if (__atomic_load_n(&g_sh->stop, __ATOMIC_SEQ_CST) || wall() > until) break;
    u64 idx = __atomic_fetch_add(&g_sh->next, 1, __ATOMIC_SEQ_CST);
    if (idx >= target) break;
    u64 seed = run_seed(idx);
    run_one(nullptr, seed, M_SEARCH, nullptr, r, false, w);
    add(g_sh->runs, 1);
    add(g_sh->steps, r->steps); add(g_sh->minor, r->minor); add(g_sh->vtime_us, r->vtime / 1000);
    add(g_sh->switches, r->switches); add(g_sh->preempts, r->preempts); add(g_sh->threads, r->n_threads);
    for (int k = 0; k < K_COUNT; ++k) { if (r->faults[k]) { add(g_sh->faults[k], r->faults[k]); add(g_sh->fault_runs[k], 1); } }
    if (r->verdict == 4 || strncmp(r->cls, "harness:", 8) == 0) {
      spin();
      g_sh->harness_error = 1;
      snprintf(g_sh->herr, sizeof g_sh->herr, "run %llu: %s %s", static_cast<unsigned long long>(idx), r->cls, r->msg);
      g_sh->stop = 1;
      unspin();
      break;
    }
    u64 ph = hash_str(std::string(r->prog, r->prog_len));
    if (ht_add(g_ht2, mix64(r->inter_hash, ph))) add(g_sh->distinct_all, 1);
    if (r->nontrivial) {
      add(g_sh->nontrivial, 1);
      if (ht_add(g_ht, mix64(r->inter_hash, ph))) {
        add(g_sh->distinct, 1);
        if (g_sh->n_samples < 3) {
          spin();
          if (g_sh->n_samples < 3) {
            auto& s = g_sh->samples[g_sh->n_samples++];
            s.idx = idx; s.steps = r->steps; s.vtime = r->vtime; s.threads = r->n_threads; s.over = r->n_over;
            s.len = std::min<u32>(r->prog_len, sizeof s.prog);
            memcpy(s.prog, r->prog, s.len);
          }
          unspin();
        }
      }
    }
    if (r->n_counters) {
      spin();
      for (u32 i = 0; i < r->n_counters; ++i) {
        u32 k = 0;
        while (k < g_sh->n_counters && strcmp(g_sh->counters[k].name, r->counters[i].name) != 0) ++k;
        if (k == g_sh->n_counters) { if (k >= 96) continue; memcpy(g_sh->counters[k].name, r->counters[i].name, 40); g_sh->n_counters++; }
        g_sh->counters[k].v += r->counters[i].v;
        g_sh->counters[k].runs++;
      }
      unspin();
    }
    if (r->verdict == 5) add(g_sh->slow, 1);
    if (r->verdict == 3) {
      spin();
      g_sh->n_known++;
      int k = 0;
      while (k < 32 && g_sh->known[k].cls[0] && strcmp(g_sh->known[k].cls, r->cls) != 0) ++k;
      if (k < 32) { if (!g_sh->known[k].cls[0]) { memcpy(g_sh->known[k].cls, r->cls, 256); g_sh->known[k].idx = idx; } g_sh->known[k].n++; }
      unspin();
    }
    if (r->verdict == 2) {
      if (verbose) { spin(); printf("run %llu: %s\n%s\n", static_cast<unsigned long long>(idx), r->cls, r->msg); fflush(stdout); unspin(); }
      spin();
      g_sh->failures++;
      if (g_sh->n_fail < 64) g_sh->fail_idx[g_sh->n_fail++] = idx;
      if (!verbose) g_sh->stop = 1;
      unspin();
    }
    // determinism gate: a sample of runs is executed twice and must agree event for event
    if (idx % 97 == 5) {
      run_one(nullptr, seed, M_SEARCH, nullptr, r2, false, w);
      add(g_sh->gate_runs, 1);
      bool bad = r2->verdict != 5 && (r->verdict != r2->verdict || r->hist_hash != r2->hist_hash || r->inter_hash != r2->inter_hash || r->steps != r2->steps || r->minor != r2->minor);
      // ... and the recorded deviations alone must reproduce it
      if (!bad && r->over_lost == 0) {
        Prog p;
        Prog::parse(std::string(r->prog, r->prog_len), p);
        auto ov = overrides(r);
        run_one(&p, seed, M_REPLAY, &ov, r2, false, w);
        bad = r2->verdict != 5 && (r->verdict != r2->verdict || r->hist_hash != r2->hist_hash);
      }
      if (bad) { add(g_sh->gate_bad, 1); snprintf(g_sh->herr, sizeof g_sh->herr, "run %llu diverged when repeated", static_cast<unsigned long long>(idx)); }
    }
  }
}
std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}
std::string jlist(const std::vector<std::string>& v)
{
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? ", \"" : "\"") + jesc(v[i]) + "\"";
  return o + "]";
}
void evidence(const char* path, const char* tier, double secs, double total, int violations)
{
  if (!path) return;
  std::string tmp = std::string(path) + ".tmp";
  FILE* o = fopen(tmp.c_str(), "w");
  if (!o) { perror(path); return; }
  auto& s = *g_sh;
  auto U = [](u64 v) { return static_cast<unsigned long long>(v); };
  fprintf(o, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", g_h->id, tier, U(g_seed));
  fprintf(o, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", U(s.runs), U(s.distinct));
  fprintf(o, "  \"rule\": \"%s\",\n", jesc(std::string(g_h->what) + " Each run is one seed of a PRNG derived from VERIF_SEED, the property and the run index; it decides the program, every scheduling choice and every fault. Non-trivial: " + g_h->rule + " Distinct: by hash of the program and of the complete sequence of (thread, synchronisation operation, context switch) events.").c_str());
  fprintf(o, "  \"samples\": [");
  for (u32 i = 0; i < s.n_samples; ++i) {
    auto& p = s.samples[i];
    fprintf(o, "%s\n   {\"run\": %llu, \"scheduling_points\": %llu, \"virtual_ms\": %.3f, \"threads\": %u, \"non_default_decisions\": %u, \"program\": \"%s\"}", i ? "," : "", U(p.idx), U(p.steps), static_cast<double>(p.vtime) / 1e6, p.threads, p.over, jesc(std::string(p.prog, p.len)).c_str());
  }
  fprintf(o, "],\n  \"nontrivial_runs\": %llu,\n  \"distinct_interleavings_all_runs\": %llu,\n", U(s.nontrivial), U(s.distinct_all));
  double hours = secs / 3600;
  fprintf(o, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", static_cast<double>(s.runs) / hours, static_cast<double>(s.runs) / hours);
  fprintf(o, "  \"simulated_seconds\": %.3f,\n  \"scheduling_points\": %llu,\n  \"instrumented_memory_accesses\": %llu,\n  \"context_switches\": %llu,\n  \"preemptions\": %llu,\n  \"mean_threads_per_run\": %.2f,\n",
          static_cast<double>(s.vtime_us) / 1e6, U(s.steps), U(s.minor), U(s.switches), U(s.preempts), s.runs ? static_cast<double>(s.threads) / static_cast<double>(s.runs) : 0.0);
  fprintf(o, "  \"faults_injected\": {");
  bool first = true;
  for (int k = 1; k < K_COUNT; ++k)
    if (s.faults[k]) { fprintf(o, "%s\n   \"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ",", kind_name[k], U(s.faults[k]), U(s.fault_runs[k])); first = false; }
  fprintf(o, "},\n  \"probes\": {");
  for (u32 i = 0; i < s.n_counters; ++i) fprintf(o, "%s\n   \"%s\": {\"times\": %llu, \"runs\": %llu}", i ? "," : "", jesc(s.counters[i].name).c_str(), U(s.counters[i].v), U(s.counters[i].runs));
  fprintf(o, "},\n  \"determinism\": {\"runs_repeated_and_replayed\": %llu, \"divergences\": %llu},\n", U(s.gate_runs), U(s.gate_bad));
  fprintf(o, "  \"known_finding_runs\": %llu,\n  \"runs_given_up_machine_busy\": %llu,\n", U(s.n_known), U(s.slow));
  fprintf(o, "  \"real_code\": %s,\n  \"stand_ins\": %s,\n", jlist(g_h->real).c_str(), jlist(g_h->stub).c_str());
  fprintf(o, "  \"search_wall_s\": %.2f\n },\n", secs);
  fprintf(o, " \"assumptions\": [\"Memory is sequentially consistent in the executions explored; orderings weaker than that are judged by the happens-before race detector only.\", \"Preemption happens at synchronisation operations, atomics and, in part of the runs, at memory accesses of instrumented code (library and harness), not inside the C and C++ runtime.\", \"Runs are sampled: a clean batch is evidence, not proof.\"],\n");
  fprintf(o, " \"wall_s\": %.2f,\n \"violations\": %d\n}\n", total, violations);
  fclose(o);
  rename(tmp.c_str(), path);
}
const char* arg(int c, char** v, const char* n, const char* d)
{
  for (int i = 1; i + 1 < c; ++i) if (strcmp(v[i], n) == 0) return v[i + 1];
  return d;
}
bool flag(int c, char** v, const char* n)
{
  for (int i = 1; i < c; ++i) if (strcmp(v[i], n) == 0) return true;
  return false;
}
}  // namespace

int main(int argc, char** argv)
{
  double t_start = wall();
  init_runtime();
  driver_heap(true);
  {
    cpu_set_t s;
    if (sched_getaffinity(0, sizeof s, &s) == 0)
      for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) g_cpus.push_back(i);
  }
  g_workers = atoi(arg(argc, argv, "--workers", "0"));
  if (g_workers <= 0) g_workers = g_cpus.empty() ? 4 : static_cast<int>(std::min<size_t>(g_cpus.size(), 16));
  g_seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  const char* sc = arg(argc, argv, "--scratch", nullptr);
  char tmpl[] = "/tmp/verif-scratch-XXXXXX";
  if (!sc) sc = mkdtemp(tmpl);
  if (!sc) { perror("scratch"); return 2; }
  g_scratch_root = sc;
  for (int i = 0; i < std::max(g_workers, 1); ++i) {
    char d[300];
    snprintf(d, sizeof d, "%s/w%02d", sc, i);
    ::mkdir(d, 0700);
  }
  struct Cleaner { std::string d; pid_t me = getpid(); ~Cleaner() { if (getpid() == me) { wipe_scratch(d.c_str()); rmdir(d.c_str()); } } } cleaner{sc};
  // known findings: lines "known property=<id> class=<glob> ..." select classes that are reported, not failed
  {
    const char* kf = arg(argc, argv, "--known", nullptr);
    const char* prop = arg(argc, argv, "--property", "");
    std::vector<std::string> k;
    if (FILE* f = kf ? fopen(kf, "r") : nullptr) {
      char line[2048];
      while (fgets(line, sizeof line, f)) {
        char p[32], c[512];
        if (sscanf(line, "known property=%31s class=%511[^\n]", p, c) == 2) {
          std::string cl = c;
          auto e = cl.find(" :: ");
          if (e != std::string::npos) cl = cl.substr(0, e);
          if (strcmp(p, prop) == 0) k.push_back(cl);
        }
      }
      fclose(f);
    }
    set_known(k);
  }
  if (flag(argc, argv, "--list")) { for (auto& h : harnesses()) printf("%s\n", h.id); return 0; }
  if (const char* rp = arg(argc, argv, "--replay", nullptr)) return replay_file(rp);
  const char* prop = arg(argc, argv, "--property", "");
  for (auto& h : harnesses()) if (strcmp(h.id, prop) == 0) g_h = &h;
  if (!g_h) { fprintf(stderr, "unknown property %s\n", prop); return 2; }
  g_prop = g_h->id;
  if (std::string what = start_up(); !what.empty()) {
    std::string dir = arg(argc, argv, "--out", "/verif/out"), path = dir + "/" + g_h->id + ".replay";
    mkdir(dir.c_str(), 0755);
    Failure f;
    f.seed = 0; f.cls = "start-up"; f.hist = 0;
    Result* r = shm<Result>();
    snprintf(r->msg, sizeof r->msg, "%s", what.c_str());
    if (!write_replay(path, f, r)) { perror(path.c_str()); return 2; }
    printf("VIOLATION start-up: before the first run, the library cannot be set up: %s\nVIOLATION property=%s replay=%s\n", what.c_str(), g_h->id, path.c_str());
    return 1;
  }
  driver_heap(false);
  if (g_h->prepare) g_h->prepare();
  driver_heap(true);
  if (const char* one = arg(argc, argv, "--one", nullptr)) {
    Result* r = shm<Result>();
    run_one(nullptr, run_seed(strtoull(one, nullptr, 10)), M_SEARCH, nullptr, r, true, 0);
    printf("%.*s\n%.*s\nverdict %d class %s\n%s\nsteps %llu minor %llu vtime %.3fms threads %u switches %llu over %u lost %u hist %016llx nontrivial %u\n", static_cast<int>(r->prog_len), r->prog,
           static_cast<int>(r->trace_len), r->trace, r->verdict, r->cls, r->msg, static_cast<unsigned long long>(r->steps), static_cast<unsigned long long>(r->minor),
           static_cast<double>(r->vtime) / 1e6, r->n_threads, static_cast<unsigned long long>(r->switches), r->n_over, r->over_lost, static_cast<unsigned long long>(r->hist_hash), r->nontrivial);
    for (u32 i = 0; i < r->n_counters; ++i) printf("  %s = %llu\n", r->counters[i].name, static_cast<unsigned long long>(r->counters[i].v));
    if (flag(argc, argv, "--verify")) {
      Prog p;
      Prog::parse(std::string(r->prog, r->prog_len), p);
      auto ov = overrides(r);
      for (auto& v : ov) printf("  decision %s t%d %llu = %llu\n", kind_name[v.kind], v.tid, static_cast<unsigned long long>(v.idx), static_cast<unsigned long long>(v.val));
      run_one(&p, 0, M_REPLAY, &ov, r, true, 0);
      printf("%.*s\nreplay: verdict %d steps %llu minor %llu hist %016llx over %u\n", static_cast<int>(r->trace_len), r->trace, r->verdict, static_cast<unsigned long long>(r->steps), static_cast<unsigned long long>(r->minor), static_cast<unsigned long long>(r->hist_hash), r->n_over);
      for (u32 i = 0; i < r->n_over; ++i) { auto& v = r->over[i]; printf("  decision %s t%d %llu = %llu\n", kind_name[v.kind], v.tid, static_cast<unsigned long long>(v.idx), static_cast<unsigned long long>(v.val)); }
    }
    return r->verdict == 1 || r->verdict == 3 ? 0 : 1;
  }
  u64 target = strtoull(arg(argc, argv, "--runs", "1000"), nullptr, 10);
  u64 first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10);
  double secs = atof(arg(argc, argv, "--seconds", "120"));
  double min_secs = atof(arg(argc, argv, "--minimise", "25"));
  bool verbose = flag(argc, argv, "--all");
  const char* evp = arg(argc, argv, "--evidence", nullptr);
  const char* tier = arg(argc, argv, "--tier", "quick");
  std::string out = arg(argc, argv, "--out", "/tmp");
  // Workers are separate programs (exec, not only fork): processes that share an ancestor's memory
  // mappings contend in the kernel when they fork.
  constexpr size_t SHB = (sizeof(Shared) + 4095) & ~static_cast<size_t>(4095);
  const char* wk = arg(argc, argv, "--worker", nullptr);
  int fd = wk ? atoi(arg(argc, argv, "--fd", "-1")) : static_cast<int>(syscall(SYS_memfd_create, "verif", 0));
  if (fd < 0 || (!wk && ftruncate(fd, static_cast<off_t>(SHB + 2 * HT * 8)) != 0)) { perror("memfd"); return 2; }
  char* base = static_cast<char*>(mmap(nullptr, SHB + 2 * HT * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0));
  if (base == MAP_FAILED) { perror("mmap"); return 2; }
  g_sh = reinterpret_cast<Shared*>(base);
  g_ht = reinterpret_cast<u64*>(base + SHB);
  g_ht2 = g_ht + HT;
  if (wk) {
    cleaner.me = -1;
    worker(atoi(wk), first + target, strtod(arg(argc, argv, "--until", "0"), nullptr), verbose);
    fflush(stdout);
    _exit(0);
  }
  printf("property %s seed %llu runs %llu workers %d\n", g_h->id, static_cast<unsigned long long>(g_seed), static_cast<unsigned long long>(target), g_workers);
  fflush(stdout);
  g_pool = shm<Result>(static_cast<size_t>(g_workers));
  g_sh->next = first;
  double t0 = wall();
  std::vector<pid_t> ws;
  for (int w = 0; w < g_workers; ++w) {
    pid_t p = fork();
    if (p == 0) {
      char a1[16], a2[16], a3[32];
      snprintf(a1, sizeof a1, "%d", w); snprintf(a2, sizeof a2, "%d", fd); snprintf(a3, sizeof a3, "%.6f", t0 + secs);
      const char* av[64] = {argv[0], "--worker", a1, "--fd", a2, "--until", a3, "--scratch", sc};
      int n = 9;
      for (int i = 1; i < argc && n < 63; ++i) av[n++] = argv[i];
      execv("/proc/self/exe", const_cast<char**>(av));
      _exit(127);
    }
    ws.push_back(p);
  }
  for (pid_t p : ws) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { g_sh->harness_error = 1; snprintf(g_sh->herr, sizeof g_sh->herr, "a worker process ended abnormally (%#x)", st); }
  }
  double t1 = wall() - t0;
  auto& s = *g_sh;
  for (int k = 0; k < 32 && s.known[k].cls[0]; ++k)
    printf("KNOWN-FINDING: property=%s %s (%llu runs, first is run %llu)\n", g_h->id, s.known[k].cls, static_cast<unsigned long long>(s.known[k].n), static_cast<unsigned long long>(s.known[k].idx));
  int rc = 0;
  Result* r = shm<Result>();
  if (s.n_fail && !verbose) {
    std::sort(s.fail_idx, s.fail_idx + s.n_fail);
    bool confirmed = false;
    for (u32 i = 0; i < s.n_fail && !confirmed; ++i) {
      u64 idx = s.fail_idx[i], seed = run_seed(idx);
      run_one(nullptr, seed, M_SEARCH, nullptr, r, false, 0);
      if (r->verdict != 2) continue;
      Failure f;
      f.seed = seed; f.cls = r->cls; f.msg = r->msg; f.hist = r->hist_hash; f.ov = overrides(r);
      Prog::parse(std::string(r->prog, r->prog_len), f.prog);
      bool lost = r->over_lost != 0;
      run_one(nullptr, seed, M_SEARCH, nullptr, r, false, 0);
      if (r->verdict != 2 || f.cls != r->cls || f.hist != r->hist_hash) continue;   // must be deterministic
      if (!lost && !replays(f, f.ov, r)) continue;
      Failure orig = f;
      if (min_secs > 0) minimise(f, r, wall() + min_secs);
      run_one(&f.prog, f.seed, M_REPLAY, &f.ov, r, true, 0);
      if (r->verdict != 2 || f.cls != r->cls) { f = orig; run_one(&f.prog, f.seed, M_REPLAY, &f.ov, r, true, 0); }
      if (r->verdict != 2) continue;
      std::string path = out + "/" + g_h->id + ".replay";
      if (!write_replay(path, f, r)) { perror(path.c_str()); return 2; }
      u64 h = r->hist_hash;
      run_one(&f.prog, 0, M_REPLAY, &f.ov, r, true, 0);
      if (r->verdict != 2 || r->hist_hash != h) continue;
      confirmed = true;
      printf("violation in run %llu (seed %llu): %s\n%s\n", static_cast<unsigned long long>(idx), static_cast<unsigned long long>(seed), r->cls, r->msg);
      printf("minimised to %zu non-default decisions; events:\n%.*s\n", f.ov.size(), static_cast<int>(std::min<u32>(r->trace_len, 6000)), r->trace);
      printf("VIOLATION property=%s replay=%s\n", g_h->id, path.c_str());
      rc = 1;
    }
    if (!confirmed) { fprintf(stderr, "a run failed but could not be reproduced\n"); rc = 2; }
  } else if (s.n_fail) rc = 1;
  if (rc == 0 && s.harness_error) { fprintf(stderr, "simulator error: %s\n", s.herr); rc = 2; }
  if (rc == 0 && s.gate_bad) { fprintf(stderr, "nondeterminism: %s (%llu of %llu)\n", s.herr, static_cast<unsigned long long>(s.gate_bad), static_cast<unsigned long long>(s.gate_runs)); rc = 2; }
  if (rc == 0 && s.distinct == 0) { fprintf(stderr, "no non-trivial run was executed\n"); rc = 2; }
  evidence(evp, tier, t1, wall() - t_start, rc == 1 ? 1 : 0);
  if (s.slow) printf("%llu runs were given up undecided, because the machine was too busy\n", static_cast<unsigned long long>(s.slow));
  printf("%s: %llu runs (%llu distinct non-trivial) in %.1f s, %.1f simulated s, %llu scheduling points; %llu repeated, %llu diverged; %llu known; failures %llu\n", g_h->id,
         static_cast<unsigned long long>(s.runs), static_cast<unsigned long long>(s.distinct), t1, static_cast<double>(s.vtime_us) / 1e6, static_cast<unsigned long long>(s.steps),
         static_cast<unsigned long long>(s.gate_runs), static_cast<unsigned long long>(s.gate_bad), static_cast<unsigned long long>(s.n_known), static_cast<unsigned long long>(s.failures));
  if (verbose || flag(argc, argv, "--stats")) {
    for (u32 i = 0; i < s.n_counters; ++i) printf("  probe %-40s %llu in %llu runs\n", s.counters[i].name, static_cast<unsigned long long>(s.counters[i].v), static_cast<unsigned long long>(s.counters[i].runs));
    for (int k = 1; k < K_COUNT; ++k) if (s.faults[k]) printf("  fault %-40s %llu in %llu runs\n", kind_name[k], static_cast<unsigned long long>(s.faults[k]), static_cast<unsigned long long>(s.fault_runs[k]));
  }
  return rc;
}
