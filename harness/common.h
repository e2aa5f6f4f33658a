// Shared pieces of the harnesses.
#ifndef VERIF_HARNESS_COMMON_H_
#define VERIF_HARNESS_COMMON_H_
#include "rt.h"

#include <functional>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace hx
{
using sim::Op;
using sim::Prog;
using sim::Quiet;
using sim::Rng;
using sim::u64;

// Harness threads: creation is never made to fail, and the harness' own bookkeeping is not traced.
class Threads
{
public:
  ~Threads() { Join(); }
  void Start(std::function<void()> f)
  {
    Quiet q;
    m_t.emplace_back([f] { f(); });
  }
  void Join()
  {
    Quiet q;
    for (auto& t : m_t) if (t.joinable()) t.join();
  }
private:
  std::vector<std::thread> m_t;
};

// Global order of harness events (exact, because only one simulated thread runs at a time).
inline u64 tick() { static u64 n; return ++n; }

// Bijective in each argument, and well mixed: states that differ get different keys (up to 64-bit chance).
inline u64 mix1(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
inline u64 mixh(u64 h, u64 v) { return mix1(mix1(h) ^ mix1(v + 0x632BE59BD9B4E019ull)); }

// ---- linearizability (Wing and Gong, with memoisation) -------------------------------------------
// Model: copyable state with  bool apply(const O& op)  and  u64 hash() const.
struct Interval { u64 inv = 0, ret = 0; };
template <class M, class O>
bool lin_dfs(const std::vector<O>& h, std::vector<bool>& done, size_t left, const M& m, std::unordered_set<u64>& seen, u64 maskh)
{
  if (left == 0) return true;
  u64 key = mixh(maskh, m.hash());
  if (!seen.insert(key).second) return false;
  u64 lim = ~0ull;
  for (size_t i = 0; i < h.size(); ++i) if (!done[i] && h[i].t.ret < lim) lim = h[i].t.ret;
  for (size_t i = 0; i < h.size(); ++i) {
    if (done[i] || h[i].t.inv > lim) continue;
    M n = m;
    if (!n.apply(h[i])) continue;
    done[i] = true;
    u64 mh = maskh ^ mix1(i + 1);
    if (lin_dfs(h, done, left - 1, n, seen, mh)) return true;
    done[i] = false;
  }
  return false;
}
template <class M, class O>
bool linearizable(const std::vector<O>& h, const M& m)
{
  std::vector<bool> done(h.size(), false);
  std::unordered_set<u64> seen;
  return lin_dfs(h, done, h.size(), m, seen, 0);
}
}  // namespace hx
#endif
