// Random procedures over all instruction kinds, in which nothing spins without taking time.
#ifndef VERIF_HARNESS_ANYTREE_H_
#define VERIF_HARNESS_ANYTREE_H_
#include "rig.h"

namespace rig
{
// Loops without end must contain something that takes time.
inline void fix_endless(Prog& p)
{
  fix_tree(p);
  for (size_t i = 0; i < p.tree.size(); ++i) {
    if (p.tree[i].kind != REPEAT || p.tree[i].a[0] >= 0) continue;
    int c = -1;
    for (size_t k = i + 1; k < p.tree.size(); ++k) if (p.tree[k].parent == static_cast<int>(i)) { c = static_cast<int>(k); break; }
    bool ok = false;
    for (int depth = 0; c >= 0 && depth < 5; ++depth) {
      auto& n = p.tree[static_cast<size_t>(c)];
      if (n.kind == PROBE) { if (n.a[2] != SLEEP && n.a[2] != BLOCK) { n.a[2] = SLEEP; n.a[3] = 30; } ok = true; break; }
      if (is_leaf(n.kind) || (n.kind != SEQ && n.kind != FALLBACK && n.kind != INVERT && n.kind != FORCE && n.kind != ASYNC && n.kind != INCLUDE && n.kind != INCPROC)) break;
      int d = -1;
      for (size_t k = static_cast<size_t>(c) + 1; k < p.tree.size(); ++k) if (p.tree[k].parent == c) { d = static_cast<int>(k); break; }
      c = d;
    }
    if (!ok) p.tree[i].a[0] = 3;
  }
  // and a Listen must not be woken by its own child
  for (size_t i = 0; i < p.tree.size(); ++i) {
    auto& n = p.tree[i];
    if (n.kind != INPUT && n.kind != ADDELEM && n.kind != ADDMEMBER && n.kind != INCR && n.kind != DECR && n.kind != COPY && n.kind != RESETVAR && n.kind != COPYFROM && n.kind != COPYTO) continue;
    for (int a = n.parent; a >= 0; a = p.tree[static_cast<size_t>(a)].parent)
      if (p.tree[static_cast<size_t>(a)].kind == LISTEN) { n.kind = SUCCEED; break; }
  }
  if (p.get("tick") < 20) p.p["tick"] = 20;
}
// A reactive node that leaves a child which is running on its own, possibly without end, and starts over.
inline void add_reactive(Prog& p, Rng& r)
{
  std::vector<int> cand;
  for (size_t i = 0; i < p.tree.size(); ++i) {
    int k = p.tree[i].kind, nc = 0;
    for (auto& n : p.tree) if (n.parent == static_cast<int>(i)) ++nc;
    if ((k == SEQ || k == FALLBACK || k == PAR) && nc < 4) cand.push_back(static_cast<int>(i));
  }
  if (cand.empty()) return;
  auto add = [&](int parent, int kind) { sim::Node n; n.parent = parent; n.kind = kind; p.tree.push_back(n); return static_cast<int>(p.tree.size()) - 1; };
  bool seq = r.chance(1, 2);
  int top = add(cand[r.below(static_cast<sim::u32>(cand.size()))], seq ? RSEQ : RFALLBACK);
  auto probe = [&](int parent, int mode, int amount, std::vector<int> res) {
    auto& n = p.tree[static_cast<size_t>(add(parent, PROBE))];
    n.a[0] = 0;
    for (size_t k = 0; k < res.size(); ++k) n.a[0] |= static_cast<long>(res[k]) << (2 * k);
    n.a[1] = static_cast<long>(res.size()); n.a[2] = mode; n.a[3] = amount;
  };
  std::vector<int> v{seq ? 0 : 1};
  for (int k = r.range(1, 4); k > 0; --k) v.push_back(r.range(0, 2) == 0 ? (seq ? 0 : 1) : 2);
  probe(top, r.range(0, 2), r.range(1, 60), v);
  for (int c = r.range(1, 2); c > 0; --c) {
    int par = r.chance(1, 2) ? ASYNC : PAR;
    int b = add(top, par);
    if (par == PAR) p.tree[static_cast<size_t>(b)].a[0] = p.tree[static_cast<size_t>(b)].a[1] = -1;
    for (int k = par == ASYNC ? 1 : r.range(1, 2); k > 0; --k) probe(b, r.chance(2, 3) ? BLOCK : SLEEP, r.range(1, 500), {r.range(0, 3), seq ? 0 : 1});
  }
}
inline void gen_any(Prog& p, Rng& r)
{
  sim::gen_strategy(p, r);
  TreeOpts o;
  static const int styles = 5;
  int style = r.range(0, styles - 1);
  if (style == 0) { o.inner = {SEQ, FALLBACK, REPEAT, INVERT, FORCE, RSEQ, RFALLBACK, FOR, LISTEN, CHOICE}; o.leaf = {PROBE, PROBE, PROBE, PROBE, WAIT}; }
  else if (style == 1) { o.inner = {SEQ, PAR, PAR, ASYNC, REPEAT, FALLBACK, RSEQ}; o.leaf = {PROBE, PROBE, PROBE, PROBE, WAIT}; }
  else if (style == 2) { o.inner = {SEQ, PAR, PAR, REPEAT, FALLBACK, RSEQ, USERCHOICE}; o.leaf = {PROBE, PROBE, INPUT, CONFIRM, WAIT}; }
  else if (style == 3) { p.p["xml"] = 1; p.p["ph"] = r.range(0, 1000); o.inner = {SEQ, PAR, PAR, ASYNC, REPEAT, FALLBACK, INCLUDE, INCLUDE, INCPROC, INCPROC, LISTEN}; o.leaf = {PROBE, PROBE, PROBE, PROBE, WAIT, INPUT, INCR, COPYFROM, COPYTO}; }
  else {
    o.inner = {SEQ, FALLBACK, RSEQ, RFALLBACK, PAR, ASYNC, REPEAT, INVERT, FORCE, FOR, LISTEN, CHOICE, USERCHOICE};
    o.leaf = {PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, PROBE, WAIT, INPUT, CONFIRM, WAITVAR, INCR, COPY, EQUALS, SUCCEED, FAIL_, RESETVAR, OUTPUT, MESSAGE, LOGI, DECR, GREATER, CONDITION};
  }
  o.max_nodes = r.chance(1, 2) ? 6 : 12;
  o.min_nodes = r.chance(1, 4) ? 2 : 5;
  o.modes = 3;
  o.block = r.chance(1, 2) ? 40 : 10;
  o.endless = 50;
  gen_tree(p, r, o);
  if (r.chance(1, 6)) add_reactive(p, r);
  for (auto& n : p.tree) {
    if (n.kind == PROBE && n.a[2] == BLOCK) n.a[3] = 0;
    if (n.kind == WAIT && r.chance(1, 4)) n.a[0] = 1000000;
    if (n.kind == COPYFROM || n.kind == COPYTO) { n.a[2] = r.range(0, 3); n.a[4] = r.range(0, 1) * 4; }
    if (n.kind == INCLUDE || n.kind == INCPROC) n.a[4] = r.range(0, 7);
  }
  if (r.chance(1, 8)) p.p["f.thr"] = r.chance(1, 2) ? 50000 : 300000;
  p.p["user"] = r.range(0, 2);
  p.p["answers"] = r.range(0, 1000000);
  p.p["tick"] = r.chance(1, 2) ? 20 : 100;
  fix_endless(p);
}
inline int delay(Rng& r)
{
  int w = r.range(0, 8);
  if (w >= 7) return -(w == 7 ? r.range(1, 6) : r.range(1, 60));
  return w < 3 ? 0 : w == 3 ? r.range(1, 20) : w == 4 ? r.range(1, 200) : w == 5 ? r.range(1, 500) : r.range(1, 2500);
}
}  // namespace rig
#endif
