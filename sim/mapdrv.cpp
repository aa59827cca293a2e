// Driver for every map: generates concurrent programs, records the history and
// decides it against a per-key sequential model.
#include "frame.h"
#include "imap.h"
#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <new>
#include <unordered_map>
#include <unordered_set>

namespace sim {
enum Kind : u32 { INS, UPS, UPD, DEL, GET, SCAN, CURSOR, RESERVE, RECLAIM, REREG, SOLO, PAUSE, SIZE, NKINDS };
static const char *const KN[] = {"Insert", "Upsert", "Update", "Delete", "Search", "scan", "cursor",
                                 "reserve", "reclaim_all", "re-register", "Search(solo)", "pause", "size"};
static const char *const SK[] = {"begin..end", "rbegin..rend", "lower_bound", "upper_bound", "range_iter", "rrange_iter"};

struct ScanRec { ScanReq rq; std::vector<std::pair<u64, u64>> got; bool cut; };
struct Hist {
  u32 lane, kind, k;
  u64 v;
  u64 inv, ret;
  bool ok, threw;
  Opt old;
  i64 n;
  i64 scan; // index into scans
};

static u64 uval(u32 uid) { return (u64)(uid + 1) | (mix64(uid) & 0xFFFFFFF000000ull) << 8; }

// ------------------------------------------------------------ generation -----
static void gen_keys(Rng &r, const MapInfo &mi, u32 n, std::vector<u64> &ks) {
  u64 mask = mi.key_max_bits >= 64 ? ~0ull : (1ull << mi.key_max_bits) - 1;
  std::unordered_set<u64> seen;
  auto add = [&](u64 k) { k &= mask; if (ks.size() < n && seen.insert(k).second) ks.push_back(k); };
  u32 pat = r.below(mi.prefix_bits ? 9 : 8);
  if (r.chance(0.25)) { add(0); add(~0ull); }
  if (r.chance(0.15)) { add(1ull << 63); add((1ull << 63) - 1); }
  u64 base = r.chance(0.5) ? r.below(1000) : r.next();
  switch (pat) {
  case 0: case 1: for (u32 i = 0; i < 2 * n; i++) add(base + i); break;
  case 2: { u64 st = 1 + r.below(5000); for (u32 i = 0; i < 2 * n; i++) add(base + i * st); break; }
  case 3: for (u32 i = 0; i < 4 * n; i++) add(r.next()); break;
  case 4: for (u32 i = 0; i < 2 * n; i++) add(__builtin_bswap64(i + (base & 0xFF))); break;
  case 5: { // shared prefixes, few distinct bytes per level
    u32 lv = r.below(7), fan = 2 + r.below(3);
    for (u32 i = 0; i < 40 * n && ks.size() < n; i++) {
      u64 k = base;
      for (u32 l = lv; l < 8; l++)
        if (r.chance(0.5)) { k &= ~(0xFFull << (8 * l)); k |= (u64)(r.below(fan) * 37) << (8 * l); }
      add(k);
    }
    for (u32 i = 0; i < 2 * n; i++) add(base + i);
    break;
  }
  case 6: { // one dense byte
    u32 l = r.below(8);
    u64 b = base & ~(0xFFull << (8 * l));
    for (u32 i = 0; i < 256; i++) add(b | (u64)((i * 1 + 3) & 0xFF) << (8 * l));
    for (u32 i = 0; i < 2 * n; i++) add(r.next());
    break;
  }
  case 7: { // two dense bytes
    u32 l = r.below(7);
    u64 b = base & ~(0xFFFFull << (8 * l));
    u32 f1 = 2 + r.below(20);
    for (u32 i = 0; i < 4 * n; i++) add(b | (u64)(i % f1) << (8 * l) | (u64)(i / f1 & 0xFF) << (8 * l + 8));
    for (u32 i = 0; i < 2 * n; i++) add(r.next());
    break;
  }
  default: { // groups under a common prefix
    u32 g = 1 + r.below(5);
    for (u32 i = 0; i < 4 * n; i++) add((u64)(10 + i % g) << mi.prefix_bits | (i / g) << (r.chance(0.3) ? 20 : 0));
  }
  }
  for (u32 i = 0; ks.size() < n && i < 100000; i++) add(r.next());
  std::sort(ks.begin(), ks.end());
}

// a long history over few live keys
static void gen_space(Rng &r, Prog &p, u32 &uid) {
  u32 n = (u32)p.keys.size();
  p.par["space"] = 1;
  p.prefill.clear();
  auto op = [&](u32 kind, u32 k) {
    Op o;
    o.kind = kind; o.k = k; o.k2 = 0; o.arg = 0; o.uid = uid++;
    p.prefill.push_back(o);
  };
  std::vector<u32> ord(n), live;
  for (u32 i = 0; i < n; i++) ord[i] = i;
  u32 how = r.below(3);
  if (how == 0) std::reverse(ord.begin(), ord.end());
  else if (how == 1) for (u32 i = n; i-- > 1;) std::swap(ord[i], ord[r.below(i + 1)]);
  u32 shape = n > 1000 ? 3 : r.below(5);
  u32 w = n > 1000 ? n / 2 : 1 + r.below(r.chance(0.5) ? std::min(n, 10u) : (n + 1) / 2), len = n > 1000 ? 3 * n : 500 + r.below(3000);
  p.par["shape"] = shape;
  std::vector<bool> in(n);
  auto ins = [&](u32 k) { if (!in[k]) { in[k] = true; live.push_back(k); } op(r.chance(0.8) ? INS : UPS, k); };
  auto delat = [&](u32 i) { op(DEL, live[i]); in[live[i]] = false; live[i] = live.back(); live.pop_back(); };
  switch (shape) {
  case 0: case 1: // a window that slides over the keys
    for (u32 i = 0; i < len; i++) { op(INS, ord[i % n]); if (i >= w) op(DEL, ord[(i - w) % n]); }
    break;
  case 2: // random replacement
    while (p.prefill.size() < len) { if (live.size() < w) ins(ord[r.below(n)]); else delat(r.below((u32)live.size())); }
    break;
  case 3: // fill and drain
    while (p.prefill.size() < len) {
      u32 st = r.below(n);
      for (u32 i = 0; i < 2 * w && i < n; i++) ins(ord[(st + i) % n]);
      u32 keep = r.chance(0.5) ? 0 : r.below(r.chance(0.5) ? w : std::min(w, 8u)), how = r.below(3);
      while (live.size() > keep) delat(how == 0 ? r.below((u32)live.size()) : how == 1 ? 0 : (u32)live.size() - 1);
    }
    break;
  default: // overwrites
    for (u32 i = 0; i < w; i++) op(INS, ord[i]);
    for (u32 i = 0; i < len; i++) op(r.chance(0.5) ? UPS : UPD, ord[r.below(w)]);
  }
}

Prog gen_prog(u64 seed, const std::string &prof) {
  Rng r(seed);
  Prog p;
  bool scanp = prof == "scan", memp = prof == "memory", book = prof == "book", prog = prof == "progress",
       seqp = prof == "seq", allocp = prof == "alloc" || (seqp && r.chance(0.5)), life = prof == "lifecycle", space = prof == "space";
  u32 variant;
  do {
    variant = r.below(map_variants());
  } while ((prog && !map_info(variant).concurrent) ||
           (scanp && !map_info(variant).ordered));
  const MapInfo &mi = map_info(variant);
  p.par["variant"] = variant;
  p.par["hash"] = r.chance(0.5) ? 0 : r.below(8);
  p.par["ctor"] = r.below(3) ? r.below(40) : 0;
  p.par["leak"] = memp || seqp;
  p.par["twin"] = allocp || space || !r.chance(0.15) ? 0 : 1 + r.below(5); // a second map of the same type
  p.par["size"] = book || life || seqp || (allocp && r.chance(0.5));
  p.par["move"] = life || (seqp && r.chance(0.2)) ? 1 + r.below(2) : 0;
  p.par["ids"] = r.chance(mi.ids ? 0.2 : 0.6) ? 0 : 1 + r.below(2);
  p.par["reclaim_end"] = r.chance(0.5);
  p.par["reclaim_mid"] = r.chance(0.3);
  static const u32 thr[] = {1, 1, 1, 2, 3, 5, 20, 1000};
  p.par["threshold"] = thr[r.below(8)];
  p.par["alloc"] = allocp;
  p.par["rsv"] = book && mi.probe && r.chance(0.4) ? 1 + r.below(300) : 0;
  p.par["scanq"] = mi.ordered; // compare full iteration with the searches at quiescence
  u32 nt = mi.concurrent && !(space && r.chance(0.6)) ? (r.chance(0.6) ? 2 + r.below(2) : 2 + r.below(5)) : 1;
  u32 n;
  u32 sz = r.below(100);
  if (sz < 40) n = 1 + r.below(8);
  else if (sz < 75) n = 4 + r.below(28);
  else if (sz < 93) { static const u32 near[] = {4, 5, 6, 16, 17, 18, 19, 47, 48, 49, 50, 52}; n = near[r.below(12)]; }
  else n = 50 + r.below(mi.fanout > 100 ? 700 : 250);
  u32 huge = r.below(40000); // a few runs on a map past 2^12, fewer past 2^16 elements
  huge = huge == 0 ? 66000 + r.below(3000) : huge < 14 ? 1500 + r.below(4500) : 0;
  if (huge > 6000 && mi.probe && mi.probe < 7) huge = 1500 + huge % 4500; // a low limit takes a huge table
  if (space && !huge && r.chance(0.5)) huge = r.chance(0.3) ? 1000 + r.below(5000) : 300 + r.below(700);
  if (huge) n = huge;
  if (n > 300) p.par["twin"] = 0;
  gen_keys(r, mi, n, p.keys);
  n = (u32)p.keys.size();
  if (mi.probe) { // only a hash that spreads keys, or makes them one chain, fits any number of keys
    u32 h = (u32)p.par["hash"];
    if (mi.probe < 255 || n > mi.probe - 15) { static const u32 good[] = {1, 1, 1, 1, 2, 4, 1, 1}; p.par["hash"] = good[h]; }
    if (huge) p.par["hash"] = 1;
    if (mi.probe >= 255 && !huge && !space && r.chance(mi.probe > 255 ? 0.08 : 0.02)) { // a cluster near the probe limit, and keys that start inside it
      p.par["hash"] = 0;
      u64 base = r.below(1000);
      p.keys.clear();
      u32 len = mi.probe - 15 + r.below(60);
      for (u32 i = 0; i < len; i++) p.keys.push_back(base + i);
      for (u32 i = 1, m = 1 + r.below(8); i < m; i++) p.keys.push_back(base + (u64)i * 1024 + r.below(3));
      n = (u32)p.keys.size();
    }
  }
  u32 uid = 0;
  auto op = [&](u32 kind, u32 k, u32 k2 = 0, u32 arg = 0) {
    Op o;
    o.kind = kind; o.k = k; o.k2 = k2; o.arg = arg;
    o.uid = uid++;
    return o;
  };
  // prefill: mostly inserts, then some deletes
  double fillf = r.chance(0.3) ? 0 : (r.chance(0.5) ? 1 : r.next32() / 4294967296.0);
  if (huge) fillf = 1;
  std::vector<u32> order(n);
  for (u32 i = 0; i < n; i++) order[i] = i;
  u32 ord = r.below(4);
  if (ord == 0) std::reverse(order.begin(), order.end());
  else if (ord > 1) for (u32 i = n; i-- > 1;) std::swap(order[i], order[r.below(i + 1)]);
  u32 holdback = r.chance(0.4) ? r.below(4) : 0; // leave a node just short of a threshold
  for (u32 i = 0; i < n; i++)
    if (i + holdback < n && r.chance(fillf)) p.prefill.push_back(op(r.chance(0.8) ? INS : UPS, order[i]));
  double delf = r.chance(0.6) ? 0 : r.next32() / 4294967296.0;
  if (delf > 0) {
    bool contiguous = r.chance(0.5);
    u32 st = r.below(n), cnt = (u32)(n * delf);
    for (u32 i = 0; i < cnt; i++) p.prefill.push_back(op(DEL, contiguous ? (st + i) % n : r.below(n)));
  }
  if (mi.has_reserve && !space && r.chance(0.2)) p.prefill.push_back(op(RESERVE, 0, 0, r.below(64)));
  if (space) gen_space(r, p, uid);
  // rounds
  u32 nr = r.chance(0.75) ? 1 : 2 + r.below(2);
  double w[NKINDS] = {};
  u32 mix = r.below(6);
  static const double base[6][5] = {{4, 2, 2, 4, 2}, {1, 0, 0, 1, 0}, {1, 1, 1, 1, 1}, {0, 4, 0, 2, 4}, {2, 1, 4, 2, 4}, {6, 1, 0, 1, 1}};
  for (int i = 0; i < 5; i++) w[i] = base[mix][i];
  if (mi.ordered && !prog) {
    double s = scanp ? 3 : (memp || allocp || seqp ? 1 : 0.15);
    w[SCAN] = s; w[CURSOR] = s * 0.6;
  }
  if (mi.has_reserve && !space) w[RESERVE] = r.chance(0.4) ? 0.6 : 0;
  // reclaim_all() is not safe against concurrent retirement: quiescent use only
  if (!mi.concurrent && r.chance(0.2)) w[RECLAIM] = 0.3;
  if (mi.concurrent) w[REREG] = r.chance(0.3) ? 0.5 : 0;
  if (mi.concurrent) w[PAUSE] = r.chance(0.2) ? 0.3 : 0;
  if (prog && mi.free_lookup) w[SOLO] = 2;
  if (mi.has_size && r.chance(0.4)) w[SIZE] = 0.5;
  double tot = 0;
  for (double x : w) tot += x;
  u32 nhot = 1 + r.below(std::min(n, 6u));
  u32 hotbase = r.below(n);
  double phot = r.chance(0.2) ? 0 : 0.3 + 0.6 * (r.next32() / 4294967296.0);
  auto pickkey = [&] { return r.chance(phot) ? (hotbase + r.below(nhot)) % n : r.below(n); };
  u32 lo = 1, hi;
  u32 lsel = r.below(10);
  if (lsel < 5) hi = 4; else if (lsel < 8) hi = 12; else { lo = 10; hi = 40; }
  if (!mi.concurrent) { lo *= 5; hi *= 6; }
  Rng sr(r.next()), sr0 = sr;
  gen_sched(sr, p.cfg, prog, allocp, 0); // only .victim of this draw is used here
  int victim = p.cfg.victim;
  p.cfg = SchedCfg();
  // roles: some threads only delete, insert, read, ...; while one is a victim of
  // stalls the others keep changing the structure around it
  for (u32 rd = 0; rd < nr; rd++) {
    p.rounds.emplace_back();
    u32 t_here = mi.concurrent ? nt : 1;
    for (u32 t = 0; t < t_here; t++) {
      Ops v;
      u32 cnt = r.range(lo, hi);
      bool churn = victim >= 0 ? (int)t != victim : r.chance(0.07);
      if (victim >= 0) cnt = (int)t == victim ? 1 + r.below(4) : 15 + r.below(50);
      int role = r.chance(0.35) ? (int)r.below(5) : -1;
      if (scanp && t == 0 && r.chance(0.6)) role = 5;
      bool seqkeys = r.chance(0.15);
      u32 sk = r.below(n);
      if (churn && r.chance(0.8)) { // grow and shrink a range of keys over and over
        u32 st = r.below(n), len = 1 + r.below(std::min(n, 24u)), x = 0;
        bool ins = r.chance(0.5), up = r.chance(0.2);
        while (v.size() < cnt) {
          v.push_back(op(ins ? (up ? UPS : INS) : DEL, (st + x) % n));
          if (++x >= len) { x = 0; ins = !ins; if (r.chance(0.3)) { st = r.below(n); len = 1 + r.below(std::min(n, 24u)); } }
        }
        p.rounds.back().push_back(v);
        continue;
      }
      for (u32 i = 0; i < cnt; i++) {
        u32 kind;
        if (role == 5) kind = r.chance(0.6) ? SCAN : CURSOR;
        else if (role >= 0 && r.chance(0.85)) kind = (u32)role;
        else {
          double x = r.next32() / 4294967296.0 * tot;
          kind = 0;
          while (kind + 1 < NKINDS && x >= w[kind]) { x -= w[kind]; kind++; }
          if (w[kind] == 0) kind = GET;
        }
        u32 k = seqkeys ? sk++ % n : pickkey();
        u32 k2 = r.chance(0.5) ? k : r.below(n);
        u32 arg = 0;
        if (kind == SCAN) {
          arg = r.below(6) | r.below(4) << 4 | r.below(4) << 10 | (r.chance(0.15) ? 1 : 0) << 8 | (r.chance(0.3) ? 1 + r.below(6) : 0) << 12 |
                (r.chance(0.2) ? 1 : 0) << 9 | r.below(3) << 20 | r.below(3) << 22;
          if (mi.concurrent && r.chance(0.15)) arg |= (1 + r.below(15)) << 24;
          if (r.chance(0.85) && p.keys[k] > p.keys[k2]) std::swap(k, k2);
        } else if (kind == CURSOR) arg = r.next32();
        else if (kind == RESERVE) arg = r.below(r.chance(0.2) ? 600 : 40);
        else if (kind == SOLO) arg = 1 + r.below(r.chance(0.5) ? 12 : 60);
        else if (kind == PAUSE) arg = r.below(2000);
        v.push_back(op(kind, k, k2, arg));
        if (kind == SCAN) uid += arg >> 24 & 15; // for the calls made while iterating
      }
      p.rounds.back().push_back(v);
    }
  }
  u32 per = 0;
  for (auto &t : p.rounds[0]) per += (u32)t.size();
  gen_sched(sr0, p.cfg, prog, allocp, per * 60);
  if (huge) { p.cfg.fair_budget += (u64)huge * 5000; p.cfg.reuse = true; }
  return p;
}

// ------------------------------------------------------------ description ----
std::string op_text(const Prog &p, const Op &o) {
  char b[256];
  auto key = [&](u32 i) { return i < p.keys.size() ? p.keys[i] : 0; };
  switch (o.kind) {
  case INS: case UPS: case UPD:
    snprintf(b, sizeof b, "%s(0x%" PRIx64 ", 0x%" PRIx64 ")", KN[o.kind], key(o.k), uval(o.uid)); break;
  case DEL: case GET: case SOLO: snprintf(b, sizeof b, "%s(0x%" PRIx64 ")", KN[o.kind], key(o.k)); break;
  case SCAN:
    snprintf(b, sizeof b, "%s(0x%" PRIx64 ", 0x%" PRIx64 ") flags %x%s", SK[(o.arg & 15) % 6], key(o.k), key(o.k2), o.arg, o.arg >> 24 & 15 ? " with other calls meanwhile" : ""); break;
  case CURSOR: snprintf(b, sizeof b, "cursor from 0x%" PRIx64 " moves %x", key(o.k), o.arg); break;
  default: snprintf(b, sizeof b, "%s(%u)", KN[o.kind < NKINDS ? o.kind : 0], o.arg);
  }
  return b;
}
std::string describe_prog(const Prog &p) {
  char b[300];
  snprintf(b, sizeof b, "%s %s seed=%" PRIu64 " keys=%zu prefill=%zu", COMPONENT, map_info((u32)p.get("variant")).name, p.seed,
           p.keys.size(), p.prefill.size());
  std::string s = b;
  for (auto &r : p.rounds) {
    s += " | round:";
    for (size_t t = 0; t < r.size(); t++) {
      s += " T" + std::to_string(t) + "[";
      for (size_t i = 0; i < r[t].size() && i < 6; i++) s += (i ? "; " : "") + op_text(p, r[t][i]);
      if (r[t].size() > 6) s += "; ...";
      s += "]";
    }
  }
  snprintf(b, sizeof b, " | tso=%d pct=%d stall=%.3f allocfail=%.3f", (int)p.cfg.tso, p.cfg.pct_depth, p.cfg.p_stall, p.cfg.p_allocfail);
  return s + b;
}

// ---------------------------------------------------------------- checking ---
struct Checker {
  const Prog &p;
  Outcome &o;
  std::vector<Hist> &h;
  std::vector<ScanRec> &scans;
  std::vector<std::vector<u32>> bykey;
  std::unordered_map<u64, u32> byval; // value -> history index of its writer
  std::unordered_map<u64, u32> keyidx;

  Checker(const Prog &a, Outcome &b, std::vector<Hist> &c, std::vector<ScanRec> &d) : p(a), o(b), h(c), scans(d) {
    bykey.resize(p.keys.size());
    for (u32 i = 0; i < p.keys.size(); i++) keyidx[p.keys[i]] = i;
    for (u32 i = 0; i < h.size(); i++)
      if (h[i].kind <= GET || h[i].kind == SOLO) {
        bykey[h[i].k].push_back(i);
        if (h[i].kind <= UPD) byval[h[i].v] = i;
      }
  }
  std::string line(const Hist &x) {
    char b[300];
    std::string res;
    if (x.threw) res = "threw bad_alloc";
    else if (x.kind == INS) res = x.ok ? "true" : "false";
    else { char c[40]; snprintf(c, sizeof c, "0x%" PRIx64, x.old.value_or(0)); res = x.old ? c : "none"; }
    char v[40] = "";
    if (x.kind <= UPD) snprintf(v, sizeof v, ", 0x%" PRIx64, x.v);
    snprintf(b, sizeof b, "[%" PRIu64 "..%" PRIu64 "] T%u %s(0x%" PRIx64 "%s) -> %s\n", x.inv, x.ret, x.lane, KN[x.kind],
             p.keys[x.k], v, res.c_str());
    return b;
  }
  void note_key(u32 k, size_t max = 60) {
    size_t n = 0;
    for (u32 i : bykey[k]) if (n++ < max) o.note += line(h[i]);
  }

  // Wing-Gong search over one key: each thread's operations in order, an
  // operation may go next if no pending one returned before it was invoked.
  // returns 1 ok, 0 not linearizable, -1 gave up
  int linearizable(u32 k) {
    std::vector<std::vector<u32>> lane;
    std::unordered_map<u32, u32> lid;
    for (u32 i : bykey[k]) {
      auto it = lid.find(h[i].lane);
      if (it == lid.end()) { it = lid.emplace(h[i].lane, (u32)lane.size()).first; lane.emplace_back(); }
      lane[it->second].push_back(i);
    }
    u32 L = (u32)lane.size();
    if (!L) return 1;
    struct St { std::vector<unsigned short> pos; u64 val; bool has; };
    std::unordered_set<std::string> seen;
    std::vector<St> stack;
    stack.push_back({std::vector<unsigned short>(L, 0), 0, false});
    u64 steps = 0;
    while (!stack.empty()) {
      if (++steps > 400000) return -1;
      St s = std::move(stack.back());
      stack.pop_back();
      std::string key((char *)s.pos.data(), L * 2);
      key.append((char *)&s.val, 8);
      key.push_back(s.has);
      if (!seen.insert(key).second) continue;
      u64 minret = ~0ull;
      bool done = true;
      for (u32 l = 0; l < L; l++)
        if (s.pos[l] < lane[l].size()) { done = false; minret = std::min(minret, h[lane[l][s.pos[l]]].ret); }
      if (done) return 1;
      for (u32 l = 0; l < L; l++) {
        if (s.pos[l] >= lane[l].size()) continue;
        const Hist &x = h[lane[l][s.pos[l]]];
        if (x.inv > minret) continue;
        auto push = [&](bool has, u64 val) {
          St n = s;
          n.pos[l]++;
          n.has = has;
          n.val = has ? val : 0;
          stack.push_back(std::move(n));
        };
        if (x.threw) {
          push(s.has, s.val);
          if (x.kind == INS && !s.has) push(true, x.v);
          if (x.kind == UPS) push(true, x.v);
          if (x.kind == UPD && s.has) push(true, x.v);
          if (x.kind == DEL && s.has) push(false, 0);
          continue;
        }
        bool match = x.old ? (s.has && s.val == *x.old) : !s.has;
        switch (x.kind) {
        case INS: if (x.ok == !s.has) push(true, s.has ? s.val : x.v); break;
        case UPS: if (match) push(true, x.v); break;
        case UPD: if (match) push(s.has, x.v); break;
        case DEL: if (match) push(false, 0); break;
        default: if (match) push(s.has, s.val);
        }
      }
    }
    return 0;
  }

  bool removes(const Hist &x) const { return x.kind == DEL && (x.threw || x.old); }
  bool writes(const Hist &x) const {
    return !x.threw && ((x.kind == INS && x.ok) || x.kind == UPS || (x.kind == UPD && x.old));
  }
  // present during the whole of [a,b] for certain
  bool surely_present(u32 k, u64 a, u64 b) {
    const Hist *w = nullptr;
    for (u32 i : bykey[k]) {
      const Hist &x = h[i];
      // any operation that saw or made the key present, completed before a
      bool shows = writes(x) || (x.kind == INS && !x.threw && !x.ok) || ((x.kind == GET || x.kind == SOLO) && !x.threw && x.old);
      if (shows && x.ret < a && (!w || x.inv > w->inv)) w = &x;
    }
    if (!w) return false;
    for (u32 i : bykey[k]) {
      const Hist &x = h[i];
      if (removes(x) && x.ret > w->inv && x.inv < b) return false;
    }
    return true;
  }
  // may (k,v) have been the state of the map at some moment of [a,b]?
  const char *implausible(u32 k, u64 v, u64 a, u64 b) {
    auto it = byval.find(v);
    if (it == byval.end()) return "a value that was never written";
    const Hist &w = h[it->second];
    if (w.k != k) return "a value that was written under another key";
    if (w.inv > b) return "a value written only after the scan";
    if (!w.threw && !writes(w)) return "a value whose write did not take effect";
    for (u32 i : bykey[k]) {
      const Hist &x = h[i];
      if (x.threw) continue;
      if ((writes(x) || (x.kind == DEL && x.old)) && x.inv > w.ret && x.ret < a)
        return writes(x) ? "a value overwritten before the scan began" : "a key deleted before the scan began";
    }
    return nullptr;
  }

  // a torn value seen through an iterator: excusable only as the recorded finding,
  // and only while another operation overwrites that very element
  bool torn_ok(u32 k, const Hist &x) {
    for (u32 i : bykey[k]) {
      const Hist &w = h[i];
      if ((w.kind == UPS || w.kind == UPD) && w.inv < x.ret && w.ret > x.inv) return known_finding(o, "torn-iterator-value");
    }
    return false;
  }
  void check_scan(const Hist &x) {
    const ScanRec &s = scans[x.scan];
    const ScanReq &q = s.rq;
    o.scans++;
    auto bad = [&](const char *cls, const std::string &m, i64 key) {
      char b[200];
      snprintf(b, sizeof b, "%s%s from 0x%" PRIx64 " to 0x%" PRIx64 " (%s,%s) by T%u at [%" PRIu64 "..%" PRIu64 "]: ",
               x.kind == CURSOR ? "cursor " : "", SK[q.kind], q.lo, q.hi, q.lk == RK_INC ? "inclusive" : "exclusive",
               q.rk == RK_INC ? "inclusive" : "exclusive", x.lane, x.inv, x.ret);
      report(o, cls, b + m);
      if (o.note.empty()) {
        o.note += "scan returned:";
        for (auto &e : s.got) { snprintf(b, sizeof b, " 0x%" PRIx64 "=0x%" PRIx64, e.first, e.second); o.note += b; }
        o.note += "\n";
        if (key >= 0) note_key((u32)key);
      }
    };
    bool rev = q.kind == ScanReq::FULL_R || q.kind == ScanReq::RRANGE;
    u32 sh = q.partial ? map_info((u32)p.get("variant")).prefix_bits : 0;
    // bounds as inclusive key-word intervals
    u64 lo = 0, hi = ~0ull;
    bool none = false;
    // a key prefix is a position just before all the keys that extend it
    auto below = [&](u64 k) { return k >> sh << sh; };
    switch (q.kind) {
    case ScanReq::LB: lo = below(q.lo); break;
    case ScanReq::UB: if (sh) lo = below(q.lo); else if (q.lo == ~0ull) none = true; else lo = q.lo + 1; break;
    case ScanReq::RANGE: case ScanReq::RRANGE:
      if (sh) {
        lo = below(q.lo);
        if (below(q.hi) == 0) none = true; else hi = below(q.hi) - 1;
      } else {
        if (q.lk == RK_INC) lo = q.lo; else if (q.lo == ~0ull) none = true; else lo = q.lo + 1;
        if (q.rk == RK_INC) hi = q.hi; else if (q.hi == 0) none = true; else hi = q.hi - 1;
      }
      break;
    default: break;
    }
    char b[120];
    if (x.kind == CURSOR) { check_cursor(x, s, bad); return; }
    u64 prev = 0;
    bool first = true;
    for (auto &e : s.got) {
      auto it = keyidx.find(e.first);
      snprintf(b, sizeof b, "key 0x%" PRIx64 " ", e.first);
      if (it == keyidx.end()) return bad("scan-garbage", std::string(b) + "was never inserted", -1);
      if (none || e.first < lo || e.first > hi) return bad("scan-bounds", std::string(b) + "is outside the requested range", it->second);
      if (!first && (rev ? e.first >= prev : e.first <= prev))
        return bad("scan-order", std::string(b) + "is out of order or repeated", it->second);
      if (e.second == TORN) {
        if (!torn_ok(it->second, x)) return bad("torn-value", std::string(b) + "came with a value that mixes two writes", it->second);
      } else if (const char *m = implausible(it->second, e.second, x.inv, x.ret))
        return bad("scan-stale", std::string(b) + "came with " + m, it->second);
      prev = e.first;
      first = false;
    }
    if (x.threw) return;
    if (none) return;
    if (s.cut && !s.got.empty()) { if (rev) lo = std::max(lo, prev); else hi = std::min(hi, prev); }
    if (s.cut && s.got.empty()) return;
    auto less = [](const std::pair<u64, u64> &a, const std::pair<u64, u64> &b) { return a.first < b.first; };
    auto more = [](const std::pair<u64, u64> &a, const std::pair<u64, u64> &b) { return a.first > b.first; };
    for (u32 k = 0; k < p.keys.size(); k++) {
      if (p.keys[k] < lo || p.keys[k] > hi) continue;
      std::pair<u64, u64> key{p.keys[k], 0};
      bool in = rev ? std::binary_search(s.got.begin(), s.got.end(), key, more) : std::binary_search(s.got.begin(), s.got.end(), key, less);
      if (!in && surely_present(k, x.inv, x.ret)) {
        snprintf(b, sizeof b, "key 0x%" PRIx64 " was present throughout but was skipped", p.keys[k]);
        return bad("scan-missed", b, k);
      }
    }
  }
  template <class B> void check_cursor(const Hist &x, const ScanRec &s, B &bad) {
    char b[160];
    // got: one entry per completed move; the moves are in x.v. The cursor is on
    // an element (at=0), before all (-1), behind all (1), or not placed yet (2).
    u64 cur = 0;
    int at = 2;
    u32 mi = 0;
    // keys in [from, to), or all the others on that side, were passed by a step
    auto passed = [&](bool lower, u64 from, bool upper, u64 to, const char *how) {
      for (u32 k = 0; k < p.keys.size(); k++)
        if ((!lower || p.keys[k] >= from) && (!upper || p.keys[k] < to) && surely_present(k, x.inv, x.ret)) {
          snprintf(b, sizeof b, "key 0x%" PRIx64 " was present throughout but %s", p.keys[k], how);
          bad("scan-missed", b, k);
          return true;
        }
      return false;
    };
    for (size_t i = 0; i < s.got.size(); i++) {
      auto &e = s.got[i];
      bool back = false, copy = false;
      if (at != 2) { u32 mv = (x.v >> (3 * mi++)) & 7; copy = mv == 4; back = mv & 1; }
      if (e.second == OFF) {
        if (copy ? at == 0 : false) return bad("scan-order", "a copied iterator is at the end although the original is not", -1);
        if (at == 2) { if (passed(true, s.rq.lo, false, 0, "the walk ended before it")) return; }
        else if (at == 0) {
          if (back ? passed(false, 0, true, cur, "the walk ended before it") : cur == ~0ull ? false : passed(true, cur + 1, false, 0, "the walk ended before it")) return;
        } else if (!copy && passed(false, 0, false, 0, "the cursor finds no element")) return;
        if (!copy) at = at == 2 ? 1 : back ? -1 : 1;
        continue;
      }
      auto it = keyidx.find(e.first);
      snprintf(b, sizeof b, "key 0x%" PRIx64 " ", e.first);
      if (it == keyidx.end()) return bad("scan-garbage", std::string(b) + "was never inserted", -1);
      if (e.second == TORN) {
        if (!torn_ok(it->second, x)) return bad("torn-value", std::string(b) + "came with a value that mixes two writes", it->second);
      } else if (const char *m = implausible(it->second, e.second, x.inv, x.ret))
        return bad("scan-stale", std::string(b) + "came with " + m, it->second);
      const char *over = "was stepped over";
      if (at == 2) {
        if (e.first < s.rq.lo) return bad("scan-bounds", std::string(b) + "is below the lower bound", it->second);
        if (passed(true, s.rq.lo, true, e.first, over)) return;
      } else if (copy) {
        if (at || e.first != cur) return bad("scan-order", std::string(b) + "differs after copying the iterator", it->second);
      } else if (at) { // back from an end
        if (back ? e.first != ~0ull && passed(true, e.first + 1, false, 0, over) : passed(false, 0, true, e.first, over)) return;
      } else {
        if (back ? e.first >= cur : e.first <= cur) return bad("scan-order", std::string(b) + "is not on the right side after a step", it->second);
        if (back ? passed(true, e.first + 1, true, cur, over) : passed(true, cur + 1, true, e.first, over)) return;
      }
      cur = e.first;
      at = 0;
    }
  }

  void run() {
    for (u32 k = 0; k < p.keys.size() && !o.bad; k++) {
      if (bykey[k].empty()) continue;
      o.lin_keys++;
      int r = linearizable(k);
      if (r < 0) o.lin_inconclusive++;
      if (r == 0) {
        char b[120];
        snprintf(b, sizeof b, "the operations on key 0x%" PRIx64 " have no sequential explanation", p.keys[k]);
        report(o, "linearizability", b);
        note_key(k);
      }
    }
    for (auto &x : h) if (x.scan >= 0 && !o.bad) check_scan(x);
  }
};

// ---------------------------------------------------------------- execution --
struct Exec {
  const Prog &p;
  Outcome &o;
  const MapInfo &mi;
  IMap *m;
  std::vector<Hist> h;
  std::vector<ScanRec> scans;
  u64 inserted = 0;
  bool faults;
  // A second map of the same type, used in between: every thread has keys of its own
  // there, so it knows what each call has to find.
  IMap *twin = nullptr;
  std::vector<u64> tval; // per key, 0: absent

  void twin_bad(const char *what, u32 k, Opt got) {
    char b[200];
    snprintf(b, sizeof b, "%s(0x%" PRIx64 ") on a second map, where no other thread uses this key, found 0x%" PRIx64 " (0: nothing) in place of 0x%" PRIx64, what,
             p.keys[k], got ? *got : 0, tval[k]);
    fail("second-map", b);
  }
  void twin_scan(u32 lane, bool rev) {
    struct C : Sink {
      std::vector<std::pair<u64, u64>> got;
      size_t cap;
      bool elem(u64 k, u64 v) override {
        progress_mark();
        got.push_back({k, v});
        if (got.size() > cap) fail("scan-endless", "an iteration yields more elements than were ever inserted");
        return true;
      }
      bool off() override { return true; }
    } c;
    c.cap = p.keys.size() * 4 + 64;
    ScanReq rq;
    rq.kind = rev ? ScanReq::FULL_R : ScanReq::FULL_F;
    twin->scan(rq, c);
    std::map<u64, std::pair<u32, u64>> seen;
    for (auto &e : c.got) { seen[e.first].first++; seen[e.first].second = e.second; }
    size_t mine = 0;
    for (u32 k = 0; k < p.keys.size(); k++) {
      auto it = seen.find(p.keys[k]);
      if (lane != 50 && k % 8 != lane % 8) continue;
      u64 v = it == seen.end() ? 0 : it->second.second;
      mine += v != 0;
      if ((u32)v != (u32)tval[k] || (v && it->second.first > 1)) twin_bad("an iteration past key ", k, v ? Opt(v) : Opt());
    }
    if (lane == 50 && mine != c.got.size()) fail("second-map", "an iteration over a second map shows keys that are not in it");
  }
  void twin_op(u32 lane, u32 uid, u64 h) {
    if (!twin) return;
    u32 n = (u32)p.keys.size(), k = (u32)(h >> 8) % n;
    if (lane != 50) k = k / 8 * 8 + lane % 8;
    if (k >= n) return;
    u64 kw = p.keys[k], nv = uval(uid + 0x40000000), old = tval[k];
    Opt got;
    bool lk = held_locks() != 0;
    auto same = [&](const char *w) { if ((got ? (u32)*got : 0) != (u32)old) twin_bad(w, k, got); };
    try {
      switch (h & 7) {
      case 0: case 1:
        if (twin->insert(kw, nv) != !old) twin_bad("Insert", k, {});
        if (!old) tval[k] = nv;
        break;
      case 2: got = twin->upsert(kw, nv); same("Upsert"); tval[k] = nv; break;
      case 3: got = twin->update(kw, nv); same("Update"); if (old) tval[k] = nv; break;
      case 4: case 5: got = twin->del(kw); same("Delete"); tval[k] = 0; break;
      case 6: got = twin->get(kw); same("Search"); break;
      case 7: if (mi.ordered) twin_scan(lane, h >> 7 & 1); break;
      }
    } catch (std::exception &e) {
      fail("unexpected-exception", std::string("a call on a second map threw ") + e.what());
    }
    progress_mark();
    flush_buffer();
    if (!lk && held_locks()) fail("lock-leak", "a call on a second map returned while still holding a lock");
  }
  void twin_verify() {
    if (!twin) return;
    size_t have = 0;
    for (u32 k = 0; k < p.keys.size(); k++) {
      Opt g = twin->get(p.keys[k]);
      have += tval[k] != 0;
      if ((g ? (u32)*g : 0) != (u32)tval[k]) twin_bad("Search", k, g);
    }
    if (mi.ordered) twin_scan(50, false), twin_scan(50, true);
    i64 n = twin->size();
    if (n >= 0 && (u64)n != have) fail("second-map", "size() of a second map is not the number of its keys");
  }
  void twin_destroy() {
    if (!twin) return;
    { Sut s; twin->destroy(); }
    delete twin;
    twin = nullptr;
  }

  struct Col : Sink {
    ScanRec *s;
    u32 cap;
    Exec *ex = nullptr;
    const Op *op = nullptr;
    u32 lane = 0, inner = 0, done = 0; // calls the thread makes while it iterates
    bool elem(u64 k, u64 v) override {
      progress_mark();
      s->got.push_back({k, v});
      if (ex->twin) {
        u64 h = mix64((u64)op->uid << 9 | s->got.size());
        if (h % 4 == 0) ex->twin_op(lane, op->uid, h >> 3);
      }
      if (done < inner) {
        u64 h = mix64((u64)op->uid << 8 | s->got.size());
        if (h % 3 == 0) {
          h >>= 8;
          Op o;
          static const u8 kinds[] = {INS, INS, UPS, DEL, DEL, DEL, UPD, GET, SCAN, CURSOR};
          o.kind = kinds[h % 10];
          o.uid = op->uid + 1 + done++;
          auto &ks = ex->p.keys;
          u32 n = (u32)ks.size(), c = (u32)(std::find(ks.begin(), ks.end(), k) - ks.begin()) % n;
          h >>= 8;
          o.k = h & 3 ? (c + (u32)(h >> 2) % 5 + n - 2) % n : (u32)(h >> 2) % n;
          o.k2 = (u32)(h >> 24) % n;
          o.arg = (u32)(h >> 10) & 0xffffff;
          ex->one(lane, o);
        }
      }
      if (s->rq.limit && s->got.size() >= s->rq.limit) { s->cut = true; return false; }
      if (s->got.size() > cap) fail("scan-endless", "an iteration yields more elements than were ever inserted");
      return true;
    }
    bool off() override {
      progress_mark();
      s->got.push_back({0, OFF});
      return true;
    }
  };

  void one(u32 lane, const Op &op) {
    u64 kw = op.k < p.keys.size() ? p.keys[op.k] : 0;
    Hist x{lane, op.kind, op.k, uval(op.uid), 0, 0, false, false, {}, 0, -1};
    sync_point(EV_OP);
    if (op.kind == REREG) {
      unregister_thread();
      sync_point(EV_USER);
      register_thread();
      counters().churn++;
      return;
    }
    if (op.kind == PAUSE) { for (u32 i = 0; i < op.arg % 8; i++) sync_point(EV_USER); return; }
    if (twin) {
      u64 h = mix64((u64)op.uid * 977 + lane);
      if (h % 3 == 0) twin_op(lane, op.uid, h >> 3);
    }
    ScanRec sr;
    Col col;
    std::vector<u8> moves;
    if (op.kind == SCAN || op.kind == CURSOR) {
      sr.cut = false;
      col.s = &sr;
      col.ex = this;
      col.op = &op;
      col.lane = lane;
      if (op.kind == SCAN && !faults) col.inner = op.arg >> 24 & 15;
      col.cap = (u32)(p.keys.size() * 4 + 64);
      auto &q = sr.rq;
      q.lo = kw;
      q.hi = op.k2 < p.keys.size() ? p.keys[op.k2] : 0;
      if (op.kind == SCAN) {
        q.kind = (ScanReq::Kind)((op.arg & 15) % 6);
        q.lk = op.arg >> 4 & 1;
        q.rk = op.arg >> 5 & 1;
        q.partial = mi.prefix_bits && (op.arg >> 8 & 1);
        q.post = op.arg >> 9 & 1;
        q.alt = op.arg >> 10 & 3;
        q.limit = op.arg >> 12 & 15;
        u64 mx = mi.key_max_bits >= 64 ? ~0ull : (1ull << mi.key_max_bits) - 1;
        u32 a = op.arg >> 20 & 3, b = op.arg >> 22 & 3; // bounds next to a key
        if (a == 1 && q.lo) q.lo--;
        if (a == 2 && q.lo < mx) q.lo++;
        if (b == 1 && q.hi) q.hi--;
        if (b == 2 && q.hi < mx) q.hi++;
        if ((q.kind == ScanReq::RANGE || q.kind == ScanReq::RRANGE) && q.lo > q.hi) std::swap(q.lo, q.hi);
      } else {
        q.kind = ScanReq::LB;
        u32 bits = op.arg;
        u64 enc = 0;
        u32 nm = 1 + bits % 9;
        bits /= 9;
        for (u32 i = 0; i < nm; i++) {
          u32 mv = bits % 9;
          bits = (u32)mix64(bits + 17);
          u8 code = mv < 4 ? 0 : mv < 6 ? 1 : mv == 6 ? 2 : mv == 7 ? 3 : 4;
          moves.push_back(code);
          enc |= (u64)code << (3 * i);
        }
        x.v = enc;
      }
    }
    x.inv = now_step();
    set_faults(faults);
    try {
      switch (op.kind) {
      case INS: x.ok = m->insert(kw, x.v); break;
      case UPS: x.old = m->upsert(kw, x.v); break;
      case UPD: x.old = m->update(kw, x.v); break;
      case DEL: x.old = m->del(kw); break;
      case GET: x.old = m->get(kw); break;
      case SOLO: arm_solo(op.arg); x.old = m->get(kw); end_solo(); break;
      case SCAN: m->scan(sr.rq, col); break;
      case CURSOR: {
        m->cursor(kw, moves, col);
        break;
      }
      case RESERVE: m->reserve(op.arg); break;
      case RECLAIM: m->reclaim(); break;
      case SIZE:
        if (op.k & 1 && m->load() >= 0) break;
        x.n = m->size();
        break;
      }
    } catch (std::bad_alloc &) {
      if (!faults) fail("unexpected-exception", std::string(KN[op.kind]) + " threw bad_alloc although no allocation failed");
      x.threw = true;
      o.threw++;
    } catch (std::exception &e) {
      fail("unexpected-exception", std::string(KN[op.kind]) + " threw " + e.what());
    } catch (...) {
      fail("unexpected-exception", std::string(KN[op.kind]) + " threw an unknown exception");
    }
    set_faults(false);
    progress_mark();
    flush_buffer();
    if (held_locks()) fail("lock-leak", std::string(KN[op.kind]) + " returned while still holding a lock");
    x.ret = now_step();
    if ((op.kind == INS && x.ok) || (op.kind == UPS)) inserted++;
    o.ops++;
    if (op.kind == SCAN || op.kind == CURSOR) { x.scan = (i64)scans.size(); scans.push_back(std::move(sr)); }
    if (op.kind <= CURSOR || op.kind == SOLO) h.push_back(x);
  }

  void verify(bool final) {
    // quiescent: every reading of the map must tell the same story
    std::vector<std::pair<u64, u64>> now;
    for (u32 k = 0; k < p.keys.size(); k++) {
      Op g;
      g.kind = GET;
      g.k = k;
      one(50, g);
      if (h.back().old) now.push_back({p.keys[k], *h.back().old});
    }
    if (p.get("size")) {
      char b[160];
      i64 n = m->size();
      if (n >= 0 && (u64)n != now.size()) {
        snprintf(b, sizeof b, "size() is %lld while %zu keys are present and no thread is active", (long long)n, now.size());
        fail("size", b);
      }
      int e = m->empty();
      if (e >= 0 && (bool)e != now.empty()) {
        snprintf(b, sizeof b, "empty() is %d while %zu keys are present", e, now.size());
        fail("size", b);
      }
      int lf = m->load();
      if (lf >= 0 || mi.probe) { // no more buckets than there is memory for, and no fewer than elements
        u64 least = now.size() * 100 / (live_bytes() / 16 + 1);
        if (lf < (int)least || lf > (now.empty() ? 0 : 100)) {
          snprintf(b, sizeof b, "load_factor() is %d with %zu keys in at most %" PRIu64 " bytes", lf, now.size(), live_bytes());
          fail("size", b);
        }
      }
      int ht = m->height();
      u32 cap = mi.cap;
      if (ht >= 0) {
        // every level at least doubles the number of leaves ever created
        u32 lim = 2;
        for (u64 x = inserted + 1; x; x >>= 1) lim++;
        if (ht > (int)lim) {
          snprintf(b, sizeof b, "height() is %d after %" PRIu64 " insertions", ht, inserted);
          fail("height", b);
        }
        u64 fits = 1;
        for (int i = 0; i <= ht && fits < now.size(); i++) fits *= cap;
        if (cap && fits < now.size()) {
          snprintf(b, sizeof b, "height() is %d with %zu keys, but a node has no more than %u entries", ht, now.size(), cap);
          fail("height", b);
        }
      }
    }
    if (p.get("scanq")) {
      char b[160];
      for (u32 d = 0; d < 2; d++) {
        Op g;
        g.kind = SCAN;
        g.arg = d;
        one(50, g);
        auto &got = scans.back().got;
        auto want = now;
        if (d) std::reverse(want.begin(), want.end());
        if (got != want) {
          size_t i = 0;
          while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
          snprintf(b, sizeof b, "with no thread active, %s iteration yields %zu elements and searches find %zu; first difference at position %zu",
                   d ? "reverse" : "forward", got.size(), want.size(), i);
          fail("iteration", b);
        }
      }
    }
    (void)final;
  }

  // memory still held once all garbage is gone, against a map built afresh
  void space() {
    u32 variant = (u32)p.get("variant"), n = (u32)p.keys.size();
    u64 a0 = live_allocs();
    { Sut s; m->reclaim(); }
    u64 garbage = a0 - live_allocs(), held = live_bytes(), dels = 0;
    std::vector<bool> in(n);
    std::vector<u32> live, peak, now;
    for (auto &op : p.prefill) {
      if ((op.kind == INS || op.kind == UPS) && !in[op.k]) { in[op.k] = true; live.push_back(op.k); }
      if (op.kind == DEL && in[op.k]) { in[op.k] = false; live.erase(std::find(live.begin(), live.end(), op.k)); }
      if (live.size() > peak.size()) peak = live;
    }
    for (auto &r : p.rounds) for (auto &t : r) for (auto &op : t) {
      if ((op.kind == INS || op.kind == UPS) && !in[op.k]) { in[op.k] = true; peak.push_back(op.k); }
      dels += op.kind == DEL;
    }
    for (size_t i = h.size() - n; i < h.size(); i++) if (h[i].old) now.push_back(h[i].k);
    IMap *f = make_map(variant, (u32)p.get("hash"));
    u64 objects = 0;
    auto fresh = [&](const std::vector<u32> &ks) {
      u64 b = live_bytes(), a = live_allocs();
      { Sut s; f->construct((u32)p.get("ctor")); }
      for (u32 k : ks) f->insert(p.keys[k], 1);
      { Sut s; f->reclaim(); }
      b = live_bytes() - b;
      objects = live_allocs() - a;
      { Sut s; f->destroy(); }
      return b;
    };
    u64 base = fresh({}), none = objects, one = fresh({0}) - base;
    for (u32 k = 0; k < n; k++)
      if (p.keys[k] & 0xFF) { fresh({k}); break; } // other string keys are too short to own memory
    bool plain = objects - none <= !mi.probe; // keys and values own no memory
    u64 need = fresh(mi.probe ? peak : now) - base, lim;
    if (mi.probe) lim = 4 * need + 12288; // a table does not shrink before it next fills up
    else if (mi.cap) { // b-tree: a node merges only with its left neighbour under the same parent, and only when something is deleted in it
      u64 levels = 2;
      for (u64 x = peak.size(); x; x >>= 1) levels++;
      lim = 4 * need + 16 * levels * one;
    } else lim = 4 * need + 4096;
    if (p.rounds[0].size() > 1) lim += dels * (mi.cap ? one : 256); // merges given up because another thread was faster
    char b[240];
    if (held > base + lim && !(mi.probe && mi.probe < 255)) {
      snprintf(b, sizeof b, "after %zu operations that never had more than %zu keys present, %" PRIu64 " bytes are still held for %zu keys; a new map takes %" PRIu64
               " bytes for these%s, and the limit is %" PRIu64, p.prefill.size(), peak.size(), held - base, now.size(), need, mi.probe ? " (at their most)" : "", lim);
      fail("space", b);
    }
    u64 t = (u64)p.get("threshold");
    if (plain && p.rounds[0].size() == 1 && garbage > (mi.probe ? 4 : 1) * (2 * t + (mi.probe ? 16 : 100))) {
      snprintf(b, sizeof b, "%" PRIu64 " retired objects were still waiting for reclamation although no other operation ran and the threshold is %" PRIu64, garbage, t);
      fail("space", b);
    }
    delete f;
  }

  void run() {
    set_thread_ids((u32)p.get("ids"), mi.ids ? mi.ids : MAX_THREADS);
    bool ok = run_phase({[&] {
      register_thread();
      reclamation_threshold = p.get("threshold") ? (int)p.get("threshold") : 1000;
      u32 tw = (u32)p.get("twin");
      auto second = [&] {
        twin = make_map((u32)p.get("variant"), (u32)p.get("hash"));
        tval.assign(p.keys.size(), 0);
        Sut s;
        twin->construct((u32)p.get("ctor") / 2);
      };
      if (tw & 1) second();
      { Sut s; m->construct((u32)p.get("ctor")); }
      if (tw && !twin) second();
      bool f = faults;
      faults = false;
      for (auto &op : p.prefill) one(50, op);
      faults = f;
      flush_buffer();
      unregister_thread();
    }}, true);
    u32 rd = 0;
    for (auto &r : p.rounds) {
      if (!ok) break;
      std::vector<std::function<void()>> bodies;
      for (u32 t = 0; t < r.size(); t++)
        bodies.push_back([&, t] {
          register_thread();
          for (auto &op : r[t]) one(t, op);
          flush_buffer();
          unregister_thread();
        });
      ok = run_phase(bodies, false);
      if (!ok) break;
      bool f = faults;
      faults = false;
      ok = run_phase({[&] {
        register_thread();
        if (p.get("move") && rd + 1 == p.get("move")) {
          { Sut s; m->move_construct(); }
        }
        if (p.get("reclaim_mid")) m->reclaim();
        verify(false);
        twin_verify();
        if (p.get("twin") > 3) { twin_destroy(); verify(false); }
        flush_buffer();
        unregister_thread();
      }}, true);
      faults = f;
      rd++;
    }
    if (ok)
      ok = run_phase({[&] {
        register_thread();
        if (p.get("space")) { verify(true); space(); }
        if (u32 n = (u32)p.get("rsv")) { // makes room for n elements, and changes nothing else
          m->reserve(n);
          u64 have = (u64)m->size(), lf = (u64)m->load();
          if (lf * n > 100 * have) {
            char b[120];
            snprintf(b, sizeof b, "load_factor() is %d with %d keys after reserve(%u), with no other thread active", (int)lf, (int)have, n);
            fail("size", b);
          }
          verify(true);
        }
        if (p.get("reclaim_end")) { Sut s; m->reclaim(); }
        { Sut s; m->destroy(); }
        if (twin) { twin_verify(); twin_destroy(); }
        flush_buffer();
        unregister_thread();
        end_thread_locals();
        if (p.get("leak") && live_allocs()) {
          char b[100];
          snprintf(b, sizeof b, "%" PRIu64 " objects (%" PRIu64 " bytes) are still allocated after the map was destroyed:", live_allocs(), live_bytes());
          fail("leak", b + describe_leaks(4));
        }
      }}, true);
  }
};

void exec_prog(const Prog &p, Outcome &o) {
  u32 variant = (u32)p.get("variant");
  IMap *m = make_map(variant, (u32)p.get("hash"));
  Exec *e = new Exec{p, o, map_info(variant), m, {}, {}, 0, p.get("alloc") != 0};
  e->run();
  o.by_events = !e->mi.concurrent;
  o.nontrivial = p.get("alloc") ? counters().allocfails > 0 : counters().preempts > 0 || !e->mi.concurrent;
  if (!violation().set) {
    Checker c(p, o, e->h, e->scans);
    c.run();
  } else {
    Checker c(p, o, e->h, e->scans);
    std::string s;
    size_t n = e->h.size(), from = n > 25 ? n - 25 : 0;
    for (size_t i = from; i < n; i++)
      if (e->h[i].kind <= GET || e->h[i].kind == SOLO) s += c.line(e->h[i]);
    o.note = s;
  }
  // fibers abandoned by a violation may still refer to these: leak them then
  if (!violation().set) { delete e; delete m; }
}
} // namespace sim
