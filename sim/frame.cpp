#include "frame.h"
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
static double wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void report(Outcome &o, const std::string &cls, const std::string &msg) {
  if (o.bad) return;
  o.bad = true;
  o.cls = cls;
  o.msg = msg;
}

static std::vector<std::string> known_ids; // at most 16
static void set_known(const std::string &list) {
  known_ids.clear();
  std::istringstream is(list);
  std::string w;
  while (std::getline(is, w, ',')) if (!w.empty() && known_ids.size() < 16) known_ids.push_back(w);
}
bool (*forgive)(const Prog &, Outcome &) = nullptr;
bool known_finding(Outcome &o, const char *id) {
  for (size_t i = 0; i < known_ids.size(); i++)
    if (known_ids[i] == id) { o.known[i]++; return true; }
  return false;
}

// ------------------------------------------------------------ schedule config --
void gen_sched(Rng &r, SchedCfg &c, bool progress, bool allocfail, u32 len) {
  u32 mode = r.below(115);
  auto logu = [&](double lo, double hi) {
    double x = r.next32() / 4294967296.0;
    double v = lo;
    // log-uniform without libm
    double ratio = hi / lo;
    for (double b = 0.5, f = ratio; b > 1e-4; b *= 0.5) {
      double s = f; // sqrt by Newton
      for (int i = 0; i < 30; i++) s = 0.5 * (s + f / s);
      f = s;
      if (x >= b) { v *= f; x -= b; }
    }
    return v;
  };
  if (mode < 40) { // preempt at synchronisation events
    double p = logu(0.01, 0.5);
    for (int e : {EV_ALOAD, EV_ASTORE, EV_ARMW, EV_FENCE, EV_LOCK, EV_UNLOCK, EV_OP, EV_ALLOC, EV_FREE})
      c.p_switch[e] = p;
    c.p_switch[EV_PLAIN_R] = c.p_switch[EV_PLAIN_W] = r.chance(0.5) ? p * 0.1 : 0;
    if (r.chance(0.3)) { c.p_switch[EV_ALOAD] *= 0.2; }
    if (r.chance(0.2)) c.p_switch[EV_LOCK] = c.p_switch[EV_UNLOCK] = 0.6;
  } else if (mode < 65) { // priorities with few change points
    c.pct_depth = 1 + r.below(5);
    c.pct_len = (u32)logu(60, len * 2.0 + 100);
    if (r.chance(0.5)) c.p_switch[EV_PLAIN_R] = c.p_switch[EV_PLAIN_W] = 0.01; // consider plain events too
  } else if (mode < 85) { // everywhere
    double p = logu(0.002, 0.2);
    for (int e = 0; e < EV_NUM; e++) c.p_switch[e] = p;
  } else if (mode >= 100) { // stop threads in the middle of their updates
    double p = logu(0.02, 0.6);
    c.p_switch[EV_ASTORE] = c.p_switch[EV_PLAIN_W] = p;
    if (r.chance(0.5)) c.p_switch[EV_PLAIN_W] = p * 0.05;
    c.p_switch[EV_ARMW] = c.p_switch[EV_UNLOCK] = r.chance(0.5) ? p : 0.02;
    c.p_switch[EV_ALOAD] = r.chance(0.5) ? 0.01 : 0.1;
    c.p_stall = r.chance(0.5) ? 0.9 : 0.4;
    c.stall_max = (u32)logu(100, 20000);
  } else { // long runs of one thread
    c.quantum = (u32)logu(5, 600);
    if (r.chance(0.5)) for (int e = 0; e < EV_NUM; e++) c.p_switch[e] = 0.002;
  }
  if (r.chance(progress ? 0.6 : 0.35) && !c.pct_depth && c.p_stall == 0) {
    c.p_stall = logu(0.02, 0.5);
    c.stall_max = (u32)logu(50, 20000);
  }
  if (r.chance(0.45)) {
    c.tso = true;
    c.p_buffer = r.chance(0.5) ? 0.9 : 0.3;
    c.p_drain = r.chance(0.5) ? logu(0.003, 0.2) : logu(0.0001, 0.01);
    c.lazy = r.chance(0.5);
    c.weak = getenv("SIM_WEAK") ? atoi(getenv("SIM_WEAK")) : r.chance(0.4);
  }
  if (r.chance(0.3)) c.p_tryfail = 0.3;
  if (allocfail) c.p_allocfail = logu(0.003, 0.3);
  if (r.chance(0.2)) {
    c.victim = (int)r.below(2);
    c.p_victim = logu(0.02, 0.5);
    c.victim_stall = (u32)logu(100, 8000);
    if (r.chance(0.5)) for (double &x : c.p_switch) x *= 0.1;
    c.pct_depth = 0;
  }
  c.reuse = r.chance(0.35);
  c.fill = r.chance(0.5) ? 0xCD : (r.chance(0.5) ? 0 : 0xFF);
  c.fair_after = progress ? (u64)logu(3000, 200000) : 150000;
}

// -------------------------------------------------------------- serialisation --
static void put(std::string &s, const char *f, ...) {
  char b[600];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  s += b;
}
static void ser_ops(std::string &s, const Ops &v) {
  for (auto &o : v) put(s, "  op %u %u %u %u %u\n", o.kind, o.k, o.k2, o.uid, o.arg);
}
static void ser_prog(std::string &s, const Prog &p, bool readable) {
  put(s, "seed %" PRIu64 " %" PRIu64 "\nprofile %s\n", p.seed, p.sched_seed, p.profile.c_str());
  for (auto &kv : p.par) put(s, "par %s %lld\n", kv.first.c_str(), (long long)kv.second);
  auto &c = p.cfg;
  put(s, "cfg %d %u %d %a %a %a %u %a %a %d %u %u %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", c.pct_depth, c.pct_len, (int)c.tso + (int)c.weak,
      c.p_buffer, c.p_drain, c.p_stall, c.stall_max, c.p_allocfail, c.p_tryfail, c.reuse, (u32)c.fill, c.quantum,
      c.fair_after, c.fair_budget, c.solo_budget);
  s += "psw";
  for (double d : c.p_switch) put(s, " %a", d);
  s += "\nkeys";
  for (u64 k : p.keys) put(s, " %" PRIu64, k);
  s += "\nprefill\n";
  ser_ops(s, p.prefill);
  for (auto &r : p.rounds) {
    s += "round\n";
    for (auto &t : r) {
      s += " thread\n";
      for (auto &o : t) {
        if (readable) { s += "  # "; s += op_text(p, o); s += "\n"; }
        put(s, "  op %u %u %u %u %u\n", o.kind, o.k, o.k2, o.uid, o.arg);
      }
    }
  }
}
static void ser_trace(std::string &s, const std::vector<Dec> &t) {
  static const char *kn[] = {"switch", "buffer", "drain", "allocfail", "tryfail"};
  for (auto &d : t) put(s, "dec %u %u %u %u %u # %s\n", d.phase, d.tid, d.idx, d.kind, d.arg, kn[d.kind]);
}

struct Replay {
  std::string component, cls, msg, known;
  u64 eh = 0;
  Prog p;
  std::vector<Dec> trace;
};
static bool parse(std::istream &in, Replay &r) {
  std::string line, w;
  Ops *cur = nullptr;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    if (!(is >> w) || w[0] == '#') continue;
    if (w == "component") is >> r.component;
    else if (w == "class") is >> r.cls;
    else if (w == "known") is >> r.known;
    else if (w == "hash") is >> r.eh;
    else if (w == "message") std::getline(is, r.msg);
    else if (w == "seed") is >> r.p.seed >> r.p.sched_seed;
    else if (w == "profile") is >> r.p.profile;
    else if (w == "par") { std::string n; long long v; is >> n >> v; r.p.par[n] = v; }
    else if (w == "cfg") {
      auto &c = r.p.cfg;
      std::vector<std::string> f;
      while (is >> w) f.push_back(w);
      if (f.size() < 15) return false;
      c.pct_depth = atoi(f[0].c_str()); c.pct_len = (u32)atol(f[1].c_str()); c.tso = atoi(f[2].c_str()); c.weak = c.tso && atoi(f[2].c_str()) == 2;
      c.p_buffer = strtod(f[3].c_str(), 0); c.p_drain = strtod(f[4].c_str(), 0);
      c.p_stall = strtod(f[5].c_str(), 0); c.stall_max = (u32)atol(f[6].c_str());
      c.p_allocfail = strtod(f[7].c_str(), 0); c.p_tryfail = strtod(f[8].c_str(), 0);
      c.reuse = atoi(f[9].c_str()); c.fill = (u8)atoi(f[10].c_str()); c.quantum = (u32)atol(f[11].c_str());
      c.fair_after = strtoull(f[12].c_str(), 0, 10); c.fair_budget = strtoull(f[13].c_str(), 0, 10);
      c.solo_budget = strtoull(f[14].c_str(), 0, 10);
    } else if (w == "psw") {
      for (double &d : r.p.cfg.p_switch) { is >> w; d = strtod(w.c_str(), 0); }
    } else if (w == "keys") { u64 k; while (is >> k) r.p.keys.push_back(k); }
    else if (w == "prefill") cur = &r.p.prefill;
    else if (w == "round") { r.p.rounds.emplace_back(); cur = nullptr; }
    else if (w == "thread") { r.p.rounds.back().emplace_back(); cur = &r.p.rounds.back().back(); }
    else if (w == "op") { Op o; is >> o.kind >> o.k >> o.k2 >> o.uid >> o.arg; if (!cur) return false; cur->push_back(o); }
    else if (w == "dec") { Dec d; is >> d.phase >> d.tid >> d.idx >> d.kind >> d.arg; r.trace.push_back(d); }
  }
  return true;
}

// ------------------------------------------------------------------ executing --
static Outcome execute(const Prog &p, const std::vector<Dec> *replay) {
  Outcome o;
  run_begin(p.sched_seed, p.cfg, replay);
  exec_prog(p, o);
  run_end();
  auto &v = violation();
  if (v.set) {
    o.bad = true;
    o.cls = v.cls;
    o.msg = v.msg;
    o.stack = v.stack;
    o.tid = v.tid;
    o.step = v.step;
  }
  if (o.bad && forgive && forgive(p, o)) o.bad = false;
  o.eh = event_hash();
  o.sh = o.by_events ? o.eh : sched_hash();
  o.trace = trace();
  o.c = counters();
  return o;
}

// --- children with a shared result buffer ---
static constexpr size_t SLOT = 16u << 20;
static constexpr int NSLOT = 10;
static char *slots[NSLOT];
static void init_slots() {
  for (auto &s : slots)
    s = (char *)mmap(nullptr, SLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
struct Attempt {
  Prog p;
  std::vector<Dec> trace;
  bool use_trace = false;
  u32 tries = 1; // different schedule seeds when searching
};
struct Result {
  bool ok = false; // same class found
  Outcome o;
  u64 sched_seed = 0;
};
static void child_body(const Attempt &a, const std::string &cls, char *out) {
  alarm(60);
  start_watchdog();
  for (u32 j = 0; j < a.tries; j++) {
    Prog p = a.p;
    if (j) p.sched_seed = mix64(a.p.sched_seed + 0x1234567 * j);
    Outcome o = execute(p, a.use_trace ? &a.trace : nullptr);
    if (!o.bad || (!cls.empty() && o.cls != cls)) {
      if (j + 1 < a.tries || !cls.empty()) continue;
    }
    std::string s;
    put(s, "ok %d %" PRIu64 " %" PRIu64 " %" PRIu64 " %u %" PRIu64 "\n", (int)o.bad, p.sched_seed, o.eh, o.sh, o.tid, o.step);
    s += "class " + o.cls + "\nmessage " + o.msg + "\nstack";
    for (void *q : o.stack) put(s, " %" PRIu64, (u64)q);
    s += "\n";
    ser_trace(s, o.trace);
    std::string n = o.note;
    std::istringstream is(n);
    std::string l;
    while (std::getline(is, l)) s += "note " + l + "\n";
    if (s.size() < SLOT - 16) {
      memcpy(out + 8, s.data(), s.size());
      *(volatile u64 *)out = s.size();
    }
    _exit(0);
  }
  _exit(1);
}
static Result read_slot(char *out) {
  Result r;
  u64 n = *(volatile u64 *)out;
  if (!n) return r;
  std::istringstream in(std::string(out + 8, n));
  std::string line, w;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    is >> w;
    if (w == "ok") { int b; is >> b >> r.sched_seed >> r.o.eh >> r.o.sh >> r.o.tid >> r.o.step; r.o.bad = b; r.ok = true; }
    else if (w == "class") is >> r.o.cls;
    else if (w == "message") { std::getline(is, r.o.msg); if (!r.o.msg.empty()) r.o.msg.erase(0, 1); }
    else if (w == "stack") { u64 q; while (is >> q) r.o.stack.push_back((void *)q); }
    else if (w == "dec") { Dec d; is >> d.phase >> d.tid >> d.idx >> d.kind >> d.arg; r.o.trace.push_back(d); }
    else if (w == "note") { r.o.note += line.substr(std::min<size_t>(5, line.size())) + "\n"; }
  }
  return r;
}
// Runs the attempts in forked children, up to 8 at a time; returns the index of
// the first (lowest) attempt that reproduces cls, or -1.
static int try_batch(const std::vector<Attempt> &as, const std::string &cls, Result &res, int par = 8) {
  for (size_t b = 0; b < as.size(); b += par) {
    size_t e = std::min(as.size(), b + par);
    std::vector<pid_t> pids;
    for (size_t i = b; i < e; i++) {
      *(volatile u64 *)slots[i - b] = 0;
      pid_t pid = fork();
      if (pid == 0) child_body(as[i], cls, slots[i - b]);
      pids.push_back(pid);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
    for (size_t i = b; i < e; i++) {
      Result r = read_slot(slots[i - b]);
      if (r.ok && (cls.empty() || r.o.cls == cls)) { res = r; return (int)i; }
    }
  }
  return -1;
}

// ---------------------------------------------------------------- minimisation --
static size_t nops(const Prog &p) {
  size_t n = 0;
  for (auto &r : p.rounds) for (auto &t : r) n += t.size();
  return n;
}
static void tidy(Prog &p) {
  for (auto &r : p.rounds)
    while (r.size() > 1 && r.back().empty()) r.pop_back();
  while (p.rounds.size() > 1 && nops({0, 0, "", {}, {}, {}, {p.rounds.back()}, {}}) == 0) p.rounds.pop_back();
}
struct MinResult { Prog p; std::vector<Dec> trace; Outcome o; u32 steps = 0; size_t ops0 = 0, dec0 = 0; };

static MinResult minimise(Prog p, Outcome o, double budget) {
  double t0 = wall();
  MinResult m;
  m.ops0 = nops(p) + p.prefill.size();
  m.dec0 = o.trace.size();
  std::string cls = o.cls;
  std::vector<Dec> tr = o.trace;
  const u32 TRIES = 150;
  auto over = [&](double f) { return wall() - t0 > budget * f; };
  // programs
  bool progress = true;
  while (progress && !over(0.6)) {
    progress = false;
    std::vector<Attempt> cands;
    auto add = [&](Prog q) {
      tidy(q);
      Attempt a;
      a.p = q;
      a.tries = TRIES;
      cands.push_back(a);
    };
    if (p.rounds.size() > 1)
      for (size_t r = p.rounds.size(); r-- > 0;) { Prog q = p; q.rounds.erase(q.rounds.begin() + r); add(q); }
    for (size_t r = 0; r < p.rounds.size(); r++)
      if (p.rounds[r].size() > 1)
        for (size_t t = 0; t < p.rounds[r].size(); t++) {
          Prog q = p; q.rounds[r].erase(q.rounds[r].begin() + t); add(q);
        }
    for (size_t n = p.prefill.size(), ch = n; ch >= 1 && n; ch = ch > 1 ? (ch + 1) / 2 : 0) {
      size_t cnt = 0;
      for (size_t i = 0; i < n && cnt < 8; i += ch, cnt++) {
        Prog q = p;
        q.prefill.erase(q.prefill.begin() + i, q.prefill.begin() + std::min(n, i + ch));
        add(q);
      }
      if (ch == 1) break;
    }
    for (size_t r = 0; r < p.rounds.size(); r++)
      for (size_t t = 0; t < p.rounds[r].size(); t++) {
        auto &v = p.rounds[r][t];
        if (v.size() > 3) {
          for (int half = 0; half < 2; half++) {
            Prog q = p;
            auto &w = q.rounds[r][t];
            if (half) w.erase(w.begin() + w.size() / 2, w.end()); else w.erase(w.begin(), w.begin() + w.size() / 2);
            add(q);
          }
        }
        for (size_t i = v.size(); i-- > 0;) {
          Prog q = p; q.rounds[r][t].erase(q.rounds[r][t].begin() + i); add(q);
        }
      }
    if (p.cfg.weak) { Prog q = p; q.cfg.weak = false; add(q); }
    if (p.cfg.tso) { Prog q = p; q.cfg.tso = q.cfg.weak = false; add(q); }
    if (p.cfg.p_allocfail > 0) { Prog q = p; q.cfg.p_allocfail = 0; add(q); }
    if (p.cfg.reuse) { Prog q = p; q.cfg.reuse = 0; add(q); }
    if (p.cfg.p_tryfail > 0) { Prog q = p; q.cfg.p_tryfail = 0; add(q); }
    if (p.cfg.p_stall > 0) { Prog q = p; q.cfg.p_stall = 0; add(q); }
    if (p.cfg.victim >= 0) { Prog q = p; q.cfg.victim = -1; add(q); }
    for (size_t b = 0; b < cands.size() && !over(0.6); b += 8) {
      std::vector<Attempt> sub(cands.begin() + b, cands.begin() + std::min(cands.size(), b + 8));
      Result r;
      int i = try_batch(sub, cls, r);
      if (i >= 0) {
        p = sub[i].p;
        p.sched_seed = r.sched_seed;
        tr = r.o.trace;
        o = r.o;
        progress = true;
        m.steps++;
        break;
      }
    }
  }
  // schedule and fault trace
  std::vector<Dec> best = tr;
  size_t chunk = std::max<size_t>(1, best.size() / 2);
  while (!best.empty() && !over(1.0)) {
    bool any = false;
    for (size_t i = 0; i < best.size() && !over(1.0);) {
      std::vector<Attempt> cands;
      std::vector<size_t> at;
      for (int k = 0; k < 8 && i + k * chunk < best.size(); k++) {
        Attempt a;
        a.p = p;
        a.use_trace = true;
        a.trace = best;
        size_t s = i + k * chunk, e = std::min(best.size(), s + chunk);
        a.trace.erase(a.trace.begin() + s, a.trace.begin() + e);
        cands.push_back(a);
        at.push_back(s);
      }
      Result r;
      int j = try_batch(cands, cls, r);
      if (j >= 0) { best = cands[j].trace; any = true; i = at[j]; m.steps++; }
      else i += chunk * cands.size();
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > best.size()) chunk = std::max<size_t>(1, chunk / 2);
  }
  // final canonical run
  Attempt a;
  a.p = p;
  a.use_trace = true;
  a.trace = best;
  Result r;
  if (try_batch({a}, cls, r) == 0) { m.p = p; m.trace = best; m.o = r.o; }
  else {
    a.trace = tr;
    if (try_batch({a}, cls, r) == 0) { m.p = p; m.trace = tr; m.o = r.o; }
    else m.o.bad = false;
  }
  return m;
}

// ----------------------------------------------------------------------- JSON --
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

struct Stats {
  u64 runs = 0, nontrivial = 0, ops = 0, lin_keys = 0, lin_inconclusive = 0, scans = 0, threw = 0;
  u64 known[16] = {};
  Counters c;
};

static Prog make_prog(u64 base, u64 i, const std::string &prof) {
  u64 seed = mix64(base * 0x9E3779B97F4A7C15ull + i);
  Prog p = gen_prog(seed, prof);
  p.seed = seed;
  p.sched_seed = mix64(seed ^ 0x77);
  p.profile = prof;
  return p;
}



struct Shared { // one per worker
  volatile u64 done, found, found_idx, cur_idx;
  Stats st;
  u64 nhash;
  char what[200]; // class and message of what was found
};

static int cmd_run(std::map<std::string, std::string> &a) {
  u64 base = strtoull(a["seed"].c_str(), 0, 10);
  double secs = atof(a["secs"].c_str());
  u64 max_runs = a.count("max") ? strtoull(a["max"].c_str(), 0, 10) : ~0ull;
  u64 first = a.count("first") ? strtoull(a["first"].c_str(), 0, 10) : 0;
  int W = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
  double minb = a.count("min-budget") ? atof(a["min-budget"].c_str()) : 30;
  std::string prof = a["profile"], out = a["out"];
  const size_t HN = 4u << 20;
  std::vector<Shared *> sh(W);
  std::vector<u64 *> hs(W);
  std::vector<CovSlot *> cv(W);
  for (int w = 0; w < W; w++) {
    sh[w] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hs[w] = (u64 *)mmap(nullptr, HN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cv[w] = (CovSlot *)mmap(nullptr, COV_SLOTS * sizeof(CovSlot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  double t0 = wall();
  std::vector<pid_t> pids(W);
  for (int w = 0; w < W; w++) {
    pids[w] = fork();
    if (pids[w] == 0) {
      start_watchdog();
      Shared &s = *sh[w];
      for (u64 i = w; i < max_runs; i += W) {
        if (wall() - t0 > secs) break;
        bool stop = false;
        for (int k = 0; k < W; k++)
          if (sh[k]->found && sh[k]->found_idx < i) stop = true;
        if (stop) break;
        s.cur_idx = i + 1;
        Prog p = make_prog(base, first + i, prof);
        Outcome o = execute(p, nullptr);
        s.st.runs++;
        s.st.nontrivial += o.nontrivial;
        s.st.ops += o.ops;
        s.st.lin_keys += o.lin_keys;
        s.st.lin_inconclusive += o.lin_inconclusive;
        s.st.scans += o.scans;
        s.st.threw += o.threw;
        for (int k = 0; k < 16; k++) s.st.known[k] += o.known[k];
        s.st.c.add(o.c);
        if (o.nontrivial && s.nhash < HN) hs[w][s.nhash++] = o.sh;
        if (o.bad) { snprintf(s.what, sizeof s.what, "%s: %s", o.cls.c_str(), o.msg.c_str()); s.found_idx = i; s.found = 1; break; }
      }
      memcpy(cv[w], coverage(), COV_SLOTS * sizeof(CovSlot));
      s.done = 1;
      _exit(0);
    }
  }
  // wait, with a hard stop well after the budget
  std::vector<int> status(W, 0);
  int left = W;
  double stop_at = t0 + secs + 60;
  while (left) {
    for (int w = 0; w < W; w++)
      if (pids[w]) {
        int st;
        pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w]) { status[w] = st; pids[w] = 0; left--; }
        else if (wall() > stop_at) { kill(pids[w], SIGKILL); }
      }
    usleep(20000);
  }
  double t1 = wall();
  Stats st;
  std::unordered_set<u64> distinct;
  std::map<void *, u64> covm;
  u64 found = ~0ull;
  bool lost = false; // the worker died, or was too slow: may be the machine's fault
  std::string what;
  for (int w = 0; w < W; w++) {
    Shared &s = *sh[w];
    st.runs += s.st.runs; st.nontrivial += s.st.nontrivial; st.ops += s.st.ops; st.lin_keys += s.st.lin_keys;
    st.lin_inconclusive += s.st.lin_inconclusive; st.scans += s.st.scans; st.threw += s.st.threw;
    st.c.add(s.st.c);
    for (int k = 0; k < 16; k++) st.known[k] += s.st.known[k];
    for (u64 i = 0; i < s.nhash; i++) distinct.insert(hs[w][i]);
    for (u32 i = 0; i < COV_SLOTS; i++) if (cv[w][i].pc) covm[cv[w][i].pc] += cv[w][i].n;
    if (s.found && s.found_idx < found) {
      found = s.found_idx;
      what = s.what;
      lost = !strncmp(what.c_str(), "hang:", 5);
    }
    if (!s.found && !s.done && s.cur_idx - 1 < found) { // the worker died: let the seed speak for itself in a child
      found = s.cur_idx - 1;
      what = "it ended with wait status " + std::to_string(status[w]);
      lost = true;
    }
  }
  std::string j = "{";
  auto num = [&](const char *n, u64 v) { put(j, "%s\"%s\": %" PRIu64, j.size() > 1 ? ", " : "", n, v); };
  num("runs", st.runs); num("nontrivial", st.nontrivial); num("distinct", distinct.size());
  num("operations", st.ops); num("lin_keys", st.lin_keys); num("lin_inconclusive", st.lin_inconclusive);
  num("scans", st.scans); num("ops_threw", st.threw);
  auto &c = st.c;
  num("events", c.steps); num("sync_events", c.sync_events); num("switches", c.switches); num("preemptions", c.preempts);
  num("stalls", c.stalls); num("buffered_stores", c.buffered); num("store_drains", c.drains); num("store_overtakes", c.overtakes); num("alloc_failures", c.allocfails);
  num("spurious_trylock", c.tryfails); num("allocations", c.allocs); num("frees", c.frees); num("lock_waits", c.lock_blocks);
  num("sleeps", c.sleeps); num("sim_ns", c.sim_ns); num("solo_freezes", c.solo); num("reuse_hits", c.reuse_hits);
  num("thread_churn", c.churn);
  put(j, ", \"wall_s\": %.3f", t1 - t0);
  j += ", \"known\": {";
  for (size_t k = 0; k < known_ids.size(); k++) put(j, "%s\"%s\": %" PRIu64, k ? ", " : "", known_ids[k].c_str(), st.known[k]);
  j += "}";
  j += ", \"coverage\": [";
  bool f1 = true;
  for (auto &kv : covm) { put(j, "%s[%" PRIu64 ", %" PRIu64 "]", f1 ? "" : ",", (u64)kv.first, kv.second); f1 = false; }
  j += "], \"samples\": [";
  for (int i = 0; i < 2; i++) {
    Prog p = make_prog(base, first + i, prof);
    j += (i ? ", " : "") + js(describe_prog(p));
  }
  j += "]";
  int rc = 0;
  if (found != ~0ull) {
    Prog p = make_prog(base, first + found, prof);
    Attempt at;
    at.p = p;
    Result r1, r2, r3;
    std::string err;
    if (try_batch({at}, "", r1) < 0 || !r1.o.bad) err = "the violation found in a worker did not reproduce from its seed";
    else if (try_batch({at}, "", r2) < 0 || r2.o.eh != r1.o.eh || r2.o.cls != r1.o.cls) err = "the same seed gave two different executions";
    else {
      Attempt a3 = at;
      a3.use_trace = true;
      a3.trace = r1.o.trace;
      if (try_batch({a3}, "", r3) < 0 || r3.o.eh != r1.o.eh || r3.o.cls != r1.o.cls) err = "replaying the recorded trace gave a different execution";
    }
    if (!err.empty() && lost && r1.ok && !r1.o.bad) {
      put(j, ", \"lost\": %s", js(what).c_str());
    } else if (!err.empty()) {
      err += " [in the worker: " + what + "]";
      put(j, ", \"error\": %s, \"index\": %" PRIu64, js(err + " [class " + r1.o.cls + ": " + r1.o.msg + "]").c_str(), found);
      rc = 2;
    } else {
      MinResult m = minimise(p, r1.o, minb);
      if (!m.o.bad) { m.p = p; m.trace = r1.o.trace; m.o = r1.o; }
      std::string s = "# replay file: program, then schedule and fault trace\n";
      s += std::string("component ") + COMPONENT + "\nclass " + m.o.cls + "\nmessage " + m.o.msg + "\n";
      put(s, "hash %" PRIu64 "\n", m.o.eh);
      if (!a["known"].empty()) s += "known " + a["known"] + "\n";
      put(s, "# found at run %" PRIu64 "; minimised from %zu operations and %zu decisions to %zu and %zu\n", found, m.ops0, m.dec0,
          nops(m.p) + m.p.prefill.size(), m.trace.size());
      { std::istringstream is(m.o.note); std::string l; while (std::getline(is, l)) s += "# " + l + "\n"; }
      ser_prog(s, m.p, true);
      ser_trace(s, m.trace);
      std::ofstream(out) << s;
      j += ", \"violation\": {\"class\": " + js(m.o.cls) + ", \"message\": " + js(m.o.msg) + ", \"replay\": " + js(out);
      put(j, ", \"index\": %" PRIu64 ", \"ops\": %zu, \"decisions\": %zu, \"tid\": %u, \"stack\": [", found,
          nops(m.p) + m.p.prefill.size(), m.trace.size(), m.o.tid);
      for (size_t i = 0; i < m.o.stack.size(); i++) put(j, "%s%" PRIu64, i ? "," : "", (u64)m.o.stack[i]);
      j += "]}";
      rc = 1;
    }
  }
  j += "}";
  puts(j.c_str());
  return rc;
}

static int cmd_replay(const char *file) {
  std::ifstream in(file);
  Replay r;
  if (!in || !parse(in, r)) { fprintf(stderr, "cannot parse %s\n", file); return 2; }
  if (r.component != COMPONENT) { fprintf(stderr, "replay is for %s\n", r.component.c_str()); return 2; }
  set_known(r.known);
  Attempt a;
  a.p = r.p;
  a.use_trace = true;
  a.trace = r.trace;
  Result res;
  if (try_batch({a}, "", res) < 0 || !res.o.bad) { printf("replay: no violation\n"); return 0; }
  printf("replay: class %s: %s\n", res.o.cls.c_str(), res.o.msg.c_str());
  printf("replay: hash %" PRIu64 " (recorded %" PRIu64 ")\n", res.o.eh, r.eh);
  printf("stack");
  for (void *q : res.o.stack) printf(" %p", q);
  printf("\n%s", res.o.note.c_str());
  return res.o.eh == r.eh && res.o.cls == r.cls ? 1 : 3;
}

// prints one line per run: used to prove determinism
static int cmd_log(std::map<std::string, std::string> &a) {
  u64 base = strtoull(a["seed"].c_str(), 0, 10), n = strtoull(a["max"].c_str(), 0, 10);
  u64 first = a.count("first") ? strtoull(a["first"].c_str(), 0, 10) : 0;
  for (u64 i = first; i < first + n; i++) {
    Prog p = make_prog(base, i, a["profile"]);
    Outcome o = execute(p, nullptr);
    printf("%" PRIu64 " %016" PRIx64 " %016" PRIx64 " %" PRIu64 " %zu %s %s\n", i, o.eh, o.sh, o.c.steps, o.trace.size(),
           o.bad ? o.cls.c_str() : "-", o.bad ? o.msg.c_str() : "");
    if (o.bad && a.count("note")) printf("%s", o.note.c_str());
  }
  return 0;
}
} // namespace sim

int main(int argc, char **argv) {
  using namespace sim;
  if (argc < 2) return 2;
  std::map<std::string, std::string> a;
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
  init_slots();
  if (a.count("known")) set_known(a["known"]);
  std::string c = argv[1];
  if (c == "run") return cmd_run(a);
  if (c == "log") return cmd_log(a);
  if (c == "replay" && argc > 2) return cmd_replay(argv[2]);
  return 2;
}
