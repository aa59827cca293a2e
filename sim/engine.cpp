#include "engine.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {
// ---------------------------------------------------------------- memory map --
static constexpr uintptr_t ARENA = 0x100000000000ull;
static constexpr size_t ARENA_SIZE = 1u << 30;
static constexpr uintptr_t STACKS = 0x110000000000ull;
static constexpr size_t STACK_SIZE = 512u << 10;
static constexpr size_t STACK_CLEAN = 40u << 10;
static constexpr u32 MAXF = 10;
static constexpr u32 MAXBUF = 40;

enum FState : u8 { F_READY, F_BLOCKED, F_SLEEP, F_DONE };

struct BufEnt { uintptr_t addr; u64 val; u32 size; u32 lvl; bool rel; };

struct Fiber {
  void *rsp;
  u32 tid;
  FState st;
  int sut;
  bool faults;
  u32 idx;
  u32 q;
  u64 wake;
  u64 stalled_until;
  int *waiting;
  int held;
  int reg_id;
  i64 prio;
  u32 nbuf;
  BufEnt buf[MAXBUF];
  u32 lvl = 0; // release fences passed
  char *tls = nullptr; // thread-local variables while another thread runs
  std::vector<std::pair<void (*)(void *), void *>> *tls_dtors = nullptr;
  // a plain store that has just executed and is to be delayed: it is taken back
  // (moved into the buffer) at the thread's next event
  uintptr_t pend_addr;
  u32 pend_size;
  u64 pend_old;
  u32 solo_arm;
  u64 eh[2];
  const std::function<void()> *body;
  size_t cursor;
  std::vector<Dec> *script;
  u32 depth;
  void *stk[64];
};

struct Alloc { u32 off, size; bool live; u32 tid; u64 step; void *pc[4]; };

static struct G {
  Fiber f[MAXF];
  u32 nf = 0;
  Fiber *cur = nullptr;
  void *main_rsp = nullptr;
  u64 main_eh[2] = {0, 0};
  bool active = false, seq = true, replay = false;
  u32 phase = 0;
  SchedCfg cfg;
  u32 thr[EV_NUM];
  u32 thr_buf = 0, thr_drain = 0, thr_stall = 0, thr_af = 0, thr_tf = 0, thr_vic = 0;
  Rng rng{1};
  Rng sut_rng{1};
  u64 now = 0, base = 0;
  Violation v;
  std::vector<Dec> trace;
  std::map<std::pair<u32, u32>, std::vector<Dec>> script;
  u64 eh = 0, sh = 0;
  Counters c;
  u32 nbuf_total = 0;
  bool fair = false;
  u32 fair_q = 0;
  u64 mark = 0; // last visible progress, in events
  Fiber *solo = nullptr;
  u64 solo_start = 0;
  std::vector<u64> pct_points;
  size_t pct_next = 0;
  i64 pct_low = 0;
  // registry
  bool id_used[MAX_IDS];
  u32 id_policy = 0, id_cap = MAX_THREADS;
  u32 max_id = 0;
  // heap
  u32 bump = 0;
  std::vector<Alloc> allocs;
  u64 live = 0, live_b = 0;
  std::map<u32, std::vector<u32>> freelist;
} g;

static CovSlot cov[COV_SLOTS];
static u8 *shadow;    // one byte per 8 bytes of arena
static u32 *slot;     // one word per 16 bytes of arena: alloc index + 1

// ------------------------------------------------------------ context switch --
extern "C" void sim_swap(void **save, void *load);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");

static inline u64 *eh_globals() { return (u64 *)abi::__cxa_get_globals(); }

// Every simulated thread has its own thread-local variables: the program's block of
// them is exchanged at each switch.
static char *tls_base, *tls_main, *tls_image;
static size_t tls_n;
static void tls_init() {
  static bool done;
  if (done) return;
  done = true;
  dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) {
    for (int k = 0; k < i->dlpi_phnum; k++) {
      auto &h = i->dlpi_phdr[k];
      if (h.p_type != PT_TLS || !i->dlpi_tls_data) continue;
      tls_n = h.p_memsz;
      tls_base = (char *)i->dlpi_tls_data;
      tls_image = (char *)calloc(1, tls_n);
      memcpy(tls_image, (char *)i->dlpi_addr + h.p_vaddr, h.p_filesz);
      tls_main = (char *)calloc(1, tls_n);
    }
    return 1; // the first one is the program itself
  }, nullptr);
  if (tls_n)
    for (Fiber &f : g.f) {
      f.tls = (char *)malloc(tls_n);
      f.tls_dtors = new std::vector<std::pair<void (*)(void *), void *>>();
    }
}
static inline void tls_swap(char *save, const char *load) {
  if (__builtin_expect(tls_n != 0, 0)) { memcpy(save, tls_base, tls_n); memcpy(tls_base, load, tls_n); }
}

static void to_main() {
  Fiber *f = g.cur;
  u64 *e = eh_globals();
  f->eh[0] = e[0]; f->eh[1] = e[1];
  e[0] = g.main_eh[0]; e[1] = g.main_eh[1];
  g.cur = nullptr;
  tls_swap(f->tls, tls_main);
  sim_swap(&f->rsp, g.main_rsp);
}

static void switch_to(Fiber *t) {
  Fiber *f = g.cur;
  if (f == t) return;
  u64 *e = eh_globals();
  f->eh[0] = e[0]; f->eh[1] = e[1];
  e[0] = t->eh[0]; e[1] = t->eh[1];
  g.cur = t;
  g.c.switches++;
  t->q = 0;
  tls_swap(f->tls, t->tls);
  sim_swap(&f->rsp, t->rsp);
}

struct Quiet { // while alive, engine allocations are real ones
  Fiber *f;
  int s;
  Quiet() : f(g.cur), s(f ? f->sut : 0) { if (f) f->sut = 0; }
  ~Quiet() { if (f) f->sut = s; }
};

[[noreturn]] void fail(const char *cls, const std::string &msg) { fail(cls, msg.c_str()); }
[[noreturn]] void fail(const char *cls, const char *msg) {
  Fiber *f = g.cur;
  if (f) f->sut = 0;
  if (!g.v.set) {
    g.v.set = true;
    g.v.cls = cls;
    g.v.msg = msg;
    g.v.step = g.c.steps;
    if (f) {
      g.v.tid = f->tid;
      g.v.stack.clear();
      u32 d = f->depth < 64 ? f->depth : 64;
      for (u32 i = d; i-- > 0 && g.v.stack.size() < 14;) g.v.stack.push_back(f->stk[i]);
    }
  }
  if (!f) {
    fprintf(stderr, "sim: fail outside a fiber: %s: %s\n", cls, msg);
    _exit(70);
  }
  to_main();
  __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduling --
static inline bool runnable(Fiber *f) { return f->st == F_READY; }
static inline bool stalled(Fiber *f) { return f->stalled_until > g.c.steps; }

static void wake_sleepers() {
  for (u32 i = 0; i < g.nf; i++)
    if (g.f[i].st == F_SLEEP && g.f[i].wake <= g.now) g.f[i].st = F_READY;
}

static Fiber *next_cyclic(u32 after) {
  for (u32 k = 1; k <= g.nf; k++) {
    Fiber *f = &g.f[(after + k) % g.nf];
    if (runnable(f)) return f;
  }
  return nullptr;
}

static bool script_switch(Fiber *f, u32 &arg) {
  auto &s = *f->script;
  while (f->cursor < s.size() && s[f->cursor].idx < f->idx) f->cursor++;
  for (size_t i = f->cursor; i < s.size() && s[i].idx == f->idx; i++)
    if (s[i].kind == D_SWITCH) { arg = s[i].arg; return true; }
  return false;
}
static bool script_has(Fiber *f, u32 kind) {
  auto &s = *f->script;
  while (f->cursor < s.size() && s[f->cursor].idx < f->idx) f->cursor++;
  for (size_t i = f->cursor; i < s.size() && s[i].idx == f->idx; i++)
    if (s[i].kind == kind) return true;
  return false;
}

static void rec(Fiber *f, u32 kind, u32 arg) {
  Quiet q;
  g.trace.push_back({g.phase, f->tid, f->idx, kind, arg});
}

static std::string wait_graph() {
  g.cur->sut = 0; // only used on the way to fail()
  std::string s;
  for (u32 i = 0; i < g.nf; i++) {
    Fiber &f = g.f[i];
    char b[160];
    if (f.st == F_BLOCKED) {
      snprintf(b, sizeof b, " T%u waits for a lock held by T%d;", i, f.waiting ? *f.waiting - 1 : -1);
      s += b;
    }
  }
  return s;
}

// The current fiber cannot continue: choose another one (never returns null
// unless every fiber is done).
static Fiber *forced_choice() {
  Fiber *f = g.cur;
  u32 me = f->tid;
  while (true) {
    wake_sleepers();
    if (g.solo) {
      if (g.solo->st == F_READY) return g.solo;
      if (g.solo->st == F_SLEEP) { g.now = g.solo->wake; continue; }
      if (g.solo->st == F_BLOCKED)
        fail("blocked-lookup", "a lookup waits for a lock held by a stalled thread");
      g.solo = nullptr;
      continue;
    }
    Fiber *def = next_cyclic(me);
    if (!def) {
      u64 w = ~0ull;
      bool blocked = false;
      for (u32 i = 0; i < g.nf; i++) {
        if (g.f[i].st == F_SLEEP) w = std::min(w, g.f[i].wake);
        if (g.f[i].st == F_BLOCKED) blocked = true;
      }
      if (w != ~0ull) { if (w > g.now) g.now = w; continue; }
      if (blocked) fail("deadlock", "every thread is blocked:" + wait_graph());
      return nullptr;
    }
    if (g.seq || g.fair) return def;
    if (g.replay) {
      u32 arg;
      if (script_switch(f, arg) && arg < g.nf) {
        if (g.f[arg].st == F_SLEEP) { g.now = std::max(g.now, g.f[arg].wake); wake_sleepers(); }
        if (runnable(&g.f[arg])) return &g.f[arg];
      }
      return def;
    }
    Fiber *cand[MAXF];
    u32 n = 0;
    for (u32 i = 0; i < g.nf; i++)
      if (runnable(&g.f[i]) && !stalled(&g.f[i])) cand[n++] = &g.f[i];
    Fiber *ch;
    Fiber *sl = nullptr;
    if (!n)
      for (u32 i = 0; i < g.nf; i++)
        if (g.f[i].st == F_SLEEP && (!sl || g.f[i].wake < sl->wake)) sl = &g.f[i];
    if (sl && g.rng.chance(0.8)) { // the stall outlasts the sleep
      g.now = std::max(g.now, sl->wake);
      wake_sleepers();
      ch = sl;
    } else if (!n) { // only stalled threads can run: the stall ends
      ch = def;
      u64 best = ~0ull;
      for (u32 i = 0; i < g.nf; i++)
        if (runnable(&g.f[i]) && g.f[i].stalled_until < best) { best = g.f[i].stalled_until; ch = &g.f[i]; }
      ch->stalled_until = 0;
    } else if (g.cfg.pct_depth) {
      ch = cand[0];
      for (u32 i = 1; i < n; i++) if (cand[i]->prio > ch->prio) ch = cand[i];
    } else
      ch = cand[g.rng.below(n)];
    if (ch != def) rec(f, D_SWITCH, ch->tid);
    return ch;
  }
}

static void block_switch() { // current fiber is no longer READY
  g.cur->idx++;
  Fiber *t = forced_choice();
  if (!t) { to_main(); return; }
  switch_to(t);
}

static void commit(const BufEnt &e);
static void check_mem(uintptr_t p, size_t n, bool w, const char *what);

static void drain_one(Fiber *f, u32 at = 0) {
  BufEnt e = f->buf[at];
  f->nbuf--;
  g.nbuf_total--;
  for (u32 i = at; i < f->nbuf; i++) f->buf[i] = f->buf[i + 1];
  commit(e);
}
// With weak stores an entry may overtake those before it, unless it is a release
// store, a release fence is between them, or they are stores to the same place.
static bool may_leave(Fiber *f, u32 at, uintptr_t a, u32 n, u32 lvl, bool rel) {
  if (!at) return true;
  if (rel || !g.cfg.weak) return false;
  for (u32 i = 0; i < at; i++)
    if (f->buf[i].lvl != lvl || (f->buf[i].addr < a + n && a < f->buf[i].addr + f->buf[i].size)) return false;
  return true;
}
static u32 pick_entry(Fiber *f) {
  if (!g.cfg.weak || f->nbuf < 2) return 0;
  u32 at = g.rng.below(f->nbuf);
  const BufEnt &e = f->buf[at];
  return may_leave(f, at, e.addr, e.size, e.lvl, e.rel) ? at : 0;
}
static u64 rd(uintptr_t a, u32 n) {
  switch (n) {
  case 1: return *(volatile u8 *)a;
  case 2: return *(volatile uint16_t *)a;
  case 4: return *(volatile u32 *)a;
  default: return *(volatile u64 *)a;
  }
}
static void wr(uintptr_t a, u32 n, u64 v) {
  switch (n) {
  case 1: *(volatile u8 *)a = (u8)v; break;
  case 2: *(volatile uint16_t *)a = (uint16_t)v; break;
  case 4: *(volatile u32 *)a = (u32)v; break;
  default: *(volatile u64 *)a = v;
  }
}
static void enqueue(Fiber *f, uintptr_t a, u64 v, u32 n, bool rel) {
  if (f->nbuf == MAXBUF) drain_one(f);
  f->buf[f->nbuf++] = {a, v, n, f->lvl, rel};
  g.nbuf_total++;
  g.c.buffered++;
}
static inline void settle(Fiber *f) {
  if (__builtin_expect(f->pend_size != 0, 0)) {
    u32 n = f->pend_size;
    f->pend_size = 0;
    u64 v = rd(f->pend_addr, n);
    wr(f->pend_addr, n, f->pend_old);
    enqueue(f, f->pend_addr, v, n, false);
  }
}
static inline void flush(Fiber *f) {
  settle(f);
  while (f->nbuf) drain_one(f);
}

static void start_fair() {
  g.fair = true;
  g.solo = nullptr;
  for (u32 i = 0; i < g.nf; i++) { g.f[i].stalled_until = 0; flush(&g.f[i]); }
}

static void preempt(bool forced_q) {
  Fiber *f = g.cur;
  wake_sleepers();
  Fiber *cand[MAXF];
  u32 n = 0;
  for (u32 i = 0; i < g.nf; i++)
    if (&g.f[i] != f && runnable(&g.f[i]) && !stalled(&g.f[i])) cand[n++] = &g.f[i];
  f->q = 0;
  if (!n) return;
  Fiber *t = cand[g.rng.below(n)];
  if (!forced_q && g.thr_stall && g.rng.next32() < g.thr_stall) {
    f->stalled_until = g.c.steps + 1 + g.rng.below(g.cfg.stall_max);
    g.c.stalls++;
  }
  g.c.preempts++;
  rec(f, D_SWITCH, t->tid);
  switch_to(t);
}

static void pct_step(Ev k) {
  Fiber *f = g.cur;
  if (g.pct_next < g.pct_points.size() && g.c.steps - g.base >= g.pct_points[g.pct_next]) {
    g.pct_next++;
    f->prio = --g.pct_low;
  }
  if (++f->q > 20000) { f->prio = --g.pct_low; f->q = 0; }
  wake_sleepers();
  Fiber *b = f;
  for (u32 i = 0; i < g.nf; i++)
    if (runnable(&g.f[i]) && g.f[i].prio > b->prio) b = &g.f[i];
  if (b != f) {
    g.c.preempts++;
    rec(f, D_SWITCH, b->tid);
    switch_to(b);
  }
}

static inline void event(Ev k, u32 off) {
  Fiber *f = g.cur;
  settle(f);
  f->idx++;
  g.c.steps++;
  g.now++;
  g.eh = (g.eh ^ (((u64)off << 9) | ((u64)k << 4) | f->tid)) * 0x100000001b3ull;
  if (k >= EV_ALOAD && k != EV_ALLOC && k != EV_FREE) {
    g.sh = (g.sh ^ (((u64)off << 9) | ((u64)k << 4) | f->tid)) * 0x100000001b3ull;
    g.c.sync_events++;
  }
  if (__builtin_expect(g.seq, 0)) {
    if (g.c.steps - g.mark > g.cfg.fair_budget)
      fail("no-progress", "an operation running alone did not finish within the event budget");
    return;
  }
  u64 st = g.c.steps - g.base;
  if (__builtin_expect(st >= g.cfg.fair_after, 0)) {
    if (!g.fair) { start_fair(); g.mark = g.c.steps; }
    if (g.c.steps - g.mark > g.cfg.fair_budget)
      fail("no-progress", "no operation finishes within the event budget under a fair, fault-free schedule");
    if (++g.fair_q >= 200) {
      g.fair_q = 0;
      wake_sleepers();
      Fiber *t = next_cyclic(f->tid);
      if (t && t != f) switch_to(t);
    }
    return;
  }
  if (__builtin_expect(f->solo_arm != 0, 0) && --f->solo_arm == 0) {
    g.solo = f;
    g.solo_start = g.c.steps;
    g.c.solo++;
  }
  if (g.solo) {
    if (g.c.steps - g.solo_start > g.cfg.solo_budget)
      fail("blocked-lookup", "a lookup does not finish while other threads are stalled");
    return;
  }
  if (!g.replay) {
    if (g.nbuf_total && g.rng.next32() < g.thr_drain) {
      u32 t = g.rng.below(g.nf);
      for (u32 i = 0; i < g.nf; i++) {
        Fiber *x = &g.f[(t + i) % g.nf];
        if (x->nbuf && (!g.cfg.lazy || x == f || !stalled(x))) { u32 at = pick_entry(x); rec(f, D_DRAIN, x->tid | at << 8); g.c.drains++; if (at) g.c.overtakes++; drain_one(x, at); break; }
      }
    }
    if (g.thr_vic && (int)f->tid == g.cfg.victim && k >= EV_ALOAD && k <= EV_UNLOCK && g.rng.next32() < g.thr_vic) {
      u64 c = g.c.switches;
      f->stalled_until = g.c.steps + 1 + g.rng.below(g.cfg.victim_stall);
      preempt(true);
      if (c == g.c.switches) f->stalled_until = 0; else g.c.stalls++;
    } else if (g.cfg.pct_depth) { if (k >= EV_ALOAD || g.thr[k]) pct_step(k); }
    else if (g.rng.next32() < g.thr[k]) preempt(false);
    else if (g.cfg.quantum && ++f->q >= g.cfg.quantum) preempt(true);
  } else {
    auto &s = *f->script;
    while (f->cursor < s.size() && s[f->cursor].idx < f->idx) f->cursor++;
    while (f->cursor < s.size() && s[f->cursor].idx == f->idx) {
      Dec d = s[f->cursor];
      if (d.kind == D_DRAIN) {
        f->cursor++;
        u32 t = d.arg & 255, at = d.arg >> 8;
        if (t < g.nf && g.f[t].nbuf > at) {
          const BufEnt &e = g.f[t].buf[at];
          g.c.drains++;
          if (may_leave(&g.f[t], at, e.addr, e.size, e.lvl, e.rel)) { if (at) g.c.overtakes++; drain_one(&g.f[t], at); }
        }
      } else if (d.kind == D_SWITCH) {
        f->cursor++;
        wake_sleepers();
        if (d.arg < g.nf && d.arg != f->tid && runnable(&g.f[d.arg])) {
          g.c.preempts++;
          rec(f, D_SWITCH, d.arg);
          switch_to(&g.f[d.arg]);
        }
      } else
        break;
    }
  }
}

// ---------------------------------------------------------------------- heap --
static inline u32 off_of(const void *p) {
  uintptr_t o = (uintptr_t)p - ARENA;
  return o < ARENA_SIZE ? (u32)o : 0;
}
static inline bool in_arena(uintptr_t p) { return p - ARENA < ARENA_SIZE; }

static std::string where(uintptr_t p) {
  u32 off = (u32)(p - ARENA);
  u32 s = off >> 4;
  char b[200];
  for (u32 k = 0; k < 40000 && s >= k; k++) {
    if (slot[s - k]) {
      Alloc &a = g.allocs[slot[s - k] - 1];
      snprintf(b, sizeof b, "offset %d of a %u-byte %s object (allocated by T%u as #%u)",
               (int)(off - a.off), a.size, a.live ? "live" : "freed", a.tid, slot[s - k]);
      return b;
    }
  }
  return "unallocated memory";
}

static void bad_access(uintptr_t p, size_t n, bool w, u8 sh, const char *what) {
  Quiet q;
  char b[400];
  snprintf(b, sizeof b, "%s %s of %zu bytes at %s", what, w ? "write" : "read", n, where(p).c_str());
  fail(sh == 0xFF ? "use-after-free" : "out-of-bounds", b);
}

static inline void check_mem(uintptr_t p, size_t n, bool w, const char *what) {
  u32 off = (u32)(p - ARENA);
  u32 gr = off >> 3, last = (u32)((off + n - 1) >> 3);
  for (; gr <= last; gr++) {
    u8 s = shadow[gr];
    if (__builtin_expect(s == 8, 1)) continue;
    if (s == 0 || s == 0xFF) bad_access(p, n, w, s, what);
    u32 end = gr == last ? ((off + n - 1) & 7) + 1 : 8;
    if (end > s) bad_access(p, n, w, 0, what);
  }
}

static void *heap_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  if (n == 0) n = 1;
  u32 rounded = (u32)((n + 15) & ~15ull);
  u32 off = 0;
  Fiber *f = g.cur;
  Quiet q;
  if (g.bump > ARENA_SIZE / 2 || (g.cfg.reuse && align == 16)) { // also when getting short of fresh memory
    auto it = g.freelist.find(rounded);
    if (it != g.freelist.end() && !it->second.empty() && it->second.back() % align == 0) {
      off = it->second.back();
      it->second.pop_back();
      g.c.reuse_hits++;
      u32 idx = slot[off >> 4] - 1;
      g.allocs[idx].live = false;
    }
  }
  if (!off) {
    u64 o = g.bump + 16;
    o = (o + align - 1) & ~(u64)(align - 1);
    if (o + rounded + 16 >= ARENA_SIZE) fail("sim-resource", "simulated heap exhausted");
    off = (u32)o;
    g.bump = (u32)(o + rounded);
  }
  memset((void *)(ARENA + off), g.cfg.fill, rounded);
  u32 full = (u32)(n >> 3);
  memset(shadow + (off >> 3), 8, full);
  if (n & 7) shadow[(off >> 3) + full] = (u8)(n & 7);
  g.allocs.push_back({off, (u32)n, true, f ? f->tid : 99, g.c.steps, {}});
  if (f) {
    u32 d = f->depth < 64 ? f->depth : 64;
    for (u32 i = 0; i < 4 && i < d; i++) g.allocs.back().pc[i] = f->stk[d - 1 - i];
  }
  slot[off >> 4] = (u32)g.allocs.size();
  g.live++;
  g.live_b += n;
  g.c.allocs++;
  g.c.heap_bytes += n;
  return (void *)(ARENA + off);
}

static void heap_free(void *p) {
  Fiber *f = g.cur;
  u32 off = (u32)((uintptr_t)p - ARENA);
  if (f && f->sut) {
    event(EV_FREE, off);
    flush(f);
  }
  Quiet q;
  u32 s = slot[off >> 4];
  if ((off & 15) || !s || g.allocs[s - 1].off != off) {
    if (!f) return;
    fail("invalid-free", "free of a pointer that is not the start of an object: " + where((uintptr_t)p));
  }
  Alloc &a = g.allocs[s - 1];
  if (!a.live) {
    if (!f) return;
    fail("double-free", "object freed twice: " + where((uintptr_t)p));
  }
  a.live = false;
  g.live--;
  g.live_b -= a.size;
  g.c.frees++;
  u32 rounded = (a.size + 15) & ~15u;
  memset(shadow + (off >> 3), 0xFF, rounded >> 3);
  memset(p, 0xDD, a.size);
  g.freelist[rounded].push_back(off);
}

static bool decide_allocfail() {
  Fiber *f = g.cur;
  if (!f->faults || g.seq || g.fair) return false;
  if (g.replay) return script_has(f, D_ALLOCFAIL);
  if (g.thr_af && g.rng.next32() < g.thr_af) { rec(f, D_ALLOCFAIL, 0); return true; }
  return false;
}

static void *op_new(size_t n, size_t align, bool nothrow) {
  Fiber *f = g.cur;
  if (f && f->sut) {
    event(EV_ALLOC, 0);
    if (decide_allocfail()) {
      g.c.allocfails++;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    if (n > (96u << 20)) { // an absurd request fails like a real allocator would
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    return heap_alloc(n, align);
  }
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}

static void op_delete(void *p) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) heap_free(p);
  else if (g.cur && g.cur->sut && (uintptr_t)p - STACKS < STACK_SIZE * MAXF)
    fail("invalid-free", "free of a stack address");
  else free(p);
}

CovSlot *coverage() { return cov; }
u64 live_allocs() { return g.live; }
u64 live_bytes() { return g.live_b; }
bool heap_is_live(const void *p) {
  return in_arena((uintptr_t)p) && shadow[((uintptr_t)p - ARENA) >> 3] - 1u < 8;
}
void for_live_allocs(const std::function<void(u64)> &f) {
  for (auto &a : g.allocs) if (a.live) f(a.size);
}

std::string describe_leaks(u32 max) {
  std::string s;
  u32 n = 0;
  for (auto &a : g.allocs)
    if (a.live && n++ < max) {
      char b[200];
      snprintf(b, sizeof b, " [%u bytes allocated by T%u at event %llu, pc", a.size, a.tid,
               (unsigned long long)a.step);
      s += b;
      for (auto p : a.pc)
        if (p) { snprintf(b, sizeof b, " %p", p); s += b; }
      s += "]";
    }
  return s;
}

// ------------------------------------------------------------- store buffers --
static void commit(const BufEnt &e) {
  if (in_arena(e.addr)) check_mem(e.addr, e.size, true, "delayed atomic");
  wr(e.addr, e.size, e.val);
}

static inline bool overlaps(const Fiber *f, uintptr_t p, size_t n) {
  for (u32 i = 0; i < f->nbuf; i++)
    if (f->buf[i].addr < p + n && p < f->buf[i].addr + f->buf[i].size) return true;
  return false;
}

static bool decide_buffer(uintptr_t a, u32 n, bool rel) {
  Fiber *f = g.cur;
  if (g.seq || g.fair) return false;
  settle(f);
  if (f->nbuf && !may_leave(f, f->nbuf, a, n, f->lvl, rel)) return true; // stores leave a store buffer in order
  if (g.replay) return script_has(f, D_BUFFER);
  if (g.thr_buf && g.rng.next32() < g.thr_buf) { rec(f, D_BUFFER, 0); return true; }
  return false;
}

template <class T> static T a_load(const volatile T *a, int) {
  Fiber *f = g.cur;
  if (!f || !f->sut) return *a;
  event(EV_ALOAD, off_of((void *)a));
  if (in_arena((uintptr_t)a)) check_mem((uintptr_t)a, sizeof(T), false, "atomic");
  if (__builtin_expect(f->nbuf, 0)) {
    for (u32 i = f->nbuf; i-- > 0;)
      if (f->buf[i].addr == (uintptr_t)a && f->buf[i].size == sizeof(T)) return (T)f->buf[i].val;
    if (overlaps(f, (uintptr_t)a, sizeof(T))) flush(f);
  }
  return *a;
}
template <class T> static void a_store(volatile T *a, T v, int mo) {
  Fiber *f = g.cur;
  if (!f || !f->sut) { *a = v; return; }
  event(EV_ASTORE, off_of((void *)a));
  if (in_arena((uintptr_t)a)) check_mem((uintptr_t)a, sizeof(T), true, "atomic");
  if (g.cfg.tso && mo != __ATOMIC_SEQ_CST) {
    bool rel = mo != __ATOMIC_RELAXED;
    if (decide_buffer((uintptr_t)a, sizeof(T), rel)) {
      enqueue(f, (uintptr_t)a, (u64)v, (u32)sizeof(T), rel);
      return;
    }
    if (g.cfg.weak && f->nbuf && may_leave(f, f->nbuf, (uintptr_t)a, sizeof(T), f->lvl, rel)) { g.c.overtakes++; *a = v; return; }
  }
  flush(f);
  *a = v;
}
// A locked instruction empties the store buffer; with weak stores only as far as its memory order asks for.
static inline void flush_rmw(Fiber *f, uintptr_t a, u32 n, int mo) {
  settle(f);
  if (!f->nbuf) return;
  if (g.cfg.weak && (mo == __ATOMIC_RELAXED || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME) &&
      may_leave(f, f->nbuf, a, n, f->lvl, false)) {
    g.c.overtakes++;
    return;
  }
  flush(f);
}
template <class T, class F> static T a_rmw(volatile T *a, int mo, F fn) {
  Fiber *f = g.cur;
  if (!f || !f->sut) { T o = *a; *a = fn(o); return o; }
  event(EV_ARMW, off_of((void *)a));
  if (in_arena((uintptr_t)a)) check_mem((uintptr_t)a, sizeof(T), true, "atomic");
  flush_rmw(f, (uintptr_t)a, sizeof(T), mo);
  T o = *a;
  *a = fn(o);
  return o;
}
template <class T> static bool a_cas(volatile T *a, T *c, T v, int mo) {
  Fiber *f = g.cur;
  if (f && f->sut) {
    event(EV_ARMW, off_of((void *)a));
    if (in_arena((uintptr_t)a)) check_mem((uintptr_t)a, sizeof(T), true, "atomic");
    flush_rmw(f, (uintptr_t)a, sizeof(T), mo);
  }
  if (*a == *c) { *a = v; return true; }
  *c = *a;
  return false;
}

static inline void plain(void *p, size_t n, bool w) {
  Fiber *f = g.cur;
  if (!f || !f->sut) return;
  if (in_arena((uintptr_t)p)) {
    event(w ? EV_PLAIN_W : EV_PLAIN_R, (u32)((uintptr_t)p - ARENA));
    check_mem((uintptr_t)p, n, w, "plain");
    if (w && g.cfg.tso && (n == 1 || n == 2 || n == 4 || n == 8) && decide_buffer((uintptr_t)p, n, false)) {
      f->pend_addr = (uintptr_t)p;
      f->pend_size = (u32)n;
      f->pend_old = rd((uintptr_t)p, (u32)n);
      // memory must show the thread its own earlier stores when it stores bytes
      // next to them: only whole overlaps matter, and those are loads
      return;
    }
    if (__builtin_expect(f->nbuf, 0)) {
      if (g.cfg.weak ? !may_leave(f, f->nbuf, (uintptr_t)p, n, f->lvl, false) && (w || overlaps(f, (uintptr_t)p, n)) : w || overlaps(f, (uintptr_t)p, n)) flush(f);
    }
  }
}

// --------------------------------------------------------------------- locks --
static void lock_word(int *m) {
  Fiber *f = g.cur;
  if (!f) { *m = 100; return; }
  f->sut++;
  event(EV_LOCK, off_of(m));
  flush(f);
  while (true) {
    if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, true, "lock");
    if (*m == 0) break;
    if (*m == (int)f->tid + 1) fail("deadlock", "a thread locks a mutex it already holds");
    f->st = F_BLOCKED;
    f->waiting = m;
    g.c.lock_blocks++;
    block_switch();
  }
  f->waiting = nullptr;
  *m = (int)f->tid + 1;
  f->held++;
  f->sut--;
}
static bool trylock_word(int *m) {
  Fiber *f = g.cur;
  if (!f) { if (*m) return false; *m = 100; return true; }
  f->sut++;
  event(EV_LOCK, off_of(m));
  flush(f);
  if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, true, "lock");
  bool ok = *m == 0;
  if (ok && !g.seq && !g.fair && g.cfg.p_tryfail > 0) {
    bool spurious = g.replay ? script_has(f, D_TRYFAIL)
                             : (g.rng.next32() < g.thr_tf && (rec(f, D_TRYFAIL, 0), true));
    if (spurious) { g.c.tryfails++; ok = false; }
  }
  if (ok) { *m = (int)f->tid + 1; f->held++; }
  f->sut--;
  return ok;
}
static void unlock_word(int *m) {
  Fiber *f = g.cur;
  if (!f) { *m = 0; return; }
  f->sut++;
  event(EV_UNLOCK, off_of(m));
  flush(f);
  if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, true, "unlock");
  if (*m != (int)f->tid + 1) fail("mutex-misuse", "unlock of a mutex the thread does not hold");
  *m = 0;
  f->held--;
  for (u32 i = 0; i < g.nf; i++)
    if (g.f[i].st == F_BLOCKED && g.f[i].waiting == m) g.f[i].st = F_READY;
  f->sut--;
}

// reader-writer locks: the word counts readers, or is minus the writer's id
static bool rw_take(int *m, bool write, bool wait) {
  Fiber *f = g.cur;
  f->sut++;
  event(EV_LOCK, off_of(m));
  flush(f);
  while (true) {
    if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, true, "lock");
    if (write ? *m == 0 : *m >= 0) break;
    if (!wait) { f->sut--; return false; }
    if (*m == -(int)f->tid - 1) fail("deadlock", "a thread locks a reader-writer lock it already holds");
    f->st = F_BLOCKED;
    f->waiting = m;
    g.c.lock_blocks++;
    block_switch();
  }
  f->waiting = nullptr;
  *m = write ? -(int)f->tid - 1 : *m + 1;
  f->held++;
  f->sut--;
  return true;
}
static void rw_release(int *m) {
  Fiber *f = g.cur;
  f->sut++;
  event(EV_UNLOCK, off_of(m));
  flush(f);
  if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, true, "unlock");
  if (!*m || (*m < 0 && *m != -(int)f->tid - 1)) fail("mutex-misuse", "unlock of a reader-writer lock the thread does not hold");
  *m = *m < 0 ? 0 : *m - 1;
  f->held--;
  for (u32 i = 0; i < g.nf; i++)
    if (g.f[i].st == F_BLOCKED && g.f[i].waiting == m) g.f[i].st = F_READY;
  f->sut--;
}

static void do_sleep(u64 ns) {
  Fiber *f = g.cur;
  event(EV_SLEEP, 0);
  flush(f);
  g.c.sleeps++;
  f->wake = g.now + ns;
  f->st = F_SLEEP;
  block_switch();
}

// ----------------------------------------------------------------- registry --
void set_thread_ids(u32 policy, u32 cap) {
  g.id_policy = policy;
  g.id_cap = cap;
}
u32 register_thread() {
  Fiber *f = g.cur;
  if (f->reg_id >= 0) return f->reg_id;
  for (u32 n = 0; n < g.id_cap; n++) {
    u32 i = g.id_policy == 0 ? n : g.id_policy == 1 ? g.id_cap - 1 - n : (g.id_cap / 2 + 7 * n) % g.id_cap;
    if (!g.id_used[i]) {
      g.id_used[i] = true;
      f->reg_id = (int)i;
      g.max_id = std::max(g.max_id, i);
      return i;
    }
  }
  fail("sim-resource", "thread ids exhausted");
}
void unregister_thread() {
  Fiber *f = g.cur;
  if (f->reg_id < 0) return;
  g.id_used[f->reg_id] = false;
  f->reg_id = -1;
}
u32 thread_id() {
  Fiber *f = g.cur;
  if (!f || f->reg_id < 0) fail("sim-harness", "thread used without registration");
  return (u32)f->reg_id;
}
u32 max_thread_id() {
  Fiber *f = g.cur;
  if (f && f->sut) event(EV_ALOAD, 0);
  return g.max_id;
}

// ---------------------------------------------------------------- life cycle --
static void on_signal(int sig, siginfo_t *si, void *) {
  if (!g.cur) {
    fprintf(stderr, "sim: signal %d at %p outside a fiber\n", sig, si->si_addr);
    signal(sig, SIG_DFL);
    raise(sig);
    return;
  }
  char b[160];
  uintptr_t a = (uintptr_t)si->si_addr;
  const char *k = "wild address";
  if (a < 65536) k = "null pointer";
  else if (a - STACKS < STACK_SIZE * MAXF) k = "stack overflow";
  snprintf(b, sizeof b, "signal %d (%s)", sig, k);
  fail("crash", b);
}
static void on_tick(int) {
  static u64 last = ~0ull;
  static u32 same = 0;
  if (!g.cur) { last = ~0ull; return; }
  if (g.c.steps == last) { if (++same >= 6) { same = 0; last = ~0ull; fail("hang", "the code under test spins without reaching a scheduling point"); } }
  else { last = g.c.steps; same = 0; }
}
static void on_terminate() {
  if (!g.cur) abort();
  fail("terminate", "std::terminate was called (exception escaped)");
}

static void init_once() {
  static bool done = false;
  if (done) return;
  done = true;
  void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  void *s = mmap((void *)STACKS, STACK_SIZE * MAXF, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  shadow = (u8 *)mmap(nullptr, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slot = (u32 *)mmap(nullptr, ARENA_SIZE / 4, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p != (void *)ARENA || s != (void *)STACKS || shadow == MAP_FAILED || slot == MAP_FAILED) {
    fprintf(stderr, "sim: cannot map the simulated memory\n");
    _exit(70);
  }
  for (u32 i = 0; i < MAXF; i++) mprotect((void *)(STACKS + i * STACK_SIZE), 4096, PROT_NONE);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
  struct sigaction st {};
  st.sa_handler = on_tick;
  st.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
  sigaction(SIGVTALRM, &st, nullptr);
  std::set_terminate(on_terminate);
}
void start_watchdog() {
  init_once(); // the handler, before the first tick
  struct itimerval it {};
  it.it_interval.tv_usec = it.it_value.tv_usec = 500000;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static u32 to_thr(double p) {
  if (p <= 0) return 0;
  if (p >= 1) return 0xFFFFFFFFu;
  return (u32)(p * 4294967296.0);
}

void run_begin(u64 seed, const SchedCfg &cfg, const std::vector<Dec> *replay) {
  tls_init();
  init_once();
  g.cfg = cfg;
  for (int i = 0; i < EV_NUM; i++) g.thr[i] = to_thr(cfg.p_switch[i]);
  g.thr_buf = to_thr(cfg.p_buffer);
  g.thr_drain = to_thr(cfg.p_drain);
  g.thr_vic = cfg.victim >= 0 ? to_thr(cfg.p_victim) : 0;
  g.thr_stall = to_thr(cfg.p_stall);
  g.thr_af = to_thr(cfg.p_allocfail);
  g.thr_tf = to_thr(cfg.p_tryfail);
  g.rng = Rng(mix64(seed) ^ 0x5ced);
  g.sut_rng = Rng(mix64(seed) ^ 0x50f7);
  g.replay = replay != nullptr;
  g.script.clear();
  if (replay)
    for (auto &d : *replay) g.script[{d.phase, d.tid}].push_back(d);
  g.trace.clear();
  g.v = Violation();
  g.eh = g.sh = 0xcbf29ce484222325ull;
  g.c = Counters();
  g.now = 0;
  g.phase = 0;
  memset(g.id_used, 0, sizeof g.id_used);
  g.max_id = 0;
  set_thread_ids(0, MAX_THREADS);
  // heap reset
  if (g.bump) {
    if (g.bump > 64u << 20) {
      madvise((void *)ARENA, ARENA_SIZE, MADV_DONTNEED);
      madvise(shadow, ARENA_SIZE / 8, MADV_DONTNEED);
      madvise(slot, ARENA_SIZE / 4, MADV_DONTNEED);
    } else {
      memset(shadow, 0, (g.bump >> 3) + 64);
      memset(slot, 0, ((g.bump >> 4) + 16) * 4);
    }
  }
  g.bump = 4096;
  g.allocs.clear();
  g.live = g.live_b = 0;
  g.freelist.clear();
  g.active = true;
}

void end_thread_locals() { // as when a thread exits
  Fiber *f = g.cur;
  if (!f || !tls_n) return;
  f->sut++;
  while (!f->tls_dtors->empty()) {
    auto d = f->tls_dtors->back();
    f->tls_dtors->pop_back();
    d.first(d.second);
  }
  flush(f);
  memcpy(tls_base, tls_image, tls_n);
  f->sut--;
}

static void fiber_main() {
  Fiber *f = g.cur;
  (*f->body)();
  end_thread_locals();
  flush(f);
  if (f->held) fail("mutex-misuse", "a thread ended while holding a lock");
  f->st = F_DONE;
  if (g.solo == f) g.solo = nullptr;
  block_switch();
  __builtin_trap();
}

bool run_phase(const std::vector<std::function<void()>> &bodies, bool sequential) {
  if (g.v.set) return false;
  g.nf = (u32)bodies.size();
  g.seq = sequential || g.nf == 1;
  if (sequential == false) g.seq = false;
  g.fair = false;
  g.fair_q = 0;
  g.solo = nullptr;
  g.base = g.mark = g.c.steps;
  g.nbuf_total = 0;
  g.phase++;
  static std::vector<Dec> empty;
  for (u32 i = 0; i < g.nf; i++) {
    Fiber &f = g.f[i];
    f.tid = i;
    f.st = F_READY;
    f.sut = 0;
    f.faults = false;
    f.idx = 0;
    f.q = 0;
    f.wake = f.stalled_until = 0;
    f.waiting = nullptr;
    f.held = 0;
    f.reg_id = -1;
    f.prio = 1000 + (i64)i;
    f.nbuf = 0;
    f.lvl = 0;
    if (tls_n) { memcpy(f.tls, tls_image, tls_n); f.tls_dtors->clear(); }
    f.pend_size = 0;
    f.solo_arm = 0;
    f.eh[0] = f.eh[1] = 0;
    f.body = &bodies[i];
    f.cursor = 0;
    f.depth = 0;
    auto it = g.script.find({g.phase, i});
    f.script = it == g.script.end() ? &empty : &it->second;
    char *top = (char *)(STACKS + (i + 1) * STACK_SIZE);
    memset(top - STACK_CLEAN, 0x5A, STACK_CLEAN);
    void **sp = (void **)top;
    *--sp = nullptr;
    *--sp = (void *)fiber_main;
    for (int k = 0; k < 6; k++) *--sp = nullptr;
    f.rsp = sp;
  }
  u32 first = 0;
  if (!g.seq && !g.replay) {
    if (g.cfg.pct_depth) {
      for (u32 i = g.nf; i-- > 1;) std::swap(g.f[i].prio, g.f[g.rng.below(i + 1)].prio);
      g.pct_points.clear();
      for (int i = 0; i < g.cfg.pct_depth; i++) g.pct_points.push_back(g.rng.below(g.cfg.pct_len));
      std::sort(g.pct_points.begin(), g.pct_points.end());
      g.pct_next = 0;
      g.pct_low = 0;
      for (u32 i = 1; i < g.nf; i++) if (g.f[i].prio > g.f[first].prio) first = i;
    } else
      first = g.rng.below(g.nf);
    if (first) g.trace.push_back({g.phase, 250, 0, D_SWITCH, first});
  } else if (!g.seq) {
    auto it = g.script.find({g.phase, 250});
    if (it != g.script.end() && it->second[0].arg < g.nf) first = it->second[0].arg;
    if (first) g.trace.push_back({g.phase, 250, 0, D_SWITCH, first});
  }
  u64 *e = eh_globals();
  g.main_eh[0] = e[0]; g.main_eh[1] = e[1];
  e[0] = e[1] = 0;
  g.cur = &g.f[first];
  tls_swap(tls_main, g.cur->tls);
  sim_swap(&g.main_rsp, g.cur->rsp);
  g.cur = nullptr;
  e = eh_globals();
  e[0] = g.main_eh[0]; e[1] = g.main_eh[1];
  g.c.sim_ns = g.now;
  return !g.v.set;
}
void run_end() { g.active = false; }

const Violation &violation() { return g.v; }
const std::vector<Dec> &trace() { return g.trace; }
u64 event_hash() { return g.eh; }
u64 sched_hash() { return g.sh; }
Counters &counters() { return g.c; }
u64 now_step() { return ++g.c.steps; }
u32 self() { return g.cur ? g.cur->tid : 99; }
bool in_fiber() { return g.cur != nullptr; }
void sut_enter() { if (g.cur) g.cur->sut++; }
void sut_exit() {
  if (!g.cur) return;
  flush(g.cur); // harness code may look at the memory directly
  g.cur->sut--;
}
void sut_pause() { if (g.cur) g.cur->sut--; }
void sync_point(Ev e, const void *addr) {
  if (!g.cur) return;
  event(e, off_of(addr));
}
void flush_buffer() { if (g.cur) flush(g.cur); }
void arm_solo(u32 k);
void set_faults(bool on) { if (g.cur) g.cur->faults = on; }
void progress_mark() { g.mark = g.c.steps; }
bool faults_fair() { return g.fair; }
u64 clock_ns() { return g.now; }
u64 sut_random() { return g.sut_rng.next(); }
void arm_solo(u32 k) { g.cur->solo_arm = k; }
void end_solo() {
  g.cur->solo_arm = 0;
  if (g.solo == g.cur) g.solo = nullptr;
}
int held_locks() { return g.cur->held; }
} // namespace sim

using namespace sim;
// Function-local static variables outlive a run: they are initialised in one step, on the real heap.
static std::vector<std::pair<Fiber *, int>> static_init;
static void static_done() {
  auto [f, s] = static_init.back();
  static_init.pop_back();
  if (f) f->sut = s;
}
namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(__guard *guard) {
  if (*(volatile u8 *)guard) return 0;
  Fiber *f = g.cur;
  if (f) flush(f);
  int s = f ? f->sut : 0;
  if (f) f->sut = 0;
  static_init.push_back({f, s});
  return 1;
}
void __cxa_guard_release(__guard *guard) noexcept { *(volatile u8 *)guard = 1; static_done(); }
void __cxa_guard_abort(__guard *) noexcept { static_done(); }
}
}

extern "C" {
void sim_mutex_lock(int *m) { lock_word(m); }
bool sim_mutex_trylock(int *m) { return trylock_word(m); }
void sim_mutex_unlock(int *m) { unlock_word(m); }
bool sim_mutex_is_locked(const int *m) {
  Fiber *f = g.cur;
  if (f && f->sut) {
    event(EV_ALOAD, off_of(m));
    if (in_arena((uintptr_t)m)) check_mem((uintptr_t)m, 4, false, "lock");
  }
  return *m != 0;
}

// ------------------------------------------------------ instrumentation hooks --
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  Fiber *f = g.cur;
  if (f) {
    if (f->sut) {
      void *me = __builtin_return_address(0);
      u32 h = (u32)(((uintptr_t)me * 0x9E3779B97F4A7C15ull) >> 51);
      while (cov[h].pc != me) {
        if (!cov[h].pc) { cov[h].pc = me; break; }
        h = (h + 1) & (COV_SLOTS - 1);
      }
      cov[h].n++;
    } if (f->depth < 64) f->stk[f->depth] = pc; f->depth++; }
}
void __tsan_func_exit() { Fiber *f = g.cur; if (f && f->depth) f->depth--; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                   \
  void __tsan_read##n(void *p) { plain(p, n, false); }                          \
  void __tsan_write##n(void *p) { plain(p, n, true); }                          \
  void __tsan_read_write##n(void *p) { plain(p, n, false); plain(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { plain(p, n, false); }                 \
  void __tsan_volatile_write##n(void *p) { plain(p, n, true); }                 \
  void __tsan_unaligned_read##n(void *p) { plain(p, n, false); }                \
  void __tsan_unaligned_write##n(void *p) { plain(p, n, true); }                \
  void __tsan_unaligned_read_write##n(void *p) { plain(p, n, false); plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true); }
void __tsan_vptr_read(void **p) { plain(p, 8, false); }
void __tsan_read_range(void *p, unsigned long n) { if (n) plain(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { if (n) plain(p, n, true); }

static bool seen(void *p) {
  return g.cur && g.cur->sut && in_arena((uintptr_t)p);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  bool a = seen(d), b = seen((void *)s);
  if (!a && !b) return memcpy(d, s, n);
  char *dd = (char *)d;
  const char *ss = (const char *)s;
  while (n) {
    size_t k = n < 8 ? n : 8;
    if (b) plain((void *)ss, k, false);
    char tmp[8];
    memcpy(tmp, ss, k);
    if (a) plain(dd, k, true);
    memcpy(dd, tmp, k);
    dd += k; ss += k; n -= k;
  }
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  uintptr_t x = (uintptr_t)d, y = (uintptr_t)s;
  if (x + n <= y || y + n <= x) return __tsan_memcpy(d, s, n);
  if (n) {
    if (seen((void *)s)) plain((void *)s, n, false);
    if (seen(d)) plain(d, n, true);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n && seen(d)) {
    char *p = (char *)d;
    size_t left = n;
    while (left) {
      size_t k = left < 64 ? left : 64;
      plain(p, k, true);
      memset(p, c, k);
      p += k; left -= k;
    }
    return d;
  }
  return memset(d, c, n);
}

#define ATOMICS(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { return a_load<T>(a, mo); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T) ~(o & v); }); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { return a_cas<T>(a, c, v, mo); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { return a_cas<T>(a, c, v, mo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { a_cas<T>(a, &c, v, mo); return c; }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  Fiber *f = g.cur;
  if (!f || !f->sut) return;
  event(EV_FENCE, 0);
  if (mo == __ATOMIC_SEQ_CST) flush(f);
  else if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL) { settle(f); f->lvl++; }
}
void __tsan_atomic_signal_fence(int) {}

int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  if (g.cur && g.cur->tls_dtors) {
    Quiet q;
    g.cur->tls_dtors->push_back({fn, obj});
    return 0;
  }
  static auto impl = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_DEFAULT, "__cxa_thread_atexit_impl");
  return impl ? impl(fn, obj, dso) : 0;
}
// ------------------------------------------------------------- libc seams ----
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  if (!g.cur) {
    fprintf(stderr, "%s:%u: %s: assertion %s failed\n", file, line, fn, e);
    _exit(70);
  }
  const char *b = strrchr(file, '/');
  fail("assert", std::string("assertion failed: ") + e + " (" + (b ? b + 1 : file) + ")");
}
int nanosleep(const struct timespec *r, struct timespec *) {
  if (g.cur) { do_sleep((u64)r->tv_sec * 1000000000ull + (u64)r->tv_nsec); return 0; }
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *o) { return nanosleep(r, o); }
int usleep(useconds_t us) { if (g.cur) do_sleep((u64)us * 1000); return 0; }
int sched_yield() noexcept { if (g.cur) do_sleep(1); return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (g.cur && g.cur->sut) {
    ts->tv_sec = 1000 + g.now / 1000000000ull;
    ts->tv_nsec = g.now % 1000000000ull;
    return 0;
  }
  static int (*real)(clockid_t, struct timespec *) = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  return real(id, ts);
}
int rand() noexcept { return g.cur ? (int)(g.sut_rng.next() >> 33) : 4; }
static int cmp_bytes(const unsigned char *a, const unsigned char *b, size_t n) {
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (n && g.cur && g.cur->sut) { plain((void *)a, n, false); plain((void *)b, n, false); }
  return cmp_bytes((const unsigned char *)a, (const unsigned char *)b, n);
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
#define REAL(name, ...)                                                         \
  static auto real = (int (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (g.cur && g.cur->sut) { lock_word((int *)m); return 0; }
  REAL(pthread_mutex_lock, pthread_mutex_t *);
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (g.cur && g.cur->sut) return trylock_word((int *)m) ? 0 : EBUSY;
  REAL(pthread_mutex_trylock, pthread_mutex_t *);
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (g.cur && g.cur->sut) { unlock_word((int *)m); return 0; }
  REAL(pthread_mutex_unlock, pthread_mutex_t *);
  return real(m);
}
#define SIM_RW(name, expr)                                                      \
  int name(pthread_rwlock_t *m) noexcept {                                      \
    if (g.cur && g.cur->sut) return expr;                                       \
    REAL(name, pthread_rwlock_t *);                                             \
    return real(m);                                                             \
  }
SIM_RW(pthread_rwlock_rdlock, (rw_take((int *)m, false, true), 0))
SIM_RW(pthread_rwlock_wrlock, (rw_take((int *)m, true, true), 0))
SIM_RW(pthread_rwlock_tryrdlock, rw_take((int *)m, false, false) ? 0 : EBUSY)
SIM_RW(pthread_rwlock_trywrlock, rw_take((int *)m, true, false) ? 0 : EBUSY)
SIM_RW(pthread_rwlock_unlock, (rw_release((int *)m), 0))
} // extern "C"

// ----------------------------------------------------------------- allocator --
void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void operator delete(void *p) noexcept { op_delete(p); }
void operator delete[](void *p) noexcept { op_delete(p); }
void operator delete(void *p, size_t) noexcept { op_delete(p); }
void operator delete[](void *p, size_t) noexcept { op_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { op_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { op_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p); }

namespace sim { int reclamation_threshold = 1000; }
extern "C" int sim_reclamation_threshold_c() { return sim::reclamation_threshold; }
