// Deterministic simulator: fibers, seeded scheduler, store buffers, simulated
// heap, simulated clock, fault injection.  The code under test is compiled with
// -fsanitize=thread and linked with this runtime instead of the real one, so
// every plain and atomic memory access is a seam the scheduler controls.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix64(u64 z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rng {
  u64 a, b;
  explicit Rng(u64 seed = 1) : a(mix64(seed)), b(mix64(seed ^ 0xabcdef1234567ull)) {
    if (!(a | b)) a = 1;
  }
  u64 next() { // xoroshiro128+
    u64 s0 = a, s1 = b, r = s0 + s1;
    s1 ^= s0;
    a = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    b = (s1 << 37) | (s1 >> 27);
    return r;
  }
  u32 next32() { return (u32)(next() >> 32); }
  u32 below(u32 n) { return n ? (u32)(((u64)next32() * n) >> 32) : 0; }
  u32 range(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }
  bool chance(double p) { return next32() < p * 4294967296.0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};

enum Ev : u8 {
  EV_PLAIN_R, EV_PLAIN_W, EV_ALOAD, EV_ASTORE, EV_ARMW, EV_FENCE, EV_LOCK,
  EV_UNLOCK, EV_SLEEP, EV_OP, EV_ALLOC, EV_FREE, EV_USER, EV_NUM
};

enum DecKind : u8 { D_SWITCH, D_BUFFER, D_DRAIN, D_ALLOCFAIL, D_TRYFAIL };

struct Dec { // one recorded scheduler / fault decision
  u32 phase;
  u32 tid;
  u32 idx; // tid-local event index
  u32 kind;
  u32 arg;
};

struct SchedCfg {
  double p_switch[EV_NUM] = {}; // chance of a context switch at each event kind
  int pct_depth = 0;            // >0: PCT priorities with that many change points
  u32 pct_len = 4000;
  bool weak = false; // stores that are not releases may overtake earlier ones
  bool tso = false; // model x86-TSO store buffers
  double p_buffer = 0, p_drain = 0;
  bool lazy = false; // a stalled thread's store buffer stays undrained
  double p_stall = 0; // chance that a preempted thread is stalled for a while
  u32 stall_max = 0;
  int victim = -1; // this thread is stalled again and again in the middle of its operations
  double p_victim = 0;
  u32 victim_stall = 0;
  double p_allocfail = 0;
  double p_tryfail = 0;
  int reuse = 0;      // 0 never reuse freed memory, 1 LIFO reuse
  u8 fill = 0xCD;     // junk in fresh memory
  u32 quantum = 0;    // forced switch after this many events of one thread
  u64 fair_after = 150000; // after this many events: faults stop, fair schedule
  u64 fair_budget = 3000000;
  // freeze: at this event of the run every thread but the marked one stops for
  // good; used to decide "lookups do not wait for other threads"
  i64 solo_at = -1;
  u32 solo_tid = 0;
  u64 solo_budget = 60000;
};

struct Violation {
  bool set = false;
  std::string cls, msg;
  std::vector<void *> stack;
  u32 tid = 0;
  u64 step = 0;
};

struct Counters {
  u64 steps = 0, sync_events = 0, switches = 0, preempts = 0, stalls = 0, buffered = 0,
      drains = 0, overtakes = 0, allocfails = 0, tryfails = 0, allocs = 0, frees = 0,
      lock_blocks = 0, sleeps = 0, sim_ns = 0, heap_bytes = 0, churn = 0, solo = 0,
      reuse_hits = 0;
  void add(const Counters &o) {
    auto *x = (u64 *)this;
    auto *y = (const u64 *)&o;
    for (size_t i = 0; i < sizeof(*this) / 8; i++) x[i] += y[i];
  }
};

// ---- life cycle of one run --------------------------------------------------
void run_begin(u64 seed, const SchedCfg &cfg, const std::vector<Dec> *replay);
// Runs the given bodies as simulated threads until all finish or a violation
// ends the run.  sequential: no preemption, no faults.  Returns false on violation.
bool run_phase(const std::vector<std::function<void()>> &bodies, bool sequential);
void run_end();
const Violation &violation();
const std::vector<Dec> &trace();
u64 event_hash();
u64 sched_hash();
Counters &counters();

// ---- called from inside simulated threads -----------------------------------
u64 now_step(); // global event sequence number
u32 self();
bool in_fiber();
[[noreturn]] void fail(const char *cls, const char *msg);
[[noreturn]] void fail(const char *cls, const std::string &msg);
void start_watchdog();
void sut_enter(); // from here, accesses are events and allocations are simulated
void sut_exit();
void sync_point(Ev e, const void *addr = nullptr);
void flush_buffer();
void arm_solo(u32 k); // freeze every other thread at the k-th event from now
void end_solo();
int held_locks();
struct Sut {
  Sut() { sut_enter(); }
  ~Sut() { sut_exit(); }
};
void sut_pause();
struct Unsut { // harness code, touching no memory of the code under test, inside a call
  Unsut() { sut_pause(); }
  ~Unsut() { sut_enter(); }
};
// function-entry counts of instrumented code, for reach reports
constexpr u32 COV_SLOTS = 8192;
struct CovSlot { void *pc; u64 n; };
CovSlot *coverage();
extern int reclamation_threshold; // what the code under test starts its epoch managers with
void set_faults(bool on); // allocation failures etc. only while on
void end_thread_locals(); // destroy the running thread's thread-local variables, which start anew
void progress_mark(); // an operation finished, or an iteration advanced
bool faults_fair();       // true when the fair phase has begun
// threads registry
u32 thread_id();
u32 register_thread();
void unregister_thread();
u32 max_thread_id();
// heap
u64 live_allocs();
u64 live_bytes();
std::string describe_leaks(u32 max);
void for_live_allocs(const std::function<void(u64 size)> &f);
bool heap_is_live(const void *p);
u64 clock_ns();
u64 sut_random();
constexpr u32 MAX_THREADS = 12; // at once
constexpr u32 MAX_IDS = 160;
// thread ids are below cap and handed out lowest first (0), highest first (1) or in no order (2)
void set_thread_ids(u32 policy, u32 cap);
} // namespace sim

extern "C" {
void sim_mutex_lock(int *m);
bool sim_mutex_trylock(int *m);
void sim_mutex_unlock(int *m);
bool sim_mutex_is_locked(const int *m);
}
