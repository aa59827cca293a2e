// Driver for epoch-based reclamation.
#include "frame.h"
#include "iepoch.h"
#include <cinttypes>
#include <cstdio>
#include <cstring>

namespace sim {
const char *const COMPONENT = "epoch";
IEpoch *ep_make0();
IEpoch *ep_make1();
IEpoch *ep_make2();
extern const char *const ep_name0;
extern const char *const ep_name1;
extern const char *const ep_name2;
static constexpr u32 ep_ids[] = {MAX_THREADS, MAX_THREADS, 130};
enum K : u32 { READ, SWAP, DORECLAIM, SETTHR, SWITCH, REREG, PAUSE, NK };
static const char *const KN[] = {"guarded read", "unlink and retire", "do_reclaim", "set_reclamation_threshold", "switch_epoch", "re-register", "pause"};
static constexpr u32 MAXOBJ = 4096;

Prog gen_prog(u64 seed, const std::string &prof) {
  Rng r(seed);
  Prog p;
  bool life = prof == "lifecycle";
  { static const u32 v[] = {0, 0, 1, 1, 2}; p.par["variant"] = v[r.below(5)]; }
  p.par["ids"] = r.chance(0.6) ? 0 : 1 + r.below(2);
  u32 ns = 1 + r.below(4);
  p.par["slots"] = ns;
  static const int thr[] = {1, 1, 2, 3, 5, 10, 1000};
  p.par["threshold"] = thr[r.below(7)];
  p.par["all_mid"] = r.chance(0.4);
  p.par["all_end"] = r.chance(0.6);
  p.par["set_mid"] = r.chance(0.4) ? 1 + r.below(8) : 0;
  p.par["life"] = life;
  u32 nt = 2 + r.below(4);
  u32 nr = life ? 1 + r.below(3) : 1 + r.below(2);
  u32 ids = ns;
  u32 lo = 1, hi = r.chance(0.5) ? 5 : 30;
  double w[NK] = {4, 4, r.chance(0.6) ? 1.0 : 0, r.chance(0.2) ? 0.3 : 0, r.chance(0.3) ? 0.5 : 0, r.chance(life ? 0.7 : 0.3) ? 0.7 : 0, 0.1};
  double tot = 0;
  for (double x : w) tot += x;
  auto mk = [&](u32 kind) {
    Op o;
    o.kind = kind;
    o.k = r.below(ns);
    o.k2 = 1 + (kind == SWAP && r.chance(0.7) ? 0 : r.below(4)); // how many slots
    if (kind == READ) o.arg = (1 + r.below(3)) | r.below(12) << 4; // depth, looks
    if (kind == READ && r.chance(0.0005)) o.arg |= 15; // very deep nesting
    if (kind == SWAP) { o.arg = r.below(8); o.uid = ids; ids += o.k2; }
    if (kind == SETTHR) o.arg = 1 + r.below(6);
    return o;
  };
  u32 pre = r.below(10);
  for (u32 i = 0; i < pre; i++) p.prefill.push_back(mk(r.chance(0.8) ? SWAP : READ));
  for (u32 rd = 0; rd < nr; rd++) {
    p.rounds.emplace_back();
    for (u32 t = 0; t < nt; t++) {
      Ops v;
      u32 cnt = r.range(lo, hi);
      int role = r.chance(0.5) ? (int)r.below(2) : -1;
      for (u32 i = 0; i < cnt && ids + 8 < MAXOBJ; i++) {
        u32 k = 0;
        double x = r.next32() / 4294967296.0 * tot;
        while (k + 1 < NK && x >= w[k]) { x -= w[k]; k++; }
        if (w[k] == 0) k = READ;
        if (role >= 0 && r.chance(0.85)) k = (u32)role;
        v.push_back(mk(k));
      }
      p.rounds.back().push_back(v);
    }
  }
  gen_sched(r, p.cfg, false, false, 600);
  p.cfg.p_allocfail = 0;
  return p;
}
static u32 depth_of(const Op &o) { return (o.arg & 15) == 15 ? 300 : std::max(1u, o.arg & 15); }
std::string op_text(const Prog &p, const Op &o) {
  char b[160];
  switch (o.kind) {
  case READ: snprintf(b, sizeof b, "guarded read of %u slots from %u, nesting %u, %u looks each", o.k2, o.k, depth_of(o), o.arg >> 4); break;
  case SWAP:
    snprintf(b, sizeof b, "unlink and retire %u objects from slot %u%s%s%s", o.k2, o.k, o.arg & 1 ? " in the current epoch" : " in a new epoch",
             o.arg & 2 ? ", guarded" : "", o.arg & 4 ? ", as one batch" : "");
    break;
  default: snprintf(b, sizeof b, "%s(%u)", KN[o.kind < NK ? o.kind : 0], o.arg);
  }
  return b;
}
std::string describe_prog(const Prog &p) {
  char b[200];
  snprintf(b, sizeof b, "epoch %s seed=%" PRIu64 " slots=%d threshold=%d", p.get("variant") > 1 ? ep_name2 : p.get("variant") ? ep_name1 : ep_name0, p.seed, (int)p.get("slots"),
           (int)p.get("threshold"));
  std::string s = b;
  for (auto &r : p.rounds) {
    s += " | round:";
    for (size_t t = 0; t < r.size(); t++) {
      s += " T" + std::to_string(t) + "[";
      for (size_t i = 0; i < r[t].size() && i < 5; i++) s += (i ? "; " : "") + op_text(p, r[t][i]);
      s += r[t].size() > 5 ? "; ...]" : "]";
    }
  }
  return s;
}

struct Exec : EpochHooks {
  const Prog &p;
  Outcome &o;
  IEpoch *e;
  struct Obj {
    u64 unlinked = 0;
    u64 ret_done = 0;   // step at which the call that retired it had returned, 0: not yet
    u64 epoch_done = 0; // step from which everyone who enters is in a later epoch, 0: not yet
    u32 fn = 0, by = 0;
    bool retired = false, gone = false;
    int held = 0;
  };
  std::vector<u32> pending; // retired objects, not known to be gone
  Obj obj[MAXOBJ];
  u64 in_since[16] = {}; // per simulated thread: step its guarded section began, 0 none
  u64 guard_since[16] = {}; // step its enter_epoch was called, until the exit is visible to all
  u64 unlink_step[16] = {};
  u32 batch_first[16] = {}; // first object of the current batch: names the destruction function
  bool batch[16] = {};
  u32 mine[16][8], nmine[16] = {}; // retired by the running operation
  i64 outstanding[MAX_IDS] = {}; // retired and not yet destroyed, per thread id
  u32 nret = 0, ngone = 0;
  bool closing = false;
  char msg[200];

  Exec(const Prog &a, Outcome &b) : p(a), o(b), e(a.get("variant") > 1 ? ep_make2() : a.get("variant") ? ep_make1() : ep_make0()) {}
  u32 T() { return self() % 16; }
  void entering() override { if (!guard_since[T()]) guard_since[T()] = now_step(); }
  void entered() override { if (!in_since[T()]) in_since[T()] = now_step(); }
  void exiting() override { in_since[T()] = 0; }
  void holds(u32 id, bool on) override { if (id < MAXOBJ) obj[id].held += on ? 1 : -1; }
  void unlinking() override { unlink_step[T()] = now_step(); }
  void unlinked(u32 id) override {
    Obj &x = obj[id];
    x.unlinked = unlink_step[T()];
    x.retired = true;
    x.by = thread_id();
    if (!batch[T()]) x.fn = id;
    else { if (batch_first[T()] == ~0u) batch_first[T()] = id; x.fn = batch_first[T()]; }
    outstanding[x.by]++;
    if (nmine[T()] < 8) mine[T()][nmine[T()]++] = id;
    nret++;
  }
  void destroyed(u32 id, u32 fn) override {
    if (id >= MAXOBJ) fail("epoch-exactly-once", "something that was never retired was destroyed");
    Obj &x = obj[id];
    if (!x.retired) fail("epoch-exactly-once", "an object that was never retired was destroyed");
    if (x.gone) fail("epoch-exactly-once", "an object was destroyed twice");
    if (x.fn != fn) fail("epoch-exactly-once", "an object was destroyed by another object's destruction function");
    x.gone = true;
    outstanding[x.by]--;
    ngone++;
    if (closing) return;
    for (u32 t = 0; t < 16; t++)
      if (in_since[t] && in_since[t] < x.unlinked) {
        snprintf(msg, sizeof msg, "object %u, unlinked at %" PRIu64 ", was destroyed at %" PRIu64 " while T%u was inside a guarded section it entered at %" PRIu64,
                 id, x.unlinked, now_step(), t, in_since[t]);
        fail("epoch-safety", msg);
      }
    if (x.held > 0) fail("epoch-safety", "an object was destroyed while a guarded thread was using it");
  }

  // A switch to a new epoch that was called at s0 has returned: whoever enters
  // from now on does not hold back what had been retired by then.
  void switched(u64 s0) {
    u64 e0 = now_step();
    size_t w = 0;
    for (u32 id : pending) {
      if (obj[id].gone) continue;
      pending[w++] = id;
      if (!obj[id].epoch_done && obj[id].ret_done <= s0) obj[id].epoch_done = e0;
    }
    pending.resize(w);
  }
  void one(const Op &op) {
    sync_point(EV_OP);
    i64 n;
    u64 s0 = now_step();
    switch (op.kind) {
    case READ: e->read(op.k, op.k2, depth_of(op), op.arg >> 4); break;
    case SWAP:
      batch[T()] = op.arg & 4;
      batch_first[T()] = ~0u;
      nmine[T()] = 0;
      e->swap(op.k, op.k2, op.arg, op.uid);
      for (u32 i = 0; i < nmine[T()]; i++) {
        u32 id = mine[T()][i];
        obj[id].ret_done = now_step();
        if (!(op.arg & 1)) obj[id].epoch_done = now_step();
        if (!obj[id].gone) pending.push_back(id);
      }
      if (!(op.arg & 1)) switched(s0);
      break;
    case DORECLAIM: {
      u64 first = s0; // the earliest section anyone may still be in
      for (u64 g : guard_since) if (g && g < first) first = g;
      std::vector<u32> due;
      for (u32 id : pending)
        if (!obj[id].gone && obj[id].by == thread_id() && obj[id].epoch_done && obj[id].epoch_done < first) due.push_back(id);
      n = e->do_reclaim();
      for (u32 id : due)
        if (!obj[id].gone) {
          snprintf(msg, sizeof msg, "do_reclaim() left object %u, although every guarded section began (%" PRIu64 ") after the epoch it was retired in had ended (%" PRIu64 ")",
                   id, first, obj[id].epoch_done);
          fail("epoch-unreclaimed", msg);
        }
      if (n != outstanding[thread_id()]) {
        snprintf(msg, sizeof msg, "do_reclaim() reports %lld objects still retired, there are %lld", (long long)n, (long long)outstanding[thread_id()]);
        fail("epoch-count", msg);
      }
      break;
    }
    case SETTHR: e->set_threshold((int)op.arg); thr = op.arg; break;
    case SWITCH: e->switch_epoch(); switched(s0); break;
    case REREG:
      unregister_thread();
      sync_point(EV_USER);
      register_thread();
      counters().churn++;
      break;
    default: for (u32 i = 0; i < op.arg % 6; i++) sync_point(EV_USER);
    }
    progress_mark();
    flush_buffer();
    guard_since[T()] = 0;
    o.ops++;
  }
  i64 thr = 0; // set_reclamation_threshold was called, last with this

  // nothing is guarded any more: a reclamation must get everything
  void quiesce(u32 fresh, bool all) {
    if (all) {
      e->reclaim_all();
      if (ngone != nret) {
        snprintf(msg, sizeof msg, "%u of %u retired objects are still there after reclaim_all() with no thread in a guarded section", nret - ngone, nret);
        fail("epoch-unreclaimed", msg);
      }
    } else {
      // reaching the threshold reclaims, and nothing holds anything back
      u32 id = thread_id();
      i64 n = p.get("threshold");
      if (thr || p.get("set_mid")) { // the threshold the concurrent phase left behind is not known
        n = p.get("set_mid");
        if (n) e->set_threshold((int)n);
      }
      if (n > 0 && n <= 12) {
        for (i64 i = 0; i < n; i++) { Op w; w.kind = SWAP; w.k = 0; w.k2 = 1; w.arg = 0; w.uid = fresh++; one(w); }
        if (outstanding[id] >= n) {
          snprintf(msg, sizeof msg, "%lld retired objects are unreclaimed although the threshold is %lld and no thread is guarded", (long long)outstanding[id], (long long)n);
          fail("epoch-unreclaimed", msg);
        }
      }
      Op d;
      d.kind = DORECLAIM;
      one(d);
      if (outstanding[id]) fail("epoch-unreclaimed", "do_reclaim() left objects although no thread is in a guarded section");
    }
  }
  void run() {
    set_thread_ids((u32)p.get("ids"), ep_ids[p.get("variant")]);
    u32 fresh = MAXOBJ - 200;
    bool ok = run_phase({[&] {
      register_thread();
      reclamation_threshold = (int)p.get("threshold");
      e->construct((u32)p.get("slots"), this);
      for (auto &op : p.prefill) one(op);
      flush_buffer();
      unregister_thread();
    }}, true);
    for (auto &r : p.rounds) {
      if (!ok) break;
      std::vector<std::function<void()>> bodies;
      for (u32 t = 0; t < r.size(); t++)
        bodies.push_back([&, t] {
          register_thread();
          for (auto &op : r[t]) one(op);
          flush_buffer();
          unregister_thread();
        });
      ok = run_phase(bodies, false);
      if (!ok) break;
      ok = run_phase({[&] {
        register_thread();
        quiesce(fresh, p.get("all_mid"));
        fresh += 12;
        flush_buffer();
        unregister_thread();
      }}, true);
    }
    if (ok)
      run_phase({[&] {
        register_thread();
        if (p.get("all_end")) quiesce(fresh, true);
        closing = true;
        e->destroy_manager();
        if (ngone != nret) {
          snprintf(msg, sizeof msg, "%u of %u retired objects were never destroyed", nret - ngone, nret);
          fail("epoch-unreclaimed", msg);
        }
        e->destroy_objects();
        flush_buffer();
        unregister_thread();
        end_thread_locals();
        if (live_allocs()) {
          snprintf(msg, sizeof msg, "%" PRIu64 " objects (%" PRIu64 " bytes) are still allocated at the end:", live_allocs(), live_bytes());
          fail("leak", msg + describe_leaks(4));
        }
      }}, true);
  }
};
void exec_prog(const Prog &p, Outcome &o) {
  Exec *x = new Exec(p, o);
  x->run();
  o.nontrivial = counters().preempts > 0;
  if (!violation().set) { delete x->e; delete x; }
}
} // namespace sim
