// EpochManager under the simulator: readers in guarded sections, writers that
// unlink, retire and reclaim.
#if VARIANT == 2
#include "stubs/wide_registry.h"
#endif
#include "iepoch.h"
#include "stdinc.h"
#include "indexes/utils/EpochManager.h"

namespace sim {
struct Node {
  u64 id, check;
  std::atomic<u32> uses{0};
};
#if VARIANT == 0
using EM = indexes::utils::EpochManager<int64_t, Node>;
static const char *N = "EpochManager<int64_t>";
#elif VARIANT == 2
using EM = indexes::utils::EpochManager<int64_t, Node>;
static const char *N = "EpochManager<int64_t>, 130 threads";
#else
using EM = indexes::utils::EpochManager<uint32_t, Node, 2>;
static const char *N = "EpochManager<uint32_t,...,2>";
#endif
namespace { // one per variant
struct Ep : IEpoch {
  EM *em = nullptr, *em2 = nullptr; // em2 guards nothing, and must not matter to em
  std::atomic<Node *> *slots = nullptr;
  u32 ns = 0;
  EpochHooks *h = nullptr;
  static Node *mk(u32 id) { return new Node{id, ~(u64)id, {}}; }
  void construct(u32 n, EpochHooks *hk) override {
    Sut s;
    h = hk;
    ns = n;
    em2 = new EM();
    em = new EM();
    slots = new std::atomic<Node *>[n];
    for (u32 i = 0; i < n; i++) slots[i].store(mk(i));
  }
  void destroy_manager() override { Sut s; delete em2; delete em; em = em2 = nullptr; }
  void destroy_objects() override {
    Sut s;
    for (u32 i = 0; i < ns; i++) delete slots[i].load();
    delete[] slots;
  }
  void look(Node *p) {
    u64 a = p->id, b = p->check;
    if (b != ~a) fail("use-after-free", "a guarded thread read an object that was already reclaimed");
  }
  void read(u32 slot, u32 n, u32 depth, u32 lk) override {
    Sut s;
    u32 two = lk & 3; // 1: enters em2 first, 2: then, and leaves it before em; 3: leaves it last
    if (two == 1) em2->enter_epoch();
    h->entering();
    em->enter_epoch();
    h->entered();
    if (two > 1) em2->enter_epoch();
    for (u32 i = 1; i < depth; i++) em->enter_epoch();
    Node *last = nullptr;
    for (u32 i = 0; i < n; i++) {
      Node *p = last = slots[(slot + i) % ns].load(std::memory_order_acquire);
      u32 id = (u32)p->id;
      h->holds(id, true);
      for (u32 j = 0; j < lk; j++) look(p);
      if (i < depth - 1) em->exit_epoch(); // still guarded by the outer levels
      look(p);
      h->holds(id, false);
      if (i < depth - 1) em->enter_epoch();
    }
    for (u32 i = 1; i < depth; i++) em->exit_epoch();
    if (two == 1 || two == 2) em2->exit_epoch();
    if (two && last) look(last);
    h->exiting();
    if (last && depth == 1) last->uses.store(n, std::memory_order_relaxed); // a write that others may see late
    em->exit_epoch();
    if (two == 3) em2->exit_epoch();
    for (u32 j = 0; j <= lk; j++) (void)slots[slot].load(std::memory_order_acquire); // goes on without a guard
  }
  void retire(Node **o, u32 n, u32 mode) {
    EpochHooks *hk = h;
    u32 fn = (u32)o[0]->id; // each retirement has its own destruction function
    auto rec = [hk, fn](Node *p) { hk->destroyed((u32)p->id, fn); p->check = 0; delete p; };
    if (n == 1 && !(mode & 4)) {
      if (mode & 1) em->retire_in_current_epoch(rec, o[0]); else em->retire_in_new_epoch(rec, o[0]);
    } else {
      gsl::span<Node *> sp{o, n};
      if (mode & 1) em->retire_in_current_epoch(rec, sp); else em->retire_in_new_epoch(rec, sp);
    }
  }
  void swap(u32 slot, u32 n, u32 mode, u32 first) override {
    Sut s;
    Node *old[8];
    if (mode & 2) { h->entering(); em->enter_epoch(); h->entered(); }
    for (u32 i = 0; i < n; i++) {
      Node *fresh = mk(first + i);
      h->unlinking();
      old[i] = slots[(slot + i) % ns].exchange(fresh);
      h->unlinked((u32)old[i]->id);
      if (!(mode & 4)) retire(old + i, 1, mode);
    }
    if (mode & 4) retire(old, n, mode);
    if (mode & 2) { h->exiting(); em->exit_epoch(); }
  }
  i64 do_reclaim() override { Sut s; em2->do_reclaim(); return (i64)em->do_reclaim(); }
  void reclaim_all() override { Sut s; em->reclaim_all(); }
  void set_threshold(int t) override { Sut s; em->set_reclamation_threshold(t); }
  void switch_epoch() override { Sut s; em2->switch_epoch(); em->switch_epoch(); }
};
} // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
IEpoch *CAT(ep_make, VARIANT)() { return new Ep(); }
extern const char *const CAT(ep_name, VARIANT);
const char *const CAT(ep_name, VARIANT) = N;
} // namespace sim
