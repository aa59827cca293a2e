// btree::concurrent_map under the simulator; one translation unit per variant.
#if VARIANT == 9
#include "stubs/wide_registry.h"
#endif
#include "keyof.h"
#include "indexes/btree/concurrent_map.h"
#include <utility>

namespace sim {
template <class Map, class K, class V, class T> struct BtMap : IMap {
  using KO = KeyOf<K>;
  Map *m = nullptr;
  void construct(u32) override { m = new Map(); }
  void destroy() override { delete m; m = nullptr; }
  void move_construct() override {
    Map *n = new Map(std::move(*m));
    delete m;
    m = n;
  }
  static V val(u64 v) { V x{}; enc(v, x); return x; }
  static Opt ret(std::optional<V> &&o) { if (!o) return {}; return dec(*o); }
  bool insert(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return m->Insert(kk, vv); }
  Opt upsert(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return ret(m->Upsert(kk, vv)); }
  Opt update(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return ret(m->Update(kk, vv)); }
  Opt del(u64 k) override { auto kk = KO::make(k); Sut s; return ret(m->Delete(kk)); }
  Opt get(u64 k) override {
    auto kk = KO::make(k);
    Sut s;
    if constexpr (std::is_same_v<K, std::string>) if ((k ^ k >> 7) & 1) return ret(m->Search(std::string_view(kk)));
    return ret(m->Search(kk));
  }
  void reserve(u32 n) override { Sut s; m->reserve(n); }
  void reclaim() override { Sut s; m->reclaim_all(); }
  u32 nsize = 0;
  i64 size() override {
    if constexpr (T::STAT) { Sut s; return nsize++ & 1 ? (i64)m->stats().num_elements.load() : (i64)m->size(); }
    return -1;
  }
  int empty() override { if constexpr (T::STAT) { Sut s; return m->empty(); } return -1; }
  int height() override { Sut s; return m->height(); }

  // the three ways to get at an element take turns
  template <class It> static bool emit(It &it, Sink &k) {
    u64 kw, v;
    switch (k.form++ % 3) {
    case 0: kw = KO::back(it->first), v = dec_it(it->second); break;
    case 1: { auto &e = *it; kw = KO::back(e.first), v = dec_it(e.second); break; }
    default: kw = KO::back(it.key()), v = dec_it(it.data()); break;
    }
    Unsut u;
    return k.elem(kw, v);
  }
  template <class It, class End> static void walk(It it, const End &end, bool post, Sink &k) {
    while (it != end) {
      if (!emit(it, k)) return;
      if (post) it++; else ++it;
    }
  }
  template <class R> static void rwalk(R &it, Sink &k, u32 copy_at = ~0u) {
    while (it) {
      if (!emit(it, k)) return;
      if (copy_at-- == 0) { // a copy carries on from here by itself
        R c(it);
        ++c;
        rwalk(c, k);
        return;
      }
      ++it;
    }
  }
  // the caller's bounds need not outlive the call that makes the iterator
  template <bt::range_kind L, bt::range_kind R, class A, class B> void range1(bool f, const A &lo, const B &hi, Sink &k, u32 copy_at) {
    auto a = std::make_unique<A>(lo);
    auto b = std::make_unique<B>(hi);
    if (f) {
      auto it = m->template range_iter<L, R>(*a, *b);
      a.reset(); b.reset();
      rwalk(it, k, copy_at);
    } else {
      auto it = m->template rrange_iter<L, R>(*a, *b);
      a.reset(); b.reset();
      rwalk(it, k, copy_at);
    }
  }
  template <class A, class B> void ranges(const ScanReq &q, const A &lo, const B &hi, Sink &k) {
    Sut s;
    using namespace bt;
    bool f = q.kind == ScanReq::RANGE;
    u32 c = q.alt & 2 ? (u32)(q.lo ^ q.hi) % 5 : ~0u;
    if (q.lk == RK_INC && q.rk == RK_INC) range1<INCLUSIVE, INCLUSIVE>(f, lo, hi, k, c);
    else if (q.lk == RK_INC) range1<INCLUSIVE, EXCLUSIVE>(f, lo, hi, k, c);
    else if (q.rk == RK_INC) range1<EXCLUSIVE, INCLUSIVE>(f, lo, hi, k, c);
    else range1<EXCLUSIVE, EXCLUSIVE>(f, lo, hi, k, c);
  }
  template <class A> void bounds(const ScanReq &q, const A &lo, Sink &k) {
    Sut s;
    if (q.kind == ScanReq::LB) walk(m->lower_bound(lo), m->end(), q.post, k);
    else walk(m->upper_bound(lo), m->end(), q.post, k);
  }
  void scan(const ScanReq &q, Sink &k) override {
    const Map &cm = *m;
    if (q.kind == ScanReq::FULL_F) { Sut s; if (q.alt & 1) walk(cm.cbegin(), cm.cend(), q.post, k); else walk(cm.begin(), cm.end(), q.post, k); return; }
    if (q.kind == ScanReq::FULL_R) { Sut s; if (q.alt & 1) walk(cm.crbegin(), cm.crend(), q.post, k); else walk(cm.rbegin(), cm.rend(), q.post, k); return; }
    auto lo = KO::make(q.lo), hi = KO::make(q.hi);
    if constexpr (std::is_same_v<K, std::string>) {
      if (q.alt & 1) { // bounds of another type
        std::string_view a(lo), b(hi);
        if (q.kind == ScanReq::LB || q.kind == ScanReq::UB) bounds(q, a, k);
        else ranges(q, a, hi, k);
        return;
      }
    }
    if constexpr (KO::prefix_bits != 0) {
      if (q.partial) {
        using PK = bt::compound_key<int>;
        PK plo(std::get<0>(lo)), phi(std::get<0>(hi));
        if (q.kind == ScanReq::LB || q.kind == ScanReq::UB) bounds(q, plo, k);
        else ranges(q, plo, phi, k);
        return;
      }
    }
    if (q.kind == ScanReq::LB || q.kind == ScanReq::UB) bounds(q, lo, k);
    else ranges(q, lo, hi, k);
  }
  template <class It> static void steps(It it, const It &end, bool rev, const std::vector<u8> &moves, Sink &k) {
    if (it == end) { off(k); return; }
    if (!emit(it, k)) return;
    for (u8 mv : moves) {
      switch (mv < 4 && rev ? mv ^ 1 : mv) {
      case 0: ++it; break;
      case 1: --it; break;
      case 2: { u64 on = KO::back(it->first); auto was = it++; same(on == KO::back(was->first)); break; }
      case 3: { u64 on = KO::back(it->first); auto was = it--; same(on == KO::back(was->first)); break; }
      default: {
        auto c = it;
        auto d = std::move(c);
        if (d == end || !emit(d, k)) return;
        continue;
      }
      }
      if (it == end) { off(k); return; }
      if (!emit(it, k)) return;
    }
  }
  void cursor(u64 lo, const std::vector<u8> &moves, Sink &k) override {
    auto kk = KO::make(lo);
    Sut s;
    // a reverse iterator made from a forward one is on the same element
    if ((lo ^ moves.size() ^ moves[0]) & 1) steps(decltype(m->rbegin())(m->lower_bound(kk)), m->rend(), true, moves, k);
    else steps(m->lower_bound(kk), m->end(), false, moves, k);
  }
  static void same(bool eq) {
    if (eq) return;
    Unsut u;
    fail("scan-order", "the iterator a postfix step returns is not where the original was");
  }
  static void off(Sink &k) { Unsut u; k.off(); }
};

// keys that only a comparator given with every call can compare; here it sorts them downwards
struct DKey : bt::dynamic_key_base {
  u64 w;
};
template <> struct KeyOf<DKey> {
  static DKey make(u64 k) { DKey d; d.w = ~k; return d; }
  static u64 back(const DKey &k) { return ~k.w; }
  static constexpr u32 prefix_bits = 0;
};
template <class V, class T> struct DynMap : bt::concurrent_map<DKey, V, T> {
  using B = bt::concurrent_map<DKey, V, T>;
  struct Down final : B::dynamic_cmp {
    bool less(const DKey &a, const DKey &b) const noexcept override { return a.w > b.w; }
    bool equal(const DKey &a, const DKey &b) const noexcept override { return a.w == b.w; }
  };
  static inline const Down c{};
  bool Insert(const DKey &k, const V &v) { return B::Insert(k, v, &c); }
  std::optional<V> Upsert(const DKey &k, const V &v) { return B::Upsert(k, v, &c); }
  std::optional<V> Update(const DKey &k, const V &v) { return B::Update(k, v, &c); }
  std::optional<V> Search(const DKey &k) { return B::Search(k, &c); }
  std::optional<V> Delete(const DKey &k) { return B::Delete(k, &c); }
  auto cbegin() const { return B::cbegin(&c); }
  auto cend() const { return B::cend(&c); }
  auto begin() const { return B::begin(&c); }
  auto end() const { return B::end(&c); }
  auto crbegin() const { return B::crbegin(&c); }
  auto crend() const { return B::crend(&c); }
  auto rbegin() const { return B::rbegin(&c); }
  auto rend() const { return B::rend(&c); }
  auto lower_bound(const DKey &k) const { return B::lower_bound(k, &c); }
  auto upper_bound(const DKey &k) const { return B::upper_bound(k, &c); }
  template <bt::range_kind L, bt::range_kind R> auto range_iter(const DKey &a, const DKey &b) { return B::template range_iter<L, R>(a, b, &c); }
  template <bt::range_kind L, bt::range_kind R> auto rrange_iter(const DKey &a, const DKey &b) { return B::template rrange_iter<L, R>(a, b, &c); }
};

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if VARIANT == 0
using T = Tr<256, 80, true, true>; using K = i64; using V = u64; static const char *N = "btree i64->u64 node256 debug"; static const u32 B = 64, F = 6;
#elif VARIANT == 1
using T = Tr<384, 50, false, true>; using K = i64; using V = i64; static const char *N = "btree i64->i64 node384"; static const u32 B = 64, F = 12;
#elif VARIANT == 2
using T = Tr<512, 80, true, true>; using K = CK; using V = i64; static const char *N = "btree compound->i64 node512 debug"; static const u32 B = 60, F = 12;
#elif VARIANT == 3
using T = Tr<448, 60, true, true>; using K = HKey; using V = u64; static const char *N = "btree heap-key->u64 node448 debug"; static const u32 B = 64, F = 12;
#elif VARIANT == 4
using T = Tr<512, 40, false, true>; using K = std::string; using V = u64; static const char *N = "btree string->u64 node512"; static const u32 B = 64, F = 8;
#elif VARIANT == 5
using T = Tr<512, 80, false, true>; using K = u64; using V = Wide; static const char *N = "btree u64->32-byte node512"; static const u32 B = 64, F = 8;
#elif VARIANT == 7
using T = Tr<448, 70, false, true>; using K = DKey; using V = u64; static const char *N = "btree dynamically-compared->u64 node448"; static const u32 B = 64, F = 12;
#elif VARIANT == 9
using T = Tr<256, 70, true, true>; using K = i64; using V = u64; static const char *N = "btree i64->u64 node256 debug, 130 threads"; static const u32 B = 64, F = 6;
#define IDS 130
#elif VARIANT == 10
using T = Tr<73728, 60, false, true>; using K = i64; using V = u64; static const char *N = "btree i64->u64 node73728"; static const u32 B = 64, F = 3000;
#elif VARIANT == 8
using T = Tr<448, 60, true, true>; using K = CKG; using V = u64; static const char *N = "btree compound descending->u64 node448 debug"; static const u32 B = 64, F = 8;
#else
using T = bt::btree_traits_default; using K = i64; using V = i64; static const char *N = "btree i64->i64 default traits"; static const u32 B = 64, F = 400;
#endif
#if VARIANT == 7
using M = DynMap<V, T>;
#else
using M = bt::concurrent_map<K, V, T>;
#endif
#ifndef IDS
#define IDS 0
#endif
MapInfo CAT(bt_info, VARIANT) = {N, true, true, T::STAT, T::STAT, true, false, true, B, KeyOf<K>::prefix_bits, false, 0, F,
                                 (u32)(T::NODE_SIZE / (4 + std::min(sizeof(std::pair<K, V>), sizeof(std::pair<K, void *>))) + 1), IDS};
IMap *CAT(bt_make, VARIANT)() { return new BtMap<M, K, V, T>(); }
} // namespace sim
