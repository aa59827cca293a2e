// btree::map (single-threaded) under the simulator; one translation unit per variant.
#include "keyof.h"
#include "indexes/btree/map.h"

namespace sim {
static u64 noise;
static void ko_reset() { noise = 0; }
template <class Map, class K, class V, class KO> struct SeqMap : IMap {
  Map *m = nullptr;
  void construct(u32) override { ko_reset(); m = new Map(); }
  void destroy() override { delete m; m = nullptr; }
  static V val(u64 v) { V x{}; enc(v, x); return x; }
  static u64 seen(const V &v) { return dec(v); }
  const Map &c() const { return *m; }
  // a lookup through either interface
  V *find(const K &kk, bool viac) {
    if (viac) {
      auto it = c().find(kk);
      return it == c().end() ? nullptr : const_cast<V *>(&it->second);
    }
    auto it = m->find(kk);
    return it == m->end() ? nullptr : &it.data();
  }
  bool insert(u64 k, u64 v) override {
    auto kk = KO::make(k); auto vv = val(v);
    Sut s;
    if (find(kk, v & 1)) return false;
    (*m)[kk] = std::move(vv);
    return true;
  }
  Opt upsert(u64 k, u64 v) override {
    auto kk = KO::make(k); auto vv = val(v);
    Sut s;
    Opt o;
    if (V *p = find(kk, v & 1)) o = seen(*p);
    (*m)[kk] = std::move(vv);
    return o;
  }
  Opt update(u64 k, u64 v) override {
    auto kk = KO::make(k); auto vv = val(v);
    Sut s;
    Opt o;
    if (V *p = find(kk, false)) { o = seen(*p); *p = std::move(vv); }
    return o;
  }
  Opt del(u64 k) override {
    auto kk = KO::make(k);
    Sut s;
    Opt o;
    if (k & 1) {
      auto it = m->find(kk);
      if (it == m->end()) return {};
      o = seen(it->second);
      m->erase(it);
    } else {
      if (V *p = find(kk, true)) o = seen(*p);
      bool r = m->erase(kk);
      Unsut u;
      if (r != (bool)o) fail("linearizability", "erase() and find() disagree about whether a key is present");
    }
    return o;
  }
  Opt get(u64 k) override {
    auto kk = KO::make(k);
    Sut s;
    if (V *p = find(kk, k & 2)) return seen(*p);
    return {};
  }
  i64 size() override { Sut s; return (i64)c().size(); }
  int empty() override { Sut s; return c().empty(); }
  int height() override { Sut s; return c().height(); }

  template <class It> static bool emit(It &it, Sink &k) {
    u64 kw, v;
    switch (k.form++ % 3) {
    case 0: kw = KO::back(it->first), v = dec_it(it->second); break;
    case 1: { auto &e = *it; kw = KO::back(e.first), v = dec_it(e.second); break; }
    default: kw = KO::back(it.key()), v = dec_it(it.data()); break;
    }
    Unsut u;
    return k.elem(kw, v);
  }
  template <class It, class End> static void walk(It it, const End &end, bool post, Sink &k) {
    while (it != end) {
      if (!emit(it, k)) return;
      if (post) it++; else ++it;
    }
  }
  template <class MM, class A, class B> static void bounded(MM &mm, const ScanReq &q, const A &lo, const B &hi, Sink &k) {
    Sut s;
    switch (q.kind) {
    case ScanReq::LB: walk(mm.lower_bound(lo), mm.end(), q.post, k); return;
    case ScanReq::UB: walk(mm.upper_bound(lo), mm.end(), q.post, k); return;
    default: break;
    }
    auto a = q.lk == RK_INC ? mm.lower_bound(lo) : mm.upper_bound(lo);
    auto b = q.rk == RK_INC ? mm.upper_bound(hi) : mm.lower_bound(hi);
    if (q.lo == q.hi && q.lk != RK_INC && q.rk != RK_INC) return; // b lies before a
    if (q.kind == ScanReq::RANGE) { walk(a, b, q.post, k); return; }
    if (a == b) return;
    while (true) { // backwards from the last element before b
      if (b == mm.end() && !(q.alt & 2)) {
        auto r = mm.rbegin();
        if (!emit(r, k)) return;
        b = mm.lower_bound(r->first);
      } else {
        if (q.post) b--; else --b;
        if (!emit(b, k)) return;
      }
      if (a == b) return;
    }
  }
  template <class MM> static void scan_in(MM &mm, const ScanReq &q, Sink &k) {
    if (q.kind == ScanReq::FULL_F) { Sut s; if (q.alt & 1) walk(mm.cbegin(), mm.cend(), q.post, k); else walk(mm.begin(), mm.end(), q.post, k); return; }
    if (q.kind == ScanReq::FULL_R) { Sut s; if (q.alt & 1) walk(mm.crbegin(), mm.crend(), q.post, k); else walk(mm.rbegin(), mm.rend(), q.post, k); return; }
    auto lo = KO::make(q.lo), hi = KO::make(q.hi);
    if constexpr (std::is_same_v<K, std::string>) {
      if (q.alt & 1) { // bounds of another type
        bounded(mm, q, std::string_view(lo), std::string_view(hi), k);
        return;
      }
    }
    if constexpr (KO::prefix_bits != 0) {
      if (q.partial) {
        using PK = bt::compound_key<int>;
        PK plo(std::get<0>(lo)), phi(std::get<0>(hi));
        ScanReq r = q;
        r.lk = r.rk = RK_INC; // a prefix sorts before all its extensions: both bounds agree
        bounded(mm, r, plo, phi, k);
        return;
      }
    }
    bounded(mm, q, lo, hi, k);
  }
  void scan(const ScanReq &q, Sink &k) override {
    if (q.lo & 1) scan_in(c(), q, k);
    else scan_in(*m, q, k);
  }
  static void same(bool eq) {
    if (eq) return;
    Unsut u;
    fail("scan-order", "a copied iterator, or the one a postfix step returns, is not where the original was");
  }
  template <class It> void steps(It it, const It &end, bool rev, const std::vector<u8> &moves, Sink &k) {
    auto show = [&](It &i) {
      if (i != end) return emit(i, k);
      Unsut u;
      return k.off();
    };
    int at = it == end ? 1 : 0; // 0: on an element
    if (!show(it)) return;
    for (u8 mv : moves) {
      bool back = mv & 1;
      if (mv < 4 && (at == (back ? -1 : 1) || (at && c().begin() == c().end()))) return; // no further
      switch (mv < 4 && rev ? mv ^ 1 : mv) {
      case 0: ++it; break;
      case 1: --it; break;
      case 2: { auto was = it; same(was == it++); break; }
      case 3: { auto was = it; same(was == it--); break; }
      default: {
        auto cp = it;
        same(cp == it && !(cp != it));
        if (!show(cp)) return;
        continue;
      }
      }
      at = !(it == end) ? 0 : back ? -1 : 1;
      if (!show(it)) return;
    }
  }
  void cursor(u64 lo, const std::vector<u8> &moves, Sink &k) override {
    auto kk = KO::make(lo);
    Sut s;
    // a reverse iterator made from a forward one is on the same element
    switch ((lo ^ moves.size() ^ moves[0]) & 3) {
    case 0: steps(m->lower_bound(kk), m->end(), false, moves, k); break;
    case 1: steps(c().lower_bound(kk), c().end(), false, moves, k); break;
    case 2: steps(typename Map::reverse_iterator(m->lower_bound(kk)), m->rend(), true, moves, k); break;
    default: steps(typename Map::const_reverse_iterator(c().lower_bound(kk)), c().rend(), true, moves, k); break;
    }
  }
};
// keys in descending order
struct KeyDesc {
  static i64 make(u64 k) { return (i64)(~k ^ (1ull << 63)); }
  static u64 back(const i64 &k) { return ~((u64)k ^ (1ull << 63)); }
  static constexpr u32 prefix_bits = 0;
};
// keys of which the comparison disregards a part that differs each time a key is made
struct LooseKey {
  u64 k, noise;
  // another order, not to be used
  bool operator<(const LooseKey &o) const { return noise < o.noise; }
  bool operator==(const LooseKey &o) const { return noise == o.noise; }
};
struct LooseLess {
  bool operator()(const LooseKey &a, const LooseKey &b) const { return a.k < b.k; }
};
struct KeyLoose {
  static LooseKey make(u64 k) { return LooseKey{k, mix64(++noise)}; }
  static u64 back(const LooseKey &k) { return k.k; }
  static constexpr u32 prefix_bits = 0;
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if VARIANT == 0
using T = Tr<192, 80, true, true>; using K = i64; using V = u64; static const char *N = "btree::map i64->u64 node192 debug"; static const u32 B = 64, F = 4;
#elif VARIANT == 1
using T = Tr<320, 50, false, false>; using K = i64; using V = i64; static const char *N = "btree::map i64->i64 node320"; static const u32 B = 64, F = 12;
#elif VARIANT == 2
using T = Tr<448, 80, true, true>; using K = CK; using V = i64; static const char *N = "btree::map compound->i64 node448 debug"; static const u32 B = 60, F = 12;
#elif VARIANT == 3
using T = Tr<320, 60, true, false>; using K = HKey; using V = HKey; static const char *N = "btree::map heap-key->heap-value node320 debug"; static const u32 B = 64, F = 12;
#elif VARIANT == 4
using T = Tr<448, 40, false, true>; using K = std::string; using V = u64; static const char *N = "btree::map string->u64 node448"; static const u32 B = 64, F = 8;
#elif VARIANT == 6
using T = Tr<320, 60, true, false>; using K = i64; using V = u64; static const char *N = "btree::map i64->u64 node320 debug, std::greater"; static const u32 B = 64, F = 12;
using C = std::greater<K>; using KO = KeyDesc;
#define COMPARE
#elif VARIANT == 8
using T = Tr<73728, 60, false, true>; using K = i64; using V = u64; static const char *N = "btree::map i64->u64 node73728"; static const u32 B = 64, F = 3000;
#elif VARIANT == 7
using T = Tr<448, 60, true, true>; using K = LooseKey; using V = u64; static const char *N = "btree::map own key->u64 node448 debug, own comparison"; static const u32 B = 64, F = 12;
using C = LooseLess; using KO = KeyLoose;
#define COMPARE
#else
using T = bt::btree_traits_default; using K = i64; using V = Wide; static const char *N = "btree::map i64->32-byte default traits"; static const u32 B = 64, F = 150;
#endif
#ifdef COMPARE
using M = bt::map<K, V, T, C>;
#else
using M = bt::map<K, V, T>; using KO = KeyOf<K>;
#endif
MapInfo CAT(btm_info, VARIANT) = {N, true, false, true, true, true, false, true, B, KO::prefix_bits, false, 0, F,
                                 (u32)(T::NODE_SIZE / (4 + std::min(sizeof(std::pair<K, V>), sizeof(std::pair<K, void *>))) + 1)};
IMap *CAT(btm_make, VARIANT)() { return new SeqMap<M, K, V, KO>(); }
} // namespace sim
