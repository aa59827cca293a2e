// hashtable::concurrent_map under the simulator; one translation unit per variant.
#if VARIANT == 7
#include "stubs/wide_registry.h"
#endif
#include "imap.h"
#include "stdinc.h"
#include "indexes/hashtable/concurrent_map.h"

namespace sim {
extern u32 hash_mode;
namespace ht = indexes::hashtable;
template <int L, bool D> struct HTr : ht::hashtable_traits_default {
  static constexpr bool DEBUG = D;
  static constexpr uint8_t LINEAR_SEARCH_LIMIT = L;
};
template <class K> struct KeyOf {
  static K make(u64 k) { return (K)k; }
  static u64 back(const K &k) { return (u64)k; }
};
template <> struct KeyOf<HKey> {
  static HKey make(u64 k) { return HKey(k); }
  static u64 back(const HKey &k) { return k.get(); }
};
template <> struct KeyOf<std::string> { // big-endian bytes, then a tail of varying length; without it and trailing zeros if there are any
  static std::string make(u64 k) {
    std::string s;
    for (int i = 7; i >= 0; i--) s.push_back((char)(k >> (8 * i)));
    if (k & 0xFF)
      s.append(8 + k % 11, 'x');
    else
      while (!s.empty() && !s.back()) s.pop_back(); // keys that are prefixes of others, also the empty one
    return s;
  }
  static u64 back(const std::string &s) {
    u64 k = 0;
    for (size_t i = 0; i < 8; i++) k = k << 8 | (i < s.size() ? (unsigned char)s[i] : 0);
    return k;
  }
};
template <class K> struct SimHash {
  size_t operator()(const K &key) const {
    u64 k = KeyOf<K>::back(key);
    switch (hash_mode) {
    case 0: return k;
    case 1: return mix64(k);
    case 2: return 5;
    case 3: return k & 3;
    case 4: return ~0ull - (k & 1); // the two reserved values
    case 5: return k & 1 ? ~0ull : mix64(k) & 7;
    case 6: return k << 3;
    default: return mix64(k) % 11;
    }
  }
};
template <class Map, class K, class V> struct HtMap : IMap {
  using KO = KeyOf<K>;
  Map *m = nullptr;
  void construct(u32 arg) override { m = arg ? new Map(arg) : new Map(); }
  void destroy() override { delete m; m = nullptr; }
  void move_construct() override {
    Map *n = new Map(std::move(*m));
    delete m;
    m = n;
  }
  static V val(u64 v) { V x{}; enc(v, x); return x; }
  static Opt ret(std::optional<V> &&o) { if (!o) return {}; return dec(*o); }
  bool insert(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return m->Insert(kk, vv); }
  Opt upsert(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return ret(m->Upsert(kk, vv)); }
  Opt update(u64 k, u64 v) override { auto kk = KO::make(k); auto vv = val(v); Sut s; return ret(m->Update(kk, vv)); }
  Opt del(u64 k) override { auto kk = KO::make(k); Sut s; return ret(m->Delete(kk)); }
  Opt get(u64 k) override { auto kk = KO::make(k); Sut s; return ret(m->Search(kk)); }
  void reserve(u32 n) override { Sut s; m->reserve(n); }
  void reclaim() override { Sut s; m->reclaim_all(); }
  i64 size() override { Sut s; return (i64)m->size(); }
  int empty() override { Sut s; return m->empty(); }
  int load() override { Sut s; return m->load_factor(); }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if VARIANT == 0
using K = u64; using V = u64; using M = ht::concurrent_map<K, V, SimHash<K>>; static const u32 PROBE = 255; static const char *N = "hashtable u64->u64";
#elif VARIANT == 1
using K = i64; using V = u64; using M = ht::concurrent_map<K, V, SimHash<K>, HTr<3, true>>; static const u32 PROBE = 3; static const char *N = "hashtable i64->u64 probe limit 3, debug";
#elif VARIANT == 2
using K = HKey; using V = u64; using M = ht::concurrent_map<K, V, SimHash<K>, HTr<7, true>>; static const u32 PROBE = 7; static const char *N = "hashtable heap-key->u64 probe limit 7, debug";
#elif VARIANT == 3
using K = std::string; using V = u64; using M = ht::concurrent_map<K, V, SimHash<K>>; static const u32 PROBE = 255; static const char *N = "hashtable string->u64";
#elif VARIANT == 4
using K = u64; using V = Wide; using M = ht::concurrent_map<K, V, SimHash<K>, HTr<20, true>>; static const u32 PROBE = 20; static const char *N = "hashtable u64->32-byte probe limit 20, debug";
#elif VARIANT == 6
struct LongTr : ht::hashtable_traits_default {
  using LinkType = uint16_t;
  static constexpr LinkType LINEAR_SEARCH_LIMIT = 600;
};
using K = u64; using V = i64; using M = ht::concurrent_map<K, V, SimHash<K>, LongTr>; static const u32 PROBE = 600; static const char *N = "hashtable u64->i64 16-bit links, probe limit 600";
#elif VARIANT == 7
using K = u64; using V = u64; using M = ht::concurrent_map<K, V, SimHash<K>, HTr<5, true>>; static const u32 PROBE = 5; static const char *N = "hashtable u64->u64 probe limit 5, debug, 130 threads";
#define IDS 130
#else
using K = u64; using V = HKey; using M = ht::concurrent_map<K, V, SimHash<K>>; static const u32 PROBE = 255; static const char *N = "hashtable u64->heap value";
#endif
static constexpr bool WORD = std::is_trivially_copyable_v<V> && sizeof(V) <= 8;
#ifndef IDS
#define IDS 0
#endif
MapInfo CAT(ht_info, VARIANT) = {N, false, true, true, true, false, true, WORD, 64, 0, WORD, PROBE, 0, 0, IDS};
IMap *CAT(ht_make, VARIANT)() { return new HtMap<M, K, V>(); }
} // namespace sim
