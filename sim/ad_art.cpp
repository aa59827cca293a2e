// art::concurrent_map under the simulator; one translation unit per variant.
#if VARIANT == 4
#include "stubs/wide_registry.h"
#endif
#include "imap.h"
#include "stdinc.h"
#include "indexes/art/concurrent_map.h"

namespace sim {
namespace at = indexes::art;
template <class Map, class V> struct ArtMap : IMap {
  Map *m = nullptr;
  void construct(u32) override { m = new Map(); }
  void destroy() override { delete m; m = nullptr; }
  void move_construct() override {
    Map *n = new Map(std::move(*m));
    delete m;
    m = n;
  }
  static V val(u64 v) { V x{}; enc(v, x); return x; }
  static Opt ret(std::optional<V> &&o) { if (!o) return {}; return dec(*o); }
  bool insert(u64 k, u64 v) override { auto vv = val(v); Sut s; return m->Insert(k, vv); }
  Opt upsert(u64 k, u64 v) override { auto vv = val(v); Sut s; return ret(m->Upsert(k, vv)); }
  Opt update(u64 k, u64 v) override { auto vv = val(v); Sut s; return ret(m->Update(k, vv)); }
  Opt del(u64 k) override { Sut s; return ret(m->Delete(k)); }
  Opt get(u64 k) override { Sut s; return ret(m->Search(k)); }
  void reserve(u32 n) override { Sut s; m->reserve(n); }
  void reclaim() override { Sut s; m->reclaim_all(); }
  i64 size() override { Sut s; return (i64)m->size(); }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if VARIANT == 0
using V = u64; using T = at::art_traits_default; static const char *N = "art u64";
#elif VARIANT == 1
using V = i64; using T = at::art_traits_debug; static const char *N = "art i64, debug";
#elif VARIANT == 2
using V = Wide; using T = at::art_traits_debug; static const char *N = "art 32-byte value, debug";
#elif VARIANT == 4
using V = u64; using T = at::art_traits_debug; static const char *N = "art u64, debug, 130 threads";
#define IDS 130
#else
using V = HKey; using T = at::art_traits_default; static const char *N = "art heap value";
#endif
using M = at::concurrent_map<V, T>;
static constexpr bool WORD = std::is_trivially_copyable_v<V> && sizeof(V) <= 8;
#ifndef IDS
#define IDS 0
#endif
MapInfo CAT(art_info, VARIANT) = {N, false, true, true, false, false, true, WORD, 64, 0, WORD, 0, 0, 0, IDS};
IMap *CAT(art_make, VARIANT)() { return new ArtMap<M, V>(); }
} // namespace sim
