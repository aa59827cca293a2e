// art::map (single-threaded) under the simulator; one translation unit per variant.
#include "imap.h"
#include "stdinc.h"
#include "indexes/art/map.h"

namespace sim {
namespace at = indexes::art;
template <class Map, class V> struct ArtSeq : IMap {
  Map *m = nullptr;
  void construct(u32) override { m = new Map(); }
  void destroy() override { delete m; m = nullptr; }
  void move_construct() override {
    Map *n = new Map(std::move(*m));
    delete m;
    m = n;
  }
  static V val(u64 v) { V x{}; enc(v, x); return x; }
  static Opt ret(std::optional<V> &&o) { if (!o) return {}; return dec(*o); }
  bool insert(u64 k, u64 v) override { auto vv = val(v); Sut s; return m->Insert(k, vv); }
  Opt upsert(u64 k, u64 v) override { auto vv = val(v); Sut s; return ret(m->Upsert(k, vv)); }
  Opt update(u64 k, u64 v) override { auto vv = val(v); Sut s; return ret(m->Update(k, vv)); }
  Opt del(u64 k) override { Sut s; return ret(m->Delete(k)); }
  Opt get(u64 k) override { Sut s; return ret(m->Search(k)); }
  i64 size() override { Sut s; return (i64)m->size(); }
};
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#if VARIANT == 0
using V = u64; using T = at::art_traits_default; static const char *N = "art::map u64";
#elif VARIANT == 1
using V = i64; using T = at::art_traits_debug; static const char *N = "art::map i64, debug";
#elif VARIANT == 2
using V = Wide; using T = at::art_traits_debug; static const char *N = "art::map 32-byte value, debug";
#else
using V = HKey; using T = at::art_traits_default; static const char *N = "art::map heap value";
#endif
using M = at::map<V, T>;
static constexpr bool WORD = std::is_trivially_copyable_v<V> && sizeof(V) <= 8;
MapInfo CAT(arm_info, VARIANT) = {N, false, false, true, false, false, true, WORD, 64, 0, WORD, 0, 0};
IMap *CAT(arm_make, VARIANT)() { return new ArtSeq<M, V>(); }
} // namespace sim
