// What the map driver needs from a map under test.  Keys travel as u64 ("key
// words") whose numeric order is the order the real keys sort in; values travel
// as u64 and every written value is unique.
#pragma once
#include "engine.h"
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim {
using Opt = std::optional<u64>;

enum RangeKind : u8 { RK_INC, RK_EXC };
struct ScanReq {
  enum Kind : u8 { FULL_F, FULL_R, LB, UB, RANGE, RRANGE } kind = FULL_F;
  u64 lo = 0, hi = 0;
  u8 lk = RK_INC, rk = RK_INC;
  bool partial = false; // compound keys: lo/hi name a key prefix
  u32 limit = 0;        // stop after this many elements (0: none)
  bool post = false;    // use it++ instead of ++it
  u8 alt = 0;           // picks between equivalent calls
};
struct Sink { // receives scanned elements; return false to stop
  virtual bool elem(u64 k, u64 v) = 0;
  virtual bool off() = 0; // a cursor went past the first or last element
  u32 form = 0; // how the adapter reads the next element
};

struct MapInfo {
  const char *name;
  bool ordered, concurrent, has_size, has_empty, has_height, has_reserve, word_value;
  u32 key_max_bits;  // usable width of a key word
  u32 prefix_bits;   // >0: partial-key lookups group keys by kw >> prefix_bits
  bool free_lookup;  // lookups never wait for other threads
  u32 probe;         // >0: hash table that gives up probing after this many buckets
  u32 fanout;        // rough number of entries per leaf, 0: n/a
  u32 cap;           // no node holds more entries than this, 0: n/a
  u32 ids = 0;       // room in the thread registry, 0: default
};

struct IMap {
  virtual ~IMap() {}
  virtual void construct(u32 arg) = 0;
  virtual void destroy() = 0;
  virtual bool insert(u64 k, u64 v) = 0;
  virtual Opt upsert(u64 k, u64 v) = 0;
  virtual Opt update(u64 k, u64 v) = 0;
  virtual Opt del(u64 k) = 0;
  virtual Opt get(u64 k) = 0;
  virtual void reserve(u32) {}
  virtual void reclaim() {}
  virtual i64 size() { return -1; }
  virtual int empty() { return -1; }
  virtual int height() { return -1; }
  virtual int load() { return -1; }
  virtual void move_construct() {} // replace the map by one move-constructed from it
  virtual void scan(const ScanReq &, Sink &) {}
  // position at lower_bound(lo), then one step per move (0: ++, 1: --, 2: ++
  // postfix, 3: -- postfix, 4: copy the iterator); the sink gets each element
  // reached; a step to the end is reported by off(), and the walk goes on from there
  // if the next step leads back and the map supports that, else it stops
  virtual void cursor(u64, const std::vector<u8> &, Sink &) {}
};

u32 map_variants();
const MapInfo &map_info(u32 variant);
IMap *make_map(u32 variant, u32 hash_mode);
const char *component_name();

// a 32-byte value whose halves must agree
struct Wide {
  u64 a, b, c, d;
  static Wide make(u64 v) { return {v, v ^ 0x5555555555555555ull, ~v, v * 0x9E3779B97F4A7C15ull}; }
  bool whole() const { return b == (a ^ 0x5555555555555555ull) && c == ~a && d == a * 0x9E3779B97F4A7C15ull; }
  u64 get() const {
    if (b != (a ^ 0x5555555555555555ull) || c != ~a || d != a * 0x9E3779B97F4A7C15ull)
      fail("torn-value", "a read returned a value that was never written (halves of two values)");
    return a;
  }
};
inline void enc(u64 v, u64 &o) { o = v; }
inline void enc(u64 v, i64 &o) { o = (i64)v; }
inline void enc(u64 v, int &o) { o = (int)v; }
inline void enc(u64 v, Wide &o) { o = Wide::make(v); }
inline u64 dec(u64 v) { return v; }
inline u64 dec(i64 v) { return (u64)v; }
inline u64 dec(int v) { return (u64)(unsigned)v; }
inline u64 dec(const Wide &v) { return v.get(); }
// what an iterator shows: the checker decides whether a torn value is excusable
constexpr u64 TORN = ~0ull;
constexpr u64 OFF = ~1ull; // not an element: a cursor went past the first or last one
template <class V> u64 dec_it(const V &v) { return dec(v); }
inline u64 dec_it(const Wide &v) {
  Wide w{v.a, v.b, v.c, v.d};
  return w.whole() ? w.a : TORN;
}

// a key (or value) that owns heap memory
struct HKey {
  u64 *p;
  HKey(u64 v = 0) : p(new u64[2]{v, ~v}) {}
  HKey(const HKey &o) : p(new u64[2]{o.p[0], o.p[1]}) {}
  HKey(HKey &&o) : p(o.p) { o.p = nullptr; }
  HKey &operator=(const HKey &o) {
    if (this != &o) {
      u64 *n = new u64[2]{o.p[0], o.p[1]};
      delete[] p;
      p = n;
    }
    return *this;
  }
  HKey &operator=(HKey &&o) {
    if (this != &o) { delete[] p; p = o.p; o.p = nullptr; }
    return *this;
  }
  ~HKey() { delete[] p; p = nullptr; }
  u64 get() const { return p[0]; }
  friend bool operator<(const HKey &x, const HKey &y) { return x.p[0] < y.p[0]; }
  friend bool operator==(const HKey &x, const HKey &y) { return x.p[0] == y.p[0]; }
  friend bool operator!=(const HKey &x, const HKey &y) { return !(x == y); }
};
inline void enc(u64 v, HKey &o) { o = HKey(v); }
inline u64 dec(const HKey &v) {
  if (v.p[1] != ~v.p[0]) fail("torn-value", "a value object returned by the map is corrupt");
  return v.p[0];
}
} // namespace sim
