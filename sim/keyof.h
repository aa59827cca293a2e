// Key types and node sizes shared by the B-tree adapters.
#pragma once
#include "imap.h"
#include "stdinc.h"
#include "indexes/btree/common.h"
#include "indexes/btree/key.h"

namespace sim {
namespace bt = indexes::btree;
template <int N, int M, bool D, bool S> struct Tr : bt::btree_traits_default {
  static constexpr int NODE_SIZE = N;
  static constexpr int NODE_MERGE_THRESHOLD = M;
  static constexpr bool DEBUG = D;
  static constexpr bool STAT = S;
};
using CK = bt::compound_key<int, int, int>;
template <class K> struct KeyOf;
template <> struct KeyOf<i64> {
  static i64 make(u64 k) { return (i64)(k ^ (1ull << 63)); }
  static u64 back(const i64 &k) { return (u64)k ^ (1ull << 63); }
  static constexpr u32 prefix_bits = 0;
};
template <> struct KeyOf<u64> {
  static u64 make(u64 k) { return k; }
  static u64 back(const u64 &k) { return k; }
  static constexpr u32 prefix_bits = 0;
};
template <> struct KeyOf<CK> { // 20 bits per part
  static CK make(u64 k) { return CK((int)(k >> 40) - 0x80000, (int)(k >> 20 & 0xFFFFF) - 0x80000, (int)(k & 0xFFFFF) - 0x80000); }
  static u64 back(const CK &k) {
    return (u64)(std::get<0>(k) + 0x80000) << 40 | (u64)(std::get<1>(k) + 0x80000) << 20 | (u64)(std::get<2>(k) + 0x80000);
  }
  static constexpr u32 prefix_bits = 40;
};
using CKG = bt::compound_key_greater<i64, i64>; // 32 bits per part, descending
template <> struct KeyOf<CKG> {
  static CKG make(u64 k) { return CKG(-(i64)(k >> 32), -(i64)(k & 0xFFFFFFFF)); }
  static u64 back(const CKG &k) { return (u64)-std::get<0>(k) << 32 | (u64)-std::get<1>(k); }
  static constexpr u32 prefix_bits = 0;
};
template <> struct KeyOf<HKey> {
  static HKey make(u64 k) { return HKey(k); }
  static u64 back(const HKey &k) { return k.get(); }
  static constexpr u32 prefix_bits = 0;
};
template <> struct KeyOf<std::string> { // big-endian bytes, then a tail of varying length; without it and trailing zeros if there are any
  static std::string make(u64 k) {
    std::string s;
    for (int i = 7; i >= 0; i--) s.push_back((char)(k >> (8 * i)));
    if (k & 0xFF)
      s.append(8 + k % 11, 'x');
    else
      while (!s.empty() && !s.back()) s.pop_back(); // keys that are prefixes of others, also the empty one
    return s;
  }
  static u64 back(const std::string &s) {
    u64 k = 0;
    for (size_t i = 0; i < 8; i++) k = k << 8 | (i < s.size() ? (unsigned char)s[i] : 0);
    return k;
  }
  static constexpr u32 prefix_bits = 0;
};
} // namespace sim
