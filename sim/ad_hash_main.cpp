#include "frame.h"
#include "imap.h"
namespace sim {
const char *const COMPONENT = "hash";
u32 hash_mode;
#define V(n) extern MapInfo ht_info##n; IMap *ht_make##n();
V(0) V(1) V(2) V(3) V(4) V(5) V(6) V(7)
static const u32 TBL[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7};
u32 map_variants() { return sizeof TBL / sizeof *TBL; }
const MapInfo &map_info(u32 v) {
  static MapInfo *t[] = {&ht_info0, &ht_info1, &ht_info2, &ht_info3, &ht_info4, &ht_info5, &ht_info6, &ht_info7};
  return *t[TBL[v]];
}
IMap *make_map(u32 v, u32 hm) {
  static IMap *(*t[])() = {ht_make0, ht_make1, ht_make2, ht_make3, ht_make4, ht_make5, ht_make6, ht_make7};
  hash_mode = hm;
  return t[TBL[v]]();
}
} // namespace sim
