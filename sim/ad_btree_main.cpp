#include "frame.h"
#include "imap.h"
namespace sim {
const char *const COMPONENT = "btree";
#define V(n) extern MapInfo bt_info##n; IMap *bt_make##n();
V(0) V(1) V(2) V(3) V(4) V(5) V(6) V(7) V(8) V(9) V(10)
// weighted: the 8K default node is rarely interesting
static const u32 TBL[] = {0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10};
u32 map_variants() { return sizeof TBL / sizeof *TBL; }
const MapInfo &map_info(u32 v) {
  static MapInfo *t[] = {&bt_info0, &bt_info1, &bt_info2, &bt_info3, &bt_info4, &bt_info5, &bt_info6, &bt_info7, &bt_info8, &bt_info9, &bt_info10};
  return *t[TBL[v]];
}
IMap *make_map(u32 v, u32) {
  static IMap *(*t[])() = {bt_make0, bt_make1, bt_make2, bt_make3, bt_make4, bt_make5, bt_make6, bt_make7, bt_make8, bt_make9, bt_make10};
  return t[TBL[v]]();
}
} // namespace sim
