#include "frame.h"
#include "imap.h"
namespace sim {
const char *const COMPONENT = "btmap";
#define V(n) extern MapInfo btm_info##n; IMap *btm_make##n();
V(0) V(1) V(2) V(3) V(4) V(5) V(6) V(7) V(8)
static const u32 TBL[] = {0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8};
u32 map_variants() { return sizeof TBL / sizeof *TBL; }
const MapInfo &map_info(u32 v) {
  static MapInfo *t[] = {&btm_info0, &btm_info1, &btm_info2, &btm_info3, &btm_info4, &btm_info5, &btm_info6, &btm_info7, &btm_info8};
  return *t[TBL[v]];
}
IMap *make_map(u32 v, u32) {
  static IMap *(*t[])() = {btm_make0, btm_make1, btm_make2, btm_make3, btm_make4, btm_make5, btm_make6, btm_make7, btm_make8};
  return t[TBL[v]]();
}
} // namespace sim
