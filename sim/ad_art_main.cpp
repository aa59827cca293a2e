#include "frame.h"
#include "imap.h"
namespace sim {
const char *const COMPONENT = "art";
#define D(n) extern MapInfo art_info##n; IMap *art_make##n();
D(0) D(1) D(2) D(3) D(4)
static const u32 TBL[] = {0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4};
u32 map_variants() { return sizeof TBL / sizeof *TBL; }
const MapInfo &map_info(u32 v) {
  static const MapInfo *t[] = {&art_info0, &art_info1, &art_info2, &art_info3, &art_info4};
  return *t[TBL[v]];
}
IMap *make_map(u32 v, u32) {
  static IMap *(*t[])() = {art_make0, art_make1, art_make2, art_make3, art_make4};
  return t[TBL[v]]();
}
} // namespace sim
