#include "frame.h"
#include "imap.h"
namespace sim {
const char *const COMPONENT = "artmap";
#define D(n) extern MapInfo arm_info##n; IMap *arm_make##n();
D(0) D(1) D(2) D(3)
u32 map_variants() { return 4; }
const MapInfo &map_info(u32 v) {
  static const MapInfo *t[] = {&arm_info0, &arm_info1, &arm_info2, &arm_info3};
  return *t[v % 4];
}
IMap *make_map(u32 v, u32) {
  static IMap *(*t[])() = {arm_make0, arm_make1, arm_make2, arm_make3};
  return t[v % 4]();
}
} // namespace sim
