#pragma once
#include "engine.h"
namespace sim {
// what the instrumented side tells the harness, without leaving the simulated
// world (no allocation, no flush)
struct EpochHooks {
  virtual ~EpochHooks() {}
  virtual void entering() = 0;             // about to call enter_epoch (outermost)
  virtual void entered() = 0;              // enter_epoch returned (outermost)
  virtual void exiting() = 0;              // about to leave the outermost section
  virtual void holds(u32 id, bool on) = 0; // has read a pointer to the object
  virtual void unlinking() = 0;            // about to unlink an object (step noted)
  virtual void unlinked(u32 id) = 0;       // it is unreachable and will be retired
  virtual void destroyed(u32 id, u32 fn) = 0;
};
struct IEpoch {
  virtual ~IEpoch() {}
  virtual void construct(u32 slots, EpochHooks *h) = 0;
  virtual void destroy_manager() = 0;
  virtual void destroy_objects() = 0; // still linked
  // enter (depth times), read slots, look at the objects for a while, leave
  virtual void read(u32 slot, u32 n, u32 depth, u32 look) = 0;
  // unlink and retire; mode bit 0: current epoch, bit 1: inside a guarded
  // section, bit 2: as one batch
  virtual void swap(u32 slot, u32 n, u32 mode, u32 first_id) = 0;
  virtual i64 do_reclaim() = 0;
  virtual void reclaim_all() = 0;
  virtual void set_threshold(int) = 0;
  virtual void switch_epoch() = 0;
};
u32 epoch_variants();
const char *epoch_name(u32 v);
IEpoch *make_epoch(u32 v);
} // namespace sim
