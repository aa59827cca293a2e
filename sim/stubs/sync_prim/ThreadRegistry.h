// Stand-in for the sync_prim submodule's thread registry, owned by the simulator.
#pragma once
#include "../../engine.h"
#ifndef SIM_REGISTRY
#define SIM_REGISTRY sim::MAX_THREADS
#endif
namespace sync_prim {
struct ThreadRegistry {
  static constexpr int MAX_THREADS = SIM_REGISTRY;
  static bool RegisterThread() { sim::register_thread(); return true; }
  static void UnregisterThread() { sim::unregister_thread(); }
  static int ThreadID() { return (int)sim::thread_id(); }
  static int MaxThreadID() { return (int)sim::max_thread_id(); }
};
} // namespace sync_prim
