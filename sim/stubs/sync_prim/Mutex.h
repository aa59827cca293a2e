// Stand-in for the sync_prim submodule's mutex, owned by the simulator.
#pragma once
extern "C" {
void sim_mutex_lock(int *m);
bool sim_mutex_trylock(int *m);
void sim_mutex_unlock(int *m);
bool sim_mutex_is_locked(const int *m);
}
namespace sync_prim::mutex {
class Mutex {
  int m_word = 0;
public:
  Mutex() = default;
  Mutex(const Mutex &) = delete;
  Mutex &operator=(const Mutex &) = delete;
  void lock() { sim_mutex_lock(&m_word); }
  bool try_lock() { return sim_mutex_trylock(&m_word); }
  void unlock() { sim_mutex_unlock(&m_word); }
  bool is_locked() const { return sim_mutex_is_locked(&m_word); }
};
} // namespace sync_prim::mutex
