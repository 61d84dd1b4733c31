// One-time initialisation of function-local statics, with the baton in mind: a
// task that finds another one half way through lets it finish.
#include <cstdlib>

namespace sim {
bool in_task();
void hand_over();
}

extern "C" {
int __cxa_guard_acquire(long long* gp) {
  char* g = reinterpret_cast<char*>(gp);
  for(;;) {
    if(__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
    if(!g[1]) { g[1] = 1; return 1; }
    if(!sim::in_task()) std::abort();
    sim::hand_over();
  }
}
void __cxa_guard_release(long long* gp) {
  char* g = reinterpret_cast<char*>(gp);
  g[1] = 0;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long* gp) { reinterpret_cast<char*>(gp)[1] = 0; }
}
