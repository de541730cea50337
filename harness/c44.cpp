#include "vf.h"
#include <hsmcpp/os/UniqueLock.hpp>
#include <hsmcpp/os/LockGuard.hpp>
#include <hsmcpp/os/Mutex.hpp>
#include <hsmcpp/os/CriticalSection.hpp>
#include <hsmcpp/os/posix/InterruptsFreeSection.hpp>
#include <utility>
using namespace hsmcpp;
// Sequences of lock operations next to a model of who owns what.
static Mutex* mx[2]; static UniqueLock* l[3]; static int at[3]; static bool own[3];   // -1: no mutex
static int owner(int m) { for (int i = 0; i < 3; i++) if (own[i] && at[i] == m) return i; return -1; }
static bool held[2];   // by hand (after release)
static void check() {
  for (int i = 0; i < 3; i++) { vf_assert(l[i]->owns_lock() == own[i] && static_cast<bool>(*l[i]) == own[i], "owns_lock"); vf_assert(l[i]->mutex() == (at[i] < 0 ? nullptr : mx[at[i]]), "mutex"); }
  for (int m = 0; m < 2; m++) vf_assert(vf_mutex_locked(&mx[m]->nativeHandle()) == (owner(m) >= 0 || held[m]), "mutex is locked exactly while a lock owns it");
}
static bool blocked(int sig) { sigset_t s; pthread_sigmask(SIG_BLOCK, nullptr, &s); return sigismember(&s, sig); }
extern "C" void harness() {
  Mutex a, b; mx[0] = &a; mx[1] = &b; held[0] = held[1] = false; for (int i = 0; i < 3; i++) { l[i] = new UniqueLock(); at[i] = -1; own[i] = false; }
  check(); int ops = vf_param("ops", 4);
  for (int n = 0; n < ops; n++) {
    int op = vf_pick("op", 0, 7), i = vf_pick("lock", 0, 2), j = op == 1 || op == 2 ? vf_pick("other", 0, 2) : 0, m = op == 0 || op == 7 ? vf_pick("mutex", 0, 1) : 0;
    switch (op) {
      case 0: vf_assume(owner(m) < 0 && !held[m]); { UniqueLock t(*mx[m]); *l[i] = std::move(t); vf_assert(!t.owns_lock() && t.mutex() == nullptr, "moved-from lock owns nothing"); } own[i] = true; at[i] = m; vf_reach("constructed"); break;
      case 1: vf_assume(i != j); *l[i] = std::move(*l[j]); at[i] = at[j]; own[i] = own[j]; at[j] = -1; own[j] = false; vf_reach("assigned"); break;
      case 2: { vf_assume(i != j); UniqueLock* t = new UniqueLock(std::move(*l[j])); delete l[i]; l[i] = t; at[i] = at[j]; own[i] = own[j]; at[j] = -1; own[j] = false; break; }
      case 3: vf_assume(at[i] < 0 || own[i] || (owner(at[i]) < 0 && !held[at[i]])); l[i]->lock(); if (at[i] >= 0) own[i] = true; break;
      case 4: l[i]->unlock(); own[i] = false; break;
      case 5: { Mutex* r = l[i]->release(); vf_assert(r == (at[i] < 0 ? nullptr : mx[at[i]]), "released mutex"); if (own[i]) { held[at[i]] = true; vf_reach("released"); } at[i] = -1; own[i] = false; break; }
      case 6: delete l[i]; l[i] = new UniqueLock(); at[i] = -1; own[i] = false; break;
      default: if (held[m]) { mx[m]->unlock(); held[m] = false; } else { vf_assume(owner(m) < 0); bool crit = vf_bool("critical"), user = vf_bool("blocked"); if (user) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); pthread_sigmask(SIG_BLOCK, &s, nullptr); }
          bool b1 = blocked(SIGUSR1), b2 = blocked(SIGTERM);
          if (!crit) { LockGuard g(*mx[m]); vf_assert(vf_mutex_locked(&mx[m]->nativeHandle()), "guard holds the mutex"); vf_assert(blocked(SIGUSR1) == b1 && blocked(SIGTERM) == b2, "guard leaves signals alone"); }
          else { CriticalSection c(*mx[m]); vf_assert(vf_mutex_locked(&mx[m]->nativeHandle()) && blocked(SIGUSR1) && blocked(SIGTERM), "critical section holds the mutex and blocks signals"); if (owner(1 - m) < 0 && !held[1 - m]) { { CriticalSection d(*mx[1 - m]); vf_assert(blocked(SIGTERM), "nested"); } vf_assert(blocked(SIGUSR1) && blocked(SIGTERM), "inner section restores the state of the outer one"); vf_assert(!vf_mutex_locked(&mx[1 - m]->nativeHandle()), "inner section releases"); vf_reach("nested"); } }
          vf_assert(blocked(SIGUSR1) == b1 && blocked(SIGTERM) == b2, "previous signal state is restored"); vf_reach("guard"); }
    }
    check();
  }
  for (int i = 0; i < 3; i++) { if (own[i]) { delete l[i]; vf_assert(!vf_mutex_locked(&mx[at[i]]->nativeHandle()), "destroyed lock leaves its mutex free"); } else delete l[i]; }
  vf_reach("end");
}
