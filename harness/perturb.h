// Schedule perturbation: the link wraps the pthread calls made by the harness,
// the library and the boost headers (-Wl,--wrap) so that random yields and sleeps
// land on every lock, unlock, wait and wake-up.
#ifndef VF_PERTURB_H
#define VF_PERTURB_H
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdint>
namespace vf {
struct Perturb { std::atomic<int> level; std::atomic<uint64_t> seed, points, delays, spurious; };
inline Perturb& pt(){ static Perturb p; return p; }
inline void perturb(){
  Perturb& p=pt(); int lv=p.level.load(std::memory_order_relaxed); if(lv==0) return;
  static thread_local uint64_t s=0; if(s==0) s=(p.seed.fetch_add(0x9E3779B97F4A7C15ull,std::memory_order_relaxed)|1);
  s^=s<<13; s^=s>>7; s^=s<<17; p.points.fetch_add(1,std::memory_order_relaxed);
  unsigned r=(unsigned)(s>>20)&1023; unsigned a= lv==1?64:lv==2?256:400, b= lv==1?6:lv==2?24:60;
  if(r<b){ p.delays.fetch_add(1,std::memory_order_relaxed); struct timespec t={0,(long)(1000*(1+((s>>40)%(lv==3?400:120))))}; nanosleep(&t,0); }
  else if(r<a){ p.delays.fetch_add(1,std::memory_order_relaxed); sched_yield(); }
}
inline bool spurious(){
  Perturb& p=pt(); int lv=p.level.load(std::memory_order_relaxed); if(lv==0) return false;
  static thread_local uint64_t s=0; if(s==0) s=(p.seed.fetch_add(0x9E3779B97F4A7C15ull,std::memory_order_relaxed)|1);
  s^=s<<13; s^=s>>7; s^=s<<17; if(((s>>20)&127)>=(unsigned)(lv*8)) return false; p.spurious.fetch_add(1,std::memory_order_relaxed); return true;
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*,pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ vf::perturb(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ int r=__real_pthread_mutex_unlock(m); vf::perturb(); return r; }
// POSIX lets a wait return without a wake-up: sometimes it does here
int __wrap_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(vf::spurious()){ __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; } return __real_pthread_cond_wait(c,m); }
int __real_pthread_cond_timedwait(pthread_cond_t*,pthread_mutex_t*,const struct timespec*); int __real_pthread_cond_clockwait(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ if(vf::spurious()){ __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; } return __real_pthread_cond_timedwait(c,m,t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ if(vf::spurious()){ __real_pthread_mutex_unlock(m); sched_yield(); __real_pthread_mutex_lock(m); return 0; } return __real_pthread_cond_clockwait(c,m,k,t); }
int __wrap_pthread_cond_signal(pthread_cond_t* c){ vf::perturb(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c){ vf::perturb(); return __real_pthread_cond_broadcast(c); }
}
#endif
