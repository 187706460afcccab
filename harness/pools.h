// Shared by the thread-pool monitors.
#ifndef VF_POOLS_H
#define VF_POOLS_H
#include "common.h"
#include "perturb.h"
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/threadpool/threadpool.hpp>
#include <thread>
#include <chrono>
namespace vf {
namespace tp = boost::threadpool;
inline void nap(int us){ if(us<=0) return; struct timespec t={0,us*1000L}; nanosleep(&t,0); }
inline double now(){ return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
struct Rec { std::atomic<int> starts, ends; long payload; int prio, parent; std::atomic<int> accepted; std::atomic<long> startStamp; Rec():starts(0),ends(0),payload(0),prio(0),parent(-1),accepted(0),startStamp(-1){} };
struct Log {   // what the tasks of one case did
  std::vector<Rec> r; std::atomic<int> used, running, high; std::atomic<long> stamp;
  explicit Log(int n):r(n),used(0),running(0),high(0),stamp(0){}
  int fresh(){ return used.fetch_add(1); }
  void enter(){ int c=running.fetch_add(1)+1; int h=high.load(); while(c>h && !high.compare_exchange_weak(h,c)){} }
  void leave(){ running.fetch_sub(1); }
};
// a gate tasks can be held at
struct Gate { std::atomic<bool> open; std::atomic<int> at; Gate():open(false),at(0){} void pass(){ ++at; while(!open.load()) nap(20); } bool reached(int n,double sec=20){ double t=now(); while(at.load()<n){ if(now()-t>sec) return false; nap(20); } return true; } };
template<class Pool,bool prio=std::is_base_of<tp::prio_pool,Pool>::value> struct Put { template<class F> static bool go(Pool& p,F f,int){ return p.schedule(f); } };
template<class Pool> struct Put<Pool,true> { template<class F> static bool go(Pool& p,F f,unsigned prio){ return p.schedule(tp::prio_task_func(prio,f)); } };
inline boost::xtime in_us(long us){ boost::xtime x; boost::xtime_get(&x,boost::TIME_UTC_); x.nsec+=us*1000; x.sec+=x.nsec/1000000000; x.nsec%=1000000000; return x; }
}
#endif
