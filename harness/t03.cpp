// T03: resizing never strands tasks; limits are respected and reported.
#include "pools.h"
#include <spatialops/SpatialOpsTools.h>
using namespace vf;
using namespace SpatialOps;
struct Model { int cap, lim; int eff() const { return std::min(cap,lim); } };
struct Shared { std::atomic<long> done; std::atomic<int> running, high; Shared():done(0),running(0),high(0){}
  void task(int us){ int c=running.fetch_add(1)+1; int h=high.load(); while(c>h && !high.compare_exchange_weak(h,c)){} nap(us); running.fetch_sub(1); done.fetch_add(1); } };
// the pool wrapped as: capacity, limit, and what it reports
template<class Pool> struct Lib { static Pool& get(){ return Pool::self(); } static int setcap(int n){ return Pool::set_pool_capacity(n); } static int setlim(int n){ return Pool::resize_pool(n); } static int cap(){ return Pool::get_pool_capacity(); } static int lim(){ return Pool::get_pool_size(); } };
template<class Pool> struct Raw { Pool p; Raw(int n):p(n){} Pool& get(){ return p; } int setcap(int n){ p.size_controller().resize(n); return n; } int setlim(int n){ p.size_controller().resize_active(n); return n; } int cap(){ return p.size(); } int lim(){ return p.max_active(); } };
struct Tools { static ThreadPoolFIFO& get(){ return ThreadPoolFIFO::self(); } static int setcap(int n){ return set_hard_thread_count(n); } static int setlim(int n){ return set_soft_thread_count(n); } static int cap(){ return get_hard_thread_count(); } static int lim(){ return get_soft_thread_count(); } };
template<class A> bool settled(A& a,int cap,double sec=10){ double t=now(); while(a.cap()!=cap){ if(now()-t>sec) return false; nap(50); } return true; }
template<class A> void history(Case& c,const char* nm,A& a,Model m,bool lowok){
  Rng& r=c.r; pt().level=r.range(0,3); std::string h=fmt("%s cap %d limit %d:",nm,m.cap,m.lim); int ops=r.range(4,14); Shared s; long put=0; int top=m.eff(); typedef typename std::remove_reference<decltype(a.get())>::type P;
  auto submit=[&](int n,int us){ for(int i=0;i<n;++i){ int u=us?r.range(0,us):0; Put<P>::go(a.get(),boost::function0<void>([&s,u]{ s.task(u); }),r.range(0,3)); ++put; } };
  auto idle=[&](const char* when){ a.get().wait(); if(s.done.load()!=put) viol("wait:incomplete",h+fmt(" %s: wait() returned with %ld of %ld tasks done",when,s.done.load(),put)); if(s.high.load()>top) viol("limit:exceeded",h+fmt(" %s: %d tasks ran at once, at most %d allowed since last idle",when,s.high.load(),top)); s.high=0;
    // workers beyond a lowered capacity may still be on their way out and take tasks until they are gone
    int w=a.cap(); top= w<=m.cap ? m.eff() : std::min(m.lim,w); };
  for(int o=0;o<ops;++o){
    double z=r.unit(); 
    if(z<.35){ int n=r.range(1,25),us=r.chance(.6)?r.range(1,200):0; h+=fmt(" +%d",n); submit(n,us); count("batches"); }
    else if(z<.60){ int n= r.chance(0.03)? r.range(20,60) : r.range(lowok?-1:1,8); h+=fmt(" cap=%d",n); int want=std::max(1,n); int got=a.setcap(n); m.cap=want; if(lowok && got!=want) viol("capacity:returned",h+fmt(" set call returned %d, expected %d",got,want)); top=std::max(top,m.eff()); count("capacity-changes"); }
    else if(z<.85){ int n= r.chance(0.03)? r.range(20,80) : r.range(lowok?-1:1,10); h+=fmt(" lim=%d",n); a.setlim(n); m.lim=std::min(std::max(1,n),m.cap); top=std::max(top,m.eff()); int got=a.lim(); if(got!=m.lim) viol("limit:reported",h+fmt(" reported limit %d, expected %d",got,m.lim)); count("limit-changes"); }
    else if(z<.93){ idle("mid"); h+=" wait"; }
    else nap(r.range(1,400));
    c.note(h);
  }
  if(!settled(a,m.cap)){ viol("capacity:not-settled",h+fmt(" worker count is %d, capacity was set to %d",a.cap(),m.cap)); }
  nap(300); if(a.cap()!=m.cap) viol("capacity:left",h+fmt(" worker count went to %d after reaching %d",a.cap(),m.cap));
  idle("end");
  int lim=a.lim(); if(lim!=m.lim && lim!=m.eff()) viol("limit:reported",h+fmt(" reported limit %d, expected %d",lim,m.eff()));
  // settled: exactly eff() tasks must be able to run together, and never more
  int E=m.eff(); std::atomic<int> in(0); std::atomic<bool> go(false); std::atomic<int> hi(0); std::atomic<long> fin(0);
  int K=E+r.range(0,6); for(int i=0;i<K;++i) Put<P>::go(a.get(),boost::function0<void>([&]{ int q=in.fetch_add(1)+1; int x=hi.load(); while(q>x && !hi.compare_exchange_weak(x,q)){} while(!go.load()) nap(20); in.fetch_sub(1); fin.fetch_add(1); }),1);
  double t=now(); while(in.load()<E && now()-t<10) nap(50); if(in.load()<E) viol("limit:not-reached",h+fmt(" only %d tasks run at once, capacity %d and limit %d",in.load(),m.cap,m.lim));
  nap(200);
  // raising the limit while all slots are taken must let more of the queued tasks run
  if(r.chance(.4) && E<m.cap && K>E){ int n=r.range(E+1,m.cap); a.setlim(n); m.lim=n; int E2=std::min(K,n); h+=fmt(" raise=%d",n); t=now(); while(in.load()<E2 && now()-t<10) nap(50); if(in.load()<E2) viol("limit:raise-ignored",h+fmt(" %d tasks run, %d should",in.load(),E2)); count("raises"); E=n; }
  if(hi.load()>E) viol("limit:exceeded",h+fmt(" %d tasks ran at once, limit %d",hi.load(),E));
  go=true; a.get().wait(); if(fin.load()!=K) viol("wait:incomplete",h+fmt(" %ld of %d tasks done",fin.load(),K));
  c.note(h); c.add(hstr(h.c_str())); count("tasks",put+K); count("rendezvous",E); pt().level=0;
}
static Model libm={NTHREADS,NTHREADS};
template<class A> void lib(Case& c,const char* nm){ A a; a.get().wait(); int cap=c.r.range(1,8); a.setcap(cap); settled(a,cap); int lim=c.r.range(1,cap); a.setlim(lim); Model m={cap,lim}; if(a.lim()!=lim) viol("limit:reported",fmt("%s: limit %d reported as %d",nm,lim,a.lim())); history(c,nm,a,m,true); if(!is_thread_parallel()) viol("tools:parallel","is_thread_parallel() is false with a pool"); }
template<class P> void raw(Case& c,const char* nm){ int n=c.r.range(1,8); Raw<P> a(n); Model m={n,n}; history(c,nm,a,m,false); }
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard; int n=400;
  group("raw-fifo",n,[](Case& c){ raw<tp::fifo_pool>(c,"fifo_pool"); }); group("raw-prio",n,[](Case& c){ raw<tp::prio_pool>(c,"prio_pool"); }); group("raw-lifo",n,[](Case& c){ raw<tp::lifo_pool>(c,"lifo_pool"); });
  group("ThreadPoolFIFO",n,[](Case& c){ lib<Lib<ThreadPoolFIFO> >(c,"ThreadPoolFIFO"); });
  group("ThreadPool",n,[](Case& c){ lib<Lib<ThreadPool> >(c,"ThreadPool"); });
  group("thread-counts",n,[](Case& c){ lib<Tools>(c,"thread count functions"); });
  count("injected-delays",(long long)pt().delays.load());
  return finish();
}
