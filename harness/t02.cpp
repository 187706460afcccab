// T02: start order follows the scheduling policy.
#include "pools.h"
#include <spatialops/ThreadPool.h>
using namespace vf;
enum { FIFO, LIFO, PRIO };
struct T { int seq; unsigned prio; };
static const char* nm[]={"fifo","lifo","prio"};
// rank: does a go before b (strictly) under the policy, both pending
static bool before(int pol,const T& a,const T& b){ return pol==FIFO? a.seq<b.seq : pol==LIFO? a.seq>b.seq : a.prio>b.prio; }
struct Order { std::mutex m; std::vector<T> pend; std::vector<int> startOrder; int seq=0; std::string bad; };
// one worker: tasks are added while it is held or from inside the running task, so the
// pending set at each start is known exactly
template<class Pool> struct Run {
  Pool& p; int pol; Order o; Rng r; int budget; Run(Pool& q,int pl,uint64_t s,int b):p(q),pol(pl),r(s),budget(b){}
  void add(unsigned prio){ T t; { std::lock_guard<std::mutex> g(o.m); t.seq=o.seq++; t.prio=prio; o.pend.push_back(t); } Put<Pool>::go(p,boost::function0<void>([this,t]{ go(t); }),prio); }
  void go(T t){ int kids=0; std::vector<unsigned> pr; { std::lock_guard<std::mutex> g(o.m); o.startOrder.push_back(t.seq);
      for(size_t i=0;i<o.pend.size();++i) if(o.pend[i].seq==t.seq){ o.pend.erase(o.pend.begin()+i); break; }
      for(auto& q: o.pend) if(before(pol,q,t) && o.bad.empty()) o.bad=fmt("task %d (priority %u) started while task %d (priority %u) was pending",t.seq,t.prio,q.seq,q.prio);
      if(budget>0 && r.chance(.4)){ kids=std::min(budget,r.range(1,3)); budget-=kids; for(int k=0;k<kids;++k) pr.push_back(r.range(0,9)); } }
    for(unsigned q: pr) add(q); if(r.chance(.1)) sched_yield(); }
};
template<class Pool> void one(Case& c,int pol,Pool& p,bool setlimit){
  Rng& r=c.r; pt().level=r.range(0,2); int N= r.chance(0.04)? r.range(100,600) : r.range(2,40); std::string d; Gate g; 
  if(setlimit) p.size_controller().resize_active(1);
  Run<Pool> x(p,pol,r.next(),r.range(0,30)); c.note(fmt("%s pool, one active worker, %d tasks queued while it is held",nm[pol],N)); c.add((uint64_t)(pol*100+N)); c.add(r.s);
  Put<Pool>::go(p,boost::function0<void>([&g]{ g.pass(); }),100); if(!g.reached(1)){ viol("held:not-started",c.desc); }
  int pm=r.range(0,3); for(int i=0;i<N;++i) x.add(pm==0? (unsigned)r.range(0,9) : pm==1? (unsigned)r.range(0,1) : pm==2? (unsigned)(i%10) : (unsigned)(r.next()%4000000000u));
  g.open=true; p.wait();
  if(!x.o.bad.empty()) viol(std::string(nm[pol])+":order",c.desc+": "+x.o.bad);
  if((int)x.o.startOrder.size()!=x.o.seq) viol(std::string(nm[pol])+":count",c.desc+fmt(" %zu of %d tasks started",x.o.startOrder.size(),x.o.seq));
  count("ordered",x.o.seq); pt().level=0;
}
// several workers: a started task may be overtaken only by those another worker has
// already taken, so at each start fewer than W better-ranked tasks are still unstarted
template<class Pool> void many(Case& c,int pol){
  Rng& r=c.r; pt().level=r.range(0,3); int W=r.range(2,6),N=r.range(10,80); Pool p(W); Gate g; c.note(fmt("%s pool, %d workers, %d tasks",nm[pol],W,N)); c.add((uint64_t)(pol*1000+W*100+N)); c.add(r.s);
  for(int i=0;i<W;++i) Put<Pool>::go(p,boost::function0<void>([&g]{ g.pass(); }),100); if(!g.reached(W)) viol("held:not-started",c.desc);
  std::mutex m; std::vector<T> ts(N); std::vector<char> started(N,0); std::string bad; int maxover=0; std::vector<int> naps(N);
  for(int i=0;i<N;++i){ ts[i].seq=i; ts[i].prio=r.range(0,9); naps[i]=r.chance(.3)?r.range(1,150):0; }
  for(int i=0;i<N;++i) Put<Pool>::go(p,boost::function0<void>([&,i]{ { std::lock_guard<std::mutex> l(m); started[i]=1; int over=0; for(int q=0;q<N;++q) if(!started[q] && before(pol,ts[q],ts[i])) ++over; maxover=std::max(maxover,over); if(over>W-1 && bad.empty()) bad=fmt("task %d started before %d tasks ranked ahead of it, with %d workers",i,over,W); } nap(naps[i]); }),ts[i].prio);
  g.open=true; p.wait(); if(!bad.empty()) viol(std::string(nm[pol])+":overtaken",c.desc+": "+bad); count("ordered",N); count("overtakes-seen",maxover); pt().level=0;
}
// limit of one with several workers must order as one worker does; so must the library's own pools
template<class Pool> void lib(Case& c,int pol,Pool& p){ Pool::set_pool_capacity(c.r.range(1,5)); Pool::resize_pool(1); nap(500); p.wait(); one(c,pol,p,false); }
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard; int n=300;
#define Q(P,K) group("one-" #P,n,[](Case& c){ tp::P p(1); one<tp::P>(c,K,p,false); }); group("limited-" #P,n,[](Case& c){ tp::P p(c.r.range(2,5)); one<tp::P>(c,K,p,true); }); group("many-" #P,n,[](Case& c){ many<tp::P>(c,K); });
  Q(fifo_pool,FIFO) Q(lifo_pool,LIFO) Q(prio_pool,PRIO)
  group("ThreadPoolFIFO",n,[](Case& c){ lib(c,FIFO,SpatialOps::ThreadPoolFIFO::self()); });
  group("ThreadPool",n,[](Case& c){ lib(c,PRIO,SpatialOps::ThreadPool::self()); });
  count("injected-delays",(long long)pt().delays.load());
  return finish();
}
