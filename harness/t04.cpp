// T04: semaphores conserve permits and never lose a wake-up.
#include "pools.h"
#include <spatialops/Semaphore.h>
using namespace vf;
using SpatialOps::Semaphore;
// posters and waiters in batches: after each batch exactly the available permits are taken
static void conserve(Case& c){
  Rng& r=c.r; pt().level=r.range(0,3); int init= r.chance(0.03)? r.range(100,20000) : r.range(-2,4),Wn=r.range(1,6),Pn=r.range(1,4),rounds=r.range(1,4),each=r.range(1,12); if(init>50) pt().level=0;
  c.note(fmt("initial %d, %d waiting threads, %d posting threads",init,Wn,Pn)); c.add(r.s);
  Semaphore s(init); std::atomic<long> posted(0),waited(0); std::atomic<bool> stop(false); std::atomic<int> left(Wn); std::vector<long> slot(4096,0); std::atomic<long> early(0);
  std::vector<std::thread> w; for(int t=0;t<Wn;++t) w.emplace_back([&]{ for(;;){ s.wait(); long n=waited.fetch_add(1)+1; if(n>posted.load()+init) early.store(n); if(stop.load()) break; } --left; });
  long sent=0; for(int k=0;k<rounds;++k){ std::vector<std::thread> p; std::atomic<long> mine(0); for(int t=0;t<Pn;++t){ uint64_t sd=r.next(); p.emplace_back([&,sd]{ Rng q(sd); for(int i=0;i<each;++i){ posted.fetch_add(1); s.post(); if(q.chance(.2)) nap(q.range(1,80)); } }); } for(auto& t: p) t.join(); sent+=Pn*each;
    long want=std::max(0L,sent+init); double t0=now(); while(waited.load()<want && now()-t0<15) nap(30);
    if(waited.load()!=want){ viol("permits:lost",c.desc+fmt(" %ld posts, %ld waits completed of %ld",sent,waited.load(),want)); break; }
    nap(r.range(0,300)); if(waited.load()!=want){ viol("permits:created",c.desc+fmt(" %ld posts, %ld waits completed, only %ld permits",sent,waited.load(),want)); break; } }
  if(early.load()) viol("permits:early",c.desc+fmt(" wait number %ld completed before a permit existed",early.load()));
  stop=true; double t0=now(); while(left.load()>0 && now()-t0<20){ posted.fetch_add(1); s.post(); nap(50); } for(auto& t: w) t.join();
  count("posts",posted.load()); count("waits",waited.load()); pt().level=0;
}
// hand-off: what was written before a post is there after the wait it releases, one permit per item
static void handoff(Case& c){
  Rng& r=c.r; pt().level=r.range(0,3); int N=r.range(1,200); int bound=r.range(1,4); c.note(fmt("bounded hand-off of %d items through %d slots",N,bound)); c.add((uint64_t)(N*10+bound)); c.add(r.s);
  Semaphore full(0),empty(bound); std::vector<long> ring(bound,-1); long bad=-1;
  std::thread prod([&]{ for(int i=0;i<N;++i){ empty.wait(); ring[i%bound]=i*7+3; full.post(); } });
  for(int i=0;i<N;++i){ full.wait(); if(ring[i%bound]!=i*7+3 && bad<0) bad=i; ring[i%bound]=-1; empty.post(); } prod.join();
  if(bad>=0) viol("handoff:value",c.desc+fmt(" item %ld was not visible after its wait",bad)); count("handoffs",N); count("posts",2*N); pt().level=0;
}
// as a join counter, the way threaded assignment uses it: on the stack, destroyed right after the last wait
static void join_(Case& c){
  Rng& r=c.r; pt().level=r.range(0,3); int N=r.range(1,24); c.note(fmt("join of %d tasks, repeated",N)); c.add((uint64_t)N); c.add(r.s); static tp::fifo_pool p(6);
  for(int k=0;k<6;++k){ std::vector<long> v(N,0); { Semaphore s(0); for(int i=0;i<N;++i) p.schedule(boost::function0<void>([&v,&s,i]{ v[i]=i+1; s.post(); })); for(int i=0;i<N;++i) s.wait(); }
    for(int i=0;i<N;++i) if(v[i]!=i+1){ viol("join:early",c.desc+fmt(" task %d had not finished",i)); break; } count("posts",N); count("waits",N); } pt().level=0;
}
// permits pile up while nobody waits, and are all there afterwards: counts far beyond any thread count
static void pile(Case& c){
  Rng& r=c.r; pt().level=0; static const int big[]={130,260,40000,70000}; int init=r.chance(.5)? 0 : big[r.range(0,3)]+r.range(0,50), posts=r.chance(.25)? r.range(0,100) : big[r.range(0,3)]+r.range(0,50);
  long total=(long)init+posts; c.note(fmt("initial %d, then %d posts, then as many waits",init,posts)); c.add(r.s); Semaphore s(init); for(int i=0;i<posts;++i) s.post();
  std::atomic<long> got(0); std::thread w([&]{ for(long i=0;i<total+1;++i){ s.wait(); got.fetch_add(1); } });
  double t0=now(); long last=-1; while(got.load()<total && now()-t0<15){ long g=got.load(); if(g!=last){ last=g; t0=now(); } nap(200); }
  if(got.load()<total) viol("permits:lost",c.desc+fmt(" only %ld of %ld waits completed",got.load(),total));
  nap(300); if(got.load()>total) viol("permits:created",c.desc+fmt(" %ld waits completed with %ld permits",got.load(),total));
  for(t0=now(); got.load()<total+1 && now()-t0<20;){ s.post(); if(got.load()==total) nap(20); } w.join(); count("posts",total); count("piled",total); count("waits",got.load());
}
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard;
  group("conserve",240,conserve); group("handoff",300,handoff); group("join",300,join_); group("pile",60,pile);
  count("injected-delays",(long long)pt().delays.load()); count("spurious-wakeups",(long long)pt().spurious.load());
  return finish();
}
