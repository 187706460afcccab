// T05: a future delivers exactly its task's result; cancellation before the start keeps the task from running.
#include "pools.h"
using namespace vf;
// results of several shapes, all derived from an id; a wide one would show torn or partial copies
template<class R> struct Val; 
template<> struct Val<int>{ static int of(int k){ return k*13-7; } static const char* nm(){ return "int"; } };
template<> struct Val<double>{ static double of(int k){ return k/8.0-3; } static const char* nm(){ return "double"; } };
template<> struct Val<std::string>{ static std::string of(int k){ return std::string(20+k%50,'a'+k%26)+std::to_string(k); } static const char* nm(){ return "string"; } };
template<> struct Val<std::vector<int> >{ static std::vector<int> of(int k){ std::vector<int> v(1+k%97); for(size_t i=0;i<v.size();++i) v[i]=k+(int)i; return v; } static const char* nm(){ return "vector"; } };
struct Run { std::atomic<int> starts,ends; long effect; Run():starts(0),ends(0),effect(-1){} };
template<class R> boost::function0<R> task(Run* x,int k,int us,Gate* g){ return [=]()->R{ x->starts.fetch_add(1,std::memory_order_relaxed); if(g) g->pass(); nap(us); x->effect=k*5L+2; x->ends.fetch_add(1,std::memory_order_relaxed); return Val<R>::of(k); }; }
// after `how` returned the task is over: exactly one run, its effect visible, its value delivered
template<class R,class F> void done(Case& c,Run& x,int k,F& f,const char* how){
  if(x.ends.load(std::memory_order_relaxed)!=1||x.starts.load(std::memory_order_relaxed)!=1) viol(std::string(how)+":not-finished",c.desc+fmt(" %s of task %d returned with %d starts, %d ends",how,k,x.starts.load(),x.ends.load()));
  else if(x.effect!=k*5L+2) viol(std::string(how)+":effect",c.desc+fmt(" the effect of task %d is not visible after %s",k,how));
  if(!f.ready()) viol(std::string(how)+":not-ready",c.desc+fmt(" %s of task %d returned but ready() is false",how,k));
  R v= (k&1)? R(f.get()) : R(f()); if(!(v==Val<R>::of(k))) viol(std::string(how)+":value",c.desc+fmt(" task %d: wrong value of type %s",k,Val<R>::nm()));
}
// observe one future by a random route; true when the route saw completion
template<class R,class F> void observe(Case& c,Rng& q,Run& x,int k,F f){
  switch(q.range(0,4)){
    case 0: { R v=f.get(); if(!(v==Val<R>::of(k))) viol("get:value",c.desc+fmt(" task %d: wrong value of type %s",k,Val<R>::nm())); done<R>(c,x,k,f,"get"); count("gets"); break; }
    case 1: { f.wait(); done<R>(c,x,k,f,"wait"); count("waits"); break; }
    case 2: { double t0=now(); while(!f.ready()){ if(now()-t0>30){ viol("ready:never",c.desc+fmt(" task %d",k)); return; } if(q.chance(.5)) sched_yield(); } done<R>(c,x,k,f,"ready"); count("polls"); break; }
    case 3: { for(int n=0;;++n){ long us=q.range(0,n>50?20000:300); double t0=now(); if(f.timed_wait(in_us(us))){ done<R>(c,x,k,f,"timed-wait"); count("timed-true"); break; } if(now()-t0<us*1e-6-2e-3) viol("timed-wait:early",c.desc+fmt(" timed wait of %ld us gave up after %.0f us",us,(now()-t0)*1e6)); count("timed-false"); if(n>4000){ viol("timed-wait:never",c.desc); break; } } break; }
    default: { F g; g=f; R v=g(); if(!(v==Val<R>::of(k))) viol("call:value",c.desc+fmt(" task %d: wrong value of type %s",k,Val<R>::nm())); done<R>(c,x,k,f,"call"); count("calls"); }
  }
}
template<class R,class Pool> void deliver(Case& c){
  Rng& r=c.r; pt().level=r.range(0,3); int W=r.range(1,5),N=r.range(1,25),T=r.range(1,4); c.note(fmt("%d tasks returning %s on %d workers, observed by %d threads",N,Val<R>::nm(),W,T)); c.add(r.s);
  std::vector<Run> x(N); std::vector<tp::future<R> > f; int k0=r.range(0,1000);
  { Pool p(W); for(int k=0;k<N;++k){ boost::function0<R> t=task<R>(&x[k],k0+k,r.chance(.4)?r.range(1,200):0,0); f.push_back(tp::schedule(p,t)); if(r.chance(.1)) observe<R>(c,r,x[k],k0+k,f[k]); }
    std::vector<std::thread> th; for(int t=0;t<T;++t){ uint64_t sd=r.next(); th.emplace_back([&,sd]{ Rng q(sd); int m=q.range(1,N); for(int i=0;i<m;++i){ int k=q.range(0,N-1); observe<R>(c,q,x[k],k0+k,f[k]); } }); }
    if(r.chance(.3)){ for(auto& t: th) t.join(); th.clear(); p.wait(); for(int k=0;k<N;++k) done<R>(c,x[k],k0+k,f[k],"pool-wait"); }
    for(auto& t: th) t.join(); }
  // the pool is gone: the futures keep their values
  for(int k=0;k<N;++k){ done<R>(c,x[k],k0+k,f[k],"pool-gone"); if(f[k].is_cancelled()) viol("cancelled:unasked",c.desc); if(f[k].cancel()) viol("cancel:after-done",c.desc+fmt(" cancelling finished task %d was accepted",k)); done<R>(c,x[k],k0+k,f[k],"refused-cancel"); count("late-cancels"); }
  count("futures",N); pt().level=0;
}
// tasks held behind a gate: those cancelled while pending never run, the others all do
template<class R> void cancelling(Case& c){
  Rng& r=c.r; pt().level=r.range(0,3); int W=r.range(1,3),N=r.range(1,16); c.note(fmt("cancelling among %d pending tasks returning %s, %d workers",N,Val<R>::nm(),W)); c.add(r.s);
  std::vector<Run> x(N); std::vector<tp::future<R> > f; std::vector<char> cut(N,0); Gate g; int k0=r.range(0,1000);
  { tp::fifo_pool p(W); for(int w=0;w<W;++w) p.schedule([&g]{ g.pass(); }); if(!g.reached(W)){ g.open=true; viol("gate:unreached",c.desc); return; }
    for(int k=0;k<N;++k){ boost::function0<R> t=task<R>(&x[k],k0+k,r.chance(.3)?r.range(1,100):0,0); f.push_back(tp::schedule(p,t)); }
    for(int k=0;k<N;++k){ if(f[k].ready()) viol("pending:ready",c.desc+fmt(" task %d is pending",k)); if(f[k].timed_wait(in_us(r.range(0,30)))) viol("pending:timed-wait",c.desc+fmt(" task %d is pending",k)); if(f[k].is_cancelled()) viol("pending:cancelled",c.desc+fmt(" task %d was not cancelled",k));
      if(r.chance(.4)){ tp::future<R> copy(f[k]); if(!(r.chance(.5)?copy:f[k]).cancel()) viol("cancel:refused",c.desc+fmt(" task %d is pending",k)); cut[k]=1; if(!f[k].is_cancelled()||!copy.is_cancelled()) viol("cancel:unseen",c.desc); count("cancelled"); } }
    g.open=true; if(r.chance(.7)) p.wait(); }
  for(int k=0;k<N;++k){ if(cut[k]){ if(x[k].starts.load()) viol("cancel:ran",c.desc+fmt(" task %d was cancelled while pending and ran",k)); if(f[k].ready()) viol("cancel:ready",c.desc+fmt(" task %d",k)); if(!f[k].is_cancelled()) viol("cancel:forgotten",c.desc); } else { done<R>(c,x[k],k0+k,f[k],"uncancelled"); if(f[k].is_cancelled()) viol("cancelled:unasked",c.desc+fmt(" task %d",k)); } }
  pt().level=0;
}
// cancellations racing with the tasks: whatever the verdict, a task runs at most once, one that was refused has its value
template<class R> void racing(Case& c){
  Rng& r=c.r; pt().level=r.range(1,3); int W=r.range(1,4),N=r.range(2,20); c.note(fmt("cancelling %d tasks returning %s while they run on %d workers",N,Val<R>::nm(),W)); c.add(r.s);
  std::vector<Run> x(N); std::vector<tp::future<R> > f; std::vector<std::atomic<int> > verdict(N); for(auto& z: verdict) z=-1; int k0=r.range(0,1000);
  { tp::fifo_pool p(W); for(int k=0;k<N;++k){ boost::function0<R> t=task<R>(&x[k],k0+k,r.chance(.5)?r.range(1,100):0,0); f.push_back(tp::schedule(p,t)); }
    uint64_t sd=r.next(); std::thread th([&,sd]{ Rng q(sd); for(int k=0;k<N;++k) if(q.chance(.7)){ verdict[k]=f[k].cancel()?1:0; if(q.chance(.3)) nap(q.range(1,60)); } });
    for(int k=0;k<N;++k){ if(f[k].ready()) done<R>(c,x[k],k0+k,f[k],"ready-racing"); (void)f[k].is_cancelled(); }
    th.join(); p.wait(); }
  for(int k=0;k<N;++k){ int s=x[k].starts.load(),e=x[k].ends.load(); if(s>1||e!=s) viol("racing:runs",c.desc+fmt(" task %d has %d starts, %d ends",k,s,e));
    if(verdict[k]==0){ done<R>(c,x[k],k0+k,f[k],"racing-refused"); count("race-refused"); } else if(verdict[k]==1) count(s?"race-running":"race-pending"); else done<R>(c,x[k],k0+k,f[k],"racing-uncancelled");
    if(f[k].ready()) done<R>(c,x[k],k0+k,f[k],"racing-ready"); }
  pt().level=0;
}
int plain_result(){ return 4711; }
// the free scheduling helpers
static std::atomic<int> hits; static void hit(){ ++hits; }
struct Runner { std::atomic<int> n; Runner():n(0){} void run(){ ++n; } };
static void helpers(Case& c){
  Rng& r=c.r; pt().level=r.range(0,2); int W=r.range(1,4),N=r.range(1,20); c.note(fmt("free schedule() %d times on %d workers",N,W)); c.add(r.s); hits=0;
  tp::pool p(W); std::vector<tp::future<int> > f; for(int k=0;k<N;++k){ if(!tp::schedule(p,tp::task_func(&hit))) viol("helper:refused",c.desc); f.push_back(tp::schedule(p,&plain_result)); }
  for(auto& z: f) if(z.get()!=4711) viol("helper:value",c.desc); p.wait(); if(hits!=N) viol("helper:runs",c.desc+fmt(" %d of %d tasks ran",hits.load(),N)); count("helpers",N); pt().level=0;
}
template<class R> void all(long long n){ std::string t=Val<R>::nm(); group(("deliver-"+t).c_str(),n,deliver<R,tp::fifo_pool>); group(("deliver-lifo-"+t).c_str(),n/2,deliver<R,tp::lifo_pool>); group(("cancel-"+t).c_str(),n/2,cancelling<R>); group(("race-"+t).c_str(),n/2,racing<R>); }
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard;
  all<int>(60); all<double>(60); all<std::string>(60); all<std::vector<int> >(60); group("helpers",60,helpers);
  count("injected-delays",(long long)pt().delays.load()); count("spurious-wakeups",(long long)pt().spurious.load());
  return finish();
}
