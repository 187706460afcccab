// T01: tasks run exactly once; waiting means done; clear and shutdown.
#include "pools.h"
using namespace vf;
typedef tp::thread_pool<tp::task_func,tp::fifo_scheduler,tp::dynamic_resize_policy,tp::resize_controller,tp::wait_for_active_tasks> active_pool;
typedef tp::thread_pool<tp::task_func,tp::fifo_scheduler,tp::dynamic_resize_policy,tp::resize_controller,tp::immediately> now_pool;
template<class Pool> struct Ctx { Log log; Pool* pool; std::vector<int> nap_us; std::vector<int> kids; Ctx(int n):log(n),pool(0),nap_us(n,0),kids(n,0){} };
template<class Pool> void body(Ctx<Pool>* c,int id){
  Rec& r=c->log.r[id]; r.starts.fetch_add(1,std::memory_order_relaxed); c->log.enter();
  r.payload=id*3+1;                       // plain write: read by whoever waited
  nap(c->nap_us[id]);
  for(int k=0;k<c->kids[id];++k){ int q=c->log.fresh(); if(q>=(int)c->log.r.size()) break; c->log.r[q].parent=id; if(Put<Pool>::go(*c->pool,boost::bind(body<Pool>,c,q),q%5)) c->log.r[q].accepted.store(1,std::memory_order_relaxed); }
  c->log.leave(); r.ends.fetch_add(1,std::memory_order_relaxed);
}
template<class Pool> bool submit(Ctx<Pool>& x,Rng& r,int cap,bool kids){
  int q=x.log.fresh(); if(q>=cap) return false; x.nap_us[q]= r.chance(.3)? r.range(1,200):0; x.kids[q]= kids&&r.chance(.2)? r.range(1,3):0;
  if(!Put<Pool>::go(*x.pool,boost::bind(body<Pool>,&x,q),r.range(0,4))) return false; x.log.r[q].accepted.store(1,std::memory_order_relaxed); return true;
}
template<class Pool> int unfinished(Ctx<Pool>& x,const std::vector<int>& ids){ int u=0; for(int q: ids) if(x.log.r[q].ends.load(std::memory_order_relaxed)==0) ++u; return u; }
template<class Pool> void check_done(Case& c,Ctx<Pool>& x,const std::vector<int>& ids,const char* what){
  for(int q: ids){ Rec& t=x.log.r[q]; int s=t.starts.load(std::memory_order_relaxed),e=t.ends.load(std::memory_order_relaxed);
    if(s!=1||e!=1){ viol(std::string(what)+":not-once",c.desc+fmt(" after %s task %d (submitted before it) has %d starts, %d ends",what,q,s,e)); return; }
    if(t.payload!=q*3+1){ viol(std::string(what)+":payload",c.desc+fmt(" task %d's effect is not visible after %s",q,what)); return; } }
}
// single controlling thread: every wait, limit change and pool copy in random order
template<class Pool> void solo(Case& c,const char* nm){
  Rng& r=c.r; pt().level=r.range(0,3); int W=r.range(1,6),N=r.range(5,80); const int CAP=1000; Ctx<Pool> x(CAP); std::vector<int> mine; 
  c.note(fmt("%s, %d workers, %d tasks, perturbation %d",nm,W,N,(int)pt().level)); c.add((uint64_t)(W*1000+N)); c.add(r.s);
  { std::unique_ptr<Pool> p(new Pool(W)); x.pool=p.get(); bool kids=r.chance(.4);
    for(int n=0;n<N;++n){
      int q=x.log.used.load(); if(!submit(x,r,CAP/2,kids)) { viol("schedule:refused",c.desc); break; } (void)q; count("scheduled");
      double z=r.unit();
      if(z<.04){ int u=x.log.used.load(); p->wait(); std::vector<int> ids; for(int i=0;i<u;++i) ids.push_back(i); check_done(c,x,ids,"wait"); count("waits");
        u=x.log.used.load(); if(x.log.running.load()!=0) viol("wait:running",c.desc+" a task is running after wait() with nothing else submitting");
        if(!p->empty()||p->pending()!=0||p->active()!=0){ /* idle workers may still be passing through; only pending is fixed */ if(!p->empty()||p->pending()!=0) viol("wait:pending",c.desc+" tasks pending after wait()"); } }
      else if(z<.08){ size_t th=r.range(1,6); int u=x.log.used.load(); std::vector<int> ids; for(int i=0;i<u;++i) if(x.log.r[i].accepted.load()) ids.push_back(i); p->wait(th); int un=unfinished(x,ids); if(un>(int)th) viol("wait-threshold:early",c.desc+fmt(" wait(%zu) returned with %d tasks unfinished",th,un)); count("waits"); }
      else if(z<.12){ size_t th=r.range(0,3); long us=r.range(0,400); double t0=now(); int u=x.log.used.load(); std::vector<int> ids; for(int i=0;i<u;++i) if(x.log.r[i].accepted.load()) ids.push_back(i); bool ok=p->wait(in_us(us),th); count(ok?"timed-true":"timed-false");
        if(ok){ int un=unfinished(x,ids); if(un>(int)th) viol("wait-timed:early",c.desc+fmt(" timed wait(%zu) returned true with %d unfinished",th,un)); } else if(now()-t0 < us*1e-6-2e-3) viol("wait-timed:false-early",c.desc+fmt(" timed wait of %ld us gave up after %.0f us",us,(now()-t0)*1e6)); }
      else if(z<.16){ p->size_controller().resize_active(r.range(1,W)); count("limit-changes"); }
      else if(z<.20){ Pool copy(*p); if(copy.size()!=p->size()) viol("copy:size",c.desc); }   // a second handle going away must not end the pool
      else if(z<.22) nap(r.range(1,300));
    }
    if(r.chance(.5)) p->wait();
  } // last handle destroyed here
  int u=std::min(x.log.used.load(),CAP); std::vector<int> ids; for(int i=0;i<u;++i) if(x.log.r[i].accepted.load()) ids.push_back(i);
  check_done(c,x,ids,"shutdown"); count("tasks",ids.size()); if(x.log.running.load()) viol("shutdown:running",c.desc); if(x.log.high.load()>W) viol("workers:exceeded",c.desc+fmt(" %d tasks ran at once",x.log.high.load()));
  count("max-concurrency-sum",x.log.high.load()); pt().level=0;
}
// several submitting and waiting threads
template<class Pool> void crowd(Case& c,const char* nm){
  Rng& r=c.r; pt().level=r.range(0,3); int W=r.range(1,6),T=r.range(2,5),N=r.range(5,40); const int CAP=4000; Ctx<Pool> x(CAP); c.note(fmt("%s, %d workers, %d submitting threads x %d tasks",nm,W,T,N)); c.add((uint64_t)(W*100+T)); c.add(r.s);
  { Pool p(W); x.pool=&p; std::vector<std::thread> th; bool kids=r.chance(.4);
    for(int t=0;t<T;++t){ uint64_t sd=r.next(); th.emplace_back([&,sd]{ Rng q(sd); std::vector<int> ids; for(int n=0;n<N;++n){ int id=x.log.fresh(); x.nap_us[id]=q.chance(.2)?q.range(1,100):0; x.kids[id]= kids&&q.chance(.1)?1:0;
        if(Put<Pool>::go(p,boost::bind(body<Pool>,&x,id),q.range(0,4))){ x.log.r[id].accepted.store(1); ids.push_back(id); } count("scheduled");
        if(q.chance(.08)){ p.wait(); check_done(c,x,ids,"wait"); count("waits"); }
        else if(q.chance(.08)){ int k=q.range(1,8); p.wait(k); int un=unfinished(x,ids); if(un>k) viol("wait-threshold:early",c.desc+fmt(" wait(%d) returned with %d of the caller's own tasks unfinished",k,un)); count("waits"); } } }); }
    for(auto& t: th) t.join();
    if(r.chance(.5)){ p.wait(); int u=x.log.used.load(); std::vector<int> ids; for(int i=0;i<u;++i) if(x.log.r[i].accepted.load()) ids.push_back(i); check_done(c,x,ids,"wait"); }
  }
  int u=x.log.used.load(); std::vector<int> ids; for(int i=0;i<u;++i) if(x.log.r[i].accepted.load()) ids.push_back(i); check_done(c,x,ids,"shutdown"); count("tasks",ids.size()); pt().level=0;
}
// clearing with the workers held: exactly the pending ones disappear
template<class Pool> void clearing(Case& c,const char* nm){
  Rng& r=c.r; pt().level=r.range(0,2); int W=r.range(1,4); Ctx<Pool> x(300); Gate g; c.note(fmt("%s, %d workers held, clear",nm,W)); c.add((uint64_t)W); c.add(r.s);
  { Pool p(W); x.pool=&p; std::vector<int> held,gone,kept; std::atomic<int> hs(0);
    int H=r.range(1,W); p.size_controller().resize_active(H);   // only H workers may run; all of them held at the gate
    for(int i=0;i<H;++i){ Put<Pool>::go(p,boost::function0<void>([&g,&hs]{ g.pass(); ++hs; }),9); }
    if(!g.reached(H)){ viol("held:not-started",c.desc+fmt(" only %d of %d tasks started with %d workers and limit %d",g.at.load(),H,W,H)); g.open=true; p.wait(); return; }
    auto put=[&](std::vector<int>& v,int n){ for(int i=0;i<n;++i){ int q=x.log.fresh(); Put<Pool>::go(p,boost::bind(body<Pool>,&x,q),r.range(0,8)); v.push_back(q); } };
    int rounds=r.range(1,3); for(int k=0;k<rounds;++k){ int n=r.range(0,12); put(gone,n); 
      if((int)p.pending()!=n) viol("pending:count",c.desc+fmt(" pending() is %zu with %d tasks queued",p.pending(),n)); if(p.empty()!=(n==0)) viol("pending:empty",c.desc);
      bool blocked=r.chance(.5); std::atomic<bool> back(false); std::thread w; if(blocked){ size_t th=H; w=std::thread([&,th]{ p.wait(th); back=true; }); nap(r.range(0,300)); }
      p.clear(); if(p.pending()!=0||!p.empty()) viol("clear:left",c.desc+" tasks pending after clear()");
      if(blocked){ double t=now(); while(!back && now()-t<15) nap(50); if(!back) viol("clear:waiter",c.desc+fmt(" a thread in wait(%d) was not released although clear() left only the %d running tasks",H,H)); else count("released-waiters"); if(!back) g.open=true; w.join(); } count("clears"); }
    put(kept,r.range(0,10)); g.open=true; p.wait(); if(hs.load()!=H) viol("clear:running-lost",c.desc+fmt(" %d of %d running tasks finished",hs.load(),H));
    check_done(c,x,kept,"wait"); for(int q: gone) if(x.log.r[q].starts.load()) { viol("clear:ran",c.desc+fmt(" task %d ran although it was cleared",q)); break; }
    count("cleared",gone.size()); count("tasks",kept.size());
  } pt().level=0;
}
// waiting for a threshold while the test decides when each task ends
template<class Pool> void steps(Case& c,const char* nm){
  Rng& r=c.r; pt().level=r.range(0,2); int W=r.range(1,5),N=r.range(1,9); bool timed=r.chance(.4); long tmo=r.chance(.5)?2000:5000; int th=r.range(0,N); c.note(fmt("%s, %d workers, %d tasks ended one at a time, %s(%d)",nm,W,N,timed?"timed wait":"wait",th)); c.add((uint64_t)(W*100+N*10+th)); c.add(r.s);
  std::atomic<int> tokens(0),ended(0),started(0); std::atomic<int> back(-1); std::atomic<bool> timeouts(false);
  { Pool p(W); int L=r.chance(.3)? r.range(1,W) : W; p.size_controller().resize_active(L);
    for(int i=0;i<N;++i) Put<Pool>::go(p,boost::function0<void>([&]{ ++started; for(;;){ int t=tokens.load(); if(t>0 && tokens.compare_exchange_weak(t,t-1)) break; nap(20); } ++ended; }),r.range(0,4));
    int run=std::min(L,N); double t0=now(); while(started.load()<run && now()-t0<20) nap(20); if(started.load()<run) viol("steps:not-started",c.desc+fmt(" only %d of %d tasks started",started.load(),run));
    std::thread w([&]{ if(timed){ int e=0; bool ok=false; while(!ok && e<4000){ ok=p.wait(in_us(tmo),th); ++e; if(!ok) timeouts=true; } back=ended.load(); } else { p.wait(th); back=ended.load(); } });
    for(int k=0;k<N;++k){
      if(k<N-th){ nap(r.pick(std::vector<int>{0,100,600,1500})); if(back.load()>=0 && N-back.load()>th){ viol("steps:early",c.desc+fmt(" returned with %d of %d tasks finished",back.load(),N)); break; } count("held-waits"); }
      else { double t=now(); while(back.load()<0 && now()-t<15) nap(50); if(back.load()<0){ viol("steps:late",c.desc+fmt(" did not return although only %d tasks are left",N-ended.load())); break; } if(N-back.load()>th){ viol("steps:early",c.desc+fmt(" returned with %d of %d tasks finished",back.load(),N)); } break; }
      int e=ended.load(); ++tokens; double t=now(); while(ended.load()==e && now()-t<15) nap(20); if(ended.load()==e){ viol("steps:stuck",c.desc+" a task that may end did not run"); break; } }
    tokens+=N; w.join(); p.wait(); if(ended.load()!=N) viol("steps:lost",c.desc); if(back.load()>=0 && N-back.load()>th) viol("steps:early",c.desc+fmt(" returned with %d of %d tasks finished",back.load(),N));
  } count("stepped"); if(timeouts) count("timeouts"); pt().level=0;
}
// far more tasks than any counter of small width holds, queued behind held workers
template<class Pool> void bulk(Case& c,const char* nm){
  Rng& r=c.r; pt().level=0; int W=r.chance(.3)? r.range(20,60) : r.range(1,6); static const int big[]={200,300,1000,33000,66000}; int N=big[r.range(0,4)]+r.range(0,90); c.note(fmt("%s, %d tasks queued behind %d held workers",nm,N,W)); c.add((uint64_t)(N*100+W)); c.add(r.s);
  std::vector<std::atomic<int> > runs(N); for(auto& a: runs) a=0; std::vector<int> eff(N,0); Gate g; Pool p(W);
  for(int i=0;i<W;++i) Put<Pool>::go(p,boost::function0<void>([&g]{ g.pass(); }),9);
  if(!g.reached(W)){ viol("held:not-started",c.desc+fmt(" only %d of %d tasks started",g.at.load(),W)); g.open=true; p.wait(); return; }
  if((int)p.active()!=W) viol("active:count",c.desc+fmt(" active() is %zu",p.active()));
  for(int i=0;i<N;++i) if(!Put<Pool>::go(p,boost::function0<void>([&runs,&eff,i]{ ++runs[i]; eff[i]=i*3+1; }),r.range(0,6))){ viol("schedule:refused",c.desc); break; }
  if((int)p.pending()!=N) viol("pending:count",c.desc+fmt(" pending() is %zu",p.pending()));
  bool drop=r.chance(.25); if(drop){ p.clear(); if(p.pending()!=0) viol("clear:left",c.desc+" tasks pending after clear()"); }
  int th= !drop&&r.chance(.5)? r.range(1,N) : -1; g.open=true;
  if(th>=0){ p.wait(th); int u=0; for(int i=0;i<N;++i) if(!runs[i].load()) ++u; if(u>th) viol("wait-threshold:early",c.desc+fmt(" wait(%d) returned with %d unfinished",th,u)); }
  p.wait(); for(int i=0;i<N;++i) if(runs[i].load()!=(drop?0:1) || eff[i]!=(drop?0:i*3+1)){ viol("bulk:not-once",c.desc+fmt(" task %d ran %d times%s",i,runs[i].load(),drop?" although cleared":"")); break; }
  count("bulk",N); count("tasks",N);
}
template<class Pool> void shut(Case& c,const char* nm,int policy){
  Rng& r=c.r; pt().level=r.range(0,2); int W=r.range(1,4),H=r.range(1,W); c.note(fmt("%s, %d workers, shut down while %d tasks run",nm,W,H)); c.add((uint64_t)(W*10+H)); c.add(r.s);
  std::shared_ptr<Ctx<Pool> > x(new Ctx<Pool>(200)); std::shared_ptr<Gate> g(new Gate); std::shared_ptr<std::atomic<int> > hs(new std::atomic<int>(0)); std::vector<int> pend; std::thread op; 
  { std::unique_ptr<Pool> p(new Pool(W)); x->pool=p.get(); p->size_controller().resize_active(H);
    for(int i=0;i<H;++i) Put<Pool>::go(*p,boost::function0<void>([g,hs]{ g->pass(); nap(200); ++*hs; }),9);
    g->reached(H); int n=r.range(0,20); std::shared_ptr<int> token(new int(0)); std::weak_ptr<int> queued(token);   // lives as long as a pending task exists
    for(int i=0;i<n;++i){ int q=x->log.fresh(); Put<Pool>::go(*p,boost::function0<void>([x,q,token]{ body<Pool>(x.get(),q); }),1); pend.push_back(q); }
    token.reset(); int d=r.range(0,3)*150;
    // a policy that drops pending tasks does so on its own: the running ones are let go only once that is seen (or it fails to happen)
    op=std::thread([g,d,queued,policy]{ if(policy==1){ double t=now(); while(!queued.expired() && now()-t<5) nap(50); } nap(d+100); g->open=true; });
  }
  if(policy!=2 && hs->load()!=H) viol(std::string(nm)+":active",c.desc+fmt(" shutdown returned with %d of %d running tasks finished",hs->load(),H));
  op.join();
  if(policy==2){ double t=now(); while(hs->load()<H && now()-t<15) nap(50); if(hs->load()!=H) viol(std::string(nm)+":active-lost",c.desc+" a running task never finished"); nap(2000); }
  int ran=0; for(int q: pend) ran+=x->log.r[q].starts.load(); if(policy==0) check_done(c,*x,pend,"shutdown"); else if(ran && policy==1) viol(std::string(nm)+":pending-ran",c.desc+fmt(" %d tasks ran although the policy drops pending ones",ran));
  for(int q: pend) if(x->log.r[q].starts.load()!=x->log.r[q].ends.load() && policy!=2) viol(std::string(nm)+":cut-off",c.desc);
  count("shutdowns"); pt().level=0;
}
static double wall(){ timespec t; clock_gettime(CLOCK_REALTIME,&t); return t.tv_sec+1e-9*t.tv_nsec; }
// a looped task takes turns until it declines, each preceded by at least the pause asked for (milliseconds)
static void loops(Case& c,const std::vector<unsigned>& pauses,int maxTurns){ Rng& r=c.r; pt().level=r.range(0,2); int K=r.range(1,maxTurns),W=r.range(1,3),T=r.range(1,4); c.note(fmt("%d looped tasks of %d turns on %d workers",T,K,W)); c.add((uint64_t)(K*100+W*10+T));
  struct L { std::atomic<int> n; unsigned pause; double t0; std::vector<double> at; L():n(0),pause(0),t0(0){} }; std::vector<L> ls(T); double slack=1e-3;
  { tp::fifo_pool p(W); for(int t=0;t<T;++t){ L* l=&ls[t]; l->pause=r.pick(pauses); l->at.reserve(K+1); l->t0=wall(); p.schedule(tp::looped_task_func(boost::function0<bool>([l,K]{ if((int)l->at.size()<=K) l->at.push_back(wall()); return ++l->n<K; }),l->pause)); } if(r.chance(.5)) p.wait(); }
  for(int t=0;t<T;++t){ L& l=ls[t]; if(l.n!=K){ viol("looped:turns",c.desc+fmt(" a looped task took %d turns",l.n.load())); continue; }
    double prev=l.t0; for(double a: l.at){ if(a-prev < l.pause*1e-3-slack){ viol("looped:pause",c.desc+fmt(" a turn came after %.6f s although the pause is %u ms",a-prev,l.pause)); break; } prev=a; count("looped-turns"); } }
  count("looped",T); pt().level=0; }
static void looped(Case& c){ loops(c,{0u,0u,0u,0u,0u,1u},20); }
static void looped_paused(Case& c){ loops(c,{1u,2u,3u,5u,10u,20u,50u},4); }
static void looped_long(Case& c){ loops(c,{999u,1000u,1001u,1100u},1); }
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard; int n= 400;
#define Q(P) group("solo-" #P,n,[](Case& c){ solo<tp::P>(c,#P); }); group("crowd-" #P,n/2,[](Case& c){ crowd<tp::P>(c,#P); }); group("steps-" #P,n/4,[](Case& c){ steps<tp::P>(c,#P); }); group("bulk-" #P,n/40,[](Case& c){ bulk<tp::P>(c,#P); }); group("clear-" #P,n,[](Case& c){ clearing<tp::P>(c,#P); }); group("shutdown-" #P,n/2,[](Case& c){ shut<tp::P>(c,#P,0); });
  Q(fifo_pool) Q(lifo_pool) Q(prio_pool)
  group("shutdown-active",n,[](Case& c){ shut<active_pool>(c,"wait_for_active_tasks",1); });
  group("shutdown-immediate",n/2,[](Case& c){ shut<now_pool>(c,"immediately",2); });
  group("looped",n/2,looped); group("looped-paused",n/8,looped_paused); group("looped-long",4,looped_long);
  count("perturbed-points",(long long)pt().points.load()); count("injected-delays",(long long)pt().delays.load()); count("spurious-wakeups",(long long)pt().spurious.load());
  return finish();
}
