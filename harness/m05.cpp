// M05: concurrent use from several threads is free of data races and corruption
#include "fields.h"
#include "perturb.h"
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/MemoryPool.h>
#include <thread>
#include <list>
#include <sys/wait.h>
typedef SVolField FD; typedef SpatialField<XSurfY,float> FF;
struct Bar { std::atomic<int> n; explicit Bar(int k):n(k){} void wait(){ n.fetch_sub(1); while(n.load()>0) sched_yield(); } };
struct Shared { vf::Lay l; std::vector<double> mem; std::unique_ptr<FD> src; std::vector<IV> pts; std::unique_ptr<SpatialMask<FD> > mask; };
struct Sink { std::mutex m; std::vector<std::pair<std::string,std::string> > v; std::atomic<long> ops[12]; Sink(){ for(auto& o: ops) o=0; } void add(const char* k,const std::string& d){ std::lock_guard<std::mutex> g(m); if(v.size()<20) v.push_back(std::make_pair(std::string(k),d)); } };
template<class F> struct Mine { int kind; F* f; SpatFldPtr<F> p; SpatialMask<F>* m; std::vector<IV> pts; vf::Lay l; typename F::value_type v; size_t n; };
template<class F> static bool whole(const F& f,typename F::value_type v){ for(typename F::const_iterator it=f.begin();it!=f.end();++it) if(!(*it==v)) return false; return true; }
// what one thread does, with its own fields, masks and temporaries
template<class F> static void worker(uint64_t seed,int id,int steps,const Shared& sh,Sink& k,Bar& bar,int mixmask){
  typedef typename F::value_type T; vf::Rng r(seed); std::list<Mine<F> > own; vf::DomOpt o; o.maxn=5; o.maxg=2; std::vector<vf::Lay> ls; for(int i=0;i<3;++i) ls.push_back(vf::make_lay<F>(r,vf::rand_dom(r,o),false));
  T next=(T)(id*1000); bar.wait();
  auto check=[&](Mine<F>& e){
    if(e.kind==0&&!whole<F>(*e.f,e.v)) k.add("field:contents",vf::fmt("thread %d: a field of its own changed",id));
    if(e.kind==1&&!whole<F>(*e.p,e.v)) k.add("temporary:contents",vf::fmt("thread %d: a temporary of its own changed",id));
    if(e.kind==2){ for(int z=e.l.lo(2);z<e.l.hi(2);++z)for(int y=e.l.lo(1);y<e.l.hi(1);++y)for(int x=e.l.lo(0);x<e.l.hi(0);++x){ bool in=std::find(e.pts.begin(),e.pts.end(),IV(x,y,z))!=e.pts.end(); if((*e.m)(IV(x,y,z))!=in){ k.add("mask:contents",vf::fmt("thread %d: a mask of its own changed",id)); return; } } } };
  auto kill=[&](typename std::list<Mine<F> >::iterator it){ if(it->kind==0) delete it->f; if(it->kind==2) delete it->m; own.erase(it); };
  for(int s=0;s<steps;++s){
    int op=r.range(0,11); if(!((mixmask>>op)&1)) op=r.range(0,3); k.ops[op].fetch_add(1,std::memory_order_relaxed);
    const vf::Lay& l=r.pick(ls); MemoryWindow w(l.ext()); BoundaryCellInfo bc=BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]); GhostData g(l.gm,l.gp);
    if(own.size()>10) op=3;
    switch(op){
      case 0: case 1: { own.push_back(Mine<F>()); Mine<F>& e=own.back(); e.kind=op; e.f=0; e.m=0; e.l=l; e.v=++next; e.n=vf::npts(l.ext());
        if(op==0) e.f=new F(w,bc,g,(T*)0,InternalStorage); else e.p= r.chance(0.5)||own.size()<2||own.front().kind!=1? SpatialFieldStore::get_from_window<F>(w,bc,g) : SpatialFieldStore::get<F>(*own.front().p);
        F& f= op==0? *e.f : *e.p; for(typename F::iterator it=f.begin();it!=f.end();++it) *it=e.v; if(op==1){ SpatFldPtr<F> q=e.p, q2; q2=q; if(q2.count()!=3) k.add("temporary:count",vf::fmt("thread %d",id)); q.detach(); } break; }
      case 2: { own.push_back(Mine<F>()); Mine<F>& e=own.back(); e.kind=2; e.f=0; e.l=l; int np=r.range(0,6); for(int q=0;q<np;++q) e.pts.push_back(IV(r.range(l.lo(0),l.hi(0)-1),r.range(l.lo(1),l.hi(1)-1),r.range(l.lo(2),l.hi(2)-1)));
        F proto(w,bc,g,(T*)0,InternalStorage); e.m=new SpatialMask<F>(proto,e.pts); SpatialMask<F> cp(*e.m); (void)cp; break; }
      case 3: { if(own.empty()) break; int q=r.range(0,(int)own.size()-1); typename std::list<Mine<F> >::iterator it=own.begin(); std::advance(it,q); check(*it); kill(it); break; }
      case 4: case 5: { // an assignment to a destination of its own from a source of its own
        F a(w,bc,g,(T*)0,InternalStorage), b(w,bc,g,(T*)0,InternalStorage); T v=(T)r.range(1,50); int parts=r.range(1,9); b.set_partition_count(parts);
        a <<= v; b <<= a*2.0+1.0; if(!whole<F>(b,(T)(v*2.0+1.0))) k.add("assignment:value",vf::fmt("thread %d partitions %d",id,parts));
        b <<= cond(a>(T)25,b+1.0)(0.0); if(!whole<F>(b,(T)(v>25? (T)(v*2.0+1.0)+1.0 : 0.0))) k.add("assignment:cond",vf::fmt("thread %d",id));
        if(nebo_sum(a)!=(T)(v*vf::npts(l.ext()))) k.add("reduction:value",vf::fmt("thread %d: %g",id,(double)nebo_sum(a))); break; }
      case 6: case 7: { // from a source and a mask every thread reads
        SpatFldPtr<FD> d=SpatialFieldStore::get<FD>(*sh.src); const FD& src=*sh.src; d->set_partition_count(r.range(1,7));
        *d <<= src*3.0 - src; const FD& cd=*d; typename FD::const_iterator i=cd.begin(),j=src.begin(); for(;i!=cd.end();++i,++j) if(*i!=(*j)*3.0-(*j)){ k.add("shared-source:value",vf::fmt("thread %d",id)); break; }
        if(op==7){ *d <<= cond(*sh.mask,-1.0)(src); i=cd.begin(); j=src.begin(); SpatialMask<FD>::const_iterator m=sh.mask->begin(); for(long q=0;i!=cd.end();++i,++j,++m,++q) if(*i!=(*m?-1.0:*j)){ k.add("shared-mask:value",vf::fmt("thread %d",id)); break; } }
        break; }
      case 8: { int a=get_soft_thread_count(), b=get_hard_thread_count(); if(a<1||b<0) k.add("counts:value",vf::fmt("active %d hard %d",a,b)); if(ThreadPool::get_pool_size()<1) k.add("counts:value",""); (void)ThreadPool::get_pool_capacity(); (void)is_thread_parallel(); break; }
      case 9: { set_soft_thread_count(r.range(1,6)); if(r.chance(0.3)) ThreadPool::resize_pool(r.range(1,5)); break; }
      case 10: { set_hard_thread_count(r.range(1,5)); if(r.chance(0.3)) ThreadPool::set_pool_capacity(r.range(1,4)); break; }
      default: { size_t a=Pool<T>::self().active(), t=Pool<T>::self().total(); (void)a; (void)t; Pool<unsigned>::self().total(); T* q=Pool<T>::self().get(LOCAL_RAM,r.range(1,300)); q[0]=(T)id; sched_yield(); if(q[0]!=(T)id) k.add("block:contents",vf::fmt("thread %d",id)); Pool<T>::self().put(LOCAL_RAM,q); }
    }
    if(s%5==0) for(Mine<F>& e: own) check(e);
  }
  for(Mine<F>& e: own) check(e);
  while(!own.empty()) kill(own.begin());
}
static void share(vf::Rng& r,Shared& s){ vf::DomOpt o; o.maxn=6; s.l=vf::make_lay<FD>(r,vf::rand_dom(r,o),false); s.mem.resize(vf::npts(s.l.glob)); for(double& x: s.mem) x=r.range(-50,50); s.src.reset(new FD(MemoryWindow(s.l.ext()),BoundaryCellInfo::build<FD>(s.l.bc[0],s.l.bc[1],s.l.bc[2]),GhostData(s.l.gm,s.l.gp),&s.mem[0],ExternalStorage));
  int np=r.range(1,9); for(int q=0;q<np;++q) s.pts.push_back(IV(r.range(s.l.lo(0),s.l.hi(0)-1),r.range(s.l.lo(1),s.l.hi(1)-1),r.range(s.l.lo(2),s.l.hi(2)-1))); s.mask.reset(new SpatialMask<FD>(*s.src,s.pts)); }
static void run(vf::Rng& r,int nt,int steps,int mix,Sink& k,int lvl){
  Shared sh; share(r,sh); vf::pt().seed=r.next(); vf::pt().level=lvl; Bar bar(nt); std::vector<std::thread> th;
  for(int i=0;i<nt;++i){ uint64_t sd=r.next(); bool flt=r.chance(0.4); th.push_back(std::thread([=,&sh,&k,&bar](){ if(flt) worker<FF>(sd,i,steps,sh,k,bar,mix); else worker<FD>(sd,i,steps,sh,k,bar,mix); })); }
  for(auto& t: th) t.join(); vf::pt().level=0;
}
static void mixed(vf::Case& c){
  vf::Rng& r=c.r; int nt=r.range(2,6), steps=vf::thorough()?80:40, mix; switch(r.range(0,4)){ case 0: mix=0xfff; break; case 1: mix=0xf; break; case 2: mix=0x8f0|0xf; break; case 3: mix=0x70f; break; default: mix=0xff; }
  int lvl=r.range(0,3); c.add(r.next()); c.note(vf::fmt("%d threads, %d steps, mix %x, delays %d",nt,steps,mix,lvl));
  uint64_t d0=vf::pt().delays; Sink k; 
  { std::vector<size_t> b; b.push_back(Pool<double>::self().active()); b.push_back(Pool<float>::self().active()); b.push_back(Pool<unsigned>::self().active());
    run(r,nt,steps,mix,k,lvl);
    if(Pool<double>::self().active()!=b[0]||Pool<float>::self().active()!=b[1]||Pool<unsigned>::self().active()!=b[2]) vf::viol("pool:active",c.desc); }
  for(auto& v: k.v) vf::viol(v.first,c.desc+" "+v.second);
  static const char* nm[]={"own-fields","temporaries","masks","releases","assignments","assignments","shared-source","shared-mask","count-queries","limit-changes","capacity-changes","raw-blocks"};
  for(int i=0;i<12;++i) vf::count(nm[i],k.ops[i]); vf::count("injected-delays",vf::pt().delays-d0); vf::count("threads",nt);
  set_soft_thread_count(4); set_hard_thread_count(4); ThreadPool::resize_pool(4); ThreadPool::set_pool_capacity(4);
}
// the very first uses of the singletons, made by several threads at once: each case is its own
// process, started before this one has any thread
static void first(vf::Case& c){
  vf::Rng& r=c.r; int nt=r.range(2,6); int what=r.range(0,4); c.add(r.next()); c.note(vf::fmt("%d threads first use %d",nt,what)); fflush(stdout);
  pid_t p=fork();
  if(p==0){ alarm(60); Bar bar(nt); std::vector<std::thread> th; std::atomic<int> bad(0); 
    for(int i=0;i<nt;++i){ uint64_t sd=r.next(); th.push_back(std::thread([&,sd,i](){ vf::Rng q(sd); bar.wait(); int w= what==4? q.range(0,3) : what;
      switch(w){ case 0: if(get_soft_thread_count()!=4||get_hard_thread_count()!=4) ++bad; break;
        case 1: if(ThreadPool::get_pool_size()!=4||ThreadPool::get_pool_capacity()!=4) ++bad; break;
        case 2: { FD f(MemoryWindow(IV(3,3,3)),BoundaryCellInfo::build<FD>(),GhostData(0),(double*)0,InternalStorage); f<<=(double)i; if(!whole<FD>(f,(double)i)) ++bad; break; }
        default: { SpatFldPtr<FD> t=SpatialFieldStore::get_from_window<FD>(MemoryWindow(IV(4,3,2)),BoundaryCellInfo::build<FD>(),GhostData(0)); *t<<=(double)i; if(!whole<FD>(*t,(double)i)) ++bad; } } })); }
    for(auto& t: th) t.join(); _exit(bad? 41 : 0); }
  int st=0; waitpid(p,&st,0); vf::count("first-uses");
  if(WIFSIGNALED(st)) vf::viol(WTERMSIG(st)==SIGALRM?"first-use:hang":"first-use:crash",c.desc+vf::fmt(" signal %d",WTERMSIG(st)));
  else if(WEXITSTATUS(st)==41) vf::viol("first-use:value",c.desc);
  else if(WEXITSTATUS(st)!=0) vf::viol("first-use:report",c.desc+vf::fmt(" exit %d",WEXITSTATUS(st)));
}
// assignments of several threads in flight at once, with partitions of very different lengths:
// each must be complete when the statement returns, whatever the others do
template<class F> static void overlap_one(uint64_t seed,int id,int rounds,bool big,Sink& k,Bar& bar){
  vf::Rng r(seed); IV n= big? IV(r.range(12,20),r.range(12,20),r.range(12,20)) : IV(r.range(1,3),r.range(1,4),r.range(8,16)); MemoryWindow w(n); BoundaryCellInfo bc=BoundaryCellInfo::build<F>(); typedef typename F::value_type T;
  F a(w,bc,GhostData(0),(T*)0,InternalStorage), b(w,bc,GhostData(0),(T*)0,InternalStorage); int q=0; for(typename F::iterator i=a.begin();i!=a.end();++i) *i=(T)((q++%37)*0.25+0.5);
  bar.wait();
  for(int s=0;s<rounds;++s){ T v=(T)(id*1000+s+1); b.set_partition_count(r.range(2,9)); int form=r.range(0,2);
    if(form==0) b <<= (sin(a)*sin(a)+cos(a)*cos(a))*0.0+a+v; else if(form==1) b <<= cond(exp(a)<(T)0,sin(a))(pow(a,(T)3.0)<(T)0,cos(a))(a+v); else b <<= v+a;
    k.ops[form==0?4:5].fetch_add(1,std::memory_order_relaxed); typename F::const_iterator i=const_cast<const F&>(a).begin(),j=const_cast<const F&>(b).begin(); size_t wrong=0;
    // the far end first: the last partitions are the ones that may still be missing
    size_t np=(size_t)n[0]*n[1]*n[2]; for(size_t z=np;z-->0;) if(std::fabs((double)b[z]-(double)((T)(a[z]+v)))>1e-6*(double)v) ++wrong; (void)i;(void)j;
    if(wrong){ k.add("overlap:incomplete",vf::fmt("thread %d round %d: %zu of %zu cells do not hold the statement's value",id,s,wrong,np)); return; } }
}
static void overlap(vf::Case& c){
  vf::Rng& r=c.r; int nt=r.range(2,6), rounds=vf::thorough()?60:25, lvl=r.range(0,3); c.add(r.next()); c.note(vf::fmt("%d threads with %d overlapping assignments each, delays %d",nt,rounds,lvl));
  Sink k; vf::pt().seed=r.next(); vf::pt().level=lvl; int W=r.range(1,6); set_hard_thread_count(W); set_soft_thread_count(r.range(1,W)); Bar bar(nt); std::vector<std::thread> th;
  for(int i=0;i<nt;++i){ uint64_t sd=r.next(); bool big=i%2==0; bool one=r.chance(0.5); th.push_back(std::thread([=,&k,&bar](){ if(one) overlap_one<FD>(sd,i,rounds,big,k,bar); else overlap_one<SSurfZField>(sd,i,rounds,big,k,bar); })); }
  for(auto& t: th) t.join(); vf::pt().level=0; for(auto& v: k.v) vf::viol(v.first,c.desc+" "+v.second); vf::count("overlapping",k.ops[4]+k.ops[5]);
  set_hard_thread_count(4); set_soft_thread_count(4);
}
#include <csignal>
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("first-use",48,[](vf::Case& c){ first(c); });
  vf::group("overlap",60,[](vf::Case& c){ overlap(c); });
  vf::group("mixed",120,[](vf::Case& c){ mixed(c); });
  return vf::finish();
}
