// M03: counted field pointers keep a temporary alive exactly as long as needed
#include "fields.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <list>
#include <memory>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
// holders with static lifetime, constructed before the first use of the store and the pools:
// what they still hold at process exit is released after those are gone
template<class F> struct Late { SpatFldPtr<F> a,b; std::vector<SpatFldPtr<F> > v; std::unique_ptr<F> f; std::unique_ptr<SpatialMask<F> > m; };
static Late<SVolField> late1; static Late<SpatialField<ZSurfY,float> > late2; static Late<SingleValueField> late3;
template<class F> struct Hist {
  typedef typename F::value_type T; typedef SpatFldPtr<F> P;
  struct G { bool store; bool owned; int refs; T val; size_t n; T* mem; T* ext; F* addr; };   // one field
  std::vector<G> gs; std::list<P> ps; std::vector<int> of; std::vector<T*> exts; vf::Case& c; std::string log; size_t base; bool ok;
  Hist(vf::Case& cc):c(cc),base(Pool<T>::self().active()),ok(true){}
  P& at(int i){ typename std::list<P>::iterator it=ps.begin(); std::advance(it,i); return *it; }
  void fail(const char* k,const std::string& d){ if(ok) vf::viol(k,c.desc+" |"+(log.size()>700?log.substr(log.size()-700):log)+" | "+d); ok=false; }
  void drop(int g){ if(g>=0) --gs[g].refs; }
  int live(){ int n=0; for(G& g: gs) n+= g.refs>0 && (g.store||g.owned); return n; }
  void adopt(int g){ of.push_back(g); if(g>=0) ++gs[g].refs; }
  int fresh(bool store,bool owned,F* f,T* ext,size_t n){ G g; g.store=store; g.owned=owned; g.refs=0; g.val=(T)(gs.size()+1); g.n=n; g.ext=ext; g.addr=f; g.mem=f->field_values(); for(size_t i=0;i<n;++i) g.mem[i]=g.val; gs.push_back(g); return (int)gs.size()-1; }
  void check(){
    if(Pool<T>::self().active()!=base+live()){ fail("release:active",vf::fmt("active %zu expected %zu",(size_t)Pool<T>::self().active(),base+live())); return; }
    int i=0; for(typename std::list<P>::iterator it=ps.begin();it!=ps.end()&&ok;++it,++i){ int g=of[i]; const P& p=*it;
      if(p.isnull()!=(g<0)){ fail("pointer:null",vf::fmt("pointer %d isnull=%d, refers to %d",i,(int)p.isnull(),g)); return; }
      if(g<0) continue; G& q=gs[g];
      if(p.count()!=q.refs){ fail("pointer:count",vf::fmt("pointer %d reports %d uses, %d pointers refer to its field",i,p.count(),q.refs)); return; }
      if(&*p!=q.addr||p.operator->()!=q.addr||p->field_values()!=q.mem){ fail("pointer:target",vf::fmt("pointer %d",i)); return; }
      if(p.built_from_store()!=q.store){ fail("pointer:store-flag",vf::fmt("pointer %d says %d",i,(int)p.built_from_store())); return; }
      for(size_t k=0;k<q.n;++k) if(!vf::same_bits(q.mem[k],q.val)){ fail("field:contents",vf::fmt("pointer %d element %zu reads %g expected %g",i,k,(double)q.mem[k],(double)q.val)); return; }
      vf::count("elements",q.n); }
  }
  // a released field's caller-owned memory is still the caller's
  ~Hist(){ for(T* e: exts) delete[] e; }
};
template<class F> static void one(vf::Case& c,const char* nm,bool single=false){
  typedef Hist<F> H; typedef typename H::T T; typedef typename H::P P; vf::Rng& r=c.r; c.note(nm); H h(c);
  vf::DomOpt o; o.maxn=4; o.maxg=2; std::vector<vf::Lay> ls; for(int i=0;i<3;++i){ vf::Dom d=vf::rand_dom(r,o); if(single){ d.n=IV(1,1,1); d.gm=d.gp=d.bc=IV(0,0,0);} ls.push_back(vf::make_lay<F>(r,d,false)); c.add(ls.back().h()); }
  auto mk=[&](int& g)->P { const vf::Lay& l=r.pick(ls); h.log+="get "; P p=SpatialFieldStore::get_from_window<F>(MemoryWindow(l.glob,l.off,l.ext()),BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]),GhostData(l.gm,l.gp)); vf::count("temporaries");
    if(p.count()!=1) h.fail("pointer:count",vf::fmt("a new temporary reports %d uses",p.count())); g=h.fresh(true,true,&*p,0,vf::npts(l.ext())); return p; };
  auto raw=[&](int& g)->F* { const vf::Lay& l=r.pick(ls); bool own=r.chance(0.5); T* e=0; if(!own){ e=new T[vf::npts(l.ext())]; h.exts.push_back(e); }
    F* f=new F(MemoryWindow(l.glob,l.off,l.ext()),BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]),GhostData(l.gm,l.gp),e,own?InternalStorage:ExternalStorage); g=h.fresh(false,own,f,e,vf::npts(l.ext())); h.log+=own?"raw-own ":"raw-ext "; return f; };
  int steps=vf::thorough()?250:90;
  for(int s=0;s<steps&&h.ok;++s){
    int n=h.ps.size(), op=r.range(0,12); if(n==0) op=r.range(0,3); if(n>14) op=12; c.add((uint64_t)op);
    int i=n?r.range(0,n-1):0, j=n?r.range(0,n-1):0; int g=-1;
    switch(op){
      case 0: case 1: { P p=mk(g); h.ps.push_back(p); h.of.push_back(g); ++h.gs[g].refs; break; }     // p itself goes out of scope
      case 2: { F* f=raw(g); h.ps.push_back(P(f)); h.of.push_back(g); ++h.gs[g].refs; break; }
      case 3: { h.log+="empty "; h.ps.push_back(P()); h.of.push_back(-1); break; }
      case 4: case 5: { h.log+=vf::fmt("copy(%d:g%d) ",i,h.of[i]); h.ps.push_back(P(h.at(i))); h.adopt(h.of[i]); vf::count("copies"); break; }
      case 6: case 7: { h.log+=vf::fmt("%d:g%d=%d:g%d ",i,h.of[i],j,h.of[j]); P& x=(h.at(i)=h.at(j)); if(&x!=&h.at(i)) h.fail("assign:return",""); int t=h.of[j]; if(t>=0) ++h.gs[t].refs; h.drop(h.of[i]); h.of[i]=t; vf::count(i==j?"self-assigns":"assigns"); break; }
      case 8: { h.log+=vf::fmt("%d:g%d=",i,h.of[i]); P p=mk(g); h.at(i)=p; h.drop(h.of[i]); h.of[i]=g; ++h.gs[g].refs; break; }
      case 9: { h.log+=vf::fmt("%d:g%d=",i,h.of[i]); F* f=raw(g); h.at(i)=f; h.drop(h.of[i]); h.of[i]=g; ++h.gs[g].refs; vf::count("raw-assigns"); break; }
      case 10: { h.log+=vf::fmt("detach(%d:g%d) ",i,h.of[i]); h.at(i).detach(); if(r.chance(0.2)) h.at(i).detach(); h.drop(h.of[i]); h.of[i]=-1; vf::count("detaches"); break; }
      case 11: { int how=r.range(0,2); if(how==0){ h.log+=vf::fmt("%d:g%d=empty ",i,h.of[i]); h.at(i)=P(); h.drop(h.of[i]); h.of[i]=-1; vf::count("empty-assigns"); }
                 else if(how==1){ h.log+=vf::fmt("%d:g%d=NULL ",i,h.of[i]); h.at(i)=(F*)0; h.drop(h.of[i]); h.of[i]=-1; vf::count("empty-assigns"); }
                 else if(h.of[i]>=0){ typename H::G& q=h.gs[h.of[i]]; h.log+=vf::fmt("write(%d:g%d) ",i,h.of[i]); q.val=(T)(1000+s); F& f=*h.at(i); for(typename F::iterator it=f.begin();it!=f.end();++it) *it=q.val; } break; }
      default: { h.log+=vf::fmt("del(%d:g%d) ",i,h.of[i]); typename std::list<P>::iterator it=h.ps.begin(); std::advance(it,i); h.drop(h.of[i]); h.ps.erase(it); h.of.erase(h.of.begin()+i); vf::count("destroyed"); }
    }
    vf::count("steps"); if(h.ok) h.check();
  }
  while(h.ok&&!h.ps.empty()){ int i=r.range(0,(int)h.ps.size()-1); typename std::list<P>::iterator it=h.ps.begin(); std::advance(it,i); h.drop(h.of[i]); h.ps.erase(it); h.of.erase(h.of.begin()+i); h.check(); }
  h.ps.clear();
  if(h.ok&&Pool<T>::self().active()!=h.base) h.fail("end:active","");
  c.note(std::string(nm)+" "+h.log.substr(0,160));
}
// pointers passed and returned by value through calls, and held in containers that move them
template<class F> static SpatFldPtr<F> pass(SpatFldPtr<F> p,int depth,int base,bool& ok){ if(p.count()!=base+depth) ok=false; if(depth<5){ SpatFldPtr<F> q=p; SpatFldPtr<F> t=pass<F>(q,depth+2,base,ok); return t; } return p; }
template<class F> static void scopes(vf::Case& c){
  typedef typename F::value_type T; vf::Rng& r=c.r; size_t base=Pool<T>::self().active(); vf::DomOpt o; o.maxn=4; vf::Lay l=vf::make_lay<F>(r,vf::rand_dom(r,o),false); c.add(l.h()); int n=r.range(2,12); c.add((uint64_t)n);
  { std::vector<SpatFldPtr<F> > v; std::map<int,SpatFldPtr<F> > m;
    for(int i=0;i<n;++i){ SpatFldPtr<F> p=SpatialFieldStore::get_from_window<F>(MemoryWindow(l.glob,l.off,l.ext()),BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]),GhostData(l.gm,l.gp));
      for(long k=0;k<vf::npts(l.ext());++k) p->field_values()[k]=(T)i; v.push_back(p); m[i]=p; if(p.count()!=3) vf::viol("scope:count",vf::fmt("vector, map and local hold it, reported %d",p.count())); }
    if(Pool<T>::self().active()!=base+n) vf::viol("scope:active","");
    for(int i=0;i<n;++i) std::swap(v[r.range(0,n-1)],v[r.range(0,n-1)]);
    std::vector<SpatFldPtr<F> > v2(v); if(r.chance(0.5)) v.clear(); else v.resize(r.range(0,n));
    size_t kept=v.size(); 
    for(int i=0;i<n;++i){ bool ok=true; { SpatFldPtr<F>& p=m[i]; int b=p.count(); SpatFldPtr<F> q=pass<F>(p,1,b,ok); if(!ok||q.count()!=b+1||&*q!=&*p) vf::viol("scope:by-value",vf::fmt("counts along a chain of calls, before %d after %d",b,q.count())); }
      for(long k=0;k<vf::npts(l.ext());++k) if(m[i]->field_values()[k]!=(T)i){ vf::viol("scope:contents",""); break; } }
    int have=0; for(auto& p: v2) have+=p.count(); if(have!=(int)(2*n+kept)) vf::viol("scope:total-count",vf::fmt("sum %d expected %d",have,(int)(2*n+kept)));
    m.clear(); if(Pool<T>::self().active()!=base+n) vf::viol("scope:active","while a vector still holds them");
    vf::count("containers"); }
  if(Pool<T>::self().active()!=base) vf::viol("scope:leak",vf::fmt("active %zu was %zu",(size_t)Pool<T>::self().active(),base));
  c.note(vf::fmt("containers of %d",n));
}
// very many pointers to one temporary, and very many temporaries
template<class F> static void crowd(vf::Case& c){
  typedef typename F::value_type T; typedef SpatFldPtr<F> P; vf::Rng& r=c.r; size_t base=Pool<T>::self().active(); vf::DomOpt o; o.maxn=3; o.maxg=1; o.far=0; vf::Lay l=vf::make_lay<F>(r,vf::rand_dom(r,o),false);
  int n= r.chance(0.3)? r.range(30000,70000) : r.range(100,3000), k=r.range(1,r.chance(0.5)?3:300); c.add(l.h()); c.add((uint64_t)n); c.add((uint64_t)k); c.note(vf::fmt("%d pointers to %d temporaries",n,k));
  { std::vector<P> own; for(int i=0;i<k;++i){ own.push_back(SpatialFieldStore::get_from_window<F>(MemoryWindow(l.glob,l.off,l.ext()),BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]),GhostData(l.gm,l.gp))); for(long q=0;q<vf::npts(l.ext());++q) own[i]->field_values()[q]=(T)(i+1); }
    std::vector<int> cnt(k,1); std::list<std::pair<P,int> > ps; auto look=[&](const char* when){ for(int i=0;i<k;++i) if(own[i].count()!=cnt[i]){ vf::viol("crowd:count",c.desc+vf::fmt(" %s: temporary %d reports %d uses, %d pointers refer to it",when,i,own[i].count(),cnt[i])); return; }
      if(Pool<T>::self().active()!=base+k) vf::viol("crowd:active",c.desc+vf::fmt(" %s: active %zu expected %zu",when,(size_t)Pool<T>::self().active(),base+k));
      for(int i=0;i<k;++i) for(long q=0;q<vf::npts(l.ext());++q) if(own[i]->field_values()[q]!=(T)(i+1)){ vf::viol("crowd:contents",c.desc+vf::fmt(" %s: temporary %d",when,i)); return; } };
    for(int i=0;i<n;++i){ int t=r.range(0,k-1); ps.push_back(std::make_pair(P(own[t]),t)); ++cnt[t]; if((i&1023)==0||i==n-1) look("growing"); }
    for(int i=0;i<n/4;++i){ int t=r.range(0,k-1); std::pair<P,int> q=ps.front(); ps.pop_front(); q.first=own[t]; --cnt[q.second]; q.second=t; ++cnt[t]; ps.push_back(q); } look("after reassignment");
    for(int i=0;i<n;++i){ --cnt[ps.front().second]; if(i&1) ps.front().first.detach(); ps.pop_front(); if((i&1023)==0||i==n-1) look("shrinking"); }
    vf::count("crowd-pointers",n); }
  if(Pool<T>::self().active()!=base) vf::viol("crowd:leak",c.desc+vf::fmt(" active %zu was %zu",(size_t)Pool<T>::self().active(),base));
}
template<class F> static void keep(Late<F>& h,vf::Rng& r,bool single){
  typedef typename F::value_type T; IV n= single? IV(1,1,1) : IV(r.range(1,4),r.range(1,4),r.range(1,4)); MemoryWindow w(n); BoundaryCellInfo bc=BoundaryCellInfo::build<F>(); GhostData g(0);
  int what=r.range(0,31);
  if(what&1){ h.a=SpatialFieldStore::get_from_window<F>(w,bc,g); for(typename F::iterator i=h.a->begin();i!=h.a->end();++i) *i=(T)3; }
  if(what&2){ h.b= h.a.isnull()||r.chance(0.5)? SpatialFieldStore::get_from_window<F>(w,bc,g) : h.a; for(typename F::iterator i=h.b->begin();i!=h.b->end();++i) *i=(T)3; }
  if(what&4) for(int k=r.range(1,5);k>0;--k) h.v.push_back(r.chance(0.3)? SpatFldPtr<F>(new F(w,bc,g,(T*)0,InternalStorage)) : h.b.isnull()? SpatialFieldStore::get_from_window<F>(w,bc,g) : h.b);
  if(what&8) h.f.reset(new F(w,bc,g,(T*)0,InternalStorage));
  if(what&16){ F t(w,bc,g,(T*)0,InternalStorage); h.m.reset(new SpatialMask<F>(t,std::vector<IV>(1,IV(0,0,0)))); }
  if(!h.a.isnull()&&r.chance(0.5)){ *h.a <<= *h.a+(T)1.0; if(*h.a->begin()!=(T)4) _exit(41); }     // (with threads: the workers are alive at exit)
}
// each case is its own process, which leaves by exit() while statics still hold fields
static void leave(vf::Case& c){
  vf::Rng& r=c.r; uint64_t sd=r.next(); int which=r.range(1,7); c.add(sd); c.note(vf::fmt("exit holding %d",which)); fflush(stdout); fflush(stderr);
  pid_t p=fork();
  if(p==0){ alarm(60); vf::Rng q(sd); if(which&1) keep(late1,q,false); if(which&2) keep(late2,q,false); if(which&4) keep(late3,q,true);
    if(q.chance(0.3)){ if(q.chance(0.5)) late1.a.detach(); late2.v.clear(); late3.b=late3.a; }
    exit(0); }
  int st=0; waitpid(p,&st,0); vf::count("exits");
  if(WIFSIGNALED(st)) vf::viol(WTERMSIG(st)==SIGALRM?"exit:hang":"exit:crash",c.desc+vf::fmt(" signal %d",WTERMSIG(st)));
  else if(WEXITSTATUS(st)==41) vf::viol("exit:value",c.desc);
  else if(WEXITSTATUS(st)!=0) vf::viol("exit:report",c.desc+vf::fmt(" exit %d",WEXITSTATUS(st)));
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("exit",80,[](vf::Case& c){ leave(c); });
  vf::group("svol",700,[](vf::Case& c){ one<SVolField>(c,"SVol"); });
  vf::group("float",500,[](vf::Case& c){ one<SpatialField<ZSurfY,float> >(c,"ZSurfY float"); });
  vf::group("single",300,[](vf::Case& c){ one<SingleValueField>(c,"SingleValue",true); });
  vf::group("crowd",24,[](vf::Case& c){ crowd<SVolField>(c); });
  vf::group("scopes",300,[](vf::Case& c){ scopes<XVolField>(c); });
  return vf::finish();
}
