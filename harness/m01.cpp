// M01: live blocks never overlap, keep their contents, and accounting is exact
#include "fields.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <list>
template<class T> struct Model {   // one pool lives as long as the process: so does its model
  struct B { T* p; size_t n; uint64_t key; };
  std::vector<B> live; std::map<char*,char*> span; std::set<T*> ever;
  static Model& self(){ static Model m; return m; }
};
template<class T> static T pat(uint64_t key,size_t i){ return (T)(vf::hcomb(key,i)%1000003); }
template<class T> struct Run {
  typedef Model<T> M; M& m; vf::Case& c; std::string log; bool ok; Pool<T>& p;
  Run(vf::Case& cc):m(M::self()),c(cc),ok(true),p(Pool<T>::self()){}
  void fail(const char* k,const std::string& d){ if(ok) vf::viol(k,c.desc+" | "+(log.size()>600?log.substr(log.size()-600):log)+" | "+d); ok=false; }
  bool intact(const typename M::B& b){ for(size_t i=0;i<b.n;++i) if(!vf::same_bits(b.p[i],pat<T>(b.key,i))){ fail("block:contents",vf::fmt("element %zu of a live block of %zu changed",i,b.n)); return false; } vf::count("elements",b.n); return true; }
  void counts(){
    if(p.active()!=m.live.size()) fail("count:active",vf::fmt("active %zu outstanding %zu",(size_t)p.active(),m.live.size()));
    if(p.total()!=m.ever.size()) fail("count:total",vf::fmt("total %zu created %zu",(size_t)p.total(),m.ever.size()));
  }
  void get(size_t n){
    size_t t0=p.total(); log+=vf::fmt(" +%zu",n); T* q=p.get(LOCAL_RAM,n); vf::count("requests");
    if(!q){ fail("get:null",""); return; }
    char* a=(char*)q; char* e=(char*)(q+n); 
    typename std::map<char*,char*>::iterator it=m.span.lower_bound(a);
    if(n>0){ if(it!=m.span.end() && it->first<e) fail("block:overlap",vf::fmt("block of %zu overlaps the next live block",n)); if(it!=m.span.begin()){ --it; if(it->second>a) fail("block:overlap",vf::fmt("block of %zu overlaps the previous live block",n)); } }
    else if(it!=m.span.end()&&it->first==a) fail("block:overlap","empty block handed out twice");
    bool known=m.ever.count(q); m.ever.insert(q); if(known) vf::count("reused"); else vf::count("created");
    if(p.total()!=t0+(known?0:1)) fail("count:total",vf::fmt("a %s block changed the total by %ld",known?"reused":"new",(long)(p.total()-t0)));
    m.span[a]= n>0? e : a+1;
    typename M::B b; b.p=q;b.n=n;b.key=c.r.next(); if(ok) for(size_t i=0;i<n;++i) q[i]=pat<T>(b.key,i);   // the sanitizer sees a block that is too small
    m.live.push_back(b); if(ok) counts();
  }
  void put(size_t i){
    typename M::B b=m.live[i]; log+=vf::fmt(" -%zu",b.n); if(!intact(b)) return; m.span.erase((char*)b.p); m.live[i]=m.live.back(); m.live.pop_back(); p.put(LOCAL_RAM,b.p); vf::count("returns"); counts();
  }
};
template<class T> static size_t size_(vf::Rng& r){ switch(r.range(0,6)){ case 0: return r.range(0,3); case 1: return r.range(1,12); case 2: return (size_t)1<<r.range(0,12); case 3: return ((size_t)1<<r.range(2,12))+r.range(-1,1); case 4: return r.range(1,5000); default: { static const int s[]={27,64,125,216,343,512,729,1000,100,110,121,99}; return s[r.range(0,11)]; } } }
template<class T> static void history(vf::Case& c,const char* nm){
  c.note(nm); Run<T> x(c); vf::Rng& r=c.r; int steps=vf::thorough()?400:120; int peak=r.range(1,40); double pget=0.6;
  for(int s=0;s<steps&&x.ok;++s){
    if(s%17==0) pget=r.real(0.2,0.8);
    if(x.m.live.empty() || (r.chance(pget)&&(int)x.m.live.size()<peak)){ size_t n=size_<T>(r); c.add((uint64_t)n); x.get(n); }
    else { size_t i= r.chance(0.4)? x.m.live.size()-1 : r.next()%x.m.live.size(); c.add((uint64_t)(77000+i)); x.put(i); }
    vf::count("steps");
  }
  for(size_t i=0;i<x.m.live.size()&&x.ok;++i) x.intact(x.m.live[i]);
  if(r.chance(0.5)) while(!x.m.live.empty()&&x.ok) x.put(r.next()%x.m.live.size());
  c.note(std::string(nm)+x.log.substr(0,150));
}
// repeating one balanced round of requests and returns must not keep creating blocks
template<class T> static void steady(vf::Case& c,const char* nm,bool large=false){
  c.note(nm); Run<T> x(c); vf::Rng& r=c.r; std::vector<long> plan; int live=0; int n= large? r.range(2,6) : r.range(2,30); size_t big[3]={(size_t)r.range(59000,72000),(size_t)r.range(120000,140000),(size_t)r.range(60000,300000)};
  std::vector<size_t> szs; for(int i=0;i<n;++i){ if(live==0||r.chance(0.6)){ size_t s= large? big[r.range(0,2)]+r.range(0,2) : 10+size_<T>(r); if(large) vf::count("large-requests"); plan.push_back((long)s); szs.push_back(s); ++live; c.add((uint64_t)s); } else { plan.push_back(-1); --live; } }
  size_t base=x.m.live.size(); size_t tot[5];
  for(int round=0;round<5&&x.ok;++round){
    for(long s: plan){ if(!x.ok) break; if(s>=0) x.get(s); else x.put(x.m.live.size()-1); }
    while(x.ok&&x.m.live.size()>base) x.put(x.m.live.size()-1);
    tot[round]=x.p.total(); vf::count("rounds");
  }
  if(x.ok&&(tot[4]!=tot[1])) x.fail("steady:growth",vf::fmt("totals after rounds %zu %zu %zu %zu %zu",tot[0],tot[1],tot[2],tot[3],tot[4]));
  c.note(std::string(nm)+x.log.substr(0,150));
}
// many blocks of few sizes, or of many sizes, outstanding at once, all returned, and asked for again
template<class T> static void crowd(vf::Case& c,const char* nm){
  Run<T> x(c); vf::Rng& r=c.r; size_t base=x.m.live.size(); int sizes= r.chance(0.5)? r.range(1,3) : r.range(50,400), n=r.range(60,1500); std::vector<size_t> sz; for(int i=0;i<sizes;++i) sz.push_back(r.chance(0.9)? (size_t)r.range(1,60) : size_<T>(r));
  c.note(vf::fmt("%s %d blocks of %d sizes",nm,n,sizes)); c.add((uint64_t)(n*1000+sizes)); c.add((uint64_t)sz[0]); size_t tot=0;
  for(int round=0;round<3&&x.ok;++round){
    for(int i=0;i<n&&x.ok;++i){ x.get(sz[i%sizes]); x.log.clear(); }
    int order=r.range(0,2); while(x.ok&&x.m.live.size()>base){ size_t k=x.m.live.size()-base; x.put(base+(order==0? k-1 : order==1? 0 : r.next()%k)); x.log.clear(); }
    if(round==1) tot=x.p.total(); if(round==2&&x.ok&&x.p.total()!=tot) x.fail("steady:growth",vf::fmt("a repeated round of %d requests and returns took the total from %zu to %zu",n,tot,(size_t)x.p.total()));
    vf::count("rounds"); }
}
// fields, masks and temporaries use the same pools: their live blocks must be disjoint too
template<class T> struct FieldOf; template<> struct FieldOf<double>{ typedef SVolField type; }; template<> struct FieldOf<float>{ typedef SpatialField<XSurfY,float> type; };
template<class T> static void users(vf::Case& c,const char* nm){
  typedef typename FieldOf<T>::type F; c.note(nm); vf::Rng& r=c.r; Pool<T>& p=Pool<T>::self(); size_t base=p.active(); Pool<unsigned>& pm=Pool<unsigned>::self(); size_t basem=pm.active();
  struct E { int kind; F* f; SpatFldPtr<F> t; SpatialMask<F>* m; T val; size_t n; std::vector<T> raw; };
  std::list<E> es; vf::DomOpt o; o.maxn=5; o.maxg=2; std::vector<vf::Lay> ls; for(int i=0;i<3;++i) ls.push_back(vf::make_lay<F>(r,vf::rand_dom(r,o),false));
  Run<T> x(c); size_t out=0,outm=0; bool ok=true;
  for(int s=0;s<40&&ok;++s){ vf::count("user-steps");
    if(es.size()<12&&r.chance(0.6)){ const vf::Lay& l=r.pick(ls); c.add(l.h()); es.push_back(E()); E& e=es.back(); e.f=0;e.m=0; e.val=(T)(s+1); e.kind=r.range(0,3); e.n=vf::npts(l.ext());
      MemoryWindow w(l.glob,l.off,l.ext()); BoundaryCellInfo b=BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]); GhostData g(l.gm,l.gp);
      if(e.kind==0){ e.f=new F(w,b,g,(T*)0,InternalStorage); ++out; for(size_t i=0;i<e.n;++i) e.f->field_values()[i]=e.val; }
      else if(e.kind==1){ e.t=SpatialFieldStore::get_from_window<F>(w,b,g); ++out; for(size_t i=0;i<e.n;++i) e.t->field_values()[i]=e.val; }
      else if(e.kind==2){ std::vector<IV> pts; std::vector<T> st(e.n); F proto(w,b,g,&st[0],ExternalStorage); e.m=new SpatialMask<F>(proto,pts); ++outm; }
      else { T* q=p.get(LOCAL_RAM,e.n); ++out; for(size_t i=0;i<e.n;++i) q[i]=e.val; e.raw.assign(1,(T)0); e.f=(F*)q; }
    } else if(!es.empty()){ int k=r.range(0,(int)es.size()-1); typename std::list<E>::iterator it=es.begin(); std::advance(it,k); E& e=*it;
      if(e.kind==0){ delete e.f; --out; } else if(e.kind==1){ --out; } else if(e.kind==2){ delete e.m; --outm; } else { p.put(LOCAL_RAM,(T*)e.f); --out; }
      es.erase(it); }
    for(E& e: es){ const T* q= e.kind==0? e.f->field_values() : e.kind==1? e.t->field_values() : e.kind==3? (T*)e.f : 0; if(q) for(size_t i=0;i<e.n;++i) if(q[i]!=e.val){ vf::viol("users:contents",vf::fmt("%s step %d: value %g where %g was written",nm,s,(double)q[i],(double)e.val)); ok=false; break; }
      if(e.kind==2){ const SpatialMask<F>& m=*e.m; typename SpatialMask<F>::const_iterator b=m.begin(); for(size_t i=0;i<e.n;++i,++b) if(*b){ vf::viol("users:mask",vf::fmt("%s step %d: empty mask has a set point",nm,s)); ok=false; break; } } }
    if(p.active()!=base+out){ vf::viol("users:active",vf::fmt("%s step %d: active %zu expected %zu",nm,s,(size_t)p.active(),base+out)); ok=false; }
    if(pm.active()!=basem+outm){ vf::viol("users:mask-active",vf::fmt("%s step %d: active %zu expected %zu",nm,s,(size_t)pm.active(),basem+outm)); ok=false; }
  }
  for(E& e: es){ if(e.kind==0) delete e.f; else if(e.kind==2) delete e.m; else if(e.kind==3) p.put(LOCAL_RAM,(T*)e.f); }
  es.clear();
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("double",150,[](vf::Case& c){ history<double>(c,"double"); });
  vf::group("float",150,[](vf::Case& c){ history<float>(c,"float"); });
  vf::group("word",150,[](vf::Case& c){ history<unsigned int>(c,"unsigned"); });
  vf::group("steady-double",150,[](vf::Case& c){ steady<double>(c,"double"); });
  vf::group("steady-word",80,[](vf::Case& c){ steady<unsigned int>(c,"unsigned"); });
  vf::group("steady-large-double",8,[](vf::Case& c){ steady<double>(c,"large double",true); });
  vf::group("steady-large-float",4,[](vf::Case& c){ steady<float>(c,"large float",true); });
  vf::group("crowd-double",10,[](vf::Case& c){ crowd<double>(c,"double"); });
  vf::group("crowd-float",6,[](vf::Case& c){ crowd<float>(c,"float"); });
  vf::group("crowd-word",6,[](vf::Case& c){ crowd<unsigned int>(c,"unsigned"); });
  // these add blocks the model does not know, so they come last
  vf::group("users-double",80,[](vf::Case& c){ users<double>(c,"SVolField"); });
  vf::group("users-float",80,[](vf::Case& c){ users<float>(c,"XSurfY float"); });
  return vf::finish();
}
