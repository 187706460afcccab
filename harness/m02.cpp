// M02: a failed allocation is reported and leaves the pools as if it had never been asked for
#include <new>
#include <cstdlib>
// every allocation of the process goes through here; while armed, the k-th fails
namespace inj { static long armed=-1, seen=0, live=0; static bool on=false; static size_t cap=(size_t)1<<28; static bool failed=false;
  static void* get(size_t n){ if(on){ ++seen; if(n>cap || (armed>=0 && seen-1==armed)){ failed=true; throw std::bad_alloc(); } ++live; } else { if(n>((size_t)1<<32)) throw std::bad_alloc(); } void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
  static void put(void* p){ if(p&&on) --live; std::free(p); }
}
void* operator new(size_t n){ return inj::get(n); }
void* operator new[](size_t n){ return inj::get(n); }
void operator delete(void* p) noexcept { inj::put(p); }
void operator delete[](void* p) noexcept { inj::put(p); }
void operator delete(void* p,size_t) noexcept { inj::put(p); }
void operator delete[](void* p,size_t) noexcept { inj::put(p); }
#include "fields.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <list>
typedef SVolField FD; typedef SpatialField<YSurfX,float> FF;
struct Out { int kind; double* d; float* f; unsigned* u; FD* fd; FF* ff; SpatFldPtr<FD> td; SpatFldPtr<FF> tf; SpatialMask<FD>* md; size_t n; double val; std::vector<IV> pts; vf::Lay l;
  Out():kind(0),d(0),f(0),u(0),fd(0),ff(0),md(0),n(0),val(0){} };
struct Snap { size_t a[3],t[3]; bool operator==(const Snap& o) const { for(int i=0;i<3;++i) if(a[i]!=o.a[i]||t[i]!=o.t[i]) return false; return true; }
  std::string s() const { return vf::fmt("active %zu/%zu/%zu total %zu/%zu/%zu",a[0],a[1],a[2],t[0],t[1],t[2]); } };
static Snap snap(){ Snap s; s.a[0]=Pool<double>::self().active(); s.a[1]=Pool<float>::self().active(); s.a[2]=Pool<unsigned>::self().active(); s.t[0]=Pool<double>::self().total(); s.t[1]=Pool<float>::self().total(); s.t[2]=Pool<unsigned>::self().total(); return s; }
template<class T> static void paint(T* p,size_t n,double v){ for(size_t i=0;i<n;++i) p[i]=(T)v; }
template<class T> static bool still(const T* p,size_t n,double v){ for(size_t i=0;i<n;++i) if(p[i]!=(T)v) return false; return true; }
static const char* KIND[]={"double-block","float-block","word-block","double-field","float-field","double-temporary","float-temporary","mask","temporary-of-prototype","mask-copy"};
static void count_kept(){ vf::count("repeated"); }
static void one(vf::Case& c){
  vf::Rng& r=c.r; std::list<Out> outs; std::string log; vf::DomOpt o; o.maxn=6; o.maxg=2; bool ok=true;
  std::vector<vf::Lay> ls; for(int i=0;i<3;++i){ ls.push_back(vf::make_lay<FD>(r,vf::rand_dom(r,o),false)); c.add(ls.back().h()); }
  auto fail=[&](const char* k,const std::string& d){ if(ok) vf::viol(k,log.substr(log.size()>400?log.size()-400:0)+" | "+d); ok=false; };
  auto alive=[&](){ for(Out& e: outs){ bool good=true; switch(e.kind){
      case 0: good=still(e.d,e.n,e.val); break; case 1: good=still(e.f,e.n,e.val); break; case 2: good=still(e.u,e.n,e.val); break;
      case 3: good=still(e.fd->field_values(),e.n,e.val); break; case 4: good=still(e.ff->field_values(),e.n,e.val); break;
      case 5: case 8: good=still(e.td->field_values(),e.n,e.val); break; case 6: good=still(e.tf->field_values(),e.n,e.val); break;
      case 7: case 9: { const vf::Lay& l=e.l; for(int k=l.lo(2);k<l.hi(2);++k)for(int j=l.lo(1);j<l.hi(1);++j)for(int i=l.lo(0);i<l.hi(0);++i){ bool in=std::find(e.pts.begin(),e.pts.end(),IV(i,j,k))!=e.pts.end(); if((*e.md)(IV(i,j,k))!=in) good=false; } break; } }
      if(!good) fail("outstanding:contents",vf::fmt("an outstanding %s changed",KIND[e.kind])); } };
  auto lay=[&](bool flt){ vf::Lay l=r.pick(ls); if(flt){ IV x=FF::Location::BCExtra::int_vec(); for(int i=0;i<3;++i){ l.ex[i]=(l.bc[i]&&l.n[i]>1)?x[i]:0; l.glob[i]=l.d(i);} } return l; };
  int steps=vf::thorough()?120:60; bool huge_ok=true;
  for(int s=0;s<steps&&ok;++s){
    if(!outs.empty()&&(outs.size()>14||r.chance(0.35))){ int k=r.range(0,(int)outs.size()-1); std::list<Out>::iterator it=outs.begin(); std::advance(it,k); Out& e=*it; Snap b=snap(); int w=-1; log+=vf::fmt(" -%s",KIND[e.kind]);
      switch(e.kind){ case 0: Pool<double>::self().put(LOCAL_RAM,e.d); w=0; break; case 1: Pool<float>::self().put(LOCAL_RAM,e.f); w=1; break; case 2: Pool<unsigned>::self().put(LOCAL_RAM,e.u); w=2; break;
        case 3: delete e.fd; w=0; break; case 4: delete e.ff; w=1; break; case 5: case 8: e.td.detach(); w=0; break; case 6: e.tf.detach(); w=1; break; default: delete e.md; w=2; }
      b.a[w]-=1; if(!(snap()==b)) fail("release:counts",std::string(KIND[e.kind])+" "+snap().s()+" expected "+b.s()); outs.erase(it); continue; }
    Out e; e.l=ls[0]; e.kind=r.range(0,9); e.val=1+r.range(0,900); c.add((uint64_t)e.kind);
    FD* proto=0; SpatialMask<FD>* pm=0;
    if(e.kind==8){ for(Out& q: outs) if(q.kind==3) proto=q.fd; if(!proto) e.kind=5; else { for(Out& q: outs) if(q.fd==proto){ e.l=q.l; } } }
    if(e.kind==9){ for(Out& q: outs) if(q.kind==7){ pm=q.md; e.pts=q.pts; e.l=q.l; } if(!pm) e.kind=0; }
    bool huge = e.kind<=2 && r.chance(0.25);
    if(e.kind<=2) e.n= huge? (size_t)r.range(100000000,120000000) : r.range(0,600);
    else if(e.kind<=7){ e.l=lay(e.kind==4||e.kind==6); }
    if(e.kind>=3) e.n=vf::npts(e.l.glob);
    MemoryWindow w(e.l.glob,e.l.off,e.l.ext()); GhostData g(e.l.gm,e.l.gp);
    BoundaryCellInfo bd=BoundaryCellInfo::build<FD>(e.l.bc[0],e.l.bc[1],e.l.bc[2]), bf=BoundaryCellInfo::build<FF>(e.l.bc[0],e.l.bc[1],e.l.bc[2]);
    std::vector<double> store; std::unique_ptr<FD> pf;
    if(e.kind==7){ store.resize(e.n); pf.reset(new FD(w,bd,g,&store[0],ExternalStorage)); int np=r.range(0,5); const vf::Lay& l=e.l; for(int q=0;q<np;++q) e.pts.push_back(IV(r.range(l.lo(0),l.hi(0)-1),r.range(l.lo(1),l.hi(1)-1),r.range(l.lo(2),l.hi(2)-1))); }
    log+=vf::fmt(" +%s(%zu)",KIND[e.kind],e.n);
    auto acquire=[&](){
      switch(e.kind){
        case 0: e.d=Pool<double>::self().get(LOCAL_RAM,e.n); break; case 1: e.f=Pool<float>::self().get(LOCAL_RAM,e.n); break; case 2: e.u=Pool<unsigned>::self().get(LOCAL_RAM,e.n); break;
        case 3: e.fd=new FD(w,bd,g,(double*)0,InternalStorage); break; case 4: e.ff=new FF(w,bf,g,(float*)0,InternalStorage); break;
        case 5: e.td=SpatialFieldStore::get_from_window<FD>(w,bd,g); break; case 6: e.tf=SpatialFieldStore::get_from_window<FF>(w,bf,g); break;
        case 7: e.md=new SpatialMask<FD>(*pf,e.pts); break; case 8: e.td=SpatialFieldStore::get<FD>(*proto); break; case 9: e.md=new SpatialMask<FD>(*pm); break; } };
    // fail every allocation of the request in turn, from the first on, then let it through
    bool done=false, redo=false; int tries=0, kept=0;
    for(long k= r.chance(0.8)?0:-1; !done&&ok; k= (redo? k : k<0? -2 : k+1)){ redo=false;
      if(k==-2) break;
      Snap b=snap(); inj::armed=k; inj::seen=0; inj::live=0; inj::failed=false; inj::cap=(size_t)1<<26; bool threw=false, right=false; inj::on=true;
      try { acquire(); } catch(const std::bad_alloc&){ threw=true; right=true; } catch(...){ threw=true; }
      inj::on=false; ++tries;
      if(inj::failed){ vf::count("failures"); vf::count(std::string("failed:")+KIND[e.kind]);
        if(!threw) fail("failure:not-reported",vf::fmt("allocation %ld failed and the request returned",k));
        else if(!right) fail("failure:wrong-exception",vf::fmt("allocation %ld failed",k));
        Snap a=snap();
        // a block created on the way may stay in the pool for later use, and so may what is set up on
        // first use; a request that loses a block does so every time
        if(a==b && inj::live>0 && kept<2){ ++kept; redo=true; count_kept(); continue; }
        if(a==b && inj::live!=0) fail("failure:leak",vf::fmt("%s, allocation %ld failed: %ld blocks kept",KIND[e.kind],k,inj::live));
        // a block whose creation succeeded may stay in the pool for later, but nothing may count as handed out
        if(a.a[0]!=b.a[0]||a.a[1]!=b.a[1]||a.a[2]!=b.a[2]) fail("failure:active",vf::fmt("%s, allocation %ld failed: ",KIND[e.kind],k)+a.s()+" was "+b.s());
        else if(e.kind<=2 && !(a==b)) fail("failure:total",vf::fmt("%s, allocation %ld failed: ",KIND[e.kind],k)+a.s()+" was "+b.s());
        alive();
        if(huge) break;
        kept=0;
      } else { if(threw){ fail("no-failure:threw","a request threw though no allocation failed"); break; } done=true; }
      if(tries>60){ fail("harness:endless",""); break; }
    }
    if(!done) { if(!huge) log+="(gave up)"; vf::count("abandoned"); }
    else {
      int pi= (e.kind==1||e.kind==4||e.kind==6)?1 : (e.kind==2||e.kind==7||e.kind==9)?2 : 0; (void)pi;
      if(e.kind==0) paint(e.d,e.n,e.val); else if(e.kind==1) paint(e.f,e.n,e.val); else if(e.kind==2) paint(e.u,e.n,e.val); else if(e.kind==3) paint(e.fd->field_values(),e.n,e.val); else if(e.kind==4) paint(e.ff->field_values(),e.n,e.val);
      else if(e.kind==5||e.kind==8){ e.n=vf::npts(e.td->window_with_ghost().extent()); paint(e.td->field_values(),e.n,e.val); } else if(e.kind==6) paint(e.tf->field_values(),e.n,e.val);
      if(e.kind==9){ delete e.md; vf::count("granted"); alive(); vf::count("steps"); continue; }   // a copied mask is a view of the original's
      outs.push_back(e); e.td.detach(); e.tf.detach(); vf::count("granted"); alive(); }
    vf::count("steps");
  }
  for(Out& e: outs) switch(e.kind){ case 0: Pool<double>::self().put(LOCAL_RAM,e.d); break; case 1: Pool<float>::self().put(LOCAL_RAM,e.f); break; case 2: Pool<unsigned>::self().put(LOCAL_RAM,e.u); break; case 3: delete e.fd; break; case 4: delete e.ff; break; case 7: case 9: delete e.md; break; }
  outs.clear(); Snap z=snap(); if(ok&&(z.a[0]||z.a[1]||z.a[2])) fail("end:active",z.s());
  c.note(log.substr(0,200));
}
// requests after a failed one are served exactly as in a run in which it was never made: two
// forked copies of the process, one of which fails a request first, must report the same results
#include <sys/wait.h>
template<class T> static std::string trail(vf::Rng r,bool withfail,size_t bad,long k){
  Pool<T>& p=Pool<T>::self(); std::vector<T*> l; std::string s; std::map<T*,int> name; int steps=40, at=r.range(0,39);
  for(int i=0;i<steps;++i){
    if(i==at&&withfail){ inj::armed=k; inj::seen=0; inj::failed=false; inj::cap=(size_t)1<<26; inj::on=true; T* q=0; try{ q=p.get(LOCAL_RAM,bad); }catch(...){} inj::on=false; if(!inj::failed){ return "served"; } }
    if(l.empty()||r.chance(0.6)){ size_t n=r.chance(0.2)?r.range(0,9):r.range(1,800); T* q=p.get(LOCAL_RAM,n); if(!name.count(q)){ int id=name.size(); name[q]=id; } s+=vf::fmt("+%d ",name[q]); for(size_t j=0;j<n;++j) q[j]=(T)i; l.push_back(q); }
    else { size_t j=r.next()%l.size(); p.put(LOCAL_RAM,l[j]); l.erase(l.begin()+j); s+="- "; }
    s+=vf::fmt("(%zu/%zu) ",(size_t)p.active(),(size_t)p.total());
  }
  return s;
}
template<class T> static std::string in_child(vf::Rng r,bool wf,size_t bad,long k){
  int fd[2]; if(pipe(fd)) return "pipe"; fflush(stdout); pid_t pid=fork();
  if(pid==0){ close(fd[0]); std::string s=trail<T>(r,wf,bad,k); ssize_t u=write(fd[1],s.data(),s.size()); (void)u; _exit(0); }
  close(fd[1]); std::string s; char b[4096]; ssize_t n; while((n=read(fd[0],b,sizeof b))>0) s.append(b,n); close(fd[0]); int st=0; waitpid(pid,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)) s+="[died]"; return s;
}
template<class T> static void twin(vf::Case& c){
  uint64_t seed=c.r.next(); c.add(seed); size_t bad= c.r.chance(0.5)? c.r.range(1000,4000) : c.r.range(100000000,200000000); 
  std::string ref=in_child<T>(vf::Rng(seed),false,bad,0); if(ref.find("[died]")!=std::string::npos) vf::viol("twin:died","without a failure: "+ref.substr(0,500));
  for(long k=0;k<12;++k){ std::string got=in_child<T>(vf::Rng(seed),true,bad,k); if(got=="served") break; vf::count("twins");
    if(got!=ref){ size_t q=0; while(q<got.size()&&q<ref.size()&&got[q]==ref[q]) ++q; vf::viol("twin:differs",vf::fmt("request of %zu with allocation %ld failing; afterwards ",bad,k)+got.substr(q>30?q-30:0,100)+" instead of "+ref.substr(q>30?q-30:0,100)); break; } }
  c.note(vf::fmt("twin request of %zu",bad));
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  // before anything else, so that the children start from unused pools
  vf::group("twin-double",60,[](vf::Case& c){ twin<double>(c); });
  vf::group("twin-word",40,[](vf::Case& c){ twin<unsigned>(c); });
  vf::group("inject",160,[](vf::Case& c){ one(c); });
  return vf::finish();
}
