// N07: invalid use is reported by an exception before anything is changed, and the
// objects involved stay usable.
#include "grid.h"
#include <spatialops/structured/MemoryPool.h>
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/FieldComparisons.h>
using namespace vf;
template<class Fn> static bool throws(Fn fn){ try{ fn(); }catch(const std::runtime_error&){ count("rejections"); return true; } return false; }
template<class F> static void lay(Rng& r,Blk<F>& x,const Dom& d,bool embed,double v){ x.make(make_lay<F>(r,d,embed)); x.each([&](int i,int j,int k){ x.at(i,j,k)=(typename F::value_type)(v+r.range(0,50)); }); x.snap(); }
static const MemoryType BADT[]={LOCAL_VECTOR_INST,EXTERNAL_CUDA_GPU,EXTERNAL_OPENCL_GPU,EXTERNAL_INTEL_MIK,DEBUG_TEST_OPT,UNKNOWN};

// --- two fields of different windows --------------------------------------
template<class F> static void sizes(Case& c,const char* nm){
  Rng& r=c.r; Dom d=rand_dom(r), e=d; bool same=r.chance(0.2);
  Blk<F> a,b; bool ea=r.chance(0.4); lay(r,a,d,ea,100);
  if(same){ b.make(a.l); b.each([&](int i,int j,int k){ b.at(i,j,k)=r.range(0,50); }); b.snap(); }
  else { int how=r.range(0,3),t=r.range(0,2);
    if(how==0){ e.n[t]+=r.range(1,3); } else if(how==1){ if(e.n[t]==1) e.n[t]=2; e.gp[t]+=1; } else if(how==2) e=rand_dom(r); else { std::swap(e.n[0],e.n[2]); std::swap(e.gm[0],e.gm[2]); std::swap(e.gp[0],e.gp[2]); std::swap(e.bc[0],e.bc[2]); }
    lay(r,b,e,how==2? r.chance(0.4):ea,300); }
  c.note(std::string(nm)+" a "+a.l.s()+" b "+b.l.s()); c.add(hstr(nm)); c.add(a.l.h()); c.add(b.l.h());
  bool eq=a.l.ext()==b.l.ext()&&a.l.off==b.l.off&&a.l.glob==b.l.glob; c.nontrivial=!eq;
  F &A=*a.f,&B=*b.f; const F &cA=A,&cB=B;
  auto cmp=[&](const char* w,bool th){ if(th==eq) viol(std::string("sizes:")+w,c.desc+(eq?" was rejected although the windows agree":" was accepted although the windows differ"));
    std::string why; if(!a.unchanged()||!b.unchanged()) viol(std::string("sizes:")+w+":changed",c.desc); };
  double er=r.chance(0.5)?0.0:0.1;
  cmp("field_equal",throws([&]{ field_equal(cA,cB,er); })); cmp("field_not_equal",throws([&]{ field_not_equal(cA,cB,er); }));
  cmp("field_equal-abs-term",throws([&]{ field_equal(cA,cB,er,0.5); }));
  cmp("field_equal_abs",throws([&]{ field_equal_abs(cA,cB,er); })); cmp("field_not_equal_abs",throws([&]{ field_not_equal_abs(cA,cB,er); }));
  cmp("field_equal_ulp",throws([&]{ field_equal_ulp(cA,cB,2); })); cmp("field_not_equal_ulp",throws([&]{ field_not_equal_ulp(cA,cB,2); }));
  if(!eq){ cmp("assign",throws([&]{ A=cB; })); cmp("assign",throws([&]{ B=cA; }));
    // a copied view and an owned copy reject just the same
    { F v(A); cmp("assign-view",throws([&]{ v=cB; })); } count("size-mismatches"); }
  // everything is still usable
  { Blk<F> q; q.make(a.l); *q.f=cA; for(size_t i=0;i<npts(a.l.glob);++i) if(!same_bits(q.mem[i],a.mem[i])){ viol("sizes:after",c.desc+" a valid copy after the rejections differs"); break; }
    if(throws([&]{ if(!field_equal(cA,*q.f,0.0)) viol("sizes:after-compare",c.desc); })) viol("sizes:after-compare",c.desc+" threw"); }
  A<<=B.begin()==B.end()?0.0:7.0; bool ok=true; a.each([&](int i,int j,int k){ ok=ok&&a.at(i,j,k)==7; }); if(!ok) viol("sizes:after-write",c.desc);
  if(!b.unchanged()) viol("sizes:changed",c.desc);
}

// --- iterators outside their window ----------------------------------------
template<class It> static void probe(Case& c,const char* what,It it,long n,Rng& r,std::function<double(It&)> rd,std::function<double(It&,int)> sub){
  // every position from well before to well after, reached in one jump and by single steps
  for(int q=0;q<24;++q){ long p= q<4? (q==0?-1: q==1? n: q==2? n+1: 0) : q<8? n-1-(q-4) : r.range(-8,(int)n+8); if(q>16) p=r.chance(0.5)? -r.range(1,(int)n+3): n+r.range(0,(int)n+3);
    if(p<0&&n==0) continue; bool out=p<0||p>=n; 
    { It x=it; x+=(int)p; if(throws([&]{ rd(x); })!=out) viol(std::string("iter:")+what,c.desc+fmt(" %s at position %ld of %ld was %s",what,p,n,out?"accepted":"rejected")); 
      It y=x; y-=(int)p; if(n>0 && throws([&]{ rd(y); })) viol(std::string("iter:")+what+":back",c.desc+fmt(" back from %ld",p)); }
    { It x=it; long m=std::labs(p); if(m<400){ for(long i=0;i<m;++i){ if(p>0) ++x; else --x; } if(throws([&]{ rd(x); })!=out) viol(std::string("iter:")+what+":steps",c.desc+fmt(" %s stepped to position %ld of %ld was %s",what,p,n,out?"accepted":"rejected")); } }
    if(sub){ It x=it; if(throws([&]{ sub(x,(int)p); })!=out) viol(std::string("iter:")+what+":subscript",c.desc+fmt(" [%ld] of %ld",p,n)); }
    count(out?"outside":"inside"); }
}
template<class F> static void iters(Case& c,const char* nm){
  Rng& r=c.r; Dom d=rand_dom(r); Blk<F> a; lay(r,a,d,r.chance(0.5),100); c.note(std::string(nm)+" "+a.l.s()); c.add(hstr(nm)); c.add(a.l.h());
  F& A=*a.f; const F& cA=A; long n=npts(a.l.ext()); IV in; long ni=1; for(int t=0;t<3;++t){ ni*= a.l.d(t)>1? a.l.d(t)-a.l.gm[t]-a.l.gp[t]:1; }
  typedef typename F::iterator I; typedef typename F::const_iterator C;
  probe<I>(c,"iterator",A.begin(),n,r,[](I& x){ return (double)*x; },[](I& x,int p){ return (double)x[p]; });
  probe<C>(c,"const_iterator",cA.begin(),n,r,[](C& x){ return (double)*x; },[](C& x,int p){ return (double)x[p]; });
  if(ni>0){ probe<I>(c,"interior iterator",A.interior_begin(),ni,r,[](I& x){ return (double)*x; },nullptr);
    probe<C>(c,"const interior iterator",cA.interior_begin(),ni,r,[](C& x){ return (double)*x; },nullptr); }
  { I x=A.end(); const I& cx=x; if(!throws([&]{ *x; })||!throws([&]{ *cx; })) viol("iter:end",c.desc); C y=cA.end(); if(!throws([&]{ *y; })) viol("iter:end",c.desc);
    // writing through an iterator that left the window must not reach memory
    I w=A.begin(); w+=r.chance(0.5)? (int)n+r.range(0,3): -r.range(1,3); if(!throws([&]{ *w=(typename F::value_type)-1; })) viol("iter:write",c.desc); }
  if(!a.unchanged()) viol("iter:changed",c.desc);
}
static void maskiters(Case& c){
  Rng& r=c.r; Dom d=rand_dom(r); Blk<SVolField> a; Lay l=make_lay<SVolField>(r,d,false); a.make(l); c.note("mask "+l.s()); c.add(l.h());
  std::vector<IV> pts; int m=r.range(0,12); for(int i=0;i<m;++i){ IV q; for(int t=0;t<3;++t) q[t]=r.range(l.lo(t),l.hi(t)-1); pts.push_back(q); }
  SpatialMask<SVolField> k(*a.f,pts); typedef SpatialMask<SVolField>::const_iterator I; long n=npts(l.ext());
  probe<I>(c,"mask iterator",k.begin(),n,r,[](I& x){ return (double)*x; },[](I& x,int p){ return (double)x[p]; });
  { I x=k.end(); if(!throws([&]{ *x; })) viol("iter:end",c.desc+" mask"); }
  auto pat=[&](){ std::string s; for(I x=k.begin();x!=k.end();++x) s+=*x?'1':'0'; return s; }; std::string p0=pat();
  for(MemoryType t: BADT){ if(!throws([&]{ k.mask_values(t,0); })) viol("mask:values",c.desc+fmt(" type %d",(int)t)); if(!throws([&]{ k.add_consumer(t,0); })) viol("mask:add-consumer",c.desc); if(!throws([&]{ k.find_consumer(t,0); })) viol("mask:find-consumer",c.desc); }
  if(!k.mask_values()||!k.find_consumer(LOCAL_RAM,0)) viol("mask:after",c.desc); k.add_consumer(LOCAL_RAM,0); if(pat()!=p0) viol("mask:changed",c.desc); k.has_consumers();
  *a.f <<= cond(k,2.0)(1.0); bool ok=true; std::set<std::vector<int> > S; for(auto& q: pts) S.insert({q[0],q[1],q[2]}); a.each([&](int i,int j,int q){ ok=ok&&a.at(i,j,q)==(S.count({i,j,q})?2:1); }); if(!ok) viol("mask:after-use",c.desc);
}

// --- views that cut the interior --------------------------------------------
template<class F> static void views(Case& c,const char* nm){
  Rng& r=c.r; Dom d=rand_dom(r); Blk<F> a; lay(r,a,d,r.chance(0.4),100); const Lay& l=a.l; F& A=*a.f;
  IV o=l.off,e=l.ext(); bool cut=false; int mode=r.range(0,2); // 0: only ghosts, 1: one direction into the interior, 2: anything
  IV ilo,ihi; for(int t=0;t<3;++t){ bool col=e[t]==1; ilo[t]=l.off[t]+(col?0:l.gm[t]); ihi[t]=ilo[t]+(col?1:e[t]-l.gm[t]-l.gp[t]); }
  int hit=r.range(0,2);
  for(int t=0;t<3;++t){ int lo=0,hi=0; if(mode==2){ lo=r.range(0,e[t]-1); hi=r.range(0,e[t]-1-lo); } else { lo=r.range(0,ilo[t]-l.off[t]); hi=r.range(0,l.off[t]+e[t]-ihi[t]); if(mode==1&&t==hit&&e[t]>1){ if(r.chance(0.5)) lo=ilo[t]-l.off[t]+1; else hi=l.off[t]+e[t]-ihi[t]+1; if(lo+hi>=e[t]){ lo=0; hi=0; } } }
    o[t]+=lo; e[t]-=lo+hi; }
  for(int t=0;t<3;++t) if(o[t]>ilo[t]||o[t]+e[t]<ihi[t]) cut=true;
  F V(MemoryWindow(l.glob,o,e),A); const F& cV=V; c.note(std::string(nm)+" "+l.s()+" view "+vf::str(o)+"+"+vf::str(e)+(cut?" cuts":" keeps")); c.add(hstr(nm)); c.add(l.h()); for(int t=0;t<3;++t) c.add((uint64_t)(o[t]*64+e[t]));
  count(cut?"cutting-views":"keeping-views");
  auto chk=[&](F& v,const F& cv,const char* w){
    bool t1=throws([&]{ v.interior_begin(); }),t2=throws([&]{ v.interior_end(); }),t3=throws([&]{ cv.interior_begin(); }),t4=throws([&]{ cv.interior_end(); });
    if(t1!=cut||t2!=cut||t3!=cut||t4!=cut) viol(std::string("view:interior")+w,c.desc+fmt(" threw %d %d %d %d",t1,t2,t3,t4)); };
  chk(V,cV,""); { F W(V); chk(W,W,"-of-copy"); } if(cut){ F W(MemoryWindow(l.glob,o,e),V); chk(W,W,"-of-view"); }
  if(!a.unchanged()) viol("view:changed",c.desc);
  long n=0; bool ok=true; for(typename F::iterator it=V.begin();it!=V.end();++it,++n) *it=-5; if(n!=npts(e)) viol("view:after",c.desc);
  a.each([&](int i,int j,int k){ IV p(i-l.lo(0)+l.off[0],j-l.lo(1)+l.off[1],k-l.lo(2)+l.off[2]); bool in=true; for(int t=0;t<3;++t) in=in&&p[t]>=o[t]&&p[t]<o[t]+e[t]; typename F::value_type w= in? (typename F::value_type)-5 : a.before[l.flat(i,j,k)]; ok=ok&&same_bits(w,a.at(i,j,k)); }); if(!ok) viol("view:after-write",c.desc);
  if(throws([&]{ A.interior_begin(); A.interior_end(); })) viol("view:parent",c.desc+" the parent lost its interior iterators");
}

// --- boundary extra cells without a valid source -----------------------------
template<class F> static void extras(Case& c,const char* nm){
  Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); IV E=F::Location::BCExtra::int_vec(); for(int t=0;t<3;++t) if(E[t]&&r.chance(0.8)){ if(d.n[t]==1) d.n[t]=3; d.bc[t]=1; }
  Blk<F> D,a,b; lay(r,D,d,r.chance(0.3),100); Dom e=d; bool th=false; IV vp;
  for(int t=0;t<3;++t) if(d.n[t]>1&&r.chance(0.5)) e.bc[t]=0;
  for(int t=0;t<3;++t) e.gp[t]=d.n[t]>1?(r.chance(0.5)?0:r.range(1,2)):0;
  lay(r,a,e,false,300); lay(r,b,e,r.chance(0.3),500); IV vm=a.l.gm; vp=a.l.gp; if(r.chance(0.4)){ for(int t=0;t<3;++t) vp[t]=r.range(0,vp[t]); a.f->reset_valid_ghosts(GhostData(vm,vp)); }
  int form=r.range(0,4); bool usea=form!=1;
  for(int t=0;t<3;++t){ if(D.l.ex[t]>0){ int pa=vp[t]+a.l.ex[t], pb=b.l.gp[t]+b.l.ex[t]; if((usea&&pa<D.l.ex[t])||((form==1||form==2)&&pb<D.l.ex[t])) th=true; } }
  c.note(std::string(nm)+fmt(" form %d dst ",form)+D.l.s()+" a "+a.l.s()+" b "+b.l.s()+" valid plus "+vf::str(vp)); c.add(hstr(nm)); c.add(D.l.h()); c.add(a.l.h()); c.add((uint64_t)form);
  c.nontrivial=th; count(th?"uncovered-extras":"covered-extras"); F& x=*D.f; F &A=*a.f,&B=*b.f; 
#ifdef ENABLE_THREADS
  if(r.chance(0.6)) D.f->set_partition_count(r.range(1,6));
#endif
  bool got1=throws([&]{ switch(form){ case 0: x<<=A; break; case 1: x<<=B*2.0; break; case 2: x<<=A+B; break; case 3: x<<=cond(A>200.0,3.0)(sin(A)); break; default: x<<=max(A,0.0)-1.0; } });
  std::string why; if(got1!=th) viol("extra:assign",c.desc+(th?" was accepted":" was rejected"));
  if(th){ if(!D.unchanged()||!a.unchanged()||!b.unchanged()) viol("extra:changed",c.desc);
    if(form==0||form==2){ bool got2=throws([&]{ if(form==0) interior_assign(x,A); else interior_assign(x,A+B); }); if(!got2) viol("extra:interior-assign",c.desc+" was accepted"); if(!D.unchanged()||!a.unchanged()||!b.unchanged()) viol("extra:changed",c.desc); } }
  // afterwards a valid assignment works as if nothing had happened
  x<<=2.5; bool ok=true; D.each([&](int i,int j,int k){ ok=ok&&D.at(i,j,k)==2.5; }); if(!ok) viol("extra:after",c.desc);
  { Blk<F> q; q.make(D.l); q.each([&](int i,int j,int k){ q.at(i,j,k)=i+7*j+31*k; }); x<<=*q.f+1.0; ok=true; D.each([&](int i,int j,int k){ ok=ok&&D.at(i,j,k)==i+7*j+31*k+1.0; }); if(!ok) viol("extra:after",c.desc); }
}
// the same through stencils: a face just past the last cell needs a valid ghost cell
static void stencilx(Case& c){
  Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); for(int t=0;t<3;++t) if(d.n[t]==1) d.n[t]=r.range(2,4); int dir=r.range(0,2); d.bc[dir]=1; for(int t=0;t<3;++t) d.gm[t]=std::max(1,d.gm[t]);
  H3 h; h.dx=h.dy=h.dz=0.5; NOps ops(h); Blk<SVolField> a; Dom e=d; e.gp[dir]=r.range(0,2); lay(r,a,e,r.chance(0.3),10); int vp=r.range(0,e.gp[dir]); IV p=a.l.gp; p[dir]=vp; if(vp<e.gp[dir]) a.f->reset_valid_ghosts(GhostData(a.l.gm,p));
  int form=r.range(0,2); bool th=vp<1; c.note(fmt("stencil %d dir %d valid plus %d ",form,dir,vp)+a.l.s()); c.add((uint64_t)(form*64+dir*8+vp)); c.add(a.l.h()); c.nontrivial=th; count(th?"uncovered-extras":"covered-extras");
#define RUN(FT,I,Gd) { Blk<FT> D; lay(r,D,d,r.chance(0.3),1000); bool t=throws([&]{ if(form==0) *D.f<<=ops.I(*a.f); else if(form==1) *D.f<<=ops.Gd(*a.f)*2.0+ops.I(*a.f*3.0); else interior_assign(*D.f,ops.Gd(*a.f)); }); if(t!=th) viol("extra:stencil",c.desc+(th?" was accepted":" was rejected")); if(th&&(!D.unchanged()||!a.unchanged())) viol("extra:stencil-changed",c.desc); *D.f<<=1.5; bool ok=true; D.each([&](int i,int j,int k){ ok=ok&&D.at(i,j,k)==1.5; }); if(!ok) viol("extra:after",c.desc); }
  if(dir==0) RUN(SSurfXField,ix,gx) else if(dir==1) RUN(SSurfYField,iy,gy) else RUN(SSurfZField,iz,gz)
#undef RUN
}

// --- memory the build does not support ---------------------------------------
template<class F> static void memtypes(Case& c,const char* nm){
  typedef typename F::value_type T; Rng& r=c.r; Dom d=rand_dom(r); Blk<F> a; lay(r,a,d,false,100); F& A=*a.f; const F& cA=A; c.note(std::string(nm)+" "+a.l.s()); c.add(hstr(nm)); c.add(a.l.h());
  MemoryWindow w=a.win(); BoundaryCellInfo bc=A.boundary_info(); GhostData g(a.l.gm,a.l.gp); size_t act=Pool<T>::self().active(), tot=Pool<T>::self().total();
  int seq=r.range(3,10); for(int s=0;s<seq;++s){ MemoryType t=BADT[r.range(0,5)]; int op=r.range(0,9); c.add((uint64_t)(op*16+(int)t)); bool ok=true;
    switch(op){
      case 0: ok=throws([&]{ SpatialFieldStore::get_from_window<F>(w,bc,g,t); }); break;
      case 1: if(t==UNKNOWN) break; ok=throws([&]{ SpatialFieldStore::get<F>(A,t); }); break;   // UNKNOWN: where the prototype lives
      case 2: ok=throws([&]{ F f(w,bc,g,(T*)0,InternalStorage,t,0); }); break;
      case 3: { std::unique_ptr<T[]> m(new T[npts(a.l.glob)]); for(long i=0;i<npts(a.l.glob);++i) m[i]=(T)i; ok=throws([&]{ F f(w,bc,g,m.get(),ExternalStorage,t,0); }); for(long i=0;i<npts(a.l.glob);++i) if(m[i]!=(T)i) viol("memory:wrapped-changed",c.desc); break; }
      case 4: ok=throws([&]{ A.field_values(t,0); })&&throws([&]{ cA.field_values(t,0); }); break;
      case 5: ok=throws([&]{ A.add_consumer(t,0); }); break;
      case 6: ok=throws([&]{ A.find_consumer(t,0); }); break;
      case 7: ok=throws([&]{ Pool<T>::self().get(t,1+r.range(0,50)); }); break;
      case 8: { T* m=Pool<T>::self().get(LOCAL_RAM,5); ok=throws([&]{ Pool<T>::self().put(t,m); }); m[4]=(T)3; Pool<T>::self().put(LOCAL_RAM,m); tot=Pool<T>::self().total(); break; }
      default: ok=throws([&]{ A.add_consumer(LOCAL_RAM,1); })&&throws([&]{ A.find_consumer(LOCAL_RAM,2); }); }
    if(!ok) viol(fmt("memory:request-%d",op),c.desc+fmt(" memory type %d was accepted",(int)t));
    if(!a.unchanged()) viol(fmt("memory:changed-%d",op),c.desc);
    if(Pool<T>::self().active()!=act||Pool<T>::self().total()!=tot){ viol(fmt("memory:pool-%d",op),c.desc+fmt(" the pool counts %zu in use, expected %zu",(size_t)Pool<T>::self().active(),act)); act=Pool<T>::self().active(); tot=Pool<T>::self().total(); }
    count("memory-requests"); }
  A.add_consumer(LOCAL_RAM,0); if(!A.find_consumer(LOCAL_RAM,0)||A.has_consumers()) viol("memory:consumers",c.desc);
  // the field can still be read, written, iterated, assigned and copied
  if(throws([&]{ A.begin(); A.end(); A.interior_begin(); A.interior_end(); A[0]; cA[0]; A.field_values(); })) viol("memory:after-access",c.desc+" a valid access is rejected now");
  if(throws([&]{ A<<=3.0; SpatFldPtr<F> p=SpatialFieldStore::get<F>(A); *p<<=A+1.0; A<<=*p; if(a.l.glob==a.l.ext()){ *p<<=4.0; A=*p; } F q(A); q<<=A; })) viol("memory:after",c.desc+" valid use is rejected now");
  else { bool ok=true; a.each([&](int i,int j,int k){ ok=ok&&a.at(i,j,k)==4; }); if(!ok) viol("memory:after-values",c.desc); }
}
static void single(Case& c){
  typedef SpatialField<SingleValue,double> S; Rng& r=c.r; IV e(r.range(1,3),r.range(1,3),r.range(1,3)), gm(r.range(0,2),r.range(0,2),r.range(0,2)), gp(r.range(0,2),r.range(0,2),r.range(0,2));
  bool badw=e[0]>1&&e[1]>1&&e[2]>1, badg=true; for(int t=0;t<3;++t) badg=badg&&gm[t]>0&&gp[t]>0; if(!badw&&!badg){ e=IV(1,1,1); gm=gp=IV(0,0,0); }
  c.note("single value window "+vf::str(e)+" ghosts "+vf::str(gm)+vf::str(gp)); for(int t=0;t<3;++t) c.add((uint64_t)(e[t]*100+gm[t]*10+gp[t])); c.nontrivial=badw||badg;
  BoundaryCellInfo bc=BoundaryCellInfo::build<S>(false,false,false); GhostData g(gm,gp); MemoryWindow w(e); for(int t=0;t<3;++t) if(e[t]>1 && gm[t]+gp[t]>=e[t]&&!(badw||badg)) return;
  size_t act=Pool<double>::self().active(); double m[64]={0};
  bool t1=throws([&]{ S s(w,bc,g,0,InternalStorage); }), t2=throws([&]{ S s(w,bc,g,m,ExternalStorage); }), t3=throws([&]{ SpatialFieldStore::get_from_window<S>(w,bc,g); }); bool bad=badw||badg;
  if(t1!=bad||t2!=bad||t3!=bad) viol("single:shape",c.desc+fmt(" threw %d %d %d",t1,t2,t3));
  if(Pool<double>::self().active()!=act) viol("single:pool",c.desc+fmt(" %zu blocks in use, %zu before",(size_t)Pool<double>::self().active(),act)); for(double x: m) if(x!=0) viol("single:changed",c.desc);
  S ok(MemoryWindow(IV(1,1,1)),bc,GhostData(0),0,InternalStorage); ok<<=4.0; if(*ok.begin()!=4.0) viol("single:after",c.desc); count("single-shapes");
}
// --- coefficients -----------------------------------------------------------
template<int N> struct Co { static NeboStencilCoefCollection<N> mk(const double* v){ return NeboStencilCoefCollection<N>(Co<N-1>::mk(v),v[N-1]); } };
template<> struct Co<1> { static NeboStencilCoefCollection<1> mk(const double* v){ return build_coef_collection(v[0]); } };
template<int N> static void coef(Case& c,const double* v){ NeboStencilCoefCollection<N> k=Co<N>::mk(v);
  for(int i=-3;i<N+4;++i){ bool out=i<0||i>=N; double got=0; bool th=throws([&]{ got=k.get_coef(i); }); if(th!=out) viol("coef:index",c.desc+fmt(" index %d of %d was %s",i,N,out?"accepted":"rejected")); else if(!th&&got!=v[i]) viol("coef:value",c.desc+fmt(" index %d of %d",i,N)); count("coefficients"); }
  if(!throws([&]{ k.get_coef(std::numeric_limits<int>::min()); })||!throws([&]{ k.get_coef(std::numeric_limits<int>::max()); })) viol("coef:index",c.desc+fmt(" extreme index of %d",N)); if(k.coef()!=v[N-1]) viol("coef:last",c.desc); }
static void coefs(Case& c){ double v[8]; for(int i=0;i<8;++i){ v[i]=c.r.real(-5,5); c.add(v[i]); } c.note("coefficients"); coef<1>(c,v); coef<2>(c,v); coef<3>(c,v); coef<4>(c,v); coef<5>(c,v); coef<7>(c,v); coef<8>(c,v); 
  NeboStencilCoefCollection<2> t=build_two_point_coef_collection(v[0],v[1]); if(t.get_coef(0)!=v[0]||t.get_coef(1)!=v[1]) viol("coef:two",c.desc); NeboStencilCoefCollection<4> f=build_four_point_coef_collection(v[0],v[1],v[2],v[3]); for(int i=0;i<4;++i) if(f.get_coef(i)!=v[i]) viol("coef:four",c.desc); }
int main(int argc,char** argv){
  init(argc,argv);
#define ALL(X) X(SVolField) X(SSurfXField) X(SSurfYField) X(SSurfZField) X(XVolField) X(YSurfXField) X(ZVolField)
#define X(F) group("sizes-" #F,120,[](Case& c){ sizes<F>(c,#F); }); group("views-" #F,150,[](Case& c){ views<F>(c,#F); });
  ALL(X)
#undef X
#define X(F) group("iters-" #F,60,[](Case& c){ iters<F>(c,#F); });
  X(SVolField) X(XSurfXField)
#undef X
  typedef SpatialField<SVolField::Location,float> SVolF; 
  group("sizes-float",80,[](Case& c){ sizes<SVolF>(c,"float"); });
  group("mask",120,maskiters);
#define X(F) group("extras-" #F,200,[](Case& c){ extras<F>(c,#F); });
  X(SSurfXField) X(SSurfYField) X(SSurfZField) X(XVolField) X(YVolField) X(ZVolField) X(XSurfXField) X(SVolField)
#undef X
  group("stencil",300,stencilx);
#define X(F) group("memory-" #F,120,[](Case& c){ memtypes<F>(c,#F); });
  X(SVolField) X(SSurfYField) X(XVolField)
#undef X
  group("single",120,single); group("coefficients",60,coefs);
  return finish();
}
