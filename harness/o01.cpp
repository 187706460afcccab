// O01: every stock operator computes its documented stencil.
#include "ops.h"
using namespace vf;
template<class Op> struct Coefs { static void check(Case&,const Op&,const OpRef&,const char*){} };
template<class T,class P,class S,class D> struct Coefs<NeboStencilBuilder<T,P,S,D> > { typedef NeboStencilBuilder<T,P,S,D> Op;
  static void check(Case& c,const Op& op,const OpRef& o,const char* nm){ const int L=P::length; double lo=0; std::vector<double> a,b;
    if((size_t)L!=o.r.p.size()){ viol(std::string(nm)+":points",c.desc+fmt(" %d points, expected %zu",L,o.r.p.size())); return; }
    for(int q=0;q<L;++q){ a.push_back(op.coefs().get_coef(q)); b.push_back(o.r.p[q].second); lo+=a.back(); }
    std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end());
    for(int q=0;q<L;++q) if(!close(a[q],b[q],1e-14)) viol(std::string(nm)+":coefficient",c.desc+fmt(" coefficient %.17g, expected %.17g",a[q],b[q]));
    count("coefficients",L); } };
struct Mesh { Dom d; std::vector<double> L; double h[3]; std::unique_ptr<OperatorDatabase> db; };
static void mesh(Rng& r,Mesh& m,int dims,int maxn,int reach){
  DomOpt o; o.maxn=maxn; o.maxg=2; m.d=rand_dom(r,o);
  for(int t=0;t<3;++t){ if((dims&(1<<t)) && m.d.n[t]==1){ m.d.n[t]=r.range(2,maxn); m.d.bc[t]=r.chance(0.4); } if(m.d.n[t]>1){ m.d.gm[t]=m.d.gp[t]=reach; } }
  m.L.resize(3); for(int t=0;t<3;++t) m.L[t]= r.chance(0.15)? 1.0 : std::pow(10.0,r.real(-3,3));
  for(int t=0;t<3;++t) m.h[t]=m.L[t]/m.d.n[t];
}
static std::string txt(const Mesh& m){ return "n"+str(m.d.n)+" bc"+str(m.d.bc)+fmt(" L %.5g %.5g %.5g",m.L[0],m.L[1],m.L[2]); }
template<class D> void judge(Case& c,const char* nm,const char* form,const Dom& dom,Blk<D>& d,const G& g,const IV& lo,const IV& hi,double scale){
  auto in=[&](int i,int j,int k){ int x[3]={i,j,k}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; };
  std::string why; if(!d.outside_same(in,why)) viol(std::string(nm)+":"+form+":outside",c.desc+fmt(" region [%s,%s) ",str(lo).c_str(),str(hi).c_str())+why);
  bool bad=false; long cells=0;
  d.each([&](int i,int j,int k){ if(bad||!in(i,j,k)) return; ++cells; double w=g.f(i,j,k), x=d.at(i,j,k);
    if(!close(x,w,1e-12,scale)){ bad=true; viol(std::string(nm)+":"+form+":value",c.desc+fmt(" region [%s,%s) cell (%d,%d,%d) is %.17g, expected %.17g",str(lo).c_str(),str(hi).c_str(),i,j,k,x,w)); } });
  count("cells",cells);
}
// apply `op` in every form to random operands and compare with the reference
template<class Op,class S,class D> void forms(Case& c,const char* nm,const Op& op,const OpRef& o,Mesh& m,double mag){
  Rng& r=c.r; Opnd<S> a,b; a.make(r,m.d,1,true,mag); b.make(r,m.d,1,true,mag); double scale=0; for(auto& q: o.r.p) scale=std::max(scale,std::fabs(q.second)); scale*=mag*16;
  Blk<D> d; Dom e=m.d; for(int t=0;t<3;++t) if(e.n[t]>1){ e.gm[t]=r.range(0,3); e.gp[t]=r.range(0,3); } d.make(make_lay<D>(r,e,r.chance(0.35)));
  c.note(std::string(nm)+" "+At<S>::n()+"->"+At<D>::n()+" "+txt(m)+" src "+a.b.l.s()+" valid["+str(a.lo)+","+str(a.hi)+") dst "+d.l.s()); c.add(hstr(nm)); c.add(a.b.l.h()); c.add(d.l.h()); c.add(m.L[0]);
  double k=r.real(-2,2);
  G ga=a.g(m.d), gb=b.g(m.d); IV lo,hi;
  auto fill=[&](){ d.each([&](int i,int j,int kk){ d.at(i,j,kk)=r.real(-9,9); }); d.snap(); };
  auto one=[&](const char* form,const G& g,const std::function<void()>& act){ if(!region(m.d,d,g,lo,hi)){ count("skipped"); return false; } fill(); 
#ifdef ENABLE_THREADS
    d.f->set_partition_count(r.range(1,5));
#endif
    act(); judge(c,nm,form,m.d,d,g,lo,hi,scale); count("applications");
    if(!a.b.unchanged()||!b.b.unchanged()) viol(std::string(nm)+":"+form+":operand-changed",c.desc); return true; };
  bool any=false;
  any|=one("apply",o.r(ga),[&](){ op.apply_to_field(*a.b.f,*d.f); });
  any|=one("call",o.r(ga),[&](){ *d.f <<= op(*a.b.f); });
  any|=one("scaled",o.r(ga)*k,[&](){ *d.f <<= op(*a.b.f)*k; });
  if(one("expression",o.r(ga*k+gb),[&](){ *d.f <<= op(*a.b.f*k+*b.b.f); })){ any=true;
    // the same through a field that holds the expression
    std::vector<double> first(d.mem.get(),d.mem.get()+npts(d.l.glob));
    Blk<S> t; Dom te=m.d; for(int z=0;z<3;++z) if(te.n[z]>1){ te.gm[z]=std::min(-a.lo[z],-b.lo[z]); te.gp[z]=std::min(a.hi[z],b.hi[z])-te.n[z]-a.b.l.ex[z]; }
    t.make(make_lay<S>(r,te,false)); *t.f <<= *a.b.f*k+*b.b.f;
    for(long q=0;q<npts(d.l.glob);++q) d.mem[q]=d.before[q];
    *d.f <<= op(*t.f);
    for(long q=0;q<npts(d.l.glob);++q) if(!close(d.mem[q],first[q],1e-14,scale)){ viol(std::string(nm)+":expression-vs-field",c.desc+fmt(" flat %ld: %.17g through the expression, %.17g through a field",q,first[q],(double)d.mem[q])); break; }
    count("pairs");
  }
  if(!any) c.nontrivial=false;
}
template<class Op,class S,class D> void run(Case& c,const char* nm,int kind,int dir){
  Rng& r=c.r; double one[3]={1,1,1}; OpRef probe=opref(kind,At<S>::s(),At<D>::s(),dir,7,one);
  Mesh m; mesh(r,m,probe.dims,r.chance(0.1)?12:5,1); c.note(std::string(nm)+" "+txt(m));
  OperatorDatabase db; build_stencils(m.d.n[0],m.d.n[1],m.d.n[2],m.L[0],m.L[1],m.L[2],db);
  const Op* op=db.retrieve_operator<Op>(); if(!op){ viol(std::string(nm)+":absent",c.desc); return; }
  OpRef o=opref(kind,At<S>::s(),At<D>::s(),dir,7,m.h);
  Coefs<Op>::check(c,*op,o,nm);
  forms<Op,S,D>(c,nm,*op,o,m,r.chance(0.2)?1e6:3.0);
}
template<class P,class F> void filter(Case& c,const char* nm,int mask){
  typedef NeboAverageStencilBuilder<typename P::StPtCollection,F,F> Op; Rng& r=c.r; Mesh m; mesh(r,m,mask,5,1);
  OpRef o=opref(OB,At<F>::s(),At<F>::s(),0,mask,m.h); Op op; forms<Op,F,F>(c,nm,op,o,m,3.0);
}
// arbitrary coefficients reach the points they were given for (in the order of the points)
template<class OpT,class S,class D> void order2(Case& c,const char* nm){
  typedef typename OperatorTypeBuilder<OpT,S,D>::type Op; Rng& r=c.r; double h[3]={1,1,1}; OpRef o=opref(OI,At<S>::s(),At<D>::s(),0,7,h); Mesh m; mesh(r,m,o.dims,5,1);
  double x=r.real(-3,3),y=r.real(-3,3); int d= o.dims==1?0:o.dims==2?1:2; o.r=ref2(d,At<S>::s()[d],x,y); Op op(build_two_point_coef_collection(x,y)); forms<Op,S,D>(c,nm,op,o,m,3.0); }
int main(int argc,char** argv){
  init(argc,argv);
#define X(T,S,D,K,DIR) group(#T,12,[](Case& c){ run<T,S##Field,D##Field>(c,#T,K,DIR); });
#if PART==0
  VF_OPS_PART0(X)
#elif PART==1
  VF_OPS_PART1(X)
#elif PART==2
  VF_OPS_PART2(X)
#else
  VF_OPS_PART3(X)
#define B(P,M) group(#P,16,[](Case& c){ filter<BoxFilter##P##StencilCollection,SVolField>(c,#P,M); });
  B(3D,7) B(2DXY,3) B(2DXZ,5) B(2DYZ,6) B(1DX,1) B(1DY,2) B(1DZ,4)
#define O2(S,D) group("order " #S #D,16,[](Case& c){ order2<Interpolant,S##Field,D##Field>(c,"order " #S #D); });
  O2(SVol,SSurfX) O2(SSurfY,SVol) O2(XVol,XSurfX) O2(XVol,ZSurfX) O2(ZVol,SVol) O2(SVol,YVol) O2(ZSurfZ,ZVol) O2(YVol,YSurfZ)
#endif
  return finish();
}
