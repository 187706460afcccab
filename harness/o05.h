// O05: user-defined stencils of any shape compute their weighted sum over exactly the region their reach allows.
#include "ops.h"
#include <spatialops/NeboReductions.h>
namespace vf {
template<int N> struct Build { static NeboStencilCoefCollection<N> go(const std::vector<double>& c){ return Build<N-1>::go(c)(c[N-1]); } };
template<> struct Build<1> { static NeboStencilCoefCollection<1> go(const std::vector<double>& c){ return build_coef_collection(c[0]); } };
template<class U,char K> struct Mk;
template<class U> struct Mk<U,'C'> { typedef NeboStencilBuilder<Interpolant,typename U::Pts,typename U::Src,typename U::Dst> Op; static Op go(const std::vector<double>& c){ return Op(Build<U::Pts::length>::go(c)); } };
template<class U> struct Mk<U,'S'> { typedef NeboSumStencilBuilder<typename U::Pts,typename U::Src,typename U::Dst> Op; static Op go(const std::vector<double>&){ return Op(); } };
template<class U> struct Mk<U,'A'> { typedef NeboAverageStencilBuilder<typename U::Pts,typename U::Src,typename U::Dst> Op; static Op go(const std::vector<double>&){ return Op(); } };
// an operand with its own reach on every face
template<class F> void operand(Rng& r,const Dom& dom,Opnd<F>& o,const IV& rm,const IV& rp){
  Dom e=dom; for(int t=0;t<3;++t) if(dom.n[t]>1){ e.gm[t]=rm[t]+r.range(0,2); e.gp[t]=rp[t]+r.range(0,2)+(dom.bc[t]?1:0); }
  o.b.make(make_lay<F>(r,e,r.chance(0.35))); IV vm=o.b.l.gm,vp=o.b.l.gp;
  if(r.chance(0.3)){ for(int t=0;t<3;++t) if(dom.n[t]>1){ vm[t]=r.range(rm[t],vm[t]); vp[t]=r.range(rp[t],vp[t]); } o.b.f->reset_valid_ghosts(GhostData(vm,vp)); }
  for(int t=0;t<3;++t){ o.lo[t]= dom.n[t]>1? -vm[t]:0; o.hi[t]= dom.n[t]>1? dom.n[t]+o.b.l.ex[t]+vp[t]:1; }
  for(long q=0;q<npts(o.b.l.glob);++q) o.b.mem[q]=NAN;
  o.b.each([&](int i,int j,int k){ if(o.has(i,j,k)) o.b.at(i,j,k)=r.datum(-3,3); }); o.b.snap();
}
template<class D> void judge(Case& c,const char* nm,const char* form,Blk<D>& d,const G& g,const IV& lo,const IV& hi){
  auto in=[&](int i,int j,int k){ int x[3]={i,j,k}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; };
  std::string why; if(!d.outside_same(in,why)) viol(std::string(form)+":outside",c.desc+fmt(" region [%s,%s) ",str(lo).c_str(),str(hi).c_str())+why);
  bool bad=false; long cells=0;
  d.each([&](int i,int j,int k){ if(bad||!in(i,j,k)) return; ++cells; double w=g.f(i,j,k), x=d.at(i,j,k);
    if(!close(x,w,1e-11,100)){ bad=true; viol(std::string(form)+":value",c.desc+fmt(" region [%s,%s) cell (%d,%d,%d) is %.17g, expected %.17g",str(lo).c_str(),str(hi).c_str(),i,j,k,x,w)); } });
  count("cells",cells); count(std::string("form:")+form); (void)nm;
}
}
using namespace vf;
// nested application and neighbours of the source are possible when source and destination agree
template<class U,class Op,bool same> struct Nest { template<class One> static void go(const Op&,const RefOp&,const G&,typename U::Src&,typename U::Dst&,One&){} };
template<class U,class Op> struct Nest<U,Op,true> { template<class One> static void go(const Op& op,const RefOp& o,const G& a,typename U::Src& f,typename U::Dst& d,One& one){
  one("nested",o(o(a)),[&](){ d <<= op(op(f)); }); one("mixed",o(a)-a,[&](){ d <<= op(f)-f; }); one("conditional",cond(o(a)>0.0,o(a))(a),[&](){ d <<= cond(op(f)>0.0,op(f))(f); }); } };
template<class U> void shape(Case& c,const char* nm){
  typedef typename U::Src S; typedef typename U::Dst D; typedef Mk<U,U::kind> M; Rng& r=c.r; std::vector<IV> P=U::pts(); int n=(int)P.size();
  if((int)U::Pts::length!=n) viol("length",c.desc+fmt(" a collection of %d points has length %d",n,(int)U::Pts::length));
  std::vector<double> co; for(int q=0;q<n;++q) co.push_back(U::kind=='C'? (r.chance(.1)?0.0:r.real(-2,2)) : U::kind=='S'? 1.0 : 1.0/n);
  RefOp o; for(int q=0;q<n;++q) o.p.push_back({P[q],co[q]});
  int mul= r.chance(.5)?2:1; IV rm(0,0,0),rp(0,0,0); int dims=0; for(auto& q: P) for(int t=0;t<3;++t){ rm[t]=std::max(rm[t],-mul*q[t]); rp[t]=std::max(rp[t],mul*q[t]); if(q[t]) dims|=1<<t; }
  DomOpt dopt; dopt.maxn=5; Dom dom=rand_dom(r,dopt); for(int t=0;t<3;++t) if((dims&(1<<t))&&dom.n[t]==1){ dom.n[t]=r.range(2,5); dom.bc[t]=r.chance(.4); }
  Opnd<S> a,b; operand(r,dom,a,rm,rp); operand(r,dom,b,rm,rp);
  Blk<D> d; Dom e=dom; for(int t=0;t<3;++t) if(e.n[t]>1){ e.gm[t]=r.range(0,4); e.gp[t]=r.range(0,4); } d.make(make_lay<D>(r,e,r.chance(.35)));
  c.note(std::string(nm)+" "+U::text()+" dom n"+str(dom.n)+" bc"+str(dom.bc)+" src "+a.b.l.s()+" valid["+str(a.lo)+","+str(a.hi)+") dst "+d.l.s()); c.add(hstr(U::text())); c.add(a.b.l.h()); c.add(d.l.h()); c.add(co[0]);
  const typename M::Op op=M::go(co); double k=r.real(-2,2); G ga=a.g(dom),gb=b.g(dom); bool any=false; IV lo,hi;
  auto fill=[&](){ d.each([&](int i,int j,int kk){ d.at(i,j,kk)=r.real(-9,9); }); d.snap(); };
  auto one=[&](const char* form,const G& g,const std::function<void()>& act){ if(!region(dom,d,g,lo,hi)){ count("skipped"); return; } fill();
#ifdef ENABLE_THREADS
    d.f->set_partition_count(r.range(1,5));
#endif
    act(); any=true; judge(c,nm,form,d,g,lo,hi); if(!a.b.unchanged()||!b.b.unchanged()) viol(std::string(form)+":operand-changed",c.desc); };
  one("apply",o(ga),[&](){ op.apply_to_field(*a.b.f,*d.f); });
  one("call",o(ga),[&](){ *d.f <<= op(*a.b.f); });
  one("expression",o(ga*k+gb),[&](){ *d.f <<= op(*a.b.f*k+*b.b.f); });
  one("sum-of-two",o(ga)*k-o(gb),[&](){ *d.f <<= op(*a.b.f)*k-op(*b.b.f); });
  one("copied",o(ga),[&](){ typename M::Op cp(op); *d.f <<= cp(*a.b.f); });
  { G g=o(ga); if(region(dom,d,g,lo,hi)){ for(int t=0;t<3;++t){ lo[t]=0; hi[t]=dom.n[t]+d.l.ex[t]; } fill(); interior_assign(*d.f,op(*a.b.f)); judge(c,nm,"interior",d,g,lo,hi); 
      // folds see the interior without extras, or everything known
      double s=0,mx=-1e300; for(int kk=0;kk<dom.n[2];++kk)for(int j=0;j<dom.n[1];++j)for(int i=0;i<dom.n[0];++i){ double v=g.f(i,j,kk); s+=v; mx=std::max(mx,v); }
      double s1=nebo_sum_interior(op(*a.b.f)), m1=nebo_max_interior(op(*a.b.f)); if(!close(s1,s,1e-10,1000)) viol("sum:interior",c.desc+fmt(" %.17g, expected %.17g",s1,s)); if(!close(m1,mx,1e-11,100)) viol("max:interior",c.desc+fmt(" %.17g, expected %.17g",m1,mx)); count("folds",2); } }
  Nest<U,typename M::Op,std::is_same<S,D>::value>::go(op,o,ga,*a.b.f,*d.f,one);
  if(!any) c.nontrivial=false;
}
template<class U> void run(const char* nm){ group(nm,60,[nm](Case& c){ shape<U>(c,nm); }); }

