// Expression monitor: the same source text is evaluated by Nebo on fields and by
// a scalar reference (class V) on the values the operands hold at each cell.
#ifndef VF_EXPRS_H
#define VF_EXPRS_H
#include "fields.h"
#include <spatialops/structured/SpatialMask.h>
namespace vf {
// ---- scalar reference ------------------------------------------------------
struct Amb { bool f; }; 
inline bool& ambiguous(){ static thread_local bool a=false; return a; }   // result not determined by the scalar formula
template<class T> struct V {
  T v; V():v(0){} V(T x):v(x){} template<class U> V(const V<U>& o):v((T)o.v){}
  template<class U, class=typename std::enable_if<std::is_arithmetic<U>::value>::type> V(U x):v((T)x){}
};
#define VF_BIN(OP) template<class T> inline V<T> operator OP(V<T> a,V<T> b){ return V<T>((T)(a.v OP b.v)); } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,V<T> >::type operator OP(V<T> a,U b){ return V<T>((T)(a.v OP (T)b)); } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,V<T> >::type operator OP(U a,V<T> b){ return V<T>((T)((T)a OP b.v)); }
VF_BIN(+) VF_BIN(-) VF_BIN(*) VF_BIN(/)
#undef VF_BIN
#define VF_CMP(OP) template<class T> inline bool operator OP(V<T> a,V<T> b){ return a.v OP b.v; } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,bool>::type operator OP(V<T> a,U b){ return a.v OP (T)b; } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,bool>::type operator OP(U a,V<T> b){ return (T)a OP b.v; }
VF_CMP(<) VF_CMP(<=) VF_CMP(>) VF_CMP(>=) VF_CMP(==) VF_CMP(!=)
#undef VF_CMP
template<class T> inline V<T> operator-(V<T> a){ return V<T>(-a.v); }
#define VF_UN(F,E) template<class T> inline V<T> F(V<T> a){ return V<T>((T)(E)); }
VF_UN(sin,std::sin(a.v)) VF_UN(cos,std::cos(a.v)) VF_UN(tan,std::tan(a.v)) VF_UN(exp,std::exp(a.v)) VF_UN(tanh,std::tanh(a.v)) VF_UN(abs,std::fabs(a.v))
VF_UN(sqrt,std::sqrt(a.v)) VF_UN(log,std::log(a.v)) VF_UN(log10,std::log10(a.v)) VF_UN(erf,std::erf(a.v)) VF_UN(erfc,std::erfc(a.v))
#undef VF_UN
template<class T> inline V<T> vmax(T a,T b){ if(a!=a||b!=b||(a==b&&std::signbit(a)!=std::signbit(b))) ambiguous()=true; return V<T>(a>b?a:b); }
template<class T> inline V<T> vmin(T a,T b){ if(a!=a||b!=b||(a==b&&std::signbit(a)!=std::signbit(b))) ambiguous()=true; return V<T>(a<b?a:b); }
template<class T> inline V<T> vpow(T a,T b){ return V<T>((T)std::pow(a,b)); }
#define VF_F2(F,G) template<class T> inline V<T> F(V<T> a,V<T> b){ return G<T>(a.v,b.v); } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,V<T> >::type F(V<T> a,U b){ return G<T>(a.v,(T)b); } \
  template<class T,class U> inline typename std::enable_if<std::is_arithmetic<U>::value,V<T> >::type F(U a,V<T> b){ return G<T>((T)a,b.v); }
VF_F2(max,vmax) VF_F2(min,vmin) VF_F2(pow,vpow)
#undef VF_F2
// conditional reference: an explicit list of clauses, first true wins
template<class T> struct RefCond {
  std::vector<std::pair<bool,T> > cl;
  template<class U> RefCond operator()(bool b,U u) const { RefCond r=*this; r.cl.push_back(std::make_pair(b,V<T>(u).v)); return r; }
  template<class U> V<T> operator()(U u) const { for(auto& c: cl) if(c.first) return V<T>(c.second); return V<T>(V<T>(u).v); }
};
template<class T> struct RefEnv; // below

// ---- data ------------------------------------------------------------------
template<class T> inline T rand_val(Rng& r,int mode){
  // 0 moderate, 1 small positive, 2 special values
  if(mode==2 && r.chance(0.3)){ static const double sp[]={0.0,-0.0,1.0,-1.0,INFINITY,-INFINITY,NAN,1e30,-1e30,1e-30,std::numeric_limits<float>::denorm_min(),2.0,0.5}; return (T)sp[r.range(0,12)]; }
  if(mode==3) return (T)r.range(-2,2);          // many ties
  if(mode==1) return (T)r.real(0.05,2.0);
  return (T)r.real(-3.0,3.0);
}
// operands: fields a,b,c (own ghost layouts), single value fields s,u, scalars k,q, masks m,n
template<class F> struct Ops {
  typedef typename F::value_type T; typedef SpatialField<SingleValue,T> SV;
  F &dst,&a,&b,&c; SV &s,&u; T k,q; SpatialMask<F> &m,&n; SV& sdst;
};
template<class T> struct RefEnv { typedef V<T> val; V<T> a,b,c,s,u,k,q; bool m,n; };

template<class T> inline bool accept(T got,T ref,long double ld,bool amb,T a2=0){
  if(amb) return true;
  if(same_bits(got,ref)) return true;
  if(got!=got && ref!=ref) return true;
  if(got==ref) return std::signbit(got)==std::signbit(ref) || got!=0;   // zeros must agree in sign
  if(std::isinf((double)got)||std::isinf((double)ref)||got!=got||ref!=ref) return false;
  long double e=std::numeric_limits<T>::epsilon(), d=fabsl((long double)got-(long double)ref), cond=fabsl((long double)ref-ld);
  return d <= 64*e*std::max(fabsl((long double)got),fabsl((long double)ref)) + 64*cond + std::numeric_limits<T>::denorm_min()*4.0L;
}

template<class E,class F> void run_expr(Case& c,const char* nm){
  typedef typename F::value_type T; typedef SpatialField<SingleValue,T> SV; Rng& r=c.r;
  DomOpt o; o.maxn=4; o.maxg=2; Dom d=rand_dom(r,o);
  bool embed=r.chance(0.3); int mode=r.range(0,3); bool same=r.chance(0.4);
  Blk<F> dst,a,b,cc; Blk<F>* op[3]={&a,&b,&cc};
  auto mk=[&](Blk<F>& x){ Dom e=d; if(!same) for(int i=0;i<3;++i) if(d.n[i]>1){ e.gm[i]=r.range(0,2); e.gp[i]=r.range(0,2); } x.make(make_lay<F>(r,e,embed)); };
  mk(dst); dst.each([&](int i,int j,int k){ dst.at(i,j,k)=(T)(1000+r.range(0,99)); });
  for(int q=0;q<3;++q){ mk(*op[q]); op[q]->each([&](int i,int j,int k){ op[q]->at(i,j,k)=rand_val<T>(r,mode); }); }
  // valid ghosts of an operand may have been reduced by earlier work
  IV vm[3],vp[3]; for(int q=0;q<3;++q){ vm[q]=op[q]->l.gm; vp[q]=op[q]->l.gp; if(r.chance(0.15)){ for(int i=0;i<3;++i){ vm[q][i]=r.range(0,vm[q][i]); vp[q][i]=r.range(0,vp[q][i]); } op[q]->f->reset_valid_ghosts(GhostData(vm[q],vp[q])); } }
  const IV one(1,1,1); MemoryWindow w1(one); BoundaryCellInfo bc1=BoundaryCellInfo::build<SV>(false,false,false); GhostData g0(0);
  T sv=rand_val<T>(r,mode), uv=rand_val<T>(r,mode), k=rand_val<T>(r,mode), q=rand_val<T>(r,mode), sd=(T)-4;
  SV s(w1,bc1,g0,&sv,ExternalStorage), u(w1,bc1,g0,&uv,ExternalStorage), sdst(w1,bc1,g0,&sd,ExternalStorage);
  const T sv0=sv, uv0=uv;
  // masks with their own point sets, over their own ghost layouts
  std::set<std::vector<int> > ms[2]; std::vector<IV> pl[2]; Blk<F> mp[2]; const F* pf[2]={dst.f.get(),dst.f.get()}; const Lay* ml[2]={&dst.l,&dst.l};
  for(int z=0;z<2;++z){
    if(!same && r.chance(0.5)){ mk(mp[z]); pf[z]=mp[z].f.get(); ml[z]=&mp[z].l; }
    long tot=npts(ml[z]->ext()); int np= r.chance(0.1)?0 : r.chance(0.2)? (int)tot : r.range(1,(int)std::max(1L,tot/2));
    for(int i=0;i<np;++i){ IV p; for(int t=0;t<3;++t) p[t]=r.range(ml[z]->lo(t),ml[z]->hi(t)-1); pl[z].push_back(p); ms[z].insert({p[0],p[1],p[2]}); } }
  SpatialMask<F> m0(*pf[0],pl[0]), m1(*pf[1],pl[1]);
  c.note(std::string(nm)+" `"+E::text()+"` "+dst.l.s()+fmt(" mode %d same %d",mode,same)); c.add(hstr(nm)); c.add(dst.l.h()); c.add(a.l.h());
  for(int z=0;z<3;++z) op[z]->snap(); dst.snap();
  const std::vector<T> d0=dst.before;
#ifdef ENABLE_THREADS
  if(r.chance(0.5)) dst.f->set_partition_count(r.range(1,6));
#endif
  Ops<F> ops={*dst.f,*a.f,*b.f,*cc.f,s,u,k,q,m0,m1,sdst};
  E::assign(ops);
  // region of validity: destination, operands used by the formula
  const int use=E::use();
  IV lo,hi; for(int t=0;t<3;++t){ lo[t]=dst.l.lo(t); hi[t]=dst.l.hi(t); for(int z=0;z<3;++z) if(use&(1<<z) && d.n[t]>1){ lo[t]=std::max(lo[t],-vm[z][t]); hi[t]=std::min(hi[t],d.n[t]+op[z]->l.ex[t]+vp[z][t]); }
    for(int z=0;z<2;++z) if(use&(8<<z) && d.n[t]>1){ lo[t]=std::max(lo[t],ml[z]->lo(t)); hi[t]=std::min(hi[t],ml[z]->hi(t)); } }
  auto in=[&](int i,int j,int kk){ int x[3]={i,j,kk}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; };
  std::string why; if(!dst.outside_same(in,why)){ viol(std::string(nm)+":outside",c.desc+" "+why); return; }
  for(int z=0;z<3;++z) if(!op[z]->unchanged()){ viol(std::string(nm)+":operand-changed",c.desc); return; }
  if(!same_bits(sv,sv0)||!same_bits(uv,uv0)){ viol(std::string(nm)+":operand-changed",c.desc); return; }
  bool bad=false; long cells=0,ambn=0;
  dst.each([&](int i,int j,int kk){ if(bad||!in(i,j,kk)) return; ++cells;
    auto val=[&](int z){ return (use&(1<<z))? op[z]->at(i,j,kk):(T)0; };
    bool mm=ms[0].count({i,j,kk}), nn=ms[1].count({i,j,kk});
    ambiguous()=false;
    RefEnv<T> e={V<T>(val(0)),V<T>(val(1)),V<T>(val(2)),V<T>(sv),V<T>(uv),V<T>(k),V<T>(q),mm,nn};
    T ref=E::ref(e).v;
    RefEnv<long double> l={V<long double>(val(0)),V<long double>(val(1)),V<long double>(val(2)),V<long double>(sv),V<long double>(uv),V<long double>(k),V<long double>(q),mm,nn};
    bool amb=ambiguous(); if(amb) ++ambn;
    T got=dst.at(i,j,kk);
    long double ld=0; if(!same_bits(got,ref)) ld=E::ref(l).v;
    if(!accept<T>(got,ref,ld,amb)){ bad=true; viol(std::string(nm)+":value",c.desc+fmt(" cell (%d,%d,%d) got %.17g expected %.17g [a=%.9g b=%.9g c=%.9g s=%.9g u=%.9g k=%.9g q=%.9g m=%d n=%d]",i,j,kk,(double)got,(double)ref,(double)e.a.v,(double)e.b.v,(double)e.c.v,(double)sv,(double)uv,(double)k,(double)q,mm,nn)); } });
  c.nontrivial=cells>1; count("cells",cells); count("ambiguous-cells",ambn);
}
#ifdef VF_REDUCE
// every generated expression folded over its own region and over the interior
template<class T> struct Seen { static std::vector<T>& v(){ static std::vector<T> x; return x; } 
  static long const& log(long const& n,T const& x){ static long r[2]; static int w=0; w^=1; if(v().size()<100000) v().push_back(x); else { viol("reduce:runaway","a fold visited more than 100000 values"); _Exit(finish()); } r[w]=n+1; return r[w]; } };
template<class T> struct Reduce { T sum,mx,mn,nrmi,mxi,sumi; std::vector<T> all,inner; long n,ni;
  template<class X> void operator()(const X& e){ Seen<T>::v().clear(); n=nebo_fold(&Seen<T>::log,3L,e)-3; all=Seen<T>::v(); Seen<T>::v().clear(); ni=nebo_fold_interior(&Seen<T>::log,4L,e)-4; inner=Seen<T>::v();
    sum=nebo_sum(e); mx=nebo_max(e); mn=nebo_min(e); sumi=nebo_sum_interior(e); mxi=nebo_max_interior(e); nrmi=nebo_norm_interior(e); } };
template<class E,class F> void run_red(Case& c,const char* nm){
  typedef typename F::value_type T; typedef SpatialField<SingleValue,T> SV; Rng& r=c.r;
  DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); bool embed=r.chance(0.3); int mode=r.chance(.3)?3:r.chance(.5)?1:0; bool same=r.chance(0.3);
  Blk<F> dst,a,b,cc; Blk<F>* op[3]={&a,&b,&cc};
  auto mk=[&](Blk<F>& x){ Dom e=d; if(!same) for(int i=0;i<3;++i) if(d.n[i]>1){ e.gm[i]=r.range(0,2); e.gp[i]=r.range(0,2); } x.make(make_lay<F>(r,e,embed)); };
  mk(dst); dst.each([&](int i,int j,int k){ dst.at(i,j,k)=(T)7; });
  for(int q=0;q<3;++q){ mk(*op[q]); op[q]->each([&](int i,int j,int k){ op[q]->at(i,j,k)=rand_val<T>(r,mode); }); }
  IV vm[3],vp[3]; for(int q=0;q<3;++q){ vm[q]=op[q]->l.gm; vp[q]=op[q]->l.gp; if(r.chance(0.3)){ for(int i=0;i<3;++i){ vm[q][i]=r.range(0,vm[q][i]); vp[q][i]=r.range(0,vp[q][i]); } op[q]->f->reset_valid_ghosts(GhostData(vm[q],vp[q])); } }
  const IV one(1,1,1); MemoryWindow w1(one); BoundaryCellInfo bc1=BoundaryCellInfo::build<SV>(false,false,false); GhostData g0(0);
  T sv=rand_val<T>(r,mode), uv=rand_val<T>(r,mode), k=rand_val<T>(r,mode), q=rand_val<T>(r,mode), sd=(T)-4;
  SV s(w1,bc1,g0,&sv,ExternalStorage), u(w1,bc1,g0,&uv,ExternalStorage), sdst(w1,bc1,g0,&sd,ExternalStorage);
  std::set<std::vector<int> > ms[2]; std::vector<IV> pl[2]; Blk<F> mp[2]; const F* pf[2]={dst.f.get(),dst.f.get()}; const Lay* ml[2]={&dst.l,&dst.l};
  for(int z=0;z<2;++z){ if(!same){ mk(mp[z]); pf[z]=mp[z].f.get(); ml[z]=&mp[z].l; }
    long tot=npts(ml[z]->ext()); int np= r.chance(0.1)?0 : r.chance(0.2)? (int)tot : r.range(1,(int)std::max(1L,tot/2));
    for(int i=0;i<np;++i){ IV p; for(int t=0;t<3;++t) p[t]=r.range(ml[z]->lo(t),ml[z]->hi(t)-1); pl[z].push_back(p); ms[z].insert({p[0],p[1],p[2]}); } }
  SpatialMask<F> m0(*pf[0],pl[0]), m1(*pf[1],pl[1]);
  c.note(std::string(nm)+" reductions of `"+E::text()+"` "+dst.l.s()+fmt(" mode %d same %d",mode,same)); c.add(hstr(nm)); c.add(a.l.h()); c.add(b.l.h()); c.add(cc.l.h());
  for(int z=0;z<3;++z) op[z]->snap(); dst.snap();
  Ops<F> ops={*dst.f,*a.f,*b.f,*cc.f,s,u,k,q,m0,m1,sdst};
  Reduce<T> R; E::reduce(ops,R);
  for(int z=0;z<3;++z) if(!op[z]->unchanged()){ viol(std::string(nm)+":operand-changed",c.desc); return; }
  if(!dst.unchanged()){ viol(std::string(nm)+":outside",c.desc); return; }
  const int use=E::use(); int ex[3]={0,0,0};
  IV lo(-99,-99,-99),hi(9999,9999,9999); for(int t=0;t<3;++t){ if(d.n[t]==1){ lo[t]=0; hi[t]=1; }
    for(int z=0;z<3;++z) if(use&(1<<z) && d.n[t]>1){ lo[t]=std::max(lo[t],-vm[z][t]); hi[t]=std::min(hi[t],d.n[t]+op[z]->l.ex[t]+vp[z][t]); }
    for(int z=0;z<2;++z) if(use&(8<<z) && d.n[t]>1){ lo[t]=std::max(lo[t],ml[z]->lo(t)); hi[t]=std::min(hi[t],ml[z]->hi(t)); } }
  auto region=[&](const char* what,const std::vector<T>& got,long n,const IV& l0,const IV& h0,T sum,const T* mx,const T* mn,const T* nrm){
    std::vector<T> ref; long double ab=0,sm=0,sq=0; bool amb=false; int nans=0,infs=0; long tot=0; long double dev=0;
    for(int kk=l0[2];kk<h0[2];++kk) for(int j=l0[1];j<h0[1];++j) for(int i=l0[0];i<h0[0];++i){ ++tot;
      auto val=[&](int z){ return (use&(1<<z))? op[z]->at(i,j,kk):(T)0; }; bool mm=ms[0].count({i,j,kk}), nn=ms[1].count({i,j,kk});
      ambiguous()=false; RefEnv<T> e={V<T>(val(0)),V<T>(val(1)),V<T>(val(2)),V<T>(sv),V<T>(uv),V<T>(k),V<T>(q),mm,nn}; T x=E::ref(e).v;
      RefEnv<long double> l={V<long double>(val(0)),V<long double>(val(1)),V<long double>(val(2)),V<long double>(sv),V<long double>(uv),V<long double>(k),V<long double>(q),mm,nn}; long double y=E::ref(l).v;
      if(ambiguous()) amb=true; if(x!=x) ++nans; else if(std::isinf(x)) ++infs; else { if(!(fabsl(x-y)<=1e-3L*(1+fabsl(x)))) amb=true; ref.push_back(x); sm+=x; ab+=fabsl(x); sq+=(long double)x*x; dev=std::max(dev,fabsl(x-y)); } }
    std::string where=c.desc+fmt(" %s region [%s,%s) ",what,str(l0).c_str(),str(h0).c_str());
    if(n!=tot){ viol(std::string(nm)+":cells",where+fmt("folded %ld values, the region has %ld",n,tot)); return; }
    count("folded",tot); if(amb){ count("ambiguous"); return; }
    std::vector<T> g; int gn=0,gi=0; for(T x: got) if(x!=x) ++gn; else if(std::isinf(x)) ++gi; else g.push_back(x);
    if(gn!=nans||gi!=infs){ viol(std::string(nm)+":values",where+fmt("folded %d not-a-numbers and %d infinities, expected %d and %d",gn,gi,nans,infs)); return; }
    std::sort(g.begin(),g.end()); std::sort(ref.begin(),ref.end()); long double eps=std::numeric_limits<T>::epsilon();
    for(size_t z=0;z<g.size();++z) if(!(fabsl((long double)g[z]-ref[z])<=64*dev+64*eps*(1+fabsl(ref[z])))){ viol(std::string(nm)+":values",where+fmt("rank %zu of the folded values is %.17g, expected %.17g",z,(double)g[z],(double)ref[z])); return; }
    if(nans||infs||ref.empty()){ return; } count("reductions",3);
    auto bad=[&](const char* w,T got1,long double want,long double tol){ if(!(fabsl((long double)got1-want)<=tol)) viol(std::string(nm)+":"+w,where+fmt("%s is %.17g, expected %.17g",w,(double)got1,(double)want)); };
    long double rt=64*dev+64*eps;
    bad("sum",sum,sm,(ref.size()+64)*(eps*ab+64*dev)+rt); if(mx) bad("maximum",*mx,ref.back(),rt*(1+fabsl(ref.back()))); if(mn) bad("minimum",*mn,ref[0],rt*(1+fabsl(ref[0])));
    if(nrm && sq<1e30L) bad("norm",*nrm,sqrtl(sq),(ref.size()+64)*(eps*sqrtl(sq)+64*dev)+rt); };
  region("valid",R.all,R.n,lo,hi,R.sum,&R.mx,&R.mn,0); region("interior",R.inner,R.ni,IV(0,0,0),d.n,R.sumi,&R.mxi,0,&R.nrmi);
  (void)ex; c.nontrivial=R.n>1;
}
#endif
// single-value destination
template<class E,class F> void run_sv(Case& c,const char* nm){
  typedef typename F::value_type T; typedef SpatialField<SingleValue,T> SV; Rng& r=c.r; int mode=r.range(0,3);
  const IV one(1,1,1); MemoryWindow w1(one); BoundaryCellInfo bc1=BoundaryCellInfo::build<SV>(false,false,false); GhostData g0(0);
  struct { T g0,v,g1; } mem={(T)11,(T)-4,(T)12}; T sv=rand_val<T>(r,mode), uv=rand_val<T>(r,mode), k=rand_val<T>(r,mode), q=rand_val<T>(r,mode); const T sv0=sv,uv0=uv;
  SV s(w1,bc1,g0,&sv,ExternalStorage), u(w1,bc1,g0,&uv,ExternalStorage), sdst(w1,bc1,g0,&mem.v,ExternalStorage);
  c.note(std::string(nm)+" `"+E::text()+"`"); c.add(hstr(nm)); c.add((double)sv); c.add((double)uv);
  struct { SV &dst,&s,&u; T k,q; } ops={sdst,s,u,k,q};
  E::assign(ops);
  ambiguous()=false; RefEnv<T> e; e.s=sv;e.u=uv;e.k=k;e.q=q; T ref=E::ref(e).v; RefEnv<long double> l; l.s=sv;l.u=uv;l.k=k;l.q=q; bool amb=ambiguous(); long double ld=E::ref(l).v;
  if(!accept<T>(mem.v,ref,ld,amb)) viol(std::string(nm)+":value",c.desc+fmt(" got %.17g expected %.17g [s=%.9g u=%.9g k=%.9g q=%.9g]",(double)mem.v,(double)ref,(double)sv,(double)uv,(double)k,(double)q));
  if(mem.g0!=11||mem.g1!=12||!same_bits(sv,sv0)||!same_bits(uv,uv0)) viol(std::string(nm)+":outside",c.desc);
  count("cells");
}
} // vf
namespace vf { template<class B,class T> inline RefCond<T> cond(B b,V<T> v){ RefCond<T> r; r.cl.push_back(std::make_pair((bool)b,v.v)); return r; } }
#define VF_EXPR(ID,USE,...) struct ID { static int use(){ return USE; } static const char* text(){ return #__VA_ARGS__; } \
  template<class O> static void assign(O& o){ o.dst <<= __VA_ARGS__; } \
  template<class O,class Rd> static void reduce(O& o,Rd& rd){ rd(__VA_ARGS__); } \
  template<class R> static typename R::val ref(const R& o){ return typename R::val(__VA_ARGS__); } };
#endif
