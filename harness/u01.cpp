// U01: field comparison helpers against a per-cell restatement of their documented tolerances.
#include "fields.h"
#include <spatialops/structured/FieldComparisons.h>
using namespace vf;

template<class T> struct Bits;
template<> struct Bits<double>{ typedef int64_t I; };
template<> struct Bits<float>{ typedef int32_t I; };
// position of a value in the ordering of representable numbers (both zeros are 0)
template<class T> __int128 ord(T x){ typename Bits<T>::I i; memcpy(&i,&x,sizeof x); return i<0 ? -(__int128)(i & std::numeric_limits<typename Bits<T>::I>::max()) : (__int128)i; }
template<class T> T unord(__int128 v){ typename Bits<T>::I i = v<0 ? (typename Bits<T>::I)((-v)) | std::numeric_limits<typename Bits<T>::I>::min() : (typename Bits<T>::I)v; T x; memcpy(&x,&i,sizeof x); return x; }
template<class T> __int128 dist(T a,T b){ __int128 d=ord(a)-ord(b); return d<0?-d:d; }

enum Kind { REL, ABS, ULP };
template<class T> bool cell_rel(T a,T b,double err,double eabs){
  if(err==0) return a==b;
  if(a==b) return true;
  double q=std::abs(a-b)/(std::abs(a)+eabs); return q<=err;
}
// 1 within, -1 beyond, 0 so near that the order of rounding decides (|a-b| against err*(|a|+eabs), each as computed in W)
template<class W> int rel_side(W a,W b,double err,double eabs){
  if(a==b) return 1;
  if(err==0 || std::isnan(a) || std::isnan(b)) return -1;
  if(std::isinf(a)||std::isinf(b)) return 2; // decided by the formula as written
  typedef __float128 Q; Q d=(Q)a-(Q)b; if(d<0) d=-d; Q m=a<0?-(Q)a:(Q)a; m+=(Q)eabs; Q lim=m*(Q)err;
  W dw=std::abs(a-b); double mw=std::abs((double)a)+eabs;
  if(d==lim) return (Q)dw==d && (Q)mw==m ? 1 : 0;
  Q u=std::numeric_limits<W>::epsilon(), tiny=std::numeric_limits<W>::min(); // sub-normal quotients and products lose digits
  if(d<=lim*(1-8*u)-tiny*u) return lim<tiny && d<tiny ? 0 : 1;
  if(d>=lim*(1+8*u)+tiny*u) return lim<tiny && d<tiny ? 0 : -1;
  return 0;
}
// over all cells: 1, -1 or 0 (not decided); w is what the formula as written says
struct Sides{ bool no=false, may=false, w=true; template<class W> void operator()(W a,W b,double err,double eabs,bool asis){ w=w&&asis; int s=rel_side<W>(a,b,err,eabs); if(s==2) s= asis?1:-1; if(s<0) no=true; if(s==0) may=true; } bool decided() const { return no||!may; } bool want() const { return !no; } };
template<class T> bool cell_abs(T a,T b,double err){ if(err==0) return a==b; if(a==b) return true; return std::abs(a-b)<=err; }

template<class T> T rnd(Rng& r,double big){
  switch(r.range(0,7)){
    case 0: return 0; case 1: return -(T)0; case 2: return (T)r.range(-4,4);
    case 3: return (T)(r.real(-1,1)*big); case 4: return (T)(r.real(-1,1)*std::numeric_limits<T>::min()*4);
    case 5: return std::numeric_limits<T>::denorm_min()*(T)r.range(-9,9);
    default: return (T)r.real(-10,10);
  }
}

template<class F> void one(Case& c){
  typedef typename F::value_type T; Rng& r=c.r;
  const double big = sizeof(T)==8 ? 1e100 : 1e12;
  DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); Lay l=make_lay<F>(r,d,r.chance(0.5));
  Blk<F> A,B; A.make(l); B.make(l);
  // reduce the visible part sometimes
  GhostData g(l.gm,l.gp); IV sm(0,0,0), sp(0,0,0);
  if(r.chance(0.4)){
    for(int i=0;i<3;++i) if(l.n[i]>1){ sm[i]=r.range(0,l.gm[i]); sp[i]=r.range(0,l.gp[i]); }
    g=GhostData(l.gm-sm,l.gp-sp); A.f->reset_valid_ghosts(g); B.f->reset_valid_ghosts(g);
  }
  std::vector<IV> cells;
  for(int k=l.lo(2)+sm[2];k<l.hi(2)-sp[2];++k)for(int j=l.lo(1)+sm[1];j<l.hi(1)-sp[1];++j)for(int i=l.lo(0)+sm[0];i<l.hi(0)-sp[0];++i) cells.push_back(IV(i,j,k));
  bool special = r.chance(0.25), uniform=r.chance(0.3); int style=r.range(0,2);
  T base = uniform ? (T)(style==0? 0 : r.real(-5,5)) : 0;
  A.each([&](int i,int j,int k){ A.at(i,j,k)= uniform? base : style==0 ? (T)r.real(-10,10) : rnd<T>(r,big); });
  B.each([&](int i,int j,int k){ B.at(i,j,k)= A.at(i,j,k); });
  // garbage where the comparison must not look
  if(sm!=IV(0,0,0)||sp!=IV(0,0,0)){
    std::set<size_t> vis; for(auto& q: cells) vis.insert(l.flat(q[0],q[1],q[2]));
    B.each([&](int i,int j,int k){ if(!vis.count(l.flat(i,j,k))){ A.at(i,j,k)=(T)NAN; B.at(i,j,k)=(T)7e9; } });
  }
  double err; switch(r.range(0,5)){ case 0: err=0; break; case 1: err=1e-12; break; case 2: err=r.real(0,2); break; case 3: err=1e5; break; case 4: err=std::pow(10.0,r.range(-9,0)); break; default: err=1e-3; }
  if(r.chance(0.25)) err=-err;
  double eabs = r.chance(0.3)?0 : std::pow(10.0,r.range(-8,2));
  unsigned ulps = r.chance(0.25)?0u : r.chance(0.5)? (unsigned)r.range(1,5) : (unsigned)r.range(1,1000000);
  const bool dyadic=r.chance(0.3); // everything exact, so that the threshold itself is hit
  if(dyadic){ static const double es[]={0.25,0.5,1,2,0.125}; err=r.pick(std::vector<double>(es,es+5)); if(r.chance(0.25)) err=-err; eabs=r.chance(0.4)?0:r.range(1,4); ulps=r.range(0,4);
    A.each([&](int i,int j,int k){ T v=A.at(i,j,k); if(!std::isnan(v)) A.at(i,j,k)=B.at(i,j,k)=(T)(r.range(0,1)?8:-8)/(T)(1<<r.range(0,3)); }); }
  T d0 = cells.empty()? 0 : A.at(cells[r.next()%cells.size()]);
  // place differences
  int nd = r.range(0,2)==0 ? 0 : (r.chance(0.2) ? (int)cells.size() : r.range(1,2));
  Kind how=(Kind)r.range(0,2);
  std::string where;
  for(int q=0;q<nd;++q){
    IV v = nd==(int)cells.size()? cells[q] : (r.chance(0.3)? (r.chance(0.5)? cells.front():cells.back()) : r.pick(cells));
    T a=A.at(v), b; double e=std::fabs(err);
    static const double fac[]={0.5,0.999,1.0,1.001,2.0,-0.5,-0.999,-1.0,-1.001,-2.0}; double f=fac[r.range(0,9)];
    if(how==REL) b=(T)(a + f*e*(std::fabs((double)a)+eabs));
    else if(how==ABS) b=(T)(a+f*e);
    else { __int128 n=ord(a) + (__int128)((double)ulps*f) + r.range(-1,1); b=unord<T>(n); }
    if(special){ int w=r.range(0,5); if(w==0) b=(T)NAN; else if(w==1) b=(T)INFINITY; else if(w==2){ A.at(v[0],v[1],v[2])=(T)INFINITY; b=(T)INFINITY; } else if(w==3) A.at(v[0],v[1],v[2])=(T)NAN; else if(w==4){ A.at(v[0],v[1],v[2])=(T)-INFINITY; b=(T)INFINITY; } }
    B.at(v[0],v[1],v[2])=b;
    if(nd<=2) where+=str(v);
  }
  A.snap(); B.snap();
  bool finite=true; long double n2=0; double amax=0;
  for(auto& v: cells){ T a=A.at(v),b=B.at(v); if(!std::isfinite(a)||!std::isfinite(b)) finite=false; n2+=(long double)a*a; amax=std::max(amax,std::fabs((double)a)); }
  const double norm=(double)sqrtl(n2), marg= sizeof(T)==8? 1e-9: 1e-3;
  const double dd=(double)d0;
  c.add(l.h()); c.add(err); c.add((uint64_t)ulps); c.add((uint64_t)nd); c.add((double)d0);
  c.note(fmt("%s %s valid-minus%s plus%s err %g eabs %g ulps %u differences %d at %s", typeid(F).name(), l.s().c_str(), str(sm).c_str(), str(sp).c_str(), err, eabs, ulps, nd, where.c_str()));
  const F &fa=*A.f, &fb=*B.f;
  auto judge=[&](const char* name,bool got,bool neg,bool want){
    count("decisions"); count(want? "expected-true":"expected-false");
    if(got!=want) viol(std::string(name)+":wrong", c.desc+fmt(": %s gave %d, the cells say %d",name,got,want));
    if(neg!=!got) viol(std::string("not-")+name+":not-the-opposite", c.desc+fmt(": equal gave %d, not-equal gave %d",got,neg));
  };
  const double E=std::fabs(err);
  { Sides s; for(auto& v: cells) s(A.at(v),B.at(v),E,eabs,cell_rel<T>(A.at(v),B.at(v),E,eabs));
    if(s.decided() && s.want()!=s.w) viol("oracle:inconsistent",c.desc); // the two restatements must agree
    if(s.decided()) judge("equal", field_equal(fa,fb,err,eabs), field_not_equal(fa,fb,err,eabs), s.want()); else { count("borderline"); if(field_equal(fa,fb,err,eabs)==field_not_equal(fa,fb,err,eabs)) viol("not-equal:not-the-opposite",c.desc); } }
  { bool w=true; for(auto& v: cells) w=w&&cell_abs<T>(A.at(v),B.at(v),E); judge("equal-abs", field_equal_abs(fa,fb,err), field_not_equal_abs(fa,fb,err), w);
    w=true; for(auto& v: cells) w=w&&A.at(v)==B.at(v); judge("equal-default", field_equal(fa,fb), field_not_equal(fa,fb), w); judge("equal-abs-default", field_equal_abs(fa,fb), field_not_equal_abs(fa,fb), w); }
  if(std::isfinite(norm) && finite && (sizeof(T)==8 || norm<1e18)){ // the documented default absolute part; skip when it decides by rounding
    // squares of tiny values vanish, which only matters to a field of nothing else
    bool lo=true,hi=true; double ea=norm*E*1e-6, slack= (n2>0 && norm < (sizeof(T)==8?1e-140:1e-15))? ea:0;
    for(auto& v: cells){ lo=lo&&cell_rel<T>(A.at(v),B.at(v),E,std::max(0.0,ea*(1-marg)-slack)); hi=hi&&cell_rel<T>(A.at(v),B.at(v),E,ea*(1+marg)); }
    if(lo==hi){ judge("equal-norm", field_equal(fa,fb,err), field_not_equal(fa,fb,err), lo); } else count("borderline-norm");
    lo=hi=true;
    for(auto& v: cells){ lo=lo&&((double)A.at(v)==dd || (E!=0 && std::abs(dd-A.at(v))/(std::abs(dd)+std::max(0.0,ea*(1-marg)-slack))<=E)); hi=hi&&((double)A.at(v)==dd || (E!=0 && std::abs(dd-A.at(v))/(std::abs(dd)+ea*(1+marg))<=E)); }
    if(lo==hi) judge("scalar-equal-norm", field_equal(dd,fa,err), field_not_equal(dd,fa,err), lo); else count("borderline-norm");
  }
  if(finite){
    bool w=true; for(auto& v: cells) w=w&&dist<T>(A.at(v),B.at(v))<=(__int128)ulps;
    judge("equal-ulp", field_equal_ulp(fa,fb,ulps), field_not_equal_ulp(fa,fb,ulps), w);
    w=true; for(auto& v: cells) w=w&&dist<T>(d0,B.at(v))<=(__int128)ulps; judge("scalar-equal-ulp", field_equal_ulp(dd,fb,ulps), field_not_equal_ulp(dd,fb,ulps), w);
  }
  { bool wa=true,we=true; Sides s;
    for(auto& v: cells){ T b=B.at(v); double df=std::abs(dd-b);
      bool same=(double)b==dd; we=we&&same; s(dd,(double)b,E,eabs,same || (E!=0 && df/(std::abs(dd)+eabs)<=E)); wa=wa&&(same || (E!=0 && df<=E)); }
    if(s.decided() && s.want()!=s.w) viol("oracle:inconsistent",c.desc);
    if(s.decided()) judge("scalar-equal", field_equal(dd,fb,err,eabs), field_not_equal(dd,fb,err,eabs), s.want()); else count("borderline");
    judge("scalar-equal-abs", field_equal_abs(dd,fb,err), field_not_equal_abs(dd,fb,err), wa);
    judge("scalar-equal-default", field_equal(dd,fb), field_not_equal(dd,fb), we);
    judge("scalar-equal-abs-default", field_equal_abs(dd,fb), field_not_equal_abs(dd,fb), we);
    if(std::isnan(dd)==false){ double nan=NAN; if(!cells.empty()) judge("scalar-nan", field_equal(nan,fb,err,eabs), field_not_equal(nan,fb,err,eabs), false); }
  }
  if(!A.unchanged()||!B.unchanged()) viol("arguments-modified", c.desc);
  if(!(fa.get_valid_ghost_data()==g) || !(fb.get_valid_ghost_data()==g)) viol("arguments-modified", c.desc+" ghosts");
  // different windows: every field-field form must refuse
  if(r.chance(0.5)){
    Lay m=l; Blk<F> C; int dir=r.range(0,2); bool differs=true;
    int w=r.range(0,2);
    if(w==0){ m.n[dir]=std::max(2,m.n[dir]+1); m.glob[dir]=m.off[dir]+m.d(dir)+(l.glob[dir]-l.off[dir]-l.d(dir)); }
    else if(w==1){ m.n[dir]+=1; m.glob[dir]+= 1+m.d(dir)-l.d(dir); m.off[dir]+=0; }
    else { m.n=IV(2,3,4); m.glob=IV(m.off[0]+m.d(0),m.off[1]+m.d(1),m.off[2]+m.d(2)); differs = !(m.n==l.n); }
    if(differs){
      C.make(m); C.each([&](int i,int j,int k){ C.at(i,j,k)=0; }); C.snap(); const F& fc=*C.f;
      auto refuse=[&](const char* nm, std::function<bool()> q){ bool t=false; try{ q(); }catch(const std::runtime_error&){ t=true; } count("refusals"); if(!t) viol(std::string(nm)+":accepted-different-windows", c.desc+" against "+m.s()); };
      refuse("equal",[&]{ return field_equal(fa,fc,err,eabs); }); refuse("equal-norm",[&]{ return field_equal(fc,fa,err); });
      refuse("not-equal",[&]{ return field_not_equal(fc,fa,err,eabs); }); refuse("not-equal-norm",[&]{ return field_not_equal(fa,fc,err); });
      refuse("equal-abs",[&]{ return field_equal_abs(fc,fa,err); }); refuse("not-equal-abs",[&]{ return field_not_equal_abs(fa,fc,err); });
      refuse("equal-ulp",[&]{ return field_equal_ulp(fa,fc,ulps); }); refuse("not-equal-ulp",[&]{ return field_not_equal_ulp(fc,fa,ulps); });
      if(!A.unchanged()||!C.unchanged()) viol("arguments-modified", c.desc+" by a refused comparison");
    }
  }
}
typedef SpatialField<SVol,float> SFloat; typedef SpatialField<XSurfY,float> XSYFloat;
int main(int argc,char** argv){
  init(argc,argv);
  group("svol",900,one<SVolField>); group("xsurfz",900,one<XSurfZField>); group("zvol",600,one<ZVolField>);
  group("float",900,one<SFloat>); group("float-face",600,one<XSYFloat>);
  return finish();
}
