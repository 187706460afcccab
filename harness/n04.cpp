// N04: reductions fold exactly the valid (or interior) cells.
#include "grid.h"
using namespace vf;
#define X(...) VF_PROG(__VA_ARGS__)
VF_PROGS(X)
#undef X
static std::vector<double> visited;
static long const& logfold(long const& n,double const& v){ static thread_local long r[2]; static int w=0; w^=1; visited.push_back(v); r[w]=n+1; return r[w]; }
static double const& keepbig(double const& a,double const& b){ return std::fabs(b)>std::fabs(a)? b : a; }
static double absum(double const& a,double const& b){ return std::fabs(a)+std::fabs(b); }
struct Res { double mx,mn,sm,nm,big,as; long n; std::vector<double> seen; };
struct Red { Res full,in; bool doFull,doIn; 
  template<class E> void operator()(const E& e){
    if(doFull){ full.mx=nebo_max(e); full.mn=nebo_min(e); full.sm=nebo_sum(e); full.nm=nebo_norm(e); full.big=nebo_reduce(keepbig,e); full.as=nebo_reduce(absum,e); visited.clear(); full.n=nebo_fold(logfold,5L,e)-5; full.seen=visited; }
    if(doIn){ in.mx=nebo_max_interior(e); in.mn=nebo_min_interior(e); in.sm=nebo_sum_interior(e); in.nm=nebo_norm_interior(e); in.big=nebo_reduce_interior(keepbig,e); in.as=nebo_reduce_interior(absum,e); visited.clear(); in.n=nebo_fold_interior(logfold,7L,e)-7; in.seen=visited; } }
};
static void judge(Case& c,const std::string& nm,const Res& R,const G& g,const IV& lo,const IV& hi,bool exact=false,double tol=1e-10){
  std::vector<double> v; for(int k=lo[2];k<hi[2];++k)for(int j=lo[1];j<hi[1];++j)for(int i=lo[0];i<hi[0];++i) v.push_back(g.f(i,j,k));
  std::string where=c.desc+fmt(" %s region [%s,%s) ",nm.c_str(),str(lo).c_str(),str(hi).c_str());
  if(R.n!=(long)v.size()||R.seen.size()!=v.size()){ viol(nm+":cells",where+fmt("folded %ld values, the region has %zu",R.n,v.size())); return; }
  double mx=v[0],mn=v[0],sm=0,ab=0,sq=0,bg=0; for(double x: v){ mx=std::max(mx,x); mn=std::min(mn,x); sm+=x; ab+=std::fabs(x); sq+=x*x; bg=std::max(bg,std::fabs(x)); }
  auto bad=[&](const char* what,double got,double want,double sc){ if(!close(got,want,tol,sc)) viol(nm+":"+what,where+fmt("%s is %.17g, expected %.17g",what,got,want)); };
  double u=exact?0:1; bad("max",R.mx,mx,u); bad("min",R.mn,mn,u); bad("sum",R.sm,sm,ab); bad("norm",R.nm,std::sqrt(sq),u); bad("reduce",std::fabs(R.big),bg,u); bad("reduce2",std::fabs(R.as),ab,ab);
  std::vector<double> s=R.seen; std::sort(s.begin(),s.end()); std::sort(v.begin(),v.end());
  for(size_t q=0;q<v.size();++q) if(!close(s[q],v[q],tol,u)){ viol(nm+":values",where+fmt("folded values differ: rank %zu is %.17g, expected %.17g",q,s[q],v[q])); break; }
  count("folded",v.size()); count("reductions",7);
}
template<class P> struct IsSV { static const bool value=false; }; template<> struct IsSV<P20> { static const bool value=true; };
template<class P> typename std::enable_if<IsSV<P>::value>::type run(Case& c,const char*){ c.nontrivial=false; }
template<class P> typename std::enable_if<!IsSV<P>::value>::type run(Case& c,const char* nm){
  Rng& r=c.r; World w; w.build(r,P::reach(),P::dims(),r.chance(.2)?9:5,true);
  c.note(std::string(nm)+" reductions of `"+P::text()+"` "+w.str_()); c.add(hstr(nm)); c.add(w.sig());
  std::unique_ptr<RE> re(w.re()); G g=P::ref(*re); if(g.b.bad||g.b.all){ c.nontrivial=false; count("skipped"); return; }
  std::unique_ptr<NE> ne(w.ne()); Red red; red.doFull=red.doIn=true; P::reduce(*ne,red);
  judge(c,std::string(nm),red.full,g,g.b.lo,g.b.hi); judge(c,std::string(nm)+"-interior",red.in,g,IV(0,0,0),w.dom.n);
  std::string why; if(!w.operands_same(why)) viol(std::string(nm)+":operand-changed",c.desc+" operand "+why);
}
// plain fields of every location, both element types, through the field overloads and the field_ names
template<class F> void plain(Case& c){
  Rng& r=c.r; typedef typename F::value_type V; World w; w.build(r,0,0,6,false); Blk<F> x; IV lo,hi; w.lay<F>(r,x,lo,hi,0,false,true,true,r.range(0,1));
  int sgn=r.range(0,7); x.each([&](int i,int j,int k){ V& z=x.at(i,j,k); if(z==z){ if(sgn==1) z=-std::fabs(z)-1; if(sgn==2) z=std::fabs(z)+1; if(sgn==3) z=(-std::fabs(z)-1)*1e300; if(sgn==4) z=(std::fabs(z)+1)*1e300; if(sgn==5) z*=1e-150; if(sgn==6) z= z<0? -HUGE_VAL : z*1e-312; } }); x.snap();
  c.note(std::string(F::Location::FaceDir::value>3?"":"")+typeid(F).name()+" "+x.l.s()+" valid ["+str(lo)+","+str(hi)+")"); c.add(hstr(typeid(F).name())); c.add(x.l.h()); c.add(hcomb(lo[0]*7+lo[1],hi[2]*31+hi[1]));
  G g=w.leaf<F>(x,lo,hi); F& f=*x.f; Res R; 
  R.mx=field_max(f); R.mn=field_min(f); R.sm=field_sum(f); R.nm=field_norm(f); R.big=field_reduce(keepbig,f); R.as=field_reduce(absum,f); visited.clear(); R.n=field_fold(logfold,0L,f); R.seen=visited; judge(c,"field",R,g,lo,hi,true);
  R.mx=field_max_interior(f); R.mn=field_min_interior(f); R.sm=field_sum_interior(f); R.nm=field_norm_interior(f); R.big=field_reduce_interior(keepbig,f); R.as=field_reduce_interior(absum,f); visited.clear(); R.n=field_fold_interior(logfold,0L,f); R.seen=visited; judge(c,"field-interior",R,g,IV(0,0,0),w.dom.n,true); if(sgn>=3) count("extreme");
  if(!x.unchanged()) viol("field:operand-changed",c.desc);
}
// single-precision fields, alone and in expressions
static long const& logfoldf(long const& n,float const& v){ static thread_local long r[2]; static int w=0; w^=1; visited.push_back(v); r[w]=n+1; return r[w]; }
static float const& keepbigf(float const& a,float const& b){ return std::fabs(b)>std::fabs(a)? b : a; }
static float absumf(float const& a,float const& b){ return std::fabs(a)+std::fabs(b); }
static double nrm(const G& g,const IV& lo,const IV& hi){ double q=0; for(int k=lo[2];k<hi[2];++k)for(int j=lo[1];j<hi[1];++j)for(int i=lo[0];i<hi[0];++i){ double v=g.f(i,j,k); q+=v*v; } return std::sqrt(q); }
template<class F> void narrow(Case& c){
  Rng& r=c.r; World w; w.build(r,0,0,6,false); Blk<F> x; IV lo,hi; w.lay<F>(r,x,lo,hi,0,false,true,true,r.range(0,1));
  int sgn=r.range(0,6); x.each([&](int i,int j,int k){ float& z=x.at(i,j,k); if(z==z){ if(sgn==1) z=-std::fabs(z)-1; if(sgn==2) z=std::fabs(z)+1; if(sgn==3) z=(-std::fabs(z)-1)*1e30f; if(sgn==4) z=(std::fabs(z)+1)*1e30f; if(sgn==5) z*=1e-15f; } }); x.snap(); double scale= sgn==3||sgn==4? 1e-20 : 1;
  c.note(std::string(typeid(F).name())+" float "+x.l.s()+" valid ["+str(lo)+","+str(hi)+")"); c.add(hstr(typeid(F).name())); c.add(x.l.h()); c.add(hcomb(lo[0]*7+lo[1],hi[2]*31+hi[1]));
  const Blk<F>* p=&x; Box b; b.n=w.dom.n; b.all=b.bad=false; b.lo=lo; b.hi=hi; F& f=*x.f; Res R; const float s=(float)scale; bool norm=sgn<3||sgn==6;
  G g{b,[p](int i,int j,int k){ return (double)p->before[p->l.flat(i,j,k)]; }}, e{b,[p,s](int i,int j,int k){ float v=p->before[p->l.flat(i,j,k)]*s; return (double)(v-0.5f); }};
  R.mx=field_max(f); R.mn=field_min(f); R.sm=field_sum(f); R.nm=field_norm(f); R.big=field_reduce(keepbigf,f); R.as=field_reduce(absumf,f); visited.clear(); R.n=field_fold(logfoldf,0L,f); R.seen=visited; if(!norm) R.nm=nrm(g,lo,hi); judge(c,"float-field",R,g,lo,hi,true,2e-5);
  R.mx=field_max_interior(f); R.mn=field_min_interior(f); R.sm=field_sum_interior(f); R.nm=field_norm_interior(f); R.big=field_reduce_interior(keepbigf,f); R.as=field_reduce_interior(absumf,f); visited.clear(); R.n=field_fold_interior(logfoldf,0L,f); R.seen=visited; if(!norm) R.nm=nrm(g,IV(0,0,0),w.dom.n); judge(c,"float-field-interior",R,g,IV(0,0,0),w.dom.n,true,2e-5);
  R.mx=nebo_max(f*s-0.5f); R.mn=nebo_min(f*s-0.5f); R.sm=nebo_sum(f*s-0.5f); R.nm=nebo_norm(f*s-0.5f); R.big=nebo_reduce(keepbigf,f*s-0.5f); R.as=nebo_reduce(absumf,f*s-0.5f); visited.clear(); R.n=nebo_fold(logfoldf,3L,f*s-0.5f)-3; R.seen=visited; judge(c,"float-expression",R,e,lo,hi,false,2e-5);
  R.mx=nebo_max_interior(f*s-0.5f); R.mn=nebo_min_interior(f*s-0.5f); R.sm=nebo_sum_interior(f*s-0.5f); R.nm=nebo_norm_interior(f*s-0.5f); R.big=nebo_reduce_interior(keepbigf,f*s-0.5f); R.as=nebo_reduce_interior(absumf,f*s-0.5f); visited.clear(); R.n=nebo_fold_interior(logfoldf,3L,f*s-0.5f)-3; R.seen=visited; judge(c,"float-expression-interior",R,e,IV(0,0,0),w.dom.n,false,2e-5);
  count("float-reductions",28); if(!x.unchanged()) viol("float-field:operand-changed",c.desc);
}
int main(int argc,char** argv){
  init(argc,argv);
#define X(ID,DST,TYPE,...) if(std::string(#ID)!="P20") group(#ID,120,[](Case& c){ run<ID>(c,#ID); });
  VF_PROGS(X)
#define PL(T) group("plain-" #T,150,[](Case& c){ plain<T>(c); });
  PL(SVolField) PL(XVolField) PL(YVolField) PL(ZVolField) PL(SSurfXField) PL(SSurfYField) PL(SSurfZField) PL(XSurfXField) PL(XSurfYField) PL(XSurfZField) PL(YSurfXField) PL(YSurfYField) PL(YSurfZField) PL(ZSurfXField) PL(ZSurfYField) PL(ZSurfZField)
  group("float-svol",150,narrow<SpatialField<SVol,float> >); group("float-xsurfy",150,narrow<SpatialField<XSurfY,float> >); group("float-zvol",150,narrow<SpatialField<ZVol,float> >);
  return finish();
}
