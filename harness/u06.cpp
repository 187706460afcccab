// U06: analytic field functions against their formulas and derivatives (long double).
#include "fields.h"
#include <cfloat>
#include <spatialops/FieldFunctions.h>
using namespace vf; typedef long double LD;
static const LD EPS=std::numeric_limits<double>::epsilon();
// a patch: identifiers looked up in a manager of coordinate fields
template<class F> struct Patch { typedef int FieldID; struct Mgr { std::map<int,const F*> f; int looked; const F& field_ref(int i){ ++looked; return *f.at(i); } } m; template<class G> Mgr& field_manager(){ return m; } };
// what a user writes on top of the 2D and 3D bases
template<class F,class P> struct Plane : FieldFunction2D<F,P> { Plane(const F& x,const F& y):FieldFunction2D<F,P>(x,y){} Plane(P& p,int x,int y,int z):FieldFunction2D<F,P>(p,x,y,z){} void evaluate(F& f) const { f <<= this->get_x()*2.0 - this->get_y(); } };
template<class F,class P> struct Space : FieldFunction3D<F,P> { Space(const F& x,const F& y,const F& z):FieldFunction3D<F,P>(x,y,z){} Space(P& p,int x,int y,int z):FieldFunction3D<F,P>(p,x,y,z){} void evaluate(F& f) const { f <<= this->get_x()*4.0 - this->get_y()*2.0 + this->get_z(); } };
template<class F> void bases(Case& c){
  Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); Lay l=make_lay<F>(r,d,r.chance(0.4)); typedef Patch<F> P; Blk<F> X[3],D; for(Blk<F>& b: X){ b.make(l); b.each([&](int i,int j,int k){ b.at(i,j,k)=r.range(-1000,1000); }); b.snap(); } D.make(l); D.snap();
  bool patch=r.chance(0.6), three=r.chance(0.5); int id[3]={r.range(0,9),r.range(10,19),r.range(20,29)}; P p; p.m.looked=0; for(int i=0;i<3;++i) p.m.f[id[i]]=X[i].f.get(); c.add(l.h()); c.add((uint64_t)(patch*2+three)); c.note(fmt("%d coordinates, %s",three?3:2,patch?"patch":"fields"));
  const F *gx=0,*gy=0,*gz=0;
  if(three){ std::unique_ptr<Space<F,P> > f(patch? new Space<F,P>(p,id[0],id[1],id[2]) : new Space<F,P>(*X[0].f,*X[1].f,*X[2].f)); if(r.chance(0.3)) gz=&f->get_z(); f->evaluate(*D.f); gx=&f->get_x(); gy=&f->get_y(); gz=&f->get_z(); }
  else { std::unique_ptr<Plane<F,P> > f(patch? new Plane<F,P>(p,id[0],id[1],id[2]) : new Plane<F,P>(*X[0].f,*X[1].f)); f->evaluate(*D.f); gx=&f->get_x(); gy=&f->get_y(); gz=X[2].f.get(); }
  if(gx!=X[0].f.get()||gy!=X[1].f.get()||gz!=X[2].f.get()) viol("base:coordinate-field",c.desc);
  for(Blk<F>& b: X) if(!b.unchanged()) viol("coordinates-modified",c.desc);
  bool bad=false; D.each([&](int i,int j,int k){ double v= three? X[0].at(i,j,k)*4.0-X[1].at(i,j,k)*2.0+X[2].at(i,j,k) : X[0].at(i,j,k)*2.0-X[1].at(i,j,k); if(D.at(i,j,k)!=v) bad=true; }); if(bad) viol("base:value",c.desc); count("bases");
}
template<class F> void one(Case& c){
  Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); Lay l=make_lay<F>(r,d,r.chance(0.4)), lo=make_lay<F>(r,d,r.chance(0.4));
  Blk<F> X,D; X.make(l); D.make(lo); double scale=std::pow(10.0,r.range(-2,2)); X.fill(r,-5*scale,5*scale);
  if(r.chance(0.3)) X.each([&](int i,int j,int k){ if(r.chance(0.3)) X.at(i,j,k)=r.range(-2,2); });
  double p[5]; for(double& q: p) q= r.chance(0.1)? 0.0 : r.chance(0.2)? (double)r.range(-3,3) : r.real(-4,4);
  if(sizeof(typename F::value_type)==4) for(double& q: p) q=(float)q;
  int kind=r.range(0,3), form= kind==3? 0 : r.range(0,2); bool base=r.chance(0.6);
  double w=std::pow(10.0,r.real(-0.5,1))*scale; if(sizeof(typename F::value_type)==4) w=(float)w; // widths away from zero
  typedef typename F::value_type V; const LD eps= sizeof(V)==4? FLT_EPSILON : EPS, tiny= sizeof(V)==4? 1e-36L : 1e-300L; if(sizeof(V)==4) count("float-cases");
  static const char* kn[]={"linear","sine","gaussian","hyperbolic-tangent"}; static const char* fn[]={"evaluate","dx","d2x"};
  c.add(l.h()); c.add((uint64_t)(kind*3+form)); for(double q: p) c.add(q); c.add(w);
  c.note(fmt("%s %s %s p %g %g %g %g w %g x%s",typeid(F).name(),kn[kind],fn[form],p[0],p[1],p[2],p[3],w,l.s().c_str()));
  X.snap(); D.snap(); typedef Patch<F> P; P pa; int fid=r.range(0,50); pa.m.looked=0; pa.m.f[fid]=X.f.get(); bool patch= kind!=3 && r.chance(0.4); if(patch) count("from-patch"); std::unique_ptr<FieldFunction1D<F> > f; std::unique_ptr<FieldFunction1D<F,P> > fp;
  std::function<LD(LD)> g; std::function<LD(LD)> tol; // value and rounding scale
  const F& x=*X.f; double a=p[0], b0=base? p[1]:0, m=p[2], s=w*(r.chance(0.5)?1:-1);
  if(kind==0){ if(patch) fp.reset(new LinearFunction1D<F,P>(pa,fid,a,p[1])); else f.reset(new LinearFunction1D<F>(x,a,p[1])); LD b=p[1]; g= form==0? std::function<LD(LD)>([=](LD t){ return a*t+b; }) : form==1? [=](LD){ return (LD)a; } : std::function<LD(LD)>([](LD){ return (LD)0; }); tol=[=](LD t){ return form? 0: fabsl(a*t)+fabsl(b); }; }
  if(kind==1){ if(patch) fp.reset(base? new SinFunction<F,P>(pa,fid,a,m,b0) : new SinFunction<F,P>(pa,fid,a,m)); else f.reset(base? new SinFunction<F>(x,a,m,b0) : new SinFunction<F>(x,a,m)); LD A=a,M=m,B=b0; 
    g= form==0? std::function<LD(LD)>([=](LD t){ return A*sinl(M*t)+B; }) : form==1? std::function<LD(LD)>([=](LD t){ return A*M*cosl(M*t); }) : std::function<LD(LD)>([=](LD t){ return -A*M*M*sinl(M*t); });
    tol=[=](LD t){ LD k= form==0?1: form==1? fabsl(M): M*M; return fabsl(A)*k*(1+fabsl(M*t))+fabsl(B); }; }
  if(kind==2){ if(patch) fp.reset(base? new GaussianFunction<F,P>(pa,fid,a,s,m,b0) : new GaussianFunction<F,P>(pa,fid,a,s,m)); else f.reset(base? new GaussianFunction<F>(x,a,s,m,b0) : new GaussianFunction<F>(x,a,s,m)); LD A=a,S=s,M=m,B=b0;
    auto e=[=](LD t){ return A*expl(-(t-M)*(t-M)/(2*S*S)); };
    g= form==0? std::function<LD(LD)>([=](LD t){ return B+e(t); }) : form==1? std::function<LD(LD)>([=](LD t){ return -(t-M)/(S*S)*e(t); }) : std::function<LD(LD)>([=](LD t){ return ((t-M)*(t-M)/(S*S)-1)/(S*S)*e(t); });
    tol=[=](LD t){ LD z=(t-M)*(t-M)/(S*S), k= form==0?1: form==1? fabsl(t-M)/(S*S) : (1+z)/(S*S); return fabsl(e(t))*k*(4+4*z)+ (form==0?fabsl(B):0) + tiny; }; }
  if(kind==3){ double L2=p[3]; f.reset(new HyperTanFunction<F>(x,a,s,m,L2)); LD A=a,S=s,L1=m,Lb=L2;
    g=[=](LD t){ return A/4*(1+tanhl((t-L1)/S))*(1-tanhl((t-Lb)/S)); }; tol=[=](LD t){ return fabsl(A)*4*(1+fabsl((t-L1)/S)+fabsl((t-Lb)/S)); }; }
  if(patch){ if(form==0) fp->evaluate(*D.f); else if(form==1) fp->dx(*D.f); else fp->d2x(*D.f); }
  else { if(form==0) f->evaluate(*D.f); else if(form==1) f->dx(*D.f); else f->d2x(*D.f); }
  if((patch? &fp->get_x() : &f->get_x())!=X.f.get()) viol("coordinate-field-replaced",c.desc);
  if(!X.unchanged()) viol("coordinates-modified",c.desc);
  std::string why; if(!D.outside_same([&](int,int,int){ return true; },why)) viol("wrote-outside",c.desc+" "+why);
  bool bad=false; long n=0;
  D.each([&](int i,int j,int k){ if(bad) return; ++n; LD t=X.at(i,j,k), v=g(t); double got=D.at(i,j,k); if(!(fabsl(got-v)<=32*eps*(tol(t)+fabsl(v))+(sizeof(V)==4? 1e-37L : 0))){ bad=true; viol(std::string(kn[kind])+":"+fn[form],c.desc+fmt(" at x %.17g gave %.17g, should be %.17g",(double)t,got,(double)v)); } });
  count("cells",n); count(std::string(kn[kind])+":"+fn[form]);
}
int main(int argc,char** argv){ init(argc,argv); group("svol",2500,one<SVolField>); group("xsurfx",1500,one<XSurfXField>); group("float",1000,one<SpatialField<SVol,float> >); group("bases",1000,bases<SVolField>); group("bases-y",500,bases<YSurfXField>); group("zvol",1500,one<ZVolField>); return finish(); }
