// O02: discrete calculus identities, with coordinates supplied by the mesh description.
#include "ops.h"
using namespace vf;
template<class F> struct Coord { Blk<F> c[3];
  void make(Rng& r,const Dom& d,const Grid& g){ for(int q=0;q<3;++q) c[q].make(make_lay<F>(r,d,r.chance(0.3))); g.set_coord<XDIR>(*c[0].f); g.set_coord<YDIR>(*c[1].f); g.set_coord<ZDIR>(*c[2].f); }
  double at(int q,int i,int j,int k) const { return c[q].at(i,j,k); } };
template<class Op,class S,class D> void run(Case& c,const char* nm,int kind,int dir0){
  Rng& r=c.r; double one[3]={1,1,1}; OpRef probe=opref(kind,At<S>::s(),At<D>::s(),dir0,7,one); int dir=probe.dir, dims=probe.dims;
  DomOpt o; o.maxn=r.chance(0.1)?14:5; o.maxg=2; Dom d=rand_dom(r,o); std::vector<double> L(3);
  for(int t=0;t<3;++t){ if((dims&(1<<t)) && d.n[t]==1){ d.n[t]=r.range(2,o.maxn); d.bc[t]=r.chance(0.4); } if(d.n[t]>1){ d.gm[t]=1+r.range(0,1); d.gp[t]=1+r.range(0,1); } L[t]= r.chance(0.15)? 1.0 : std::pow(10.0,r.real(-3,3)); }
  Grid grid(d.n,L); double h[3]={grid.spacing<XDIR>(),grid.spacing<YDIR>(),grid.spacing<ZDIR>()};
  OperatorDatabase db; build_stencils(d.n[0],d.n[1],d.n[2],L[0],L[1],L[2],db);
  const Op& op=*db.retrieve_operator<Op>();
  // operand: a field of the source location whose extra cells the statement can cover
  Coord<S> cs; cs.make(r,d,grid); Coord<D> cd; cd.make(r,d,grid);
  double a=r.real(-2,2), s[3], mag=std::fabs(a); for(int t=0;t<3;++t){ s[t]= r.chance(0.15)?0.0: r.real(-2,2)/L[t]; mag+=std::fabs(s[t])*L[t]*4; }
  if(r.chance(0.1)) a*=1e4, mag+=std::fabs(a);
  Blk<S> f; f.make(make_lay<S>(r,d,r.chance(0.3))); for(long q=0;q<npts(f.l.glob);++q) f.mem[q]=NAN;
  Blk<D> g; g.make(make_lay<D>(r,d,r.chance(0.3)));
  c.note(std::string(nm)+" "+At<S>::n()+"->"+At<D>::n()+" n"+str(d.n)+fmt(" L %.5g %.5g %.5g f=%.4g%+.4gx%+.4gy%+.4gz ",L[0],L[1],L[2],a,s[0],s[1],s[2])+" src "+f.l.s()+" dst "+g.l.s()); c.add(hstr(nm)); c.add(f.l.h()); c.add(g.l.h()); c.add(L[0]+L[1]); c.add(a);
  Box bx; bx.n=d.n; bx.all=bx.bad=false; for(int t=0;t<3;++t){ bx.lo[t]=f.l.lo(t); bx.hi[t]=f.l.hi(t); }
  G ref=probe.r(G{bx,[](int,int,int){ return 0.0; }}); IV lo,hi; if(!region(d,g,ref,lo,hi)){ c.nontrivial=false; count("skipped"); return; }
  double tol=1e-12*mag; if(kind==OD||kind==OFD) tol/=h[dir];
  auto cells=[&](const Blk<D>& b,const std::function<double(int,int,int)>& want,const char* what,double t){ bool bad=false; for(int k=lo[2];k<hi[2];++k)for(int j=lo[1];j<hi[1];++j)for(int i=lo[0];i<hi[0];++i){ if(bad) continue; double w=want(i,j,k), x=b.at(i,j,k); count("cells"); if(!(std::fabs(x-w)<=t)){ bad=true; viol(std::string(nm)+":"+what,c.desc+fmt(" cell (%d,%d,%d) is %.17g, expected %.17g",i,j,k,x,w)); } } };
  // a linear function (all of it known where the field is valid)
  f.each([&](int i,int j,int k){ f.at(i,j,k)=a+s[0]*cs.at(0,i,j,k)+s[1]*cs.at(1,i,j,k)+s[2]*cs.at(2,i,j,k); });
  *g.f <<= op(*f.f);
  if(kind==OD||kind==OFD) cells(g,[&](int,int,int){ return s[dir]; },"gradient-of-linear",tol);
  else cells(g,[&](int i,int j,int k){ return a+s[0]*cd.at(0,i,j,k)+s[1]*cd.at(1,i,j,k)+s[2]*cd.at(2,i,j,k); },"interpolation-of-linear",tol);
  count("linear");
  // a constant
  f.each([&](int i,int j,int k){ f.at(i,j,k)=a; }); *g.f <<= op(*f.f); cells(g,[&](int,int,int){ return kind==OD||kind==OFD?0.0:a; },"constant",(kind==OD||kind==OFD)?1e-15*std::fabs(a)/h[dir]:1e-15*std::fabs(a));
  // linearity in the argument
  Blk<S> u,v; u.make(f.l); v.make(f.l); u.fill(r,-3,3); v.fill(r,-3,3); double x=r.real(-3,3), y=r.real(-3,3); Blk<D> gu,gv; gu.make(g.l); gv.make(g.l);
  *gu.f <<= op(*u.f); *gv.f <<= op(*v.f); *g.f <<= op(x * *u.f + y * *v.f); double m2=1e-13*30*((kind==OD||kind==OFD)?1/h[dir]:1);
  cells(g,[&](int i,int j,int k){ return x*gu.at(i,j,k)+y*gv.at(i,j,k); },"linear-operator",m2); count("linearity");
  // telescoping: the difference summed over a line of cells is the difference of the ends
  if(kind==OD){ int si=At<S>::s()[dir]; IV e(0,0,0); e[dir]=1; int t1=(dir+1)%3,t2=(dir+2)%3;
    for(int p=lo[t1];p<hi[t1];++p)for(int q=lo[t2];q<hi[t2];++q){ IV z; z[t1]=p; z[t2]=q; double sum=0; for(int w=lo[dir];w<hi[dir];++w){ z[dir]=w; sum+=gu.at(z[0],z[1],z[2])*h[dir]; }
      IV A=z,B=z; A[dir]=lo[dir]-(si?0:1); B[dir]=hi[dir]-(si?0:1); double want=u.at(B)-u.at(A); count("lines");
      if(!(std::fabs(sum-want)<=1e-12*8*(hi[dir]-lo[dir]))) viol(std::string(nm)+":telescoping",c.desc+fmt(" line at (%d,%d): %.17g, boundary fluxes give %.17g",p,q,sum,want)); } }
}
// compositions on one volume: divergence of gradient of a quadratic, and summation by parts
template<class V> void calc(Case& c,const char* nm){
  typedef BasicOpTypes<V> T; typedef typename FaceTypes<V>::XFace FX; typedef typename FaceTypes<V>::YFace FY; typedef typename FaceTypes<V>::ZFace FZ; Rng& r=c.r; Dom d; std::vector<double> L(3);
  for(int t=0;t<3;++t){ d.n[t]=r.range(2,6); d.bc[t]=0; d.gm[t]=d.gp[t]=1+r.range(0,1); L[t]=std::pow(10.0,r.real(-2,2)); }
  Grid grid(d.n,L); double h[3]={grid.spacing<XDIR>(),grid.spacing<YDIR>(),grid.spacing<ZDIR>()}; OperatorDatabase db; build_stencils(d.n[0],d.n[1],d.n[2],L[0],L[1],L[2],db);
  const typename T::GradX& gx=*db.retrieve_operator<typename T::GradX>(); const typename T::GradY& gy=*db.retrieve_operator<typename T::GradY>(); const typename T::GradZ& gz=*db.retrieve_operator<typename T::GradZ>();
  const typename T::DivX& dx=*db.retrieve_operator<typename T::DivX>(); const typename T::DivY& dy=*db.retrieve_operator<typename T::DivY>(); const typename T::DivZ& dz=*db.retrieve_operator<typename T::DivZ>();
  Coord<V> cs; cs.make(r,d,grid); Blk<V> f,g; f.make(make_lay<V>(r,d,r.chance(0.3))); g.make(make_lay<V>(r,d,r.chance(0.3)));
  c.note(std::string(nm)+" n"+str(d.n)+fmt(" L %.5g %.5g %.5g",L[0],L[1],L[2])); c.add(hstr(nm)); c.add(f.l.h()); c.add(g.l.h()); c.add(L[0]+L[1]);
  double q[3]; double tol=0,want=0; for(int t=0;t<3;++t){ q[t]=r.real(-2,2)/(L[t]*L[t]); want+=2*q[t]; tol+=4*std::fabs(q[t])*L[t]*L[t]; } double hm=0; for(int t=0;t<3;++t) hm=std::max(hm,1/(h[t]*h[t]));
  f.each([&](int i,int j,int k){ double s=0; for(int t=0;t<3;++t) s+=q[t]*cs.at(t,i,j,k)*cs.at(t,i,j,k); f.at(i,j,k)=s; });
  *g.f <<= dx(gx(*f.f))+dy(gy(*f.f))+dz(gz(*f.f)); bool bad=false;
  for(int k=0;k<d.n[2];++k)for(int j=0;j<d.n[1];++j)for(int i=0;i<d.n[0];++i){ double x=g.at(i,j,k); count("cells"); if(!bad&&!(std::fabs(x-want)<=1e-12*tol*hm)){ bad=true; viol(std::string(nm)+":laplacian",c.desc+fmt(" cell (%d,%d,%d) is %.17g, expected %.17g",i,j,k,x,want)); } }
  // a compactly supported flux has divergence summing to zero, and <u,div F> = -<grad u,F>
  Blk<FX> Fx; Fx.make(make_lay<FX>(r,d,false)); Blk<FY> Fy; Fy.make(make_lay<FY>(r,d,false)); Blk<FZ> Fz; Fz.make(make_lay<FZ>(r,d,false));
  // flux points whose two neighbouring cells both are interior
  auto fillF=[&](auto& b,int dir){ int st=At<V>::s()[dir]; b.each([&](int i,int j,int k){ int x[3]={i,j,k}; bool in=true; for(int t=0;t<3;++t) if(t==dir? (x[t]<(st?0:1) || x[t]>=d.n[t]-(st?1:0)) : (x[t]<0||x[t]>=d.n[t])) in=false; b.at(i,j,k)= in? r.real(-3,3):0.0; }); };
  fillF(Fx,0); fillF(Fy,1); fillF(Fz,2);
  f.fill(r,-3,3); for(long z=0;z<npts(g.l.glob);++z) g.mem[z]=0;
  *g.f <<= dx(*Fx.f)+dy(*Fy.f)+dz(*Fz.f); double sum=0,left=0,sc=0; g.each([&](int i,int j,int k){ int x[3]={i,j,k}; int w=1; for(int t=0;t<3;++t) if(x[t]<0||x[t]>=d.n[t]) w=0;
    if(w){ sum+=g.at(i,j,k); left+=g.at(i,j,k)*f.at(i,j,k); sc+=std::fabs(g.at(i,j,k))*3; } });
  if(!(std::fabs(sum)<=1e-12*(sc+1))) viol(std::string(nm)+":divergence-sum",c.desc+fmt(" sums to %.17g",sum));
  Blk<FX> ux; ux.make(Fx.l); Blk<FY> uy; uy.make(Fy.l); Blk<FZ> uz; uz.make(Fz.l); *ux.f <<= gx(*f.f); *uy.f <<= gy(*f.f); *uz.f <<= gz(*f.f); double right=0;
  Fx.each([&](int i,int j,int k){ if(Fx.at(i,j,k)!=0){ right+=Fx.at(i,j,k)*ux.at(i,j,k); } }); Fy.each([&](int i,int j,int k){ if(Fy.at(i,j,k)!=0) right+=Fy.at(i,j,k)*uy.at(i,j,k); }); Fz.each([&](int i,int j,int k){ if(Fz.at(i,j,k)!=0) right+=Fz.at(i,j,k)*uz.at(i,j,k); });
  count("by-parts"); if(!(std::fabs(left+right)<=1e-12*(sc*3+1))) viol(std::string(nm)+":by-parts",c.desc+fmt(" <u,div F> = %.17g, <grad u,F> = %.17g",left,right));
}
int main(int argc,char** argv){
  init(argc,argv);
#define X(T,S,D,K,DIR) group(#T,10,[](Case& c){ run<T,S##Field,D##Field>(c,#T,K,DIR); });
#if PART==0
  VF_OPS_PART0(X) group("calculus SVol",40,[](Case& c){ calc<SVolField>(c,"calculus SVol"); });
#elif PART==1
  VF_OPS_PART1(X) group("calculus XVol",40,[](Case& c){ calc<XVolField>(c,"calculus XVol"); });
#elif PART==2
  VF_OPS_PART2(X) group("calculus YVol",40,[](Case& c){ calc<YVolField>(c,"calculus YVol"); });
#else
  VF_OPS_PART3(X) group("calculus ZVol",40,[](Case& c){ calc<ZVolField>(c,"calculus ZVol"); });
#endif
  return finish();
}
