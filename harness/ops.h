// The stock operators and their documented meaning, derived from where the
// staggered locations sit in the cell.
#ifndef VF_OPS_H
#define VF_OPS_H
#include "grid.h"
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/structured/Grid.h>
namespace vf {
template<class F> struct At; // 1: on faces in that direction, 0: at centres
#define VFA(F,a,b,c) template<> struct At<F##Field>{ static IV s(){ return IV(a,b,c); } static const char* n(){ return #F; } };
VFA(SVol,0,0,0) VFA(SSurfX,1,0,0) VFA(SSurfY,0,1,0) VFA(SSurfZ,0,0,1) VFA(XVol,1,0,0) VFA(XSurfX,0,0,0) VFA(XSurfY,1,1,0) VFA(XSurfZ,1,0,1)
VFA(YVol,0,1,0) VFA(YSurfX,1,1,0) VFA(YSurfY,0,0,0) VFA(YSurfZ,0,1,1) VFA(ZVol,0,0,1) VFA(ZSurfX,1,0,1) VFA(ZSurfY,0,1,1) VFA(ZSurfZ,0,0,0)
#undef VFA
// kinds: I mean of the adjacent sources; D difference of the two adjacent sources over
// the spacing; FI, FD the same with both neighbours along a given direction; B box mean
enum OpKind { OI, OD, OFI, OFD, OB };
struct OpRef { RefOp r; int dims; int dir; };
inline OpRef opref(int kind,const IV& s,const IV& t,int dir,int mask,const double* h){
  OpRef o; o.dims=0; o.dir=dir;
  if(kind==OB){ o.r=refBox(mask); o.dims=mask; return o; }
  if(kind==OFI){ o.r=refFD(dir,.5,.5); o.dims=1<<dir; return o; }
  if(kind==OFD){ o.r=refFD(dir,-.5/h[dir],.5/h[dir]); o.dims=1<<dir; return o; }
  std::vector<int> ds; for(int d=0;d<3;++d) if(s[d]!=t[d]){ ds.push_back(d); o.dims|=1<<d; }
  if(kind==OD){ o.dir=ds.at(0); if(ds.size()!=1) throw std::logic_error("reference: difference along several directions"); o.r=ref2(o.dir,s[o.dir],-1/h[o.dir],1/h[o.dir]); return o; }
  o.r=refNull();
  for(int d: ds){ RefOp x; for(auto& q: o.r.p) for(int z=0;z<2;++z){ IV v=q.first; v[d]+= s[d]? z : z-1; x.p.push_back({v,q.second*.5}); } o.r=x; }
  return o;
}
}
#define OTB(OP,S,D) OperatorTypeBuilder<OP,S##Field,D##Field>::type
// every operator build_stencils registers: X(type, source, destination, kind, direction)
#define VF_OPS_VOL(X,V) \
 X(BasicOpTypes<V##VolField>::InterpC2FX,V##Vol,V##SurfX,OI,0) X(BasicOpTypes<V##VolField>::InterpC2FY,V##Vol,V##SurfY,OI,1) X(BasicOpTypes<V##VolField>::InterpC2FZ,V##Vol,V##SurfZ,OI,2) \
 X(BasicOpTypes<V##VolField>::InterpF2CX,V##SurfX,V##Vol,OI,0) X(BasicOpTypes<V##VolField>::InterpF2CY,V##SurfY,V##Vol,OI,1) X(BasicOpTypes<V##VolField>::InterpF2CZ,V##SurfZ,V##Vol,OI,2) \
 X(BasicOpTypes<V##VolField>::GradX,V##Vol,V##SurfX,OD,0) X(BasicOpTypes<V##VolField>::GradY,V##Vol,V##SurfY,OD,1) X(BasicOpTypes<V##VolField>::GradZ,V##Vol,V##SurfZ,OD,2) \
 X(BasicOpTypes<V##VolField>::DivX,V##SurfX,V##Vol,OD,0) X(BasicOpTypes<V##VolField>::DivY,V##SurfY,V##Vol,OD,1) X(BasicOpTypes<V##VolField>::DivZ,V##SurfZ,V##Vol,OD,2)
#define VF_OPS_SAME(X,V) \
 X(OTB(InterpolantX,V##Vol,V##Vol),V##Vol,V##Vol,OFI,0) X(OTB(InterpolantY,V##Vol,V##Vol),V##Vol,V##Vol,OFI,1) X(OTB(InterpolantZ,V##Vol,V##Vol),V##Vol,V##Vol,OFI,2) \
 X(OTB(GradientX,V##Vol,V##Vol),V##Vol,V##Vol,OFD,0) X(OTB(GradientY,V##Vol,V##Vol),V##Vol,V##Vol,OFD,1) X(OTB(GradientZ,V##Vol,V##Vol),V##Vol,V##Vol,OFD,2) \
 X(OTB(Filter,V##Vol,V##Vol),V##Vol,V##Vol,OB,0) X(OTB(Interpolant,V##Vol,V##Vol),V##Vol,V##Vol,OI,0)
#define VF_OPS_IG(X,S,D) X(OTB(Interpolant,S,D),S,D,OI,0) X(OTB(Gradient,S,D),S,D,OD,0)
#define VF_OPS_CROSS(X) VF_OPS_IG(X,XVol,YSurfX) VF_OPS_IG(X,XVol,ZSurfX) VF_OPS_IG(X,YVol,XSurfY) VF_OPS_IG(X,YVol,ZSurfY) VF_OPS_IG(X,ZVol,XSurfZ) VF_OPS_IG(X,ZVol,YSurfZ) \
 VF_OPS_IG(X,SVol,XVol) VF_OPS_IG(X,SVol,YVol) VF_OPS_IG(X,SVol,ZVol) VF_OPS_IG(X,XVol,SVol) VF_OPS_IG(X,YVol,SVol) VF_OPS_IG(X,ZVol,SVol)
#define VF_OI(X,S,D) X(OTB(Interpolant,S,D),S,D,OI,0)
#define VF_OPS_NULL(X) VF_OI(X,XVol,SSurfX) VF_OI(X,YVol,SSurfY) VF_OI(X,ZVol,SSurfZ) VF_OI(X,SVol,XSurfX) VF_OI(X,SVol,YSurfY) VF_OI(X,SVol,ZSurfZ) VF_OI(X,XSurfX,SVol) VF_OI(X,YSurfY,SVol) VF_OI(X,ZSurfZ,SVol)
#define VF_OPS_FOUR(X) VF_OI(X,SVol,XSurfY) VF_OI(X,SVol,XSurfZ) VF_OI(X,SVol,YSurfX) VF_OI(X,SVol,YSurfZ) VF_OI(X,SVol,ZSurfX) VF_OI(X,SVol,ZSurfY) \
 VF_OI(X,XSurfY,SVol) VF_OI(X,XSurfZ,SVol) VF_OI(X,YSurfX,SVol) VF_OI(X,YSurfZ,SVol) VF_OI(X,ZSurfX,SVol) VF_OI(X,ZSurfY,SVol) \
 VF_OI(X,XVol,YVol) VF_OI(X,XVol,ZVol) VF_OI(X,YVol,XVol) VF_OI(X,YVol,ZVol) VF_OI(X,ZVol,XVol) VF_OI(X,ZVol,YVol)
// four parts of about equal size (compile time)
#define VF_OPS_PART0(X) VF_OPS_VOL(X,S) VF_OPS_SAME(X,S) VF_OPS_CROSS(X)
#define VF_OPS_PART1(X) VF_OPS_VOL(X,X) VF_OPS_SAME(X,X) VF_OPS_NULL(X)
#define VF_OPS_PART2(X) VF_OPS_VOL(X,Y) VF_OPS_SAME(X,Y) VF_OPS_FOUR(X)
#define VF_OPS_PART3(X) VF_OPS_VOL(X,Z) VF_OPS_SAME(X,Z)
namespace vf {
// an operand: valid region [lo,hi) holds values, all other memory NaN
template<class F> struct Opnd { Blk<F> b; IV lo,hi;
  void make(Rng& r,const Dom& dom,int reach,bool poison,double mag){
    Dom e=dom; for(int t=0;t<3;++t) if(dom.n[t]>1){ e.gm[t]=reach+r.range(0,2); e.gp[t]=reach+r.range(0,2); }
    b.make(make_lay<F>(r,e,r.chance(0.35))); IV vm=b.l.gm,vp=b.l.gp;
    if(r.chance(0.25)){ for(int t=0;t<3;++t){ vm[t]=r.range(std::min(reach,vm[t]),vm[t]); vp[t]=r.range(std::min(reach,vp[t]),vp[t]); } b.f->reset_valid_ghosts(GhostData(vm,vp)); }
    for(int t=0;t<3;++t){ lo[t]= dom.n[t]>1? -vm[t]:0; hi[t]= dom.n[t]>1? dom.n[t]+b.l.ex[t]+vp[t]:1; }
    if(poison) for(long q=0;q<npts(b.l.glob);++q) b.mem[q]=NAN;
    b.each([&](int i,int j,int k){ if(has(i,j,k)) b.at(i,j,k)=r.datum(-mag,mag); }); b.snap();
  }
  bool has(int i,int j,int k) const { int x[3]={i,j,k}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; }
  G g(const Dom& dom) const { const Blk<F>* p=&b; Box bx; bx.n=dom.n; bx.all=false; bx.bad=false; bx.lo=lo; bx.hi=hi; return G{bx,[p](int i,int j,int k){ return (double)p->before[p->l.flat(i,j,k)]; }}; }
};
// region an assignment of g to D writes; false when the assignment has no valid interior
template<class F> bool region(const Dom& dom,const Blk<F>& D,const G& g,IV& lo,IV& hi){
  bool ok=!g.b.bad;
  for(int t=0;t<3;++t){ lo[t]=D.l.lo(t); hi[t]=D.l.hi(t); if(!g.b.all){ lo[t]=std::max(lo[t],g.b.lo[t]); hi[t]=std::min(hi[t],g.b.hi[t]); if(g.b.lo[t]>0||g.b.hi[t]<dom.n[t]+D.l.ex[t]) ok=false; } }
  return ok;
}
}
#endif
