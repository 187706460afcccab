// Reference evaluation of whole-field programs (stencils included): a lazily
// evaluated grid G with the box of interior indices where it is known.  The same
// program text is compiled for Nebo (environment NE) and for the reference (RE).
#ifndef VF_GRID_H
#define VF_GRID_H
#include "fields.h"
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
namespace vf {
struct Box { IV n; bool all; IV lo,hi; bool bad; }; // n: domain; all: no location (scalar)
inline Box everywhere(const IV& n){ Box b; b.n=n; b.all=true; b.bad=false; b.lo=b.hi=IV(0,0,0); return b; }
inline Box meet(const Box& a,const Box& b){ if(a.all){ Box r=b; r.bad=a.bad||b.bad; return r; } if(b.all){ Box r=a; r.bad=a.bad||b.bad; return r; }
  Box r=a; r.bad=a.bad||b.bad; for(int t=0;t<3;++t){ r.lo[t]=std::max(a.lo[t],b.lo[t]); r.hi[t]=std::min(a.hi[t],b.hi[t]); } return r; }
typedef std::function<double(int,int,int)> Fn; typedef std::function<bool(int,int,int)> FnB;
struct G { Box b; Fn f; };
struct GB { Box b; FnB f; };
inline G num(const Box& like,double v){ return G{everywhere(like.n),[v](int,int,int){ return v; }}; }
#define VFG_OP(OP) \
 inline G operator OP(const G& a,const G& b){ Fn x=a.f,y=b.f; return G{meet(a.b,b.b),[x,y](int i,int j,int k){ return x(i,j,k) OP y(i,j,k); }}; } \
 inline G operator OP(const G& a,double b){ return a OP num(a.b,b); } inline G operator OP(double a,const G& b){ return num(b.b,a) OP b; }
VFG_OP(+) VFG_OP(-) VFG_OP(*) VFG_OP(/)
#undef VFG_OP
#define VFG_CMP(OP) \
 inline GB operator OP(const G& a,const G& b){ Fn x=a.f,y=b.f; return GB{meet(a.b,b.b),[x,y](int i,int j,int k){ return x(i,j,k) OP y(i,j,k); }}; } \
 inline GB operator OP(const G& a,double b){ return a OP num(a.b,b); } inline GB operator OP(double a,const G& b){ return num(b.b,a) OP b; }
VFG_CMP(<) VFG_CMP(>) VFG_CMP(<=) VFG_CMP(>=)
#undef VFG_CMP
inline GB operator!(const GB& a){ FnB x=a.f; return GB{a.b,[x](int i,int j,int k){ return !x(i,j,k); }}; }
inline GB operator&&(const GB& a,const GB& b){ FnB x=a.f,y=b.f; return GB{meet(a.b,b.b),[x,y](int i,int j,int k){ bool p=x(i,j,k),q=y(i,j,k); return p&&q; }}; }
inline GB operator||(const GB& a,const GB& b){ FnB x=a.f,y=b.f; return GB{meet(a.b,b.b),[x,y](int i,int j,int k){ bool p=x(i,j,k),q=y(i,j,k); return p||q; }}; }
#define VFG_UN(F,E) inline G F(const G& a){ Fn x=a.f; return G{a.b,[x](int i,int j,int k){ double v=x(i,j,k); return E; }}; }
VFG_UN(sin,std::sin(v)) VFG_UN(tanh,std::tanh(v)) VFG_UN(abs,std::fabs(v)) VFG_UN(operator-,-v)
#undef VFG_UN
#define VFG_F2(F,E) inline G F(const G& a,const G& b){ Fn x=a.f,y=b.f; return G{meet(a.b,b.b),[x,y](int i,int j,int k){ double p=x(i,j,k),q=y(i,j,k); return E; }}; } \
 inline G F(const G& a,double b){ return F(a,num(a.b,b)); } inline G F(double a,const G& b){ return F(num(b.b,a),b); }
VFG_F2(max,p>q?p:q) VFG_F2(min,p<q?p:q)
#undef VFG_F2
struct GC { std::vector<std::pair<GB,G> > c; Box b;
  template<class V> GC operator()(const GB& x,const V& v) const { GC r=*this; G g=mk(v); r.c.push_back(std::make_pair(x,g)); r.b=meet(r.b,meet(x.b,g.b)); return r; }
  template<class V> G operator()(const V& v) const { G g=mk(v); std::vector<std::pair<GB,G> > cc=c; return G{meet(b,g.b),[cc,g](int i,int j,int k){ for(auto& q: cc) if(q.first.f(i,j,k)) return q.second.f(i,j,k); return g.f(i,j,k); }}; }
  G mk(const G& g) const { return g; } G mk(double v) const { return num(b,v); } };
template<class V> inline GC cond(const GB& x,const V& v){ GC r; r.b=everywhere(x.b.n); return r(x,v); }
// a stencil: destination cell i combines source cells i+offset; the box where the
// result is known shrinks by the reach on each face
struct RefOp { std::vector<std::pair<IV,double> > p;
  G operator()(const G& a) const { G r; r.b=a.b; Fn x=a.f; auto pp=p;
    for(auto& q: p) for(int t=0;t<3;++t){ int lo=a.b.lo[t]+std::max(-q.first[t],0), hi=a.b.hi[t]-std::max(q.first[t],0); r.b.lo[t]=std::max(r.b.lo[t],lo); r.b.hi[t]=std::min(r.b.hi[t],hi); }
    for(int t=0;t<3;++t) if(r.b.lo[t]>0||r.b.hi[t]<r.b.n[t]) r.b.bad=true;   // not even the interior is known
    r.f=[x,pp](int i,int j,int k){ double s=0; for(auto& q: pp) s+=q.second*x(i+q.first[0],j+q.first[1],k+q.first[2]); return s; }; return r; }
};
inline IV unit(int d){ IV v(0,0,0); v[d]=1; return v; }
// two-point operator along d between centred (0) and staggered (1) locations
inline RefOp ref2(int d,int srcStag,double cl,double ch){ RefOp r; IV u=unit(d); IV m(0,0,0); m[d]=-1; if(srcStag){ r.p={{IV(0,0,0),cl},{u,ch}}; } else { r.p={{m,cl},{IV(0,0,0),ch}}; } return r; }
inline RefOp ref4(int d1,int s1,int d2,int s2,const double* c){ RefOp r; int q=0; for(int y=0;y<2;++y)for(int x=0;x<2;++x){ IV o(0,0,0); o[d1]= s1? x : x-1; o[d2]= s2? y : y-1; r.p.push_back({o,c[q++]}); } return r; }
inline RefOp refFD(int d,double cl,double ch){ RefOp r; IV m(0,0,0),p(0,0,0); m[d]=-1; p[d]=1; r.p={{m,cl},{p,ch}}; return r; }
inline RefOp refBox(int mask){ RefOp r; int n=0; for(int k=-1;k<=1;++k)for(int j=-1;j<=1;++j)for(int i=-1;i<=1;++i){ if((i&&!(mask&1))||(j&&!(mask&2))||(k&&!(mask&4))) continue; r.p.push_back({IV(i,j,k),0}); ++n; } for(auto& q: r.p) q.second=1.0/n; return r; }
inline RefOp refNull(){ RefOp r; r.p={{IV(0,0,0),1.0}}; return r; }

typedef BasicOpTypes<SVolField> BO; typedef BasicOpTypes<XVolField> BX;
typedef NeboStencilCoefCollection<2> C2; typedef NeboStencilCoefCollection<4> C4;
struct H3 { double dx,dy,dz; };
// operators used by the programs, Nebo side and reference side
struct NOps {
  BO::InterpC2FX ix; BO::InterpC2FY iy; BO::InterpC2FZ iz; BO::InterpF2CX jx; BO::InterpF2CY jy; BO::InterpF2CZ jz;
  BO::GradX gx; BO::GradY gy; BO::GradZ gz; BO::DivX dx; BO::DivY dy; BO::DivZ dz;
  OperatorTypeBuilder<Interpolant,SVolField,XVolField>::type sx; OperatorTypeBuilder<Gradient,XVolField,SVolField>::type xs; OperatorTypeBuilder<Interpolant,SVolField,YVolField>::type sy;
  OperatorTypeBuilder<Interpolant,XVolField,YVolField>::type q4; OperatorTypeBuilder<Filter,SVolField,SVolField>::type box; OperatorTypeBuilder<GradientX,SVolField,SVolField>::type fx; OperatorTypeBuilder<InterpolantZ,SVolField,SVolField>::type fz;
  OperatorTypeBuilder<Interpolant,XVolField,SSurfXField>::type nul;
  static C2 c2(double a,double b){ return build_two_point_coef_collection(a,b); }
  static C4 c4(){ return build_four_point_coef_collection(0.1,0.2,0.3,0.4); }
  NOps(const H3& h):ix(c2(.25,.75)),iy(c2(.5,.5)),iz(c2(.75,.25)),jx(c2(.5,.5)),jy(c2(.25,.75)),jz(c2(.5,.5)),gx(c2(-1/h.dx,1/h.dx)),gy(c2(-1/h.dy,1/h.dy)),gz(c2(-1/h.dz,1/h.dz)),dx(c2(-1/h.dx,1/h.dx)),dy(c2(-1/h.dy,1/h.dy)),dz(c2(-1/h.dz,1/h.dz)),
    sx(c2(.5,.5)),xs(c2(-1/h.dx,1/h.dx)),sy(c2(.25,.75)),q4(c4()),fx(c2(-.5/h.dx,.5/h.dx)),fz(c2(.25,.75)) {}
};
struct ROps { RefOp ix,iy,iz,jx,jy,jz,gx,gy,gz,dx,dy,dz,sx,xs,sy,q4,box,fx,fz,nul;
  ROps(const H3& h){ ix=ref2(0,0,.25,.75); iy=ref2(1,0,.5,.5); iz=ref2(2,0,.75,.25); jx=ref2(0,1,.5,.5); jy=ref2(1,1,.25,.75); jz=ref2(2,1,.5,.5);
    gx=ref2(0,0,-1/h.dx,1/h.dx); gy=ref2(1,0,-1/h.dy,1/h.dy); gz=ref2(2,0,-1/h.dz,1/h.dz); dx=ref2(0,1,-1/h.dx,1/h.dx); dy=ref2(1,1,-1/h.dy,1/h.dy); dz=ref2(2,1,-1/h.dz,1/h.dz);
    sx=ref2(0,0,.5,.5); xs=ref2(0,1,-1/h.dx,1/h.dx); sy=ref2(1,0,.25,.75); double c[4]={.1,.2,.3,.4}; q4=ref4(0,1,1,0,c); box=refBox(7); fx=refFD(0,-.5/h.dx,.5/h.dx); fz=refFD(2,.25,.75); nul=refNull(); } };
// operand fields: a,b cells; e cells of another ghost layout; f,g,h faces; v,w staggered volumes
#define VF_FIELDS(X) X(a,SVolField) X(b,SVolField) X(e,SVolField) X(f,SSurfXField) X(g,SSurfYField) X(h,SSurfZField) X(v,XVolField) X(w,YVolField)
// destinations
#define VF_DESTS(X) X(d,SVolField) X(df,SSurfXField) X(dh,SSurfZField) X(dv,XVolField) X(dw,YVolField)
struct NE : NOps { 
#define X(N,T) T& N;
  VF_FIELDS(X) VF_DESTS(X)
#undef X
  SpatialField<SingleValue,double>& s; double k; SpatialMask<SVolField> &m,&n; };
struct RE : ROps {
#define X(N,T) G N;
  VF_FIELDS(X) VF_DESTS(X)
#undef X
  G s; double k; GB m,n; RE(const H3& h):ROps(h){} };

struct World {     // one random domain with all fields laid out in it
  Dom dom; H3 hh;
#define X(N,T) Blk<T> N; IV lo_##N,hi_##N;
  VF_FIELDS(X) VF_DESTS(X)
#undef X
  double sv,k; SpatialField<SingleValue,double> s; std::vector<IV> mp,np; std::set<std::vector<int> > ms,ns; std::unique_ptr<SpatialMask<SVolField> > m,n; 
  static MemoryWindow w1(){ return MemoryWindow(IV(1,1,1)); }
  World():sv(0),k(0),s(w1(),BoundaryCellInfo::build<SpatialField<SingleValue,double> >(false,false,false),GhostData(0),&sv,ExternalStorage){}
  template<class F> void lay(Rng& r,Blk<F>& x,IV& lo,IV& hi,int reach,bool uniform,bool reset,bool poison,int vmode){
    Dom e=dom; for(int t=0;t<3;++t) if(dom.n[t]>1 && !uniform){ int base= r.chance(0.85)? reach : 0; e.gm[t]=base+r.range(0,2); e.gp[t]=base+r.range(0,2); }
    x.make(make_lay<F>(r,e,r.chance(0.3)));
    IV vm=x.l.gm,vp=x.l.gp; if(reset && r.chance(0.3)){ for(int t=0;t<3;++t){ vm[t]=r.range(std::min(reach,vm[t]),vm[t]); vp[t]=r.range(std::min(reach,vp[t]),vp[t]); } x.f->reset_valid_ghosts(GhostData(vm,vp)); }
    for(int t=0;t<3;++t){ lo[t]= dom.n[t]>1? -vm[t]:0; hi[t]= dom.n[t]>1? dom.n[t]+x.l.ex[t]+vp[t]:1; }
    size_t tot=npts(x.l.glob); if(poison) for(size_t q=0;q<tot;++q) x.mem[q]=(typename F::value_type)NAN;
    x.each([&](int i,int j,int kk){ bool in=i>=lo[0]&&i<hi[0]&&j>=lo[1]&&j<hi[1]&&kk>=lo[2]&&kk<hi[2]; if(in) x.at(i,j,kk)= vmode==1? (double)r.range(-3,3) : r.datum(-3,3); else if(!poison) x.at(i,j,kk)=1e6; });
    x.snap();
  }
  template<class F> void layd(Rng& r,Blk<F>& x,IV& lo,IV& hi,bool uniform){
    Dom e=dom; for(int t=0;t<3;++t) if(dom.n[t]>1 && !uniform){ e.gm[t]=r.range(0,3); e.gp[t]=r.range(0,3); }
    x.make(make_lay<F>(r,e,r.chance(0.4))); for(int t=0;t<3;++t){ lo[t]=x.l.lo(t); hi[t]=x.l.hi(t); }
    x.each([&](int i,int j,int kk){ x.at(i,j,kk)=r.real(-3,3); }); x.snap();
  }
  // reach: how far programs look; dims: bit t set when direction t must not be collapsed
  void build(Rng& r,int reach,int dims,int maxn,bool poison){
    DomOpt o; o.maxn=maxn; o.maxg=2; dom=rand_dom(r,o); for(int t=0;t<3;++t) if((dims&(1<<t)) && dom.n[t]==1){ dom.n[t]=r.range(2,maxn); dom.bc[t]=r.chance(0.4); }
    for(int t=0;t<3;++t) if(dom.n[t]>1){ dom.gm[t]=reach+r.range(0,1); dom.gp[t]=reach+r.range(0,1); }
    // every field of a boundary-flagged domain needs room for the extra cell of the others
    bool uniform=r.chance(0.25), reset=r.chance(0.5); int vmode=r.range(0,1);
    hh.dx=r.real(.2,2); hh.dy=r.real(.2,2); hh.dz=r.real(.2,2);
#define X(N,T) lay<T>(r,N,lo_##N,hi_##N,reach,uniform,reset,poison,vmode);
    VF_FIELDS(X)
#undef X
#define X(N,T) layd<T>(r,N,lo_##N,hi_##N,uniform);
    VF_DESTS(X)
#undef X
    sv=r.real(-3,3); k=r.real(-2,2);
    for(int z=0;z<2;++z){ auto& P= z?np:mp; auto& S= z?ns:ms; int c=r.range(0,20); for(int i=0;i<c;++i){ IV q; for(int t=0;t<3;++t) q[t]=r.range(lo_e[t],hi_e[t]-1); P.push_back(q); S.insert({q[0],q[1],q[2]}); } }
    m.reset(new SpatialMask<SVolField>(*e.f,mp)); n.reset(new SpatialMask<SVolField>(*e.f,np));
  }
  NE* ne(){ NOps ops(hh); return new NE{ops,*a.f,*b.f,*e.f,*f.f,*g.f,*h.f,*v.f,*w.f,*d.f,*df.f,*dh.f,*dv.f,*dw.f,s,k,*m,*n}; }
  template<class F> G leaf(const Blk<F>& x,const IV& lo,const IV& hi) const { const Blk<F>* p=&x; Box bx; bx.n=dom.n; bx.all=false; bx.bad=false; bx.lo=lo; bx.hi=hi; return G{bx,[p](int i,int j,int kk){ return (double)p->before[p->l.flat(i,j,kk)]; }}; }
  RE* re() const { RE* o=new RE(hh);
#define X(N,T) o->N=leaf<T>(N,lo_##N,hi_##N);
    VF_FIELDS(X) VF_DESTS(X)
#undef X
    Box bx=everywhere(dom.n); double x=sv; o->s=G{bx,[x](int,int,int){ return x; }}; o->k=k;
    Box mb; mb.n=dom.n; mb.all=false; mb.bad=false; mb.lo=lo_e; mb.hi=hi_e; auto M=ms,N=ns; o->m=GB{mb,[M](int i,int j,int kk){ return M.count({i,j,kk})!=0; }}; o->n=GB{mb,[N](int i,int j,int kk){ return N.count({i,j,kk})!=0; }};
    return o; }
  bool operands_same(std::string& who) const {
#define X(N,T) if(!N.unchanged()){ who=#N; return false; }
    VF_FIELDS(X)
#undef X
    return true; }
  std::string str_() const { return "dom n"+vf::str(dom.n)+" bc"+vf::str(dom.bc)+" a:"+a.l.s(); }
  uint64_t sig() const { uint64_t x=1;
#define X(N,T) x=hcomb(x,N.l.h());
    VF_FIELDS(X) VF_DESTS(X)
#undef X
    return x; }
};
// a program: destination, reach, direction set it needs uncollapsed, text
#define VF_PROG(ID,DST,TYPE,REACH,DIMS,...) struct ID { typedef TYPE F; static int reach(){ return REACH; } static int dims(){ return DIMS; } static const char* text(){ return #DST " <<= " #__VA_ARGS__; } \
  static Blk<F>& dst(World& w){ return w.DST; } \
  template<class O> static void assign(O& o){ o.DST <<= __VA_ARGS__; } \
  template<class O> static void inner(O& o){ interior_assign(o.DST, __VA_ARGS__); } \
  template<class R> static void reduce(NE& o,R& red){ red(__VA_ARGS__); } \
  static G ref(const RE& o){ return G(__VA_ARGS__); } };
// the shared catalogue of programs
#define VF_PROGS(X) \
 X(P0,d,SVolField,0,0, o.a + o.b*o.k - o.e) \
 X(P1,d,SVolField,1,1, o.dx(o.gx(o.a))) \
 X(P2,d,SVolField,1,7, o.dx(o.gx(o.a)) + o.dy(o.gy(o.b)) + o.dz(o.gz(o.a*o.e))) \
 X(P3,d,SVolField,1,4, o.dz(o.iz(o.a*o.b)*o.gz(o.b)) - o.s) \
 X(P4,d,SVolField,1,7, o.jx(o.f) + o.jy(o.g)*o.jz(o.h)) \
 X(P5,d,SVolField,1,7, o.box(o.a) - o.a) \
 X(P6,d,SVolField,2,7, o.box(o.box(o.a))) \
 X(P7,d,SVolField,1,5, o.fx(o.a) + o.fz(o.b)) \
 X(P8,d,SVolField,1,1, cond(o.m, o.dx(o.gx(o.a)))(o.a > o.b, o.b)(o.s*o.e)) \
 X(P9,d,SVolField,1,1, o.dx(o.f) + tanh(o.e)) \
 X(P10,d,SVolField,0,0, o.d + o.a) \
 X(P11,d,SVolField,2,3, o.jx(o.ix(o.jy(o.iy(o.a)))) + max(o.a,o.b)) \
 X(P12,df,SSurfXField,1,1, o.ix(o.a)*o.f) \
 X(P13,df,SSurfXField,2,1, o.gx(o.dx(o.f)) + o.gx(o.a + o.b)) \
 X(P14,df,SSurfXField,0,0, o.nul(o.v) + o.f) \
 X(P15,dh,SSurfZField,2,7, o.gz(o.box(o.a)) - o.h) \
 X(P16,dh,SSurfZField,1,4, o.iz(cond(o.a > 0.0, o.a)(o.b))) \
 X(P17,dv,XVolField,1,1, o.sx(o.a) + 2.0*o.v) \
 X(P18,dw,YVolField,1,3, o.q4(o.v) + o.sy(o.a)) \
 X(P19,d,SVolField,1,1, o.xs(o.v) * cond(o.m && !o.n, 2.0)(o.a)) \
 X(P20,d,SVolField,0,0, o.k*o.s) \
 X(P21,dw,YVolField,0,0, abs(o.w) + o.s)
} // vf
#endif
