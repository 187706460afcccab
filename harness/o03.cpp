// O03 (first half): boundary conditions set through an operator of the database.
#include "ops.h"
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
using namespace vf;
struct Seq { double base; mutable int n; double operator()() const { return base; } Seq(double b):base(b),n(0){} };
template<class Op,class S,class D> struct Run { static void go(Case& c,const char*,int,int){ c.nontrivial=false; } };
template<class T,class P,class S,class D,bool two> struct Two { static void go(Case& c,const char*,int,int){ c.nontrivial=false; } };
template<class T,class P,class S,class D> struct Two<T,P,S,D,true> {
  typedef NeboStencilBuilder<T,P,S,D> Op;
  static void go(Case& c,const char* nm,int kind,int dir0){
    Rng& r=c.r; double one[3]={1,1,1}; OpRef probe=opref(kind,At<S>::s(),At<D>::s(),dir0,7,one);
    int dir=0; while(probe.dims!=(1<<dir)) ++dir;
    DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); std::vector<double> L(3);
    for(int t=0;t<3;++t){ if(t==dir && d.n[t]==1){ d.n[t]=r.range(2,o.maxn); d.bc[t]=r.chance(0.5); } if(d.n[t]>1){ d.gm[t]=r.range(t==dir,2); d.gp[t]=r.range(t==dir,2); } L[t]=r.chance(0.2)?1.0:std::pow(10.0,r.real(-2,2)); }
    double h[3]; for(int t=0;t<3;++t) h[t]=L[t]/d.n[t];
    OperatorDatabase db; build_stencils(d.n[0],d.n[1],d.n[2],L[0],L[1],L[2],db); const Op& op=*db.retrieve_operator<Op>();
    OpRef ref=opref(kind,At<S>::s(),At<D>::s(),dir0,7,h); IV low=ref.r.p[0].first, high=ref.r.p[1].first; double cl=ref.r.p[0].second, ch=ref.r.p[1].second;
    Blk<S> f; f.make(make_lay<S>(r,d,r.chance(0.35))); f.fill(r,-5,5); Blk<D> g; g.make(make_lay<D>(r,d,r.chance(0.35)));
    // points of the destination whose two sources are in the field and which an assignment covers
    Box bx; bx.n=d.n; bx.all=bx.bad=false; for(int t=0;t<3;++t){ bx.lo[t]=f.l.lo(t); bx.hi[t]=f.l.hi(t); }
    IV lo,hi; if(!region(d,g,ref.r(G{bx,[](int,int,int){ return 0.0; }}),lo,hi)){ c.nontrivial=false; count("skipped"); return; }
    int side=r.range(0,2); bool list= side!=2 && r.chance(0.6); BCSide sd= side==0?MINUS_SIDE:side==1?PLUS_SIDE:NO_SIDE; double val=r.chance(0.1)?0.0:r.real(-10,10)*(kind==OD||kind==OFD?1/h[dir]:1);
    IV a0= side==1? high:low, b0= side==1? low:high;
    std::vector<IV> pts; int np= !list? 1 : r.chance(0.04)? r.range(250,1500) : r.range(0,12); int plane= r.chance(0.4)? (side==1? hi[dir]-1:lo[dir]) : r.range(lo[dir],hi[dir]-1);
    for(int q=0;q<np;++q){ IV p; for(int t=0;t<3;++t) p[t]= t==dir? plane : r.range(lo[t],hi[t]-1); pts.push_back(p); }
    c.note(std::string(nm)+" "+At<S>::n()+"->"+At<D>::n()+fmt(" side %d %s %zu points first %s value %.6g ",side,list?"list":"single",pts.size(),pts.empty()?"-":str(pts[0]).c_str(),val)+"src "+f.l.s()+" dst "+g.l.s()); c.add(hstr(nm)); c.add(f.l.h()); c.add(val); for(auto& p: pts) c.add((uint64_t)(p[0]+50*(p[1]+50*p[2])));
    // 0-based on the interior: the window of the interior is the one the points refer to
    f.snap();
    try {
      if(!list){ BoundaryConditionOp<Op,ConstValEval> bc(pts[0],sd,ConstValEval(val),db); bc(*f.f); }
      else { 
        BoundaryConditionOp<Op,Seq> bc(f.f->window_without_ghost(),pts,sd,Seq(val),db); bc(*f.f);
        if(!close(bc.getGhostCoef(),side==1?ch:cl,1e-14)||!close(bc.getInteriorCoef(),side==1?cl:ch,1e-14)) viol(std::string(nm)+":coefs",c.desc);
        if(bc.getFlatGhostPoints().size()!=pts.size()||bc.getFlatInteriorPoints().size()!=pts.size()) viol(std::string(nm)+":flat-count",c.desc);
        else for(size_t q=0;q<pts.size();++q){ IV A=pts[q]+a0,B=pts[q]+b0; if((size_t)bc.getFlatGhostPoints()[q]!=f.l.flat(A[0],A[1],A[2])||(size_t)bc.getFlatInteriorPoints()[q]!=f.l.flat(B[0],B[1],B[2])) { viol(std::string(nm)+":flat",c.desc); break; } }
      }
    } catch(const std::exception& e){ viol(std::string(nm)+":threw",c.desc+" threw "+e.what()); return; }
    count("conditions"); count(list?"lists":"singles"); count(side==0?"minus":side==1?"plus":"no-side"); count("points",pts.size());
    std::set<std::vector<int> > A; for(auto& p: pts){ IV x=p+a0; A.insert({x[0],x[1],x[2]}); }
    std::string why; if(!f.outside_same([&](int i,int j,int k){ return A.count({i,j,k})!=0; },why)) viol(std::string(nm)+":"+(list?"list":"single")+":touched",c.desc+" "+why);
    g.fill(r,-1,1); op.apply_to_field(*f.f,*g.f);
    for(auto& p: pts){ double x=g.at(p); IV B=p+b0; double mag=std::fabs(val)+std::fabs((side==1?cl:ch)*f.at(B))*4; if(!(std::fabs(x-val)<=1e-13*mag*4)){ viol(std::string(nm)+":"+(list?"list":"single")+":value",c.desc+fmt(" at (%d,%d,%d) the operator gives %.17g",p[0],p[1],p[2],x)); break; } }
    // the condition can be imposed again after the field changed
    if(!list && r.chance(0.5)){ f.fill(r,-5,5); BoundaryConditionOp<Op,ConstValEval> bc(pts[0],sd,ConstValEval(val),db); bc(*f.f); bc(*f.f); op.apply_to_field(*f.f,*g.f); double x=g.at(pts[0]); if(!(std::fabs(x-val)<=1e-13*(std::fabs(val)+40*std::fabs(ch)))) viol(std::string(nm)+":again",c.desc+fmt(" the operator gives %.17g",x)); }
  }
};
template<class T,class P,class S,class D> struct Run<NeboStencilBuilder<T,P,S,D>,S,D> { static void go(Case& c,const char* nm,int kind,int dir){ Two<T,P,S,D,P::length==2>::go(c,nm,kind,dir); } };
int main(int argc,char** argv){
  init(argc,argv);
#define X(T,S,D,K,DIR) group(#T,30,[](Case& c){ Run<T,S##Field,D##Field>::go(c,#T,K,DIR); });
#if PART==0
  VF_OPS_PART0(X)
#elif PART==1
  VF_OPS_PART1(X)
#elif PART==2
  VF_OPS_PART2(X)
#else
  VF_OPS_PART3(X)
#endif
  return finish();
}
