// O03 (second half): boundary conditions as masked statements, and direct ones.
#include "ops.h"
#include <spatialops/structured/FVStaggeredBCTools.h>
#ifdef ENABLE_THREADS
#include "perturb.h"
#endif
using namespace vf;
template<int D,int V> struct Pt { typedef IndexTriplet<D==0?V:0,D==1?V:0,D==2?V:0> type; };
// phi -> gamma along DIR; dirichlet: mean of the two neighbours, else difference over the spacing
template<class Phi,class Gam,int DIR> void nebo(Case& c,const char* nm){
  Rng& r=c.r; const bool st=At<Phi>::s()[DIR]; Dom d; DomOpt o; o.maxn=r.chance(0.2)?12:6; o.maxg=2; d=rand_dom(r,o);
  for(int t=0;t<3;++t){ if(t==DIR && d.n[t]==1){ d.n[t]=r.range(2,o.maxn); d.bc[t]=r.chance(0.4); } }
  auto lay=[&](int g){ Dom e=d; for(int t=0;t<3;++t) if(e.n[t]>1){ e.gm[t]=g+r.range(t==DIR?0:-g,1+(r.chance(.3)?1:0)); e.gp[t]=g+r.range(t==DIR?0:-g,1+(r.chance(.3)?1:0)); } return e; };
  Dom dp=lay(1), dg=lay(1); Blk<Phi> f; f.make(make_lay<Phi>(r,dp,r.chance(0.35))); Blk<Gam> g,g2,mf; g.make(make_lay<Gam>(r,dg,r.chance(0.35))); g2.make(g.l); mf.make(g.l);
  f.fill(r,-5,5); g.fill(r,-5,5); g2.fill(r,-5,5);
  bool minus=r.chance(0.5), dir_bc=r.chance(0.5); double h=std::pow(10.0,r.real(-2,2)); double cl= dir_bc? .5 : -1/h, ch= dir_bc? .5 : 1/h; if(r.chance(0.2)){ cl=r.real(.2,3)*(r.chance(.5)?1:-1); ch=r.real(.2,3)*(r.chance(.5)?1:-1); }
  // relative to gamma: low neighbour (minus side), high neighbour
  int lowp= st?0:-1, highp= st?1:0, destp= minus?lowp:highp, srcp= minus?highp:lowp; double dc= minus?cl:ch, sc= minus?ch:cl;
  // where the statement writes: phi's cells, phi shifted to the other neighbour, gamma and mask shifted to phi
  Box bf,bg; bf.n=bg.n=d.n; bf.all=bf.bad=bg.all=bg.bad=false; for(int t=0;t<3;++t){ bf.lo[t]=f.l.lo(t); bf.hi[t]=f.l.hi(t); bg.lo[t]=g.l.lo(t); bg.hi[t]=g.l.hi(t); }
  auto zero=[](int,int,int){ return 0.0; }; RefOp sg,sp; IV q(0,0,0); q[DIR]=-destp; sg.p={{q,1.0}}; q[DIR]=srcp-destp; sp.p={{q,1.0}};
  G all=sg(G{bg,zero})+sp(G{bf,zero})+G{bf,zero}; IV lo,hi; c.note(std::string(nm)+" phi "+f.l.s()+" gamma "+g.l.s());
  if(!region(d,f,all,lo,hi)){ c.nontrivial=false; count("skipped"); return; }
  int np=r.range(0,16); std::vector<IV> pts; std::set<std::vector<int> > A; int plane= r.chance(0.5)? (minus?lo[DIR]:hi[DIR]-1) : r.range(lo[DIR],hi[DIR]-1);
  bool two=r.chance(0.3) && hi[DIR]-lo[DIR]>3;
  for(int z=0;z<np;++z){ IV x; for(int t=0;t<3;++t) x[t]= t==DIR? plane : r.range(lo[t],hi[t]-1); if(two && r.chance(.5)) x[DIR]= plane>=lo[DIR]+2? plane-2 : plane+2; A.insert({x[0],x[1],x[2]}); x[DIR]-=destp; pts.push_back(x); }
  for(auto& p: pts) if(!(p[DIR]>=g.l.lo(DIR)&&p[DIR]<g.l.hi(DIR))) { c.nontrivial=false; return; }
  for(auto& p: pts) for(int t=0;t<3;++t) if(p[t]<g.l.lo(t)||p[t]>=g.l.hi(t)){ c.nontrivial=false; count("skipped"); return; }
  int form=r.range(0,2); double val=r.real(-5,5), k=r.real(-2,2);
  c.note(std::string(nm)+fmt(" %s side, coefs dest %.4g src %.4g, gamma as %s, %zu points, region [%s,%s) ",minus?"minus":"plus",dc,sc,form==0?"scalar":form==1?"field":"expression",A.size(),str(lo).c_str(),str(hi).c_str())+"phi "+f.l.s()+" gamma "+g.l.s()); c.add(hstr(nm)); c.add(f.l.h()); c.add(g.l.h()); c.add(dc); for(auto& p: A) c.add((uint64_t)(p[0]+64*(p[1]+64*p[2])));
  SpatialMask<Gam> mask(*mf.f,pts);
#ifdef ENABLE_THREADS
  int parts=r.range(1,6); f.f->set_partition_count(parts);
#endif
  f.snap(); g.snap(); g2.snap();
  auto apply=[&](auto& bc){ if(form==0) bc(mask,*f.f,val,minus); else if(form==1) bc(mask,*f.f,*g.f,minus); else bc(mask,*f.f,*g.f*k+*g2.f,minus); };
  typedef typename Pt<DIR,-1>::type PM; typedef typename Pt<DIR,0>::type PZ; typedef typename Pt<DIR,1>::type PP;
  // low and high neighbour of a gamma point: (-1,0) when phi sits at centres, (0,1) when on faces
  if(st){ if(minus){ NeboBoundaryConditionBuilder<PZ,PP,Phi,Gam> bc(dc,sc); apply(bc); } else { NeboBoundaryConditionBuilder<PP,PZ,Phi,Gam> bc(dc,sc); apply(bc); } }
  else  { if(minus){ NeboBoundaryConditionBuilder<PM,PZ,Phi,Gam> bc(dc,sc); apply(bc); } else { NeboBoundaryConditionBuilder<PZ,PM,Phi,Gam> bc(dc,sc); apply(bc); } }
#ifdef ENABLE_THREADS
  if(f.f->get_partition_count()!=parts) viol(std::string(nm)+":partition-count",c.desc+fmt(" partition count %d became %d",parts,(int)f.f->get_partition_count()));
#endif
  count("conditions"); count(minus?"minus":"plus"); count(form==0?"scalar":form==1?"field":"expression"); count("points",A.size());
  std::string why; if(!f.outside_same([&](int i,int j,int k){ return A.count({i,j,k})!=0; },why)) viol(std::string(nm)+":touched",c.desc+" "+why);
  if(!g.unchanged()||!g2.unchanged()) viol(std::string(nm)+":gamma-changed",c.desc);
  typedef NeboStencilBuilder<Interpolant,typename Stencil2Collection<Interpolant,Phi,Gam>::StPtCollection,Phi,Gam> Op; Op op(build_two_point_coef_collection(cl,ch));
  Blk<Gam> out; Dom od=d; for(int t=0;t<3;++t) if(od.n[t]>1){ od.gm[t]=dp.gm[t]; od.gp[t]=dp.gp[t]; } out.make(make_lay<Gam>(r,od,false)); out.fill(r,-1,1); *out.f <<= op(*f.f);
  Box bo=bf; RefOp ro=ref2(DIR,st,cl,ch); G go=ro(G{bf,zero}); IV ol,oh; region(d,out,go,ol,oh);
  for(auto& p: pts){ bool in=true; for(int t=0;t<3;++t) if(p[t]<ol[t]||p[t]>=oh[t]) in=false; if(!in){ count("unseen"); continue; }
    double want= form==0?val: form==1? g.at(p): g.at(p)*k+g2.at(p); IV S=p; S[DIR]+=srcp; IV Dc=p; Dc[DIR]+=destp; double mag=std::fabs(want)+std::fabs(sc*f.at(S))+std::fabs(dc*f.at(Dc)); double x=out.at(p); count("checked");
    if(!(std::fabs(x-want)<=1e-13*8*mag)){ viol(std::string(nm)+":value",c.desc+fmt(" at (%d,%d,%d) the operator gives %.17g, asked for %.17g",p[0],p[1],p[2],x,want)); break; } }
}
template<class F> void direct(Case& c,const char* nm){
  Rng& r=c.r; DomOpt o; o.maxn=6; o.maxg=2; Dom d=rand_dom(r,o); Blk<F> f; f.make(make_lay<F>(r,d,r.chance(0.5))); f.fill(r,-5,5); bool red=r.chance(0.4); IV vm=f.l.gm,vp=f.l.gp; if(red){ for(int t=0;t<3;++t){ vm[t]=r.range(0,vm[t]); vp[t]=r.range(0,vp[t]); } f.f->reset_valid_ghosts(GhostData(vm,vp)); }
  bool list=r.chance(0.6); int np= list? r.range(0,20):1; std::vector<IV> pts; std::set<std::vector<int> > A; for(int q=0;q<np;++q){ IV p; for(int t=0;t<3;++t) p[t]=r.range(f.l.lo(t),f.l.hi(t)-1); pts.push_back(p); A.insert({p[0],p[1],p[2]}); } double val=r.real(-9,9);
  c.note(std::string(nm)+fmt(" direct %s %d points ",list?"list":"single",np)+f.l.s()); c.add(hstr(nm)); c.add(f.l.h()); c.add(val); f.snap();
  if(list){ bool gw=r.chance(0.3); IV sh(0,0,0); if(gw) for(int t=0;t<3;++t) sh[t]= d.n[t]>1? vm[t]:0; std::vector<IV> q=pts; for(auto& p: q) p=p+sh; BoundaryCondition<F,ConstValEval> bc(gw? f.f->window_with_ghost():f.f->window_without_ghost(),q,ConstValEval(val)); bc(*f.f); }
  else { BoundaryCondition<F,ConstValEval> bc(pts[0],ConstValEval(val)); bc(*f.f); }
  count("direct"); for(auto& p: pts){ count("direct-points"); if(f.at(p)!=val){ viol(std::string(nm)+":direct:value",c.desc+" at "+str(p)); break; } }
  std::string why; if(!f.outside_same([&](int i,int j,int k){ return A.count({i,j,k})!=0; },why)) viol(std::string(nm)+":direct:touched",c.desc+" "+why);
}
int main(int argc,char** argv){
  init(argc,argv);
#ifdef ENABLE_THREADS
  pt().level=1; pt().seed=st().seed*77+st().shard; 
#endif
#define N(P,G,D) group("nebo " #P #G,60,[](Case& c){ nebo<P##Field,G##Field,D>(c,"nebo " #P #G); });
  N(SVol,SSurfX,0) N(SVol,SSurfY,1) N(SVol,SSurfZ,2) N(XVol,XSurfX,0) N(XVol,XSurfY,1) N(XVol,XSurfZ,2) N(YVol,YSurfX,0) N(YVol,YSurfY,1) N(YVol,YSurfZ,2) N(ZVol,ZSurfX,0) N(ZVol,ZSurfY,1) N(ZVol,ZSurfZ,2)
  N(SVol,XVol,0) N(SVol,ZVol,2) N(XVol,SVol,0) N(YVol,SVol,1)
#define B(F) group("direct " #F,60,[](Case& c){ direct<F##Field>(c,"direct " #F); });
  B(SVol) B(SSurfX) B(XVol) B(XSurfY) B(YVol) B(YSurfZ) B(ZVol) B(ZSurfX)
#ifdef ENABLE_THREADS
  count("injected-delays",(long long)pt().delays.load());
#endif
  return finish();
}
