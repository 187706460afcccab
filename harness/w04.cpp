// W04: mesh coordinates agree with cell positions for every staggered location
#include "fields.h"
#include <spatialops/structured/Grid.h>
// documented stagger per location: 1 when the location sits on faces in that direction
template<class F> static void one(vf::Case& c,const char* nm,const IV& st){
  vf::Rng& r=c.r; vf::DomOpt o; o.maxn=6; o.maxg=3; vf::Dom d=vf::rand_dom(r,o); vf::Lay l=vf::make_lay<F>(r,d,r.chance(0.5));
  std::vector<double> L(3); for(int i=0;i<3;++i) L[i]= r.chance(0.2)? 1.0 : r.real(0.01,50.0);
  IV npts=d.n;  // mesh of the domain
  c.note(std::string(nm)+" "+l.s()+vf::fmt(" L %.4g %.4g %.4g",L[0],L[1],L[2])); c.add(vf::hstr(nm)); c.add(l.h()); c.add(L[0]);
  Grid g(npts,L);
  double sp[3]={g.spacing<XDIR>(),g.spacing<YDIR>(),g.spacing<ZDIR>()};
  for(int i=0;i<3;++i){
    if(!vf::close(sp[i]*npts[i],L[i],1e-13)) vf::viol("grid:spacing",c.desc+vf::fmt(" dir %d spacing %.17g",i,sp[i]));
    if(g.extent(i)!=npts[i]||g.extent()[i]!=npts[i]||g.length(i)!=L[i]||g.length()[i]!=L[i]) vf::viol("grid:accessor",c.desc);
  }
  vf::Blk<F> b[3]; 
  IV vm=l.gm,vp=l.gp; bool red=r.chance(0.4); if(red) for(int i=0;i<3;++i){ vm[i]=r.range(0,l.gm[i]); vp[i]=r.range(0,l.gp[i]); }
  for(int q=0;q<3;++q){ b[q].make(l); if(red) b[q].f->reset_valid_ghosts(GhostData(vm,vp)); b[q].snap(); }
  g.set_coord<XDIR>(*b[0].f); g.set_coord<YDIR>(*b[1].f); g.set_coord<ZDIR>(*b[2].f);
  if(red) c.note(c.desc+" valid"+vf::str(vm)+vf::str(vp));
  for(int q=0;q<3;++q){
    auto in=[&](int i,int j,int k){ int x[3]={i,j,k}; for(int t=0;t<3;++t) if(l.n[t]>1 && (x[t]<-vm[t]||x[t]>=l.n[t]+l.ex[t]+vp[t])) return false; return true; };
    bool bad=false;
    b[q].each([&](int i,int j,int k){ if(bad||!in(i,j,k)) return; int x[3]={i,j,k};
      double want=(L[q]/npts[q])*(x[q] + (st[q]?0.0:0.5)); double got=b[q].at(i,j,k); vf::count("cells");
      if(!vf::close(got,want,1e-13,L[q])){ bad=true; vf::viol(vf::fmt("coord:%s",red?"reduced":"value"),c.desc+vf::fmt(" dir %d cell (%d,%d,%d) got %.17g expected %.17g",q,i,j,k,got,want)); } });
    std::string why; if(!b[q].outside_same(in,why)) vf::viol("coord:outside",c.desc+" "+why);
  }
}
#define W(T,a,b,d) vf::group(#T,60,[](vf::Case& c){ one<T##Field>(c,#T,IV(a,b,d)); })
int main(int argc,char**argv){
  vf::init(argc,argv);
  W(SVol,0,0,0);W(SSurfX,1,0,0);W(SSurfY,0,1,0);W(SSurfZ,0,0,1);
  W(XVol,1,0,0);W(XSurfX,0,0,0);W(XSurfY,1,1,0);W(XSurfZ,1,0,1);
  W(YVol,0,1,0);W(YSurfX,1,1,0);W(YSurfY,0,0,0);W(YSurfZ,0,1,1);
  W(ZVol,0,0,1);W(ZSurfX,1,0,1);W(ZSurfY,0,1,1);W(ZSurfZ,0,0,0);
  return vf::finish();
}
