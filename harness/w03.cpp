// W03: ghost and boundary accounting
#include "fields.h"
static IV riv(vf::Rng& r,int lo,int hi){ return IV(r.range(lo,hi),r.range(lo,hi),r.range(lo,hi)); }
static bool eq(const GhostData& g,const IV& m,const IV& p){
  bool ok=g.get_minus()==m && g.get_plus()==p; for(int i=0;i<3;++i) ok=ok&&g.get_minus(i)==m[i]&&g.get_plus(i)==p[i]; return ok;
}
static std::string gs(const GhostData& g){ std::ostringstream o; o<<g; return o.str(); }
static void arith(vf::Case& c){
  vf::Rng& r=c.r; IV am=riv(r,0,5),ap=riv(r,0,5),bm=riv(r,0,5),bp=riv(r,0,5);
  GhostData a(am,ap), b(bm,bp), inf(GHOST_MAX);
  c.note(vf::str(am)+vf::str(ap)+" "+vf::str(bm)+vf::str(bp)); for(int i=0;i<3;++i){ c.add((uint64_t)(am[i]*1000+ap[i]*100+bm[i]*10+bp[i])); }
  if(!eq(a,am,ap)||!eq(GhostData(am[0],ap[0],am[1],ap[1],am[2],ap[2]),am,ap)) vf::viol("ghost:ctor",c.desc);
  int n=r.range(0,4); if(!eq(GhostData(n),IV(n,n,n),IV(n,n,n))||!eq(GhostData(),IV(0,0,0),IV(0,0,0))) vf::viol("ghost:ctor",c.desc);
  if(!eq(a+b,am+bm,ap+bp)) vf::viol("ghost:add",c.desc+" -> "+gs(a+b));
  { GhostData t(a); t+=b; if(!eq(t,am+bm,ap+bp)||!eq(a,am,ap)||!eq(b,bm,bp)) vf::viol("ghost:add-assign",c.desc); 
    GhostData u(t-b); if(!eq(u,am,ap)) vf::viol("ghost:sub",c.desc); t-=b; if(!eq(t,am,ap)) vf::viol("ghost:sub-assign",c.desc); }
  { IV mm,mp; for(int i=0;i<3;++i){ mm[i]=std::min(am[i],bm[i]); mp[i]=std::min(ap[i],bp[i]); } GhostData m=min(a,b); if(!eq(m,mm,mp)||!eq(min(b,a),mm,mp)) vf::viol("ghost:min",c.desc+" -> "+gs(m));
    if(!eq(a-m,am-mm,ap-mp)) vf::viol("ghost:sub",c.desc); }
  bool e=am==bm&&ap==bp; if((a==b)!=e) vf::viol("ghost:eq",c.desc);
  { IV x=am,y=ap; int k=r.range(0,5); if(k<3) x[k]++; else y[k-3]++; if(GhostData(x,y)==a||!(GhostData(am,ap)==a)) vf::viol("ghost:eq",c.desc); }
  { GhostData t; t=a; if(!(t==a)) vf::viol("ghost:assign",c.desc); GhostData s(a); s.set_minus(bm); if(!eq(s,bm,ap)) vf::viol("ghost:set_minus",c.desc); s.set_plus(bp); if(!eq(s,bm,bp)||!(s==b)) vf::viol("ghost:set_plus",c.desc); }
  // unlimited counts (scalars): absorbing in sums, neutral in minima, not a valid subtrahend
  { GhostData s=inf+a, t=a+inf, u=inf; u+=b; if(!(s==inf)||!(t==inf)||!(u==inf)||!((inf+inf)==inf)) vf::viol("ghost:inf-add",c.desc+" "+gs(s)+gs(t));
    if(!(min(inf,a)==a)||!(min(a,inf)==a)||!(min(inf,inf)==inf)) vf::viol("ghost:inf-min",c.desc);
    GhostData v(a); bool th=false; try{ v-=inf; }catch(const std::exception&){ th=true; } if(!th||!(v==a)) vf::viol("ghost:inf-sub",c.desc);
    th=false; try{ GhostData w=a-inf; }catch(const std::exception&){ th=true; } if(!th||!(a==GhostData(am,ap))) vf::viol("ghost:inf-sub",c.desc);
    GhostData w(inf); w.set_minus(am); w.set_plus(ap); if(!((w+b)==(a+b))) vf::viol("ghost:inf-reset",c.desc);
    GhostData x(a); x.set_minus(IV(GHOST_MAX,GHOST_MAX,GHOST_MAX)); x.set_plus(IV(GHOST_MAX,GHOST_MAX,GHOST_MAX)); if(!((x+b)==inf)) vf::viol("ghost:inf-set",c.desc);
    GhostData y; y=inf; if(!((y+a)==inf)) vf::viol("ghost:inf-copy",c.desc); GhostData z=min(inf,a); if(!((z+b)==(a+b))) vf::viol("ghost:inf-min-flag",c.desc); }
  { IV p=riv(r,-4,4); IV m,q; for(int i=0;i<3;++i){ m[i]=p[i]<0?-p[i]:0; q[i]=p[i]>0?p[i]:0; } if(!eq(point_to_ghost(p),m,q)) vf::viol("ghost:point",vf::str(p)+" -> "+gs(point_to_ghost(p))); }
  vf::count("ghost-ops",30);
}
// random histories of ghost values, limited, half-limited and unlimited, against plain integers; a face
// holding GHOST_MAX or more is unlimited
static int cl(int x){ return x>=GHOST_MAX? GHOST_MAX : x; } static int addc(int x,int y){ return x>=GHOST_MAX||y>=GHOST_MAX? GHOST_MAX : cl(x+y); }
static void history(vf::Case& c){
  vf::Rng& r=c.r; const int K=4; GhostData g[K]; IV m[K],p[K]; bool made[K]={false,false,false,false}; const IV big(GHOST_MAX,GHOST_MAX,GHOST_MAX); std::string h;
  for(int i=0;i<K;++i){ m[i]=p[i]=IV(0,0,0); if(r.chance(.4)){ g[i]=GhostData(GHOST_MAX); m[i]=p[i]=big; h+=vf::fmt(" %d=inf",i); } }
  auto inf=[&](int i){ return m[i]==big&&p[i]==big; }; auto fin=[&](int i){ for(int d=0;d<3;++d) if(m[i][d]>=GHOST_MAX||p[i][d]>=GHOST_MAX) return false; return true; };
  auto room=[&](int i){ for(int d=0;d<3;++d){ int x=g[i].get_minus(d),y=g[i].get_plus(d); if((x<GHOST_MAX&&x>3000)||(y<GHOST_MAX&&y>3000)||x>1000000||y>1000000) return false; } return true; };
  auto exact=[&](int i){ for(int d=0;d<3;++d) if(g[i].get_minus(d)>GHOST_MAX||g[i].get_plus(d)>GHOST_MAX) return false; return true; };
  int n=r.range(4,25); for(int k=0;k<n;++k){ int a=r.range(0,K-1),b=r.range(0,K-1); int op=r.range(0,8); c.add((uint64_t)(op*100+a*10+b)); vf::count("ghost-ops");
    switch(op){
      case 0: { IV v=r.chance(.35)?big:riv(r,0,5); h+=vf::fmt(" %d.minus=",a)+vf::str(v); g[a].set_minus(v); m[a]=v; made[a]=false; break; }
      case 1: { IV v=r.chance(.35)?big:riv(r,0,5); h+=vf::fmt(" %d.plus=",a)+vf::str(v); g[a].set_plus(v); p[a]=v; made[a]=false; break; }
      case 2: h+=vf::fmt(" %d=%d",a,b); g[a]=g[b]; m[a]=m[b]; p[a]=p[b]; made[a]=made[b]; break;
      case 3: { h+=vf::fmt(" %d=copy%d",a,b); GhostData t(g[b]); g[a]=t; m[a]=m[b]; p[a]=p[b]; made[a]=made[b]; break; }
      case 4: case 5: { if(!room(a)||!room(b)) break; int t= op==4? a : r.range(0,K-1); IV x,y; for(int d=0;d<3;++d){ x[d]=addc(m[a][d],m[b][d]); y[d]=addc(p[a][d],p[b][d]); }
          bool mk=!(inf(a)&&!made[a])&&!(inf(b)&&!made[b])&&x==big&&y==big;
          if(op==4){ h+=vf::fmt(" %d+=%d",a,b); g[a]+=g[b]; } else { h+=vf::fmt(" %d=%d+%d",t,a,b); g[t]=g[a]+g[b]; } m[t]=x; p[t]=y; made[t]=mk; break; }
      case 6: { int t=r.range(0,K-1); IV x,y; for(int d=0;d<3;++d){ x[d]=std::min(m[a][d],m[b][d]); y[d]=std::min(p[a][d],p[b][d]); } h+=vf::fmt(" %d=min(%d,%d)",t,a,b); g[t]=min(g[a],g[b]); m[t]=x; p[t]=y; made[t]=false; break; }
      case 7: if(fin(a)){ if(inf(b)&&!made[b]){ bool th=false; h+=vf::fmt(" %d-=%d(inf)",a,b); try{ g[a]-=g[b]; }catch(const std::exception&){ th=true; } if(!th) vf::viol("ghost-history:inf-sub",h); }
          else if(fin(b)&&a!=b){ bool ok=true; for(int d=0;d<3;++d) ok=ok&&m[a][d]>=m[b][d]&&p[a][d]>=p[b][d]; if(!ok) break; h+=vf::fmt(" %d-=%d",a,b); g[a]-=g[b]; m[a]-=m[b]; p[a]-=p[b]; } } break;
      case 8: if(exact(a)&&exact(b)&&(g[a]==g[b])!=(m[a]==m[b]&&p[a]==p[b])) vf::viol("ghost-history:eq",h+vf::fmt(" %d==%d",a,b)); break; }
    for(int i=0;i<K;++i){ IV x,y; for(int d=0;d<3;++d){ x[d]=cl(g[i].get_minus(d)); y[d]=cl(g[i].get_plus(d)); } if(!(x==m[i])||!(y==p[i])){ vf::viol("ghost-history:value",h+vf::fmt(" : %d is ",i)+gs(g[i])+" expected "+vf::str(m[i])+vf::str(p[i])); return; } }
  }
  c.note(h);
}
// documented extra cells per location
static const IV NOX(0,0,0), EX(1,0,0), EY(0,1,0), EZ(0,0,1);
template<class F> static void window(vf::Case& c,const char* nm,const IV& extra){
  vf::Rng& r=c.r; IV n,gm=riv(r,0,3),gp=riv(r,0,3); for(int i=0;i<3;++i) n[i]=r.chance(0.25)?1:r.range(2,9);
  bool b[3]={r.chance(0.5),r.chance(0.5),r.chance(0.5)};
  c.note(std::string(nm)+" n"+vf::str(n)+" gm"+vf::str(gm)+" gp"+vf::str(gp)+vf::fmt(" bc%d%d%d",b[0],b[1],b[2]));
  c.add(vf::hstr(nm)); for(int i=0;i<3;++i) c.add((uint64_t)(n[i]*1000+gm[i]*100+gp[i]*10+b[i]));
  BoundaryCellInfo bc=BoundaryCellInfo::build<F>(b[0],b[1],b[2]), bc2=BoundaryCellInfo::build<F>(IV(b[0],b[1],b[2])), bc0=BoundaryCellInfo::build<F>(), bcc(bc), bca=bc0; bca=bc;
  const BoundaryCellInfo* all[4]={&bc,&bc2,&bcc,&bca};
  for(int q=0;q<4;++q) for(int i=0;i<3;++i){
    int e=b[i]?extra[i]:0;
    if(all[q]->has_bc(i)!=b[i]||(int)all[q]->has_bc()[i]!=(int)b[i]||all[q]->has_extra(i)!=e||all[q]->has_extra()[i]!=e||all[q]->num_extra(i)!=e||all[q]->num_extra()[i]!=e){ vf::viol("bc:info",c.desc+vf::fmt(" form %d dir %d",q,i)); return; }
    if(bc0.has_bc(i)||bc0.has_extra(i)) vf::viol("bc:default",c.desc);
  }
  GhostData g(gm,gp); MemoryWindow w=get_window_with_ghost(n,g,bc);
  IV d; for(int i=0;i<3;++i) d[i]= n[i]>1? n[i]+gm[i]+gp[i]+(b[i]?extra[i]:0) : 1;
  if(!(w==MemoryWindow(d,IV(0,0,0),d))){ vf::viol("window:size",c.desc+" got "+vf::str(w.extent())+" expected "+vf::str(d)); return; }
  for(int i=0;i<3;++i) if(get_dim_with_ghost(n[i],gm[i],gp[i],b[i]?extra[i]:0)!=d[i]) vf::viol("window:dim",c.desc);
  F f(w,bc,g,NULL);
  IV io,ie; for(int i=0;i<3;++i){ bool x=d[i]>1; io[i]=x?gm[i]:0; ie[i]=x?n[i]+(b[i]?extra[i]:0):1; }
  if(!(f.window_without_ghost()==MemoryWindow(d,io,ie))){ vf::viol("window:interior",c.desc+" got "+vf::str(f.window_without_ghost().extent())); return; }
  if(!(f.window_with_ghost()==w)||!(f.get_ghost_data()==g)||!(f.get_valid_ghost_data()==g)) vf::viol("window:field",c.desc);
  for(int i=0;i<3;++i) if(f.boundary_info().has_bc(i)!=b[i]||f.boundary_info().has_extra(i)!=(b[i]?extra[i]:0)) vf::viol("window:bcinfo",c.desc);
  if(f.allocated_bytes()!=sizeof(typename F::value_type)*(size_t)vf::npts(d)) vf::viol("window:bytes",c.desc);
  long cells=0; for(typename F::const_iterator it=f.begin();it!=f.end();++it){ ++cells; if(*it!=0) vf::viol("window:not-zero",c.desc);} if(cells!=vf::npts(d)) vf::viol("window:npts",c.desc);
  // valid-ghost resets change the visible window only
  for(int i=0;i<3;++i) if(n[i]==1){ gm[i]=gp[i]=0; } GhostData g2(gm,gp); MemoryWindow w2=get_window_with_ghost(n,g2,bc); F h(w2,bc,g2,NULL); long id=0; { typename F::iterator it=h.begin(); for(;it!=h.end();++it) *it=(typename F::value_type)++id; }
  const MemoryWindow hint=h.window_without_ghost();
  for(int s=0;s<4;++s){
    IV vm,vp; for(int i=0;i<3;++i){ vm[i]=r.range(0,gm[i]); vp[i]=r.range(0,gp[i]); }
    h.reset_valid_ghosts(GhostData(vm,vp)); IV o,e; for(int i=0;i<3;++i){ o[i]=gm[i]-vm[i]; e[i]=d[i]==1&&n[i]==1?1:n[i]+(b[i]?extra[i]:0)+vm[i]+vp[i]; if(n[i]==1) e[i]=1; }
    if(!(h.window_with_ghost()==MemoryWindow(w2.extent(),o,e))){ vf::viol("reset:window",c.desc+" valid"+vf::str(vm)+vf::str(vp)); return; }
    if(!(h.get_valid_ghost_data()==GhostData(vm,vp))||!(h.get_ghost_data()==g2)||!(h.window_without_ghost()==hint)) vf::viol("reset:accounting",c.desc);
    F cp(h); if(!(cp.window_with_ghost()==h.window_with_ghost())||!(cp.get_valid_ghost_data()==GhostData(vm,vp))) vf::viol("reset:copy",c.desc);
    vf::count("resets");
    typename F::const_iterator it=h.begin(); for(int k=0;k<e[2];++k)for(int j=0;j<e[1];++j)for(int i=0;i<e[0];++i,++it){ long want=1+(i+o[0])+(long)w2.extent()[0]*((j+o[1])+(long)w2.extent()[1]*(k+o[2])); if(*it!=(typename F::value_type)want){ vf::viol("reset:contents",c.desc); return; } }
  }
  h.reset_valid_ghosts(g2); if(!(h.window_with_ghost()==w2)) vf::viol("reset:restore",c.desc);
  vf::count("windows");
}
#define W(T,E) vf::group(#T,120,[](vf::Case& c){ window<T##Field>(c,#T,E); })
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("arith",6000,arith); vf::group("ghost-history",4000,history);
  W(SVol,NOX);W(SSurfX,EX);W(SSurfY,EY);W(SSurfZ,EZ);
  W(XVol,EX);W(XSurfX,NOX);W(XSurfY,EY);W(XSurfZ,EZ);
  W(YVol,EY);W(YSurfX,EX);W(YSurfY,NOX);W(YSurfZ,EZ);
  W(ZVol,EZ);W(ZSurfX,EX);W(ZSurfY,EY);W(ZSurfZ,NOX);
  return vf::finish();
}
