// W02: windows index and split memory exactly
#include "common.h"
#include <spatialops/structured/MemoryWindow.h>
using namespace SpatialOps::structured;
typedef IntVec IV;
static std::string s3(const IV&v){ return vf::fmt("(%d,%d,%d)",v[0],v[1],v[2]); }

static MemoryWindow rwin(vf::Rng& r,int maxe,int maxo){
  IV g,o,e; for(int i=0;i<3;++i){ e[i]=r.chance(0.2)?1:r.range(1,maxe); int b=r.chance(0.4)?0:r.range(0,maxo), a=r.chance(0.4)?0:r.range(0,maxo); o[i]=b; g[i]=b+e[i]+a; }
  return MemoryWindow(g,o,e);
}
static void index_case(vf::Case& c){
  MemoryWindow w=rwin(c.r,7,3); const IV g=w.glob_dim(), o=w.offset(), e=w.extent();
  c.note("glob"+s3(g)+" off"+s3(o)+" ext"+s3(e)); for(int i=0;i<3;++i){c.add((uint64_t)g[i]);c.add((uint64_t)o[i]);c.add((uint64_t)e[i]);}
  if(w.glob_npts()!=(size_t)g[0]*g[1]*g[2]) vf::viol("index:glob_npts",c.desc);
  if(w.local_npts()!=(size_t)e[0]*e[1]*e[2]) vf::viol("index:local_npts",c.desc);
  for(int i=0;i<3;++i) if((int)w.glob_dim(i)!=g[i]||(int)w.offset(i)!=o[i]||(int)w.extent(i)!=e[i]) vf::viol("index:accessor",c.desc);
  // local flat <-> ijk, x fastest; window-relative ijk -> global flat
  int n=0;
  for(int k=0;k<e[2];++k)for(int j=0;j<e[1];++j)for(int i=0;i<e[0];++i,++n){
    IV l=w.ijk_index_from_local(n);
    if(!(l==IV(i,j,k))){ vf::viol("index:from_local",c.desc+vf::fmt(" flat %d -> ",n)+s3(l)+" expected "+s3(IV(i,j,k))); return; }
    int want=(i+o[0])+g[0]*((j+o[1])+g[1]*(k+o[2]));
    int got=w.flat_index(IV(i,j,k));
    if(got!=want){ vf::viol("index:flat_index",c.desc+" "+s3(IV(i,j,k))+vf::fmt(" -> %d expected %d",got,want)); return; }
    IV gl=w.ijk_index_from_global(got);
    if(!(gl==IV(i+o[0],j+o[1],k+o[2]))){ vf::viol("index:from_global",c.desc+vf::fmt(" %d -> ",got)+s3(gl)); return; }
    vf::count("cells");
  }
  n=0; for(int k=0;k<g[2];++k)for(int j=0;j<g[1];++j)for(int i=0;i<g[0];++i,++n){
    IV gl=w.ijk_index_from_global(n);
    if(!(gl==IV(i,j,k))){ vf::viol("index:from_global",c.desc+vf::fmt(" %d -> ",n)+s3(gl)); return; }
    if(ijk_to_flat(g,IV(i,j,k))!=n || !(flat_to_ijk(g,n)==IV(i,j,k))){ vf::viol("index:free_functions",c.desc); return; }
  }
}
static void refine_case(vf::Case& c){
  MemoryWindow w=rwin(c.r,vf::thorough()?17:13,3); const IV g=w.glob_dim(), o=w.offset(), e=w.extent();
  IV sp; for(int i=0;i<3;++i) sp[i]=c.r.chance(0.3)?e[i]:c.r.range(1,e[i]);
  c.note("glob"+s3(g)+" off"+s3(o)+" ext"+s3(e)+" split"+s3(sp)); for(int i=0;i<3;++i){c.add((uint64_t)g[i]);c.add((uint64_t)o[i]);c.add((uint64_t)(e[i]*32+sp[i]));}
  c.nontrivial = sp[0]*sp[1]*sp[2]>1;
  std::vector<int> cover((size_t)g[0]*g[1]*g[2],0); IV mn(1000,1000,1000), mx(0,0,0);
  for(int z=0;z<sp[2];++z)for(int y=0;y<sp[1];++y)for(int x=0;x<sp[0];++x){
    MemoryWindow p=w.refine(sp,IV(x,y,z)); vf::count("pieces");
    if(!(p.glob_dim()==g)){ vf::viol("refine:glob",c.desc); return; }
    for(int i=0;i<3;++i){
      int pe=p.extent()[i], po=p.offset()[i];
      if(pe<1 || po<o[i] || po+pe>o[i]+e[i]){ vf::viol("refine:outside",c.desc+" piece "+s3(IV(x,y,z))+" off"+s3(p.offset())+" ext"+s3(p.extent())); return; }
      mn[i]=std::min(mn[i],pe); mx[i]=std::max(mx[i],pe);
    }
    for(int k=0;k<p.extent()[2];++k)for(int j=0;j<p.extent()[1];++j)for(int i=0;i<p.extent()[0];++i) cover[p.flat_index(IV(i,j,k))]++;
  }
  for(int i=0;i<3;++i) if(mx[i]-mn[i]>1){ vf::viol("refine:uneven",c.desc); return; }
  for(int k=0;k<g[2];++k)for(int j=0;j<g[1];++j)for(int i=0;i<g[0];++i){
    bool in=i>=o[0]&&i<o[0]+e[0]&&j>=o[1]&&j<o[1]+e[1]&&k>=o[2]&&k<o[2]+e[2];
    int v=cover[i+g[0]*(j+g[1]*k)];
    if(v!=(in?1:0)){ vf::viol("refine:cover",c.desc+vf::fmt(" cell (%d,%d,%d) covered %d times",i,j,k,v)); return; }
  }
  // order of pieces along each direction follows location
}
// windows far larger than memory would allow to enumerate: random cells, corners, and whole axes of a split
static void large_case(vf::Case& c){
  vf::Rng& r=c.r; IV g,o,e; int style=r.range(0,3); double room=2147483647.0;
  for(int q=0;q<3;++q){ int i= (q+style)%3; int cap= style==3? 1280 : q==0? 60000 : q==1? 400 : 80; cap=(int)std::min<double>(cap,room/ (q==0?1:1)); e[i]= r.chance(0.1)?1: r.range(1,cap-20); int b=r.range(0,10),a=r.range(0,10); o[i]=b; g[i]=e[i]+b+a; }
  while((double)g[0]*g[1]*g[2]>=room){ int i= g[0]>g[1]? (g[0]>g[2]?0:2) : (g[1]>g[2]?1:2); e[i]=e[i]/2+1; g[i]=e[i]+o[i]+2; }
  MemoryWindow w(g,o,e); c.note("glob"+s3(g)+" off"+s3(o)+" ext"+s3(e)); for(int i=0;i<3;++i){c.add((uint64_t)g[i]);c.add((uint64_t)o[i]);c.add((uint64_t)e[i]);}
  if(w.glob_npts()!=(size_t)g[0]*(size_t)g[1]*(size_t)g[2]||w.local_npts()!=(size_t)e[0]*(size_t)e[1]*(size_t)e[2]) vf::viol("large:npts",c.desc);
  for(int t=0;t<40;++t){ IV q; for(int i=0;i<3;++i) q[i]= t<8? ((t>>i)&1? e[i]-1:0) : r.range(0,e[i]-1); vf::count("cells");
    long want=(q[0]+o[0])+(long)g[0]*((q[1]+o[1])+(long)g[1]*(q[2]+o[2])); int got=w.flat_index(q); if((long)got!=want){ vf::viol("large:flat_index",c.desc+" "+s3(q)+vf::fmt(" -> %d expected %ld",got,want)); return; }
    if(!(w.ijk_index_from_global(got)==IV(q[0]+o[0],q[1]+o[1],q[2]+o[2]))||ijk_to_flat(g,IV(q[0]+o[0],q[1]+o[1],q[2]+o[2]))!=got){ vf::viol("large:from_global",c.desc+" "+s3(q)); return; }
    long loc=q[0]+(long)e[0]*(q[1]+(long)e[1]*q[2]); if(!(w.ijk_index_from_local((int)loc)==q)){ vf::viol("large:from_local",c.desc+" "+s3(q)); return; } }
  IV sp; for(int i=0;i<3;++i) sp[i]= r.chance(0.2)? std::min(e[i],2000) : r.range(1,std::min(e[i],r.chance(0.3)?2000:60));
  for(int d=0;d<3;++d){ int at=o[d],mn=1<<30,mx=0; IV loc; for(int i=0;i<3;++i) loc[i]=r.range(0,sp[i]-1);
    for(int k=0;k<sp[d];++k){ loc[d]=k; MemoryWindow p=w.refine(sp,loc); vf::count("pieces"); if(!(p.glob_dim()==g)||p.offset()[d]!=at){ vf::viol("large:refine",c.desc+" split"+s3(sp)+" at"+s3(loc)+" off"+s3(p.offset())+vf::fmt(" expected %d",at)); return; } at+=p.extent()[d]; mn=std::min(mn,p.extent()[d]); mx=std::max(mx,p.extent()[d]); }
    if(at!=o[d]+e[d]||mx-mn>1||mn<1){ vf::viol("large:refine",c.desc+" split"+s3(sp)+vf::fmt(" ends at %d, extents %d to %d",at,mn,mx)); return; } }
}
static void eq_case(vf::Case& c){
  MemoryWindow a=rwin(c.r,4,2); IV g=a.glob_dim(),o=a.offset(),e=a.extent();
  int what=c.r.range(0,9), comp=what%3; 
  c.note("glob"+s3(g)+" off"+s3(o)+" ext"+s3(e)+vf::fmt(" change %d",what)); c.add((uint64_t)what); for(int i=0;i<3;++i){c.add((uint64_t)g[i]);c.add((uint64_t)o[i]);c.add((uint64_t)e[i]);}
  bool same=false;
  if(what<3) g[comp]+=1; else if(what<6){ o[comp]+=1; g[comp]=std::max(g[comp],o[comp]+e[comp]); }
  else if(what<9){ e[comp]+=1; g[comp]=std::max(g[comp],o[comp]+e[comp]); } else same=true;
  MemoryWindow b(g,o,e);
  // keep the other attributes of `a` equal when the change did not need a bigger block
  bool expect = (a.glob_dim()==b.glob_dim())&&(a.offset()==b.offset())&&(a.extent()==b.extent());
  if(same!=expect){ vf::viol("eq:intvec",c.desc); }
  if((a==b)!=expect || (a!=b)==expect || (b==a)!=expect) vf::viol("eq:window",c.desc);
  MemoryWindow cp(a); if(!(cp==a)||cp!=a) vf::viol("eq:copy",c.desc);
  MemoryWindow as(IV(1,1,1)); as=b; if(!(as==b)||as!=b||(as==a)!=expect) vf::viol("eq:assign",c.desc);
  MemoryWindow whole(g); if(!(whole==MemoryWindow(g,IV(0,0,0),g))) vf::viol("eq:whole",c.desc);
  int ga[3]={g[0],g[1],g[2]},oa[3]={o[0],o[1],o[2]},ea[3]={e[0],e[1],e[2]};
  if(MemoryWindow(ga,oa,ea)!=b || MemoryWindow(ga)!=whole) vf::viol("eq:array-ctor",c.desc);
}
static void vec_case(vf::Case& c){
  IV a(c.r.range(-9,9),c.r.range(-9,9),c.r.range(-9,9)), b(c.r.range(-9,9),c.r.range(-9,9),c.r.range(-9,9)); int s=c.r.range(-5,5);
  c.note(s3(a)+" "+s3(b)); for(int i=0;i<3;++i){c.add((uint64_t)(a[i]+50));c.add((uint64_t)(b[i]+50));}
  for(int i=0;i<3;++i){
    bool ok=(a+b)[i]==a[i]+b[i] && (a-b)[i]==a[i]-b[i] && (a*b)[i]==a[i]*b[i] && (a+s)[i]==a[i]+s && (a*s)[i]==a[i]*s && min(a,b)[i]==std::min(a[i],b[i]);
    if(b[i]!=0){ IV bb(b[i],b[i],b[i]); ok=ok && (a/bb)[i]==a[i]/b[i]; }
    IV t=a; t+=b; ok=ok&&t[i]==a[i]+b[i]; t=a; t-=b; ok=ok&&t[i]==a[i]-b[i];
    if(!ok) vf::viol("vec:arith",c.desc);
  }
  if(a.sum()!=a[0]+a[1]+a[2]) vf::viol("vec:sum",c.desc);
  bool e=a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2]; if((a==b)!=e||(a!=b)==e) vf::viol("vec:eq",c.desc);
  IV d=a; d[c.r.range(0,2)]+=1; if(d==a||!(d!=a)) vf::viol("vec:eq",c.desc);
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("index",3000,index_case);
  vf::group("refine",6000,refine_case);
  vf::group("large",3000,large_case);
  vf::group("eq",4000,eq_case);
  vf::group("vec",4000,vec_case);
  return vf::finish();
}
