// N06: a mask is exactly its point set, however it is read or used.
#include "fields.h"
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
using namespace vf;
typedef std::set<std::vector<int> > Set;
template<class F> struct MaskCase {
  Blk<F> f; IV lo,hi; std::vector<IV> pts; Set set; // [lo,hi): valid region in interior indices
  MaskCase(Rng& r,const Dom& d,bool embed,bool reset){
    f.make(make_lay<F>(r,d,embed)); IV vm=f.l.gm,vp=f.l.gp;
    if(reset){ for(int t=0;t<3;++t){ vm[t]=r.range(0,vm[t]); vp[t]=r.range(0,vp[t]); } f.f->reset_valid_ghosts(GhostData(vm,vp)); }
    for(int t=0;t<3;++t){ lo[t]= d.n[t]>1? -vm[t]:0; hi[t]= d.n[t]>1? d.n[t]+f.l.ex[t]+vp[t]:1; }
    long tot=(long)(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]); int style=r.range(0,4);
    auto put=[&](int i,int j,int k){ pts.push_back(IV(i,j,k)); set.insert({i,j,k}); };
    if(style==0) ; 
    else if(style==1) for(int k=lo[2];k<hi[2];++k)for(int j=lo[1];j<hi[1];++j)for(int i=lo[0];i<hi[0];++i) put(i,j,k);
    else if(style==2){ for(int q=0;q<8;++q) if(r.chance(0.6)) put(q&1?lo[0]:hi[0]-1, q&2?lo[1]:hi[1]-1, q&4?lo[2]:hi[2]-1); }
    else { int np=r.range(1,(int)std::min<long>(tot,60)); for(int q=0;q<np;++q) put(r.range(lo[0],hi[0]-1),r.range(lo[1],hi[1]-1),r.range(lo[2],hi[2]-1)); }
  }
  bool has(int i,int j,int k) const { return set.count({i,j,k})!=0; }
  std::string s() const { return f.l.s()+" valid ["+str(lo)+","+str(hi)+fmt(") points %zu",pts.size()); }
};
// walk a mask over the box [lo,hi) by random routes
template<class It> bool walk(Rng& r,It begin,It end,const IV& lo,const IV& hi,const std::function<bool(int,int,int)>& truth,std::string& why){
  int e[3]={hi[0]-lo[0],hi[1]-lo[1],hi[2]-lo[2]}; long tot=(long)e[0]*e[1]*e[2];
  auto at=[&](long p){ return truth(lo[0]+p%e[0],lo[1]+(p/e[0])%e[1],lo[2]+p/((long)e[0]*e[1])); };
  if(end-begin!=tot){ why=fmt("end-begin is %ld, expected %ld",(long)(end-begin),tot); return false; }
  long p=0; for(It i=begin;i!=end;++i,++p){ if(p>=tot){ why="runs past the end"; return false; } if(*i!=at(p)){ why=fmt("forward: position %ld reads %d",p,(int)*i); return false; } }
  if(p!=tot){ why=fmt("forward walk visits %ld of %ld",p,tot); return false; }
  { It i=end; p=tot; while(p>0){ if(r.chance(0.5)) --i; else i--; --p; if(*i!=at(p)){ why=fmt("backward: position %ld reads %d",p,(int)*i); return false; } } if(!(i==begin)){ why="backward walk does not end at begin"; return false; } }
  It i=begin; p=0;
  for(int s=0;s<60;++s){ long q=r.range(0,(int)tot); if(r.chance(0.4)) q=std::min<long>(tot,std::max<long>(0,p+r.range(-3,3))); int dlt=(int)(q-p);
    switch(r.range(0,7)){ case 0: i+=dlt; break; case 1: i-=-dlt; break; case 2: i=i+dlt; break; case 3: i=i-(-dlt); break; case 4: i=begin+(int)q; break; case 5: i=end-(int)(tot-q); break;
      case 6: while(p<q){ if(r.chance(.5)) ++i; else i++; ++p; } while(p>q){ if(r.chance(.5)) --i; else i--; --p; } break;
      default: { It t=i; if(dlt>0){ It o=t; if(!(t++==o)) { why="post-increment value"; return false; } t+=dlt-1; } else t+=dlt; i=t; } }
    p=q; count("moves");
    if(i-begin!=p || end-i!=tot-p){ why=fmt("distance %ld, expected %ld",(long)(i-begin),p); return false; }
    It x=begin+(int)p; if(!(i==x)||i!=x||i<x||i>x||!(i<=x)||!(i>=x)){ why="comparison with an equal position"; return false; }
    if(p<tot){ if(*i!=at(p)){ why=fmt("after jumps: position %ld of %ld reads %d (last move %+d)",p,tot,(int)*i,dlt); return false; }
      int o=r.range(0,(int)tot-1); if(i[(int)(o-p)]!=at(o)){ why=fmt("subscript %ld from %ld",(long)(o-p),p); return false; }
      if(!(i<end)||i>=end||!(end>i)){ why="ordering against end"; return false; } }
  }
  return true;
}
template<class F> void bits(Case& c,const char* tn,bool big=false){
  Rng& r=c.r; DomOpt o; o.maxn=r.chance(0.2)?20:7; o.maxg=3; if(big) o.big=1; Dom d=rand_dom(r,o);
  MaskCase<F> m(r,d,r.chance(0.5),r.chance(0.3));
  c.note(std::string(tn)+" "+m.s()); c.add(hstr(tn)); c.add(m.f.l.h()); for(auto& p: m.pts) c.add((uint64_t)(p[0]+64*(p[1]+64*p[2])));
  m.f.snap();
  std::unique_ptr<SpatialMask<F> > first(new SpatialMask<F>(*m.f.f,m.pts)); SpatialMask<F>& mk=*first;
  if(!m.f.unchanged()) viol("bits:prototype-changed",c.desc);
  auto truth=[&](int i,int j,int k){ return m.has(i,j,k); };
  auto check=[&](const SpatialMask<F>& q,const char* what){ std::string why;
    for(int k=m.lo[2];k<m.hi[2];++k)for(int j=m.lo[1];j<m.hi[1];++j)for(int i=m.lo[0];i<m.hi[0];++i){ count("queries");
      if(q(IV(i,j,k))!=truth(i,j,k)){ viol(std::string("bits:query:")+what,c.desc+fmt(" cell (%d,%d,%d)",i,j,k)); return; }
      if(q(i,j,k)!=truth(i,j,k)){ viol(std::string("bits:query3:")+what,c.desc+fmt(" cell (%d,%d,%d)",i,j,k)); return; } }
    if(!walk(r,q.begin(),q.end(),m.lo,m.hi,truth,why)) viol(std::string("bits:iterate:")+what,c.desc+" "+why);
    IV il(0,0,0),ih; for(int t=0;t<3;++t) ih[t]=d.n[t]>1? d.n[t]+m.f.l.ex[t]:1;
    if(!walk(r,q.interior_begin(),q.interior_end(),il,ih,truth,why)) viol(std::string("bits:interior:")+what,c.desc+" "+why);
  };
  check(mk,"direct");
  { SpatialMask<F> cp(mk); check(cp,"copy"); SpatialMask<F> c2(cp); check(c2,"copy2"); }
  check(mk,"after-copy-destroyed");
  // another mask alive at the same time does not interfere
  { MaskCase<F> o2(r,d,false,false); SpatialMask<F> mo(*o2.f.f,o2.pts); check(mk,"beside-another"); }
  // conversion to another window: pieces of the mask's own window, and reshaping
  const MemoryWindow w=mk.window_with_ghost();
  for(int q=0;q<4;++q){ IV split,loc,a,b; for(int t=0;t<3;++t){ split[t]=r.range(1,std::min<int>(4,w.extent(t))); loc[t]=r.range(0,split[t]-1); }
    MemoryWindow piece=w.refine(split,loc); for(int t=0;t<3;++t){ a[t]=m.lo[t]+(int)piece.offset(t)-(int)w.offset(t); b[t]=a[t]+(int)piece.extent(t); }
    SpatialMask<F> sub(piece,mk); std::string why; count("subwindows");
    if(!walk(r,sub.begin(),sub.end(),a,b,truth,why)) viol("bits:subwindow",c.desc+" window ["+str(a)+","+str(b)+") "+why); }
  { IV sh,em,a,b; for(int t=0;t<3;++t){ int ext=m.hi[t]-m.lo[t]; sh[t]=r.range(0,ext-1); int keep=r.range(1,ext-sh[t]); em[t]=keep-ext; a[t]=m.lo[t]+sh[t]; b[t]=a[t]+keep; }
    SpatialMask<F> rs=mk.reshape(em,sh); std::string why; if(!walk(r,rs.begin(),rs.end(),a,b,truth,why)) viol("bits:reshape",c.desc+" box ["+str(a)+","+str(b)+") "+why); }
  if(mk.get_ghost_data().get_minus()!=m.f.l.gm) viol("bits:ghosts",c.desc);
  c.nontrivial=!m.pts.empty();
}
// masked assignment: only masked cells of the destination change
template<class F> void masked(Case& c,const char* tn){
  typedef typename F::value_type T; Rng& r=c.r; DomOpt o; o.maxn=6; o.maxg=2; Dom d=rand_dom(r,o);
  MaskCase<F> m(r,d,r.chance(0.4),r.chance(0.4)); Blk<F> dst,src; Dom e=d; if(r.chance(0.5)) for(int t=0;t<3;++t) if(d.n[t]>1){ e.gm[t]=r.range(0,2); e.gp[t]=r.range(0,2); }
  dst.make(make_lay<F>(r,e,r.chance(0.4))); src.make(make_lay<F>(r,d,r.chance(0.4)));
  dst.fill(r,-9,9); src.fill(r,100,200); dst.snap(); src.snap();
  c.note(std::string(tn)+" dst "+dst.l.s()+" mask "+m.s()); c.add(hstr(tn)); c.add(dst.l.h()); c.add(m.f.l.h()); c.add(m.pts.size());
  SpatialMask<F> mk(*m.f.f,m.pts); int how=r.range(0,3);
#ifdef ENABLE_THREADS
  dst.f->set_partition_count(r.range(1,6));
#endif
  const double k=r.real(500,600);
  if(how==0) *dst.f <<= cond(mk,*src.f)(*dst.f); else if(how==1) *dst.f <<= cond(mk,k)(*dst.f); else if(how==2) *dst.f <<= cond(!mk,*dst.f)(*src.f*2.0); else { SpatialMask<F> cp(mk); *dst.f <<= cond(cp,*src.f+1.0)(*dst.f); }
  long ch=0; bool bad=false; std::string why;
  // written region: where destination, source and mask are all known
  auto in=[&](int i,int j,int kk){ int x[3]={i,j,kk}; for(int t=0;t<3;++t) if(x[t]<std::max(m.lo[t],src.l.lo(t))||x[t]>=std::min(m.hi[t],src.l.hi(t))) return false; return true; };
  if(!dst.outside_same([&](int i,int j,int kk){ return m.has(i,j,kk) && (how==1 || in(i,j,kk)); },why)) viol("masked:outside",c.desc+" "+why);
  for(auto& p: m.set){ if(p[0]<dst.l.lo(0)||p[0]>=dst.l.hi(0)||p[1]<dst.l.lo(1)||p[1]>=dst.l.hi(1)||p[2]<dst.l.lo(2)||p[2]>=dst.l.hi(2)) continue;
    T s= in(p[0],p[1],p[2])? src.at(p[0],p[1],p[2]):T(0); T want= how==0? s : how==1? (T)k : how==2? (T)(s*2.0) : (T)(s+1.0);
    T got=dst.at(p[0],p[1],p[2]); ++ch; if(got!=want && !bad){ bad=true; viol("masked:value",c.desc+fmt(" how %d cell (%d,%d,%d) is %.17g, expected %.17g",how,p[0],p[1],p[2],(double)got,(double)want)); } }
  if(!src.unchanged()) viol("masked:source",c.desc);
  count("masked-cells",ch); c.nontrivial=ch>0;
}
// shifted masks.  Entity i of a location staggered along `dir` sits on the minus
// side of entity i of one that is not.
template<class S,class D> void shift(Case& c,const char* nm,int dir,bool srcStag){
  Rng& r=c.r; DomOpt o; o.maxn=6; o.maxg=3; o.collapse=true; Dom d=rand_dom(r,o); if(d.n[dir]==1){ d.n[dir]=r.range(2,6); d.gm[dir]=r.range(0,2); d.gp[dir]=r.range(0,2); }
  Dom e=d; for(int t=0;t<3;++t) if(d.n[t]>1){ e.gm[t]=r.range(0,3); e.gp[t]=r.range(0,3); }
  Blk<D> dst; dst.make(make_lay<D>(r,e,r.chance(0.4)));
  bool plus=r.chance(0.5); int P= srcStag? (plus?0:1) : (plus?-1:0);
  MaskCase<S> m(r,d,r.chance(0.4),r.chance(0.4));
  IV lo,hi; bool ok=true; for(int t=0;t<3;++t){ int p=t==dir?P:0; lo[t]=std::max(dst.l.lo(t),m.lo[t]+std::max(-p,0)); hi[t]=std::min(dst.l.hi(t),m.hi[t]-std::max(p,0)); if(dst.l.bc[t] && m.hi[t]-std::max(p,0) < d.n[t]+dst.l.ex[t]) ok=false; if(lo[t]>0||hi[t]<d.n[t]) ok=false; }
  c.note(std::string(nm)+(plus?" plus":" minus")+" dst "+dst.l.s()+" mask "+m.s()); c.add(hstr(nm)); c.add(dst.l.h()); c.add(m.f.l.h()); c.add((uint64_t)plus); c.add(m.pts.size());
  if(!ok){ c.nontrivial=false; count("shift-skipped"); return; }
  dst.fill(r,-9,9); dst.snap(); SpatialMask<S> mk(*m.f.f,m.pts); NeboMaskShiftBuilder<S,D> sb; int how=r.range(0,2);
#ifdef ENABLE_THREADS
  dst.f->set_partition_count(r.range(1,6));
#endif
  // shift, its negation, and a later clause
  if(plus){ if(how==0) *dst.f <<= cond(sb.plus(mk),1.0)(0.0); else if(how==1) *dst.f <<= cond(!sb.plus(mk),0.0)(1.0); else *dst.f <<= cond(*dst.f>100.0,7.0)(sb.plus(mk),1.0)(0.0); }
  else    { if(how==0) *dst.f <<= cond(sb.minus(mk),1.0)(0.0); else if(how==1) *dst.f <<= cond(!sb.minus(mk),0.0)(1.0); else *dst.f <<= cond(*dst.f>100.0,7.0)(sb.minus(mk),1.0)(0.0); }
  auto in=[&](int i,int j,int k){ int x[3]={i,j,k}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; };
  std::string why; if(!dst.outside_same(in,why)) viol(std::string("shift:outside:")+nm,c.desc+" "+why);
  bool bad=false; dst.each([&](int i,int j,int k){ if(bad||!in(i,j,k)) return; int q[3]={i,j,k}; q[dir]+=P; bool want=m.has(q[0],q[1],q[2]); count("shift-cells");
    if(dst.at(i,j,k)!=(want?1.0:0.0)){ bad=true; viol(std::string("shift:value:")+nm,c.desc+fmt(" how %d cell (%d,%d,%d) reads %g",how,i,j,k,(double)dst.at(i,j,k))); } });
}
int main(int argc,char** argv){
  init(argc,argv);
#define B(F,N) group("bits-" #F,N,[](Case& c){ bits<F>(c,#F); }); 
  typedef SpatialField<SVol,float> SVolF;
  B(SVolField,220) B(SSurfXField,120) B(XVolField,120) B(YSurfYField,80) B(ZVolField,80) B(SVolF,40)
#define M(F,N) group("masked-" #F,N,[](Case& c){ masked<F>(c,#F); });
  M(SVolField,250) M(SSurfXField,150) M(YVolField,150) M(ZSurfZField,150) M(SVolF,60)
#define S2(V,G,DIR) group("shift-" #V "-" #G,120,[](Case& c){ shift<V,G>(c,#V "->" #G,DIR,false); }); group("shift-" #G "-" #V,120,[](Case& c){ shift<G,V>(c,#G "->" #V,DIR,true); });
  group("bits-large",3,[](Case& c){ bits<SVolField>(c,"SVolField",true); });
  S2(SVolField,SSurfXField,0) S2(SVolField,SSurfYField,1) S2(SVolField,SSurfZField,2)
  S2(SVolField,XVolField,0) S2(SVolField,YVolField,1) S2(SVolField,ZVolField,2)
  return finish();
}
