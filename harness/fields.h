// Field builders and reference mirrors used by the monitors.
#ifndef VF_FIELDS_H
#define VF_FIELDS_H
#include "common.h"
#include <spatialops/SpatialOpsConfigure.h>
#include <spatialops/SpatialOpsTools.h>
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
#include <memory>
using namespace SpatialOps;
using namespace SpatialOps::structured;

typedef SpatialOps::structured::IntVec IV;
namespace vf {
inline std::string str(const IV& v){ return fmt("(%d,%d,%d)",v[0],v[1],v[2]); }
inline long npts(const IV& v){ return (long)v[0]*v[1]*v[2]; }

// layout of one field: interior cell count n, ghosts, boundary flags, extra cells,
// and the memory block the field's window sits in.
struct Lay {
  IV n, gm, gp, bc, ex;     // ex: extra cells actually present
  IV off, glob;             // window offset inside the block, block dims
  IV ext() const { return IV(d(0),d(1),d(2)); }
  // a direction counts as collapsed when the domain has one cell there
  int d(int i) const { return n[i]>1 ? n[i]+gm[i]+gp[i]+ex[i] : 1; }
  int lo(int i) const { return n[i]>1 ? -gm[i] : 0; }              // first cell (interior index)
  int hi(int i) const { return n[i]>1 ? n[i]+ex[i]+gp[i] : 1; }    // one past last
  size_t flat(int i,int j,int k) const { // interior index -> block index
    return (size_t)(i-lo(0)+off[0]) + (size_t)glob[0]*((size_t)(j-lo(1)+off[1]) + (size_t)glob[1]*(size_t)(k-lo(2)+off[2]));
  }
  std::string s() const { return "n"+str(n)+" gm"+str(gm)+" gp"+str(gp)+" bc"+str(bc)+" off"+str(off)+" glob"+str(glob); }
  uint64_t h() const { uint64_t x=7; for(int i=0;i<3;++i){ x=hcomb(x,n[i]); x=hcomb(x,gm[i]*64+gp[i]*8+bc[i]); x=hcomb(x,off[i]*100+glob[i]); } return x; }
};

struct DomOpt { int maxn=6, maxg=3; bool collapse=true, ghost_in_collapsed=false, asym=true; int ming=0; double far=0.05, big=0.0003; };
struct Dom { IV n, gm, gp, bc; };
inline Dom rand_dom(Rng& r, const DomOpt& o=DomOpt()){
  Dom d; 
  int style=r.range(0,3);
  for(int i=0;i<3;++i){
    d.n[i] = (o.collapse && r.chance(0.2)) ? 1 : r.range(2,o.maxn);
    bool col=d.n[i]==1;
    d.gm[i] = r.range(o.ming,o.maxg); d.gp[i] = (o.asym && style!=0) ? r.range(o.ming,o.maxg) : d.gm[i];
    d.bc[i] = r.chance(0.4);
    if(col){ d.bc[i]=0; if(!o.ghost_in_collapsed) { d.gm[i]=0; d.gp[i]=0; } }
  }
  // now and then a long thin domain, or many ghosts on one face
  if(o.far>0 && o.maxn>=4 && r.chance(o.big)){ bool huge=r.chance(0.6); for(int t=0;t<3;++t) d.n[t]= huge? r.range(41,46) : r.range(20,32); if(huge) count("huge-domains"); }      // more cells than fit in 16 bits, sometimes
  else if(r.chance(o.far)){ int t=r.range(0,2); d.n[t]= r.chance(0.1)? r.range(90,600) : r.range(8,90); for(int i=0;i<3;++i) if(i!=t && d.n[i]>3) d.n[i]=r.range(2,3); }
  else if(r.chance(o.far/2)){ int t=r.range(0,2); if(d.n[t]>1){ (r.chance(0.5)? d.gm:d.gp)[t]=r.range(4,12); for(int i=0;i<3;++i) if(i!=t && d.n[i]>3) d.n[i]=r.range(2,3); } }
  return d;
}
template<class F> Lay make_lay(Rng& r,const Dom& d, bool embed){
  Lay l; l.n=d.n; l.gm=d.gm; l.gp=d.gp; l.bc=d.bc;
  IV e=F::Location::BCExtra::int_vec();
  for(int i=0;i<3;++i) l.ex[i] = (d.bc[i] && d.n[i]>1) ? e[i] : 0;
  for(int i=0;i<3;++i){
    int before= embed? r.range(0,2):0, after= embed? r.range(0,2):0;
    if(embed && r.chance(0.02)) (r.chance(0.5)? before:after)=r.range(3,40);
    // a window of extent 1 in a longer block is fine for iteration; keep flat_index meaning too
    l.off[i]=before; l.glob[i]=l.d(i)+before+after;
  }
  return l;
}

// A field on caller-provided heap storage (exactly sized, so that the address
// sanitizer sees any access past the block), with canaries around the window.
template<class F> struct Blk {
  typedef typename F::value_type T;
  Lay l; std::unique_ptr<T[]> mem; std::vector<T> before; std::unique_ptr<F> f;
  MemoryWindow win() const { return MemoryWindow(l.glob,l.off,l.ext()); }
  Blk(){}
  void make(const Lay& lay){
    l=lay; size_t n=npts(l.glob); mem.reset(new T[n]);
    for(size_t i=0;i<n;++i) mem[i]=(T)(-77777.0-(double)i);
    f.reset(new F(win(), BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]), GhostData(l.gm,l.gp), mem.get(), ExternalStorage));
  }
  T& at(int i,int j,int k){ return mem[l.flat(i,j,k)]; }
  T at(int i,int j,int k) const { return mem[l.flat(i,j,k)]; }
  T at(const IV& v) const { return at(v[0],v[1],v[2]); }
  template<class Fn> void each(Fn fn){ for(int k=l.lo(2);k<l.hi(2);++k)for(int j=l.lo(1);j<l.hi(1);++j)for(int i=l.lo(0);i<l.hi(0);++i) fn(i,j,k); }
  void fill(Rng& r,double lo,double hi){ each([&](int i,int j,int k){ at(i,j,k)=(T)r.datum(lo,hi); }); }
  void snap(){ before.assign(mem.get(),mem.get()+npts(l.glob)); }
  bool unchanged() const { return memcmp(before.data(),mem.get(),before.size()*sizeof(T))==0; }
  // check that exactly the cells accepted by `in` may differ from the snapshot
  template<class In> bool outside_same(In in, std::string& why) const {
    std::vector<char> ok(before.size(),0);
    for(int k=l.lo(2);k<l.hi(2);++k)for(int j=l.lo(1);j<l.hi(1);++j)for(int i=l.lo(0);i<l.hi(0);++i) if(in(i,j,k)) ok[l.flat(i,j,k)]=1;
    for(size_t q=0;q<before.size();++q) if(!ok[q] && !same_bits(before[q],mem[q])){
      int x=q%l.glob[0]-l.off[0]+l.lo(0), y=(q/l.glob[0])%l.glob[1]-l.off[1]+l.lo(1), z=q/(l.glob[0]*l.glob[1])-l.off[2]+l.lo(2);
      why=fmt("cell (%d,%d,%d) outside the region changed from %.17g to %.17g", x,y,z,(double)before[q],(double)mem[q]); return false; }
    return true;
  }
};
} // vf
#endif
