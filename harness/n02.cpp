// N02: an assignment writes exactly its region, with values that only depend on
// valid cells of the operands (everything else in operand memory is NaN).
#include "grid.h"
using namespace vf;
#define X(...) VF_PROG(__VA_ARGS__)
VF_PROGS(X)
#undef X
template<class P> void run(Case& c,const char* nm,bool interior){
  Rng& r=c.r; World w; w.build(r,P::reach(),P::dims(),5,true);
  typedef typename P::F F; Blk<F>& D=P::dst(w); 
  // reset of the destination's own valid ghosts must not matter for what is written
  if(r.chance(0.15)){ IV vm=D.l.gm,vp=D.l.gp; for(int t=0;t<3;++t){ vm[t]=r.range(0,vm[t]); vp[t]=r.range(0,vp[t]); } if(std::string(P::text()).find("o.d ")==std::string::npos) D.f->reset_valid_ghosts(GhostData(vm,vp)); }
  c.note(std::string(nm)+" `"+P::text()+"` dst "+D.l.s()+" "+w.str_()); c.add(hstr(nm)); c.add(w.sig());
  std::unique_ptr<RE> re(w.re()); G g=P::ref(*re);
  IV lo,hi; bool ok=!g.b.bad; 
  for(int t=0;t<3;++t){ if(interior){ lo[t]=0; hi[t]=w.dom.n[t]+D.l.ex[t]; } else { lo[t]=D.l.lo(t); hi[t]=D.l.hi(t); if(!g.b.all){ lo[t]=std::max(lo[t],g.b.lo[t]); hi[t]=std::min(hi[t],g.b.hi[t]); } }
    if(!g.b.all && (g.b.lo[t]>0 || g.b.hi[t]<w.dom.n[t]+D.l.ex[t])) ok=false; }
  if(!ok){ c.nontrivial=false; count("skipped"); return; }
  count("run");
  std::unique_ptr<NE> ne(w.ne());
#ifdef ENABLE_THREADS
  D.f->set_partition_count(r.range(1,6));
#endif
  if(interior) P::inner(*ne); else P::assign(*ne);
  auto in=[&](int i,int j,int k){ int x[3]={i,j,k}; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) return false; return true; };
  std::string why; if(!D.outside_same(in,why)) viol(std::string(nm)+":outside",c.desc+fmt(" region [%s,%s) ",str(lo).c_str(),str(hi).c_str())+why);
  if(!w.operands_same(why)) viol(std::string(nm)+":operand-changed",c.desc+" operand "+why);
  bool bad=false; long cells=0;
  D.each([&](int i,int j,int k){ if(bad||!in(i,j,k)) return; ++cells; double want=g.f(i,j,k), got=D.at(i,j,k);
    if(!(std::fabs(got-want)<=1e-9*(1+std::fabs(want)))){ bad=true; viol(std::string(nm)+":value",c.desc+fmt(" region [%s,%s) cell (%d,%d,%d) is %.17g, expected %.17g",str(lo).c_str(),str(hi).c_str(),i,j,k,got,want)); } });
  count("cells",cells);
}
int main(int argc,char** argv){
  init(argc,argv);
#define X(ID,DST,TYPE,...) group(#ID,120,[](Case& c){ run<ID>(c,#ID,false); }); group(#ID "-interior",60,[](Case& c){ run<ID>(c,#ID "-interior",true); });
  VF_PROGS(X)
  return finish();
}
