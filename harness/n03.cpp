// N03: threaded assignment == sequential assignment for every partitioning, with
// busy pools, changing limits and capacities, and perturbed schedules.
#include "grid.h"
#include "perturb.h"
#include <spatialops/ThreadPool.h>
using namespace vf;
#define X(...) VF_PROG(__VA_ARGS__)
VF_PROGS(X)
#undef X
static std::atomic<long> blockers(0);
static void blocker(int us){ struct timespec t={0,us*1000L}; nanosleep(&t,0); ++blockers; }
static std::set<std::string> shapes;
template<class P> void run(Case& c,const char* nm,bool interior){
  Rng& r=c.r; World w; pt().level=r.range(0,3);
  w.build(r,P::reach(),P::dims(),r.chance(0.3)?9:5,false);
  typedef typename P::F F; Blk<F>& D=P::dst(w);
  c.note(std::string(nm)+" `"+P::text()+"` dst "+D.l.s()+" "+w.str_()); c.add(hstr(nm)); c.add(w.sig());
  std::unique_ptr<NE> ne(w.ne()); std::unique_ptr<RE> re(w.re()); G g=P::ref(*re);
  bool ok=!g.b.bad; for(int t=0;t<3;++t) if(!g.b.all && (g.b.lo[t]>0 || g.b.hi[t]<w.dom.n[t]+D.l.ex[t])) ok=false;
  if(!ok){ c.nontrivial=false; count("skipped"); return; }
  size_t bytes=npts(D.l.glob);
  typedef typename F::value_type V; std::vector<V> first,start(D.mem.get(),D.mem.get()+bytes);
  int reps=r.range(3,6); std::vector<int> parts; parts.push_back(1);
  static const int odd[]={2,3,4,5,6,7,8,9,12,16,64,1000}; for(int i=0;i<reps;++i) parts.push_back(odd[r.range(0,11)]);
  for(size_t q=0;q<parts.size();++q){
    if(q){ std::copy(start.begin(),start.end(),D.mem.get()); }
    std::string how=fmt("partitions %d",parts[q]);
    if(q && r.chance(0.3)){ int cap=r.range(1,8); ThreadPoolFIFO::set_pool_capacity(cap); how+=fmt(" capacity %d",cap); count("capacity-changes"); }
    if(q && r.chance(0.4)){ int lim=r.range(1,8); ThreadPoolFIFO::resize_pool(lim); how+=fmt(" limit %d",lim); count("limit-changes"); }
    if(q && r.chance(0.4)){ int nb=r.range(1,4); for(int i=0;i<nb;++i) ThreadPoolFIFO::self().schedule(boost::bind(blocker,r.range(10,800))); how+=fmt(" behind %d tasks",nb); }
    D.f->set_partition_count(parts[q]);
    if(D.f->get_partition_count()!=parts[q]) viol("partition-count",c.desc+" "+how+fmt(" get_partition_count gives %d",D.f->get_partition_count()));
    if(interior) P::inner(*ne); else P::assign(*ne);
    count("assignments");
    if(q==0){ first.assign(D.mem.get(),D.mem.get()+bytes);
      IV lo,hi; for(int t=0;t<3;++t){ if(interior){ lo[t]=0; hi[t]=w.dom.n[t]+D.l.ex[t]; } else { lo[t]=D.l.lo(t); hi[t]=D.l.hi(t); if(!g.b.all){ lo[t]=std::max(lo[t],g.b.lo[t]); hi[t]=std::min(hi[t],g.b.hi[t]); } } }
      bool bad=false; D.each([&](int i,int j,int k){ if(bad) return; int x[3]={i,j,k}; bool in=true; for(int t=0;t<3;++t) if(x[t]<lo[t]||x[t]>=hi[t]) in=false; if(!in) return;
        double want=g.f(i,j,k),got=D.at(i,j,k); if(!(std::fabs(got-want)<=1e-9*(1+std::fabs(want)))){ bad=true; viol(std::string(nm)+":value",c.desc+fmt(" one partition: cell (%d,%d,%d) is %.17g, expected %.17g",i,j,k,got,want)); } });
    } else {
      count("cells",bytes);
      if(memcmp(first.data(),&D.mem[0],bytes*sizeof(V))){ size_t z=0; while(z<bytes && same_bits(first[z],D.mem[z])) ++z;
        viol(std::string(nm)+":partition-dependence",c.desc+" "+how+fmt(": memory word %zu is %.17g, with one partition %.17g (before %.17g)",z,(double)D.mem[z],(double)first[z],(double)start[z])); break; }
    }
    std::string why; if(!w.operands_same(why)){ viol(std::string(nm)+":operand-changed",c.desc+" operand "+why); break; }
  }
  c.add((uint64_t)parts[1]);
  pt().level=0;
}
int main(int argc,char** argv){
  init(argc,argv); pt().seed=st().seed*7919+st().shard;
#define X(ID,DST,TYPE,...) group(#ID,100,[](Case& c){ run<ID>(c,#ID,false); }); group(#ID "-interior",40,[](Case& c){ run<ID>(c,#ID "-interior",true); });
  VF_PROGS(X)
  ThreadPoolFIFO::self().wait();
  count("blocker-tasks",blockers.load()); count("perturbed-points",(long long)pt().points.load()); count("injected-delays",(long long)pt().delays.load());
  return finish();
}
