// U04: point extraction and insertion against direct memory access.
#include "fields.h"
#include <spatialops/pointfield/PointFieldTypes.h>
#include <spatialops/pointfield/PointOperators.h>
using namespace vf;
typedef SpatialOps::Point::PointField PtF;
static Lay plain(int n,Rng& r){ Lay l; l.n=IV(1,1,1); l.gm=l.gp=l.bc=l.ex=l.off=IV(0,0,0); int dir=r.range(0,2); l.n[dir]=n; 
  if(n%2==0 && r.chance(0.3)){ l.n=IV(1,1,1); l.n[dir]=n/2; l.n[(dir+1)%3]=2; } l.glob=l.n; return l; }
// what a point may hold: anything a cell can
template<class T> static double held(Rng& r,double x){ if(!r.chance(0.25)) return (T)x; static const double sp[]={0.0,-0.0,0.0,1.0,-1.0,1e-30,1e30,-1e30,INFINITY,-INFINITY}; count("special"); return (T)sp[r.range(0,9)]; }
template<class F> void one(Case& c){
  typedef typename F::value_type T; Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); Lay l=make_lay<F>(r,d,r.chance(0.5));
  Blk<F> A,M; A.make(l); M.make(l); A.fill(r,-5,5);
  IV sm(0,0,0),sp(0,0,0);
  if(r.chance(0.4)){ for(int i=0;i<3;++i) if(l.n[i]>1){ sm[i]=r.range(0,l.gm[i]); sp[i]=r.range(0,l.gp[i]); } GhostData g(l.gm-sm,l.gp-sp); A.f->reset_valid_ghosts(g); M.f->reset_valid_ghosts(g); }
  // selected cells among the visible ones
  double dens = r.chance(0.15)? 1.0 : r.unit(); std::vector<size_t> sel; std::vector<char> mark(npts(l.glob),0);
  for(int i=0;i<(int)npts(l.glob);++i) M.mem[i]=(T)(r.chance(0.5)?3:0);       // marks outside the visible window must not count
  for(int k=l.lo(2)+sm[2];k<l.hi(2)-sp[2];++k)for(int j=l.lo(1)+sm[1];j<l.hi(1)-sp[1];++j)for(int i=l.lo(0)+sm[0];i<l.hi(0)-sp[0];++i){
    bool s=r.chance(dens); static const double val[]={1,-1,0.5,1e-300,-2,7}; T m=(T)val[r.range(0,sizeof(T)==4?2:5)]; M.at(i,j,k)= s? m : (r.chance(0.5)?(T)0:-(T)0); if(s) sel.push_back(l.flat(i,j,k)); }
  c.add(l.h()); c.add((uint64_t)sel.size()); for(size_t q: sel) c.add((uint64_t)q);
  c.note(fmt("%s %s minus%s plus%s %zu points",typeid(F).name(),l.s().c_str(),str(sm).c_str(),str(sp).c_str(),sel.size()));
  if(sel.empty()){ M.snap(); SpatialOps::Point::FieldToPoint<F> x(*M.f); SpatialOps::Point::PointToField<F> y(*M.f); if(!M.unchanged()) viol("marker-modified",c.desc); count("empty"); c.nontrivial=false; return; }
  M.snap(); A.snap();
  SpatialOps::Point::FieldToPoint<F> get(*M.f); SpatialOps::Point::PointToField<F> put(*M.f);
  Blk<PtF> p; p.make(plain(sel.size(),r)); count("points",sel.size());
  get.apply_to_field(*A.f,*p.f);
  for(size_t q=0;q<sel.size();++q) if(p.mem[q]!=A.mem[sel[q]]){ viol("extract-by-marker",c.desc+fmt(" point %zu is %.17g, the cell holds %.17g",q,p.mem[q],(double)A.mem[sel[q]])); break; }
  if(!A.unchanged()||!M.unchanged()) viol("extract-modified-operand",c.desc);
  for(size_t q=0;q<sel.size();++q) p.mem[q]=held<T>(r,100+q+r.unit()); p.snap();
  put.apply_to_field(*p.f,*A.f);
  for(int i=0;i<(int)npts(l.glob);++i){ size_t q=std::lower_bound(sel.begin(),sel.end(),(size_t)i)-sel.begin(); 
    // selection order is storage order
    T w = q<sel.size()&&sel[q]==(size_t)i ? (T)p.mem[q] : A.before[i]; if(!same_bits(w,A.mem[i])){ viol("insert-by-marker",c.desc+fmt(" flat %d holds %.17g, should be %.17g",i,(double)A.mem[i],(double)w)); break; } }
  if(!p.unchanged()||!M.unchanged()) viol("insert-modified-operand",c.desc);
  { Blk<PtF> b; b.make(p.l); get.apply_to_field(*A.f,*b.f); if(memcmp(b.mem.get(),p.mem.get(),sel.size()*sizeof(double))) viol("extract-after-insert-by-marker",c.desc); }
  // by index list: any order, repetitions, any flat index of the block
  std::vector<size_t> ix; bool same=r.chance(0.3), distinct=true; if(same) ix=sel; else { int n= r.chance(0.03)? r.range(200,2000) : r.range(1,12); for(int q=0;q<n;++q) ix.push_back(r.next()%npts(l.glob)); }
  { std::set<size_t> u(ix.begin(),ix.end()); distinct=u.size()==ix.size(); }
  for(size_t q: ix) c.add((uint64_t)q);
  SpatialOps::Point::FieldToPoint<F> gi(ix); SpatialOps::Point::PointToField<F> pi(ix); Blk<PtF> v; v.make(plain(ix.size(),r)); A.snap(); count("listed",ix.size());
  gi.apply_to_field(*A.f,*v.f);
  for(size_t q=0;q<ix.size();++q) if(v.mem[q]!=A.mem[ix[q]]){ viol("extract-by-list",c.desc+fmt(" point %zu (flat %zu) is %.17g, the cell holds %.17g",q,ix[q],v.mem[q],(double)A.mem[ix[q]])); break; }
  if(same){ Blk<PtF> w; w.make(p.l); get.apply_to_field(*A.f,*w.f); if(memcmp(w.mem.get(),v.mem.get(),ix.size()*sizeof(double))) viol("list-and-marker-differ",c.desc); }
  if(!A.unchanged()) viol("extract-modified-operand",c.desc+" by list");
  for(size_t q=0;q<ix.size();++q) v.mem[q]=held<T>(r,-100-(double)q-r.unit()); v.snap();
  pi.apply_to_field(*v.f,*A.f);
  { std::map<size_t,T> w; for(size_t q=0;q<ix.size();++q) w[ix[q]]=(T)v.mem[q]; // the last of repeated points stands
    for(int i=0;i<(int)npts(l.glob);++i){ T e= w.count(i)? w[i] : A.before[i]; if(distinct||!w.count(i)){ if(!same_bits(e,A.mem[i])){ viol("insert-by-list",c.desc+fmt(" flat %d holds %.17g, should be %.17g",i,(double)A.mem[i],(double)e)); break; } } } }
  if(!v.unchanged()) viol("insert-modified-operand",c.desc+" by list");
  if(distinct){ Blk<PtF> b; b.make(v.l); gi.apply_to_field(*A.f,*b.f); if(memcmp(b.mem.get(),v.mem.get(),ix.size()*sizeof(double))) viol("extract-after-insert-by-list",c.desc); count("round-trips"); }
}
int main(int argc,char** argv){ init(argc,argv); group("svol",2000,one<SVolField>); group("xsurfy",1500,one<XSurfYField>); group("zvol",1500,one<ZVolField>); group("float",1000,one<SpatialField<SVol,float> >); return finish(); }
