// U03: particle-mesh transfer against the overlap integral.
#include "fields.h"
#include <spatialops/particles/ParticleFieldTypes.h>
#include <spatialops/particles/ParticleOperators.h>
using namespace vf;
typedef SpatialOps::Particle::ParticleField PF;

template<class CF> struct Mesh {
  Lay l; Blk<CF> X; double xo,dx; int n; // n cells in all, xo = centre of the first
  void make(Rng& r){
    int dir=r.range(0,2); l.n=IV(1,1,1); l.gm=l.gp=l.bc=l.ex=l.off=IV(0,0,0); l.n[dir]= r.chance(0.03)? r.range(100,1500) : r.range(2,12); l.gm[dir]=r.range(0,2); l.gp[dir]=r.range(0,2);
    l.bc[dir]=r.chance(0.3); IV e=CF::Location::BCExtra::int_vec(); l.ex[dir]= l.bc[dir]? e[dir]:0;
    l.glob=IV(l.d(0),l.d(1),l.d(2)); n=npts(l.glob);
    dx=std::pow(10.0,r.chance(.2)? r.range(-15,15) : r.range(-3,3))*(r.chance(0.5)?1:r.real(0.5,2)); xo = r.chance(0.25)? dx/2 : r.chance(0.3)? 0.0 : r.real(-1000,1000)*dx;
    X.make(l); for(int i=0;i<n;++i) X.mem[i]=xo+i*dx;
  }
  double lo() const { return xo-dx/2; } double hi() const { return xo+(n-0.5)*dx; }
};
static Lay plain(int n){ Lay l; l.n=IV(n,1,1); l.gm=l.gp=l.bc=l.ex=l.off=IV(0,0,0); l.glob=IV(n,1,1); return l; }
// a particle inside the mesh
template<class CF> void inside(Rng& r,const Mesh<CF>& m,double& x,double& s){
  double w=m.hi()-m.lo();
  switch(r.range(0,6)){
    case 0: s=w; x=m.lo()+w/2; break;                                             // the whole mesh
    case 1: { int a=r.range(0,m.n-1), b=r.range(a+1,m.n); s=(b-a)*m.dx; x=m.lo()+0.5*(a+b)*m.dx; break; } // edges on faces
    case 2: { int a=r.range(0,m.n-1); s=m.dx*(r.chance(.3)? std::pow(10.0,r.real(-6,-2)) : r.real(0.01,0.9)); x=m.xo+a*m.dx; break; }                    // within one cell
    case 3: s=m.dx*r.real(0.01,1); x=m.lo()+s/2; break;                           // against the low end
    case 4: s=m.dx*r.real(0.01,1); x=m.hi()-s/2; break;                           // against the high end
    default: s=w*r.real(0.002,1); x=m.lo()+s/2+r.unit()*(w-s);
  }
}
template<class CF> void one(Case& c){
  Rng& r=c.r; Mesh<CF> m; m.make(r);
  int np=r.chance(0.3)?1: r.chance(0.03)? r.range(100,2000) : r.range(1,9);
  Blk<PF> x,s,v,out; for(Blk<PF>* b: {&x,&s,&v,&out}) b->make(plain(np));
  double vs= r.chance(.3)? std::pow(10.0,r.range(-200,200)) : 1, fs= r.chance(.3)? std::pow(10.0,r.range(-200,200)) : 1, zer= r.chance(.2)? r.real(0,1) : 0.02; if(vs!=1||fs!=1) count("scaled");
  for(int i=0;i<np;++i){ inside(r,m,x.mem[i],s.mem[i]); v.mem[i]= r.chance(zer)? 0.0 : r.real(-5,5)*vs; }
  Blk<CF> f,d; f.make(m.l); d.make(m.l); for(int i=0;i<m.n;++i) f.mem[i]= r.chance(zer)? 0.0 : r.real(-5,5)*fs;
  c.add(m.l.h()); c.add(m.xo); c.add(m.dx); for(int i=0;i<np;++i){ c.add(x.mem[i]); c.add(s.mem[i]); }
  c.note(fmt("%d cells from %.17g spacing %.17g %s, %d particles, first at %.17g size %.17g",m.n,m.xo,m.dx,m.l.s().c_str(),np,x.mem[0],s.mem[0]));
  m.X.snap(); f.snap(); x.snap(); s.snap(); v.snap();
  const SpatialOps::Particle::CellToParticle<CF> c2p(*m.X.f); const SpatialOps::Particle::ParticleToCell<CF> p2c(*m.X.f);
  c2p.apply_to_field(*x.f,*s.f,*f.f,*out.f); p2c.apply_to_field(*x.f,*s.f,*v.f,*d.f);
  double xm=std::max(std::fabs(m.lo()),std::fabs(m.hi())); std::vector<long double> want(m.n,0), tolc(m.n,0); long double tot=0,tota=0;
  for(int p=0;p<np;++p){
    long double L=(long double)x.mem[p]-(long double)s.mem[p]/2, R=L+s.mem[p], sum=0; double tol=1e-15*40*(xm+s.mem[p])/s.mem[p]; int cov=0;
    for(int i=0;i<m.n;++i){ long double a=std::max(L,(long double)m.X.mem[i]-m.dx/2), b=std::min(R,(long double)m.X.mem[i]+m.dx/2), w=b>a?(b-a)/s.mem[p]:0; if(w>0) ++cov;
      sum+=w*f.mem[i]; want[i]+=w*v.mem[p]; tolc[i]+=tol*5*vs; }
    count("particles"); count("covered-cells",cov); tot+=v.mem[p]; tota+=fabsl(v.mem[p]);
    if(fabsl(sum-out.mem[p])>tol*5*fs*(cov+1)) viol("mesh-to-particle:not-the-overlap-average", c.desc+fmt(" particle %d at %.17g size %.17g gave %.17g, should be %.17g",p,x.mem[p],s.mem[p],out.mem[p],(double)sum));
  }
  long double got=0,tt=0;
  for(int i=0;i<m.n;++i){ got+=d.mem[i]; tt+=tolc[i]; if(!(fabsl(want[i]-d.mem[i])<=tolc[i])) viol("particle-to-mesh:cell", c.desc+fmt(" cell %d got %.17g, should be %.17g",i,d.mem[i],(double)want[i])); }
  if(!(fabsl(got-tot)<=tt)) viol("particle-to-mesh:total-not-conserved", c.desc+fmt(" total %.17g, should be %.17g",(double)got,(double)tot));
  if(!m.X.unchanged()||!f.unchanged()||!x.unchanged()||!s.unchanged()||!v.unchanged()) viol("operands-modified",c.desc);
  // a particle off the mesh is refused, on either side, by either operator
  if(r.chance(0.6)){
    int q=r.range(0,np-1); double far = r.chance(0.5)? r.real(0.001,0.999) : r.real(1,50), S=s.mem[q]; const char* how;
    switch(r.range(0,3)){
      case 0: x.mem[q]=m.lo()-far*m.dx+S/2; how="(-) edge off the mesh"; break;
      case 1: x.mem[q]=m.hi()+far*m.dx-S/2; how="(+) edge off the mesh"; break;
      case 2: x.mem[q]=m.lo()-S/2-far*m.dx; how="left of the mesh"; break;
      default: x.mem[q]=m.hi()+S/2+far*m.dx; how="right of the mesh";
    }
    c.desc+=fmt("; then particle %d at %.17g: %s by %g",q,x.mem[q],how,far); count("refusals"); c.note(std::string(c.desc));
    x.snap(); bool t1=false,t2=false;
    try{ c2p.apply_to_field(*x.f,*s.f,*f.f,*out.f); }catch(const std::runtime_error&){ t1=true; }
    try{ p2c.apply_to_field(*x.f,*s.f,*v.f,*d.f); }catch(const std::runtime_error&){ t2=true; }
    if(!t1) viol("mesh-to-particle:outside-accepted",c.desc); if(!t2) viol("particle-to-mesh:outside-accepted",c.desc);
    if(!m.X.unchanged()||!f.unchanged()||!x.unchanged()||!s.unchanged()||!v.unchanged()) viol("operands-modified",c.desc+" by a refused transfer");
    inside(r,m,x.mem[q],s.mem[q]); c2p.apply_to_field(*x.f,*s.f,*f.f,*out.f); // still usable
  }
  if(r.chance(0.2) && m.n>2){ int q=r.range(1,m.n-1); m.X.mem[q]+=m.dx*r.real(0.001,0.4); count("non-uniform"); int t=0;
    try{ SpatialOps::Particle::CellToParticle<CF> z(*m.X.f); }catch(const std::runtime_error&){ ++t; }
    try{ SpatialOps::Particle::ParticleToCell<CF> z(*m.X.f); }catch(const std::runtime_error&){ ++t; }
    if(t!=2) viol("non-uniform-accepted",c.desc); }
}
int main(int argc,char** argv){ init(argc,argv); group("svol",4000,one<SVolField>); group("xvol",2000,one<XVolField>); group("ssurfx",2000,one<SSurfXField>); return finish(); }
