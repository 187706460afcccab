// U02: Lagrange coefficients, interpolants and derivatives against long-double references.
#include "common.h"
#include <memory>
#include <spatialops/structured/onedim/LagrangePoly.h>
using namespace vf;
typedef long double LD;
static const double EPS=std::numeric_limits<double>::epsilon();

static std::vector<double> points(Rng& r,int n,double& lo,double& hi){
  double scale=std::pow(10.0, n<=8&&r.chance(.25)? (r.chance(.6)? r.range(-18,-9) : r.range(8,15)) : r.range(-5,5)), x=r.real(-10,10)*scale*(r.chance(0.3)?0:1); int style=r.range(0,3);
  std::vector<double> v;
  for(int i=0;i<n;++i){ v.push_back(x); double h = style==0? 1 : style==1? r.real(0.5,2) : style==2 ? std::pow(10.0,r.real(-2,1)) : (double)r.range(1,3); x+=h*scale; }
  lo=v.front(); hi=v.back(); return v;
}
static double location(Rng& r,const std::vector<double>& x,std::string& kind){
  double lo=x.front(),hi=x.back(),w=hi-lo; int n=x.size();
  switch(r.range(0,8)){
    case 0: kind="node"; return x[r.range(0,n-1)];
    case 1: kind="first-node"; return x.front();
    case 2: kind="last-node"; return x.back();
    case 3: kind="below"; return lo-w*r.real(0.001,1);
    case 4: kind="above"; return hi+w*r.real(0.001,1);
    case 5: { kind="beside-node"; int i=r.range(0,n-1); double up=r.chance(0.5)?1:-1; return x[i]==0? up*1e-20*w : std::nextafter(x[i], up*1e300); }
    case 6: { int i=r.range(0,n-2); kind="middle"; return 0.5*(x[i]+x[i+1]); }
    default: kind="inside"; return r.real(lo,hi);
  }
}
// the stencil must be consecutive, in range, bracket x when x is in range and be balanced about it
static void check_indices(Case& c,const char* what,const std::vector<double>& X,double x,int order,const std::vector<int>& ix){
  int n=X.size();
  if((int)ix.size()!=order+1){ viol(std::string(what)+":stencil-size", c.desc+fmt(" gave %d points for order %d",(int)ix.size(),order)); return; }
  for(size_t i=0;i<ix.size();++i) if(ix[i]!=ix[0]+(int)i || ix[i]<0 || ix[i]>=n){ viol(std::string(what)+":stencil-range", c.desc+fmt(" index %d is %d of %d points",(int)i,ix[i],n)); return; }
  int first=ix.front(), last=ix.back();
  if(x<=X.front()){ if(first!=0) viol(std::string(what)+":stencil-not-nearest", c.desc+fmt(" starts at %d below the range",first)); return; }
  if(x>X.back()||x==X.back()){ if(last!=n-1) viol(std::string(what)+":stencil-not-nearest", c.desc+fmt(" ends at %d of %d above the range",last,n)); return; }
  if(!(X[first]<=x && x<=X[last])){ viol(std::string(what)+":stencil-does-not-bracket", c.desc+fmt(" points %d..%d",first,last)); return; }
  count("bracketed");
  bool node=false; for(double q: X) if(q==x) node=true;
  int below=0,above=0; for(int i: ix){ if(X[i]<x) ++below; else if(X[i]>x) ++above; }
  // a node may count on either side
  int on = node?1:0; bool bal=false; for(int s=0;s<=on;++s){ int b=below+(on?s:0), a=above+(on?1-s:0); if(std::abs(a-b)<=1) bal=true; }
  if(!bal && first!=0 && last!=n-1){ viol(std::string(what)+":stencil-unbalanced", c.desc+fmt(" points %d..%d, %d below and %d above",first,last,below,above)); return; }
  if(!node && (order+1)%2 && first!=0 && last!=n-1){ // the odd point goes to the nearer side
    int lo=0; while(lo+1<n && X[lo+1]<x) ++lo; double dl=x-X[lo], dh=X[lo+1]-x;
    if(std::fabs(dl-dh)>1e-6*(dl+dh)){ count("odd-side"); bool nearlo=dl<dh; if(nearlo!=(below>above)) viol(std::string(what)+":odd-point-on-the-far-side", c.desc+fmt(" points %d..%d, %d below and %d above",first,last,below,above)); }
  }
}
static void one(Case& c){
  Rng& r=c.r; int n=r.range(2,r.chance(0.2)? (r.chance(0.1)? 400 : 30) :8); double lo,hi; std::vector<double> X=points(r,n,lo,hi);
  LagrangeCoefficients lc1(X), lc2(X.data(),X.data()+n); const LagrangeCoefficients& lc = r.chance(0.5)?lc1:lc2;
  if(lc.get_x()!=X) viol("points-not-kept", c.desc);
  int deg=r.range(0,8); std::vector<double> a; for(int i=0;i<=deg;++i) a.push_back(r.real(-3,3));
  LD L=hi-lo, x0=lo;
  auto P=[&](LD x){ LD t=(x-x0)/L*2-1, s=0; for(int i=deg;i>=0;--i) s=s*t+a[i]; return s; };
  auto dP=[&](LD x){ LD t=(x-x0)/L*2-1, s=0; for(int i=deg;i>=1;--i) s=s*t+i*(LD)a[i]; return s*2/L; };
  std::vector<double> Y; for(double q: X) Y.push_back((double)P(q));
  int dord=r.range(1,std::min(n-1,29)); bool use_default=r.chance(0.3)&&n>2; if(use_default) dord=2;
  std::unique_ptr<LagrangeInterpolant> in(use_default? new LagrangeInterpolant(X,Y) : new LagrangeInterpolant(X,Y,dord));
  std::unique_ptr<LagrangeDerivative> de(use_default? new LagrangeDerivative(X,Y) : new LagrangeDerivative(X,Y,dord));
  int q=r.range(3,8); std::string base=fmt("%d points from %.17g to %.17g",n,lo,hi); c.add((uint64_t)n); c.add(lo); c.add(hi);
  std::vector<double> cf; std::vector<int> ix; // reused on purpose: old contents must not matter
  while(q--){
    std::string kind; double x=location(r,X,kind); int order = r.chance(0.3)? dord : r.range(1,std::min(n-1,9));
    c.add(x); c.add((uint64_t)order); c.note(base+fmt(" order %d at %s %.17g (deg %d)",order,kind.c_str(),x,deg)); count("locations"); count("at:"+kind);
    // interpolation
    lc.get_interp_coefs_indices(x,order,cf,ix); check_indices(c,"interp",X,x,order,ix);
    if(cf.size()!=ix.size()) { viol("interp:sizes-differ",c.desc); continue; }
    bool bad=false; for(int i: ix) if(i<0||i>=n) bad=true; if(bad) continue;
    LD s=0,sa=0, val=0, va=0;
    for(size_t k=0;k<ix.size();++k){ LD w=1; for(int i: ix) if(i!=ix[k]) w*=((LD)x-X[i])/((LD)X[ix[k]]-X[i]);
      if(fabsl(w-cf[k])>(8*order+8)*EPS*fabsl(w)) viol("interp:coefficient", c.desc+fmt(" weight of point %d is %.17g, should be %.17g",ix[k],cf[k],(double)w));
      s+=cf[k]; sa+=fabsl(w); val+=(LD)cf[k]*Y[ix[k]]; va+=fabsl(w*Y[ix[k]]); }
    if(fabsl(s-1)>100*order*EPS*sa) viol("interp:weights-do-not-sum-to-one", c.desc+fmt(" sum %.17g",(double)s));
    double v = order==dord && r.chance(0.5) ? in->value(x) : in->value(x,order); count("values");
    if(fabsl(v-val)>20*(order+2)*EPS*(va+1e-300)) viol("interp:value-differs-from-coefficients", c.desc+fmt(" %.17g against %.17g",v,(double)val));
    if(deg<=order){ count("polynomials"); if(fabsl(v-P(x))>200*(order+2)*EPS*(va+sa)) viol("interp:polynomial-not-reproduced", c.desc+fmt(" %.17g against %.17g",v,(double)P(x))); }
    for(size_t k=0;k<ix.size();++k) if(x==X[ix[k]]){ count("at-node"); if(v!=Y[ix[k]] && std::fabs(v-Y[ix[k]])>4*EPS*std::fabs(Y[ix[k]])) viol("interp:node-value", c.desc+fmt(" %.17g against the data %.17g",v,Y[ix[k]])); }
    std::vector<double> cf2; std::vector<int> ix2; in->get_coefs_indices(x,order,cf2,ix2); if(cf2!=cf||ix2!=ix) viol("interp:forms-differ",c.desc);
    // derivative
    lc.get_derivative_coefs_indices(x,order,cf,ix); check_indices(c,"deriv",X,x,order,ix);
    if(cf.size()!=ix.size()) { viol("deriv:sizes-differ",c.desc); continue; }
    bad=false; for(int i: ix) if(i<0||i>=n) bad=true; if(bad) continue;
    s=sa=val=va=0;
    for(size_t k=0;k<ix.size();++k){
      LD den=1; for(int i: ix) if(i!=ix[k]) den*=(LD)X[ix[k]]-X[i];
      LD num=0,na=0; for(int j: ix) if(j!=ix[k]){ LD t=1; for(int i: ix) if(i!=ix[k]&&i!=j) t*=(LD)x-X[i]; num+=t; na+=fabsl(t); }
      LD w=num/den, wa=na/fabsl(den);
      if(fabsl(w-cf[k])>(8*order+8)*EPS*wa) viol("deriv:coefficient", c.desc+fmt(" weight of point %d is %.17g, should be %.17g",ix[k],cf[k],(double)w));
      s+=cf[k]; sa+=wa; val+=(LD)cf[k]*Y[ix[k]]; va+=wa*fabsl(Y[ix[k]]); }
    if(fabsl(s)>100*order*EPS*sa) viol("deriv:weights-do-not-sum-to-zero", c.desc+fmt(" sum %.17g",(double)s));
    v = order==dord && r.chance(0.5) ? de->value(x) : de->value(x,order);
    if(fabsl(v-val)>20*(order+2)*EPS*(va+1e-300)) viol("deriv:value-differs-from-coefficients", c.desc+fmt(" %.17g against %.17g",v,(double)val));
    if(deg<=order){ if(fabsl(v-dP(x))>200*(order+2)*EPS*(va+sa)) viol("deriv:polynomial-not-reproduced", c.desc+fmt(" %.17g against %.17g",v,(double)dP(x))); }
    de->get_coefs_indices(x,order,cf2,ix2); if(cf2!=cf||ix2!=ix) viol("deriv:forms-differ",c.desc);
  }
}
int main(int argc,char** argv){ init(argc,argv); group("lagrange",20000,one); return finish(); }
