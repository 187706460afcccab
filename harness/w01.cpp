// W01: iterators traverse exactly the window, in order, by any route
#include "fields.h"
typedef SpatialField<SVol,double> FD; typedef SpatialField<XSurfY,float> FF;
// model: position p in [0,N]; cell address of position
template<class F,class It,class Fld> static void walk(vf::Case& c,const char* what,Fld& f,const MemoryWindow& w,It b,It e,typename F::value_type* base){
  const IntVec g=w.glob_dim(),o=w.offset(),x=w.extent(); const int N=x[0]*x[1]*x[2];
  auto addr=[&](int p){ int i=p%x[0],j=(p/x[0])%x[1],k=p/(x[0]*x[1]); return base+(i+o[0])+(size_t)g[0]*((j+o[1])+(size_t)g[1]*(k+o[2])); };
  auto loc=[&](int p){ return IntVec(p%x[0],(p/x[0])%x[1],p/(x[0]*x[1])); };
  std::string W=what;
  if(e-b!=N){ vf::viol(W+":distance",c.desc+vf::fmt(" end-begin %ld expected %d",(long)(e-b),N)); return; }
  int p=0; for(It it=b; it!=e; ++it,++p){ if(p>=N){ vf::viol(W+":overrun",c.desc); return; }
    if(&*it!=addr(p)){ vf::viol(W+":order",c.desc+vf::fmt(" position %d",p)); return; }
    if(!(it.location()==loc(p))){ vf::viol(W+":location",c.desc+vf::fmt(" position %d",p)); return; } }
  if(p!=N){ vf::viol(W+":count",c.desc+vf::fmt(" visited %d of %d",p,N)); return; }
  { It it=e; for(p=N;p>0;){ if(p&1) --it; else it--; --p; if(&*it!=addr(p)){ vf::viol(W+":reverse",c.desc+vf::fmt(" position %d",p)); return; } } if(!(it==b)){ vf::viol(W+":reverse-begin",c.desc); return; } }
  vf::count("cells",2*N);
  // random routes; a second iterator rides along for comparisons
  It it=b, q=b; p=0; int pq=0; std::string route;
  int steps=vf::thorough()?120:60;
  for(int s=0;s<steps;++s){
    int t=c.r.range(0,N); // target position
    int d=t-p; int op=c.r.range(0,9);
    if(c.r.chance(0.4)){ d=c.r.range(-2,2); if(p+d<0||p+d>N) d=0; t=p+d; }
    switch(op){
      case 0: if(p<N){ It old=it++; if(!(old==b+p)) {vf::viol(W+":postinc",c.desc+route);return;} t=p+1; d=1;} else {t=p;d=0;} break;
      case 1: if(p>0){ It old=it--; if(!(old-b==p)) {vf::viol(W+":postdec",c.desc+route);return;} t=p-1;} else {t=p;d=0;} break;
      case 2: if(p<N){ ++it; t=p+1;} else t=p; break;
      case 3: if(p>0){ --it; t=p-1;} else t=p; break;
      case 4: it+=d; break;
      case 5: it-=-d; break;
      case 6: it=it+d; break;
      case 7: it=it-(-d); break;
      case 8: { It n=b+t; it=n; } break;
      case 9: { It n=e-(N-t); it=n; } break;
    }
    p=t; route+=vf::fmt(" op%d->%d",op,p); if(route.size()>600) route=route.substr(300);
    vf::count("moves");
    if(it-b!=p || e-it!=N-p){ vf::viol(W+":position",c.desc+route); return; }
    if(p<N){
      if(&*it!=addr(p)){ vf::viol(W+":deref",c.desc+route+vf::fmt(" off by %ld",(long)(&*it-addr(p)))); return; }
      if(!(it.location()==loc(p))){ vf::viol(W+":location",c.desc+route); return; }
      const It ci=it; if(&*ci!=addr(p)){ vf::viol(W+":const-deref",c.desc+route); return; }
    } else if(!(it==e)||it!=e){ vf::viol(W+":end",c.desc+route); return; }
    int k=c.r.range(0,N-1); if(N>0){ It tmp=it; if(&tmp[k-p]!=addr(k)){ vf::viol(W+":subscript",c.desc+route+vf::fmt(" [%d]",k-p)); return; } if(!(tmp==it)){ vf::viol(W+":subscript-moves",c.desc+route); return; } }
    if(c.r.chance(0.3)){ q=it; pq=p; }
    if(it-q!=p-pq || (it==q)!=(p==pq) || (it!=q)!=(p!=pq) || (it<q)!=(p<pq) || (it>q)!=(p>pq) || (it<=q)!=(p<=pq) || (it>=q)!=(p>=pq)){ vf::viol(W+":compare",c.desc+route+vf::fmt(" other at %d",pq)); return; }
  }
  // dereferencing the end is rejected in checked builds
#ifndef NDEBUG
  bool thrown=false; try { It z=e; volatile double v=*z; (void)v; } catch(const std::exception&){ thrown=true; }
  if(!thrown) vf::viol(W+":end-deref-accepted",c.desc);
#endif
}
template<class F> static void one(vf::Case& c,const char* nm){
  typedef typename F::value_type T;
  vf::DomOpt o; o.maxn=5; o.maxg=2; o.ghost_in_collapsed=false;
  vf::Dom d=vf::rand_dom(c.r,o); vf::Lay l=vf::make_lay<F>(c.r,d,c.r.chance(0.6));
  c.note(std::string(nm)+" "+l.s()); c.add(l.h());
  vf::Blk<F> b; b.make(l); int q=0; b.each([&](int i,int j,int k){ b.at(i,j,k)=(T)++q; });
  b.snap();
  F& f=*b.f; const F& cf=f; T* base=b.mem.get();
  walk<F>(c,"field",f,f.window_with_ghost(),f.begin(),f.end(),base);
  walk<F>(c,"const-field",cf,f.window_with_ghost(),cf.begin(),cf.end(),base);
  walk<F>(c,"interior",f,f.window_without_ghost(),f.interior_begin(),f.interior_end(),base);
  walk<F>(c,"const-interior",cf,f.window_without_ghost(),cf.interior_begin(),cf.interior_end(),base);
  // the documented windows themselves
  IntVec io,ie; for(int i=0;i<3;++i){ io[i]=l.off[i]+(l.n[i]>1?l.gm[i]:0); ie[i]=l.n[i]>1?l.n[i]+l.ex[i]:1; }
  if(!(f.window_without_ghost()==MemoryWindow(l.glob,io,ie))) vf::viol("window:interior",c.desc);
  if(!(f.window_with_ghost()==b.win())) vf::viol("window:whole",c.desc);
  // a sub-window view
  IntVec so,se; for(int i=0;i<3;++i){ se[i]=c.r.range(1,l.ext()[i]); so[i]=l.off[i]+c.r.range(0,l.ext()[i]-se[i]); }
  MemoryWindow sw(l.glob,so,se); F v(sw,f); const F& cv=v;
  c.add((uint64_t)(se[0]+10*se[1]+100*se[2])); 
  walk<F>(c,"view",v,sw,v.begin(),v.end(),base);
  walk<F>(c,"const-view",cv,sw,cv.begin(),cv.end(),base);
  // mutable to constant conversion keeps the position, and mixed distances agree
  int N=se[0]*se[1]*se[2]; int p=c.r.range(0,N);
  typename F::iterator mi=v.begin()+p; typename F::const_iterator ci(mi);
  if(ci-cv.begin()!=p || (p<N && &*ci!=&*mi) || (p==N && ci!=cv.end())) vf::viol("convert:position",c.desc+vf::fmt(" at %d",p));
  if(p<N){ typename F::const_iterator c2=ci; ++c2; typename F::iterator m2=mi; ++m2; if(!(c2==typename F::const_iterator(m2))||!(ci.location()==mi.location())) vf::viol("convert:advance",c.desc);
    if(p>0){ --c2; c2-=p; if(c2!=cv.begin()) vf::viol("convert:retreat",c.desc); } }
  if(!b.unchanged()) vf::viol("iter:memory-changed",c.desc);
  // iterators write the cell they denote
  if(p<N){ int i=p%se[0],j=(p/se[0])%se[1],k=p/(se[0]*se[1]); size_t fl=(i+so[0])+(size_t)l.glob[0]*((j+so[1])+(size_t)l.glob[1]*(k+so[2]));
    *mi=(T)-5; size_t diff=0; for(size_t z=0;z<b.before.size();++z) if(!vf::same_bits(b.before[z],base[z])) { ++diff; if(z!=fl) vf::viol("iter:write-elsewhere",c.desc); } if(diff!=1) vf::viol("iter:write-count",c.desc); }
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("double-svol",1500,[](vf::Case& c){ one<FD>(c,"SVol/double"); });
  vf::group("float-xsurfy",800,[](vf::Case& c){ one<FF>(c,"XSurfY/float"); });
  // default-constructed iterators compare equal
  vf::group("default",4,[](vf::Case& c){ FD::iterator a,b; if(!(a==b)||a-b!=0) vf::viol("default:eq",""); FD::const_iterator x,y; if(x!=y) vf::viol("default:eq",""); c.nontrivial=false; });
  return vf::finish();
}
