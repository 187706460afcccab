// W05: copies, views and wrapped storage have the documented sharing
#include "fields.h"
#include <spatialops/structured/MemoryPool.h>
#include <list>
template<class F> struct World {
  typedef typename F::value_type T;
  struct Block { std::vector<T> model; T* mem; T* ext; bool owned; bool live; IV glob; int id; };
  struct H { F* f; int blk; IV off,ext; bool owner; };
  std::vector<Block> blocks; std::vector<H> hs; vf::Case& c; std::string log; long long cells=0;
  size_t base_active;
  World(vf::Case& cc):c(cc){ base_active=Pool<T>::self().active(); }
  void fail(const char* k,const std::string& d=""){ vf::viol(k,c.desc+" |"+(log.size()>900?log.substr(log.size()-900):log)+" | "+d); }
  int owners(){ int n=0; for(auto&b:blocks) n+=b.owned&&b.live; return n; }
  size_t fl(const H& h,int i,int j,int k){ const IV& g=blocks[h.blk].glob; return (i+h.off[0])+(size_t)g[0]*((j+h.off[1])+(size_t)g[1]*(k+h.off[2])); }
  bool check(){
    if(Pool<T>::self().active()!=base_active+owners()){ fail("own:pool-active",vf::fmt("active %zu expected %zu",(size_t)Pool<T>::self().active(),base_active+owners())); return false; }
    for(size_t a=0;a<blocks.size();++a) for(size_t b=a+1;b<blocks.size();++b) if(blocks[a].live&&blocks[b].live){
      T* x=blocks[a].mem; T* y=blocks[b].mem; size_t nx=blocks[a].model.size(), ny=blocks[b].model.size(); if(x<y+ny && y<x+nx){ fail("own:overlap"); return false; } }
    for(auto& h: hs) if(blocks[h.blk].live){
      const F& f=*h.f; Block& B=blocks[h.blk]; typename F::const_iterator it=f.begin(); 
      if(!(f.window_with_ghost()==MemoryWindow(B.glob,h.off,h.ext))){ fail("view:window"); return false; }
      if(f.field_values()!=B.mem){ fail("view:memory"); return false; }
      for(int k=0;k<h.ext[2];++k)for(int j=0;j<h.ext[1];++j)for(int i=0;i<h.ext[0];++i,++it){ ++cells;
        if(!vf::same_bits(*it,B.model[fl(h,i,j,k)])){ fail("content",vf::fmt("handle %d block %d cell (%d,%d,%d) reads %.9g expected %.9g",(int)(&h-&hs[0]),h.blk,i,j,k,(double)*it,(double)B.model[fl(h,i,j,k)])); return false; } }
    }
    for(auto& b: blocks) if(b.live&&!b.owned) for(size_t i=0;i<b.model.size();++i) if(!vf::same_bits(b.model[i],b.ext[i])){ fail("ext:content"); return false; }
    return true;
  }
};
template<class F> static void one(vf::Case& c,const char* nm,bool large=false){
  typedef typename F::value_type T; typedef World<F> Wd; typedef typename Wd::H H; typedef typename Wd::Block Block;
  vf::Rng& r=c.r; c.note(nm); Wd w(c); std::vector<T*> todelete;
  // few shapes, so that pool blocks are reused and fields are mutually assignable
  vf::DomOpt o; o.maxn=4; o.maxg=2; if(large) o.big=1; else o.big=0; std::vector<vf::Lay> lays; int ns= large? 1 : r.range(1,3); for(int i=0;i<ns;++i){ lays.push_back(vf::make_lay<F>(r,vf::rand_dom(r,o),r.chance(0.3))); c.add(lays.back().h()); }
  int steps= large? 14 : vf::thorough()?60:30; T val=1; bool ok=true;
  auto mkf=[&](const vf::Lay& l,T* p,StorageMode m){ return new F(MemoryWindow(l.glob,l.off,l.ext()),BoundaryCellInfo::build<F>(l.bc[0],l.bc[1],l.bc[2]),GhostData(l.gm,l.gp),p,m); };
  for(int s=0;s<steps&&ok;++s){
    int op=r.range(0,10); std::vector<int> liv; for(size_t i=0;i<w.hs.size();++i) if(w.blocks[w.hs[i].blk].live) liv.push_back(i);
    if(liv.empty()&&op>2) op=r.range(0,2);
    if(w.hs.size()>(large?5u:14u) && op<5) op= large&&r.chance(0.7)? 5 : 8;
    c.add((uint64_t)op);
    switch(op){
      case 0: case 1: { const vf::Lay& l=r.pick(lays); IV e=l.ext(); size_t n=vf::npts(l.glob), nw=vf::npts(e); bool vals=op==1; T* src=0;
        if(vals){ src=new T[nw]; for(size_t i=0;i<nw;++i) src[i]=val++; }
        F* f=mkf(l,src,InternalStorage); w.log+=vals?" new(values)":" new(NULL)";
        Block B; B.owned=true;B.live=true;B.glob=l.glob;B.ext=0;B.mem=f->field_values(); B.model.resize(n); B.id=w.blocks.size();
        if(vals&&B.mem==src) { w.fail("own:aliases-argument"); ok=false; }
        H h; h.f=f;h.blk=w.blocks.size();h.off=l.off;h.ext=e;h.owner=true; w.blocks.push_back(B);
        Block& bb=w.blocks.back(); for(size_t i=0;i<n;++i) bb.model[i]=bb.mem[i]; // outside the window: whatever it is
        size_t q=0; for(int k=0;k<e[2];++k)for(int j=0;j<e[1];++j)for(int i=0;i<e[0];++i,++q) bb.model[w.fl(h,i,j,k)]= vals? src[q] : T(0);
        w.hs.push_back(h); if(vals){ for(size_t i=0;i<nw;++i) src[i]=(T)-1; delete[] src; } break; }
      case 2: { const vf::Lay& l=r.pick(lays); size_t n=vf::npts(l.glob); T* p=new T[n]; todelete.push_back(p); for(size_t i=0;i<n;++i) p[i]=val++;
        F* f=mkf(l,p,ExternalStorage); w.log+=" wrap"; Block B; B.owned=false;B.live=true;B.glob=l.glob;B.ext=p;B.mem=p;B.model.assign(p,p+n);
        H h; h.f=f;h.blk=w.blocks.size();h.off=l.off;h.ext=l.ext();h.owner=true; w.blocks.push_back(B); w.hs.push_back(h); break; }
      case 3: { H h=w.hs[r.pick(liv)]; F* f=new F(*h.f); w.log+=vf::fmt(" copy(b%d)",h.blk); h.f=f; h.owner=false; w.hs.push_back(h); break; }
      case 4: { H h=w.hs[r.pick(liv)]; IV so,se; const IV& g=w.blocks[h.blk].glob; for(int i=0;i<3;++i){ se[i]=r.range(1,g[i]); so[i]=r.range(0,g[i]-se[i]); }
        F* f=new F(MemoryWindow(g,so,se),*h.f); w.log+=vf::fmt(" view(b%d)",h.blk); h.f=f;h.off=so;h.ext=se;h.owner=false; w.hs.push_back(h); break; }
      case 5: { // assignment between fields of equal window
        H& a=w.hs[r.pick(liv)]; std::vector<int> cand; for(int i: liv){ H& b=w.hs[i]; if(a.off==b.off&&a.ext==b.ext&&w.blocks[a.blk].glob==w.blocks[b.blk].glob) cand.push_back(i); }
        H& b=w.hs[r.pick(cand)]; F& ret=(*a.f = *b.f); if(&ret!=a.f) { w.fail("assign:return"); ok=false; } w.log+=vf::fmt(" b%d=b%d",a.blk,b.blk); vf::count("assigns");
        if(a.f->field_values()!=w.blocks[a.blk].mem){ w.fail("assign:aliased"); ok=false; break; }
        if(a.blk!=b.blk){ Block&A=w.blocks[a.blk]; Block&B=w.blocks[b.blk]; std::vector<char> in(A.model.size(),0);
          for(int k=0;k<a.ext[2];++k)for(int j=0;j<a.ext[1];++j)for(int i=0;i<a.ext[0];++i){ size_t x=w.fl(a,i,j,k); in[x]=1; A.model[x]=B.model[x]; }
          // a block-wide copy of the surroundings is permitted, any other change is not
          for(size_t x=0;x<in.size();++x) if(!in[x] && vf::same_bits(A.mem[x],B.model[x])) A.model[x]=B.model[x]; }
        break; }
      case 6: { H& h=w.hs[r.pick(liv)]; int i=r.range(0,h.ext[0]-1),j=r.range(0,h.ext[1]-1),k=r.range(0,h.ext[2]-1); T v=val++; int how=r.range(0,2); size_t x=w.fl(h,i,j,k);
        w.log+=vf::fmt(" write%d(b%d)",how,h.blk);
        if(how==0){ typename F::iterator it=h.f->begin()+(i+h.ext[0]*(j+h.ext[1]*k)); *it=v; }
        else if(how==1 && h.off==IV(0,0,0)) (*h.f)(i,j,k)=v; else (*h.f)[x]=v;
        w.blocks[h.blk].model[x]=v;
        const F& cf=*h.f; if(!vf::same_bits(cf[x],v)||(h.off==IV(0,0,0)&&(!vf::same_bits(cf(i,j,k),v)||!vf::same_bits(cf(IV(i,j,k)),v)||&(*h.f)(IV(i,j,k))!=&(*h.f)[x]))) { w.fail("write:readback"); ok=false; } break; }
      case 7: { H& h=w.hs[r.pick(liv)]; Block&B=w.blocks[h.blk]; if(!B.owned){ size_t x=r.next()%B.model.size(); T v=val++; B.ext[x]=v; B.model[x]=v; w.log+=vf::fmt(" caller-write(b%d)",h.blk);} break; }
      default: { if(w.hs.empty()) break; int i=r.range(0,(int)w.hs.size()-1); H h=w.hs[i]; w.log+=vf::fmt(" del%s(b%d)",h.owner?"-owner":"",h.blk);
        w.hs.erase(w.hs.begin()+i); delete h.f; if(h.owner&&w.blocks[h.blk].owned) w.blocks[h.blk].live=false; vf::count("destroyed"); break; }
    }
    vf::count("steps"); if(ok) ok=w.check();
  }
  // destroy in random order, views of dead owners included
  while(!w.hs.empty()){ int i=r.range(0,(int)w.hs.size()-1); H h=w.hs[i]; w.hs.erase(w.hs.begin()+i); delete h.f; if(h.owner&&w.blocks[h.blk].owned) w.blocks[h.blk].live=false; w.log+=vf::fmt(" del(b%d)",h.blk); if(ok) ok=w.check(); }
  if(ok && Pool<T>::self().active()!=w.base_active) w.fail("own:leak");
  for(T* p: todelete) delete[] p;   // would be a double free had the library released it
  c.note(std::string(nm)+w.log.substr(0,160)); vf::count("cells",w.cells);
}
int main(int argc,char**argv){
  vf::init(argc,argv);
  vf::group("svol-double",900,[](vf::Case& c){ one<SVolField>(c,"SVol"); });
  vf::group("ysurfz-float",500,[](vf::Case& c){ one<SpatialField<YSurfZ,float> >(c,"YSurfZ/float"); });
  vf::group("large",4,[](vf::Case& c){ one<SVolField>(c,"large SVol",true); });
  return vf::finish();
}
