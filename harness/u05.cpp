// U05: the exported file is parsed and compared with the field's memory.
#include "fields.h"
#include <spatialops/WriteMatlab.h>
#include <fstream>
#include <dirent.h>
using namespace vf;
static std::set<std::string> listing(){ std::set<std::string> s; DIR* d=opendir("."); while(dirent* e=readdir(d)) s.insert(e->d_name); closedir(d); return s; }
template<class T> T value(Rng& r,int style){
  switch(style==0?9:r.range(0,9)){
    case 0: return 0; case 1: return -(T)0; case 2: return (T)r.range(-1000,1000); case 3: return std::numeric_limits<T>::max()*(T)r.real(-1,1);
    case 4: return std::numeric_limits<T>::min()*(T)r.real(-8,8); case 5: return (T)(r.chance(0.5)?INFINITY:-INFINITY); case 6: return (T)NAN;
    case 7: return (T)(1-1e-14*r.range(0,3)); default: return (T)r.real(-1e3,1e3); }
}
template<class F> void one(Case& c){
  typedef typename F::value_type T; Rng& r=c.r; DomOpt o; o.maxn=5; o.maxg=2; Dom d=rand_dom(r,o); Lay l=make_lay<F>(r,d,r.chance(0.5));
  Blk<F> A; A.make(l); int style=r.range(0,1); A.each([&](int i,int j,int k){ A.at(i,j,k)=value<T>(r,style); });
  IV sm(0,0,0),sp(0,0,0); if(r.chance(0.4)){ for(int i=0;i<3;++i) if(l.n[i]>1){ sm[i]=r.range(0,l.gm[i]); sp[i]=r.range(0,l.gp[i]); } A.f->reset_valid_ghosts(GhostData(l.gm-sm,l.gp-sp)); }
  bool ghosts=r.chance(0.5); std::string pre=fmt("vf_%d_%lld",(int)getpid(),st().idx%7), fn="load_"+pre+".m";
  c.add(l.h()); c.add((uint64_t)ghosts); c.add((uint64_t)style);
  c.note(fmt("%s %s minus%s plus%s %s",typeid(F).name(),l.s().c_str(),str(sm).c_str(),str(sp).c_str(),ghosts?"with ghosts":"interior"));
  std::vector<T> want;
  for(int k=l.lo(2)+sm[2];k<l.hi(2)-sp[2];++k)for(int j=l.lo(1)+sm[1];j<l.hi(1)-sp[1];++j)for(int i=l.lo(0)+sm[0];i<l.hi(0)-sp[0];++i){
    bool in=true; IV v(i,j,k); for(int q=0;q<3;++q) if(l.n[q]>1 && (v[q]<0||v[q]>=l.n[q]+l.ex[q])) in=false;
    if(ghosts||in) want.push_back(A.at(i,j,k)); }
  A.snap(); std::set<std::string> before=listing();
  if(r.chance(0.5)){ std::ofstream junk(fn.c_str()); for(int i=0;i<400;++i) junk<<"left over from an earlier file\n"; before.insert(fn); }
  const F& f=*A.f;
  if(ghosts) write_matlab(f,pre,true); else if(r.chance(0.5)) write_matlab(f,pre); else write_matlab(f,pre,false);
  if(!A.unchanged()) viol("field-modified",c.desc);
  std::set<std::string> after=listing(); before.insert(fn); if(after!=before) viol("other-files-touched",c.desc+fmt(" %zu files, expected %zu",after.size(),before.size()));
  std::ifstream in(fn.c_str()); std::stringstream ss; ss<<in.rdbuf(); in.close(); unlink(fn.c_str()); std::string s=ss.str();
  size_t p=s.find('\n'); std::string head=s.substr(0,p);
  if(head!="function x = load_"+pre+"()"){ viol("header",c.desc+" starts ["+head+"]"); return; }
  std::string body=s.substr(p+1); size_t a=body.find('['), z=body.rfind(']');
  if(a==std::string::npos||z==std::string::npos||z<a){ viol("no-list",c.desc); return; }
  auto strip=[](std::string q){ std::string t; for(char ch:q) if(!isspace((unsigned char)ch)) t+=ch; return t; };
  if(strip(body.substr(0,a))!="x=" || strip(body.substr(z+1))!=";"){ viol("list-syntax",c.desc+" ["+body.substr(0,a)+"] ["+body.substr(z+1)+"]"); return; }
  std::vector<std::string> items; { std::string t=body.substr(a+1,z-a-1), cur; for(char ch:t){ if(ch==','){ items.push_back(strip(cur)); cur.clear(); } else cur+=ch; } items.push_back(strip(cur)); }
  count("values",items.size());
  if(items.size()!=want.size()){ viol("number-of-values",c.desc+fmt(" %zu values, the region has %zu cells",items.size(),want.size())); return; }
  for(size_t i=0;i<items.size();++i){ char* e; double v=strtod(items[i].c_str(),&e); double w=want[i];
    if(*e||items[i].empty()){ viol("not-a-number",c.desc+" ["+items[i]+"]"); return; }
    if(w!=w ? v==v : std::isinf(w) ? v!=w : !(std::fabs(v-w)<=6e-15*std::fabs(w)+1e-323)){ viol("value",c.desc+fmt(" entry %zu reads back as %.17g, the cell holds %.17g",i,v,w)); return; } 
    if(w==0 && std::signbit(v)!=std::signbit(w)){ viol("value",c.desc+" lost the sign of zero"); return; } }
}
int main(int argc,char** argv){ init(argc,argv);
  char dir[]="vf_u05_XXXXXX"; if(!mkdtemp(dir)||chdir(dir)){ perror("scratch"); return 3; }
  group("svol",800,one<SVolField>); group("xsurfx",800,one<XSurfXField>); group("zvol",500,one<ZVolField>); group("float",500,one<SpatialField<YSurfY,float> >);
  if(chdir("..")) return 3; rmdir(dir);
  return finish(); }
