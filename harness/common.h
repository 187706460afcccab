// Shared run-time monitor support: seeded case generation, violation reporting,
// coverage accounting.  One process = one harness run; the driver (check.py)
// starts it, watches it, and merges what it reports.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <limits>
#include <sstream>
#include <mutex>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vf {

inline uint64_t mix(uint64_t x){
  x += 0x9E3779B97F4A7C15ull; x = (x ^ (x>>30))*0xBF58476D1CE4E5B9ull;
  x = (x ^ (x>>27))*0x94D049BB133111EBull; return x ^ (x>>31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b){ return mix(a*0x100000001B3ull ^ b); }
inline uint64_t hstr(const char* s){ uint64_t h=1469598103934665603ull; for(;*s;++s){h^=(unsigned char)*s; h*=1099511628211ull;} return h; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(mix(seed)){}
  uint64_t next(){ s += 0x9E3779B97F4A7C15ull; return mix(s); }
  int range(int lo,int hi){ return lo + (int)(next() % (uint64_t)(hi-lo+1)); } // inclusive
  bool chance(double p){ return unit() < p; }
  double unit(){ return (double)(next()>>11) * (1.0/9007199254740992.0); }
  double real(double lo,double hi){ return lo+(hi-lo)*unit(); }
  // data: mostly generic, now and then a value code might single out
  double datum(double lo,double hi){ if(next()%24) return real(lo,hi); static const double sp[]={0.0,-0.0,0.0,1.0,-1.0,2.0,0.5}; double v=sp[next()%7]; return v<lo||v>hi? real(lo,hi) : v; }
  template<class T> const T& pick(const std::vector<T>& v){ return v[next()%v.size()]; }
};

struct State {
  uint64_t seed = 1; double scale = 1; int shard = 0, nshards = 1;
  std::string out, only_group; long long only_case = -1; std::string tier = "quick";
  bool list = false; std::string extra;
  std::map<std::string,long long> counters;
  std::unordered_set<uint64_t> sigs; long long evals = 0;
  std::vector<std::string> samples; std::map<std::string,int> viols; long long nviol = 0;
  std::string group; long long idx = 0;
  char* mark = nullptr;      // shared page naming the case in progress
  std::mutex mx;
};
inline State& st(){ static State s; return s; }

inline std::string fmt(const char* f, ...){
  char b[4096]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b;
}
inline std::string esc(const std::string& s){
  std::string r; for(unsigned char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ r+=fmt("\\u%04x",c);} else r+=c; } return r;
}
// report a violation: `key` identifies what failed (stable), `detail` the witness
inline void viol(const std::string& key, const std::string& detail){
  State& s=st(); std::lock_guard<std::mutex> g(s.mx);
  ++s.nviol; int& n=s.viols[key]; ++n;
  if(n<=2){
    printf("VIOL\t%s\t%s\t%lld\t%s\n", key.c_str(), s.group.c_str(), s.idx, esc(detail).c_str()); fflush(stdout);
  }
}
inline void count(const std::string& k, long long n=1){ State& s=st(); std::lock_guard<std::mutex> g(s.mx); s.counters[k]+=n; }
inline void sample(const std::string& x){ State& s=st(); std::lock_guard<std::mutex> g(s.mx); if(s.samples.size()<12) s.samples.push_back(x); }

struct Case {
  Rng r; uint64_t sig; bool nontrivial; std::string desc;
  explicit Case(uint64_t seed):r(seed),sig(0),nontrivial(true){}
  void add(uint64_t x){ sig=hcomb(sig,x); }
  void add(double x){ uint64_t u; memcpy(&u,&x,8); sig=hcomb(sig,u);}
  void note(const std::string& d){ desc=d; if(st().mark){ snprintf(st().mark,4000,"%s\t%lld\t%s",st().group.c_str(),st().idx,d.c_str()); } }
};

inline void init(int argc,char** argv){
  State& s=st();
  for(int i=1;i<argc;++i){
    std::string a=argv[i]; auto v=[&](){ return std::string(argv[++i]); };
    if(a=="--seed") s.seed=strtoull(v().c_str(),0,10);
    else if(a=="--scale") s.scale=atof(v().c_str());
    else if(a=="--shard") s.shard=atoi(v().c_str());
    else if(a=="--nshards") s.nshards=atoi(v().c_str());
    else if(a=="--out"){ s.out=v(); if(s.out[0]!='/'){ char b[4096]; if(getcwd(b,sizeof b)) s.out=std::string(b)+"/"+s.out; } }
    else if(a=="--group") s.only_group=v();
    else if(a=="--case") s.only_case=atoll(v().c_str());
    else if(a=="--tier") s.tier=v();
    else if(a=="--extra") s.extra=v();
    else { fprintf(stderr,"unknown argument %s\n",a.c_str()); exit(3); }
  }
  if(!s.out.empty()){
    std::string m=s.out+".mark"; int fd=open(m.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644);
    if(fd>=0){ if(ftruncate(fd,4096)==0){ void* p=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p!=MAP_FAILED) s.mark=(char*)p; } close(fd); }
  }
}

inline bool thorough(){ return st().tier=="thorough"; }

// run n cases of a group (n scaled by --scale unless fixed)
template<class Fn> inline void group(const char* name, long long n, Fn fn, bool fixed=false){
  State& s=st();
  if(!s.only_group.empty() && s.only_group!=name) return;
  if(!fixed) n = std::max<long long>(1,(long long)std::ceil(n*s.scale));
  long long done=0;
  for(long long i=0;i<n;++i){
    if(s.only_case>=0){ if(i!=s.only_case) continue; }
    else if(i % s.nshards != s.shard) continue;
    s.group=name; s.idx=i;
    Case c(hcomb(hcomb(s.seed,hstr(name)),(uint64_t)i));
    c.note("");
    try { fn(c); }
    catch(const std::exception& e){ viol(std::string(name)+":unexpected-exception", c.desc+" threw "+e.what()); }
    catch(...){ viol(std::string(name)+":unexpected-exception", c.desc+" threw unknown"); }
    ++done; ++s.evals;
    if(c.nontrivial) s.sigs.insert(hcomb(hstr(name), c.sig? c.sig : (uint64_t)i));
    if(done<=1 || (done<=200 && done%67==0)) sample(std::string(name)+"#"+std::to_string(i)+" "+c.desc);
    if(s.nviol>200) break;
  }
  s.counters["group:"+std::string(name)]+=done;
}

inline int finish(){
  State& s=st();
  if(!s.out.empty()){
    std::string t=s.out+".tmp"; FILE* f=fopen(t.c_str(),"w"); if(!f) return 3;
    fprintf(f,"{\"evaluations\":%lld,\"sigs\":[",s.evals);
    bool first=true; for(uint64_t x: s.sigs){ fprintf(f,"%s%llu",first?"":",",(unsigned long long)(x>>8)); first=false; }
    fprintf(f,"],\"counters\":{"); first=true;
    for(auto& k: s.counters){ fprintf(f,"%s\"%s\":%lld",first?"":",",esc(k.first).c_str(),k.second); first=false; }
    fprintf(f,"},\"samples\":["); first=true;
    for(auto& k: s.samples){ fprintf(f,"%s\"%s\"",first?"":",",esc(k).c_str()); first=false; }
    fprintf(f,"],\"viols\":{"); first=true;
    for(auto& k: s.viols){ fprintf(f,"%s\"%s\":%d",first?"":",",esc(k.first).c_str(),k.second); first=false; }
    fprintf(f,"}}\n"); fclose(f); rename(t.c_str(),s.out.c_str());
  }
  fflush(stdout);
  return 0;
}

// value comparison -----------------------------------------------------------
template<class T> inline bool same_bits(T a,T b){ return memcmp(&a,&b,sizeof(T))==0; }
template<class T> inline bool is_nan(T a){ return a!=a; }
// equal up to rounding; NaN == NaN, exact for infinities; scale = magnitude of the terms
inline bool close(double a,double b,double rtol,double scale=0){
  if(is_nan(a)||is_nan(b)) return is_nan(a)&&is_nan(b);
  if(a==b) return true;
  if(std::isinf(a)||std::isinf(b)) return false;
  double m=std::max(std::max(std::fabs(a),std::fabs(b)),scale);
  return std::fabs(a-b) <= rtol*m;
}
} // vf
#endif
