// O04: operator database histories against a map of identifiers to objects.
#include "common.h"
#include <memory>
#include <spatialops/OperatorDatabase.h>
using namespace vf; using SpatialOps::OperatorDatabase;
// every operator records its life so that leaks, double deletes and early deletes are seen
struct Life { std::map<const void*,int> serial; std::map<int,int> born, dead; int next=0; };
static Life* L;
template<int K> struct Asm { int tag; };
template<int K> struct Op { typedef Asm<K> Assembler; int me, tag; long pad[3];
  explicit Op(int t):tag(t){ me=L->next++; L->born[me]++; for(long& p:pad) p=0x5a5a+me; }
  Op(const Assembler& a):tag(a.tag){ me=L->next++; L->born[me]++; for(long& p:pad) p=0x5a5a+me; }
  ~Op(){ L->dead[me]++; }
  bool intact() const { for(long p:pad) if(p!=0x5a5a+me) return false; return true; } };
template<int K> struct Sub : Op<K> { explicit Sub(int t):Op<K>(t){} typedef typename Op<K>::Assembler Assembler; Sub(const Assembler& a):Op<K>(a){} };
static const int TYPES=5;
struct Ent { int id; const void* p; int me; };
struct Db { OperatorDatabase* db; std::vector<Ent> reg[TYPES]; bool fuzzy[TYPES]; Db():db(new OperatorDatabase){ for(bool& f:fuzzy) f=false; } };
template<class Fn> void with(int t,Fn fn){ switch(t){ case 0: fn((Op<0>*)0); break; case 1: fn((Op<1>*)0); break; case 2: fn((Sub<0>*)0); break; case 3: fn((Op<3>*)0); break; default: fn((Sub<3>*)0); } }
static void one(Case& c,bool copies){
  Rng& r=c.r; Life life; L=&life; std::vector<std::unique_ptr<Db> > dbs; dbs.emplace_back(new Db); int steps=r.range(5,60), tag=0; bool crowd=r.chance(0.02); if(crowd) steps=r.range(150,500); double preg= crowd? 0.85 : 0.45; std::string h;
  auto kind=[](int me,const Life& l){ auto i=l.dead.find(me); return i==l.dead.end()?0:i->second; };
  auto verify=[&](const char* when){ // every live registration is retrievable as the same intact object, and alive
    for(auto& d: dbs) for(int t=0;t<TYPES;++t) for(auto& e: d->reg[t]){ with(t,[&](auto* z){ typedef typename std::remove_pointer<decltype(z)>::type T; T* p=0; 
      if(kind(e.me,life)){ viol("destroyed-too-early",c.desc+fmt(" %s: operator %d",when,e.me)); return; }
      const OperatorDatabase& cd=*d->db; try{ p=cd.retrieve_operator<T>(e.id); }catch(const std::exception& x){ viol("registered-not-found",c.desc+fmt(" %s: type %d id %d",when,t,e.id)); return; }
      if(p!=e.p) viol("wrong-object",c.desc+fmt(" %s: type %d id %d",when,t,e.id)); else if(p->me!=e.me||!p->intact()) viol("object-damaged",c.desc+fmt(" %s: type %d id %d",when,t,e.id)); count("retrieved"); }); } };
  for(int s=0;s<steps;++s){
    Db& d=*dbs[r.next()%dbs.size()]; int t=r.range(0,TYPES-1); double z=r.unit(); if(crowd){ if(r.chance(0.9)) t=2; if(z>=0.8&&r.chance(0.95)) z=0.7; }
    if(z<preg){ with(t,[&](auto* q){ typedef typename std::remove_pointer<decltype(q)>::type T; int id; const void* p; int me=life.next;
        if(r.chance(0.5)){ T* o=new T(tag); id=d.db->register_new_operator(o); p=o; } else { typename T::Assembler a={tag}; id=d.db->register_new_operator<T>(a); p=0; T* o=0; try{ o=d.db->retrieve_operator<T>(id); p=o; if(o->tag!=tag||o->me!=me) viol("wrong-object",c.desc+" from an assembler"); }catch(const std::exception&){ viol("registered-not-found",c.desc+" from an assembler"); } }
        for(auto& e: d.reg[t]) if(e.id==id) viol("identifier-reused",c.desc+fmt(" type %d id %d",t,id));
        for(auto& o: dbs) if(o.get()!=&d && (o->reg[t].size()||d.reg[t].size())) o->fuzzy[t]=true;
        d.reg[t].push_back(Ent{id,p,me}); ++tag; count("registered"); h+=fmt(" r%d",t); }); }
    else if(z<0.6){ // without an identifier
      if(d.fuzzy[t]) continue; with(t,[&](auto* q){ typedef typename std::remove_pointer<decltype(q)>::type T; T* p=0; bool t1=false; try{ p=d.db->retrieve_operator<T>(); }catch(const std::runtime_error&){ t1=true; }
        size_t n=d.reg[t].size(); count(n==1?"single":"not-single"); h+=fmt(" g%d",t); if(n==1? (t1||p!=d.reg[t][0].p) : !t1) viol("without-identifier",c.desc+h+fmt(": %zu registered of type %d, %s",n,t,t1?"refused":"returned one")); }); }
    else if(z<0.8){ // unknown identifiers
      if(d.fuzzy[t]) continue; static const int odd[]={0,-2,-1000,1000000,std::numeric_limits<int>::max(),std::numeric_limits<int>::min()}; int id = r.chance(0.5)? odd[r.range(0,5)] : (int)d.reg[t].size()+r.range(1,4); bool known=false; for(auto& e: d.reg[t]) known|=e.id==id; if(known||id==-1) continue;
      with(t,[&](auto* q){ typedef typename std::remove_pointer<decltype(q)>::type T; bool t1=false; try{ d.db->retrieve_operator<T>(id); }catch(const std::runtime_error&){ t1=true; } count("refused"); h+=" x"; if(!t1) viol("unknown-identifier-accepted",c.desc+h+fmt(": type %d id %d",t,id)); }); }
    else if(z<0.86){ // empty it
      d.db->empty_database(); count("emptied"); h+=" e"; std::vector<int> mine; for(int k=0;k<TYPES;++k){ for(auto& e: d.reg[k]) mine.push_back(e.me); d.reg[k].clear(); d.fuzzy[k]=false; }
      for(int me: mine){ bool shared=false; for(auto& o: dbs) for(int k=0;k<TYPES;++k) for(auto& e: o->reg[k]) shared|=e.me==me; bool maybe=copies; if(shared){ if(kind(me,life)) viol("destroyed-too-early",c.desc+h); } else if(!maybe && kind(me,life)!=1) viol("not-destroyed-once",c.desc+h+fmt(": operator %d destroyed %d times by emptying",me,kind(me,life))); } }
    else if(z<0.93 && copies && dbs.size()<4){ std::unique_ptr<Db> n(new Db); if(r.chance(0.5)){ delete n->db; n->db=new OperatorDatabase(*d.db); } else *n->db=*d.db; for(int k=0;k<TYPES;++k){ n->reg[k]=d.reg[k]; n->fuzzy[k]=d.fuzzy[k]; } dbs.push_back(std::move(n)); count("copies"); h+=" c"; }
    else if(copies && dbs.size()>1){ size_t q=r.next()%dbs.size(); delete dbs[q]->db; dbs.erase(dbs.begin()+q); count("destroyed"); h+=" d"; }
    c.note(h); c.add(hstr(h.c_str())); if(!crowd || s%16==0 || s==steps-1) verify("after a step");
  }
  while(dbs.size()){ delete dbs.back()->db; dbs.pop_back(); verify("after destroying a copy"); }
  for(int i=0;i<life.next;++i) if(kind(i,life)!=1) viol("not-destroyed-once",c.desc+fmt(": operator %d of %d destroyed %d times",i,life.next,kind(i,life)));
  L=0;
}
int main(int argc,char** argv){ init(argc,argv); group("single",2000,[](Case& c){ one(c,false); }); group("copies",2000,[](Case& c){ one(c,true); }); return finish(); }
