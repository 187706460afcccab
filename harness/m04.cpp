// M04: temporaries from the store match their prototype
#include "fields.h"
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/MemoryPool.h>
static std::string ws(const MemoryWindow& w){ return "glob"+vf::str(w.glob_dim())+" off"+vf::str(w.offset())+" ext"+vf::str(w.extent()); }
template<class D,class S> struct Both { D* d; S* s; };
// a field of the same domain built directly
template<class F> struct Direct { vf::Lay l; std::vector<typename F::value_type> mem; std::unique_ptr<F> f; };
template<class F> static void direct(Direct<F>& x,vf::Rng& r,const vf::Dom& d,bool embed){ x.l=vf::make_lay<F>(r,d,embed); x.mem.assign(vf::npts(x.l.glob),(typename F::value_type)-5); x.f.reset(new F(MemoryWindow(x.l.glob,x.l.off,x.l.ext()),BoundaryCellInfo::build<F>(d.bc[0],d.bc[1],d.bc[2]),GhostData(d.gm,d.gp),&x.mem[0],ExternalStorage)); }
template<class T> static bool match(const T& t,const T& ref,const char* k,const std::string& d){
  bool ok=true; IV e=ref.window_with_ghost().extent();
  auto bad=[&](const char* what,const std::string& x){ if(ok) vf::viol(std::string(k)+":"+what,d+" "+x); ok=false; };
  if(!(t.window_with_ghost()==MemoryWindow(e))) bad("window",ws(t.window_with_ghost())+" expected ext"+vf::str(e));
  IV io=ref.window_without_ghost().offset()-ref.window_with_ghost().offset();
  if(!(t.window_without_ghost()==MemoryWindow(e,io,ref.window_without_ghost().extent()))) bad("interior",ws(t.window_without_ghost())+" expected off"+vf::str(io)+" ext"+vf::str(ref.window_without_ghost().extent()));
  if(!(t.get_valid_ghost_data()==ref.get_valid_ghost_data())) bad("valid-ghosts","");
  for(int i=0;i<3;++i) if(t.boundary_info().has_bc(i)!=ref.boundary_info().has_bc(i)||t.boundary_info().has_extra(i)!=ref.boundary_info().has_extra(i)||t.boundary_info().num_extra(i)!=ref.boundary_info().num_extra(i)) bad("boundary",vf::fmt("direction %d",i));
  if(t.memory_device_type()!=LOCAL_RAM||t.device_index()!=0) bad("device","");
  return ok;
}
template<class D,class S> static void pair(vf::Case& c,const char* nm){
  vf::Rng& r=c.r; vf::DomOpt o; o.maxn=7; vf::Dom d=vf::rand_dom(r,o); bool embed=r.chance(0.5), reset=r.chance(0.4);
  Direct<S> proto; Direct<D> ref; direct(proto,r,d,embed); direct(ref,r,d,false); c.add(proto.l.h()); c.add(vf::hstr(nm));
  c.note(std::string(nm)+" "+proto.l.s()+(reset?" reduced ghosts":""));
  if(reset){ IV m,p; for(int i=0;i<3;++i){ m[i]=r.range(0,d.gm[i]); p[i]=r.range(0,d.gp[i]); if(d.n[i]==1){ m[i]=d.gm[i]; p[i]=d.gp[i]; } } proto.f->reset_valid_ghosts(GhostData(m,p)); ref.f->reset_valid_ghosts(GhostData(m,p)); }
  std::vector<typename S::value_type> before=proto.mem;
  SpatFldPtr<D> a=SpatialFieldStore::get<D>(*proto.f), b=SpatialFieldStore::get<D>(*proto.f,LOCAL_RAM,0); vf::count("temporaries",2);
  if(!match(*a,*ref.f,"prototype",c.desc)||!match(*b,*ref.f,"prototype",c.desc)) return;
  size_t n=vf::npts(ref.f->window_with_ghost().extent()); const typename D::value_type* pa=a->field_values(); const typename D::value_type* pb=b->field_values();
  if(pa<pb+n&&pb<pa+n) vf::viol("prototype:shared-memory",c.desc);
  // the two and the interior iterators work and the two are mutually assignable
  long k=0; for(typename D::iterator it=b->begin();it!=b->end();++it) *it=(typename D::value_type)++k; if(k!=(long)n) vf::viol("prototype:cells",c.desc+vf::fmt(" %ld cells expected %zu",k,n));
  *a=*b; long q=0; for(typename D::const_iterator it=static_cast<const D&>(*a).begin();it!=static_cast<const D&>(*a).end();++it) if(*it!=(typename D::value_type)++q){ vf::viol("prototype:assign",c.desc); break; }
  k=0; for(typename D::iterator it=b->interior_begin();it!=b->interior_end();++it) ++k; if(k!=vf::npts(ref.f->window_without_ghost().extent())) vf::viol("prototype:interior-cells",c.desc);
  // a temporary made after a temporary is the same again
  SpatFldPtr<D> e=SpatialFieldStore::get<D>(*a); match(*e,*ref.f,"second-generation",c.desc); *e=*b;
  SpatFldPtr<S> f=SpatialFieldStore::get<S>(*a); match(*f,*proto.f,"and-back",c.desc);
  if(memcmp(&before[0],&proto.mem[0],before.size()*sizeof(before[0]))) vf::viol("prototype:modified",c.desc);
  // usable with other fields of the domain in statements
  if(!reset){ *a <<= *ref.f; *ref.f <<= *a * 2.0 + *b; vf::count("statements",2); const D& ca=*a; for(typename D::const_iterator it=ca.begin();it!=ca.end();++it) if(*it!=(typename D::value_type)-5){ vf::viol("prototype:statement",c.desc); break; } 
    q=0; const D& cr=*ref.f; for(typename D::const_iterator it=cr.begin();it!=cr.end();++it) if(*it!=(typename D::value_type)(-10+(double)(typename D::value_type)++q)){ vf::viol("prototype:statement",c.desc); break; } }
  vf::count("cells",4*n);
}
template<class F> static void window(vf::Case& c,const char* nm){
  vf::Rng& r=c.r; vf::DomOpt o; o.maxn=7; vf::Dom d=vf::rand_dom(r,o); vf::Lay l=vf::make_lay<F>(r,d,true); c.add(l.h()); c.add(vf::hstr(nm)); c.note(std::string(nm)+" "+l.s());
  size_t act=Pool<typename F::value_type>::self().active();
  Direct<F> ref; direct(ref,r,d,false); BoundaryCellInfo bc=BoundaryCellInfo::build<F>(d.bc[0],d.bc[1],d.bc[2]); GhostData g(d.gm,d.gp);
  { SpatFldPtr<F> a=SpatialFieldStore::get_from_window<F>(MemoryWindow(l.glob,l.off,l.ext()),bc,g), b=SpatialFieldStore::get_from_window<F>(get_window_with_ghost(d.n,g,bc),bc,g);
  match(*a,*ref.f,"window",c.desc); match(*b,*ref.f,"window",c.desc); *a=*b; *b=*a; *ref.f=*a; vf::count("temporaries",2);
  if(!(a->get_ghost_data()==g)||!(b->get_ghost_data()==g)) vf::viol("window:ghosts",c.desc);
  if(a->allocated_bytes()!=sizeof(typename F::value_type)*vf::npts(l.ext())) vf::viol("window:bytes",c.desc);
  typename F::value_type v=(typename F::value_type)r.range(1,99); for(typename F::iterator it=a->begin();it!=a->end();++it) *it=v; *b<<=*a; long k=0; for(typename F::iterator it=b->begin();it!=b->end();++it,++k) if(*it!=v){ vf::viol("window:statement",c.desc); break; } vf::count("cells",k); }
  if(Pool<typename F::value_type>::self().active()!=act) vf::viol("window:leak",c.desc);
}
template<class D> static void row(vf::Case& c,const char* nm){
  switch(c.r.range(0,15)){
  case 0: pair<D,SVolField>(c,nm); break; case 1: pair<D,SSurfXField>(c,nm); break; case 2: pair<D,SSurfYField>(c,nm); break; case 3: pair<D,SSurfZField>(c,nm); break;
  case 4: pair<D,XVolField>(c,nm); break; case 5: pair<D,XSurfXField>(c,nm); break; case 6: pair<D,XSurfYField>(c,nm); break; case 7: pair<D,XSurfZField>(c,nm); break;
  case 8: pair<D,YVolField>(c,nm); break; case 9: pair<D,YSurfXField>(c,nm); break; case 10: pair<D,YSurfYField>(c,nm); break; case 11: pair<D,YSurfZField>(c,nm); break;
  case 12: pair<D,ZVolField>(c,nm); break; case 13: pair<D,ZSurfXField>(c,nm); break; case 14: pair<D,ZSurfYField>(c,nm); break; default: pair<D,ZSurfZField>(c,nm); break; }
}
int main(int argc,char**argv){
  vf::init(argc,argv);
#define ROW(F) vf::group("proto-" #F,60,[](vf::Case& c){ row<F>(c,#F); }); vf::group("window-" #F,25,[](vf::Case& c){ window<F>(c,#F); });
  ROW(SVolField) ROW(SSurfXField) ROW(SSurfYField) ROW(SSurfZField) ROW(XVolField) ROW(XSurfXField) ROW(XSurfYField) ROW(XSurfZField)
  ROW(YVolField) ROW(YSurfXField) ROW(YSurfYField) ROW(YSurfZField) ROW(ZVolField) ROW(ZSurfXField) ROW(ZSurfYField) ROW(ZSurfZField)
  typedef SpatialField<SVol,float> FloatVol; typedef SpatialField<XSurfX,float> FloatFace;
  vf::group("float",80,[](vf::Case& c){ switch(c.r.range(0,3)){ case 0: pair<FloatVol,FloatFace>(c,"float vol of face"); break; case 1: pair<FloatFace,FloatVol>(c,"float face of vol"); break; case 2: pair<FloatVol,FloatVol>(c,"float vol"); break; default: window<FloatFace>(c,"float face"); } });
  vf::group("single",30,[](vf::Case& c){ SpatFldPtr<SingleValueField> a=SpatialFieldStore::get_from_window<SingleValueField>(MemoryWindow(IV(1,1,1)),BoundaryCellInfo::build<SingleValueField>(),GhostData(0)); SpatFldPtr<SingleValueField> b=SpatialFieldStore::get<SingleValueField>(*a); double v=c.r.real(-1,1); c.add(v); *a<<=v; *b<<=*a; if((*b)[0]!=v||!(b->window_with_ghost()==MemoryWindow(IV(1,1,1)))||&(*a)[0]==&(*b)[0]) vf::viol("single",""); });
  return vf::finish();
}
