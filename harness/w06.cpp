// W06: compile-time index arithmetic agrees with vector arithmetic; location types agree with the staggering they document.
#include "ops.h"
#include <spatialops/structured/IndexTriplet.h>
#include <utility>
using namespace vf;
// compile-time pseudo-random components: small ones often, large ones sometimes
constexpr uint64_t mixc(uint64_t x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ull; x^=x>>27; x*=0x94d049bb133111ebull; x^=x>>31; return x; }
#ifndef SALT
# define SALT 1
#endif
constexpr int comp(uint64_t n,int w){ uint64_t h=mixc(n*16+w+SALT*1000003ull*7919); return (h&7)<5? int((h>>8)%3)-1 : (h&7)<7? int((h>>8)%19)-9 : int((h>>8)%200001)-100000; }
template<uint64_t N> struct TA { typedef IndexTriplet<comp(N,0),comp(N,1),comp(N,2)> T; };
template<uint64_t N> struct TB { typedef IndexTriplet<comp(N,3),comp(N,4),comp(N,5)> T; };
static std::string desc; static uint64_t sigv;
template<class T> IV vec(){ return IV((int)T::X,(int)T::Y,(int)T::Z); }
static void same(const char* what,const IV& got,const IV& want){ if(got[0]!=want[0]||got[1]!=want[1]||got[2]!=want[2]) viol(std::string("triplet:")+what,desc+" "+what+" gives "+str(got)+", expected "+str(want)); count("triplets"); }
static void num(const char* what,int got,int want){ if(got!=want) viol(std::string("number:")+what,desc+fmt(" %s gives %d, expected %d",what,got,want)); count("numbers"); }
template<class A> void unary(const IV& a){
  same("components",vec<A>(),a); same("int_vec",A::int_vec(),a); same("values",IV(A::x_value(),A::y_value(),A::z_value()),a);
  same("Abs",vec<typename A::Abs>(),IV(std::abs(a[0]),std::abs(a[1]),std::abs(a[2]))); same("PositiveOrZero",vec<typename A::PositiveOrZero>(),IV(std::max(a[0],0),std::max(a[1],0),std::max(a[2],0)));
  same("Negate",vec<typename A::Negate>(),IV(-a[0],-a[1],-a[2])); same("NegateTwice",vec<typename A::Negate::Negate>(),a);
  num("ExtractX",IndexTripletExtract<A,XDIR>::value,a[0]); num("ExtractY",IndexTripletExtract<A,YDIR>::value,a[1]); num("ExtractZ",IndexTripletExtract<A,ZDIR>::value,a[2]);
  int x=0,y=0,z=0; std::string p=A::print(); if(sscanf(p.c_str()," ( %d , %d , %d )",&x,&y,&z)!=3||IV(x,y,z)!=a) viol("print",desc+" prints as "+p);
}
template<int a,int b> void numbers(){ num("Abs",Abs<a>::result,a<0?-a:a); num("Max",Max<a,b>::result,std::max(a,b)); num("Min",Min<a,b>::result,std::min(a,b)); num("LThan",LThan<a,b>::result,a<b); num("GThan",GThan<a,b>::result,a>b); num("Kronecker",Kronecker<a,b>::value,a==b); num("KroneckerSame",Kronecker<a,a>::value,1); }
template<class A,class B> void binary(const IV& a,const IV& b){
  same("Add",vec<typename Add<A,B>::result>(),IV(a[0]+b[0],a[1]+b[1],a[2]+b[2])); same("Subtract",vec<typename Subtract<A,B>::result>(),IV(a[0]-b[0],a[1]-b[1],a[2]-b[2]));
  same("LessThan",vec<typename LessThan<A,B>::result>(),IV(a[0]<b[0],a[1]<b[1],a[2]<b[2])); same("GreaterThan",vec<typename GreaterThan<A,B>::result>(),IV(a[0]>b[0],a[1]>b[1],a[2]>b[2]));
  if(std::abs(a[0])<20000&&std::abs(a[1])<20000&&std::abs(a[2])<20000&&std::abs(b[0])<20000&&std::abs(b[1])<20000&&std::abs(b[2])<20000) same("Multiply",vec<typename Multiply<A,B>::result>(),IV(a[0]*b[0],a[1]*b[1],a[2]*b[2]));
  num("IsSameType",IsSameType<A,B>::result,a==b); num("IsSameTypeSelf",IsSameType<A,A>::result,1);
}
// Multiply is only instantiated where the product fits
template<uint64_t N,bool small> struct Pair;
constexpr bool fits(uint64_t n){ for(int w=0;w<6;++w){ int c=comp(n,w); if(c>20000||c<-20000) return false; } return true; }
template<uint64_t N> struct Pair<N,true> { static void go(const IV& a,const IV& b){ binary<typename TA<N>::T,typename TB<N>::T>(a,b); } };
template<uint64_t N> struct Pair<N,false> { static void go(const IV& a,const IV& b){ typedef typename TA<N>::T A; typedef typename TB<N>::T B;
  same("Add",vec<typename Add<A,B>::result>(),IV(a[0]+b[0],a[1]+b[1],a[2]+b[2])); same("Subtract",vec<typename Subtract<A,B>::result>(),IV(a[0]-b[0],a[1]-b[1],a[2]-b[2]));
  same("LessThan",vec<typename LessThan<A,B>::result>(),IV(a[0]<b[0],a[1]<b[1],a[2]<b[2])); same("GreaterThan",vec<typename GreaterThan<A,B>::result>(),IV(a[0]>b[0],a[1]>b[1],a[2]>b[2])); } };
template<uint64_t N> void random_pair(Case& c){ IV a(comp(N,0),comp(N,1),comp(N,2)),b(comp(N,3),comp(N,4),comp(N,5)); desc=str(a)+" "+str(b); c.note(desc); for(int t=0;t<3;++t){ c.add((uint64_t)(a[t]+200000)); c.add((uint64_t)(b[t]+200000)); }
  unary<typename TA<N>::T>(a); Pair<N,fits(N)>::go(a,b); numbers<comp(N,0),comp(N,3)>(); numbers<comp(N,4),comp(N,1)>(); }
template<uint64_t... N> void random_pairs(std::integer_sequence<uint64_t,N...>){ void (*f[])(Case&)={&random_pair<N>...}; group("random",sizeof...(N),[&](Case& c){ f[st().idx](c); },true); }
// all pairs of triplets with components -1, 0, 1
template<int A> void unit_pairs(Case& c);
template<int A,int B> void unit_pair(){ constexpr int ax=A%3-1,ay=A/3%3-1,az=A/9-1,bx=B%3-1,by=B/3%3-1,bz=B/9-1; IV a(ax,ay,az),b(bx,by,bz); desc=str(a)+" "+str(b); binary<IndexTriplet<ax,ay,az>,IndexTriplet<bx,by,bz> >(a,b); }
template<int A,int... B> void unit_row(std::integer_sequence<int,B...>){ int z[]={(unit_pair<A,B>(),0)...}; (void)z; }
template<int A> void unit_pairs(Case& c){ constexpr int ax=A%3-1,ay=A/3%3-1,az=A/9-1; desc=str(IV(ax,ay,az)); c.note(desc); c.add((uint64_t)A+1); unary<IndexTriplet<ax,ay,az> >(IV(ax,ay,az)); unit_row<A>(std::make_integer_sequence<int,27>()); }
template<int... A> void all_unit(std::integer_sequence<int,A...>){ void (*f[])(Case&)={&unit_pairs<A>...}; group("unit",27,[&](Case& c){ f[st().idx](c); },true); }
template<class D> void dir(Case& c,int d){ c.note(fmt("direction %d",d)); desc=c.desc; c.add((uint64_t)d+1); num("DirValue",D::value,d); IV u(0,0,0); u[d]=1; typedef typename UnitTriplet<D>::type U; same("UnitTriplet",vec<U>(),u);
  num("GetNonzeroDir",GetNonzeroDir<U>::DirT::value,d); num("GetNonzeroDirMinus",GetNonzeroDir<typename U::Negate>::DirT::value,d); }
// where each staggered location sits, from its name: volumes shifted half a cell back in their own direction, faces a further half cell in theirs
static IV expected(char vol,char face){ int s[3]={0,0,0}; if(vol!='S') s[vol-'X']+=1; if(face!='V') s[face-'X']+=1; return IV(s[0]==1?-1:0,s[1]==1?-1:0,s[2]==1?-1:0); }
template<class F> void loc(Case& c,char vol,char face){ typedef typename F::Location L; c.note(fmt("location %c %c",vol,face)); desc=c.desc; c.add((uint64_t)vol*256+face);
  IV want=expected(vol,face); same("Offset",vec<typename L::Offset>(),want); num("FaceDir",L::FaceDir::value,face=='V'?(int)NODIR::value:face-'X');
  num("IndexStaggerX",IndexStagger<F,XDIR>::value,want[0]); num("IndexStaggerY",IndexStagger<F,YDIR>::value,want[1]); num("IndexStaggerZ",IndexStagger<F,ZDIR>::value,want[2]);
  // a physical boundary adds a point along the direction the location itself is staggered in, when it lies on faces of the mesh there
  IV e(0,0,0); if(face=='V'){ if(vol!='S') e[vol-'X']=1; } else if(face!=vol) e[face-'X']=1; same("BCExtra",vec<typename L::BCExtra>(),e); }
template<class V> void rel(Case& c,const char* n){ c.note(n); desc=n; c.add(hstr(n)); typedef typename FaceTypes<V>::XFace X; typedef typename FaceTypes<V>::YFace Y; typedef typename FaceTypes<V>::ZFace Z;
  num("VolOfXFace",IsSameType<typename VolType<X>::VolField,V>::result,1); num("VolOfYFace",IsSameType<typename VolType<Y>::VolField,V>::result,1); num("VolOfZFace",IsSameType<typename VolType<Z>::VolField,V>::result,1);
  num("XFaceDir",X::Location::FaceDir::value,0); num("YFaceDir",Y::Location::FaceDir::value,1); num("ZFaceDir",Z::Location::FaceDir::value,2); }
// run-time vectors: the same arithmetic on plain arrays
template<class T> struct Vec3 { T v[3]; };
template<class T> static bool eq3(const Numeric3Vec<T>& g,T a,T b,T c){ return g[0]==a&&g[1]==b&&g[2]==c; }
template<class T> static void vectors(Case& c){
  Rng& r=c.r; T a[3],b[3]; bool small=r.chance(.5); for(int d=0;d<3;++d){ a[d]=small? (T)r.range(-2,2) : (T)(r.range(-20000,20000)); b[d]=r.chance(.3)? a[d] : small? (T)r.range(-2,2) : (T)r.range(-20000,20000); if(sizeof(T)==8){ a[d]+=(T)r.range(0,7)/8; b[d]+=(T)r.range(0,7)/8; } }
  T k=(T)r.range(1,9); if(r.chance(.5)) k=-k; c.note(fmt("(%g,%g,%g) (%g,%g,%g) %g",(double)a[0],(double)a[1],(double)a[2],(double)b[0],(double)b[1],(double)b[2],(double)k)); for(int d=0;d<3;++d){ c.add((double)a[d]); c.add((double)b[d]); }
  typedef Numeric3Vec<T> N; const N x(a[0],a[1],a[2]), y(b); int n=0; auto is=[&](const char* w,const N& g,T p,T q,T z){ ++n; if(!eq3<T>(g,p,q,z)){ std::ostringstream o; o<<g; viol(std::string("vector:")+w,c.desc+" "+w+" gives "+o.str()); } };
  auto tf=[&](const char* w,bool g,bool e){ ++n; if(g!=e) viol(std::string("vector:")+w,c.desc+" "+w); };
  is("construct",x,a[0],a[1],a[2]); is("construct-array",y,b[0],b[1],b[2]); is("default",N(),0,0,0); is("construct-vector",N(std::vector<T>(a,a+3)),a[0],a[1],a[2]); is("copy",N(x),a[0],a[1],a[2]); { N z; z=y; is("assign",z,b[0],b[1],b[2]); z=z; is("self-assign",z,b[0],b[1],b[2]); z[1]=k; is("subscript",z,b[0],k,b[2]); }
  is("sum",x+y,a[0]+b[0],a[1]+b[1],a[2]+b[2]); is("difference",x-y,a[0]-b[0],a[1]-b[1],a[2]-b[2]); is("product",x*y,a[0]*b[0],a[1]*b[1],a[2]*b[2]);
  if(b[0]!=0&&b[1]!=0&&b[2]!=0) is("quotient",x/y,a[0]/b[0],a[1]/b[1],a[2]/b[2]); is("plus-scalar",x+k,a[0]+k,a[1]+k,a[2]+k); is("times-scalar",x*k,a[0]*k,a[1]*k,a[2]*k); is("over-scalar",x/k,a[0]/k,a[1]/k,a[2]/k);
  { N z(x); z+=y; is("sum-assign",z,a[0]+b[0],a[1]+b[1],a[2]+b[2]); z-=y; z-=y; is("difference-assign",z,a[0]+b[0]-b[0]-b[0],a[1]+b[1]-b[1]-b[1],a[2]+b[2]-b[2]-b[2]); z=x; z+=z; is("double",z,a[0]+a[0],a[1]+a[1],a[2]+a[2]); }
  bool e=a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2]; tf("equal",x==y,e); tf("unequal",x!=y,!e); tf("equal-self",x==x,true); { N z(x); int d=r.range(0,2); z[d]+=1; tf("equal-differs",x==z,false); tf("unequal-differs",x!=z,true); }
  if(x.sum()!=a[0]+a[1]+a[2]) viol("vector:sum-of-components",c.desc); is("convert",N(Numeric3Vec<double>((double)a[0],(double)a[1],(double)a[2])),a[0],a[1],a[2]); { const Numeric3Vec<int> z(x); if(z[0]!=(int)a[0]||z[1]!=(int)a[1]||z[2]!=(int)a[2]) viol("vector:convert-int",c.desc); }
  { std::ostringstream o; o<<x; double p,q,z; if(sscanf(o.str().c_str(),"[ %lf,%lf,%lf ]",&p,&q,&z)!=3||std::fabs(p-a[0])>.5||std::fabs(q-a[1])>.5||std::fabs(z-a[2])>.5) viol("vector:print",c.desc+" prints as "+o.str()); }
  count("vector-ops",n);
}
static void boxes(Case& c){ Rng& r=c.r; int n[3]; for(int d=0;d<3;++d) n[d]=r.chance(.2)?1:r.range(1,r.chance(.1)?60:7); const IV dim(n[0],n[1],n[2]); c.note("box "+str(dim)); c.add((uint64_t)n[0]*1000000+n[1]*1000+n[2]);
  int f=0; for(int k=0;k<n[2];++k)for(int j=0;j<n[1];++j)for(int i=0;i<n[0];++i,++f){ int g=ijk_to_flat(dim,IV(i,j,k)); IV p=flat_to_ijk(dim,f); if(g!=f||p[0]!=i||p[1]!=j||p[2]!=k){ viol("box:position",c.desc+fmt(" cell (%d,%d,%d) is number %d, got %d, and back ",i,j,k,f,g)+str(p)); return; } }
  int a[3],b[3]; for(int d=0;d<3;++d){ a[d]=r.range(-9,9); b[d]=r.range(-9,9); } IV m=min(IV(a),IV(b)); for(int d=0;d<3;++d) if(m[d]!=std::min(a[d],b[d])) viol("box:minimum",str(IV(a))+" "+str(IV(b))); count("box-cells",f); }
int main(int argc,char** argv){
  init(argc,argv);
  all_unit(std::make_integer_sequence<int,27>()); random_pairs(std::make_integer_sequence<uint64_t,400>());
  group("directions",3,[](Case& c){ if(st().idx==0) dir<XDIR>(c,0); else if(st().idx==1) dir<YDIR>(c,1); else dir<ZDIR>(c,2); },true);
#define L(V,N,F,K) [](Case& c){ loc<V##N##Field>(c,#V[0],K); }
  std::vector<void(*)(Case&)> ls={
#define VOLS(V) L(V,Vol,V,'V'), L(V,SurfX,X,'X'), L(V,SurfY,Y,'Y'), L(V,SurfZ,Z,'Z')
    VOLS(S), VOLS(X), VOLS(Y), VOLS(Z) };
  group("locations",16,[&](Case& c){ ls[st().idx](c); },true);
  group("relations",4,[](Case& c){ switch(st().idx){ case 0: rel<SVolField>(c,"SVol"); break; case 1: rel<XVolField>(c,"XVol"); break; case 2: rel<YVolField>(c,"YVol"); break; default: rel<ZVolField>(c,"ZVol"); } },true);
  group("vectors-int",20000,vectors<int>); group("vectors-double",20000,vectors<double>); group("boxes",1500,boxes);
  return finish();
}
