// Bounded stand-in and replay for the algorithms: every subrange of many small
// collections, several restitution lists, against the std algorithms on the
// flat sequence of values.  PART 14: queries, PART 15: copying algorithms.
#include "common.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
#include <random>
#include <boost/poly_collection/algorithm.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#include <boost/mpl/vector/vector10.hpp>
#endif
#ifndef PART
#define PART 14
#endif
namespace pc=boost::poly_collection;
namespace vn{

struct cell{int v;int tag;};
inline int& mask(){static int m=0;return m;}        /* restituted types */

#if KIND==0
struct B{virtual ~B(){} virtual const cell& c()const=0;};
struct filler{virtual ~filler(){} long f=7;};
struct A0:B{explicit A0(int v):x{v,0}{} cell x;const cell& c()const override{return x;}};
struct A1 final:filler,B{explicit A1(int v):x{v,1}{} char p[24];cell x;const cell& c()const override{return x;}};
struct A2:B{explicit A2(int v):x{v,2}{} cell x;char p[40];const cell& c()const override{return x;}};
struct A3:A0{explicit A3(int v):A0(v){x.tag=3;} int p[3];};
struct A4:B{explicit A4(int v):x{v,4}{} cell x;const cell& c()const override{return x;}};
using coll=boost::base_collection<B>;
using value=coll::value_type;
inline const cell& cellv(const value& x){return x.c();}
#elif KIND==1
#define OVR const cell* operator()()const{return &x;}
struct A0{explicit A0(int v):x{v,0}{} cell x;OVR};
struct A1 final{explicit A1(int v):x{v,1}{} char p[24];cell x;OVR};
struct A2{explicit A2(int v):x{v,2}{} cell x;char p[40];OVR};
struct A3:A0{explicit A3(int v):A0(v){x.tag=3;} int p[3];OVR};
struct A4{explicit A4(int v):x{v,4}{} cell x;OVR};
using coll=boost::function_collection<const cell*()>;
using value=coll::value_type;
inline const cell& cellv(const value& x){return *x();}
#else
struct A0{explicit A0(int v):x{v,0}{} cell x;};
struct A1 final{explicit A1(int v):x{v,1}{} char p[24];cell x;};
struct A2{explicit A2(int v):x{v,2}{} cell x;char p[40];};
struct A3:A0{explicit A3(int v):A0(v){x.tag=3;} int p[3];};
struct A4{explicit A4(int v):x{v,4}{} cell x;};
template<typename T=boost::type_erasure::_self>
struct getc_{static const cell* apply(const T& x){return &x.x;}};
using concept_=boost::mpl::vector1<getc_<>>;
using coll=boost::any_collection<concept_>;
using value=coll::value_type;
inline const cell& cellv(const value& x){return *boost::type_erasure::call(getc_<>{},x);}
#endif
template<typename T> struct tagof;
template<> struct tagof<A0>{enum{v=0};};
template<> struct tagof<A1>{enum{v=1};};
template<> struct tagof<A2>{enum{v=2};};
template<> struct tagof<A3>{enum{v=3};};
template<> struct tagof<A4>{enum{v=4};};
template<typename... Ts> struct maskof{enum{v=0};};
template<typename T,typename... Ts> struct maskof<T,Ts...>{enum{v=(1<<tagof<T>::v)|maskof<Ts...>::v};};

/* value of an element however it is passed; the static type must be the one
 * due to the restitution list */
inline int num(int x){return x;}
inline int num(const value& x)
{
  const cell& c=cellv(x);
  if(mask()&(1<<c.tag))fail_later("an element of a restituted type passed as a base reference");
  return c.v;
}
template<typename T> int conc(const T& x)
{
  if(x.x.tag!=tagof<T>::v)fail_later("an element passed as another type");
  if(!(mask()&(1<<tagof<T>::v)))fail_later("an element restituted though its type was not listed");
  return x.x.v;
}
inline int num(const A0& x){return conc(x);}
inline int num(const A1& x){return conc(x);}
inline int num(const A2& x){return conc(x);}
inline int num(const A3& x){return conc(x);}
inline int num(const A4& x){return conc(x);}
/* for comparisons between two elements */
template<typename T> bool operator==(const T& x,const cell& y){return num(x)==y.v;}

#if KIND!=2
template<typename T> struct is_el{enum{v=std::is_same<T,value>::value||std::is_same<T,A0>::value||std::is_same<T,A1>::value||
  std::is_same<T,A2>::value||std::is_same<T,A3>::value||std::is_same<T,A4>::value};};
template<typename T,typename U,typename std::enable_if<is_el<T>::v&&(is_el<U>::v||std::is_same<U,int>::value)>::type* =nullptr>
bool operator==(const T& x,const U& y){return num(x)==num(y);}
#endif
struct eqf{template<typename X,typename Y> bool operator()(const X& x,const Y& y)const{return num(x)==num(y);}};
/* an asymmetric relation */
struct ltf{template<typename X,typename Y> bool operator()(const X& x,const Y& y)const{return num(x)<num(y);}};
struct parf{template<typename X,typename Y> bool operator()(const X& x,const Y& y)const{return num(x)%2==num(y)%2;}};
struct is_f{int a;template<typename X> bool operator()(const X& x)const{return num(x)==a;}};
struct lt1{int a;template<typename X> bool operator()(const X& x)const{return num(x)<a;}};

/* an output iterator accepting any element */
struct out
{
  using iterator_category=std::output_iterator_tag;
  using value_type=void;using difference_type=std::ptrdiff_t;using pointer=void;using reference=void;
  std::vector<int>* p;long n;      /* n: assignments seen by this copy */
  struct ref{std::vector<int>* p;long n;
    template<typename X> void operator=(const X& x)const{
      if((long)p->size()!=n)fail_later("output written out of sequence");
      p->push_back(num(x));}
  };
  ref operator*()const{return ref{p,n};}
  out& operator++(){++n;return *this;}
  out operator++(int){out r{*this};++n;return r;}
};

struct input
{
  using iterator_category=std::input_iterator_tag;
  using value_type=int;using difference_type=std::ptrdiff_t;using pointer=const int*;using reference=const int&;
  const int* p;
  reference operator*()const{return *p;}
  input& operator++(){++p;return *this;}
  input operator++(int){auto r=*this;++p;return r;}
  bool operator==(const input& x)const{return p==x.p;}
  bool operator!=(const input& x)const{return p!=x.p;}
};

#define CHK(c) EXPECT(PART==14?"C14":"C15",c)

template<typename C,typename It>
struct ctx
{
  C& c;It f,l;std::size_t i,j;
  const std::vector<int>& v;              /* the whole flat sequence */
  std::vector<int> w;                     /* [i,j) */
  std::size_t at(It it)
  {
    std::size_t n=0;
    for(It q=c.begin();q!=it;++q){
      if(n>v.size())return 9999;
      ++n;
      if(q==It(c.end()))return 9999;
    }
    return n;
  }
};

long checks=0;

#if PART==14
template<typename... Ts,typename X> void run(X& x,rng& r)
{
  mask()=maskof<Ts...>::v;
  auto &w=x.w;auto f=x.f,l=x.l;auto i=x.i;
  auto pos=[&](std::vector<int>::const_iterator q){return i+(std::size_t)(q-w.cbegin());};
  auto wb=w.cbegin(),we=w.cend();
  for(int a=0;a<4;++a){
    is_f p{a};lt1 q{a};
    CHK((pc::all_of<Ts...>(f,l,p)==std::all_of(wb,we,p)));
    CHK((pc::any_of<Ts...>(f,l,p)==std::any_of(wb,we,p)));
    CHK((pc::none_of<Ts...>(f,l,p)==std::none_of(wb,we,p)));
    CHK((pc::all_of<Ts...>(f,l,q)==std::all_of(wb,we,q)));
    CHK(x.at(pc::find_if<Ts...>(f,l,p))==pos(std::find_if(wb,we,p)));
    CHK(x.at(pc::find_if_not<Ts...>(f,l,p))==pos(std::find_if_not(wb,we,p)));
    CHK(x.at(pc::find<Ts...>(f,l,cell{a,0}))==pos(std::find(wb,we,a)));
    CHK((pc::count<Ts...>(f,l,cell{a,0})==std::count(wb,we,a)));
    CHK((pc::count_if<Ts...>(f,l,q)==std::count_if(wb,we,q)));
    CHK((pc::is_partitioned<Ts...>(f,l,q)==std::is_partitioned(wb,we,q)));
    if(std::is_partitioned(wb,we,q))
      CHK(x.at(pc::partition_point<Ts...>(f,l,q))==pos(std::partition_point(wb,we,q)));
    for(int n=-1;n<5;++n){
      CHK(x.at(pc::search_n<Ts...>(f,l,n,a,eqf{}))==pos(std::search_n(wb,we,n,a)));
      if(a==2)CHK(x.at(pc::search_n<Ts...>(f,l,n,a,ltf{}))==pos(std::search_n(wb,we,n,a,[](int x,int y){return x<y;})));
    }
  }
  {
    std::vector<int> s;
    auto fn=[&](const auto& e){s.push_back(num(e));};
    pc::for_each<Ts...>(f,l,fn);
    CHK(s==w);
    /* the returned function carries the state */
    struct cnt{int n=0;std::vector<int>* s;void go(int v){++n;s->push_back(v);}
      void operator()(const value& e){go(num(e));}
      void operator()(const A0& e){go(num(e));}void operator()(const A1& e){go(num(e));}
      void operator()(const A2& e){go(num(e));}void operator()(const A3& e){go(num(e));}
      void operator()(const A4& e){go(num(e));}};
    s.clear();cnt k;k.s=&s;
    CHK((std::size_t)pc::for_each<Ts...>(f,l,k).n==w.size());
    CHK(s==w);
  }
  for(std::size_t n=0;n<=w.size();++n){
    std::vector<int> s;
    auto fn=[&](const auto& e){s.push_back(num(e));};
    CHK(x.at(pc::for_each_n<Ts...>(f,(std::ptrdiff_t)n,fn))==i+n);
    CHK(s==std::vector<int>(wb,wb+(std::ptrdiff_t)n));
  }
  CHK(x.at(pc::for_each_n<Ts...>(f,-1,[](const auto&){}))==i);
  CHK(x.at(pc::adjacent_find<Ts...>(f,l,eqf{}))==pos(std::adjacent_find(wb,we)));
  CHK(x.at(pc::adjacent_find<Ts...>(f,l,ltf{}))==pos(std::adjacent_find(wb,we,[](int x,int y){return x<y;})));
#if KIND!=2
  CHK(x.at(pc::adjacent_find<Ts...>(f,l))==pos(std::adjacent_find(wb,we)));
  for(int n=0;n<4;++n)CHK(x.at(pc::search_n<Ts...>(f,l,n,1))==pos(std::search_n(wb,we,n,1)));
#endif
  for(int rep=0;rep<5;++rep){
    /* a second sequence: unrelated, a piece of this one, or this one changed */
    std::vector<int> s;
    int how=r(5);
    if(how==0){int n=r(4);for(int q=0;q<n;++q)s.push_back(r(3));}
    else if(how==1){
      std::size_t a=(std::size_t)r((int)w.size()+1),b=a+(std::size_t)r((int)(w.size()-a)+1);
      s.assign(wb+(std::ptrdiff_t)a,wb+(std::ptrdiff_t)b);
    }
    else{
      s=w;
      if(how==3&&s.size())s[(std::size_t)r((int)s.size())]=r(4);
      if(how==4){for(std::size_t q=s.size();q>1;--q)std::swap(s[q-1],s[(std::size_t)r((int)q)]);}
      if(how==2&&r.chance(50)){if(r.chance(50)&&s.size())s.pop_back();else s.push_back(r(3));}
    }
    auto sb=s.cbegin(),se=s.cend();
    auto lt=[](int x,int y){return x<y;};
    CHK(x.at(pc::find_first_of<Ts...>(f,l,sb,se,eqf{}))==pos(std::find_first_of(wb,we,sb,se)));
    CHK(x.at(pc::find_first_of<Ts...>(f,l,sb,se,ltf{}))==pos(std::find_first_of(wb,we,sb,se,lt)));
    CHK(x.at(pc::search<Ts...>(f,l,sb,se,eqf{}))==pos(std::search(wb,we,sb,se)));
    CHK(x.at(pc::search<Ts...>(f,l,sb,se,ltf{}))==pos(std::search(wb,we,sb,se,lt)));
    CHK(x.at(pc::find_end<Ts...>(f,l,sb,se,eqf{}))==pos(std::find_end(wb,we,sb,se)));
    CHK(x.at(pc::find_end<Ts...>(f,l,sb,se,ltf{}))==pos(std::find_end(wb,we,sb,se,lt)));
    {
      auto a=pc::mismatch<Ts...>(f,l,sb,se,eqf{});
      auto b=std::mismatch(wb,we,sb,se);
      CHK(x.at(a.first)==pos(b.first));CHK(a.second==b.second);
      auto a2=pc::mismatch<Ts...>(f,l,input{s.data()},input{s.data()+s.size()},ltf{});
      auto b2=std::mismatch(wb,we,sb,se,lt);
      CHK(x.at(a2.first)==pos(b2.first));CHK(a2.second.p-s.data()==b2.second-sb);
    }
    CHK((pc::equal<Ts...>(f,l,sb,se,eqf{})==std::equal(wb,we,sb,se)));
    CHK((pc::equal<Ts...>(f,l,input{s.data()},input{s.data()+s.size()},parf{})==
         std::equal(wb,we,sb,se,[](int x,int y){return x%2==y%2;})));
    CHK((pc::is_permutation<Ts...>(f,l,sb,se,eqf{})==std::is_permutation(wb,we,sb,se)));
    CHK((pc::is_permutation<Ts...>(f,l,sb,se,parf{})==
         std::is_permutation(wb,we,sb,se,[](int x,int y){return x%2==y%2;})));
#if KIND!=2
    CHK(x.at(pc::find_first_of<Ts...>(f,l,sb,se))==pos(std::find_first_of(wb,we,sb,se)));
    CHK(x.at(pc::search<Ts...>(f,l,sb,se))==pos(std::search(wb,we,sb,se)));
    CHK(x.at(pc::find_end<Ts...>(f,l,sb,se))==pos(std::find_end(wb,we,sb,se)));
    CHK((pc::equal<Ts...>(f,l,sb,se)==std::equal(wb,we,sb,se)));
    CHK((pc::is_permutation<Ts...>(f,l,sb,se)==std::is_permutation(wb,we,sb,se)));
    CHK((pc::mismatch<Ts...>(f,l,sb,se).second==std::mismatch(wb,we,sb,se).second));
    CHK(x.at(pc::mismatch<Ts...>(f,l,sb,se).first)==pos(std::mismatch(wb,we,sb,se).first));
    if(s.size()>=w.size()){
      CHK((pc::mismatch<Ts...>(f,l,sb).second==std::mismatch(wb,we,sb).second));
      CHK((pc::equal<Ts...>(f,l,sb)==std::equal(wb,we,sb)));
      CHK((pc::is_permutation<Ts...>(f,l,sb)==std::is_permutation(wb,we,sb)));
    }
#endif
    if(s.size()>=w.size()){
      auto a=pc::mismatch<Ts...>(f,l,sb,eqf{});
      auto b=std::mismatch(wb,we,sb);
      CHK(x.at(a.first)==pos(b.first));CHK(a.second==b.second);
      CHK((pc::equal<Ts...>(f,l,sb,eqf{})==std::equal(wb,we,sb)));
      CHK((pc::is_permutation<Ts...>(f,l,sb,eqf{})==std::is_permutation(wb,we,sb)));
    }
  }
  ++checks;
}
#else
template<typename... Ts,typename X> void run(X& x,rng& r)
{
  mask()=maskof<Ts...>::v;
  auto &w=x.w;auto f=x.f,l=x.l;auto i=x.i;
  auto wb=w.cbegin(),we=w.cend();
  auto same=[&](std::vector<int>& got,const out& o,const std::vector<int>& exp){
    CHK(got==exp);CHK(o.n==(long)exp.size());got.clear();
  };
  std::vector<int> g,g2,e,e2;
  auto cl=[&]{g.clear();g2.clear();e.clear();e2.clear();};
  {cl();auto o=pc::copy<Ts...>(f,l,out{&g,0});same(g,o,w);}
  {cl();auto o=pc::move<Ts...>(f,l,out{&g,0});same(g,o,w);}
  for(std::ptrdiff_t n=-1;n<=(std::ptrdiff_t)w.size();++n){
    cl();auto o=pc::copy_n<Ts...>(f,n,out{&g,0});
    same(g,o,n<=0?std::vector<int>{}:std::vector<int>(wb,wb+n));
  }
  for(int a=0;a<4;++a){
    is_f p{a};lt1 q{a};
    {cl();std::copy_if(wb,we,std::back_inserter(e),p);auto o=pc::copy_if<Ts...>(f,l,out{&g,0},p);same(g,o,e);}
    {cl();std::copy_if(wb,we,std::back_inserter(e),q);auto o=pc::copy_if<Ts...>(f,l,out{&g,0},q);same(g,o,e);}
    {cl();std::replace_copy_if(wb,we,std::back_inserter(e),q,77);auto o=pc::replace_copy_if<Ts...>(f,l,out{&g,0},q,77);same(g,o,e);}
    {cl();std::remove_copy_if(wb,we,std::back_inserter(e),p);auto o=pc::remove_copy_if<Ts...>(f,l,out{&g,0},p);same(g,o,e);}
    {cl();std::remove_copy(wb,we,std::back_inserter(e),a);auto o=pc::remove_copy<Ts...>(f,l,out{&g,0},cell{a,0});same(g,o,e);}
    {cl();std::partition_copy(wb,we,std::back_inserter(e),std::back_inserter(e2),q);
     auto o=pc::partition_copy<Ts...>(f,l,out{&g,0},out{&g2,0},q);same(g,o.first,e);same(g2,o.second,e2);}
    {cl();std::transform(wb,we,std::back_inserter(e),[a](int v){return v*10+a;});
     auto o=pc::transform<Ts...>(f,l,out{&g,0},[a](const auto& v){return num(v)*10+a;});same(g,o,e);}
  }
  {
    /* replace_copy needs old and new of one type comparable to elements */
    struct cv:cell{cv(int v):cell{v,0}{}operator int()const{return v;}};
    for(int a=0;a<3;++a){
      cl();std::replace_copy(wb,we,std::back_inserter(e),a,88);
      struct out2:out{};
      auto o=pc::replace_copy<Ts...>(f,l,out{&g,0},cv(a),cv(88));same(g,o,e);
    }
  }
  {
    std::vector<int> s;for(std::size_t q=0;q<w.size()+1;++q)s.push_back(100*(1+r(5)));
    cl();std::transform(wb,we,s.cbegin(),std::back_inserter(e),[](int a,int b){return a+b;});
    auto o=pc::transform<Ts...>(f,l,input{s.data()},out{&g,0},[](const auto& a,int b){return num(a)+b;});same(g,o,e);
  }
  {cl();std::unique_copy(wb,we,std::back_inserter(e));auto o=pc::unique_copy<Ts...>(f,l,out{&g,0},eqf{});same(g,o,e);}
#if KIND!=2
  {cl();std::unique_copy(wb,we,std::back_inserter(e));auto o=pc::unique_copy<Ts...>(f,l,out{&g,0});same(g,o,e);}
#endif
  {cl();auto pr=[](int a,int b){return a%2==b%2;};
   std::unique_copy(wb,we,std::back_inserter(e),pr);auto o=pc::unique_copy<Ts...>(f,l,out{&g,0},parf{});same(g,o,e);}
  for(std::size_t m=0;m<=w.size();++m){
    cl();
    std::rotate_copy(wb,wb+(std::ptrdiff_t)m,we,std::back_inserter(e));
    auto mid=std::next(f,(std::ptrdiff_t)m);
    auto o=pc::rotate_copy<Ts...>(f,mid,l,out{&g,0});same(g,o,e);
  }
  for(std::ptrdiff_t n=0;n<=(std::ptrdiff_t)w.size()+1;++n){
    cl();std::mt19937 rg((unsigned)r(1000000));
    auto o=pc::sample<Ts...>(f,l,out{&g,0},n,rg);
    std::size_t k=(std::min)((std::size_t)n,w.size());
    CHK(g.size()==k);CHK(o.n==(long)k);
    /* a subsequence, in order */
    auto it=wb;bool sub=true;
    for(int v:g){it=std::find(it,we,v);if(it==we){sub=false;break;}++it;}
    CHK(sub);
  }
  ++checks;
  (void)i;
}
/* every element has the same chance */
template<typename... Ts> void sampling()
{
  mask()=maskof<Ts...>::v;
  coll c;
  for(int k=0;k<6;++k){c.emplace<A0>(k);c.emplace<A1>(10+k);c.emplace<A2>(20+k);}
  std::vector<int> all;
  {auto sv=mask();mask()=0;for(auto& x:c)all.push_back(num(x));mask()=sv;}
  std::map<int,int> hits;
  std::mt19937 rg(12345);
  const int rounds=3000,n=7;
  for(int q=0;q<rounds;++q){
    std::vector<int> g;pc::sample<Ts...>(c.begin(),c.end(),out{&g,0},(std::ptrdiff_t)n,rg);
    CHK((int)g.size()==n);
    for(int v:g)++hits[v];
  }
  double p=double(n)/double(all.size()),m=rounds*p,sd2=rounds*p*(1-p);
  for(int v:all){double d=hits[v]-m;CHK(d*d<36*sd2);}
}
#endif

void one(std::uint64_t seed)
{
  where()="seed="+std::to_string(seed);
  trace().clear();pending().clear();
  rng r(seed);
  coll c;
  /* registration in random order, some segments left empty */
  int order[5]={0,1,2,3,4};
  for(int q=4;q>0;--q)std::swap(order[q],order[r(q+1)]);
  int nt=1+r(5),range=1+r(3);
  int top=r.chance(70)?4:7;
  std::string d;
  for(int q=0;q<nt;++q){
    int n=r.chance(25)?0:r(top);
    if(c.size()+(std::size_t)n>10)n=0;
    d+=" T"+std::to_string(order[q])+":";
    for(int k=0;k<=n;++k){
      int v=r(range);
      if(k<n)d+=std::to_string(v)+",";
      switch(order[q]){
      case 0:if(k==n)c.register_types<A0>();else c.emplace<A0>(v);break;
      case 1:if(k==n)c.register_types<A1>();else c.emplace<A1>(v);break;
      case 2:if(k==n)c.register_types<A2>();else c.emplace<A2>(v);break;
      case 3:if(k==n)c.register_types<A3>();else c.emplace<A3>(v);break;
      default:if(k==n)c.register_types<A4>();else c.emplace<A4>(v);
      }
    }
  }
  trace().push_back("collection:"+d);
  mask()=0;
  std::vector<int> v;
  for(auto seg:static_cast<const coll&>(c).segment_traversal())for(auto& x:seg)v.push_back(num(x));
  trace().push_back("");
  for(std::size_t i=0;i<=v.size();++i)for(std::size_t j=i;j<=v.size();++j){
    int which=r(8);
    trace().back()="subrange ["+std::to_string(i)+","+std::to_string(j)+") list "+std::to_string(which);
    std::vector<int> w(v.begin()+(std::ptrdiff_t)i,v.begin()+(std::ptrdiff_t)j);
    ctx<coll,coll::iterator> x{c,std::next(c.begin(),(std::ptrdiff_t)i),std::next(c.begin(),(std::ptrdiff_t)j),i,j,v,w};
    ctx<const coll,coll::const_iterator> y{c,std::next(c.cbegin(),(std::ptrdiff_t)i),std::next(c.cbegin(),(std::ptrdiff_t)j),i,j,v,w};
    switch(which){
    case 0:run<>(x,r);break;
    case 1:run<A0>(x,r);break;
    case 2:run<A0,A1,A2>(x,r);break;
    case 3:run<A2,A0>(y,r);break;
    case 4:run<A3,A1>(y,r);break;
    case 5:run<A0,A1,A2,A3,A4>(x,r);break;
    case 6:run<>(y,r);break;
    default:run<A4>(y,r);
    }
    if(!pending().empty()){auto s=pending();pending().clear();fail(PART==14?"C14":"C15",s);}
  }
}
}
int main(int argc,char** argv)
{
  using namespace vn;
  install();
  focus()=argv[1];
  opprops()={PART==14?"C14":"C15"};
  std::uint64_t base=std::strtoull(argv[2],0,10);
  long from=std::atol(argv[3]),to=std::atol(argv[4]);
  for(long n=from;n<to;++n){
    std::printf("AT %ld\n",n);
    try{one(base*1000003ull+(std::uint64_t)n);}catch(const abort_history&){}
  }
#if PART==15
  where()="sampling";trace().clear();
  try{sampling<>();sampling<A0,A1>();}catch(const abort_history&){}
#endif
  std::printf("OK histories=%ld subranges=%ld\n",to-from,checks);
}
