// Bounded stand-in and replay for C13 and C05: look-ups through several
// descriptors of the same types in histories of registration, insertion,
// copy, move, assignment and swap with many types (so that tables grow).
#include "common.hpp"
#define ALLOC vn_alloc
template<typename T> using vn_alloc=vn::acct<T,PROP>;
#include "plain.hpp"
#include <memory>
namespace vn{
enum{NT=40,ND=3};
#define P "C13 C05"
struct ops
{
  const std::type_info* ti;
  std::vector<const std::type_info*> ds;
  void(*reg)(coll&);
  void(*emp)(coll&,int);
  void(*ins)(coll&,int);
  void(*res)(coll&);
  bool(*is)(const coll&);
  const int*(*front)(const coll&);
  std::size_t(*size)(const coll&);
};
template<int I> ops make_ops()
{
  using T=E<I>;
  ops o;
  o.ti=&typeid(T);
  for(int d=0;d<ND;++d)o.ds.push_back(d==0?o.ti:new descriptor(typeid(T)));
  o.reg=[](coll& c){c.register_types<T>();};
  o.emp=[](coll& c,int v){c.emplace<T>(v);};
  o.ins=[](coll& c,int v){T x(v);c.insert(x);};
  o.res=[](coll& c){c.reserve<T>(3);};
  o.is=[](const coll& c){return c.is_registered<T>();};
  o.front=[](const coll& c){return &c.begin<T>()->v;};
  o.size=[](const coll& c){return c.size<T>();};
  return o;
}
std::vector<ops> all;
template<int... I> void make_all(std::integer_sequence<int,I...>){int d[]={(all.push_back(make_ops<I>()),0)...};(void)d;}

struct model{std::map<int,std::vector<int>> m;int id;};

void lookup(coll& c,const model& m,int t,int d)
{
  const coll& cc=c;
  const std::type_info& k=*all[t].ds[d];
  auto it=m.m.find(t);
  bool reg=it!=m.m.end();
  EXPECT(P,cc.is_registered(k)==reg);
  bool threw=false;
  try{
    auto b=c.begin(k);auto e=c.end(k);
    EXPECT(P,reg);
    EXPECT(P,(std::size_t)(e-b)==it->second.size());
    for(std::size_t q=0;q<it->second.size();++q)EXPECT(P,*pval(b[(std::ptrdiff_t)q])==it->second[q]);
    EXPECT(P,cc.size(k)==it->second.size()&&all[t].size(cc)==it->second.size());
    if(it->second.size())EXPECT(P,pval(*cc.begin(k))==all[t].front(cc));
    EXPECT(P,cc.segment(k).type_info()==*all[t].ti);
    EXPECT(P,cc.empty(k)==it->second.empty());
    EXPECT(P,all[t].is(cc));
  }
  catch(const boost::poly_collection::unregistered_type& x){
    threw=true;EXPECT(P,*x.pinfo==*all[t].ti);EXPECT(P,!all[t].is(cc));
  }
  EXPECT(P,threw==!reg);
}
void everything(coll& c,const model& m,rng& r)
{
  for(int t=0;t<NT;++t)lookup(c,m,t,r(ND));
  std::size_t segs=0,n=0;
  for(auto s:static_cast<const coll&>(c).segment_traversal()){(void)s;++segs;}
  for(auto& x:m.m)n+=x.second.size();
  EXPECT(P,segs==m.m.size());
  EXPECT(P,c.size()==n);
}
void one(std::uint64_t seed)
{
  where()="seed="+std::to_string(seed);trace().clear();pending().clear();
  rng r(seed);
  std::unique_ptr<coll> cs[2];model ms[2];
  for(int i=0;i<2;++i){ms[i].id=1+i;cs[i].reset(new coll(ALLOC<value>(ms[i].id)));}
  int len=60,v=0,few=r.chance(50)?NT:3+r(10);
  for(int s=0;s<len;++s){
    int i=r(2);coll& c=*cs[i];coll& o=*cs[1-i];model& m=ms[i];model& mo=ms[1-i];
    int t=r(few);
    std::string L="c"+std::to_string(i)+" type "+std::to_string(t)+" ";
    int op=r(22);
    switch(op){
    case 0:case 1:case 2:trace().push_back(L+"register");all[t].reg(c);m.m[t];break;
    case 3:case 4:trace().push_back(L+"emplace");all[t].emp(c,++v);m.m[t].push_back(v);break;
    case 5:trace().push_back(L+"insert");all[t].ins(c,++v);m.m[t].push_back(v);break;
    case 6:trace().push_back(L+"reserve<T>");all[t].res(c);m.m[t];break;
    case 7:case 8:case 9:{int d=r(ND);trace().push_back(L+"look up through descriptor "+std::to_string(d));lookup(c,m,t,d);break;}
    case 10:trace().push_back("c"+std::to_string(i)+" copy constructed");{std::unique_ptr<coll> p(new coll(o));cs[i]=std::move(p);int id=mo.id;m=mo;m.id=(PROP&8)?id+100:id;}break;
    case 11:trace().push_back("c"+std::to_string(i)+" copy constructed, allocator");{int id=1+r(2);std::unique_ptr<coll> p(new coll(o,ALLOC<value>(id)));cs[i]=std::move(p);m=mo;m.id=id;}break;
    case 12:trace().push_back("c"+std::to_string(i)+" move constructed");{std::unique_ptr<coll> p(new coll(std::move(o)));cs[i]=std::move(p);m=mo;mo.m.clear();}break;
    case 13:trace().push_back("c"+std::to_string(i)+" move constructed, allocator");{int id=1+r(2);std::unique_ptr<coll> p(new coll(std::move(o),ALLOC<value>(id)));cs[i]=std::move(p);m=mo;m.id=id;mo.m.clear();}break;
    case 14:trace().push_back("c"+std::to_string(i)+" copy assigned");c=o;{int id=m.id;m=mo;m.id=(PROP&1)?mo.id:id;}break;
    case 15:trace().push_back("c"+std::to_string(i)+" move assigned");c=std::move(o);{int id=m.id;m=mo;m.id=(PROP&2)?mo.id:id;mo.m.clear();}break;
    case 16:if((PROP&4)||m.id==mo.id){trace().push_back("swap");c.swap(o);std::swap(m,mo);if(!(PROP&4))std::swap(m.id,mo.id);}break;
    case 17:trace().push_back("c"+std::to_string(i)+" clear");c.clear();for(auto& x:m.m)x.second.clear();break;
    case 18:trace().push_back("c"+std::to_string(i)+" insert all of the other");{
      if(m.id<0)break;
      c.insert(o.begin(),o.end());
      for(auto& x:mo.m)if(x.second.size()){auto& y=m.m[x.first];y.insert(y.end(),x.second.begin(),x.second.end());}
      break;}
    case 19:trace().push_back("c"+std::to_string(i)+" self assigned");{coll& q=c;c=q;}break;
    default:{
      int d=r(ND);const std::type_info& k=*all[t].ds[d];
      trace().push_back(L+"clear(descriptor "+std::to_string(d)+")");
      bool threw=false;
      try{c.clear(k);}catch(const boost::poly_collection::unregistered_type&){threw=true;}
      EXPECT(P,threw==!m.m.count(t));
      if(!threw)m.m[t].clear();
    }
    }
    /* a moved-from collection has no known contents except that it is valid */
    if(op==12||op==13||op==15){
      model& s=ms[1-i];coll& q=*cs[1-i];
      s.m.clear();
      for(int u=0;u<NT;++u)if(all[u].is(q)){
        auto& vs=s.m[u];
        for(auto& x:q.segment(*all[u].ti))vs.push_back(*pval(x));
      }
    }
    if(s%4==0||(op>=10&&op<=16)){everything(*cs[0],ms[0],r);everything(*cs[1],ms[1],r);}
    else lookup(*cs[i],ms[i],r(NT),r(ND));
  }
  everything(*cs[0],ms[0],r);everything(*cs[1],ms[1],r);
  cs[0].reset();cs[1].reset();
  if(!pending().empty()){auto s=pending();pending().clear();fail("C10",s);}
  EXPECT("C10",blocks().empty());
}
}
int main(int argc,char** argv)
{
  using namespace vn;
  install();
  make_all(std::make_integer_sequence<int,NT>{});
  focus()=argv[1];opprops()={"C13","C05"};
  std::uint64_t base=std::strtoull(argv[2],0,10);
  long from=std::atol(argv[3]),to=std::atol(argv[4]);
  for(long n=from;n<to;++n){
    std::printf("AT %ld\n",n);
    try{one(base*1000003ull+(std::uint64_t)n);}catch(const abort_history&){blocks().clear();}
    catch(const std::exception& e){try{fail("",std::string("unexpected exception ")+e.what());}catch(const abort_history&){}}
  }
  std::printf("OK histories=%ld\n",to-from);
}
