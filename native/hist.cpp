// Bounded stand-in and replay: random histories of operations on collections
// with fault injection, checked step by step against a plain model.
#include "kinds.hpp"
#include <algorithm>
#include <iterator>
#include <memory>

namespace vn{

struct model
{
  bool reg[NT]={};
  std::vector<int> vals[NT];
  int id=0;
  std::size_t total()const{std::size_t n=0;for(auto& v:vals)n+=v.size();return n;}
};

template<typename F> bool throws_unregistered(const std::type_info& ti,F f)
{
  try{f();}
  catch(const boost::poly_collection::unregistered_type& e){return *e.pinfo==ti;}
  return false;
}

/* ---- validation of one collection through every access path ---- */
void validate(coll& c,model& m,bool resync,bool deep)
{
  const coll& cc=c;
  if(!pending().empty()){auto s=pending();pending().clear();fail(pending_props(),s);}
  std::size_t total=0,nreg=0;
  std::vector<const core*> paths[NT];
  for(int t=0;t<NT;++t)with_type(t,[&](auto g){
    using T=typename decltype(g)::type;
    bool r=cc.template is_registered<T>();
    EXPECT("C05 C13",r==cc.is_registered(typeid(T)));
    if(resync)m.reg[t]=r;
    EXPECT("C05 C13",r==m.reg[t]);
    if(!r){
      if(resync)m.vals[t].clear();
      if(deep){
        EXPECT("C05 C13",throws_unregistered(typeid(T),[&]{(void)cc.size(typeid(T));}));
        EXPECT("C05 C13",throws_unregistered(typeid(T),[&]{(void)cc.template begin<T>();}));
        EXPECT("C05 C13",throws_unregistered(typeid(T),[&]{(void)c.begin(typeid(T));}));
        EXPECT("C05 C13",throws_unregistered(typeid(T),[&]{(void)cc.segment(typeid(T));}));
      }
      return;
    }
    ++nreg;
    std::size_t n=cc.template size<T>();
    EXPECT("C02",n==cc.size(typeid(T)));
    EXPECT("C02 C12",std::ptrdiff_t(n)==cc.template end<T>()-cc.template begin<T>());
    EXPECT("C02 C12",std::ptrdiff_t(n)==cc.end(typeid(T))-cc.begin(typeid(T)));
    EXPECT("C02 C12",std::ptrdiff_t(n)==c.template end<T>()-c.template begin<T>());
    EXPECT("C02 C12",std::ptrdiff_t(n)==c.end(typeid(T))-c.begin(typeid(T)));
    EXPECT("C02",(n==0)==cc.template empty<T>()&&(n==0)==cc.empty(typeid(T)));
    EXPECT("C09",cc.template capacity<T>()==cc.capacity(typeid(T)));
    EXPECT("C09",cc.template capacity<T>()>=n);
    EXPECT("C09",cc.template max_size<T>()>=n&&cc.max_size(typeid(T))==cc.template max_size<T>());
    if(resync){
      m.vals[t].clear();
      for(std::size_t k=0;k<n;++k){
        const T& x=cc.template begin<T>()[(std::ptrdiff_t)k];
        EXPECT("C01 C10",core::alive(pcore_of(x)));
        m.vals[t].push_back(x.v);
      }
    }
    EXPECT("",n==m.vals[t].size());
    total+=n;
    auto tb=cc.template begin<T>();auto bb=cc.begin(typeid(T));
    auto ntb=c.template begin<T>();auto nbb=c.begin(typeid(T));
    auto sb=cc.segment(typeid(T)).begin();auto stb=c.template segment<T>().begin();
    for(std::size_t k=0;k<n;++k){
      std::ptrdiff_t d=(std::ptrdiff_t)k;
      const T& x=tb[d];
      const core* p=pcore_of(x);
      EXPECT("C01 C10",core::alive(p));
      EXPECT("C01",reinterpret_cast<std::uintptr_t>(&x)%alignof(T)==0);
      const core* q=pcore(bb[d]);
      EXPECT("C01",q==p);
      EXPECT("C01",tid(bb[d])==typeid(T));
      EXPECT("C01",pcore_of(ntb[d])==p&&pcore(nbb[d])==p);
      EXPECT("C01",pcore(sb[d])==p&&pcore_of(stb[d])==p);
      EXPECT("C01 C12",pcore(*(bb+d))==p&&pcore_of(*(tb+d))==p);
      EXPECT("",x.v==m.vals[t][k]);
      paths[t].push_back(p);
    }
    if(deep){
      std::size_t k=0;
      for(auto it=cc.begin(typeid(T)),e=cc.end(typeid(T));it!=e;++it,++k){
        EXPECT("C02",k<n);EXPECT("C01 C02",pcore(*it)==paths[t][k]);
        EXPECT("C12",pcore_of(*static_cast<typename coll::template const_local_iterator<T>>(it))==paths[t][k]);
      }
      EXPECT("C02",k==n);
      k=0;
      for(auto it=c.template begin<T>(),e=c.template end<T>();it!=e;++it,++k){
        EXPECT("C02",k<n);EXPECT("C01 C02",pcore_of(*it)==paths[t][k]);
        typename coll::local_base_iterator bi{it};
        EXPECT("C12",pcore(*bi)==paths[t][k]);
      }
      EXPECT("C02",k==n);
    }
  });
  /* segments, then the whole */
  std::vector<const core*> flat;
  std::vector<bool> seen(NT,false);
  std::size_t nseg=0;
  for(auto seg:cc.segment_traversal()){
    int t=tindex(seg.type_info());
    EXPECT("C02 C05",t>=0);
    EXPECT("C02 C05",!seen[t]);
    seen[t]=true;++nseg;
    std::size_t k=0;
    for(auto it=seg.begin();it!=seg.end();++it,++k){
      EXPECT("C02",k<paths[t].size());
      EXPECT("C01 C02",pcore(*it)==paths[t][k]);
      flat.push_back(paths[t][k]);
    }
    EXPECT("C02",k==paths[t].size());
  }
  EXPECT("C02 C05",nseg==nreg);
  std::size_t k=0;
  for(auto it=cc.begin();it!=cc.end();++it,++k){
    EXPECT("C02",k<flat.size());
    EXPECT("C01 C02",pcore(*it)==flat[k]);
  }
  EXPECT("C02",k==flat.size());
  if(deep){
    k=0;
    for(auto it=c.begin();it!=c.end();++it,++k){
      EXPECT("C02",k<flat.size());
      EXPECT("C01 C02",pcore(*it)==flat[k]);
      coll::const_iterator ci=it;
      EXPECT("C12",pcore(*ci)==flat[k]);
      EXPECT("C02 C12",it!=c.begin()||k==0);
    }
    EXPECT("C02",k==flat.size());
    k=0;
    for(auto seg:c.segment_traversal())for(auto& x:seg){(void)x;++k;}
    EXPECT("C02",k==flat.size());
  }
  EXPECT("C02",total==cc.size());
  EXPECT("C02",total==flat.size());
  EXPECT("C02",cc.empty()==(total==0));
  if(resync)m.id=cc.get_allocator().id;
  EXPECT("C06 C10",cc.get_allocator().id==m.id);
}

/* order of positions in traversal */
struct pos{int t;int k;};
std::vector<pos> flatten(const coll& c)
{
  std::vector<pos> r;
  for(auto seg:c.segment_traversal()){
    int t=tindex(seg.type_info()),k=0;
    for(auto it=seg.begin();it!=seg.end();++it)r.push_back({t,k++});
  }
  return r;
}
std::vector<int> seg_order(const coll& c)
{
  std::vector<int> r;
  for(auto seg:c.segment_traversal())r.push_back(tindex(seg.type_info()));
  return r;
}
const core* addr(const coll& c,int t,std::size_t k)
{
  const core* p=nullptr;
  with_type(t,[&](auto g){
    using T=typename decltype(g)::type;
    p=pcore_of(c.template begin<T>()[(std::ptrdiff_t)k]);
  });
  return p;
}

template<typename T> struct input_it
{
  using iterator_category=std::input_iterator_tag;
  using value_type=T;using difference_type=std::ptrdiff_t;using pointer=const T*;using reference=const T&;
  const T* p;
  const T& operator*()const{return *p;}
  const T* operator->()const{return p;}
  input_it& operator++(){++p;return *this;}
  input_it operator++(int){auto r=*this;++p;return r;}
  bool operator==(const input_it& x)const{return p==x.p;}
  bool operator!=(const input_it& x)const{return p!=x.p;}
};
/* range of references to elements of unrelated types */
struct ref_it
{
  using iterator_category=std::forward_iterator_tag;
  using value_type=vn::value;using difference_type=std::ptrdiff_t;using pointer=const vn::value*;using reference=const vn::value&;
  const vn::value* const* p;
  reference operator*()const{return **p;}
  ref_it& operator++(){++p;return *this;}
  ref_it operator++(int){auto r=*this;++p;return r;}
  bool operator==(const ref_it& x)const{return p==x.p;}
  bool operator!=(const ref_it& x)const{return p!=x.p;}
};

struct history
{
  rng r;
  long inject_op,inject_k;
  long opno=0;
  bool fired_any=false;
  std::unique_ptr<coll> cs[2];
  model ms[2];
  int next_val=1;
  int ntypes;          /* types in use: first ntypes of a permutation */
  int perm[NT];
  bool resync[2]={false,false};

  history(std::uint64_t seed,long io,long ik):r(seed),inject_op(io),inject_k(ik)
  {
    for(int i=0;i<NT;++i)perm[i]=i;
    for(int i=NT-1;i>0;--i)std::swap(perm[i],perm[r(i+1)]);
    ntypes=1+r(NT);
    if(r.chance(40)){ /* copyable types only */
      int j=0;for(int i=0;i<NT;++i)if(is_copyable(perm[i]))perm[j++]=perm[i];
      perm[j]=3;if(ntypes>NT-1)ntypes=NT-1;
    }
    for(int i=0;i<2;++i){
      ms[i].id=1+(i&&r.chance(60)?1:0);
      cs[i].reset(new coll(acct<value,PROP>(ms[i].id)));
    }
  }

  void log(const std::string& s){trace().push_back("#"+std::to_string(opno)+" "+s);}
  void props(const char* s){opprops()=split(s);}

  /* runs f, possibly with an injected failure; true if it completed */
  template<typename F> bool go(F&& f)
  {
    if(opno==inject_op){inj().armed=true;inj().count=inject_k;inj().fired=false;}
    try{f();inj().armed=false;return true;}
    catch(const injected&){
      inj().armed=false;fired_any=true;
      log("   ... failed (injected)");
      opprops().insert("C08");
      resync[0]=resync[1]=true;
      return false;
    }
    catch(...){inj().armed=false;throw;}
  }

  int pick_type(){return perm[r(ntypes)];}
  int val(){return next_val++;}

  template<typename It>
  void check_ret(coll& c,It it,int t,std::size_t k,const char* extra="")
  {
    /* it must designate element k of type t, or what follows it */
    if(k<ms_of(c).vals[t].size()){
      EXPECT(extra,it!=c.end());
      EXPECT(extra,pcore(*it)==addr(c,t,k));
      /* and go on from there in traversal order */
      auto f=flatten(c);
      std::size_t i=0;while(i<f.size()&&!(f[i].t==t&&f[i].k==(int)k))++i;
      std::size_t left=0;for(auto jt=it;jt!=c.end();++jt){EXPECT("C02",left<f.size());++left;}
      EXPECT("C02",left==f.size()-i);
    }
  }
  model& ms_of(coll& c){return &c==cs[0].get()?ms[0]:ms[1];}

  void step()
  {
    int i=r(2);
    coll& c=*cs[i];coll& o=*cs[1-i];
    model& m=ms[i];model& mo=ms[1-i];
    int t=pick_type();
    std::string L="c"+std::to_string(i)+" T"+std::to_string(t)+" ";
    int op=r(100);
    if(opno<4&&op>=60)op=r(40);
    if(op<45)insert_op(i,c,m,o,mo,t,L);
    else if(op<62)erase_op(i,c,m,t,L);
    else if(op<72)capacity_op(i,c,m,t,L);
    else if(op<77)register_op(i,c,m,t,L);
    else if(op<93)transfer_op(i,c,m,o,mo,L);
    else if(op<97)equal_op(c,m,o,mo,L);
    else write_op(c,m,t,L);
  }

  std::vector<const core*> addresses(coll& c,int t)
  {
    std::vector<const core*> v;
    with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      if(c.template is_registered<T>())for(auto& x:c.template segment<T>())v.push_back(pcore_of(x));
    });
    return v;
  }

  void insert_op(int i,coll& c,model& m,coll& o,model& mo,int t,std::string L)
  {
    (void)i;
    props("C03");
    int form=r(24);
    with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      constexpr bool cp=copyable<T>::value;
      bool had=m.reg[t];
      std::size_t n=m.vals[t].size();
      std::size_t cap=had?c.template capacity<T>():0;
      auto before=addresses(c,t);
      auto order=flatten(c);
      auto done_at_end=[&](const char* what){
        (void)what;
        if(had&&n<cap){
          auto a=addresses(c,t);
          EXPECT("C09",a.size()>=n);
          for(std::size_t k=0;k<n;++k)EXPECT("C09",a[k]==before[k]);
        }
      };
      auto put=[&](std::size_t k,int v){m.reg[t]=true;m.vals[t].insert(m.vals[t].begin()+(std::ptrdiff_t)k,v);};
      /* a hint: global position h, or end */
      std::size_t h=order.empty()?0:(std::size_t)r((int)order.size()+1);
      coll::const_iterator hint=std::next(c.cbegin(),(std::ptrdiff_t)h);
      std::size_t hk=h<order.size()&&order[h].t==t?(std::size_t)order[h].k:n;
      std::size_t k=(std::size_t)r((int)n+1);
      int v=val();
      switch(form){
      case 0:case 1:{
        log(L+"emplace<T>("+std::to_string(v)+")");
        coll::iterator it;
        if(!go([&]{it=c.template emplace<T>(v);}))return;
        put(n,v);check_ret(c,it,t,n);done_at_end("emplace");
        break;}
      case 2:{
        log(L+"emplace_hint<T>(pos "+std::to_string(h)+","+std::to_string(v)+")");
        coll::iterator it;
        if(!go([&]{it=c.template emplace_hint<T>(hint,v);}))return;
        put(hk,v);check_ret(c,it,t,hk);if(hk==n)done_at_end("hint");
        break;}
      case 3:{
        if(!had)return;
        log(L+"emplace_pos<T>(base local "+std::to_string(k)+","+std::to_string(v)+")");
        typename coll::local_base_iterator it;
        bool cst=r.chance(50);
        if(!go([&]{
          if(cst)it=c.template emplace_pos<T>(c.cbegin(typeid(T))+(std::ptrdiff_t)k,v);
          else it=c.template emplace_pos<T>(c.begin(typeid(T))+(std::ptrdiff_t)k,v);}))return;
        put(k,v);
        EXPECT("",it-c.begin(typeid(T))==(std::ptrdiff_t)k);
        EXPECT("C01",pcore(*it)==addr(c,t,k));if(k==n)done_at_end("pos");
        break;}
      case 4:{
        if(!had)return;
        log(L+"emplace_pos(local "+std::to_string(k)+","+std::to_string(v)+")");
        typename coll::template local_iterator<T> it;
        bool cst=r.chance(50);
        if(!go([&]{
          if(cst)it=c.emplace_pos(c.template cbegin<T>()+(std::ptrdiff_t)k,v);
          else it=c.emplace_pos(c.template begin<T>()+(std::ptrdiff_t)k,v);}))return;
        put(k,v);
        EXPECT("",it-c.template begin<T>()==(std::ptrdiff_t)k);
        EXPECT("C01",pcore_of(*it)==addr(c,t,k));if(k==n)done_at_end("pos");
        break;}
      case 5:{
        log(L+"insert(T&& "+std::to_string(v)+")");
        coll::iterator it;
        {T x(v);if(!go([&]{it=c.insert(std::move(x));}))return;}
        put(n,v);check_ret(c,it,t,n);done_at_end("insert");
        break;}
      case 6:{
        if constexpr(cp){
          log(L+"insert(const T& "+std::to_string(v)+")");
          coll::iterator it;
          {T x(v);const T& y=x;if(!go([&]{it=c.insert(y);}))return;EXPECT("",x.v==v);}
          put(n,v);check_ret(c,it,t,n);done_at_end("insert");
        }
        break;}
      case 7:{
        log(L+"insert(hint "+std::to_string(h)+",T "+std::to_string(v)+")");
        coll::iterator it;
        {T x(v);
        if constexpr(cp){
          bool mv=r.chance(50);
          if(!go([&]{if(mv)it=c.insert(hint,std::move(x));else it=c.insert(hint,x);}))return;
        }
        else if(!go([&]{it=c.insert(hint,std::move(x));}))return;}
        put(hk,v);check_ret(c,it,t,hk);if(hk==n)done_at_end("hint");
        break;}
      case 8:{
        if(!had)return;
        log(L+"insert(base local "+std::to_string(k)+",T "+std::to_string(v)+")");
        typename coll::local_base_iterator it;
        {T x(v);
        if constexpr(cp){
          int w=r(4);
          if(!go([&]{
            switch(w){
            case 0:it=c.insert(c.begin(typeid(T))+(std::ptrdiff_t)k,x);break;
            case 1:it=c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,x);break;
            case 2:it=c.insert(c.begin(typeid(T))+(std::ptrdiff_t)k,std::move(x));break;
            default:it=c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,std::move(x));
            }}))return;
        }
        else if(!go([&]{it=c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,std::move(x));}))return;}
        put(k,v);
        EXPECT("",it-c.begin(typeid(T))==(std::ptrdiff_t)k);
        EXPECT("C01",pcore(*it)==addr(c,t,k));if(k==n)done_at_end("pos");
        break;}
      case 9:{
        if(!had)return;
        log(L+"insert(local "+std::to_string(k)+",T "+std::to_string(v)+")");
        typename coll::template local_iterator<T> it;
        {T x(v);
        if constexpr(cp){
          int w=r(4);
          if(!go([&]{
            switch(w){
            case 0:it=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,x);break;
            case 1:it=c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,x);break;
            case 2:it=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,std::move(x));break;
            default:it=c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,std::move(x));
            }}))return;
        }
        else if(!go([&]{it=c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,std::move(x));}))return;}
        put(k,v);
        EXPECT("",it-c.template begin<T>()==(std::ptrdiff_t)k);
        EXPECT("C01",pcore_of(*it)==addr(c,t,k));if(k==n)done_at_end("pos");
        break;}
      case 10:case 11:{ /* an element of the collection itself, by reference */
        if(n==0)return;
        std::size_t a=(std::size_t)r((int)n);
        int av=m.vals[t][a];
        int w=r(8);
        log(L+"insert own element "+std::to_string(a)+" form "+std::to_string(w)+" at "+std::to_string(k)+" hint "+std::to_string(h));
        bool threw=false;
        coll::iterator it;
        std::size_t at=n;
        try{
          if(!go([&]{
            const value& b=*(c.cbegin(typeid(T))+(std::ptrdiff_t)a);
            switch(w){
            case 0:it=c.insert(b);at=n;break;
            case 1:it=c.insert(hint,b);at=hk;break;
            case 2:c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,b);at=k;break;
            case 3:c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,b);at=k;break;
            default:
              if constexpr(cp){
                const T& y=*(c.template cbegin<T>()+(std::ptrdiff_t)a);
                switch(w){
                case 4:it=c.insert(y);at=n;break;
                case 5:c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,y);at=k;break;
                case 6:it=c.template emplace<T>(y);at=n;break;
                default:c.emplace_pos(c.template cbegin<T>()+(std::ptrdiff_t)k,y);at=k;
                }
              }
              else{it=c.insert(b);at=n;}
            }}))return;
        }
        catch(const boost::poly_collection::not_copy_constructible& e){
          threw=true;
          EXPECT("C11",*e.pinfo==typeid(T));
        }
        if(!cp)opprops().insert("C11");
        EXPECT("C11",threw==!cp);
        if(cp){put(at,av);if(at==n)done_at_end("own");}
        break;}
      case 12:case 13:{ /* an element of the other collection */
        if(mo.vals[t].empty())return;
        std::size_t a=(std::size_t)r((int)mo.vals[t].size());
        int av=mo.vals[t][a];
        int w=r(4);
        log(L+"insert element "+std::to_string(a)+" of the other, form "+std::to_string(w)+" at "+std::to_string(k));
        bool threw=false,unreg=false;
        std::size_t at=n;coll::iterator it;
        try{
          if(!go([&]{
            const value& b=*(o.cbegin(typeid(T))+(std::ptrdiff_t)a);
            switch(had?w:w%2){
            case 0:it=c.insert(b);break;
            case 1:it=c.insert(hint,b);at=hk;break;
            case 2:c.insert(c.begin(typeid(T))+(std::ptrdiff_t)k,b);at=k;break;
            default:c.insert(c.template begin<T>()+(std::ptrdiff_t)k,b);at=k;break;
            }}))return;
        }
        catch(const boost::poly_collection::not_copy_constructible& e){
          threw=true;EXPECT("C11",*e.pinfo==typeid(T));
        }
        catch(const boost::poly_collection::unregistered_type& e){
          unreg=true;EXPECT("C05",*e.pinfo==typeid(T));
        }
        if(!cp)opprops().insert("C11");
        if(!had)opprops().insert("C05");
        EXPECT("C05",unreg==!had);
        if(had){
          EXPECT("C11",threw==!cp);
          if(cp)put(at,av);
        }
        break;}
      case 14:case 15:{ /* ranges of T */
        std::vector<T> xs;std::vector<int> vs;
        int cnt=r(5);
        xs.reserve((std::size_t)cnt);
        for(int q=0;q<cnt;++q){vs.push_back(val());xs.emplace_back(vs.back());}
        int w=r(10);
        log(L+"insert range of "+std::to_string(cnt)+" form "+std::to_string(w)+" at "+std::to_string(k)+" hint "+std::to_string(h));
        std::size_t at=n;
        bool ok=true;
        std::ptrdiff_t ret=-1;
        auto mb=std::make_move_iterator(xs.begin()),me=std::make_move_iterator(xs.end());
        if constexpr(cp){
          input_it<T> ib{xs.data()},ie{xs.data()+xs.size()};
          ok=go([&]{
            switch(had?w:w%4){
            case 0:c.insert(xs.begin(),xs.end());break;
            case 1:c.insert(ib,ie);break;
            case 2:c.insert(hint,xs.cbegin(),xs.cend());at=hk;break;
            case 3:c.insert(hint,ib,ie);at=hk;break;
            case 4:ret=c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,xs.begin(),xs.end())-c.begin(typeid(T));at=k;break;
            case 5:ret=c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,xs.begin(),xs.end())-c.template begin<T>();at=k;break;
            case 6:ret=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,ib,ie)-c.template begin<T>();at=k;break;
            case 7:ret=c.insert(c.begin(typeid(T))+(std::ptrdiff_t)k,ib,ie)-c.begin(typeid(T));at=k;break;
            case 8:ret=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,vs.begin(),vs.end())-c.template begin<T>();at=k;break; /* emplacing */
            default:c.insert(mb,me);
            }});
        }
        else ok=go([&]{
            if(had&&w<3){ret=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,vs.begin(),vs.end())-c.template begin<T>();at=k;}
            else if(w<7)c.insert(mb,me);
            else{c.insert(hint,mb,me);at=hk;}});
        if(!ok)return;
        if(cnt){m.reg[t]=true;m.vals[t].insert(m.vals[t].begin()+(std::ptrdiff_t)at,vs.begin(),vs.end());}
        if(ret>=0)EXPECT("",ret==(std::ptrdiff_t)at);
        break;}
      case 16:case 17:{ /* global range of the other */
        auto of=flatten(o);
        std::size_t a=(std::size_t)r((int)of.size()+1),b=a+(std::size_t)r((int)(of.size()-a)+1);
        int w=r(4);
        log(L+"insert other's ["+std::to_string(a)+","+std::to_string(b)+") form "+std::to_string(w)+" hint "+std::to_string(h));
        bool threw=false,unreg=false;
        std::vector<const value*> refs;
        for(std::size_t q=a;q<b;++q)refs.push_back(&*std::next(o.cbegin(),(std::ptrdiff_t)q));
        try{
          if(!go([&]{
            auto f=std::next(o.begin(),(std::ptrdiff_t)a),l=std::next(o.begin(),(std::ptrdiff_t)b);
            coll::const_iterator cf=f,cl=l;
            switch(w){
            case 0:c.insert(f,l);break;
            case 1:c.insert(cf,cl);break;
            case 2:c.insert(hint,f,l);break;
            default:c.insert(ref_it{refs.data()},ref_it{refs.data()+refs.size()});
            }}))return;
        }
        catch(const boost::poly_collection::not_copy_constructible& e){threw=true;EXPECT("C11",*e.pinfo==typeid(T3));}
        catch(const boost::poly_collection::unregistered_type& e){
          unreg=true;EXPECT("C05",tindex(*e.pinfo)>=0&&!m.reg[tindex(*e.pinfo)]);
        }
        /* model */
        int ht=h<order.size()?order[h].t:-1;
        std::size_t hp=h<order.size()?(std::size_t)order[h].k:0;
        bool stop=false,exp_threw=false,exp_unreg=false;
        for(std::size_t q=a;q<b&&!stop;++q){
          int tt=of[q].t;int vv=mo.vals[tt][(std::size_t)of[q].k];
          if(w==3&&!m.reg[tt]){exp_unreg=stop=true;break;}
          m.reg[tt]=true;
          if(!is_copyable(tt)){exp_threw=stop=true;break;}
          if(w==2&&tt==ht){m.vals[tt].insert(m.vals[tt].begin()+(std::ptrdiff_t)hp,vv);++hp;}
          else m.vals[tt].push_back(vv);
        }
        if(exp_threw)opprops().insert("C11");
        if(exp_unreg)opprops().insert("C05");
        EXPECT("C11",threw==exp_threw);EXPECT("C05",unreg==exp_unreg);
        break;}
      case 18:case 19:{ /* local range of the other */
        if(!mo.reg[t])return;
        std::size_t on=mo.vals[t].size();
        std::size_t a=(std::size_t)r((int)on+1),b=a+(std::size_t)r((int)(on-a)+1);
        int w=r(6);
        log(L+"insert other's local ["+std::to_string(a)+","+std::to_string(b)+") form "+std::to_string(w)+" at "+std::to_string(k)+" hint "+std::to_string(h));
        bool threw=false;
        std::size_t at=n;std::ptrdiff_t ret=-1;
        std::ptrdiff_t da=(std::ptrdiff_t)a,db=(std::ptrdiff_t)b;
        try{
          if(!go([&]{
            switch(had?w:w%3){
            case 0:c.insert(o.begin(typeid(T))+da,o.begin(typeid(T))+db);break;
            case 1:if constexpr(cp)c.insert(o.template cbegin<T>()+da,o.template cbegin<T>()+db);
                   else c.insert(o.cbegin(typeid(T))+da,o.cbegin(typeid(T))+db);break;
            case 2:c.insert(hint,o.begin(typeid(T))+da,o.begin(typeid(T))+db);at=hk;break;
            case 3:ret=c.insert(c.cbegin(typeid(T))+(std::ptrdiff_t)k,o.begin(typeid(T))+da,o.begin(typeid(T))+db)-c.begin(typeid(T));at=k;break;
            case 4:ret=c.insert(c.template cbegin<T>()+(std::ptrdiff_t)k,o.begin(typeid(T))+da,o.begin(typeid(T))+db)-c.template begin<T>();at=k;break;
            default:
              if constexpr(cp){ret=c.insert(c.template begin<T>()+(std::ptrdiff_t)k,o.template begin<T>()+da,o.template begin<T>()+db)-c.template begin<T>();at=k;}
              else c.insert(o.begin(typeid(T))+da,o.begin(typeid(T))+db);
            }}))return;
        }
        catch(const boost::poly_collection::not_copy_constructible& e){threw=true;EXPECT("C11",*e.pinfo==typeid(T));}
        if(!cp)opprops().insert("C11");
        EXPECT("C11",threw==(!cp&&a<b));
        if(a<b)m.reg[t]=true;
        if(!threw){
          std::vector<int> vs(mo.vals[t].begin()+da,mo.vals[t].begin()+db);
          m.vals[t].insert(m.vals[t].begin()+(std::ptrdiff_t)at,vs.begin(),vs.end());
          if(ret>=0)EXPECT("",ret==(std::ptrdiff_t)at);
        }
        break;}
      case 20:{ /* a T5 seen as a T0 */
#if KIND==0
        bool reg5=m.reg[5];
        log("c"+std::to_string(i)+" insert(T0& that is a T5, "+std::to_string(v)+")");
        bool unreg=false;
        try{
          T5 x(v);T0& y=x;bool mv=r.chance(50);
          if(!go([&]{if(mv)c.insert(std::move(y));else c.insert(y);}))return;
        }
        catch(const boost::poly_collection::unregistered_type& e){unreg=true;EXPECT("C05",*e.pinfo==typeid(T5));}
        opprops().insert("C05");
        EXPECT("C05",unreg==!reg5);
        if(reg5)m.vals[5].push_back(v);
#endif
        break;}
      case 21:{ /* moving out of the other by reference */
        if(mo.vals[t].empty()||!had)return;
        std::size_t a=(std::size_t)r((int)mo.vals[t].size());
        int av=mo.vals[t][a];
        log(L+"insert(move of other's element "+std::to_string(a)+")");
#if KIND==2
        return;
#else
        bool pos=r.chance(50);
        if(!go([&]{
          if(pos)c.insert(c.begin(typeid(T))+(std::ptrdiff_t)k,std::move(o.begin(typeid(T))[(std::ptrdiff_t)a]));
          else c.insert(std::move(o.begin(typeid(T))[(std::ptrdiff_t)a]));}))return;
        put(pos?k:n,av);
        mo.vals[t][a]=MOVED;
        break;
#endif
        }
      case 22:{ /* construct from a range */
        if constexpr(cp){
          log(L+"construct from range and swap contents in");
          std::vector<T> xs;std::vector<int> vs;int cnt=r(4);
          xs.reserve((std::size_t)cnt);
          for(int q=0;q<cnt;++q){vs.push_back(val());xs.emplace_back(vs.back());}
          std::unique_ptr<coll> p;
          if(!go([&]{p.reset(new coll(xs.begin(),xs.end(),acct<value,PROP>(m.id)));}))return;
          model nm;nm.id=m.id;if(cnt)nm.reg[t]=true;nm.vals[t]=vs;
          cs[i]=std::move(p);m=nm;
        }
        break;}
      default:{ /* fill up to capacity and one more, no relocation before */
        if(!had)return;
        log(L+"fill to capacity");
        std::size_t q=n;
        while(q<cap&&q<n+12){
          int vv=val();
          if(!go([&]{c.template emplace<T>(vv);}))return;
          put(q,vv);++q;
          done_at_end("fill");
          EXPECT("C09",c.template capacity<T>()==cap);
        }
      }
      }
    });
  }

  void erase_op(int i,coll& c,model& m,int t,std::string L)
  {
    props("C04");
    auto f=flatten(c);
    auto so=seg_order(c);
    int form=r(12);
    std::string C="c"+std::to_string(i)+" ";
    auto check_global=[&](coll::iterator it,std::size_t kept){
      /* kept: number of elements after the erased ones */
      std::size_t left=0;
      EXPECT("",seg_order(c)==so);
      auto nf=flatten(c);
      EXPECT("C02",kept<=nf.size());
      if(kept==0)EXPECT("",it==c.end());
      else{
        EXPECT("",it!=c.end());
        pos p=nf[nf.size()-kept];
        EXPECT("",pcore(*it)==addr(c,p.t,(std::size_t)p.k));
      }
      for(auto jt=it;jt!=c.end();++jt){++left;EXPECT("C02",left<=nf.size());}
      EXPECT("C02",left==kept);
    };
    switch(form){
    case 0:case 1:{
      if(f.empty())return;
      std::size_t a=(std::size_t)r((int)f.size());
      log(C+"erase(global "+std::to_string(a)+")");
      coll::iterator it;
      if(!go([&]{it=c.erase(std::next(c.cbegin(),(std::ptrdiff_t)a));}))return;
      m.vals[f[a].t].erase(m.vals[f[a].t].begin()+f[a].k);
      check_global(it,f.size()-a-1);
      break;}
    case 2:case 3:case 4:{
      std::size_t a=(std::size_t)r((int)f.size()+1),b=a+(std::size_t)r((int)(f.size()-a)+1);
      log(C+"erase(global ["+std::to_string(a)+","+std::to_string(b)+"))");
      coll::iterator it;
      if(!go([&]{it=c.erase(std::next(c.cbegin(),(std::ptrdiff_t)a),std::next(c.cbegin(),(std::ptrdiff_t)b));}))return;
      for(std::size_t q=b;q-->a;)m.vals[f[q].t].erase(m.vals[f[q].t].begin()+f[q].k);
      check_global(it,f.size()-b);
      break;}
    case 5:case 6:{
      std::size_t n=m.vals[t].size();
      if(!n)return;
      std::size_t a=(std::size_t)r((int)n);
      int w=r(4);
      log(L+"erase(local "+std::to_string(a)+") form "+std::to_string(w));
      with_type(t,[&](auto g){
        using T=typename decltype(g)::type;
        std::ptrdiff_t ret=-1,d=(std::ptrdiff_t)a;
        if(!go([&]{
          switch(w){
          case 0:ret=c.erase(c.begin(typeid(T))+d)-c.begin(typeid(T));break;
          case 1:ret=c.erase(c.cbegin(typeid(T))+d)-c.begin(typeid(T));break;
          case 2:ret=c.erase(c.template begin<T>()+d)-c.template begin<T>();break;
          default:ret=c.erase(c.template cbegin<T>()+d)-c.template begin<T>();
          }}))return;
        m.vals[t].erase(m.vals[t].begin()+d);
        EXPECT("",ret==d);EXPECT("",seg_order(c)==so);
      });
      break;}
    case 7:case 8:{
      if(!m.reg[t])return;
      std::size_t n=m.vals[t].size();
      std::size_t a=(std::size_t)r((int)n+1),b=a+(std::size_t)r((int)(n-a)+1);
      int w=r(4);
      log(L+"erase(local ["+std::to_string(a)+","+std::to_string(b)+")) form "+std::to_string(w));
      with_type(t,[&](auto g){
        using T=typename decltype(g)::type;
        std::ptrdiff_t ret=-1,d=(std::ptrdiff_t)a,e=(std::ptrdiff_t)b;
        if(!go([&]{
          switch(w){
          case 0:ret=c.erase(c.begin(typeid(T))+d,c.begin(typeid(T))+e)-c.begin(typeid(T));break;
          case 1:ret=c.erase(c.cbegin(typeid(T))+d,c.cbegin(typeid(T))+e)-c.begin(typeid(T));break;
          case 2:ret=c.erase(c.template begin<T>()+d,c.template begin<T>()+e)-c.template begin<T>();break;
          default:ret=c.erase(c.template cbegin<T>()+d,c.template cbegin<T>()+e)-c.template begin<T>();
          }}))return;
        m.vals[t].erase(m.vals[t].begin()+d,m.vals[t].begin()+e);
        EXPECT("",ret==d);EXPECT("",seg_order(c)==so);
      });
      break;}
    case 9:
      if(!r.chance(30))return;
      log(C+"clear()");
      if(!go([&]{c.clear();}))return;
      for(auto& v:m.vals)v.clear();
      EXPECT("",seg_order(c)==so);
      break;
    case 10:
      if(!m.reg[t])return;
      log(L+"clear(type_info)");
      if(!go([&]{c.clear(tinfo(t));}))return;
      m.vals[t].clear();
      break;
    default:
      if(!m.reg[t])return;
      log(L+"clear<T>()");
      with_type(t,[&](auto g){
        using T=typename decltype(g)::type;
        if(!go([&]{c.template clear<T>();}))return;
        m.vals[t].clear();
      });
    }
  }

  void capacity_op(int i,coll& c,model& m,int t,std::string L)
  {
    props("C09");
    int form=r(6);
    std::string C="c"+std::to_string(i)+" ";
    with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      std::size_t oldcap[NT]={};
      for(int q=0;q<NT;++q)if(m.reg[q])oldcap[q]=c.capacity(tinfo(q));
      std::size_t n=(std::size_t)r(12);
      if(r.chance(50)&&m.reg[t])n=c.template size<T>()+(std::size_t)r(4);
      auto a=addresses(c,t);
      switch(form){
      case 0:
        log(C+"reserve("+std::to_string(n)+")");
        if(!go([&]{c.reserve(n);}))return;
        for(int q=0;q<NT;++q)if(m.reg[q])EXPECT("",c.capacity(tinfo(q))>=n&&c.capacity(tinfo(q))>=oldcap[q]);
        break;
      case 1:
        if(!m.reg[t])return;
        log(L+"reserve(type_info,"+std::to_string(n)+")");
        if(!go([&]{c.reserve(typeid(T),n);}))return;
        EXPECT("",c.template capacity<T>()>=n&&c.template capacity<T>()>=oldcap[t]);
        if(n<=oldcap[t])EXPECT("",addresses(c,t)==a);
        break;
      case 2:
        log(L+"reserve<T>("+std::to_string(n)+")");
        if(!go([&]{c.template reserve<T>(n);}))return;
        m.reg[t]=true;
        EXPECT("",c.template capacity<T>()>=n&&c.template capacity<T>()>=oldcap[t]);
        if(n<=oldcap[t])EXPECT("",addresses(c,t)==a);
        break;
      case 3:
        log(C+"shrink_to_fit()");
        if(!go([&]{c.shrink_to_fit();}))return;
        break;
      case 4:
        if(!m.reg[t])return;
        log(L+"shrink_to_fit(type_info)");
        if(!go([&]{c.shrink_to_fit(typeid(T));}))return;
        EXPECT("",c.template capacity<T>()<=oldcap[t]||oldcap[t]==0);
        break;
      default:
        if(!m.reg[t])return;
        log(L+"shrink_to_fit<T>()");
        if(!go([&]{c.template shrink_to_fit<T>();}))return;
        EXPECT("",c.template capacity<T>()<=oldcap[t]||oldcap[t]==0);
      }
    });
  }

  void register_op(int i,coll& c,model& m,int t,std::string L)
  {
    (void)i;
    props("C05 C13");
    with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      if(r.chance(60)){
        log(L+"register_types<T,T0>()");
        /* existing segments are not disturbed */
        struct seg{const std::type_info* ti;std::size_t n,cap;std::vector<const void*> at;};
        auto state=[&]{
          std::vector<seg> v;
          for(auto s:static_cast<const coll&>(c).segment_traversal()){
            seg e{&s.type_info(),c.size(s.type_info()),c.capacity(s.type_info()),{}};
            for(auto& x:s)e.at.push_back(static_cast<const void*>(std::addressof(x)));
            v.push_back(e);
          }
          return v;
        };
        auto before=state();
        if(!go([&]{c.template register_types<T,T0>();}))return;
        m.reg[t]=m.reg[0]=true;
        auto after=state();
        for(auto& b:before){
          bool found=false;
          for(auto& a:after)if(*a.ti==*b.ti){
            EXPECT("C05",!found);found=true;
            EXPECT("C05",a.n==b.n&&a.cap==b.cap&&a.at==b.at);
          }
          EXPECT("C05",found);
        }
      }
      else if(!m.reg[t]){
        log(L+"access to an unregistered type");
        EXPECT("",throws_unregistered(typeid(T),[&]{c.clear(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{c.template clear<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{c.reserve(typeid(T),3);}));
        EXPECT("",throws_unregistered(typeid(T),[&]{c.shrink_to_fit(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{c.template shrink_to_fit<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.capacity(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template capacity<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.max_size(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template max_size<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.empty(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template empty<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template size<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.end(typeid(T));}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template end<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.template segment<T>();}));
        EXPECT("",throws_unregistered(typeid(T),[&]{(void)c.segment(typeid(T));}));
      }
    });
  }

  static bool all_copyable(const model& m)
  {
    for(int t=0;t<NT;++t)if(!is_copyable(t)&&!m.vals[t].empty())return false;
    return true;
  }

  void transfer_op(int i,coll& c,model& m,coll& o,model& mo,std::string)
  {
    props("C06");
    std::string C="c"+std::to_string(i)+" ";
    int form=r(10);
    int nid=1+r(2);
    bool threw=false;
    std::unique_ptr<coll> p;
    bool cp=all_copyable(mo);
    if(!cp&&(form==0||form==1||form==4))opprops().insert("C11");
    model before=mo;
    auto moved_out=[&](){ /* the source is valid, with some contents */
      validate(o,mo,true,true);
      EXPECT("",mo.id==before.id);
    };
    try{
      switch(form){
      case 0:
        log(C+"= copy constructed from the other");
        if(!go([&]{p.reset(new coll(o));}))return;
        cs[i]=std::move(p);m=mo;m.id=(PROP&8)?mo.id+100:mo.id;
        break;
      case 1:
        log(C+"= copy constructed from the other with allocator "+std::to_string(nid));
        if(!go([&]{p.reset(new coll(o,acct<value,PROP>(nid)));}))return;
        cs[i]=std::move(p);m=mo;m.id=nid;
        break;
      case 2:
        log(C+"= move constructed from the other");
        if(!go([&]{p.reset(new coll(std::move(o)));}))return;
        cs[i]=std::move(p);m=mo;
        moved_out();
        break;
      case 3:
        log(C+"= move constructed from the other with allocator "+std::to_string(nid));
        if(!go([&]{p.reset(new coll(std::move(o),acct<value,PROP>(nid)));}))return;
        cs[i]=std::move(p);m=mo;m.id=nid;
        moved_out();
        break;
      case 4:
        log(C+"= other (copy assignment)");
        if(!go([&]{c=o;}))return;
        {int id=m.id;m=mo;m.id=(PROP&1)?mo.id:id;}
        break;
      case 5:
        log(C+"= move(other) (move assignment)");
        if(!go([&]{c=std::move(o);}))return;
        {int id=m.id;m=mo;m.id=(PROP&2)?mo.id:id;}
        moved_out();
        break;
      case 6:case 7:
        if(!(PROP&4)&&m.id!=mo.id)return;
        log(C+"swap");
        if(!go([&]{if(form==6)c.swap(o);else{using std::swap;swap(c,o);}}))return;
        {int a=m.id,b=mo.id;std::swap(m,mo);if(!(PROP&4)){m.id=a;mo.id=b;}}
        break;
      case 8:
        log(C+"self copy assignment");
        {coll& s=c;if(!go([&]{c=s;}))return;}
        break;
      default:
        log(C+"self swap");
        if(!go([&]{c.swap(c);}))return;
      }
    }
    catch(const boost::poly_collection::not_copy_constructible& e){
      threw=true;
      EXPECT("C11",*e.pinfo==typeid(T3));
      resync[i]=true;
      EXPECT("C11",!cp);
    }
    if(form==0||form==1||form==4)EXPECT("C11",threw==!cp);
    if(!resync[i]&&!threw&&(form<=1||form==4)){
      /* independence: the copy owns its elements */
      coll& nc=*cs[i];
      for(int t=0;t<NT;++t)for(std::size_t k=0;k<m.vals[t].size();++k)
        EXPECT("",addr(nc,t,k)!=addr(o,t,k));
    }
  }

  void equal_op(coll& c,model& m,coll& o,model& mo,std::string)
  {
    props("C07");
    log("compare");
    bool eq=true,may_throw=false,must=false;
    for(int t=0;t<NT;++t){
      if(!is_comparable(t)&&!m.vals[t].empty()&&m.vals[t].size()==mo.vals[t].size()){may_throw=true;must=true;}
      else if(m.vals[t]!=mo.vals[t])eq=false;
    }
    if(may_throw)opprops().insert("C11");
    const coll& a=c;const coll& b=o;
    for(int s=0;s<3;++s){
      bool threw=false,res=false;
      try{
        if(!go([&]{
          if(s==0)res=a==b;else if(s==1)res=b==a;else res=!(a!=b);}))return;
      }
      catch(const boost::poly_collection::not_equality_comparable& e){
        threw=true;EXPECT("C11",*e.pinfo==typeid(T4));EXPECT("C11",may_throw);
      }
      if(!threw){
        if(must&&eq)fail("C11","comparison of elements without equality gave an answer");
        EXPECT("",res==(eq&&!must));
      }
    }
    /* a collection equals itself and its copy */
    bool ne=false;for(int t=0;t<NT;++t)if(!is_comparable(t)&&!m.vals[t].empty())ne=true;
    if(!ne){
      bool res=false;
      if(!go([&]{res=a==a;}))return;
      EXPECT("",res);
    }
  }

  void write_op(coll& c,model& m,int t,std::string L)
  {
    props("C01");
    if(m.vals[t].empty())return;
    std::size_t a=(std::size_t)r((int)m.vals[t].size());
    int v=val();
    log(L+"write "+std::to_string(v)+" to element "+std::to_string(a)+" through a reference");
    if(r.chance(50))const_cast<core*>(pcore(c.begin(tinfo(t))[(std::ptrdiff_t)a]))->v=v;
    else with_type(t,[&](auto g){
      using T=typename decltype(g)::type;
      c.template begin<T>()[(std::ptrdiff_t)a].v=v;
    });
    m.vals[t][a]=v;
  }

  void post()
  {
    std::size_t total=0;
    for(int i=0;i<2;++i){
      validate(*cs[i],ms[i],resync[i],r.chance(35));
      resync[i]=false;
      total+=ms[i].total();
    }
    EXPECT("C10",live().size()==total);
    EXPECT("C10",alconstr().size()==total);
  }

  bool run(int len)
  {
    opno=0;
    for(;opno<len;++opno){
      opprops().clear();
      step();
      post();
    }
    opprops()={"C10"};
    log("destruction");
    cs[0].reset();cs[1].reset();
    if(!pending().empty()){auto s=pending();pending().clear();fail(pending_props(),s);}
    EXPECT("C10",live().empty());
    EXPECT("C10",alconstr().empty());
    EXPECT("C10",blocks().empty());
    return fired_any;
  }
};

/* returns true if the injected failure fired */
bool run_one(std::uint64_t seed,int len,long io,long ik)
{
  live().clear();blocks().clear();alconstr().clear();trace().clear();pending().clear();
  inj()=inject_state{};
  where()="seed="+std::to_string(seed)+" len="+std::to_string(len)+" op="+std::to_string(io)+" k="+std::to_string(ik);
  auto h=new history(seed,io,ik);
  try{
    bool f=h->run(len);
    delete h;
    return f;
  }
  catch(const abort_history&){/* another property: leak the remains */}
  catch(const std::exception& e){
    try{fail("",std::string("unexpected exception ")+e.what());}catch(const abort_history&){}
  }
  catch(const injected&){
    try{fail("","stray injected exception");}catch(const abort_history&){}
  }
  return false;
}

} /* namespace vn */

int main(int argc,char** argv)
{
  using namespace vn;
  install();
  /* hist FOCUS SEED FROM TO LEN SWEEP | hist FOCUS replay SEED LEN OP K */
  if(argc<6)return 2;
  focus()=argv[1];
  if(std::string(argv[2])=="replay"){
    run_one(std::strtoull(argv[3],0,10),std::atoi(argv[4]),std::atol(argv[5]),std::atol(argv[6]));
    std::printf("OK\n");
    return 0;
  }
  std::uint64_t base=std::strtoull(argv[2],0,10);
  long from=std::atol(argv[3]),to=std::atol(argv[4]);
  int len=std::atoi(argv[5]);
  int sweep=argc>6?std::atoi(argv[6]):0;
  long runs=0,fired=0;
  for(long n=from;n<to;++n){
    std::uint64_t seed=base*1000003ull+(std::uint64_t)n;
    std::printf("AT %ld\n",n);
    run_one(seed,len,-1,0);++runs;
    if(sweep){
      rng r(seed^0x5555);
      for(int s=0;s<sweep;++s){
        long io=2+r(len-2);
        for(long k=0;k<60;++k){
          ++runs;
          if(!run_one(seed,len,io,k))break;
          ++fired;
        }
      }
    }
  }
  std::printf("OK histories=%ld failures-injected=%ld\n",runs,fired);
  return 0;
}
