// Bounded stand-in and replay for C16: every observer runs on a collection
// whose object and memory are read-only pages; with THREADS, several threads
// run the observers concurrently (for the thread sanitizer).
#include <cstddef>
#include <new>
#include <sys/mman.h>
struct arena
{
  char* b;std::size_t n,u;
  explicit arena(std::size_t n):n(n),u(0)
  {b=static_cast<char*>(mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0));}
  void* get(std::size_t s){s=(s+31)&~std::size_t(31);if(u+s>n)throw std::bad_alloc{};void* p=b+u;u+=s;return p;}
  void lock(){mprotect(b,n,PROT_READ);}
  void unlock(){mprotect(b,n,PROT_READ|PROT_WRITE);}
  ~arena(){munmap(b,n);}
};
template<typename T> struct arena_alloc
{
  using value_type=T;
  arena* a;
  arena_alloc(arena* a=nullptr)noexcept:a(a){}
  template<typename U> arena_alloc(const arena_alloc<U>& x)noexcept:a(x.a){}
  T* allocate(std::size_t n){return static_cast<T*>(a?a->get(n*sizeof(T)): ::operator new(n*sizeof(T)));}
  void deallocate(T* p,std::size_t)noexcept{if(!a)::operator delete(p);}
  arena_alloc select_on_container_copy_construction()const{return {};}
};
template<typename T,typename U> bool operator==(const arena_alloc<T>& x,const arena_alloc<U>& y){return x.a==y.a;}
template<typename T,typename U> bool operator!=(const arena_alloc<T>& x,const arena_alloc<U>& y){return x.a!=y.a;}
#define ALLOC arena_alloc
#include "plain.hpp"
#include <boost/poly_collection/algorithm.hpp>
#include <algorithm>
#include <thread>
namespace pc=boost::poly_collection;
namespace vn{
#define P "C16"
template<typename T> void local(const coll& c,const std::type_info& d,long& sum)
{
  if(c.is_registered<T>()!=c.is_registered(typeid(T)))++sum;
  try{
    sum+=(long)c.size<T>()+(long)c.size(typeid(T))+(long)c.size(d)+(long)c.capacity<T>()+(long)c.capacity(d);
    sum+=c.empty<T>()+c.empty(d)+(c.max_size<T>()>0)+(c.max_size(d)>0);
    for(auto& x:c.segment<T>())sum+=x.v;
    for(auto& x:c.segment(d))sum+=*pval(x);
    for(auto it=c.begin<T>();it!=c.end<T>();++it)sum+=it->v;
    for(auto it=c.cbegin(d);it!=c.cend(d);++it){sum+=*pval(*it);
      typename coll::const_local_iterator<T> l{it};sum+=l->v;
      coll::const_local_base_iterator b{l};sum+=(b==it);}
  }
  catch(const pc::unregistered_type&){++sum;}
}
/* fresh descriptors on every call: look-ups must not remember them */
long observe(const coll& c,const coll& o,const std::vector<const std::type_info*>& ds)
{
  long sum=0;
  local<E<0>>(c,*ds[0],sum);local<E<1>>(c,*ds[1],sum);local<E<2>>(c,*ds[2],sum);local<E<3>>(c,*ds[3],sum);
  sum+=(long)c.size()+c.empty();
  for(auto& x:c)sum+=*pval(x);
  for(auto it=c.cbegin();it!=c.cend();++it)sum+=*pval(*it);
  for(auto s:c.segment_traversal()){
    sum+=(long)(s.end()-s.begin());
    for(auto& x:s)sum+=*pval(x);
    sum+=s.type_info()==typeid(E<1>);
  }
  sum+=c==o;sum+=c!=o;sum+=o==c;sum+=c==c;
  {coll d(c);sum+=(long)d.size();coll e(c,coll::allocator_type());sum+=(long)e.size();
   coll g((coll::allocator_type()));g=c;sum+=(long)g.size();
   coll h((coll::allocator_type()));h.insert(c.begin(),c.end());sum+=(long)h.size();}
  auto f=[&](const auto&){++sum;return false;};
  auto f1=c.begin(),l1=c.end();
  pc::for_each(f1,l1,f);pc::for_each<E<0>,E<1>>(f1,l1,f);
  sum+=pc::any_of<E<1>>(f1,l1,f);sum+=pc::count_if(f1,l1,f);sum+=pc::find_if<E<2>>(f1,l1,f)==l1;
  sum+=pc::adjacent_find<E<0>>(f1,l1,[&](const auto&,const auto&){return false;})==l1;
  sum+=c.get_allocator().a!=nullptr;
  return sum;
}
}
static void segv(int,siginfo_t*,void*)
{
  vn::report("FAIL",{"C16"},"an observer wrote to memory of a constant collection");
  _exit(1);
}
int main(int argc,char** argv)
{
  using namespace vn;
  focus()=argv[1];opprops()={"C16"};
  std::uint64_t base=std::strtoull(argv[2],0,10);
  long N=std::atol(argv[3]);
  if(focus()!="C16"&&focus()!=""){std::printf("OK\n");return 0;}
#ifndef THREADS
  struct sigaction sa;std::memset(&sa,0,sizeof sa);sa.sa_sigaction=segv;sa.sa_flags=SA_SIGINFO;
  sigaction(SIGSEGV,&sa,nullptr);sigaction(SIGBUS,&sa,nullptr);
#endif
  for(long n=0;n<N;++n){
    where()="case "+std::to_string(n);
    rng r(base*1000003ull+(std::uint64_t)n);
    arena a(1<<20),b(1<<20);
    coll* c=::new(a.get(sizeof(coll))) coll(coll::allocator_type(&a));
    coll* o=::new(b.get(sizeof(coll))) coll(coll::allocator_type(&b));
    for(coll* p:{c,o}){
      int k=r(12);
      for(int q=0;q<k;++q)switch(r(6)){
      case 0:p->emplace<E<0>>(q);break;
      case 1:p->emplace<E<1>>(q);break;
      case 2:p->emplace<E<2>>(q);break;
      case 3:p->register_types<E<1>>();break;
      case 4:p->reserve(4);break;
      default:if(!p->empty())p->erase(p->begin());
      }
    }
    auto fresh=[]{
      return std::vector<const std::type_info*>{new descriptor(typeid(E<0>)),new descriptor(typeid(E<1>)),new descriptor(typeid(E<2>)),new descriptor(typeid(E<3>))};
    };
#ifdef THREADS
    std::vector<std::thread> ts;
    long res[3];
    std::vector<std::vector<const std::type_info*>> ds;
    for(int q=0;q<3;++q)ds.push_back(fresh());
    for(int q=0;q<3;++q)ts.emplace_back([&,q]{res[q]=observe(*c,*o,ds[q]);});
    for(auto& t:ts)t.join();
    EXPECT(P,res[0]==res[1]&&res[1]==res[2]);
#else
    a.lock();b.lock();
    std::vector<char> sa(a.b,a.b+a.u),sb(b.b,b.b+b.u);
    long x=observe(*c,*o,fresh()),y=observe(*c,*o,fresh()),z=observe(*o,*c,fresh());
    (void)z;
    EXPECT(P,x==y);
    EXPECT(P,std::equal(sa.begin(),sa.end(),a.b)&&std::equal(sb.begin(),sb.end(),b.b));
    a.unlock();b.unlock();
#endif
    c->~coll();o->~coll();
  }
  std::printf("OK histories=%ld\n",N);
}
