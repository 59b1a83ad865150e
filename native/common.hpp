// Common machinery of the bounded native stand-in: tracked elements with
// fault injection, an accounting allocator, failure reporting.
#ifndef VN_COMMON_HPP
#define VN_COMMON_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <unistd.h>
#include <signal.h>

namespace vn{

/* ---- reporting ---- */
inline std::string& focus(){static std::string s;return s;}
inline std::deque<std::string>& trace(){static std::deque<std::string> t;return t;}
inline std::string& where(){static std::string s;return s;}   /* history id */
inline std::set<std::string>& opprops(){static std::set<std::string> s;return s;}
inline bool& verbose(){static bool b=false;return b;}

struct abort_history{};

inline std::set<std::string> split(const std::string& s)
{
  std::set<std::string> r;std::istringstream is(s);std::string w;
  while(is>>w)r.insert(w);
  return r;
}

inline void report(const char* tag,const std::set<std::string>& props,const std::string& msg)
{
  std::printf("%s props=",tag);
  for(auto& p:props)std::printf("%s,",p.c_str());
  std::printf(" at=%s msg=%s\n",where().c_str(),msg.c_str());
  std::printf("TRACE-BEGIN\n");
  for(auto& l:trace())std::printf("  %s\n",l.c_str());
  std::printf("TRACE-END\n");
  std::fflush(stdout);
}

/* a failed expectation: counts when it concerns the property in focus */
inline void fail(const std::string& kindprops,const std::string& msg)
{
  auto ps=split(kindprops);
  ps.insert(opprops().begin(),opprops().end());
  if(focus().empty()||ps.count(focus())){
    report("FAIL",ps,msg);
    _exit(1);
  }
  if(verbose())report("OTHER",ps,msg);
  throw abort_history{};
}
/* inside noexcept/destructor code: cannot throw, remember */
inline std::string& pending(){static std::string s;return s;}
inline int& pending_tag(){static int t=-1;return t;} /* type of the object concerned */
inline void fail_later(const std::string& msg,int tag=-1)
{
  if(pending().empty()){pending()=msg;pending_tag()=tag;}
}
/* types 2 (not assignable) and 3 (move only) lack operations */
inline const char* pending_props(){return pending_tag()==2||pending_tag()==3?"C10 C11":"C10";}
#define VN_STR2(x) #x
#define VN_STR(x) VN_STR2(x)
#define EXPECT(props,c) do{if(!(c))::vn::fail(props,std::string(#c)+" [" __FILE__ ":" VN_STR(__LINE__) "]");}while(0)

inline void death()
{
  auto ps=opprops();
  ps.insert("C01");ps.insert("C10");
  report("DEATH",ps,"memory error or undefined behaviour");
}
extern "C" void __sanitizer_set_death_callback(void(*)(void)) __attribute__((weak));
inline void on_signal(int){death();_exit(77);}
inline void on_terminate()
{
  death();_exit(77);
}
inline void install()
{
  if(&__sanitizer_set_death_callback)__sanitizer_set_death_callback(death);
  std::set_terminate(on_terminate);
  signal(SIGABRT,on_signal);
}

/* ---- fault injection ---- */
struct injected{int n;};
struct inject_state{bool armed=false;long count=0;long ticks=0;bool fired=false;};
inline inject_state& inj(){static inject_state s;return s;}
inline void tick()
{
  auto& s=inj();
  ++s.ticks;
  if(s.armed&&s.count--<=0){s.armed=false;s.fired=true;throw injected{1};}
}

/* ---- live objects ---- */
inline std::unordered_map<const void*,int>& live(){static std::unordered_map<const void*,int> m;return m;}
inline long& live_coll_delta(){static long n=0;return n;}

struct core
{
  int v;
  unsigned magic;
  const void* self;
  int tag;
  static void born(core* p,int v,int tag)
  {
    p->v=v;p->magic=0xC0FFEE11u;p->self=p;p->tag=tag;
    if(!live().emplace(p,tag).second)fail_later("object constructed over a live object",tag);
  }
  static bool alive(const core* p)
  {
    auto it=live().find(p);
    return it!=live().end()&&p->magic==0xC0FFEE11u&&p->self==p&&it->second==p->tag;
  }
  static void check(const core* p,const char* what)
  {
    if(!alive(p))fail_later(std::string("use of a dead object in ")+what,p->tag);
  }
  static void dead(core* p)
  {
    if(!alive(p))fail_later("destruction of a dead object",p->tag);
    live().erase(p);
    p->magic=0xDEADDEADu;p->self=nullptr;
  }
};

enum{MOVED=-1};

/* copyable, nothrow move, assignable */
template<int Tag> struct pay_full:core
{
  explicit pay_full(int n){tick();born(this,n,Tag);}
  pay_full(const pay_full& x):core(){check(&x,"copy");tick();born(this,x.v,Tag);}
  pay_full(pay_full&& x)noexcept:core(){check(&x,"move");born(this,x.v,Tag);x.v=MOVED;}
  pay_full& operator=(const pay_full& x){check(&x,"copy=");check(this,"copy=");tick();v=x.v;return *this;}
  pay_full& operator=(pay_full&& x)noexcept{check(&x,"move=");check(this,"move=");if(this!=&x){v=x.v;x.v=MOVED;}return *this;}
  ~pay_full(){dead(this);}
};
/* copyable, throwing move */
template<int Tag> struct pay_tm:core
{
  explicit pay_tm(int n){tick();born(this,n,Tag);}
  pay_tm(const pay_tm& x):core(){check(&x,"copy");tick();born(this,x.v,Tag);}
  pay_tm(pay_tm&& x)noexcept(false):core(){check(&x,"move");tick();born(this,x.v,Tag);x.v=MOVED;}
  pay_tm& operator=(const pay_tm& x){check(&x,"copy=");check(this,"copy=");tick();v=x.v;return *this;}
  pay_tm& operator=(pay_tm&& x)noexcept(false){check(&x,"move=");check(this,"move=");tick();if(this!=&x){v=x.v;x.v=MOVED;}return *this;}
  ~pay_tm(){dead(this);}
};
/* copyable, nothrow move, not assignable */
template<int Tag> struct pay_na:core
{
  explicit pay_na(int n){tick();born(this,n,Tag);}
  pay_na(const pay_na& x):core(){check(&x,"copy");tick();born(this,x.v,Tag);}
  pay_na(pay_na&& x)noexcept:core(){check(&x,"move");born(this,x.v,Tag);x.v=MOVED;}
  pay_na& operator=(const pay_na& x)=delete;
  pay_na& operator=(pay_na&& x)=delete;
  ~pay_na(){dead(this);}
};
/* move only */
template<int Tag> struct pay_mo:core
{
  explicit pay_mo(int n){tick();born(this,n,Tag);}
  pay_mo(const pay_mo& x)=delete;
  pay_mo(pay_mo&& x)noexcept:core(){check(&x,"move");born(this,x.v,Tag);x.v=MOVED;}
  pay_mo& operator=(const pay_mo& x)=delete;
  pay_mo& operator=(pay_mo&& x)noexcept{check(&x,"move=");check(this,"move=");if(this!=&x){v=x.v;x.v=MOVED;}return *this;}
  ~pay_mo(){dead(this);}
};

/* ---- accounting allocator ---- */
struct block{std::size_t bytes;int id;std::size_t align;};
inline std::unordered_map<void*,block>& blocks(){static std::unordered_map<void*,block> m;return m;}
/* constructed through the allocator, by address */
inline std::unordered_map<const void*,int>& alconstr(){static std::unordered_map<const void*,int> m;return m;}

inline void* al_allocate(std::size_t bytes,std::size_t align,int id)
{
  tick();
  void* p=align>alignof(std::max_align_t)?
    ::operator new(bytes,std::align_val_t(align)) : ::operator new(bytes);
  blocks()[p]=block{bytes,id,align};
  return p;
}
inline void al_deallocate(void* p,std::size_t bytes,std::size_t align,int id)
{
  auto it=blocks().find(p);
  if(it==blocks().end()){fail_later("deallocation of memory not obtained from the allocator");return;}
  if(it->second.bytes!=bytes)fail_later("deallocation with another size");
  if(it->second.id!=id)fail_later("deallocation through another allocator");
  if(it->second.align!=align)fail_later("deallocation with another alignment");
  blocks().erase(it);
  if(align>alignof(std::max_align_t))::operator delete(p,std::align_val_t(align));
  else ::operator delete(p);
}

/* Prop: bit 0 pocca, bit 1 pocma, bit 2 pocs, bit 3 select gives a fresh id */
template<typename T,int Prop>
struct acct
{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::integral_constant<bool,(Prop&1)!=0>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,(Prop&2)!=0>;
  using propagate_on_container_swap=std::integral_constant<bool,(Prop&4)!=0>;
  using is_always_equal=std::false_type;
  template<typename U> struct rebind{using other=acct<U,Prop>;};
  int id;
  acct(int id=0)noexcept:id(id){}
  template<typename U> acct(const acct<U,Prop>& x)noexcept:id(x.id){}
  T* allocate(std::size_t n)
  {
    if(n>std::size_t(-1)/2/sizeof(T))throw std::bad_alloc{};
    return static_cast<T*>(al_allocate(n*sizeof(T),alignof(T),id));
  }
  void deallocate(T* p,std::size_t n)noexcept{al_deallocate(p,n*sizeof(T),alignof(T),id);}
  template<typename U,typename... Args>
  void construct(U* p,Args&&... args)
  {
    ::new((void*)p) U(std::forward<Args>(args)...);
    ++alconstr()[p];
  }
  template<typename U> void destroy(U* p)
  {
    auto it=alconstr().find(p);
    if(it==alconstr().end())fail_later("allocator destroys an element it did not construct");
    else alconstr().erase(it);
    p->~U();
  }
  acct select_on_container_copy_construction()const{return acct((Prop&8)?id+100:id);}
};
template<typename T,typename U,int P> bool operator==(const acct<T,P>& x,const acct<U,P>& y)noexcept{return x.id==y.id;}
template<typename T,typename U,int P> bool operator!=(const acct<T,P>& x,const acct<U,P>& y)noexcept{return x.id!=y.id;}

/* ---- rng ---- */
struct rng
{
  std::uint64_t s;
  explicit rng(std::uint64_t seed):s(seed*0x9E3779B97F4A7C15ull+0x1234567){next();next();}
  std::uint64_t next(){s^=s<<13;s^=s>>7;s^=s<<17;return s;}
  int operator()(int n){return n<=0?0:int((next()>>11)%(unsigned)n);}
  bool chance(int pct){return (*this)(100)<pct;}
};

} /* namespace vn */
#endif
