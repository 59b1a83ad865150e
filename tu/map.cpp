/* type_info_map over std::unordered_map, with stateful allocators that do not
 * (0) and do (1) propagate, and an opaque mapped type. */
#include <boost/poly_collection/detail/type_info_map.hpp>
#include <boost/poly_collection/detail/allocator_adaptor.hpp>
#include <memory>
#include <typeinfo>
#include <utility>

namespace det=boost::poly_collection::detail;

template<typename T,bool Propagate>
struct Al
{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::integral_constant<bool,Propagate>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,Propagate>;
  using propagate_on_container_swap=std::integral_constant<bool,Propagate>;
  using is_always_equal=std::false_type;
  template<typename U> struct rebind{using other=Al<U,Propagate>;};
  explicit Al(long n):id{n}{}
  template<typename U> Al(const Al<U,Propagate>& x)noexcept:id{x.id}{}
  T* allocate(std::size_t n);
  void deallocate(T* p,std::size_t n)noexcept;
  friend bool operator==(const Al& x,const Al& y)noexcept{return x.id==y.id;}
  friend bool operator!=(const Al& x,const Al& y)noexcept{return x.id!=y.id;}
  long id;
};
struct C /* stands for a segment: copyable, movable, also with an allocator */
{
  C(int);C(const C&);C(C&&)noexcept;~C();
  C& operator=(const C&);C& operator=(C&&);
  long a[2];
};
#define DRIVERS(X,B) \
using A##X=det::allocator_adaptor<Al<C,B>>; \
using M##X=det::type_info_map<C,A##X>; \
extern "C" void X##_ctor_al(M##X* o,const A##X& al){::new((void*)o) M##X(typename M##X::allocator_type(al));} \
extern "C" void X##_copy(M##X* o,const M##X& x){::new((void*)o) M##X(x);} \
extern "C" void X##_copy_al(M##X* o,const M##X& x,const A##X& al){::new((void*)o) M##X(x,typename M##X::allocator_type(al));} \
extern "C" void X##_move(M##X* o,M##X& x){::new((void*)o) M##X(std::move(x));} \
extern "C" void X##_move_al(M##X* o,M##X& x,const A##X& al){::new((void*)o) M##X(std::move(x),typename M##X::allocator_type(al));} \
extern "C" void X##_assign(M##X& x,const M##X& y){x=y;} \
extern "C" void X##_move_assign(M##X& x,M##X& y){x=std::move(y);} \
extern "C" void X##_swap(M##X& x,M##X& y){x.swap(y);} \
extern "C" void X##_fswap(M##X& x,M##X& y){swap(x,y);} \
extern "C" void X##_find(typename M##X::iterator* o,M##X& x,const std::type_info& k){::new((void*)o) typename M##X::iterator(x.find(k));} \
extern "C" void X##_cfind(typename M##X::const_iterator* o,const M##X& x,const std::type_info& k){::new((void*)o) typename M##X::const_iterator(x.find(k));} \
extern "C" void X##_insert(std::pair<typename M##X::iterator,bool>* o,M##X& x,const std::type_info& k,C& v){::new((void*)o) std::pair<typename M##X::iterator,bool>(x.insert(k,std::move(v)));} \
extern "C" void X##_insert_copy(std::pair<typename M##X::iterator,bool>* o,M##X& x,const std::type_info& k,const C& v){::new((void*)o) std::pair<typename M##X::iterator,bool>(x.insert(k,v));} \
extern "C" void X##_begin(typename M##X::iterator* o,M##X& x){::new((void*)o) typename M##X::iterator(x.begin());} \
extern "C" void X##_end(typename M##X::iterator* o,M##X& x){::new((void*)o) typename M##X::iterator(x.end());} \
extern "C" void X##_cbegin(typename M##X::const_iterator* o,const M##X& x){::new((void*)o) typename M##X::const_iterator(x.begin());} \
extern "C" void X##_cend(typename M##X::const_iterator* o,const M##X& x){::new((void*)o) typename M##X::const_iterator(x.end());} \
extern "C" void X##_ccbegin(typename M##X::const_iterator* o,const M##X& x){::new((void*)o) typename M##X::const_iterator(x.cbegin());} \
extern "C" void X##_ccend(typename M##X::const_iterator* o,const M##X& x){::new((void*)o) typename M##X::const_iterator(x.cend());} \
extern "C" void X##_get_al(A##X* o,const M##X& x){::new((void*)o) A##X(x.get_allocator());} \
extern "C" void X##_dtor(M##X& x){x.~M##X();} \
extern "C" unsigned long X##_size(){return sizeof(M##X);}
DRIVERS(np,false) DRIVERS(pr,true)
extern "C" std::size_t h_hash(const det::type_info_ptr_hash& h,const std::type_info* p){return h(p);}
extern "C" bool h_equal(const det::type_info_ptr_equal_to& h,const std::type_info* p,const std::type_info* q){return h(p,q);}
