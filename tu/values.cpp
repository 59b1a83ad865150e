/* value_holder<T> for element types with and without the operations a segment
 * may need; every special member is opaque and may throw unless declared not to. */
#include <boost/poly_collection/detail/value_holder.hpp>
#include <boost/poly_collection/detail/allocator_adaptor.hpp>
#include <boost/poly_collection/exception.hpp>
#include <memory>
#include <utility>

namespace det=boost::poly_collection::detail;

struct C /* all operations, any may throw */
{
  C(int);C(const C&);C(C&&);~C();
  C& operator=(const C&);C& operator=(C&&);
  bool operator==(const C&)const;
  long a[5];
};
struct C1 /* neither copyable, comparable nor assignable */
{
  C1(int);C1(const C1&)=delete;C1(C1&&)noexcept;~C1();
  C1& operator=(const C1&)=delete;C1& operator=(C1&&)=delete;
  long a[5];
};
struct C2 /* copyable and comparable, not assignable */
{
  C2(int);C2(const C2&);C2(C2&&)noexcept;~C2();
  C2& operator=(const C2&)=delete;C2& operator=(C2&&)=delete;
  bool operator==(const C2&)const;
  long a[5];
};
struct C3 /* assignable, neither copyable nor comparable */
{
  C3(int);C3(const C3&)=delete;C3(C3&&);~C3();
  C3& operator=(const C3&)=delete;C3& operator=(C3&&);
  long a[5];
};

using A=det::allocator_adaptor<std::allocator<int>>;
#define DRIVERS(T) \
using H##T=det::value_holder<T>; \
extern "C" void T##_copy(void* p,const H##T& x){::new(p) H##T(x);} \
extern "C" void T##_copy_al(void* p,const H##T& x,A& al){::new(p) H##T(al,x);} \
extern "C" void T##_copyT(void* p,const T& x){::new(p) H##T(x);} \
extern "C" void T##_copyT_al(void* p,const T& x,A& al){::new(p) H##T(al,x);} \
extern "C" void T##_move(void* p,H##T& x){::new(p) H##T(std::move(x));} \
extern "C" void T##_move_al(void* p,H##T& x,A& al){::new(p) H##T(al,std::move(x));} \
extern "C" void T##_moveT(void* p,T& x){::new(p) H##T(std::move(x));} \
extern "C" void T##_moveT_al(void* p,T& x,A& al){::new(p) H##T(al,std::move(x));} \
extern "C" void T##_emplace(void* p,int x){::new(p) H##T(det::value_holder_emplacing_ctor,x);} \
extern "C" void T##_emplace_al(void* p,int x,A& al){::new(p) H##T(al,det::value_holder_emplacing_ctor,x);} \
extern "C" void T##_construct_copy(H##T* p,const H##T& x,A& al){al.construct(p,x);} \
extern "C" void T##_construct_move(H##T* p,H##T& x,A& al){al.construct(p,std::move(x));} \
extern "C" void T##_construct_emplace(H##T* p,int x,A& al){al.construct(p,det::value_holder_emplacing_ctor,x);} \
extern "C" void T##_destroy(H##T* p,A& al){al.destroy(p);} \
extern "C" void T##_assign(H##T& x,H##T& y){x=std::move(y);} \
extern "C" void T##_dtor(H##T& x){x.~H##T();} \
extern "C" bool T##_eq(const H##T& x,const H##T& y){return x==y;}
DRIVERS(C) DRIVERS(C1) DRIVERS(C2) DRIVERS(C3)
