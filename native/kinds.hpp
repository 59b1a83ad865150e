// The three kinds of collection with comparable element types.
#ifndef VN_KINDS_HPP
#define VN_KINDS_HPP
#include "common.hpp"
#include <tuple>
#include <type_traits>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/mpl/vector/vector10.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#ifndef PROP
#define PROP 0
#endif

namespace vn{

#if KIND==0
struct B
{
  virtual ~B(){}
  virtual const core* pc()const=0;
  virtual int unused(int x)const{return x;}
};
struct filler{virtual ~filler(){} long f[2]={1,2};};
#define VN_OVR const core* pc()const override{return static_cast<const core*>(this);}
struct T0:B,pay_full<0>{explicit T0(int n):pay_full<0>(n){} VN_OVR
  T0(const T0&)=default;T0(T0&&)=default;T0& operator=(const T0&)=default;T0& operator=(T0&&)=default;
  bool operator==(const T0& x)const{tick();return v==x.v;}};
struct T1:filler,B,pay_tm<1>{explicit T1(int n):pay_tm<1>(n){} VN_OVR
  bool operator==(const T1& x)const{tick();return v==x.v;} char pad[24];};
struct T2:pay_na<2>,B{explicit T2(int n):pay_na<2>(n){} VN_OVR
  T2(const T2&)=default;T2(T2&&)=default;
  bool operator==(const T2& x)const{tick();return v==x.v;} char pad[5];};
struct T3 final:B,pay_mo<3>{explicit T3(int n):pay_mo<3>(n){} VN_OVR
  T3(T3&&)=default;T3& operator=(T3&&)=default;
  bool operator==(const T3& x)const{tick();return v==x.v;}};
struct alignas(32) T4:B,pay_full<4>{explicit T4(int n):pay_full<4>(n){} VN_OVR
  T4(const T4&)=default;T4(T4&&)=default;T4& operator=(const T4&)=default;T4& operator=(T4&&)=default;};
/* T5 derives from T0: an lvalue of T0 may be a T5 */
struct T5:T0{explicit T5(int n):T0(n){} T5(const T5&)=default;T5(T5&&)=default;T5& operator=(const T5&)=default;T5& operator=(T5&&)=default;
  bool operator==(const T5& x)const{tick();return v==x.v;} char pad[40];};
using coll=boost::base_collection<B,acct<B,PROP>>;
using value=coll::value_type;
inline const core* pcore(const value& x){return x.pc();}
inline const std::type_info& tid(const value& x){return typeid(x);}
#elif KIND==1
#define VN_OVR const core* operator()(int)const{return static_cast<const core*>(this);}
struct T0:pay_full<0>{explicit T0(int n):pay_full<0>(n){} VN_OVR
  bool operator==(const T0& x)const{tick();return v==x.v;}};
struct T1:pay_tm<1>{explicit T1(int n):pay_tm<1>(n){} VN_OVR
  bool operator==(const T1& x)const{tick();return v==x.v;} char pad[24];};
struct T2:pay_na<2>{explicit T2(int n):pay_na<2>(n){} VN_OVR
  bool operator==(const T2& x)const{tick();return v==x.v;} char pad[5];};
struct T3 final:pay_mo<3>{explicit T3(int n):pay_mo<3>(n){} VN_OVR
  bool operator==(const T3& x)const{tick();return v==x.v;}};
struct alignas(32) T4:pay_full<4>{explicit T4(int n):pay_full<4>(n){} VN_OVR};
struct T5:T0{explicit T5(int n):T0(n){} VN_OVR
  bool operator==(const T5& x)const{tick();return v==x.v;} char pad[40];};
using sig=const core*(int);
using coll=boost::function_collection<sig,acct<boost::poly_collection::function_collection_value_type<sig>,PROP>>;
using value=coll::value_type;
inline const core* pcore(const value& x){return x(0);}
inline const std::type_info& tid(const value& x){return x.target_type();}
#else
template<typename T=boost::type_erasure::_self>
struct get_core{static const core* apply(const T& x){return static_cast<const core*>(&x);}};
struct T0:pay_full<0>{explicit T0(int n):pay_full<0>(n){}
  bool operator==(const T0& x)const{tick();return v==x.v;}};
struct T1:pay_tm<1>{explicit T1(int n):pay_tm<1>(n){}
  bool operator==(const T1& x)const{tick();return v==x.v;} char pad[24];};
struct T2:pay_na<2>{explicit T2(int n):pay_na<2>(n){}
  bool operator==(const T2& x)const{tick();return v==x.v;} char pad[5];};
struct T3 final:pay_mo<3>{explicit T3(int n):pay_mo<3>(n){}
  bool operator==(const T3& x)const{tick();return v==x.v;}};
struct alignas(32) T4:pay_full<4>{explicit T4(int n):pay_full<4>(n){}};
struct T5:T0{explicit T5(int n):T0(n){}
  bool operator==(const T5& x)const{tick();return v==x.v;} char pad[40];};
using concept_=boost::mpl::vector1<get_core<>>;
using coll=boost::any_collection<concept_,acct<boost::poly_collection::any_collection_value_type<concept_>,PROP>>;
using value=coll::value_type;
inline const core* pcore(const value& x){return boost::type_erasure::call(get_core<>{},x);}
inline const std::type_info& tid(const value& x){return boost::type_erasure::typeid_of(x);}
#endif

using types=std::tuple<T0,T1,T2,T3,T4,T5>;
enum{NT=6};
template<typename T> struct tag{using type=T;};
template<typename T> struct copyable:std::is_copy_constructible<T>{};
template<typename T> struct comparable:std::true_type{};
template<> struct comparable<T4>:std::false_type{};
inline bool is_copyable(int t){return t!=3;}
inline bool is_comparable(int t){return t!=4;}
template<typename F> auto with_type(int t,F&& f)
{
  switch(t){
    case 0:return f(tag<T0>{});
    case 1:return f(tag<T1>{});
    case 2:return f(tag<T2>{});
    case 3:return f(tag<T3>{});
    case 4:return f(tag<T4>{});
    default:return f(tag<T5>{});
  }
}
inline const std::type_info& tinfo(int t)
{
  const std::type_info* p=nullptr;
  with_type(t,[&](auto g){p=&typeid(typename decltype(g)::type);});
  return *p;
}
inline int tindex(const std::type_info& i)
{
  for(int t=0;t<NT;++t)if(tinfo(t)==i)return t;
  return -1;
}
template<typename T> const core* pcore_of(const T& x){return static_cast<const core*>(&x);}
} /* namespace vn */
#endif
