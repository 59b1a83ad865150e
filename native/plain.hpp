// Plain elements E<I> of many sizes for the three kinds of collection.
#ifndef VN_PLAIN_HPP
#define VN_PLAIN_HPP
#include "common.hpp"
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/mpl/vector/vector10.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/call.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#ifndef ALLOC
#define ALLOC std::allocator
#endif
namespace vn{
template<int I> struct padding{char p[I];};
template<> struct padding<0>{};
#if KIND==0
struct B{virtual ~B(){} virtual const int* pv()const=0;};
template<int I> struct E:padding<(I*7)%45>,B{explicit E(int v=0):v(v){} int v;const int* pv()const override{return &v;}
  bool operator==(const E& x)const{return v==x.v;}};
using coll=boost::base_collection<B,ALLOC<B>>;
using value=coll::value_type;
inline const int* pval(const value& x){return x.pv();}
#elif KIND==1
template<int I> struct E:padding<(I*7)%45>{explicit E(int v=0):v(v){} int v;const int* operator()()const{return &v;}
  bool operator==(const E& x)const{return v==x.v;}};
using coll=boost::function_collection<const int*(),ALLOC<boost::poly_collection::function_collection_value_type<const int*()>>>;
using value=coll::value_type;
inline const int* pval(const value& x){return x();}
#else
template<int I> struct E:padding<(I*7)%45>{explicit E(int v=0):v(v){} int v;
  bool operator==(const E& x)const{return v==x.v;}};
template<typename T=boost::type_erasure::_self>
struct getv{static const int* apply(const T& x){return &x.v;}};
using concept_=boost::mpl::vector1<getv<>>;
using coll=boost::any_collection<concept_,ALLOC<boost::poly_collection::any_collection_value_type<concept_>>>;
using value=coll::value_type;
inline const int* pval(const value& x){return boost::type_erasure::call(getv<>{},x);}
#endif
/* another descriptor of the same type */
struct descriptor:std::type_info
{
  explicit descriptor(const std::type_info& t):std::type_info(strdup(t.name())){}
};
}
#endif
