/* stride_iterator: the local base iterator of base_collection, for an arbitrary
 * stride; and its conversions from and to pointers to a derived class whose
 * base subobject is not at its start. */
#include <boost/poly_collection/detail/stride_iterator.hpp>
#include <cstddef>
namespace det=boost::poly_collection::detail;
struct Other{virtual ~Other();long o[3];};
struct Base{virtual ~Base();long b;};
struct Derived:Other,Base{long d[4];};
using It=det::stride_iterator<Base>;
using CIt=det::stride_iterator<const Base>;
#define DRIVERS(X,I,V) \
extern "C" void X##_make(I* o,V* p,std::size_t s){::new((void*)o) I(p,s);} \
extern "C" void X##_inc(I& i){++i;} \
extern "C" void X##_dec(I& i){--i;} \
extern "C" void X##_post_inc(I* o,I& i){::new((void*)o) I(i++);} \
extern "C" void X##_post_dec(I* o,I& i){::new((void*)o) I(i--);} \
extern "C" void X##_adv(I& i,std::ptrdiff_t n){i+=n;} \
extern "C" void X##_ret(I& i,std::ptrdiff_t n){i-=n;} \
extern "C" void X##_plus(I* o,const I& i,std::ptrdiff_t n){::new((void*)o) I(i+n);} \
extern "C" void X##_rplus(I* o,const I& i,std::ptrdiff_t n){::new((void*)o) I(n+i);} \
extern "C" void X##_minus(I* o,const I& i,std::ptrdiff_t n){::new((void*)o) I(i-n);} \
extern "C" V* X##_index(const I& i,std::ptrdiff_t n){V& r=i[n];return &r;} \
extern "C" V* X##_deref(const I& i){return &*i;} \
extern "C" V* X##_arrow(const I& i){return i.operator->();} \
extern "C" V* X##_ptr(const I& i){return i;} \
extern "C" std::size_t X##_stride(const I& i){return i.stride();} \
extern "C" void X##_copy(I* o,const I& i){::new((void*)o) I(i);} \
extern "C" void X##_assign(I& o,const I& i){o=i;} \
extern "C" void X##_assign_ptr(I& o,V* p){o=p;}
#define COMPARE(X,I,J) \
extern "C" std::ptrdiff_t X##_diff(const I& i,const J& j){return j-i;} \
extern "C" bool X##_eq(const I& i,const J& j){return i==j;} \
extern "C" bool X##_ne(const I& i,const J& j){return i!=j;} \
extern "C" bool X##_lt(const I& i,const J& j){return i<j;} \
extern "C" bool X##_le(const I& i,const J& j){return i<=j;} \
extern "C" bool X##_gt(const I& i,const J& j){return i>j;} \
extern "C" bool X##_ge(const I& i,const J& j){return i>=j;}
DRIVERS(m,It,Base) DRIVERS(c,CIt,const Base)
COMPARE(mm,It,It) COMPARE(cc,CIt,CIt)
extern "C"{
void to_const(CIt* o,const It& i){::new((void*)o) CIt(i);}
void assign_const(CIt& o,const It& i){o=i;}
void from_derived(It* o,Derived* p){::new((void*)o) It(p);}
void cfrom_derived(CIt* o,Derived* p){::new((void*)o) CIt(p);}
void cfrom_cderived(CIt* o,const Derived* p){::new((void*)o) CIt(p);}
Derived* to_derived(const It& i){return static_cast<Derived*>(i);}
const Derived* cto_cderived(const CIt& i){return static_cast<const Derived*>(i);}
const Derived* to_cderived(const It& i){return static_cast<const Derived*>(i);}
Base* upcast(Derived* p){return p;}
unsigned long size_derived(){return sizeof(Derived);}
}
