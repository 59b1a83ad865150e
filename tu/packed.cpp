/* Instantiates the packed-segment backend (the one behind base_collection) for an opaque element type whose operations may all
 * throw, and exposes one driver per operation under contract. */
#include <boost/poly_collection/base_collection.hpp>
#include <boost/poly_collection/detail/packed_segment.hpp>
#include <memory>
#include <utility>

namespace pc=boost::poly_collection;
namespace det=boost::poly_collection::detail;

struct Other{virtual ~Other();long o;};
struct Base{virtual ~Base(){} int b;};

struct C:Other,Base /* the base of the collection is not the first one */
{
  C(int);
  C(const C&);
  C(C&&);
  ~C();
  C& operator=(const C&);
  C& operator=(C&&);
  bool operator==(const C&)const;
  long a[5];
};

struct InputIt /* single pass iterator over elements; opaque operations */
{
  using iterator_category=std::input_iterator_tag;
  using value_type=C;
  using difference_type=std::ptrdiff_t;
  using pointer=const C*;
  using reference=const C&;
  const C* p;
  const C& operator*()const{return *p;}
  InputIt& operator++(){++p;return *this;}
  bool operator==(const InputIt& x)const{return p==x.p;}
  bool operator!=(const InputIt& x)const{return p!=x.p;}
};

using M=det::base_model<Base>;
using V=M::value_type;
using A=det::allocator_adaptor<std::allocator<V>>;
using B=det::segment_backend<M,A>;
using S=det::packed_segment<M,C,A>;
using bit=M::base_iterator;
using cbit=M::const_base_iterator;
using snt=M::base_sentinel;
using cit=M::const_iterator<C>;
using rng=std::pair<bit,snt>;
using up=std::unique_ptr<B,void(*)(B*)>;
using SG=det::segment<M,A>;

extern "C"{
const Base* d_upcast(C& x){return &x;}
unsigned long d_sizeof_S(){return sizeof(S);}
unsigned long d_sizeof_SG(){return sizeof(SG);}

rng d_push_back_copy(S& s,const C& x){return s.nv_push_back(x);}
rng d_push_back_move(S& s,C& x){return s.nv_push_back(std::move(x));}
rng d_vpush_back(B& s,const void* x){return s.push_back(x);}
rng d_vpush_back_move(B& s,void* x){return s.push_back_move(x);}
rng d_emplace_back_copy(S& s,const C& x){return s.nv_emplace_back(x);}
rng d_emplace_back_int(S& s,int& x){return s.nv_emplace_back(x);}
rng d_emplace_base(S& s,cbit p,const C& x){return s.nv_emplace(p,x);}
rng d_emplace_local(S& s,cit p,const C& x){return s.nv_emplace(p,x);}
rng d_emplace_base_int(S& s,cbit p,int& x){return s.nv_emplace(p,x);}
rng d_insert_copy(S& s,cit p,const C& x){return s.nv_insert(p,x);}
rng d_insert_move(S& s,cit p,C& x){return s.nv_insert(p,std::move(x));}
rng d_vinsert_copy(B& s,cbit p,const void* x){return s.insert(p,x);}
rng d_vinsert_move(B& s,cbit p,void* x){return s.insert_move(p,x);}
rng d_insert_range_end(S& s,const C* f,const C* l){return s.nv_insert(f,l);}
rng d_insert_range(S& s,cit p,const C* f,const C* l){return s.nv_insert(p,f,l);}
rng d_insert_input_end(S& s,InputIt f,InputIt l){return s.nv_insert(f,l);}
rng d_insert_input(S& s,cit p,InputIt f,InputIt l){return s.nv_insert(p,f,l);}
rng d_erase(S& s,cit p){return s.nv_erase(p);}
rng d_verase(B& s,cbit p){return s.erase(p);}
rng d_erase_range(S& s,cit f,cit l){return s.nv_erase(f,l);}
rng d_verase_range(B& s,cbit f,cbit l){return s.erase(f,l);}
rng d_verase_till_end(B& s,cbit f){return s.erase_till_end(f);}
rng d_verase_from_begin(B& s,cbit l){return s.erase_from_begin(l);}
snt d_clear(S& s){return s.nv_clear();}
snt d_vclear(B& s){return s.clear();}
snt d_reserve(S& s,std::size_t n){return s.nv_reserve(n);}
snt d_vreserve(B& s,std::size_t n){return s.reserve(n);}
snt d_shrink(S& s){return s.nv_shrink_to_fit();}
snt d_vshrink(B& s){return s.shrink_to_fit();}
bit d_begin(const S& s){return s.nv_begin();}
bit d_end(const S& s){return s.nv_end();}
bit d_vbegin(const B& s){return s.begin();}
bit d_vend(const B& s){return s.end();}
std::size_t d_size(const S& s){return s.nv_size();}
std::size_t d_vsize(const B& s){return s.size();}
bool d_empty(const S& s){return s.nv_empty();}
bool d_vempty(const B& s){return s.empty();}
std::size_t d_capacity(const S& s){return s.nv_capacity();}
std::size_t d_vcapacity(const B& s){return s.capacity();}
std::size_t d_max_size(const S& s){return s.nv_max_size();}
std::size_t d_vmax_size(const B& s){return s.max_size();}
bool d_vequal(const B& s,const B& t){return s.equal(t);}
void d_make(up* r,const A& al){::new((void*)r) up(S::make(al));}
void d_copy(up* r,const B& s){::new((void*)r) up(s.copy());}
void d_copy_al(up* r,const B& s,const A& al){::new((void*)r) up(s.copy(al));}
void d_empty_copy(up* r,const B& s,const A& al){::new((void*)r) up(s.empty_copy(al));}
void d_move_al(up* r,B& s,const A& al){::new((void*)r) up(s.move(al));}
void d_delete(up* r){r->~up();}

/* segment: value-semantics handle over a backend, with cached sentinel */
#define SGTYPES
void g_make(SG* r,const A& al){::new((void*)r) SG(SG::make<C>(al));}
void g_make_proto(SG* r,const SG& x,const A& al){::new((void*)r) SG(SG::make_from_prototype(x,al));}
void g_copy(SG* r,const SG& x){::new((void*)r) SG(x);}
void g_move(SG* r,SG& x){::new((void*)r) SG(std::move(x));}
void g_copy_al(SG* r,const SG& x,const A& al){::new((void*)r) SG(x,al);}
void g_move_al(SG* r,SG& x,const A& al){::new((void*)r) SG(std::move(x),al);}
SG& g_assign(SG& y,const SG& x){return y=x;}
SG& g_move_assign(SG& y,SG& x){return y=std::move(x);}
bool g_eq(const SG& x,const SG& y){return x==y;}
bool g_ne(const SG& x,const SG& y){return x!=y;}
void g_delete(SG& x){x.~SG();}
bit g_begin(const SG& s){return s.begin();}
bit g_begin_T(const SG& s){return s.begin<C>();}
bit g_end(const SG& s){return s.end();}
bit g_end_T(const SG& s){return s.end<C>();}
snt g_sentinel(const SG& s){return s.sentinel();}
bool g_empty(const SG& s){return s.empty();}
bool g_empty_T(const SG& s){return s.empty<C>();}
std::size_t g_size(const SG& s){return s.size();}
std::size_t g_size_T(const SG& s){return s.size<C>();}
std::size_t g_capacity(const SG& s){return s.capacity();}
std::size_t g_capacity_T(const SG& s){return s.capacity<C>();}
void g_reserve(SG& s,std::size_t n){s.reserve(n);}
void g_reserve_T(SG& s,std::size_t n){s.reserve<C>(n);}
void g_shrink(SG& s){s.shrink_to_fit();}
void g_shrink_T(SG& s){s.shrink_to_fit<C>();}
bit g_emplace_back(SG& s,const C& x){return s.emplace_back<C>(x);}
bit g_emplace_base(SG& s,cbit p,const C& x){return s.emplace<C>(p,x);}
bit g_emplace_local(SG& s,cit p,const C& x){return s.emplace<C>(p,x);}
bit g_push_back_ref(SG& s,const Base& x){return s.push_back(x);}
bit g_push_back_refm(SG& s,Base& x){return s.push_back(std::move(x));}
bit g_push_back_terminal(SG& s,const C& x){return s.push_back_terminal(x);}
bit g_push_back_terminal_move(SG& s,C& x){return s.push_back_terminal(std::move(x));}
bit g_insert_base(SG& s,cbit p,const C& x){return s.insert(p,x);}
bit g_insert_base_move(SG& s,cbit p,C& x){return s.insert(p,std::move(x));}
bit g_insert_local(SG& s,cit p,const C& x){return s.insert<C>(p,x);}
bit g_insert_local_move(SG& s,cit p,C& x){return s.insert<C>(p,std::move(x));}
bit g_insert_range(SG& s,C* f,C* l){return s.insert(f,l);}
bit g_insert_base_range(SG& s,cbit p,C* f,C* l){return s.insert(p,f,l);}
bit g_insert_local_range(SG& s,cit p,C* f,C* l){return s.insert<C>(p,f,l);}
bit g_erase(SG& s,cbit p){return s.erase(p);}
bit g_erase_local(SG& s,cit p){return s.erase<C>(p);}
bit g_erase_range(SG& s,cbit f,cbit l){return s.erase(f,l);}
bit g_erase_range_local(SG& s,cit f,cit l){return s.erase<C>(f,l);}
bit g_erase_till_end(SG& s,cbit f){return s.erase_till_end(f);}
bit g_erase_from_begin(SG& s,cbit l){return s.erase_from_begin(l);}
void g_clear(SG& s){s.clear();}
void g_clear_T(SG& s){s.clear<C>();}
}
