/* drivers shared by the collection translation units: K collection, T an
 * element type, V the value type of K */
using it=K::iterator;
using cit=K::const_iterator;
using lbit=K::local_base_iterator;
using clbit=K::const_local_base_iterator;
using lit=K::local_iterator<T>;
using clit=K::const_local_iterator<T>;
using TI=std::type_info;
using AL=K::allocator_type;
struct TIt /* iterator over T */
{
  using iterator_category=std::input_iterator_tag;
  using value_type=T;
  using difference_type=std::ptrdiff_t;
  using pointer=const T*;
  using reference=const T&;
  const T* p;
  const T& operator*()const{return *p;}
  TIt& operator++(){++p;return *this;}
  bool operator==(const TIt& x)const{return p==x.p;}
  bool operator!=(const TIt& x)const{return p!=x.p;}
};
#define NEW(P,X) ::new((void*)P) X
extern "C"{
unsigned long d_sizeof_K(){return sizeof(K);}
unsigned long d_sizeof_V(){return sizeof(V);}
/* traversal */
void d_begin(it* o,K& c){NEW(o,it)(c.begin());}
void d_end(it* o,K& c){NEW(o,it)(c.end());}
void d_begin_c(cit* o,const K& c){NEW(o,cit)(c.begin());}
void d_end_c(cit* o,const K& c){NEW(o,cit)(c.end());}
void d_cbegin(cit* o,const K& c){NEW(o,cit)(c.cbegin());}
void d_cend(cit* o,const K& c){NEW(o,cit)(c.cend());}
void d_inc(it& x){++x;}
void d_cinc(cit& x){++x;}
void d_postinc(it* o,it& x){NEW(o,it)(x++);}
const void* d_deref(it& x){return &*x;}
const void* d_cderef(cit& x){return &*x;}
bool d_eq(it& x,it& y){return x==y;}
bool d_ne(it& x,it& y){return x!=y;}
bool d_ceq(cit& x,cit& y){return x==y;}
bool d_mixeq(it& x,cit& y){return x==y;}
bool d_mixne(cit& x,it& y){return x!=y;}
void d_toconst(cit* o,it& x){NEW(o,cit)(x);}
void d_assign_const(cit& o,it& x){o=x;}
/* capacity */
bool d_empty(const K& c){return c.empty();}
bool d_empty_info(const K& c,const TI& t){return c.empty(t);}
bool d_empty_T(const K& c){return c.empty<T>();}
std::size_t d_size(const K& c){return c.size();}
std::size_t d_size_info(const K& c,const TI& t){return c.size(t);}
std::size_t d_size_T(const K& c){return c.size<T>();}
std::size_t d_max_size_info(const K& c,const TI& t){return c.max_size(t);}
std::size_t d_max_size_T(const K& c){return c.max_size<T>();}
std::size_t d_capacity_info(const K& c,const TI& t){return c.capacity(t);}
std::size_t d_capacity_T(const K& c){return c.capacity<T>();}
void d_reserve(K& c,std::size_t n){c.reserve(n);}
void d_reserve_info(K& c,const TI& t,std::size_t n){c.reserve(t,n);}
void d_reserve_T(K& c,std::size_t n){c.reserve<T>(n);}
void d_shrink(K& c){c.shrink_to_fit();}
void d_shrink_info(K& c,const TI& t){c.shrink_to_fit(t);}
void d_shrink_T(K& c){c.shrink_to_fit<T>();}
void d_clear(K& c){c.clear();}
void d_clear_info(K& c,const TI& t){c.clear(t);}
void d_clear_T(K& c){c.clear<T>();}
/* registration */
bool d_isreg_info(const K& c,const TI& t){return c.is_registered(t);}
bool d_isreg_T(const K& c){return c.is_registered<T>();}
void d_register(K& c){c.register_types<T>();}
void d_register2(K& c){c.register_types<T,D>();}
/* local iterators */
void d_lbegin(lbit* o,K& c,const TI& t){NEW(o,lbit)(c.begin(t));}
void d_lend(lbit* o,K& c,const TI& t){NEW(o,lbit)(c.end(t));}
void d_lbegin_c(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.begin(t));}
void d_lend_c(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.end(t));}
void d_lcbegin(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.cbegin(t));}
void d_lcend(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.cend(t));}
void d_lbegin_T(lit* o,K& c){NEW(o,lit)(c.begin<T>());}
void d_lend_T(lit* o,K& c){NEW(o,lit)(c.end<T>());}
void d_lbegin_T_c(clit* o,const K& c){NEW(o,clit)(c.begin<T>());}
void d_lend_T_c(clit* o,const K& c){NEW(o,clit)(c.end<T>());}
void d_lcbegin_T(clit* o,const K& c){NEW(o,clit)(c.cbegin<T>());}
void d_lcend_T(clit* o,const K& c){NEW(o,clit)(c.cend<T>());}
void d_seg_begin(lbit* o,K& c,const TI& t){NEW(o,lbit)(c.segment(t).begin());}
void d_seg_end(lbit* o,K& c,const TI& t){NEW(o,lbit)(c.segment(t).end());}
void d_seg_begin_c(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.segment(t).begin());}
void d_seg_end_c(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.segment(t).end());}
void d_seg_cbegin(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.segment(t).cbegin());}
void d_seg_cend(clbit* o,const K& c,const TI& t){NEW(o,clbit)(c.segment(t).cend());}
void d_seg_begin_T(lit* o,K& c){NEW(o,lit)(c.segment<T>().begin());}
void d_seg_end_T(lit* o,K& c){NEW(o,lit)(c.segment<T>().end());}
void d_seg_begin_T_c(clit* o,const K& c){NEW(o,clit)(c.segment<T>().begin());}
void d_seg_end_T_c(clit* o,const K& c){NEW(o,clit)(c.segment<T>().end());}
void d_segi_begin_T(lit* o,K& c,const TI& t){NEW(o,lit)(c.segment(t).begin<T>());}
void d_segi_end_T(lit* o,K& c,const TI& t){NEW(o,lit)(c.segment(t).end<T>());}
void d_segi_begin_T_c(clit* o,const K& c,const TI& t){NEW(o,clit)(c.segment(t).begin<T>());}
void d_segi_end_T_c(clit* o,const K& c,const TI& t){NEW(o,clit)(c.segment(t).end<T>());}
const TI* d_seg_type(const K& c,const TI& t){return &c.segment(t).type_info();}
void d_trav_begin(K::base_segment_info_iterator* o,K& c){NEW(o,K::base_segment_info_iterator)(c.segment_traversal().begin());}
void d_trav_end(K::base_segment_info_iterator* o,K& c){NEW(o,K::base_segment_info_iterator)(c.segment_traversal().end());}
void d_trav_begin_c(K::const_base_segment_info_iterator* o,const K& c){NEW(o,K::const_base_segment_info_iterator)(c.segment_traversal().begin());}
void d_trav_end_c(K::const_base_segment_info_iterator* o,const K& c){NEW(o,K::const_base_segment_info_iterator)(c.segment_traversal().end());}
void d_trav_inc(K::base_segment_info_iterator& o){++o;}
const TI* d_trav_type(K::base_segment_info_iterator& o){return &o->type_info();}
void d_trav_sbegin(lbit* o,K::base_segment_info_iterator& i){NEW(o,lbit)(i->begin());}
void d_trav_send(lbit* o,K::base_segment_info_iterator& i){NEW(o,lbit)(i->end());}
/* conversions of local iterators */
void d_lb_const(clbit* o,lbit& x){NEW(o,clbit)(x);}
void d_lt_const(clit* o,lit& x){NEW(o,clit)(x);}
void d_lb_lt(lit* o,lbit& x){NEW(o,lit)(x);}
void d_lb_clt(clit* o,lbit& x){NEW(o,clit)(x);}
void d_clb_clt(clit* o,clbit& x){NEW(o,clit)(x);}
void d_lt_lb(lbit* o,lit& x){NEW(o,lbit)(x);}
void d_lt_clb(clbit* o,lit& x){NEW(o,clbit)(x);}
void d_clt_clb(clbit* o,clit& x){NEW(o,clbit)(x);}
void d_lb_inc(lbit& x){++x;}
void d_lb_dec(lbit& x){--x;}
void d_lb_add(lbit& x,std::ptrdiff_t n){x+=n;}
void d_lb_plus(lbit* o,lbit& x,std::ptrdiff_t n){NEW(o,lbit)(x+n);}
void d_lb_minus(lbit* o,lbit& x,std::ptrdiff_t n){NEW(o,lbit)(x-n);}
std::ptrdiff_t d_lb_dist(lbit& x,lbit& y){return y-x;}
bool d_lb_eq(lbit& x,lbit& y){return x==y;}
bool d_lb_lt_(lbit& x,lbit& y){return x<y;}
bool d_lb_ge(lbit& x,lbit& y){return x>=y;}
const void* d_lb_deref(lbit& x){return &*x;}
const void* d_lb_sub(lbit& x,std::ptrdiff_t n){return &x[n];}
void d_lt_add(lit& x,std::ptrdiff_t n){x+=n;}
std::ptrdiff_t d_lt_dist(lit& x,lit& y){return y-x;}
const void* d_lt_sub(lit& x,std::ptrdiff_t n){return &x[n];}
/* insertion */
void d_emplace(it* o,K& c,int& a){NEW(o,it)(c.emplace<T>(a));}
void d_emplace_copy(it* o,K& c,const T& a){NEW(o,it)(c.emplace<T>(a));}
void d_emplace_hint(it* o,K& c,cit& h,int& a){NEW(o,it)(c.emplace_hint<T>(h,a));}
void d_emplace_lb(lbit* o,K& c,lbit& h,int& a){NEW(o,lbit)(c.emplace_pos<T>(h,a));}
void d_emplace_clb(lbit* o,K& c,clbit& h,int& a){NEW(o,lbit)(c.emplace_pos<T>(h,a));}
void d_emplace_lt(lit* o,K& c,lit& h,int& a){NEW(o,lit)(c.emplace_pos(h,a));}
void d_emplace_clt(lit* o,K& c,clit& h,int& a){NEW(o,lit)(c.emplace_pos(h,a));}
void d_insert_T(it* o,K& c,const T& x){NEW(o,it)(c.insert(x));}
void d_insert_Tm(it* o,K& c,T& x){NEW(o,it)(c.insert(std::move(x)));}
void d_insert_V(it* o,K& c,const V& x){NEW(o,it)(c.insert(x));}
void d_insert_Vm(it* o,K& c,V& x){NEW(o,it)(c.insert(std::move(x)));}
void d_insert_hint_T(it* o,K& c,cit& h,const T& x){NEW(o,it)(c.insert(h,x));}
void d_insert_hint_Tm(it* o,K& c,cit& h,T& x){NEW(o,it)(c.insert(h,std::move(x)));}
void d_insert_hint_V(it* o,K& c,cit& h,const V& x){NEW(o,it)(c.insert(h,x));}
void d_insert_hint_Vm(it* o,K& c,cit& h,V& x){NEW(o,it)(c.insert(h,std::move(x)));}
void d_insert_lb_T(lbit* o,K& c,lbit& h,const T& x){NEW(o,lbit)(c.insert(h,x));}
void d_insert_clb_Tm(lbit* o,K& c,clbit& h,T& x){NEW(o,lbit)(c.insert(h,std::move(x)));}
void d_insert_clb_V(lbit* o,K& c,clbit& h,const V& x){NEW(o,lbit)(c.insert(h,x));}
void d_insert_lt_T(lit* o,K& c,lit& h,const T& x){NEW(o,lit)(c.insert(h,x));}
void d_insert_clt_Tm(lit* o,K& c,clit& h,T& x){NEW(o,lit)(c.insert(h,std::move(x)));}
void d_insert_clt_V(lit* o,K& c,clit& h,const V& x){NEW(o,lit)(c.insert(h,x));}
/* ranges */
void d_range_T(K& c,TIt f,TIt l){c.insert(f,l);}
void d_range_V(K& c,const V* f,const V* l){c.insert(f,l);}
void d_range_it(K& c,cit& f,cit& l){c.insert(f,l);}
void d_range_clb(K& c,clbit& f,clbit& l){c.insert(f,l);}
void d_range_clt(K& c,clit& f,clit& l){c.insert(f,l);}
void d_hrange_T(K& c,cit& h,TIt f,TIt l){c.insert(h,f,l);}
void d_hrange_V(K& c,cit& h,const V* f,const V* l){c.insert(h,f,l);}
void d_hrange_it(K& c,cit& h,cit& f,cit& l){c.insert(h,f,l);}
void d_hrange_clb(K& c,cit& h,clbit& f,clbit& l){c.insert(h,f,l);}
void d_prange_clb_T(lbit* o,K& c,clbit& h,TIt f,TIt l){NEW(o,lbit)(c.insert(h,f,l));}
void d_prange_clb_V(lbit* o,K& c,clbit& h,const V* f,const V* l){NEW(o,lbit)(c.insert(h,f,l));}
void d_prange_lt_T(lit* o,K& c,lit& h,TIt f,TIt l){NEW(o,lit)(c.insert(h,f,l));}
void d_prange_clt_T(lit* o,K& c,clit& h,TIt f,TIt l){NEW(o,lit)(c.insert(h,f,l));}
/* erasure */
void d_erase(it* o,K& c,cit& p){NEW(o,it)(c.erase(p));}
void d_erase_lb(lbit* o,K& c,lbit& p){NEW(o,lbit)(c.erase(p));}
void d_erase_clb(lbit* o,K& c,clbit& p){NEW(o,lbit)(c.erase(p));}
void d_erase_lt(lit* o,K& c,lit& p){NEW(o,lit)(c.erase(p));}
void d_erase_clt(lit* o,K& c,clit& p){NEW(o,lit)(c.erase(p));}
void d_erase_range(it* o,K& c,cit& f,cit& l){NEW(o,it)(c.erase(f,l));}
void d_erase_range_lb(lbit* o,K& c,lbit& f,lbit& l){NEW(o,lbit)(c.erase(f,l));}
void d_erase_range_clb(lbit* o,K& c,clbit& f,clbit& l){NEW(o,lbit)(c.erase(f,l));}
void d_erase_range_lt(lit* o,K& c,lit& f,lit& l){NEW(o,lit)(c.erase(f,l));}
void d_erase_range_clt(lit* o,K& c,clit& f,clit& l){NEW(o,lit)(c.erase(f,l));}
/* whole collections */
void d_ctor(K* o){NEW(o,K)();}
void d_ctor_al(K* o,const AL& a){NEW(o,K)(a);}
void d_copy(K* o,const K& x){NEW(o,K)(x);}
void d_copy_al(K* o,const K& x,const AL& a){NEW(o,K)(x,a);}
void d_move(K* o,K& x){NEW(o,K)(std::move(x));}
void d_move_al(K* o,K& x,const AL& a){NEW(o,K)(std::move(x),a);}
void d_assign(K& x,const K& y){x=y;}
void d_move_assign(K& x,K& y){x=std::move(y);}
void d_swap(K& x,K& y){x.swap(y);}
void d_fswap(K& x,K& y){swap(x,y);}
void d_dtor(K& x){x.~K();}
bool d_equal(const K& x,const K& y){return x==y;}
bool d_notequal(const K& x,const K& y){return x!=y;}
}
