/* drivers of the algorithms, shared by the algorithm translation units: K
 * collection, V its value type, C and D element types of equal size.
 * Functors, comparands and output iterators are opaque. */
using it=K::iterator;
using cit=K::const_iterator;
using lbit=K::local_base_iterator;
using lit=K::local_iterator<C>;
using TI=std::type_info;
#define NEW(P,X) ::new((void*)P) X

struct X{long a[2];}; /* elements of the other sequence, comparands */
template<class A> bool operator==(const A&,const X&);
struct It2 /* forward iterator over X */
{
  using iterator_category=std::forward_iterator_tag;
  using value_type=X;
  using difference_type=std::ptrdiff_t;
  using pointer=const X*;
  using reference=const X&;
  const X* p;
  const X& operator*()const{return *p;}
  It2& operator++(){++p;return *this;}
  It2 operator++(int){It2 t=*this;++p;return t;}
  bool operator==(const It2& x)const{return p==x.p;}
  bool operator!=(const It2& x)const{return p!=x.p;}
};
struct Pred{template<class A> bool operator()(const A&)const;};
struct Pred2{template<class A,class B> bool operator()(const A&,const B&)const;};
struct Fn{long n;template<class A> void operator()(A&);};
struct R{long v;};
struct Op{template<class A> R operator()(const A&)const;};
struct Op2{template<class A> R operator()(const A&,const X&)const;};
template<int I> struct Out /* output iterator */
{
  using iterator_category=std::output_iterator_tag;
  using value_type=void;
  using difference_type=std::ptrdiff_t;
  using pointer=void;
  using reference=void;
  struct ref{long i;template<class A> void operator=(A&&)const;};
  long i;
  ref operator*()const{return ref{i};}
  Out& operator++(){++i;return *this;}
  Out operator++(int){Out t=*this;++i;return t;}
};
using O0=Out<0>;
using O1=Out<1>;

extern "C"{
unsigned long d_sizeof_K(){return sizeof(K);}
void d_ctor(K* o){NEW(o,K)();}
void d_begin(it* o,K& c){NEW(o,it)(c.begin());}
void d_lbegin(lbit* o,K& c,const TI& t){NEW(o,lbit)(c.begin(t));}
void d_lbegin_T(lit* o,K& c){NEW(o,lit)(c.begin<C>());}
void d_trav_begin(K::base_segment_info_iterator* o,K& c){NEW(o,K::base_segment_info_iterator)(c.segment_traversal().begin());}
}
#define ALGS(S,TS) \
extern "C"{ \
bool d_all_of##S(cit& f,cit& l){return pc::all_of TS(f,l,Pred{});} \
bool d_any_of##S(cit& f,cit& l){return pc::any_of TS(f,l,Pred{});} \
bool d_none_of##S(cit& f,cit& l){return pc::none_of TS(f,l,Pred{});} \
void d_for_each##S(Fn* o,it& f,it& l,Fn& g){NEW(o,Fn)(pc::for_each TS(f,l,g));} \
void d_for_each_n##S(it* o,it& f,long n,Fn& g){NEW(o,it)(pc::for_each_n TS(f,n,g));} \
void d_find##S(cit* o,cit& f,cit& l,const X& x){NEW(o,cit)(pc::find TS(f,l,x));} \
void d_find_if##S(cit* o,cit& f,cit& l){NEW(o,cit)(pc::find_if TS(f,l,Pred{}));} \
void d_find_if_not##S(cit* o,cit& f,cit& l){NEW(o,cit)(pc::find_if_not TS(f,l,Pred{}));} \
void d_find_first_of##S(cit* o,cit& f,cit& l,It2& f2,It2& l2){NEW(o,cit)(pc::find_first_of TS(f,l,f2,l2));} \
void d_find_first_of_p##S(cit* o,cit& f,cit& l,It2& f2,It2& l2){NEW(o,cit)(pc::find_first_of TS(f,l,f2,l2,Pred2{}));} \
void d_adjacent_find##S(cit* o,cit& f,cit& l){NEW(o,cit)(pc::adjacent_find TS(f,l,Pred2{}));} \
long d_count##S(cit& f,cit& l,const X& x){return pc::count TS(f,l,x);} \
long d_count_if##S(cit& f,cit& l){return pc::count_if TS(f,l,Pred{});} \
void d_mismatch3##S(cit* o,It2* o2,cit& f,cit& l,It2& f2){auto r=pc::mismatch TS(f,l,f2,Pred2{});NEW(o,cit)(r.first);NEW(o2,It2)(r.second);} \
void d_mismatch4##S(cit* o,It2* o2,cit& f,cit& l,It2& f2,It2& l2){auto r=pc::mismatch TS(f,l,f2,l2,Pred2{});NEW(o,cit)(r.first);NEW(o2,It2)(r.second);} \
void d_mismatch_eq##S(cit* o,It2* o2,cit& f,cit& l,It2& f2,It2& l2){auto r=pc::mismatch TS(f,l,f2,l2);NEW(o,cit)(r.first);NEW(o2,It2)(r.second);} \
bool d_equal3##S(cit& f,cit& l,It2& f2){return pc::equal TS(f,l,f2,Pred2{});} \
bool d_equal4##S(cit& f,cit& l,It2& f2,It2& l2){return pc::equal TS(f,l,f2,l2,Pred2{});} \
bool d_equal_eq##S(cit& f,cit& l,It2& f2,It2& l2){return pc::equal TS(f,l,f2,l2);} \
bool d_is_permutation3##S(cit& f,cit& l,It2& f2){return pc::is_permutation TS(f,l,f2,Pred2{});} \
bool d_is_permutation4##S(cit& f,cit& l,It2& f2,It2& l2){return pc::is_permutation TS(f,l,f2,l2,Pred2{});} \
void d_search##S(cit* o,cit& f,cit& l,It2& f2,It2& l2){NEW(o,cit)(pc::search TS(f,l,f2,l2,Pred2{}));} \
void d_find_end##S(cit* o,cit& f,cit& l,It2& f2,It2& l2){NEW(o,cit)(pc::find_end TS(f,l,f2,l2,Pred2{}));} \
void d_search_n##S(cit* o,cit& f,cit& l,long n,const X& x){NEW(o,cit)(pc::search_n TS(f,l,n,x,Pred2{}));} \
bool d_is_partitioned##S(cit& f,cit& l){return pc::is_partitioned TS(f,l,Pred{});} \
void d_partition_point##S(cit* o,cit& f,cit& l){NEW(o,cit)(pc::partition_point TS(f,l,Pred{}));} \
void d_copy##S(O0* o,cit& f,cit& l,O0& r){NEW(o,O0)(pc::copy TS(f,l,r));} \
void d_copy_n##S(O0* o,cit& f,long n,O0& r){NEW(o,O0)(pc::copy_n TS(f,n,r));} \
void d_copy_if##S(O0* o,cit& f,cit& l,O0& r){NEW(o,O0)(pc::copy_if TS(f,l,r,Pred{}));} \
void d_move##S(O0* o,it& f,it& l,O0& r){NEW(o,O0)(pc::move TS(f,l,r));} \
void d_transform##S(O0* o,it& f,it& l,O0& r){NEW(o,O0)(pc::transform TS(f,l,r,Op{}));} \
void d_transform2##S(O0* o,it& f,it& l,It2& f2,O0& r){NEW(o,O0)(pc::transform TS(f,l,f2,r,Op2{}));} \
void d_replace_copy##S(O0* o,cit& f,cit& l,O0& r,const X& x,const X& y){NEW(o,O0)(pc::replace_copy TS(f,l,r,x,y));} \
void d_replace_copy_if##S(O0* o,cit& f,cit& l,O0& r,const X& y){NEW(o,O0)(pc::replace_copy_if TS(f,l,r,Pred{},y));} \
void d_remove_copy##S(O0* o,cit& f,cit& l,O0& r,const X& x){NEW(o,O0)(pc::remove_copy TS(f,l,r,x));} \
void d_remove_copy_if##S(O0* o,cit& f,cit& l,O0& r){NEW(o,O0)(pc::remove_copy_if TS(f,l,r,Pred{}));} \
void d_unique_copy##S(O0* o,cit& f,cit& l,O0& r){NEW(o,O0)(pc::unique_copy TS(f,l,r,Pred2{}));} \
void d_rotate_copy##S(O0* o,cit& f,cit& m,cit& l,O0& r){NEW(o,O0)(pc::rotate_copy TS(f,m,l,r));} \
void d_partition_copy##S(O0* o,O1* p,cit& f,cit& l,O0& r,O1& s){auto x=pc::partition_copy TS(f,l,r,s,Pred{});NEW(o,O0)(x.first);NEW(p,O1)(x.second);} \
}
struct Gen{using result_type=unsigned;static constexpr unsigned min(){return 0;}static constexpr unsigned max(){return 0xffffffffu;}unsigned operator()();};
#define ALGS2(S,TS) extern "C"{ \
void d_sample##S(O0* o,cit& f,cit& l,O0& r,long n,Gen& g){NEW(o,O0)(pc::sample TS(f,l,r,n,g));} \
}
#define NONE
#define CD <D,C>
ALGS(,NONE)
ALGS(_T,CD)
ALGS2(,NONE)
ALGS2(_T,CD)
extern "C" long d_fast_distance(cit& f,cit& l){return pc::detail::algorithm::fast_distance(f,l);}
