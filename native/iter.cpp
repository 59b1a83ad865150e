// Bounded stand-in and replay for C12: iterator arithmetic and conversions,
// exhaustively for segments of up to N elements of several sizes.
#include "plain.hpp"
#include <iterator>
namespace vn{
#define P "C12"
long checks=0;
template<typename It,typename Adr>
void arithmetic(It b,It e,std::ptrdiff_t n,Adr adr)
{
  EXPECT(P,e-b==n);EXPECT(P,b-e==-n);
  for(std::ptrdiff_t i=0;i<=n;++i){
    It x=b+i;
    EXPECT(P,x-b==i);EXPECT(P,e-x==n-i);
    {It y=b;y+=i;EXPECT(P,y==x);It z=i+b;EXPECT(P,z==x);}
    {It y=e;y-=n-i;EXPECT(P,y==x);It z=e-(n-i);EXPECT(P,z==x);}
    {It y=b;for(std::ptrdiff_t q=0;q<i;++q)++y;EXPECT(P,y==x);}
    {It y=e;for(std::ptrdiff_t q=n;q>i;--q)--y;EXPECT(P,y==x);}
    {It y=b;for(std::ptrdiff_t q=0;q<i;++q){It o=y++;EXPECT(P,y-o==1);}EXPECT(P,y==x);}
    {It y=e;for(std::ptrdiff_t q=n;q>i;--q){It o=y--;EXPECT(P,o-y==1);}EXPECT(P,y==x);}
    EXPECT(P,std::next(b,i)==x&&std::prev(e,n-i)==x&&std::distance(b,x)==i);
    for(std::ptrdiff_t j=0;j<=n;++j){
      It y=b+j;
      EXPECT(P,y-x==j-i);
      EXPECT(P,(x==y)==(i==j));EXPECT(P,(x!=y)==(i!=j));
      EXPECT(P,(x<y)==(i<j));EXPECT(P,(x<=y)==(i<=j));
      EXPECT(P,(x>y)==(i>j));EXPECT(P,(x>=y)==(i>=j));
      EXPECT(P,x+(j-i)==y);EXPECT(P,y-(j-i)==x);
      {It z=x;z+=j-i;EXPECT(P,z==y);z-=j-i;EXPECT(P,z==x);}
      if(j<n){
        EXPECT(P,adr(x[j-i])==adr(*y));
        EXPECT(P,adr(b[j])==adr(*y));
      }
      ++checks;
    }
  }
}
template<int I> void typed(int n)
{
  using T=E<I>;
  coll c;
  trace().push_back("size "+std::to_string(sizeof(T))+" with "+std::to_string(n)+" elements");
  c.register_types<T,E<99>>();
  for(int k=0;k<n;++k){c.emplace<T>(k);c.emplace<E<99>>(k);}
  const coll& cc=c;
  auto pv=[](const value& x){return pval(x);};
  auto pt=[](const T& x){return &x.v;};
  arithmetic(c.begin(typeid(T)),c.end(typeid(T)),n,pv);
  arithmetic(cc.begin(typeid(T)),cc.end(typeid(T)),n,pv);
  arithmetic(c.begin<T>(),c.end<T>(),n,pt);
  arithmetic(cc.begin<T>(),cc.end<T>(),n,pt);
  arithmetic(c.segment(typeid(T)).begin(),c.segment(typeid(T)).end(),n,pv);
  arithmetic(c.segment<T>().begin(),c.segment<T>().end(),n,pt);
  arithmetic(cc.segment<T>().cbegin(),cc.segment<T>().cend(),n,pt);
  arithmetic(c.segment(typeid(T)).template begin<T>(),c.segment(typeid(T)).template end<T>(),n,pt);
  arithmetic(cc.segment(typeid(T)).template cbegin<T>(),cc.segment(typeid(T)).template cend<T>(),n,pt);
  using LB=coll::local_base_iterator;using CLB=coll::const_local_base_iterator;
  using L=typename coll::local_iterator<T>;using CL=typename coll::const_local_iterator<T>;
  for(std::ptrdiff_t k=0;k<=n;++k){
    LB lb=c.begin(typeid(T))+k;CLB clb=cc.begin(typeid(T))+k;
    L l=c.begin<T>()+k;CL cl=cc.begin<T>()+k;
    /* to const */
    {CLB x=lb;EXPECT(P,x==clb);EXPECT(P,clb==lb&&lb==clb);EXPECT(P,x-cc.begin(typeid(T))==k);}
    {CL x=l;EXPECT(P,x==cl);EXPECT(P,cl==l&&l==cl);EXPECT(P,x-cc.begin<T>()==k);}
    /* base to typed */
    {L x{lb};EXPECT(P,x==l&&x-c.begin<T>()==k);CL y{clb};EXPECT(P,y==cl);CL z{lb};EXPECT(P,z==cl);}
    /* typed to base */
    {LB x{l};EXPECT(P,x==lb&&x-c.begin(typeid(T))==k);CLB y{cl};EXPECT(P,y==clb);CLB z{l};EXPECT(P,z==clb);}
    /* there and back */
    {LB x{L{lb}};EXPECT(P,x==lb);L y{LB{l}};EXPECT(P,y==l);}
    if(k<n){
      const int* p=pval(*lb);
      EXPECT(P,*p==k);
      EXPECT(P,pval(*clb)==p&&&l->v==p&&&(*cl).v==p);
      EXPECT(P,pval(*LB{l})==p&&pval(*CLB{cl})==p&&&(*L{lb}).v==p&&&(*CL{clb}).v==p);
      /* arithmetic goes on from a converted iterator */
      EXPECT(P,pval(*(LB{l}+(n-1-k)))==&(*(l+(n-1-k))).v);
      EXPECT(P,pval(LB{l}[-k])==&l[-k].v);
      EXPECT(P,LB{l}-c.begin(typeid(T))==k&&c.end(typeid(T))-LB{l}==n-k);
    }
  }
  /* global iterators */
  std::size_t q=0;
  coll::const_iterator ci=cc.begin();
  for(coll::iterator it=c.begin();it!=c.end();){
    coll::const_iterator x=it;
    EXPECT(P,x==ci&&ci==x);EXPECT(P,pval(*x)==pval(*it));
    coll::const_iterator y;y=it;EXPECT(P,y==x);
    EXPECT(P,std::distance(c.begin(),it)==(std::ptrdiff_t)q);
    if(q&1){coll::iterator o=it++;EXPECT(P,o!=it);EXPECT(P,pval(*o)==pval(*ci));}
    else ++it;
    ++ci;++q;
  }
  EXPECT(P,ci==cc.end());EXPECT(P,q==2u*(unsigned)n);
  /* segment info iterators */
  {
    std::size_t s=0;
    auto st=c.segment_traversal();auto cst=cc.segment_traversal();
    auto j=cst.begin();
    for(auto i=st.begin();i!=st.end();++i,++j,++s){
      coll::const_base_segment_info_iterator k=i;
      EXPECT(P,k==j);EXPECT(P,(*i).type_info()==(*j).type_info());
    }
    EXPECT(P,j==cst.end()&&s==2);
  }
  trace().clear();
}
template<int I> void all(int N){for(int n=0;n<=N;++n)typed<I>(n);}
}
int main(int argc,char** argv)
{
  using namespace vn;
  install();
  focus()=argv[1];opprops()={"C12"};
  int N=std::atoi(argv[2]);
  where()="exhaustive up to "+std::to_string(N);
  try{all<0>(N);all<1>(N);all<2>(N);all<5>(N);all<6>(N);all<11>(N);all<40>(N);}
  catch(const abort_history&){}
  std::printf("OK histories=%ld\n",checks);
}
