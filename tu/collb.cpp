/* base_collection, with one driver per public operation under contract. Its
 * segments and its segment map are replaced by their contracts (proved in the
 * packed and map drivers); everything else is the real code. */
#include <boost/poly_collection/base_collection.hpp>
#include <memory>
#include <utility>

namespace pc=boost::poly_collection;

struct B /* itself an element type */
{
  B(int);B(const B&);B(B&&);virtual ~B();
  B& operator=(const B&);B& operator=(B&&);
  bool operator==(const B&)const;
};
struct C final:B
{
  C(int);C(const C&);C(C&&);~C();
  C& operator=(const C&);C& operator=(C&&);
  bool operator==(const C&)const;
  long a[5];
};
struct D final:B
{
  D(int);D(const D&);D(D&&);~D();
  D& operator=(const D&);D& operator=(D&&);
  bool operator==(const D&)const;
  long a[3];
};
using K=pc::base_collection<B>;
using T=C;
using V=K::value_type;
#include "coll.hpp"
