/* The algorithms over function_collection.
 * Its segments and its segment map are replaced by their contracts (proved in
 * the split, values and map drivers); everything else is the real code. */
#include <boost/poly_collection/function_collection.hpp>
#include <boost/poly_collection/algorithm.hpp>
#include <memory>
#include <utility>

namespace pc=boost::poly_collection;

struct C
{
  C(int);C(const C&);C(C&&);~C();
  C& operator=(const C&);C& operator=(C&&);
  bool operator==(const C&)const;
  int operator()(int)const;
  long a[5];
};
struct D
{
  D(int);D(const D&);D(D&&);~D();
  D& operator=(const D&);D& operator=(D&&);
  bool operator==(const D&)const;
  int operator()(int)const;
  long a[5];
};
using K=pc::function_collection<int(int)>;

using V=K::value_type;
#include "algo.hpp"
