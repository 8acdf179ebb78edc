#include "adevs/adevs.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
struct T { T(); T(T const&); T const& operator=(T const&); T operator+(T const&) const; T operator-(T const&) const; T const& operator+=(T const&); T const& operator-=(T const&);
 bool operator<(T const&) const; bool operator<=(T const&) const; bool operator>(T const&) const; bool operator>=(T const&) const; bool operator==(T const&) const; bool operator!=(T const&) const; };
template class adevs::Schedule<V,T>;
template class adevs::Graph<V,T>;
template class adevs::Coupled<V,T>;
template class adevs::Simulator<V,T>;
template class adevs::MealyAtomic<V,T>;
