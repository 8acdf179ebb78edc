#include "adevs/models.h"
#include "adevs/schedule2.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
struct T { T(); T(T const&); T const& operator=(T const&); T operator+(T const&) const; T operator-(T const&) const; T const& operator+=(T const&); T const& operator-=(T const&);
 bool operator<(T const&) const; bool operator<=(T const&) const; bool operator>(T const&) const; bool operator>=(T const&) const; bool operator==(T const&) const; bool operator!=(T const&) const; };
typedef adevs::Schedule<V,T> S2;
typedef std::shared_ptr<adevs::Atomic<V,T>> P2;
template void adevs::Schedule<V,T>::add(P2);
template void adevs::Schedule<V,T>::remove(P2);
template void adevs::Schedule<V,T>::update(P2);
template void adevs::Schedule<V,T>::remove_next();
template P2 adevs::Schedule<V,T>::get_next() const;
template T adevs::Schedule<V,T>::get_minimum() const;
template void adevs::Schedule<V,T>::clear();
template bool adevs::Schedule<V,T>::empty() const;
template size_t adevs::Schedule<V,T>::size() const;
template void adevs::Schedule<V,T>::update_all();
