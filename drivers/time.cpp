#include "../src/adevs.cpp"
#include "adevs/adevs.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
template class adevs::sd_time<TT>;
template class adevs::PinValue<V>;
namespace adevs { namespace vc_use {
inline void use_all() {
    (void)adevs_inf<float>(); (void)adevs_inf<double>();
    pin_t a, b(a); PinValue<V> p, q(p); q = p;
}
}}
