#include "adevs/adevs.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/spline.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
template class adevs::ode_system<V>;
template class adevs::ode_solver<V>;
template class adevs::event_locator<V>;
template class adevs::rk_45<V>;
template class adevs::corrected_euler<V>;
template class adevs::event_locator_impl<V>;
template class adevs::bisection_event_locator<V>;
template class adevs::linear_event_locator<V>;
template class adevs::discontinuous_event_locator<V>;
template class adevs::null_event_locator<V>;
template class adevs::fast_event_locator<V>;
template class adevs::Hybrid<V,double>;
