#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
template class adevs::CVODE<V>;
