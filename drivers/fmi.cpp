#include "adevs/adevs.h"
#include "adevs/solvers/fmi.h"
struct V{int i; V(); V(V const&); V const& operator=(V const&);};
template class adevs::ModelExchange<V>;
