#include <boost/multiprecision/float128.hpp>
#include "ops_impl.h"
ProblemBase *make_problem_q(const ObjSpec &s) { return new Problem<boost::multiprecision::float128>(s); }
