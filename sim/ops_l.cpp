#include "ops_impl.h"
ProblemBase *make_problem_l(const ObjSpec &s) { return new Problem<long double>(s); }
std::shared_ptr<void> make_builder_l(const ObjSpec &s) { return make_builder<Matslise<long double>>(s.a, s.a.d("tol", 1e-5)); }
