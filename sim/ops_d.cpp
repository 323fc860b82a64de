#include "ops_impl.h"
ProblemBase *make_problem_d(const ObjSpec &s) { return new Problem<double>(s); }
std::shared_ptr<void> make_builder_d(const ObjSpec &s) { return make_builder<Matslise<double>>(s.a, s.a.d("tol", 1e-5)); }
