// Scripts of the simulated interpreter that use the Python module (matslise/pyslise).
#include "ops.h"
#include "py/pybind11/pybind11.h"
#include <Eigen/Dense>
#include "matslise/matslise.h"
#include "matslise/liouville.h"
#include "matslise/matscs.h"

using simpy::Obj;
using simpy::Ref;
using simpy::PyError;

namespace {
    int gil_every; // callbacks after which another Python thread may go on
    uint64_t gil_n;
    bool seeded;

    struct Gil {
        bool mine;

        Gil() : mine(!simpy::gil_held()) { if (mine) simpy::gil_acquire(); }

        Gil(const Gil &) = delete;

        ~Gil() { if (mine) simpy::gil_release(); }
    };

    void seed() {
        if (seeded) return;
        seeded = true;
        simpy::gc_seed((uint64_t) plan().cfgkv.i("gcseed", 1), (int) plan().cfgkv.i("gc", 0));
        gil_every = (int) plan().cfgkv.i("gil", 0);
    }

    // the numbers and texts in a result
    void values(Obj *o, Dig &d, int depth = 0) {
        if (!o || depth > 8) return;
        simpy::check(o);
        d.bytes("012345678901234" + o->type, 1);
        switch (o->type) {
            case simpy::INT:
            case simpy::BOOL: d.i(o->i); break;
            case simpy::FLOAT: d.s(o->f); break;
            case simpy::STR: d.bytes(o->s.data(), o->s.size()); break;
            case simpy::LIST:
            case simpy::TUPLE: for (Obj *x: o->items) values(x, d, depth + 1); break;
            case simpy::ARRAY:
                if (o->base) simpy::check(o->base);
                for (long k = 0; k < o->rows * (o->cols < 0 ? 1 : o->cols); ++k) d.s(o->data[k]);
                break;
            default: break;
        }
    }

    bool only_values(Obj *o, int depth = 0) {
        if (!o || depth > 8) return true;
        if (o->type == simpy::INSTANCE || o->type == simpy::FUNC || o->type == simpy::CAPSULE) return false;
        for (Obj *x: o->items) if (!only_values(x, depth + 1)) return false;
        return true;
    }

    std::string digest(Obj *o) {
        Dig d;
        values(o, d);
        return std::to_string(d.h);
    }

    struct Held { // a result a script still has
        Obj *o;
        std::string was;
        int step;
    };
    std::vector<Held> held;
    uint64_t hold_n;

    void unchanged(const Held &h) {
        std::string now = digest(h.o);
        if (now != h.was) rt::out("\nNOTE pyvalue step=%d a result that Python still has changed afterwards: %s, was %s", h.step, now.c_str(), h.was.c_str());
    }

    void check_held() { for (auto &h: held) unchanged(h); }

    void hold(Obj *o, int step) {
        static long every = plan().cfgkv.i("hold", 0);
        if (!every || ++hold_n % every || !only_values(o)) return;
        simpy::incref(o);
        simpy::InMode q(rt::BOX);
        if (held.size() >= 12) {
            unchanged(held[0]);
            simpy::decref(held[0].o);
            held.erase(held.begin());
        }
        held.push_back({o, digest(o), step});
    }

    struct PyProblem : ProblemBase {
        std::string cls;
        Obj *self = nullptr;
        Obj *slot[48] = {};
        int dim = 1;

        explicit PyProblem(const ObjSpec &s) {
            spec = s;
            cb.obj = s.id;
            cls = s.a.s("cls", "m");
            dim = (int) s.a.i("dim", 1);
        }

        bool loose(const StepSpec &s) const override { return s.op == "look" || s.op == "gc"; }

        static void let_go(Obj *&o, bool late) {
            Obj *x = o;
            o = nullptr;
            if (!x) return;
            if (late) simpy::trash(x);
            else simpy::decref(x);
        }

        void drop() override {
            Gil g;
            let_go(self, false);
            if (spec.a.i("native")) {
                native_drop();
                kill_env(*this);
            }
            built = false;
        }

        void drop_slots() override {
            Gil g;
            for (auto &s: slot) let_go(s, false);
        }

        // ---- coefficient functions written in Python
        Obj *closure() { // what the functions refer to; dies with the last of them
            Env *e = make_env(spec, nullptr);
            env = nullptr;
            Obj *c = simpy::alloc(simpy::CAPSULE);
            c->value = e;
            c->finalize = [e] {
                simpy::InMode q(rt::BOX);
                delete e;
            };
            return c;
        }

        template<typename F>
        Obj *function(F f, Obj *holds) {
            Obj *o = simpy::alloc(simpy::FUNC);
            simpy::incref(holds);
            {
                simpy::InMode q(rt::BOX);
                o->patients.push_back(holds);
            }
            o->fn = std::move(f);
            return o;
        }

        static const FaultSpec *badret(const CbCore &cb) {
            StepCtx *c = ctx();
            if (!c) return nullptr;
            for (auto &f: c->spec->faults)
                if (f.kind == FaultSpec::BADRET && (f.which < 0 || f.which == cb.which) && c->cbn == f.n) {
                    ++cb_fired[f.kind];
                    ++c->fired;
                    c->thrown = true;
                    return &f;
                }
            return nullptr;
        }

        static void between() { // other Python code may run here
            simpy::maybe_collect();
            if (gil_every && ++gil_n % gil_every == 0) {
                simpy::gil_release();
                rt::yield_now();
                simpy::gil_acquire();
            }
        }

        static Obj *odd_value(const FaultSpec *f) {
            switch (f->type % 4) {
                case 0: return simpy::none();
                case 1: return simpy::mk_str("1.0");
                case 2: return simpy::mk_list(simpy::TUPLE, {simpy::mk_float(1), simpy::mk_str("x")});
                default: return simpy::mk_list(simpy::LIST, {});
            }
        }

        Obj *scalar_fn(int which, int pot, Obj *cap) {
            Cb<double> f(&cb, (Env *) cap->value, which, pot);
            return function([f](const std::vector<Obj *> &a) -> Obj * {
                if (a.size() != 1) throw PyError{"TypeError", "takes 1 positional argument", nullptr};
                between();
                try {
                    double v = f(a[0]->f);
                    if (auto *b = badret(f)) return odd_value(b);
                    return f.pot == 0 && v == (long) v ? simpy::mk_int((long) v) : simpy::mk_float(v);
                } catch (...) { throw raised(); }
            }, cap);
        }

        Obj *matrix_fn(int pot, Obj *cap) {
            Cb<double> f(&cb, (Env *) cap->value, 0, pot);
            int n = dim;
            bool lists = spec.a.i("lists");
            return function([f, n, lists](const std::vector<Obj *> &a) -> Obj * {
                between();
                try {
                    double x = a[0]->f;
                    double v = f(x);
                    if (auto *b = badret(f)) return b->type % 4 == 3 ? simpy::none() : odd_value(b);
                    std::vector<double> m(n * n);
                    for (int i = 0; i < n; ++i)
                        for (int j = 0; j < n; ++j) m[i + n * j] = i == j ? v + i * (1 + .25 * x) : .1 * (1 + (i + j) * x * .2);
                    if (!lists) return simpy::mk_array(m.data(), n, n);
                    std::vector<Obj *> rows;
                    for (int i = 0; i < n; ++i) {
                        std::vector<Obj *> row;
                        for (int j = 0; j < n; ++j) row.push_back(simpy::mk_float(m[i + n * j]));
                        rows.push_back(simpy::mk_list(simpy::LIST, row));
                    }
                    return simpy::mk_list(simpy::LIST, rows);
                } catch (...) { throw raised(); }
            }, cap);
        }

        // what a Python function raised, as the interpreter passes it on
        static PyError raised() {
            try {
                throw;
            } catch (const PyError &e) {
                return e;
            } catch (const std::exception &e) {
                return PyError{"Exception", e.what(), std::current_exception()};
            } catch (...) {
                return PyError{"Exception", "?", std::current_exception()};
            }
        }

        // ---- arguments
        static Obj *vec(const std::vector<double> &v, int form) {
            if (form == 2) return simpy::mk_array(v.data(), (long) v.size(), -1);
            std::vector<Obj *> r;
            for (double x: v) r.push_back(simpy::mk_float(x));
            return simpy::mk_list(form == 1 ? simpy::TUPLE : simpy::LIST, r);
        }

        static Obj *mat(const std::vector<double> &v, int n, int form) { // column by column
            if (form == 2) return simpy::mk_array(v.data(), n, (long) v.size() / n);
            std::vector<Obj *> rows;
            for (int i = 0; i < n; ++i) {
                std::vector<double> row;
                for (size_t j = 0; j < v.size() / n; ++j) row.push_back(v[i + n * j]);
                rows.push_back(vec(row, form));
            }
            return simpy::mk_list(form == 1 ? simpy::TUPLE : simpy::LIST, rows);
        }

        struct Args { // of one call
            std::vector<Obj *> pos;
            std::map<std::string, Obj *> kw;
            bool named;

            explicit Args(bool named) : named(named) {}

            Args(const Args &) = delete;

            void add(const char *n, Obj *stolen) {
                if (named && n) kw[n] = stolen;
                else pos.push_back(stolen);
            }

            ~Args() {
                for (Obj *o: pos) simpy::decref(o);
                for (auto &k: kw) simpy::decref(k.second);
            }
        };

        Obj *call(const char *m, const Args &a) { return simpy::call_method(self, m, a.pos, a.kw); }

        Obj *make(const char *name, const Args &a) {
            simpy::Class *c = simpy::class_named(name);
            if (!c) throw PyError{"AttributeError", name, nullptr};
            return simpy::construct(c, a.pos, a.kw);
        }

        void jumps(Args &n) {
            if (spec.a.has("jumps")) {
                // positional arguments can not be left out: jumps are always named
                n.kw["jumps"] = vec(spec.a.v("jumps"), 0);
            }
        }

        Obj *transformation(Obj *cap, bool named) {
            const KV &a = spec.a;
            Args n(named);
            n.add("p", scalar_fn(1, (int) a.i("pp", 10), cap));
            n.add("q", scalar_fn(2, (int) a.i("pot"), cap));
            n.add("w", scalar_fn(3, (int) a.i("pw", 10), cap));
            n.add("min", simpy::mk_float(a.d("lo")));
            n.add("max", simpy::mk_float(a.d("hi", 1)));
            if (cls == "s") n.add("tolerance", simpy::mk_float(a.d("tol", 1e-5)));
            return make(cls == "s" ? "SturmLiouville" : "LiouvilleTransformation", n);
        }

        Obj *build_it() {
            const KV &a = spec.a;
            const bool named = a.i("kw");
            Ref cap(closure());
            if (cls == "s" || cls == "t") return transformation(cap.p, named);
            const double lo = a.d("lo"), hi = a.d("hi", 1), tol = a.d("tol", 1e-5);
            const int via = (int) a.i("via");
            Args n(named);
            double vlo = lo, vhi = hi;
            if (via == 1) { // the potential is a method of another object that only this function holds
                Ref lt(transformation(cap.p, named));
                Ref dom(simpy::get_attr(lt.p, "rDomain"));
                vlo = dom.p->items[0]->f;
                vhi = dom.p->items[1]->f;
                Obj *o = lt.p;
                n.add("V", function([o](const std::vector<Obj *> &x) { return simpy::call_method(o, "V", x, {}); }, o));
            } else if (via == 2) { // ... or an eigenfunction of another problem
                Args in(named);
                in.add("V", scalar_fn(0, (int) a.i("pot"), cap.p));
                in.add("min", simpy::mk_float(lo));
                in.add("max", simpy::mk_float(hi));
                in.add("tolerance", simpy::mk_float(1e-3));
                Ref other(make("Pyslise", in));
                Args e(true);
                e.add("E", simpy::mk_float(2.5));
                e.add("left", vec({0, 1}, 1));
                Ref f(simpy::call_method(other.p, "eigenfunction", e.pos, e.kw));
                Obj *o = f.p;
                n.add("V", function([o](const std::vector<Obj *> &x) {
                    between();
                    Ref r(simpy::call_method(o, "__call__", x, {}));
                    return simpy::mk_float(r.p->data[0]);
                }, o));
            } else if (cls == "c") {
                n.add("V", matrix_fn((int) a.i("pot"), cap.p));
            } else {
                n.add("V", scalar_fn(0, (int) a.i("pot"), cap.p));
            }
            if (cls == "c") {
                n.add("dimensions", simpy::mk_int(dim));
                n.add("xmin", simpy::mk_float(lo));
                n.add("xmax", simpy::mk_float(hi));
                if (a.has("n")) n.kw["steps"] = simpy::mk_int(a.i("n"));
                if (a.has("tol")) n.kw["tolerance"] = simpy::mk_float(tol);
                jumps(n);
                return make("Pyscs", n);
            }
            if (cls == "h") n.add("xmax", simpy::mk_float(hi));
            else {
                n.add("min", simpy::mk_float(vlo));
                n.add("max", simpy::mk_float(vhi));
            }
            if (a.has("tol")) n.add("tolerance", simpy::mk_float(tol));
            if (cls == "h") return make("PysliseHalf", n);
            jumps(n);
            if (cls == "m") return make("Pyslise", n);
            if (a.has("K")) n.kw["K"] = mat(a.v("K"), 2, (int) a.i("form"));
            return make("PyslisePeriodic", n);
        }

        // ---- results
        void dig_obj(Obj *o, const std::vector<double> &xs, Dig &d, int depth = 0) {
            if (depth > 8) return;
            if (!o) {
                d.i(-99);
                return;
            }
            simpy::check(o);
            d.bytes("012345678901234" + (o->type == simpy::FUNC || o->type == simpy::CAPSULE ? simpy::INSTANCE : o->type), 1);
            switch (o->type) {
                case simpy::INT:
                case simpy::BOOL:
                    d.i(o->i);
                    break;
                case simpy::FLOAT:
                    d.s(o->f);
                    break;
                case simpy::STR:
                    d.bytes(o->s.data(), o->s.size());
                    break;
                case simpy::LIST:
                case simpy::TUPLE:
                    d.i((long) o->items.size());
                    for (size_t k = 0; k < o->items.size(); ++k) dig_obj(o->items[k], xs, d, depth + 1);
                    break;
                case simpy::ARRAY:
                    if (o->base) simpy::check(o->base);
                    d.i(o->rows);
                    d.i(o->cols);
                    for (long k = 0; k < o->rows * (o->cols < 0 ? 1 : o->cols); ++k) d.s(o->data[k]);
                    break;
                case simpy::CAPSULE: // a sector of the native library
                    for (Obj *x: o->items) dig_obj(x, xs, d, depth + 1);
                    break;
                case simpy::FUNC: { // an eigenfunction of the native library
                    for (double x: xs) {
                        Ref a(simpy::mk_float(x));
                        Ref r(o->fn({a.p}));
                        dig_obj(r.p, xs, d, depth + 1);
                    }
                    Ref a(vec(xs, 0)), r(o->fn({a.p}));
                    dig_obj(r.p, xs, d, depth + 1);
                    break;
                }
                case simpy::INSTANCE:
                    if (o->cls->find("__call__")) {
                        std::vector<std::pair<Ref, std::string>> seen;
                        {
                            simpy::InMode q(rt::BOX);
                            seen.reserve(xs.size());
                        }
                        for (double x: xs) {
                            Args a(false);
                            a.add(nullptr, simpy::mk_float(x));
                            Ref r(simpy::call_method(o, "__call__", a.pos, {}));
                            dig_obj(r.p, xs, d, depth + 1);
                            simpy::InMode q(rt::BOX);
                            std::string v = digest(r.p);
                            seen.emplace_back(std::move(r), std::move(v));
                        }
                        Args a(false);
                        a.add(nullptr, vec(xs, xs.size() % 2 ? 2 : 0));
                        Ref r(simpy::call_method(o, "__call__", a.pos, {}));
                        dig_obj(r.p, xs, d, depth + 1);
                        for (auto &h: seen) unchanged({h.first.p, h.second, ctx() ? ctx()->spec->id : -1});
                    } else {
                        for (auto &at: o->cls->attrs)
                            if (at.second->is_property) {
                                Ref r(simpy::get_attr(o, at.first));
                                dig_obj(r.p, xs, d, depth + 1);
                            }
                    }
                    break;
                default:
                    break;
            }
        }

        Obj *query(const StepSpec &st, Dig &d, bool &known) {
            const KV &a = st.a;
            const std::string &op = st.op;
            known = true;
            const int form = (int) a.i("form");
            const bool one = a.i("one"), named = a.i("kw", 1);
            Args n(named);
            auto bounds = [&] {
                n.add("left", vec(a.v("l"), form));
                if (!one) n.add("right", vec(a.v("r"), form));
            };
            auto num = [&](const char *name, double v) { n.add(name, v == (long) v && form == 0 ? simpy::mk_int((long) v) : simpy::mk_float(v)); };
            const bool per = cls == "p";
            if (op == "eidx" || op == "pairs") {
                n.add(per ? "iMin" : "Imin", simpy::mk_int(a.i("i")));
                n.add(per ? "iMax" : "Imax", simpy::mk_int(a.i("j", a.i("i") + 1)));
                if (!per) bounds();
                return call(op == "eidx" ? "eigenvaluesByIndex" : "eigenpairsByIndex", n);
            }
            if (op == "eigs") {
                num(per ? "eMin" : "Emin", a.d("E"));
                num(per ? "eMax" : "Emax", a.d("E2"));
                if (!per) bounds();
                return call("eigenvalues", n);
            }
            if (op == "eerr" || op == "efun") {
                num("E", a.d("E"));
                if (!per) {
                    bounds();
                    if (a.has("idx")) n.kw["index"] = simpy::mk_int(a.i("idx"));
                }
                return call(op == "eerr" ? "eigenvalueError" : "eigenfunction", n);
            }
            if (op == "prop" && cls == "c") {
                std::vector<double> y = a.v("y"), m(dim * dim), dm(dim * dim);
                y.resize(4);
                for (int k = 0; k < dim * dim; ++k) {
                    m[k] = y[k % 4];
                    dm[k] = y[(k + 1) % 4];
                }
                n.named = false;
                num("E", a.d("E"));
                n.add("y", simpy::mk_list(simpy::TUPLE, {mat(m, dim, form), mat(dm, dim, form)}));
                n.add("a", simpy::mk_float(a.d("x")));
                n.add("b", simpy::mk_float(a.d("x2")));
                return call("propagate", n);
            }
            if (op == "psi") {
                std::vector<double> y = a.v("y"), m(dim * dim);
                y.resize(4);
                for (int k = 0; k < dim * dim; ++k) m[k] = y[k % 4] + (k % (dim + 1) == 0);
                n.named = false;
                num("E", a.d("E"));
                n.add("psi", mat(m, dim, form));
                n.add("a", simpy::mk_float(a.d("x")));
                n.add("b", simpy::mk_float(a.d("x2")));
                return call("propagatePsi", n);
            }
            if (op == "prop") {
                num("E", a.d("E"));
                if (per) n.add("y", mat(a.v("y"), 2, form));
                else n.add("y", vec(a.v("l"), form));
                if (a.has("dy")) n.add("dy", vec(a.v("dy"), form));
                n.add("a", simpy::mk_float(a.d("x")));
                n.add("b", simpy::mk_float(a.d("x2")));
                return call("propagate", n);
            }
            if (op == "merr") {
                num("E", a.d("E"));
                if (!per) {
                    n.add("left", vec(a.v("l"), form));
                    n.add("right", vec(a.v("r"), form));
                }
                return call("__error", n);
            }
            if (op == "sect") {
                Ref c(simpy::get_attr(self, "__sectorCount"));
                n.named = false;
                n.add("i", simpy::mk_int(c.p->i > 0 ? a.i("k") % c.p->i : 0));
                return call("__sector", n);
            }
            if (op == "sects") { // all sectors in a list, as a script would collect them
                Ref c(simpy::get_attr(self, "__sectorCount"));
                std::vector<Obj *> v;
                Ref l(simpy::mk_list(simpy::LIST, {}));
                for (long k = 0; k < c.p->i && k < 6; ++k) {
                    Args m(false);
                    m.add("i", simpy::mk_int(k));
                    Obj *s = call("__sector", m);
                    simpy::InMode q(rt::BOX);
                    l.p->items.push_back(s);
                }
                return l.release();
            }
            if (op == "attrs") {
                Ref l(simpy::mk_list(simpy::LIST, {}));
                for (simpy::Class *c = self->cls; c; c = c->base)
                    for (auto &at: c->attrs)
                        if (at.second->is_property) {
                            Obj *s = simpy::get_attr(self, at.first);
                            simpy::InMode q(rt::BOX);
                            l.p->items.push_back(s);
                        }
                return l.release();
            }
            if (op == "ltq") {
                const char *ms[] = {"V", "r2x", "x2r"};
n.add(a.i("m") % 3 == 1 ? "r" : "x", simpy::mk_float(a.d("x")));
                return call(ms[a.i("m") % 3], n);
            }
            if (op == "bad") {
                switch (a.i("v")) {
                    case 0: // a string for a number
                        n.add("E", simpy::mk_str("1"));
                        bounds();
                        return call("eigenfunction", n);
                    case 1: // too few
                        n.add("Imin", simpy::mk_int(0));
                        return call("eigenvaluesByIndex", n);
                    case 2: // wrong shape
                        n.add("Imin", simpy::mk_int(0));
                        n.add("Imax", simpy::mk_int(1));
                        n.add("left", vec({1, 2, 3}, form));
                        return call("eigenpairsByIndex", n);
                    case 3: { // another kind of object
                        Args m(false);
                        m.add("x", simpy::mk_float(1));
                        m.add("y", vec({1, 2}, form));
                        return call("propagate", m);
                    }
                    case 4: { // a function where there should be none, and None where there should be one
                        Args m(false);
                        m.add(nullptr, simpy::none());
                        m.add(nullptr, simpy::mk_float(0));
                        m.add(nullptr, simpy::mk_float(1));
                        Ref r(make("Pyslise", m));
                        return r.release();
                    }
                    case 5: { // no unit determinant
                        Ref cap(closure());
                        Args m(true);
                        m.add("V", scalar_fn(0, 1, cap.p));
                        m.add("min", simpy::mk_float(0));
                        m.add("max", simpy::mk_float(1));
                        m.add("K", mat({1, 0, 0, 2}, 2, form));
                        return make("PyslisePeriodic", m);
                    }
                    case 6:
                    case 7: { // both or neither of steps and tolerance
                        Ref cap(closure());
                        Args m(true);
                        m.add("V", matrix_fn(1, cap.p));
                        m.add("dimensions", simpy::mk_int(dim));
                        m.add("xmin", simpy::mk_float(0));
                        m.add("xmax", simpy::mk_float(1));
                        if (a.i("v") == 6) {
                            m.add("steps", simpy::mk_int(3));
                            m.add("tolerance", simpy::mk_float(1e-3));
                        }
                        return make("Pyscs", m);
                    }
                    case 8: { // jumps with a fixed number of steps
                        Ref cap(closure());
                        Args m(true);
                        m.add("V", matrix_fn(1, cap.p));
                        m.add("dimensions", simpy::mk_int(dim));
                        m.add("xmin", simpy::mk_float(0));
                        m.add("xmax", simpy::mk_float(1));
                        m.add("steps", simpy::mk_int(3));
                        m.add("jumps", vec({.5}, form));
                        return make("Pyscs", m);
                    }
                }
            }
            known = false;
            return nullptr;
        }

        // ---- the same calls of the native library, without the Python module: what its values are compared with
        struct Native {
            std::unique_ptr<matslise::AbstractMatslise<double>> am;
            matslise::Matslise<> *m = nullptr;
            matslise::MatsliseHalf<> *h = nullptr;
            std::unique_ptr<matslise::PeriodicMatslise<>> p;
            std::unique_ptr<matslise::LiouvilleTransformation<double>> t;
            std::unique_ptr<matslise::SturmLiouville<double>> s;
            std::unique_ptr<matslise::Matscs<>> c;
        } nat;
        typedef matslise::AbstractMatslise<double>::Eigenfunction NEig;

        void native_drop() {
            simpy::InMode q(rt::LIB);
            nat.am.reset();
            nat.p.reset();
            nat.t.reset();
            nat.s.reset();
            nat.c.reset();
        }

        template<typename B>
        static void native_jumps(B &b, const KV &a) {
            double lo = a.d("lo"), hi = a.d("hi", 1);
            for (double j: a.v("jumps")) if (lo < j && j < hi) b.jumps.push_back(j);
            std::sort(b.jumps.begin(), b.jumps.end());
        }

        bool native_build(Dig &d) {
            using namespace matslise;
            using namespace matslise::sector_builder;
            const KV &a = spec.a;
            if (a.i("via")) return false;
            const double lo = a.d("lo"), hi = a.d("hi", 1), tol = a.d("tol", 1e-8);
            native_drop();
            Env *e = env = make_env(spec, env);
            simpy::InMode l(rt::LIB);
            Cb<double> q(&cb, e, cls == "s" || cls == "t" ? 2 : 0, (int) a.i("pot"));
            int count = -1;
            if (cls == "m") {
                AutomaticSectorBuilder<Matslise<>> sb(tol);
                native_jumps(sb, a);
                nat.am.reset(nat.m = new Matslise<>(q, {lo, hi}, tol, sb));
                count = nat.m->sectorCount;
            } else if (cls == "h") {
                nat.am.reset(nat.h = new MatsliseHalf<>(q, hi, tol));
            } else if (cls == "p") {
                AutomaticSectorBuilder<Matslise<>> sb(tol);
                native_jumps(sb, a);
                Eigen::Matrix2d K = Eigen::Matrix2d::Identity();
                if (a.has("K")) {
                    auto v = a.v("K");
                    K << v[0], v[2], v[1], v[3];
                }
                nat.p.reset(new PeriodicMatslise<>(q, lo, hi, tol, sb, K));
            } else if (cls == "c") {
                int n = dim;
                std::function<Eigen::MatrixXd(double)> V = [q, n](double x) -> Eigen::MatrixXd {
                    double v = q(x);
                    Eigen::MatrixXd m(n, n);
                    for (int i = 0; i < n; ++i)
                        for (int j = 0; j < n; ++j) m(i, j) = i == j ? v + i * (1 + .25 * x) : .1 * (1 + (i + j) * x * .2);
                    return m;
                };
                if (a.has("tol") && a.has("n")) return false;
                if (a.has("tol")) {
                    AutomaticSectorBuilder<Matscs<>> sb(tol);
                    native_jumps(sb, a);
                    nat.c.reset(new Matscs<>(V, n, lo, hi, sb));
                } else nat.c.reset(new Matscs<>(V, n, lo, hi, UniformSectorBuilder<Matscs<>>((int) a.i("n"))));
                count = nat.c->sectorCount;
            } else {
                Cb<double> p(&cb, e, 1, (int) a.i("pp", 10)), w(&cb, e, 3, (int) a.i("pw", 10));
                if (cls == "s") nat.s.reset(new SturmLiouville<double>(p, q, w, {lo, hi}, a.d("tol", 1e-5)));
                else nat.t.reset(new LiouvilleTransformation<double>({lo, hi}, p, q, w));
            }
            built = true;
            d.i(1);
            if (count >= 0) d.i(count);
            return true;
        }

        template<typename M>
        static Obj *nmat(const M &m, bool vec) {
            Eigen::MatrixXd x = m;
            return simpy::mk_array(x.data(), vec ? (long) x.size() : (long) x.rows(), vec ? -1 : (long) x.cols());
        }

        static Obj *tup(const std::vector<Obj *> &v) { return simpy::mk_list(simpy::TUPLE, v); }

        static Obj *range(double a, double b) { return tup({simpy::mk_float(a), simpy::mk_float(b)}); }

        static Obj *neig(std::unique_ptr<NEig> f) {
            std::shared_ptr<NEig> g = std::move(f);
            Obj *o = simpy::alloc(simpy::FUNC);
            simpy::InMode q(rt::BOX);
            o->fn = [g](const std::vector<Obj *> &a) -> Obj * {
                if (a[0]->type == simpy::FLOAT) {
                    Eigen::Array<double, 2, 1> r = lib([&] { return Eigen::Array<double, 2, 1>((*g)(a[0]->f)); });
                    return nmat(r, true);
                }
                Eigen::ArrayXd x(a[0]->items.size());
                for (long k = 0; k < x.size(); ++k) x[k] = a[0]->items[k]->f;
                Eigen::MatrixXd r = lib([&] { return Eigen::MatrixXd((*g)(x).transpose()); });
                return nmat(r, false);
            };
            return o;
        }

        static Obj *natt(bool b) { return simpy::mk_bool(b); }

        Obj *native_query(const StepSpec &st) {
            using namespace matslise;
            using namespace matslise::sector_builder;
            const KV &a = st.a;
            const std::string &op = st.op;
            if (a.i("via") || !(nat.am || nat.p || nat.t || nat.s || nat.c)) return nullptr;
            auto y = [&](const char *k) {
                auto v = a.v(k);
                v.resize(2);
                return Y<>(Eigen::Vector2d(v[0], v[1]), Eigen::Vector2d(0, 0));
            };
            Y<> left = y("l"), right = y(a.i("one") ? "l" : "r");
            const double E = a.d("E"), x = a.d("x"), x2 = a.d("x2");
            const int i = (int) a.i("i"), j = (int) a.i("j", i + 1), idx = (int) a.i("idx", -1);
            Ref l(simpy::mk_list(simpy::LIST, {}));
            auto add = [&](Obj *o) {
                simpy::InMode q(rt::BOX);
                l.p->items.push_back(o);
            };
            if (op == "eidx" || op == "eigs") {
                if (cls == "p") {
                    auto r = lib([&] { return op == "eidx" ? nat.p->eigenvaluesByIndex(i, j) : nat.p->eigenvalues(E, a.d("E2")); });
                    for (auto &t: r) add(tup({simpy::mk_int(std::get<0>(t)), simpy::mk_float(std::get<1>(t)), simpy::mk_int(std::get<2>(t))}));
                } else if (cls == "s" && op == "eigs") return nullptr;
                else {
                    auto r = lib([&] {
                        if (cls == "s") return nat.s->eigenvaluesByIndex(i, j, left, right);
                        return op == "eidx" ? nat.am->eigenvaluesByIndex(i, j, left, right) : nat.am->eigenvalues(E, a.d("E2"), left, right);
                    });
                    for (auto &t: r) add(tup({simpy::mk_int(t.first), simpy::mk_float(t.second)}));
                }
                return l.release();
            }
            if (op == "pairs") {
                if (cls == "p") {
                    auto r = lib([&] { return nat.p->eigenpairsByIndex(i, j); });
                    for (auto &t: r) {
                        std::vector<Obj *> fs;
                        for (auto &f: std::get<2>(t)) fs.push_back(neig(std::move(f)));
                        add(tup({simpy::mk_int(std::get<0>(t)), simpy::mk_float(std::get<1>(t)), simpy::mk_list(simpy::LIST, fs)}));
                    }
                } else {
                    auto r = lib([&] { return cls == "s" ? nat.s->eigenpairsByIndex(i, j, left, right) : nat.am->eigenpairsByIndex(i, j, left, right); });
                    for (auto &t: r) add(tup({simpy::mk_int(std::get<0>(t)), simpy::mk_float(std::get<1>(t)), neig(std::move(std::get<2>(t)))}));
                }
                return l.release();
            }
            if (op == "eerr" && nat.am) return simpy::mk_float(lib([&] { return nat.am->eigenvalueError(E, left, right, idx); }));
            if (op == "efun" && nat.am) return neig(lib([&] { return nat.am->eigenfunction(E, left, right, idx); }));
            if (op == "efun" && nat.p) {
                auto r = lib([&] { return nat.p->eigenfunction(E); });
                for (auto &f: r) add(neig(std::move(f)));
                return l.release();
            }
            if (op == "prop" && cls == "m") {
                Y<> y0 = y("l");
                if (a.has("dy")) y0 = Y<>(y0.y(), Eigen::Vector2d(a.v("dy")[0], a.v("dy")[1]));
                auto r = lib([&] { return nat.m->propagate(E, y0, x, x2); });
                if (a.has("dy")) return tup({nmat(r.first.y(), true), nmat(r.first.ydE(), true), simpy::mk_float(r.second)});
                return tup({nmat(r.first.y(), true), simpy::mk_float(r.second)});
            }
            if (op == "prop" && cls == "p") {
                auto v = a.v("y");
                Eigen::Matrix2d m;
                m << v[0], v[2], v[1], v[3];
                Y<double, 1, 2> y0(m, Eigen::Matrix2d::Zero());
                Eigen::Matrix2d r = lib([&] { return Eigen::Matrix2d(nat.p->propagate(E, y0, x, x2).first.y()); });
                return nmat(r, false);
            }
            if ((op == "prop" || op == "psi") && cls == "c") {
                std::vector<double> v = a.v("y");
                v.resize(4);
                Eigen::MatrixXd m(dim, dim), dm(dim, dim);
                for (int k = 0; k < dim * dim; ++k) {
                    m.data()[k] = v[k % 4] + (op == "psi" && k % (dim + 1) == 0);
                    dm.data()[k] = v[(k + 1) % 4];
                }
                if (op == "psi") {
                    auto r = lib([&] { return nat.c->propagatePsi(E, m, x, x2); });
                    return nmat(r, false);
                }
                Y<double, Eigen::Dynamic> y0(dim, dim);
                y0.block() = m;
                y0.block(dX) = dm;
                auto r = lib([&] { return nat.c->propagate(E, y0, x, x2, true); });
                Eigen::MatrixXd b = r.first.block(), bx = r.first.block(dX);
                return tup({tup({nmat(b, false), nmat(bx, false)}), simpy::mk_float(r.second)});
            }
            if (op == "merr" && cls == "m") {
                auto r = lib([&] { return nat.m->matchingError(E, left, y("r")); });
                return tup({simpy::mk_float(std::get<0>(r)), simpy::mk_float(std::get<1>(r)), simpy::mk_float(std::get<2>(r))});
            }
            if (op == "merr" && cls == "p") {
                auto r = lib([&] { return nat.p->matchingError(E); });
                Eigen::Matrix2d e = r.first.y(), de = r.first.ydE();
                double f = e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0);
                double df = de(0, 0) * e(1, 1) + e(0, 0) * de(1, 1) - de(0, 1) * e(1, 0) - e(0, 1) * de(1, 0);
                return tup({simpy::mk_float(f), simpy::mk_float(df), nmat(r.second.matrix(), true)});
            }
            auto sector = [&](int k) {
                Obj *o = simpy::alloc(simpy::CAPSULE);
                std::vector<Obj *> v;
                if (cls == "m") {
                    auto &s = *nat.m->sectors[k];
                    std::vector<Obj *> vs;
                    for (int n = 0; n < MATSLISE_N; ++n) vs.push_back(simpy::mk_float(s.vs[n]));
                    v = {natt(s.direction == Direction::forward), simpy::mk_float(s.max), simpy::mk_float(s.min), simpy::mk_list(simpy::LIST, vs)};
                } else {
                    auto &s = *nat.c->sectors[k];
                    v = {natt(s.direction == Direction::forward), simpy::mk_float(s.max), simpy::mk_float(s.min)};
                }
                simpy::InMode q(rt::BOX);
                o->items = v;
                return o;
            };
            if ((op == "sect" || op == "sects") && (cls == "m" || cls == "c")) {
                int n = cls == "m" ? nat.m->sectorCount : nat.c->sectorCount;
                if (op == "sect") return sector((int) (a.i("k") % n));
                for (int k = 0; k < n && k < 6; ++k) add(sector(k));
                return l.release();
            }
            if (op == "attrs") {
                if (cls == "m") {
                    add(simpy::mk_int(nat.m->matchIndex));
                    add(simpy::mk_int(nat.m->sectorCount));
                }
                if (nat.am) add(range(nat.am->domain.min, nat.am->domain.max));
                else if (cls == "c") {
                    add(simpy::mk_int(nat.c->matchIndex));
                    add(simpy::mk_int(nat.c->sectorCount));
                    add(simpy::mk_float(nat.c->xmax));
                    add(simpy::mk_float(nat.c->xmin));
                } else if (cls == "t") {
                    Ref ps(simpy::mk_list(simpy::LIST, {}));
                    for (auto &p: nat.t->pieces) {
                        Obj *o = range(p.r.min, p.r.max);
                        simpy::InMode q(rt::BOX);
                        ps.p->items.push_back(o);
                    }
                    add(ps.release());
                    add(range(nat.t->rDomain().min, nat.t->rDomain().max));
                    auto dom = lib([&] { return nat.t->xDomain(); });
                    add(range(dom.min, dom.max));
                } else return nullptr;
                return l.release();
            }
            if (op == "ltq")
                return simpy::mk_float(lib([&] { return a.i("m") % 3 == 0 ? nat.t->V(x) : a.i("m") % 3 == 1 ? nat.t->r2x(x) : nat.t->x2r(x); }));
            return nullptr;
        }

        bool run_native(const StepSpec &st, Dig &d) {
            const int sn = (int) st.a.i("slot");
            try {
                if (st.op == "build") return native_build(d);
                if (st.op == "look") {
                    if (!slot[sn]) return false;
                    dig_obj(slot[sn], st.a.v("xs"), d);
                    return true;
                }
                Obj *o = native_query(st);
                if (!o) return false;
                if (st.a.i("keep")) {
                    let_go(slot[sn], false);
                    slot[sn] = o;
                    d.i(1);
                    return true;
                }
                Ref r(o);
                dig_obj(o, st.a.v("xs"), d);
                return true;
            } catch (const PyError &) {
                throw;
            } catch (const std::bad_alloc &e) {
                throw PyError{"MemoryError", e.what(), nullptr};
            } catch (const std::invalid_argument &e) {
                throw PyError{"ValueError", e.what(), nullptr};
            } catch (const std::domain_error &e) {
                throw PyError{"ValueError", e.what(), nullptr};
            } catch (const std::length_error &e) {
                throw PyError{"ValueError", e.what(), nullptr};
            } catch (const std::out_of_range &e) {
                throw PyError{"IndexError", e.what(), nullptr};
            } catch (const std::range_error &e) {
                throw PyError{"ValueError", e.what(), nullptr};
            } catch (const std::overflow_error &e) {
                throw PyError{"OverflowError", e.what(), nullptr};
            } catch (const std::exception &e) {
                throw PyError{"RuntimeError", e.what(), nullptr};
            }
        }

        bool run(const StepSpec &st, Dig &d) {
            if (spec.a.i("native")) return run_native(st, d);
            const KV &a = st.a;
            const std::string &op = st.op;
            const bool late = a.i("late");
            const int sn = (int) a.i("slot");
            if (op == "build") {
                cb.constructing = true;
                cb.thread = rt::self();
                cb.lo = -INFINITY;
                cb.hi = INFINITY;
                Obj *n = build_it();
                let_go(self, late);
                self = n;
                built = true;
                d.i(1);
                if (simpy::Function *f = self->cls->find("__sectorCount")) {
                    (void) f;
                    Ref c(simpy::get_attr(self, "__sectorCount"));
                    d.i(c.p->i);
                }
                return true;
            }
            if (op == "drop") {
                built = false;
                let_go(self, late);
                return true;
            }
            if (op == "dropslots") {
                for (auto &s: slot) let_go(s, late);
                return true;
            }
            if (op == "rmslot") {
                let_go(slot[sn], late);
                return true;
            }
            if (op == "gc") {
                simpy::collect_all();
                return true;
            }
            if (op == "killenv") return true;
            if (op == "look") {
                if (!slot[sn]) return false;
                simpy::incref(slot[sn]);
                Ref keep(slot[sn]);
                dig_obj(keep.p, a.v("xs"), d);
                return true;
            }
            if (!self) return false;
            bool known;
            Obj *o = query(st, d, known);
            if (!known) return false;
            if (a.i("keep")) {
                let_go(slot[sn], late);
                slot[sn] = o;
                d.i(1);
                return true;
            }
            Ref r(o);
            hold(o, st.id);
            dig_obj(o, a.v("xs"), d);
            check_held();
            if (late) simpy::trash(r.release());
            return true;
        }

        bool exec(const StepSpec &st, Dig &d) override {
            Gil g;
            seed();
            simpy::maybe_collect();
            try {
                return run(st, d);
            } catch (const PyError &e) {
                if (e.original) std::rethrow_exception(e.original);
                throw;
            }
        }
    };
}

void sim_pyinit(pybind11::module_ &);

void py_init() { // import of the module
    auto *m = new pybind11::module_();
    sim_pyinit(*m);
    simpy::module_done();
}

ProblemBase *make_problem_py(const ObjSpec &s) { return new PyProblem(s); }

void py_finish() { // nothing is held any more
    Gil g;
    check_held();
    for (auto &h: held) simpy::decref(h.o);
    {
        simpy::InMode q(rt::BOX);
        std::vector<Held>().swap(held);
    }
    simpy::collect_all();
    if (simpy::live_objects())
        rt::out("\nNOTE pyleak step=-1 %ld Python objects never destroyed:%s", simpy::live_objects(), simpy::describe_live().c_str());
}
