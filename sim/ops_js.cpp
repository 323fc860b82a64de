// Scripts of the simulated JavaScript engine that use the JavaScript module (matslise/js).
#include "ops.h"
#include "js/jsobj.h"
#include <Eigen/Dense>
#include "matslise/matslise.h"
#include "matslise/liouville.h"

using simjs::Node;
using simjs::InMode;

namespace {
    Node *num(double d) { return simjs::mk_num(d); }

    Node *arr(const std::vector<double> &v) {
        simjs::Args a;
        for (double x: v) a.push_back(num(x));
        return simjs::mk_arr(a);
    }

    void values(Node *n, const std::vector<double> &xs, Dig &d, int depth = 0) {
        if (depth > 8) return;
        char t = "ubbnsoafi"[n->type];
        d.bytes(&t, 1);
        switch (n->type) {
            case simjs::BOOL: d.i((long) n->n); break;
            case simjs::NUM: d.s(n->n); break;
            case simjs::STR: d.bytes(n->s.data(), n->s.size()); break;
            case simjs::ARR:
                d.i((long) n->items.size());
                for (Node *x: n->items) values(x, xs, d, depth + 1);
                break;
            case simjs::OBJ: {
                std::map<std::string, Node *> m(n->props.begin(), n->props.end());
                for (auto &p: m) {
                    d.bytes(p.first.data(), p.first.size());
                    values(p.second, xs, d, depth + 1);
                }
                break;
            }
            case simjs::FUNC: // an eigenfunction
                for (double x: xs) values(simjs::call(n, simjs::undef(), {num(x)}), xs, d, depth + 1);
                values(simjs::call(n, simjs::undef(), {arr(xs)}), xs, d, depth + 1);
                break;
            default:
                break;
        }
    }

    bool deletable(Node *n) {
        if (n->type == simjs::INST) return true;
        if (n->type == simjs::FUNC) for (auto &p: n->props) if (p.first == "delete") return true;
        return false;
    }

    void all_of(Node *n, std::vector<Node *> &out, int depth = 0) { // what the script has to delete
        if (depth > 8) return;
        if (deletable(n)) out.push_back(n);
        for (Node *x: n->items) all_of(x, out, depth + 1);
        if (n->type == simjs::OBJ) for (auto &p: n->props) all_of(p.second, out, depth + 1);
    }

    void delete_all(Node *n, long order = 0) {
        std::vector<Node *> v;
        all_of(n, v);
        if (order & 1) std::reverse(v.begin(), v.end());
        for (Node *x: v) simjs::call_method(x, "delete", {});
    }

    struct JsProblem : ProblemBase {
        std::string cls;
        Node *self = nullptr;
        Node *slot[48] = {};

        explicit JsProblem(const ObjSpec &s) {
            spec = s;
            cb.obj = s.id;
            cls = s.a.s("cls", "m");
        }

        bool loose(const StepSpec &s) const override { return s.op == "look"; }

        void clear(int k) {
            Node *n = slot[k];
            slot[k] = nullptr;
            if (n) delete_all(n, plan().cfgkv.i("delorder", 0));
        }

        void drop() override {
            if (spec.a.i("native")) {
                InMode q(rt::LIB);
                am.reset();
                sl.reset();
                m = nullptr;
                h = nullptr;
            }
            Node *n = self;
            self = nullptr;
            built = false;
            if (n) simjs::call_method(n, "delete", {});
        }

        void drop_slots() override { for (int k = 0; k < 48; ++k) clear(k); }

        Node *scalar_fn(int which, int pot) {
            Cb<double> f(&cb, env, which, pot);
            int form = (int) spec.a.i("form");
            return simjs::mk_fn([f, form](Node *, const simjs::Args &a) -> Node * {
                if (a.size() != 1) simjs::fail("Error", "the function got a wrong number of arguments");
                double v = f(simjs::number(a[0]));
                if (form == 1 && (v == 0 || v == 1)) return simjs::mk_bool(v); // booleans are numbers
                return num(v);
            });
        }

        Node *build_it() {
            const KV &a = spec.a;
            const double lo = a.d("lo"), hi = a.d("hi", 1), tol = a.d("tol", 1e-5);
            env = make_env(spec, env);
            if (cls == "s")
                return simjs::construct(simjs::global("SturmLiouville"),
                                        {scalar_fn(1, (int) a.i("pp", 10)), scalar_fn(2, (int) a.i("pot")), scalar_fn(3, (int) a.i("pw", 10)), num(lo), num(hi), num(tol)});
            Node *V = scalar_fn(0, (int) a.i("pot"));
            if (cls == "h") return simjs::construct(simjs::global("MatsliseHalf"), {V, num(hi), num(tol)});
            return simjs::construct(simjs::global("Matslise"), {V, num(lo), num(hi), num(tol)});
        }

        Node *query(const StepSpec &st) {
            const KV &a = st.a;
            const std::string &op = st.op;
            Node *l = arr(a.v("l")), *r = arr(a.v("r"));
            auto call = [&](const char *m, const simjs::Args &x) { return simjs::call_method(self, m, x); };
            Node *i = num((double) a.i("i")), *j = num((double) a.i("j", a.i("i") + 1)), *E = num(a.d("E")), *idx = num((double) a.i("idx", -1));
            if (op == "eidx") return call("eigenvaluesByIndex", {i, j, l, r});
            if (op == "pairs") return call("eigenpairsByIndex", {i, j, l, r});
            if (op == "eerr") return call("eigenvalueError", {E, l, r, idx});
            if (op == "efun" && cls != "s") return call("eigenfunction", {E, l, r, idx});
            if (op == "cefun" && cls != "s") return call("computeEigenfunction", {E, l, r, arr(a.v("xs")), idx});
            if (op == "prop" && cls == "m") return call("propagate", {E, l, num(a.d("x")), num(a.d("x2"))});
            if (op == "sectp" && cls != "s") return call("sectorPoints", {});
            if (op == "bad") {
                switch (a.i("v")) {
                    case 0: return call("eigenvaluesByIndex", {i, j, l});
                    case 1: return call("eigenvaluesByIndex", {i, j, arr({1, 2, 3}), r});
                    case 2: return call("eigenpairsByIndex", {i, j, l, simjs::mk_str("x")});
                    case 3: return call("eigenvalueError", {simjs::undef(), l, r, idx});
                    case 4: return simjs::construct(simjs::global("Matslise"), {scalar_fn(0, 1), num(0), num(1)});
                    case 5: return simjs::construct(simjs::global("AbstractMatslise"), {});
                    case 6: return simjs::call(simjs::get(self, "eigenvaluesByIndex"), arr({1}), {i, j, l, r});
                }
            }
            return nullptr;
        }

        // ---- the same calls of the native library: what its values are compared with
        std::unique_ptr<matslise::AbstractMatslise<double>> am;
        std::unique_ptr<matslise::SturmLiouville<double>> sl;
        matslise::Matslise<> *m = nullptr;
        matslise::MatsliseHalf<> *h = nullptr;
        typedef matslise::AbstractMatslise<double>::Eigenfunction NEig;

        void native_build() {
            const KV &a = spec.a;
            const double lo = a.d("lo"), hi = a.d("hi", 1), tol = a.d("tol", 1e-5);
            env = make_env(spec, env);
            Cb<double> q(&cb, env, cls == "s" ? 2 : 0, (int) a.i("pot"));
            InMode l(rt::LIB);
            if (cls == "s") {
                Cb<double> p(&cb, env, 1, (int) a.i("pp", 10)), w(&cb, env, 3, (int) a.i("pw", 10));
                sl.reset(new matslise::SturmLiouville<double>(p, q, w, {lo, hi}, tol));
            } else if (cls == "h") am.reset(h = new matslise::MatsliseHalf<>(q, hi, tol));
            else am.reset(m = new matslise::Matslise<>(q, {lo, hi}, tol));
        }

        static Node *neig(std::unique_ptr<NEig> f) {
            std::shared_ptr<NEig> g = std::move(f);
            return simjs::mk_fn([g](Node *, const simjs::Args &a) -> Node * {
                if (a[0]->type == simjs::NUM) {
                    Eigen::Array<double, 2, 1> r = lib([&] { return Eigen::Array<double, 2, 1>((*g)(a[0]->n)); });
                    return arr({r[0], r[1]});
                }
                Eigen::ArrayXd x(a[0]->items.size());
                for (long k = 0; k < x.size(); ++k) x[k] = a[0]->items[k]->n;
                Eigen::MatrixXd r = lib([&] { return Eigen::MatrixXd((*g)(x)); });
                simjs::Args v;
                for (long k = 0; k < r.rows(); ++k) v.push_back(arr({r(k, 0), r(k, 1)}));
                return simjs::mk_arr(v);
            });
        }

        static Node *pair(int i, double e) {
            Node *o = simjs::mk_obj();
            simjs::set(o, "index", num(i));
            simjs::set(o, "eigenvalue", num(e));
            return o;
        }

        Node *native_query(const StepSpec &st) {
            using namespace matslise;
            const KV &a = st.a;
            const std::string &op = st.op;
            auto y = [&](const char *k) {
                auto v = a.v(k);
                v.resize(2);
                return Y<>(Eigen::Vector2d(v[0], v[1]), Eigen::Vector2d(0, 0));
            };
            Y<> l = y("l"), r = y("r");
            const double E = a.d("E");
            const int i = (int) a.i("i"), j = (int) a.i("j", i + 1), idx = (int) a.i("idx", -1);
            simjs::Args v;
            if (op == "eidx") {
                auto es = lib([&] { return am ? am->eigenvaluesByIndex(i, j, l, r) : sl->eigenvaluesByIndex(i, j, l, r); });
                for (auto &e: es) v.push_back(pair(e.first, e.second));
                return simjs::mk_arr(v);
            }
            if (op == "pairs") {
                auto es = lib([&] { return am ? am->eigenpairsByIndex(i, j, l, r) : sl->eigenpairsByIndex(i, j, l, r); });
                for (auto &e: es) {
                    v.push_back(pair(std::get<0>(e), std::get<1>(e)));
                    simjs::set(v.back(), "eigenfunction", neig(std::move(std::get<2>(e))));
                }
                return simjs::mk_arr(v);
            }
            if (op == "eerr") return num(lib([&] { return am ? am->eigenvalueError(E, l, r, idx) : sl->eigenvalueError(E, l, r, idx); }));
            if (op == "efun" && am) return neig(lib([&] { return am->eigenfunction(E, l, r, idx); }));
            if (op == "cefun" && am) {
                auto f = lib([&] { return am->eigenfunction(E, l, r, idx); });
                auto xs = a.v("xs");
                Eigen::ArrayXd x(xs.size());
                for (long k = 0; k < x.size(); ++k) x[k] = xs[k];
                Eigen::MatrixXd q = lib([&] { return Eigen::MatrixXd((*f)(x)); });
                for (long k = 0; k < q.rows(); ++k) v.push_back(num(q(k, 0)));
                return simjs::mk_arr(v);
            }
            if (op == "prop" && m) {
                auto p = lib([&] { return m->propagate(E, l, a.d("x"), a.d("x2")); });
                Node *o = simjs::mk_obj();
                simjs::set(o, "y", arr({p.first.y()[0], p.first.y()[1]}));
                simjs::set(o, "theta", num(p.second));
                return o;
            }
            if (op == "sectp" && am) {
                const matslise::Matslise<> *ms = m ? m : h->ms.get();
                for (int k = 1; k < ms->sectorCount; ++k) v.push_back(num(ms->sectors[k]->min));
                return simjs::mk_arr(v);
            }
            return nullptr;
        }

        bool exec(const StepSpec &st, Dig &d) override {
            const KV &a = st.a;
            const std::string &op = st.op;
            const bool native = spec.a.i("native");
            const int sn = (int) a.i("slot");
            if (op == "build") {
                cb.constructing = true;
                cb.thread = rt::self();
                cb.lo = -INFINITY;
                cb.hi = INFINITY;
                if (native) native_build();
                else {
                    Node *n = build_it();
                    if (self) simjs::call_method(self, "delete", {}); // the script lets go of the old one
                    self = n;
                }
                built = true;
                d.i(1);
                return true;
            }
            if (op == "drop") {
                drop();
                return true;
            }
            if (op == "dropslots") {
                drop_slots();
                return true;
            }
            if (op == "rmslot") {
                clear(sn);
                return true;
            }
            if (op == "killenv") return true;
            if (op == "look") {
                if (!slot[sn]) return false;
                values(slot[sn], a.v("xs"), d);
                return true;
            }
            if (op == "again" || op == "dead") { // a deleted object is deleted again, or used
                if (native) return false;
                Node *n;
                if (a.i("f")) { // an eigenfunction
                    std::vector<Node *> v;
                    StepSpec s2 = st;
                    s2.op = cls == "s" ? "pairs" : "efun";
                    Node *q = query(s2);
                    all_of(q, v);
                    if (v.empty()) return false;
                    delete_all(q);
                    n = v[0];
                } else {
                    if (!self) return false;
                    n = self;
                    self = nullptr;
                    built = false;
                    simjs::call_method(n, "delete", {});
                }
                if (op == "again") simjs::call_method(n, "delete", {});
                else if (a.i("f")) simjs::call(n, simjs::undef(), {num(.5)});
                else simjs::call_method(n, "eigenvaluesByIndex", {num(0), num(1), arr({0, 1}), arr({0, 1})});
                return true;
            }
            if (!native && !self) return false;
            Node *n = native ? native_query(st) : query(st);
            if (!n) return false;
            if (a.i("keep")) {
                clear(sn);
                slot[sn] = n;
                d.i(1);
                return true;
            }
            try {
                values(n, a.v("xs"), d);
            } catch (...) {
                delete_all(n);
                throw;
            }
            delete_all(n, a.i("delorder"));
            return true;
        }
    };
}

void js_init() { simjs::run_inits(); }

ProblemBase *make_problem_js(const ObjSpec &s) { return new JsProblem(s); }

void js_finish() {
    std::string names;
    if (long n = simjs::live_instances(&names)) rt::out("\nNOTE jsleak step=-1 %ld C++ objects that no script can delete any more:%s", n, names.c_str());
    if (simjs::live_handles()) rt::out("\nNOTE jsleak step=-1 C++ code still holds %ld JavaScript values", simjs::live_handles());
    simjs::forget_functions();
}
