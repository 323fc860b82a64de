// Coupled systems (Matscs<double>).
#include "ops_impl.h"
#include "matslise/matscs.h"

namespace {
    using MC = Matscs<double>;
    using MX = Eigen::MatrixXd;

    struct CbM : CbCore {
        int n;

        CbM(CbState *st, Env *env, int which, int pot, int n) : CbCore(st, env, which, pot), n(n) {}

        MX operator()(double x) const {
            int old = rt::set_mode(rt::HARNESS);
            struct R {
                int o;

                ~R() { rt::set_mode(o); }
            } r{old};
            double forced = 0;
            bool f = enter(x, forced);
            MX m(n, n);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    m(i, j) = f ? forced : i == j ? pot_value<double>(pot, env->c, x) + i * (1 + .25 * x)
                                                  : .1 * (1 + (i + j) * x * .2);
            return m;
        }
    };

    struct CsProblem : ProblemBase {
        std::unique_ptr<MC> c;
        int n;

        explicit CsProblem(const ObjSpec &s) {
            spec = s;
            cb.obj = s.id;
            n = (int) s.a.i("dim", 2);
        }

        void drop() override {
            lib([&] { c.reset(); });
            built = false;
        }

        void drop_slots() override {}

        void build(Dig &d) {
            const KV &a = spec.a;
            cb.constructing = true;
            cb.thread = rt::self();
            cb.envdead = false;
            env = make_env(spec, env);
            cb.lo = a.d("lo", 0);
            cb.hi = a.d("hi", 1);
            struct End {
                CbState &c;

                ~End() { c.constructing = false; }
            } end{cb};
            Box<double> lo(a.d("lo", 0)), hi(a.d("hi", 1));
            Box<std::function<MX(double)>> f(CbM(&cb, env, 0, (int) a.i("pot", 0), n));
            int o = rt::set_mode(rt::BOX);
            std::shared_ptr<SectorBuilder<MC>> own;
            if (!a.has("sb")) own = make_builder<MC>(a, a.d("tol", 1e-4));
            rt::set_mode(o);
            const SectorBuilder<MC> *sb = own ? own.get() : (const SectorBuilder<MC> *) shared_builder((int) a.i("sb"), "c");
            lib([&] { c.reset(new MC(*f, n, *lo, *hi, *sb)); });
            f.kill();
            own.reset();
            lo.kill();
            hi.kill();
            cb.constructing = false;
            after_build_env(*this);
            built = true;
            d.i((long) c->sectors.size());
            d.i(c->matchIndex);
            for (auto &s: c->sectors) {
                d.s(s->min);
                d.s(s->max);
                for (auto &v: s->vs) d.mat(v);
            }
        }

        MX mat(const std::vector<double> &v, int rows, int cols) {
            MX m(rows, cols);
            for (int j = 0, k = 0; j < cols; ++j)
                for (int i = 0; i < rows; ++i, ++k) m(i, j) = v.empty() ? (i % n == j) : v[k % v.size()] + (i == j);
            return m;
        }

        template<int r>
        std::unique_ptr<Y<double, -1, r>> mky(const std::vector<double> &v, int cols) {
            int o = rt::set_mode(rt::BOX);
            auto y = std::make_unique<Y<double, -1, r>>(n, cols);
            rt::set_mode(o);
            MX m = mat(v, 2 * n, cols);
            y->y() = m;
            return y;
        }

        bool exec(const StepSpec &st, Dig &d) override {
            const KV &a = st.a;
            const std::string &op = st.op;
            if (op == "build") {
                build(d);
                return true;
            }
            if (op == "drop") {
                drop();
                return true;
            }
            if (op == "dropslots") return true;
            if (op == "killenv") {
                kill_env(*this);
                return true;
            }
            if (!c) return false;
            Box<double> E(a.d("E")), x0(a.d("x")), x1(a.d("x2"));
            const bool h = a.i("h", 1);
            auto killall = [&] {
                E.kill();
                x0.kill();
                x1.kill();
            };
            const MC &m = *c;
            if (op == "prop") {
                auto y = mky<-1>(a.v("y"), n);
                auto v = lib([&] { return m.propagate(*E, *y, *x0, *x1, h); });
                y.reset();
                killall();
                d.mat(v.first.data);
                d.s(v.second);
                return true;
            }
            if (op == "propc") {
                if (a.i("r") == 1) {
                    auto y = mky<1>(a.v("y"), 1);
                    auto v = lib([&] { return m.propagateColumn<1>(*E, *y, *x0, *x1, h); });
                    y.reset();
                    killall();
                    d.mat(v.data);
                } else {
                    auto y = mky<-1>(a.v("y"), n);
                    auto v = lib([&] { return m.propagateColumn<-1>(*E, *y, *x0, *x1, h); });
                    y.reset();
                    killall();
                    d.mat(v.data);
                }
                return true;
            }
            if (op == "psi") {
                int o = rt::set_mode(rt::BOX);
                auto p = std::make_unique<MX>(n, n);
                rt::set_mode(o);
                *p = mat(a.v("y"), n, n);
                MX v = lib([&] { return m.propagatePsi(*E, *p, *x0, *x1); });
                p.reset();
                killall();
                d.mat(v);
                return true;
            }
            if (op == "csef") { // eigenfunction in a list of points (the list is sorted and trimmed, the result belongs to the caller)
                int o = rt::set_mode(rt::BOX);
                auto xs = std::make_unique<std::vector<double>>(a.v("xs"));
                rt::set_mode(o);
                std::unique_ptr<std::vector<Y<double, -1>>> v(lib([&] { return m.eigenfunction(*E, *xs); }));
                d.i((long) xs->size());
                for (double x: *xs) d.s(x);
                std::vector<double> kept(xs->begin(), xs->end());
                xs.reset();
                d.i((long) v->size());
                for (auto &y: *v) d.mat(y.data);
                if (v->size() != kept.size())
                    rt::out("\nNOTE batch step=%d %zu values for %zu points", rt::current_step(), v->size(), kept.size());
                else for (size_t i = 0; i < kept.size() && a.i("batch"); ++i) {
                    o = rt::set_mode(rt::BOX);
                    auto one = std::make_unique<std::vector<double>>(1, kept[i]);
                    rt::set_mode(o);
                    std::unique_ptr<std::vector<Y<double, -1>>> alone(lib([&] { return m.eigenfunction(*E, *one); }));
                    const auto &t = (*v)[i].data;
                    if (alone->size() != 1 || !(((*alone)[0].data - t).array().abs() <= 1e-7 * t.array().abs().maxCoeff()).all())
                        if (alone->size() != 1 || (*alone)[0].data.allFinite() != t.allFinite() || t.allFinite())
                            rt::out("\nNOTE batch step=%d x=%.17g: alone %zu values, or another one than together", rt::current_step(), kept[i], alone->size());
                    lib([&] { alone.reset(); });
                }
                killall();
                lib([&] { v.reset(); });
                return true;
            }
            if (op == "sect" || op == "sorph") {
                const auto &s0 = *m.sectors[(size_t) a.i("k") % m.sectors.size()];
                auto look = [&](const typename MC::Sector &s) {
                    double dl = (s.max - s.min) * a.d("f", .5);
                    auto t1 = lib([&] { return s.calculateT(*E, h); });
                    auto t2 = lib([&] { return s.calculateT(*E, dl, h); });
                    d.mat(t1.t);
                    d.mat(t1.dt);
                    d.mat(t2.t);
                    d.mat(t2.dt);
                    d.s(lib([&] { return s.error(); }));
                };
                if (op == "sect" || a.i("warm")) look(s0);
                if (op == "sorph") {
                    std::unique_ptr<typename MC::Sector> copy = lib([&] { return std::make_unique<typename MC::Sector>(s0); });
                    drop();
                    look(*copy);
                    lib([&] { copy.reset(); });
                }
                killall();
                return true;
            }
            return false;
        }
    };
}

ProblemBase *make_problem_cs(const ObjSpec &s) { return new CsProblem(s); }

std::shared_ptr<void> make_builder_cs(const ObjSpec &s) { return make_builder<Matscs<double>>(s.a, s.a.d("tol", 1e-4)); }
