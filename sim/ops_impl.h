// Template implementation of the operations on every kind of problem except coupled systems.
#pragma once
#include "ops.h"
#include "matslise/matslise.h"
#include "matslise/liouville.h"

using namespace matslise;
using matslise::sector_builder::AutomaticSectorBuilder;
using matslise::sector_builder::UniformSectorBuilder;
using matslise::sector_builder::SectorBuilder;
using matslise::sector_builder::SectorBuilderReturn;

template<typename P>
struct UserBuilder : SectorBuilder<P> { // a user-defined division strategy: uniform, made in two passes
    using S = typename P::Scalar;
    int n;

    explicit UserBuilder(int n) : n(n) {}

    SectorBuilderReturn<P> operator()(const P *p, const S &min, const S &max) const override {
        builder_fault_point(1);
        SectorBuilderReturn<P> r = UniformSectorBuilder<P>(n)(p, min, max);
        builder_fault_point(2);
        return r;
    }
};

// makes a builder (in the current mode) from a spec
template<typename P>
std::shared_ptr<SectorBuilder<P>> make_builder(const KV &a, double tol) {
    using S = typename P::Scalar;
    std::string b = a.s("b", "auto");
    if (b == "auto") {
        auto r = std::make_shared<AutomaticSectorBuilder<P>>(S(a.d("btol", tol)));
        for (double j: a.v("jumps")) r->jumps.push_back(S(j));
        return r;
    }
    if (b == "uni") return std::make_shared<UniformSectorBuilder<P>>((int) a.i("n", 4));
    return std::make_shared<UserBuilder<P>>((int) a.i("n", 4));
}

template<typename S>
Y<S> mkY(const std::vector<double> &v) {
    Eigen::Matrix<S, 2, 1> a, b;
    a << S(v.size() > 0 ? v[0] : 0), S(v.size() > 1 ? v[1] : 0);
    b << S(v.size() > 2 ? v[2] : 0), S(v.size() > 3 ? v[3] : 0);
    return Y<S>(a, b);
}

template<typename S>
struct Problem : ProblemBase {
    using M = Matslise<S>;
    using EF = typename AbstractMatslise<S>::Eigenfunction;
    std::unique_ptr<AbstractMatslise<S>> am;
    M *m = nullptr;
    MatsliseHalf<S> *hf = nullptr;
    std::unique_ptr<PeriodicMatslise<S>> per;
    std::unique_ptr<LiouvilleTransformation<S>> lt;
    std::unique_ptr<SturmLiouville<S>> sl;
    std::unique_ptr<EF> slot[48];
    typedef Eigen::Array<S, Eigen::Dynamic, 1> AX;

    explicit Problem(const ObjSpec &s) {
        spec = s;
        cb.obj = s.id;
    }

    const M *mats() const {
        if (m) return m;
        if (hf) return hf->ms.get();
        if (per) return &per->matslise;
        return nullptr;
    }

    void drop() override {
        lib([&] {
            am.reset();
            per.reset();
            lt.reset();
            sl.reset();
        });
        m = nullptr;
        hf = nullptr;
        built = false;
    }

    void drop_slots() override {
        lib([&] { for (auto &s: slot) s.reset(); });
    }

    static void dig_m(const M &m, Dig &d) {
        d.i((long) m.sectors.size());
        d.i(m.matchIndex);
        d.i(m.sectorCount);
        d.s(m.domain.min);
        d.s(m.domain.max);
        for (auto &s: m.sectors) {
            d.s(s->min);
            d.s(s->max);
            d.i(s->direction == forward);
            for (auto &v: s->vs) d.s(v);
        }
    }

    static void dig_y(const Y<S> &y, Dig &d) { d.mat(y.data); }

    // evaluates an eigenfunction one by one and all at once; reports points where the two differ
    void dig_ef(const EF &f, const std::vector<double> &xs, Dig &d, bool batch) {
        std::vector<double> x = xs;
        // in the matching point the two halves of a function that is not an eigenfunction differ: both values are right
        double edge = NAN;
        if (const M *mm = mats())
            if (mm->matchIndex >= 0 && mm->matchIndex < (int) mm->sectors.size()) edge = (double) mm->sectors[mm->matchIndex]->max;
        std::vector<std::array<S, 2>> one;
        for (double v: x) {
            Box<S> bx{S(v)};
            Eigen::Array<S, 2, 1> r = lib([&] { return Eigen::Array<S, 2, 1>(f(*bx)); });
            bx.kill();
            d.mat(r);
            one.push_back({r[0], r[1]});
        }
        if (!batch) return;
        int o = rt::set_mode(rt::BOX);
        auto ax = std::make_unique<AX>((Eigen::Index) x.size());
        rt::set_mode(o);
        for (size_t i = 0; i < x.size(); ++i) (*ax)[i] = S(x[i]);
        Eigen::Array<S, Eigen::Dynamic, 2> r = lib([&] { return f(*ax); });
        ax.reset();
        S scale[2] = {S(1e-300), S(1e-300)};
        for (auto &v: one)
            for (int k = 0; k < 2; ++k)
                if (v[k] == v[k]) scale[k] = std::max(scale[k], S(v[k] < 0 ? -v[k] : v[k]));
        for (size_t i = 0; i < x.size(); ++i) {
            d.s(r(i, 0));
            d.s(r(i, 1));
            if (std::fabs(std::fabs(x[i]) - std::fabs(edge)) < 1e-9 * (1 + std::fabs(edge))) continue;
            for (int k = 0; k < 2; ++k) {
                S a = one[i][k], b = r(i, k);
                bool an = !(a == a), bn = !(b == b);
                S diff = a < b ? b - a : a - b;
                if (an != bn || (!an && !(diff <= scale[k] * S(1e-7)) && a != b))
                    rt::out("\nNOTE batch step=%d x=%.17g component %d alone %.17g together %.17g", rt::current_step(), x[i], k,
                            (double) a, (double) b);
            }
        }
    }

    std::function<S(S)> fun(int which, const char *key) {
        return std::function<S(S)>(Cb<S>(&cb, env, which, (int) spec.a.i(key, 0)));
    }

    void build(Dig &d) {
        const KV &a = spec.a;
        cb.constructing = true;
        cb.thread = rt::self();
        cb.lt = spec.kind == "t";
        cb.envdead = false;
        env = make_env(spec, env);
        const S lo = S(a.d("lo", 0)), hi = S(a.d("hi", 1)), tol = S(a.d("tol", 1e-5));
        cb.lo = spec.kind == "h" ? 0 : a.d("lo", 0);
        cb.hi = a.d("hi", 1);
        struct End {
            CbState &c;

            ~End() { c.constructing = false; }
        } end{cb};
        Box<S> blo(lo), bhi(hi), btol(tol);
        if (spec.kind == "t" || spec.kind == "s") {
            Box<std::function<S(S)>> p(Cb<S>(&cb, env, 1, (int) a.i("pp", 10))), q(Cb<S>(&cb, env, 2, (int) a.i("pot", 0))),
                    w(Cb<S>(&cb, env, 3, (int) a.i("pw", 10)));
            Box<Domain<S>> dom(Domain<S>{lo, hi});
            if (spec.kind == "t")
                lib([&] { lt.reset(new LiouvilleTransformation<S>(*dom, *p, *q, *w)); });
            else
                lib([&] { sl.reset(new SturmLiouville<S>(*p, *q, *w, *dom, *btol)); });
            p.kill();
            q.kill();
            w.kill();
            dom.kill();
        } else {
            Box<std::function<S(const S &)>> f(Cb<S>(&cb, env, 0, (int) a.i("pot", 0)));
            Box<std::function<S(S)>> f2(Cb<S>(&cb, env, 0, (int) a.i("pot", 0)));
            std::shared_ptr<SectorBuilder<M>> own;
            const SectorBuilder<M> *sb = nullptr;
            if (a.has("sb")) sb = (const SectorBuilder<M> *) shared_builder((int) a.i("sb"), spec.scal);
            else if (a.s("b") != "def") {
                int o = rt::set_mode(rt::BOX);
                own = make_builder<M>(a, a.d("tol", 1e-5));
                rt::set_mode(o);
                sb = own.get();
            }
            if (spec.kind == "m") {
                Box<Domain<S>> dom(Domain<S>{lo, hi});
                lib([&] {
                    if (!sb) m = new M(*f, *blo, *bhi, *btol);
                    else if (a.i("ctor")) m = new M(*f, *blo, *bhi, *btol, *sb);
                    else m = new M(*f, *dom, *btol, *sb);
                    am.reset(m);
                });
                dom.kill();
            } else if (spec.kind == "h") {
                lib([&] {
                    if (!sb) hf = new MatsliseHalf<S>(*f2, *bhi, *btol);
                    else hf = new MatsliseHalf<S>(*f2, *bhi, *btol, *sb);
                    am.reset(hf);
                });
            } else {
                Eigen::Matrix<S, 2, 2> k0;
                std::vector<double> kv = a.v("K");
                if (kv.size() == 4) k0 << S(kv[0]), S(kv[1]), S(kv[2]), S(kv[3]);
                else k0.setIdentity();
                Box<Eigen::Matrix<S, 2, 2>> K(k0);
                lib([&] {
                    if (!sb) per.reset(new PeriodicMatslise<S>(*f, *blo, *bhi, *btol, *K));
                    else per.reset(new PeriodicMatslise<S>(*f, *blo, *bhi, *btol, *sb, *K));
                });
                K.kill();
            }
            f.kill();
            f2.kill();
            own.reset();
        }
        blo.kill();
        bhi.kill();
        btol.kill();
        cb.constructing = false;
        after_build_env(*this);
        built = true;
        if (const M *mm = mats()) dig_m(*mm, d);
        if (lt) {
            d.i((long) lt->pieces.size());
            d.s(lt->xDomain().min);
            d.s(lt->xDomain().max);
            for (auto &p: lt->pieces) {
                d.s(p.r.min);
                d.s(p.r.max);
                d.s(p.x.min);
                d.s(p.x.max);
            }
        }
    }

    template<typename V>
    static void dig_evs(const V &v, Dig &d) {
        d.i((long) v.size());
        for (auto &e: v) {
            d.i(e.first);
            d.s(e.second);
        }
    }

    bool exec(const StepSpec &st, Dig &d) override {
        const KV &a = st.a;
        const std::string &op = st.op;
        if (op == "build") {
            build(d);
            return true;
        }
        if (op == "drop") {
            drop();
            return true;
        }
        if (op == "dropslots") {
            drop_slots();
            return true;
        }
        if (op == "killenv") {
            kill_env(*this);
            return true;
        }
        Box<Y<S>> l(mkY<S>(a.v("l"))), r(mkY<S>(a.v("r")));
        Box<S> E{S(a.d("E"))}, E2{S(a.d("E2"))}, x0{S(a.d("x"))}, x1{S(a.d("x2"))};
        const int i0 = (int) a.i("i"), i1 = (int) a.i("j", i0 + 1), idx = (int) a.i("idx", -1), sn = (int) a.i("slot");
        const bool h = a.i("h", 1);
        auto killall = [&] {
            l.kill();
            r.kill();
            E.kill();
            E2.kill();
            x0.kill();
            x1.kill();
        };
        if (op == "ev" || op == "evb") {
            if (!slot[sn]) return false;
            killall();
            dig_ef(*slot[sn], a.v("xs"), d, op == "evb");
            return true;
        }
        if (op == "rmslot") {
            lib([&] { slot[sn].reset(); });
            return true;
        }
        if (am) { // full and half range
            if (op == "eidx") {
                auto v = lib([&] { return a.i("one") ? am->eigenvaluesByIndex(i0, i1, *l) : am->eigenvaluesByIndex(i0, i1, *l, *r); });
                killall();
                dig_evs(v, d);
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
            if (op == "eigs") {
                auto v = lib([&] { return a.i("one") ? am->eigenvalues(*E, *E2, *l) : am->eigenvalues(*E, *E2, *l, *r); });
                killall();
                dig_evs(v, d);
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
            if (op == "eerr") {
                S e = lib([&] { return am->eigenvalueError(*E, *l, *r, idx); });
                killall();
                d.s(e);
                return true;
            }
            if (op == "minp") {
                d.s(lib([&] { return am->estimatePotentialMinimum(); }));
                return true;
            }
            if (op == "efun") {
                auto f = lib([&] { return am->eigenfunction(*E, *l, *r, idx); });
                killall();
                dig_ef(*f, a.v("xs"), d, a.i("batch", 1));
                lib([&] { f.reset(); });
                return true;
            }
            if (op == "mkef") {
                slot[sn] = lib([&] { return am->eigenfunction(*E, *l, *r, idx); });
                killall();
                d.i(1);
                return true;
            }
            if (op == "pairs" || op == "mkpair") {
                auto v = lib([&] { return am->eigenpairsByIndex(i0, i1, *l, *r); });
                killall();
                d.i((long) v.size());
                for (auto &t: v) {
                    d.i(std::get<0>(t));
                    d.s(std::get<1>(t));
                    if (op == "pairs") dig_ef(*std::get<2>(t), a.v("xs"), d, a.i("batch", 1));
                }
                if (op == "mkpair" && !v.empty()) slot[sn] = std::move(std::get<2>(v[0]));
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
        }
        if (const M *mm = mats()) {
            if (op == "prop") {
                auto v = lib([&] { return mm->propagate(*E, *l, *x0, *x1, h); });
                killall();
                dig_y(v.first, d);
                d.s(v.second);
                return true;
            }
            if (op == "prop2") {
                Eigen::Matrix<S, 2, 2> y0, z;
                std::vector<double> v = a.v("y");
                v.resize(4);
                y0 << S(v[0]), S(v[1]), S(v[2]), S(v[3]);
                z.setZero();
                Box<Y<S, 1, 2>> y(y0, z);
                auto q = lib([&] {
                    return per ? per->propagate(*E, *y, *x0, *x1, h) : mm->template propagate<2>(*E, *y, *x0, *x1, h);
                });
                killall();
                y.kill();
                d.mat(q.first.data);
                d.mat(q.second);
                return true;
            }
            if (op == "merr") {
                if (per) {
                    auto q = lib([&] { return per->matchingError(*E, h); });
                    killall();
                    d.mat(q.first.data);
                    d.mat(q.second);
                } else {
                    auto q = lib([&] { return mm->matchingError(*E, *l, *r, h); });
                    killall();
                    d.s(std::get<0>(q));
                    d.s(std::get<1>(q));
                    d.s(std::get<2>(q));
                }
                return true;
            }
            if (op == "sect" || op == "scopy" || op == "sorph") {
                const auto &s0 = *mm->sectors[(size_t) a.i("k") % mm->sectors.size()];
                auto look = [&](const typename M::Sector &s) {
                    S dl = (s.max - s.min) * S(a.d("f", .5));
                    *x0 = s.min;
                    *x1 = s.min + dl;
                    auto t1 = lib([&] { return s.calculateT(*E, h); });
                    auto t2 = lib([&] { return s.calculateT(*E, dl, h); });
                    d.mat(t1.t);
                    d.mat(t1.dt);
                    d.mat(t2.t);
                    d.mat(t2.dt);
                    d.s(lib([&] { return s.error(); }));
                    d.s(lib([&] { return s.theta0(*E, *l); }));
                    if (s.direction == forward) {
                        auto q = lib([&] { return s.template propagate<true>(*E, *l, *x0, *x1, h); });
                        dig_y(q.first, d);
                        d.s(q.second[0]);
                    }
                };
                if (op == "sect" || a.i("warm")) look(s0);
                if (op != "sect") {
                    std::unique_ptr<typename M::Sector> copy = lib([&] { return std::make_unique<typename M::Sector>(s0); });
                    if (op == "sorph") { // the copy survives the problem
                        drop();
                        look(*copy);
                    } else {
                        lib([&] { copy->setDirection(copy->direction == forward ? backward : forward); });
                        look(*copy);
                        if (a.i("warm")) look(s0);
                    }
                    lib([&] { copy.reset(); });
                }
                killall();
                return true;
            }
        }
        if (per) {
            if (op == "eidx" || op == "eigs") {
                auto v = lib([&] { return op == "eidx" ? per->eigenvaluesByIndex(i0, i1) : per->eigenvalues(*E, *E2); });
                killall();
                d.i((long) v.size());
                for (auto &t: v) {
                    d.i(std::get<0>(t));
                    d.s(std::get<1>(t));
                    d.i(std::get<2>(t));
                }
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
            if (op == "pairs" || op == "pairsE" || op == "mkpair") {
                auto v = lib([&] { return op == "pairsE" ? per->eigenpairs(*E, *E2) : per->eigenpairsByIndex(i0, i1); });
                killall();
                d.i((long) v.size());
                for (auto &t: v) {
                    d.i(std::get<0>(t));
                    d.s(std::get<1>(t));
                    d.i((long) std::get<2>(t).size());
                    if (op != "mkpair")
                        for (auto &f: std::get<2>(t)) dig_ef(*f, a.v("xs"), d, a.i("batch", 1));
                }
                if (op == "mkpair" && !v.empty() && !std::get<2>(v[0]).empty()) slot[sn] = std::move(std::get<2>(v[0])[0]);
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
            if (op == "efun") {
                auto v = lib([&] { return per->eigenfunction(*E); });
                killall();
                d.i((long) v.size());
                for (auto &f: v) dig_ef(*f, a.v("xs"), d, a.i("batch", 1));
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
        }
        if (lt) {
            const LiouvilleTransformation<S> &t = *lt;
            if (op == "ltq") {
                S v = lib([&] { return t.r2x(*x0); });
                d.s(v);
                S u = lib([&] { return t.x2r(v); });
                d.s(u);
                d.s(lib([&] { return t.V(v); }));
                dig_y(lib([&] { return t.z2y(*x0, *l); }), d);
                dig_y(lib([&] { return t.y2z(v, *r); }), d);
                d.s(lib([&] { return t.rDomain().max; }));
                killall();
                return true;
            }
            if (op == "ltcopy" || op == "sorph") { // copies: of a fresh copy and of a used one, whose originals have died
                std::unique_ptr<LiouvilleTransformation<S>> c1, c2;
                auto look = [&](const LiouvilleTransformation<S> &c) {
                    S v = lib([&] { return c.r2x(*x0); });
                    d.s(v);
                    d.s(lib([&] { return c.x2r(v); }));
                    d.s(lib([&] { return c.V(v); }));
                    dig_y(lib([&] { return c.z2y(*x0, *l); }), d);
                    dig_y(lib([&] { return c.y2z(v, *r); }), d);
                };
                S u = lib([&] { return t.r2x(*x0); });
                if (op == "sorph") {
                    if (a.i("warm")) look(t);
                    lib([&] { c2 = std::make_unique<LiouvilleTransformation<S>>(t); });
                    drop();
                } else {
                    lib([&] { c1 = std::make_unique<LiouvilleTransformation<S>>(t); });
                    if (a.i("warm")) look(*c1);
                    lib([&] {
                        c2 = std::make_unique<LiouvilleTransformation<S>>(*c1);
                        c1.reset();
                    });
                }
                d.s(lib([&] { return c2->V(u); }));
                look(*c2);
                d.s(lib([&] { // a function made of a copy, like the potential of a Sturm-Liouville problem
                    std::function<S(S)> V = std::bind(&LiouvilleTransformation<S>::V, *c2, std::placeholders::_1);
                    c2.reset();
                    std::function<S(S)> W = V;
                    V = nullptr;
                    return W(u);
                }));
                killall();
                return true;
            }
        }
        if (sl) {
            if (op == "eidx") {
                auto v = lib([&] { return sl->eigenvaluesByIndex(i0, i1, *l, *r); });
                killall();
                dig_evs(v, d);
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
            if (op == "eerr") {
                S e = lib([&] { return sl->eigenvalueError(*E, *l, *r, idx); });
                killall();
                d.s(e);
                return true;
            }
            if (op == "pairs" || op == "mkpair") {
                auto v = lib([&] { return sl->eigenpairsByIndex(i0, i1, *l, *r); });
                killall();
                d.i((long) v.size());
                for (auto &t: v) {
                    d.i(std::get<0>(t));
                    d.s(std::get<1>(t));
                    if (op == "pairs") dig_ef(*std::get<2>(t), a.v("xs"), d, a.i("batch", 1));
                }
                if (op == "mkpair" && !v.empty()) slot[sn] = std::move(std::get<2>(v[0]));
                lib([&] { decltype(v)().swap(v); });
                return true;
            }
        }
        return false;
    }
};
