// Stand-in for embind (the compiler it belongs to is not installed): the same interface, objects of the simulated engine.
#pragma once
#include "../jsobj.h"
#include <cstddef>
#include <optional>
#include <tuple>
#include <type_traits>

namespace emscripten {
    class val;

    namespace internal {
        using simjs::Args;
        using simjs::Class;
        using simjs::InMode;
        using simjs::Node;

        template<typename T>
        using bare = std::remove_cv_t<std::remove_reference_t<T>>;

        template<typename T>
        struct is_unique : std::false_type {
        };
        template<typename T, typename D>
        struct is_unique<std::unique_ptr<T, D>> : std::true_type {
        };
        template<typename T>
        struct is_shared : std::false_type {
        };
        template<typename T>
        struct is_shared<std::shared_ptr<T>> : std::true_type {
        };
        template<typename T>
        struct is_optional : std::false_type {
        };
        template<typename T>
        struct is_optional<std::optional<T>> : std::true_type {
        };

        template<typename T>
        struct ByValue { // value_array, value_object, enum
            static inline Node *(*to)(const T &) = nullptr;
            static inline void (*from)(Node *, T &) = nullptr;
        };

        template<typename T>
        void destroy(void *p) {
            InMode q(rt::LIB);
            delete (T *) p;
        }

        template<typename T>
        Class *actual(T *&p, void *&v) { // the class scripts see
            v = (void *) p;
            Class *c = simjs::class_of(typeid(T));
            if constexpr (std::is_polymorphic<T>::value) {
                Class *d = p ? simjs::class_of(typeid(*p)) : nullptr;
                for (Class *b = d; b; b = b->base)
                    if (b == c && d != c) {
                        v = const_cast<void *>(dynamic_cast<const void *>(p));
                        return d;
                    }
            }
            if (!c) simjs::fail("UnboundTypeError", std::string("unbound type ") + typeid(T).name());
            return c;
        }

        template<typename T>
        Node *to_js(T &&x);

        template<typename T>
        struct From { // an argument on its way to C++
            typedef bare<T> B;
            static constexpr bool value = std::is_default_constructible<B>::value && !std::is_pointer<B>::value;
            std::conditional_t<value, std::optional<std::conditional_t<value, B, int>>, int> v{};
            B *p = nullptr;

            explicit From(Node *n);

            template<typename A>
            A pass() {
                if constexpr (std::is_lvalue_reference<A>::value) return *p;
                else if constexpr (std::is_rvalue_reference<A>::value) return std::move(*p);
                else if constexpr (value) {
                    if (v) return std::move(*v);
                    if constexpr (std::is_copy_constructible<B>::value) return B(*p);
                    else return std::move(*p);
                } else if constexpr (std::is_copy_constructible<B>::value) return B(*p);
                else return std::move(*p);
            }
        };

        template<typename T>
        struct From<T *> {
            T *x = nullptr;

            explicit From(Node *n) {
                if (n->type != simjs::NUL && n->type != simjs::UNDEF) x = (T *) simjs::cast(n, simjs::class_of(typeid(std::remove_cv_t<T>)));
            }

            template<typename A>
            A pass() { return x; }
        };
    }

    struct allow_raw_pointers {
    };
    template<int>
    struct arg {
    };
    template<typename T>
    using ret_val = T;

    template<typename F>
    struct pure_virtual_fn {
    };

    class val {
        simjs::Node *n;

        explicit val(simjs::Node *n_, int) : n(n_) { simjs::handle_new(this, n); }

        template<typename... A>
        static simjs::Args pack(A &&... a) {
            simjs::InMode q(rt::HARNESS);
            simjs::Args r;
            (r.push_back(internal::to_js(std::forward<A>(a))), ...);
            return r;
        }

        template<typename K>
        static std::string key(const K &k) {
            if constexpr (std::is_same<internal::bare<K>, val>::value) return simjs::text(k.n);
            else if constexpr (std::is_arithmetic<internal::bare<K>>::value) return simjs::text(simjs::mk_num((double) k));
            else return std::string(k);
        }

        template<typename R>
        static R result(simjs::Node *n);

        static void drop(simjs::Args &a) {
            simjs::InMode q(rt::HARNESS);
            simjs::Args().swap(a);
        }

    public:
        val() : val(simjs::undef(), 0) {}

        template<typename T, typename = std::enable_if_t<!std::is_same<internal::bare<T>, val>::value>, typename... P>
        explicit val(T &&x, P...) : val(internal::to_js(std::forward<T>(x)), 0) {}

        val(const val &o) : val(o.n, 0) {}

        val(val &&o) noexcept: val(o.n, 0) { // the other handle is given up
            simjs::handle_gone(&o, o.n);
            o.n = nullptr;
        }

        val &operator=(val o) noexcept {
            std::swap(n, o.n);
            return *this;
        }

        ~val() { if (n) simjs::handle_gone(this, n); }

        simjs::Node *node() const { return n; }

        static val wrap(simjs::Node *x) { return val(x, 0); }

        static val array() { return val(simjs::mk_arr({}), 0); }

        template<typename It>
        static val array(It b, It e) {
            val r = array();
            for (; b != e; ++b) r.call<void>("push", *b);
            return r;
        }

        template<typename T>
        static val array(const std::vector<T> &v) { return array(v.begin(), v.end()); }

        static val object() { return val(simjs::mk_obj(), 0); }

        static val undefined() { return val(simjs::undef(), 0); }

        static val null() { return val(simjs::null(), 0); }

        static val u8string(const char *s) { return val(simjs::mk_str(s), 0); }

        static val global(const char *name = nullptr) { return val(simjs::global(name ? name : "globalThis"), 0); }

        static val module_property(const char *name) { return val(simjs::global(name), 0); }

        template<typename T>
        T as() const { return result<T>(n); }

        template<typename T, typename P>
        T as(P) const { return result<T>(n); }

        template<typename K>
        val operator[](const K &k) const {
            simjs::InMode q(rt::HARNESS);
            if constexpr (std::is_integral<K>::value) return val(simjs::at(n, (long) k), 0);
            else return val(simjs::get(n, key(k)), 0);
        }

        template<typename K, typename V>
        void set(const K &k, const V &v) {
            simjs::InMode q(rt::HARNESS);
            simjs::set(n, key(k), internal::to_js(v));
        }

        template<typename K>
        bool delete_(const K &k) const {
            simjs::InMode q(rt::HARNESS);
            std::string s = key(k);
            for (size_t i = 0; i < n->props.size(); ++i)
                if (n->props[i].first == s) {
                    n->props.erase(n->props.begin() + i);
                    break;
                }
            return true;
        }

        template<typename R = val, typename... A>
        R call(const char *name, A &&... a) const {
            simjs::Args x = pack(std::forward<A>(a)...);
            simjs::Node *r;
            {
                struct G {
                    simjs::Args &x;

                    ~G() { drop(x); }
                } g{x};
                simjs::InMode q(rt::HARNESS);
                r = simjs::call_method(n, name, x);
            }
            return result<R>(r);
        }

        template<typename... A>
        val operator()(A &&... a) const {
            simjs::Args x = pack(std::forward<A>(a)...);
            struct G {
                simjs::Args &x;

                ~G() { drop(x); }
            } g{x};
            simjs::InMode q(rt::HARNESS);
            return val(simjs::call(n, simjs::undef(), x), 0);
        }

        template<typename... A>
        val new_(A &&... a) const {
            simjs::Args x = pack(std::forward<A>(a)...);
            struct G {
                simjs::Args &x;

                ~G() { drop(x); }
            } g{x};
            simjs::InMode q(rt::HARNESS);
            return val(simjs::construct(n, x), 0);
        }

        bool isNull() const { return n->type == simjs::NUL; }

        bool isUndefined() const { return n->type == simjs::UNDEF; }

        bool isTrue() const { return n->type == simjs::BOOL && n->n; }

        bool isFalse() const { return n->type == simjs::BOOL && !n->n; }

        bool isNumber() const { return n->type == simjs::NUM; }

        bool isString() const { return n->type == simjs::STR; }

        bool isArray() const { return n->type == simjs::ARR; }

        bool isNaN() const { return n->type == simjs::NUM && n->n != n->n; }

        val typeOf() const { return val(simjs::mk_str(simjs::type_of(n)), 0); }

        val typeof_() const { return typeOf(); }

        bool instanceof(const val &v) const {
            if (v.n == simjs::global("Array")) return isArray();
            if (v.n == simjs::global("Function")) return n->type == simjs::FUNC;
            for (simjs::Class *c = n->type == simjs::INST ? n->cls : nullptr; c; c = c->base) if (c->object == v.n) return true;
            return false;
        }

        bool hasOwnProperty(const char *k) const {
            for (auto &p: n->props) if (p.first == k) return true;
            return false;
        }

        template<typename T>
        bool equals(const T &o) const { return simjs::same(n, internal::to_js(o)); }

        template<typename T>
        bool strictlyEquals(const T &o) const { return equals(o); }

        template<typename T>
        bool operator==(const T &o) const { return equals(o); }

        template<typename T>
        bool operator!=(const T &o) const { return !equals(o); }

        bool operator!() const { return !simjs::truthy(n); }
    };

    namespace internal {
        template<typename T>
        Node *to_js(T &&x) {
            typedef bare<T> B;
            InMode q(rt::HARNESS);
            if constexpr (std::is_same<B, val>::value) return x.node();
            else if constexpr (std::is_same<B, bool>::value) return simjs::mk_bool(x);
            else if constexpr (std::is_arithmetic<B>::value) return simjs::mk_num((double) x);
            else if constexpr (std::is_same<B, std::nullptr_t>::value) return simjs::null();
            else if constexpr (std::is_convertible<T, std::string>::value) return simjs::mk_str(std::string(x));
            else if constexpr (is_optional<B>::value) return x ? to_js(*x) : simjs::undef();
            else if constexpr (is_unique<B>::value) {
                if (!x) return simjs::null();
                void *v;
                auto *p = x.get();
                Class *c = actual(p, v);
                Node *n = simjs::mk_inst(c, v);
                if constexpr (!std::is_lvalue_reference<T>::value) x.release();
                else static_assert(!std::is_lvalue_reference<T>::value, "a unique_ptr is moved to JavaScript");
                return n;
            } else if constexpr (is_shared<B>::value) {
                if (!x) return simjs::null();
                void *v;
                auto *p = x.get();
                Class *c = actual(p, v);
                return simjs::mk_inst(c, v, x);
            } else if constexpr (std::is_pointer<B>::value) {
                if (!x) return simjs::null();
                void *v;
                auto *p = const_cast<std::remove_cv_t<std::remove_pointer_t<B>> *>(x);
                Class *c = actual(p, v);
                return simjs::mk_inst(c, v);
            } else {
                if (ByValue<B>::to) return ByValue<B>::to(x);
                Class *c = simjs::class_of(typeid(B));
                if (!c) simjs::fail("UnboundTypeError", std::string("unbound type ") + typeid(B).name());
                if constexpr (std::is_constructible<B, T>::value) {
                    B *p;
                    {
                        InMode l(rt::LIB);
                        p = new B(std::forward<T>(x));
                    }
                    return simjs::mk_inst(c, p);
                } else simjs::fail("BindingError", "can not be copied");
            }
        }

        template<typename T>
        From<T>::From(Node *n) {
            if constexpr (std::is_same<B, bool>::value) v.emplace(simjs::truthy(n));
            else if constexpr (std::is_arithmetic<B>::value) {
                double d = simjs::number(n);
                if constexpr (std::is_integral<B>::value) {
                    if (!(d >= -2147483648.0 && d <= 4294967295.0)) simjs::fail("TypeError", "number outside the range of the type");
                    v.emplace((B) (long) d);
                } else v.emplace((B) d);
            } else if constexpr (std::is_same<B, std::string>::value) {
                if (n->type != simjs::STR) simjs::fail("BindingError", "Cannot pass non-string to std::string");
                v.emplace(n->s);
            } else if constexpr (std::is_same<B, val>::value) v.emplace(val::wrap(n));
            else if constexpr (is_optional<B>::value) {
                v.emplace();
                if (n->type != simjs::UNDEF && n->type != simjs::NUL) v->emplace(From<typename B::value_type>(n).template pass<typename B::value_type>());
            } else if constexpr (is_shared<B>::value) {
                typedef typename B::element_type E;
                void *x = simjs::cast(n, simjs::class_of(typeid(std::remove_cv_t<E>)));
                if (!n->sp) simjs::fail("BindingError", "Cannot convert argument to smart pointer");
                v.emplace(B(n->sp, (E *) x));
            } else if constexpr (value) {
                if (ByValue<B>::from) {
                    {
                        InMode l(rt::LIB);
                        v.emplace();
                    }
                    ByValue<B>::from(n, *v);
                } else p = (B *) simjs::cast(n, simjs::class_of(typeid(B)));
            } else p = (B *) simjs::cast(n, simjs::class_of(typeid(B)));
            if constexpr (value) if (v) p = &*v;
        }

        // ---- calling C++
        template<typename F>
        struct Sig : Sig<decltype(&F::operator())> {
        };
        template<typename R, typename... A>
        struct Sig<R (*)(A...)> {
            typedef R Ret;
            typedef std::tuple<A...> Tuple;
            static constexpr size_t n = sizeof...(A);

            template<typename F, size_t... I>
            static Node *call(F &f, const Args &a, std::index_sequence<I...>) {
                std::tuple<std::unique_ptr<From<A>>...> c;
                {
                    InMode q(rt::HARNESS);
                    ((std::get<I>(c) = std::make_unique<From<A>>(a[I])), ...);
                }
                struct G {
                    decltype(c) &x;

                    ~G() {
                        InMode q(rt::HARNESS);
                        ((std::get<I>(x) = nullptr), ...);
                    }
                } g{c};
                InMode l(rt::LIB);
                if constexpr (std::is_void<R>::value) {
                    f(std::get<I>(c)->template pass<A>()...);
                    return simjs::undef();
                } else return to_js(f(std::get<I>(c)->template pass<A>()...));
            }
        };
        template<typename R, typename... A>
        struct Sig<R(A...)> : Sig<R (*)(A...)> {
        };
        template<typename R, typename... A>
        struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)> {
        };
        template<typename R, typename C, typename... A>
        struct Sig<R (C::*)(A...) const> : Sig<R (*)(A...)> {
        };
        template<typename R, typename C, typename... A>
        struct Sig<R (C::*)(A...)> : Sig<R (*)(A...)> {
        };

        template<typename T, typename R, typename C, typename... A>
        auto method_of(R (C::*m)(A...)) { return [m](T &self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); }; }

        template<typename T, typename R, typename C, typename... A>
        auto method_of(R (C::*m)(A...) const) { return [m](const T &self, A... a) -> R { return (self.*m)(std::forward<A>(a)...); }; }

        template<typename T, typename F>
        auto method_of(F f) { return f; }

        template<typename F>
        simjs::Fn method_fn(F f) { // the first parameter is the object
            typedef Sig<F> S;
            return [f](Node *self, const Args &a) mutable -> Node * {
                Args x{self};
                x.insert(x.end(), a.begin(), a.end());
                return S::call(f, x, std::make_index_sequence<S::n>());
            };
        }

        template<typename F>
        simjs::Fn plain_fn(F f) {
            typedef Sig<F> S;
            return [f](Node *, const Args &a) mutable -> Node * { return S::call(f, a, std::make_index_sequence<S::n>()); };
        }
    }

    template<typename R>
    R val::result(simjs::Node *n) {
        if constexpr (std::is_void<R>::value) return;
        else {
            std::unique_ptr<internal::From<R>> f;
            {
                simjs::InMode q(rt::HARNESS);
                f = std::make_unique<internal::From<R>>(n);
            }
            struct G {
                std::unique_ptr<internal::From<R>> &f;

                ~G() {
                    simjs::InMode q(rt::HARNESS);
                    f = nullptr;
                }
            } g{f};
            return f->template pass<R>();
        }
    }

    template<typename F>
    F optional_override(F f) { return f; }

    template<typename Sg>
    Sg *select_overload(Sg *f) { return f; }

    template<typename Sg, typename C>
    auto select_overload(Sg(C::*f)) { return f; }

    template<typename C, typename R, typename... A>
    auto select_const(R (C::*f)(A...) const) { return f; }

    template<typename B>
    struct base {
        typedef B type;
    };

    template<typename T>
    struct no_base {
        typedef void type;
    };

    template<typename T, typename Base = no_base<T>>
    class class_ {
        internal::Class *c;

    public:
        explicit class_(const char *name) {
            internal::InMode q(rt::HARNESS);
            c = simjs::make_class(typeid(T), name);
            c->destroy = &internal::destroy<T>;
            typedef typename Base::type B;
            if constexpr (!std::is_void<B>::value) {
                c->base = simjs::class_of(typeid(B));
                if (!c->base) simjs::fail("BindingError", "base class is not registered");
                c->up = [](void *p) -> void * { return (B *) (T *) p; };
            }
        }

        template<typename... A, typename... P, std::enable_if_t<sizeof...(P) + 1 != 0 && !(sizeof...(P) == 1 && sizeof...(A) == 0), int> = 0>
        const class_ &constructor(P...) const { return constructor_of([](A... a) -> T * { return new T(std::forward<A>(a)...); }); }

        template<typename F, typename... P, std::enable_if_t<!std::is_same<F, allow_raw_pointers>::value, int> = 0, typename = decltype(sizeof(internal::Sig<F>))>
        const class_ &constructor(F f, P...) const { return constructor_of(f); }

        template<typename F>
        const class_ &constructor_of(F f) const {
            internal::InMode q(rt::HARNESS);
            auto fn = internal::plain_fn(f);
            simjs::Class *cl = c;
            c->ctors[internal::Sig<F>::n] = [fn, cl](simjs::Node *, const simjs::Args &a) -> simjs::Node * {
                simjs::Node *n = fn(nullptr, a);
                if (n->type == simjs::INST && n->cls != cl && !n->sp) n->cls = cl;
                return n;
            };
            return *this;
        }

        template<typename S>
        const class_ &smart_ptr(const char *) const { return *this; }

        template<typename S, typename F, typename... P>
        const class_ &smart_ptr_constructor(const char *, F f, P...) const { return constructor_of(f); }

        template<typename F, typename... P>
        const class_ &function(const char *name, F f, P...) const {
            internal::InMode q(rt::HARNESS);
            auto m = internal::method_of<T>(f);
            c->methods[name].by_arity[internal::Sig<decltype(m)>::n - 1] = internal::method_fn(m);
            return *this;
        }

        template<typename F, typename... P>
        const class_ &class_function(const char *name, F f, P...) const {
            internal::InMode q(rt::HARNESS);
            c->methods[name].is_static = true;
            c->methods[name].by_arity[internal::Sig<F>::n] = internal::plain_fn(f);
            return *this;
        }

        template<typename G, typename... P>
        const class_ &property(const char *name, G g, P...) const {
            internal::InMode q(rt::HARNESS);
            if constexpr (std::is_member_object_pointer<G>::value)
                c->props[name].first = internal::method_fn([g](const T &t) { return t.*g; });
            else c->props[name].first = internal::method_fn(internal::method_of<T>(g));
            return *this;
        }
    };

    template<int I>
    struct index {
    };

    template<typename T>
    class value_array {
        typedef simjs::Node Node;

        struct El {
            std::function<Node *(const T &)> get;
            std::function<void(Node *, T &)> set;
        };

        static std::vector<El> *&els() {
            static std::vector<El> *e;
            return e;
        }

        void add(El e) {
            simjs::InMode q(rt::HARNESS);
            els()->push_back(std::move(e));
        }

    public:
        explicit value_array(const char *) {
            simjs::InMode q(rt::HARNESS);
            els() = new std::vector<El>();
            internal::ByValue<T>::to = [](const T &t) -> Node * {
                simjs::InMode q(rt::HARNESS);
                simjs::Args a;
                for (auto &e: *els()) a.push_back(e.get(t));
                return simjs::mk_arr(a);
            };
            internal::ByValue<T>::from = [](Node *n, T &t) {
                if (n->type != simjs::ARR || n->items.size() != els()->size())
                    simjs::fail("TypeError", "Incorrect number of tuple elements");
                for (size_t k = 0; k < els()->size(); ++k) (*els())[k].set(n->items[k], t);
            };
        }

        template<int I>
        value_array &element(index<I>) {
            typedef internal::bare<decltype(std::declval<T &>()[I])> E;
            add({[](const T &t) { return internal::to_js((E) t[I]); }, [](Node *n, T &t) { t[I] = internal::From<E>(n).template pass<E>(); }});
            return *this;
        }

        template<typename C, typename E>
        value_array &element(E C::*m) {
            add({[m](const T &t) { return internal::to_js(t.*m); }, [m](Node *n, T &t) { t.*m = internal::From<E>(n).template pass<E>(); }});
            return *this;
        }

        template<typename G, typename S>
        value_array &element(G g, S s) {
            typedef internal::bare<decltype(g(std::declval<const T &>()))> E;
            add({[g](const T &t) { return internal::to_js(g(t)); }, [s](Node *n, T &t) { s(t, internal::From<E>(n).template pass<E>()); }});
            return *this;
        }
    };

    template<typename T>
    class value_object {
        typedef simjs::Node Node;

        struct El {
            std::string name;
            std::function<Node *(const T &)> get;
            std::function<void(Node *, T &)> set;
        };

        static std::vector<El> *&els() {
            static std::vector<El> *e;
            return e;
        }

        void add(El e) {
            simjs::InMode q(rt::HARNESS);
            els()->push_back(std::move(e));
        }

    public:
        explicit value_object(const char *) {
            simjs::InMode q(rt::HARNESS);
            els() = new std::vector<El>();
            internal::ByValue<T>::to = [](const T &t) -> Node * {
                simjs::InMode q(rt::HARNESS);
                Node *o = simjs::mk_obj();
                for (auto &e: *els()) simjs::set(o, e.name, e.get(t));
                return o;
            };
            internal::ByValue<T>::from = [](Node *n, T &t) {
                for (auto &e: *els()) {
                    bool has = false;
                    for (auto &p: n->props) has |= p.first == e.name;
                    if (!has) simjs::fail("TypeError", "Missing field: \"" + e.name + "\"");
                    e.set(simjs::get(n, e.name), t);
                }
            };
        }

        template<typename C, typename E>
        value_object &field(const char *name, E C::*m) {
            simjs::InMode q(rt::HARNESS);
            add({name, [m](const T &t) { return internal::to_js(t.*m); }, [m](Node *n, T &t) { t.*m = internal::From<E>(n).template pass<E>(); }});
            return *this;
        }

        template<typename G, typename S>
        value_object &field(const char *name, G g, S s) {
            simjs::InMode q(rt::HARNESS);
            typedef internal::bare<decltype(g(std::declval<const T &>()))> E;
            add({name, [g](const T &t) { return internal::to_js(g(t)); }, [s](Node *n, T &t) { s(t, internal::From<E>(n).template pass<E>()); }});
            return *this;
        }
    };

    template<typename T>
    class enum_ {
    public:
        explicit enum_(const char *) {
            internal::ByValue<T>::to = [](const T &t) { return simjs::mk_num((double) t); };
            internal::ByValue<T>::from = [](simjs::Node *n, T &t) { t = (T) (long) simjs::number(n); };
        }

        enum_ &value(const char *, T) { return *this; }
    };

    template<typename F, typename... P>
    void function(const char *name, F f, P...) {
        simjs::InMode q(rt::HARNESS);
        auto fn = internal::plain_fn(f);
        simjs::add_global(name, simjs::mk_fn([fn](simjs::Node *s, const simjs::Args &a) {
            if (a.size() != internal::Sig<F>::n) simjs::fail("BindingError", "called with a wrong number of arguments");
            return fn(s, a);
        }));
    }

    template<typename T>
    void constant(const char *name, const T &x) { simjs::add_global(name, internal::to_js(x)); }

    template<typename T>
    class_<std::vector<T>> register_vector(const char *name) {
        typedef std::vector<T> V;
        return class_<V>(name)
                .function("push_back", [](V &v, const T &x) { v.push_back(x); })
                .function("size", [](const V &v) { return (double) v.size(); })
                .function("get", [](const V &v, int k) { return k >= 0 && (size_t) k < v.size() ? val(v[k]) : val::undefined(); })
                .function("set", [](V &v, int k, const T &x) { return (v[k] = x, true); });
    }

    template<typename T>
    std::vector<T> vecFromJSArray(const val &v) {
        std::vector<T> r;
        int n = v["length"].template as<int>();
        r.reserve(n);
        for (int k = 0; k < n; ++k) r.push_back(v[k].template as<T>());
        return r;
    }

    template<typename T>
    std::vector<T> convertJSArrayToNumberVector(const val &v) { return vecFromJSArray<T>(v); }

    template<typename T>
    struct memory_view {
    };
}

#define EMSCRIPTEN_BINDINGS(name) \
    static struct SimJsInit_##name { \
        SimJsInit_##name() { simjs::add_init(&run); } \
        static void run(); \
    } simjs_init_##name; \
    void SimJsInit_##name::run()
