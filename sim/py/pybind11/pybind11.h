// A stand-in for pybind11 that binds to the simulated interpreter (pyobj.h): the part that matslise uses and what
// is near to it, with the ownership rules of pybind11 2.x (holders, return value policies, keep_alive, call guards,
// registered instances, translation of exceptions).
#pragma once
#include <array>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>
#include <unistd.h>
#include <Eigen/Dense>
#include "../pyobj.h"

namespace pybind11 {
    using simpy::Obj;
    using ssize_t = long;

    enum class return_value_policy : uint8_t {
        automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal
    };

    struct cast_error : std::runtime_error {
        using std::runtime_error::runtime_error;

        explicit cast_error(const char *s = "cast") : std::runtime_error(s) {}
    };

    struct reference_cast_error : cast_error {
        reference_cast_error() : cast_error("reference") {}
    };

    struct builtin_exception : std::runtime_error {
        using std::runtime_error::runtime_error;
        const char *type = "RuntimeError";

        builtin_exception(const char *type, const std::string &what) : std::runtime_error(what), type(type) {}
    };

#define SIM_PYBIND11_EXCEPTION(name, py) \
    struct name : builtin_exception { \
        explicit name(const std::string &s = "") : builtin_exception(py, s) {} \
    };

    SIM_PYBIND11_EXCEPTION(stop_iteration, "StopIteration")
    SIM_PYBIND11_EXCEPTION(index_error, "IndexError")
    SIM_PYBIND11_EXCEPTION(key_error, "KeyError")
    SIM_PYBIND11_EXCEPTION(value_error, "ValueError")
    SIM_PYBIND11_EXCEPTION(type_error, "TypeError")
    SIM_PYBIND11_EXCEPTION(buffer_error, "BufferError")
    SIM_PYBIND11_EXCEPTION(import_error, "ImportError")
    SIM_PYBIND11_EXCEPTION(attribute_error, "AttributeError")
#undef SIM_PYBIND11_EXCEPTION

    [[noreturn]] inline void pybind11_fail(const std::string &s) { throw std::runtime_error(s); }

    // an exception of Python code that passes through native code
    struct error_already_set : std::exception {
        std::shared_ptr<simpy::PyError> e;

        explicit error_already_set(std::shared_ptr<simpy::PyError> e) : e(std::move(e)) {}

        const char *what() const noexcept override { return e->message.c_str(); }

        bool matches(const struct handle &) const { return false; }

        void restore() {}
    };

    // ---------------------------------------------------------------- object wrappers
    template<typename T, typename = void>
    struct caster;

    struct handle {
        Obj *m_ptr = nullptr;

        handle() = default;

        handle(Obj *p) : m_ptr(p) {}

        Obj *ptr() const { return m_ptr; }

        const handle &inc_ref() const {
            if (m_ptr) simpy::incref(m_ptr);
            return *this;
        }

        const handle &dec_ref() const {
            if (m_ptr) simpy::decref(m_ptr);
            return *this;
        }

        bool is_none() const { return m_ptr && m_ptr->type == simpy::NONE; }

        explicit operator bool() const { return m_ptr != nullptr; }

        template<typename T>
        T cast() const;

        template<typename... A>
        struct object operator()(A &&...) const;

        struct object attr(const char *) const;
    };

    struct object : handle {
        struct borrowed_t {};
        struct stolen_t {};

        object() = default;

        object(handle h, borrowed_t) : handle(h) { inc_ref(); }

        object(handle h, stolen_t) : handle(h) {}

        object(const object &o) : handle(o) { inc_ref(); }

        object(object &&o) noexcept: handle(o) { o.m_ptr = nullptr; }

        ~object() { dec_ref(); }

        object &operator=(const object &o) {
            object t(o);
            std::swap(m_ptr, t.m_ptr);
            return *this;
        }

        object &operator=(object &&o) noexcept {
            std::swap(m_ptr, o.m_ptr);
            return *this;
        }

        handle release() {
            handle h(m_ptr);
            m_ptr = nullptr;
            return h;
        }
    };

    template<typename T>
    T reinterpret_borrow(handle h) {
        T t;
        static_cast<object &>(t) = object(h, object::borrowed_t{});
        return t;
    }

    template<typename T>
    T reinterpret_steal(handle h) {
        T t;
        static_cast<object &>(t) = object(h, object::stolen_t{});
        return t;
    }

    struct none : object {
        none() : object(simpy::none(), stolen_t{}) {}
    };
    struct str : object {
        str(const char *s = "") : object(simpy::mk_str(s), stolen_t{}) {}

        str(const std::string &s) : object(simpy::mk_str(s), stolen_t{}) {}
    };
    struct float_ : object {
        float_(double d = 0) : object(simpy::mk_float(d), stolen_t{}) {}
    };
    struct int_ : object {
        int_(long d = 0) : object(simpy::mk_int(d), stolen_t{}) {}
    };
    struct bool_ : object {
        bool_(bool d = false) : object(simpy::mk_bool(d), stolen_t{}) {}
    };
    struct function : object {
        using object::object;
        function() = default;
        function(const object &o) : object(o) {}
    };
    struct args : object {
        using object::object;

        size_t size() const { return m_ptr->items.size(); }

        object operator[](size_t i) const { return object(m_ptr->items.at(i), borrowed_t{}); }
    };
    struct kwargs : object {
        using object::object;
    };

    // what an element of a list or tuple is and can be set to
    struct item_accessor : object {
        Obj *in;
        size_t at;

        item_accessor(Obj *in_, size_t at_) : object(in_->items.at(at_), borrowed_t{}), in(in_), at(at_) {}

        template<typename T>
        void operator=(T &&x) &&;
    };

    struct item_iterator {
        Obj *in;
        size_t at;

        item_accessor operator*() const { return {in, at}; }

        item_iterator &operator++() {
            ++at;
            return *this;
        }

        bool operator!=(const item_iterator &o) const { return at != o.at; }

        bool operator==(const item_iterator &o) const { return at == o.at; }
    };

    struct sequence : object {
        using object::object;

        sequence() = default;

        sequence(const object &o) : object(o) {}

        size_t size() const { return m_ptr->items.size(); }

        bool empty() const { return size() == 0; }

        item_accessor operator[](size_t i) const { return {m_ptr, i}; }

        item_iterator begin() const { return {m_ptr, 0}; }

        item_iterator end() const { return {m_ptr, size()}; }
    };

    typedef sequence iterable;
    typedef item_iterator iterator;

    struct tuple : sequence {
        explicit tuple(size_t n = 0) : sequence(simpy::mk_list(simpy::TUPLE, std::vector<Obj *>(n, nullptr)), stolen_t{}) {}
    };

    struct list : sequence {
        explicit list(size_t n = 0) : sequence(simpy::mk_list(simpy::LIST, std::vector<Obj *>(n, nullptr)), stolen_t{}) {}

        template<typename T>
        void append(T &&x);
    };

    // a dictionary: pairs in a list
    struct dict : object {
        dict() : object(simpy::mk_list(simpy::LIST, {}), stolen_t{}) {}

        size_t size() const { return m_ptr->items.size(); }

        struct item {
            dict &d;
            std::string key;

            template<typename T>
            void operator=(T &&);

            operator object() const { return d.get(key); }
        };

        item operator[](const char *k) { return {*this, k}; }

        item operator[](const std::string &k) { return {*this, k}; }

        Obj *find(const std::string &k) const {
            for (Obj *e: m_ptr->items) if (e->items[0]->s == k) return e;
            return nullptr;
        }

        bool contains(const std::string &k) const { return find(k) != nullptr; }

        object get(const std::string &k) const {
            Obj *e = find(k);
            if (!e) throw key_error(k);
            return object(e->items[1], borrowed_t{});
        }

        void set(const std::string &k, object v) {
            if (Obj *e = find(k)) {
                simpy::decref(e->items[1]);
                e->items[1] = v.release().ptr();
                return;
            }
            Obj *p = simpy::mk_list(simpy::TUPLE, {simpy::mk_str(k), v.release().ptr()});
            simpy::InMode q(rt::BOX);
            m_ptr->items.push_back(p);
        }
    };

    template<typename T>
    bool isinstance(handle h);

    // ---------------------------------------------------------------- the lock
    struct gil_scoped_acquire {
        bool mine;

        gil_scoped_acquire() : mine(!simpy::gil_held()) { if (mine) simpy::gil_acquire(); }

        gil_scoped_acquire(const gil_scoped_acquire &) = delete;

        ~gil_scoped_acquire() { if (mine) simpy::gil_release(); }
    };

    struct gil_scoped_release {
        gil_scoped_release() { simpy::gil_release(); }

        gil_scoped_release(const gil_scoped_release &) = delete;

        ~gil_scoped_release() { simpy::gil_acquire(); }
    };

    // ---------------------------------------------------------------- annotations
    template<typename... T>
    struct call_guard {
        using type = std::tuple<T...>;
    };
    template<>
    struct call_guard<> {
        struct type {};
    };
    template<typename T>
    struct call_guard<T> {
        using type = T;
    };

    template<size_t Nurse, size_t Patient>
    struct keep_alive {
    };

    struct arg_v;

    struct arg {
        const char *name;
        bool noconv = false;

        constexpr explicit arg(const char *n = nullptr) : name(n) {}

        arg &noconvert(bool b = true) {
            noconv = b;
            return *this;
        }

        arg &none(bool = true) { return *this; }

        template<typename T>
        arg_v operator=(T &&v) const;
    };

    struct arg_v : arg {
        object value;

        arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
    };

    namespace literals {
        constexpr arg operator "" _a(const char *n, size_t) { return arg(n); }
    }

    struct kw_only {
    };
    struct pos_only {
    };
    struct is_operator {
    };
    struct dynamic_attr {
    };
    struct multiple_inheritance {
    };
    struct prepend {
    };
    struct module_local {
        explicit module_local(bool = true) {}
    };
    struct doc {
        const char *v;

        explicit doc(const char *v) : v(v) {}
    };

    // ---------------------------------------------------------------- casters
    // load(Obj*) -> bool, then get<T>() gives the argument; cast(value, policy, parent) -> new reference
    template<typename T>
    using bare = std::remove_cv_t<std::remove_reference_t<T>>;

    inline bool number(Obj *o, double &d) {
        if (!o) return false;
        simpy::check(o);
        if (o->type == simpy::FLOAT) d = o->f;
        else if (o->type == simpy::INT || o->type == simpy::BOOL) d = (double) o->i;
        else return false;
        return true;
    }

    template<typename T>
    struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
        T v = 0;
        static constexpr bool builtin = true;

        bool load(Obj *o) {
            double d;
            if (!number(o, d)) return false;
            v = (T) d;
            return true;
        }

        template<typename A>
        T &get() { return v; }

        static Obj *cast(T v, return_value_policy, Obj *) { return simpy::mk_float((double) v); }
    };

    template<typename T>
    struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
        T v = 0;

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            if (o->type != simpy::INT && o->type != simpy::BOOL) return false;
            v = (T) o->i;
            return true;
        }

        template<typename A>
        T &get() { return v; }

        static Obj *cast(T v, return_value_policy, Obj *) { return simpy::mk_int((long) v); }
    };

    template<>
    struct caster<bool> {
        bool v = false;

        bool load(Obj *o) {
            if (!o || o->type != simpy::BOOL) return false;
            v = o->i;
            return true;
        }

        template<typename A>
        bool &get() { return v; }

        static Obj *cast(bool v, return_value_policy, Obj *) { return simpy::mk_bool(v); }
    };

    template<>
    struct caster<std::string> {
        std::string v;

        bool load(Obj *o) {
            if (!o || o->type != simpy::STR) return false;
            v = o->s;
            return true;
        }

        template<typename A>
        std::string &get() { return v; }

        static Obj *cast(const std::string &v, return_value_policy, Obj *) { return simpy::mk_str(v); }
    };

    template<>
    struct caster<const char *> {
        static Obj *cast(const char *v, return_value_policy, Obj *) { return simpy::mk_str(v); }
    };

    template<typename T>
    struct caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
        T v;

        bool load(Obj *o) {
            if (!o) return false;
            static_cast<handle &>(v) = handle(o);
            if (std::is_base_of<object, T>::value) simpy::incref(o);
            return true;
        }

        template<typename A>
        T &get() { return v; }

        static Obj *cast(const handle &v, return_value_policy, Obj *) {
            v.inc_ref();
            return v.m_ptr;
        }
    };

    // sequences
    template<typename T>
    struct caster<std::vector<T>> {
        std::vector<T> v;

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            v.clear();
            if (o->type == simpy::ARRAY) {
                if (o->cols >= 0) return false;
                for (long k = 0; k < o->rows; ++k) {
                    simpy::Ref e(simpy::mk_float(o->data[k]));
                    caster<bare<T>> c;
                    if (!c.load(e.p)) return false;
                    v.push_back(std::move(c.template get<T>()));
                }
                return true;
            }
            if (o->type != simpy::LIST && o->type != simpy::TUPLE) return false;
            v.reserve(o->items.size());
            for (Obj *x: o->items) {
                caster<bare<T>> c;
                if (!c.load(x)) return false;
                v.push_back(std::move(c.template get<T>()));
            }
            return true;
        }

        template<typename A>
        std::vector<T> &get() { return v; }

        template<typename V>
        static Obj *cast(V &&src, return_value_policy p, Obj *parent) {
            if (!std::is_lvalue_reference<V>::value) p = return_value_policy::move;
            simpy::Ref l(simpy::mk_list(simpy::LIST, std::vector<Obj *>(src.size(), nullptr)));
            size_t k = 0;
            for (auto &&x: src) {
                if constexpr (std::is_lvalue_reference<V>::value) l.p->items[k++] = caster<bare<T>>::cast((const bare<T> &) x, p, parent);
                else l.p->items[k++] = caster<bare<T>>::cast(std::move((bare<T> &) x), p, parent);
            }
            return l.release();
        }
    };

    // non-copyable elements can only be moved
    template<typename T, typename D>
    struct caster<std::vector<std::unique_ptr<T, D>>> {
        template<typename V>
        static Obj *cast(V &&src, return_value_policy, Obj *parent) {
            simpy::Ref l(simpy::mk_list(simpy::LIST, std::vector<Obj *>(src.size(), nullptr)));
            size_t k = 0;
            for (auto &x: src) {
                Obj *o = caster<std::unique_ptr<T, D>>::cast(std::move(x), return_value_policy::take_ownership, parent);
                l.p->items[k++] = o;
            }
            return l.release();
        }
    };

    template<typename T, size_t N>
    struct caster<std::array<T, N>> {
        std::array<T, N> v;

        bool load(Obj *o) {
            caster<std::vector<T>> c;
            if (!c.load(o) || c.v.size() != N) return false;
            for (size_t k = 0; k < N; ++k) v[k] = c.v[k];
            return true;
        }

        template<typename A>
        std::array<T, N> &get() { return v; }

        static Obj *cast(const std::array<T, N> &a, return_value_policy p, Obj *parent) {
            return caster<std::vector<T>>::cast(std::vector<T>(a.begin(), a.end()), p, parent);
        }
    };

    template<typename... T>
    struct tuple_caster {
        std::tuple<caster<bare<T>>...> c;
        static constexpr size_t n = sizeof...(T);

        template<size_t... I>
        bool load_all(Obj *o, std::index_sequence<I...>) { return (... && std::get<I>(c).load(o->items[I])); }

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            if ((o->type != simpy::LIST && o->type != simpy::TUPLE) || o->items.size() != n) return false;
            return load_all(o, std::index_sequence_for<T...>{});
        }

        template<typename V, size_t... I>
        static Obj *cast_all(V &&src, return_value_policy p, Obj *parent, std::index_sequence<I...>) {
            simpy::Ref l(simpy::mk_list(simpy::TUPLE, std::vector<Obj *>(n, nullptr)));
            // pybind11 converts every element first; when one fails the others are released
            (..., (l.p->items[I] = caster<bare<T>>::cast(std::get<I>(std::forward<V>(src)), p, parent)));
            return l.release();
        }
    };

    template<typename... T>
    struct caster<std::tuple<T...>> : tuple_caster<T...> {
        std::optional<std::tuple<T...>> v;

        template<typename A, size_t... I>
        std::tuple<T...> &make(std::index_sequence<I...>) {
            v.emplace(std::move(std::get<I>(this->c).template get<T>())...);
            return *v;
        }

        template<typename A>
        std::tuple<T...> &get() { return make<A>(std::index_sequence_for<T...>{}); }

        template<typename V>
        static Obj *cast(V &&src, return_value_policy p, Obj *parent) {
            return tuple_caster<T...>::cast_all(std::forward<V>(src), p, parent, std::index_sequence_for<T...>{});
        }
    };

    template<typename A1, typename A2>
    struct caster<std::pair<A1, A2>> : tuple_caster<A1, A2> {
        std::optional<std::pair<A1, A2>> v;

        template<typename A>
        std::pair<A1, A2> &get() {
            v.emplace(std::move(std::get<0>(this->c).template get<A1>()), std::move(std::get<1>(this->c).template get<A2>()));
            return *v;
        }

        template<typename V>
        static Obj *cast(V &&src, return_value_policy p, Obj *parent) {
            return tuple_caster<A1, A2>::cast_all(std::forward<V>(src), p, parent, std::index_sequence<0, 1>{});
        }
    };

    template<typename T>
    struct caster<std::optional<T>> {
        std::optional<T> v;

        bool load(Obj *o) {
            if (!o) return false;
            v.reset();
            if (o->type == simpy::NONE) return true;
            caster<T> c;
            if (!c.load(o)) return false;
            v.emplace(std::move(c.template get<T>()));
            return true;
        }

        template<typename A>
        std::optional<T> &get() { return v; }

        template<typename V>
        static Obj *cast(V &&src, return_value_policy p, Obj *parent) {
            if (!src) return simpy::none();
            return caster<T>::cast(*std::forward<V>(src), p, parent);
        }
    };

    template<typename... T>
    struct caster<std::variant<T...>> {
        std::optional<std::variant<T...>> v;

        template<typename B>
        bool one(Obj *o) {
            caster<B> c;
            if (!c.load(o)) return false;
            v.emplace(std::move(c.template get<B>()));
            return true;
        }

        bool load(Obj *o) { return (... || one<T>(o)); }

        template<typename A>
        std::variant<T...> &get() { return *v; }

        template<typename V>
        static Obj *cast(V &&src, return_value_policy p, Obj *parent) {
            return std::visit([&](auto &&x) { return caster<bare<decltype(x)>>::cast(std::forward<decltype(x)>(x), p, parent); }, std::forward<V>(src));
        }
    };

    template<typename T>
    struct caster<std::map<std::string, T>> {
        static Obj *cast(const std::map<std::string, T> &m, return_value_policy p, Obj *parent) {
            simpy::Ref l(simpy::mk_list(simpy::LIST, std::vector<Obj *>(m.size(), nullptr)));
            size_t k = 0;
            for (auto &e: m) {
                simpy::Ref v(caster<T>::cast(e.second, p, parent));
                l.p->items[k++] = simpy::mk_list(simpy::TUPLE, {simpy::mk_str(e.first), v.release()});
            }
            return l.release();
        }
    };

    template<>
    struct caster<std::nullopt_t> {
        static Obj *cast(std::nullopt_t, return_value_policy, Obj *) { return simpy::none(); }
    };

    // dense matrices of doubles
    template<typename T>
    struct caster<T, std::enable_if_t<std::is_base_of<Eigen::PlainObjectBase<T>, T>::value>> {
        T v;
        static constexpr bool vec = T::IsVectorAtCompileTime;

        static double at(Obj *o, long r, long c, bool &ok) {
            if (o->type == simpy::ARRAY) return o->data[r + (o->cols < 0 ? 0 : c) * o->rows];
            Obj *x = o->items[r];
            if (x && (x->type == simpy::LIST || x->type == simpy::TUPLE)) x = x->items[c];
            double d = 0;
            ok = ok && number(x, d);
            return d;
        }

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            long r, c;
            bool one = true;
            if (o->type == simpy::ARRAY) {
                r = o->rows;
                c = o->cols;
                one = c < 0;
                if (one) c = 1;
                if (o->base) simpy::check(o->base);
            } else if (o->type == simpy::LIST || o->type == simpy::TUPLE) {
                r = (long) o->items.size();
                c = 1;
                if (r && o->items[0] && (o->items[0]->type == simpy::LIST || o->items[0]->type == simpy::TUPLE)) {
                    one = false;
                    c = (long) o->items[0]->items.size();
                    for (Obj *x: o->items)
                        if (!x || (x->type != simpy::LIST && x->type != simpy::TUPLE) || (long) x->items.size() != c) return false;
                }
            } else {
                return false;
            }
            bool flip = false;
            if (one && vec && T::RowsAtCompileTime == 1) {
                c = r;
                r = 1;
                flip = true;
            }
            if ((T::RowsAtCompileTime != Eigen::Dynamic && T::RowsAtCompileTime != r) ||
                (T::ColsAtCompileTime != Eigen::Dynamic && T::ColsAtCompileTime != c)) return false;
            v.resize(r, c);
            bool ok = true;
            for (long i = 0; i < r; ++i)
                for (long j = 0; j < c; ++j) v(i, j) = flip ? at(o, j, 0, ok) : at(o, i, j, ok);
            return ok;
        }

        template<typename A>
        T &get() { return v; }

        static Obj *copy(const T &m) {
            Eigen::MatrixXd t = m;
            return simpy::mk_array(t.data(), vec ? (long) m.size() : (long) m.rows(), vec ? -1 : (long) m.cols());
        }

        static Obj *view(const T &m, Obj *base) { // an array that refers to memory of the object it came from
            if (T::IsRowMajor && !vec) return copy(m);
            simpy::InMode q(rt::BOX);
            Obj *o = simpy::alloc(simpy::ARRAY);
            o->rows = vec ? (long) m.size() : (long) m.rows();
            o->cols = vec ? -1 : (long) m.cols();
            o->data = (double *) m.data();
            o->base = base;
            if (base) simpy::incref(base);
            return o;
        }

        static Obj *cast(T &&m, return_value_policy, Obj *) { return copy(m); }

        static Obj *cast(const T &m, return_value_policy p, Obj *parent) {
            if (p == return_value_policy::reference) return view(m, nullptr);
            if (p == return_value_policy::reference_internal) return view(m, parent);
            return copy(m);
        }
    };

    template<typename P, int O, typename S>
    struct caster<Eigen::Ref<P, O, S>> {
        caster<std::remove_const_t<P>> c;
        std::optional<Eigen::Ref<P, O, S>> r;

        bool load(Obj *o) {
            if (!c.load(o)) return false;
            r.emplace(c.v);
            return true;
        }

        template<typename A>
        Eigen::Ref<P, O, S> &get() { return *r; }

        static Obj *cast(const Eigen::Ref<P, O, S> &m, return_value_policy, Obj *) { return caster<std::remove_const_t<P>>::copy(m); }
    };

    template<typename T>
    struct is_ref : std::false_type {
    };
    template<typename P, int O, typename S>
    struct is_ref<Eigen::Ref<P, O, S>> : std::true_type {
    };

    // expressions, blocks, maps
    template<typename T>
    struct caster<T, std::enable_if_t<std::is_base_of<Eigen::EigenBase<T>, T>::value && !is_ref<T>::value && !std::is_base_of<Eigen::PlainObjectBase<T>, T>::value>> {
        static Obj *cast(const T &m, return_value_policy, Obj *) {
            typename T::PlainObject t = m;
            return caster<typename T::PlainObject>::copy(t);
        }
    };

    // callables
    template<typename R, typename... A>
    struct caster<std::function<R(A...)>> {
        std::function<R(A...)> v;

        struct Held { // like func_handle: copies and deletes its reference under the lock
            object f;

            explicit Held(object o) : f(std::move(o)) {}

            Held(const Held &o) {
                gil_scoped_acquire g;
                f = o.f;
            }

            ~Held() {
                gil_scoped_acquire g;
                object kill(std::move(f));
            }
        };

        struct Call {
            Held h;

            R operator()(A... a) const {
                gil_scoped_acquire g;
                std::vector<simpy::Ref> r;
                std::vector<Obj *> args;
                {
                    simpy::InMode q(rt::HARNESS);
                    r.reserve(sizeof...(A));
                    args.reserve(sizeof...(A));
                    (..., r.emplace_back(caster<bare<A>>::cast(a, return_value_policy::copy, nullptr)));
                    for (auto &x: r) args.push_back(x.p);
                }
                simpy::Ref res;
                try {
                    res = simpy::Ref(simpy::call(h.f.ptr(), args));
                } catch (const simpy::PyError &e) {
                    simpy::InMode q(rt::HARNESS);
                    throw error_already_set(std::make_shared<simpy::PyError>(e));
                }
                if constexpr (!std::is_void<R>::value) {
                    caster<bare<R>> c;
                    if (!c.load(res.p)) throw cast_error("Unable to cast Python instance to C++ type");
                    return std::move(c.template get<R>());
                }
            }
        };

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            if (o->type == simpy::NONE) return false;
            if (o->type != simpy::FUNC) return false;
            v = Call{Held(object(o, object::borrowed_t{}))};
            return true;
        }

        template<typename T>
        std::function<R(A...)> &get() { return v; }

        template<typename F>
        static Obj *cast(F &&f, return_value_policy, Obj *) {
            Obj *o = simpy::alloc(simpy::FUNC);
            std::function<R(A...)> g(std::forward<F>(f));
            simpy::InMode q(rt::HARNESS);
            o->fn = [g](const std::vector<Obj *> &args) -> Obj * {
                std::tuple<caster<bare<A>>...> cs;
                size_t k = 0;
                bool ok = args.size() == sizeof...(A);
                std::apply([&](auto &... c) { (..., (ok = ok && c.load(args[k++]))); }, cs);
                if (!ok) throw simpy::PyError{"TypeError", "incompatible function arguments", nullptr};
                return std::apply([&](auto &... c) -> Obj * {
                    if constexpr (std::is_void<R>::value) {
                        g(c.template get<A>()...);
                        return simpy::none();
                    } else {
                        return caster<bare<R>>::cast(g(c.template get<A>()...), return_value_policy::move, nullptr);
                    }
                }, cs);
            };
            return o;
        }
    };

    // ---------------------------------------------------------------- registered classes
    inline void *upcast(simpy::Class *from, const std::type_info &to, void *p) {
        for (simpy::Class *c = from; c; c = c->base) {
            if (*c->type == to) return p;
            if (c->up) p = c->up(p);
        }
        return nullptr;
    }

    // most derived registered class of an object
    template<typename T>
    simpy::Class *dynamic_class(const T *p, const void *&src) {
        src = p;
        if constexpr (std::is_polymorphic<T>::value) {
            if (p) {
                const std::type_info &ti = typeid(*p);
                if (ti != typeid(T))
                    if (simpy::Class *c = simpy::class_of(ti)) {
                        src = dynamic_cast<const void *>(p);
                        return c;
                    }
            }
        }
        return simpy::class_of(typeid(T));
    }

    inline Obj *new_instance(simpy::Class *c, void *value, bool owned) {
        Obj *o;
        o = simpy::alloc(simpy::INSTANCE);
        o->cls = c;
        o->value = value;
        o->owned = owned;
        simpy::register_instance(o);
        return o;
    }

    template<typename T, typename>
    struct caster {
        static_assert(!std::is_pointer<T>::value && !std::is_reference<T>::value, "simulated pybind11: unsupported type");
        T *v = nullptr;

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            if (o->type != simpy::INSTANCE || !o->value) return false;
            v = (T *) upcast(o->cls, typeid(T), o->value);
            return v != nullptr;
        }

        template<typename A>
        T &get() {
            if (!v) throw reference_cast_error();
            return *v;
        }

        static Obj *cast_ptr(const T *p, return_value_policy pol, Obj *parent) {
            if (!p) return simpy::none();
            const void *src;
            simpy::Class *c = dynamic_class(p, src);
            if (!c) throw simpy::PyError{"TypeError", "Unable to convert function return value to a Python type!", nullptr};
            if (Obj *e = simpy::find_instance(src, c)) {
                simpy::incref(e);
                return e;
            }
            switch (pol) {
                case return_value_policy::automatic:
                case return_value_policy::take_ownership: {
                    Obj *o = new_instance(c, (void *) src, true);
                    c->make_holder(o);
                    return o;
                }
                case return_value_policy::automatic_reference:
                case return_value_policy::reference:
                    return new_instance(c, (void *) src, false);
                case return_value_policy::reference_internal: {
                    Obj *o = new_instance(c, (void *) src, false);
                    simpy::keep_alive(o, parent);
                    return o;
                }
                case return_value_policy::copy:
                    if constexpr (std::is_copy_constructible<T>::value) {
                        T *n = new T(*p);
                        simpy::Class *cc = simpy::class_of(typeid(T));
                        Obj *o = new_instance(cc, n, true);
                        cc->make_holder(o);
                        return o;
                    } else {
                        throw cast_error("return_value_policy = copy, but type is non-copyable!");
                    }
                case return_value_policy::move:
                    if constexpr (std::is_move_constructible<T>::value) {
                        T *n = new T(std::move(*const_cast<T *>(p)));
                        simpy::Class *cc = simpy::class_of(typeid(T));
                        Obj *o = new_instance(cc, n, true);
                        cc->make_holder(o);
                        return o;
                    } else {
                        throw cast_error("return_value_policy = move, but type is neither movable nor copyable!");
                    }
            }
            return nullptr;
        }

        static Obj *cast(const T &v, return_value_policy p, Obj *parent) {
            if (p == return_value_policy::automatic || p == return_value_policy::automatic_reference) p = return_value_policy::copy;
            return cast_ptr(&v, p, parent);
        }

        static Obj *cast(T &&v, return_value_policy, Obj *parent) {
            return cast_ptr(&v, return_value_policy::move, parent);
        }
    };

    template<typename T>
    struct caster<T *, std::enable_if_t<!std::is_same<bare<T>, char>::value>> {
        bare<T> *v = nullptr;

        bool load(Obj *o) {
            if (!o) return false;
            if (o->type == simpy::NONE) return true;
            caster<bare<T>> c;
            if (!c.load(o)) return false;
            v = c.v;
            return true;
        }

        template<typename A>
        bare<T> *get() { return v; }

        static Obj *cast(const bare<T> *p, return_value_policy pol, Obj *parent) {
            if constexpr (std::is_base_of<Eigen::PlainObjectBase<bare<T>>, bare<T>>::value || std::is_arithmetic<bare<T>>::value) {
                if (!p) return simpy::none();
                simpy::Ref r(caster<bare<T>>::cast(*p, pol, parent));
                if (pol == return_value_policy::automatic || pol == return_value_policy::take_ownership) delete p;
                return r.release();
            } else {
                return caster<bare<T>>::cast_ptr(p, pol, parent);
            }
        }
    };

    template<typename T, typename D>
    struct caster<std::unique_ptr<T, D>> {
        static Obj *cast(std::unique_ptr<T, D> &&u, return_value_policy, Obj *) {
            if (!u) return simpy::none();
            const void *src;
            simpy::Class *c = dynamic_class(u.get(), src);
            if (!c) throw simpy::PyError{"TypeError", "Unable to convert function return value to a Python type!", nullptr};
            if (Obj *e = simpy::find_instance(src, c)) {
                simpy::incref(e);
                return e;
            }
            if (c->shared)
                throw cast_error("Unable to convert unique_ptr: the class has a shared_ptr holder");
            Obj *o = new_instance(c, (void *) src, true);
            u.release();
            o->holder_made = true;
            return o;
        }
    };

    template<typename T>
    struct caster<std::shared_ptr<T>> {
        std::shared_ptr<T> v;

        bool load(Obj *o) {
            if (!o) return false;
            simpy::check(o);
            if (o->type == simpy::NONE) return true;
            caster<bare<T>> c;
            if (!c.load(o)) return false;
            if (!o->cls->shared) throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
            if (!o->sp) throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
            v = std::shared_ptr<T>(o->sp, c.v);
            return true;
        }

        template<typename A>
        std::shared_ptr<T> &get() { return v; }

        static Obj *cast(const std::shared_ptr<T> &s, return_value_policy, Obj *) {
            if (!s) return simpy::none();
            const void *src;
            simpy::Class *c = dynamic_class(s.get(), src);
            if (!c) throw simpy::PyError{"TypeError", "Unable to convert function return value to a Python type!", nullptr};
            if (Obj *e = simpy::find_instance(src, c)) {
                simpy::incref(e);
                return e;
            }
            if (!c->shared) throw cast_error("Unable to convert shared_ptr: the class has another holder");
            Obj *o = new_instance(c, (void *) src, true);
            o->sp = std::shared_ptr<void>(s, (void *) src);
            o->holder_made = true;
            return o;
        }
    };

    template<typename T>
    Obj *to_python(T &&v, return_value_policy p = return_value_policy::automatic, Obj *parent = nullptr) {
        using B = std::decay_t<T>;
        return caster<B>::cast(std::forward<T>(v), p, parent);
    }

    template<typename T>
    object cast(T &&v, return_value_policy p = return_value_policy::automatic, handle parent = handle()) {
        if (p == return_value_policy::automatic)
            p = std::is_pointer<std::decay_t<T>>::value ? return_value_policy::take_ownership
                                                       : std::is_lvalue_reference<T>::value ? return_value_policy::copy : return_value_policy::move;
        return object(to_python(std::forward<T>(v), p, parent.ptr()), object::stolen_t{});
    }

    template<typename T>
    T handle::cast() const {
        caster<bare<T>> c;
        if (!c.load(m_ptr)) throw cast_error("Unable to cast Python instance to C++ type");
        return c.template get<T>();
    }

    template<typename T>
    T cast(const handle &h) { return h.cast<T>(); }

    template<typename... A>
    object handle::operator()(A &&... a) const {
        std::vector<object> r{pybind11::cast(std::forward<A>(a))...};
        std::vector<Obj *> args;
        for (auto &x: r) args.push_back(x.ptr());
        try {
            return object(simpy::call(m_ptr, args), object::stolen_t{});
        } catch (const simpy::PyError &e) {
            throw error_already_set(std::make_shared<simpy::PyError>(e));
        }
    }

    inline object handle::attr(const char *n) const { return object(simpy::get_attr(m_ptr, n), object::stolen_t{}); }

    template<typename T>
    void list::append(T &&x) {
        object o = pybind11::cast(std::forward<T>(x));
        simpy::InMode q(rt::BOX);
        m_ptr->items.push_back(o.release().ptr());
    }

    template<typename T>
    void item_accessor::operator=(T &&x) && {
        object o = pybind11::cast(std::forward<T>(x));
        Obj *old = in->items.at(at);
        in->items.at(at) = o.release().ptr();
        if (old) simpy::decref(old);
    }

    template<typename T>
    void dict::item::operator=(T &&v) { d.set(key, pybind11::cast(std::forward<T>(v))); }

    template<typename T>
    bool isinstance(handle h) {
        if (!h.ptr()) return false;
        auto t = h.ptr()->type;
        if constexpr (std::is_same<T, str>::value) return t == simpy::STR;
        else if constexpr (std::is_same<T, float_>::value) return t == simpy::FLOAT;
        else if constexpr (std::is_same<T, int_>::value) return t == simpy::INT || t == simpy::BOOL;
        else if constexpr (std::is_same<T, bool_>::value) return t == simpy::BOOL;
        else if constexpr (std::is_same<T, none>::value) return t == simpy::NONE;
        else if constexpr (std::is_same<T, list>::value) return t == simpy::LIST;
        else if constexpr (std::is_same<T, tuple>::value) return t == simpy::TUPLE;
        else if constexpr (std::is_same<T, function>::value) return t == simpy::FUNC;
        else if constexpr (std::is_base_of<object, T>::value) return t == simpy::ARRAY || std::is_same<T, object>::value;
        else return caster<T>().load(h.ptr());
    }

    // an owner of something native, finalised with the last reference
    struct capsule : object {
        using object::object;

        capsule() = default;

        capsule(const void *p, void (*del)(void *)) : object(simpy::alloc(simpy::CAPSULE), stolen_t{}) {
            simpy::InMode q(rt::BOX);
            m_ptr->value = const_cast<void *>(p);
            if (del) m_ptr->finalize = [p, del] {
                simpy::InMode l(rt::LIB);
                del(const_cast<void *>(p));
            };
        }

        explicit capsule(const void *p, const char * = nullptr, void (*del)(void *) = nullptr) : capsule(p, del) {}

        explicit capsule(void (*del)()) : object(simpy::alloc(simpy::CAPSULE), stolen_t{}) {
            simpy::InMode q(rt::BOX);
            m_ptr->finalize = [del] {
                simpy::InMode l(rt::LIB);
                del();
            };
        }

        template<typename T = void>
        T *get_pointer() const { return static_cast<T *>(m_ptr->value); }

        template<typename T>
        operator T *() const { return get_pointer<T>(); }
    };

    inline bool hasattr(handle h, const char *n) { return h.ptr() && h.ptr()->cls && h.ptr()->cls->find(n); }

    inline object getattr(handle h, const char *n) { return h.attr(n); }

    inline object getattr(handle h, const char *n, handle def) {
        return hasattr(h, n) ? h.attr(n) : object(def, object::borrowed_t{});
    }

    template<typename... A>
    void print(A &&...) { (void) !write(1, "\n", 1); }

    inline size_t len(handle h) { return h.ptr()->type == simpy::ARRAY ? (size_t) h.ptr()->rows : h.ptr()->items.size(); }

    template<typename... A>
    tuple make_tuple(A &&... a) {
        tuple t(sizeof...(A));
        size_t k = 0;
        (..., (t.ptr()->items[k++] = pybind11::cast(std::forward<A>(a)).release().ptr()));
        return t;
    }

    template<typename T>
    arg_v arg::operator=(T &&v) const {
        return arg_v(*this, object(to_python(std::forward<T>(v), return_value_policy::automatic), object::stolen_t{}));
    }

    // ---------------------------------------------------------------- functions
    struct cpp_function : function {
        cpp_function() = default;

        template<typename F, typename... E, typename = std::enable_if_t<!std::is_base_of<handle, std::decay_t<F>>::value>>
        cpp_function(F &&f, const E &... extra);
    };
    namespace detail {
        struct Options {
            return_value_policy policy = return_value_policy::automatic;
            std::vector<std::pair<size_t, size_t>> keep;
            std::vector<simpy::Arg> args;
        };

        inline void option(Options &, const char *) {}

        inline void option(Options &, const doc &) {}

        inline void option(Options &, is_operator) {}

        inline void option(Options &, kw_only) {}

        inline void option(Options &, pos_only) {}

        inline void option(Options &, prepend) {}

        inline void option(Options &o, return_value_policy p) { o.policy = p; }

        inline void option(Options &o, const arg_v &a) {
            simpy::Arg x;
            x.name = a.name ? a.name : "";
            x.def = a.value.ptr();
            simpy::incref(x.def);
            o.args.push_back(x);
        }

        inline void option(Options &o, const arg &a) {
            simpy::Arg x;
            x.name = a.name ? a.name : "";
            o.args.push_back(x);
        }

        template<size_t N, size_t P>
        void option(Options &o, keep_alive<N, P>) { o.keep.push_back({N, P}); }

        template<typename... T>
        void option(Options &, call_guard<T...>) {}

        template<typename... E>
        struct guard_of {
            using type = call_guard<>::type;
        };
        template<typename... T, typename... E>
        struct guard_of<call_guard<T...>, E...> {
            using type = typename call_guard<T...>::type;
        };
        template<typename F, typename... E>
        struct guard_of<F, E...> : guard_of<E...> {
        };

        template<typename F>
        struct signature : signature<decltype(&F::operator())> {
        };
        template<typename R, typename... A>
        struct signature<R(*)(A...)> {
            using ret = R;
            using args = std::tuple<A...>;
        };
        template<typename R, typename... A>
        struct signature<R(*)(A...) noexcept> : signature<R(*)(A...)> {
        };
        template<typename C, typename R, typename... A>
        struct signature<R(C::*)(A...) const noexcept> : signature<R(*)(A...)> {
        };
        template<typename C, typename R, typename... A>
        struct signature<R(C::*)(A...) noexcept> : signature<R(*)(A...)> {
        };
        template<typename C, typename R, typename... A>
        struct signature<R(C::*)(A...) const> {
            using ret = R;
            using args = std::tuple<A...>;
        };
        template<typename C, typename R, typename... A>
        struct signature<R(C::*)(A...)> {
            using ret = R;
            using args = std::tuple<A...>;
        };

        inline std::vector<void (*)(std::exception_ptr)> &translators() {
            static std::vector<void (*)(std::exception_ptr)> t;
            return t;
        }

        // what PyErr_SetString was given last
        inline std::optional<simpy::PyError> &pending() {
            static thread_local std::optional<simpy::PyError> e;
            return e;
        }

        // the native exception being handled as an exception of Python
        [[noreturn]] inline void translate() {
            simpy::InMode q(rt::HARNESS);
            std::exception_ptr left = std::current_exception();
            for (size_t k = translators().size(); k-- > 0;) {
                pending().reset();
                try {
                    translators()[k](left);
                } catch (...) {
                    left = std::current_exception();
                    continue;
                }
                if (pending()) throw *std::exchange(pending(), std::nullopt);
            }
            try {
                std::rethrow_exception(left);
            } catch (const simpy::PyError &) {
                throw;
            } catch (const error_already_set &e) {
                throw simpy::PyError(*e.e);
            } catch (const builtin_exception &e) {
                throw simpy::PyError{e.type, e.what(), nullptr};
            } catch (const std::bad_alloc &e) {
                throw simpy::PyError{"MemoryError", e.what(), nullptr};
            } catch (const std::domain_error &e) {
                throw simpy::PyError{"ValueError", e.what(), nullptr};
            } catch (const std::invalid_argument &e) {
                throw simpy::PyError{"ValueError", e.what(), nullptr};
            } catch (const std::length_error &e) {
                throw simpy::PyError{"ValueError", e.what(), nullptr};
            } catch (const std::out_of_range &e) {
                throw simpy::PyError{"IndexError", e.what(), nullptr};
            } catch (const std::range_error &e) {
                throw simpy::PyError{"ValueError", e.what(), nullptr};
            } catch (const std::overflow_error &e) {
                throw simpy::PyError{"OverflowError", e.what(), nullptr};
            } catch (const std::exception &e) {
                throw simpy::PyError{"RuntimeError", e.what(), nullptr};
            } catch (...) {
                throw simpy::PyError{"RuntimeError", "Caught an unknown exception!", nullptr};
            }
        }

        template<typename T, typename C>
        decltype(auto) pass(C &c) {
            if constexpr (std::is_pointer<std::remove_reference_t<T>>::value) return c.template get<T>();
            else if constexpr (std::is_lvalue_reference<T>::value) return static_cast<T>(c.template get<T>());
            else if constexpr (std::is_rvalue_reference<T>::value) return std::move(c.template get<bare<T>>());
            else return static_cast<T &>(c.template get<T>());
        }

        template<typename Tuple>
        struct loader;
        template<typename... A>
        struct loader<std::tuple<A...>> {
            std::tuple<caster<bare<A>>...> c;

            template<size_t... I>
            bool load(const std::vector<Obj *> &v, size_t skip, std::index_sequence<I...>) {
                if (v.size() != sizeof...(A) + skip) return false;
                return (... && std::get<I>(c).load(v[I + skip]));
            }

            bool load(const std::vector<Obj *> &v, size_t skip = 0) { return load(v, skip, std::index_sequence_for<A...>{}); }

            template<typename F, size_t... I>
            decltype(auto) call(F &f, std::index_sequence<I...>) { return f(pass<A>(std::get<I>(c))...); }

            template<typename F>
            decltype(auto) call(F &f) { return call(f, std::index_sequence_for<A...>{}); }
        };

        inline void do_keep(const Options &o, const std::vector<Obj *> &args, Obj *ret) {
            for (auto &k: o.keep) {
                Obj *n = k.first == 0 ? ret : k.first <= args.size() ? args[k.first - 1] : nullptr;
                Obj *p = k.second == 0 ? ret : k.second <= args.size() ? args[k.second - 1] : nullptr;
                if (n && p && n->type != simpy::NONE && p->type != simpy::NONE) simpy::keep_alive(n, p);
            }
        }

        template<typename R>
        struct result_policy {
            static return_value_policy of(return_value_policy p) {
                if (!std::is_lvalue_reference<R>::value && !std::is_pointer<R>::value) return return_value_policy::move;
                return p;
            }
        };

        template<typename F, typename... E>
        simpy::Function *make_function(const char *name, F f, return_value_policy def, const E &... extra) {
            using S = signature<F>;
            using Args = typename S::args;
            using R = typename S::ret;
            auto fn = new simpy::Function();
            fn->name = name;
            Options o;
            o.policy = def;
            (option(o, extra), ...);
            fn->nargs = std::tuple_size<Args>::value;
            fn->args = o.args;
            fn->call = [f, o](const std::vector<Obj *> &v) mutable -> Obj * {
                try {
                    loader<Args> l;
                    if (!l.load(v)) return nullptr;
                    using Guard = typename guard_of<E...>::type;
                    Obj *r;
                    if constexpr (std::is_void<R>::value) {
                        {
                            Guard g{};
                            (void) g;
                            l.call(f);
                        }
                        r = simpy::none();
                    } else {
                        auto run = [&]() -> R {
                            Guard g{};
                            (void) g;
                            return l.call(f);
                        };
                        r = caster<std::decay_t<R>>::cast(run(), result_policy<R>::of(o.policy), v.empty() ? nullptr : v[0]);
                    }
                    simpy::Ref keep(r);
                    do_keep(o, v, r);
                    return keep.release();
                } catch (const reference_cast_error &) {
                    return nullptr;
                } catch (...) {
                    translate();
                }
            };
            return fn;
        }

        template<typename F>
        struct init_factory {
            F f;
        };
        template<typename... A>
        struct init_direct {
        };
    }

    template<typename F>
    detail::init_factory<F> init(F f) { return {std::move(f)}; }

    template<typename... A>
    detail::init_direct<A...> init() { return {}; }

    template<typename... A>
    struct overload_cast_impl {
        template<typename R>
        constexpr auto operator()(R (*f)(A...)) const { return f; }

        template<typename R, typename C>
        constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }

        template<typename R, typename C>
        constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
    };
    template<typename... A>
    static constexpr overload_cast_impl<A...> overload_cast{};
    static constexpr auto const_ = std::true_type{};

    inline void register_exception_translator(void (*f)(std::exception_ptr)) {
        detail::translators().push_back(f);
    }

    // ---------------------------------------------------------------- module and class
    struct accessor {
        template<typename T>
        void operator=(T &&) {}

        operator object() const { return object(simpy::none(), object::stolen_t{}); }
    };

    template<typename F, typename... E, typename>
    cpp_function::cpp_function(F &&f, const E &... extra) : function(object(simpy::alloc(simpy::FUNC), stolen_t{})) {
        simpy::InMode q(rt::BOX);
        std::shared_ptr<simpy::Function> fn(detail::make_function("", std::decay_t<F>(f), return_value_policy::automatic, extra...));
        m_ptr->fn = [fn](const std::vector<Obj *> &a) { return simpy::invoke(fn.get(), nullptr, a, {}); };
    }

    struct module_ : object {
        accessor attr(const char *) { return {}; }

        accessor doc() { return {}; }

        static module_ import(const char *) { return {}; }

        template<typename T>
        void add_object(const char *, T &&, bool = false) {}

        template<typename F, typename... E>
        module_ &def(const char *name, F &&f, const E &... extra) {
            simpy::Class *c = simpy::class_named("module");
            simpy::add_attr(c, detail::make_function(name, std::decay_t<F>(f), return_value_policy::automatic, extra...));
            return *this;
        }

        module_ def_submodule(const char *, const char * = nullptr) { return *this; }
    };

    using module = module_;

    namespace detail {
        template<typename T>
        struct is_holder : std::false_type {
        };
        template<typename T>
        struct is_holder<std::shared_ptr<T>> : std::true_type {
        };
        template<typename T, typename D>
        struct is_holder<std::unique_ptr<T, D>> : std::true_type {
        };

        template<typename T, typename... O>
        struct pick {
            static constexpr bool shared = false;
            using base = void;
        };
        template<typename T, typename H, typename... O>
        struct pick<T, H, O...> {
            using rest = pick<T, O...>;
            static constexpr bool shared = rest::shared || std::is_same<H, std::shared_ptr<T>>::value;
            using base = std::conditional_t<!is_holder<H>::value && std::is_base_of<H, T>::value, H, typename rest::base>;
        };
    }

    template<typename T, typename... Options>
    struct class_ : object {
        simpy::Class *c;
        using P = detail::pick<T, Options...>;
        using Base = typename P::base;

        template<typename... E>
        class_(handle, const char *name, const E &...) : object() {
            c = new simpy::Class();
            c->name = name;
            c->type = &typeid(T);
            c->shared = P::shared;
            if constexpr (!std::is_void<Base>::value) {
                c->base = simpy::class_of(typeid(Base));
                if (!c->base) throw std::runtime_error("base class not registered");
                if (c->base->shared != c->shared) throw std::runtime_error("holder types of class and base do not match");
                c->up = [](void *p) -> void * { return (Base *) (T *) p; };
            }
            c->make_holder = [](Obj *o) {
                if constexpr (P::shared) {
                    simpy::InMode q(rt::BOX);
                    o->sp = std::shared_ptr<T>((T *) o->value, [](T *p) {
                        simpy::InMode l(rt::LIB);
                        delete p;
                    });
                }
                o->holder_made = true;
            };
            c->destroy = [](Obj *o) {
                simpy::InMode l(rt::LIB);
                if constexpr (P::shared) o->sp.reset();
                else delete (T *) o->value;
            };
            simpy::add_class(c);
        }

        template<typename F>
        static auto member(F f) {
            if constexpr (std::is_member_function_pointer<F>::value) return method(f);
            else if constexpr (std::is_member_object_pointer<F>::value) return [f](const T &t) -> const auto & { return t.*f; };
            else return f;
        }

        template<typename C, typename R, typename... A>
        static auto method(R (C::*f)(A...) const noexcept) { return method((R (C::*)(A...) const) f); }

        template<typename C, typename R, typename... A>
        static auto method(R (C::*f)(A...) noexcept) { return method((R (C::*)(A...)) f); }

        template<typename C, typename R, typename... A>
        static auto method(R (C::*f)(A...) const) { return [f](const T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }; }

        template<typename C, typename R, typename... A>
        static auto method(R (C::*f)(A...)) { return [f](T &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); }; }

        template<typename F, typename... E>
        class_ &def(const char *name, F &&f, const E &... extra) {
            simpy::add_attr(c, detail::make_function(name, member(std::decay_t<F>(f)), return_value_policy::automatic, extra...));
            return *this;
        }

        // Constructors: self (without value) is the first argument. What the factory makes belongs to self.
        template<typename F, typename... E>
        class_ &def(detail::init_factory<F> &&fac, const E &... extra) {
            using S = detail::signature<F>;
            using Args = typename S::args;
            using R = typename S::ret;
            auto fn = new simpy::Function();
            fn->name = "__init__";
            fn->is_ctor = true;
            detail::Options o;
            (detail::option(o, extra), ...);
            fn->nargs = std::tuple_size<Args>::value + 1;
            fn->args = o.args;
            fn->call = [f = fac.f, o](const std::vector<Obj *> &v) mutable -> Obj * {
                try {
                    detail::loader<Args> l;
                    if (!l.load(v, 1)) return nullptr;
                    using Guard = typename detail::guard_of<E...>::type;
                    auto run = [&]() -> R {
                        Guard g{};
                        (void) g;
                        return l.call(f);
                    };
                    Obj *self = v[0];
                    if constexpr (std::is_pointer<R>::value) {
                        T *p = run();
                        if (!p) throw type_error("pybind11::init(): factory function returned nullptr");
                        self->value = p;
                        self->owned = true;
                        self->cls->make_holder(self);
                    } else if constexpr (detail::is_holder<R>::value) {
                        R h = run();
                        if (!h) throw type_error("pybind11::init(): factory function returned nullptr");
                        self->value = (T *) h.get();
                        self->owned = true;
                        if constexpr (std::is_same<R, std::shared_ptr<T>>::value) {
                            static_assert(P::shared, "factory returns another holder than the class has");
                            self->sp = h;
                        } else {
                            static_assert(!P::shared, "factory returns another holder than the class has");
                            h.release();
                        }
                        self->holder_made = true;
                    } else {
                        R r = run();
                        self->value = new T(std::move(r));
                        self->owned = true;
                        self->cls->make_holder(self);
                    }
                    simpy::register_instance(self);
                    detail::do_keep(o, v, simpy::none());
                    return simpy::none();
                } catch (const reference_cast_error &) {
                    return nullptr;
                } catch (...) {
                    detail::translate();
                }
            };
            simpy::add_attr(c, fn);
            return *this;
        }

        template<typename... A, typename... E>
        class_ &def(detail::init_direct<A...> &&, const E &... extra) {
            return def(pybind11::init([](A... a) {
                if constexpr (std::is_constructible<T, A...>::value) return new T(std::forward<A>(a)...);
                else return new T{std::forward<A>(a)...};
            }), extra...);
        }

        template<typename C, typename D, typename... E>
        class_ &def_readonly(const char *name, const D C::*m, const E &... extra) {
            auto f = [m](const T &t) -> const D & { return t.*m; };
            auto fn = detail::make_function(name, f, return_value_policy::reference_internal, extra...);
            fn->is_property = true;
            simpy::add_attr(c, fn);
            return *this;
        }

        template<typename C, typename D, typename... E>
        class_ &def_readwrite(const char *name, D C::*m, const E &... extra) { return def_readonly(name, (const D C::*) m, extra...); }

        template<typename F, typename... E>
        class_ &def_property_readonly(const char *name, F &&f, const E &... extra) {
            auto fn = detail::make_function(name, member(std::decay_t<F>(f)), return_value_policy::reference_internal, extra...);
            fn->is_property = true;
            simpy::add_attr(c, fn);
            return *this;
        }

        template<typename G, typename S, typename... E>
        class_ &def_property(const char *name, G &&get, S &&, const E &... extra) {
            return def_property_readonly(name, std::forward<G>(get), extra...);
        }

        template<typename F, typename... E>
        class_ &def_static(const char *, F &&, const E &...) { return *this; }

        template<typename F, typename... E>
        class_ &def_property_readonly_static(const char *, F &&, const E &...) { return *this; }

        template<typename D>
        class_ &def_readonly_static(const char *, const D *) { return *this; }

        accessor attr(const char *) { return {}; }

        accessor doc() { return {}; }
    };

}

#define PyExc_RuntimeError "RuntimeError"
#define PyExc_ValueError "ValueError"
#define PyExc_TypeError "TypeError"
#define PyExc_IndexError "IndexError"
#define PyExc_KeyError "KeyError"
#define PyExc_ArithmeticError "ArithmeticError"
#define PyExc_OverflowError "OverflowError"
#define PyExc_MemoryError "MemoryError"
#define PyExc_Exception "Exception"

inline void PyErr_SetString(const char *type, const char *message) {
    simpy::InMode q(rt::HARNESS);
    pybind11::detail::pending() = simpy::PyError{type, message, nullptr};
}

inline int PyErr_WarnEx(const char *, const char *, int) { return 0; }

inline int PyErr_CheckSignals() { return 0; }

inline int PyGILState_Check() { return simpy::gil_held(); }

#define PYBIND11_MODULE(name, variable) \
    static void sim_pybind11_init_##name(::pybind11::module_ &); \
    void sim_pyinit(::pybind11::module_ &m) { sim_pybind11_init_##name(m); } \
    static void sim_pybind11_init_##name(::pybind11::module_ &variable)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
