#pragma once
#include "pybind11.h"

namespace pybind11 {
    struct array : object {
        using object::object;
        enum { c_style = 1, f_style = 2, forcecast = 16 };

        array() = default;

        array(const object &o) : object(o) {}

        ssize_t size() const { return m_ptr->rows * (m_ptr->cols < 0 ? 1 : m_ptr->cols); }

        ssize_t ndim() const { return m_ptr->cols < 0 ? 1 : 2; }

        ssize_t shape(ssize_t k) const { return k ? m_ptr->cols : m_ptr->rows; }
    };

    // doubles only, and by columns
    template<typename T, int flags = 0>
    struct array_t : array {
        static_assert(std::is_same<T, double>::value, "simulated numpy: only arrays of doubles");

        array_t() = default;

        array_t(const object &o) : array(o) {}

        explicit array_t(size_t n, const T *d = nullptr) : array(handle(make(n, d)), stolen_t{}) {}

        // the values are those at d, which base keeps alive
        array_t(size_t n, const T *d, handle base) : array(handle(make(n, nullptr)), stolen_t{}) {
            if (!d) return;
            simpy::InMode q(rt::BOX);
            m_ptr->data = const_cast<T *>(d);
            m_ptr->base = base.inc_ref().ptr();
        }

        template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>>
        explicit array_t(std::initializer_list<I> shape) : array(handle(make(shape)), stolen_t{}) {}

        static Obj *make(size_t n, const T *d) {
            simpy::InMode q(rt::HARNESS);
            std::vector<double> t(n);
            return simpy::mk_array(d ? d : t.data(), (long) n, -1);
        }

        template<typename I>
        static Obj *make(std::initializer_list<I> s) {
            simpy::InMode q(rt::HARNESS);
            long r = (long) *s.begin(), c = s.size() > 1 ? (long) s.begin()[1] : -1;
            std::vector<double> t((size_t) (r * (c < 0 ? 1 : c)));
            return simpy::mk_array(t.data(), r, c);
        }

        const T *data() const { return m_ptr->data; }

        T *mutable_data() { return m_ptr->data; }

        T &ref(ssize_t i, ssize_t j) const { return m_ptr->data[i + j * m_ptr->rows]; }

        T at(ssize_t i, ssize_t j = 0) const { return ref(i, j); }

        T &mutable_at(ssize_t i, ssize_t j = 0) { return ref(i, j); }

        struct view {
            const array_t &a;

            T &operator()(ssize_t i, ssize_t j = 0) const { return a.ref(i, j); }

            T &operator[](ssize_t i) const { return a.ref(i, 0); }

            ssize_t shape(ssize_t k) const { return a.shape(k); }

            ssize_t size() const { return a.size(); }
        };

        template<ssize_t N = 1>
        view unchecked() const { return {*this}; }

        template<ssize_t N = 1>
        view mutable_unchecked() { return {*this}; }
    };
}
