// Harness: executes plan steps against the real library.
#pragma once
#include <atomic>
#include <cstring>
#include <cstdio>
#include <memory>
#include <stdexcept>
#include <functional>
#include <cmath>
#include "plan.h"

struct Dig {
    uint64_t h = 0xcbf29ce484222325ull;
    char text[200];
    int tl = 0, nt = 0;

    Dig() { text[0] = 0; }

    void bytes(const void *p, size_t n) {
        const unsigned char *b = (const unsigned char *) p;
        for (size_t i = 0; i < n; ++i) {
            h ^= b[i];
            h *= 0x100000001b3ull;
        }
    }

    void i(long v) {
        bytes(&v, sizeof v);
        if (nt < 6) tl += snprintf(text + tl, sizeof text - tl, "%ld;", v), ++nt;
    }

    template<typename S>
    void s(const S &v) {
        bytes(&v, sizeof(S) == 16 && std::is_same<S, long double>::value ? 10 : sizeof(S));
        if (nt < 6) tl += snprintf(text + tl, sizeof text - tl, "%.17g;", (double) v), ++nt;
    }

    template<typename D>
    void mat(const D &m) {
        for (long c = 0; c < (long) m.cols(); ++c)
            for (long r = 0; r < (long) m.rows(); ++r) s(m(r, c));
    }
};

// ---- state of one step being executed by one thread
struct StepCtx {
    const StepSpec *spec = nullptr;
    uint64_t cbn = 0, copies = 0;
    uint64_t cbhash = 0xcbf29ce484222325ull;
    uint64_t fired = 0;
    bool thrown = false;
    uint64_t after_throw = 0; // callback calls after a callback threw
    StepCtx *outer = nullptr;
    unsigned fp0 = 0;                     // floating-point control words when the step began
    const std::string *before = nullptr;  // process-wide state when the step began
    bool told = false;
};

StepCtx *&ctx();

const Plan &plan();

struct ProblemBase;

struct CbState { // per object slot
    int obj = -1;
    bool constructing = false;
    bool lt = false;          // LiouvilleTransformation: its q is evaluated on demand
    int thread = -1;
    double lo = 0, hi = 0;
    bool envdead = false;
};

struct Env { // what the coefficient functions refer to; may be destroyed after construction
    double c[8];
    int n;
};

struct NonStd { // exception type unrelated to std::exception
    int payload;
    unsigned magic;
    static int live;

    explicit NonStd(int p);

    NonStd(const NonStd &);

    ~NonStd();
};

struct TokenBadAlloc : std::bad_alloc {
    int payload;

    explicit TokenBadAlloc(int p) : payload(p) {}
};

struct TokenError : std::exception {
    int payload;
    char buf[32];

    explicit TokenError(int p) : payload(p) { snprintf(buf, sizeof buf, "token%d", p); }

    const char *what() const noexcept override { return buf; }
};

[[noreturn]] void throw_token(int type, int payload);

extern int cb_live;           // functor copies alive
extern uint64_t cb_fired[16]; // per fault kind
extern uint64_t late_calls, outside_calls, wrong_thread_calls;

struct CbCore {
    CbState *st;
    Env *env;
    int which, pot;
    unsigned magic;

    CbCore(CbState *st, Env *env, int which, int pot);

    CbCore(const CbCore &);

    CbCore &operator=(const CbCore &) = delete;

    ~CbCore();

    // bookkeeping and faults; true: use 'forced' as the value
    bool enter(double x, double &forced) const;
};

// value of the coefficient function in the type of the problem
template<typename S>
S pot_value(int pot, const double *c, const S &x) {
    using std::cos; using std::sin; using std::exp; using std::sqrt; using std::abs; using std::floor;
    switch (pot) {
        case 0: return S(c[0]);
        case 1: return S(c[0]) * cos(S(2) * x);
        case 2: return x * x;
        case 3: return x < S(c[1]) ? S(0) : S(c[0]);
        case 4: return S(c[0]) * S(c[0]) * sin(S(2) * x) * sin(S(2) * x) - S(2) * S(c[0]) * cos(S(2) * x);
        case 5: return S(1) / (x * x + S(.1) + S(c[0]) * S(c[0]));
        case 6: return S(c[0]) + S(c[1]) * x + S(c[2]) * x * x;
        case 7: return exp(-x * x) * S(c[0]);
        case 8: return S(c[0]) * abs(x);
        case 9: return floor(x * S(3)) * S(c[0]);
        case 10: return S(c[0]) + S(c[1]) * sin(x);      // positive coefficient for p, w
        case 11: return S(c[0]) + sqrt(x + S(1));
        case 13: return S(c[0]) + abs(x - S(.7));
        case 14: return S(.5) + S(1) / (S(.02) + (x - S(.4)) * (x - S(.4)));
        case 15: return S(c[0]) + S(c[1]) * cos(S(20) * x);
        case 12: return x * x * (S(3.14159265358979) - x) * S(c[0]);
        default: return S(0);
    }
}

template<typename S>
struct Cb : CbCore {
    using CbCore::CbCore;

    S operator()(const S &x) const {
        int old = rt::set_mode(rt::HARNESS);
        struct R {
            int o;

            ~R() { rt::set_mode(o); }
        } r{old};
        double forced;
        if (enter((double) x, forced)) return S(forced);
        return pot_value<S>(pot, env->c, x);
    }
};

// ---- arguments that live on the simulated heap and die right after the call
template<typename T>
struct Box {
    T *p;

    template<typename... A>
    explicit Box(A &&... a) {
        int o = rt::set_mode(rt::BOX);
        p = new T(std::forward<A>(a)...);
        rt::set_mode(o);
    }

    Box(const Box &) = delete;

    T &operator*() { return *p; }

    T *operator->() { return p; }

    void kill() {
        if (p) {
            int o = rt::set_mode(rt::BOX);
            delete p;
            rt::set_mode(o);
        }
        p = nullptr;
    }

    ~Box() { kill(); }
};

struct ProblemBase {
    ObjSpec spec;
    CbState cb;
    Env *env = nullptr;
    bool built = false;

    virtual ~ProblemBase() = default;

    // executes op, adds its result to d; throws what the library throws; false: unknown operation
    virtual bool exec(const StepSpec &, Dig &d) = 0;

    // the operation makes sense without the object
    virtual bool loose(const StepSpec &) const { return false; }

    virtual void drop() = 0;          // destroys the native object
    virtual void drop_slots() = 0;    // destroys eigenfunctions
};

struct BuilderBase {
    virtual ~BuilderBase() = default;
};

ProblemBase *make_problem_d(const ObjSpec &);
ProblemBase *make_problem_l(const ObjSpec &);
ProblemBase *make_problem_q(const ObjSpec &);
ProblemBase *make_problem_cs(const ObjSpec &);
ProblemBase *make_problem_py(const ObjSpec &);
void py_init();
void py_finish();
ProblemBase *make_problem_js(const ObjSpec &);
void js_init();
void js_finish();
void *shared_builder(int id, const std::string &scal); // created by op "sb"

Env *make_env(const ObjSpec &, Env *);
void kill_env(ProblemBase &);
void after_build_env(ProblemBase &);

// library call: runs f in library mode
template<typename F>
auto lib(F &&f) -> decltype(f()) {
    struct R {
        int o;

        R() : o(rt::set_mode(rt::LIB)) {}

        ~R() { rt::set_mode(o); }
    } r;
    return f();
}
void builder_fault_point(int when);
