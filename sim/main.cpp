// Server: reads plans on stdin, runs each in a forked child, prints the result. Not instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ops.h"
#ifdef SIM_PY
#include "py/pyobj.h"
#endif
#ifdef SIM_JS
#include "js/jsobj.h"
#endif
#include <clocale>
#include <iostream>
#include <locale>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <fenv.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <xmmintrin.h>
#include <stdio_ext.h>
#include <sys/resource.h>
#include <ctime>
#include <pthread.h>
#include <fpu_control.h>
#include <cxxabi.h>

using std::string;
using std::vector;

static Plan P;
static vector<std::unique_ptr<ProblemBase>> objs;
static vector<std::shared_ptr<void>> builders;
static thread_local StepCtx *tl_ctx;
int cb_live;
int NonStd::live;
uint64_t cb_fired[16];
uint64_t late_calls, outside_calls, wrong_thread_calls;
static int expected_rand;
static long expected_rand48;
static bool state_checks;

StepCtx *&ctx() { return tl_ctx; }

const Plan &plan() { return P; }

NonStd::NonStd(int p) : payload(p), magic(0x77) { ++live; }

NonStd::NonStd(const NonStd &o) : payload(o.payload), magic(o.magic) { ++live; }

NonStd::~NonStd() {
    magic = 0;
    --live;
}

void throw_token(int type, int payload) {
    switch (type) {
        case 0: throw std::runtime_error("token" + std::to_string(payload));
        case 1: throw TokenError(payload);
        case 2: throw (int) payload;
        case 3: throw NonStd(payload);
        case 4: throw TokenBadAlloc(payload);
        case 5: throw std::make_shared<int>(payload);
        case 6: throw std::out_of_range("token" + std::to_string(payload));
        default: throw std::domain_error("token" + std::to_string(payload));
    }
}


CbCore::CbCore(CbState *st, Env *env, int which, int pot) : st(st), env(env), which(which), pot(pot), magic(0xcb0bcb0b) { ++cb_live; }

CbCore::CbCore(const CbCore &o) : st(o.st), env(o.env), which(o.which), pot(o.pot), magic(0) {
    if (o.magic != 0xcb0bcb0b) rt::violation("memory", "copy of a destroyed callback object in step %d", rt::current_step());
    int old = rt::set_mode(rt::HARNESS);
    struct R {
        int o;

        ~R() { rt::set_mode(o); }
    } r{old};
    StepCtx *c = tl_ctx;
    if (c && old == rt::LIB) {
        ++c->copies;
        for (auto &f: c->spec->faults)
            if (f.kind == FaultSpec::COPYTHROW && c->copies == f.n) {
                ++cb_fired[f.kind];
                ++c->fired;
                throw_token(f.type, c->spec->id * 1000 + (int) f.n);
            }
    }
    magic = o.magic;
    ++cb_live;
}

CbCore::~CbCore() {
    if (magic != 0xcb0bcb0b) rt::violation("memory", "callback object destroyed twice in step %d", rt::current_step());
    magic = 0xdeaddead;
    --cb_live;
}

static void exec_step(const StepSpec &s);

static string snapshot();

static unsigned fpwords() {
    unsigned short cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    return (_mm_getcsr() & 0xffc0u) | (unsigned) cw << 16;
}

static void state_note(int step, const char *when, const string &before, const string &after) {
    size_t i = 0;
    while (i < before.size() && i < after.size() && before[i] == after[i]) ++i;
    i = i > 40 ? i - 40 : 0;
    rt::out("\nNOTE state step=%d %s before: %s after: %s", step, when, before.substr(i, 120).c_str(), after.substr(i, 120).c_str());
}

// A callback is code of the caller: it has to find the state the operation was called with.
static void look_around(StepCtx *c) {
    if (c->told) return;
    unsigned f = fpwords();
    if (f != c->fp0) {
        c->told = true;
        rt::out("\nNOTE fpenv step=%d inside of a callback: mxcsr/x87 %x -> %x", c->spec->id, c->fp0, f);
    }
    if (c->before && !(c->cbn & (c->cbn - 1))) {
        string now = snapshot();
        if (now != *c->before) {
            c->told = true;
            state_note(c->spec->id, "inside of a callback", *c->before, now);
        }
    }
}

bool CbCore::enter(double x, double &forced) const {
    if (magic != 0xcb0bcb0b) rt::violation("memory", "destroyed callback object called in step %d", rt::current_step());
    if (!(st->lt && which == 2)) {
        if (!st->constructing) {
            if (late_calls++ < 2)
                rt::out("\nNOTE late step=%d object %d: coefficient function %d called with x=%.17g outside its construction", rt::current_step(), st->obj, which, x);
        } else if (rt::self() != st->thread) {
            if (wrong_thread_calls++ < 2)
                rt::out("\nNOTE wrongthread step=%d object %d: coefficient function called by thread %d, construction runs on %d", rt::current_step(), st->obj, rt::self(), st->thread);
        }
    }
    double tol = which == 0 ? 0 : 1e-13 * (1 + std::fabs(st->lo) + std::fabs(st->hi));
    if (!(x >= st->lo - tol && x <= st->hi + tol)) {
        if (outside_calls++ < 2)
            rt::out("\nNOTE outside step=%d object %d: coefficient function %d called with x=%.17g outside [%g, %g]", rt::current_step(), st->obj, which, x, st->lo, st->hi);
    }
    rt::boundary(4);
    StepCtx *c = tl_ctx;
    if (!c) return false;
    ++c->cbn;
    uint64_t bits;
    memcpy(&bits, &x, 8);
    look_around(c);
    c->cbhash = (c->cbhash ^ bits ^ which) * 0x100000001b3ull;
    c->cbhash ^= c->cbhash >> 31;
    if (c->thrown) ++c->after_throw;
    bool force = false;
    for (auto &f: c->spec->faults) {
        if (f.which >= 0 && f.which != which) continue;
        bool hit = c->cbn == f.n || (f.persist && c->cbn >= f.n);
        if (!hit) continue;
        switch (f.kind) {
            case FaultSpec::CBTHROW:
                ++cb_fired[f.kind];
                ++c->fired;
                c->thrown = true;
                throw_token(f.type, c->spec->id * 1000 + (int) (f.n % 1000));
            case FaultSpec::CBVAL:
                ++cb_fired[f.kind];
                ++c->fired;
                forced = f.value;
                force = true;
                break;
            case FaultSpec::NEST: {
                ++cb_fired[f.kind];
                for (int id: f.steps) exec_step(P.steps[id]);
                break;
            }
            case FaultSpec::STALL:
                ++cb_fired[f.kind];
                rt::stall_until_others_done();
                break;
            case FaultSpec::YIELD:
                ++cb_fired[f.kind];
                rt::yield_now();
                break;
            case FaultSpec::SLOW:
                ++cb_fired[f.kind];
                rt::time_passes((int64_t) (f.value * 1e9));
                break;
            case FaultSpec::CLOCK:
                ++cb_fired[f.kind];
                rt::clock_jump((int64_t) (f.value * 1e9));
                break;
            default:
                break;
        }
    }
    return force;
}

void builder_fault_point(int when) {
    int old = rt::set_mode(rt::HARNESS);
    struct R {
        int o;

        ~R() { rt::set_mode(o); }
    } r{old};
    rt::boundary(4);
    StepCtx *c = tl_ctx;
    if (!c) return;
    for (auto &f: c->spec->faults) {
        if (f.which == 9 && (int) f.n == when) {
            ++cb_fired[f.kind];
            if (f.kind == FaultSpec::NEST) for (int id: f.steps) exec_step(P.steps[id]);
            if (f.kind == FaultSpec::STALL) rt::stall_until_others_done();
            if (f.kind == FaultSpec::YIELD) rt::yield_now();
        }
        if (f.kind == FaultSpec::BUILDERTHROW && (int) f.n == when) {
            ++cb_fired[f.kind];
            ++c->fired;
            c->thrown = true;
            throw_token(f.type, c->spec->id * 1000 + when);
        }
    }
}

Env *make_env(const ObjSpec &s, Env *e) { // e: an earlier one, which may have been changed since
    if (!e) {
        int o = rt::set_mode(rt::BOX);
        e = new Env();
        rt::set_mode(o);
    }
    auto v = s.a.v("c");
    for (int i = 0; i < 8; ++i) e->c[i] = i < (int) v.size() ? v[i] : 1;
    e->n = 8;
    return e;
}

void kill_env(ProblemBase &p) {
    if (p.env) {
        int o = rt::set_mode(rt::BOX);
        delete p.env;
        rt::set_mode(o);
        p.env = nullptr;
        p.cb.envdead = true;
    }
}

void after_build_env(ProblemBase &p) {
    long k = p.spec.a.i("envdie");
    if (k == 1) kill_env(p);
    if (k == 2) for (double &c: p.env->c) c = 1e30; // the environment changes
}

std::shared_ptr<void> make_builder_d(const ObjSpec &);
std::shared_ptr<void> make_builder_l(const ObjSpec &);

#ifdef SIM_CS
std::shared_ptr<void> make_builder_cs(const ObjSpec &);
#endif
static std::shared_ptr<void> make_builder_of(const ObjSpec &b) {
#ifdef SIM_CS
    if (b.scal == "c") return make_builder_cs(b);
#endif
#ifdef SIM_LONG
    if (b.scal == "l") return make_builder_l(b);
#endif
    return make_builder_d(b);
}

static ProblemBase *make_problem(const ObjSpec &o) {
#ifdef SIM_PY
    if (o.kind == "y") return make_problem_py(o);
#endif
#ifdef SIM_JS
    if (o.kind == "j") return make_problem_js(o);
#endif
#ifdef SIM_CS
    if (o.kind == "c") return make_problem_cs(o);
#endif
#ifdef SIM_LONG
    if (o.scal == "l") return make_problem_l(o);
#endif
#ifdef SIM_QUAD
    if (o.scal == "q") return make_problem_q(o);
#endif
    return make_problem_d(o);
}

void *shared_builder(int id, const string &) {
    if (id < 0 || id >= (int) builders.size() || !builders[id]) rt::violation("harness", "no shared builder %d", id);
    return builders[id].get();
}

// ---------------------------------------------------------------- process-wide state
struct FailBuf : std::streambuf {
    uint64_t attempts = 0;

    int overflow(int) override {
        ++attempts;
        return EOF;
    }

    std::streamsize xsputn(const char *, std::streamsize) override {
        ++attempts;
        return 0;
    }

    int sync() override { return -1; }
};

static FailBuf *failbuf, *failbuf_err;

struct CommaPunct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }

    char do_thousands_sep() const override { return '.'; }

    std::string do_grouping() const override { return "\3"; }
};

template<class C>
static void ios_state(std::ostringstream &o, const char *n, std::basic_ios<C> &s) {
    o << n << ":" << s.flags() << "/" << s.precision() << "/" << s.width() << "/" << (int) s.fill() << "/" << s.exceptions() << "/" << (s.rdstate() & std::ios::eofbit) << "/"
      << (void *) s.rdbuf() << "/" << (void *) s.tie() << "/" << s.getloc().name() << " ";
}

static string snapshot() {
    std::ostringstream o;
    o.imbue(std::locale::classic());
    ios_state(o, "cout", std::cout);
    ios_state(o, "cerr", std::cerr);
    ios_state(o, "clog", std::clog);
    ios_state(o, "cin", std::cin);
    ios_state(o, "wcout", std::wcout);
    ios_state(o, "wcerr", std::wcerr);
    o << "locale:" << std::locale().name() << "/" << std::has_facet<std::numpunct<char>>(std::locale()) << "/"
      << std::use_facet<std::numpunct<char>>(std::locale()).decimal_point() << " c:" << setlocale(LC_ALL, nullptr);
    o << " term:" << (void *) std::get_terminate() << " new:" << (void *) std::get_new_handler() << " sig:";
    for (int s = 1; s < 32; ++s) {
        struct sigaction sa;
        if (!sigaction(s, nullptr, &sa)) o << (void *) sa.sa_handler << ",";
    }
    uint64_t h = 0;
    for (char **e = environ; *e; ++e) for (char *c = *e; *c; ++c) h = h * 131 + *c;
    o << " env:" << h;
    mode_t m = umask(0);
    umask(m);
    o << " umask:" << m;
    sigset_t ss;
    sigemptyset(&ss);
    pthread_sigmask(SIG_BLOCK, nullptr, &ss);
    o << " blocked:";
    for (int s = 1; s < 65; ++s) if (sigismember(&ss, s) == 1) o << s << ",";
    o << " stdio:" << __fbufsize(stdout) << __flbf(stdout) << " fds:";
    for (int i = 0; i < 64; ++i) {
        int fl = fcntl(i, F_GETFL);
        if (fl >= 0) o << i << "/" << fl << ",";
    }
    for (int r: {RLIMIT_STACK, RLIMIT_CORE, RLIMIT_NOFILE, RLIMIT_AS}) {
        struct rlimit rl;
        if (!getrlimit((__rlimit_resource_t) r, &rl)) o << " rl:" << rl.rlim_cur;
    }
    o << " tz:" << timezone << daylight;
    char b[512];
    if (getcwd(b, sizeof b)) o << " cwd:" << b;
    return o.str();
}

static string fpstate() {
    unsigned short cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    char b[64];
    snprintf(b, sizeof b, "mxcsr=%x x87=%x", _mm_getcsr() & 0xffc0u, cw);
    return b;
}

static void env_op(const StepSpec &s) {
    string k = s.a.s("k");
    if (k == "coutfail") std::cout.rdbuf(failbuf);
    else if (k == "cerrfail") std::cerr.rdbuf(failbuf_err), std::clog.rdbuf(failbuf_err);
    else if (k == "coutbad") std::cout.setstate(std::ios::badbit);
    else if (k == "cerrbad") std::cerr.setstate(std::ios::badbit);
    else if (k == "hex") std::cout << std::hex << std::showbase << std::scientific, std::cout.precision(2), std::cerr << std::hex, std::cerr.precision(1);
    else if (k == "comma") std::locale::global(std::locale(std::locale::classic(), new CommaPunct));
    else if (k == "clocale") setlocale(LC_ALL, "C.UTF-8");
    else if (k == "up") fesetround(FE_UPWARD);
    else if (k == "down") fesetround(FE_DOWNWARD);
    else if (k == "zero") fesetround(FE_TOWARDZERO);
}

// ---------------------------------------------------------------- steps
static bool run_op(const StepSpec &s, Dig &d) {
    if (s.op == "env") {
        env_op(s);
        return true;
    }
    if (s.op == "mark") {
        rt::out("\nMARK %d %llu %llu", s.id, (unsigned long long) rt::live_lib_bytes(), (unsigned long long) rt::live_lib_blocks());
        return true;
    }
    if (s.op == "sb") {
        auto &b = P.builders[s.obj];
        int o = rt::set_mode(rt::BOX);
        builders[s.obj] = make_builder_of(b);
        rt::set_mode(o);
        return true;
    }
    if (s.op == "dropsb") {
        builders[s.obj].reset();
        return true;
    }
    if (s.op == "yield") {
        rt::yield_now();
        return true;
    }
    if (s.obj < 0 || s.obj >= (int) objs.size()) return false;
    ProblemBase *p = objs[s.obj].get();
    if (s.op != "build" && s.op != "killenv" && s.op != "rmslot" && s.op != "dropslots" && !p->built && !p->loose(s)) return false;
    return p->exec(s, d);
}

static void classify(string &st) {
    try {
        throw;
    } catch (const TokenError &e) {
        st = "exc:TokenError:" + std::to_string(e.payload) + ":" + e.what();
    } catch (const TokenBadAlloc &e) {
        st = "exc:TokenBadAlloc:" + std::to_string(e.payload);
    } catch (const NonStd &e) {
        st = "exc:NonStd:" + std::to_string(e.payload) + (e.magic == 0x77 ? "" : ":dead");
    } catch (int e) {
        st = "exc:int:" + std::to_string(e);
    } catch (const std::shared_ptr<int> &e) {
        st = "exc:ptr:" + std::to_string(*e);
#ifdef SIM_PY
    } catch (const simpy::PyError &e) {
        st = "exc:py:" + e.type + ":" + e.message;
#endif
#ifdef SIM_JS
    } catch (const simjs::JsError &e) {
        st = "exc:js:" + e.type + ":" + e.message;
#endif
    } catch (const std::exception &e) {
        int r;
        char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &r);
        st = string("exc:") + (n ? n : typeid(e).name()) + ":" + e.what();
        free(n);
    } catch (...) {
        st = "exc:unknown";
    }
    for (char &c: st) if (c == ' ' || c == '\n') c = '_';
}

// the step with slightly different arguments, for rounds that never repeat exactly
static StepSpec drifted(const StepSpec &s, long n) {
    auto shift = [n](const string &v, double f) {
        char b[40];
        snprintf(b, sizeof b, "%.17g", strtod(v.c_str(), nullptr) + n * f);
        size_t e = v.find(',');
        return b + (e == string::npos ? string() : v.substr(e));
    };
    StepSpec r = s;
    for (const char *k : {"E", "E2", "l", "r"})
        if (s.a.has(k)) r.a.m[k] = shift(s.a.s(k), 1. / (1 << 24));
    if (s.op == "build" && s.obj >= 0 && s.obj < (int) objs.size()) {
        auto &m = objs[s.obj]->spec.a.m;
        for (const char *k : {"c", "tol"})
            if (P.objs[s.obj].a.has(k)) m[k] = shift(P.objs[s.obj].a.s(k), *k == 'c' ? 1. / (1 << 20) : 1e-16);
    }
    return r;
}

static void exec_step(const StepSpec &s0) {
    long dr = s0.a.i("dr");
    StepSpec moved;
    if (dr) moved = drifted(s0, dr);
    const StepSpec &s = dr ? moved : s0;
    StepCtx c;
    c.spec = &s;
    c.outer = tl_ctx;
    rt::Saved sv;
    if (c.outer) rt::save_step(sv);
    tl_ctx = &c;
    rt::boundary(5);
    if (!c.outer) rt::poison_stack();
    rt::AllocFault af;
    for (auto &f: s.faults)
        if (f.kind == FaultSpec::ALLOC) {
            af.n = f.n;
            af.count = f.count;
            af.minsize = f.minsize;
        }
    string before, fp0 = fpstate();
    c.fp0 = fpwords();
    if (state_checks && s.op != "env") {
        before = snapshot();
        c.before = &before;
    }
    rt::set_mode(rt::HARNESS);
    rt::step_begin(s.id, af);
    string status;
    Dig d;
    try {
        status = run_op(s, d) ? "ok" : "skip";
    } catch (...) {
        rt::set_mode(rt::HARNESS);
        classify(status);
    }
    rt::StepStats ss = rt::step_end();
    string fp1 = fpstate();
    if (fp0 != fp1 && s.op != "env") rt::out("\nNOTE fpenv step=%d %s -> %s", s.id, fp0.c_str(), fp1.c_str());
    if (state_checks && s.op != "env") {
        string after = snapshot();
        if (after != before) {
            state_note(s.id, "", before, after);
        }
    }
    if (ss.fails) cb_fired[FaultSpec::ALLOC] += ss.fails;
    rt::out("\nR %d %s d=%016llx na=%llu ncb=%llu st=%llu nf=%llu fired=%llu after=%llu copies=%llu cbh=%016llx %s", s.id, status.c_str(),
            (unsigned long long) d.h, (unsigned long long) ss.allocs, (unsigned long long) c.cbn, (unsigned long long) ss.steps,
            (unsigned long long) ss.fails, (unsigned long long) c.fired, (unsigned long long) c.after_throw, (unsigned long long) c.copies,
            (unsigned long long) c.cbhash, d.text);
    if (P.cfg.sites && !c.outer) rt::print_sites(s.id);
    tl_ctx = c.outer;
    if (c.outer) rt::restore_step(sv);
    rt::boundary(5);
}

static void thread_main(void *arg) {
    long tid = (long) arg;
    for (auto &s: P.steps)
        if (s.phase == 1 && s.tid == tid) {
            for (int u: s.after) if (u < (int) P.steps.size() && P.steps[u].awaited) rt::wait_for(&P.steps[u].done);
            exec_step(s);
            if (s.awaited) rt::reach(&s.done);
        }
}

static int out_fd = -1;
struct ErrBuf : std::streambuf { // keeps what is written, without allocations
    char b[1 << 16];

    ErrBuf() { setp(b, b + sizeof b); }

    string str() const { return string(b, pptr() - b); }

    int overflow(int) override {
        setp(b, b + sizeof b);
        return 0;
    }
};

static ErrBuf *errbuf;

#ifdef SIM_PROFILING
// What the report should say: every timed scope is also entered in this tree (see simbuild.py).
namespace simprobe {
    struct Node {
        const char *name;
        int parent;
        uint64_t n;
    };
    static Node nodes[512] = {{"", -1, 0}};
    static int nnodes = 1;
    static thread_local int cur;

    void enter(const char *name) {
        int i = 1;
        while (i < nnodes && !(nodes[i].parent == cur && !strcmp(nodes[i].name, name))) ++i;
        if (i == nnodes) {
            if (i == 512) rt::violation("harness", "too many timed scopes");
            nodes[nnodes++] = {name, cur, 0};
        }
        ++nodes[i].n;
        cur = i;
    }

    void leave() { cur = nodes[cur].parent; }

    static string path(int i) { return i ? path(nodes[i].parent) + " > " + nodes[i].name : ""; }
}

static void check_report() {
    std::map<string, std::pair<uint64_t, double>> got, want;
    double elapsed = (double) rt::steps() * 1e-5 + (double) rt::time_passed() * 1e-6 + 1;
    std::cerr.flush();
    std::istringstream is(errbuf->str());
    string line;
    int on = 0;
    while (std::getline(is, line)) {
        if (line.find("profiler report") != string::npos) {
            ++on;
            continue;
        }
        size_t a = line.find('\t'), b = a == string::npos ? a : line.find('\t', a + 1);
        if (!on || b == string::npos) continue;
        rt::out("\nPROF %s", line.c_str());
        auto &g = got[line.substr(0, a)];
        string tm = line.substr(b + 1);
        g.first += strtoull(line.c_str() + a + 1, nullptr, 10);
        g.second += strtod(tm.c_str(), nullptr);
        if (line[a + 1] == '-' || tm[0] == '-') rt::out("\nNOTE proftime step=-1 negative: %s", line.c_str());
        else if (!(strtod(tm.c_str(), nullptr) <= elapsed * 16)) rt::out("\nNOTE proftime step=-1 longer than the whole run (%.2f ms): %s", elapsed, line.c_str());
    }
#ifdef SIM_PROBE
    for (int i = 1; i < simprobe::nnodes; ++i) want[simprobe::path(i)].first += simprobe::nodes[i].n;
    for (auto &w: want)
        if (got[w.first].first != w.second.first)
            rt::out("\nNOTE profcount step=-1 scope%s was entered %llu times, the report says %llu", w.first.c_str(), (unsigned long long) w.second.first,
                    (unsigned long long) got[w.first].first);
    for (auto &g: got)
        if (g.second.first && !want.count(g.first))
            rt::out("\nNOTE profcount step=-1 the report lists%s %llu times, it was never entered", g.first.c_str(), (unsigned long long) g.second.first);
    if (on > 1) rt::out("\nNOTE profcount step=-1 the report was written %d times", on);
    uint64_t sum = 0;
    for (auto &w: want) sum += w.second.first;
    rt::out("\nPROFSUM %llu %d", (unsigned long long) sum, simprobe::nnodes - 1);
#endif
}
#endif

static void finalize() {
#ifdef SIM_PROFILING
    check_report();
#endif
    std::cout.flush();
    fflush(stdout);
    if (out_fd >= 0) {
        off_t n = lseek(out_fd, 0, SEEK_END);
        if (n > 0) {
            char b[121] = {};
            lseek(out_fd, 0, SEEK_SET);
            ssize_t k = read(out_fd, b, 120);
            for (ssize_t i = 0; i < k; ++i) if (b[i] == '\n') b[i] = '|';
            rt::out("\nNOTE stdout step=-1 %lld bytes: %s", (long long) n, b);
        }
    }
    if (failbuf && failbuf->attempts) rt::out("\nNOTE stdout step=-1 %llu attempts to write to standard output", (unsigned long long) failbuf->attempts);
    int r = rand();
    if (r != expected_rand) rt::out("\nNOTE state step=-1 rand() sequence disturbed");
    if (lrand48() != expected_rand48) rt::out("\nNOTE state step=-1 lrand48() sequence disturbed");
    rt::out("\nFIRED");
    const char *names[] = {"alloc", "cbthrow", "cbval", "nest", "stall", "yield", "copythrow", "builderthrow", "clock", "badret", "slow"};
    for (int i = 0; i < 11; ++i) if (cb_fired[i]) rt::out(" %s=%llu", names[i], (unsigned long long) cb_fired[i]);
    rt::finish();
}

static void child(void *) {
    failbuf = new FailBuf();
    failbuf_err = new FailBuf();
#ifdef SIM_PROFILING
    static ErrBuf eb;
    errbuf = &eb;
    std::cerr.rdbuf(errbuf);
    atexit(finalize); // registered before the library's own handler, so runs after it
#endif
    for (auto &s: P.steps)
        for (int u: s.after)
            if (u >= 0 && u < (int) P.steps.size() && P.steps[u].phase == 1 && u < s.id) P.steps[u].awaited = true;
    srand(42);
    srand48(42);
    state_checks = P.cfgkv.i("state");
    int nt = 0;
    for (auto &s: P.steps) if (s.phase == 1 && s.tid > nt) nt = s.tid;
    for (auto &s: P.steps) if (s.phase == 0) exec_step(s);
    if (nt) {
        for (int t = 1; t <= nt; ++t) rt::spawn(t, thread_main, (void *) (long) t);
        rt::run_threads();
        rt::reap_threads();
    }
    for (auto &s: P.steps) if (s.phase == 3) exec_step(s);
    // whatever is left: in an order given by the plan
    rt::step_begin(-2, rt::AllocFault{});
    long ord = P.cfgkv.i("order");
    vector<int> ids;
    for (int i = 0; i < (int) objs.size(); ++i) ids.push_back(i);
    if (ord & 1) std::reverse(ids.begin(), ids.end());
    for (int i: ids) {
        if (ord & 2) {
            objs[i]->drop();
            objs[i]->drop_slots();
        } else {
            objs[i]->drop_slots();
            objs[i]->drop();
        }
    }
#ifdef SIM_PY
    py_finish();
#endif
#ifdef SIM_JS
    js_finish();
#endif
    for (auto &o: objs) kill_env(*o);
    builders.clear();
    objs.clear();
    rt::step_end();
    if (cb_live != 0) rt::out("\nNOTE leak step=-1 %d callback objects never destroyed", cb_live);
    if (NonStd::live != 0) rt::out("\nNOTE leak step=-1 %d exception objects never destroyed", NonStd::live);
    rt::poison_stack();
    static char txt[2000];
    uint64_t n = rt::leak_scan(txt, sizeof txt);
    if (n) rt::out("\nNOTE leak step=-1 %llu unreachable blocks:%s", (unsigned long long) n, txt);
#ifdef SIM_PROFILING
    exit(0);
#else
    finalize();
    _exit(0);
#endif
}

// ---------------------------------------------------------------- parsing
static KV parse_kv(std::istringstream &is) {
    KV r;
    string w;
    while (is >> w) {
        size_t e = w.find('=');
        if (e == string::npos) r.m[w] = "1";
        else r.m[w.substr(0, e)] = w.substr(e + 1);
    }
    return r;
}

static void parse_line(const string &line) {
    std::istringstream is(line);
    string w;
    is >> w;
    if (w.empty() || w[0] == '#') return;
    if (w == "cfg") {
        KV a = parse_kv(is);
        P.cfgkv = a;
        rt::Config &c = P.cfg;
        c.seed = strtoull(a.s("seed", "1").c_str(), nullptr, 10);
        c.record = (int) a.i("record", 1);
        c.mean_gap = a.d("gap", c.mean_gap);
        c.p_hot = a.d("hot", c.p_hot);
        c.p_sync = a.d("sync", c.p_sync);
        c.p_alloc = a.d("palloc", c.p_alloc);
        c.p_cb = a.d("pcb", c.p_cb);
        c.p_bound = a.d("pbound", c.p_bound);
        c.max_switches = (int) a.i("maxsw", c.max_switches);
        c.heap = (int) a.i("heap", 0);
        c.fill = (unsigned char) strtol(a.s("fill", "00").c_str(), nullptr, 16);
        c.freefill = (unsigned char) strtol(a.s("ffill", "dd").c_str(), nullptr, 16);
        c.stackfill = (unsigned char) strtol(a.s("sfill", "5a").c_str(), nullptr, 16);
        c.budget = strtoull(a.s("budget", "2000000000").c_str(), nullptr, 10);
        c.maxlive = (uint64_t) a.i("maxlive", 192) << 20;
        c.clockmode = (int) a.i("clock", 0);
        c.stale = (int) a.i("stale", 0);
        c.sites = (int) a.i("sites", 0);
    } else if (w == "obj" || w == "sb") {
        int id;
        is >> id;
        ObjSpec o;
        o.id = id;
        o.a = parse_kv(is);
        o.kind = o.a.s("kind", "m");
        o.scal = o.a.s("sc", "d");
        auto &v = w == "obj" ? P.objs : P.builders;
        if ((int) v.size() <= id) v.resize(id + 1);
        v[id] = o;
    } else if (w == "step") {
        int id;
        is >> id;
        StepSpec s;
        s.id = id;
        s.a = parse_kv(is);
        s.phase = (int) s.a.i("ph");
        s.tid = (int) s.a.i("t");
        s.obj = (int) s.a.i("o", -1);
        s.op = s.a.s("op");
        for (double u: s.a.v("aft")) s.after.push_back((int) u);
        if ((int) P.steps.size() <= id) {
            size_t old = P.steps.size();
            P.steps.resize(id + 1);
            for (size_t i = old; i < P.steps.size(); ++i) P.steps[i].phase = 9;
        }
        P.steps[id] = s;
    } else if (w == "fault") {
        KV a = parse_kv(is);
        FaultSpec f;
        string k = a.s("k");
        f.kind = k == "alloc" ? FaultSpec::ALLOC : k == "cbthrow" ? FaultSpec::CBTHROW : k == "cbval" ? FaultSpec::CBVAL :
                 k == "nest" ? FaultSpec::NEST : k == "stall" ? FaultSpec::STALL : k == "copythrow" ? FaultSpec::COPYTHROW :
                 k == "builderthrow" ? FaultSpec::BUILDERTHROW : k == "clock" ? FaultSpec::CLOCK : k == "badret" ? FaultSpec::BADRET : k == "slow" ? FaultSpec::SLOW : FaultSpec::YIELD;
        f.n = strtoull(a.s("n", "0").c_str(), nullptr, 10);
        f.count = strtoull(a.s("c", "1").c_str(), nullptr, 10);
        f.minsize = strtoull(a.s("min", "0").c_str(), nullptr, 10);
        f.type = (int) a.i("ty");
        f.persist = a.i("persist");
        f.which = (int) a.i("which", -1);
        string v = a.s("v", "0");
        f.value = v == "nan" ? NAN : v == "inf" ? INFINITY : v == "-inf" ? -INFINITY : strtod(v.c_str(), nullptr);
        for (double x: a.v("steps")) f.steps.push_back((int) x);
        int st = (int) a.i("step", -1);
        if (st >= 0 && st < (int) P.steps.size()) P.steps[st].faults.push_back(f);
    } else if (w == "sw") {
        string l;
        is >> l;
        const char *p = l.c_str();
        while (*p) {
            char *e;
            uint64_t ev = strtoull(p, &e, 10);
            if (e == p || *e != ':') break;
            int t = (int) strtol(e + 1, &e, 10);
            P.sw.push_back({ev, t});
            p = *e ? e + 1 : e;
        }
    } else {
        fprintf(stderr, "sim: bad plan line: %s\n", line.c_str());
        _exit(98);
    }
}

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int old = personality(0xffffffff);
        if (old >= 0 && personality(old | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    (void) argc;
    rt::init();
#ifdef SIM_PY
    py_init();
#endif
#ifdef SIM_JS
    js_init();
#endif
    srand(42);
    expected_rand = rand();
    srand48(42);
    expected_rand48 = lrand48();
    string line;
    while (true) {
        P = Plan();
        bool go = false;
        while (std::getline(std::cin, line)) {
            if (line == "go") {
                go = true;
                break;
            }
            parse_line(line);
        }
        if (!go) break;
        rt::reset_result();
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(240);
            signal(SIGALRM, SIG_DFL);
            out_fd = memfd_create("out", 0);
            int err_fd = memfd_create("err", 0);
            int null = open("/dev/null", O_RDONLY);
            dup2(null, 0);
            dup2(out_fd, 1);
            dup2(err_fd, 2);
            for (auto &o: P.objs)
                objs.emplace_back(make_problem(o));
            builders.resize(P.builders.size());
            rt::configure(P.cfg);
            for (auto &s: P.sw) rt::add_switch(s.first, s.second);
            rt::child_start(child, nullptr);
            _exit(0);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        rt::child_died(status);
        const char *t = rt::result_text();
        size_t n = strlen(t);
        for (size_t k = 0; k < n;) {
            ssize_t w = write(1, t + k, n - k);
            if (w <= 0) return 1;
            k += w;
        }
        (void) !write(1, "\nEND\n", 5);
    }
    return 0;
}
