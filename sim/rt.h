// Deterministic simulation runtime: interface between the runtime (rt.cpp, not instrumented) and
// the harness (instrumented, like the library). See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {
    enum Mode : int {
        HARNESS = 0, LIB = 1, BOX = 2
    };

    struct AllocFault { // for the step being executed by the current thread
        uint64_t n = 0;        // fail the n-th allocation of the step (1-based); 0: no fault
        uint64_t count = 1;    // how many allocations fail from there on (1: only that one)
        uint64_t minsize = 0;  // if n==0 and minsize>0: every allocation of at least this size fails
    };

    struct StepStats {
        uint64_t allocs, steps, fails, frees;
    };

    // ---- life cycle
    void init();                                   // once in the server process
    void child_start(void (*fn)(void *), void *);  // in the forked child: runs fn as simulated thread 0, then returns
    struct Config {
        uint64_t seed = 1;
        uint64_t budget = 2000000000ull; // instrumented events before the run counts as hung
        int record = 1;                  // record a schedule (else follow the list)
        double mean_gap = 1000;          // mean number of tracked events between preemptions
        double p_hot = 0.25, p_sync = 0.3, p_alloc = 0.01, p_cb = 0.1, p_bound = 0.3;
        int max_switches = 3000;
        int heap = 0;                    // 0 never reuse, 1 LIFO, 2 FIFO quarantine
        unsigned char fill = 0, freefill = 0xdd;
        unsigned char stackfill = 0x5a;
        uint64_t maxlive = 192ull << 20;
        int stale = 0;                   // per mille: a load of an atomic gets an older store when the memory model lets it
        int sites = 0;                   // report where every step allocates
        int clockmode = 0;               // 0 steady, 1 jumps (profiling flavour)
    };
    void configure(const Config &);
    void add_switch(uint64_t ev, int tid);

    // ---- threads of the plan
    void spawn(int tid, void (*fn)(void *), void *);
    void run_threads();  // called by thread 0: lets the spawned threads run to their end
    void reap_threads(); // real exit (thread_local destructors), one at a time
    int self();

    // ---- modes and steps
    int set_mode(int m);          // returns the old one
    void step_begin(int step, const AllocFault &);
    StepStats step_end();
    void print_sites(int step);
    struct Saved { uint64_t a[12]; };
    void save_step(Saved &);      // around nested operations
    void restore_step(const Saved &);
    int current_step();
    void boundary(int kind);      // scheduling point: 4 callback, 5 call boundary
    void yield_now();             // let another thread run if there is one
    void wait_for(volatile int *flag);   // another thread to call reach(), with what it did before

    void reach(volatile int *flag);

    void stall_until_others_done();
    void poison_stack();

    // ---- memory
    bool in_arena(const void *);
    uint64_t live_lib_bytes();
    uint64_t live_lib_blocks();
    uint64_t leak_scan(char *text, size_t n); // number of unreachable library blocks
    uint64_t steps();
    uint64_t events();

    // ---- reporting
    [[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
    void finish();                // writes schedule, hashes, counters
    const char *result_text();
    void reset_result();
    bool finished();
    void symbolise_init();
    void child_died(int status);
    void clock_jump(int64_t ns);     // the wall clock is set
    void time_passes(int64_t ns);    // both clocks go on
    int64_t time_passed();
    extern void (*on_violation)();
}
