// Deterministic simulation runtime. Compiled WITHOUT -fsanitize=thread; the library and the harness are compiled
// with it, and this file provides every function that instrumentation calls, plus the allocator, the pthread
// synchronisation primitives, the static-initialisation guards and the clock. libtsan is not linked.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <elf.h>

extern "C" char __data_start, _end, __executable_start, etext;
extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memmove(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t up;
#define INL static inline __attribute__((always_inline))
#define COLD __attribute__((noinline, cold))

namespace {
    constexpr up ARENA = 0x100000000000ull;
    constexpr up ARENA_SZ = 1ull << 29;
    constexpr up AUX = 0x120000000000ull;
    constexpr up AUX_SZ = 1ull << 31;
    constexpr up STACKS = 0x130000000000ull;
    constexpr up STACK_SZ = 4ull << 20;
    constexpr up SHADOW = 0x140000000000ull;  // 1 byte per 8
    constexpr up CELLS = 0x150000000000ull;   // 64 bytes per 8 of arena
    constexpr up DCELLS = 0x160000000000ull;  // the same for .data/.bss
    constexpr int MAXT = 9; // the main thread, the plan's threads (from 1 up) and threads the library starts (from 8 down)

    struct Cell {
        u32 wclk;
        u8 wtid, wmask, atid, amask; // a: the last atomic write
        u32 wpc, rpc;
        u32 rclk[MAXT];
        u8 rmask[MAXT];
        u8 aclk[3];
        u32 atime() const { return aclk[0] | aclk[1] << 8 | aclk[2] << 16; }
    };
    static_assert(sizeof(Cell) == 64, "cell");

    enum State : u8 {
        FREE = 0, RUNNABLE, BLOCKED, STALLED, DONE
    };

    struct Thr {
        int id;
        int go;
        State state;
        bool timed, timedout, real, lib;
        up wait;
        int mode;
        int step;
        u64 alloc_n, fails, frees, step0;
        rt::AllocFault af;
        u32 vc[MAXT];
        u32 frel[MAXT], pend[MAXT]; // clocks of the last release fence and of what relaxed loads saw
        u64 fence_stamp, aloads;
        pthread_t h;
        void (*fn)(void *);
        void *(*fn2)(void *);
        void *arg;
        void *ret;
        up handle;
        u64 last_sched;
        up last_pc;
        up guard_held;
        void *altstack;
    };

    struct Switch {
        u64 ev;
        int tid;
    };
    constexpr int MAXSW = 8192;

    struct Sync {
        up addr;
        u32 vc[MAXT];
    };
    constexpr int MAXSYNC = 8192;

    // stores to an atomic: a load may get an older one when no later one happened before it
    constexpr int NSTORE = 8, MAXLOC = 64;
    struct AStore {
        u64 val, stamp;
        int tid;
        u32 time;
        u32 vc[MAXT], seen[MAXT]; // what an acquiring load gets; when each thread first read it (0: it did not)
    };
    struct ALoc {
        up addr;
        int size, n;
        AStore st[NSTORE];
        AStore &at(int k) { return st[k % NSTORE]; }
    };

    struct Zombie { // a library thread that ended, until it is joined
        up handle;
        void *ret;
        u32 vc[MAXT];
    };
    constexpr int MAXZ = 512;

    struct Hdr { // 32 bytes in front of the user pointer (or earlier for over-aligned blocks)
        u32 magic;
        u32 cap;      // bytes of payload incl. alignment slack
        u32 size;
        int step;
        u8 state, mode, tid, pad;
        u32 off;      // user offset from the header
        u32 magic2;
        u32 dist;     // = off for normal blocks
    };
    constexpr u32 MAGIC = 0x51a0c0de, MAGIC2 = 0x0ddba11e;

    struct FreeNode {
        Hdr *next;
    };

    struct Shared {
        volatile int state; // 0 running, 1 finished, 2 violation
        u32 len;
        char text[1 << 19];
    };

    struct Global {
        bool on, mt, initialised;
        u64 steps, step_stop, ev, next_sw;
        up data_lo, data_len;
        rt::Config cfg;
        u64 rng;
        Thr *cur;
        Thr thr[MAXT];
        int nthr, nlib;
        int nz;
        Zombie z[MAXZ];
        Switch sw[MAXSW];
        int nsw, si;
        int nvol;
        u64 il_hash, run_hash;
        up bump;         // arena
        u64 live_bytes, live_blocks, nallocs, nfails, nseq;
        Sync sync[MAXSYNC];
        int nsync;
        ALoc loc[MAXLOC];
        int nloc, loc_next;
        u64 stamp, n_stale;
        int fut;
        int64_t clock_off, mono_off; // of the wall clock; of both clocks
        u64 clock_reads, clock_jumps;
        u64 n_lock, n_cb, n_stall, n_yield;
        bool stall_violation;
        u64 forced;
    };
    Global G;
    Shared *SH;
    __thread Thr *tl_cur;

    INL u64 rnd() {
        u64 z = (G.rng += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    INL double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

    INL void mix(u64 &h, u64 v) {
        h ^= v;
        h *= 0x100000001b3ull;
        h ^= h >> 29;
    }

    INL Cell *cell_of(up a) {
        if (a - ARENA < ARENA_SZ) return (Cell *) (CELLS + ((a - ARENA) >> 3) * sizeof(Cell));
        return (Cell *) (DCELLS + ((a - (G.data_lo & ~7ull)) >> 3) * sizeof(Cell));
    }

    INL u8 &shadow(up a) { return *(u8 *) (SHADOW + ((a - ARENA) >> 3)); }

    int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    int (*real_join)(pthread_t, void **);

    long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
        register long r10 __asm__("r10") = d;
        register long r8 __asm__("r8") = e;
        register long r9 __asm__("r9") = f;
        long r;
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }

    void futex_wait(int *p, int v) { raw(SYS_futex, (long) p, FUTEX_WAIT_PRIVATE, v); }

    void futex_wake(int *p) { raw(SYS_futex, (long) p, FUTEX_WAKE_PRIVATE, 1); }

    // ------------------------------------------------------------ scheduling
    void wait_go(Thr *t) {
        for (int spin = 0; spin < 200; ++spin) {
            if (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) break;
            __builtin_ia32_pause();
        }
        while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0);
        __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
    }

    void hand_to(Thr *to) {
        G.cur = to;
        to->last_sched = G.ev;
        __atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
        futex_wake(&to->go);
    }

    void record_switch(Thr *from, Thr *to, up pc) {
        mix(G.il_hash, (u64) from->id * 131 + to->id);
        mix(G.il_hash, pc);
        mix(G.run_hash, G.ev);
        mix(G.run_hash, to->id);
        if (G.cfg.record) {
            if (G.nsw < MAXSW) G.sw[G.nsw++] = {G.ev, to->id};
        }
    }

    void switch_to(Thr *from, Thr *to, up pc) {
        record_switch(from, to, pc);
        hand_to(to);
        wait_go(from);
    }

    Thr *pick_random(Thr *self) {
        int n = 0;
        Thr *c[MAXT];
        for (int i = 0; i < MAXT; ++i)
            if (G.thr[i].state == RUNNABLE && &G.thr[i] != self) c[n++] = &G.thr[i];
        return n ? c[rnd() % n] : nullptr;
    }

    Thr *pick_cyclic(Thr *self) {
        for (int d = 1; d < MAXT; ++d) {
            Thr *t = &G.thr[(self->id + d) % MAXT];
            if (t->state == RUNNABLE) return t;
        }
        return nullptr;
    }

    // self cannot continue (blocked, stalled or done): choose somebody else
    COLD Thr *pick_forced(Thr *self) {
        ++G.ev;
        ++G.forced;
        Thr *t = nullptr;
        if (G.cfg.record) t = pick_random(self);
        else {
            while (G.si < G.nsw && G.sw[G.si].ev < G.ev) ++G.si;
            if (G.si < G.nsw && G.sw[G.si].ev == G.ev) {
                int id = G.sw[G.si++].tid;
                if (id < MAXT && G.thr[id].state == RUNNABLE && &G.thr[id] != self) t = &G.thr[id];
            }
            if (!t) t = pick_cyclic(self);
        }
        if (t) return t;
        for (int i = 0; i < MAXT; ++i) // a timed wait runs out
            if (G.thr[i].state == BLOCKED && G.thr[i].timed) {
                G.thr[i].state = RUNNABLE;
                G.thr[i].timedout = true;
                return &G.thr[i];
            }
        // nobody can run: the threads that wait on purpose (stalled callbacks) go on, unless others wait for them
        Thr *stalled = nullptr;
        bool blocked = false;
        int nblocked = 0;
        for (int i = 1; i < MAXT; ++i) {
            if (G.thr[i].state == STALLED && !stalled) stalled = &G.thr[i];
            if (G.thr[i].state == BLOCKED) blocked = true, ++nblocked;
        }
        if (stalled) {
            if (blocked)
                rt::violation("blocked-by-stall", "thread stalled in its callback blocks %d other thread(s)", nblocked);
            stalled->state = RUNNABLE;
            return stalled;
        }
        char b[256];
        int l = 0;
        for (int i = 0; i < MAXT; ++i)
            if (G.thr[i].state == BLOCKED && l < 200)
                l += snprintf(b + l, sizeof b - l, " t%d(step %d, wait %llx)", i, G.thr[i].step, (unsigned long long) G.thr[i].wait);
        rt::violation("deadlock", "no thread can run:%s", b);
    }

    void leave_cpu(Thr *self, up pc) { // state already set to something not runnable
        Thr *t = pick_forced(self);
        if (t == self) { // timed out or unstalled itself
            t->last_sched = G.ev;
            return;
        }
        switch_to(self, t, pc);
    }

    void block_on(Thr *self, up addr, bool timed, up pc) {
        self->state = BLOCKED;
        self->wait = addr;
        self->timed = timed;
        self->timedout = false;
        leave_cpu(self, pc);
        self->timed = false;
        self->wait = 0;
    }

    void wake(up addr) {
        for (int i = 0; i < MAXT; ++i)
            if (G.thr[i].state == BLOCKED && G.thr[i].wait == addr) G.thr[i].state = RUNNABLE;
    }

    void set_next(double mean) {
        double gap = -std::log(1 - rnd01()) * mean;
        if (gap > 1e15) gap = 1e15;
        G.next_sw = G.ev + 1 + (u64) gap;
    }

    COLD void point_record(Thr *t, int kind, up pc) {
        bool sw = false;
        if (G.ev >= G.next_sw) {
            sw = true;
            set_next(G.cfg.mean_gap);
        } else {
            double p = kind == 1 ? G.cfg.p_hot : kind == 2 ? G.cfg.p_sync : kind == 3 ? G.cfg.p_alloc :
                                                                           kind == 4 ? G.cfg.p_cb : kind == 5 ? G.cfg.p_bound : 0;
            sw = p > 0 && rnd01() < p;
        }
        if (!sw || G.nvol >= G.cfg.max_switches) return;
        Thr *to = pick_random(t);
        if (!to) return;
        ++G.nvol;
        switch_to(t, to, pc);
    }

    COLD void point_replay(Thr *t, up pc) {
        while (G.si < G.nsw && G.sw[G.si].ev < G.ev) ++G.si;
        if (G.si < G.nsw && G.sw[G.si].ev == G.ev) {
            int id = G.sw[G.si++].tid;
            if (id != t->id && id >= 0 && id < MAXT && G.thr[id].state == RUNNABLE)
                switch_to(t, &G.thr[id], pc);
        }
        G.next_sw = G.si < G.nsw ? G.sw[G.si].ev : ~0ull;
    }

    COLD void fairness(Thr *t, up pc) {
        Thr *to = pick_cyclic(t);
        t->last_sched = G.ev;
        if (to) switch_to(t, to, pc);
    }

    // kind: 0 plain access, 1 access to a location another thread touched, 2 synchronisation, 3 allocation,
    // 4 callback, 5 call boundary
    INL void point(Thr *t, int kind, up pc) {
        ++G.ev;
        t->last_pc = pc;
        if (__builtin_expect(G.ev >= G.next_sw, 0) || (kind && G.cfg.record)) {
            if (G.cfg.record) point_record(t, kind, pc); else point_replay(t, pc);
        }
        if (__builtin_expect(G.ev - t->last_sched > 2000000, 0)) fairness(t, pc);
    }

    // ------------------------------------------------------------ vector clocks
    Sync *sync_of(up a, bool create) {
        u64 h = (a >> 2) * 0x9e3779b97f4a7c15ull;
        for (u32 i = h >> 51, n = 0; n < MAXSYNC; ++n, i = (i + 1) % MAXSYNC) {
            Sync &s = G.sync[i % MAXSYNC];
            if (s.addr == a) return &s;
            if (!s.addr) {
                if (!create || G.nsync > MAXSYNC * 3 / 4) return nullptr;
                s.addr = a;
                ++G.nsync;
                return &s;
            }
        }
        return nullptr;
    }

    void vc_join(u32 *a, const u32 *b) {
        for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i];
    }

    void acquire(Thr *t, up a) {
        if (Sync *s = sync_of(a, false)) vc_join(t->vc, s->vc);
    }

    void release(Thr *t, up a) {
        if (Sync *s = sync_of(a, true)) vc_join(s->vc, t->vc);
        ++t->vc[t->id];
    }

    ALoc *loc_of(up a, int size) {
        for (int i = 0; i < G.nloc; ++i)
            if (G.loc[i].addr <= a + size - 1 && a <= G.loc[i].addr + G.loc[i].size - 1) return &G.loc[i];
        return nullptr;
    }

    void forget_locs(up a, size_t n) {
        for (int i = 0; i < G.nloc; ++i)
            if (G.loc[i].addr - a < n) {
                G.loc[i] = G.loc[--G.nloc];
                --i;
            }
    }

    u64 value_at(up a, int size) {
        switch (size) {
            case 1: return *(volatile u8 *) a;
            case 2: return *(volatile uint16_t *) a;
            case 4: return *(volatile u32 *) a;
            default: return *(volatile u64 *) a;
        }
    }

    // the history of an atomic, which starts with the value it has now
    ALoc *history(up a, int size) {
        if (!G.cfg.stale) return nullptr;
        if (!(a - ARENA < ARENA_SZ || a - G.data_lo < G.data_len)) return nullptr;
        ALoc *l = loc_of(a, size);
        u64 v = value_at(a, size);
        if (l && l->addr == a && l->size == size && l->at(l->n - 1).val == v) return l;
        if (!l) l = G.nloc < MAXLOC ? &G.loc[G.nloc++] : &G.loc[G.loc_next++ % MAXLOC];
        l->addr = a;
        l->size = size;
        l->n = 1;
        AStore &s = l->st[0];
        __real_memset(&s, 0, sizeof s);
        s.val = v;
        s.stamp = 0;
        return l;
    }

    // a load that does not have to give the last value: returns the store it reads from, or -1
    int stale_store(Thr *t, ALoc *l) {
        int k = l->n - 1, low = l->n > NSTORE ? l->n - NSTORE : 0;
        u64 z = G.cfg.seed * 0x9e3779b97f4a7c15ull + t->id * 0x632be59bd9b4e019ull + ++t->aloads * 0xd6e8feb86659fd93ull;
        for (; k > low; --k) {
            AStore &s = l->at(k);
            if (s.time <= t->vc[s.tid] || s.stamp <= t->fence_stamp) break;
            bool seen = false;
            for (int i = 0; i < MAXT; ++i) seen = seen || (s.seen[i] && s.seen[i] <= t->vc[i]);
            if (seen) break;
            z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
            if ((int) ((z >> 40) % 1000) >= G.cfg.stale) break;
        }
        AStore &s = l->at(k);
        if (!s.seen[t->id]) s.seen[t->id] = t->vc[t->id];
        return k;
    }

    void describe(char *b, size_t n, up a) {
        if (a - ARENA < ARENA_SZ) {
            // find the block: walk (only done when reporting)
            up p = ARENA;
            while (p < G.bump) {
                Hdr *h = (Hdr *) p;
                up e = p + 32 + h->cap + 16;
                if (a >= p && a < e) {
                    snprintf(b, n, "%s heap block of %u bytes (allocated in step %d by t%d, %s), offset %lld",
                             h->state == 1 ? "live" : "freed", h->size, h->step, h->tid,
                             h->mode == rt::LIB ? "library" : "argument", (long long) (a - (p + h->off)));
                    return;
                }
                p = e;
            }
            snprintf(b, n, "unallocated heap");
        } else snprintf(b, n, "global data @%llx", (unsigned long long) a);
    }

    COLD void report_race(up a, const char *k1, int t1, up pc1, const char *k2, int t2, up pc2) {
        char b[256];
        describe(b, sizeof b, a);
        rt::violation("race", "%s by t%d (step %d) at pc=%llx conflicts with %s by t%d (step %d) at pc=%llx on %s",
                      k1, t1, G.thr[t1].step, (unsigned long long) pc1, k2, t2, G.thr[t2].step,
                      (unsigned long long) pc2, b);
    }

    COLD void bad_access(up a, unsigned sz, bool w, up pc) {
        char b[256];
        describe(b, sizeof b, a);
        rt::violation("memory", "%s of %u bytes by t%d (step %d) at pc=%llx: %s", w ? "write" : "read", sz,
                      tl_cur ? tl_cur->id : -1, tl_cur ? tl_cur->step : -1, (unsigned long long) pc, b);
    }

    // one granule (8 bytes), mask = bytes touched
    INL bool race_check(Thr *t, up a, u8 mask, bool w, up pc) {
        Cell &c = *cell_of(a);
        bool hot = false;
        const int id = t->id;
        if (c.wclk && c.wtid != id) {
            hot = true;
            if ((c.wmask & mask) && c.wclk > t->vc[c.wtid])
                report_race(a, w ? "write" : "read", id, pc, "write", c.wtid, c.wpc);
        }
        if (__builtin_expect((c.amask & mask) && c.atid != id && c.atime() > t->vc[c.atid], 0))
            report_race(a, w ? "write" : "read", id, pc, "atomic write", c.atid, 0);
        if (w) {
            for (int u = 0; u < MAXT; ++u)
                if (u != id && c.rclk[u]) {
                    hot = true;
                    if ((c.rmask[u] & mask) && c.rclk[u] > t->vc[u])
                        report_race(a, "write", id, pc, "read", u, c.rpc);
                }
            const u32 k = t->vc[id];
            if (c.wclk == k && c.wtid == id) c.wmask |= mask;
            else {
                c.wclk = k;
                c.wtid = id;
                c.wmask = mask;
            }
            c.wpc = pc;
        } else {
            const u32 k = t->vc[id];
            if (c.rclk[id] == k) c.rmask[id] |= mask;
            else {
                c.rclk[id] = k;
                c.rmask[id] = mask;
            }
            c.rpc = pc;
        }
        return hot;
    }

    // atomic accesses race with plain ones only
    void atomic_race(Thr *t, up a, int size, bool w, up pc) {
        if (!(a - ARENA < ARENA_SZ || a - G.data_lo < G.data_len) || (a & 7) + size > 8) return;
        Cell &c = *cell_of(a);
        const int id = t->id;
        const u8 mask = (u8) (((1u << size) - 1) << (a & 7));
        if (c.wclk && c.wtid != id && (c.wmask & mask) && c.wclk > t->vc[c.wtid])
            report_race(a, w ? "atomic write" : "atomic read", id, pc, "write", c.wtid, c.wpc);
        if (!w) return;
        for (int u = 0; u < MAXT; ++u)
            if (u != id && c.rclk[u] && (c.rmask[u] & mask) && c.rclk[u] > t->vc[u]) report_race(a, "atomic write", id, pc, "read", u, c.rpc);
        const u32 k = t->vc[id];
        if (k >> 24) return;
        if (c.atid == id && c.atime() == k) c.amask |= mask;
        else c.amask = mask;
        c.atid = id;
        c.aclk[0] = k, c.aclk[1] = k >> 8, c.aclk[2] = k >> 16;
    }

    bool range_mt(Thr *t, up a, size_t n, bool w, up pc) {
        bool hot = false;
        up e = a + n;
        while (a < e) {
            up g = a & ~7ull;
            up ge = g + 8;
            up x = e < ge ? e : ge;
            u8 mask = (u8) (((1u << (x - a)) - 1) << (a - g));
            hot |= race_check(t, a, mask, w, pc);
            a = x;
        }
        return hot;
    }

    INL bool valid(up a, size_t n) {
        up e = a + n;
        // fast: inside one granule
        u8 s = shadow(a);
        up g = a & ~7ull;
        if (e <= g + 8) return s == 0 || (s < 8 && e - g <= s);
        while (a < e) {
            g = a & ~7ull;
            s = shadow(a);
            up x = e < g + 8 ? e : g + 8;
            if (!(s == 0 || (s < 8 && x - g <= s))) return false;
            a = x;
        }
        return true;
    }

    COLD void step_slow() {
        if (G.steps >= G.step_stop) {
            char b[300];
            int l = 0;
            for (int i = 0; i < MAXT && l < 250; ++i)
                if (G.thr[i].state == RUNNABLE)
                    l += snprintf(b + l, sizeof b - l, " t%d: step %d pc=%llx;", i, G.thr[i].step, (unsigned long long) G.thr[i].last_pc);
            rt::violation("hang", "no end after %llu instrumented events:%s", (unsigned long long) G.steps, b);
        }
    }

    INL void acc(up a, unsigned sz, bool w, up pc) {
        if (!G.on) return;
        if (__builtin_expect(++G.steps >= G.step_stop, 0)) step_slow();
        if (a - ARENA < ARENA_SZ) {
            if (__builtin_expect(!valid(a, sz), 0)) bad_access(a, sz, w, pc);
        } else if (a - G.data_lo >= G.data_len) return;
        if (G.mt) {
            Thr *t = tl_cur;
            if (!t) return;
            bool hot;
            up g = a & ~7ull;
            if (a + sz <= g + 8) hot = race_check(t, a, (u8) (((1u << sz) - 1) << (a - g)), w, pc);
            else hot = range_mt(t, a, sz, w, pc);
            point(t, hot ? 1 : 0, pc);
        }
    }

    void acc_range(up a, size_t n, bool w, up pc) {
        if (!G.on || !n) return;
        G.steps += 1 + n / 64;
        if (G.steps >= G.step_stop) step_slow();
        if (a - ARENA < ARENA_SZ) {
            if (!valid(a, n)) bad_access(a, n, w, pc);
        } else if (a - G.data_lo >= G.data_len) return;
        if (G.mt && tl_cur) {
            bool hot = range_mt(tl_cur, a, n, w, pc);
            point(tl_cur, hot ? 1 : 0, pc);
        }
    }

    // ------------------------------------------------------------ AUX heap (harness, server, libc)
    struct AuxHdr {
        u64 cap;
        u64 magic;
    };
    up aux_bump = AUX;
    AuxHdr *aux_free[48];
    bool aux_mapped;
    int aux_lock;

    void aux_map() {
        if (!aux_mapped) {
            void *p = mmap((void *) AUX, AUX_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p != (void *) AUX) {
                const char m[] = "sim: cannot map AUX\n";
                (void) !write(2, m, sizeof m - 1);
                _exit(99);
            }
            aux_mapped = true;
        }
    }

    void *aux_alloc(size_t n, size_t align) {
        while (__atomic_exchange_n(&aux_lock, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield);
        aux_map();
        int cls = 5;
        while ((1ull << cls) < n) ++cls;
        void *r;
        if (align <= 16 && aux_free[cls]) {
            AuxHdr *h = aux_free[cls];
            aux_free[cls] = *(AuxHdr **) (h + 1);
            *(AuxHdr **) (h + 1) = nullptr;
            r = h + 1;
        } else {
            up p = aux_bump + sizeof(AuxHdr);
            if (align > 16) p = (p + align - 1) & ~(up) (align - 1);
            AuxHdr *h = (AuxHdr *) p - 1;
            if (p + (1ull << cls) > AUX + AUX_SZ) {
                __atomic_store_n(&aux_lock, 0, __ATOMIC_RELEASE);
                return nullptr;
            }
            h->cap = cls;
            h->magic = 0xa0a0a0a0;
            aux_bump = p + (1ull << cls);
            aux_bump = (aux_bump + 15) & ~15ull;
            r = (void *) p;
        }
        __atomic_store_n(&aux_lock, 0, __ATOMIC_RELEASE);
        return r;
    }

    void aux_dealloc(void *p) {
        while (__atomic_exchange_n(&aux_lock, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield);
        AuxHdr *h = (AuxHdr *) p - 1;
        __real_memset(p, 0, 1ull << h->cap);
        *(AuxHdr **) p = aux_free[h->cap];
        aux_free[h->cap] = h;
        __atomic_store_n(&aux_lock, 0, __ATOMIC_RELEASE);
    }

    // ------------------------------------------------------------ simulated heap
    struct FreeList {
        Hdr *head, *tail;
        u32 n;
    };
    FreeList fl[4097];
    Hdr *big_free;

    INL Hdr **next_of(Hdr *h) { return (Hdr **) ((char *) h + 32); }

    void *arena_alloc(size_t n, size_t align, int mode, Thr *t, up pc) {
        if (n > (192u << 20) || G.live_bytes + n > G.cfg.maxlive) {
            rt::violation("memory-growth", "allocation of %llu bytes with %llu live in step %d at pc=%llx exceeds the bound",
                          (unsigned long long) n, (unsigned long long) G.live_bytes, t->step, (unsigned long long) pc);
        }
        size_t slack = align > 16 ? align : 0;
        u32 cap = (u32) ((n + slack + 15) & ~15ull);
        if (cap < 16) cap = 16;
        Hdr *h = nullptr;
        u32 cls = cap / 16;
        if (cls <= 4096) {
            FreeList &f = fl[cls];
            bool pressure = G.bump - ARENA > ARENA_SZ / 4;
            u32 keep = G.cfg.heap == 0 ? (pressure ? 64 : ~0u) : G.cfg.heap == 1 ? 0 : 12;
            if (f.n > keep) {
                if (G.cfg.heap == 1) {
                    h = f.head;
                    f.head = *next_of(h);
                    if (!f.head) f.tail = nullptr;
                } else { // oldest first: list is kept FIFO (head = oldest)
                    h = f.head;
                    f.head = *next_of(h);
                    if (!f.head) f.tail = nullptr;
                }
                --f.n;
            }
        } else if (big_free && (G.cfg.heap != 0 || G.bump - ARENA > ARENA_SZ / 4)) {
            Hdr **p = &big_free;
            while (*p && (*p)->cap != cap) p = next_of(*p);
            if (*p) {
                h = *p;
                *p = *next_of(h);
            }
        }
        if (!h) {
            up p = G.bump;
            up e = p + 32 + cap + 16;
            if (e > ARENA + ARENA_SZ)
                rt::violation("memory-growth", "simulated heap exhausted in step %d", t->step);
            h = (Hdr *) p;
            h->cap = cap;
            G.bump = e;
            __real_memset((void *) (SHADOW + ((p - ARENA) >> 3)), 0xFA, (e - p) >> 3);
        }
        up user = (up) h + 32;
        if (slack) user = (user + align - 1) & ~(up) (align - 1);
        h->magic = MAGIC;
        h->size = (u32) n;
        h->step = t->step;
        h->state = 1;
        h->mode = (u8) mode;
        h->tid = (u8) t->id;
        h->off = (u32) (user - (up) h);
        h->magic2 = MAGIC2;
        h->dist = h->off;
        if (h->off != 32) {
            u32 *b = (u32 *) (user - 8);
            b[0] = MAGIC2;
            b[1] = h->off;
        }
        // whole payload not addressable, then the user part
        __real_memset((void *) (SHADOW + ((up) h + 32 - ARENA) / 8), 0xFA, cap / 8);
        __real_memset((void *) (SHADOW + (user - ARENA) / 8), 0, n / 8);
        if (n % 8) shadow(user + (n & ~7ull)) = (u8) (n % 8);
        if (n == 0) shadow(user) = 0xFA;
        __real_memset((void *) user, G.cfg.fill, n);
        if (G.mt) {
            __real_memset(cell_of((up) h), 0, (32 + cap + 16) / 8 * sizeof(Cell));
            if (G.nloc) forget_locs((up) h, 32 + cap + 16);
        }
        G.live_bytes += n;
        ++G.live_blocks;
        ++G.nallocs;
        return (void *) user;
    }

    Hdr *hdr_of(void *p) {
        u32 *b = (u32 *) ((up) p - 8);
        if (((up) p & 15) || b[0] != MAGIC2) return nullptr;
        Hdr *h = (Hdr *) ((up) p - b[1]);
        if (h->magic != MAGIC || h->off != b[1]) return nullptr;
        return h;
    }

    void arena_free(void *p, up pc) {
        Hdr *h = hdr_of(p);
        Thr *t = tl_cur;
        if (!h) {
            char b[200];
            describe(b, sizeof b, (up) p);
            rt::violation("memory", "free of an invalid pointer in step %d at pc=%llx: %s", t ? t->step : -1, (unsigned long long) pc, b);
        }
        if (h->state != 1) {
            rt::violation("memory", "double free in step %d at pc=%llx of a block of %u bytes allocated in step %d",
                          t ? t->step : -1, (unsigned long long) pc, h->size, h->step);
        }
        if (G.mt && t) range_mt(t, (up) p, h->size, true, pc);
        h->state = 2;
        G.live_bytes -= h->size;
        --G.live_blocks;
        __real_memset(p, G.cfg.freefill, h->size);
        __real_memset((void *) (SHADOW + ((up) h + 32 - ARENA) / 8), 0xFD, h->cap / 8);
        u32 cls = h->cap / 16;
        if (cls <= 4096) {
            FreeList &f = fl[cls];
            if (G.cfg.heap == 1) {
                *next_of(h) = f.head;
                f.head = h;
                if (!f.tail) f.tail = h;
            } else {
                *next_of(h) = nullptr;
                if (f.tail) *next_of(f.tail) = h; else f.head = h;
                f.tail = h;
            }
            ++f.n;
        } else {
            *next_of(h) = big_free;
            big_free = h;
        }
        if (t) ++t->frees;
    }

    INL bool in_exe(up pc) { return pc >= (up) &__executable_start && pc < (up) &etext; }

    // an allocation site: the innermost return addresses inside the program
    u64 site_of(up pc, void **frame) {
        u64 h = 1469598103934665603ull;
        int depth = 0;
        if (in_exe(pc)) mix(h, pc), ++depth;
        up lo = (up) frame, hi = lo + (1u << 20);
        for (int i = 0; i < 12 && depth < 4; ++i) {
            up next = (up) frame[0], ra = (up) frame[1];
            if (in_exe(ra) && ra != pc) mix(h, ra), ++depth;
            if (next <= (up) frame || next >= hi || next & 7) break;
            frame = (void **) next;
        }
        return h;
    }

    struct SiteRec {
        u64 key, first, last, count;
    };
    constexpr int MAXSITE = 1024;
    SiteRec site_tab[MAXSITE];
    int nsite;

    COLD void note_site(Thr *t, up pc, void **frame) {
        u64 k = site_of(pc, frame);
        for (int i = 0; i < nsite; ++i)
            if (site_tab[i].key == k) {
                site_tab[i].last = t->alloc_n;
                ++site_tab[i].count;
                return;
            }
        if (nsite < MAXSITE) site_tab[nsite++] = {k, t->alloc_n, t->alloc_n, 1};
    }

    // returns true when the allocation has to fail
    bool alloc_fault(Thr *t, size_t n) {
        ++t->alloc_n;
        const rt::AllocFault &f = t->af;
        bool fail = false;
        if (f.n) fail = t->alloc_n >= f.n && t->alloc_n - f.n < f.count;
        else if (f.minsize) fail = n >= f.minsize;
        if (fail) {
            ++t->fails;
            ++G.nfails;
        }
        return fail;
    }

    void *do_alloc(size_t n, size_t align, up pc, bool injectable, bool &failed) {
        failed = false;
        Thr *t = tl_cur;
        if (!G.on || !t || t->mode == rt::HARNESS || !injectable) {
            void *p = aux_alloc(n, align);
            failed = !p;
            return p;
        }
        if (t->mode == rt::LIB) {
            bool fail = alloc_fault(t, n) || n > (1ull << 30);
            if (__builtin_expect(G.cfg.sites, 0)) note_site(t, pc, (void **) __builtin_frame_address(0));
            if (fail) {
                if (t->fails == 1) rt::out("\nAFSITE %llx\n", (unsigned long long) site_of(pc, (void **) __builtin_frame_address(0)));
                failed = true;
                return nullptr;
            }
            if (G.mt) point(t, 3, pc);
        }
        return arena_alloc(n, align, t->mode, t, pc);
    }

    void do_free(void *p, up pc) {
        if (!p) return;
        if ((up) p - ARENA < ARENA_SZ) {
            if (G.mt && tl_cur && tl_cur->mode == rt::LIB) point(tl_cur, 3, pc);
            arena_free(p, pc);
        } else aux_dealloc(p);
    }

    size_t usable(void *p) {
        if ((up) p - ARENA < ARENA_SZ) {
            Hdr *h = hdr_of(p);
            return h ? h->size : 0;
        }
        return 1ull << (((AuxHdr *) p) - 1)->cap;
    }
}

#define PC ((up) __builtin_return_address(0))

// ---------------------------------------------------------------- allocator entry points
extern "C" {
__attribute__((visibility("default"))) void *malloc(size_t n) {
    bool f;
    void *p = do_alloc(n, 16, PC, in_exe(PC), f);
    if (f) errno = ENOMEM;
    return p;
}
__attribute__((visibility("default"))) void free(void *p) { do_free(p, PC); }
__attribute__((visibility("default"))) void *calloc(size_t a, size_t b) {
    bool f;
    void *p = do_alloc(a * b, 16, PC, in_exe(PC), f);
    if (p) __real_memset(p, 0, a * b);
    else errno = ENOMEM;
    return p;
}
__attribute__((visibility("default"))) void *realloc(void *o, size_t n) {
    bool f;
    if (!o) {
        void *p = do_alloc(n, 16, PC, in_exe(PC), f);
        if (f) errno = ENOMEM;
        return p;
    }
    if (!n) {
        do_free(o, PC);
        return nullptr;
    }
    size_t s = usable(o);
    void *p = do_alloc(n, 16, PC, in_exe(PC) || ((up) o - ARENA < ARENA_SZ), f);
    if (!p) {
        errno = ENOMEM;
        return nullptr;
    }
    __real_memcpy(p, o, s < n ? s : n);
    do_free(o, PC);
    return p;
}
__attribute__((visibility("default"))) void *memalign(size_t al, size_t n) {
    bool f;
    void *p = do_alloc(n, al, PC, in_exe(PC), f);
    if (f) errno = ENOMEM;
    return p;
}
__attribute__((visibility("default"))) void *aligned_alloc(size_t al, size_t n) {
    bool f;
    void *p = do_alloc(n, al, PC, in_exe(PC), f);
    if (f) errno = ENOMEM;
    return p;
}
__attribute__((visibility("default"))) int posix_memalign(void **r, size_t al, size_t n) {
    bool f;
    void *p = do_alloc(n, al, PC, in_exe(PC), f);
    if (f) return ENOMEM;
    *r = p;
    return 0;
}
__attribute__((visibility("default"))) size_t malloc_usable_size(void *p) { return p ? usable(p) : 0; }
}

static void *new_impl(size_t n, size_t al, up pc) {
    bool f;
    void *p = do_alloc(n, al, pc, true, f);
    if (f) throw std::bad_alloc();
    return p;
}

static void *new_nothrow(size_t n, size_t al, up pc) {
    bool f;
    return do_alloc(n, al, pc, true, f);
}

void *operator new(size_t n) { return new_impl(n, 16, PC); }
void *operator new[](size_t n) { return new_impl(n, 16, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_nothrow(n, 16, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_nothrow(n, 16, PC); }
void *operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t) a, PC); }
void *operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t) a, PC); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_nothrow(n, (size_t) a, PC); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_nothrow(n, (size_t) a, PC); }
void operator delete(void *p) noexcept { do_free(p, PC); }
void operator delete[](void *p) noexcept { do_free(p, PC); }
void operator delete(void *p, size_t) noexcept { do_free(p, PC); }
void operator delete[](void *p, size_t) noexcept { do_free(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_free(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_free(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p, PC); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { do_free(p, PC); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { do_free(p, PC); }

// ---------------------------------------------------------------- instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {
    if (G.on && ++G.steps >= G.step_stop) step_slow();
}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *a) { acc((up) a, n, false, PC); } \
void __tsan_write##n(void *a) { acc((up) a, n, true, PC); } \
void __tsan_volatile_read##n(void *a) { acc((up) a, n, false, PC); } \
void __tsan_volatile_write##n(void *a) { acc((up) a, n, true, PC); } \
void __tsan_unaligned_read##n(void *a) { acc((up) a, n, false, PC); } \
void __tsan_unaligned_write##n(void *a) { acc((up) a, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void *a) { acc((up) a, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void *a) { acc((up) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { acc_range((up) a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { acc_range((up) a, n, true, PC); }
void __tsan_vptr_read(void **a) { acc((up) a, 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) {
    // a destructor that stores the value already there is not a conflicting write
    if (G.on && ((up) a - ARENA >= ARENA_SZ || valid((up) a, 8)) && *a == v) acc((up) a, 8, false, PC);
    else acc((up) a, 8, true, PC);
}

static void atomic_pre(up a, up pc) {
    if (!G.on) return;
    if (++G.steps >= G.step_stop) step_slow();
    if (a - ARENA < ARENA_SZ && !valid(a, 1)) bad_access(a, 1, true, pc);
    if (G.mt && tl_cur) {
        ++G.n_lock;
        point(tl_cur, 2, pc);
    }
}
#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
static bool atomics_tracked() { return G.on && G.mt && tl_cur; }
static void acquire_from(Thr *t, const u32 *vc, int mo) { vc_join(ACQ(mo) ? t->vc : t->pend, vc); }
// what a store (or, with rmw, an operation that reads the last one) leaves for those who acquire it
static void released(Thr *t, up a, int mo, bool rmw, ALoc *l, u64 v) {
    Sync *s = sync_of(a, true);
    u32 none[MAXT] = {};
    u32 *vc = s ? s->vc : none;
    if (!rmw) {
        bool own = true; // the stores of a thread after a releasing one of its own continue its release sequence
        for (int i = 0; i < MAXT; ++i) own = own && vc[i] <= t->vc[i];
        if (REL(mo) || !own) __real_memset(vc, 0, sizeof none);
    }
    vc_join(vc, REL(mo) ? t->vc : t->frel);
    if (l) {
        AStore &n = l->at(l->n++);
        __real_memset(&n, 0, sizeof n);
        n.val = v;
        n.stamp = ++G.stamp;
        n.tid = t->id;
        n.time = t->vc[t->id];
        __real_memcpy(n.vc, vc, sizeof none);
    }
    if (REL(mo)) ++t->vc[t->id];
}
static u64 atomic_loaded(up a, int size, u64 v, int mo, up pc) {
    if (!atomics_tracked()) return v;
    Thr *t = tl_cur;
    if (ALoc *l = history(a, size)) {
        int k = l->n - 1;
        if (mo == __ATOMIC_SEQ_CST) {
            if (!l->at(k).seen[t->id]) l->at(k).seen[t->id] = t->vc[t->id];
        } else k = stale_store(t, l);
        if (k != l->n - 1) {
            ++G.n_stale;
            acquire_from(t, l->at(k).vc, mo);
            atomic_race(t, a, size, false, pc);
            return l->at(k).val;
        }
    }
    if (Sync *s = sync_of(a, false)) acquire_from(t, s->vc, mo);
    atomic_race(t, a, size, false, pc);
    return v;
}
static ALoc *atomic_before(up a, int size) { return atomics_tracked() ? history(a, size) : nullptr; }
static void atomic_stored(up a, int size, ALoc *l, u64 v, int mo, up pc) {
    if (!atomics_tracked()) return;
    atomic_race(tl_cur, a, size, true, pc);
    released(tl_cur, a, mo, false, l, v);
}
static void atomic_changed(up a, int size, ALoc *l, bool done, u64 v, int mo, up pc) {
    if (!atomics_tracked()) return;
    if (Sync *s = sync_of(a, false)) acquire_from(tl_cur, s->vc, mo);
    if (l && !l->at(l->n - 1).seen[tl_cur->id]) l->at(l->n - 1).seen[tl_cur->id] = tl_cur->vc[tl_cur->id];
    atomic_race(tl_cur, a, size, done, pc);
    if (done) released(tl_cur, a, mo, true, l, v);
}
#define RMW(T, bits, name, builtin) \
T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo) { \
    atomic_pre((up) a, PC); ALoc *l = atomic_before((up) a, sizeof(T)); T r = builtin(a, v, __ATOMIC_SEQ_CST); \
    atomic_changed((up) a, sizeof(T), l, true, *a, mo, PC); return r; }
#define ATOMICS(T, bits) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { \
    atomic_pre((up) a, PC); return (T) atomic_loaded((up) a, sizeof(T), __atomic_load_n(a, __ATOMIC_SEQ_CST), mo, PC); } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { \
    atomic_pre((up) a, PC); ALoc *l = atomic_before((up) a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    atomic_stored((up) a, sizeof(T), l, v, mo, PC); } \
RMW(T, bits, exchange, __atomic_exchange_n) RMW(T, bits, fetch_add, __atomic_fetch_add) \
RMW(T, bits, fetch_sub, __atomic_fetch_sub) RMW(T, bits, fetch_and, __atomic_fetch_and) \
RMW(T, bits, fetch_or, __atomic_fetch_or) RMW(T, bits, fetch_xor, __atomic_fetch_xor) \
RMW(T, bits, fetch_nand, __atomic_fetch_nand) \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    atomic_pre((up) a, PC); ALoc *l = atomic_before((up) a, sizeof(T)); \
    bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_changed((up) a, sizeof(T), l, r, v, r ? mo : fmo, PC); return r; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    T e = c; __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMICS(unsigned char, 8)
ATOMICS(unsigned short, 16)
ATOMICS(unsigned int, 32)
ATOMICS(unsigned long, 64)
void __tsan_atomic_thread_fence(int mo) {
    if (!atomics_tracked()) return;
    Thr *t = tl_cur;
    if (ACQ(mo)) vc_join(t->vc, t->pend);
    if (REL(mo)) {
        __real_memcpy(t->frel, t->vc, sizeof t->frel);
        ++t->vc[t->id];
    }
    if (mo == __ATOMIC_SEQ_CST) t->fence_stamp = G.stamp;
}
void __tsan_atomic_signal_fence(int) {}

void *__wrap_memcpy(void *d, const void *s, size_t n) {
    acc_range((up) s, n, false, PC);
    acc_range((up) d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    acc_range((up) s, n, false, PC);
    acc_range((up) d, n, true, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    acc_range((up) d, n, true, PC);
    return __real_memset(d, c, n);
}

// ---------------------------------------------------------------- static initialisation guards
int __cxa_guard_acquire(uint64_t *g) {
    u8 *b = (u8 *) g;
    Thr *t = tl_cur;
    if (G.on && t && G.mt) point(t, 2, PC);
    while (true) {
        if (b[0]) {
            if (G.on && t) acquire(t, (up) g);
            return 0;
        }
        if (!b[1]) break;
        if (!G.on || !t) return 0;
        if (b[2] == t->id)
            rt::violation("deadlock", "recursive initialisation of a function-local static in step %d at pc=%llx", t->step, (unsigned long long) PC);
        block_on(t, (up) g, false, PC);
    }
    b[1] = 1;
    b[2] = t ? (u8) t->id : 0;
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    u8 *b = (u8 *) g;
    if (G.on && tl_cur) release(tl_cur, (up) g);
    b[1] = 0;
    b[0] = 1;
    wake((up) g);
    if (G.on && G.mt && tl_cur) point(tl_cur, 2, PC);
}
void __cxa_guard_abort(uint64_t *g) {
    u8 *b = (u8 *) g;
    b[1] = 0;
    wake((up) g);
}

// ---------------------------------------------------------------- pthread primitives
#define ME Thr *t = tl_cur; const bool sim = G.on && t
// what may happen or not, as a function of seed and moment: the same when a schedule is followed
static bool chance(Thr *t, unsigned one_in) {
    u64 z = (G.steps ^ G.ev << 20) * 0x9e3779b97f4a7c15ull + G.cfg.seed * 0xd6e8feb86659fd93ull + t->id;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z ^= z >> 27;
    return z % one_in == 0;
}
// a timed wait is over although nobody came: as long as others hold what it waits for, that can be at any moment
static bool runs_out(Thr *t, up addr, up pc) {
    if (G.cfg.clockmode & 2 && chance(t, 4)) {
        G.mono_off += 1000000000ll;
        return true;
    }
    block_on(t, addr, true, pc);
    if (t->timedout) G.mono_off += 1000000000ll;
    return t->timedout;
}
#define SP if (sim && G.mt) { ++G.n_lock; point(t, 2, PC); }

static int mutex_lock(pthread_mutex_t *m, bool timed, up pc) {
    ME;
    if (sim && G.mt) {
        ++G.n_lock;
        point(t, 2, pc);
    }
    const int kind = m->__data.__kind & 3;
    const int me = t ? t->id + 1 : 1;
    while (m->__data.__lock) {
        if (m->__data.__owner == me) {
            if (kind == PTHREAD_MUTEX_RECURSIVE) {
                ++m->__data.__count;
                return 0;
            }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            if (!sim) return 0;
            if (timed) return ETIMEDOUT;
            rt::violation("deadlock", "a thread locks a mutex it already holds in step %d at pc=%llx", t->step, (unsigned long long) pc);
        }
        if (!sim) return 0;
        if (!timed) block_on(t, (up) m, false, pc);
        else if (runs_out(t, (up) m, pc)) return ETIMEDOUT;
    }
    m->__data.__lock = 1;
    m->__data.__owner = me;
    m->__data.__count = 1;
    if (sim) acquire(t, (up) m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) {
    ME;
    SP
    const int me = t ? t->id + 1 : 1;
    if (m->__data.__lock) {
        if (m->__data.__owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            ++m->__data.__count;
            return 0;
        }
        return EBUSY;
    }
    m->__data.__lock = 1;
    m->__data.__owner = me;
    m->__data.__count = 1;
    if (sim) acquire(t, (up) m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return mutex_lock(m, true, PC); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return mutex_lock(m, true, PC); }
static void mutex_release(Thr *t, bool sim, pthread_mutex_t *m) { // nobody runs between this and what follows
    if (m->__data.__count > 1) {
        --m->__data.__count;
        return;
    }
    if (sim) release(t, (up) m);
    m->__data.__count = 0;
    m->__data.__owner = 0;
    m->__data.__lock = 0;
    if (sim) wake((up) m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    ME;
    const bool last = m->__data.__count <= 1;
    mutex_release(t, sim, m);
    if (last) SP
    return 0;
}
// rwlock: __data.__readers = number of readers, __data.__cur_writer = owner+1
static int rd(pthread_rwlock_t *m, bool tryit, up pc, bool timed = false) {
    ME;
    if (sim && G.mt) point(t, 2, pc);
    while (m->__data.__cur_writer) {
        if (tryit) return EBUSY;
        if (!sim) return 0;
        if (!timed) block_on(t, (up) m, false, pc);
        else if (runs_out(t, (up) m, pc)) return ETIMEDOUT;
    }
    ++m->__data.__readers;
    if (sim) acquire(t, (up) m);
    return 0;
}
static int wr(pthread_rwlock_t *m, bool tryit, up pc, bool timed = false) {
    ME;
    if (sim && G.mt) point(t, 2, pc);
    while (m->__data.__cur_writer || m->__data.__readers) {
        if (tryit) return EBUSY;
        if (!sim) return 0;
        if (!timed) block_on(t, (up) m, false, pc);
        else if (runs_out(t, (up) m, pc)) return ETIMEDOUT;
    }
    m->__data.__cur_writer = t ? t->id + 1 : 1;
    if (sim) {
        acquire(t, (up) m);
        acquire(t, (up) m + 1);
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rd(m, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rd(m, true, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return wr(m, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return wr(m, true, PC); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *) { return rd(m, false, PC, true); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *) { return wr(m, false, PC, true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t, const struct timespec *) { return rd(m, false, PC, true); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t, const struct timespec *) { return wr(m, false, PC, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    ME;
    if (m->__data.__cur_writer) {
        if (sim) release(t, (up) m);
        m->__data.__cur_writer = 0;
    } else {
        if (sim) release(t, (up) m + 1); // readers release to writers only
        if (m->__data.__readers) --m->__data.__readers;
    }
    if (sim) wake((up) m);
    SP
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
    ME;
    SP
    volatile int *w = (volatile int *) o;
    while (*w == 1) {
        if (!sim) return 0;
        block_on(t, (up) o, false, PC);
    }
    if (*w == 2) {
        if (sim) acquire(t, (up) o);
        return 0;
    }
    *w = 1;
    try {
        f();
    } catch (...) {
        *w = 0;
        if (sim) wake((up) o);
        throw;
    }
    if (sim) release(t, (up) o);
    *w = 2;
    if (sim) wake((up) o);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    ME;
    if (!sim) return 0;
    mutex_release(t, sim, m);
    if (G.mt && G.cfg.clockmode & 2 && chance(t, 8)) rt::yield_now(); // woken for no reason
    else block_on(t, (up) c, false, PC);
    pthread_mutex_lock(m);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    ME;
    if (!sim) return ETIMEDOUT;
    mutex_release(t, sim, m);
    bool to = runs_out(t, (up) c, PC);
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    ME;
    if (sim) wake((up) c);
    SP
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    ME;
    if (sim) wake((up) c);
    SP
    return 0;
}
int sched_yield() {
    ME;
    if (!sim) return 0;
    if (G.mt) rt::yield_now();
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) {
    ME;
    if (ts) G.mono_off += ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (sim && G.mt) rt::yield_now();
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *r) { return nanosleep(ts, r); }
int usleep(useconds_t u) {
    struct timespec ts{u / 1000000, (long) (u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

static void *sim_thread_main(void *p);
static void *sim_thread_main2(void *p);

static pthread_key_t end_key; // its destructor runs after those of thread_local variables

static void init_thread(Thr *t, int id) {
    t->id = id;
    t->go = 0;
    t->mode = rt::HARNESS;
    t->step = -1;
    t->real = false;
    memset(t->frel, 0, sizeof t->frel);
    memset(t->pend, 0, sizeof t->pend);
    t->fence_stamp = t->aloads = 0;
    ++G.nthr;
}
static Thr *new_thread() {
    int id = 1;
    while (id < MAXT && G.thr[id].state != FREE) ++id;
    if (id == MAXT) rt::violation("harness", "more than %d threads", MAXT);
    init_thread(&G.thr[id], id);
    return &G.thr[id];
}
static Thr *new_lib_thread(Thr *self) {
    for (;;) {
        for (int id = MAXT - 1; id > 0; --id) {
            Thr *t = &G.thr[id];
            if (t->state == DONE && t->lib && t->real) { // let the thread that had this place go
                bool on = G.on;
                G.on = false;
                Thr *cur = G.cur;
                hand_to(t);
                G.cur = cur;
                real_join(t->h, nullptr);
                G.on = on;
                t->real = false;
            }
            if (t->state == FREE || (t->state == DONE && t->lib)) {
                init_thread(t, id);
                t->lib = true;
                return t;
            }
        }
        block_on(self, (up) &G.nlib, false, 3); // starting a thread takes as long as it takes
    }
}
static void start_real(Thr *t, void *(*main)(void *)) {
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *) (STACKS + t->id * (STACK_SZ + 4096) + 4096), STACK_SZ);
    bool on = G.on;
    G.on = false; // libc's own allocations during creation are not the program's
    int r = real_create(&t->h, &at, main, t);
    G.on = on;
    pthread_attr_destroy(&at);
    if (r) rt::violation("harness", "pthread_create failed: %d", r);
    t->real = true;
}
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    ME;
    if (!sim) return real_create(h, at, f, arg);
    Thr *n = new_lib_thread(t);
    n->fn2 = f;
    n->arg = arg;
    n->mode = t->mode;
    n->step = t->step;
    n->handle = 0x7f51000000000000ull + (up) ++G.nlib * 64;
    const u32 k = n->vc[n->id];
    memcpy(n->vc, t->vc, sizeof n->vc);
    n->vc[n->id] = k + 1;
    ++t->vc[t->id];
    n->state = RUNNABLE;
    G.mt = true;
    start_real(n, sim_thread_main2);
    *h = (pthread_t) n->handle;
    int det = 0;
    if (at && !pthread_attr_getdetachstate(at, &det) && det == PTHREAD_CREATE_DETACHED) pthread_detach(*h);
    point(t, 2, PC);
    return 0;
}
static Zombie *zombie(up h) {
    for (int i = 0; i < G.nz; ++i)
        if (G.z[i].handle == h) return &G.z[i];
    return nullptr;
}
static Thr *lib_thread(up h) {
    for (int i = 1; i < MAXT; ++i)
        if (G.thr[i].lib && G.thr[i].handle == h && G.thr[i].state != DONE && G.thr[i].state != FREE) return &G.thr[i];
    return nullptr;
}
int pthread_join(pthread_t h, void **ret) {
    ME;
    if (!sim) return real_join(h, ret);
    for (;;) {
        if (Zombie *z = zombie((up) h)) {
            vc_join(t->vc, z->vc);
            if (ret) *ret = z->ret;
            *z = G.z[--G.nz];
            return 0;
        }
        if (!lib_thread((up) h)) return ESRCH;
        block_on(t, (up) h, false, PC);
    }
}
int pthread_detach(pthread_t h) {
    if (Thr *n = lib_thread((up) h)) n->handle = 0;
    else if (Zombie *z = zombie((up) h)) *z = G.z[--G.nz];
    return 0;
}
pthread_t pthread_self() {
    return G.on && tl_cur && tl_cur->lib ? (pthread_t) tl_cur->handle : (pthread_t) __builtin_thread_pointer();
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) x = va_arg(ap, long);
    va_end(ap);
    ME;
    if (sim && n == SYS_futex) {
        int op = (int) a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile int *) a[0] != (int) a[2]) {
                errno = EAGAIN;
                return -1;
            }
            block_on(t, (up) a[0], a[3] != 0, PC);
            if (t->timedout) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            wake((up) a[0]);
            SP
            return 1;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int) -r;
        return -1;
    }
    return r;
}

static void thread_done(Thr *t) {
    t->state = DONE;
    wake((up) t);
    leave_cpu(t, 1);
    // released by reap_threads: really exit (thread_local destructors run now)
}
static void setup_alt(Thr *) {
    static char alt[MAXT][65536];
    stack_t ss{};
    ss.ss_sp = alt[tl_cur ? tl_cur->id : 0];
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
}
static void *sim_thread_main(void *p) {
    Thr *t = (Thr *) p;
    wait_go(t);
    tl_cur = t;
    setup_alt(t);
    t->fn(t->arg);
    t->mode = rt::HARNESS;
    thread_done(t);
    return nullptr;
}
static void lib_thread_end(void *p) { // after the destructors of its thread_local variables
    Thr *t = (Thr *) p;
    if (t->handle) {
        if (G.nz == MAXZ) rt::violation("harness", "too many threads never joined");
        Zombie &z = G.z[G.nz++];
        z.handle = t->handle;
        z.ret = t->ret;
        memcpy(z.vc, t->vc, sizeof z.vc);
        wake(t->handle);
    }
    wake((up) &G.nlib);
    t->state = DONE;
    leave_cpu(t, 1);
    tl_cur = nullptr;
}
static void *sim_thread_main2(void *p) {
    Thr *t = (Thr *) p;
    wait_go(t);
    tl_cur = t;
    setup_alt(t);
    pthread_setspecific(end_key, t);
    t->ret = t->fn2(t->arg);
    return nullptr;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!G.on) return (int) raw(SYS_clock_gettime, id, (long) ts);
    ++G.clock_reads;
    const bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    if (wall ? G.cfg.clockmode & 1 : G.cfg.clockmode & 2) {
        u64 z = G.steps * 0x9e3779b97f4a7c15ull + G.cfg.seed; // a jump is a function of seed and moment
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z ^= z >> 27;
        if (z % 4 == 0) {
            if (wall) G.clock_off += (int64_t) ((z >> 8) % 7200000000000ull) - 3600000000000ll;
            else G.mono_off += (int64_t) ((z >> 8) % 3600000000000ull); // the machine slept, or the thread did not get to run
            ++G.clock_jumps;
        }
    }
    int64_t now = (int64_t) G.steps * 10 + (wall ? 1700000000000000000ll + G.clock_off : 1000000000ll) + G.mono_off;
    ts->tv_sec = now / 1000000000;
    ts->tv_nsec = now % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *r) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (r) *r = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock() {
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
ssize_t getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) ((u8 *) b)[i] = (u8) (0x9d * (i + 1));
    return (ssize_t) n;
}
int getentropy(void *b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}
} // extern "C"

// ---------------------------------------------------------------- interface
namespace rt {
    void (*on_violation)();

    static void on_signal(int sig, siginfo_t *si, void *uc) {
        G.on = false;
        up pc = (up) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP];
        if (sig == SIGXCPU || sig == SIGALRM)
            violation("hang", "cpu time limit reached at pc=%llx in step %d", (unsigned long long) pc, tl_cur ? tl_cur->step : -1);
        violation("crash", "signal %d at pc=%llx address %p in step %d", sig, (unsigned long long) pc, si->si_addr,
                  tl_cur ? tl_cur->step : -1);
    }

    // A loop without a single instrumented event never reaches the step budget. The number of the last event is
    // the same in every execution of the plan, so the report is reproducible although the CPU clock is real.
    static void on_tick(int, siginfo_t *, void *) {
        static u64 last = ~0ull;
        static int same = 0;
        if (!G.on) return;
        if (G.steps != last) {
            last = G.steps;
            same = 0;
        } else if (++same >= 4) {
            G.on = false;
            violation("hang", "a loop without any instrumented event after event %llu in step %d", (unsigned long long) G.steps,
                      tl_cur ? tl_cur->step : -1);
        }
    }

    static void on_terminate() {
        char b[200] = "no exception";
        if (std::type_info *ti = abi::__cxa_current_exception_type()) snprintf(b, sizeof b, "%s", ti->name());
        violation("terminate", "std::terminate in step %d (%s)", tl_cur ? tl_cur->step : -1, b);
    }

    void init() {
        auto map = [](up a, size_t n, int fl) {
            void *p = mmap((void *) a, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p != (void *) a) {
                fprintf(stderr, "sim: cannot map %lx\n", (unsigned long) a);
                _exit(99);
            }
        };
        map(ARENA, ARENA_SZ, MAP_PRIVATE);
        map(SHADOW, ARENA_SZ / 8, MAP_PRIVATE);
        map(CELLS, ARENA_SZ * 8, MAP_PRIVATE);
        G.data_lo = (up) &__data_start;
        G.data_len = (up) &_end - G.data_lo;
        map(DCELLS, ((G.data_len + 4096) * 8 + 4095) & ~4095ull, MAP_PRIVATE);
        map(STACKS, MAXT * (STACK_SZ + 4096) + 4096, MAP_PRIVATE);
        SH = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        real_create = (decltype(real_create)) dlsym(RTLD_NEXT, "pthread_create");
        real_join = (decltype(real_join)) dlsym(RTLD_NEXT, "pthread_join");
        G.bump = ARENA;
        G.step_stop = ~0ull;
        G.initialised = true;
    }

    void configure(const Config &c) { G.cfg = c; }

    void add_switch(u64 ev, int tid) {
        if (G.nsw < MAXSW) G.sw[G.nsw++] = {ev, tid};
    }

    void reset_result() {
        SH->state = 0;
        SH->len = 0;
        SH->text[0] = 0;
    }

    const char *result_text() { return SH->text; }

    bool finished() { return SH->state != 0; }

    void out(const char *fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        if (SH->len + 2048 < sizeof SH->text) {
            int n = vsnprintf(SH->text + SH->len, sizeof SH->text - SH->len - 1, fmt, ap);
            if (n > 0) SH->len += n;
            if (SH->len >= sizeof SH->text) SH->len = sizeof SH->text - 1;
        }
        va_end(ap);
    }

    static void counters() {
        mix(G.run_hash, G.steps);
        mix(G.run_hash, G.ev);
        mix(G.run_hash, G.nallocs);
        mix(G.run_hash, G.n_stale);
        out("\nSTAT runhash=%016llx ilhash=%016llx steps=%llu events=%llu nsw=%d vol=%d allocs=%llu afails=%llu sync=%llu clock=%llu jumps=%llu stalls=%llu yields=%llu threads=%d stale=%llu\n",
            (unsigned long long) G.run_hash, (unsigned long long) G.il_hash, (unsigned long long) G.steps,
            (unsigned long long) G.ev, G.nsw, G.nvol, (unsigned long long) G.nallocs, (unsigned long long) G.nfails,
            (unsigned long long) G.n_lock, (unsigned long long) G.clock_reads, (unsigned long long) G.clock_jumps,
            (unsigned long long) G.n_stall, (unsigned long long) G.n_yield, G.nthr, (unsigned long long) G.n_stale);
        if (G.cfg.record && G.nthr > 1) {
            out("SCHED ");
            for (int i = 0; i < G.nsw; ++i) out("%s%llu:%d", i ? "," : "", (unsigned long long) G.sw[i].ev, G.sw[i].tid);
            out("\n");
        }
    }

    void violation(const char *cls, const char *fmt, ...) {
        static int once;
        G.on = false;
        if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) _exit(3);
        char b[1200];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        for (char *c = b; *c; ++c) if (*c == '\n') *c = ' ';
        out("\nVIOL %s tid=%d step=%d %s", cls, tl_cur ? tl_cur->id : -1, tl_cur ? tl_cur->step : -1, b);
        for (const char *c = cls; *c; ++c) mix(G.run_hash, *c);
        counters();
        SH->state = 2;
        _exit(0);
    }

    void finish() {
        G.on = false;
        counters();
        SH->state = 1;
    }

    void child_died(int status) {
        if (SH->state == 0) out("\nVIOL crash tid=-1 step=-1 child ended with status %d without a result\n", status);
    }

    struct ChildArg {
        void (*fn)(void *);
        void *arg;
    };

    static void *child_main(void *p) {
        ChildArg *c = (ChildArg *) p;
        Thr *t = &G.thr[0];
        tl_cur = t;
        setup_alt(t);
        G.on = true;
        c->fn(c->arg);
        G.on = false;
        return nullptr;
    }

    void child_start(void (*fn)(void *), void *arg) {
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
        struct sigaction st{};
        st.sa_sigaction = on_tick;
        st.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART;
        sigaction(SIGVTALRM, &st, nullptr);
        struct itimerval it{{0, 400000}, {0, 400000}};
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        struct rlimit rl{30, 40};
        setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        std::set_terminate(on_terminate);
        G.rng = G.cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
        G.il_hash = G.run_hash = 0xcbf29ce484222325ull;
        G.step_stop = G.cfg.budget;
        if (G.cfg.record) set_next(G.cfg.mean_gap);
        else G.next_sw = G.nsw ? G.sw[0].ev : ~0ull;
        G.nthr = 1;
        pthread_key_create(&end_key, lib_thread_end);
        Thr *t = &G.thr[0];
        t->id = 0;
        t->state = RUNNABLE;
        t->mode = HARNESS;
        t->step = -1;
        t->vc[0] = 1;
        G.cur = t;
        ChildArg c{fn, arg};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void *) (STACKS + 4096), STACK_SZ);
        if (real_create(&t->h, &at, child_main, &c)) _exit(97);
        t->real = true;
        real_join(t->h, nullptr);
    }

    void spawn(int tid, void (*fn)(void *), void *arg) {
        Thr *m = tl_cur;
        Thr *n = new_thread();
        if (n->id != tid) violation("harness", "thread ids");
        n->fn = fn;
        n->arg = arg;
        memcpy(n->vc, m->vc, sizeof n->vc);
        n->vc[n->id] = 1;
        ++m->vc[m->id];
        n->state = RUNNABLE;
        start_real(n, sim_thread_main);
    }

    void run_threads() {
        Thr *t = tl_cur;
        G.mt = true;
        ++t->vc[t->id];
        for (int i = 1; i < MAXT; ++i)
            while (!G.thr[i].lib && G.thr[i].state != DONE && G.thr[i].state != FREE) {
                block_on(t, (up) &G.thr[i], false, 2);
            }
        bool alive = false;
        for (int i = 1; i < MAXT; ++i)
            if (!G.thr[i].lib) vc_join(t->vc, G.thr[i].vc);
            else if (G.thr[i].state != DONE) alive = true;
        G.mt = alive;
    }

    void reap_threads() {
        for (int i = 1; i < MAXT; ++i)
            if (G.thr[i].real && !G.thr[i].lib) {
                G.thr[i].real = false;
                G.thr[i].mode = LIB;
                hand_to(&G.thr[i]);
                real_join(G.thr[i].h, nullptr);
            }
        G.cur = &G.thr[0];
    }

    int self() { return tl_cur ? tl_cur->id : -1; }

    int set_mode(int m) {
        Thr *t = tl_cur;
        if (!t) return 0;
        int o = t->mode;
        t->mode = m;
        return o;
    }

    void step_begin(int step, const AllocFault &f) {
        Thr *t = tl_cur;
        t->step = step;
        t->alloc_n = t->fails = t->frees = 0;
        t->af = f;
        t->step0 = G.steps;
        if (G.cfg.sites && step >= 0) nsite = 0;
        mix(G.run_hash, step * 7 + t->id);
    }

    StepStats step_end() {
        Thr *t = tl_cur;
        StepStats s{t->alloc_n, G.steps - t->step0, t->fails, t->frees};
        t->af = AllocFault{};
        t->step = -1;
        return s;
    }

    void print_sites(int step) {
        out("\nSITES %d", step);
        for (int i = 0; i < nsite; ++i)
            out(" %llx:%llu:%llu:%llu", (unsigned long long) site_tab[i].key, (unsigned long long) site_tab[i].first,
                (unsigned long long) site_tab[i].last, (unsigned long long) site_tab[i].count);
        out("\n");
    }

    void save_step(Saved &s) {
        Thr *t = tl_cur;
        s.a[0] = t->step;
        s.a[1] = t->alloc_n;
        s.a[2] = t->fails;
        s.a[3] = t->frees;
        s.a[4] = t->step0;
        s.a[5] = t->af.n;
        s.a[6] = t->af.count;
        s.a[7] = t->af.minsize;
        s.a[8] = t->mode;
    }

    void restore_step(const Saved &s) {
        Thr *t = tl_cur;
        t->step = (int) s.a[0];
        t->alloc_n = s.a[1];
        t->fails = s.a[2];
        t->frees = s.a[3];
        t->step0 = s.a[4];
        t->af.n = s.a[5];
        t->af.count = s.a[6];
        t->af.minsize = s.a[7];
        t->mode = (int) s.a[8];
    }

    int current_step() { return tl_cur ? tl_cur->step : -1; }

    void boundary(int kind) {
        if (kind == 4) ++G.n_cb;
        if (G.on && G.mt && tl_cur) point(tl_cur, kind, PC);
    }

    void yield_now() {
        ++G.n_yield;
        if (!G.on || !G.mt || !tl_cur) return;
        ++G.ev;
        Thr *t = tl_cur;
        Thr *to = nullptr;
        if (G.cfg.record) to = pick_random(t);
        else {
            while (G.si < G.nsw && G.sw[G.si].ev < G.ev) ++G.si;
            if (G.si < G.nsw && G.sw[G.si].ev == G.ev) {
                int id = G.sw[G.si++].tid;
                if (id < MAXT && G.thr[id].state == RUNNABLE && id != t->id) to = &G.thr[id];
            }
            if (!to) to = pick_cyclic(t);
        }
        if (to) switch_to(t, to, PC);
    }

    void wait_for(volatile int *flag) {
        Thr *t = tl_cur;
        if (!G.on || !G.mt || !t) return;
        while (!*flag) block_on(t, (up) flag, false, PC);
        acquire(t, (up) flag);
    }

    void reach(volatile int *flag) {
        *flag = 1;
        Thr *t = tl_cur;
        if (!G.on || !G.mt || !t) return;
        release(t, (up) flag);
        wake((up) flag);
    }

    void stall_until_others_done() {
        ++G.n_stall;
        if (G.on && !G.mt) G.mono_off += 3600000000000ll;
        if (!G.on || !G.mt || !tl_cur) return;
        Thr *t = tl_cur;
        t->state = STALLED;
        leave_cpu(t, PC);
        G.mono_off += 3600000000000ll;
    }

    __attribute__((noinline)) void poison_stack() {
        volatile unsigned char b[98304];
        __real_memset((void *) b, G.cfg.stackfill, sizeof b);
        __asm__ volatile("" : : "r"(b) : "memory");
    }

    bool in_arena(const void *p) { return (up) p - ARENA < ARENA_SZ; }

    u64 live_lib_bytes() {
        u64 n = 0;
        for (up p = ARENA; p < G.bump;) {
            Hdr *h = (Hdr *) p;
            if (h->state == 1 && h->mode == LIB) n += h->size;
            p += 32 + h->cap + 16;
        }
        return n;
    }

    u64 live_lib_blocks() {
        u64 n = 0;
        for (up p = ARENA; p < G.bump;) {
            Hdr *h = (Hdr *) p;
            if (h->state == 1 && h->mode == LIB) ++n;
            p += 32 + h->cap + 16;
        }
        return n;
    }

    u64 steps() { return G.steps; }

    u64 events() { return G.ev; }

    void clock_jump(int64_t ns) { G.clock_off += ns; }

    void time_passes(int64_t ns) { G.mono_off += ns; }

    int64_t time_passed() { return G.mono_off; }

    struct Blk {
        up lo, hi;
        Hdr *h;
    };
    static Blk *blk;
    static u64 nblk;
    static u8 *marked;
    static u64 *work;
    static u64 nwork;

    static void scan(up lo, up hi) {
        lo = (lo + 7) & ~7ull;
        for (up a = lo; a + 8 <= hi; a += 8) {
            up v = *(up *) a;
            if (v - ARENA >= ARENA_SZ) continue;
            u64 l = 0, r = nblk;
            while (l < r) {
                u64 m = (l + r) / 2;
                if (blk[m].hi < v) l = m + 1; else r = m;
            }
            if (l < nblk && v >= blk[l].lo && v <= blk[l].hi && !marked[l]) {
                marked[l] = 1;
                work[nwork++] = l;
            }
        }
    }

    static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
        for (int k = 0; k < i->dlpi_phnum; ++k) {
            const ElfW(Phdr) &p = i->dlpi_phdr[k];
            if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
                up lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
                if (lo <= (up) &G && (up) &G < hi) { // our own segment: leave out the runtime's tables
                    scan(lo, (up) &G);
                    scan((up) (&G + 1), hi);
                } else scan(lo, hi);
            }
        }
        return 0;
    }

    u64 leak_scan(char *text, size_t n) {
        bool on = G.on;
        G.on = false;
        u64 cnt = 0;
        for (up p = ARENA; p < G.bump;) {
            Hdr *h = (Hdr *) p;
            if (h->state == 1) ++cnt;
            p += 32 + h->cap + 16;
        }
        // scratch outside every scanned region
        size_t sz = (cnt + 1) * (sizeof(Blk) + 1 + sizeof(u64)) + 4096;
        char *m = (char *) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        blk = (Blk *) m;
        work = (u64 *) (m + (cnt + 1) * sizeof(Blk));
        marked = (u8 *) (work + cnt + 1);
        nblk = nwork = 0;
        for (up p = ARENA; p < G.bump;) {
            Hdr *h = (Hdr *) p;
            if (h->state == 1) blk[nblk++] = {p + h->off, p + h->off + h->size, h};
            p += 32 + h->cap + 16;
        }
        // free-list heads are inside fl[] (runtime data in .bss): freed blocks are not in blk, so harmless
        dl_iterate_phdr(phdr_cb, nullptr);
        up tp = (up) __builtin_thread_pointer();
        scan(tp - 8192, tp + 2304);
        scan(AUX, aux_bump);
        for (u64 i = 0; i < nblk; ++i)
            if (blk[i].h->mode != LIB && !marked[i]) {
                marked[i] = 1;
                work[nwork++] = i;
            }
        while (nwork) {
            u64 i = work[--nwork];
            scan(blk[i].lo, blk[i].hi);
        }
        u64 leaks = 0;
        int l = 0;
        text[0] = 0;
        for (u64 i = 0; i < nblk; ++i)
            if (!marked[i]) {
                ++leaks;
                if (leaks <= 6 && l < (int) n - 60)
                    l += snprintf(text + l, n - l, " %u bytes (step %d, t%d)", blk[i].h->size, blk[i].h->step, blk[i].h->tid);
            }
        munmap(m, sz);
        G.on = on;
        return leaks;
    }
}
