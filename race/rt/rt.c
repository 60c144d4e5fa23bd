// The simulator's half of ThreadSanitizer: the compiler inserts the calls, what they do
// is ours.  Client threads are real threads, of which one runs at a time; at every
// instrumented memory access the scheduler may hand over to another one, or let the
// current one stall.  Vector clocks find accesses that the declared memory orders do
// not order.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <linux/futex.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

#define MAXT 9
#define LOGMAX 4096
#define STACKMAX 64

struct entry { u64 ev; u32 action; u32 target; };

// Shared with the Rust side (see Shared in main.rs).
struct shared {
    u64 mode;          // 0 seeded, 1 fixed
    u64 seed;
    u64 nthreads;
    u64 atomic_den;    // switch with probability 1/n at an atomic access (0: never)
    u64 plain_den;     // likewise at a plain access
    u64 pct_points;    // priority change points (0: no priorities)
    u64 stalls;        // how many stalls
    u64 horizon;       // events over which change points and stalls are spread
    u64 budget;        // events in which the run has to end
    u64 stale_den;     // a load that may see an older store does so with 1/n (0: never)
    u64 nlog;
    struct entry log[LOGMAX];
    // results
    u64 events, atomics, switches, stalls_done, futex_waits, hash, locations, stale_reads;
    u64 blocks, bytes;
    u64 npcs, pcs[2 * STACKMAX];
    u64 class_len, msg_len;
    char class_[64], msg[2048];
};

static struct shared *S;
static __thread int me = -1;
static __thread int busy;

// ------------------------------------------------------------------ system calls

static long sys(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

static void fail(const char *class_, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    S->class_len = snprintf(S->class_, sizeof S->class_, "%s", class_);
    int n = vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    S->msg_len = n < (int)sizeof S->msg ? n : (int)sizeof S->msg - 1;
    va_end(ap);
    _exit(10);
}

// ------------------------------------------------------------------ threads

enum { UNUSED, READY, BLOCKED, DONE };
static struct thread {
    int state, stalled;
    u32 go;
    u32 vc[MAXT], acq[MAXT], rel[MAXT];
    u64 prio;
    const void *wait;
    int timed;
    u64 stack[STACKMAX];
    int depth;
} T[MAXT];
static int cur, nth, started;
static u64 ev, next_log, rng, order_hash;
static u64 change[64], nchange;
static u64 stall_at[8], nstall;
static u32 sc[MAXT];

static u64 rnd(void) {
    rng += 0x9e3779b97f4a7c15ull;
    u64 x = rng;
    x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ x >> 27) * 0x94d049bb133111ebull;
    return x ^ x >> 31;
}

static int runnable(int t) { return T[t].state == READY && !T[t].stalled; }

static void hand(int t) {
    cur = t;
    __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST);
    sys(SYS_futex, (long)&T[t].go, FUTEX_WAKE, 1, 0, 0, 0);
}
static void await(void) {
    while (!__atomic_load_n(&T[me].go, __ATOMIC_SEQ_CST))
        sys(SYS_futex, (long)&T[me].go, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(&T[me].go, 0, __ATOMIC_SEQ_CST);
}

static void logit(u32 action, u32 target) {
    if (S->mode == 0) {
        if (S->nlog >= LOGMAX) fail("harness", "the schedule is too long to be written down");
        S->log[S->nlog++] = (struct entry){ev, action, target};
    }
}

static void put_stack(int t, int at) {
    int n = T[t].depth < STACKMAX ? T[t].depth : STACKMAX;
    for (int i = 0; i < STACKMAX; i++) S->pcs[at + i] = i < n ? T[t].stack[n - 1 - i] : 0;
    S->npcs = at + STACKMAX;
}

static int pick_next(int self_ok) {
    int c[MAXT], n = 0;
    for (int t = 0; t < nth; t++)
        if (runnable(t) && (self_ok || t != me)) c[n++] = t;
    if (!n) return -1;
    if (S->mode == 1) {
        while (next_log < S->nlog && S->log[next_log].ev < ev) next_log++;
        if (next_log < S->nlog && S->log[next_log].ev == ev && S->log[next_log].action == 2) {
            int t = S->log[next_log++].target;
            if (t < nth && runnable(t)) return t;
        }
        return c[0];
    }
    int t = c[0];
    if (S->pct_points) {
        for (int i = 1; i < n; i++) if (T[c[i]].prio > T[t].prio) t = c[i];
    } else
        t = c[rnd() % n];
    logit(2, t);
    return t;
}

// The current thread cannot go on; someone else must.
static void leave(void) {
    int t = pick_next(0);
    if (t < 0) {
        // Nobody can run: release the stalled ones, if the others have all finished.
        int any = 0, blocked = -1, timed = -1;
        for (int i = 0; i < nth; i++) {
            if (T[i].stalled && T[i].state == READY) any = 1;
            if (T[i].state == BLOCKED) { if (T[i].timed) timed = i; else blocked = i; }
        }
        if (timed >= 0 && T[timed].state == BLOCKED) {
            // Simulated time passes.
            T[timed].state = READY;
            T[timed].wait = 0;
            if (timed == me) return;
            hand(timed);
            return;
        }
        if (blocked >= 0) {
            if (any) { put_stack(blocked, 0); fail("stall-blocks", "thread %d waits for a thread that is stalled and cannot finish", blocked); }
            put_stack(blocked, 0);
            fail("deadlock", "thread %d waits and nobody can wake it", blocked);
        }
        if (!any) {
            // Everyone has finished.
            cur = -1;
            return;
        }
        for (int i = 0; i < nth; i++) T[i].stalled = 0;
        t = pick_next(1);
        if (t < 0 || t == me) return;
    }
    S->switches++;
    hand(t);
}

static void switch_to(int t) {
    S->switches++;
    hand(t);
    await();
}

static void point(int atomic) {
    ev++;
    if (atomic) S->atomics++;
    if (ev > S->budget) {
        int any = 0;
        for (int i = 0; i < nth; i++) any |= T[i].stalled;
        put_stack(me, 0);
        fail(any ? "stall-blocks" : "no-progress", any ? "thread %d spins while another thread is stalled (%llu steps)" : "thread %d does not come to an end (%llu steps)", me, (unsigned long long)ev);
    }
    if (S->mode == 1) {
        while (next_log < S->nlog && S->log[next_log].ev < ev) next_log++;
        if (next_log >= S->nlog || S->log[next_log].ev != ev || S->log[next_log].action > 1) return;
        struct entry e = S->log[next_log++];
        int t = e.target;
        if (t >= nth || t == me || !runnable(t)) return;
        if (e.action == 1) { T[me].stalled = 1; S->stalls_done++; }
        switch_to(t);
        return;
    }
    if (nstall && ev >= stall_at[nstall - 1]) {
        nstall--;
        int t = -1, n = 0;
        for (int i = 0; i < nth; i++) if (i != me && runnable(i) && rnd() % ++n == 0) t = i;
        if (t >= 0) {
            T[me].stalled = 1;
            S->stalls_done++;
            logit(1, t);
            switch_to(t);
            return;
        }
    }
    int want = -1;
    if (S->pct_points) {
        if (nchange && ev >= change[nchange - 1]) {
            nchange--;
            T[me].prio = nchange;
            for (int i = 0; i < nth; i++) if (i != me && runnable(i) && (want < 0 || T[i].prio > T[want].prio)) want = i;
            if (want >= 0 && T[want].prio < T[me].prio) want = -1;
        }
    } else {
        u64 den = atomic ? S->atomic_den : S->plain_den;
        if (den && rnd() % den == 0) {
            int n = 0;
            for (int i = 0; i < nth; i++) if (i != me && runnable(i) && rnd() % ++n == 0) want = i;
        }
    }
    if (want >= 0) {
        logit(0, want);
        switch_to(want);
    }
}

// ------------------------------------------------------------------ shadow memory

struct cell {
    u32 w;            // last plain write: thread << 28 | clock + 1
    u32 r;            // last plain read, while all reads are by one thread
    u32 more;         // index of the rest, when there is more to say
    u32 freed;
};
struct more { u32 r[MAXT], aw[MAXT], ar[MAXT]; };
static struct more *mores;
static u32 nmores;
#define CELLS 512
struct page { u64 key; struct cell *c; };
#define NPAGES (1 << 16)
static struct page *pages;

static void *anon(size_t n) {
    void *p = (void *)sys(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((long)p < 0 && (long)p > -4096) fail("harness", "no memory for the shadow");
    return p;
}

static u8 *arena;
static size_t arena_left;
static void *grab(size_t n) {
    n = (n + 63) & ~63ul;
    if (n > arena_left) { arena_left = 64 << 20; arena = anon(arena_left); }
    void *p = arena;
    arena += n;
    arena_left -= n;
    return p;
}

static u64 last_key;
static struct cell *last_cells;
static struct cell *cell(u64 a) {
    u64 k = a / CELLS + 1;
    if (k == last_key) return &last_cells[a % CELLS];
    u64 h = (k * 0x9e3779b97f4a7c15ull) >> 48;
    for (u64 i = 0; i < NPAGES; i++, h = (h + 1) & (NPAGES - 1)) {
        if (!pages[h].key) {
            pages[h].key = k;
            pages[h].c = grab(CELLS * sizeof(struct cell));
        }
        if (pages[h].key == k) {
            last_key = k;
            last_cells = pages[h].c;
            return &last_cells[a % CELLS];
        }
    }
    fail("harness", "shadow memory is full");
    return 0;
}

#define NMORES (1 << 18)
static struct more *more(struct cell *c) {
    if (!c->more) {
        if (++nmores >= NMORES) fail("harness", "too much memory is shared");
        c->more = nmores;
        if (c->r) mores[nmores].r[c->r >> 28] = c->r;
    }
    return &mores[c->more];
}

static u32 epoch(int t) { return (u32)t << 28 | (T[t].vc[t] + 1); }
static int before(u32 e) {
    int t = e >> 28;
    return !e || (e & 0xfffffff) - 1 <= T[me].vc[t];
}

static void race(const char *what, int other, u64 a) {
    put_stack(me, 0);
    put_stack(other, STACKMAX);
    fail("data-race", "%s: thread %d and thread %d access the same memory with nothing to order them", what, me, other);
    (void)a;
}

static void access_(u64 a, u64 n, int write, int atomic) {
    u32 e = epoch(me);
    for (u64 i = 0; i < n; i++) {
        struct cell *c = cell(a + i);
        if (c->freed) { put_stack(me, 0); fail("use-after-free", "thread %d uses memory that thread %d has released", me, (int)c->freed - 1); }
        if (c->w && (int)(c->w >> 28) != me && !before(c->w)) race(write ? "a write after a write" : "a read after a write", c->w >> 28, a);
        if (!c->more && !atomic) {
            if (c->r && (int)(c->r >> 28) != me) {
                if (write) { if (!before(c->r)) race("a write after a read", c->r >> 28, a); }
                else if (!before(c->r)) { more(c)->r[me] = e; continue; }
            }
            if (write) c->w = e; else c->r = e;
            continue;
        }
        struct more *m = more(c);
        for (int t = 0; t < nth; t++) {
            if (t == me) continue;
            if (!atomic && !before(m->aw[t])) race("a plain access after an atomic write", t, a);
            if (write && !before(m->r[t])) race("a write after a read", t, a);
            if (write && !atomic && !before(m->ar[t])) race("a plain write after an atomic read", t, a);
        }
        if (atomic) { if (write) m->aw[me] = e; else m->ar[me] = e; }
        else if (write) c->w = e; else m->r[me] = e;
    }
}

#define ON (me >= 0 && !busy)

static void plain(u64 a, u64 n, int write) {
    if (!ON) return;
    busy = 1;
    point(0);
    access_(a, n, write, 0);
    busy = 0;
}

// ------------------------------------------------------------------ atomics

#define HIST 4
struct loc {
    u64 addr;
    u32 id;
    u32 vc[MAXT];
    u128 last;
    int known;
    // Earlier stores that a load may still see.
    u32 nh;
    struct { u128 v; u32 by, clk; u32 vc[MAXT]; } h[HIST];
    u32 seen[MAXT];   // how many stores of h this thread has certainly seen (index base)
    u32 base;
};
#define NLOCS (1 << 13)
static struct loc *locs;
static u32 nlocs;

static struct loc *loc(u64 a) {
    u64 h = (a * 0x9e3779b97f4a7c15ull) >> 51;
    for (u64 i = 0; i < NLOCS; i++, h = (h + 1) & (NLOCS - 1)) {
        if (locs[h].addr == a) return &locs[h];
        if (!locs[h].addr) {
            locs[h].addr = a;
            locs[h].id = nlocs++;
            S->locations = nlocs;
            return &locs[h];
        }
    }
    fail("harness", "too many atomic locations");
    return 0;
}

static void join(u32 *a, const u32 *b) {
    for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i];
}

static int acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static u128 peek(u64 a, int n) {
    u128 v = 0;
    memcpy(&v, (void *)a, n);
    return v;
}

// Code that is not instrumented has changed the location: everything so far may be
// ordered before this access.
static void foreign(struct loc *l, u128 now) {
    if (l->known && l->last != now) {
        for (int t = 0; t < nth; t++) join(l->vc, T[t].vc);
        l->nh = 0;
        l->known = 0;
    }
}

static void order(struct loc *l, int op, int mo) {
    u64 x = (u64)me << 56 ^ (u64)op << 48 ^ (u64)mo << 40 ^ l->id;
    order_hash = (order_hash ^ x) * 0x100000001b3ull;
    order_hash ^= order_hash >> 29;
}

static u128 a_load(u64 a, int n, int mo) {
    if (!ON) return peek(a, n);
    busy = 1;
    point(1);
    access_(a, n, 0, 1);
    struct loc *l = loc(a);
    u128 now = peek(a, n), v = now;
    foreign(l, now);
    order(l, 1, mo);
    u32 *vc = l->vc;
    if (S->stale_den && l->known && l->nh && mo != __ATOMIC_SEQ_CST) {
        // Which earlier stores may this thread still see?  None older than one it has
        // seen or that happens before this load.
        u32 first = l->seen[me] > l->base ? l->seen[me] - l->base : 0;
        for (u32 i = first + 1; i < l->nh; i++)
            if (l->h[i].clk <= T[me].vc[l->h[i].by]) first = i;
        if (first + 1 < l->nh) {
            u32 k = first + (S->mode == 1 ? 0 : rnd() % (l->nh - first));
            int stale = 0;
            if (S->mode == 0) {
                if (k + 1 < l->nh && rnd() % S->stale_den == 0) { stale = 1; logit(3, k); }
            } else {
                while (next_log < S->nlog && S->log[next_log].ev < ev) next_log++;
                if (next_log < S->nlog && S->log[next_log].ev == ev && S->log[next_log].action == 3) {
                    k = S->log[next_log++].target;
                    stale = k >= first && k + 1 < l->nh;
                }
            }
            if (stale) {
                v = l->h[k].v;
                vc = l->h[k].vc;
                if (l->base + k > l->seen[me]) l->seen[me] = l->base + k;
                S->stale_reads++;
            } else if (l->base + l->nh - 1 > l->seen[me]) l->seen[me] = l->base + l->nh - 1;
        }
    } else if (l->nh && l->base + l->nh - 1 > l->seen[me]) l->seen[me] = l->base + l->nh - 1;
    join(acq(mo) ? T[me].vc : T[me].acq, vc);
    if (mo == __ATOMIC_SEQ_CST) join(T[me].vc, vc);
    l->last = now;
    l->known = 1;
    busy = 0;
    return v;
}

static void stored(struct loc *l, u128 v, u64 a, int n) {
    (void)a; (void)n;
    if (!l->known && !l->nh) l->nh = 0;
    if (l->nh == HIST) {
        memmove(&l->h[0], &l->h[1], sizeof l->h[0] * (HIST - 1));
        l->nh--;
        l->base++;
    }
    l->h[l->nh].v = v;
    l->h[l->nh].by = me;
    l->h[l->nh].clk = T[me].vc[me];
    memcpy(l->h[l->nh].vc, l->vc, sizeof l->vc);
    l->nh++;
    l->seen[me] = l->base + l->nh - 1;
    l->last = v;
    l->known = 1;
}

static void first_value(struct loc *l, u128 now) {
    // The value from before the run, which everyone may have seen.
    if (!l->nh) {
        l->h[0].v = now;
        l->h[0].by = me;
        l->h[0].clk = 0;
        memcpy(l->h[0].vc, l->vc, sizeof l->vc);
        l->nh = 1;
    }
}

static void a_store(u64 a, int n, u128 v, int mo) {
    if (!ON) { memcpy((void *)a, &v, n); return; }
    busy = 1;
    point(1);
    access_(a, n, 1, 1);
    struct loc *l = loc(a);
    u128 now = peek(a, n);
    foreign(l, now);
    first_value(l, now);
    order(l, 2, mo);
    if (rel(mo)) memcpy(l->vc, T[me].vc, sizeof l->vc);
    else memcpy(l->vc, T[me].rel, sizeof l->vc);
    if (mo == __ATOMIC_SEQ_CST) join(sc, T[me].vc);
    memcpy((void *)a, &v, n);
    stored(l, peek(a, n), a, n);
    T[me].vc[me]++;
    busy = 0;
}

typedef u128 (*rmwf)(u128, u128);
static u128 f_xchg(u128 a, u128 b) { (void)a; return b; }
static u128 f_add(u128 a, u128 b) { return a + b; }
static u128 f_sub(u128 a, u128 b) { return a - b; }
static u128 f_and(u128 a, u128 b) { return a & b; }
static u128 f_or(u128 a, u128 b) { return a | b; }
static u128 f_xor(u128 a, u128 b) { return a ^ b; }
static u128 f_nand(u128 a, u128 b) { return ~(a & b); }

static u128 a_rmw(u64 a, int n, u128 b, int mo, rmwf f) {
    if (!ON) {
        u128 v = peek(a, n), x = f(v, b);
        memcpy((void *)a, &x, n);
        return v;
    }
    busy = 1;
    point(1);
    access_(a, n, 1, 1);
    struct loc *l = loc(a);
    u128 now = peek(a, n);
    foreign(l, now);
    first_value(l, now);
    order(l, 3, mo);
    join(acq(mo) ? T[me].vc : T[me].acq, l->vc);
    join(l->vc, rel(mo) ? T[me].vc : T[me].rel);
    u128 x = f(now, b);
    memcpy((void *)a, &x, n);
    stored(l, peek(a, n), a, n);
    T[me].vc[me]++;
    busy = 0;
    return now;
}

static int a_cas(u64 a, int n, u64 exp, u128 want, int mo, int fmo, int weak) {
    u128 e = 0;
    memcpy(&e, (void *)exp, n);
    if (!ON) {
        u128 v = peek(a, n);
        if (v == e) { memcpy((void *)a, &want, n); return 1; }
        memcpy((void *)exp, &v, n);
        return 0;
    }
    busy = 1;
    point(1);
    struct loc *l = loc(a);
    u128 now = peek(a, n);
    foreign(l, now);
    int ok = now == e;
    (void)weak;
    access_(a, n, ok, 1);
    first_value(l, now);
    order(l, ok ? 4 : 5, mo);
    if (ok) {
        join(acq(mo) ? T[me].vc : T[me].acq, l->vc);
        join(l->vc, rel(mo) ? T[me].vc : T[me].rel);
        memcpy((void *)a, &want, n);
        stored(l, peek(a, n), a, n);
        T[me].vc[me]++;
    } else {
        join(acq(fmo) ? T[me].vc : T[me].acq, l->vc);
        memcpy((void *)exp, &now, n);
        l->last = now;
        l->known = 1;
    }
    busy = 0;
    return ok;
}

#define ATOMIC(BITS, TY) \
    TY __tsan_atomic##BITS##_load(const volatile TY *a, int mo) { return (TY)a_load((u64)a, sizeof(TY), mo); } \
    void __tsan_atomic##BITS##_store(volatile TY *a, TY v, int mo) { a_store((u64)a, sizeof(TY), v, mo); } \
    TY __tsan_atomic##BITS##_exchange(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_xchg); } \
    TY __tsan_atomic##BITS##_fetch_add(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_add); } \
    TY __tsan_atomic##BITS##_fetch_sub(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_sub); } \
    TY __tsan_atomic##BITS##_fetch_and(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_and); } \
    TY __tsan_atomic##BITS##_fetch_or(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_or); } \
    TY __tsan_atomic##BITS##_fetch_xor(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_xor); } \
    TY __tsan_atomic##BITS##_fetch_nand(volatile TY *a, TY v, int mo) { return (TY)a_rmw((u64)a, sizeof(TY), v, mo, f_nand); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY *a, TY *e, TY v, int mo, int f) { return a_cas((u64)a, sizeof(TY), (u64)e, v, mo, f, 0); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY *a, TY *e, TY v, int mo, int f) { return a_cas((u64)a, sizeof(TY), (u64)e, v, mo, f, 1); } \
    TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY *a, TY e, TY v, int mo, int f) { a_cas((u64)a, sizeof(TY), (u64)&e, v, mo, f, 0); return e; }

ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
ATOMIC(128, u128)

void __tsan_atomic_thread_fence(int mo) {
    if (!ON) return;
    busy = 1;
    point(1);
    if (acq(mo)) join(T[me].vc, T[me].acq);
    if (mo == __ATOMIC_SEQ_CST) { join(T[me].vc, sc); join(sc, T[me].vc); }
    if (rel(mo)) { memcpy(T[me].rel, T[me].vc, sizeof T[me].vc); T[me].vc[me]++; }
    busy = 0;
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ------------------------------------------------------------------ plain accesses

#define RW(N) \
    void __tsan_read##N(void *a) { plain((u64)a, N, 0); } \
    void __tsan_write##N(void *a) { plain((u64)a, N, 1); } \
    void __tsan_read_write##N(void *a) { plain((u64)a, N, 1); } \
    void __tsan_unaligned_read##N(void *a) { plain((u64)a, N, 0); } \
    void __tsan_unaligned_write##N(void *a) { plain((u64)a, N, 1); } \
    void __tsan_unaligned_read_write##N(void *a) { plain((u64)a, N, 1); } \
    void __tsan_volatile_read##N(void *a) { plain((u64)a, N, 0); } \
    void __tsan_volatile_write##N(void *a) { plain((u64)a, N, 1); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, u64 n) { plain((u64)a, n, 0); }
void __tsan_write_range(void *a, u64 n) { plain((u64)a, n, 1); }
void __tsan_vptr_update(void **a, void *v) { (void)v; plain((u64)a, 8, 1); }
void __tsan_vptr_read(void **a) { plain((u64)a, 8, 0); }
void *__tsan_memcpy(void *d, const void *s, u64 n) {
    if (n) { plain((u64)s, n, 0); plain((u64)d, n, 1); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, u64 n) {
    if (n) { plain((u64)s, n, 0); plain((u64)d, n, 1); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, u64 n) {
    if (n) plain((u64)d, n, 1);
    return memset(d, c, n);
}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_func_entry(void *pc) {
    (void)pc;
    if (!ON) return;
    int d = T[me].depth++;
    if (d < STACKMAX) T[me].stack[d] = (u64)__builtin_return_address(0);
}
void __tsan_func_exit(void) {
    if (ON && T[me].depth > 0) T[me].depth--;
}

// ------------------------------------------------------------------ the allocator

// Tells of memory that was obtained or is about to be released; a released block is
// never handed out again during a run, so that a late use is seen.
int rt_alloc(u8 *p, u64 n) {
    if (!ON) return 0;
    busy = 1;
    S->blocks++;
    S->bytes += n;
    for (u64 i = 0; i < n; i++) {
        struct cell *c = cell((u64)p + i);
        memset(c, 0, sizeof *c);
        c->w = epoch(me);
    }
    busy = 0;
    return 1;
}
int rt_free(u8 *p, u64 n) {
    if (me < 0 || busy) return 0;
    busy = 1;
    S->blocks--;
    S->bytes -= n;
    access_((u64)p, n, 1, 0);
    for (u64 i = 0; i < n; i++) cell((u64)p + i)->freed = me + 1;
    busy = 0;
    return 1;
}
int rt_on(void) { return ON; }

// ------------------------------------------------------------------ waiting

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && ON) {
        int op = b & FUTEX_CMD_MASK;
        busy = 1;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(1);
            struct loc *l = loc((u64)a);
            if (*(volatile u32 *)a != (u32)c) {
                join(T[me].vc, l->vc);
                busy = 0;
                errno = EAGAIN;
                return -1;
            }
            S->futex_waits++;
            T[me].state = BLOCKED;
            T[me].wait = (void *)a;
            T[me].timed = d != 0;
            leave();
            if (T[me].state == BLOCKED || cur != me) await();
            int timed_out = T[me].wait == 0 && T[me].timed;
            T[me].timed = 0;
            join(T[me].vc, l->vc);
            busy = 0;
            if (timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            struct loc *l = loc((u64)a);
            join(l->vc, T[me].vc);
            T[me].vc[me]++;
            long woken = 0;
            for (int t = 0; t < nth && woken < c; t++)
                if (T[t].state == BLOCKED && T[t].wait == (void *)a) {
                    T[t].state = READY;
                    T[t].timed = 0;
                    woken++;
                }
            point(1);
            busy = 0;
            return woken;
        }
        busy = 0;
    }
    long r = sys(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

static void give_way(void) {
    busy = 1;
    ev++;
    if (ev > S->budget) point(0);
    int t = pick_next(0);
    if (t >= 0) switch_to(t);
    busy = 0;
}
int sched_yield(void) {
    if (ON) give_way();
    return 0;
}
static int nap(void) { if (ON) give_way(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (ON) return nap();
    return sys(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0) < 0 ? -1 : 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (ON) return nap();
    return -sys(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0);
}

// ------------------------------------------------------------------ a run

void rt_setup(struct shared *s) {
    S = s;
    nth = (int)s->nthreads;
    rng = s->seed * 0x2545f4914f6cdd1dull + 1;
    pages = anon(NPAGES * sizeof *pages);
    locs = anon(NLOCS * sizeof *locs);
    mores = anon(NMORES * sizeof *mores);
    ev = 0;
    next_log = 0;
    if (s->mode == 0) {
        s->nlog = 0;
        u64 h = s->horizon ? s->horizon : 1;
        nchange = s->pct_points < 64 ? s->pct_points : 63;
        for (u64 i = 0; i < nchange; i++) change[i] = 1 + rnd() % h;
        nstall = s->stalls < 8 ? s->stalls : 8;
        for (u64 i = 0; i < nstall; i++) stall_at[i] = 1 + rnd() % h;
        // Ascending from the end.
        for (u64 i = 0; i < nchange; i++) for (u64 j = i + 1; j < nchange; j++) if (change[j] > change[i]) { u64 x = change[i]; change[i] = change[j]; change[j] = x; }
        for (u64 i = 0; i < nstall; i++) for (u64 j = i + 1; j < nstall; j++) if (stall_at[j] > stall_at[i]) { u64 x = stall_at[i]; stall_at[i] = stall_at[j]; stall_at[j] = x; }
    }
    for (int t = 0; t < nth; t++) {
        T[t].state = READY;
        T[t].vc[t] = 1;
        T[t].prio = 1000 + (s->mode == 0 ? rnd() % 1000000 : 0);
    }
}

// A client thread comes in, and waits to be chosen.
void rt_enter(int t) {
    me = t;
    busy = 1;
    __atomic_fetch_add(&started, 1, __ATOMIC_SEQ_CST);
    await();
    busy = 0;
}
// It has nothing more to do.
void rt_leave(void) {
    busy = 1;
    T[me].state = DONE;
    S->events = ev;
    S->hash = order_hash;
    leave();
    me = -1;
    busy = 0;
}
// Starts the run, once all have come in.
void rt_go(void) {
    while (__atomic_load_n(&started, __ATOMIC_SEQ_CST) != nth) sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    int t = 0;
    if (S->mode == 0) {
        if (S->pct_points) { for (int i = 1; i < nth; i++) if (T[i].prio > T[t].prio) t = i; }
        else t = rnd() % nth;
        logit(2, t);
    } else if (S->nlog && S->log[0].ev == 0 && S->log[0].action == 2 && S->log[0].target < (u32)nth) {
        t = S->log[0].target;
        next_log = 1;
    }
    hand(t);
}
u64 rt_events(void) { return ev; }
