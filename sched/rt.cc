// A controlled scheduler and happens-before monitor for code compiled with thread-sanitizer instrumentation.
// The compiler inserts the __tsan_* calls; this file supplies them. Threads run one at a time; at every atomic
// operation and every futex call the scheduler decides who goes on. Executions are enumerated with dynamic
// partial-order reduction (source sets and sleep sets), each in a freshly forked process.
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
static const int MAXT = 4;
static const int MAXEV = 1 << 18;
static const int MAXACC = 1 << 19;
static const int MAXOUT = 256;

extern "C" void mc_body(int prog, int tid);

enum Kind { START, LOAD, STORE, RMW, FENCE, WAIT, WAKE, RESUME, YIELD };
static const char* KN[] = {"start", "load", "store", "rmw", "fence", "futex_wait", "futex_wake", "resume", "yield"};
struct Ev { u8 tid, kind, enabled, sleep; u32 acc, nacc; u64 addr; };
struct Acc { u64 addr; u8 write; };
enum Status { OK, DEADLOCK, RACE, CRASH, LIVELOCK, DIVERGED, SLEEPING, TOOLONG };
struct Shm {
    u32 nsched; u8 sched[MAXEV]; u32 sleep_at; u8 sleep_mask;
    u32 nev; Ev ev[MAXEV]; u32 nacc; Acc acc[MAXACC];
    u32 status; char msg[1024];
    u32 nout[MAXT]; u64 out[MAXT][MAXOUT]; char panic[MAXT][256];
    u32 nopaque; u64 opaque[256];
    u64 plain, atomics;
};
static Shm* S;

// ---------------------------------------------------------------- child side
struct VC { u32 c[MAXT]; };
static inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct Loc { u64 addr; u64 val; u8 size; VC rel; VC aw, ar; bool opaque, stack; };
struct Th {
    pthread_t th; sem_t sem; int state; u8 kind; u64 addr; u8 wr; VC vc; VC fence_rel, fence_acq;
    u64 stack_lo, stack_hi; u64 spin_pc, spin_addr, spin_val; u32 spin_n, spin_m; u64 writes; u64 spin_writes; bool hard; bool timed; bool timed_out;
    int bitset;
};
enum { RUN, READY, BLOCKED, AWAIT, DONE };
static Th T[MAXT];
static int NT, PROG, CUR, STEP;
static u8 SLEEP;
static bool ON = false;
static int IDLE;  // rounds in which every live thread only waited
static __thread int ME = -1;
static __thread int IN = 0;  // inside the runtime
static sem_t FINISHED;
static std::vector<Loc>* LOCS;
static std::unordered_map<u64, int>* LIDX;
static int CUREV = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void finish(u32 st, const char* fmt, ...) {
    S->status = st;
    if (fmt) { va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap); }
    _exit(0);
}
static u64 peek(u64 a, int size) {
    switch (size) { case 1: return *(volatile u8*)a; case 2: return *(volatile uint16_t*)a; case 4: return *(volatile u32*)a; default: return *(volatile u64*)a; }
}
static Loc& loc(u64 a, int size) {
    auto it = LIDX->find(a);
    if (it != LIDX->end()) return (*LOCS)[it->second];
    (*LIDX)[a] = LOCS->size();
    Loc l; memset(&l, 0, sizeof l); l.addr = a; l.size = size; l.val = peek(a, size);
    for (int q = 0; q < NT; q++) if (a >= T[q].stack_lo && a < T[q].stack_hi) l.stack = true;
    for (u32 i = 0; i < S->nopaque; i++) if (S->opaque[i] == a) l.opaque = true;
    LOCS->push_back(l);
    return LOCS->back();
}
static void access(u64 a, bool w) {
    if (CUREV < 0) return;
    if (S->nacc >= MAXACC) finish(TOOLONG, "trace too long");
    Ev& e = S->ev[CUREV];
    for (u32 i = e.acc; i < e.acc + e.nacc; i++) if (S->acc[i].addr == a) { S->acc[i].write |= w; return; }
    S->acc[S->nacc++] = {a, (u8)w}; e.nacc++;
}
// Writes to known atomics that no instrumented operation made: code of the standard library did.
static void scan() {
    if (CUREV < 0) return;
    int t = S->ev[CUREV].tid;
    for (auto& l : *LOCS) {
        if (l.stack) continue;
        u64 v = peek(l.addr, l.size);
        if (v != l.val) {
            l.val = v;
            access(l.addr, true);
            join(T[t].vc, l.rel); join(l.rel, T[t].vc); T[t].vc.c[t]++;
            if (!l.opaque) { l.opaque = true; if (S->nopaque < 256) S->opaque[S->nopaque++] = l.addr; }
        }
    }
}
static bool dependent_pending(int q, const Ev& e) {
    Th& t = T[q];
    if (t.kind == START || t.kind == FENCE || t.kind == YIELD) return false;
    for (u32 i = e.acc; i < e.acc + e.nacc; i++)
        if (S->acc[i].addr == t.addr && (S->acc[i].write || t.wr)) return true;
    return false;
}
// Close the current event: everything it did is known now.
static void close_event() {
    scan();
    if (CUREV >= 0) {
        Ev& e = S->ev[CUREV];
        for (int q = 0; q < NT; q++) if ((SLEEP >> q & 1) && dependent_pending(q, e)) SLEEP &= ~(1 << q);
        for (u32 i = e.acc; i < e.acc + e.nacc; i++)
            if (S->acc[i].write) IDLE = 0;
        for (u32 i = e.acc; i < e.acc + e.nacc; i++)
            if (S->acc[i].write) for (int q = 0; q < NT; q++) if (T[q].state == AWAIT && T[q].spin_addr == S->acc[i].addr) { T[q].state = READY; T[q].spin_n = 0; }
    }
    CUREV = -1;
}
static u8 enabled() { u8 m = 0; for (int q = 0; q < NT; q++) if (T[q].state == READY) m |= 1 << q; return m; }
// Who goes next; -1 when everybody is done.
static int pick(int me, bool avoid_me) {
    u8 en = enabled();
    if (!en) {
        bool hard = false;
        for (int q = 0; q < NT; q++) if (T[q].state == AWAIT) { hard |= T[q].hard; T[q].state = READY; T[q].spin_n = 0; en = enabled(); }
        if (hard && ++IDLE > 2000) finish(LIVELOCK, "every thread left waits for a change that no thread is going to make");
    }
    if (!en) for (int q = 0; q < NT; q++) if (T[q].state == BLOCKED && T[q].timed) { T[q].state = READY; T[q].kind = RESUME; T[q].timed_out = true; en = enabled(); break; }
    if (!en) {
        bool all = true; std::string who;
        for (int q = 0; q < NT; q++) if (T[q].state != DONE) { all = false; who += " " + std::to_string(q); }
        if (!all) finish(DEADLOCK, "deadlock: thread(s)%s wait for ever", who.c_str());
        return -1;
    }
    int n;
    if ((u32)STEP == S->sleep_at) SLEEP = S->sleep_mask;
    if ((u32)STEP < S->nsched) {
        n = S->sched[STEP];
        if (!(en >> n & 1)) finish(DIVERGED, "step %d: thread %d is not enabled", STEP, n);
    } else {
        u8 c = en & ~SLEEP;
        if (!c) finish(SLEEPING, 0);
        if (me >= 0 && (c >> me & 1) && !(avoid_me && (c & ~(1 << me)))) n = me;
        else { n = 0; if (avoid_me && (c & ~(1 << me))) c &= ~(1 << me); while (!(c >> n & 1)) n++; }
    }
    if (S->nev >= MAXEV) finish(TOOLONG, "trace too long");
    Ev& e = S->ev[S->nev];
    e.tid = n; e.kind = T[n].kind; e.enabled = en; e.sleep = SLEEP; e.acc = S->nacc; e.nacc = 0; e.addr = T[n].addr;
    CUREV = S->nev++; STEP++;
    SLEEP &= ~(1 << n);
    T[n].state = RUN; CUR = n;
    return n;
}
static void hand(int me, int n) {
    if (n == me) return;
    sem_post(&T[n].sem);
    while (sem_wait(&T[me].sem)) {}
}
// Announce an operation and wait to be allowed to do it.
static void point(u8 kind, u64 addr, bool wr, bool avoid = false) {
    int me = ME;
    close_event();
    T[me].kind = kind; T[me].addr = addr; T[me].wr = wr;
    if (T[me].state == RUN) T[me].state = READY;
    int n = pick(me, avoid);
    hand(me, n);
}

// ---- plain accesses: happens-before race detection
struct Sh { u64 key; u32 w[8]; u32 r[8][MAXT]; };
static Sh* SH; static const u64 SHN = 1 << 18; static u64 shused;
static inline u64 hash(u64 g) { return (((g >> 9) * 0x9e3779b97f4a7c15ull) >> 46 & ~511ull) + (g & 511); }
static Sh* shadow(u64 g) {
    u64 i = hash(g);
    for (;;) {
        Sh* s = &SH[i & (SHN - 1)];
        if (s->key == g) return s;
        if (!s->key) { if (++shused > SHN * 3 / 4) finish(TOOLONG, "shadow full"); s->key = g; return s; }
        i++;
    }
}
extern char __executable_start;
static void race(u64 a, int other, bool w, bool ow, u64 pc) {
    finish(RACE, "data race at %#lx: thread %d %s it without synchronisation after thread %d %s it (code at +%#lx)", (long)a, ME, w ? "writes" : "reads", other, ow ? "wrote" : "read", (long)(pc - (u64)&__executable_start));
}
static inline void plain(u64 a, u64 n, bool w, u64 pc) {
    int me = ME;
    if (me < 0 || !ON || IN) return;
    Th& t = T[me];
    t.writes++;
    if (a >= t.stack_lo && a < t.stack_hi) return;
    S->plain++;
    u32 mine = t.vc.c[me];
    for (u64 x = a; x < a + n;) {
        Sh* s = shadow((x >> 3) + 1);
        for (; x < a + n; x++) {
            int b = x & 7;
            u32 e = s->w[b];
            if (e) { int o = e >> 28; u32 c = e & 0xfffffff; if (o != me && c > t.vc.c[o]) race(x, o, w, true, pc); }
            if (w) {
                for (int o = 0; o < NT; o++) if (o != me && s->r[b][o] > t.vc.c[o]) race(x, o, w, false, pc);
                s->w[b] = (u32)me << 28 | mine;
            } else s->r[b][me] = mine;
            if (b == 7) { x++; break; }
        }
    }
    if (!LIDX->empty()) {
        auto it = LIDX->find(a);
        if (it != LIDX->end()) {
            Loc& l = (*LOCS)[it->second];
            for (int o = 0; o < NT; o++) if (o != me) {
                if (l.aw.c[o] > t.vc.c[o]) race(a, o, w, true, pc);
                if (w && l.ar.c[o] > t.vc.c[o]) race(a, o, w, false, pc);
            }
            if (w) l.val = ~peek(a, l.size) , l.val = peek(a, l.size);  // the value is refreshed at the next scan
        }
    }
}
static void atomic_vs_plain(u64 a, int n, bool w, u64 pc) {
    Th& t = T[ME];
    for (u64 x = a; x < a + n; x++) {
        u64 i = hash((x >> 3) + 1);
        Sh* s = 0;
        for (;; i++) { Sh* q = &SH[i & (SHN - 1)]; if (!q->key) break; if (q->key == (x >> 3) + 1) { s = q; break; } }
        if (!s) continue;
        int b = x & 7; u32 e = s->w[b];
        if (e) { int o = e >> 28; u32 c = e & 0xfffffff; if (o != ME && c > t.vc.c[o]) race(x, o, w, true, pc); }
        if (w) for (int o = 0; o < NT; o++) if (o != ME && s->r[b][o] > t.vc.c[o]) race(x, o, w, false, pc);
    }
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline bool tracked() { return ME >= 0 && ON && !IN; }
static void before(u64 a, int size, u8 kind, u64 pc) {
    IN++;
    S->atomics++;
    Th& t = T[ME];
    bool avoid = false;
    Loc& l0 = loc(a, size);
    if (kind == LOAD || kind == RMW) {
        u64 v = peek(a, size);
        if (t.spin_pc == pc && t.spin_addr == a && t.spin_val == v && t.spin_writes == t.writes) t.spin_n++, t.spin_m++;
        else { t.spin_n = 0; if (t.spin_pc == pc && t.spin_addr == a && t.spin_val == v) t.spin_m++; else t.spin_m = 0; }
        t.spin_pc = pc; t.spin_addr = a; t.spin_val = v; t.spin_writes = t.writes;
        if (t.spin_n > 6 || t.spin_m > 1000) { t.hard = t.spin_n > 6; t.spin_n = t.spin_m = 0; t.state = AWAIT; avoid = true; }
    }
    point(kind, a, kind != LOAD || l0.opaque, avoid);
    IN--;
}
static void after(u64 a, int size, bool wrote, bool read, int mo, u64 pc) {
    IN++;
    Loc& l = loc(a, size);
    Th& t = T[ME];
    atomic_vs_plain(a, size, wrote, pc);
    l.val = peek(a, size);
    access(a, wrote);
    if (read) { join(t.fence_acq, l.rel); if (acq(mo)) join(t.vc, l.rel); l.ar.c[ME] = t.vc.c[ME]; }
    if (wrote) {
        l.aw.c[ME] = t.vc.c[ME];
        VC r = rel(mo) ? t.vc : t.fence_rel;
        if (read) join(l.rel, r); else l.rel = r;
    }
    if (wrote) t.vc.c[ME]++;
    IN--;
}
#define PC ((u64)__builtin_return_address(0))
#define ATOMICS(B, A) \
    extern "C" A __tsan_atomic##B##_load(const volatile A* p, int mo) { bool k = tracked(); if (k) before((u64)p, B / 8, LOAD, PC); A v = __atomic_load_n(p, 5); if (k) after((u64)p, B / 8, false, true, mo, PC); return v; } \
    extern "C" void __tsan_atomic##B##_store(volatile A* p, A v, int mo) { bool k = tracked(); if (k) before((u64)p, B / 8, STORE, PC); __atomic_store_n(p, v, 5); if (k) after((u64)p, B / 8, true, false, mo, PC); } \
    RMWOP(B, A, exchange, __atomic_exchange_n) RMWOP(B, A, fetch_add, __atomic_fetch_add) RMWOP(B, A, fetch_sub, __atomic_fetch_sub) RMWOP(B, A, fetch_and, __atomic_fetch_and) \
    RMWOP(B, A, fetch_or, __atomic_fetch_or) RMWOP(B, A, fetch_xor, __atomic_fetch_xor) RMWOP(B, A, fetch_nand, __atomic_fetch_nand) \
    extern "C" A __tsan_atomic##B##_compare_exchange_val(volatile A* p, A c, A v, int mo, int fmo) { bool k = tracked(); if (k) before((u64)p, B / 8, RMW, PC); bool ok = __atomic_compare_exchange_n(p, &c, v, false, 5, 5); if (k) after((u64)p, B / 8, ok, true, ok ? mo : fmo, PC); return c; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile A* p, A* c, A v, int mo, int fmo) { bool k = tracked(); if (k) before((u64)p, B / 8, RMW, PC); bool ok = __atomic_compare_exchange_n(p, c, v, false, 5, 5); if (k) after((u64)p, B / 8, ok, true, ok ? mo : fmo, PC); return ok; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile A* p, A* c, A v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); }
#define RMWOP(B, A, name, op) \
    extern "C" A __tsan_atomic##B##_##name(volatile A* p, A v, int mo) { bool k = tracked(); if (k) before((u64)p, B / 8, RMW, PC); A r = op(p, v, 5); if (k) after((u64)p, B / 8, true, true, mo, PC); return r; }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!tracked()) return;
    IN++;
    Th& t = T[ME];
    if (acq(mo)) join(t.vc, t.fence_acq);
    if (rel(mo)) { t.fence_rel = t.vc; t.vc.c[ME]++; }
    IN--;
}
extern "C" void __tsan_atomic_signal_fence(int) {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}
#define RW(n) \
    extern "C" void __tsan_read##n(void* p) { plain((u64)p, n, false, PC); } extern "C" void __tsan_write##n(void* p) { plain((u64)p, n, true, PC); } \
    extern "C" void __tsan_unaligned_read##n(void* p) { plain((u64)p, n, false, PC); } extern "C" void __tsan_unaligned_write##n(void* p) { plain((u64)p, n, true, PC); } \
    extern "C" void __tsan_read_write##n(void* p) { plain((u64)p, n, false, PC); plain((u64)p, n, true, PC); } extern "C" void __tsan_unaligned_read_write##n(void* p) { plain((u64)p, n, false, PC); plain((u64)p, n, true, PC); } \
    extern "C" void __tsan_volatile_read##n(void* p) { plain((u64)p, n, false, PC); } extern "C" void __tsan_volatile_write##n(void* p) { plain((u64)p, n, true, PC); } \
    extern "C" void __tsan_unaligned_volatile_read##n(void* p) { plain((u64)p, n, false, PC); } extern "C" void __tsan_unaligned_volatile_write##n(void* p) { plain((u64)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void* p, unsigned long n) { plain((u64)p, n, false, PC); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { plain((u64)p, n, true, PC); }
extern "C" void __tsan_vptr_update(void**, void*) {}
extern "C" void __tsan_vptr_read(void**) {}
extern "C" void* __tsan_memcpy(void* d, const void* s, unsigned long n) { plain((u64)s, n, false, PC); plain((u64)d, n, true, PC); return memcpy(d, s, n); }
extern "C" void* __tsan_memmove(void* d, const void* s, unsigned long n) { plain((u64)s, n, false, PC); plain((u64)d, n, true, PC); return memmove(d, s, n); }
extern "C" void* __tsan_memset(void* d, int c, unsigned long n) { plain((u64)d, n, true, PC); return memset(d, c, n); }

// ---- blocking: the standard library sleeps and wakes through this symbol
static u64 queue(u64 a) { return a ^ 0x8000000000000000ull; }
extern "C" long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && tracked()) {
        int op = b & 127;
        Th& t = T[ME];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            IN++;
            loc(a, 4);
            point(WAIT, queue(a), true);
            { Loc& l = loc(a, 4); access(a, false); access(queue(a), true); join(t.vc, l.rel); }
            if (peek(a, 4) != (u32)c) { IN--; errno = EAGAIN; return -1; }
            t.timed = d != 0; t.timed_out = false; t.bitset = op == FUTEX_WAIT_BITSET ? (int)f : -1;
            t.state = BLOCKED; t.kind = RESUME; t.addr = queue(a); t.wr = true;
            close_event();
            int nx = pick(ME, false);
            hand(ME, nx);
            access(queue(a), true);
            join(t.vc, loc(a, 4).rel);
            IN--;
            if (t.timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            IN++;
            loc(a, 4);
            point(WAKE, queue(a), true);
            Loc& l = loc(a, 4);
            access(queue(a), true);
            join(l.rel, t.vc); t.vc.c[ME]++;
            long woken = 0;
            for (int q = 0; q < NT && woken < c; q++)
                if (T[q].state == BLOCKED && T[q].addr == queue(a)) { T[q].state = READY; T[q].kind = RESUME; woken++; }
            IN--;
            return woken;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
extern "C" int sched_yield() noexcept {
    if (tracked()) { IN++; T[ME].writes += 0; point(YIELD, 0, false, true); IN--; return 0; }
    return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static int sleep_hook() { if (!tracked()) return 0; IN++; point(YIELD, 0, false, true); IN--; return 1; }
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) { if (sleep_hook()) return 0; return raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); }
extern "C" int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) { if (sleep_hook()) return 0; return -raw(SYS_clock_nanosleep, k, fl, (long)a, (long)b, 0, 0); }

// ---- memory that is never handed out twice, so that reuse is not mistaken for sharing
static u8* ARENA; static u64 AOFF;
static const u64 ASIZE = 1ull << 30;
extern "C" void* rt_alloc(unsigned long size, unsigned long align) {
    if (!ARENA) ARENA = (u8*)mmap(0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    u64 o = (__atomic_load_n(&AOFF, 5) + align - 1) / align * align;
    __atomic_store_n(&AOFF, o + (size + 15) / 16 * 16, 5);
    if (AOFF > ASIZE) { fprintf(stderr, "arena full\n"); abort(); }
    return ARENA + o;
}
extern "C" void rt_out(int tid, u64 v) { if (S->nout[tid] < MAXOUT) S->out[tid][S->nout[tid]] = v; S->nout[tid]++; }
extern "C" void rt_panicked(int tid, const char* s, unsigned long n) { if (n > 255) n = 255; memcpy(S->panic[tid], s, n); S->panic[tid][n] = 0; }
extern "C" void rt_pause() { IN++; }
extern "C" void rt_resume() { IN--; }

static void* thread_main(void* p) {
    int me = (int)(long)p;
    ME = me; IN = 1;
    while (sem_wait(&T[me].sem)) {}
    IN = 0;
    mc_body(PROG, me);
    IN = 1;
    close_event();
    T[me].state = DONE;
    int n = pick(me, false);
    if (n < 0) sem_post(&FINISHED); else sem_post(&T[n].sem);
    for (;;) pause();
}
static void child(int prog, int nt, int only) {
    alarm(120);
    PROG = prog; NT = nt; STEP = 0; SLEEP = 0; CUREV = -1;
    LOCS = new std::vector<Loc>(); LIDX = new std::unordered_map<u64, int>(); LOCS->reserve(4096);
    SH = (Sh*)mmap(0, SHN * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&FINISHED, 0, 0);
    memset(T, 0, sizeof T);
    pthread_attr_t at; pthread_attr_init(&at);
    const u64 SS = 16 << 20;
    for (int i = 0; i < nt; i++) {
        sem_init(&T[i].sem, 0, 0);
        T[i].state = only >= 0 && i != only ? DONE : READY; T[i].kind = START;
        T[i].vc.c[i] = 1;
        u8* st = (u8*)mmap(0, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        T[i].stack_lo = (u64)st; T[i].stack_hi = (u64)st + SS;
        pthread_attr_setstack(&at, st, SS);
        pthread_create(&T[i].th, &at, thread_main, (void*)(long)i);
    }
    ON = true;
    int n = pick(-1, false);
    sem_post(&T[n].sem);
    while (sem_wait(&FINISHED)) {}
    finish(OK, 0);
}

// ---------------------------------------------------------------- parent side
static void run(int prog, int nt, int only) {
    S->nev = 0; S->nacc = 0; S->status = CRASH; S->msg[0] = 0;
    memset(S->nout, 0, sizeof S->nout); memset(S->panic, 0, sizeof S->panic);
    fflush(stdout);
    pid_t p = fork();
    if (!p) { child(prog, nt, only); _exit(0); }
    int st;
    while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) {
        S->status = CRASH;
        snprintf(S->msg, sizeof S->msg, WTERMSIG(st) == SIGALRM ? "does not come to an end" : "the process is killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    } else if (WEXITSTATUS(st)) snprintf(S->msg, sizeof S->msg, "the process exits with %d", WEXITSTATUS(st));
}
struct Node {
    u8 tid, backtrack, done, enabled, sleep; u16 dev;  // dev: race reversals made on the way here, this step included
    int base(int d, const std::vector<Node>& st) const { return d ? st[d - 1].dev : 0; }
};

static void init_shm() { S = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->sleep_at = ~0u; }
static std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((u8)c >= 32) o += c; else o += ' '; } return o + "\""; }
static std::string sched_str(u32 n) {  // run-length coded: 0x12,1x3
    std::string o; for (u32 i = 0; i < n;) { u32 j = i; while (j < n && S->ev[j].tid == S->ev[i].tid) j++; o += (o.empty() ? "" : ",") + std::to_string(S->ev[i].tid) + "x" + std::to_string(j - i); i = j; } return o;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u64 WANT[MAXT][MAXOUT]; static u32 NWANT[MAXT];
static std::string judge(int nt) {
    if (S->status == DEADLOCK || S->status == RACE || S->status == CRASH || S->status == LIVELOCK) return S->msg;
    if (S->status != OK) return "";
    for (int t = 0; t < nt; t++) {
        if (S->panic[t][0]) return "thread " + std::to_string(t) + " panics: " + S->panic[t];
        if (S->nout[t] != NWANT[t]) return "thread " + std::to_string(t) + " gives " + std::to_string(S->nout[t]) + " answers instead of " + std::to_string(NWANT[t]);
        for (u32 i = 0; i < NWANT[t] && i < (u32)MAXOUT; i++)
            if (S->out[t][i] != WANT[t][i]) return "answer " + std::to_string(i) + " of thread " + std::to_string(t) + " differs from the one it gets when alone";
    }
    return "";
}
static std::string alone(int prog, int nt) {
    for (int t = 0; t < nt; t++) {
        S->nsched = 0; S->sleep_at = ~0u;
        run(prog, nt, t);
        if (S->status != OK) return "alone, thread " + std::to_string(t) + ": " + S->msg;
        if (S->panic[t][0]) return "alone, thread " + std::to_string(t) + " panics: " + S->panic[t];
        NWANT[t] = S->nout[t]; memcpy(WANT[t], S->out[t], sizeof WANT[t]);
    }
    return "";
}
extern "C" u64 rt_answers(int prog, int nt) {  // digest of the sequential answers
    if (!S) init_shm();
    std::string e = alone(prog, nt);
    if (!e.empty()) { printf("ERROR %s\n", e.c_str()); return 0; }
    u64 h = 1469598103934665603ull;
    for (int t = 0; t < nt; t++) for (u32 i = 0; i < NWANT[t] && i < (u32)MAXOUT; i++) h = (h ^ WANT[t][i]) * 1099511628211ull;
    return h;
}
extern "C" int rt_replay(int prog, int nt, const char* sched) {
    if (!S) init_shm();
    std::string e = alone(prog, nt);
    if (!e.empty()) { printf("%s\n", e.c_str()); return 1; }
    S->nsched = 0; S->sleep_at = ~0u;
    for (const char* p = sched; *p;) { int t = strtol(p, (char**)&p, 10); if (*p == 'x') p++; int n = strtol(p, (char**)&p, 10); for (int i = 0; i < n && S->nsched < (u32)MAXEV; i++) S->sched[S->nsched++] = t; if (*p == ',') p++; else break; }
    run(prog, nt, -1);
    e = judge(nt);
    u32 last = 255;
    for (u32 i = 0; i < S->nev; i++) { Ev& v = S->ev[i]; if (v.tid != last || v.kind != LOAD) printf("  %6u thread %d %-10s %#lx\n", i, v.tid, KN[v.kind], (long)v.addr); last = v.tid; }
    printf("%s\n", e.empty() ? "holds" : e.c_str());
    return !e.empty();
}
extern "C" void rt_explore(int prog, int nt, const char* name, int bound, u64 cap, double secs) {
    if (!S) init_shm();
    double t0 = now();
    std::string bad = alone(prog, nt), sched;
    u64 execs = 0, full = 0, events = 0, maxlen = 0, races = 0, plainacc = 0, pruned = 0, restarts = 0, nodes = 0;
    bool capped = false, odd = false;
    while (bad.empty()) {  // once more whenever a new location turns out to be written by uninstrumented code
        u32 opaque0 = S->nopaque;
        std::vector<Node> st;
        std::vector<u8> prefix; u32 sleep_at = ~0u; u8 sleep_mask = 0;
        bool again = false;
        for (;;) {
            S->nsched = prefix.size(); memcpy(S->sched, prefix.data(), prefix.size()); S->sleep_at = sleep_at; S->sleep_mask = sleep_mask;
            S->plain = 0;
            run(prog, nt, -1);
            execs++; events += S->nev; maxlen = std::max<u64>(maxlen, S->nev); plainacc += S->plain;
            if (S->status == SLEEPING) pruned++; else if (S->status == OK) full++;
            if (S->status == DIVERGED || S->status == TOOLONG) { odd = true; bad = ""; printf("NOTE %s: %s\n", name, S->msg); break; }
            bad = judge(nt);
            if (!bad.empty()) { sched = sched_str(S->nev); break; }
            if (S->nopaque != opaque0) { again = true; restarts++; break; }
            u32 n = S->nev;
            nodes += n - std::min<u32>(n, prefix.empty() ? 0 : prefix.size() - 1);
            if (st.size() > n) st.resize(n);
            for (u32 i = st.size() ? std::min<u32>(st.size(), prefix.empty() ? 0 : prefix.size() - 1) : 0; i < n; i++) {
                Ev& e = S->ev[i];
                Node d = {e.tid, (u8)(1 << e.tid), 0, e.enabled, e.sleep, (u16)(i ? st[i - 1].dev : 0)};
                if (i < st.size()) { st[i].tid = e.tid; st[i].backtrack |= 1 << e.tid; } else st.push_back(d);
            }
            // vector clocks over events: clk[i][t] = number of t's events that happen before or are event i
            std::vector<VC> clk(n); std::vector<u32> pos(n);
            VC cur[MAXT]; memset(cur, 0, sizeof cur);
            struct LA { int w; int r[MAXT]; };
            std::unordered_map<u64, LA> la; la.reserve(256);
            std::vector<std::pair<u32, u32>> rc;
            for (u32 i = 0; i < n; i++) {
                Ev& e = S->ev[i]; int p = e.tid;
                VC c = cur[p];
                pos[i] = c.c[p] + 1;
                auto hb = [&](int j) { return c.c[S->ev[j].tid] >= pos[j]; };
                VC m = c;
                for (u32 k = e.acc; k < e.acc + e.nacc; k++) {
                    auto it = la.find(S->acc[k].addr);
                    if (it == la.end()) { LA z; z.w = -1; for (int q = 0; q < MAXT; q++) z.r[q] = -1; it = la.emplace(S->acc[k].addr, z).first; }
                    LA& l = it->second;
                    if (l.w >= 0 && S->ev[l.w].tid != p) { if (!hb(l.w)) rc.push_back({(u32)l.w, i}); join(m, clk[l.w]); }
                    if (S->acc[k].write)
                        for (int q = 0; q < MAXT; q++) if (q != p && l.r[q] >= 0) { if (!hb(l.r[q])) rc.push_back({(u32)l.r[q], i}); join(m, clk[l.r[q]]); }
                }
                m.c[p] = pos[i];
                clk[i] = m; cur[p] = m;
                for (u32 k = e.acc; k < e.acc + e.nacc; k++) {
                    LA& l = la[S->acc[k].addr];
                    if (S->acc[k].write) { l.w = i; for (int q = 0; q < MAXT; q++) l.r[q] = -1; } else l.r[p] = i;
                }
            }
            races += rc.size();
            for (auto& r : rc) {
                u32 j = r.first, i = r.second; int pj = S->ev[j].tid;
                // initials of the part after j that does not depend on j, followed by i
                u8 init = 0; VC seen; bool first[MAXT]; for (int q = 0; q < MAXT; q++) { seen.c[q] = ~0u; first[q] = true; }
                std::vector<u32> v;
                for (u32 k = j + 1; k <= i; k++) { if (k != i && clk[k].c[pj] >= pos[j]) continue; v.push_back(k); }
                for (u32 x = 0; x < v.size(); x++) {
                    u32 k = v[x]; int q = S->ev[k].tid;
                    if (!first[q]) continue;
                    first[q] = false;
                    bool ind = true;
                    for (u32 y = 0; y < x && ind; y++) { u32 h = v[y]; if (clk[k].c[S->ev[h].tid] >= pos[h]) ind = false; }
                    if (ind) init |= 1 << q;
                }
                init &= st[j].enabled;
                if (!init) init = st[j].enabled & ~(1 << pj);
                if (!init) continue;
                if (st[j].backtrack & init) continue;
                int p = S->ev[i].tid;
                if (init >> p & 1) st[j].backtrack |= 1 << p; else st[j].backtrack |= init & -init;
            }
            // deepest state with something left
            int d = (int)st.size() - 1;
            for (; d >= 0; d--) {
                st[d].done |= 1 << st[d].tid;
                u8 left = st[d].backtrack & ~st[d].done & ~st[d].sleep & st[d].enabled;
                if (left && (!bound || st[d].base(d, st) < bound)) break;
            }
            if (d < 0) break;
            if (execs >= cap || now() - t0 > secs) { capped = true; break; }
            u8 left = st[d].backtrack & ~st[d].done & ~st[d].sleep & st[d].enabled;
            int t = 0; while (!(left >> t & 1)) t++;
            prefix.clear(); for (int i = 0; i < d; i++) prefix.push_back(st[i].tid);
            prefix.push_back(t);
            sleep_at = d; sleep_mask = bound ? 0 : st[d].sleep | st[d].done;
            st.resize(d + 1);
            st[d].tid = t; st[d].dev = st[d].base(d, st) + 1;
        }
        if (!again) break;
        nodes = 0;
    }
    printf("{\"program\":%s,\"threads\":%d,\"executions\":%lu,\"complete\":%lu,\"pruned\":%lu,\"events\":%lu,\"states\":%lu,\"longest\":%lu,\"reversible_races\":%lu,\"plain_accesses\":%lu,\"restarts\":%lu,\"bound\":%d,\"capped\":%s,\"odd\":%s,\"wall\":%.2f,\"violation\":%s,\"schedule\":%s}\n",
        jstr(name).c_str(), nt, execs, full, pruned, events, nodes, maxlen, races, plainacc, restarts, bound, capped ? "true" : "false", odd ? "true" : "false", now() - t0, bad.empty() ? "null" : jstr(bad).c_str(), jstr(sched).c_str());
    fflush(stdout);
}
