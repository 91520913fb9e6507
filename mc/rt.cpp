// Model checking runtime: fibers, controlled scheduler, modelled pthread/semaphore/clock layer,
// happens-before race detector, checking allocator, and the state-caching deviation-bounded
// explorer. See DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.h"

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;
#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------------------------------------
// Layout
static const int  MAXT     = 14;
static const uptr BASE     = 0x100000000000ull;
static const uptr ARENA    = 1u << 20;
static const uptr INITSZ   = 1u << 20;
static const uptr STACK    = 256u << 10;
static const uptr R_ARENA  = BASE;                          // MAXT arenas
static const uptr R_INIT   = R_ARENA + MAXT * ARENA;        // allocations made before main()
static const uptr R_STACK  = R_INIT + INITSZ;
static const uptr R_END    = R_STACK + MAXT * STACK;
static const uptr SHADOW   = 0x110000000000ull;
static const uptr DSHADOW  = 0x118000000000ull;
static const uptr GADDR    = 0x120000000000ull;
static const uptr SADDR    = 0x130000000000ull;

extern "C" char __data_start, _end, __executable_start, etext;
extern "C" char __libc_single_threaded;

struct VC { u32 c[MAXT]; };
static inline void vc_join(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

static inline u64 mix(u64 h) { h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; return h; }
static inline u64 mix2(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ull + mix(b + 0x632be59bd9b4e019ull)); }

// Access history of (part of) an 8 byte granule
struct Sub { u32 w, r, pcw, pcr; u32 at; };                  // epochs: tid<<24|clk; r: bit31 -> rvec index
struct Cell { u32 tag; u8 alloc, split, mask, pad; u32 sx; Sub s; };
static_assert(sizeof(Cell) == 32, "");
enum { RV = 0x80000000u, FREED = 0xFF };

enum Kind : u8
{
    K_START, K_ATOMIC_RD, K_ATOMIC_WR, K_LOCK, K_TRYLOCK, K_TIMEDLOCK, K_UNLOCK, K_SEMWAIT, K_SEMTRY, K_SEMTIMED, K_SEMPOST,
    K_SEMVAL, K_SEMINIT, K_SEMDESTROY, K_SEMOPEN, K_SEMCLOSE, K_SEMUNLINK, K_CREATE, K_JOIN, K_DETACH, K_EXIT, K_YIELD,
    K_SLEEP, K_CONDENTER, K_CONDBLOCK, K_CONDSIGNAL, K_CONDBCAST, K_RDLOCK, K_WRLOCK, K_RWTRY, K_RWUNLOCK, K_GUARD, K_EVENT, K_THRATTR, K_FLAGWAIT,
    K_FLAGSET, K_CLOCK, K_CHOOSE, K_QUIESCE, K_LAST
};
static const char *kname[] = { "start", "atomic-read", "atomic-write", "mutex-lock", "mutex-trylock", "mutex-timedlock", "mutex-unlock", "sem-wait", "sem-trywait", "sem-timedwait", "sem-post",
    "sem-getvalue", "sem-init", "sem-destroy", "sem-open", "sem-close", "sem-unlink", "thread-create", "thread-join", "thread-detach", "thread-exit", "yield",
    "sleep", "cond-wait", "cond-block", "cond-signal", "cond-broadcast", "rdlock", "wrlock", "rw-trylock", "rw-unlock", "static-guard", "event", "thread-attr", "flag-wait",
    "flag-raise", "clock", "choose", "quiesce" };
enum Variant { V_NORMAL, V_TIMEOUT, V_EINTR, V_SPURIOUS };

struct Obj                                                   // synchronization object, keyed by address
{
    u32 tag; u8 state; u8 kind; u16 pad;
    uptr addr;
    u64 wh, rs;                                              // hash of last write-type op, sum of reads since
    VC  vc;
    int val;                                                 // sem value / mutex owner+1 / rw readers
    int aux;
    // what an atomic held before the last write to it (hist), and who knows of that write: for loads that may still see it
    u8  hist, sc; u32 wt, wc, plain, wn; u64 prev, last, wnow; VC pvc; u32 seen[MAXT];
};
enum { OS_NONE, OS_LIVE, OS_DEAD };

struct OpS { u8 kind, read; u8 interruptible, timed; uptr obj; u64 deadline; long arg; uptr pc; uptr obj2; };

struct Thread
{
    int  state;                                              // 0 unused 1 alive 2 finished
    u8   detached, joined, cancelled, sig, weak;
    void *sp;
    void *(*fn)(void *); void *arg; void *ret;
    VC   vc, relf, acqf;
    int  has_relf, has_acqf;
    u64  h;
    OpS  op;
    int  variant;
    u32  ywait;                                              // threads that have to run first (fairness)
    u32  spin, settled;                                      // ... ; atomic writes up to this one are old enough to be seen
    uptr bump;
    uptr low;
    int  err;
    char ehg[16];
    char *tls;
    char name[16];
    u64  affinity; int policy, prio; u64 stacksize;
    struct Dtor { void (*f)(void *); void *a; } dtors[8]; int nd;
    uptr bp;
};
struct Named { char name[256]; uptr sem; };
struct NSem { uptr addr; int refs; };

struct Dev { u16 pos; u16 alt; };
struct Item { u16 n, cost; Dev d[1]; };

static const u32 OBJN = 16384, ARECN = 16384, RVECN = 8192, SUBN = 8192, LOGN = 4096, MAXCP = 30000;
struct ARec { u32 w[MAXT], r[MAXT]; u32 pcw[MAXT]; };

struct Viol { int set; char sig[160]; char msg[1200]; int npc; uptr pc[24]; int nfp; struct { int tid; int kind; uptr obj; uptr pc; } fp[MAXT]; };

enum Status { ST_RUN, ST_COMPLETE, ST_PRUNED, ST_VIOL, ST_HORIZON };

struct Opt { u8 tid, var; u8 cost; };

struct Global
{
    int  inited, sealed, cur;                                // cur: running fiber or -1
    u32  tag;
    Thread t[MAXT]; int nt;
    void *ctl_sp;
    int  status;
    u64  steps, accesses, fresh;
    uptr initbump;
    Obj  obj[OBJN]; u32 nobj; u32 olist[OBJN];
    ARec ar[ARECN]; u32 nar;
    u32  rv[RVECN][MAXT]; u32 nrv;
    Sub  sub[SUBN][8]; u32 nsub;
    mc_log_entry log[LOGN]; int nlog;
    u64  now;
    int  eintr, storm, createfail, spurious, nproc, rtprio, semfail, scfence, traps, ntraps, traptid[16], ended; u32 nwritten; u64 tick;
    Named names[32]; NSem nsems[32]; int nn, nns; uptr nsbump;
    int  semopen, semlocal;
    u64  outcome;
    int  live;
    // explorer
    const Dev *dev; int ndev, idev; int pos; int cost, bound;
    int  last;                                               // thread that ran last
    u64  cpkey[1];
    struct { u16 pos; u8 n; u8 cost[30]; u16 base; } cp[MAXCP]; int ncp;
    u8   chosen[MAXCP];
    int  replaying;
    const mc_scenario *sc; u64 salt;
    int  unlockpts;
    Viol v;
    FILE *trace;
    u64  hashmode;
    // snapshot
    char *snap; size_t snaplen; char *isnap; uptr isnaplen;
    char *tls0; size_t tlslen; char *tlsbase;
    sigjmp_buf jb; int jbset;
    int  worker;
    int flags[64];
    u64 lastbeat; int stuck;
    Thread::Dtor atexit[32]; int natexit;
};
#define G ((Global *)GADDR)

static const int MAXW = 64, QSLOTS = 256, MAXDEV = 1500, MAXKNOWN = 64;
struct Stats { u64 execs, complete, pruned, states, trans, steps, maxsteps, maxcp, outcomes, heartbeat, deferred; };
struct Shared
{
    std::atomic<u64> pend[16];
    std::atomic<int> stop, lock, qn, active[16], arrived[16], level_go[16], level_part[16], trylock_used, capped, levels_done;
    double deadline;
    u16 qbuf[QSLOTS][2 + 2 * MAXDEV];
    Stats st[MAXW];
    Viol v; int vn, vcost; Dev vdev[MAXDEV]; int vset;
    int known_n; char known[MAXKNOWN][200]; std::atomic<u64> known_hits[MAXKNOWN];
    std::atomic<u64> nstates;
    std::atomic<u64> nout;
    u64 outs[1 << 16];
    char sample[4][3000]; std::atomic<int> nsample;
};
#define S ((Shared *)SADDR)
static const uptr TABLE = 0x140000000000ull;
static u64 TABLE_N = 1ull << 26;                             // 8 byte entries

static Cell *cell_of(uptr a)
{
    if (a - BASE < R_END - BASE) return (Cell *)SHADOW + ((a - BASE) >> 3);
    if (a >= (uptr)&__data_start && a < (uptr)&_end) return (Cell *)DSHADOW + ((a - ((uptr)&__data_start & ~7ull)) >> 3);
    return nullptr;
}

static void *map_at(uptr a, size_t n, int shared)
{
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_FIXED | MAP_NORESERVE | MAP_ANONYMOUS | (shared ? MAP_SHARED : MAP_PRIVATE), -1, 0);
    if (p == MAP_FAILED) { dprintf(2, "mc: mmap failed\n"); _exit(3); }
    return p;
}
static bool g_inited = false;
static void ensure_init()
{
    if (LIKELY(g_inited)) return;
    g_inited = true;
    map_at(GADDR, sizeof(Global), 0);
    map_at(BASE, R_END - BASE, 0);
    map_at(SHADOW, (R_END - BASE) / 8 * sizeof(Cell), 0);
    map_at(DSHADOW, ((uptr)&_end - (uptr)&__data_start + 16) / 8 * sizeof(Cell) + 4096, 0);
    G->inited = 1; G->cur = -1; G->tag = 1; G->initbump = R_INIT;
    __libc_single_threaded = 0;
}

// ------------------------------------------------------------------------------------------------
// Violations
static void switch_to_controller(int status) __attribute__((noreturn));
static void collect_stack(Viol &v, uptr bp, uptr pc0)
{
    v.npc = 0;
    if (pc0) v.pc[v.npc++] = pc0;
    while (v.npc < 24 && bp >= R_STACK && bp < R_END - 16 && !(bp & 7))
    {
        uptr nbp = ((uptr *)bp)[0], ra = ((uptr *)bp)[1];
        if (!ra) break;
        v.pc[v.npc++] = ra;
        if (nbp <= bp) break;
        bp = nbp;
    }
}
static void fill_frontier(Viol &v)
{
    v.nfp = 0;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1)
    {
        auto &f = v.fp[v.nfp++]; f.tid = i; f.kind = G->t[i].op.kind; f.obj = G->t[i].op.obj; f.pc = G->t[i].op.pc;
    }
}
static NOINLINE void set_viol(const char *sig, uptr pc, uptr bp, const char *fmt, ...)
{
    Viol &v = G->v;
    if (v.set) return;
    v.set = 1;
    snprintf(v.sig, sizeof v.sig, "%s", sig);
    va_list ap; va_start(ap, fmt); vsnprintf(v.msg, sizeof v.msg, fmt, ap); va_end(ap);
    collect_stack(v, bp, pc);
    fill_frontier(v);
}
#define VIOL(sig, ...) do { set_viol(sig, (uptr)__builtin_return_address(0), (uptr)__builtin_frame_address(0), __VA_ARGS__); if (G->cur >= 0) switch_to_controller(ST_VIOL); } while (0)

// ------------------------------------------------------------------------------------------------
// Fibers
extern "C" void mc_switch(void **save, void *load);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");
extern "C" void *__cxa_get_globals();

static void save_ctx(Thread &t)
{
    t.err = errno;
    memcpy(t.ehg, __cxa_get_globals(), 16);
    if (G->tlslen) memcpy(t.tls, G->tlsbase, G->tlslen);
    uptr sp = (uptr)__builtin_frame_address(0); if (sp < t.low) t.low = sp;
}
static void load_ctx(Thread &t)
{
    errno = t.err;
    memcpy(__cxa_get_globals(), t.ehg, 16);
    if (G->tlslen) memcpy(G->tlsbase, t.tls, G->tlslen);
}
static void switch_thread(int to)
{
    int from = G->cur;
    if (from == to) return;
    Thread &a = G->t[from], &b = G->t[to];
    save_ctx(a);
    G->cur = to;
    load_ctx(b);
    mc_switch(&a.sp, b.sp);
}
static void switch_to_controller(int status)
{
    G->status = status;
    Thread &a = G->t[G->cur];
    uptr sp = (uptr)__builtin_frame_address(0); if (sp < a.low) a.low = sp;
    G->cur = -1;
    void *dummy;
    mc_switch(&dummy, G->ctl_sp);
    __builtin_trap();
}

// ------------------------------------------------------------------------------------------------
// Memory access checking
static const char *region_name(uptr a, char *buf, size_t n)
{
    if (a >= R_ARENA && a < R_INIT) snprintf(buf, n, "heap(allocated by thread %d)+%#lx", int((a - R_ARENA) / ARENA), (a - R_ARENA) % ARENA);
    else if (a >= R_INIT && a < R_STACK) snprintf(buf, n, "heap(startup)+%#lx", a - R_INIT);
    else if (a >= R_STACK && a < R_END) snprintf(buf, n, "stack(thread %d)", int((a - R_STACK) / STACK));
    else snprintf(buf, n, "global %#lx", a);
    return buf;
}
static NOINLINE void race(uptr a, const char *what, int other, u32 pco, uptr pc)
{
    if (G->sc->flags & MC_NORACE) return;
    char b[80];
    char sig[64]; snprintf(sig, sizeof sig, "data-race");
    set_viol(sig, pc, (uptr)__builtin_frame_address(0), "data race: %s on %s by thread %d, unordered with an access by thread %d at pc %#x", what, region_name(a, b, sizeof b), G->cur, other, pco);
    switch_to_controller(ST_VIOL);
}
static inline u32 pc32(uptr pc) { return (u32)pc; }

static ARec *arec(Sub &s)
{
    if (!s.at)
    {
        if (G->nar + 1 >= ARECN) { VIOL("internal:arec", "too many atomic records"); }
        s.at = ++G->nar; memset(&G->ar[s.at], 0, sizeof(ARec));
    }
    return &G->ar[s.at];
}
static inline void sub_access(Sub &s, uptr a, bool wr, bool at, uptr pc)
{
    const int me = G->cur; Thread &t = G->t[me];
    const u32 ep = ((u32)me << 24) | t.vc.c[me];
    if (!at)
    {
        if (!wr) { if (s.r == ep || (s.w == ep)) return; }
        else if (s.w == ep && !s.r && !s.at) return;
    }
    if (s.w && (int)(s.w >> 24) != me && (s.w & 0xffffff) > t.vc.c[s.w >> 24])
        race(a, at ? "atomic access (other: plain write)" : wr ? "write (other: write)" : "read (other: write)", s.w >> 24, s.pcw, pc);
    if (wr && s.r)
    {
        if (s.r & RV)
        {
            u32 *v = G->rv[s.r & ~RV];
            for (int i = 0; i < MAXT; ++i) if (i != me && v[i] > t.vc.c[i]) race(a, at ? "atomic write (other: plain read)" : "write (other: read)", i, s.pcr, pc);
        }
        else if ((int)(s.r >> 24) != me && (s.r & 0xffffff) > t.vc.c[s.r >> 24])
            race(a, at ? "atomic write (other: plain read)" : "write (other: read)", s.r >> 24, s.pcr, pc);
    }
    if (!at)
    {
        if (s.at)
        {
            ARec &r = G->ar[s.at];
            for (int i = 0; i < MAXT; ++i) if (i != me)
            {
                if (r.w[i] > t.vc.c[i]) race(a, wr ? "plain write (other: atomic write)" : "plain read (other: atomic write)", i, r.pcw[i], pc);
                if (wr && r.r[i] > t.vc.c[i]) race(a, "plain write (other: atomic read)", i, r.pcw[i], pc);
            }
        }
        if (wr) { s.w = ep; s.r = 0; s.pcw = pc32(pc); s.at = 0; }
        else
        {
            s.pcr = pc32(pc);
            if (!s.r || (!(s.r & RV) && ((int)(s.r >> 24) == me || (s.r & 0xffffff) <= t.vc.c[s.r >> 24]))) s.r = ep;
            else
            {
                if (!(s.r & RV))
                {
                    if (G->nrv + 1 >= RVECN) { VIOL("internal:rvec", "too many read vectors"); }
                    u32 x = ++G->nrv; memset(G->rv[x], 0, sizeof G->rv[x]);
                    G->rv[x][s.r >> 24] = s.r & 0xffffff; s.r = RV | x;
                }
                G->rv[s.r & ~RV][me] = t.vc.c[me];
            }
        }
    }
    else
    {
        ARec &r = *arec(s);
        if (wr) r.w[me] = t.vc.c[me]; else r.r[me] = t.vc.c[me];
        r.pcw[me] = pc32(pc);
    }
}
static NOINLINE void bad_access(Cell &c, uptr a, int n, bool wr, uptr pc)
{
    char b[80];
    const char *what = c.alloc == FREED ? "use-after-free" : "out-of-bounds";
    set_viol(what, pc, (uptr)__builtin_frame_address(0), "%s: %s of %d bytes at %s by thread %d", what, wr ? "write" : "read", n, region_name(a, b, sizeof b), G->cur);
    switch_to_controller(ST_VIOL);
}
static NOINLINE void split_access(Cell &c, uptr g, u8 mask, bool wr, bool at, uptr pc)
{
    if (!c.split)
    {
        if (G->nsub + 1 >= SUBN) { VIOL("internal:sub", "too many split granules"); }
        c.sx = ++G->nsub; c.split = 1;
        for (int i = 0; i < 8; ++i)
        {
            Sub &s = G->sub[c.sx][i];
            if (c.mask & (1 << i)) s = c.s; else memset(&s, 0, sizeof s);
        }
        // shared indices must not alias between bytes
        if (c.s.at || (c.s.r & RV)) for (int i = 0, first = 1; i < 8; ++i) if (c.mask & (1 << i))
        {
            if (first) { first = 0; continue; }
            Sub &s = G->sub[c.sx][i];
            if (s.at) { if (G->nar + 1 >= ARECN) { VIOL("internal:arec", "too many atomic records"); } u32 x = ++G->nar; G->ar[x] = G->ar[s.at]; s.at = x; }
            if (s.r & RV) { if (G->nrv + 1 >= RVECN) { VIOL("internal:rvec", "too many read vectors"); } u32 x = ++G->nrv; memcpy(G->rv[x], G->rv[s.r & ~RV], sizeof G->rv[x]); s.r = RV | x; }
        }
    }
    for (int i = 0; i < 8; ++i) if (mask & (1 << i)) sub_access(G->sub[c.sx][i], g + i, wr, at, pc);
}
static inline void cell_init(Cell &c, uptr g)
{
    memset(&c, 0, sizeof c); c.tag = G->tag;
    c.alloc = (g >= R_ARENA && g < R_INIT) ? 0 : 8;
}
static inline void granule(Cell &c, uptr g, u8 mask, bool wr, bool at, uptr pc, int n)
{
    if (UNLIKELY(c.tag != G->tag)) cell_init(c, g);
    if (UNLIKELY(c.alloc != 8))
    {
        if (c.alloc == FREED || c.alloc == 0 || (mask >> c.alloc)) bad_access(c, g + __builtin_ctz(mask), n, wr, pc);
    }
    if (LIKELY(!c.split))
    {
        if (LIKELY(c.mask == mask)) { sub_access(c.s, g, wr, at, pc); return; }
        if (!c.mask) { c.mask = mask; sub_access(c.s, g, wr, at, pc); return; }
    }
    split_access(c, g, mask, wr, at, pc);
}
static const u64 ACCESS_LIMIT = 200000000ull;
static inline void access(uptr a, uptr n, bool wr, bool at, uptr pc)
{
    if (UNLIKELY(!g_inited) || G->cur < 0) return;
    Cell *c = cell_of(a);
    if (!c)
    {
        if (UNLIKELY(a < 4096)) { set_viol("null-deref", pc, (uptr)__builtin_frame_address(0), "access of %d bytes at address %#lx by thread %d", (int)n, a, G->cur); switch_to_controller(ST_VIOL); }
        return;
    }
    if (UNLIKELY(++G->accesses > ACCESS_LIMIT)) VIOL("hang", "thread %d makes no visible progress", G->cur);
    uptr off = a & 7;
    if (LIKELY(off + n <= 8)) { granule(*c, a & ~7ull, (u8)(((1u << n) - 1) << off), wr, at, pc, (int)n); return; }
    uptr end = a + n;
    while (a < end)
    {
        off = a & 7; uptr k = std::min<uptr>(8 - off, end - a);
        c = cell_of(a); if (!c) return;
        granule(*c, a & ~7ull, (u8)(((1u << k) - 1) << off), wr, at, pc, (int)n);
        a += k;
    }
}
#define PC ((uptr)__builtin_return_address(0))

// ------------------------------------------------------------------------------------------------
// Synchronization objects, hashes
static Obj &obj(uptr a)
{
    u32 i = (u32)(mix(a) & (OBJN - 1));
    while (true)
    {
        Obj &o = G->obj[i];
        if (o.tag != G->tag)
        {
            if (++G->nobj > OBJN * 3 / 4) VIOL("internal:obj", "too many synchronization objects");
            memset(&o, 0, sizeof o); o.tag = G->tag; o.addr = a;
            return o;
        }
        if (o.addr == a) return o;
        i = (i + 1) & (OBJN - 1);
    }
}
static inline void ev_write(Thread &t, Obj &o, u64 extra)
{
    t.h = mix2(t.h, mix2(o.wh + o.rs, extra));
    o.wh = t.h; o.rs = 0;
}
static inline void ev_read(Thread &t, Obj &o, u64 extra)
{
    t.h = mix2(t.h, mix2(o.wh, extra ^ 0x5555));
    o.rs += mix(t.h);
}
static inline void ev_local(Thread &t, u64 extra) { t.h = mix2(t.h, extra + 77); }
static inline void tick(Thread &t) { t.vc.c[G->cur]++; }
static inline void acquire(Thread &t, Obj &o) { vc_join(t.vc, o.vc); }
static inline void release_join(Thread &t, Obj &o) { vc_join(o.vc, t.vc); tick(t); }
static inline void release_set(Thread &t, Obj &o) { o.vc = t.vc; tick(t); }

// ------------------------------------------------------------------------------------------------
// State table
static int table_visit(u64 key, int cost)                    // 1: already visited with <= cost
{
    if (!key) key = 1;
    u64 k56 = key >> 8; if (!k56) k56 = 1;
    std::atomic<u64> *T = (std::atomic<u64> *)TABLE;
    u64 i = mix(key) & (TABLE_N - 1);
    for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (TABLE_N - 1))
    {
        u64 e = T[i].load(std::memory_order_relaxed);
        if (!e)
        {
            if (T[i].compare_exchange_strong(e, (k56 << 8) | (u64)cost)) { G->fresh++; return 0; }
        }
        if ((e >> 8) == k56)
        {
            while ((int)(e & 255) > cost)
                if (T[i].compare_exchange_weak(e, (k56 << 8) | (u64)cost)) return 0;
            return 1;
        }
    }
    S->capped = 2;                                           // table full: no pruning (sound, slower)
    return 0;
}

// ------------------------------------------------------------------------------------------------
// Scheduler
static bool op_enabled(Thread &t)
{
    OpS &o = t.op;
    switch (o.kind)
    {
    case K_LOCK: case K_TIMEDLOCK: return obj(o.obj).val == 0 || (obj(o.obj).aux && obj(o.obj).val == (&t - G->t) + 1);
    case K_SEMWAIT: return obj(o.obj).val > 0;
    case K_SEMTIMED: return obj(o.obj).val > 0 || o.deadline <= G->now;
    case K_JOIN: return o.arg < 0 || G->t[o.arg].state == 2;
    case K_SLEEP: return o.deadline <= G->now;
    case K_CONDBLOCK: return t.sig ? obj(o.obj2).val == 0 : false;
    case K_RDLOCK: return obj(o.obj).val >= 0;
    case K_WRLOCK: return obj(o.obj).val == 0;
    case K_GUARD: return obj(o.obj).val == 0;
    case K_FLAGWAIT: return G->flags[o.arg] != 0;
    case K_QUIESCE: return false;                            // reschedule enables it when nobody else can proceed
    default: return true;
    }
}
static void fatal_internal(const char *m) { VIOL("internal:fatal", "%s", m); }

static void describe(FILE *f, int tid, int var)
{
    Thread &t = G->t[tid]; OpS &o = t.op;
    char b[80];
    fprintf(f, "  thread %d%s%s%s: %s %s", tid, t.name[0] ? " [" : "", t.name, t.name[0] ? "]" : "", kname[o.kind], o.obj ? region_name(o.obj, b, sizeof b) : "");
    if (o.kind == K_EVENT) fprintf(f, " type=%ld a=%ld", o.arg, (long)o.deadline);
    if (var == V_TIMEOUT) fprintf(f, " (times out)");
    if (var == V_EINTR) fprintf(f, " (interrupted by a signal)");
    if (var == V_SPURIOUS) fprintf(f, " (spurious wake-up)");
    if (o.pc) fprintf(f, "  @pc=%#lx", o.pc);
    fprintf(f, "\n");
}

static int choose_from(const Opt *op, int n)                 // returns index; records a choice point
{
    // alternatives: cost of op[i] relative to current cost
    if (n == 1) return 0;
    int pos = G->pos++;
    if (pos >= MAXCP - 1) { set_viol("livelock", 0, (uptr)__builtin_frame_address(0), "no end after %d choice points", pos); switch_to_controller(ST_VIOL); }
    int pick = 0;
    if (G->idev < G->ndev)
    {
        if (G->dev[G->idev].pos == pos)
        {
            pick = G->dev[G->idev].alt; ++G->idev;
            if (pick >= n) { fprintf(stderr, "mc: divergence while replaying (choice %d of %d at %d)\n", pick, n, pos); VIOL("internal:divergence", "replay divergence at choice point %d", pos); }
        }
        G->cost += op[pick].cost;
        return pick;
    }
    // beyond the prefix
    if (!G->replaying)
    {
        u64 key = G->salt;
        for (int i = 0; i < G->nt; ++i) { Thread &t = G->t[i]; key += mix2(t.h, (u64)i * 31 + t.ywait * 1000003ull + (t.state << 8)); }
        key = mix2(key, (u64)G->last + 1000 * (u64)G->eintr + 100000ull * G->createfail + 10000000ull * G->spurious + 1000000000ull * G->semfail);
        if (G->cur >= 0 && (G->t[G->cur].op.kind == K_CHOOSE)) key = mix2(key, 0xC400 + G->cur);
        if (table_visit(key, G->cost)) switch_to_controller(ST_PRUNED);
        auto &c = G->cp[G->ncp++];
        c.pos = pos; c.n = n > 30 ? 30 : n; c.base = G->cost;
        for (int i = 0; i < n && i < 30; ++i) c.cost[i] = op[i].cost;
    }
    G->cost += op[0].cost;
    return 0;
}
static int choose_wide(int n)                                // free choice with more than 30 alternatives, split into digits
{
    Opt o[30];
    for (int i = 0; i < 30; ++i) o[i] = Opt{ 0, 0, 0 };
    int res = 0, range = n;
    if (n <= 30) return choose_from(o, n);
    int groups = (range + 29) / 30;
    int g = groups <= 30 ? choose_from(o, groups) : choose_wide(groups);
    ev_local(G->t[G->cur], 7000 + g);
    int k = std::min(30, n - g * 30);
    res = g * 30 + choose_from(o, k);
    return res;
}
static const u64 MAXSTEPS_DEFAULT = 20000;
static u64 g_maxsteps = MAXSTEPS_DEFAULT;

static void deadlock()
{
    char buf[600]; int k = 0;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1)
        k += snprintf(buf + k, sizeof buf - k > 0 ? sizeof buf - k : 0, "%s thread %d%s%s waits in %s", k ? ";" : "", i, G->t[i].name[0] ? " " : "", G->t[i].name, kname[G->t[i].op.kind]);
    set_viol("deadlock", 0, (uptr)__builtin_frame_address(0), "no thread can proceed:%s", buf);
    switch_to_controller(ST_VIOL);
}
// Picks the next thread to execute its pending operation and switches to it.
static void reschedule()
{
    Opt op[30]; int n = 0;
    while (true)
    {
        n = 0;
        const int cur = G->cur; Thread &c = G->t[cur];
        u32 en = 0, cand = 0; int alive = 0;
        for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1) { ++alive; if (op_enabled(G->t[i])) en |= 1u << i; }
        if (!alive) switch_to_controller(ST_COMPLETE);
        if (!en) for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1 && G->t[i].op.kind == K_QUIESCE) { en |= 1u << i; break; }
        // fairness: a thread that yielded waits for the others that were enabled
        for (int i = 0; i < G->nt; ++i) if (en >> i & 1) { G->t[i].ywait &= en; if (!G->t[i].ywait) cand |= 1u << i; }
        if (en && !cand) { for (int i = 0; i < G->nt; ++i) G->t[i].ywait = 0; cand = en; }
        const bool curen = c.state == 1 && (cand >> cur & 1);
        if (curen) op[n++] = Opt{ (u8)cur, V_NORMAL, 0 };
        for (int k = 1; k < MAXT; ++k)
        {
            int i = (cur + k) % MAXT;
            if (i >= G->nt || !(cand >> i & 1)) continue;
            op[n++] = Opt{ (u8)i, V_NORMAL, (u8)(curen || (n && G->sc->flags & MC_DELAY) ? 1 : 0) };
        }
        const bool any = n > 0;
        // timeouts
        u64 best = ~0ull;
        if (!any) for (int i = 0; i < G->nt; ++i) { Thread &t = G->t[i]; if (t.state == 1 && !(en >> i & 1) && (t.op.timed || t.op.kind == K_SLEEP) && t.op.deadline < best) best = t.op.deadline; }
        for (int k = 0; k < MAXT; ++k)
        {
            int i = (cur + k) % MAXT; if (i >= G->nt) continue;
            Thread &t = G->t[i]; OpS &o = t.op;
            if (t.state != 1 || (en >> i & 1)) continue;
            if ((o.timed || o.kind == K_SLEEP) && n < 28)
            {
                if (o.kind == K_CONDBLOCK && obj(o.obj2).val != 0) { if (any) continue; continue; }
                op[n++] = Opt{ (u8)i, V_TIMEOUT, (u8)(any ? 1 : o.deadline == best ? 0 : 1) };
            }
        }
        const int nn = n;
        if (nn == 0)
        {
            // nobody can move. (a signal could still interrupt somebody, but then they must go on waiting)
            deadlock();
        }
        if (!any)
        {   // default option first
            for (int i = 0; i < n; ++i) if (op[i].cost == 0) { std::swap(op[0], op[i]); break; }
        }
        for (int i = 0; i < G->nt && n < 29; ++i)
        {
            Thread &t = G->t[i];
            if (t.state != 1 || (en >> i & 1)) continue;
            if (G->eintr > 0 && t.op.interruptible) op[n++] = Opt{ (u8)i, V_EINTR, (u8)(G->storm ? 0 : 1) };
            if (G->spurious > 0 && t.op.kind == K_CONDBLOCK && !t.sig && obj(t.op.obj2).val == 0) op[n++] = Opt{ (u8)i, V_SPURIOUS, 1 };
        }
        break;
    }
    int pick = choose_from(op, n);
    int to = op[pick].tid;
    Thread &t = G->t[to];
    t.variant = op[pick].var;
    if (t.variant == V_EINTR) { G->eintr--; }
    if (t.variant == V_SPURIOUS) { G->spurious--; }
    if (t.variant == V_TIMEOUT) { Obj &clk = obj(8); if (t.op.deadline > G->now) { G->now = t.op.deadline; ev_write(t, clk, G->now); } else ev_read(t, clk, 1); }
    for (int i = 0; i < G->nt; ++i) G->t[i].ywait &= ~(1u << to);
    if (++G->steps > (G->sc->flags & MC_LONG ? 50 * g_maxsteps : g_maxsteps)) { set_viol("livelock", 0, (uptr)__builtin_frame_address(0), "no end after %lu visible operations", (unsigned long)G->steps); switch_to_controller(ST_VIOL); }
    G->accesses = 0;
    G->last = to;
    if (UNLIKELY(G->trace != nullptr)) describe(G->trace, to, t.variant);
    switch_thread(to);
}
static inline void spin_check(Thread &t, bool read)
{
    if (!read) { t.spin = 0; return; }
    if (++t.spin > 40)
    {
        u32 m = 0;
        for (int i = 0; i < G->nt; ++i) if (i != G->cur && G->t[i].state == 1 && op_enabled(G->t[i])) m |= 1u << i;
        t.ywait = m;
        if (!m && t.spin > 80) { G->now += 1000000; t.spin = 41; ev_write(t, obj(8), G->now); }
    }
}
// Announces the next visible operation of the current thread and returns once it may execute it.
static NOINLINE int point(u8 kind, uptr o, uptr pc, bool read = false)
{
    Thread &t = G->t[G->cur];
    OpS &op = t.op; memset(&op, 0, sizeof op);
    op.kind = kind; op.obj = o; op.pc = pc; op.read = read;
    spin_check(t, read);
    reschedule();
    return t.variant;
}
static int point_op(OpS &o)
{
    Thread &t = G->t[G->cur]; t.op = o;
    spin_check(t, o.read);
    reschedule();
    return t.variant;
}
static inline bool in() { return g_inited && G->cur >= 0; }
static inline Thread &me() { return G->t[G->cur]; }

// ------------------------------------------------------------------------------------------------
// Threads
static void thread_exit_op();
extern "C" void mc_fiber_main()
{
    Thread &t = me();
    t.ret = t.fn(t.arg);
    thread_exit_op();
}
asm(R"(
.text
.type mc_fiber_start,@function
mc_fiber_start:
  xorl %ebp,%ebp
  call mc_fiber_main
  ud2
.size mc_fiber_start,.-mc_fiber_start
)");
extern "C" void mc_fiber_start();

static int new_thread(void *(*fn)(void *), void *arg)
{
    if (G->nt >= MAXT) { VIOL("internal:threads", "too many threads"); }
    int i = G->nt++;
    Thread &t = G->t[i];
    char *tls = t.tls; uptr low = t.low;
    memset(&t, 0, sizeof t);
    t.tls = tls;
    if (G->tlslen) { if (!t.tls) t.tls = (char *)mmap(0, (G->tlslen + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(t.tls, G->tls0, G->tlslen); }
    t.state = 1; t.fn = fn; t.arg = arg;
    uptr bot = R_STACK + i * STACK, top = bot + STACK;
    // no reuse of stale stack contents between executions
    uptr lo = low ? std::max(bot + 4096, low - 2048) : top - 8192;
    memset((void *)lo, 0xA5, top - lo);
    t.low = top - 64;
    uptr *sp = (uptr *)(top - 64);
    *--sp = (uptr)&mc_fiber_start;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    t.sp = sp;
    t.bump = R_ARENA + i * ARENA + 64;
    t.op.kind = K_START;
    t.affinity = 0xffffffffu;
    return i;
}
static void thread_exit_op()
{
    Thread &t = me();
    while (t.nd > 0) { --t.nd; t.dtors[t.nd].f(t.dtors[t.nd].a); }
    point(K_EXIT, (uptr)0x100 + G->cur * 8, 0);
    Obj &o = obj((uptr)0x100 + G->cur * 8);
    ev_write(t, o, 3);
    release_join(t, o);
    if (G->natexit)
    {
        // the last one destroys the function-static objects, as the end of the program would
        bool last = true;
        for (int i = 0; i < G->nt; ++i) if (i != G->cur && G->t[i].state == 1) last = false;
        if (last) for (int i = 0; i < G->nt; ++i) vc_join(t.vc, G->t[i].vc);
        while (last && G->natexit > 0) { auto d = G->atexit[--G->natexit]; d.f(d.a); }
    }
    t.state = 2;
    reschedule();
    __builtin_trap();
}

struct AttrM { u32 magic; int detach, policy, prio, inherit; int has_affinity; u64 stack, affinity; };
static u64 cores() { return G->nproc >= 64 ? ~0ull : (1ull << G->nproc) - 1; }
static AttrM *AM(pthread_attr_t *a) { static_assert(sizeof(AttrM) <= sizeof(pthread_attr_t), ""); return (AttrM *)a; }
EXPORT int pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); AM(a)->magic = 0xA77; return 0; }
EXPORT int pthread_attr_destroy(pthread_attr_t *a) { AM(a)->magic = 0; return 0; }
EXPORT int pthread_attr_setdetachstate(pthread_attr_t *a, int s) { if (s != PTHREAD_CREATE_JOINABLE && s != PTHREAD_CREATE_DETACHED) return EINVAL; AM(a)->detach = s == PTHREAD_CREATE_DETACHED; return 0; }
EXPORT int pthread_attr_setschedpolicy(pthread_attr_t *a, int p) { if (p != SCHED_OTHER && p != SCHED_FIFO && p != SCHED_RR) return EINVAL; AM(a)->policy = p; return 0; }
EXPORT int pthread_attr_setschedparam(pthread_attr_t *a, const sched_param *p)
{
    int mn = AM(a)->policy == SCHED_OTHER ? 0 : 1, mx = AM(a)->policy == SCHED_OTHER ? 0 : 99;
    if (p->sched_priority < mn || p->sched_priority > mx) return EINVAL;
    AM(a)->prio = p->sched_priority; return 0;
}
EXPORT int pthread_attr_setinheritsched(pthread_attr_t *a, int i) { if (i != PTHREAD_INHERIT_SCHED && i != PTHREAD_EXPLICIT_SCHED) return EINVAL; AM(a)->inherit = i; return 0; }
EXPORT int pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { if (s < 16384) return EINVAL; AM(a)->stack = s; return 0; }
EXPORT int pthread_attr_getstacksize(const pthread_attr_t *a, size_t *s) { *s = AM((pthread_attr_t *)a)->stack; return 0; }
EXPORT int pthread_attr_setaffinity_np(pthread_attr_t *a, size_t n, const cpu_set_t *c)
{
    AM(a)->has_affinity = c && n; AM(a)->affinity = 0;
    if (c) memcpy(&AM(a)->affinity, c, std::min<size_t>(n, 8));
    return 0;
}
EXPORT int pthread_attr_getaffinity_np(const pthread_attr_t *a, size_t n, cpu_set_t *c)
{
    AttrM *m = AM((pthread_attr_t *)a); memset(c, m->has_affinity ? 0 : 0xff, n);
    if (m->has_affinity) memcpy(c, &m->affinity, std::min<size_t>(n, 8));
    return 0;
}
EXPORT int pthread_attr_getdetachstate(const pthread_attr_t *a, int *s) { *s = AM((pthread_attr_t *)a)->detach ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE; return 0; }
EXPORT int pthread_attr_getschedpolicy(const pthread_attr_t *a, int *p) { *p = AM((pthread_attr_t *)a)->policy; return 0; }
EXPORT int pthread_attr_getschedparam(const pthread_attr_t *a, sched_param *p) { memset(p, 0, sizeof *p); p->sched_priority = AM((pthread_attr_t *)a)->prio; return 0; }
EXPORT int pthread_attr_getinheritsched(const pthread_attr_t *a, int *i) { *i = AM((pthread_attr_t *)a)->inherit; return 0; }
EXPORT int pthread_attr_setguardsize(pthread_attr_t *, size_t) { return 0; }
EXPORT int pthread_attr_setscope(pthread_attr_t *, int) { return 0; }

static inline int ptid(pthread_t p) { uptr v = (uptr)p; if (v < 0x7000 || v >= 0x7000 + MAXT * 16 || (v & 15)) return -1; return (int)((v - 0x7000) >> 4); }
static inline pthread_t tidp(int i) { return (pthread_t)(0x7000 + i * 16); }

EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!in()) { dprintf(2, "mc: pthread_create outside of an execution\n"); abort(); }
    point(K_CREATE, 16, PC);
    Thread &t = me();
    AttrM *a = (AttrM *)attr;
    if (G->createfail > 0)
    {
        Opt o[2] = { { 0, 0, 0 }, { 0, 0, 1 } };
        t.op.kind = K_CHOOSE;
        int c = choose_from(o, 2);
        ev_local(t, 900 + c);
        if (c)
        {
            G->createfail--;
            // glibc stores the (soon stale) thread id before it knows whether the kernel accepts the thread
            access((uptr)th, sizeof *th, true, false, PC);
            *th = (pthread_t)(0x6f00);
            if (G->trace) fprintf(G->trace, "      pthread_create refused (EAGAIN)\n");
            return EAGAIN;
        }
    }
    if (a && a->magic != 0xA77) { VIOL("misuse", "pthread_create with an uninitialised attribute object"); }
    if (a && a->inherit == PTHREAD_EXPLICIT_SCHED && a->policy != SCHED_OTHER && a->prio < 1) return EINVAL;
    if (a && a->inherit == PTHREAD_EXPLICIT_SCHED && a->policy != SCHED_OTHER && !G->rtprio) return EPERM;
    if (a && a->has_affinity && !(a->affinity & cores())) { access((uptr)th, sizeof *th, true, false, PC); *th = (pthread_t)(0x6f00); return EINVAL; }
    access((uptr)th, sizeof *th, true, false, PC);
    int self = G->cur;
    int i = new_thread(fn, arg);
    Thread &n = G->t[i];
    Thread &p = G->t[self];
    n.vc = p.vc; n.vc.c[i] = 1;
    n.h = mix2(p.h, 0x1234 + i);
    if (a) { n.detached = a->detach; n.stacksize = a->stack; if (a->inherit == PTHREAD_EXPLICIT_SCHED) { n.policy = a->policy; n.prio = a->prio; } else { n.policy = p.policy; n.prio = p.prio; } }
    else { n.policy = p.policy; n.prio = p.prio; }
    memcpy(n.name, p.name, 16);
    n.affinity = a && a->has_affinity ? a->affinity & cores() : p.affinity;
    ev_write(p, obj(16), i);
    tick(p);
    *th = tidp(i);
    return 0;
}
EXPORT int pthread_join(pthread_t th, void **ret)
{
    int i = ptid(th);
    if (i < 0 || i >= G->nt) { VIOL("misuse", "pthread_join of an invalid thread"); return ESRCH; }
    OpS o{}; o.kind = K_JOIN; o.obj = 0x100 + i * 8; o.pc = PC; o.arg = i;
    if (i == G->cur) return EDEADLK;
    if (G->t[i].detached || G->t[i].joined) { VIOL("misuse", "pthread_join of a detached or already joined thread %d", i); return EINVAL; }
    point_op(o);
    Thread &t = me(); Obj &b = obj(o.obj);
    if (G->t[i].joined || G->t[i].detached) { VIOL("misuse", "thread %d joined twice", i); }
    ev_write(t, b, 4); acquire(t, b);
    G->t[i].joined = 1;
    if (ret) *ret = G->t[i].ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t th)
{
    int i = ptid(th);
    if (i < 0 || i >= G->nt) { VIOL("misuse", "pthread_detach of an invalid thread"); return ESRCH; }
    point(K_DETACH, 0x100 + i * 8, PC);
    if (G->t[i].detached || G->t[i].joined) { VIOL("misuse", "pthread_detach of a detached or joined thread %d", i); return EINVAL; }
    ev_write(me(), obj(0x100 + i * 8), 5);
    G->t[i].detached = 1;
    return 0;
}
EXPORT int pthread_cancel(pthread_t th)
{
    int i = ptid(th);
    if (i < 0 || i >= G->nt) return ESRCH;
    point(K_DETACH, 0x100 + i * 8, PC);
    ev_write(me(), obj(0x100 + i * 8), 6);
    G->t[i].cancelled = 1;
    if (G->t[i].state == 1 && i != G->cur) { G->t[i].state = 2; }
    return 0;
}
EXPORT pthread_t pthread_self() { return in() ? tidp(G->cur) : (pthread_t)0x7ff0; }
EXPORT int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
EXPORT int pthread_setname_np(pthread_t th, const char *name)
{
    int i = ptid(th); if (i < 0) return ESRCH;
    size_t n = strlen(name); if (n > 15) return ERANGE;
    if (i != G->cur) point(K_THRATTR, 0x300 + i * 8, PC);
    if (G->t[i].state == 2) { ev_read(me(), obj(0x300 + i * 8), 7); return ENOENT; }
    ev_write(me(), obj(0x300 + i * 8), 1);
    memset(G->t[i].name, 0, 16); memcpy(G->t[i].name, name, n);
    return 0;
}
EXPORT int pthread_getname_np(pthread_t th, char *buf, size_t n)
{
    int i = ptid(th); if (i < 0) return ESRCH; if (n < 16) return ERANGE;
    if (i != G->cur) point(K_THRATTR, 0x300 + i * 8, PC, true);
    ev_read(me(), obj(0x300 + i * 8), 8);
    if (G->t[i].state == 2) return ENOENT;
    memcpy(buf, G->t[i].name, 16); return 0;
}
EXPORT int pthread_setaffinity_np(pthread_t th, size_t n, const cpu_set_t *s)
{
    int i = ptid(th); if (i < 0) { if (in()) VIOL("misuse", "pthread_setaffinity_np on an invalid thread handle"); return ESRCH; }
    point(K_THRATTR, 0x300 + i * 8, PC);
    // glibc passes the kernel id of the thread, which is 0 once it has exited: 0 means the caller
    Thread &t = G->t[i].state == 2 ? me() : G->t[i];
    ev_write(me(), obj(0x300 + i * 8), 2);
    if (G->t[i].joined) { VIOL("misuse", "pthread_setaffinity_np on a joined thread"); }
    u64 m = 0; memcpy(&m, s, std::min<size_t>(n, 8));
    if (!(m & cores())) return EINVAL;
    t.affinity = m & cores(); return 0;
}
EXPORT int pthread_getaffinity_np(pthread_t th, size_t n, cpu_set_t *s)
{
    int i = ptid(th); if (i < 0) return ESRCH;
    point(K_THRATTR, 0x300 + i * 8, PC, true);
    ev_read(me(), obj(0x300 + i * 8), 3);
    memset(s, 0, n); u64 m = (G->t[i].state == 2 ? me() : G->t[i]).affinity & cores(); memcpy(s, &m, std::min<size_t>(n, 8)); return 0;
}
EXPORT int pthread_setschedprio(pthread_t th, int prio)
{
    int i = ptid(th); if (i < 0) return ESRCH;
    point(K_THRATTR, 0x300 + i * 8, PC);
    ev_write(me(), obj(0x300 + i * 8), 4);
    Thread &t = G->t[i];
    if (t.state == 2) return ESRCH;
    if (t.policy == SCHED_OTHER) return prio == 0 ? 0 : EINVAL;
    if (prio < 1 || prio > 99) return EINVAL;
    if (!G->rtprio) return EPERM;
    t.prio = prio; return 0;
}
EXPORT int pthread_setschedparam(pthread_t th, int pol, const sched_param *p)
{
    int i = ptid(th); if (i < 0) return ESRCH;
    point(K_THRATTR, 0x300 + i * 8, PC);
    ev_write(me(), obj(0x300 + i * 8), 5);
    if (G->t[i].state == 2) return ESRCH;
    if (pol != SCHED_OTHER ? (p->sched_priority < 1 || p->sched_priority > 99) : p->sched_priority != 0) return EINVAL;
    if (pol != SCHED_OTHER && !G->rtprio) return EPERM;
    G->t[i].policy = pol; G->t[i].prio = p->sched_priority; return 0;
}
EXPORT int pthread_getschedparam(pthread_t th, int *pol, sched_param *p)
{
    int i = ptid(th); if (i < 0) return ESRCH;
    point(K_THRATTR, 0x300 + i * 8, PC, true);
    ev_read(me(), obj(0x300 + i * 8), 6);
    if (G->t[i].state == 2) return ESRCH;
    *pol = G->t[i].policy; p->sched_priority = G->t[i].prio; return 0;
}
EXPORT int getrlimit(__rlimit_resource_t r, struct rlimit *l)
{
    if (in() && r == __RLIMIT_RTPRIO) { l->rlim_cur = l->rlim_max = G->rtprio ? 99 : 0; return 0; }
    return (int)syscall(SYS_prlimit64, 0, r, nullptr, l);
}
EXPORT long sysconf(int n)
{
    static long (*real)(int) = nullptr;
    if (in() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return G->nproc;
    if (in()) return -1;
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}
EXPORT int sched_getcpu() { return 0; }
EXPORT int sched_yield()
{
    if (!in()) return 0;
    mc_yield(); return 0;
}
EXPORT void mc_yield()
{
    if (!in()) return;
    Thread &t = me();
    u32 m = 0;
    for (int i = 0; i < G->nt; ++i) if (i != G->cur && G->t[i].state == 1 && op_enabled(G->t[i])) m |= 1u << i;
    t.ywait = m; t.spin = 0;
    if (!m) { // nobody else can run: let time pass
        G->now += 1000000; ev_write(t, obj(8), G->now);
    }
    point(K_YIELD, 0, PC);
    ev_local(me(), 11);
}
EXPORT void pthread_exit(void *r) { Thread &t = me(); t.ret = r; thread_exit_op(); __builtin_trap(); }
EXPORT void pthread_testcancel() {}
EXPORT int __cxa_thread_atexit(void (*f)(void *), void *a, void *)
{
    if (!in()) return 0;
    Thread &t = me(); if (t.nd < 8) { t.dtors[t.nd].f = f; t.dtors[t.nd].a = a; t.nd++; }
    return 0;
}
// Function-static objects initialised during an execution are destroyed at its end; the ones
// initialised before main() belong to the initial state and never are.
EXPORT int __cxa_atexit(void (*f)(void *), void *a, void *)
{
    if (!in()) return 0;
    if (G->natexit == 32) { VIOL("internal:atexit", "too many function-static objects"); }
    G->atexit[G->natexit].f = f; G->atexit[G->natexit].a = a; G->natexit++;
    return 0;
}

// ------------------------------------------------------------------------------------------------
// Clock
static void ns_to_ts(u64 ns, timespec *t) { t->tv_sec = ns / 1000000000ull; t->tv_nsec = ns % 1000000000ull; }
// The monotonic clock differs from the real-time clock by a constant, so that mixing them up shows.
static const u64 MONO_OFF = 900000ull * 1000000000ull;
static inline bool is_mono(clockid_t id) { return id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME; }
static inline u64 from_now(clockid_t id) { return is_mono(id) && G->now > MONO_OFF ? G->now - MONO_OFF : G->now; }
static inline u64 to_real(clockid_t id, u64 ns) { return is_mono(id) && ns < ~0ull - MONO_OFF ? ns + MONO_OFF : ns; }
EXPORT int clock_gettime(clockid_t id, timespec *ts)
{
    if (!in()) return (int)syscall(SYS_clock_gettime, id, ts);
    Thread &t = me();
    ev_read(t, obj(8), 9);
    ev_local(t, G->now);
    spin_check(t, true);
    if (t.spin > 41) { point(K_YIELD, 0, PC, true); }
    if (G->tick) { G->now += G->tick; ev_write(t, obj(8), G->now); }
    ns_to_ts(from_now(id), ts);
    return 0;
}
EXPORT int gettimeofday(timeval *tv, void *) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *p) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static u64 ts_ns(const timespec *t) { if (t->tv_sec < 0) return 0; if ((u64)t->tv_sec > 9000000000ull) return ~0ull; return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
static int do_sleep(u64 until, uptr pc)
{
    OpS o{}; o.kind = K_SLEEP; o.deadline = until; o.pc = pc; o.interruptible = 1;
    if (until <= G->now) { mc_yield(); return 0; }
    int v = point_op(o);
    Thread &t = me(); t.spin = 0;
    ev_read(t, obj(8), 10 + v);
    return v == V_EINTR ? EINTR : 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const timespec *rq, timespec *rem)
{
    if (!in()) return 0;
    if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) return EINVAL;
    u64 until = (flags & TIMER_ABSTIME) ? to_real(id, ts_ns(rq)) : G->now + ts_ns(rq);
    int r = do_sleep(until, PC);
    if (r && rem && !(flags & TIMER_ABSTIME)) ns_to_ts(until - G->now, rem);
    return r;
}
EXPORT int nanosleep(const timespec *rq, timespec *rem)
{
    int r = clock_nanosleep(CLOCK_REALTIME, 0, rq, rem);
    if (r) { errno = r; return -1; } return 0;
}
EXPORT int usleep(useconds_t us) { timespec t; ns_to_ts((u64)us * 1000, &t); return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { timespec t; ns_to_ts((u64)s * 1000000000ull, &t); nanosleep(&t, nullptr); return 0; }

// ------------------------------------------------------------------------------------------------
// Mutexes, condition variables, rwlocks, once
static void touch_mem(const volatile void *p, size_t n, uptr pc) { access((uptr)p, n, true, true, pc); }
EXPORT int pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
EXPORT int pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
EXPORT int pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
static int mtype(pthread_mutex_t *m) { return m->__data.__kind & 3; }
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m); if (a) m->__data.__kind = *(const int *)a;
    if (!in()) return 0;
    access((uptr)m, 8, true, false, PC);
    Obj &o = obj((uptr)m); o.val = 0; o.aux = 0; ev_write(me(), o, 1);
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (!in()) return 0;
    access((uptr)m, 8, true, false, PC);
    Obj &o = obj((uptr)m);
    if (o.val) { VIOL("misuse", "destroying a locked mutex"); }
    ev_write(me(), o, 2);
    return 0;
}
static int lock_common(pthread_mutex_t *m, u8 kind, u64 deadline, uptr pc)
{
    touch_mem(m, 8, pc);
    Obj &o = obj((uptr)m);
    const int self = G->cur + 1;
    if (o.val == self)
    {
        if (mtype(m) == PTHREAD_MUTEX_RECURSIVE) { o.aux++; ev_write(me(), o, 3); return 0; }
        if (mtype(m) == PTHREAD_MUTEX_ERRORCHECK && kind != K_TRYLOCK) return EDEADLK;
    }
    if (kind == K_TRYLOCK)
    {
        if (!S->trylock_used) S->trylock_used = 1;
        point(K_TRYLOCK, (uptr)m, pc);
        if (o.val) { ev_read(me(), o, 4); return EBUSY; }
    }
    else
    {
        OpS op{}; op.kind = kind; op.obj = (uptr)m; op.pc = pc; op.deadline = deadline; op.timed = kind == K_TIMEDLOCK;
        int v = point_op(op);
        if (v == V_TIMEOUT) { ev_read(me(), o, 5); return ETIMEDOUT; }
    }
    o.val = self;
    ev_write(me(), o, 6);
    acquire(me(), o);
    touch_mem(m, 8, pc);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { if (!in()) return 0; return lock_common(m, K_LOCK, 0, PC); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { if (!in()) return 0; return lock_common(m, K_TRYLOCK, 0, PC); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) { if (!in()) return 0; return lock_common(m, K_TIMEDLOCK, ts_ns(ts), PC); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t id, const timespec *ts) { if (!in()) return 0; return lock_common(m, K_TIMEDLOCK, to_real(id, ts_ns(ts)), PC); }
static int unlock_common(pthread_mutex_t *m, uptr pc)
{
    touch_mem(m, 8, pc);
    Obj &o = obj((uptr)m);
    if (o.val != G->cur + 1) { VIOL("misuse", "unlocking a mutex that is not held by the caller"); return EPERM; }
    if (o.aux > 0) { o.aux--; ev_write(me(), o, 3); return 0; }
    if (G->unlockpts) point(K_UNLOCK, (uptr)m, pc);
    o.val = 0;
    ev_write(me(), o, 7);
    release_set(me(), o);
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) { if (!in()) return 0; return unlock_common(m, PC); }

EXPORT int pthread_condattr_init(pthread_condattr_t *) { return 0; }
EXPORT int pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
EXPORT int pthread_condattr_setclock(pthread_condattr_t *, clockid_t) { return 0; }
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); if (in()) { access((uptr)c, 8, true, false, PC); ev_write(me(), obj((uptr)c), 1); } return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c) { if (in()) { access((uptr)c, 8, true, false, PC); ev_write(me(), obj((uptr)c), 2); } return 0; }
static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline, bool timed, uptr pc)
{
    touch_mem(c, 8, pc);
    point(K_CONDENTER, (uptr)c, pc);
    Obj &o = obj((uptr)c), &mo = obj((uptr)m);
    if (mo.val != G->cur + 1) { VIOL("misuse", "waiting on a condition variable without holding the mutex"); }
    mo.val = 0; ev_write(me(), mo, 7); release_set(me(), mo);
    ev_write(me(), o, 3);
    me().sig = 0;
    OpS op{}; op.kind = K_CONDBLOCK; op.obj = (uptr)c; op.obj2 = (uptr)m; op.pc = pc; op.timed = timed; op.deadline = deadline;
    int v = point_op(op);
    Thread &t = me();
    ev_write(t, o, 4 + v);
    mo.val = G->cur + 1; ev_write(t, mo, 6); acquire(t, mo);
    t.sig = 0;
    return v == V_TIMEOUT ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!in()) return 0; return cond_wait_common(c, m, 0, false, PC); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) { if (!in()) return 0; return cond_wait_common(c, m, ts_ns(ts), true, PC); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const timespec *ts) { if (!in()) return 0; return cond_wait_common(c, m, to_real(id, ts_ns(ts)), true, PC); }
static int cond_wake(pthread_cond_t *c, bool all, uptr pc)
{
    touch_mem(c, 8, pc);
    point(all ? K_CONDBCAST : K_CONDSIGNAL, (uptr)c, pc);
    int w[MAXT], n = 0;
    for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1 && G->t[i].op.kind == K_CONDBLOCK && G->t[i].op.obj == (uptr)c && !G->t[i].sig) w[n++] = i;
    ev_write(me(), obj((uptr)c), 8 + all);
    if (!n) return 0;
    if (all) { for (int i = 0; i < n; ++i) G->t[w[i]].sig = 1; return 0; }
    int k = 0;
    if (n > 1) { Opt o[30]; for (int i = 0; i < n; ++i) o[i] = Opt{ 0, 0, 0 }; me().op.kind = K_CHOOSE; k = choose_from(o, n); ev_local(me(), 20 + k); }
    G->t[w[k]].sig = 1;
    return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) { if (!in()) return 0; return cond_wake(c, false, PC); }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) { if (!in()) return 0; return cond_wake(c, true, PC); }

EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); if (in()) access((uptr)l, 8, true, false, PC); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (in()) access((uptr)l, 8, true, false, PC); return 0; }
static int rw_lock(pthread_rwlock_t *l, bool wr, bool tr, uptr pc)
{
    touch_mem(l, 8, pc);
    Obj &o = obj((uptr)l);
    if (tr)
    {
        if (!S->trylock_used) S->trylock_used = 1;
        point(K_RWTRY, (uptr)l, pc);
        if (wr ? o.val != 0 : o.val < 0) { ev_read(me(), o, 4); return EBUSY; }
    }
    else point(wr ? K_WRLOCK : K_RDLOCK, (uptr)l, pc);
    o.val = wr ? -1 : o.val + 1;
    ev_write(me(), o, 6); acquire(me(), o);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!in()) return 0; return rw_lock(l, false, false, PC); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!in()) return 0; return rw_lock(l, true, false, PC); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!in()) return 0; return rw_lock(l, false, true, PC); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!in()) return 0; return rw_lock(l, true, true, PC); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!in()) return 0;
    touch_mem(l, 8, PC);
    Obj &o = obj((uptr)l);
    if (!o.val) { VIOL("misuse", "unlocking an unlocked rwlock"); }
    if (G->unlockpts) point(K_RWUNLOCK, (uptr)l, PC);
    o.val = o.val < 0 ? 0 : o.val - 1;
    ev_write(me(), o, 7); release_join(me(), o);
    return 0;
}
EXPORT int pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t *l)
{
    if (!in()) return 0;
    touch_mem((void *)l, 4, PC); Obj &o = obj((uptr)l);
    OpS op{}; op.kind = K_LOCK; op.obj = (uptr)l; op.pc = PC; point_op(op);
    o.val = G->cur + 1; ev_write(me(), o, 6); acquire(me(), o); return 0;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t *l)
{
    if (!in()) return 0;
    Obj &o = obj((uptr)l); o.val = 0; ev_write(me(), o, 7); release_set(me(), o); return 0;
}
EXPORT int pthread_once(pthread_once_t *once, void (*fn)())
{
    if (!in()) { if (*once == 0) { *once = 2; fn(); } return 0; }
    touch_mem(once, 4, PC);
    Obj &o = obj((uptr)once);
    OpS op{}; op.kind = K_GUARD; op.obj = (uptr)once; op.pc = PC; point_op(op);
    if (*once == 2) { ev_read(me(), o, 1); acquire(me(), o); return 0; }
    o.val = G->cur + 1; ev_write(me(), o, 2);
    fn();
    *once = 2; o.val = 0; ev_write(me(), o, 3); release_join(me(), o);
    return 0;
}
EXPORT int __cxa_guard_acquire(u64 *g)
{
    u8 *b = (u8 *)g;
    if (!in()) { return *b == 0; }
    Obj &o = obj((uptr)g);
    OpS op{}; op.kind = K_GUARD; op.obj = (uptr)g; op.pc = PC; 
    if (o.val == G->cur + 1) { VIOL("misuse", "recursive initialisation of a function-static object"); }
    point_op(op);
    access((uptr)g, 1, false, true, PC);
    if (*b) { ev_read(me(), o, 1); acquire(me(), o); return 0; }
    o.val = G->cur + 1; ev_write(me(), o, 2);
    return 1;
}
EXPORT void __cxa_guard_release(u64 *g)
{
    u8 *b = (u8 *)g; *b = 1;
    if (!in()) return;
    access((uptr)g, 1, true, true, PC);
    Obj &o = obj((uptr)g); o.val = 0; ev_write(me(), o, 3); release_join(me(), o);
}
EXPORT void __cxa_guard_abort(u64 *g)
{
    if (!in()) return;
    Obj &o = obj((uptr)g); o.val = 0; ev_write(me(), o, 4);
}

// ------------------------------------------------------------------------------------------------
// POSIX semaphores
static const uptr SEM_OBJ_OFF = 0;
static Obj *sem_obj(sem_t *s, uptr pc, const char *what)
{
    if ((uptr)s < 4096) { VIOL("null-semaphore", "%s on a null semaphore", what); return nullptr; }
    Obj &o = obj((uptr)s);
    if (o.kind == 2)                                         // named
    {
        for (int i = 0; i < G->nns; ++i) if (G->nsems[i].addr == (uptr)s)
        {
            if (G->nsems[i].refs <= 0) VIOL("use-after-close", "%s on a closed named semaphore", what);
            return &o;
        }
    }
    touch_mem(s, sizeof(sem_t), pc);
    if (o.state != OS_LIVE) VIOL("use-after-destroy", "%s on a semaphore that is not initialised (or was destroyed)", what);
    return &o;
}
EXPORT int sem_init(sem_t *s, int, unsigned v)
{
    if (!in()) { return 0; }
    if (v > 0x7fffffffu) { errno = EINVAL; return -1; }
    access((uptr)s, sizeof(sem_t), true, false, PC);
    Obj &o = obj((uptr)s);
    if (o.state == OS_LIVE) VIOL("misuse", "sem_init on an initialised semaphore");
    o.state = OS_LIVE; o.kind = 1; o.val = (int)v; memset(&o.vc, 0, sizeof o.vc);
    ev_write(me(), o, 1); G->semlocal++;
    return 0;
}
EXPORT int sem_destroy(sem_t *s)
{
    if (!in()) return 0;
    Obj *o = sem_obj(s, PC, "sem_destroy"); if (!o) return -1;
    if (o->kind == 2) VIOL("misuse", "sem_destroy on a named semaphore");
    access((uptr)s, sizeof(sem_t), true, false, PC);
    for (int i = 0; i < G->nt; ++i) if (G->t[i].state == 1 && i != G->cur && (G->t[i].op.kind == K_SEMWAIT || G->t[i].op.kind == K_SEMTIMED) && G->t[i].op.obj == (uptr)s)
        VIOL("destroy-while-waiting", "sem_destroy while thread %d waits", i);
    o->state = OS_DEAD; ev_write(me(), *o, 2); G->semlocal--;
    return 0;
}
static int sem_wait_common(sem_t *s, u8 kind, u64 deadline, uptr pc)
{
    Obj *o = sem_obj(s, pc, kname[kind]); if (!o) { errno = EINVAL; return -1; }
    int v = V_NORMAL;
    if (kind == K_SEMTRY) point(K_SEMTRY, (uptr)s, pc);
    else { OpS op{}; op.kind = kind; op.obj = (uptr)s; op.pc = pc; op.deadline = deadline; op.timed = kind == K_SEMTIMED; op.interruptible = 1; v = point_op(op); }
    sem_obj(s, pc, kname[kind]);
    Thread &t = me();
    if (v == V_EINTR) { ev_read(t, *o, 8); errno = EINTR; return -1; }
    if (o->val <= 0)
    {
        ev_read(t, *o, 9);
        errno = kind == K_SEMTRY ? EAGAIN : ETIMEDOUT;
        if (G->trace) fprintf(G->trace, "      -> fails\n");
        return -1;
    }
    if (kind != K_SEMTRY) t.spin = 0;
    o->val--;
    ev_write(t, *o, 10); acquire(t, *o);
    return 0;
}
EXPORT int sem_wait(sem_t *s) { if (!in()) return 0; return sem_wait_common(s, K_SEMWAIT, 0, PC); }
EXPORT int sem_trywait(sem_t *s) { if (!in()) return 0; return sem_wait_common(s, K_SEMTRY, 0, PC); }
EXPORT int sem_timedwait(sem_t *s, const timespec *ts)
{
    if (!in()) return 0;
    if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { ev_local(me(), 31); errno = EINVAL; return -1; }
    return sem_wait_common(s, K_SEMTIMED, ts_ns(ts), PC);
}
EXPORT int sem_clockwait(sem_t *s, clockid_t id, const timespec *ts) { timespec t = *ts; if (is_mono(id)) t.tv_sec += MONO_OFF / 1000000000ull; return sem_timedwait(s, &t); }
EXPORT int sem_post(sem_t *s)
{
    if (!in()) return 0;
    Obj *o = sem_obj(s, PC, "sem_post"); if (!o) { errno = EINVAL; return -1; }
    point(K_SEMPOST, (uptr)s, PC);
    sem_obj(s, PC, "sem_post");
    Thread &t = me();
    if (o->val == 0x7fffffff) { ev_read(t, *o, 11); errno = EOVERFLOW; return -1; }
    o->val++;
    ev_write(t, *o, 12); release_join(t, *o);
    return 0;
}
EXPORT int sem_getvalue(sem_t *s, int *v)
{
    if (!in()) { *v = 0; return 0; }
    Obj *o = sem_obj(s, PC, "sem_getvalue"); if (!o) { errno = EINVAL; return -1; }
    point(K_SEMVAL, (uptr)s, PC, true);
    sem_obj(s, PC, "sem_getvalue");
    ev_read(me(), *o, 13);
    access((uptr)v, 4, true, false, PC);
    *v = o->val;
    return 0;
}
// named semaphores. The namespace itself is one shared object.
static const uptr NSOBJ = 24;
EXPORT sem_t *sem_open(const char *name, int flag, ...)
{
    if (!in()) { errno = ENOSYS; return SEM_FAILED; }
    unsigned value = 0;
    if (flag & O_CREAT) { va_list ap; va_start(ap, flag); (void)va_arg(ap, unsigned); value = va_arg(ap, unsigned); va_end(ap); }
    point(K_SEMOPEN, NSOBJ, PC);
    Thread &t = me();
    const char *n = name; while (*n == '/') ++n;
    u64 nh = 0; for (const char *c = n; *c; ++c) nh = mix(nh * 31 + (u8)*c);
    ev_write(t, obj(NSOBJ), mix(flag) + value + nh);
    if (G->semfail > 0 && mc_deviate(2)) { G->semfail--; errno = EMFILE; if (G->trace) fprintf(G->trace, "      sem_open(%s) -> EMFILE\n", name); return SEM_FAILED; }
    if (strlen(n) > 251 && !strchr(n, '/')) { errno = ENAMETOOLONG; return SEM_FAILED; }
    if (!*n || strchr(n, '/')) { errno = EINVAL; if (G->trace) fprintf(G->trace, "      sem_open(%s) -> EINVAL\n", name); return SEM_FAILED; }
    for (int i = 0; i < G->nn; ++i) if (G->names[i].sem && !strcmp(G->names[i].name, n))
    {
        if ((flag & O_CREAT) && (flag & O_EXCL)) { errno = EEXIST; if (G->trace) fprintf(G->trace, "      sem_open(%s) -> EEXIST\n", name); return SEM_FAILED; }
        for (int k = 0; k < G->nns; ++k) if (G->nsems[k].addr == G->names[i].sem)
        {
            G->nsems[k].refs++; G->semopen++;
            if (G->trace) fprintf(G->trace, "      sem_open(%s) opens the existing semaphore\n", name);
            return (sem_t *)G->nsems[k].addr;
        }
    }
    if (!(flag & O_CREAT)) { errno = ENOENT; if (G->trace) fprintf(G->trace, "      sem_open(%s) -> ENOENT\n", name); return SEM_FAILED; }
    if (value > 0x7fffffffu) { errno = EINVAL; return SEM_FAILED; }
    int i = 0; while (i < G->nn && G->names[i].sem) ++i;
    if (i == G->nn) { if (G->nn >= 32) VIOL("internal:names", "too many names"); G->nn++; }
    if (G->nns >= 32) VIOL("internal:names", "too many named semaphores");
    snprintf(G->names[i].name, sizeof G->names[i].name, "%s", n);
    uptr a = R_INIT + INITSZ - 4096 + G->nns * 64; // inside a known region, never allocated by the allocator
    G->names[i].sem = a;
    G->nsems[G->nns].addr = a; G->nsems[G->nns].refs = 1; G->nns++; G->semopen++;
    Obj &o = obj(a); o.kind = 2; o.state = OS_LIVE; o.val = (int)value; ev_write(t, o, 1);
    if (G->trace) fprintf(G->trace, "      sem_open(%s) creates it with count %u\n", name, value);
    return (sem_t *)a;
}
EXPORT int sem_close(sem_t *s)
{
    if (!in()) return 0;
    Obj *o = sem_obj(s, PC, "sem_close"); if (!o) { errno = EINVAL; return -1; }
    if (o->kind != 2) { VIOL("misuse", "sem_close on an unnamed semaphore"); }
    point(K_SEMCLOSE, NSOBJ, PC);
    ev_write(me(), obj(NSOBJ), 2);
    for (int k = 0; k < G->nns; ++k) if (G->nsems[k].addr == (uptr)s)
    {
        if (G->nsems[k].refs <= 0) VIOL("use-after-close", "sem_close on a closed semaphore");
        G->nsems[k].refs--; G->semopen--;
    }
    return 0;
}
EXPORT int sem_unlink(const char *name)
{
    if (!in()) return 0;
    point(K_SEMUNLINK, NSOBJ, PC);
    ev_write(me(), obj(NSOBJ), 3);
    const char *n = name; while (*n == '/') ++n;
    for (int i = 0; i < G->nn; ++i) if (G->names[i].sem && !strcmp(G->names[i].name, n)) { G->names[i].sem = 0; if (G->trace) fprintf(G->trace, "      sem_unlink(%s)\n", name); return 0; }
    errno = strlen(n) > 251 && strlen(n) < 256 && !strchr(n, '/') ? ENAMETOOLONG : ENOENT; return -1;
}
EXPORT int mc_sem_names() { int k = 0; for (int i = 0; i < G->nn; ++i) k += G->names[i].sem != 0; return k; }
EXPORT int mc_sem_exists(const char *name) { for (int i = 0; i < G->nn; ++i) if (G->names[i].sem && !strcmp(G->names[i].name, name)) return 1; return 0; }
EXPORT int mc_sem_open_handles() { return G->semopen; }
EXPORT int mc_sem_local_live() { return G->semlocal; }
EXPORT int mc_sem_value(const void *s) { return obj((uptr)s).val; }
EXPORT void mc_sem_unlink_all() { for (int i = 0; i < G->nn; ++i) G->names[i].sem = 0; }

// ------------------------------------------------------------------------------------------------
// Reference counts (no scheduling points)
EXPORT int mc_ref_add(volatile int *p, int v)
{
    if (!in()) { int o = *p; *p = o + v; return o; }
    access((uptr)p, 4, true, true, PC);
    // giving up the last reference can only be told apart from outside by a weak reference
    if (v < 0 && *p == 1 && G->unlockpts) point(K_ATOMIC_WR, (uptr)p, PC);
    Thread &t = me(); Obj &o = obj((uptr)p);
    int old = *p; *p = old + v;
    if (old <= 0 && v < 0) VIOL("refcount", "reference count dropped below zero");
    if (v > 0) { ev_local(t, 50); }
    else if (old + v == 0) { ev_local(t, 51); }              // this thread disposes of the object
    else ev_local(t, 52);
    acquire(t, o); release_join(t, o);
    return old;
}
EXPORT int mc_ref_load(const volatile int *p)
{
    if (!in()) return *p;
    access((uptr)p, 4, false, true, PC);
    if (!S->trylock_used) S->trylock_used = 1;
    point(K_ATOMIC_RD, (uptr)p, PC, true);
    access((uptr)p, 4, false, true, PC);
    Thread &t = me(); Obj &o = obj((uptr)p);
    acquire(t, o); ev_local(t, 60 + *p);
    return *p;
}
EXPORT long long mc_ref_load2(const volatile long long *p)
{
    if (!in()) return *p;
    access((uptr)p, 4, false, true, PC); access((uptr)p + 4, 4, false, true, PC);
    Thread &t = me();
    long long v = *p;
    if (v == 0x100000001ll) { acquire(t, obj((uptr)p)); acquire(t, obj((uptr)p + 4)); ev_local(t, 51); }
    return v;
}
EXPORT bool mc_ref_cas(volatile int *p, int *e, int v)
{
    if (!in()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; }
    access((uptr)p, 4, true, true, PC);
    Thread &t = me(); Obj &o = obj((uptr)p);
    bool ok = *p == *e;
    if (ok) *p = v; else *e = *p;
    acquire(t, o); release_join(t, o);
    ev_local(t, 70 + ok);
    return ok;
}

// ------------------------------------------------------------------------------------------------
// TSan entry points
EXPORT void __tsan_init() { ensure_init(); }
#define RW(n) \
    EXPORT void __tsan_read##n(void *a) { access((uptr)a, n, false, false, PC); } \
    EXPORT void __tsan_write##n(void *a) { access((uptr)a, n, true, false, PC); } \
    EXPORT void __tsan_unaligned_read##n(void *a) { access((uptr)a, n, false, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void *a) { access((uptr)a, n, true, false, PC); } \
    EXPORT void __tsan_volatile_read##n(void *a) { access((uptr)a, n, false, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void *a) { access((uptr)a, n, true, false, PC); } \
    EXPORT void __tsan_read_write##n(void *a) { access((uptr)a, n, true, false, PC); } \
    EXPORT void __tsan_unaligned_read_write##n(void *a) { access((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, uptr n) { access((uptr)a, n, false, false, PC); }
EXPORT void __tsan_write_range(void *a, uptr n) { access((uptr)a, n, true, false, PC); }
EXPORT void __tsan_vptr_read(void **a) { access((uptr)a, 8, false, false, PC); }
EXPORT void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uptr)a, 8, true, false, PC); else access((uptr)a, 8, false, false, PC); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void *__tsan_memcpy(void *d, const void *s, uptr n) { if (n) { access((uptr)s, n, false, false, PC); access((uptr)d, n, true, false, PC); } return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, uptr n) { if (n) { access((uptr)s, n, false, false, PC); access((uptr)d, n, true, false, PC); } return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, uptr n) { if (n) access((uptr)d, n, true, false, PC); return memset(d, c, n); }

EXPORT int mc_vsnprintf(char *s, size_t n, const char *f, va_list a)
{
    if (!in()) return vsnprintf(s, n, f, a);
    char b[16384]; const int k = vsnprintf(b, sizeof b, f, a); if (k < 0 || !n) return k;      // nothing is written beyond the access checked here
    const uptr m = std::min<uptr>(std::min<uptr>(n - 1, sizeof b - 1), (uptr)k); access((uptr)s, m + 1, true, false, PC); memcpy(s, b, m); s[m] = 0; return k;
}
EXPORT int mc_snprintf(char *s, size_t n, const char *f, ...) { va_list a; va_start(a, f); const int k = mc_vsnprintf(s, n, f, a); va_end(a); return k; }
static inline bool mo_acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool mo_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline void a_acquire(Thread &t, Obj &o, int mo) { if (mo_acq(mo)) acquire(t, o); else { vc_join(t.acqf, o.vc); t.has_acqf = 1; } }

// Atomic operations weaker than seq_cst: a load that is not ordered after the last write (by what happens before it, or
// by what has been seen before it) may return what was there before. A deviation (does not happen by default).
static inline Sub *sub_of(uptr a) { Cell *c = cell_of(a); return !c || c->tag != G->tag ? nullptr : c->split ? &G->sub[c->sx][a & 7] : &c->s; }
static inline void at_written(Thread &t, Obj &o, uptr p, u64 old, u64 now, int mo)   // before the write's effects on the clocks
{
    const Sub *s = sub_of(p);
    o.hist = s != nullptr; if (!s) return;
    o.wn = ++G->nwritten; o.wnow = G->now; o.sc = mo == __ATOMIC_SEQ_CST; o.wt = G->cur; o.wc = t.vc.c[G->cur]; o.plain = s->w; o.prev = old; o.last = now; o.pvc = o.vc; memset(o.seen, 0, sizeof o.seen);
}
static inline bool may_be_stale(Thread &t, Obj &o, uptr p, u64 v, int mo)
{
    if (!o.hist || (mo == __ATOMIC_SEQ_CST && o.sc) || G->scfence || o.last != v || o.prev == v) return false;
    if (o.wt == (u32)G->cur || t.vc.c[o.wt] >= o.wc) return false;
    if (o.wnow != G->now || o.wn <= t.settled) return false;                           // writes become visible before time passes, and at rest
    const Sub *s = sub_of(p); if (!s || s->w != o.plain) return false;                 // it has been written to in some other way
    for (int i = 0; i < MAXT; ++i) if (o.seen[i] && (i == G->cur || o.seen[i] <= t.vc.c[i])) return false;
    return true;
}
static inline void at_seen(Thread &t, Obj &o) { if (o.hist) o.seen[G->cur] = t.vc.c[G->cur]; }
template <typename T> static u64 bits(T v) { u64 b = 0; memcpy(&b, &v, sizeof v < 8 ? sizeof v : 8); return b; }
template <typename T> static T a_load(const volatile T *p, int mo, uptr pc)
{
    if (!in()) return *p;
    access((uptr)p, sizeof(T), false, true, pc);
    point(K_ATOMIC_RD, (uptr)p, pc, true);
    access((uptr)p, sizeof(T), false, true, pc);
    Thread &t = me(); Obj &o = obj((uptr)p);
    T v = *p;
    if (sizeof(T) <= 8 && UNLIKELY(may_be_stale(t, o, (uptr)p, bits(v), mo)))
    {
        const u8 k = t.op.kind; t.op.kind = K_CHOOSE;
        Opt op[2] = { Opt{ 0, 0, 0 }, Opt{ 0, 0, 1 } };
        const int c = choose_from(op, 2);
        t.op.kind = k; ev_local(t, 2980 + c);
        if (c)
        {
            T w; memcpy(&w, &o.prev, sizeof w < 8 ? sizeof w : 8);
            ev_read(t, o, 6); if (mo_acq(mo)) vc_join(t.vc, o.pvc); else { vc_join(t.acqf, o.pvc); t.has_acqf = 1; }
            if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      = %lld (not the last value, which is %lld)\n", (long long)w, (long long)v);
            return w;
        }
    }
    at_seen(t, o);
    ev_read(t, o, 1); a_acquire(t, o, mo);
    if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      = %lld\n", (long long)v);
    return v;
}
template <typename T> static void a_store(volatile T *p, T v, int mo, uptr pc)
{
    if (!in()) { *p = v; return; }
    access((uptr)p, sizeof(T), true, true, pc);
    point(K_ATOMIC_WR, (uptr)p, pc);
    access((uptr)p, sizeof(T), true, true, pc);
    Thread &t = me(); Obj &o = obj((uptr)p);
    ev_write(t, o, 2);
    at_written(t, o, (uptr)p, bits(*p), bits(v), mo);
    if (mo_rel(mo)) release_set(t, o);
    else { if (t.has_relf) o.vc = t.relf; else memset(&o.vc, 0, sizeof o.vc); tick(t); }
    *p = v;
    if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      := %lld\n", (long long)v);
}
template <typename T, typename F> static T a_rmw(volatile T *p, F f, int mo, uptr pc)
{
    if (!in()) { T o = *p; *p = f(o); return o; }
    access((uptr)p, sizeof(T), true, true, pc);
    point(K_ATOMIC_WR, (uptr)p, pc);
    access((uptr)p, sizeof(T), true, true, pc);
    Thread &t = me(); Obj &o = obj((uptr)p);
    ev_write(t, o, 3);
    T old = *p; const T now = f(old);
    at_written(t, o, (uptr)p, bits(old), bits(now), mo);
    a_acquire(t, o, mo);
    if (mo_rel(mo)) release_join(t, o); else { if (t.has_relf) vc_join(o.vc, t.relf); tick(t); }
    *p = now;
    if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      %lld -> %lld\n", (long long)old, (long long)*p);
    return old;
}
// A weak compare-exchange may fail although the value is the expected one; that is a deviation (does not happen by default).
// Called ahead of each compare-exchange; the compare-exchange proper then goes on without another scheduling point.
EXPORT bool mc_weak_fails(const volatile void *p, const volatile void *e, unsigned long n, bool weak, int fmo)
{
    if (!in() || !weak) return false;
    Thread &t = me(); access((uptr)p, n, false, true, PC);
    point(K_ATOMIC_WR, (uptr)p, PC);
    if (memcmp((const void *)p, (const void *)e, n) == 0)
    {
        const u8 k = t.op.kind; t.op.kind = K_CHOOSE;
        Opt o[2] = { Opt{ 0, 0, 0 }, Opt{ 0, 0, 1 } };
        const int c = choose_from(o, 2);
        t.op.kind = k; ev_local(t, 2990 + c);
        if (c)
        {
            Obj &ob = obj((uptr)p); access((uptr)p, n, false, true, PC); ev_read(t, ob, 5); a_acquire(t, ob, fmo);
            if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      weak cas fails without reason\n");
            return true;
        }
    }
    t.weak = 1;
    return false;
}
template <typename T> static T a_cas(volatile T *p, T e, T v, int mo, int fmo, uptr pc)
{
    if (!in()) { T o = *p; if (o == e) *p = v; return o; }
    access((uptr)p, sizeof(T), false, true, pc);
    if (!me().weak) point(K_ATOMIC_WR, (uptr)p, pc);
    me().weak = 0;
    Thread &t = me(); Obj &o = obj((uptr)p);
    T old = *p;
    access((uptr)p, sizeof(T), old == e, true, pc);
    if (old == e)
    {
        ev_write(t, o, 3); at_written(t, o, (uptr)p, bits(old), bits(v), mo); a_acquire(t, o, mo);
        if (mo_rel(mo)) release_join(t, o); else { if (t.has_relf) vc_join(o.vc, t.relf); tick(t); }
        *p = v;
    }
    else { at_seen(t, o); ev_read(t, o, 4); a_acquire(t, o, fmo); }
    if (UNLIKELY(G->trace != nullptr)) fprintf(G->trace, "      cas %s (%lld)\n", old == e ? "ok" : "fails", (long long)old);
    return old;
}
#define AT(n, T) \
    EXPORT T __tsan_atomic##n##_load(const volatile T *p, int mo) { return a_load<T>(p, mo, PC); } \
    EXPORT void __tsan_atomic##n##_store(volatile T *p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    EXPORT T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T) { return v; }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)(o + v); }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)(o - v); }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)(o & v); }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)(o | v); }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)(o ^ v); }, mo, PC); } \
    EXPORT T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int mo) { return a_rmw<T>(p, [v](T o) { return (T)~(o & v); }, mo, PC); } \
    EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { T x = *e; T o = a_cas<T>(p, x, v, mo, fmo, PC); if (o == x) return 1; *e = o; return 0; } \
    EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { T x = *e; T o = a_cas<T>(p, x, v, mo, fmo, PC); if (o == x) return 1; *e = o; return 0; } \
    EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo, PC); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
typedef unsigned __int128 u128;
AT(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!in()) return;
    Thread &t = me(); if (mo == __ATOMIC_SEQ_CST) G->scfence = 1;      // (stale loads are then not looked at any more: sound, but less)
    if (mo_acq(mo) && t.has_acqf) vc_join(t.vc, t.acqf);
    if (mo_rel(mo)) { t.relf = t.vc; t.has_relf = 1; tick(t); }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------
// Allocator
struct Chunk { u32 magic; u32 size; u64 seq; };
static const u32 MAGIC = 0xC0FFEE01, MAGICF = 0xDEADF001;
static void mark(uptr a, uptr n, bool live)
{
    uptr g = a;
    for (uptr left = n; ; )
    {
        Cell &c = *cell_of(g);
        memset(&c, 0, sizeof c); c.tag = G->tag; c.alloc = (u8)(left >= 8 ? 8 : left);
        (void)live;
        if (left <= 8) break;
        left -= 8; g += 8;
    }
}
static NOINLINE void *do_new(size_t n, size_t align, uptr)
{
    ensure_init();
    if (G->cur < 0)
    {
        if (G->sealed) { void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1); if (!p) abort(); return p; }
        uptr a = (G->initbump + 16 + align - 1) / align * align;
        if (a + n + 32 > R_INIT + INITSZ - 8192) { dprintf(2, "mc: init arena exhausted\n"); abort(); }
        Chunk *c = (Chunk *)(a - 16); c->magic = MAGIC; c->size = (u32)n;
        G->initbump = (a + n + 15) & ~15ull;
        return (void *)a;
    }
    Thread &t = me();
    if (align < 16) align = 16;
    uptr a = (t.bump + 32 + align - 1) / align * align;
    uptr end = R_ARENA + (G->cur + 1) * ARENA;
    if (n > ARENA || a + n + 64 > end) { VIOL("internal:oom", "allocation arena exhausted (%zu bytes)", n); }
    Chunk *c = (Chunk *)(a - 16); c->magic = MAGIC; c->size = (u32)n; 
    t.bump = (a + n + 15) & ~15ull;
    if (n) mark(a, n, true);
    memset((void *)a, 0xCD, n);
    // record the allocation as a write
    if (n) access(a, n, true, false, PC);
    G->live++;
    return (void *)a;
}
static NOINLINE void do_delete(void *p, size_t sz, uptr pc)
{
    if (!p) return;
    uptr a = (uptr)p;
    if (a < R_ARENA || a >= R_STACK)
    {
        if (in() ) { char b[80]; set_viol("bad-free", pc, (uptr)__builtin_frame_address(0), "delete of %s which was not allocated", region_name(a, b, sizeof b)); switch_to_controller(ST_VIOL); }
        if (a >= R_STACK && a < R_END) abort();
        free(p); return;
    }
    Chunk *c = (Chunk *)(a - 16);
    if (!in()) { return; }
    char b[80];
    if (c->magic == MAGICF) { set_viol("double-free", pc, (uptr)__builtin_frame_address(0), "double free of %s", region_name(a, b, sizeof b)); switch_to_controller(ST_VIOL); }
    if (c->magic != MAGIC) { set_viol("bad-free", pc, (uptr)__builtin_frame_address(0), "delete of %s which is not the start of an allocation", region_name(a, b, sizeof b)); switch_to_controller(ST_VIOL); }
    if (sz && sz != c->size) { set_viol("bad-free", pc, (uptr)__builtin_frame_address(0), "delete of %s with size %zu, allocated with %u", region_name(a, b, sizeof b), sz, c->size); switch_to_controller(ST_VIOL); }
    if (c->size) access(a, c->size, true, false, pc);        // must be ordered after every other access
    c->magic = MAGICF;
    if (a < R_INIT) G->live--;
    for (uptr g = a; g < a + c->size; g += 8) { Cell &x = *cell_of(g); x.alloc = FREED; }
    // a live semaphore inside freed memory is lost
    for (uptr g = a; g < a + c->size && c->size <= 4096; g += 8)
    {
        u32 i = (u32)(mix(g) & (OBJN - 1));
        while (G->obj[i].tag == G->tag) { if (G->obj[i].addr == g) { if (G->obj[i].kind == 1 && G->obj[i].state == OS_LIVE) { set_viol("sem-leak", pc, (uptr)__builtin_frame_address(0), "memory of a live semaphore freed without sem_destroy"); switch_to_controller(ST_VIOL); } break; } i = (i + 1) & (OBJN - 1); }
    }
}
#define NEWDEL(...)
void *operator new(size_t n) { return do_new(n, 16, PC); }
void *operator new[](size_t n) { return do_new(n, 16, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 16, PC); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, PC); }
void operator delete(void *p) noexcept { do_delete(p, 0, PC); }
void operator delete[](void *p) noexcept { do_delete(p, 0, PC); }
void operator delete(void *p, size_t n) noexcept { do_delete(p, n, PC); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, 0, PC); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, 0, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, 0, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p, 0, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p, 0, PC); }

EXPORT int fprintf(FILE *f, const char *fmt, ...)
{
    if (in() && f == stderr) return 0;                       // library log lines
    va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r;
}
EXPORT size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    if (in() && f == stderr) return n;
    return fwrite_unlocked(p, s, n, f);
}

// ------------------------------------------------------------------------------------------------
// Harness API
EXPORT int mc_choose(int n)
{
    if (!in()) return 0;
    if (n <= 1) return 0;
    Thread &t = me(); t.op.kind = K_CHOOSE; t.op.obj = 0;
    int c = choose_wide(n);
    ev_local(t, 3000 + c);
    if (G->trace) fprintf(G->trace, "  thread %d: harness choice %d of %d\n", G->cur, c, n);
    return c;
}
EXPORT int mc_deviate(int n)
{
    if (!in() || n <= 1) return 0;
    Thread &t = me(); t.op.kind = K_CHOOSE; t.op.obj = 0;
    Opt o[30]; for (int i = 0; i < n; ++i) o[i] = Opt{ 0, 0, (u8)(i ? 1 : 0) };
    int c = choose_from(o, n);
    ev_local(t, 4000 + c);
    return c;
}
EXPORT void mc_event(int type, long a, long b)
{
    if (!in()) return;
    point(K_EVENT, 32, PC);
    ev_write(me(), obj(32), mix2(type, mix2(a, b)));
    if (G->nlog < (int)LOGN) G->log[G->nlog++] = mc_log_entry{ G->cur, type, a, b };
    if (G->trace) fprintf(G->trace, "      event %d(%ld,%ld)\n", type, a, b);
}
EXPORT void mc_event_local(int type, long a, long b)
{
    if (!in()) return;
    ev_local(me(), mix2(type, mix2(a, b)));
    if (G->nlog < (int)LOGN) G->log[G->nlog++] = mc_log_entry{ G->cur, type, a, b };
    if (G->trace) fprintf(G->trace, "      thread %d: event %d(%ld,%ld)\n", G->cur, type, a, b);
}
EXPORT void mc_fail(const char *sig, const char *fmt, ...)
{
    char m[1000]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    set_viol(sig, PC, (uptr)__builtin_frame_address(0), "%s", m);
    if (G->cur >= 0) switch_to_controller(ST_VIOL);
}
EXPORT void mc_outcome(uint64_t v) { G->outcome = mix2(G->outcome, v); }
EXPORT int mc_tid() { return G->cur; }
EXPORT uint64_t mc_now() { if (in()) { ev_read(me(), obj(8), 9); ev_local(me(), G->now); } return G->now; }
EXPORT void mc_hb_none_wait(int f)
{
    OpS o{}; o.kind = K_FLAGWAIT; o.obj = 40 + f * 8; o.arg = f; o.pc = PC; point_op(o);
    ev_read(me(), obj(40 + f * 8), 1);
}
EXPORT void mc_hb_none_raise(int f) { point(K_FLAGSET, 40 + f * 8, PC); G->flags[f] = 1; ev_write(me(), obj(40 + f * 8), 2); }
EXPORT void mc_quiesce()
{
    if (!in()) return;
    OpS o{}; o.kind = K_QUIESCE; o.pc = PC; point_op(o); ev_read(me(), obj(8), 0x9e5c); me().spin = 0; me().settled = G->nwritten;
}
EXPORT void mc_quiesce_event(int type)
{
    mc_quiesce(); if (!in()) return;
    ev_write(me(), obj(32), mix2(type, 0x9e5d));
    if (G->nlog < (int)LOGN) G->log[G->nlog++] = mc_log_entry{ G->cur, type, 0, 0 };
    if (G->trace) fprintf(G->trace, "      at rest\n");
}
EXPORT int mc_hb_none_get(int f) { point(K_FLAGSET, 40 + f * 8, PC, true); ev_read(me(), obj(40 + f * 8), 1); return G->flags[f]; }
EXPORT int mc_log_size() { return G->nlog; }
EXPORT const mc_log_entry *mc_log() { return G->log; }
EXPORT void mc_env_eintr(int b) { G->eintr = b; G->storm = 0; }
EXPORT void mc_env_eintr_storm(int b) { G->eintr = b; G->storm = 1; }
EXPORT void mc_env_create_fail(int b) { G->createfail = b; }
EXPORT void mc_env_sem_fail(int b) { G->semfail = b; }
EXPORT void mc_env_tick(uint64_t ns) { G->tick = ns; }
EXPORT void mc_env_clock(uint64_t ns) { G->now = ns; if (in()) ev_write(me(), obj(8), ns); }
EXPORT void mc_env_nproc(int n) { G->nproc = n; }
EXPORT void mc_env_rtprio(int p) { G->rtprio = p; }
EXPORT void mc_env_traps(int m) { G->traps = m; }
EXPORT int mc_traps() { return G->ntraps; }
EXPORT int mc_trap_thread(int i) { return i < 16 && i < G->ntraps ? G->traptid[i] : -1; }
EXPORT void mc_env_maxspurious(int b) { G->spurious = b; }
EXPORT int mc_live_threads() { int k = 0; for (int i = 0; i < G->nt; ++i) k += G->t[i].state == 1; return k; }
EXPORT int mc_thread_blocked(int i) { return i < G->nt && G->t[i].state == 1 && !op_enabled(G->t[i]); }
EXPORT int mc_blocked_threads() { int k = 0; for (int i = 0; i < G->nt; ++i) k += mc_thread_blocked(i); return k; }
EXPORT int mc_thread_finished(int i) { return i < G->nt && G->t[i].state == 2; }
EXPORT int mc_thread_count() { return G->nt; }
EXPORT const char *mc_thread_name(int i) { return G->t[i].name; }
EXPORT uint64_t mc_thread_affinity(int i) { return G->t[i].affinity; }
EXPORT int mc_thread_policy(int i) { return G->t[i].policy; }
EXPORT int mc_thread_prio(int i) { return G->t[i].prio; }
EXPORT uint64_t mc_thread_stacksize(int i) { return G->t[i].stacksize; }
EXPORT int mc_thread_tid_of(unsigned long p) { return ptid((pthread_t)p); }
EXPORT int mc_heap_live() { return G->live; }

// ------------------------------------------------------------------------------------------------
// Execution of one schedule
static void *scenario_main(void *) { G->sc->body(G->sc->param); return nullptr; }

static void find_tls()
{
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *) -> int
    {
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data)
        {
            G->tlsbase = (char *)i->dlpi_tls_data; G->tlslen = i->dlpi_phdr[k].p_memsz;
        }
        return 1;                                            // executable only (first)
    }, nullptr);
}
static void seal()
{
    find_tls();
    if (G->tlslen) { G->tls0 = (char *)malloc(G->tlslen); memcpy(G->tls0, G->tlsbase, G->tlslen); }
    uptr a = (uptr)&__data_start, b = (uptr)&_end;
    G->snaplen = b - a; G->snap = (char *)malloc(G->snaplen);
    G->isnaplen = G->initbump - R_INIT; G->isnap = (char *)malloc(G->isnaplen + 1);
    G->sealed = 1;
    memcpy(G->isnap, (void *)R_INIT, G->isnaplen);
    memcpy(G->snap, (void *)a, G->snaplen);
}
static void run_execution(const Dev *dev, int ndev, int bound, int replaying)
{
    // reset
    memcpy((void *)&__data_start, G->snap, G->snaplen);
    memcpy((void *)R_INIT, G->isnap, G->isnaplen);
    G->tag++; G->nobj = 0; G->nar = G->nrv = G->nsub = 0; G->nlog = 0;
    G->steps = G->accesses = 0; G->nt = 0; G->now = 1000000000ull * 1000; G->eintr = G->storm = G->createfail = G->spurious = G->semfail = G->scfence = G->traps = G->ntraps = G->ended = 0; G->nwritten = 0; G->nproc = 4; G->rtprio = 0; G->tick = 0;
    G->nn = G->nns = 0; G->semopen = G->semlocal = 0; G->outcome = 0; G->live = 0; G->natexit = 0;
    G->dev = dev; G->ndev = ndev; G->idev = 0; G->pos = 0; G->cost = 0; G->bound = bound; G->last = 0; G->ncp = 0; G->replaying = replaying;
    G->v.set = 0; G->status = ST_RUN; G->fresh = 0;
    memset(G->flags, 0, sizeof G->flags);
    memset(__cxa_get_globals(), 0, 16);
    if (G->tlslen) memcpy(G->tlsbase, G->tls0, G->tlslen);
    new_thread(scenario_main, nullptr);
    Thread &t = G->t[0]; t.vc.c[0] = 1; t.h = mix(G->salt + 5);
    if (sigsetjmp(G->jb, 1) == 0)
    {
        G->jbset = 1;
        G->cur = 0;
        load_ctx(t);
        mc_switch(&G->ctl_sp, t.sp);
    }
    G->jbset = 0;
    G->cur = -1;
    if (G->status == ST_COMPLETE)
    {
        if (!G->v.set && G->sc->check) G->sc->check(G->sc->param);
        if (!G->v.set && !G->ended && !(G->sc->flags & MC_NOLEAK))
        {
            if (G->live > 0)
            {
                for (int i = 0; i < G->nt && !G->v.set; ++i)
                {
                    uptr a = R_ARENA + i * ARENA, e = G->t[i].bump;
                    for (uptr p = a; p < e; p += 16) { Chunk *c = (Chunk *)p; Cell *x = cell_of(p + 16); if (c->magic == MAGIC && x->tag == G->tag && x->alloc != FREED && x->alloc != 0) { set_viol("leak", 0, 0, "%d blocks never released, e.g. %u bytes allocated by thread %d", G->live, c->size, i); break; } }
                }
                if (!G->v.set) set_viol("leak", 0, 0, "%d blocks never released", G->live);
            }
            for (int i = 1; i < G->nt && !G->v.set; ++i) if (!G->t[i].joined && !G->t[i].detached) set_viol("thread-leak", 0, 0, "thread %d is neither joined nor detached", i);
            if (G->v.set) ;
            else if (G->semlocal > 0) set_viol("sem-leak", 0, 0, "%d semaphores never destroyed", G->semlocal);
            else if (G->semopen > 0) set_viol("sem-leak", 0, 0, "%d named semaphores never closed", G->semopen);
        }
        if (G->v.set) G->status = ST_VIOL;
    }
}

static void on_signal(int sig, siginfo_t *si, void *uc)
{
    if (!g_inited || !G->jbset || G->cur < 0)
    {
        if (sig == SIGVTALRM) return;
        dprintf(2, "mc: signal %d outside of an execution\n", sig);
        _exit(4);
    }
    ucontext_t *u = (ucontext_t *)uc;
    uptr pc = u->uc_mcontext.gregs[REG_RIP], bp = u->uc_mcontext.gregs[REG_RBP];
    const char *name = sig == SIGTRAP ? "assertion" : sig == SIGSEGV || sig == SIGBUS ? "crash" : sig == SIGABRT ? "terminate" : sig == SIGFPE ? "crash-fpe" : sig == SIGVTALRM ? "hang" : "crash-ill";
    if (sig == SIGVTALRM)
    {
        const u64 beat = G->tag * 1000003ull + G->steps;
        if (beat != G->lastbeat) { G->lastbeat = beat; G->stuck = 0; return; }
        if (++G->stuck < 15) return;
    }
    if (sig == SIGTRAP && G->traps)
    {
        if (G->ntraps < 16) G->traptid[G->ntraps] = G->cur;
        if (++G->ntraps > 1000) { set_viol("livelock", pc, bp, "no end of failing assertions"); G->status = ST_VIOL; siglongjmp(G->jb, 1); }
        ev_local(G->t[G->cur], 2970);
        if (G->traps == 1) return;
        G->status = ST_COMPLETE; G->ended = 1; siglongjmp(G->jb, 1);
    }
    set_viol(name, pc, bp, "%s (signal %d, address %p) in thread %d", sig == SIGTRAP ? "assertion failed" : sig == SIGVTALRM ? "no visible progress" : "crash", sig, si->si_addr, G->cur);
    G->status = ST_VIOL;
    siglongjmp(G->jb, 1);
}
static void install_handlers()
{
    stack_t ss; ss.ss_size = 128 << 10; ss.ss_flags = 0; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGTRAP, SIGABRT, SIGFPE, SIGILL, SIGVTALRM }) sigaction(s, &sa, nullptr);
    itimerval iv{}; iv.it_interval.tv_sec = 1; iv.it_value.tv_sec = 1; setitimer(ITIMER_VIRTUAL, &iv, nullptr);
}

// ------------------------------------------------------------------------------------------------
// Explorer
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void slock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; } }
static void sunlock() { S->lock.store(0); }
static void real_usleep(long us) { timespec t = { us / 1000000, (us % 1000000) * 1000 }; syscall(SYS_nanosleep, &t, nullptr); }

static int known_index(const char *sc, const char *sig)
{
    char k[400]; snprintf(k, sizeof k, "%s/%s", sc, sig);
    for (int i = 0; i < S->known_n; ++i) if (!strcmp(S->known[i], k)) return i;
    return -1;
}
static Item *mk_item(const Dev *d, int n, int cost, Dev extra)
{
    Item *it = (Item *)malloc(sizeof(Item) + sizeof(Dev) * (n + 1));
    it->n = n + 1; it->cost = cost; memcpy(it->d, d, n * sizeof(Dev)); it->d[n] = extra;
    return it;
}
static void outcome_note(u64 h)
{
    u64 i = mix(h) & 0xffff; if (!h) h = 1;
    for (int k = 0; k < 64; ++k, i = (i + 1) & 0xffff)
    {
        if (S->outs[i] == h) return;
        if (!S->outs[i]) { S->outs[i] = h; S->nout++; return; }
    }
}
// Levels up to <bound> are always explored; further ones, up to <maxb>, as long as the number of
// alternatives left for the next level is at most <grow>.
static void process(const Item *it, std::vector<Item *> *stk, int bound, int maxb, u64 grow, Stats &st)
{
    run_execution(it->d, it->n, maxb, 0);
    st.execs++; st.trans += G->steps; st.heartbeat++;
    st.states += G->fresh;
    if (G->steps > st.maxsteps) st.maxsteps = G->steps;
    if ((u64)G->pos > st.maxcp) st.maxcp = G->pos;
    if (G->status == ST_COMPLETE || G->status == ST_VIOL) st.complete++;
    else if (G->status == ST_PRUNED) st.pruned++;
    if (G->status == ST_COMPLETE)
    {
        outcome_note(mix2(G->outcome, 1));
        if (S->nsample < 3)
        {
            slock();
            int k = S->nsample; if (k < 3 && (k == 0 || it->n > 0)) {
                char *b = S->sample[k]; int n = snprintf(b, 200, "choices:"); for (int i = 0; i < it->n && n < 600; ++i) n += snprintf(b + n, 40, " %d=%d", it->d[i].pos, it->d[i].alt);
                n += snprintf(b + n, 60, "; %lu visible operations, %d threads; events:", (unsigned long)G->steps, G->nt);
                for (int i = 0; i < G->nlog && n < 1500; ++i) n += snprintf(b + n, 60, " t%d:%d(%ld,%ld)", G->log[i].tid, G->log[i].type, G->log[i].a, G->log[i].b);
                S->nsample = k + 1; }
            sunlock();
        }
    }
    bool expand = true;
    if (G->status == ST_VIOL)
    {
        int k = known_index(G->sc->name, G->v.sig);
        if (k >= 0) S->known_hits[k]++;
        else
        {
            slock();
            if (!S->vset || it->n < S->vn) { S->v = G->v; S->vn = it->n; S->vcost = it->cost; memcpy(S->vdev, it->d, sizeof(Dev) * it->n); S->vset = 1; }
            sunlock();
            S->stop = 1; expand = false;
        }
    }
    if (expand)
    {
        for (int i = 0; i < G->ncp; ++i)
        {
            auto &c = G->cp[i];
            for (int a = 1; a < c.n; ++a)
            {
                int cost = c.base + c.cost[a];
                if (cost > maxb) { st.deferred++; continue; }
                if (it->n + 1 >= MAXDEV) { S->capped = 3; continue; }
                if (cost > bound && S->pend[cost]++ >= grow) { st.deferred++; if (cost == it->cost) S->level_part[cost] = 1; continue; }
                stk[cost].push_back(mk_item(it->d, it->n, cost, Dev{ c.pos, (u16)a }));
            }
        }
    }
}
static void worker(int id, int nw, int bound, int maxb, u64 grow)
{
    G->worker = id;
    install_handlers();
    std::vector<Item *> stk[16];
    Stats &st = S->st[id];
    if (id == 0) { Item *it = (Item *)malloc(sizeof(Item)); it->n = 0; it->cost = 0; stk[0].push_back(it); }
    for (int L = 0; L <= maxb; ++L)
    {
        // all executions with fewer deviations are done when everybody has arrived
        // and the last one decides whether this level is explored, before anybody adds to it
        if (++S->arrived[L] == nw) S->level_go[L] = L > bound && S->pend[L] > grow ? 2 : 1;
        while (!S->level_go[L] && !S->stop) real_usleep(50);
        if (S->level_go[L] == 2) { for (int l = L; l <= maxb; ++l) st.deferred += stk[l].size(); break; }
        bool active = true;
        while (!S->stop)
        {
            Item *it = nullptr;
            if (!stk[L].empty())
            {
                it = stk[L].back(); stk[L].pop_back();
                if (stk[L].size() > 1 && S->qn < nw * 2)
                {
                    slock();
                    size_t give = std::min<size_t>(stk[L].size() / 2, 16), k = 0;
                    while (k < give && S->qn < QSLOTS)
                    {
                        Item *d = stk[L][k++];
                        u16 *q = S->qbuf[S->qn++]; q[0] = d->n; q[1] = d->cost; memcpy(q + 2, d->d, d->n * sizeof(Dev)); free(d);
                    }
                    sunlock();
                    stk[L].erase(stk[L].begin(), stk[L].begin() + k);
                }
            }
            else
            {
                slock();
                if (S->qn > 0)
                {
                    if (!active) { S->active[L]++; active = true; }
                    u16 *q = S->qbuf[--S->qn];
                    it = (Item *)malloc(sizeof(Item) + q[0] * sizeof(Dev)); it->n = q[0]; it->cost = q[1]; memcpy(it->d, q + 2, q[0] * sizeof(Dev));
                }
                else if (active) { active = false; S->active[L]--; }
                int a = S->active[L]; sunlock();
                if (!it) { if (a == 0) break; real_usleep(30); continue; }
            }
            process(it, stk, bound, maxb, grow, st);
            free(it);
            if ((st.execs & 63) == 0 && wall() > S->deadline) { S->capped = 1; S->stop = 1; }
        }
        if (S->stop) break;
        if (S->level_part[L]) { for (int l = L + 1; l <= maxb; ++l) st.deferred += stk[l].size(); break; }   // part of it was left out
        S->levels_done = L + 1;
    }
}

static std::vector<mc_scenario> *g_sc;
static mc_scenario g_scen[512]; static int g_nscen = 0;
mc_register::mc_register(const mc_scenario &s) { if (g_nscen < 512) g_scen[g_nscen++] = s; }

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); fputs(b, f); } else fputc(c, f); }
    fputc('"', f);
}
static bool has_prop(const char *list, const char *p)
{
    size_t n = strlen(p);
    for (const char *s = list; (s = strstr(s, p)); ++s) if ((s == list || s[-1] == ' ') && (s[n] == 0 || s[n] == ' ')) return true;
    return false;
}
static void replay_child(const Dev *d, int n, const char *path, int fd)
{
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    install_handlers();
    FILE *f = path ? fopen(path, "a") : nullptr;
    if (f) setvbuf(f, nullptr, _IOFBF, 1 << 16);
    G->trace = f;
    run_execution(d, n, 1000, 1);
    G->trace = nullptr;
    if (f) fclose(f);
    Viol v = G->v; if (G->status != ST_VIOL) v.set = 0;
    if (write(fd, &v, sizeof v) < 0) {}
    _exit(0);
}
static Viol replay(const Dev *d, int n, const char *path)
{
    int p[2]; if (pipe(p)) _exit(3);
    fflush(nullptr);
    pid_t c = fork();
    if (!c) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(p[0]); replay_child(d, n, path, p[1]); }
    close(p[1]);
    Viol v; memset(&v, 0, sizeof v);
    size_t got = 0; while (got < sizeof v) { ssize_t r = read(p[0], (char *)&v + got, sizeof v - got); if (r <= 0) break; got += r; }
    close(p[0]); int st; waitpid(c, &st, 0);
    if (got != sizeof v) v.set = 0;
    return v;
}

int main(int argc, char **argv)
{
    ensure_init();
    const char *prop = nullptr, *only = nullptr, *out = nullptr, *replayfile = nullptr, *tracepath = nullptr; int thorough = 0, jobs = 0, list = 0, bound_override = -1; double tmax = 600;
    std::vector<std::string> known; 
    int less = 0; u64 grow = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return argv[++i]; };
        if (a == "--prop") prop = nx(); else if (a == "--scenario") only = nx(); else if (a == "--out") out = nx();
        else if (a == "--thorough") thorough = 1; else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--list") list = 1;
        else if (a == "--bound") bound_override = atoi(nx()); else if (a == "--time") tmax = atof(nx());
        else if (a == "--known") known.push_back(nx()); else if (a == "--replay") replayfile = nx(); else if (a == "--trace") tracepath = nx();
        else if (a == "--less") less = atoi(nx()); else if (a == "--grow") grow = strtoull(nx(), 0, 10);
        else if (a == "--table") TABLE_N = 1ull << atoi(nx());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!jobs) jobs = std::max(1l, std::min(32l, sysconf(_SC_NPROCESSORS_ONLN)));
    if (list) { for (int i = 0; i < g_nscen; ++i) printf("%s %s\n", g_scen[i].name, g_scen[i].prop); return 0; }
    std::vector<mc_scenario> scen(g_scen, g_scen + g_nscen);
    std::vector<std::string> knownv = known;
    map_at(SADDR, sizeof(Shared), 1);
    map_at(TABLE, TABLE_N * 8, 1);
    FILE *o = out ? fopen(out, "w") : stdout;
    // replay of a file: first line "scenario n pos alt pos alt ..."
    if (replayfile)
    {
        FILE *f = fopen(replayfile, "r"); char name[200]; int n; if (!f || fscanf(f, "%199s %d", name, &n) != 2) return 2;
        std::vector<Dev> d(n + 1); for (int i = 0; i < n; ++i) { int a, b; if (fscanf(f, "%d %d", &a, &b) != 2) return 2; d[i].pos = a; d[i].alt = b; }
        fclose(f);
        for (auto &s : scen) if (!strcmp(s.name, name))
        {
            seal();
            static mc_scenario cur; (void)cur;
            mc_scenario *ps = (mc_scenario *)malloc(sizeof s); *ps = s; G->sc = ps; G->salt = 1;
            Viol v = replay(d.data(), n, tracepath);
            fprintf(o, "{\"set\": %d, \"sig\": ", v.set); jstr(o, v.set ? v.sig : ""); fprintf(o, ", \"msg\": "); jstr(o, v.set ? v.msg : ""); fprintf(o, "}\n");
            return v.set ? 1 : 0;
        }
        return 2;
    }
    seal();
    fprintf(o, "{\"scenarios\": [\n");
    int rc = 0; bool first = true; int nrun = 0;
    double t0 = wall();
    const double total_deadline = t0 + tmax;
    for (size_t si = 0; si < scen.size(); ++si)
    {
        if (prop && !has_prop(scen[si].prop, prop)) continue;
        if (only && strcmp(scen[si].name, only)) continue;
        ++nrun;
        mc_scenario *ps = (mc_scenario *)malloc(sizeof(mc_scenario)); *ps = scen[si]; G->sc = ps;
        int bound = bound_override >= 0 ? bound_override : thorough ? ps->thorough : ps->quick;
        if (less) bound = bound >= 10 ? bound : std::max(0, bound - less);   // scenarios meant to be exhausted stay so
        if (bound > 14) bound = 14;
        const int maxb = bound_override >= 0 || !grow || ps->flags & MC_LONG ? bound : 14;
        memset((void *)SADDR, 0, sizeof(Shared) - 0);
        S->known_n = 0; for (auto &k : knownv) if (S->known_n < MAXKNOWN) snprintf(S->known[S->known_n++], 200, "%s", k.c_str());
        double ts = wall();
        G->unlockpts = 0;
        for (int round = 0; round < 2; ++round)
        {
            G->salt = mix(si * 1000 + 17 + round * 77777ull);
            for (auto &a : S->arrived) a = 0;
            for (auto &a : S->level_go) a = 0;
            for (auto &a : S->level_part) a = 0;
            for (auto &a : S->pend) a = 0;
            for (auto &x : S->st) x.deferred = 0;
            for (auto &a : S->active) a = jobs;
            S->qn = 0; S->levels_done = 0; S->deadline = total_deadline;
            fflush(nullptr);
            std::vector<pid_t> pids;
            for (int w = 0; w < jobs; ++w)
            {
                pid_t p = fork();
                if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); worker(w, jobs, bound, maxb, grow); _exit(0); }
                pids.push_back(p);
            }
            // wait, watching for workers that make no progress (loops without any instrumented operation)
            std::vector<u64> hb(jobs, 0); std::vector<double> hbt(jobs, wall()); int left = jobs; std::vector<int> done(jobs, 0);
            bool crashed = false;
            while (left)
            {
                for (int w = 0; w < jobs; ++w) if (!done[w])
                {
                    int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
                    if (r == pids[w]) { done[w] = 1; --left; if (!WIFEXITED(st) || WEXITSTATUS(st)) { crashed = true; S->stop = 1; } }
                }
                real_usleep(left ? 500 : 0);
                if (wall() > total_deadline + 60) { for (int w = 0; w < jobs; ++w) if (!done[w]) kill(pids[w], SIGKILL); S->stop = 1; S->capped = 1; crashed = true; }
            }
            if (crashed && !S->vset) { fprintf(stderr, "mc: internal error: worker died in scenario %s\n", ps->name); rc = 3; }
            if (S->trylock_used && !G->unlockpts && !S->stop) { G->unlockpts = 1; continue; }
            break;
        }
        Stats tot{}; for (int w = 0; w < jobs; ++w) { Stats &x = S->st[w]; tot.execs += x.execs; tot.complete += x.complete; tot.pruned += x.pruned; tot.trans += x.trans; tot.deferred += x.deferred; tot.states += x.states; tot.maxsteps = std::max(tot.maxsteps, x.maxsteps); tot.maxcp = std::max(tot.maxcp, x.maxcp); }
        if (!first) fprintf(o, ",\n"); first = false;
        fprintf(o, " {\"name\": \"%s\", \"bound\": %d, \"bounds_completed\": %d, \"capped\": %d, \"executions\": %lu, \"complete\": %lu, \"pruned\": %lu, \"deferred\": %lu, \"states\": %lu, \"transitions\": %lu, \"max_ops\": %lu, \"max_choice_points\": %lu, \"outcomes\": %lu, \"wall_s\": %.2f",
            ps->name, std::max(bound, (int)S->levels_done - 1), (int)S->levels_done - 1, (int)S->capped, tot.execs, tot.complete, tot.pruned, tot.deferred, tot.states, tot.trans, tot.maxsteps, tot.maxcp, (unsigned long)S->nout.load(), wall() - ts);
        fprintf(o, ", \"known\": [");
        bool fk = true; for (int k = 0; k < S->known_n; ++k) if (S->known_hits[k]) { if (!fk) fputs(", ", o); fk = false; fputs("{\"key\": ", o); jstr(o, S->known[k]); fprintf(o, ", \"hits\": %lu}", (unsigned long)S->known_hits[k]); }
        fprintf(o, "], \"samples\": [");
        for (int k = 0; k < S->nsample; ++k) { if (k) fputs(", ", o); jstr(o, S->sample[k]); }
        fprintf(o, "]");
        if (S->vset)
        {
            Viol v1 = replay(S->vdev, S->vn, tracepath), v2 = replay(S->vdev, S->vn, nullptr);
            bool same = v1.set && v2.set && !strcmp(v1.sig, S->v.sig) && !strcmp(v2.sig, S->v.sig);
            fprintf(o, ", \"violation\": {\"sig\": "); jstr(o, S->v.sig); fprintf(o, ", \"msg\": "); jstr(o, S->v.msg);
            fprintf(o, ", \"reproduced\": %s, \"cost\": %d, \"choices\": [", same ? "true" : "false", S->vcost);
            for (int i = 0; i < S->vn; ++i) fprintf(o, "%s[%d,%d]", i ? "," : "", S->vdev[i].pos, S->vdev[i].alt);
            fprintf(o, "], \"stack\": ["); for (int i = 0; i < S->v.npc; ++i) fprintf(o, "%s\"%#lx\"", i ? "," : "", S->v.pc[i]);
            fprintf(o, "], \"frontier\": ["); for (int i = 0; i < S->v.nfp; ++i) fprintf(o, "%s{\"thread\": %d, \"op\": \"%s\", \"pc\": \"%#lx\"}", i ? "," : "", S->v.fp[i].tid, kname[S->v.fp[i].kind], S->v.fp[i].pc);
            fprintf(o, "]}}"); rc = std::max(rc, same ? 1 : 3);
            if (!strncmp(S->v.sig, "internal:", 9)) rc = 3;
            break;
        }
        fprintf(o, "}"); fflush(o);
        if (rc == 3) break;
    }
    fprintf(o, "\n], \"wall_s\": %.2f, \"jobs\": %d}\n", wall() - t0, jobs);
    if (out) fclose(o);
    if (!nrun) return 2;
    return rc;
}
