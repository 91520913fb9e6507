// Binds the modelled operating system (mc/rt.cpp) to the real one. The same operation sequences are
// compiled twice: with -DCONF_REAL the program runs every sequence on glibc/Linux and writes a table of
// result hashes; otherwise this is a harness that runs every sequence (an exhaustive choice over the
// alphabet, to the same depth) on the runtime's models and compares with the table.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/syscall.h>
#ifndef CONF_REAL
#include "mc.h"
#endif

namespace {
struct Out
{
    uint64_t h; char text[4000]; int n; bool verbose;
    void add(const char *what, long a)
    {
        h = (h ^ (uint64_t)(a + 77)) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        if (verbose && n < 3900) n += snprintf(text + n, sizeof text - n, " %s=%ld", what, a);
    }
    void rc(const char *what, int r) { int e = errno; add(what, r == -1 ? -1000 - e : r); }
};
Out g_out;
char g_base[64];   // unique name of this run
timespec past() { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec -= 10; return t; }

// ---- named semaphores ----------------------------------------------------------------------------
void run_named(const int *ops, int depth, Out &o)
{
    sem_t *h[2] = { SEM_FAILED, SEM_FAILED };
    sem_unlink(g_base);
    auto opn = [&](int i, int flags, unsigned v) {
        if (h[i] != SEM_FAILED) { o.add("skip", 1); return; }
        h[i] = sem_open(g_base, flags, 0644, v);
        o.add("open", h[i] == SEM_FAILED ? -errno : 0);
        if (h[i] != SEM_FAILED) o.add("same", h[0] == h[1]);
    };
    for (int k = 0; k < depth; ++k) switch (ops[k])
    {
    case 0: opn(0, O_CREAT, 0); break;
    case 1: opn(0, O_CREAT | O_EXCL, 1); break;
    case 2: opn(0, 0, 0); break;
    case 3: opn(1, O_CREAT, 2); break;
    case 4: opn(1, 0, 0); break;
    case 5: o.rc("unlink", sem_unlink(g_base)); break;
    case 6: case 7: { int i = ops[k] - 6; if (h[i] == SEM_FAILED) { o.add("skip", 1); break; } o.rc("close", sem_close(h[i])); h[i] = SEM_FAILED; break; }
    case 8: case 9: { int i = ops[k] - 8; if (h[i] == SEM_FAILED) { o.add("skip", 1); break; } o.rc("post", sem_post(h[i])); break; }
    case 10: case 11: { int i = ops[k] - 10; if (h[i] == SEM_FAILED) { o.add("skip", 1); break; } o.rc("trywait", sem_trywait(h[i])); break; }
    case 12: for (int i = 0; i < 2; ++i) if (h[i] != SEM_FAILED) { int v = -1; o.rc("getvalue", sem_getvalue(h[i], &v)); o.add("value", v); } break;
    case 13: if (h[0] == SEM_FAILED) { o.add("skip", 1); break; } { timespec t = past(); o.rc("timedwait", sem_timedwait(h[0], &t)); } break;
    }
    for (int i = 0; i < 2; ++i) if (h[i] != SEM_FAILED) sem_close(h[i]);
    o.rc("unlink", sem_unlink(g_base));
}
// ---- names ---------------------------------------------------------------------------------------
void run_names(const int *ops, int, Out &o)
{
    static char buf[600]; char *p = buf; const int nb = (int)strlen(g_base) - 1;
    auto tail = [&](const char *prefix, const char *suffix, int total) {
        p += sprintf(p, "%s%s%s", prefix, g_base + 1, suffix);
        int have = nb + (int)strlen(suffix); while (have++ < total) *p++ = 'x'; *p = 0;
    };
    switch (ops[0])
    {
    case 0: strcpy(buf, ""); break;
    case 1: strcpy(buf, "/"); break;
    case 2: tail("", "", 0); break;
    case 3: tail("/", "", 0); break;
    case 4: tail("//", "", 0); break;
    case 5: tail("/", "/", 0); break;
    case 6: tail("", "/b", 0); break;
    case 7: tail("/", "/b", 0); break;
    case 8: tail("/", "", 240); break;
    case 9: tail("/", "", 250); break;
    case 10: tail("/", "", 251); break;
    case 11: tail("/", "", 252); break;
    case 12: tail("/", "", 255); break;
    case 13: tail("/", "", 400); break;
    case 14: tail("/", " x\\y\t\"", 0); break;
    }
    sem_t *s = sem_open(buf, 0); o.add("open", s == SEM_FAILED ? -errno : 0); if (s != SEM_FAILED) sem_close(s);
    s = sem_open(buf, O_CREAT, 0644, 3u); o.add("create", s == SEM_FAILED ? -errno : 0);
    if (s != SEM_FAILED) { int v = 0; sem_getvalue(s, &v); o.add("value", v); sem_close(s); }
    sem_t *e = sem_open(buf, O_CREAT | O_EXCL, 0644, 3u); o.add("excl", e == SEM_FAILED ? -errno : 0); if (e != SEM_FAILED) sem_close(e);
    o.rc("unlink", sem_unlink(buf));
    s = sem_open(buf, O_CREAT, 0644, 0x80000000u); o.add("huge", s == SEM_FAILED ? -errno : 0); if (s != SEM_FAILED) { sem_close(s); sem_unlink(buf); }
}
// ---- unnamed semaphores --------------------------------------------------------------------------
void run_local(const int *ops, int depth, Out &o)
{
    sem_t s; bool live = false; int val = 0;
    auto init = [&](unsigned v) { if (live) { o.add("skip", 1); return; } int r = sem_init(&s, 0, v); o.rc("init", r); live = r == 0; val = (int)v; };
    for (int k = 0; k < depth; ++k) switch (ops[k])
    {
    case 0: init(0); break;
    case 1: init(1); break;
    case 2: init(0x7fffffffu); break;
    case 3: init(0x80000000u); break;
    case 4: if (!live) { o.add("skip", 1); break; } o.rc("destroy", sem_destroy(&s)); live = false; break;
    case 5: if (!live) { o.add("skip", 1); break; } { int r = sem_post(&s); o.rc("post", r); if (!r) ++val; } break;
    case 6: if (!live) { o.add("skip", 1); break; } { int r = sem_trywait(&s); o.rc("trywait", r); if (!r) --val; } break;
    case 7: if (!live || val <= 0) { o.add("skip", 1); break; } o.rc("wait", sem_wait(&s)); --val; break;
    case 8: if (!live) { o.add("skip", 1); break; } { timespec t = past(); int r = sem_timedwait(&s, &t); o.rc("timedwait", r); if (!r) --val; } break;
    case 9: if (!live) { o.add("skip", 1); break; } { timespec t = past(); t.tv_nsec = 1000000000; int r = sem_timedwait(&s, &t); o.rc("timedwait-bad", r); if (!r) --val; } break;
    case 10: if (!live) { o.add("skip", 1); break; } { int v = -1; o.rc("getvalue", sem_getvalue(&s, &v)); o.add("value", v); } break;
    case 11: if (!live) { o.add("skip", 1); break; } { timespec t; t.tv_sec = -5; t.tv_nsec = 0; int r = sem_timedwait(&s, &t); o.rc("timedwait-neg", r); if (!r) --val; } break;
    }
    if (live) sem_destroy(&s);
}
// ---- mutexes -------------------------------------------------------------------------------------
void run_mutex(const int *ops, int depth, Out &o)
{
    static const int types[3] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK };
    const int type = types[ops[0] % 3]; int held = 0;
    pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, type);
    pthread_mutex_t m; pthread_mutex_init(&m, &a); pthread_mutexattr_destroy(&a);
    for (int k = 1; k < depth; ++k) switch (ops[k])
    {
    case 0: if (held && type == PTHREAD_MUTEX_NORMAL) { o.add("skip", 1); break; } { int r = pthread_mutex_lock(&m); o.add("lock", r); if (!r) ++held; } break;
    case 1: { int r = pthread_mutex_trylock(&m); o.add("trylock", r); if (!r) ++held; } break;
    case 2: if (!held) { o.add("skip", 1); break; } o.add("unlock", pthread_mutex_unlock(&m)); --held; break;
    case 3: { timespec t = past(); int r = pthread_mutex_timedlock(&m, &t); o.add("timedlock", r); if (!r) ++held; } break;
    }
    while (held--) pthread_mutex_unlock(&m);
    o.add("destroy", pthread_mutex_destroy(&m));
}
// ---- condition variables, reader-writer locks ----------------------------------------------------
void run_cond(const int *ops, int depth, Out &o)
{
    pthread_mutex_t m; pthread_mutex_init(&m, nullptr); pthread_cond_t c; pthread_cond_init(&c, nullptr);
    pthread_rwlock_t l; pthread_rwlock_init(&l, nullptr); int rd = 0, wr = 0;
    for (int k = 0; k < depth; ++k) switch (ops[k])
    {
    case 0: o.add("signal", pthread_cond_signal(&c)); break;
    case 1: o.add("broadcast", pthread_cond_broadcast(&c)); break;
    case 2: { pthread_mutex_lock(&m); timespec t = past(); o.add("timedwait", pthread_cond_timedwait(&c, &m, &t)); o.add("held", pthread_mutex_trylock(&m)); pthread_mutex_unlock(&m); } break;
    case 3: { int r = pthread_rwlock_tryrdlock(&l); o.add("tryrd", r); rd += !r; } break;
    case 4: { int r = pthread_rwlock_trywrlock(&l); o.add("trywr", r); wr += !r; } break;
    case 5: if (!rd && !wr) { o.add("skip", 1); break; } o.add("rwunlock", pthread_rwlock_unlock(&l)); if (wr) --wr; else --rd; break;
    }
    while (rd-- > 0) pthread_rwlock_unlock(&l); while (wr-- > 0) pthread_rwlock_unlock(&l);
    pthread_rwlock_destroy(&l); pthread_cond_destroy(&c); pthread_mutex_destroy(&m);
}
// ---- thread attributes before creation -----------------------------------------------------------
struct started { pthread_t th; int pol, prio; char name[16]; uint64_t mask; sem_t go, up; int tid; };
int cores_n = 4; bool rt_ok = true;
uint64_t mask_of(const cpu_set_t &c) { uint64_t m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, &c)) m |= 1ull << i; return m; }
cpu_set_t set_of(uint64_t m) { cpu_set_t c; CPU_ZERO(&c); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &c); return c; }
void *th_main(void *p)
{
    started *s = (started *)p; sched_param sp;
    pthread_getschedparam(pthread_self(), &s->pol, &sp); s->prio = sp.sched_priority;
    pthread_getname_np(pthread_self(), s->name, 16);
    cpu_set_t c; pthread_getaffinity_np(pthread_self(), sizeof c, &c); s->mask = mask_of(c);
#ifdef CONF_REAL
    s->tid = (int)syscall(SYS_gettid);
#endif
    sem_post(&s->up); sem_wait(&s->go); return nullptr;
}
void run_attr(const int *ops, int depth, Out &o)
{
    pthread_attr_t a; pthread_attr_init(&a);
    sched_param sp;
    pthread_setname_np(pthread_self(), "conf-main");
    bool detached = false;
    for (int k = 0; k < depth; ++k) switch (ops[k])
    {
    case 0: o.add("stack-small", pthread_attr_setstacksize(&a, 16383)); break;
    case 1: o.add("stack", pthread_attr_setstacksize(&a, 1 << 18)); { size_t z = 0; pthread_attr_getstacksize(&a, &z); o.add("size", (long)z); } break;
    case 2: o.add("fifo", pthread_attr_setschedpolicy(&a, SCHED_FIFO)); break;
    case 3: o.add("policy-bad", pthread_attr_setschedpolicy(&a, 77)); break;
    case 4: sp.sched_priority = 10; o.add("prio10", pthread_attr_setschedparam(&a, &sp)); break;
    case 5: sp.sched_priority = 100; o.add("prio100", pthread_attr_setschedparam(&a, &sp)); break;
    case 6: o.add("explicit", pthread_attr_setinheritsched(&a, PTHREAD_EXPLICIT_SCHED)); break;
    case 7: o.add("inherit", pthread_attr_setinheritsched(&a, PTHREAD_INHERIT_SCHED)); break;
    case 8: { cpu_set_t c = set_of(2); o.add("aff2", pthread_attr_setaffinity_np(&a, sizeof c, &c)); } break;
    case 9: { cpu_set_t c = set_of(0); o.add("aff0", pthread_attr_setaffinity_np(&a, sizeof c, &c)); } break;
    case 10: { int r = pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); o.add("detached", r); detached = true; } break;
    case 11: { cpu_set_t c = set_of(1ull << 63 | 1); o.add("aff63", pthread_attr_setaffinity_np(&a, sizeof c, &c)); } break;
    }
    { cpu_set_t c; o.add("getaff", pthread_attr_getaffinity_np(&a, sizeof c, &c)); o.add("mask", (long)mask_of(c)); }
    started s; memset(&s, 0, sizeof s); sem_init(&s.go, 0, 0); sem_init(&s.up, 0, 0);
    int r = pthread_create(&s.th, &a, th_main, &s);
    o.add("create", r);
    if (!r)
    {
        sem_wait(&s.up);
        o.add("policy", s.pol); o.add("prio", s.prio); o.add("name", (long)strlen(s.name)); o.add("aff", (long)s.mask);
        sem_post(&s.go);
        if (!detached) o.add("join", pthread_join(s.th, nullptr));
#ifdef CONF_REAL
        else { char pth[64]; sprintf(pth, "/proc/self/task/%d", s.tid); struct stat st; while (stat(pth, &st) == 0) sched_yield(); }
#else
        else mc_quiesce();
#endif
    }
    sem_destroy(&s.go); sem_destroy(&s.up); pthread_attr_destroy(&a);
}
// ---- operations on the caller, a running and an exited thread ------------------------------------
void run_thread(const int *ops, int depth, Out &o)
{
    started s[2]; memset(s, 0, sizeof s);
    pthread_setname_np(pthread_self(), "conf-main");
    for (auto &x : s) { sem_init(&x.go, 0, 0); sem_init(&x.up, 0, 0); pthread_create(&x.th, nullptr, th_main, &x); sem_wait(&x.up); }
    sem_post(&s[1].go);   // this one exits and is not joined
#ifdef CONF_REAL
    { char pth[64]; sprintf(pth, "/proc/self/task/%d", s[1].tid); struct stat st; while (stat(pth, &st) == 0) sched_yield(); }
#else
    mc_quiesce();
#endif
    pthread_t who[3] = { pthread_self(), s[0].th, s[1].th };
    pthread_t t = who[ops[0] % 3];
    const bool exited = ops[0] % 3 == 2;
    sched_param sp; int pol; cpu_set_t c;
    for (int k = 1; k < depth; ++k) switch (ops[k])
    {
    case 0: o.add("name15", pthread_setname_np(t, "123456789012345") ? (exited ? 1 : errno) : 0); break;
    case 1: o.add("name16", pthread_setname_np(t, "1234567890123456")); break;
    case 2: o.add("name0", pthread_setname_np(t, "") ? 1 : 0); break;
    case 3: { char b[16] = "?"; int r = pthread_getname_np(t, b, 16); o.add("getname", r != 0); if (!r) for (const char *q = b; *q; ++q) o.add("c", *q); } break;
    case 4: { char b[16]; o.add("getname-small", pthread_getname_np(t, b, 15)); } break;
    case 5: c = set_of(1); o.add("aff1", pthread_setaffinity_np(t, sizeof c, &c)); break;
    case 6: c = set_of(0); o.add("aff0", pthread_setaffinity_np(t, sizeof c, &c)); break;
    case 7: c = set_of(1ull << 63 | 3); o.add("aff63+3", pthread_setaffinity_np(t, sizeof c, &c)); break;
    case 8: c = set_of(1ull << 63); o.add("aff63", pthread_setaffinity_np(t, sizeof c, &c)); break;
    case 9: { int r = pthread_getaffinity_np(t, sizeof c, &c); o.add("getaff", r); if (!r) o.add("mask", (long)mask_of(c)); } break;
    case 10: sp.sched_priority = 0; o.add("other0", pthread_setschedparam(t, SCHED_OTHER, &sp)); break;
    case 11: sp.sched_priority = 1; o.add("other1", pthread_setschedparam(t, SCHED_OTHER, &sp)); break;
    case 12: sp.sched_priority = 99; o.add("fifo99", pthread_setschedparam(t, SCHED_FIFO, &sp)); break;
    case 13: sp.sched_priority = 100; o.add("fifo100", pthread_setschedparam(t, SCHED_FIFO, &sp)); break;
    case 14: sp.sched_priority = 0; o.add("rr0", pthread_setschedparam(t, SCHED_RR, &sp)); break;
    case 15: { int r = pthread_getschedparam(t, &pol, &sp); o.add("getsched", r); if (!r) { o.add("pol", pol); o.add("prio", sp.sched_priority); } } break;
    case 16: o.add("prio5", pthread_setschedprio(t, 5)); break;
    case 17: o.add("prio0", pthread_setschedprio(t, 0)); break;
    }
    c = set_of(cores_n >= 64 ? ~0ull : (1ull << cores_n) - 1); sp.sched_priority = 0;
    pthread_setaffinity_np(pthread_self(), sizeof c, &c); pthread_setschedparam(pthread_self(), SCHED_OTHER, &sp);
    sem_post(&s[0].go);
    for (auto &x : s) { o.add("join", pthread_join(x.th, nullptr)); sem_destroy(&x.go); sem_destroy(&x.up); }
}
// ---- sleeping, limits ----------------------------------------------------------------------------
void run_misc(const int *ops, int, Out &o)
{
    timespec t{}, r{};
    switch (ops[0])
    {
    case 0: t.tv_nsec = 1000; o.rc("nanosleep", nanosleep(&t, &r)); break;
    case 1: t.tv_nsec = -1; o.rc("nanosleep", nanosleep(&t, &r)); break;
    case 2: t.tv_nsec = 1000000000; o.rc("nanosleep", nanosleep(&t, &r)); break;
    case 3: t.tv_sec = -1; o.rc("nanosleep", nanosleep(&t, &r)); break;
    case 4: clock_gettime(CLOCK_REALTIME, &t); t.tv_sec -= 3; o.add("abstime", clock_nanosleep(CLOCK_REALTIME, TIMER_ABSTIME, &t, nullptr)); break;
    case 5: clock_gettime(CLOCK_MONOTONIC, &t); t.tv_sec -= 1; o.add("abstime", clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, nullptr)); break;
    case 6: { timespec b; clock_gettime(CLOCK_MONOTONIC, &t); r.tv_nsec = 2000000; nanosleep(&r, nullptr); clock_gettime(CLOCK_MONOTONIC, &b); o.add("slept", (b.tv_sec - t.tv_sec) * 1000000000l + b.tv_nsec - t.tv_nsec >= 2000000); break; }
    case 7: { timespec b; clock_gettime(CLOCK_REALTIME, &t); sem_t s; sem_init(&s, 0, 0); b = t; b.tv_nsec += 2000000; if (b.tv_nsec > 999999999) { b.tv_nsec -= 1000000000; b.tv_sec++; }
        o.rc("timedwait", sem_timedwait(&s, &b)); clock_gettime(CLOCK_REALTIME, &r); o.add("waited", (r.tv_sec - t.tv_sec) * 1000000000l + r.tv_nsec - t.tv_nsec >= 2000000); sem_destroy(&s); break; }
    case 8: o.add("fifo-min", sched_get_priority_min(SCHED_FIFO)); o.add("fifo-max", sched_get_priority_max(SCHED_FIFO)); o.add("other-min", sched_get_priority_min(SCHED_OTHER)); o.add("other-max", sched_get_priority_max(SCHED_OTHER)); o.rc("bad", sched_get_priority_max(99)); break;
    case 9: o.add("join-self", pthread_join(pthread_self(), nullptr)); o.add("equal", pthread_equal(pthread_self(), pthread_self()) != 0); break;
    case 10: o.add("cores", sysconf(_SC_NPROCESSORS_ONLN)); break;
    }
}
struct Part { const char *name; int nops, depth; void (*run)(const int *, int, Out &); };
const Part parts[] = {
    { "named-semaphores", 14, 4, run_named },
    { "semaphore-names", 15, 1, run_names },
    { "unnamed-semaphores", 12, 5, run_local },
    { "mutexes", 4, 6, run_mutex },
    { "conditions-and-rwlocks", 6, 4, run_cond },
    { "thread-attributes", 12, 3, run_attr },
    { "thread-operations", 18, 3, run_thread },
    { "clocks-and-limits", 11, 1, run_misc },
};
const int NPARTS = sizeof parts / sizeof parts[0];
long count_of(const Part &p) { long n = 1; for (int i = 0; i < p.depth; ++i) n *= p.nops; return n; }
// the first digit of "thread-operations" and "mutexes" is a kind, not an operation
long run_one(int part, long idx)
{
    const Part &p = parts[part]; int ops[16]; long x = idx;
    for (int i = p.depth - 1; i >= 0; --i) { ops[i] = (int)(x % p.nops); x /= p.nops; }
    bool v = g_out.verbose; g_out = Out(); g_out.verbose = v; g_out.h = 1;
    p.run(ops, p.depth, g_out);
    return (long)g_out.h;
}
struct Header { long magic, cores, rt, total; };
}

#ifdef CONF_REAL
static volatile int signalled;
static void on_sig(int) { signalled = 1; }
int main(int argc, char **argv)
{
    snprintf(g_base, sizeof g_base, "/oqpi-conf-%d", (int)getpid());
    cpu_set_t c; sched_getaffinity(0, sizeof c, &c); cores_n = 0; while (cores_n < 62 && CPU_ISSET(cores_n, &c)) ++cores_n;
    if (CPU_COUNT(&c) != cores_n || cores_n < 2) { printf("unsuitable set of processors\n"); return 3; }
    sched_param sp; sp.sched_priority = 10; rt_ok = pthread_setschedparam(pthread_self(), SCHED_FIFO, &sp) == 0;
    sp.sched_priority = 0; pthread_setschedparam(pthread_self(), SCHED_OTHER, &sp);
    if (argc == 4 && !strcmp(argv[1], "--show")) { g_out.verbose = true; run_one(atoi(argv[2]), atol(argv[3])); printf("%s\n", g_out.text); return 0; }
    if (argc != 2) return 2;
    FILE *f = fopen(argv[1], "wb"); if (!f) return 2;
    Header h{ 0x0c09f, sysconf(_SC_NPROCESSORS_ONLN) == cores_n ? cores_n : -1, rt_ok, 0 };
    if (h.cores < 0) { printf("unsuitable set of processors\n"); return 3; }
    fwrite(&h, sizeof h, 1, f);
    for (int p = 0; p < NPARTS; ++p) { long n = count_of(parts[p]); for (long i = 0; i < n; ++i) { long r = run_one(p, i); fwrite(&r, 8, 1, f); } h.total += n; }
    // a signal handler makes a waiting sem_wait fail with EINTR (when installed without SA_RESTART)
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sigaction(SIGALRM, &sa, nullptr);
    sem_t s; sem_init(&s, 0, 0); itimerval it{}; it.it_value.tv_usec = 20000; setitimer(ITIMER_REAL, &it, nullptr);
    int r = sem_wait(&s); if (r != -1 || errno != EINTR || !signalled) { printf("sem_wait was not interrupted\n"); return 1; }
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 5; signalled = 0; setitimer(ITIMER_REAL, &it, nullptr);
    r = sem_timedwait(&s, &t); if (r != -1 || errno != EINTR || !signalled) { printf("sem_timedwait was not interrupted\n"); return 1; }
    t.tv_sec = 5; t.tv_nsec = 0; setitimer(ITIMER_REAL, &it, nullptr);
    timespec rem{}; r = nanosleep(&t, &rem); if (r != -1 || errno != EINTR || rem.tv_sec > 5) { printf("nanosleep was not interrupted\n"); return 1; }
    // and with SA_RESTART sem_timedwait still fails with EINTR or restarts, both are modelled
    rewind(f); fwrite(&h, sizeof h, 1, f); fclose(f);
    printf("%ld sequences on glibc (%s real-time priorities, %d processors)\n", h.total, rt_ok ? "with" : "without", cores_n);
    return 0;
}
#else
static const Header *table; static const long *results;
struct load_table
{
    load_table()
    {
        const char *p = getenv("CONF_TABLE"); if (!p) return;
        int fd = open(p, O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return;
        void *m = mmap(nullptr, st.st_size, PROT_READ, MAP_SHARED, fd, 0); if (m == MAP_FAILED) return;
        table = (const Header *)m; results = (const long *)(table + 1);
        strcpy(g_base, "/oqpi-conf-1234");
    }
} s_load;
static void body(int part)
{
    if (!table) { mc_fail("no-table", "CONF_TABLE is not set"); return; }
    mc_env_nproc((int)table->cores); mc_env_rtprio((int)table->rt); cores_n = (int)table->cores; rt_ok = table->rt;
    long idx = 0; for (int i = 0; i < parts[part].depth; ++i) idx = idx * parts[part].nops + mc_choose(parts[part].nops);
    long base = 0; for (int i = 0; i < part; ++i) base += count_of(parts[i]);
    long r = run_one(part, idx);
    if (r != results[base + idx])
    {
        g_out.verbose = true; run_one(part, idx);
        mc_fail("differs", "part %d sequence %ld differs from the real system; model:%s", part, idx, g_out.text);
    }
    mc_outcome((uint64_t)r);
}
MC_SCENARIO("CONF", "named-semaphores", body, nullptr, 0, 0, 0, MC_NOLEAK);
MC_SCENARIO("CONF", "semaphore-names", body, nullptr, 1, 0, 0, MC_NOLEAK);
MC_SCENARIO("CONF", "unnamed-semaphores", body, nullptr, 2, 0, 0, MC_NOLEAK);
MC_SCENARIO("CONF", "mutexes", body, nullptr, 3, 0, 0, MC_NOLEAK);
MC_SCENARIO("CONF", "conditions-and-rwlocks", body, nullptr, 4, 0, 0, MC_NOLEAK);
MC_SCENARIO("CONF", "thread-attributes", body, nullptr, 5, 0, 0, MC_NOLEAK | MC_NORACE);
MC_SCENARIO("CONF", "thread-operations", body, nullptr, 6, 0, 0, MC_NOLEAK | MC_NORACE);
MC_SCENARIO("CONF", "clocks-and-limits", body, nullptr, 7, 0, 0, MC_NOLEAK);
#endif
