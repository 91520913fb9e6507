// C18: timed waits wait as long as asked and report truthfully.
#include "history.h"
#include <ratio>

using namespace std::chrono;
using a_evt = oqpi::auto_reset_event_interface<>; using ga_evt = oqpi::auto_reset_event_interface<global_sync_object>;
using gm_evt = oqpi::manual_reset_event_interface<global_sync_object>;
using g_sem = oqpi::semaphore_interface<global_sync_object>;
using mtx = oqpi::mutex_interface<global_sync_object>;
// one waitable object of any kind
struct any { evt_t *m = nullptr; a_evt *a = nullptr; gm_evt *gm = nullptr; ga_evt *ga = nullptr; sem_if *s = nullptr; g_sem *gs = nullptr; mtx *x = nullptr; };
static any o;
static bool sticky() { return o.m || o.gm; }
static void make(int kind)
{
    switch (kind) { case 0: o.m = new evt_t; break; case 1: o.a = new a_evt; break; case 2: o.s = new sem_if; break; case 3: o.x = new mtx("t"); break; case 4: o.gm = new gm_evt("t"); break; case 5: o.ga = new ga_evt("t"); break; case 6: o.gs = new g_sem("t"); break; }
}
static void drop() { delete o.m; delete o.a; delete o.gm; delete o.ga; delete o.s; delete o.gs; delete o.x; o = any(); }
static void signal() { if (o.m) o.m->notify(); if (o.a) o.a->notify(); if (o.gm) o.gm->notify(); if (o.ga) o.ga->notify(); if (o.s) o.s->notifyOne(); if (o.gs) o.gs->notifyOne(); if (o.x) o.x->unlock(); }
template <typename D> static bool wait_for(const D &d)
{
    if (o.m) return o.m->waitFor(d); if (o.a) return o.a->waitFor(d); if (o.gm) return o.gm->waitFor(d); if (o.ga) return o.ga->waitFor(d); if (o.s) return o.s->waitFor(d); if (o.gs) return o.gs->waitFor(d);
    return mc_choose(2) ? o.x->tryLockFor(d) : o.x->try_lock_for(d);
}
template <typename P> static bool wait_until(const P &p)
{
    if (o.m) return o.m->waitUntil(p); if (o.a) return o.a->waitUntil(p); if (o.gm) return o.gm->waitUntil(p); if (o.ga) return o.ga->waitUntil(p); if (o.s) return o.s->waitUntil(p); if (o.gs) return o.gs->waitUntil(p);
    return mc_choose(2) ? o.x->tryLockUntil(p) : o.x->try_lock_until(p);
}
// the time it is
static const uint64_t SEC = 1000000000ull;
static const uint64_t NOW[] = {1700000000 * SEC, 1700000000 * SEC + 999999999, 1700000000 * SEC + 1, 1700000000 * SEC + 500000000, 1700000000 * SEC + 123456789, 2147483647 * SEC + 999999998};
// how long to wait: a value and the types to give it in. Returns what the wait returned; *ns is how long that is
static const int N_DUR = 30;
static bool timed(int d, double *ns)
{
    #define D(k, e) case k: { auto x = e; *ns = duration<double, std::nano>(x).count(); return wait_for(x); }
    switch (d)
    {
        D(0, nanoseconds(0)) D(1, nanoseconds(1)) D(2, nanoseconds(-1)) D(3, nanoseconds(999999999)) D(4, nanoseconds(1000000000)) D(5, nanoseconds(1000000001)) D(6, nanoseconds(-999999999)) D(7, nanoseconds(-1000000001))
        D(8, microseconds(1)) D(9, microseconds(999999)) D(10, milliseconds(1)) D(11, milliseconds(1500)) D(12, milliseconds(999)) D(13, milliseconds(-2500)) D(14, seconds(0)) D(15, seconds(1)) D(16, seconds(-1))
        D(17, minutes(1)) D(18, hours(24)) D(19, hours(24 * 365 * 100)) D(20, duration<double>(0.25)) D(21, duration<double>(2.75)) D(22, duration<float>(-0.5f)) D(23, (duration<int, std::ratio<1, 60>>(90)))
        D(24, (duration<double, std::milli>(1.5))) D(25, (duration<int, std::micro>(2000001))) D(26, (duration<short, std::ratio<1>>(3))) D(27, nanoseconds(2999999999)) D(28, milliseconds(500)) D(29, seconds(-1700000001))
    }
    #undef D
    return false;
}
static void judge_alone(bool r, bool available, uint64_t t0, double ns)
{
    const double t = double(mc_now() - t0);
    if (r != available) mc_fail(r ? "success-without-signal" : "signal-missed", "waiting %.0f ns from %llu on", ns, (unsigned long long)t0);
    if (r && t) mc_fail("waited-though-available", "%.0f ns", t);
    if (!r && t < ns - 1) mc_fail("gave-up-early", "after %.0f of %.0f ns, from %llu on", t, ns, (unsigned long long)t0);
    if (!r && t > std::max(ns, 0.) * 1.0000001 + 1000) mc_fail("gave-up-late", "after %.0f instead of %.0f ns, from %llu on", t, ns, (unsigned long long)t0);
}
// nobody else there: every kind of object, current time and duration
static void alone(int kind)
{
    mc_env_clock(NOW[mc_choose(6)]); make(kind); const bool available = mc_choose(2); if (available) signal();
    double ns; const uint64_t t0 = mc_now(); const bool r = timed(mc_choose(N_DUR), &ns);
    judge_alone(r, available, t0, ns);
    const bool left = sticky() && available; const uint64_t t1 = mc_now(); judge_alone(wait_for(microseconds(300)), left, t1, 300000);
    drop();
}
// until a point in time, on several clocks
static void until(int kind)
{
    mc_env_clock(NOW[mc_choose(6)]); make(kind); const bool available = mc_choose(2); if (available) signal();
    static const long OFF[] = {0, 1, -1, 1000000, 999999999, 1500000000, -2500000000, 86400000000000, -1700000000000000000};
    const long off = OFF[mc_choose(9)]; bool r; const uint64_t t0 = mc_now();
    switch (mc_choose(4))
    {
        case 0: r = wait_until(system_clock::now() + nanoseconds(off)); break;
        case 1: r = wait_until(steady_clock::now() + nanoseconds(off)); break;
        case 2: r = wait_until(high_resolution_clock::now() + nanoseconds(off)); break;
        default: { const auto tp = time_point_cast<milliseconds>(system_clock::now() + nanoseconds(off)); const long e = long(tp.time_since_epoch().count()) * 1000000 - long(t0); r = wait_until(tp); judge_alone(r, available, t0, double(e)); drop(); return; }
    }
    judge_alone(r, available, t0, double(off)); drop();
}
// a signal comes at any moment, maybe with a handler interrupting the wait
struct timing { uint64_t t0, t1; bool r; uint64_t ns; };
static timing g_w[2]; static uint64_t g_sig1; static int g_waiters, g_sticky;
static void signal_comes(int how)
{
    const int kind = how & 7; mc_env_clock(NOW[1 + mc_choose(2)]); make(kind); g_sticky = sticky(); g_waiters = how & 8 ? 2 : 1; if (how & 16) mc_env_eintr(1);
    {
        static const long AT[] = {0, 1000000, 1999999, 2000000, 2000001, 3000000}; const long at = AT[mc_choose(6)]; const int d = mc_choose(2);
        auto waiter = [d](int i) { timing &w = g_w[i]; w.t0 = mc_now(); const int k = h_call(1 + i, 't'); w.ns = d ? 2500000 : 2000000; w.r = d ? wait_until(system_clock::now() + microseconds(2500)) : wait_for(milliseconds(2)); h_ret(k, w.r); w.t1 = mc_now(); };
        std::thread n([at] { if (at) std::this_thread::sleep_for(nanoseconds(at)); const int k = h_call(3, 'n'); signal(); h_ret(k); g_sig1 = mc_now(); });
        std::thread b; if (g_waiters == 2) b = std::thread([&] { waiter(1); });
        waiter(0); if (g_waiters == 2) b.join(); n.join();
    }
    drop();
}
struct one { static int next(const hop &x, int s, int *out) { if (x.kind == 'n') { out[0] = 1; return 1; } if (!x.res) { out[0] = s; return s == 0 || (g_sticky && g_waiters > 1); } out[0] = g_sticky ? s : 0; return s == 1; } static bool rest(int, const hop &) { return false; } };
static void judge_signal(int)
{
    const history h = h_collect(); h_outcome(h);
    if (!h_lin<one>(h, 0, 0)) mc_fail("untruthful", "no order of%s explains the results", h.text("").c_str());
    int got = 0; for (int i = 0; i < g_waiters; ++i) got += g_w[i].r;
    for (int i = 0; i < g_waiters; ++i)
    {
        timing &w = g_w[i];
        if (w.r) continue;
        if (w.t1 - w.t0 < w.ns) mc_fail("gave-up-early", "after %llu of %llu ns", (unsigned long long)(w.t1 - w.t0), (unsigned long long)w.ns);
        if (g_sig1 < w.t0 + w.ns && (g_waiters == 1 || !got)) mc_fail("signal-missed", "signalled at %llu, the wait began at %llu and had %llu ns", (unsigned long long)g_sig1, (unsigned long long)w.t0, (unsigned long long)w.ns);
    }
}
// interrupted, no signal: goes on until the end
static void interrupted(int kind)
{
    mc_env_clock(NOW[1]); make(kind); mc_env_eintr(3);
    double ns; const uint64_t t0 = mc_now(); static const int D[] = {10, 11, 21, 4}; const bool r = timed(D[mc_choose(4)], &ns);
    judge_alone(r, false, t0, ns); drop();
}
// others keep notifying somebody else's; the mutex changes hands meanwhile
static void handed_on(int)
{
    make(3); mtx &m = *o.x; m.unlock();
    {
        static int inside; inside = 0;
        auto f = [&m] { const uint64_t t0 = mc_now(); if (m.try_lock_for(milliseconds(2))) { MC_CHECK(inside++ == 0, "two-owners"); const int d = g_data[0]; std::this_thread::sleep_for(milliseconds(1)); g_data[0] = d + 1; --inside; m.unlock(); } else MC_CHECK(mc_now() - t0 >= 2000000, "gave-up-early"); };
        std::thread a(f), b(f); f(); a.join(); b.join(); MC_CHECK(m.tryLock(), "free-mutex-locked");
    }
    drop();
}
MC_SCENARIO("C18", "manual-event", alone, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "auto-event", alone, nullptr, 1, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "semaphore", alone, nullptr, 2, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "mutex", alone, nullptr, 3, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "global-manual-event", alone, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "global-auto-event", alone, nullptr, 5, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "global-semaphore", alone, nullptr, 6, 0, 0, MC_SEQ);
template <int K> struct per { static void u(int) { until(K); } static void i(int) { interrupted(K); } };
MC_SCENARIO("C18", "until-manual-event", until, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-auto-event", until, nullptr, 1, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-semaphore", until, nullptr, 2, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-mutex", until, nullptr, 3, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-global-manual-event", until, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-global-auto-event", until, nullptr, 5, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "until-global-semaphore", until, nullptr, 6, 0, 0, MC_SEQ);
MC_SCENARIO("C18", "interrupted-event", interrupted, nullptr, 0, 3, 4, MC_SEQ);
MC_SCENARIO("C18", "interrupted-auto-event", interrupted, nullptr, 1, 3, 4, MC_SEQ);
MC_SCENARIO("C18", "interrupted-semaphore", interrupted, nullptr, 2, 3, 4, MC_SEQ);
MC_SCENARIO("C18", "interrupted-mutex", interrupted, nullptr, 3, 3, 4, MC_SEQ);
MC_SCENARIO("C18", "signal-manual-event", signal_comes, judge_signal, 0, 4, 8, 0);
MC_SCENARIO("C18", "signal-auto-event", signal_comes, judge_signal, 1, 4, 8, 0);
MC_SCENARIO("C18", "signal-semaphore", signal_comes, judge_signal, 2, 4, 8, 0);
MC_SCENARIO("C18", "signal-mutex", signal_comes, judge_signal, 3, 4, 8, 0);
MC_SCENARIO("C18", "signal-manual-event-two", signal_comes, judge_signal, 8, 3, 6, 0);
MC_SCENARIO("C18", "signal-auto-event-two", signal_comes, judge_signal, 9, 3, 6, 0);
MC_SCENARIO("C18", "signal-semaphore-two", signal_comes, judge_signal, 10, 3, 6, 0);
MC_SCENARIO("C18", "signal-mutex-two", signal_comes, judge_signal, 11, 3, 6, 0);
MC_SCENARIO("C18", "signal-interrupted", signal_comes, judge_signal, 18, 3, 6, 0);
MC_SCENARIO("C18", "signal-interrupted-event", signal_comes, judge_signal, 16, 3, 6, 0);
MC_SCENARIO("C18", "mutex-handed-on", handed_on, nullptr, 0, 3, 6, 0);
