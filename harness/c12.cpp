// C12: a scheduler reported idle has no pending or running task.
#include "common.h"
#include "large.h"

using namespace std::chrono;
static sched_t *g_s;
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void end() { g_s->stop(); delete g_s; }
static void run(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; g_data[i] = 2; }
// what an observer asks: everything handed in before (flag 10 + i) has been executed
static bool ask(int n, const int *implies = nullptr)
{
    int before[8]; for (int i = 0; i < n; ++i) before[i] = mc_hb_none_get(10 + i);
    const bool idle = g_s->isIdle();
    if (idle) for (int i = 0; i < n; ++i) if (before[i]) for (int k = i; k < i + (implies ? implies[i] : 1); ++k)
        if (g_data[k] != 2) mc_fail("idle-too-early", "reported idle, but task %d, handed in before, is %s", k, g_data[k] ? "still executing" : "still pending");
    mc_outcome(idle);
    return idle;
}
static void came_back() { mc_quiesce(); MC_CHECK(g_s->isIdle(), "not-idle-when-done"); }
static void add(const task_handle &h, int i) { g_s->add(h); mc_hb_none_raise(10 + i); }
// the producer itself asks
template <int W> static void self(int n)
{
    begin(W);
    MC_CHECK(g_s->isIdle(), "not-idle-when-done");
    for (int i = 0; i < n; ++i) { add(H(mk_ff([i] { run(i); }, i == 1 ? task_priority::low : task_priority::normal)), i); ask(n); }
    ask(n); came_back(); ask(n);
    end();
}
// someone else asks meanwhile
template <int W> static void other(int n)
{
    begin(W);
    {
        std::thread t([n] { ask(n); ask(n); });
        for (int i = 0; i < n; ++i) add(H(mk_ff([i] { run(i); })), i);
        t.join();
    }
    came_back(); ask(n);
    end();
}
// two threads ask at once
static void two_askers(int)
{
    begin(1);
    { std::thread t([] { ask(1); }), u([] { ask(1); }); add(H(mk_ff([] { run(0); })), 0); t.join(); u.join(); }
    came_back(); end();
}
// a task hands in another one (and that one a third)
template <int W> static void chain(int n)
{
    begin(W);
    static int len; len = n; static const int imp2[] = {2, 0, 0}, imp3[] = {3, 0, 0};
    struct c { static void go(int i) { if (i + 1 < len) g_s->add(H(mk_ff([i] { go(i + 1); }))); run(i); } };
    std::thread t([] { ask(1, len == 2 ? imp2 : imp3); });
    add(H(mk_ff([] { c::go(0); })), 0);
    ask(1, n == 2 ? imp2 : imp3);
    t.join(); came_back(); ask(1, n == 2 ? imp2 : imp3);
    end();
}
template <int W> static void group(int kind)
{
    begin(W);
    static const int imp[] = {2};
    auto fill = [](auto g) { for (int i = 0; i < 2; ++i) g->addTask(H(mk_ff([i] { run(i); }))); return task_handle(g); };
    task_handle h = kind == 0 ? fill(mk_fork(*g_s)) : kind == 1 ? fill(mk_fork(*g_s, 1)) : fill(mk_seq(*g_s));
    add(h, 0);
    if (mc_choose(2)) h.wait();
    ask(1, imp); ask(1, imp);
    came_back(); ask(1, imp);
    h.reset(); end();
}
// the same task handed in twice; one taken over by somebody else
static void twice(int how)
{
    begin(how & 1 ? 2 : 1);
    {
        task_handle h(mk([] { run(0); }));
        if (how & 2) { std::thread t([&] { add(h, 0); ask(1); }); g_s->add(h); ask(1); t.join(); }
        else { add(h, 0); ask(1); g_s->add(h); }
        ask(1); h.wait(); came_back();
    }
    end();
}
// stopped with pending tasks, never started
static void stopped(int how)
{
    g_s = new sched_t; add_workers(*g_s, 1);
    MC_CHECK(g_s->isIdle(), "not-idle-when-done");
    if (how & 1) { add(H(mk_ff([] { run(0); })), 0); MC_CHECK(!g_s->isIdle(), "idle-too-early"); }
    g_s->start();
    add(H(mk_ff([] { run(1); })), 1); ask(2);
    g_s->stop();
    MC_CHECK(g_s->isIdle() == (g_data[1] == 2 && (!(how & 1) || g_data[0] == 2)), "idle-after-stop");
    add(H(mk_ff([] { run(2); })), 2); ask(3);
    g_s->start(); ask(3); came_back(); ask(3);
    end();
}
// waiting until idle
template <int W> static void until(int how)
{
    begin(W);
    static const long PERIOD[] = {1, 1000000, 7000000}, MAX[] = {0, 5000000, 3600000000000};
    {
        const long per = how & 2 ? PERIOD[1 + mc_choose(2)] : PERIOD[mc_choose(3)], max = MAX[how & 1 ? 2 : mc_choose(how & 2 ? 2 : 3)];   // the clock only advances when everybody sleeps
        const int blocked = how & 2;
        if (how & 4) mc_env_eintr(1);
        if (blocked) { g_s->add(H(mk_ff([] { mc_hb_none_raise(1); mc_hb_none_wait(2); }))); mc_hb_none_wait(1); }
        static const int imp[] = {2};
        if (!blocked) add(H(mk_ff([] { g_s->add(H(mk_ff([] { run(1); }))); run(0); })), 0);
        const uint64_t t0 = mc_now();
        if (how & 1 && !blocked) g_s->waitUntilIdle(nanoseconds(per), hours(1)); else g_s->waitUntilIdle(nanoseconds(per), nanoseconds(max));
        const uint64_t t = mc_now() - t0;
        const bool done = !blocked && t <= uint64_t(max);
        if (done) { MC_CHECK(g_data[0] == 2 && g_data[1] == 2, "idle-too-early"); }
        else { MC_CHECK(t > uint64_t(max), "returned-too-early"); MC_CHECK(t <= uint64_t(max) + 2 * per, "returned-too-late"); }
        mc_outcome(t);
        if (blocked) mc_hb_none_raise(2);
        came_back();
        const uint64_t t1 = mc_now(); g_s->waitUntilIdle(milliseconds(3), seconds(2)); MC_CHECK(mc_now() - t1 <= 3000000, "slept-though-idle");
    }
    end();
}
// time passes while one waits, not only while one sleeps
static void until_ticking(int how)
{
    begin(1);
    {
        static const long PERIOD[] = {0, 1, 1000000, 20000000}; static const uint64_t TICK[] = {300000, 1000000, 9000000};
        const long per = PERIOD[mc_choose(4)]; const uint64_t tick = TICK[mc_choose(3)], max = 5000000;
        if (how) { g_s->add(H(mk_ff([] { mc_hb_none_raise(1); mc_hb_none_wait(2); }))); mc_hb_none_wait(1); }
        else add(H(mk_ff([] { run(0); })), 0);
        const uint64_t t0 = mc_now(); mc_env_tick(tick);
        g_s->waitUntilIdle(nanoseconds(per), nanoseconds(max));
        mc_env_tick(0); const uint64_t t = mc_now() - t0;
        if (how || t > max + tick) { MC_CHECK(t > max, "returned-too-early"); MC_CHECK(t <= max + 2 * per + 20 * tick, "returned-too-late"); }
        else MC_CHECK(t > max || g_data[0] == 2, "idle-too-early");
        mc_outcome(t); if (how) mc_hb_none_raise(2);
        came_back();
    }
    end();
}
// sleeping, which the above relies on
static void sleeping(int how)
{
    static const long T[] = {0, -1, -5000000, 1, 999999, 1000000, 1500000, 999999999, 1000000000, 2500000001, 86400000000001};
    const long t = T[mc_choose(11)]; if (how) mc_env_eintr(2);
    const uint64_t t0 = mc_now();
    if (mc_choose(2)) oqpi::this_thread::sleep_for(nanoseconds(t)); else oqpi::this_thread::sleep_until(system_clock::now() + nanoseconds(t));
    const long d = long(mc_now() - t0);
    MC_CHECK(d >= t, "slept-too-short"); MC_CHECK(d <= std::max(t, 0l) + 1000000, "slept-too-long");
    const uint64_t t1 = mc_now(); oqpi::this_thread::sleep_for(milliseconds(2)); MC_CHECK(mc_now() - t1 >= 2000000, "slept-too-short");
    const uint64_t t2 = mc_now(); oqpi::this_thread::sleep_for(duration<double>(1.25)); MC_CHECK(mc_now() - t2 >= 1250000000, "slept-too-short");
}
MC_SCENARIO("C12", "self-one-worker", self<1>, nullptr, 2, 3, 5, 0);
MC_SCENARIO("C12", "self-two-workers", self<2>, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C12", "other-one-worker", other<1>, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C12", "other-two-workers", other<2>, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C12", "other-two-tasks", other<1>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C12", "two-askers", two_askers, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C12", "chain-one-worker", chain<1>, nullptr, 2, 3, 4, 0);
MC_SCENARIO("C12", "chain-two-workers", chain<2>, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C12", "chain-of-three", chain<2>, nullptr, 3, 1, 3, 0);
MC_SCENARIO("C12", "fork-one-worker", group<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C12", "fork-two-workers", group<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C12", "capped-fork-two-workers", group<2>, nullptr, 1, 1, 3, 0);
MC_SCENARIO("C12", "sequence-one-worker", group<1>, nullptr, 2, 3, 4, 0);
MC_SCENARIO("C12", "sequence-two-workers", group<2>, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C12", "twice-one-worker", twice, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C12", "twice-two-workers", twice, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C12", "twice-from-two-threads", twice, nullptr, 3, 1, 3, 0);
MC_SCENARIO("C12", "stopped", stopped, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C12", "stopped-before-start", stopped, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C12", "until-one-worker", until<1>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C12", "until-two-workers", until<2>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C12", "until-hours", until<1>, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C12", "until-busy", until<1>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C12", "until-interrupted", until<1>, nullptr, 6, 1, 2, 0);
MC_SCENARIO("C12", "until-ticking", until_ticking, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C12", "until-ticking-busy", until_ticking, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C12", "sleeping", sleeping, nullptr, 0, 2, 2, MC_SEQ);
MC_SCENARIO("C12", "sleeping-interrupted", sleeping, nullptr, 1, 2, 3, MC_SEQ);
MC_SCENARIO("C12", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C12", "large-pending", large_pending, nullptr, 520, 0, 1, MC_LONG);
MC_SCENARIO("C12", "large-same", large_same, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C12", "crew", crew, nullptr, 12, 1, 2, MC_DELAY);
MC_SCENARIO("C12", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
