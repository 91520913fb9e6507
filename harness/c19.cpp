// C19: a signal handler interrupting a wait does not end it.
#include "history.h"
#include "oqpi/parallel_algorithms/parallel_for.hpp"

using namespace std::chrono;
static sched_t *g_s;
static int g_budget = 2;
static void begin(int workers, int eintr) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); mc_env_eintr(eintr); }
static void end() { g_s->stop(); delete g_s; }
static void run(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; g_data[i] = 2; }
static void all(int n) { for (int i = 0; i < n; ++i) if (g_data[i] != 2) mc_fail("wait-returned-early", "task %d has not completed", i); }
// waits on tasks
template <int W> static void task_wait(int how)
{
    begin(W, 3);
    {
        task_handle h(mk([] { if (mc_choose(2)) std::this_thread::yield(); run(0); }));
        std::thread w; if (how & 2) w = std::thread([h]() mutable { h.wait(); all(1); });
        if (how & 1) { g_s->add(h); h.activeWait(); } else { std::thread p([&] { g_s->add(h); }); h.wait(); all(1); p.join(); }
        all(1); MC_CHECK(h.isDone(), "not-done-after-wait"); if (how & 2) w.join();
    }
    end();
}
static void result_wait(int)
{
    begin(1, 3);
    { auto t = mk([] { run(0); return 42; }); g_s->add(task_handle(t)); MC_CHECK(t->waitForResult() == 42, "wrong-result"); all(1); }
    end();
}
static void group_wait(int how)
{
    begin(how & 8 ? 2 : 1, 2);
    {
        auto fill = [](auto g) { for (int i = 0; i < 2; ++i) g->addTask(H(mk_ff([i] { run(i); }))); return task_handle(g); };
        task_handle h = how & 1 ? fill(mk_seq(*g_s)) : fill(mk_fork(*g_s, how & 4 ? 1 : 0));
        g_s->add(h); if (how & 2) h.activeWait(); else h.wait();
        all(2); MC_CHECK(h.isDone(), "not-done-after-wait");
    }
    end();
}
// a task that waits for another one inside a worker
static void nested(int)
{
    begin(2, 3);
    { task_handle b(mk([] { run(0); })); task_handle a(mk([b]() mutable { b.wait(); all(1); run(1); })); g_s->add(a); g_s->add(b); a.wait(); all(2); }
    end();
}
// idle workers: nothing to do, interrupted, still there for the next task; nothing is executed or lost
template <int W> static void idle(int)
{
    begin(W, 3); mc_quiesce();
    for (int i = 0; i < 2; ++i) { task_handle h(mk([i] { run(i); })); g_s->add(h); h.wait(); all(i + 1); }
    mc_quiesce(); MC_CHECK(g_s->isIdle(), "not-idle-when-done");
    end();
}
static void stop(int)
{
    begin(2, 3); g_s->add(H(mk_ff([] { run(0); }))); g_s->stop(); MC_CHECK(mc_live_threads() == 1, "worker-alive"); MC_CHECK(g_data[0] != 1, "task-running");
    g_s->start(); { task_handle h(mk([] { run(1); })); g_s->add(h); h.wait(); MC_CHECK(g_data[1] == 2, "wait-returned-early"); } mc_quiesce(); end(); MC_CHECK(g_data[0] == 2, "task-lost");
}
// the synchronization objects themselves: histories with interruptions
using a_evt = oqpi::auto_reset_event_interface<>; using mtx = oqpi::mutex_interface<global_sync_object>;
static evt_t *g_m; static a_evt *g_a; static sem_if *g_sem; static mtx *g_x; static int g_kind, g_timed;
static bool wait(int t)
{
    const int k = h_call(t, 'w'); bool r = false; const uint64_t t0 = mc_now();
    if (g_timed) { const auto d = milliseconds(2); r = g_m ? g_m->waitFor(d) : g_a ? g_a->waitUntil(system_clock::now() + d) : g_sem ? g_sem->waitFor(d) : g_x->try_lock_for(d); if (!r && mc_now() - t0 < 2000000) mc_fail("gave-up-early", "after %llu ns", (unsigned long long)(mc_now() - t0)); }
    else { r = g_m ? g_m->wait() : g_a ? g_a->wait() : g_sem ? g_sem->wait() : g_x->lock(); if (!r) mc_fail("wait-failed", "an interrupted wait reported failure"); }
    return h_ret(k, r);
}
static void signal(int t) { const int k = h_call(t, 'n'); if (g_m) g_m->notify(); if (g_a) g_a->notify(); if (g_sem) g_sem->notifyOne(); if (g_x) g_x->unlock(); h_ret(k); }
static void objects(int how)
{
    g_kind = how & 3; g_timed = how & 4; g_m = nullptr; g_a = nullptr; g_sem = nullptr; g_x = nullptr;
    switch (g_kind) { case 0: g_m = new evt_t; break; case 1: g_a = new a_evt; break; case 2: g_sem = new sem_if; break; case 3: g_x = new mtx("m"); break; }
    {
        mc_env_eintr(g_budget);
        std::thread a([] { if (wait(1) && g_x) signal(1); }), b([] { if (wait(2) && g_x) signal(2); }), c([] { signal(3); if (g_kind == 2 && mc_choose(2)) signal(3); });
        mc_quiesce_event(EV_REST); while (mc_live_threads() > 1) { signal(4); mc_quiesce(); }
        a.join(); b.join(); c.join();
    }
    // no signal was made up
    bool r = true; int n = 0; while (n < 9 && r) { r = g_m ? false : g_a ? g_a->waitFor(nanoseconds(0)) : g_sem ? g_sem->tryWait() : g_x->tryLock(); n += r; }
    mc_event(EV_NOTE, n, 0);
    delete g_m; delete g_a; delete g_sem; delete g_x;
}
struct spec
{
    static int next(const hop &o, int s, int *out)
    {
        if (o.kind == 'n') { out[0] = g_kind == 2 ? s + 1 : 1; return 1; }
        if (!o.res) { out[0] = s; return s == 0 || g_kind == 0; }
        out[0] = g_kind == 0 ? s : s - 1; return s > 0;
    }
    static bool rest(int s, const hop &o) { return o.kind == 'w' && s == 0; }
};
static void judge(int)
{
    const history h = h_collect(); h_outcome(h); if (!h_lin<spec>(h, 0, 0)) mc_fail("interruption-counted", "no order of%s explains the results", h.text("").c_str());
    // afterwards there is as much left as there were signals more than successful waits
    int s = 0, w = 0, left = -1; for (int i = 0; i < mc_log_size(); ++i) { const auto &e = mc_log()[i]; if (e.type == EV_LEAVE && g_h[e.a].kind == 'n') ++s; if (e.type == EV_LEAVE && g_h[e.a].kind == 'w' && e.b) ++w; if (e.type == EV_NOTE) left = e.a; }
    if ((g_kind == 1 || g_kind == 2) && left > s - w) mc_fail("interruption-counted", "%d signals, %d successful waits, and %d left", s, w, left);
    if (g_kind == 2 && left != s - w) mc_fail("interruption-counted", "%d signals, %d successful waits, and %d left", s, w, left);
}
// a parallel-for, which waits actively
static void loop(int)
{
    auto &s = *(g_s = new sched_t); add_workers(s, 1); s.start(); mc_env_eintr(2);
    oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(s, "loop", simple_partitioner(3, 2), task_priority::normal, [](int32_t i) { run(i); });
    all(3); end();
}
// any number of interruptions
static void storm(int n)
{
    begin(1, 0); mc_env_eintr_storm(n);
    { task_handle h(mk([] { run(0); })); std::thread p([&] { g_s->add(h); }); h.wait(); all(1); p.join(); task_handle a(mk([] { run(1); })); g_s->add(a); a.activeWait(); all(2); }
    end();
}
static void storm_objects(int n)
{
    mc_env_eintr_storm(n); const int kind = mc_choose(4), timed = mc_choose(3); g_m = nullptr; g_a = nullptr; g_sem = nullptr; g_x = nullptr; g_timed = timed;
    switch (kind) { case 0: g_m = new evt_t; break; case 1: g_a = new a_evt; break; case 2: g_sem = new sem_if; break; case 3: g_x = new mtx("m"); break; }
    {
        std::thread a([] { const bool r = wait(1); if (g_timed < 2) MC_CHECK(r || g_timed, "wait-failed"); mc_hb_none_raise(0); });
        if (timed < 2) { mc_quiesce(); if (!timed && mc_hb_none_get(0)) mc_fail("wait-returned-early", "without the signal"); signal(2); }
        a.join();
    }
    delete g_m; delete g_a; delete g_sem; delete g_x;
}
MC_SCENARIO("C19", "storm", storm, nullptr, 20, 0, 1, 0); MC_SCENARIO("C19", "storm-objects", storm_objects, nullptr, 40, 0, 1, 0);
MC_SCENARIO("C19", "storm-lasting", storm_objects, nullptr, 600, 0, 1, 0);
MC_SCENARIO("C19", "task-wait", task_wait<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C19", "task-wait-two-workers", task_wait<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C19", "task-active-wait", task_wait<1>, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C19", "task-two-waiters", task_wait<1>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C19", "result-wait", result_wait, nullptr, 0, 3, 6, 0);
MC_SCENARIO("C19", "fork-wait", group_wait, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C19", "fork-active-wait", group_wait, nullptr, 2, 3, 4, 0);
MC_SCENARIO("C19", "capped-fork-wait", group_wait, nullptr, 4, 3, 4, 0);
MC_SCENARIO("C19", "sequence-wait", group_wait, nullptr, 1, 3, 4, 0);
MC_SCENARIO("C19", "fork-active-wait-two-workers", group_wait, nullptr, 10, 1, 3, 0);
MC_SCENARIO("C19", "task-waits-for-task", nested, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C19", "idle-worker", idle<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C19", "idle-workers", idle<2>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C19", "stop", stop, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C19", "parallel-for", loop, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C19", "manual-event", objects, judge, 0, 4, 7, 0);
MC_SCENARIO("C19", "auto-event", objects, judge, 1, 4, 7, 0);
MC_SCENARIO("C19", "semaphore", objects, judge, 2, 4, 7, 0);
MC_SCENARIO("C19", "mutex", objects, judge, 3, 4, 7, 0);
MC_SCENARIO("C19", "manual-event-timed", objects, judge, 4, 3, 6, 0);
MC_SCENARIO("C19", "auto-event-timed", objects, judge, 5, 3, 6, 0);
MC_SCENARIO("C19", "semaphore-timed", objects, judge, 6, 3, 6, 0);
MC_SCENARIO("C19", "mutex-timed", objects, judge, 7, 3, 6, 0);
