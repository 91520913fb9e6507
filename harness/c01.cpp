// C01: every scheduled task is executed exactly once; no lost wake-up.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static void body(int i) { g_ran[i]++; mc_hb_none_raise(i); }
static void expect(int n) { for (int i = 0; i < n; ++i) if (g_ran[i] != 1) mc_fail("not-exactly-once", "task %d ran %d times", i, g_ran[i]); }
// waits for n fire-and-forget tasks without being ordered with them, then stops and checks
static void finish(int n)
{
    for (int i = 0; i < n; ++i) mc_hb_none_wait(i);
    g_s->stop();
    expect(n);
    delete g_s;
}
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }

// one producer, n tasks, w workers
template <int W, int N> static void simple(int)
{
    begin(W);
    for (int i = 0; i < N; ++i) g_s->add(mk_ff([i] { body(i); }));
    finish(N);
}
// two producers
template <int W> static void producers(int)
{
    begin(W);
    std::thread t([] { g_s->add(mk_ff([] { body(0); })); });
    g_s->add(mk_ff([] { body(1); }));
    t.join();
    finish(2);
}
// handed in before start
template <int W> static void before_start(int)
{
    g_s = new sched_t; add_workers(*g_s, W);
    g_s->add(mk_ff([] { body(0); }));
    g_s->add(mk_ff([] { body(1); }));
    g_s->start();
    finish(2);
}
// handed in before there is any worker, which is registered (and started) later
template <int W> static void before_registration(int how)
{
    g_s = new sched_t; task_handle last;
    g_s->add(mk_ff([] { body(0); }));
    if (how & 1) { auto g = mk_fork(*g_s); g->addTask(H(mk_ff([] { body(1); }))); g->addTask(H(mk_ff([] { body(2); }))); last = task_handle(g); } else { auto g = mk_seq(*g_s); g->addTask(H(mk_ff([] { body(1); }, task_priority::inherit))); g->addTask(H(mk_ff([] { body(2); }, task_priority::low))); last = task_handle(g); }
    g_s->add(last); if (how & 2) { std::thread t([] { g_s->add(mk_ff([] { body(3); }, task_priority::high)); }); t.join(); }
    add_workers(*g_s, W); g_s->start(); last.wait();
    finish(how & 2 ? 4 : 3);
}
// handed in while another thread starts the scheduler
template <int W> static void during_start(int)
{
    g_s = new sched_t; add_workers(*g_s, W);
    std::thread t([] { g_s->add(mk_ff([] { body(0); })); });
    g_s->start();
    t.join();
    finish(1);
}
// handed in from inside a running task
template <int W> static void inside(int)
{
    begin(W);
    g_s->add(mk_ff([] { g_s->add(mk_ff([] { body(1); })); body(0); }));
    finish(2);
}
// the same task handed in twice, from two threads
template <int W> static void twice(int)
{
    begin(W);
    {
        task_handle h(mk_ff([] { body(0); }));
        std::thread t([h] { g_s->add(h); });
        g_s->add(h);
        t.join();
    }
    finish(1);
}
// actively waited on by another thread while the scheduler may be executing it
template <int W> static void active(int)
{
    begin(W);
    {
        task_handle h(mk([] { body(0); }));
        std::thread t([h]() mutable { h.activeWait(); if (g_ran[0] != 1) mc_fail("not-exactly-once", "active wait returned with %d runs", g_ran[0]); });
        g_s->add(h);
        t.join();
    }
    finish(1);
}
// two active waiters and a worker
static void active2(int)
{
    begin(1);
    {
        task_handle h(mk([] { body(0); }));
        g_s->add(h);
        std::thread t([h]() mutable { h.activeWait(); });
        h.activeWait();
        t.join();
    }
    finish(1);
}
// members of a group, handed in through it, while somebody may be waiting actively
template <int W> static void members(int how)
{
    if (how & 4) { g_s = new sched_t; add_workers(*g_s, W); } else begin(W);
    {
        task_group_sptr g; if (how & 1) g = mk_seq(*g_s); else g = mk_fork(*g_s, how >> 4);
        task_handle first(mk([] { body(0); }));
        g->addTask(first); g->addTask(H(mk_ff([] { body(1); }))); if (how & 8) g->addTask(H(mk_ff([] { body(2); })));
        task_handle h(g); g.reset();
        g_s->add(h); if (how & 4) g_s->start();
        if (how & 2) { std::thread t([h]() mutable { h.activeWait(); }); h.wait(); t.join(); } else if (how & 1) h.wait(); else first.activeWait();
    }
    finish(how & 8 ? 3 : 2);
}
// the members of a group are handed in (or waited for) on their own as well
template <int W> static void members_on_their_own(int how)
{
    begin(W);
    {
        auto g = mk_fork(*g_s); task_handle a(mk([] { body(0); })), b(mk([] { body(1); }));
        g->addTask(a); g->addTask(b); task_handle h(g); g.reset();
        std::thread t([&] { if (how) b.activeWait(); else g_s->add(b); });
        g_s->add(h); h.wait(); t.join();
    }
    finish(2);
}
MC_SCENARIO("C01", "fork-active-wait", members<1>, nullptr, 2, 3, 6, 0);
MC_SCENARIO("C01", "two-workers-fork-active-wait", members<2>, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C01", "three-members-active-wait", members<1>, nullptr, 2 | 8, 2, 5, 0);
MC_SCENARIO("C01", "capped-fork-active-wait", members<1>, nullptr, 2 | 8 | 16, 2, 5, 0);
MC_SCENARIO("C01", "fork-before-start-active-wait", members<1>, nullptr, 2 | 4, 3, 6, 0);
MC_SCENARIO("C01", "two-workers-fork-before-start-active-wait", members<2>, nullptr, 2 | 4, 1, 2, 0);
MC_SCENARIO("C01", "fork-first-member-active-wait", members<1>, nullptr, 0, 3, 6, 0);
MC_SCENARIO("C01", "two-workers-capped-first-member-active-wait", members<2>, nullptr, 8 | 32, 1, 3, 0);
MC_SCENARIO("C01", "sequence", members<1>, nullptr, 1, 3, 6, 0);
MC_SCENARIO("C01", "two-workers-sequence", members<2>, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C01", "member-handed-in-too", members_on_their_own<1>, nullptr, 0, 2, 5, 0);
MC_SCENARIO("C01", "two-workers-member-handed-in-too", members_on_their_own<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C01", "member-waited-for-too", members_on_their_own<1>, nullptr, 1, 2, 5, 0);
MC_SCENARIO("C01", "one-worker-two-tasks", (simple<1, 2>), nullptr, 0, 3, 5, 0);
MC_SCENARIO("C01", "two-workers-two-tasks", (simple<2, 2>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "one-worker-two-producers", producers<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "two-workers-two-producers", producers<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "one-worker-before-start", before_start<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C01", "two-workers-before-start", before_start<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "before-registration", before_registration<1>, nullptr, 1, 2, 5, 0);
MC_SCENARIO("C01", "before-registration-sequence", before_registration<1>, nullptr, 2, 2, 5, 0);
MC_SCENARIO("C01", "two-workers-before-registration", before_registration<2>, nullptr, 3, 1, 2, 0);
MC_SCENARIO("C01", "one-worker-during-start", during_start<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C01", "one-worker-from-inside", inside<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C01", "two-workers-from-inside", inside<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "one-worker-same-task-twice", twice<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "two-workers-same-task-twice", twice<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "one-worker-active-wait", active<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C01", "two-workers-active-wait", active<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "one-worker-two-active-waits", active2, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C01", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-tasks-two-workers", large_tasks_two_workers, nullptr, 40, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-loop", large_loop, nullptr, 500, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-restarts", large_restarts, nullptr, 11, 0, 1, MC_LONG);
MC_SCENARIO("C01", "large-same", large_same, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C01", "crew", crew, nullptr, 12, 1, 2, MC_DELAY);
MC_SCENARIO("C01", "crew-of-specialists", crew_of_specialists, nullptr, 0, 1, 3, MC_DELAY);
MC_SCENARIO("C01", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
