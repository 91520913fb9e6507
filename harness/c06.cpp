// C06: actively waiting on a fork or running a parallel-for always gets through.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static int  g_closed[8];                     // set by the waiter of fork q once its wait returned
static void work(int q, int i) { MC_CHECK(g_data[4 * q + i] == 0, "executed-twice"); MC_CHECK(!g_closed[q], "ran-after-wait"); g_data[4 * q + i] = 1; g_data[4 * q + i] = 2; }
static void all(int q, int n) { for (int i = 0; i < n; ++i) if (g_data[4 * q + i] != 2) mc_fail("wait-returned-early", "the active wait on fork %d returned, but member %d has not completed", q, i); }
static void end() { g_s->stop(); delete g_s; }
template <int N> static task_handle fork_of(int q, int how = 0)
{
    auto f = mk_fork(*g_s, how & 8 ? 1 : 0, how & 16 ? task_priority::high : task_priority::normal);
    for (int i = 0; i < N; ++i) f->addTask(how & 4 ? H(mk([q, i] { work(q, i); })) : H(mk_ff([q, i] { work(q, i); }, how & 32 ? task_priority::low : task_priority::normal)));
    return task_handle(f);
}
template <int N> static void through(int q, task_handle h, bool exclusive = true)
{
    h.activeWait(); MC_CHECK(h.isDone(), "not-done-after-wait"); all(q, N); if (exclusive) g_closed[q] = 1;
}
template <int N> static void fork_and_wait(int q, int how = 0) { through<N>(q, g_s->add(fork_of<N>(q, how))); }
// the only worker's task actively waits
template <int W, int N> static void in_task(int how)
{
    begin(W);
    { task_handle t(mk([how] { fork_and_wait<N>(0, how); })); g_s->add(t); t.wait(); all(0, N); }
    end();
}
// nested: the members of the fork fork and wait themselves
template <int W> static void nested(int)
{
    begin(W);
    {
        auto f = mk_fork(*g_s);
        for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { fork_and_wait<2>(1 + i); g_data[i] = 2; })));
        task_handle g(f); f.reset(); g_s->add(g); g.activeWait(); all(0, 2); all(1, 2); all(2, 2);
    }
    end();
}
// every worker waits actively, on forks of their own
template <int W> static void all_waiting(int)
{
    begin(W);
    {
        task_handle t[2];
        for (int i = 0; i < 2; ++i) { t[i] = H(mk([i] { fork_and_wait<2>(i); })); g_s->add(t[i]); }
        for (int i = 0; i < 2; ++i) { t[i].wait(); all(i, 2); }
    }
    end();
}
// all other workers block in plain waits on a task which depends on the fork's waiter
template <int W> static void others_blocked(int)
{
    begin(W);
    {
        static task_handle last; last = H(mk([] { fork_and_wait<2>(0); }));
        task_handle t(mk([] { last.wait(); all(0, 2); }));
        g_s->add(last); g_s->add(t); t.wait(); last.wait(); last.reset();
    }
    end();
}
// two threads wait actively on the same fork, one of them possibly a task
template <int W, int N> static void two_waiters(int how)
{
    begin(W);
    {
        static task_handle g; g = fork_of<N>(0, how & ~3);
        if (!(how & 1)) g_s->add(g);
        std::thread t([] { g.activeWait(); all(0, N); });
        if (how & 2) { task_handle k(mk([] { g.activeWait(); all(0, N); })); g_s->add(k); k.wait(); }
        else through<N>(0, g, false);
        t.join(); g_closed[0] = 1; g.reset();
    }
    end();
}
// plain waiter and active waiter
template <int W> static void plain_and_active(int)
{
    begin(W);
    {
        static task_handle g; g = g_s->add(fork_of<2>(0));
        std::thread t([] { g.wait(); all(0, 2); });
        through<2>(0, g, true);
        t.join(); g.reset();
    }
    end();
}
// never handed in; or without any running worker
template <int W> static void unscheduled(int how)
{
    g_s = new sched_t; add_workers(*g_s, W);
    if (!(how & 1)) g_s->start();
    { task_handle g = fork_of<2>(0); if (how & 2) g_s->add(g); through<2>(0, g); if (how & 4) g_s->add(g); if (how & 8) { g_s->start(); g_s->add(g); } }
    if (!(how & 1) || (how & 8)) g_s->stop();
    delete g_s;
}
// again after completion
template <int W> static void again(int)
{
    begin(W);
    { task_handle g = fork_of<2>(0); g_s->add(g); through<2>(0, g); g.activeWait(); g.wait(); g_s->add(g); g.activeWait(); }
    end();
}
// parallel-for
template <typename F> static void pfor(int first, int last, int batches, F f)
{
    oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*g_s, "p", simple_partitioner(first, last, batches), task_priority::normal, f);
}
template <typename F> static void pfor_atomic(int n, F f)
{
    oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*g_s, "p", atomic_partitioner(0, n, 1, 2), task_priority::normal, f);
}
template <int W> static void pfor_main(int how)
{
    begin(W);
    if (how & 1) pfor_atomic(3, [](int i) { work(0, i); }); else pfor(0, 3, 2, [](int i) { work(0, i); });
    all(0, 3); g_closed[0] = 1;
    end();
}
template <int W> static void pfor_in_task(int how)
{
    begin(W);
    {
        task_handle t(mk([how] { if (how & 1) pfor_atomic(3, [](int i) { work(0, i); }); else pfor(0, 3, 2, [](int i) { work(0, i); }); all(0, 3); g_closed[0] = 1; }));
        g_s->add(t); t.wait(); all(0, 3);
    }
    end();
}
template <int W> static void pfor_nested(int how)
{
    begin(W);
    auto inner = [](int o) { pfor(0, 2, 2, [o](int i) { work(1 + o, i); }); all(1 + o, 2); g_closed[1 + o] = 1; work(0, o); };
    auto outer = [inner] { pfor(0, 2, 2, inner); all(0, 2); g_closed[0] = 1; };
    if (how & 1) { task_handle t(mk(outer)); g_s->add(t); t.wait(); } else outer();
    all(0, 2); all(1, 2); all(2, 2);
    end();
}
template <int W> static void pfor_three_deep(int)
{
    begin(W);
    {
        task_handle t(mk([] { pfor(0, 1, 1, [](int) { pfor(0, 1, 1, [](int) { pfor(0, 2, 2, [](int i) { work(0, i); }); all(0, 2); }); all(0, 2); }); all(0, 2); g_closed[0] = 1; }));
        g_s->add(t); t.wait();
    }
    end();
}
template <int W> static void pfor_two_callers(int)
{
    begin(W);
    {
        std::thread t([] { pfor(0, 2, 2, [](int i) { work(1, i); }); all(1, 2); g_closed[1] = 1; });
        pfor(0, 2, 2, [](int i) { work(0, i); }); all(0, 2); g_closed[0] = 1;
        t.join();
    }
    end();
}
// a parallel-for's members wait actively for a fork
template <int W> static void pfor_then_fork(int)
{
    begin(W);
    { task_handle t(mk([] { pfor(0, 2, 2, [](int i) { fork_and_wait<1>(1 + i); work(0, i); }); all(0, 2); })); g_s->add(t); t.wait(); all(1, 1); all(2, 1); }
    end();
}
MC_SCENARIO("C06", "only-worker", (in_task<1, 2>), nullptr, 0, 4, 14, 0);
MC_SCENARIO("C06", "only-worker-three", (in_task<1, 3>), nullptr, 4, 4, 14, 0);
MC_SCENARIO("C06", "only-worker-capped", (in_task<1, 2>), nullptr, 8, 4, 14, 0);
MC_SCENARIO("C06", "only-worker-priorities", (in_task<1, 2>), nullptr, 16 | 32, 4, 14, 0);
MC_SCENARIO("C06", "two-workers", (in_task<2, 2>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C06", "two-workers-three", (in_task<2, 3>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C06", "two-workers-capped", (in_task<2, 3>), nullptr, 8, 2, 2, 0);
MC_SCENARIO("C06", "three-workers", (in_task<3, 3>), nullptr, 0, 1, 1, 0);
MC_SCENARIO("C06", "nested", nested<1>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C06", "two-workers-nested", nested<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "all-workers-waiting", all_waiting<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C06", "two-workers-all-waiting", all_waiting<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C06", "two-workers-other-blocked", others_blocked<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C06", "two-waiters", (two_waiters<1, 2>), nullptr, 0, 3, 5, 0);
MC_SCENARIO("C06", "two-waiters-three", (two_waiters<1, 3>), nullptr, 4, 2, 4, 0);
MC_SCENARIO("C06", "two-waiters-unscheduled", (two_waiters<1, 2>), nullptr, 1, 3, 5, 0);
MC_SCENARIO("C06", "two-waiters-one-a-task", (two_waiters<1, 2>), nullptr, 2, 3, 4, 0);
MC_SCENARIO("C06", "two-waiters-one-a-task-capped", (two_waiters<1, 2>), nullptr, 2 | 8, 2, 3, 0);
MC_SCENARIO("C06", "two-workers-two-waiters", (two_waiters<2, 2>), nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "plain-and-active", plain_and_active<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C06", "two-workers-plain-and-active", plain_and_active<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "unscheduled", unscheduled<1>, nullptr, 0, 4, 14, 0);
MC_SCENARIO("C06", "no-running-worker", unscheduled<1>, nullptr, 1 | 2, 4, 14, 0);
MC_SCENARIO("C06", "handed-in-afterwards", unscheduled<1>, nullptr, 4, 4, 14, 0);
MC_SCENARIO("C06", "started-afterwards", unscheduled<1>, nullptr, 1 | 2 | 8, 4, 14, 0);
MC_SCENARIO("C06", "two-workers-started-afterwards", unscheduled<2>, nullptr, 1 | 2 | 8, 2, 3, 0);
MC_SCENARIO("C06", "again", again<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C06", "two-workers-again", again<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "parallel-for", pfor_main<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C06", "parallel-for-atomic", pfor_main<1>, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C06", "two-workers-parallel-for", pfor_main<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "two-workers-parallel-for-atomic", pfor_main<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C06", "parallel-for-in-task", pfor_in_task<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C06", "parallel-for-atomic-in-task", pfor_in_task<1>, nullptr, 1, 3, 14, 0);
MC_SCENARIO("C06", "two-workers-parallel-for-in-task", pfor_in_task<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C06", "nested-parallel-for", pfor_nested<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C06", "nested-parallel-for-in-task", pfor_nested<1>, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C06", "two-workers-nested-parallel-for", pfor_nested<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C06", "parallel-for-three-deep", pfor_three_deep<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C06", "two-workers-parallel-for-three-deep", pfor_three_deep<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "two-parallel-fors", pfor_two_callers<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C06", "two-workers-two-parallel-fors", pfor_two_callers<2>, nullptr, 0, 1, 1, 0);
MC_SCENARIO("C06", "parallel-for-then-fork", pfor_then_fork<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C06", "two-workers-parallel-for-then-fork", pfor_then_fork<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C06", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C06", "large-loop", large_loop, nullptr, 500, 0, 1, MC_LONG);
MC_SCENARIO("C06", "large-same", large_same, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C06", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
