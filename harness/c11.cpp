// C11: stopping a scheduler is safe at any moment and loses no task.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static bool is_worker(int t) { const char *n = mc_thread_name(t); return n && n[0] == 'w'; }
static void stopped()
{
    for (int t = 0; t < mc_thread_count(); ++t) if (is_worker(t) && !mc_thread_finished(t)) mc_fail("worker-alive", "stop returned, but worker thread %d has not ended", t);
    for (int i = 0; i < 16; ++i) if (g_data[i] == 1) mc_fail("task-running", "stop returned while task %d was still executing", i);
}
static void run(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; mc_event_local(EV_RUN, i, 0); g_data[i] = 2; }
static void all(int n, int from = 0) { for (int i = from; i < from + n; ++i) if (g_data[i] != 2) mc_fail("task-lost", "task %d was not executed after the restart (%d)", i, g_data[i]); }
// stops, looks, starts again, and lets everything finish
template <typename F> static void restart(F wait_all, int n)
{
    g_s->stop(); stopped();
    g_s->start(); wait_all(); all(n);
    g_s->stop(); stopped();
}
// a producer hands in tasks while the scheduler is being stopped
template <int W> static void vs_producer(int n)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        task_handle h[3];
        for (int i = 0; i < n; ++i) h[i] = H(mk([i] { run(i); }));
        {
            std::thread p([&] { for (int i = 0; i < n; ++i) g_s->add(h[i]); });
            g_s->stop();
            for (int t = 0; t < mc_thread_count(); ++t) if (is_worker(t) && !mc_thread_finished(t)) mc_fail("worker-alive", "stop returned, but worker thread %d has not ended", t);
            p.join();
        }
        stopped();
        g_s->start(); for (int i = 0; i < n; ++i) h[i].wait(); all(n); g_s->stop(); stopped();
    }
    delete g_s;
}
// tasks handed in before; stopped while the workers are at them
template <int W> static void vs_tasks(int n)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        task_handle h[3];
        for (int i = 0; i < n; ++i) { h[i] = H(mk([i] { run(i); }, i == 1 ? task_priority::high : task_priority::normal)); g_s->add(h[i]); }
        g_s->stop(); stopped();
        for (int i = 0; i < n; ++i) { MC_CHECK(h[i].isDone() == (g_data[i] == 2), "done-state"); MC_CHECK(h[i].isGrabbed() == (g_data[i] == 2), "pending-task-grabbed"); }
        g_s->start(); for (int i = 0; i < n; ++i) h[i].wait(); all(n); g_s->stop(); stopped();
    }
    delete g_s;
}
// a running task hands in another one
template <int W> static void vs_chain(int)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        static task_handle a, b;
        b = H(mk([] { run(1); }));
        a = H(mk([] { g_s->add(b); run(0); }));
        g_s->add(a);
        restart([] { a.wait(); b.wait(); }, 2);
        a.reset(); b.reset();
    }
    delete g_s;
}
// groups half way through
template <int W> static void vs_fork(int cap)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        auto f = mk_fork(*g_s, cap); for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { run(i); })));
        task_handle h(f); f.reset(); g_s->add(h);
        restart([&] { h.wait(); }, 2);
    }
    delete g_s;
}
template <int W> static void vs_sequence(int)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        auto f = mk_seq(*g_s); for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { MC_CHECK(i == 0 || g_data[i - 1] == 2, "order"); run(i); })));
        task_handle h(f); f.reset(); g_s->add(h);
        restart([&] { h.wait(); }, 2);
    }
    delete g_s;
}
// someone actively waits for a fork while the scheduler is being stopped
template <int W> static void vs_active_wait(int in_task)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        auto f = mk_fork(*g_s); for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { run(i); })));
        static task_handle h; h = task_handle(f); f.reset();
        if (in_task)
        {
            task_handle t(mk([] { g_s->add(h); h.activeWait(); all(2); run(2); }));
            g_s->add(t); restart([&] { t.wait(); }, 3);
        }
        else
        {
            g_s->add(h);
            std::thread t([] { h.activeWait(); all(2); });
            g_s->stop(); for (int i = 0; i < mc_thread_count(); ++i) if (is_worker(i)) MC_CHECK(mc_thread_finished(i), "worker-alive");
            t.join(); all(2); g_s->start(); MC_CHECK(h.isDone(), "done-state"); g_s->stop();
        }
        h.reset();
    }
    delete g_s;
}
// a running scheduler is destroyed: tasks have been executed completely or not at all, and nothing is left
template <int W> static void destroyed(int n)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        task_handle keep;
        for (int i = 0; i < n; ++i) { task_handle t(mk([i] { run(i); })); g_s->add(t); if (i == 0) keep = t; }
        delete g_s; stopped();
        MC_CHECK(keep.isDone() == (g_data[0] == 2), "done-state");
    }
}
static void destroyed_group(int kind)
{
    g_s = new sched_t; add_workers(*g_s, 1); g_s->start();
    {
        auto fill = [](auto g) { for (int i = 0; i < 2; ++i) g->addTask(H(mk_ff([i] { run(i); }))); return task_handle(g); };
        task_handle t = kind ? fill(mk_seq(*g_s)) : fill(mk_fork(*g_s));
        g_s->add(t);
        delete g_s; stopped();
        MC_CHECK(t.isDone() == (g_data[1] == 2 && g_data[0] == 2), "done-state");
    }
}
// sequences of start, stop and add on one thread
static void cycles(int len)
{
    g_s = new sched_t; add_workers(*g_s, 1);
    {
        task_handle h[6]; int n = 0; bool on = false;
        for (int k = 0; k < len; ++k) switch (mc_choose(4))
        {
            case 0: if (!on) { g_s->start(); on = true; } break;
            case 1: g_s->stop(); on = false; stopped(); break;
            case 2: { const int i = n++; h[i] = H(mk([i] { run(i); })); g_s->add(h[i]); if (on && mc_choose(2)) { h[i].wait(); all(1, i); } break; }
            case 3: if (n) g_s->add(h[n - 1]); break;
        }
        if (mc_choose(2)) { if (!on) g_s->start(); for (int i = 0; i < n; ++i) h[i].wait(); all(n); if (mc_choose(2)) g_s->stop(); }
    }
    delete g_s; stopped();
}
// the workers fall asleep, stop wakes them all; a stop that comes while a waiter waits for a running task
template <int W> static void asleep(int priorities)
{
    g_s = new sched_t;
    if (priorities) { add_workers(*g_s, 1, worker_priority::wprio_normal_or_low); add_workers(*g_s, W, worker_priority::wprio_normal_or_high); } else add_workers(*g_s, W);
    g_s->start(); if (mc_choose(2)) mc_quiesce();
    g_s->stop(); stopped();
    g_s->start(); { task_handle t(mk([] { run(0); })); g_s->add(t); t.wait(); all(1); } g_s->stop(); stopped();
    delete g_s;
}
static void vs_waiter(int)
{
    g_s = new sched_t; add_workers(*g_s, 1); g_s->start();
    {
        task_handle t(mk([] { mc_hb_none_raise(1); run(0); })); g_s->add(t); mc_hb_none_wait(1);
        std::thread w([&] { t.wait(); all(1); });
        g_s->stop(); stopped(); all(1); MC_CHECK(t.isDone(), "done-state");
        w.join();
    }
    delete g_s;
}
// a parallel-for on a worker goes on and returns
static void vs_parallel_for(int)
{
    g_s = new sched_t; add_workers(*g_s, 1); g_s->start();
    {
        task_handle t(mk([] {
            auto f = mk_fork(*g_s); f->addTask(H(mk_ff([] { run(1); }))); f->addTask(H(mk_ff([] { run(2); })));
            task_handle h(f); f.reset(); g_s->add(h); h.activeWait(); all(2, 1); run(0); }));
        g_s->add(t); mc_choose(2) ? mc_quiesce() : void();
        restart([&] { t.wait(); }, 3);
    }
    delete g_s;
}
MC_SCENARIO("C11", "one-worker-one-producer", vs_producer<1>, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C11", "one-worker-producer-two-tasks", vs_producer<1>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C11", "two-workers-producer-two-tasks", vs_producer<2>, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C11", "one-worker-two-pending", vs_tasks<1>, nullptr, 2, 3, 5, 0);
MC_SCENARIO("C11", "two-workers-two-pending", vs_tasks<2>, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C11", "two-workers-three-pending", vs_tasks<2>, nullptr, 3, 1, 3, 0);
MC_SCENARIO("C11", "one-worker-chain", vs_chain<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C11", "two-workers-chain", vs_chain<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C11", "one-worker-fork", vs_fork<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C11", "one-worker-capped-fork", vs_fork<1>, nullptr, 1, 3, 4, 0);
MC_SCENARIO("C11", "two-workers-fork", vs_fork<2>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C11", "one-worker-sequence", vs_sequence<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C11", "two-workers-sequence", vs_sequence<2>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C11", "active-waiter-outside", vs_active_wait<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C11", "active-waiter-in-task", vs_active_wait<1>, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C11", "active-waiter-in-task-two-workers", vs_active_wait<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C11", "destroyed-one-worker", destroyed<1>, nullptr, 2, 3, 5, 0);
MC_SCENARIO("C11", "destroyed-two-workers", destroyed<2>, nullptr, 2, 2, 4, 0);
// a group that is never executed is never released: see C24
MC_SCENARIO("C11", "destroyed-fork", destroyed_group, nullptr, 0, 3, 5, MC_NOLEAK);
MC_SCENARIO("C11", "destroyed-sequence", destroyed_group, nullptr, 1, 3, 5, MC_NOLEAK);
MC_SCENARIO("C11", "cycles", cycles, nullptr, 4, 0, 1, 0);
MC_SCENARIO("C11", "cycles-short", cycles, nullptr, 3, 1, 2, 0);
MC_SCENARIO("C11", "asleep-one", asleep<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C11", "asleep-two", asleep<2>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C11", "asleep-priorities", asleep<1>, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C11", "waiter", vs_waiter, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C11", "parallel-work", vs_parallel_for, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C11", "large-restarts", large_restarts, nullptr, 11, 0, 1, MC_LONG);
MC_SCENARIO("C11", "crew", crew, nullptr, 12, 1, 2, MC_DELAY);
MC_SCENARIO("C11", "crew-of-specialists", crew_of_specialists, nullptr, 0, 1, 3, MC_DELAY);
MC_SCENARIO("C11", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
