// Large instances: many tasks, members, elements, levels, cycles. One or few schedules each (bound 0): what depends
// on sizes and counts is not to be seen in the small scenarios.
#pragma once
#include "common.h"
#include "oqpi/parallel_algorithms/parallel_for.hpp"
#include "oqpi/parallel_algorithms/atomic_partitioner.hpp"
#include "oqpi/parallel_algorithms/simple_partitioner.hpp"
#include <mutex>

static sched_t *L_s;
static int L_n, L_order[2048], L_count, L_end;                    // plain: everything below runs on one worker, or is ordered by the library
static void L_begin(int workers, bool start = true) { L_s = new sched_t; add_workers(*L_s, workers); if (start) L_s->start(); L_n = 0; L_count = 0; memset(L_order, 0, sizeof L_order); }
static void L_finish() { L_s->stop(); delete L_s; }
static void L_all(int n, const char *what = "not-executed") { for (int i = 0; i < n; ++i) if (L_order[i] != 1) mc_fail(L_order[i] ? "executed-twice" : what, "%d of %d was executed %d times", i, n, L_order[i]); }
static void L_run(int i) { if (L_order[i]++) mc_fail("executed-twice", "%d is executed again", i); }
static void L_next(int i) { if (L_count++ != i) mc_fail("order", "%d is executed in place %d", i, L_count - 1); L_run(i); }
// n tasks, handed in before or after the start
static void large_tasks(int n)
{
    const int how = mc_choose(3); L_begin(1, how != 0);
    {
        std::vector<task_handle> h; h.reserve(n); for (int i = 0; i < n; ++i) { h.push_back(H(mk([i] { L_next(i); }))); L_s->add(h.back()); if (!how) MC_CHECK(!L_s->isIdle(), "idle-too-early"); if (how == 2 && i % 50 == 49) { h.back().wait(); } }
        if (!how) L_s->start(); for (auto &x : h) x.wait(); L_all(n); for (auto &x : h) MC_CHECK(x.isDone(), "not-done");
    }
    mc_quiesce(); MC_CHECK(L_s->isIdle(), "not-idle"); L_finish(); L_all(n);
}
// n tasks that have to wait for the one the only worker is busy with
static void large_pending(int n)
{
    L_begin(1);
    {
        std::vector<task_handle> h; h.reserve(n); auto first = H(mk([] { mc_hb_none_raise(1); mc_hb_none_wait(2); })); L_s->add(first); mc_hb_none_wait(1); MC_CHECK(!L_s->isIdle(), "idle-too-early");
        for (int i = 0; i < n; ++i) { h.push_back(H(mk([i] { L_next(i); if (L_s->isIdle()) mc_fail("idle-too-early", "says %d of the tasks", i); }))); L_s->add(h.back()); MC_CHECK(!L_s->isIdle(), "idle-too-early"); }
        mc_hb_none_raise(2); h.back().wait(); L_all(n); first.wait();
    }
    mc_quiesce(); MC_CHECK(L_s->isIdle(), "not-idle"); L_finish();
}
// n tasks and two workers, nothing else going on
static void large_tasks_two_workers(int n)
{
    L_begin(2, false);
    { std::vector<task_handle> h; h.reserve(n); for (int i = 0; i < n; ++i) { h.push_back(H(mk([i] { L_run(i); }))); L_s->add(h.back()); } L_s->start(); for (auto &x : h) x.wait(); L_all(n); }
    L_finish(); L_all(n);
}
// n members
template <typename G> static void L_fill(G &g, int n, bool ordered) { for (int i = 0; i < n; ++i) g->addTask(H(mk_ff([i, ordered] { if (ordered) L_next(i); else L_run(i); }))); }
static void large_fork(int n)
{
    const int how = mc_choose(6); L_begin(1, how != 4);
    {
        auto g = mk_fork(*L_s, 0); L_fill(g, n, false); task_handle h(g); g.reset(); if (how < 2 || how == 4) L_s->add(h);
        if (how == 0) h.wait(); else if (how == 1 || how == 3 || how == 4) h.activeWait(); else if (how == 2) h.executeSingleThreaded();
        else { auto t = H(mk([h] { L_s->add(h); auto x = h; x.activeWait(); if (!x.isDone()) mc_fail("not-done", "after having waited for it"); })); L_s->add(t); t.wait(); }
        MC_CHECK(h.isDone(), "not-done"); L_all(n); h.wait();
    }
    L_finish(); L_all(n);
}
static int L_active;
static void large_capped(int n)
{
    static const int CAP[] = {1, 2, 3, 100, 255, 256, 257, 1 << 16, INT_MAX}; L_begin(1); const int cap = CAP[mc_choose(9)];
    { auto g = mk_fork(*L_s, cap); L_active = 0; for (int i = 0; i < n; ++i) g->addTask(H(mk_ff([i, cap] { if (++L_active > cap) mc_fail("cap-exceeded", "%d members at once", L_active); L_run(i); --L_active; }))); task_handle h(g); g.reset(); L_s->add(h); h.wait(); MC_CHECK(h.isDone(), "not-done"); L_all(n); }
    L_finish(); L_all(n);
}
static void large_capped_two_workers(int n)
{
    static std::atomic<int> now; now = 0; L_begin(2);
    { auto g = mk_fork(*L_s, 1); for (int i = 0; i < n; ++i) g->addTask(H(mk_ff([i] { if (++now > 1) mc_fail("cap-exceeded", "two members at once"); L_run(i); --now; }))); task_handle h(g); g.reset(); L_s->add(h); h.wait(); L_all(n); }
    L_finish();
}
static void large_sequence(int n)
{
    L_begin(1); const int how = mc_choose(2);
    { auto g = mk_seq(*L_s); L_fill(g, n, true); task_handle h(g); g.reset(); if (how) h.executeSingleThreaded(); else L_s->add(h); h.wait(); MC_CHECK(h.isDone(), "not-done"); L_all(n); }
    L_finish(); L_all(n);
}
// groups in groups, n levels deep; the innermost ones inherit the priority of the outermost
static void large_depth(int n)
{
    L_begin(1); const int how = mc_choose(2), first = mc_choose(2), inherit = mc_choose(2); const auto p = [inherit](int i) { return inherit && i ? task_priority::inherit : task_priority::low; };
    {
        std::vector<task_group_sptr> g; for (int i = 0; i < n; ++i) { if ((i + first) & 1) g.push_back(mk_fork(*L_s, 0, p(i))); else g.push_back(mk_seq(*L_s, p(i))); if (i) g[i - 1]->addTask(task_handle(g[i])); g[i]->addTask(H(mk_ff([i] { L_run(i); }, p(1)))); }
        task_handle leaf = H(mk([] { L_run(1000); }, p(1))); g.back()->addTask(leaf); task_handle h(g[0]); g.clear();
        if (how) h.executeSingleThreaded(); else L_s->add(h); h.wait(); MC_CHECK(h.isDone() && leaf.isDone(), "not-done"); L_all(n); MC_CHECK(L_order[1000] == 1, "not-executed");
    }
    L_finish();
}
// a loop over n elements in up to b batches
static void large_loop(int n)
{
    const int b = mc_choose(2) ? 300 : 7, kind = mc_choose(4), where = mc_choose(3); L_begin(1, where != 1); auto f = [](int i) { L_run(i); }; auto fb = [b](int k, int i) { MC_CHECK(k >= 0 && k < b, "batch-index"); L_run(i); };
    auto loop = [&] {
    switch (kind)
    {
        case 0: oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*L_s, "l", simple_partitioner(n, b), task_priority::normal, f); break;
        case 1: oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*L_s, "l", simple_partitioner(n, b), task_priority::normal, fb); break;
        case 2: oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*L_s, "l", atomic_partitioner(n, 3, b), task_priority::normal, f); break;
        case 3: oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*L_s, "l", atomic_partitioner(n, 1, b), task_priority::normal, fb); break;
    }
    };
    if (where == 2) { auto t = H(mk(loop)); L_s->add(t); t.wait(); } else loop();
    L_all(n); for (int i = n; i < 2048; ++i) MC_CHECK(!L_order[i], "foreign-index"); L_finish();
}
// started and stopped n times, with something pending each time
static void large_restarts(int n)
{
    L_begin(1, false); int k = 0; static const task_priority P[] = {task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low}; const auto prio = P[mc_choose(5)];
    {
        std::vector<task_handle> h; h.reserve(n * 30);
        for (int i = 0; i < n; ++i)
        {
            for (int j = 0; j < 30; ++j, ++k) { h.push_back(H(mk([k] { L_next(k); }, prio))); L_s->add(h.back()); }
            L_s->start(); if (i >= 3 || mc_choose(2)) h.back().wait(); L_s->stop(); MC_CHECK(mc_live_threads() == 1, "worker-alive");
        }
        L_all(k);
    }
    delete L_s;
}

// the same task, and the same group, handed in and waited for n times
static void large_same(int n)
{
    const int how = mc_choose(4), group = mc_choose(3); L_begin(1, how != 0);
    {
        task_handle h; if (!group) h = H(mk([] { L_run(0); })); else { task_group_sptr g; if (group == 1) g = mk_fork(*L_s); else g = mk_seq(*L_s); g->addTask(H(mk_ff([] { L_run(0); }))); h = task_handle(g); }
        auto wait = [&] { if (how == 1 || group == 2) h.wait(); else h.activeWait(); };
        for (int i = 0; i < n; ++i) { L_s->add(h); if (how == 2) wait(); if (how == 3 && i == n / 2) mc_quiesce(); }
        if (!how) L_s->start();
        for (int i = 0; i < n; ++i) { wait(); MC_CHECK(h.isDone() && L_order[0] == 1, "not-executed"); if (how == 2) h.executeSingleThreaded(); if (h.tryGrab() && !group) mc_fail("grabbed-twice", "a task that is done can be grabbed (after %d waits)", i + 1); }
    }
    mc_quiesce(); MC_CHECK(L_s->isIdle(), "not-idle"); MC_CHECK(L_order[0] == 1, "executed-twice"); L_finish();
}
// n workers, n tasks that are only done once they all run
static std::atomic<int> L_in; static int L_crew_n; static bool L_seen[16];
static void L_meet() { if (++L_in == L_crew_n) mc_hb_none_raise(1); mc_hb_none_wait(1); }
static void crew(int n)
{
    const int how = mc_choose(4); L_begin(n, false); L_in = 0; L_crew_n = n;
    {
        std::vector<task_handle> h; auto g = mk_fork(*L_s, how == 3 ? n : 0);
        if (how) { L_s->start(); mc_quiesce(); MC_CHECK(mc_live_threads() == 1 + n, "worker-missing"); }
        if (how < 2) for (int i = 0; i < n; ++i) { h.push_back(H(mk([i] { L_meet(); L_run(i); }))); L_s->add(h.back()); }
        else { for (int i = 0; i < n; ++i) g->addTask(H(mk_ff([i] { L_meet(); L_run(i); }))); h.push_back(task_handle(g)); L_s->add(h.back()); }
        g.reset(); if (!how) L_s->start();
        for (auto &x : h) x.wait();
        L_all(n);
    }
    mc_quiesce(); MC_CHECK(L_s->isIdle(), "not-idle"); L_s->stop(); MC_CHECK(mc_live_threads() == 1, "worker-alive"); delete L_s;
}
// two workers for each priority, each of them taken
static void crew_of_specialists(int)
{
    static const task_priority P[5] = {task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low};
    L_s = new sched_t; const int up = mc_choose(2); for (int i = 0; i < 5; ++i) add_workers(*L_s, 2, worker_priority(1 << (up ? i : 4 - i)));
    L_n = 0; L_count = 0; memset(L_order, 0, sizeof L_order); L_in = 0; L_crew_n = 10; L_s->start(); mc_quiesce();
    { std::vector<task_handle> h; const int rot = mc_choose(5); for (int i = 0; i < 10; ++i) { h.push_back(H(mk([i] { L_meet(); L_run(i); }, P[(i + rot) % 5]))); L_s->add(h.back()); } for (auto &x : h) x.wait(); L_all(10); }
    for (int i = 0; i < 5; ++i) MC_CHECK(L_s->workersCount(P[i]) == 2, "priority-count"); MC_CHECK(L_s->workersTotalCount() == 10, "total-count");
    L_finish();
}
// several workers, with everything at once: tasks, a fork, a capped fork, a sequence, a loop
static void large_mix(int workers)
{
    static std::atomic<int> now; now = 0; const int how = mc_choose(2), cap = 1 + mc_choose(4); L_begin(workers, how);
    {
        std::vector<task_handle> h; h.reserve(80);
        auto f = mk_fork(*L_s), c = mk_fork(*L_s, cap); auto s = mk_seq(*L_s);
        for (int i = 0; i < 40; ++i) f->addTask(H(mk_ff([i] { L_run(100 + i); })));
        for (int i = 0; i < 40; ++i) c->addTask(H(mk_ff([i, cap] { if (++now > cap) mc_fail("cap-exceeded", "more than %d members at once", cap); L_run(200 + i); --now; })));
        for (int i = 0; i < 40; ++i) s->addTask(H(mk_ff([i] { if (L_count++ != i) mc_fail("order", "%d is executed in place %d", i, L_count - 1); L_run(300 + i); })));
        h.push_back(task_handle(f)); h.push_back(task_handle(c)); h.push_back(task_handle(s)); f.reset(); c.reset(); s.reset(); for (auto &x : h) L_s->add(x);
        for (int i = 0; i < 40; ++i) { h.push_back(H(mk([i] { L_run(i); }))); L_s->add(h.back()); }
        if (!how) L_s->start();
        oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*L_s, "l", simple_partitioner(40, 12), task_priority::normal, [](int i) { L_run(400 + i); });
        for (int i = 400; i < 440; ++i) MC_CHECK(L_order[i] == 1, "not-executed");
        for (auto &x : h) { x.wait(); MC_CHECK(x.isDone(), "not-done"); } for (int i = 0; i < 440; ++i) MC_CHECK(i % 100 >= 40 || L_order[i] == 1, "not-executed");
    }
    mc_quiesce(); MC_CHECK(L_s->isIdle(), "not-idle"); L_finish();
}
