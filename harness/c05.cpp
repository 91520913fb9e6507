// C05: a capped fork never runs more members at once than its cap.
#include "common.h"
#include "large.h"
#include <atomic>

static sched_t *g_s;
static std::atomic<int> g_running;          // members executing at this instant; relaxed: orders nothing
static int g_cap, g_max;
static std::atomic<int> g_seen;             // bit n: n members were once executing at once
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void enter()
{
    const int r = g_running.fetch_add(1, std::memory_order_relaxed) + 1;
    g_seen.fetch_or(1 << r, std::memory_order_relaxed);
    if (g_cap > 0 && r > g_cap) mc_fail("cap-exceeded", "%d members of a fork capped at %d execute at once", r, g_cap);
}
static void leave() { g_running.fetch_sub(1, std::memory_order_relaxed); }
static void work(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; enter(); leave(); g_data[i] = 2; }
static void all(int n, const char *who) { for (int i = 0; i < n; ++i) if (g_data[i] != 2) mc_fail("fork-completed-early", "%s, but member %d has not completed", who, i); }
static void end(int n) { g_s->stop(); all(n, "end"); mc_outcome(g_seen.load(std::memory_order_relaxed)); delete g_s; }

template <int W, int N> static void flat(int cap)
{
    begin(W); g_cap = cap;
    {
        auto f = mk_fork(*g_s, cap);
        for (int i = 0; i < N; ++i) f->addTask(H(mk_ff([i] { work(i); })));
        task_handle g(f); f.reset();
        g_s->add(g); g.wait(); MC_CHECK(g.isDone(), "not-done-after-wait"); all(N, "a wait returned");
    }
    end(N);
}
template <int W, int N> static void before_start(int cap)
{
    g_s = new sched_t; add_workers(*g_s, W); g_cap = cap;
    {
        auto f = mk_fork(*g_s, cap);
        for (int i = 0; i < N; ++i) f->addTask(H(mk([i] { work(i); })));
        task_handle g(f); f.reset();
        g_s->add(g); g_s->start(); g.wait(); all(N, "a wait returned");
    }
    end(N);
}
// somebody actively waits on the fork: exact executions, completion (the cap is the subject of the next scenario)
template <int W, int N> static void active(int cap)
{
    begin(W); g_cap = 0;
    {
        auto f = mk_fork(*g_s, cap);
        for (int i = 0; i < N; ++i) f->addTask(H(mk_ff([i] { work(i); })));
        task_handle g(f); f.reset();
        g_s->add(g); g.activeWait(); all(N, "an active wait returned");
    }
    end(N);
}
template <int W, int N> static void active_cap(int cap)
{
    begin(W); g_cap = cap;
    {
        auto f = mk_fork(*g_s, cap);
        for (int i = 0; i < N; ++i) f->addTask(H(mk_ff([i] { work(i); })));
        task_handle g(f); f.reset();
        g_s->add(g); g.activeWait();
    }
    end(N);
}
// members that are groups: [group of 2, group of 2], cap 1 or 2, third member a task
// which members have begun and not ended, by relaxed flags
static std::atomic<int> g_begun[4], g_ended[4];
static void gleaf(int m, int i)
{
    MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1;
    // a member is in execution from its first leaf's start to, at least, its last leaf's end
    if (g_begun[m].fetch_add(1, std::memory_order_relaxed) == 0) enter();
    g_data[i] = 2;
    if (g_ended[m].fetch_add(1, std::memory_order_relaxed) + 1 == (m < 2 ? 2 : 1)) leave();
}
template <int W> static void groups(int how)
{
    begin(W); g_cap = how & 15;
    {
        auto f = mk_fork(*g_s, g_cap);
        for (int m = 0; m < 2; ++m)
        {
            auto add2 = [m](auto g) { for (int k = 0; k < 2; ++k) g->addTask(H(mk_ff([m, k] { gleaf(m, 2 * m + k); }))); return task_handle(g); };
            f->addTask(how & 16 && m == 1 ? add2(mk_seq<task_type::fire_and_forget>(*g_s)) : add2(mk_fork<task_type::fire_and_forget>(*g_s)));
        }
        if (how & 32) f->addTask(H(mk_ff([] { gleaf(2, 4); })));
        task_handle g(f); f.reset();
        g_s->add(g); g.wait(); all(how & 32 ? 5 : 4, "a wait returned");
    }
    end(how & 32 ? 5 : 4);
}
// the capped fork is a member of a fork / sequence
template <int W> static void inner(int how)
{
    begin(W); g_cap = how & 15;
    {
        auto c = mk_fork<task_type::fire_and_forget>(*g_s, g_cap);
        for (int i = 0; i < 3; ++i) c->addTask(H(mk_ff([i] { work(i); })));
        task_handle g;
        auto put = [&](auto o) { o->addTask(task_handle(c)); o->addTask(H(mk_ff([] { g_data[3] = 2; }))); g = task_handle(o); };
        if (how & 16) put(mk_seq(*g_s)); else put(mk_fork(*g_s));
        c.reset();
        g_s->add(g); g.wait(); all(4, "a wait returned");
    }
    end(4);
}
// two capped forks have a cap each; waits and polls elsewhere do not matter
template <int W> static void handed_in_twice(int cap)
{
    begin(W); g_cap = cap;
    {
        auto f = mk_fork(*g_s, cap);
        for (int i = 0; i < 3; ++i) f->addTask(H(mk_ff([i] { work(i); })));
        static task_handle g; g = task_handle(f); f.reset();
        std::thread t([] { g_s->add(g); g.wait(); all(3, "a wait returned"); });
        g_s->add(g); g.wait(); all(3, "a wait returned");
        t.join(); g.reset();
    }
    end(3);
}
MC_SCENARIO("C05", "one-worker-cap-one", (flat<1, 3>), nullptr, 1, 4, 14, 0);
MC_SCENARIO("C05", "one-worker-cap-two", (flat<1, 3>), nullptr, 2, 4, 14, 0);
MC_SCENARIO("C05", "cap-one-of-two", (flat<2, 2>), nullptr, 1, 2, 4, 0);
MC_SCENARIO("C05", "cap-one-of-three", (flat<2, 3>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C05", "cap-two-of-two", (flat<2, 2>), nullptr, 2, 2, 3, 0);
MC_SCENARIO("C05", "cap-two-of-three", (flat<2, 3>), nullptr, 2, 2, 3, 0);
MC_SCENARIO("C05", "cap-one-of-one", (flat<2, 1>), nullptr, 1, 2, 4, 0);
MC_SCENARIO("C05", "cap-three-of-two", (flat<2, 2>), nullptr, 3, 2, 3, 0);
MC_SCENARIO("C05", "no-cap", (flat<2, 3>), nullptr, 0, 2, 2, 0);
MC_SCENARIO("C05", "negative-cap", (flat<2, 2>), nullptr, -1, 2, 2, 0);
MC_SCENARIO("C05", "three-workers-cap-one-of-three", (flat<3, 3>), nullptr, 1, 1, 2, 0);
MC_SCENARIO("C05", "three-workers-cap-two-of-three", (flat<3, 3>), nullptr, 2, 1, 2, 0);
MC_SCENARIO("C05", "three-workers-cap-two-of-four", (flat<3, 4>), nullptr, 2, 1, 2, 0);
MC_SCENARIO("C05", "four-workers-cap-three-of-five", (flat<4, 5>), nullptr, 3, 0, 1, 0);
MC_SCENARIO("C05", "before-start-cap-one", (before_start<2, 3>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C05", "before-start-cap-two", (before_start<3, 3>), nullptr, 2, 1, 2, 0);
MC_SCENARIO("C05", "active-wait-cap-one", (active<1, 2>), nullptr, 1, 3, 14, 0);
MC_SCENARIO("C05", "active-wait-cap-two", (active<1, 4>), nullptr, 2, 3, 14, 0);
MC_SCENARIO("C05", "two-workers-active-wait-cap-one", (active<2, 3>), nullptr, 1, 1, 3, 0);
MC_SCENARIO("C05", "active-wait-exceeds-cap", (active_cap<1, 2>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C05", "groups-cap-one", groups<1>, nullptr, 1, 3, 14, 0);
MC_SCENARIO("C05", "two-workers-groups-cap-one", groups<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C05", "two-workers-groups-cap-one-sequence", groups<2>, nullptr, 1 | 16, 1, 2, 0);
MC_SCENARIO("C05", "two-workers-groups-cap-two", groups<2>, nullptr, 2 | 32, 1, 2, 0);
MC_SCENARIO("C05", "in-fork-cap-one", inner<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C05", "in-fork-cap-two", inner<3>, nullptr, 2, 1, 2, 0);
MC_SCENARIO("C05", "in-sequence-cap-one", inner<2>, nullptr, 1 | 16, 2, 3, 0);
MC_SCENARIO("C05", "handed-in-twice-cap-one", handed_in_twice<2>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C05", "handed-in-twice-cap-two", handed_in_twice<2>, nullptr, 2, 1, 2, 0);
MC_SCENARIO("C05", "large-capped", large_capped, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C05", "large-capped-two-workers", large_capped_two_workers, nullptr, 20, 0, 1, MC_LONG);
MC_SCENARIO("C05", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
