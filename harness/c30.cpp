// C30: schedulers are independent of each other; the toolkit brings up and takes down what was asked for.
#include "common.h"
#include "large.h"
#include <mutex>

using namespace std::chrono;
static sched_t *g_a, *g_b;
static bool on(char c) { const char *n = mc_thread_name(mc_tid()); return n && *n == c; }
static bool by_worker() { return on('A') || on('B'); }
static void begin(int a, int b)
{
    g_a = new sched_t; g_b = new sched_t;
    add_workers(*g_a, a, worker_priority::wprio_any, "A"); add_workers(*g_b, b, worker_priority::wprio_any, "B");
    MC_CHECK(g_a->workersTotalCount() == a && g_b->workersTotalCount() == b, "worker-count");
    g_a->start(); g_b->start();
}
static void counts(sched_t &s, int n) { MC_CHECK(s.workersTotalCount() == n, "worker-count"); for (int p = 0; p < int(task_priority::count); ++p) MC_CHECK(s.workersCount(task_priority(p)) == n, "worker-count"); }
static void end(bool a = true, bool b = true)
{
    // a worker of one may still be about to leave the other
    if (a) g_a->stop(); if (b) g_b->stop(); if (a) delete g_a; if (b) delete g_b;
    MC_CHECK(mc_live_threads() == 1, "worker-alive");
}
static void run(int i, char where)
{
    if (where && !on(where)) mc_fail("wrong-scheduler", "task %d, handed to the scheduler of workers %c, is executed by \"%s\"", i, where, mc_thread_name(mc_tid()));
    MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; g_data[i] = 2;
}
static void ran(int i) { if (g_data[i] != 2) mc_fail("not-executed", "task %d", i); }
static auto unit(int i, char where, task_priority p = task_priority::normal) { return mk([i, where] { run(i, where); }, p); }
// tasks for either, from one or two threads
static void both(int how)
{
    begin(1 + (how & 1), 1);
    {
        task_handle x(unit(0, 'A')), y(unit(1, 'B', task_priority::high)), z(unit(2, 'A', task_priority::low));
        if (how & 2) { std::thread t([&] { g_b->add(y); }); g_a->add(x); g_a->add(z); t.join(); }
        else { g_a->add(x); g_b->add(y); g_a->add(z); }
        if (mc_choose(2)) { y.wait(); ran(1); x.wait(); ran(0); z.wait(); ran(2); } else { mc_quiesce(); MC_CHECK(x.isDone() && y.isDone() && z.isDone(), "not-executed"); x.wait(); y.wait(); z.wait(); }
        counts(*g_a, 1 + (how & 1)); counts(*g_b, 1);
    }
    end(); ran(0); ran(1); ran(2);
}
// a task of one hands in to the other, and waits for it
static void across(int how)
{
    begin(1, 1);
    {
        task_handle h(mk([how] {
            task_handle i(mk([how] {
                if (how & 1) { task_handle k(unit(2, 0)); g_a->add(k); if (how & 2) k.activeWait(); else mc_hb_none_raise(3); }
                run(1, 'B'); }));
            g_b->add(i); i.wait(); ran(1); run(0, 'A'); }));
        g_a->add(h); h.wait(); ran(0); ran(1); mc_quiesce();
    }
    end(); if (how & 1) ran(2);
}
// a group made for one, handed to either, possibly as a member of a group made for the other
static void groups(int kind)
{
    begin(1, 1);
    {
        const bool swap = mc_choose(2); sched_t &own = *(swap ? g_b : g_a), &oth = *(swap ? g_a : g_b); const char c = swap ? 'B' : 'A';
        auto fill = [](auto g, int from, int n, char first, char rest) { for (int i = from; i < from + n; ++i) g->addTask(H(mk_ff([i, first, rest, from] { run(i, i == from ? first : rest); }))); return task_handle(g); };
        task_handle h;
        // whoever executes a group executes its first member
        const char other = c == 'A' ? 'B' : 'A';
        switch (kind)
        {
            case 0: h = fill(mk_fork(own), 0, 3, c, c); own.add(h); break;
            case 1: h = fill(mk_seq(own), 0, 3, c, c); own.add(h); break;
            case 2: h = fill(mk_fork(own), 0, 3, other, c); oth.add(h); break;
            case 3: h = fill(mk_seq(own), 0, 3, other, c); oth.add(h); break;
            case 4: { auto g = mk_fork(own, 2); g->addTask(fill(mk_seq(oth), 0, 2, c, other)); g->addTask(fill(mk_fork(oth), 2, 2, c, other)); h = task_handle(g); own.add(h); break; }
            case 5: { auto g = mk_seq(own); g->addTask(fill(mk_fork(oth), 0, 2, c, other)); g->addTask(fill(mk_fork(own), 2, 2, c, c)); h = task_handle(g); own.add(h); break; }
        }
        // (the schedulers must outlive what others do on their behalf)
        h.wait(); for (int i = 0; i < (kind < 4 ? 3 : 4); ++i) ran(i);
    }
    end();
}
// one is stopped, destroyed, started again or never started while the other one goes on
static void stopping(int how)
{
    begin(1, 1);
    {
        task_handle x(unit(0, 'A')), y(unit(1, 'B')), z(unit(2, 'B'));
        g_b->add(y);
        if (how & 1)
        {
            std::thread t([&] { g_b->add(z); });
            g_a->stop();
            t.join();
        }
        else { g_a->stop(); g_b->add(z); }
        counts(*g_a, 1); counts(*g_b, 1);
        y.wait(); ran(1); z.wait(); ran(2);                 // it goes on
        g_a->add(x);                                        // and what is stopped stays stopped
        mc_quiesce(); MC_CHECK(!x.isDone() && !x.isGrabbed(), "stopped-scheduler-works"); MC_CHECK(!g_a->isIdle() && g_b->isIdle(), "idle");
        MC_CHECK(mc_live_threads() == 2, "worker-alive");
        if (how & 2) { g_a->start(); x.wait(); ran(0); } else { g_b->stop(); g_b->start(); mc_quiesce(); MC_CHECK(!x.isDone(), "stopped-scheduler-works"); g_a->start(); x.wait(); ran(0); }
    }
    end();
}
static void destroying(int how)
{
    begin(1, 1);
    {
        task_handle x(mk_ff([] { run(0, 'A'); })), y(unit(1, 'B')), z(unit(2, 'B'));
        g_a->add(x); x.reset(); g_b->add(y);
        if (how) { std::thread t([&] { delete g_a; }); g_b->add(z); t.join(); } else { delete g_a; g_b->add(z); }
        y.wait(); z.wait(); ran(1); ran(2); counts(*g_b, 1);
        { task_handle w(unit(3, 'B')); g_b->add(w); w.wait(); ran(3); }
        { sched_t *n = new sched_t; add_workers(*n, 1, worker_priority::wprio_any, "A"); n->start(); task_handle w(unit(4, 'A')); n->add(w); w.wait(); ran(4); n->stop(); delete n; }
    }
    end(false, true);
}
// one is busy, the other isn't
static void busy(int how)
{
    begin(1, 1);
    {
        g_a->add(H(mk_ff([] { mc_hb_none_raise(1); mc_hb_none_wait(2); run(0, 'A'); })));
        if (how & 1) mc_hb_none_wait(1);
        task_handle y(unit(1, 'B')); g_b->add(y); y.wait(); ran(1);
        mc_quiesce();
        MC_CHECK(g_b->isIdle(), "idle"); MC_CHECK(!g_a->isIdle(), "idle");
        const uint64_t t0 = mc_now(); g_b->waitUntilIdle(milliseconds(1), seconds(1)); MC_CHECK(mc_now() == t0, "idle");
        g_b->stop(); MC_CHECK(mc_live_threads() == 2, "worker-alive"); MC_CHECK(!g_a->isIdle(), "idle");
        g_b->start(); task_handle z(unit(2, 'B')); g_b->add(z); z.wait(); ran(2);
        mc_hb_none_raise(2); mc_quiesce(); MC_CHECK(g_a->isIdle() && g_b->isIdle(), "idle");
    }
    end(); ran(0);
}
// the same task handed to both is executed by one of them, once
static void same(int how)
{
    begin(1, 1);
    {
        task_handle x(mk([] { MC_CHECK(by_worker(), "wrong-scheduler"); run(0, 0); }));
        if (how & 1) { std::thread t([x] { g_b->add(x); }); g_a->add(x); t.join(); } else { g_a->add(x); g_b->add(x); }
        x.wait(); ran(0); mc_quiesce(); MC_CHECK(g_a->isIdle() && g_b->isIdle(), "idle");
    }
    end();
}
// worker sets differ
static void sets(int)
{
    g_a = new sched_t; g_b = new sched_t;
    add_workers(*g_a, 1, worker_priority::wprio_high, "Ahigh"); add_workers(*g_a, 1, worker_priority::wprio_normal_or_low, "Arest");
    add_workers(*g_b, 1, worker_priority::wprio_normal_or_high, "Bnorm"); add_workers(*g_b, 2, worker_priority::wprio_low, "Blow");
    for (int p = 0; p < int(task_priority::count); ++p) { MC_CHECK(g_a->workersCount(task_priority(p)) == 1, "worker-count"); MC_CHECK(g_b->workersCount(task_priority(p)) == (p == int(task_priority::low) ? 2 : 1), "worker-count"); }
    MC_CHECK(g_a->workersTotalCount() == 2 && g_b->workersTotalCount() == 3, "worker-count");
    g_a->start(); g_b->start();
    {
        const task_priority p = task_priority(mc_choose(int(task_priority::count)));
        task_handle x(mk([p] { MC_CHECK((mc_thread_name(mc_tid())[1] == 'h') == (p == task_priority::high), "wrong-worker"); run(0, 'A'); }, p)), y(mk([p] { MC_CHECK((mc_thread_name(mc_tid())[1] == 'l') == (p == task_priority::low), "wrong-worker"); run(1, 'B'); }, p));
        g_a->add(x); g_b->add(y); x.wait(); y.wait(); ran(0); ran(1);
    }
    end();
}
// parallel-for on one of them, called from outside or by a worker of the other
static void loop(int how)
{
    begin(1, 1);
    {
        // the one who calls it takes part
        auto f = [] { const int caller = mc_tid(); oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*g_b, "loop", simple_partitioner(3, 3), task_priority::normal, [caller](int32_t i) { run(i, mc_tid() == caller ? 0 : 'B'); }); for (int i = 0; i < 3; ++i) ran(i); };
        if (how) { task_handle h(mk([f] { f(); })); g_a->add(h); h.wait(); } else f();
    }
    end();
}
// the toolkits: each has a scheduler of its own
struct ctx : task_context_base { ctx(task_base *p, const std::string &n) : task_context_base(p, n) {} };
using toolkit_a = helpers<scheduler<concurrent_queue>, empty_group_context, task_context_container<ctx>>;
using toolkit_b = helpers<scheduler<concurrent_queue>, empty_group_context, empty_task_context>;
struct starts : worker_context_base { starts(worker_base *w) : worker_context_base(w) {} void onStart() { mc_event(EV_RUN, 0, 0); } void onStop() { mc_event(EV_END, 0, 0); } };
static void toolkit(int how)
{
    const int n = how & 4 ? 1 : 1 + mc_choose(2), m = how & 4 ? 11 : how & 1 ? 1 : 1 + mc_choose(2); mc_env_nproc(m);
    MC_CHECK((void *)&toolkit_a::scheduler() != (void *)&toolkit_b::scheduler(), "one-scheduler");
    toolkit_a::start_default_scheduler(n); toolkit_b::start_default_scheduler<worker_context_container<starts>>();
    counts(toolkit_a::scheduler(), n); counts(toolkit_b::scheduler(), m);
    MC_CHECK(mc_thread_count() == 1 + n + m, "worker-count");
    {
        auto name = [](int i) { return std::string(mc_thread_name(i)); };
        const task_priority p = task_priority(mc_choose(int(task_priority::count)));
        const int a = 1, b = 1 + n;
        const auto x = toolkit_a::schedule_task("x", p, [=] { MC_CHECK(mc_tid() >= a && mc_tid() < b, "wrong-scheduler"); run(0, 0); });
        const auto y = toolkit_b::schedule_task("y", [=] { MC_CHECK(mc_tid() >= b && mc_tid() < b + m, "wrong-scheduler"); run(1, 0); });
        x.wait(); y.wait(); ran(0); ran(1);
        if (how & 2)
        {
            const auto s = toolkit_a::sequence_tasks<task_type::waitable>("s", toolkit_a::make_task_item("s1", [=] { MC_CHECK(mc_tid() < b, "wrong-scheduler"); run(2, 0); }), toolkit_a::make_task_item("s2", [=] { ran(2); MC_CHECK(mc_tid() < b, "wrong-scheduler"); run(3, 0); }));
            s.wait(); ran(3);
        }
        mc_quiesce(); std::vector<std::string> na, want; for (int i = 0; i < n + m; ++i) na.push_back(name(1 + i)); for (int i = 0; i < n; ++i) want.push_back(n > 1 ? "oqpi::worker_" + std::to_string(i) : "oqpi::worker_"); for (int i = 0; i < m; ++i) want.push_back(m > 1 ? "oqpi::worker_" + std::to_string(i) : "oqpi::worker_");
        MC_CHECK(na == want, "worker-name");
    }
    toolkit_a::stop_scheduler(); MC_CHECK(mc_live_threads() == 1 + m, "worker-alive");
    { const auto y = toolkit_b::schedule_task("y", [] { run(4, 0); }); y.wait(); ran(4); }
    toolkit_b::stop_scheduler(); MC_CHECK(mc_live_threads() == 1, "worker-alive");
    int st = 0, en = 0; for (int i = 0; i < mc_log_size(); ++i) { st += mc_log()[i].type == EV_RUN; en += mc_log()[i].type == EV_END; }
    MC_CHECK(st == m && en == m, "worker-count");
}
MC_SCENARIO("C30", "toolkit-many-cores", toolkit, nullptr, 4, 0, 1, MC_DELAY | MC_NOLEAK);
MC_SCENARIO("C30", "both", both, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C30", "both-three-workers", both, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C30", "both-from-two-threads", both, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C30", "across", across, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C30", "there-and-back", across, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C30", "there-and-back-active", across, nullptr, 3, 2, 3, 0);
MC_SCENARIO("C30", "fork", groups, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C30", "sequence", groups, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C30", "fork-handed-to-other", groups, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C30", "sequence-handed-to-other", groups, nullptr, 3, 2, 4, 0);
MC_SCENARIO("C30", "mixed-fork", groups, nullptr, 4, 1, 2, 0);
MC_SCENARIO("C30", "mixed-sequence", groups, nullptr, 5, 1, 3, 0);
MC_SCENARIO("C30", "one-stops", stopping, nullptr, 0, 3, 3, 0);
MC_SCENARIO("C30", "one-stops-meanwhile", stopping, nullptr, 1, 2, 2, 0);
MC_SCENARIO("C30", "one-restarts", stopping, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C30", "one-restarts-meanwhile", stopping, nullptr, 3, 2, 2, 0);
MC_SCENARIO("C30", "one-destroyed", destroying, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C30", "one-destroyed-meanwhile", destroying, nullptr, 1, 2, 2, 0);
MC_SCENARIO("C30", "one-busy", busy, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C30", "one-soon-busy", busy, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C30", "same-task", same, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C30", "same-task-from-two-threads", same, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C30", "worker-sets", sets, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C30", "loop", loop, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C30", "loop-called-by-other", loop, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C30", "toolkits", toolkit, nullptr, 1, 1, 2, MC_NOLEAK);
MC_SCENARIO("C30", "toolkits-many", toolkit, nullptr, 2, 0, 1, MC_NOLEAK);
MC_SCENARIO("C30", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
