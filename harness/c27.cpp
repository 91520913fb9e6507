// C27: single-threaded execution runs the whole group in order on the caller.
#include "common.h"
#include "large.h"
#include "oqpi/parallel_algorithms/parallel_for.hpp"

// What is expected is derived from the shape of the tree alone; what happens is logged by functions and hooks.
static std::string g_log, g_want;
static std::vector<task_handle> g_all;
static int g_nodes, g_leaves, g_thread;
static void note(char c, int id) { if (mc_tid() != g_thread) mc_fail("other-thread", "'%c' of %d happens on another thread", c, id); g_log += c; g_log += char('a' + id); }
struct tctx_t : task_context_base { int id; tctx_t(task_base *p, const std::string &n) : task_context_base(p, n), id(atoi(n.c_str())) {} void onPreExecute() { note('(', id); } void onPostExecute() { note(')', id); } };
struct gctx_t : group_context_base { int id; gctx_t(task_group_base *p, const std::string &n) : group_context_base(p, n), id(atoi(n.c_str())) {} void onPreExecute() { note('[', id); } void onPostExecute() { note(']', id); } };
using tctx = task_context_container<tctx_t>; using gctx = group_context_container<gctx_t>;
static sched_t *g_s;
template <task_type T> static task_handle task_of(int id) { return task_handle(oqpi::make_task<T, evt_t, tctx>(std::to_string(id), task_priority::normal, [id] { note('f', id); return id; })); }
template <task_type T> static task_group_sptr group_of(int kind, int id)
{
    if (kind == 2) return oqpi::make_sequence_group<T, gctx>(*g_s, std::to_string(id), task_priority::normal);
    return oqpi::make_parallel_group<T, gctx>(*g_s, std::to_string(id), task_priority::normal, id % 4, kind == 3 ? 1 : 0);      // the member count announced is a hint only
}
// a tree: 0 task, 1 fork, 2 sequence, 3 capped fork, of 1 or 2 members each down to the given depth
static task_handle tree(int depth, bool waitable, int most)
{
    const int id = g_nodes++, kind = depth ? mc_choose(4) : 0; auto put = [&](const char *s) { for (; *s; ++s) { g_want += *s; g_want += char('a' + id); } };
    const bool w = waitable || mc_choose(2);
    if (kind == 0) { ++g_leaves; put("(f)"); task_handle h = w ? task_of<task_type::waitable>(id) : task_of<task_type::fire_and_forget>(id); if (w) g_all.push_back(h); return h; }
    task_group_sptr g = w ? group_of<task_type::waitable>(kind, id) : group_of<task_type::fire_and_forget>(kind, id);
    put("["); const int n = 1 + mc_choose(most); for (int i = 0; i < n; ++i) g->addTask(tree(depth - 1, false, most)); put("]");
    if (w) g_all.push_back(task_handle(g)); return task_handle(g);
}
static void fresh() { g_log.clear(); g_want.clear(); g_nodes = g_leaves = 0; g_thread = mc_tid(); g_log.reserve(256); g_want.reserve(256); g_all.reserve(32); }
static void forget() { std::string().swap(g_log); std::string().swap(g_want); std::vector<task_handle>().swap(g_all); }
static void same(const char *when) { if (g_log != g_want) mc_fail("single-threaded", "%s: \"%s\" instead of \"%s\"", when, g_log.c_str(), g_want.c_str()); }
static void settled(task_handle &h)
{
    MC_CHECK(h.isDone() && h.isGrabbed(), "not-done");
    for (auto &x : g_all) { MC_CHECK(x.isDone() && x.isGrabbed(), "not-done"); x.wait(); x.wait(); }     // at once: nobody else is there to end it
}
static void trees(int k)
{
    fresh(); g_s = new sched_t; add_workers(*g_s, 1);
    {
        task_handle h = tree(k % 10, true, k / 10); MC_CHECK(g_log.empty(), "too-early");
        h.executeSingleThreaded(); same("after the execution"); settled(h);
        h.executeSingleThreaded(); same("after a second execution");
        for (auto &x : g_all) x.executeSingleThreaded(); same("after executing the members again");
        g_s->add(h); for (auto &x : g_all) g_s->add(x); same("after scheduling"); settled(h);
    }
    g_thread = -1; g_s->start(); mc_quiesce(); g_s->stop(); same("after scheduling it with workers"); delete g_s; forget();
}
// with workers around and others waiting
template <int W> static void beside(int k)
{
    fresh(); g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        task_group_sptr g = group_of<task_type::waitable>(1 + k % 10, 0); g->addTask(task_of<task_type::fire_and_forget>(1)); g_want = "[a(bfb)b";
        if (k / 10 & 1) { task_group_sptr in = group_of<task_type::waitable>(2, 2); in->addTask(task_of<task_type::waitable>(3)); g->addTask(task_handle(in)); g_want = "[a(bfb)b[c(dfd)d]c]a"; }
        else g_want += "]a";
        task_handle h(g); g.reset(); bool waited = false; int ran = 0; std::thread t([&, k = h]() mutable { k.wait(); MC_CHECK(k.isDone(), "not-done"); same("when a wait returned"); waited = true; });
        h.executeSingleThreaded(); same("after the execution"); h.wait(); MC_CHECK(h.isDone(), "not-done");
        for (int i = 0; i < 2; ++i) { g_s->add(h); h.executeSingleThreaded(); if (k % 10 == 1) h.wait(); else h.activeWait(); same("after scheduling"); }
        t.join(); MC_CHECK(waited && !ran, "not-done");
    }
    g_s->stop(); same("at the end"); delete g_s; forget();
}
// a group completed by an active waiter alone is not executed again either
static void after_active(int k)
{
    fresh(); g_s = new sched_t; add_workers(*g_s, 1);
    {
        task_group_sptr g = group_of<task_type::waitable>(k ? 3 : 1, 0); for (int i = 1; i < 3; ++i) g->addTask(task_of<task_type::waitable>(i));
        task_handle h(g); g.reset(); h.activeWait(); g_want = "[a(bfb)b(cfc)c]a"; same("after the active wait"); MC_CHECK(h.isDone(), "not-done");
        h.executeSingleThreaded(); same("after executing it single-threaded"); h.wait();
    }
    delete g_s; forget();
}
// results, and what members hand in meanwhile
static void results(int)
{
    fresh(); g_s = new sched_t; add_workers(*g_s, 1);
    {
        auto a = oqpi::make_task<task_type::waitable, evt_t, empty_task_context>("a", task_priority::normal, [] { return 41; });
        auto b = oqpi::make_task<task_type::waitable, evt_t, empty_task_context>("b", task_priority::normal, [a] { return a->getResult() + 1; });
        task_group_sptr g = group_of<task_type::waitable>(1 + mc_choose(3), 0); g->addTask(task_handle(a)); g->addTask(task_handle(b)); g->executeSingleThreaded();
        MC_CHECK(b->waitForResult() == 42 && a->getResult() == 41, "result");
    }
    delete g_s; forget();
}
// the tasks of a parallel-for
static void loop(int)
{
    fresh(); g_s = new sched_t; add_workers(*g_s, 1); const int n = 1 + mc_choose(4), batches = 1 + mc_choose(3); std::vector<int> seen;
    auto f = [&seen, n](int b, int i) { MC_CHECK(mc_tid() == 0, "other-thread"); MC_CHECK(i == (int)seen.size() && b >= 0, "single-threaded"); seen.push_back(b); };
    if (mc_choose(2)) { auto g = oqpi::make_parallel_for_task_group<task_type::waitable, evt_t, empty_group_context, empty_task_context>(*g_s, "l", simple_partitioner(n, batches), task_priority::normal, f); g->executeSingleThreaded(); g->wait(); g->executeSingleThreaded(); }
    else { auto g = oqpi::make_parallel_for_task_group<task_type::waitable, evt_t, empty_group_context, empty_task_context>(*g_s, "l", atomic_partitioner(n, 1 + mc_choose(2), batches), task_priority::normal, f); g->executeSingleThreaded(); g->wait(); g->executeSingleThreaded(); }
    MC_CHECK((int)seen.size() == n, "single-threaded"); delete g_s; forget();
}
// others execute the same thing at the same time: whoever comes first, nothing runs twice
static int g_times[4], g_on[4];
template <int W> static void contended(int k)
{
    fresh(); g_s = new sched_t; if (W) add_workers(*g_s, W); memset(g_times, 0, sizeof g_times); memset(g_on, 0, sizeof g_on); if (W) g_s->start();
    {
        auto leaf = [](int i) { return task_handle(oqpi::make_task<task_type::waitable, evt_t, empty_task_context>("t", task_priority::normal, [i] { ++g_times[i]; g_on[i] = mc_tid(); })); };
        task_handle h; int n = 1;
        if (k % 10 == 0) h = leaf(0);
        else
        {
            task_group_sptr g; n = 2;
            if (k % 10 == 2) g = oqpi::make_sequence_group<task_type::waitable, empty_group_context>(*g_s, "g", task_priority::normal); else g = oqpi::make_parallel_group<task_type::waitable, empty_group_context>(*g_s, "g", task_priority::normal, 0, 0);
            g->addTask(leaf(0)); g->addTask(leaf(1)); h = task_handle(g);
        }
        const int other = k / 10; task_handle o = h;     // 0 a worker, 1 another thread doing the same, 2 another thread actively waiting (tasks only)
        if (other == 0) g_s->add(h);
        {
            std::thread t([&] { if (other == 1) o.executeSingleThreaded(); else if (other == 2) o.activeWait(); });
            h.executeSingleThreaded(); t.join();
        }
        h.wait(); MC_CHECK(h.isDone() && h.isGrabbed(), "not-done");
        for (int i = 0; i < n; ++i) if (g_times[i] != 1) mc_fail("not-once", "member %d was executed %d times", i, g_times[i]);
        if (other == 1 && n == 2) MC_CHECK(g_on[0] == g_on[1], "other-thread");
        h.executeSingleThreaded(); for (int i = 0; i < n; ++i) MC_CHECK(g_times[i] == 1, "not-once");
    }
    if (W) g_s->stop(); for (int i = 0; i < 2; ++i) MC_CHECK(g_times[i] <= 1, "not-once");
    delete g_s; forget();
}
MC_SCENARIO("C27", "task", trees, nullptr, 20, 1, 3, 0);
MC_SCENARIO("C27", "flat", trees, nullptr, 31, 1, 3, 0);
MC_SCENARIO("C27", "nested", trees, nullptr, 22, 0, 1, 0);
MC_SCENARIO("C27", "nested-deeply", trees, nullptr, 13, 0, 2, 0);
MC_SCENARIO("C27", "fork-with-waiter", beside<1>, nullptr, 0, 2, 6, 0);
MC_SCENARIO("C27", "sequence-with-waiter", beside<1>, nullptr, 1 + 10, 2, 6, 0);
MC_SCENARIO("C27", "nested-fork-with-waiter", beside<1>, nullptr, 10, 2, 6, 0);
MC_SCENARIO("C27", "two-workers-with-waiter", beside<2>, nullptr, 10, 1, 2, 0);
MC_SCENARIO("C27", "capped-fork-with-waiter", beside<1>, nullptr, 2, 2, 6, 0);
MC_SCENARIO("C27", "after-active-wait", after_active, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C27", "capped-after-active-wait", after_active, nullptr, 1, 1, 3, 0);
MC_SCENARIO("C27", "results", results, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C27", "parallel-for", loop, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C27", "task-handed-in", contended<1>, nullptr, 0, 2, 6, 0);
MC_SCENARIO("C27", "task-twice", contended<0>, nullptr, 10, 3, 99, 0);
MC_SCENARIO("C27", "task-and-active-wait", contended<0>, nullptr, 20, 3, 99, 0);
MC_SCENARIO("C27", "fork-handed-in", contended<1>, nullptr, 1, 2, 6, 0);
MC_SCENARIO("C27", "sequence-handed-in", contended<1>, nullptr, 2, 2, 6, 0);
MC_SCENARIO("C27", "fork-twice", contended<0>, nullptr, 11, 3, 99, 0);
MC_SCENARIO("C27", "sequence-twice", contended<0>, nullptr, 12, 3, 99, 0);
MC_SCENARIO("C27", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C27", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C27", "large-depth", large_depth, nullptr, 20, 0, 1, MC_LONG);
