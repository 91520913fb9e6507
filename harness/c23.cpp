// C23: context hooks bracket execution, exactly once and in order.
#include "common.h"
#include "oqpi/scheduling_helpers.hpp"
#include "oqpi/parallel_algorithms/parallel_for.hpp"
#include "oqpi/parallel_algorithms/atomic_partitioner.hpp"

// What happened to each task and group, in order. Plain memory: a hook or function that is not ordered after what has to
// precede it shows as a data race.
static const int N = 24;
static std::string g_log[N];
static int g_parent[N];                                // the group a task was put into, or -1
static std::vector<int> g_members[N];
static void begin() { for (int i = 0; i < N; ++i) { g_parent[i] = -1; g_log[i].reserve(32); g_members[i].reserve(8); } }
static void forget() { for (int i = 0; i < N; ++i) { std::string().swap(g_log[i]); std::vector<int>().swap(g_members[i]); } }
static void note(int id, char c) { g_log[id].push_back(c); }
static bool ends(const std::string &s, const char *e) { const size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
static void before_start(int id, const char *what)     // everything around the task has seen its pre-execute hooks
{
    const int p = g_parent[id]; if (p < 0) return;
    if (!ends(g_log[p], "AB")) mc_fail("member-before-group", "%s of task %d: the hooks of its group so far are \"%s\"", what, id, g_log[p].c_str());
    before_start(p, what);
}
static void completed(int id)                          // the task or group with all its hooks
{
    std::string tu; for (size_t i = 0; i < g_members[id].size(); ++i) tu += "TU";
    const std::string run = g_members[id].empty() ? "ABfab" : "ABab", in = g_parent[id] < 0 ? "" : "12";
    // a group is put into another one once it has been filled
    if (g_log[id] != tu + in + run) mc_fail("hooks", "hooks and executions of %d are \"%s\" instead of \"%s\"", id, g_log[id].c_str(), (tu + in + run).c_str());
    for (int m : g_members[id]) completed(m);
}
static int id_of(const std::string &name) { return atoi(name.c_str()); }
template <char FIRST> struct task_ctx : task_context_base
{
    int id;
    task_ctx(task_base *p, const std::string &name) : task_context_base(p, name), id(id_of(name)) {}
    static constexpr int K = FIRST - 'A';
    void onAddedToGroup(const task_group_sptr &g) { MC_CHECK(g && g == owner()->getParentGroup(), "wrong-group"); note(id, char('1' + K)); }
    void onPreExecute() { MC_CHECK(owner()->isGrabbed() && !owner()->isDone(), "hook-too-late"); before_start(id, "pre-execute hook"); note(id, FIRST); }
    void onPostExecute() { note(id, char('a' + K)); }
};
template <char FIRST> struct group_ctx : group_context_base
{
    int id;
    group_ctx(task_group_base *p, const std::string &name) : group_context_base(p, name), id(id_of(name)) {}
    static constexpr int K = FIRST - 'A';
    void onAddedToGroup(const task_group_sptr &) { note(id, char('1' + K)); }
    void onTaskAdded(const task_handle &h) { MC_CHECK(h.isValid() && h.getParentGroup().get() == owner(), "wrong-group"); note(id, char('T' + K)); }
    void onPreExecute() { before_start(id, "pre-execute hook"); note(id, FIRST); }
    void onPostExecute() { for (int m : g_members[id]) completed(m); note(id, char('a' + K)); }
};
using tctx = task_context_container<task_ctx<'A'>, task_ctx<'B'>>;
using gctx = group_context_container<group_ctx<'A'>, group_ctx<'B'>>;
// --- workers -----------------------------------------------------------------------------------
static std::string g_wlog[8]; static uint64_t g_wuid[8]; static worker_base *g_wowner[8];
template <char FIRST> struct work_ctx : worker_context_base
{
    work_ctx(worker_base *p) : worker_context_base(p) {}
    static void put(const char *s) { g_wlog[mc_tid()].push_back(s[FIRST - 'A']); }
    void onStart() { put("Ss"); g_wowner[mc_tid()] = owner(); } void onStop() { put("Zz"); } void onIdle() { put("Ii"); } void onActive() { put("Aa"); }
    void onPreExecute(const task_handle &h) { put("Pp"); MC_CHECK(h.isValid() && h.isGrabbed(), "wrong-task"); MC_CHECK(g_wowner[mc_tid()] == owner(), "wrong-worker"); g_wuid[mc_tid()] = h.getUID(); }
    void onPostExecute(const task_handle &h) { put("Qq"); MC_CHECK(h.isValid() && h.getUID() == g_wuid[mc_tid()], "wrong-task"); }
};
using wctx = worker_context_container<work_ctx<'A'>, work_ctx<'B'>>;
// what a worker may have gone through: Ss ( Ii Aa ( Pp f* Qq )? )* Zz
static void judge_worker(int t)
{
    const std::string &s = g_wlog[t]; size_t i = 0; auto eat = [&](const char *w) { if (s.compare(i, 2, w) == 0) { i += 2; return true; } return false; };
    bool ok = eat("Ss"); int runs = 0;
    while (ok && eat("Ii")) { ok = eat("Aa"); if (ok && eat("Pp")) { while (i < s.size() && s[i] == 'f') { ++i; ++runs; } ok = eat("Qq"); } }
    ok = ok && eat("Zz") && i == s.size(); if (!ok) mc_fail("worker-hooks", "worker thread %d has gone through \"%s\"", t, s.c_str());
}
static void work(int id) { before_start(id, "function"); if (!ends(g_log[id], "AB")) mc_fail("hooks", "task %d starts after \"%s\"", id, g_log[id].c_str()); note(id, 'f'); if (mc_tid() && !g_wlog[mc_tid()].empty()) g_wlog[mc_tid()].push_back('f'); }
static void go(sched_t &s, int workers) { begin(); for (auto &l : g_wlog) l.reserve(64); add_workers<wctx>(s, workers); s.start(); }
static void stop(sched_t &s) { s.stop(); for (int t = 1; t < 8; ++t) if (!g_wlog[t].empty()) judge_worker(t); for (auto &l : g_wlog) std::string().swap(l); }
// --- making -------------------------------------------------------------------------------------
template <task_type T = task_type::fire_and_forget> static auto task_of(int id) { return oqpi::make_task<T, evt_t, tctx>(std::to_string(id), task_priority::normal, [id] { work(id); }); }
static task_handle add_to(const task_group_sptr &g, int gid, int id) { g_parent[id] = gid; g_members[gid].push_back(id); task_handle h(task_of(id)); g->addTask(h); return h; }
template <task_type T = task_type::waitable> static task_group_sptr fork_of(sched_t &s, int id, int n, int cap = 0) { auto g = oqpi::make_parallel_group<T, gctx>(s, std::to_string(id), task_priority::normal, n, cap); for (int i = 0; i < n; ++i) add_to(g, id, id + 1 + i); return g; }
template <task_type T = task_type::waitable> static task_group_sptr seq_of(sched_t &s, int id, int n) { auto g = oqpi::make_sequence_group<T, gctx>(s, std::to_string(id), task_priority::normal); for (int i = 0; i < n; ++i) add_to(g, id, id + 1 + i); return g; }
static void put_into(const task_group_sptr &g, int gid, const task_group_sptr &sub, int sid) { g_parent[sid] = gid; g_members[gid].push_back(sid); g->addTask(task_handle(sub)); }
static task_handle shape(sched_t &s, int k)
{
    switch (k)
    {
        case 0: return task_handle(task_of<task_type::waitable>(0));
        case 1: return task_handle(fork_of(s, 0, 2));
        case 2: return task_handle(seq_of(s, 0, 2));
        case 3: return task_handle(fork_of(s, 0, 3, 1));
        case 4: { auto g = fork_of(s, 0, 1); put_into(g, 0, seq_of<task_type::fire_and_forget>(s, 8, 2), 8); return task_handle(g); }
        case 5: { auto g = seq_of(s, 0, 1); put_into(g, 0, fork_of<task_type::fire_and_forget>(s, 8, 2), 8); return task_handle(g); }
        case 6: { auto g = fork_of(s, 0, 0); put_into(g, 0, fork_of<task_type::fire_and_forget>(s, 8, 2), 8); put_into(g, 0, fork_of<task_type::fire_and_forget>(s, 16, 1), 16); return task_handle(g); }
        case 7: return task_handle(fork_of(s, 0, 3));
        case 8: return task_handle(seq_of(s, 0, 3));
        case 9: return task_handle(fork_of(s, 0, 1));
    }
    return task_handle();
}
enum { WAIT = 0, ACTIVE = 1, SINGLE = 2, GRAB = 3, ACTIVE_FIRST = 4 };
// one task or group, one way to have it executed
template <int W> static void bracket(int k)
{
    sched_t s; go(s, W);
    {
        task_handle h = shape(s, k % 10);
        switch (k / 10)
        {
            case WAIT: s.add(h); h.wait(); break;
            case ACTIVE: s.add(h); h.activeWait(); break;
            case SINGLE: h.executeSingleThreaded(); h.wait(); break;
            case GRAB: MC_CHECK(h.tryGrab(), "grabbed"); h.execute(); h.wait(); break;
            case ACTIVE_FIRST: { std::thread p([&] { s.add(h); }); h.activeWait(); completed(0); p.join(); break; }
        }
        completed(0);
    }
    stop(s); completed(0); forget();
}
// two waiters, one of them working
static void two_waiters(int k)
{
    sched_t s; go(s, 1);
    {
        task_handle h = shape(s, k); s.add(h); std::thread a([h]() mutable { h.activeWait(); completed(0); }); h.wait(); completed(0); a.join();
    }
    stop(s); forget();
}
// fire and forget: seen through the scheduler having been stopped
static void forgotten(int how)
{
    sched_t s; go(s, 2); s.add(task_handle(task_of(0))); s.add(task_handle(how ? fork_of<task_type::fire_and_forget>(s, 8, 2) : seq_of<task_type::fire_and_forget>(s, 8, 2)));
    s.add(task_handle(task_of(1))); mc_quiesce(); stop(s); completed(0); completed(1); completed(8); forget();
}
// a parallel-for with contexts: any number of elements, batches at most, and from the toolkit's overloads
static int g_batches, g_elems, g_seen[8], g_run[8];     // g_run: which batch a thread is executing
struct for_group : group_context_base
{
    for_group(task_group_base *p, const std::string &n) : group_context_base(p, n) {}
    void onTaskAdded(const task_handle &) { note(0, 't'); } void onPreExecute() { note(0, 'A'); }
    void onPostExecute() { for (int i = 0; i < g_elems; ++i) MC_CHECK(g_seen[i] == 1, "hooks"); for (int i = 1; i <= g_batches; ++i) if (g_log[i] != "Aa") mc_fail("hooks", "batch %d has gone through \"%s\"", i, g_log[i].c_str()); note(0, 'a'); }
};
struct for_task : task_context_base
{
    int id; for_task(task_base *p, const std::string &n) : task_context_base(p, n), id(++g_batches) {}
    void onPreExecute() { if (!ends(g_log[0], "A")) mc_fail("member-before-group", "batch %d starts with the loop at \"%s\"", id, g_log[0].c_str()); note(id, 'A'); g_run[mc_tid()] = id; }
    void onPostExecute() { MC_CHECK(g_run[mc_tid()] == id, "hooks"); g_run[mc_tid()] = 0; note(id, 'a'); }
};
static void for_body(int32_t i) { const int r = g_run[mc_tid()]; if (r == 0 || g_log[r] != "A") mc_fail("hooks", "element %d is processed outside of any batch's hooks", i); g_seen[i]++; }
static void for_done(int elems, int batches)
{
    MC_CHECK(g_batches == batches, "hooks"); if (elems == 0) { MC_CHECK(g_log[0].empty(), "hooks"); return; }
    if (g_log[0] != std::string(batches, 't') + "Aa") mc_fail("hooks", "the loop over %d elements in %d batches has gone through \"%s\"", elems, batches, g_log[0].c_str());
    for (int i = 0; i < elems; ++i) MC_CHECK(g_seen[i] == 1, "hooks");
}
template <typename P> static void for_run(sched_t &s, const P &p, int n, int b) { oqpi::parallel_for<evt_t, group_context_container<for_group>, task_context_container<for_task>>(s, "loop", p, task_priority::normal, [](int32_t i) { for_body(i); }); for_done(n, n < b ? n : b); }
static void loop(int workers)
{
    sched_t s; go(s, workers); const int n = g_elems = mc_choose(5), b = 1 + mc_choose(3);
    if (mc_choose(2)) for_run(s, simple_partitioner(n, b), n, b); else for_run(s, atomic_partitioner(n, 1 + mc_choose(2), b), n, b);
    stop(s); forget();
}
using LH = oqpi::helpers<sched_t, group_context_container<for_group>, task_context_container<for_task>, evt_t>;
static void loop_toolkit(int how)
{
    begin(); const int w = 1 + (how & 1); LH::start_default_scheduler(w); const int n = g_elems = mc_choose(4); std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    using G = group_context_container<for_group>; using T = task_context_container<for_task>;
    switch (mc_choose(6))
    {
    case 0: LH::parallel_for("loop", n, [](int32_t i) { for_body(i); }); for_done(n, n < w ? n : w); break;
    case 1: LH::parallel_for("loop", 0, n, [](int32_t i) { for_body(i); }); for_done(n, n < w ? n : w); break;
    case 2: LH::parallel_for<G, T>("loop", n, [](int32_t i) { for_body(i); }); for_done(n, n < w ? n : w); break;
    case 3: LH::parallel_for_each("loop", v, [](int32_t &i) { for_body(i); }); for_done(n, n < w ? n : w); break;
    case 4: LH::parallel_for_each("loop", v, simple_partitioner(n, 1), task_priority::high, [](int32_t &i) { for_body(i); }); for_done(n, n ? 1 : 0); break;
    case 5: LH::parallel_for_each<G, T>("loop", v, simple_partitioner(n, 2), task_priority::low, [](int32_t &i) { for_body(i); }); for_done(n, n < 2 ? n : 2); break;
    }
    LH::stop_scheduler(); forget();
}
// starting and stopping; restarting
static void worker_life(int k)
{
    sched_t s; begin(); for (auto &l : g_wlog) l.reserve(64); add_workers<wctx>(s, k); s.start();
    if (mc_choose(2)) { task_handle h(task_of<task_type::waitable>(0)); s.add(h); if (mc_choose(2)) { h.wait(); completed(0); } }
    s.stop(); int workers = 0; for (int t = 1; t < 8; ++t) if (!g_wlog[t].empty()) { judge_worker(t); ++workers; } if (workers != k) mc_fail("worker-hooks", "%d workers have been started, %d have seen their hooks", k, workers);
    s.start(); { task_handle h(task_of<task_type::waitable>(1)); s.add(h); h.wait(); completed(1); } stop(s); if (!g_log[0].empty()) completed(0); forget();
}
// a task that executes other things: the hooks of what it executes lie within its own
static void nested_execution(int how)
{
    sched_t s; go(s, 1);
    {
        g_log[20].clear(); task_handle inner = shape(s, how ? 1 : 0);
        auto outer = oqpi::make_task<task_type::waitable, evt_t, tctx>("20", task_priority::normal, [&, inner]() mutable { work(20); if (mc_choose(2)) s.add(inner); inner.activeWait(); completed(0); });
        task_handle h(outer); s.add(h); h.wait(); completed(20); completed(0);
    }
    stop(s); forget();
}
#define BR(name, k, q1, t1, q2, t2) MC_SCENARIO("C23", name, bracket<1>, nullptr, k, q1, t1, 0); MC_SCENARIO("C23", name "-two-workers", bracket<2>, nullptr, k, q2, t2, 0)
BR("task", 0, 99, 99, 2, 4); BR("fork", 1, 3, 9, 1, 3); BR("sequence", 2, 3, 9, 1, 3); BR("capped-fork", 3, 2, 5, 1, 2); BR("fork-of-sequence", 4, 2, 5, 1, 2); BR("sequence-of-fork", 5, 2, 5, 1, 2); BR("fork-of-forks", 6, 2, 4, 1, 2);
BR("task-active", 10, 99, 99, 2, 5); BR("fork-active", 11, 3, 9, 2, 3); BR("capped-fork-active", 13, 2, 5, 1, 2); BR("fork-of-sequence-active", 14, 2, 4, 1, 2); BR("fork-of-forks-active", 16, 2, 4, 1, 2); BR("single-member-active", 19, 3, 9, 2, 4);
BR("task-single", 20, 2, 3, 1, 2); BR("fork-single", 21, 2, 3, 1, 2); BR("sequence-single", 22, 2, 3, 1, 2); BR("capped-fork-single", 23, 2, 3, 1, 1); BR("fork-of-sequence-single", 24, 2, 3, 1, 2); BR("sequence-of-fork-single", 25, 2, 3, 1, 2); BR("fork-of-forks-single", 26, 2, 3, 1, 2);
BR("task-grabbed", 30, 2, 3, 1, 2); BR("fork-grabbed", 31, 2, 6, 1, 2); BR("sequence-grabbed", 32, 2, 6, 1, 2);
BR("task-active-first", 40, 3, 9, 1, 3); BR("fork-active-first", 41, 2, 6, 1, 2);
MC_SCENARIO("C23", "task-two-waiters", two_waiters, nullptr, 0, 2, 6, 0);
MC_SCENARIO("C23", "fork-two-waiters", two_waiters, nullptr, 1, 2, 5, 0);
MC_SCENARIO("C23", "forgotten-sequence", forgotten, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C23", "forgotten-fork", forgotten, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C23", "parallel-for", loop, nullptr, 1, 2, 9, 0);
MC_SCENARIO("C23", "parallel-for-two-workers", loop, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C23", "parallel-for-toolkit", loop_toolkit, nullptr, 0, 1, 3, MC_NOLEAK);
MC_SCENARIO("C23", "parallel-for-toolkit-two", loop_toolkit, nullptr, 1, 1, 3, MC_NOLEAK);
MC_SCENARIO("C23", "worker-life", worker_life, nullptr, 1, 4, 99, 0);
MC_SCENARIO("C23", "worker-life-two", worker_life, nullptr, 2, 1, 2, 0);
MC_SCENARIO("C23", "nested-task", nested_execution, nullptr, 0, 3, 9, 0);
MC_SCENARIO("C23", "nested-fork", nested_execution, nullptr, 1, 2, 9, 0);
// many members, each with hooks of its own
static int g_hook[2][512], g_grp[4], g_of;
struct many_task : task_context_base { int id; many_task(task_base *p, const std::string &n) : task_context_base(p, n), id(atoi(n.c_str())) {} void onPreExecute() { MC_CHECK(g_grp[1] == 1 && g_hook[0][id]++ == 0 && !g_hook[1][id], "hooks"); } void onPostExecute() { MC_CHECK(g_hook[0][id] == 2 && g_hook[1][id]++ == 0, "hooks"); } };
struct many_group : group_context_base { many_group(task_group_base *p, const std::string &n) : group_context_base(p, n) {} void onTaskAdded(const task_handle &) { ++g_grp[0]; } void onPreExecute() { ++g_grp[1]; for (int i = 0; i < g_of; ++i) MC_CHECK(!g_hook[0][i], "hooks"); } void onPostExecute() { ++g_grp[2]; for (int i = 0; i < g_of; ++i) MC_CHECK(g_hook[1][i] == 1, "hooks"); } };
static void many(int n)
{
    sched_t s; begin(); add_workers(s, 1); s.start(); const int kind = mc_choose(3), how = mc_choose(kind == 1 ? 2 : 3); g_of = n; memset(g_hook, 0, sizeof g_hook); memset(g_grp, 0, sizeof g_grp); using GC = group_context_container<many_group>; using TC = task_context_container<many_task>;
    {
        task_group_sptr g; if (kind == 1) g = oqpi::make_sequence_group<task_type::waitable, GC>(s, "g", task_priority::normal); else g = oqpi::make_parallel_group<task_type::waitable, GC>(s, "g", task_priority::normal, 0, kind ? 2 : 0);
        for (int i = 0; i < n; ++i) g->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, evt_t, TC>(std::to_string(i), task_priority::normal, [i] { MC_CHECK(g_hook[0][i]++ == 1 && !g_hook[1][i], "hooks"); })));
        MC_CHECK(g_grp[0] == n && !g_grp[1], "hooks"); task_handle h(g); g.reset(); if (how == 1) h.executeSingleThreaded(); else s.add(h); if (how == 2) h.activeWait(); else h.wait();
        MC_CHECK(g_grp[0] == n && g_grp[1] == 1 && g_grp[2] == 1, "hooks");
    }
    s.stop(); forget();
}
MC_SCENARIO("C23", "many", many, nullptr, 200, 0, 1, MC_LONG);
// any number of contexts: each hook reaches all of them, one after the other
enum { ADDED, TASK_ADDED, PRE, POST, W_START, W_STOP, W_IDLE, W_ACTIVE, HOOKS };
static int g_turn[8][HOOKS], g_calls[8][HOOKS];        // per entity: which context is next; complete rounds
template <int I, int OF> struct turn
{
    static void take(int id, int h) { int &t = g_turn[id][h]; if (t != I) mc_fail("hooks", "hook %d of %d reaches context %d of %d when it is the turn of %d", h, id, I, OF, t); if (++t == OF) { t = 0; ++g_calls[id][h]; } }
};
template <int I, int OF> struct any_task : task_context_base { int id; any_task(task_base *p, const std::string &n) : task_context_base(p, n), id(id_of(n)) {}
    void onAddedToGroup(const task_group_sptr &) { turn<I, OF>::take(id, ADDED); } void onPreExecute() { turn<I, OF>::take(id, PRE); } void onPostExecute() { turn<I, OF>::take(id, POST); } };
template <int I, int OF> struct any_group : group_context_base { int id; any_group(task_group_base *p, const std::string &n) : group_context_base(p, n), id(id_of(n)) {}
    void onAddedToGroup(const task_group_sptr &) { turn<I, OF>::take(id, ADDED); } void onTaskAdded(const task_handle &) { turn<I, OF>::take(id, TASK_ADDED); } void onPreExecute() { turn<I, OF>::take(id, PRE); } void onPostExecute() { turn<I, OF>::take(id, POST); } };
template <int I, int OF> struct any_worker : worker_context_base { any_worker(worker_base *p) : worker_context_base(p) {}
    void onStart() { turn<I, OF>::take(7, W_START); } void onStop() { turn<I, OF>::take(7, W_STOP); } void onIdle() { turn<I, OF>::take(7, W_IDLE); } void onActive() { turn<I, OF>::take(7, W_ACTIVE); }
    void onPreExecute(const task_handle &) { turn<I, OF>::take(7, PRE); } void onPostExecute(const task_handle &) { turn<I, OF>::take(7, POST); } };
template <int... I> static void any_contexts(std::integer_sequence<int, I...>, int how)
{
    constexpr int OF = sizeof...(I); using TC = task_context_container<any_task<I, OF>...>; using GC = group_context_container<any_group<I, OF>...>; using WC = worker_context_container<any_worker<I, OF>...>;
    sched_t s; memset(g_turn, 0, sizeof g_turn); memset(g_calls, 0, sizeof g_calls); add_workers<WC>(s, 1); s.start();
    {
        auto member = [](int id) { return task_handle(oqpi::make_task<task_type::fire_and_forget, evt_t, TC>(std::to_string(id), task_priority::normal, [id] { for (int t : g_turn[id]) MC_CHECK(t == 0, "hooks"); MC_CHECK(!OF || (g_calls[id][PRE] == 1 && g_calls[id][POST] == 0), "hooks"); })); };
        auto f = oqpi::make_parallel_group<task_type::waitable, GC>(s, "0", task_priority::normal); auto q = oqpi::make_sequence_group<task_type::fire_and_forget, GC>(s, "1", task_priority::normal);
        f->addTask(member(2)); q->addTask(member(3)); q->addTask(member(4)); f->addTask(task_handle(q)); task_handle h(f); q.reset(); f.reset();
        if (how == 0) { s.add(h); h.wait(); } else if (how == 1) { s.add(h); h.activeWait(); } else h.executeSingleThreaded();
    }
    s.stop(); for (auto &e : g_turn) for (int t : e) MC_CHECK(t == 0, "hooks");
    if (OF)
    {
        static const int want[5][4] = {{0, 2, 1, 1}, {1, 2, 1, 1}, {1, 0, 1, 1}, {1, 0, 1, 1}, {1, 0, 1, 1}};
        for (int i = 0; i < 5; ++i) for (int h = 0; h < 4; ++h) if (g_calls[i][h] != want[i][h]) mc_fail("hooks", "hook %d of %d is called %d times instead of %d", h, i, g_calls[i][h], want[i][h]);
        MC_CHECK(g_calls[7][W_START] == 1 && g_calls[7][W_STOP] == 1 && g_calls[7][W_IDLE] == g_calls[7][W_ACTIVE] && g_calls[7][PRE] == g_calls[7][POST], "worker-hooks");
    }
}
template <int OF> static void contexts(int how) { any_contexts(std::make_integer_sequence<int, OF>(), how); }
#define CTX(n) MC_SCENARIO("C23", "contexts-" #n, contexts<n>, nullptr, 0, 1, 3, 0); MC_SCENARIO("C23", "contexts-" #n "-active", contexts<n>, nullptr, 1, 1, 3, 0); MC_SCENARIO("C23", "contexts-" #n "-single", contexts<n>, nullptr, 2, 1, 3, 0)
CTX(0); CTX(1); CTX(3); CTX(5);
