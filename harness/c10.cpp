// C10: a parallel-for calls the function once per index and then returns.
#include "common.h"
#include <deque>
#include "large.h"
using dh = oqpi::default_helpers;

static sched_t *g_s;
static const int OFF = 20;
static int g_calls[2][64];                    // plain: calls that overlap or are not ordered before the return are data races
static int g_busy[2][16];                     // batches in use
static bool g_ret[2];
static void call(int q, int i)
{
    if (i < -OFF || i >= 64 - OFF) mc_fail("foreign-index", "called with %d", i);
    MC_CHECK(!g_ret[q], "called-after-return");
    if (g_calls[q][i + OFF]++) mc_fail("called-twice", "index %d is called %d times", i, g_calls[q][i + OFF]);
}
static void call_b(int q, int batches, int b, int i)
{
    if (b < 0 || b >= batches) mc_fail("batch-index", "batch index %d, there are %d batches", b, batches);
    if (g_busy[q][b]) mc_fail("batch-overlap", "two calls with batch index %d overlap", b);
    g_busy[q][b] = 1; call(q, i); g_busy[q][b] = 0;
}
static void returned(int q, int first, int last)
{
    g_ret[q] = true;
    for (int i = -OFF; i < 64 - OFF; ++i)
    {
        const int n = g_calls[q][i + OFF], e = i >= first && i < last;
        if (n != e) mc_fail(n < e ? "not-called" : "foreign-index", "range [%d, %d): index %d is called %d times", first, last, i, n);
    }
}
template <typename P, typename F> static void pfor(const P &p, F &&f) { oqpi::parallel_for<evt_t, empty_group_context, empty_task_context>(*g_s, "p", p, task_priority::normal, std::forward<F>(f)); }
static int g_first, g_last, g_limit, g_grab, g_kind;
static void run(int q)
{
    const int f = g_first, l = g_last;
    const int n = l > f ? l - f : 0, batches = std::min(n, g_limit);
    switch (g_kind)
    {
        case 0: pfor(simple_partitioner(f, l, g_limit), [q](int i) { call(q, i); }); break;
        case 1: pfor(simple_partitioner(f, l, g_limit), [q, batches](int b, int i) { call_b(q, batches, b, i); }); break;
        case 2: pfor(atomic_partitioner(f, l, g_grab, g_limit), [q](int i) { call(q, i); }); break;
        case 3: pfor(atomic_partitioner(f, l, g_grab, g_limit), [q, batches](int b, int i) { call_b(q, batches, b, i); }); break;
    }
    returned(q, f, l);
}
static void pick(int how)
{
    static const int fs[] = {0, -2, 3}; g_first = how & 1 ? fs[mc_choose(3)] : 0;
    g_last = g_first + (how & 2 ? mc_choose(6) - 1 : 2 + mc_choose(2));
    g_limit = 1 + mc_choose(how & 2 ? 4 : 3); g_kind = mc_choose(4); g_grab = g_kind >= 2 ? 1 + mc_choose(how & 2 ? 3 : 2) : 1;
}
template <int W> static void from_main(int how)
{
    pick(how); g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    run(0);
    g_s->stop(); returned(0, g_first, g_last); delete g_s;
}
template <int W> static void from_task(int how)
{
    pick(how); g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    { task_handle t(mk([] { run(0); })); g_s->add(t); t.wait(); }
    g_s->stop(); returned(0, g_first, g_last); delete g_s;
}
template <int W> static void two_callers(int how)
{
    pick(how); g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        std::thread t([] { run(1); });
        run(0);
        t.join();
    }
    g_s->stop(); returned(0, g_first, g_last); returned(1, g_first, g_last); delete g_s;
}
// tasks call parallel-for while another one does the same
template <int W> static void two_tasks(int how)
{
    pick(how); g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    { task_handle t(mk([] { run(1); })), u(mk([] { run(0); })); g_s->add(t); g_s->add(u); t.wait(); u.wait(); }
    g_s->stop(); delete g_s;
}
// the same function object state reaches every call; effects are visible to the caller
template <int W> static void effects(int)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    static int out[4]; std::vector<int> in{3, 5, 7, 11};
    pfor(simple_partitioner(4, 2), [in](int i) { out[i] = in[i] * in[i]; });
    for (int i = 0; i < 4; ++i) MC_CHECK(out[i] == in[i] * in[i], "effect-missing");
    int sum[2] = {0, 0}; int *ps = sum;
    pfor(atomic_partitioner(4, 1, 2), [ps](int b, int i) { ps[b] += out[i]; });
    MC_CHECK(sum[0] + sum[1] == 9 + 25 + 49 + 121, "effect-missing");
    g_s->stop(); delete g_s;
}
// a group made now and run after the function it was made from is gone
template <int W> static void kept_function(int)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        static int out[4]; const int kind = mc_choose(4), how = mc_choose(3); task_handle h;
        {
            struct functor { std::shared_ptr<std::vector<int>> p; std::string s; void operator()(int i) const { out[i] += (*p)[i] + int(s.size()); } };
            functor f{std::make_shared<std::vector<int>>(std::vector<int>{3, 5, 7, 11}), std::string(40, 'f')};
            auto go = [&](auto &&part) { auto make = [&](auto &&fn) { return task_handle(oqpi::make_parallel_for_task_group<task_type::waitable, evt_t, empty_group_context, empty_task_context>(*g_s, "p", part, task_priority::normal, std::forward<decltype(fn)>(fn))); }; h = kind & 1 ? make(functor{f}) : make(f); };
            if (kind & 2) go(atomic_partitioner(4, 1, 2)); else go(simple_partitioner(4, 2));
        }
        char *scribble = new char[64]; memset(scribble, 1, 64); delete[] scribble;
        if (how == 0) h.activeWait(); else { g_s->add(h); if (how == 1) h.wait(); else h.activeWait(); }
        for (int i = 0; i < 4; ++i) MC_CHECK(out[i] == (i == 3 ? 11 : 3 + 2 * i) + 40, "effect-missing");
    }
    g_s->stop(); delete g_s;
}
// every overload of the helpers
struct gctx : group_context_base { using group_context_base::group_context_base; };
struct tctx : task_context_base { using task_context_base::task_context_base; };
using GC = group_context_container<gctx>; using TC = task_context_container<tctx>;
template <typename F> static void each(int n, F f)
{
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    f(v);
    for (int i = 0; i < n; ++i) MC_CHECK(v[i] == i + 100, "effect-missing");
    g_ret[0] = true;
}
template <int W> static void overloads(int how)
{
    dh::start_default_scheduler(W);
    MC_CHECK(dh::scheduler().workersTotalCount() == W, "worker-count");
    const int which = mc_choose(16), n = how & 1 ? mc_choose(4) : 2, f = how & 1 ? mc_choose(2) * 3 - 2 : 1;
    auto fn = [](int i) { call(0, i); };
    auto fb = [n](int b, int i) { call_b(0, std::min(W, n), b, i); };
    auto fe = [](int &x) { call(0, x); x += 100; };
    const auto pr = task_priority::high;
    int lo = 0, hi = n;
    switch (which)
    {
        case 0: dh::parallel_for("p", n, fn); break;
        case 1: dh::parallel_for("p", n, fb); break;
        case 2: lo = f; hi = f + n; dh::parallel_for("p", lo, hi, fn); break;
        case 3: lo = f; hi = f + n; dh::parallel_for("p", lo, hi, fb); break;
        case 4: lo = f; hi = f + n; dh::parallel_for("p", simple_partitioner(lo, hi, W), pr, fb); break;
        case 5: dh::parallel_for("p", atomic_partitioner(n, 1, W), pr, fb); break;
        case 6: dh::parallel_for<GC, TC>("p", n, fn); break;
        case 7: lo = f; hi = f + n; dh::parallel_for<GC, TC>("p", lo, hi, fb); break;
        case 8: dh::parallel_for<GC, TC>("p", simple_partitioner(n, W), pr, fb); break;
        case 9: each(n, [&](std::vector<int> &v) { dh::parallel_for_each("p", v, fe); }); break;
        case 10: each(n, [&](std::vector<int> &v) { dh::parallel_for_each("p", v, simple_partitioner(n, W), pr, fe); }); break;
        case 11: each(n, [&](std::vector<int> &v) { dh::parallel_for_each<GC, TC>("p", v, atomic_partitioner(n, 1, W), pr, fe); }); break;
        case 12: case 13:
        {
            task_handle h; bool got;
            if (which == 12) { auto g = dh::make_parallel_for_task_group<task_type::waitable>("p", simple_partitioner(n, W), pr, fb); got = g != nullptr; if (g) h = task_handle(g); }
            else { auto g = dh::make_parallel_for_task_group<task_type::waitable, GC, TC>("p", atomic_partitioner(n, 2, W), pr, fb); got = g != nullptr; if (g) h = task_handle(g); }
            MC_CHECK(got == (n > 0), "empty-range-group");
            if (got) { MC_CHECK(!h.isDone() && h.getPriority() == pr, "group-priority"); if (mc_choose(2)) { dh::schedule_task(h).wait(); } else h.activeWait(); MC_CHECK(h.isDone(), "not-done-after-wait"); }
            break;
        }
        case 14: { auto fl = fb; dh::parallel_for("p", n, fl); break; }             // lvalue function
        case 15: { const auto fl = fn; dh::parallel_for("p", simple_partitioner(n, W), pr, fl); break; }
    }
    returned(0, lo, hi);
    dh::stop_scheduler(); returned(0, lo, hi);
    dh::scheduler_.~scheduler();    // releases the workers of the global scheduler
}
// ranges and containers of more elements than small integer types can count
static long long g_seen[66000];   // whole words: a shadow cell each
template <int W> static void large_ranges(int)
{
    dh::start_default_scheduler(W); static const int N[] = {127, 128, 300, 32768, 40000, 66000}; const int n = N[mc_choose(6)];
    memset(g_seen, 0, sizeof g_seen); auto at = [](int i) { ++g_seen[i]; };
    const int which = mc_choose(7); std::vector<long long> v(which == 4 || which == 6 ? n : 0); for (int i = 0; i < int(v.size()); ++i) v[i] = i; auto fe = [&](long long &x) { ++g_seen[x]; x = -1; }; bool each = false;
    switch (which)
    {
        case 0: dh::parallel_for("p", n, at); break;
        case 1: dh::parallel_for("p", -n, 0, [&](int i) { at(i + n); }); break;
        case 2: dh::parallel_for("p", simple_partitioner(0, n, 3), task_priority::normal, at); break;
        case 3: dh::parallel_for("p", atomic_partitioner(n, n / 10 + 1, 2), task_priority::normal, [&](int, int i) { at(i); }); break;
        case 4: dh::parallel_for_each("p", v, fe); each = true; break;
        case 5: { std::deque<long long> d; for (int i = 0; i < n; ++i) d.push_back(i); dh::parallel_for_each("p", d, fe); for (long long x : d) MC_CHECK(x == -1, "effect-missing"); break; }
        case 6: dh::parallel_for_each("p", v, simple_partitioner(n, 2), task_priority::normal, fe); each = true; break;
    }
    for (int i = 0; i < n; ++i) if (g_seen[i] != 1) mc_fail("not-exactly-once", "index %d of %d was visited %d times", i, n, int(g_seen[i]));
    if (each) for (long long x : v) MC_CHECK(x == -1, "effect-missing");
    dh::stop_scheduler(); dh::scheduler_.~scheduler();
}
MC_SCENARIO("C10", "large-ranges", large_ranges<1>, nullptr, 0, 0, 1, MC_LONG);
MC_SCENARIO("C10", "large-ranges-two-workers", large_ranges<2>, nullptr, 0, 0, 0, MC_LONG);
MC_SCENARIO("C10", "ranges", from_main<1>, nullptr, 3, 0, 2, 0);
MC_SCENARIO("C10", "two-workers-ranges", from_main<2>, nullptr, 3, 0, 1, 0);
MC_SCENARIO("C10", "from-main", from_main<1>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C10", "two-workers-from-main", from_main<2>, nullptr, 0, 1, 1, 0);
MC_SCENARIO("C10", "three-workers-from-main", from_main<3>, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C10", "ranges-from-task", from_task<1>, nullptr, 3, 0, 2, 0);
MC_SCENARIO("C10", "two-workers-ranges-from-task", from_task<2>, nullptr, 3, 0, 0, 0);
MC_SCENARIO("C10", "from-task", from_task<1>, nullptr, 0, 2, 14, 0);
MC_SCENARIO("C10", "two-workers-from-task", from_task<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C10", "two-callers", two_callers<1>, nullptr, 0, 1, 1, 0);
MC_SCENARIO("C10", "two-workers-two-callers", two_callers<2>, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C10", "two-tasks", two_tasks<1>, nullptr, 0, 1, 4, 0);
MC_SCENARIO("C10", "two-workers-two-tasks", two_tasks<2>, nullptr, 0, 1, 1, 0);
MC_SCENARIO("C10", "effects", effects<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C10", "two-workers-effects", effects<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C10", "kept-function", kept_function<1>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C10", "two-workers-kept-function", kept_function<2>, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C10", "overloads", overloads<1>, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C10", "two-workers-overloads", overloads<2>, nullptr, 1, 0, 1, 0);
MC_SCENARIO("C10", "two-workers-overloads-two-elements", overloads<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C10", "large-loop", large_loop, nullptr, 500, 0, 1, MC_LONG);
MC_SCENARIO("C10", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
