// C28: task identifiers are unique and valid.
#include "helpers_rec.h"
#include <set>
#include <sys/mman.h>

static void note(std::vector<task_uid> &v, task_uid u) { if (u == invalid_task_uid) mc_fail("invalid", "a task has the invalid identifier"); v.push_back(u); }
static void distinct(std::vector<task_uid> v) { std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) mc_fail("not-unique", "two tasks have the identifier %lu", (unsigned long)v[i]); }
static sched_t *g_s;
static const int KINDS = 6;
static task_handle make(int kind)
{
    switch (kind)
    {
        case 0: return task_handle(mk([] {}));
        case 1: return task_handle(mk_ff([] {}));
        case 2: return task_handle(mk_fork(*g_s));
        case 3: return task_handle(mk_seq(*g_s));
        case 4: return task_handle(mk_fork<task_type::fire_and_forget>(*g_s, 1));
        default: return task_handle(mk([] { return 5; }, task_priority::low));
    }
}
// creating threads; kept or forgotten at once
static void creators(int k)
{
    const int threads = k % 10, each = k / 10; const bool few = threads * each > 4 || threads > 3; g_s = new sched_t; std::vector<std::vector<task_uid>> v(threads); std::vector<task_handle> kept[4];
    for (int i = 0; i < threads; ++i) { v[i].reserve(8); kept[i].reserve(8); }
    auto body = [&](int t) { for (int i = 0; i < each; ++i) { task_handle h = make(few ? 2 * mc_choose(2) : mc_choose(KINDS)); note(v[t], h.getUID()); if (few ? i == 0 : mc_choose(2)) kept[t].push_back(h); } };
    std::vector<std::thread> ts; for (int t = 1; t < threads; ++t) ts.emplace_back(body, t); body(0); for (auto &t : ts) t.join();
    std::vector<task_uid> all; for (auto &x : v) all.insert(all.end(), x.begin(), x.end()); distinct(all); for (int t = 0; t < threads; ++t) for (auto &h : kept[t]) { bool in = false; for (auto u : v[t]) in |= u == h.getUID(); MC_CHECK(in, "changed"); }
    for (auto &x : kept) x.clear(); delete g_s;
}
// tasks created by tasks
template <int W> static void nested(int)
{
    g_s = new sched_t; add_workers(*g_s, W); g_s->start();
    {
        std::vector<task_uid> in[3], out; for (auto &x : in) x.reserve(4); out.reserve(8); std::vector<task_handle> hs;
        for (int i = 0; i < 3; ++i) hs.push_back(task_handle(mk([&in, i] { for (int j = 0; j < 2; ++j) note(in[i], make(i * 2 + j).getUID()); })));
        for (auto &h : hs) { note(out, h.getUID()); g_s->add(h); } note(out, make(2).getUID());
        for (auto &h : hs) h.wait(); for (size_t i = 0; i < hs.size(); ++i) MC_CHECK(hs[i].getUID() == out[i], "changed");
        for (auto &x : in) { MC_CHECK(x.size() == 2, "made"); out.insert(out.end(), x.begin(), x.end()); } distinct(out);
    }
    g_s->stop(); delete g_s;
}
// one identifier through a whole life, however it is looked at
template <int W> static void life(int)
{
    g_s = new sched_t; add_workers(*g_s, W);
    {
        const int kind = mc_choose(KINDS), start = mc_choose(2); task_handle h = make(kind); const task_uid id = h.getUID(); const bool waits = kind != 1 && kind != 4;
        auto same = [&](const task_handle &x) { if (x.getUID() != id) mc_fail("changed", "%lu became %lu", (unsigned long)id, (unsigned long)x.getUID()); };
        task_handle g; if (kind >= 2 && kind <= 4) { auto m = task_handle(mk([] {})); g = m; task_group_sptr p = kind == 2 ? task_group_sptr(mk_fork(*g_s)) : kind == 3 ? task_group_sptr(mk_seq(*g_s)) : task_group_sptr(mk_fork(*g_s, 1)); p->addTask(m); MC_CHECK(m.getUID() != p->getUID() && m.getUID() != id, "not-unique"); if (mc_choose(2)) p->addTask(task_handle(mk([] {}))); h = task_handle(p); }
        const task_uid now = h.getUID(); auto still = [&](const task_handle &x) { if (x.getUID() != now) mc_fail("changed", "%lu became %lu", (unsigned long)now, (unsigned long)x.getUID()); };
        if (start) g_s->start();
        task_handle c(h), m(std::move(c)), a; a = m; still(m); still(a); still(h); (void)same;
        task_handle r = g_s->add(h); still(r); still(h); task_handle r2 = g_s->add(a); still(r2); if (!start) g_s->start();
        if (waits || g.isValid()) { h.wait(); still(h); r.wait(); still(r); } else { mc_quiesce(); still(h); }
        if (!g.isValid() && kind == 0) { h.activeWait(); still(h); } a.reset(); still(h); task_handle n(std::move(h)); still(n);
    }
    g_s->stop(); delete g_s;
}
// moved task objects keep theirs, and what is created next has another
static void moved(int)
{
    struct nothing { void operator()() {} }; nothing f; using T = task<task_type::waitable, evt_t, empty_task_context, decltype(f)>; std::vector<task_uid> v; v.reserve(8);
    T a("a", task_priority::normal, f), b("b", task_priority::low, f); const task_uid ia = a.getUID(), ib = b.getUID(); note(v, ia); note(v, ib);
    switch (mc_choose(4))
    {
        case 0: { T c(std::move(a)); MC_CHECK(c.getUID() == ia, "changed"); note(v, T("d", task_priority::normal, f).getUID()); MC_CHECK(c.getUID() == ia && b.getUID() == ib, "changed"); break; }
        case 1: b = std::move(a); MC_CHECK(b.getUID() == ia, "changed"); note(v, T("d", task_priority::normal, f).getUID()); MC_CHECK(a.getUID() != ia, "not-unique"); break;
        case 2: { T c(std::move(a)); a = std::move(b); b = std::move(c); MC_CHECK(a.getUID() == ib && b.getUID() == ia, "changed"); note(v, mk(f)->getUID()); break; }
        case 3: { std::vector<T> o; o.reserve(1); o.push_back(std::move(a)); o.push_back(std::move(b)); MC_CHECK(o[0].getUID() == ia && o[1].getUID() == ib, "changed"); o.erase(o.begin()); MC_CHECK(o[0].getUID() == ib, "changed"); note(v, T("d", task_priority::normal, f).getUID()); break; }
    }
    distinct(v);
}
// many tasks: identifiers do not come round again
static void many(int n)
{
    auto nothing = [] {}; using T = task<task_type::fire_and_forget, evt_t, empty_task_context, decltype(nothing)>;
    const size_t size = (n + 200) * sizeof(task_uid); task_uid *v = (task_uid *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); int k = 0;
    auto add = [&](task_uid u) { MC_CHECK(u != invalid_task_uid, "invalid"); v[k++] = u; };
    for (int i = 0; i < n; ++i) { T t("t", task_priority::normal, nothing); add(t.getUID()); }
    g_s = new sched_t; for (int i = 0; i < 30; ++i) for (int j = 0; j < KINDS; ++j) add(make(j).getUID()); delete g_s;
    std::sort(v, v + k); int same = 0; for (int i = 1; i < k; ++i) same += v[i] == v[i - 1]; munmap(v, size);
    if (same) mc_fail("not-unique", "%d of %d tasks have the identifier of another one", same, k);
}
// everything the helpers create: the tasks of loops, forks and sequences
template <int W> static void helpers_(int k)
{
    rec_begin(W);
    {
        std::vector<task_handle> keep; keep.reserve(8);
        auto loop = [] { return tk::make_parallel_for_task_group<task_type::waitable>("l", simple_partitioner(2, 2), task_priority::normal, [](int) {}); };
        auto build = [&](int what) { switch (what) { case 0: { task_handle h(loop()); keep.push_back(h); tk::schedule_task(h); break; } case 1: keep.push_back(tk::fork_tasks<task_type::waitable>("f", tk::make_task_item("a", [] {}), tk::make_task_item("b", [] {}))); break; case 2: keep.push_back(tk::sequence_tasks<task_type::waitable>("s", tk::make_task_item("a", [] {}), tk::make_task_item("b", [] {}))); break; default: keep.push_back(tk::schedule_task("t", [] {})); } };
        const int a = mc_choose(4), b = mc_choose(4); build(a); build(b); if (!W) MC_CHECK(g_named->size() == (a == 3 ? 1u : 3u) + (b == 3 ? 1u : 3u), "made");
        std::vector<task_uid> all; all.reserve(8); { std::lock_guard<std::mutex> l(g_named_m); for (auto *x : *g_named) note(all, x->owner->getUID()); } distinct(all); (void)k;
        if (!W) rec_run(); for (auto &h : keep) h.wait(); std::lock_guard<std::mutex> l(g_named_m); for (auto *x : *g_named) { bool in = false; for (auto u : all) in |= u == x->owner->getUID(); MC_CHECK(in, "changed"); }
    }
    rec_end();
}
MC_SCENARIO("C28", "two-creators", creators, nullptr, 22, 4, 99, 0); MC_SCENARIO("C28", "two-creators-three-each", creators, nullptr, 32, 1, 3, 0); MC_SCENARIO("C28", "three-creators", creators, nullptr, 13, 6, 99, 0); MC_SCENARIO("C28", "four-creators", creators, nullptr, 14, 2, 6, 0);
MC_SCENARIO("C28", "created-by-tasks", nested<1>, nullptr, 0, 3, 5, 0); MC_SCENARIO("C28", "created-by-tasks-two-workers", nested<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C28", "life", life<1>, nullptr, 0, 2, 5, 0); MC_SCENARIO("C28", "life-two-workers", life<2>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C28", "moved", moved, nullptr, 0, 99, 99, MC_SEQ);
MC_SCENARIO("C28", "many", many, nullptr, 66000, 0, 0, MC_SEQ | MC_LONG);
MC_SCENARIO("C28", "helpers", helpers_<0>, nullptr, 0, 99, 99, MC_SEQ); MC_SCENARIO("C28", "helpers-one-worker", helpers_<1>, nullptr, 0, 1, 3, 0);
