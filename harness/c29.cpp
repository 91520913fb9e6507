// C29: fork and sequence helpers build and schedule exactly what is passed.
#include "helpers_rec.h"

static const task_priority PRIO[] = { task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low };
static std::vector<int> *g_order; static std::mutex g_order_m;          // what ran, in order
static int g_did[8];
static void body(int i) { ++g_did[i]; std::lock_guard<std::mutex> l(g_order_m); g_order->push_back(i); }
// a group's context that notes what is added to it
template <int K> struct adds_default : group_note<K> { std::vector<task_uid> uids; adds_default(task_group_base *p, const std::string &n) : group_note<K>(p, n) {} void onTaskAdded(const task_handle &h) { group_note<K>::onTaskAdded(h); uids.push_back(h.getUID()); auto p = h.getParentGroup(); MC_CHECK(p && p->getUID() == this->named::owner->getUID(), "wrong-parent"); } };
using gdef = group_context_container<adds_default<0>>; using gown = group_context_container<adds_default<1>>;
using hk = oqpi::helpers<rec_sched, gdef, tc<0>, evt_t>;
static const std::vector<task_uid> &added(named *n) { if (n->kind == 0) return static_cast<adds_default<0> *>(n)->uids; return static_cast<adds_default<1> *>(n)->uids; }
static void begin(int w) { rec_begin(w); g_order = new std::vector<int>; g_order->reserve(16); memset(g_did, 0, sizeof g_did); }
static void end() { rec_end(); delete g_order; g_order = nullptr; }

// passes n members, each as what kind says, to call; fills in what is expected
struct expected { std::vector<task_uid> uids; std::vector<int> ids; std::vector<task_handle> handles; expected() { uids.reserve(8); ids.reserve(8); handles.reserve(8); } };
static task_handle member(expected &e, int i)
{
    auto keep = [&](task_handle h) { e.uids.push_back(h.getUID()); e.ids.push_back(i); e.handles.push_back(h); return h; };
    switch (mc_choose(5))
    {
        case 0: return keep(task_handle(hk::make_task_item("m", [i] { body(i); })));
        case 1: return keep(task_handle(hk::make_task("m", PRIO[4], [i] { body(i); return i; })));
        case 2: return task_handle();
        case 3: { auto g = hk::make_sequence_group<task_type::waitable>("inner"); g->addTask(task_handle(hk::make_task_item("m", [i] { body(i); }))); return keep(task_handle(g)); }
        default: { auto g = hk::make_parallel_group<task_type::fire_and_forget>("inner"); g->addTask(task_handle(hk::make_task_item("m", [i] { body(i); }))); return keep(task_handle(g)); }
    }
}
static task_handle few(expected &e, int i, bool item) { task_handle h = item ? task_handle(hk::make_task_item("m", [i] { body(i); })) : task_handle(hk::make_task("m", [i] { body(i); })); e.uids.push_back(h.getUID()); e.ids.push_back(i); e.handles.push_back(h); return h; }
// which overload: 0 everything given, 1 no context, 2 no priority (and no context for forks), 3 neither
template <task_type T, typename... M> static task_handle fork(int form, task_priority p, M &&...m)
{
    switch (form) { case 0: return hk::fork_tasks<T, gown>("the group", p, std::forward<M>(m)...); case 1: return hk::fork_tasks<T>("the group", p, std::forward<M>(m)...); default: return hk::fork_tasks<T>("the group", std::forward<M>(m)...); }
}
template <task_type T, typename... M> static task_handle sequence(int form, task_priority p, M &&...m)
{
    switch (form) { case 0: return hk::sequence_tasks<T, gown>("the group", p, std::forward<M>(m)...); case 1: return hk::sequence_tasks<T>("the group", p, std::forward<M>(m)...); case 2: return hk::sequence_tasks<T, gown>("the group", std::forward<M>(m)...); default: return hk::sequence_tasks<T>("the group", std::forward<M>(m)...); }
}
template <int W> static void helper(int k)
{
    const bool seq = k % 10 == 2; const int n = k / 10;
    begin(W);
    {
        const bool wait = mc_choose(2) == 0; const int form = mc_choose(seq ? 4 : 3), pi = form < 2 ? mc_choose(5) : 2; const task_priority p = PRIO[pi]; expected e; task_handle h, m[4];
        for (int i = 0; i < n; ++i) m[i] = n > 2 || W ? few(e, i, mc_choose(2)) : member(e, i);
        if (e.uids.empty()) { m[0].reset(); m[0] = few(e, 0, true); }
        auto call = [&](auto &&...x) { if (wait) return seq ? sequence<task_type::waitable>(form, p, std::move(x)...) : fork<task_type::waitable>(form, p, std::move(x)...); return seq ? sequence<task_type::fire_and_forget>(form, p, std::move(x)...) : fork<task_type::fire_and_forget>(form, p, std::move(x)...); };
        switch (n) { case 1: h = call(m[0]); break; case 2: h = call(m[0], m[1]); break; case 3: h = call(m[0], m[1], m[2]); break; case 4: h = call(m[0], m[1], m[2], m[3]); break; }
        MC_CHECK(h.isValid(), "wrong-handle"); { std::lock_guard<std::mutex> l(g_rec->m); MC_CHECK(!g_rec->added.empty() && g_rec->added[0].getUID() == h.getUID(), "wrong-handle"); }
        named *c = of(h); MC_CHECK(c->group && c->kind == (form == 0 || (seq && form == 2)), "wrong-context"); MC_CHECK(c->name == "the group", "wrong-name");
        MC_CHECK(waitable(h) == wait && fire_and_forget(h) != wait, "wrong-type"); MC_CHECK(h.getPriority() == p, "wrong-priority");
        if (added(c) != e.uids) mc_fail("members", "%zu of %zu members, or in another order", added(c).size(), e.uids.size());
        if (!W)
        {
            MC_CHECK(g_rec->added.size() == 1 && g_order->empty(), "too-early"); for (auto &x : e.handles) { auto g = x.getParentGroup(); MC_CHECK(g && g->getUID() == h.getUID(), "wrong-parent"); }
            // a fork's members are all on their way once it was executed, a sequence's one after the other
            { task_handle x = h; MC_CHECK(x.tryGrab(), "too-early"); x.execute(); }
            size_t away = 0; for (auto &x : e.handles) { bool in = x.isGrabbed(); for (auto &y : g_rec->added) in |= y.getUID() == x.getUID(); away += in; }
            if (seq ? e.handles.size() > 2 && away == e.handles.size() : away != e.handles.size()) mc_fail("wrong-kind", "%zu of %zu members were scheduled", away, e.handles.size());
            rec_run();
        }
        else if (wait) h.wait();
        else { mc_quiesce(); g_rec->real->stop(); }
        MC_CHECK(h.isDone(), "not-done"); for (auto &x : e.handles) MC_CHECK(x.isDone(), "not-done");
        std::vector<int> did; { std::lock_guard<std::mutex> l(g_order_m); did = *g_order; } if (!seq) std::sort(did.begin(), did.end());
        if (did != e.ids) mc_fail("members", "ran %zu members instead of %zu, or in another order", did.size(), e.ids.size());
        MC_CHECK(c->pre == 1 && c->post == 1, "hooks");
    }
    end();
}
// groups built by hand: valid and invalid members in any order, looked at after each
static void building(int)
{
    begin(0);
    {
        const int kind = mc_choose(6), cap = kind == 2 || kind == 5 ? 1 + mc_choose(2) : 0; const task_priority p = PRIO[mc_choose(5)]; task_group_sptr g; const int n = 1 + mc_choose(3); expected e;
        switch (kind)
        {
            case 0: g = hk::make_parallel_group<task_type::waitable, gown>("g", p); break; case 1: g = hk::make_sequence_group<task_type::waitable, gown>("g", p); break; case 2: g = hk::make_parallel_group<task_type::waitable, gown>("g", p, n, cap); break;
            case 3: g = hk::make_parallel_group<task_type::fire_and_forget>("g", p, 7); break; case 4: g = hk::make_sequence_group<task_type::fire_and_forget>("g", p); break; default: g = hk::make_parallel_group<task_type::waitable>("g", p, 0, cap);
        }
        MC_CHECK(g->empty() && g->getPriority() == p && g->getUID() != 0, "wrong"); task_handle h(g); named *c = of(h); MC_CHECK(c->kind == (kind < 3), "wrong-context"); MC_CHECK(waitable(h) == (kind != 3 && kind != 4), "wrong-type");
        for (int i = 0; i < n; ++i)
        {
            const int what = mc_choose(3);
            if (what == 0) { g->addTask(task_handle()); } else if (what == 1) g->addTask(few(e, i, true)); else { task_handle m = few(e, i, false); g->addTask(m); MC_CHECK(m.isValid(), "wrong-handle"); }
            MC_CHECK(added(c) == e.uids && g->empty() == e.uids.empty(), "members"); for (auto &x : e.handles) { auto q = x.getParentGroup(); MC_CHECK(q && q->getUID() == g->getUID() && !x.isDone() && !x.isGrabbed(), "wrong-parent"); }
            MC_CHECK(g_rec->added.empty() && !h.isGrabbed() && !h.isDone() && c->pre == 0, "too-early");
        }
        if (e.uids.empty()) g->addTask(few(e, 0, true));
        g.reset(); MC_CHECK(hk::schedule_task(h).getUID() == h.getUID() && g_rec->added.size() == 1, "scheduled");
        // one thing after the other: how many are pending at once is the limit's
        size_t most = 0; for (size_t i = 0; i < g_rec->added.size(); ++i) { size_t open = 0; for (size_t j = i + 1; j < g_rec->added.size(); ++j) if (!g_rec->added[j].isGrabbed()) ++open; most = std::max(most, open + (i > 0)); task_handle x = g_rec->added[i]; if (x.tryGrab()) x.execute(); }
        if (cap && most > size_t(cap)) mc_fail("limit", "%zu members pending at once instead of %d", most, cap);
        MC_CHECK(h.isDone() && c->pre == 1 && c->post == 1, "not-done"); std::vector<int> did = *g_order; if (kind != 1 && kind != 4) std::sort(did.begin(), did.end()); MC_CHECK(did == e.ids, "members");
    }
    end();
}
// the README's programs, with the real scheduler of the default helpers
static void readme(int)
{
    struct other_scheduler : scheduler<concurrent_queue> {}; using dk = helpers<other_scheduler>; std::string s, f; std::mutex m; int unit = 0;
    dk::start_default_scheduler(1 + mc_choose(2));
    const auto a = dk::schedule_task("UnitTask", [&] { ++unit; }); a.wait(); MC_CHECK(unit == 1, "members");
    const auto b = dk::sequence_tasks<task_type::waitable>("Sequence", dk::make_task_item("Seq1", [&] { s += 'a'; }), dk::make_task_item("Seq2", [&] { s += 'b'; }), dk::make_task_item("Seq3", [&] { s += 'c'; })); b.wait(); MC_CHECK(s == "abc", "members");
    const auto c = dk::fork_tasks<task_type::waitable>("Fork", dk::make_task_item("Fork1", [&] { std::lock_guard<std::mutex> l(m); f += 'a'; }), dk::make_task_item("Fork2", [&] { std::lock_guard<std::mutex> l(m); f += 'b'; }), dk::make_task_item("Fork3", [&] { std::lock_guard<std::mutex> l(m); f += 'c'; })); c.wait(); std::sort(f.begin(), f.end()); MC_CHECK(f == "abc", "members");
    dk::stop_scheduler();
}
#define HS(name, k, q1, t1) MC_SCENARIO("C29", name, helper<0>, nullptr, k, 99, 99, MC_SEQ); MC_SCENARIO("C29", name "-one-worker", helper<1>, nullptr, k, q1, t1, 0); MC_SCENARIO("C29", name "-two-workers", helper<2>, nullptr, k, 0, q1, 0)
HS("fork-one", 11, 1, 3); HS("fork-two", 21, 1, 2); HS("fork-three", 31, 0, 1); HS("fork-four", 41, 0, 1); HS("sequence-one", 12, 1, 3); HS("sequence-two", 22, 1, 2); HS("sequence-three", 32, 0, 1); HS("sequence-four", 42, 0, 1);
MC_SCENARIO("C29", "building", building, nullptr, 0, 99, 99, MC_SEQ); MC_SCENARIO("C29", "readme", readme, nullptr, 0, 1, 3, MC_NOLEAK);
// more members than fit on two hands
static void many(int)
{
    begin(0);
    {
        const bool seq = mc_choose(2); expected e; std::vector<task_handle> m; for (auto *v : {&e.uids}) v->reserve(16); e.ids.reserve(16); e.handles.reserve(16); for (int i = 0; i < 8; ++i) m.push_back(few(e, i, i & 1));
        auto ff = [&](auto &&...x) { return seq ? hk::sequence_tasks<task_type::waitable, gown>("g", PRIO[1], std::move(x)...) : hk::fork_tasks<task_type::waitable, gown>("g", PRIO[1], std::move(x)...); };
        task_handle h = ff(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]); named *c = of(h); MC_CHECK(added(c) == e.uids, "members"); rec_run(); MC_CHECK(h.isDone() && c->pre == 1 && c->post == 1, "not-done"); if (!seq) std::sort(g_order->begin(), g_order->end()); MC_CHECK(*g_order == e.ids, "members");
    }
    end();
}
static void building_many(int n)
{
    begin(0);
    {
        const int kind = mc_choose(3); task_group_sptr g; if (kind == 0) g = hk::make_parallel_group<task_type::waitable, gown>("g", PRIO[1]); else if (kind == 1) g = hk::make_sequence_group<task_type::waitable, gown>("g", PRIO[1]); else g = hk::make_parallel_group<task_type::waitable, gown>("g", PRIO[1], 4, 3);
        task_handle h(g); named *c = of(h); std::vector<task_uid> u; std::vector<task_handle> all; u.reserve(n); all.reserve(n); g_rec->added.reserve(n + 8); static int ran; ran = 0;
        for (int i = 0; i < n; ++i) { if (i % 10 == 3) g->addTask(task_handle()); task_handle m(oqpi::make_task<task_type::fire_and_forget, evt_t, empty_task_context>("m", PRIO[2], [i, kind] { if (kind == 1 && ran != i) mc_fail("members", "member %d runs in place %d", i, ran); ++ran; })); u.push_back(m.getUID()); all.push_back(m); g->addTask(m); }
        MC_CHECK(added(c) == u, "members"); for (auto &m : all) { auto p = m.getParentGroup(); MC_CHECK(p && p->getUID() == g->getUID(), "wrong-parent"); } g.reset();
        hk::schedule_task(h); rec_run(); MC_CHECK(h.isDone() && ran == n && c->pre == 1 && c->post == 1, "members");
    }
    end();
}
MC_SCENARIO("C29", "many", many, nullptr, 0, 0, 1, MC_SEQ);
MC_SCENARIO("C29", "building-many", building_many, nullptr, 300, 0, 1, MC_SEQ | MC_LONG);
