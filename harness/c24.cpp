// C24: tasks, groups and handles are released exactly once, and not before.
// Accesses to freed memory, double frees and leaks are the runtime's to find; the scenarios add when something has to be gone.
#include "common.h"
#include "large.h"
#include "oqpi/parallel_algorithms/parallel_for.hpp"

// Something captured (or carried by a context): says when it has been released
struct probe
{
    std::unique_ptr<int> p; int id;
    explicit probe(int i) : p(new int(0)), id(i) {}
    probe(probe &&o) : p(std::move(o.p)), id(o.id) {}
    probe &operator=(probe &&) = delete;
    ~probe() { if (!p) return; if (mc_hb_none_get(id)) mc_fail("released-twice", "what %d holds is released once more", id); p.reset(); mc_hb_none_raise(id); }
    void use() { MC_CHECK(p, "released-early"); (*p)++; mc_event_local(EV_NOTE, id, *p); (*p)--; }
};
static void held(int id) { if (mc_hb_none_get(id)) mc_fail("released-early", "what %d holds was released while it was still referred to", id); }
static void gone(int id) { if (!mc_hb_none_get(id)) mc_fail("not-released", "what %d holds has not been released", id); }
struct group_probe : group_context_base { probe p; group_probe(task_group_base *o, const std::string &n) : group_context_base(o, n), p(atoi(n.c_str())) {} void onPreExecute() { p.use(); } void onPostExecute() { p.use(); } };
struct task_probe : task_context_base { probe p; task_probe(task_base *o, const std::string &n) : task_context_base(o, n), p(atoi(n.c_str()) + 1) {} void onPreExecute() { p.use(); } void onPostExecute() { p.use(); } };
using gctx = group_context_container<group_probe>; using tctx = task_context_container<task_probe>;
// tasks are 0, 4, 8...: captured by the function; + 1: carried by the context; + 2: an argument
template <task_type T = task_type::waitable> static auto task_of(int id)
{
    return oqpi::make_task<T, evt_t, tctx>(std::to_string(id), task_priority::normal, [p = probe(id)](probe a) mutable { p.use(); a.use(); return std::make_unique<int>(a.id); }, probe(id + 2));
}
static void task_gone(int id) { gone(id); gone(id + 1); gone(id + 2); }
static void task_held(int id) { held(id); held(id + 1); }
static sched_t *g_s;
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void end() { g_s->stop(); delete g_s; }

// --- one task ---------------------------------------------------------------------------------
static task_handle g_h;
template <int W> static void one_task(int how)
{
    begin(W);
    switch (how)
    {
        case 0: g_s->add(task_handle(task_of<task_type::fire_and_forget>(0))); break;                                          // never held
        case 1: { task_handle h(task_of(0)); g_s->add(h); h.wait(); task_held(0); mc_quiesce(); task_held(0); break; }         // until after the wait
        case 2: { task_handle h(task_of(0)); g_s->add(h); task_held(0); break; }                                               // dropped at some point
        case 3: { task_handle h(task_of(0)); g_s->add(h); std::thread t([k = h]() mutable { k.wait(); task_held(0); k.reset(); }); h.reset(); t.join(); break; }
        case 4: { task_handle h(task_of(0)); g_s->add(h); h.activeWait(); task_held(0); break; }
        case 5: { task_handle h(task_of(0)); std::thread t([k = h]() mutable { k.activeWait(); task_held(0); }); g_s->add(h); h.activeWait(); task_held(0); h.reset(); t.join(); break; }
        case 6: { task_handle h(task_of(0)); task_handle k(h); h.reset(); task_held(0); k.reset(); break; }                    // never executed at all
        case 7:                                                                                                               // the task drops the last handle to itself
        {
            g_h = task_handle(oqpi::make_task<task_type::waitable, evt_t, tctx>("0", task_priority::normal, [p = probe(0)](probe a) mutable { p.use(); g_h.reset(); p.use(); a.use(); task_held(0); }, probe(2)));
            g_s->add(g_h); break;
        }
        case 8: { task_handle h(task_of(0)); g_s->add(h); g_s->add(h); h.wait(); break; }                                      // two entries in the queue
        case 9: { auto t = task_of(0); g_s->add(task_handle(t)); auto r = t->isDone(); (void)r; t->wait(); task_held(0); t.reset(); break; }
        case 10: { task_handle h(task_of(0)); MC_CHECK(h.tryGrab(), "grabbed"); g_s->add(h); h.execute(); task_held(0); break; }
        case 11: { task_handle h(task_of(0)); h.executeSingleThreaded(); h.wait(); task_held(0); break; }
        case 12: { task_handle h(task_of(0)); g_s->add(h); while (!h.isDone()) { task_held(0); mc_yield(); } break; }
    }
    mc_quiesce(); task_gone(0); end();
}
// still pending when the scheduler goes away
static void pending(int how)
{
    begin(1);
    {
        if (how & 1) g_s->stop();
        task_handle h(task_of(0)); g_s->add(h); g_s->add(task_handle(task_of<task_type::fire_and_forget>(4)));
        if (how & 2) { h.activeWait(); }
        if (how & 4) { h.reset(); end(); task_gone(0); task_gone(4); return; }
        end(); task_held(0);
    }
    task_gone(0); task_gone(4);
}
// --- groups --------------------------------------------------------------------------------------
static task_group_sptr fork_of(int id, int n, int cap = 0) { return oqpi::make_parallel_group<task_type::waitable, gctx>(*g_s, std::to_string(id), task_priority::normal, n, cap); }
static task_group_sptr seq_of(int id) { return oqpi::make_sequence_group<task_type::waitable, gctx>(*g_s, std::to_string(id), task_priority::normal); }
enum { FORK = 0, SEQ = 1, CAPPED = 2, FORK_IN_SEQ = 3, SEQ_IN_FORK = 4, KINDS = 5 };
// group 40 (and 44 inside) of tasks 0, 4 (and 8); returns the group, the last member through m
static task_handle group_of(int kind, task_handle *m = nullptr)
{
    task_group_sptr g = kind == FORK ? fork_of(40, 2) : kind == CAPPED ? fork_of(40, 2, 1) : kind == SEQ_IN_FORK ? fork_of(40, 2) : seq_of(40);
    g->addTask(task_handle(task_of<task_type::fire_and_forget>(0)));
    task_handle last(task_of(4));
    if (kind == FORK_IN_SEQ) { auto i = fork_of(44, 2); i->addTask(last); g->addTask(task_handle(i)); }
    else if (kind == SEQ_IN_FORK) { auto i = seq_of(44); i->addTask(last); g->addTask(task_handle(i)); }
    else g->addTask(last);
    if (m) *m = last;
    return task_handle(g);
}
static void group_gone(int kind) { gone(40); task_gone(0); if (kind >= FORK_IN_SEQ) gone(44); }
enum { DROP = 0, WAIT = 1, ACTIVE = 2, MEMBER = 3, TWO = 4, SINGLE = 5, SINGLE_MEMBER = 6, MEMBER_WAITS = 7, SELF = 8 };
template <int W> static void group(int k)
{
    const int kind = k % 10, how = k / 10; begin(W);
    switch (how)
    {
        case DROP: g_s->add(group_of(kind)); break;
        case WAIT: { task_handle h = group_of(kind); g_s->add(h); h.wait(); held(40); mc_quiesce(); held(40); break; }
        case ACTIVE: { task_handle h = group_of(kind); g_s->add(h); h.activeWait(); held(40); break; }
        case MEMBER:                                   // somebody keeps a member: the group goes all the same
        {
            task_handle m; g_s->add(group_of(kind, &m)); mc_quiesce(); MC_CHECK(m.isDone() && !m.getParentGroup(), "not-released"); task_held(4); group_gone(kind); m.reset(); break;
        }
        case TWO: { task_handle h = group_of(kind); g_s->add(h); std::thread t([x = h]() mutable { x.wait(); held(40); x.reset(); }); if (kind == FORK) h.activeWait(); h.reset(); t.join(); break; }
        case SINGLE: { task_handle h = group_of(kind); h.executeSingleThreaded(); held(40); h.wait(); break; }
        case SINGLE_MEMBER: { task_handle m; { task_handle h = group_of(kind, &m); h.executeSingleThreaded(); held(40); } task_held(4); group_gone(kind); m.reset(); break; }
        case MEMBER_WAITS: { task_handle m; task_handle h = group_of(kind, &m); g_s->add(h); h.reset(); m.wait(); task_held(4); m.reset(); break; }
        case SELF: { g_h = group_of(kind); { task_handle h(g_h); g_s->add(h); } std::thread t([] { g_h.reset(); }); t.join(); break; }
    }
    mc_quiesce(); group_gone(kind); task_gone(4); end();
}
// members which hold the last handle to the group, and drop it while they run
template <int W> static void members_hold_group(int kind)
{
    begin(W);
    {
        task_group_sptr g = kind ? seq_of(40) : fork_of(40, 2); auto h = std::make_shared<task_handle>(task_handle(g));
        for (int i = 0; i < 2; ++i) g->addTask(task_handle(oqpi::make_task<task_type::fire_and_forget, evt_t, tctx>(std::to_string(4 * i), task_priority::normal, [i, h, p = probe(4 * i)](probe a) mutable { p.use(); a.use(); if (i) h->reset(); h.reset(); p.use(); held(40); }, probe(4 * i + 2))));
        g.reset(); g_s->add(*h);
    }
    mc_quiesce(); gone(40); task_gone(0); task_gone(4); end();
}
// a task hands in another one and keeps or drops it
template <int W> static void spawned(int how)
{
    begin(W);
    g_s->add(mk_ff([how] { task_handle h(task_of(0)); if (how == 2) { g_s->add(h); h.activeWait(); task_held(0); } else { g_s->add(h); if (how) h.reset(); } }));
    mc_quiesce(); task_gone(0); end();
}
// parallel-for: what the function holds is released when it is over, without anything else happening
static void loop(int)
{
    begin(1);
    {
        auto p = std::make_shared<probe>(0);
        oqpi::parallel_for<evt_t, gctx, empty_task_context>(*g_s, "40", simple_partitioner(2, 2), task_priority::normal, [p](int32_t) { MC_CHECK(p->p && *p->p == 0, "released-early"); held(0); });
        held(0);
    }
    mc_quiesce(); gone(0); gone(40); end();
}
// every sequence of operations on three handles to two tasks, against counted references
static void handles(int depth)
{
    std::vector<int> ref(3, -1); task_handle h[3]; auto refs = [&](int t) { return (int)std::count(ref.begin(), ref.end(), t); };
    h[0] = task_handle(task_of(0)); ref[0] = 0; h[1] = task_handle(task_of(4)); ref[1] = 1;
    const uint64_t uid[2] = { h[0].getUID(), h[1].getUID() };
    for (int d = 0; d < depth; ++d)
    {
        const int op = mc_choose(6), a = mc_choose(3), b = op == 2 ? 0 : mc_choose(3);
        switch (op)
        {
            case 0: h[a] = h[b]; ref[a] = ref[b]; break;
            case 1: { const int r = ref[b]; h[a] = std::move(h[b]); if (a != b) { ref[b] = -1; ref[a] = r; } break; }
            case 2: h[a].reset(); ref[a] = -1; break;
            case 3: { task_handle t(h[a]); MC_CHECK(t.isValid() == (ref[a] >= 0), "handle"); h[b] = std::move(t); ref[b] = ref[a]; break; }
            case 4: { const int r = ref[a]; task_handle t(std::move(h[a])); ref[a] = -1; MC_CHECK(t.isValid() == (r >= 0) && !h[a].isValid(), "handle"); h[b] = t; ref[b] = r; break; }
            case 5: std::swap(h[a], h[b]); std::swap(ref[a], ref[b]); break;
        }
        for (int i = 0; i < 3; ++i) { MC_CHECK(h[i].isValid() == (ref[i] >= 0), "handle"); if (ref[i] >= 0) MC_CHECK(h[i].getUID() == uid[ref[i]], "handle"); }
        for (int t = 0; t < 2; ++t) if (refs(t)) task_held(4 * t); else { gone(4 * t); gone(4 * t + 1); }
    }
    for (auto &x : h) x.reset(); task_gone(0); task_gone(4);
}
// FINDING: a group that never gets executed and its members hold on to each other
static void never_executed(int how)
{
    begin(1);
    { task_handle h = group_of(how & 1 ? SEQ : FORK); if (how & 2) { g_s->stop(); g_s->add(h); } }
    mc_quiesce(); if (!(how & 2)) group_gone(0); end(); group_gone(0);
}
#define T2(name, k, q1, t1, q2, t2) MC_SCENARIO("C24", name, one_task<1>, nullptr, k, q1, t1, 0); MC_SCENARIO("C24", name "-two-workers", one_task<2>, nullptr, k, q2, t2, 0)
T2("never-held", 0, 4, 99, 2, 4); T2("held-past-wait", 1, 4, 99, 2, 4); T2("dropped", 2, 4, 99, 2, 4); T2("two-holders", 3, 3, 9, 2, 3); T2("active", 4, 4, 99, 2, 4); T2("two-active", 5, 3, 9, 2, 3);
T2("unexecuted", 6, 3, 3, 1, 1); T2("drops-itself", 7, 4, 99, 2, 4); T2("handed-in-twice", 8, 4, 9, 2, 4); T2("shared-pointer", 9, 4, 99, 2, 4); T2("grabbed", 10, 4, 9, 2, 4); T2("single", 11, 3, 3, 1, 1); T2("polled", 12, 3, 9, 1, 3);
MC_SCENARIO("C24", "pending", pending, nullptr, 0, 4, 9, 0); MC_SCENARIO("C24", "pending-stopped", pending, nullptr, 1, 4, 9, 0); MC_SCENARIO("C24", "pending-active", pending, nullptr, 3, 4, 9, 0); MC_SCENARIO("C24", "pending-dropped", pending, nullptr, 4, 4, 9, 0); MC_SCENARIO("C24", "pending-stopped-dropped", pending, nullptr, 5, 4, 9, 0);
#define G2(name, how, q1, t1, q2, t2) \
    MC_SCENARIO("C24", "fork-" name, group<1>, nullptr, 10 * how + FORK, q1, t1, 0); MC_SCENARIO("C24", "fork-" name "-two-workers", group<2>, nullptr, 10 * how + FORK, q2, t2, 0); \
    MC_SCENARIO("C24", "sequence-" name, group<1>, nullptr, 10 * how + SEQ, q1, t1, 0); MC_SCENARIO("C24", "sequence-" name "-two-workers", group<2>, nullptr, 10 * how + SEQ, q2, t2, 0); \
    MC_SCENARIO("C24", "fork-in-sequence-" name, group<1>, nullptr, 10 * how + FORK_IN_SEQ, q1, t1, 0); MC_SCENARIO("C24", "sequence-in-fork-" name, group<1>, nullptr, 10 * how + SEQ_IN_FORK, q1, t1, 0)
G2("dropped", DROP, 3, 9, 1, 3); G2("held", WAIT, 3, 9, 1, 3); G2("member-held", MEMBER, 3, 9, 1, 3); G2("two-holders", TWO, 2, 5, 1, 2); G2("single", SINGLE, 2, 3, 1, 1); G2("single-member-held", SINGLE_MEMBER, 2, 3, 1, 1); G2("member-waited", MEMBER_WAITS, 3, 9, 1, 3); G2("reset-elsewhere", SELF, 3, 6, 1, 2);
MC_SCENARIO("C24", "fork-active", group<1>, nullptr, 10 * ACTIVE + FORK, 3, 9, 0); MC_SCENARIO("C24", "fork-active-two-workers", group<2>, nullptr, 10 * ACTIVE + FORK, 1, 3, 0);
MC_SCENARIO("C24", "capped-active", group<1>, nullptr, 10 * ACTIVE + CAPPED, 2, 6, 0); MC_SCENARIO("C24", "capped-dropped", group<1>, nullptr, 10 * DROP + CAPPED, 3, 9, 0); MC_SCENARIO("C24", "capped-dropped-two-workers", group<2>, nullptr, 10 * DROP + CAPPED, 1, 3, 0);
MC_SCENARIO("C24", "members-hold-fork", members_hold_group<1>, nullptr, 0, 3, 9, 0); MC_SCENARIO("C24", "members-hold-fork-two-workers", members_hold_group<2>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C24", "members-hold-sequence", members_hold_group<1>, nullptr, 1, 3, 9, 0); MC_SCENARIO("C24", "members-hold-sequence-two-workers", members_hold_group<2>, nullptr, 1, 1, 3, 0);
MC_SCENARIO("C24", "spawned", spawned<1>, nullptr, 0, 4, 9, 0); MC_SCENARIO("C24", "spawned-dropped-two-workers", spawned<2>, nullptr, 1, 2, 3, 0); MC_SCENARIO("C24", "spawned-active", spawned<1>, nullptr, 2, 4, 9, 0); MC_SCENARIO("C24", "spawned-active-two-workers", spawned<2>, nullptr, 2, 2, 3, 0);
MC_SCENARIO("C24", "parallel-for", loop, nullptr, 0, 3, 9, 0);
MC_SCENARIO("C24", "handle-operations", handles, nullptr, 3, 0, 0, MC_SEQ);
MC_SCENARIO("C24", "finding-never-executed-fork", never_executed, nullptr, 0, 1, 3, MC_NOLEAK); MC_SCENARIO("C24", "finding-never-executed-sequence", never_executed, nullptr, 1, 1, 3, MC_NOLEAK);
MC_SCENARIO("C24", "finding-still-pending-fork", never_executed, nullptr, 2, 1, 3, MC_NOLEAK); MC_SCENARIO("C24", "finding-still-pending-sequence", never_executed, nullptr, 3, 1, 3, MC_NOLEAK);
MC_SCENARIO("C24", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-depth", large_depth, nullptr, 20, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-loop", large_loop, nullptr, 500, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-restarts", large_restarts, nullptr, 11, 0, 1, MC_LONG);
MC_SCENARIO("C24", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
