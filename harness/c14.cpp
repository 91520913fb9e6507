// C14: a manual-reset event stays set until it is reset.
#include "history.h"

using namespace std::chrono;
using global_evt = oqpi::manual_reset_event_interface<global_sync_object>;
template <typename E> struct world { static E *e[2]; };             // handles; both are the same one for a local event
template <typename E> E *world<E>::e[2];
template <typename E> static void make();
template <> void make<evt_t>() { auto *p = new evt_t; world<evt_t>::e[0] = world<evt_t>::e[1] = p; }
template <> void make<global_evt>() { world<global_evt>::e[0] = new global_evt("ev", sync_object_creation_options::create_if_nonexistent); world<global_evt>::e[1] = new global_evt("ev", sync_object_creation_options::open_existing); }
template <typename E> static void drop() { E *a = world<E>::e[0], *b = world<E>::e[1]; if (b != a) delete b; delete a; }
// n: notify, r: reset, w: wait, z: wait for no time, t: wait for a millisecond, u: wait until a point in time
template <typename E> static bool call(int t, char c)
{
    E &e = *world<E>::e[t & 1]; const int k = h_call(t, c);
    switch (c)
    {
        case 'n': e.notify(); return h_ret(k);
        case 'r': e.reset(); return h_ret(k);
        case 'w': return h_ret(k, e.wait());
        case 'z': return h_ret(k, e.waitFor(nanoseconds(0)));
        case 't': return h_ret(k, e.waitFor(milliseconds(1)));
        case 'u': return h_ret(k, e.waitUntil(system_clock::now() + microseconds(1500)));
    }
    return false;
}
static bool is_wait(int c) { return c != 'n' && c != 'r'; }
// the flag
struct flag
{
    static int next(const hop &o, int s, int *out)
    {
        if (o.kind == 'n') { out[0] = 1; return 1; }
        if (o.kind == 'r') { out[0] = 0; return 1; }
        out[0] = s; return s == o.res;
    }
    static bool rest(int s, const hop &o) { return is_wait(o.kind) && o.kind != 'z' && !s; }
};
static void strict(int)
{
    const history h = h_collect(); h_outcome(h);
    for (auto &o : h.ops) if (!is_wait(o.kind) && o.ret == INT_MAX) mc_fail("notify-or-reset-blocks", "%s", h.text("").c_str());
    if (!h_lin<flag>(h, 0, 0)) mc_fail("not-a-flag", "no order of%s explains the results", h.text("").c_str());
}
// What holds for any mix of notify, reset and wait in spite of the findings below
static void weak(int)
{
    const history h = h_collect(); h_outcome(h);
    for (auto &w : h.ops)
    {
        if (!is_wait(w.kind)) { if (w.ret == INT_MAX) mc_fail("notify-or-reset-blocks", "%s", h.text("").c_str()); continue; }
        if (w.kind == 'z' && w.ret == INT_MAX) mc_fail("poll-blocks", "%s", h.text("").c_str());
        bool notified = false, disturbed = false;       // disturbed: a reset or another wait could have been in the way
        for (auto &o : h.ops)
        {
            if (o.kind == 'n' && o.inv < w.ret)
            {
                // the signal is gone for sure if a reset followed it and nobody held on to it meanwhile
                bool gone = false;
                for (auto &r : h.ops) if (r.kind == 'r' && r.inv > o.ret && r.ret < w.inv)
                {
                    gone = true;
                    for (auto &x : h.ops) if (is_wait(x.kind) && &x != &w && x.inv < r.ret && x.ret > r.inv) gone = false;
                }
                if (!gone) notified = true;
            }
        }
        if (w.ret != INT_MAX && w.res) { if (!notified) mc_fail("success-without-signal", "%s", h.text("").c_str()); continue; }
        // blocked for good, or gave up: not if there was a notify before (or, if blocked, at all) and nothing in the way
        for (auto &o : h.ops) if (o.kind == 'n' && (w.ret == INT_MAX || o.ret < w.inv))
        {
            disturbed = false;
            for (auto &x : h.ops)
            {
                if (x.kind == 'r' && x.ret > o.inv && x.inv < w.ret) disturbed = true;
                if (is_wait(x.kind) && &x != &w && w.ret != INT_MAX && x.inv < w.ret && x.ret > w.inv) disturbed = true;
            }
            if (!disturbed) mc_fail(w.ret == INT_MAX ? "blocked-though-set" : "failed-though-set", "%s", h.text("").c_str());
        }
    }
}
// everybody left is released
template <typename E> static void finish() { while (mc_live_threads() > 1) { world<E>::e[0]->notify(); mc_quiesce(); } }
template <typename E> static void choose_ops(int t, int n, const char *alphabet) { const int k = strlen(alphabet); for (int i = 0; i < n; ++i) call<E>(t, alphabet[mc_choose(k)]); }
// up to three threads, each with an alphabet of its own
struct plan { const char *a[3]; int n[3]; };
static const plan PLAN[] = {
    {{"nw", "nw", "nw"}, {1, 2, 2}}, {{"n", "wtu", "w"}, {1, 2, 2}}, {{"n", "n", "ztwu"}, {2, 1, 3}}, {{"nr", "nr", ""}, {2, 2, 0}}, {{"nr", "nr", "nr"}, {1, 2, 1}},
    {{"nr", "w", "nw"}, {2, 2, 1}}, {{"nr", "zw", "r"}, {3, 2, 1}}, {{"nr", "wz", "wt"}, {2, 1, 2}}, {{"nr", "nr", "wt"}, {2, 2, 2}}, {{"nrz", "nrw", ""}, {3, 2, 0}}, {{"n", "w", "w"}, {3, 3, 3}}, {{"nrwz", "nrwz", "nrwz"}, {1, 1, 2}},
};
template <typename E> static void mix(int p)
{
    make<E>();
    {
        const plan &q = PLAN[p];
        std::thread a([&q] { choose_ops<E>(1, q.n[0], q.a[0]); }), b([&q] { choose_ops<E>(2, q.n[1], q.a[1]); });
        std::thread c; if (q.n[2]) c = std::thread([&q] { choose_ops<E>(3, q.n[2], q.a[2]); });
        h_rest();
        finish<E>();
        a.join(); b.join(); if (q.n[2]) c.join();
    }
    drop<E>();
}
// the state everything leaves behind is visible to anybody later: notify and reset only
template <typename E> static void state_after(int n)
{
    make<E>();
    {
        { std::thread a([n] { choose_ops<E>(1, n, "nr"); }), b([n] { choose_ops<E>(2, n, "nr"); }); a.join(); b.join(); }
        if (call<E>(0, "zt"[mc_choose(2)])) { call<E>(0, 'w'); call<E>(0, 'r'); } else call<E>(0, 'n');
        call<E>(0, 'z');
    }
    h_rest(); drop<E>();
}
// one thread, every sequence of operations
template <typename E> static void sequential(int len)
{
    make<E>(); bool set = false;
    for (int i = 0; i < len; ++i)
    {
        E &e = *world<E>::e[mc_choose(world<E>::e[0] == world<E>::e[1] ? 1 : 2)];
        switch (mc_choose(4))
        {
            case 0: e.notify(); set = true; break;
            case 1: e.reset(); set = false; break;
            case 2: MC_CHECK(e.waitFor(i & 1 ? nanoseconds(0) : nanoseconds(1000)) == set, "not-a-flag"); break;
            case 3: if (set) MC_CHECK(e.wait(), "not-a-flag"); else MC_CHECK(!e.waitUntil(system_clock::now() + milliseconds(2)), "not-a-flag"); break;
        }
    }
    drop<E>();
}
// what is written before the notify is visible after the wait, for several waiters, early and late
template <typename E> static void visible(int timed)
{
    make<E>();
    {
        auto waiter = [timed](int t) { const bool r = timed ? world<E>::e[t & 1]->waitFor(hours(1)) : world<E>::e[t & 1]->wait(); if (r) { MC_CHECK(g_data[0] == 5, "not-visible"); } else MC_CHECK(timed, "wait-failed"); };
        std::thread a([&] { waiter(0); }), b([&] { waiter(1); });
        g_data[0] = 5; world<E>::e[0]->notify();
        waiter(1); a.join(); b.join(); waiter(0);
    }
    drop<E>();
}
// N waiters, one notify, all get through; so do later ones
template <typename E, int N> static void release_all(int blocked)
{
    make<E>();
    {
        std::vector<std::thread> t; for (int i = 0; i < N; ++i) t.emplace_back([i] { MC_CHECK(world<E>::e[i & 1]->wait(), "wait-failed"); });
        if (blocked) mc_quiesce();
        world<E>::e[0]->notify();
        for (auto &x : t) x.join();
        MC_CHECK(world<E>::e[1]->wait(), "wait-failed"); MC_CHECK(world<E>::e[0]->waitFor(nanoseconds(0)), "not-a-flag");
        world<E>::e[1]->reset(); MC_CHECK(!world<E>::e[0]->waitFor(nanoseconds(0)), "not-a-flag");
    }
    drop<E>();
}
MC_SCENARIO("C14", "notify-wait", mix<evt_t>, strict, 0, 3, 4, 0);
MC_SCENARIO("C14", "notify-wait-timed", mix<evt_t>, weak, 1, 3, 4, 0);
MC_SCENARIO("C14", "notify-one-timed-waiter", mix<evt_t>, strict, 2, 3, 4, 0);
MC_SCENARIO("C14", "notify-reset", mix<evt_t>, strict, 3, 3, 99, 0);
MC_SCENARIO("C14", "notify-reset-three", mix<evt_t>, strict, 4, 3, 5, 0);
MC_SCENARIO("C14", "notify-waits-long", mix<evt_t>, strict, 10, 3, 4, 0);
MC_SCENARIO("C14", "mix-one-resetter", mix<evt_t>, weak, 5, 3, 4, 0);
MC_SCENARIO("C14", "mix-two-resetters", mix<evt_t>, weak, 6, 3, 4, 0);
MC_SCENARIO("C14", "mix-two-waiters", mix<evt_t>, weak, 7, 3, 4, 0);
MC_SCENARIO("C14", "mix-two-and-a-waiter", mix<evt_t>, weak, 8, 3, 4, 0);
MC_SCENARIO("C14", "mix-two-threads", mix<evt_t>, weak, 9, 3, 5, 0);
MC_SCENARIO("C14", "mix-all", mix<evt_t>, weak, 11, 3, 4, 0);
MC_SCENARIO("C14", "global-notify-wait", mix<global_evt>, strict, 0, 2, 4, 0);
MC_SCENARIO("C14", "global-notify-reset", mix<global_evt>, strict, 3, 3, 4, 0);
MC_SCENARIO("C14", "global-mix", mix<global_evt>, weak, 5, 3, 4, 0);
MC_SCENARIO("C14", "state-after", state_after<evt_t>, strict, 3, 3, 6, 0);
MC_SCENARIO("C14", "global-state-after", state_after<global_evt>, strict, 2, 3, 99, 0);
MC_SCENARIO("C14", "sequential", sequential<evt_t>, nullptr, 7, 0, 0, MC_SEQ);
MC_SCENARIO("C14", "global-sequential", sequential<global_evt>, nullptr, 5, 0, 0, MC_SEQ);
MC_SCENARIO("C14", "visible", visible<evt_t>, nullptr, 0, 5, 99, 0);
MC_SCENARIO("C14", "visible-timed", visible<evt_t>, nullptr, 1, 4, 99, 0);
MC_SCENARIO("C14", "release-three", release_all<evt_t, 3>, nullptr, 0, 4, 99, 0);
MC_SCENARIO("C14", "release-four-blocked", release_all<evt_t, 4>, nullptr, 1, 3, 99, 0);
MC_SCENARIO("C14", "global-release-three", release_all<global_evt, 3>, nullptr, 1, 3, 99, 0);
// --- findings: see known-findings.txt ---------------------------------------------------------
// a waiter hands the signal on after having taken it: a reset in between is undone
static void lost_reset(int)
{
    make<evt_t>(); evt_t &e = *world<evt_t>::e[0];
    { e.notify(); std::thread w([&] { e.wait(); }); e.reset(); mc_quiesce(); const bool blocked = mc_live_threads() > 1; if (!blocked && e.waitFor(nanoseconds(0))) mc_fail("reset-undone", "the event is set again after a reset that followed the last notify"); e.notify(); w.join(); }
    drop<evt_t>();
}
static void missed_release(int)
{
    make<evt_t>(); evt_t &e = *world<evt_t>::e[0];
    { std::thread w([&] { e.wait(); }); mc_quiesce(); e.notify(); e.reset(); mc_quiesce(); if (mc_blocked_threads()) mc_fail("waiter-not-released", "a thread waiting when the event was notified is still waiting after the reset"); e.notify(); w.join(); }
    drop<evt_t>();
}
static void missed_while_set(int)
{
    make<evt_t>(); evt_t &e = *world<evt_t>::e[0];
    { e.notify(); std::thread w([&] { e.wait(); }); if (!e.waitFor(nanoseconds(0))) mc_fail("failed-though-set", "the event is set all the time, but a wait failed while another waiter held the signal"); w.join(); }
    drop<evt_t>();
}
MC_SCENARIO("C14", "finding-reset-while-waiter-returns", lost_reset, nullptr, 0, 4, 99, 0);
MC_SCENARIO("C14", "finding-notify-then-reset", missed_release, nullptr, 0, 4, 99, 0);
MC_SCENARIO("C14", "finding-timed-wait-beside-waiter", missed_while_set, nullptr, 0, 4, 99, 0);
static void cycles(int n)
{
    make<evt_t>(); evt_t &e = *world<evt_t>::e[0];
    for (int i = 0; i < n; ++i) { MC_CHECK(!e.waitFor(nanoseconds(0)), "not-a-flag"); e.notify(); if (i & 1) e.notify(); for (int k = 0; k < i % 4; ++k) MC_CHECK(e.wait(), "not-a-flag"); MC_CHECK(e.waitFor(milliseconds(1)), "not-a-flag"); e.reset(); if (i % 3 == 0) e.reset(); }
    drop<evt_t>();
}
MC_SCENARIO("C14", "cycles", cycles, nullptr, 300, 0, 1, MC_SEQ | MC_LONG);
