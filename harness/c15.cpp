// C15: an auto-reset event releases one waiter per signal.
#include "history.h"

using namespace std::chrono;
using local_evt  = oqpi::auto_reset_event_interface<>;
using global_evt = oqpi::auto_reset_event_interface<global_sync_object>;
template <typename E> struct world { static E *e[2]; };
template <typename E> E *world<E>::e[2];
template <typename E> static void make();
template <> void make<local_evt>() { world<local_evt>::e[0] = world<local_evt>::e[1] = new local_evt; }
template <> void make<global_evt>() { world<global_evt>::e[0] = new global_evt("ev", sync_object_creation_options::create_if_nonexistent); world<global_evt>::e[1] = new global_evt("ev", sync_object_creation_options::open_or_create); }
template <typename E> static void drop() { E *a = world<E>::e[0], *b = world<E>::e[1]; if (b != a) delete b; delete a; }
template <typename E> static bool call(int t, char c)
{
    E &e = *world<E>::e[t & 1]; const int k = h_call(t, c);
    switch (c)
    {
        case 'n': e.notify(); return h_ret(k);
        case 'w': return h_ret(k, e.wait());
        case 'z': return h_ret(k, e.waitFor(nanoseconds(0)));
        case 't': return h_ret(k, e.waitFor(milliseconds(1)));
        case 'u': return h_ret(k, e.waitUntil(system_clock::now() + microseconds(1500)));
    }
    return false;
}
// The signal. That signals add up while nobody waits is a finding (below), so either is taken for granted here.
struct signals
{
    static int next(const hop &o, int s, int *out)
    {
        if (o.kind == 'n') { out[0] = s + 1; out[1] = s; return s ? 2 : 1; }
        if (!o.res) { out[0] = s; return s == 0; }
        out[0] = s - 1; return s > 0;
    }
    static bool rest(int s, const hop &o) { return o.kind != 'n' && o.kind != 'z' && !s; }
};
static void judge(int)
{
    const history h = h_collect(); h_outcome(h);
    int n = 0, w = 0;
    for (auto &o : h.ops) if (o.kind == 'n') { ++n; if (o.ret == INT_MAX) mc_fail("notify-blocks", "%s", h.text("").c_str()); } else if (o.ret != INT_MAX && o.res) ++w;
    if (w > n) mc_fail("more-released-than-notified", "%s", h.text("").c_str());
    if (!h_lin<signals>(h, 0, 0)) mc_fail("not-one-waiter-per-signal", "no order of%s explains the results", h.text("").c_str());
}
struct plan { const char *a[3]; int n[3]; };
static const plan PLAN[] = {
    {{"nw", "nw", "nw"}, {1, 2, 2}}, {{"n", "wtuz", "wz"}, {2, 2, 2}}, {{"n", "n", "ztwu"}, {2, 1, 3}}, {{"n", "w", "w"}, {3, 2, 2}}, {{"nwz", "nwt", "nzu"}, {2, 2, 1}}, {{"nw", "nz", ""}, {4, 4, 0}}, {{"n", "zt", "zt"}, {1, 3, 3}}, {{"nt", "nt", "nt"}, {2, 2, 2}},
};
template <typename E> static void choose_ops(int t, int n, const char *alphabet) { const int k = strlen(alphabet); for (int i = 0; i < n; ++i) call<E>(t, alphabet[mc_choose(k)]); }
template <typename E> static void mix(int p)
{
    make<E>();
    {
        const plan &q = PLAN[p];
        std::thread a([&q] { choose_ops<E>(1, q.n[0], q.a[0]); }), b([&q] { choose_ops<E>(2, q.n[1], q.a[1]); });
        std::thread c; if (q.n[2]) c = std::thread([&q] { choose_ops<E>(3, q.n[2], q.a[2]); });
        h_rest();
        while (mc_live_threads() > 1) { world<E>::e[0]->notify(); mc_quiesce(); }
        a.join(); b.join(); if (q.n[2]) c.join();
    }
    drop<E>();
}
// whoever is waiting is released one by one, by as many notifies as there are waiters, and nothing is left
template <typename E, int N> static void one_by_one(int how)
{
    make<E>();
    {
        static int through; through = 0;
        std::vector<std::thread> t; for (int i = 0; i < N; ++i) t.emplace_back([i, how] { MC_CHECK(how & 4 ? wait_hours(*world<E>::e[i & 1]) : world<E>::e[i & 1]->wait(), "wait-failed"); mc_hb_none_raise(i); });
        auto count = [] { int n = 0; for (int i = 0; i < N; ++i) n += mc_hb_none_get(i); return n; };
        mc_quiesce();
        if (how & 1) { for (int i = 0; i < N; ++i) { world<E>::e[0]->notify(); mc_quiesce(); if (count() != i + 1) mc_fail("not-one-waiter-per-signal", "%d waiters released by %d signals", count(), i + 1); } }
        else if (how & 2) { std::thread o([] { world<E>::e[1]->notify(); }); for (int i = 1; i < N; ++i) world<E>::e[0]->notify(); o.join(); }
        else for (int i = 0; i < N; ++i) world<E>::e[0]->notify();
        mc_quiesce(); if (count() != N) mc_fail("signal-lost", "%d of %d waiters released by as many signals", count(), N);
        for (auto &x : t) x.join();
        MC_CHECK(!world<E>::e[0]->waitFor(nanoseconds(0)), "signal-left-over");
    }
    drop<E>();
}
// what is written before the notify is visible to the waiter it releases: a baton handed round
template <typename E> static void baton(int n)
{
    make<E>();
    {
        auto turn = [n] { for (int i = 0; i < n; ++i) { MC_CHECK(world<E>::e[i & 1]->wait(), "wait-failed"); const int d = g_data[0]; g_data[0] = d + 1; world<E>::e[0]->notify(); } };
        std::thread a(turn), b(turn); g_data[0] = 1; world<E>::e[0]->notify();
        a.join(); b.join(); MC_CHECK(world<E>::e[0]->wait(), "signal-lost"); MC_CHECK(g_data[0] == 1 + 2 * n, "not-visible");
        MC_CHECK(!world<E>::e[1]->waitFor(nanoseconds(1)), "signal-left-over");
    }
    drop<E>();
}
// one thread, never more than one signal at a time
template <typename E> static void sequential(int len)
{
    make<E>(); bool set = false;
    for (int i = 0; i < len; ++i)
    {
        E &e = *world<E>::e[mc_choose(world<E>::e[0] == world<E>::e[1] ? 1 : 2)];
        switch (mc_choose(set ? 3 : 4))
        {
            case 0: MC_CHECK(e.waitFor(i & 1 ? nanoseconds(0) : nanoseconds(1000)) == set, "not-one-waiter-per-signal"); set = false; break;
            case 1: MC_CHECK(e.waitUntil(system_clock::now() + milliseconds(2)) == set, "not-one-waiter-per-signal"); set = false; break;
            case 2: if (set) MC_CHECK(e.wait(), "not-one-waiter-per-signal"); set = false; break;
            case 3: e.notify(); set = true; break;
        }
    }
    drop<E>();
}
MC_SCENARIO("C15", "notify-wait", mix<local_evt>, judge, 0, 3, 5, 0);
MC_SCENARIO("C15", "notify-timed", mix<local_evt>, judge, 1, 2, 4, 0);
MC_SCENARIO("C15", "two-notifiers", mix<local_evt>, judge, 2, 2, 4, 0);
MC_SCENARIO("C15", "notifier-two-waiters", mix<local_evt>, judge, 3, 3, 6, 0);
MC_SCENARIO("C15", "mix", mix<local_evt>, judge, 4, 2, 4, 0);
MC_SCENARIO("C15", "long", mix<local_evt>, judge, 5, 3, 5, 0);
MC_SCENARIO("C15", "polling", mix<local_evt>, judge, 6, 2, 5, 0);
MC_SCENARIO("C15", "timed-only", mix<local_evt>, judge, 7, 3, 5, 0);
MC_SCENARIO("C15", "global-notify-wait", mix<global_evt>, judge, 0, 2, 4, 0);
MC_SCENARIO("C15", "global-mix", mix<global_evt>, judge, 4, 1, 3, 0);
MC_SCENARIO("C15", "one-by-one", one_by_one<local_evt, 3>, nullptr, 1, 4, 99, 0);
MC_SCENARIO("C15", "as-many-signals-as-waiters", one_by_one<local_evt, 3>, nullptr, 0, 4, 99, 0);
MC_SCENARIO("C15", "as-many-from-two-threads", one_by_one<local_evt, 3>, nullptr, 2, 4, 99, 0);
MC_SCENARIO("C15", "as-many-timed", one_by_one<local_evt, 2>, nullptr, 4, 2, 4, 0);
MC_SCENARIO("C15", "global-one-by-one", one_by_one<global_evt, 3>, nullptr, 1, 3, 99, 0);
MC_SCENARIO("C15", "global-as-many", one_by_one<global_evt, 2>, nullptr, 2, 3, 99, 0);
MC_SCENARIO("C15", "baton", baton<local_evt>, nullptr, 2, 5, 99, 0);
MC_SCENARIO("C15", "global-baton", baton<global_evt>, nullptr, 1, 5, 99, 0);
MC_SCENARIO("C15", "sequential", sequential<local_evt>, nullptr, 8, 0, 0, MC_SEQ);
MC_SCENARIO("C15", "global-sequential", sequential<global_evt>, nullptr, 5, 0, 0, MC_SEQ);
// --- finding: see known-findings.txt ----------------------------------------------------------
static void adds_up(int)
{
    make<local_evt>(); local_evt &e = *world<local_evt>::e[0];
    e.notify(); e.notify(); e.waitFor(nanoseconds(0));
    const bool again = e.waitFor(nanoseconds(0)); while (e.waitFor(nanoseconds(0))) {}
    if (again) mc_fail("signals-add-up", "two notifies without a wait in between released two later waits");
    drop<local_evt>();
}
MC_SCENARIO("C15", "finding-notify-twice", adds_up, nullptr, 0, 0, 0, MC_SEQ);
static void cycles(int n)
{
    oqpi::auto_reset_event_interface<> e; for (int i = 0; i < n; ++i) { MC_CHECK(!e.waitFor(nanoseconds(0)), "not-a-flag"); e.notify(); MC_CHECK(i & 1 ? e.wait() : e.waitFor(milliseconds(1)), "not-a-flag"); }
    MC_CHECK(!e.waitFor(milliseconds(1)), "not-a-flag");
}
MC_SCENARIO("C15", "cycles", cycles, nullptr, 400, 0, 1, MC_SEQ | MC_LONG);
