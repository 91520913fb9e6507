// C16: a semaphore admits exactly as many waits as it has counts.
#include "history.h"

using namespace std::chrono;
using global_sem = oqpi::semaphore_interface<global_sync_object>;
template <typename S> struct world { static S *s[2]; };
template <typename S> S *world<S>::s[2];
static int g_init, g_max;
template <typename S> static void make(int init, int max);
template <> void make<sem_if>(int init, int max) { g_init = init; g_max = max; world<sem_if>::s[0] = world<sem_if>::s[1] = new sem_if(init, max); }
template <> void make<global_sem>(int init, int max) { g_init = init; g_max = max; world<global_sem>::s[0] = new global_sem("sem", sync_object_creation_options::create_if_nonexistent, init, max); world<global_sem>::s[1] = new global_sem("sem", sync_object_creation_options::open_existing, 0, max); }
template <typename S> static void drop() { S *a = world<S>::s[0], *b = world<S>::s[1]; if (b != a) delete b; delete a; }
// a notify of n is n additions somewhere during the call
template <typename S> static bool call(int t, char c)
{
    S &s = *world<S>::s[t & 1]; const int k = h_call(t, c);
    switch (c)
    {
        case '1': s.notifyOne(); return h_ret(k);
        case '0': s.notify(0); return h_ret(k);
        case '2': s.notify(2); return h_ret(k);
        case '3': s.notify(3); return h_ret(k);
        case 'a': s.notifyAll(); return h_ret(k);
        case 'w': return h_ret(k, s.wait());
        case 'y': return h_ret(k, s.tryWait());
        case 'z': return h_ret(k, s.waitFor(nanoseconds(0)));
        case 't': return h_ret(k, s.waitFor(milliseconds(1)));
        case 'u': return h_ret(k, s.waitUntil(system_clock::now() + microseconds(1500)));
    }
    return false;
}
static int adds(int c) { return c == 'a' ? g_max : c >= '0' && c <= '3' ? c - '0' : -1; }
struct counter
{
    static int next(const hop &o, int s, int *out)
    {
        if (o.kind == '+') { out[0] = s + 1; return 1; }
        if (!o.res) { out[0] = s; return s == 0; }
        out[0] = s - 1; return s > 0;
    }
    static bool rest(int s, const hop &o) { return strchr("wtu", o.kind) && s == 0; }       // tryWait and a wait for no time never block
};
static void judge(int)
{
    const history h0 = h_collect(); h_outcome(h0);
    history h; int left = g_init;
    for (auto &o : h0.ops)
    {
        const int n = adds(o.kind);
        if (n < 0) { h.ops.push_back(o); if (o.ret != INT_MAX && o.res) --left; continue; }
        if (o.ret == INT_MAX) mc_fail("notify-blocks", "%s", h0.text("").c_str());
        left += n; for (int i = 0; i < n; ++i) { h.ops.push_back(o); h.ops.back().kind = '+'; }
    }
    if (left < 0) mc_fail("more-admitted-than-counts", "%s", h0.text("").c_str());
    if (!h_lin<counter>(h, 0, g_init)) mc_fail("not-a-counter", "initial count %d; no order of%s explains the results", g_init, h0.text("").c_str());
}
struct plan { const char *a[3]; int n[3]; };
static const plan PLAN[] = {
    {{"1wy", "1wy", "wy"}, {2, 2, 1}}, {{"12", "wt", "wz"}, {2, 2, 2}}, {{"123a", "y", "w"}, {1, 3, 2}}, {{"1", "w", "w"}, {3, 2, 2}}, {{"1wz", "1yt", "2zu"}, {2, 2, 1}}, {{"1w", "1y0", ""}, {4, 4, 0}}, {{"2", "yt", "yz"}, {1, 3, 3}}, {{"a1", "wy", "wt"}, {1, 2, 2}},
};
template <typename S> static void choose_ops(int t, int n, const char *alphabet) { const int k = strlen(alphabet); for (int i = 0; i < n; ++i) call<S>(t, alphabet[mc_choose(k)]); }
template <typename S> static void mix(int p)
{
    make<S>(mc_choose(3), 3);
    {
        const plan &q = PLAN[p];
        std::thread a([&q] { choose_ops<S>(1, q.n[0], q.a[0]); }), b([&q] { choose_ops<S>(2, q.n[1], q.a[1]); });
        std::thread c; if (q.n[2]) c = std::thread([&q] { choose_ops<S>(3, q.n[2], q.a[2]); });
        h_rest();
        while (mc_live_threads() > 1) { world<S>::s[0]->notifyOne(); mc_quiesce(); }
        a.join(); b.join(); if (q.n[2]) c.join();
    }
    drop<S>();
}
// blocked waiters: as many get through as there are counts
template <typename S, int N> static void admit(int how)
{
    const int init = mc_choose(2); make<S>(init, 2);
    {
        std::vector<std::thread> t; for (int i = 0; i < N; ++i) t.emplace_back([i, how] { S &s = *world<S>::s[i & 1]; MC_CHECK(how & 1 ? wait_hours(s) : s.wait(), "wait-failed"); mc_hb_none_raise(i); });
        auto count = [] { int n = 0; for (int i = 0; i < N; ++i) n += mc_hb_none_get(i); return n; };
        mc_quiesce(); int have = init; if (count() != std::min(have, N)) mc_fail("not-a-counter", "%d through with %d counts", count(), have);
        while (have < N)
        {
            S &s = *world<S>::s[mc_choose(world<S>::s[0] == world<S>::s[1] ? 1 : 2)];
            switch (mc_choose(3)) { case 0: s.notifyOne(); have += 1; break; case 1: s.notify(2); have += 2; break; case 2: s.notifyAll(); have += 2; break; }
            mc_quiesce(); if (count() != std::min(have, N)) mc_fail("not-a-counter", "%d through with %d counts", count(), have);
        }
        for (auto &x : t) x.join();
        for (int i = 0; i < have - N; ++i) MC_CHECK(world<S>::s[0]->tryWait(), "count-lost");
        MC_CHECK(!world<S>::s[0]->tryWait(), "count-left-over");
    }
    drop<S>();
}
// as a lock, what is written under it is visible
template <typename S> static void exclusive(int how)
{
    make<S>(1, 1);
    {
        auto f = [how](int t) { S &s = *world<S>::s[t & 1]; for (int i = 0; i < 2; ++i) { if (how == 1) { while (!s.tryWait()) std::this_thread::yield(); } else if (how == 2) wait_hours(s); else MC_CHECK(s.wait(), "wait-failed"); const int d = g_data[0]; g_data[0] = d + 1; s.notifyOne(); } };
        std::thread a([&] { f(0); }), b([&] { f(1); }); a.join(); b.join(); MC_CHECK(world<S>::s[0]->tryWait(), "count-lost"); MC_CHECK(g_data[0] == 4, "not-exclusive"); MC_CHECK(!world<S>::s[1]->tryWait(), "count-left-over");
    }
    drop<S>();
}
// one thread, every sequence of operations
template <typename S> static void sequential(int len)
{
    const int init = mc_choose(4), max = 1 + mc_choose(3); make<S>(init, max); long n = init;
    for (int i = 0; i < len; ++i)
    {
        S &s = *world<S>::s[mc_choose(world<S>::s[0] == world<S>::s[1] ? 1 : 2)];
        // below the maximum only; what happens above it is a finding
        switch (mc_choose(n < max ? 6 : 3))
        {
            case 0: MC_CHECK(s.tryWait() == (n > 0), "not-a-counter"); n -= n > 0; break;
            case 1: MC_CHECK((i & 1 ? s.waitFor(nanoseconds(0)) : s.waitFor(milliseconds(1))) == (n > 0), "not-a-counter"); n -= n > 0; break;
            case 2: if (n > 0) { MC_CHECK(s.wait(), "not-a-counter"); --n; } else MC_CHECK(!s.waitUntil(system_clock::now() + milliseconds(2)), "not-a-counter"); break;
            case 3: s.notifyOne(); ++n; break;
            case 4: if (n == 0) { s.notifyAll(); n = max; } else s.notify(0); break;
            case 5: { const int k = 1 + mc_choose(max - n); s.notify(k); n += k; break; }
        }
    }
    while (n-- > 0) MC_CHECK(world<S>::s[0]->tryWait(), "count-lost");
    MC_CHECK(!world<S>::s[0]->tryWait(), "count-left-over");
    drop<S>();
}
// many at once
template <typename S> static void many(int)
{
    static const int MAX[] = {4, 5, 16, 20, 100}; const int max = MAX[mc_choose(5)], init = mc_choose(2); make<S>(init, max);
    S &s = *world<S>::s[0]; int n = init; const int first = mc_choose(3), k = first == 0 ? max - n : first == 1 ? (max - n + 1) / 2 : 0;
    if (k) { s.notify(k); n += k; } else if (n == 0) { s.notifyAll(); n = max; }
    if (mc_choose(2) && n > 2) { MC_CHECK(s.wait() && s.tryWait(), "count-lost"); n -= 2; s.notify(2); n += 2; }
    if (mc_choose(2) && n < max) { s.notify(max - n); n = max; }
    for (int i = 0; i < n; ++i) MC_CHECK(world<S>::s[i & 1]->tryWait(), "count-lost");
    MC_CHECK(!s.tryWait(), "count-left-over"); drop<S>();
}
// initial counts, large ones too
template <typename S> static void initial(int)
{
    static const int I[] = {0, 1, 2, 5, 1000, 0x7fffffff}; const int i = I[mc_choose(6)]; make<S>(i, 0x7fffffff);
    MC_CHECK(mc_sem_value(world<S>::s[0]->getNativeHandle()) == i, "initial-count");
    for (int k = 0; k < std::min(i, 4); ++k) MC_CHECK(world<S>::s[k & 1]->tryWait(), "initial-count");
    if (i < 4) MC_CHECK(!world<S>::s[0]->tryWait(), "initial-count");
    else { world<S>::s[0]->notify(3); MC_CHECK(mc_sem_value(world<S>::s[0]->getNativeHandle()) == i - 1, "count-lost"); }
    drop<S>();
    sem_if s; MC_CHECK(!s.tryWait(), "initial-count"); s.notifyOne(); MC_CHECK(s.tryWait() && !s.tryWait(), "not-a-counter");
    global_sem g("x"); MC_CHECK(!g.tryWait(), "initial-count"); g.notify(2); MC_CHECK(g.tryWait() && g.tryWait() && !g.tryWait(), "not-a-counter");
    global_sem g3("y", 3); MC_CHECK(g3.tryWait() && g3.tryWait() && g3.tryWait() && !g3.tryWait(), "initial-count");
    global_sem g4("z", 1, 2); g4.tryWait(); g4.notifyAll(); MC_CHECK(g4.tryWait() && g4.tryWait() && !g4.tryWait(), "notify-all");
}
// as many at once as there may be
template <typename S> static void large_notify(int)
{
    static const int K[] = {127, 128, 200, 255, 256, 257, 511, 1000, 1024, 1025, 3000}; const int k = K[mc_choose(11)], how = mc_choose(3), init = how == 2 ? 0 : mc_choose(2); make<S>(init, how == 2 ? k : 0x7fffffff);
    S &s = *world<S>::s[0]; int n = init; if (how == 2) { s.notifyAll(); n = k; } else if (how) { s.notify(k); n += k; } else for (int i = 0; i < k; ++i) { s.notifyOne(); ++n; }
    for (int i = 0; i < n; ++i) MC_CHECK(i % 100 == 99 ? s.waitFor(std::chrono::milliseconds(1)) : i % 3 == 2 ? s.wait() : s.tryWait(), "count-lost");
    MC_CHECK(!s.tryWait(), "count-left-over"); drop<S>();
}
// Somebody takes a count and gives it back only once the other has had its answers: polls never wait for anyone.
template <typename S> static void patient(int init)
{
    make<S>(init, 4);
    {
        static const char A[] = "yztu"; const int n = 1 + mc_choose(2); char c[2]; for (char &x : c) x = A[mc_choose(4)];
        std::thread a([init] { int got = 0; for (int i = 0; i < init; ++i) got += call<S>(1, "wy"[mc_choose(2)]); mc_hb_none_wait(7); for (int i = 0; i < got; ++i) call<S>(1, '1'); });
        std::thread b([n, c0 = c[0], c1 = c[1]] { int got = 0; for (int i = 0; i < n; ++i) if (call<S>(2, i ? c1 : c0)) { if (++got) { call<S>(2, '1'); --got; } } mc_hb_none_raise(7); });
        a.join(); b.join(); for (int i = 0; i < init; ++i) MC_CHECK(world<S>::s[0]->tryWait(), "count-lost"); MC_CHECK(!world<S>::s[1]->tryWait(), "count-left-over");
    }
    drop<S>();
}
MC_SCENARIO("C16", "patient-taker", patient<sem_if>, judge, 1, 5, 99, 0);
MC_SCENARIO("C16", "patient-taker-two", patient<sem_if>, judge, 2, 5, 99, 0);
MC_SCENARIO("C16", "global-patient-taker", patient<global_sem>, judge, 1, 5, 99, 0);
MC_SCENARIO("C16", "large-notify", large_notify<sem_if>, nullptr, 0, 0, 0, MC_SEQ | MC_LONG);
MC_SCENARIO("C16", "global-large-notify", large_notify<global_sem>, nullptr, 0, 0, 0, MC_SEQ | MC_LONG);
MC_SCENARIO("C16", "count", mix<sem_if>, judge, 0, 2, 4, 0);
MC_SCENARIO("C16", "timed", mix<sem_if>, judge, 1, 2, 4, 0);
MC_SCENARIO("C16", "many-at-once", mix<sem_if>, judge, 2, 2, 5, 0);
MC_SCENARIO("C16", "notifier-two-waiters", mix<sem_if>, judge, 3, 3, 6, 0);
MC_SCENARIO("C16", "mix", mix<sem_if>, judge, 4, 2, 3, 0);
MC_SCENARIO("C16", "long", mix<sem_if>, judge, 5, 2, 5, 0);
MC_SCENARIO("C16", "polling", mix<sem_if>, judge, 6, 2, 4, 0);
MC_SCENARIO("C16", "notify-all", mix<sem_if>, judge, 7, 2, 4, 0);
MC_SCENARIO("C16", "global-count", mix<global_sem>, judge, 0, 1, 3, 0);
MC_SCENARIO("C16", "global-mix", mix<global_sem>, judge, 4, 1, 2, 0);
MC_SCENARIO("C16", "admit-three", admit<sem_if, 3>, nullptr, 0, 3, 99, 0);
MC_SCENARIO("C16", "admit-three-timed", admit<sem_if, 3>, nullptr, 1, 2, 2, 0);
MC_SCENARIO("C16", "global-admit-three", admit<global_sem, 3>, nullptr, 0, 2, 99, 0);
MC_SCENARIO("C16", "exclusive", exclusive<sem_if>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C16", "exclusive-polling", exclusive<sem_if>, nullptr, 1, 5, 9, 0);
MC_SCENARIO("C16", "exclusive-timed", exclusive<sem_if>, nullptr, 2, 3, 5, 0);
MC_SCENARIO("C16", "global-exclusive", exclusive<global_sem>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C16", "sequential", sequential<sem_if>, nullptr, 6, 0, 0, MC_SEQ);
MC_SCENARIO("C16", "global-sequential", sequential<global_sem>, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C16", "many", many<sem_if>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C16", "global-many", many<global_sem>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C16", "initial", initial<sem_if>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C16", "global-initial", initial<global_sem>, nullptr, 0, 0, 0, MC_SEQ);
// --- finding: see known-findings.txt ----------------------------------------------------------
static void above_max(int)
{
    sem_if s(0, 1); s.notifyOne(); s.notifyOne(); const bool a = s.tryWait(), b = s.tryWait(); MC_CHECK(a, "count-lost");
    if (b) mc_fail("above-maximum", "a semaphore with a maximum count of one admitted two waits in a row");
}
MC_SCENARIO("C16", "finding-maximum", above_max, nullptr, 0, 0, 0, MC_SEQ);
static void cycles(int n)
{
    sem_if s(3, 1000); int have = 3; for (int i = 0; i < n; ++i) { if (i % 7 < 4) { s.notifyOne(); ++have; } else { MC_CHECK((i & 1 ? s.wait() : s.tryWait()) == true, "count-lost"); --have; } }
    while (have--) MC_CHECK(s.tryWait(), "count-lost"); MC_CHECK(!s.tryWait() && !s.waitFor(milliseconds(1)), "count-left-over");
}
MC_SCENARIO("C16", "cycles", cycles, nullptr, 700, 0, 1, MC_SEQ | MC_LONG);
