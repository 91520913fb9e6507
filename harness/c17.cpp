// C17: a mutex is held by at most one owner at a time.
#include "history.h"
#include <mutex>

using namespace std::chrono;
using mtx = oqpi::mutex_interface<global_sync_object>;
static mtx *g_m[4];                                    // one handle per thread (or one for all)
static const auto CREATE = sync_object_creation_options::create_if_nonexistent, OPEN = sync_object_creation_options::open_existing, EITHER = sync_object_creation_options::open_or_create;
static int g_locked;                                   // created locked
static void make(bool locked, int handles)
{
    g_locked = locked;
    g_m[0] = new mtx("m", CREATE, locked);
    for (int i = 1; i < 4; ++i) g_m[i] = i < handles ? i == 1 ? new mtx("m", OPEN) : i == 2 ? new mtx("m", EITHER, false) : new mtx("m") : g_m[0];
    for (auto *m : g_m) MC_CHECK(m->isValid(), "invalid-handle");
}
static void drop() { for (int i = 3; i > 0; --i) if (g_m[i] != g_m[0]) delete g_m[i]; delete g_m[0]; }
// l: lock, y: tryLock, Y: try_lock, z: tryLockFor nothing, f: try_lock_for a millisecond, u: tryLockUntil, v: try_lock_until; k: unlock
static bool acquire(int t, char c)
{
    mtx &m = *g_m[t]; const int k = h_call(t, c);
    switch (c)
    {
        case 'l': return h_ret(k, m.lock());
        case 'y': return h_ret(k, m.tryLock());
        case 'Y': return h_ret(k, m.try_lock());
        case 'z': return h_ret(k, m.tryLockFor(nanoseconds(0)));
        case 'f': return h_ret(k, m.try_lock_for(milliseconds(1)));
        case 'u': return h_ret(k, m.tryLockUntil(system_clock::now() + microseconds(1500)));
        case 'v': return h_ret(k, m.try_lock_until(system_clock::now() + microseconds(1700)));
    }
    return false;
}
static void release(int t) { const int k = h_call(t, 'k'); g_m[t]->unlock(); h_ret(k); }
static int g_owner = -1, g_count;                      // only touched by the holder
static void enter(int t) { if (g_owner >= 0) mc_fail("two-owners", "thread %d holds the mutex together with thread %d", t, g_owner); g_owner = t; ++g_count; }
static void leave(int t) { if (g_owner != t) mc_fail("two-owners", "thread %d lost the mutex to thread %d", t, g_owner); g_owner = -1; }
struct lock_spec
{
    static int next(const hop &o, int s, int *out)
    {
        if (o.kind == 'k') { out[0] = 0; return 1; }
        if (!o.res) { out[0] = s; return s == 1; }
        out[0] = 1; return s == 0;
    }
    static bool rest(int s, const hop &o) { return strchr("lfuv", o.kind) && s == 1; }       // tryLock and a lock for no time never block
};
static void judge(int)
{
    const history h = h_collect(); h_outcome(h);
    for (auto &o : h.ops) { if (o.kind == 'k' && o.ret == INT_MAX) mc_fail("unlock-blocks", "%s", h.text("").c_str()); if (o.kind == 'l' && o.ret != INT_MAX && !o.res) mc_fail("lock-failed", "%s", h.text("").c_str()); }
    if (!h_lin<lock_spec>(h, 0, g_locked)) mc_fail("not-a-mutex", "created %s; no order of%s explains the results", g_locked ? "locked" : "unlocked", h.text("").c_str());
}
static void rounds(int t, int n, const char *alphabet)
{
    const int a = strlen(alphabet); int got = 0;
    for (int i = 0; i < n; ++i) if (acquire(t, alphabet[mc_choose(a)])) { ++got; enter(t); leave(t); release(t); }
}
struct plan { const char *a[3]; int n[3], handles; };
static const plan PLAN[] = {
    {{"lyz", "lyz", "l"}, {2, 2, 1}, 1}, {{"lyz", "lfu", "lYv"}, {1, 2, 1}, 4}, {{"l", "l", "l"}, {2, 2, 2}, 1}, {{"ly", "lz", ""}, {4, 4, 0}, 2}, {{"fuv", "fuv", "fuv"}, {2, 2, 1}, 1}, {{"y", "Y", "z"}, {3, 3, 2}, 4},
};
static void contend(int p)
{
    const plan &q = PLAN[p]; const bool locked = mc_choose(2);
    make(locked, q.handles);
    {
        if (locked) enter(0);
        std::thread a([&q] { rounds(1, q.n[0], q.a[0]); }), b([&q] { rounds(2, q.n[1], q.a[1]); });
        std::thread c; if (q.n[2]) c = std::thread([&q] { rounds(3, q.n[2], q.a[2]); });
        if (locked) { leave(0); release(0); }
        h_rest(); if (mc_live_threads() > 1) mc_fail("locker-blocked", "the mutex is free, but somebody still waits for it");
        a.join(); b.join(); if (q.n[2]) c.join();
        MC_CHECK(g_m[0]->tryLock(), "free-mutex-locked"); enter(0); MC_CHECK(!g_m[1]->tryLock(), "two-owners"); leave(0); g_m[0]->unlock();
    }
    drop();
}
// held all the time: nobody gets in; then exactly one does, and then the next
template <int N> static void one_by_one(int locked)
{
    make(locked, 4);
    {
        if (!locked) MC_CHECK(g_m[0]->lock(), "lock-failed");
        std::vector<std::thread> t; for (int i = 0; i < N; ++i) t.emplace_back([i] { MC_CHECK(g_m[1 + i]->lock(), "lock-failed"); enter(i); mc_hb_none_raise(i); mc_hb_none_wait(8 + i); leave(i); g_m[1 + i]->unlock(); });
        auto count = [] { int n = 0; for (int i = 0; i < N; ++i) n += mc_hb_none_get(i); return n; };
        mc_quiesce(); MC_CHECK(count() == 0, "two-owners");
        MC_CHECK(!g_m[1]->tryLock() && !g_m[2]->tryLockFor(nanoseconds(5)), "two-owners");
        { mtx late("m", OPEN), late2("m", EITHER, false), late3("m", EITHER, true); MC_CHECK(late.isValid() && late2.isValid() && late3.isValid(), "invalid-handle"); mc_quiesce(); MC_CHECK(count() == 0 && !late.tryLock() && !late2.tryLock(), "two-owners"); static mtx *l[3]; (void)l; }
        g_m[0]->unlock();
        bool out[N] = {};
        for (int i = 0; i < N; ++i)
        {
            mc_quiesce(); if (count() != i + 1) mc_fail(count() > i + 1 ? "two-owners" : "locker-blocked", "%d got in after %d unlocks", count(), i + 1);
            MC_CHECK(!g_m[0]->tryLock(), "two-owners");
            for (int k = 0; k < N; ++k) if (!out[k] && mc_hb_none_get(k)) { out[k] = true; mc_hb_none_raise(8 + k); break; }
        }
        for (auto &x : t) x.join();
        MC_CHECK(g_m[2]->tryLock(), "free-mutex-locked");
    }
    drop();
}
// superfluous unlocks of a free mutex
static void superfluous(int handles)
{
    make(mc_choose(2), handles);
    {
        g_m[0]->unlock(); const int n = 1 + mc_choose(2); for (int i = 0; i < n; ++i) g_m[mc_choose(handles)]->unlock();
        std::thread a([] { rounds(1, 1, "ly"); }), b([] { rounds(2, 1, "lz"); });
        a.join(); b.join();
        MC_CHECK(g_m[0]->tryLock(), "free-mutex-locked"); MC_CHECK(!g_m[1]->tryLock(), "two-owners");
        g_m[2]->unlock(); MC_CHECK(g_m[3]->tryLock() && !g_m[0]->tryLock(), "two-owners");
    }
    drop();
}
// one thread, every sequence of operations on several handles
static void sequential(int len)
{
    bool held = mc_choose(2); make(held, 3);
    for (int i = 0; i < len; ++i)
    {
        mtx &m = *g_m[mc_choose(3)];
        switch (mc_choose(5))
        {
            case 0: MC_CHECK(m.tryLock() == !held, "not-a-mutex"); held = true; break;
            case 1: MC_CHECK((i & 1 ? m.try_lock_for(milliseconds(1)) : m.tryLockUntil(system_clock::now())) == !held, "not-a-mutex"); held = true; break;
            case 2: if (!held) MC_CHECK(m.lock(), "not-a-mutex"); held = true; break;
            case 3: m.unlock(); held = false; break;
            case 4: { const int how = mc_choose(3); if (how == 2 && i & 1) { mtx x("m"); MC_CHECK(x.isValid(), "invalid-handle"); } else { mtx x("m", how == 0 ? OPEN : EITHER, how == 1); MC_CHECK(x.isValid(), "invalid-handle"); }
                      break; }
        }
    }
    drop();
}
// with the standard's wrappers
static void standard(int)
{
    make(false, 1);
    {
        auto f = [] { for (int i = 0; i < 2; ++i) { std::lock_guard<mtx> l(*g_m[0]); const int d = g_data[0]; g_data[0] = d + 1; } { std::unique_lock<mtx> l(*g_m[0], std::try_to_lock); if (l) ++g_data[0], ++g_data[1]; } };
        std::thread a(f), b(f); a.join(); b.join(); MC_CHECK(g_data[0] == 4 + g_data[1], "not-exclusive");
        std::unique_lock<mtx> l(*g_m[0], milliseconds(3)); MC_CHECK(l.owns_lock(), "free-mutex-locked"); std::unique_lock<mtx> k(*g_m[1], milliseconds(3)); MC_CHECK(!k.owns_lock(), "two-owners");
    }
    drop();
}
// somebody opens it while others lock and unlock
static void opener(int)
{
    make(mc_choose(2), 1);
    {
        std::thread a([] { for (int i = 0; i < 2; ++i) { const int how = mc_choose(3); mtx x("m", how == 0 ? OPEN : EITHER, how == 1); MC_CHECK(x.isValid(), "invalid-handle"); if (how == 0 && mc_choose(2) && x.tryLock()) { enter(1); leave(1); x.unlock(); } mc_hb_none_raise(i); mc_hb_none_wait(5 + i); } });
        std::thread b([] { rounds(2, 1, "ly"); });
        if (g_locked) { enter(0); leave(0); g_m[0]->unlock(); }
        for (int i = 0; i < 2; ++i) { mc_hb_none_wait(i); mc_hb_none_raise(5 + i); }
        a.join(); b.join(); MC_CHECK(g_m[0]->tryLock(), "free-mutex-locked"); MC_CHECK(!g_m[0]->tryLock(), "two-owners");
    }
    drop();
}
// A holder that stays until the others have had their answers: polls never wait for anyone, locks of limited time only so long.
static void patient(int handles)
{
    make(false, handles);
    {
        static const char A[] = "yYzfu"; const int n = 1 + mc_choose(2); char c[2]; for (char &x : c) x = A[mc_choose(5)];
        std::thread a([] { if (mc_choose(2)) { if (!acquire(1, 'y')) return; } else acquire(1, 'l'); enter(1); mc_hb_none_wait(7); leave(1); release(1); });
        std::thread b([n, c0 = c[0], c1 = c[1]] { for (int i = 0; i < n; ++i) if (acquire(2, i ? c1 : c0)) { enter(2); leave(2); release(2); } mc_hb_none_raise(7); });
        a.join(); b.join(); MC_CHECK(g_m[0]->tryLock(), "free-mutex-locked");
    }
    drop();
}
MC_SCENARIO("C17", "patient-holder", patient, judge, 1, 5, 99, 0);
MC_SCENARIO("C17", "patient-holder-handles", patient, judge, 4, 5, 99, 0);
MC_SCENARIO("C17", "contend", contend, judge, 0, 2, 4, 0);
MC_SCENARIO("C17", "contend-handles", contend, judge, 1, 2, 4, 0);
MC_SCENARIO("C17", "contend-lock", contend, judge, 2, 4, 8, 0);
MC_SCENARIO("C17", "contend-long", contend, judge, 3, 2, 5, 0);
MC_SCENARIO("C17", "contend-timed", contend, judge, 4, 1, 4, 0);
MC_SCENARIO("C17", "contend-polling", contend, judge, 5, 3, 5, 0);
MC_SCENARIO("C17", "one-by-one-locked", one_by_one<3>, nullptr, 1, 4, 9, 0);
MC_SCENARIO("C17", "one-by-one", one_by_one<3>, nullptr, 0, 4, 9, 0);
MC_SCENARIO("C17", "superfluous-unlock", superfluous, nullptr, 1, 4, 99, 0);
MC_SCENARIO("C17", "superfluous-unlock-handles", superfluous, nullptr, 4, 3, 99, 0);
MC_SCENARIO("C17", "sequential", sequential, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C17", "standard-wrappers", standard, nullptr, 0, 4, 99, 0);
MC_SCENARIO("C17", "opened-meanwhile", opener, nullptr, 0, 3, 6, 0);
static void cycles(int n)
{
    make(false, 2); for (int i = 0; i < n; ++i) { mtx &m = *g_m[i % 2], &o = *g_m[i / 2 % 2]; MC_CHECK(i % 3 == 0 ? m.lock() : i % 3 == 1 ? m.tryLock() : m.try_lock_for(milliseconds(1)), "not-a-mutex"); MC_CHECK(!o.tryLock(), "two-owners"); m.unlock(); if (i % 5 == 0) m.unlock(); }
    MC_CHECK(g_m[0]->tryLock() && !g_m[1]->tryLock(), "not-a-mutex"); g_m[0]->unlock(); drop();
}
MC_SCENARIO("C17", "cycles", cycles, nullptr, 300, 0, 1, MC_SEQ | MC_LONG);
