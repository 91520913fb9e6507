// C22: a thread runs its function once, with its arguments and attributes.
#include "common.h"

using namespace std::chrono;
static std::atomic<int> g_alive, g_calls;
// an argument that knows how many of it there are and what it was made with
struct arg
{
    int v; bool copied = false;
    explicit arg(int x) : v(x) { ++g_alive; }
    arg(const arg &o) : v(o.v), copied(true) { ++g_alive; }
    arg(arg &&o) : v(o.v), copied(o.copied) { o.v = -1; ++g_alive; }
    ~arg() { --g_alive; }
};
struct move_only { std::unique_ptr<int> p; arg a; explicit move_only(int x) : p(new int(x)), a(x) {} move_only(move_only &&) = default; };
static void called(int caller) { ++g_calls; if (mc_tid() == caller) mc_fail("ran-on-the-caller", "the function runs on the thread that launched it"); g_data[1] = mc_tid(); MC_CHECK(g_data[0] == 7, "arguments"); g_data[0] = 8; }
static int g_caller;
static void plain(int a, arg b) { called(g_caller); MC_CHECK(a == 5 && b.v == 6, "arguments"); }
static void plain_ref(int &a) { called(g_caller); a = 9; }
struct object { int v = 3; arg a{3}; void method(int x, const std::string &s) { called(g_caller); MC_CHECK(v == 3 && a.v == 3 && x == 4 && s == "abc", "arguments"); v = 5; } void operator()(int x) { called(g_caller); MC_CHECK(x == 2 && a.v == 3, "arguments"); } };
static thr_t launch(int how, const thread_attributes &ta, int &ref, object &o)
{
    g_data[0] = 7; g_caller = mc_tid();
    switch (how)
    {
        case 0: return thr_t(ta, [] { called(g_caller); });
        case 1: return thr_t("t", plain, 5, arg(6));
        case 2: { arg keep(6); thr_t t(ta, &plain, 5, keep); MC_CHECK(keep.v == 6, "arguments-moved-from"); return t; }
        case 3: return thr_t("t", &object::method, &o, 4, std::string("abc"));
        case 4: return thr_t(ta, object(), 2);
        case 5: { move_only m(11); return thr_t(ta, [](move_only m, std::unique_ptr<arg> p) { called(g_caller); MC_CHECK(*m.p == 11 && m.a.v == 11 && !m.a.copied && p->v == 12, "arguments"); }, std::move(m), std::make_unique<arg>(12)); }
        case 6: return thr_t("t", [c = move_only(13)] { called(g_caller); MC_CHECK(*c.p == 13 && !c.a.copied, "arguments"); });
        case 7: return thr_t("t", plain_ref, std::ref(ref));
        case 8: { std::function<void(int)> f = [k = arg(1)](int x) { called(g_caller); MC_CHECK(x == 3 && k.v == 1, "arguments"); }; return thr_t(ta, f, 3); }
        case 9: { int local = 4; char text[] = "abc"; thr_t t(ta, [](int x, const char *s) { called(g_caller); MC_CHECK(x == 4 && s[0] == 'l', "arguments"); }, local, (const char *)"literal"); local = 0; text[0] = 0; return t; }
    }
    return thr_t();
}
static const int HOW = 10;
static void run_once(int)
{
    const int how = mc_choose(HOW); int ref = 0;
    {
        object o; thr_t t = launch(how, thread_attributes("t"), ref, o); MC_CHECK(t.joinable(), "not-joinable");
        if (mc_choose(2)) { thr_t u(std::move(t)); MC_CHECK(!t.joinable() && u.joinable(), "not-joinable"); t = std::move(u); MC_CHECK(t.joinable() && !u.joinable(), "not-joinable"); }
        t.join(); MC_CHECK(!t.joinable(), "joinable-after-join"); MC_CHECK(g_data[0] == 8, "not-finished-after-join"); MC_CHECK(g_calls == 1, "ran-more-than-once"); if (how == 7) MC_CHECK(ref == 9, "not-finished-after-join"); if (how == 3) MC_CHECK(o.v == 5, "not-finished-after-join");
        MC_CHECK(mc_thread_finished(g_data[1]) && g_data[1] != mc_tid(), "not-finished-after-join"); MC_CHECK(g_alive == 1, "arguments-not-released");
    }
    MC_CHECK(g_alive == 0 && mc_live_threads() == 1, "arguments-not-released");
}
// --- attributes ---------------------------------------------------------------------------------
static const core_affinity MASK[] = {core_affinity::all_cores, core0, core_affinity(core1 | core3), core2, core_affinity(core0 | core1 | core2 | core3), core3};
static uint64_t expected(core_affinity m) { return uint64_t(m) & 15; }
static void attributes(int)
{
    static const char *NAME[] = {"n", "a thread", "exactly15bytes.", ""}; static const uint32_t STACK[] = {0, 16384, 1 << 20, 0x7ffff000u};
    const bool rt = mc_choose(2); mc_env_rtprio(rt); mc_env_nproc(4);
    const int what = mc_choose(4); const char *name = NAME[what == 0 ? mc_choose(4) : 0]; const uint32_t stack = STACK[what == 1 ? mc_choose(4) : 0]; const core_affinity mask = MASK[what == 2 ? mc_choose(6) : 0]; const auto prio = thread_priority(what == 3 ? mc_choose(6) : 2);
    const uint64_t mine = mc_thread_affinity(0); const std::string my_name = mc_thread_name(0); const int my_policy = mc_thread_policy(0), my_prio = mc_thread_prio(0);
    {
        thr_t t(thread_attributes(name, stack, mask, prio), [&] {
            const int k = mc_tid(); g_data[1] = k;
            if (strcmp(mc_thread_name(k), name)) mc_fail("name", "the function of thread \"%s\" runs as \"%s\"", name, mc_thread_name(k));
            if (mc_thread_stacksize(k) != stack) mc_fail("stack-size", "%lu instead of %u", (unsigned long)mc_thread_stacksize(k), stack);
            g_data[0] = 1; mc_hb_none_wait(0);
            if ((mc_thread_affinity(k) & 15) != expected(mask)) mc_fail("affinity", "%lx instead of %lx", (unsigned long)mc_thread_affinity(k), (unsigned long)expected(mask));
            if (rt) { MC_CHECK(mc_thread_policy(k) == SCHED_RR && mc_thread_prio(k) >= 1, "priority"); }
        });
        const core_affinity got = t.getCoreAffinityMask(); if (uint64_t(got) != expected(mask)) mc_fail("affinity", "%x read back instead of %lx", unsigned(got), (unsigned long)expected(mask));
        if (rt && t.getPriority() != prio) mc_fail("priority", "%d read back instead of %d", int(t.getPriority()), int(prio));
        mc_hb_none_raise(0); t.join();
    }
    MC_CHECK(g_data[0] == 1, "not-finished-after-join"); if (mc_thread_affinity(0) != mine || my_name != mc_thread_name(0) || mc_thread_policy(0) != my_policy || mc_thread_prio(0) != my_prio) mc_fail("caller-changed", "launching a thread changed the attributes of the launching one");
}
// a thread that is gone before its launch has returned leaves its launcher alone
static void short_lived(int how)
{
    mc_env_nproc(4); mc_env_rtprio(how & 1); const uint64_t mine = mc_thread_affinity(0); const int my_policy = mc_thread_policy(0), my_prio = mc_thread_prio(0);
    { int done = 0; thr_t t(thread_attributes("t", 0, how & 2 ? core1 : core_affinity::all_cores, thread_priority::highest), [&] { done = 1; }); t.join(); MC_CHECK(done == 1, "not-finished-after-join"); }
    if ((mc_thread_affinity(0) & 15) != (mine & 15) || mc_thread_policy(0) != my_policy || mc_thread_prio(0) != my_prio) mc_fail("caller-changed", "launching a thread for the cores 2 left its launcher with %lx", (unsigned long)mc_thread_affinity(0));
}
// none of the requested cores exists: that is asserted against in a build with checks; without, the function runs all the same
static void no_such_core(int)
{
    mc_env_nproc(4); mc_env_rtprio(mc_choose(2)); int done = 0;
#ifdef NDEBUG
    const core_affinity m = core7;
#else
    const core_affinity m = core3;
#endif
    thr_t t(thread_attributes("t", 0, m), [&] { done = 1; }); MC_CHECK(t.joinable(), "not-joinable"); t.join(); MC_CHECK(done == 1, "not-finished-after-join"); MC_CHECK((mc_thread_affinity(0) & 15) == 15, "caller-changed");
}
// priorities are in order, and come back as they were set
static void set_and_read(int)
{
    mc_env_rtprio(1); const int c = mc_choose(2) ? 8 : 32; mc_env_nproc(c); int last = 0;
    thr_t t(thread_attributes("t"), [c] { mc_hb_none_wait(0); for (int p = 0; p < 6; ++p) { this_thread::set_priority(thread_priority(p)); MC_CHECK(posix_thread::get_priority(pthread_self()) == thread_priority(p), "priority"); } this_thread::set_name("renamed"); MC_CHECK(!strcmp(mc_thread_name(mc_tid()), "renamed"), "name"); this_thread::set_affinity(3); MC_CHECK(mc_thread_affinity(mc_tid()) == 8, "affinity"); this_thread::set_affinity_mask(core_affinity(core0 | core7)); MC_CHECK(mc_thread_affinity(mc_tid()) == 129, "affinity"); this_thread::set_affinity(c - 1); MC_CHECK(mc_thread_affinity(mc_tid()) == 1ul << (c - 1), "affinity"); g_data[3] = 1; });
    const int k = mc_thread_tid_of(t.getNativeHandle()); MC_CHECK(k > 0 && t.getId() == t.getNativeHandle(), "handle");
    for (int p = 0; p < 6; ++p) { t.setPriority(thread_priority(p)); if (t.getPriority() != thread_priority(p)) mc_fail("priority", "%d read back instead of %d", int(t.getPriority()), p); if (mc_thread_prio(k) <= last) mc_fail("priority", "priority %d is not above the one below", p); last = mc_thread_prio(k); }
    for (int i = 0; i < c; ++i) { t.setCoreAffinity(i); if (t.getCoreAffinityMask() != core_affinity(1u << i) || mc_thread_affinity(k) != 1ul << i) mc_fail("affinity", "core %d read back as %x", i, unsigned(t.getCoreAffinityMask())); }
    for (unsigned n = 1; n < 256; ++n) for (int sh = 0; sh < (c == 8 ? 1 : 32); sh += 6)
    {
        const unsigned m = n << sh | n >> (32 - sh) % 32;
        t.setCoreAffinityMask(core_affinity(m)); if (t.getCoreAffinityMask() != core_affinity(m)) mc_fail("affinity", "%x read back as %x", m, unsigned(t.getCoreAffinityMask()));
    }
    mc_hb_none_raise(0); t.join(); MC_CHECK(g_data[3] == 1, "not-finished-after-join");
}
// --- refused by the system ----------------------------------------------------------------------
static void refused(int)
{
    const int how = mc_choose(HOW); int ref = 0;
    {
        object o; mc_env_create_fail(2);
        thr_t t = launch(how, thread_attributes("t", 0, core1), ref, o); const int running = mc_thread_count() - 1;
        if (running) { MC_CHECK(t.joinable(), "not-joinable"); t.join(); MC_CHECK(g_calls == 1, "ran-more-than-once"); }
        else { if (t.joinable()) mc_fail("joinable-without-thread", "the thread could not be created but the object is joinable"); MC_CHECK(g_calls == 0, "ran-though-refused"); t.join(); t.detach(); }
        MC_CHECK(g_alive == 1, "arguments-not-released");
        if (!running) { mc_env_create_fail(0); t = launch(how, thread_attributes("t"), ref, o); MC_CHECK(t.joinable(), "not-joinable"); t.join(); MC_CHECK(g_calls == 1 && g_alive == 1, "arguments-not-released"); }
    }
    MC_CHECK(g_alive == 0, "arguments-not-released"); MC_CHECK((mc_thread_affinity(0) & 15) == 15, "caller-changed");
}
// --- every sequence of operations on thread objects ------------------------------------------------
static void sequences(int len)
{
    thr_t t[2]; int which[2] = {-1, -1}; int n = 0; static int done[8]; memset(done, 0, sizeof done); int joined[8] = {};
    auto check = [&] { for (int i = 0; i < 2; ++i) if (t[i].joinable() != (which[i] >= 0)) mc_fail("joinable", "object %d is %sjoinable", i, t[i].joinable() ? "" : "not "); };
    for (int i = 0; i < len; ++i)
    {
        const int k = mc_choose(2), o = 1 - k;
        switch (mc_choose(7))
        {
            case 0: if (which[k] < 0) { const int id = n++; t[k] = thr_t("t", [id, a = arg(id)] { MC_CHECK(a.v == id, "arguments"); MC_CHECK(done[id] == 0, "ran-more-than-once"); done[id] = 1; mc_hb_none_raise(id); }); which[k] = id; } break;
            case 1: t[k].join(); if (which[k] >= 0) { MC_CHECK(done[which[k]] == 1, "not-finished-after-join"); joined[which[k]] = 1; } which[k] = -1; break;
            case 2: t[k].detach(); which[k] = -1; break;
            case 3: if (which[k] < 0) { t[k] = std::move(t[o]); which[k] = which[o]; which[o] = -1; } break;
            case 4: { thr_t u(std::move(t[k])); MC_CHECK(!t[k].joinable() && u.joinable() == (which[k] >= 0), "joinable"); t[k] = std::move(u); MC_CHECK(!u.joinable(), "joinable"); } break;
            case 5: std::swap(t[0], t[1]); std::swap(which[0], which[1]); break;
            case 6: { auto &r = t[k]; t[k] = std::move(r); } break;
        }
        check();
    }
    for (int i = 0; i < 2; ++i) if (t[i].joinable()) { t[i].join(); MC_CHECK(done[which[i]] == 1, "not-finished-after-join"); }
    mc_quiesce(); for (int i = 0; i < n; ++i) MC_CHECK(mc_hb_none_get(i), "never-ran"); MC_CHECK(mc_live_threads() == 1, "never-ran");
    MC_CHECK(g_alive == 0, "arguments-not-released");
}
static void self_join(int)
{
    thr_t t; std::atomic<bool> ready(false);
    t = thr_t("t", [&] { while (!ready.load()) std::this_thread::yield(); t.join(); MC_CHECK(t.joinable(), "joinable"); g_data[0] = 1; });
    ready = true; mc_quiesce(); t.join(); MC_CHECK(g_data[0] == 1 && !t.joinable(), "not-finished-after-join");
}
// --- workers ----------------------------------------------------------------------------------------
static void workers(int n)
{
    mc_env_nproc(4); const bool rt = mc_choose(2); mc_env_rtprio(rt); sched_t s; worker_config c;
    const int which = mc_choose(3); c.threadAttributes.name_ = "wrk"; c.threadAttributes.stackSize_ = which == 1 ? 65536 : 0; c.threadAttributes.coreAffinityMask_ = MASK[which == 2 ? 1 + mc_choose(2) : 0]; c.threadAttributes.priority_ = which == 0 ? thread_priority::above_normal : thread_priority::normal; c.workerPrio = worker_priority::wprio_any; c.count = n;
    s.registerWorker<thr_t, sem_if, empty_worker_context>(c); s.start(); mc_quiesce();
    bool seen[16] = {};
    MC_CHECK(mc_live_threads() == 1 + n, "never-ran");
    for (int k = 1; k <= n; ++k)
    {
        const std::string name = mc_thread_name(k); bool ok = false;
        for (int i = 0; i < n; ++i) if (name == (n > 1 ? "wrk" + std::to_string(i) : std::string("wrk")) && !seen[i]) { seen[i] = ok = true; break; }
        if (!ok) mc_fail("name", "a worker of %d is called \"%s\"", n, name.c_str());
        if (mc_thread_stacksize(k) != c.threadAttributes.stackSize_) mc_fail("stack-size", "%lu", (unsigned long)mc_thread_stacksize(k));
        if ((mc_thread_affinity(k) & 15) != expected(c.threadAttributes.coreAffinityMask_)) mc_fail("affinity", "%lx", (unsigned long)mc_thread_affinity(k));
        if (rt && posix_thread::get_priority(pthread_t(0x7000 + 16 * k)) != c.threadAttributes.priority_) mc_fail("priority", "worker %d has another priority", k);
    }
    { task_handle h(mk([] { g_ran[0]++; })); s.add(h); h.wait(); MC_CHECK(g_ran[0] == 1, "never-ran"); } s.stop(); MC_CHECK(mc_live_threads() == 1 && (mc_thread_affinity(0) & 15) == 15, "caller-changed");
}
// workers whose threads cannot be created: the others do the work, and stopping works
static void workers_refused(int n)
{
    sched_t s; add_workers(s, n); mc_env_create_fail(n); s.start(); mc_env_create_fail(0); mc_quiesce(); const int live = mc_live_threads() - 1;
    { task_handle h(mk([] { g_ran[0]++; })); s.add(h); if (live) { h.wait(); MC_CHECK(g_ran[0] == 1, "never-ran"); } else { mc_quiesce(); MC_CHECK(!h.isDone(), "ran-though-refused"); h.activeWait(); MC_CHECK(g_ran[0] == 1, "never-ran"); } }
    s.stop(); MC_CHECK(mc_live_threads() == 1, "not-finished-after-join");
}
MC_SCENARIO("C22", "run-once", run_once, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "attributes", attributes, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "short-lived", short_lived, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "short-lived-priority", short_lived, nullptr, 1, 99, 99, 0);
MC_SCENARIO("C22", "short-lived-affinity", short_lived, nullptr, 2, 99, 99, 0);
MC_SCENARIO("C22", "short-lived-both", short_lived, nullptr, 3, 99, 99, 0);
MC_SCENARIO("C22", "no-such-core", no_such_core, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "set-and-read", set_and_read, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C22", "refused", refused, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "sequences", sequences, nullptr, 3, 3, 9, 0);
MC_SCENARIO("C22", "sequences-long", sequences, nullptr, 4, 1, 3, 0);
MC_SCENARIO("C22", "self-join", self_join, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C22", "worker", workers, nullptr, 1, 3, 9, 0);
MC_SCENARIO("C22", "two-workers", workers, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C22", "three-workers", workers, nullptr, 3, 0, 1, 0);
MC_SCENARIO("C22", "worker-refused", workers_refused, nullptr, 1, 99, 99, 0);
MC_SCENARIO("C22", "two-workers-refused", workers_refused, nullptr, 2, 3, 9, 0);
MC_SCENARIO("C22", "eleven-workers", workers, nullptr, 11, 0, 0, MC_DELAY);
