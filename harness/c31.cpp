// C31: what a build with checks does about misuse, and the macros it does it with.
#include "common.h"
#include <sstream>

// Standard output goes here. Not instrumented: whoever reports at the same time as somebody else is told apart by what
// is in the buffer, and every piece written is preceded by a scheduling point.
struct capture : std::streambuf
{
    char text[16384]; int n, pieces;
    __attribute__((no_sanitize("thread"))) void put(const char *s, long k) { for (long i = 0; i < k && n < int(sizeof text) - 1; ++i) text[n++] = s[i]; text[n] = 0; ++pieces; }
    std::streamsize xsputn(const char *s, std::streamsize k) override { mc_hb_none_get(9); put(s, k); return k; }
    int overflow(int c) override { mc_hb_none_get(9); char x = char(c); put(&x, 1); return c; }
};
static capture g_out; static std::streambuf *g_before;
// ...and what is written with the functions of <cstdio>
static FILE *g_stdout, *g_ours;
__attribute__((no_sanitize("thread"))) static ssize_t from_stdio(void *, const char *s, size_t n) { g_out.put(s, long(n)); return ssize_t(n); }
__attribute__((no_sanitize("thread"))) static void stdio(bool here)
{
    if (here) { g_stdout = stdout; cookie_io_functions_t io{}; io.write = from_stdio; g_ours = fopencookie(nullptr, "w", io); setvbuf(g_ours, nullptr, _IONBF, 0); stdout = g_ours; }
    else if (g_ours) { stdout = g_stdout; fclose(g_ours); g_ours = nullptr; }
}
static void listen(int mode = 1) { g_out.n = g_out.pieces = 0; g_out.text[0] = 0; g_before = std::cout.rdbuf(&g_out); stdio(true); mc_env_traps(mode); }
static void over() { mc_env_traps(0); std::cout.rdbuf(g_before); stdio(false); }
static bool says(const std::string &x) { return strstr(g_out.text, x.c_str()) != nullptr; }
static int  count(const std::string &x) { int k = 0; for (const char *p = g_out.text; (p = strstr(p, x.c_str())) != nullptr; p += x.size()) ++k; return k; }
static int g_evaluated;
static bool cond(bool b) { ++g_evaluated; return b; }
static void clear() { g_out.n = 0; g_out.text[0] = 0; g_evaluated = 0; }

#ifndef NDEBUG
static int g_at;                                              // traps so far
static void silent(const char *what) { if (mc_traps() != g_at || g_out.n) mc_fail("false-report", "%s: %s", what, g_out.text); }
static void reported(const char *what, const std::string &a, const std::string &b = "", const std::string &c = "")
{
    if (mc_traps() == g_at) mc_fail("not-reported", "%s does not stop the program", what);
    for (int i = g_at; i < mc_traps(); ++i) if (i < 16 && mc_trap_thread(i) != mc_tid()) mc_fail("reported-elsewhere", "%s", what);
    for (auto *x : {&a, &b, &c}) if (!says(*x)) mc_fail("report-incomplete", "%s is not reported with \"%s\" but as: %s", what, x->c_str(), g_out.text);
    g_at = mc_traps(); g_out.n = 0; g_out.text[0] = 0;
}
static void once(const char *what) { if (g_evaluated != 1) mc_fail("evaluated", "the expression of %s is evaluated %d times", what, g_evaluated); g_evaluated = 0; }
// every macro, with an expression that holds or does not, without and with arguments
static void macros(int)
{
    listen(); g_at = 0; clear(); std::string line;
    static const std::string LONG(900, 'y'); const std::string text[] = {"", "x", "100 percent", LONG}; const std::string &t = text[mc_choose(4)]; static const int N[] = {0, -1, 42, 2147483647}; const int n = N[mc_choose(4)];
    for (int k = 0; k < 3; ++k)                              // again and again, at the same place
    {
        const bool b = mc_choose(2); bool r;
#define EXPECT_REPORT(what, text) if (b) { silent(what); } else { reported(what, "cond(b)", __FILE__, line); } once(what)
#define AT line = "line " + std::to_string(__LINE__)
        AT; oqpi_verify(cond(b)); EXPECT_REPORT("verify", "");
        AT; oqpi_check(cond(b)); EXPECT_REPORT("check", "");
        AT; r = oqpi_ensure(cond(b)); EXPECT_REPORT("ensure", ""); MC_CHECK(r == b, "ensure-value");
        AT; r = oqpi_failed(cond(b)); EXPECT_REPORT("failed", ""); MC_CHECK(r == !b, "failed-value");
        const auto full = [&](const char *what) { char x[80]; snprintf(x, sizeof x, "|%d|-7000000000|%.2f|ok>", n, n * 0.5); const std::string d = "<" + t + x; if (!b && !says(d)) mc_fail("report-incomplete", "%s is not reported with \"%s\" but as: %s", what, d.c_str(), g_out.text); };
        AT; oqpi_verifyf(cond(b), "<%s|%d|%ld|%.2f|%c%c>", t.c_str(), n, -7000000000l, n * 0.5, 'o', 'k'); full("verifyf"); EXPECT_REPORT("verifyf", "");
        AT; oqpi_checkf(cond(b), "<%s|%d|%ld|%.2f|%c%c>", t.c_str(), n, -7000000000l, n * 0.5, 'o', 'k'); full("checkf"); EXPECT_REPORT("checkf", "");
        AT; r = oqpi_ensuref(cond(b), "<%s|%d|%ld|%.2f|%c%c>", t.c_str(), n, -7000000000l, n * 0.5, 'o', 'k'); full("ensuref"); EXPECT_REPORT("ensuref", ""); MC_CHECK(r == b, "ensure-value");
        AT; r = oqpi_failedf(cond(b), "<%s|%d|%ld|%.2f|%c%c>", t.c_str(), n, -7000000000l, n * 0.5, 'o', 'k'); full("failedf"); EXPECT_REPORT("failedf", ""); MC_CHECK(r == !b, "failed-value");
        oqpi_checkf(cond(b), "plain %s", "one"); once("checkf"); if (!b && !says("plain one")) mc_fail("report-incomplete", "plain"); clear(); g_at = mc_traps();
        const bool s = oqpi_ensuref(cond(b), "nothing to fill in"); once("ensuref"); if (!b && !says("nothing to fill in")) mc_fail("report-incomplete", "nothing to fill in"); MC_CHECK(s == b, "ensure-value"); clear(); g_at = mc_traps();
    }
    over();
}
// too long a description is cut off, not more
static void too_long(int)
{
    listen(); g_at = 0; clear(); const std::string d(mc_choose(2) ? 5000 : 1023 + mc_choose(3), 'z'); const bool r = oqpi_ensuref(cond(false), "%s", d.c_str());
    MC_CHECK(!r, "ensure-value"); reported("ensuref", std::string(500, 'z'), "cond(false)", __FILE__); over();
}
// two threads at once: each report in one piece, with what it is about
static void together(int how)
{
    listen(); const auto f = [how](int i) { const std::string t = std::string(8, char('A' + i)); bool r = true; if (how == 0) oqpi_checkf(i > 9, "[%s|%d]", t.c_str(), i) else r = oqpi_ensuref(i > 9, "[%s|%d]", t.c_str(), i); if (how && r) mc_fail("ensure-value", "%d", i); };
    { std::thread a([&] { f(1); }), b([&] { f(2); }); if (how == 2) f(0); a.join(); b.join(); }
    for (int i = how == 2 ? 0 : 1; i < 3; ++i) { const std::string d = "[" + std::string(8, char('A' + i)) + "|" + std::to_string(i) + "]"; if (count(d) != 1) mc_fail("report-incomplete", "%d times \"%s\" in: %s", count(d), d.c_str(), g_out.text); }
    MC_CHECK(mc_traps() == (how == 2 ? 3 : 2), "not-reported"); over();
}
// --- misuse of the library -------------------------------------------------------------------
static sched_t *g_s;
template <typename T> static std::string S(T x) { return std::to_string(x); }
static void ended_without(int) { if (!mc_traps()) mc_fail("not-reported", "the misuse"); }
static void by_worker(task_handle h) { g_s->add(h); h.wait(); }
// ...of tasks. where: on the scenario's thread, or by a worker
static void tasks(int where)
{
    listen(); g_at = 0; clear(); sched_t s; g_s = &s; add_workers(s, 1); s.start(); const int kind = mc_choose(6); static int ran; ran = 0; int mine = 0;
    const auto misuse = [&]
    {
        switch (kind)
        {
            case 0: { auto h = H(mk_ff([] { ++ran; })); h.wait(); reported("waiting for a fire and forget task", "fire_and_forget"); MC_CHECK(!h.isDone() && !h.isGrabbed() && !ran, "not-refused"); break; }
            case 1: { auto t = mk([] { ++ran; return 7; }); t->getResult(); reported("asking for the result of an unfinished task", S(t->getUID())); MC_CHECK(!ran, "not-refused"); mine = 1; break; }
            case 2: { auto h = H(mk([] { ++ran; })); h.execute(); reported("executing an ungrabbed task", S(h.getUID())); MC_CHECK(!ran && !h.isDone() && !h.isGrabbed(), "not-refused"); MC_CHECK(h.tryGrab(), "refused-for-good"); h.execute(); h.wait(); MC_CHECK(ran == 1 && h.isDone(), "refused-for-good"); silent("executing it once grabbed"); break; }
            case 3: { auto h = H(mk([] { ++ran; }, task_priority::inherit)); s.add(h); reported("handing in a task without a group to inherit the priority of", S(h.getUID())); if (!where) { h.wait(); MC_CHECK(ran == 1, "not-executed"); } break; }
            case 4: { auto t = mk_ff([] { ++ran; }); t->execute(); reported("executing an ungrabbed task", S(t->getUID())); MC_CHECK(!ran && !t->isDone(), "not-refused"); break; }
            case 5: { auto t = mk_ff([] { ++ran; }); t->activeWait(); MC_CHECK(ran == 1 && t->isDone(), "not-executed"); silent("actively waiting for a fire and forget task that nobody took"); t->activeWait(); reported("waiting for a fire and forget task", "fire_and_forget"); MC_CHECK(ran == 1, "executed-twice"); break; }
        }
    };
    if (where) by_worker(H(mk(misuse))); else misuse();
    mc_quiesce(); s.stop(); over();
}
// ...of groups
static void groups(int where)
{
    listen(); g_at = 0; clear(); sched_t s; g_s = &s; add_workers(s, 1); s.start(); const int kind = mc_choose(5), fork = mc_choose(2); static int ran, ran2; ran = ran2 = 0;
    const auto make = [&]() -> task_group_sptr { if (fork) return mk_fork(s); return mk_seq(s); };
    const auto misuse = [&]
    {
        switch (kind)
        {
            case 0:
            {
                auto a = make(), b = make(); auto t = H(mk_ff([] { ++ran; })), u = H(mk_ff([] { ++ran2; })); a->addTask(t); silent("adding a task to a group"); b->addTask(u); b->addTask(t); reported("adding a task to a second group", S(t.getUID()), S(a->getUID()));
                if (t.getParentGroup() != a) mc_fail("not-refused", "the task changed groups");
                if (where) { b->executeSingleThreaded(); MC_CHECK(ran == 0 && ran2 == 1 && b->isDone(), "not-refused"); a->executeSingleThreaded(); MC_CHECK(ran == 1 && a->isDone(), "not-executed"); }
                else { s.add(task_handle(b)).wait(); MC_CHECK(ran == 0 && ran2 == 1, "not-refused"); s.add(task_handle(a)).wait(); MC_CHECK(ran == 1 && ran2 == 1, "not-executed"); }
                silent("executing both"); break;
            }
            case 1: { auto a = make(); MC_CHECK(task_handle(a).tryGrab(), "grab"); if (fork) { a->execute(); reported("executing an empty fork", "empty"); MC_CHECK(!a->isDone(), "not-refused"); } else { mc_outcome(1); } break; }
            case 2: { auto a = mk_seq(s); a->addTask(H(mk_ff([] { ++ran; }))); task_handle h(a); if (!where) { s.add(h); h.activeWait(); reported("actively waiting for a sequence", "ot supported"); MC_CHECK(ran == 1 && h.isDone(), "not-executed"); } break; }
            case 3: { auto a = make(); a->addTask(task_handle()); silent("adding an invalid handle"); auto b = make(); a->addTask(task_handle(b)); auto t = H(mk_ff([] { ++ran; })); b->addTask(t); silent("groups in groups"); a->executeSingleThreaded(); MC_CHECK(ran == 1, "not-executed"); silent("executing it"); break; }
            case 4: { if (fork) { auto a = mk_fork(s); a->executeSingleThreaded(); reported("executing an empty fork single threaded", ""); } break; }
        }
    };
    if (where) by_worker(H(mk(misuse))); else misuse();
    mc_quiesce(); s.stop(); over();
}
// ...of an empty sequence: what is left to do is undefined once reported, so that is where it ends
static void empty_sequence(int where)
{
    listen(2); sched_t s; g_s = &s; add_workers(s, 1); s.start();
    { auto a = mk_seq(s); task_handle h(a); if (where) { s.add(h); mc_quiesce(); } else { h.tryGrab(); h.execute(); } }
    mc_fail("not-reported", "executing an empty sequence");
}
// ...of handles
static void handles(int where)
{
    listen(2); static int kind; kind = mc_choose(12); sched_t s; g_s = &s; add_workers(s, 1); s.start();
    static const auto misuse = []
    {
        task_handle h; if (kind & 1) { h = H(mk_ff([] {})); h.reset(); } const int k = kind;
        switch (k % 12)
        {
            case 0: h.wait(); break; case 1: h.activeWait(); break; case 2: h.execute(); break; case 3: h.isDone(); break; case 4: h.tryGrab(); break; case 5: h.isGrabbed(); break;
            case 6: h.getPriority(); break; case 7: h.getUID(); break; case 8: h.getParentGroup(); break; case 9: h.executeSingleThreaded(); break; case 10: h.setParentGroup(nullptr); break; case 11: { auto g = h; h.isDone(); break; }
        }
        mc_fail("not-reported", "using an invalid handle (%d)", k);
    };
    if (where) by_worker(H(mk([] { misuse(); }))); else misuse();
}
// ...of schedulers
static void schedulers(int)
{
    listen(); g_at = 0; clear(); const int kind = mc_choose(3), missing = mc_choose(5); static const int W[] = {1, 2, 4, 8, 16}; static int ran; ran = 0;
    {
        sched_t s; g_s = &s;
        if (kind == 0) { for (int i = 0; i < 5; ++i) if (i != missing) add_workers(s, 1, worker_priority(W[i])); silent("registering"); s.start(); reported("starting without a worker for a priority", S(missing)); MC_CHECK(s.workersCount(task_priority(missing)) == 0, "count"); silent("counting"); }
        else if (kind == 1)
        {
            add_workers(s, 1 + mc_choose(2)); s.start(); const int n = mc_live_threads(); silent("starting"); s.start(); reported("starting twice", ""); MC_CHECK(mc_live_threads() == n, "not-refused");
            auto h = H(mk([] { ++ran; })); s.add(h).wait(); MC_CHECK(ran == 1, "not-executed"); silent("going on");
            s.stop(); s.start(); silent("starting again after having stopped"); auto g = H(mk([] { ++ran; })); s.add(g).wait(); MC_CHECK(ran == 2, "not-executed");
        }
        else { s.start(); reported("starting without workers", S(0)); }
        s.stop();
    }
    MC_CHECK(mc_live_threads() == 1, "worker-alive"); over();
}
static void no_such_priority(int) { listen(2); sched_t s; add_workers(s, 1); s.workersCount(mc_choose(2) ? task_priority::count : task_priority::inherit); mc_fail("not-reported", "asking for an invalid priority"); }
// ...of threads
static void threads(int)
{
    listen(); g_at = 0; clear(); mc_env_nproc(1 + mc_choose(4)); const int n = thr_t::hardware_concurrency();
    static const core_affinity A[] = {core_affinity::core0, core_affinity::core1, core_affinity::core2, core_affinity::core3, core_affinity::all_cores}; const int k = mc_choose(5); static int ran; ran = 0;
    { thread_attributes a("t"); a.coreAffinityMask_ = A[k]; thr_t t(a, [] { ++ran; }); t.join(); }
    if (k < 4 && k >= n) reported("asking for a core there is none of", ""); else silent("asking for a core"); MC_CHECK(ran == 1, "not-executed"); over();
}
// ...of named objects
static void names(int)
{
    listen(); g_at = 0; clear(); static const char *N[] = {"/", "a/b", "x/", "//"}; const std::string n = N[mc_choose(4)];
    { semaphore_interface<global_sync_object> s(n, sync_object_creation_options::create_if_nonexistent, 1); reported("a name that is not one", ""); MC_CHECK(!s.isValid(), "not-refused"); }
    { semaphore_interface<global_sync_object> s("fine", sync_object_creation_options::create_if_nonexistent, 1); silent("a proper name"); MC_CHECK(s.isValid(), "refused"); } over();
}
MC_SCENARIO("C31", "macros", macros, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C31", "too-long", too_long, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C31", "together-check", together, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C31", "together-ensure", together, nullptr, 1, 99, 99, 0);
MC_SCENARIO("C31", "together-three", together, nullptr, 2, 3, 99, 0);
MC_SCENARIO("C31", "tasks", tasks, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C31", "tasks-worker", tasks, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C31", "groups", groups, nullptr, 0, 2, 4, MC_NOLEAK);
MC_SCENARIO("C31", "groups-worker", groups, nullptr, 1, 2, 4, MC_NOLEAK);
MC_SCENARIO("C31", "empty-sequence", empty_sequence, ended_without, 0, 2, 4, 0);
MC_SCENARIO("C31", "empty-sequence-worker", empty_sequence, ended_without, 1, 2, 4, 0);
MC_SCENARIO("C31", "handles", handles, ended_without, 0, 1, 3, 0);
MC_SCENARIO("C31", "handles-worker", handles, ended_without, 1, 1, 3, 0);
MC_SCENARIO("C31", "schedulers", schedulers, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C31", "no-such-priority", no_such_priority, ended_without, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C31", "threads", threads, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C31", "names", names, nullptr, 0, 0, 0, MC_SEQ);
#else
// no checks: nothing is reported, and what is evaluated does not depend on it
static void macros(int)
{
    listen(); clear(); const bool b = mc_choose(2); bool r;
    const auto evaluated = [](int n, const char *what) { if (g_evaluated != n) mc_fail("evaluated", "the expression of %s is evaluated %d times", what, g_evaluated); g_evaluated = 0; };
    oqpi_verify(cond(b)); evaluated(1, "verify"); oqpi_verifyf(cond(b), "%d", 1); evaluated(1, "verifyf");
    oqpi_check(cond(b)); evaluated(0, "check"); oqpi_checkf(cond(b), "%d", 1); evaluated(0, "checkf");
    r = oqpi_ensure(cond(b)); evaluated(0, "ensure"); MC_CHECK(r, "ensure-value"); r = oqpi_ensuref(cond(b), "%d", 1); evaluated(0, "ensuref"); MC_CHECK(r, "ensure-value");
    r = oqpi_failed(cond(b)); evaluated(0, "failed"); MC_CHECK(!r, "failed-value"); r = oqpi_failedf(cond(b), "%d", 1); evaluated(0, "failedf"); MC_CHECK(!r, "failed-value");
    MC_CHECK(!mc_traps() && !g_out.n, "false-report"); over();
}
MC_SCENARIO("C31", "macros", macros, nullptr, 0, 0, 0, MC_SEQ);
#endif
