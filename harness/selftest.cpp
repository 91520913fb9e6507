// Scenarios with known verdicts: the explorer itself is checked before any verdict is believed.
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <fcntl.h>
#define NB __attribute__((noinline))
static int g_x; static std::atomic<int> g_a, g_b; static std::mutex g_m, g_m2; static std::condition_variable g_cv;
static sem_t g_s;
// expectation encoded in the name: ok-... or bad-<sig>-...
static void race(int) { std::thread t([] { g_x++; }); g_x++; t.join(); }
static void norace(int) { std::thread t([] { std::lock_guard<std::mutex> l(g_m); g_x++; }); { std::lock_guard<std::mutex> l(g_m); g_x++; } t.join(); MC_CHECK(g_x == 2, "lost"); }
static void lost(int) { std::thread t([] { int v = g_a; g_a = v + 1; }); int v = g_a; g_a = v + 1; t.join(); MC_CHECK(g_a == 2, "lost"); }
static void abba(int) { std::thread t([] { std::lock_guard<std::mutex> l(g_m); std::lock_guard<std::mutex> k(g_m2); }); { std::lock_guard<std::mutex> l(g_m2); std::lock_guard<std::mutex> k(g_m); } t.join(); }
static void uaf(int) { int *p = new int(1); std::thread t([p] { sem_wait(&g_s); g_a = *p; }); sem_post(&g_s); delete p; t.join(); }
static void uaf0(int) { sem_init(&g_s, 0, 0); uaf(0); sem_destroy(&g_s); }
static void leak(int) { static int *p; p = new int(3); }
static char *volatile g_cp; static int *volatile g_ip;
static void oob(int) { volatile int k = 3; char *p = new char[3]; g_cp = p; p = g_cp; p[k] = 1; delete[] p; }
static void dbl(int) { int *p = new int; g_ip = p; delete g_ip; delete g_ip; }
static void sb(int) { static int r0, r1; std::thread t([] { g_a = 1; r1 = g_b; }); g_b = 1; r0 = g_a; t.join(); mc_outcome(r0 * 2 + r1); MC_CHECK(r0 || r1, "sb"); }
static void pub(int o) { static int d; std::thread t([o] { d = 1; g_a.store(1, o ? std::memory_order_release : std::memory_order_relaxed); }); if (g_a.load(std::memory_order_acquire)) { MC_CHECK(d == 1, "unseen"); } t.join(); }
static void cv(int) { static bool rdy; std::thread t([] { std::lock_guard<std::mutex> l(g_m); rdy = true; g_cv.notify_one(); }); { std::unique_lock<std::mutex> l(g_m); while (!rdy) g_cv.wait(l); } t.join(); }
static void cvlost(int) { static std::atomic<bool> rdy; std::thread t([] { rdy = true; g_cv.notify_one(); }); { std::unique_lock<std::mutex> l(g_m); while (!rdy) g_cv.wait(l); } t.join(); }
static void spin(int) { std::thread t([] { g_a = 1; }); while (!g_a) {} t.join(); }
static void live(int) { std::thread t([] { while (!g_b) { g_a = 1; } }); while (!g_a) {} while (!g_b) { g_a = 0; } t.join(); }
static void sp(int) { auto p = std::make_shared<int>(4); std::vector<std::thread> v; for (int i = 0; i < 2; ++i) v.emplace_back([p] { int x = *p; (void)x; }); p.reset(); for (auto &t : v) t.join(); }
static void spbad(int) { auto p = std::make_shared<int>(4); std::thread t([&p] { auto q = p; }); p.reset(); t.join(); }
static void deep(int n) { std::thread t([n] { for (int i = 0; i < n; ++i) g_a++; }); for (int i = 0; i < n; ++i) { int v = g_a; int w = g_a; MC_CHECK(!(i == 0 && v == 2 && w == 3 && n >= 3 && g_a == 4 && g_a == 5 && n > 9), "x"); } t.join(); }
static void two(int) { // needs two preemptions
    std::thread t([] { g_a = 1; g_a = 2; }); int a = g_a; g_b = 1; int b = g_a; t.join(); MC_CHECK(!(a == 1 && b == 2 && g_b), "two"); }
static void choose(int) { int a = mc_choose(5), b = mc_choose(70); mc_outcome(a * 100 + b); MC_CHECK(!(a == 4 && b == 69), "last"); }
static void chooseok(int) { int a = mc_choose(5), b = mc_choose(70); mc_outcome(a * 100 + b); }
static void dlock(int) { sem_init(&g_s, 0, 0); sem_wait(&g_s); }
static void eintr(int) { mc_env_eintr(1); sem_init(&g_s, 0, 0); std::thread t([] { sem_post(&g_s); }); int r = sem_wait(&g_s); MC_CHECK(r == 0, "eintr"); t.join(); sem_destroy(&g_s); }
static void timed(int) { sem_init(&g_s, 0, 0); std::thread t([] { sem_post(&g_s); }); timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec++; int r = sem_timedwait(&g_s, &ts); mc_outcome(r == 0); t.join(); sem_destroy(&g_s); }
static void throwing(int) { std::thread t([] { try { g_a = 1; throw 5; } catch (int) { g_a = 2; try { throw 6; } catch (int) {} } }); try { g_b = 1; throw 7; } catch (int) { g_b = 2; g_a++; } t.join(); }
static void assertion(int) { std::thread t([] { if (g_a == 1) __builtin_debugtrap(); }); g_a = 1; g_a = 0; t.join(); }
static void hang(int) { volatile int k = 1; while (k) {} }
static void nullp(int) { int *volatile p = nullptr; *p = 1; }
static void wp(int) { auto p = std::make_shared<int>(1); std::weak_ptr<int> w = p; std::thread t([w] { auto q = w.lock(); mc_outcome(q != nullptr); if (q) { MC_CHECK(*q == 1, "v"); } }); p.reset(); t.join(); }
// function-static and thread-local objects with memory of their own are no leaks
static const std::string &stat() { static const std::string s("long enough not to fit into the object itself, really"); return s; }
static std::vector<int> &tls() { static thread_local std::vector<int> v; return v; }
static void statics(int) { std::thread t([] { MC_CHECK(stat().size() > 20, "x"); tls().push_back(1); MC_CHECK(tls().size() == 1, "tls"); }); tls().push_back(2); tls().push_back(3); MC_CHECK(stat().size() > 20 && tls().size() == 2, "x"); t.join(); }
static void detstatics(int) { std::thread t([] { MC_CHECK(stat().size() > 20, "x"); }); t.detach(); }
static void statleak(int) { static int *p = nullptr; (void)stat(); p = new int(3); (void)p; }
static void *nothing(void *) { return nullptr; }
static void thleak(int) { pthread_t p; pthread_create(&p, nullptr, nothing, nullptr); }
static void thdetach(int) { pthread_t p; pthread_create(&p, nullptr, nothing, nullptr); pthread_detach(p); }
MC_SCENARIO("T", "bad-thread-leak-thleak", thleak, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-thdetach", thdetach, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-statics", statics, nullptr, 0, 2, 2, 0);
MC_SCENARIO("T", "ok-detstatics", detstatics, nullptr, 0, 2, 2, 0);
MC_SCENARIO("T", "bad-leak-statleak", statleak, nullptr, 0, 1, 1, 0);
// things of the standard library the code under test might come to use
static void misc(int)
{
    static std::shared_mutex sm; static std::once_flag of; static int n;
    auto f = [] { std::call_once(of, [] { n = 1; }); std::ostringstream o; o << "Batch " << 12 << '/' << 3.5; std::shared_lock<std::shared_mutex> l(sm); MC_CHECK(n == 1 && o.str() == "Batch 12/3.5", "misc"); };
    std::thread t(f); f(); { std::unique_lock<std::shared_mutex> l(sm); }
    t.join();
}
MC_SCENARIO("T", "ok-misc", misc, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "bad-data-race-race", race, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-norace", norace, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-lost-lost", lost, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "bad-deadlock-abba", abba, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "bad-use-after-free-uaf", uaf0, nullptr, 0, 1, 1, MC_NORACE);
MC_SCENARIO("T", "bad-leak-leak", leak, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "bad-out-of-bounds-oob", oob, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "bad-double-free-dbl", dbl, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-sb", sb, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-pub", pub, nullptr, 1, 3, 3, 0);
MC_SCENARIO("T", "bad-data-race-pub", pub, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-cv", cv, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-deadlock-cvlost", cvlost, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-spin", spin, nullptr, 0, 2, 2, 0);
MC_SCENARIO("T", "bad-livelock-live", live, nullptr, 0, 0, 0, 0);
MC_SCENARIO("T", "ok-sp", sp, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-data-race-spbad", spbad, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-deep", deep, nullptr, 6, 4, 4, 0);
MC_SCENARIO("T", "bad-two-two", two, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-last-choose", choose, nullptr, 0, 0, 0, 0);
MC_SCENARIO("T", "ok-chooseok", chooseok, nullptr, 0, 0, 0, 0);
MC_SCENARIO("T", "bad-deadlock-dlock", dlock, nullptr, 0, 0, 0, 0);
MC_SCENARIO("T", "bad-eintr-eintr", eintr, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-timed", timed, nullptr, 0, 2, 2, 0);
MC_SCENARIO("T", "ok-throwing", throwing, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-assertion-assertion", assertion, nullptr, 0, 2, 2, 0);
MC_SCENARIO("T", "bad-hang-hang", hang, nullptr, 0, 0, 0, 0);
MC_SCENARIO("T", "bad-null-deref-nullp", nullp, nullptr, 0, 0, 0, 0);
static std::atomic<int> wk; static void weakbad(int) { wk = 0; int e = 0; if (!wk.compare_exchange_weak(e, 1)) mc_fail("weak", "failed on %d", e); }
static void weakok(int) { wk = 0; auto f = [] { int e = wk.load(); while (!wk.compare_exchange_weak(e, e + 1)) {} }; std::thread t(f); f(); t.join(); MC_CHECK(wk == 2, "lost"); }
template <int S, int L> static void dekker(int fence)
{
    static std::atomic<int> x, y; x = 0; y = 0; static int a, b; a = b = 0;
    std::thread t([=] { x.store(1, (std::memory_order)S); if (fence) std::atomic_thread_fence(std::memory_order_seq_cst); a = y.load((std::memory_order)L); });
    y.store(1, (std::memory_order)S); if (fence) std::atomic_thread_fence(std::memory_order_seq_cst); b = x.load((std::memory_order)L); t.join(); mc_outcome(a * 2 + b);
    if (!a && !b) mc_fail("dekker", "neither has seen the other's");
}
static void coherent(int)
{
    static std::atomic<int> x; static std::atomic<bool> f; x = 0; f = false;
    std::thread t([] { x.store(1, std::memory_order_relaxed); x.store(2, std::memory_order_relaxed); f.store(true, std::memory_order_release); });
    const int a = x.load(std::memory_order_relaxed), b = x.load(std::memory_order_relaxed); if (a > b) mc_fail("coherence", "%d after %d", b, a);
    if (f.load(std::memory_order_acquire) && x.load(std::memory_order_relaxed) != 2) mc_fail("coherence", "published, but not seen"); mc_outcome(a * 3 + b);
    t.join(); MC_CHECK(x.load(std::memory_order_relaxed) == 2, "joined"); x.fetch_add(1, std::memory_order_relaxed); MC_CHECK(x.load(std::memory_order_relaxed) == 3, "own");
}
static void mp(int) { static std::atomic<int> x, f; x = f = 0; std::thread t([] { x.store(1, std::memory_order_relaxed); f.store(1, std::memory_order_relaxed); }); if (f.load(std::memory_order_relaxed) && !x.load(std::memory_order_relaxed)) mc_fail("mp", "seen out of order"); t.join(); }
static void thirdparty(int)
{
    static std::atomic<int> x; x = 0; std::atomic<int> f{0}; int seen = 0;
    std::thread t([] { x.store(1, std::memory_order_relaxed); }), u([&] { seen = x.load(std::memory_order_relaxed); f.store(1, std::memory_order_release); });
    if (f.load(std::memory_order_acquire)) { const int mine = x.load(std::memory_order_relaxed); if (seen && !mine) mc_fail("coherence", "what somebody else saw before is not seen"); }
    t.join(); u.join();
}
static void onstack(int) { auto f = [] { std::atomic<int> x{7}; std::thread t([&] { x.store(8, std::memory_order_relaxed); }); t.join(); MC_CHECK(x.load(std::memory_order_relaxed) == 8, "v"); }; f(); f(); }
static void settled(int rest)
{
    static std::atomic<int> x; x = 0; std::thread t([] { x.store(1, std::memory_order_relaxed); mc_hb_none_raise(0); });
    if (rest) mc_quiesce(); else if (!mc_hb_none_get(0)) { t.join(); return; } else std::this_thread::sleep_for(std::chrono::seconds(1));
    MC_CHECK(x.load(std::memory_order_relaxed) == 1, "not seen, though time has passed"); t.join();
}
MC_SCENARIO("T", "bad-dekker-release", (dekker<3, 2>), nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-dekker-relaxed-load", (dekker<5, 0>), nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "bad-dekker-relaxed-store", (dekker<0, 5>), nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-dekker-seq-cst", (dekker<5, 5>), nullptr, 0, 4, 4, 0);
MC_SCENARIO("T", "ok-dekker-fence", (dekker<0, 0>), nullptr, 1, 4, 4, 0);
MC_SCENARIO("T", "ok-coherent", coherent, nullptr, 0, 5, 5, 0);
MC_SCENARIO("T", "ok-settled-rest", settled, nullptr, 1, 4, 4, 0);
MC_SCENARIO("T", "ok-settled-sleep", settled, nullptr, 0, 4, 4, 0);
MC_SCENARIO("T", "bad-mp-mp", mp, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-thirdparty", thirdparty, nullptr, 0, 5, 5, 0);
MC_SCENARIO("T", "ok-onstack", onstack, nullptr, 0, 4, 4, 0);
MC_SCENARIO("T", "bad-weak-weak", weakbad, nullptr, 0, 1, 1, 0);
MC_SCENARIO("T", "ok-weak", weakok, nullptr, 0, 3, 3, 0);
MC_SCENARIO("T", "ok-wp", wp, nullptr, 0, 3, 3, 0);
