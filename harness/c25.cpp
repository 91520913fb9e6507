// C25: the library has no data race of its own.
// The runtime reports every unordered pair of accesses; here all pairs of operations that may be used concurrently meet.
#include "common.h"
#include "large.h"
#include "oqpi/parallel_algorithms/parallel_for.hpp"
#include "oqpi/parallel_algorithms/atomic_partitioner.hpp"

static sched_t *g_s;
static long g_in[4], g_out[4];                      // written before a task is handed in, read by it; written by it, read after a wait
struct note_ctx : task_context_base { int pre = 0, post = 0; std::string name; note_ctx(task_base *p, const std::string &n) : task_context_base(p, n), name(n) {} void onPreExecute() { ++pre; } void onPostExecute() { ++post; name += "!"; } };
struct gnote_ctx : group_context_base { int pre = 0, post = 0, added = 0; gnote_ctx(task_group_base *p, const std::string &n) : group_context_base(p, n) {} void onPreExecute() { ++pre; } void onPostExecute() { post += pre + added; } void onTaskAdded(const task_handle &) { ++added; } };
using tctx = task_context_container<note_ctx>; using gctx = group_context_container<gnote_ctx>;
static void run(int i) { MC_CHECK(g_in[i] == 1000 + i, "not-visible"); g_out[i] = g_in[i]; }
template <task_type T = task_type::waitable> static auto task_of(int i) { g_in[i] = 1000 + i; g_out[i] = 0; return oqpi::make_task<T, evt_t, tctx>("t", task_priority::normal, [i] { run(i); return std::string(40, char('a' + i)); }); }
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void end() { g_s->stop(); delete g_s; }

enum { TASK, FORK, SEQUENCE, FORK_MEMBER, SEQ_MEMBER, CAPPED };
static bool is_group(int k) { return k == FORK || k == SEQUENCE || k == CAPPED; }
static task_handle make(int kind, task_handle *target)
{
    if (kind == TASK) { *target = task_handle(task_of(0)); return *target; }
    task_group_sptr g; if (kind == FORK || kind == FORK_MEMBER || kind == CAPPED) g = oqpi::make_parallel_group<task_type::waitable, gctx>(*g_s, "g", task_priority::normal, 2, kind == CAPPED ? 1 : 0); else g = oqpi::make_sequence_group<task_type::waitable, gctx>(*g_s, "g", task_priority::normal);
    task_handle m(task_of(0)); g->addTask(m); g->addTask(task_handle(task_of<task_type::fire_and_forget>(1)));
    task_handle h(g); *target = is_group(kind) ? h : m; return h;
}
// the operations; k is the handle whose copy this thread has, top what has to be scheduled for it
static int operations(int kind) { return kind == SEQ_MEMBER || kind == SEQUENCE ? 11 : 13; }
static void operate(int op, task_handle &h, const task_handle &top, int kind)
{
    switch (op)
    {
        case 0: h.wait(); MC_CHECK(h.isDone(), "not-done"); MC_CHECK(g_out[0] == 1000, "not-visible"); if (is_group(kind)) MC_CHECK(g_out[1] == 1001, "not-visible"); break;
        case 1: if (h.isDone()) MC_CHECK(g_out[0] == 1000, "not-visible"); break;
        case 2: (void)h.isGrabbed(); break;
        case 3: { auto p = h.getParentGroup(); if (p) { (void)p->isDone(); (void)p->getUID(); } break; }
        case 4: MC_CHECK(h.getPriority() == task_priority::normal && h.getUID() != 0, "wrong"); break;
        case 5: { task_handle c(h); h.reset(); (void)c.isDone(); break; }
        case 6: g_s->add(top); break;
        case 7: (void)g_s->isIdle(); break;
        case 8: g_in[3] = 1003; g_s->add(mk_ff([] { MC_CHECK(g_in[3] == 1003, "not-visible"); })); break;
        case 9: g_s->waitUntilIdle(std::chrono::milliseconds(1), std::chrono::milliseconds(2)); break;
        case 10: MC_CHECK(g_s->workersTotalCount() == g_s->workersCount(task_priority::high), "wrong"); break;
        case 11: h.activeWait(); MC_CHECK(h.isDone() && g_out[0] == 1000, "not-visible"); break;
        case 12: if (h.tryGrab()) h.execute(); break;
    }
}
// every pair of operations, by two threads, while a worker executes what they are about
template <int W> static void pairs(int kind)
{
    const int a = mc_choose(operations(kind)), b = mc_choose(a + 1);   // the two threads are alike
    if (a == 8 && b == 8) return;                                      // (both would write the same variable of the scenario)
    begin(W);
    {
        task_handle t; task_handle top = make(kind, &t);
        std::thread x([a, kind, h = t, top]() mutable { operate(a, h, top, kind); }), y([b, kind, h = t, top]() mutable { operate(b, h, top, kind); });
        g_s->add(top); top.wait(); x.join(); y.join(); MC_CHECK(g_out[0] == 1000, "not-visible");
    }
    end();
}
// the same with the thread that hands it in doing one of the operations, and results and contexts read afterwards
template <int W> static void with_result(int)
{
    begin(W);
    {
        auto t = task_of(0); task_handle h(t); const int a = mc_choose(13), b = mc_choose(3);
        std::thread x([a, h]() mutable { operate(a, h, h, TASK); });
        g_s->add(h); if (b == 0) t->wait(); else if (b == 1) t->activeWait(); else MC_CHECK(t->waitForResult() == std::string(40, 'a'), "wrong");
        MC_CHECK(t->getResult() == std::string(40, 'a') && t->isDone(), "not-visible"); note_ctx &c = *t; MC_CHECK(c.pre == 1 && c.post == 1 && c.name == "t!", "not-visible");
        x.join();
    }
    end();
}
static void group_context(int kind)
{
    begin(1);
    {
        auto go = [&](auto g) { g->addTask(task_handle(task_of(0))); g->addTask(task_handle(task_of<task_type::fire_and_forget>(1))); task_handle h(g); std::thread x([h]() mutable { h.wait(); }); g_s->add(h); if (kind == FORK) h.activeWait(); else h.wait(); gnote_ctx &c = *g; MC_CHECK(c.post == 3, "not-visible"); x.join(); };
        if (kind == FORK) go(oqpi::make_parallel_group<task_type::waitable, gctx>(*g_s, "g", task_priority::normal, 2)); else go(oqpi::make_sequence_group<task_type::waitable, gctx>(*g_s, "g", task_priority::normal));
    }
    end();
}
// starting and stopping while others hand in, ask and wait
static void life(int)
{
    g_s = new sched_t; add_workers(*g_s, 1); const int a = mc_choose(3), b = mc_choose(5);
    task_handle h(task_of(0));
    std::thread x([b, h]() mutable { switch (b) { case 0: g_s->add(h); break; case 1: (void)g_s->isIdle(); break; case 2: g_s->waitUntilIdle(std::chrono::milliseconds(1), std::chrono::milliseconds(2)); break; case 3: g_s->add(h); h.activeWait(); break; case 4: (void)h.isDone(); (void)g_s->workersCount(task_priority::low); } });
    g_s->start(); if (a) { g_s->add(h); } if (a == 2) { g_s->stop(); g_s->start(); }
    x.join(); g_s->stop(); if (h.isDone()) MC_CHECK(g_out[0] == 1000, "not-visible"); delete g_s;
}
// a task's function, arguments and captures pass from the thread that made them through the queue to the worker and back
struct payload { std::vector<std::string> v; payload() : v{ std::string(40, 'x'), "y" } {} };
template <int W> static void payloads(int how)
{
    begin(W);
    {
        auto in = std::make_shared<payload>(); std::weak_ptr<payload> w = in; payload mine;
        auto t = oqpi::make_task<task_type::waitable, evt_t, empty_task_context>("t", task_priority::normal, [in, &mine](payload p, std::string s) { in->v.push_back(s); mine.v.push_back(p.v[0]); return p; }, payload(), std::string(50, 'z'));
        in.reset(); g_s->add(task_handle(t));
        if (how) { std::thread x([t] { payload p = t->waitForResult(); MC_CHECK(p.v[0].size() == 40, "wrong"); }); x.join(); } else { payload p = t->waitForResult(); p.v.clear(); }
        MC_CHECK(mine.v.size() == 3, "not-visible"); auto l = w.lock(); MC_CHECK(l && l->v.size() == 3, "not-visible");
    }
    end();
}
// a chain: each task hands in the next; the last signals
static void chain(int)
{
    begin(2); { evt_t e; g_data[0] = 1; g_s->add(mk_ff([&] { g_data[0]++; g_s->add(mk_ff([&] { g_data[0]++; e.notify(); })); })); e.wait(); MC_CHECK(g_data[0] == 3, "not-visible"); } end();
}
// two parallel-fors at the same time over shared read-only data
static void loops(int)
{
    begin(1); static int in[3], out[2][3]; for (int i = 0; i < 3; ++i) in[i] = i + 1;
    auto f = [](int k) { oqpi::parallel_for<evt_t, gctx, tctx>(*g_s, "l", atomic_partitioner(3, 1, 2), task_priority::normal, [k](int32_t i) { out[k][i] = in[i]; }); for (int i = 0; i < 3; ++i) MC_CHECK(out[k][i] == i + 1, "not-visible"); };
    std::thread x([&] { f(1); }); f(0); x.join(); end();
}
// --- synchronization objects: every pair of operations ------------------------------------------
template <typename E> static void events(int manual)
{
    E e; const int a = mc_choose(manual ? 6 : 5), b = mc_choose(a + 1);
    auto op = [&](int o) { switch (o) { case 0: e.notify(); break; case 1: e.waitFor(std::chrono::milliseconds(1)); break; case 2: (void)e.isValid(); break; case 3: (void)e.getNativeHandle(); break; case 4: e.waitFor(std::chrono::seconds(0)); break; case 5: if constexpr (std::is_same<E, evt_t>::value) e.reset(); break; } };
    std::thread x([&] { op(a); }); op(b); x.join();
}
static void semaphores(int)
{
    sem_if s(mc_choose(2), 4); const int a = mc_choose(7), b = mc_choose(a + 1);
    auto op = [&](int o) { switch (o) { case 0: s.notify(2); break; case 1: s.waitFor(std::chrono::milliseconds(1)); break; case 2: (void)s.isValid(); break; case 3: (void)s.tryWait(); break; case 4: s.notifyOne(); break; case 5: s.notifyAll(); break; case 6: (void)s.getNativeHandle(); break; } };
    std::thread x([&] { op(a); }); op(b); x.join();
}
using mutex_t = oqpi::mutex_interface<global_sync_object>;
static void mutexes(int)
{
    mutex_t m("m", sync_object_creation_options::create_if_nonexistent, false); MC_CHECK(m.isValid(), "wrong"); const int a = mc_choose(4), b = mc_choose(a + 1);
    auto op = [&](int o, mutex_t &m) { bool got = false; switch (o) { case 0: got = m.lock(); break; case 1: got = m.tryLock(); break; case 2: got = m.tryLockFor(std::chrono::milliseconds(1)); break; case 3: (void)m.isValid(); break; } if (got) { g_data[0]++; m.unlock(); } };
    const bool own = mc_choose(2); std::thread x([&] { if (own) { mutex_t k("m", sync_object_creation_options::open_existing, false); op(a, k); } else op(a, m); }); op(b, m); x.join();
}
// what is written before a signal is visible after the wait for it
static void signals(int how)
{
    evt_t e; auto_reset_event_interface<> r; sem_if s(0, 4);
    auto signal = [&] { if (how == 0) e.notify(); else if (how == 1) r.notify(); else s.notify(2); };
    auto await = [&] { const bool timed = mc_choose(2); if (!timed) { if (how == 0) e.wait(); else if (how == 1) r.wait(); else s.wait(); return true; } const auto d = std::chrono::milliseconds(1); return how == 0 ? e.waitFor(d) : how == 1 ? r.waitFor(d) : s.waitFor(d); };
    std::thread x([&] { if (await()) MC_CHECK(g_data[0] == 5, "not-visible"); }); std::unique_ptr<std::thread> y; if (how != 1) y.reset(new std::thread([&] { if (await()) MC_CHECK(g_data[0] == 5, "not-visible"); }));
    g_data[0] = 5; signal(); x.join(); if (y) y->join();
}
// the queue, holding something with a heap of its own
static void queue(int)
{
    concurrent_queue<std::string> q; const int a = mc_choose(4), b = mc_choose(a + 1); q.push(std::string(40, 'a'));
    auto op = [&](int o) { std::string s; switch (o) { case 0: q.push(std::string(40, 'b')); break; case 1: { const std::string c(40, 'c'); q.push(c); break; } case 2: if (q.tryPop(s)) MC_CHECK(s.size() == 40, "wrong"); break; case 3: (void)q.empty(); break; } };
    std::thread x([&] { op(a); op(2); }); op(b); op(2); x.join();
}
// threads: what the launcher wrote is visible to the function, what the function wrote is visible after join
static void threads(int)
{
    g_data[0] = 3; std::vector<std::string> v{ std::string(40, 'v') };
    thr_t t("t", [&v](std::vector<std::string> w) { MC_CHECK(g_data[0] == 3 && w.size() == 1, "not-visible"); g_data[0] = 4; v.push_back(w[0]); this_thread::sleep_for(std::chrono::milliseconds(1)); this_thread::yield(); }, v);
    thr_t u("u", [] { g_data[1] = 1; }); thr_t k(std::move(t)); k.join(); u.join(); MC_CHECK(g_data[0] == 4 && v.size() == 2 && g_data[1] == 1, "not-visible");
}
// threads created, configured and asked about from several threads at once
static void thread_users(int how)
{
    auto use = [how] { thread_attributes a("a"); if (how & 1) a.priority_ = thread_priority(how & 2 ? 4 : 1); if (how & 2) a.coreAffinityMask_ = core0; thr_t t(a, [] { this_thread::yield(); }); const auto hc = thr_t::hardware_concurrency(); t.join(); MC_CHECK(hc == 4, "core-count"); };
    mc_env_nproc(4); mc_env_rtprio(1); std::thread o(use); use(); o.join();
}
MC_SCENARIO("C25", "thread-users", thread_users, nullptr, 0, 1, 3, 0); MC_SCENARIO("C25", "thread-users-priority", thread_users, nullptr, 1, 1, 3, 0); MC_SCENARIO("C25", "thread-users-affinity", thread_users, nullptr, 3, 1, 3, 0);
#define P2(name, k, q1, t1, q2, t2) MC_SCENARIO("C25", name, pairs<1>, nullptr, k, q1, t1, 0); MC_SCENARIO("C25", name "-two-workers", pairs<2>, nullptr, k, q2, t2, 0)
P2("task", TASK, 1, 3, 0, 1); P2("fork", FORK, 1, 2, 0, 1); P2("sequence", SEQUENCE, 1, 2, 0, 1); P2("fork-member", FORK_MEMBER, 1, 2, 0, 1); P2("sequence-member", SEQ_MEMBER, 1, 2, 0, 1); P2("capped-fork", CAPPED, 1, 2, 0, 1);
MC_SCENARIO("C25", "result", with_result<1>, nullptr, 0, 2, 5, 0); MC_SCENARIO("C25", "result-two-workers", with_result<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C25", "fork-context", group_context, nullptr, FORK, 2, 5, 0); MC_SCENARIO("C25", "sequence-context", group_context, nullptr, SEQUENCE, 2, 5, 0);
MC_SCENARIO("C25", "life", life, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C25", "payload", payloads<1>, nullptr, 0, 3, 9, 0); MC_SCENARIO("C25", "payload-elsewhere", payloads<2>, nullptr, 1, 1, 3, 0);
MC_SCENARIO("C25", "chain", chain, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C25", "parallel-fors", loops, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C25", "manual-reset-event", events<evt_t>, nullptr, 1, 9, 99, 0); MC_SCENARIO("C25", "auto-reset-event", events<auto_reset_event_interface<>>, nullptr, 0, 9, 99, 0);
MC_SCENARIO("C25", "semaphore", semaphores, nullptr, 0, 9, 99, 0); MC_SCENARIO("C25", "mutex", mutexes, nullptr, 0, 9, 99, 0);
MC_SCENARIO("C25", "manual-reset-signal", signals, nullptr, 0, 4, 9, 0); MC_SCENARIO("C25", "auto-reset-signal", signals, nullptr, 1, 9, 99, 0); MC_SCENARIO("C25", "semaphore-signal", signals, nullptr, 2, 4, 9, 0);
MC_SCENARIO("C25", "queue", queue, nullptr, 0, 9, 99, 0); MC_SCENARIO("C25", "threads", threads, nullptr, 0, 4, 9, 0);
MC_SCENARIO("C25", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
