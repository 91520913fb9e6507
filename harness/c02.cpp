// C02: waits return after completion, and always return; results and effects are visible.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static void begin(int workers) { g_s = new sched_t; if (workers) { add_workers(*g_s, workers); g_s->start(); } }
static void end() { g_s->stop(); delete g_s; }
struct big { int a, b; };
// What a waiter must find after its wait
static void done(const task_handle &h, int i)
{
    if (!h.isDone()) mc_fail("not-done-after-wait", "a wait on task %d returned but it does not report done", i);
    if (g_data[i] != 42 + i) mc_fail("wait-before-completion", "a wait on task %d returned before its function had completed", i);
}
static void work(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; g_data[i] = 42 + i; }

enum { WAIT, ACTIVE, TWICE, POLL };
static void wait_by(task_handle h, int how, int i)
{
    switch (how)
    {
    case WAIT: h.wait(); break;
    case ACTIVE: h.activeWait(); break;
    case TWICE: h.wait(); done(h, i); h.wait(); break;
    case POLL: if (!h.isDone()) return; break;
    }
    done(h, i);
}
// main and another thread wait, in every combination of ways, before/during/after the execution
template <int W> static void two_waiters(int mode)
{
    begin(W);
    {
        task_handle h(mk([] { work(0); }));
        static task_handle *ph; ph = &h;
        std::thread t([mode] { wait_by(*ph, mode & 15, 0); });
        g_s->add(h);
        wait_by(h, mode >> 4, 0);
        t.join();
        h.wait(); done(h, 0);
    }
    end();
}
// a waiter that arrives strictly before the task is handed in, and one strictly after it is done
static void before_and_after(int)
{
    begin(1);
    {
        task_handle h(mk([] { work(0); }));
        static task_handle *ph; ph = &h;
        std::thread t([] { mc_hb_none_raise(0); ph->wait(); done(*ph, 0); });
        mc_hb_none_wait(0); mc_quiesce();
        if (h.isDone()) mc_fail("done-too-early", "done before it was executed");
        g_s->add(h);
        t.join();
        h.wait(); done(h, 0); h.activeWait(); done(h, 0);
    }
    end();
}
// results
template <int W> static void results(int active)
{
    begin(W);
    {
        auto sp = mk([]() -> int { work(0); return 7; });
        auto sq = mk([]() -> big { work(1); return big{ 3, 4 }; });
        static decltype(sp) *psp; static decltype(sq) *psq; psp = &sp; psq = &sq;
        std::thread t([] { big b = (*psq)->waitForResult(); done(H(*psq), 1); MC_CHECK(b.a == 3 && b.b == 4, "wrong-result"); });
        g_s->add(H(sp)); g_s->add(H(sq));
        if (active) { sp->activeWait(); MC_CHECK(sp->getResult() == 7, "wrong-result"); }
        else MC_CHECK(sp->waitForResult() == 7, "wrong-result");
        done(H(sp), 0);
        t.join();
        MC_CHECK(sp->getResult() == 7 && sq->getResult().a == 3 && sq->waitForResult().b == 4, "wrong-result");
    }
    end();
}
// results that own memory: every waiter, and everybody who asks again, finds the same value
static std::string text_of(int n) { return std::string(40 + n, 'x'); }
template <int W> static void owned_results(int how)
{
    begin(W);
    {
        auto sp = mk([]() -> std::string { work(0); return text_of(0); });
        auto sv = mk([]() -> std::vector<std::string> { work(1); return { text_of(1), text_of(2) }; });
        auto sh = mk([]() -> std::shared_ptr<int> { work(2); return std::make_shared<int>(6); });
        static decltype(sp) *psp; psp = &sp;
        std::thread t([] { for (int k = 0; k < 2; ++k) { MC_CHECK((*psp)->waitForResult() == text_of(0), "wrong-result"); done(H(*psp), 0); } });
        g_s->add(H(sp)); g_s->add(H(sv)); g_s->add(H(sh));
        for (int k = 0; k < 2; ++k)
        {
            if (how) { sp->activeWait(); MC_CHECK(sp->getResult() == text_of(0), "wrong-result"); }
            else MC_CHECK(sp->waitForResult() == text_of(0), "wrong-result");
            const auto v = sv->waitForResult(); MC_CHECK(v.size() == 2 && v[0] == text_of(1) && v[1] == text_of(2), "wrong-result");
            const auto p = sh->waitForResult(); MC_CHECK(p && *p == 6, "wrong-result");
        }
        t.join();
        MC_CHECK(sp->getResult() == text_of(0) && sv->getResult().size() == 2 && sh->getResult() && *sh->getResult() == 6, "wrong-result");
    }
    end();
}
// a poller reads the result as soon as the task reports done
template <int W> static void poller(int)
{
    begin(W);
    {
        auto sp = mk([]() -> int { work(0); return 7; });
        static decltype(sp) *psp; psp = &sp;
        std::thread t([] { for (int k = 0; k < 3; ++k) if ((*psp)->isDone()) { done(H(*psp), 0); MC_CHECK((*psp)->getResult() == 7, "wrong-result"); mc_outcome(1); } });
        g_s->add(H(sp));
        t.join();
        sp->wait();
        done(H(sp), 0);
    }
    end();
}
// a task waits on another one
template <int W> static void from_task(int active)
{
    begin(W);
    {
        static task_handle a, b;
        a = H(mk([] { work(0); }));
        if (active) b = H(mk([] { a.activeWait(); done(a, 0); work(1); }));
        else b = H(mk([] { a.wait(); done(a, 0); work(1); }));
        g_s->add(b); g_s->add(a);
        b.wait(); done(b, 1); done(a, 0);
        a.reset(); b.reset();
    }
    end();
}
// three waiters on one task
static void three(int)
{
    begin(1);
    {
        task_handle h(mk([] { work(0); }));
        static task_handle *ph; ph = &h;
        std::thread t([] { wait_by(*ph, WAIT, 0); });
        std::thread u([] { wait_by(*ph, WAIT, 0); });
        g_s->add(h);
        wait_by(h, WAIT, 0);
        t.join(); u.join();
    }
    end();
}
// another thread waits while one executes it on the spot; tasks of groups can be waited for too, whatever their priority
template <int W> static void executed_here(int kind)
{
    begin(W);
    {
        task_handle a(mk([] { work(0); }, task_priority::low)), b(mk([] { work(1); }, task_priority::high)), g = a;
        if (kind & 3) { task_group_sptr p; if ((kind & 3) == 1) p = mk_fork(*g_s); else p = mk_seq(*g_s); p->addTask(a); p->addTask(b); g = task_handle(p); }
        static task_handle *pa, *pb, *pg; pa = &a; pb = &b; pg = &g; static int k; k = kind;
        std::thread t([] { if (k & 4) { pa->wait(); done(*pa, 0); if (k & 3) { pb->wait(); done(*pb, 1); } } pg->wait(); done(*pa, 0); MC_CHECK(pg->isDone(), "not-done-after-wait"); if (k & 3) done(*pb, 1); });
        if (W) g_s->add(g);
        g.executeSingleThreaded(); g.wait(); done(a, 0); if (kind & 3) done(b, 1); MC_CHECK(g.isDone(), "not-done-after-wait");
        t.join();
    }
    if (W) end(); else delete g_s;
}
// every priority, also when it is inherited, directly and through nested groups
template <int W> static void priorities(int)
{
    begin(W);
    {
        const int n = int(task_priority::count), p = mc_choose(n), q = mc_choose(n + 1), shape = mc_choose(3);
        task_handle a(mk([] { work(0); }, shape ? task_priority(q < n ? q : p) : task_priority(p))), g = a, o;
        if (q == n && shape) a = H(mk([] { work(0); }, task_priority::inherit));
        if (shape) { auto f = shape == 1 ? task_group_sptr(mk_fork(*g_s, 0, task_priority(p))) : task_group_sptr(mk_seq(*g_s, task_priority(p))); f->addTask(a); g = task_handle(f); }
        static task_handle *pa; pa = &a; std::thread t([] { pa->wait(); done(*pa, 0); });
        g_s->add(g); g.wait(); done(a, 0); t.join();
    }
    end();
}
// no scheduler at all: two threads that actively wait, one of which executes
static void active_only(int)
{
    begin(0);
    {
        auto sp = mk([]() -> int { work(0); return 5; });
        static decltype(sp) *psp; psp = &sp;
        std::thread t([] { (*psp)->activeWait(); done(H(*psp), 0); MC_CHECK((*psp)->getResult() == 5, "wrong-result"); });
        sp->activeWait(); done(H(sp), 0); MC_CHECK(sp->waitForResult() == 5, "wrong-result");
        t.join();
    }
    delete g_s;
}
// waiting on a group and on its members at once
template <int W, bool SEQ> static void group_members(int)
{
    begin(W);
    {
        task_handle a(mk([] { work(0); })), b(mk([] { work(1); }));
        static task_handle *pb, *pg; pb = &b;
        task_handle g;
        if (SEQ) { auto s = mk_seq(*g_s); s->addTask(a); s->addTask(b); g = task_handle(s); }
        else { auto f = mk_fork(*g_s); f->addTask(a); f->addTask(b); g = task_handle(f); }
        pg = &g;
        std::thread t([] { pb->wait(); done(*pb, 1); });
        g_s->add(g);
        a.wait(); done(a, 0);
        g.wait(); done(a, 0); done(b, 1); MC_CHECK(g.isDone(), "not-done-after-wait");
        t.join();
    }
    end();
}
MC_SCENARIO("C02", "wait-wait", two_waiters<1>, nullptr, WAIT | WAIT << 4, 3, 14, 0);
MC_SCENARIO("C02", "wait-active", two_waiters<1>, nullptr, WAIT | ACTIVE << 4, 3, 14, 0);
MC_SCENARIO("C02", "active-active", two_waiters<1>, nullptr, ACTIVE | ACTIVE << 4, 3, 14, 0);
MC_SCENARIO("C02", "twice-wait", two_waiters<1>, nullptr, TWICE | WAIT << 4, 3, 14, 0);
MC_SCENARIO("C02", "poll-active", two_waiters<1>, nullptr, POLL | ACTIVE << 4, 3, 14, 0);
MC_SCENARIO("C02", "wait-active-two-workers", two_waiters<2>, nullptr, WAIT | ACTIVE << 4, 2, 3, 0);
MC_SCENARIO("C02", "wait-wait-two-workers", two_waiters<2>, nullptr, WAIT | WAIT << 4, 2, 3, 0);
MC_SCENARIO("C02", "before-and-after", before_and_after, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C02", "results-wait", results<1>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C02", "results-active", results<1>, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C02", "results-two-workers", results<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C02", "owned-results-wait", owned_results<1>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C02", "owned-results-active", owned_results<1>, nullptr, 1, 1, 3, 0);
MC_SCENARIO("C02", "poller", poller<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C02", "from-task", from_task<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C02", "from-task-active-one-worker", from_task<1>, nullptr, 1, 3, 14, 0);
MC_SCENARIO("C02", "from-task-active", from_task<2>, nullptr, 1, 2, 3, 0);
MC_SCENARIO("C02", "three-waiters", three, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C02", "executed-here-task", executed_here<0>, nullptr, 0, 14, 14, 0);
MC_SCENARIO("C02", "executed-here-fork", executed_here<0>, nullptr, 5, 3, 14, 0);
MC_SCENARIO("C02", "executed-here-sequence", executed_here<0>, nullptr, 6, 3, 14, 0);
MC_SCENARIO("C02", "executed-here-group-only", executed_here<0>, nullptr, 1, 3, 14, 0);
MC_SCENARIO("C02", "executed-here-beside-worker", executed_here<1>, nullptr, 4, 3, 14, 0);
MC_SCENARIO("C02", "executed-here-fork-beside-worker", executed_here<1>, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C02", "priorities", priorities<1>, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C02", "active-only", active_only, nullptr, 0, 14, 14, 0);
MC_SCENARIO("C02", "fork-and-members", (group_members<1, false>), nullptr, 0, 2, 4, 0);
MC_SCENARIO("C02", "sequence-and-members", (group_members<1, true>), nullptr, 0, 2, 4, 0);
MC_SCENARIO("C02", "fork-and-members-two-workers", (group_members<2, false>), nullptr, 0, 1, 2, 0);
MC_SCENARIO("C02", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C02", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C02", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C02", "large-depth", large_depth, nullptr, 20, 0, 1, MC_LONG);
MC_SCENARIO("C02", "large-same", large_same, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C02", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
