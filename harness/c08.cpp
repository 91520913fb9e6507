// C08: a worker only takes tasks of the priorities it is registered for.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static const task_priority P[6] = {task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low, task_priority::inherit};
static int g_mask[3];                        // mask of worker 'a' + i
static int bit(task_priority p) { return 1 << int(p); }
static void reg(int i, int mask) { g_mask[i] = mask; const char n[2] = {char('a' + i), 0}; add_workers(*g_s, 1, worker_priority(mask), n); }
static int self() { return mc_thread_name(mc_tid())[0] - 'a'; }
// every task body asks this
static void on_worker(int prio)
{
    const int w = self();
    if (w < 0 || w > 2) mc_fail("not-on-a-worker", "task of priority %d runs on thread '%s'", prio, mc_thread_name(mc_tid()));
    if (!(g_mask[w] >> prio & 1)) mc_fail("wrong-worker", "a task of priority %d was executed by a worker registered for mask %#x", prio, g_mask[w]);
}
static const int NAMED[9] = {1, 2, 4, 8, 16, 14, 30, 15, 31};
static void named_values()
{
    MC_CHECK(int(worker_priority::wprio_high) == 1 && int(worker_priority::wprio_above_normal) == 2 && int(worker_priority::wprio_normal) == 4 && int(worker_priority::wprio_below_normal) == 8 && int(worker_priority::wprio_low) == 16, "priority-sets");
    MC_CHECK(int(worker_priority::wprio_any_normal) == 14 && int(worker_priority::wprio_normal_or_low) == 30 && int(worker_priority::wprio_normal_or_high) == 15 && int(worker_priority::wprio_any) == 31, "priority-sets");
}
// two workers: masks a and b (union: everything), two tasks of any priorities
static void split(int how)
{
    named_values();
    g_s = new sched_t;
    const int a = how & 1 ? NAMED[mc_choose(9)] : 1 + mc_choose(30), b = mc_choose(2) ? 31 : 31 & ~a;
    if (!b) { reg(0, a); } else if (mc_choose(2)) { reg(0, a); reg(1, b); } else { reg(1, b); reg(0, a); }
    g_s->start();
    {
        const int p = mc_choose(5), q = how & 2 ? p : mc_choose(5);
        task_handle x(mk([p] { on_worker(p); MC_CHECK(g_ran[0]++ == 0, "executed-twice"); }, P[p])), y(mk([q] { on_worker(q); MC_CHECK(g_ran[1]++ == 0, "executed-twice"); }, P[q]));
        g_s->add(x); g_s->add(y);
        x.wait(); y.wait();
        MC_CHECK(g_ran[0] == 1 && g_ran[1] == 1, "not-executed-once");
    }
    g_s->stop(); delete g_s;
}
// one of the workers is busy for good: the other one takes what it may, and nothing else
static void busy(int how)
{
    g_s = new sched_t;
    static const int cfg[6][2] = {{31, 31}, {31, 1}, {31, 16}, {15, 30}, {1, 30}, {14, 17}};
    const int c = mc_choose(6), sw = mc_choose(2);
    reg(0, cfg[c][sw]); reg(1, cfg[c][1 - sw]);
    if (how & 1) g_s->start();
    {
        static int blocked; static int bp;
        bp = mc_choose(5); const int p = mc_choose(5);
        g_s->add(H(mk_ff([] { on_worker(bp); blocked = self(); mc_hb_none_raise(1); mc_hb_none_wait(2); }, P[bp])));
        if (!(how & 1)) g_s->start();
        mc_hb_none_wait(1);
        const int other = (g_mask[0] >> bp & 1) && (g_mask[1] >> bp & 1) ? -1 : (g_mask[0] >> bp & 1) ? 1 : 0;   // the worker left, if it is known which
        task_handle x(mk([p] { on_worker(p); mc_hb_none_raise(3); }, P[p]));
        g_s->add(x);
        mc_quiesce();
        const bool ran = mc_hb_none_get(3);
        const int left = other >= 0 ? g_mask[other] : c == 0 ? 31 : -1;
        if (left >= 0 && ran != bool(left >> p & 1)) mc_fail(ran ? "wrong-worker" : "pending-with-idle-worker", "priority %d, worker left has mask %#x", p, left);
        if (left < 0 && !ran && (g_mask[0] >> p & 1) && (g_mask[1] >> p & 1)) mc_fail("pending-with-idle-worker", "priority %d, both workers could take it", p);
        mc_hb_none_raise(2);
        x.wait();
    }
    g_s->stop(); delete g_s;
}
// inherited priorities are resolved before the worker is chosen
static void inherited(int how)
{
    g_s = new sched_t;
    reg(0, 31 & ~bit(P[1])); reg(1, 1 << 1 | 1 << 4);
    g_s->start();
    {
        const int a = mc_choose(5), m1 = mc_choose(2) ? 5 : mc_choose(5);
        task_handle h;
        auto body = [](int k, int p) { return [k, p] { on_worker(p); MC_CHECK(g_ran[k]++ == 0, "executed-twice"); }; };
        // the first member is executed by whoever executes the group, hence under the group's priority
        auto fill = [&](auto g) { g->addTask(H(mk_ff(body(0, a), task_priority::inherit))); g->addTask(H(mk_ff(body(1, m1 == 5 ? a : m1), P[m1]))); return task_handle(g); };
        if (how & 1) h = fill(mk_seq(*g_s, P[a])); else h = fill(mk_fork(*g_s, 0, P[a]));
        g_s->add(h); h.wait();
        MC_CHECK(g_ran[0] == 1 && g_ran[1] == 1, "not-executed-once");
    }
    g_s->stop(); delete g_s;
}
// a worker per priority
static void one_each(int)
{
    g_s = new sched_t;
    for (int i = 0; i < 3; ++i) reg(i, i == 0 ? 1 : i == 1 ? 14 : 16);
    g_s->start();
    {
        const int p = mc_choose(5), q = mc_choose(5);
        std::thread t([q] { task_handle y(mk([q] { on_worker(q); }, P[q])); g_s->add(y); y.wait(); });
        task_handle x(mk([p] { on_worker(p); }, P[p])); g_s->add(x); x.wait();
        t.join();
    }
    g_s->stop(); delete g_s;
}
// counts
static void counts(int how)
{
    g_s = new sched_t;
    worker_config c[3]; int per[5] = {0, 0, 0, 0, 0}, total = 0;
    for (auto &x : c)
    {
        x.workerPrio = worker_priority(how & 1 ? NAMED[mc_choose(9)] : mc_choose(32)); x.count = mc_choose(3); x.threadAttributes.name_ = "w";
        total += x.count; for (int p = 0; p < 5; ++p) if (int(x.workerPrio) >> p & 1) per[p] += x.count;
        if (how & 2) break;
    }
    switch (mc_choose(how & 2 ? 2 : 3))
    {
        case 0: if (how & 2) g_s->registerWorker<thr_t, sem_if>(c[0]); else for (auto &x : c) g_s->registerWorker<thr_t, sem_if>(x); break;
        case 1: if (how & 2) g_s->registerWorker<thr_t, sem_if, empty_worker_context>(c[0]); else g_s->registerWorkers<thr_t, sem_if>(c); break;
        case 2: g_s->registerWorkers<thr_t, sem_if, empty_worker_context>(c); break;
    }
    auto look = [&] {
        MC_CHECK(g_s->workersTotalCount() == total, "total-count");
        for (int p = 0; p < 5; ++p) if (g_s->workersCount(P[p]) != per[p]) mc_fail("priority-count", "%d workers for priority %d, registered %d", g_s->workersCount(P[p]), p, per[p]);
    };
    look();
    bool all = total <= 3; for (int p : per) all = all && p > 0;
    if (all) { g_s->start(); look(); MC_CHECK(mc_live_threads() == 1 + total, "thread-count"); g_s->stop(); look(); }
    delete g_s;
}
// several configurations at once, in an array of any size
template <int N> static void array_of(int ctx)
{
    g_s = new sched_t; worker_config c[N]; int per[5] = {0, 0, 0, 0, 0}, total = 0; const int odd = mc_choose(N), first = mc_choose(9);
    for (int i = 0; i < N; ++i)
    {
        c[i].workerPrio = worker_priority(NAMED[(first + i * 2) % 9]); c[i].count = i == odd ? 3 : 1 + i % 2; c[i].threadAttributes.name_ = "w"; total += c[i].count;
        for (int p = 0; p < 5; ++p) if (int(c[i].workerPrio) >> p & 1) per[p] += c[i].count;
    }
    if (ctx) g_s->registerWorkers<thr_t, sem_if, empty_worker_context>(c); else g_s->registerWorkers<thr_t, sem_if>(c);
    MC_CHECK(g_s->workersTotalCount() == total, "total-count");
    for (int p = 0; p < 5; ++p) if (g_s->workersCount(P[p]) != per[p]) mc_fail("priority-count", "%d workers for priority %d, registered %d", g_s->workersCount(P[p]), p, per[p]);
    delete g_s;
}
static void arrays(int)
{
    const int ctx = mc_choose(2);
    switch (mc_choose(9)) { case 0: array_of<1>(ctx); break; case 1: array_of<2>(ctx); break; case 2: array_of<4>(ctx); break; case 3: array_of<5>(ctx); break; case 4: array_of<6>(ctx); break; case 5: array_of<8>(ctx); break; case 6: array_of<9>(ctx); break; case 7: array_of<16>(ctx); break; case 8: array_of<17>(ctx); break; }
}
MC_SCENARIO("C08", "arrays", arrays, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C08", "split-one-priority", split, nullptr, 2, 1, 1, 0);
MC_SCENARIO("C08", "split-two-priorities", split, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C08", "named-sets", split, nullptr, 1, 0, 1, 0);
MC_SCENARIO("C08", "other-busy", busy, nullptr, 1, 1, 1, 0);
MC_SCENARIO("C08", "other-busy-before-start", busy, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C08", "fork-inherited", inherited, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C08", "sequence-inherited", inherited, nullptr, 1, 1, 2, 0);
MC_SCENARIO("C08", "three-workers", one_each, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C08", "counts-one-set", counts, nullptr, 2, 0, 0, 0);
MC_SCENARIO("C08", "counts-named-sets", counts, nullptr, 1, 0, 0, 0);
MC_SCENARIO("C08", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C08", "large-tasks-two-workers", large_tasks_two_workers, nullptr, 40, 0, 1, MC_LONG);
static void many_workers(int)
{
    static const int COUNT[] = {1, 40, 127, 128, 255, 256, 300}; g_s = new sched_t; int per[5] = {0, 0, 0, 0, 0}, total = 0;
    for (int k = 0; k < 2; ++k) { worker_config c; c.workerPrio = worker_priority(NAMED[mc_choose(9)]); c.count = COUNT[mc_choose(k ? 3 : 7)]; c.threadAttributes.name_ = "w"; total += c.count; for (int p = 0; p < 5; ++p) if (int(c.workerPrio) >> p & 1) per[p] += c.count; g_s->registerWorker<thr_t, sem_if, empty_worker_context>(c); }
    MC_CHECK(g_s->workersTotalCount() == total, "total-count"); for (int p = 0; p < 5; ++p) if (g_s->workersCount(P[p]) != per[p]) mc_fail("priority-count", "%d workers for priority %d, registered %d", g_s->workersCount(P[p]), p, per[p]);
    delete g_s;
}
MC_SCENARIO("C08", "many-workers", many_workers, nullptr, 0, 0, 1, MC_SEQ | MC_LONG);
MC_SCENARIO("C08", "crew", crew, nullptr, 12, 1, 2, MC_DELAY);
MC_SCENARIO("C08", "crew-of-specialists", crew_of_specialists, nullptr, 0, 1, 3, MC_DELAY);
