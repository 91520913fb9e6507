// C03: a fork completes exactly when all of its members have.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static int g_members;                       // members (leaf tasks) of the outermost fork
static int g_deep, g_inner, g_first_inner = 1;      // groups (g_first_inner...) that are members of the outermost one
static int g_completed[8];                  // post-execute hooks of group i
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void work(int i) { MC_CHECK(g_data[i] == 0, "executed-twice"); g_data[i] = 1; g_data[i] = 2; }
static void all_done(const char *who)
{
    for (int i = 0; i < g_members; ++i) if (g_data[i] != 2) mc_fail("fork-completed-early", "%s, but member %d has not completed", who, i);
    for (int i = g_first_inner; i < g_first_inner + g_inner; ++i) if (g_completed[i] != 1) mc_fail("fork-completed-early", "%s, but its member group %d has not completed", who, i);
}
// counts the completions of the group it is attached to, and checks them
struct count_ctx : group_context_base
{
    int id;
    count_ctx(task_group_base *o, const std::string &n) : group_context_base(o, n), id(n[0] - '0') {}
    void onPostExecute()
    {
        if (id == 0) all_done("fork reported complete");
        if (id == 1 && g_deep && g_completed[2] != 1) mc_fail("fork-completed-early", "fork 1 reported complete before its member");
        if (++g_completed[id] != 1) mc_fail("fork-completed-twice", "fork %d was reported complete %d times", id, g_completed[id]);
    }
};
using ctx = group_context_container<count_ctx>;
template <task_type T = task_type::waitable> static auto fork_of(const char *name, int cap = 0)
{
    return oqpi::make_parallel_group<T, ctx>(*g_s, name, task_priority::normal, 0, cap);
}
template <task_type T = task_type::waitable> static auto seq_of(const char *name) { return oqpi::make_sequence_group<T, ctx>(*g_s, name, task_priority::normal); }
static void end(int groups)
{
    g_s->stop();
    for (int i = 0; i < groups; ++i) if (g_completed[i] != 1) mc_fail("fork-not-completed-once", "group %d was reported complete %d times", i, g_completed[i]);
    all_done("end of the scenario");
    delete g_s;
}
static void waited(const task_handle &g) { MC_CHECK(g.isDone(), "not-done-after-wait"); all_done("a wait on the fork returned"); }

template <int W, int N> static void flat(int how)
{
    begin(W);
    g_members = N;
    {
        auto f = fork_of("0");
        for (int i = 0; i < N; ++i) f->addTask(how & 8 ? task_handle(mk([i] { work(i); })) : task_handle(mk_ff([i] { work(i); })));
        task_handle g(f); f.reset();
        static task_handle *pg; pg = &g;
        std::unique_ptr<std::thread> t;
        if (how & 4) t.reset(new std::thread([] { pg->wait(); waited(*pg); }));
        if (how & 16) t.reset(new std::thread([] { pg->activeWait(); waited(*pg); }));
        if (how & 32) t.reset(new std::thread([] { if (pg->isDone()) waited(*pg); }));
        g_s->add(g);
        if (how & 1) g.activeWait(); else g.wait();
        waited(g);
        if (how & 2) { g.wait(); waited(g); g.activeWait(); waited(g); }
        if (t) t->join();
    }
    end(1);
}
// handed in before the workers exist
template <int W> static void before_start(int)
{
    g_s = new sched_t; add_workers(*g_s, W);
    g_members = 2;
    {
        auto f = fork_of("0"); f->addTask(H(mk_ff([] { work(0); }))); f->addTask(H(mk_ff([] { work(1); })));
        task_handle g(f);
        g_s->add(g);
        g_s->start();
        g.wait(); waited(g);
    }
    end(1);
}
// fork of [fork of 2 | sequence of 2, task]
template <int W, task_type T> static void nested(int how)
{
    begin(W);
    g_members = 3; g_inner = how & 2 ? 2 : 1;
    {
        auto f = fork_of("0");
        if (how & 1) { auto s = seq_of<T>("1"); s->addTask(H(mk_ff([] { work(0); }))); s->addTask(H(mk_ff([] { work(1); }))); f->addTask(task_handle(s)); }
        else { auto i = fork_of<T>("1"); i->addTask(H(mk_ff([] { work(0); }))); i->addTask(H(mk_ff([] { work(1); }))); f->addTask(task_handle(i)); }
        if (how & 2) { auto i = fork_of<T>("2"); i->addTask(H(mk_ff([] { work(2); }))); f->addTask(task_handle(i)); }
        else f->addTask(H(mk_ff([] { work(2); })));
        task_handle g(f); f.reset();
        g_s->add(g);
        g.wait(); waited(g);
    }
    end(how & 2 ? 3 : 2);
}
// fork in a fork in a fork
template <int W> static void deep(int)
{
    begin(W);
    g_members = 2; g_inner = 2; g_deep = 1;
    {
        auto a = fork_of("0"), b = fork_of("1"), c = fork_of("2");
        c->addTask(H(mk_ff([] { work(0); }))); b->addTask(task_handle(c)); a->addTask(task_handle(b)); a->addTask(H(mk_ff([] { work(1); })));
        task_handle g(a); a.reset(); b.reset(); c.reset();
        g_s->add(g); g.wait(); waited(g);
    }
    end(3);
}
// the fork is a member of a sequence: the next member starts after all of the fork
template <int W> static void parent(int)
{
    begin(W);
    g_members = 2; g_first_inner = 0; g_inner = 0;
    {
        auto s = seq_of("1"); auto f = fork_of<task_type::fire_and_forget>("0");
        f->addTask(H(mk_ff([] { work(0); }))); f->addTask(H(mk_ff([] { work(1); })));
        s->addTask(task_handle(f)); s->addTask(H(mk_ff([] { all_done("its parent moved on"); if (g_completed[0] != 1) mc_fail("fork-completed-early", "its parent moved on before it was complete"); g_data[5]++; })));
        task_handle g(s); s.reset(); f.reset();
        g_s->add(g); g.wait(); waited(g); MC_CHECK(g_data[5] == 1, "parent-stuck");
    }
    end(2);
}
// a member is grabbed by somebody who actively waits on that member
template <int W> static void member_active(int)
{
    begin(W);
    g_members = 2;
    {
        task_handle a(mk([] { work(0); })), b(mk([] { work(1); }));
        auto f = fork_of("0"); f->addTask(a); f->addTask(b);
        task_handle g(f); f.reset();
        static task_handle *pb; pb = &b;
        std::thread t([] { pb->activeWait(); MC_CHECK(g_data[1] == 2, "wait-before-completion"); });
        g_s->add(g); g.wait(); waited(g);
        t.join();
    }
    end(1);
}
// same fork handed in twice
template <int W> static void handed_in_twice(int)
{
    begin(W);
    g_members = 2;
    {
        auto f = fork_of("0"); f->addTask(H(mk_ff([] { work(0); }))); f->addTask(H(mk_ff([] { work(1); })));
        task_handle g(f); f.reset();
        static task_handle *pg; pg = &g;
        std::thread t([] { g_s->add(*pg); });
        g_s->add(g); g.wait(); waited(g);
        t.join();
    }
    end(1);
}
// two forks at once
template <int W> static void two_forks(int)
{
    begin(W);
    g_members = 2;
    {
        auto f = fork_of("0"); f->addTask(H(mk_ff([] { work(0); }))); f->addTask(H(mk_ff([] { work(1); })));
        auto k = fork_of("1"); k->addTask(H(mk_ff([] { work(2); }))); k->addTask(H(mk_ff([] { work(3); })));
        task_handle g(f), h(k); f.reset(); k.reset();
        g_s->add(g); g_s->add(h);
        h.wait(); MC_CHECK(g_data[2] == 2 && g_data[3] == 2, "fork-completed-early"); g.wait(); waited(g);
    }
    end(2);
}
// the member count announced on creation is a hint: what counts is what was added (how: 1 a cap as well, 2 actively waited on)
template <int W> static void announced(int how)
{
    begin(W); static const int HINT[] = {1, 2, 3, 4, 8, 100};
    g_members = 1 + mc_choose(5); const int hint = HINT[mc_choose(6)];
    {
        auto f = oqpi::make_parallel_group<task_type::waitable, ctx>(*g_s, "0", task_priority::normal, hint, how & 1 ? 1 + mc_choose(2) : 0); for (int i = 0; i < g_members; ++i) f->addTask(H(mk_ff([i] { work(i); })));
        task_handle g(f); f.reset(); g_s->add(g); if (how & 2) g.activeWait(); else g.wait(); waited(g);
    }
    end(1);
}
MC_SCENARIO("C03", "announced", announced<1>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "announced-active-wait", announced<1>, nullptr, 2, 1, 2, 0);
MC_SCENARIO("C03", "announced-capped", announced<2>, nullptr, 1, 0, 1, 0);
MC_SCENARIO("C03", "one-member", (flat<1, 1>), nullptr, 0, 5, 14, 0);
MC_SCENARIO("C03", "three-members", (flat<1, 3>), nullptr, 8, 3, 14, 0);
MC_SCENARIO("C03", "three-members-active", (flat<1, 3>), nullptr, 1 | 2, 3, 14, 0);
MC_SCENARIO("C03", "two-members-two-waiters", (flat<1, 2>), nullptr, 4, 3, 5, 0);
MC_SCENARIO("C03", "two-members-wait-and-active", (flat<1, 2>), nullptr, 16, 3, 5, 0);
MC_SCENARIO("C03", "two-members-two-active", (flat<1, 2>), nullptr, 16 | 1, 3, 5, 0);
MC_SCENARIO("C03", "two-members-polled", (flat<1, 2>), nullptr, 32 | 1, 3, 5, 0);
MC_SCENARIO("C03", "two-workers-two-members", (flat<2, 2>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C03", "two-workers-two-members-active", (flat<2, 2>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C03", "two-workers-three-members", (flat<2, 3>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C03", "two-workers-three-members-active", (flat<2, 3>), nullptr, 1, 1, 2, 0);
MC_SCENARIO("C03", "three-workers-three-members", (flat<3, 3>), nullptr, 0, 1, 1, 0);
MC_SCENARIO("C03", "before-start", before_start<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C03", "two-workers-before-start", before_start<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C03", "nested-fork", (nested<1, task_type::waitable>), nullptr, 0, 3, 14, 0);
MC_SCENARIO("C03", "nested-sequence", (nested<1, task_type::fire_and_forget>), nullptr, 1, 3, 14, 0);
MC_SCENARIO("C03", "nested-two-forks", (nested<1, task_type::fire_and_forget>), nullptr, 2, 3, 14, 0);
MC_SCENARIO("C03", "two-workers-nested-fork", (nested<2, task_type::fire_and_forget>), nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "two-workers-nested-sequence", (nested<2, task_type::waitable>), nullptr, 1, 1, 2, 0);
MC_SCENARIO("C03", "deep", deep<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C03", "two-workers-deep", deep<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "in-sequence", parent<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C03", "two-workers-in-sequence", parent<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C03", "member-actively-waited", member_active<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C03", "two-workers-member-actively-waited", member_active<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "handed-in-twice", handed_in_twice<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C03", "two-workers-handed-in-twice", handed_in_twice<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "two-forks", two_forks<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C03", "two-workers-two-forks", two_forks<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C03", "large-fork", large_fork, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C03", "large-capped", large_capped, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C03", "large-depth", large_depth, nullptr, 20, 0, 1, MC_LONG);
MC_SCENARIO("C03", "crew", crew, nullptr, 12, 1, 2, MC_DELAY);
MC_SCENARIO("C03", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
