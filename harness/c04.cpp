// C04: a sequence runs its members one after the other, in order.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static int g_chain[4];            // next expected step of sequence q; plain: unordered steps are data races
static int g_acc[4];
// "fully completed" includes what the member's contexts do after it
static int g_hooked, g_post[4];
struct group_hook : group_context_base { group_hook(task_group_base *o, const std::string &n) : group_context_base(o, n) {} void onPostExecute() { ++g_hooked; } };
struct task_hook : task_context_base { int q; task_hook(task_base *o, const std::string &n) : task_context_base(o, n), q(n[0] - '0') {} void onPostExecute() { ++g_post[q]; } };
using ghook = group_context_container<group_hook>; using thook = task_context_container<task_hook>;
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void step(int q, int i)
{
    if (g_chain[q] != 2 * i) mc_fail("out-of-order", "member %d of sequence %d starts at step %d/2", i, q, g_chain[q]);
    if (g_post[q] != i) mc_fail("out-of-order", "member %d of sequence %d starts before the post-execute hook of its predecessor", i, q);
    g_chain[q]++;
    MC_CHECK(g_acc[q] == i * (i + 1) / 2, "predecessor-write-missing");
    g_acc[q] += i + 1;
    g_chain[q]++;
}
static void complete(int q, int n, const char *who) { if (g_chain[q] != 2 * n) mc_fail("sequence-completed-early", "%s, but sequence %d is at step %d/2 of %d", who, q, g_chain[q], n); }
static void waited(const task_handle &h, int q, int n) { MC_CHECK(h.isDone(), "not-done-after-wait"); complete(q, n, "a wait on the sequence returned"); }
template <task_type T = task_type::fire_and_forget, typename F> static task_handle of(F &&f, task_priority p = task_priority::normal, int q = 0) { return task_handle(oqpi::make_task<T, evt_t, thook>(std::to_string(q), p, std::forward<F>(f))); }
template <task_type T = task_type::fire_and_forget> static task_handle member(int q, int i) { return of<T>([q, i] { step(q, i); }, task_priority::normal, q); }
template <typename S> static void fill(S &s, int q, int from, int n, int how)
{
    for (int i = from; i < from + n; ++i) s->addTask(how & 1 ? member<task_type::waitable>(q, i) : member(q, i));
}
template <int W, int N> static void flat(int how)
{
    begin(W);
    {
        auto s = mk_seq(*g_s); fill(s, 0, 0, N, how);
        task_handle h(s); s.reset();
        static task_handle *ph; ph = &h;
        std::unique_ptr<std::thread> t;
        if (how & 2) t.reset(new std::thread([] { ph->wait(); waited(*ph, 0, N); }));
        if (how & 4) t.reset(new std::thread([] { if (ph->isDone()) complete(0, N, "the sequence reported done"); }));
        if (how & 8) t.reset(new std::thread([] { g_s->add(*ph); }));
        g_s->add(h);
        h.wait(); waited(h, 0, N);
        if (t) t->join();
    }
    g_s->stop(); complete(0, N, "end"); delete g_s;
}
template <int W> static void before_start(int)
{
    g_s = new sched_t; add_workers(*g_s, W);
    {
        auto s = mk_seq(*g_s); fill(s, 0, 0, 3, 0); task_handle h(s); s.reset();
        g_s->add(h); g_s->start(); h.wait(); waited(h, 0, 3);
    }
    g_s->stop(); complete(0, 3, "end"); delete g_s;
}
// waits on the members while the sequence runs
template <int W> static void members_waited(int)
{
    begin(W);
    {
        static task_handle m[3];
        for (int i = 0; i < 3; ++i) m[i] = member<task_type::waitable>(0, i);
        auto s = mk_seq(*g_s); for (auto &x : m) s->addTask(x);
        task_handle h(s); s.reset();
        std::thread t([] { m[1].wait(); if (g_acc[1] || !m[0].isDone()) mc_fail("out-of-order", "second member completed before the first"); });
        g_s->add(h);
        m[0].wait(); m[2].wait(); complete(0, 3, "the last member's wait returned");
        h.wait(); waited(h, 0, 3);
        t.join();
        for (auto &x : m) x.reset();
    }
    g_s->stop(); delete g_s;
}
// [task, fork of 2, task]
static int g_f[4];
template <int W, task_type T> static void with_fork(int how)
{
    begin(W);
    {
        auto s = mk_seq(*g_s); auto f = mk_fork<T, ghook>(*g_s, how & 2 ? 1 : how & 4 ? 2 : 0);
        const int first = how & 1;               // the fork is the first member
        if (!first) s->addTask(of([] { step(0, 0); MC_CHECK(g_f[0] == 0 && g_f[1] == 0, "out-of-order"); }));
        for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i, first] { MC_CHECK(g_chain[0] == (first ? 0 : 2), "out-of-order"); MC_CHECK(g_f[i] == 0, "executed-twice"); g_f[i]++; })));
        s->addTask(task_handle(f));
        s->addTask(of([first] { MC_CHECK(g_f[0] == 1 && g_f[1] == 1 && g_hooked == 1, "out-of-order"); step(0, first ? 0 : 1); }));
        task_handle h(s); s.reset(); f.reset();
        g_s->add(h); h.wait(); waited(h, 0, first ? 1 : 2);
    }
    g_s->stop(); MC_CHECK(g_f[0] == 1 && g_f[1] == 1, "not-executed-once"); delete g_s;
}
// the fork is last: the sequence ends when it does
template <int W, task_type T> static void fork_last(int)
{
    begin(W);
    {
        auto s = mk_seq(*g_s); auto f = mk_fork<T, ghook>(*g_s);
        s->addTask(of([] { step(0, 0); }));
        for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { MC_CHECK(g_chain[0] == 2, "out-of-order"); g_f[i]++; })));
        s->addTask(task_handle(f));
        task_handle h(s); s.reset(); f.reset();
        g_s->add(h); h.wait(); MC_CHECK(h.isDone() && g_f[0] == 1 && g_f[1] == 1 && g_hooked == 1, "sequence-completed-early");
    }
    g_s->stop(); MC_CHECK(g_f[0] == 1 && g_f[1] == 1, "not-executed-once"); delete g_s;
}
// [ [0, 1], 2 ] or [ 0, [1, 2] ]
template <int W, task_type T> static void nested(int how)
{
    begin(W);
    {
        auto s = mk_seq(*g_s); auto in = mk_seq<T, ghook>(*g_s);
        fill(in, 0, how & 1, 2, 0);
        if (how & 1) { fill(s, 0, 0, 1, 0); s->addTask(task_handle(in)); }
        else { s->addTask(task_handle(in)); s->addTask(of([] { if (g_hooked != 1) mc_fail("out-of-order", "the third member starts before the post-execute hook of the sequence before it"); step(0, 2); })); }
        task_handle h(s), hi(in); s.reset(); in.reset();
        g_s->add(h);
        if (T == task_type::waitable) { hi.wait(); MC_CHECK(hi.isDone() && g_chain[1] == 0, "not-done-after-wait"); }
        h.wait(); waited(h, 0, 3); MC_CHECK(g_hooked == 1, "sequence-completed-early");
    }
    g_s->stop(); complete(0, 3, "end"); delete g_s;
}
// a fork of two sequences
template <int W> static void in_fork(int)
{
    begin(W);
    {
        auto f = mk_fork(*g_s); auto a = mk_seq<task_type::fire_and_forget>(*g_s), b = mk_seq<task_type::fire_and_forget>(*g_s);
        fill(a, 0, 0, 2, 0); fill(b, 1, 0, 2, 0);
        f->addTask(task_handle(a)); f->addTask(task_handle(b));
        task_handle h(f); f.reset(); a.reset(); b.reset();
        g_s->add(h); h.wait(); waited(h, 0, 2); waited(h, 1, 2);
    }
    g_s->stop(); complete(0, 2, "end"); complete(1, 2, "end"); delete g_s;
}
// two sequences, handed in by two threads
template <int W> static void two(int)
{
    begin(W);
    {
        auto a = mk_seq(*g_s), b = mk_seq(*g_s);
        fill(a, 0, 0, 2, 0); fill(b, 1, 0, 2, 0);
        static task_handle ha, hb; ha = task_handle(a); hb = task_handle(b); a.reset(); b.reset();
        std::thread t([] { g_s->add(hb); hb.wait(); waited(hb, 1, 2); });
        g_s->add(ha); ha.wait(); waited(ha, 0, 2);
        t.join(); ha.reset(); hb.reset();
    }
    g_s->stop(); complete(0, 2, "end"); complete(1, 2, "end"); delete g_s;
}
// the users drop every handle to members and sequence; last member tells
template <int W> static void dropped(int)
{
    begin(W);
    {
        auto s = mk_seq<task_type::fire_and_forget>(*g_s); fill(s, 0, 0, 2, 0);
        s->addTask(of([] { step(0, 2); mc_hb_none_raise(1); }));
        g_s->add(task_handle(std::move(s)));
    }
    mc_hb_none_wait(1);
    g_s->stop(); complete(0, 3, "end"); delete g_s;
}
// priorities of the members do not reorder them
template <int W> static void priorities(int)
{
    begin(W);
    {
        const task_priority p[3] = {task_priority::low, task_priority::high, task_priority::inherit};
        int o = mc_choose(6); static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        auto s = mk_seq(*g_s, p[mc_choose(2)]);
        for (int i = 0; i < 3; ++i) s->addTask(of([i] { step(0, i); }, p[perm[o][i]]));
        task_handle h(s); s.reset();
        g_s->add(h); h.wait(); waited(h, 0, 3);
    }
    g_s->stop(); delete g_s;
}
// a member adds another task and waits for nothing; a longer sequence
template <int W> static void spawning(int)
{
    begin(W);
    {
        auto s = mk_seq(*g_s);
        s->addTask(of([] { step(0, 0); g_s->add(H(mk_ff([] { g_f[0]++; mc_hb_none_raise(1); }))); }));
        fill(s, 0, 1, 2, 0);
        task_handle h(s); s.reset();
        g_s->add(h); h.wait(); waited(h, 0, 3);
    }
    mc_hb_none_wait(1);
    g_s->stop(); delete g_s;
}
constexpr auto FF = task_type::fire_and_forget; constexpr auto WT = task_type::waitable;
MC_SCENARIO("C04", "one", (flat<1, 1>), nullptr, 0, 4, 14, 0);
MC_SCENARIO("C04", "three", (flat<1, 3>), nullptr, 0, 4, 14, 0);
MC_SCENARIO("C04", "three-waitable", (flat<1, 3>), nullptr, 1, 4, 14, 0);
MC_SCENARIO("C04", "three-two-waiters", (flat<1, 3>), nullptr, 2, 3, 5, 0);
MC_SCENARIO("C04", "two-polled", (flat<1, 2>), nullptr, 4, 4, 14, 0);
MC_SCENARIO("C04", "two-handed-in-twice", (flat<1, 2>), nullptr, 8, 3, 5, 0);
MC_SCENARIO("C04", "two-workers-three", (flat<2, 3>), nullptr, 0, 2, 4, 0);
MC_SCENARIO("C04", "two-workers-two-two-waiters", (flat<2, 2>), nullptr, 2, 2, 3, 0);
MC_SCENARIO("C04", "two-workers-handed-in-twice", (flat<2, 2>), nullptr, 8, 2, 3, 0);
MC_SCENARIO("C04", "two-workers-five", (flat<2, 5>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "three-workers-three", (flat<3, 3>), nullptr, 0, 1, 2, 0);
MC_SCENARIO("C04", "before-start", before_start<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-before-start", before_start<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "members-waited", members_waited<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C04", "two-workers-members-waited", members_waited<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C04", "fork-in-the-middle", (with_fork<1, FF>), nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "fork-first", (with_fork<1, WT>), nullptr, 1, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-fork-in-the-middle", (with_fork<2, WT>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "two-workers-fork-first", (with_fork<2, FF>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C04", "two-workers-capped-fork", (with_fork<2, FF>), nullptr, 4, 2, 3, 0);
MC_SCENARIO("C04", "fork-last", (fork_last<1, WT>), nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-fork-last", (fork_last<2, FF>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "nested-first", (nested<1, WT>), nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "nested-last", (nested<1, FF>), nullptr, 1, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-nested-first", (nested<2, FF>), nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "two-workers-nested-last", (nested<2, WT>), nullptr, 1, 2, 3, 0);
MC_SCENARIO("C04", "in-fork", in_fork<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-in-fork", in_fork<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C04", "two-sequences", two<1>, nullptr, 0, 3, 4, 0);
MC_SCENARIO("C04", "two-workers-two-sequences", two<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C04", "dropped", dropped<1>, nullptr, 0, 3, 14, 0);
MC_SCENARIO("C04", "two-workers-dropped", dropped<2>, nullptr, 0, 2, 3, 0);
MC_SCENARIO("C04", "priorities", priorities<1>, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C04", "two-workers-priorities", priorities<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C04", "spawning", spawning<1>, nullptr, 0, 3, 5, 0);
MC_SCENARIO("C04", "two-workers-spawning", spawning<2>, nullptr, 0, 2, 2, 0);
MC_SCENARIO("C04", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C04", "large-depth", large_depth, nullptr, 20, 0, 1, MC_LONG);
MC_SCENARIO("C04", "large-mix", large_mix, nullptr, 4, 0, 1, MC_DELAY | MC_LONG);
// the first member is already being executed by someone else when the sequence is
template <int W> static void first_taken(int how)
{
    begin(W);
    {
        auto s = mk_seq(*g_s); static task_handle first; first = of<task_type::waitable>([] { step(0, 0); g_chain[0]--; mc_hb_none_raise(1); mc_hb_none_wait(2); g_chain[0]++; });
        s->addTask(first); fill(s, 0, 1, 2, 0); task_handle h(s); s.reset(); std::unique_ptr<std::thread> t;
        if (how & 1) t.reset(new std::thread([] { first.activeWait(); })); else g_s->add(first);
        mc_hb_none_wait(1); g_s->add(h); if (how & 2) mc_quiesce(); mc_hb_none_raise(2);
        if (t) t->join(); if (how & 2) { h.wait(); waited(h, 0, 3); } else first.wait();
        first.reset();
        if (how & 2) h.reset();
    }
    g_s->stop(); if (how & 2) complete(0, 3, "end"); delete g_s;
}
MC_SCENARIO("C04", "first-member-taken", first_taken<1>, nullptr, 3, 3, 9, 0);
MC_SCENARIO("C04", "first-member-taken-by-worker", first_taken<2>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C04", "first-member-taken-two-workers", first_taken<2>, nullptr, 3, 2, 4, 0);
