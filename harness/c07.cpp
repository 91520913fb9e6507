// C07: pending tasks are taken in priority order, first come first served.
#include "common.h"
#include "large.h"

static sched_t *g_s;
static const task_priority P[6] = {task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low, task_priority::inherit};
static const char *PN[6] = {"high", "above_normal", "normal", "below_normal", "low", "inherit"};
static int g_order[32], g_no;                 // order of execution; one worker, hence plain
static void ran(int id) { MC_CHECK(g_no < 32, "executed-twice"); g_order[g_no++] = id; }
static void begin(int workers) { g_s = new sched_t; add_workers(*g_s, workers); g_s->start(); }
static void end() { g_s->stop(); delete g_s; }
// occupies the only worker until released, so that everything handed in meanwhile is pending
static void block() { g_s->add(H(mk_ff([] { mc_hb_none_raise(1); mc_hb_none_wait(2); }, task_priority::high))); mc_hb_none_wait(1); }
static void release() { mc_hb_none_raise(2); }
static void expect(const std::vector<int> &e, const char *what)
{
    bool ok = (int)e.size() == g_no; for (int i = 0; ok && i < g_no; ++i) ok = e[i] == g_order[i];
    if (ok) return;
    std::string a, b; for (int x : e) a += " " + std::to_string(x); for (int i = 0; i < g_no; ++i) b += " " + std::to_string(g_order[i]);
    mc_fail("wrong-order", "%s: expected%s, executed%s", what, a.c_str(), b.c_str());
}
// Reference: the queues of one worker that may work on everything.
struct ref
{
    struct node { int id; int prio; int kind; std::vector<int> members; int parent; int left; bool grabbed; };   // kind 0 task, 1 fork, 2 sequence
    std::vector<node> n; std::vector<int> q[5]; std::vector<int> out;
    int add(int kind, int id, int prio, int parent = -1) { n.push_back(node{id, prio, kind, {}, parent, 0, false}); const int k = (int)n.size() - 1; if (parent >= 0) { n[parent].members.push_back(k); n[parent].left++; } return k; }
    int resolve(int k) const { while (n[k].prio == 5) k = n[k].parent; return n[k].prio; }
    void push(int k) { q[resolve(k)].push_back(k); }
    void done(int k) { const int p = n[k].parent; if (p < 0) return; node &g = n[p]; if (--g.left == 0) done(p); else if (g.kind == 2) push(g.members[g.members.size() - g.left]); }
    void exec(int k)
    {
        n[k].grabbed = true;
        if (n[k].kind == 0) { out.push_back(n[k].id); done(k); }
        else if (n[k].kind == 1) { for (size_t i = 1; i < n[k].members.size(); ++i) push(n[k].members[i]); exec(n[k].members[0]); }
        else exec(n[k].members[0]);
    }
    void run() { for (;;) { int p = 0; while (p < 5 && q[p].empty()) ++p; if (p == 5) return; const int k = q[p].front(); q[p].erase(q[p].begin()); if (!n[k].grabbed) exec(k); } }
};

// every assignment of priorities to n pending tasks
template <int N> static void pending(int)
{
    begin(1); block();
    ref r; std::string what = "priorities";
    task_handle last(mk([] {}, task_priority::low));
    for (int i = 0; i < N; ++i) { const int p = mc_choose(5); what += std::string(" ") + PN[p]; r.push(r.add(0, i, p)); g_s->add(H(mk_ff([i] { ran(i); }, P[p]))); }
    g_s->add(last);
    r.run(); release(); last.wait();
    expect(r.out, what.c_str());
    last.reset(); end();
}
// the same with four priorities' worth of ties and more tasks
template <int N> static void pending_many(int)
{
    begin(1); block();
    ref r; std::string what = "priorities";
    task_handle last(mk([] {}, task_priority::low));
    for (int i = 0; i < N; ++i) { static const int c[2] = {1, 3}; const int p = c[mc_choose(2)]; what += std::string(" ") + PN[p]; r.push(r.add(0, i, p)); g_s->add(H(mk_ff([i] { ran(i); }, P[p]))); }
    g_s->add(last);
    r.run(); release(); last.wait();
    expect(r.out, what.c_str());
    last.reset(); end();
}
// handed in before start
static void before_start(int)
{
    g_s = new sched_t; add_workers(*g_s, 1);
    ref r; std::string what = "priorities"; task_handle last(mk([] {}, task_priority::low));
    for (int i = 0; i < 3; ++i) { const int p = mc_choose(5); what += std::string(" ") + PN[p]; r.push(r.add(0, i, p)); g_s->add(H(mk_ff([i] { ran(i); }, P[p]))); }
    g_s->add(last); g_s->start();
    r.run(); last.wait(); expect(r.out, what.c_str()); last.reset(); end();
}
// tasks handing in tasks: t0 (prio a) hands in two more (b, c) while d is pending
static void spawned(int)
{
    begin(1); block();
    const int a = mc_choose(5), b = mc_choose(5), c = mc_choose(5), d = mc_choose(5);
    task_handle last(mk([] {}, task_priority::low));
    g_s->add(H(mk_ff([b, c, last] { ran(0); g_s->add(H(mk_ff([] { ran(1); }, P[b]))); g_s->add(H(mk_ff([last] { ran(2); g_s->add(last); }, P[c]))); }, P[a])));
    g_s->add(H(mk_ff([] { ran(3); }, P[d])));
    // reference: stable by priority, 1 and 2 appear when 0 runs
    std::vector<std::pair<int, int>> q{{a, 0}, {d, 3}}; std::vector<int> out;
    while (!q.empty()) { auto it = std::min_element(q.begin(), q.end(), [](auto &x, auto &y) { return x.first < y.first; }); const int id = it->second; q.erase(it); out.push_back(id); if (id == 0) { q.push_back({b, 1}); q.push_back({c, 2}); } }
    release(); last.wait(); last.reset(); mc_quiesce();
    end();
    char w[100]; snprintf(w, 100, "t0 %s hands in t1 %s, t2 %s; t3 %s pending", PN[a], PN[b], PN[c], PN[d]); expect(out, w);
}
// a group [m0, m1, m2] of priority a; members b or inherit; others pending
template <int KIND> static void group(int)
{
    begin(1); block();
    const int a = mc_choose(5), b[3] = {mc_choose(2) ? 5 : 2, mc_choose(6), mc_choose(6)}, d = mc_choose(5);
    ref r; const int g = r.add(KIND, -1, a); for (int i = 0; i < 3; ++i) r.add(0, i, b[i], g);
    task_handle h;
    auto fill = [&](auto grp) { for (int i = 0; i < 3; ++i) grp->addTask(H(mk_ff([i] { ran(i); }, P[b[i]]))); h = task_handle(grp); };
    if (KIND == 1) fill(mk_fork(*g_s, 0, P[a])); else fill(mk_seq(*g_s, P[a]));
    g_s->add(H(mk_ff([] { ran(3); }, P[d]))); r.push(r.add(0, 3, d));
    g_s->add(h); r.push(g);
    g_s->add(H(mk_ff([] { ran(4); }, P[d]))); r.push(r.add(0, 4, d));
    r.run(); release(); h.wait(); h.reset(); mc_quiesce();
    end();
    char w[200]; snprintf(w, 200, "group %s of %s, %s, %s; others %s", PN[a], PN[b[0]], PN[b[1]], PN[b[2]], PN[d]); expect(r.out, w);
}
// nested groups: outer (own priority a) > inner (b or inherit) > members (c or inherit)
template <int KO, int KI> static void nested(int)
{
    begin(1); block();
    const int a = mc_choose(5), b = mc_choose(6), c[2] = {mc_choose(2) ? 5 : 1, mc_choose(6)}, d = 1 + mc_choose(3);
    ref r; const int o = r.add(KO, -1, a); r.add(0, 0, 5, o); const int in = r.add(KI, -1, b, o); for (int i = 0; i < 2; ++i) r.add(0, 1 + i, c[i], in);
    task_handle h;
    // the inner group is filled before or after it becomes a member of the outer one
    const int late = mc_choose(2);
    auto fill_in = [&](auto i) { for (int k = 0; k < 2; ++k) i->addTask(H(mk_ff([k] { ran(1 + k); }, P[c[k]]))); };
    auto build = [&](auto og, auto ig)
    {
        if (!late) fill_in(ig);
        og->addTask(H(mk_ff([] { ran(0); }, task_priority::inherit)));
        og->addTask(task_handle(ig));
        if (late) fill_in(ig);
        h = task_handle(og);
    };
    constexpr auto FF = task_type::fire_and_forget;
    if (KO == 1 && KI == 1) build(mk_fork(*g_s, 0, P[a]), mk_fork<FF>(*g_s, 0, P[b]));
    if (KO == 1 && KI == 2) build(mk_fork(*g_s, 0, P[a]), mk_seq<FF>(*g_s, P[b]));
    if (KO == 2 && KI == 1) build(mk_seq(*g_s, P[a]), mk_fork<FF>(*g_s, 0, P[b]));
    if (KO == 2 && KI == 2) build(mk_seq(*g_s, P[a]), mk_seq<FF>(*g_s, P[b]));
    g_s->add(H(mk_ff([] { ran(3); }, P[d]))); r.push(r.add(0, 3, d));
    g_s->add(h); r.push(o);
    r.run(); release(); h.wait(); h.reset(); mc_quiesce();
    end();
    char w[200]; snprintf(w, 200, "outer %s, inner %s of %s, %s; other %s", PN[a], PN[b], PN[c[0]], PN[c[1]], PN[d]); expect(r.out, w);
}
// Concurrent producers, no blocker. A task of a higher priority whose handing in returned before the worker
// began the search that ended with another task must not run after it; equal priorities run in the order handed in.
struct idle_ctx : worker_context_base { using worker_context_base::worker_context_base; void onIdle() { mc_event(EV_NOTE, 0, 0); } };
static int g_prio[8], g_total;
static void add_logged(int id, task_priority p) { mc_event(EV_ENTER, id, 0); g_s->add(H(mk_ff([id] { mc_event(EV_RUN, id, 0); }, p))); mc_event(EV_LEAVE, id, 0); }
template <int T, int N> static void concurrent(int)
{
    g_total = T * N;
    for (int i = 0; i < T * N; ++i) g_prio[i] = mc_choose(3);
    g_s = new sched_t; add_workers<worker_context_container<idle_ctx>>(*g_s, 1); g_s->start();
    {
        std::unique_ptr<std::thread> t[T];
        for (int k = 1; k < T; ++k) t[k].reset(new std::thread([k] { for (int i = 0; i < N; ++i) add_logged(k * N + i, P[g_prio[k * N + i]]); }));
        for (int i = 0; i < N; ++i) add_logged(i, P[g_prio[i]]);
        for (int k = 1; k < T; ++k) t[k]->join();
    }
    mc_quiesce();
    end();
}
static void concurrent_check(int)
{
    int in[8], out[8], run[8], search[8]; memset(in, -1, sizeof in); memset(out, -1, sizeof out); memset(run, -1, sizeof run);
    const mc_log_entry *l = mc_log(); int idle = -1;
    for (int i = 0; i < mc_log_size(); ++i) switch (l[i].type)
    {
        case EV_NOTE: idle = i; break;
        case EV_ENTER: in[l[i].a] = i; break;
        case EV_LEAVE: out[l[i].a] = i; break;
        case EV_RUN: run[l[i].a] = i; search[l[i].a] = idle; break;
    }
    for (int a = 0; a < g_total; ++a) if (run[a] < 0) mc_fail("not-executed", "task %d was not executed", a);
    for (int a = 0; a < g_total; ++a) for (int b = 0; b < g_total; ++b) if (a != b && run[a] < run[b])
    {
        if (g_prio[b] < g_prio[a] && out[b] < search[a]) mc_fail("lower-priority-first", "task %d (%s) was taken by a search that began after task %d (%s) had been handed in", a, PN[g_prio[a]], b, PN[g_prio[b]]);
        if (g_prio[b] == g_prio[a] && out[b] < in[a]) mc_fail("not-first-come-first-served", "task %d ran before task %d of the same priority (%s) handed in earlier", a, b, PN[g_prio[a]]);
    }
}
// a search in progress prefers what is of higher priority at its start, also while the worker may only work on some priorities
static void masked(int)
{
    g_s = new sched_t;
    add_workers(*g_s, 1, worker_priority::wprio_any_normal, "mid"); add_workers(*g_s, 1, worker_priority::wprio_high, "high"); add_workers(*g_s, 1, worker_priority::wprio_low, "low");
    g_s->start();
    g_s->add(H(mk_ff([] { mc_hb_none_raise(1); mc_hb_none_wait(2); }, task_priority::normal))); mc_hb_none_wait(1);
    ref r; std::string what = "priorities"; task_handle last(mk([] {}, task_priority::below_normal));
    for (int i = 0; i < 3; ++i) { const int p = 1 + mc_choose(3); what += std::string(" ") + PN[p]; r.push(r.add(0, i, p)); g_s->add(H(mk_ff([i] { ran(i); }, P[p]))); }
    g_s->add(last); r.run(); release(); last.wait(); expect(r.out, what.c_str()); last.reset(); end();
}
// members with inherited priority while their group is actively waited on
template <int W> static void inherit_active(int how)
{
    begin(W);
    {
        auto f = mk_fork(*g_s, 0, task_priority::high);
        task_handle g;
        for (int i = 0; i < (how & 2 ? 3 : 2); ++i) f->addTask(H(mk_ff([i] { MC_CHECK(g_data[i]++ == 0, "executed-twice"); }, task_priority::inherit)));
        if (how & 1) { auto o = mk_fork(*g_s, 0, task_priority::high); o->addTask(task_handle(f)); g = task_handle(o); g_s->add(g); task_handle(f).activeWait(); g.wait(); }
        else { g = task_handle(f); f.reset(); g_s->add(g); g.activeWait(); }
        for (int i = 0; i < (how & 2 ? 3 : 2); ++i) MC_CHECK(g_data[i] == 1, "not-executed-once");
    }
    end();
}
MC_SCENARIO("C07", "two-pending", pending<2>, nullptr, 0, 1, 2, 0);
MC_SCENARIO("C07", "three-pending", pending<3>, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C07", "four-pending", pending<4>, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "seven-pending-two-priorities", pending_many<7>, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "before-start", before_start, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C07", "handed-in-by-tasks", spawned, nullptr, 0, 0, 1, 0);
MC_SCENARIO("C07", "fork", group<1>, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "sequence", group<2>, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "fork-in-fork", (nested<1, 1>), nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "sequence-in-fork", (nested<1, 2>), nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "fork-in-sequence", (nested<2, 1>), nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "sequence-in-sequence", (nested<2, 2>), nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "concurrent-two-by-one", (concurrent<2, 1>), concurrent_check, 0, 2, 4, 0);
MC_SCENARIO("C07", "concurrent-one-by-three", (concurrent<1, 3>), concurrent_check, 0, 1, 3, 0);
MC_SCENARIO("C07", "concurrent-two-by-two", (concurrent<2, 2>), concurrent_check, 0, 1, 1, 0);
MC_SCENARIO("C07", "concurrent-three-by-one", (concurrent<3, 1>), concurrent_check, 0, 1, 1, 0);
MC_SCENARIO("C07", "masked-worker", masked, nullptr, 0, 0, 0, 0);
MC_SCENARIO("C07", "inherit-active-wait", inherit_active<1>, nullptr, 0, 2, 5, 0);
MC_SCENARIO("C07", "inherit-active-wait-three", inherit_active<1>, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C07", "inherit-active-wait-nested", inherit_active<1>, nullptr, 1, 2, 4, 0);
// many pending tasks of all priorities
static void many_pending(int n)
{
    const int mul = 1 + mc_choose(4), how = mc_choose(3); L_begin(1, false); static int at[5]; for (int &x : at) x = 0; static int total; total = 0; static int last; last = -1;
    {
        std::vector<task_handle> h; h.reserve(n); int cnt[5] = {0, 0, 0, 0, 0};
        auto prio = [&](int i) { return how == 0 ? i * mul % 5 : how == 1 ? i * mul / 7 % 5 : i % (10 * mul) ? 4 : 0; };
        for (int i = 0; i < n; ++i)
        {
            const int p = prio(i), k = cnt[p]++;
            h.push_back(H(mk([p, k, i] { L_run(i); if (p < last) mc_fail("wrong-order", "a task of priority %d after one of priority %d", p, last); last = p; if (at[p]++ != k) mc_fail("wrong-order", "task %d of priority %d in place %d", k, p, at[p] - 1); }, P[p]))); L_s->add(h.back());
        }
        L_s->start(); for (auto &x : h) x.wait(); L_all(n);
    }
    L_finish();
}
// the inner members of deeply nested groups that all inherit
static void deep(int n)
{
    begin(1); block();
    {
        const int depth = 1 + mc_choose(n), outer = mc_choose(5), other = mc_choose(5), kinds = mc_choose(2);
        std::vector<task_group_sptr> g;
        for (int i = 0; i < depth; ++i)
        {
            const auto p = i ? task_priority::inherit : P[outer]; if (kinds || i == depth - 1) g.push_back(mk_fork(*g_s, 0, p)); else g.push_back(mk_seq(*g_s, p));
            if (i) g[i - 1]->addTask(task_handle(g[i]));
        }
        task_handle third(mk([] { ran(3); }, P[other]));
        g.back()->addTask(H(mk_ff([&third] { g_s->add(third); ran(1); }, task_priority::inherit))); g.back()->addTask(H(mk_ff([] { ran(2); }, task_priority::inherit)));
        task_handle h(g[0]); g.clear(); g_s->add(h); release(); h.wait(); third.wait();
        expect(other < outer ? std::vector<int>{1, 3, 2} : std::vector<int>{1, 2, 3}, "deep");
    }
    end();
}
MC_SCENARIO("C07", "many-pending", many_pending, nullptr, 300, 0, 1, MC_LONG);
MC_SCENARIO("C07", "deep", deep, nullptr, 24, 0, 0, 0);
MC_SCENARIO("C07", "large-tasks", large_tasks, nullptr, 400, 0, 1, MC_LONG);
MC_SCENARIO("C07", "large-sequence", large_sequence, nullptr, 300, 0, 1, MC_LONG);
