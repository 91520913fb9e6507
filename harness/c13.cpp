// C13: the task queue is a linearizable first-in first-out queue.
#include "common.h"

enum { PUSH = 1, POP, EMPTY };
struct op { int thread, kind, arg, res, inv, ret; };
static op g_op[16]; static int g_n;
using val = std::shared_ptr<int>;                  // anything lost or duplicated shows in the counts
template <typename T> static T make(int v); template <> val make<val>(int v) { return std::make_shared<int>(v); } template <> int make<int>(int v) { return v; }
static int get(const val &v) { return v ? *v : -1; } static int get(int v) { return v; }
struct noisy { int *p; noisy() : p(nullptr) {} explicit noisy(int v) : p(new int(v)) {} noisy(const noisy &o) : p(o.p ? new int(*o.p) : nullptr) {} noisy(noisy &&o) : p(o.p) { o.p = nullptr; } noisy &operator=(const noisy &o) { int *q = o.p ? new int(*o.p) : nullptr; delete p; p = q; return *this; } noisy &operator=(noisy &&o) { std::swap(p, o.p); return *this; } ~noisy() { delete p; } };
template <> noisy make<noisy>(int v) { return noisy(v); } static int get(const noisy &v) { return v.p ? *v.p : -1; }
template <typename T> static concurrent_queue<T> *q;
static void inv(int k) { mc_event(EV_ENTER, k, 0); } static void ret(int k) { mc_event(EV_LEAVE, k, 0); }
template <typename T> static void push(int t, int k, int v, bool move)
{
    g_op[k] = {t, PUSH, v, 0, 0, 0}; inv(k);
    T x = make<T>(v);
    if (move) q<T>->push(std::move(x)); else { const T &c = x; q<T>->push(c); if (get(x) != v) mc_fail("pushed-copy-changed", "pushing a copy changed the original"); }
    ret(k);
}
template <typename T> static void pop(int t, int k)
{
    T x = make<T>(77); g_op[k] = {t, POP, 0, -1, 0, 0}; inv(k);
    const bool r = q<T>->tryPop(x); g_op[k].res = r ? get(x) : -1;
    if (!r && get(x) != 77) mc_fail("failed-pop-wrote", "a failed pop changed its argument");
    ret(k);
}
template <typename T> static void empty(int t, int k) { g_op[k] = {t, EMPTY, 0, 0, 0, 0}; inv(k); g_op[k].res = static_cast<const concurrent_queue<T> *>(q<T>)->empty(); ret(k); }
// is there an order of the operations, respecting real time, in which a plain queue gives the same results?
static bool lin(unsigned done, int *f, int h, int t)
{
    if (done == (1u << g_n) - 1) return true;
    for (int i = 0; i < g_n; ++i) if (!(done >> i & 1))
    {
        bool first = true; for (int j = 0; j < g_n; ++j) if (j != i && !(done >> j & 1) && g_op[j].ret < g_op[i].inv) first = false;
        if (!first) continue;
        const op &o = g_op[i];
        if (o.kind == PUSH) { const int old = f[t]; f[t] = o.arg; if (lin(done | 1u << i, f, h, t + 1)) return true; f[t] = old; }
        else if (o.kind == POP) { if (o.res == (h < t ? f[h] : -1) && lin(done | 1u << i, f, h < t ? h + 1 : h, t)) return true; }
        else if (o.res == (h == t) && lin(done | 1u << i, f, h, t)) return true;
    }
    return false;
}
static void judge(int)
{
    for (int i = 0; i < mc_log_size(); ++i) { const auto &e = mc_log()[i]; if (e.type == EV_ENTER) g_op[e.a].inv = i; else if (e.type == EV_LEAVE) g_op[e.a].ret = i; }
    int f[16];
    if (!lin(0, f, 0, 0))
    {
        char b[600]; int n = 0;
        for (int i = 0; i < g_n; ++i) n += snprintf(b + n, sizeof b - n, " thread %d [%d,%d] %s=%d;", g_op[i].thread, g_op[i].inv, g_op[i].ret, g_op[i].kind == PUSH ? "push" : g_op[i].kind == POP ? "pop" : "empty", g_op[i].kind == PUSH ? g_op[i].arg : g_op[i].res);
        mc_fail("not-linearizable", "no order of%s explains the results", b);
    }
    uint64_t o = 0; for (int i = 0; i < g_n; ++i) o = o * 31 + g_op[i].kind * 8 + g_op[i].res + 1;
    mc_outcome(o);
}
// every thread runs its own sequence of operations
template <typename T> static void ops(int t, int from, int n) { for (int k = from; k < from + n; ++k) switch (mc_choose(4)) { case 0: push<T>(t, k, k, true); break; case 1: pop<T>(t, k); break; case 2: empty<T>(t, k); break; case 3: push<T>(t, k, k, false); break; } }
template <typename T> static void fixed(int t, int from, const char *w) { for (int k = from; *w; ++w, ++k) switch (*w) { case 'p': push<T>(t, k, k, true); break; case 'P': push<T>(t, k, k, false); break; case 'o': pop<T>(t, k); break; case 'e': empty<T>(t, k); break; } }
template <typename T> static void drain() { T x; while (q<T>->tryPop(x)); MC_CHECK(q<T>->empty(), "not-empty-after-drain"); delete q<T>; }
template <typename T, int N, int M, int P> static void run(int pre)
{
    q<T> = new concurrent_queue<T>; g_n = pre + N + M + P;
    for (int i = 0; i < pre; ++i) push<T>(0, i, i, true);
    { std::thread a([pre] { ops<T>(1, pre, N); }), b([pre] { ops<T>(2, pre + N, M); }); if (P) ops<T>(0, pre + N + M, P); a.join(); b.join(); }
    // what is left comes out in push order
    drain<T>();
}
static const char *SHAPES[][3] = {{"pp", "oo", "o"}, {"po", "po", "po"}, {"pe", "oe", ""}, {"ppp", "ooo", ""}, {"pPp", "oo", "eo"}, {"ppo", "opo", "eee"}, {"p", "oo", "oo"}, {"pp", "pp", "oooo"}, {"Po", "oP", "oe"}, {"pppoo", "ooop", ""}, {"pep", "oeo", "pe"}, {"ppp", "ppp", "oo"}};
template <typename T> static void shape(int k)
{
    q<T> = new concurrent_queue<T>; const char **s = SHAPES[k]; const int a = strlen(s[0]), b = strlen(s[1]), c = strlen(s[2]); g_n = a + b + c;
    { std::thread x([s] { fixed<T>(1, 0, s[0]); }), y([s, a] { fixed<T>(2, a, s[1]); }); fixed<T>(0, a + b, s[2]); x.join(); y.join(); }
    while (g_n < 15 && !q<T>->empty()) pop<T>(0, g_n++);
    drain<T>();
}
// one thread, every sequence of operations, against a reference
template <typename T> static void sequential(int len)
{
    q<T> = new concurrent_queue<T>; int ref[16], h = 0, t = 0;
    for (int k = 0; k < len; ++k) switch (mc_choose(3))
    {
        case 0: { T x = make<T>(k); if (k & 1) { const T &c = x; q<T>->push(c); } else q<T>->push(std::move(x)); ref[t++] = k; break; }
        case 1: { T x = make<T>(77); const bool r = q<T>->tryPop(x); MC_CHECK(r == (h < t), "pop-result"); if (r) { MC_CHECK(get(x) == ref[h], "pop-order"); ++h; } else MC_CHECK(get(x) == 77, "failed-pop-wrote"); break; }
        case 2: MC_CHECK(q<T>->empty() == (h == t), "empty-result"); break;
    }
    delete q<T>;
}
// elements which are task handles: popping moves the handle out of the queue
static void handles(int)
{
    auto *hq = new concurrent_queue<task_handle>;
    {
        task_handle h[2] = {H(mk([] {})), H(mk([] {}))};
        task_uid u[2] = {h[0].getUID(), h[1].getUID()};
        static int popped[2]; popped[0] = popped[1] = 0;
        {
            std::thread a([&] { hq->push(h[0]); task_handle m(h[1]); hq->push(std::move(m)); });
            std::thread b([&] { int last = -1; for (int i = 0; i < 2; ++i) { task_handle x; if (hq->tryPop(x)) { const int k = x.getUID() == u[0] ? 0 : x.getUID() == u[1] ? 1 : -1; MC_CHECK(k > last, "pop-order"); last = k; ++popped[k]; } hq->empty(); } });
            a.join(); b.join();
        }
        while (true) { task_handle x; if (!hq->tryPop(x)) break; ++popped[x.getUID() == u[0] ? 0 : 1]; }
        MC_CHECK(popped[0] == 1 && popped[1] == 1 && hq->empty(), "popped-once");
    }
    delete hq;
}
MC_SCENARIO("C13", "two-threads-two-each", run<val, 2, 2, 0>, judge, 0, 99, 99, 0);
MC_SCENARIO("C13", "two-threads-two-each-one-before", run<noisy, 2, 2, 0>, judge, 1, 99, 99, 0);
MC_SCENARIO("C13", "two-threads-two-each-two-before", run<int, 2, 2, 0>, judge, 2, 99, 99, 0);
MC_SCENARIO("C13", "three-threads-one-each", run<val, 1, 1, 1>, judge, 1, 99, 99, 0);
MC_SCENARIO("C13", "three-threads-two-each", run<int, 2, 2, 2>, judge, 0, 0, 3, 0);
MC_SCENARIO("C13", "three-threads-two-one-one", run<noisy, 2, 1, 1>, judge, 1, 3, 99, 0);
MC_SCENARIO("C13", "two-threads-three-each", run<val, 3, 3, 0>, judge, 0, 2, 5, 0);
template <int K> struct shapes { static void go(int) { shape<val>(K); } };
MC_SCENARIO("C13", "shape0", shapes<0>::go, judge, 0, 5, 99, 0);
MC_SCENARIO("C13", "shape1", shapes<1>::go, judge, 0, 4, 99, 0);
MC_SCENARIO("C13", "shape2", shapes<2>::go, judge, 0, 99, 99, 0);
MC_SCENARIO("C13", "shape3", shapes<3>::go, judge, 0, 99, 99, 0);
MC_SCENARIO("C13", "shape4", shapes<4>::go, judge, 0, 4, 99, 0);
MC_SCENARIO("C13", "shape5", shapes<5>::go, judge, 0, 3, 8, 0);
MC_SCENARIO("C13", "shape6", shapes<6>::go, judge, 0, 5, 99, 0);
MC_SCENARIO("C13", "shape7", shapes<7>::go, judge, 0, 3, 8, 0);
MC_SCENARIO("C13", "shape8", shapes<8>::go, judge, 0, 4, 99, 0);
MC_SCENARIO("C13", "shape9", shapes<9>::go, judge, 0, 5, 99, 0);
MC_SCENARIO("C13", "shape10", shapes<10>::go, judge, 0, 3, 8, 0);
MC_SCENARIO("C13", "shape11", shapes<11>::go, judge, 0, 3, 8, 0);
MC_SCENARIO("C13", "sequential-9", sequential<noisy>, nullptr, 9, 0, 0, MC_SEQ);
MC_SCENARIO("C13", "sequential-8", sequential<val>, nullptr, 8, 0, 0, MC_SEQ);
MC_SCENARIO("C13", "task-handles", handles, nullptr, 0, 99, 99, 0);
// --- many elements ------------------------------------------------------------------------------
static void large(int n)
{
    concurrent_queue<noisy> Q; const int how = mc_choose(3), burst = how == 0 ? n : how == 1 ? 7 : 60; int in = 0, out = 0;
    while (out < n)
    {
        for (int i = 0; i < burst && in < n; ++i, ++in) { noisy x(in); if (in & 1) Q.push(x); else Q.push(std::move(x)); }
        for (int i = 0; i < (how == 2 && in < n ? burst / 2 : burst); ++i) { noisy y; MC_CHECK(Q.empty() == (out == in), "empty"); if (!Q.tryPop(y)) { MC_CHECK(out == in, "lost"); break; } if (get(y) != out) mc_fail("order", "%d is popped in place %d", get(y), out); ++out; }
    }
    noisy z; MC_CHECK(Q.empty() && !Q.tryPop(z), "left-over");
    for (int i = 0; i < n; ++i) Q.push(noisy(i));      // released with the queue
}
static void large_two_threads(int n)
{
    static concurrent_queue<int> Q; int got = 0; std::thread t([n] { for (int i = 0; i < n; ++i) Q.push(i); });
    for (int x; got < n;) { if (Q.tryPop(x)) { if (x != got) mc_fail("order", "%d is popped in place %d", x, got); ++got; } else std::this_thread::yield(); }
    t.join(); MC_CHECK(Q.empty(), "left-over");
}
MC_SCENARIO("C13", "large", large, nullptr, 500, 0, 1, MC_SEQ | MC_LONG);
MC_SCENARIO("C13", "large-two-threads", large_two_threads, nullptr, 100, 0, 1, MC_LONG);
