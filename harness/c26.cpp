// C26: a task calls its function with its arguments and yields its result.
#include "helpers_rec.h"
#include <functional>
#include <list>

// --- callables and arguments ---------------------------------------------------------------------
// How the task gets executed
enum { DIRECT, SINGLE, SCHEDULED, ACTIVE, WAITED, HOWS };
static sched_t *g_s;
template <typename T> static void execute(const std::shared_ptr<T> &t, int how)
{
    task_handle h(t);
    switch (how)
    {
        case DIRECT: MC_CHECK(h.tryGrab(), "not-grabbed"); h.execute(); break;
        case SINGLE: h.executeSingleThreaded(); break;
        case SCHEDULED: g_s->add(h); h.wait(); break;
        case ACTIVE: g_s->add(h); h.activeWait(); break;
        case WAITED: g_s->add(t); t->wait(); break;
    }
    MC_CHECK(t->isDone(), "not-done");
}
static int g_calls, g_left;
struct counted                                              // a value; any use of a moved-from one shows
{
    int v; bool gone = false;
    explicit counted(int x = -1) : v(x) {}
    counted(const counted &o) : v(o.v), gone(o.gone) { if (o.gone) mc_fail("moved-from", "the value %d is copied after it was moved away", o.v); }
    counted(counted &&o) : v(o.v), gone(o.gone) { if (o.gone) mc_fail("moved-from", "the value %d is moved after it was moved away", o.v); o.gone = true; }
    counted &operator=(const counted &o) { v = o.v; gone = o.gone; if (o.gone) mc_fail("moved-from", "the value %d is copied after it was moved away", o.v); return *this; }
    counted &operator=(counted &&o) { v = o.v; gone = o.gone; if (o.gone) mc_fail("moved-from", "the value %d is moved after it was moved away", o.v); o.gone = true; return *this; }
    int get() const { if (gone) mc_fail("moved-from", "the value %d is used after it was moved away", v); return v; }
};
static int free_function(int a, long b) { ++g_calls; return int(a * 100 + b); }
static void free_void(int a) { ++g_calls; g_left = a; }
struct object { int base; int add(int x) { ++g_calls; return base + x; } int get() const { ++g_calls; return base; } int field; };
struct functor { int state = 0; int operator()(int a) { ++g_calls; state += a; return state; } };
enum class colour { red, green, blue };
// What a task of one kind does with the value x; the result is compared with the one the callable gives without oqpi.
template <typename... X> static auto task_of(X &&...x) { return oqpi::make_task<task_type::waitable, evt_t, empty_task_context>("t", task_priority::normal, std::forward<X>(x)...); }
template <typename T, typename R> static void expect(const std::shared_ptr<T> &t, int how, const R &want)
{
    const int before = g_calls; execute(t, how);
    if (g_calls != before + 1) mc_fail("calls", "called %d times", g_calls - before);
    for (int i = 0; i < 2; ++i) { if (!(t->getResult() == want)) mc_fail("result", "getResult is not what the callable returned"); if (!(t->waitForResult() == want)) mc_fail("result", "waitForResult is not what the callable returned"); }
    static_assert(std::is_same<decltype(t->getResult()), R>::value, "the type of the result");
}
struct large { int v[50]; bool operator==(const large &o) const { return !memcmp(v, o.v, sizeof v); } };
struct aligned_t { alignas(64) double d; char c[130]; bool operator==(const aligned_t &o) const { return d == o.d && c[0] == o.c[0] && c[129] == o.c[129]; } };
static int quiet(int a) noexcept { ++g_calls; return a - 1; }
struct both_ways { int operator()(int a) { ++g_calls; return a + 1; } int operator()(int a) const { ++g_calls; return a + 2; } };
struct by_argument { int operator()(int) { ++g_calls; return 1; } int operator()(long) { ++g_calls; return 2; } int operator()(const char *) { ++g_calls; return 3; } int operator()(std::string) { ++g_calls; return 4; } int operator()(double) { ++g_calls; return 5; } };
static const int CALLABLES = 28;
static void callable(int kind, int x, int how)
{
    switch (kind)
    {
        case 0: expect(task_of(free_function, x, 7L), how, x * 100 + 7); break;
        case 1: expect(task_of(&free_function, x, 7), how, x * 100 + 7); break;
        case 2: { auto f = [x](int a) { ++g_calls; return x * 10 + a; }; int a = 4; auto t = task_of(f, a); a = 5; expect(t, how, x * 10 + 4); break; }
        case 3: { int n = x; auto t = task_of([n]() mutable { ++g_calls; n += 5; return n; }); n = 99; expect(t, how, x + 5); MC_CHECK(n == 99, "argument"); break; }
        case 4: { auto p = std::make_unique<int>(x); auto t = task_of([p = std::move(p)] { ++g_calls; return *p; }); expect(t, how, x); break; }
        case 5: { functor f; f.state = 3; auto t = task_of(f, x); f.state = 90; expect(t, how, 3 + x); MC_CHECK(f.state == 90, "argument"); break; }
        case 6: { functor f; auto t = task_of(std::ref(f), x); f.state = 50; expect(t, how, 50 + x); MC_CHECK(f.state == 50 + x, "argument"); break; }
        case 7: { object o{ x, 0 }; expect(task_of(&object::add, &o, 2), how, x + 2); break; }
        case 8: { object o{ x, 0 }; auto t = task_of(&object::get, o); o.base = 77; expect(t, how, x); break; }
        case 9: { auto t = task_of([](std::unique_ptr<int> p) { ++g_calls; return *p + 1; }, std::make_unique<int>(x)); expect(t, how, x + 1); break; }
        case 10: { std::string s(30 + x, 'q'), u = s; auto t = task_of([](const std::string &a, std::string b) { ++g_calls; return a + b; }, s, std::move(u)); s = "-"; expect(t, how, std::string(60 + 2 * x, 'q')); break; }
        case 11: { counted c(x), d(x); auto t = task_of([](counted a, const counted &b, counted &&d) { ++g_calls; return a.get() + b.get() + counted(std::move(d)).get(); }, c, counted(10 + x), std::move(d)); expect(t, how, 3 * x + 10); break; }
        case 12: { int out = 0; auto t = task_of([](int &o, int v) { ++g_calls; o = v; return true; }, std::ref(out), x); expect(t, how, true); MC_CHECK(out == x, "argument"); break; }
        case 13: { std::vector<int> v{ 1, 2, x }; auto t = task_of([](std::vector<int> a) { ++g_calls; a.push_back(9); return a; }, v); v.clear(); expect(t, how, std::vector<int>{ 1, 2, x, 9 }); break; }
        case 14: { std::function<colour(int)> f = [](int a) { ++g_calls; return a ? colour::blue : colour::green; }; auto t = task_of(f, x); f = nullptr; expect(t, how, x ? colour::blue : colour::green); break; }
        case 15: { auto t = task_of(free_void, x); const int b = g_calls; g_left = -5; MC_CHECK(g_left == -5, "too-early"); execute(t, how); MC_CHECK(g_calls == b + 1 && g_left == x, "argument"); t->getResult(); t->waitForResult(); static_assert(std::is_void<decltype(t->getResult())>::value, ""); break; }
        case 16: { auto p = std::make_shared<int>(x); auto t = task_of([](std::shared_ptr<int> q) { ++g_calls; return q; }, p); MC_CHECK(p.use_count() == 2, "argument"); expect(t, how, p); t.reset(); if (how < SCHEDULED) MC_CHECK(p.use_count() == 1, "kept"); break; }
        case 17: { char text[8] = "abc"; text[2] = char('a' + x); auto t = task_of([](const char *s, size_t n) { ++g_calls; return std::string(s, n); }, (const char *)text, size_t(3)); expect(t, how, std::string("ab") + char('a' + x)); break; }
        case 19: { large l; for (int i = 0; i < 50; ++i) l.v[i] = x * 1000 + i; auto t = task_of([](large a) { ++g_calls; for (int &y : a.v) ++y; return a; }, l); for (int &y : l.v) ++y; expect(t, how, l); break; }
        case 20: { aligned_t l; l.d = x + 0.5; memset(l.c, 'a' + x, sizeof l.c); auto t = task_of([l] { ++g_calls; return l; }); expect(t, how, l); break; }
        case 22: { auto t = task_of([](int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, std::string k, counted l) { ++g_calls; return std::to_string(a) + std::to_string(b * 10 + c) + std::to_string(d * 10 + e) + std::to_string(f * 10 + g) + std::to_string(h * 10 + i) + std::to_string(j) + k + std::to_string(l.get()); }, 1, 2, 3, 4, 5, 6, 7, 8, 9, x, std::string("x"), counted(7)); expect(t, how, std::string("123456789") + std::to_string(x) + "x7"); break; }
        case 23: { object o{ 0, 40 + x }; auto t = task_of([](int v) { ++g_calls; return v; }, o.field); o.field = 0; expect(t, how, 40 + x); break; }
        case 24: { expect(task_of(quiet, x), how, x - 1); break; }
        case 25: { both_ways f; expect(task_of(f, x), how, x + 1); const both_ways g; expect(task_of(g, x), how, x + 1); break; }
        case 26: { const int k = x & 3; const char *p = "p"; long l = 1; if (k == 0) { expect(task_of(by_argument(), 1), how, 1); expect(task_of(by_argument(), l), how, 2); } else if (k == 1) expect(task_of(by_argument(), p), how, 3); else if (k == 2) expect(task_of(by_argument(), std::string("s")), how, 4); else expect(task_of(by_argument(), 1.5), how, 5); break; }
        case 27: { auto o = std::make_shared<object>(); o->base = x; auto t = task_of(&object::add, o, 1); MC_CHECK(o.use_count() == 2, "argument"); expect(t, how, x + 1); expect(task_of(&object::get, std::ref(*o)), how, x); break; }
        case 21: { auto t = task_of([x] { ++g_calls; std::array<std::string, 5> a; for (int i = 0; i < 5; ++i) a[i] = std::string(20 + i, char('a' + x)); return a; }); std::array<std::string, 5> w; for (int i = 0; i < 5; ++i) w[i] = std::string(20 + i, char('a' + x)); expect(t, how, w); break; }
        case 18: { auto t = task_of([](auto a, auto b, auto c, auto d, auto e, auto f) { ++g_calls; return std::make_tuple(a, b, c, d, e, f); }, x, 'c', 2.5, 7u, true, std::string(20, 'z')); expect(t, how, std::make_tuple(x, 'c', 2.5, 7u, true, std::string(20, 'z'))); break; }
    }
}
template <int W> static void callables(int kind)
{
    g_s = nullptr; const int how = mc_choose(W ? HOWS : SCHEDULED), k = kind < 0 ? mc_choose(CALLABLES) : kind, x = mc_choose(W ? 2 : 4);
    if (W) { g_s = new sched_t; add_workers(*g_s, W); g_s->start(); }
    callable(k, x, how);
    if (W) { g_s->stop(); delete g_s; }
}

// --- tasks that were moved ------------------------------------------------------------------------
static std::string text_of(int x) { return std::string(40, char('a' + x)); }
static void moved(int result)
{
    auto go = [&](auto f, auto want, auto other, auto equal)
    {
        using T = task<task_type::waitable, evt_t, empty_task_context, decltype(f)>;
        const int when = mc_choose(3), how = mc_choose(3), hops = 1 + mc_choose(2);        // moved before it is grabbed, before it is executed, after it is done
        T a("a", task_priority::low, std::move(f)); const task_uid id = a.getUID();
        auto stage = [&](T &t, int s) { if (s == 0) { MC_CHECK(t.tryGrab(), "not-grabbed"); } else if (s == 1) { const int b = g_calls; t.execute(); MC_CHECK(g_calls == b + 1, "calls"); } };
        for (int s = 0; s < when; ++s) stage(a, s);
        auto finish = [&](T &t)
        {
            MC_CHECK(t.getUID() == id && t.getPriority() == task_priority::low, "identity"); MC_CHECK(t.isGrabbed() == (when > 0) && t.isDone() == (when > 1), "state");
            if (when == 0 && mc_choose(2)) { const int b = g_calls; if (mc_choose(2)) t.activeWait(); else t.executeSingleThreaded(); MC_CHECK(g_calls == b + 1, "calls"); } else for (int s = when; s < 2; ++s) stage(t, s);
            MC_CHECK(t.isDone(), "not-done"); const int b = g_calls; t.wait(); t.activeWait(); t.executeSingleThreaded(); MC_CHECK(!t.tryGrab() && g_calls == b, "calls");
            equal(t, want);
        };
        if (how == 0) { T b(std::move(a)); if (hops == 1) finish(b); else { T c(std::move(b)); finish(c); } }
        else if (how == 1) { T b("b", task_priority::high, std::move(other)); b = std::move(a); if (hops == 1) finish(b); else { T c(std::move(b)); finish(c); } }
        else { T b(std::move(a)); a = std::move(b); if (hops == 1) finish(a); else { T c(std::move(a)); a = std::move(c); finish(a); } }
    };
    auto same = [](auto &t, auto want) { MC_CHECK(t.getResult() == want, "result"); MC_CHECK(t.waitForResult() == want, "result"); };
    const int x = mc_choose(2);
    struct f_text { std::string s; std::string operator()() { ++g_calls; return s; } };
    struct f_int { int v; int operator()() { ++g_calls; return v; } };
    struct f_void { std::unique_ptr<int> v; void operator()() { ++g_calls; g_left = *v; } };
    if (result == 0) go(f_int{ 5 + x }, 5 + x, f_int{ 0 }, same);
    else if (result == 1) go(f_text{ text_of(x) }, text_of(x), f_text{ "other" }, same);
    else { g_left = 0; go(f_void{ std::make_unique<int>(5 + x) }, 5 + x, f_void{ std::make_unique<int>(9) }, [](auto &, int want) { MC_CHECK(g_left == want, "argument"); }); }
}

// --- the convenience overloads --------------------------------------------------------------------
static const task_priority PRIO[] = { task_priority::high, task_priority::above_normal, task_priority::normal, task_priority::below_normal, task_priority::low };
static int g_seen, g_extra; static std::string g_text;
static void body(int a, const std::string &s) { ++g_calls; g_seen = a; g_text = s; }
static void bare() { ++g_calls; g_seen = 1; g_text = "-"; }
static void is(const task_handle &h, bool wait, int ctx, task_priority p, const char *name)
{
    if (waitable(h) != wait || fire_and_forget(h) == wait) mc_fail("wrong-type", "the task is%s waitable", wait ? " not" : "");
    named *n = of(h); if (n->kind != ctx || n->group) mc_fail("wrong-context", "context %d instead of %d", n->kind, ctx);
    if (h.getPriority() != p) mc_fail("wrong-priority", "priority %d instead of %d", int(h.getPriority()), int(p));
    if (n->name != name) mc_fail("wrong-name", "\"%s\"", n->name.c_str());
    MC_CHECK(!h.getParentGroup(), "wrong-parent");
}
// Every overload with and without arguments; given says whether the priority is passed (and how)
#define ARGS1 body, a, s
#define EACH(call, ...) \
    switch (form) { case 0: call(__VA_ARGS__ body, a, s); break; case 1: { auto f = [](int x, std::string y) { body(x, y); }; call(__VA_ARGS__ f, a + 0, std::string(s)); break; } case 2: { struct fn { void operator()(int x, std::string y) { body(x, y); } }; const fn f{}; call(__VA_ARGS__ fn(f), std::move(a), std::move(s)); break; } \
        case 3: call(__VA_ARGS__ bare); break; case 4: call(__VA_ARGS__ [] { bare(); }); break; }
static const int FORMS = 5;
template <int W> static void overloads(int family)
{
    rec_begin(W);
    {
        int a = 3; std::string s(33, 's'); const int form = mc_choose(FORMS), how = mc_choose(3);          // how the priority is given: not, as a value, as a variable
        const std::string name = "the name"; task_priority prio = PRIO[how ? mc_choose(5) : 2]; const task_priority want = how ? prio : task_priority::normal; const task_priority cprio = prio; 
        g_calls = 0; g_seen = -1; g_text.clear(); std::vector<task_handle> made; made.reserve(4); bool w = true; int ctx = 0; bool scheduled = false;
        auto keep = [&](auto h) { made.push_back(task_handle(std::move(h))); };
#define MK1(...) keep(tk::make_task<task_type::waitable, tc<1>>(name, __VA_ARGS__))
#define MK2(...) keep(tk::make_task<task_type::fire_and_forget, tc<2>>(name, __VA_ARGS__))
#define MK3(...) keep(tk::make_task<task_type::waitable>(name, __VA_ARGS__))
#define MK4(...) keep(tk::make_task<task_type::fire_and_forget>(name, __VA_ARGS__))
#define MK5(...) keep(tk::make_task<tc<1>>(name, __VA_ARGS__))
#define MK6(...) keep(tk::make_task(name, __VA_ARGS__))
#define MK7(...) keep(tk::make_task_item<tc<2>>(name, __VA_ARGS__))
#define MK8(...) keep(tk::make_task_item(name, __VA_ARGS__))
#define SC1(...) keep(tk::schedule_task<task_type::waitable, tc<1>>(name, __VA_ARGS__))
#define SC2(...) keep(tk::schedule_task<task_type::fire_and_forget, tc<2>>(name, __VA_ARGS__))
#define SC3(...) keep(tk::schedule_task<tc<1>>(name, __VA_ARGS__))
#define SC4(...) keep(tk::schedule_task(name, __VA_ARGS__))
#define FF1(...) tk::fire_and_forget_task<tc<2>>(name, __VA_ARGS__)
#define FF2(...) tk::fire_and_forget_task(name, __VA_ARGS__)
#define ALL(call) do { if (how == 0) { EACH(call, ) } else if (how == 1) { EACH(call, task_priority(cprio), ) } else { EACH(call, prio, ) } } while (0)
        // (with a type, a context and no priority, or a type and a context in schedule_task, there is only the one overload)
        switch (family)
        {
            case 0: ALL(MK1); ctx = 1; break;
            case 1: ALL(MK2); ctx = 2; w = false; break;
            case 2: ALL(MK3); break;
            case 3: ALL(MK4); w = false; break;
            case 4: ALL(MK5); ctx = 1; break;
            case 5: ALL(MK6); break;
            case 6: ALL(MK7); ctx = 2; w = false; break;
            case 7: ALL(MK8); w = false; break;
            case 8: if (how == 1) { EACH(SC1, task_priority(cprio), ) } else { EACH(SC1, prio, ) } ctx = 1; scheduled = true; break;
            case 9: if (how == 1) { EACH(SC2, task_priority(cprio), ) } else { EACH(SC2, prio, ) } ctx = 2; w = false; scheduled = true; break;
            case 10: ALL(SC3); ctx = 1; scheduled = true; break;
            case 11: ALL(SC4); scheduled = true; break;
            case 12: ALL(FF1); ctx = 2; w = false; scheduled = true; break;
            case 13: ALL(FF2); w = false; scheduled = true; break;
        }
        const task_priority exp = family == 8 || family == 9 ? prio : want;
        MC_CHECK(g_rec->added.size() == (scheduled ? 1u : 0u), "scheduled");
        if (family < 12) { MC_CHECK(made.size() == 1, "made"); if (scheduled) MC_CHECK(made[0].getUID() == g_rec->added[0].getUID(), "wrong-handle"); } else made.push_back(g_rec->added[0]);
        is(made[0], w, ctx, exp, "the name");
        if (!scheduled) { MC_CHECK(g_calls == 0 && !made[0].isGrabbed(), "too-early"); const int again = mc_choose(2); task_handle r = again ? tk::schedule_task(made[0]) : tk::schedule_task(task_handle(made[0])); MC_CHECK(r.getUID() == made[0].getUID() && g_rec->added.size() == 1 && g_rec->added[0].getUID() == r.getUID(), "scheduled"); }
        if (W) { if (w) made[0].wait(); else mc_quiesce(); } else { MC_CHECK(g_calls == 0, "too-early"); rec_run(); }
        if (W && !w) { g_rec->real->stop(); g_rec->real->start(); }                      // (only joining the workers orders what such a task did before this)
        MC_CHECK(g_calls == 1 && made[0].isDone(), "calls");
        if (form < 3) MC_CHECK(g_seen == 3 && g_text == std::string(33, 's'), "argument"); else MC_CHECK(g_seen == 1, "argument");
        if (form < 2) MC_CHECK(a == 3 && s == std::string(33, 's'), "argument");
        MC_CHECK(of(made[0])->pre == 1 && of(made[0])->post == 1, "hooks");
        std::string().swap(g_text);
    }
    rec_end();
}
// --- loops ----------------------------------------------------------------------------------------
static int g_hits[16], g_batches[16], g_lo, g_hi; static bool g_elements;
static void check_loop(int n, int batches, int gctx, int tctx, task_priority p)
{
    for (int i = 0; i < 16; ++i) { const bool in = i >= g_lo && i < g_hi; if (g_hits[i] != (in ? 1 : 0)) mc_fail("calls", "element %d is processed %d times", i, g_hits[i]); }
    if (n == 0) { MC_CHECK(g_rec->added.empty(), "scheduled"); return; }
    MC_CHECK(!g_rec->added.empty(), "scheduled");
    int groups = 0, tasks = 0;
    for (auto *x : *g_named)
    {
        if (x->group) { ++groups; MC_CHECK(x->kind == gctx, "wrong-context"); MC_CHECK(x->seen == batches, "batches"); MC_CHECK(x->pre == 1 && x->post == 1, "hooks"); }
        else { ++tasks; MC_CHECK(x->kind == tctx, "wrong-context"); MC_CHECK(x->pre == 1 && x->post == 1, "hooks"); }
        if (x->owner->getPriority() != p) mc_fail("wrong-priority", "priority %d instead of %d", int(x->owner->getPriority()), int(p));
        MC_CHECK(x->name.find(x->group ? "loop" : "") == 0, "wrong-name");
    }
    if (groups != 1 || tasks != batches) mc_fail("batches", "%d groups of %d tasks instead of one of %d", groups, tasks, batches);
}
static void is_group(const task_handle &h, bool wait) { if (waitable(h) != wait || fire_and_forget(h) == wait) mc_fail("wrong-type", "the group is%s waitable", wait ? " not" : ""); MC_CHECK(of(h)->group, "not-a-group"); }
template <int W> static void loops(int family)
{
    const int workers = W ? W : 1 + mc_choose(3), n = mc_choose(W ? 3 : 4), first = mc_choose(2) * 2; int p = 2, most = workers;
    rec_begin(W, workers); memset(g_hits, 0, sizeof g_hits);
    {
        std::vector<int> c(16); for (int i = 0; i < 16; ++i) c[i] = 100 + i; int gctx = 0, tctx = 0; g_lo = 0; g_hi = n; const bool batch = mc_choose(2);
        auto f1 = [](int i) { ++g_hits[i]; }; auto f2 = [&](int b, int i) { ++g_hits[i]; if (b < 0 || b >= most) mc_fail("batch-index", "%d", b); }; auto fe = [&](int &e) { const long i = &e - c.data(); if (i < 0 || i >= 16 || e != 100 + i) mc_fail("element", "not an element of the container"); else ++g_hits[i]; };
        auto range = [&](auto call) { if (batch) call(f2); else call(f1); };
        auto parted = [&](auto call) { p = mc_choose(5); most = 1 + mc_choose(2); g_lo = first; g_hi = first + n; if (mc_choose(2)) call(atomic_partitioner(first, first + n, 1, most)); else call(simple_partitioner(first, first + n, most)); };
        switch (family)
        {
            case 0: gctx = 1; tctx = 2; parted([&](const auto &q) { range([&](auto &f) { tk::parallel_for<gc<1>, tc<2>>("loop", q, PRIO[p], f); }); }); break;
            case 1: parted([&](const auto &q) { range([&](auto &f) { tk::parallel_for("loop", q, PRIO[p], std::move(f)); }); }); break;
            case 2: gctx = 1; tctx = 2; g_lo = first; g_hi = first + n; range([&](auto &f) { tk::parallel_for<gc<1>, tc<2>>("loop", first, first + n, f); }); break;
            case 3: g_lo = first; g_hi = first + n; range([&](auto &f) { tk::parallel_for("loop", first, first + n, std::move(f)); }); break;
            case 4: gctx = 1; tctx = 2; range([&](auto &f) { tk::parallel_for<gc<1>, tc<2>>("loop", n, f); }); break;
            case 5: range([&](auto &f) { tk::parallel_for("loop", n, std::move(f)); }); break;
            case 6: gctx = 1; tctx = 2; parted([&](const auto &q) { tk::parallel_for_each<gc<1>, tc<2>>("loop", c, q, PRIO[p], fe); }); break;
            case 7: parted([&](const auto &q) { tk::parallel_for_each("loop", c, q, PRIO[p], fe); }); break;
            case 8: { std::vector<int> d(c.begin(), c.begin() + n); auto fd = [&](int &e) { const long i = &e - d.data(); if (i < 0 || i >= n || e != 100 + i) mc_fail("element", "not an element of the container"); else ++g_hits[i]; }; tk::parallel_for_each("loop", d, fd); break; }
            case 9: case 10: parted([&](const auto &q) { range([&](auto &f) {
                auto go = [&](auto g) { if (n == 0) { MC_CHECK(!g, "scheduled"); return; } MC_CHECK(g && g_rec->added.empty(), "scheduled"); task_handle h(g); is_group(h, family == 9); tk::schedule_task(h); if (family == 9) h.activeWait(); else if (W) { mc_quiesce(); g_rec->real->stop(); g_rec->real->start(); } else rec_run(); };
                if (family == 9) go(tk::make_parallel_for_task_group<task_type::waitable, gc<1>, tc<2>>("loop", q, PRIO[p], f)); else go(tk::make_parallel_for_task_group<task_type::fire_and_forget>("loop", q, PRIO[p], f)); }); });
                if (family == 9) { gctx = 1; tctx = 2; } break;
        }
        check_loop(n, std::min(n, most), gctx, tctx, PRIO[p]);
    }
    rec_end();
}

#define W0(name, body, k) MC_SCENARIO("C26", name, body<0>, nullptr, k, 99, 99, MC_SEQ)
W0("callables", callables, -1);
MC_SCENARIO("C26", "callables-one-worker", callables<1>, nullptr, -1, 1, 4, 0); MC_SCENARIO("C26", "callables-two-workers", callables<2>, nullptr, -1, 0, 2, 0);
MC_SCENARIO("C26", "moved-int", moved, nullptr, 0, 99, 99, MC_SEQ); MC_SCENARIO("C26", "moved-text", moved, nullptr, 1, 99, 99, MC_SEQ); MC_SCENARIO("C26", "moved-void", moved, nullptr, 2, 99, 99, MC_SEQ);
#define OV(name, k) W0(name, overloads, k); MC_SCENARIO("C26", name "-one-worker", overloads<1>, nullptr, k, 0, 1, 0)
OV("make-type-context", 0); OV("make-forget-context", 1); OV("make-type", 2); OV("make-forget", 3); OV("make-context", 4); OV("make", 5); OV("make-item-context", 6); OV("make-item", 7);
OV("schedule-type-context", 8); OV("schedule-forget-context", 9); OV("schedule-context", 10); OV("schedule", 11); OV("fire-and-forget-context", 12); OV("fire-and-forget", 13);
#define LO(name, k) W0(name, loops, k); MC_SCENARIO("C26", name "-one-worker", loops<1>, nullptr, k, 0, 2, 0)
LO("for-context-partitioner", 0); LO("for-partitioner", 1); LO("for-context-range", 2); LO("for-range", 3); LO("for-context-count", 4); LO("for-count", 5);
LO("each-context-partitioner", 6); LO("each-partitioner", 7); LO("each", 8); LO("for-group-context", 9); LO("for-group", 10);
