// C20: named synchronization objects obey their creation options.
#include "history.h"

using namespace std::chrono;
using gsem = oqpi::semaphore_interface<global_sync_object>; using gmtx = oqpi::mutex_interface<global_sync_object>;
using gevt = oqpi::manual_reset_event_interface<global_sync_object>; using gauto = oqpi::auto_reset_event_interface<global_sync_object>;
static const sync_object_creation_options OPT[] = {sync_object_creation_options::create_if_nonexistent, sync_object_creation_options::open_existing, sync_object_creation_options::open_or_create};

// --- one kind of object, seen as something that holds a number: construct with a start value, take one, put one ---
struct sem_kind
{
    using type = gsem; static constexpr int START = 3, TOP = 9;
    static gsem *make(const std::string &n, int opt, int v) { if (opt == 3) return new gsem(n, v); return v == 0 ? new gsem(n, OPT[opt]) : new gsem(n, OPT[opt], v); }
    static bool take(gsem &s) { return s.tryWait(); }
    static void put(gsem &s) { s.notifyOne(); }
    static int value(int v, bool) { return v; }
};
struct mtx_kind
{
    using type = gmtx; static constexpr int START = 2, TOP = 1;
    static gmtx *make(const std::string &n, int opt, int v) { if (opt == 3) return new gmtx(n); return v == 0 ? new gmtx(n, OPT[opt]) : new gmtx(n, OPT[opt], false); }
    static bool take(gmtx &s) { return s.tryLock(); }
    static void put(gmtx &s) { s.unlock(); }
    static int value(int v, bool named_only) { return named_only ? 0 : v; }
};
struct auto_kind
{
    using type = gauto; static constexpr int START = 1, TOP = 1;
    static gauto *make(const std::string &n, int opt, int) { return opt == 3 ? new gauto(n) : new gauto(n, OPT[opt]); }
    static bool take(gauto &s) { return s.waitFor(nanoseconds(0)); }
    static void put(gauto &s) { s.notify(); }
    static int value(int, bool) { return 0; }
};
struct evt_kind
{
    using type = gevt; static constexpr int START = 1, TOP = 1;
    static gevt *make(const std::string &n, int opt, int) { return opt == 3 ? new gevt(n) : new gevt(n, OPT[opt]); }
    static bool take(gevt &s) { const bool r = s.waitFor(nanoseconds(0)); if (r) s.reset(); return r; }
    static void put(gevt &s) { s.notify(); }
    static int value(int, bool) { return 0; }
};
// what should be
struct object { int value; };
template <typename K> static void sequences(int len)
{
    static const char *N[] = {"a", "ab", "b"}; constexpr int SLOTS = 3;
    typename K::type *h[SLOTS] = {}; object *o[SLOTS] = {}; bool owner[SLOTS] = {}; int name[SLOTS] = {}; object *named[2] = {}; std::vector<std::unique_ptr<object>> all;
    auto names = [&] { return (named[0] != nullptr) + (named[1] != nullptr); };
    auto handles = [&] { int n = 0; for (auto *x : o) n += x != nullptr; return n; };
    auto close = [&](int s) { delete h[s]; h[s] = nullptr; if (owner[s]) named[name[s]] = nullptr; o[s] = nullptr; owner[s] = false; };
    auto agree = [&] {
        MC_CHECK(mc_sem_names() == names(), "names-present"); MC_CHECK(mc_sem_open_handles() == handles(), "handle-lost");
        for (int s = 0; s < SLOTS; ++s) if (h[s]) { MC_CHECK(h[s]->isValid() == (o[s] != nullptr), "validity"); MC_CHECK(h[s]->getName() == N[name[s]], "name"); }
    };
    for (int i = 0; i < len; ++i)
    {
        // a new handle in the first free slot, or something with one that is there
        int free = 0; while (free < SLOTS && h[free]) ++free;
        int live[SLOTS], n = 0; for (int s = 0; s < SLOTS; ++s) if (h[s]) live[n++] = s;
        const int creations = free < SLOTS ? 8 : 0; int c = mc_choose(creations + 3 * n);
        if (c < creations)
        {
            const int opt = c >> 1, v = K::START > 1 ? mc_choose(2) * (1 + i % (K::START - 1)) : 0, k = c & 1;
            h[free] = K::make(N[k], opt, v); name[free] = k;
            const bool there = named[k] != nullptr;
            if (there && opt != 0) o[free] = named[k];
            else if (!there && opt != 1) { all.emplace_back(new object{K::value(v, opt == 3)}); o[free] = named[k] = all.back().get(); owner[free] = true; }
            if (h[free]->isValid() != (o[free] != nullptr)) mc_fail("validity", "option %d on a name that %s: the handle is %s", opt, there ? "exists" : "does not exist", h[free]->isValid() ? "valid" : "invalid");
        }
        else
        {
            c -= creations; const int s = live[c / 3];
            if (c % 3 == 0) close(s);
            else if (!o[s]) continue;
            else if (c % 3 == 1) { const bool r = K::take(*h[s]); if (r != (o[s]->value > 0)) mc_fail("another-object", "taking from a handle on %s says %d with %d there", N[name[s]], r, o[s]->value); o[s]->value -= r; }
            else if (o[s]->value < K::TOP) { K::put(*h[s]); o[s]->value++; }
        }
        agree();
    }
    for (int s = 0; s < SLOTS; ++s) if (o[s]) { while (o[s]->value > 0) { MC_CHECK(K::take(*h[s]), "another-object"); o[s]->value--; } MC_CHECK(!K::take(*h[s]), "another-object"); }
    // dropped in either direction
    if (mc_choose(2)) { for (int s = 0; s < SLOTS; ++s) if (h[s]) { close(s); agree(); } } else { for (int s = SLOTS; s-- > 0;) if (h[s]) { close(s); agree(); } }
    MC_CHECK(mc_sem_names() == 0 && mc_sem_open_handles() == 0, "left-behind");
}
// names that the system refuses; those that can be known not to be names are asserted against in a build with checks
static const std::string BAD[] = {std::string(252, 'x'), std::string(253, 'x'),
#ifdef NDEBUG
        "/", "a/b", "a/", "//", std::string(300, 'x'), std::string(5000, 'x'),
#endif
};
static const std::string GOOD[] = {"a", ".", "a b", std::string(100, 'x'), std::string(250, 'x'), "\xc3\xa4", "A\\n"};
template <typename K> static void invalid_names(int)
{
    auto *keep = K::make("a", 0, 1);
    for (int opt = 0; opt < 4; ++opt) for (auto &n : BAD)
    {
        auto *h = K::make(n, opt, 1); if (h->isValid()) mc_fail("validity", "a handle on the name %.20s is valid", n.c_str());
        MC_CHECK(mc_sem_names() == 1 && mc_sem_open_handles() == 1, "left-behind"); delete h; MC_CHECK(mc_sem_names() == 1 && mc_sem_open_handles() == 1, "left-behind");
    }
    delete keep;
    for (int opt = 0; opt < 4; ++opt) for (auto &n : GOOD)
    {
        auto *h = K::make(n, opt, 1); if (h->isValid() != (opt != 1)) mc_fail("validity", "a handle on the name %.20s is %s", n.c_str(), h->isValid() ? "valid" : "invalid");
        MC_CHECK(mc_sem_names() == (opt != 1) && h->getName() == n, "names-present"); delete h; MC_CHECK(mc_sem_names() == 0 && mc_sem_open_handles() == 0, "left-behind");
    }
}
// names that differ, however little, are different names
static const std::string PAIRS[][2] = {{"n", "N"}, {"n", "n "}, {" n", "n"}, {"n", "nn"}, {"n.", "n"}, {"-n", "_n"}, {std::string(249, 'x') + "y", std::string(250, 'x')}, {"y" + std::string(249, 'x'), std::string(250, 'x')}, {std::string(100, 'x') + "y" + std::string(149, 'x'), std::string(250, 'x')}, {std::string(250, 'x'), std::string(249, 'x')}, {std::string(33, 'x'), std::string(32, 'x')}, {"a name of some length, the first", "a name of some length, the second"}, {"oqpi", "oqpi1"}, {"one\\n", "two\\n"}, {"Global\\n", "n"}, {"n\\", "n"}, {"a:n", "b:n"}, {"a::n", "n"}, {"n.1", "n.2"}, {"1", "01"}, {"n%d", "n%s"}, {"n\t", "n"}, {"n\n", "n"}, {"a-b", "ab"}, {"a b", "ab"}, {"n", "n$"}, {"sem.n", "n"}, {"\"n\"", "n"}, {"ab", "ba"}, {"ad", "bc"}, {"aa", "aaaa"}, {"\xc3\xa4", "\xc3\xb6"}};
template <typename K> static void distinct(int)
{
    {
        const auto &p = PAIRS[mc_choose(int(std::size(PAIRS)))];
        auto *a = K::make(p[0], 0, 1), *b = K::make(p[1], 0, 1), *c = K::make(p[0], 1, 1), *d = K::make(p[1], 3, 1);
        if (!a->isValid() || !b->isValid() || !c->isValid() || !d->isValid()) mc_fail("validity", "the names \"%s\" and \"%s\" cannot both be had", p[0].c_str(), p[1].c_str());
        MC_CHECK(mc_sem_names() == 2 && mc_sem_open_handles() == 4, "names-present");
        while (K::take(*a)) {} while (K::take(*b)) {}
        K::put(*c); MC_CHECK(!K::take(*b) && !K::take(*d), "another-object"); MC_CHECK(K::take(*a) && !K::take(*c), "another-object");
        K::put(*d); MC_CHECK(!K::take(*a) && !K::take(*c), "another-object"); MC_CHECK(K::take(*b) && !K::take(*d), "another-object");
        delete a; MC_CHECK(mc_sem_names() == 1 && mc_sem_open_handles() == 3, "names-present");
        delete c; delete d; MC_CHECK(mc_sem_names() == 1, "left-behind"); delete b; MC_CHECK(mc_sem_names() == 0 && mc_sem_open_handles() == 0, "left-behind");
    }
}
// the system refuses
template <typename K> static void refused(int)
{
    const bool there = mc_choose(2); auto *keep = there ? K::make("a", 0, 1) : nullptr; mc_env_sem_fail(2); const int opt = mc_choose(4);
    {
        std::unique_ptr<typename K::type> h(K::make("a", opt, 1)); mc_env_sem_fail(0);
        if (h->isValid()) { MC_CHECK(mc_sem_open_handles() == there + 1 && mc_sem_names() == 1, "left-behind"); }
        else MC_CHECK(mc_sem_open_handles() == there && mc_sem_names() == there, "left-behind");
    }
    MC_CHECK(mc_sem_open_handles() == there && mc_sem_names() == there, "left-behind"); if (keep) { MC_CHECK(keep->isValid(), "disturbed"); std::unique_ptr<typename K::type> h(K::make("a", 1, 1)); MC_CHECK(h->isValid(), "disturbed"); } delete keep;
    std::unique_ptr<typename K::type> h(K::make("a", 0, 1)); MC_CHECK(h->isValid() && mc_sem_names() == 1, "left-behind");
}
// --- histories of concurrent constructions and destructions -----------------------------------
// Each construction asks for a different count, so that a handle tells who created its object.
static std::unique_ptr<gsem> g_sem[4];
static int g_made[4], g_serial[4];                     // which construction the handle of a thread comes from
static void acquire(int t, int opt)
{
    const int v = t * 4 + ++g_serial[t]; const int k = h_call(t, "coeE"[opt], v);
    auto h = std::make_unique<gsem>("n", OPT[opt == 3 ? 2 : opt], v);
    const int r = h->isValid() ? mc_sem_value(h->getNativeHandle()) : -1; h_ret(k, r); g_made[t] = v;
    if (h->isValid()) g_sem[t] = std::move(h);
}
static void release(int t) { if (!g_sem[t]) return; const int k = h_call(t, 'x', g_made[t]); g_sem[t].reset(); h_ret(k, 0); }
// state: whose object has the name (0: nobody's)
struct named_spec
{
    static int next(const hop &o, int s, int *out)
    {
        out[0] = s;
        switch (o.kind)
        {
            case 'c': if (o.res < 0) return s != 0; out[0] = o.arg; return s == 0 && o.res == o.arg;
            case 'o': if (o.res < 0) return s == 0; return s != 0 && o.res == s;
            case 'e': if (o.res < 0) return 0; if (s) return o.res == s; out[0] = o.arg; return o.res == o.arg;
            case 'x': if (s == o.arg) out[0] = 0; return 1;
        }
        return 0;
    }
    static bool rest(int, const hop &) { return false; }
};
static int g_pre;
static void judge(int)
{
    const history h = h_collect(); h_outcome(h);
    for (auto &o : h.ops) if (o.kind == 'e' && o.res < 0) mc_fail("open-or-create-failed", "%s", h.text("").c_str());
    if (!h_lin<named_spec>(h, 0, 0)) mc_fail("creation-options", "no order of%s explains the results", h.text("").c_str());
}
struct plan { const char *pre; const char *a[3]; };    // pre: what the main thread does first; c create, o open, e either, x close, 2: create or either
static const plan PLAN[] = {
    {"", {"c", "c", "c"}}, {"", {"e", "e", "e"}}, {"", {"cx", "e", "o"}}, {"c", {"ox", "ex", "X"}}, {"c", {"exe", "X", ""}}, {"", {"cxcx", "exex", ""}}, {"c", {"X", "cx", "o"}}, {"", {"ex", "ex", "ex"}}, {"e", {"oxox", "Xc", ""}}, {"", {"?x?", "?x?", ""}}, {"?", {"?x", "?X", "?"}},
};
static void history_run(int p)
{
    const plan &q = PLAN[p]; for (auto &s : g_sem) s.reset(); memset(g_serial, 0, sizeof g_serial);
    auto act = [](int t, const char *s) { for (; *s; ++s) switch (*s) { case 'c': acquire(t, 0); break; case 'o': acquire(t, 1); break; case 'e': acquire(t, 2); break; case '?': acquire(t, mc_choose(3)); break; case 'x': release(t); break; case 'X': release(0); break; } };
    act(0, q.pre);
    {
        std::vector<std::thread> t; for (int i = 0; i < 3; ++i) if (*q.a[i]) t.emplace_back([&act, i, &q] { act(i + 1, q.a[i]); });
        for (auto &x : t) x.join();
    }
    act(0, "e"); for (int i = 0; i < 4; ++i) release(i);
    if (mc_sem_open_handles() != 0) mc_fail("handle-lost", "%d handles left", mc_sem_open_handles());
    if (mc_sem_names() != 0) mc_fail("left-behind", "the name is still there");
}
// opened handles work, whatever the others do with theirs
template <typename K> static void together(int how)
{
    auto *owner = K::make("n", 0, 0); const bool close_in_between = how & 1;
    std::thread a([] { std::unique_ptr<typename K::type> h(K::make("n", 1, 1)); MC_CHECK(h->isValid(), "validity"); mc_hb_none_raise(0); K::put(*h); });
    std::thread b([close_in_between] { { std::unique_ptr<typename K::type> h(K::make("n", 2, 1)); MC_CHECK(h->isValid(), "validity"); if (close_in_between) return; } std::unique_ptr<typename K::type> h(K::make("n", 3, 1)); MC_CHECK(h->isValid(), "validity"); });
    a.join(); b.join(); MC_CHECK(mc_sem_names() == 1 && mc_sem_open_handles() == 1, "disturbed"); MC_CHECK(K::take(*owner), "another-object"); MC_CHECK(!K::take(*owner), "another-object"); delete owner; MC_CHECK(mc_sem_names() == 0, "left-behind");
}
MC_SCENARIO("C20", "semaphore-sequences", sequences<sem_kind>, nullptr, 5, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "mutex-sequences", sequences<mtx_kind>, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "event-sequences", sequences<evt_kind>, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "auto-event-sequences", sequences<auto_kind>, nullptr, 4, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "semaphore-names", invalid_names<sem_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "mutex-names", invalid_names<mtx_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "event-names", invalid_names<evt_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "auto-event-names", invalid_names<auto_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "semaphore-distinct", distinct<sem_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "mutex-distinct", distinct<mtx_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "event-distinct", distinct<evt_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "auto-event-distinct", distinct<auto_kind>, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C20", "semaphore-refused", refused<sem_kind>, nullptr, 0, 3, 3, MC_SEQ);
MC_SCENARIO("C20", "mutex-refused", refused<mtx_kind>, nullptr, 0, 3, 3, MC_SEQ);
MC_SCENARIO("C20", "event-refused", refused<evt_kind>, nullptr, 0, 3, 3, MC_SEQ);
MC_SCENARIO("C20", "create-at-once", history_run, judge, 0, 99, 99, 0);
MC_SCENARIO("C20", "either-at-once", history_run, judge, 1, 4, 99, 0);
MC_SCENARIO("C20", "create-either-open", history_run, judge, 2, 4, 99, 0);
MC_SCENARIO("C20", "owner-closes", history_run, judge, 3, 4, 9, 0);
MC_SCENARIO("C20", "owner-closes-either-twice", history_run, judge, 4, 99, 99, 0);
MC_SCENARIO("C20", "come-and-go", history_run, judge, 5, 99, 99, 0);
MC_SCENARIO("C20", "owner-closes-successor", history_run, judge, 6, 4, 9, 0);
MC_SCENARIO("C20", "either-come-and-go", history_run, judge, 7, 3, 9, 0);
MC_SCENARIO("C20", "reopen", history_run, judge, 8, 99, 99, 0);
MC_SCENARIO("C20", "any-two", history_run, judge, 9, 4, 9, 0);
MC_SCENARIO("C20", "any-three", history_run, judge, 10, 2, 5, 0);
MC_SCENARIO("C20", "semaphore-together", together<sem_kind>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C20", "semaphore-together-closing", together<sem_kind>, nullptr, 1, 99, 99, 0);
MC_SCENARIO("C20", "event-together", together<evt_kind>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C20", "auto-event-together", together<auto_kind>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C20", "mutex-together", together<mtx_kind>, nullptr, 0, 99, 99, 0);
