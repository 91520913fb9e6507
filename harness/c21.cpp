// C21: moving a synchronization object transfers it completely.
#include "common.h"

using namespace std::chrono;
using a_evt = oqpi::auto_reset_event_interface<>; using gsem = oqpi::semaphore_interface<global_sync_object>; using gmtx = oqpi::mutex_interface<global_sync_object>;
using gevt = oqpi::manual_reset_event_interface<global_sync_object>; using gauto = oqpi::auto_reset_event_interface<global_sync_object>;
static const auto CREATE = sync_object_creation_options::create_if_nonexistent, OPEN = sync_object_creation_options::open_existing, EITHER = sync_object_creation_options::open_or_create;

// Each kind of object is seen as something that holds a number: take one, put one, put all there can be.
template <typename S> struct holder
{
    using type = S;
    static bool take(S &s) { return s.tryWait(); }
    static void put(S &s) { s.notifyOne(); }
    static bool all(S &s, int) { s.notifyAll(); return true; }
};
template <typename S> struct event_holder
{
    using type = S;
    static bool all(S &, int) { return false; }
    static void put(S &s) { s.notify(); }
};
static const char *NAMES[] = {"a", "b", "c"};
struct l_sem : holder<sem_if> { static constexpr int START = 3; static constexpr bool NAMED = false; static type *make(int v, int max, int) { return new type(v, max); } };
struct g_sem : holder<gsem> { static constexpr int START = 3; static constexpr bool NAMED = true; static type *make(int v, int max, int n, sync_object_creation_options o = CREATE) { return new type(NAMES[n], o, v, max); } };
struct g_mtx { using type = gmtx; static constexpr int START = 2; static constexpr bool NAMED = true; static type *make(int v, int, int n, sync_object_creation_options o = CREATE) { return new type(NAMES[n], o, v == 0); }
    static bool take(type &s) { return s.tryLock(); } static void put(type &s) { s.unlock(); } static bool all(type &, int) { return false; } };
struct l_auto : event_holder<a_evt> { static constexpr int START = 1; static constexpr bool NAMED = false; static type *make(int, int, int) { return new type; } static bool take(type &s) { return s.waitFor(nanoseconds(0)); } };
struct g_auto : event_holder<gauto> { static constexpr int START = 1; static constexpr bool NAMED = true; static type *make(int, int, int n, sync_object_creation_options o = CREATE) { return new type(NAMES[n], o); } static bool take(type &s) { return s.waitFor(nanoseconds(0)); } };
template <typename S> struct manual_holder : event_holder<S> { static bool take(S &s) { const bool r = s.waitFor(nanoseconds(0)); if (r) { MC_CHECK(s.wait(), "wait-failed"); s.reset(); } return r; } };
struct l_evt : manual_holder<evt_t> { static constexpr int START = 1; static constexpr bool NAMED = false; static type *make(int, int, int) { return new type; } };
struct g_evt : manual_holder<gevt> { static constexpr int START = 1; static constexpr bool NAMED = true; static type *make(int, int, int n, sync_object_creation_options o = CREATE) { return new type(NAMES[n], o); } };

template <typename K> static void check_name(typename K::type &h, int n) { if constexpr (K::NAMED) MC_CHECK(h.getName() == NAMES[n], "name-not-transferred"); }

// --- every sequence of constructions, moves, destructions and uses -----------------------------
// Values are kept in g_val, one per underlying object, as several handles may share a named one.
template <typename K> static void sequences(int len)
{
    constexpr int SLOTS = 3; using T = typename K::type;
    struct one { T *h; int obj; bool owner; int max, name; } s[SLOTS] = {}; for (auto &x : s) x.obj = -1;
    int val[16], objs = 0, refs[16] = {}, where[3] = {-1, -1, -1};
    auto drop = [&](one &x) { if (x.obj >= 0) { --refs[x.obj]; if (K::NAMED && x.owner) where[x.name] = -1; } x.obj = -1; x.owner = false; };
    auto agree = [&] {
        int valid = 0, names = 0; for (auto &x : s) valid += x.h && x.obj >= 0; for (int w : where) names += w >= 0;
        for (auto &x : s) if (x.h) { if (x.h->isValid() != (x.obj >= 0)) mc_fail("validity", "a handle that should be %s is not", x.obj >= 0 ? "valid" : "invalid"); if (x.obj >= 0) { MC_CHECK(x.h->getNativeHandle() != nullptr, "validity"); check_name<K>(*x.h, x.name); } }
        if (K::NAMED) { MC_CHECK(mc_sem_open_handles() == valid, valid < mc_sem_open_handles() ? "object-leaked" : "released-too-much"); MC_CHECK(mc_sem_names() == names, valid < mc_sem_names() ? "object-leaked" : "released-too-much"); }
        else MC_CHECK(mc_sem_local_live() == valid, valid < mc_sem_local_live() ? "object-leaked" : "released-too-much");
    };
    for (int i = 0; i < len; ++i)
    {
        int free = 0; while (free < SLOTS && s[free].h) ++free;
        int live[SLOTS], n = 0; for (int k = 0; k < SLOTS; ++k) if (s[k].h) live[n++] = k;
        const int A = free < SLOTS ? (K::NAMED ? 3 : 1) + n : 0;   // constructions
        const int B = n * n;                                        // assignments, to itself too
        const int C = n;                                            // destructions
        int c = mc_choose(A + B + C + 2 * n);
        if (c < A)
        {
            one &x = s[free]; const int ways = A - n;
            if (c < ways)
            {
                const int v = K::START > 1 ? mc_choose(2) : 0, name = c == 2 ? 1 : 0; x.max = 2 + i % 2; x.name = name;
                if constexpr (K::NAMED)
                {
                    // create a, open a, open or create b
                    x.h = K::make(v, x.max, name, c == 0 ? CREATE : c == 1 ? OPEN : EITHER);
                    if (where[name] >= 0 && c != 0) { x.obj = where[name]; ++refs[x.obj]; x.owner = false; }
                    else if (where[name] < 0 && c != 1) { x.obj = where[name] = objs++; val[x.obj] = v; refs[x.obj] = 1; x.owner = true; }
                    else x.obj = -1;
                }
                else { x.h = K::make(v, x.max, 0); x.obj = objs++; val[x.obj] = v; refs[x.obj] = 1; x.owner = true; }
            }
            else
            {
                one &y = s[live[c - ways]];
                x.h = new T(std::move(*y.h)); x.obj = y.obj; x.owner = y.owner; x.max = y.max; x.name = y.name; y.obj = -1; y.owner = false;
            }
        }
        else if (c < A + B)
        {
            c -= A; one &x = s[live[c / n]], &y = s[live[c % n]]; T &r = *x.h = std::move(*y.h); MC_CHECK(&r == x.h, "validity");
            if (&x != &y) { drop(x); x.obj = y.obj; x.owner = y.owner; x.max = y.max; x.name = y.name; y.obj = -1; y.owner = false; }
        }
        else if (c < A + B + C) { one &x = s[live[c - A - B]]; delete x.h; x.h = nullptr; drop(x); }
        else
        {
            c -= A + B + C; one &x = s[live[c / 2]];
            if (x.obj >= 0)
            {
                int &v = val[x.obj];
                if (c & 1) { const bool r = K::take(*x.h); if (r != (v > 0)) mc_fail("state-not-transferred", "taking says %d with %d there", r, v); v -= r; }
                else if (v == 0) { if (K::all(*x.h, x.max)) v = x.max; else { K::put(*x.h); v = 1; } }
            }
        }
        agree();
    }
    for (auto &x : s) if (x.h && x.obj >= 0) { int &v = val[x.obj]; for (; v > 0; --v) MC_CHECK(K::take(*x.h), "state-not-transferred"); MC_CHECK(!K::take(*x.h), "state-not-transferred"); K::put(*x.h); MC_CHECK(K::take(*x.h), "state-not-transferred"); }
    for (auto &x : s) if (x.h) { delete x.h; x.h = nullptr; drop(x); agree(); }
}
// --- as the standard library moves them --------------------------------------------------------
template <typename K> static void containers(int)
{
    using T = typename K::type;
    {
        std::vector<T> v; for (int i = 0; i < 3; ++i) { std::unique_ptr<T> p(K::make(K::START > 1 ? i & 1 : 0, 2, i)); if (K::START == 1 && i & 1) K::put(*p); v.push_back(std::move(*p)); MC_CHECK(!p->isValid(), "validity"); }
        auto is = [&](int k, int i) { MC_CHECK(v[k].isValid(), "validity"); check_name<K>(v[k], i); const bool r = K::take(v[k]); if (r != (i == 1)) mc_fail("state-not-transferred", "element %d after the moves", i); if (r) K::put(v[k]); };
        for (int i = 0; i < 3; ++i) is(i, i);
        switch (mc_choose(6))
        {
            case 0: std::swap(v[0], v[1]); is(0, 1); is(1, 0); is(2, 2); break;
            case 1: std::reverse(v.begin(), v.end()); is(0, 2); is(1, 1); is(2, 0); break;
            case 2: std::rotate(v.begin(), v.begin() + 1, v.end()); is(0, 1); is(1, 2); is(2, 0); break;
            case 3: v.erase(v.begin()); is(0, 1); is(1, 2); break;
            case 4: v.clear(); MC_CHECK(mc_sem_open_handles() == 0 && mc_sem_local_live() == 0, "object-leaked"); break;
            case 5: { std::vector<T> w(std::move(v)); v = std::move(w); is(0, 0); is(1, 1); is(2, 2); auto f = [](T t) { MC_CHECK(t.isValid(), "validity"); return t; }; v[1] = f(std::move(v[1])); is(1, 1); std::swap(v[2], v[2]); is(2, 2); v[0] = std::move(v[0]); is(0, 0); break; }
        }
    }
    MC_CHECK(mc_sem_open_handles() == 0 && mc_sem_local_live() == 0 && mc_sem_names() == 0, "object-leaked");
}
// --- the moved object is the one others already use ---------------------------------------------
template <typename K> static void with_others(int)
{
    using T = typename K::type; std::unique_ptr<T> owner(K::make(0, 2, 0)), peer(K::make(0, 2, 0, OPEN)), other(K::make(0, 2, 1));
    std::thread t([&] { while (!K::take(*peer)) std::this_thread::yield(); });
    std::unique_ptr<T> moved; if (mc_choose(2)) moved.reset(new T(std::move(*owner))); else { *other = std::move(*owner); moved = std::move(other); }
    MC_CHECK(mc_sem_names() == 1 + (other != nullptr), "released-too-much"); if (mc_choose(2)) owner.reset(); K::put(*moved); t.join(); MC_CHECK(!K::take(*moved), "state-not-transferred");
    if (mc_choose(2)) { *peer = std::move(*moved); MC_CHECK(mc_sem_exists("a"), "released-too-much"); moved.reset(); MC_CHECK(mc_sem_exists("a"), "released-too-much"); K::put(*peer); MC_CHECK(K::take(*peer), "state-not-transferred"); peer.reset(); }
    else { moved.reset(); }
    MC_CHECK(!mc_sem_exists("a"), "object-leaked");
}
// --- handed from thread to thread ----------------------------------------------------------------
template <typename K> static void handed(int)
{
    using T = typename K::type; std::unique_ptr<T> a(K::make(0, 2, 0));
    std::thread t([s = std::move(*a)]() mutable { MC_CHECK(s.isValid(), "validity"); K::put(s); T u(std::move(s)); MC_CHECK(K::take(u), "state-not-transferred"); });
    MC_CHECK(!a->isValid(), "validity"); a.reset(K::NAMED ? K::make(0, 2, 1) : K::make(0, 2, 0)); K::put(*a); t.join(); MC_CHECK(K::take(*a), "state-not-transferred");
}
// --- a wait on what was moved blocks or not as it did before -----------------------------------------
template <typename T> static auto block(T &t, int) -> decltype(t.wait()) { return t.wait(); }
template <typename T> static auto block(T &t, long) -> decltype(t.lock()) { return t.lock(); }
template <typename K> static void waits(int)
{
    using T = typename K::type; bool set[3]; std::unique_ptr<T> o[3];
    // a moved-from, possibly used before; b the one it is moved to; c the one b is assigned from later
    for (int i = 0; i < 3; ++i) { o[i].reset(K::make(0, 2, i)); const int use = mc_choose(3); set[i] = use == 1; if (use) K::put(*o[i]); if (use == 2) MC_CHECK(block(*o[i], 0), "wait-failed"); if (use == 2 && K::START == 1) while (K::take(*o[i])) {} }
    std::unique_ptr<T> x; bool want = false;
    switch (mc_choose(4))
    {
        case 0: x.reset(new T(std::move(*o[0]))); want = set[0]; break;
        case 1: *o[1] = std::move(*o[0]); x = std::move(o[1]); want = set[0]; break;
        case 2: *o[1] = std::move(*o[0]); *o[1] = std::move(*o[2]); x = std::move(o[1]); want = set[2]; break;
        case 3: *o[1] = std::move(*o[0]); *o[0] = std::move(*o[2]); if (mc_choose(2)) std::swap(*o[0], *o[1]); else std::swap(set[0], set[2]); x = std::move(o[0]); want = set[0]; break;
    }
    std::atomic<int> through{0}; std::thread t([&] { MC_CHECK(block(*x, 0), "wait-failed"); through.store(1); }); mc_quiesce();
    if (bool(through.load()) != want) mc_fail("state-not-transferred", "a wait on what was moved %s", want ? "blocks, although it was set" : "does not block, although it was not set");
    if (!want) K::put(*x); t.join();
}
#define KIND(name, K, d) \
    MC_SCENARIO("C21", name "-sequences", sequences<K>, nullptr, d, 0, 0, MC_SEQ); \
    MC_SCENARIO("C21", name "-containers", containers<K>, nullptr, 0, 0, 0, MC_SEQ); \
    MC_SCENARIO("C21", name "-waits", waits<K>, nullptr, 0, 1, 3, 0); \
    MC_SCENARIO("C21", name "-handed", handed<K>, nullptr, 0, 99, 99, 0)
KIND("semaphore", l_sem, 6); KIND("event", l_evt, 7); KIND("auto-event", l_auto, 7);
KIND("global-semaphore", g_sem, 5); KIND("global-event", g_evt, 6); KIND("global-auto-event", g_auto, 6); KIND("mutex", g_mtx, 5);
MC_SCENARIO("C21", "global-semaphore-shared", with_others<g_sem>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C21", "global-event-shared", with_others<g_evt>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C21", "global-auto-event-shared", with_others<g_auto>, nullptr, 0, 99, 99, 0);
MC_SCENARIO("C21", "mutex-shared", with_others<g_mtx>, nullptr, 0, 99, 99, 0);
