// C09: partitioners hand out every index of the range exactly once.
#include "common.h"
#include <climits>

static const int N = 9;                                        // largest size of the enumerated ranges
static int g_seen[64];                                         // plain: two draws returning the same index are a data race
struct rng { int64_t f, l; };
static bool g_atomic; static int g_limit, g_grab; static int64_t g_first, g_last;

static const char *desc() { static char b[160]; snprintf(b, sizeof b, "%s partitioner [%ld, %ld) limit %d grab %d", g_atomic ? "atomic" : "simple", (long)g_first, (long)g_last, g_limit, g_grab); return b; }
// oracle over all ranges handed out, in any order
static void judge(std::vector<rng> v, int batches, bool valid)
{
    const int64_t n = g_last > g_first ? g_last - g_first : 0;
    if (valid != (n > 0)) mc_fail("validity", "%s: valid %d", desc(), valid);
    if (n == 0) { if (!v.empty()) mc_fail("not-covered", "%s: hands out [%ld, %ld)", desc(), (long)v[0].f, (long)v[0].l); return; }
    if (batches < 1 || batches > g_limit || batches > n) mc_fail("batch-count", "%s: %d batches", desc(), batches);
    std::sort(v.begin(), v.end(), [](const rng &a, const rng &b) { return a.f < b.f || (a.f == b.f && a.l < b.l); });
    int64_t at = g_first, mn = INT64_MAX, mx = 0;
    for (auto &r : v)
    {
        if (r.l <= r.f) mc_fail("empty-range", "%s: hands out [%ld, %ld)", desc(), (long)r.f, (long)r.l);
        if (r.f < g_first || r.l > g_last) mc_fail("outside", "%s: hands out [%ld, %ld)", desc(), (long)r.f, (long)r.l);
        if (r.f != at) mc_fail(r.f < at ? "handed-out-twice" : "not-covered", "%s: index %ld is %s", desc(), (long)std::min(r.f, at), r.f < at ? "handed out twice" : "missing");
        at = r.l; mn = std::min(mn, r.l - r.f); mx = std::max(mx, r.l - r.f);
    }
    if (at != g_last) mc_fail("not-covered", "%s: index %ld is missing", desc(), (long)at);
    if (g_atomic) { if (mx > g_grab) mc_fail("grab-size", "%s: a range has %ld elements", desc(), (long)mx); }
    else { if ((int)v.size() != batches) mc_fail("batch-count", "%s: %zu ranges, %d batches announced", desc(), v.size(), batches); if (mx - mn > 1) mc_fail("uneven", "%s: ranges of %ld and %ld elements", desc(), (long)mn, (long)mx); }
}
template <typename P> static void drain(P &p, std::vector<rng> v = {})
{
    int32_t f = -77, l = -77;
    const bool valid = p.isValid(); const int b = p.batchCount();
    if (valid && p.elementCount() != g_last - g_first) mc_fail("element-count", "%s: %d elements", desc(), p.elementCount());
    while (v.size() < 40 && p.getNextValidRange(f, l)) v.push_back({f, l});
    judge(v, b, valid);
    for (int i = 0; i < 3; ++i) if (p.getNextValidRange(f, l)) mc_fail("something-left", "%s: [%d, %d) after everything was handed out", desc(), f, l);
}
// a copy continues where the original was when it was made, and the two do not influence each other
template <typename P> static void check(P &p, int copy)
{
    std::vector<rng> v; int32_t f = -77, l = -77;
    for (int i = 2; i <= copy; ++i) if (p.getNextValidRange(f, l)) v.push_back({f, l});
    if (copy) { P q(p); if (copy & 1) { drain(q, v); drain(p, v); } else { drain(p, v); drain(q, v); } }
    else drain(p);
}
static void both(int how)
{
    g_limit = how & 4 ? g_limit : 1 + mc_choose(N + 3); g_grab = g_atomic ? (how & 4 ? g_grab : 1 + mc_choose(N + 3)) : 0;
    const int copy = mc_choose(6);
    if (g_atomic)
    {
        if (how & 2) { atomic_partitioner p((int32_t)g_last, g_grab, g_limit); check(p, copy); }
        else { atomic_partitioner p((int32_t)g_first, (int32_t)g_last, g_grab, g_limit); check(p, copy); }
    }
    else
    {
        if (how & 2) { simple_partitioner p((int32_t)g_last, g_limit); check(p, copy); }
        else { simple_partitioner p((int32_t)g_first, (int32_t)g_last, g_limit); check(p, copy); }
    }
}
// every small range: starts -N..N, sizes -3..N
static void sequential(int how)
{
    g_atomic = how & 1;
    g_first = how & 2 ? 0 : mc_choose(2 * N + 1) - N; g_last = g_first + mc_choose(N + 4) - 3;
    both(how);
}
// ranges at the limits of int, with limits and grab sizes of any magnitude
static void extreme(int how)
{
    g_atomic = how & 1;
    static const int64_t f[] = {INT_MIN, INT_MIN + 1, -1000000000, -2, -1, 0, 1, 2, 1000000000, INT_MAX - 3, INT_MAX - 1, INT_MAX};
    static const int64_t n[] = {0, 1, 2, 3, 7, 1000000007, INT_MAX - 1, INT_MAX, -1, -1000000007};
    static const int lim[] = {1, 2, 3, 4, 7, 8, 16, 32, 1000, INT_MAX - 1, INT_MAX};
    static const int gr[] = {1, 2, 100000000, 1000000000, INT_MAX - 1, INT_MAX};
    g_first = f[mc_choose(12)]; g_last = g_first + n[mc_choose(10)];
    if (g_last > INT_MAX || g_last < INT_MIN) return;
    const int64_t size = g_last - g_first;
    g_limit = lim[mc_choose(11)]; g_grab = g_atomic ? gr[mc_choose(6)] : 0;
    // more ranges than can be enumerated
    if (g_atomic ? size / g_grab > 36 : (size > 36 && g_limit > 36)) return;
    both(how | 4);
}
// T threads drawing D ranges each, the rest is drawn by the first one
template <typename P, int T> static void draw(P &p, int draws)
{
    static std::vector<rng> v[T]; static P *pp; pp = &p; static int D; D = draws;
    for (auto &x : v) { x.clear(); x.reserve(32); }
    auto body = [](int k)
    {
        int32_t f = -77, l = -77;
        for (int i = 0; i < D; ++i)
        {
            if (!pp->getNextValidRange(f, l)) { if (pp->getNextValidRange(f, l)) mc_fail("something-left", "%s: [%d, %d) after a draw said there is nothing left", desc(), f, l); break; }
            if (f < g_first || l > g_last || l <= f) mc_fail("outside", "%s: hands out [%d, %d)", desc(), f, l);
            for (int x = f; x < l; ++x) if (g_seen[x - g_first]++) mc_fail("handed-out-twice", "%s: index %d is handed out twice", desc(), x);
            v[k].push_back({f, l});
        }
    };
    std::unique_ptr<std::thread> t[T];
    for (int k = 1; k < T; ++k) t[k].reset(new std::thread(body, k));
    body(0);
    for (int k = 1; k < T; ++k) t[k]->join();
    std::vector<rng> all; for (auto &x : v) all.insert(all.end(), x.begin(), x.end());
    int32_t f, l; while (all.size() < 40 && p.getNextValidRange(f, l)) all.push_back({f, l});
    judge(all, p.batchCount(), p.isValid());
    if (p.getNextValidRange(f, l)) mc_fail("something-left", "%s: [%d, %d) after everything was handed out", desc(), f, l);
    uint64_t h = 0; for (auto &x : v) { h = h * 131 + x.size(); for (auto &r : x) h = h * 31 + r.f + 100; } mc_outcome(h);
    for (auto &x : v) { x.clear(); x.shrink_to_fit(); }
}
template <int T, int D> static void concurrent(int how)
{
    g_atomic = how & 1;
    static const int f[] = {0, -3, 5}; g_first = f[mc_choose(3)]; g_last = g_first + mc_choose(6);
    g_limit = 1 + mc_choose(4); g_grab = 1 + (g_atomic ? mc_choose(3) : 0);
    if (g_atomic) { atomic_partitioner p((int)g_first, (int)g_last, g_grab, g_limit); draw<atomic_partitioner, T>(p, D); }
    else { simple_partitioner p((int)g_first, (int)g_last, g_limit); draw<simple_partitioner, T>(p, D); }
}
MC_SCENARIO("C09", "simple", sequential, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "atomic", sequential, nullptr, 1, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "simple-by-count", sequential, nullptr, 2, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "atomic-by-count", sequential, nullptr, 3, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "simple-extreme", extreme, nullptr, 0, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "atomic-extreme", extreme, nullptr, 1, 0, 0, MC_SEQ);
MC_SCENARIO("C09", "simple-two-threads", (concurrent<2, 2>), nullptr, 0, 3, 14, 0);
MC_SCENARIO("C09", "atomic-two-threads", (concurrent<2, 2>), nullptr, 1, 3, 14, 0);
MC_SCENARIO("C09", "simple-two-threads-all", (concurrent<2, 6>), nullptr, 0, 2, 4, 0);
MC_SCENARIO("C09", "atomic-two-threads-all", (concurrent<2, 6>), nullptr, 1, 2, 4, 0);
MC_SCENARIO("C09", "simple-three-threads", (concurrent<3, 2>), nullptr, 0, 2, 4, 0);
MC_SCENARIO("C09", "atomic-three-threads", (concurrent<3, 2>), nullptr, 1, 2, 4, 0);
static void large(int n)
{
    g_atomic = mc_choose(2); g_first = mc_choose(2) ? -n / 2 : 0; g_last = g_first + n; static const int LIM[] = {1, 7, 255, 256, 257, 1000, 65536}; g_limit = LIM[mc_choose(7)]; g_grab = 1 + mc_choose(3); std::vector<rng> v; v.reserve(n); int32_t f = -77, l = -77; int b = 0; bool valid = false;
    auto go = [&](auto &p) { b = p.batchCount(); valid = p.isValid(); MC_CHECK(p.elementCount() == n, "element-count"); while ((int)v.size() <= n && p.getNextValidRange(f, l)) v.push_back({f, l}); for (int i = 0; i < 300; ++i) if (p.getNextValidRange(f, l)) mc_fail("something-left", "%s", desc()); };
    if (g_atomic) { atomic_partitioner p((int)g_first, (int)g_last, g_grab, g_limit); go(p); } else { simple_partitioner p((int)g_first, (int)g_last, g_limit); go(p); }
    judge(v, b, valid);
}
MC_SCENARIO("C09", "large", large, nullptr, 700, 0, 1, MC_SEQ | MC_LONG);
