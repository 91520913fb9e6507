// Histories of blocking objects: every call and return is a globally ordered event; the oracle looks for an order of the
// calls, respecting real time, in which a sequential specification gives the same results and in which the calls still
// blocked at the end are entitled to be.
#pragma once
#include "common.h"
#include <climits>

struct hop { int thread, kind, arg, res, inv, ret; };      // ret == INT_MAX: still blocked when everything had come to rest
static hop g_h[64]; static int g_next[8];
static const int EV_REST = 100;
static int h_call(int thread, int kind, int arg = 0)
{
    const int k = 8 * thread + g_next[thread]++; g_h[k] = {thread, kind, arg, 0, 0, 0};
    mc_event(EV_ENTER, k, 0); return k;
}
static bool h_ret(int k, int res = 1) { g_h[k].res = res; mc_event(EV_LEAVE, k, res); return res; }
static void h_rest() { mc_quiesce_event(EV_REST); }
struct history { std::vector<hop> ops; std::string text(const char *names) const
{
    std::string s;
    for (auto &o : ops) { char b[80]; snprintf(b, sizeof b, " t%d:%c(%d)[%d,%s]=%d", o.thread, o.kind, o.arg, o.inv, o.ret == INT_MAX ? "blocked" : std::to_string(o.ret).c_str(), o.res); s += b; }
    return s;
} };
static history h_collect()
{
    history h; int at[64], rest = 0; memset(at, -1, sizeof at);
    for (int i = 0; i < mc_log_size(); ++i)
    {
        const auto &e = mc_log()[i];
        if (e.type == EV_REST) { rest = 1; break; }
        if (e.type == EV_ENTER) { at[e.a] = h.ops.size(); hop o = g_h[e.a]; o.inv = i; o.ret = INT_MAX; h.ops.push_back(o); }
        else if (e.type == EV_LEAVE) { h.ops[at[e.a]].ret = i; h.ops[at[e.a]].res = e.b; }
    }
    return h;
}
// Spec: int next(const hop &, int state, int *out) gives the states the completed call may lead to; bool rest(int state, const hop &blocked)
template <typename Spec> static bool h_lin(const history &h, unsigned done, int state)
{
    bool all = true; int limit = INT_MAX;
    for (unsigned i = 0; i < h.ops.size(); ++i) if (!(done >> i & 1) && h.ops[i].ret != INT_MAX) { all = false; limit = std::min(limit, h.ops[i].ret); }
    if (all)
    {
        for (unsigned i = 0; i < h.ops.size(); ++i) if (h.ops[i].ret == INT_MAX && !Spec::rest(state, h.ops[i])) return false;
        return true;
    }
    for (unsigned i = 0; i < h.ops.size(); ++i)
    {
        const hop &o = h.ops[i];
        if (done >> i & 1 || o.ret == INT_MAX || o.inv > limit) continue;
        int out[8]; const int n = Spec::next(o, state, out);
        for (int k = 0; k < n; ++k) if (h_lin<Spec>(h, done | 1u << i, out[k])) return true;
    }
    return false;
}
static void h_outcome(const history &h) { uint64_t v = 0; for (auto &o : h.ops) v = v * 1000003 + o.thread * 512 + o.kind * 4 + o.res * 2 + (o.ret == INT_MAX); mc_outcome(v); }
// waits up to an hour at a time until it succeeds
template <typename S> static bool wait_hours(S &s)
{
    for (uint64_t t0 = mc_now(); !s.waitFor(std::chrono::hours(1)); t0 = mc_now()) if (mc_now() - t0 < 3600000000000ull) mc_fail("gave-up-early", "a wait for an hour failed after %llu ns", (unsigned long long)(mc_now() - t0));
    return true;
}
