// The helpers with a scheduler that records what it is given (and can hand it to a real one).
#pragma once
#include "common.h"
#include <mutex>
#include "oqpi/scheduling_helpers.hpp"
#include "oqpi/parallel_algorithms/atomic_partitioner.hpp"

struct rec_state { std::mutex m; std::vector<task_handle> added; sched_t *real = nullptr; int workers = 1; };
static rec_state *g_rec;
struct rec_sched
{
    template <typename H_> task_handle add_(H_ &&h)
    {
        MC_CHECK(h.isValid(), "invalid-handle");
        { std::lock_guard<std::mutex> l(g_rec->m); g_rec->added.push_back(h); }
        if (g_rec->real) return g_rec->real->add(std::forward<H_>(h));
        return task_handle(std::forward<H_>(h));
    }
    task_handle add(const task_handle &h) { return add_(h); }
    task_handle add(task_handle &&h) { return add_(std::move(h)); }
    int workersCount(task_priority p) const { return g_rec->real ? g_rec->real->workersCount(p) : g_rec->workers; }
    int workersTotalCount() const { return g_rec->real ? g_rec->real->workersTotalCount() : g_rec->workers; }
};
// Contexts to tell apart: what the helpers use by default (0), and what is asked for. They know the task they were made for.
struct named;
static std::vector<named *> *g_named; static std::mutex g_named_m;
struct named
{
    std::string name; int kind; bool group; task_base *owner; int pre = 0, post = 0, seen = 0;
    named(const std::string &n, int k, bool g, task_base *o) : name(n), kind(k), group(g), owner(o) { std::lock_guard<std::mutex> l(g_named_m); if (g_named) g_named->push_back(this); }
    ~named() { std::lock_guard<std::mutex> l(g_named_m); if (g_named) g_named->erase(std::remove(g_named->begin(), g_named->end(), this), g_named->end()); }
};
template <int K> struct task_note : task_context_base, named { task_note(task_base *p, const std::string &n) : task_context_base(p, n), named(n, K, false, p) {} void onPreExecute() { ++pre; } void onPostExecute() { ++post; } };
template <int K> struct group_note : group_context_base, named { group_note(task_group_base *p, const std::string &n) : group_context_base(p, n), named(n, K, true, p) {} void onTaskAdded(const task_handle &) { ++seen; } void onPreExecute() { ++pre; } void onPostExecute() { ++post; } };
template <int K> using tc = task_context_container<task_note<K>>;
template <int K> using gc = group_context_container<group_note<K>>;
static named *of(const task_handle &h) { std::lock_guard<std::mutex> l(g_named_m); for (auto *n : *g_named) if (n->owner->getUID() == h.getUID()) return n; mc_fail("wrong-context", "a task has none of the contexts"); return nullptr; }
static bool waitable(const task_handle &h) { return dynamic_cast<notifier<task_type::waitable, evt_t> *>(of(h)->owner) != nullptr; }
static bool fire_and_forget(const task_handle &h) { return dynamic_cast<notifier<task_type::fire_and_forget, evt_t> *>(of(h)->owner) != nullptr; }
using tk = oqpi::helpers<rec_sched, gc<0>, tc<0>, evt_t>;
static void rec_begin(int workers = 0, int as_if = 1)
{
    g_rec = new rec_state; g_named = new std::vector<named *>; g_named->reserve(64); g_rec->workers = as_if; g_rec->added.reserve(64);
    if (workers) { g_rec->real = new sched_t; add_workers(*g_rec->real, workers); g_rec->real->start(); }
}
static void rec_end() { if (g_rec->real) { g_rec->real->stop(); delete g_rec->real; } delete g_rec; g_rec = nullptr; MC_CHECK(g_named->empty(), "not-released"); delete g_named; g_named = nullptr; }
// executes what was scheduled and not yet executed
static void rec_run() { for (size_t i = 0; i < g_rec->added.size(); ++i) { task_handle h = g_rec->added[i]; if (h.tryGrab()) h.execute(); } }
