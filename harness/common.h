// Shared by all harnesses.
#pragma once
#include "mc.h"
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <chrono>
#include <string>
#include <thread>
#include <vector>
#include <memory>
#include <semaphore.h>
#include <pthread.h>
#include <errno.h>
#include <cassert>
#include <iostream>
#include "oqpi.hpp"
#include "oqpi/synchronization/mutex.hpp"

using namespace oqpi;
using sched_t = oqpi::scheduler<concurrent_queue>;
using thr_t   = oqpi::thread_interface<>;
using sem_if  = oqpi::semaphore_interface<>;
using evt_t   = oqpi::manual_reset_event_interface<>;

// --- scheduler set-up ------------------------------------------------------------------------
template <typename Ctx = empty_worker_context>
inline void add_workers(sched_t &s, int n, worker_priority p = worker_priority::wprio_any, const char *name = "w")
{
    worker_config c;
    c.threadAttributes.name_ = name;
    c.workerPrio = p;
    c.count = n;
    s.registerWorker<thr_t, sem_if, Ctx>(c);
}

template <task_type T = task_type::waitable, typename Ctx = empty_task_context, typename F>
inline auto mk(F &&f, task_priority p = task_priority::normal)
{
    return oqpi::make_task<T, evt_t, Ctx>("t", p, std::forward<F>(f));
}
template <typename F> inline auto mk_ff(F &&f, task_priority p = task_priority::normal)
{
    return oqpi::make_task<task_type::fire_and_forget, evt_t, empty_task_context>("t", p, std::forward<F>(f));
}
template <task_type T = task_type::waitable, typename GC = empty_group_context>
inline auto mk_fork(sched_t &s, int cap = 0, task_priority p = task_priority::normal)
{
    return oqpi::make_parallel_group<T, GC>(s, "g", p, 0, cap);
}
template <task_type T = task_type::waitable, typename GC = empty_group_context>
inline auto mk_seq(sched_t &s, task_priority p = task_priority::normal)
{
    return oqpi::make_sequence_group<T, GC>(s, "g", p);
}
inline task_handle H(task_sptr p) { return task_handle(std::move(p)); }

// --- bookkeeping of the scenarios ------------------------------------------------------------
// Deliberately plain variables: an execution that reaches them from two threads without the
// library having ordered them is reported as a data race.
static int  g_ran[32];
static int  g_data[32];
// Bodies of scenario threads other than the library's
template <typename F> struct user_thread
{
    std::thread t;
    explicit user_thread(F f) : t(std::move(f)) {}
    ~user_thread() { t.join(); }
};
enum ev { EV_RUN = 1, EV_END, EV_ENTER, EV_LEAVE, EV_NOTE };
