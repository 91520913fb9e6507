// C32: what a user plugs in is what is used: layers on synchronization objects and threads, queues, notifiers, threads,
// events and partitioners of the user's own.
#include "common.h"
#include <map>
#include <mutex>
#include <condition_variable>
using namespace std::chrono;
static void note() { mc_hb_none_get(9); }                     // (a scheduling point inside the parts plugged in)

// --- layers on synchronization objects ---------------------------------------------------------------------------
enum op { NOTIFY, NOTIFY_ALL, TRY, WAIT, WAIT_FOR, RESET, UNLOCK, VALID, HANDLE, JOIN, DETACH, JOINABLE, SETP, GETP, SETA, GETA, ID, LAUNCH, OPS };
static const char *const OPNAME[] = {"notify", "notifyAll", "tryWait/tryLock", "wait/lock", "waitFor/tryLockFor", "reset", "unlock", "isValid", "getNativeHandle", "join", "detach", "joinable", "setPriority", "getPriority", "setCoreAffinityMask", "getCoreAffinityMask", "getId", "launch"};
static int g_n[OPS]; static long g_arg; static int g_lie;    // calls seen by a layer; what they were given; whether it turns answers round
static void forget() { memset(g_n, 0, sizeof g_n); g_arg = -1; }
static bool twist(bool b) { return g_lie ? !b : b; }
static void seen(int o, long arg = -1) { ++g_n[o]; if (arg != -1) g_arg = arg; }
static void exactly(int o, long arg = -1)
{
    for (int i = 0; i < OPS; ++i) if (i != JOINABLE && g_n[i] != (i == o)) mc_fail("layer", "%s reaches the layer %d times during one call of %s", OPNAME[i], g_n[i], o < 0 ? "none of them" : OPNAME[o]);
    if (arg != -1 && g_arg != arg) mc_fail("layer-argument", "%s is given %ld instead of %ld", OPNAME[o], g_arg, arg);
    forget();
}
#define LAYER_COMMON(name) \
    int tag = 0; name() = default; \
    template <typename A, typename... R, typename = std::enable_if_t<!std::is_base_of<name, std::decay_t<A>>::value>> name(A &&a, R &&...r) : Base<I>(std::forward<A>(a), std::forward<R>(r)...) {} \
    name(name &&) = default; name &operator=(name &&) = default; \
    bool isValid() const { seen(VALID); return twist(Base<I>::isValid()); } \
    typename I::native_handle_type getNativeHandle() const { seen(HANDLE); return Base<I>::getNativeHandle(); }
template <template <typename> class Base> struct on
{
    template <typename I> struct sem : Base<I>
    {
        LAYER_COMMON(sem)
        void notify(int32_t n) { seen(NOTIFY, n); Base<I>::notify(n); }
        void notifyAll() { seen(NOTIFY_ALL); Base<I>::notifyAll(); }
        bool tryWait() { seen(TRY); return twist(Base<I>::tryWait()); }
        bool wait() { seen(WAIT); return twist(Base<I>::wait()); }
        template <typename R, typename P> bool waitFor(const duration<R, P> &t) { seen(WAIT_FOR, duration_cast<nanoseconds>(t).count()); return twist(Base<I>::waitFor(t)); }
    };
    template <typename I> struct evt : Base<I>
    {
        LAYER_COMMON(evt)
        void notify() { seen(NOTIFY); Base<I>::notify(); }
        bool wait() { seen(WAIT); return twist(Base<I>::wait()); }
        void reset() { seen(RESET); Base<I>::reset(); }
        template <typename R, typename P> bool waitFor(const duration<R, P> &t) { seen(WAIT_FOR, duration_cast<nanoseconds>(t).count()); return twist(Base<I>::waitFor(t)); }
    };
    template <typename I> struct mtx : Base<I>
    {
        LAYER_COMMON(mtx)
        bool lock() { seen(WAIT); return twist(Base<I>::lock()); }
        bool tryLock() { seen(TRY); return twist(Base<I>::tryLock()); }
        void unlock() { seen(UNLOCK); Base<I>::unlock(); }
        template <typename R, typename P> bool tryLockFor(const duration<R, P> &t) { seen(WAIT_FOR, duration_cast<nanoseconds>(t).count()); return twist(Base<I>::tryLockFor(t)); }
    };
};
static const nanoseconds T = milliseconds(5);
template <typename X> static auto until() { return X::now() + T; }
// operations one after the other on one object with a layer, which may turn the answers round; and the same with none, as far as
// can be told from outside
template <typename S> static void sem_ops(S &s, int len, int value, int max)
{
    for (int i = 0; i < len; ++i)
    {
        const int o = mc_choose(8); g_lie = mc_choose(2); forget(); bool r = false, want = value > 0; int n = 0;
        switch (o)
        {
        case 0: n = 1 + mc_choose(3); s.notify(n); exactly(NOTIFY, n); value += n; break;
        case 1: s.notifyOne(); exactly(NOTIFY, 1); ++value; break;
        case 2: if (value) { --i; s.tryWait(); --value; break; } s.notifyAll(); exactly(NOTIFY_ALL); value += max; break;
        case 3: r = s.tryWait(); exactly(TRY); break;
        case 4: if (!value) { s.notifyOne(); ++value; forget(); } r = s.wait(); exactly(WAIT); want = true; break;
        case 5: r = s.waitFor(T); exactly(WAIT_FOR, T.count()); break;
        case 6: r = s.waitUntil(until<system_clock>()); exactly(WAIT_FOR, T.count()); break;
        case 7: r = s.isValid(); exactly(VALID); MC_CHECK(s.getNativeHandle() != nullptr, "layer"); exactly(HANDLE); if (r == bool(g_lie)) mc_fail("layer-answer", "isValid says %d", r); break;
        }
        if (o >= 3 && o <= 6) { if (r != (g_lie ? !want : want)) mc_fail("layer-answer", "operation %d says %d, the layer's answer is %d", o, r, g_lie ? !want : want); value -= want; }
        MC_CHECK(mc_sem_value(s.getNativeHandle()) == value, "count"); g_lie = 0;
    }
}
static void layered_semaphore(int len)
{
    using S = semaphore_interface<on<local_sync_object>::sem>; using G = semaphore_interface<on<global_sync_object>::sem>; g_lie = 0;
    if (mc_choose(2)) { S s(1, 3); sem_ops(s, len, 1, 3); } else { G s("n", sync_object_creation_options::create_if_nonexistent, 1, 3); MC_CHECK(s.getName() == "n", "name"); sem_ops(s, len, 1, 3); }
}
template <typename E> static void evt_ops(E &s, int len, bool manual)
{
    bool set = false;
    for (int i = 0; i < len; ++i)
    {
        const int o = mc_choose(6); g_lie = mc_choose(2); forget(); bool r = false, want = set;
        switch (o)
        {
        case 0: if (set && !manual) { s.wait(); set = false; forget(); } s.notify(); exactly(NOTIFY); set = true; break;
        case 1: if constexpr (std::is_same<E, manual_reset_event_interface<on<local_sync_object>::template evt>>::value) { s.reset(); exactly(RESET); set = false; } break;
        case 2: if (!set) { s.notify(); set = true; forget(); } r = s.wait(); exactly(WAIT); want = true; break;
        case 3: r = s.waitFor(T); exactly(WAIT_FOR, T.count()); break;
        case 4: r = s.waitUntil(until<system_clock>()); exactly(WAIT_FOR, T.count()); break;
        case 5: r = s.isValid(); exactly(VALID); MC_CHECK(s.getNativeHandle() != nullptr, "layer"); exactly(HANDLE); if (r == bool(g_lie)) mc_fail("layer-answer", "isValid says %d", r); break;
        }
        if (o >= 2 && o <= 4) { if (r != (g_lie ? !want : want)) mc_fail("layer-answer", "operation %d says %d, the layer's answer is %d", o, r, g_lie ? !want : want); set = manual && set; }
        g_lie = 0;
    }
}
static void layered_event(int len)
{
    g_lie = 0;
    if (mc_choose(2)) { manual_reset_event_interface<on<local_sync_object>::evt> e; evt_ops(e, len, true); }
    else if (mc_choose(2)) { auto_reset_event_interface<on<local_sync_object>::evt> e; evt_ops(e, len, false); }
    else { auto_reset_event_interface<on<global_sync_object>::evt> e("n"); MC_CHECK(e.getName() == "n", "name"); evt_ops(e, len, false); }
}
static void layered_mutex(int len)
{
    using M = mutex_interface<on<global_sync_object>::mtx>; g_lie = 0; bool held = mc_choose(2); M m("n", sync_object_creation_options::create_if_nonexistent, held); MC_CHECK(m.getName() == "n", "name");
    for (int i = 0; i < len; ++i)
    {
        const int o = mc_choose(9); g_lie = mc_choose(2); forget(); bool r = false, want = !held;
        switch (o)
        {
        case 0: if (held) { m.unlock(); held = false; forget(); } r = m.lock(); exactly(WAIT); want = true; break;
        case 1: r = m.tryLock(); exactly(TRY); break;
        case 2: r = m.try_lock(); exactly(TRY); break;
        case 3: r = m.tryLockFor(T); exactly(WAIT_FOR, T.count()); break;
        case 4: r = m.try_lock_for(T); exactly(WAIT_FOR, T.count()); break;
        case 5: r = m.tryLockUntil(until<system_clock>()); exactly(WAIT_FOR, T.count()); break;
        case 6: r = m.try_lock_until(until<system_clock>()); exactly(WAIT_FOR, T.count()); break;
        case 7: if (held) { m.unlock(); exactly(UNLOCK); held = false; } break;
        case 8: r = m.isValid(); exactly(VALID); MC_CHECK(m.getNativeHandle() != nullptr, "layer"); exactly(HANDLE); if (r == bool(g_lie)) mc_fail("layer-answer", "isValid says %d", r); break;
        }
        if (o <= 6) { if (r != (g_lie ? !want : want)) mc_fail("layer-answer", "operation %d says %d, the layer's answer is %d", o, r, g_lie ? !want : want); held = held || want; }
        g_lie = 0;
    }
}
// the layer's own data go with the object; moves do not operate on it
template <typename X, typename... A> static void moved(A &&...a)
{
    g_lie = 0; X x(std::forward<A>(a)...); x.tag = 7; forget(); const auto h = x.getNativeHandle(); forget();
    X y(std::move(x)); exactly(-1); MC_CHECK(y.tag == 7, "layer-data"); MC_CHECK(y.getNativeHandle() == h, "moved"); MC_CHECK(y.isValid() && !x.isValid(), "moved");
    forget(); x = std::move(y); exactly(-1); MC_CHECK(x.tag == 7, "layer-data"); MC_CHECK(x.getNativeHandle() == h && x.isValid() && !y.isValid(), "moved");
}
static void moves(int)
{
    moved<semaphore_interface<on<local_sync_object>::sem>>(1, 3); moved<semaphore_interface<on<global_sync_object>::sem>>("a", sync_object_creation_options::open_or_create, 1, 3);
    moved<manual_reset_event_interface<on<local_sync_object>::evt>>(); moved<auto_reset_event_interface<on<global_sync_object>::evt>>("b"); moved<mutex_interface<on<global_sync_object>::mtx>>("c", sync_object_creation_options::open_or_create, false);
    MC_CHECK(mc_sem_names() == 0 && mc_sem_local_live() == 0, "left-behind");
}

// --- layers on threads --------------------------------------------------------------------------------------------
template <typename I> struct thread_layer : I
{
    int tag = 0;
    void join() { seen(JOIN); I::join(); }
    void detach() { seen(DETACH); I::detach(); }
    bool joinable() const { seen(JOINABLE); return I::joinable(); }
    void setPriority(thread_priority p) { seen(SETP, long(p)); I::setPriority(p); }
    thread_priority getPriority() const { seen(GETP); return I::getPriority(); }
    void setCoreAffinityMask(core_affinity a) { seen(SETA, long(a)); I::setCoreAffinityMask(a); }
    core_affinity getCoreAffinityMask() const { seen(GETA); return I::getCoreAffinityMask(); }
    typename I::id getId() const { seen(ID); return I::getId(); }
    typename I::native_handle_type getNativeHandle() const { seen(HANDLE); return I::getNativeHandle(); }
};
using lthr_t = thread_interface<thread_layer>;
static void layered_thread(int len)
{
    mc_env_rtprio(1); mc_env_nproc(4); forget(); g_data[0] = 0; g_ran[0] = 0;
    lthr_t t(thread_attributes("t"), [] (int v) { mc_hb_none_wait(0); g_data[0] = v; ++g_ran[0]; }, 42); t.tag = 7; exactly(-1);
    for (int i = 0; i < len; ++i) switch (mc_choose(7))
    {
    case 0: { const auto p = thread_priority(mc_choose(6)); t.setPriority(p); exactly(SETP, long(p)); const auto q = t.getPriority(); exactly(GETP); MC_CHECK(p == q, "priority"); break; }
    case 1: { const auto a = core_affinity(1 + mc_choose(15)); t.setCoreAffinityMask(a); exactly(SETA, long(a)); const auto b = t.getCoreAffinityMask(); exactly(GETA); MC_CHECK(a == b, "affinity"); break; }
    case 2: { const int c = mc_choose(4); t.setCoreAffinity(c); exactly(SETA, 1l << c); break; }
    case 3: t.getId(); exactly(ID); t.getNativeHandle(); exactly(HANDLE); break;
    case 4: forget(); MC_CHECK(t.joinable() && g_n[JOINABLE] == 1, "layer"); exactly(-1); break;
    case 5: { lthr_t u(std::move(t)); exactly(-1); MC_CHECK(u.tag == 7, "layer-data"); MC_CHECK(u.joinable() && !t.joinable(), "moved"); t.tag = 0; t = std::move(u); exactly(-1); MC_CHECK(t.tag == 7, "layer-data"); MC_CHECK(t.joinable() && !u.joinable(), "moved"); break; }
    case 6: { lthr_t u; u.tag = 3; t = std::move(*&t); exactly(-1); MC_CHECK(t.tag == 7 && t.joinable() && !u.joinable(), "moved"); break; }
    }
    mc_hb_none_raise(0);
    if (mc_choose(2)) { t.join(); exactly(JOIN); MC_CHECK(g_ran[0] == 1 && g_data[0] == 42, "not-run"); } else { t.detach(); exactly(DETACH); mc_quiesce(); }
    MC_CHECK(!t.joinable(), "layer");
}

// --- a queue of the user's own: last in, first out ------------------------------------------------------------------
static std::mutex *g_qm; static int g_pushed, g_popped, g_queues, g_size;
template <typename X> struct lifo
{
    std::mutex m; std::vector<X> v;
    lifo() { ++g_queues; } ~lifo() { --g_queues; }
    void count(int &c) { std::lock_guard<std::mutex> l(*g_qm); ++c; }
    void push(X &&x) { std::lock_guard<std::mutex> l(m); v.emplace_back(std::move(x)); count(g_pushed); }
    void push(const X &x) { std::lock_guard<std::mutex> l(m); v.push_back(x); count(g_pushed); }
    bool tryPop(X &x) { std::lock_guard<std::mutex> l(m); if (v.empty()) return false; x = std::move(v.back()); v.pop_back(); count(g_popped); return true; }
    bool empty() const { return v.empty(); }
};
using lsched_t = oqpi::scheduler<lifo>;
static void lifo_order(int n)
{
    std::mutex m; g_qm = &m; g_pushed = g_popped = g_queues = 0; g_size = 0;
    {
        lsched_t s; worker_config c; c.threadAttributes.name_ = "w"; s.registerWorker<thr_t, sem_if>(c); s.start(); MC_CHECK(g_queues > 0, "queue");
        int order[8], k = 0; task_priority p[8]; std::vector<task_handle> h;
        auto b = mk([] { mc_hb_none_wait(0); }, task_priority::high); s.add(H(b)); while (!b->isGrabbed()) mc_yield();
        for (int i = 0; i < n; ++i) { p[i] = mc_choose(2) ? task_priority::normal : task_priority::low; h.push_back(s.add(H(mk([&order, &k, i] { order[k++] = i; }, p[i])))); }
        { std::lock_guard<std::mutex> l(m); MC_CHECK(g_pushed == n + 1 && g_popped == 1, "queue"); }
        mc_hb_none_raise(0); for (auto &x : h) x.wait();
        std::vector<int> want; for (auto q : {task_priority::normal, task_priority::low}) for (int i = n; i-- > 0;) if (p[i] == q) want.push_back(i);
        MC_CHECK(k == n && std::equal(want.begin(), want.end(), order), "order");
        s.stop(); MC_CHECK(g_popped == n + 1, "queue");
    }
    MC_CHECK(g_queues == 0, "queue");
}
static void lifo_busy(int workers)
{
    std::mutex m; g_qm = &m; g_pushed = g_popped = g_queues = 0; memset(g_ran, 0, sizeof g_ran);
    lsched_t s; worker_config c; c.threadAttributes.name_ = "w"; c.count = workers; s.registerWorker<thr_t, sem_if>(c);
    auto f = make_parallel_group<task_type::waitable, empty_group_context>(s, "f", task_priority::normal); for (int i = 0; i < 2; ++i) f->addTask(H(mk_ff([i] { ++g_ran[i]; })));
    auto a = mk([] { ++g_ran[2]; }); s.add(H(a)); s.start(); s.add(H(f)); f->wait(); a->wait(); for (int i = 0; i < 3; ++i) MC_CHECK(g_ran[i] == 1, "not-once");
    s.stop(); MC_CHECK(g_pushed == 3 && g_popped <= 3, "queue");   // both tasks; the fork's second member (its first one is executed in place)
}

// --- a notifier of the user's own ------------------------------------------------------------------------------------
static std::mutex *g_nm; static int g_notifiers, g_inside; static int g_fickle;
struct notifier_t
{
    std::mutex m; std::condition_variable c; int n = 0;
    notifier_t() { ++g_notifiers; } ~notifier_t() { --g_notifiers; }
    void in(int d) { std::lock_guard<std::mutex> l(*g_nm); g_inside += d; }
    bool idle() { std::lock_guard<std::mutex> l(*g_nm); if (!g_fickle || !mc_deviate(2)) return false; --g_fickle; return true; }
    bool wait() { in(1); { std::unique_lock<std::mutex> l(m); if (n || !idle()) { c.wait(l, [this] { return n > 0; }); --n; } } in(-1); return true; }
    bool tryWait() { std::lock_guard<std::mutex> l(m); if (!n) return false; --n; return true; }
    void notifyOne() { { std::lock_guard<std::mutex> l(m); ++n; } c.notify_one(); }
};
static void own_notifier(int fickle)
{
    std::mutex m; g_nm = &m; g_notifiers = g_inside = 0; g_fickle = 0; memset(g_ran, 0, sizeof g_ran); const int workers = 1 + mc_choose(2);
    {
        sched_t s; worker_config c; c.threadAttributes.name_ = "w"; c.count = workers; s.registerWorker<thr_t, notifier_t>(c); MC_CHECK(g_notifiers == workers, "notifiers"); { std::lock_guard<std::mutex> l(m); g_fickle = fickle; }
        auto a = mk([] { ++g_ran[0]; }); auto b = mk([] { ++g_ran[1]; }); s.add(H(a)); s.start(); s.add(H(b)); a->wait(); b->wait(); MC_CHECK(g_ran[0] == 1 && g_ran[1] == 1, "not-once");
        { std::lock_guard<std::mutex> l(m); g_fickle = 0; } mc_quiesce(); { std::lock_guard<std::mutex> l(m); if (g_inside != workers) mc_fail("slept-elsewhere", "%d of %d idle workers wait on the notifier", g_inside, workers); }
        auto d = mk([] { ++g_ran[2]; }); s.add(H(d)); d->wait(); MC_CHECK(g_ran[2] == 1, "not-once");
        mc_quiesce(); s.stop(); MC_CHECK(g_inside == 0, "slept-elsewhere");
    }
    MC_CHECK(g_notifiers == 0, "notifiers"); MC_CHECK(mc_sem_local_live() == 0, "left-behind");
}

// --- a thread type of the user's own --------------------------------------------------------------------------------
static std::mutex *g_tm; static int g_made, g_joined, g_alive; static bool g_names[4];
static thread_local int t_ours;
struct own_thread
{
    std::thread t;
    own_thread() = default; own_thread(own_thread &&) = default; own_thread &operator=(own_thread &&) = default;
    template <typename F> own_thread(const thread_attributes &a, F &&f)
    {
        ++g_made; if (a.name_ == "x") g_names[0] = true; else if (a.name_ == "x0") g_names[1] = true; else if (a.name_ == "x1") g_names[2] = true; else g_names[3] = true;
        if (a.stackSize_ != 131072 || a.coreAffinityMask_ != core_affinity::core1 || a.priority_ != thread_priority::lowest) mc_fail("attributes", "not what the worker was registered with");
        t = std::thread([f = std::decay_t<F>(std::forward<F>(f))]() mutable { t_ours = 1; { std::lock_guard<std::mutex> l(*g_tm); ++g_alive; } f(); std::lock_guard<std::mutex> l(*g_tm); --g_alive; });
    }
    bool joinable() const { return t.joinable(); }
    void join() { ++g_joined; t.join(); }
};
static void own_threads(int)
{
    std::mutex m; g_tm = &m; g_made = g_joined = g_alive = 0; memset(g_names, 0, sizeof g_names); const int workers = 1 + mc_choose(2);
    sched_t s; worker_config c; c.threadAttributes = thread_attributes("x", 131072, core_affinity::core1, thread_priority::lowest); c.count = workers; s.registerWorker<own_thread, sem_if>(c); MC_CHECK(g_made == 0, "threads");
    for (int round = 1; round <= 2; ++round)
    {
        int ours[3] = {}; std::vector<task_handle> h; h.push_back(s.add(H(mk([&ours] { ours[0] = t_ours; })))); s.start(); MC_CHECK(g_made == round * workers, "threads");
        for (int i = 1; i < 3; ++i) h.push_back(s.add(H(mk([&ours, i] { ours[i] = t_ours; })))); for (auto &x : h) x.wait(); for (int x : ours) MC_CHECK(x == 1, "executed-elsewhere");
        MC_CHECK(mc_thread_count() == 1 + g_made, "threads");
        s.stop(); MC_CHECK(g_made == round * workers && g_joined == round * workers && g_alive == 0, "threads");
    }
    MC_CHECK(!g_names[3] && g_names[0] == (workers == 1) && g_names[1] == (workers == 2) && g_names[2] == (workers == 2), "attributes");
}

// --- an event type of the user's own --------------------------------------------------------------------------------
struct own_event
{
    static inline std::mutex *gm; static inline int made, waiting, notified;
    struct state { std::mutex m; std::condition_variable c; bool set = false; };
    std::unique_ptr<state> s{new state};
    own_event() { std::lock_guard<std::mutex> l(*gm); ++made; }
    own_event(own_event &&) = default; own_event &operator=(own_event &&) = default;
    void in(int d) { std::lock_guard<std::mutex> l(*gm); waiting += d; }
    bool wait() { in(1); { std::unique_lock<std::mutex> l(s->m); s->c.wait(l, [this] { return s->set; }); } in(-1); return true; }
    void notify() { { std::lock_guard<std::mutex> l(*gm); ++notified; } { std::lock_guard<std::mutex> l(s->m); s->set = true; } s->c.notify_all(); }
};
static void own_events(int how)
{
    std::mutex m; own_event::gm = &m; own_event::made = own_event::waiting = own_event::notified = 0; memset(g_ran, 0, sizeof g_ran); const int sems = mc_sem_local_live();
    sched_t s;
    auto t = make_task<task_type::waitable, own_event, empty_task_context>("t", task_priority::normal, [] { mc_hb_none_wait(0); ++g_ran[0]; return 5; }); MC_CHECK(own_event::made == 1 && mc_sem_local_live() == sems, "events");
    auto f = make_task<task_type::fire_and_forget, own_event, empty_task_context>("f", task_priority::normal, [] { ++g_ran[1]; }); MC_CHECK(own_event::made == 1, "events");
    if (how == 2) { auto u = std::make_shared<std::decay_t<decltype(*t)>>(std::move(*t)); t = u; }                   // a task that was moved
    add_workers(s, 1); task_handle h(t); int got = 0; std::thread w([&] { if (how == 0) { h.wait(); got = t->getResult(); } else got = t->waitForResult(); });
    mc_quiesce(); { std::lock_guard<std::mutex> l(m); MC_CHECK(own_event::waiting == 1 && own_event::notified == 0, "slept-elsewhere"); }
    s.start(); s.add(h); s.add(task_handle(f)); mc_quiesce(); { std::lock_guard<std::mutex> l(m); MC_CHECK(own_event::waiting == 1 && own_event::notified == 0, "slept-elsewhere"); }
    mc_hb_none_raise(0); w.join(); MC_CHECK(got == 5 && g_ran[0] == 1, "result"); h.wait(); h.activeWait(); mc_quiesce(); s.stop(); MC_CHECK(g_ran[1] == 1 && own_event::notified == 1 && own_event::waiting == 0, "events");
}
// waits, active waits and completion with it, in all orders
static void own_events_busy(int)
{
    std::mutex m; own_event::gm = &m; own_event::made = own_event::waiting = own_event::notified = 0; memset(g_ran, 0, sizeof g_ran);
    sched_t s; add_workers(s, 1); s.start(); auto t = make_task<task_type::waitable, own_event, empty_task_context>("t", task_priority::normal, [] { ++g_ran[0]; });
    task_handle h = s.add(task_handle(t)); std::thread w([h]() mutable { h.wait(); MC_CHECK(g_ran[0] == 1, "early"); }); h.activeWait(); MC_CHECK(g_ran[0] == 1, "early"); w.join(); s.stop(); MC_CHECK(own_event::notified == 1, "events");
}

// --- a partitioner of the user's own --------------------------------------------------------------------------------
// hands out what it was made to, in any order, overlapping or empty ranges included
struct range { int a, b; };
struct own_partitioner
{
    static inline int copies;
    std::vector<range> r; int batches; bool valid; std::unique_ptr<std::mutex> m{new std::mutex}; size_t next = 0; int drawn = 0; bool copy = false; int *over;
    own_partitioner(std::vector<range> v, int n, bool ok, int *o) : r(std::move(v)), batches(n), valid(ok), over(o) {}
    own_partitioner(const own_partitioner &o) : r(o.r), batches(o.batches), valid(o.valid), next(o.next), copy(true), over(o.over) { ++copies; }
    bool isValid() const { return valid; }
    int32_t elementCount() const { return 4; }
    int32_t batchCount() const { return batches; }
    bool getNextValidRange(int32_t &a, int32_t &b) { std::lock_guard<std::mutex> l(*m); ++drawn; if (next == r.size()) { ++*over; return false; } a = r[next].a; b = r[next].b; ++next; return true; }
};
static void own_partition(int workers)
{
    static const std::vector<range> R[] = {{}, {{0, 4}}, {{3, 4}, {0, 1}, {2, 3}}, {{0, 2}, {1, 3}}, {{5, 5}, {-2, 0}}, {{0, 1}, {0, 1}, {0, 1}}};
    const auto &v = R[mc_choose(6)]; const int batches = 1 + mc_choose(2); const bool valid = mc_choose(4) != 0, index = mc_choose(2); own_partitioner::copies = 0; int over = 0; std::map<int, int> want, got; std::mutex m;
    if (valid) for (auto &x : v) for (int i = x.a; i < x.b; ++i) ++want[i];
    sched_t s; add_workers(s, workers); s.start(); own_partitioner p(v, batches, valid, &over); bool bad = false;
    if (index) parallel_for<evt_t, empty_group_context, empty_task_context>(s, "p", p, task_priority::normal, [&](int b, int i) { std::lock_guard<std::mutex> l(m); ++got[i]; bad |= b < 0 || b >= batches; });
    else       parallel_for<evt_t, empty_group_context, empty_task_context>(s, "p", p, task_priority::normal, [&](int i) { std::lock_guard<std::mutex> l(m); ++got[i]; });
    if (got != want) mc_fail("partition", "the function is not called for exactly the ranges handed out"); MC_CHECK(!bad, "batch-index");
    MC_CHECK(p.drawn == 0 && p.next == 0, "partition-original"); MC_CHECK(valid ? over >= 1 : over == 0, "partition"); s.stop();
}
// the toolkit with all of them
using own_tk = helpers<lsched_t, empty_group_context, empty_task_context, own_event>;
static void own_toolkit(int how)
{
    static_assert(std::is_same<decltype(own_tk::scheduler()), lsched_t &>::value, "the scheduler plugged in");
    std::mutex m, qm; own_event::gm = &m; own_event::made = own_event::waiting = own_event::notified = 0; g_qm = &qm; g_pushed = g_popped = 0; memset(g_ran, 0, sizeof g_ran); const int sems = mc_sem_local_live();
    own_tk::start_default_scheduler(1); const int more = mc_sem_local_live() - sems; int events = 0, notified = 0, pushed = 0; auto body = [] { mc_hb_none_wait(0); ++g_ran[0]; };
    switch (how)
    {
        case 0: { auto h = own_tk::schedule_task("t", task_priority::low, body); events = pushed = 1; std::thread w([h]() mutable { h.wait(); MC_CHECK(g_ran[0] == 1, "early"); }); mc_quiesce(); { std::lock_guard<std::mutex> l(m); MC_CHECK(own_event::waiting == 1 && own_event::made == 1, "slept-elsewhere"); } MC_CHECK(mc_sem_local_live() - sems == more, "events"); mc_hb_none_raise(0); w.join(); notified = 1; break; }
        case 1: { auto t = own_tk::make_task("t", [&] { body(); return 7; }); events = pushed = 1; MC_CHECK(own_event::made == 1, "events"); own_tk::schedule_task(task_handle(t)); int got = 0; std::thread w([&] { got = t->waitForResult(); }); mc_quiesce(); { std::lock_guard<std::mutex> l(m); MC_CHECK(own_event::waiting == 1, "slept-elsewhere"); } MC_CHECK(mc_sem_local_live() - sems == more, "events"); mc_hb_none_raise(0); w.join(); MC_CHECK(got == 7, "result"); notified = 1; break; }
        case 2: { mc_hb_none_raise(0); own_tk::fire_and_forget_task("t", task_priority::high, body); pushed = 1; MC_CHECK(own_event::made == 0 && mc_sem_local_live() - sems == more, "events"); break; }
        case 3: { mc_hb_none_raise(0); int over = 0; own_partitioner p({{2, 4}, {1, 2}}, 1, true, &over); int got = 0; own_tk::parallel_for("p", p, task_priority::normal, [&](int i) { got = got * 10 + i; if (i == 3) ++g_ran[0]; }); MC_CHECK(got == 231 && p.drawn == 0, "partition"); pushed = 1; MC_CHECK(own_event::made == 0, "events"); break; }
    }
    mc_quiesce(); own_tk::stop_scheduler(); MC_CHECK(g_ran[0] == 1, "not-once"); MC_CHECK(own_event::made == events && own_event::notified == notified && own_event::waiting == 0, "events"); MC_CHECK(g_pushed == pushed && g_popped == pushed, "queue");
}
MC_SCENARIO("C32", "layered-semaphore", layered_semaphore, nullptr, 3, 14, 14, MC_SEQ);
MC_SCENARIO("C32", "layered-event", layered_event, nullptr, 3, 14, 14, MC_SEQ);
MC_SCENARIO("C32", "layered-mutex", layered_mutex, nullptr, 3, 14, 14, MC_SEQ);
MC_SCENARIO("C32", "layered-moves", moves, nullptr, 0, 14, 14, MC_SEQ);
MC_SCENARIO("C32", "layered-thread", layered_thread, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C32", "layered-thread-long", layered_thread, nullptr, 3, 0, 1, 0);
MC_SCENARIO("C32", "queue-last-in-first-out", lifo_order, nullptr, 4, 1, 3, 0);
MC_SCENARIO("C32", "queue-busy", lifo_busy, nullptr, 1, 3, 5, 0);
MC_SCENARIO("C32", "queue-busy-2", lifo_busy, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C32", "notifier", own_notifier, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C32", "notifier-wakes-for-nothing", own_notifier, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C32", "threads", own_threads, nullptr, 0, 1, 3, 0);
MC_SCENARIO("C32", "events-wait", own_events, nullptr, 0, 2, 4, 0);
MC_SCENARIO("C32", "events-result", own_events, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C32", "events-moved", own_events, nullptr, 2, 2, 4, 0);
MC_SCENARIO("C32", "events-busy", own_events_busy, nullptr, 0, 4, 6, 0);
MC_SCENARIO("C32", "partitioner", own_partition, nullptr, 1, 2, 4, 0);
MC_SCENARIO("C32", "partitioner-2", own_partition, nullptr, 2, 1, 3, 0);
MC_SCENARIO("C32", "toolkit-task", own_toolkit, nullptr, 0, 2, 4, MC_NOLEAK);
MC_SCENARIO("C32", "toolkit-result", own_toolkit, nullptr, 1, 2, 4, MC_NOLEAK);
MC_SCENARIO("C32", "toolkit-forgotten", own_toolkit, nullptr, 2, 2, 4, MC_NOLEAK);
MC_SCENARIO("C32", "toolkit-parallel-for", own_toolkit, nullptr, 3, 2, 4, MC_NOLEAK);
