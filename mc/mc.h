// Interface between harnesses and the model checking runtime (rt.cpp).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
// Free (cost 0) choice in [0,n): every value is explored.
int  mc_choose(int n);
// Choice in [0,n) where every value but 0 costs one deviation.
int  mc_deviate(int n);
// Globally ordered, visible event (scheduling point; conflicts with all other events; gives no
// happens-before edge). Kept in the log the oracle sees.
void mc_event(int type, long a, long b);
// Event without a scheduling point and without ordering; only this thread's order is meaningful.
void mc_event_local(int type, long a, long b);
// Reports a violation of the property being checked. Does not return when called from a thread
// of the scenario.
void mc_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Adds to the outcome fingerprint of this execution (vacuity statistics only).
void mc_outcome(uint64_t v);
int  mc_tid();
void mc_yield();
uint64_t mc_now();                       // virtual clock, ns (CLOCK_REALTIME)
// Blocks until *flag (a harness variable) was raised by mc_raise; gives no happens-before edge.
void mc_hb_none_wait(int flag);
void mc_hb_none_raise(int flag);
int  mc_hb_none_get(int flag);
// Returns when no other thread can proceed (without time passing); gives no happens-before edge.
void mc_quiesce();
void mc_quiesce_event(int type);         // and logs an event at that very moment

struct mc_log_entry { int tid; int type; long a, b; };
int  mc_log_size();
const mc_log_entry *mc_log();

// Environment set-up; call at the start of a scenario.
void mc_env_eintr(int budget);           // up to <budget> EINTR per execution (1 deviation each)
void mc_env_eintr_storm(int n);          // up to <n> EINTR per execution, for free
void mc_env_create_fail(int budget);     // pthread_create may be refused (1 deviation each)
void mc_env_sem_fail(int budget);        // sem_open may be refused (1 deviation each)
void mc_env_clock(uint64_t ns);          // set the virtual clock
void mc_env_tick(uint64_t ns);            // every look at the clock lets this much time pass
void mc_env_nproc(int n);
void mc_env_rtprio(int permitted);
void mc_env_maxspurious(int budget);     // spurious condition variable wake-ups
void mc_env_traps(int mode);             // what a debugger trap does: 0 is a violation, 1 goes on, 2 ends the execution well
int  mc_traps();                         // how many there were
int  mc_trap_thread(int i);              // and in which thread
// Observation of the modelled world
int  mc_live_threads();
int  mc_blocked_threads();               // threads of the scenario that cannot proceed now
int  mc_thread_blocked(int tid);
int  mc_thread_finished(int tid);
int  mc_thread_count();
const char *mc_thread_name(int tid);
uint64_t mc_thread_affinity(int tid);
int  mc_thread_policy(int tid);
int  mc_thread_prio(int tid);
uint64_t mc_thread_stacksize(int tid);
int  mc_thread_tid_of(unsigned long pthread);
int  mc_sem_names();                     // names present in the semaphore namespace
int  mc_sem_exists(const char *name);
int  mc_sem_open_handles();              // sem_open results not yet closed
int  mc_sem_local_live();                // sem_init results not yet destroyed
int  mc_sem_value(const void *sem);
void mc_sem_unlink_all();
int  mc_heap_live();                     // live heap blocks of this execution
int  mc_now_exploring();
}

enum mc_flags { MC_NOLEAK = 1, MC_NORACE = 2, MC_SEQ = 4 /* no thread interleaving expected */, MC_LONG = 8 /* 50 times the visible operations; not explored past the bound */,
    MC_DELAY = 16 /* when a thread blocks the next one in turn goes on; letting another one go on costs a deviation, too */ };

struct mc_scenario
{
    const char *prop;      // space separated property ids, e.g. "C01 C25"
    const char *name;
    void (*body)(int);     // runs as thread 0 of the modelled process
    void (*check)(int);    // oracle, after every complete execution (may be null)
    int  param;            // passed to both
    int  quick, thorough;  // deviation bounds
    int  flags;
};
struct mc_register { mc_register(const mc_scenario &s); };

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(...) static mc_register MC_CAT(mc_reg_, __COUNTER__)(mc_scenario{__VA_ARGS__})
#define MC_CHECK(cond, sig) do { if (!(cond)) mc_fail(sig, "%s (line %d)", #cond, __LINE__); } while (0)
