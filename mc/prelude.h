// Force-included before everything else in harness translation units: routes the reference count
// operations of libstdc++'s shared_ptr to the runtime (they commute except for reaching zero, so
// they need no scheduling points), leaves everything else as it is.
#pragma once
#include <bits/c++config.h>
// std::string's members are compiled (and instrumented) here instead of being taken from the library
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
// The compiler's instrumentation does not tell weak compare-exchanges from strong ones: these may fail without reason.
extern "C" bool mc_weak_fails(const volatile void *p, const volatile void *e, unsigned long n, bool weak, int fmo) noexcept;
#define __atomic_compare_exchange_n(p, e, v, w, s, f) (!mc_weak_fails(p, e, sizeof *(p), w, f) && __atomic_compare_exchange_n(p, e, v, w, s, f))
#define __atomic_compare_exchange(p, e, v, w, s, f) (!mc_weak_fails(p, e, sizeof *(p), w, f) && __atomic_compare_exchange(p, e, v, w, s, f))
#include <atomic>
#undef __atomic_compare_exchange_n
#undef __atomic_compare_exchange
#include <cstdarg>
#define _GLIBCXX_ATOMICITY_H 1
extern "C" {
int  mc_ref_add(volatile int *p, int v);
int  mc_ref_load(const volatile int *p);
long long mc_ref_load2(const volatile long long *p);
bool mc_ref_cas(volatile int *p, int *e, int v);
}
namespace __gnu_cxx {
    typedef int _Atomic_word_;
    inline bool __is_single_threaded() noexcept { return false; }
    inline int __exchange_and_add(volatile int *m, int v) { return mc_ref_add(m, v); }
    inline void __atomic_add(volatile int *m, int v) { mc_ref_add(m, v); }
    inline int __exchange_and_add_single(int *m, int v) { return mc_ref_add(m, v); }
    inline void __atomic_add_single(int *m, int v) { mc_ref_add(m, v); }
    inline int __exchange_and_add_dispatch(int *m, int v) { return mc_ref_add(m, v); }
    inline void __atomic_add_dispatch(int *m, int v) { mc_ref_add(m, v); }
}
#include <bits/gthr.h>
#include <bits/atomic_word.h>
#ifndef _GLIBCXX_READ_MEM_BARRIER
#define _GLIBCXX_READ_MEM_BARRIER __atomic_thread_fence(__ATOMIC_ACQUIRE)
#endif
#ifndef _GLIBCXX_WRITE_MEM_BARRIER
#define _GLIBCXX_WRITE_MEM_BARRIER __atomic_thread_fence(__ATOMIC_RELEASE)
#endif
template <typename T> inline T mc_ref_load_any(const volatile T *p)
{
    if constexpr (sizeof(T) == 8) return (T)mc_ref_load2((const volatile long long *)p);
    else return (T)mc_ref_load((const volatile int *)p);
}
#include <typeinfo>
#include <functional>
#include <string>
#define __atomic_load_n(p, o) mc_ref_load_any(p)
#define __atomic_compare_exchange_n(p, e, v, w, s, f) mc_ref_cas(p, e, v)
#include <bits/shared_ptr_base.h>
#undef __atomic_load_n
#undef __atomic_compare_exchange_n
#include <memory>
// What else the code under test may use without including it itself: the repository's own tests
// come with a test framework that includes all of these.
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
// What the C library writes to buffers is an access, too.
#include <cstdio>
extern "C" int mc_vsnprintf(char *s, size_t n, const char *f, va_list a) __attribute__((format(printf, 3, 0)));
extern "C" int mc_snprintf(char *s, size_t n, const char *f, ...) __attribute__((format(printf, 3, 4)));
namespace std { using ::mc_vsnprintf; using ::mc_snprintf; }
#define vsnprintf mc_vsnprintf
#define snprintf mc_snprintf
