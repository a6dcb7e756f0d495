// Fault and delay injection by interposing libc/pthread calls made from the code under test
// (not in ThreadSanitizer builds, which interpose the same calls themselves).
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/socket.h>
#include <atomic>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#endif
namespace inj {
    static std::atomic<int> lock_delay_pct(0), spurious_pct(0), accept_faults(0), accept_errno(0);
    static std::atomic<int> io_piece(0);                 // >0: at most this many bytes per send
    static std::atomic<uint64_t> delays(0), spurious(0), accepts_failed(0), short_writes(0);
    static __thread uint64_t rs;
    inline uint64_t rnd() { if (!rs) rs = (uint64_t)(uintptr_t)&rs ^ (uint64_t)time(0) * 2654435761u; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
    inline void off() { lock_delay_pct = 0; spurious_pct = 0; accept_faults = 0; io_piece = 0; }
}
#ifndef VH_TSAN
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*f)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    int p = inj::lock_delay_pct.load(std::memory_order_relaxed);
    if (p && (int)(inj::rnd() % 1000) < p) { ++inj::delays; if (inj::rnd() % 4) sched_yield(); else usleep((useconds_t)(inj::rnd() % 150)); }
    return f(m);
}
// POSIX permits a condition wait to return without having been signalled
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*f)(pthread_cond_t*, pthread_mutex_t*) = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    int p = inj::spurious_pct.load(std::memory_order_relaxed);
    if (p && (int)(inj::rnd() % 100) < p) { ++inj::spurious; pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
    return f(c, m);
}
static inline bool vh_accept_fault() {
    if (inj::accept_faults.load(std::memory_order_relaxed) > 0 && inj::accept_faults.fetch_sub(1) > 0) { ++inj::accepts_failed; errno = inj::accept_errno; return true; }
    return false;
}
extern "C" int accept(int s, struct sockaddr *a, socklen_t *l) {
    static int (*f)(int, struct sockaddr*, socklen_t*) = (int (*)(int, struct sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept");
    if (vh_accept_fault()) return -1;
    return f(s, a, l);
}
extern "C" int accept4(int s, struct sockaddr *a, socklen_t *l, int fl) {
    static int (*f)(int, struct sockaddr*, socklen_t*, int) = (int (*)(int, struct sockaddr*, socklen_t*, int))dlsym(RTLD_NEXT, "accept4");
    if (vh_accept_fault()) return -1;
    return f(s, a, l, fl);
}
#endif
