// ThreadSanitizer builds only: boost::call_once lives in the installed, uninstrumented
// libboost_thread, whose synchronisation the detector cannot see.  The same protocol, visible to it.
#include <boost/thread/once.hpp>
#include <mutex>
#include <condition_variable>
namespace boost { namespace thread_detail {
namespace { std::mutex& mu() { static std::mutex *m = new std::mutex; return *m; } std::condition_variable& cv() { static std::condition_variable *c = new std::condition_variable; return *c; } }
enum { none = 0, running = 1, finished = 2 };
bool enter_once_region(once_flag& flag) BOOST_NOEXCEPT {
    atomic_type& f = get_atomic_storage(flag);
    if (f.load(boost::memory_order_acquire) == finished) return false;
    std::unique_lock<std::mutex> l(mu());
    for (;;) {
        unsigned s = f.load(boost::memory_order_acquire);
        if (s == finished) return false;
        if (s == none) { f.store(running, boost::memory_order_release); return true; }
        cv().wait(l);
    }
}
void commit_once_region(once_flag& flag) BOOST_NOEXCEPT { { std::lock_guard<std::mutex> l(mu()); get_atomic_storage(flag).store(finished, boost::memory_order_release); } cv().notify_all(); }
void rollback_once_region(once_flag& flag) BOOST_NOEXCEPT { { std::lock_guard<std::mutex> l(mu()); get_atomic_storage(flag).store(none, boost::memory_order_release); } cv().notify_all(); }
} }
