#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <atomic>
#include "vp_sched.h"
namespace {
std::atomic<int> delay { 0 };
}
namespace vp { void sched_delay(int us) { delay = us; } }
// found before the C library's by libstdc++'s std::condition_variable::wait
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    using fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (int d = delay)
    {
        timespec t { 0, d * 1000L };
        nanosleep(&t, nullptr);
    }
    return real(c, m);
}
