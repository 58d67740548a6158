// Controlled scheduler: every pthread mutex operation of a managed thread and every
// explicit sched::yield() is a scheduling point; exactly one managed thread runs at a time
// and the explorer chooses which.  Interposes pthread_mutex_* so that boost and std mutexes
// in the code under test are covered however they are used.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <mc.hpp>
#include <deque>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <thread>
namespace sched {
struct Mx { int owner = -1, depth = 0; };
struct Th {
    std::function<void ()> body; sem_t go; std::thread t; bool done = false; pthread_mutex_t* wants = 0; int ask = 0, answer = 0; bool tryOnly = false;
    std::string error; bool crashed = false; std::string at;
};
struct Sched {
    std::deque<Th> th; sem_t back; std::map<pthread_mutex_t*, Mx> mx; bool aborting = false; long points = 0, switches = 0;
};
extern thread_local int me;              // index of the managed thread, -1 otherwise
extern Sched* cur;
void yield(char const* where);           // scheduling point (no effect outside managed threads)
int ask(int n);                          // let the explorer take a data choice for a managed thread
// runs all bodies under every schedule with at most `preemptions` preemptive context switches
void run(mc::Ctx& c, std::vector<std::function<void ()> > const& bodies, int preemptions);
}
#endif
