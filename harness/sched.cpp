#include "sched.hpp"
namespace sched {
thread_local int me = -1; Sched* cur = 0;
typedef int (*Fn)(pthread_mutex_t*);
static Fn real(char const* n, Fn& f) { if (!f) f = (Fn)dlsym(RTLD_NEXT, n); return f; }
static Fn rl, ru, rt;
static void pause(char const* where) {
    Th& t = cur->th[me]; t.at = where; ++cur->points;
    sem_post(&cur->back);
    while (sem_wait(&t.go)) {}
}
void yield(char const* where) { if (me >= 0) pause(where); }
int ask(int n) { Th& t = cur->th[me]; t.ask = n; pause("choice"); return t.answer; }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int lock(pthread_mutex_t* m) {
    Th& t = cur->th[me]; t.wants = m; pause("lock"); t.wants = 0;
    Mx& x = cur->mx[m]; x.owner = me; ++x.depth; return 0;
}
static int trylock(pthread_mutex_t* m) {
    pause("trylock"); Mx& x = cur->mx[m];
    if (x.owner >= 0 && !(x.owner == me && recursive(m))) return EBUSY;
    x.owner = me; ++x.depth; return 0;
}
static int unlock(pthread_mutex_t* m) {
    Mx& x = cur->mx[m]; if (x.owner == me && --x.depth == 0) x.owner = -1;
    pause("unlock"); return 0;
}
static bool enabled(int i) {
    Th& t = cur->th[i]; if (t.done) return false; if (!t.wants) return true;
    auto it = cur->mx.find(t.wants); return it == cur->mx.end() || it->second.owner < 0 || (it->second.owner == i && recursive(t.wants));
}
void run(mc::Ctx& c, std::vector<std::function<void ()> > const& bodies, int preemptions) {
    Sched s; cur = &s; sem_init(&s.back, 0, 0); int n = bodies.size(); s.th.resize(n);
    for (int i = 0; i < n; ++i) {
        Th& t = s.th[i]; t.body = bodies[i]; sem_init(&t.go, 0, 0);
        t.t = std::thread([i, &s] {
            Th& t = s.th[i]; while (sem_wait(&t.go)) {}
            me = i;
            try { t.body(); } catch (mc::Violation& v) { t.error = v.what; t.crashed = true; } catch (std::exception& e) { t.error = std::string("exception in thread: ") + e.what(); t.crashed = true; }
            me = -1; t.done = true; sem_post(&s.back);
        });
    }
    int last = -1, used = 0; std::string deadlock; bool stuck = false;
    auto resume = [&](int i) { sem_post(&s.th[i].go); while (sem_wait(&s.back)) {} };
    auto en = [&] { std::vector<int> v; for (int i = 0; i < n; ++i) if (enabled(i)) v.push_back(i); return v; };
    auto finish = [&] {                   // let everything run out without further choices
        while (true) { std::vector<int> v = en(); bool any = false; for (int i = 0; i < n; ++i) any = any || !s.th[i].done; if (!any) break; if (v.empty()) { stuck = true; break; } if (s.th[v[0]].ask) { s.th[v[0]].ask = 0; s.th[v[0]].answer = 0; } resume(v[0]); }
        for (auto& t : s.th) { if (stuck && !t.done) t.t.detach(); else t.t.join(); }
    };
    try {
        while (true) {
            bool all = true, bad = false; for (auto& t : s.th) { all = all && t.done; bad = bad || t.crashed; }
            if (all || bad) break;
            std::vector<int> v = en(); c.beat();
            if (v.empty()) { deadlock = "deadlock:"; for (int i = 0; i < n; ++i) if (!s.th[i].done) deadlock += " thread " + std::to_string(i) + " waits at " + s.th[i].at; break; }
            // order: continue the running thread first
            std::vector<int> opt; if (last >= 0 && enabled(last)) opt.push_back(last);
            if (opt.empty() || used < preemptions) for (int i : v) if (i != last) opt.push_back(i);
            int k = opt.size() > 1 ? c.choose(opt.size()) : 0;
            if (k > 0 && last >= 0 && enabled(last)) { ++used; }
            if (opt[k] != last) { ++s.switches; c.note("-- thread %d runs (%s)", opt[k], s.th[opt[k]].at.c_str()); }
            last = opt[k];
            if (s.th[last].ask) { s.th[last].answer = c.choose(s.th[last].ask); s.th[last].ask = 0; }
            c.step(); resume(last);
        }
    } catch (...) { finish(); if (stuck) _exit(3); cur = 0; throw; }
    finish();
    std::string err; for (auto& t : s.th) if (t.crashed && err.empty()) err = t.error;
    for (auto& t : s.th) sem_destroy(&t.go);
    cur = 0;
    if (!deadlock.empty()) throw mc::Violation(deadlock);
    if (!err.empty()) throw mc::Violation(err);
}
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { return sched::me >= 0 ? sched::lock(m) : sched::real("pthread_mutex_lock", sched::rl)(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { return sched::me >= 0 ? sched::unlock(m) : sched::real("pthread_mutex_unlock", sched::ru)(m); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) { return sched::me >= 0 ? sched::trylock(m) : sched::real("pthread_mutex_trylock", sched::rt)(m); }
