// Exhaustive choice-tree explorer ("stateless model checking with optional
// state matching") for the real envire code.
//
// A scenario is an ordinary function body(Ctx&).  Every nondeterministic
// decision (which operation, which argument, which configuration, which thread
// runs next) is taken with Ctx::choose(n); the explorer enumerates *all* choice
// sequences depth first, re-executing the body from scratch for each of them.
// Ctx::state(hash, remaining) enables sound pruning of already explored states
// (pruned only if the state was explored with at least as much budget left).
// Work is sharded over forked workers by a hash of the first choices; a shared
// memory table holds the visited states.  A worker that crashes (sanitizer,
// assertion, signal) or makes no progress is turned into a violation with the
// journalled choice sequence; every violation is replayed twice in a fresh
// process before it is reported.
#ifndef MC_HPP
#define MC_HPP
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Violation { std::string what; explicit Violation(std::string const& w) : what(w) {} };
struct Pruned {};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}
inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    unsigned char const* c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return mix(h, n);
}
inline uint64_t hashStr(std::string const& s) { return hashBytes(s.data(), s.size()); }

struct StateTable {                      // shared between workers, open addressing
    size_t cap; std::atomic<uint64_t>* t; std::atomic<uint64_t>* count;
    void init(size_t c) {
        cap = c;
        t = (std::atomic<uint64_t>*)mmap(0, (c + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        count = t + c;
    }
    // true if this (state, remaining) must be explored
    bool visit(uint64_t h, unsigned rem) {
        if (rem > 254) rem = 254;
        uint64_t key = h & ~0xffULL; if (!key) key = 0x100;
        for (size_t i = (h >> 8) % cap, n = 0; n < cap; i = (i + 1) % cap, ++n) {
            uint64_t v = t[i].load(std::memory_order_relaxed);
            while (true) {
                if (v == 0) {
                    if (t[i].compare_exchange_weak(v, key | (rem + 1))) { count->fetch_add(1); return true; }
                    continue;
                }
                if ((v & ~0xffULL) == key) {
                    if ((v & 0xff) >= rem + 1) return false;
                    if (t[i].compare_exchange_weak(v, key | (rem + 1))) return true;
                    continue;
                }
                break;
            }
        }
        return true;                      // table full: never prune
    }
};

struct Journal {                          // one per worker, shared memory
    std::atomic<uint64_t> executions, transitions, pruned, checks, maxlen, beat;
    std::atomic<int> done, failed;
    int scenario; uint32_t len; uint16_t choice[4096];
    char msg[4096];
};

struct Outcomes {                         // distinct observed outcomes (shared, capped)
    static const size_t CAP = 1 << 16;
    std::atomic<uint64_t> t[CAP]; std::atomic<uint64_t> n;
    void add(uint64_t h) {
        if (!h) h = 1;
        for (size_t i = h % CAP, k = 0; k < 64; i = (i + 1) % CAP, ++k) {
            uint64_t v = t[i].load(std::memory_order_relaxed);
            if (v == h) return;
            if (v == 0 && t[i].compare_exchange_strong(v, h)) { n.fetch_add(1); return; }
            if (v == h) return;
        }
    }
};

class Ctx {
public:
    bool tracing; bool thorough; int bound;
    int choose(int n, char const* what = 0) {
        if (n <= 0) throw std::logic_error("choose(0)");
        int c;
        if (pos < prefix.size()) {
            c = prefix[pos];
            if (c >= n) { throw std::logic_error("replay divergence: choice out of range"); }
        } else c = 0;
        widths.push_back(n); taken.push_back(c); ++pos;
        if (j) { if (pos <= 4096) { j->choice[pos - 1] = c; j->len = pos; } }
        if (tracing && what) note("%s = %d/%d", what, c, n);
        if (shardN > 1 && pos == shardDepth) {
            uint64_t h = 77;
            for (size_t i = 0; i < pos; ++i) h = mix(h, taken[i] + 1);
            if (h % shardN != shardI) throw Pruned();
        }
        return c;
    }
    template<class T> T const& pick(std::vector<T> const& v, char const* what = 0) { return v[choose((int)v.size(), what)]; }
    bool flag(char const* what = 0) { return choose(2, what) == 1; }
    void note(char const* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!tracing) return;
        char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
        fprintf(stderr, "  %s\n", b);
    }
    void step() { if (j && taken.size() >= prefix.size()) { j->transitions.fetch_add(1, std::memory_order_relaxed); j->beat.fetch_add(1, std::memory_order_relaxed); } }
    void beat() { if (j) j->beat.fetch_add(1, std::memory_order_relaxed); }
    void checked() { if (j) j->checks.fetch_add(1, std::memory_order_relaxed); }
    void check(bool ok, char const* fmt, ...) __attribute__((format(printf, 3, 4))) {
        checked();
        if (ok) return;
        char b[3000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
        throw Violation(b);
    }
    void fail(std::string const& m) { throw Violation(m); }
    // canonical state reached with `remaining` operations still allowed
    void state(uint64_t h, unsigned remaining) {
        if (!table) return;
        if (taken.size() < prefix.size() || (shardN > 1 && taken.size() < shardDepth)) return;
        if (!table->visit(mix(h, scenario + 1), remaining)) { if (j) j->pruned.fetch_add(1); throw Pruned(); }
    }
    void outcome(uint64_t h) { if (outs) outs->add(mix(h, scenario + 1)); }

    // engine
    std::vector<int> prefix, taken, widths; size_t pos;
    size_t shardDepth; unsigned shardI, shardN; int scenario;
    Journal* j; StateTable* table; Outcomes* outs;
    Ctx() : tracing(false), thorough(false), bound(0), pos(0), shardDepth(0), shardI(0), shardN(1), scenario(0), j(0), table(0), outs(0) {}
    void begin() { pos = 0; taken.clear(); widths.clear(); }
};

struct Scenario {
    std::string name; std::function<void (Ctx&)> body;
    int quick, thorough;                 // the bound handed to the body (ctx.bound); <0: skip in that tier
    int shardDepth; bool dedup; std::string desc;
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string jsonEsc(std::string const& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

class Engine {
public:
    std::vector<Scenario> sc;
    void add(std::string const& name, int quick, int thorough, int shardDepth, bool dedup, std::function<void (Ctx&)> body, std::string const& desc) {
        Scenario s; s.name = name; for (char& ch : s.name) if (ch == ' ') ch = '_'; s.body = body; s.quick = quick; s.thorough = thorough; s.shardDepth = shardDepth; s.dedup = dedup; s.desc = desc; sc.push_back(s);
    }
    static int runBody(Scenario& s, Ctx& c, std::string& msg) {   // 0 ok, 1 pruned, 2 violation
        try { c.begin(); s.body(c); return 0; }
        catch (Pruned&) { return 1; }
        catch (Violation& v) { msg = v.what; return 2; }
        catch (std::exception& e) { msg = std::string("unexpected exception escaped: ") + e.what(); return 2; }
        catch (...) { msg = "unexpected exception escaped (unknown type)"; return 2; }
    }
    void worker(int w, int n, bool thorough, Journal* j, StateTable* table, Outcomes* outs, std::string const& only) {
        for (size_t k = 0; k < sc.size(); ++k) {
            Scenario& s = sc[k];
            int bound = thorough ? s.thorough : s.quick;
            if (bound < 0 || (!only.empty() && s.name != only)) continue;
            Ctx c; c.thorough = thorough; c.bound = bound; c.scenario = k; c.j = j; c.outs = outs;
            c.table = s.dedup ? table : 0; c.shardDepth = s.shardDepth; c.shardI = w; c.shardN = s.shardDepth > 0 ? n : 1;
            if (c.shardN == 1 && (int)(k % n) != w) continue;
            j->scenario = k;
            while (true) {
                j->len = 0;
                std::string msg;
                int r = runBody(s, c, msg);
                bool mine = c.shardN == 1 || c.taken.size() >= c.shardDepth || w == 0;
                j->beat.fetch_add(1, std::memory_order_relaxed);
                if (r == 2) {
                    if (mine) { snprintf(j->msg, sizeof j->msg, "%s", msg.c_str()); j->failed = 1; _exit(10); }
                }
                if (r == 0 && mine) {
                    j->executions.fetch_add(1, std::memory_order_relaxed);
                    if (c.taken.size() > j->maxlen) j->maxlen = c.taken.size();
                }
                // next choice sequence
                std::vector<int> p = c.taken;
                while (!p.empty() && p.back() + 1 >= c.widths[p.size() - 1]) p.pop_back();
                if (p.empty()) break;
                p.back()++;
                c.prefix = p;
            }
        }
        j->done = 1;
    }
    int replay(std::string const& file, bool quiet) {
        FILE* f = fopen(file.c_str(), "r"); if (!f) { fprintf(stderr, "no replay file %s\n", file.c_str()); return 4; }
        char name[256]; int bound, thorough; size_t n;
        if (fscanf(f, "scenario %255s bound %d thorough %d choices %zu", name, &bound, &thorough, &n) != 4) { fclose(f); return 4; }
        Ctx c; c.tracing = true; c.bound = bound; c.thorough = thorough;
        for (size_t i = 0; i < n; ++i) { int v; if (fscanf(f, "%d", &v) != 1) { fclose(f); return 4; } c.prefix.push_back(v); }
        fclose(f);
        for (size_t k = 0; k < sc.size(); ++k) if (sc[k].name == name) {
            std::string msg; c.scenario = k;
            alarm(300);
            int r = runBody(sc[k], c, msg);
            if (r == 2) { fprintf(stderr, "VIOLATED: %s\n", msg.c_str()); return 10; }
            fprintf(stderr, "replay finished without violation\n");
            return 0;
        }
        return 4;
    }
    int main(int argc, char** argv) {
        std::string out, rep, replayOut, only; bool thorough = false, quiet = false; int jobs = 8; double hang = 25; size_t tableCap = 1u << 24; double budget = 0;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--out") out = argv[++i]; else if (a == "--replay") rep = argv[++i]; else if (a == "--replay-out") replayOut = argv[++i];
            else if (a == "--thorough") thorough = true; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--only") only = argv[++i];
            else if (a == "--hang") hang = atof(argv[++i]); else if (a == "--quiet") quiet = true; else if (a == "--budget") budget = atof(argv[++i]);
            else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 4; }
        }
        if (!rep.empty()) return replay(rep, quiet);
        if (thorough) tableCap = 1u << 27;
        StateTable table; table.init(tableCap);
        Outcomes* outs = (Outcomes*)mmap(0, sizeof(Outcomes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Journal* js = (Journal*)mmap(0, sizeof(Journal) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        double t0 = now();
        std::vector<pid_t> pid(jobs); std::vector<uint64_t> lastBeat(jobs, 0); std::vector<double> lastT(jobs, t0);
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < jobs; ++w) {
            pid_t p = fork();
            if (p == 0) {
                int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
                worker(w, jobs, thorough, &js[w], &table, outs, only);
                _exit(0);
            }
            pid[w] = p;
        }
        int live = jobs, bad = -1; std::string why; bool timedOut = false;
        while (live > 0 && bad < 0) {
            for (int w = 0; w < jobs; ++w) if (pid[w]) {
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                if (r == pid[w]) {
                    pid[w] = 0; --live;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && js[w].done) continue;
                    bad = w;
                    if (js[w].failed) why = js[w].msg;
                    else if (WIFSIGNALED(st)) { std::ostringstream s; s << "worker killed by signal " << WTERMSIG(st); why = s.str(); }
                    else { std::ostringstream s; s << "worker crashed (exit " << WEXITSTATUS(st) << ": sanitizer report, assertion or exit)"; why = s.str(); }
                    break;
                }
                uint64_t b = js[w].beat;
                if (b != lastBeat[w]) { lastBeat[w] = b; lastT[w] = now(); }
                else if (now() - lastT[w] > hang) { bad = w; why = "no progress: the execution does not terminate"; kill(pid[w], SIGKILL); break; }
            }
            if (budget > 0 && now() - t0 > budget) { timedOut = true; break; }
            usleep(20000);
        }
        for (int w = 0; w < jobs; ++w) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
        int rc = 0; std::string rmsg;
        if (bad >= 0) {
            Journal& j = js[bad]; Scenario& s = sc[j.scenario];
            std::string f = replayOut.empty() ? "replay.txt" : replayOut;
            FILE* o = fopen(f.c_str(), "w");
            if (!o) { perror(f.c_str()); return 4; }
            fprintf(o, "scenario %s bound %d thorough %d choices %u\n", s.name.c_str(), thorough ? s.thorough : s.quick, (int)thorough, j.len);
            for (uint32_t i = 0; i < j.len && i < 4096; ++i) fprintf(o, "%d ", j.choice[i]);
            fprintf(o, "\n# %s\n", why.c_str()); fclose(o);
            int confirmed = 0;
            for (int k = 0; k < 2; ++k) {
                pid_t p = fork();
                if (p == 0) {
                    if (k) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
                    else { std::string lf = f + ".log"; int fd = open(lf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); }
                    execl("/proc/self/exe", argv[0], "--replay", f.c_str(), (char*)0); _exit(99);
                }
                double h0 = now(); int st = 0; bool hung = false;
                while (waitpid(p, &st, WNOHANG) == 0) { if (now() - h0 > 4 * hang) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(10000); }
                if (hung || WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 4 && WEXITSTATUS(st) != 99)) ++confirmed;
            }
            rmsg = s.name + ": " + why;
            rc = confirmed == 2 ? 10 : 5;
            printf("%s %s\n", rc == 10 ? "VIOLATED" : "UNCONFIRMED", rmsg.c_str());
        } else if (timedOut) rc = 6;
        uint64_t ex = 0, tr = 0, pr = 0, ck = 0, ml = 0;
        for (int w = 0; w < jobs; ++w) { ex += js[w].executions; tr += js[w].transitions; pr += js[w].pruned; ck += js[w].checks; if (js[w].maxlen > ml) ml = js[w].maxlen; }
        if (!out.empty()) {
            FILE* o = fopen(out.c_str(), "w");
            fprintf(o, "{\"rc\":%d,\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"checks\":%llu,\"outcomes\":%llu,\"max_choices\":%llu,\"wall_s\":%.3f,\"message\":\"%s\",\"scenarios\":[",
                rc, (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)table.count->load(), (unsigned long long)pr, (unsigned long long)ck, (unsigned long long)outs->n.load(), (unsigned long long)ml, now() - t0, jsonEsc(rmsg).c_str());
            bool first = true;
            for (size_t k = 0; k < sc.size(); ++k) { int b = thorough ? sc[k].thorough : sc[k].quick; if (b < 0) continue;
                fprintf(o, "%s{\"name\":\"%s\",\"bound\":%d,\"dedup\":%s,\"desc\":\"%s\"}", first ? "" : ",", jsonEsc(sc[k].name).c_str(), b, sc[k].dedup ? "true" : "false", jsonEsc(sc[k].desc).c_str()); first = false; }
            fprintf(o, "]}\n"); fclose(o);
        }
        printf("executions=%llu transitions=%llu states=%llu pruned=%llu checks=%llu outcomes=%llu wall=%.1fs rc=%d\n", (unsigned long long)ex, (unsigned long long)tr,
            (unsigned long long)table.count->load(), (unsigned long long)pr, (unsigned long long)ck, (unsigned long long)outs->n.load(), now() - t0, rc);
        return rc;
    }
};

} // namespace mc
#endif
