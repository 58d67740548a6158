// E05: queued event delivery, within one thread and between two.
#include "envworld.hpp"
#include "sched.hpp"
using namespace tmod; using namespace mc;
struct Proc : EventProcessor {
    long n; Proc(Environment* e) : EventProcessor(e), n(0) {}
    void process(const Event& m) { ++n; sched::yield("process"); EventProcessor::process(m); sched::yield("processed"); }
};
// unregisters on every exit path (also when an execution is pruned)
struct Reg { Environment& e; EventHandler* h; Reg(Environment& e, EventHandler* h) : e(e), h(h) {} void add() { e.addEventHandler(h); on = true; } void remove() { on = false; e.removeEventHandler(h); } ~Reg() { if (on) e.removeEventHandler(h); } bool on = false; };
static void copied() { sched::yield("copy"); }

// one thread changes the source, another one applies the queued changes
static void threads(Ctx& c, WCfg const& cfg, int preset, int nops, int flushes, int preemptions) {
    {
        Environment A, B; World w(&A, cfg); w.preset(preset); Proc q(&B); q.allowMultithreading(true); Reg g(A, &q); g.add();
        if (c.flag("flush before the threads start")) { q.flush(); Snap a = snapshot(A, false), b = snapshot(B, false); c.check(a == b, "initial flush:%s", diff(a, b).c_str()); }
        auto producer = [&] {
            for (int i = 0; i < nops; ++i) {
                std::vector<World::Op> ops = w.ops(); int nmap = -1; for (size_t k = 0; k < w.o.size(); ++k) if (dynamic_cast<TMap*>(w.o[k].item.get()) && w.o[k].att) nmap = k;
                int k = sched::ask(ops.size() + (nmap >= 0 ? 1 : 0));
                if (k < (int)ops.size()) { c.note("source: %s", ops[k].first.c_str()); ops[k].second(); }
                else {
                    TMap* m = dynamic_cast<TMap*>(w.o[nmap].item.get()); c.note("source: change %s in two steps", w.o[nmap].id.c_str());
                    m->value = -7; sched::yield("half changed"); m->value = 1000 + ++w.version; m->itemModified();
                }
            }
        };
        auto consumer = [&] {
            for (int i = 0; i < flushes; ++i) {
                q.flush(); c.note("consumer: flushed");
                for (auto* m : B.getItems<TMap>()) if (m->value == -7) throw Violation("the replica holds the value " + std::to_string(m->value) + " which was never announced");
            }
        };
        onCopy = copied;
        try { sched::run(c, { producer, consumer }, preemptions); } catch (...) { onCopy = 0; throw; }
        onCopy = 0;
        w.verify(c, false);
        q.flush(); Snap a = snapshot(A, false), b = snapshot(B, false);
        c.check(a == b, "after all changes were applied the replica differs:%s", diff(a, b).c_str());
        long n = q.n; q.flush(); c.check(q.n == n, "an empty queue processed %ld events", q.n - n);
        c.outcome(hashStr(b.str()));
        g.remove();
    }
    c.check(live == 0, "%ld items leaked", live);
}
// one thread: any history with flushes at any point
static void seq(Ctx& c, WCfg const& cfg, int preset) {
    {
        Environment A, B; World w(&A, cfg); w.preset(preset); Proc q(&B); q.allowMultithreading(true); Reg g(A, &q); bool late = c.flag("registered late"); if (!late) g.add();
        int since = 1; bool reg = !late;
        for (int i = 0; i < c.bound; ++i) {
            std::vector<World::Op> ops = w.ops(); int n = ops.size(), k = c.choose(n + 1); c.step();
            if (k == n) { if (!reg) { c.note("register"); g.add(); reg = true; } c.note("flush"); q.flush(); since = 0; Snap a = snapshot(A, false), b = snapshot(B, false); c.check(a == b, "after a flush the replica differs:%s", diff(a, b).c_str()); }
            else { c.note("%s", ops[k].first.c_str()); ops[k].second(); ++since; }
            uint64_t h = mix(mix(w.hash(), reg), since ? hashStr(snapshot(B, false).str()) : 0); c.state(mix(h, since), c.bound - 1 - i);
        }
        if (!reg) g.add();
        q.flush(); Snap a = snapshot(A, false), b = snapshot(B, false); c.check(a == b, "finally the replica differs:%s", diff(a, b).c_str());
        g.remove(); q.flush(); c.check(B.getItems<EnvironmentItem>().size() == 1, "after the handler was removed the replica still has %zu items", B.getItems<EnvironmentItem>().size());
    }
    c.check(live == 0, "%ld items leaked", live);
}
// binary event handlers: immediate and queued delivery, context updates
struct Sync : SynchronizationEventHandler {
    using SynchronizationEventHandler::handle;
    Environment* B; int calls; size_t total; std::vector<size_t> sizes;
    Sync(Environment* b) : B(b), calls(0), total(0) {}
    void handle(std::vector<BinaryEvent>& m) { ++calls; total += m.size(); B->applyEvents(m); }
};
static void handlers(Ctx& c, WCfg const& cfg, int preset) {
    {
        Environment A, B; World w(&A, cfg); w.preset(preset); Sync s(&B); bool queued = c.flag("queued"), ctx = c.flag("context updates");
        s.useEventQueue(queued); if (ctx) s.useContextUpdates(&A);
        Reg g(A, &s); g.add();
        auto cmp = [&](char const* when) { Snap a = snapshot(A, false), b = snapshot(B, false); c.check(a == b, "%s the replica differs:%s", when, diff(a, b).c_str()); };
        int pending = queued;
        if (!queued) cmp("after registration");
        for (int i = 0; i < c.bound; ++i) {
            std::vector<World::Op> ops = w.ops(); int n = ops.size(), k = c.choose(n + 2); c.step();
            if (k == n) { size_t t = s.total; c.note("flush"); s.flush(); if (!pending && !queued) c.check(s.total == t, "a flush without queued events delivered %zu", s.total - t); pending = 0; cmp("after a flush"); }
            else if (k == n + 1) { queued = !queued; c.note("event queueing %s", queued ? "on" : "off"); s.useEventQueue(queued); }
            else {
                size_t t = s.total; c.note("%s", ops[k].first.c_str()); ops[k].second();
                if (queued) { pending = 1; c.check(s.total == t, "events were delivered although queueing is on"); }
                else if (s.total != t) { pending = 0; }
                if (!queued && !pending) cmp("after an operation");
            }
            uint64_t h = mix(mix(w.hash(), queued * 4 + ctx * 2 + pending), pending ? hashStr(snapshot(B, false).str()) : 0); c.state(mix(h, pending ? i : 0), c.bound - 1 - i);
        }
        s.flush(); cmp("finally");
    }
    c.check(live == 0, "%ld items leaked", live);
}
// with context updates, the events of a map alone are sufficient to place it
struct MapsOnly : EventFilter { bool filter(Event const& e) { return e.type == event::ITEM && dynamic_cast<CartesianMap*>(e.a.get()); } };
static void context(Ctx& c) {
    {
        Environment A, B; WCfg cfg; cfg.frames = 2; cfg.maps = 1; cfg.mapsB = 1; cfg.modify = true; cfg.layerTree = false; cfg.deep = false; cfg.noops = false; World w(&A, cfg); w.preset(c.choose(3, "structure"));
        Sync s(&B); s.useContextUpdates(&A); MapsOnly f; s.setFilter(&f); bool q = c.flag("queued"); s.useEventQueue(q); Reg g(A, &s); g.add();
        for (int i = 0; i < c.bound; ++i) { std::vector<World::Op> ops = w.ops(); int k = c.choose(ops.size()); c.note("%s", ops[k].first.c_str()); c.step(); ops[k].second(); c.state(mix(w.hash(), hashStr(snapshot(B, false).str())), c.bound - 1 - i); }
        for (size_t k = 0; k < w.o.size(); ++k) if (w.o[k].kind == World::MAP && w.o[k].att) { c.note("announce %s", w.o[k].id.c_str()); w.o[k].item->itemModified(); if (q) s.flush();
            CartesianMap* m = w.M(k); EnvironmentItem* i = B.getItem(w.o[k].id).get(); c.check(i && content(i) == content(m), "%s is missing or differs in the replica", w.o[k].id.c_str());
            CartesianMap* r = dynamic_cast<CartesianMap*>(i); FrameNode *fa = m->getFrameNode(), *fb = r->getFrameNode();
            while (fa) { c.check(fb && fb->getUniqueId() == fa->getUniqueId() && content(fb) == content(fa), "the replica of %s hangs below %s instead of %s, or with a different transform", w.o[k].id.c_str(), fb ? fb->getUniqueId().c_str() : "nothing", fa->getUniqueId().c_str()); fa = fa->getParent(); fb = fb->getParent(); if (!fa) break; }
        }
        c.outcome(hashStr(snapshot(B, false).str()));
        g.remove();
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    Engine e;
    WCfg a; a.frames = 1; a.maps = 1; a.layerTree = false; a.noops = false; a.modify = true; a.deep = false;
    e.add("threads", 2, 3, 3, false, [=](Ctx& c) { threads(c, a, 1, 2, 2, c.bound); }, "two changes by one thread against two flushes by another, from a populated environment: every schedule up to the preemption bound");
    e.add("threads_long", 1, 2, 3, false, [=](Ctx& c) { threads(c, a, 0, c.thorough ? 4 : 3, 2, c.bound); }, "longer histories from an empty environment with fewer preemptions");
    WCfg r = a; r.frames = 0; r.recreate = true;
    e.add("threads_readd", 1, 2, 3, false, [=](Ctx& c) { threads(c, r, 1, c.thorough ? 5 : 4, 1, c.bound); }, "detach / change / replace / re-attach of one map against a flush");
    WCfg b = a; b.frames = 2;
    e.add("sequential", 4, 5, 2, true, [=](Ctx& c) { seq(c, b, 1); }, "an event processor in one thread: every history with flushes and late registration");
    WCfg l; l.frames = 0; l.maps = 1; l.layers = 2; l.noops = false; l.modify = true;
    e.add("sequential_layers", 3, 4, 2, true, [=](Ctx& c) { seq(c, l, 2); }, "the same for layer hierarchies");
    e.add("handlers", 3, 5, 2, true, [=](Ctx& c) { handlers(c, b, 1); }, "binary event handler: immediate or queued delivery, switched at any time, with and without context updates");
    e.add("context", 3, 4, 2, true, context, "context updates make the events of a map sufficient to place it");
    return e.main(argc, argv);
}
