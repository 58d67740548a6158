// E04: an environment that applies the pulled events of another one ends up with the same content.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
static void run(Ctx& c, WCfg const& cfg, int preset, int replicas, bool rich) {
    {
        Environment A; std::vector<std::unique_ptr<Environment> > R;
        for (int i = 0; i < replicas; ++i) R.push_back(std::unique_ptr<Environment>(new Environment()));
        World w(&A, cfg); w.preset(preset);
        bool started = c.flag("first pull before the history");
        auto sync = [&](bool all, char const* when) {
            Environment* src = &A;
            for (int i = 0; i < replicas; ++i) {
                std::vector<BinaryEvent> ev; src->pullEvents(ev, all); R[i]->applyEvents(ev);
                Snap a = snapshot(A, false), b = snapshot(*R[i], false);
                c.check(a == b, "%s: replica %d differs from the source:%s", when, i, diff(a, b).c_str());
                src = R[i].get();
            }
            // nothing may be left to transfer
            std::vector<BinaryEvent> ev; A.pullEvents(ev, false); c.check(ev.empty(), "a second pull without changes returned %zu events", ev.size());
        };
        if (started) { c.note("pull and apply"); sync(false, "initial synchronisation"); }
        int sinceSync = 0;
        for (int i = 0; i < c.bound; ++i) {
            std::vector<World::Op> ops = w.ops(); int n = ops.size();
            int k = c.choose(n + (sinceSync ? (rich ? 2 : 1) : 0)); c.step();
            if (k >= n) { c.note("pull%s and apply", k == n ? "" : " everything"); sync(k > n, "synchronisation"); sinceSync = 0; }
            else { c.note("%s", ops[k].first.c_str()); ops[k].second(); ++sinceSync; }
            uint64_t h = mix(w.hash(), started); if (sinceSync) { h = mix(h, hashStr(snapshot(*R[0], false).str())); h = mix(h, sinceSync); }
            c.state(h, c.bound - 1 - i);
        }
        bool all = c.flag("final pull of everything"); c.note("final pull%s and apply", all ? " of everything" : "");
        sync(all, "final synchronisation");
        // a replica that joins late gets the same content from a complete pull
        if (all) { Environment L; std::vector<BinaryEvent> ev; A.pullEvents(ev, true); L.applyEvents(ev); Snap a = snapshot(A, false), b = snapshot(L, false); c.check(a == b, "a late replica differs:%s", diff(a, b).c_str()); }
        c.outcome(w.hash());
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    Engine e;
    WCfg a; a.frames = 2; a.maps = 1; a.layerTree = false; a.noops = false; a.modify = true;
    e.add("frames", 4, 5, 3, true, [=](Ctx& c) { run(c, a, 1, 1, true); }, "2 frames + 1 map: structure and content changes, synchronisation after any of them");
    e.add("frames_chain", 3, 5, 3, true, [=](Ctx& c) { run(c, a, 2, 1, true); }, "the same from a chain");
    WCfg r; r.frames = 1; r.maps = 1; r.layerTree = false; r.noops = false; r.modify = true; r.recreate = true; r.deep = false;
    e.add("readd", 5, 6, 3, true, [=](Ctx& c) { run(c, r, 1, 1, false); }, "1 frame + 1 map, long detach / change / replace / re-attach histories within one batch");
    WCfg b; b.frames = 0; b.maps = 2; b.layers = 1; b.noops = false; b.modify = false;
    e.add("layers", 4, 5, 3, true, [=](Ctx& c) { run(c, b, 2, 1, false); }, "three layers with a hierarchy");
    WCfg d; d.frames = 1; d.maps = 1; d.layers = 1; d.noops = false; d.modify = true;
    e.add("chained", 3, 4, 3, true, [=](Ctx& c) { run(c, d, 1, 2, true); }, "two replicas in a chain");
    return e.main(argc, argv);
}
