// E02: every history of structural operations leaves exactly the relations the operations define.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
static void run(Ctx& c, WCfg const& cfg, int preset) {
    {
        std::unique_ptr<Environment> env(new Environment());
        World w(env.get(), cfg); w.preset(preset); w.verify(c, true);
        for (int i = 0; i < c.bound; ++i) {
            std::vector<World::Op> ops = w.ops();
            int k = c.choose(ops.size()); c.note("%s", ops[k].first.c_str()); c.step();
            ops[k].second();
            w.verify(c, true);
            c.state(w.hash(), c.bound - 1 - i);
        }
        c.outcome(w.hash());
        bool keep = true; (void)keep;
        env.reset();
        for (auto& x : w.o) c.check(!x.item->isAttached() && x.item->getRefCount() == 1, "%s has %ld references after the environment was destroyed", x.id.c_str(), x.item->getRefCount());
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    Engine e;
    WCfg a; a.frames = 3; a.maps = 1; a.layerTree = false;
    e.add("frames", 4, 5, 2, true, [=](Ctx& c) { run(c, a, 0); }, "3 frames + 1 map from an empty environment: attach, detach (deep), frame tree and map frame operations, existing and missing relations");
    e.add("frames_chain", 3, 5, 2, true, [=](Ctx& c) { run(c, a, 2); }, "the same from a chain of frames");
    WCfg b; b.frames = 1; b.maps = 2; b.layers = 1;
    e.add("layers", 4, 5, 2, true, [=](Ctx& c) { run(c, b, 1); }, "2 maps + 1 layer + 1 frame: layer hierarchy with several parents");
    e.add("layers_tree", 3, 5, 2, true, [=](Ctx& c) { run(c, b, 2); }, "the same from a layer chain");
    WCfg g; g.frames = 0; g.maps = 1; g.layers = 1; g.ops = 2; g.opGraph = true; g.layerTree = false;
    e.add("operators", 4, 5, 2, true, [=](Ctx& c) { run(c, g, 0); }, "2 operators + 2 layers: inputs, outputs, generators");
    e.add("operators_full", 4, 5, 2, true, [=](Ctx& c) { run(c, g, 2); }, "the same from a connected graph");
    WCfg m; m.frames = 2; m.maps = 1; m.layers = 1; m.ops = 1; m.opGraph = true; m.noops = false;
    e.add("mixed", 4, 6, 2, true, [=](Ctx& c) { run(c, m, 2); }, "all relation kinds together from a connected environment");
    return e.main(argc, argv);
}
