// E03: whoever listens to the events of an environment, from whatever moment on, knows its exact structure.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
// keeps a mirror from raw events and insists that every single event is consistent with it
struct Mirror : public EventHandler {
    Ctx& c; std::set<EnvironmentItem*> items; std::set<std::pair<EnvironmentItem*, EnvironmentItem*> > frame, layer, map; EnvironmentItem* root; int updates; EnvironmentItem* last; int events;
    Mirror(Ctx& c) : c(c), root(0), updates(0), last(0), events(0) {}
    bool linked(EnvironmentItem* i) { for (auto* r : { &frame, &layer, &map }) for (auto& p : *r) if (p.first == i || p.second == i) return true; return false; }
    void handle(Event const& e) {
        ++events; std::ostringstream s; s << e.operation << " " << e.type << " " << (e.a ? e.a->getUniqueId() : "-") << " " << (e.b ? e.b->getUniqueId() : "-"); std::string d = s.str();
        c.check(e.a.get() != 0, "event without subject: %s", d.c_str());
        if (e.type == event::ITEM) {
            if (e.operation == event::ADD) c.check(items.insert(e.a.get()).second, "item announced twice: %s", d.c_str());
            else if (e.operation == event::REMOVE) { c.check(!linked(e.a.get()), "item removed while still related: %s", d.c_str()); c.check(items.erase(e.a.get()) == 1, "unknown item removed: %s", d.c_str()); }
            else { ++updates; last = e.a.get(); c.check(items.count(e.a.get()), "unknown item updated: %s", d.c_str()); }
        } else if (e.type == event::ROOT) {
            c.check(items.count(e.a.get()), "unknown root node: %s", d.c_str());
            if (e.operation == event::ADD) { c.check(!root, "second root node: %s", d.c_str()); root = e.a.get(); } else { c.check(root == e.a.get(), "wrong root removed: %s", d.c_str()); root = 0; }
        } else {
            c.check(e.b.get() && items.count(e.a.get()) && items.count(e.b.get()), "relation event for unknown items: %s", d.c_str());
            auto& r = e.type == event::FRAMENODE_TREE ? frame : e.type == event::LAYER_TREE ? layer : map;
            std::pair<EnvironmentItem*, EnvironmentItem*> p = e.type == event::FRAMENODE ? std::make_pair(e.a.get(), e.b.get()) : std::make_pair(e.b.get(), e.a.get());
            if (e.operation == event::ADD) {
                c.check(r.insert(p).second, "relation announced twice: %s", d.c_str());
                if (e.type != event::LAYER_TREE) { int n = 0; for (auto& q : r) n += q.first == p.first; c.check(n == 1, "second frame for one item: %s", d.c_str()); }
            } else { c.check(e.operation == event::REMOVE, "update of a relation: %s", d.c_str()); c.check(r.erase(p) == 1, "removal of a relation that is not there: %s", d.c_str()); }
        }
    }
    void compare(Environment& env, char const* who) {
        Snap g = snapshot(env, false), m; m.items = std::map<std::string, std::string>();
        for (auto* i : items) m.items[i->getUniqueId()] = content(i);
        for (auto& p : frame) m.frame.insert(std::make_pair(p.first->getUniqueId(), p.second->getUniqueId()));
        for (auto& p : layer) m.layer.insert(std::make_pair(p.first->getUniqueId(), p.second->getUniqueId()));
        for (auto& p : map) m.map.insert(std::make_pair(p.first->getUniqueId(), p.second->getUniqueId()));
        c.check(g == m, "what %s was told differs from the environment:%s", who, diff(g, m).c_str());
        c.check(root == env.getRootNode(), "%s does not know the root node", who);
    }
    void empty(char const* who) { c.check(items.empty() && frame.empty() && layer.empty() && map.empty() && !root, "%s still knows something after its removal", who); }
};
// the same through the dispatching listener interface
struct Listener : public EventListener {
    Ctx& c; std::set<EnvironmentItem*> items; std::set<std::pair<EnvironmentItem*, EnvironmentItem*> > frame, layer, map; FrameNode* root; int updates;
    Listener(Ctx& c) : c(c), root(0), updates(0) {}
    void itemAttached(EnvironmentItem* i) { c.check(items.insert(i).second, "listener: item attached twice"); }
    void itemDetached(EnvironmentItem* i) { c.check(items.erase(i), "listener: unknown item detached"); }
    void itemModified(EnvironmentItem* i) { c.check(items.count(i), "listener: unknown item modified"); ++updates; }
    void childAdded(FrameNode* p, FrameNode* k) { c.check(frame.insert(std::make_pair(k, p)).second, "listener: frame child added twice"); }
    void childRemoved(FrameNode* p, FrameNode* k) { c.check(frame.erase(std::make_pair(k, p)), "listener: unknown frame child removed"); }
    void childAdded(Layer* p, Layer* k) { c.check(layer.insert(std::make_pair(k, p)).second, "listener: layer child added twice"); }
    void childRemoved(Layer* p, Layer* k) { c.check(layer.erase(std::make_pair(k, p)), "listener: unknown layer child removed"); }
    void frameNodeSet(CartesianMap* m, FrameNode* n) { c.check(map.insert(std::make_pair(m, n)).second, "listener: frame node set twice"); }
    void frameNodeDetached(CartesianMap* m, FrameNode* n) { c.check(map.erase(std::make_pair(m, n)), "listener: unknown frame node detached"); }
    void setRootNode(FrameNode* r) { root = r; } void removeRootNode(FrameNode* r) { c.check(root == r, "listener: wrong root removed"); root = 0; }
    void same(Mirror& m) { c.check(items == m.items && frame == m.frame && layer == m.layer && map == m.map && (EnvironmentItem*)root == m.root, "listener callbacks and raw events disagree"); }
};
struct OnlyItems : public EventFilter { int seen; OnlyItems() : seen(0) {} bool filter(Event const& e) { ++seen; return e.type == event::ITEM; } };
struct Count : public EventHandler { int items, other; Count() : items(0), other(0) {} void handle(Event const& e) { if (e.type == event::ITEM) ++items; else ++other; } };

static void run(Ctx& c, WCfg const& cfg, int preset, bool toggles) {
    Mirror first(c), late(c); Listener lst(c); Count filtered, plain; OnlyItems flt; filtered.setFilter(&flt);
    World* wp = 0;
    std::unique_ptr<Environment> env(new Environment());
    World w(env.get(), cfg); wp = &w;
    bool early = c.flag("listener before the first operation");
    if (early) { env->addEventHandler(&first); first.compare(*env, "the early handler"); }
    w.preset(preset);
    if (!early) env->addEventHandler(&first);
    env->addEventHandler(&filtered); env->addEventHandler(&plain);
    env->addEventHandler(&lst);
    bool lateOn = false;
    first.compare(*env, "the first handler");
    for (int i = 0; i < c.bound; ++i) {
        std::vector<World::Op> ops = w.ops(); int n = ops.size();
        int k = c.choose(n + (toggles ? 1 : 0)); c.step();
        int before = first.updates, ev = first.events;
        if (k == n) {
            c.note(lateOn ? "remove the second handler" : "add the second handler");
            if (lateOn) { env->removeEventHandler(&late); late.empty("the second handler"); } else env->addEventHandler(&late);
            lateOn = !lateOn; c.check(first.events == ev, "another handler's registration reached the first handler");
        } else {
            c.note("%s", ops[k].first.c_str()); bool mod = ops[k].first.compare(0, 6, "modify") == 0; bool att = false; int idx = -1;
            if (mod) for (size_t q = 0; q < w.o.size(); ++q) if (ops[k].first == "modify " + w.o[q].id) { idx = q; att = w.o[q].att; }
            Snap b4 = snapshot(*env, false); int lev = late.events;
            ops[k].second();
            if (mod) { c.check(first.updates == before + (att ? 1 : 0), "a modification of %s item produced %d update events", att ? "an attached" : "a detached", first.updates - before); if (att) c.check(first.last == w.o[idx].item.get(), "update event for the wrong item"); }
            else { c.check(first.updates == before, "a structural change produced an update event"); if (b4 == snapshot(*env, false)) c.check(first.events == ev, "an operation without effect produced events"); }
            if (!lateOn) c.check(late.events == lev, "a handler that is not registered received events");
        }
        w.verify(c, true);
        first.compare(*env, "the first handler"); lst.same(first);
        c.check(lst.updates <= first.updates, "listener saw more updates than raw events");
        if (lateOn) late.compare(*env, "the second handler");
        c.check(filtered.other == 0 && filtered.items == plain.items && flt.seen == plain.items + plain.other, "filter not applied to exactly the passed events");
        c.state(mix(mix(w.hash(), lateOn), early), c.bound - 1 - i);
    }
    c.outcome(w.hash());
    if (lateOn) { env->removeEventHandler(&late); late.empty("the second handler"); }
    int how = c.choose(3, "end");
    if (how == 0) { env->removeEventHandler(&first); first.empty("the first handler"); env->removeEventHandler(&lst); c.check(lst.items.empty() && lst.frame.empty() && lst.layer.empty() && lst.map.empty() && !lst.root, "listener still knows something after its removal"); }
    if (how == 1) { env.reset(); c.check(first.items.empty() && first.frame.empty() && first.map.empty() && first.layer.empty(), "destroying the environment left announced content"); }
    if (how == 2) { env->removeEventHandler(&lst); int n = lst.items.size(); env->removeEventHandler(&first); first.empty("the first handler"); env->addEventHandler(&first); first.compare(*env, "the re-registered handler"); }
    env.reset();
}
int main(int argc, char** argv) {
    Engine e;
    WCfg a; a.frames = 2; a.maps = 1; a.layerTree = false; a.modify = true;
    e.add("frames", 3, 5, 3, true, [=](Ctx& c) { run(c, a, 0, true); }, "2 frames + 1 map from an empty environment, a second handler registered and removed at any point");
    e.add("frames_chain", 3, 4, 3, true, [=](Ctx& c) { WCfg d = a; d.frames = 3; run(c, d, 2, true); }, "3 chained frames + 1 map");
    WCfg b; b.frames = 1; b.maps = 1; b.layers = 1; b.modify = true;
    e.add("layers", 3, 4, 3, true, [=](Ctx& c) { run(c, b, 1, true); }, "map + layer + frame, layer hierarchy");
    e.add("layers_tree", 3, 4, 3, true, [=](Ctx& c) { WCfg d = b; d.maps = 2; d.frames = 0; run(c, d, 2, true); }, "three layers in a chain");
    WCfg m; m.frames = 2; m.maps = 1; m.layers = 1; m.ops = 1; m.opGraph = true; m.noops = false;
    e.add("mixed", 3, 4, 3, true, [=](Ctx& c) { run(c, m, 2, true); }, "all relation kinds from a connected environment");
    return e.main(argc, argv);
}
