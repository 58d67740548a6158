// A model of one environment plus the real one, driven in lock step.
#ifndef ENVWORLD_HPP
#define ENVWORLD_HPP
#include "envmodel.hpp"
namespace tmod {
using namespace envire;
struct WCfg {
    int frames = 2, maps = 1, mapsB = 0, layers = 0, ops = 0;
    bool opGraph = false, layerTree = true, modify = false, recreate = false, deep = true, noops = true, removals = true;
    int preset = 0;
};
struct World {
    enum Kind { FRAME, MAP, LAYER, OP };
    struct Obj { EnvironmentItem::Ptr item; Kind kind; std::string id; bool att; int cls; };
    Environment* env; std::vector<Obj> o; WCfg cfg;
    std::map<int, int> fparent, mframe;                // child->parent (-1 = root node), map->frame
    std::set<std::pair<int, int> > lay, in, out;       // (child,parent) (op,layer)
    std::set<std::string> ever;                        // relations and detachments that ever happened (hidden state guard)
    int version;
    World(Environment* e, WCfg const& c) : env(e), cfg(c), version(0) {
        for (int i = 0; i < c.frames; ++i) add(new FrameNode(pose(i + 1)), FRAME, "/F" + std::to_string(i));
        for (int i = 0; i < c.maps; ++i) add(new TMap("", i), MAP, "/M" + std::to_string(i));
        for (int i = 0; i < c.mapsB; ++i) { add(new TMapB("", i), MAP, "/B" + std::to_string(i)); o.back().cls = 1; }
        for (int i = 0; i < c.layers; ++i) add(new TLayer("", i), LAYER, "/L" + std::to_string(i));
        for (int i = 0; i < c.ops; ++i) add(new TOp(""), OP, "/O" + std::to_string(i));
    }
    void add(EnvironmentItem* i, Kind k, std::string const& id) { Obj x; x.item = i; x.kind = k; x.id = id; x.att = false; x.cls = 0; i->setUniqueId(id); o.push_back(x); }
    FrameNode* F(int i) { return i < 0 ? env->getRootNode() : static_cast<FrameNode*>(o[i].item.get()); }
    CartesianMap* M(int i) { return static_cast<CartesianMap*>(o[i].item.get()); }
    Layer* L(int i) { return static_cast<Layer*>(o[i].item.get()); }
    Operator* O(int i) { return static_cast<Operator*>(o[i].item.get()); }
    bool isLayer(int i) { return o[i].kind == MAP || o[i].kind == LAYER; }
    std::string id(int i) { return i < 0 ? env->getRootNode()->getUniqueId() : o[i].id; }
    bool below(int x, int anc) { while (x >= 0) { if (x == anc) return true; auto it = fparent.find(x); if (it == fparent.end()) return false; x = it->second; } return x == anc; }
    void forget(int i) {
        fparent.erase(i); mframe.erase(i);
        for (auto it = fparent.begin(); it != fparent.end();) if (it->second == i) it = fparent.erase(it); else ++it;
        for (auto it = mframe.begin(); it != mframe.end();) if (it->second == i) it = mframe.erase(it); else ++it;
        std::set<std::pair<int, int> >* rel[] = { &lay, &in, &out };
        for (auto* r : rel) for (auto it = r->begin(); it != r->end();) if (it->first == i || it->second == i) it = r->erase(it); else ++it;
        o[i].att = false;
    }
    void forgetDeep(int i) {
        if (o[i].kind == FRAME) {
            std::vector<int> k; for (auto& p : fparent) if (p.second == i) k.push_back(p.first);
            for (auto& p : mframe) if (p.second == i) k.push_back(p.first);
            for (int x : k) forgetDeep(x);
        }
        forget(i);
    }
    typedef std::pair<std::string, std::function<void ()> > Op;
    void mark(char const* k, int a, int b) { ever.insert(std::string(k) + std::to_string(a) + "," + std::to_string(b)); }
    std::vector<Op> ops() {
        std::vector<Op> r; int n = o.size();
        auto add = [&](std::string const& s, std::function<void ()> f) { r.push_back(Op(s, f)); };
        for (int i = 0; i < n; ++i) {
            if (!o[i].att) {
                add("attach " + o[i].id, [=] { env->attachItem(o[i].item.get()); o[i].att = true; });
                if (o[i].kind == MAP) add("attach map " + o[i].id + " to the root", [=] { env->attachItem(M(i)); o[i].att = true; mframe[i] = -1; mark("m", i, -1); });
                if (o[i].kind == MAP) for (int f = 0; f < n; ++f) if (o[f].kind == FRAME && o[f].att && (cfg.noops || f == 0)) add("attach map " + o[i].id + " to " + o[f].id, [=] { env->attachItem(M(i), F(f)); o[i].att = true; mframe[i] = f; mark("m", i, f); });
                if (cfg.recreate && o[i].kind == MAP) add("replace the detached " + o[i].id + " by a new object of the other class", [=] { o[i].cls ^= 1; ++version; if (o[i].cls) o[i].item = new TMapB(o[i].id, version); else o[i].item = new TMap(o[i].id, version); });
            } else {
                add("detach " + o[i].id, [=] { EnvironmentItem::Ptr p = env->detachItem(o[i].item.get()); if (p != o[i].item) throw mc::Violation("detaching returned a different item"); forget(i); mark("d", i, 0); });
                if (cfg.deep && o[i].kind == FRAME) add("detach deeply " + o[i].id, [=] { EnvironmentItem::Ptr p = env->detachItem(o[i].item.get(), true); if (p != o[i].item) throw mc::Violation("detaching returned a different item"); forgetDeep(i); mark("D", i, 0); });
            }
            if (cfg.modify && (o[i].kind != OP)) add("modify " + o[i].id, [=] { modify(i); });
        }
        for (int p = -1; p < n; ++p) {
            if (p >= 0 && (o[p].kind != FRAME || !o[p].att)) continue;
            for (int c = 0; c < n; ++c) {
                if (o[c].kind != FRAME || p == c || below(p, c)) continue;
                bool has = fparent.count(c) && fparent[c] == p;
                if (!has || cfg.noops) add("frame child " + id(c) + " of " + id(p), [=] { if (o[c].att && p >= 0 && cfg.noops) F(p)->addChild(F(c)); else env->addChild(F(p), F(c)); o[c].att = true; fparent[c] = p; mark("f", c, p); });
                if (o[c].att && cfg.removals && (has || cfg.noops)) add("remove frame child " + id(c) + " of " + id(p), [=] { env->removeChild(F(p), F(c)); if (fparent.count(c) && fparent[c] == p) fparent.erase(c); });
            }
            for (int m = 0; m < n; ++m) {
                if (o[m].kind != MAP) continue;
                bool has = mframe.count(m) && mframe[m] == p;
                if (!has || cfg.noops) add("set frame of " + id(m) + " to " + id(p), [=] { if (o[m].att) M(m)->setFrameNode(F(p)); else env->setFrameNode(M(m), F(p)); o[m].att = true; mframe[m] = p; mark("m", m, p); });
                if (o[m].att && cfg.removals && (has || cfg.noops)) add("detach frame of " + id(m) + " from " + id(p), [=] { env->detachFrameNode(M(m), F(p)); if (mframe.count(m) && mframe[m] == p) mframe.erase(m); });
            }
        }
        for (int f = 0; f < n && cfg.noops; ++f) if (o[f].kind == FRAME && !o[f].att)      // a node that is not attached yet
            for (int m = 0; m < n; ++m) if (o[m].kind == MAP) add("set frame of " + id(m) + " to the detached " + id(f), [=] { env->setFrameNode(M(m), F(f)); o[m].att = o[f].att = true; mframe[m] = f; mark("m", m, f); });
        if (cfg.layerTree) for (int p = 0; p < n; ++p) {
            if (!isLayer(p) || !o[p].att) continue;
            for (int c = 0; c < n; ++c) {
                if (!isLayer(c) || p == c) continue;
                bool has = lay.count(std::make_pair(c, p));
                if (!has || cfg.noops) add("layer child " + id(c) + " of " + id(p), [=] { L(p)->addChild(L(c)); o[c].att = true; lay.insert(std::make_pair(c, p)); mark("l", c, p); });
                if (o[c].att && cfg.removals && (has || cfg.noops)) add("remove layer child " + id(c) + " of " + id(p), [=] { env->removeChild(L(p), L(c)); lay.erase(std::make_pair(c, p)); });
            }
        }
        if (cfg.opGraph) for (int q = 0; q < n; ++q) {
            if (o[q].kind != OP) continue;
            for (int l = 0; l < n; ++l) {
                if (!isLayer(l)) continue;
                for (int k = 0; k < 2; ++k) {
                    std::set<std::pair<int, int> >* R = k ? &out : &in;
                    bool has = R->count(std::make_pair(q, l));
                    if (!has || cfg.noops) add(std::string(k ? "output " : "input ") + id(l) + " of " + id(q), [=] { bool res = k ? env->addOutput(O(q), L(l)) : env->addInput(O(q), L(l)); if (res == has) throw mc::Violation("adding an operator relation returned the wrong result"); o[q].att = o[l].att = true; R->insert(std::make_pair(q, l)); mark(k ? "o" : "i", q, l); });
                    if (o[q].att && o[l].att && (has || cfg.noops)) add(std::string(k ? "remove output " : "remove input ") + id(l) + " of " + id(q), [=] { if (k) O(q)->removeOutput(L(l)); else O(q)->removeInput(L(l)); R->erase(std::make_pair(q, l)); });
                }
            }
            if (o[q].att) for (int k = 0; k < 2; ++k) add(std::string(k ? "remove all outputs of " : "remove all inputs of ") + id(q), [=] { std::set<std::pair<int, int> >* R = k ? &out : &in; if (k) O(q)->removeOutputs(); else O(q)->removeInputs(); for (auto it = R->begin(); it != R->end();) if (it->first == q) it = R->erase(it); else ++it; });
        }
        return r;
    }
    void modify(int i) {
        ++version;
        if (o[i].kind == FRAME) {
            FrameNode* f = F(i);
            if (version % 2) f->setTransform(pose(version)); else { TransformWithUncertainty::Covariance cov = TransformWithUncertainty::Covariance::Identity() * (0.5 + version); cov(0, 3) = cov(3, 0) = 1.0 / 3 + version; f->setTransform(TransformWithUncertainty(pose(version), cov)); }
            return;
        }
        if (TMap* m = dynamic_cast<TMap*>(o[i].item.get())) { m->value = 100 + version; m->blob = std::string(version % 3, '\0') + "b\n " + std::to_string(version) + " "; }
        else if (TMapB* m = dynamic_cast<TMapB*>(o[i].item.get())) { m->value = 100 + version; }
        else if (TLayer* m = dynamic_cast<TLayer*>(o[i].item.get())) { m->value = 100 + version; if (version % 4 == 3) m->setImmutable(); }
        o[i].item->itemModified();
    }
    Snap expected(bool operators, bool label = false) {
        Snap s; s.items[env->getRootNode()->getUniqueId()] = content(env->getRootNode(), label);
        for (auto& x : o) if (x.att) s.items[x.id] = content(x.item.get(), label);
        for (auto& p : fparent) s.frame.insert(std::make_pair(id(p.first), id(p.second)));
        for (auto& p : mframe) s.map.insert(std::make_pair(id(p.first), id(p.second)));
        for (auto& p : lay) s.layer.insert(std::make_pair(id(p.first), id(p.second)));
        if (operators) { for (auto& p : in) s.in.insert(std::make_pair(id(p.first), id(p.second))); for (auto& p : out) s.out.insert(std::make_pair(id(p.first), id(p.second))); }
        return s;
    }
    void verify(mc::Ctx& c, bool operators) {
        Snap w = expected(operators), g = snapshot(*env, operators);
        c.check(w == g, "environment differs from the model:%s", diff(w, g).c_str());
        for (auto& x : o) if (!x.att) {
            c.check(!x.item->isAttached() && x.item->getEnvironment() == 0, "%s is detached but still claims an environment", x.id.c_str());
            c.check(!env->getItem(x.id), "detached %s is still found", x.id.c_str());
        } else c.check(x.item->getUniqueId() == x.id, "id of %s changed to %s", x.id.c_str(), x.item->getUniqueId().c_str());
    }
    // canonical state: model + what could have left hidden traces; contents by version rank only
    uint64_t hash() {
        std::string s = expected(true).str();
        for (auto& x : o) if (!x.att) s += "~" + x.id + content(x.item.get());
        for (auto& e : ever) s += e + ";";
        return mc::hashStr(s);
    }
    // start states
    void preset(int k) {
        auto att = [&](int i) { if (!o[i].att) { env->attachItem(o[i].item.get()); o[i].att = true; } };
        int n = o.size();
        if (k >= 1) { int prev = -1; for (int i = 0; i < n; ++i) if (o[i].kind == FRAME) { env->addChild(F(prev), F(i)); o[i].att = true; fparent[i] = prev; if (k == 2) prev = i; } }
        int lastF = -1; for (int i = 0; i < n; ++i) if (o[i].kind == FRAME) lastF = i;
        if (k >= 1) for (int i = 0; i < n; ++i) { if (o[i].kind != FRAME) att(i); if (o[i].kind == MAP) { env->setFrameNode(M(i), F(k == 2 ? lastF : -1)); mframe[i] = k == 2 ? lastF : -1; } }
        if (k == 2) { int prev = -1; for (int i = 0; i < n; ++i) if (isLayer(i)) { if (prev >= 0) { env->addChild(L(prev), L(i)); lay.insert(std::make_pair(i, prev)); } prev = i; }
            if (cfg.opGraph) { int q = -1; for (int i = 0; i < n; ++i) if (o[i].kind == OP) q = i; if (q >= 0) for (int i = 0; i < n; ++i) if (isLayer(i)) { if (i % 2) { env->addInput(O(q), L(i)); in.insert(std::make_pair(q, i)); } else { env->addOutput(O(q), L(i)); out.insert(std::make_pair(q, i)); } } } }
    }
};
}
#endif
