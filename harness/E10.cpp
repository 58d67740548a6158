// E10: metadata of layers is typed, owned by the layer and copied deeply.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
static long objs = 0;
struct Obj { int v; Obj() : v(0) { ++objs; } Obj(Obj const& o) : v(o.v) { ++objs; } Obj& operator=(Obj const& o) { v = o.v; return *this; } ~Obj() { v = -99; --objs; } };
struct Base { virtual ~Base() {} int v = 0; }; struct Derived : Base {};
struct Val { int type; int v; };                     // 0 int, 1 string, 2 Obj, 3 vector
typedef std::map<std::string, Val> Model;
static int rd(Layer& l, std::string const& k, int t) { return t == 0 ? l.getData<int>(k) : t == 1 ? (int)l.getData<std::string>(k).size() : t == 2 ? l.getData<Obj>(k).v : (int)l.getData<std::vector<double> >(k).size(); }
static int rdc(Layer const& l, std::string const& k, int t) { return t == 0 ? l.getData<int>(k) : t == 1 ? (int)l.getData<std::string>(k).size() : t == 2 ? l.getData<Obj>(k).v : (int)l.getData<std::vector<double> >(k).size(); }
static bool has(Layer const& l, std::string const& k, int t) { return t == 0 ? l.hasData<int>(k) : t == 1 ? l.hasData<std::string>(k) : t == 2 ? l.hasData<Obj>(k) : l.hasData<std::vector<double> >(k); }
static void wr(Layer& l, std::string const& k, int t, int v) { if (t == 0) l.getData<int>(k) = v; else if (t == 1) l.getData<std::string>(k) = std::string(v, 's'); else if (t == 2) l.getData<Obj>(k).v = v; else l.getData<std::vector<double> >(k).assign(v, 1.5); }
static void judge(Ctx& c, Layer& l, Model const& m, char const* who) {
    static char const* K[] = { "a", "b" };
    for (auto* k : K) {
        auto it = m.find(k); c.check(l.hasData(k) == (it != m.end()), "%s: presence of '%s' is wrong", who, k);
        for (int t = 0; t < 4; ++t) {
            bool right = it != m.end() && it->second.type == t; c.check(has(l, k, t) == right, "%s: typed presence of '%s' as type %d is wrong", who, k, t);
            bool thrown = false; int v = -1; try { v = rdc(l, k, t); } catch (std::runtime_error&) { thrown = true; }
            c.check(thrown == !right && (thrown || v == it->second.v), "%s: reading '%s' as type %d %s (%d)", who, k, t, thrown ? "failed" : "returned a wrong value", v);
        }
    }
}
int main(int argc, char** argv) {
    Engine e;
    e.add("history", 5, 6, 2, true, [](Ctx& c) {
        {
            std::vector<TLayer::Ptr> l; std::vector<Model> m; l.push_back(new TLayer("")); m.push_back(Model()); l.push_back(new TLayer("")); m.push_back(Model());
            static char const* K[] = { "a", "b" }; int ver = 0;
            for (int s = 0; s < c.bound; ++s) {
                std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
                for (size_t i = 0; i < l.size(); ++i) {
                    std::string L = "layer " + std::to_string(i);
                    for (int k = 0; k < 2; ++k) {
                        for (int t = 0; t < 4; ++t) if (k == 0 || t % 2 == 0) add(L + ": write " + K[k] + " as type " + std::to_string(t), [&, i, k, t] {
                            bool mism = m[i].count(K[k]) && m[i][K[k]].type != t, thrown = false; ++ver; try { wr(*l[i], K[k], t, 3 + ver); } catch (std::runtime_error&) { thrown = true; }
                            c.check(thrown == mism, "writing with a %s type %s", mism ? "different" : "matching", thrown ? "was rejected" : "was accepted"); if (!mism) { Val v = { t, 3 + ver }; m[i][K[k]] = v; } });
                        if (k == 0) add(L + ": create default a", [&, i] { if (!m[i].count("a")) { c.check(rd(*l[i], "a", 2) == 0, "new metadata is not default constructed"); Val v = { 2, 0 }; m[i]["a"] = v; } });
                        add(L + ": remove " + K[k], [&, i, k] { l[i]->removeData(K[k]); m[i].erase(K[k]); });
                    }
                    add(L + ": remove all", [&, i] { l[i]->removeData(); m[i].clear(); });
                    add(L + ": assign to the other", [&, i] { int j = (i + 1) % l.size(); *l[j] = *l[i]; m[j] = m[i]; });
                    add(L + ": assign to itself", [&, i] { TLayer& x = *l[i]; x = *&*l[i]; });
                    add(L + ": replace the other by a clone", [&, i] { int j = (i + 1) % l.size(); l[j] = l[i]->clone(); m[j] = m[i]; });
                    add(L + ": set the other from it", [&, i] { int j = (i + 1) % l.size(); l[j]->set(l[i].get()); m[j] = m[i]; });
                    add(L + ": destroy and create new", [&, i] { l[i] = new TLayer(""); m[i].clear(); });
                }
                int k = c.choose(op.size()); c.note("%s", nm[k].c_str()); c.step(); op[k]();
                long want = 0; for (auto& x : m) for (auto& p : x) want += p.second.type == 2; c.check(objs == want, "%ld metadata objects exist, expected %ld", objs, want);
                uint64_t h = 5; std::map<int, int> rank; for (size_t i = 0; i < l.size(); ++i) { judge(c, *l[i], m[i], i ? "second layer" : "first layer"); for (auto& p : m[i]) { h = mix(h, hashStr(p.first) + i); h = mix(h, p.second.type); int r = rank.size(); if (!rank.count(p.second.v)) rank[p.second.v] = r; h = mix(h, rank[p.second.v]); } }
                c.state(h, c.bound - 1 - s); c.outcome(h);
            }
        }
        c.check(objs == 0, "%ld metadata objects leaked", objs); c.check(live == 0, "%ld layers leaked", live);
    }, "two layers, two keys, four types: every history of writes, removals, copies, assignments and destruction");
    e.add("holder", 1, 1, 1, false, [](Ctx& c) {
        {
            int how = c.choose(3); std::unique_ptr<HolderBase> h(how == 0 ? (HolderBase*)new Holder<Obj>() : how == 1 ? (HolderBase*)new Holder<Obj>(new Obj()) : (HolderBase*)new Holder<Derived>()); c.step();
            bool o = how < 2; c.check(h->isOfType<Obj>() == o && h->isOfType<Derived>() == !o && !h->isOfType<Base>() && !h->isOfType<int>(), "isOfType is wrong");
            for (int t = 0; t < 3; ++t) { bool thrown = false; try { if (t == 0) h->get<Obj>(); else if (t == 1) h->get<Derived>(); else h->get<Base>(); } catch (std::runtime_error&) { thrown = true; } c.check(thrown == !((t == 0 && o) || (t == 1 && !o)), "access as type %d %s", t, thrown ? "rejected" : "accepted"); }
            if (o) { h->get<Obj>().v = 4; std::unique_ptr<HolderBase> k(h->clone()), k2(k->clone()); k->get<Obj>().v = 5; HolderBase const& ch = *h; c.check(ch.get<Obj>().v == 4 && k2->get<Obj>().v == 4 && objs == 3, "clones share data"); if (c.flag()) h.reset(); else k.reset(); c.check(objs == 2, "destroying one holder leaves %ld objects", objs); c.check((h ? h->get<Obj>().v : 4) == 4 && (k ? k->get<Obj>().v : 5) == 5 && k2->get<Obj>().v == 4, "a clone changed"); }
        }
        c.check(objs == 0, "%ld objects leaked", objs);
    }, "holders: exact type checks, deep clones, single destruction");
    e.add("flags", 1, 1, 1, false, [](Ctx& c) {
        TLayer::Ptr a = new TLayer("/x"); bool im = c.flag("immutable"), di = c.flag("dirty"); if (im) a->setImmutable(); if (di) a->setDirty(); c.step(); int how = c.choose(3); TLayer::Ptr b;
        if (how == 0) b = a->clone(); else { b = new TLayer(""); if (c.flag("target dirty")) b->setDirty(); if (how == 1) *b = *a; else b->set(a.get()); }
        c.check(b->isImmutable() == im && b->isDirty() == di && a->isImmutable() == im && a->isDirty() == di, "copying changed the flags"); b->resetDirty(); c.check(!b->isDirty() && a->isDirty() == di, "resetting the flag of a copy");
        TMap other; bool was = b->isImmutable(); b->set(&other); c.check(b->isImmutable() == was, "setting from another class changed the layer");
    }, "flags of layers are copied");
    return e.main(argc, argv);
}
