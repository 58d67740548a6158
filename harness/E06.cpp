// E06: saving an environment to disk and loading it reproduces it completely and usably.
#include "envworld.hpp"
#include <cstdlib>
#include <dirent.h>
using namespace tmod; using namespace mc;
static std::string dir() { static std::string d; std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; d = base + "/scene" + std::to_string(getpid()); return d; }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
static char const* LABELS[] = { "", "plain", "it's: [a], {b}", "two words  ", " lead", "line\nbreak\n", "\"quoted\"", "'", "#comment", "null", "- x", "tab\there", "\xc3\xa9\xe2\x82\xac", "~", "yes", "a: b", "%x", "&y *z", "007", "trailing\\" };
static const int NL = sizeof LABELS / sizeof *LABELS;

// the environment is replaced by its reloaded image, the model stays
struct Reload {
    std::unique_ptr<Environment> env;
    void go(Ctx& c, World& w, bool over) {
        Snap before = snapshot(*env, true, true); if (!over) wipe();
        env->serialize(dir()); Snap after = snapshot(*env, true, true); c.check(before == after, "saving changed the environment:%s", diff(before, after).c_str());
        std::unique_ptr<Environment> n(Environment::unserialize(dir()));
        Snap s = snapshot(*n, true, true); c.check(before == s, "the loaded environment differs:%s", diff(before, s).c_str());
        c.check(n->getRootNode() && n->getRootNode()->isAttached() && n->getItem("/0").get() == n->getRootNode(), "the loaded environment has no proper root node");
        for (auto& x : w.o) if (x.att) x.item = n->getItem(x.id);
        w.env = n.get(); env.reset(n.release()); w.ever.clear(); ++reloads;
    }
    int reloads = 0;
};
static void history(Ctx& c, WCfg const& cfg, int preset) {
    {
        Reload r; r.env.reset(new Environment()); World w(r.env.get(), cfg); w.preset(preset);
        for (size_t k = 0; k < w.o.size(); ++k) w.o[k].item->setLabel(LABELS[(k * 3 + 2) % NL]);
        int since = 1;
        for (int i = 0; i < c.bound; ++i) {
            std::vector<World::Op> ops = w.ops(); int n = ops.size(), k = c.choose(n + (since ? 1 : 0)); c.step();
            if (k == n) { c.note("save and reload"); r.go(c, w, i > 0); since = 0; } else { c.note("%s", ops[k].first.c_str()); ops[k].second(); ++since; }
            w.verify(c, true);
            c.state(mix(mix(w.hash(), since ? 1 : 0), r.reloads), c.bound - 1 - i);
        }
        if (since) r.go(c, w, true);
        w.verify(c, true);
        c.outcome(w.hash());
        // the loaded environment continues to number items uniquely
        for (int i = 0; i < 2; ++i) { TLayer* l = new TLayer("/n/"); r.env->attachItem(static_cast<EnvironmentItem*>(l)); FrameNode* f = new FrameNode(); r.env->addChild(r.env->getRootNode(), f); }
        snapshot(*r.env, true);
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    Engine e;
    WCfg a; a.frames = 2; a.maps = 1; a.layers = 1; a.ops = 1; a.opGraph = true; a.noops = false; a.modify = true; a.deep = false;
    for (int p = 0; p < 3; ++p) e.add("history" + std::to_string(p), p == 0 ? 4 : 3, p == 0 ? 5 : 4, 2, true, [=](Ctx& c) { history(c, a, p); }, "structure and content changes with save and reload at any point, then further changes on the reloaded environment");
    WCfg b; b.frames = 1; b.maps = 1; b.mapsB = 1; b.layers = 1; b.ops = 2; b.opGraph = true; b.noops = false; b.removals = false; b.deep = false;
    e.add("operators", 3, 4, 2, true, [=](Ctx& c) { history(c, b, 2); }, "two operators over three layers");
    e.add("strings", 2, 3, 1, false, [](Ctx& c) {
        {
            static char const* IDS[] = { "/x", "/a b", "/7", "/p/q", "/p/7", "/d'Arc", "/#1", "/\xc3\xa9", "/a:b", "/k: v", "/-", "/12345678901234567890" };
            Reload r; r.env.reset(new Environment()); WCfg n; n.frames = n.maps = 0; World w(r.env.get(), n);
            for (int i = 0; i < c.bound; ++i) { int k = c.choose(12, "id"), kind = i ? 1 : c.choose(3, "class"); EnvironmentItem::Ptr it = kind == 0 ? (EnvironmentItem*)new FrameNode(pose(k)) : kind == 1 ? (EnvironmentItem*)new TLayer("", k) : (EnvironmentItem*)new TMap("", k);
                std::string id = IDS[k]; if (r.env->getItem(id)) continue; it->setUniqueId(id); it->setLabel(LABELS[i < 1 ? c.choose(NL, "label") : (k + 5) % NL]); r.env->attachItem(it.get()); }
            r.env->getRootNode()->setLabel("root"); c.step(); r.go(c, w, false);
            // numbers given out after loading never collide
            for (int i = 0; i < 3; ++i) r.env->attachItem(static_cast<EnvironmentItem*>(new TLayer(i ? "/" : "/p/")));
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "every combination of id, class and label");
    e.add("values", 2, 3, 1, false, [](Ctx& c) {
        {
            static const double V[] = { 0, -0.0, 1.0 / 3, -1e-300, 1.7976931348623157e308, 5e-324, 123456789.123456789, -2.0000000000000004 };
            Reload r; r.env.reset(new Environment()); WCfg n; n.frames = n.maps = 0; World w(r.env.get(), n);
            double x = V[c.choose(8)], y = V[c.choose(8)]; int kind = c.choose(4, "covariance");
            Eigen::Affine3d t = pose(c.choose(5)); t.translation() = Eigen::Vector3d(x, y, V[c.choose(8)]);
            FrameNode* f = kind ? 0 : new FrameNode(t);
            if (!f) { TransformWithUncertainty::Covariance cov = TransformWithUncertainty::Covariance::Zero(); if (kind == 2) for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov(i, j) = i * 6 + j + x; if (kind == 3) cov(5, 0) = y; f = new FrameNode(TransformWithUncertainty(t, cov)); }
            bool root = c.flag("root");
            if (root) { r.env->getRootNode()->setTransform(f->getTransformWithUncertainty()); FrameNode::Ptr drop(f); } else r.env->addChild(r.env->getRootNode(), f);
            c.step(); r.go(c, w, false); r.go(c, w, true);
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "every transform and covariance value survives bit-exactly, also repeatedly");
    e.add("blobs", 2, 3, 1, false, [](Ctx& c) {
        {
            Reload r; r.env.reset(new Environment()); WCfg n; n.frames = n.maps = 0; World w(r.env.get(), n);
            std::string all; for (int i = 0; i < 256; ++i) all += (char)i;
            std::string B[] = { "", std::string(1, '\0'), "\r\n \t", all, std::string(70000, '\xff'), all + all, " " };
            bool twice = c.flag("saved before with other content"); std::vector<TMap*> ms;
            for (int i = 0; i < c.bound; ++i) { TMap* m = new TMap("/m" + std::to_string(i), i); m->blob = B[c.choose(7)]; r.env->attachItem(m); ms.push_back(m); }
            if (twice) { std::string keep = ms[0]->blob; ms[0]->blob = std::string(80000, 'z'); wipe(); r.env->serialize(dir()); ms[0]->blob = keep; }
            c.step(); r.go(c, w, twice);
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "binary content of several maps, also when an earlier scene is overwritten");
    e.add("missing", 1, 1, 1, false, [](Ctx& c) {
        wipe(); bool t = false; int k = c.choose(2); if (k) { mkdir(dir().c_str(), 0755); } c.step();
        try { std::unique_ptr<Environment> x(Environment::unserialize(dir())); } catch (std::exception&) { t = true; } c.check(t, "loading a scene that does not exist succeeded");
    }, "a missing scene is an error");
    // two different ids whose maps would be stored in the same file
    e.add("file_names", 1, 1, 1, false, [](Ctx& c) {
        static char const* P[][2] = { { "/a/b", "/a/c" }, { "/a_b", "/ab" }, { "/a", "/a/a" }, { "/a/b", "/a_b" } };
        int k = c.choose(4); Environment a; for (int i = 0; i < 2; ++i) { TMap* m = new TMap(P[k][i], i); m->blob = i ? "second" : "first"; a.attachItem(m); }
        wipe(); a.serialize(dir()); std::unique_ptr<Environment> b(Environment::unserialize(dir())); c.step();
        Snap s = snapshot(a, false), t = snapshot(*b, false);
        bool known = k == 3 && strstr(getenv("VERIF_KNOWN") ? getenv("VERIF_KNOWN") : "", "E06-file-name-collision");
        if (!known) c.check(s == t, "maps %s and %s overwrite each other's files:%s", P[k][0], P[k][1], diff(s, t).c_str());
    }, "maps with different ids are stored independently");
    return e.main(argc, argv);
}
