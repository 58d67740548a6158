// E14: saving an environment writes everything or reports that it could not.
#include "envworld.hpp"
#include <cstdlib>
#include <csignal>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace tmod; using namespace mc;
typedef std::map<std::string, std::string> Files;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/full" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") { unlink((d + "/" + f).c_str()); rmdir((d + "/" + f).c_str()); } } closedir(h); } rmdir(d.c_str()); unlink(d.c_str()); }
static Files slurp() { std::string d = dir(); Files r; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f == "." || f == "..") continue; std::ifstream i((d + "/" + f).c_str(), std::ios::binary); r[f] = std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); } closedir(h); } return r; }
static int handles() { int n = 0; if (DIR* h = opendir("/proc/self/fd")) { while (readdir(h)) ++n; closedir(h); } return n; }
// no file can grow beyond n bytes
struct Limit { rlimit old; Limit(size_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
// an item that can't be stored
class TBad : public envire::Layer, public Counted { ENVIRONMENT_ITEM(TBad) public: int mode; explicit TBad(int m = 0) : envire::Layer(""), mode(m) {}
    void serialize(Serialization& so) { if (mode == 1) throw std::runtime_error("no"); envire::Layer::serialize(so); so.write("value", 3); std::ostream& o = so.getBinaryOutputStream("bad.bin"); o << "some data"; if (mode == 2) throw std::runtime_error("no"); if (mode == 3) so.getBinaryOutputStream("no/such/folder/bad.bin"); }
    void unserialize(Serialization& so) { envire::Layer::unserialize(so); so.getBinaryInputStream("bad.bin"); if (mode == 4) so.getBinaryInputStream("missing.bin"); } };
ENVIRONMENT_ITEM_DEF(TBad)
static const size_t SIZES[][3] = { { 5, 0, 40 }, { 9000, 3, 0 }, { 40, 70000, 20 }, { 1, 1, 1 } };
static void build(World& w, int blobs, int sizes) { w.preset(2); int k = 0; for (auto& x : w.o) if (TMap* m = dynamic_cast<TMap*>(x.item.get())) { m->blob.clear(); for (size_t i = 0; i < SIZES[sizes][k % 3]; ++i) m->blob += char('a' + i % 26); ++k; } (void)blobs; }
static WCfg cfg(int maps, int layers, int ops) { WCfg w; w.frames = 1; w.maps = maps; w.layers = layers; w.ops = ops; w.opGraph = true; return w; }
static bool save(Environment& e) { try { e.serialize(dir()); } catch (std::exception&) { return false; } return true; }
static void loadEqual(Ctx& c, Snap const& want, char const* what) { std::unique_ptr<Environment> n; std::string err; try { n.reset(Environment::unserialize(dir())); } catch (std::exception& x) { err = x.what(); } c.check(bool(n), "%s, but the scene can't be loaded: %s", what, err.c_str()); Snap s = snapshot(*n, true, true); c.check(s == want, "%s, but the scene differs:%s", what, diff(want, s).c_str()); }
static void limited(Ctx& c, int maps, int layers, int ops, int sizes, std::vector<size_t> const& limits, bool over) {
    {
        Environment env; World w(&env, cfg(maps, layers, ops)); build(w, maps, sizes); Snap before = snapshot(env, true, true); wipe();
        c.check(save(env), "an environment can't be saved"); Files all = slurp(); if (!over) wipe(); int open = handles();
        bool any = false; size_t lim = 0;
        for (size_t l : limits) {
            lim = l; bool fits = true; for (auto& f : all) fits &= f.second.size() <= l;
            bool ok; { Limit x(l); c.step(); ok = save(env); }
            c.check(ok == fits, "no file can be longer than %zu bytes: saving %s", l, ok ? "is reported as done though files are cut off" : "fails though all fit");
            c.check(snapshot(env, true, true) == before, "saving changed the environment"); c.check(handles() == open, "%d files are left open", handles() - open);
            if (ok) { Files now = slurp(); c.check(now == all, "saving wrote other files than before"); loadEqual(c, before, "saved"); } any |= !ok;
        }
        // once there is room again, all is well
        c.check(save(env), "an environment can't be saved after saving it failed once"); c.check(slurp() == all, "saving after a failure wrote other files"); loadEqual(c, before, "saved after a failure"); c.outcome(mix(lim, any)); wipe();
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    std::cerr.rdbuf(0); signal(SIGXFSZ, SIG_IGN);
    Engine e;
    e.add("sizes", 1, 1, 2, false, [](Ctx& c) {
        int what = c.choose(c.thorough ? 4 : 2, "environment"), b = c.choose(64, "limit / 64"), maps = what == 0 ? 0 : what == 3 ? 3 : what, layers = what == 0 ? 2 : 1; size_t l = b * 64 + c.choose(64, "limit"); limited(c, maps, layers, what != 1, 0, std::vector<size_t>(1, l), (c.thorough || l % 8 == 3) && c.flag("over an earlier scene"));
    }, "files limited to every length up to 4096 bytes");
    e.add("large", 1, 1, 1, false, [](Ctx& c) {
        static const size_t B[] = { 4095, 4096, 8190, 8191, 8192, 8999, 9000, 9001, 16384, 65535, 65536, 69999, 70000, 70001 }; int s = c.choose(4, "sizes"), maps = 1 + c.choose(3, "maps"); size_t l = B[c.choose(14, "limit")]; limited(c, maps, 0, 0, s, std::vector<size_t>(1, l), c.flag("over an earlier scene"));
    }, "maps with contents beyond the buffers of files, with limits around their sizes");
    e.add("sequences", 2, 3, 2, false, [](Ctx& c) {
        static const size_t B[] = { 0, 1, 39, 40, 200, 1000, 3000, 100000 }; std::vector<size_t> l; for (int i = 0; i < c.bound; ++i) l.push_back(B[c.choose(8, "limit")]); limited(c, 2, 1, 1, c.choose(2, "sizes") * 2, l, c.flag("over an earlier scene"));
    }, "all sequences of saves with different limits");
    e.add("obstacles", 1, 1, 1, false, [](Ctx& c) {
        {
            Environment env; World w(&env, cfg(2, 1, 1)); build(w, 2, 0); Snap before = snapshot(env, true, true); wipe(); save(env); Files all = slurp(); std::vector<std::string> n; for (auto& f : all) n.push_back(f.first); int open = handles();
            int k = c.choose(n.size() + 2, "where"); c.step(); std::string d = dir();
            if (k < (int)n.size()) { unlink((d + "/" + n[k]).c_str()); mkdir((d + "/" + n[k]).c_str(), 0755); } else { wipe(); if (k == (int)n.size()) std::ofstream(d.c_str()) << "a file"; else symlink("/dev/full", d.c_str()); }
            c.check(!save(env), "saving is reported as done though %s", k < (int)n.size() ? "a file can't be created" : "there is no folder"); c.check(snapshot(env, true, true) == before, "saving changed the environment"); c.check(handles() == open, "%d files are left open", handles() - open);
            if (k < (int)n.size()) rmdir((d + "/" + n[k]).c_str()); else unlink(d.c_str());
            c.check(save(env) && slurp() == all, "saving does not work once the obstacle is gone"); loadEqual(c, before, "saved after a failure"); wipe(); c.outcome(k);
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "each of the files, or the folder, can't be created");
    e.add("full", 1, 1, 1, false, [](Ctx& c) {
        {
            Environment env; World w(&env, cfg(2, 1, 1)); int s = c.choose(4, "sizes"); build(w, 2, s); Snap before = snapshot(env, true, true); wipe(); save(env); Files all = slurp(); std::vector<std::string> n; for (auto& f : all) n.push_back(f.first); int open = handles();
            unsigned m = 1 + c.choose((1 << n.size()) - 1, "files"); bool any = false; c.step(); for (size_t i = 0; i < n.size(); ++i) if (m >> i & 1) { std::string f = dir() + "/" + n[i]; unlink(f.c_str()); if (symlink("/dev/full", f.c_str())) c.check(false, "no scratch folder"); any |= !all[n[i]].empty(); }
            bool ok = save(env); c.check(ok == !any, "the disk is full: saving %s", ok ? "is reported as done" : "fails though nothing has to be written"); c.check(snapshot(env, true, true) == before, "saving changed the environment"); c.check(handles() == open, "%d files are left open", handles() - open);
            for (auto& x : n) unlink((dir() + "/" + x).c_str()); c.check(save(env) && slurp() == all, "saving does not work once there is room"); loadEqual(c, before, "saved after a failure"); wipe(); c.outcome(mix(m, s));
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "each set of files is on a full disk");
    e.add("items", 1, 1, 1, false, [](Ctx& c) {
        {
            Environment env; World w(&env, cfg(c.choose(3, "maps"), 1, 1)); build(w, 1, c.choose(4, "sizes")); static char const* ID[] = { "/A", "/N", "/Z" }; int mode = c.choose(4, "item"); TBad* b = new TBad(mode); b->setUniqueId(ID[c.choose(3, "position")]); env.attachItem(static_cast<EnvironmentItem*>(b)); wipe(); int open = handles(); bool twice = c.flag("twice"); c.step();
            for (int i = 0; i <= twice; ++i) { bool ok = save(env); c.check(ok == (mode == 0), "an item %s, saving %s", mode ? "can't be stored" : "can be stored", ok ? "is reported as done" : "fails"); c.check(handles() == open, "%d files are left open", handles() - open); }
            b->mode = 0; c.check(save(env), "saving fails after the item was repaired"); { std::unique_ptr<Environment> n(Environment::unserialize(dir())); c.check(n->getItems<EnvironmentItem>().size() == env.getItems<EnvironmentItem>().size(), "items are lost"); } c.check(handles() == open, "%d files are left open", handles() - open);
            env.detachItem(b); Snap s = snapshot(env, true, true); c.check(save(env), "saving fails after removing the item"); loadEqual(c, s, "saved"); wipe(); c.outcome(mode);
        }
        c.check(live == 0, "%ld items leaked", live);
    }, "items that fail to store themselves at each place");
    return e.main(argc, argv);
}
