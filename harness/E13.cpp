// E13: damaged scenes and events are refused with an error or loaded as a consistent environment.
#include "envworld.hpp"
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
using namespace tmod; using namespace mc;
typedef std::map<std::string, std::string> Files;
static std::string dir(int k) { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/damaged" + std::to_string(getpid()) + "_" + std::to_string(k); }
static void wipe(std::string const& d) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
static Files slurp(std::string const& d) { Files r; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f == "." || f == "..") continue; std::ifstream i((d + "/" + f).c_str(), std::ios::binary); r[f] = std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); } closedir(h); } return r; }
static void spill(std::string const& d, Files const& f) { mkdir(d.c_str(), 0755); for (auto& x : f) std::ofstream((d + "/" + x.first).c_str(), std::ios::binary).write(x.second.data(), x.second.size()); }
static const int WORLDS = 4;
static WCfg wcfg(int k) {
    WCfg w; w.frames = 0; w.maps = 0; w.opGraph = true;
    if (k == 0) w.frames = 1; else if (k == 1) { w.frames = 2; w.maps = 1; } else if (k == 2) { w.maps = 1; w.layers = 2; } else { w.layers = 2; w.ops = 1; w.mapsB = 1; w.frames = 1; }
    return w;
}
static void build(World& w, int k) {
    w.preset(2);
    if (k < 2) { TransformWithUncertainty::Covariance cov = TransformWithUncertainty::Covariance::Identity() * 0.5; cov(0, 3) = cov(3, 0) = 0.1; w.F(0)->setTransform(TransformWithUncertainty(pose(2), cov)); }
    for (size_t i = 0; i < w.o.size(); ++i) { w.o[i].item->setLabel("label" + std::to_string(i)); if (TMap* m = dynamic_cast<TMap*>(w.o[i].item.get())) m->blob = "binary\n"; }
}
struct Scene { Files files; Snap snap; std::vector<std::pair<size_t, size_t> > line, token, pair; bool ready = false; };
static const char* STRUCTURE = "scene.yml";
static Scene& scene(int k) {
    static Scene all[WORLDS]; Scene& s = all[k]; if (s.ready) return s;
    { Environment env; World w(&env, wcfg(k)); build(w, k); s.snap = snapshot(env, true, true); wipe(dir(0)); env.serialize(dir(0)); }
    s.files = slurp(dir(0)); wipe(dir(0));
    for (auto& f : s.files) if (f.first.find(".yml") != std::string::npos) STRUCTURE = strdup(f.first.c_str());
    if (!s.files.count(STRUCTURE)) throw Violation("saving an environment left no structure file");
    std::string const& t = s.files[STRUCTURE];
    for (size_t p = 0; p < t.size();) { size_t n = t.find('\n', p); n = n == std::string::npos ? t.size() : n + 1; s.line.push_back(std::make_pair(p, n)); p = n; }
    auto sep = [](char c) { return isspace((unsigned char)c) || c == ',' || c == '[' || c == ']' || c == '{' || c == '}'; };
    for (size_t p = 0; p < t.size();) { if (sep(t[p])) { ++p; continue; } size_t n = p; while (n < t.size() && !sep(t[n])) ++n; size_t e = n; if (t[e - 1] == ':' && e - 1 > p) --e; s.token.push_back(std::make_pair(p, e)); p = n; }
    s.ready = true; return s;
}
// whatever could be loaded has to be consistent and usable
static void usable(Ctx& c, Environment& env, bool scene = true) {
    Snap s = snapshot(env, true, true); bool cycle = false;
    c.check(env.getRootNode() && env.getRootNode()->isAttached() && env.getRootNode()->getEnvironment() == &env, "the loaded environment has no proper root node");
    for (auto* f : env.getItems<FrameNode>()) { size_t n = 0; for (FrameNode* p = f; p && !cycle; p = p->getParent()) { cycle |= ++n > s.items.size(); c.check(!scene || !cycle, "frames are their own ancestors"); } if (!cycle) env.relativeTransform(f, f); }
    if (cycle) return;          // events can, as the functions behind them, make frames their own ancestors
    // saved and loaded again it is the same
    wipe(dir(2)); env.serialize(dir(2)); c.check(snapshot(env, true, true) == s, "saving changed the environment");
    std::unique_ptr<Environment> n; try { n.reset(Environment::unserialize(dir(2))); } catch (std::exception& e) { wipe(dir(2)); c.check(false, "what has been loaded can't be saved and loaded again: %s", e.what()); }
    wipe(dir(2)); Snap t = snapshot(*n, true, true); c.check(s == t, "saved and loaded again, the environment differs:%s", diff(s, t).c_str());
    // and can be extended and taken apart
    for (int i = 0; i < 2; ++i) { Environment& e = i ? *n : env; TLayer* l = new TLayer("/"); e.attachItem(static_cast<EnvironmentItem*>(l)); FrameNode* f = new FrameNode(); e.addChild(e.getRootNode(), f); TMap* m = new TMap("/new/"); e.attachItem(m, f); snapshot(e, true); }
    std::vector<EnvironmentItem*> all = env.getItems<EnvironmentItem>();
    for (auto* x : all) if (x != env.getRootNode()) { EnvironmentItem::Ptr keep = env.detachItem(x); c.check(!keep->isAttached(), "a detached item is still attached"); }
    Snap e = snapshot(env, true); c.check(e.items.size() == 1 && e.frame.empty() && e.layer.empty() && e.map.empty() && e.in.empty() && e.out.empty(), "relations or items are left after removing all items");
}
static void load(Ctx& c, int k, Files const& f, bool intact) {
    wipe(dir(1)); spill(dir(1), f); c.step(); int res = 0; Snap got;
    {
        std::unique_ptr<Environment> env; std::string err;
        try { env.reset(Environment::unserialize(dir(1))); } catch (std::exception& e) { err = e.what(); }
        if (env) { got = snapshot(*env, true, true); res = got == scene(k).snap ? 2 : 1; if (intact) c.check(res == 2, "the intact scene differs:%s", diff(scene(k).snap, got).c_str()); usable(c, *env); }
        else c.check(!intact, "the intact scene is refused: %s", err.c_str());
    }
    c.check(live == 0, "%ld items leaked", live); wipe(dir(1));
    c.outcome(mix(hashStr(got.str()), res));
}
// the intact scene still loads
static void after(Ctx& c, int k) { load(c, k, scene(k).files, true); }
static char const* VALUES[] = { "", "~", "nonsense", "-1", "0", "/0", "/F0", "/M0", "/L0", "/O0", "/L1", "/missing", "0.5", "nan", "1e999", "99999999999999999999", "/9223372036854775807", "[]", "{}", "[1, 2]", "{a: b}", "'", "\"", "*x", "&x", "!t", "envire::TLayer", "envire::TMap", "envire::FrameNode", "envire::TOp", "frameNodeTree", "layerTree", "operatorGraphInput", "operatorGraphOutput", "cartesianMapGraph", "%", "-", "? ", ":", "\x80\xff", "class", "type", "id", "child", "parent" };
static const int NVALUES = sizeof VALUES / sizeof *VALUES;
static int blocks(int n, int size) { return (n + size - 1) / size; }

// events ----------------------------------------------------------------
struct Ev { BinaryEvents list; std::vector<Snap> snaps; Snap final; bool ready = false; };
static Ev& events(int k) {
    static Ev all[WORLDS]; Ev& r = all[k]; if (r.ready) return r;
    { Environment env; World w(&env, wcfg(k)); build(w, k); env.pullEvents(r.list, true); r.final = snapshot(env, false, true);
      BinaryEvents more; // changes and removals as well
      for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].kind != World::OP) w.modify(i);
      env.pullEvents(more); r.list.insert(r.list.end(), more.begin(), more.end()); more.clear();
      if (w.o[0].kind == World::FRAME) env.removeChild(w.F(-1), w.F(0));
      for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].kind == World::MAP && w.M(i)->getFrameNode()) env.detachFrameNode(w.M(i), w.M(i)->getFrameNode());
      for (auto* l : env.getItems<Layer>()) for (auto* p : l->getParents()) env.removeChild(p, l);
      env.detachItem(w.o.back().item.get());
      env.pullEvents(more); r.list.insert(r.list.end(), more.begin(), more.end()); }
    r.ready = true; return r;
}
static void apply(Ctx& c, int k, size_t at, BinaryEvent const& bad, bool repeat) {
    Ev& e = events(k); c.step(); uint64_t out = 0;
    {
        Environment env, ref; BinarySerialization bs, rs;
        for (size_t i = 0; i < at; ++i) { bs.applyEvent(&env, e.list[i]); rs.applyEvent(&ref, e.list[i]); }
        Snap before = snapshot(env, true, true); bool refused = false;
        try { bs.applyEvent(&env, bad); } catch (std::exception&) { refused = true; }
        Snap now = snapshot(env, true, true);
        if (refused) {
            c.check(now == before, "a refused event changed the environment:%s", diff(before, now).c_str());
            // the intact event and all others can be applied afterwards
            for (size_t i = at; i < e.list.size(); ++i) {
                bool t1 = false, t2 = false; std::string m; try { bs.applyEvent(&env, e.list[i]); } catch (std::exception& x) { t1 = true; m = x.what(); } try { rs.applyEvent(&ref, e.list[i]); } catch (std::exception&) { t2 = true; }
                c.check(t1 == t2, "after a damaged event, event %zu %s: %s", i, t1 ? "is refused" : "is accepted", m.c_str());
            }
            Snap a = snapshot(ref, true, true), b = snapshot(env, true, true); c.check(a == b, "after a damaged event was refused, the correct ones lead to a different environment:%s", diff(a, b).c_str());
        } else {
            if (repeat) try { bs.applyEvent(&env, bad); } catch (std::exception&) {}
            for (size_t i = at; i < e.list.size(); ++i) { try { bs.applyEvent(&env, e.list[i]); } catch (std::exception&) {} snapshot(env, true, true); }
        }
        out = mix(hashStr(now.str()), refused); usable(c, env, false);
    }
    c.check(live == 0, "%ld items leaked", live); c.outcome(out);
}
int main(int argc, char** argv) {
    std::cerr.rdbuf(0);                                         // the loader reports each problem
    Engine e;
    e.add("truncated", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "scene"); Scene& s = scene(k); int n = s.files[STRUCTURE].size(), b = c.choose(blocks(n, 50), "position / 50"), p = b * 50 + c.choose(std::min(50, n - b * 50), "position");
        Files f = s.files; f[STRUCTURE].resize(p); c.note("structure file cut off after %d bytes", p); load(c, k, f, false); if (p % 16 == 0) after(c, k);
    }, "the structure file cut off at each byte");
    e.add("lines", 2, 2, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "scene"); Scene& s = scene(k); int i = c.choose(s.line.size(), "line"), how = c.choose(c.thorough ? 6 : 4, "damage"); Files f = s.files; std::string& t = f[STRUCTURE]; size_t b = s.line[i].first, n = s.line[i].second;
        std::string l = t.substr(b, n - b);
        if (how == 0) t.erase(b, n - b); else if (how == 1) t.insert(b, l);
        else if (how == 2) { t += l; } else if (how == 3) { if (i + 1 < (int)s.line.size()) { std::string m = t.substr(n, s.line[i + 1].second - n); t.replace(b, l.size() + m.size(), m + l); } }
        else if (how == 4) { int j = c.choose(s.line.size(), "second line"); size_t b2 = s.line[j].first, n2 = s.line[j].second; if (j > i) { t.erase(b2, n2 - b2); t.erase(b, n - b); } else if (j < i) { t.erase(b, n - b); t.erase(b2, n2 - b2); } }
        else { int j = c.choose(s.line.size(), "position"); t.insert(s.line[j].first, l); }
        static char const* N[] = { "deleted", "repeated", "repeated at the end", "exchanged with the next", "deleted together with another", "repeated elsewhere" };
        c.note("line %d %s: %s", i, N[how], l.c_str()); load(c, k, f, false);
    }, "each line deleted, repeated or exchanged (thorough: each pair of lines)");
    e.add("values", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "scene"); Scene& s = scene(k); int i = c.choose(s.token.size(), "value"); Files f = s.files; std::string& t = f[STRUCTURE]; size_t b = s.token[i].first, n = s.token[i].second; std::string old = t.substr(b, n - b);
        bool number = old.find_first_not_of("0123456789.e-+") == std::string::npos; static const int NUM[] = { 0, 1, 2, 3, 13, 14, 17, 19, 20 };
        int v = number && !c.thorough ? NUM[c.choose(9, "by")] : c.choose(NVALUES + 1, "by"); std::string now = v == NVALUES ? old + "," + old + "," + old : VALUES[v];
        t.replace(b, n - b, now); c.note("'%s' at byte %zu replaced by '%s'", old.c_str(), b, now.c_str()); load(c, k, f, false); if (i % 8 == 0) after(c, k);
    }, "each key and value replaced by each of an alphabet of others");
    e.add("bytes", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(c.thorough ? WORLDS : 2, "scene"); if (!c.thorough) k += 2; Scene& s = scene(k); static const char B[] = { ':', '-', ' ', '\n', '\'', '[', '}', '\0', '\x80', '#', '/' };
        int n = s.files[STRUCTURE].size(), p0 = c.choose(blocks(n, 50), "position / 50"), p = p0 * 50 + c.choose(std::min(50, n - p0 * 50), "position"), v = c.choose(c.thorough ? sizeof B : 4, "byte"); Files f = s.files; f[STRUCTURE][p] = B[v]; c.note("byte %d replaced by 0x%02x", p, (unsigned char)B[v]); load(c, k, f, false);
    }, "each byte of the structure file replaced");
    e.add("files", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(2, "scene") + 1; Scene& s = scene(k); std::vector<std::string> n; for (auto& x : s.files) n.push_back(x.first); int i = c.choose(n.size(), "file"), how = c.choose(10, "damage"); Files f = s.files;
        if (how == 0) f.erase(n[i]); else if (how == 1) f[n[i]].clear(); else f[n[i]].resize(std::min<size_t>(f[n[i]].size(), how - 1));
        c.note("file %s %s", n[i].c_str(), how == 0 ? "missing" : "cut off"); load(c, k, f, how > 1 && n[i] != STRUCTURE && f == s.files); after(c, k);
    }, "each file of the scene missing, empty or cut off");
    e.add("sections", 2, 2, 1, false, [](Ctx& c) {      // whole entries of the lists
        int k = c.choose(WORLDS, "scene"); Scene& s = scene(k); std::string const& t = s.files[STRUCTURE]; std::vector<std::string> part; std::vector<bool> entry; std::string cur; bool in = false;
        for (auto& l : s.line) { std::string x = t.substr(l.first, l.second - l.first); size_t d = x.find_first_not_of(' '); bool start = d != std::string::npos && x[d] == '-', top = d == 0 && x[0] != '-' && x[0] != ' '; bool seq = start && x.find(':') != std::string::npos; if (seq || top) { if (!cur.empty()) { part.push_back(cur); entry.push_back(in); } cur.clear(); in = seq; } cur += x; }
        part.push_back(cur); entry.push_back(in); std::vector<int> idx; for (size_t i = 0; i < part.size(); ++i) if (entry[i]) idx.push_back(i);
        c.check(idx.size() >= 2, "the structure file has no entries");
        std::vector<std::string> p = part; int n = 2;
        for (int d = 0; d < n; ++d) { int i = idx[c.choose(idx.size(), "entry")], how = c.choose(d && !c.thorough ? 3 : 4, "damage"); if (how == 0) p[i] = ""; else if (how == 1) p[i] += part[i]; else if (how == 2) { int j = idx[(i + 1) % idx.size()]; std::swap(p[i], p[j]); } else { int j = idx[c.choose(idx.size(), "by")]; p[i] = part[j]; } }
        Files f = s.files; std::string r; for (auto& x : p) r += x; f[STRUCTURE] = r; c.note("structure:\n%s", r.c_str()); load(c, k, f, false);
    }, "entries for items and relations deleted, repeated, exchanged and replaced by others, up to two at once");
    // events
    e.add("event_fields", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "environment"); Ev& v = events(k); int at = c.choose(v.list.size(), "event"); BinaryEvent b = v.list[at]; static char const* ID[] = { "", "/", "/0", "/F0", "/F1", "/M0", "/L0", "/L1", "/B0", "/O0", "/missing", "M0" };
        static char const* CL[] = { "", "envire::TLayer", "envire::TMap", "envire::TMapB", "envire::FrameNode", "envire::TOp", "unknown" };
        int what = c.choose(5, "field"); if (what == 0) b.id_a = ID[c.choose(12, "id")]; else if (what == 1) b.id_b = ID[c.choose(12, "id")]; else if (what == 2) b.type = (event::Type)c.choose(6, "type"); else if (what == 3) b.operation = (event::Operation)c.choose(4, "operation"); else b.className = CL[c.choose(7, "class")];
        c.note("event %d: field %d replaced", at, what); apply(c, k, at, b, c.flag("twice"));
    }, "each field of each event of a history replaced by others");
    e.add("event_fields_2", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "environment"); Ev& v = events(k); int at = c.choose(v.list.size(), "event"); BinaryEvent b = v.list[at]; static char const* ID[] = { "", "/0", "/F0", "/F1", "/M0", "/L0", "/L1", "/O0" };
        b.id_a = ID[c.choose(8, "first id")]; b.id_b = ID[c.choose(8, "second id")]; if (c.thorough) b.type = (event::Type)c.choose(5, "type"); if (b.type == event::ITEM && !b.yamlProperties.size()) b.operation = event::REMOVE; c.note("event %d relates %s and %s", at, b.id_a.c_str(), b.id_b.c_str()); apply(c, k, at, b, false);
    }, "both items of each event replaced");
    e.add("event_data", 1, 1, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "environment"); Ev& v = events(k); std::vector<int> d; for (size_t i = 0; i < v.list.size(); ++i) if (!v.list[i].yamlProperties.empty()) d.push_back(i);
        int at = d[c.choose(d.size(), "event")]; BinaryEvent b = v.list[at]; int n = b.yamlProperties.size(), how = c.choose(3, "damage");
        if (how == 0) { int p0 = c.choose(blocks(n, 50), "position / 50"), p = p0 * 50 + c.choose(std::min(50, n - p0 * 50), "position"); b.yamlProperties.resize(p); c.note("event %d: properties cut off after %d bytes", at, p); }
        else if (how == 1) { static char const* V[] = { "", "~", "nonsense", "-1", "/0", "/M0", "/L0", "[1, 2]", "{a: b}", "envire::TMap", "*x" }; std::string t(b.yamlProperties.begin(), b.yamlProperties.end()); std::vector<std::pair<size_t, size_t> > tok; auto sep = [](char x) { return isspace((unsigned char)x) || strchr(",[]{}", x); };
            for (size_t p = 0; p < t.size();) { if (sep(t[p])) { ++p; continue; } size_t q = p; while (q < t.size() && !sep(t[q])) ++q; size_t z = q; if (t[z - 1] == ':' && z - 1 > p) --z; tok.push_back(std::make_pair(p, z)); p = q; }
            auto& x = tok[c.choose(tok.size(), "value")]; int j = c.choose(12, "by"); std::string old = t.substr(x.first, x.second - x.first), now = j == 11 ? old + ", " + old + ", " + old : V[j]; t.replace(x.first, x.second - x.first, now); b.yamlProperties.assign(t.begin(), t.end()); c.note("event %d: '%s' replaced by '%s'", at, old.c_str(), now.c_str()); }
        else { int j = c.choose(7, "streams"); if (j == 0) { b.binaryStreamNames.clear(); } else if (j == 1) { b.binaryStreams.clear(); } else if (j == 2) { for (auto& x : b.binaryStreamNames) x += "x"; } else if (j == 3) { for (auto& x : b.binaryStreams) x.resize(x.size() / 2); } else if (j == 4) { b.binaryStreamNames.push_back("other"); } else if (j == 5) { b.binaryStreamNames.push_back("other"); b.binaryStreams.push_back(std::vector<uint8_t>(3, 7)); } else { auto s = b.binaryStreamNames; for (auto& x : s) { b.binaryStreamNames.push_back(x); b.binaryStreams.push_back(std::vector<uint8_t>(2, 9)); } } c.note("event %d: streams damaged (%d)", at, j); }
        apply(c, k, at, b, false);
    }, "the data of each event cut off at each byte, with values replaced and with missing or damaged streams");
    e.add("event_order", 1, 2, 1, false, [](Ctx& c) {
        int k = c.choose(WORLDS, "environment"); Ev& v = events(k); BinaryEvents l = v.list; int n = l.size(); for (int d = 0; d < c.bound; ++d) { int how = c.choose(3, "damage"), i = c.choose(l.size(), "event"); if (how == 0) l.erase(l.begin() + i); else if (how == 1) l.insert(l.begin() + c.choose(l.size(), "position"), BinaryEvent(l[i])); else { BinaryEvent b = l[i]; l.erase(l.begin() + i); l.insert(l.begin() + c.choose(l.size() + 1, "position"), b); } if (l.empty()) break; }
        (void)n; c.step(); { Environment env; size_t done = 0; for (; done < l.size(); ++done) { try { env.applyEvents(BinaryEvents(1, l[done])); } catch (std::exception&) {} c.outcome(hashStr(snapshot(env, true, true).str())); } usable(c, env, false); }
        c.check(live == 0, "%ld items leaked", live);
    }, "events of a history lost, repeated or received in another order");
    return e.main(argc, argv);
}
