// E12: the graph written for an environment contains each of its items and relations exactly once.
#include "envmodel.hpp"
#include <envire/tools/GraphViz.hpp>
#include <fstream>
#include <sstream>
using namespace tmod; using namespace mc; using namespace envire;
class Plain : public EnvironmentItem { ENVIRONMENT_ITEM(Plain) public: Plain() : EnvironmentItem("") {} };
namespace verif { namespace deep { class Spaced : public envire::FrameNode { ENVIRONMENT_ITEM(verif::deep::Spaced) public: Spaced() {} }; } }
ENVIRONMENT_ITEM_DEF(Plain)
namespace verif { namespace deep { ENVIRONMENT_ITEM_DEF(Spaced) } }
// the dot language, as far as graphs like these need it
struct Graph { std::map<std::string, std::map<std::string, std::string> > nodes; std::vector<std::pair<std::string, std::string> > edges; std::string error; };
struct Parser {
    std::string s; size_t p; Graph g; Parser(std::string const& t) : p(0) { std::istringstream is(t); std::string l; while (std::getline(is, l)) if (l.empty() || l[0] != '#') s += l + "\n"; }
    void skip() { for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; if (s.compare(p, 2, "//") == 0) { while (p < s.size() && s[p] != '\n') ++p; } else return; } }
    bool lit(char const* l) { skip(); size_t n = strlen(l); if (s.compare(p, n, l)) return false; p += n; return true; }
    bool fail(std::string const& e) { if (g.error.empty()) g.error = e + " at '" + s.substr(p, 30) + "'"; return false; }
    bool id(std::string& r) { skip(); r.clear(); if (p >= s.size()) return fail("end of text"); unsigned char ch = s[p]; if (ch == '"') { for (++p; p < s.size() && s[p] != '"'; ++p) { if (s[p] == '\\' && p + 1 < s.size() && s[p + 1] == '"') ++p; else if (s[p] == '\\' && p + 1 < s.size()) { r += s[p++]; } r += s[p]; } if (p >= s.size()) return fail("open string"); ++p; return true; }
        if (isalpha(ch) || ch == '_' || ch >= 128) { while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || (unsigned char)s[p] >= 128)) r += s[p++]; return true; } if (isdigit(ch) || ch == '.' || ch == '-') { while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.' || (r.empty() && s[p] == '-'))) r += s[p++]; return r != "-" ? true : fail("no number"); } return fail("no identifier"); }
    bool attrs(std::map<std::string, std::string>& a) { while (lit("[")) { while (!lit("]")) { std::string k, v; if (!id(k)) return false; if (!lit("=")) return fail("no value"); if (!id(v)) return false; a[k] = v; if (!lit(",")) lit(";"); } } return true; }
    bool run() { std::string n; if (!id(n) || n != "digraph") return fail("no graph"); skip(); if (p < s.size() && s[p] != '{') id(n); if (!lit("{")) return fail("no body"); while (!lit("}")) { std::string a, b; std::map<std::string, std::string> at; if (!id(a)) return false; if (a == "graph" || a == "node" || a == "edge") { if (!attrs(at)) return false; } else if (lit("=")) { if (!id(b)) return false; } else if (lit("->")) { if (!id(b) || !attrs(at)) return false; g.edges.push_back({ a, b }); } else { if (!attrs(at)) return false; if (g.nodes.count(a)) return fail("node '" + a + "' appears twice"); g.nodes[a] = at; } lit(";"); } skip(); return p == s.size() ? true : fail("text behind the graph"); }
};
static std::string plain(std::string const& l) { std::string r; for (size_t i = 0; i < l.size(); ++i) { if (l[i] == '\\' && i + 1 < l.size() && (l[i + 1] == '\\' || l[i + 1] == '"')) ++i; else if (l[i] == '\\' && i + 1 < l.size() && strchr("nlr", l[i + 1])) { r += '\n'; ++i; continue; } r += l[i]; } return r; }
static std::string file() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/graph" + std::to_string(getpid()) + ".dot"; }
static std::string write(Environment& e) { std::string f = file(); GraphViz::writeToFile(&e, f); std::ifstream is(f.c_str()); std::stringstream b; b << is.rdbuf(); unlink(f.c_str()); return b.str(); }
static bool contains(std::string const& a, std::string const& b) { return a.find(b) != std::string::npos; }
static std::string number(std::string const& text, double v) { char b[40]; snprintf(b, 40, "%.1f", v); return b; }
static void judge(Ctx& c, Environment& e, std::vector<EnvironmentItem*> const& items, std::vector<std::pair<EnvironmentItem*, EnvironmentItem*> > const& rel) {
    std::string text = write(e); Parser p(text); bool valid = p.run(); c.check(valid, "the graph is not valid: %s", p.g.error.c_str()); c.check(p.g.nodes.size() == items.size(), "%zu nodes for %zu items", p.g.nodes.size(), items.size());
    std::map<EnvironmentItem*, std::string> node; std::set<std::string> used; std::vector<EnvironmentItem*> order = items; std::sort(order.begin(), order.end(), [](EnvironmentItem* a, EnvironmentItem* b) { return a->getUniqueId().size() > b->getUniqueId().size(); });
    for (auto* i : order) { std::string cls = i->getClassName(); if (cls.rfind("::") != std::string::npos) cls = cls.substr(cls.rfind("::") + 2); std::vector<std::string> cand; for (auto& n : p.g.nodes) if (!used.count(n.first)) { auto l = n.second.find("label"); if (l == n.second.end()) continue; std::string t = plain(l->second); if (contains(t, cls) && contains(t, "[" + i->getUniqueId() + "]") && contains(t, i->getLabel())) cand.push_back(n.first); }
        c.check(cand.size() == 1, "item %s has %zu nodes", i->getUniqueId().c_str(), cand.size()); node[i] = cand[0]; used.insert(cand[0]); std::string t = plain(p.g.nodes[cand[0]]["label"]), sh = p.g.nodes[cand[0]]["shape"]; if (FrameNode* f = dynamic_cast<FrameNode*>(i)) { Eigen::Vector3d tr = f->getTransform().translation(); c.check(contains(t, number(t, tr.x()) + " " + number(t, tr.y()) + " " + number(t, tr.z())), "the position of frame %s is not shown", i->getUniqueId().c_str()); c.check(sh == "ellipse", "frame drawn as %s", sh.c_str()); } if (dynamic_cast<Layer*>(i)) c.check(sh == "box", "layer drawn as %s", sh.c_str()); if (dynamic_cast<Operator*>(i)) c.check(sh == "octagon", "operator drawn as %s", sh.c_str()); }
    std::multiset<std::pair<std::string, std::string> > want, got(p.g.edges.begin(), p.g.edges.end()); for (auto& r : rel) want.insert({ node[r.first], node[r.second] }); for (auto& w : want) c.check(got.count(w) == want.count(w), "the relation %s - %s appears %zu times instead of %zu", w.first.c_str(), w.second.c_str(), got.count(w), want.count(w)); c.check(want.size() == got.size(), "%zu relations instead of %zu", got.size(), want.size()); c.outcome(want.size() * 16 + items.size());
}
static char const* const IDS[] = { "", "/a/b", "/a_b", "/a-b", "/say \"x\"", "/b\\n", "/9.1", "/\xc3\xa4", "/%1%" };
static void names(Ctx& c) { // all pairs of items with all names and labels
    static char const* const LAB[] = { "", "two words", "q\"uote", "back\\slash", "%d" }; Environment e; std::vector<EnvironmentItem*> it; it.push_back(e.getRootNode()); std::vector<std::pair<EnvironmentItem*, EnvironmentItem*> > rel; int pre = c.choose(2, "prefix"); if (pre) e.setEnvironmentPrefix("/env-1/"); std::vector<std::string> ids; for (int i = 0; i < 2; ++i) { int k = c.choose(6, "kind"), n = c.choose(9, "id"), l = i ? c.choose(2, "label") * 2 : c.choose(5, "label"); if (n && std::count(ids.begin(), ids.end(), IDS[n])) return; ids.push_back(IDS[n]);
        EnvironmentItem* x = k == 0 ? (EnvironmentItem*)new FrameNode(Transform(pose(i + 1))) : k == 1 ? (EnvironmentItem*)new TMap : k == 2 ? (EnvironmentItem*)new TLayer : k == 3 ? (EnvironmentItem*)new TOp : k == 4 ? (EnvironmentItem*)new Plain : new verif::deep::Spaced; if (n) x->setUniqueId(IDS[n]); x->setLabel(LAB[l]); e.attachItem(x); it.push_back(x); } c.step(); judge(c, e, it, rel); }
static void relations(Ctx& c) { // all sequences of relations
    Environment e; FrameNode *f[2]; TMap* m[2]; TLayer* l[2]; TOp* o[2]; std::vector<EnvironmentItem*> it; it.push_back(e.getRootNode()); for (int i = 0; i < 2; ++i) { f[i] = new FrameNode(Transform(pose(i + 1))); m[i] = new TMap; l[i] = new TLayer; o[i] = new TOp("", 0, 0); for (EnvironmentItem* x : { (EnvironmentItem*)f[i], (EnvironmentItem*)m[i], (EnvironmentItem*)l[i], (EnvironmentItem*)o[i] }) { e.attachItem(x); it.push_back(x); } }
    typedef std::pair<EnvironmentItem*, EnvironmentItem*> R; std::set<R> fr, ma, la, in, out; int n = c.bound; for (int i = 0; i < n; ++i) { int k = c.choose(22, "operation"); c.step(); FrameNode* root = e.getRootNode(); auto parent = [&](FrameNode* ch, FrameNode* p) { for (auto x = fr.begin(); x != fr.end();) if (x->second == ch) x = fr.erase(x); else ++x; if (p) fr.insert(R(p, ch)); }; auto place = [&](TMap* x, FrameNode* p) { for (auto y = ma.begin(); y != ma.end();) if (y->second == x) y = ma.erase(y); else ++y; if (p) ma.insert(R(p, x)); };
        if (k < 2) { e.addChild(root, f[k]); parent(f[k], root); } else if (k == 2) { if (fr.count(R(f[1], f[0]))) return; e.addChild(f[0], f[1]); parent(f[1], f[0]); } else if (k == 3) { if (!fr.count(R(f[0], f[1]))) return; e.removeChild(f[0], f[1]); parent(f[1], 0); } else if (k < 6) { m[k - 4]->setFrameNode(root); place(m[k - 4], root); } else if (k < 8) { m[k - 6]->setFrameNode(f[0]); place(m[k - 6], f[0]); } else if (k == 8) { if (!m[0]->getFrameNode()) return; e.detachFrameNode(m[0], m[0]->getFrameNode()); place(m[0], 0); } else if (k < 11) { if (la.count(R(l[0], m[k - 9]))) return; l[0]->addChild(m[k - 9]); la.insert(R(l[0], m[k - 9])); } else if (k == 11) { if (la.count(R(l[0], l[1]))) return; l[0]->addChild(l[1]); la.insert(R(l[0], l[1])); } else if (k == 12) { if (la.count(R(l[1], m[0]))) return; l[1]->addChild(m[0]); la.insert(R(l[1], m[0])); } else if (k < 15) { if (in.count(R(m[0], o[k - 13]))) return; e.addInput(o[k - 13], m[0]); in.insert(R(m[0], o[k - 13])); } else if (k < 17) { if (in.count(R(l[k - 15], o[0]))) return; e.addInput(o[0], l[k - 15]); in.insert(R(l[k - 15], o[0])); } else if (k < 19) { TMap* x = m[k - 17]; for (auto& r : out) if (r.second == x) return; e.addOutput(o[0], x); out.insert(R(o[0], x)); } else if (k == 19) { for (auto& r : out) if (r.second == m[1]) return; e.addOutput(o[1], m[1]); out.insert(R(o[1], m[1])); } else if (k == 20) { if (!in.count(R(m[0], o[0]))) return; e.removeInput(o[0], m[0]); in.erase(R(m[0], o[0])); } else { std::vector<EnvironmentItem*>::iterator x = std::find(it.begin(), it.end(), (EnvironmentItem*)m[0]); if (x == it.end()) return; it.erase(x); EnvironmentItem::Ptr hold = m[0]; e.detachItem(m[0]); for (std::set<R>* s : { &ma, &la, &in, &out }) for (auto y = s->begin(); y != s->end();) if (y->first == hold.get() || y->second == hold.get()) y = s->erase(y); else ++y; std::vector<R> rel; for (auto& r : fr) rel.push_back(R(r.second, r.first)); for (std::set<R>* s : { &ma, &la, &in, &out }) rel.insert(rel.end(), s->begin(), s->end()); judge(c, e, it, rel); return; } }
    std::vector<R> rel; for (auto& r : fr) rel.push_back(R(r.second, r.first)); for (std::set<R>* s : { &ma, &la, &in, &out }) rel.insert(rel.end(), s->begin(), s->end()); judge(c, e, it, rel); }
int main(int argc, char** argv) {
    Engine e;
    e.add("names", 1, 1, 3, false, names, "all pairs of items of all kinds with all ids and labels");
    e.add("relations", 3, 4, 2, false, relations, "all sequences of n changes of relations");
    return e.main(argc, argv);
}
