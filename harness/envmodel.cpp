#include "envmodel.hpp"
using namespace envire;
namespace tmod {
long live = 0; void (*onCopy)() = 0;
ENVIRONMENT_ITEM_DEF(TMap)
ENVIRONMENT_ITEM_DEF(TMapB)
ENVIRONMENT_ITEM_DEF(TLayer)
ENVIRONMENT_ITEM_DEF(TOp)

void TMap::serialize(Serialization& so) {
    Map<2>::serialize(so);
    so.write("value", value);
    so.write("blobsize", blob.size());
    std::ostream& os = so.getBinaryOutputStream(getMapFileName() + ".bin");
    os.write(blob.data(), blob.size());
}
void TMap::unserialize(Serialization& so) {
    Map<2>::unserialize(so);
    so.read("value", value);
    size_t n = 0; so.read("blobsize", n);
    blob.clear();
    std::istream& is = so.getBinaryInputStream(getMapFileName() + ".bin");
    blob.assign(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>());
    if (blob.size() != n) blob += "<size mismatch>";
}
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g,", v); return b; }
std::string content(EnvironmentItem* i, bool label) {
    std::string r = i->getClassName() + ":";
    if (FrameNode* f = dynamic_cast<FrameNode*>(i)) {
        TransformWithUncertainty const& t = f->getTransformWithUncertainty();
        for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) r += num(t.getTransform().matrix()(a, b));
        if (t.hasUncertainty()) { r += "cov:"; for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) r += num(t.getCovariance()(a, b)); }
    } else if (TMap* m = dynamic_cast<TMap*>(i)) { r += num(m->value) + m->blob + (m->isImmutable() ? "I" : ""); }
    else if (TMapB* m = dynamic_cast<TMapB*>(i)) { r += num(m->value) + (m->isImmutable() ? "I" : ""); }
    else if (TLayer* m = dynamic_cast<TLayer*>(i)) { r += num(m->value) + (m->isImmutable() ? "I" : ""); }
    else if (TOp* m = dynamic_cast<TOp*>(i)) r += num(m->value);
    else r += "?";
    if (label) r += " label=" + i->getLabel();
    return r;
}
typedef std::set<std::pair<std::string, std::string> > Rel;
static void put(Rel& r, EnvironmentItem* a, EnvironmentItem* b, char const* what) {
    if (!r.insert(std::make_pair(a->getUniqueId(), b->getUniqueId())).second)
        throw mc::Violation(std::string("relation reported twice: ") + what + " " + a->getUniqueId() + " - " + b->getUniqueId());
}
static void agree(Rel const& a, Rel const& b, char const* what) {
    if (a != b) throw mc::Violation(std::string("the two directions of the ") + what + " relation disagree");
}
Snap snapshot(Environment& e, bool operators, bool label) {
    Snap s;
    std::vector<EnvironmentItem*> all = e.getItems<EnvironmentItem>();
    for (auto* i : all) {
        if (!s.items.insert(std::make_pair(i->getUniqueId(), content(i, label))).second) throw mc::Violation("two items share the id " + i->getUniqueId());
        if (!i->isAttached() || i->getEnvironment() != &e) throw mc::Violation("item " + i->getUniqueId() + " is listed by an environment it is not attached to");
        if (e.getItem(i->getUniqueId()).get() != i) throw mc::Violation("lookup of " + i->getUniqueId() + " does not return the listed item");
    }
    Rel down;
    for (auto* f : e.getItems<FrameNode>()) {
        if (f->getParent()) put(s.frame, f, f->getParent(), "frame parent");
        if (f->isRoot() != (f->getParent() == 0)) throw mc::Violation("isRoot() and getParent() disagree");
        for (auto* k : f->getChildren()) put(down, k, f, "frame child");
    }
    agree(s.frame, down, "frame parent/child"); down.clear();
    for (auto* m : e.getItems<CartesianMap>()) if (m->getFrameNode()) put(s.map, m, m->getFrameNode(), "map frame");
    for (auto* f : e.getItems<FrameNode>()) for (auto* m : f->getMaps()) put(down, m, f, "frame map");
    agree(s.map, down, "map/frame"); down.clear();
    for (auto* l : e.getItems<Layer>()) {
        for (auto* p : l->getParents()) put(s.layer, l, p, "layer parent");
        for (auto* k : e.getChildren(l)) put(down, k, l, "layer child");
    }
    agree(s.layer, down, "layer parent/child");
    if (operators) {
        for (auto* o : e.getItems<Operator>()) {
            for (auto* l : e.getInputs(o)) put(s.in, o, l, "operator input");
            for (auto* l : e.getOutputs(o)) put(s.out, o, l, "operator output");
        }
        for (auto* l : e.getItems<Layer>()) {
            Operator* g = l->getGenerator(); bool any = false, match = false;
            for (auto& p : s.out) if (p.second == l->getUniqueId()) { any = true; if (g && g->getUniqueId() == p.first) match = true; }
            if (l->isGenerated() != any || any != (g != 0) || (any && !match)) throw mc::Violation("generator of " + l->getUniqueId() + " does not match the operator outputs");
            std::multiset<std::string> want, got;
            for (auto& i : s.in) if (i.second == l->getUniqueId()) for (auto& o : s.out) if (o.first == i.first) want.insert(o.second);
            for (auto* k : e.getLayersGeneratedFrom(l)) got.insert(k->getUniqueId());
            if (want != got) throw mc::Violation("layers generated from " + l->getUniqueId() + " do not match the operator graph");
        }
    }
    return s;
}
std::string Snap::str() const {
    std::string r;
    for (auto& i : items) r += i.first + "=" + i.second + ";";
    Rel const* rel[] = { &frame, &layer, &map, &in, &out }; char const* n = "flmio";
    for (int k = 0; k < 5; ++k) for (auto& p : *rel[k]) r += std::string(1, n[k]) + p.first + ">" + p.second + ";";
    return r;
}
std::string diff(Snap const& a, Snap const& b) {
    std::string r;
    for (auto& i : a.items) { auto j = b.items.find(i.first); if (j == b.items.end()) r += " missing item " + i.first; else if (j->second != i.second) r += " content of " + i.first + " is " + j->second.substr(0, 120) + " instead of " + i.second.substr(0, 120); }
    for (auto& i : b.items) if (!a.items.count(i.first)) r += " extra item " + i.first;
    Rel const* ra[] = { &a.frame, &a.layer, &a.map, &a.in, &a.out }; Rel const* rb[] = { &b.frame, &b.layer, &b.map, &b.in, &b.out }; char const* n[] = { "frame", "layer", "map", "input", "output" };
    for (int k = 0; k < 5; ++k) {
        for (auto& p : *ra[k]) if (!rb[k]->count(p)) r += std::string(" missing ") + n[k] + " relation " + p.first + ">" + p.second;
        for (auto& p : *rb[k]) if (!ra[k]->count(p)) r += std::string(" extra ") + n[k] + " relation " + p.first + ">" + p.second;
    }
    return r;
}
Eigen::Affine3d pose(int k) {
    static const double P[][6] = { { 0, 0, 0, 0, 0, 0 }, { 1, -2, 0.5, 0.3, 0, 0 }, { 0.1, 0.7, -3, -0.2, 0.5, 1.1 }, { -4, 0.25, 1, 2.5, -1.2, 0.4 }, { 10, 20, 30, 0, 0, 3.1 } };
    double const* p = P[k % 5];
    Eigen::Affine3d t(Eigen::AngleAxisd(p[5], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(p[4], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(p[3], Eigen::Vector3d::UnitX()));
    t.pretranslate(Eigen::Vector3d(p[0], p[1], p[2]));
    return t;
}
}
