// M07: point clouds, meshes and laser scans keep their content through copies, frames, files and events.
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/Featurecloud.hpp>
#include <envire/maps/LaserScan.hpp>
#include "envmodel.hpp"
#include <boost/tuple/tuple_comparison.hpp>
#include "mc.hpp"
#include <dirent.h>
#include <fstream>
using namespace envire; using namespace mc;
typedef Eigen::Affine3d T; typedef Eigen::Vector3d V; typedef std::vector<V> VV; typedef Pointcloud PC;
static std::string dir() { std::string base = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp"; return base + "/pc" + std::to_string(getpid()); }
static void wipe() { std::string d = dir(); if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f != "." && f != "..") unlink((d + "/" + f).c_str()); } closedir(h); } rmdir(d.c_str()); }
static T pose(int k) { T t = T::Identity(); if (k == 1) t.translation() << 3, -1, .5; if (k == 2) { t = Eigen::AngleAxisd(.7, V(1, 2, -1).normalized()); t.translation() << -2, .25, 7; } return t; }
struct M {
    int kind; VV v; std::map<std::string, VV> v3; std::vector<double> var; std::vector<int> att; bool hasVar, hasAtt; std::vector<std::array<int, 3> > f; T origin; int frame; std::vector<float> desc; int dsize; size_t keys;
    M() : kind(0), hasVar(false), hasAtt(false), origin(T::Identity()), frame(0), dsize(0), keys(0) {}
    void clear() { v.clear(); for (auto& k : v3) k.second.clear(); var.clear(); att.clear(); }
    // what the stored form does not contain
    void stored(bool& ok) { for (auto i = v3.begin(); i != v3.end();) { if (i->second.empty()) v3.erase(i++); else { if (i->second.size() != v.size()) ok = false; if (i->first == PC::VERTEX_COLOR) for (auto& c : i->second) for (int k = 0; k < 3; ++k) c[k] = std::floor(c[k] * 255 + .5) / 255; ++i; } } var.clear(); att.clear(); hasVar = hasAtt = false; keys = 0; desc.clear(); dsize = 0; }
};
static bool eq(VV const& a, VV const& b, double tol) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!((a[i] - b[i]).norm() <= tol)) return false; return true; }
static void judge(Ctx& c, PC& p, M const& m, char const* who) {
    c.check(eq(p.vertices, m.v, 1e-9), "%s: the points changed (%zu instead of %zu)", who, p.vertices.size(), m.v.size());
    for (std::string const& k : { PC::VERTEX_NORMAL, PC::VERTEX_COLOR }) { auto it = m.v3.find(k); c.check(p.hasData(k) == (it != m.v3.end()), "%s: %s %s", who, k.c_str(), it == m.v3.end() ? "came up" : "got lost"); if (it != m.v3.end()) c.check(eq(p.getVertexData<V>(k), it->second, k == PC::VERTEX_COLOR ? 1e-6 : 1e-12), "%s: %s changed", who, k.c_str()); }
    c.check(p.hasData(PC::VERTEX_VARIANCE) == m.hasVar && (!m.hasVar || p.getVertexData<double>(PC::VERTEX_VARIANCE) == m.var), "%s: the variances changed", who); c.check(p.hasData(PC::VERTEX_ATTRIBUTES) == m.hasAtt && (!m.hasAtt || p.getVertexData<int>(PC::VERTEX_ATTRIBUTES) == m.att), "%s: the attributes changed", who);
    c.check(p.getSensorOrigin().matrix().isApprox(m.origin.matrix(), 1e-12), "%s: the sensor origin changed", who); Eigen::AlignedBox<double, 3> b; for (auto& v : m.v) b.extend(v); PC::Extents e = p.getExtents(); c.check(e.isEmpty() == b.isEmpty() && (b.isEmpty() || (e.min().isApprox(b.min()) && e.max().isApprox(b.max()))), "%s: the extents are wrong", who);
    if (TriMesh* t = dynamic_cast<TriMesh*>(&p)) { bool ok = t->faces.size() == m.f.size(); for (size_t i = 0; ok && i < m.f.size(); ++i) ok = t->faces[i].get<0>() == m.f[i][0] && t->faces[i].get<1>() == m.f[i][1] && t->faces[i].get<2>() == m.f[i][2]; c.check(ok, "%s: the faces changed (%zu instead of %zu)", who, t->faces.size(), m.f.size()); }
    if (Featurecloud* t = dynamic_cast<Featurecloud*>(&p)) c.check(t->descriptors == m.desc && t->descriptorSize == m.dsize && t->keypoints.size() == m.keys && t->size() == m.v.size(), "%s: the features changed", who);
}
static PC* make(int kind) { if (kind == 1) return new TriMesh; if (kind == 2) return new Featurecloud; return new PC; }
static void history(Ctx& c, int kind) {
    std::unique_ptr<Environment> env(new Environment); FrameNode* f[3] = { env->getRootNode(), new FrameNode(pose(1)), new FrameNode(pose(2)) }; env->addChild(f[0], f[1]); env->addChild(f[1], f[2]); T abs[3] = { pose(0), pose(1), pose(1) * pose(2) };
    PC::Ptr p[2]; M m[2]; int where = c.choose(c.thorough ? 3 : 2, "frames"); for (int i = 0; i < 2; ++i) { p[i] = make(kind); m[i].kind = kind; m[i].frame = i ? where : 2; env->attachItem(p[i].get(), f[m[i].frame]); }
    int ver = 0; auto val = [&](int k) { ++ver; return V(.1 * ver + k, -1.25 * ver, 1. / (3 + ver)); };
    auto fill = [&](int i, int n, int what) { for (int k = 0; k < n; ++k) { V v = val(k); p[i]->vertices.push_back(v); m[i].v.push_back(v); }
        if (what & 1) { VV& d = p[i]->getVertexData<V>(PC::VERTEX_NORMAL); VV& w = m[i].v3[PC::VERTEX_NORMAL]; while (d.size() < m[i].v.size()) { V v = val(1).normalized(); d.push_back(v); w.push_back(v); } }
        if (what & 2) { VV& d = p[i]->getVertexData<V>(PC::VERTEX_COLOR); VV& w = m[i].v3[PC::VERTEX_COLOR]; while (d.size() < m[i].v.size()) { ++ver; V v((ver * 37 % 256) / 255., (ver * 11 % 101) / 100., ver % 2); d.push_back(v); w.push_back(v); } }
        if (what & 4) { std::vector<double>& d = p[i]->getVertexData<double>(PC::VERTEX_VARIANCE); m[i].hasVar = true; while (d.size() < m[i].v.size()) { d.push_back(ver); m[i].var.push_back(ver++); } std::vector<int>& a = p[i]->getVertexData<int>(PC::VERTEX_ATTRIBUTES); m[i].hasAtt = true; while (a.size() < m[i].v.size()) { a.push_back(PC::SCAN_EDGE); m[i].att.push_back(PC::SCAN_EDGE); } }
        if (kind == 1 && !m[i].v.empty()) { std::array<int, 3> t = {{ 0, (int)m[i].v.size() - 1, ver % (int)m[i].v.size() }}; dynamic_cast<TriMesh&>(*p[i]).faces.push_back(TriMesh::triangle_t(t[0], t[1], t[2])); m[i].f.push_back(t); }
        if (kind == 2) { Featurecloud& t = dynamic_cast<Featurecloud&>(*p[i]); t.descriptors.push_back(ver); m[i].desc.push_back(ver); t.descriptorSize = m[i].dsize = ver; t.keypoints.push_back(KeyPoint()); ++m[i].keys; } };
    static const int D[] = { 0, 3, 7, 1, 2, 4, 5, 6 }; fill(0, 2, D[c.choose(c.thorough ? 8 : 3, "data")]);
    for (int s = 0; s < c.bound; ++s) {
        std::vector<std::function<void ()> > op; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); op.push_back(f); };
        for (int i = 0; i < 2; ++i) {
            std::string L = "cloud " + std::to_string(i) + ": "; auto storable = [&, i] { bool ok = true; M k = m[i]; k.stored(ok); return ok; };
            bool few = i && !c.thorough; add(L + "add points", [&, i] { fill(i, 2, 0); }); add(L + "fill the data", [&, i] { fill(i, 1, 3); }); if (!few) add(L + "fill variances", [&, i] { fill(i, 0, 4); });
            if (!few) add(L + "clear", [&, i] { if (kind == 2) { dynamic_cast<Featurecloud&>(*p[i]).clear(); m[i].desc.clear(); m[i].keys = 0; } else p[i]->clear(); m[i].clear(); });
            for (int tr = 0; tr < (few ? 1 : 2); ++tr) add(L + (tr ? "copy from the other, transformed" : "copy from the other"), [&, i, tr] { if (kind == 2) { dynamic_cast<Featurecloud&>(*p[i]).copyFrom(dynamic_cast<Featurecloud*>(p[1 - i].get()), tr); m[i].desc = m[1 - i].desc; m[i].dsize = m[1 - i].dsize; m[i].keys = m[1 - i].keys; } else if (tr) p[i]->copyFrom(p[1 - i].get()); else p[i]->copyFrom(p[1 - i].get(), false); m[i].clear(); m[i].v = m[1 - i].v; T r = abs[m[i].frame].inverse() * abs[m[1 - i].frame]; if (tr) for (auto& v : m[i].v) v = r * v; });
            if (!few) for (int col = 0; col < 2; ++col) add(L + (col ? "copy from a coloured sample" : "copy from a sample"), [&, i, col] { base::samples::Pointcloud b; for (int k = 0; k < 3; ++k) { V v = val(k); b.points.push_back(v); if (col) b.colors.push_back(base::Vector4d(.2 * k, .5, 1, .3)); } p[i]->copyFrom(b); m[i].clear(); if (col) m[i].v3[PC::VERTEX_COLOR]; for (int k = 0; k < 3; ++k) { m[i].v.push_back(b.points[k]); if (col) m[i].v3[PC::VERTEX_COLOR].push_back(V(.2 * k, .5, 1)); } if (!col && p[i]->hasData(PC::VERTEX_COLOR)) m[i].v3[PC::VERTEX_COLOR]; });
            if (!few) add(L + "sensor origin", [&, i] { T t = pose(1 + ver++ % 2); p[i]->setSensorOrigin(t); m[i].origin = t; });
            if (i == 0) add(L + "assign", [&] { std::string id = p[0]->getUniqueId(); if (kind == 1) dynamic_cast<TriMesh&>(*p[0]) = dynamic_cast<TriMesh&>(*p[1]); else if (kind == 2) dynamic_cast<Featurecloud&>(*p[0]) = dynamic_cast<Featurecloud&>(*p[1]); else *p[0] = *p[1]; int fr = m[0].frame; m[0] = m[1]; m[0].frame = fr; c.check(p[0]->getUniqueId() == id, "the id was assigned too"); });
            if (i == 1) add(L + "clone", [&] { env->detachItem(p[1].get()); p[1] = kind == 1 ? dynamic_cast<TriMesh&>(*p[0]).clone() : kind == 2 ? dynamic_cast<Featurecloud&>(*p[0]).clone() : p[0]->clone(); p[1]->setUniqueId(""); int fr = m[1].frame; m[1] = m[0]; m[1].frame = fr; env->attachItem(p[1].get(), f[fr]); });
            if (!few && storable()) {
                add(L + "send as event", [&, i] { BinarySerialization o, r; BinaryEvent ev(event::ITEM, event::ADD, p[i]->getUniqueId(), ""); o.serializeBinaryEvent(p[i].get(), ev); EnvironmentItem::Ptr n = r.unserializeBinaryEvent(ev); env->detachItem(p[i].get()); p[i] = boost::dynamic_pointer_cast<PC>(n); c.check(p[i].get() != 0 && p[i]->getClassName() == make(kind)->getClassName(), "the class changed in an event"); bool ok; m[i].stored(ok); env->attachItem(p[i].get(), f[m[i].frame]); });
                if (i == 0) add("save and load everything", [&] { bool ok = true; M k = m[1]; k.stored(ok); if (!ok) return; wipe(); std::string id[2], fid[3]; for (int k = 0; k < 2; ++k) id[k] = p[k]->getUniqueId(); for (int k = 0; k < 3; ++k) fid[k] = f[k]->getUniqueId(); env->serialize(dir()); p[0] = p[1] = 0; env.reset(Environment::unserialize(dir())); for (int k = 0; k < 2; ++k) { p[k] = env->getItem<PC>(id[k]); c.check(p[k].get() != 0, "a cloud is missing after loading"); m[k].stored(ok); } for (int k = 0; k < 3; ++k) f[k] = k ? env->getItem<FrameNode>(fid[k]).get() : env->getRootNode(); for (int k = 0; k < 2; ++k) c.check(p[k]->getFrameNode() == f[m[k].frame], "a cloud is in another frame after loading"); });
            }
        }
        int k = c.choose(op.size(), "operation"); c.note("%s", nm[k].c_str()); c.step(); op[k](); judge(c, *p[0], m[0], "cloud 0"); judge(c, *p[1], m[1], "cloud 1");
        uint64_t h = 0; for (int i = 0; i < 2; ++i) { h = mix(h, m[i].v.size() * 64 + m[i].f.size() * 8 + m[i].hasVar + 2 * m[i].v3.size()); for (auto& d : m[i].v3) h = mix(h, d.second.size()); } c.outcome(h);
    }
}
// the mesh file
static void ply(Ctx& c) {
    int n = c.choose(4, "points"), nf = n ? c.choose(3, "faces") : 0, data = c.choose(4, "data"); bool mesh = c.flag("mesh"), dbl = c.flag("double"), from = c.flag("read as mesh"); if (nf && !mesh) return; std::unique_ptr<PC> p(make(mesh)), q(make(from)); static const double X[] = { 0, -1.5, 1e-30, 12345.678901234567, -1e20, 3.25 }; int off = c.choose(6, "values"); c.step();
    for (int i = 0; i < n; ++i) { p->vertices.push_back(V(X[(i + off) % 6], X[(i + 1) % 6], X[(2 * i + off) % 6])); if (data & 1) p->getVertexData<V>(PC::VERTEX_NORMAL).push_back(V(0, i, X[(off + i) % 6])); if (data & 2) p->getVertexData<V>(PC::VERTEX_COLOR).push_back(V(i / 3., (off * 50 + i) / 255., 1)); }
    for (int i = 0; i < nf; ++i) dynamic_cast<TriMesh&>(*p).faces.push_back(TriMesh::triangle_t(i % n, n - 1, (i + 1) % n)); if (!n && data) { p->getVertexData<V>(PC::VERTEX_NORMAL); p->getVertexData<V>(PC::VERTEX_COLOR); }
    std::stringstream s; c.check(p->writePly("x", s, dbl), "writing failed"); c.check(q->readPly("x", s), "reading failed"); s.peek(); c.check(s.eof(), "the file has more than what was read");
    auto f = [&](V v) { if (!dbl) v = v.cast<float>().cast<double>(); return v; }; VV w; for (auto& v : p->vertices) w.push_back(f(v)); c.check(eq(q->vertices, w, 0), "the points changed"); if (n && (data & 1)) { w.clear(); for (auto& v : p->getVertexData<V>(PC::VERTEX_NORMAL)) w.push_back(f(v)); c.check(q->hasData(PC::VERTEX_NORMAL) && eq(q->getVertexData<V>(PC::VERTEX_NORMAL), w, 0), "the normals changed"); } if (n && (data & 2)) c.check(q->hasData(PC::VERTEX_COLOR) && eq(q->getVertexData<V>(PC::VERTEX_COLOR), p->getVertexData<V>(PC::VERTEX_COLOR), 1.8 / 255), "the colours changed");
    if (from) { auto& b = dynamic_cast<TriMesh&>(*q).faces; c.check((int)b.size() == nf, "%zu instead of %d faces", b.size(), nf); for (int i = 0; i < nf; ++i) c.check(b[i] == dynamic_cast<TriMesh&>(*p).faces[i], "face %d changed", i); }
    // once stored, nothing changes any more
    std::stringstream s1, s2; q->writePly("x", s1, dbl); std::string a = s1.str(); std::unique_ptr<PC> r(make(from)); r->readPly("x", s1); r->writePly("x", s2, dbl); c.check(a == s2.str(), "saving a loaded cloud again changes it");
    c.outcome(hashBytes(a.data(), a.size()));
}
static void colour(Ctx& c) { int k = c.choose(256, "value"); c.step(); PC p, q; p.vertices.push_back(V(1, 2, 3)); p.getVertexData<V>(PC::VERTEX_COLOR).push_back(V(k / 255., 1 - k / 255., 0)); std::stringstream s; p.writePly("x", s); q.readPly("x", s); c.check((q.getVertexData<V>(PC::VERTEX_COLOR)[0] - V(k / 255., 1 - k / 255., 0)).norm() < 1e-9, "the colour %d/255 became %g/255", k, q.getVertexData<V>(PC::VERTEX_COLOR)[0][0] * 255); }
static void mismatch(Ctx& c) { int k = c.choose(2, "data"); c.step(); PC p; p.vertices.push_back(V(1, 2, 3)); p.vertices.push_back(V(1, 2, 3)); p.getVertexData<V>(k ? PC::VERTEX_COLOR : PC::VERTEX_NORMAL).push_back(V(1, 0, 0)); std::stringstream s; bool t = false; try { p.writePly("x", s); } catch (std::exception&) { t = true; } c.check(t, "a cloud with data for only some of its points was saved"); }
// the text form
static void text(Ctx& c) {
    int n = c.choose(4, "points"), off = c.choose(5, "values"), tail = c.choose(4, "end"), rem = c.choose(2, "remission"); static const double X[] = { 0, -1.5, 1. / 3, 12345.678901234567, -1e-20 }; c.step(); std::stringstream s; PC p, q; for (int i = 0; i < n; ++i) p.vertices.push_back(V(X[(i + off) % 5], X[(2 * i + off) % 5], X[(i + 3) % 5]));
    if (!rem) { c.check(p.writeText(s), "writing failed"); } else { s.precision(17); for (int i = 0; i < n; ++i) s << p.vertices[i].x() << " " << p.vertices[i].y() << "  " << p.vertices[i].z() << " " << 51 * i << "\n"; } std::string t = s.str(); if (tail == 1 && n) t.erase(t.size() - 1); if (tail == 2) t += "\n"; if (tail == 3) t += " \n\n"; std::stringstream r(t);
    if (c.flag("import")) { wipe(); mkdir(dir().c_str(), 0755); std::string fn = dir() + "/x.txt"; { std::ofstream o(fn.c_str()); o << t; } Environment env; FrameNode* fr = new FrameNode(pose(1)); env.addChild(env.getRootNode(), fr); PC* k = PC::importCsv(fn, fr, 1, rem ? PC::XYZR : PC::XYZ); c.check(k->getFrameNode() == fr && k->getEnvironment() == &env, "the imported cloud is in another frame"); q.vertices = k->vertices; if (rem && k->hasData(PC::VERTEX_COLOR)) q.getVertexData<V>(PC::VERTEX_COLOR) = k->getVertexData<V>(PC::VERTEX_COLOR); bool thrown = false; try { PC::importCsv(fn + "x", fr); } catch (std::exception&) { thrown = true; } c.check(thrown, "a missing file was imported"); }
    else c.check(q.readText(r, 1, rem ? PC::XYZR : PC::XYZ), "reading failed");
    c.check(eq(q.vertices, p.vertices, 0), "%zu points were read instead of %d, or other ones", q.vertices.size(), n); if (rem) { VV w; for (int i = 0; i < n; ++i) w.push_back(V(51 * i, 51 * i, 51 * i) / 255.); c.check(n == 0 || eq(q.getVertexData<V>(PC::VERTEX_COLOR), w, 1e-12), "the remission is not the grey value"); }
}
// normals of a mesh
static void normals(Ctx& c) {
    TriMesh t; static const V P[] = { V(0, 0, 0), V(2, 0, 0), V(0, 1, .5), V(.3, -1, 2) }; for (auto& p : P) t.vertices.push_back(p); int n = c.choose(4, "faces"); VV w(4, V::Zero()); bool before = c.flag("computed before");
    if (before) { t.faces.push_back(TriMesh::triangle_t(0, 1, 2)); t.calcVertexNormals(); t.faces.clear(); }
    for (int i = 0; i < n; ++i) { int k = c.choose(6, "face"); static const int F[][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 0, 1, 3 }, { 1, 2, 3 }, { 3, 0, 2 }, { 1, 1, 2 } }; t.faces.push_back(TriMesh::triangle_t(F[k][0], F[k][1], F[k][2])); V u = (P[F[k][0]] - P[F[k][1]]).cross(P[F[k][2]] - P[F[k][1]]); if (u.norm() > 0) u.normalize(); for (int j = 0; j < 3; ++j) w[F[k][j]] += u; }
    c.step(); t.calcVertexNormals(); VV& r = t.getVertexData<V>(PC::VERTEX_NORMAL); c.check(r.size() == 4 && t.vertices.size() == 4, "%zu normals for 4 points", r.size()); for (int i = 0; i < 4; ++i) { V e = w[i].norm() > 1e-6 ? w[i].normalized() : V(0, 0, 0); c.check((r[i] - e).norm() < 1e-6, "the normal of point %d is (%g,%g,%g) instead of (%g,%g,%g)", i, r[i].x(), r[i].y(), r[i].z(), e.x(), e.y(), e.z()); }
}
// laser scans
static void compare(Ctx& c, LaserScan& a, LaserScan& b) {
    c.check(a.delta_psi == b.delta_psi && a.origin_psi == b.origin_psi && a.origin_phi == b.origin_phi, "an angle changed from %.9g %.9g %.9g to %.9g %.9g %.9g", a.delta_psi, a.origin_psi, a.origin_phi, b.delta_psi, b.origin_psi, b.origin_phi); c.check(a.center_offset == b.center_offset && a.x_forward == b.x_forward, "offset or direction changed"); c.check(a.lines.size() == b.lines.size(), "%zu lines became %zu", a.lines.size(), b.lines.size());
    for (size_t i = 0; i < a.lines.size(); ++i) { c.check(a.lines[i].delta_phi == b.lines[i].delta_phi && a.lines[i].ranges == b.lines[i].ranges, "line %zu changed", i); c.check(b.lines[i].remissions == (a.lines[i].remissions.size() == a.lines[i].ranges.size() ? a.lines[i].remissions : std::vector<unsigned>()), "the remissions of line %zu changed", i); } if (!a.lines.empty()) c.check(a.points_per_line == b.points_per_line, "%d points per line became %d", a.points_per_line, b.points_per_line);
}
static void scan(Ctx& c) {
    LaserScan::Ptr s = new LaserScan, r; static const float A[] = { 0, .1f, -3.1415927f, 1.2345678f, 1e-7f }; int off = c.choose(5, "angles"), n = c.choose(4, "lines"), len = c.choose(4, "ranges"), rem = c.choose(3, "remissions"), how = c.choose(3, "way"); bool added = c.flag("added"); c.step(); if (c.flag("x forward")) s->setXForward(); s->origin_phi = A[(off + 2) % 5]; s->center_offset << 1. / 3, -off, 1e-9; if (!added && n) { s->origin_psi = A[off]; s->delta_psi = A[(off + 1) % 5]; s->points_per_line = len; }
    static const unsigned R[] = { 0, 1500, 4000000000u, 16777217u }; for (int i = 0; i < n; ++i) { base::samples::LaserScan l; l.start_angle = A[off]; l.angular_resolution = A[(off + 1) % 5]; LaserScan::scanline_t k; k.delta_phi = A[(i + off) % 5] * (i + 1); for (int j = 0; j < len; ++j) { l.ranges.push_back(R[(i + j) % 4]); k.ranges.push_back(R[(i + j) % 4]); } for (int j = 0; j < (rem == 2 ? len : rem * (len / 2)); ++j) { l.remission.push_back(7 * j + i); k.remissions.push_back(7 * j + i); } if (added) s->addScanLine(k.delta_phi, l); else s->lines.push_back(k); if (added) { LaserScan::scanline_t& q = s->lines.back(); c.check((int)s->lines.size() == i + 1 && q.delta_phi == k.delta_phi && q.ranges == k.ranges && q.remissions == k.remissions, "line %d was not added as it is", i); c.check(s->points_per_line == len && s->origin_psi == A[off] && s->delta_psi == A[(off + 1) % 5], "the scan has other properties than its lines"); } }
    if (how == 0) { std::stringstream o; c.check(s->writeScan(o), "writing failed"); r = new LaserScan; c.check(r->readScan(o), "reading failed"); }
    else if (how == 1) { s->setUniqueId("/scan"); BinarySerialization o, i; BinaryEvent ev(event::ITEM, event::ADD, s->getUniqueId(), ""); o.serializeBinaryEvent(s.get(), ev); EnvironmentItem::Ptr k = i.unserializeBinaryEvent(ev); r = boost::dynamic_pointer_cast<LaserScan>(k); c.check(r.get() != 0, "the class changed in an event"); }
    else { wipe(); std::string id; { Environment env; FrameNode* f = new FrameNode(pose(1)); env.addChild(env.getRootNode(), f); env.attachItem(s.get(), f); id = s->getUniqueId(); env.serialize(dir()); EnvironmentItem::Ptr keep = env.detachItem(s.get()); } std::unique_ptr<Environment> e(Environment::unserialize(dir())); r = e->getItem<LaserScan>(id); c.check(r.get() != 0 && r->getFrameNode() && r->getFrameNode()->getTransform().isApprox(pose(1)), "the scan is missing after loading"); e->detachItem(r.get()); }
    compare(c, *s, *r);
}
static void import(Ctx& c) {
    int q = c.choose(3, "orientation"), o = c.choose(2, "origin"), bad = c.choose(6, "defect"); bool order = c.flag("order"); c.step(); std::string a, b; Eigen::Quaterniond Q(1, 0, 0, 0); if (q) { Q = Eigen::Quaterniond(q == 1 ? .5 : -.5, .5, .5, q == 1 ? .5 : -.5); char t[99]; sprintf(t, "orientation %g %g %g %g\n", Q.w(), Q.x(), Q.y(), Q.z()); a = t; } V d(0, 0, 0); if (o) { d = V(1.5, -2, .25); b = "origin 1.5 -2 0.25\n"; } std::string s = order ? a + b : b + a; s += "delta_psi 0.5\norigin_psi -1\nunknown 4 4\n\n";
    bool fails = bad >= 3; std::string body = "line 0.25 1 2 3\nremission 0.25 4 5 6\nline 0.5 7 8 9"; if (bad == 1) body += "\n"; if (bad == 2) body += " \n\n"; if (bad == 3) body = "remission 0.25 4 5 6\n" + body; if (bad == 4) body += "\nremission 0.25 1 2 3\n"; if (bad == 5) body += "\nline 1 2 x 4\n"; wipe(); mkdir(dir().c_str(), 0755); std::string fn = dir() + "/s.scan"; { std::ofstream f(fn.c_str()); f << s << body; }
    Environment env; FrameNode* n = new FrameNode(pose(2)); env.addChild(env.getRootNode(), n); LaserScan* r = 0; bool thrown = false; try { r = LaserScan::importScanFile(fn, n); } catch (std::exception&) { thrown = true; } c.check(thrown == fails, "a scan file was %s", fails ? "accepted although it is broken" : "rejected"); if (fails) { c.check(env.getChildren(n).empty(), "a rejected scan changed the environment"); return; }
    c.check(r->getEnvironment() == &env && r->getFrameNode() && r->getFrameNode()->getParent() == n, "the scan is not below its frame"); T w = Eigen::Translation3d(d) * Q; c.check(r->getFrameNode()->getTransform().isApprox(w, 1e-6), "the scan has another pose"); c.check(r->delta_psi == .5f && r->origin_psi == -1 && r->lines.size() == 2 && r->points_per_line == 3, "the scan has other properties"); c.check(r->lines[0].delta_phi == .25f && r->lines[0].ranges == std::vector<unsigned>({ 1, 2, 3 }) && r->lines[0].remissions == std::vector<unsigned>({ 4, 5, 6 }) && r->lines[1].delta_phi == .5f && r->lines[1].ranges == std::vector<unsigned>({ 7, 8, 9 }) && r->lines[1].remissions.empty(), "the lines are other ones");
    thrown = false; FrameNode::Ptr loose = new FrameNode; try { LaserScan::importScanFile(fn, loose.get()); } catch (std::exception&) { thrown = true; } c.check(thrown, "a scan was imported below a frame without environment");
}
// copies between frames that are moved, turned or both, far or hardly
static std::vector<T> const& motions() { static std::vector<T> r; if (r.empty()) { r.push_back(T::Identity()); for (V a : { V(1e-6, 0, 0), V(0, -2, 0), V(0, 0, 1e5) }) r.push_back(T(Eigen::Translation3d(a))); for (V x : { V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1, 2, -1) }) for (double a : { 1e-6, .7, M_PI / 2, M_PI }) r.push_back(T(Eigen::AngleAxisd(a, x.normalized()))); r.push_back(T(Eigen::Translation3d(1, 2, 3) * Eigen::AngleAxisd(2, V(1, 1, 0).normalized()))); r.push_back(T(Eigen::Translation3d(-1e-6, 0, 0) * Eigen::AngleAxisd(1e-6, V::UnitY()))); } return r; }
static void copies(Ctx& c) {
    T a = c.pick(motions(), "first frame"), b = c.pick(motions(), "second frame"); int how = c.choose(3, "arrangement"), kind = c.choose(c.thorough ? 3 : 1, "kind"), tr = c.choose(3, "how"); c.step(); Environment env; FrameNode *x = new FrameNode(a), *y = new FrameNode(b); env.addChild(env.getRootNode(), x); env.addChild(how == 0 ? env.getRootNode() : x, y);
    PC *p = make(kind), *q = make(kind); env.attachItem(p, how == 2 ? y : x); env.attachItem(q, how == 2 ? x : y); VV v = { V(0, 0, 0), V(1, 0, 0), V(0, -2, .5), V(3, 4, 5) }; p->vertices = v; q->vertices.assign(7, V(9, 9, 9)); if (kind == 2) { if (tr == 1) static_cast<Featurecloud*>(q)->copyFrom(static_cast<Featurecloud*>(p), false); else static_cast<Featurecloud*>(q)->copyFrom(static_cast<Featurecloud*>(p)); } else if (tr == 0) q->copyFrom(p); else q->copyFrom(p, tr == 2);
    T g[2] = { a, how == 0 ? b : T(a * b) }; int f = how == 2; T r = g[1 - f].inverse() * g[f]; double tol = 1e-9; VV w = v; if (tr != 1) for (auto& k : w) k = r * k; if (g[1].translation().norm() > 1e3) tol = 1e-8; c.check(eq(q->vertices, w, tol), "the points copied%s are wrong, the first is at (%.9g %.9g %.9g) and not (%.9g %.9g %.9g)", tr == 1 ? " without transforming them" : "", q->vertices.empty() ? NAN : q->vertices[1].x(), q->vertices.empty() ? NAN : q->vertices[1].y(), q->vertices.empty() ? NAN : q->vertices[1].z(), w[1].x(), w[1].y(), w[1].z()); c.check(eq(p->vertices, v, 0), "copying changed the source"); c.outcome(mix(how, tr));
}
int main(int argc, char** argv) {
    Engine e;
    e.add("clouds", 3, 4, 2, false, [](Ctx& c) { history(c, 0); }, "all histories of changes, copies, saving and sending of two point clouds in all frames"); e.add("meshes", 2, 3, 2, false, [](Ctx& c) { history(c, 1); }, "the same for meshes"); e.add("features", 2, 3, 2, false, [](Ctx& c) { history(c, 2); }, "the same for feature clouds");
    e.add("copies", 1, 1, 1, false, copies, "copies between all pairs of frames that are moved, turned or both"); e.add("ply", 1, 1, 2, false, ply, "mesh files of any content and precision"); e.add("colour", 1, 1, 1, false, colour, "all colour values"); e.add("mismatch", 1, 1, 1, false, mismatch, "incomplete data"); e.add("text", 1, 1, 1, false, text, "text files with any end"); e.add("normals", 1, 1, 1, false, normals, "all meshes of up to three faces on four points"); e.add("scan", 1, 1, 2, false, scan, "laser scans"); e.add("import", 1, 1, 1, false, import, "scan files, broken ones too");
    return e.main(argc, argv);
}
