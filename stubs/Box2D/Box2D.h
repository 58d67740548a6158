#ifndef VSTUB_BOX2D_H
#define VSTUB_BOX2D_H
// Stand-in for the parts of Box2D 2.3 used here: brute force instead of trees and GJK, same interface and documented behaviour
// (fat bounding boxes in the broad phase, skins of the polygons, hulls of at most eight vertices).
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cfloat>
#include <cstdint>
#include <iostream> // some users rely on it
#include <limits>
#include <vector>
typedef float float32; typedef int32_t int32; typedef uint32_t uint32;
#define b2_epsilon FLT_EPSILON
#define b2_maxFloat FLT_MAX
#define b2_linearSlop 0.005f
#define b2_polygonRadius (2.0f * b2_linearSlop)
#define b2_maxPolygonVertices 8
#define b2_aabbExtension 0.1f
struct b2Vec2 { float32 x, y; b2Vec2() {} b2Vec2(float32 x, float32 y) : x(x), y(y) {} void Set(float32 a, float32 b) { x = a; y = b; } void SetZero() { x = y = 0; } float32 Length() const { return std::sqrt(x * x + y * y); } };
inline b2Vec2 operator+(b2Vec2 const& a, b2Vec2 const& b) { return b2Vec2(a.x + b.x, a.y + b.y); }
inline b2Vec2 operator-(b2Vec2 const& a, b2Vec2 const& b) { return b2Vec2(a.x - b.x, a.y - b.y); }
inline b2Vec2 operator*(float32 s, b2Vec2 const& a) { return b2Vec2(s * a.x, s * a.y); }
inline bool operator==(b2Vec2 const& a, b2Vec2 const& b) { return a.x == b.x && a.y == b.y; }
inline float32 b2Dot(b2Vec2 const& a, b2Vec2 const& b) { return a.x * b.x + a.y * b.y; }
inline float32 b2Cross(b2Vec2 const& a, b2Vec2 const& b) { return a.x * b.y - a.y * b.x; }
struct b2Rot { float32 s, c; b2Rot() {} explicit b2Rot(float32 a) { Set(a); } void Set(float32 a) { s = std::sin(a); c = std::cos(a); } void SetIdentity() { s = 0; c = 1; } float32 GetAngle() const { return std::atan2(s, c); } };
struct b2Transform { b2Vec2 p; b2Rot q; b2Transform() {} b2Transform(b2Vec2 const& p, b2Rot const& q) : p(p), q(q) {} void SetIdentity() { p.SetZero(); q.SetIdentity(); } void Set(b2Vec2 const& pos, float32 a) { p = pos; q.Set(a); } };
inline b2Vec2 b2Mul(b2Rot const& q, b2Vec2 const& v) { return b2Vec2(q.c * v.x - q.s * v.y, q.s * v.x + q.c * v.y); }
inline b2Vec2 b2MulT(b2Rot const& q, b2Vec2 const& v) { return b2Vec2(q.c * v.x + q.s * v.y, -q.s * v.x + q.c * v.y); }
inline b2Vec2 b2Mul(b2Transform const& t, b2Vec2 const& v) { return b2Mul(t.q, v) + t.p; }
inline b2Vec2 b2MulT(b2Transform const& t, b2Vec2 const& v) { return b2MulT(t.q, v - t.p); }
struct b2AABB { b2Vec2 lowerBound, upperBound; bool IsValid() const { return upperBound.x >= lowerBound.x && upperBound.y >= lowerBound.y; } bool Contains(b2AABB const& o) const { return lowerBound.x <= o.lowerBound.x && lowerBound.y <= o.lowerBound.y && o.upperBound.x <= upperBound.x && o.upperBound.y <= upperBound.y; } };
inline bool b2TestOverlap(b2AABB const& a, b2AABB const& b) { return a.lowerBound.x <= b.upperBound.x && b.lowerBound.x <= a.upperBound.x && a.lowerBound.y <= b.upperBound.y && b.lowerBound.y <= a.upperBound.y; }
struct b2Shape { float32 m_radius; virtual ~b2Shape() {} };
struct b2PolygonShape : b2Shape {
    b2Vec2 m_centroid, m_vertices[b2_maxPolygonVertices], m_normals[b2_maxPolygonVertices]; int32 m_count;
    b2PolygonShape() : m_count(0) { m_radius = b2_polygonRadius; }
    int32 GetVertexCount() const { return m_count; } int32 GetChildCount() const { return 1; } b2Vec2 const& GetVertex(int32 i) const { return m_vertices[i]; }
    void Set(b2Vec2 const* v, int32 n) { // convex hull, counter clockwise
        assert(3 <= n && n <= b2_maxPolygonVertices); std::vector<b2Vec2> p(v, v + n), h(2 * n); std::sort(p.begin(), p.end(), [](b2Vec2 const& a, b2Vec2 const& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); int k = 0;
        for (int i = 0; i < n; ++i) { while (k >= 2 && b2Cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; } int t = k + 1; for (int i = n - 2; i >= 0; --i) { while (k >= t && b2Cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; } --k; assert(k >= 3); m_count = k; for (int i = 0; i < k; ++i) m_vertices[i] = h[i];
        for (int i = 0; i < k; ++i) { b2Vec2 e = m_vertices[(i + 1) % k] - m_vertices[i]; float32 l = e.Length(); m_normals[i] = b2Vec2(e.y / l, -e.x / l); } m_centroid.SetZero(); for (int i = 0; i < k; ++i) m_centroid = m_centroid + (1.f / k) * m_vertices[i]; }
    bool TestPoint(b2Transform const& xf, b2Vec2 const& p) const { b2Vec2 l = b2MulT(xf, p); for (int i = 0; i < m_count; ++i) if (b2Dot(m_normals[i], l - m_vertices[i]) > 0) return false; return true; }
    void ComputeAABB(b2AABB* a, b2Transform const& xf, int32) const { b2Vec2 lo = b2Mul(xf, m_vertices[0]), hi = lo; for (int i = 1; i < m_count; ++i) { b2Vec2 v = b2Mul(xf, m_vertices[i]); lo.Set(std::min(lo.x, v.x), std::min(lo.y, v.y)); hi.Set(std::max(hi.x, v.x), std::max(hi.y, v.y)); } b2Vec2 r(m_radius, m_radius); a->lowerBound = lo - r; a->upperBound = hi + r; }
};
struct b2DistanceProxy { b2Vec2 const* m_vertices; int32 m_count; float32 m_radius; b2DistanceProxy() : m_vertices(0), m_count(0), m_radius(0) {} void Set(b2Shape const* s, int32) { b2PolygonShape const* p = static_cast<b2PolygonShape const*>(s); m_vertices = p->m_vertices; m_count = p->m_count; m_radius = p->m_radius; } };
struct b2SimplexCache { float32 metric; uint16_t count; uint8_t indexA[3], indexB[3]; };
struct b2DistanceInput { b2DistanceProxy proxyA, proxyB; b2Transform transformA, transformB; bool useRadii; };
struct b2DistanceOutput { b2Vec2 pointA, pointB; float32 distance; int32 iterations; };
namespace vstub { inline bool inside(std::vector<b2Vec2> const& p, b2Vec2 const& v) { for (size_t i = 0; i < p.size(); ++i) if (b2Cross(p[(i + 1) % p.size()] - p[i], v - p[i]) < 0) return false; return true; }
    inline bool cross(b2Vec2 a, b2Vec2 b, b2Vec2 c, b2Vec2 d) { float32 p = b2Cross(b - a, c - a), q = b2Cross(b - a, d - a), r = b2Cross(d - c, a - c), s = b2Cross(d - c, b - c); return ((p < 0) != (q < 0)) && ((r < 0) != (s < 0)); }
    inline b2Vec2 closest(b2Vec2 a, b2Vec2 b, b2Vec2 v) { b2Vec2 e = b - a; float32 t = b2Dot(v - a, e) / b2Dot(e, e); return a + std::min(1.f, std::max(0.f, t)) * e; } }
inline void b2Distance(b2DistanceOutput* o, b2SimplexCache* cache, b2DistanceInput const* in) {
    std::vector<b2Vec2> a, b; for (int i = 0; i < in->proxyA.m_count; ++i) a.push_back(b2Mul(in->transformA, in->proxyA.m_vertices[i])); for (int i = 0; i < in->proxyB.m_count; ++i) b.push_back(b2Mul(in->transformB, in->proxyB.m_vertices[i]));
    float32 best = FLT_MAX; auto use = [&](b2Vec2 p, b2Vec2 q) { float32 d = (p - q).Length(); if (d < best) { best = d; o->pointA = p; o->pointB = q; } };
    for (auto& v : a) if (vstub::inside(b, v)) use(v, v); for (auto& v : b) if (vstub::inside(a, v)) use(v, v); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) { b2Vec2 p = a[i], q = a[(i + 1) % a.size()], r = b[j], s = b[(j + 1) % b.size()]; if (vstub::cross(p, q, r, s)) use(p, p); use(p, vstub::closest(r, s, p)); use(vstub::closest(p, q, r), r); }
    o->distance = best; o->iterations = 1; cache->count = 1; if (in->useRadii) { float32 r = in->proxyA.m_radius + in->proxyB.m_radius; if (best > r && best > b2_epsilon) o->distance -= r; else o->distance = 0; } }
struct b2BroadPhase { // identifiers as of a binary tree: leaves and inner nodes share the numbers
    struct Proxy { bool used; b2AABB fat; void* data; }; std::vector<Proxy> v; int32 leaves; b2BroadPhase() : leaves(0) {}
    static b2AABB grow(b2AABB a) { b2Vec2 r(b2_aabbExtension, b2_aabbExtension); a.lowerBound = a.lowerBound - r; a.upperBound = a.upperBound + r; return a; }
    int32 CreateProxy(b2AABB const& a, void* data) { for (size_t i = 0; i < v.size(); ++i) if (!v[i].used && v[i].data == this) { v[i].used = true; v[i].data = data; v[i].fat = grow(a); ++leaves; return i; } if (leaves) { Proxy inner = { false, a, 0 }; v.push_back(inner); } Proxy p = { true, grow(a), data }; v.push_back(p); ++leaves; return v.size() - 1; }
    void DestroyProxy(int32 id) { assert(v.at(id).used); v[id].used = false; v[id].data = this; --leaves; }
    void MoveProxy(int32 id, b2AABB const& a, b2Vec2 const& d) { assert(v.at(id).used); if (v[id].fat.Contains(a)) return; b2AABB f = grow(a); b2Vec2 k = 2.f * d; if (k.x < 0) f.lowerBound.x += k.x; else f.upperBound.x += k.x; if (k.y < 0) f.lowerBound.y += k.y; else f.upperBound.y += k.y; v[id].fat = f; }
    b2AABB const& GetFatAABB(int32 id) const { assert(v.at(id).used); return v[id].fat; } void* GetUserData(int32 id) const { assert(v.at(id).used); return v[id].data; } int32 GetProxyCount() const { return leaves; }
    static bool& reversed() { static bool r = false; return r; } // the order of a tree is not defined
    template<class T> void Query(T* cb, b2AABB const& a) const { for (size_t k = 0; k < v.size(); ++k) { size_t i = reversed() ? v.size() - 1 - k : k; if (v[i].used && b2TestOverlap(v[i].fat, a)) if (!cb->QueryCallback(i)) return; } }
};
#endif
