// Shared by the core harnesses: small item classes that run through the real
// framework (registered, serialisable, instance counted) and a snapshot of an
// environment taken through its public API only.
#ifndef ENVMODEL_HPP
#define ENVMODEL_HPP
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/core/EventHandler.hpp>
#include <mc.hpp>
#include <algorithm>
#include <memory>
#include <set>

namespace tmod {
extern long live;                        // instances of the classes below
extern void (*onCopy)();                  // scheduling hook
struct Counted { Counted() { ++live; } Counted(Counted const&) { ++live; if (onCopy) onCopy(); } Counted& operator=(Counted const&) { return *this; } ~Counted() { --live; } };

class TMap : public envire::Map<2>, public Counted {
    ENVIRONMENT_ITEM(TMap)
public:
    int value; std::string blob;
    TMap() : value(0) {}
    explicit TMap(std::string const& id, int v = 0) : envire::Map<2>(id), value(v) {}
    Extents getExtents() const { return Extents(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 2)); }
    void serialize(envire::Serialization& so);
    void unserialize(envire::Serialization& so);
};
class TMapB : public envire::Map<3>, public Counted {
    ENVIRONMENT_ITEM(TMapB)
public:
    int value;
    TMapB() : value(0) {}
    explicit TMapB(std::string const& id, int v = 0) : envire::Map<3>(id), value(v) {}
    Extents getExtents() const { return Extents(Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(1, 2, 3)); }
    void serialize(envire::Serialization& so) { envire::Map<3>::serialize(so); so.write("value", value); }
    void unserialize(envire::Serialization& so) { envire::Map<3>::unserialize(so); so.read("value", value); }
};
class TLayer : public envire::Layer, public Counted {
    ENVIRONMENT_ITEM(TLayer)
public:
    int value;
    TLayer() : envire::Layer(""), value(0) {}
    explicit TLayer(std::string const& id, int v = 0) : envire::Layer(id), value(v) {}
    void serialize(envire::Serialization& so) { envire::Layer::serialize(so); so.write("value", value); }
    void unserialize(envire::Serialization& so) { envire::Layer::unserialize(so); so.read("value", value); }
};
class TOp : public envire::Operator, public Counted {
    ENVIRONMENT_ITEM(TOp)
public:
    int value; int runs;
    TOp() : value(0), runs(0) {}
    explicit TOp(std::string const& id, int in = 0, int out = 0) : envire::Operator(id, in, out), value(0), runs(0) {}
    bool updateAll() { ++runs; return true; }
    void serialize(envire::Serialization& so) { envire::Operator::serialize(so); so.write("value", value); }
    void unserialize(envire::Serialization& so) { envire::Operator::unserialize(so); so.read("value", value); }
};

std::string content(envire::EnvironmentItem* i, bool label = false);

struct Snap {
    std::map<std::string, std::string> items;         // id -> content
    std::set<std::pair<std::string, std::string> > frame, layer, map, in, out; // (child,parent) (child,parent) (map,node) (op,layer)
    std::string str() const;
    bool operator==(Snap const& o) const { return items == o.items && frame == o.frame && layer == o.layer && map == o.map && in == o.in && out == o.out; }
};
Snap snapshot(envire::Environment& e, bool operators, bool label = false);
std::string diff(Snap const& a, Snap const& b);
Eigen::Affine3d pose(int k);
}
#endif
