// E07: single items survive the conversion to and from binary events; key/value storage is faithful.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
static std::string all256() { std::string s; for (int i = 0; i < 256; ++i) s += (char)i; return s; }
// item with an arbitrary number of properties and binary streams
class TBig : public envire::EnvironmentItem, public Counted {
    ENVIRONMENT_ITEM(TBig)
public:
    std::map<std::string, std::string> props, streams; std::vector<std::string> pk, sk;
    TBig() : envire::EnvironmentItem("") {}
    void serialize(Serialization& so) { EnvironmentItem::serialize(so); so.write("np", props.size()); so.write("ns", streams.size()); int i = 0; for (auto& p : props) { so.write("k" + std::to_string(i), p.first); so.write("v" + std::to_string(i++), p.second); } i = 0; for (auto& p : streams) { so.write("s" + std::to_string(i++), p.first); so.getBinaryOutputStream(p.first).write(p.second.data(), p.second.size()); } }
    void unserialize(Serialization& so) { EnvironmentItem::unserialize(so); int np = so.read<int>("np"), ns = so.read<int>("ns"); for (int i = 0; i < np; ++i) props[so.read<std::string>("k" + std::to_string(i))] = so.read<std::string>("v" + std::to_string(i)); for (int i = 0; i < ns; ++i) { std::string n = so.read<std::string>("s" + std::to_string(i)); std::istream& is = so.getBinaryInputStream(n); streams[n] = std::string(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()); }
        bool t = false; try { so.getBinaryInputStream("no such stream"); } catch (Serialization::NoSuchBinaryStream&) { t = true; } if (!t) throw Violation("a binary stream that was never written can be opened"); if (so.hasKey("nokey") || !so.hasKey("np")) throw Violation("hasKey is wrong"); }
};
ENVIRONMENT_ITEM_DEF(TBig)
static char const* STR[] = { "", "plain", "it's: [a], {b}", "two  words ", " lead", "line\nbreak\n", "\"q\"", "'", "# c", "null", "- x", "tab\there", "\xc3\xa9\xe2\x82\xac", "~", "a: b", "\\n", "%d", "&y *z", "007", "\n", "\r", "...", "---" };
static const int NS = sizeof STR / sizeof *STR;
static std::string str(Ctx& c) { int k = c.choose(NS + 3); return k < NS ? STR[k] : k == NS ? std::string(9990, 'x') : k == NS + 1 ? std::string(10001, 'y') : std::string(40000, 'z'); }
static void transfer(Ctx& c, BinarySerialization& out, BinarySerialization& in, EnvironmentItem* it) {
    BinaryEvent ev(event::ITEM, event::ADD, it->getUniqueId(), ""); out.serializeBinaryEvent(it, ev); c.step();
    // what the event carries may be copied around freely
    std::vector<BinaryEvent> copies(2, ev); ev.yamlProperties.clear(); ev.binaryStreams.clear();
    EnvironmentItem::Ptr r = in.unserializeBinaryEvent(copies[1]);
    c.check(r && r->getClassName() == it->getClassName(), "class %s came back as %s", it->getClassName().c_str(), r ? r->getClassName().c_str() : "nothing");
    c.check(r->getUniqueId() == it->getUniqueId(), "id '%s' came back as '%s'", it->getUniqueId().c_str(), r->getUniqueId().c_str());
    c.check(r->getLabel() == it->getLabel(), "label '%s' came back as '%s'", it->getLabel().c_str(), r->getLabel().c_str());
    c.check(!r->isAttached(), "the unserialised item is attached");
    if (TBig* b = dynamic_cast<TBig*>(it)) { TBig* q = dynamic_cast<TBig*>(r.get()); c.check(b->props == q->props, "properties differ after the transfer"); c.check(b->streams == q->streams, "binary streams differ after the transfer"); }
    else c.check(content(it) == content(r.get()), "content came back as %s instead of %s", content(r.get()).substr(0, 200).c_str(), content(it).substr(0, 200).c_str());
}
int main(int argc, char** argv) {
    Engine e;
    e.add("strings", 2, 3, 1, false, [](Ctx& c) {
        { BinarySerialization o, i; TBig::Ptr b = new TBig(); b->setUniqueId("/t"); for (int k = 0; k < c.bound; ++k) b->props["p" + std::to_string(k)] = str(c); if (c.flag("as label")) b->setLabel(b->props["p0"]); transfer(c, o, i, b.get()); }
        c.check(live == 0, "%ld leaked", live);
    }, "every combination of property texts (including large ones), as property and label");
    e.add("streams", 3, 4, 1, false, [](Ctx& c) {
        { std::string all = all256(), B[] = { "", std::string(1, '\0'), " \t\r\n", all, std::string(70000, '\xff'), all + " " }; char const* N[] = { "a", "b.bin", "_x y", "a" };
        BinarySerialization o, i; TBig::Ptr b = new TBig(); b->setUniqueId("/t"); int n = c.choose(c.bound + 1, "streams"); for (int k = 0; k < n; ++k) b->streams[N[k % 3] + std::string(k / 3, '+')] = B[c.choose(6)]; transfer(c, o, i, b.get()); }
        c.check(live == 0, "%ld leaked", live);
    }, "every combination of binary streams");
    e.add("sequence", 3, 4, 2, false, [](Ctx& c) {
        {   // one serialiser is used for a series of items of different classes
            BinarySerialization o, i;
            for (int k = 0; k < c.bound; ++k) {
                EnvironmentItem::Ptr it; int cls = c.choose(8, "class");
                if (cls == 0) it = new FrameNode(pose(k + 1)); else if (cls == 1) { TransformWithUncertainty::Covariance cov; for (int a = 0; a < 36; ++a) cov(a / 6, a % 6) = a + 1.0 / (k + 3); it = new FrameNode(TransformWithUncertainty(pose(k + 2), cov)); }
                else if (cls == 2 || cls == 3) { TMap* m = new TMap("", k); m->blob = cls == 2 ? "" : "x\n"; it = m; } else if (cls == 4) it = new TMapB("", -k); else if (cls == 5) { TLayer* l = new TLayer("", k); l->setImmutable(); it = l; } else if (cls == 6) { TOp* t = new TOp(""); t->value = k; it = t; }
                else { TBig* b = new TBig(); b->props["q"] = "v"; b->streams["_m0.bin"] = "other"; it = b; }
                it->setUniqueId("/m" + std::to_string(c.choose(2, "id"))); transfer(c, o, i, it.get());
            }
        }
        c.check(live == 0, "%ld leaked", live);
    }, "every sequence of items through one serialiser: no state leaks from one to the next");
    e.add("apply", 3, 4, 1, false, [](Ctx& c) {
        {   // any single event applied to any small environment has its effect or none, and never crashes
            Environment A; FrameNode* f = new FrameNode(pose(1)); f->setUniqueId("/f"); A.addChild(A.getRootNode(), f); TMap* m = new TMap("/m", 1); m->blob = "b"; A.attachItem(m, f); TLayer* l = new TLayer("/l", 2); A.attachItem(static_cast<EnvironmentItem*>(l)); A.addChild(l, m);
            std::vector<BinaryEvent> ev; A.pullEvents(ev, true); Snap want = snapshot(A, false);
            // every order in which a prefix was received before a complete copy
            Environment B; size_t n = c.choose(ev.size() + 1, "received prefix"); std::vector<BinaryEvent> pre(ev.begin(), ev.begin() + n); int drop = c.choose(ev.size() + 1, "lost event"); if (drop < (int)pre.size()) pre.erase(pre.begin() + drop);
            B.applyEvents(pre); c.step(); snapshot(B, false); B.applyEvents(ev); Snap got = snapshot(B, false); c.check(want == got, "after a complete copy the replica differs:%s", diff(want, got).c_str());
            if (c.flag("twice")) { B.applyEvents(ev); got = snapshot(B, false); c.check(want == got, "after a repeated copy the replica differs:%s", diff(want, got).c_str()); }
            bool t = false; BinaryEvent bad = ev[0]; for (auto& x : ev) if (x.type == event::ITEM) bad = x; bad.className = "envire::NoSuchClass"; std::vector<BinaryEvent> one(1, bad);
            try { B.applyEvents(one); } catch (std::exception&) { t = true; } c.check(t, "an event of an unknown class was accepted"); got = snapshot(B, false); c.check(want == got, "a rejected event changed the replica:%s", diff(want, got).c_str());
        }
        c.check(live == 0, "%ld leaked", live);
    }, "incomplete, lost and repeated events followed by a complete copy; unknown classes");
    e.add("keyvalue", 2, 3, 1, false, [](Ctx& c) {
        static const double D[] = { 0, -0.0, 1.0 / 3, -1e-300, 1.7976931348623157e308, 5e-324, -2.0000000000000004, 1e17 };
        static const long long I[] = { 0, -1, 2147483647LL, -2147483648LL, 9223372036854775807LL };
        Serialization so; so.begin(); int kd = c.choose(8), ki = c.choose(5), ks = c.choose(NS), first = c.choose(3); bool b = c.flag(); c.step();
        auto wr = [&](int k) { if (k == 0) so.write("d", D[kd]); else if (k == 1) { so.write("i", I[ki]); so.write("b", b); so.write("f", (float)D[kd == 4 || kd == 3 || kd == 5 ? 2 : kd]); } else { so.write("s", std::string(STR[ks])); so.write("t", Transform(pose(ki))); TransformWithUncertainty::Covariance cov; for (int a = 0; a < 36; ++a) cov(a / 6, a % 6) = a * D[kd == 4 ? 2 : kd] + ki; so.write("c", cov); } };
        for (int k = 0; k < 3; ++k) wr((k + first) % 3);
        double d = 1; long long i = 1; bool bb = !b; float f = 1; std::string s = "?"; Transform t; TransformWithUncertainty::Covariance cov;
        c.check(so.read("d", d) && memcmp(&d, &D[kd], 8) == 0, "double %.17g came back as %.17g", D[kd], d);
        c.check(so.read("i", i) && i == I[ki], "integer %lld came back as %lld", I[ki], i); c.check(so.read("b", bb) && bb == b, "bool came back wrong");
        c.check(so.read("f", f) && f == (float)D[kd == 4 || kd == 3 || kd == 5 ? 2 : kd], "float came back as %.9g", f); c.check(so.read("s", s) && s == STR[ks], "string '%s' came back as '%s'", STR[ks], s.c_str());
        c.check(so.read("t", t) && t.matrix() == pose(ki).matrix(), "transform came back wrong"); so.read("c", cov); bool ok = true; for (int a = 0; a < 36; ++a) ok = ok && cov(a / 6, a % 6) == a * D[kd == 4 ? 2 : kd] + ki; c.check(ok, "covariance came back wrong");
        int keep = 5; c.check(!so.read("missing", keep) && keep == 5, "reading a missing key succeeded"); c.check(so.hasKey("d") && !so.hasKey("x"), "hasKey is wrong");
        so.end();
    }, "key/value storage of every supported type");
    e.add("factory", 1, 1, 1, false, [](Ctx& c) {
        static char const* N[] = { "envire::TMap", "TMap", "other::ns::TMap", "envire::NoSuchClass", "NoSuchClass", "XTMap", "", "::" }; int k = c.choose(8); c.step();
        SerializationFactory::addClass("TMap", SerializationFactory::getMap()["envire::TMap"]);
        BinarySerialization o, i; TMap::Ptr m = new TMap("/m", 3); BinaryEvent ev(event::ITEM, event::ADD, "/m", ""); o.serializeBinaryEvent(m.get(), ev);
        std::string y(ev.yamlProperties.begin(), ev.yamlProperties.end()); size_t p = y.find("envire::TMap"); c.check(p != std::string::npos, "the class is not part of the event"); 
        bool qt = y[p - 1] == '\''; y.replace(qt ? p - 1 : p, qt ? 14 : 12, std::string("\"") + N[k] + "\""); ev.className = N[k]; ev.yamlProperties.assign(y.begin(), y.end());
        bool t = false; EnvironmentItem::Ptr r; try { r = i.unserializeBinaryEvent(ev); } catch (std::exception&) { t = true; }
        c.check(t == (k >= 3), "class name '%s' was %s", N[k], t ? "rejected" : "accepted"); if (r) c.check(content(r.get()) == content(m.get()), "content differs");
    }, "class lookup by full and by unqualified name");
    return e.main(argc, argv);
}
