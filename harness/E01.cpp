// E01: ownership, lifetime and identity of items across attach / detach / move / environment destruction.
#include "envmodel.hpp"
using namespace tmod; using namespace mc; using namespace envire;
struct It { EnvironmentItem* raw; EnvironmentItem::Ptr user; int env; std::string id; int kind; bool alive; };
struct W {
    std::unique_ptr<Environment> e[2]; std::string prefix[2]; std::vector<It> it; long base;
};
static EnvironmentItem* make(int kind, std::string const& id) {
    EnvironmentItem* i = kind == 0 ? (EnvironmentItem*)new TMap(id, 1) : kind == 1 ? (EnvironmentItem*)new TLayer(id, 2) : (EnvironmentItem*)new TOp(id);
    return i;
}
static std::string norm(std::string p) { if (p.empty() || p[0] != '/') p = "/" + p; if (p[p.size() - 1] != '/') p += "/"; return p; }
// the id the documentation promises: exact (star empty) or prefix followed by a unique number
static bool idOk(std::string const& want, bool numbered, std::string const& got) {
    if (!numbered) return want == got;
    if (got.compare(0, want.size(), want) != 0 || got.size() == want.size()) return false;
    for (size_t i = want.size(); i < got.size(); ++i) if (!isdigit(got[i])) return false;
    return true;
}
static void verify(Ctx& c, W& w) {
    long alive = 0;
    for (size_t i = 0; i < w.it.size(); ++i) {
        It& x = w.it[i]; if (!x.alive) continue; ++alive;
        c.check((x.env >= 0) == x.raw->isAttached(), "attached state of item %zu is wrong", i);
        c.check(x.raw->getEnvironment() == (x.env < 0 ? (Environment*)0 : w.e[x.env].get()), "item %zu belongs to the wrong environment", i);
        if (x.env >= 0) c.check(x.raw->getUniqueId() == x.id, "id of attached item %zu changed from %s to %s", i, x.id.c_str(), x.raw->getUniqueId().c_str());
        c.check(x.raw->getRefCount() == (x.env >= 0) + (x.user ? 1 : 0), "item %zu has %ld references", i, x.raw->getRefCount());
    }
    c.check(live == alive, "%ld instances alive, expected %ld", live, alive);
    for (int k = 0; k < 2; ++k) if (w.e[k]) {
        std::set<EnvironmentItem*> want, got; std::set<std::string> ids; int n[3] = { 0, 0, 0 };
        for (auto& x : w.it) if (x.alive && x.env == k) { want.insert(x.raw); ++n[x.kind]; }
        want.insert(w.e[k]->getRootNode());
        for (auto* p : w.e[k]->getItems<EnvironmentItem>()) { c.check(got.insert(p).second, "item listed twice"); c.check(ids.insert(p->getUniqueId()).second, "id %s used twice", p->getUniqueId().c_str()); c.check(w.e[k]->getItem(p->getUniqueId()).get() == p, "lookup by id returns another item"); }
        c.check(want == got, "environment %d lists %zu items, expected %zu", k, got.size(), want.size());
        c.check((int)w.e[k]->getItems<TMap>().size() == n[0] && (int)w.e[k]->getItems<Layer>().size() == n[0] + n[1] && (int)w.e[k]->getItems<Operator>().size() == n[2], "typed listing is wrong");
        for (auto& x : w.it) if (x.alive && x.env == k) {
            c.check((w.e[k]->getItem<TMap>(x.id).get() != 0) == (x.kind == 0) && (w.e[k]->getItem<Layer>(x.id).get() != 0) == (x.kind != 2), "typed lookup of %s is wrong", x.id.c_str());
        }
        auto only = [&](int cnt, std::function<EnvironmentItem* ()> f) {
            EnvironmentItem* r = 0; bool thrown = false; try { r = f(); } catch (std::runtime_error&) { thrown = true; }
            c.check(thrown == (cnt != 1) && (thrown || r), "lookup of the only item of a type with %d candidates", cnt);
        };
        only(n[0], [&] { return (EnvironmentItem*)w.e[k]->getItem<TMap>().get(); });
        only(n[0] + n[1], [&] { return (EnvironmentItem*)w.e[k]->getItem<Layer>().get(); });
        only(n[2], [&] { return (EnvironmentItem*)w.e[k]->getItem<TOp>().get(); });
        only(1, [&] { return (EnvironmentItem*)w.e[k]->getItem<FrameNode>().get(); });
        c.check(!w.e[k]->getItem("/nonexistent") && !w.e[k]->getItem(""), "lookup of an unknown id returns an item");
        c.check(w.e[k]->getEnvironmentPrefix() == w.prefix[k], "prefix is %s, expected %s", w.e[k]->getEnvironmentPrefix().c_str(), w.prefix[k].c_str());
    }
}
static void dead(W& w) { for (auto& x : w.it) if (x.alive && x.env < 0 && !x.user) x.alive = false; }
static void history(Ctx& c, std::vector<std::string> const& ids, int maxItems, bool two, bool prefixes) {
    c.check(live == 0, "instances left over");
    {
        W w; w.e[0].reset(new Environment()); w.prefix[0] = w.prefix[1] = "/"; if (two) w.e[1].reset(new Environment());
        verify(c, w);
        for (int step = 0; step < c.bound; ++step) {
            std::vector<std::function<void ()> > op; std::vector<std::string> nm;
            auto add = [&](std::string s, std::function<void ()> f) { nm.push_back(s); op.push_back(f); };
            if ((int)w.it.size() < maxItems) for (int k = 0; k < (int)ids.size(); ++k)
                add("new item with id '" + ids[k] + "'", [&, k] { It x; x.kind = w.it.size() % 3; x.raw = make(x.kind, ids[k]); x.user = x.raw; x.env = -1; x.id = ids[k]; x.alive = true; w.it.push_back(x); });
            for (size_t i = 0; i < w.it.size(); ++i) if (w.it[i].alive) {
                for (int k = 0; k < 2; ++k) if (w.e[k]) add("attach item " + std::to_string(i) + " to environment " + std::to_string(k), [&, i, k] {
                    It& x = w.it[i];
                    std::string want = x.id; bool numbered = false;
                    if (x.env < 0) { if (want == "") want = w.prefix[k]; if (want[0] != '/') want = w.prefix[k] + want; if (want[want.size() - 1] == '/') numbered = true; }
                    bool taken = false; for (auto& y : w.it) if (y.alive && y.env == k && !numbered && y.id == want) taken = true; if (want == "/0" && !numbered) taken = true;
                    bool thrown = false; EnvironmentItem::Ptr guard = x.user ? x.user : EnvironmentItem::Ptr();
                    try { w.e[k]->attachItem(x.raw); } catch (std::runtime_error&) { thrown = true; }
                    c.check(thrown == taken, "attaching id %s: %s", want.c_str(), thrown ? "rejected although the id is free" : "accepted although the id is in use");
                    if (!thrown) { x.env = k; c.check(idOk(want, numbered, x.raw->getUniqueId()), "id '%s' became '%s', expected %s%s", x.id.c_str(), x.raw->getUniqueId().c_str(), want.c_str(), numbered ? "<number>" : ""); x.id = x.raw->getUniqueId(); }
                    else { x.id = x.raw->getUniqueId(); c.check(x.id == want || x.env < 0, "a rejected item changed its id"); }
                });
                It& x = w.it[i];
                if (x.env >= 0) {
                    add("detach item " + std::to_string(i) + " and keep it", [&, i] { It& x = w.it[i]; x.user = w.e[x.env]->detachItem(x.raw); c.check(x.user.get() == x.raw, "detach returned a different item"); x.env = -1; });
                    add("detach item " + std::to_string(i) + " and drop the result", [&, i] { It& x = w.it[i]; x.raw->detach(); x.env = -1; dead(w); });
                    add("set the id of attached item " + std::to_string(i), [&, i] { bool t = false; try { w.it[i].raw->setUniqueId("/q"); } catch (std::logic_error&) { t = true; } c.check(t, "the id of an attached item could be changed"); });
                } else add("set the id of detached item " + std::to_string(i), [&, i] { w.it[i].raw->setUniqueId("n/"); w.it[i].id = "n/"; });
                if (x.user) add("release item " + std::to_string(i), [&, i] { w.it[i].user = 0; dead(w); });
            }
            for (int k = 0; k < 2; ++k) if (w.e[k]) {
                add("destroy environment " + std::to_string(k), [&, k] { w.e[k].reset(); for (auto& x : w.it) if (x.env == k) x.env = -1; dead(w); });
                if (prefixes) { static char const* P[] = { "p", "/p/", "a/b", "/" }; for (int q = 0; q < 4; ++q) if (norm(P[q]) != w.prefix[k]) add(std::string("set prefix ") + P[q], [&, k, q] { w.e[k]->setEnvironmentPrefix(P[q]); w.prefix[k] = norm(P[q]); }); }
            }
            if (op.empty()) break;
            int k = c.choose(op.size()); c.note("%s", nm[k].c_str()); c.step();
            op[k]();
            verify(c, w);
            uint64_t h = mix(w.e[0] ? 1 : 0, w.e[1] ? 1 : 0); h = mix(h, hashStr(w.prefix[0] + w.prefix[1]));
            for (auto& x : w.it) { h = mix(h, x.alive); h = mix(h, x.kind); h = mix(h, x.env + 2); h = mix(h, x.user ? 1 : 0); h = mix(h, hashStr(x.alive ? x.id : "")); }
            // id counters are hidden state: the last operation kind distinguishes most of them
            h = mix(h, hashStr(nm[k]));
            c.state(h, c.bound - 1 - step); c.outcome(h);
        }
        bool rev = c.flag("destruction order");
        for (int k = 0; k < 2; ++k) { int q = rev ? 1 - k : k; if (w.e[q]) { w.e[q].reset(); for (auto& x : w.it) if (x.env == q) x.env = -1; dead(w); verify(c, w); } }
        for (auto& x : w.it) if (x.alive) { c.check(!x.raw->isAttached(), "item still attached after its environment died"); x.user = 0; dead(w); verify(c, w); }
    }
    c.check(live == 0, "%ld items leaked", live);
}
int main(int argc, char** argv) {
    Engine e;
    e.add("two_envs", 6, 8, 2, true, [](Ctx& c) { history(c, { "/x", "" }, 2, true, false); }, "two environments, up to two items: create, attach, move between environments, detach, release, destroy environments");
    e.add("ids", 5, 7, 2, true, [](Ctx& c) { history(c, { "", "x", "/x", "n/", "/p/", "/p/2", "/2", "/0" }, 3, false, false); }, "three items with every kind of id request");
    e.add("prefix", 5, 7, 2, true, [](Ctx& c) { history(c, { "", "x", "/p/x", "/p/1" }, 2, false, true); }, "prefix changes between attachments");
    e.add("many", 8, 10, 2, true, [](Ctx& c) { history(c, { "n/", "/n/3" }, 4, false, false); }, "generated numbers against explicitly numbered ids");
    e.add("numbering", 5, 6, 2, false, [](Ctx& c) {
        // every sequence of attachments with generated and explicit numbers in one name space
        { Environment env; std::set<std::string> used; used.insert("/0");
        for (int i = 0; i < c.bound; ++i) {
            int k = c.choose(6, "id request"); static char const* ID[] = { "n/", "/n/1", "/n/2", "/n/3", "/n/4", "/n/5" };
            EnvironmentItem::Ptr it = make(i % 3, ID[k]); bool thrown = false; c.step();
            try { env.attachItem(it.get()); } catch (std::exception&) { thrown = true; }
            if (k == 0) { c.check(!thrown, "no number was found for 'n/' although numbers are free"); std::string id = it->getUniqueId(); c.check(idOk("/n/", true, id) && !used.count(id), "'n/' became '%s'", id.c_str()); used.insert(id); }
            else { c.check(thrown == (used.count(ID[k]) > 0), "id %s %s", ID[k], thrown ? "rejected although free" : "accepted although in use"); used.insert(ID[k]); }
            for (auto& u : used) c.check(env.getItem<EnvironmentItem>(u).get() != 0, "%s cannot be found", u.c_str());
        }
        c.check(env.getItems<EnvironmentItem>().size() == used.size(), "%zu items attached, expected %zu", env.getItems<EnvironmentItem>().size(), used.size()); }
        c.check(live == 0, "%ld items leaked", live);
    }, "every sequence of attachments with generated numbers and explicitly numbered ids");
    e.add("idparts", 1, 1, 1, false, [](Ctx& c) {
        static char const* ID[] = { "/a", "/a/b", "/a/b/7", "/7", "x", "/p/q/r-1" }; static char const* P[] = { "", "/a", "/a/b", "", "", "/p/q" }; static char const* S[] = { "a", "b", "7", "7", "x", "r-1" };
        int k = c.choose(6); TLayer l(ID[k]); c.step();
        c.check(l.getUniqueIdPrefix() == P[k] && l.getUniqueIdSuffix() == S[k], "parts of %s are '%s' and '%s'", ID[k], l.getUniqueIdPrefix().c_str(), l.getUniqueIdSuffix().c_str());
        bool t = false; long v = 0; try { v = l.getUniqueIdNumericalSuffix(); } catch (std::exception&) { t = true; }
        c.check(S[k][0] == '7' ? !t && v == 7 : t, "numerical suffix of %s", ID[k]);
        TLayer copy(l); copy.setUniqueId("/z"); TLayer d(copy); c.check(!d.isAttached() && d.getUniqueId() == "", "a copied item keeps the id");
    }, "parts of an id");
    return e.main(argc, argv);
}
