// E11: operators respect their arity, layers know their generator, updates reach exactly the right operators and layers.
#include "envworld.hpp"
using namespace tmod; using namespace mc;
struct Ups : EventListener { std::map<EnvironmentItem*, int> n; void itemModified(EnvironmentItem* i) { ++n[i]; } };
int main(int argc, char** argv) {
    Engine e;
    // model: per operator ordered sets of inputs and outputs
    auto run = [](Ctx& c, int ain, int aout) {
        {
            Environment env; TOp* op[2] = { new TOp("/o0", ain, aout), new TOp("/o1") }; Layer* L[3] = { new TLayer("/l0"), new TMap("/l1"), new TLayer("/l2") }; for (auto* o : op) env.attachItem(o); for (auto* l : L) env.attachItem(static_cast<EnvironmentItem*>(l));
            EnvironmentItem::Ptr hold[5] = { op[0], op[1], L[0], L[1], L[2] };
            Ups ups; env.addEventHandler(&ups); struct G { Environment& e; Ups& u; ~G() { e.removeEventHandler(&u); } } guard = { env, ups };
            std::set<int> in[2], out[2]; int ar[2][2] = { { ain, aout }, { 0, 0 } }; int runs[2] = { 0, 0 }; bool dirty[3] = { false, false, false };
            for (int s = 0; s < c.bound; ++s) {
                std::vector<std::function<void ()> > fn; std::vector<std::string> nm; auto add = [&](std::string n, std::function<void ()> f) { nm.push_back(n); fn.push_back(f); };
                for (int o = 0; o < 2; ++o) for (int l = 0; l < 3; ++l) for (int k = 0; k < 2; ++k) {
                    std::set<int>& R = k ? out[o] : in[o]; int A = ar[o][k]; std::string t = std::string(k ? "output" : "input") + " l" + std::to_string(l) + " of o" + std::to_string(o);
                    if (!R.count(l)) add("add " + t, [&, o, l, k, A] { std::set<int>& R = k ? out[o] : in[o]; bool full = A && (int)R.size() >= A, thrown = false; try { if (k) op[o]->addOutput(L[l]); else op[o]->addInput(L[l]); } catch (std::runtime_error&) { thrown = true; } c.check(thrown == full, "adding %s number %zu to an operator that allows %d was %s", k ? "output" : "input", R.size() + 1, A, thrown ? "rejected" : "accepted"); if (!full) R.insert(l); });
                    add("set " + t, [&, o, l, k] { std::set<int>& R = k ? out[o] : in[o]; bool r = k ? op[o]->setOutput(L[l]) : op[o]->setInput(L[l]); c.check(r, "setting a connection failed"); R.clear(); R.insert(l); });
                    if (R.count(l)) add("remove " + t, [&, o, l, k] { if (k) { op[o]->removeOutput(L[l]); out[o].erase(l); } else { op[o]->removeInput(L[l]); in[o].erase(l); } });
                }
                for (int l = 0; l < 3; ++l) {
                    bool gen = out[0].count(l) || out[1].count(l);
                    add("detach l" + std::to_string(l) + " from its operator", [&, l] { bool two = out[0].count(l) && out[1].count(l); bool r = L[l]->detachFromOperator(); c.check(r, "a layer could not be detached from its operator"); if (two) { Operator* g = L[l]->getGenerator(); c.check(g == op[0] || g == op[1], "no generator left"); out[g == op[0] ? 1 : 0].erase(l); } else { out[0].erase(l); out[1].erase(l); c.check(!L[l]->isGenerated(), "a detached layer is still generated"); } });
                    if (l != 1) add("mark l" + std::to_string(l) + " dirty", [&, l] { L[l]->setDirty(); dirty[l] = true; });
                    if (!(out[0].count(l) && out[1].count(l)) && l != 1) add("update l" + std::to_string(l) + " from its operator", [&, l, gen] { L[l]->updateFromOperator(); if (gen && dirty[l]) { ++runs[out[0].count(l) ? 0 : 1]; dirty[l] = false; } if (gen) c.check(!L[l]->isDirty(), "an updated layer is still dirty"); });
                }
                add("update all operators", [&] { ups.n.clear(); env.updateOperators(); for (int o = 0; o < 2; ++o) ++runs[o]; for (int l = 0; l < 3; ++l) { int want = out[0].count(l) + out[1].count(l); c.check(ups.n[L[l]] == want, "l%d was announced %d times as modified, %d operators generate it", l, ups.n[L[l]], want); } });
                int k = c.choose(fn.size()); c.note("%s", nm[k].c_str()); c.step(); fn[k]();
                uint64_t h = 3;
                for (int o = 0; o < 2; ++o) {
                    c.check(op[o]->runs == runs[o], "operator o%d ran %d times, expected %d", o, op[o]->runs, runs[o]);
                    for (int k = 0; k < 2; ++k) {
                        std::list<Layer*> g = k ? env.getOutputs(op[o]) : env.getInputs(op[o]); std::set<Layer*> gs(g.begin(), g.end()), ws; for (int l : (k ? out[o] : in[o])) { ws.insert(L[l]); h = mix(h, l * 4 + k * 2 + o + 1); }
                        c.check(g.size() == gs.size() && gs == ws, "%s of o%d are wrong", k ? "outputs" : "inputs", o);
                        // typed access: exactly one of that type, otherwise an error
                        for (int ty = 0; ty < 3; ++ty) { int cnt = 0; Layer* the = 0; for (auto* x : ws) if (ty == 0 ? dynamic_cast<TLayer*>(x) != 0 : ty == 1 ? dynamic_cast<TMap*>(x) != 0 : dynamic_cast<TMapB*>(x) != 0) { ++cnt; the = x; } Layer* got = 0; bool th = false;
                            try { if (k) got = ty == 0 ? (Layer*)op[o]->getOutput<TLayer*>() : ty == 1 ? (Layer*)op[o]->getOutput<TMap*>() : (Layer*)op[o]->getOutput<TMapB*>(); else got = ty == 0 ? (Layer*)op[o]->getInput<TLayer*>() : ty == 1 ? (Layer*)op[o]->getInput<TMap*>() : (Layer*)op[o]->getInput<TMapB*>(); } catch (std::runtime_error&) { th = true; }
                            c.check(th == (cnt != 1) && (th || got == the), "typed %s access with %d candidates %s", k ? "output" : "input", cnt, th ? "failed" : "returned the wrong layer"); }
                    }
                }
                for (int l = 0; l < 3; ++l) {
                    Operator* g = L[l]->getGenerator(); bool any = out[0].count(l) || out[1].count(l); c.check(L[l]->isGenerated() == any && (g != 0) == any && (!any || (g == op[0] && out[0].count(l)) || (g == op[1] && out[1].count(l))), "generator of l%d is wrong", l); h = mix(h, dirty[l] * 8 + l);
                    c.check(L[l]->isDirty() == dirty[l], "dirty flag of l%d is wrong", l);
                    std::multiset<Layer*> w, r; std::multiset<TMap*> wt, rt; for (int o = 0; o < 2; ++o) if (in[o].count(l)) for (int q : out[o]) { w.insert(L[q]); if (q == 1) wt.insert(dynamic_cast<TMap*>(L[q])); }
                    for (auto* x : env.getLayersGeneratedFrom(L[l])) r.insert(x); c.check(w == r, "layers generated from l%d are wrong", l);
                    for (auto* x : env.getGeneratedFrom<TMap*>(L[l])) rt.insert(x); c.check(wt == rt, "typed layers generated from l%d are wrong", l);
                }
                c.state(h, c.bound - 1 - s); c.outcome(h);
            }
        }
        c.check(live == 0, "%ld leaked", live);
    };
    e.add("arity12", 4, 5, 2, true, [=](Ctx& c) { run(c, 1, 2); }, "an operator with one input and two outputs and an unlimited one over three layers");
    e.add("arity21", 4, 5, 2, true, [=](Ctx& c) { run(c, 2, 1); }, "an operator with two inputs and one output");
    e.add("arity00", 3, 4, 2, true, [=](Ctx& c) { run(c, 0, 0); }, "unlimited operators");
    return e.main(argc, argv);
}
