// Parts of the programs called directly (units/<check>.c), and a search of all their states.
#pragma once
#include "common.h"
#include <climits>

static std::function<void()> unitBody; // what the unit program runs
extern "C" __attribute__((visibility("default"), used)) int verif_unit(void) { unitBody(); return 0; }

// runs body inside a simulated program that contains units/<check>.c; exit() of the code under test is a violation unless body expects it
inline Proc *spawnUnit(const std::string &check, std::function<void(Module *)> body) {
    Module *m = loadModule(libPath("unit_" + check)); unitBody = [=] { body(m); };
    return spawnProgram(m, "unit", {"unit"});
}
template <class F> F *usym(Module *m, const char *n) { void *p = moduleSym(m, n); if (!p) { fprintf(stderr, "no symbol %s\n", n); _exit(3); } return (F *)p; }
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h ^ h >> 29; }

struct UnitModel {
    virtual ~UnitModel() {}
    virtual void init() = 0;                       // creates the structure under test and the reference
    virtual int ops() = 0;
    virtual bool enabled(int op) = 0;
    virtual void apply(int op) = 0;                // on both
    virtual std::string judge() = 0;               // empty if they agree
    virtual std::string probe() { return ""; }     // more judging that may change the structure
    virtual std::string opName(int op) = 0;
    virtual std::string save() = 0;                // of the reference
    virtual void load(const std::string &) = 0;
};
// All the reachable states: a state is the memory of the code under test together with the reference.
// If the code allocates memory while working, its state cannot be put back: all the sequences up to a length instead.
inline void searchStates(UnitModel &m, size_t maxStates, int maxDepth, int fallbackDepth) {
    struct N { int parent, op, depth; std::string mem, ref; }; std::deque<N> v; std::unordered_set<uint64_t> seen1; std::unordered_set<uint64_t> seen2;
    auto pathOf = [&](int i, int op) { std::string s = op >= 0 ? m.opName(op) : ""; for (; i > 0; i = v[i].parent) s = m.opName(v[i].op) + ", " + s; return s; };
    auto add = [&](int parent, int op, int depth) {
        N n{parent, op, depth, heapBytes(), m.save()}; std::string all = n.mem + "|" + n.ref; uint64_t h1 = hashStr(all), h2 = hashStr(all, 88172645463325252ull); unitStep(h1);
        if (!seen1.insert(h1).second & !seen2.insert(h2).second) return;
        v.push_back(std::move(n));
    };
    m.init(); std::string e = m.judge(); if (!e.empty()) violate("initially: %s", e.c_str());
    uint64_t gen = heapGen(); add(-1, -1, 0); bool allocates = false;
    K->noWatch = true;
    for (size_t i = 0; i < v.size() && !allocates; i++) {
        if (v[i].depth >= maxDepth) continue;
        for (int op = 0; op < m.ops(); op++) {
            heapPut(v[i].mem); m.load(v[i].ref); if (!m.enabled(op)) continue;
            K->noWatch = false; m.apply(op); if (heapGen() != gen) { allocates = true; break; } // only the code under test is watched for endless loops
            e = m.judge(); K->noWatch = true; if (e.empty() && !heapIntact()) e = "a memory block was overrun";
            if (!e.empty()) violate("after %s: %s", pathOf((int)i, op).c_str(), e.c_str());
            if (v.size() < maxStates) add((int)i, op, v[i].depth + 1);
            K->noWatch = false; e = m.probe(); K->noWatch = true; if (!e.empty()) violate("after %s, %s", pathOf((int)i, op).c_str(), e.c_str());
        }
    }
    if (!allocates) { recordOutcome(strf("%zu states", v.size())); if (v.size() >= maxStates) capReached(); return; }
    // the code under test manages memory itself
    K->noWatch = false;
    std::vector<int> path; std::function<void()> rec = [&] {
        if ((int)path.size() >= fallbackDepth) return;
        for (int op = 0; op < m.ops(); op++) {
            m.init(); for (int o : path) m.apply(o);
            if (!m.enabled(op)) continue;
            m.apply(op); path.push_back(op); e = m.judge(); if (e.empty()) e = m.probe(); unitStep(hashStr(m.save()));
            if (!e.empty()) { std::string s; for (int o : path) s += (s.empty() ? "" : ", ") + m.opName(o); violate("after %s: %s", s.c_str(), e.c_str()); }
            rec(); path.pop_back();
        }
    };
    rec();
}
