// C22: CPU lists select exactly the listed cores, and threads get them round robin.
#include "node.h"
struct It { std::string s; uint64_t m; };
static std::vector<It> items(int n, bool reversed) {
    std::vector<It> v; for (int a = 0; a < n; a++) { v.push_back({std::to_string(a), 1ull << a}); for (int b = a; b < n; b++) for (int st = 0; st <= 3; st++) { uint64_t m = 0; for (int i = a; i <= b; i += st ? st : 1) m |= 1ull << i; v.push_back({strf("%d-%d", a, b) + (st ? strf(":%d", st) : ""), m}); if (reversed && a < b && st < 2) { std::string r = strf("%d-%d", b, a) + (st ? strf(":%d", st) : ""); v.push_back({r, m}); } } }
    return v;
}
int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C22"; spec.rule = "every list of up to 3 items (core, range, range with step) over the cores of a small machine, every number of threads, on the real node; the pinning calls show the cores chosen"; spec.assumptions = simAssumptions();
    bool T = thorough();
    auto judge = [](Proc *p, std::string list, uint64_t mask, int nt, bool store, bool ok) { spawnActor("judge", [=] {
        size_t want = nt + store; auto pins = [=] { std::vector<std::pair<int, uint64_t>> v; for (auto &e : K->trace) if (e.k == E_PIN && e.obj == 1 && e.proc == p->id) v.push_back({(int)e.b, (uint64_t)e.a}); return v; };
        actWait("the threads to be pinned", [=] { return p->exited || pins().size() >= want; }); actSleepUntil(K->now + 1 * MS);
        if (!ok) { if (!p->exited || !p->status) violate("the node accepts the list %s", list.c_str()); recordOutcome("refused"); return; }
        if (p->exited) violate("the node refuses the list %s: %s", list.c_str(), p->err.c_str());
        auto v = pins(); std::sort(v.begin(), v.end()); std::vector<int> sel; for (int i = 0; i < 64; i++) if (mask >> i & 1) sel.push_back(i);
        if (v.size() != want) violate("list %s: %zu threads pinned instead of %zu", list.c_str(), v.size(), want);
        std::vector<uint64_t> got, exp; std::string d; for (auto &x : v) { got.push_back(x.second); d += strf(" %lx", (unsigned long)x.second); } for (size_t i = 0; i < want; i++) exp.push_back(1ull << sel[i % sel.size()]);
        if (store) { std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); } // which thread is the storage one does not matter
        if (got != exp) violate("list %s, %d threads%s: the threads are pinned to the cores with masks%s", list.c_str(), nt, store ? " and the storage one" : "", d.c_str());
        recordOutcome(d); }); };
    auto node = [=](Kernel &k, int ncpu, const std::string &list, uint64_t mask, int nt, bool store, int form, bool ok) {
        k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = k.opt.freeSwitch = false; k.opt.ncpu = ncpu; if (list != "auto") k.opt.cpumask = (1ull << ncpu) - 1;
        std::vector<std::string> a = {"dw_node"}; if (nt > 1) a.push_back(strf("--num-threads=%d", nt)); a.push_back("-s"); a.push_back(store ? "/data/store" : "");
        if (form == 0) { a.push_back("-c"); a.push_back(list); } else a.push_back("--thread-affinity=" + list);
        judge(spawnProgram(loadModule(libPath("node_small")), "node", a), list, mask, nt, store, ok); };
    for (int ncpu : {1, 2, 3, 4, 8}) { auto v = items(ncpu, true);
        for (int part = 0; part < 8; part++) { Scenario s; s.name = strf("two-%dcpu-%d", ncpu, part); s.budget = 0; // lists of one or two items
            s.setup = [=](Kernel &k) { if ((size_t)part >= v.size()) return; std::vector<It> mine; for (size_t i = part; i < v.size(); i += 8) mine.push_back(v[i]);
                auto &a = mine[chooseFree((int)mine.size(), "item")]; int j = chooseFree((int)(ncpu > 4 ? 1 : v.size() + 1), "item"); std::string l = a.s; uint64_t m = a.m; if (j) l += "," + v[j - 1].s, m |= v[j - 1].m;
                int nt = 1 + chooseFree(ncpu > 4 ? 9 : 6, "threads"); bool st = chooseFree(2, "storage"); node(k, ncpu, l, m, nt, st, st, true); };
            spec.scenarios.push_back(s); } }
    { int ncpu = T ? 5 : 4; auto v = items(ncpu, false); // three items
      for (size_t a = 0; a < v.size(); a++) { Scenario s; s.name = strf("three-%zu", a); s.budget = 0; s.setup = [=](Kernel &k) { auto &b = v[chooseFree((int)v.size(), "item")], &c = v[chooseFree((int)v.size(), "item")]; node(k, ncpu, v[a].s + "," + b.s + "," + c.s, v[a].m | b.m | c.m, ncpu + 1, false, 0, true); }; spec.scenarios.push_back(s); } }
    for (int ncpu : {1, 2, 4, 6}) { Scenario s; s.name = strf("auto-%dcpu", ncpu); s.budget = 0; s.setup = [=](Kernel &k) { uint64_t m = 1 + chooseFree((1 << ncpu) - 1, "allowed cores"); k.opt.cpumask = m; int nt = 1 + chooseFree(7, "threads"); bool st = chooseFree(2, "storage"); node(k, ncpu, "auto", m, nt, st, st, true); }; spec.scenarios.push_back(s); }
    { std::vector<std::string> bad = {"4", "0-4", "4-5", "7", "0,4", "0-2:0", "0-3:-1", "x", "1,x", "0,,1", ",", "1,", "a-b", "0,1,64", "1000"}; Scenario s; s.name = "refused"; s.budget = 0; s.setup = [=](Kernel &k) { node(k, 4, bad[chooseFree((int)bad.size(), "list")], 0, 2, false, chooseFree(2, "form"), false); }; spec.scenarios.push_back(s); }
    return runCheck(spec, argc, argv);
}
