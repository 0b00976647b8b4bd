// C07: store and load touch exactly the requested bytes of the storage file.
#include "node.h"

struct Op { bool st; uint64_t n, off; };  // off: -1 none
static const uint64_t NONE = (uint64_t)-1;
struct Model {
    uint64_t max, blk, pos = 0, extent = 0; bool known = true;
    uint64_t up(uint64_t v) const { return blk ? (v + blk - 1) / blk * blk : v; }
};
// checks that the accesses v[i...] are what op does; "" if so
static std::string apply(Model &m, const Op &o, const std::vector<Ev> &v, size_t &i) {
    uint64_t n = m.up(o.n), p = o.off == NONE ? m.pos : m.up(o.off), lim = std::min(m.extent, m.max); bool any = false, inside = true;
    if (o.off == NONE) { if (!m.known) any = true; else if (p + n > (o.st ? m.max : lim)) p = 0; }
    inside = o.st || m.extent > 0; // nothing was ever written: nothing can be read
    const char *w = o.st ? "store" : "load"; uint64_t done = 0, cur = p; // a load that comes to the end of the data goes on from the beginning
    while (done < n) {
        if (i >= v.size() || (v[i].k == E_WRITE) != o.st) { if (!inside) break; return strf("%s of %lu bytes: only %lu bytes were accessed", w, (unsigned long)n, (unsigned long)done); }
        uint64_t a = v[i].a, b = v[i].b;
        if (!b) { i++; continue; }
        if (any && !done) p = cur = a;
        if (!o.st && cur >= m.extent && a == 0) cur = 0;
        if (a != cur) return strf("%s of %lu bytes: %lu bytes at %lu instead of %lu", w, (unsigned long)n, (unsigned long)b, (unsigned long)a, (unsigned long)cur);
        if (done + b > n) return strf("%s of %lu bytes: %lu bytes were accessed", w, (unsigned long)n, (unsigned long)(done + b));
        done += b; cur += b; i++;
    }
    while (i < v.size() && v[i].b == 0 && (v[i].k == E_WRITE) == o.st) i++;
    if (o.st && o.off == NONE && n <= m.max && p + n > m.max) return strf("%s of %lu bytes at %lu exceeds the maximum size", w, (unsigned long)n, (unsigned long)p);
    m.pos = cur; m.known = inside; if (o.st) m.extent = std::max(m.extent, p + n);
    return "";
}
// the accesses in the trace match the operations, each connection's in order
static std::string match(Model m, std::vector<std::vector<Op>> q, const std::vector<Ev> &v, size_t i) {
    std::string first; bool empty = true;
    for (size_t c = 0; c < q.size(); c++) if (!q[c].empty()) {
        empty = false; Model n = m; auto r = q; Op o = r[c].front(); r[c].erase(r[c].begin()); size_t j = i; std::string e = apply(n, o, v, j);
        if (e.empty()) e = match(n, r, v, j);
        if (e.empty()) return "";
        if (first.empty()) first = e;
    }
    if (empty) { if (i < v.size()) return strf("%zu more accesses than asked for, the first of %ld bytes at %ld", v.size() - i, (long)v[i].b, (long)v[i].a); return ""; }
    return first;
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C07"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    enum Mode { SEQ, CHAIN, PIPE, CONNS };
    // all sequences of len operations from ops; the first ones fixed
    auto add = [&](const std::string &name, Mode mode, int len, uint64_t max, std::vector<Op> fixed, std::vector<Op> ops, int budget, bool shortIO, bool direct = false) {
        Scenario s; s.name = name; s.budget = budget; std::string lib = libPath("node_small"); auto hq = std::make_shared<std::vector<std::vector<Op>>>();
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; k.opt.shortIO = shortIO; if (shortIO) k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = false; k.opt.blksize = 64; CtxP x = std::make_shared<Ctx>();
            std::vector<std::string> a = {"--max-storage-size", std::to_string(max)}; if (direct) a.push_back("--odirect");
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs(a)); int nc = mode == CONNS ? 2 : 1; x->cl.resize(nc); hq->assign(nc, {});
            for (int c = 0; c < nc; c++) spawnActor(strf("client%d", c), [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); }); if (c) actWait("the first connection", [=] { return x->cl[0].c != nullptr; });
                Exch &e = x->cl[c]; e.c = actConnect(NODE_PORT); auto &q = (*hq)[c];
                for (int i = 0; i < len; i++) q.push_back(c == 0 && i < (int)fixed.size() ? fixed[i] : ops[ops.size() > 1 ? chooseFree((int)ops.size(), "op") : 0]);
                auto cmd = [](const Op &o) { return o.st ? cStore(o.n, false, o.off) : cLoad(o.n, o.off); };
                std::string all; uint32_t id = 1; actStep();
                if (mode == CHAIN) { for (auto &o : q) all += cmd(o); all = wireMsg(id, all + cReply(20)); e.want.push_back({id, 20, 0}); }
                else for (auto &o : q) { e.want.push_back({id, 20, 0}); std::string w = wireMsg(id++, cmd(o) + cReply(20)); if (mode == SEQ) { actSend(e.c, w); actStep(); collect(e); } else all += w; }
                if (!all.empty()) { actSend(e.c, all); actStep(); } collect(e);
            });
            addFinisher(x->node, [=] { checkClients(*x); });
        };
        s.check = [=](Kernel &k) {
            std::vector<Ev> v; for (auto &e : k.trace) if (e.proc == 0 && (e.k == E_WRITE || e.k == E_READ)) v.push_back(e);
            Model m{max, (uint64_t)(direct ? 64 : 0)}; std::string e = match(m, *hq, v, 0);
            auto text = [&] { std::string t; for (auto &q : *hq) { if (!t.empty()) t += " |"; for (auto &o : q) t += strf(" %s %lu@%ld", o.st ? "store" : "load", (unsigned long)o.n, (long)o.off); } return t; };
            if (!e.empty()) violate("%s (sequence:%s)", e.c_str(), text().c_str());
            recordOutcome(name + text()); hq->clear();
        };
        S.push_back(s);
    };
    auto cross = [](std::vector<uint64_t> sizes, std::vector<uint64_t> offs, bool st, bool ld) { std::vector<Op> v; for (auto n : sizes) for (auto o : offs) { if (st) v.push_back({true, n, o}); if (ld) v.push_back({false, n, o}); } return v; };
    auto big = cross({1, 600, 1024, 1025, 2500}, {NONE, 0, 700}, true, true), small = cross({100, 1025}, {NONE, 50}, true, true), tiny = cross({90, 300}, {NONE}, true, true);
    for (uint64_t max : {1500, 2500, 3000, 1 << 30}) {
        add(strf("seq-%lu", (unsigned long)max), SEQ, 3, max, {}, T ? cross({1, 600, 1024, 1025, 2500, 3000}, {NONE, 0, 1, 700, 1500}, true, true) : big, 0, false);
        add(strf("seq4-%lu", (unsigned long)max), SEQ, T ? 6 : 5, max, {{true, 600, NONE}}, cross({100, 900}, {NONE, 500}, true, true), 0, false);
        add(strf("chain-%lu", (unsigned long)max), CHAIN, 3, max, {}, cross({1, 600, 1025, 2500}, {NONE, 700}, true, true), 0, false);
    }
    add("wrap", SEQ, T ? 6 : 5, 1000, {}, cross({100, 250, 400, 1000}, {NONE}, true, true), 0, false); // sequences that come to the maximum size exactly
    add("stores", SEQ, 4, 2000, {}, cross({1, 500, 999, 1000, 1001, 2000}, {NONE, 1000}, true, false), 0, false);
    add("loads", SEQ, 4, 2000, {{true, 2000, NONE}}, cross({1, 500, 999, 1000, 1001, 2000}, {NONE, 1000}, false, true), 0, false);
    // short counts
    for (uint64_t max : {1500, 1 << 30}) {
        add(strf("short-%lu", (unsigned long)max), SEQ, 3, max, {{true, 2500, NONE}}, cross({2, 600, 1025, 2500}, {NONE, 0, 700}, true, true), T ? 3 : 2, true);
        add(strf("short-chain-%lu", (unsigned long)max), CHAIN, 3, max, {{true, 1500, NONE}}, cross({600, 1025}, {NONE, 700}, true, true), T ? 3 : 2, true);
    }
    add("short-deep", SEQ, 2, 1 << 30, {{true, 2500, 10}}, {{false, 1500, 100}, {true, 1500, NONE}, {false, 300, NONE}}, T ? 6 : 5, true);
    // far offsets
    add("far", SEQ, 3, 1ull << 40, {}, cross({10, 1025}, {NONE, 0, 0x7ffffff0ull, 0xfffffff0ull, 0xffffffffull, 0x100000010ull, 0x2000000000ull}, true, true), 0, false);
    // other orders of execution
    for (uint64_t max : {700, 1 << 30}) {
        add(strf("pipe-%lu", (unsigned long)max), PIPE, 3, max, {}, small, 1, false);
        add(strf("pipe-deep-%lu", (unsigned long)max), PIPE, 2, max, {}, tiny, T ? 4 : 3, false);
        add(strf("conns-%lu", (unsigned long)max), CONNS, 2, max, {}, tiny, T ? 2 : 1, false);
        add(strf("conns-off-%lu", (unsigned long)max), CONNS, 2, max, {{true, 300, 0}, {false, 20, 100}}, small, T ? 2 : 1, false);
    }
    // direct access: whole blocks of 64 bytes
    add("direct", SEQ, 3, 1024, {}, cross({1, 64, 65, 1000}, {NONE, 0, 64, 70}, true, true), 0, false, true);
    add("direct-short", SEQ, 2, 1024, {{true, 500, NONE}}, cross({64, 300}, {NONE, 100}, true, true), T ? 3 : 2, true, true);
    return runCheck(spec, argc, argv);
}
