// C03: slow readers never lose, corrupt, reorder or stall the byte stream.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C03"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; auto T = thorough();
    const uint16_t P = 7892, Q = 7893;
    struct Kind { const char *n; std::function<std::string(uint32_t)> cmds; int status; };
    std::vector<Kind> kinds = {
        {"plain", [](uint32_t r) { return cCompute(2) + cReply(r); }, 0},
        {"store", [](uint32_t r) { return cStore(40) + cReply(r); }, 0},
        {"fwd", [=](uint32_t r) { return cFwd(P, 60, 0, 0, 1) + cReply(30) + cReply(r); }, 0},
        {"tmo", [=](uint32_t r) { return cFwd(Q, 60, 300, 0, 1) + cReply(30) + cReply(r); }, -1},
    };
    auto targets = [=](NodeScenario &n) { n.targets = {P, Q}; n.answers = false;
        auto prev = n.extra; n.extra = [=](CtxP x) { if (prev) prev(x); spawnDaemon("answers", [=] { for (;;) { auto want = [&]() -> TMsg * { for (auto &f : x->fwd) if (f.port == P && !f.answered) return &f; return nullptr; }; actWait("messages to answer", [&] { return want() != nullptr; }); answer(*x, *want()); actStep(); } }); }; };
    auto final = [](bool ordered) { return [=](CtxP x, Kernel &) { // replies that need no waiting come in the order of the requests
        if (ordered) for (auto &e : x->cl) for (size_t i = 0; i + 1 < e.got.size(); i++) if (e.got[i].id > e.got[i + 1].id) violate("replies were sent out of order"); }; };
    auto pad = [](int k, int i) { return k == 0 ? 30u + 11 * i : 25u + 13 * i; };
    // a slow client: 2-3 pipelined requests of every pair of kinds, reply larger or smaller than its receive buffer, all ways to drain it in three reads
    for (size_t a = 0; a < kinds.size(); a++) for (size_t b = 0; b < kinds.size(); b++) for (size_t cap : {1, 7, 16, 40}) {
        NodeScenario n; n.name = strf("client-%s-%s-cap%zu", kinds[a].n, kinds[b].n, cap); n.budget = T ? 2 : 1; ClientSpec c; c.rxcap = cap;
        c.reqs = {{1, kinds[a].cmds(pad(a, 0)), 0, (int8_t)kinds[a].status}, {2, kinds[b].cmds(pad(b, 1)), 0, (int8_t)kinds[b].status}, {3, cReply(17), 0}};
        c.drainSet = {1}; if (cap > 1) c.drainSet.push_back(cap / 2); if (cap > 2) c.drainSet.push_back(cap); c.drains = 3; n.clients = {c};
        if (a > 1 || b > 1) targets(n);
        n.checkFwd = a < 2 && b < 2; n.final = final(a == 0 && b == 0);
        S.push_back(toScenario(n));
    }
    // the same next to a client that reads at once
    for (size_t a = 0; a < kinds.size(); a++) for (size_t cap : {1, 16}) {
        NodeScenario n; n.name = strf("two-%s-cap%zu", kinds[a].n, cap); n.budget = T ? 2 : 1; ClientSpec c, d; c.rxcap = cap;
        c.reqs = {{1, kinds[a].cmds(33), 0, (int8_t)kinds[a].status}, {2, kinds[a].cmds(44), 0, (int8_t)kinds[a].status}}; d.reqs = {{9, kinds[a].cmds(50), 0, (int8_t)kinds[a].status}, {10, cReply(20), 0}};
        c.drainSet = {1, cap}; c.drains = 3; if (cap == 1) c.drainSet = {1}; n.clients = {c, d}; if (a > 1) targets(n); n.checkFwd = a < 2; n.final = final(a == 0);
        S.push_back(toScenario(n));
        if (cap == 1) { n.name = strf("two-slow-%s", kinds[a].n); n.clients[1].rxcap = 9; n.clients[0].rxcap = 11; n.clients[0].drainSet = {1, 11}; n.clients[1].drainSet = {4, 9}; n.clients[1].drains = 1; n.clients[0].drains = 2; S.push_back(toScenario(n)); }
    }
    // a slow forward target
    for (size_t cap : {1, 10, 25, 59, 60, 61}) for (int man = 0; man < 2; man++) {
        NodeScenario n; n.name = strf("target-cap%zu%s", cap, man ? "-handshake" : ""); n.budget = T ? 2 : 1; ClientSpec c; n.manual = man;
        for (uint32_t i = 0; i < 3; i++) c.reqs.push_back({i + 1, cFwd(P, 60 + i, 0, 0, 1) + cCompute(i + 1) + cReply(30) + cReply(20 + i), 0});
        c.reqs.push_back({7, cReply(20), 0});
        n.clients = {c}; n.targets = {P}; n.targetCap = cap; n.anyOrder = cap > 30; S.push_back(toScenario(n));
    }
    // full buffers: exactly as much as fits, at every fill level around the limit
    for (uint32_t r : {339u, 340u, 341u, 342u, 512u, 511u}) {
        NodeScenario n; n.name = strf("full-%u", r); n.budget = T ? 2 : 1; ClientSpec c, d; c.rxcap = 100; c.drains = 3; c.drainSet = {1, 50, 100}; size_t k = 1024 / r; for (uint32_t i = 0; i < k; i++) c.reqs.push_back({i, cReply(r), 0}); c.reqs.push_back({20, cStore(5) + cReply(40), 0}); d.reqs = {{1, cReply(30), 0}};
        c.reqs.pop_back(); n.clients = {c, d}; n.final = final(true); S.push_back(toScenario(n));
    }
    // beyond the node's buffer: at most that connection is given up, what was sent before is a correct prefix, everybody else is served
    for (size_t a = 0; a < 3; a++) for (uint32_t r : {300u, 700u}) {
        NodeScenario n; n.name = strf("backlog-%s-%u", kinds[a].n, r); n.budget = a == 2 && !T ? 0 : 1; ClientSpec c, d, e; c.rxcap = 8; for (uint32_t i = 0; i < 6; i++) c.reqs.push_back({i, kinds[a].cmds(r), 0, 0, false}); d.reqs = {{1, kinds[a].cmds(30), 0}, {2, cReply(20), 0}}; d.after = -1; e = d; e.after = 1;
        n.clients = {d, e}; n.clients[1].after = 0; if (a > 1) targets(n); n.checkFwd = false; auto prev = n.extra; auto cs = std::make_shared<ClientSpec>(c);
        n.extra = [=](CtxP x) { if (prev) prev(x);
            spawnActor("greedy", [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); }); Tcp *t = actConnect(NODE_PORT, 64); actStep(); std::string all; for (auto &q : cs->reqs) all += wireMsg(q.id, q.cmds, 0); actSend(t, all); actStep();
                actWait("the others", [&] { return x->cl[0].finished && x->cl[1].finished; });
                K->cur->eager = true; std::string got; std::vector<WMsg> ms; // read whatever the node still sends
                for (int i = 0; i < 2000 && !(t->rx.empty() && (t->rxeof || t->rst)) && ms.size() < cs->reqs.size(); i++) { if (!actWaitUntil("data", K->now + SEC, [&] { return !t->rx.empty() || t->rxeof || t->rst; })) break; got += actRecv(t); for (auto &m : takeMsgs(got)) ms.push_back(m); actStep(); }
                std::set<uint32_t> ids; for (auto &m : ms) { if (m.size != r || m.status || m.id >= cs->reqs.size() || !ids.insert(m.id).second) violate("a client that does not read got a wrong reply (id %u, %u bytes)", m.id, m.size); }
                if (got.size() >= HDR && get<uint32_t>(got, 4) != r) violate("a client that does not read got a corrupted message");
            }); };
        S.push_back(toScenario(n));
    }
    return runCheck(spec, argc, argv);
}
