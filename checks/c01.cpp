// C01: every request accepted over TCP gets exactly one correct reply.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C01"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios;
    auto T = thorough();
    const uint16_t P = 7892, Q = 7893;
    // request kinds; every request has its own identifier, size and reply size
    struct Kind { const char *n; std::function<std::string(uint32_t)> cmds; };
    Kind kinds[] = {
        {"plain", [](uint32_t r) { return cReply(r); }},
        {"comp", [](uint32_t r) { return cCompute(3) + cReply(r); }},
        {"store", [](uint32_t r) { return cStore(40) + cReply(r); }},
        {"load", [](uint32_t r) { return cLoad(24) + cCompute(2) + cReply(r); }},
        {"fwd", [=](uint32_t r) { return cFwd(P, 60) + cCompute(5) + cReply(30) + cReply(r); }},
        {"stld", [](uint32_t r) { return cStore(40) + cLoad(20) + cReply(r); }},
    };
    auto req = [&](int k, int i, size_t pad = 0) { static const uint32_t rs[] = {20, 64, 33, 48, 150, 17}; static const uint32_t id[] = {11, 0, 7, 1000000, 2, 3}; return Req{id[i], kinds[k].cmds(rs[i]), pad}; };
    auto usesFwd = [&](std::vector<int> ks) { for (int k : ks) if (k == 4) return true; return false; };
    auto add = [&](NodeScenario n) { S.push_back(toScenario(n)); };
    // one connection, all sequences of 2 request kinds, every cut position
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
        NodeScenario n; n.name = strf("pipe2-%s-%s", kinds[a].n, kinds[b].n); n.budget = T ? 2 : 1;
        ClientSpec c; c.reqs = {req(a, 0), req(b, 1, 90)}; c.cuts = 1; n.clients = {c};
        if (usesFwd({a, b})) n.targets = {P};
        add(n);
    }
    // one connection, all sequences of 3 kinds, no cuts
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int d = 0; d < 6; d++) {
        NodeScenario n; n.name = strf("pipe3-%s-%s-%s", kinds[a].n, kinds[b].n, kinds[d].n); n.budget = T ? 3 : 2;
        ClientSpec c; c.reqs = {req(a, 0), req(b, 1, 90), req(d, 2)}; n.clients = {c};
        if (usesFwd({a, b, d})) n.targets = {P};
        add(n);
    }
    // two cuts on a mixed pair
    for (auto pr : std::vector<std::pair<int, int>>{{1, 2}, {2, 0}, {0, 0}}) {
        NodeScenario n; n.name = strf("cut2-%s-%s", kinds[pr.first].n, kinds[pr.second].n); n.budget = T ? 1 : 0;
        ClientSpec c; c.reqs = {req(pr.first, 0), req(pr.second, 1)}; c.cuts = 2; n.clients = {c}; add(n);
    }
    // two and three connections
    for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) {
        NodeScenario n; n.name = strf("conn2-%s-%s", kinds[a].n, kinds[b].n); n.budget = T ? 3 : 2;
        ClientSpec c, d; c.reqs = {req(a, 0), req(b, 1)}; d.reqs = {req(b, 0)}; n.clients = {c, d};
        if (usesFwd({a, b})) n.targets = {P};
        add(n);
    }
    { NodeScenario n; n.name = "conn3"; n.budget = T ? 3 : 2; ClientSpec c, d, e; c.reqs = {req(1, 0)}; d.reqs = {req(2, 0)}; e.reqs = {req(4, 0)}; n.clients = {c, d, e}; n.targets = {P}; add(n); }
    // sizes at the limits of the buffers
    for (uint32_t resp : {16u, 17u, 511u, 512u, 1023u, 1024u}) for (size_t tot : {(size_t)0, (size_t)1023, (size_t)1024}) {
        NodeScenario n; n.name = strf("size-%u-%zu", resp, tot); n.budget = 1; ClientSpec c; c.reqs = {{5, cCompute(1) + cReply(resp), tot}, {6, cReply(resp), 0}}; c.cuts = tot ? 0 : 1; c.oneByOne = true; n.clients = {c}; add(n);
    }
    // two requests that together exceed the buffer sizes
    for (int k : {0, 2, 4}) {
        NodeScenario n; n.name = strf("overflow-%s", kinds[k].n); n.budget = T ? 3 : 2; ClientSpec c; c.reqs = {req(k, 0, 700), req(k, 1, 700), req(0, 2, 300)}; c.cuts = T ? 1 : 0; n.clients = {c}; if (k == 4) n.targets = {P}; add(n);
    }
    // more requests than table slots, one after the other and pipelined; the identifiers recycle
    for (int k : {0, 1, 2, 4}) for (int one = 0; one < 2; one++) {
        NodeScenario n; n.name = strf("many-%s-%s", kinds[k].n, one ? "seq" : "pipe"); n.budget = T ? 3 : 2; ClientSpec c; for (uint32_t i = 0; i < (one ? 20u : 7u); i++) c.reqs.push_back({i % 3 + (one ? 0 : i * 10), kinds[k].cmds(20 + i), 0}); c.oneByOne = one; 
        if (one) for (uint32_t i = 0; i < 20; i++) c.reqs[i].id = i;
        n.clients = {c}; n.anyOrder = one; if (k == 4) n.targets = {P}; add(n);
    }
    // one request pending for long while many others come and go
    { NodeScenario n; n.name = "long-pending"; n.budget = T ? 3 : 2; ClientSpec c, d; c.reqs = {req(4, 0)}; for (uint32_t i = 0; i < 12; i++) d.reqs.push_back({i, cReply(20 + i), 0}); d.oneByOne = true; n.clients = {c, d}; n.targets = {P}; n.answers = false;
      n.extra = [](CtxP x) { spawnActor("late-answer", [x] { actWait("the other client", [&] { return x->cl[1].finished; }); actWait("the forward", [&] { return x->unanswered() > 0; }); answer(*x, x->fwd[0]); actStep(); }); };
      add(n); }
    // forwards to two targets from one connection, answered in every order
    { NodeScenario n; n.name = "fwd-two-targets"; n.budget = T ? 3 : 2; ClientSpec c; c.reqs = {{1, cFwd(P, 60) + cReply(30) + cReply(40), 0}, {2, cFwd(Q, 60) + cReply(30) + cReply(50), 0}, {3, cReply(60), 0}}; n.clients = {c}; n.targets = {P, Q}; n.hold = 2; add(n); }
    return runCheck(spec, argc, argv);
}
