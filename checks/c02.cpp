// C02: the commands of a request run once each, in order, before its reply.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C02"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; auto T = thorough();
    const uint16_t P = 7892, Q = 7893;
    struct Gen { int nc = 0; uint64_t off = 0; uint32_t pkt = 200, n = 10; };
    auto cmd = [=](Gen &g, char k) -> std::string {
        switch (k) {
        case 'C': return cCompute(1000u << g.nc++);
        case 'S': { g.off += 40; return cStore(g.n = 10 + (g.n - 7) % 24, false, g.off); } // ranges within the initial extent of the file
        case 'Y': { g.off += 40; return cStore(g.n = 10 + (g.n - 7) % 24, true, g.off); }
        case 'L': { g.off += 40; return cLoad(g.n = 10 + (g.n - 7) % 24, g.off); }
        case 'F': return cFwd(P, g.pkt += 4, 0, 0, 1) + cCompute(7) + cReply(40) ;
        case 'G': return cFwd(Q, g.pkt += 4, 0, 0, 1) + cFwd(P, 100) + cStore(9999) + cReply(21) + cCompute(5) + cReply(40);
        case 'M': { uint32_t p = g.pkt += 4; return cFwd(P, p, 0, 0, 1, W_TCP, true) + cFwd(Q, g.pkt += 4, 0, 0, 1, W_TCP, true) + cCompute(5) + cReply(40, 2); }
        } return "";
    };
    // a chain, the reply, and commands behind the reply that must not be executed
    auto chain = [=](Gen &g, const std::string &ks, uint32_t resp) { std::string s; for (char k : ks) s += cmd(g, k); s += cReply(resp); Gen h = g; h.nc += 8; h.off += 100000; s += cmd(h, 'C') + cmd(h, 'S') + cReply(resp + 1); return s; };
    NodeScenario last;
    auto add = [&](const std::string &name, std::vector<std::vector<std::string>> cl, int budget, bool shortIO = false) {
        NodeScenario n; n.name = name; n.budget = budget; Gen g; uint32_t id = 5, resp = 20; bool t = false;
        for (auto &c : cl) { ClientSpec cs; for (auto &ks : c) { cs.reqs.push_back({id++, chain(g, ks, resp), 0}); resp += 5; if (ks.find_first_of("FGM") != std::string::npos) t = true; } n.clients.push_back(cs); }
        if (t) n.targets = {P, Q};
        n.checkFwd = cl.size() == 1 && cl[0].size() == 1;
        n.opts = [=](Options &o) { o.cputick = 50 * US; o.shortIO = shortIO; };
        n.args = {"-s", "/data/store", "-m", "1000000"};

        auto N = std::make_shared<std::vector<ClientSpec>>(n.clients);
        n.final = [N](CtxP x, Kernel &k) { checkOrder(x, k, *N); };
        S.push_back(toScenario(n)); last = n;
    };
    std::vector<std::string> all; const std::string A = "CSLF", B = "CSLFYGM";
    for (char a : B) all.push_back(std::string(1, a));
    for (char a : B) for (char b : B) all.push_back({a, b});
    for (char a : A) for (char b : A) for (char c : A) all.push_back({a, b, c});
    if (T) for (char a : A) for (char b : A) for (char c : A) for (char d : A) all.push_back({a, b, c, d});
    for (auto &c : all) add("one-" + c, {{c}}, T ? 3 : 2);
    // two requests on one connection, and on two connections
    std::vector<std::string> two = {"C", "S", "F", "CS", "SC", "FC", "LS", "SF", "FS", "CF"};
    for (auto &a : two) for (auto &b : two) { add("pipe-" + a + "-" + b, {{a, b}}, T ? 3 : 2); add("conn-" + a + "-" + b, {{a}, {b}}, T ? 3 : 2); }
    for (auto &a : {"CSC", "SCS", "FSF", "LCS"}) add(std::string("three-") + a, {{a, "S", "FC"}}, T ? 3 : 2);
    for (auto &a : {"S", "L", "SL", "SCS"}) add(std::string("short-") + a, {{a}}, T ? 4 : 3, true);
    // two workers that compute at the same time, each interrupted anywhere: the time asked for is the time of the worker itself
    for (auto &a : {"C", "SC", "CF", "CC", "CS"}) for (auto &b : {"C", "FC", "CC", "CL"}) for (auto &m : {"shared", "parent"}) {
        if (!T && (strlen(b) > 1 ? strcmp(b, "FC") != 0 || strlen(a) > 1 : strlen(a) > 1 && m[0] == 's')) continue;
        add(strf("workers-%s-%s-%s", m, a, b), {{a}, {b}}, T ? 3 : 2);
        S.back() = toScenario([&] { NodeScenario n = last; n.args.insert(n.args.end(), {"--nt", "2", "-a", m}); n.opts = [](Options &o) { o.cputick = 250 * US; o.cpuPoints = true; }; return n; }());
    }
    // computations of any length a request can hold, alone and after another command
    for (int pre = 0; pre < 3; pre++) for (uint32_t us : {0u, 1u, 255u, 256u, 32768u, 65535u, 65536u, 70000u, 999999u, 1000000u, 1000001u, 16777216u, 2147483u * 1000u, 2147483648u, 4294967295u}) {
        add(strf("length-%d-%u", pre, us), {{"C"}}, T ? 3 : 2);
        NodeScenario n = last; int64_t tick = std::max((int64_t)US / 4, (int64_t)us * US / 64);
        n.clients[0].reqs = {{5, (pre == 1 ? cStore(10, false, 40) : pre == 2 ? cFwd(P, 204, 0, 0, 1) + cReply(40) : "") + cCompute(us) + cReply(20)}}; if (pre == 2) n.targets = {P};
        n.opts = [=](Options &o) { o.cputick = tick; };
        n.final = [=](CtxP x, Kernel &k) {
            int64_t cpu = 0; size_t at = 0; for (size_t i = 0; i < k.trace.size(); i++) if (k.trace[i].k == E_CPU && k.trace[i].proc == 0) { cpu += k.trace[i].a; at = i; }
            if (cpu < us * (int64_t)US || cpu > us * (int64_t)US + 8 * tick + 2 * US) violate("a computation of %u us took %ld us of processor time", us, (long)(cpu / US));
            auto sent = sentMsgs(k); if (cpu && (sent.empty() || sent.back().first < at)) violate("the reply was sent before the end of the computation");
        };
        S.push_back(toScenario(n)); S.erase(S.end() - 2);
    }
    return runCheck(spec, argc, argv);
}
