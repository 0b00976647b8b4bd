// C11: a termination signal always ends the node promptly and cleanly.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C11"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892, Q = 7893;
    struct W { std::string name, cmds; bool answers; };
    std::vector<W> ws = {
        {"idle", "", true}, {"plain", cReply(20), true}, {"compute", cCompute(200) + cReply(20), true}, {"store", cStore(2500, false, 0) + cReply(20), true}, {"load", cLoad(1500, 0) + cReply(20), true}, {"sync", cStore(100, true, 0) + cReply(20), true},
        {"fwd", cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(20), true}, {"fwd-silent", cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(20), false}, {"timed-silent", cFwd(P, 100, 700, 2, 1) + cReply(20) + cReply(20), false}, {"refused", cFwd(Q, 100, 700, 1, 1) + cReply(20) + cReply(20), false},
        {"multi", cFwd(P, 100, 700, 0, 1, W_TCP, true) + cFwd(Q, 100, 700, 0, 1, W_TCP, true) + cReply(20, 2) + cReply(20), true}, {"unread", cReply(900), true}};
    auto add = [&](const std::string &name, std::vector<std::string> args, const W &w, int clients, int sig, int budget, bool leave, bool mem = false, bool udp = false) {
        Scenario s; s.name = name; s.budget = budget; std::string lib = libPath(mem ? "node_tsan" : "node_small");
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; if (mem) { k.opt.memPoints = true; k.opt.epollOrder = k.opt.preemptEnv = false; k.opt.maxSteps = 300000; }
            CtxP x = std::make_shared<Ctx>(); x->node = spawnProgram(loadModule(lib), "node", nodeArgs(args));
            if (w.cmds.size() > 40) { if (udp) addUdpTarget(x, P); else addTarget(x, P); if (w.answers) addAnswerer(x, 1, false); }
            for (int i = 0; i < clients; i++) spawnDaemon(strf("client%d", i), [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT, udp) || x->node->exited; }); if (x->node->exited) return;
                if (udp) { Udp *u = actUdp(50000 + i); actUdpSend(u, NODE_PORT, wireMsg(1 + i, w.cmds)); actStep(); return; }
                Tcp *c = actConnect(NODE_PORT, w.name == "unread" ? 100 : 1 << 30); if (!c) return; actStep();
                if (!w.cmds.empty()) { actSend(c, wireMsg(1 + i, w.cmds) + (w.name == "unread" ? wireMsg(2 + i, w.cmds) : "")); actStep(); }
                if (leave) { actClose(c, i & 1); actStep(); }
            });
            spawnActor("signal", [=] {
                actWait("the program to be ready for signals", [=] { for (auto t : K->threads) if (t->proc == x->node && !t->isMain) return true; return listening(NODE_PORT, udp); });
                raiseSignal(x->node, sig); ns_t at = K->now; actStep();
                actWait("the node to exit after the signal", [=] { return x->node->exited; });
                if (x->node->status != 0) violate("the node exited with status %d: %s", x->node->status, x->node->err.c_str());
                if (K->now > at + 2 * MS) violate("the node exited only %ld us after the signal", (long)((K->now - at) / US));
                for (auto t : K->threads) if (t->proc == x->node && !t->done && !t->isMain) violate("a thread was still running when the process exited");
                recordOutcome(name + strf("%zu", K->trace.size()));
            });
        };
        S.push_back(s);
    };
    for (auto &w : ws) for (int sig : {SIGTERM, SIGINT}) {
        std::string n = w.name + (sig == SIGINT ? "-int" : ""); int B = T ? 5 : 4;
        add("one-" + n, {}, w, 1, sig, sig == SIGTERM ? B : B - 1, false); add("sync-" + n, {"--sync", "5"}, w, 1, sig, B - 1, false);
        if (sig == SIGTERM) { add("leave-" + n, {}, w, 1, sig, B - 1, true); add("two-" + n, {}, w, 2, sig, B - 2, false); }
        for (auto m : {"child", "shared", "parent"}) { add(n + "-" + m + "-2", {"--nt", "2", "-a", m}, w, 1, sig, sig == SIGTERM ? B - 2 : 0, false); add(n + "-" + m + "-3", {"--nt", "3", "-a", m, "--sync", "5"}, w, 2, sig, sig == SIGTERM ? 1 : 0, false); }
    }
    for (auto &w : {ws[0], ws[3], ws[5], ws[6]}) for (auto m : {"child", "parent"}) add("mem-" + w.name + "-" + m, {"--nt", "2", "-a", m}, w, 1, SIGTERM, 1, false, true);
    for (int nt = 1; nt < 3; nt++) for (auto &w : {ws[0], ws[1], ws[3]}) add(strf("udp-%s-%d", w.name.c_str(), nt), {"-b", "udp://:7891", "--nt", std::to_string(nt)}, w, 1, SIGTERM, T ? 2 : 1, false, false, true);
    return runCheck(spec, argc, argv);
}
