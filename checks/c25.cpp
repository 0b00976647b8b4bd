// C25: scheduling and socket settings reach every thread and connection they are meant for.
#include "node.h"
#include "client.h"

struct Pol { std::string arg; Sched want; };
int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C25"; spec.rule = "every combination of the settings from a grid, with every number of workers, accept mode and spelling, on the real programs; the settings in force show in the calls made to the simulated kernel"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough(); const uint16_t P = 7892;
    auto sched = [](int pol, int nice, int prio, uint64_t rt = 0, uint64_t dl = 0) { Sched s; s.policy = pol; s.nice = nice; s.prio = prio; s.runtime = rt * 1000; s.deadline = s.period = dl * 1000; return s; };
    std::vector<Pol> pols = {{"", Sched()}, {"other", Sched()}, {"other:0", Sched()}, {"other:5", sched(0, 5, 0)}, {"other:-20", sched(0, -20, 0)}, {"other:19", sched(0, 19, 0)}};
    for (int p : {1, 7, 50, 99}) { pols.push_back({strf("rr:%d", p), sched(SCHED_RR, 0, p)}); pols.push_back({strf("fifo:%d", p), sched(SCHED_FIFO, 0, p)}); }
    for (auto d : std::vector<std::pair<uint64_t, uint64_t>>{{1, 2}, {1000, 10000}, {10000, 10000}, {999999, 1000000}, {3000000, 5000000}, {5000000000ull, 6000000000ull}}) pols.push_back({strf("dl:%lu,%lu", (unsigned long)d.first, (unsigned long)d.second), sched(6, 0, 0, d.first, d.second)});
    struct N { Pol pol; int nt, nodelay, backlog; std::string mode; int form; bool udp; };
    auto desc = [](const Sched &s) { return strf("policy %d, nice %d, priority %d, runtime %lu ns, deadline %lu ns, period %lu ns", s.policy, s.nice, s.prio, (unsigned long)s.runtime, (unsigned long)s.deadline, (unsigned long)s.period); };
    auto quiet = [](Kernel &k) { k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = k.opt.freeSwitch = false; k.opt.actorFree = false; };
    auto args = [](const N &n) {
        std::vector<std::string> a; auto opt = [&](const std::string &o, const std::string &alias, const std::string &v) { if (n.form == 0) { a.push_back("--" + o); a.push_back(v); } else if (n.form == 1) a.push_back("--" + o + "=" + v); else { a.push_back("--" + alias); a.push_back(v); } };
        if (!n.pol.arg.empty()) opt("sched-policy", "sched-policy", n.pol.arg); if (n.nt > 1) opt("nt", "num-threads", std::to_string(n.nt)); if (n.nodelay >= 0) opt("no-delay", "nd", std::to_string(n.nodelay)); if (n.backlog) opt("backlog-length", "bl", std::to_string(n.backlog)); if (!n.mode.empty()) opt("accept-mode", "accept-mode", n.mode);
        if (n.udp) a.push_back("-budp://:7891");
        if (n.form == 1) std::reverse(a.begin(), a.end()); // the order does not matter
        return a; };
    auto text = [](const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " " + x; return s; };
    // a node serving several clients, half of whose requests are forwarded
    auto node = [=](Kernel &k, const N &n) {
        quiet(k); auto a = args(n); std::string what = text(a); CtxP x = std::make_shared<Ctx>(); x->node = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a)); addTarget(x, P); addAnswerer(x, 1, false); int nc = n.udp ? 0 : 3; x->cl.resize(nc);
        for (int i = 0; i < nc; i++) { ClientSpec c; c.reqs = {{1, cCompute(1) + cReply(40), 0}}; if (i) c.after = i - 1; if (i == 1) c.reqs.push_back({2, cFwd(P, 60, 0, 0, 1) + cReply(20) + cReply(30), 0}); spawnActor(strf("client%d", i), [=] { clientBody(x, i, c); }); }
        if (n.udp) spawnActor("udp", [=] { Udp *u = actUdp(9000); actWait("node to listen", [] { return listening(NODE_PORT, true); }); for (int i = 0; i < 3; i++) { actUdpSend(u, NODE_PORT, wireMsg(i, cReply(20))); actStep(); actWait("reply", [=] { return !u->rx.empty(); }); u->rx.clear(); } });
        addFinisher(x->node, [=] {
            checkClients(*x); int right = 0;
            for (auto t : K->threads) if (!t->env && t->proc == x->node) {
                right += t->sched == n.pol.want;
                if (t->served && !(t->servedWith == n.pol.want)) violate("[%s] a worker serves requests with %s instead of %s", what.c_str(), desc(t->servedWith).c_str(), desc(n.pol.want).c_str());
                if (t->served && !(t->sched == n.pol.want)) violate("[%s] a worker goes on with %s instead of %s", what.c_str(), desc(t->sched).c_str(), desc(n.pol.want).c_str());
            }
            if (right < n.nt) violate("[%s] only %d threads run with %s", what.c_str(), right, desc(n.pol.want).c_str());
            int l = 0, in = 0, out = 0; int nd = n.nodelay < 0 ? 1 : n.nodelay;
            for (auto o : K->objs) if (o->kind == K_TCP) { Tcp *t = (Tcp *)o; if (t->actor) continue;
                if (t->st == Tcp::LISTENING && t->local.port == NODE_PORT && !t->closed) { l++; if (n.backlog && t->backlog != n.backlog) violate("[%s] a queue of %d pending connections instead of %d", what.c_str(), t->backlog, n.backlog); }
                if (t->sentWith) { (t->accepted ? in : out)++; if (t->sentWith != 1 << nd) violate("[%s] data was sent to a %s with TCP_NODELAY %s", what.c_str(), t->accepted ? "client" : "target", nd ? "off" : "on"); } }
            if (!n.udp && (!l || in != nc || out < 1)) violate("[%s] %d listening sockets, data sent on %d accepted and %d other connections", what.c_str(), l, in, out);
            recordOutcome(what);
        });
    };
    for (size_t p = 0; p < pols.size(); p++) { Scenario s; s.name = "node-" + (pols[p].arg.empty() ? "default" : pols[p].arg); s.budget = 0;
        s.setup = [=](Kernel &k) { N n; n.pol = pols[p]; n.nt = 1 + chooseFree(T ? 4 : 3, "workers"); n.nodelay = chooseFree(3, "no-delay") - 1; n.backlog = std::vector<int>{0, 1, 5, 6, 128, 4096}[chooseFree(6, "backlog")]; n.mode = std::vector<std::string>{"", "child", "shared", "parent"}[chooseFree(4, "mode")]; n.form = chooseFree(3, "form"); n.udp = false; node(k, n); };
        S.push_back(s);
        Scenario u; u.name = "udp-" + (pols[p].arg.empty() ? "default" : pols[p].arg); u.budget = 0; u.setup = [=](Kernel &k) { N n{pols[p], 1 + chooseFree(3, "workers"), chooseFree(3, "no-delay") - 1, 0, "", chooseFree(3, "form"), true}; node(k, n); }; S.push_back(u); }
    // settings that make no sense, or that the system refuses
    { std::vector<std::vector<std::string>> bad; for (auto v : {"rr", "fifo", "dl", "rr:", "fifo:", "dl:", "dl:5", "dl:5,", "dl:,5", "rr5", "otherx", "foo", "", "rr:x", "RR:5", "edf:1,2", "other5", "other:", "other:x"}) { bad.push_back({"--sched-policy", v}); bad.push_back({std::string("--sched-policy=") + v}); } for (auto v : {"2", "-1", "10"}) bad.push_back({std::string("--no-delay=") + v}); for (auto v : {"childs", "", "x", "Shared"}) bad.push_back({"-a", v}); for (auto v : {"0", "-1", "x", "100000"}) bad.push_back({std::string("--nt=") + v});
      Scenario s; s.name = "refused"; s.budget = 0; s.setup = [=](Kernel &k) { quiet(k); auto a = bad[chooseFree((int)bad.size(), "setting")]; Proc *p = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a)); spawnActor("judge", [=] { actSleepUntil(MS); if (!p->exited || !p->status) violate("the node accepts [%s]", text(a).c_str()); recordOutcome("refused" + text(a)); }); }; S.push_back(s);
      Scenario f; f.name = "denied"; f.budget = 0; f.setup = [=](Kernel &k) { quiet(k); k.opt.schedFail = true; auto &pl = pols[3 + chooseFree((int)pols.size() - 3, "policy")]; int nt = 1 + chooseFree(3, "workers"); std::vector<std::string> a = {"--sched-policy", pl.arg, "--nt", std::to_string(nt)}; Proc *p = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a)); spawnActor("judge", [=] { actSleepUntil(MS); if (!p->exited || !p->status) violate("the node goes on although [%s] was denied", text(a).c_str()); recordOutcome("denied" + text(a)); }); }; S.push_back(f); }
    // the client's connections, also after retries
    for (int nt = 1; nt <= 2; nt++) for (int ns = 1; ns <= 3; ns++) { Scenario s; s.name = strf("client-%d-%d", nt, ns); s.budget = 0;
        s.setup = [=](Kernel &k) { quiet(k); int nd = chooseFree(3, "no-delay") - 1, form = chooseFree(4, "form"), late = chooseFree(3, "retries"); std::vector<std::string> a = {"--num-threads", std::to_string(nt), "--num-sessions", std::to_string(ns), "-n", std::to_string(2 * ns), "-p", "100", "--retry-num", "3", "--retry-period", "200"}; std::string file; std::string v = std::to_string(nd);
            if (nd >= 0) { if (form == 0) { a.push_back("--no-delay"); a.push_back(v); } else if (form == 1) a.push_back("--no-delay=" + v); else if (form == 2) { a.push_back("--nd"); a.push_back(v); } else { file = "--no-delay=" + v + "\n"; a.push_back("-f"); a.push_back("script.txt"); } }
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(libPath("client_small")), "client", clientArgs(a)); w->cl->files["script.txt"] = file;
            auto start = [=] { addServer(w, nt * ns, [=](int) { SrvOpt o; o.pps = 2; return o; }); }; if (!late) start(); else spawnActor("server starts", [=] { actSleepUntil(late * 200 * MS - 100 * MS); start(); actStep(); });
            spawnActor("judge", [=] { actWait("the client to end", [=] { return w->cl->exited; }); std::string what = text(a); if (w->cl->status) violate("[%s] exit status %d: %s", what.c_str(), w->cl->status, w->cl->err.c_str()); int n = 0, want = nd < 0 ? 1 : nd;
                for (auto o : K->objs) if (o->kind == K_TCP && !((Tcp *)o)->actor && ((Tcp *)o)->sentWith) { n++; if (((Tcp *)o)->sentWith != 1 << want) violate("[%s] requests were sent with TCP_NODELAY %s", what.c_str(), want ? "off" : "on"); }
                if (n != nt * ns) violate("[%s] %d connections carried requests instead of %d", what.c_str(), n, nt * ns);
                recordOutcome(what); }); };
        S.push_back(s); }
    { Scenario s; s.name = "client-refused"; s.budget = 0; s.setup = [=](Kernel &k) { quiet(k); std::string a = std::vector<std::string>{"--no-delay=2", "--nd=-1", "--no-delay=10"}[chooseFree(3, "value")]; Proc *p = spawnProgram(loadModule(libPath("client_small")), "client", clientArgs({a})); spawnActor("judge", [=] { actSleepUntil(MS); if (!p->exited || !p->status) violate("the client accepts %s", a.c_str()); recordOutcome(a); }); }; S.push_back(s); }
    return runCheck(spec, argc, argv);
}
