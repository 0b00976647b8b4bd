// C06: losing a connection at any point harms nothing but that connection.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C06"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892, Q = 7893;
    struct Kindd { std::string name, cmds; bool fwd, timed; uint32_t size; };
    // requests that are caught in different states; sizes make them unmistakable
    auto kind = [=](const std::string &k, int who) -> std::string {
        uint32_t r = 100 + 10 * who; uint32_t f = 200 + 10 * who;
        if (k == "plain") return cReply(r);
        if (k == "compute") return cCompute(100) + cReply(r);
        if (k == "store") return cStore(20 + who, false, 100 * who) + cReply(r);
        if (k == "sync") return cStore(20 + who, true, 100 * who) + cReply(r);
        if (k == "load") return cLoad(20 + who, 0) + cReply(r);
        if (k == "fwd") return cFwd(P, f, 0, 0, 1) + cReply(20) + cReply(r);
        if (k == "fwdst") return cFwd(P, f, 0, 0, 1) + cReply(20) + cStore(20 + who, false, 100 * who) + cReply(r);
        if (k == "timed") return cFwd(P, f, 500, 1, 1) + cReply(20) + cReply(r);
        if (k == "multi") return cFwd(P, f, 0, 0, 1, W_TCP, true) + cFwd(Q, f + 1, 0, 0, 1, W_TCP, true) + cReply(20, 2) + cReply(r);
        if (k == "two") return cFwd(P, f, 0, 0, 1) + cReply(20) + cFwd(Q, f + 1, 0, 0, 1) + cReply(20) + cReply(r);
        violate("unknown kind"); return "";
    };
    struct O { int budget = 1; std::string sync; int sid = 5, nid = 5; size_t vcap = 1 << 30; bool cut = false, late = false; int victims = 1; bool newFirst = false; bool shortCap = false; };
    auto add = [&](const std::string &name, const std::vector<std::string> &vk, const std::string &sk, const std::string &nk, O o) {
        NodeScenario n; n.name = name; n.budget = o.budget; if (!o.sync.empty()) n.args = {"--sync", o.sync};
        bool fw = false; for (auto &k : vk) for (auto t : {"fwd", "fwdst", "timed", "multi", "two"}) if (k == t) fw = true; for (auto t : {"fwd", "fwdst", "timed", "multi", "two"}) if (sk == t || nk == t) fw = true;
        if (fw) n.targets = {P, Q};
        int nv = o.victims; n.checkFwd = false;
        ClientSpec dummy; for (int v = 0; v < nv; v++) n.clients.push_back(dummy);
        // the answers to forwards may come before or after the loss; every order
        std::vector<std::string> all; std::string one;
        auto vreqs = [=](int v) { std::string a; for (size_t i = 0; i < vk.size(); i++) a += wireMsg(5 + i, kind(vk[i], v * 4 + (int)i)); return a; };
        ClientSpec s; s.reqs = {{(uint32_t)o.sid, kind(sk, 8), 0}};
        ClientSpec w; w.reqs = {{(uint32_t)o.nid, kind(nk, 9), 0}, {(uint32_t)o.nid + 1, kind("plain", 10), 0}};
        size_t B = n.clients.size(); n.clients.clear();
        auto N = std::make_shared<NodeScenario>(n);
        Scenario sc; sc.name = name; sc.budget = o.budget; std::string lib = libPath("node_small"); auto hx = std::make_shared<CtxP>();
        sc.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; CtxP x = *hx = std::make_shared<Ctx>();
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs(N->args)); x->cl.resize(B + 2);
            for (auto p : N->targets) addTarget(x, p);
            if (fw) addAnswerer(x, 1, false);
            for (size_t v = 0; v < B; v++) spawnActor(strf("victim%zu", v), [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); }); if (v) actWait("the first victim", [=] { return x->var.count(strf(T ? "vconn%zu" : "lost%zu", v - 1)); });
                Exch &e = x->cl[v]; e.c = actConnect(NODE_PORT, o.vcap); x->var[strf("vconn%zu", v)] = 1; actStep(); std::string a = vreqs((int)v);
                if (o.cut) a = a.substr(0, chooseFree((int)a.size(), "cut"));
                if (!a.empty()) { actSend(e.c, a); actStep(); }
                int how = chooseFree(2, "how"); // close in order, or with data in flight
                actClose(e.c, how); e.closed = true; x->var[strf("lost%zu", v)] = 1; actStep();
            });
            spawnActor("survivor", [=] { if (!o.late) actWait("the victims", [=] { return x->var.count(strf("vconn%zu", B - 1)); }); clientBody(x, B, s); });
            spawnActor("newcomer", [=] { actWait("the loss", [=] { return x->var.count(strf("lost%zu", B - 1)); }); clientBody(x, B + 1, w); });
            addFinisher(x->node, [=] {
                if (fw || !o.sync.empty()) { actSleepUntil(K->now + 20 * MS); actWait("idle", [] { return programsIdle(); }); }
                checkClients(*x);
                // messages at the targets: those of the survivors once each, those of the victims at most once (and their retries)
                std::map<uint32_t, int> cnt; for (auto &f : x->fwd) cnt[f.m.size]++;
                auto need = [&](const std::string &c, bool lost) { for (auto &e : interpret(c)) if (e.cmd == W_FORWARD) for (auto p : e.pkts) { int n = cnt[p]; cnt.erase(p); if (n > 1 + (lost ? e.retries : 0)) violate("a forward of %u bytes was sent %d times", p, n); if (!lost && n != 1) violate("a forward of %u bytes was sent %d times", p, n); } };
                need(s.reqs[0].cmds, false); for (auto &r : w.reqs) need(r.cmds, false); for (size_t v = 0; v < B; v++) for (size_t i = 0; i < vk.size(); i++) need(kind(vk[i], v * 4 + (int)i), true);
                for (auto &c : cnt) if (c.second) violate("a target received a message of %u bytes that nobody asked for", c.first);
                // storage: the survivors' ranges written exactly once, the victims' at most once
                std::map<int64_t, int> wr; for (auto &e : K->trace) if (e.k == E_WRITE && e.proc == 0 && e.b > 0) for (int64_t p = e.a; p < e.a + e.b; p++) wr[p]++;
                auto range = [&](const std::string &c, bool lost) { for (auto &e : interpret(c)) if (e.cmd == W_STORE) for (uint64_t p = e.off; p < e.off + e.n; p++) { int n = wr[p]; wr.erase(p); if (n > 1 || (!lost && n != 1)) violate("byte %lu of the storage was written %d times", (unsigned long)p, n); } };
                range(s.reqs[0].cmds, false); for (auto &r : w.reqs) range(r.cmds, false); for (size_t v = 0; v < B; v++) for (size_t i = 0; i < vk.size(); i++) range(kind(vk[i], v * 4 + (int)i), true);
                for (auto &c : wr) if (c.second) violate("byte %ld of the storage was written, which nobody asked for", (long)c.first);
            });
        };
        sc.check = [=](Kernel &k) { std::string t = name; for (auto &e : k.trace) if (e.k == E_SEND || e.k == E_WRITE || e.k == E_CLOSE) t += strf(" %d:%d:%ld", e.k, e.obj, (long)e.a); recordOutcome(t); hx->reset(); };
        S.push_back(sc);
    };
    std::vector<std::string> ks = {"plain", "compute", "store", "sync", "load", "fwd", "fwdst", "timed", "multi", "two"};
    int B = T ? 3 : 2;
    for (auto &v : ks) for (auto &s : ks) { O o; o.budget = T || !((v == "multi" || v == "two") && (s == "multi" || s == "two" || s == "fwdst" || s == "timed")) ? B - 1 : 0; o.sid = v == s ? 5 : 50; std::string nk = v == "sync" || s == "sync" ? "sync" : v; if (v == "sync" || s == "sync") o.sync = "5"; add("lose-" + v + "-with-" + s, {v}, s, nk, o); }
    for (auto v : {"fwd", "store", "sync", "timed"}) { O o; o.budget = B; if (!strcmp(v, "sync")) o.sync = "5"; add(strf("deep-%s", v), {v}, "plain", T ? v : "plain", o); }
    // several requests pending on the lost connection
    for (auto &v : ks) { O o; o.budget = T || (v != "multi" && v != "two") ? B - 1 : 0; if (v == "sync") o.sync = "5"; add("pipe-" + v, {v, "fwd", "store"}, "fwd", "store", o); add("pipe2-" + v, {"store", v, v}, "store", "fwd", o); }
    // two lost connections
    for (auto &v : ks) { O o; o.budget = 0; o.victims = 2; o.late = true; if (v == "sync") o.sync = "5"; add("two-lost-" + v, {v}, "plain", T || (v != "multi" && v != "two") ? v : "plain", o); }
    // lost in the middle of a message
    for (auto &v : {"fwd", "store", "plain"}) { O o; o.budget = 0; o.cut = true; add(strf("cut-%s", v), {v, "plain"}, "fwd", "fwd", o); }
    // lost with replies that do not fit into its receive buffer
    for (auto &v : {"plain", "store", "fwd"}) for (size_t cap : {0, 30, 150}) { O o; o.budget = B - 1; o.vcap = cap; add(strf("full-%s-%zu", v, cap), {v, "plain", "plain"}, "plain", "plain", o); }
    // targets that go away
    for (int m = 0; m < 6; m++) for (int reset = 0; reset < 2; reset++) {
        // 0: idle connection lost; 1: with a timed forward pending; 2: with an untimed one pending; 3: in the middle of an answer; 4: before the handshake; 5: with two pending
        NodeScenario n; n.name = strf("target-%d-%s", m, reset ? "reset" : "close"); n.budget = T ? 2 : m == 4 ? 0 : 1; n.checkFwd = false; n.checkCl = false; n.targets = {P, Q}; n.answers = false; n.manual = m == 4;
        ClientSpec a, b, d; auto F = [=](int size, int timeout, int retries) { return cFwd(P, size, timeout, retries, 1) + cReply(20); };
        bool timed = m == 1 || m == 3 || m == 4 || m == 5;
        a.reqs = {{5, F(200, timed ? 500 : 0, timed ? 2 : 0) + cReply(100), 0}}; if (m == 5) a.reqs.push_back({6, F(202, 700, 1) + cReply(102), 0}); if (m == 2) for (auto &r : a.reqs) r.answered = false;
        b.reqs = {{5, cFwd(Q, 210, 0, 0, 1) + cReply(20) + cReply(110), 0}, {6, cStore(10) + cReply(111), 0}}; d.reqs = {{5, F(220, 0, 0) + cReply(120), 0}, {7, cReply(121), 0}}; n.clients = {a, b};
        n.extra = [=](CtxP x) {
            x->cl.resize(3);
            spawnActor("loss", [=] {
                auto first = [=]() -> TMsg * { for (auto &f : x->fwd) if (f.m.size == 200) return &f; return nullptr; };
                if (m != 4) actWait("the forward", [=] { return first() && (m != 5 || x->fwd.size() > 1); });
                if (m == 0) { answer(*x, *first()); actStep(); actWait("the reply", [=] { return x->cl[0].finished; }); }
                if (m == 3) { actSend(first()->c, wireMsg(first()->m.id, "", 20).substr(0, T ? 1 + chooseFree(19, "cut") : (int[]){1, 12, 19}[chooseFree(3, "cut")])); actStep(); }
                if (m == 4) { actWait("the handshake", [=] { return !x->tconn.empty(); }); }
                if (m == 4) { for (auto &c : x->tconn) if (c.second == P) { actClose(c.first, reset); break; } } else actClose(first()->c, reset);
                x->var["lost"] = K->trace.size(); actStep();
                // everything that arrives afterwards is answered
                K->cur->daemon = true; for (;;) { actWait("messages", [&] { for (auto &f : x->fwd) if (!f.answered && !f.c->closed) return true; return false; }); for (auto &f : x->fwd) if (!f.answered && !f.c->closed) { answer(*x, f); actStep(); break; } }
            });
            spawnActor("other", [=] { for (;;) { K->cur->daemon = true; actWait("messages", [&] { for (auto &f : x->fwd) if (!f.answered && f.port == Q) return true; return false; }); for (auto &f : x->fwd) if (!f.answered && f.port == Q) { answer(*x, f); actStep(); break; } } });
            spawnActor("newcomer", [=] { actWait("the loss", [=] { return x->var.count("lost"); }); actWait("the node to notice", [] { return programsIdle(); }); clientBody(x, 2, d); });
        };
        n.settle = 20 * MS; n.atIdle = [=](CtxP x) { checkClients(*x); };
        S.push_back(toScenario(n));
    }
    // a target's connection is reset while requests for it are arriving: only what meets the dead connection has to be sent again
    for (int k = 0; k < 3; k++) {
        NodeScenario n; n.name = strf("target-noticed-%d", k); n.budget = T ? 3 : 2; n.checkFwd = false; n.targets = {P}; n.answers = false; auto F = [=](int size, int timeout, int retries) { return cFwd(P, size, timeout, retries, 1) + cReply(20); };
        std::vector<Req> rs = {{5, F(200, 0, 0) + cReply(100), 0}, {6, F(204, 500, 1) + cReply(101), 0}, {7, F(208, 0, 0) + cReply(102), 0}}; if (k == 1) rs.push_back({8, F(212, 0, 0) + cReply(103), 0}); if (k == 2) rs[2].cmds = F(208, 0, 0) + F(216, 0, 0) + cReply(102);
        n.extra = [=](CtxP x) {
            x->cl.resize(1);
            spawnActor("client", [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); }); Exch &e = x->cl[0]; e.c = actConnect(NODE_PORT); if (e.c->peer) e.peer = e.c->peer->id; for (auto &r : rs) e.want.push_back({r.id, respSize(r), 0});
                actSend(e.c, wireMsg(rs[0].id, rs[0].cmds)); actStep(); actWait("the forward", [=] { return !x->fwd.empty(); }); Tcp *t = x->fwd[0].c; answer(*x, x->fwd[0]); actStep();
                actWait("the reply", [&] { e.pump(); return e.got.size() == 1; });
                actClose(t, true); std::string w; for (size_t i = 1; i < rs.size(); i++) w += wireMsg(rs[i].id, rs[i].cmds); actSend(e.c, w); actStep(); collect(e); });
            spawnActor("answers", [=] { K->cur->daemon = true; for (;;) { auto open = [=]() -> TMsg * { for (auto &f : x->fwd) if (!f.answered && !f.c->closed && f.m.size != 200) return &f; return nullptr; }; actWait("messages", [=] { return open() != nullptr; }); answer(*x, *open()); actStep(); } });
        };
        n.settle = 20 * MS; S.push_back(toScenario(n));
    }
    return runCheck(spec, argc, argv);
}
