// C27: what the operating system refuses is never taken for success.
#include "node.h"
#include "client.h"

static std::string faultText() { std::string s; for (auto &f : K->faulted) s += (s.empty() ? "" : ", ") + f; return s.empty() ? "nothing failed" : s; }
int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C27"; spec.rule = "every call of the real programs that the system may refuse is made to fail, one at a time (two at a time in the thorough tier), at every moment of every scenario; a state is a distinct history of observable events, outcomes are distinct final observations"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough(); const uint16_t P = 7892, Q = 7893;
    const std::vector<std::string> all = {"socket", "bind", "listen", "accept", "connect", "epoll_create", "epoll_ctl", "epoll_wait", "timerfd_create", "signalfd", "pipe", "eventfd", "fsync", "fallocate", "open", "pthread_create", "write", "read", "recv", "send"};
    auto quiet = [=](Kernel &k) { k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = k.opt.freeSwitch = false; k.opt.actorFree = false; k.opt.reuseHint = 0; k.opt.faults = all; };

    // ---- the node: clients come one after the other; what they are told must be true
    struct W { std::string name; std::vector<std::string> reqs; bool targets; };
    uint32_t n = 0; uint64_t off = 0; // storage ranges are unique
    auto st = [&](bool y) { off += 40; return cStore(10 + n++ % 20, y, off); }; auto ld = [&] { off += 40; return cLoad(10 + n++ % 20, off); };
    auto fw = [=](uint32_t pkt, uint32_t to = 0, int retry = 0) { return cFwd(P, pkt, to, retry, 1) + cReply(20); };
    std::vector<W> ws = {{"plain", {"", ""}, false}, {"compute", {cCompute(100)}, false}, {"store", {st(false), st(false)}, false}, {"sync", {st(true), st(true)}, false}, {"load", {st(false) , ld()}, false}, {"chain", {st(true) + ld() + st(false) + cCompute(50)}, false},
        {"forward", {fw(120), fw(124)}, true}, {"timed", {fw(120, 1000, 1), fw(124, 1000)}, true}, {"forward-store", {fw(120) + st(true), st(true) + fw(124)}, true},
        {"multi", {cFwd(P, 120, 0, 0, 1, W_TCP, true) + cFwd(Q, 124, 0, 0, 1, W_TCP, true) + cReply(20, 2)}, true}, {"udp-forward", {cFwd(P, 120, 0, 0, 1, W_UDP) + cReply(20)}, true}};
    const uint64_t far = 1ull << 63; // not a position in a file
    for (uint64_t o : std::vector<uint64_t>{far, ~1ull - 511, ~1ull}) for (int q = 0; q < 3; q++) { std::string bad = q == 2 ? cLoad(11, o) : cStore(11, q, o); ws.push_back({strf("offset%d-%lx", q, (unsigned long)o), {st(true), bad, st(false), st(true) + bad + ld()}, false}); }
    struct C { std::string name; std::vector<std::string> args; bool udp; };
    std::vector<C> cs = {{"one", {}, false}, {"child", {"--nt", "2"}, false}, {"shared", {"--nt", "2", "-a", "shared"}, false}, {"parent", {"--nt", "2", "-a", "parent"}, false}, {"periodic", {"--sync", "10"}, false}, {"direct", {"--odirect"}, false}, {"udp", {"-budp://:7891"}, true}, {"nostore", {}, false}, {"udp-nostore", {"-budp://:7891"}, true}};
    for (auto &c : cs) for (auto &w : ws) for (int pipe = 0; pipe < 3; pipe++) {
        bool off = w.name.compare(0, 6, "offset") == 0, none = c.name.find("nostore") != std::string::npos; if (c.udp && pipe) continue; if (off && (pipe == 2 || (c.name == "direct" && w.name.find("-f") != std::string::npos) || none)) continue; if (none && w.targets) continue; if (pipe == 2 && c.name != "shared" && c.name != "parent" && c.name != "one") continue;
        Scenario s; s.name = c.name + "-" + w.name + (pipe == 0 ? "" : pipe == 1 ? "-pipe" : "-switch"); s.budget = (T ? 3 : 2) - (pipe == 2); bool udpT = w.name == "udp-forward", timed = w.name == "timed", direct = c.name == "direct";
        s.setup = [=](Kernel &k) {
            quiet(k); if (w.targets && !timed) for (auto f : {"recv", "send"}) k.opt.faults.erase(std::remove(k.opt.faults.begin(), k.opt.faults.end(), f), k.opt.faults.end()); // a target that is lost is lost for the forwards that set no timeout
            if (pipe == 2) k.opt.preemptSut = k.opt.freeSwitch = true;
            auto a = c.args; if (none) a.insert(a.end(), {"-s", ""}); else a.insert(a.end(), {"-s", "/data/store", "-m", "1000000"}); auto mayFail = [=](const std::string &cm) { for (auto &v : interpret(cm)) if ((v.cmd == W_STORE || v.cmd == W_LOAD) && (none || (v.off >= far && v.off != ~0ull))) return true; return false; }; CtxP x = std::make_shared<Ctx>(); x->node = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a));
            if (w.targets) { if (udpT) addUdpTarget(x, P); else { addTarget(x, P); addTarget(x, Q); } addAnswerer(x, 1, false); }
            // rounds: the work, then the same kind of work by newcomers
            x->cl.resize(3); auto reqs = std::make_shared<std::map<uint32_t, std::string>>(); auto U = std::make_shared<std::map<uint32_t, std::vector<WMsg>>>();
            spawnActor("clients", [=] {
                Proc *p = x->node; actWait("the node to listen or to end", [=] { return p->exited || listening(NODE_PORT, c.udp); }); actWait("idle", [] { return programsIdle(); }); // all workers are there
                if (p->exited) return;
                K->opt.faults.push_back("malloc"); // running out of memory while serving
                uint32_t id = 1; Udp *u = c.udp ? actUdp(9000) : nullptr;
                for (int r = 0; r < 3 && !p->exited; r++) {
                    Exch &e = x->cl[r]; std::string bytes; std::vector<std::string> msgs; std::vector<uint32_t> ids;
                    for (auto &q : r == 2 ? std::vector<std::string>{""} : w.reqs) { std::string cm = q + cReply(30 + 4 * id); (*reqs)[id] = cm; msgs.push_back(wireMsg(id, cm)); e.want.push_back({id, 30 + 4 * id, 0}); ids.push_back(id++); }
                    if (c.udp) { for (size_t i = 0; i < msgs.size() && !p->exited; i++) { actUdpSend(u, NODE_PORT, msgs[i]); actStep(); bool may = mayFail((*reqs)[ids[i]]); actWait("an answer or the end of the node", [=] { return may || !u->rx.empty() || p->exited || !K->faulted.empty(); }); if (u->rx.empty() && !p->exited) actSleepUntil(K->now + 100 * MS); while (!u->rx.empty()) { std::string b = u->rx.front().data; u->rx.pop_front(); for (auto &m : takeMsgs(b)) e.got.push_back(m); } } e.finished = true; continue; }
                    e.c = actConnect(NODE_PORT); if (!e.c) { if (!p->exited && K->faulted.empty()) violate("connection refused"); continue; }
                    actStep();
                    if (pipe) { for (auto &m : msgs) bytes += m; actSend(e.c, bytes); actStep(); collect(e); }
                    else { auto want = e.want; e.want.clear(); for (size_t i = 0; i < msgs.size() && !e.eof && !e.rst; i++) { e.want.push_back(want[i]); actSend(e.c, msgs[i]); actStep(); collect(e); } e.want = want; }
                    if (r) { actClose(e.c); e.closed = true; actStep(); } e.finished = true;
                    actWait("idle", [] { return programsIdle(); });
                }
            });
            spawnActor("judge", [=] {
                actWait("the other actors", [] { return actorsDone(); }); actWait("idle", [] { return programsIdle(); });
                Proc *p = x->node; std::string f = faultText(); int nf = (int)K->faulted.size(), lost = 0, failed = 0; auto sent = sentMsgs(*K); bool dead = p->exited;
                if (dead && (!nf || !p->status)) violate("[%s] the node ended with status %d: %s", f.c_str(), p->status, p->err.c_str());
                if (dead && p->err.empty() && p->out.empty()) violate("[%s] the node ended without a message", f.c_str());
                std::map<uint32_t, int> seen;
                for (auto &e : x->cl) {
                    for (auto &g : e.got) {
                        const Exch::Want *q = nullptr; for (auto &y : e.want) if (y.id == g.id) q = &y;
                        if (!q || g.size != q->size || seen[g.id]++) violate("[%s] a reply (number %u, %u bytes) that nobody is waiting for", f.c_str(), g.id, g.size);
                        if (g.status) { failed++; if (!nf && !mayFail((*reqs)[g.id])) violate("request %u failed", g.id); continue; }
                        // the reply says that all was done: was it?
                        size_t at = SIZE_MAX; for (auto &m : sent) if (m.m.id == g.id && m.m.size == g.size) at = m.first;
                        for (auto &v : interpret((*reqs)[g.id])) if (v.cmd == W_STORE || v.cmd == W_LOAD) {
                            std::map<int64_t, bool> got; size_t last = 0, nsync = 0; uint64_t lo = direct ? (v.off + 63) / 64 * 64 : v.off, len = direct ? (v.n + 63) / 64 * 64 : v.n;
                            for (size_t i = 0; i < at && i < K->trace.size(); i++) { auto &e = K->trace[i]; if (e.k == (v.cmd == W_STORE ? E_WRITE : E_READ) && e.b > 0) for (int64_t b = std::max(e.a, (int64_t)lo); b < std::min(e.a + e.b, (int64_t)(lo + len)); b++) { got[b] = true; last = i; } }
                            if (got.size() != len) violate("[%s] request %u is answered with success although only %zu of %lu bytes were %s", f.c_str(), g.id, got.size(), (unsigned long)len, v.cmd == W_STORE ? "stored" : "loaded");
                            for (size_t i = last; i < at; i++) if (K->trace[i].k == E_FSYNC) nsync++;
                            if (v.cmd == W_STORE && v.sync && !nsync) violate("[%s] request %u is answered with success although its data was never synced", f.c_str(), g.id);
                        } else if (v.cmd == W_FORWARD) for (size_t i = 0; i < v.ports.size(); i++) { bool ok = false; for (auto &m : x->fwd) ok |= m.port == v.ports[i] && m.m.size == v.pkts[i] && m.answered && m.answeredAt <= at; if (!ok) violate("[%s] request %u is answered with success although its forward was not", f.c_str(), g.id); }
                    }
                    if (!dead && e.got.size() < e.want.size()) { bool may = false; for (auto &y : e.want) may |= mayFail((*reqs)[y.id]); if (!may) lost++; if (!c.udp && !e.eof && !e.rst && e.c) violate("[%s] a client is left waiting", f.c_str()); }
                }
                if (lost > nf) violate("[%s] %d clients lost their connections", f.c_str(), lost);
                if (!dead) { raiseSignal(p, SIGTERM); actStep(); actWait("the node to end after SIGTERM", [=] { return p->exited; }); if (p->status && (int)K->faulted.size() == nf) violate("[%s] status %d after SIGTERM: %s", f.c_str(), p->status, p->err.c_str()); }
                recordOutcome(strf("%s: %s, %d lost, %d failed, status %d", f.c_str(), dead ? "ended" : "alive", lost, failed, p->status));
            }, true);
        };
        S.push_back(s);
    }
    // ---- the client
    for (int nt = 1; nt <= 2; nt++) for (int ns = 1; ns <= 2; ns++) for (int kind = 0; kind < 4; kind++) {
        Scenario s; s.name = strf("client-%d-%d-%d", nt, ns, kind); s.budget = T ? 3 : 2; int pps = 2;
        s.setup = [=](Kernel &k) {
            quiet(k); std::vector<std::string> a = {"--nt", std::to_string(nt), "--ns", std::to_string(ns), "-n", std::to_string(pps * ns), "-p", "100"}; std::string file;
            if (kind == 1) a.push_back("--pso"); if (kind == 2) { a.insert(a.end(), {"-f", "script.txt"}); file = "-C 100\n--store-data 50\n"; } if (kind == 3) a.insert(a.end(), {"--retry-num", "2", "--retry-period", "200"});
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(libPath("client_small")), "client", clientArgs(a)); w->cl->files["script.txt"] = file;
            addServer(w, nt * ns * 2, [=](int) { SrvOpt o; o.pps = pps; return o; });
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; }); std::string f = faultText(); int nf = (int)K->faulted.size(); bool dropped = false; for (auto &x : K->faulted) dropped |= x.compare(0, 4, "recv") == 0 || x.compare(0, 4, "send") == 0;
                if (w->cl->status) { if (!nf) violate("status %d: %s", w->cl->status, w->cl->err.c_str()); if (w->cl->err.empty() && w->cl->out.empty()) violate("[%s] the client ended without a message", f.c_str()); }
                else { auto l = reportLines(w->cl->out); size_t ok = 0; for (auto &x : l) ok += x.el > 0; size_t ans = 0; for (auto &c : w->conns) for (auto &r : c.reqs) ans += r.answered >= 0;
                    if (ok > ans) violate("[%s] %zu requests are reported as answered, %zu were", f.c_str(), ok, ans);
                    if (!dropped && (l.size() != (size_t)(nt * ns * pps) || ok != l.size())) violate("[%s] the client reports success, with %zu of %d requests sent and %zu answered", f.c_str(), l.size(), nt * ns * pps, ok); }
                recordOutcome(strf("%s: status %d, %zu lines", f.c_str(), w->cl->status, reportLines(w->cl->out).size()));
            }, true);
        };
        S.push_back(s);
    }
    return runCheck(spec, argc, argv);
}
