// C26: serving and losing connections for ever uses up nothing.
#include "client.h"
#include "node.h"

struct Level { size_t fds, heap, threads; };
static Level level(Proc *p) {
    Level l{0, heapLive(), 0}; for (auto o : p->fds) l.fds += o != nullptr;
    for (auto t : K->threads) if (t->proc == p && !t->isMain && !t->joined && !(t->detached && t->done)) l.threads++;
    return l;
}
// something is used up if it grows every time; growing at first and settling is not a leak
static void judge(const std::vector<Level> &v, const std::string &what) {
    if (v.size() < 4) return;
    auto grows = [&](size_t Level::*m) { for (size_t i = 1; i < v.size(); i++) if (v[i].*m <= v[i - 1].*m) return false; return true; };
    if (grows(&Level::fds)) violate("open descriptors grow from %zu to %zu, with every round of%s", v[0].fds, v.back().fds, what.c_str());
    if (grows(&Level::heap)) violate("allocated memory grows from %zu to %zu bytes, with every round of%s", v[0].heap, v.back().heap, what.c_str());
    if (grows(&Level::threads)) violate("threads grow from %zu to %zu, with every round of%s", v[0].threads, v.back().threads, what.c_str());
}
struct RCl { Tcp *c = nullptr; Udp *u = nullptr; std::string rest; size_t want = 0, got = 0; bool part = false; };

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C26"; spec.rule = "every history of the stated operations up to the stated length, repeated ten times in the same way; after every round everybody is gone and the node is asked once more; descriptors, allocated memory and threads after the rounds. Client: every choice of the server, sessions one after the other"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892, Q = 7893, U = 7894; const int ROUNDS = 10; // nobody listens on Q
    // o: connect   p: request   f: forward   t: forward with a timeout of 1 ms and one more try   q: the same to a port that refuses   m: multiple forward   n: forward over UDP   s: store   y: synchronous store   l: load
    // h: half a request   b: request with a large reply, not read   c: close   x: reset   a: the targets answer   g: a late and wrong answer   z: 10 ms pass   k: the targets close their connections
    auto add = [&](const std::string &name, std::vector<std::string> args, bool udp, std::vector<std::string> fixed, std::vector<std::string> ops, int len) {
        Scenario s; s.name = name; s.budget = 0; std::string lib = libPath("node_small");
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; CtxP x = std::make_shared<Ctx>(); std::vector<std::string> a = args; if (udp) { a.push_back("-b"); a.push_back("udp://:7891"); }
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs(a)); addTarget(x, P); addUdpTarget(x, U);
            spawnActor("history", [=] {
                actWait("node to be ready", [=] { return listening(NODE_PORT, udp); }); auto idle = [] { actStep(); actWait("idle", [] { return programsIdle(); }); }; idle();
                std::vector<RCl> cl(9); uint32_t id = 1; uint16_t uport = 50000; std::vector<Level> lv; std::vector<std::string> hist; std::string done;
                auto readAll = [&] { for (auto &c : cl) if (c.c && !c.c->closed) { c.rest += actRecv(c.c); c.got += takeMsgs(c.rest).size(); } else if (c.u) while (!c.u->rx.empty()) { c.u->rx.pop_front(); c.got++; } };
                auto request = [&](RCl &c, const std::string &cmds) { if (udp) actUdpSend(c.u, NODE_PORT, wireMsg(id++, cmds)); else actSend(c.c, wireMsg(id++, cmds)); c.want++; };
                auto apply = [&](const std::string &op) -> bool {
                    char o = op[0]; RCl *c = op.size() > 1 ? &cl[op[1] - '0'] : nullptr; bool open = c && (udp ? c->u != nullptr : c->c && !c->c->closed && !c->part); size_t pending = 0; for (auto &d : cl) if (d.want > d.got) pending += d.want - d.got;
                    if (strchr("pftqmnsylhb", o) && (!open || pending > 4)) return false;
                    switch (o) {
                    case 'o': if (open) return false; *c = RCl(); if (udp) c->u = actUdp(uport++); else { K->opt.reuseHint = op[1] - '0'; c->c = actConnect(NODE_PORT); } break;
                    case 'p': request(*c, cCompute(1) + cReply(20)); break;
                    case 'f': request(*c, cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(24)); break;
                    case 't': request(*c, cFwd(P, 100, 1000, 1, 1) + cReply(20) + cReply(24)); break;
                    case 'q': request(*c, cFwd(Q, 100, 1000, 1, 1) + cReply(20) + cReply(24)); break;
                    case 'm': request(*c, cFwd(P, 100, 0, 0, 1, W_TCP, true) + cFwd(U, 100, 0, 0, 1, W_UDP, true) + cReply(20, 2) + cReply(24)); break;
                    case 'n': request(*c, cFwd(U, 100, 0, 0, 1, W_UDP) + cReply(20) + cReply(24)); break;
                    case 's': request(*c, cStore(10, false, 0) + cReply(20)); break;
                    case 'y': request(*c, cStore(10, true, 0) + cReply(20)); break;
                    case 'l': request(*c, cLoad(10, 0) + cReply(20)); break;
                    case 'h': actSend(c->c, wireMsg(id++, cCompute(1) + cReply(20)).substr(0, 17)); c->part = true; break;
                    case 'b': request(*c, cReply(900)); break;
                    case 'c': case 'x': if (udp) { if (!open) return false; c->u->closed = true; *c = RCl(); } else { if (!c->c || c->c->closed) return false; actClose(c->c, o == 'x'); *c = RCl(); } break;
                    case 'a': { bool any = false; for (auto &f : x->fwd) if (!f.answered && (f.u || !f.c->closed)) { answer(*x, f); any = true; } if (!any) return false; break; }
                    case 'g': { TMsg *m = nullptr; for (auto &f : x->fwd) if (f.u || !f.c->closed) m = &f; if (!m) return false; TMsg w = *m; w.m.id += 77; answer(*x, w); break; }
                    case 'z': actSleepUntil(K->now + 10 * MS); break;
                    case 'k': { bool any = false; for (auto &t : x->tconn) if (!t.first->closed) { actClose(t.first); any = true; } if (!any) return false; break; }
                    }
                    idle(); if (o != 'b') readAll(); return true;
                };
                int keep = 0;
                for (int r = 0; r < ROUNDS; r++) {
                    if (r == 0) {
                        for (auto &o : fixed) if (apply(o)) hist.push_back(o);
                        for (int i = 0; i < len; i++) { const std::string &o = ops[chooseFree((int)ops.size(), "op")]; if (!apply(o)) break; hist.push_back(o); }
                        for (auto &o : hist) done += " " + o; keep = chooseFree(2, "the targets stay");
                    } else for (auto &o : hist) apply(o);
                    if (udp) { for (auto &f : x->fwd) if (!f.answered && (f.u || !f.c->closed)) answer(*x, f); idle(); } // nothing but its answer ends a forward asked by a datagram
                    if (!keep) for (auto &t : x->tconn) if (!t.first->closed) actClose(t.first);
                    for (auto &c : cl) { if (c.c && !c.c->closed) { actClose(c.c); } if (c.u) c.u->closed = true; c = RCl(); }
                    idle(); for (auto &f : x->fwd) if (!f.answered && (f.u || !f.c->closed)) answer(*x, f);
                    actSleepUntil(K->now + 20 * MS); idle(); x->fwd.clear();
                    // everybody is gone; one more exchange, with a forward
                    apply("o2"); RCl &c = cl[2]; request(c, cCompute(1) + cReply(20)); idle(); request(c, cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(24)); idle(); for (auto &f : x->fwd) if (!f.answered && (f.u || !f.c->closed)) answer(*x, f);
                    idle(); readAll(); if (c.got != 2) violate("%zu of 2 requests were answered after %d rounds of%s", c.got, r + 1, done.c_str());
                    if (!keep) for (auto &t : x->tconn) if (!t.first->closed) actClose(t.first);
                    if (udp) c.u->closed = true; else actClose(c.c); c = RCl(); idle(); x->fwd.clear(); lv.push_back(level(x->node));
                    for (auto i = x->tconn.begin(); i != x->tconn.end();) if (i->first->closed) i = x->tconn.erase(i); else ++i;
                }
                judge(lv, done); recordOutcome(name + done + strf(" %zu %zu", lv.back().fds, lv.back().heap));
            });
            addFinisher(x->node, [] {});
        };
        S.push_back(s);
    };
    std::vector<std::string> all = {"o1", "p0", "f0", "f1", "t0", "q1", "m0", "n1", "s0", "h0", "b0", "c0", "x0", "x1", "a", "g", "z", "k"};
    add("one", {}, false, {"o0"}, all, T ? 4 : 3); add("two", {}, false, {"o0", "o1", "f0"}, all, T ? 4 : 3); add("timed", {}, false, {"o0", "o1", "t0"}, all, T ? 4 : 3);
    add("storage", {"--sync", "5"}, false, {"o0", "y0"}, {"o1", "y0", "y1", "s1", "l0", "f0", "c0", "x1", "z", "a"}, T ? 5 : 3);
    for (int n : {4, 5, 6}) { std::vector<std::string> f = {"o0", "o1", "o3", "o4", "o5", "o6"}; f.resize(n); add(strf("full-%d", n), {}, false, f, {"o6", "o7", "f0", "f1", "n0", "n1", "q0", "p5", "t4", "c0", "x1", "a", "z", "k"}, T ? 4 : 3); }
    for (std::string m : {"child", "shared", "parent"}) add(m, {"--nt", "2", "-a", m}, false, {"o0", "o1"}, {"f0", "f1", "t1", "n0", "s1", "c0", "x1", "a", "z", "k"}, T ? 4 : 3);
    add("udp", {}, true, {"o0"}, {"o1", "p0", "p1", "f0", "t1", "q0", "m1", "n0", "s0", "y1", "l0", "c0", "a", "g", "z"}, T ? 4 : 3);
    // the client: one session after the other, all with the same fate
    for (int nt : {1, 2}) for (int pps : {1, 2}) for (int how = 0; how < 4; how++) for (int pso = 0; pso < 2; pso++) { // how: all answered, dropped, UDP, with varying values
        int ns = 6; Scenario s; s.name = strf("client-%dthr-%dpps-%s%s", nt, pps, how == 0 ? "plain" : how == 1 ? "dropped" : how == 2 ? "udp" : "values", pso ? "-pso" : ""); s.budget = nt == 1 ? 2 + T : T; std::string lib = libPath("client_small");
        std::vector<std::string> a = {"-n", std::to_string(pps * ns), "--ns", std::to_string(ns), "--nt", std::to_string(nt), "--ps", "100", "-p", "500", "-C", how == 3 ? "unif:min=10,max=50" : "5"}; if (pso) a.push_back("--pso"); if (how == 2) { a.push_back("--to"); a.push_back("udp://127.0.0.1:7891"); }
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.freeSwitch = false; k.opt.preemptEnv = false; k.opt.actorFree = false; CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(a)); SrvOpt o; o.pps = pps; auto lv = std::make_shared<std::vector<Level>>();
            auto seen = [=] { if (w->conns.size() % nt == 0) lv->push_back(level(w->cl)); };
            if (how == 2) { addUdpServer(w, o); spawnDaemon("observer", [=] { for (size_t n = 0;;) { actWait("sessions", [&] { return w->conns.size() > n; }); n = w->conns.size(); seen(); } })->eager = true; }
            else {
                w->lst = actListen(NODE_PORT); auto fate = std::make_shared<int>(-1); // answers before the loss * 2 + how
                spawnDaemon("server", [=] { for (;;) { Tcp *c = nullptr; actWait("a connection", [=] { return !w->lst->acceptq.empty(); }); c = actAccept(w->lst); w->conns.emplace_back(); w->conns.back().c = c; seen(); if (*fate < 0) *fate = how == 1 ? chooseFree(2 * (pps + 1), "fate") : 2 * pps + 2; actStep(); } });
                for (int i = 0; i < nt * ns; i++) spawnDaemon(strf("conn%d", i), [=] { actWait("its connection", [=] { return (int)w->conns.size() > i; }); CConn &x = w->conns[i]; std::string rest; int n = 0;
                    for (;;) { if (n == *fate / 2) { actClose(x.c, *fate % 2); return; } actWait("requests", [&] { return !x.c->rx.empty() || x.c->rxeof || x.c->rst; }); rest += actRecv(x.c); if (x.c->rxeof || x.c->rst) { actClose(x.c); return; }
                        for (auto &m : takeMsgs(rest)) { if (n == *fate / 2) break; actSend(x.c, replyBytes(m.id, 64, 0)); n++; } actStep(); } });
            }
            spawnActor("judge", [=] { actWait("the client to end", [=] { return w->cl->exited; }); if (w->conns.size() != (size_t)nt * ns) violate("%zu sessions instead of %d", w->conns.size(), nt * ns); judge(*lv, " one session"); recordOutcome(strf("%zu %zu", lv->back().fds, lv->back().heap)); });
        };
        S.push_back(s);
    }
    return runCheck(spec, argc, argv);
}
