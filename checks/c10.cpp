// C10: reported activity counters equal the real connections and requests.
#include "node.h"
#include <regex>

struct Cl { Tcp *c = nullptr; int pending = 0; std::string partial; int peer = -1; size_t got = 0, want = 0; std::string rest; bool mayClose = false; };
struct World { std::vector<Cl> cl; CtxP x; size_t out = 0; int threads = 1; uint32_t id = 1; };

// the statistics printed since the last call: (conns, reqs) per worker and in total
static bool readStats(World &w, std::vector<std::pair<int, int>> &per, std::pair<int, int> &tot) {
    std::string s = w.x->node->out.substr(w.out); w.out = w.x->node->out.size(); per.clear(); bool has = false;
    static thread_local std::regex a("worker-id: *(-?[0-9]+),? *active-conns: *(-?[0-9]+),? *active-reqs: *(-?[0-9]+)"), b("total-active-conns: *(-?[0-9]+),? *total-active-reqs: *(-?[0-9]+)");
    for (std::sregex_iterator i(s.begin(), s.end(), a), e; i != e; ++i) per.push_back({atoi((*i)[2].str().c_str()), atoi((*i)[3].str().c_str())});
    std::smatch m; if (std::regex_search(s, m, b)) { tot = {atoi(m[1].str().c_str()), atoi(m[2].str().c_str())}; has = true; }
    return has;
}
// asks for statistics and compares them with what is really there
static void audit(World &w, const std::string &after) {
    actStep(); actWait("idle", [] { return programsIdle(); });
    for (auto &c : w.cl) if (c.c && !c.c->closed) { c.rest += actRecv(c.c); c.got += takeMsgs(c.rest).size(); if (c.c->rxeof || c.c->rst) { if (!c.mayClose) violate("the node closed a connection after%s", after.c_str()); actClose(c.c); actStep(); actWait("idle", [] { return programsIdle(); }); } }
    raiseSignal(w.x->node, SIGUSR1); actStep(); actWait("idle", [] { return programsIdle(); });
    std::vector<std::pair<int, int>> per; std::pair<int, int> tot; if (!readStats(w, per, tot)) violate("no statistics were printed after%s", after.c_str());
    // open connections, by serving thread
    std::map<int, int> by; for (auto &e : K->trace) if (e.proc == 0 && (e.k == E_RECV || e.k == E_CONNECT)) by[e.obj] = e.thr;
    for (auto &e : K->trace) if (e.proc == 0 && e.k == E_ACCEPT && !by.count(e.obj)) by[e.obj] = e.thr;
    std::map<int, std::pair<int, int>> real; int conns = 0, reqs = 0;
    for (auto o : K->objs) if (o->kind == K_TCP) { Tcp *t = (Tcp *)o; if (!t->actor && t->st == Tcp::CONN && t->refs > 0 && by.count(t->id)) { conns++; real[by[t->id]].first++; } }
    for (auto &c : w.cl) if (c.c && !c.c->closed) { int p = (int)c.want - (int)c.got; reqs += p; if (p) real[by[c.peer]].second += p; }
    if (tot.first != conns) violate("%d active connections are reported instead of %d, after%s", tot.first, conns, after.c_str());
    if (tot.second != reqs) violate("%d active requests are reported instead of %d, after%s", tot.second, reqs, after.c_str());
    if ((int)per.size() != w.threads) violate("statistics of %zu workers are reported instead of %d", per.size(), w.threads);
    std::vector<std::pair<int, int>> r; for (auto &p : real) if (p.second.first || p.second.second) r.push_back(p.second); while ((int)r.size() < w.threads) r.push_back({0, 0});
    std::sort(r.begin(), r.end()); std::sort(per.begin(), per.end());
    if (r != per) { std::string s; for (auto &p : per) s += strf(" %d/%d", p.first, p.second); s += " instead of"; for (auto &p : r) s += strf(" %d/%d", p.first, p.second); violate("connections/requests of the workers are reported as%s, after%s", s.c_str(), after.c_str()); }
    recordOutcome(strf("%d %d", conns, reqs));
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C10"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892, Q = 7893; // nobody listens on Q
    // operations of an alphabet, applied to client 0 or 1 (digit after the letter)
    //  o: connect (and one exchange)   p: plain request   f: forward   t: forward with a timeout of 1 ms   q: the same to a port that refuses   w: synchronous store waiting for the next sync
    //  F: five forwards at once   h: first half of a request      r: rest of it     c: close     x: reset   a: the target answers the oldest message   z: 10 ms pass   k: the target closes its connections
    auto apply = [=](World &w, const std::string &op) -> bool { // false: not possible now
        char o = op[0]; Cl *c = op.size() > 1 ? &w.cl[op[1] - '0'] : nullptr; bool open = c && c->c && !c->c->closed; CtxP x = w.x;
        int pending = 0, conns = 0; for (auto &d : w.cl) if (d.c && !d.c->closed) { pending += (int)d.want - (int)d.got; conns++; } for (auto &t : x->tconn) conns += !t.first->closed;
        if (c && (pending >= 4 || conns >= 5)) c->mayClose = true; // beyond the entries of the tables (8 requests, 6 connections) a connection may be given up
        auto request = [&](const std::string &cmds) { actSend(c->c, wireMsg(w.id++, cmds)); c->want++; };
        switch (o) {
        case 'o': if (open) return false; { bool m = c->mayClose; *c = Cl(); c->mayClose = m; } c->c = actConnect(NODE_PORT); if (c->c->peer) c->peer = c->c->peer->id; request(cReply(20)); break;
        case 'p': if (!open || !c->partial.empty()) return false; request(cCompute(1) + cReply(20)); break;
        case 'f': if (!open || !c->partial.empty()) return false; request(cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(24)); break;
        case 'F': if (!open || !c->partial.empty()) return false; for (int i = 0; i < 5; i++) request(cFwd(P, 60, 0, 0, 1) + cReply(20) + cReply(24)); break;
        case 't': if (!open || !c->partial.empty()) return false; request(cFwd(P, 100, 1000, 1, 1) + cReply(20) + cReply(24)); break;
        case 'q': if (!open || !c->partial.empty()) return false; request(cFwd(Q, 100, 1000, 1, 1) + cReply(20) + cReply(24)); break;
        case 'w': if (!open || !c->partial.empty()) return false; request(cStore(10, true, 0) + cReply(24)); break;
        case 'h': { if (!open || !c->partial.empty()) return false; std::string m = wireMsg(w.id++, cCompute(1) + cReply(20)); actSend(c->c, m.substr(0, 20)); c->partial = m.substr(20); break; }
        case 'r': if (!open || c->partial.empty()) return false; actSend(c->c, c->partial); c->partial.clear(); c->want++; break;
        case 'c': case 'x': if (!open) return false; actClose(c->c, o == 'x'); break;
        case 'a': { TMsg *m = nullptr; for (auto &f : x->fwd) if (!f.answered && !f.c->closed) { m = &f; break; } if (!m) return false; answer(*x, *m); break; }
        case 'z': actSleepUntil(K->now + 10 * MS); break;
        case 'k': { bool any = false; for (auto &t : x->tconn) if (!t.first->closed) { actClose(t.first); any = true; } if (!any) return false; break; }
        }
        return true;
    };
    auto add = [&](const std::string &name, std::vector<std::string> args, int threads, std::vector<std::string> fixed, std::vector<std::string> ops, int len) {
        Scenario s; s.name = name; s.budget = 0; std::string lib = libPath("node_small");
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; CtxP x = std::make_shared<Ctx>(); auto w = std::make_shared<World>(); w->x = x; w->cl.resize(8); w->threads = threads;
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs(args)); addTarget(x, P);
            spawnActor("history", [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); }); actWait("idle", [] { return programsIdle(); }); std::string done;
                for (auto &o : fixed) if (apply(*w, o)) { done += " " + o; audit(*w, done); }
                for (int i = 0; i < len; i++) { const std::string &o = ops[chooseFree((int)ops.size(), "op")]; if (!apply(*w, o)) break; done += " " + o; audit(*w, done); } // impossible operations end the history: the shorter ones are prefixes
                for (auto &c : w->cl) if (c.c && !c.c->closed) actClose(c.c);
                for (auto &t : x->tconn) if (!t.first->closed) actClose(t.first);
                audit(*w, done + " and after all peers were gone");
            });
            addFinisher(x->node, [] {});
        };
        S.push_back(s);
    };
    std::vector<std::string> all = {"o0", "o1", "p0", "f0", "f1", "t0", "q0", "h0", "r0", "c0", "x1", "a", "z", "k"};
    add("history", {}, 1, {"o0"}, all, T ? 6 : 5);
    add("history-two", {}, 1, {"o0", "o1", "f0"}, all, T ? 6 : 4);
    add("history-timed", {}, 1, {"o0", "t0", "t0"}, {"o1", "t1", "q1", "c0", "x0", "c1", "a", "z", "k", "f0"}, T ? 6 : 5);
    add("history-sync", {"--sync", "5"}, 1, {"o0"}, {"o1", "w0", "w1", "p0", "c0", "x1", "f1", "z", "a"}, T ? 6 : 5);
    for (std::string m : {"child", "shared", "parent"}) {
        add(m, {"--nt", "2", "-a", m}, 2, {}, {"o0", "o1", "f0", "f1", "t1", "c0", "x1", "a", "z"}, T ? 7 : 6);
        add(m + "-3", {"--nt", "3", "-a", m}, 3, {"o0", "o1"}, {"o2", "f0", "f1", "f2", "q1", "c0", "x2", "a", "k"}, T ? 5 : 4);
    }
    // more requests and connections than there is room for
    add("full-requests", {}, 1, {"o0", "o1", "F0"}, {"F0", "F1", "f0", "p1", "t1", "c0", "x1", "a", "o2", "F2"}, T ? 6 : 5);
    add("full-connections", {}, 1, {"o0", "o1", "o2", "o3", "o4"}, {"o5", "o6", "f0", "p1", "q5", "c0", "x5", "a", "k"}, T ? 6 : 5);
    // the signal at any moment of a request; nothing else may be lost
    for (auto &k : {"plain", "store", "fwd", "timed", "two"}) for (int nt = 1; nt < 3; nt++) {
        NodeScenario n; n.name = strf("signal-%s-t%d", k, nt); n.budget = T ? 3 : 2; n.args = {"--nt", std::to_string(nt)}; ClientSpec c; std::string q = k; if (nt > 1) n.budget--;
        if (q == "plain") c.reqs = {{1, cReply(20)}, {2, cCompute(5) + cReply(24)}}; else if (q == "store") c.reqs = {{1, cStore(10, false, 0) + cReply(20)}, {2, cReply(24)}};
        else if (q == "fwd") c.reqs = {{1, cFwd(P, 100, 0, 0, 1) + cReply(20) + cReply(24)}}; else if (q == "timed") c.reqs = {{1, cFwd(P, 100, 1000, 1, 1) + cReply(20) + cReply(24), 0, -1}}; else c.reqs = {{1, cReply(20)}};
        n.clients = {c}; if (q == "two") n.clients.push_back(c); if (q == "fwd" || q == "timed") n.targets = {P}; n.answers = q == "fwd"; n.checkFwd = q == "fwd";
        auto W = std::make_shared<World>();
        n.extra = [=](CtxP x) { *W = World(); spawnActor("signal", [=] { actWait("node to listen", [=] { return listening(NODE_PORT); }); for (int i = 0; i < 2; i++) { raiseSignal(x->node, SIGUSR1); actStep(); } }); };
        n.atIdle = [=](CtxP x) { W->x = x; W->threads = nt; W->cl.resize(x->cl.size()); for (size_t i = 0; i < x->cl.size(); i++) { W->cl[i].c = x->cl[i].c; W->cl[i].peer = x->cl[i].peer; }
            W->out = 0; std::vector<std::pair<int, int>> per; std::pair<int, int> t; if (!readStats(*W, per, t)) violate("no statistics were printed"); audit(*W, " two signals during requests"); W->x.reset(); };
        S.push_back(toScenario(n));
    }
    return runCheck(spec, argc, argv);
}
