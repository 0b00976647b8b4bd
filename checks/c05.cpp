// C05: forward timeouts fire on time, retry as asked, then report failure.
#include "node.h"

// one timed forward: when it starts, its timeout, its retries, when it is answered (-1: never), all in us
struct TF { int id; int64_t start, T, r, ans; int64_t t0 = -1; bool refused = false; };
struct Plan { std::vector<TF> f; std::vector<int64_t> gone; }; // gone: when the client of f[i] leaves (-1: never)

// slack: how late things may happen; busy: how long the worker may be busy with something else
static void judge(CtxP x, const Plan &p, int64_t slack, int64_t busy) {
    for (size_t i = 0; i < p.f.size(); i++) {
        const TF &f = p.f[i]; const Exch &e = x->cl[i]; std::string who = strf("forward %zu (timeout %ld us, %ld retries, started at %ld us, answered after %ld us)", i, (long)f.T, (long)f.r, (long)f.t0, (long)f.ans);
        std::vector<int64_t> tx; for (auto &m : x->fwd) if (m.m.size == 100 + i) tx.push_back(m.t / US - f.t0);
        int64_t end = (f.r + 1) * f.T; bool ok = f.ans >= 0 && f.ans <= end, tie = f.ans == end || (busy && f.ans >= 0 && f.ans <= end + busy && f.ans >= end - busy); int64_t done = ok ? f.ans : end, latest = tie ? std::max(f.ans, end) : done;
        if (tie) done = std::min(f.ans, end);
        if (p.gone[i] >= 0) done = std::min(done, p.gone[i]), latest = done;
        // transmissions at 0, T, 2T, ... until done
        size_t must = 0, may = 0; for (int64_t k = 0; k <= f.r; k++) { if (k * f.T < done - slack || k == 0) must++; if (k * f.T <= latest + slack) may++; }
        if (f.refused) { if (!tx.empty()) violate("%s: message received by a target that refuses connections", who.c_str()); }
        else {
            if (tx.size() < must) violate("%s: sent %zu times instead of %zu", who.c_str(), tx.size(), must);
            if (tx.size() > may) violate("%s: sent %zu times instead of at most %zu", who.c_str(), tx.size(), may);
            for (size_t k = 0; k < tx.size(); k++) { if (tx[k] < (int64_t)k * f.T - 1) violate("%s: transmission %zu came early, after %ld us", who.c_str(), k, (long)tx[k]); if (tx[k] > (int64_t)k * f.T + slack) violate("%s: transmission %zu came late, after %ld us", who.c_str(), k, (long)tx[k]); }
        }
        if (p.gone[i] >= 0) continue;
        if (e.got.size() != 1) violate("%s: %zu replies", who.c_str(), e.got.size());
        int64_t at = x->var[strf("reply%zu", i)] / US - f.t0; bool failed = e.got[0].status != 0;
        if (e.got[0].status != 0 && e.got[0].status != -1) violate("%s: reply with status %d", who.c_str(), e.got[0].status);
        if (!tie && failed == ok) violate("%s: the reply reports %s", who.c_str(), failed ? "failure" : "success");
        if (at < done - 1) violate("%s: reply came early, after %ld us", who.c_str(), (long)at);
        if (at > latest + slack) violate("%s: reply came late, after %ld us", who.c_str(), (long)at);
    }
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C05"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; auto Th = thorough();
    const uint16_t P = 7892, Q = 7893;
    struct Grid { std::vector<int64_t> start, T, r, ans, gone; };
    struct O { int budget = 0; int idBase = 100; bool oneConn = false, twoTargets = false, refused = false; int64_t busy = 0, stagger = 0, listenAt = -1, handshakeAt = -1; std::string tail, before; };
    // n timed forwards with all parameters from the grid; client i sends request i
    auto add = [&](const std::string &name, int n, Grid g, O o) {
        Scenario s; s.name = name; s.budget = o.budget; std::string lib = libPath("node_small"); auto hx = std::make_shared<CtxP>();
        if (g.gone.empty()) g.gone = {-1};
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; k.opt.horizon = 10000 * SEC; CtxP x = *hx = std::make_shared<Ctx>(); auto p = std::make_shared<Plan>();
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs({})); x->cl.resize(n); p->f.resize(n); p->gone.resize(n);
            if (!o.refused && o.listenAt < 0) { addTarget(x, P, o.handshakeAt >= 0); if (o.twoTargets) addTarget(x, Q); }
            spawnActor("plan", [=] { // all combinations of parameters
                for (int i = 0; i < n; i++) { auto pick = [&](const std::vector<int64_t> &v, const char *t) { return v[v.size() > 1 ? chooseFree((int)v.size(), t) : 0]; };
                    TF f; f.id = o.idBase + i; f.T = pick(g.T, "timeout"); f.r = pick(g.r, "retries"); f.ans = pick(g.ans, "answer"); f.start = pick(g.start, "start") + i * o.stagger; f.refused = o.refused; p->f[i] = f; p->gone[i] = pick(g.gone, "gone"); }
                x->var["planned"] = 1; });
            auto reqOf = [=](int i) { const TF &f = p->f[i]; return wireMsg(f.id, o.before + cFwd(o.twoTargets && i % 2 ? Q : P, 100 + i, f.T, f.r, 1) + cCompute(1) + cReply(20) + o.tail + cReply(30 + i)); };
            for (int i = 0; i < n; i++) {
                spawnActor(strf("client%d", i), [=] {
                    actWait("node to listen", [=] { return listening(NODE_PORT) && x->var.count("planned"); });
                    Exch &e = x->cl[i]; TF &f = p->f[i];
                    if (!o.oneConn && i > 0) actWait("the client before", [=] { return x->var.count(strf("conn%d", i - 1)); }); // connections come in order
                    if (!o.oneConn || i == 0) { e.c = actConnect(NODE_PORT); x->var[strf("conn%d", i)] = 1; } else { actWait("the connection", [=] { return x->var.count("conn0"); }); e.c = x->cl[0].c; }
                    actSleepUntil(f.start * US); actStep(); K->cur->pending = false;
                    f.t0 = K->now / US; actSend(e.c, reqOf(i)); x->var[strf("sent%d", i)] = 1; actStep();
                    if (p->gone[i] >= 0) { actSleepUntil(f.t0 * US + p->gone[i] * US); actClose(e.c, i & 1); e.closed = true; actStep(); return; }
                    K->cur->eager = true;
                    auto mine = [&] { return o.oneConn ? x->cl[0].rest.size() > 0 : false; }; (void)mine;
                    if (o.oneConn) { actWait("reply", [&] { if (!x->cl[0].c->rx.empty()) { std::string b = x->cl[0].c->rx; x->cl[0].c->rx.clear(); x->cl[0].rest += b; for (auto &m : takeMsgs(x->cl[0].rest)) for (int j = 0; j < n; j++) if (m.id == (uint32_t)p->f[j].id) { x->cl[j].got.push_back(m); x->var[strf("reply%d", j)] = K->now; } } return !e.got.empty(); }); }
                    else { actWait("reply", [&] { return e.readable(); }); e.pump(); x->var[strf("reply%d", i)] = K->now; }
                    if (e.eof || e.rst) violate("the node closed a client's connection");
                });
                spawnDaemon(strf("answer%d", i), [=] {
                    actWait("the request", [=] { return x->var.count(strf("sent%d", i)) > 0; }); TF &f = p->f[i]; if (f.ans < 0) return;
                    actSleepUntil((f.t0 + f.ans) * US);
                    auto find = [&]() -> TMsg * { for (auto &m : x->fwd) if (m.m.size == 100u + i) return &m; return nullptr; };
                    actWait("the forward", [&] { return find() != nullptr; }); answer(*x, *find()); actStep();
                });
            }
            if (o.busy) spawnActor("busy", [=] { actWait("start", [=] { return listening(NODE_PORT) && x->var.count("planned"); }); Tcp *c = actConnect(NODE_PORT); actSleepUntil(chooseFree(4, "busy at") * 30 * US); actSend(c, wireMsg(9, cCompute(o.busy) + cReply(20))); actStep(); actWait("reply", [=] { return !c->rx.empty(); }); });
            if (o.listenAt >= 0) spawnActor("listen", [=] { actSleepUntil(o.listenAt * US); addTarget(x, P); actStep(); });
            if (o.handshakeAt >= 0) spawnActor("handshake", [=] { actWait("connect", [=] { return !x->lst[P]->synq.empty(); }); actSleepUntil(o.handshakeAt * US); actEstablish(x->lst[P]); actStep(); });
            addFinisher(x->node, [=] {
                actSleepUntil(K->now + 20000 * US); actWait("idle", [] { return programsIdle(); }); // nothing may happen afterwards
                for (auto &e : x->cl) if (e.c && !e.closed && !o.oneConn) { e.pump(); if (e.eof || e.rst) violate("the node closed a client's connection"); }
                if (o.listenAt < 0 && o.handshakeAt < 0) judge(x, *p, (o.busy ? o.busy + 40 : 0) + 2 * n + 2, o.busy);
                else { const TF &f = p->f[0]; const Exch &e = x->cl[0]; int64_t at = x->var["reply0"] / US, end = (f.r + 1) * f.T; bool ok = o.listenAt >= 0 ? o.listenAt < f.r * f.T : o.handshakeAt < end; // answered at once when the message arrives
                    if (e.got.size() != 1) violate("%zu replies", e.got.size());
                    if ((e.got[0].status == 0) != ok) violate("a target that becomes reachable at %ld us: the reply reports %s", (long)std::max(o.listenAt, o.handshakeAt), ok ? "failure" : "success");
                    if (!ok && (at < end - 1 || at > end + 3)) violate("failure reported after %ld us instead of %ld", (long)at, (long)end); }
                std::string out = name; for (auto &m : x->fwd) out += strf(" %u@%ld", m.m.size, (long)(m.t / US)); for (auto &e : x->cl) for (auto &m : e.got) out += strf(" %u:%d", m.id, m.status); recordOutcome(out);
            });
        };
        s.check = [=](Kernel &) { hx->reset(); };
        S.push_back(s);
    };
    add("one", 1, {{0, 35}, {100, 1000000, 1500000, 2000001}, {0, 1, 2, 3}, {-1, 0, 40, 100, 140, 200, 260, 1000000, 2500000}}, {Th ? 2 : 1});
    add("one-id0", 1, {{0, 35}, {100}, {0, 1, 2}, {-1, 40, 100, 140, 260}}, {Th ? 3 : 2, 0});
    for (int oc = 0; oc < 2; oc++) for (int tt = 0; tt < 2; tt++) {
        O o; o.oneConn = oc; o.twoTargets = tt; std::string sfx = strf("%s%s", oc ? "-conn" : "", tt ? "-targets" : "");
        add("two" + sfx, 2, {{0, 30, 100}, {100, 160, 200}, {0, 1, 2}, {-1, 40, 100, 130}}, o);
        o.idBase = 0; add("two-id0" + sfx, 2, {{0, 50}, {100, 200}, {0, 1}, {-1, 40, 120}}, o); o.idBase = 100;
        o.budget = 1; add("two-sched" + sfx, 2, {{0, 30}, {100, 130}, {0, 1}, {-1, 100}}, o);
        o.budget = 0; add("three" + sfx, 3, Th ? Grid{{0, 50}, {100, 150}, {0, 1}, {-1, 50, 120}} : Grid{{0, 50}, {100, 150}, {oc}, {-1, 60}}, o);
    }
    { O o; o.oneConn = true; add("four", 4, Th ? Grid{{0, 20}, {100, 150}, {0}, {-1, 60}} : Grid{{0}, {100, 150}, {0}, {-1}}, o); add("four-retry", 4, Th ? Grid{{0}, {100, 150, 60}, {1}, {-1, 60}} : Grid{{0}, {100, 60}, {1}, {-1}}, o); }
    // deadlines are pending all the time, for longer than an hour
    for (int oc = 0; oc < 2; oc++) { O o; o.oneConn = oc; o.stagger = 500000000; add(strf("long%s", oc ? "-conn" : ""), oc && Th ? 6 : 5, {{0}, Th ? std::vector<int64_t>{600000000, 1100000000} : std::vector<int64_t>{600000000}, {0}, Th ? std::vector<int64_t>{-1, 450000000} : std::vector<int64_t>{-1}}, o); o.stagger = 390000000; add(strf("long-retry%s", oc ? "-conn" : ""), 4, {{0}, {400000000, 300000000}, Th ? std::vector<int64_t>{1, 2} : std::vector<int64_t>{2}, {-1}}, o); }
    // clients that leave while their forward is pending
    { O o; o.stagger = 10; add("leave", 3, {{0}, {100, 150}, {Th ? 0 : 1, 1}, {-1}, {-1, 50}}, o); o.stagger = 0; add("leave-answered", 2, {{0, 20}, {100}, {0, 1}, {-1, 60, 120}, Th ? std::vector<int64_t>{-1, 50, 100} : std::vector<int64_t>{-1, 50}}, o); o.budget = 1; o.stagger = Th ? 0 : 10; add("leave-sched", 2, {{0}, {100, 150}, {Th ? 0 : 1, 1}, {-1, 60}, {-1, 50}}, o); }
    // a worker kept busy by computations of 90 us
    { O o; o.busy = 90; add("busy", 2, {{0, 30}, {100, 160}, {0, 1}, Th ? std::vector<int64_t>{-1, 40, 120} : std::vector<int64_t>{-1, 40}}, o); }
    // targets that refuse, come up later, or take long to accept
    { O o; o.refused = true; add("refused", 2, {{0, 30}, {100, 160}, {0, 1, 2}, {-1}}, o); o.budget = Th ? 3 : 2; add("refused-sched", 1, {{0}, {100}, {0, 1, 2}, {-1}}, o); }
    for (int64_t l : {50, 150, 250}) { O o; o.budget = 1; o.listenAt = l; add(strf("listen-at-%ld", (long)l), 1, {{0}, {100}, {0, 1, 2, 3}, {0}}, o); o.listenAt = -1; o.handshakeAt = l; add(strf("handshake-at-%ld", (long)l), 1, {{0}, {100}, {0, 1, 2, 3}, {0}}, o); }
    // two forwards in one request, several targets in one forward
    auto special = [&](const std::string &name, const std::string &cmds, int budget, std::function<bool(uint32_t, int)> answers, int64_t delay, int status, int64_t at, std::vector<std::pair<uint32_t, int64_t>> tx) {
        NodeScenario n; n.name = name; n.budget = budget; ClientSpec c; c.reqs = {{3, cmds, 0, (int8_t)status}}; n.clients = {c}; n.targets = {P, Q}; n.answers = false; n.checkFwd = false;
        n.extra = [=](CtxP x) { spawnDaemon("answers", [=] { size_t i = 0; for (;;) { actWait("a message", [&] { return x->fwd.size() > i; }); TMsg &f = x->fwd[i++]; int k = 0; for (auto &g : x->fwd) if (&g != &f && g.m.size == f.m.size && g.t < f.t) k++; if (answers(f.m.size, k)) { actSleepUntil(f.t + delay * US); answer(*x, f); actStep(); } } }); };
        n.settle = 5000 * US;
        n.final = [=](CtxP x, Kernel &k) {
            std::vector<std::pair<uint32_t, int64_t>> got; for (auto &f : x->fwd) got.push_back({f.m.size, (f.t + 500) / US}); auto w = tx; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end());
            bool same = w.size() == got.size(); for (size_t i = 0; same && i < w.size(); i++) same = w[i].first == got[i].first && got[i].second >= w[i].second - 1 && got[i].second <= w[i].second + 4;
            if (!same) { std::string g; for (auto &y : got) g += strf(" %u@%ld", y.first, (long)y.second); violate("messages to the targets at wrong times:%s", g.c_str()); }
            auto s = sentMsgs(k); for (auto &m : s) if (m.obj == x->cl[0].peer && (m.tFirst / US < at - 1 || m.tFirst / US > at + 4)) violate("reply sent after %ld us instead of %ld", (long)(m.tFirst / US), (long)at); };
        S.push_back(toScenario(n));
    };
    auto F = [=](uint16_t port, uint32_t size, int T, int r, bool multi = false) { return cFwd(port, size, T, r, 1, W_TCP, multi); };
    int B = Th ? 3 : 2;
    special("seq-fail-ok", F(P, 100, 100, 1) + cReply(20) + F(Q, 104, 100, 0) + cReply(20) + cReply(30), B, [](uint32_t s, int) { return s == 104; }, 30, -1, 230, {{100, 0}, {100, 100}, {104, 200}});
    special("seq-ok-fail", F(P, 100, 100, 1) + cReply(20) + F(Q, 104, 150, 1) + cReply(20) + cReply(30), B, [](uint32_t s, int) { return s == 100; }, 30, -1, 330, {{100, 0}, {104, 30}, {104, 180}});
    special("seq-same-target", F(P, 100, 100, 0) + cReply(20) + F(P, 104, 100, 1) + cReply(20) + cReply(30), B, [](uint32_t s, int k) { return s == 104 && k == 1; }, 30, -1, 230, {{100, 0}, {104, 100}, {104, 200}});
    special("seq-ok-ok", F(P, 100, 100, 1) + cReply(20) + F(Q, 104, 100, 1) + cReply(20) + cReply(30), B, [](uint32_t, int k) { return k == 1; }, 30, 0, 260, {{100, 0}, {100, 100}, {104, 130}, {104, 230}});
    special("late-answer", F(P, 100, 100, 0) + cReply(20) + F(P, 104, 300, 0) + cReply(20) + cReply(30), B, [](uint32_t s, int) { return s == 100; }, 130, -1, 400, {{100, 0}, {104, 100}});
    special("multi-none", F(P, 100, 100, 1, true) + F(Q, 104, 100, 1, true) + cReply(20, 2) + cReply(30), B, [](uint32_t, int) { return false; }, 30, -1, 200, {{100, 0}, {100, 100}, {104, 0}, {104, 100}});
    special("multi-one", F(P, 100, 100, 0, true) + F(Q, 104, 100, 0, true) + cReply(20, 2) + cReply(30), B, [](uint32_t s, int) { return s == 100; }, 30, -1, 100, {{100, 0}, {104, 0}});
    special("multi-all", F(P, 100, 100, 2, true) + F(Q, 104, 100, 2, true) + cReply(20, 2) + cReply(30), B, [](uint32_t, int) { return true; }, 30, 0, 30, {{100, 0}, {104, 0}});
    special("multi-retry-all", F(P, 100, 100, 2, true) + F(Q, 104, 100, 2, true) + cReply(20, 2) + cReply(30), B, [](uint32_t, int k) { return k == 1; }, 30, 0, 130, {{100, 0}, {104, 0}, {100, 100}, {104, 100}});
    special("multi-enough", F(P, 100, 100, 2, true) + F(Q, 104, 100, 2, true) + cReply(20, 1) + cReply(30), B, [](uint32_t s, int) { return s == 104; }, 30, 0, 30, {{100, 0}, {104, 0}});
    special("store-after-failure", F(P, 100, 100, 0) + cReply(20) + cStore(10) + cReply(30), B, [](uint32_t, int) { return false; }, 30, -1, 100, {{100, 0}});
    return runCheck(spec, argc, argv);
}
