// Scenario engine for checks that drive a node: scripted clients, forward targets, reference interpretation of command chains.
#pragma once
#include "common.h"

// ------------------------------------------------------------------ reference interpretation of a command chain
struct Eff { int cmd; uint32_t us = 0; uint64_t n = 0, off = 0; bool sync = false; std::vector<uint16_t> ports; std::vector<uint32_t> pkts; std::string nested; uint32_t pkt = 0, timeout = 0; int retries = 0, nack = 1, proto = W_TCP; uint32_t size = 0; };
// the effects this node must perform for a chain, ending with the reply
inline std::vector<Eff> interpret(const std::string &cmds) {
    std::vector<Eff> v; size_t o = 0;
    auto at = [&](size_t x) { return x + 4 <= cmds.size() ? get<int32_t>(cmds, x) : (int)W_EOM; };
    while (at(o) != W_EOM) {
        Eff e; e.cmd = at(o);
        switch (e.cmd) {
        case W_COMPUTE: e.us = get<uint32_t>(cmds, o + 4); o += 8; break;
        case W_STORE: e.off = get<uint64_t>(cmds, o + 4); e.n = get<uint64_t>(cmds, o + 12); e.sync = get<uint8_t>(cmds, o + 20); o += 28; break;
        case W_LOAD: e.off = get<uint64_t>(cmds, o + 4); e.n = get<uint64_t>(cmds, o + 12); o += 20; break;
        case W_REPLY: e.size = get<uint32_t>(cmds, o + 4); e.nack = get<uint8_t>(cmds, o + 8); o += 12; break;
        case W_FORWARD: case W_MULTI: {
            bool multi = e.cmd == W_MULTI;
            do {
                e.pkt = get<uint32_t>(cmds, o + 4); e.pkts.push_back(e.pkt); e.ports.push_back(ntohs(get<uint16_t>(cmds, o + 12))); e.timeout = get<uint32_t>(cmds, o + 16); e.retries = get<uint8_t>(cmds, o + 20); e.proto = get<int32_t>(cmds, o + 24);
                o += 28;
            } while (multi && at(o) == W_MULTI);
            size_t b = std::min(o, cmds.size()); int depth = 1;
            while (depth > 0 && at(o) != W_EOM) {
                int c = at(o);
                if (c == W_FORWARD) depth++;
                else if (c == W_MULTI) { depth++; while (at(o + 28) == W_MULTI) o += 28; }
                else if (c == W_REPLY) { depth--; if (!depth) e.nack = get<uint8_t>(cmds, o + 8); }
                o += cmdSize(c);
            }
            e.nested = cmds.substr(b, o - b) + cEom(); e.cmd = W_FORWARD;
            for (auto &p : e.pkts) p = std::max(p, (uint32_t)(HDR + e.nested.size())); e.pkt = e.pkts.back(); // never shorter than its commands
            break; }
        default: return v;
        }
        v.push_back(e);
        if (e.cmd == W_REPLY) break;
    }
    return v;
}
inline const Eff *replyOf(const std::string &cmds) { static thread_local std::vector<Eff> v; v = interpret(cmds); for (auto &e : v) if (e.cmd == W_REPLY) return &e; return nullptr; }

// ------------------------------------------------------------------ actors
struct Req { uint32_t id; std::string cmds; size_t total = 0; int8_t status = 0; bool answered = true; };
inline uint32_t respSize(const Req &r) { const Eff *e = replyOf(r.cmds); return e ? e->size : 0; }

struct TMsg { uint16_t port; Tcp *c; Udp *u; Addr from; WMsg m; ns_t t; bool answered; size_t at; size_t answeredAt = SIZE_MAX; ns_t answeredT = -1; };
struct ById { bool operator()(const Obj *a, const Obj *b) const { return a->id < b->id; } }; // the order must not depend on addresses
struct Ctx {
    Proc *node = nullptr; std::deque<Exch> cl; std::deque<TMsg> fwd; std::map<uint16_t, Tcp *> lst; std::map<uint16_t, Udp *> ulst; std::map<Tcp *, std::string, ById> rest; std::map<Tcp *, uint16_t, ById> tconn; // connections accepted by targets
    int sent = 0; bool stop = false; std::map<std::string, int64_t> var;
    size_t unanswered() const { size_t n = 0; for (auto &f : fwd) n += !f.answered; return n; }
};
typedef std::shared_ptr<Ctx> CtxP;

// a forward target: accepts, records every complete message; answers are given elsewhere
inline void addTarget(CtxP x, uint16_t port, bool manual = false, size_t rxcap = 1 << 30) {
    x->lst[port] = actListen(port, manual);
    spawnDaemon(strf("target%u", port), [=] {
        Tcp *l = x->lst[port];
        for (;;) {
            auto readable = [&](Tcp *c) { return !c->closed && (!c->rx.empty()); };
            actWait("connections or messages", [&] { if (!l->acceptq.empty()) return true; for (auto &c : x->tconn) if (c.second == port && readable(c.first)) return true; return false; });
            while (!l->acceptq.empty()) { Tcp *c = actAccept(l); if (!c) break; c->rxcap = rxcap; x->tconn[c] = port; }
            for (auto &c : x->tconn) if (c.second == port && readable(c.first)) {
                x->rest[c.first] += actRecv(c.first);
                for (auto &m : takeMsgs(x->rest[c.first])) x->fwd.push_back({port, c.first, nullptr, {}, m, K->now, false, K->trace.size()});
            }
            actStep();
        }
    })->eager = rxcap >= (1 << 30);
}
inline void addUdpTarget(CtxP x, uint16_t port) {
    Udp *u = x->ulst[port] = actUdp(port);
    spawnDaemon(strf("utarget%u", port), [=] {
        for (;;) {
            actWait("datagrams", [&] { return !u->rx.empty(); });
            while (!u->rx.empty()) { Dgram d = u->rx.front(); u->rx.pop_front(); std::string s = d.data; auto v = takeMsgs(s); if (v.size() != 1 || !s.empty()) violate("a target received a datagram that is not exactly one message"); x->fwd.push_back({port, nullptr, u, d.from, v[0], K->now, false, K->trace.size()}); }
            actStep();
        }
    })->eager = true;
}
inline void answer(Ctx &x, TMsg &t, int8_t status = 0) {
    const Eff *r = replyOf(t.m.raw.substr(HDR)); t.answered = true; t.answeredAt = K->trace.size(); t.answeredT = K->now;
    if (!r) violate("a target received a message without a reply command");
    std::string m = wireReply(t.m.id, r->size, status);
    if (t.u) actUdpSend(t.u, t.from.port, m); else if (!t.c->closed) actSend(t.c, m);
    (void)x;
}
// answers messages: the k-th one once `hold` messages have come in, in every order
inline void addAnswerer(CtxP x, size_t hold = 1, bool anyOrder = true) {
    spawnDaemon("answers", [=] {
        for (;;) {
            actWait("messages to answer", [&] { return x->fwd.size() >= hold && x->unanswered() > 0; });
            std::vector<TMsg *> v; for (auto &f : x->fwd) if (!f.answered) v.push_back(&f);
            int i = anyOrder && v.size() > 1 ? chooseFree((int)v.size(), "answer") : 0;
            answer(*x, *v[i]); actStep();
        }
    });
}

struct ClientSpec {
    std::vector<Req> reqs; int cuts = 0; bool oneByOne = false; // oneByOne: next request only after the previous reply
    size_t rxcap = 1 << 30; int drains = 0;                      // number of partial reads with every amount from drainSet
    std::vector<size_t> drainSet; bool late = false;             // late: read nothing before the node is idle and all requests are sent
    bool close = false; ns_t start = 0; int after = -1;          // start only after client `after` got its replies
    int8_t wantStatus = 0;
};
inline void sendCut(Tcp *c, const std::string &all, int cuts) {
    size_t from = 0;
    for (int i = 0; i < cuts && from < all.size(); i++) { size_t n = 1 + chooseFree((int)(all.size() - from), "cut"); actSend(c, all.substr(from, n)); from += n; actStep(); }
    if (from < all.size()) { actSend(c, all.substr(from)); actStep(); }
}
inline void clientBody(CtxP x, size_t i, const ClientSpec &cs, uint16_t port = NODE_PORT) {
    Exch &e = x->cl[i];
    actWait("node to listen", [=] { return listening(port); });
    if (cs.after >= 0) actWait("the previous client", [&] { return x->cl[cs.after].finished; });
    if (cs.start) actSleepUntil(cs.start);
    e.c = actConnect(port, cs.rxcap);
    if (!e.c) violate("connection refused by a listening node");
    if (e.c->peer) e.peer = e.c->peer->id;
    actStep();
    std::string all;
    for (auto &r : cs.reqs) {
        if (r.answered) e.want.push_back({r.id, respSize(r), r.status});
        std::string w = wireMsg(r.id, r.cmds, r.total);
        if (cs.oneByOne) { sendCut(e.c, w, cs.cuts); collect(e); } else all += w;
    }
    if (!cs.oneByOne) sendCut(e.c, all, cs.cuts);
    for (int d = 0; d < cs.drains && !e.complete(); d++) {
        actWait("data", [&] { return e.readable(); });
        size_t n = cs.drainSet[chooseFree((int)cs.drainSet.size(), "drain")];
        e.rest += actRecv(e.c, n); for (auto &m : takeMsgs(e.rest)) e.got.push_back(m);
        actStep();
    }
    collect(e, cs.drains > 0); // the choices were made before; now read at once
    e.finished = true;
    if (cs.close) { actClose(e.c); e.closed = true; actStep(); }
}
inline void checkClients(Ctx &x) {
    for (auto &e : x.cl) if (e.c && !e.closed) {
        e.pump(); std::string m = e.bytesOk(); if (!m.empty()) violate("%s", m.c_str());
        if (e.eof || e.rst) violate("the node closed a client's connection");
    }
}
// every forward of every request reached its targets exactly once (times: number of transmissions expected per forward)
inline void checkForwards(Ctx &x, const std::vector<Req> &reqs) {
    std::map<std::pair<uint16_t, std::string>, int> want;
    for (auto &r : reqs) for (auto &e : interpret(r.cmds)) if (e.cmd == W_FORWARD) for (size_t i = 0; i < e.ports.size(); i++) { std::string k; put(k, e.pkts[i]); want[{e.ports[i], k + e.nested}]++; }
    for (auto &f : x.fwd) {
        std::string k; put(k, f.m.size); k += f.m.cmds();
        if (--want[{f.port, k}] < 0) violate("target %u received a message of %u bytes that no forward asked for (or twice)", f.port, f.m.size);
    }
    for (auto &w : want) if (w.second > 0) violate("a forward never reached target %u", w.first.first);
    for (auto &r : x.rest) if (!r.second.empty()) violate("target %u received %zu stray bytes", x.tconn[r.first], r.second.size());
}

// ------------------------------------------------------------------ what the program did, from the trace
struct SentMsg { int obj; WMsg m; size_t first, last; ns_t tFirst, tLast; };
// the messages a program sent, per socket, with the trace positions of their first and last byte
inline std::vector<SentMsg> sentMsgs(Kernel &k, int proc = 0) {
    struct St { std::string buf; std::vector<std::pair<size_t, size_t>> ev; }; // ev: (stream position, trace index)
    std::map<int, St> s; std::vector<SentMsg> v;
    for (size_t i = 0; i < k.trace.size(); i++) {
        const Ev &e = k.trace[i]; if (e.proc != proc) continue;
        if (e.k == E_UDPSEND) { std::string b = e.s; for (auto &m : takeMsgs(b)) v.push_back({e.obj, m, i, i, e.t, e.t}); continue; }
        if (e.k != E_SEND || e.a <= 0) continue;
        St &t = s[e.obj]; for (size_t j = 0; j < e.s.size(); j++) t.ev.push_back({0, i});
        t.buf += e.s; size_t before = t.buf.size(); auto ms = takeMsgs(t.buf); size_t used = before - t.buf.size(), o = 0;
        for (auto &m : ms) { size_t f = t.ev[o].second, l = t.ev[o + m.size - 1].second; v.push_back({e.obj, m, f, l, k.trace[f].t, k.trace[l].t}); o += m.size; }
        t.ev.erase(t.ev.begin(), t.ev.begin() + used);
    }
    return v;
}

// ------------------------------------------------------------------ order of effects
// every command has unmistakable parameters: the k-th compute of a scenario takes 2^k ms, storage commands have their own byte range,
// forwards their own message size; requests are told apart by their commands
struct Span { size_t b, e; std::string what; bool compute = false; };

inline void checkOrder(CtxP x, Kernel &k, const std::vector<ClientSpec> &clients) {
    auto sent = sentMsgs(k);
    // computations, as a set of powers of two
    uint64_t wantBits = 0, gotBits = 0; std::map<int, Span> comp;
    for (auto &c : clients) for (auto &r : c.reqs) for (auto &e : interpret(r.cmds)) if (e.cmd == W_COMPUTE) wantBits |= e.us / 1000;
    for (size_t i = 0; i < k.trace.size(); i++) {
        const Ev &e = k.trace[i]; if (e.k != E_CPU || e.proc != 0) continue;
        int64_t ms = e.a / MS; if (e.a % MS > 900 * US) violate("a computation took %ld us, more than asked", (long)(e.a / US));
        for (int b = 0; b < 20; b++) if (ms >> b & 1) {
            if (!(wantBits >> b & 1)) violate("a computation of %d ms was executed that is not part of any request (or a wrong time: %ld us in all)", 1 << b, (long)(e.a / US));
            if (gotBits >> b & 1) violate("the computation of %d ms was executed twice", 1 << b);
            gotBits |= 1ull << b; comp[1 << b] = {i, i, ""};
        }
    }
    for (auto &c : clients) for (size_t q = 0; q < c.reqs.size(); q++) {
        auto &r = c.reqs[q]; std::vector<Span> sp;
        for (auto &e : interpret(r.cmds)) {
            Span s{SIZE_MAX, 0, ""};
            if (e.cmd == W_COMPUTE) {
                auto it = comp.find(e.us / 1000); s.what = strf("compute %u us", e.us);
                if (it == comp.end()) violate("request %u: %s was never executed (or was shorter)", r.id, s.what.c_str());
                s.b = it->second.b; s.e = it->second.e;
            } else if (e.cmd == W_STORE || e.cmd == W_LOAD) {
                s.what = strf("%s of %lu bytes", e.cmd == W_STORE ? "store" : "load", (unsigned long)e.n); std::map<int64_t, int> bytes;
                for (size_t i = 0; i < k.trace.size(); i++) {
                    const Ev &v = k.trace[i]; if (v.k != (e.cmd == W_STORE ? E_WRITE : E_READ) || v.proc != 0 || v.b <= 0) continue;
                    int64_t lo = std::max(v.a, (int64_t)e.off), hi = std::min(v.a + v.b, (int64_t)(e.off + e.n));
                    if (lo >= hi) continue;
                    s.b = std::min(s.b, i); s.e = std::max(s.e, i); for (int64_t p = lo; p < hi; p++) bytes[p]++;
                }
                if (bytes.size() != e.n) violate("request %u: %s touched %zu bytes of its range", r.id, s.what.c_str(), bytes.size());
                for (auto &p : bytes) if (p.second != 1) violate("request %u: %s was executed %d times", r.id, s.what.c_str(), p.second);
            } else if (e.cmd == W_FORWARD) {
                s.what = strf("forward of %u bytes", e.pkt); std::vector<size_t> ans;
                for (size_t t = 0; t < e.ports.size(); t++) {
                    int n = 0; for (auto &m : sent) if (m.m.size == e.pkts[t] && m.m.cmds() == e.nested) { s.b = std::min(s.b, m.first); n++; }
                    if (n != 1) violate("request %u: forward of %u bytes was sent %d times", r.id, e.pkts[t], n);
                    for (auto &f : x->fwd) if (f.m.size == e.pkts[t] && f.m.cmds() == e.nested && f.answered) ans.push_back(f.answeredAt);
                }
                std::sort(ans.begin(), ans.end()); s.e = ans.size() >= (size_t)e.nack ? ans[e.nack - 1] : SIZE_MAX; // done with the last answer needed
            } else if (e.cmd == W_REPLY) {
                s.what = "reply"; int n = 0;
                for (auto &m : sent) if (m.m.size == e.size && m.m.id == r.id && (m.m.size < HDR + 4 || m.m.cmds() == cEom())) { s.b = m.first; s.e = m.last; n++; }
                if (n != 1) violate("request %u: %d replies were sent", r.id, n);
            }
            s.compute = e.cmd == W_COMPUTE; sp.push_back(s);
        }
        for (size_t i = 0; i + 1 < sp.size(); i++) if (sp[i].e >= sp[i + 1].b && !(sp[i].compute && sp[i + 1].compute)) violate("request %u: %s started before %s was complete", r.id, sp[i + 1].what.c_str(), sp[i].what.c_str());
    }
    // nothing else touched the storage
    int64_t want = 0, got = 0; for (auto &c : clients) for (auto &r : c.reqs) for (auto &e : interpret(r.cmds)) if (e.cmd == W_STORE || e.cmd == W_LOAD) want += e.n;
    for (auto &e : k.trace) if (e.proc == 0 && (e.k == E_WRITE || e.k == E_READ) && e.b > 0) got += e.b;
    if (got != want) violate("storage commands moved %ld bytes instead of %ld", (long)got, (long)want);
}

struct NodeScenario {
    std::string name; int budget = 1; std::vector<std::string> args; std::string lib = "node_small";
    std::vector<ClientSpec> clients; std::vector<uint16_t> targets, udpTargets; size_t hold = 1; bool answers = true, anyOrder = true, manual = false; size_t targetCap = 1 << 30;
    std::function<void(Options &)> opts; std::function<void(CtxP)> extra; // extra: more actors
    std::function<void(CtxP)> atIdle; std::function<void(CtxP, Kernel &)> final; ns_t settle = 0; bool checkFwd = true, checkCl = true;
};
inline Scenario toScenario(NodeScenario n) {
    Scenario s; s.name = n.name; s.budget = n.budget; std::string lib = libPath(n.lib);
    auto N = std::make_shared<NodeScenario>(std::move(n));
    auto hold = std::make_shared<CtxP>();
    s.setup = [=](Kernel &k) {
        const NodeScenario &n = *N;
        k.opt.freeSwitch = false; k.opt.timeDev = false;
        if (n.opts) n.opts(k.opt);
        CtxP x = *hold = std::make_shared<Ctx>();
        x->node = spawnProgram(loadModule(lib), "node", nodeArgs(n.args));
        x->cl.resize(n.clients.size());
        for (auto p : n.targets) addTarget(x, p, n.manual, n.targetCap);
        for (auto p : n.udpTargets) addUdpTarget(x, p);
        if (n.answers && (n.targets.size() || n.udpTargets.size())) addAnswerer(x, n.hold, n.anyOrder);
        if (n.manual) for (auto p : n.targets) spawnDaemon(strf("handshake%u", p), [=] { for (;;) { actWait("handshakes", [&] { return !x->lst[p]->synq.empty(); }); actEstablish(x->lst[p]); actStep(); } });
        for (size_t i = 0; i < n.clients.size(); i++) spawnActor(strf("client%zu", i), [=] { clientBody(x, i, N->clients[i]); });
        if (n.extra) n.extra(x);
        addFinisher(x->node, [=] {
            if (N->manual) { actWait("handshakes to complete", [=] { for (auto &l : x->lst) if (!l.second->synq.empty()) return false; return true; }); actStep(); actWait("idle", [] { return programsIdle(); }); actStep(); actWait("targets to read", [=] { for (auto &c : x->tconn) if (!c.first->closed && !c.first->rx.empty()) return false; for (auto &l : x->lst) if (!l.second->acceptq.empty()) return false; return true; }); }
            if (N->settle) { actSleepUntil(K->now + N->settle); actWait("idle", [] { return programsIdle(); }); }
            if (N->checkCl) checkClients(*x);
            if (N->checkFwd) { std::vector<Req> all; for (auto &c : N->clients) for (auto &r : c.reqs) all.push_back(r); checkForwards(*x, all); }
            if (N->atIdle) N->atIdle(x);
        });
    };
    s.check = [=](Kernel &k) {
        if (N->final) N->final(*hold, k);
        if (*hold) { std::string o = N->name; for (auto &e : (*hold)->cl) { o += "|"; for (auto &g : e.got) o += strf("%u:%d ", g.id, g.status); if (e.eof) o += "eof"; if (e.rst) o += "rst"; } for (auto &f : (*hold)->fwd) o += strf("/%u:%u", f.port, f.m.id); recordOutcome(o); }
        hold->reset();
    };
    return s;
}
