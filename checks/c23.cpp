// C23: UDP requests are answered to their sender and the socket stays usable.
#include "node.h"

struct UCl { Udp *u = nullptr; std::vector<Exch::Want> want; std::vector<WMsg> got; };

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C23"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892, Q = 7893;
    auto req = [=](char k, uint32_t n) -> Req {
        uint32_t r = 30 + 4 * n, f = 140 + 4 * n;
        switch (k) {
        case 'c': return {n, cCompute(50) + cReply(r)};
        case 's': return {n, cStore(10 + n, false, 40 * n) + cReply(r)};
        case 'y': return {n, cStore(10 + n, true, 40 * n) + cReply(r)};
        case 'l': return {n, cLoad(10 + n, 40 * n) + cReply(r)};
        case 'f': return {n, cFwd(P, f, 0, 0, 1) + cReply(20) + cReply(r)};
        case 'u': return {n, cFwd(Q, f, 0, 0, 1, W_UDP) + cReply(20) + cReply(r)};
        case 'U': return {n, cFwd(Q, f, 0, 0, 1, W_UDP) + cReply(20) + cStore(10 + n, false, 40 * n) + cReply(r)};
        case 'm': return {n, cFwd(Q, f, 0, 0, 1, W_UDP, true) + cFwd(P, f + 2, 0, 0, 1, W_TCP, true) + cReply(20, 2) + cReply(r)};
        case 'q': return {n, cReply(12)};
        case 'v': return {n, cFwd(Q, f, 0, 0, 1, W_UDP) + cReply(12) + cReply(r)};
        case 'w': return {n, cFwd(P, f, 0, 0, 1) + cReply(13) + cReply(r)};
        case 'b': return {n, cReply(900)};
        case 't': return {n, cFwd(7999, f, 300, 1, 1, W_UDP) + cReply(20) + cReply(r), 0, -1}; // nobody there
        case 'T': return {n, cFwd(7999, f, 300, 1, 1, W_TCP) + cReply(20) + cReply(r), 0, -1};
        }
        return {n, cReply(r)};
    };
    struct O { int budget = 1, threads = 1; bool sameId = false, oneByOne = false; size_t hold = 1; std::string sync; };
    // cl: the requests of each client, one letter each; '0' an empty datagram, 'x' the client goes away
    auto add = [&](const std::string &name, std::vector<std::string> cl, O o) {
        Scenario s; s.name = name; s.budget = o.budget; std::string lib = libPath("node_small");
        bool tcp = false, udp = false; for (auto &c : cl) for (char ch : c) { if (strchr("fwm", ch)) tcp = true; if (strchr("uUvm", ch)) udp = true; }
        s.setup = [=](Kernel &k) {
            k.opt.freeSwitch = false; k.opt.timeDev = false; CtxP x = std::make_shared<Ctx>(); auto C = std::make_shared<std::deque<UCl>>(cl.size()); auto all = std::make_shared<std::vector<Req>>();
            std::vector<std::string> a = {"-b", "udp://:7891"}; if (o.threads > 1) { a.push_back("--nt"); a.push_back(std::to_string(o.threads)); } if (!o.sync.empty()) { a.push_back("--sync"); a.push_back(o.sync); }
            x->node = spawnProgram(loadModule(lib), "node", nodeArgs(a)); if (tcp) addTarget(x, P); if (udp) addUdpTarget(x, Q); if (tcp || udp) addAnswerer(x, o.hold);
            uint32_t n = 1; std::vector<std::vector<std::pair<char, Req>>> plan; for (auto &c : cl) { plan.emplace_back(); uint32_t id = 1; for (char ch : c) { Req r = req(ch, n); if (ch != '0' && ch != 'x') n++; if (o.sameId) r.id = id++; plan.back().push_back({ch, r}); } }
            for (size_t i = 0; i < cl.size(); i++) spawnActor(strf("client%zu", i), [=] {
                actWait("node to be ready", [=] { return listening(NODE_PORT, true); }); UCl &e = (*C)[i]; e.u = actUdp(50000 + i); bool gone = false;
                auto pump = [&] { while (!e.u->rx.empty()) { Dgram d = e.u->rx.front(); e.u->rx.pop_front(); std::string b = d.data; auto v = takeMsgs(b); if (v.size() != 1 || !b.empty()) violate("client %zu received a datagram that is not exactly one reply", i); e.got.push_back(v[0]); if (d.from.port != NODE_PORT) violate("a reply came from port %u", d.from.port); } };
                auto wait = [&] { while (e.got.size() < e.want.size()) { K->cur->eager = true; actWait("replies", [&] { return !e.u->rx.empty(); }); pump(); K->cur->eager = false; actStep(); } };
                for (auto &p : plan[i]) {
                    if (p.first == '0') { actUdpSend(e.u, NODE_PORT, ""); actStep(); continue; }
                    if (p.first == 'x') { e.u->closed = true; e.want.clear(); gone = true; actStep(); break; }
                    e.want.push_back({p.second.id, respSize(p.second), p.second.status}); if (p.first != 't' && p.first != 'T') all->push_back(p.second);
                    actUdpSend(e.u, NODE_PORT, wireMsg(p.second.id, p.second.cmds)); actStep(); if (o.oneByOne) wait();
                }
                if (!gone) wait();
            });
            addFinisher(x->node, [=] {
                if (tcp || udp) { actSleepUntil(K->now + 5 * MS); actWait("idle", [] { return programsIdle(); }); }
                for (size_t i = 0; i < C->size(); i++) { UCl &e = (*C)[i]; if (e.u->closed) continue; while (!e.u->rx.empty()) { std::string b = e.u->rx.front().data; e.u->rx.pop_front(); for (auto &m : takeMsgs(b)) e.got.push_back(m); } Exch y; y.want = e.want; y.got = e.got; std::string m = y.bytesOk(); if (!m.empty()) violate("client %zu: %s", i, m.c_str()); }
                std::vector<Req> v = *all; std::map<std::pair<uint16_t, uint32_t>, int> cnt; for (auto &f : x->fwd) cnt[{f.port, f.m.size}]++;
                for (auto &r : v) for (auto &e : interpret(r.cmds)) if (e.cmd == W_FORWARD) for (size_t j = 0; j < e.ports.size(); j++) if (cnt[{e.ports[j], e.pkts[j]}] != 1) violate("request %u: its forward of %u bytes reached port %u %d times", r.id, e.pkts[j], e.ports[j], cnt[{e.ports[j], e.pkts[j]}]);
                // the socket stays usable
                Udp *u = actUdp(50100); actUdpSend(u, NODE_PORT, wireMsg(99, cReply(26))); actStep(); K->cur->low = false; actWait("the answer to one more request", [=] { return !u->rx.empty(); }); K->cur->low = true;
                std::string b = u->rx.front().data; auto m = takeMsgs(b); if (m.size() != 1 || m[0].id != 99 || m[0].size != 26 || m[0].status) violate("wrong reply to one more request");
            });
        };
        s.check = [=](Kernel &k) { std::string t = name; for (auto &e : k.trace) if (e.k == E_UDPSEND || e.k == E_SEND) t += strf(" %d:%ld", e.obj, (long)e.a); recordOutcome(t); };
        S.push_back(s);
    };
    std::vector<std::string> ks = {"p", "c", "s", "y", "l", "f", "u", "U", "m", "b", "q", "v", "w", "t", "T"};
    for (auto &a : ks) { O o; o.budget = T ? 6 : 5; if (a == "y") o.sync = "5"; add("one-" + a, {a}, o); o.budget = T ? 4 : 3; add("again-" + a, {a + "p", }, o); o.oneByOne = true; add("seq-" + a, {a + a + a}, o); }
    for (auto &a : ks) for (auto &b : ks) if (a <= b) { O o; o.budget = T ? 3 : 2; if (a == "y" || b == "y") o.sync = "5"; add("pair-" + a + "-" + b, {a, b}, o); o.sameId = true; add("pipe-" + a + "-" + b, {a + b}, o); if (a == b) add("id-" + a, {a, b}, o); }
    for (auto &a : {"pp", "su", "uf", "us", "fU", "cu"}) { O o; o.budget = T ? 2 : 1; add(std::string("three-") + a, {a, "u", "p"}, o); o.hold = strpbrk(a, "uUf") ? 2 : 1; add(std::string("three-id-") + a, {a, "us", "p"}, o); }
    for (auto &a : {"p", "s", "f", "u", "U"}) for (auto &b : {"p", "u", "s"}) { O o; o.budget = T ? 2 : 1; o.threads = 2; add(strf("threads-%s-%s", a, b), {a, b}, o); o.sameId = true; o.budget = T ? 2 : 1; add(strf("threads-pipe-%s-%s", a, b), {std::string(a) + b, b}, o); }
    for (auto &a : {"0p", "p0", "00u", "u0"}) { O o; o.budget = T ? 3 : 2; add(std::string("empty-") + a, {a}, o); o.budget = 1; add(std::string("empty2-") + a, {a, "u"}, o); }
    for (auto &a : {"px", "sx", "ux", "fx", "bx"}) { O o; o.budget = T ? 2 : 1; add(std::string("gone-") + a, {a, "p"}, o); add(std::string("gone2-") + a, {a, "u"}, o); }
    // more requests than slots, one after the other and many at once
    { O o; o.budget = 0; o.oneByOne = true; add("many-seq", {"puspfuscpuscUp"}, o); o.oneByOne = false; add("many-at-once", {"pppcsp"}, o); o.budget = 1; add("burst", {"ssss"}, o); }
    return runCheck(spec, argc, argv);
}
