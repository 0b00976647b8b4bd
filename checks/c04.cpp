// C04: forwards carry exactly the nested commands and wait for the required answers.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C04"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; auto T = thorough();
    const uint16_t P = 7892, Q = 7893, R = 7894;
    auto opts = [](Options &o) { o.cputick = 50 * US; };
    const std::vector<std::string> args = {"-s", "/data/store", "-m", "1000000"};
    auto add = [&](NodeScenario n, bool order = true) {
        n.opts = opts; n.args.insert(n.args.begin(), args.begin(), args.end());
        if (order) { auto N = std::make_shared<std::vector<ClientSpec>>(n.clients); auto prev = n.final; n.final = [=](CtxP x, Kernel &k) { checkOrder(x, k, *N); if (prev) prev(x, k); }; }
        S.push_back(toScenario(n));
    };
    // all shapes: a sequence of up to 2 items, where an item is a computation, a store, or a forward to 1-3 targets of up to 2 nested items
    uint32_t pkt = 0, base = 180; int comp = 0; uint64_t off = 0;
    std::function<std::string(const std::string &, size_t &, bool)> build = [&](const std::string &sh, size_t &i, bool top) { // shape string -> commands
        std::string s;
        while (i < sh.size() && sh[i] != ')') {
            char c = sh[i++];
            if (c == 'c') s += cCompute(top ? 1000u << comp++ : 700 + i);
            else if (c == 's') { off += 40; s += cStore(11 + i, false, off); }
            else { // f: one target, m: two, t: three, d: the same target twice
                std::vector<uint16_t> ports = c == 'f' ? std::vector<uint16_t>{P} : c == 'g' ? std::vector<uint16_t>{Q} : c == 'm' ? std::vector<uint16_t>{P, Q} : c == 'd' ? std::vector<uint16_t>{Q, Q} : std::vector<uint16_t>{P, Q, R};
                int nack = isdigit(sh[i]) ? sh[i++] - '0' : (int)ports.size(); i++; // '('
                for (auto p : ports) { s += cFwd(p, base + 3 * pkt++, 0, 0, 1, W_TCP, ports.size() > 1); }
                s += build(sh, i, false) + cReply(24 + 2 * i, nack); i++; // ')'
            }
        }
        return s;
    };
    auto chain = [&](const std::string &sh, uint32_t resp) { size_t i = 0; return build(sh, i, true) + cReply(resp); };
    auto reset = [&] { pkt = 0; comp = 0; off = 0; };
    std::vector<std::string> leaf = {"", "c", "s", "f()", "m()", "cc", "f(c)", "cf()", "f()c", "m2()", "m(c)s", "f(f())", "f(m())"}, sh;
    for (auto f : {"f(", "m(", "m1(", "d(", "d1("}) for (auto &l : leaf) if (*f == 'f' || l[0] != 'm') sh.push_back(f + l + ")"); // a run of multi-forward commands is one group, by definition
    for (auto f : {"t1(", "t2(", "t3("}) for (auto l : {"", "c", "f()"}) sh.push_back(f + std::string(l) + ")");
    std::vector<std::string> seq = sh;
    for (auto a : {"f()", "m1(c)", "m()", "g(s)", "d1()", "c", "s"}) for (auto b : {"f()", "m1(c)", "m()", "g(f(c))", "d1()", "c", "s"}) if (std::string(a).size() > 1 || std::string(b).size() > 1) seq.push_back(std::string(a) + b);
    for (auto a : {"m1()m1()", "f()f()f()", "f()m1()f()", "cf()s", "sf()c", "m1()sm1()"}) seq.push_back(a);
    for (auto &s : seq) for (int man = 0; man < 2; man++) {
        NodeScenario n; n.name = "shape-" + s + (man ? "-handshake" : ""); n.budget = T ? 2 : 1; ClientSpec c; reset(); c.reqs = {{4, chain(s, 33), 0}}; n.clients = {c}; n.targets = {P, Q, R}; n.manual = man;
        size_t k = 0; for (auto &e : interpret(c.reqs[0].cmds)) if (!k) k = e.ports.size();
        n.hold = k ? k : 1; // every answer order of the first group
        if (man && s.size() > 8) continue;
        add(n);
    }
    // every chain of up to 5 nodes of any nesting: what the targets receive and where the request goes on
    { std::map<std::pair<int, int>, std::vector<std::string>> memo; // (nodes, first may not be a multi-forward) -> sequences
        std::function<const std::vector<std::string> &(int, int)> seqs = [&](int n, int nom) -> const std::vector<std::string> & {
            auto it = memo.find({n, nom}); if (it != memo.end()) return it->second; std::vector<std::string> v; if (!n) v.push_back("");
            if (n) for (auto &r : seqs(n - 1, 0)) v.push_back("c" + r);
            for (int k = 0; k < n; k++) for (auto f : {"f(", "m1("}) if (!nom || *f != 'm') for (auto &in : seqs(k, *f == 'm')) for (auto &r : seqs(n - 1 - k, 0)) v.push_back(f + in + ")" + r);
            return memo[{n, nom}] = v; };
        base = 500; for (int n = 1; n <= 5; n++) { std::vector<std::string> w; for (auto &q : seqs(n, 0)) if (q.find('f') != q.npos || q.find('m') != q.npos) w.push_back(q);
            for (auto &q : w) { NodeScenario x; x.name = "chain-" + q; x.budget = T ? 1 : 0; ClientSpec c; reset(); std::string cmds = chain(q, 33); size_t len = cmds.size() + HDR + 4; if (len > 1000) continue; c.reqs = {{4, cmds, 0}}; x.clients = {c}; x.targets = {P, Q}; x.anyOrder = false; add(x); } }
        base = 180; }
    // required answers only: the request must go on with them, and surplus ones (after the reply, or while it waits for something else) change nothing
    for (auto s : {"m1()", "t1()", "t2(c)", "m1()s", "d1()", "m1()c", "t1()s"}) for (int when = 0; when < 2; when++) {
        NodeScenario n; n.name = strf("exact-%s-%d", s, when); n.budget = T ? 3 : 2; ClientSpec c; reset(); c.reqs = {{4, chain(s, 33), 0}}; ClientSpec d; d.reqs = {{9, cReply(20), 0}}; d.after = 0; n.clients = {c, d}; n.targets = {P, Q, R}; n.answers = false;
        auto e0 = std::make_shared<Eff>(interpret(c.reqs[0].cmds)[0]);
        n.extra = [=](CtxP x) { spawnActor("answers", [=] {
            actWait("all messages", [&] { return x->fwd.size() >= e0->ports.size(); });
            for (size_t i = 0; i < e0->ports.size(); i++) {
                if ((int)i == e0->nack && when) actWait("the reply", [&] { return x->cl[0].got.size() > 0; });
                std::vector<TMsg *> v; for (auto &f : x->fwd) if (!f.answered) v.push_back(&f);
                answer(*x, *v[v.size() > 1 ? chooseFree((int)v.size(), "answer") : 0]); actStep();
            } }); };
        add(n);
    }
    // surplus answers while the request waits for a synchronous store, or for another forward to the same or another target
    for (int k = 0; k < 4; k++) {
        NodeScenario n; n.name = strf("surplus-%s", k == 0 ? "sync" : k == 1 ? "other" : k == 2 ? "same" : "late"); n.budget = T ? 3 : 2; ClientSpec c; n.args = {"--sync", "5"};
        c.reqs = {{4, cFwd(P, 100, 0, 0, 1, W_TCP, true) + cFwd(Q, 110, 0, 0, 1, W_TCP, true) + cReply(20, 1) + (k == 0 ? cStore(30, true, 0) : k == 1 ? cFwd(R, 120, 0, 0, 1) + cCompute(4) + cReply(20) : cFwd(Q, 120, 0, 0, 1) + cCompute(4) + cReply(20)) + cReply(40), 0}};
        ClientSpec d; d.reqs = {{9, cReply(20), 0}}; d.after = 0; n.clients = {c, d}; n.targets = {P, Q, R}; n.answers = false;
        n.extra = [=](CtxP x) { spawnActor("answers", [=] {
            actWait("both messages", [&] { return x->fwd.size() >= 2; });
            int first = chooseFree(2, "first"); answer(*x, x->fwd[first]); actStep();
            if (k == 0) { if (chooseFree(2, "wait")) actWait("the node to be idle", [] { return programsIdle(); }); answer(*x, x->fwd[1 - first]); actStep(); return; }
            actWait("the second forward", [&] { return x->fwd.size() >= 3; });
            if (k == 3) { answer(*x, x->fwd[2]); actStep(); answer(*x, x->fwd[1 - first]); actStep(); return; }
            answer(*x, x->fwd[1 - first]); actStep(); actWait("the node to be idle", [] { return programsIdle(); });
            if (x->cl[0].c->rxtotal) violate("a surplus answer to an earlier forward completed a later one");
            answer(*x, x->fwd[2]); actStep();
        }); };
        n.final = [=](CtxP x, Kernel &k2) { if (k == 0) { size_t sync = 0, rep = 0; for (size_t i = 0; i < k2.trace.size(); i++) { if (k2.trace[i].k == E_FSYNC && !sync) sync = i; if (k2.trace[i].k == E_SEND && k2.trace[i].obj == x->cl[0].peer && !rep) rep = i; } if (rep < sync || !sync) violate("a surplus answer released a request that waits for a sync"); } };
        add(n);
    }
    // answers nobody waits for: unknown, repeated and never used identifiers
    for (uint32_t id : {0xffffffffu, 5u, 123456u, 0u, 7u, 15u}) for (int dup = 0; dup < 2; dup++) {
        NodeScenario n; n.name = strf("stray-%u-%s", id, dup ? "repeated" : "unknown"); n.budget = T ? 2 : 1; ClientSpec c; c.reqs = {{4, cFwd(P, 100, 0, 0, 1) + cReply(20) + cStore(11, false, 40) + cReply(40), 0}, {5, cFwd(P, 104, 0, 0, 1) + cReply(20) + cReply(44), 0}}; n.clients = {c}; n.targets = {P}; n.answers = false;
        if (dup && id > 7) continue;
        n.extra = [=](CtxP x) { spawnActor("answers", [=] {
            actWait("both messages", [&] { return x->fwd.size() >= 2; }); int first = chooseFree(2, "first"); Tcp *t = x->fwd[0].c;
            auto stray = [&] { uint32_t i = dup ? x->fwd[first].m.id : id; if (!dup && (i == x->fwd[0].m.id || i == x->fwd[1].m.id)) return; actSend(t, wireMsg(i, "", 20)); actStep(); };
            if (!dup) stray();
            answer(*x, x->fwd[first]); actStep(); stray(); answer(*x, x->fwd[1 - first]); actStep(); stray(); }); };
        add(n);
    }
    // several requests sharing targets: every order of answers, on one connection and on two
    for (auto a : {"f()", "m()", "m1(c)", "f(c)c", "f()f()", "sg()"}) for (auto b : {"f()", "m()", "d()", "cf()s"}) for (int two = 0; two < 2; two++) {
        NodeScenario n; n.name = strf("%s-%s-%s", two ? "conn" : "pipe", a, b); n.budget = T ? 2 : 1; ClientSpec c, d; reset(); c.reqs = {{4, chain(a, 33), 0}}; (two ? d : c).reqs.push_back({5, chain(b, 37), 0}); n.clients = {c}; if (two) n.clients.push_back(d); n.targets = {P, Q}; n.hold = 2; n.manual = two; add(n);
    }
    { NodeScenario n; n.name = "three"; n.budget = 1; ClientSpec c; reset(); c.reqs = {{4, chain("f()", 33), 0}, {5, chain("g(c)", 37), 0}, {6, chain("m()", 39), 0}}; n.clients = {c}; n.targets = {P, Q}; n.hold = T ? 4 : 3; add(n); }
    // answers cut into pieces at every position, and glued together
    for (int k = 0; k < 2; k++) {
        NodeScenario n; n.name = strf("cut-answers-%d", k); n.budget = 1; ClientSpec c; reset(); c.reqs = {{4, chain("f()", 33), 0}, {5, chain("f(c)s", 37), 0}}; n.clients = {c}; n.targets = {P}; n.answers = false;
        n.extra = [=](CtxP x) { spawnActor("answers", [=] { actWait("both messages", [&] { return x->fwd.size() >= 2; }); std::string all; for (int i = 0; i < 2; i++) { auto &f = x->fwd[k ? 1 - i : i]; all += wireMsg(f.m.id, "", replyOf(f.m.raw.substr(HDR))->size); f.answered = true; f.answeredAt = K->trace.size(); } sendCut(x->fwd[0].c, all, 1); }); };
        add(n);
    }
    // every message size around the size of the nested commands, which is never cut
    for (int nested : {0, 1, 3, 40, 80}) for (int multi = 0; multi < 2; multi++) for (int d : {-1000, -40, -13, -12, -5, -4, -1, 0, 1}) {
        std::string in; for (int i = 0; i < nested; i++) in += cCompute(5 + i); in += cReply(31, 1 + multi); int sz = HDR + (int)in.size() + 4 + d; if (sz < 0) { if (d != -1000) continue; sz = 0; }
        NodeScenario n; n.name = strf("size-%d-%d%+d", nested, multi, d); n.budget = 0; ClientSpec c; std::string f = cFwd(P, sz, 0, 0, 1, W_TCP, multi); if (multi) f += cFwd(Q, sz, 0, 0, 1, W_TCP, true);
        c.reqs = {{4, f + in + cStore(12, false, 40) + cReply(33), 0}, {5, cReply(22), 0}}; n.clients = {c}; n.targets = {P, Q}; add(n, false);
    }
    // answers down to the smallest size, alone and next to others
    for (uint32_t a : {12, 13, 15, 16}) for (uint32_t b : {12, 14, 16}) for (int cut = 0; cut < 2; cut++) {
        NodeScenario n; n.name = strf("answer-%u-%u-%s", a, b, cut ? "cut" : "whole"); n.budget = 1; ClientSpec c; c.reqs = {{7, cFwd(P, 100, 0, 0, 1) + cReply(a) + cCompute(1000) + cReply(20), 0}, {6, cFwd(P, 104, 0, 0, 1) + cCompute(5) + cReply(b) + cReply(12), 0}, {5, cReply(12), 0}}; n.clients = {c}; n.targets = {P}; n.answers = false;
        n.extra = [=](CtxP x) { spawnActor("answers", [=] { actWait("both messages", [&] { return x->fwd.size() >= 2; }); std::string all; int k = chooseFree(2, "first"); for (int i = 0; i < 2; i++) { auto &f = x->fwd[k ? 1 - i : i]; all += wireReply(f.m.id, replyOf(f.m.raw.substr(HDR))->size); f.answered = true; f.answeredAt = K->trace.size(); } sendCut(x->fwd[0].c, all, cut); }); };
        add(n);
    }
    // messages waiting for the connection to the target, up to and beyond the room there is: a message is either sent as a whole or not at all
    for (int room = 0; room < 70; room++) for (int small = 0; small < 2; small++) {
        NodeScenario n; n.name = strf("room-%d-%d", room, small); n.budget = 0; ClientSpec c; std::string in = cCompute(5) + cReply(31); int need = HDR + (int)in.size() + 4;
        c.reqs = {{4, cFwd(P, 1024 - room, 0, 0, 1) + cReply(20) + cReply(40), 0}}; ClientSpec d; d.reqs = {{5, cFwd(P, small ? 12 : need, 0, 0, 1) + in + cReply(41), 0}}; n.clients = {c, d}; n.targets = {P}; n.manual = true;
        n.checkFwd = n.checkCl = false; n.opts = opts; bool fits = room >= need;
        n.atIdle = [=](CtxP x) { int ok = 0; for (auto &e : x->cl) { e.pump(); ok += e.bytesOk().empty(); }
            if (ok < (fits ? 2 : 1)) violate("%d of 2 requests were answered although there was room for %s", ok, fits ? "both" : "one");
            for (auto &r : x->rest) if (!r.second.empty()) violate("the target received %zu stray bytes", r.second.size());
            for (auto &f : x->fwd) if (f.m.cmds() != in + cEom() && f.m.cmds() != cReply(20) + cEom()) violate("the target received a message with wrong commands"); };
        n.args = args; S.push_back(toScenario(n));
    }
    // targets that differ in one part of their address only: host, port or protocol
    { struct To { uint32_t ip; uint16_t port; int proto; uint16_t key; }; const std::vector<To> to = {{LOOP, P, W_TCP, P}, {LOOP + 1, P, W_TCP, 9001}, {LOOP + 1, Q, W_TCP, 9002}, {LOOP, P, W_UDP, P}, {LOOP, Q, W_UDP, Q}, {LOOP + (1u << 24), P, W_TCP, 9003}};
        auto at = [](const To &t, uint32_t size, bool multi) { std::string f = cFwd(t.port, size, 0, 0, 1, t.proto, multi); uint32_t ip = htonl(t.ip); memcpy(&f[8], &ip, 4); return f; };
        for (size_t a = 0; a < to.size(); a++) for (size_t b = 0; b < to.size(); b++) for (int how = 0; how < 4; how++) { // one forward after the other, both at once, in two requests, in two connections
            NodeScenario n; n.name = strf("address-%zu-%zu-%d", a, b, how); n.budget = T ? 2 : 1; n.targets = {P, Q, 9001, 9002, 9003}; n.udpTargets = {P, Q}; n.checkFwd = false; n.anyOrder = false; ClientSpec c, d; std::string tail = cCompute(5) + cReply(20);
            if (how == 0) c.reqs = {{4, at(to[a], 200, false) + tail + at(to[b], 203, false) + tail + cReply(40), 0}}; else if (how == 1) c.reqs = {{4, at(to[a], 200, true) + at(to[b], 203, true) + cCompute(5) + cReply(20, 2) + cReply(40), 0}};
            else { c.reqs = {{4, at(to[a], 200, false) + tail + cReply(40), 0}}; (how == 2 ? c : d).reqs.push_back({5, at(to[b], 203, false) + tail + cReply(41), 0}); }
            n.clients = {c}; if (how == 3) n.clients.push_back(d);
            n.extra = [=](CtxP x) { for (auto &t : to) if (t.key > 9000) x->lst[t.key]->local = {t.ip, t.port}; };
            n.atIdle = [=](CtxP x) { if (x->fwd.size() != 2) violate("%zu messages reached the targets instead of 2", x->fwd.size());
                for (auto &f : x->fwd) { const To &t = to[f.m.size == 200 ? a : b]; if (f.port != t.key || (f.u != nullptr) != (t.proto == W_UDP)) violate("a message for %s port %u of host %x reached another target (%u)", t.proto == W_UDP ? "UDP" : "TCP", t.port, t.ip, f.port); } };
            add(n, false); } }
    // a node that is its own target
    for (auto s : {1, 2}) {
        NodeScenario n; n.name = strf("self-%d", s); n.budget = T ? 3 : 2; ClientSpec c; std::string f = cFwd(NODE_PORT, 150, 0, 0, 1) + cStore(12, false, 40) + cReply(25); c.reqs = {{4, s == 1 ? f + cReply(30) : cFwd(NODE_PORT, 200, 0, 0, 1) + f + cReply(21) + cReply(30), 0}, {5, cReply(22), 0}}; n.clients = {c}; n.checkFwd = false; add(n, false);
    }
    return runCheck(spec, argc, argv);
}
