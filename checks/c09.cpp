// C09: with several worker threads each connection is served once, by one worker.
#include "node.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C09"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const uint16_t P = 7892;
    // one kind of work per letter; the number makes storage ranges, message and reply sizes unique
    auto req = [=](char k, uint32_t n) -> Req {
        uint32_t r = 30 + 4 * n;
        switch (k) {
        case 'p': return {n, cReply(r)};
        case 'c': return {n, cCompute(100) + cReply(r)};
        case 's': return {n, cStore(10 + n, false, 40 * n) + cReply(r)};
        case 'y': return {n, cStore(10 + n, true, 40 * n) + cReply(r)};
        case 'l': return {n, cLoad(10 + n, 40 * n) + cReply(r)};
        case 'f': return {n, cFwd(P, 120 + 4 * n, 0, 0, 1) + cReply(20) + cReply(r)};
        case 't': return {n, cFwd(P, 120 + 4 * n, 1000, 1, 1) + cReply(20) + cStore(10 + n, false, 40 * n) + cReply(r)};
        }
        return {n, cReply(r)};
    };
    struct O { int budget = 1, threads = 2; bool mem = false, sameId = false, seq = false, close = false; size_t hold = 1; int sync = 0; };
    auto add = [&](std::string name, std::string mode, std::vector<std::string> cl, O o) {
        NodeScenario n; n.name = mode + "-" + name; n.budget = o.budget; n.args = {"--nt", std::to_string(o.threads), "-a", mode}; n.hold = o.hold; uint32_t k = 1;
        if (o.sync) n.args.insert(n.args.end(), {"--sync", std::to_string(o.sync)});
        if (o.mem) n.lib = "node_tsan";
        n.opts = [=](Options &q) { q.memPoints = o.mem; q.epollOrder = !o.mem; q.preemptEnv = !o.mem; q.maxSteps = 200000; };
        for (auto &w : cl) { ClientSpec c; uint32_t id = 1; for (char ch : w) { if (ch == '.') { c.oneByOne = true; continue; } if (ch == 'x') { c.close = true; continue; } if (ch == '>') { c.after = (int)n.clients.size() - 1; continue; } Req r = req(ch, k++); if (o.sameId) r.id = id++; c.reqs.push_back(r); if (ch == 'f' || ch == 't') n.targets = {P}; } n.clients.push_back(c); }
        auto C = n.clients; auto mm = mode;
        n.final = [=](CtxP x, Kernel &kk) {
            std::map<int, std::set<int>> by; for (auto &e : kk.trace) if (e.proc == 0 && (e.k == E_RECV || (e.k == E_SEND && e.a > 0))) by[e.obj].insert(e.thr);
            for (auto &b : by) if (b.second.size() > 1) violate("a connection was served by %zu threads", b.second.size());
            std::map<int, int> acc; for (auto &e : kk.trace) if (e.proc == 0 && e.k == E_ACCEPT) acc[e.obj]++;
            if (acc.size() != C.size()) violate("%zu connections were accepted instead of %zu", acc.size(), C.size());
            // every storage command exactly once
            std::map<int64_t, int> wr; for (auto &e : kk.trace) if (e.proc == 0 && (e.k == E_WRITE || e.k == E_READ) && e.b > 0) for (int64_t p = e.a; p < e.a + e.b; p++) wr[p]++;
            for (auto &c : C) for (auto &r : c.reqs) for (auto &e : interpret(r.cmds)) if (e.cmd == W_STORE || e.cmd == W_LOAD) for (uint64_t p = e.off; p < e.off + e.n; p++) { if (wr[p] != 1) violate("byte %lu of the storage was accessed %d times", (unsigned long)p, wr[p]); wr.erase(p); }
            for (auto &w : wr) if (w.second) violate("byte %ld of the storage was accessed, which nobody asked for", (long)w.first);
        };
        // interleaved memory accesses: all clients act at the same moment, so that the workers run at the same time
        if (o.mem) for (int at = 0; at < 2; at++) {
            NodeScenario m = n; m.name += at ? "-apart" : ""; m.clients.clear(); m.checkFwd = false;
            m.extra = [=](CtxP x) { x->cl.resize(C.size()); spawnActor("clients", [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); });
                for (size_t i = 0; i < C.size(); i++) { Exch &e = x->cl[i]; e.c = actConnect(NODE_PORT); if (e.c->peer) e.peer = e.c->peer->id; }
                if (at) { actStep(); actWait("idle", [] { return programsIdle(); }); }
                for (size_t i = 0; i < C.size(); i++) { Exch &e = x->cl[i]; std::string w; for (auto &r : C[i].reqs) { e.want.push_back({r.id, respSize(r), 0}); w += wireMsg(r.id, r.cmds); } actSend(e.c, w); }
                actStep(); for (auto &e : x->cl) collect(e);
                bool cl = false; for (size_t i = 0; i < C.size(); i++) if (C[i].close) { actClose(x->cl[i].c); x->cl[i].closed = cl = true; }
                if (cl) { // all close at once, then come back
                    if (!at) { actStep(); actWait("idle", [] { return programsIdle(); }); }
                    Exch e; e.c = actConnect(NODE_PORT); e.want = {{77, 20, 0}}; actSend(e.c, wireMsg(77, cReply(20))); actStep(); collect(e); actSend(e.c, wireMsg(78, cStore(9, false, 4000) + cReply(24))); e.want.push_back({78, 24, 0}); actStep(); collect(e); if (!e.bytesOk().empty()) violate("new connection: %s", e.bytesOk().c_str()); }
            }); };
            auto fin = n.final; m.final = [=](CtxP x, Kernel &kk) { bool cl = false; for (auto &c : C) cl |= c.close; if (!cl) fin(x, kk); };
            m.atIdle = [=](CtxP x) { std::vector<Req> all; for (auto &c : C) for (auto &r : c.reqs) all.push_back(r); checkForwards(*x, all); };
            S.push_back(toScenario(m));
        }
        else S.push_back(toScenario(n));
    };
    for (std::string mode : {"child", "shared", "parent"}) {
        std::vector<std::string> ks = {"p", "c", "s", "y", "l", "f", "t"};
        for (auto &a : ks) for (auto &b : ks) if (a <= b) { O o; o.budget = T ? 2 : 1; add(a + "-" + b, mode, {a, b}, o); o.sameId = true; o.budget = T ? 2 : 1; if (a == b) add(a + "-" + b + "-id", mode, {a, b}, o); }
        // memory accesses of the threads interleaved
        for (auto &a : ks) for (auto &b : ks) if (a <= b && (T || a == b || a == "p" || b == "f")) { O o; o.budget = 1; o.mem = true; add("mem-" + a + "-" + b, mode, {a, b}, o); }
        // stores that wait for the same periodic sync
        for (auto &a : {"y-y", "y-yy", "yy-s"}) { O o; o.sync = 10; std::string s = a; std::vector<std::string> w = {s.substr(0, s.find('-')), s.substr(s.find('-') + 1)}; o.budget = T ? 2 : 1; add("sync-" + s, mode, w, o); o.mem = true; o.budget = 1; add("mem-sync-" + s, mode, w, o); }
        // connections that come and go
        for (auto &a : {"px", "sx", "fx"}) { O o; o.budget = T ? 1 : 0; std::string s = a; add("reuse-" + s, mode, {s, s, ">p"}, o); add("reuse2-" + s, mode, {s, ">" + s, "p.p"}, o); o.budget = T ? 2 : 1; add("reuse3-" + s, mode, {s, ">" + s}, o); o.mem = true; o.budget = 1; add("mem-reuse-" + s, mode, {s, s}, o); }
        // a connection that goes on while others are accepted
        { O o; o.budget = T ? 3 : 2; add("goes-on", mode, {"p.p.p", "p"}, o); add("goes-on-s", mode, {"p.s", "p"}, o); o.budget = 1; add("goes-on-2", mode, {"p.p", "p", "p"}, o); o.threads = 3; add("goes-on-3", mode, {"p.p", "p"}, o); o.budget = T ? 1 : 0; add("three", mode, {"p", "s", "f"}, o); }
        // several requests per connection
        for (auto &a : {"pp", "ss", "ff", "fs"}) { O o; o.budget = 1; std::string s = a; add("pipe-" + s, mode, {s, "f"}, o); o.sameId = true; o.hold = s[0] == 'f' && s[1] == 'f' ? 3 : 1; add("pipe2-" + s, mode, {s, "f"}, o); }
    }
    // the table of requests is almost full
    for (std::string mode : {"child", "shared", "parent"}) {
        NodeScenario n; n.name = mode + "-mem-full"; n.budget = 1; n.lib = "node_tsan"; n.args = {"--nt", "2", "-a", mode}; n.targets = {P}; n.answers = false; n.opts = [=](Options &q) { q.memPoints = true; q.epollOrder = q.preemptEnv = false; q.maxSteps = 400000; };
        n.extra = [=](CtxP x) { x->cl.resize(2);
            spawnActor("clients", [=] {
                actWait("node to listen", [=] { return listening(NODE_PORT); });
                for (int c = 0; c < 2; c++) { Exch &e = x->cl[c]; e.c = actConnect(NODE_PORT); std::string w; for (int i = 0; i < 3 + c; i++) { Req r = req('f', 1 + c * 4 + i); e.want.push_back({r.id, respSize(r), 0}); w += wireMsg(r.id, r.cmds); } actSend(e.c, w); actStep(); actWait("idle", [] { return programsIdle(); }); }
                if (x->fwd.size() != 7) violate("%zu of 7 forwards were sent", x->fwd.size());
                for (int c = 0; c < 2; c++) { Exch &e = x->cl[c]; Req r = req('f', 10 + c); e.want.push_back({r.id, respSize(r), 0}); actSend(e.c, wireMsg(r.id, r.cmds)); }
                actStep(); actWait("idle", [] { return programsIdle(); });
                for (auto &f : x->fwd) answer(*x, f);
                actStep(); for (auto &e : x->cl) collect(e); }); };
        n.checkFwd = n.checkCl = false; // with all slots in use, one of the two connections may be given up
        n.atIdle = [=](CtxP x) { int lost = 0; for (auto &e : x->cl) { e.pump(); if (e.eof || e.rst) { lost++; std::vector<Exch::Want> w; for (auto &v : e.want) for (auto &g : e.got) if (g.id == v.id) w.push_back(v); e.want = w; } std::string m = e.bytesOk(); if (!m.empty()) violate("%s", m.c_str()); } if (lost > 1) violate("both connections were closed"); };
        S.push_back(toScenario(n));
    }
    return runCheck(spec, argc, argv);
}
