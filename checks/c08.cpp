// C08: a synchronous store is acknowledged only after its data is on disk.
#include "node.h"

// judges a finished execution: for every request, its storage accesses (recognised by their own ranges), syncs and reply in the trace
static void judgeSync(CtxP x, Kernel &k, const std::vector<ClientSpec> &cl, ns_t period, bool prompt = true) {
    auto sent = sentMsgs(k);
    for (size_t c = 0; c < cl.size(); c++) for (auto &r : cl[c].reqs) {
        const Eff *rep = replyOf(r.cmds); size_t at = SIZE_MAX, prev = 0; ns_t tr = -1; int n = 0; uint32_t size = rep->size;
        for (auto &m : sent) if (m.obj == x->cl[c].peer && m.m.id == r.id && m.m.size == size) { at = m.first; tr = m.tFirst; n++; }
        if (n != 1) violate("request %u of client %zu: %d replies", r.id, c, n);
        ns_t ready = 0; // when the reply became possible
        for (auto &e : interpret(r.cmds)) if (e.cmd == W_STORE || e.cmd == W_LOAD) {
            size_t first = SIZE_MAX, last = 0; std::set<int64_t> bytes;
            for (size_t i = 0; i < k.trace.size(); i++) { const Ev &v = k.trace[i]; if (v.proc || v.k != (e.cmd == W_STORE ? E_WRITE : E_READ) || v.b <= 0) continue; int64_t lo = std::max(v.a, (int64_t)e.off), hi = std::min(v.a + v.b, (int64_t)(e.off + e.n)); if (lo >= hi) continue; first = std::min(first, i); last = i; for (int64_t p = lo; p < hi; p++) bytes.insert(p); }
            if (bytes.size() != e.n) violate("request %u of client %zu: a storage command touched %zu bytes instead of %lu", r.id, c, bytes.size(), (unsigned long)e.n);
            if (first < prev) violate("request %u of client %zu: a storage command started before the one before it was complete", r.id, c);
            prev = last; ns_t t = k.trace[last].t;
            if (e.cmd == W_STORE && e.sync) {
                size_t f = last; while (f < k.trace.size() && !(k.trace[f].k == E_FSYNC && !k.trace[f].proc)) f++;
                if (f >= at) violate("request %u of client %zu: acknowledged before its data was synced", r.id, c);
                prev = f; t = k.trace[f].t;
                if (period > 0 && t > k.trace[last].t + period) violate("request %u of client %zu: synced only %ld us after the write", r.id, c, (long)((t - k.trace[last].t) / US));
            }
            ready = std::max(ready, t);
        }
        if (at < prev) violate("request %u of client %zu: replied before its last storage command was complete", r.id, c);
        if (prompt && tr > ready + 100 * US) violate("request %u of client %zu: replied %ld us after the storage was done", r.id, c, (long)((tr - ready) / US));
    }
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C08"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    int64_t off = 0;
    // s: synchronous store, b: one larger than the buffer, w: other store, l: load, c: compute, f: forward
    auto chain = [&](const std::string &d, uint32_t reply) {
        std::string s; for (char ch : d) { int n = ch == 'b' ? 1500 : 10; if (ch == 's' || ch == 'b') s += cStore(n, true, off); else if (ch == 'w') s += cStore(n, false, off); else if (ch == 'l') s += cLoad(n, off); else if (ch == 'f') { s += cFwd(7892, 100, 0, 0, 1) + cReply(20); continue; } else { s += cCompute(10); continue; } off += n; }
        return s + cReply(reply);
    };
    struct O { int budget = 1; std::string sync; int threads = 1; std::vector<ns_t> start; bool shortIO = false, timeDev = false; std::string mode = ""; };
    auto add = [&](std::string name, std::vector<std::vector<std::string>> cl, O o) {
        NodeScenario n; n.name = name; n.budget = o.budget; if (!o.sync.empty()) n.args = {"--sync", o.sync}; off = 0; ns_t period = o.sync.empty() ? 0 : atoi(o.sync.c_str()) * MS; uint32_t size = 20;
        if (o.threads > 1) { n.args.push_back("--nt"); n.args.push_back(std::to_string(o.threads)); }
        for (size_t i = 0; i < cl.size(); i++) { ClientSpec c; uint32_t id = 1; for (auto &d : cl[i]) { c.reqs.push_back({id++, chain(d, size), 0}); size += 4; if (d.find('f') != std::string::npos) n.targets = {7892}; } if (i < o.start.size()) c.start = o.start[i]; n.clients.push_back(c); }
        n.opts = [=](Options &q) { q.shortIO = o.shortIO; q.timeDev = o.timeDev; if (o.shortIO) q.preemptEnv = q.epollOrder = false; };
        auto C = n.clients; n.final = [=](CtxP x, Kernel &k) { judgeSync(x, k, C, o.timeDev ? 0 : period, !o.timeDev); };
        S.push_back(toScenario(n));
    };
    std::vector<std::string> ds = {"s", "w", "l", "b", "ss", "sw", "ws", "sl", "cs", "sc", "wsl", "sfs", "fs", "sf"};
    for (std::string sy : {"", "5"}) for (auto &d : ds) { O o; o.budget = T ? 6 : 5; o.sync = sy; if (d.find('f') != std::string::npos) o.budget--; add("one-" + d + (sy.empty() ? "" : "-periodic"), {{d}}, o); }
    for (std::string sy : {"", "5"}) for (auto &a : {"s", "w", "l", "sw", "sl"}) for (auto &b : {"s", "w", "l", "b", "ws"}) {
        O o; o.budget = T ? 4 : 3; o.sync = sy; std::string m = std::string(a) + "-" + b + (sy.empty() ? "" : "-periodic");
        add("pipe-" + m, {{a, b}}, o); o.budget = T ? 3 : 2; add("conn-" + m, {{a}, {b}}, o); o.threads = 2; if (!T && (strlen(a) > 1 || *b != 's')) o.budget = 1; add("threads-" + m, {{a}, {b}}, o);
    }
    // requests around the moment of a periodic sync
    for (ns_t t : {4900 * US, 4999 * US, 5000 * US, 5001 * US}) for (auto &a : {"s", "b", "sw", "ss"}) for (int th = 1; th < 3; th++) {
        O o; o.budget = T ? 3 : 2; o.sync = "5"; o.threads = th; o.start = {t, 5 * MS}; std::string m = strf("%s-%ld-t%d", a, (long)(t / US), th); add("tick-" + m, {{a}}, o); o.budget = T ? 2 : 1; add("tick2-" + m, {{a}, {"s"}}, o); o.start = {t - 10 * US, t}; add("tick3-" + m, {{a, "w"}, {"s"}}, o);
    }
    // four stores from two connections
    for (int th = 1; th < 3; th++) for (std::string sy : {"", "5"}) { O o; o.budget = T ? 2 : 1; o.sync = sy; o.threads = th; o.start = {0, 4990 * US}; add(strf("four-t%d%s", th, sy.empty() ? "" : "-periodic"), {{"s", "w"}, {"s", "s"}}, o); o.start = {0, 0}; add(strf("four-same-t%d%s", th, sy.empty() ? "" : "-periodic"), {{"s", "ws"}, {"s", "l"}}, o); }
    // short counts
    for (std::string sy : {"", "5"}) for (auto &d : {"b", "s", "ws", "sb"}) { O o; o.budget = T ? 5 : 4; o.sync = sy; o.shortIO = true; add(std::string("short-") + d + (sy.empty() ? "" : "-periodic"), {{d}}, o); }
    // time passing while the threads are running
    for (auto &d : {"s", "b", "sw"}) for (int th = 1; th < 3; th++) { O o; o.budget = T ? 3 : 2; o.sync = "5"; o.timeDev = true; o.threads = th; add(strf("time-%s-t%d", d, th), {{d}}, o); o.budget = T ? 2 : 1; add(strf("time2-%s-t%d", d, th), {{d}, {"s"}}, o); }
    // periods of different length; several periods
    for (auto p : {"1", "999", "1000", "1500", "2001"}) { O o; o.budget = 1; o.sync = p; ns_t t = atoi(p) * MS; o.start = {t + t / 2, 3 * t}; add(strf("period-%s", p), {{"s"}, {"s"}}, o); }
    // many requests lost while they wait, then others
    for (int k : {3, 12}) for (int reset = 0; reset < 2; reset++) {
        NodeScenario n; n.name = strf("lost-%d-%s", k, reset ? "reset" : "close"); n.budget = T ? 1 : 0; n.args = {"--sync", "5"}; ClientSpec c; c.reqs = {{1, cStore(10, true, 900) + cReply(20), 0}, {2, cStore(10, true, 920) + cReply(24), 0}}; n.clients = {c}; auto C = n.clients; n.clients.clear(); n.checkCl = false;
        n.extra = [=](CtxP x) { x->cl.resize(1); spawnActor("clients", [=] {
            actWait("node to listen", [=] { return listening(NODE_PORT); });
            for (int i = 0; i < k; i++) { Tcp *t = actConnect(NODE_PORT); actStep(); actSend(t, wireMsg(1, cStore(10, true, 20 * i) + cReply(20))); actStep(); actWait("idle", [] { return programsIdle(); }); actClose(t, reset); actStep(); actWait("idle", [] { return programsIdle(); }); }
            clientBody(x, 0, C[0]); }); };
        n.atIdle = [=](CtxP x) { checkClients(*x); }; n.final = [=](CtxP x, Kernel &k2) { judgeSync(x, k2, C, 5 * MS); };
        S.push_back(toScenario(n));
    }
    return runCheck(spec, argc, argv);
}
