// C14: connection retries happen as often and as spaced as configured.
#include "client.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C14"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    auto add = [&](const std::string &name, std::vector<std::string> args, int threads, int sessions, int pps, int retries, ns_t period, bool slowShake, bool nolisten, int budget) {
        Scenario s; s.name = name; s.budget = budget; std::string lib = libPath("client_small");
        std::vector<std::string> a = {"-n", std::to_string(pps * sessions), "--ns", std::to_string(sessions), "--nt", std::to_string(threads), "-C", "5", "--ps", "48", "-p", "1000"}; a.insert(a.end(), args.begin(), args.end());
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.freeSwitch = false; k.opt.preemptEnv = false;
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(a));
            struct Att { int thr, sock; ns_t at, end; bool ok; }; auto atts = std::make_shared<std::vector<Att>>(); SrvOpt o; o.pps = pps;
            if (!nolisten) {
                w->lst = actListen(NODE_PORT, true);
                spawnDaemon("server", [=] {
                    for (;;) {
                        actWait("a connection", [=] { return !w->lst->synq.empty(); });
                        if (slowShake) actSleepUntil(K->now + 300 * US);
                        if (w->lst->synq.empty()) continue; // the client is gone
                        int sock = w->lst->synq.front()->id; bool ok = chooseFree(2, "accept or refuse"); int thr = connectThread(sock); atts->push_back({thr, sock, connectTime(sock), K->now, ok});
                        if (!ok) { actRefuse(w->lst); actStep(); continue; }
                        actEstablish(w->lst); Tcp *c = actAccept(w->lst); if (!c) continue; w->conns.emplace_back(); w->conns.back().c = c; w->conns.back().sock = sock; actStep();
                    }
                });
                for (int i = 0; i < threads * sessions; i++) spawnDaemon(strf("conn%d", i), [=] { actWait("its connection", [=] { return (int)w->conns.size() > i; }); srvHandle(w, w->conns[i], o); });
            }
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; });
                if (nolisten) for (auto &e : K->trace) if (e.k == E_CONNECT) atts->push_back({e.thr, e.obj, e.t, e.t, false});
                bool fatal = false; int given = 0; ns_t end = K->now; std::string oc;
                std::map<int, std::vector<Att>> by; for (auto &x : *atts) by[x.thr].push_back(x);
                for (auto &b : by) {
                    int run = 0, sess = 0; ns_t prev = -1;
                    for (auto &x : b.second) {
                        if (run && x.at != prev + period) violate("attempt %d of session %d came %ld us after the previous one failed instead of %ld us", run + 1, sess, (long)((x.at - prev) / US), (long)(period / US));
                        if (run >= retries) violate("more than %d attempts to connect", retries);
                        prev = x.end; oc += x.ok ? 'y' : 'n';
                        if (x.ok) { run = 0; sess++; } else if (++run == retries) fatal = true;
                    }
                    if (run && run < retries) given = run;
                }
                if (given && !fatal) violate("only %d attempts out of %d", given, retries);
                for (auto &x : *atts) if (!x.ok) { // a failed attempt gives its socket back, before the next attempt
                    bool closed = false; ns_t next = end; for (auto &y : *atts) if (y.thr == x.thr && y.at > x.at && y.at < next) next = y.at;
                    for (auto &e : K->trace) if (e.k == E_CLOSE && e.obj == x.sock && e.t <= next) closed = true;
                    if (!closed && next < end) violate("the socket of a failed attempt was not closed"); }
                if (fatal) {
                    if (w->cl->status == 0) violate("the client exited with success although it could not connect");
                    if (w->cl->status < 0 || w->cl->status > 255) violate("the client was killed (%d)", w->cl->status);
                    if (w->cl->err.find("failed") == std::string::npos && w->cl->out.find("failed") == std::string::npos) violate("the failure to connect is not reported");
                } else {
                    if (w->cl->status != 0) violate("the client exited with status %d although it could connect: %s", w->cl->status, w->cl->err.c_str());
                    if ((int)by.size() != threads || (int)w->conns.size() != threads * sessions) violate("%zu sessions instead of %d", w->conns.size(), threads * sessions);
                    for (auto &x : w->conns) { if ((int)x.reqs.size() != pps) violate("a session carried %zu requests instead of %d", x.reqs.size(), pps); for (auto &r : x.reqs) if (r.answered < 0) violate("a request was not answered"); }
                    if ((int)reportLines(w->cl->out).size() != threads * sessions * pps && (slowShake || oc.find('n') != std::string::npos || true)) { // requests sent in the very first microsecond are not judged
                        for (auto &x : w->conns) for (auto &m : sentOn(x.sock)) if (m.start >= US) { bool f = false; for (auto &l : reportLines(w->cl->out)) if (l.id == (int)get<uint32_t>(m.bytes, 0)) f = true; if (!f) violate("no report line for a request"); } }
                }
                bool times = std::find(args.begin(), args.end(), "--conn-times") != args.end(); // the time each session took to connect, failed attempts included
                if (times && !fatal) {
                    std::multiset<std::pair<int, long>> want, got; std::set<std::pair<int, int>> who;
                    for (auto &b : by) { int sess = 0; ns_t first = -1; for (auto &x : b.second) { if (first < 0) first = x.at; if (x.ok) { want.insert({sess, (long)((x.end - first) / US)}); sess++; first = -1; } } }
                    std::string out = w->cl->out; for (size_t q = 0; (q = out.find("conn_time: ", q)) != std::string::npos; q++) { long us = -1; int id = -1, thr = -1, sess = -1;
                        if (sscanf(out.c_str() + q, "conn_time: %ld us, req_id: %d, thr_id: %d, sess_id: %d", &us, &id, &thr, &sess) != 4) violate("unreadable connection time");
                        if (id != sess * pps || thr < 0 || thr >= threads || !who.insert({thr, sess}).second) violate("connection time of request %d, thread %d, session %d", id, thr, sess); got.insert({sess, us}); }
                    if (got.size() != want.size()) violate("%zu connection times for %zu sessions", got.size(), want.size());
                    for (auto g = got.begin(), e = want.begin(); g != got.end(); ++g, ++e) if (g->first != e->first || labs(g->second - e->second) > 2) violate("session %d took %ld us to connect, but %ld us were reported", e->first, e->second, g->second);
                }
                recordOutcome(name + oc + (fatal ? "f" : ""));
            });
        };
        S.push_back(s);
    };
    auto str = [](long v) { return std::to_string(v); };
    for (int th = 1; th <= 2; th++) for (int ns = 1; ns <= 3; ns++) for (int r = 1; r <= (T ? 5 : 4); r++) for (int pps = 1; pps <= 2; pps++) for (ns_t p : {200, 350}) for (int slow = 0; slow < 2; slow++) {
        if (th == 2 && (ns == 3 || r > 3 || (ns == 2 && (pps == 2 || r > 2 || p == 350)))) continue;
        std::vector<std::string> a = {"--retry-num", str(r)}; if (p != 200) { a.push_back("--retry-period"); a.push_back(str(p)); } if (slow || pps == 2) a.push_back("--conn-times"); if (pps == 2) a.push_back("--pso");
        add(strf("%dthr-%dx%d-r%d-p%ld%s", th, ns, pps, r, (long)p, slow ? "-slow" : ""), a, th, ns, pps, r, p * MS, slow, false, th == 2 ? (pps == 2 || ns == 2 ? 1 : 2) + T : r > 3 && ns == 3 ? 2 : 3 + T);
    }
    for (int th = 1; th <= 2; th++) for (int r = 1; r <= 4; r++) for (ns_t p : {200, 1000}) add(strf("nobody-%dthr-r%d-p%ld", th, r, (long)p), {"--retry-num", str(r), "--retry-period", str(p)}, th, 1, 1, r, p * MS, false, true, 2);
    add("default", {}, 1, 1, 1, 1, 200 * MS, false, false, 2); add("default-nobody", {}, 1, 1, 1, 1, 200 * MS, false, true, 2);
    return runCheck(spec, argc, argv);
}
