// C12: the client sends exactly the configured requests, on schedule.
#include "client.h"

typedef std::function<ns_t(int k, ns_t t)> Gap; // pause after request k (counted over the whole run), sent at time t after the start

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C12"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    struct Cfg { std::string name; std::vector<std::string> args; int threads = 1, sessions = 1, n = 1; std::vector<uint32_t> sizes; std::function<std::string(int)> cmds; Gap gap; SrvOpt o; int budget = 1; bool timeDev = false; ns_t tick = 0; bool mem = false, stag = false, lower = false, udp = false, full = false; std::map<std::string, std::string> files; std::set<std::string> oneOf; };
    auto add = [&](Cfg c) {
        Scenario s; s.name = c.name; s.budget = c.budget; std::string lib = libPath(c.mem ? "client_tsan" : c.full ? "client_full" : "client_small");
        int pps = (c.n + c.sessions - 1) / c.sessions; c.o.pps = pps;
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = c.timeDev; k.opt.freeSwitch = false; k.opt.preemptEnv = false; k.opt.clocktick = c.tick; if (c.mem) { k.opt.memPoints = true; k.opt.maxSteps = 300000; } if (c.tick) k.opt.maxSteps = 200000; if (c.name.compare(0, 4, "long") == 0) k.opt.horizon = 100000 * SEC;
            if (c.threads * c.sessions * pps > 4 && !T) k.opt.actorFree = false;
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(c.args)); for (auto &f : c.files) w->cl->files[f.first] = f.second;
            if (c.udp) addUdpServer(w, c.o); else addServer(w, c.threads * c.sessions + 1, [=](int) { return c.o; });
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; });
                if (w->cl->status != 0) violate("the client exited with status %d: %s", w->cl->status, w->cl->err.c_str());
                std::map<int, std::vector<CConn *>> by; for (auto &x : w->conns) by[connectThread(x.sock)].push_back(&x);
                if ((int)by.size() != c.threads) violate("%zu threads opened connections instead of %d", by.size(), c.threads);
                int ti = 0;
                for (auto &b : by) {
                    if ((int)b.second.size() != c.sessions) violate("a thread opened %zu sessions instead of %d", b.second.size(), c.sessions);
                    int k = 0; ns_t prevEnd = 0;
                    for (auto x : b.second) {
                        auto sent = sentOn(x->sock); if ((int)sent.size() != pps) violate("a session carried %zu requests instead of %d", sent.size(), pps);
                        ns_t start = sent[0].start, conn = connectTime(x->sock), est = c.udp ? conn : x->est, due = 0, late = 0, slack = 8 * c.tick + c.o.readDelay;
                        if (conn < prevEnd) violate("a session began before the previous one of the same thread was over");
                        for (int i = 0; i < pps; i++, k++) {
                            auto &m = sent[i]; uint32_t id = get<uint32_t>(m.bytes, 0);
                            if (id != (uint32_t)k) violate("request number %d carries the identifier %u", k, id);
                            if (!m.size) violate("request %d was cut", k);
                            WMsg wm{id, (uint32_t)m.size, (int8_t)m.bytes[8], m.bytes}; std::string want = c.cmds(k) + cEom(); uint32_t need = (uint32_t)(HDR + want.size()), size = c.sizes[k % c.sizes.size()]; if (size < need) size = need;
                            if (wm.size != size) violate("request %d has %u bytes instead of %u", k, wm.size, size);
                            if (wm.status != 0) violate("request %d has status %d", k, wm.status);
                            if (c.oneOf.empty() ? normCmds(wm.cmds()) != want : !c.oneOf.count(normCmds(wm.cmds()))) violate("request %d does not carry the configured commands", k);
                            ns_t lo = est + due; // the session starts when the connection is there, at the earliest
                            if (m.start < lo) violate("request %d was sent %ld us before its time", k, (long)((lo - m.start) / US));
                            if (!c.timeDev && !c.lower && i && m.start > std::max(start + due, late) + slack) violate("request %d was sent %ld us late", k, (long)((m.start - std::max(start + due, late)) / US));
                            late = m.end; due += c.gap(k, m.start);
                        }
                        if (!c.timeDev && !c.lower && start > est + slack) violate("the first request of a session was sent %ld us after the connection", (long)((start - est) / US));
                        if (c.stag && x == b.second[0]) { ns_t w0 = 200 * MS + (c.gap(0, 0) * ti / c.threads) + c.o.establish * !c.udp; if (llabs(start - w0) > c.o.establish + 2 * US) violate("thread %d starts %ld us after the beginning instead of %ld us", ti, (long)(start / US), (long)(w0 / US)); }
                        for (auto &r : x->reqs) prevEnd = std::max(prevEnd, r.answered);
                    }
                    ti++;
                }
                recordOutcome(c.name + strf("%zu", K->trace.size()));
            });
        };
        S.push_back(s);
    };
    auto fixedCmds = [](std::string s) { return [=](int) { return s; }; };
    auto fixedGap = [](ns_t g) { return [=](int, ns_t) { return g; }; };
    auto str = [](long v) { return std::to_string(v); };
    const std::string C5 = cCompute(5) + cReply(512);
    // counts, sessions, threads, pacing
    for (int th = 1; th <= (T ? 3 : 2); th++) for (int ns = 1; ns <= 3; ns++) for (int n = 1; n <= 5; n++) {
        int pps = (n + ns - 1) / ns, tot = pps * ns * th;
        for (int mode = 0; mode < 5; mode++) {
            Cfg c; c.threads = th; c.sessions = ns; c.n = n; c.sizes = {64}; c.cmds = fixedCmds(C5);
            c.args = {"-n", str(n), "--ns", str(ns), "--nt", str(th), "-C", "5", "--ps", "64"};
            ns_t p = mode == 1 ? 2500 * US : mode == 2 ? 0 : mode == 3 ? 4 * MS : 1 * MS; c.gap = fixedGap(p);
            if (mode == 3) { c.args.push_back("-r"); c.args.push_back("250"); } else { c.args.push_back("-p"); c.args.push_back(str(p / US)); }
            if (mode == 1) { c.args.push_back("--pso"); }
            if (mode == 4) { if (th == 3) continue; c.args.push_back("--ws"); c.tick = 50 * US; c.lower = th > 1; }
            c.budget = (mode == 4 ? 1 : tot > 6 ? 2 : 4) + T; c.o.lazy = tot < 5; c.o.latency = 30 * US; c.o.establish = 500 * US;
            c.name = strf("%dthr-%dx%d-%s", th, ns, n, mode == 0 ? "ms" : mode == 1 ? "pso" : mode == 2 ? "burst" : mode == 3 ? "rate" : "spin"); add(c);
            if (mode == 0) { Cfg d = c; d.name += "-late"; d.o.rxcap = 30; d.o.readDelay = 700 * US; d.o.lazy = false; d.budget = th == 1 ? 4 : 2; add(d); Cfg e = c; e.name += "-jitter"; e.timeDev = true; e.o.lazy = false; e.budget = th == 1 ? 3 + T : 1 + T; add(e); }
            if (mode == 0 && th > 1) { Cfg d = c; d.name += "-stag"; d.stag = true; d.args.push_back("--stag-send"); d.o.lazy = false; d.budget = 2 + T; d.o.establish = 20 * US; add(d); }
            if (mode < 2) { Cfg d = c; d.name += "-udp"; d.udp = true; d.stag = mode == 0; if (d.stag) d.args.push_back("--stag-send"); d.args.push_back("--to"); d.args.push_back("udp://:7891"); d.o.lazy = false; d.budget = 2 + T; d.o.establish = 0; add(d); }
        }
    }
    // sizes: too small for the commands, exact, large, varying
    struct Sz { std::string arg; std::vector<uint32_t> v; };
    for (Sz z : {Sz{"20", {20}}, Sz{"35", {35}}, Sz{"36", {36}}, Sz{"37", {37}}, Sz{"958", {958}}, Sz{"aseq:min=20,max=100,step=40,avg=20", {20, 60, 100, 100}}, Sz{"file:sizes.txt,100", {30, 400, 90, 30}}, Sz{"512b", {512}}, Sz{"0.9k", {900}}})
        for (int slow = 0; slow < 2; slow++) { Cfg c; c.name = "size-" + z.arg + (slow ? "-slow" : ""); c.n = 4; c.sizes = z.v; c.cmds = fixedCmds(C5); c.gap = fixedGap(MS); c.args = {"-n", "4", "-C", "5", "-p", "1000", "--ps", z.arg}; c.files["sizes.txt"] = "30\n400\n90\n"; if (slow) { c.o.rxcap = 25; c.o.readDelay = 300 * US; } c.budget = 2; add(c); }
    { Cfg c; c.name = "size-default"; c.n = 2; c.sizes = {1024}; c.cmds = fixedCmds(C5); c.gap = fixedGap(MS); c.args = {"-n", "2", "-C", "5", "-p", "1000"}; c.budget = 2; add(c); }
    { std::string many; Cfg c; c.args = {"-n", "2", "-p", "1000", "--ps", "40"}; for (int i = 0; i < 20; i++) { many += cStore(100, true); c.args.push_back("-S"); c.args.push_back("100"); } c.name = "size-many"; c.n = 2; c.sizes = {40}; c.cmds = fixedCmds(many + cReply(512)); c.gap = fixedGap(MS); c.budget = 2; add(c); }
    // full-size client, with the sizes of the original tables
    for (long sz : {64L, 1024L, 60000L}) { Cfg c; c.name = strf("full-%ld", sz); c.full = true; c.n = 3; c.sizes = {(uint32_t)sz}; c.cmds = fixedCmds(cCompute(7) + cReply(512)); c.gap = fixedGap(MS); c.args = {"-n", "3", "-C", "7", "-p", "1ms", "--ps", str(sz)}; c.budget = 0; add(c); }
    // values that change from request to request
    { Cfg c; c.name = "varying-2thr"; c.n = 4; c.threads = 2; c.sizes = {64}; c.cmds = fixedCmds(C5); c.gap = [](int k, ns_t) { return std::min<ns_t>(1000 + 500 * k, 2000) * US; }; c.args = {"-n", "4", "--nt", "2", "-C", "5", "-p", "aseq:min=1000,max=2000,step=500", "--ps", "64"}; c.budget = 2; add(c); }
    for (int ns = 1; ns <= 2; ns++) {
        Cfg c; c.name = strf("varying-%d", ns); c.n = 4; c.sessions = ns; c.sizes = {64}; c.cmds = [](int k) { return cCompute(std::min(10 + 10 * k, 30)) + cReply(512); }; c.gap = [](int k, ns_t) { return std::min<ns_t>(1000 + 500 * k, 2000) * US; };
        c.args = {"-n", "4", "--ns", str(ns), "-C", "aseq:min=10,max=30,step=10", "-p", "aseq:min=1000,max=2000,step=500", "--ps", "64"}; c.budget = 2; add(c);
        Cfg d; d.name = strf("file-%d", ns); d.n = 4; d.sessions = ns; d.sizes = {64}; d.cmds = [](int k) { return cCompute(k % 3 == 0 ? 11 : k % 3 == 1 ? 5 : 8) + cReply(512); }; d.gap = [](int k, ns_t) { return (k % 2 ? 300 : 900) * US; };
        d.args = {"-n", "4", "--ns", str(ns), "-C", "file:c.txt", "-p", "file:p.txt,unit=ms", "--ps", "64"}; d.files = {{"c.txt", "11\n5\n8\n"}, {"p.txt", "0.9\n0.3\n"}}; d.budget = 2; add(d);
    }
    // threads that draw from the same list of values at the same time
    for (int v = 1; v <= (T ? 3 : 2); v++) {
        Cfg c; c.name = strf("mem-file-%d", v); c.mem = true; c.o.establish = 0; c.threads = 2; c.n = 2; c.sizes = {64}; c.cmds = fixedCmds(C5); c.gap = fixedGap(MS); std::string f; for (int i = 0; i < v; i++) { f += str(10 + i) + "\n"; c.oneOf.insert(cCompute(10 + i) + cReply(512) + cEom()); }
        c.files = {{"c.txt", f}}; c.args = {"-n", "2", "--nt", "2", "-C", "file:c.txt", "-p", "1000", "--ps", "64"}; c.budget = 1 + T; add(c);
    }
    // runs of hours
    for (long sec : {1000L, 2000L, 2500L, 5000L}) for (int ns = 1; ns <= 2; ns++) for (int pso = 0; pso < 2; pso++) { Cfg c; c.name = strf("long-%ld-%d%s", sec, ns, pso ? "-pso" : ""); c.n = 6; c.sessions = ns; c.sizes = {64}; c.cmds = fixedCmds(C5); c.gap = fixedGap(sec * SEC); c.args = {"-n", "6", "--ns", str(ns), "-C", "5", "--ps", "64", "-p", str(sec) + "s"}; if (pso) c.args.push_back("--pso"); c.budget = 1; add(c); }
    // rate ramps: in the n-th step the pause is that of the n-th rate
    for (int th = 1; th <= 2; th++) for (int ns = 1; ns <= 2; ns++) for (int pso = 0; pso < 2; pso++) for (int kind = 0; kind < 3; kind++) {
        std::vector<int> rates = kind == 0 ? std::vector<int>{2, 4} : kind == 1 ? std::vector<int>{1, 2, 4} : std::vector<int>{3, 1, 5}; int nr = (int)rates.size(), n = 0; 
        Cfg c; c.threads = th; c.sessions = ns; c.sizes = {64}; c.cmds = fixedCmds(C5); c.files = {{"r.txt", "3\n1\n5\n"}};
        c.args = {"--rss", "1", "--ns", str(ns), "--nt", str(th), "-C", "5", "--ps", "64", "-r", kind == 0 ? "aseq:min=2,max=4,step=2" : kind == 1 ? "gseq:min=1,max=4,step=2" : "file:r.txt"};
        bool automatic = kind == 0 || kind == 2; if (automatic) { n = kind == 0 ? 6 : 9; c.args.insert(c.args.end(), {"-n", "auto"}); } else { n = 7; c.args.insert(c.args.end(), {"-n", "7"}); }
        c.n = n; if (pso) c.args.push_back("--pso");
        c.gap = [=](int, ns_t t) { int st = (int)(t / SEC); int r = kind == 2 ? rates[st % nr] : rates[std::min(st, nr - 1)]; return (ns_t)(1e9 / r); };
        c.o.establish = 100 * US; c.budget = th == 1 ? 1 : 0; c.name = strf("ramp%d-%dthr-%d%s", kind, th, ns, pso ? "-pso" : ""); add(c);
    }
    return runCheck(spec, argc, argv);
}
