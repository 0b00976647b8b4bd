// C13: the client's report is complete and true.
#include "client.h"

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C13"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    auto add = [&](const std::string &name, std::vector<std::string> args, int threads, int sessions, int pps, SrvOpt o, int budget, bool race = false, bool udp = false) {
        Scenario s; s.name = name; s.budget = budget; std::string lib = libPath("client_small"); o.pps = pps;
        std::vector<std::string> a = {"-n", std::to_string(pps * sessions), "--ns", std::to_string(sessions), "--nt", std::to_string(threads), "-C", "5", "--ps", "48"}; a.insert(a.end(), args.begin(), args.end());
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.freeSwitch = false; k.opt.preemptEnv = race; k.opt.postSend = race; if (threads * sessions * pps > 4 && !T) k.opt.actorFree = false;
            if (name.compare(0, 4, "long") == 0) k.opt.horizon = 100000 * SEC;
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(a));
            if (udp) addUdpServer(w, o); else addServer(w, threads * sessions, [=](int) { return o; });
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; });
                if (w->cl->status != 0) violate("the client exited with status %d: %s", w->cl->status, w->cl->err.c_str());
                if ((int)w->conns.size() != threads * sessions) violate("%zu connections instead of %d", w->conns.size(), threads * sessions);
                for (auto &x : w->conns) if (!x.dropped) { if ((int)x.reqs.size() != pps) violate("a session carried %zu requests instead of %d", x.reqs.size(), pps); for (auto &r : x.reqs) if (r.answered < 0) violate("the client ended a session before the answer to request %u", r.id); }
                checkReport(*w, threads, pps); std::string oc; for (auto &l : reportLines(w->cl->out)) oc += strf("%d.%d.%ld ", l.thr, l.id, l.el); recordOutcome(name + oc);
            });
        };
        S.push_back(s);
    };
    for (int pso = 0; pso < 2; pso++) {
        std::vector<std::string> base; if (pso) base.push_back("--pso"); std::string sfx = pso ? "-pso" : "";
        auto A = [&](std::vector<std::string> v) { v.insert(v.end(), base.begin(), base.end()); return v; };
        for (int ns = 1; ns <= 3; ns++) for (int pps = 1; pps <= 3; pps++) {
            std::string n = strf("%dx%d%s", ns, pps, sfx.c_str()); SrvOpt o;
            o.orders = o.lazy = true; o.fail = true; if (ns * pps <= 6) add("orders-" + n, A({"-p", "1000"}), 1, ns, pps, o, ns == 1 ? 3 : 2);
            SrvOpt d; d.drop = true; d.cuts = {1, 12, -1}; add("drop-" + n, A({"-p", "1000"}), 1, ns, pps, d, ns < 3 ? (T ? 5 : 4) : 3);
            SrvOpt e = d; e.lazy = true; e.latency = 0; add("drop-lazy-" + n, A({"-p", "1000"}), 1, ns, pps, e, ns * pps > 6 ? 1 : ns * pps > 4 ? 2 : 3);
            SrvOpt r; r.latency = 0; r.establish = 300 * US; if (ns < 3) add("race-" + n, A({"-p", "1000"}), 1, ns, pps, r, ns * pps > 2 ? 3 : 4, true); r.drop = true; if (ns < 3) add("race-drop-" + n, A({"-p", "1000"}), 1, ns, pps, r, 3, true);
            SrvOpt f; f.drop = true; f.latency = 0; add("drop-fast-" + n, A({"-p", "0"}), 1, ns, pps, f, 3);
        }
        for (int ns = 1; ns <= 2; ns++) for (int pps = 1; pps <= 2; pps++) {
            std::string n = strf("2thr-%dx%d%s", ns, pps, sfx.c_str()); SrvOpt o; o.fail = true; add("plain-" + n, A({"-p", "1000"}), 2, ns, pps, o, T ? 3 : 2);
            SrvOpt d; d.drop = true; add("drop-" + n, A({"-p", "1000"}), 2, ns, pps, d, T ? 3 : 2); add("dropstag-" + n, A({"-p", "1000", "--stag-send"}), 2, ns, pps, d, 2);
        }
        for (int th = 1; th <= 2; th++) for (int ns = 1; ns <= 2; ns++) for (int pps = 1; pps <= 3; pps++) if (th * ns * pps <= 6) {
            SrvOpt o; o.orders = o.lazy = o.fail = true; o.latency = 13 * US; add(strf("udp-%dthr-%dx%d%s", th, ns, pps, sfx.c_str()), A({"-p", "1000", "--stag-send", "--to", "udp://:7891"}), th, ns, pps, o, th * ns * pps > 3 ? 1 : 3, false, true);
        }
        // more reply data than the receive buffer holds, in all sorts of alignments
        for (uint32_t sz : {12u, 13u, 16u, 100u, 300u, 341u, 512u, 513u, 1000u, 1024u}) { SrvOpt o; o.reply = sz; o.cuts = {1, 12, -1}; add(strf("volume-udp-%u%s", sz, sfx.c_str()), A({"-p", "1000", "--stag-send", "--to", "udp://:7891"}), 1, 1, 12, o, 1, false, true); add(strf("volume-%u%s", sz, sfx.c_str()), A({"-p", "1000"}), 1, 1, 12, o, 2); SrvOpt b = o; b.batch = true; b.latency = 20 * MS; add(strf("volume-batch-%u%s", sz, sfx.c_str()), A({"-p", "1000"}), 1, 1, 12, b, 1); }
        // runs of hours, and answers after hours
        for (long sec : {1000L, 2500L, 5000L}) for (int ns = 1; ns <= 2; ns++) { SrvOpt o; o.fail = true; add(strf("long-%ld-%d%s", sec, ns, sfx.c_str()), A({"-p", std::to_string(sec) + "s"}), 1, ns, 3, o, 2); o.latency = sec * SEC; add(strf("long-wait-%ld-%d%s", sec, ns, sfx.c_str()), A({"-p", "1000"}), 1, ns, 3, o, 2); }
        // a server that reads slowly
        { SrvOpt o; o.rxcap = 20; o.readDelay = 400 * US; add("slowread" + sfx, A({"-p", "500"}), 1, 2, 3, o, 2); o.drop = true; add("slowread-drop" + sfx, A({"-p", "500"}), 1, 2, 3, o, 2); }
    }
    return runCheck(spec, argc, argv);
}
