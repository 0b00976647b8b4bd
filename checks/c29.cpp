// C29: the options of the client, in every combination, order and spelling.
#include "client.h"

struct Opt { std::string name, alias; char shrt; bool flag; std::vector<std::string> vals; };
enum { BIND, TO, NUM, PERIOD, RATE, SPIN, TIMES, STAG, PSO, DELAY, SIZE, REPLY, CMD, NT, NS, TRIES, TPER, NOPT };

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C29"; spec.rule = "every combination of a core of the options of the client, and of every few of all of its options together with none or all of the others, in two orders, every spelling and every division between the command line and a script file, on the real program; what it does towards a fixed server shows what it understood"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const std::vector<Opt> O = {
        {"bind-addr", "bind-addr", 'b', false, {"127.0.0.1", ":5000", "127.0.0.1:5001"}}, {"to", "to", 0, false, {":8000", "udp://:8001", "tcp://127.0.0.1:8000"}}, {"num-pkts", "num-pkts", 'n', false, {"4", "3"}}, {"period", "period", 'p', false, {"2ms", "0", "1500"}}, {"rate", "rate", 'r', false, {"250", "2k"}},
        {"wait-spin", "ws", 0, true, {""}}, {"conn-times", "conn-times", 0, true, {""}}, {"stag-send", "stag-send", 0, true, {""}}, {"per-session-output", "pso", 0, true, {""}}, {"no-delay", "nd", 0, false, {"0", "1"}},
        {"send-pkt-size", "ps", 0, false, {"64", "900b"}}, {"reply", "reply", 'R', false, {"100"}}, {"comp-time", "comp-time", 'C', false, {"5ms", "7"}}, {"num-threads", "nt", 0, false, {"2"}}, {"num-sessions", "ns", 0, false, {"2", "3"}}, {"retry-num", "retry-num", 0, false, {"3"}}, {"retry-period", "retry-period", 0, false, {"350"}}};
    auto text = [](const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " " + x; return s; };
    auto put1 = [=](std::vector<std::string> &a, int o, const std::string &v, int form) {
        const Opt &x = O[o]; std::string n = form == 2 ? x.alias : x.name;
        if (x.flag) { a.push_back("--" + n); return; }
        if (form == 1 || (form == 3 && !x.shrt)) a.push_back("--" + n + "=" + v);
        else if (form == 3) a.push_back(std::string("-") + x.shrt + v);
        else if (form >= 2 && x.shrt) { a.push_back(std::string("-") + x.shrt); a.push_back(v); }
        else { a.push_back("--" + n); a.push_back(v); }
    };
    auto sensible = [=](const std::vector<int> &v) { bool single = v[NT] < 0 && v[NS] < 0 && v[TRIES] < 0; return single || v[BIND] < 1; }; // connections from the same port exclude each other
    // val[o]: -1 absent, else index into O[o].vals; lastPace: which of PERIOD and RATE came last
    auto run = [=](Kernel &k, std::vector<std::string> a, const std::string &script, const std::vector<int> &val, bool rateLast) {
        auto v = [&](int o, const char *def) { return val[o] < 0 ? std::string(def) : O[o].vals[val[o]]; };
        std::string what = text(a) + (script.empty() ? "" : " with" + script), bind = v(BIND, ""), to = v(TO, ""); bool udp = to.compare(0, 3, "udp") == 0, spin = val[SPIN] >= 0, stag = val[STAG] >= 0, pso = val[PSO] >= 0, times = val[TIMES] >= 0;
        uint16_t port = to.empty() ? 7891 : udp ? 8001 : 8000, lport = (uint16_t)(bind == ":5000" ? 5000 : bind == "127.0.0.1:5001" ? 5001 : 0); int nt = atoi(v(NT, "1").c_str()), ns = atoi(v(NS, "1").c_str()), pps = (atoi(v(NUM, "1").c_str()) + ns - 1) / ns, tries = udp ? 1 : atoi(v(TRIES, "1").c_str()), nd = atoi(v(DELAY, "1").c_str());
        ns_t gap = val[PERIOD] < 0 && val[RATE] < 0 ? 100 * MS : val[RATE] >= 0 && (val[PERIOD] < 0 || rateLast) ? (val[RATE] ? 500 * US : 4 * MS) : val[PERIOD] == 0 ? 2 * MS : val[PERIOD] == 1 ? 0 : 1500 * US, tper = atoi(v(TPER, "200").c_str()) * MS, tick = spin ? std::max<ns_t>(gap / 40, 10 * US) : 0;
        std::string cmds = cCompute(val[CMD] < 0 ? 1000 : val[CMD] == 0 ? 5000 : 7) + cReply(val[REPLY] < 0 ? 512 : 100) + cEom(); uint32_t size = val[SIZE] < 0 ? 1024 : val[SIZE] == 0 ? 64 : 900;
        k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.freeSwitch = false; k.opt.actorFree = false; k.opt.clocktick = tick; k.opt.maxSteps = 100000;
        CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(libPath("client_small")), "client", clientArgs(a)); w->cl->files["script.txt"] = script;
        SrvOpt so; so.pps = pps; so.latency = 30 * US;
        struct Att { int thr, sock; ns_t at, end; bool ok; }; auto atts = std::make_shared<std::vector<Att>>();
        if (udp) addUdpServer(w, so, port); else {
            w->lst = actListen(port, true);
            spawnDaemon("server", [=] { std::map<int, int> failed;
                for (;;) {
                    actWait("a connection", [=] { return !w->lst->synq.empty(); }); actSleepUntil(K->now + 500 * US); if (w->lst->synq.empty()) continue;
                    int sock = w->lst->synq.front()->id, thr = connectThread(sock); bool ok = failed[thr] == tries - 1; atts->push_back({thr, sock, connectTime(sock), K->now, ok}); if (!ok) { failed[thr]++; actRefuse(w->lst); actStep(); continue; }
                    failed[thr] = 0; actEstablish(w->lst); Tcp *c = actAccept(w->lst); if (!c) continue; w->conns.emplace_back(); auto &x = w->conns.back(); x.c = c; x.sock = sock; x.est = K->now; actStep();
                } });
            for (int i = 0; i < nt * ns; i++) spawnDaemon(strf("conn%d", i), [=] { actWait("its connection", [=] { return (int)w->conns.size() > i; }); srvHandle(w, w->conns[i], so); });
        }
        spawnActor("judge", [=] {
            const char *W = what.c_str(); actWait("the client to end", [=] { return w->cl->exited; });
            if (w->cl->status) violate("[%s] the client exited with status %d: %s", W, w->cl->status, w->cl->err.c_str());
            std::map<int, std::vector<CConn *>> by; for (auto &x : w->conns) by[connectThread(x.sock)].push_back(&x);
            if ((int)by.size() != nt) violate("[%s] %zu threads opened connections instead of %d", W, by.size(), nt);
            int ti = 0; bool early = false; std::set<int> senders;
            for (auto &b : by) {
                if ((int)b.second.size() != ns) violate("[%s] a thread opened %zu sessions instead of %d", W, b.second.size(), ns);
                int id = 0; ns_t prevEnd = 0;
                for (auto x : b.second) {
                    for (auto o : K->objs) if (o->id == x->sock) {
                        Addr l = udp ? ((Udp *)o)->local : ((Tcp *)o)->local; if (lport && l.port != lport) violate("[%s] the client uses port %u", W, l.port); if ((bind == "127.0.0.1" || bind == "127.0.0.1:5001") && l.ip != LOOP) violate("[%s] the client is not bound to the address", W);
                        if (!udp && ((Tcp *)o)->sentWith != 1 << nd) violate("[%s] requests were sent with TCP_NODELAY %s", W, nd ? "off" : "on"); }
                    auto sent = sentOn(x->sock); if ((int)sent.size() != pps) violate("[%s] a session carried %zu requests instead of %d", W, sent.size(), pps);
                    ns_t start = sent[0].start, conn = connectTime(x->sock), est = udp ? conn : x->est, slack = spin && nt > 1 ? 1000 * SEC : 12 * tick; if (conn < prevEnd) violate("[%s] a session began before the previous one was over", W);
                    for (int i = 0; i < pps; i++, id++) {
                        auto &m = sent[i]; if (!m.size || get<uint32_t>(m.bytes, 0) != (uint32_t)id) violate("[%s] wrong identifier or request cut", W); WMsg wm{(uint32_t)id, (uint32_t)m.size, (int8_t)m.bytes[8], m.bytes};
                        if (m.size != size) violate("[%s] request %d has %zu bytes instead of %u", W, id, m.size, size); if (normCmds(wm.cmds()) != cmds) violate("[%s] request %d does not carry the commands", W, id);
                        if (m.start < est + i * gap) violate("[%s] request %d was sent %ld us before its time", W, id, (long)((est + i * gap - m.start) / US));
                        if (m.start > start + i * gap + slack) violate("[%s] request %d was sent %ld us late", W, id, (long)((m.start - start - i * gap) / US)); if (m.start < US) early = true;
                    }
                    if (start > est + slack) violate("[%s] the first request of a session was sent %ld us late", W, (long)((start - est) / US));
                    if (x == b.second[0]) { ns_t first = conn; for (auto &t : *atts) if (t.thr == b.first) first = std::min(first, t.at); ns_t w0 = stag ? 200 * MS + gap * ti / nt : 0; if (llabs(first - w0) > 2 * US + slack) violate("[%s] thread %d starts %ld us after the beginning instead of %ld us", W, ti, (long)(first / US), (long)(w0 / US)); }
                    for (auto &r : x->reqs) { if (r.answered < 0) violate("[%s] the client left before its requests were answered", W); prevEnd = std::max(prevEnd, r.answered); }
                    for (auto &e : K->trace) if ((e.k == E_SEND || e.k == E_UDPSEND) && e.obj == x->sock) senders.insert(e.thr);
                }
                ti++;
            }
            // waiting by spinning, or by sleeping
            int slept = 0; for (auto &e : K->trace) if (e.k == E_SLEEP && senders.count(e.thr)) slept++;
            if (spin && slept && !senders.count(-1)) violate("[%s] a sender sleeps instead of spinning", W);
            if (!spin && gap && !slept) violate("[%s] the senders never sleep", W);
            // attempts to connect
            for (auto &b : by) { ns_t prev = -1; for (auto &t : *atts) if (t.thr == b.first) { if (prev >= 0 && t.at != prev + tper && !spin) violate("[%s] an attempt came %ld us after the previous one failed", W, (long)((t.at - prev) / US)); prev = t.ok ? -1 : t.end; } }
            // the report
            auto lines = reportLines(w->cl->out); if (!early && !spin) checkReport(*w, nt, pps); else if ((int)lines.size() > nt * ns * pps || (!early && (int)lines.size() < nt * ns * pps)) violate("[%s] %zu report lines for %d requests", W, lines.size(), nt * ns * pps);
            if (pso) { // the lines of a session are there before the next one is over
                std::map<int, int> cur; std::map<std::pair<int, int>, int> seen; for (auto &l : lines) { if (l.sess < cur[l.thr]) violate("[%s] a session is reported after a later one", W); cur[l.thr] = l.sess; }
                for (auto &b : by) for (size_t s = 2; s < b.second.size(); s++) { int n = 0; ns_t at = connectTime(b.second[s]->sock); std::string out; for (auto &e : K->trace) { if ((e.k == E_CONNECT || e.k == E_SOCK) && e.obj == b.second[s]->sock && e.t == at) break; if (e.k == E_OUT) out += e.s; } for (auto &l : reportLines(out.substr(0, out.rfind('\n') + 1))) if (l.sess < (int)s - 1) n++; if (n < pps && !early) violate("[%s] the report of a session was not printed when it was over", W); }
            }
            int ct = 0; std::string out = w->cl->out; std::multiset<long> got, want; for (size_t q = 0; (q = out.find("conn_time: ", q)) != std::string::npos; q++) { ct++; got.insert(atol(out.c_str() + q + 11)); }
            if (ct != (times ? nt * ns : 0)) violate("[%s] %d connection times", W, ct);
            if (times && !spin) { for (auto &b : by) { if (udp) { for (int s = 0; s < ns; s++) want.insert(0); continue; } ns_t first = -1; for (auto &t : *atts) if (t.thr == b.first) { if (first < 0) first = t.at; if (t.ok) { want.insert((long)((t.end - first) / US)); first = -1; } } } auto g = got.begin(); for (auto e = want.begin(); e != want.end(); ++e, ++g) if (labs(*g - *e) > 2) violate("[%s] connecting took %ld us, but %ld us were reported", W, *e, *g); }
            recordOutcome(what);
        });
    };
    // how a chosen set of values is written down: order, spelling, what goes to the script
    auto write = [=](Kernel &k, const std::vector<int> &v, bool scripts) {
        if (!sensible(v)) return;
        int form = chooseFree(4, "form"), rev = chooseFree(2, "order"), where = scripts ? chooseFree(3, "script") : 0; // all on the command line, all in the script, every second one in the script
        std::vector<std::string> a, sc; bool rateLast = false; int n = 0; if (where) a = {"-f", "script.txt"}; bool paceSplit = false; int paceAt[2] = {-1, -1};
        for (int i = 0; i < NOPT; i++) { int o = rev ? NOPT - 1 - i : i; if (v[o] < 0) continue; bool inS = where == 1 || (where == 2 && n % 2); n++; if (o == PERIOD || o == RATE) { paceAt[o == RATE] = inS; rateLast = o == RATE; } put1(inS ? sc : a, o, O[o].vals[v[o]], form); }
        paceSplit = paceAt[0] >= 0 && paceAt[1] >= 0 && paceAt[0] != paceAt[1]; if (paceSplit) rateLast = !paceAt[1]; // the script comes first
        std::string s; for (size_t i = 0; i < sc.size(); i++) s += sc[i] + (form == 1 ? "\n" : i + 1 < sc.size() && sc[i + 1][0] == '-' ? "  # x\n" : " "); run(k, a, s, v, rateLast);
    };
    // every combination of the core
    for (int to = -1; to < 2; to++) for (int num = -1; num < 2; num++) for (int nt = -1; nt < 1; nt++) for (int ns = -1; ns < 2; ns++) for (int per = -1; per < 2; per++) {
        Scenario s; s.name = strf("core-%d%d%d%d%d", to + 1, num + 1, nt + 1, ns + 1, per + 1); s.budget = 0;
        s.setup = [=](Kernel &k) { std::vector<int> v(NOPT, -1); v[TO] = to; v[NUM] = num; v[NT] = nt; v[NS] = ns; v[PERIOD] = per; for (int o : {RATE, SPIN, TIMES, STAG, PSO, BIND}) v[o] = chooseFree((T ? (int)O[o].vals.size() : 1) + 1, "value") - 1; write(k, v, false); };
        S.push_back(s);
    }
    // every few options with all their values, and none or all of the others
    int few = T ? 4 : 3; std::function<void(std::vector<int>, int)> sub = [&](std::vector<int> pick, int from) {
        if ((int)pick.size() == few - 1) { Scenario s; s.name = "few"; for (int o : pick) s.name += "-" + O[o].name; s.budget = 0;
            s.setup = [=](Kernel &k) { int last = from + chooseFree(NOPT - from, "option"), all = chooseFree(2, "others"); std::vector<int> v(NOPT, all - 1); if (all) { v[SPIN] = -1; } std::vector<int> p = pick; p.push_back(last); for (int o : p) v[o] = chooseFree((int)O[o].vals.size() + 1, "value") - 1; write(k, v, true); };
            S.push_back(s); return; }
        for (int o = from; o < NOPT - 1; o++) { auto p = pick; p.push_back(o); sub(p, o + 1); } };
    sub({}, 0);
    // an option given twice: the last one counts
    for (int o = 0; o < NOPT; o++) if (!O[o].flag && o != CMD && o != BIND && o != TO && o != REPLY) { Scenario s; s.name = "twice-" + O[o].name; s.budget = 0;
        s.setup = [=](Kernel &k) { int n = (int)O[o].vals.size(), i = chooseFree(n, "first"), j = chooseFree(n, "second"), p = chooseFree(NOPT, "between"), pv = p == o ? 0 : chooseFree((int)O[p].vals.size(), "value"), f = chooseFree(4, "form"), g = chooseFree(4, "form"); std::vector<int> v(NOPT, -1); std::vector<std::string> a; put1(a, o, O[o].vals[i], f); if (p != o) { put1(a, p, O[p].vals[pv], g); v[p] = pv; } put1(a, o, O[o].vals[j], g); v[o] = j; if (sensible(v)) run(k, a, "", v, o == RATE); };
        S.push_back(s); }
    // help, and what cannot be understood: nothing is sent
    { std::vector<std::pair<std::string, bool>> e = {{"-h", true}, {"--help", true}, {"--usage", true}, {"--no-such-option", false}, {"-Z", false}, {"--to", false}, {"-n", false}, {"--ns", false}, {"--ns=0", false}, {"--nt=0", false}, {"--nt=257", false}, {"--retry-num=0", false}, {"--retry-period=199", false}, {"--ps=10", false}, {"--ps=959", false}, {"--pso=1", false}, {"-fnone.txt", false}, {"-n17", false}, {"--num-pkts=1000000", false}, {"-raseq:min=1,max=3", false}, {"-Cx", false}, {"-px", false}, {"-R5", false}, {"-R1025", false}};
      Scenario s; s.name = "ends"; s.budget = 0; s.setup = [=](Kernel &k) { auto &x = e[chooseFree((int)e.size(), "option")]; int before = chooseFree(3, "before"); std::vector<std::string> a; if (before == 1) a = {"--nt=2"}; if (before == 2) a = {"-p", "100", "--pso"}; a.push_back(x.first);
          CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(libPath("client_small")), "client", clientArgs(a)); addServer(w, 1, [](int) { return SrvOpt(); });
          spawnActor("judge", [=] { actSleepUntil(MS); Proc *p = w->cl; if (!p->exited) violate("the client runs with [%s]", text(a).c_str()); if ((p->status == 0) != x.second) violate("exit status %d for [%s]", p->status, text(a).c_str()); for (auto o : K->objs) if (o->owner == p && (o->kind == K_TCP || o->kind == K_UDP)) violate("[%s] opens a socket", text(a).c_str()); recordOutcome(text(a)); }); };
      S.push_back(s); }
    return runCheck(spec, argc, argv);
}
