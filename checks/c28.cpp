// C28: the options of the node, in every combination, order and spelling.
#include "node.h"
#include <fcntl.h>

struct Val { std::string arg; bool given; };
struct Opt { std::string name, alias; char shrt; bool flag; std::vector<std::string> vals; };
enum { BIND, MODE, NT, STORE, MAXS, SYNC, ODIR, AFF, BACK, NOPT };

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C28"; spec.rule = "every combination of the options of the node, each absent or with one of its values, in two orders and every spelling, on the real program; what it does for a fixed series of requests shows what it understood"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    const std::vector<Opt> O = {
        {"bind-addr", "bind-addr", 'b', false, {":8000", "udp://:8001"}}, {"accept-mode", "accept-mode", 'a', false, {"child", "shared", "parent"}}, {"nt", "num-threads", 0, false, {"2", "3", "1"}},
        {"storage", "storage", 's', false, {"/data/a", "", "rel.dat"}}, {"max-storage-size", "max-storage-size", 'm', false, {"256", "640", "5000000000"}}, {"sync", "sync", 0, false, {"10", "3"}}, {"odirect", "odirect", 0, true, {""}},
        {"thread-affinity", "thread-affinity", 'c', false, {"auto", "1-2"}}, {"backlog-length", "bl", 0, false, {"7", "1"}}};
    auto text = [](const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += " '" + x + "'"; return s; };
    // one option on the command line
    auto put1 = [=](std::vector<std::string> &a, int o, const std::string &v, int form) {
        const Opt &x = O[o]; std::string n = form == 2 ? x.alias : x.name;
        if (x.flag) { a.push_back("--" + n); return; }
        if (form == 1 || (form == 3 && !x.shrt)) a.push_back("--" + n + "=" + v);
        else if (form == 3 && !v.empty()) a.push_back(std::string("-") + x.shrt + v);
        else if (form >= 2 && x.shrt) { a.push_back(std::string("-") + x.shrt); a.push_back(v); }
        else { a.push_back("--" + n); a.push_back(v); }
    };
    auto quiet = [](Kernel &k) { k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = k.opt.freeSwitch = false; k.opt.actorFree = false; };
    // val[o]: -1 absent, else index into O[o].vals
    auto run = [=](Kernel &k, std::vector<std::string> a, std::vector<int> val) {
        auto v = [=](int o, const char *def) { return val[o] < 0 ? std::string(def) : O[o].vals[val[o]]; };
        std::string what = text(a), b = v(BIND, ""), mode = v(MODE, "child"), path = v(STORE, "/simhome/.dw_store"), aff = v(AFF, ""); bool udp = b.compare(0, 3, "udp") == 0, direct = val[ODIR] >= 0; uint16_t port = b.empty() ? 7891 : udp ? 8001 : 8000;
        int nt = atoi(v(NT, "1").c_str()), period = atoi(v(SYNC, "0").c_str()), back = atoi(v(BACK, "0").c_str()); uint64_t max = strtoull(v(MAXS, "1073741824").c_str(), nullptr, 10);
        uint64_t far = max > 100000 ? max - 256 : 0; // where the first store goes
        quiet(k); CtxP x = std::make_shared<Ctx>(); x->node = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a)); int nc = nt + 1;
        struct Done { ns_t sent, got; bool sync; size_t at, end; }; auto log = std::make_shared<std::vector<Done>>(); auto peers = std::make_shared<std::vector<int>>();
        spawnActor("client", [=] {
            actWait("the node to be ready", [=] { return listening(port, udp) || x->node->exited; }); if (x->node->exited) violate("[%s] the node ended with status %d: %s", what.c_str(), x->node->status, x->node->err.c_str());
            actWait("all of it to be ready", [=] { return programsIdle(); }); actSleepUntil(MS);
            std::vector<Tcp *> cs; Udp *u = udp ? actUdp(9000) : nullptr;
            for (int i = 0; i < nc; i++) {
                Tcp *c = nullptr; std::string rest; K->opt.reuseHint = i; if (!udp) { c = actConnect(port); if (!c) violate("[%s] the node does not accept a connection", what.c_str()); cs.push_back(c); peers->push_back(c->peer ? c->peer->id : -1); actStep(); }
                for (int r = 0; r < (path.empty() ? 1 : 3); r++) {
                    std::string cmds = path.empty() ? cCompute(10) : r < 2 ? i || r || !far ? cStore(128, r == 1) : cStore(128, false, far) : cLoad(64, 0); std::string m = wireMsg(10 * i + r, cmds + cReply(20 + r));
                    Done d; d.sent = K->now; d.sync = !path.empty() && r == 1; d.at = K->trace.size(); if (udp) actUdpSend(u, port, m); else actSend(c, m); actStep();
                    std::vector<WMsg> got; while (got.empty()) { actWait("a reply", [=] { return udp ? !u->rx.empty() : !c->rx.empty() || c->rxeof || c->rst; }); if (udp) { rest += u->rx.front().data; u->rx.pop_front(); } else { if (c->rx.empty()) violate("[%s] the node closed a connection", what.c_str()); rest += actRecv(c); } got = takeMsgs(rest); }
                    if (got.size() != 1 || !rest.empty() || got[0].id != (uint32_t)(10 * i + r) || got[0].size != (uint32_t)(20 + r) || got[0].status) violate("[%s] wrong reply", what.c_str());
                    d.got = K->now; d.end = K->trace.size(); log->push_back(d); actStep();
                }
            }
        });
        addFinisher(x->node, [=] {
            // where it listens
            int l = 0; for (auto o : K->objs) if (o->owner == x->node) {
                if (o->kind == K_TCP && ((Tcp *)o)->st == Tcp::LISTENING) { auto t = (Tcp *)o; l++; if (udp || t->local.port != port || t->local.ip != LOOP) violate("[%s] the node listens on TCP port %u", what.c_str(), t->local.port); if (back && t->backlog != back) violate("[%s] a queue of %d pending connections instead of %d", what.c_str(), t->backlog, back); }
                if (o->kind == K_UDP && ((Udp *)o)->bound) { auto t = (Udp *)o; l++; if (!udp || t->local.port != port || t->local.ip != LOOP) violate("[%s] the node listens on UDP port %u", what.c_str(), t->local.port); }
                if (o->kind == K_FILE) { auto f = (File *)o; if (f->ino->path != path) violate("[%s] the node uses the file '%s' instead of '%s'", what.c_str(), f->ino->path.c_str(), path.c_str()); if (direct != !!(f->flags & O_DIRECT)) violate("[%s] the file is %saccessed directly", what.c_str(), direct ? "not " : ""); }
            }
            if (!l) violate("[%s] the node does not listen", what.c_str());
            if (K->fs.count(path) != !path.empty()) violate("[%s] the storage file does not exist", what.c_str());
            for (auto &f : K->fs) if (f.first != path) violate("[%s] the node made the file '%s'", what.c_str(), f.first.c_str());
            // who serves
            int threads = 0, served = 0; for (auto t : K->threads) if (!t->env && t->proc == x->node) { if (!t->done) threads++; served += t->served; }
            int wantThreads = nt + !path.empty(); if (threads < wantThreads) violate("[%s] %d threads instead of %d", what.c_str(), threads, wantThreads);
            if (mode != "shared" && served < nt) violate("[%s] %d of %d workers served the %d connections", what.c_str(), served, nt, nc);
            if (served > nt) violate("[%s] %d threads serve instead of %d", what.c_str(), served, nt);
            // on which cores
            std::vector<uint64_t> pins, want; for (auto &e : K->trace) if (e.k == E_PIN && e.obj == 1 && e.proc == x->node->id) pins.push_back(e.a);
            if (!aff.empty()) for (int i = 0; i < wantThreads; i++) want.push_back(aff == "auto" ? 1ull << i % 4 : 1ull << (1 + i % 2));
            std::sort(pins.begin(), pins.end()); std::sort(want.begin(), want.end()); if (pins != want) violate("[%s] the threads are not pinned as asked", what.c_str());
            // what was stored, where, and when it was safe
            uint64_t pos = far; size_t n = 0; std::vector<ns_t> syncs; for (auto &e : K->trace) if (e.k == E_FSYNC) syncs.push_back(e.t);
            if (period) for (auto t : syncs) if (t % (period * MS)) violate("[%s] synced at %ld us", what.c_str(), (long)(t / US));
            for (auto &d : *log) { if (path.empty()) break;
                uint64_t bytes = 0; size_t lastW = 0; bool synced = false;
                for (size_t i = d.at; i < d.end; i++) { auto &e = K->trace[i];
                    if (e.k == E_WRITE) { uint64_t p = pos + 128 > max ? 0 : pos; if (n % 3 == 2 || (uint64_t)e.a != p || e.b != 128) violate("[%s] %ld bytes written at %ld instead of 128 at %lu", what.c_str(), (long)e.b, (long)e.a, (unsigned long)p); pos = p + 128; bytes += e.b; lastW = i; }
                    if (e.k == E_READ && e.b) { if (n % 3 != 2 || e.a != 0 || e.b != 64) violate("[%s] %ld bytes read at %ld", what.c_str(), (long)e.b, (long)e.a); bytes += e.b; pos = 64; }
                    if (e.k == E_FSYNC && lastW) synced = true; }
                if (bytes != (n % 3 == 2 ? 64u : 128u)) violate("[%s] %lu bytes accessed", what.c_str(), (unsigned long)bytes);
                if (d.sync && !synced) violate("[%s] a synchronous store was acknowledged before a sync", what.c_str());
                if (period && d.sync) { ns_t due = (d.sent / (period * MS) + 1) * period * MS; if (d.got > due) violate("[%s] a synchronous store waited until %ld us", what.c_str(), (long)(d.got / US)); if (d.got < due && d.got != d.sent) violate("[%s] a synchronous store was acknowledged at %ld us", what.c_str(), (long)(d.got / US)); }
                else if (d.got != d.sent) violate("[%s] a request waited %ld us", what.c_str(), (long)((d.got - d.sent) / US));
                n++;
            }
            recordOutcome(what);
        });
    };
    auto sensible = [=](const std::vector<int> &val) { bool udp = val[BIND] == 1; if (udp && val[NT] >= 0 && O[NT].vals[val[NT]] != "1" && val[MODE] > 0) return false; return true; };
    // every combination
    for (int bind = -1; bind < 2; bind++) for (int mode = -1; mode < 3; mode++) for (int nt = -1; nt < 2; nt++) for (int st = -1; st < 3; st++) {
        std::vector<int> v0(NOPT, -1); v0[BIND] = bind; v0[MODE] = mode; v0[NT] = nt; v0[STORE] = st; if (!sensible(v0)) continue;
        Scenario s; s.name = strf("all-%d%d%d%d", bind + 1, mode + 1, nt + 1, st + 1); s.budget = 0;
        s.setup = [=](Kernel &k) { std::vector<int> v = v0; for (int o : {MAXS, SYNC, ODIR, AFF, BACK}) v[o] = chooseFree((o == BACK && !T ? 1 : (int)O[o].vals.size()) + 1, "value") - 1;
            int form = chooseFree(4, "form"), rev = chooseFree(2, "order"); std::vector<std::string> a; for (int i = 0; i < NOPT; i++) { int o = rev ? NOPT - 1 - i : i; if (v[o] >= 0) put1(a, o, O[o].vals[v[o]], form); } run(k, a, v); };
        S.push_back(s);
    }
    // an option given twice: the last one counts, whatever stands between
    for (int o = 0; o < NOPT; o++) if (!O[o].flag) { Scenario s; s.name = "twice-" + O[o].name; s.budget = 0;
        s.setup = [=](Kernel &k) { int n = (int)O[o].vals.size(); int i = chooseFree(n, "first"), j = chooseFree(n, "second"), p = chooseFree(NOPT, "between"), pv = p == o ? 0 : chooseFree((int)O[p].vals.size(), "value"); int f = chooseFree(4, "form"), g = chooseFree(4, "form");
            std::vector<int> v(NOPT, -1); std::vector<std::string> a; put1(a, o, O[o].vals[i], f); if (p != o) { put1(a, p, O[p].vals[pv], g); v[p] = pv; } put1(a, o, O[o].vals[j], g); v[o] = j; if ((o == BIND || o == AFF) && i != j) return; /* not claimed: what an address leaves out, or a list followed by "auto" */ if (!sensible(v)) return; run(k, a, v); };
        S.push_back(s); }
    // help, and what cannot be understood: nothing is started
    { std::vector<std::pair<std::string, bool>> e = {{"-h", true}, {"--help", true}, {"--usage", true}, {"--no-such-option", false}, {"-Z", false}, {"--storage", false}, {"-s", false}, {"--nt", false}, {"--odirect=1", false}, {"-a", false}};
      Scenario s; s.name = "ends"; s.budget = 0; s.setup = [=](Kernel &k) { quiet(k); auto &x = e[chooseFree((int)e.size(), "option")]; int before = chooseFree(3, "before"); std::vector<std::string> a; if (before == 1) a = {"--nt=2"}; if (before == 2) a = {"-b", ":8000", "--sync", "5"}; a.push_back(x.first);
          Proc *p = spawnProgram(loadModule(libPath("node_small")), "node", nodeArgs(a)); spawnActor("judge", [=] { actSleepUntil(MS); if (!p->exited) violate("the node runs with [%s]", text(a).c_str()); if ((p->status == 0) != x.second) violate("exit status %d for [%s]", p->status, text(a).c_str()); for (auto o : K->objs) if (o->owner == p && (o->kind == K_TCP || o->kind == K_UDP)) violate("[%s] opens a socket", text(a).c_str()); recordOutcome(text(a)); }); }; S.push_back(s); }
    return runCheck(spec, argc, argv);
}
