// C15: the command line and script files build the request that was asked for.
#include "client.h"

struct Item { int kind; uint64_t a = 0, off = (uint64_t)-1; bool sync = true; std::vector<std::pair<uint32_t, uint16_t>> to; int proto = W_TCP; uint32_t timeout = 0; int retry = 0; double prob = 1; int nack = 1; bool unif = false; }; // kind: W_* or SKIP
enum { SKIP = 3 };
static std::vector<double> draws;                       // random draws handed out in this execution
static const uint32_t MYNODE = 0x0a000005;

// one option: its spellings and its meaning
struct Opt { std::string shortName, longName, val; };
static const std::vector<Opt> OPTS = {
    {"C", "comp-time", "7"}, {"S", "store-data", "100"}, {"S", "store-data", "2k,nosync"}, {"L", "load-data", "50b"}, {"", "store-offset", "4k"}, {"", "load-offset", "10"},
    {"s", "skip", "1"}, {"s", "skip", "2,prob=0.5"}, {"F", "forward", ":7892"}, {"F", "forward", ":7892,:7893,timeout=500,retry=2"}, {"F", "forward", "timeout=300,udp://:7894"},
    {"R", "reply", "100"}, {"R", "reply", "nack=1"}, {"R", "reply", "200,nack=1"}, {"R", "reply", "unif:min=64,max=128"}, {"R", "reply", "nack=2,300"}, {"F", "forward", "my-node:7895"}, {"C", "comp-time", "2ms"}, {"S", "store-data", "unif:min=10,max=20,nosync"}, {"S", "store-data", "sync,30"}, {"s", "skip", "9"}, {"", "ws", ""}};

struct Builder {
    std::vector<Item> v; struct Open { int nack; Item rep; }; std::vector<Open> st; uint64_t soff = -1, loff = -1; bool mergeable = false;
    Builder() { Item r; r.kind = W_REPLY; r.a = 512; st.push_back({1, r}); }
    void close() { Item r = st.back().rep; r.nack = st.back().nack; v.push_back(r); st.pop_back(); }
    void opt(int i) {
        Item x; auto fwd = [&](std::vector<std::pair<uint32_t, uint16_t>> to, int proto, uint32_t tmo, int retry) { x.kind = to.size() > 1 ? W_MULTI : W_FORWARD; x.to = to; x.proto = proto; x.timeout = tmo; x.retry = retry; v.push_back(x); Item r; r.kind = W_REPLY; r.a = 512; st.push_back({(int)to.size(), r}); };
        auto reply = [&](int64_t size, int nack, bool unif) { auto &o = st.back(); if (size >= 0 || unif) { o.rep.a = size; o.rep.unif = unif; } if (nack > 0 && nack < o.nack) o.nack = nack; if (st.size() > 1) close(); };
        switch (i) {
        case 0: x.kind = W_COMPUTE; x.a = 7; v.push_back(x); break;
        case 17: x.kind = W_COMPUTE; x.a = 2000; v.push_back(x); break;
        case 1: x.kind = W_STORE; x.a = 100; x.off = soff; v.push_back(x); break;
        case 2: x.kind = W_STORE; x.a = 2000; x.sync = false; x.off = soff; v.push_back(x); break;
        case 18: x.kind = W_STORE; x.unif = true; x.sync = false; x.off = soff; v.push_back(x); break;
        case 19: x.kind = W_STORE; x.a = 30; x.off = soff; v.push_back(x); break;
        case 3: x.kind = W_LOAD; x.a = 50; x.off = loff; v.push_back(x); break;
        case 4: soff = 4000; break;
        case 5: loff = 10; break;
        case 6: x.kind = SKIP; x.a = 1; v.push_back(x); break;
        case 7: x.kind = SKIP; x.a = 2; x.prob = 0.5; v.push_back(x); break;
        case 20: x.kind = SKIP; x.a = 9; v.push_back(x); break;
        case 8: fwd({{LOOP, 7892}}, W_TCP, 0, 0); break;
        case 9: fwd({{LOOP, 7892}, {LOOP, 7893}}, W_TCP, 500, 2); break;
        case 10: fwd({{LOOP, 7894}}, W_UDP, 300, 0); break;
        case 16: fwd({{MYNODE, 7895}}, W_TCP, 0, 0); break;
        case 11: reply(100, 0, false); break;
        case 12: reply(-1, 1, false); break;
        case 13: reply(200, 1, false); break;
        case 14: reply(-1, 0, true); break;
        case 15: reply(300, 2, false); break;
        }
    }
    // index after n commands of the same level, never past the reply that ends the level
    size_t skip(size_t i, int n) {
        while (n-- > 0 && i < v.size() && v[i].kind != W_REPLY) {
            if (v[i].kind == W_FORWARD || v[i].kind == W_MULTI) { int d = 0; do { if (v[i].kind == W_FORWARD || v[i].kind == W_MULTI) d++; if (v[i].kind == W_REPLY) d--; i++; } while (d); }
            else i++;
        }
        return i;
    }
    std::string encode() {
        if (v.empty()) { Item x; x.kind = W_COMPUTE; x.a = 1000; v.push_back(x); }
        while (!st.empty()) close();
        for (size_t i = 1; i < v.size(); i++) if (v[i].kind == W_MULTI && v[i - 1].kind == W_MULTI) mergeable = true;
        std::string s; size_t i = 0, d = 0; bool prevMulti = false; auto draw = [&] { double x = d < draws.size() ? draws[d] : 0.5; d++; return x; };
        while (i < v.size()) {
            auto &x = v[i];
            if (x.kind == SKIP) { double r = draw(); i = r <= x.prob ? skip(i + 1, (int)x.a) : i + 1; continue; }
            if (x.kind == W_MULTI && prevMulti) mergeable = true;
            prevMulti = x.kind == W_MULTI;
            if (x.kind == W_COMPUTE) s += cCompute((uint32_t)x.a);
            else if (x.kind == W_STORE) s += cStore(x.unif ? (uint64_t)(10 + 10 * draw()) : x.a, x.sync, x.off);
            else if (x.kind == W_LOAD) s += cLoad(x.a, x.off);
            else if (x.kind == W_REPLY) s += cReply(x.unif ? (uint32_t)(64 + 64 * draw()) : (uint32_t)x.a, (uint8_t)x.nack);
            else for (auto &t : x.to) { std::string f = cFwd(t.second, 512, x.timeout, (uint8_t)x.retry, 1, x.proto, x.to.size() > 1); uint32_t ip = htonl(t.first); memcpy(&f[8], &ip, 4); s += f; }
            i++;
        }
        return s + cEom();
    }
};
static std::string describe(const std::string &c) {
    std::string s; size_t o = 0;
    while (o + 4 <= c.size()) { int k = get<int32_t>(c, o);
        switch (k) { case W_COMPUTE: s += strf(" compute(%u)", get<uint32_t>(c, o + 4)); break; case W_STORE: s += strf(" store(%ld,off %ld,%s)", (long)get<uint64_t>(c, o + 12), (long)get<uint64_t>(c, o + 4), c[o + 20] ? "sync" : "nosync"); break; case W_LOAD: s += strf(" load(%ld,off %ld)", (long)get<uint64_t>(c, o + 12), (long)get<uint64_t>(c, o + 4)); break;
        case W_FORWARD: case W_MULTI: s += strf(" %s(%x:%u,%ub,timeout %u,retry %u,skip %u,%s)", k == W_MULTI ? "multi" : "forward", ntohl(get<uint32_t>(c, o + 8)), ntohs(get<uint16_t>(c, o + 12)), get<uint32_t>(c, o + 4), get<uint32_t>(c, o + 16), (unsigned char)c[o + 20], (unsigned char)c[o + 21], get<int32_t>(c, o + 24) == W_TCP ? "tcp" : "udp"); break;
        case W_REPLY: s += strf(" reply(%u,%u)", get<uint32_t>(c, o + 4), (unsigned char)c[o + 8]); break; case W_EOM: return s; default: return s + " ?"; }
        o += cmdSize(k); }
    return s;
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C15"; spec.rule = ruleText(); spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    // form: 0 short options, 1 long options, 2 --long=value, 3 a script with one option per line, 4 a script with everything on one line, 5 first half on the command line and the rest in a script, 6 script first, 7 two scripts, 8 a script with comments and without final newline
    auto add = [&](const std::string &name, std::vector<std::vector<int>> pos, std::vector<int> forms, bool known = false) {
        Scenario s; s.name = name; s.budget = 0; std::string lib = libPath("client_small");
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = false; k.hosts["my-node"] = MYNODE; if (k.hosts.find("localhost") == k.hosts.end()) k.hosts["localhost"] = LOOP;
            draws.clear(); k.draw = [] { double x = chooseFree(2, "draw") ? 0.75 : 0.25; draws.push_back(x); return x; };
            std::vector<int> seq; for (auto &p : pos) seq.push_back(p[p.size() == 1 ? 0 : chooseFree((int)p.size(), "option")]);
            int form = forms[forms.size() == 1 ? 0 : chooseFree((int)forms.size(), "form")];
            auto one = [](int i, int form, std::vector<std::string> &out) { auto &o = OPTS[i];
                if (o.val.empty()) out.push_back("--" + o.longName); else if (form == 2) out.push_back("--" + o.longName + "=" + o.val); else if (form == 1 || o.shortName.empty()) { out.push_back("--" + o.longName); out.push_back(o.val); } else { out.push_back("-" + o.shortName); out.push_back(o.val); } };
            std::vector<std::string> args; std::string text[2]; size_t half = (seq.size() + 1) / 2;
            for (size_t i = 0; i < seq.size(); i++) {
                std::vector<std::string> w; one(seq[i], form == 4 || form == 8 ? 1 : form == 6 ? 2 : form, w); std::string line; for (auto &x : w) line += (line.empty() ? "" : " ") + x;
                if (form <= 2 || (form == 5 && i < half) || (form == 6 && i >= half)) args.insert(args.end(), w.begin(), w.end());
                else { std::string &t = text[form == 7 && i >= half]; if (form == 8) t += strf("# option %zu -C 99 --skip 1\n", i) + line + " # -C 98\n\n"; else t += line + (form == 4 ? " " : "\n"); }
            }
            if (form == 8 && !text[0].empty()) text[0].erase(text[0].find_last_of('#') - 1);
            std::vector<std::string> sa; if (!text[0].empty()) { sa.push_back("-f"); sa.push_back("script.txt"); } if (!text[1].empty()) { sa.push_back("--script-filename"); sa.push_back("more.txt"); }
            if (form == 6) args.insert(args.begin(), sa.begin(), sa.end()); else args.insert(args.end(), sa.begin(), sa.end());
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(args)); w->cl->files["script.txt"] = text[0]; w->cl->files["more.txt"] = text[1];
            addServer(w, 1, [=](int) { SrvOpt o; o.establish = 0; return o; });
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; });
                std::string opts; for (auto &a : args) opts += " " + a; for (auto &t : text) if (!t.empty()) opts += " {" + t + "}";
                Builder b; for (int i : seq) b.opt(i); std::string want = b.encode();
                if (b.mergeable && !known) return; // see the known finding
                if (b.mergeable) {
                    if (w->cl->status != 0) return; // refused
                    std::string c = w->conns.size() == 1 && w->conns[0].msgs.size() == 1 ? w->conns[0].msgs[0].cmds() : ""; size_t o = 0; int n = 0; while (o + 4 <= c.size() && get<int32_t>(c, o) == W_MULTI) { n++; o += cmdSize(W_MULTI); }
                    if (n != 2) violate("two multiple forwards right inside each other become a single group");
                    return;
                }
                if (w->cl->status != 0) violate("the client exited with status %d: %s [%s]", w->cl->status, w->cl->err.c_str(), opts.c_str());
                if (w->conns.size() != 1 || w->conns[0].msgs.size() != 1) violate("no request was sent [%s]", opts.c_str());
                std::string got = normCmds(w->conns[0].msgs[0].cmds());
                if (got != want) violate("options [%s ] gave%s instead of%s", opts.c_str(), describe(got).c_str(), describe(want).c_str());
                recordOutcome(want);
            });
        };
        S.push_back(s);
    };
    // the other options, each given or not, on the command line or in a script
    struct G { std::string n, v; }; static const std::vector<G> GEN = {{"-n", "4"}, {"--period", "300"}, {"--send-pkt-size", "200"}, {"--num-threads", "2"}, {"--num-sessions", "2"}, {"--conn-times", ""}, {"--wait-spin", ""}, {"--per-session-output", ""}};
    static const std::vector<G> GEN2 = {{"--num-pkts", "4"}, {"-p", "300"}, {"--ps", "200"}, {"--nt", "2"}, {"--ns", "2"}, {"--conn-times", ""}, {"--ws", ""}, {"--pso", ""}};
    for (int first = 0; first < 8; first++) {
        Scenario s; s.name = strf("general-%d", first); s.budget = 0; std::string lib = libPath("client_small");
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = false;
            bool on[8]; for (int i = 0; i < 8; i++) on[i] = i < 3 ? first >> i & 1 : chooseFree(2, "given");
            int form = chooseFree(7, "form"); bool rev = chooseFree(2, "order"); std::vector<std::string> args; std::string text;
            for (int j = 0; j < 8; j++) { int i = rev ? 7 - j : j; if (!on[i]) continue; G g = form & 1 ? GEN2[i] : GEN[i]; bool dd = g.n[1] == '-';
                if (form < 2) { args.push_back(g.n); if (!g.v.empty()) args.push_back(g.v); }
                else if (form < 4) text += g.n + (g.v.empty() ? "" : " " + g.v) + "\n"; else if (form == 4) text += g.n + (g.v.empty() ? "" : (dd ? "=" : "") + g.v) + "\t"; else if (form == 5) text += std::string(g.n, dd ? 2 : 1) + " " + g.v + "  "; else if (form == 6) text += g.n + (g.v.empty() ? "" : (dd ? "=" : " ") + g.v) + "\r\n"; }
            if (form >= 2) { args.push_back("-f"); args.push_back("script.txt"); }
            int n = on[0] ? 4 : 1, nt = on[3] ? 2 : 1, ns = on[4] ? 2 : 1, pps = (n + ns - 1) / ns;
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(args)); w->cl->files["script.txt"] = text;
            addServer(w, nt * ns, [=](int) { SrvOpt o; o.pps = pps; return o; });
            spawnActor("judge", [=] {
                actWait("the client to end", [=] { return w->cl->exited; }); std::string opts; for (auto &a : args) opts += " " + a; if (!text.empty()) opts += " {" + text + "}";
                if (w->cl->status != 0) violate("the client exited with status %d: %s [%s]", w->cl->status, w->cl->err.c_str(), opts.c_str());
                if ((int)w->conns.size() != nt * ns) violate("%zu sessions instead of %d [%s]", w->conns.size(), nt * ns, opts.c_str());
                
                for (auto &x : w->conns) { auto sent = sentOn(x.sock); if ((int)sent.size() != pps) violate("%zu requests in a session instead of %d [%s]", sent.size(), pps, opts.c_str());
                    for (size_t i = 0; i < sent.size(); i++) { if (sent[i].size != (on[2] ? 200 : 1024)) violate("a request of %zu bytes instead of %d [%s]", sent[i].size, on[2] ? 200 : 1024, opts.c_str());
                        if (on[1] && i && sent[i].start - sent[i - 1].start < 290 * US) violate("requests %ld us apart with a period of 300 us [%s]", (long)((sent[i].start - sent[i - 1].start) / US), opts.c_str());
                        if (!on[1] && !on[3] && i && sent[i].start - sent[i - 1].start < 99 * MS) violate("requests %ld us apart with the default period of 100 ms [%s]", (long)((sent[i].start - sent[i - 1].start) / US), opts.c_str());
                        if (on[1] && !on[3] && i && sent[i].start - sent[i - 1].start > 310 * US) violate("requests %ld us apart with a period of 300 us [%s]", (long)((sent[i].start - sent[i - 1].start) / US), opts.c_str()); } }
                checkReport(*w, nt, pps);
                if ((w->cl->out.find("conn_time: ") != std::string::npos) != on[5]) violate("connection times %s [%s]", on[5] ? "missing" : "shown", opts.c_str());
                recordOutcome(opts);
            });
        };
        S.push_back(s);
    }
    // distributions written out in full, wherever one is accepted
    { struct D { std::string s; double v; }; std::vector<D> ds = {{"unif:min=1000000,max=3000000", 2000000}, {"norm:2500000,std=0.00123457,min=1234567.5,max=3456789.5", 2500000}, {"norm:avg=2500000,std=1.23457e-05,min=-1.23457e+06,max=1.23457e+10", 2500000}, {"aseq:min=1234567,max=7654321,step=1234.56", 1234567}, {"gseq:min=1234567,max=7654321,step=1.00234", 1234567}, {"gamma:k=1,scale=1234567.25,min=0.00012345,max=98765432.1", 855736}, {"lognorm:avg=1234567.5,std=0.00123457,min=1234560.5,max=1234570.25", 1234567}, {"exp:1234567.25,min=0.0000123457,max=12345678901", 855736}, {"file:samples,min=0.0000123457,max=12345678901", 1234567}};
      for (size_t a = 0; a < ds.size(); a++) { Scenario s; s.name = strf("distributions-%zu", a); s.budget = 0; std::string lib = libPath("client_small");
        s.setup = [=](Kernel &k) { k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = false; k.draw = [] { return 0.5; };
            auto &x = ds[a], &y = ds[chooseFree((int)ds.size(), "offset")]; int kind = chooseFree(5, "option"); std::vector<std::string> args; std::string want;
            if (kind == 0) args = {"--store-offset", y.s, "--store-data", x.s}, want = cStore((uint64_t)x.v, true, (uint64_t)y.v); else if (kind == 1) args = {"--store-offset=" + y.s, "--store-data=" + x.s + ",nosync"}, want = cStore((uint64_t)x.v, false, (uint64_t)y.v);
            else if (kind == 2) args = {"--load-offset", y.s, "--load-data", x.s}, want = cLoad((uint64_t)x.v, (uint64_t)y.v); else if (kind == 3) args = {"-C", y.s, "-C", x.s}, want = cCompute((uint32_t)y.v) + cCompute((uint32_t)x.v); else args = {"-C", y.s, "--period", x.s}, want = cCompute((uint32_t)y.v);
            CWorldP w = std::make_shared<CWorld>(); w->cl = spawnProgram(loadModule(lib), "client", clientArgs(args)); w->cl->files["samples"] = "1234567\n2\n"; addServer(w, 1, [=](int) { SrvOpt o; o.establish = 0; return o; });
            spawnActor("judge", [=] { actWait("the client to end", [=] { return w->cl->exited; }); std::string opts; for (auto &q : args) opts += " " + q;
                if (w->cl->status != 0) violate("the client exited with status %d: %s [%s]", w->cl->status, w->cl->err.c_str(), opts.c_str());
                if (w->conns.size() != 1 || w->conns[0].msgs.size() != 1) violate("no request was sent [%s]", opts.c_str());
                std::string got = normCmds(w->conns[0].msgs[0].cmds()); if (got.compare(0, want.size(), want)) violate("options [%s ] gave%s", opts.c_str(), describe(got).c_str()); recordOutcome(opts); }); };
        S.push_back(s); } }
    std::vector<int> all; for (size_t i = 0; i < OPTS.size(); i++) all.push_back((int)i);
    std::vector<int> core = {0, 6, 8, 9, 11, 12, 13}, brackets = {0, 8, 9, 11, 15};
    add("none", {}, {0});
    for (int i : all) { // split by first option to run in parallel
        add(strf("one-%d", i), {{i}}, {0, 1, 2, 3, 4, 8}); add(strf("two-%d", i), {{i}, all}, {0, 1, 2, 3, 4, 5, 6, 7, 8});
        add(strf("three-%d", i), {{i}, all, all}, T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{0, 2, 3, 5}); 
    }
    for (int i : core) for (int j : core) { add(strf("core4-%d-%d", i, j), {{i}, {j}, core, core}, {0, 3}); add(strf("core5-%d-%d", i, j), {{i}, {j}, core, core, core}, {0}); if (T) add(strf("core6-%d-%d", i, j), {{i}, {j}, core, core, core, core}, {0}); }
    for (int i : brackets) for (int j : brackets) add(strf("brackets-%d-%d", i, j), T ? std::vector<std::vector<int>>{{i}, {j}, brackets, brackets, brackets, brackets, brackets} : std::vector<std::vector<int>>{{i}, {j}, brackets, brackets, brackets, brackets}, {0});
    add("multi-in-multi", {{9}, {9}}, {0}, true);
    return runCheck(spec, argc, argv);
}
