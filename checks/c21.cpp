// C21: host, port and protocol are parsed as documented: [tcp|udp:[//]][host][:port].
#include "client.h"
#include "node.h"
struct Spec { std::string s; int proto; uint32_t ip; uint16_t port; bool ok = true; };
static const uint32_t DEF = LOOP, TEN = 0x0a000007, MY = 0x0a010203, ODD = 0x0a0a0a0a, ODD2 = 0x0a0a0a0b, ODD3 = 0x0a0a0a0c, DOT = 0x0a0b0c0d;

static std::vector<Spec> grammar(bool withProto, bool T, uint32_t def = DEF, uint16_t defPort = 7891) {
    struct P { const char *s; int proto; }; struct H { const char *s; uint32_t ip; };
    std::vector<P> ps = {{"", W_TCP}}; if (withProto) ps = {{"", W_TCP}, {"tcp://", W_TCP}, {"udp://", W_UDP}, {"tcp:", W_TCP}, {"udp:", W_UDP}, {"tcp", W_TCP}, {"udp", W_UDP}};
    std::vector<H> hs = {{"", def}, {"localhost", LOOP}, {"127.0.0.1", LOOP}, {"10.0.0.7", TEN}, {"my-node", MY}, {"tcp-server", ODD}, {"udp2", ODD2}, {"tcpudp", ODD3}, {"node.tcp.udp", DOT}, {"u", ODD}, {"tc", ODD2}};
    std::vector<int> ports = {-1, 0, 1, 80, 7000, 7891, 7892, 32767, 32768, 65535}; if (T) for (int p = 1; p < 65536; p <<= 1) ports.push_back(p), ports.push_back(p - 1), ports.push_back(p + 1);
    std::vector<Spec> v;
    for (auto &p : ps) for (auto &h : hs) for (int port : ports) {
        std::string pr = p.s; bool bare = pr == "tcp" || pr == "udp";
        if (bare && (*h.s || port >= 0)) continue;                  // would be the name of a host
        if ((pr == "tcp:" || pr == "udp:") && !*h.s && port >= 0) continue; // see below
        std::string s = pr + h.s + (port >= 0 ? ":" + std::to_string(port) : ""); if (s.empty() || s.size() > 30) continue;
        v.push_back({s, p.proto, h.ip, (uint16_t)(port >= 0 ? port : defPort)});
    }
    return v;
}
static std::vector<Spec> wrong(bool withProto) {
    std::vector<std::string> v; std::vector<std::string> ps = {""}; if (withProto) ps = {"", "tcp://", "udp://", "tcp:", "udp:"};
    for (auto &p : ps) for (const char *h : {"", "localhost", "10.0.0.7"}) for (const char *t : {":x", ":70000", ":65536", ":100000", ":4294967376", ":-1", ":80x", ":0x50", ":7000:8000", ":7000:", ":8.0", ":80,"}) { std::string s = p + h + t; if (withProto && s.find(',') != std::string::npos) continue; v.push_back(s); }
    if (withProto) for (const char *s : {"udp::7000", "tcp::7000", "udp:tcp://:7000", ":7000://:tcp", "http://localhost:80", "sctp://localhost"}) v.push_back(s);
    for (const char *s : {"no-such-host", "no-such-host:80", "256.1.1.1"}) v.push_back(s);
    std::vector<Spec> r; for (auto &s : v) r.push_back({s, 0, 0, 0, false}); return r;
}
static std::string ipStr(uint32_t a) { return strf("%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255); }

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C21"; spec.rule = "every address of a grammar of protocol, host and port forms, and every malformed one of a list, in each option that takes an address, on the real programs; the sockets they create and the requests they send show what was understood"; spec.assumptions = simAssumptions(); spec.assumptions.push_back("addresses are at most 30 characters long; an empty port (host:) and a protocol with one colon followed by a bare port (udp::80, udp:80) are not claimed as valid");
    bool T = thorough(); auto common = [](Kernel &k) { k.opt.timeDev = false; k.opt.preemptSut = k.opt.preemptEnv = k.opt.epollOrder = false; k.hosts = {{"my-node", MY}, {"tcp-server", ODD}, {"udp2", ODD2}, {"tcpudp", ODD3}, {"node.tcp.udp", DOT}, {"u", ODD}, {"tc", ODD2}, {"localhost", LOOP}}; };
    auto add = [&](const std::string &name, std::vector<Spec> all, std::function<void(Kernel &, const Spec &)> go) {
        for (size_t o = 0, part = 0; o < all.size(); o += 60, part++) { std::vector<Spec> v(all.begin() + o, all.begin() + std::min(all.size(), o + 60));
            Scenario s; s.name = strf("%s-%zu", name.c_str(), part); s.budget = 0; s.setup = [=](Kernel &k) { common(k); go(k, v[chooseFree((int)v.size(), "address")]); }; spec.scenarios.push_back(s); } };
    auto both = [&](bool p) { auto v = grammar(p, T), w = wrong(p); v.insert(v.end(), w.begin(), w.end()); return v; };
    // ---- where the node listens
    for (int how = 0; how < 3; how++) add(how == 0 ? "node-short" : how == 1 ? "node-long" : "node-two-threads", both(true), [=](Kernel &, const Spec &a) {
        std::vector<std::string> args = {"dw_node"}; if (how == 1) args.push_back("--bind-addr=" + a.s); else { args.push_back("-b"); args.push_back(a.s); } if (how == 2) args.push_back("--num-threads=2");
        Proc *p = spawnProgram(loadModule(libPath("node_small")), "node", args);
        spawnActor("judge", [=] {
            auto listening = [=](int *n) { std::string r; *n = 0; for (Obj *o : K->objs) { if (o->owner != p) continue; if (o->kind == K_TCP && ((Tcp *)o)->st == Tcp::LISTENING) { auto t = (Tcp *)o; r += strf("tcp %s:%d ", ipStr(t->local.ip).c_str(), t->local.port); ++*n; } if (o->kind == K_UDP && ((Udp *)o)->bound) { auto t = (Udp *)o; r += strf("udp %s:%d ", ipStr(t->local.ip).c_str(), t->local.port); ++*n; } } return r; };
            actWait("the node to be ready or to end", [=] { int n; listening(&n); return p->exited || n >= 1; }); actSleepUntil(K->now + 1 * MS); int n; std::string got = listening(&n);
            if (!a.ok) { if (!p->exited || p->status == 0) violate("the node accepts -b %s as %s", a.s.c_str(), got.c_str()); recordOutcome("refused"); return; }
            if (p->exited) violate("the node refuses -b %s: %s", a.s.c_str(), p->err.c_str());
            std::string one = strf("%s %s:%d ", a.proto == W_UDP ? "udp" : "tcp", ipStr(a.ip).c_str(), a.port), want; for (int i = 0; i < n; i++) want += one;
            if (a.port && got != want) violate("with -b %s the node listens on %s", a.s.c_str(), got.c_str());
            recordOutcome(got);
        });
    });
    // ---- where the client connects, and from where
    auto client = [=](Kernel &, const Spec &a, bool to) {
        Proc *p = spawnProgram(loadModule(libPath("client_small")), "client", to ? std::vector<std::string>{"dw_client", "--to", a.s, "--retry-num", "1"} : std::vector<std::string>{"dw_client", "--bind-addr=" + a.s, "--retry-num", "1"});
        spawnActor("judge", [=] {
            Addr want = to ? Addr{a.ip, a.port} : Addr{LOOP, 7891}; int seen = 0;
            auto scan = [&] { for (Obj *o : K->objs) { if (o->owner != p) continue; Addr r{0, 0}, l{0, 0}; int proto = W_TCP; if (o->kind == K_TCP) { auto t = (Tcp *)o; r = t->remote, l = t->local; } else if (o->kind == K_UDP) { auto t = (Udp *)o; r = t->remote, l = t->local; proto = W_UDP; } else continue;
                if (!r.port && !r.ip) continue;
                seen++; std::string d = strf("%s %s:%d from %s:%d", proto == W_UDP ? "udp" : "tcp", ipStr(r.ip).c_str(), r.port, ipStr(l.ip).c_str(), l.port); recordOutcome(d);
                if (a.ok && (!(r == want) || proto != (to ? a.proto : W_TCP))) violate("with %s %s the client connects to %s", to ? "--to" : "-b", a.s.c_str(), d.c_str());
                if (a.ok && !to && ((l.ip != a.ip && (a.ip || a.port)) || (a.port ? l.port != a.port : l.port && l.port < 30000))) violate("with -b %s the client connects from %s:%d", a.s.c_str(), ipStr(l.ip).c_str(), l.port); } };
            actWait("a connection attempt or the end", [&] { for (auto &e : K->trace) if (e.k == E_CONNECT) return true; for (Obj *o : K->objs) if (o->owner == p && o->kind == K_UDP && ((Udp *)o)->connected) return true; return p->exited; }); scan();
            if (!a.ok) { if (seen || !p->exited || p->status == 0) violate("the client accepts %s %s", to ? "--to" : "-b", a.s.c_str()); recordOutcome("refused"); return; }
            if (!seen && (a.port || !to)) violate("the client refuses %s %s: %s", to ? "--to" : "-b", a.s.c_str(), p->err.c_str());
        });
    };
    add("client-to", both(true), [=](Kernel &k, const Spec &a) { client(k, a, true); });
    auto from = grammar(false, T, 0, 0), bad = wrong(false); from.insert(from.end(), bad.begin(), bad.end()); // by default, any address and any port
    add("client-from", from, [=](Kernel &k, const Spec &a) { client(k, a, false); });
    // ---- targets of forwards: one, or two in the same option
    for (int pos = 0; pos < 3; pos++) add(strf("forward-%d", pos), both(true), [=](Kernel &, const Spec &a) {
        std::string o = pos == 0 ? a.s : pos == 1 ? a.s + ",10.0.0.7:99" : "udp://my-node:98," + a.s + ",timeout=500"; CWorldP w = std::make_shared<CWorld>();
        w->cl = spawnProgram(loadModule(libPath("client_small")), "client", {"dw_client", "--forward", o}); addServer(w, 1, [=](int) { SrvOpt q; q.establish = 0; return q; });
        spawnActor("judge", [=] { actWait("the client to end", [=] { return w->cl->exited; });
            bool sent = w->conns.size() == 1 && w->conns[0].msgs.size() == 1;
            if (!a.ok) { if (sent || w->cl->status == 0) violate("the client accepts --forward %s", o.c_str()); recordOutcome("refused"); return; }
            if (!sent) violate("the client refuses --forward %s: %s", o.c_str(), w->cl->err.c_str());
            std::string c = w->conns[0].msgs[0].cmds(); std::vector<Spec> ts = {a}; if (pos == 1) ts.push_back({"10.0.0.7:99", W_TCP, TEN, 99}); if (pos == 2) ts.insert(ts.begin(), Spec{"", W_UDP, MY, 98});
            for (size_t i = 0; i < ts.size(); i++) { std::string want = cFwd(ts[i].port, get<uint32_t>(c, 28 * i + 4), pos == 2 ? 500 : 0, 0, 1, ts[i].proto, ts.size() > 1); struct in_addr ia; ia.s_addr = htonl(ts[i].ip); memcpy(&want[8], &ia, 4); if (normCmds(c.substr(28 * i, 28)) != normCmds(want)) violate("--forward %s gave another target than %s:%d (%s)", o.c_str(), ipStr(ts[i].ip).c_str(), ts[i].port, ts[i].proto == W_UDP ? "udp" : "tcp"); }
            recordOutcome(c); });
    });
    return runCheck(spec, argc, argv);
}
