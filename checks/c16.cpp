// C16: encoding, skipping and splitting of command chains are exact.
#include "unit.h"
#include "node.h"

// a template: commands of all levels in a row
struct TCmd { int kind; double val; long off = 0; int sync = 0, nack = 1, port = 0, nskip = 0; }; // kind as on the wire, 3 is a skip
enum { SKIP = 3 };

static size_t skipRef(const std::vector<TCmd> &v, size_t i, int n, bool passReply) { // after n commands of this level
    while (n-- > 0 && i < v.size()) {
        if (v[i].kind == W_REPLY) { if (!passReply) break; i++; continue; }
        if (v[i].kind == W_FORWARD || v[i].kind == W_MULTI) {
            int d = 0; do { if (v[i].kind == W_FORWARD) d++; else if (v[i].kind == W_MULTI) { d++; while (v[i + 1].kind == W_MULTI) i++; } else if (v[i].kind == W_REPLY) d--; i++; } while (d);
        } else i++;
    }
    return i;
}
// shapes: c compute, s store, l load, 1-9 skip so many, f( ) forward, m( ) forward to two targets
static void shapes(int tokens, const std::string &alpha, const std::string &pre, int open, bool afterMulti, const std::function<void(const std::string &)> &emit) {
    if (!tokens) { emit(pre + std::string(open, ')')); return; }
    for (char c : alpha) { if (c == 'm' && afterMulti) continue; bool b = c == 'f' || c == 'm'; shapes(tokens - 1, alpha, pre + c + (b ? "(" : ""), open + b, c == 'm', emit); }
    if (open) { size_t n = pre.size(); if (pre[n - 1] != ')' || true) { std::string p = pre + ")"; // close one level and go on
        std::function<void(const std::string &, int)> go = [&](const std::string &q, int o) { for (char c : alpha) { bool b = c == 'f' || c == 'm'; shapes(tokens - 1, alpha, q + c + (b ? "(" : ""), o + b, c == 'm', emit); } if (o) go(q + ")", o - 1); };
        go(p, open - 1); } }
}
static std::vector<TCmd> templateOf(const std::string &sh) {
    std::vector<TCmd> v; int k = 0; std::vector<int> nf;
    for (char c : sh) { k++;
        if (c == 'c') v.push_back({W_COMPUTE, 100.0 + k}); else if (c == 's') v.push_back({W_STORE, 1000.0 + k, 50 + k, k & 1}); else if (c == 'l') v.push_back({W_LOAD, 2000.0 + k, 70 + k}); else if (isdigit(c)) { TCmd t{SKIP, 0.5}; t.nskip = c - '0'; v.push_back(t); }
        else if (c == 'f' || c == 'm') { for (int i = 0; i < (c == 'm' ? 2 : 1); i++) { TCmd t{c == 'm' ? W_MULTI : W_FORWARD, 300.0 + 10 * k + i}; t.port = 1000 + 10 * k + i; v.push_back(t); } nf.push_back(c == 'm' ? 2 : 1); }
        else if (c == ')') { TCmd t{W_REPLY, 400.0 + k}; t.nack = nf.back(); nf.pop_back(); v.push_back(t); } }
    v.push_back({W_REPLY, 500}); return v;
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C16"; spec.rule = "every command chain of the stated number of commands, every skip count and start position, every outcome of the skip draws and every available size around the exact fit on the real encoder; every chain shape through a running node; all compared with an independent reference"; spec.assumptions = simAssumptions();
    auto &S = spec.scenarios; bool T = thorough();
    // ---- templates: skipping and encoding
    auto unit = [&](const std::string &name, std::vector<std::string> shs, bool seq) {
        Scenario s; s.name = name; s.budget = 0;
        s.setup = [=](Kernel &k) {
            static unsigned mask; static int nd; k.draw = [] { return mask >> nd++ & 1 ? 0.75 : 0.25; };
            Proc *p = spawnUnit("c16", [=](Module *m) {
                auto nw = usym<void *()>(m, "u_new"); auto destroy = usym<void(void *)>(m, "u_destroy"); auto add = usym<void(void *, int, double, double, long, int, int, int, int)>(m, "u_add"); auto skip = usym<int(void *, int, int)>(m, "u_skip"); auto dump = usym<int(void *, void *, unsigned)>(m, "u_dump"); bool full = moduleSym(m, "u_full") != nullptr;
                auto mal = usym<void *(size_t)>(m, "u_malloc"); auto fre = usym<void(void *)>(m, "u_free");
                for (auto &sh : shs) {
                    auto v = templateOf(sh); if (!full) for (auto &t : v) { t.off = t.sync = t.nack = t.port = 0; }
                    void *q = nw(); int nskips = 0; for (auto &t : v) { add(q, t.kind, t.val, seq && t.kind != SKIP ? 3 : 0, t.off, t.sync, t.nack, t.port, t.nskip); nskips += t.kind == SKIP; }
                    std::vector<int> round(v.size());
                    // skipping, from every command up to the reply of its level
                    for (size_t i = 0; i < v.size(); i++) { size_t prev = SIZE_MAX; for (int n = 0; n <= (int)v.size(); n++) { size_t r = skipRef(v, i, n, false); if (r == prev) break; prev = r; int g = skip(q, (int)i, n); unitStep(hashStr(strf("%s %zu %d", sh.c_str(), i, n))); if (g != (r == v.size() ? -1 : (int)r)) violate("chain %s: skipping %d commands from command %zu leads to command %d instead of %zu", sh.c_str(), n, i, g, r); } }
                    // encoding, with every outcome of the draws
                    std::vector<int> sizes = {9999, 0, 1, 2, 3, 4, 8, 12, -1, -2, -3}; for (int x = 4; x <= 28 * (int)v.size(); x += 4) sizes.push_back(-x);
                    for (unsigned mk = 0; mk < 1u << nskips; mk++) for (int sz : sizes) {
                        if (seq && sz < 9999) continue;
                        auto saved = round; auto draws = [&](std::string *w) { size_t i = 0; int d = 0; while (i < v.size()) { auto &t = v[i];                             if (t.kind == SKIP) { bool no = mk >> d++ & 1; i = no ? i + 1 : skipRef(v, i + 1, t.nskip, false); continue; }
                            double val = t.val + (seq ? 3 * round[i]++ : 0);
                            if (t.kind == W_COMPUTE) *w += cCompute((uint32_t)val); else if (t.kind == W_STORE) *w += cStore((uint64_t)val, t.sync, (uint64_t)t.off); else if (t.kind == W_LOAD) *w += cLoad((uint64_t)val, (uint64_t)t.off); else if (t.kind == W_REPLY) *w += cReply((uint32_t)val, (uint8_t)t.nack);
                            else { std::string f = cFwd(0, (uint32_t)val, 0, 0, 0, 0, t.kind == W_MULTI); memset(&f[8], 0, 4); uint16_t port = (uint16_t)t.port; memcpy(&f[12], &port, 2); memset(&f[24], 0, 4); *w += f; }
                            i++; } *w += cEom(); return d; };
                        std::string want; int used = draws(&want); if (mk >> used) { round = saved; continue; } // the same as with fewer draws
                        long avail = sz == 9999 ? (long)want.size() + 600 : (long)want.size() + sz; if (avail < 0) continue;
                        char *buf = (char *)mal(HDR + avail); memset(buf, 0x5a, HDR + avail); mask = mk; nd = 0;
                        int rv = dump(q, buf, (unsigned)avail);
                        unitStep(hashStr(strf("%s %x %d", sh.c_str(), mk, sz)));
                        if (sz < 0 && rv == 1) violate("chain %s: encoded in %ld bytes although it needs %zu", sh.c_str(), avail, want.size());
                        if (sz >= 4 * nskips && rv != 1) violate("chain %s: not encoded in %ld bytes although it needs %zu", sh.c_str(), avail, want.size());
                        if (rv == 1) { std::string got = normCmds(std::string(buf + HDR, std::min((size_t)avail, want.size()))); if (got != want) violate("chain %s (draws %x): the encoded commands differ from the template", sh.c_str(), mk); }
                        fre(buf); // also finds bytes written past the end
                    }
                    destroy(q); recordOutcome(sh);
                }
            });
            spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); if (p->status) violate("exit status %d: %s", p->status, p->err.c_str()); });
        };
        S.push_back(s);
    };
    auto batch = [&](const std::string &name, int tokens, const std::string &alpha, bool seq) { std::vector<std::string> v; int k = 0; shapes(tokens, alpha, "", 0, false, [&](const std::string &s) { v.push_back(s); if (v.size() == 400) { unit(strf("%s-%d", name.c_str(), k++), v, seq); v.clear(); } }); if (!v.empty()) unit(strf("%s-%d", name.c_str(), k), v, seq); };
    batch("all0", 0, "c", false); batch("all1", 1, "csl129fm", false); batch("all2", 2, "csl129fm", false); batch("all3", 3, "csl129fm", false); batch("seq", 3, "csl1fm", true);
    batch("deep4", 4, "c12fm", false); batch("deep5", 5, "c1fm", false); batch("deep6", 6, "c1fm", false); if (T) { batch("deep5b", 5, "c12fm", false); batch("deep7", 7, "c1f", false); }
    // ---- through a node: what each target receives, what is executed here, in which order
    const uint16_t P = 7892, Q = 7893, DEAD = 7899; const std::vector<std::string> args = {"-s", "/data/store", "-m", "1000000"};
    auto build = [=](const std::string &sh, int failSkip) { // failSkip > 0: the first forward is never answered
        std::string s; int comp = 0, k = 0, pkt = 0, depth = 0, fwds = 0; std::vector<int> nf;
        for (char c : sh) { k++;
            if (c == 'c') s += cCompute(depth ? 700 + k : 1000u << comp++); else if (c == 's') s += cStore(11 + k, false, 40 * k);
            else if (c == 'f' || c == 'm') { bool dead = failSkip && !fwds++; for (int i = 0; i < (c == 'm' ? 2 : 1); i++) s += cFwd(dead ? DEAD : i ? Q : P, 300 + 3 * pkt++, dead ? 500 : 0, 0, dead ? failSkip : 1, W_TCP, c == 'm'); nf.push_back(c == 'm' ? 2 : 1); depth++; }
            else if (c == ')') { s += cReply(24 + 2 * k, nf.back()); nf.pop_back(); depth--; } }
        return s + cReply(33);
    };
    auto node = [&](const std::string &sh, int failSkip, const std::string &left) {
        NodeScenario n; n.name = strf("node-%s%s", sh.c_str(), failSkip ? strf("-fail%d", failSkip).c_str() : ""); n.budget = 0; n.args = args; n.opts = [](Options &o) { o.cputick = 50 * US; }; n.targets = {P, Q, DEAD}; n.anyOrder = false;
        ClientSpec c; Req r{4, build(sh, failSkip), 0}; if (failSkip) r.status = -1; if (r.cmds.size() > 700) return; c.reqs = {r}; n.clients = {c};
        if (failSkip) { n.answers = false; n.checkFwd = false; n.extra = [=](CtxP x) { spawnDaemon("answers", [=] { for (;;) { auto next = [=]() -> TMsg * { for (auto &f : x->fwd) if (!f.answered && f.port != DEAD) return &f; return nullptr; }; actWait("messages", [&] { return next() != nullptr; }); answer(*x, *next()); actStep(); } }); }; }
        std::string cmds = r.cmds; if (failSkip) { ClientSpec d = c; d.reqs[0].cmds = left; auto N = std::make_shared<std::vector<ClientSpec>>(std::vector<ClientSpec>{d});
            n.final = [=](CtxP x, Kernel &k) { checkOrder(x, k, *N); size_t dead = 0; for (auto &f : x->fwd) { dead += f.port == DEAD; if (f.port == DEAD && f.m.cmds() != interpret(cmds)[0].nested && sh[0] != 'c') violate("the failing forward did not carry its nested commands"); } if (dead != (sh.find('m') == sh.find_first_of("fm") ? 2u : 1u)) violate("%zu messages for the failing forward", dead); }; }
        else { auto N = std::make_shared<std::vector<ClientSpec>>(n.clients); n.final = [=](CtxP x, Kernel &k) { checkOrder(x, k, *N); }; }
        S.push_back(toScenario(n));
    };
    for (int t = 1; t <= 5; t++) shapes(t, "cfm", "", 0, false, [&](const std::string &s) { if (s.find_first_of("fm") != std::string::npos) node(s, 0, ""); });
    shapes(3, "csfm", "", 0, false, [&](const std::string &s) { if (s.find_first_of("fm") != std::string::npos && s.find('s') != std::string::npos) node(s, 0, ""); });
    for (int t = 1; t <= (T ? 4 : 3); t++) shapes(t, "csfm", "", 0, false, [&](const std::string &s) {
        if (s[0] != 'f' && s[0] != 'm') return;
        for (int n = 1; n <= 3; n++) { // what is left of the chain once the forward failed: n commands further, not past the reply
            std::string all = build(s, n), rest = all; size_t o = 0; int left = n; bool ok = true;
            while (left > 0) { int k = get<int32_t>(all, o); if (k == W_REPLY) { ok = false; break; } if (k == W_FORWARD || k == W_MULTI) { int d = 0; do { k = get<int32_t>(all, o); if (k == W_FORWARD) d++; else if (k == W_MULTI) { d++; while (get<int32_t>(all, o + 28) == W_MULTI) o += 28; } else if (k == W_REPLY) d--; o += cmdSize(k); } while (d); } else o += cmdSize(k); left--; }
            if (ok) node(s, n, all.substr(o));
        }
    });
    return runCheck(spec, argc, argv);
}
