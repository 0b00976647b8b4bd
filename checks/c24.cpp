// C24: client and nodes together: every request is answered, and its latency covers the work done on the whole path.
#include "client.h"
#include "node.h"

// what the client is asked: a chain of steps. "C<us>" compute, "S<bytes>" store, "F<ports>(" forward to nodes (letters a, b, c), ")" ends it; "Fbc/1(" waits for one answer only; "u" before the letters: UDP
struct Plan { std::vector<std::string> args; long least = 0, most = 0, n = 0; std::map<int, long> cpu; }; // us: computing on the path waited for, all the computing, computing of each node per request
static long walk(const std::string &s, size_t &i, int node, Plan &p, bool build, double share) { // returns the least time of this level
    long t = 0;
    while (i < s.size() && s[i] != ')') {
        char c = s[i++]; if (c == ' ') continue;
        if (c == 'C') { long us = strtol(&s[i], nullptr, 10); while (i < s.size() && isdigit(s[i])) i++; t += us; p.cpu[node] += us; p.most += us; p.n++; if (build) { p.args.push_back("-C"); p.args.push_back(std::to_string(us)); } }
        else if (c == 'S') { long n = strtol(&s[i], nullptr, 10); while (i < s.size() && isdigit(s[i])) i++; if (build) { p.args.push_back("-S"); p.args.push_back(std::to_string(n)); } }
        else if (c == 'F') {
            bool udp = s[i] == 'u'; if (udp) i++; std::string to; std::vector<int> nodes; int nack = 0; while (s[i] != '(') { if (s[i] == '/') { nack = s[i + 1] - '0'; i += 2; continue; } nodes.push_back(s[i++] - 'a'); }
            for (int n : nodes) to += (to.empty() ? "" : ",") + strf("%s127.0.0.1:%d", udp ? "udp://" : "", 7891 + n);
            if (build) { p.args.push_back("-F"); p.args.push_back(to); }
            i++; std::vector<long> ts; size_t e = i; bool first = true; for (int n : nodes) { e = i; ts.push_back(walk(s, e, n, p, build && first, share)); first = false; } i = e + 1;
            std::sort(ts.begin(), ts.end()); t += ts[(nack ? nack : (int)ts.size()) - 1]; if (build) { p.args.push_back("-R"); p.args.push_back(nack ? strf("100,nack=%d", nack) : "100"); }
        }
    }
    return t;
}

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C24"; spec.rule = "the real client and up to three real nodes in one simulated machine; every choice of up to the stated number of deviations (thread switches of all the processes, orders of ready events); the client's report and the computing done by each node against the plan of the request"; spec.assumptions = simAssumptions(); spec.assumptions.push_back("all the processes share one processor, so latencies are bounded by all the computing asked");
    bool T = thorough();
    auto add = [&](const std::string &name, const std::string &chain, int pkts, int threads, int sess, int period, std::vector<std::string> nodeArgs, int budget, bool udp = false) {
        Scenario s; s.name = strf("%s [%s] x%d%s%s%s", name.c_str(), chain.size() > 60 ? strf("%zu", chain.size()).c_str() : chain.c_str(), pkts, threads > 1 ? strf(" threads %d", threads).c_str() : "", sess > 1 ? strf(" sessions %d", sess).c_str() : "", udp ? " udp" : ""); for (auto &a : nodeArgs) s.name += " " + a; s.name += strf(" period %d", period); s.budget = budget;
        Plan p; size_t i = 0; p.least = walk(chain, i, 0, p, true, 1); int used = 1; for (auto &c : p.cpu) used = std::max(used, c.first + 1); for (char c : chain) if (c == 'b') used = std::max(used, 2); else if (c == 'c') used = 3;
        s.setup = [=](Kernel &k) {
            k.opt.timeDev = false; k.opt.preemptEnv = false; k.opt.freeSwitch = false; k.opt.cputick = 100 * US; k.opt.clocktick = 2 * US;
            static const char *libs[3] = {"node_small", "node_small_b", "node_small_c"}; auto nodes = std::make_shared<std::vector<Proc *>>(); auto cl = std::make_shared<Proc *>(nullptr);
            for (int n = 0; n < used; n++) { std::vector<std::string> a = {"dw_node", "-b", strf("%s:%d", udp ? "udp://" : "", 7891 + n), "-s", strf("/data/store%d", n)}; a.insert(a.end(), nodeArgs.begin(), nodeArgs.end()); nodes->push_back(spawnProgram(loadModule(libPath(libs[n])), strf("node%d", n), a)); }
            spawnActor("operator", [=] {
                for (auto q : *nodes) actWait("the nodes to be ready", [=] { for (Obj *o : K->objs) if (o->owner == q && ((o->kind == K_TCP && ((Tcp *)o)->st == Tcp::LISTENING) || (o->kind == K_UDP && ((Udp *)o)->bound))) return true; return false; });
                actSleepUntil(10 * MS);
                std::vector<std::string> a = {"dw_client", "-n", std::to_string(pkts), "-p", std::to_string(period), "--ps", p.args.size() > 60 ? "950" : "400"}; if (udp) { a.push_back("--to"); a.push_back("udp://"); } if (threads > 1) a.push_back(strf("--nt=%d", threads)); if (sess > 1) a.push_back(strf("--ns=%d", sess)); a.insert(a.end(), p.args.begin(), p.args.end());
                *cl = spawnProgram(loadModule(libPath("client_small")), "client", a);
                actWait("the client to end", [=] { return (*cl)->exited; });
                if ((*cl)->status) violate("the client ended with status %d: %s", (*cl)->status, (*cl)->err.c_str());
                auto lines = reportLines((*cl)->out); int total = pkts * threads; if ((int)lines.size() != total) violate("%zu report lines for %d requests", lines.size(), total);
                std::set<std::pair<int, int>> ids; long slack = 200 + 100L * (30 + (p.n > 10 ? 2 * p.n * total : 0)); // the clock of CPU time has steps of 100 us
                for (auto &l : lines) { if (!ids.insert({l.thr, l.id}).second) violate("request %d of thread %d is reported twice", l.id, l.thr);
                    if (l.el < p.least) violate("request %d: %ld us elapsed, although its path computes for %ld us", l.id, l.el, p.least);
                    if (l.el > p.most * total + slack) violate("request %d: %ld us elapsed, although all the requests compute for %ld us", l.id, l.el, p.most * total); 
                    recordOutcome(strf("%d %d %ld", l.thr, l.id, l.el)); }
                for (size_t n = 0; n < nodes->size(); n++) { long us = 0; for (auto t : K->threads) if (t->proc == (*nodes)[n]) us += t->cpuTotal / US; auto it = p.cpu.find((int)n); long want = it == p.cpu.end() ? 0 : it->second * total;
                    if (us < want || (!want && us > slack) || us > want + 100L * (3 + 8 * total * (long)p.args.size())) violate("node %zu computed for %ld us instead of %ld", n, us, want); }
                for (auto q : *nodes) if (q->exited) violate("a node ended: %s", q->err.c_str());
            });
        };
        spec.scenarios.push_back(s);
    };
    int B = T ? 3 : 2;
    for (const char *c : {"C1000", "C500 C300", "S64 C400", "C300 S64"}) for (int n : {1, 2, 3}) add("one node", c, n, 1, 1, 200, {}, B + (n < 3));
    add("one node", "C700", 2, 2, 1, 300, {}, B); add("one node", "C700", 4, 1, 2, 300, {}, B); add("one node", "C700", 2, 2, 1, 300, {"--num-threads=2"}, B);
    for (const char *c : {"Fb(C1000)", "C400 Fb(C600) C200", "Fb()", "Fb(S50 C300)", "Fb(C200) Fb(C300)", "Fb(Fa(C500))", "C100 Fb(C200 Fa(C300) C400) C500"}) { add("two nodes", c, 1, 1, 1, 300, {}, B + 1); add("two nodes", c, 2, 1, 1, 300, {}, B); }
    for (const char *c : {"Fb(C300 Fc(C500) C200)", "C100 Fb(C300) Fc(C500) C200", "Fbc(C600)", "C100 Fbc(C600) C200", "Fbc/1(C600) C200", "Fb(Fc(Fa(C300)))", "Fb(Fac(C300))", "Fbc(C200) Fbc(C300)", "Fabc(C300)", "Fbc(Fa(C200))"}) { add("three nodes", c, 1, 1, 1, 300, {}, B); add("three nodes", c, 2, 1, 1, 300, {}, B); }
    add("three nodes", "C100 Fb(C300) Fc(C500) C200", 1, 2, 1, 300, {}, B); add("three nodes", "C100 Fbc(C500) C200", 2, 1, 2, 300, {"--num-threads=2"}, B - 1);
    for (int n : {31, 64, 70, 100}) { std::string many; for (int j = 0; j < n; j++) many += "C100 "; add("many commands", many, 1, 1, 1, 300, {}, 0); add("many commands forwarded", "Fb(" + many + ")", 1, 1, 1, 300, {}, 0); add("many commands before", "C100 " + many + "Fb(C400)", 1, 1, 1, 300, {}, 0); add("many commands after", "Fb(C400) " + many, 1, 1, 1, 300, {}, 0); add("many commands forwarded twice", "Fbc(Fa(" + many + "))", 1, 1, 1, 300, {}, 0); }
    for (const char *c : {"C1000", "C300 Fub(C500) C200", "Fubc(C300)"}) for (int n : {1, 2}) add("udp", c, n, 1, 1, 300, {}, B, true);
    return runCheck(spec, argc, argv);
}
