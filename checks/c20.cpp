// C20: sampled values respect the distribution given by the user.
#include "unit.h"
#include <cmath>
#include <algorithm>
struct Num { std::string s; double v; };
enum { PLAIN, TIME, BYTES }; static const char *modeName[] = {"plain", "time", "bytes"};
static std::vector<Num> numbers(int mode, std::vector<double> vals) {
    static const std::vector<std::pair<std::string, double>> suf[3] = {
        {{"", 1}, {"k", 1e3}, {"K", 1e3}, {"m", 1e6}, {"M", 1e6}, {"g", 1e9}, {"G", 1e9}},
        {{"", 1}, {"ns", 1e-3}, {"us", 1}, {"ms", 1e3}, {"s", 1e6}},
        {{"", 1}, {"b", 1}, {"B", 1}, {"k", 1e3}, {"kb", 1e3}, {"K", 1e3}, {"KB", 1e3}, {"m", 1e6}, {"mb", 1e6}, {"MB", 1e6}, {"g", 1e9}, {"gb", 1e9}, {"GB", 1e9}}};
    std::vector<Num> r; for (double v : vals) for (auto &x : suf[mode]) r.push_back({strf("%g%s", v, x.first.c_str()), v * x.second}); return r;
}
static bool same(double a, double b) { return std::isnan(a) ? std::isnan(b) : std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-12; }

typedef std::vector<double> Draws;
struct Case { int mode; std::string spec; std::function<double()> next; double min = NAN, max = NAN; int samples; std::vector<Draws> draws; }; // next: the reference, drawing from ref()
static const Draws *cur; static std::string curSpec; static size_t nImpl, nRef; static double at(size_t i) { return i < cur->size() ? (*cur)[i] : 0.5; }
static double ref() { return at(nRef++); }
static double refGauss(double avg, double std) { double y = 0; for (int i = 0; i < 16; i++) y += ref() - 0.5; return y * std::sqrt(12.0) / 4 * std + avg; }
static double refExp(double avg) { return -std::log(1 - ref()) * avg; }
static std::vector<Draws> seqs(const Draws &grid, int n) { std::vector<Draws> r = {{}}; for (int i = 0; i < n; i++) { std::vector<Draws> q; for (auto &d : r) for (double g : grid) { q.push_back(d); q.back().push_back(g); } r = q; } return r; }
static const Draws G = {0, 1e-9, 0.1, 0.3, 0.5, 0.7, 0.95, 0.999999};

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C20"; spec.rule = "every specification of a grammar of distributions, parameters, orders and units; every sequence of random draws from a grid up to a length; every sample against the definition fed with the same draws"; spec.assumptions = {"random draws beyond the enumerated ones are 0.5", "a fixed value is returned as is, also when bounds are given with it", "bounds that no value of the distribution can meet are not claimed"};
    bool T = thorough(); auto &S = spec.scenarios;
    std::map<std::string, std::string> files;
    auto run = [&](const std::string &name, std::vector<Case> cs) {
        int part = 0; for (size_t o = 0; o < cs.size(); o += 250, part++) { std::vector<Case> sub(cs.begin() + o, cs.begin() + std::min(cs.size(), o + 250));
            Scenario s; s.name = strf("%s-%d", name.c_str(), part); s.budget = 0; auto F = files;
            s.setup = [=](Kernel &k) { k.draw = [] { if (nImpl > nRef + 100000) violate("%s: no value ever meets the bounds", curSpec.c_str()); return at(nImpl++); };
                Proc *p = spawnUnit("c20", [=](Module *m) {
                    auto parse = usym<int(int, char *)>(m, "u_parse"); auto sample = usym<double()>(m, "u_sample"); bool full = moduleSym(m, "u_full");
                    for (auto &c : sub) { if (c.mode && !full) continue;
                        for (auto &d : c.draws) {
                            cur = &d; curSpec = c.spec; nImpl = nRef = 0; std::string t = c.spec; K->unitSteps++;
                            if (parse(c.mode, t.data()) != 1) violate("%s (%s) is not accepted", c.spec.c_str(), modeName[c.mode]);
                            auto next = c.next;
                            for (int i = 0; i < c.samples; i++) { double want; int n = 0; do { want = next(); if (++n > 1000) { fprintf(stderr, "no value in range: %s\n", c.spec.c_str()); _exit(3); } } while (want < c.min || want > c.max); double got = sample();
                                unitStep(hashStr(strf("%s %d %.12g", c.spec.c_str(), i, got))); recordOutcome(strf("%.6g", got));
                                if (got < c.min || got > c.max) violate("%s (%s): sample %d is %g, out of bounds", c.spec.c_str(), modeName[c.mode], i, got);
                                if (!same(want, got)) violate("%s (%s): sample %d is %.12g instead of %.12g", c.spec.c_str(), modeName[c.mode], i, got, want); }
                        } }
                });
                p->files = F;
                spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); if (p->status) violate("a specification was refused: %s", p->err.c_str()); }); };
            S.push_back(s); }
    };
    for (int mode = 0; mode < 3; mode++) { std::string M = modeName[mode];
        auto V = numbers(mode, {0, 0.5, 1, 2.5, 10, 999, 123456}); auto W = numbers(mode, {0.5, 1, 7}); auto X = numbers(mode, {2.5});
        std::vector<Case> c;
        for (auto &v : V) c.push_back({mode, v.s, [=] { return v.v; }, NAN, NAN, 3, {{}}});
        run("fixed-" + M, c); c.clear();
        for (auto &a : W) for (auto &b : W) if (a.v < b.v) for (int o = 0; o < 2; o++) c.push_back({mode, o ? "unif:max=" + b.s + ",min=" + a.s : "unif:min=" + a.s + ",max=" + b.s, [=] { return a.v + (b.v - a.v) * ref(); }, a.v, b.v, 2, seqs({0, 0.25, 0.999999}, 2)});
        run("unif-" + M, c); c.clear();
        for (auto &a : V) if (a.v > 0) for (const char *f : {"exp:", "exp:avg="}) c.push_back({mode, f + a.s, [=] { return refExp(a.v); }, NAN, NAN, 2, seqs(G, 2)});
        for (auto &a : X) for (auto &l : W) for (int hasMin = 0; hasMin < 2; hasMin++) for (int hasMax = 0; hasMax < 2; hasMax++) for (int o = 0; o < 3; o++) { if (!hasMin && !hasMax) continue; // bounds around the median
            double mn = hasMin ? l.v : NAN, mx = hasMax ? l.v * (hasMin ? 4 : 1) : NAN, med = a.v * std::log(2); if (med < mn || med > mx) continue;
            std::string smax = strf("%.10g", mx), p1 = hasMin ? "min=" + l.s : "", p2 = hasMax ? "max=" + (hasMin ? smax : l.s) : "", A = (o == 1 ? "avg=" : "") + a.s;
            std::vector<std::string> ps = {A}; if (hasMin) ps.push_back(p1); if (hasMax) ps.push_back(p2); if (o == 2) std::reverse(ps.begin(), ps.end());
            std::string t = "exp:"; for (size_t i = 0; i < ps.size(); i++) t += (i ? "," : "") + ps[i];
            c.push_back({mode, t, [=] { return refExp(a.v); }, mn, mx, 2, seqs(G, 3)}); }
        run("exp-" + M, c); c.clear();
        std::vector<Draws> consts = {{}}; for (double g : G) consts.push_back(Draws(16, g)); for (double g : G) for (double h : G) { Draws d(16, g); d.insert(d.end(), 16, h); consts.push_back(d); } for (int i = 0; i < 16; i++) for (double g : {0.0, 0.999999}) { Draws d(16, 0.5); d[i] = g; consts.push_back(d); }
        for (auto &a : W) for (auto &b : X) for (int bounds = 0; bounds < 4; bounds++) for (int o = 0; o < 3; o++) for (int logn = 0; logn < 2; logn++) {
            if (mode == BYTES && (a.v > 1e8 || b.v > 1e8)) continue;
            double m2 = a.v * a.v, s2 = b.v * b.v, xa = std::log(m2 / std::sqrt(m2 + s2)), xd = std::sqrt(std::log(1 + s2 / m2)), mid = logn ? std::exp(xa) : a.v;
            double mn = bounds & 1 ? mid * 0.75 : NAN, mx = bounds & 2 ? mid * 1.5 : NAN;
            std::vector<std::string> ps = {(o == 1 ? "avg=" : "") + a.s, "std=" + b.s}; if (bounds & 1) ps.push_back(strf("min=%.17g", mn)); if (bounds & 2) ps.push_back(strf("max=%.17g", mx)); if (o == 2) std::reverse(ps.begin(), ps.end());
            std::string t = logn ? "lognorm:" : "norm:"; for (size_t i = 0; i < ps.size(); i++) t += (i ? "," : "") + ps[i];
            c.push_back({mode, t, [=] { return logn ? std::exp(refGauss(xa, xd)) : refGauss(a.v, b.v); }, mn, mx, 2, consts}); }
        run("norm-" + M, c); c.clear();
        for (double xa : {0.0, 1.0, 3.0}) for (double xs : {0.25, 1.0}) for (int o = 0; o < 2; o++) c.push_back({mode, o ? strf("lognorm:xstd=%g,xavg=%g", xs, xa) : strf("lognorm:xavg=%g,xstd=%g", xa, xs), [=] { return std::exp(refGauss(xa, xs)); }, NAN, NAN, 2, consts});
        run("lognorm-" + M, c); c.clear();
        for (int k = 1; k <= (T ? 4 : 3); k++) for (double sc : {0.5, 2.0, 10.0}) for (int o = 0; o < 4; o++) { double mn = o == 2 ? k * sc * 0.5 : NAN, mx = o == 3 ? k * sc * 2 : NAN; std::string t = o == 1 ? strf("gamma:scale=%g,k=%d", sc, k) : strf("gamma:k=%d,scale=%g", k, sc); if (o == 2) t += strf(",min=%g", mn); if (o == 3) t += strf(",max=%g", mx);
            c.push_back({mode, t, [=] { double x = 0; for (int i = 0; i < k; i++) x += refExp(sc); return x; }, mn, mx, 2, seqs({0, 0.1, 0.5, 0.9, 0.9999}, k)}); }
        for (auto &a : W) { c.push_back({mode, "gamma:" + a.s + ",std=" + a.s, [=] { return refExp(a.v); }, NAN, NAN, 2, seqs(G, 2)}); }
        c.push_back({mode, "gamma:8,std=4", [=] { double x = 0; for (int i = 0; i < 4; i++) x += refExp(2); return x; }, NAN, NAN, 2, seqs({0, 0.5, 0.9}, 4)});
        run("gamma-" + M, c); c.clear();
        auto seq = [&](bool geo, std::string t, double start, double step, double mn, double mx) { // stays at the bound it meets
            c.push_back({mode, t, [=, v = start]() mutable { double r = v; v = geo ? r * step : r + step; if (v >= mx) v = mx; else if (v <= mn) v = mn; return r; }, mn, mx, 30, {{}}}); };
        for (auto &l : numbers(mode, {1, 2, 7})) for (double span : {0.0, 1.0, 4.0, 9.0}) for (const char *st : {"", "1", "2", "0.25", "3", "-1", "-2", "-0.25"}) for (int o = 0; o < 3; o++) {
            double step = *st ? atof(st) : 1, mx = l.v + span; bool up = step >= 0; std::string ms = strf("%.17g", mx);
            if (o == 2 && !*st) continue;
            std::string ss = *st ? std::string("step=") + st : "";
            std::string t = o == 0 ? "aseq:min=" + l.s + ",max=" + ms + (*st ? "," + ss : "") : o == 1 ? "aseq:max=" + ms + ",min=" + l.s + (*st ? "," + ss : "") : "aseq:" + ss + ",min=" + l.s + ",max=" + ms;
            seq(false, t, up ? l.v : mx, step, l.v, mx);
            if (o == 0) { double start = l.v + span / 2; std::string a = strf("%.17g", start); seq(false, "aseq:" + a + ",min=" + l.s + ",max=" + ms + (*st ? "," + ss : ""), start, step, l.v, mx); seq(false, "aseq:avg=" + a + ",max=" + ms + (up && *st ? "," + ss : ""), start, up ? step : 1, NAN, mx); if (!up) seq(false, "aseq:" + a + ",min=" + l.s + "," + ss, start, step, l.v, NAN); } }
        for (auto &l : numbers(mode, {2})) { auto st = numbers(mode, {4}); for (auto &x : st) { if (l.v < x.v / 50) continue; seq(false, "aseq:min=" + l.s + ",max=" + strf("%.17g", l.v + 3.5 * x.v) + ",step=" + x.s, l.v, x.v, l.v, l.v + 3.5 * x.v); } }
        for (auto &l : numbers(mode, {1, 2, 7})) for (double f : {1.0, 2.0, 8.0, 10.0}) for (const char *st : {"", "2", "3", "1.5", "0.5", "0.25"}) { double step = *st ? atof(st) : 2, mx = l.v * f; bool up = step >= 1; std::string ms = strf("%.17g", mx), tail = *st ? std::string(",step=") + st : "";
            seq(true, "gseq:min=" + l.s + ",max=" + ms + tail, up ? l.v : mx, step, l.v, mx); double start = l.v * f / 2; if (f >= 2) seq(true, "gseq:" + strf("%.17g", start) + ",min=" + l.s + ",max=" + ms + tail, start, step, l.v, mx); }
        run("seq-" + M, c); c.clear();
        // samples from files
        for (int n : {1, 2, 3, 15, 16, 17, 32, 33, 65}) for (int col = 0; col < 3; col++) for (const char *sep : {",", ";", ":", " ", "\t", "|"}) for (int variant = 0; variant < 4; variant++) { // variants: plain, header lines, no newline at the end, long lines
            if (variant == 3 && n > 3) continue;
            if (variant == 3 && col && *sep == ' ') continue;
            std::string name = strf("/f-%d-%d-%d-%d", n, col, (int)*sep, variant), body = variant == 1 ? strf("first%ssecond%sthird\n", sep, sep) : ""; std::vector<double> xs;
            for (int i = 0; i < n; i++) { for (int q = 0; q < 3; q++) { double v = (q + 1) * 100 + i * 1.5; if (q == col) xs.push_back(v); body += (q ? sep : "") + strf("%g", v) + (variant == 3 && q == 1 ? std::string(i == 0 ? 255 : i == 1 ? 1500 : 240, 'x') : ""); } if (!(variant == 2 && i == n - 1)) body += "\n"; }
            files[name] = body;
            struct U { const char *s; double f; }; std::vector<U> us = {{"", 1}, {"k", 1e3}, {"M", 1e6}}; if (mode == TIME) us = {{"", 1}, {"ns", 1e-3}, {"us", 1}, {"ms", 1e3}, {"s", 1e6}}; if (mode == BYTES) us.push_back({"kb", 1e3}), us.push_back({"GB", 1e9});
            for (auto &u : us) for (int o = 0; o < 3; o++) for (int bounds = 0; bounds < 3; bounds++) {
                if ((n > 3 && n != 17) && (o || bounds)) continue;
                if (!*u.s && o == 2) continue;
                double mn = bounds == 1 ? xs[n / 2] * u.f : NAN, mx = bounds == 2 ? xs[n / 2] * u.f : NAN; std::string b = bounds == 1 ? strf(",min=%.17g", mn) : bounds == 2 ? strf(",max=%.17g", mx) : "";
                std::string un = *u.s ? std::string(",unit=") + u.s : "", cs = col ? strf(",col=%d", col) : "", se = *sep == ',' ? "" : std::string(",sep=") + sep;
                std::string t = o == 0 ? "file:" + name + cs + se + un + b : o == 1 ? "file:" + name + b + un + se + cs : "file:" + un.substr(1) + "," + name + cs + se + b;
                double f = u.f; c.push_back({mode, t, [=, i = (size_t)0]() mutable { return xs[i++ % xs.size()] * f; }, mn, mx, 2 * n + 3, {{}}}); } }
        for (const char *nm : {"data", "/tmp/10runs.csv", "10runs.csv", "3", "inf.txt", "info.csv", "nan.csv", "nanos", "db", "samples.B", "0x10", "k", "ms", "-5", "x=y"}) { files[nm] = "5\n6\n4\n"; c.push_back({mode, std::string("file:") + nm, [i = (size_t)0]() mutable { return (double)"\5\6\4"[i++ % 3]; }, NAN, NAN, 7, {{}}}); }
        run("file-" + M, c); files.clear();
    }
    { // all the corners of the 16 draws of a normal sample
        std::vector<Draws> all; for (unsigned x = 0; x < 1u << 16; x++) { Draws d; for (int i = 0; i < 16; i++) d.push_back(x >> i & 1 ? 0.999 : 0.001); all.push_back(d); }
        run("norm-corners", {{PLAIN, "norm:20,std=5", [] { return refGauss(20, 5); }, NAN, NAN, 1, all}, {PLAIN, "norm:20,std=5,min=15,max=22", [] { return refGauss(20, 5); }, 15, 22, 1, all}});
    }
    // specifications that leave something out, or with words that mean nothing
    for (auto &b : std::vector<std::pair<int, const char *>>{{0, ""}, {0, "abc"}, {0, "unif"}, {0, "unif:min=1"}, {0, "unif:max=1"}, {0, "unif:5"}, {0, "exp"}, {0, "exp:"}, {0, "exp:std=3"}, {0, "exp:5,std=2"}, {0, "norm:5"}, {0, "norm:std=5"}, {0, "lognorm:5"}, {0, "lognorm:xavg=3"}, {0, "lognorm:xstd=3"}, {0, "gamma:5"}, {0, "gamma:k=2"}, {0, "gamma:scale=2"}, {0, "aseq:min=1"}, {0, "aseq:step=1"}, {0, "aseq:max=9"}, {0, "aseq:max=9,step=-1"}, {0, "gseq:min=1"}, {0, "gseq:max=9,step=0.5"}, {0, "poisson:5"}, {0, "exp:5,foo=3"}, {0, "exp:5,step=3"}, {0, "norm:5,std=2,xavg=3"}, {0, "exp:5,col=1"}, {0, "file:"}, {0, "file:/none"}, {0, "file:/two,col=2"}, {0, "file:/empty"}, {0, "file:/words"}, {0, "file:/two,unit=x"}, {0, "10ms"}, {0, "exp:5us"}, {0, "unif:min=1s,max=2s"}, {2, "10ms"}, {2, "exp:5s"}}) {
        Scenario s; s.name = strf("refused-%s-%s", modeName[b.first], b.second); s.budget = 0; int mode = b.first; std::string t = b.second;
        s.setup = [=](Kernel &k) { k.draw = [] { return 0.5; }; Proc *p = spawnUnit("c20", [=](Module *m) { auto parse = usym<int(int, char *)>(m, "u_parse"); if (mode && !moduleSym(m, "u_full")) return; std::string x = t; unitStep(hashStr(t)); if (parse(mode, x.data()) == 1) violate("%s is accepted", t.c_str()); });
            p->files = {{"/two", "1,2\n3,4\n"}, {"/empty", ""}, {"/words", "a\nb\n"}}; spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); }); };
        S.push_back(s);
    }
    return runCheck(spec, argc, argv);
}
