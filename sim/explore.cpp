#include "explore.h"
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

// ------------------------------------------------------------------ choice stack
static std::vector<ChoicePoint> path; static size_t pos, floorDepth; static int used, budget;
static bool replayStrict = false; static bool diverged = false; static uint64_t nChoices;
static uint16_t tagId(const char *t) { uint32_t h = 2166136261u; for (; *t; t++) h = (h ^ (unsigned char)*t) * 16777619u; return (uint16_t)(h ^ h >> 16); }

int budgetLeft() { return budget - used; }
int choose(int n, int ncheap, const char *tag) {
    if (n <= 1) return 0;
    if (n > 60000) { fprintf(stderr, "choice too wide\n"); _exit(3); }
    if (ncheap < n && used >= budget) n = ncheap; // costly options are out of reach
    if (n <= 1) return 0;
    nChoices++;
    uint16_t tg = tagId(tag);
    if (pos < path.size()) {
        ChoicePoint &c = path[pos++];
        if (c.n != n || c.tag != tg || c.ncheap != ncheap) {
            if (c.n > n || c.tag != tg || c.ncheap != ncheap) { diverged = true; if (!replayStrict) fprintf(stderr, "replay divergence at choice %zu (%s: %d options, recorded %d)\n", pos - 1, tag, n, c.n); return 0; }
        }
        if (c.taken >= c.ncheap) used++;
        return c.taken;
    }
    path.push_back({(uint16_t)n, (uint16_t)ncheap, 0, tg}); pos++;
    return 0;
}
static bool nextPath() {
    while (path.size() > floorDepth) {
        ChoicePoint &c = path.back();
        int u = 0; for (size_t i = 0; i + 1 < path.size(); i++) if (path[i].taken >= path[i].ncheap) u++;
        int t = c.taken + 1;
        if (t < c.n && (t < c.ncheap || u < budget)) { c.taken = t; return true; }
        path.pop_back();
    }
    return false;
}

// ------------------------------------------------------------------ shared memory between workers
static const int QN = 256, QL = 6000, MSG = 4096, NV = 64;
struct Job { int scen; int len; int floor; ChoicePoint p[QL]; };
struct Shared {
    pthread_mutex_t mu;
    int qn; Job q[QN];
    int nextScen, idle, nworkers; volatile int stop; volatile int nviol; int waiting;
    uint64_t execs, steps, choices, states, outcomes, donated; int maxDepth; int capped;
    uint64_t perScenExec[8192];
    struct V { int scen; int known, cut; char msg[MSG]; int len; ChoicePoint p[QL]; } v[NV];
    int error; char errmsg[512];
};
static Shared *S; static std::unordered_set<uint64_t> seen, outs; static double deadline; static const size_t MAXSEEN = 6000000;
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void noteState(uint64_t h) { if (seen.size() < MAXSEEN) seen.insert(h); }
void recordOutcome(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; outs.insert(h); }

void capReached() { if (S) S->capped = 1; }

bool thorough() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static std::string buildDir() { const char *b = getenv("VERIF_BUILD"); return b ? b : "/verif/build/current"; }
std::string libPath(const std::string &n) { return buildDir() + "/" + n + ".so"; }

static void beginExec() { pos = 0; used = 0; diverged = false; }

struct Known { std::string prop, scen, msg; };
static std::vector<Known> loadKnown() {
    std::vector<Known> v; FILE *f = fopen("/verif/known_findings.txt", "r"); if (!f) return v; char b[4096];
    while (fgets(b, sizeof b, f)) { // known: property=<id> scenario=<name> :: <message>
        std::string l(b); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        if (l.compare(0, 7, "known: ")) continue;
        size_t p = l.find("property="), s = l.find("scenario="), m = l.find(" :: "); if (p == std::string::npos || s == std::string::npos || m == std::string::npos) continue;
        Known k; k.prop = l.substr(p + 9, l.find(' ', p) - p - 9); k.scen = l.substr(s + 9, l.find(' ', s) - s - 9); k.msg = l.substr(m + 4); v.push_back(k);
    }
    fclose(f); return v;
}
static bool isKnown(const std::vector<Known> &kn, const std::string &prop, const std::string &scen, const std::string &msg) {
    for (auto &k : kn) if (k.prop == prop && (k.scen == scen || (!k.scen.empty() && k.scen.back() == '*' && scen.compare(0, k.scen.size() - 1, k.scen, 0, k.scen.size() - 1) == 0)) && msg == k.msg) return true;
    return false;
}

static void reportV(int scen, const std::string &msg, bool known) {
    pthread_mutex_lock(&S->mu);
    if (known) for (int i = 0; i < S->nviol; i++) if (S->v[i].known && S->v[i].scen == scen && msg == S->v[i].msg) { pthread_mutex_unlock(&S->mu); return; }
    if (S->nviol < NV || !known) {
        int at = S->nviol < NV ? S->nviol : NV - 1; auto &v = S->v[at]; v.scen = scen; v.known = known; snprintf(v.msg, MSG, "%s", msg.c_str());
        v.len = (int)std::min(pos, path.size()); while (v.len && !path[v.len - 1].taken) v.len--; // what follows is the default
        v.cut = v.len > QL; if (v.cut) v.len = QL;
        memcpy(v.p, path.data(), v.len * sizeof(ChoicePoint)); if (at == S->nviol) S->nviol = S->nviol + 1;
    }
    if (!known) S->stop = 1;
    pthread_mutex_unlock(&S->mu);
}

// re-runs the current path; true if the same failure shows up again
static bool confirm(const Scenario &sc, const std::string &msg, std::string *trace) {
    auto saved = path; auto sp = pos; path.resize(std::min(pos, path.size())); saved = path; sp = pos;
    bool ok = true;
    for (int i = 0; i < 2 && ok; i++) { path = saved; beginExec(); replayStrict = true; ExecResult r; r.wantTrace = trace != nullptr; g_hangTicks = 20; runOne(sc, r); g_hangTicks = 8; replayStrict = false; if (!r.failed || r.failure != msg || diverged) ok = false; if (trace) *trace = r.trace; }
    path = saved; pos = sp; return ok;
}

static void exploreFrom(CheckSpec &spec, int si, const std::vector<Known> &kn) {
    Scenario &sc = spec.scenarios[si]; budget = sc.budget; uint64_t n = 0;
    for (;;) {
        if (S->stop) return;
        if (nowS() > deadline) { S->capped = 1; return; }
        beginExec();
        ExecResult r; runOne(sc, r); n++;
        __atomic_add_fetch(&S->execs, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&S->perScenExec[si], 1, __ATOMIC_RELAXED); __atomic_add_fetch(&S->steps, r.steps, __ATOMIC_RELAXED);
        if (diverged) { pthread_mutex_lock(&S->mu); S->error = 1; snprintf(S->errmsg, sizeof S->errmsg, "nondeterministic replay in scenario %s", sc.name.c_str()); S->stop = 1; pthread_mutex_unlock(&S->mu); return; }
        path.resize(std::min(pos, path.size()));
        if ((int)path.size() > S->maxDepth) S->maxDepth = (int)path.size();
        if (r.failed) {
            bool k = isKnown(kn, spec.property, sc.name, r.failure);
            if (!k) {
                if (!confirm(sc, r.failure, nullptr)) { pthread_mutex_lock(&S->mu); S->error = 1; snprintf(S->errmsg, sizeof S->errmsg, "violation not reproducible in scenario %s: %s", sc.name.c_str(), r.failure.c_str()); S->stop = 1; pthread_mutex_unlock(&S->mu); return; }
            }
            reportV(si, r.failure, k);
            if (!k) return;
        }
        // share work with idle workers
        if (S->waiting > S->qn && (n & 3) == 0) {
            pthread_mutex_lock(&S->mu);
            int u = 0;
            for (size_t i = 0; i < path.size() && S->qn < QN; i++) {
                if (i >= floorDepth && path[i].taken + 1 < path[i].n && i < QL) {
                    int t = path[i].taken + 1;
                    if (t < path[i].ncheap || u < budget) {
                        Job &j = S->q[S->qn++]; j.scen = si; j.len = (int)i + 1; j.floor = (int)i; memcpy(j.p, path.data(), (i + 1) * sizeof(ChoicePoint)); j.p[i].taken = t;
                        path[i].n = t; S->donated++; break;
                    }
                }
                if (path[i].taken >= path[i].ncheap) u++;
            }
            pthread_mutex_unlock(&S->mu);
        }
        if (!nextPath()) return;
    }
}

static void worker(CheckSpec &spec, const std::vector<Known> &kn) {
    initSim();
    for (;;) {
        pthread_mutex_lock(&S->mu);
        int si = -1; bool job = false;
        if (!S->stop) {
            if (S->nextScen < (int)spec.scenarios.size()) { si = S->nextScen++; path.clear(); floorDepth = 0; }
            else if (S->qn > 0) { Job &j = S->q[--S->qn]; si = j.scen; path.assign(j.p, j.p + j.len); floorDepth = j.floor; job = true; }
        }
        (void)job;
        if (si < 0) {
            S->waiting++; bool allIdle = S->waiting == S->nworkers || S->stop;
            pthread_mutex_unlock(&S->mu);
            if (allIdle) return; // others notice below
            for (;;) { // wait for donated work or the end
                usleep(500);
                pthread_mutex_lock(&S->mu);
                if (S->stop || (S->waiting == S->nworkers && S->qn == 0)) { pthread_mutex_unlock(&S->mu); return; }
                if (S->qn > 0) { S->waiting--; pthread_mutex_unlock(&S->mu); break; }
                pthread_mutex_unlock(&S->mu);
            }
            continue;
        }
        pthread_mutex_unlock(&S->mu);
        exploreFrom(spec, si, kn);
        pthread_mutex_lock(&S->mu); S->choices += nChoices; nChoices = 0; pthread_mutex_unlock(&S->mu);
    }
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }

static void writeReplay(const std::string &file, CheckSpec &spec, int si, const ChoicePoint *p, int len, const std::string &msg, const std::string &trace) {
    FILE *f = fopen(file.c_str(), "w"); if (!f) return;
    fprintf(f, "property %s\nscenario %s\nmessage %s\nchoices %d\n", spec.property.c_str(), spec.scenarios[si].name.c_str(), msg.c_str(), len);
    for (int i = 0; i < len; i++) fprintf(f, "%u %u %u %u\n", p[i].n, p[i].ncheap, p[i].taken, p[i].tag);
    fprintf(f, "--- trace\n%s", trace.c_str()); fclose(f);
}

static int replayFile(CheckSpec &spec, const char *file) {
    FILE *f = fopen(file, "r"); if (!f) { perror(file); return 2; }
    char prop[64], scen[512]; int n = 0; char line[8192];
    if (fscanf(f, "property %63s\nscenario %511s\n", prop, scen) != 2) return 2;
    if (!fgets(line, sizeof line, f) || fscanf(f, "choices %d\n", &n) != 1) return 2;
    path.clear(); for (int i = 0; i < n; i++) { unsigned a, b, c, d; if (fscanf(f, "%u %u %u %u\n", &a, &b, &c, &d) != 4) return 2; path.push_back({(uint16_t)a, (uint16_t)b, (uint16_t)c, (uint16_t)d}); }
    fclose(f);
    for (auto &sc : spec.scenarios) if (sc.name == scen) { initSim(); budget = sc.budget; beginExec(); ExecResult r; r.wantTrace = true; runOne(sc, r); printf("%s\nresult: %s\n", r.trace.c_str(), r.failed ? r.failure.c_str() : "no violation"); return r.failed ? 1 : 0; }
    fprintf(stderr, "no such scenario\n"); return 2;
}

int runCheck(CheckSpec spec, int argc, char **argv) {
    double t0 = nowS(); std::string only; bool list = false, all = false; int nw = 8; double limit = thorough() ? 840 : 420;
    if (getenv("VERIF_WORKERS")) nw = atoi(getenv("VERIF_WORKERS"));
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) return replayFile(spec, argv[i + 1]);
        if (a == "--only" && i + 1 < argc) only = argv[++i];
        if (a == "--list") list = true;
        if (a == "--all") all = true; // keep going after a violation (diagnosis)
        if (a == "--show" && i + 1 < argc) { for (auto &sc : spec.scenarios) if (sc.name == argv[i + 1]) { initSim(); budget = 0; beginExec(); ExecResult r; r.wantTrace = true; runOne(sc, r); printf("%s\nresult: %s\nfree choices:", r.trace.c_str(), r.failed ? r.failure.c_str() : "no violation"); for (auto &c : path) printf(" %u", c.n); printf("\n"); return 0; } fprintf(stderr, "no such scenario\n"); return 2; }
    }
    if (list) { for (auto &s : spec.scenarios) printf("%s budget=%d\n", s.name.c_str(), s.budget); return 0; }
    if (!only.empty()) { std::vector<Scenario> v; for (auto &s : spec.scenarios) if (s.name.find(only) != std::string::npos) v.push_back(s); spec.scenarios = v; }
    if (spec.scenarios.size() > 8192) { fprintf(stderr, "too many scenarios\n"); return 2; }
    if (spec.scenarios.empty()) { fprintf(stderr, "no scenarios\n"); return 2; }
    auto kn = loadKnown();
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
    deadline = t0 + limit;
    if (all) { // one process per scenario, report each outcome
        int bad = 0, run = 0; double per = getenv("VERIF_LIMIT") ? atof(getenv("VERIF_LIMIT")) : 20;
        auto reap = [&] { int st; if (wait(&st) > 0) { run--; if (!WIFEXITED(st)) { printf("harness crash\n"); bad = 1; } else if (WEXITSTATUS(st)) bad = 1; } };
        for (size_t i = 0; i < spec.scenarios.size(); i++) {
            fflush(stdout);
            if (run >= nw) reap();
            pid_t p = fork(); run++;
            if (p == 0) {
                S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                pthread_mutex_init(&S->mu, &ma);
                double t1 = nowS(); deadline = t1 + per;
                S->nworkers = 1; initSim(); path.clear(); floorDepth = 0;
                exploreFrom(spec, (int)i, kn);
                if (S->error) printf("%-40s ERROR %s\n", spec.scenarios[i].name.c_str(), S->errmsg);
                else if (S->nviol && !S->v[0].known) printf("%-40s FAIL %s (%lu executions)\n", spec.scenarios[i].name.c_str(), S->v[0].msg, (unsigned long)S->execs);
                else printf("%-40s ok %lu executions %.2fs%s%s\n", spec.scenarios[i].name.c_str(), (unsigned long)S->execs, nowS() - t1, S->capped ? " CAPPED" : "", S->nviol ? " (known finding)" : "");
                fflush(stdout); _exit((S->nviol && !S->v[0].known) || S->error ? 1 : 0);
            }
        }
        while (run > 0) reap();
        return bad;
    }
    S->nworkers = nw;
    std::vector<pid_t> pids; fflush(stdout); fflush(stderr);
    int pfd[2]; if (pipe(pfd)) return 2;
    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p == 0) {
            close(pfd[0]); worker(spec, kn);
            FILE *f = fdopen(pfd[1], "w"); (void)f;
            // hand over the distinct states and outcomes seen (per worker file, merged by the parent)
            std::string fn = buildDir() + strf("/.seen.%s.%d", spec.property.c_str(), w);
            FILE *o = fopen(fn.c_str(), "w"); if (o) { uint64_t a = seen.size(), b = outs.size(); fwrite(&a, 8, 1, o); fwrite(&b, 8, 1, o); for (auto h : seen) fwrite(&h, 8, 1, o); for (auto h : outs) fwrite(&h, 8, 1, o); fclose(o); }
            _exit(0);
        }
        pids.push_back(p);
    }
    close(pfd[1]); close(pfd[0]);
    bool crash = false; for (size_t n = 0; n < pids.size(); n++) { int st; pid_t p = waitpid(-1, &st, 0); (void)p; if (!WIFEXITED(st) || WEXITSTATUS(st)) { crash = true; S->stop = 1; } }
    std::vector<uint64_t> hs, os;
    for (int w = 0; w < nw; w++) { std::string fn = buildDir() + strf("/.seen.%s.%d", spec.property.c_str(), w); FILE *f = fopen(fn.c_str(), "r"); if (!f) continue; uint64_t a, b; if (fread(&a, 8, 1, f) == 1 && fread(&b, 8, 1, f) == 1) { size_t o = hs.size(); hs.resize(o + a); size_t q = os.size(); os.resize(q + b); if (a && fread(&hs[o], 8, a, f) != a) {} if (b && fread(&os[q], 8, b, f) != b) {} } fclose(f); unlink(fn.c_str()); }
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end()); std::sort(os.begin(), os.end()); os.erase(std::unique(os.begin(), os.end()), os.end());
    if (crash) { fprintf(stderr, "harness worker crashed\n"); return 2; }
    if (S->error) { fprintf(stderr, "%s\n", S->errmsg); return 2; }
    // the first unknown violation, if any
    int vi = -1; for (int i = 0; i < S->nviol; i++) if (!S->v[i].known) { vi = i; break; }
    if (S->stop && vi < 0) { fprintf(stderr, "stopped without a violation\n"); return 2; }
    mkdir("/verif/out", 0755); mkdir("/verif/evidence", 0755);
    std::string rp = "/verif/out/" + spec.property + ".replay";
    std::string sample;
    initSim();
    if (vi >= 0) {
        auto &v = S->v[vi]; path.assign(v.p, v.p + v.len); pos = path.size(); budget = spec.scenarios[v.scen].budget; std::string tr; confirm(spec.scenarios[v.scen], v.msg, &tr);
        writeReplay(rp, spec, v.scen, v.p, v.len, v.msg, tr);
        printf("scenario %s: %s\n", spec.scenarios[v.scen].name.c_str(), v.msg);
    }
    { path.clear(); budget = 0; beginExec(); ExecResult r; r.wantTrace = true; runOne(spec.scenarios[0], r); sample = r.trace.substr(0, 3000); }
    for (int i = 0; i < S->nviol; i++) if (S->v[i].known) printf("KNOWN-FINDING: property=%s scenario %s: %s\n", spec.property.c_str(), spec.scenarios[S->v[i].scen].name.c_str(), S->v[i].msg);
    double wall = nowS() - t0;
    std::string ev = "/verif/evidence/" + spec.property + ".json"; FILE *f = fopen(ev.c_str(), "w");
    if (f) {
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %s,\n \"level\": \"model_checking\",\n", spec.property.c_str(), thorough() ? "thorough" : "quick", getenv("VERIF_SEED") && *getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1");
        fprintf(f, " \"coverage\": {\n  \"states\": %zu,\n  \"transitions\": %lu,\n  \"traces_validated_against_impl\": %lu,\n  \"choice_points\": %lu,\n  \"distinct_outcomes\": %zu,\n  \"scenarios\": %zu,\n  \"deepest_choice_stack\": %d,\n  \"exhaustive\": %s,\n  \"rule\": \"%s\",\n  \"scenario_executions\": {", hs.size(), (unsigned long)S->steps, (unsigned long)S->execs, (unsigned long)S->choices, os.size(), spec.scenarios.size(), S->maxDepth, (S->capped || S->stop) ? "false" : "true", jesc(spec.rule).c_str());
        for (size_t i = 0; i < spec.scenarios.size() && i < 400; i++) fprintf(f, "%s\n   \"%s\": %lu", i ? "," : "", jesc(spec.scenarios[i].name).c_str(), (unsigned long)S->perScenExec[i]);
        fprintf(f, "},\n  \"samples\": [\"scenario %s, default schedule:\\n%s\"]\n },\n \"assumptions\": [", jesc(spec.scenarios[0].name).c_str(), jesc(sample).c_str());
        for (size_t i = 0; i < spec.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(spec.assumptions[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, vi >= 0 ? 1 : 0); fclose(f);
    }
    printf("%s: %zu scenarios, %lu executions, %zu states, %lu steps, %zu outcomes, %.1fs%s\n", spec.property.c_str(), spec.scenarios.size(), (unsigned long)S->execs, hs.size(), (unsigned long)S->steps, os.size(), wall, S->capped ? " (time cap reached)" : "");
    if (vi >= 0) { printf("VIOLATION property=%s replay=%s\n", spec.property.c_str(), rp.c_str()); return 1; }
    return 0;
}
} // namespace sim
