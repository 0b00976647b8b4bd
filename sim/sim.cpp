// Simulated kernel, scheduler, allocator. See sim.h.
#include "sim.h"
#include <arpa/inet.h>
#include <argp.h>
#include <cassert>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <netdb.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "internal.h"

namespace sim {

Kernel *K = nullptr;
static const ns_t MONO_BASE = 1000 * SEC, REAL_BASE = 1700000000LL * SEC;
uint64_t g_calls = 0; // all simulated calls (watchdog)

std::string strf(const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}

// ------------------------------------------------------------------ coroutines
extern "C" void sim_ctx_switch(void **save, void *to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static const size_t STK = 256 * 1024;
static std::vector<char *> stackPool;
static void *mainSp;
static void *fillsp;

static char *getStack() {
    if (stackPool.empty()) {
        char *p = (char *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(p, 4096, PROT_NONE);
        return p + 4096;
    }
    char *s = stackPool.back(); stackPool.pop_back(); return s;
}

static void pushEv(EvKind k, int obj, int64_t a, int64_t b, const std::string &s = std::string());

static void threadMain();
static void initStack(Thread *t) {
    t->stack = getStack();
    memset(t->stack + STK - 24 * 1024, K->opt.fill, 24 * 1024);
    void **sp = (void **)(t->stack + STK);
    *--sp = 0; *--sp = 0; *--sp = 0;
    *--sp = (void *)threadMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp;
}

// ------------------------------------------------------------------ modules
struct Module {
    void *h; std::string path;
    struct Seg { char *a; size_t n; std::vector<char> snap; };
    std::vector<Seg> segs;
    char *tls = nullptr; size_t tlsSize = 0; std::vector<char> tlsInit;
    Thread *tlsOwner = nullptr;
    char *lo = nullptr, *hi = nullptr;
};
static std::vector<Module *> modules;

struct PhCtx { const char *name; Module *m; };
static int phcb(struct dl_phdr_info *i, size_t, void *c) {
    PhCtx *x = (PhCtx *)c;
    if (!i->dlpi_name || strcmp(i->dlpi_name, x->name)) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &ph = i->dlpi_phdr[k];
        if (ph.p_type == PT_LOAD) {
            char *a = (char *)i->dlpi_addr + ph.p_vaddr;
            if (!x->m->lo || a < x->m->lo) x->m->lo = a;
            if (a + ph.p_memsz > x->m->hi) x->m->hi = a + ph.p_memsz;
            if (ph.p_flags & PF_W) { Module::Seg s; s.a = a; s.n = ph.p_memsz; s.snap.assign(a, a + ph.p_memsz); x->m->segs.push_back(s); }
        }
        if (ph.p_type == PT_TLS) { x->m->tls = (char *)i->dlpi_tls_data; x->m->tlsSize = ph.p_memsz; }
    }
    return 0;
}

Module *loadModule(const std::string &so) {
    for (auto m : modules) if (m->path == so) return m;
    Module *m = new Module; m->path = so;
    m->h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!m->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
    // make sure the TLS block of the module exists in this thread before locating it
    void *tn = dlsym(m->h, "thread_name"); (void)tn;
    PhCtx c{so.c_str(), m};
    dl_iterate_phdr(phcb, &c);
    if (m->tls) m->tlsInit.assign(m->tls, m->tls + m->tlsSize);
    modules.push_back(m);
    return m;
}
void *moduleSym(Module *m, const char *name) { return dlsym(m->h, name); }

// ------------------------------------------------------------------ allocator with guard pages
static const size_t PG = 4096;
struct Slot { char *page; size_t pages; bool prot; bool live; bool freed; size_t size; char *ptr; };
struct Heap {
    std::vector<Slot> small, med; size_t ns = 0, nm = 0;
    char *sBase, *sEnd, *mBase, *mEnd;
    std::map<char *, std::pair<size_t, bool>> big; std::vector<std::pair<char *, size_t>> maps;
    std::unordered_map<char *, Slot *> byPtr;
    static const size_t MP = 17;
    void init() {
        size_t NS = 1500, NM = 200;
        sBase = (char *)mmap(nullptr, NS * 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sEnd = sBase + NS * 2 * PG;
        mBase = (char *)mmap(nullptr, NM * (MP + 1) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mEnd = mBase + NM * (MP + 1) * PG;
        for (size_t i = 0; i < NS; i++) small.push_back({sBase + i * 2 * PG, 1, false, false, false, 0, nullptr});
        for (size_t i = 0; i < NM; i++) med.push_back({mBase + i * (MP + 1) * PG, MP, false, false, false, 0, nullptr});
    }
    void *alloc(size_t size, size_t align, bool zero) {
        if (size > MP * PG - 64 || align > 256) {
            size_t n = (size + PG - 1) / PG * PG;
            char *p = (char *)mmap(nullptr, n + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) return nullptr;
            mprotect(p + n, PG, PROT_NONE);
            maps.push_back({p, n + PG});
            char *ptr = p + (n - size) / (align < 16 ? 16 : align) * (align < 16 ? 16 : align);
            if (!zero && size <= (1 << 20)) memset(ptr, K->opt.fill, size);
            big[ptr] = {size, true};
            return ptr;
        }
        std::vector<Slot> &v = size <= PG ? small : med; size_t &n = size <= PG ? ns : nm;
        Slot *s = nullptr;
        if (n < v.size()) s = &v[n++];
        else for (auto &c : v) if (c.freed) { s = &c; byPtr.erase(c.ptr); break; }
        if (!s) { fprintf(stderr, "sim heap exhausted\n"); _exit(3); }
        if (!s->prot) { mprotect(s->page, s->pages * PG, PROT_READ | PROT_WRITE); s->prot = true; }
        if (align < 16) align = 16;
        char *end = s->page + s->pages * PG;
        size_t r = (size + align - 1) / align * align; if (r == 0) r = align;
        s->ptr = end - r; s->size = size; s->live = true; s->freed = false;
        memset(s->ptr, zero ? 0 : K->opt.fill, size);
        memset(s->ptr + size, 0xCC, r - size);
        byPtr[s->ptr] = s;
        return s->ptr;
    }
    bool canaryOk(Slot *s) {
        char *end = s->page + s->pages * PG;
        for (char *p = s->ptr + s->size; p < end; p++) if ((unsigned char)*p != 0xCC) return false;
        return true;
    }
    // returns error text or null
    const char *release(void *vp) {
        char *p = (char *)vp; if (!p) return nullptr;
        auto b = big.find(p);
        if (b != big.end()) { if (!b->second.second) return "double free"; b->second.second = false; mprotect((char *)((uintptr_t)p & ~(PG - 1)), (b->second.first + PG - 1) / PG * PG, PROT_NONE); return nullptr; }
        auto it = byPtr.find(p); if (it == byPtr.end()) return "free of an invalid pointer";
        Slot *s = it->second; if (s->freed) return "double free";
        const char *e = canaryOk(s) ? nullptr : "heap block overrun";
        s->freed = true; s->live = false;
        mprotect(s->page, s->pages * PG, PROT_NONE); s->prot = false;
        return e;
    }
    size_t sizeOf(void *p) {
        auto b = big.find((char *)p); if (b != big.end()) return b->second.first;
        auto it = byPtr.find((char *)p); return it == byPtr.end() ? SIZE_MAX : it->second->size;
    }
    bool owns(const void *p) { return (p >= sBase && p < sEnd) || (p >= mBase && p < mEnd); }
    bool allCanaries() { for (auto &k : byPtr) if (k.second->live && !canaryOk(k.second)) return false; return true; }
    void reset() {
        for (size_t i = 0; i < ns; i++) small[i].live = small[i].freed = false;
        for (size_t i = 0; i < nm; i++) med[i].live = med[i].freed = false;
        ns = nm = 0; byPtr.clear();
        for (auto &m : maps) munmap(m.first, m.second);
        maps.clear(); big.clear();
    }
};
static Heap heap;
uint64_t heapGen() { uint64_t n = heap.ns + heap.nm + heap.maps.size(); for (auto &k : heap.byPtr) if (k.second->freed) n += 1000003; for (auto &b : heap.big) if (!b.second.second) n += 1000003; return n; }
std::string heapBytes() { std::string r; for (size_t i = 0; i < heap.ns; i++) if (heap.small[i].live) r.append(heap.small[i].ptr, heap.small[i].size); for (size_t i = 0; i < heap.nm; i++) if (heap.med[i].live) r.append(heap.med[i].ptr, heap.med[i].size); return r; }
void heapPut(const std::string &b) { size_t o = 0; auto put = [&](Slot &s) { if (s.live) { memcpy(s.ptr, b.data() + o, s.size); o += s.size; } }; for (size_t i = 0; i < heap.ns; i++) put(heap.small[i]); for (size_t i = 0; i < heap.nm; i++) put(heap.med[i]); }
bool heapIntact() { return heap.allCanaries(); }
size_t heapLive() { size_t n = 0; for (auto &k : heap.byPtr) if (k.second->live) n += k.second->size; for (auto &b : heap.big) if (b.second.second) n += b.second.first; return n; }
void unitStep(uint64_t h) { K->unitSteps++; g_calls++; noteState(h); }

// ------------------------------------------------------------------ scheduler
static void tlsSwap(Thread *to) {
    if (!to || !to->proc || !to->proc->mod->tlsSize) return;
    Module *m = to->proc->mod;
    if (m->tlsOwner == to) return;
    if (m->tlsOwner) memcpy(m->tlsOwner->tls.data(), m->tls, m->tlsSize);
    memcpy(m->tls, to->tls.data(), m->tlsSize);
    m->tlsOwner = to;
}

static void switchTo(Thread *t) {
    Thread *c = K->cur;
    if (t == c) return;
    if (c) c->err = errno;
    K->cur = t;
    if (t) { if (!t->started) { t->started = true; initStack(t); } tlsSwap(t); errno = t->err; }
    sim_ctx_switch(c ? &c->sp : &mainSp, t ? t->sp : mainSp);
    if (K->cur && K->cur->killed) throw Killed();
}

static bool runnable(Thread *t) {
    if (t->done) return false;
    if (t->deadline >= 0 && K->now >= t->deadline) return true;
    if (t->pred) return t->pred(t->pctx);
    return t->deadline < 0;
}

static ns_t nextWake() {
    ns_t w = -1;
    for (auto t : K->threads) if (!t->done && t->deadline > K->now && (w < 0 || t->deadline < w)) w = t->deadline;
    for (auto o : K->objs) if (o->kind == K_TIMER && o->refs > 0) {
        Timer *tm = (Timer *)o;
        if (tm->expiry > 0) { tm->update(); if (tm->expiry > K->now && (w < 0 || tm->expiry < w)) w = tm->expiry; }
    }
    return w;
}

static void endExec() { K->ended = true; Thread *c = K->cur; K->cur = nullptr; if (c) { c->err = errno; sim_ctx_switch(&c->sp, mainSp); if (c->killed) throw Killed(); } }

void violate(const char *fmt, ...) {
    if (!K->failed) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); K->failed = true; K->failure = b; }
    if (K->cur) { if (K->cur->killed) return; endExec(); }
}

static Thread *TIME = (Thread *)1;
static Thread *pick() {
    Kernel &k = *K;
    for (;;) {
        if (++k.steps > k.opt.maxSteps) {
            if (!k.failed) { k.failed = true; k.failure = strf("no end after %d scheduling points (live-lock)", k.opt.maxSteps);
                for (auto t : k.threads) if (!t->done) k.failure += strf("; %s %s", t->name.c_str(), t->why); }
            return nullptr;
        }
        for (auto t : k.threads) if (t->env && !t->started && !t->done) return t; // actors run up to their first action
        Thread *S[64]; int ns = 0; Thread *A[64]; int na = 0;
        Thread *cur = k.cur; bool curRun = cur && !cur->env && runnable(cur);
        if (curRun) S[ns++] = cur;
        for (auto t : k.threads) if (t != cur || !curRun) if (runnable(t)) { if (t->env) { if (na < 64) A[na++] = t; } else if (ns < 64) S[ns++] = t; }
        if (na > 1 || (na && ns)) { // eager actors: no choice
            Thread *eg = nullptr; int m = 0; for (int i = 0; i < na; i++) { if (A[i]->eager) { if (!eg) eg = A[i]; } else A[m++] = A[i]; }
            if (eg && !ns) { A[0] = eg; na = 1; } else na = m;
        }
        if (ns && ++k.sinceEnv > k.opt.fairness && (na || nextWake() >= 0)) { ns = 0; curRun = false; }
        if (curRun && ns > 1 && ++cur->spin > 300) { cur->spin = 0; curRun = false; Thread *x = S[0]; for (int i = 1; i < ns; i++) S[i - 1] = S[i]; S[ns - 1] = x; }
        Thread *opt[130]; int n = 0, cheap = 0;
        bool haveDev = budgetLeft() > 0;
        if (ns) {
            for (int i = 0; i < ns; i++) { if (i && !k.opt.preemptSut && curRun) break; opt[n++] = S[i]; }
            cheap = (!curRun && k.opt.freeSwitch) ? n : 1;
            if (haveDev && k.opt.preemptEnv) for (int i = 0; i < na; i++) opt[n++] = A[i];
            if (haveDev && k.opt.timeDev && nextWake() >= 0) opt[n++] = TIME;
        } else if (na) {
            for (int i = 0; i < na; i++) opt[n++] = A[i];
            cheap = k.opt.actorFree ? n : 1;
            if ((k.opt.timeFree || (k.opt.timeDev && haveDev)) && nextWake() >= 0) {
                if (k.opt.timeFree) { memmove(opt + cheap + 1, opt + cheap, (n - cheap) * sizeof(opt[0])); opt[cheap++] = TIME; n++; }
                else opt[n++] = TIME;
            }
        } else {
            ns_t w = nextWake();
            bool act = false; for (auto t : k.threads) if (t->env && !t->done && !t->daemon) act = true;
            if (w < 0 || !act || w > k.opt.horizon) return nullptr;
            k.now = w; k.sinceEnv = 0; continue;
        }
        Thread *t = opt[n > 1 ? choose(n, cheap, "sched") : 0];
        if (t == TIME) { k.now = nextWake(); k.sinceEnv = 0; continue; }
        if (t->env) k.sinceEnv = 0;
        if (t != cur) t->spin = 0;
        return t;
    }
}

static void reschedule() {
    Thread *t = pick();
    if (!t) { endExec(); return; }
    switchTo(t);
}

static void flushCpu();
// a scheduling point of the program: other threads, actors or time may step in here
static void point() {
    g_calls++;
    if (!K->cur) return;
    flushCpu();
    reschedule();
}

void blockOn(const char *why, ns_t deadline, bool (*pred)(void *), void *ctx) {
    Thread *c = K->cur;
    c->pred = pred; c->pctx = ctx; c->deadline = deadline; c->why = why;
    reschedule();
    c->pred = nullptr; c->pctx = nullptr; c->deadline = -1; c->why = "";
}

template <class F> static void waitFor(const char *why, ns_t deadline, F &f) {
    blockOn(why, deadline, [](void *c) -> bool { return (*(F *)c)(); }, &f);
}

static void procExit(Proc *p, int status);

static void threadMain() {
    Thread *t = K->cur;
    if (t->env) {
        try { t->body(); } catch (Killed &) { }
        t->done = true;
        if (t->killed) { K->cur = nullptr; sim_ctx_switch(&t->sp, mainSp); abort(); }
    } else if (t->isMain) {
        Proc *p = t->proc;
        auto m = (int (*)(int, char **, char **))dlsym(p->mod->h, "main");
        static char *envp[] = {nullptr};
        int rv = m((int)p->args.size(), p->argv.data(), envp);
        procExit(p, rv);
    } else {
        t->ret = t->start(t->arg);
        flushCpu();
        t->done = true;
    }
    Thread *n = pick();
    if (!n) endExec(); else switchTo(n);
    abort();
}

static void flushCpu() {
    Thread *t = K->cur; if (!t || t->env) return;
    static_assert(sizeof(ns_t) == 8, "");
    if (t->cpu) { ns_t c = t->cpu; t->cpu = 0; pushEv(E_CPU, 0, c, 0); }
}

static void pushEv(EvKind k, int obj, int64_t a, int64_t b, const std::string &s) {
    Kernel &x = *K;
    Thread *t = x.cur;
    x.trace.push_back({k, t && t->proc ? t->proc->id : -1, t ? t->id : -1, x.now, obj, a, b, s});
    auto mix = [&](uint64_t v) { x.thash = (x.thash ^ v) * 1099511628211ull; x.thash ^= x.thash >> 29; };
    mix(k); mix((uint64_t)(t && t->proc ? t->proc->id : 99)); mix(t ? t->id : 99); mix(obj); mix(a); mix(b); mix(x.now);
    for (unsigned char c : s) mix(c);
    noteState(x.thash);
}

// ------------------------------------------------------------------ objects
template <class T> static T *newObj() { T *o = new T; o->id = (int)K->objs.size() + 1; K->objs.push_back(o); return o; }
static Proc *curProc() { return K->cur->proc; }
static int addFd(Obj *o, int from = 3) {
    Proc *p = curProc(); o->refs++; o->owner = p;
    for (size_t i = from; i < p->fds.size(); i++) if (!p->fds[i]) { p->fds[i] = o; return (int)i; }
    while ((int)p->fds.size() < from) p->fds.push_back(nullptr);
    p->fds.push_back(o); return (int)p->fds.size() - 1;
}
static Obj *getFd(int fd) {
    Proc *p = curProc();
    if (fd < 0 || fd >= (int)p->fds.size() || !p->fds[fd]) { errno = EBADF; return nullptr; }
    return p->fds[fd];
}
template <class T> static T *getFdK(int fd, Kind k, int err) { Obj *o = getFd(fd); if (!o) return nullptr; if (o->kind != k) { errno = err; return nullptr; } return (T *)o; }

uint32_t Tcp::poll() {
    switch (st) {
    case FRESH: return EPOLLOUT | EPOLLHUP;
    case LISTENING: return acceptq.empty() ? 0u : (uint32_t)EPOLLIN;
    case CONNECTING: return 0;
    case FAILED: return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (soerr ? (uint32_t)EPOLLERR : 0u);
    case CONN: {
        uint32_t e = 0;
        if (!rx.empty() || rxeof || rst || shutrd) e |= EPOLLIN;
        if (rxeof || rst || shutrd) e |= EPOLLRDHUP;
        if (rst || shutwr || space() > 0 || !peer || peer->closed) e |= EPOLLOUT;
        if (soerr) e |= EPOLLERR;
        if (rst || (rxeof && shutwr)) e |= EPOLLHUP;
        return e; }
    }
    return 0;
}
uint64_t Tcp::wakes() { if (st == CONN && space() > 0) spaceSeen = blocked; return rxtotal + (accepts << 32) + (spaceSeen << 44) + ((uint64_t)rxeof << 56) + ((uint64_t)rst << 57) + ((uint64_t)shutrd << 58) + ((uint64_t)shutwr << 59) + ((uint64_t)st << 60); }
uint32_t Udp::poll() { return (rx.empty() && !shut ? 0 : (uint32_t)EPOLLIN) | EPOLLOUT | (soerr ? (uint32_t)EPOLLERR : 0u); }
uint32_t Epoll::poll() { for (auto &i : items) if (i.ready()) return EPOLLIN; return 0; }
void Timer::update() {
    if (expiry <= 0 || K->now < expiry) return;
    if (interval > 0) { uint64_t n = (K->now - expiry) / interval + 1; fired += n; expiry += n * interval; }
    else { fired++; expiry = 0; }
}
uint32_t Timer::poll() { update(); return fired ? (uint32_t)EPOLLIN : 0u; }
uint32_t SigFd::poll() { return owner && (owner->sigpending & mask) ? (uint32_t)EPOLLIN : 0u; }
uint32_t EventFd::poll() { return (val ? (uint32_t)EPOLLIN : 0u) | EPOLLOUT; }
uint32_t Pipe::poll() {
    if (!wr) return (b->data.empty() ? 0 : (uint32_t)EPOLLIN) | (b->writers == 0 ? (uint32_t)EPOLLHUP : 0u);
    return (b->data.size() + 4096 <= b->cap ? (uint32_t)EPOLLOUT : 0u) | (b->readers == 0 ? (uint32_t)EPOLLERR : 0u);
}
uint32_t File::poll() { return EPOLLIN | EPOLLOUT; }

static void tcpShutEnd(Tcp *c) { // local end is gone: tell the peer
    if (c->st == Tcp::CONN && c->peer) {
        bool unread = !c->rx.empty();
        if (unread) { c->peer->rst = true; if (!c->peer->soerr) c->peer->soerr = c->peer->rxeof ? EPIPE : ECONNRESET; }
        else if (!c->shutwr) c->peer->rxeof = true;
    }
    if (c->st == Tcp::CONNECTING) for (auto o : K->objs) if (o->kind == K_TCP) { Tcp *l = (Tcp *)o; for (size_t i = 0; i < l->synq.size(); i++) if (l->synq[i] == c) { l->synq.erase(l->synq.begin() + i); break; } }
    if (c->st == Tcp::LISTENING) for (auto s : c->acceptq) { s->closed = true; if (s->peer) { s->peer->rst = true; s->peer->soerr = ECONNRESET; } }
    c->closed = true; c->rx.clear();
}
static void dropObj(Obj *o) {
    if (--o->refs > 0) return;
    for (auto e : K->objs) if (e->kind == K_EPOLL) { auto &v = ((Epoll *)e)->items; for (size_t i = 0; i < v.size();) if (v[i].o == o) v.erase(v.begin() + i); else i++; }
    if (o->kind == K_TCP) tcpShutEnd((Tcp *)o);
    if (o->kind == K_UDP) ((Udp *)o)->closed = true;
    if (o->kind == K_PIPE) { Pipe *p = (Pipe *)o; if (p->wr) p->b->writers--; else p->b->readers--; }
}

static void procExit(Proc *p, int status) {
    flushCpu();
    p->exited = true; p->status = status & 0xff;
    pushEv(E_EXIT, 0, p->status, 0);
    for (auto &f : p->fds) if (f) { Obj *o = f; f = nullptr; dropObj(o); }
    for (auto t : K->threads) if (t->proc == p) t->done = true;
    Thread *n = pick();
    if (!n) endExec(); else switchTo(n);
    abort();
}
static void procKill(Proc *p, int sig) { // default action of a signal, from any context
    p->exited = true; p->status = 128 + sig;
    pushEv(E_EXIT, 0, p->status, 0);
    for (auto &f : p->fds) if (f) { Obj *o = f; f = nullptr; dropObj(o); }
    for (auto t : K->threads) if (t->proc == p) t->done = true;
    if (K->cur && K->cur->proc == p) { Thread *n = pick(); if (!n) endExec(); else switchTo(n); abort(); }
}

static Tcp *findListener(Addr a) {
    std::vector<Tcp *> c;
    for (auto o : K->objs) if (o->kind == K_TCP) { Tcp *t = (Tcp *)o; if (t->st == Tcp::LISTENING && !t->closed && t->local.port == a.port && (t->local.ip == a.ip || t->local.ip == 0)) c.push_back(t); }
    if (c.empty()) return nullptr;
    return c[c.size() > 1 ? K->opt.reuseHint >= 0 ? K->opt.reuseHint % (int)c.size() : chooseFree((int)c.size(), "reuseport") : 0];
}
static void establish(Tcp *l, Tcp *c) {
    Tcp *s = newObj<Tcp>(); s->st = Tcp::CONN; s->local = c->remote; s->remote = c->local; s->peer = c; c->peer = s; c->st = Tcp::CONN;
    s->actor = l->actor; s->nodelay = l->nodelay; s->rxcap = l->actor ? l->rxcap : K->opt.sutRxCap;
    l->acceptq.push_back(s); l->accepts++;
}
static void ephemeral(Addr &a) { if (!a.port) { if (!a.ip) a.ip = LOOP; a.port = K->nextEphemeral++; } }

// returns 0 established, EINPROGRESS pending, ECONNREFUSED
static int tcpConnect(Tcp *c, Addr to) {
    c->remote = to; ephemeral(c->local);
    Tcp *l = findListener(to);
    if (!l) return ECONNREFUSED;
    if (l->manual) { l->synq.push_back(c); c->st = Tcp::CONNECTING; return EINPROGRESS; }
    establish(l, c); return 0;
}

// ---- actor side
// an action ends with actStep(); the actor yields when it starts its next action or wait, so that going to wait is no extra step
void actStep() { if (K->cur) K->cur->pending = true; }
static void settle() { Thread *t = K->cur; if (t && t->env && t->pending) { t->pending = false; reschedule(); } }
Tcp *actListen(uint16_t port, bool manual) { Tcp *t = newObj<Tcp>(); t->actor = true; t->st = Tcp::LISTENING; t->local = {LOOP, port}; t->manual = manual; t->refs = 1; return t; }
Tcp *actConnect(uint16_t port, size_t cap) { settle();
    Tcp *c = newObj<Tcp>(); c->actor = true; c->refs = 1; c->rxcap = cap;
    int r = tcpConnect(c, {LOOP, port}); pushEv(E_ACT, c->id, 1, r, "connect");
    if (r) { c->closed = true; return nullptr; }
    return c;
}
Tcp *actAccept(Tcp *l) { settle(); if (l->acceptq.empty()) return nullptr; Tcp *s = l->acceptq.front(); l->acceptq.pop_front(); s->refs = 1; s->accepted = true; pushEv(E_ACT, s->id, 2, 0, "accept"); return s; }
void actEstablish(Tcp *l) { settle(); if (l->synq.empty()) return; Tcp *c = l->synq.front(); l->synq.pop_front(); establish(l, c); pushEv(E_ACT, l->id, 3, 0, "establish"); }
void actRefuse(Tcp *l) { settle(); if (l->synq.empty()) return; Tcp *c = l->synq.front(); l->synq.pop_front(); c->st = Tcp::FAILED; c->soerr = ECONNREFUSED; pushEv(E_ACT, l->id, 4, 0, "refuse"); }
void actUnlisten(Tcp *l) { settle(); tcpShutEnd(l); l->st = Tcp::FAILED; for (auto c : l->synq) { c->st = Tcp::FAILED; c->soerr = ECONNREFUSED; } l->synq.clear(); }
static bool tcpPush(Tcp *c, const char *d, size_t n) { // n <= space
    Tcp *p = c->peer;
    if (p->closed) { c->rst = true; c->soerr = c->rxeof ? EPIPE : ECONNRESET; return true; }
    p->rx.append(d, n); p->rxtotal += n; return true;
}
void actSend(Tcp *c, const std::string &b) { settle(); pushEv(E_ACT, c->id, 5, (int64_t)b.size(), b); if (c->st != Tcp::CONN || c->rst) return; tcpPush(c, b.data(), b.size()); }
std::string actRecv(Tcp *c, size_t max) { settle(); size_t n = c->rx.size() < max ? c->rx.size() : max; std::string s = c->rx.substr(0, n); c->rx.erase(0, n); if (n) pushEv(E_ACT, c->id, 6, (int64_t)n); return s; }
void actClose(Tcp *c, bool reset) { settle();
    pushEv(E_ACT, c->id, 7, reset); if (c->closed) return;
    if (reset && c->peer && c->st == Tcp::CONN) { c->peer->rst = true; c->peer->soerr = c->peer->rxeof ? EPIPE : ECONNRESET; c->closed = true; c->rx.clear(); return; }
    tcpShutEnd(c);
}
Udp *actUdp(uint16_t port) { Udp *u = newObj<Udp>(); u->actor = true; u->refs = 1; u->local = {LOOP, port}; u->bound = true; return u; }
static bool udpDeliver(Addr from, Addr to, const char *d, size_t n) {
    std::vector<Udp *> c;
    for (auto o : K->objs) if (o->kind == K_UDP) { Udp *u = (Udp *)o; if (!u->closed && u->bound && u->local.port == to.port && (u->local.ip == to.ip || u->local.ip == 0) && (!u->connected || u->remote == from)) c.push_back(u); }
    if (c.empty()) return false;
    Udp *u = c[c.size() > 1 ? K->opt.reuseHint >= 0 ? K->opt.reuseHint % (int)c.size() : chooseFree((int)c.size(), "reuseport") : 0];
    u->rx.push_back({from, std::string(d, n)}); u->arrived++; return true;
}
void actUdpSend(Udp *u, uint16_t port, const std::string &b) { settle(); pushEv(E_ACT, u->id, 8, (int64_t)b.size(), b); udpDeliver(u->local, {LOOP, port}, b.data(), b.size()); }
void actSleepUntil(ns_t t) { settle(); if (K->now < t) blockOn("sleep", t, nullptr, nullptr); }
bool programsIdle() { for (auto t : K->threads) if (!t->env && runnable(t)) return false; return true; }
bool actorsDone(Thread *except) { for (auto t : K->threads) if (t->env && t != except && !t->done && !t->low && !t->daemon) return false; return true; }
void raiseSignal(Proc *p, int sig) {
    settle();
    pushEv(E_ACT, p->id, 9, sig);
    if (p->exited) return;
    bool held = false;
    for (auto f : p->fds) if (f && f->kind == K_SIGNAL && (((SigFd *)f)->mask >> (sig - 1) & 1)) held = true;
    if (held || (p->sigmask >> (sig - 1) & 1)) { p->sigpending |= 1ull << (sig - 1); return; }
    if (p->sigign >> (sig - 1) & 1) return;
    procKill(p, sig);
}

Proc *spawnProgram(Module *m, const std::string &name, const std::vector<std::string> &args) {
    Proc *p = new Proc; p->id = (int)K->procs.size(); p->mod = m; p->name = name; p->args = args; K->procs.push_back(p);
    for (auto &a : p->args) p->argv.push_back(&a[0]);
    p->argv.push_back(nullptr);
    p->fds.resize(3, nullptr);
    Thread *t = new Thread; t->id = (int)K->threads.size(); t->proc = p; t->isMain = true; t->name = name + ".main"; t->tls = m->tlsInit; K->threads.push_back(t);
    return p;
}
Thread *spawnActor(const std::string &name, std::function<void()> body, bool low) {
    Thread *t = new Thread; t->id = (int)K->threads.size(); t->env = true; t->name = name; t->body = std::move(body); t->low = low; K->threads.push_back(t); return t;
}

// ------------------------------------------------------------------ execution of one schedule
static struct sigaction oldsa;
static uint64_t wdCalls; static int wdTicks, wdSteps;
int g_hangTicks = 8;
static void onFault(int sig, siginfo_t *si, void *) {
    if (!K || !K->cur) { const char m[] = "fault in the harness\n"; (void)!::write(2, m, sizeof m - 1); signal(sig, SIG_DFL); raise(sig); _exit(3); }
    if (K->cur->env) { const char m[] = "fault in an actor\n"; (void)!::write(2, m, sizeof m - 1); signal(sig, SIG_DFL); raise(sig); _exit(3); }
    K->failed = true;
    const char *what = sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "invalid memory access";
    char *a = (char *)si->si_addr; const char *where = "";
    if (sig == SIGSEGV) { if (heap.owns(a)) where = " (heap: freed or past the end of a block)"; else if ((uintptr_t)a < 65536) where = " (null pointer)"; else { Thread *t = K->cur; if (a >= t->stack - 4096 && a < t->stack) where = " (stack overflow)"; } }
    K->failure = std::string("program crashed: ") + what + where;
    K->crashed = true;
    K->ended = true; K->cur = nullptr;
    void *junk; sim_ctx_switch(&junk, mainSp);
}
static void onTick(int, siginfo_t *, void *) {
    if (!K || !K->cur || K->cur->env || K->noWatch) { wdTicks = 0; return; }
    if (g_calls != wdCalls || K->steps != wdSteps) { wdCalls = g_calls; wdSteps = K->steps; wdTicks = 0; return; }
    if (++wdTicks < g_hangTicks) return;
    wdTicks = 0;
    K->failed = true; K->failure = "program loops forever without making any system call"; K->crashed = true;
    K->ended = true; K->cur = nullptr;
    void *junk; sim_ctx_switch(&junk, mainSp);
}
void initSim() {
    heap.init();
    stack_t ss; ss.ss_sp = mmap(nullptr, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 256 * 1024; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onFault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, &oldsa);
    sa.sa_sigaction = onTick; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
    signal(SIGPIPE, SIG_IGN);
    (void)fillsp;
}

static void freeExec(Kernel *k) {
    // unwind actors (their locals own memory); program stacks are simply abandoned
    K = k;
    for (auto t : k->threads) if (t->env && t->started && !t->done) { t->killed = true; K->cur = t; void *sp = t->sp; sim_ctx_switch(&mainSp, sp); K->cur = nullptr; }
    for (auto t : k->threads) { if (t->stack) stackPool.push_back(t->stack); delete t; }
    for (auto p : k->procs) { for (auto f : p->openFiles) fclose(f); delete p; }
    for (auto o : k->objs) delete o;
    for (auto p : k->pipes) delete p;
    for (auto &f : k->fs) delete f.second;
    for (auto m : modules) { for (auto &s : m->segs) memcpy(s.a, s.snap.data(), s.n); if (m->tls) memcpy(m->tls, m->tlsInit.data(), m->tlsSize); m->tlsOwner = nullptr; }
    heap.reset();
    delete k; K = nullptr;
}

void runOne(const Scenario &sc, ExecResult &res) {
    Kernel *k = new Kernel; K = k;
    sc.setup(*k);
    Thread *t = pick();
    if (t) { K->cur = nullptr; switchTo(t); }
    K->cur = nullptr;
    if (!k->failed && !heap.allCanaries()) { k->failed = true; k->failure = "heap block overrun"; }
    if (!k->failed && !sc.expectStall) {
        std::string w;
        for (auto t : k->threads) if (t->env && !t->done && !t->daemon) w += strf("%s%s waits for %s", w.empty() ? "" : "; ", t->name.c_str(), t->why);
        if (!w.empty()) { k->failed = true; k->failure = "no progress: " + w; for (auto &f : k->faulted) k->failure += " [" + f + "]"; }
    }
    if (!k->failed && sc.check) sc.check(*k);
    res.failed = k->failed; res.failure = k->failure; res.steps = k->steps + k->unitSteps; res.hash = k->thash;
    if (res.wantTrace) res.trace = dumpTrace(*k);
    freeExec(k);
}

std::string dumpTrace(Kernel &k) {
    static const char *nm[] = {"cpu", "write", "read", "fsync", "send", "recv", "accept", "connect", "close", "out", "exit", "act", "seek", "udpsend", "pin", "sleep", "trunc", "sock", "fault"};
    std::string o;
    for (auto &e : k.trace) {
        o += strf("%10.3fus p%d t%d(%s) %s obj=%d a=%lld b=%lld", e.t / 1000.0, e.proc, e.thr, e.thr >= 0 ? k.threads[e.thr]->name.c_str() : "-", nm[e.k], e.obj, (long long)e.a, (long long)e.b);
        if (!e.s.empty()) { if (e.k == E_OUT || e.k == E_ACT) { bool pr = true; for (unsigned char c : e.s) if (c < 9 || c > 126) pr = false; if (pr) o += " \"" + e.s + "\""; else { o += " ["; for (size_t i = 0; i < e.s.size() && i < 48; i++) o += strf("%02x", (unsigned char)e.s[i]); o += "]"; } } else { o += " ["; for (size_t i = 0; i < e.s.size() && i < 48; i++) o += strf("%02x", (unsigned char)e.s[i]); o += "]"; } }
        o += "\n";
    }
    for (auto p : k.procs) o += strf("-- %s: %s status=%d\nstdout:\n%s\nstderr:\n%s\n", p->name.c_str(), p->exited ? "exited" : "running", p->status, p->out.c_str(), p->err.c_str());
    for (auto t : k.threads) if (!t->done) o += strf("-- thread %s blocked: %s\n", t->name.c_str(), t->why);
    return o;
}

// ------------------------------------------------------------------ simulated calls
#define SIM(ret, name, args) extern "C" __attribute__((visibility("default"))) ret sim_##name args
#define FAIL(e) do { errno = (e); return -1; } while (0)

static Addr toAddr(const struct sockaddr *sa) { auto s = (const struct sockaddr_in *)sa; return {ntohl(s->sin_addr.s_addr), ntohs(s->sin_port)}; }
static void fromAddr(Addr a, struct sockaddr *sa, socklen_t *len) {
    if (!sa || !len) return;
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(a.ip); s.sin_port = htons(a.port);
    memcpy(sa, &s, *len < sizeof s ? *len : sizeof s); *len = sizeof s;
}

// ---- calls that fail although nothing is wrong with them: the error, or 0
static int fault(const char *call, std::initializer_list<int> errs) {
    if (K->opt.faults.empty() || !K->cur || K->cur->env || budgetLeft() <= 0 || std::find(K->opt.faults.begin(), K->opt.faults.end(), call) == K->opt.faults.end()) return 0;
    int c = chooseDev((int)errs.size() + 1, call); if (!c) return 0;
    int e = *(errs.begin() + c - 1); K->faulted.push_back(strf("%s: %s", call, strerrorname_np(e))); pushEv(E_FAULT, 0, e, 0, call); return e;
}
#define FAULT(call, ...) do { if (int e_ = fault(call, {__VA_ARGS__})) FAIL(e_); } while (0)

// ---- memory
SIM(void *, malloc, (size_t n)) { g_calls++; if (n > (1ull << 40)) { errno = ENOMEM; return nullptr; } if (n >= 1024 && fault("malloc", {ENOMEM})) { errno = ENOMEM; return nullptr; } return heap.alloc(n, 16, false); }
SIM(void *, calloc, (size_t a, size_t b)) { g_calls++; size_t n; if (__builtin_mul_overflow(a, b, &n) || n > (1ull << 40)) { errno = ENOMEM; return nullptr; } if (n >= 1024 && fault("malloc", {ENOMEM})) { errno = ENOMEM; return nullptr; } return heap.alloc(n, 16, true); }
SIM(void, free, (void *p)) { g_calls++; const char *e = heap.release(p); if (e) violate("memory error: %s", e); }
SIM(void *, realloc, (void *p, size_t n)) {
    g_calls++; if (!p) return sim_malloc(n);
    size_t o = heap.sizeOf(p); if (o == SIZE_MAX) { violate("memory error: realloc of an invalid pointer"); return nullptr; }
    if (!n) { sim_free(p); return nullptr; }
    void *q = sim_malloc(n); if (!q) return q; memcpy(q, p, o < n ? o : n); sim_free(p); return q;
}
SIM(void *, reallocarray, (void *p, size_t a, size_t b)) { return sim_realloc(p, a * b); }
SIM(int, posix_memalign, (void **o, size_t al, size_t n)) { g_calls++; if (n >= 1024 && fault("malloc", {ENOMEM})) return ENOMEM; *o = heap.alloc(n, al, false); return 0; }
SIM(void *, aligned_alloc, (size_t al, size_t n)) { g_calls++; if (n >= 1024 && fault("malloc", {ENOMEM})) { errno = ENOMEM; return nullptr; } return heap.alloc(n, al, false); }
SIM(void *, memalign, (size_t al, size_t n)) { g_calls++; return heap.alloc(n, al, false); }
SIM(char *, strdup, (const char *s)) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (!p) return p; memcpy(p, s, n); return p; }
SIM(char *, __strdup, (const char *s)) { return sim_strdup(s); }
SIM(char *, strndup, (const char *s, size_t m)) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (!p) return p; memcpy(p, s, n); p[n] = 0; return p; }

// ---- output
static void outAppend(FILE *f, const char *d, size_t n) {
    g_calls++; Proc *p = curProc();
    if (f == stdout) { p->out.append(d, n); pushEv(E_OUT, 1, (int64_t)n, 0, std::string(d, n)); }
    else if (f == stderr) p->err.append(d, n);
    else fwrite(d, 1, n, f);
}
static int voutf(FILE *f, const char *fmt, va_list ap) {
    char b[4096]; va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    if (n >= (int)sizeof b) { std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, fmt, ap2); outAppend(f, s.data(), n); }
    else if (n > 0) outAppend(f, b, n);
    va_end(ap2); return n;
}
SIM(int, printf, (const char *fmt, ...)) { va_list ap; va_start(ap, fmt); int n = voutf(stdout, fmt, ap); va_end(ap); return n; }
SIM(int, fprintf, (FILE * f, const char *fmt, ...)) { va_list ap; va_start(ap, fmt); int n = voutf(f, fmt, ap); va_end(ap); return n; }
SIM(int, vprintf, (const char *fmt, va_list ap)) { return voutf(stdout, fmt, ap); }
SIM(int, vfprintf, (FILE * f, const char *fmt, va_list ap)) { return voutf(f, fmt, ap); }
SIM(int, dprintf, (int fd, const char *fmt, ...)) { va_list ap; va_start(ap, fmt); int n = voutf(fd == 2 ? stderr : stdout, fmt, ap); va_end(ap); return n; }
SIM(int, puts, (const char *s)) { std::string x(s); x += "\n"; outAppend(stdout, x.data(), x.size()); return 1; }
SIM(int, putchar, (int c)) { char b = c; outAppend(stdout, &b, 1); return c; }
SIM(int, fputc, (int c, FILE *f)) { char b = c; outAppend(f, &b, 1); return c; }
SIM(int, putc, (int c, FILE *f)) { char b = c; outAppend(f, &b, 1); return c; }
SIM(int, fputs, (const char *s, FILE *f)) { outAppend(f, s, strlen(s)); return 1; }
SIM(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f)) { outAppend(f, (const char *)p, a * b); return b; }
SIM(int, fflush, (FILE *)) { return 0; }
SIM(int, setvbuf, (FILE *, char *, int, size_t)) { return 0; }
SIM(void, setbuf, (FILE *, char *)) { }
SIM(void, setlinebuf, (FILE *)) { }
SIM(void, perror, (const char *s)) { int e = errno; std::string x = std::string(s ? s : "") + ": " + strerror(e) + "\n"; outAppend(stderr, x.data(), x.size()); }
static void *rawAlloc(size_t n) { return heap.alloc(n, 16, false); } // library-internal
SIM(FILE *, fopen, (const char *path, const char *mode)) {
    g_calls++; if (int e = fault("open", {EACCES})) { errno = e; return nullptr; } Proc *p = curProc(); auto it = p->files.find(path);
    if (it == p->files.end() || mode[0] != 'r') { errno = ENOENT; return nullptr; }
    static char nl = 0; (void)nl;
    FILE *f;
    if (it->second.empty()) f = ::fopen("/dev/null", "r"); else f = fmemopen((void *)it->second.data(), it->second.size(), "r");
    if (f) p->openFiles.push_back(f);
    return f;
}
SIM(FILE *, fopen64, (const char *path, const char *mode)) { return sim_fopen(path, mode); }
SIM(int, fclose, (FILE * f)) { Proc *p = curProc(); for (size_t i = 0; i < p->openFiles.size(); i++) if (p->openFiles[i] == f) { p->openFiles.erase(p->openFiles.begin() + i); return fclose(f); } violate("fclose() of a stream that is not open"); return -1; }
SIM(ssize_t, getline, (char **lp, size_t *np, FILE *f)) {
    char *b = nullptr; size_t n = 0; ssize_t r = getline(&b, &n, f);
    if (r >= 0) { if (!*lp || *np < (size_t)r + 1) { if (*lp) sim_free(*lp); *lp = (char *)rawAlloc(r + 128); *np = r + 128; } memcpy(*lp, b, r + 1); }
    free(b); return r;
}

SIM(ssize_t, getdelim, (char **lp, size_t *np, int d, FILE *f)) {
    char *b = nullptr; size_t n = 0; ssize_t r = getdelim(&b, &n, d, f);
    if (r >= 0) { if (!*lp || *np < (size_t)r + 1) { if (*lp) sim_free(*lp); *lp = (char *)rawAlloc(r + 128); *np = r + 128; } memcpy(*lp, b, r + 1); }
    free(b); return r;
}
SIM(int, vasprintf, (char **o, const char *fmt, va_list ap)) { char *b = nullptr; int r = vasprintf(&b, fmt, ap); if (r < 0) return r; *o = (char *)rawAlloc(r + 1); memcpy(*o, b, r + 1); free(b); return r; }
SIM(int, asprintf, (char **o, const char *fmt, ...)) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(o, fmt, ap); va_end(ap); return r; }

// ---- process
SIM(void, exit, (int st)) { g_calls++; procExit(curProc(), st); }
SIM(void, _exit, (int st)) { g_calls++; procExit(curProc(), st); }
SIM(void, quick_exit, (int st)) { g_calls++; procExit(curProc(), st); }
SIM(void, abort, ()) { violate("program aborted"); }
SIM(int, atexit, (void (*)(void))) { return 0; }
SIM(void, __assert_fail, (const char *e, const char *f, unsigned l, const char *)) { const char *b = strrchr(f, '/'); (void)l; violate("assertion failed: %s (%s)", e, b ? b + 1 : f); }
SIM(void, __stack_chk_fail, ()) { violate("memory error: stack buffer overrun"); }
SIM(char *, getenv, (const char *n)) { static char home[] = "/simhome"; if (!strcmp(n, "HOME")) return home; return nullptr; }
SIM(long, sysconf, (int n)) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return K->opt.ncpu; return sysconf(n); }
SIM(int, get_nprocs, ()) { return K->opt.ncpu; }
SIM(int, prctl, (int op, unsigned long a, ...)) { g_calls++; if (op == PR_GET_NAME) { memset((void *)a, 0, 16); strcpy((char *)a, "prog"); } return 0; }
SIM(int, pthread_setname_np, (pthread_t, const char *)) { return 0; }
SIM(int, pthread_getname_np, (pthread_t, char *b, size_t n)) { snprintf(b, n, "prog"); return 0; }
SIM(int, getpid, ()) { return 100 + curProc()->id; }
SIM(int, gettid, ()) { return 1000 + K->cur->id; }
static Thread *schedThread(int id) { if (!id) return K->cur; for (auto t : K->threads) if (!t->env && (t->id + 1000 == id || (t->isMain && t->proc && t->proc->id + 100 == id))) return t; return nullptr; }
SIM(long, syscall, (long nr, long a, long b, long c, ...)) {
    g_calls++; if (nr == SYS_gettid) return 1000 + K->cur->id; if (nr == SYS_getpid) return 100;
#ifdef SYS_sched_setattr
    if (nr == SYS_sched_setattr) {
        const uint32_t *at = (const uint32_t *)b; pushEv(E_PIN, 2, at[1], (int64_t)at[4], std::string((const char *)b, at[0] < 48 ? at[0] : 48)); if (K->opt.schedFail) FAIL(EPERM);
        Thread *t = schedThread((int)a); if (!t) FAIL(ESRCH);
        Sched s; const uint64_t *tm = (const uint64_t *)b + 3; s.policy = at[1]; if (s.policy == SCHED_OTHER || s.policy == SCHED_BATCH) s.nice = (int)at[4]; if (s.policy == SCHED_FIFO || s.policy == SCHED_RR) s.prio = at[5]; if (s.policy == 6) s.runtime = tm[0], s.deadline = tm[1], s.period = tm[2] ? tm[2] : tm[1];
        t->sched = s; return 0;
    }
#endif
    (void)a; (void)c; errno = ENOSYS; return -1;
}
static int setSched(Thread *t, int pol, int prio) { pushEv(E_PIN, 3, pol, prio); if (K->opt.schedFail) return EPERM; if (!t) return ESRCH; int nice = t->sched.nice; t->sched = Sched(); t->sched.policy = pol; t->sched.prio = prio; if (pol == SCHED_OTHER) t->sched.nice = nice; return 0; }
SIM(int, sched_setscheduler, (pid_t p, int pol, const struct sched_param *sp)) { int e = setSched(schedThread(p), pol, sp ? sp->sched_priority : 0); if (e) FAIL(e); return 0; }
SIM(int, sched_getscheduler, (pid_t p)) { Thread *t = schedThread(p); if (!t) FAIL(ESRCH); return t->sched.policy; }
SIM(int, sched_getparam, (pid_t p, struct sched_param *sp)) { Thread *t = schedThread(p); if (!t) FAIL(ESRCH); sp->sched_priority = t->sched.prio; return 0; }
SIM(int, pthread_getschedparam, (pthread_t p, int *pol, struct sched_param *sp)) { Thread *t = schedThread((int)p - 1 + 1000); if (!t) return ESRCH; *pol = t->sched.policy; sp->sched_priority = t->sched.prio; return 0; }
SIM(int, pthread_setschedparam, (pthread_t p, int pol, const struct sched_param *sp)) { return setSched(schedThread((int)p - 1 + 1000), pol, sp ? sp->sched_priority : 0); }
SIM(int, setpriority, (int, id_t who, int v)) { if (K->opt.schedFail) FAIL(EPERM); Thread *t = schedThread((int)who); if (!t) FAIL(ESRCH); t->sched.nice = v; return 0; }
SIM(int, nice, (int v)) { if (K->opt.schedFail) FAIL(EPERM); return K->cur->sched.nice += v; }
SIM(int, sched_getaffinity, (pid_t, size_t n, cpu_set_t *s)) { memset(s, 0, n); for (int i = 0; i < 64; i++) if (K->opt.cpumask >> i & 1) CPU_SET(i, s); return 0; }
static int pin(int thr, size_t n, const cpu_set_t *s) { uint64_t m = 0; for (size_t i = 0; i < 64 && i < n * 8; i++) if (CPU_ISSET_S(i, n, s)) m |= 1ull << i; pushEv(E_PIN, 1, (int64_t)m, thr); return 0; }
SIM(int, sched_setaffinity, (pid_t, size_t n, const cpu_set_t *s)) { return pin(K->cur->id, n, s); }
SIM(int, pthread_setaffinity_np, (pthread_t t, size_t n, const cpu_set_t *s)) { return pin((int)t - 1, n, s); }
SIM(int, pthread_getaffinity_np, (pthread_t, size_t n, cpu_set_t *s)) { return sim_sched_getaffinity(0, n, s); }
SIM(int, sched_yield, ()) { point(); return 0; }

// ---- argp: the real parser, but errors end the simulated process instead of this one
SIM(error_t, argp_parse, (const struct argp *a, int argc, char **argv, unsigned fl, int *ix, void *in)) {
    g_calls++;
    extern int optind; (void)optind;
    error_t r = argp_parse(a, argc, argv, fl | ARGP_NO_EXIT | ARGP_NO_ERRS, ix, in);
    if (r && !(fl & ARGP_NO_EXIT)) { outAppend(stderr, "argp error\n", 11); procExit(curProc(), r == EINVAL ? 64 : 64); }
    return r;
}
SIM(void, argp_failure, (const struct argp_state *, int st, int, const char *fmt, ...)) {
    va_list ap; va_start(ap, fmt); if (fmt) voutf(stderr, fmt, ap); va_end(ap);
    if (st) procExit(curProc(), st);
}
SIM(void, argp_error, (const struct argp_state *, const char *fmt, ...)) { va_list ap; va_start(ap, fmt); voutf(stderr, fmt, ap); va_end(ap); procExit(curProc(), 64); }
SIM(void, argp_state_help, (const struct argp_state *, FILE *, unsigned fl)) {
    outAppend(stdout, "usage\n", 6);
    if (fl & ARGP_HELP_EXIT_ERR) procExit(curProc(), 64);
    if (fl & ARGP_HELP_EXIT_OK) procExit(curProc(), 0);
}
SIM(void, argp_usage, (const struct argp_state *)) { procExit(curProc(), 64); }

// ---- clocks
static int consecutiveClock = 0; static uint64_t lastClockCall = 0;
static ns_t readClock(int id) {
    Thread *t = K->cur;
    if (g_calls == lastClockCall) consecutiveClock++; else consecutiveClock = 0;
    g_calls++; lastClockCall = g_calls;
    if (id == CLOCK_THREAD_CPUTIME_ID || id == CLOCK_PROCESS_CPUTIME_ID) {
        if (K->opt.cpuPoints) reschedule();
        t->cpu += K->opt.cputick; t->cpuTotal += K->opt.cputick; K->now += K->opt.cputick;
        if (id == CLOCK_THREAD_CPUTIME_ID) return t->cpuTotal;
        ns_t sum = 0; for (auto u : K->threads) if (u->proc == t->proc) sum += u->cpuTotal; return sum;
    }
    ns_t tick = K->opt.clocktick; if (!tick && consecutiveClock > 50) tick = US;
    K->now += tick;
    if (consecutiveClock > 2000000) violate("program spins on the clock forever");
    return (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE) + K->now;
}
SIM(int, clock_gettime, (clockid_t id, struct timespec *ts)) { ns_t v = readClock(id); ts->tv_sec = v / SEC; ts->tv_nsec = v % SEC; return 0; }
SIM(clock_t, clock, ()) { return (clock_t)(readClock(CLOCK_PROCESS_CPUTIME_ID) / 1000); }
SIM(int, getrusage, (int who, struct rusage *u)) { memset(u, 0, sizeof *u); ns_t v = readClock(who == RUSAGE_SELF ? CLOCK_PROCESS_CPUTIME_ID : CLOCK_THREAD_CPUTIME_ID); u->ru_utime.tv_sec = v / SEC; u->ru_utime.tv_usec = v % SEC / 1000; return 0; }
SIM(int, pthread_getcpuclockid, (pthread_t h, clockid_t *c)) { if ((size_t)h - 1 != (size_t)K->cur->id) return ESRCH; *c = CLOCK_THREAD_CPUTIME_ID; return 0; }
SIM(int, clock_getres, (clockid_t, struct timespec *ts)) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
SIM(int, gettimeofday, (struct timeval * tv, void *)) { ns_t v = readClock(CLOCK_REALTIME); tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / 1000; return 0; }
SIM(time_t, time, (time_t * o)) { time_t v = (time_t)((REAL_BASE + K->now) / SEC); g_calls++; if (o) *o = v; return v; }
static void sleepUntil(ns_t t) {
    flushCpu(); g_calls++;
    pushEv(E_SLEEP, 0, t - K->now, 0);
    if (t <= K->now) { point(); return; }
    blockOn("sleep", t, nullptr, nullptr);
}
SIM(int, clock_nanosleep, (clockid_t id, int fl, const struct timespec *rq, struct timespec *)) {
    if (rq->tv_nsec < 0 || rq->tv_nsec >= SEC || rq->tv_sec < 0) return EINVAL;
    ns_t v = rq->tv_sec * SEC + rq->tv_nsec;
    if (fl & TIMER_ABSTIME) v -= (id == CLOCK_REALTIME ? REAL_BASE : MONO_BASE); else v += K->now;
    sleepUntil(v); return 0;
}
SIM(int, nanosleep, (const struct timespec *rq, struct timespec *)) { if (rq->tv_nsec < 0 || rq->tv_nsec >= SEC || rq->tv_sec < 0) FAIL(EINVAL); sleepUntil(K->now + rq->tv_sec * SEC + rq->tv_nsec); return 0; }
SIM(int, usleep, (useconds_t u)) { sleepUntil(K->now + (ns_t)u * US); return 0; }
SIM(unsigned, sleep, (unsigned s)) { sleepUntil(K->now + (ns_t)s * SEC); return 0; }

// ---- random numbers
SIM(int, drand48_r, (struct drand48_data * b, double *r)) { g_calls++; if (K->draw) { *r = K->draw(); return 0; } return drand48_r(b, r); }
SIM(int, erand48_r, (unsigned short x[3], struct drand48_data *b, double *r)) { g_calls++; if (K->draw) { *r = K->draw(); return 0; } return erand48_r(x, b, r); }
SIM(int, srand48_r, (long s, struct drand48_data *b)) { g_calls++; return srand48_r(s, b); }
static uint64_t lcg = 1;
SIM(double, drand48, ()) { g_calls++; if (K->draw) return K->draw(); lcg = lcg * 6364136223846793005ull + 1; return (lcg >> 11) / 9007199254740992.0; }
SIM(void, srand48, (long)) { }
SIM(int, rand, ()) { g_calls++; if (K->draw) return (int)(K->draw() * RAND_MAX); return 42; }
SIM(int, rand_r, (unsigned *)) { g_calls++; if (K->draw) return (int)(K->draw() * RAND_MAX); return 42; }
SIM(long, random, ()) { return sim_rand(); }
SIM(void, srand, (unsigned)) { }
SIM(void, srandom, (unsigned)) { }

// ---- signals
static uint64_t setBits(const sigset_t *s) { uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ull << (i - 1); return m; }
SIM(int, pthread_sigmask, (int how, const sigset_t *s, sigset_t *old)) {
    g_calls++; Proc *p = curProc(); if (old) { sigemptyset(old); for (int i = 1; i < 64; i++) if (p->sigmask >> (i - 1) & 1) sigaddset(old, i); }
    if (s) { uint64_t m = setBits(s); if (how == SIG_BLOCK) p->sigmask |= m; else if (how == SIG_UNBLOCK) p->sigmask &= ~m; else p->sigmask = m; }
    return 0;
}
SIM(int, sigprocmask, (int how, const sigset_t *s, sigset_t *old)) { return sim_pthread_sigmask(how, s, old); }
SIM(int, signalfd, (int fd, const sigset_t *s, int fl)) { FAULT("signalfd", EMFILE); g_calls++; if (fd >= 0) { SigFd *o = getFdK<SigFd>(fd, K_SIGNAL, EINVAL); if (!o) return -1; o->mask = setBits(s); return fd; } SigFd *o = newObj<SigFd>(); o->mask = setBits(s); o->nonblock = fl & SFD_NONBLOCK; return addFd(o); }
typedef void (*sighandler)(int);
SIM(sighandler, signal, (int sig, sighandler h)) { g_calls++; Proc *p = curProc(); if (h == SIG_IGN) p->sigign |= 1ull << (sig - 1); else p->sigign &= ~(1ull << (sig - 1)); return SIG_DFL; }
SIM(int, sigaction, (int sig, const struct sigaction *a, struct sigaction *)) { if (a) sim_signal(sig, a->sa_handler); return 0; }

// ---- descriptors
SIM(int, socket, (int dom, int type, int)) {
    FAULT("socket", EMFILE); g_calls++; (void)dom; int ty = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    Obj *o = ty == SOCK_STREAM ? (Obj *)newObj<Tcp>() : (Obj *)newObj<Udp>();
    if (ty == SOCK_STREAM) ((Tcp *)o)->rxcap = K->opt.sutRxCap;
    o->nonblock = type & SOCK_NONBLOCK; int fd = addFd(o); pushEv(E_SOCK, o->id, ty, 0); return fd;
}
SIM(int, close, (int fd)) {
    point(); Obj *o = getFd(fd); if (!o) return -1;
    pushEv(E_CLOSE, o->id, o->kind, 0);
    curProc()->fds[fd] = nullptr; dropObj(o); return 0;
}
SIM(int, dup, (int fd)) { Obj *o = getFd(fd); if (!o) return -1; return addFd(o); }
SIM(int, dup3, (int fd, int to, int)) {
    Obj *o = getFd(fd); if (!o) return -1; if (fd == to) return to; Proc *p = curProc(); if (to < 0) FAIL(EBADF);
    if (to < (int)p->fds.size() && p->fds[to]) sim_close(to); if (to >= (int)p->fds.size()) p->fds.resize(to + 1); p->fds[to] = o; o->refs++; return to;
}
SIM(int, dup2, (int fd, int to)) { return sim_dup3(fd, to, 0); }
static int do_fcntl(int fd, int cmd, long arg) {
    g_calls++; Obj *o = getFd(fd); if (!o) return -1;
    switch (cmd) { case F_GETFL: return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR; case F_SETFL: o->nonblock = arg & O_NONBLOCK; return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: return addFd(o); default: return 0; }
}
SIM(int, fcntl, (int fd, int cmd, long arg)) { return do_fcntl(fd, cmd, arg); }
SIM(int, fcntl64, (int fd, int cmd, long arg)) { return do_fcntl(fd, cmd, arg); }
SIM(int, ioctl, (int fd, unsigned long req, int *a)) { Obj *o = getFd(fd); if (!o) return -1; if (req == 0x5421) o->nonblock = *a; else if (req == 0x541B) { *a = o->kind == K_TCP ? (int)((Tcp *)o)->rx.size() : 0; } return 0; }
SIM(int, setsockopt, (int fd, int lvl, int opt, const void *v, socklen_t)) {
    g_calls++; Obj *o = getFd(fd); if (!o) return -1; if (o->kind != K_TCP && o->kind != K_UDP) FAIL(ENOTSOCK);
    if (lvl == SOL_SOCKET && opt == SO_REUSEPORT) { if (o->kind == K_TCP) ((Tcp *)o)->reuseport = *(const int *)v; else ((Udp *)o)->reuseport = *(const int *)v; }
    if (lvl == IPPROTO_TCP && o->kind == K_UDP) FAIL(ENOPROTOOPT);
    if (lvl == IPPROTO_TCP && opt == TCP_NODELAY) ((Tcp *)o)->nodelay = *(const int *)v != 0;
    return 0;
}
SIM(int, getsockopt, (int fd, int lvl, int opt, void *v, socklen_t *len)) {
    g_calls++; Obj *o = getFd(fd); if (!o) return -1; if (o->kind != K_TCP && o->kind != K_UDP) FAIL(ENOTSOCK);
    int r = 0;
    if (lvl == SOL_SOCKET && opt == SO_ERROR) { int &e = o->kind == K_TCP ? ((Tcp *)o)->soerr : ((Udp *)o)->soerr; r = e; e = 0; }
    else if (lvl == SOL_SOCKET && opt == SO_TYPE) r = o->kind == K_TCP ? SOCK_STREAM : SOCK_DGRAM;
    else if (lvl == IPPROTO_TCP && opt == TCP_NODELAY && o->kind == K_TCP) r = ((Tcp *)o)->nodelay;
    if (*len >= sizeof(int)) { *(int *)v = r; *len = sizeof(int); } return 0;
}
SIM(int, bind, (int fd, const struct sockaddr *sa, socklen_t)) {
    FAULT("bind", EADDRINUSE);
    g_calls++; Obj *o = getFd(fd); if (!o) return -1; Addr a = toAddr(sa);
    for (auto x : K->objs) {
        if (x == o || x->kind != o->kind || !x->refs) continue;
        if (o->kind == K_TCP) { Tcp *t = (Tcp *)x; if (t->st == Tcp::LISTENING && !t->closed && t->local.port == a.port && a.port && !(t->reuseport && ((Tcp *)o)->reuseport)) FAIL(EADDRINUSE); }
        if (o->kind == K_UDP) { Udp *t = (Udp *)x; if (t->bound && !t->closed && t->local.port == a.port && a.port && !(t->reuseport && ((Udp *)o)->reuseport)) FAIL(EADDRINUSE); }
    }
    if (o->kind == K_TCP) { ((Tcp *)o)->local = a; ((Tcp *)o)->bound = true; } else if (o->kind == K_UDP) { Udp *u = (Udp *)o; u->local = a; if (!a.port) u->local.port = K->nextEphemeral++; u->bound = true; } else FAIL(ENOTSOCK);
    return 0;
}
SIM(int, listen, (int fd, int bl)) { point(); Tcp *t = getFdK<Tcp>(fd, K_TCP, ENOTSOCK); if (!t) return -1; FAULT("listen", EADDRINUSE); ephemeral(t->local); t->st = Tcp::LISTENING; t->backlog = bl; return 0; }
static int do_accept(int fd, struct sockaddr *sa, socklen_t *len, int fl) {
    point(); Tcp *t = getFdK<Tcp>(fd, K_TCP, ENOTSOCK); if (!t) return -1;
    if (t->st != Tcp::LISTENING) FAIL(EINVAL);
    while (t->acceptq.empty()) { if (t->nonblock) FAIL(EAGAIN); auto f = [t] { return !t->acceptq.empty(); }; waitFor("accept()", -1, f); }
    FAULT("accept", EMFILE);
    Tcp *s = t->acceptq.front(); t->acceptq.pop_front(); s->nonblock = fl & SOCK_NONBLOCK; s->accepted = true;
    fromAddr(s->remote, sa, len); int r = addFd(s); pushEv(E_ACCEPT, s->id, r, s->remote.port); return r;
}
SIM(int, accept, (int fd, struct sockaddr *sa, socklen_t *len)) { return do_accept(fd, sa, len, 0); }
SIM(int, accept4, (int fd, struct sockaddr *sa, socklen_t *len, int fl)) { return do_accept(fd, sa, len, fl); }
SIM(int, connect, (int fd, const struct sockaddr *sa, socklen_t)) {
    point(); Obj *o = getFd(fd); if (!o) return -1; Addr a = toAddr(sa);
    if (o->kind == K_UDP) { Udp *u = (Udp *)o; if (!u->bound) { ephemeral(u->local); u->bound = true; } u->connected = true; u->remote = a; return 0; }
    if (o->kind != K_TCP) FAIL(ENOTSOCK);
    Tcp *t = (Tcp *)o;
    if (t->st == Tcp::CONNECTING) FAIL(EALREADY);
    if (t->st == Tcp::CONN) FAIL(EISCONN);
    if (t->st == Tcp::FAILED) { int e = t->soerr; t->soerr = 0; t->st = Tcp::FRESH; if (e) FAIL(e); }
    FAULT("connect", ENETUNREACH, EADDRNOTAVAIL);
    int r = tcpConnect(t, a);
    pushEv(E_CONNECT, t->id, a.port, r);
    if (t->nonblock) {
        if (r == ECONNREFUSED) { t->st = Tcp::FAILED; t->soerr = ECONNREFUSED; }
        FAIL(EINPROGRESS);
    }
    if (r == ECONNREFUSED) { t->st = Tcp::FRESH; FAIL(ECONNREFUSED); }
    if (r == EINPROGRESS) { auto f = [t] { return t->st != Tcp::CONNECTING; }; waitFor("connect()", -1, f); if (t->st == Tcp::FAILED) { int e = t->soerr; t->soerr = 0; t->st = Tcp::FRESH; FAIL(e ? e : ECONNREFUSED); } }
    return 0;
}
SIM(int, shutdown, (int fd, int how)) {
    point(); Obj *o = getFd(fd); if (!o) return -1;
    if (o->kind == K_UDP) { Udp *u = (Udp *)o; if (how != SHUT_WR) u->shut = true; if (!u->connected) FAIL(ENOTCONN); return 0; }
    if (o->kind != K_TCP) FAIL(ENOTSOCK);
    Tcp *t = (Tcp *)o; if (t->st != Tcp::CONN) FAIL(ENOTCONN);
    pushEv(E_CLOSE, t->id, 100 + how, 0);
    if (how != SHUT_RD && !t->shutwr) { t->shutwr = true; if (t->peer && !t->peer->closed) t->peer->rxeof = true; }
    if (how != SHUT_WR) t->shutrd = true;
    return 0;
}
SIM(int, getsockname, (int fd, struct sockaddr *sa, socklen_t *len)) { Obj *o = getFd(fd); if (!o) return -1; fromAddr(o->kind == K_TCP ? ((Tcp *)o)->local : ((Udp *)o)->local, sa, len); return 0; }
SIM(int, getpeername, (int fd, struct sockaddr *sa, socklen_t *len)) { Obj *o = getFd(fd); if (!o) return -1; if (o->kind == K_TCP && ((Tcp *)o)->st != Tcp::CONN) FAIL(ENOTCONN); fromAddr(o->kind == K_TCP ? ((Tcp *)o)->remote : ((Udp *)o)->remote, sa, len); return 0; }

static int pipeSig(int fl) { Proc *p = curProc(); if (!(fl & MSG_NOSIGNAL) && !(p->sigign >> (SIGPIPE - 1) & 1) && !(p->sigmask >> (SIGPIPE - 1) & 1)) procKill(p, SIGPIPE); return EPIPE; }

static ssize_t do_send(int fd, const void *buf, size_t len, int fl, const struct sockaddr *sa) {
    point(); Obj *o = getFd(fd); if (!o) return -1;
    { volatile unsigned char s = 0; const unsigned char *b = (const unsigned char *)buf; for (size_t i = 0; i < len; i += 64) s += b[i]; if (len) s += b[len - 1]; }
    if (o->kind == K_UDP) {
        Udp *u = (Udp *)o;
        if (u->soerr) { int e = u->soerr; u->soerr = 0; FAIL(e); }
        if (!sa && !u->connected) FAIL(EDESTADDRREQ);
        if (len > 65507) FAIL(EMSGSIZE);
        if (!u->bound) { ephemeral(u->local); u->bound = true; }
        Addr to = sa ? toAddr(sa) : u->remote;
        Addr from = u->local; if (!from.ip) from.ip = LOOP;
        pushEv(E_UDPSEND, u->id, to.port, (int64_t)len, std::string((const char *)buf, len < 65536 ? len : 65536));
        if (!udpDeliver(from, to, (const char *)buf, len) && u->connected) u->soerr = ECONNREFUSED;
        if (K->opt.postSend) point();
        return (ssize_t)len;
    }
    if (o->kind != K_TCP) FAIL(ENOTSOCK);
    Tcp *t = (Tcp *)o; size_t done = 0;
    bool nb = t->nonblock || (fl & MSG_DONTWAIT);
    for (;;) {
        if (t->st != Tcp::CONN) { if (t->st == Tcp::CONNECTING) FAIL(nb ? EAGAIN : ENOTCONN); if (t->soerr) { int e = t->soerr; t->soerr = 0; FAIL(e); } FAIL(pipeSig(fl)); }
        if (t->shutwr || t->rst) {
            if (done) return (ssize_t)done;
            int e = t->soerr; t->soerr = 0; if (e && e != EPIPE) FAIL(e);
            FAIL(pipeSig(fl));
        }
        if (len == 0) return 0;
        if (int e = fault("send", {ETIMEDOUT})) { t->rst = true; t->soerr = 0; t->rx.clear(); FAIL(e); }
        size_t sp = t->peer->closed ? len - done : t->space();
        size_t n = len - done < sp ? len - done : sp;
        if (n) {
            pushEv(E_SEND, t->id, (int64_t)n, (int64_t)len, std::string((const char *)buf + done, n < 65536 ? n : 65536));
            t->sentWith |= 1 << t->nodelay; tcpPush(t, (const char *)buf + done, n); done += n;
        }
        if (done == len) { if (K->opt.postSend) point(); return (ssize_t)done; }
        t->blocked++;
        if (nb) { if (done) return (ssize_t)done; pushEv(E_SEND, t->id, -EAGAIN, (int64_t)len); FAIL(EAGAIN); }
        auto f = [t] { return t->space() > 0 || t->rst || t->shutwr || (t->peer && t->peer->closed); };
        waitFor("send() space", -1, f);
    }
}
static void served() { Thread *t = K->cur; if (!t->served) { t->served = true; t->servedWith = t->sched; } }
static ssize_t do_recv(int fd, void *buf, size_t len, int fl, struct sockaddr *sa, socklen_t *sl) {
    point(); Obj *o = getFd(fd); if (!o) return -1;
    if (o->kind == K_UDP) {
        Udp *u = (Udp *)o;
        if (u->soerr) { int e = u->soerr; u->soerr = 0; FAIL(e); }
        while (u->rx.empty()) { if (u->shut) return 0; if (u->nonblock || (fl & MSG_DONTWAIT)) FAIL(EAGAIN); auto f = [u] { return !u->rx.empty() || u->shut || u->soerr; }; waitFor("recv()", -1, f); if (u->soerr) { int e = u->soerr; u->soerr = 0; FAIL(e); } }
        Dgram d = u->rx.front(); if (!(fl & MSG_PEEK)) u->rx.pop_front();
        size_t n = d.data.size() < len ? d.data.size() : len; memcpy(buf, d.data.data(), n); fromAddr(d.from, sa, sl);
        served(); pushEv(E_RECV, u->id, (int64_t)n, d.from.port); return (ssize_t)n;
    }
    if (o->kind != K_TCP) FAIL(ENOTSOCK);
    Tcp *t = (Tcp *)o;
    if (t->st == Tcp::FAILED && t->soerr) { int e = t->soerr; t->soerr = 0; FAIL(e); }
    if (t->st != Tcp::CONN) FAIL(ENOTCONN);
    if (len == 0) return 0;
    size_t got = 0;
    for (;;) {
        while (t->rx.empty()) {
            if (got) return (ssize_t)got;
            if (t->rst) { if (t->soerr) { int e = t->soerr; t->soerr = 0; pushEv(E_RECV, t->id, -e, 0); FAIL(e == EPIPE ? ECONNRESET : e); } pushEv(E_RECV, t->id, 0, 0); return 0; }
            if (t->rxeof || t->shutrd) { pushEv(E_RECV, t->id, 0, 0); return 0; }
            if (t->nonblock || (fl & MSG_DONTWAIT)) FAIL(EAGAIN);
            auto f = [t] { return !t->rx.empty() || t->rxeof || t->rst || t->shutrd; }; waitFor("recv()", -1, f);
        }
        if (int e = fault("recv", {ETIMEDOUT})) { t->rst = true; t->soerr = 0; t->rx.clear(); FAIL(e); }
        size_t n = t->rx.size() < len - got ? t->rx.size() : len - got;
        if (K->opt.shortRecv && n > 1 && budgetLeft() > 0 && chooseDev(2, "shortrecv")) n = 1;
        memcpy((char *)buf + got, t->rx.data(), n);
        if (!(fl & MSG_PEEK)) t->rx.erase(0, n);
        got += n;
        if (!(fl & MSG_WAITALL) || got == len) break;
    }
    fromAddr(t->remote, nullptr, nullptr); (void)sa; (void)sl; // a connected stream socket leaves the address untouched
    served(); pushEv(E_RECV, t->id, (int64_t)got, 0);
    return (ssize_t)got;
}
SIM(ssize_t, send, (int fd, const void *b, size_t n, int fl)) { return do_send(fd, b, n, fl, nullptr); }
SIM(ssize_t, sendto, (int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t)) { return do_send(fd, b, n, fl, sa); }
SIM(ssize_t, recv, (int fd, void *b, size_t n, int fl)) { return do_recv(fd, b, n, fl, nullptr, nullptr); }
SIM(ssize_t, recvfrom, (int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *sl)) { return do_recv(fd, b, n, fl, sa, sl); }
SIM(ssize_t, sendmsg, (int fd, const struct msghdr *m, int fl)) {
    std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return do_send(fd, s.data(), s.size(), fl, (const struct sockaddr *)m->msg_name);
}
SIM(ssize_t, recvmsg, (int fd, struct msghdr *m, int fl)) {
    size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    std::string s(tot, 0); ssize_t r = do_recv(fd, &s[0], tot, fl, (struct sockaddr *)m->msg_name, &m->msg_namelen);
    size_t o = 0; for (size_t i = 0; r > 0 && i < m->msg_iovlen && o < (size_t)r; i++) { size_t n = std::min(m->msg_iov[i].iov_len, (size_t)r - o); memcpy(m->msg_iov[i].iov_base, s.data() + o, n); o += n; }
    return r;
}

// ---- generic read/write
static ssize_t fileIO(File *f, bool wr, void *buf, size_t len, int64_t off, bool useOff) {
    int64_t pos = useOff ? off : f->off; Inode *in = f->ino;
    if ((f->flags & O_ACCMODE) == (wr ? O_RDONLY : O_WRONLY)) FAIL(EBADF);
    if (wr && f->flags & O_APPEND && !useOff) pos = in->size;
    if (f->flags & O_DIRECT) { int b = K->opt.blksize; if (len % b || pos % b || (uintptr_t)buf % b) FAIL(EINVAL); }
    if (wr) FAULT("write", ENOSPC, EIO); else FAULT("read", EIO);
    size_t n = len;
    if (!wr) { int64_t av = in->size - pos; if (av < 0) av = 0; if ((int64_t)n > av) n = av; }
    if (K->opt.shortIO && n > 1 && budgetLeft() > 0) { if (chooseDev(2, wr ? "shortwrite" : "shortread")) n = (f->flags & O_DIRECT) ? (n > (size_t)K->opt.blksize ? (size_t)K->opt.blksize : n) : n / 2; }
    if (wr) { volatile unsigned char s = 0; for (size_t i = 0; i < n; i += 64) s += ((unsigned char *)buf)[i]; if (n) s += ((unsigned char *)buf)[n - 1]; if ((int64_t)(pos + n) > in->size) in->size = pos + n; }
    else memset(buf, 0x5a, n);
    if (!useOff) f->off = pos + n;
    pushEv(wr ? E_WRITE : E_READ, f->id, pos, (int64_t)n);
    return (ssize_t)n;
}
static ssize_t do_write(int fd, const void *buf, size_t len) {
    if (fd == 1 || fd == 2) { outAppend(fd == 2 ? stderr : stdout, (const char *)buf, len); return (ssize_t)len; }
    Obj *o0 = getFd(fd); if (!o0) { point(); return -1; }
    if (o0->kind == K_TCP || o0->kind == K_UDP) return do_send(fd, buf, len, 0, nullptr);
    point(); Obj *o = getFd(fd); if (!o) return -1;
    if (o->kind == K_FILE) return fileIO((File *)o, true, (void *)buf, len, 0, false);
    if (o->kind == K_EVENT) { EventFd *e = (EventFd *)o; uint64_t v; memcpy(&v, buf, 8); e->val += v; return 8; }
    if (o->kind == K_PIPE) {
        Pipe *p = (Pipe *)o; if (!p->wr) FAIL(EBADF);
        for (;;) {
            if (!p->b->readers) FAIL(pipeSig(0));
            if (p->b->data.size() + len <= p->b->cap) break;
            if (p->nonblock) FAIL(EAGAIN);
            PipeBuf *b = p->b; auto f = [b, len] { return b->data.size() + len <= b->cap || !b->readers; }; waitFor("pipe write", -1, f);
        }
        p->b->data.append((const char *)buf, len); return (ssize_t)len;
    }
    FAIL(EINVAL);
}
static ssize_t do_read(int fd, void *buf, size_t len) {
    Obj *o0 = getFd(fd); if (!o0) { point(); return -1; }
    if (o0->kind == K_TCP || o0->kind == K_UDP) return do_recv(fd, buf, len, 0, nullptr, nullptr);
    point(); Obj *o = getFd(fd); if (!o) return -1;
    switch (o->kind) {
    case K_FILE: return fileIO((File *)o, false, buf, len, 0, false);
    case K_PIPE: {
        Pipe *p = (Pipe *)o; if (p->wr) FAIL(EBADF); PipeBuf *b = p->b;
        while (b->data.empty()) { if (!b->writers) return 0; if (p->nonblock) FAIL(EAGAIN); auto f = [b] { return !b->data.empty() || !b->writers; }; waitFor("pipe read", -1, f); }
        size_t n = b->data.size() < len ? b->data.size() : len; memcpy(buf, b->data.data(), n); b->data.erase(0, n); return (ssize_t)n; }
    case K_TIMER: {
        Timer *t = (Timer *)o; if (len < 8) FAIL(EINVAL); t->update();
        while (!t->fired) { if (t->nonblock) FAIL(EAGAIN); auto f = [t] { t->update(); return t->fired > 0; }; waitFor("timer read", -1, f); t->update(); }
        memcpy(buf, &t->fired, 8); t->fired = 0; return 8; }
    case K_SIGNAL: {
        SigFd *s = (SigFd *)o; if (len < sizeof(struct signalfd_siginfo)) FAIL(EINVAL); Proc *p = curProc();
        while (!(p->sigpending & s->mask)) { if (s->nonblock) FAIL(EAGAIN); uint64_t m = s->mask; auto f = [p, m] { return (p->sigpending & m) != 0; }; waitFor("signalfd read", -1, f); }
        int sig = __builtin_ctzll(p->sigpending & s->mask) + 1; p->sigpending &= ~(1ull << (sig - 1));
        struct signalfd_siginfo si; memset(&si, 0, sizeof si); si.ssi_signo = sig; memcpy(buf, &si, sizeof si); return sizeof si; }
    case K_EVENT: { EventFd *e = (EventFd *)o; while (!e->val) { if (e->nonblock) FAIL(EAGAIN); auto f = [e] { return e->val > 0; }; waitFor("eventfd read", -1, f); } uint64_t v = e->sem ? 1 : e->val; e->val -= v; memcpy(buf, &v, 8); return 8; }
    default: FAIL(EINVAL);
    }
}
SIM(ssize_t, write, (int fd, const void *b, size_t n)) { return do_write(fd, b, n); }
SIM(ssize_t, read, (int fd, void *b, size_t n)) { return do_read(fd, b, n); }
static ssize_t pio(int fd, bool wr, void *b, size_t n, off_t off) { point(); File *f = getFdK<File>(fd, K_FILE, ESPIPE); if (!f) return -1; if (off < 0) FAIL(EINVAL); return fileIO(f, wr, b, n, off, true); }
SIM(ssize_t, pread, (int fd, void *b, size_t n, off_t o)) { return pio(fd, false, b, n, o); }
SIM(ssize_t, pwrite, (int fd, const void *b, size_t n, off_t o)) { return pio(fd, true, (void *)b, n, o); }
SIM(ssize_t, pread64, (int fd, void *b, size_t n, off_t o)) { return pio(fd, false, b, n, o); }
SIM(ssize_t, pwrite64, (int fd, const void *b, size_t n, off_t o)) { return pio(fd, true, (void *)b, n, o); }
SIM(ssize_t, writev, (int fd, const struct iovec *v, int c)) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return do_write(fd, s.data(), s.size()); }
SIM(ssize_t, readv, (int fd, const struct iovec *v, int c)) { size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len; std::string s(tot, 0); ssize_t r = do_read(fd, &s[0], tot); size_t o = 0; for (int i = 0; r > 0 && i < c && o < (size_t)r; i++) { size_t n = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, s.data() + o, n); o += n; } return r; }

// ---- files
static int do_open(const char *path, int fl) {
    g_calls++; FAULT("open", EACCES, EMFILE);
    std::string p(path);
    Inode *&in = K->fs[p];
    if (!in) { if (!(fl & O_CREAT)) { K->fs.erase(p); FAIL(ENOENT); } in = new Inode; in->path = p; }
    if (fl & O_TRUNC) in->size = 0;
    File *f = newObj<File>(); f->ino = in; f->flags = fl; pushEv(E_TRUNC, f->id, 0, fl & O_DIRECT ? 1 : 0, p); return addFd(f);
}
SIM(int, open, (const char *p, int fl, int)) { return do_open(p, fl); }
SIM(int, open64, (const char *p, int fl, int)) { return do_open(p, fl); }
SIM(int, creat, (const char *p, int)) { return do_open(p, O_CREAT | O_TRUNC | O_WRONLY); }
SIM(off_t, lseek, (int fd, off_t off, int wh)) {
    point(); Obj *o = getFd(fd); if (!o) return -1; if (o->kind != K_FILE) FAIL(ESPIPE); File *f = (File *)o;
    int64_t n = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->off + off : f->ino->size + off; if (n < 0) FAIL(EINVAL); f->off = n; pushEv(E_SEEK, f->id, n, 0); return n;
}
SIM(off_t, lseek64, (int fd, off_t off, int wh)) { return sim_lseek(fd, off, wh); }
static int do_sync(int fd, int kind) { point(); File *f = getFdK<File>(fd, K_FILE, EINVAL); if (!f) return -1; FAULT("fsync", EIO); pushEv(E_FSYNC, f->id, kind, 0); return 0; }
SIM(int, fsync, (int fd)) { return do_sync(fd, 0); }
SIM(int, fdatasync, (int fd)) { return do_sync(fd, 1); }
SIM(int, syncfs, (int fd)) { return do_sync(fd, 2); }
SIM(int, fallocate, (int fd, int, off_t off, off_t len)) { g_calls++; File *f = getFdK<File>(fd, K_FILE, ENODEV); if (!f) return -1; FAULT("fallocate", ENOSPC); if (off + len > f->ino->size) f->ino->size = off + len; return 0; }
SIM(int, fallocate64, (int fd, int m, off_t off, off_t len)) { return sim_fallocate(fd, m, off, len); }
SIM(int, posix_fallocate, (int fd, off_t off, off_t len)) { return sim_fallocate(fd, 0, off, len) ? errno : 0; }
SIM(int, posix_fallocate64, (int fd, off_t off, off_t len)) { return sim_posix_fallocate(fd, off, len); }
SIM(int, ftruncate, (int fd, off_t n)) { File *f = getFdK<File>(fd, K_FILE, EINVAL); if (!f) return -1; f->ino->size = n; pushEv(E_TRUNC, f->id, n, 0); return 0; }
SIM(int, ftruncate64, (int fd, off_t n)) { return sim_ftruncate(fd, n); }
SIM(int, posix_fadvise, (int, off_t, off_t, int)) { return 0; }
SIM(int, posix_fadvise64, (int, off_t, off_t, int)) { return 0; }
SIM(int, fstat, (int fd, struct stat *s)) { g_calls++; File *f = getFdK<File>(fd, K_FILE, EBADF); if (!f) return -1; memset(s, 0, sizeof *s); s->st_size = f->ino->size; s->st_blksize = K->opt.blksize; s->st_mode = S_IFREG | 0600; return 0; }
SIM(int, fstat64, (int fd, struct stat *s)) { return sim_fstat(fd, s); }
SIM(int, stat, (const char *p, struct stat *s)) { auto it = K->fs.find(p); if (it == K->fs.end()) FAIL(ENOENT); memset(s, 0, sizeof *s); s->st_size = it->second->size; s->st_blksize = K->opt.blksize; s->st_mode = S_IFREG | 0600; return 0; }
SIM(int, access, (const char *p, int)) { if (K->fs.count(p) || curProc()->files.count(p)) return 0; FAIL(ENOENT); }
SIM(int, unlink, (const char *p)) { if (K->fs.count(p)) return 0; FAIL(ENOENT); }
SIM(int, pipe2, (int fd[2], int fl)) {
    FAULT("pipe", EMFILE);
    g_calls++; PipeBuf *b = new PipeBuf; b->cap = K->opt.pipeCap; K->pipes.push_back(b); b->readers = b->writers = 1;
    Pipe *r = newObj<Pipe>(), *w = newObj<Pipe>(); r->b = w->b = b; w->wr = true; r->nonblock = w->nonblock = fl & O_NONBLOCK;
    fd[0] = addFd(r); fd[1] = addFd(w); return 0;
}
SIM(int, pipe, (int fd[2])) { return sim_pipe2(fd, 0); }
SIM(int, eventfd, (unsigned v, int fl)) { FAULT("eventfd", EMFILE); g_calls++; EventFd *e = newObj<EventFd>(); e->val = v; e->nonblock = fl & EFD_NONBLOCK; e->sem = fl & EFD_SEMAPHORE; return addFd(e); }

// ---- timers
SIM(int, timerfd_create, (int clk, int fl)) { FAULT("timerfd_create", EMFILE); g_calls++; Timer *t = newObj<Timer>(); t->clk = clk; t->nonblock = fl & TFD_NONBLOCK; return addFd(t); }
SIM(int, timerfd_settime, (int fd, int fl, const struct itimerspec *n, struct itimerspec *o)) {
    point(); Timer *t = getFdK<Timer>(fd, K_TIMER, EINVAL); if (!t) return -1;
    auto bad = [](const struct timespec &s) { return s.tv_nsec < 0 || s.tv_nsec >= SEC || s.tv_sec < 0; };
    if (bad(n->it_value) || bad(n->it_interval)) FAIL(EINVAL);
    if (o) { memset(o, 0, sizeof *o); }
    ns_t v = n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
    t->fired = 0; t->interval = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    if (v == 0) t->expiry = 0;
    else { t->expiry = (fl & TFD_TIMER_ABSTIME) ? v - (t->clk == CLOCK_REALTIME ? REAL_BASE : MONO_BASE) : K->now + v; if (t->expiry <= 0) t->expiry = 1; }
    return 0;
}
SIM(int, timerfd_gettime, (int fd, struct itimerspec *o)) {
    point(); Timer *t = getFdK<Timer>(fd, K_TIMER, EINVAL); if (!t) return -1; t->update(); memset(o, 0, sizeof *o);
    ns_t r = t->expiry > 0 ? t->expiry - K->now : 0; o->it_value.tv_sec = r / SEC; o->it_value.tv_nsec = r % SEC; o->it_interval.tv_sec = t->interval / SEC; o->it_interval.tv_nsec = t->interval % SEC; return 0;
}

// ---- epoll / poll
SIM(int, epoll_create1, (int)) { FAULT("epoll_create", EMFILE); g_calls++; return addFd(newObj<Epoll>()); }
SIM(int, epoll_create, (int)) { FAULT("epoll_create", EMFILE); g_calls++; return addFd(newObj<Epoll>()); }
SIM(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event *ev)) {
    g_calls++; Epoll *e = getFdK<Epoll>(ep, K_EPOLL, EINVAL); if (!e) return -1; Obj *o = getFd(fd); if (!o) return -1;
    if (o->kind == K_FILE) FAIL(EPERM);
    size_t i = 0; for (; i < e->items.size(); i++) if (e->items[i].fd == fd && e->items[i].o == o) break;
    bool have = i < e->items.size();
    if (op == EPOLL_CTL_ADD) { if (have) FAIL(EEXIST); FAULT("epoll_ctl", ENOSPC); e->items.push_back({fd, o, ev->events, ev->data.u64, false}); }
    else if (op == EPOLL_CTL_MOD) { if (!have) FAIL(ENOENT); e->items[i].ev = ev->events; e->items[i].data = ev->data.u64; e->items[i].off = false; e->items[i].seen = ~0ull; }
    else if (op == EPOLL_CTL_DEL) { if (!have) FAIL(ENOENT); e->items.erase(e->items.begin() + i); }
    else FAIL(EINVAL);
    return 0;
}
static int do_epoll_wait(int ep, struct epoll_event *out, int max, int timeout) {
    point(); Epoll *e = getFdK<Epoll>(ep, K_EPOLL, EINVAL); if (!e) return -1;
    if (max <= 0) FAIL(EINVAL);
    FAULT("epoll_wait", EINTR);
    ns_t dl = timeout < 0 ? -1 : K->now + (ns_t)timeout * MS;
    auto f = [e] { return e->poll() != 0; };
    while (!e->poll()) { if (dl >= 0 && K->now >= dl) return 0; waitFor("epoll_wait()", dl, f); }
    std::vector<int> rd;
    for (size_t i = 0; i < e->items.size(); i++) if (e->items[i].ready()) rd.push_back((int)i);
    if (K->opt.epollOrder && rd.size() > 1 && budgetLeft() > 0) {
        int r = chooseDev((int)rd.size(), "epoll"); // another ready object is reported first
        if (r) { int x = rd[r]; rd.erase(rd.begin() + r); rd.insert(rd.begin(), x); }
    }
    if ((int)rd.size() > max) rd.resize(max);
    std::vector<Epoll::It> keep, moved; int n = 0;
    for (int i : rd) { auto &it = e->items[i]; out[n].events = it.ready(); it.seen = it.o->wakes(); out[n].data.u64 = it.data; n++; if (it.ev & EPOLLONESHOT) it.off = true; moved.push_back(it); }
    for (size_t i = 0; i < e->items.size(); i++) { bool m = false; for (int x : rd) if (x == (int)i) m = true; if (!m) keep.push_back(e->items[i]); }
    e->items = keep; e->items.insert(e->items.end(), moved.begin(), moved.end());
    return n;
}
SIM(int, epoll_wait, (int ep, struct epoll_event *out, int max, int timeout)) { return do_epoll_wait(ep, out, max, timeout); }
SIM(int, epoll_pwait, (int ep, struct epoll_event *out, int max, int timeout, const sigset_t *)) { return do_epoll_wait(ep, out, max, timeout); }
SIM(int, poll, (struct pollfd * fds, nfds_t n, int timeout)) {
    point(); ns_t dl = timeout < 0 ? -1 : K->now + (ns_t)timeout * MS;
    Proc *p = curProc();
    auto scan = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { fds[i].revents = 0; if (fds[i].fd < 0) continue; if (fds[i].fd >= (int)p->fds.size() || !p->fds[fds[i].fd]) { fds[i].revents = POLLNVAL; c++; continue; } uint32_t e = p->fds[fds[i].fd]->poll() & (fds[i].events | POLLERR | POLLHUP); if (e) { fds[i].revents = (short)e; c++; } } return c; };
    auto f = [&] { return scan() > 0; };
    for (;;) { int c = scan(); if (c) return c; if (dl >= 0 && K->now >= dl) return 0; waitFor("poll()", dl, f); }
}

SIM(int, ppoll, (struct pollfd * fds, nfds_t n, const struct timespec *ts, const sigset_t *)) { return sim_poll(fds, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
SIM(int, select, (int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)) {
    std::vector<struct pollfd> v; for (int i = 0; i < n; i++) { short ev = 0; if (r && FD_ISSET(i, r)) ev |= POLLIN; if (w && FD_ISSET(i, w)) ev |= POLLOUT; if (e && FD_ISSET(i, e)) ev |= POLLPRI; if (ev) v.push_back({i, ev, 0}); }
    int c = sim_poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1); if (c < 0) return c;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); c = 0;
    for (auto &p : v) { if ((p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; } if ((p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } }
    return c;
}
SIM(int, pselect, (int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *)) { struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; } return sim_select(n, r, w, e, ts ? &tv : nullptr); }

// ---- names
SIM(struct hostent *, gethostbyname, (const char *n)) {
    g_calls++; static struct hostent h; static struct in_addr a; static char *lst[2]; static char name[64];
    auto it = K->hosts.find(n);
    if (it != K->hosts.end()) a.s_addr = htonl(it->second);
    else if (!strcmp(n, "localhost")) a.s_addr = htonl(LOOP);
    else if (!inet_aton(n, &a)) return nullptr;
    snprintf(name, sizeof name, "%s", n); lst[0] = (char *)&a; lst[1] = nullptr; h.h_name = name; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = lst; h.h_aliases = lst + 1; return &h;
}
SIM(int, getaddrinfo, (const char *n, const char *svc, const struct addrinfo *hi, struct addrinfo **res)) {
    g_calls++; struct addrinfo h; memset(&h, 0, sizeof h); if (hi) h = *hi; h.ai_flags |= AI_NUMERICHOST; std::string x = n ? n : "";
    auto it = K->hosts.find(x); if (it != K->hosts.end()) { struct in_addr a; a.s_addr = htonl(it->second); x = inet_ntoa(a); } else if (x == "localhost") x = "127.0.0.1";
    return getaddrinfo(n ? x.c_str() : nullptr, svc, &h, res);
}
SIM(void, freeaddrinfo, (struct addrinfo * r)) { freeaddrinfo(r); }

// ---- threads
SIM(int, pthread_create, (pthread_t * o, const pthread_attr_t *, void *(*fn)(void *), void *arg)) {
    g_calls++; flushCpu(); if (int e = fault("pthread_create", {EAGAIN})) return e;
    Thread *t = new Thread; t->id = (int)K->threads.size(); t->proc = curProc(); t->start = fn; t->arg = arg; t->sched = K->cur->sched; t->tls = t->proc->mod->tlsInit; t->name = strf("%s.t%d", t->proc->name.c_str(), t->id);
    K->threads.push_back(t); *o = (pthread_t)(t->id + 1);
    point(); return 0;
}
SIM(pthread_t, pthread_self, ()) { return (pthread_t)(K->cur->id + 1); }
SIM(int, pthread_join, (pthread_t h, void **rv)) {
    point(); size_t id = (size_t)h - 1; if (h == 0 || id >= K->threads.size() || K->threads[id]->env) return ESRCH;
    Thread *t = K->threads[id]; if (t->joined) { violate("pthread_join() of a thread that was already joined"); return EINVAL; }
    auto f = [t] { return t->done; }; if (!t->done) waitFor("pthread_join()", -1, f);
    t->joined = true; if (rv) *rv = t->ret; return 0;
}
SIM(int, pthread_detach, (pthread_t h)) { size_t id = (size_t)h - 1; if (h == 0 || id >= K->threads.size() || K->threads[id]->env) return ESRCH; K->threads[id]->detached = true; return 0; }
SIM(void, pthread_exit, (void *rv)) { Thread *t = K->cur; flushCpu(); t->ret = rv; t->done = true; Thread *n = pick(); if (!n) endExec(); else switchTo(n); abort(); }
SIM(int, pthread_cancel, (pthread_t)) { return 0; }
SIM(int, pthread_kill, (pthread_t, int)) { return 0; }

struct MX { int owner; int cnt; };
static MX &mx(void *m) { auto &p = K->mutexes[m]; return *(MX *)&p; }
SIM(int, pthread_mutex_init, (pthread_mutex_t * m, const pthread_mutexattr_t *a)) { K->mutexes.erase(m); int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); if (ty == PTHREAD_MUTEX_RECURSIVE) K->recursive.insert(m); return 0; }
SIM(int, pthread_mutex_destroy, (pthread_mutex_t *)) { return 0; }
SIM(int, pthread_mutex_lock, (pthread_mutex_t * m)) {
    point(); int me = K->cur->id + 1;
    if (mx(m).owner == me && K->recursive.count(m)) { mx(m).cnt++; return 0; }
    auto f = [m] { return mx(m).owner == 0; }; while (mx(m).owner) waitFor("mutex", -1, f); mx(m).owner = me; mx(m).cnt = 1; return 0;
}
SIM(int, pthread_mutex_trylock, (pthread_mutex_t * m)) { point(); int me = K->cur->id + 1; if (mx(m).owner == me && K->recursive.count(m)) { mx(m).cnt++; return 0; } if (mx(m).owner) return EBUSY; mx(m).owner = me; mx(m).cnt = 1; return 0; }
SIM(int, pthread_mutex_unlock, (pthread_mutex_t * m)) { g_calls++; if (--mx(m).cnt <= 0) { mx(m).owner = 0; mx(m).cnt = 0; } point(); return 0; }
SIM(int, pthread_spin_init, (pthread_spinlock_t * m, int)) { K->mutexes.erase((void *)m); return 0; }
SIM(int, pthread_spin_destroy, (pthread_spinlock_t *)) { return 0; }
SIM(int, pthread_spin_lock, (pthread_spinlock_t * m)) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
SIM(int, pthread_spin_trylock, (pthread_spinlock_t * m)) { return sim_pthread_mutex_trylock((pthread_mutex_t *)m); }
SIM(int, pthread_spin_unlock, (pthread_spinlock_t * m)) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
// readers/writer locks: owner>0 writer, owner<0 number of readers
SIM(int, pthread_rwlock_init, (pthread_rwlock_t * m, const pthread_rwlockattr_t *)) { K->mutexes.erase(m); return 0; }
SIM(int, pthread_rwlock_destroy, (pthread_rwlock_t *)) { return 0; }
SIM(int, pthread_rwlock_rdlock, (pthread_rwlock_t * m)) { point(); auto f = [m] { return mx(m).owner <= 0; }; while (mx(m).owner > 0) waitFor("rwlock", -1, f); mx(m).owner--; return 0; }
SIM(int, pthread_rwlock_wrlock, (pthread_rwlock_t * m)) { point(); auto f = [m] { return mx(m).owner == 0; }; while (mx(m).owner) waitFor("rwlock", -1, f); mx(m).owner = K->cur->id + 1; return 0; }
SIM(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t * m)) { point(); if (mx(m).owner > 0) return EBUSY; mx(m).owner--; return 0; }
SIM(int, pthread_rwlock_trywrlock, (pthread_rwlock_t * m)) { point(); if (mx(m).owner) return EBUSY; mx(m).owner = K->cur->id + 1; return 0; }
SIM(int, pthread_mutex_timedlock, (pthread_mutex_t * m, const struct timespec *ts)) { point(); ns_t dl = ts->tv_sec * SEC + ts->tv_nsec - REAL_BASE; auto f = [m] { return mx(m).owner == 0; }; while (mx(m).owner) { if (K->now >= dl) return ETIMEDOUT; waitFor("mutex", dl, f); } mx(m).owner = K->cur->id + 1; mx(m).cnt = 1; return 0; }
SIM(int, pthread_rwlock_unlock, (pthread_rwlock_t * m)) { if (mx(m).owner > 0) mx(m).owner = 0; else mx(m).owner++; point(); return 0; }
SIM(int, pthread_cond_init, (pthread_cond_t *, const pthread_condattr_t *)) { return 0; }
SIM(int, pthread_cond_destroy, (pthread_cond_t *)) { return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, ns_t dl) {
    int g = K->condgen[c]; mx(m).owner = 0; mx(m).cnt = 0; auto f = [c, g] { return K->condgen[c] != g; }; waitFor("cond", dl, f);
    bool to = K->condgen[c] == g; sim_pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
SIM(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t *m)) { point(); return condWait(c, m, -1); }
SIM(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t *m, const struct timespec *ts)) { point(); ns_t v = ts->tv_sec * SEC + ts->tv_nsec; v -= v > REAL_BASE ? REAL_BASE : MONO_BASE; if (v < 0) v = 0; return condWait(c, m, v); }
SIM(int, pthread_cond_signal, (pthread_cond_t * c)) { K->condgen[c]++; point(); return 0; } // wakes all: allowed (spurious wake-ups)
SIM(int, pthread_cond_broadcast, (pthread_cond_t * c)) { K->condgen[c]++; point(); return 0; }
SIM(int, sem_init, (sem_t * s, int, unsigned v)) { K->condgen[s] = (int)v; return 0; }
SIM(int, sem_destroy, (sem_t *)) { return 0; }
SIM(int, sem_post, (sem_t * s)) { K->condgen[s]++; point(); return 0; }
SIM(int, sem_wait, (sem_t * s)) { point(); auto f = [s] { return K->condgen[s] > 0; }; while (K->condgen[s] <= 0) waitFor("semaphore", -1, f); K->condgen[s]--; return 0; }
SIM(int, sem_trywait, (sem_t * s)) { point(); if (K->condgen[s] <= 0) FAIL(EAGAIN); K->condgen[s]--; return 0; }
SIM(int, sem_timedwait, (sem_t * s, const struct timespec *ts)) { point(); ns_t dl = ts->tv_sec * SEC + ts->tv_nsec - REAL_BASE; auto f = [s] { return K->condgen[s] > 0; }; while (K->condgen[s] <= 0) { if (K->now >= dl) FAIL(ETIMEDOUT); waitFor("semaphore", dl, f); } K->condgen[s]--; return 0; }
SIM(int, sem_getvalue, (sem_t * s, int *v)) { point(); *v = (int)K->condgen[s]; return 0; }
// ---- values per thread (destructors run when a thread ends are not modelled)
SIM(int, pthread_key_create, (pthread_key_t * k, void (*)(void *))) { *k = (pthread_key_t)(1000 + K->keys++); return 0; }
SIM(int, pthread_key_delete, (pthread_key_t)) { return 0; }
SIM(void *, pthread_getspecific, (pthread_key_t k)) { auto &m = K->cur->specific; auto it = m.find(k); return it == m.end() ? nullptr : it->second; }
SIM(int, pthread_setspecific, (pthread_key_t k, const void *v)) { K->cur->specific[k] = (void *)v; return 0; }
SIM(int, pthread_once, (pthread_once_t * o, void (*fn)(void))) { point(); if (*o == 1) { auto f = [o] { return *(volatile pthread_once_t *)o == 2; }; waitFor("once", -1, f); } if (*o == 2) return 0; *o = 1; fn(); *o = 2; return 0; }
SIM(int, pthread_barrier_init, (pthread_barrier_t * b, const pthread_barrierattr_t *, unsigned n)) { mx(b).owner = (int)n; mx(b).cnt = 0; K->condgen[b] = 0; return 0; }
SIM(int, pthread_barrier_destroy, (pthread_barrier_t *)) { return 0; }
SIM(int, pthread_barrier_wait, (pthread_barrier_t * b)) { point(); int g = K->condgen[b]; if (++mx(b).cnt == mx(b).owner) { mx(b).cnt = 0; K->condgen[b]++; return PTHREAD_BARRIER_SERIAL_THREAD; } auto f = [b, g] { return K->condgen[b] != g; }; waitFor("barrier", -1, f); return 0; }

// ------------------------------------------------------------------ shared-memory access points (instrumented builds)
static inline void memPoint(void *a, bool) {
    if (!K || !K->cur || K->cur->env || !K->opt.memPoints) return;
    Thread *t = K->cur;
    if ((char *)a >= t->stack && (char *)a < t->stack + STK) return; // own stack
    if (budgetLeft() <= 0) return;
    if (++K->mempoints % 64) { K->sinceEnv--; t->spin--; } // hardly a sign of spinning
    point();
}
} // namespace sim

using namespace sim;
#define TS(n) \
    extern "C" void __tsan_read##n(void *a) { memPoint(a, false); } \
    extern "C" void __tsan_write##n(void *a) { memPoint(a, true); } \
    extern "C" void __tsan_unaligned_read##n(void *a) { memPoint(a, false); } \
    extern "C" void __tsan_unaligned_write##n(void *a) { memPoint(a, true); } \
    extern "C" void __tsan_read##n##_pc(void *a, void *) { memPoint(a, false); } \
    extern "C" void __tsan_write##n##_pc(void *a, void *) { memPoint(a, true); } \
    extern "C" void __tsan_volatile_read##n(void *a) { memPoint(a, false); } \
    extern "C" void __tsan_volatile_write##n(void *a) { memPoint(a, true); }
TS(1) TS(2) TS(4) TS(8) TS(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void **, void *) {}
extern "C" void __tsan_vptr_read(void **) {}
extern "C" void __tsan_read_range(void *a, unsigned long) { memPoint(a, false); }
extern "C" void __tsan_write_range(void *a, unsigned long) { memPoint(a, true); }
#define TA(bits, T) \
    extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int) { memPoint((void *)a, false); return *a; } \
    extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int) { memPoint((void *)a, true); *a = v; } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = o + v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = o - v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = o | v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = o & v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = o ^ v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { memPoint((void *)a, true); T o = *a; *a = ~(o & v); return o; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { memPoint((void *)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { memPoint((void *)a, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { memPoint((void *)a, true); T o = *a; if (o == c) *a = v; return o; }
TA(8, uint8_t) TA(16, uint16_t) TA(32, uint32_t) TA(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
