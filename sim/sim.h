// Simulated operating system + deterministic scheduler + exhaustive explorer.
// The program under test (compiled into a shared object, its OS calls renamed to sim_*)
// runs on coroutines inside this process; nothing reaches the real kernel.
#pragma once
#include <sys/epoll.h>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <netinet/in.h>

namespace sim {

typedef int64_t ns_t;
static const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

// ------------------------------------------------------------------ explorer
struct ChoicePoint {
    uint16_t n;      // number of options
    uint16_t ncheap; // options [0,ncheap) cost 0, the rest cost 1 deviation
    uint16_t taken;
    uint16_t tag;
};

// pick one of n options; options >= ncheap cost one deviation.
int choose(int n, int ncheap, const char *tag);
inline int chooseFree(int n, const char *tag) { return choose(n, n, tag); }
inline int chooseDev(int n, const char *tag) { return choose(n, 1, tag); }
int budgetLeft();

// ------------------------------------------------------------------ kernel objects
struct Proc; struct Thread;
enum Kind { K_TCP, K_UDP, K_EPOLL, K_TIMER, K_SIGNAL, K_PIPE, K_FILE, K_EVENT };

struct Obj {
    Kind kind; int id; int refs = 0; bool nonblock = false; Proc *owner = nullptr;
    explicit Obj(Kind k) : kind(k), id(0) {}
    virtual ~Obj() {}
    virtual uint32_t poll() { return 0; }
    virtual uint64_t wakes() { return ~0ull; } // changes with everything that wakes up an edge-triggered waiter; ~0: treated as level-triggered
};

struct Addr { uint32_t ip; uint16_t port; // host byte order
    bool operator==(const Addr &o) const { return ip == o.ip && port == o.port; }
    bool operator<(const Addr &o) const { return ip != o.ip ? ip < o.ip : port < o.port; } };
static const uint32_t LOOP = 0x7f000001;

struct Tcp : Obj {
    enum St { FRESH, LISTENING, CONNECTING, CONN, FAILED } st = FRESH;
    Addr local{0, 0}, remote{0, 0};
    Tcp *peer = nullptr;
    std::string rx; size_t rxcap = 1 << 30;  // bytes received and not yet read / capacity
    size_t rxtotal = 0;                       // total bytes ever received here
    bool rxeof = false, rst = false, closed = false, shutwr = false, shutrd = false, reuseport = false, bound = false;
    int soerr = 0;
    std::deque<Tcp *> acceptq; int backlog = 0; bool manual = false; // manual: actor decides when handshakes complete
    std::deque<Tcp *> synq;                                          // handshakes waiting (manual)
    bool actor = false; bool accepted = false;
    bool nodelay = false; int sentWith = 0; // sentWith: values of the option while data was sent (bit 0: off, bit 1: on)
    Tcp() : Obj(K_TCP) {}
    size_t space() const { return !peer || peer->rx.size() >= peer->rxcap ? 0 : peer->rxcap - peer->rx.size(); }
    uint64_t accepts = 0, blocked = 0, spaceSeen = 0;
    uint32_t poll() override; uint64_t wakes() override;
};
struct Dgram { Addr from; std::string data; };
struct Udp : Obj {
    Addr local{0, 0}; bool bound = false, reuseport = false; Addr remote{0, 0}; bool connected = false; bool closed = false, shut = false;
    std::deque<Dgram> rx; int soerr = 0; bool actor = false; uint64_t arrived = 0;
    Udp() : Obj(K_UDP) {}
    uint32_t poll() override; uint64_t wakes() override { return arrived + ((uint64_t)(soerr != 0) << 62) + ((uint64_t)shut << 61); }
};
struct Epoll : Obj {
    struct It { int fd; Obj *o; uint32_t ev; uint64_t data; bool off; uint64_t seen = ~0ull; // seen: edge-triggered, as of the last report
        uint32_t ready() { return off || ((ev & EPOLLET) && seen != ~0ull && seen == o->wakes()) ? 0 : o->poll() & (ev | EPOLLERR | EPOLLHUP); } };
    std::vector<It> items;
    Epoll() : Obj(K_EPOLL) {}
    uint32_t poll() override;
};
struct Timer : Obj {
    ns_t expiry = 0, interval = 0; uint64_t fired = 0; int clk = 0;
    Timer() : Obj(K_TIMER) {}
    void update(); uint32_t poll() override;
};
struct SigFd : Obj { uint64_t mask = 0; SigFd() : Obj(K_SIGNAL) {} uint32_t poll() override; };
struct EventFd : Obj { uint64_t val = 0; bool sem = false; EventFd() : Obj(K_EVENT) {} uint32_t poll() override; };
struct PipeBuf { std::string data; size_t cap = 65536; int readers = 0, writers = 0; };
struct Pipe : Obj { PipeBuf *b = nullptr; bool wr = false; Pipe() : Obj(K_PIPE) {} uint32_t poll() override; };
struct Inode { std::string path; int64_t size = 0; };
struct File : Obj { Inode *ino = nullptr; int64_t off = 0; int flags = 0; File() : Obj(K_FILE) {} uint32_t poll() override; };

// ------------------------------------------------------------------ observable events
enum EvKind { E_CPU, E_WRITE, E_READ, E_FSYNC, E_SEND, E_RECV, E_ACCEPT, E_CONNECT, E_CLOSE, E_OUT, E_EXIT, E_ACT, E_SEEK, E_UDPSEND, E_PIN, E_SLEEP, E_TRUNC, E_SOCK, E_FAULT };
struct Ev { EvKind k; int proc, thr; ns_t t; int obj; int64_t a, b; std::string s; };

// ------------------------------------------------------------------ processes / threads
struct Module; // a loaded instance of a program
Module *loadModule(const std::string &sopath);
void *moduleSym(Module *m, const char *name);

// memory of the programs, for the checks that save and restore it (all the blocks are outside of huge mappings)
uint64_t heapGen();               // changes whenever blocks are allocated or released
std::string heapBytes();          // contents of the live blocks
void heapPut(const std::string &); // puts them back; the same blocks must be live
bool heapIntact();
size_t heapLive();                // bytes the programs have allocated and not released
void capReached();                // the search was cut short
void unitStep(uint64_t stateHash); // counts a transition and the state it leads to

struct Proc {
    int id; Module *mod; std::string name;
    std::vector<Obj *> fds; std::string out, err;
    std::vector<std::string> args; std::vector<char *> argv;
    bool exited = false; int status = -1;
    uint64_t sigpending = 0, sigmask = 0, sigign = 0;
    std::vector<FILE *> openFiles;
    std::map<std::string, std::string> files; // text files visible through fopen
};

struct Sched { int policy = 0, nice = 0, prio = 0; uint64_t runtime = 0, deadline = 0, period = 0; // as the kernel keeps them, times in ns
    bool operator==(const Sched &o) const { return policy == o.policy && nice == o.nice && prio == o.prio && runtime == o.runtime && deadline == o.deadline && period == o.period; } };
struct Thread {
    Sched sched, servedWith; bool served = false; // servedWith: when it first received something
    int id; Proc *proc = nullptr; bool env = false; std::string name;
    void *sp = nullptr; char *stack = nullptr;
    bool done = false, started = false;
    bool (*pred)(void *) = nullptr; void *pctx = nullptr; ns_t deadline = -1; // blocked on
    const char *why = "";
    std::function<void()> body; void *(*start)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    bool isMain = false; bool killed = false; bool low = false, daemon = false, eager = false, pending = true; // low: not awaited by actorsDone(); daemon: may stay blocked for ever; eager: acts as soon as the program is idle, no choice (its actions commute with all others)
    ns_t cpu = 0; int err = 0; std::vector<char> tls;
    std::map<unsigned, void *> specific;
    int spin = 0; bool joined = false, detached = false; ns_t cpuTotal = 0;
};

struct Options {
    bool preemptSut = true;   // allow switching between runnable program threads (cost 1)
    bool preemptEnv = true;   // allow actors to act while the program is running (cost 1)
    bool timeDev = true;      // allow time to pass earlier than by default (cost 1)
    bool timeFree = false;    // when the program is idle, letting time pass is a free choice
    bool actorFree = true;    // when the program is idle, the choice of actor is free
    bool epollOrder = true;   // allow other orders of ready events (cost 1)
    bool schedFail = false;   // the system refuses scheduling parameters
    bool shortIO = false;     // allow short counts on storage reads/writes (cost 1)
    bool freeSwitch = true;   // choice of thread when the current one blocks is free
    int reuseHint = -1;       // which of several listeners on one port gets a connection; -1: any (free choice)
    int ncpu = 4; uint64_t cpumask = 0xf;
    ns_t cputick = 10 * US;   // advance per CPU-clock reading
    bool cpuPoints = false;   // other threads may step in at readings of the CPU clock, too
    ns_t clocktick = 0;       // advance per wall-clock reading
    ns_t horizon = 100 * SEC; // virtual-time limit
    int maxSteps = 60000;     // scheduling-point limit
    int fill = 0xA5;          // pattern of uninitialised memory
    int blksize = 64;
    size_t sutRxCap = 1 << 30; // receive capacity of program sockets
    bool memPoints = false;   // scheduling points at instrumented shared-memory accesses
    int fairness = 400;
    bool shortRecv = false;   // allow recv() to return a single byte although more is there (cost 1)
    size_t pipeCap = 65536;
    std::vector<std::string> faults; // calls that may fail (cost 1 each)
    bool postSend = false;    // a scheduling point also right after a successful send
};

struct Kernel {
    Options opt;
    ns_t now = 0; std::vector<Ev> trace; std::vector<Proc *> procs; std::vector<Thread *> threads;
    std::vector<Obj *> objs; std::vector<PipeBuf *> pipes; std::map<std::string, Inode *> fs;
    Thread *cur = nullptr; int steps = 0; uint64_t unitSteps = 0; bool noWatch = false; int nextEphemeral = 40000;
    bool failed = false; std::string failure; bool aborted = false; // violation found / execution stopped
    std::string abortWhy; std::vector<std::string> faulted; // faults so far
    bool ended = false, crashed = false; int sinceEnv = 0; uint64_t mempoints = 0;
    std::unordered_map<void *, std::pair<int, int>> mutexes; // addr -> (owner thread+1, count)
    int keys = 0; std::unordered_map<void *, int> condgen; std::unordered_set<void *> recursive;
    std::map<std::string, uint32_t> hosts; // simulated name service
    std::function<double()> draw; // random draws (drand48)
    std::function<void()> onStep;
    uint64_t thash = 1469598103934665603ull;
};
extern Kernel *K;

// ------------------------------------------------------------------ scenario-facing API
[[gnu::format(printf, 1, 2)]] void violate(const char *fmt, ...); // records a violation and stops the execution
[[gnu::format(printf, 1, 2)]] std::string strf(const char *fmt, ...);

Proc *spawnProgram(Module *m, const std::string &name, const std::vector<std::string> &args);
Thread *spawnActor(const std::string &name, std::function<void()> body, bool low = false);
inline Thread *spawnDaemon(const std::string &name, std::function<void()> body) { Thread *t = spawnActor(name, std::move(body)); t->daemon = true; return t; }

// for actor code
void actStep();                                         // end of an action: let the program react
template <class F> void actWait(const char *why, F f);  // block the actor until f()
template <class F> bool actWaitUntil(const char *why, ns_t deadline, F f); // false on deadline
void actSleepUntil(ns_t t);
void raiseSignal(Proc *p, int sig);
bool programsIdle();                                    // no program thread can run
bool actorsDone(Thread *except = nullptr);

Tcp *actListen(uint16_t port, bool manual = false);
Tcp *actConnect(uint16_t port, size_t rxcap = 1 << 30);      // nullptr if refused
Tcp *actAccept(Tcp *l);                                 // nullptr if none waiting
void actEstablish(Tcp *l);                              // complete the oldest pending handshake (manual listeners)
void actRefuse(Tcp *l);                                 // refuse the oldest pending handshake
void actSend(Tcp *c, const std::string &bytes);
std::string actRecv(Tcp *c, size_t max = SIZE_MAX);
void actClose(Tcp *c, bool reset = false);
void actUnlisten(Tcp *l);
Udp *actUdp(uint16_t port);
void actUdpSend(Udp *u, uint16_t port, const std::string &bytes);

void blockOn(const char *why, ns_t deadline, bool (*pred)(void *), void *ctx);
struct Killed {};
inline bool takePending() { Thread *t = K->cur; if (!t || !t->pending) return false; t->pending = false; return true; }

template <class F> void actWait(const char *why, F f) {
    while (takePending() || !f()) blockOn(why, -1, [](void *c) -> bool { return (*(F *)c)(); }, &f);
}
template <class F> bool actWaitUntil(const char *why, ns_t deadline, F f) {
    while (takePending() || !f()) {
        if (K->now >= deadline) return false;
        blockOn(why, deadline, [](void *c) -> bool { return (*(F *)c)(); }, &f);
    }
    return true;
}

// ------------------------------------------------------------------ exploration driver
struct Scenario {
    std::string name;
    int budget = 1;
    std::function<void(Kernel &)> setup;  // options, programs, actors
    std::function<void(Kernel &)> check;  // called at the end of every complete execution (oracle); may call violate()
    uint64_t maxExec = 0;                 // 0: unlimited (must complete for "exhaustive")
    bool expectStall = false;             // actors may remain blocked at the end
};

struct Stats {
    uint64_t execs = 0, steps = 0, choices = 0, states = 0, outcomes = 0, pruned = 0; bool capped = false; int maxDepth = 0;
};

void recordOutcome(const std::string &s); // distinct outcome classes, counted in the evidence

} // namespace sim
