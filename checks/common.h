// Wire format of requests (as spoken between distwalk programs) and helpers shared by the checks.
#pragma once
#include "explore.h"
#include <algorithm>
#include <set>
#include <signal.h>
#include <sys/socket.h>
using namespace sim;

enum { W_COMPUTE = 0, W_STORE = 1, W_LOAD = 2, W_FORWARD = 4, W_MULTI = 5, W_REPLY = 6, W_EOM = 7 };
enum { W_UDP = 0, W_TCP = 1 };
static const size_t HDR = 12;

template <class T> inline void put(std::string &s, T v) { s.append((const char *)&v, sizeof v); }
template <class T> inline T get(const std::string &s, size_t o) { T v{}; if (o + sizeof v <= s.size()) memcpy(&v, s.data() + o, sizeof v); return v; }

inline std::string cCompute(uint32_t us) { std::string s; put<int32_t>(s, W_COMPUTE); put(s, us); return s; }
inline std::string cStore(uint64_t n, bool sync = false, uint64_t off = (uint64_t)-1) { std::string s; put<int32_t>(s, W_STORE); put(s, off); put(s, n); put<uint8_t>(s, sync); s.append(7, '\0'); return s; }
inline std::string cLoad(uint64_t n, uint64_t off = (uint64_t)-1) { std::string s; put<int32_t>(s, W_LOAD); put(s, off); put(s, n); return s; }
inline std::string cFwd(uint16_t port, uint32_t pkt, uint32_t timeout = 0, uint8_t retries = 0, uint8_t skip = 0, int proto = W_TCP, bool multi = false) {
    std::string s; put<int32_t>(s, multi ? W_MULTI : W_FORWARD); put(s, pkt); put<uint32_t>(s, htonl(LOOP)); put<uint16_t>(s, htons(port)); s.append(2, '\0'); put(s, timeout); put(s, retries); put(s, skip); s.append(2, '\0'); put<int32_t>(s, proto); return s;
}
inline std::string cReply(uint32_t size, uint8_t nack = 1) { std::string s; put<int32_t>(s, W_REPLY); put(s, size); put(s, nack); s.append(3, '\0'); return s; }
inline std::string cEom() { std::string s; put<int32_t>(s, W_EOM); return s; }
inline size_t cmdSize(int c) { switch (c) { case W_COMPUTE: return 8; case W_STORE: return 28; case W_LOAD: return 20; case W_FORWARD: case W_MULTI: return 28; case W_REPLY: return 12; default: return 4; } }

// a whole request: header, commands, end marker, padding up to total (0: as small as possible)
inline std::string wireMsg(uint32_t id, const std::string &cmds, size_t total = 0, int8_t status = 0) {
    std::string s; std::string body = cmds + cEom(); size_t need = HDR + body.size(); if (total < need) total = need;
    put(s, id); put<uint32_t>(s, (uint32_t)total); put(s, status); s.append(3, '\0'); s += body;
    while (s.size() < total) s += (char)(0x40 + (s.size() * 7 + id) % 37);
    return s;
}
// an answer of exactly the given size, which may leave no room for the end mark
inline std::string wireReply(uint32_t id, uint32_t size, int8_t status = 0) { std::string s = wireMsg(id, "", size, status); if (size < s.size()) { memcpy(&s[4], &size, 4); s.resize(size); } return s; }
struct WMsg { uint32_t id, size; int8_t status; std::string raw; std::string cmds() const; };
// the command bytes up to and including the end marker ("" if malformed)
inline std::string WMsg::cmds() const {
    size_t o = HDR; while (o + 4 <= raw.size()) { int c = get<int32_t>(raw, o); if (c < 0 || c > W_EOM) return ""; if (c == W_EOM) return raw.substr(HDR, o + 4 - HDR); o += cmdSize(c); }
    return "";
}
// commands without the meaningless bytes between their fields
inline std::string normCmds(std::string c) {
    size_t o = 0; auto zero = [&](size_t at, size_t n) { for (size_t i = at; i < at + n && i < c.size(); i++) c[i] = 0; };
    while (o + 4 <= c.size()) { int k = get<int32_t>(c, o); if (k < 0 || k >= W_EOM) break; if (k == W_STORE) zero(o + 21, 7); if (k == W_FORWARD || k == W_MULTI) { zero(o + 14, 2); zero(o + 22, 2); } if (k == W_REPLY) zero(o + 9, 3); o += cmdSize(k); }
    return c;
}
// splits a byte stream into messages; leaves incomplete bytes in s
inline std::vector<WMsg> takeMsgs(std::string &s) {
    std::vector<WMsg> v;
    while (s.size() >= HDR) {
        uint32_t sz = get<uint32_t>(s, 4);
        if (sz < HDR || sz > (1u << 26)) { violate("a peer received a malformed message (size field %u)", sz); return v; }
        if (s.size() < sz) break;
        v.push_back({get<uint32_t>(s, 0), sz, (int8_t)s[8], s.substr(0, sz)}); s.erase(0, sz);
    }
    return v;
}

inline bool listening(uint16_t port, bool udp = false) {
    for (auto o : K->objs) {
        if (!udp && o->kind == K_TCP) { Tcp *t = (Tcp *)o; if (t->st == Tcp::LISTENING && !t->closed && t->local.port == port && !t->actor) return true; }
        if (udp && o->kind == K_UDP) { Udp *t = (Udp *)o; if (t->bound && !t->closed && t->local.port == port && !t->actor) return true; }
    }
    return false;
}
inline std::vector<std::string> nodeArgs(std::vector<std::string> extra = {}) { std::vector<std::string> a = {"dw_node"}; a.insert(a.end(), extra.begin(), extra.end()); return a; }

static const uint16_t NODE_PORT = 7891;

// what one client asks and what it got back
struct Exch {
    struct Want { uint32_t id, size; int8_t status; };
    std::vector<Want> want; std::vector<WMsg> got; std::string rest; bool eof = false, rst = false, finished = false, closed = false; Tcp *c = nullptr; int peer = -1; // peer: the node's socket
    void pump() { // read whatever is there
        rest += actRecv(c); for (auto &m : takeMsgs(rest)) got.push_back(m);
        if (c->rx.empty()) { if (c->rxeof) eof = true; if (c->rst) rst = true; }
    }
    bool readable() const { return !c->rx.empty() || (c->rxeof && !eof) || (c->rst && !rst); }
    bool complete() const { return got.size() >= want.size() || eof || rst; }
    std::string bytesOk() const; // empty if replies match the requests one to one
};
inline std::string Exch::bytesOk() const {
    std::map<uint32_t, int> seen;
    for (auto &g : got) {
        const Want *w = nullptr; for (auto &x : want) if (x.id == g.id) w = &x;
        if (!w) return strf("reply with id %u, which is no outstanding request of this client", g.id);
        if (seen[g.id]++) return strf("request %u was answered twice", g.id);
        if (g.size != w->size) return strf("reply to request %u has %u bytes instead of %u", g.id, g.size, w->size);
        if (g.status != w->status) return strf("reply to request %u has status %d instead of %d", g.id, g.status, w->status);
        if (g.size >= HDR + 4 && g.cmds() != cEom()) return strf("reply to request %u carries commands", g.id);
    }
    for (auto &x : want) if (!seen[x.id]) return strf("request %u was never answered (%s)", x.id, eof || rst ? "connection closed" : "still waiting");
    if (!rest.empty()) return strf("%zu stray bytes after the last reply", rest.size());
    return "";
}
// waits until every reply is there (or the connection is gone)
inline void collect(Exch &x, bool force = false) {
    bool e = force || x.c->rxcap >= (1 << 30); // with unlimited room, reading commutes with everything else
    while (!x.complete()) { K->cur->eager = e; actWait("replies", [&] { return x.readable(); }); x.pump(); K->cur->eager = false; actStep(); }
}

// last actor of a scenario: once all others are done and the program is idle, look for stray output, then stop the node
inline void addFinisher(Proc *node, std::function<void()> atIdle = nullptr, bool term = true) {
    spawnActor("finisher", [node, atIdle, term] {
        actWait("the other actors", [] { return actorsDone(); });
        actWait("idle", [] { return programsIdle(); });
        if (atIdle) atIdle();
        if (term) {
            if (node->exited) violate("the node exited on its own with status %d: %s", node->status, node->err.c_str());
            raiseSignal(node, SIGTERM);
            actStep();
            actWait("the node to exit after SIGTERM", [node] { return node->exited; });
            if (node->status != 0) violate("the node exited with status %d after SIGTERM: %s", node->status, node->err.c_str());
        }
    }, true);
}
inline std::string ruleText() { return "every execution of the real program within the deviation bound is run on the simulated kernel; a state is a distinct history of observable events (calls with their results, bytes, times), a transition is a scheduling step"; }
inline std::vector<std::string> simAssumptions() { return {"the simulated kernel behaves like Linux for the calls used (sockets, epoll, pipes, timers, signalfd, files)", "threads interleave at system calls (and at instrumented memory accesses where stated), sequentially consistent memory", "fixed buffer and table sizes are scaled down through the DW_VERIF build options, except in full-size scenarios"}; }
