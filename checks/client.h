// The client program against scripted servers.
#pragma once
#include "common.h"

struct CReq { uint32_t id; ns_t got = -1, answered = -1; int status = 0; };      // as seen by the server
struct CConn { Tcp *c = nullptr; int sock = -1; std::string in; std::vector<WMsg> msgs; std::vector<CReq> reqs; bool dropped = false, reset = false, done = false; int left = 0; ns_t est = 0; };
struct CSend { size_t size; ns_t start = -1, end = -1; std::string bytes; };       // a message leaving the client
struct CWorld { Proc *cl = nullptr; Tcp *lst = nullptr; std::deque<CConn> conns; Udp *u = nullptr; };
typedef std::shared_ptr<CWorld> CWorldP;

struct SrvOpt {
    int pps = 1;                 // requests per connection
    bool orders = false;         // answer in any order (free choice), else first come first served
    bool lazy = false;           // may also wait for more requests before answering (free choice)
    bool fail = false;           // may report failures (deviation)
    bool drop = false;           // may close or reset at any point (deviation)
    std::vector<int> cuts;       // may send a reply in two parts (deviation)
    bool batch = false;          // send all the pending answers as a single segment
    uint32_t reply = 40;         // reply size (at least 16)
    ns_t latency = 13 * US, establish = 1 * MS, readDelay = 0;
    size_t rxcap = 1 << 30;
};

inline void srvPump(CConn &x) {
    x.in += actRecv(x.c);
    for (auto &m : takeMsgs(x.in)) { CReq r; r.id = m.id; r.got = K->now; x.reqs.push_back(r); x.msgs.push_back(m); x.left++; }
}
inline std::string replyBytes(uint32_t id, uint32_t size, int status) { return wireReply(id, size, status); }

inline void srvHandle(CWorldP w, CConn &x, const SrvOpt &o) {
    auto drop = [&](bool rst) { x.dropped = true; x.reset = rst; actClose(x.c, rst); x.done = true; actStep(); };
    for (;;) {
        srvPump(x);
        if (x.c->rxeof || x.c->rst) { actClose(x.c); x.done = true; actStep(); return; }
        std::vector<size_t> pend; for (size_t i = 0; i < x.reqs.size(); i++) if (x.reqs[i].answered < 0) pend.push_back(i);
        bool more = (int)x.reqs.size() < o.pps;
        int na = pend.empty() ? 0 : o.orders ? (int)pend.size() : 1, nw = pend.empty() || (o.lazy && more) ? 1 : 0, nd = o.drop && !(pend.empty() && !more) ? 2 : 0;
        int c = choose(na + nw + nd, na + nw, "server");
        if (c >= na + nw) { drop(c - na - nw); return; }
        if (c >= na) {
            size_t n0 = x.c->rxtotal; actWait("requests or the end of the connection", [&] { return x.c->rxtotal > n0 || !x.c->rx.empty() || x.c->rxeof || x.c->rst; });
            if (o.readDelay) actSleepUntil(K->now + o.readDelay);
            continue;
        }
        std::vector<size_t> which; if (o.batch) which = pend; else which = {pend[c]};
        if (o.latency) { actSleepUntil(K->now + o.latency); }
        std::string b;
        for (size_t i : which) { CReq &r = x.reqs[i]; if (o.fail && chooseDev(2, "fail")) r.status = -1; b += replyBytes(r.id, o.reply, r.status); }
        size_t from = 0; auto deliver = [&](size_t to) { // the answers that end within [from,to) are there
            for (size_t j = 0; j < which.size(); j++) { size_t e = (j + 1) * o.reply; if (e > from && e <= to) x.reqs[which[j]].answered = K->now; }
            std::string part = b.substr(from, to - from); from = to; actSend(x.c, part); actStep(); };
        if (!o.cuts.empty()) {
            int k = chooseDev((int)o.cuts.size() + 1, "cut");
            if (k) {
                deliver(o.cuts[k - 1] < 0 ? b.size() + o.cuts[k - 1] : o.cuts[k - 1]); actSleepUntil(K->now + 5 * US);
                if (o.drop) { int d = chooseDev(3, "drop inside a reply"); if (d) { drop(d == 2); return; } }
            }
        }
        deliver(b.size());
    }
}
// a server that lets nconn connections in and treats each as the options say
inline void addServer(CWorldP w, int nconn, std::function<SrvOpt(int)> opt, uint16_t port = NODE_PORT) {
    w->lst = actListen(port, true);
    spawnDaemon("server", [=] {
        for (;;) {
            actWait("a connection", [=] { return !w->lst->synq.empty(); });
            SrvOpt o = opt((int)w->conns.size()); if (o.establish) actSleepUntil(K->now + o.establish);
            if (w->lst->synq.empty()) continue; // the client is gone
            int sock = w->lst->synq.front()->id; actEstablish(w->lst); Tcp *c = actAccept(w->lst); if (!c) continue;
            c->rxcap = o.rxcap; w->conns.emplace_back(); w->conns.back().c = c; w->conns.back().sock = sock; w->conns.back().est = K->now; actStep();
        }
    });
    for (int i = 0; i < nconn; i++) spawnDaemon(strf("conn%d", i), [=] {
        actWait("its connection", [=] { return (int)w->conns.size() > i; }); CConn &x = w->conns[i]; srvHandle(w, x, opt(i));
    });
}
// the same with datagrams: every socket of the client is a session; answers in any order
inline void addUdpServer(CWorldP w, SrvOpt o, uint16_t port = NODE_PORT) {
    w->u = actUdp(port);
    spawnDaemon("udpserver", [=] {
        for (;;) {
            auto pump = [&] { while (!w->u->rx.empty()) {
                Dgram d = w->u->rx.front(); w->u->rx.pop_front(); int sock = -1; for (auto ob : K->objs) if (ob->kind == K_UDP && !((Udp *)ob)->actor && ((Udp *)ob)->local.port == d.from.port) sock = ob->id;
                CConn *x = nullptr; for (auto &y : w->conns) if (y.sock == sock) x = &y;
                if (!x) { w->conns.emplace_back(); x = &w->conns.back(); x->sock = sock; x->left = d.from.port; }
                std::string b = d.data; auto ms = takeMsgs(b); if (ms.size() != 1 || !b.empty()) violate("a datagram does not hold exactly one request");
                CReq r; r.id = ms[0].id; r.got = K->now; x->reqs.push_back(r); x->msgs.push_back(ms[0]); } };
            pump();
            std::vector<std::pair<CConn *, size_t>> pend; bool more = false; for (auto &x : w->conns) { for (size_t i = 0; i < x.reqs.size(); i++) if (x.reqs[i].answered < 0) pend.push_back({&x, i}); if ((int)x.reqs.size() < o.pps) more = true; }
            int na = pend.empty() ? 0 : o.orders ? (int)pend.size() : 1, nw = pend.empty() || (o.lazy && more) ? 1 : 0, c = chooseFree(na + nw, "server");
            if (c >= na) { actWait("requests", [&] { return !w->u->rx.empty(); }); continue; }
            if (o.latency) { actSleepUntil(K->now + o.latency); }
            CReq &r = pend[c].first->reqs[pend[c].second]; if (o.fail && chooseDev(2, "fail")) r.status = -1;
            r.answered = K->now; actUdpSend(w->u, (uint16_t)pend[c].first->left, replyBytes(r.id, o.reply, r.status)); actStep();
        }
    });
}
// the messages the client handed to the kernel on one socket, complete or not
inline std::vector<CSend> sentOn(int sock) {
    std::vector<CSend> v; std::string buf; ns_t first = -1;
    for (auto &e : K->trace) if ((e.k == E_SEND && e.obj == sock && e.a > 0) || (e.k == E_UDPSEND && e.obj == sock)) {
        if (buf.empty()) first = e.t;
        size_t before = buf.size(); buf += e.s; (void)before;
        while (buf.size() >= 8) {
            uint32_t sz = get<uint32_t>(buf, 4); if (sz < HDR || sz > 70000) { violate("the client sent a malformed message (size field %u)", sz); return v; }
            if (buf.size() < sz) break;
            CSend s; s.size = sz; s.start = first; s.end = e.t; s.bytes = buf.substr(0, sz); v.push_back(s); buf.erase(0, sz); first = e.t;
        }
    }
    if (!buf.empty()) { CSend s; s.size = 0; s.start = first; s.bytes = buf; v.push_back(s); }
    return v;
}
inline int connectThread(int sock) { for (auto &e : K->trace) if ((e.k == E_CONNECT || e.k == E_SOCK) && e.obj == sock) return e.thr; return -1; }
inline ns_t connectTime(int sock) { for (auto &e : K->trace) if ((e.k == E_CONNECT || e.k == E_SOCK) && e.obj == sock) return e.t; return -1; }

struct CLine { long t, el; int id, thr, sess; };
inline std::vector<CLine> reportLines(const std::string &out) {
    std::vector<CLine> v; size_t p = 0;
    while (p < out.size()) {
        size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size();
        std::string l = out.substr(p, e - p); p = e + 1; CLine c;
        if (l.compare(0, 3, "t: ") == 0) {
            if (sscanf(l.c_str(), "t: %ld us, elapsed: %ld us, req_id: %d, thr_id: %d, sess_id: %d", &c.t, &c.el, &c.id, &c.thr, &c.sess) != 5) violate("unreadable report line: %s", l.c_str());
            v.push_back(c);
        }
    }
    return v;
}
// the report against what happened on the wire. Time only passes while the program is idle, so the values are exact up to the rounding to microseconds.
inline void checkReport(CWorld &w, int threads, int pps) {
    auto lines = reportLines(w.cl->out);
    struct Want { long t, el; int id, sess; bool must; };
    std::map<int, std::vector<Want>> want; std::map<int, int> sess; // by connecting thread
    for (auto &x : w.conns) {
        int th = connectThread(x.sock), s = sess[th]++; auto sent = sentOn(x.sock); auto &v = want[th];
        for (size_t i = 0; i < sent.size(); i++) {
            if (!sent[i].size && sent[i].bytes.size() < 8) continue; // cut before its number
            Want q; q.id = get<int32_t>(sent[i].bytes, 0); q.sess = s; q.t = sent[i].start / US; q.el = 0; q.must = sent[i].size > 0;
            for (size_t j = 0; j < x.reqs.size(); j++) if ((int)x.reqs[j].id == q.id && x.reqs[j].answered >= 0 && !x.reqs[j].status) q.el = (long)((x.reqs[j].answered - sent[i].start) / US);
            v.push_back(q);
        }
        (void)pps;
    }
    std::map<int, std::vector<CLine>> got; for (auto &l : lines) got[l.thr].push_back(l);
    for (auto &g : got) if (g.first < 0 || g.first >= threads) violate("a report line names thread %d", g.first);
    std::string why;
    auto match = [&](const std::vector<Want> &a, const std::vector<CLine> &b) -> bool {
        std::set<std::pair<int, int>> seen;
        for (auto &l : b) {
            if (!seen.insert({l.sess, l.id}).second) { why = strf("two report lines for request %d", l.id); return false; }
            const Want *q = nullptr; for (auto &y : a) if (y.id == l.id && y.sess == l.sess) q = &y;
            if (!q) { if (l.el == 0) { bool lastAttempt = true; for (auto &y : a) if (y.sess == l.sess && y.id > l.id) lastAttempt = false; int before = 0; for (auto &y : a) if (y.sess == l.sess) before++; if (lastAttempt && l.id == l.sess * pps + before && l.t > 0) continue; } // its sending failed
                why = strf("a report line for request %d of session %d (t %ld, elapsed %ld), which was never sent", l.id, l.sess, l.t, l.el); return false; }
            if (labs(q->t - l.t) > 1) { why = strf("request %d: reported send time %ld us, sent at %ld us", l.id, l.t, q->t); return false; }
            if (labs(q->el - l.el) > 1 || (q->el == 0) != (l.el == 0)) { why = strf("request %d of session %d: reported elapsed time %ld us, measured %ld us", l.id, l.sess, l.el, q->el); return false; }
        }
        for (auto &y : a) if (y.must && !seen.count({y.sess, y.id})) { why = strf("no report line for request %d of session %d, which was sent", y.id, y.sess); return false; }
        return true;
    };
    std::vector<int> ths; for (auto &q : want) ths.push_back(q.first);
    std::vector<int> ids; for (int i = 0; i < threads; i++) ids.push_back(i);
    if ((int)ths.size() != threads) violate("%zu threads opened connections instead of %d", ths.size(), threads);
    bool ok = false; do { bool all = true; for (int i = 0; i < threads && all; i++) all = match(want[ths[i]], got[ids[i]]); ok |= all; } while (!ok && std::next_permutation(ids.begin(), ids.end()));
    if (!ok) violate("%s", why.c_str());
}
inline std::vector<std::string> clientArgs(std::vector<std::string> a) { a.insert(a.begin(), "dw_client"); return a; }
