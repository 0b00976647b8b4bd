// C18: the bounded queue behaves as a double-ended queue.
#include "unit.h"

struct DQ : UnitModel {
    int cap, nk; void *q = nullptr; struct El { void *h; int key; long val; }; std::deque<El> d; int next = 0;
    void *(*alloc)(int); void (*fre)(void *); void *(*enqueue)(void *, int, long); void (*dqhead)(void *), (*dqtail)(void *), (*dropall)(void *); void *(*head)(void *), *(*tail)(void *); int (*size)(void *), (*capacity)(void *), (*key)(void *); long (*val)(void *); std::string err;
    DQ(Module *m, int c, int k) : cap(c), nk(k) {
        alloc = usym<void *(int)>(m, "u_alloc"); fre = usym<void(void *)>(m, "u_free"); enqueue = usym<void *(void *, int, long)>(m, "u_enqueue"); dqhead = usym<void(void *)>(m, "u_dqhead"); dqtail = usym<void(void *)>(m, "u_dqtail"); dropall = usym<void(void *)>(m, "u_dropall"); head = usym<void *(void *)>(m, "u_head"); tail = usym<void *(void *)>(m, "u_tail");
        size = usym<int(void *)>(m, "u_size"); capacity = usym<int(void *)>(m, "u_capacity"); key = usym<int(void *)>(m, "u_key"); val = usym<long(void *)>(m, "u_val");
    }
    void init() override { if (q) fre(q); q = alloc(cap); d.clear(); next = 0; }
    int ops() override { return nk + 3; }
    bool enabled(int) override { return true; }
    void apply(int op) override {
        err = "";
        if (op < nk) {
            long v = 100 + next; int k = op == 0 ? INT_MIN : op; next = (next + 1) % (cap + 1); void *h = enqueue(q, k, v); // tells apart the elements present at the same time
            if ((int)d.size() == cap) { if (h) err = "an element was accepted beyond the capacity"; }
            else if (!h) err = "an element was refused although there is room"; else d.push_back({h, k, v});
        } else if (op == nk) { dqhead(q); if (!d.empty()) d.pop_front(); }
        else if (op == nk + 1) { dqtail(q); if (!d.empty()) d.pop_back(); }
        else { dropall(q); d.clear(); }
    }
    std::string judge() override {
        if (!err.empty()) return err;
        if (size(q) != (int)d.size()) return strf("size %d instead of %zu", size(q), d.size());
        if (capacity(q) != cap) return "the capacity changed";
        void *h = head(q), *t = tail(q);
        if (d.empty()) return h || t ? "the empty queue has a head or a tail" : "";
        if (!h || !t) return "no head or tail";
        if (key(h) != d.front().key || val(h) != d.front().val) return strf("the head is (%d,%ld) instead of (%d,%ld)", key(h), val(h), d.front().key, d.front().val);
        if (key(t) != d.back().key || val(t) != d.back().val) return strf("the tail is (%d,%ld) instead of (%d,%ld)", key(t), val(t), d.back().key, d.back().val);
        for (auto &e : d) if (key(e.h) != e.key || val(e.h) != e.val) return "an element in the middle changed";
        return "";
    }
    std::string probe() override { // emptying it from the head
        for (size_t i = 0; i < d.size(); i++) { void *h = head(q); if (!h || key(h) != d[i].key || val(h) != d[i].val) return strf("%zu dequeues from the head: element %zu is not the next one", i, i); dqhead(q); }
        return size(q) || head(q) ? "dequeueing every element: the queue is not empty" : "";
    }
    std::string opName(int op) override { return op < nk ? strf("enqueue(%d)", op) : op == nk ? "dequeue head" : op == nk + 1 ? "dequeue tail" : "drop"; }
    std::string save() override { std::string s((char *)&next, sizeof next); for (auto &e : d) s.append((char *)&e, sizeof e); return s; }
    void load(const std::string &s) override { memcpy((char *)&next, s.data(), sizeof next); d.clear(); for (size_t o = sizeof next; o < s.size(); o += sizeof(El)) { El e; memcpy((char *)&e, s.data() + o, sizeof e); d.push_back(e); } }
};

int main(int argc, char **argv) {
    CheckSpec spec; spec.property = "C18"; spec.rule = "every operation (enqueue of each key, dequeue at both ends, drop) from every reachable memory state of the queue, to closure or to the stated depth; a state is the memory of the queue plus the reference"; spec.assumptions = {"none beyond the listed capacities"};
    bool T = thorough();
    auto add = [&](const std::string &n, int cap, int nk, size_t maxStates, int depth) {
        Scenario s; s.name = strf("%s-cap%d", n.c_str(), cap); s.budget = 0;
        s.setup = [=](Kernel &) { Proc *p = spawnUnit("c18", [=](Module *m) { DQ dq(m, cap, nk); searchStates(dq, maxStates, depth, 8); });
            spawnActor("judge", [=] { actWait("the unit", [=] { return p->exited; }); if (p->status) violate("exit status %d", p->status); }); };
        spec.scenarios.push_back(s);
    };
    for (int c = 1; c <= 5; c++) add("1key", c, 1, 3000000, 1000);
    for (int c = 1; c <= 3; c++) add("2keys", c, 2, 3000000, 1000);
    add("1key", 8, 1, 3000000, T ? 24 : 19); add("2keys", 5, 2, 3000000, T ? 14 : 11); add("1key", 16, 1, 3000000, T ? 22 : 19);
    return runCheck(spec, argc, argv);
}
